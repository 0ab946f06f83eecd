/* C18, C19: whole workloads of the other properties, judged only by what they leave behind and whether they end. */
#include "common.hxx"
#include "guard.hxx"
#include <sc.h>
#include <p4est.h>
#include <cstring>
namespace
{
Property pick ()
{
  std::vector<Property> v;
  for (auto &p : registered_properties ()) if (strcmp (p.id, "C18") && strcmp (p.id, "C19")) v.push_back (p);
  Property p = v[choose (sim::W, (uint32_t) v.size ())];
  sim::note ("workload of %s", p.id);
  return p;
}
const char *names[] = { "libsc", "t8code", "p4est", "the default package" };
void memory (int m[4])
{
  m[0] = sc_memory_status (sc_package_id);
  m[1] = sc_memory_status (t8_get_package_id ());
  m[2] = sc_memory_status (p4est_package_id);
  m[3] = sc_memory_status (-1);
}
void body18 ()
{
  sim::only_classes = { "leak" };
  Property p = pick ();
  int a[4], b[4];
  memory (a);
  sim::Live l = sim::live ();
  int files = sim::fs_open_files ();
  size_t at = sim::tape_pos (sim::W);
  long left = 0;
  /* Objects made by new may be kept for good by static containers; what grows with every repetition is lost. */
  for (int i = 0; i < 4; i++) {
    sim::tape_rewind (sim::W, at);
    guard::mark (sim::verbose);
    p.body ();
    sim::finalize ();
    left = guard::live (sim::verbose);
    if (!left) break;
  }
  memory (b);
  for (int i = 0; i < 4; i++) if (b[i] != a[i]) fail ("leak", "%d allocations of %s were never freed", b[i] - a[i], names[i]);
  if (guard::lines ()) fail ("leak", "%d lines of a text file that was read were never freed", guard::lines ());
  if (left) fail ("leak", "%ld objects made by new were never deleted", left);
  sim::Live e = sim::live ();
#define L(x, what) if (e.x != l.x) fail ("leak", "%ld %s are left over", (long) (e.x - l.x), what)
  L (msgs, "messages that nobody received");
  L (recvs, "receives that got no message");
  L (requests, "requests that were never completed");
  L (comms, "communicators");
  L (groups, "groups");
  L (wins, "shared memory windows");
  L (types, "data types");
  L (ops, "reduction operations");
  if (sim::fs_open_files () != files) fail ("leak", "%d files were never closed", sim::fs_open_files () - files);
}
void body19 ()
{
  sim::only_classes = { "deadlock", "livelock", "hang", "collective-mismatch", "truncation", "mpi-usage", "send-buffer-reuse", "pack-overflow" };
  pick ().body ();
}
}
PROPERTY ("C18", body18)
PROPERTY ("C19", body19)
