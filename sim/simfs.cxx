/* Simulated disk behind stdio: fopen (linker wrap) returns a cookie stream on an
 * in-memory file table, so that no byte reaches the real file system.  stdio
 * buffering above it is real, hence errors surface where they do in practice:
 * in fwrite, fflush or only in fclose. */
#include "sim.hxx"
#include "guard.hxx"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>

extern "C" {
FILE *__real_fopen (const char *, const char *);
FILE *__wrap_fopen (const char *, const char *);
FILE *__real_fopen64 (const char *, const char *);
FILE *__wrap_fopen64 (const char *, const char *);
}
namespace sim
{
FILE *real_fopen (const char *a, const char *b) { return __real_fopen (a, b); }
int real_fclose (FILE *f) { return fclose (f); }

static std::map<std::string, std::shared_ptr<std::string>> files;
static FsFaults ff;
static int fired = 0, nopen = 0;
static std::map<int, int> fired_by, open_by;
static void hit (int r) { fired++; fired_by[r]++; }

struct Handle
{
  std::shared_ptr<std::string> d;
  std::string name;
  size_t pos = 0;
  bool append = false, rd = false, wr = false;
  int rank = -1;
};
static bool on (const Handle *h) { return ff.enabled && (ff.only_rank < 0 || ff.only_rank == h->rank); }
static ssize_t c_read (void *c, char *buf, size_t n)
{
  guard::Sim own_;
  Handle *h = (Handle *) c;
  if (on (h) && ff.read_err_pm && chance (F, ff.read_err_pm)) {
    count (K_FS_EIO_READ);
    hit (h->rank);
    event ("disk: read error in %s at %zu", h->name.c_str (), h->pos);
    errno = EIO;
    return -1;
  }
  if (h->pos >= h->d->size ()) return 0;
  size_t k = std::min (n, h->d->size () - h->pos);
  if (on (h) && ff.short_read_pm && k > 1 && chance (F, ff.short_read_pm)) {
    k = 1 + choose (F, (uint32_t) std::min<size_t> (k - 1, 1000));
    count (K_FS_SHORT_READ);
  }
  memcpy (buf, h->d->data () + h->pos, k);
  h->pos += k;
  return (ssize_t) k;
}
static ssize_t c_write (void *c, const char *buf, size_t n)
{
  guard::Sim own_;
  Handle *h = (Handle *) c;
  size_t k = n;
  int err = 0;
  if (on (h)) {
    if (ff.write_budget >= 0 && (size_t) ff.write_budget < k) {
      k = (size_t) ff.write_budget;
      err = ENOSPC;
      count (K_FS_ENOSPC);
    }
    else if (ff.write_err_pm && chance (F, ff.write_err_pm)) { k = 0; err = EIO; count (K_FS_ENOSPC); }
    else if (ff.short_write_pm && n > 1 && chance (F, ff.short_write_pm)) {
      k = 1 + choose (F, (uint32_t) (n - 1));
      if (k < n) { err = EIO; count (K_FS_SHORT_WRITE); }
    }
    if (ff.write_budget >= 0) ff.write_budget -= (long) k;
  }
  if (h->append) h->pos = h->d->size ();
  if (h->pos + k > h->d->size ()) h->d->resize (h->pos + k);
  memcpy (&(*h->d)[h->pos], buf, k);
  h->pos += k;
  event ("disk: write %zu of %zu to %s", k, n, h->name.c_str ());
  if (err) { hit (h->rank); errno = err; }
  if (ff.enabled && ff.crash_after_bytes >= 0) {
    ff.crash_after_bytes -= (long) k;
    if (ff.crash_after_bytes < 0 && in_fiber ()) {
      count (K_FS_CRASH);
      /* the last write is torn */
      size_t lost = (size_t) std::min<long> (-ff.crash_after_bytes, (long) k);
      h->d->resize (h->d->size () - std::min (lost, h->d->size ()));
      ff.enabled = false;
      crash_job ();
    }
  }
  return k < n ? (ssize_t) k : (ssize_t) n;
}
static int c_seek (void *c, off64_t *off, int wh)
{
  guard::Sim own_;
  Handle *h = (Handle *) c;
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t) h->pos : (off64_t) h->d->size ();
  if (b + *off < 0) return -1;
  h->pos = (size_t) (b + *off);
  *off = (off64_t) h->pos;
  return 0;
}
static int c_close (void *c)
{
  guard::Sim own_;
  Handle *h = (Handle *) c;
  int r = 0;
  nopen--;
  open_by[h->rank]--;
  if (on (h) && h->wr && ff.close_fail_pm && chance (F, ff.close_fail_pm)) {
    count (K_FS_CLOSE_FAIL);
    hit (h->rank);
    /* what the system had accepted before is lost in part */
    size_t lost = choose (F, 2000);
    h->d->resize (h->d->size () - std::min (lost, h->d->size ()));
    errno = EIO;
    r = -1;
  }
  event ("disk: close %s", h->name.c_str ());
  delete h;
  return r;
}
void fs_reset () { files.clear (); ff = FsFaults (); fired = 0; fired_by.clear (); }
void fs_set (const FsFaults &f) { ff = f; fired = 0; fired_by.clear (); }
bool fs_exists (const std::string &n) { return files.count (n) > 0; }
std::string fs_get (const std::string &n) { return files.count (n) ? *files[n] : std::string (); }
void fs_put (const std::string &n, const std::string &d) { guard::Sim own_; files[n] = std::make_shared<std::string> (d); }
void fs_remove (const std::string &n) { files.erase (n); }
std::vector<std::string> fs_list ()
{
  std::vector<std::string> v;
  for (auto &p : files) v.push_back (p.first);
  return v;
}
int fs_faults_fired () { return fired; }
int fs_open_files () { return nopen; }
int fs_open_files_of (int r) { guard::Sim own_; return open_by[r]; }
int my_fs_faults () { guard::Sim own_; return fired_by[rank ()]; }
}
using namespace sim;
extern "C" FILE *__wrap_fopen (const char *name, const char *mode)
{
  guard::Sim own_;
  Handle probe;
  probe.rank = rank ();
  bool rd = strchr (mode, 'r') != nullptr;
  event ("disk: rank %d open %s %s", rank (), name, mode);
  if (on (&probe) && ff.open_fail_pm && chance (F, ff.open_fail_pm)) {
    count (K_FS_OPEN_FAIL);
    hit (rank ());
    errno = rd ? EMFILE : EACCES;
    return nullptr;
  }
  if (rd && !files.count (name)) { errno = ENOENT; return nullptr; }
  Handle *h = new Handle;
  h->name = name;
  h->rank = rank ();
  h->rd = rd || strchr (mode, '+');
  h->wr = !rd || strchr (mode, '+');
  h->append = strchr (mode, 'a') != nullptr;
  if (!files.count (name)) files[name] = std::make_shared<std::string> ();
  else if (strchr (mode, 'w')) files[name]->clear ();
  h->d = files[name];
  cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
  FILE *f = fopencookie (h, mode, io);
  if (!f) { delete h; return nullptr; }
  if (ff.enabled && ff.bufsize) setvbuf (f, nullptr, _IOFBF, (size_t) ff.bufsize);
  nopen++;
  open_by[h->rank]++;
  return f;
}
extern "C" FILE *__wrap_fopen64 (const char *n, const char *m) { return __wrap_fopen (n, m); }
