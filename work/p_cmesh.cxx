/* C12: a partitioned coarse mesh, however it was built and re-partitioned, is
 * this rank's share of the described mesh and nothing else. */
#include "cmodel.hxx"
#include <t8_data/t8_shmem.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
namespace
{
enum { D_TABLE, D_UNIFORM, D_CONCENTRATE, D_RANDOM, D_HALF, D_PERCENT, D_COPY, D_RANGE, D_N };
const char *dname[] = { "partition by table", "partition by uniform level", "concentrate on one rank", "random partition", "send half to the next", "send a percentage to the next", "copy", "partition by ranges" };
struct Derive { int kind = 0, arg = 0; CPart part; bool keep = false; };

t8_shmem_array_t put_table (const std::vector<t8_gloidx_t> &tab, sc_MPI_Comm comm)
{
  int P = (int) tab.size () - 1;
  t8_shmem_init (comm);
  t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
  t8_shmem_array_t a = t8_cmesh_alloc_offsets (P, comm);
  if (t8_shmem_array_start_writing (a))
    for (int i = 0; i <= P; i++) t8_shmem_array_set_gloidx (a, i, tab[i]);
  t8_shmem_array_end_writing (a);
  return a;
}
std::vector<t8_gloidx_t> get_table (t8_cmesh_t c, int P)
{
  std::vector<t8_gloidx_t> t;
  t8_shmem_array_t a = t8_cmesh_get_partition_table (c);
  for (int i = 0; a && i <= P; i++) t.push_back (t8_shmem_array_get_gloidx (a, i));
  return t;
}
/* a table must be a legal one: every tree on at least one rank, in order */
void check_table (const char *where, const std::vector<t8_gloidx_t> &t, long N)
{
  CPart p = part_of_table (t);
  if (p.table () != t) fail ("table", "%s: illegal partition %s", where, p.str ().c_str ());
  long next = 0;
  for (size_t i = 0; i < p.first.size (); i++) {
    if (!p.num[i]) continue;
    long want = p.shared[i] ? next - 1 : next;
    if (p.first[i] != want) fail ("table", "%s: rank %zu starts at tree %ld, should be %ld (%s)", where, i, p.first[i], want, p.str ().c_str ());
    next = p.first[i] + p.num[i];
  }
  if (next != N) fail ("table", "%s: covers %ld of %ld trees (%s)", where, next, N, p.str ().c_str ());
}

void body ()
{
  World w = draw_world (7);
  CSpec s = draw_cspec (0);
  int build = choose (sim::W, 4);     /* 0 replicated, 1 partitioned and everything given, 2 partitioned and only the own part given, 3 as 1 with a table */
  bool wild_empty = chance (sim::W, 300);
  uint32_t order = choose (sim::W, 1 << 16);
  bool per_rank_order = chance (sim::W, 500);
  sim::note ("%s", w.str ().c_str ());
  s.describe ();
  std::vector<Derive> d[2];
  CPart part0[2];
  static const char *bn[] = { "replicated", "partitioned, every rank gives the whole mesh", "partitioned, every rank gives its part", "partitioned by a table" };
  int nd = range (sim::W, 0, 4);
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) {
    int P = w.size (g);
    part0[g] = draw_cpart (s.n (), P);
    sim::note ("group %d: %s order %u%s%s %s", g, bn[build], order, per_rank_order ? " per rank" : "", wild_empty ? " wild empty ranges" : "", build ? part0[g].str ().c_str () : "");
    for (int i = 0; i < nd; i++) {
      Derive x;
      x.kind = choose (sim::W, D_N);
      x.arg = choose (sim::W, 1000);
      x.keep = chance (sim::W, 400);
      if (x.kind == D_TABLE || x.kind == D_RANGE) x.part = draw_cpart (s.n (), P);
      sim::note ("group %d: then %s %d%s %s", g, dname[x.kind], x.arg, x.keep ? ", the old one is kept" : "", (x.kind == D_TABLE || x.kind == D_RANGE) ? x.part.str ().c_str () : "");
      d[g].push_back (x);
    }
  }
  cmodel_pkg (0);
  std::vector<std::vector<t8_gloidx_t>> tabs[2];
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    std::vector<std::string> keep;
    uint64_t oseed = order ? sim::mix (order + (per_rank_order ? 1000 * r : 0)) : 0;
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    fill_cmesh (c, s, oseed, build == 2 ? &part0[g] : nullptr, r, keep);
    const CPart *cur = build ? &part0[g] : nullptr;
    CPart now;
    if (build == 1 || build == 2) {
      const CPart &p = part0[g];
      long f = p.first[r], l = f + p.num[r] - 1;
      if (p.num[r] == 0) { f = p.table ()[r]; l = f - 1; if (wild_empty) { f = (long) ((order + 3 * r) % (s.n () + 1)); l = f - 1 - (long) (order % 3); } }
      t8_cmesh_set_partition_range (c, 3, p.num[r] && p.shared[r] ? -f - 1 : f, l);
    }
    if (build == 3) {
      t8_cmesh_set_partition_range (c, 3, 0, -1);   /* sets the face knowledge */
      t8_cmesh_set_partition_offsets (c, put_table (part0[g].table (), comm));
    }
    t8_cmesh_commit (c, comm);
    check_cmesh ("new", c, s, cur, r, P);
    if (cur) now = *cur;
    for (size_t i = 0; i < d[g].size (); i++) {
      const Derive &x = d[g][i];
      t8_cmesh_t n;
      t8_cmesh_init (&n);
      CPart next = now;
      bool npart = cur != nullptr;
      t8_cmesh_ref (c);
      t8_cmesh_set_derive (n, c);
      std::string where = std::string (dname[x.kind]);
      auto use = [&] (t8_shmem_array_t a) {
        std::vector<t8_gloidx_t> t;
        for (int k = 0; k <= P; k++) t.push_back (t8_shmem_array_get_gloidx (a, k));
        check_table (where.c_str (), t, s.n ());
        next = part_of_table (t);
        npart = true;
        if (r == 0) sim::event ("%s", next.str ().c_str ());
        if (r == 0) sim::note ("group %d: (%s)", g, next.str ().c_str ());
        t8_cmesh_set_partition_offsets (n, a);
        return t;
      };
      switch (x.kind) {
      case D_TABLE:
        next = x.part;
        npart = true;
        t8_cmesh_set_partition_offsets (n, put_table (x.part.table (), comm));
        break;
      case D_RANGE: {
        next = x.part;
        npart = true;
        long f = next.first[r], l = f + next.num[r] - 1;
        if (next.num[r] == 0) { f = next.table ()[r]; l = f - 1; }
        t8_cmesh_set_partition_range (n, 3, next.num[r] && next.shared[r] ? -f - 1 : f, l);
        break;
      }
      case D_UNIFORM:
        npart = true;
        t8_cmesh_set_partition_uniform (n, x.arg % 3, t8_scheme_new_default ());
        break;
      case D_CONCENTRATE: {
        auto t = use (t8_cmesh_offset_concentrate (x.arg % P, comm, s.n ()));
        if (next.num[x.arg % P] != s.n ()) fail ("table", "concentrating on rank %d gives %s", x.arg % P, next.str ().c_str ());
        break;
      }
      case D_RANDOM: use (t8_cmesh_offset_random (comm, s.n (), x.arg & 1, 1 + x.arg)); break;
      case D_HALF:
      case D_PERCENT: {
        if (!cur) { t8_cmesh_set_partition_uniform (n, 0, t8_scheme_new_default ()); npart = true; break; }
        bool sh = false;
        for (auto q : now.shared) sh |= q;
        if (sh) { t8_cmesh_set_partition_uniform (n, 0, t8_scheme_new_default ()); npart = true; break; }
        int pct = x.kind == D_HALF ? 50 : x.arg % 101;
        use (x.kind == D_HALF ? t8_cmesh_offset_half (c, comm) : t8_cmesh_offset_percent (c, comm, pct));
        break;
      }
      case D_COPY: break;
      }
      t8_cmesh_commit (n, comm);
      if (x.kind == D_UNIFORM || ((x.kind == D_HALF || x.kind == D_PERCENT) && npart && next.first.size () == 0) || ((x.kind == D_HALF || x.kind == D_PERCENT))) {
        auto t = get_table (n, P);
        check_table (where.c_str (), t, s.n ());
        next = part_of_table (t);
      }
      check_cmesh (where.c_str (), n, s, npart ? &next : nullptr, r, P);
      if (x.kind == D_COPY && !t8_cmesh_is_equal (c, n)) fail ("copy-differs", "rank %d: the copy of a coarse mesh is not equal to it", r);
      if (x.keep) check_cmesh ("the source, after deriving", c, s, cur, r, P);
      t8_cmesh_unref (&c);
      c = n;
      now = next;
      cur = npart ? &now : nullptr;
      check_cmesh ((where + ", after the source is gone").c_str (), c, s, cur, r, P);
    }
    t8_cmesh_destroy (&c);
  });
  sim::state (cspec_hash (s));
}
}
PROPERTY ("C12", body)
