/* C17: an array in shared memory has the same contents for every process. */
#include "common.hxx"
#include <t8_data/t8_shmem.h>
#include <cstring>
namespace
{
const sc_shmem_type_t types[] = { SC_SHMEM_BASIC, SC_SHMEM_PRESCAN,
#if defined(SC_ENABLE_MPIWINSHARED)
                                  SC_SHMEM_WINDOW, SC_SHMEM_WINDOW_PRESCAN
#endif
};
const int ntypes = sizeof types / sizeof *types;
enum { A_GATHER, A_GATHERV, A_PREFIX, A_WRITE, A_COPY, A_REWRITE, A_N };
const char *an[] = { "allgather", "allgatherv", "prefix", "write", "copy", "overwrite" };
struct Act { int kind, dt, count, op; uint32_t seed; bool pause; };
uint64_t val (uint32_t seed, int rank, int i) { return sim::mix (sim::mix (seed + 1) + 131 * rank + i); }
int nval (const Act &a, int rank) { return a.kind == A_GATHERV ? (int) (val (a.seed, rank, -7) % 4) : a.count; }
void put (const Act &a, uint64_t v, std::vector<char> &out)
{
  int x = (int) (v % 1000000);
  if (a.dt == 0) { out.insert (out.end (), (char *) &x, (char *) &x + sizeof x); return; }
  if (a.dt == 1) { t8_gloidx_t g = ((t8_gloidx_t) (v % 100000) << 32) + x; out.insert (out.end (), (char *) &g, (char *) &g + sizeof g); return; }
  if (a.dt == 2) { double d = x; out.insert (out.end (), (char *) &d, (char *) &d + sizeof d); return; }
  out.push_back ((char) v);
}
template <class T> void scan (std::vector<char> &all, int P, int count, int op)
{
  std::vector<T> v (all.size () / sizeof (T)), r ((P + 1) * count);
  memcpy (v.data (), all.data (), all.size ());
  for (int p = 0; p < P; p++)
    for (int k = 0; k < count; k++) {
      T a = r[p * count + k], b = v[p * count + k];
      r[(p + 1) * count + k] = op ? std::max (a, b) : a + b;
    }
  all.assign ((char *) r.data (), (char *) (r.data () + r.size ()));
}
/* what every process must see */
std::vector<char> expect (const Act &a, int P)
{
  std::vector<char> all;
  for (int p = 0; p < (a.kind == A_WRITE || a.kind == A_REWRITE ? 1 : P); p++)
    for (int i = 0; i < nval (a, p); i++) put (a, val (a.seed, p, i), all);
  if (a.kind == A_PREFIX) {
    if (a.dt == 0) scan<int> (all, P, a.count, 0);
    else if (a.dt == 1) scan<t8_gloidx_t> (all, P, a.count, 0);
    else scan<double> (all, P, a.count, 0);
  }
  return all;
}
int cmp (t8_shmem_array_t a, const int i, const t8_gloidx_t v)
{
  if (i < 0 || (size_t) i >= t8_shmem_array_get_elem_count (a)) fail ("search", "the search looked at entry %d of %zu", i, t8_shmem_array_get_elem_count (a));
  t8_gloidx_t x = t8_shmem_array_get_gloidx (a, i);
  return v < x ? -1 : v > x;
}
void body ()
{
  World w = draw_world (8);
  int na = range (sim::W, 1, 5);
  int type0 = choose (sim::W, ntypes + 1);
  std::vector<Act> acts;
  bool reinit = chance (sim::W, 200);
  sim::note ("%s, shared memory type %d%s", w.str ().c_str (), type0, reinit ? ", initialised twice" : "");
  for (int i = 0; i < na; i++) {
    Act a;
    a.kind = choose (sim::W, A_N);
    a.dt = choose (sim::W, a.kind == A_PREFIX ? 3 : 4);
    a.count = range (sim::W, 1, 4);
    if (chance (sim::W, 100)) a.count = range (sim::W, 5, 400);
    a.op = choose (sim::W, 2);
    a.seed = choose (sim::W, 1 << 20);
    a.pause = chance (sim::W, 500);
    acts.push_back (a);
    sim::note ("step %d: %s of type %d, %d per process, op %d, seed %u", i, an[a.kind], a.dt, a.count, a.op, a.seed);
  }
  static const size_t sz[] = { sizeof (int), sizeof (t8_gloidx_t), sizeof (double), 1 };
  run_world (w, [&] (sc_MPI_Comm comm, int) {
    const sc_MPI_Datatype mt[] = { sc_MPI_INT, T8_MPI_GLOIDX, sc_MPI_DOUBLE, sc_MPI_BYTE };
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    int n = t8_shmem_init (comm);
    if (reinit && t8_shmem_init (comm) != n) fail ("init", "the number of processes per node changed");
    if (n < 1 || n > P) fail ("init", "%d processes on the node, %d in the communicator", n, P);
    if (type0 < ntypes) t8_shmem_set_type (comm, types[type0]);
    std::vector<t8_shmem_array_t> arr;
    std::vector<std::vector<char>> want;
    auto check = [&] (size_t i, const char *when) {
      if (want[i].empty ()) return;
      const char *d = (const char *) t8_shmem_array_get_array (arr[i]);
      for (size_t k = 0; k < want[i].size (); k++)
        if (d[k] != want[i][k]) fail ("contents", "rank %d sees other contents of array %zu (%s) at byte %zu %s", r, i, an[acts[i].kind], k, when);
    };
    for (size_t i = 0; i < acts.size (); i++) {
      const Act &a = acts[i];
      std::vector<char> ex = expect (a, P), mine;
      for (int k = 0; k < nval (a, r); k++) put (a, val (a.seed, r, k), mine);
      size_t esz = sz[a.dt], cnt = ex.size () / esz;
      t8_shmem_array_t x = nullptr;
      if (a.kind == A_COPY && i == 0) { arr.push_back (nullptr); want.push_back ({}); continue; }
      size_t from = a.kind == A_COPY || a.kind == A_REWRITE ? a.seed % (i ? i : 1) : 0;
      if (a.kind == A_COPY) {
        if (!arr[from]) { arr.push_back (nullptr); want.push_back ({}); continue; }
        esz = t8_shmem_array_get_elem_size (arr[from]);
        cnt = t8_shmem_array_get_elem_count (arr[from]);
        ex = want[from];
      }
      if (cnt == 0) { arr.push_back (nullptr); want.push_back ({}); continue; }
      if (a.kind == A_REWRITE) {
        /* all processes overwrite an array that is in use */
        arr.push_back (nullptr);
        want.push_back ({});
        if (i == 0 || !arr[from] || want[from].empty ()) continue;
        check (from, "before it is overwritten");
        sc_MPI_Barrier (comm);          /* starting to write does not wait for those who still read */
        if (t8_shmem_array_start_writing (arr[from])) {
          size_t e = t8_shmem_array_get_elem_size (arr[from]);
          for (size_t k = 0; k < t8_shmem_array_get_elem_count (arr[from]); k++) {
            char *q = (char *) t8_shmem_array_index_for_writing (arr[from], k);
            for (size_t b = 0; b < e; b++) q[b] = (char) val (a.seed, 3, (int) (k * e + b));
          }
        }
        t8_shmem_array_end_writing (arr[from]);
        for (size_t b = 0; b < want[from].size (); b++) want[from][b] = (char) val (a.seed, 3, (int) b);
        check (from, "after it was overwritten");
        continue;
      }
      t8_shmem_array_init (&x, esz, cnt, comm);
      if (t8_shmem_array_get_elem_size (x) != esz || t8_shmem_array_get_elem_count (x) != cnt || t8_shmem_array_get_comm (x) != comm) fail ("meta", "wrong size or communicator");
      arr.push_back (x);
      want.push_back (ex);
      switch (a.kind) {
      case A_GATHER: t8_shmem_array_allgather (mine.data (), a.count, mt[a.dt], x, a.count, mt[a.dt]); break;
      case A_GATHERV: t8_shmem_array_allgatherv (mine.data (), nval (a, r), mt[a.dt], x, mt[a.dt], comm); break;
      case A_PREFIX: t8_shmem_array_prefix (mine.data (), x, a.count, mt[a.dt], sc_MPI_SUM, comm); break;
      case A_WRITE: {
        int may = t8_shmem_array_start_writing (x);
        if (may) {
          if (a.dt == 1 && a.op) for (size_t k = 0; k < cnt; k++) { t8_gloidx_t g; memcpy (&g, &ex[k * 8], 8); t8_shmem_array_set_gloidx (x, (int) k, g); }
          else if (a.dt == 1) memcpy (t8_shmem_array_get_gloidx_array_for_writing (x), ex.data (), ex.size ());
          else for (size_t k = 0; k < cnt; k++) memcpy (t8_shmem_array_index_for_writing (x, k), &ex[k * esz], esz);
        }
        t8_shmem_array_end_writing (x);
        break;
      }
      case A_COPY: t8_shmem_array_copy (x, arr[from]); break;
      }
      check (i, "right after the call");
      if (a.pause) sc_MPI_Barrier (comm);
      for (size_t k = 0; k < i; k++) if (arr[k]) check (k, "later");
      for (size_t k = 0; k <= i; k++) {
        if (!arr[k]) continue;
        bool same = esz == t8_shmem_array_get_elem_size (arr[k]) && cnt == t8_shmem_array_get_elem_count (arr[k]) && want[k] == want[i];
        if (!!t8_shmem_array_is_equal (x, arr[k]) != same) fail ("equal", "rank %d: arrays %zu and %zu compare %s", r, k, i, same ? "different" : "equal");
      }
      if (acts[i].kind != A_COPY && a.dt == 1 && esz == 8) {
        const t8_gloidx_t *g = t8_shmem_array_get_gloidx_array (x);
        bool sorted = true;
        for (size_t k = 1; k < cnt; k++) if (g[k] < g[k - 1]) sorted = false;
        for (size_t k = 0; k < cnt; k++) {
          if (t8_shmem_array_get_gloidx (x, (int) k) != g[k] || t8_shmem_array_index (x, k) != (const void *) (g + k)) fail ("access", "rank %d: entry %zu", r, k);
          if (!sorted) continue;
          for (int d = -1; d < 2; d++) {
            bool has = false;
            for (size_t j = 0; j < cnt; j++) if (g[j] == g[k] + d) has = true;
            int f = t8_shmem_array_binary_search (x, g[k] + d, (int) cnt, cmp);
            if (has ? f < 0 || (size_t) f >= cnt || g[f] != g[k] + d : f != -1) fail ("search", "rank %d: found a value at %d, it is %sin the array", r, f, has ? "" : "not ");
          }
        }
      }
    }
    for (size_t i = 0; i < arr.size (); i++) if (arr[i]) {
      check (i, "in the end");
      t8_shmem_array_destroy (&arr[i]);
      if (arr[i]) fail ("meta", "the array still exists");
    }
    t8_shmem_finalize (comm);
  });
  uint64_t h = type0 + 10 * w.P;
  for (auto &a : acts) h = sim::mix (h + a.kind * 1000 + a.dt * 100 + a.count);
  sim::state (h);
}
}
PROPERTY ("C17", body)
