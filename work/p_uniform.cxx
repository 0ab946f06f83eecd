/* C22: uniform refinement is divided equally, however the coarse mesh is stored. */
#include "cmodel.hxx"
#include <t8_data/t8_shmem.h>
#include <t8_forest/t8_forest_types.h>
namespace
{
typedef __int128 big;
struct Bounds { bool empty; t8_gloidx_t ft, b, lt, e; bool shared; };
struct UModel
{
  std::vector<t8_gloidx_t> off;      /* first element of every tree */
  t8_gloidx_t N () const { return off.back (); }
  Bounds of (int r, int P) const
  {
    t8_gloidx_t a = (t8_gloidx_t) ((big) N () * r / P), z = (t8_gloidx_t) ((big) N () * (r + 1) / P);
    Bounds x {};
    x.empty = a >= z;
    if (x.empty) return x;
    for (size_t t = 0; t + 1 < off.size (); t++) {
      if (off[t] <= a && a < off[t + 1]) { x.ft = t; x.b = a - off[t]; }
      if (off[t] < z && z <= off[t + 1]) { x.lt = t; x.e = z - off[t]; }
    }
    x.shared = x.b > 0;
    return x;
  }
  CPart part (int P) const
  {
    CPart p;
    p.N = (long) off.size () - 1;
    for (int r = 0; r < P; r++) {
      Bounds x = of (r, P);
      p.first.push_back (x.empty ? 0 : x.ft);
      p.num.push_back (x.empty ? 0 : x.lt - x.ft + 1);
      p.shared.push_back (!x.empty && x.shared);
    }
    return p;
  }
};
UModel model_of (const CSpec &s, const t8_scheme *sch, int level)
{
  UModel m;
  m.off.push_back (0);
  for (auto &t : s.t) m.off.push_back (m.off.back () + sch->count_leaves_from_root ((t8_eclass_t) t.cls, level));
  return m;
}
void body ()
{
  World w = draw_world (8);
  CSpec s = draw_cspec (CS_NO_ATTR, chance (sim::W, 100) ? 60 : 8);
  int build = choose (sim::W, 3);       /* replicated, partitioned, partitioned with the own part given */
  int std_scheme = chance (sim::W, 200);
  for (auto &t : s.t) if (t.cls != T8_ECLASS_VERTEX && t.cls != T8_ECLASS_LINE && t.cls != T8_ECLASS_QUAD && t.cls != T8_ECLASS_HEX) std_scheme = 0;
  int cap = 19;
  /* keep the number of elements below 2^62 */
  const t8_scheme *sch0 = std_scheme ? t8_scheme_new_standalone () : t8_scheme_new_default ();
  for (auto &t : s.t) cap = std::min (cap, sch0->get_maxlevel ((t8_eclass_t) t.cls));
  while (cap > 0) {
    long double n = 0;
    for (auto &t : s.t) n += (long double) sch0->count_leaves_from_root ((t8_eclass_t) t.cls, cap);
    if (n < 4e18L) break;
    cap--;
  }
  int nl = range (sim::W, 1, 3);
  std::vector<int> lv;
  for (int i = 0; i < nl; i++) lv.push_back (chance (sim::W, 300) ? (chance (sim::W, 400) ? cap : range (sim::W, 0, cap)) : std::min (cap, (int) choose (sim::W, 4)));
  sim::note ("%s, %s scheme", w.str ().c_str (), std_scheme ? "standalone" : "default");
  s.describe ();
  CPart p0[2];
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) {
    p0[g] = draw_cpart (s.n (), w.size (g));
    sim::note ("group %d: coarse mesh %s %s", g, build ? "partitioned" : "replicated", build ? p0[g].str ().c_str () : "");
  }
  for (int l : lv) sim::note ("then level %d", l);
  std::vector<UModel> um;
  for (int l : lv) um.push_back (model_of (s, sch0, l));
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    std::vector<std::string> keep;
    const t8_scheme *sch = std_scheme ? t8_scheme_new_standalone () : t8_scheme_new_default ();
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    fill_cmesh (c, s, 0, build == 2 ? &p0[g] : nullptr, r, keep);
    if (build) {
      const CPart &p = p0[g];
      long f = p.first[r], l = f + p.num[r] - 1;
      if (p.num[r] == 0) { f = p.table ()[r]; l = f - 1; }
      t8_cmesh_set_partition_range (c, 3, p.num[r] && p.shared[r] ? -f - 1 : f, l);
    }
    t8_cmesh_commit (c, comm);
    bool part = build;
    for (size_t i = 0; i < lv.size (); i++) {
      const UModel &m = um[i];
      Bounds x = m.of (r, P);
      auto check = [&] (const char *what, t8_gloidx_t ft, t8_gloidx_t b, t8_gloidx_t lt, t8_gloidx_t e, int8_t sh) {
        bool empty = ft > lt || (ft == lt && b >= e);
        if (empty != x.empty) fail ("bounds", "rank %d of %d, level %d, %s: %s, but %s", r, P, lv[i], what, empty ? "no elements" : "elements", x.empty ? "should have none" : "should have some");
        if (sh && x.empty) fail ("bounds", "rank %d of %d, level %d, %s: no elements, but the first tree is shared", r, P, lv[i], what);
        if (empty) return;
        if (ft != x.ft || b != x.b || lt != x.lt || e != x.e || (sh != 0) != x.shared)
          fail ("bounds", "rank %d of %d, level %d, %s: tree %lld element %lld to tree %lld element %lld shared %d, should be tree %lld element %lld to tree %lld element %lld shared %d", r, P, lv[i], what, (long long) ft, (long long) b,
                (long long) lt, (long long) e, sh, (long long) x.ft, (long long) x.b, (long long) x.lt, (long long) x.e, x.shared);
      };
      t8_gloidx_t ft = -7, b = -7, lt = -7, e = -7;
      int8_t sh = 9;
      t8_cmesh_uniform_bounds_for_irregular_refinement (c, lv[i], sch, &ft, &b, &lt, &e, &sh, comm);
      check (part ? "irregular refinement, distributed" : "irregular refinement, replicated", ft, b, lt, e, sh);
      bool regular = true;
      for (size_t t = 1; t + 1 < m.off.size (); t++) if (m.off[t + 1] - m.off[t] != m.off[1]) regular = false;
      if (regular) {
        ft = b = lt = e = -7;
        sh = 9;
        t8_cmesh_uniform_bounds_equal_element_count (c, lv[i], sch, &ft, &b, &lt, &e, &sh);
        check ("equal element count", ft, b, lt, e, sh);
      }
      t8_cmesh_t n;
      t8_cmesh_init (&n);
      t8_cmesh_set_derive (n, c);
      sch->ref ();
      t8_cmesh_set_partition_uniform (n, lv[i], sch);
      t8_cmesh_commit (n, comm);
      c = n;
      part = true;
      CPart q = m.part (P);
      std::vector<t8_gloidx_t> want = q.table ();
      t8_shmem_array_t tab = t8_cmesh_get_partition_table (c);
      for (int k = 0; tab && k <= P; k++)
        if (t8_shmem_array_get_gloidx (tab, k) != want[k]) fail ("table", "level %d: the table of the uniform partition has %lld for rank %d, should be %lld (%s)", lv[i], (long long) t8_shmem_array_get_gloidx (tab, k), k, (long long) want[k], q.str ().c_str ());
      check_cmesh ("uniform partition", c, s, &q, r, P);
      if (m.N () > 3000) continue;
      sch->ref ();
      t8_cmesh_ref (c);
      t8_forest_t f = t8_forest_new_uniform (c, sch, lv[i], 0, comm);
      t8_gloidx_t a = (t8_gloidx_t) ((big) m.N () * r / P), z = (t8_gloidx_t) ((big) m.N () * (r + 1) / P);
      if (t8_forest_get_global_num_leaf_elements (f) != m.N ()) fail ("forest", "%lld elements in the uniform forest of level %d, should be %lld", (long long) t8_forest_get_global_num_leaf_elements (f), lv[i], (long long) m.N ());
      Snap sn = snap_forest (f);
      if ((t8_gloidx_t) sn.leaves.size () != z - a) fail ("forest", "rank %d of %d has %zu elements of the uniform forest of level %d, should be %lld", r, P, sn.leaves.size (), lv[i], (long long) (z - a));
      size_t t = 0;
      for (t8_gloidx_t k = a; k < z; k++) {
        while (m.off[t + 1] <= k) t++;
        const Leaf &l = sn.leaves[k - a];
        if (l.tree != (t8_gloidx_t) t || l.level != lv[i] || (t8_gloidx_t) l.id != k - m.off[t]) fail ("forest", "rank %d: leaf %lld is %s", r, (long long) k, l.str ().c_str ());
      }
      t8_forest_unref (&f);
    }
    t8_cmesh_destroy (&c);
    sch->unref ();
  });
  const_cast<t8_scheme *> (sch0)->unref ();
  uint64_t h = cspec_hash (s);
  for (int l : lv) h = sim::mix (h + l);
  sim::state (h + w.P);
}
}
PROPERTY ("C22", body)
