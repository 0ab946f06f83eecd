#include "cmodel.hxx"
static const int BIG_KEY = 1234567890;
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_cmesh/t8_cmesh_helpers.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_data/t8_shmem.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx>

static std::string fmt (const char *f, ...)
{
  char b[1000];
  va_list ap;
  va_start (ap, f);
  vsnprintf (b, sizeof b, f, ap);
  va_end (ap);
  return b;
}
static int pkg_id[2] = { -1, -1 };
int cmodel_pkg (int i)
{
  if (pkg_id[0] < 0) {
    pkg_id[0] = sc_package_register (NULL, SC_LP_SILENT, "verif_a", "attributes");
    pkg_id[1] = sc_package_register (NULL, SC_LP_SILENT, "verif_b", "more attributes");
  }
  return pkg_id[i];
}
std::string CSpec::str () const
{
  long joins = 0, at = 0;
  for (auto &x : t) {
    at += (long) x.at.size ();
    for (auto &f : x.f) joins += f.nb >= 0;
  }
  return fmt ("coarse mesh dim %d, %ld trees, %ld joined faces, %ld attributes%s", dim, n (), joins, at, two_geom ? ", two geometries" : "");
}
void CSpec::describe () const
{
  sim::note ("%s", str ().c_str ());
  for (long i = 0; i < n (); i++) {
    std::string s = fmt (" tree %ld %s%s:", i, t8_eclass_to_string[t[i].cls], t[i].verts ? " vertices" : "");
    for (size_t k = 0; k < t[i].f.size (); k++)
      if (t[i].f[k].nb >= 0) s += fmt (" f%zu->%ld.f%d/%d", k, t[i].f[k].nb, t[i].f[k].dual, t[i].f[k].ori);
    for (auto &a : t[i].at) s += fmt (" attr(%d,%d,%zub,how %d%s)", a.pkg, a.key, a.bytes.size (), a.how, a.twice ? ",twice" : "");
    sim::note ("%s", s.c_str ());
  }
}
uint64_t cspec_hash (const CSpec &s)
{
  uint64_t h = s.dim;
  for (auto &x : s.t) {
    h = sim::mix (h ^ x.cls);
    for (auto &f : x.f) h = sim::mix (h ^ (uint64_t) (f.nb * 64 + f.dual * 8 + f.ori));
    for (auto &a : x.at) h = sim::mix (h ^ (uint64_t) (a.key * 100 + a.bytes.size ()));
  }
  return h;
}
CSpec draw_cspec (int flags, int maxtrees)
{
  CSpec s;
  static const int d2[] = { T8_ECLASS_QUAD, T8_ECLASS_TRIANGLE }, d3[] = { T8_ECLASS_HEX, T8_ECLASS_TET, T8_ECLASS_PRISM, T8_ECLASS_PYRAMID };
  static const int dims[] = { 2, 3, 1, 2, 3, 2, 3, 0 };
  s.dim = dims[choose (sim::W, 8)];
  int n = range (sim::W, 1, maxtrees);
  bool hybrid = chance (sim::W, 600);
  int c2 = choose (sim::W, 2), c3 = choose (sim::W, 4);
  s.two_geom = !(flags & (CS_NO_GEOM | CS_ONE_GEOM)) && chance (sim::W, 300);
  int attr_pm = (flags & CS_NO_ATTR) ? 0 : (int) choose (sim::W, 4) * 300;
  s.t.resize (n);
  std::vector<std::pair<int, int>> open;
  for (int i = 0; i < n; i++) {
    CTree &t = s.t[i];
    if (hybrid) { c2 = choose (sim::W, 2); c3 = choose (sim::W, 4); }
    t.cls = s.dim == 0 ? T8_ECLASS_VERTEX : s.dim == 1 ? T8_ECLASS_LINE : s.dim == 2 ? d2[c2] : d3[c3];
    t.f.resize (t8_eclass_num_faces[t.cls]);
    t.verts = (flags & CS_VERTS) || chance (sim::W, 500);
    t.geom = s.two_geom ? choose (sim::W, 2) : 0;
    if (s.two_geom && t.geom == 0) t.verts = true;      /* the linear geometry needs vertices */
    int nv = t8_eclass_num_vertices[t.cls];
    uint64_t x = sim::mix (4711 + i);
    for (int k = 0; k < nv; k++)
      for (int d = 0; d < 3; d++) {
        x = sim::mix (x);
        t.v.push_back (t8_element_corner_ref_coords[t.cls][k][d] + (d == 0 ? 2.0 * i : 0.0) + (double) (x % 1000) * 1e-5);
      }
    for (int k = 0; k < t8_eclass_num_faces[t.cls]; k++) open.push_back ({ i, k });
    while (t.at.size () < 5 && chance (sim::W, attr_pm)) {
      CAttr a;
      a.pkg = choose (sim::W, 2);
      a.key = (int) choose (sim::W, 6) - (chance (sim::W, 100) ? 3 : 0);
      if (chance (sim::W, 30)) a.key = BIG_KEY + (int) choose (sim::W, 2);
      a.how = choose (sim::W, 4);
      int len = range (sim::W, 1, chance (sim::W, 100) ? 300 : 24);
      if (chance (sim::W, 10)) len = range (sim::W, 1000, 20000);
      uint64_t y = sim::mix ((uint64_t) i * 131 + t.at.size () * 7 + 99);
      for (int k = 0; k < len; k++) { y = sim::mix (y); a.bytes.push_back ((char) (a.how == 2 ? 'a' + (y % 26) : y)); }
      if (a.how == 2) a.bytes.push_back (0);
      if (a.how == 3) { while (a.bytes.size () % sizeof (t8_gloidx_t)) a.bytes.push_back ('x'); }
      a.twice = !(flags & CS_NO_TWICE) && chance (sim::W, 100);
      bool dup = false;
      for (auto &b : t.at) if (b.pkg == a.pkg && b.key == a.key) dup = true;
      if (!dup) t.at.push_back (a);
    }
  }
  if (!s.two_geom)
    for (auto &t : s.t) if (!t.verts) { for (auto &u : s.t) u.geom = 1; break; }
  int tries = (int) open.size () * (int) range (sim::W, 0, 4) / 3;
  for (int k = 0; k < tries && open.size () > 1; k++) {
    int p = choose (sim::W, (uint32_t) open.size ()), q = choose (sim::W, (uint32_t) open.size ());
    if (p == q) continue;
    auto A = open[p], B = open[q];
    int fa = t8_eclass_face_types[s.t[A.first].cls][A.second], fb = t8_eclass_face_types[s.t[B.first].cls][B.second];
    if (fa != fb) continue;
    int ori = fa == T8_ECLASS_VERTEX ? 0 : fa == T8_ECLASS_LINE ? choose (sim::W, 2) : fa == T8_ECLASS_TRIANGLE ? choose (sim::W, 3) : choose (sim::W, 4);
    s.t[A.first].f[A.second] = { B.first, B.second, ori };
    s.t[B.first].f[B.second] = { A.first, A.second, ori };
    if (p < q) std::swap (p, q);
    open.erase (open.begin () + p);
    open.erase (open.begin () + q);
  }
  return s;
}
std::vector<t8_gloidx_t> CPart::table () const
{
  int P = (int) first.size ();
  std::vector<t8_gloidx_t> o (P + 1);
  o[P] = N;
  long next = N;            /* first tree of the following part that is not shared */
  for (int p = P - 1; p >= 0; p--) {
    if (num[p] == 0) o[p] = next;
    else {
      o[p] = shared[p] ? -first[p] - 1 : first[p];
      next = first[p] + (shared[p] ? 1 : 0);
    }
  }
  return o;
}
std::string CPart::str () const
{
  std::string s = "table";
  for (auto x : table ()) s += fmt (" %lld", (long long) x);
  return s;
}
CPart part_of_table (const std::vector<t8_gloidx_t> &tab)
{
  CPart p;
  int P = (int) tab.size () - 1;
  p.N = (long) tab[P];
  for (int i = 0; i < P; i++) {
    long f = tab[i] < 0 ? (long) -tab[i] - 1 : (long) tab[i];
    long l = tab[i + 1] < 0 ? (long) -tab[i + 1] - 1 : (long) tab[i + 1] - 1;
    p.first.push_back (f);
    p.num.push_back (std::max (0L, l - f + 1));
    p.shared.push_back (tab[i] < 0);
  }
  return p;
}
CPart draw_cpart (long n, int P)
{
  CPart p;
  p.N = n;
  p.first.assign (P, 0);
  p.num.assign (P, 0);
  p.shared.assign (P, 0);
  /* cuts between the ranks, in half trees: an odd cut splits a tree, which both sides then hold */
  int mode = choose (sim::W, 4);
  std::vector<long> cut (P + 1);
  cut[0] = 0;
  cut[P] = 4 * n;
  if (mode == 2) {
    /* everything on few ranks */
    for (int i = 1; i < P; i++) cut[i] = chance (sim::W, 500) ? 0 : 4 * n;
  }
  else
    for (int i = 1; i < P; i++) {
      cut[i] = mode == 0 ? 4 * ((n * i) / P) : (long) choose (sim::W, (uint32_t) (4 * n + 1));
      if (mode == 3) cut[i] = cut[i] / 4 * 4;
    }
  std::sort (cut.begin (), cut.end ());
  for (int i = 0; i < P; i++) {
    long a = cut[i], b = cut[i + 1];
    if (a == b) { p.num[i] = 0; continue; }
    p.first[i] = a / 4;
    p.num[i] = (b + 3) / 4 - a / 4;
    p.shared[i] = a % 4 != 0;
  }
  return p;
}
void register_geoms (t8_cmesh_t c, const CSpec &s, t8_geometry_c *g[2])
{
  t8_geometry_c *dummy[2];
  if (!g) g = dummy;
  if (s.two_geom) {
    g[0] = t8_cmesh_register_geometry<t8_geometry_linear> (c);
    g[1] = t8_cmesh_register_geometry<t8_geometry_zero> (c);
  }
  else if (s.t[0].geom == 0)
    t8_cmesh_register_geometry<t8_geometry_linear> (c);
  else
    t8_cmesh_register_geometry<t8_geometry_zero> (c);
}
void fill_cmesh (t8_cmesh_t c, const CSpec &s, uint64_t order_seed, const CPart *part, int rank, std::vector<std::string> &keep, bool reg)
{
  std::vector<char> need (s.n (), 1), local (s.n (), 1);
  if (part) {
    std::fill (need.begin (), need.end (), 0);
    std::fill (local.begin (), local.end (), 0);
    for (long i = part->first[rank]; i < part->first[rank] + part->num[rank]; i++) local[i] = need[i] = 1;
    for (long i = 0; i < s.n (); i++)
      if (local[i])
        for (auto &f : s.t[i].f) if (f.nb >= 0) need[f.nb] = 1;
  }
  t8_geometry_c *g[2] = { nullptr, nullptr };
  t8_geometry_linear tmp0;
  t8_geometry_zero tmp1;
  if (reg) register_geoms (c, s, g);
  else { g[0] = &tmp0; g[1] = &tmp1; }
  /* a list of calls in any order; attributes need the class of the tree */
  struct Call { int kind; long tree; int i; uint64_t key; };
  std::vector<Call> calls;
  uint64_t x = order_seed;
  auto rnd = [&] () { x = sim::mix (x + 1); return order_seed ? x >> 8 : 0; };
  t8_cmesh_set_dimension (c, s.dim);
  std::vector<long> ids;
  for (long i = 0; i < s.n (); i++) if (need[i]) ids.push_back (i);
  for (long i : ids) {
    calls.push_back ({ 0, i, 0, rnd () });
    if (s.t[i].verts) calls.push_back ({ 1, i, 0, rnd () });
    for (size_t k = 0; k < s.t[i].at.size (); k++) calls.push_back ({ 2, i, (int) k, rnd () });
    if (s.two_geom) calls.push_back ({ 4, i, 0, rnd () });
    for (size_t k = 0; k < s.t[i].f.size (); k++) {
      const CFace &f = s.t[i].f[k];
      if (f.nb < 0) continue;
      /* every join once; the far side may be a tree that is not described here */
      if (need[f.nb] && (f.nb < i || (f.nb == i && f.dual < (int) k))) continue;
      calls.push_back ({ 3, i, (int) k, rnd () });
    }
  }
  std::stable_sort (calls.begin (), calls.end (), [] (const Call &a, const Call &b) { return a.key < b.key; });
  for (auto &k : calls) {
    const CTree &t = s.t[k.tree];
    switch (k.kind) {
    case 0: t8_cmesh_set_tree_class (c, k.tree, (t8_eclass_t) t.cls); break;
    case 1: t8_cmesh_set_tree_vertices (c, k.tree, t.v.data (), t8_eclass_num_vertices[t.cls]); break;
    case 2: {
      const CAttr &a = t.at[k.i];
      if (a.twice) t8_cmesh_set_attribute (c, k.tree, cmodel_pkg (a.pkg), a.key, (void *) "something else, longer than most", 7 + (k.tree % 20), 0);
      if (a.how == 2) t8_cmesh_set_attribute_string (c, k.tree, cmodel_pkg (a.pkg), a.key, a.bytes.c_str ());
      else if (a.how == 3) t8_cmesh_set_attribute_gloidx_array (c, k.tree, cmodel_pkg (a.pkg), a.key, (const t8_gloidx_t *) a.bytes.data (), a.bytes.size () / sizeof (t8_gloidx_t), 0);
      else if (a.how == 1) t8_cmesh_set_attribute (c, k.tree, cmodel_pkg (a.pkg), a.key, (void *) a.bytes.data (), a.bytes.size (), 1);
      else {
        std::string tmp = a.bytes;
        t8_cmesh_set_attribute (c, k.tree, cmodel_pkg (a.pkg), a.key, (void *) tmp.data (), tmp.size (), 0);
        for (auto &ch : tmp) ch = (char) 0xEE;
      }
      break;
    }
    case 3: {
      const CFace &f = t.f[k.i];
      if (k.key & 1) t8_cmesh_set_join (c, f.nb, k.tree, f.dual, k.i, f.ori);
      else t8_cmesh_set_join (c, k.tree, f.nb, k.i, f.dual, f.ori);
      break;
    }
    case 4: t8_cmesh_set_tree_geometry (c, k.tree, g[t.geom]); break;
    }
  }
  (void) keep;
}
static void check_attrs (const char *where, int rank, t8_cmesh_t c, const CSpec &s, t8_locidx_t lid, long gid, const CheckOpt &o)
{
  const CTree &t = s.t[gid];
  for (int pkg = 0; pkg < 2; pkg++)
    for (int key : { -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, BIG_KEY, BIG_KEY + 1 }) {
      const CAttr *a = nullptr;
      for (auto &b : t.at) if (b.pkg == pkg && b.key == key) a = &b;
      const void *d = t8_cmesh_get_attribute (c, cmodel_pkg (pkg), key, lid);
      if (!a && d) fail ("attribute", "%s: rank %d: tree %ld has an attribute (package %d, key %d) that was never set", where, rank, gid, pkg, key);
      if (a && !d) fail ("attribute", "%s: rank %d: attribute (package %d, key %d, %zu bytes) of tree %ld is missing", where, rank, pkg, key, a->bytes.size (), gid);
      if (a && memcmp (d, a->bytes.data (), a->bytes.size ()))
        fail ("attribute", "%s: rank %d: attribute (package %d, key %d, %zu bytes) of tree %ld has other contents", where, rank, pkg, key, a->bytes.size (), gid);
    }
  if (o.verts) {
    const double *v = (const double *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY, lid);
    if (!v != !t.verts) fail ("attribute", "%s: rank %d: vertices of tree %ld are %s", where, rank, gid, v ? "there but were not set" : "missing");
    if (v && memcmp (v, t.v.data (), sizeof (double) * t.v.size ())) fail ("attribute", "%s: rank %d: vertices of tree %ld changed", where, rank, gid);
  }
}
void check_cmesh (const char *where, t8_cmesh_t c, const CSpec &s, const CPart *part, int rank, int P, const CheckOpt &o)
{
  if (!t8_cmesh_is_committed (c)) fail ("cmesh", "%s: rank %d: not committed", where, rank);
  if (t8_cmesh_get_dimension (c) != s.dim) fail ("cmesh", "%s: rank %d: dimension %d, not %d", where, rank, t8_cmesh_get_dimension (c), s.dim);
  if (t8_cmesh_get_num_trees (c) != s.n ()) fail ("cmesh", "%s: rank %d: %lld trees, not %ld", where, rank, (long long) t8_cmesh_get_num_trees (c), s.n ());
  if ((bool) t8_cmesh_is_partitioned (c) != (part != nullptr)) fail ("cmesh", "%s: rank %d: is %spartitioned", where, rank, part ? "not " : "");
  long first = 0, num = s.n ();
  if (part) {
    first = part->first[rank];
    num = part->num[rank];
    std::vector<t8_gloidx_t> tab = part->table ();
    t8_shmem_array_t a = t8_cmesh_get_partition_table (c);
    if (!a) fail ("table", "%s: rank %d: no partition table", where, rank);
    if ((int) t8_shmem_array_get_elem_count (a) != P + 1) fail ("table", "%s: rank %d: the partition table has %zu entries", where, rank, t8_shmem_array_get_elem_count (a));
    for (int i = 0; i <= P; i++) {
      long long e = t8_shmem_array_get_gloidx (a, i);
      if (e != tab[i]) fail ("table", "%s: rank %d: entry %d of the partition table is %lld, should be %lld (%s)", where, rank, i, e, (long long) tab[i], part->str ().c_str ());
    }
    if (num > 0 && t8_cmesh_get_first_treeid (c) != first) fail ("cmesh", "%s: rank %d: first tree %lld, not %ld", where, rank, (long long) t8_cmesh_get_first_treeid (c), first);
  }
  if (t8_cmesh_get_num_local_trees (c) != num) fail ("cmesh", "%s: rank %d: %d local trees, not %ld", where, rank, t8_cmesh_get_num_local_trees (c), num);
  long per[T8_ECLASS_COUNT] = { 0 }, lper[T8_ECLASS_COUNT] = { 0 };
  for (long i = 0; i < s.n (); i++) { per[s.t[i].cls]++; if (i >= first && i < first + num) lper[s.t[i].cls]++; }
  for (int k = 0; k < T8_ECLASS_COUNT; k++) {
    if (c->num_trees_per_eclass[k] != per[k])
      fail ("class-count", "%s: rank %d: counts %lld %s trees in the mesh, there are %ld", where, rank, (long long) c->num_trees_per_eclass[k], t8_eclass_to_string[k], per[k]);
    if (c->num_local_trees_per_eclass[k] != lper[k])
      fail ("class-count", "%s: rank %d: counts %lld local %s trees, there are %ld", where, rank, (long long) c->num_local_trees_per_eclass[k], t8_eclass_to_string[k], lper[k]);
  }
  /* the ghosts: all trees across a face of a local tree that are not local */
  std::set<long> ghosts;
  for (long i = first; i < first + num; i++)
    for (auto &f : s.t[i].f) if (f.nb >= 0 && (f.nb < first || f.nb >= first + num)) ghosts.insert (f.nb);
  if (t8_cmesh_get_num_ghosts (c) != (long) ghosts.size ()) fail ("ghosts", "%s: rank %d: %d ghost trees, should be %zu", where, rank, t8_cmesh_get_num_ghosts (c), ghosts.size ());
  std::set<long> seen;
  for (t8_locidx_t l = 0; l < num + (long) ghosts.size (); l++) {
    long gid = (long) t8_cmesh_get_global_id (c, l);
    bool is_ghost = l >= num;
    const char *what = is_ghost ? "ghost tree" : "tree";
    if (!is_ghost && gid != first + l) fail ("cmesh", "%s: rank %d: local tree %d has global id %ld, should be %ld", where, rank, l, gid, first + l);
    if (is_ghost && !ghosts.count (gid)) fail ("ghosts", "%s: rank %d: ghost %ld has global id %ld, which is no neighbour of this part", where, rank, l - num, gid);
    if (!seen.insert (gid).second) fail ("ghosts", "%s: rank %d: %s %ld is there twice", where, rank, what, gid);
    if (t8_cmesh_get_local_id (c, gid) != l) fail ("cmesh", "%s: rank %d: %s %ld maps to local id %d, should be %d", where, rank, what, gid, t8_cmesh_get_local_id (c, gid), l);
    if ((bool) t8_cmesh_treeid_is_ghost (c, l) != is_ghost || (bool) t8_cmesh_treeid_is_local_tree (c, l) == is_ghost) fail ("cmesh", "%s: rank %d: local id %d is taken for the wrong kind of tree", where, rank, l);
    const CTree &t = s.t[gid];
    int cls = is_ghost ? t8_cmesh_get_ghost_class (c, l - num) : t8_cmesh_get_tree_class (c, l);
    if (cls != t.cls) fail ("class", "%s: rank %d: %s %ld has class %s, should be %s", where, rank, what, gid, t8_eclass_to_string[cls], t8_eclass_to_string[t.cls]);
    for (int k = 0; k < (int) t.f.size (); k++) {
      const CFace &f = t.f[k];
      bool bd = t8_cmesh_tree_face_is_boundary (c, l, k);
      if (bd != (f.nb < 0)) fail ("face", "%s: rank %d: face %d of %s %ld is %s", where, rank, k, what, gid, bd ? "a boundary, but was joined" : "joined, but should be a boundary");
      int dual = -1, ori = -1;
      t8_locidx_t nb = t8_cmesh_get_face_neighbor (c, l, k, &dual, &ori);
      bool here = f.nb >= 0 && ((f.nb >= first && f.nb < first + num) || ghosts.count (f.nb));
      if ((nb >= 0) != here) fail ("face", "%s: rank %d: face %d of %s %ld: neighbour %d, tree %ld expected", where, rank, k, what, gid, nb, f.nb);
      if (here) {
        long ng = (long) t8_cmesh_get_global_id (c, nb);
        if (ng != f.nb || dual != f.dual || ori != f.ori)
          fail ("face", "%s: rank %d: face %d of %s %ld joins tree %ld face %d orientation %d, should be tree %ld face %d orientation %d", where, rank, k, what, gid, ng, dual, ori, f.nb, f.dual, f.ori);
        if (t8_cmesh_get_tree_face_neighbor_eclass (c, l, k) != s.t[f.nb].cls) fail ("face", "%s: rank %d: face %d of %s %ld: wrong neighbour class", where, rank, k, what, gid);
      }
      if (is_ghost) {
        /* also the neighbours that this rank does not know */
        t8_gloidx_t *gn;
        int8_t *ttf;
        (void) t8_cmesh_trees_get_ghost_ext (c->trees, (t8_locidx_t) (l - num), &gn, &ttf);
        int F = t8_eclass_max_num_faces[s.dim];
        long want = f.nb < 0 ? gid : f.nb;
        int wt = f.nb < 0 ? k : f.ori * F + f.dual;
        if (gn[k] != want || ttf[k] != wt) fail ("ghost-face", "%s: rank %d: face %d of ghost tree %ld: neighbour %lld code %d, should be %ld code %d", where, rank, k, gid, (long long) gn[k], ttf[k], want, wt);
      }
    }
    if (o.attrs && (!is_ghost || o.ghost_attrs)) check_attrs (where, rank, c, s, l, gid, o);
    if (o.geom && !is_ghost) {
      const t8_geometry_c *g = t8_cmesh_get_tree_geometry (c, gid);
      std::string want = t.geom ? "t8_geom_zero" : "t8_geom_linear";
      if (!g || g->t8_geom_get_name ().compare (0, want.size (), want)) fail ("geometry", "%s: rank %d: tree %ld has geometry %s, should be %s", where, rank, gid, g ? g->t8_geom_get_name ().c_str () : "none", want.c_str ());
      /* the map must be the one of this tree's vertices */
      int k = (int) (gid % t8_eclass_num_vertices[t.cls]);
      double ref[3], out[3];
      for (int d = 0; d < 3; d++) ref[d] = t8_element_corner_ref_coords[t.cls][k][d];
      t8_geometry_evaluate (c, gid, ref, 1, out);
      for (int d = 0; d < 3; d++) {
        double w = t.geom ? 0.0 : t.v[3 * k + d];
        if (!(std::fabs (out[d] - w) < 1e-9)) fail ("geometry", "%s: rank %d: the geometry maps corner %d of tree %ld to %g %g %g", where, rank, k, gid, out[0], out[1], out[2]);
      }
    }
  }
}

void spec_of (t8_cmesh_t c, CSpec &s, long first)
{
  s.dim = t8_cmesh_get_dimension (c);
  long n = (long) t8_cmesh_get_num_trees (c);
  if ((long) s.t.size () < first + n) s.t.resize (first + n);
  for (long i = 0; i < n; i++) {
    CTree &t = s.t[first + i];
    t = CTree ();
    t.cls = t8_cmesh_get_tree_class (c, (t8_locidx_t) i);
    const double *v = (const double *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY, (t8_locidx_t) i);
    t.verts = v != nullptr;
    if (v) t.v.assign (v, v + 3 * t8_eclass_num_vertices[t.cls]);
    t.f.resize (t8_eclass_num_faces[t.cls]);
    for (int k = 0; k < (int) t.f.size (); k++) {
      int dual, ori;
      t8_locidx_t nb = t8_cmesh_get_face_neighbor (c, (t8_locidx_t) i, k, &dual, &ori);
      if (nb >= 0) { t.f[k].nb = first + nb; t.f[k].dual = dual; t.f[k].ori = ori; }
    }
  }
}
