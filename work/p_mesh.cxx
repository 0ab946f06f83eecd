/* C21: the mesh handle shows every process its part of the forest, with data, ghosts, neighbours and faces. */
#include "common.hxx"
#include <mesh_handle/mesh.hxx>
#include <mesh_handle/competence_pack.hxx>
#include <mesh_handle/constructor_wrappers.hxx>
#include <mesh_handle/mesh_io.hxx>
#include <t8_forest/t8_forest_geometrical.h>
#include <algorithm>
#include <cmath>
namespace
{
namespace mh = t8_mesh_handle;
struct Datum { long long tree; unsigned long long id; int level, step; };
using DataPack = mh::data_mesh_competences<Datum>;
using MeshPack = mh::union_competence_packs_type<DataPack, mh::dg_mesh_competences>;
using Plain = mh::mesh<mh::data_element_competences, MeshPack>;
using Cached = mh::mesh<mh::union_competence_packs_type<mh::all_cache_element_competences, mh::data_element_competences>, MeshPack>;

struct MOp { bool adapt = false, part = false, pfc = false, bal = false, norep = false, ghost = false, own = false, ask = false; Op op; };
struct Side { Leaf l; int id, face, rank; };
struct FaceRec { int type, ori; std::vector<Side> sides; };
struct Geo { std::vector<std::array<double, 3>> x; std::array<double, 3> cen; double vol, diam; std::vector<double> area; std::vector<std::array<double, 3>> fc, fn; };
struct Rec
{
  std::vector<Leaf> local, ghosts;
  std::vector<int> ranks;
  std::vector<std::vector<std::vector<std::pair<Leaf, int>>>> nb;   /* [local][face] */
  bool faces_asked = false;
  std::vector<FaceRec> faces;
  std::vector<std::vector<int>> ef;
  std::vector<Geo> geo;
};
Datum datum (const Leaf &l, int step) { return { l.tree, l.id, l.level, step }; }
bool same (double a, double b) { return a == b || (a != a && b != b) || std::fabs (a - b) <= 1e-9 * (1 + std::fabs (a)); }
int decide (const MOp &o, const Leaf &l, bool fam, t8_gloidx_t global)
{
  int d = op_decide (o.op, l.tree, l.cls, l.level, l.id, fam && l.cls != T8_ECLASS_VERTEX);
  if (d > 0 && global > leaf_cap ()) d = 0;
  if (d < 0 && (!fam || l.cls == T8_ECLASS_VERTEX)) d = 0;   /* for a vertex, the callback cannot see whether it is a family */
  return d < 0 ? -1 : d > 0 ? 1 : 0;
}
struct Arg { const MOp *o; };
int ref_adapt (t8_forest_t forest, t8_forest_t from, t8_locidx_t tree, const t8_eclass_t c, t8_locidx_t, const t8_scheme *s, const int fam, const int, t8_element_t *el[])
{
  const Arg *a = (const Arg *) t8_forest_get_user_data (forest);
  return decide (*a->o, make_leaf (s, c, t8_forest_global_tree_id (from, tree), el[0]), fam, t8_forest_get_global_num_leaf_elements (from));
}
template <typename M> Leaf leaf_of (const M &m, const typename M::element_class &e)
{
  t8_forest_t f = m.get_forest ();
  return make_leaf (t8_forest_get_scheme (f), t8_forest_get_tree_class (f, e.get_local_tree_id ()), t8_forest_global_tree_id (f, e.get_local_tree_id ()), e.get_forest_element ());
}
template <typename V> std::array<double, 3> arr (const V &v) { return { v[0], v[1], v[2] }; }

template <typename M> void check_view (M &m, t8_forest_t ref, int r, const std::string &what)
{
  /* the handle's forest is the one the forest interface produces */
  Snap a = snap_forest (m.get_forest ()), b = snap_forest (ref);
  std::string d = diff_leaves (b.leaves, a.leaves);
  if (!d.empty () || a.global != b.global) fail ("forest", "%s: the forest of rank %d's handle differs from the one made directly: %s", what.c_str (), r, d.c_str ());
  GhostSnap ga = snap_ghost (m.get_forest ()), gb = snap_ghost (ref);
  d = diff_leaves (gb.leaves, ga.leaves);
  if (!d.empty ()) fail ("forest", "%s: the ghosts of rank %d's handle differ from those made directly: %s", what.c_str (), r, d.c_str ());
  if (t8_cmesh_is_partitioned (t8_forest_get_cmesh (m.get_forest ())) != t8_cmesh_is_partitioned (t8_forest_get_cmesh (ref))) fail ("forest", "%s: the coarse mesh of rank %d's handle is %sdistributed", what.c_str (), r, t8_cmesh_is_partitioned (t8_forest_get_cmesh (ref)) ? "not " : "");
  size_t nl = a.leaves.size (), ng = ga.leaves.size ();
  if ((size_t) m.get_num_local_elements () != nl || (size_t) m.get_num_ghosts () != ng) fail ("count", "%s: the handle of rank %d counts %d elements and %d ghosts, the forest %zu and %zu", what.c_str (), r, (int) m.get_num_local_elements (), (int) m.get_num_ghosts (), nl, ng);
  if ((size_t) std::distance (m.cbegin (), m.cend ()) != nl) fail ("iterate", "%s: iterating over the handle of rank %d visits %zu elements of %zu", what.c_str (), r, (size_t) std::distance (m.cbegin (), m.cend ()), nl);
  size_t k = 0;
  for (const auto &e : m) {
    if (leaf_of (m, e) != a.leaves[k] || e.is_ghost_element ()) fail ("iterate", "%s: element %zu of rank %d's handle is %s, the forest has %s", what.c_str (), k, r, leaf_of (m, e).str ().c_str (), a.leaves[k].str ().c_str ());
    k++;
  }
  for (size_t i = 0; i < nl + ng; i++) {
    const auto &e = m[(t8_locidx_t) i];
    const Leaf &l = i < nl ? a.leaves[i] : ga.leaves[i - nl];
    if (leaf_of (m, e) != l) fail ("element", "%s: element %zu of rank %d's handle is %s, should be %s", what.c_str (), i, r, leaf_of (m, e).str ().c_str (), l.str ().c_str ());
    if (e.is_ghost_element () != (i >= nl)) fail ("element", "%s: element %zu of rank %d is taken for a %s", what.c_str (), i, r, i >= nl ? "local one" : "ghost");
    if (e.get_element_handle_id () != (t8_locidx_t) i) fail ("element", "%s: element %zu of rank %d says it has number %d", what.c_str (), i, r, (int) e.get_element_handle_id ());
    const t8_scheme *sc = t8_forest_get_scheme (m.get_forest ());
    const t8_element_t *el = e.get_forest_element ();
    t8_eclass_t c = (t8_eclass_t) l.cls;
    if (e.get_shape () != sc->element_get_shape (c, el) || e.get_num_faces () != sc->element_get_num_faces (c, el) || e.get_num_vertices () != sc->element_get_num_corners (c, el)) fail ("element", "%s: element %zu of rank %d reports a wrong shape or number of faces or corners", what.c_str (), i, r);
    if (e.get_mesh () != &m) fail ("element", "%s: element %zu of rank %d belongs to another mesh", what.c_str (), i, r);
    for (int f = 0; f < e.get_num_faces (); f++) {
      t8_element_shape_t fs = sc->element_get_face_shape (c, el, f);
      if (e.get_face_shape (f) != fs || e.get_num_vertices_of_face (f) != t8_eclass_num_vertices[fs]) fail ("element", "%s: element %zu of rank %d reports a wrong shape of face %d", what.c_str (), i, r, f);
      for (int v = 0; v < t8_eclass_num_vertices[fs]; v++)
        if (e.face_vertex_to_element_vertex (f, v) != sc->element_get_face_corner (c, el, f, v)) fail ("element", "%s: element %zu of rank %d reports a wrong corner of face %d", what.c_str (), i, r, f);
    }
    if (e.get_level () != l.level) fail ("element", "%s: element %zu of rank %d says it has level %d, should be %d", what.c_str (), i, r, (int) e.get_level (), l.level);
  }
}
template <typename M> void exchange (M &m, int r, int step, int how, const std::string &what)
{
  GhostSnap g = snap_ghost (m.get_forest ());
  t8_locidx_t nl = m.get_num_local_elements ();
  if (how == 0) {
    std::vector<Datum> v;
    for (const auto &e : m) v.push_back (datum (leaf_of (m, e), step));
    m.set_element_data (std::move (v));
  }
  else
    for (t8_locidx_t i = nl - 1; i >= 0; i--) m[i].set_element_data (datum (leaf_of (m, m[i]), step));
  if (how == 1 && nl == 0) m.set_element_data ({});
  m.exchange_ghost_data ();
  if (m.get_element_data ().size () != nl + g.leaves.size ()) fail ("data", "%s: %zu data entries on rank %d with %d elements and %zu ghosts", what.c_str (), m.get_element_data ().size (), r, (int) nl, g.leaves.size ());
  for (t8_locidx_t i = 0; i < nl + (t8_locidx_t) g.leaves.size (); i++) {
    Datum want = datum (leaf_of (m, m[i]), step), have = m[i].get_element_data (), h2 = m.get_element_data ()[i];
    auto eq = [] (const Datum &x, const Datum &y) { return x.tree == y.tree && x.id == y.id && x.level == y.level && x.step == y.step; };
    if (!eq (want, have) || !eq (want, h2)) fail ("data", "%s: the datum of %s %d of rank %d is (%lld %llu %d step %d), should be (%lld %llu %d step %d)", what.c_str (), i < nl ? "element" : "ghost", (int) i, r, have.tree, have.id, have.level, have.step, want.tree, want.id, want.level, want.step);
  }
}
template <typename M> Geo geo_of (const typename M::element_class &e)
{
  Geo g;
  std::vector<std::array<double, 3>> one;   /* corner by corner before all of them at once */
  for (int c = e.get_num_vertices () - 1; c >= 0; c--) one.insert (one.begin (), arr (e.get_vertex_coordinates (c)));
  for (auto &v : e.get_vertex_coordinates ()) g.x.push_back (arr (v));
  if (g.x.size () != one.size ()) fail ("geometry", "an element lists %zu corners, it has %zu", g.x.size (), one.size ());
  for (size_t c = 0; c < one.size (); c++)
    for (int d = 0; d < 3; d++)
      if (!same (one[c][d], g.x[c][d])) fail ("geometry", "corner %zu of an element lies at %.17g along axis %d in the list, %.17g when asked for alone", c, g.x[c][d], d, one[c][d]);
  g.cen = arr (e.get_centroid ());
  g.vol = e.get_volume ();
  g.diam = e.get_diameter ();
  for (int f = 0; f < e.get_num_faces (); f++) {
    g.area.push_back (e.get_face_area (f));
    g.fc.push_back (arr (e.get_face_centroid (f)));
    g.fn.push_back (arr (e.get_face_normal (f)));
  }
  return g;
}
std::string diff_geo (const Geo &a, const Geo &b)
{
  auto v3 = [] (const std::vector<std::array<double, 3>> &x, const std::vector<std::array<double, 3>> &y) {
    if (x.size () != y.size ()) return false;
    for (size_t i = 0; i < x.size (); i++) for (int d = 0; d < 3; d++) if (!same (x[i][d], y[i][d])) return false;
    return true;
  };
  if (!v3 (a.x, b.x)) return "corners";
  if (!v3 ({ a.cen }, { b.cen })) return "centroid";
  if (!same (a.vol, b.vol)) return "volume";
  if (!same (a.diam, b.diam)) return "diameter";
  for (size_t i = 0; i < a.area.size (); i++) if (i >= b.area.size () || !same (a.area[i], b.area[i])) return "face area";
  if (!v3 (a.fc, b.fc)) return "face centroid";
  if (!v3 (a.fn, b.fn)) return "face normal";
  return "";
}
template <typename M> void record (M &m, Rec &o, int r, bool balanced, bool geo)
{
  t8_locidx_t nl = m.get_num_local_elements (), ng = m.get_num_ghosts ();
  for (t8_locidx_t i = 0; i < nl; i++) o.local.push_back (leaf_of (m, m[i]));
  for (t8_locidx_t i = nl; i < nl + ng; i++) o.ghosts.push_back (leaf_of (m, m[i]));
  m.fill_rank_vector ();
  for (t8_locidx_t i = 0; i < nl + ng; i++) o.ranks.push_back (m.get_rank (i));
  for (t8_locidx_t i = 0; i < nl; i++) {
    const auto &e = m[i];
    o.nb.emplace_back ();
    if constexpr (M::element_class::has_face_neighbor_cache ())
      if (i % 3 == 1) {
        if (i % 2 && e.get_num_faces () > 0) e.get_face_neighbors (0);
        e.fill_face_neighbor_cache ();
        for (int f = 0; f < e.get_num_faces (); f++)
          if (!e.neighbor_cache_filled (f)) fail ("cache", "rank %d: the neighbours of %s across face %d are not kept after asking for that", r, o.local[i].str ().c_str (), f);
      }
    for (int f = 0; f < e.get_num_faces (); f++) {
      std::vector<int> dual (3, 77), dual2 (2, 78);   /* what was in them does not matter */
      auto n = e.get_face_neighbors (f, dual), n2 = e.get_face_neighbors (f, dual2);
      if (n != n2 || dual != dual2) fail ("cache", "rank %d: asking twice for the neighbours of %s gives different answers", r, o.local[i].str ().c_str ());
      if (n.size () != dual.size ()) fail ("neighbors", "rank %d: %zu neighbours, %zu dual faces", r, n.size (), dual.size ());
      o.nb.back ().emplace_back ();
      for (size_t k = 0; k < n.size (); k++) {
        if (n[k] != &m[n[k]->get_element_handle_id ()]) fail ("neighbors", "rank %d: a neighbour of %s is no element of the mesh", r, o.local[i].str ().c_str ());
        o.nb.back ().back ().push_back ({ leaf_of (m, *n[k]), dual[k] });
      }
    }
  }
  if (geo)
    for (t8_locidx_t i = 0; i < nl + ng; i++) {
      Geo g = geo_of<M> (m[i]), h = geo_of<M> (m[i]);
      std::string d = diff_geo (g, h);
      if (!d.empty ()) fail ("cache", "rank %d: asking twice for the geometry of element %d gives a different %s", r, (int) i, d.c_str ());
      o.geo.push_back (g);
    }
  if (balanced) {
    if (!m.is_balanced ()) fail ("balanced", "rank %d: the balanced mesh is reported not to be", r);
    m.fill_unique_face_vector ();
    if (r % 2) m.fill_unique_face_vector ();
    if (nl == 0) return;
    o.faces_asked = true;
    if (t8_forest_get_dimension (m.get_forest ()) == 0) return;   /* no faces */
    for (auto &f : m.get_unique_face_vector ()) {
      FaceRec x { (int) f.type, f.orientation, {} };
      for (auto &s : f.sides) {
        if (s.element_id < 0 || s.element_id >= nl + ng) fail ("face", "rank %d: a face belongs to element %d of %d", r, s.element_id, (int) (nl + ng));
        x.sides.push_back ({ leaf_of (m, m[s.element_id]), s.element_id, s.local_face_id, s.rank });
      }
      o.faces.push_back (x);
    }
    o.ef = m.get_element_face_vector ();
  }
}
template <typename M> void run (const World &w, const MeshSpec &ms, int level, const std::vector<MOp> &ops, std::vector<std::vector<Rec>> rec[2], bool geo, int how, int ctor)
{
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r;
    sc_MPI_Comm_rank (comm, &r);
    bool gh0 = !ops.empty () && ops[0].own;
    bool cube = ctor == 3 && !ms.scheme;   /* a cube made by the handle's own constructor, compared with the one made directly */
    if (cube) {
      t8_eclass_t cls = (t8_eclass_t) ms.cls;
      bool hybrid = t8_eclass_to_dimension[cls] == 3 && how & 1, per = !hybrid && cls != T8_ECLASS_PYRAMID && how & 2, part = how & 4;
      t8_cmesh_t c;
      t8_cmesh_init (&c);
      if (hybrid) t8_cmesh_new_hypercube_hybrid (c, comm, how & 2 ? 1 : 0);
      else t8_cmesh_new_hypercube (&c, cls, comm, 0, part, per);
      t8_forest_t a = t8_forest_new_uniform (c, t8_scheme_new_default (), level, gh0, comm);
      {
        std::unique_ptr<M> b = hybrid ? mh::handle_hypercube_hybrid_uniform_default<M> (level, comm, gh0, (how & 2) != 0)
                                      : mh::handle_hypercube_uniform_default<M> (cls, level, comm, part, gh0, per);
        check_view (*b, a, r, "cube made by the handle");
      }
      t8_forest_unref (&a);
    }
    auto fresh = [&] () { return t8_forest_new_uniform (build_cmesh (ms, comm), new_scheme (ms), level, gh0, comm); };
    t8_forest_t ref = fresh ();
    std::unique_ptr<M> made = ctor == 1 ? mh::handle_new_uniform<M> (build_cmesh (ms, comm), new_scheme (ms), level, comm, gh0)
                              : ctor == 2 && !ms.scheme ? mh::handle_new_uniform_default<M> (build_cmesh (ms, comm), level, comm, gh0)
                                                        : std::make_unique<M> (fresh ());
    M &m = *made;
    check_view (m, ref, r, "uniform mesh");
    if (gh0) record (m, rec[g][0][r], r, true, geo);
    for (size_t i = 0; i < ops.size (); i++) {
      const MOp &o = ops[i];
      std::string what = "commit " + std::to_string (i + 1);
      if (o.adapt) {
        using E = typename M::element_class;
        if (o.op.seed % 2) {
          typename M::template adapt_callback_type_with_userdata<Arg> cb = [] (const M &mm, std::span<const E> el, Arg a) {
            return decide (*a.o, leaf_of (mm, el[0]), el.size () > 1, t8_forest_get_global_num_leaf_elements (mm.get_forest ()));
          };
          m.set_adapt (M::template mesh_adapt_callback_wrapper<Arg> (cb, Arg { &o }));
        }
        else
          m.set_adapt ([&o, r, &what] (const M &mm, std::span<const E> el) {
            /* the elements given are those of the mesh, and a family if there are several */
            for (size_t k = 0; k < el.size (); k++)
              if (&el[k] != &mm[el[0].get_element_handle_id () + (t8_locidx_t) k]) fail ("callback", "%s: rank %d: the callback does not get elements of the mesh", what.c_str (), r);
            return decide (o, leaf_of (mm, el[0]), el.size () > 1, t8_forest_get_global_num_leaf_elements (mm.get_forest ()));
          });
      }
      if (o.part) m.set_partition (o.pfc);
      if (o.bal) m.set_balance (o.norep);
      if (o.ghost) m.set_ghost ();
      m.commit ();
      t8_forest_t n;
      t8_forest_init (&n);
      Arg arg { &o };
      if (o.adapt) { t8_forest_set_user_data (n, &arg); t8_forest_set_adapt (n, ref, ref_adapt, 0); }
      if (o.part) t8_forest_set_partition (n, o.adapt ? NULL : ref, o.pfc);
      if (o.bal) t8_forest_set_balance (n, o.adapt || o.part ? NULL : ref, o.norep);
      if (!o.adapt && !o.part && !o.bal) t8_forest_set_copy (n, ref);
      if (o.ghost) t8_forest_set_ghost (n, 1, T8_GHOST_FACES);
      t8_forest_commit (n);
      ref = n;
      check_view (m, ref, r, what);
      exchange (m, r, (int) i, (how >> i) & 1, what);
      if (o.ask) record (m, rec[g][i + 1][r], r, o.bal, geo);
    }
    t8_forest_unref (&ref);
  });
}
void check_rank (Model &M, const Rec &o, int r, const std::map<Leaf, int> &own)
{
  std::map<Leaf, int> id;
  for (size_t i = 0; i < o.local.size (); i++) id[o.local[i]] = (int) i;
  for (size_t i = 0; i < o.ghosts.size (); i++) id[o.ghosts[i]] = (int) (i + o.local.size ());
  auto rank_of = [&] (const Leaf &l) { int x = own.at (l); return x == r ? mh::LOCAL_RANK : x; };
  for (auto &i : id) if (o.ranks[i.second] != rank_of (i.first)) fail ("rank", "rank %d: element %d belongs to rank %d, reported is %d", r, i.second, own.at (i.first), o.ranks[i.second]);
  auto lst = [] (std::vector<std::pair<Leaf, int>> v) { std::sort (v.begin (), v.end ()); return v; };
  for (size_t i = 0; i < o.nb.size (); i++)
    for (size_t f = 0; f < o.nb[i].size (); f++) {
      std::vector<std::pair<Leaf, int>> want;
      for (auto &n : M.neighbors (o.local[i], (int) f)) want.push_back ({ n.leaf, n.face });
      if (lst (want) != lst (o.nb[i][f])) fail ("neighbors", "rank %d: %s has %zu neighbours across face %zu, reported %zu (or others)", r, o.local[i].str ().c_str (), want.size (), f, o.nb[i][f].size ());
    }
  for (size_t i = 0; i < o.geo.size (); i++) {
    const Leaf &l = i < o.local.size () ? o.local[i] : o.ghosts[i - o.local.size ()];
    Elem e (M.s, (t8_eclass_t) l.cls);
    set_elem (M.s, l, e.e);
    Geo g;
    t8_locidx_t t = (t8_locidx_t) l.tree;
    for (int c = 0; c < M.s->element_get_num_corners (e.c, e.e); c++) { g.x.emplace_back (); t8_forest_element_coordinate (M.f, t, e.e, c, g.x.back ().data ()); }
    t8_forest_element_centroid (M.f, t, e.e, g.cen.data ());
    g.vol = t8_forest_element_volume (M.f, t, e.e);
    g.diam = t8_forest_element_diam (M.f, t, e.e);
    for (int f = 0; f < M.s->element_get_num_faces (e.c, e.e); f++) {
      g.area.push_back (t8_forest_element_face_area (M.f, t, e.e, f));
      g.fc.emplace_back ();
      t8_forest_element_face_centroid (M.f, t, e.e, f, g.fc.back ().data ());
      g.fn.emplace_back ();
      t8_forest_element_face_normal (M.f, t, e.e, f, g.fn.back ().data ());
    }
    std::string d = diff_geo (g, o.geo[i]);
    if (!d.empty ()) fail ("geometry", "rank %d: %s of %s %s differs from what one process computes", r, d.c_str (), i < o.local.size () ? "element" : "ghost", l.str ().c_str ());
  }
  if (!o.faces_asked) return;
  /* faces */
  std::map<std::pair<int, int>, int> where;   /* (element, face) -> index of the face */
  for (size_t k = 0; k < o.faces.size (); k++) {
    bool loc = false;
    std::set<std::pair<int, int>> mine;
    for (auto &s : o.faces[k].sides) {
      std::pair<int, int> key (s.id, s.face);
      if (!mine.insert (key).second && o.faces[k].sides.size () > 2) fail ("face-twice", "rank %d: face %zu lists face %d of %s twice", r, k, s.face, s.l.str ().c_str ());
      if (where.count (key) && where[key] != (int) k) fail ("face-twice", "rank %d: face %d of %s belongs to the faces %d and %zu", r, s.face, s.l.str ().c_str (), where[key], k);
      where[key] = (int) k;
      if (s.rank != rank_of (s.l)) fail ("rank", "rank %d: face %zu says that %s belongs to rank %d, it is %d", r, k, s.l.str ().c_str (), s.rank, own.at (s.l));
      loc |= s.rank == mh::LOCAL_RANK;
    }
    if (!loc) fail ("face", "rank %d: face %zu touches no local element", r, k);
  }
  auto type = [] (int t) { static const char *n[] = { "boundary", "conformal", "mortar", "remote conformal", "remote mortar" }; return t >= 0 && t < 5 ? n[t] : "?"; };
  for (size_t i = 0; i < o.local.size (); i++) {
    const Leaf &l = o.local[i];
    for (int f = 0; f < M.num_faces (l); f++) {
      auto it = where.find ({ (int) i, f });
      if (it == where.end ()) fail ("face-missing", "rank %d: face %d of %s is in no face", r, f, l.str ().c_str ());
      const FaceRec &x = o.faces[it->second];
      if (o.ef.size () <= i || o.ef[i].size () <= (size_t) f || o.ef[i][f] != it->second) fail ("face-index", "rank %d: face %d of %s is face %d, the table says %d", r, f, l.str ().c_str (), it->second, o.ef.size () > i && o.ef[i].size () > (size_t) f ? o.ef[i][f] : -99);
      std::vector<Model::Nb> nb = M.neighbors (l, f);
      Leaf big = l;
      int bf = f;
      std::vector<Model::Nb> small = nb;
      int want;
      if (nb.empty ()) want = (int) mh::face_type::BOUNDARY;
      else if (nb[0].leaf.level == l.level) want = rank_of (nb[0].leaf) == mh::LOCAL_RANK ? (int) mh::face_type::CONFORMAL : (int) mh::face_type::MPI_CONFORMAL;
      else {
        if (nb[0].leaf.level < l.level) { big = nb[0].leaf; bf = nb[0].face; small = M.neighbors (big, bf); }
        bool rem = rank_of (big) != mh::LOCAL_RANK;
        for (auto &s : small) rem |= rank_of (s.leaf) != mh::LOCAL_RANK;
        want = rem ? (int) mh::face_type::MPI_MORTAR : (int) mh::face_type::MORTAR;
      }
      if (x.type != want) fail ("face-type", "rank %d: face %d of %s is %s, reported is %s", r, f, l.str ().c_str (), type (want), type (x.type));
      auto has = [&] (const Leaf &a, int af) { for (auto &s : x.sides) if (s.l == a && s.face == af) return true; return false; };
      if (want == (int) mh::face_type::BOUNDARY) {
        if (x.sides.size () != 1) fail ("face-sides", "rank %d: the boundary face %d of %s has %zu sides", r, f, l.str ().c_str (), x.sides.size ());
      }
      else if (want == (int) mh::face_type::CONFORMAL || want == (int) mh::face_type::MPI_CONFORMAL) {
        if (x.sides.size () != 2 || !has (l, f) || !has (nb[0].leaf, nb[0].face) || x.sides[0].id > x.sides[1].id) fail ("face-sides", "rank %d: the %s face %d of %s has wrong sides", r, type (want), f, l.str ().c_str ());
      }
      else {
        if (x.sides.empty () || x.sides[0].l != big || x.sides[0].face != bf) fail ("face-sides", "rank %d: the %s face %d of %s does not start with the large side %s", r, type (want), f, l.str ().c_str (), big.str ().c_str ());
        for (auto &s : small)
          if ((rank_of (big) == mh::LOCAL_RANK || rank_of (s.leaf) == mh::LOCAL_RANK) && !has (s.leaf, s.face)) fail ("face-sides", "rank %d: the small side %s is missing from the %s face %d of %s", r, s.leaf.str ().c_str (), type (want), f, l.str ().c_str ());
        for (size_t k = 1; k < x.sides.size (); k++) {
          bool ok = false;
          for (auto &s : small) ok |= s.leaf == x.sides[k].l && s.face == x.sides[k].face;
          if (!ok) fail ("face-sides", "rank %d: %s is no side of the %s face %d of %s", r, x.sides[k].l.str ().c_str (), type (want), f, l.str ().c_str ());
        }
      }
      if (!nb.empty ()) {
        bool ok = false;
        for (auto &s : x.sides) {
          Elem e (M.s, (t8_eclass_t) s.l.cls);
          set_elem (M.s, s.l, e.e);
          ok |= x.ori == t8_forest_leaf_face_orientation (M.f, (t8_locidx_t) s.l.tree, M.s, e.e, s.face);
        }
        if (!ok) fail ("face-orientation", "rank %d: orientation %d of face %d of %s is that of none of its sides", r, x.ori, f, l.str ().c_str ());
      }
    }
  }
}
void body ()
{
  World w = draw_world (5);
  MeshSpec ms = draw_mesh (MESH_PART_OK | MESH_GEOM);
  int level = std::min ((int) choose (sim::W, 3), level_cap (ms));
  int n = range (sim::W, 1, 4);
  static const int kinds[] = { OP_REFINE, OP_COARSEN, OP_MIXED };
  std::vector<MOp> ops (n);
  sim::note ("%s\n%s, level %d", w.str ().c_str (), ms.str ().c_str (), level);
  for (int i = 0; i < n; i++) {
    MOp &o = ops[i];
    o.op = draw_op (kinds[choose (sim::W, 3)], ms);
    o.adapt = chance (sim::W, 700);
    o.part = chance (sim::W, 500);
    o.pfc = o.part && chance (sim::W, 300);
    o.bal = chance (sim::W, i + 1 == n ? 600 : 200);
    o.norep = chance (sim::W, 400);
    o.ghost = i + 1 == n || chance (sim::W, 400);
    o.own = chance (sim::W, 300);
    o.ask = i + 1 == n || (o.ghost && chance (sim::W, 600));
    sim::note ("commit: %s%s%s%s%s%s%s%s", o.adapt ? "adapt " : "", o.part ? "partition " : "", o.pfc ? "for coarsening " : "", o.bal ? "balance " : "", o.norep ? "without repartition " : "", o.ghost ? "ghosts " : "", o.ask ? "looked at " : "", o.adapt ? o.op.str ().c_str () : "");
  }
  int cached = choose (sim::W, 2), geo = chance (sim::W, 400), how = choose (sim::W, 16), ctor = choose (sim::W, 4);
  std::vector<std::vector<Rec>> rec[2];
  for (int g = 0; g < 2; g++) rec[g].assign (n + 1, std::vector<Rec> (w.P));
  if (cached) run<Cached> (w, ms, level, ops, rec, geo, how, ctor);
  else run<Plain> (w, ms, level, ops, rec, geo, how, ctor);
  Model M (ms);
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++)
    for (int i = 0; i <= n; i++) {
      if (i ? !ops[i - 1].ask : !ops[0].own) continue;
      std::map<Leaf, int> own;
      std::vector<Leaf> all;
      for (int r = 0; r < w.size (g); r++) for (auto &l : rec[g][i][r].local) { own[l] = r; all.push_back (l); }
      M.set (all);
      if (i == n) sim::state (hash_leaves (all) + cached);
      for (int r = 0; r < w.size (g); r++) check_rank (M, rec[g][i][r], r, own);
    }
}
}
PROPERTY ("C21", body)

/* for C16: the same output through a handle of the forest */
int handle_write_vtk (t8_forest_t f, const char *prefix, bool plain, int flags, bool ghosts, int n, t8_vtk_data_field_t *d)
{
  t8_forest_ref (f);
  mh::mesh<> m (f);
  if (plain) return mh::write_mesh_to_vtk (m, prefix);
  return mh::write_mesh_to_vtk_ext (m, prefix, n, d, flags & 1, flags & 2, flags & 4, flags & 8, ghosts, false, true);
}
