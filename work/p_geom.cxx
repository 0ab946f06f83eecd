/* C24: every process computes the true position, size and faces of its leaves. */
#include "common.hxx"
#include <cmath>
#include <cstring>
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element.h>
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_schemes/t8_default/t8_default.hxx>

namespace
{
typedef std::array<double, 3> V3;
V3 operator+ (const V3 &a, const V3 &b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
V3 operator- (const V3 &a, const V3 &b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
V3 operator* (double s, const V3 &a) { return { s * a[0], s * a[1], s * a[2] }; }
double dot (const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double norm (const V3 &a) { return std::sqrt (dot (a, a)); }
V3 cross (const V3 &a, const V3 &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }

/* position of the reference point x in a cell of the given shape */
V3 interp (int shape, const std::vector<V3> &v, const V3 &x)
{
  switch (shape) {
  case T8_ECLASS_VERTEX: return v[0];
  case T8_ECLASS_LINE: return v[0] + x[0] * (v[1] - v[0]);
  case T8_ECLASS_QUAD:
  case T8_ECLASS_HEX: {
    V3 r = { 0, 0, 0 };
    for (size_t i = 0; i < v.size (); i++) {
      double w = ((i & 1) ? x[0] : 1 - x[0]) * ((i & 2) ? x[1] : 1 - x[1]);
      if (shape == T8_ECLASS_HEX) w *= (i & 4) ? x[2] : 1 - x[2];
      r = r + w * v[i];
    }
    return r;
  }
  case T8_ECLASS_TRIANGLE: return v[0] + x[0] * (v[1] - v[0]) + x[1] * (v[2] - v[1]);
  case T8_ECLASS_TET: return v[0] + x[0] * (v[1] - v[0]) + x[2] * (v[2] - v[1]) + x[1] * (v[3] - v[2]);
  case T8_ECLASS_PRISM: {
    V3 a = v[0] + x[0] * (v[1] - v[0]) + x[1] * (v[2] - v[1]), b = v[3] + x[0] * (v[4] - v[3]) + x[1] * (v[5] - v[4]);
    return a + x[2] * (b - a);
  }
  default: return v[0] + x[0] * (v[1] - v[0]) + x[1] * (v[2] - v[0]) + x[2] * (v[4] - v[3]);   /* pyramids: parallelograms as base only */
  }
}
bool affine (int shape, const std::vector<V3> &v)
{
  auto par = [&] (int a, int b, int c, int d) { return norm ((v[b] - v[a]) - (v[d] - v[c])) < 1e-13; };
  switch (shape) {
  case T8_ECLASS_QUAD: case T8_ECLASS_PYRAMID: return par (0, 1, 2, 3);
  case T8_ECLASS_HEX: return par (0, 1, 2, 3) && par (0, 1, 4, 5) && par (0, 1, 6, 7) && par (0, 2, 4, 6);
  case T8_ECLASS_PRISM: return par (0, 3, 1, 4) && par (0, 3, 2, 5);
  default: return true;
  }
}
/* measure of an affine cell */
double measure (int shape, const std::vector<V3> &v)
{
  auto det = [&] (int a, int b, int c) { return std::fabs (dot (v[a] - v[0], cross (v[b] - v[0], v[c] - v[0]))); };
  switch (shape) {
  case T8_ECLASS_VERTEX: return 0;
  case T8_ECLASS_LINE: return norm (v[1] - v[0]);
  case T8_ECLASS_QUAD: return norm (cross (v[1] - v[0], v[2] - v[0]));
  case T8_ECLASS_TRIANGLE: return norm (cross (v[1] - v[0], v[2] - v[0])) / 2;
  case T8_ECLASS_HEX: return det (1, 2, 4);
  case T8_ECLASS_TET: return det (1, 2, 3) / 6;
  case T8_ECLASS_PRISM: return det (1, 2, 3) / 2;
  default: return det (1, 2, 4) / 3;
  }
}
struct Tree
{
  bool known = false, affine = false, injective = true;
  std::vector<V3> v;
  double scale = 1;
};
V3 mean (const std::vector<V3> &v)
{
  V3 r = { 0, 0, 0 };
  for (auto &x : v) r = r + (1.0 / (double) v.size ()) * x;
  return r;
}
struct Pt { int tree; Leaf leaf; V3 x; };

/* Trees with polynomial, axis-aligned and linear geometries side by side, stored in any way, on any distribution:
 * the leaves of a polynomial tree lie where the polynomial through its nodes puts them. */
struct Curve
{
  int cls, kind, deg;                       /* kind: 0 polynomial, 1 axis-aligned, 2 linear */
  double a[3], B[3][3], C[3][6];
  int axes[3];                              /* kind 1: the axes along which it extends */
  V3 at (const V3 &x) const
  {
    V3 r = { a[0], a[1], a[2] };
    const int d = t8_eclass_to_dimension[cls];
    const double q[6] = { x[0] * x[0], x[1] * x[1], x[2] * x[2], x[0] * x[1], x[0] * x[2], x[1] * x[2] };
    for (int i = 0; i < 3; i++) {
      if (kind == 1) { for (int j = 0; j < d; j++) if (axes[j] == i) r[i] += B[i][i] * x[j]; continue; }
      for (int j = 0; j < d; j++) r[i] += B[i][j] * x[j];
      if (kind == 0 && deg == 2) for (int j = 0; j < 6; j++) r[i] += C[i][j] * q[j];
      if (cls != T8_ECLASS_TRIANGLE) r[i] += C[i][3] * q[3];       /* bilinear */
    }
    return r;
  }
};
std::vector<V3> nodes (int cls, int deg)
{
  static const V3 line[] = { { 0, 0, 0 }, { 1, 0, 0 }, { .5, 0, 0 } };
  static const V3 tri[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 1, .5, 0 }, { .5, .5, 0 }, { .5, 0, 0 } };
  static const V3 quad[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, .5, 0 }, { 1, .5, 0 }, { .5, 0, 0 }, { .5, 1, 0 }, { .5, .5, 0 } };
  static const V3 hex[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 },
                            { 0, 1, .5 }, { 0, 0, .5 }, { 0, .5, 0 }, { 0, .5, 1 }, { 0, .5, .5 },
                            { 1, 0, .5 }, { 1, 1, .5 }, { 1, .5, 0 }, { 1, .5, 1 }, { 1, .5, .5 },
                            { .5, 0, 0 }, { .5, 0, 1 }, { .5, 0, .5 }, { .5, 1, 0 }, { .5, 1, 1 }, { .5, 1, .5 },
                            { .5, .5, 0 }, { .5, .5, 1 }, { .5, .5, .5 } };
  switch (cls) {
  case T8_ECLASS_LINE: return { line, line + (deg == 2 ? 3 : 2) };
  case T8_ECLASS_TRIANGLE: return { tri, tri + (deg == 2 ? 6 : 3) };
  case T8_ECLASS_QUAD: return { quad, quad + (deg == 2 ? 9 : 4) };
  default: return { hex, hex + (deg == 2 ? 27 : 8) };
  }
}
int every_third (t8_forest_t, t8_forest_t, t8_locidx_t, const t8_eclass_t, t8_locidx_t e, const t8_scheme *, const int, const int, t8_element_t *[]) { return e % 3 == 0; }
void curves ()
{
  World w = draw_world (6);
  const int dim = range (sim::W, 1, 3), n = range (sim::W, 1, 7), level = choose (sim::W, 3), store = choose (sim::W, 3), adapt = choose (sim::W, 2), several = choose (sim::W, 4);
  uint64_t salt = choose (sim::W, 1 << 20);
  std::vector<Curve> T (n);
  for (int t = 0; t < n; t++) {
    Curve &c = T[t];
    c.cls = dim == 1 ? T8_ECLASS_LINE : dim == 3 ? T8_ECLASS_HEX : choose (sim::W, 2) ? T8_ECLASS_QUAD : T8_ECLASS_TRIANGLE;
    c.kind = several ? choose (sim::W, 3) : 0;
    if (c.kind == 1 && c.cls == T8_ECLASS_TRIANGLE) c.kind = 2;
    c.deg = 1 + choose (sim::W, 2);
    auto num = [&] () { salt = sim::mix (salt); return (double) (int) (salt % 65) - 32; };
    for (int i = 0; i < 3; i++) {
      c.a[i] = num ();
      for (int j = 0; j < 3; j++) c.B[i][j] = (i == j ? 1 : 0) + num () / 512;
      for (int j = 0; j < 6; j++) c.C[i][j] = num () / 1024;
    }
    int skip = choose (sim::W, 3), k = 0;
    if (dim == 1) c.axes[0] = skip;
    else for (int i = 0; i < 3; i++) if (dim == 3 || i != skip) c.axes[k++] = i;
  }
  sim::note ("%s", w.str ().c_str ());
  sim::note ("%d trees of dimension %d, coarse mesh %s, level %d%s", n, dim, store == 0 ? "replicated" : store == 1 ? "distributed" : "distributed twice", level, adapt ? ", adapted and partitioned" : "");
  for (auto &c : T) sim::note (" %s %s of degree %d, axes %d %d %d", c.kind == 0 ? "polynomial" : c.kind == 1 ? "axis-aligned" : "linear", t8_eclass_to_string[c.cls], c.deg, c.axes[0], dim > 1 ? c.axes[1] : -1, dim > 2 ? c.axes[2] : -1);
  run_world (w, [&] (sc_MPI_Comm comm, int) {
    int r;
    sc_MPI_Comm_rank (comm, &r);
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    t8_geometry_c *g[3];
    g[0] = t8_cmesh_register_geometry<t8_geometry_lagrange> (c);
    if (several) {
      g[1] = t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (c);
      g[2] = t8_cmesh_register_geometry<t8_geometry_linear> (c);
    }
    for (int t = 0; t < n; t++) {
      t8_cmesh_set_tree_class (c, t, (t8_eclass_t) T[t].cls);
      if (several) t8_cmesh_set_tree_geometry (c, t, g[T[t].kind]);
      std::vector<double> v;
      auto add = [&] (const V3 &x) { V3 y = T[t].at (x); v.insert (v.end (), y.begin (), y.end ()); };
      if (T[t].kind == 0) {
        int deg = T[t].deg;
        t8_cmesh_set_attribute (c, t, t8_get_package_id (), T8_CMESH_LAGRANGE_POLY_DEGREE_KEY, &deg, sizeof (int), 0);
        for (auto &x : nodes (T[t].cls, deg)) add (x);
      }
      else if (T[t].kind == 1) { add ({ 0, 0, 0 }); add ({ 1, 1, 1 }); }
      else for (auto &x : nodes (T[t].cls, 1)) add (x);
      t8_cmesh_set_tree_vertices (c, t, v.data (), (int) v.size () / 3);
    }
    t8_cmesh_commit (c, comm);
    const t8_scheme *sc = t8_scheme_new_default ();
    for (int k = 0; k < store; k++) {
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, c);
      sc->ref ();
      t8_cmesh_set_partition_uniform (d, k ? 0 : level, sc);
      t8_cmesh_commit (d, comm);
      c = d;
    }
    if (store == 2 && level) {
      /* the leaves need their trees where they are */
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, c);
      sc->ref ();
      t8_cmesh_set_partition_uniform (d, level, sc);
      t8_cmesh_commit (d, comm);
      c = d;
    }
    t8_forest_t f = t8_forest_new_uniform (c, sc, level, 0, comm);
    if (adapt) {
      t8_forest_t a;
      t8_forest_init (&a);
      t8_forest_set_adapt (a, f, every_third, 0);
      t8_forest_set_partition (a, nullptr, 0);
      t8_forest_commit (a);
      f = a;
    }
    const int nt = t8_forest_get_num_local_trees (f);
    std::vector<std::pair<int, int>> all;
    for (int t = 0; t < nt; t++) for (int i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); i++) all.push_back ({ t, i });
    uint64_t rs = sim::mix (salt + 5);
    const t8_scheme *fs = t8_forest_get_scheme (f);
    for (size_t k = 0; k < all.size () && k < 200; k++) {
      rs = sim::mix (rs);
      std::swap (all[k], all[k + rs % (all.size () - k)]);   /* neighbouring leaves are of different trees */
      const int t = all[k].first;
      const long gt = t8_forest_global_tree_id (f, t);
      const Curve &cv = T[gt];
      const t8_eclass_t cl = (t8_eclass_t) cv.cls;
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, t, all[k].second);
      const int nc = fs->element_get_num_corners (cl, e);
      for (int j = 0; j < nc; j++) {
        V3 x = { 0, 0, 0 }, y = { 0, 0, 0 };
        fs->element_get_vertex_reference_coords (cl, e, j, x.data ());
        t8_forest_element_coordinate (f, t, e, j, y.data ());
        const V3 want = cv.at (x);
        if (!(norm (y - want) < 1e-10)) fail ("curve", "rank %d: corner %d of leaf %d of tree %ld (%s %s) is at (%.12g %.12g %.12g), not (%.12g %.12g %.12g)", r, j, all[k].second, gt, cv.kind == 0 ? "polynomial" : cv.kind == 1 ? "axis-aligned" : "linear", t8_eclass_to_string[cl], y[0], y[1], y[2], want[0], want[1], want[2]);
      }
    }
    t8_forest_unref (&f);
  });
  sim::state (sim::mix (salt + n * 100 + dim * 10 + store));
}

void body24 ()
{
  if (chance (sim::W, 150)) return curves ();
  const std::vector<int> kinds = { OP_REFINE, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_REFINE_REC, OP_MIXED, OP_COPY, OP_BALANCE };
  Hist h = draw_hist (MESH_PART_OK | MESH_GEOM, 5, kinds, 0, 3);
  limit_removed (h.ops);
  h.describe ();
  Model M (h.m);
  t8_cmesh_t cm = t8_forest_get_cmesh (M.f);
  std::vector<Tree> T (M.cls.size ());
  for (size_t t = 0; t < T.size (); t++) {
    const t8_geometry_type_t gt = t8_geometry_get_type (cm, (t8_gloidx_t) t);
    if (gt != T8_GEOMETRY_TYPE_LINEAR && gt != T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED) continue;
    const double *p = t8_cmesh_get_tree_vertices (cm, (t8_locidx_t) t);
    if (!p) continue;
    const int n = t8_eclass_num_vertices[M.cls[t]];
    if (gt == T8_GEOMETRY_TYPE_LINEAR) for (int i = 0; i < n; i++) T[t].v.push_back ({ p[3 * i], p[3 * i + 1], p[3 * i + 2] });
    else for (int i = 0; i < n; i++) T[t].v.push_back ({ (i & 1) ? p[3] : p[0], (i & 2) ? p[4] : p[1], (i & 4) ? p[5] : p[2] });
    if (gt != T8_GEOMETRY_TYPE_LINEAR && M.cls[t] == T8_ECLASS_LINE) T[t].v[1] = { p[3], p[4], p[5] };
    T[t].known = true;
    T[t].affine = affine (M.cls[t], T[t].v) && measure (M.cls[t], T[t].v) > 1e-9;
    for (auto &a : T[t].v) for (auto &b : T[t].v) T[t].scale = std::max (T[t].scale, norm (a - b));
    for (auto &a : T[t].v) T[t].scale = std::max (T[t].scale, norm (a));
  }
  /* what one leaf should look like */
  auto corners = [&] (const Leaf &l, std::vector<V3> &ref) {
    Elem e (M.s, (t8_eclass_t) l.cls);
    set_elem (M.s, l, e.e);
    int n = M.s->element_get_num_corners ((t8_eclass_t) l.cls, e.e);
    std::vector<V3> v;
    for (int i = 0; i < n; i++) {
      V3 x = { 0, 0, 0 };
      M.s->element_get_vertex_reference_coords ((t8_eclass_t) l.cls, e.e, i, x.data ());
      ref.push_back (x);
      v.push_back (interp (l.cls, T[l.tree].v, x));
    }
    return v;
  };
  Record rec (h);
  uint64_t salt = (uint64_t) choose (sim::W, 1 << 16);
  const int every = choose (sim::W, 3);
  const int L = (int) h.ops.size ();
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    const size_t most = c.step == L ? 150 : 20;
    if (c.step != L && (every & 1)) return;
    const Snap &s = rec.g[c.group][c.step].r[c.rank];
    size_t k = 0;
    const t8_scheme *sc = t8_forest_get_scheme (c.f);
    {
      /* the box around the local coarse trees */
      t8_cmesh_t lc = t8_forest_get_cmesh (c.f);
      const int n = t8_cmesh_get_num_local_trees (lc);
      bool ok = true;
      double box[6], want[6] = { INFINITY, -INFINITY, INFINITY, -INFINITY, INFINITY, -INFINITY };
      for (int t = 0; t < n; t++) {
        const Tree &tr = T[t8_cmesh_get_global_id (lc, t)];
        if (!tr.known) ok = false;
        for (auto &v : tr.v) for (int d = 0; d < 3; d++) { want[2 * d] = std::min (want[2 * d], v[d]); want[2 * d + 1] = std::max (want[2 * d + 1], v[d]); }
      }
      if (ok) {
        const int ret = t8_cmesh_get_local_bounding_box (lc, box);
        if ((ret != 0) != (n > 0)) fail ("box", "rank %d with %d coarse trees: the bounding box is %s", c.rank, n, ret ? "reported as known" : "refused");
        if (ret) for (int d = 0; d < 6; d++) if (box[d] != want[d]) fail ("box", "rank %d: bound %d of its coarse trees is %g, reported is %g", c.rank, d, want[d], box[d]);
      }
    }
    {
      /* several points of a coarse tree at once; what lies behind the array is not a coordinate */
      t8_cmesh_t lc = t8_forest_get_cmesh (c.f);
      const int n = t8_cmesh_get_num_local_trees (lc);
      for (int t = 0; t < n; t++) {
        if (n > 4 && sim::mix (salt + 77 * t + c.step) % n >= 4) continue;
        const t8_gloidx_t g = t8_cmesh_get_global_id (lc, t);
        const Tree &tr = T[g];
        const int cl = M.cls[g], dim = t8_eclass_to_dimension[cl];
        if (cl == T8_ECLASS_PYRAMID && !tr.affine) continue;
        uint64_t r = sim::mix (salt * 3 + g);
        const int np = 1 + (int) (r % 4);
        std::vector<V3> p (np);
        std::vector<double> q, y (3 * np, -7);
        for (auto &x : p) {
          for (int d = 0; d < 3; d++) { r = sim::mix (r); x[d] = (double) (r % 33) / 32; }
          if (r % 5 == 0) for (int d = 0; d < 3; d++) { r = sim::mix (r); x[d] = 1 - std::ldexp (1., -(int) (r % 30)); }   /* close to the last corner */
          if (cl != T8_ECLASS_LINE && cl != T8_ECLASS_QUAD && cl != T8_ECLASS_HEX) {
            std::sort (x.begin (), x.end ());
            x = cl == T8_ECLASS_TET ? V3 { x[2], x[0], x[1] } : V3 { x[2], x[1], x[0] };
          }
          for (int d = 0; d < dim; d++) q.push_back (x[d]);
        }
        for (int d = 0; d < 3; d++) q.push_back (NAN);
        t8_geometry_evaluate (lc, g, q.data (), np, y.data ());
        for (int k = 0; k < np; k++) {
          V3 w = { 0, 0, 0 }, b = { y[3 * k], y[3 * k + 1], y[3 * k + 2] };
          if (tr.known) w = interp (cl, tr.v, p[k]);
          else { double one[3] = { 0, 0, 0 }; for (int d = 0; d < dim; d++) one[d] = p[k][d]; t8_geometry_evaluate (cm, g, one, 1, w.data ()); }
          if (!(norm (w - b) <= 1e-12 * tr.scale)) fail ("tree-points", "rank %d: point %d of %d of tree %ld (%s), (%g %g %g), is at (%g %g %g), not (%g %g %g)", c.rank, k, np, (long) g, t8_eclass_to_string[cl], p[k][0], p[k][1], p[k][2], b[0], b[1], b[2], w[0], w[1], w[2]);
        }
      }
    }
    for (int t = 0; t < s.ntrees; t++) {
      const int n = t8_forest_get_tree_num_leaf_elements (c.f, t);
      for (int i = 0; i < n; i++, k++) {
        if (s.leaves.size () > most && sim::mix (salt + k) % s.leaves.size () >= most) continue;
        const Leaf &l = s.leaves[k];
        const Tree &tr = T[l.tree];
        const t8_eclass_t cl = (t8_eclass_t) l.cls;
        const t8_element_t *e = t8_forest_get_leaf_element_in_tree (c.f, t, i);
        const int nc = sc->element_get_num_corners (cl, e), shape = sc->element_get_shape (cl, e);
        std::vector<V3> got (nc), ref;
        for (int j = 0; j < nc; j++) {
          got[j] = { 0, 0, 0 };
          t8_forest_element_coordinate (c.f, t, e, j, got[j].data ());
        }
        auto where = [&] () { return l.str () + (c.rank >= 0 ? " on rank " + std::to_string (c.rank) : ""); };
        double lo, hi;
        if (h.m.radius (lo, hi))
          for (int j = 0; j < nc; j++)
            if (!(norm (got[j]) > lo - 1e-9 && norm (got[j]) < hi + 1e-9)) fail ("corner", "corner %d of %s is at (%g %g %g), %g away from the middle of the sphere", j, where ().c_str (), got[j][0], got[j][1], got[j][2], norm (got[j]));
        if (!tr.known) {
          /* not a linear tree: as if there was only one process */
          for (int j = 0; j < nc; j++) {
            double x[3] = { 0, 0, 0 }, y[3] = { 0, 0, 0 };
            sc->element_get_vertex_reference_coords (cl, e, j, x);
            t8_geometry_evaluate (cm, l.tree, x, 1, y);
            if (norm (V3 { y[0], y[1], y[2] } - got[j]) > 1e-12) fail ("corner", "corner %d of %s is at (%g %g %g), on one process at (%g %g %g)", j, where ().c_str (), got[j][0], got[j][1], got[j][2], y[0], y[1], y[2]);
          }
          continue;
        }
        const double eps = 1e-13 * tr.scale;
        const bool simple = cl != T8_ECLASS_PYRAMID || tr.affine;
        if (!simple) continue;
        std::vector<V3> want = corners (l, ref);
        if ((int) want.size () != nc) fail ("corner", "%s has %d corners, not %zu", where ().c_str (), nc, want.size ());
        for (int j = 0; j < nc; j++)
          if (!(norm (want[j] - got[j]) <= eps)) fail ("corner", "corner %d of %s is at (%.17g %.17g %.17g), not (%.17g %.17g %.17g)", j, where ().c_str (), got[j][0], got[j][1], got[j][2], want[j][0], want[j][1], want[j][2]);
        /* the sizes of tiny leaves are differences of large numbers */
        double len = tr.scale;
        for (int a = 0; a < nc; a++) for (int b = 0; b < a; b++) len = std::min (len, norm (want[a] - want[b]));
        const double rt = 1e-8 + 1e-13 * tr.scale / std::max (len, 1e-300);
        V3 x = { 0, 0, 0 };
        t8_forest_element_linear_centroid (c.f, t, e, x.data ());
        const V3 mid = mean (want);
        if (!(norm (x - mid) <= eps)) fail ("centroid", "the linear centroid of %s is (%g %g %g), not (%g %g %g)", where ().c_str (), x[0], x[1], x[2], mid[0], mid[1], mid[2]);
        /* a point given in the coordinates of the leaf */
        if (tr.affine) {
          uint64_t r = sim::mix (salt * 7 + k);
          double q[6], y[6] = { 0, 0, 0, 0, 0, 0 };
          const int dim = t8_eclass_to_dimension[cl];
          V3 p[2];
          for (int a = 0; a < 2; a++) {
            double o[3];
            for (int d = 0; d < 3; d++) { r = sim::mix (r); o[d] = (double) (r % 1024) / 1024; }
            std::sort (o, o + 3);
            p[a] = { o[2], shape == T8_ECLASS_TRIANGLE || shape == T8_ECLASS_PRISM ? o[1] : o[0], shape == T8_ECLASS_TRIANGLE || shape == T8_ECLASS_PRISM ? o[0] : o[1] };
            if (shape == T8_ECLASS_PYRAMID) p[a] = { o[2], o[1], o[0] };
            for (int d = 0; d < 3; d++) q[3 * a + d] = p[a][d];
          }
          const int np = dim == 3 ? 2 : 1;   /* the distance between points of fewer coordinates is not documented */
          t8_forest_element_from_ref_coords (c.f, t, e, q, np, y);
          for (int a = 0; a < np; a++) {
            V3 w = interp (shape, want, p[a]), g = { y[3 * a], y[3 * a + 1], y[3 * a + 2] };
            if (!(norm (w - g) <= eps)) fail ("ref-coords", "the point (%g %g %g) in the coordinates of %s is at (%g %g %g), not (%g %g %g)", p[a][0], p[a][1], p[a][2], where ().c_str (), g[0], g[1], g[2], w[0], w[1], w[2]);
          }
          t8_forest_element_centroid (c.f, t, e, x.data ());
          V3 cen = mid;
          if (!(norm (x - cen) <= eps)) fail ("centroid", "the centroid of %s is (%g %g %g), not (%g %g %g)", where ().c_str (), x[0], x[1], x[2], cen[0], cen[1], cen[2]);
          double v = t8_forest_element_volume (c.f, t, e), m = measure (shape, want);
          if (!(std::fabs (v - m) <= rt * m)) fail ("volume", "the volume of %s is %.12g, not %.12g", where ().c_str (), v, m);
          /* reference volume: every level divides it equally between elements of one shape */
          double frac = 1;
          for (int d = 0; d < l.level * dim; d++) frac /= 2;
          double root = measure (cl, tr.v) * frac;
          if (cl == T8_ECLASS_PYRAMID && shape == T8_ECLASS_TET) root /= 2;
          if (dim > 0 && !(std::fabs (m - root) <= rt * root)) fail ("volume", "the volume of %s is %.12g, its share of its tree is %.12g", where ().c_str (), m, root);
          double dist = 0;
          for (auto &w : want) dist += norm (w - cen);
          dist *= 2.0 / nc;
          double d_ = t8_forest_element_diam (c.f, t, e);
          if (!(std::fabs (d_ - dist) <= rt * dist)) fail ("diameter", "the diameter of %s is %.12g, not %.12g", where ().c_str (), d_, dist);
        }
        const int nf = sc->element_get_num_faces (cl, e);
        for (int f = 0; f < nf; f++) {
          std::vector<V3> fv;
          const int fs = sc->element_get_face_shape (cl, e, f), fn = t8_eclass_num_vertices[fs];
          for (int j = 0; j < fn; j++) fv.push_back (want[sc->element_get_face_corner (cl, e, f, j)]);
          t8_forest_element_face_centroid (c.f, t, e, f, x.data ());
          const V3 fc = mean (fv);
          if (!(norm (x - fc) <= eps)) fail ("face-centroid", "the centroid of face %d of %s is (%g %g %g), not (%g %g %g)", f, where ().c_str (), x[0], x[1], x[2], fc[0], fc[1], fc[2]);
          if (!tr.affine) continue;
          double a = t8_forest_element_face_area (c.f, t, e, f);
          std::vector<V3> pv = fv;
          double m = fs == T8_ECLASS_VERTEX ? 0 : measure (fs, pv);
          if (!(std::fabs (a - m) <= rt * m)) fail ("face-area", "the area of face %d of %s is %.12g, not %.12g", f, where ().c_str (), a, m);
          V3 n, o = fc - mid;
          if (fs == T8_ECLASS_VERTEX) n = o;
          else if (fs == T8_ECLASS_LINE) { V3 u = fv[1] - fv[0]; n = o - (dot (o, u) / dot (u, u)) * u; }
          else { n = cross (fv[1] - fv[0], fv[2] - fv[0]); if (dot (n, o) < 0) n = -1.0 * n; }
          n = (1 / norm (n)) * n;
          t8_forest_element_face_normal (c.f, t, e, f, x.data ());
          if (!(norm (x - n) <= 10 * rt)) fail ("face-normal", "the outward normal of face %d of %s is (%g %g %g), not (%g %g %g)", f, where ().c_str (), x[0], x[1], x[2], n[0], n[1], n[2]);
        }
      }
    }
    /* points: inside exactly one leaf of their tree */
    std::vector<Pt> pts;
    const int np = 12;
    for (int p = 0; p < np; p++) {
      uint64_t r = sim::mix (salt * 13 + p);
      const int t = (int) (r % T.size ());
      if (!T[t].affine || M.cls[t] == T8_ECLASS_VERTEX) continue;
      /* the reference point: a mix of the corners of the tree */
      Leaf root;
      root.tree = t;
      root.cls = M.cls[t];
      std::vector<V3> ref;
      corners (root, ref);
      V3 x = { 0, 0, 0 };
      double sum = 0;
      std::vector<double> w;
      for (size_t j = 0; j < ref.size (); j++) { r = sim::mix (r); w.push_back (0.01 + (double) (r % 1000) / 1000); sum += w.back (); }
      for (size_t j = 0; j < ref.size (); j++) x = x + (w[j] / sum) * ref[j];
      Pt q;
      q.tree = t;
      q.x = x;
      pts.push_back (q);
    }
    if (pts.empty ()) return;
    k = 0;
    for (int t = 0; t < s.ntrees; t++) {
      const int n = t8_forest_get_tree_num_leaf_elements (c.f, t);
      std::vector<double> xs;
      std::vector<int> which;
      for (size_t p = 0; p < pts.size (); p++)
        if (pts[p].tree == (int) s.tree_ids[t]) {
          V3 y = interp (M.cls[pts[p].tree], T[pts[p].tree].v, pts[p].x);
          xs.insert (xs.end (), y.begin (), y.end ());
          which.push_back ((int) p);
        }
      for (int i = 0; i < n; i++, k++) {
        if (which.empty ()) continue;
        if (s.leaves.size () > 2 * most && sim::mix (salt + 5 + k) % s.leaves.size () >= 2 * most) continue;
        const Leaf &l = s.leaves[k];
        if (l.level > 12) continue;
        std::vector<int> in (which.size (), -1);
        t8_forest_element_points_inside (c.f, t, t8_forest_get_leaf_element_in_tree (c.f, t, i), xs.data (), (int) which.size (), in.data (), 1e-12);
        for (size_t j = 0; j < which.size (); j++) {
          /* distance to the planes of the faces, in the reference domain */
          double d = M.outside (l, pts[which[j]].x.data ());
          if (std::fabs (d) < 1e-6) continue;   /* too close to the border to say */
          if ((in[j] != 0) != (d < 0)) fail ("point", "rank %d: the point (%g %g %g) is %s leaf %s, but reported %s", c.rank, xs[3 * j], xs[3 * j + 1], xs[3 * j + 2], d < 0 ? "inside" : "outside", l.str ().c_str (), in[j] ? "inside" : "outside");
        }
      }
    }
  }, false);
  for (int g = 0; g < h.groups (); g++)
    for (auto &s : rec.g[g]) { check_consistent (s, "inconsistent"); sim::state (hash_leaves (s.global ())); }
}
}
PROPERTY ("C24", body24)
