#include "common.hxx"
#include <t8_forest/t8_forest_iterate.h>
#include <tuple>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <p4est_connectivity.h>
#include <p8est_connectivity.h>

/* ------------------------------------------------------------- logging */
static void log_handler (FILE *, const char *, int, int, int, int prio, const char *msg)
{
  if (sim::verbose) fprintf (stderr, "    > %s", msg);
  if (prio >= SC_LP_ERROR && sim::shared) {
    size_t n = strlen (sim::shared->lasterr);
    if (n > sizeof sim::shared->lasterr / 2) n = 0;
    snprintf (sim::shared->lasterr + n, sizeof sim::shared->lasterr - n, "%s", msg);
    for (char *c = sim::shared->lasterr; *c; c++) if (*c == '\n') *c = ' ';
  }
}
void harness_init ()
{
  sc_init (sc_MPI_COMM_WORLD, 0, 0, NULL, SC_LP_SILENT);
  p4est_init (NULL, SC_LP_SILENT);
  t8_init (SC_LP_SILENT);
  sc_set_log_defaults (NULL, log_handler, SC_LP_ERROR);
  sc_package_set_verbosity (sc_package_id, SC_LP_ERROR);
  sc_package_set_verbosity (t8_get_package_id (), SC_LP_ERROR);
  sc_package_set_verbosity (p4est_package_id, SC_LP_ERROR);
}
static std::string fmt (const char *f, ...)
{
  char b[1000];
  va_list ap;
  va_start (ap, f);
  vsnprintf (b, sizeof b, f, ap);
  va_end (ap);
  return b;
}
std::string Leaf::str () const { return fmt ("(tree %lld %s level %d id %llu)", (long long) tree, t8_eclass_to_string[cls], level, (unsigned long long) id); }
uint64_t hash_leaves (const std::vector<Leaf> &v)
{
  uint64_t h = v.size ();
  for (auto &l : v) h = sim::mix (h ^ (uint64_t) l.tree * 1000003 ^ (uint64_t) l.level * 7919 ^ (l.id << 8));
  return h;
}
static long the_cap = 700;
long leaf_cap () { return the_cap; }

/* ------------------------------------------------------------- meshes */
enum { M_CUBE, M_CLASS, M_HYBRID_CUBE, M_PERIODIC_TRI, M_PERIODIC_HYB, M_LINE_MORE, M_BIG, M_ZIGZAG, M_CAKE, M_CAKE_FUNNY, M_BRICK2, M_BRICK3,
       M_TET_ORI, M_GATE, M_FULL_HYB, M_PYRA_CAKE, M_LONG_PYRA, M_ROW, M_DISK, M_SPHERE_OCT, M_RANDOM, M_PAD, M_SPHERE, M_SHELL, M_DEFORMED, M_PERIODIC, M_N };
static const char *mname[] = { "hypercube", "class", "hypercube_hybrid", "periodic_tri", "periodic_hybrid", "periodic_line", "bigmesh", "zigzag", "prism_cake",
                               "prism_cake_funny", "brick_2d", "brick_3d", "tet_orientation", "hybrid_gate", "full_hybrid", "pyramid_cake", "long_brick_pyramid",
                               "row_of_cubes", "disk", "octahedron_surface", "random_glue", "hypercube_pad", "sphere_surface", "spherical_shell", "deformed", "periodic" };
int MeshSpec::dim () const
{
  switch (kind) {
  case M_CUBE: case M_CLASS: case M_BIG: case M_RANDOM: case M_PAD: case M_PERIODIC: return t8_eclass_to_dimension[cls];
  case M_LINE_MORE: case M_ZIGZAG: return 1;
  case M_PERIODIC_TRI: case M_PERIODIC_HYB: case M_BRICK2: case M_DISK: case M_SPHERE_OCT: case M_SPHERE: return 2;
  default: return 3;
  }
}
std::string MeshSpec::str () const
{
  return fmt ("mesh %s class %s a %d b %d c %d periodic %d scheme %s bcast %d %s rnd %u", mname[kind], t8_eclass_to_string[cls], a, b, c, per,
              scheme ? "standalone" : "default", bcast, part ? fmt ("partitioned(level %d)", part_level).c_str () : "replicated", rnd);
}
bool MeshSpec::radius (double &lo, double &hi) const
{
  lo = hi = 1;
  if (kind == M_SPHERE || kind == M_SPHERE_OCT) return true;
  if (kind == M_DISK || (kind == M_SHELL && per % 4 == 3)) { lo = 0; return true; }
  if (kind == M_SHELL) { hi = 1.5; return true; }
  return false;
}
MeshSpec draw_mesh (int flags)
{
  MeshSpec m;
  static const int order[] = { M_CUBE, M_BRICK2, M_RANDOM, M_CLASS, M_HYBRID_CUBE, M_PERIODIC_TRI, M_PERIODIC_HYB, M_LINE_MORE, M_BIG, M_ZIGZAG, M_CAKE, M_CAKE_FUNNY,
                               M_BRICK3, M_TET_ORI, M_GATE, M_FULL_HYB, M_PYRA_CAKE, M_LONG_PYRA, M_ROW, M_DISK, M_SPHERE_OCT, M_RANDOM, M_PAD, M_BRICK2, M_CUBE, M_RANDOM, M_SPHERE, M_SHELL, M_DEFORMED, M_PERIODIC };
  static const int classes[] = { T8_ECLASS_QUAD, T8_ECLASS_TRIANGLE, T8_ECLASS_LINE, T8_ECLASS_HEX, T8_ECLASS_TET, T8_ECLASS_PRISM, T8_ECLASS_PYRAMID, T8_ECLASS_VERTEX };
  m.kind = order[choose (sim::W, sizeof order / sizeof order[0])];
  if ((flags & MESH_NO_RANDOM) && m.kind == M_RANDOM) m.kind = M_BRICK2;
  if ((flags & MESH_GEOM) && m.kind == M_BIG) m.kind = M_CUBE;   /* it has no coordinates */
  int nc = (flags & MESH_NO_VERTEX) ? 7 : 8;
  int ci = choose (sim::W, nc);
  if (ci == 7 && !chance (sim::W, 300)) ci = 0;
  m.cls = classes[ci];
  m.a = range (sim::W, 1, 4);
  m.b = range (sim::W, 1, 3);
  m.c = range (sim::W, 1, 2);
  m.per = choose (sim::W, 8);
  m.scheme = chance (sim::W, 200);
  m.bcast = chance (sim::W, 200);
  m.rnd = choose (sim::W, 1 << 20);
  if (flags & MESH_PART_OK) {
    m.part = chance (sim::W, 350);
    m.part_level = choose (sim::W, 3);
  }
  if (m.kind == M_CUBE && (m.cls == T8_ECLASS_PYRAMID || m.cls == T8_ECLASS_VERTEX)) m.per = 0;
  if ((m.kind == M_RANDOM || m.kind == M_PERIODIC) && m.cls == T8_ECLASS_VERTEX) m.cls = T8_ECLASS_LINE;
  if (m.kind == M_PAD && (m.cls == T8_ECLASS_PYRAMID || m.cls == T8_ECLASS_VERTEX || m.cls == T8_ECLASS_TET)) m.cls = T8_ECLASS_HEX;
  if (m.kind == M_BRICK2 || m.kind == M_BRICK3) {
    /* p4est bricks: periodic directions */
    if (m.kind == M_BRICK3) { m.a = std::min (m.a, 2); m.b = std::min (m.b, 2); }
  }
  if (chance (sim::W, 30) && m.kind != M_BRICK3) m.a += range (sim::W, 1, 9);   /* now and then many trees */
  if (m.kind == M_CAKE) m.a += 2;
  if (m.kind == M_PYRA_CAKE) m.a += 2;
  return m;
}
const t8_scheme *new_scheme (const MeshSpec &m) { return m.scheme ? t8_scheme_new_standalone () : t8_scheme_new_default (); }

/* Trees of one or several classes glued face to face at random. */
static void random_glue (t8_cmesh_t c, const MeshSpec &m, sc_MPI_Comm comm)
{
  uint64_t x = sim::mix (m.rnd + 12345);
  auto rnd = [&] (int n) { x = sim::mix (x); return (int) ((x >> 7) % (uint64_t) n); };
  int n = 1 + rnd (m.a * m.b + 2);
  int dim = t8_eclass_to_dimension[m.cls];
  static const int d2[] = { T8_ECLASS_QUAD, T8_ECLASS_TRIANGLE }, d3[] = { T8_ECLASS_HEX, T8_ECLASS_TET, T8_ECLASS_PRISM, T8_ECLASS_PYRAMID };
  std::vector<int> cl (n);
  t8_cmesh_set_dimension (c, dim);
  t8_cmesh_register_geometry<t8_geometry_linear> (c);
  for (int i = 0; i < n; i++) {
    cl[i] = m.cls;
    if (m.c == 2) cl[i] = dim == 2 ? d2[rnd (2)] : dim == 3 ? d3[rnd (4)] : m.cls;
    t8_cmesh_set_tree_class (c, i, (t8_eclass_t) cl[i]);
    /* some coordinates; the gluing is topological */
    double v[24];
    int nv = t8_eclass_num_vertices[cl[i]];
    for (int k = 0; k < nv; k++)
      for (int d = 0; d < 3; d++) v[3 * k + d] = t8_element_corner_ref_coords[cl[i]][k][d] + (d == 0 ? 2.0 * i : 0.0);
    t8_cmesh_set_tree_vertices (c, i, v, nv);
  }
  std::vector<std::pair<int, int>> open;
  for (int i = 0; i < n; i++)
    for (int f = 0; f < t8_eclass_num_faces[cl[i]]; f++) open.push_back ({ i, f });
  int tries = (int) open.size () * (1 + m.per % 4) / 3;
  for (int k = 0; k < tries && open.size () > 1; k++) {
    int p = rnd ((int) open.size ()), q = rnd ((int) open.size ());
    if (p == q) continue;
    auto A = open[p], B = open[q];
    int fa = t8_eclass_face_types[cl[A.first]][A.second], fb = t8_eclass_face_types[cl[B.first]][B.second];
    if (fa != fb) continue;
    int ori = fa == T8_ECLASS_VERTEX ? 0 : fa == T8_ECLASS_LINE ? rnd (2) : fa == T8_ECLASS_TRIANGLE ? rnd (3) : rnd (4);
    /* hexes, prisms, ... : every orientation of a quad face is legal in the interface */
    t8_cmesh_set_join (c, A.first, B.first, A.second, B.second, ori);
    if (p < q) std::swap (p, q);
    open.erase (open.begin () + p);
    open.erase (open.begin () + q);
  }
  t8_cmesh_commit (c, comm);
}
t8_cmesh_t build_cmesh (const MeshSpec &m, sc_MPI_Comm comm, bool force_replicated)
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_disable_negative_volume_check (c);   /* the coordinates of the random gluing mean nothing */
  switch (m.kind) {
  case M_CUBE: t8_cmesh_new_hypercube (&c, (t8_eclass_t) m.cls, comm, m.bcast, 0, (m.per & 1) ? 1 : 0); break;
  case M_CLASS: t8_cmesh_new_from_class (c, (t8_eclass_t) m.cls, comm); break;
  case M_HYBRID_CUBE: t8_cmesh_new_hypercube_hybrid (c, comm, m.per & 1); break;
  case M_PERIODIC_TRI: t8_cmesh_new_periodic_tri (c, comm); break;
  case M_PERIODIC_HYB: t8_cmesh_new_periodic_hybrid (c, comm); break;
  case M_LINE_MORE: t8_cmesh_new_periodic_line_more_trees (c, comm); break;
  case M_BIG: t8_cmesh_new_bigmesh (c, (t8_eclass_t) m.cls, m.a * m.b * 2, comm); break;
  case M_ZIGZAG: t8_cmesh_new_line_zigzag (c, comm); break;
  case M_CAKE: t8_cmesh_new_prism_cake (c, comm, m.a); break;
  case M_CAKE_FUNNY: t8_cmesh_new_prism_cake_funny_oriented (c, comm); break;
  case M_TET_ORI: t8_cmesh_new_tet_orientation_test (c, comm); break;
  case M_GATE: t8_cmesh_new_hybrid_gate (c, comm); break;
  case M_FULL_HYB: t8_cmesh_new_full_hybrid (c, comm); break;
  case M_PYRA_CAKE: t8_cmesh_new_pyramid_cake (c, comm, m.a); break;
  case M_LONG_PYRA: t8_cmesh_new_long_brick_pyramid (c, comm, m.a); break;
  case M_ROW: t8_cmesh_new_row_of_cubes (c, m.a, 0, 0, comm, t8_get_package_id ()); break;
  case M_DISK: t8_cmesh_new_quadrangulated_disk (c, 1.0, comm); break;
  case M_SPHERE_OCT: t8_cmesh_new_triangulated_spherical_surface_octahedron (c, 1.0, comm); break;
  case M_SPHERE:
    if (m.per % 3 == 0) t8_cmesh_new_quadrangulated_spherical_surface (c, 1.0, comm);
    else if (m.per % 3 == 1) t8_cmesh_new_triangulated_spherical_surface_cube (c, 1.0, comm);
    else t8_cmesh_new_triangulated_spherical_surface_icosahedron (c, 1.0, comm);
    break;
  case M_SHELL:
    switch (m.per % 4) {
    case 0: t8_cmesh_new_cubed_spherical_shell (c, 1.0, 0.5, 1 + (m.a > 3), m.c, comm); break;
    case 1: t8_cmesh_new_prismed_spherical_shell_octahedron (c, 1.0, 0.5, m.a > 3, m.c, comm); break;
    case 2: t8_cmesh_new_prismed_spherical_shell_icosahedron (c, 1.0, 0.5, 0, 1, comm); break;
    default: t8_cmesh_new_cubed_sphere (c, 1.0, comm);
    }
    break;
  case M_DEFORMED:
    switch (m.per % 4) {
    case 0: t8_cmesh_new_prism_deformed (c, comm); break;
    case 1: t8_cmesh_new_pyramid_deformed (c, comm); break;
    case 2: t8_cmesh_new_hybrid_gate_deformed (c, comm); break;
    default: t8_cmesh_new_prism_geometry (c, comm);
    }
    break;
  case M_PERIODIC: t8_cmesh_new_periodic (c, comm, m.dim ()); break;
  case M_RANDOM: random_glue (c, m, comm); break;
  case M_PAD: {
    double bd[24] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1 };
    t8_cmesh_new_hypercube_pad (c, (t8_eclass_t) m.cls, comm, bd, m.a, m.b, m.c, (m.per & 1) && (m.cls == T8_ECLASS_QUAD || m.cls == T8_ECLASS_HEX));
    break;
  }
  case M_BRICK2: {
    p4est_connectivity_t *pc = p4est_connectivity_new_brick (m.a, m.b, m.per & 1, (m.per >> 1) & 1);
    t8_cmesh_new_from_p4est (c, pc, comm, 0);
    p4est_connectivity_destroy (pc);
    break;
  }
  case M_BRICK3: {
    p8est_connectivity_t *pc = p8est_connectivity_new_brick (m.a, m.b, m.c, m.per & 1, (m.per >> 1) & 1, (m.per >> 2) & 1);
    t8_cmesh_new_from_p8est (c, pc, comm, 0);
    p8est_connectivity_destroy (pc);
    break;
  }
  }
  if (m.part && !force_replicated) {
    t8_cmesh_t p;
    t8_cmesh_init (&p);
    t8_cmesh_set_derive (p, c);
    const t8_scheme *s = new_scheme (m);
    t8_cmesh_set_partition_uniform (p, m.part_level, s);
    t8_cmesh_commit (p, comm);
    c = p;
  }
  return c;
}

/* ------------------------------------------------------------- elements */
Leaf make_leaf (const t8_scheme *s, t8_eclass_t c, t8_gloidx_t tree, const t8_element_t *e)
{
  Leaf l;
  l.tree = tree;
  l.cls = c;
  l.level = s->element_get_level (c, e);
  l.id = s->element_get_linear_id (c, e, l.level);
  l.first = s->element_get_linear_id (c, e, s->get_maxlevel (c));
  return l;
}
void set_elem (const t8_scheme *s, const Leaf &l, t8_element_t *e) { s->element_set_linear_id ((t8_eclass_t) l.cls, e, l.level, l.id); }

Snap snap_forest (t8_forest_t f)
{
  Snap s;
  s.have = true;
  const t8_scheme *sc = t8_forest_get_scheme (f);
  s.global = t8_forest_get_global_num_leaf_elements (f);
  s.first = t8_forest_get_first_local_leaf_element_id (f);
  s.first_tree = t8_forest_get_first_local_tree_id (f);
  s.ntrees = t8_forest_get_num_local_trees (f);
  t8_locidx_t n = t8_forest_get_local_num_leaf_elements (f), seen = 0;
  for (t8_locidx_t t = 0; t < s.ntrees; t++) {
    t8_gloidx_t g = t8_forest_global_tree_id (f, t);
    s.tree_ids.push_back (g);
    t8_eclass_t c = t8_forest_get_tree_class (f, t);
    t8_locidx_t k = t8_forest_get_tree_num_leaf_elements (f, t);
    for (t8_locidx_t i = 0; i < k; i++) s.leaves.push_back (make_leaf (sc, c, g, t8_forest_get_leaf_element_in_tree (f, t, i)));
    seen += k;
  }
  if (seen != n) fail ("local-count", "rank %d reports %d local leaves, its trees hold %d", sim::rank (), (int) n, (int) seen);
  return s;
}
GhostSnap snap_ghost (t8_forest_t f)
{
  GhostSnap g;
  g.have = true;
  const t8_scheme *sc = t8_forest_get_scheme (f);
  const int R = sim::rank ();
  t8_locidx_t nt = t8_forest_get_num_ghost_trees (f), total = t8_forest_get_num_ghosts (f), nl = t8_forest_get_num_local_trees (f);
  for (t8_locidx_t t = 0; t < nt; t++) {
    t8_gloidx_t id = t8_forest_ghost_get_global_treeid (f, t);
    g.trees.push_back (id);
    t8_eclass_t c = t8_forest_ghost_get_tree_class (f, t);
    if (t8_forest_global_tree_id (f, nl + t) != id) fail ("ghost-tree-id", "rank %d: ghost tree %d has global id %lld or %lld", R, (int) t, (long long) id, (long long) t8_forest_global_tree_id (f, nl + t));
    if (t8_forest_ghost_get_ghost_treeid (f, id) != t) fail ("ghost-tree-id", "rank %d: ghost tree %d (global %lld) is looked up as ghost tree %d", R, (int) t, (long long) id, (int) t8_forest_ghost_get_ghost_treeid (f, id));
    if (t8_forest_ghost_get_tree_element_offset (f, t) != (t8_locidx_t) g.leaves.size ()) fail ("ghost-offset", "rank %d: ghost tree %d starts at ghost %d, the trees before it hold %zu", R, (int) t, (int) t8_forest_ghost_get_tree_element_offset (f, t), g.leaves.size ());
    t8_locidx_t n = t8_forest_ghost_tree_num_leaf_elements (f, t);
    for (t8_locidx_t i = 0; i < n; i++) g.leaves.push_back (make_leaf (sc, c, id, t8_forest_ghost_get_leaf_element (f, t, i)));
  }
  if ((t8_locidx_t) g.leaves.size () != total) fail ("ghost-count", "rank %d reports %d ghosts, its ghost trees hold %zu", R, (int) total, g.leaves.size ());
  if (total > 0) {
    int n = 0, *r = t8_forest_ghost_get_remotes (f, &n);
    for (int i = 0; i < n; i++) {
      g.remotes.push_back (r[i]);
      g.first_tree.push_back (t8_forest_ghost_remote_first_tree (f, r[i]));
      g.first_elem.push_back (t8_forest_ghost_remote_first_elem (f, r[i]));
    }
  }
  return g;
}
std::vector<int> owner_of (const Step &s)
{
  std::vector<int> o;
  for (size_t r = 0; r < s.r.size (); r++) o.insert (o.end (), s.r[r].leaves.size (), (int) r);
  return o;
}
std::string diff_leaves (const std::vector<Leaf> &a, const std::vector<Leaf> &b)
{
  size_t n = std::min (a.size (), b.size ());
  for (size_t i = 0; i < n; i++)
    if (a[i] != b[i]) return fmt ("position %zu: expected %s, found %s (lengths %zu, %zu)", i, a[i].str ().c_str (), b[i].str ().c_str (), a.size (), b.size ());
  if (a.size () != b.size ()) return fmt ("expected %zu leaves, found %zu", a.size (), b.size ());
  return "";
}
void check_consistent (const Step &s, const char *cls)
{
  t8_gloidx_t sum = 0;
  const Leaf *prev = nullptr;
  for (size_t r = 0; r < s.r.size (); r++) {
    const Snap &p = s.r[r];
    if (!p.have) fail ("harness", "missing snapshot of rank %zu", r);
    if (p.first != sum) fail (cls, "%s: rank %zu says its first leaf has global number %lld, the ranks before it hold %lld leaves", s.what.c_str (), r, (long long) p.first, (long long) sum);
    sum += (t8_gloidx_t) p.leaves.size ();
    for (auto &l : p.leaves) {
      if (prev && !(*prev < l)) fail (cls, "%s: leaves out of order or duplicated on rank %zu: %s then %s", s.what.c_str (), r, prev->str ().c_str (), l.str ().c_str ());
      if (prev && prev->tree == l.tree && prev->first == l.first) fail (cls, "%s: overlapping leaves on rank %zu: %s and %s", s.what.c_str (), r, prev->str ().c_str (), l.str ().c_str ());
      prev = &l;
    }
  }
  for (size_t r = 0; r < s.r.size (); r++)
    if (s.r[r].global != sum) fail (cls, "%s: rank %zu reports %lld leaves in total, the ranks hold %lld", s.what.c_str (), r, (long long) s.r[r].global, (long long) sum);
}

/* ------------------------------------------------------------- operations */
const char *op_name (int k)
{
  static const char *n[] = { "refine", "coarsen", "partition", "partition_for_coarsening", "balance", "weighted_partition", "offset_partition", "adapt+partition+balance", "copy", "ghost", "remove", "refine_recursive", "balance_no_repartition", "adapt_mixed", "coarsen_recursive", "adapt_recursive" };
  return n[k];
}
std::string Op::str () const
{
  std::string c;
  for (int x : cuts) c += fmt (" %d", x);
  return fmt ("%s seed %u mode %d density %d levels %d..%d flag %d ghost %d%s%s%s%s", op_name (kind), seed, mode, pm, minlevel, maxlevel, flag, ghost, part ? " and partition" : "", prof ? " profiling" : "", pfc_base == 1 ? " weighted" : pfc_base == 2 ? " offsets" : "", c.c_str ());
}
int level_cap (const MeshSpec &m) { int d = m.dim (); return d <= 1 ? 8 : d == 2 ? 5 : 3; }
void limit_removed (std::vector<Op> &ops)
{
  bool removed = false;
  for (auto &o : ops) {
    if (removed && (o.kind == OP_BALANCE || o.kind == OP_COMBINED || o.kind == OP_PFC || o.kind == OP_BALANCE_NOREP || o.kind == OP_GHOST)) o.kind = OP_PARTITION;
    if (o.kind == OP_REMOVE || ((o.kind == OP_MIXED || o.kind == OP_MIXED_REC) && (o.flag & 1))) removed = true;
    if (removed) o.ghost = 0;
  }
}
Op draw_op (int kind, const MeshSpec &m)
{
  Op o;
  o.kind = kind;
  o.seed = choose (sim::W, 1 << 16);
  o.mode = choose (sim::W, 6);
  static const int dens[] = { 300, 500, 100, 800, 950, 50 };
  o.pm = dens[choose (sim::W, 6)];
  o.maxlevel = range (sim::W, 1, level_cap (m));
  if (kind == OP_REFINE_REC) {
    /* keep the mesh small */
    if (o.mode == 1) o.mode = 5;
    if (o.pm > 500) o.pm = 200;
    /* ask for more levels than there are */
    if (o.mode == 2 && chance (sim::W, m.dim () > 2 ? 100 : 300)) o.maxlevel = 100;
    if (o.mode == 5 && chance (sim::W, 400)) {
      o.mode = 6;
      o.maxlevel = m.dim () > 2 ? range (sim::W, 4, 8) : range (sim::W, 6, 13);
    }
  }
  o.minlevel = 0;
  o.flag = choose (sim::W, 8);
  if (kind == OP_PFC && chance (sim::W, 400)) o.pfc_base = 1 + choose (sim::W, 2);
  if (kind == OP_OFFSETS || o.pfc_base == 2) {
    int n = 12;
    for (int i = 0; i < n; i++) o.cuts.push_back (choose (sim::W, 1001));
    std::sort (o.cuts.begin (), o.cuts.end ());
  }
  o.prof = chance (sim::W, 40);
  return o;
}
int op_decide (const Op &op, t8_gloidx_t tree, int cls, int level, t8_linearidx_t id, bool is_family)
{
  uint64_t h = sim::mix (sim::mix (op.seed + 31 * (uint64_t) tree) ^ (id * 64 + level));
  if (op.kind == OP_COARSEN || op.kind == OP_COARSEN_REC) {
    if (!is_family || level <= op.minlevel) return 0;
    /* decided per family: id of the first member */
    switch (op.mode) {
    case 0: return (int) (h % 1000) < op.pm ? -1 : 0;
    case 1: return (int) (sim::mix (op.seed + tree) % 1000) < op.pm ? -1 : 0;
    case 2: return level > 1 + (int) (op.seed % 2) ? -1 : 0;
    default: return -1;
    }
  }
  if (op.kind == OP_MIXED || op.kind == OP_MIXED_REC) {
    int d = (int) (h % 1000);
    if ((op.flag & 1) && d < 100) return -2;
    if (is_family && level > op.minlevel && (int) (sim::mix (h) % 1000) < op.pm) return -1;
    return level < op.maxlevel && d > 600 ? 1 : 0;
  }
  if (op.kind == OP_REMOVE) return (int) (h % 1000) < op.pm ? -2 : 0;
  if (level >= op.maxlevel) return 0;
  switch (op.mode) {
  case 0: return (int) (h % 1000) < op.pm;                                 /* scattered */
  case 1: return (int) (sim::mix (op.seed + tree) % 1000) < op.pm;          /* whole trees */
  case 2: return id == 0 && (op.maxlevel < 100 || tree == (t8_gloidx_t) (op.seed % 3)); /* corner */
  case 3: return (int) (sim::mix (op.seed ^ (id >> 2)) % 1000) < op.pm;     /* groups */
  case 5: {                                                                /* towards one point of some trees */
    if (sim::mix (op.seed * 3 + tree) % 3 == 0) return 0;
    const uint64_t nc = 1u << t8_eclass_to_dimension[cls];
    uint64_t at = 0, x = op.seed;
    for (int k = 0; k < level; k++) { x = sim::mix (x); at = at * nc + (x >> 9) % nc; }
    return id == at;
  }
  case 6: {                                                                /* deep, towards a corner of one element */
    if (tree != (t8_gloidx_t) (op.seed % 2)) return 0;
    const uint64_t nc = 1u << t8_eclass_to_dimension[cls];
    uint64_t at = 0, x = op.seed;
    for (int k = 0; k < level; k++) {
      if (k <= (int) (op.seed >> 3) % 4) x = sim::mix (x);
      at = at * nc + (x >> 9) % nc;
    }
    return id == at;
  }
  default: return ((id + op.seed) % 5) == 0;
  }
}
/* are the arguments of the callback what the documentation says? */
static void check_adapt_args (t8_forest_t from, t8_locidx_t which_tree, const t8_eclass_t c, t8_locidx_t lid, const t8_scheme *s, const int is_family, const int num, t8_element_t *e[], bool recursive)
{
  const char *why = nullptr;
  if (which_tree < 0 || which_tree >= t8_forest_get_num_local_trees (from)) why = "no such tree";
  else if (c != t8_forest_get_tree_class (from, which_tree)) why = "the class is not that of the tree";
  else if (s != t8_forest_get_scheme (from)) why = "not the scheme of the forest";
  else if (lid < 0 || lid >= t8_forest_get_tree_num_leaf_elements (from, which_tree)) why = "the tree has no such leaf";
  else if (num < 1 || (!is_family && num != 1)) why = "wrong number of elements";
  if (why) fail ("callback-arguments", "adapt callback for tree %d, leaf %d, %d elements, family %d: %s", (int) which_tree, (int) lid, num, is_family, why);
  const int L = s->get_maxlevel (c);
  Elem d (s, c);
  auto within = [&] (const t8_element_t *in, const t8_element_t *out) {
    if (s->element_get_level (c, in) < s->element_get_level (c, out)) return false;
    const t8_linearidx_t x = s->element_get_linear_id (c, in, L);
    if (x < s->element_get_linear_id (c, out, L)) return false;
    s->element_get_last_descendant (c, out, d.e, L);
    return x <= s->element_get_linear_id (c, d.e, L);
  };
  const t8_element_t *old = t8_forest_get_leaf_element_in_tree (from, which_tree, lid);
  if (is_family) {
    Elem p (s, c);
    const int level = s->element_get_level (c, e[0]);
    if (level == 0) why = "a root has no family";
    else {
      s->element_get_parent (c, e[0], p.e);
      for (int i = 0; i < num; i++) if (s->element_get_level (c, e[i]) != level || !within (e[i], p.e)) why = "the elements are no family";
      for (int i = 1; i < num; i++) if (s->element_get_linear_id (c, e[i], L) <= s->element_get_linear_id (c, e[i - 1], L)) why = "the family is not in order";
      if (!recursive && !s->element_is_equal (c, e[0], old)) why = "the first element is not the leaf that is named";
      if (recursive && !within (old, p.e)) why = "the leaf that is named is not part of the family";
    }
  }
  else if (recursive ? !within (e[0], old) : !s->element_is_equal (c, e[0], old)) why = "the element is not the leaf that is named";
  if (why) fail ("callback-arguments", "adapt callback for tree %d, leaf %d, %d elements, family %d: %s", (int) which_tree, (int) lid, num, is_family, why);
}
/* walking from an element along one of its faces down to the leaves: every element at the face that has leaves here, once */
namespace
{
struct FaceStep
{
  int level;
  t8_linearidx_t id;
  int face, leaf, first, n;
  auto key () const { return std::make_tuple (level, id, face, leaf, first, n); }
  bool operator< (const FaceStep &o) const { return key () < o.key (); }
  bool operator== (const FaceStep &o) const { return key () == o.key (); }
  std::string str () const { return fmt ("level %d id %llu face %d%s leaves %d+%d", level, (unsigned long long) id, face, leaf ? " leaf" : "", first, n); }
};
struct FaceWalk
{
  const t8_scheme *s;
  t8_eclass_t c;
  uint64_t salt;
  int prune;
  const t8_element_array_t *all;
  std::vector<FaceStep> v;
  bool go_on (const FaceStep &x) const { return (int) (sim::mix (salt + sim::mix (x.id * 31 + x.level)) % 1000) >= prune; }
};
int face_cb (const t8_forest_t, const t8_locidx_t, const t8_element_t *e, const int face, const int leaf, const t8_element_array_t *leaves, const t8_locidx_t first, void *u)
{
  FaceWalk *w = (FaceWalk *) u;
  FaceStep x { w->s->element_get_level (w->c, e), 0, face, leaf != 0, (int) first, (int) t8_element_array_get_count (leaves) };
  x.id = w->s->element_get_linear_id (w->c, e, x.level);
  for (int i = 0; i < x.n; i++)
    if (first + i >= (t8_locidx_t) t8_element_array_get_count (w->all) || !w->s->element_is_equal (w->c, t8_element_array_index_locidx (leaves, i), t8_element_array_index_locidx (w->all, first + i)))
      fail ("face-walk-leaves", "rank %d: walking along a face: at %s the leaf %d handed over is not the leaf %d of the tree", sim::rank (), x.str ().c_str (), i, (int) first + i);
  w->v.push_back (x);
  return w->go_on (x);
}
void face_want (FaceWalk &w, const t8_element_t *e, int face, int a, int b, std::vector<FaceStep> &out)
{
  if (a == b) return;
  const t8_scheme *s = w.s;
  FaceStep x { s->element_get_level (w.c, e), 0, face, b - a == 1 && s->element_is_equal (w.c, e, t8_element_array_index_locidx (w.all, a)), a, b - a };
  x.id = s->element_get_linear_id (w.c, e, x.level);
  out.push_back (x);
  if (x.leaf || !w.go_on (x)) return;
  const int L = s->get_maxlevel (w.c);
  int i = a;
  for (int k = 0; k < s->element_get_num_children (w.c, e); k++) {
    Elem ch (s, w.c), d (s, w.c);
    s->element_get_child (w.c, e, k, ch.e);
    s->element_get_last_descendant (w.c, ch.e, d.e, L);
    const t8_linearidx_t last = s->element_get_linear_id (w.c, d.e, L);
    int j = i;
    while (j < b && s->element_get_linear_id (w.c, t8_element_array_index_locidx (w.all, j), L) <= last) j++;
    for (int g = 0; g < s->element_get_num_faces (w.c, ch.e); g++)
      if (s->element_face_get_parent_face (w.c, ch.e, g) == face) face_want (w, ch.e, g, i, j, out);
    i = j;
  }
}
}
void check_face_walk (t8_forest_t f, uint64_t salt, int times)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  const t8_locidx_t nl = t8_forest_get_num_local_trees (f), ng = t8_forest_get_num_ghost_trees (f);
  for (int k = 0; k < times && nl + ng > 0; k++) {
    uint64_t x = salt = sim::mix (salt + k);
    FaceWalk w;
    const t8_locidx_t t = (t8_locidx_t) (x % (uint64_t) (nl + ng));
    w.s = s;
    w.all = t < nl ? t8_forest_tree_get_leaf_elements (f, t) : t8_forest_ghost_get_tree_leaf_elements (f, t - nl);
    w.c = t < nl ? t8_forest_get_tree_class (f, t) : t8_forest_ghost_get_tree_class (f, t - nl);
    w.salt = salt;
    w.prune = (x >> 20) % 4 ? 0 : 300;
    const int n = (int) t8_element_array_get_count (w.all), L = s->get_maxlevel (w.c);
    if (n == 0) continue;
    Elem e (s, w.c), p (s, w.c), d (s, w.c);
    s->element_copy (w.c, t8_element_array_index_locidx (w.all, (t8_locidx_t) ((x >> 24) % n)), e.e);
    const int up = (int) ((x >> 45) % (s->element_get_level (w.c, e.e) + 1));
    for (int i = 0; i < up; i++) { s->element_get_parent (w.c, e.e, p.e); s->element_copy (w.c, p.e, e.e); }
    const int nf = s->element_get_num_faces (w.c, e.e);
    if (nf == 0) continue;
    s->element_get_last_descendant (w.c, e.e, d.e, L);
    const t8_linearidx_t lo = s->element_get_linear_id (w.c, e.e, L), hi = s->element_get_linear_id (w.c, d.e, L);
    int a = 0, b;
    while (a < n && s->element_get_linear_id (w.c, t8_element_array_index_locidx (w.all, a), L) < lo) a++;
    for (b = a; b < n && s->element_get_linear_id (w.c, t8_element_array_index_locidx (w.all, b), L) <= hi; b++) ;
    const int face = (int) ((x >> 52) % nf);
    t8_element_array_t view;
    t8_element_array_init_view (&view, w.all, a, b - a);
    t8_forest_iterate_faces (f, t, e.e, face, &view, a, face_cb, &w);
    std::vector<FaceStep> want;
    face_want (w, e.e, face, a, b, want);
    std::sort (want.begin (), want.end ());
    std::sort (w.v.begin (), w.v.end ());
    for (size_t i = 0; i < std::max (want.size (), w.v.size ()); i++) {
      if (i < want.size () && i < w.v.size () && want[i] == w.v[i]) continue;
      fail ("face-walk", "rank %d, %s tree %d, face %d of level %d: walking along the face %s%s, should have visited %s", sim::rank (), t < nl ? "local" : "ghost", (int) (t < nl ? t : t - nl), face, s->element_get_level (w.c, e.e),
            i < w.v.size () ? "visited " : "stopped", i < w.v.size () ? w.v[i].str ().c_str () : "", i < want.size () ? want[i].str ().c_str () : "nothing more");
    }
  }
}
int adapt_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t which_tree, const t8_eclass_t c, t8_locidx_t lid, const t8_scheme *s, const int is_family,
              const int num, t8_element_t *e[])
{
  const AdaptArg *a = (const AdaptArg *) t8_forest_get_user_data (forest);
  const int k = a->op->kind;
  check_adapt_args (from, which_tree, c, lid, s, is_family, num, e, k == OP_REFINE_REC || k == OP_COARSEN_REC || k == OP_MIXED_REC);
  const int level = s->element_get_level (c, e[0]);
  t8_gloidx_t g = t8_forest_global_tree_id (from, which_tree);
  int d = op_decide (*a->op, g, c, level, s->element_get_linear_id (c, e[0], level), is_family);
  if (d > 0 && t8_forest_get_global_num_leaf_elements (from) > a->cap) d = 0;
  if (d == -2 && lid == 0) d = 0;   /* a tree must not become empty on a process */
  return d;
}
/* weights: passed through a global, all ranks of a group use the same */
static std::map<t8_forest_t, const Op *> weight_op;
static const Op *cur_weight_op[64];
double weight_of (const Op &op, const Leaf &l)
{
  uint64_t h = sim::mix (op.seed * 77 + l.tree * 131 + l.id * 17 + l.level);
  if (op.flag & 128) return 0;
  if ((op.flag & 64) && h % 3 && l.id) return 0;               /* first leaves always weigh something */
  switch (op.mode) {
  case 0: return 1.0;
  case 1: return 1.0 + (double) (h % 4);                      /* small integers: exact sums */
  case 2: return (double) (1 << (h % 10));                    /* wide dyadic */
  case 3: return 0.1 * (1 + (double) (h % 9));                /* rounding */
  default: return h % 7 == 0 ? 100.0 : 0.25;
  }
}
double weight_cb (t8_forest_t f, t8_locidx_t ltree, t8_locidx_t el)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_eclass_t c = t8_forest_get_tree_class (f, ltree);
  Leaf l = make_leaf (s, c, t8_forest_global_tree_id (f, ltree), t8_forest_get_leaf_element_in_tree (f, ltree, el));
  return weight_of (*cur_weight_op[sim::in_fiber () ? sim::rank () : 63], l);
}
std::vector<t8_gloidx_t> cut_offsets (const Op &op, t8_gloidx_t n, int P)
{
  std::vector<t8_gloidx_t> o;
  o.push_back (0);
  for (int r = 1; r < P; r++) {
    int pm = r - 1 < (int) op.cuts.size () ? op.cuts[r - 1] : 1000;
    t8_gloidx_t v = (t8_gloidx_t) ((double) n * pm / 1000.0);
    if (op.flag & 1) v = op.cuts[std::min<size_t> (r - 1, op.cuts.size () - 1)] > 500 ? n : 0;   /* extreme: everything on few ranks */
    if (v < o.back ()) v = o.back ();
    o.push_back (std::min (v, n));
  }
  return o;
}
t8_forest_t apply_op (t8_forest_t f, const Op &op, std::vector<t8_gloidx_t> *offs)
{
  t8_forest_t n;
  AdaptArg arg = { &op, leaf_cap (), nullptr };
  int rank, size;
  sc_MPI_Comm comm = t8_forest_get_mpicomm (f);
  sc_MPI_Comm_rank (comm, &rank);
  sc_MPI_Comm_size (comm, &size);
  t8_forest_init (&n);
  switch (op.kind) {
  case OP_REFINE:
  case OP_COARSEN:
  case OP_REMOVE:
  case OP_MIXED:
    t8_forest_set_user_data (n, &arg);
    t8_forest_set_adapt (n, f, adapt_cb, 0);
    if (op.part) t8_forest_set_partition (n, NULL, 0);
    break;
  case OP_REFINE_REC:
  case OP_COARSEN_REC:
  case OP_MIXED_REC:
    t8_forest_set_user_data (n, &arg);
    t8_forest_set_adapt (n, f, adapt_cb, 1);
    if (op.part) t8_forest_set_partition (n, NULL, 0);
    break;
  case OP_PARTITION: t8_forest_set_partition (n, f, 0); break;
  case OP_PFC:
    t8_forest_set_partition (n, f, 1);
    if (op.pfc_base == 1) {
      cur_weight_op[sim::in_fiber () ? sim::rank () : 63] = &op;
      t8_forest_set_partition_weight_function (n, weight_cb);
    }
    else if (op.pfc_base == 2) {
      std::vector<t8_gloidx_t> o = cut_offsets (op, t8_forest_get_global_num_leaf_elements (f), size);
      t8_forest_set_partition_offset (n, o[rank]);
    }
    break;
  case OP_BALANCE: t8_forest_set_balance (n, f, 0); break;
  case OP_BALANCE_NOREP: t8_forest_set_balance (n, f, 1); break;
  case OP_WEIGHT:
    cur_weight_op[sim::in_fiber () ? sim::rank () : 63] = &op;
    t8_forest_set_partition (n, f, 0);
    t8_forest_set_partition_weight_function (n, weight_cb);
    break;
  case OP_OFFSETS: {
    std::vector<t8_gloidx_t> o = cut_offsets (op, t8_forest_get_global_num_leaf_elements (f), size);
    t8_forest_set_partition (n, f, 0);
    t8_forest_set_partition_offset (n, o[rank]);
    if (offs) *offs = o;
    break;
  }
  case OP_COMBINED:
    t8_forest_set_user_data (n, &arg);
    t8_forest_set_adapt (n, f, adapt_cb, 0);
    if (op.flag & 1) t8_forest_set_partition (n, NULL, op.fam);
    if ((op.flag & 1) && op.pfc_base == 1) {
      cur_weight_op[sim::in_fiber () ? sim::rank () : 63] = &op;
      t8_forest_set_partition_weight_function (n, weight_cb);
    }
    if (op.flag & 2) t8_forest_set_balance (n, NULL, (op.flag & 4) != 0);
    break;
  case OP_COPY: t8_forest_set_copy (n, f); break;
  case OP_GHOST: t8_forest_set_partition (n, f, 0); break;
  }
  if (op.ghost == 1 || op.ghost == 2) t8_forest_set_ghost_ext (n, 1, T8_GHOST_FACES, op.ghost);
  else if (op.ghost || op.kind == OP_GHOST) t8_forest_set_ghost (n, 1, T8_GHOST_FACES);
  if (op.prof) t8_forest_set_profiling (n, 1);
  t8_forest_commit (n);
  if (op.prof) {
    t8_forest_compute_profile (n);
    t8_forest_print_profile (n);
  }
  t8_forest_set_user_data (n, nullptr);
  return n;
}

/* ------------------------------------------------------------- world */
std::string World::str () const
{
  static const char *n[] = { "all ranks", "ranks in reversed order", "a subset of the ranks", "two groups side by side" };
  return fmt ("%d ranks, %s%s", P, n[mode], mode >= 2 ? fmt (" (%d)", sub).c_str () : "");
}
World draw_world (int maxP, bool groups)
{
  World w;
  w.P = range (sim::W, 2, maxP);
  if (chance (sim::W, 30)) w.P = 1;
  if (chance (sim::W, 20)) w.P = range (sim::W, maxP, maxP + 12);   /* now and then many processes */
  w.mode = chance (sim::W, 250) ? range (sim::W, 1, groups ? 3 : 1) : 0;
  w.sub = w.P > 1 ? range (sim::W, 1, w.P - 1) : 1;
  if (w.P == 1 && w.mode > 1) w.mode = 0;
  return w;
}
bool run_world (const World &w, const std::function<void (sc_MPI_Comm, int)> &fn, bool perturb)
{
  sim::Config c;
  c.nranks = w.P;
  c.perturb = perturb;
  for (int r = 0; r < w.P; r++) c.group.push_back (w.mode < 2 ? 0 : r < w.sub ? 0 : w.mode == 2 ? -1 : 1);
  bool node_comms = !chance (sim::W, 250);   /* sc_init attaches them to the world communicator */
  return sim::run (c, [&] (int r) {
    MPI_Comm comm;
    if (node_comms) sc_mpi_comm_attach_node_comms (MPI_COMM_WORLD, 0);
    int group = 0;
    if (w.mode == 0) MPI_Comm_dup (MPI_COMM_WORLD, &comm);
    else if (w.mode == 1) MPI_Comm_split (MPI_COMM_WORLD, 0, -r, &comm);
    else {
      group = r < w.sub ? 0 : 1;
      MPI_Comm_split (MPI_COMM_WORLD, w.mode == 2 && group ? MPI_UNDEFINED : group, r, &comm);
    }
    if (comm != MPI_COMM_NULL) {
      fn (comm, group);
      MPI_Comm_free (&comm);
    }
    if (node_comms) sc_mpi_comm_detach_node_comms (MPI_COMM_WORLD);
  });
}

/* ------------------------------------------------------------- histories */
void Hist::describe () const
{
  sim::note ("%s", w.str ().c_str ());
  sim::note ("%s, uniform level %d", m.str ().c_str (), level);
  for (auto &o : ops) sim::note ("op %s", o.str ().c_str ());
}
Hist draw_hist (int flags, int maxP, const std::vector<int> &kinds, int minops, int maxops)
{
  Hist h;
  h.w = draw_world (maxP);
  h.m = draw_mesh (flags);
  h.level = range (sim::W, 0, h.m.dim () >= 3 ? 1 : 2);
  the_cap = chance (sim::W, 20) ? 3000 : 700;
  int n = range (sim::W, minops, maxops);
  if (n > 1 && chance (sim::W, 20)) n += range (sim::W, 2, 9);   /* now and then a long history */
  for (int i = 0; i < n; i++) h.ops.push_back (draw_op (kinds[choose (sim::W, (uint32_t) kinds.size ())], h.m));
  return h;
}
void run_hist (const Hist &h, const std::function<void (HistCtx &)> &fn, bool last_only)
{
  run_world (h.w, [&] (sc_MPI_Comm comm, int g) {
    HistCtx c;
    c.group = g;
    c.comm = comm;
    sc_MPI_Comm_rank (comm, &c.rank);
    sc_MPI_Comm_size (comm, &c.size);
    c.step = 0;
    c.op = nullptr;
    c.old = nullptr;
    c.f = t8_forest_new_uniform (build_cmesh (h.m, comm), new_scheme (h.m), h.level, 0, comm);
    if (!last_only || h.ops.empty ()) fn (c);
    for (size_t i = 0; i < h.ops.size (); i++) {
      bool see = !last_only || i + 1 == h.ops.size ();
      c.old = c.f;
      if (see) t8_forest_ref (c.old);
      c.step = (int) i + 1;
      c.op = &h.ops[i];
      c.f = apply_op (c.old, *c.op);
      if (see) {
        fn (c);
        t8_forest_unref (&c.old);
      }
    }
    t8_forest_unref (&c.f);
  });
}
Record::Record (const Hist &h)
{
  for (int k = 0; k < h.groups (); k++) {
    g[k].resize (h.ops.size () + 1);
    for (size_t i = 0; i <= h.ops.size (); i++) {
      g[k][i].what = i ? op_name (h.ops[i - 1].kind) : "new uniform";
      g[k][i].r.resize (h.w.size (k));
    }
  }
}
std::vector<std::vector<Leaf>> run_alone (const Hist &h)
{
  std::vector<std::vector<Leaf>> out;
  MeshSpec m = h.m;
  m.bcast = 0;
  t8_forest_t f = t8_forest_new_uniform (build_cmesh (m, MPI_COMM_SELF, true), new_scheme (m), h.level, 0, MPI_COMM_SELF);
  out.push_back (snap_forest (f).leaves);
  for (auto &o : h.ops) {
    f = apply_op (f, o);
    out.push_back (snap_forest (f).leaves);
  }
  t8_forest_unref (&f);
  return out;
}

/* ------------------------------------------------------------- model */
Model::Model (const MeshSpec &m)
{
  MeshSpec r = m;
  r.bcast = 0;
  t8_cmesh_t c = build_cmesh (r, MPI_COMM_SELF, true);
  s = new_scheme (m);
  f = t8_forest_new_uniform (c, s, 0, 0, MPI_COMM_SELF);
  t8_locidx_t n = t8_forest_get_num_local_trees (f);
  for (t8_locidx_t i = 0; i < n; i++) cls.push_back (t8_forest_get_tree_class (f, i));
  trees.resize (n);
  for (t8_locidx_t i = 0; i < n; i++) {
    Root r;
    Elem e (s, cls[i]);
    s->set_to_root (cls[i], e.e);
    r.nf = s->element_get_num_faces (cls[i], e.e);
    roots.emplace_back ();
    for (int k = 0; k < r.nf; k++) {
      RFace q;
      rface (i, Leaf (), e.e, k, q);
      r.n[k] = q.n;
      memcpy (r.x[k], q.x, sizeof q.x);
      memcpy (r.cen[k], q.cen, sizeof q.cen);
      memcpy (r.out[k], q.out, sizeof q.out);
    }
    roots[i] = r;
  }
}
Model::~Model () { t8_forest_unref (&f); }
void Model::set (const std::vector<Leaf> &l)
{
  built = false;
  for (auto &t : trees) t.clear ();
  for (auto &x : l) trees[x.tree].push_back (x);
}
std::vector<Leaf> Model::all () const
{
  std::vector<Leaf> v;
  for (auto &t : trees) v.insert (v.end (), t.begin (), t.end ());
  return v;
}
t8_linearidx_t Model::last_desc (const Leaf &l) const
{
  t8_eclass_t c = (t8_eclass_t) l.cls;
  Elem e (s, c), d (s, c);
  set_elem (s, l, e.e);
  s->element_get_last_descendant (c, e.e, d.e, s->get_maxlevel (c));
  return s->element_get_linear_id (c, d.e, s->get_maxlevel (c));
}
long Model::covering (t8_gloidx_t tree, const t8_element_t *e) const
{
  t8_eclass_t c = cls[tree];
  int lv = s->element_get_level (c, e);
  t8_linearidx_t first = s->element_get_linear_id (c, e, s->get_maxlevel (c));
  const auto &t = trees[tree];
  /* last leaf with first <= given */
  auto it = std::upper_bound (t.begin (), t.end (), first, [] (t8_linearidx_t v, const Leaf &l) { return v < l.first; });
  if (it == t.begin ()) return -1;
  --it;
  if (it->level > lv) return -1;
  if (last_desc (*it) < first) return -1;
  return it - t.begin ();
}
bool Model::any_inside (t8_gloidx_t tree, const t8_element_t *e) const
{
  t8_eclass_t c = cls[tree];
  t8_linearidx_t first = s->element_get_linear_id (c, e, s->get_maxlevel (c));
  Elem d (s, c);
  s->element_get_last_descendant (c, e, d.e, s->get_maxlevel (c));
  t8_linearidx_t last = s->element_get_linear_id (c, d.e, s->get_maxlevel (c));
  const auto &t = trees[tree];
  auto it = std::lower_bound (t.begin (), t.end (), first, [] (const Leaf &l, t8_linearidx_t v) { return l.first < v; });
  return it != t.end () && it->first <= last;
}
int Model::num_faces (const Leaf &l) const
{
  Elem e (s, (t8_eclass_t) l.cls);
  set_elem (s, l, e.e);
  return s->element_get_num_faces ((t8_eclass_t) l.cls, e.e);
}
void Model::collect (t8_gloidx_t tree, t8_eclass_t c, const t8_element_t *n, int nface, std::vector<Nb> &out) const
{
  long k = covering (tree, n);
  if (k >= 0) {
    const Leaf &l = trees[tree][k];
    /* dual face of the leaf: walk up from n */
    int face = nface;
    Elem p (s, c);
    s->element_copy (c, n, p.e);
    for (int lv = s->element_get_level (c, n); lv > l.level && face >= 0; lv--) {
      face = s->element_face_get_parent_face (c, p.e, face);
      s->element_get_parent (c, p.e, p.e);
    }
    out.push_back ({ l, face });
    return;
  }
  if (!any_inside (tree, n)) return;
  int nc = s->element_get_num_face_children (c, n, nface);
  std::vector<t8_element_t *> ch (nc);
  s->element_new (c, nc, ch.data ());
  s->element_get_children_at_face (c, n, nface, ch.data (), nc, nullptr);
  for (int i = 0; i < nc; i++) collect (tree, c, ch[i], s->element_face_get_child_face (c, n, nface, i), out);
  s->element_destroy (c, nc, ch.data ());
}
/* ---- face neighbours from reference coordinates ---- */
static void sub3 (const double *a, const double *b, double *o) { for (int d = 0; d < 3; d++) o[d] = a[d] - b[d]; }
static double dot3 (const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross3 (const double *a, const double *b, double *o)
{
  o[0] = a[1] * b[2] - a[2] * b[1];
  o[1] = a[2] * b[0] - a[0] * b[2];
  o[2] = a[0] * b[1] - a[1] * b[0];
}
static const double REF_EPS = 1e-9;
/* centre, outward normal and size of a face of something whose centre is mid */
static void face_frame (int n, const double x[4][3], const double *mid, double *cen, double *out, double *size)
{
  double a[3], b[3], c[3];
  for (int d = 0; d < 3; d++) { cen[d] = 0; for (int i = 0; i < n; i++) cen[d] += x[i][d] / n; }
  if (n == 1) { *size = 0; out[0] = 1; out[1] = out[2] = 0; }
  else if (n == 2) {
    sub3 (x[1], x[0], a);
    *size = std::sqrt (dot3 (a, a));
    out[0] = a[1] / *size; out[1] = -a[0] / *size; out[2] = 0;
  }
  else {
    sub3 (x[1], x[0], a);
    sub3 (x[2], x[0], b);
    cross3 (a, b, out);
    *size = std::sqrt (dot3 (out, out)) * (n == 3 ? 0.5 : 1);
    double l = std::sqrt (dot3 (out, out));
    for (int d = 0; d < 3; d++) out[d] /= l;
  }
  sub3 (cen, mid, c);
  if (dot3 (c, out) < 0) for (int d = 0; d < 3; d++) out[d] = -out[d];
}
void Model::rface (t8_gloidx_t tree, const Leaf &l, const t8_element_t *e, int face, RFace &o) const
{
  t8_eclass_t c = cls[tree];
  o.leaf = l;
  o.face = face;
  o.n = t8_eclass_num_vertices[s->element_get_face_shape (c, e, face)];
  double mid[3] = { 0, 0, 0 };
  int nc = s->element_get_num_corners (c, e);
  for (int i = 0; i < nc; i++) {
    double x[3] = { 0, 0, 0 };
    s->element_get_vertex_reference_coords (c, e, i, x);
    for (int d = 0; d < 3; d++) mid[d] += x[d] / nc;
  }
  memset (o.x, 0, sizeof o.x);
  for (int i = 0; i < o.n; i++) s->element_get_vertex_reference_coords (c, e, s->element_get_face_corner (c, e, face, i), o.x[i]);
  face_frame (o.n, o.x, mid, o.cen, o.out, &o.size);
  o.tface = -1;
  const Root &r = roots[tree];
  for (int k = 0; k < r.nf && o.tface < 0; k++) {
    bool on = dot3 (o.out, r.out[k]) > 0;
    for (int i = 0; i < o.n && on; i++) { double d[3]; sub3 (o.x[i], r.cen[k], d); on = std::fabs (dot3 (d, r.out[k])) < 1e-12; }
    if (on) o.tface = k;
  }
}
double Model::outside (const Leaf &l, const double *x) const
{
  Elem e (s, (t8_eclass_t) l.cls);
  set_elem (s, l, e.e);
  const int nf = s->element_get_num_faces ((t8_eclass_t) l.cls, e.e);
  double worst = -1e9;
  for (int k = 0; k < nf; k++) {
    RFace r;
    rface (l.tree, l, e.e, k, r);
    double d[3];
    sub3 (x, r.cen, d);
    worst = std::max (worst, dot3 (d, r.out));
  }
  return worst;
}
std::array<long long, 5> Model::plane (const RFace &f)
{
  if (f.tface >= 0) return { 1, f.tface, 0, 0, 0 };
  /* planes are at least 2^-32 apart, the coordinates are exact */
  double n[3] = { f.out[0], f.out[1], f.out[2] }, sg = 1;
  for (int d = 0; d < 3; d++) if (std::fabs (n[d]) > 1e-6) { if (n[d] < 0) sg = -1; break; }
  return { 0, std::llround (sg * n[0] * 1e6), std::llround (sg * n[1] * 1e6), std::llround (sg * n[2] * 1e6), std::llround (sg * dot3 (n, f.cen) * 1e11 + 0.3137) };
}
void Model::build () const
{
  if (built) return;
  built = true;
  faces.assign (trees.size (), {});
  for (size_t t = 0; t < trees.size (); t++) {
    if (trees[t].empty ()) continue;
    Elem e (s, cls[t]);
    for (auto &l : trees[t]) {
      set_elem (s, l, e.e);
      int nf = s->element_get_num_faces (cls[t], e.e);
      for (int k = 0; k < nf; k++) {
        RFace r;
        rface ((t8_gloidx_t) t, l, e.e, k, r);
        faces[t][plane (r)].push_back (r);
      }
    }
  }
}
/* is p inside the polygon? (both lie in one plane) */
static bool face_inside (const double *p, int n, const double x[4][3])
{
  double a[3], b[3], c[3];
  if (n == 1) { sub3 (p, x[0], a); return dot3 (a, a) < 1e-24; }
  if (n == 2) {
    sub3 (p, x[0], a);
    sub3 (x[1], x[0], b);
    double t = dot3 (a, b) / dot3 (b, b);
    return t > 0 && t < 1;
  }
  static const int tri[] = { 0, 1, 2 }, quad[] = { 0, 1, 3, 2 };
  const int *o = n == 3 ? tri : quad;
  double first[3] = { 0, 0, 0 };
  for (int i = 0; i < n; i++) {
    sub3 (x[o[(i + 1) % n]], x[o[i]], a);
    sub3 (p, x[o[i]], b);
    cross3 (a, b, c);
    if (i == 0) memcpy (first, c, sizeof c);
    if (dot3 (c, c) < 1e-24 * dot3 (a, a) || dot3 (c, first) < 0) return false;
  }
  return true;
}
std::vector<Model::Nb> Model::neighbors (const Leaf &l, int face, bool *boundary) const
{
  build ();
  std::vector<Nb> out;
  Elem e (s, (t8_eclass_t) l.cls);
  set_elem (s, l, e.e);
  RFace q;
  rface (l.tree, l, e.e, face, q);
  t8_gloidx_t tree = l.tree;
  auto key = plane (q);
  if (q.tface >= 0) {
    /* carry the face over to the joined tree */
    int dual = -1, ori = -1;
    t8_cmesh_t cm = t8_forest_get_cmesh (f);
    t8_locidx_t nt = t8_cmesh_get_face_neighbor (cm, (t8_locidx_t) l.tree, q.tface, &dual, &ori);
    if (nt < 0 || t8_cmesh_tree_face_is_boundary (cm, (t8_locidx_t) l.tree, q.tface)) { if (boundary) *boundary = true; return out; }
    const Root &A = roots[l.tree], &B = roots[nt];
    int n = A.n[q.tface], map[4] = { 0, 0, 0, 0 };   /* corner of B's face for every corner of A's */
    static const int cyc[] = { 0, 1, 3, 2 };
    auto at = [&] (int i) { return n == 4 ? cyc[((i % n) + n) % n] : ((i % n) + n) % n; };   /* the order around the face; its own inverse */
    if (n == 1) map[0] = 0;
    else if (n == 2) for (int i = 0; i < 2; i++) map[i] = (i + ori) % 2;
    else {
      auto hand = [] (const Root &r, int k) {
        double a[3], b[3], c[3];
        sub3 (r.x[k][1], r.x[k][0], a);
        sub3 (r.x[k][2], r.x[k][0], b);
        cross3 (a, b, c);
        return dot3 (c, r.out[k]) > 0;
      };
      bool opposite = hand (A, q.tface) == hand (B, dual);   /* seen from outside, the orders around the face oppose each other */
      bool main = l.cls == cls[nt] ? q.tface <= dual : t8_eclass_compare ((t8_eclass_t) l.cls, cls[nt]) < 0;
      for (int j = 0; j < n; j++) {
        int b = opposite ? at (ori) - j : at (ori) + j;   /* position of the other face's corner */
        if (main) map[at (j)] = at (b);
        else map[at (b)] = at (j);
      }
    }
    double u[3], v[3], U[3], V[3];
    const double (*a)[3] = A.x[q.tface], (*b)[3] = B.x[dual];
    memset (v, 0, sizeof v); memset (V, 0, sizeof V); memset (u, 0, sizeof u); memset (U, 0, sizeof U);
    if (n > 1) { sub3 (a[1], a[0], u); sub3 (b[map[1]], b[map[0]], U); }
    if (n > 2) { sub3 (a[2], a[0], v); sub3 (b[map[2]], b[map[0]], V); }
    double uu = dot3 (u, u), uv = dot3 (u, v), vv = dot3 (v, v);
    auto carry = [&] (double *p) {
      double d[3];
      sub3 (p, a[0], d);
      double du = dot3 (d, u), dv = dot3 (d, v), s_ = 0, t_ = 0;
      if (n == 2) s_ = du / uu;
      if (n > 2) { double D = uu * vv - uv * uv; s_ = (du * vv - dv * uv) / D; t_ = (dv * uu - du * uv) / D; }
      for (int k = 0; k < 3; k++) p[k] = b[map[0]][k] + s_ * U[k] + t_ * V[k];
    };
    for (int i = 0; i < q.n; i++) carry (q.x[i]);
    double mid[3];
    sub3 (B.cen[dual], B.out[dual], mid);
    face_frame (q.n, q.x, mid, q.cen, q.out, &q.size);
    for (int d = 0; d < 3; d++) q.out[d] = -B.out[dual][d];
    tree = nt;
    key = { 1, dual, 0, 0, 0 };
  }
  if (boundary) *boundary = false;
  auto it = faces[tree].find (key);
  if (it == faces[tree].end ()) return out;
  for (auto &g : it->second) {
    if (dot3 (g.out, q.out) > 0) continue;
    if (g.size >= q.size * (1 - REF_EPS) ? face_inside (q.cen, g.n, g.x) : face_inside (g.cen, q.n, q.x)) out.push_back ({ g.leaf, g.face });
  }
  return out;
}
int Model::tree_face (const Leaf &l, int face, int *orientation) const
{
  Elem e (s, (t8_eclass_t) l.cls);
  set_elem (s, l, e.e);
  RFace q;
  rface (l.tree, l, e.e, face, q);
  *orientation = 0;
  if (q.tface >= 0) {
    t8_cmesh_t cm = t8_forest_get_cmesh (f);
    int dual = -1, ori = 0;
    if (t8_cmesh_get_face_neighbor (cm, (t8_locidx_t) l.tree, q.tface, &dual, &ori) >= 0) *orientation = ori;
  }
  return q.tface;
}
std::vector<Leaf> Model::at_face (const Leaf &l, int face) const
{
  std::vector<Leaf> out;
  Elem e (s, (t8_eclass_t) l.cls), x (s, (t8_eclass_t) l.cls);
  set_elem (s, l, e.e);
  long k = covering (l.tree, e.e);
  if (k >= 0) { out.push_back (trees[l.tree][k]); return out; }
  RFace q, r;
  rface (l.tree, l, e.e, face, q);
  auto key = plane (q);
  t8_linearidx_t to = last_desc (l);
  for (auto &y : trees[l.tree]) {
    if (y.first < l.first || y.first > to) continue;
    set_elem (s, y, x.e);
    int nf = s->element_get_num_faces ((t8_eclass_t) l.cls, x.e);
    for (int i = 0; i < nf; i++) {
      rface (l.tree, y, x.e, i, r);
      if (dot3 (r.out, q.out) > 0.5 && plane (r) == key) { out.push_back (y); break; }
    }
  }
  return out;
}
void Model::children (const Leaf &l, std::vector<Leaf> &out) const
{
  t8_eclass_t c = (t8_eclass_t) l.cls;
  Elem e (s, c);
  set_elem (s, l, e.e);
  int n = s->element_get_num_children (c, e.e);
  std::vector<t8_element_t *> ch (n);
  s->element_new (c, n, ch.data ());
  s->element_get_children (c, e.e, n, ch.data ());
  for (int i = 0; i < n; i++) out.push_back (make_leaf (s, c, l.tree, ch[i]));
  s->element_destroy (c, n, ch.data ());
}
Leaf Model::parent (const Leaf &l) const
{
  t8_eclass_t c = (t8_eclass_t) l.cls;
  Elem e (s, c);
  set_elem (s, l, e.e);
  s->element_get_parent (c, e.e, e.e);
  return make_leaf (s, c, l.tree, e.e);
}
bool Model::balance ()
{
  bool any = false;
  for (;;) {
    std::set<std::pair<t8_gloidx_t, t8_linearidx_t>> refine;   /* (tree, first) */
    for (auto &t : trees)
      for (auto &l : t) {
        if (l.level < 2) continue;
        int nf = num_faces (l);
        for (int f_ = 0; f_ < nf; f_++)
          for (auto &n : neighbors (l, f_))
            if (n.leaf.level < l.level - 1) refine.insert ({ n.leaf.tree, n.leaf.first });
      }
    if (refine.empty ()) return any;
    any = true;
    for (auto &t : trees) {
      std::vector<Leaf> n;
      for (auto &l : t) {
        if (refine.count ({ l.tree, l.first })) children (l, n);
        else n.push_back (l);
      }
      t.swap (n);
      built = false;
    }
  }
}
std::vector<Leaf> Model::adapt (const std::vector<Leaf> &in, const Op &op, long global, bool holes, int rank, int size) const
{
  std::vector<Leaf> out;
  for (size_t i = 0; i < in.size ();) {
    const Leaf &l = in[i];
    t8_eclass_t c = (t8_eclass_t) l.cls;
    Elem e (s, c);
    set_elem (s, l, e.e);
    int fam = 0;                   /* number of members */
    const bool start = i == 0 || in[i - 1].tree != l.tree;
    if (l.level > 0) {
      std::vector<Leaf> sib;
      const Leaf p = parent (l);
      children (p, sib);
      if (holes) {
        size_t n = i + 1;
        while (n < in.size () && in[n].tree == l.tree && in[n].level == l.level && parent (in[n]) == p) n++;
        fam = (int) (n - i);
        if (!start && inside (in[i - 1], p)) fam = 0;                                             /* others came before */
        if (n < in.size () && inside (in[n], p)) fam = 0;                                         /* others come later */
        if (i == 0 && rank > 0 && l != sib[0]) fam = 0;                                           /* the previous process may have some */
        if (in.back ().tree == l.tree && rank < size - 1 && i + sib.size () > in.size ()) fam = 0;  /* the next process may have some */
      }
      else if (i + sib.size () <= in.size () && std::equal (sib.begin (), sib.end (), in.begin () + i)) fam = (int) sib.size ();
    }
    int d = op_decide (op, l.tree, l.cls, l.level, l.id, fam > 0);
    if (d > 0 && (global > leaf_cap () || !s->element_is_refinable (c, e.e))) d = 0;
    if (d == -2 && start) d = 0;
    if (d > 0) { children (l, out); i++; }
    else if (d == -1 && fam) { out.push_back (parent (l)); i += fam; }
    else if (d == -2) i++;
    else { out.push_back (l); i++; }
  }
  return out;
}
bool Model::covers (const std::vector<Leaf> &v) const
{
  size_t i = 0;
  for (size_t t = 0; t < cls.size (); t++) {
    Elem root (s, cls[t]);
    s->element_set_linear_id (cls[t], root.e, 0, 0);
    const Leaf r = make_leaf (s, cls[t], (t8_gloidx_t) t, root.e);
    t8_linearidx_t next = r.first;
    for (; i < v.size () && v[i].tree == (t8_gloidx_t) t; i++) {
      if (v[i].first != next) return false;
      next = last_desc (v[i]) + 1;
    }
    if (next != last_desc (r) + 1) return false;
  }
  return i == v.size ();
}
std::vector<Leaf> Model::adapt_rec (const std::vector<Leaf> &in, const Op &op, long global) const
{
  std::vector<Leaf> out;
  size_t first = 0;                /* leaves before this one are done */
  int maxlevel = 100;              /* of the forest: the least one of its classes */
  for (auto c : cls) maxlevel = std::min (maxlevel, s->get_maxlevel (c));
  auto refinable = [&] (const Leaf &l) {
    Elem e (s, (t8_eclass_t) l.cls);
    set_elem (s, l, e.e);
    return l.level < maxlevel && s->element_is_refinable ((t8_eclass_t) l.cls, e.e);
  };
  auto family = [&] (const std::vector<Leaf> &v, size_t i) -> int {   /* number of members, if v[i..] starts with a family */
    if (v[i].level == 0) return 0;
    std::vector<Leaf> sib;
    children (parent (v[i]), sib);
    if (i + sib.size () > v.size ()) return 0;
    for (size_t k = 0; k < sib.size (); k++) if (v[i + k] != sib[k]) return 0;
    return (int) sib.size ();
  };
  auto coarsen = [&] () {
    while (out.back ().level > 0) {
      std::vector<Leaf> sib;
      children (parent (out.back ()), sib);
      const size_t n = sib.size ();
      if (n < 2 || out.size () < first + n || family (out, out.size () - n) != (int) n) return;
      const Leaf &l = out[out.size () - n];
      if (op_decide (op, l.tree, l.cls, l.level, l.id, true) != -1) return;
      Leaf p = parent (l);
      out.resize (out.size () - n);
      out.push_back (p);
    }
  };
  for (size_t i = 0; i < in.size ();) {
    const bool start = i == 0 || in[i - 1].tree != in[i].tree;
    if (start) first = out.size ();
    int fam = family (in, i);
    int d = op_decide (op, in[i].tree, in[i].cls, in[i].level, in[i].id, fam > 0);
    if (d > 0 && (global > leaf_cap () || !refinable (in[i]))) d = 0;
    if (d == -2 && start) d = 0;
    if (d > 0) {
      std::vector<Leaf> st, ch;
      children (in[i], ch);
      st.assign (ch.rbegin (), ch.rend ());
      while (!st.empty ()) {
        Leaf l = st.back ();
        st.pop_back ();
        d = op_decide (op, l.tree, l.cls, l.level, l.id, false);
        if (d == -2 && start) d = 0;
        if (d > 0 && !refinable (l)) d = 0;
        if (d > 0) {
          ch.clear ();
          children (l, ch);
          st.insert (st.end (), ch.rbegin (), ch.rend ());
        }
        else if (d != -2) out.push_back (l);
      }
      first = out.size ();
      i++;
    }
    else if (d == -2) i++;
    else if (d == -1 && fam) { out.push_back (parent (in[i])); i += fam; coarsen (); }
    else { out.push_back (in[i]); i++; coarsen (); }
  }
  return out;
}
std::vector<Leaf> Model::uniform (int level) const
{
  std::vector<Leaf> out;
  for (size_t t = 0; t < cls.size (); t++) {
    t8_eclass_t c = cls[t];
    Elem root (s, c), e (s, c);
    s->element_set_linear_id (c, root.e, 0, 0);
    t8_gloidx_t n = s->element_count_leaves (c, root.e, level);
    for (t8_gloidx_t i = 0; i < n; i++) {
      s->element_set_linear_id (c, e.e, level, i);
      out.push_back (make_leaf (s, c, (t8_gloidx_t) t, e.e));
    }
  }
  return out;
}
