/* C15: reading a Gmsh file, replicated or by one process, with a disk that fails. */
#include "cmodel.hxx"
#include "../sim/runner.hxx"
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstring>
using sim::fail;
namespace
{
struct MNode { long tag = 0; double x[3]; int edim = 0, etag = 0; bool par = false; double uv[2] = { 0, 0 }; };
struct MElem { int cls; std::vector<int> n; };   /* nodes in the order of t8code */
struct Msh
{
  int dim = 2;
  std::vector<MNode> nodes;
  std::vector<MElem> el;           /* of this dimension, in file order */
  std::vector<MElem> low;          /* of lower dimension */
  std::string text;
  size_t last_begin = 0, last_end = 0;   /* of the last element line */
  CSpec spec;
};
/* documented node order of Gmsh: position in the file -> vertex of t8code */
const int g2t[T8_ECLASS_COUNT][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };
const int gtype[T8_ECLASS_COUNT] = { 15, 1, 3, 2, 5, 4, 6, 7 };
void add (std::string &s, const char *f, ...)
{
  char b[256];
  va_list a;
  va_start (a, f);
  vsnprintf (b, sizeof b, f, a);
  va_end (a);
  s += b;
}
void rotate (MElem &e)
{
  std::vector<int> o = e.n;
  auto cyc = [&] (std::vector<int> pos, int r) { std::vector<int> v; for (int p : pos) v.push_back (e.n[p]); for (size_t i = 0; i < pos.size (); i++) e.n[pos[i]] = v[(i + r) % pos.size ()]; };
  switch (e.cls) {
  case T8_ECLASS_TRIANGLE: cyc ({ 0, 1, 2 }, choose (sim::W, 3)); break;
  case T8_ECLASS_QUAD: cyc ({ 0, 1, 3, 2 }, choose (sim::W, 4)); break;
  case T8_ECLASS_PYRAMID: cyc ({ 0, 1, 3, 2 }, choose (sim::W, 4)); break;
  case T8_ECLASS_PRISM: { int r = choose (sim::W, 3); cyc ({ 0, 1, 2 }, r); cyc ({ 3, 4, 5 }, r); break; }
  case T8_ECLASS_TET: cyc ({ 0, 1, 2 }, choose (sim::W, 3)); cyc ({ 1, 2, 3 }, choose (sim::W, 3)); break;
  case T8_ECLASS_HEX: {
    int r = choose (sim::W, 4), c = choose (sim::W, 3);
    cyc ({ 0, 1, 3, 2 }, r); cyc ({ 4, 5, 7, 6 }, r);
    cyc ({ 1, 2, 4 }, c); cyc ({ 3, 6, 5 }, c);    /* about the diagonal */
    break; }
  case T8_ECLASS_LINE: if (choose (sim::W, 2)) std::swap (e.n[0], e.n[1]); break;
  }
}
Msh draw_msh ()
{
  Msh m;
  m.dim = choose (sim::W, 8) == 7 ? 1 : range (sim::W, 2, 3);
  int nx = range (sim::W, 1, 3), ny = m.dim > 1 ? range (sim::W, 1, 2) : 0, nz = m.dim > 2 ? range (sim::W, 1, 2) : 0;
  int kind = choose (sim::W, 3);
  auto id = [&] (int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
  m.nodes.resize ((nx + 1) * (ny + 1) * (nz + 1));
  auto coord = [&] (MNode &n, double x, double y, double z) {
    n.x[0] = x + 0.001 * choose (sim::W, 100); n.x[1] = y + (m.dim > 1 ? 0.001 * choose (sim::W, 100) : 0.); n.x[2] = z + (m.dim > 2 ? 0.001 * choose (sim::W, 100) : 0.);
  };
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) coord (m.nodes[id (i, j, k)], i, j, k);
  std::vector<char> col ((nx + 1) * (ny + 1), 2);
  for (int k = 0; k < std::max (nz, 1); k++) for (int j = 0; j < std::max (ny, 1); j++) for (int i = 0; i < nx; i++) {
    auto q = [&] (int b) { return id (i + (b & 1), j + (b >> 1 & 1), k + (b >> 2 & 1)); };
    if (m.dim == 1) m.el.push_back ({ T8_ECLASS_LINE, { q (0), q (1) } });
    else if (m.dim == 2) {
      if (choose (sim::W, 2)) m.el.push_back ({ T8_ECLASS_QUAD, { q (0), q (1), q (2), q (3) } });
      else { m.el.push_back ({ T8_ECLASS_TRIANGLE, { q (0), q (1), q (3) } }); m.el.push_back ({ T8_ECLASS_TRIANGLE, { q (0), q (3), q (2) } }); }
    }
    else if (kind == 0) {   /* hexes and pyramids */
      if (choose (sim::W, 2)) m.el.push_back ({ T8_ECLASS_HEX, { q (0), q (1), q (2), q (3), q (4), q (5), q (6), q (7) } });
      else {
        MNode c;
        coord (c, i + .5, j + .5, k + .5);
        int ci = (int) m.nodes.size ();
        m.nodes.push_back (c);
        /* the base seen from the apex is counterclockwise */
        static const int fc[6][4] = { { 0, 1, 2, 3 }, { 5, 4, 7, 6 }, { 1, 0, 5, 4 }, { 2, 3, 6, 7 }, { 0, 2, 4, 6 }, { 3, 1, 7, 5 } };
        for (auto &f : fc) m.el.push_back ({ T8_ECLASS_PYRAMID, { q (f[0]), q (f[1]), q (f[2]), q (f[3]), ci } });
      }
    }
    else if (kind == 1) {   /* columns of hexes and prisms */
      char &c = col[j * nx + i];
      if (c == 2) c = choose (sim::W, 2);
      if (c) m.el.push_back ({ T8_ECLASS_HEX, { q (0), q (1), q (2), q (3), q (4), q (5), q (6), q (7) } });
      else { m.el.push_back ({ T8_ECLASS_PRISM, { q (0), q (1), q (3), q (4), q (5), q (7) } }); m.el.push_back ({ T8_ECLASS_PRISM, { q (0), q (3), q (2), q (4), q (7), q (6) } }); }
    }
    else {
      static const int pm[6][3] = { { 1, 2, 4 }, { 1, 4, 2 }, { 2, 1, 4 }, { 2, 4, 1 }, { 4, 1, 2 }, { 4, 2, 1 } };
      static const bool even[6] = { true, false, false, true, true, false };
      for (int p = 0; p < 6; p++) {
        int a = pm[p][0], b = pm[p][0] + pm[p][1];
        if (even[p]) std::swap (a, b);
        m.el.push_back ({ T8_ECLASS_TET, { q (0), q (a), q (b), q (7) } });
      }
    }
  }
  for (size_t i = m.el.size (); i > 1; i--) std::swap (m.el[i - 1], m.el[choose (sim::W, (uint32_t) i)]);
  while (m.el.size () > 1 && chance (sim::W, 100)) m.el.pop_back ();   /* holes */
  for (auto &e : m.el) rotate (e);
  for (int i = choose (sim::W, 4); i > 0; i--) m.low.push_back ({ T8_ECLASS_VERTEX, { (int) choose (sim::W, (uint32_t) m.nodes.size ()) } });
  if (m.dim > 1) for (int i = choose (sim::W, 4); i > 0; i--) { int a = choose (sim::W, (uint32_t) m.nodes.size () - 1); m.low.push_back ({ T8_ECLASS_LINE, { a, a + 1 } }); }
  if (m.dim > 2) for (int i = choose (sim::W, 3); i > 0; i--) m.low.push_back ({ T8_ECLASS_TRIANGLE, { 0, 1, 2 } });
  /* tags */
  std::vector<long> tags;
  bool sparse = chance (sim::W, 300);
  for (size_t i = 0; i < m.nodes.size (); i++) tags.push_back (sparse ? 3 + 7 * (long) i + choose (sim::W, 5) : 1 + (long) i);
  if (chance (sim::W, 60)) { long far[] = { 1000000, 2147483640, 5000000000 }; long d = far[choose (sim::W, 3)]; for (auto &t : tags) if (t % 3) t += d; }
  if (choose (sim::W, 2)) for (size_t i = tags.size (); i > 1; i--) std::swap (tags[i - 1], tags[choose (sim::W, (uint32_t) i)]);
  for (size_t i = 0; i < m.nodes.size (); i++) m.nodes[i].tag = tags[i];
  /* the text */
  std::string &s = m.text;
  auto filler = [&] () { switch (choose (sim::W, 8)) { case 0: s += "# a comment\n"; break; case 1: s += "  \t \n"; break; case 2: s += "\n"; break; } };
  if (choose (sim::W, 4) == 0) s += "$Comments\nwritten by nobody\n$EndComments\n";
  s += choose (sim::W, 2) ? "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n" : "$MeshFormat\n4 0 8\n$EndMeshFormat\n";
  s = s.find ("4 0 8") != std::string::npos ? s.replace (s.find ("4 0 8"), 5, "4.0 0 8") : s;
  if (choose (sim::W, 3) == 0) s += "$PhysicalNames\n1\n2 1 \"wall\"\n$EndPhysicalNames\n";
  if (choose (sim::W, 3) == 0) s += "$Entities\n1 0 0 0\n1 0 0 0 0\n$EndEntities\n";
  s += "$Nodes\n";
  std::vector<int> perm (m.nodes.size ());
  for (size_t i = 0; i < perm.size (); i++) perm[i] = (int) i;
  for (size_t i = perm.size (); i > 1; i--) std::swap (perm[i - 1], perm[choose (sim::W, (uint32_t) i)]);
  std::vector<std::vector<int>> blocks (range (sim::W, 1, 4));
  for (int p : perm) blocks[choose (sim::W, (uint32_t) blocks.size ())].push_back (p);
  add (s, "%zu %zu %ld %ld\n", blocks.size (), m.nodes.size (), *std::min_element (tags.begin (), tags.end ()), *std::max_element (tags.begin (), tags.end ()));
  for (auto &b : blocks) {
    filler ();
    int edim = choose (sim::W, 4), etag = 1 + choose (sim::W, 9), par = (edim == 1 || edim == 2) && choose (sim::W, 2);
    add (s, "%d %d %d %zu\n", edim, etag, par, b.size ());
    for (int p : b) add (s, "%ld\n", m.nodes[p].tag);
    for (int p : b) {
      MNode &n = m.nodes[p];
      n.edim = edim; n.etag = etag; n.par = par;
      add (s, "%.17g %.17g %.17g", n.x[0], n.x[1], n.x[2]);
      if (par) for (int k = 0; k < edim; k++) { n.uv[k] = 0.01 * choose (sim::W, 100); add (s, " %.17g", n.uv[k]); }
      s += "\n";
    }
  }
  s += "$EndNodes\n";
  filler ();
  s += "$Elements\n";
  /* blocks of elements of one class in order */
  std::vector<std::pair<int, std::vector<MElem>>> eb;
  for (auto &e : m.el) {
    if (eb.empty () || eb.back ().first != e.cls || chance (sim::W, 200)) eb.push_back ({ e.cls, {} });
    eb.back ().second.push_back (e);
  }
  for (auto &e : m.low) eb.insert (eb.begin () + choose (sim::W, (uint32_t) eb.size () + 1), { e.cls, { e } });
  if (choose (sim::W, 2)) add (s, "%zu %zu 1 %zu\n", eb.size (), m.el.size () + m.low.size (), m.el.size () + m.low.size ());
  else add (s, "%zu %zu 1 %zu\n", eb.size (), m.el.size () + m.low.size (), 3 * m.el.size () + m.low.size ());
  int tag = 1;
  bool space = choose (sim::W, 2);
  std::vector<MElem> order;
  for (auto &b : eb) {
    filler ();
    add (s, "%d 1 %d %zu\n", t8_eclass_to_dimension[b.first], gtype[b.first], b.second.size ());
    for (auto &e : b.second) {
      if (t8_eclass_to_dimension[e.cls] == m.dim) order.push_back (e);
      m.last_begin = s.size ();
      add (s, "%d", tag++);
      for (size_t k = 0; k < e.n.size (); k++) add (s, " %ld", m.nodes[e.n[g2t[e.cls][k]]].tag);
      s += space ? " \n" : "\n";
      m.last_end = s.size ();
    }
  }
  m.el = order;
  s += "$EndElements\n";
  /* the mesh this describes */
  CSpec &c = m.spec;
  c.dim = m.dim;
  std::map<std::vector<int>, std::pair<long, int>> open;
  for (auto &e : m.el) {
    long ti = c.n ();
    CTree t;
    t.cls = e.cls;
    t.verts = true;
    for (int v : e.n) for (int k = 0; k < 3; k++) t.v.push_back (m.nodes[v].x[k]);
    t.f.resize (t8_eclass_num_faces[e.cls]);
    c.t.push_back (t);
    for (int k = 0; k < t8_eclass_num_faces[e.cls]; k++) {
      auto corners = [&] (long tree, int face) {
        std::vector<int> v;
        int fc = t8_eclass_face_types[m.el[tree].cls][face];
        for (int j = 0; j < t8_eclass_num_vertices[fc]; j++) v.push_back (m.el[tree].n[t8_face_vertex_to_tree_vertex[m.el[tree].cls][face][j]]);
        return v;
      };
      std::vector<int> key = corners (ti, k), mine = key;
      std::sort (key.begin (), key.end ());
      auto it = open.find (key);
      if (it == open.end ()) { open[key] = { ti, k }; continue; }
      long o = it->second.first;
      int fo = it->second.second;
      std::vector<int> theirs = corners (o, fo);
      open.erase (it);
      int cmp = t8_eclass_compare ((t8_eclass_t) e.cls, (t8_eclass_t) m.el[o].cls);
      bool i_small = cmp < 0 || (cmp == 0 && k < fo);
      const std::vector<int> &sm = i_small ? mine : theirs, &bg = i_small ? theirs : mine;
      int ori = (int) (std::find (bg.begin (), bg.end (), sm[0]) - bg.begin ());
      c.t[ti].f[k] = { o, fo, ori };
      c.t[o].f[fo] = { ti, k, ori };
    }
  }
  return m;
}
void check_nodes (t8_cmesh_t c, const Msh &m, int rank, long first, long num, bool vertices)
{
  std::map<long, int> gv;        /* global vertex -> node */
  std::map<int, long> vg;
  std::map<long, std::vector<std::pair<long, int>>> uses;
  for (long i = 0; i < num; i++) {
    const MElem &e = m.el[first + i];
    const int *en = (const int *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY, (t8_locidx_t) i);
    const double *uv = (const double *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY, (t8_locidx_t) i);
    if (!en || !uv) fail ("node-data", "rank %d: the node data of tree %ld is missing", rank, first + i);
    for (size_t k = 0; k < e.n.size (); k++) {
      const MNode &n = m.nodes[e.n[k]];
      if (en[2 * k] != n.edim || en[2 * k + 1] != n.etag) fail ("node-data", "rank %d: corner %zu of tree %ld: geometric entity %d %d, should be %d %d", rank, k, first + i, en[2 * k], en[2 * k + 1], n.edim, n.etag);
      if (n.par) for (int d = 0; d < n.edim; d++) if (uv[2 * k + d] != n.uv[d]) fail ("node-data", "rank %d: corner %zu of tree %ld: parameter %g, should be %g", rank, k, first + i, uv[2 * k + d], n.uv[d]);
      if (!vertices) continue;
      long g = (long) t8_cmesh_get_global_vertex_of_tree (c, (t8_locidx_t) i, (int) k);
      if (gv.count (g) && gv[g] != e.n[k]) fail ("vertex-id", "rank %d: two different nodes (tags %ld and %ld) have the global vertex id %ld", rank, m.nodes[gv[g]].tag, n.tag, g);
      if (vg.count (e.n[k]) && vg[e.n[k]] != g) fail ("vertex-id", "rank %d: node %ld has two global vertex ids", rank, n.tag);
      gv[g] = e.n[k];
      vg[e.n[k]] = g;
      uses[g].push_back ({ i, (int) k });
    }
  }
  if (!vertices) return;
  if (t8_cmesh_get_num_global_vertices (c) != (long) gv.size ()) fail ("vertex-id", "rank %d: %lld global vertices, should be %zu", rank, (long long) t8_cmesh_get_num_global_vertices (c), gv.size ());
  for (auto &u : uses) {
    if (t8_cmesh_get_num_trees_at_vertex (c, u.first) != (int) u.second.size ()) fail ("vertex-id", "rank %d: %d tree corners at vertex %ld, should be %zu", rank, t8_cmesh_get_num_trees_at_vertex (c, u.first), u.first, u.second.size ());
    std::vector<std::pair<long, int>> have;
    for (auto &x : t8_cmesh_get_vertex_to_tree_list (c, u.first)) have.push_back ({ (long) x.first, (int) x.second });
    std::sort (have.begin (), have.end ());
    if (have != u.second) fail ("vertex-id", "rank %d: the tree corners listed at vertex %ld are not those that have this vertex", rank, u.first);
  }
}
enum { OK, FAILS, EITHER };
void body ()
{
  World w = draw_world (6);
  Msh m = draw_msh ();
  std::string text = m.text;
  int expect = OK;
  int mut = chance (sim::W, 550) ? 0 : 1 + choose (sim::W, 8);
  bool exists = true;
  int rdim = m.dim;
  static const char *mn[] = { "intact", "truncated", "missing", "of an unsupported version", "without a line", "with an unknown node", "with a node twice", "binary", "without elements of the dimension" };
  auto line_of = [&] (size_t pos) { size_t b = text.rfind ('\n', pos); b = b == std::string::npos ? 0 : b + 1; size_t e = text.find ('\n', b); return std::make_pair (b, e == std::string::npos ? text.size () : e + 1); };
  switch (mut) {
  case 1: { size_t lo = choose (sim::F, 2) ? text.find ("$Elements") : 0; size_t k = lo + choose (sim::F, (uint32_t) (text.size () - lo)); sim::count (sim::K_FS_TRUNC); text.resize (k); expect = k <= m.last_begin ? FAILS : k + 1 >= m.last_end ? OK : EITHER; break; }
  case 2: exists = false; expect = FAILS; break;
  case 3: { size_t k = text.find ("$MeshFormat\n") + 12; text[k] = "1235"[choose (sim::F, 4)]; expect = FAILS; sim::count (sim::K_FS_CORRUPT); break; }
  case 4: { auto l = line_of (choose (sim::F, (uint32_t) text.size () - 1)); text.erase (l.first, l.second - l.first); expect = EITHER; sim::count (sim::K_FS_CORRUPT); break; }
  case 5: {
    /* the last node of an element of this dimension */
    size_t k = text.find ("$Elements");
    std::vector<size_t> at;
    size_t p = text.find ('\n', text.find ('\n', k) + 1) + 1;
    while (p < text.size () && text.compare (p, 4, "$End")) { size_t e = text.find ('\n', p); at.push_back (p); p = e + 1; }
    size_t b = at[choose (sim::F, (uint32_t) at.size ())], e = text.find ('\n', b);
    size_t q = text.find (' ', b);
    if (q == std::string::npos || q > e) { expect = EITHER; break; }
    size_t q2 = std::min (text.find (' ', q + 1), e);
    text.replace (q + 1, q2 - q - 1, "99999");
    expect = EITHER;
    sim::count (sim::K_FS_CORRUPT);
    break; }
  case 6: {
    if (m.nodes.size () < 2) break;
    std::string a = "\n" + std::to_string (m.nodes[0].tag) + "\n", b = "\n" + std::to_string (m.nodes[1].tag) + "\n";
    size_t nod = text.find ("$Nodes");
    size_t k = text.find (a, text.find ('\n', nod) + 1);
    if (k == std::string::npos) break;
    text.replace (k, a.size (), b);
    expect = FAILS;
    sim::count (sim::K_FS_CORRUPT);
    break; }
  case 7: { size_t k = text.find (" 0 8\n"); text[k + 1] = '1'; expect = FAILS; sim::count (sim::K_FS_CORRUPT); break; }
  case 8: if (m.dim < 3) { rdim = 3; expect = FAILS; } break;
  }
  int part = choose (sim::W, 2), cad = chance (sim::W, 50);
  if (cad) expect = FAILS;
  uint32_t rootdraw = choose (sim::W, 720);
  sim::FsFaults ff;
  int fault = choose (sim::W, 3);
  if (fault) {
    ff.enabled = true;
    ff.short_read_pm = 300;
    if (fault == 2) { ff.read_err_pm = chance (sim::W, 500) ? 1000 : 100; if (choose (sim::W, 2)) ff.open_fail_pm = 100; }
  }
  int crazy = choose (sim::W, 3);   /* what follows: nothing, a distribution for a level, another reading */
  sim::note ("%s", w.str ().c_str ());
  sim::note ("file with %zu nodes, %zu elements of dimension %d and %zu of lower dimension, %zu bytes, %s; read %s%s, dimension %d; disk: %s", m.nodes.size (), m.el.size (), m.dim, m.low.size (), text.size (), mn[mut],
             part ? "by one process" : "by every process", cad ? " with CAD" : "", rdim, fault == 0 ? "reliable" : fault == 1 ? "short reads" : "failing reads");
  for (size_t b = 0; b < text.size () && sim::verbose;) { size_t e = text.find ('\n', b); if (e == std::string::npos) e = text.size (); sim::note (" | %s", text.substr (b, e - b).c_str ()); b = e + 1; }
  if (exists) sim::fs_put ("mesh.msh", text);
  CPart p1[2];
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) p1[g] = draw_cpart (m.spec.n (), w.size (g));
  sim::fs_set (ff);
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    int root = (int) (rootdraw % P);
    t8_cmesh_t c;
    for (int round = 0; round < (crazy == 2 ? 2 : 1); round++) {
      t8_cmesh_init (&c);
      int f0 = sim::my_fs_faults ();
      t8_cmesh_from_msh_file (&c, "mesh", part, comm, rdim, part ? root : 0, cad);
      int hit = sim::my_fs_faults () - f0;
      int res[3] = { c != nullptr, c == nullptr, hit > 0 }, all[3];
      sc_MPI_Allreduce (res, all, 3, sc_MPI_INT, sc_MPI_SUM, comm);
      if (part && all[0] && all[1]) fail ("agreement", "rank %d: %d processes got the mesh and %d did not", r, all[0], all[1]);
      if (!part && all[0] && all[1] && !all[2]) fail ("agreement", "rank %d: %d processes got the mesh and %d did not, from the same intact file", r, all[0], all[1]);
      if (expect == OK && !c && !(part ? all[2] : hit)) fail ("rejected", "rank %d: reading failed, but the file is right and could be read", r);
      if (expect == FAILS && c) fail ("accepted", "rank %d: reading a file %s succeeded", r, mn[mut]);
      if (sim::fs_open_files_of (sim::rank ())) fail ("open-file", "rank %d: the file is still open", r);
      if (c && expect == OK) {
        CPart cp;
        cp.N = m.spec.n ();
        for (int k = 0; k < P; k++) { cp.first.push_back (k <= root ? 0 : cp.N); cp.num.push_back (k == root ? cp.N : 0); cp.shared.push_back (0); }
        CheckOpt o;
        o.geom = true;
        check_cmesh ("file", c, m.spec, part ? &cp : nullptr, r, P, o);
        if (!part || r == root) check_nodes (c, m, r, 0, m.spec.n (), !part);
        if (crazy == 1 && !all[1]) {
          t8_cmesh_t n;
          t8_cmesh_init (&n);
          t8_cmesh_set_derive (n, c);
          const CPart *p = &p1[g];
          long f = p->first[r], l = f + p->num[r] - 1;
          if (p->num[r] == 0) { f = p->table ()[r]; l = f - 1; }
          t8_cmesh_set_partition_range (n, 3, p->num[r] && p->shared[r] ? -f - 1 : f, l);
          t8_cmesh_commit (n, comm);
          c = n;
          check_cmesh ("distributed file", c, m.spec, p, r, P, o);
          check_nodes (c, m, r, p->first[r], p->num[r], false);
        }
      }
      if (c) t8_cmesh_destroy (&c);
    }
  });
  sim::state (cspec_hash (m.spec) + (uint64_t) mut * 77 + expect * 1000 + part);
}
}
PROPERTY ("C15", body)
