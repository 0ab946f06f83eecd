/* C16: graphical output: whoever reports success has written a complete and correct file, on a disk that fails. */
#include "cmodel.hxx"
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_forest/t8_forest_io.h>
#include <t8_vtk/t8_vtk_writer.h>
#include <algorithm>
#include <cmath>
#include <cstring>
/* in p_mesh.cxx: the headers of the handle cannot be used in two places */
int handle_write_vtk (t8_forest_t f, const char *prefix, bool plain, int flags, bool ghosts, int n, t8_vtk_data_field_t *d);
namespace
{
/* ---- a small, strict XML reader ---- */
struct Node
{
  std::string tag, text;
  std::map<std::string, std::string> a;
  std::vector<Node> c;
  const Node *child (const std::string &t) const { for (auto &x : c) if (x.tag == t) return &x; return nullptr; }
  const Node *named (const std::string &n) const { for (auto &x : c) { auto i = x.a.find ("Name"); if (i != x.a.end () && i->second == n) return &x; } return nullptr; }
  std::string at (const std::string &k) const { auto i = a.find (k); return i == a.end () ? std::string () : i->second; }
};
struct Xml
{
  const std::string &s;
  size_t p = 0;
  std::string err;
  explicit Xml (const std::string &t): s (t) {}
  void ws () { while (p < s.size () && isspace ((unsigned char) s[p])) p++; }
  std::string name () { size_t b = p; while (p < s.size () && (isalnum ((unsigned char) s[p]) || strchr ("_-.:", s[p]))) p++; return s.substr (b, p - b); }
  bool bad (const char *e) { if (err.empty ()) err = std::string (e) + " at byte " + std::to_string (p) + " of " + std::to_string (s.size ()); return false; }
  bool attrs (Node &n)
  {
    for (;;) {
      ws ();
      if (p >= s.size ()) return bad ("the file ends in a tag");
      if (s[p] == '>' || s[p] == '/' || s[p] == '?') return true;
      std::string k = name ();
      if (k.empty ()) return bad ("attribute name expected");
      ws ();
      if (p >= s.size () || s[p] != '=') return bad ("= expected");
      p++;
      ws ();
      if (p >= s.size () || s[p] != '"') return bad ("quote expected");
      size_t e = s.find ('"', ++p);
      if (e == std::string::npos) return bad ("no closing quote");
      if (n.a.count (k)) return bad ("attribute given twice");
      n.a[k] = s.substr (p, e - p);
      p = e + 1;
    }
  }
  bool element (Node &n)
  {
    if (p >= s.size () || s[p] != '<') return bad ("< expected");
    p++;
    n.tag = name ();
    if (n.tag.empty ()) return bad ("tag name expected");
    if (!attrs (n)) return false;
    if (s[p] == '/') {
      if (p + 1 >= s.size () || s[p + 1] != '>') return bad ("> expected");
      p += 2;
      return true;
    }
    if (s[p] != '>') return bad ("> expected");
    p++;
    for (;;) {
      size_t e = s.find ('<', p);
      if (e == std::string::npos) { p = s.size (); return bad (("the file ends inside of " + n.tag).c_str ()); }
      n.text.append (s, p, e - p);
      p = e;
      if (p + 1 < s.size () && s[p + 1] == '/') {
        p += 2;
        std::string t = name ();
        if (t != n.tag) return bad (("</" + t + "> closes " + n.tag).c_str ());
        if (p >= s.size () || s[p] != '>') return bad ("> expected");
        p++;
        return true;
      }
      n.c.emplace_back ();
      if (!element (n.c.back ())) return false;
    }
  }
  bool file (Node &root)
  {
    ws ();
    if (s.compare (p, 5, "<?xml") == 0) {
      size_t e = s.find ("?>", p);
      if (e == std::string::npos) return bad ("unterminated declaration");
      p = e + 2;
    }
    ws ();
    if (!element (root)) return false;
    ws ();
    if (p != s.size ()) return bad ("data behind the end");
    return true;
  }
};
bool numbers (const std::string &t, std::vector<double> &v)
{
  const char *b = t.c_str ();
  for (;;) {
    while (isspace ((unsigned char) *b)) b++;
    if (!*b) return true;
    char *e;
    v.push_back (strtod (b, &e));
    if (e == b || (*e && !isspace ((unsigned char) *e))) return false;
    b = e;
  }
}
/* ---- what a file has to contain ---- */
struct Cell
{
  int shape = 0;
  std::vector<std::array<double, 3>> x;   /* in the order of vtk */
  long long tree = 0;                     /* -1: a ghost */
  int level = 0, rank = 0, rank2 = 0;     /* either rank is right */
  long long id = 0;
  std::vector<double> d;                  /* of all fields */
};
struct Field { std::string name; int comp; };
struct Want
{
  std::vector<Cell> cells;
  bool tree = true, rank = true, level = false, id = false;
  std::vector<Field> fields;
};
void check_vtu (const char *who, const std::string &name, const Want &w)
{
  if (!sim::fs_exists (name)) fail ("no-file", "%s reports success, but there is no %s", who, name.c_str ());
  std::string text = sim::fs_get (name);
  Node root;
  Xml x (text);
  if (!x.file (root)) fail ("incomplete", "%s reports success, but %s is not well-formed: %s", who, name.c_str (), x.err.c_str ());
  auto bad = [&] (const std::string &m) { fail ("content", "%s reports success, but %s is wrong: %s", who, name.c_str (), m.c_str ()); };
  const Node *g = root.child ("UnstructuredGrid");
  if (root.tag != "VTKFile" || root.at ("type") != "UnstructuredGrid" || !g || g->c.size () != 1) bad ("no unstructured grid with one piece");
  const Node &pc = g->c[0];
  size_t np = 0;
  for (auto &c : w.cells) np += c.x.size ();
  if (atoll (pc.at ("NumberOfPoints").c_str ()) != (long long) np) bad (pc.at ("NumberOfPoints") + " points announced, " + std::to_string (np) + " expected");
  if (atoll (pc.at ("NumberOfCells").c_str ()) != (long long) w.cells.size ()) bad (pc.at ("NumberOfCells") + " cells announced, " + std::to_string (w.cells.size ()) + " expected");
  auto get = [&] (const char *sec, const std::string &n, size_t count, int comp) {
    const Node *s = pc.child (sec), *a = s ? s->named (n) : nullptr;
    if (!a) bad (std::string ("no array ") + n + " in " + sec);
    std::string nc = a->at ("NumberOfComponents");
    if ((nc.empty () ? 1 : atoi (nc.c_str ())) != comp) bad ("array " + n + " has " + nc + " components");
    std::vector<double> v;
    if (!numbers (a->text, v)) bad ("array " + n + " does not consist of numbers");
    if (v.size () != count * comp) bad ("array " + n + " has " + std::to_string (v.size ()) + " values, " + std::to_string (count * comp) + " expected");
    return v;
  };
  std::vector<double> pos = get ("Points", "Position", np, 3), con = get ("Cells", "connectivity", np, 1), off = get ("Cells", "offsets", w.cells.size (), 1), ty = get ("Cells", "types", w.cells.size (), 1);
  char b[400];
  size_t k = 0;
  bool alt = false;
  for (size_t i = 0; i < w.cells.size (); i++) {
    const Cell &c = w.cells[i];
    if (off[i] != (double) (k + c.x.size ())) { snprintf (b, sizeof b, "cell %zu ends at %g, should at %zu", i, off[i], k + c.x.size ()); bad (b); }
    if (ty[i] != t8_eclass_vtk_type[c.shape]) { snprintf (b, sizeof b, "cell %zu has type %g, should be %d", i, ty[i], t8_eclass_vtk_type[c.shape]); bad (b); }
    for (size_t j = 0; j < c.x.size (); j++, k++) {
      if (!(con[k] >= 0 && con[k] < (double) np)) bad ("connectivity out of range");
      size_t q = (size_t) con[k];
      /* the two writers number the corners of tetrahedra and prisms differently; both are legal */
      static const int alt_tet[4] = { 0, 2, 3, 1 }, alt_prism[6] = { 0, 2, 1, 3, 5, 4 };
      if (j == 0) alt = false;
      if (j == 1 && (c.shape == T8_ECLASS_TET || c.shape == T8_ECLASS_PRISM)) {
        const auto &y = c.x[2];
        alt = true;
        for (int d = 0; d < 3; d++) if (!(std::fabs (pos[3 * q + d] - y[d]) <= 1e-6 * (1 + std::fabs (y[d])))) alt = false;
      }
      const auto &y = c.x[!alt ? j : c.shape == T8_ECLASS_TET ? alt_tet[j] : alt_prism[j]];
      for (int d = 0; d < 3; d++)
        if (!(std::fabs (pos[3 * q + d] - y[d]) <= 1e-6 * (1 + std::fabs (y[d])))) {
          snprintf (b, sizeof b, "corner %zu of cell %zu (shape %d, tree %lld) is at (%g %g %g), should be (%g %g %g)", j, i, c.shape, c.tree, pos[3 * q], pos[3 * q + 1], pos[3 * q + 2], y[0], y[1], y[2]);
          bad (b);
        }
    }
  }
  auto column = [&] (const char *n, const std::function<bool (const Cell &, double)> &ok) {
    std::vector<double> v = get ("CellData", n, w.cells.size (), 1);
    for (size_t i = 0; i < v.size (); i++)
      if (!ok (w.cells[i], v[i])) { snprintf (b, sizeof b, "%s of cell %zu is %g (tree %lld, level %d, rank %d, element %lld)", n, i, v[i], w.cells[i].tree, w.cells[i].level, w.cells[i].rank, w.cells[i].id); bad (b); }
  };
  if (w.tree) column ("treeid", [] (const Cell &c, double v) { return v == (double) c.tree; });
  if (w.rank) column ("mpirank", [] (const Cell &c, double v) { return v == c.rank || v == c.rank2; });
  if (w.level) column ("level", [] (const Cell &c, double v) { return v == c.level; });
  if (w.id) column ("element_id", [] (const Cell &c, double v) { return c.tree < 0 || v == (double) c.id; });
  size_t at = 0;
  for (auto &f : w.fields) {
    std::vector<double> v = get ("CellData", f.name, w.cells.size (), f.comp), u = get ("PointData", f.name + "_points", np, f.comp);
    size_t q = 0;
    for (size_t i = 0; i < w.cells.size (); i++)
      for (int d = 0; d < f.comp; d++) {
        double e = w.cells[i].d[at + d];
        auto off = [&] (double y) { return !(std::fabs (y - e) <= 1e-5 * std::fabs (e)); };
        if (off (v[i * f.comp + d])) { snprintf (b, sizeof b, "component %d of %s of cell %zu is %g, should be %g", d, f.name.c_str (), i, v[i * f.comp + d], e); bad (b); }
        for (size_t j = 0; j < w.cells[i].x.size (); j++)
          if (off (u[(q + j) * f.comp + d])) { snprintf (b, sizeof b, "component %d of %s_points of cell %zu is %g, should be %g", d, f.name.c_str (), i, u[(q + j) * f.comp + d], e); bad (b); }
        if (d + 1 == f.comp) q += w.cells[i].x.size ();
      }
    at += f.comp;
  }
}
/* the meta file: lists all pieces, and announces the arrays that the pieces have */
void check_pvtu (const std::string &prefix, int P, const std::vector<char> &ok)
{
  std::string name = prefix + ".pvtu";
  if (!sim::fs_exists (name)) fail ("no-file", "rank 0 reports success, but there is no %s", name.c_str ());
  std::string text = sim::fs_get (name);
  Node root;
  Xml x (text);
  if (!x.file (root)) fail ("incomplete", "rank 0 reports success, but %s is not well-formed: %s", name.c_str (), x.err.c_str ());
  const Node *g = root.child ("PUnstructuredGrid");
  if (root.tag != "VTKFile" || root.at ("type") != "PUnstructuredGrid" || !g) fail ("content", "%s holds no parallel unstructured grid", name.c_str ());
  std::string base = prefix.substr (prefix.rfind ('/') == std::string::npos ? 0 : prefix.rfind ('/') + 1);
  int n = 0;
  for (auto &c : g->c)
    if (c.tag == "Piece") {
      char b[100];
      snprintf (b, sizeof b, "%s_%04d.vtu", base.c_str (), n);
      if (c.at ("Source") != b) fail ("pieces", "piece %d of %s is %s, should be %s", n, name.c_str (), c.at ("Source").c_str (), b);
      n++;
    }
  if (n != P) fail ("pieces", "%s lists %d pieces, should be %d", name.c_str (), n, P);
  typedef std::map<std::string, std::pair<std::string, int>> Arr;
  auto arrays = [] (const Node *s) {
    Arr a;
    if (s) for (auto &c : s->c) { std::string nc = c.at ("NumberOfComponents"); a[c.at ("Name")] = { c.at ("type"), nc.empty () ? 1 : atoi (nc.c_str ()) }; }
    return a;
  };
  for (int r = 0; r < P; r++) {
    if (!ok[r]) continue;
    char b[20];
    snprintf (b, sizeof b, "_%04d.vtu", r);
    std::string t = sim::fs_get (prefix + b);
    Node vr;
    Xml y (t);
    if (!y.file (vr) || !vr.child ("UnstructuredGrid")) continue;   /* reported elsewhere */
    const Node &pc = vr.child ("UnstructuredGrid")->c[0];
    for (const char *sec : { "Points", "PointData", "CellData" }) {
      Arr a = arrays (g->child (std::string ("P") + sec)), p = arrays (pc.child (sec));
      for (auto &i : a) if (!p.count (i.first) || p[i.first] != i.second) fail ("arrays", "%s announces the array %s in %s, which the piece of rank %d does not have or has differently", name.c_str (), i.first.c_str (), sec, r);
      for (auto &i : p) if (!a.count (i.first)) fail ("arrays", "%s does not announce the array %s in %s, which the piece of rank %d has", name.c_str (), i.first.c_str (), sec, r);
    }
  }
}
sim::FsFaults draw_faults (int P)
{
  sim::FsFaults ff;
  int kind = choose (sim::F, 7, 400);
  ff.enabled = true;
  ff.bufsize = std::vector<int> { 0, 64, 200, 1, 1000 }[choose (sim::F, 5)];
  if (kind == 0) return ff;
  ff.only_rank = choose (sim::F, 2) ? range (sim::F, 0, P - 1) : -1;
  if (kind == 1) ff.open_fail_pm = 300;
  if (kind == 2) ff.write_budget = choose (sim::F, 20000);
  if (kind == 3) ff.write_err_pm = std::vector<int> { 10, 100, 1 }[choose (sim::F, 3)];
  if (kind == 4) ff.short_write_pm = 20;
  if (kind == 5) ff.close_fail_pm = 500;
  if (kind == 6) { ff.write_err_pm = 5; ff.close_fail_pm = 100; ff.open_fail_pm = 50; ff.short_write_pm = 5; }
  return ff;
}
double value (const Leaf &l, int f, int d) { return (double) (sim::mix ((l.tree * 977 + l.id * 31 + l.level) * 131 + f * 17 + d) % 20001) / 4 - 2500; }

void forest_body ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_REFINE_REC, OP_REFINE, OP_COMBINED };
  Hist h = draw_hist (MESH_PART_OK | MESH_GEOM, 5, kinds, 0, 3);
  bool ghosts = chance (sim::W, 500);
  if (ghosts) {
    if (h.ops.empty ()) h.ops.push_back (draw_op (OP_PARTITION, h.m));
    h.ops.back ().ghost = 3;
  }
  else if (chance (sim::W, 200)) h.ops.push_back (draw_op (OP_REMOVE, h.m));
  int plain = chance (sim::W, 150), flags = (int) choose (sim::W, 16), wg = (int) choose (sim::W, 2), ns = (int) choose (sim::W, 3), nv = (int) choose (sim::W, 3), rounds = range (sim::W, 1, 2);
  int dir = (int) choose (sim::W, 3), api = (int) choose (sim::W, 3);
  if (chance (sim::W, 40)) { ns = range (sim::W, 0, 9); nv = range (sim::W, 0, 9); }
  if (plain) { flags = 15; wg = ns = nv = 0; }
  h.describe ();
  sim::note ("written %d times with flags %d%s, %d scalar and %d vector fields", rounds, flags, wg ? " and ghosts" : "", ns, nv);
  std::vector<Field> fields;
  for (int i = 0; i < ns; i++) fields.push_back ({ "s" + std::to_string (i), 1 });
  for (int i = 0; i < nv; i++) fields.push_back ({ "v" + std::to_string (i), 3 });
  sim::FsFaults ff = draw_faults (h.w.P);
  sim::note ("disk: buffers of %d bytes, rank %d, open failures %d, space %ld, write errors %d, short writes %d, failing close %d", ff.bufsize, ff.only_rank, ff.open_fail_pm, ff.write_budget, ff.write_err_pm, ff.short_write_pm, ff.close_fail_pm);
  Model M (h.m);
  sim::fs_reset ();
  sim::fs_set (ff);
  struct Out { int ret = 0; bool clean = false; Snap s; GhostSnap g; };
  std::vector<Out> out[2];
  for (int g = 0; g < 2; g++) out[g].resize (h.w.P);
  auto prefix = [&] (int g) { return std::string (dir == 0 ? "out" : dir == 1 ? "d/out.x" : "/a/b/c") + std::to_string (g); };
  size_t last = h.ops.size ();
  run_hist (h, [&] (HistCtx &c) {
    if ((size_t) c.step != last) return;
    Out &o = out[c.group][c.rank];
    o.s = snap_forest (c.f);
    if (wg && c.f && ghosts) o.g = snap_ghost (c.f);
    std::vector<std::vector<double>> d;
    std::vector<Leaf> all = o.s.leaves;
    all.insert (all.end (), o.g.leaves.begin (), o.g.leaves.end ());
    std::vector<t8_vtk_data_field_t> vf (fields.size ());
    for (size_t f = 0; f < fields.size (); f++) {
      d.emplace_back ();
      for (auto &l : all) for (int k = 0; k < fields[f].comp; k++) d.back ().push_back (value (l, (int) f, k));
      d.back ().push_back (0);
      vf[f].type = fields[f].comp == 1 ? T8_VTK_SCALAR : T8_VTK_VECTOR;
      snprintf (vf[f].description, BUFSIZ, "%s", fields[f].name.c_str ());
    }
    for (size_t f = 0; f < fields.size (); f++) vf[f].data = d[f].data ();
    std::string p = prefix (c.group);
    for (int i = 0; i < rounds; i++) {
      int f0 = sim::my_fs_faults ();
      if (api == 2) {   /* through a mesh handle */
        o.ret = handle_write_vtk (c.f, p.c_str (), plain, flags, wg, (int) fields.size (), vf.data ());
      }
      else if (plain) o.ret = t8_forest_write_vtk (c.f, p.c_str ());
      else if (api) o.ret = t8_forest_write_vtk_ext (c.f, p.c_str (), flags & 1, flags & 2, flags & 4, flags & 8, wg, 0, 1, (int) fields.size (), vf.data ());
      else o.ret = t8_forest_vtk_write_file (c.f, p.c_str (), flags & 1, flags & 2, flags & 4, flags & 8, wg, (int) fields.size (), vf.data ());
      o.clean = sim::my_fs_faults () == f0;
      if (o.clean && !o.ret) fail ("failure", "rank %d reports a failure, although no fault hit it", c.rank);
      if (sim::fs_open_files_of (sim::rank ())) fail ("open-files", "rank %d leaves %d files open", c.rank, sim::fs_open_files_of (sim::rank ()));
    }
  });
  for (int g = 0; g < h.groups (); g++) {
    int P = h.w.size (g);
    std::vector<char> ok;
    std::map<Leaf, int> own;
    for (int r = 0; r < P; r++) for (auto &l : out[g][r].s.leaves) own[l] = r;
    for (int r = 0; r < P; r++) {
      const Out &o = out[g][r];
      ok.push_back (o.ret != 0);
      if (!o.ret) { sim::count (sim::K_PROBE1); continue; }
      Want w;
      w.tree = flags & 1, w.rank = flags & 2, w.level = flags & 4, w.id = flags & 8;
      w.fields = fields;
      long n = 0;
      auto add = [&] (const Leaf &l, bool ghost) {
        Elem e (M.s, (t8_eclass_t) l.cls);
        set_elem (M.s, l, e.e);
        Cell c;
        c.shape = M.s->element_get_shape (e.c, e.e);
        for (int j = 0; j < t8_eclass_num_vertices[c.shape]; j++) {
          c.x.emplace_back ();
          t8_forest_element_coordinate (M.f, (t8_locidx_t) l.tree, e.e, t8_eclass_vtk_to_t8_corner_number[c.shape][j], c.x.back ().data ());
        }
        c.tree = ghost ? -1 : l.tree;
        c.level = l.level;
        c.rank = r;
        c.rank2 = ghost ? own[l] : r;
        c.id = o.s.first + n++;
        for (size_t f = 0; f < fields.size (); f++) for (int k = 0; k < fields[f].comp; k++) c.d.push_back (value (l, (int) f, k));
        w.cells.push_back (c);
      };
      for (auto &l : o.s.leaves) add (l, false);
      for (auto &l : o.g.leaves) add (l, true);
      char who[40], b[20];
      snprintf (who, sizeof who, "rank %d", r);
      snprintf (b, sizeof b, "_%04d.vtu", r);
      check_vtu (who, prefix (g) + b, w);
      sim::count (sim::K_PROBE0);
      sim::state (sim::mix (hash_leaves (o.s.leaves) + flags * 31 + wg * 7 + fields.size ()));
    }
    if (ok[0]) check_pvtu (prefix (g), P, ok);
  }
}
void cmesh_body ()
{
  World w = draw_world (5);
  CSpec s = draw_cspec (chance (sim::W, 700) ? CS_VERTS | CS_NO_ATTR : CS_NO_ATTR, 10);
  int build = choose (sim::W, 3);
  CPart p0[2];
  sim::note ("%s, coarse mesh written %s", w.str ().c_str (), build ? "by every process" : "by one process");
  s.describe ();
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) p0[g] = draw_cpart (s.n (), w.size (g));
  sim::FsFaults ff = draw_faults (w.P);
  sim::note ("disk: buffers of %d bytes, rank %d, open failures %d, space %ld, write errors %d, short writes %d, failing close %d", ff.bufsize, ff.only_rank, ff.open_fail_pm, ff.write_budget, ff.write_err_pm, ff.short_write_pm, ff.close_fail_pm);
  sim::fs_reset ();
  sim::fs_set (ff);
  struct Out { int ret = 0; bool has = true; std::vector<t8_gloidx_t> ghosts; long first = 0, n = 0; };
  std::vector<Out> out[2];
  for (int g = 0; g < 2; g++) out[g].resize (w.P);
  auto prefix = [&] (int g) { return std::string ("x/cm") + std::to_string (g); };
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    std::vector<std::string> keep;
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    fill_cmesh (c, s, 0, build == 2 ? &p0[g] : nullptr, r, keep);
    if (build) {
      const CPart &p = p0[g];
      long f = p.first[r], l = f + p.num[r] - 1;
      if (p.num[r] == 0) { f = p.table ()[r]; l = f - 1; }
      t8_cmesh_set_partition_range (c, 3, p.num[r] && p.shared[r] ? -f - 1 : f, l);
    }
    t8_cmesh_commit (c, comm);
    Out &o = out[g][r];
    o.first = build ? (p0[g].num[r] ? p0[g].first[r] : 0) : 0;
    o.n = build ? p0[g].num[r] : s.n ();
    if (build) for (t8_locidx_t i = 0; i < t8_cmesh_get_num_ghosts (c); i++) o.ghosts.push_back (t8_cmesh_get_global_id (c, (t8_locidx_t) o.n + i));
    for (long i = 0; i < o.n; i++) o.has &= s.t[o.first + i].verts;
    for (auto i : o.ghosts) o.has &= s.t[i].verts;
    int f0 = sim::my_fs_faults ();
    o.ret = t8_cmesh_vtk_write_file (c, prefix (g).c_str ());
    if (sim::my_fs_faults () == f0 && !o.ret && (o.has || (!build && r))) fail ("failure", "rank %d reports a failure, although no fault hit it", r);
    if (sim::fs_open_files_of (sim::rank ())) fail ("open-files", "rank %d leaves %d files open", r, sim::fs_open_files_of (sim::rank ()));
    t8_cmesh_destroy (&c);
  });
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) {
    int P = build ? w.size (g) : 1;
    std::vector<char> ok;
    for (int r = 0; r < P; r++) {
      const Out &o = out[g][r];
      ok.push_back (o.ret != 0);
      if (!o.ret) { sim::count (sim::K_PROBE1); continue; }
      if (!o.has) fail ("content", "rank %d reports success, although trees have no vertices", r);
      Want x;
      auto add = [&] (long t, bool ghost) {
        Cell c;
        c.shape = s.t[t].cls;
        for (int j = 0; j < t8_eclass_num_vertices[c.shape]; j++) {
          const double *v = &s.t[t].v[3 * t8_eclass_vtk_to_t8_corner_number[c.shape][j]];
          c.x.push_back ({ v[0], v[1], v[2] });
        }
        c.tree = ghost ? -1 : t;
        c.rank = c.rank2 = r;
        if (ghost) for (int q = 0; q < P; q++) if (p0[g].num[q] && t >= p0[g].first[q] && t < p0[g].first[q] + p0[g].num[q]) c.rank2 = q;
        x.cells.push_back (c);
      };
      for (long i = 0; i < o.n; i++) add (o.first + i, false);
      for (auto i : o.ghosts) add (i, true);
      char who[40], b[20];
      snprintf (who, sizeof who, "rank %d", r);
      snprintf (b, sizeof b, "_%04d.vtu", r);
      check_vtu (who, prefix (g) + b, x);
      sim::count (sim::K_PROBE0);
    }
    if (ok[0]) check_pvtu (prefix (g), P, ok);
  }
  sim::state (cspec_hash (s) + w.P * 3 + build);
}
void body ()
{
  if (choose (sim::W, 4) == 3) cmesh_body ();
  else forest_body ();
}
}
PROPERTY ("C16", body)
