/* C13: a coarse mesh that one process describes reaches all processes. */
#include "cmodel.hxx"
#include "../sim/runner.hxx"
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <cstring>
#include <algorithm>
#include <p4est_connectivity.h>
#include <p8est_connectivity.h>
using sim::fail;
namespace
{
/* generators that broadcast or distribute the mesh themselves */
void generators ()
{
  World w = draw_world (7);
  int kind = choose (sim::W, 6);
  int cls = choose (sim::W, T8_ECLASS_COUNT), bc = choose (sim::W, 2), per = choose (sim::W, 2), part = choose (sim::W, 2);
  int n[3] = { (int) range (sim::W, 1, 3), (int) range (sim::W, 1, 2), (int) range (sim::W, 1, 2) };
  int pp[3] = { (int) choose (sim::W, 2), (int) choose (sim::W, 2), (int) choose (sim::W, 2) };
  int bn[32][3], dim3 = choose (sim::W, 2);
  bool axis = chance (sim::W, 300);
  for (int r = 0; r < w.P; r++)
    for (int k = 0; k < 3; k++) bn[r][k] = chance (sim::W, 150) ? 0 : range (sim::W, 1, 3);
  if (bn[0][0] * bn[0][1] == 0) bn[0][0] = bn[0][1] = 1;
  for (int r = 0; r < w.P; r++) if (dim3) bn[r][2] = std::max (1, bn[r][2]); else bn[r][2] = 0;
  if (cls == T8_ECLASS_PYRAMID && (kind == 0 || kind == 1)) per = 0;
  if (kind == 1 && (cls == T8_ECLASS_VERTEX || cls == T8_ECLASS_PYRAMID)) cls = T8_ECLASS_QUAD;
  static const char *kn[] = { "hypercube", "hypercube_pad", "from_p4est", "from_p8est", "row_of_cubes", "disjoint_bricks" };
  sim::note ("%s", w.str ().c_str ());
  sim::note ("generator %s class %s bcast %d partition %d periodic %d, %d x %d x %d periodic %d %d %d, axis aligned %d", kn[kind], t8_eclass_to_string[cls], bc, part, per, n[0], n[1], n[2], pp[0], pp[1], pp[2], axis);
  if (kind == 5) for (int r = 0; r < w.P; r++) sim::note (" brick of rank %d: %d %d %d", r, bn[r][0], bn[r][1], bn[r][2]);
  cmodel_pkg (0);
  run_world (w, [&] (sc_MPI_Comm comm, int) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    t8_cmesh_t c, ref;
    CSpec s;
    CheckOpt o;
    o.attrs = kind != 4;
    o.geom = false;
    double bd[24];
    int d = t8_eclass_to_dimension[cls];
    for (int k = 0; k < 8; k++) for (int j = 0; j < 3; j++) bd[3 * k + j] = (k >> j) & 1;
    auto make = [&] (t8_cmesh_t *m, int b, int p) {
      t8_cmesh_init (m);
      switch (kind) {
      case 0: t8_cmesh_new_hypercube (m, (t8_eclass_t) cls, comm, b, p, per); break;
      case 1: t8_cmesh_new_hypercube_pad_ext (*m, (t8_eclass_t) cls, comm, bd, n[0], d > 1 ? n[1] : 0, d > 2 ? n[2] : 0, pp[0], d > 1 && pp[1], d > 2 && pp[2], axis && (cls == T8_ECLASS_LINE || cls == T8_ECLASS_QUAD || cls == T8_ECLASS_HEX), p, 0); break;
      case 2: { p4est_connectivity_t *q = p4est_connectivity_new_brick (n[0], n[1], pp[0], pp[1]); t8_cmesh_new_from_p4est (*m, q, comm, p); p4est_connectivity_destroy (q); break; }
      case 3: { p8est_connectivity_t *q = per ? p8est_connectivity_new_rotcubes () : p8est_connectivity_new_brick (n[0], n[1], n[2], pp[0], pp[1], pp[2]); t8_cmesh_new_from_p8est (*m, q, comm, p); p8est_connectivity_destroy (q); break; }
      case 4: t8_cmesh_new_row_of_cubes (*m, n[0] + n[1], per, p, comm, cmodel_pkg (0)); break;
      }
    };
    CPart cp;
    if (kind < 5) {
      make (&ref, 0, 0);
      make (&c, bc, part);
      spec_of (ref, s);
      if (kind == 1 && axis) o.verts = false;
      if (!part && !t8_cmesh_is_equal (ref, c)) fail ("equal", "rank %d: the broadcast mesh differs from the one built here", r);
      t8_cmesh_destroy (&ref);
      for (int k = 0; k < P; k++) { cp.first.push_back (k * s.n () / P); cp.num.push_back ((k + 1) * s.n () / P - k * s.n () / P); cp.shared.push_back (0); }
    }
    else {
      t8_cmesh_init (&c);
      t8_cmesh_new_disjoint_bricks (c, bn[r][0], bn[r][1], bn[r][2], pp[0], pp[1], pp[2], comm);
      for (int k = 0; k < P; k++) {
        long m = (long) bn[k][0] * bn[k][1] * (dim3 ? bn[k][2] : 1);
        cp.first.push_back (s.n ());
        cp.num.push_back (m);
        cp.shared.push_back (0);
        if (!m) continue;
        t8_cmesh_init (&ref);
        if (dim3) t8_cmesh_new_brick_3d (ref, bn[k][0], bn[k][1], bn[k][2], pp[0], pp[1], pp[2], sc_MPI_COMM_SELF);
        else t8_cmesh_new_brick_2d (ref, bn[k][0], bn[k][1], pp[0], pp[1], sc_MPI_COMM_SELF);
        spec_of (ref, s, s.n ());
        t8_cmesh_destroy (&ref);
      }
    }
    cp.N = s.n ();
    if (kind == 5) o.verts = false;
    check_cmesh ("generator", c, s, part || kind == 5 ? &cp : nullptr, r, P, o);
    if (kind == 4 && per) {
      for (t8_locidx_t i = 0; i < t8_cmesh_get_num_local_trees (c); i++) {
        long g = (long) t8_cmesh_get_global_id (c, i);
        const t8_locidx_t *a = (const t8_locidx_t *) t8_cmesh_get_attribute (c, cmodel_pkg (0), 0, i);
        const t8_locidx_t *b = (const t8_locidx_t *) t8_cmesh_get_attribute (c, cmodel_pkg (0), 1, i);
        if (!a || !b || *a != g || *b != s.n ()) fail ("attribute", "rank %d: attributes of tree %ld in the row of cubes", r, g);
      }
    }
    t8_cmesh_destroy (&c);
  });
  sim::state (sim::mix (kind * 64 + cls * 8 + bc * 4 + part * 2 + per) + n[0] * 100 + n[1] * 10 + n[2]);
}
void body ()
{
  if (chance (sim::W, 300)) { generators (); return; }
  World w = draw_world (7);
  CSpec s = draw_cspec (CS_VERTS * (int) choose (sim::W, 2));
  bool committed = chance (sim::W, 400);
  bool prof = chance (sim::W, 200);
  bool part_first = !committed && chance (sim::W, 300);     /* the commit after the broadcast distributes the mesh */
  bool twice = chance (sim::W, 200);
  uint32_t order = choose (sim::W, 1 << 16);
  uint32_t rootdraw = choose (sim::W, 840);
  int after = choose (sim::W, 3);                           /* 0 nothing, 1 partition, 2 copy */
  sim::note ("%s", w.str ().c_str ());
  s.describe ();
  CPart p0[2], p1[2];
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) {
    int P = w.size (g);
    p0[g] = draw_cpart (s.n (), P);
    p1[g] = draw_cpart (s.n (), P);
    sim::note ("group %d: root %d broadcasts the mesh %s%s%s%s order %u; then %s%s; %s", g, (int) (rootdraw % P), committed ? "after its commit" : "before the commit", prof ? ", profiling" : "",
               twice ? ", broadcast again" : "", "", order, part_first ? "commit as " : "commit replicated", part_first ? p0[g].str ().c_str () : "", after == 1 ? p1[g].str ().c_str () : after ? "copy" : "");
  }
  cmodel_pkg (0);
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    int root = (int) (rootdraw % P);
    std::vector<std::string> keep;
    t8_cmesh_t c = nullptr, orig;
    if (r == root) {
      t8_cmesh_init (&c);
      if (prof) t8_cmesh_set_profiling (c, 1);
      fill_cmesh (c, s, order ? sim::mix (order) : 0, nullptr, r, keep, false);
      if (committed) t8_cmesh_commit (c, comm);
    }
    orig = c;
    c = t8_cmesh_bcast (c, root, comm);
    if (r == root && c != orig) fail ("bcast", "the root got another mesh than the one it broadcast");
    if (committed) {
      register_geoms (c, s);
      check_cmesh ("broadcast of a committed mesh", c, s, nullptr, r, P);
    }
    else {
      register_geoms (c, s);
      const CPart *p = nullptr;
      if (part_first) {
        p = &p0[g];
        long f = p->first[r], l = f + p->num[r] - 1;
        if (p->num[r] == 0) { f = p->table ()[r]; l = f - 1; }
        t8_cmesh_set_partition_range (c, 3, p->num[r] && p->shared[r] ? -f - 1 : f, l);
      }
      t8_cmesh_commit (c, comm);
      check_cmesh ("commit after broadcast", c, s, p, r, P);
    }
    if (prof && c->profile == nullptr) fail ("profile", "rank %d: profiling was not enabled by the broadcast", r);
    if (!part_first) {
      t8_cmesh_t q;
      t8_cmesh_init (&q);
      fill_cmesh (q, s, 0, nullptr, r, keep);
      t8_cmesh_commit (q, comm);
      if (!t8_cmesh_is_equal (q, c)) fail ("equal", "rank %d: the broadcast mesh differs from the same mesh built here", r);
      t8_cmesh_destroy (&q);
    }
    if (after) {
      t8_cmesh_t n;
      t8_cmesh_init (&n);
      t8_cmesh_set_derive (n, c);
      const CPart *p = part_first ? &p0[g] : nullptr;
      if (after == 1) {
        p = &p1[g];
        long f = p->first[r], l = f + p->num[r] - 1;
        if (p->num[r] == 0) { f = p->table ()[r]; l = f - 1; }
        t8_cmesh_set_partition_range (n, 3, p->num[r] && p->shared[r] ? -f - 1 : f, l);
      }
      t8_cmesh_commit (n, comm);
      c = n;
      check_cmesh ("derived from the broadcast mesh", c, s, p, r, P);
    }
    t8_cmesh_destroy (&c);
  });
  sim::state (cspec_hash (s));
}
}
PROPERTY ("C13", body)
