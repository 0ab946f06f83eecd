#include "common.hxx"

static void body ()
{
  World w = draw_world (7);
  MeshSpec m = draw_mesh (MESH_PART_OK);
  int level = range (sim::W, 0, m.dim () >= 3 ? 1 : 2);
  int nops = range (sim::W, 1, 5);
  std::vector<Op> ops;
  for (int i = 0; i < nops; i++) {
    static const int k[] = { OP_PARTITION, OP_OFFSETS, OP_PFC, OP_WEIGHT, OP_REFINE, OP_COARSEN, OP_REMOVE };
    ops.push_back (draw_op (k[choose (sim::W, 7)], m));
  }
  limit_removed (ops);
  sim::note ("%s", w.str ().c_str ());
  sim::note ("%s, uniform level %d", m.str ().c_str (), level);
  for (auto &o : ops) sim::note ("op %s", o.str ().c_str ());
  std::vector<Step> hist[2];
  for (int g = 0; g < 2; g++) {
    hist[g].resize (ops.size () + 1);
    for (auto &s : hist[g]) s.r.resize (w.size (g));
  }
  run_world (w, [&] (sc_MPI_Comm comm, int g) {
    int r;
    sc_MPI_Comm_rank (comm, &r);
    t8_cmesh_t c = build_cmesh (m, comm);
    t8_forest_t f = t8_forest_new_uniform (c, new_scheme (m), level, 0, comm);
    hist[g][0].r[r] = snap_forest (f);
    for (size_t i = 0; i < ops.size (); i++) {
      f = apply_op (f, ops[i]);
      hist[g][i + 1].r[r] = snap_forest (f);
    }
    t8_forest_unref (&f);
  });
  for (int g = 0; g < (w.mode == 3 ? 2 : 1); g++) {
    for (size_t i = 0; i <= ops.size (); i++) {
      hist[g][i].what = i ? op_name (ops[i - 1].kind) : "new uniform";
      check_consistent (hist[g][i], "inconsistent");
      sim::state (hash_leaves (hist[g][i].global ()));
    }
    for (size_t i = 0; i < ops.size (); i++) {
      if (ops[i].kind == OP_REFINE || ops[i].kind == OP_COARSEN || ops[i].kind == OP_REMOVE) continue;
      std::string d = diff_leaves (hist[g][i].global (), hist[g][i + 1].global ());
      if (!d.empty ()) fail ("leaves-changed", "%s changed the mesh: %s", op_name (ops[i].kind), d.c_str ());
    }
  }
}
PROPERTY ("C01", body)
