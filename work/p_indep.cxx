/* C03: the mesh does not depend on the distribution. */
#include "common.hxx"

static void body03 ()
{
  Hist h = draw_hist (MESH_PART_OK, 6, { OP_REFINE, OP_REFINE_REC, OP_PFC, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_COMBINED, OP_COPY, OP_BALANCE, OP_REFINE, OP_BALANCE_NOREP }, 1, 4);
  /* coarsening only acts on families that lie on one process */
  std::vector<Op> ops;
  for (auto &o : h.ops) {
    ops.push_back (o);
    if (o.kind == OP_PFC) ops.push_back (draw_op (OP_COARSEN, h.m));
  }
  h.ops = ops;
  h.describe ();
  Record rec (h);
  run_hist (h, [&] (HistCtx &c) { rec.add (c); });
  std::vector<std::vector<Leaf>> ref = run_alone (h);
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++)
    for (size_t i = 0; i <= h.ops.size (); i++) {
      std::vector<Leaf> all = rec.g[g][i].global ();
      std::string d = diff_leaves (ref[i], all);
      if (!d.empty ()) fail ("depends-on-distribution", "after step %zu (%s) the mesh on %d processes differs from the mesh on one: %s", i, rec.g[g][i].what.c_str (), h.w.size (g), d.c_str ());
      check_consistent (rec.g[g][i], "inconsistent");
      if (g == 0) {
        std::vector<Leaf> want;
        if (i == 0) want = M.uniform (h.level);
        else if (h.ops[i - 1].kind == OP_REFINE || h.ops[i - 1].kind == OP_COARSEN) want = M.adapt (ref[i - 1], h.ops[i - 1], (long) ref[i - 1].size ());
        else continue;
        d = diff_leaves (want, all);
        if (!d.empty ()) fail ("not-as-asked", "step %zu (%s) did not do what the callback asked for: %s", i, rec.g[g][i].what.c_str (), d.c_str ());
      }
      sim::state (hash_leaves (all));
    }
}
PROPERTY ("C03", body03)
