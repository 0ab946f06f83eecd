/* C04: balance gives the least 2:1 refinement. */
#include "common.hxx"
#include <t8_forest/t8_forest_balance.h>


static void body04 ()
{
  Hist h = draw_hist (MESH_PART_OK, 6, { OP_REFINE, OP_REFINE_REC, OP_REFINE, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_COARSEN, OP_REFINE_REC, OP_BALANCE }, 0, 3);
  if (chance (sim::W, 700)) h.ops.push_back (draw_op (chance (sim::W, 700) ? OP_REFINE_REC : OP_REFINE, h.m));
  if (chance (sim::W, 500)) h.ops.push_back (draw_op (chance (sim::W, 500) ? OP_OFFSETS : OP_PARTITION, h.m));
  static const int fin[] = { OP_BALANCE, OP_BALANCE_NOREP, OP_COMBINED };
  Op last = draw_op (fin[choose (sim::W, 3)], h.m);
  if (last.kind == OP_COMBINED) last.flag |= 2;
  h.ops.push_back (last);
  if (chance (sim::W, 150)) h.ops.back ().prof = true;
  for (auto &o : h.ops) {
    o.ghost = 3;
    if (o.maxlevel >= 100 && h.m.dim () > 2) o.maxlevel = 9;   /* the model is slow */
  }
  h.describe ();
  Record rec (h);
  std::vector<std::vector<int>> isb[2];
  for (int g = 0; g < 2; g++) isb[g].resize (h.ops.size () + 1, std::vector<int> (h.w.P, -1));
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    if (c.op) isb[c.group][c.step][c.rank] = t8_forest_is_balanced (c.f);
  });
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++)
    for (size_t i = 1; i <= h.ops.size (); i++) {
      const Op &o = h.ops[i - 1];
      std::vector<Leaf> all = rec.g[g][i].global (), in = rec.g[g][i - 1].global ();
      int P = h.w.size (g), said = 1;
      for (int r = 0; r < P; r++) said = said && isb[g][i][r];
      M.set (all);
      bool unbalanced = M.balance ();
      if (P > 1 && said == unbalanced) fail ("is-balanced-wrong", "step %zu (%s): the processes report that the forest is %sbalanced, it is %sbalanced", i, rec.g[g][i].what.c_str (), said ? "" : "not ", unbalanced ? "not " : "");
      sim::state (hash_leaves (all) + unbalanced);
      bool bal = o.kind == OP_BALANCE || o.kind == OP_BALANCE_NOREP || (o.kind == OP_COMBINED && (o.flag & 2));
      if (!bal) continue;
      check_consistent (rec.g[g][i], "inconsistent");
      if (o.kind == OP_COMBINED) in = M.adapt (in, o, (long) in.size ());
      M.set (in);
      sim::count (M.balance () ? sim::K_PROBE0 : sim::K_PROBE1);
      std::string d = diff_leaves (M.all (), all);
      if (!d.empty ()) fail ("not-the-least-balanced-mesh", "step %zu (%s) on %d processes: %s", i, rec.g[g][i].what.c_str (), P, d.c_str ());
      if (o.kind == OP_BALANCE_NOREP) {
        /* every leaf stays where it was */
        for (int r = 0; r < P; r++) {
          const auto &a = rec.g[g][i - 1].r[r].leaves, &b = rec.g[g][i].r[r].leaves;
          if (a.empty () != b.empty () || (!a.empty () && (a.front ().tree != b.front ().tree || a.front ().first != b.front ().first)))
            fail ("moved", "step %zu: balance without repartition moved the part of rank %d", i, r);
        }
      }
      else if (o.kind == OP_BALANCE) {
        /* repartitioned on the way */
        long N = (long) all.size ();
        for (int r = 0; r < P; r++) {
          long n = (long) rec.g[g][i].r[r].leaves.size ();
          if (n < N / P || n > N / P + 1) fail ("unequal", "step %zu: balance with repartition of %ld leaves left rank %d of %d with %ld", i, N, r, P, n);
        }
      }
    }
}
PROPERTY ("C04", body04)
