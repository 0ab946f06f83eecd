/* C23: adaptation does exactly what the callback asks for, and old and new leaves are related to each other. */
#include "common.hxx"
#include <t8_forest/t8_forest_iterate.h>

namespace
{
struct Rep { int tree, refine, nout, out, nin, in; };
struct RepCtx { std::vector<Rep> v; t8_forest_t old, neu; };
void replace (t8_forest_t o, t8_forest_t n, t8_locidx_t tree, const t8_eclass_t cls, const t8_scheme *, const int refine, const int nout, const t8_locidx_t out, const int nin, const t8_locidx_t in)
{
  RepCtx *c = (RepCtx *) t8_forest_get_user_data (n);
  if (o != c->old || n != c->neu || cls != t8_forest_get_tree_class (n, tree)) fail ("replace-arguments", "the replace callback got other forests or another class");
  c->v.push_back ({ (int) tree, refine, nout, (int) out, nin, (int) in });
}
bool adapts (int k) { return k == OP_REFINE || k == OP_COARSEN || k == OP_MIXED || k == OP_REMOVE || k == OP_REFINE_REC || k == OP_COARSEN_REC || k == OP_MIXED_REC; }
void body23 ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_COARSEN, OP_MIXED, OP_MIXED, OP_REMOVE, OP_PARTITION, OP_OFFSETS, OP_REFINE_REC, OP_COARSEN_REC, OP_MIXED_REC, OP_PFC, OP_WEIGHT, OP_COPY };
  Hist h = draw_hist (MESH_PART_OK, 6, kinds, 1, 5);
  limit_removed (h.ops);
  for (auto &o : h.ops) if (adapts (o.kind)) o.part = chance (sim::W, 150);
  h.describe ();
  Model M (h.m);
  int removed_from = (int) h.ops.size () + 1;
  for (size_t i = h.ops.size (); i-- > 0;)
    if (h.ops[i].kind == OP_REMOVE || ((h.ops[i].kind == OP_MIXED || h.ops[i].kind == OP_MIXED_REC) && (h.ops[i].flag & 1))) removed_from = (int) i + 1;
  Record rec (h);
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    if (!c.op) return;
    int k = c.op->kind;
    if (!adapts (k)) return;
    const Snap &n = rec.g[c.group][c.step].r[c.rank];
    Snap o = snap_forest (c.old);
    if (!c.op->part && o.tree_ids != n.tree_ids) fail ("trees-changed", "rank %d: adapting changed the local trees", c.rank);
    const std::vector<Leaf> &was = rec.g[c.group][c.step - 1].r[c.rank].leaves;
    std::string d = diff_leaves (was, o.leaves);
    if (!d.empty ()) fail ("old-changed", "rank %d: adapting changed the old forest: %s", c.rank, d.c_str ());
    const bool rec_op = k == OP_REFINE_REC || k == OP_COARSEN_REC || k == OP_MIXED_REC;
    const bool exact = c.step <= removed_from || (k != OP_COARSEN && k != OP_MIXED);
    if (rec_op || c.op->part) return;
    RepCtx rc { {}, c.old, c.f };
    t8_forest_set_user_data (c.f, &rc);
    t8_forest_iterate_replace (c.f, c.old, replace);
    t8_forest_set_user_data (c.f, nullptr);
    /* tree local to process local */
    std::vector<int> of, nf;
    int a = 0, b = 0;
    for (int t = 0; t < n.ntrees; t++) {
      of.push_back (a); nf.push_back (b);
      a += t8_forest_get_tree_num_leaf_elements (c.old, t);
      b += t8_forest_get_tree_num_leaf_elements (c.f, t);
    }
    int io = 0, in = 0;
    for (auto &r : rc.v) {
      const char *why = nullptr;
      if (r.tree < 0 || r.tree >= n.ntrees) why = "no such tree";
      else if (of[r.tree] + r.out != io) why = "old leaves were skipped or repeated";
      else if (r.nin && nf[r.tree] + r.in != in) why = "new leaves were skipped or repeated";
      else if (r.refine == 0 && (r.nout != 1 || r.nin != 1 || o.leaves[io] != n.leaves[in])) why = "not the same leaf";
      else if (r.refine == -2 && (r.nout != 1 || r.nin != 0)) why = "not a removal";
      else if (r.refine == 1) {
        std::vector<Leaf> ch;
        if (r.nout == 1) M.children (o.leaves[io], ch);
        if (r.nout != 1 || r.nin != (int) ch.size ()) why = "not a refinement";
        else for (int j = 0; j < r.nin; j++) if (in + j >= (int) n.leaves.size () || n.leaves[in + j] != ch[j]) why = "not the children";
      }
      else if (r.refine == -1) {
        if (r.nin != 1 || r.nout < 1 || io + r.nout > (int) o.leaves.size ()) why = "not a coarsening";
        else {
          for (int j = 0; j < r.nout; j++) if (o.leaves[io + j].level == 0 || M.parent (o.leaves[io + j]) != n.leaves[in]) why = "not the parent";
          if (exact) { std::vector<Leaf> ch; M.children (n.leaves[in], ch); if ((int) ch.size () != r.nout) why = "not a family"; }
        }
      }
      else if (r.refine != 0 && r.refine != -2) why = "unknown kind";
      if (why) fail ("replace-wrong", "rank %d: replace call: tree %d, kind %d, %d old from %d, %d new from %d (old leaf %d, new leaf %d of the process come next): %s", c.rank, r.tree, r.refine, r.nout, r.out, r.nin, r.in, io, in, why);
      io += r.nout;
      in += r.nin;
    }
    if (io != (int) o.leaves.size () || in != (int) n.leaves.size ()) fail ("replace-incomplete", "rank %d: replace covered %d of %zu old and %d of %zu new leaves", c.rank, io, o.leaves.size (), in, n.leaves.size ());
    /* a removed leaf must be gone */
    if (exact) {
      std::set<Leaf> left (n.leaves.begin (), n.leaves.end ());
      for (auto &r : rc.v) if (r.refine == -2 && left.count (o.leaves[of[r.tree] + r.out])) fail ("replace-wrong", "rank %d: a leaf that still exists is reported as removed", c.rank);
    }
  });
  for (int g = 0; g < h.groups (); g++) {
    bool holes = false;
    const int P = h.w.size (g);
    for (size_t i = 0; i < rec.g[g].size (); i++) {
      const Step &st = rec.g[g][i];
      check_consistent (st, "inconsistent");
      sim::state (hash_leaves (st.global ()));
      if (i == 0) continue;
      const Step &pr = rec.g[g][i - 1];
      const Op &op = h.ops[i - 1];
      const int k = op.kind;
      if (!holes && !M.covers (pr.global ())) holes = true;
      if (!adapts (k)) {
        /* nothing else changes the mesh */
        std::string d = diff_leaves (pr.global (), st.global ());
        if (!d.empty ()) fail ("not-as-asked", "%s (step %zu) changed the mesh: %s", op_name (k), i, d.c_str ());
        continue;
      }
      std::vector<Leaf> all;
      bool known = true;
      for (int r = 0; r < P; r++) {
        const Snap &o = pr.r[r];
        std::vector<Leaf> want;
        if (k == OP_REFINE_REC || k == OP_COARSEN_REC || k == OP_MIXED_REC) {
          if (holes && k != OP_REFINE_REC) { known = false; continue; }
          want = M.adapt_rec (o.leaves, op, (long) o.global);
        }
        else want = M.adapt (o.leaves, op, (long) o.global, holes, r, P);
        all.insert (all.end (), want.begin (), want.end ());
        if (op.part) continue;
        std::string d = diff_leaves (want, st.r[r].leaves);
        if (!d.empty ()) fail ("not-as-asked", "rank %d: %s (step %zu) did not do what the callback asked for: %s", r, op_name (k), i, d.c_str ());
      }
      if (op.part && known) {
        std::string d = diff_leaves (all, st.global ());
        if (!d.empty ()) fail ("not-as-asked", "%s and partitioning at once (step %zu) did not do what the callback asked for: %s", op_name (k), i, d.c_str ());
      }
    }
  }
}
}
PROPERTY ("C23", body23)
