/* C25: the numbers of trees and leaves fit together on every process. */
#include "common.hxx"
#include <algorithm>
#include <cstring>
#include <t8_forest/t8_forest_types.h>
#include <t8_forest/t8_forest_private.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>

namespace
{
void ids (t8_forest_t f, const Model &M, const Snap &s, const GhostSnap *gs, uint64_t salt, int R)
{
  const t8_scheme *sc = t8_forest_get_scheme (f);
  t8_cmesh_t cm = t8_forest_get_cmesh (f);
  const int G = (int) M.cls.size ();
  if (t8_forest_get_num_global_trees (f) != G) fail ("trees", "rank %d: there are %lld trees, not %d", R, (long long) t8_forest_get_num_global_trees (f), G);
  /* trees */
  std::map<t8_gloidx_t, int> local, ghost;
  for (int t = 0; t < s.ntrees; t++) local[s.tree_ids[t]] = t;
  if (gs) for (size_t t = 0; t < gs->trees.size (); t++) ghost[gs->trees[t]] = (int) t;
  for (int g = 0; g < G; g++) {
    t8_locidx_t a = t8_forest_get_local_id (f, g), b = t8_forest_get_local_or_ghost_id (f, g);
    const int wa = local.count (g) ? local[g] : -1, wb = wa >= 0 ? wa : ghost.count (g) ? s.ntrees + ghost[g] : -1;
    if (wa >= 0 ? a != wa : a >= 0) fail ("tree-id", "rank %d: tree %d has the local id %d, not %d", R, g, (int) a, wa);
    if (wb >= 0 ? b != wb : b >= 0) fail ("tree-id", "rank %d: tree %d has the local or ghost id %d, not %d", R, g, (int) b, wb);
    if (b < 0) continue;
    if (t8_forest_global_tree_id (f, b) != g) fail ("tree-id", "rank %d: tree %d has the local or ghost id %d, whose global id is %lld", R, g, (int) b, (long long) t8_forest_global_tree_id (f, b));
    if (t8_forest_get_tree_class (f, b) != M.cls[g]) fail ("tree-class", "rank %d: tree %d has class %d, not %d", R, g, (int) t8_forest_get_tree_class (f, b), (int) M.cls[g]);
    if ((t8_forest_tree_is_local (f, b) != 0) != (a >= 0)) fail ("tree-local", "rank %d: tree %d is %sreported as local", R, g, a >= 0 ? "not " : "");
    t8_locidx_t lc = t8_forest_ltreeid_to_cmesh_ltreeid (f, b);
    if (lc < 0 || lc >= t8_cmesh_get_num_local_trees (cm) + t8_cmesh_get_num_ghosts (cm)) fail ("coarse-id", "rank %d: tree %d (local id %d) has the id %d in the coarse mesh, which has %d trees and %d ghosts here", R, g, (int) b, (int) lc, (int) t8_cmesh_get_num_local_trees (cm), (int) t8_cmesh_get_num_ghosts (cm));
    if (t8_cmesh_get_global_id (cm, lc) != g) fail ("coarse-id", "rank %d: tree %d (local id %d) is tree %lld in the coarse mesh", R, g, (int) b, (long long) t8_cmesh_get_global_id (cm, lc));
    if (a >= 0) {
      if (t8_forest_cmesh_ltreeid_to_ltreeid (f, lc) != a) fail ("coarse-id", "rank %d: tree %d (local id %d) has the id %d in the coarse mesh, which leads back to %d", R, g, (int) a, (int) lc, (int) t8_forest_cmesh_ltreeid_to_ltreeid (f, lc));
      if (t8_forest_get_eclass (f, a) != M.cls[g]) fail ("tree-class", "rank %d: tree %d has class %d, not %d", R, g, (int) t8_forest_get_eclass (f, a), (int) M.cls[g]);
      t8_ctree_t ct = t8_forest_get_coarse_tree (f, a);
      if (!ct || ct->eclass != M.cls[g] || t8_cmesh_get_global_id (cm, ct->treeid) != g) fail ("coarse-tree", "rank %d: the coarse tree of tree %d is not that tree", R, g);
      const double *v = t8_cmesh_get_tree_vertices (t8_forest_get_cmesh (M.f), g), *w = t8_forest_get_tree_vertices (f, a);
      if ((v == nullptr) != (w == nullptr)) fail ("tree-vertices", "rank %d: tree %d has %s vertices", R, g, w ? "unexpected" : "no");
    }
  }
  for (t8_locidx_t i = 0; i < t8_cmesh_get_num_local_trees (cm); i++) {
    const t8_gloidx_t g = t8_cmesh_get_global_id (cm, i);
    const int want = local.count (g) ? local[g] : -1, got = t8_forest_cmesh_ltreeid_to_ltreeid (f, i);
    if (want != got) fail ("coarse-id", "rank %d: tree %d of the coarse mesh (global %lld) is local tree %d of the forest, not %d", R, (int) i, (long long) g, got, want);
  }
  /* leaves */
  const t8_locidx_t n = t8_forest_get_local_num_leaf_elements (f);
  t8_locidx_t at = 0;
  for (int t = 0; t < s.ntrees; t++) {
    t8_locidx_t k = t8_forest_get_tree_num_leaf_elements (f, t);
    if (t8_forest_get_tree_element_offset (f, t) != at) fail ("offset", "rank %d: %d leaves come before tree %lld, the offset is %d", R, (int) at, (long long) s.tree_ids[t], (int) t8_forest_get_tree_element_offset (f, t));
    if (t8_forest_get_tree_leaf_element_count (t8_forest_get_tree (f, t)) != k) fail ("count", "rank %d: tree %lld has %d leaves, or %d", R, (long long) s.tree_ids[t], (int) k, (int) t8_forest_get_tree_leaf_element_count (t8_forest_get_tree (f, t)));
    if (k > 0) {   /* a tree without leaves comes with meshes with holes */
      for (t8_locidx_t i : { 0, k / 2, k - 1 }) {
        t8_locidx_t lt = -7;
        t8_element_t *e = t8_forest_get_leaf_element (f, at + i, &lt);
        if (e != t8_forest_get_leaf_element_in_tree (f, t, i) || lt != t) fail ("leaf-id", "rank %d: local leaf %d is number %d of tree %d, but reported in tree %d%s", R, (int) (at + i), (int) i, t, (int) lt, e == t8_forest_get_leaf_element_in_tree (f, t, i) ? "" : " and another leaf");
        if (t8_forest_get_leaf_element (f, at + i, nullptr) != e) fail ("leaf-id", "rank %d: local leaf %d differs between two calls", R, (int) (at + i));
      }
    }
    at += k;
  }
  if (t8_forest_get_leaf_element (f, n, nullptr) != nullptr) fail ("leaf-id", "rank %d has %d leaves and reports a leaf of that number", R, (int) n);
  if (t8_forest_get_leaf_element (f, n + 5, nullptr) != nullptr) fail ("leaf-id", "rank %d has %d leaves and reports a leaf number %d", R, (int) n, (int) n + 5);
  /* is an element a leaf? */
  auto lookup = [&] (const std::vector<Leaf> &leaves, int t, t8_gloidx_t g, bool gh, uint64_t x) {
    const t8_eclass_t c = M.cls[g];
    std::vector<const Leaf *> in;
    for (auto &l : leaves) if (l.tree == g) in.push_back (&l);
    if (in.empty ()) return;
    Elem e (sc, c), p (sc, c);
    const Leaf &l = *in[x % in.size ()];
    set_elem (sc, l, e.e);
    if ((x >> 40) % 4 == 1 && l.level > 0) { sc->element_get_parent (c, e.e, p.e); sc->element_copy (c, p.e, e.e); }
    else if ((x >> 40) % 4 == 2 && sc->element_is_refinable (c, e.e) && l.level < 12) { sc->element_get_child (c, e.e, (int) ((x >> 50) % sc->element_get_num_children (c, e.e)), p.e); sc->element_copy (c, p.e, e.e); }
    else if ((x >> 40) % 4 == 3 && l.level > 0) {   /* a sibling, which may be local, remote or no leaf */
      sc->element_get_parent (c, e.e, p.e);
      sc->element_get_child (c, p.e, (int) ((x >> 50) % sc->element_get_num_children (c, p.e)), e.e);
    }
    Leaf q = make_leaf (sc, c, g, e.e);
    bool want = false;
    for (auto i : in) if (*i == q) want = true;
    int got = gh ? t8_forest_element_is_leaf_or_ghost (f, e.e, t, 1) : t8_forest_element_is_leaf (f, e.e, t);
    if ((got != 0) != want) fail ("is-leaf", "rank %d: %s is %sa %s, but reported otherwise", R, q.str ().c_str (), want ? "" : "not ", gh ? "ghost" : "local leaf");
    if (!gh && (t8_forest_element_is_leaf_or_ghost (f, e.e, t, 0) != 0) != want) fail ("is-leaf", "rank %d: %s is %sa local leaf, but reported otherwise", R, q.str ().c_str (), want ? "" : "not ");
  };
  for (int k = 0; k < 4; k++) {
    uint64_t x = sim::mix (salt + k * 31 + (uint64_t) R * 1009);
    if (s.ntrees) { int t = (int) (sim::mix (x) % s.ntrees); lookup (s.leaves, t, s.tree_ids[t], false, x); }
    if (gs && !gs->trees.empty ()) { int t = (int) (sim::mix (x) % gs->trees.size ()); lookup (gs->leaves, t, gs->trees[t], true, x); }
  }
}
bool same_local (const Snap &a, const Snap &b, const std::vector<int> &ca, const std::vector<int> &cb)
{
  /* trees are compared by their local number */
  if (a.ntrees != b.ntrees || ca != cb || a.leaves.size () != b.leaves.size ()) return false;
  for (size_t i = 0; i < a.leaves.size (); i++)
    if (a.leaves[i].cls != b.leaves[i].cls || a.leaves[i].level != b.leaves[i].level || a.leaves[i].id != b.leaves[i].id) return false;
  return true;
}
std::vector<int> counts (t8_forest_t f)
{
  std::vector<int> v;
  for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); t++) {
    v.push_back (t8_forest_get_tree_class (f, t));
    v.push_back (t8_forest_get_tree_num_leaf_elements (f, t));
  }
  return v;
}
void body25 ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_MIXED, OP_COPY, OP_BALANCE, OP_GHOST, OP_COMBINED, OP_REMOVE };
  Hist h = draw_hist (MESH_PART_OK, 6, kinds, 0, 4);
  for (auto &o : h.ops) o.ghost = chance (sim::W, 300) ? range (sim::W, 2, 3) : 0;
  limit_removed (h.ops);
  bool holes = false;
  for (auto &o : h.ops) holes = holes || o.kind == OP_REMOVE;
  uint64_t salt = choose (sim::W, 1u << 30);
  const int gather = chance (sim::W, 500) ? choose (sim::W, 6) : -1;
  const bool pc = chance (sim::W, 500);
  const int prof = choose (sim::W, 2);
  h.describe ();
  sim::note ("# gather on %d, %s", gather, pc ? "then partition the coarse mesh like the forest" : "no partition of the coarse mesh");
  Record rec (h);
  Model M (h.m);
  std::vector<Step> gat (2), fin (2);
  for (int g = 0; g < 2; g++) { gat[g].r.resize (h.w.P); fin[g].r.resize (h.w.P); }
  const int L = (int) h.ops.size ();
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    const Snap s = rec.g[c.group][c.step].r[c.rank];
    GhostSnap gs;
    const bool gh = c.f->ghosts != nullptr;
    if (gh) gs = snap_ghost (c.f);
    ids (c.f, M, s, gh ? &gs : nullptr, salt + c.step, c.rank);
    if (t8_forest_comm_global_num_leaf_elements (c.f), t8_forest_get_global_num_leaf_elements (c.f) != s.global) fail ("count", "rank %d: the number of all leaves changes from %lld to %lld by counting again", c.rank, (long long) s.global, (long long) t8_forest_get_global_num_leaf_elements (c.f));
    if (!t8_forest_no_overlap (c.f)) fail ("overlap", "rank %d: overlapping leaves reported", c.rank);
    if (!t8_forest_is_equal (c.f, c.f)) fail ("equal", "rank %d: the forest does not equal itself", c.rank);
    if (c.old) {
      Snap o = snap_forest (c.old);
      const bool want = same_local (o, s, counts (c.old), counts (c.f));
      int a = t8_forest_is_equal (c.old, c.f), b = t8_forest_is_equal (c.f, c.old);
      if ((a != 0) != want || (b != 0) != want) fail ("equal", "rank %d: the leaves before and after step %d are %s, reported as %d and %d", c.rank, c.step, want ? "the same" : "not the same", a, b);
    }
    if (c.step != L) return;
    if (gather >= 0) {
      t8_forest_ref (c.f);
      t8_forest_t g = t8_forest_new_gather (c.f, gather % c.size);
      Snap q = gat[c.group].r[c.rank] = snap_forest (g);
      ids (g, M, q, nullptr, salt + 77, c.rank);
      t8_forest_unref (&g);
    }
    if (pc) {
      t8_forest_partition_cmesh (c.f, c.comm, prof);
      Snap q = fin[c.group].r[c.rank] = snap_forest (c.f);
      ids (c.f, M, q, gh ? &gs : nullptr, salt + 99, c.rank);
    }
  }, false);
  for (int g = 0; g < h.groups (); g++) {
    for (auto &s : rec.g[g]) { check_consistent (s, "inconsistent"); sim::state (hash_leaves (s.global ())); }
    const Step &last = rec.g[g].back ();
    const int P = (int) last.r.size ();
    std::vector<Leaf> all = last.global ();
    if (gather >= 0) {
      for (int r = 0; r < P; r++) {
        const Snap &q = gat[g].r[r];
        if (q.global != (t8_gloidx_t) all.size ()) fail ("gather", "rank %d: gathering changes the number of leaves from %zu to %lld", r, all.size (), (long long) q.global);
        if (r != gather % P && !q.leaves.empty ()) fail ("gather", "rank %d has %zu leaves, all should be on rank %d", r, q.leaves.size (), gather % P);
        if (r == gather % P) {
          std::string d = diff_leaves (all, q.leaves);
          if (!d.empty ()) fail ("gather", "rank %d does not have all leaves: %s", r, d.c_str ());
        }
      }
    }
    if (pc)
      for (int r = 0; r < P; r++) {
        std::string d = diff_leaves (last.r[r].leaves, fin[g].r[r].leaves);
        if (!d.empty ()) fail ("coarse-partition", "rank %d: partitioning the coarse mesh changes the leaves: %s", r, d.c_str ());
      }
  }
}
}
PROPERTY ("C25", body25)
