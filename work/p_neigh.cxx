/* C08: leaf face neighbours across process boundaries. */
#include "common.hxx"
#include <algorithm>

struct NeighAsk
{
  Leaf leaf;
  int face, num;
  bool ghost;
  t8_gloidx_t gtree;
  int ncls, ori, sub = -1;
  std::vector<std::pair<Leaf, int>> nb;   /* neighbour, dual face */
};
static void ask (t8_forest_t f, t8_locidx_t lt, t8_eclass_t c, t8_gloidx_t gt, const t8_element_t *e, bool ghost, t8_locidx_t index, const Snap &s, const GhostSnap &g, std::vector<NeighAsk> &out)
{
  const t8_scheme *sc = t8_forest_get_scheme (f);
  int nf = sc->element_get_num_faces (c, e);
  for (int face = 0; face < nf; face++) {
    NeighAsk a;
    a.leaf = make_leaf (sc, c, gt, e);
    a.face = face;
    a.ghost = ghost;
    const t8_element_t **nb;
    int *dual, num, ori = -77;
    t8_locidx_t *idx;
    t8_eclass_t nc = T8_ECLASS_INVALID;
    t8_gloidx_t ngt = -77;
    t8_forest_leaf_face_neighbors_ext (f, lt, e, &nb, face, &dual, &num, &idx, &nc, &ngt, &ori);
    a.num = num;
    a.gtree = ngt;
    a.ncls = nc;
    a.ori = ori;
    size_t nl = s.leaves.size (), ng = g.leaves.size ();
    for (int i = 0; i < num; i++) {
      if (idx[i] < 0 || (size_t) idx[i] >= nl + ng) fail ("neighbor-index", "rank %d: neighbour %d of %s across face %d has index %d of %zu local leaves and %zu ghosts", sim::rank (), i, a.leaf.str ().c_str (), face, (int) idx[i], nl, ng);
      const Leaf &l = (size_t) idx[i] < nl ? s.leaves[idx[i]] : g.leaves[idx[i] - nl];
      Leaf p = make_leaf (sc, nc, ngt, nb[i]);
      if (p != l) fail ("neighbor-index", "rank %d: neighbour %d of %s across face %d is %s, its index %d belongs to %s", sim::rank (), i, a.leaf.str ().c_str (), face, p.str ().c_str (), (int) idx[i], l.str ().c_str ());
      a.nb.push_back ({ l, dual[i] });
    }
    if (num <= 1) {
      int d = -77;
      t8_locidx_t i = t8_forest_same_level_leaf_face_neighbor_index (f, index, face, gt, &d);
      if (i != (num ? idx[0] : -1) || d != (num ? dual[0] : -1)) fail ("neighbor-index", "rank %d: the only neighbour of %s across face %d has index %d, asked by index %d; its face is %d or %d", sim::rank (), a.leaf.str ().c_str (), face, num ? (int) idx[0] : -1, (int) i, num ? dual[0] : -1, d);
    }
    if (num == 1 && !ghost && a.nb[0].first.level == a.leaf.level - 1) {
      a.sub = t8_forest_leaf_neighbor_subface (f, lt, e, face, nc, nb[0], dual[0]);
      if (a.sub < 0) fail ("subface", "rank %d: %s has subface %d of its neighbour %s", sim::rank (), a.leaf.str ().c_str (), a.sub, a.nb[0].first.str ().c_str ());
    }
    if (num > 0) { T8_FREE (nb); T8_FREE (dual); T8_FREE (idx); }
    /* the short form agrees */
    int *dual2, num2;
    t8_locidx_t *idx2;
    t8_eclass_t nc2 = T8_ECLASS_INVALID;
    if (face == 0) {
      t8_forest_leaf_face_neighbors (f, lt, e, NULL, face, &dual2, &num2, &idx2, &nc2);
      if (num2 != num) fail ("neighbor-count", "rank %d: two ways to ask for the neighbours of %s across face %d give %d and %d", sim::rank (), a.leaf.str ().c_str (), face, num, num2);
      if (num2 > 0) { T8_FREE (dual2); T8_FREE (idx2); }
    }
    out.push_back (a);
  }
}
static void body08 ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_REFINE_REC, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_REFINE, OP_BALANCE, OP_COMBINED, OP_BALANCE_NOREP };
  Hist h = draw_hist (MESH_PART_OK, 6, kinds, 0, 3);
  h.ops.push_back (draw_op (chance (sim::W, 500) ? OP_COPY : kinds[choose (sim::W, (uint32_t) kinds.size ())], h.m));
  Op &lo = h.ops.back ();
  lo.ghost = chance (sim::W, 150) ? 2 : 3;
  if ((lo.kind == OP_BALANCE || lo.kind == OP_BALANCE_NOREP) && chance (sim::W, 150)) lo.ghost = 1;
  for (auto &o : h.ops) if (!o.ghost && chance (sim::W, 150)) o.ghost = 3;
  h.describe ();
  Record rec (h);
  std::vector<std::vector<NeighAsk>> asks[2];
  std::vector<GhostSnap> gs[2];
  for (int g = 0; g < 2; g++) { asks[g].resize (h.w.P); gs[g].resize (h.w.P); }
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    const Snap &s = rec.g[c.group][c.step].r[c.rank];
    GhostSnap &g = gs[c.group][c.rank] = snap_ghost (c.f);
    auto &out = asks[c.group][c.rank];
    t8_locidx_t k = 0;
    for (t8_locidx_t t = 0; t < s.ntrees; t++)
      for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (c.f, t); i++)
        ask (c.f, t, t8_forest_get_tree_class (c.f, t), s.tree_ids[t], t8_forest_get_leaf_element_in_tree (c.f, t, i), false, k++, s, g, out);
    for (t8_locidx_t t = 0; t < (t8_locidx_t) g.trees.size (); t++)
      for (t8_locidx_t i = 0; i < t8_forest_ghost_tree_num_leaf_elements (c.f, t); i++)
        ask (c.f, s.ntrees + t, t8_forest_ghost_get_tree_class (c.f, t), g.trees[t], t8_forest_ghost_get_leaf_element (c.f, t, i), true, k++, s, g, out);
    check_face_walk (c.f, h.ops.size () + 31 * c.rank + 977 * s.leaves.size (), 2);
  }, true);
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++) {
    const Step &s = rec.g[g].back ();
    std::vector<Leaf> all = s.global ();
    M.set (all);
    sim::state (hash_leaves (all));
    for (size_t r = 0; r < s.r.size (); r++) {
      std::set<Leaf> visible (s.r[r].leaves.begin (), s.r[r].leaves.end ());
      visible.insert (gs[g][r].leaves.begin (), gs[g][r].leaves.end ());
      for (auto &a : asks[g][r]) {
        bool boundary = false;
        std::vector<std::pair<Leaf, int>> want;
        for (auto &n : M.neighbors (a.leaf, a.face, &boundary))
          if (visible.count (n.leaf)) want.push_back ({ n.leaf, n.face });
        auto have = a.nb;
        std::sort (want.begin (), want.end ());
        std::sort (have.begin (), have.end ());
        const char *who = a.ghost ? "ghost" : "leaf";
        if (have.size () != want.size ())
          fail ("neighbor-count", "rank %zu: %s %s has %zu neighbours across face %d, %zu are reported", r, who, a.leaf.str ().c_str (), want.size (), a.face, have.size ());
        for (size_t i = 0; i < want.size (); i++) {
          if (have[i].first != want[i].first) fail ("neighbor-wrong", "rank %zu: across face %d of %s %s lies %s, reported is %s", r, a.face, who, a.leaf.str ().c_str (), want[i].first.str ().c_str (), have[i].first.str ().c_str ());
          if (have[i].second != want[i].second) fail ("dual-face-wrong", "rank %zu: %s %s meets %s across face %d at its face %d, reported is %d", r, who, a.leaf.str ().c_str (), want[i].first.str ().c_str (), a.face, want[i].second, have[i].second);
        }
        if (boundary && a.num) fail ("neighbor-count", "rank %zu: face %d of %s is a boundary", r, a.face, a.leaf.str ().c_str ());
        if (a.sub >= 0) {
          /* the children of the neighbour at the common face: which one touches the leaf? */
          const Leaf &n = want[0].first;
          const t8_eclass_t nc = (t8_eclass_t) n.cls;
          Elem ne (M.s, nc);
          set_elem (M.s, n, ne.e);
          const int nch = M.s->element_get_num_face_children (nc, ne.e, want[0].second);
          if (a.sub >= nch) fail ("subface", "rank %zu: %s has subface %d of the %d of its neighbour %s", r, a.leaf.str ().c_str (), a.sub, nch, n.str ().c_str ());
          std::vector<t8_element_t *> ch (nch);
          M.s->element_new (nc, nch, ch.data ());
          M.s->element_get_children_at_face (nc, ne.e, want[0].second, ch.data (), nch, NULL);
          const Leaf cl = make_leaf (M.s, nc, n.tree, ch[a.sub]);
          const int cf = M.s->element_face_get_child_face (nc, ne.e, want[0].second, a.sub);
          M.s->element_destroy (nc, nch, ch.data ());
          bool touches = false;
          for (auto &x : M.neighbors (cl, cf)) if (x.leaf == a.leaf && x.face == a.face) touches = true;
          if (!touches) fail ("subface", "rank %zu: face %d of %s is reported to be subface %d of its neighbour %s, but that child does not touch it", r, a.face, a.leaf.str ().c_str (), a.sub, n.str ().c_str ());
        }
        if (!want.empty ()) {
          int ori;
          M.tree_face (a.leaf, a.face, &ori);
          if (ori != a.ori) fail ("orientation", "rank %zu: face %d of %s %s has orientation %d, reported is %d", r, a.face, who, a.leaf.str ().c_str (), ori, a.ori);
        }
      }
    }
  }
}
PROPERTY ("C08", body08)
