/* C09: every process can tell who owns any part of the mesh, without communication. */
#include "common.hxx"
#include <algorithm>
#include <t8_forest/t8_forest_private.h>

struct OwnerAsk
{
  Leaf e;                        /* any element, not only a leaf */
  int owner, owner_ext, owner_old, owner_old2, checked; /* checked: -1 none, -2 several */
  int face;
  std::vector<int> at_face, at_face2;
  int lo, hi, flo, fhi;
  bool leaf;                     /* e is a local leaf */
  std::vector<int> at_neigh;
  int nlo, nhi;
  int has_desc;
};
static std::vector<int> ints (sc_array_t *a)
{
  std::vector<int> v ((int *) a->array, (int *) a->array + a->elem_count);
  return v;
}
static void ask (t8_forest_t f, t8_gloidx_t gt, t8_locidx_t lt, t8_eclass_t c, t8_element_t *e, bool leaf, uint64_t rnd, int P, OwnerAsk &a)
{
  const t8_scheme *sc = t8_forest_get_scheme (f);
  a.e = make_leaf (sc, c, gt, e);
  a.leaf = leaf;
  a.owner = t8_forest_element_find_owner (f, gt, e, c);
  a.owner_ext = t8_forest_element_find_owner_ext (f, gt, e, c, 0, P - 1, (int) (rnd % P), 0);
  /* the older search through the owners of the tree, which may be kept for more questions */
  a.owner_old = t8_forest_element_find_owner_old (f, gt, e, c, NULL);
  sc_array_t all;
  sc_array_init (&all, sizeof (int));
  a.owner_old2 = t8_forest_element_find_owner_old (f, gt, e, c, &all);
  if (rnd >> 40 & 1) a.owner_old2 = t8_forest_element_find_owner_old (f, gt, e, c, &all);
  sc_array_reset (&all);
  a.checked = -1;
  for (int r = 0; r < P; r++)
    if (t8_forest_element_check_owner (f, e, gt, c, r, 0)) a.checked = a.checked == -1 ? r : -2;
  a.face = (int) ((rnd >> 20) % sc->element_get_num_faces (c, e));
  sc_array_t own;
  sc_array_init (&own, sizeof (int));
  t8_forest_element_owners_at_face (f, gt, e, c, a.face, &own);
  a.at_face = ints (&own);
  /* with bounds known */
  if (!a.at_face.empty ()) {
    sc_array_resize (&own, 2);
    *(int *) sc_array_index (&own, 0) = a.at_face.front ();
    *(int *) sc_array_index (&own, 1) = std::min (P - 1, a.at_face.back () + (int) (rnd >> 30 & 1));
    t8_forest_element_owners_at_face (f, gt, e, c, a.face, &own);
  }
  a.at_face2 = ints (&own);
  a.lo = a.flo = a.nlo = 0;
  a.hi = a.fhi = a.nhi = P - 1;
  t8_forest_element_owners_bounds (f, gt, e, c, &a.lo, &a.hi);
  t8_forest_element_owners_at_face_bounds (f, gt, e, c, a.face, &a.flo, &a.fhi);
  if (leaf) {
    sc_array_truncate (&own);
    t8_forest_element_owners_at_neigh_face (f, lt, e, a.face, &own);
    a.at_neigh = ints (&own);
    t8_forest_element_owners_at_neigh_face_bounds (f, lt, e, a.face, &a.nlo, &a.nhi);
  }
  a.has_desc = lt >= 0 ? t8_forest_element_has_leaf_desc (f, gt, e, c) : -1;
  sc_array_reset (&own);
}
static std::string join (const std::vector<int> &v)
{
  std::string s = "{";
  for (int x : v) s += " " + std::to_string (x);
  return s + " }";
}
static void body09 ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_REFINE_REC, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_OFFSETS, OP_BALANCE, OP_COMBINED };
  Hist h = draw_hist (MESH_PART_OK | MESH_NO_VERTEX, 8, kinds, 0, 4);
  if (!h.ops.empty ()) h.ops.back ().ghost = chance (sim::W, 300) ? 3 : 0;
  uint64_t salt = choose (sim::W, 1u << 30);
  int nask = range (sim::W, 1, 12);
  h.describe ();
  Record rec (h);
  Model M (h.m);
  std::vector<std::vector<OwnerAsk>> asks[2];
  std::vector<GhostSnap> gs[2];
  for (int g = 0; g < 2; g++) { asks[g].resize (h.w.P); gs[g].resize (h.w.P); }
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    const Snap &s = rec.g[c.group][c.step].r[c.rank];
    if (c.op && c.op->ghost) gs[c.group][c.rank] = snap_ghost (c.f);
    const t8_scheme *sc = t8_forest_get_scheme (c.f);
    /* not every process needs to have elements: the offsets are available to all after this */
    if (c.f->element_offsets == nullptr) t8_forest_partition_create_offsets (c.f);
    if (c.f->tree_offsets == nullptr) t8_forest_partition_create_tree_offsets (c.f);
    if (c.f->global_first_desc == nullptr) t8_forest_partition_create_first_desc (c.f);
    uint64_t x = sim::mix (salt ^ (uint64_t) (c.rank * 977 + c.group * 7919 + 1));
    for (int i = 0; i < nask; i++) {
      x = sim::mix (x + 0x9e37);
      OwnerAsk a;
      if (s.leaves.size () && (x & 3) == 0) {
        t8_locidx_t li = (t8_locidx_t) ((x >> 8) % s.leaves.size ()), lt;
        t8_element_t *e = (t8_element_t *) t8_forest_get_leaf_element (c.f, li, &lt);
        ask (c.f, s.tree_ids[lt], lt, t8_forest_get_tree_class (c.f, lt), e, true, sim::mix (x), c.size, a);
      }
      else {
        t8_gloidx_t gt = (t8_gloidx_t) ((x >> 8) % M.cls.size ());
        t8_eclass_t cl = M.cls[gt];
        int lv = (int) ((x >> 40) % 6);
        if (cl == T8_ECLASS_VERTEX) lv = 0;
        Elem root (sc, cl), e (sc, cl);
        sc->element_set_linear_id (cl, root.e, 0, 0);
        t8_gloidx_t n = sc->element_count_leaves (cl, root.e, lv);
        sc->element_set_linear_id (cl, e.e, lv, (t8_linearidx_t) (sim::mix (x + 3) % (uint64_t) n));
        t8_locidx_t lt = t8_forest_get_local_id (c.f, gt);
        if (cl != T8_ECLASS_VERTEX) ask (c.f, gt, lt, cl, e.e, false, sim::mix (x), c.size, a);
        else continue;
      }
      asks[c.group][c.rank].push_back (a);
    }
  }, true);
  for (int g = 0; g < h.groups (); g++) {
    const Step &s = rec.g[g].back ();
    std::vector<Leaf> all = s.global ();
    if (all.empty ()) continue;
    std::vector<int> ow = owner_of (s);
    std::map<std::pair<t8_gloidx_t, t8_linearidx_t>, int> owner;
    for (size_t i = 0; i < all.size (); i++) owner[{ all[i].tree, all[i].first }] = ow[i];
    M.set (all);
    sim::state (hash_leaves (all));
    int P = (int) s.r.size ();
    for (int r = 0; r < P; r++) {
      for (auto &a : asks[g][r]) {
        Elem e (M.s, (t8_eclass_t) a.e.cls);
        set_elem (M.s, a.e, e.e);
        long cov = M.covering (a.e.tree, e.e);
        std::set<int> inside;    /* owners of anything in the element */
        bool desc = false;
        std::set<Leaf> seen (s.r[r].leaves.begin (), s.r[r].leaves.end ());
        seen.insert (gs[g][r].leaves.begin (), gs[g][r].leaves.end ());
        if (cov >= 0) { const Leaf &l = M.trees[a.e.tree][cov]; inside.insert (owner[{ l.tree, l.first }]); }
        else {
          t8_linearidx_t to = M.last_desc (a.e);
          for (auto &l : M.trees[a.e.tree])
            if (l.first >= a.e.first && l.first <= to) { inside.insert (owner[{ l.tree, l.first }]); if (seen.count (l)) desc = true; }
        }
        if (inside.empty ()) fail ("internal", "no owner of %s", a.e.str ().c_str ());
        int first = *inside.begin (), lst = *inside.rbegin ();
        const char *n = a.e.str ().c_str ();
        std::string nm = a.e.str ();
        n = nm.c_str ();
        if (a.owner != first) fail ("owner-wrong", "rank %d says that %s belongs to process %d, it belongs to %d", r, n, a.owner, first);
        if (a.owner_ext != first) fail ("owner-wrong", "rank %d, searching with bounds, says that %s belongs to process %d, it belongs to %d", r, n, a.owner_ext, first);
        if (a.owner_old != first || a.owner_old2 != first) fail ("owner-wrong", "rank %d, searching through the owners of the tree, says that %s belongs to process %d or %d, it belongs to %d", r, n, a.owner_old, a.owner_old2, first);
        if (a.checked != first) fail ("check-owner-wrong", "rank %d: asking for each process whether it owns %s gives %d, owner is %d", r, n, a.checked, first);
        if (a.lo != first || a.hi != lst) fail ("owner-bounds-wrong", "rank %d: the owners of %s are %d to %d, bounds are %d to %d", r, n, first, lst, a.lo, a.hi);
        std::set<int> fo;
        for (auto &x : M.at_face (a.e, a.face)) fo.insert (owner[{ x.tree, x.first }]);
        std::vector<int> want (fo.begin (), fo.end ());
        if (a.at_face != want) fail ("face-owners-wrong", "rank %d: face %d of %s is owned by %s, not %s", r, a.face, n, join (want).c_str (), join (a.at_face).c_str ());
        if (a.at_face2 != want) fail ("face-owners-wrong", "rank %d, with bounds: face %d of %s is owned by %s, not %s", r, a.face, n, join (want).c_str (), join (a.at_face2).c_str ());
        if (a.flo > want.front () || a.fhi < want.back () || a.flo < first || a.fhi > lst) fail ("owner-bounds-wrong", "rank %d: face %d of %s is owned by %s, bounds are %d to %d", r, a.face, n, join (want).c_str (), a.flo, a.fhi);
        if (a.leaf) {
          fo.clear ();
          for (auto &x : M.neighbors (a.e, a.face)) fo.insert (owner[{ x.leaf.tree, x.leaf.first }]);
          want.assign (fo.begin (), fo.end ());
          if (a.at_neigh != want) fail ("face-owners-wrong", "rank %d: the neighbours across face %d of %s are owned by %s, not %s", r, a.face, n, join (want).c_str (), join (a.at_neigh).c_str ());
          if (!want.empty () && (a.nlo > want.front () || a.nhi < want.back ())) fail ("owner-bounds-wrong", "rank %d: the neighbours across face %d of %s are owned by %s, bounds are %d to %d", r, a.face, n, join (want).c_str (), a.nlo, a.nhi);
        }
        if (a.has_desc >= 0 && (a.has_desc != 0) != desc) fail ("leaf-desc-wrong", "rank %d: %s %s finer leaves or ghosts here, reported is %d", r, n, desc ? "has" : "has no", a.has_desc);
      }
    }
  }
}
PROPERTY ("C09", body09)
