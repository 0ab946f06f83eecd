/* C26: forests live side by side: a committed forest stays what it was, whatever is derived from it and in whatever
 * order the others are released, and deriving twice gives the same. */
#include "common.hxx"
#include <cstring>

namespace
{
struct Node
{
  int parent = -1, twin = -1;         /* twin: made by the same operation from the same forest */
  Op op;
  std::vector<Op> path;               /* operations since the uniform forest */
};
struct Act { int kind, a; };          /* 0 make node a, 1 release node a, 2 look at node a, 3 ghost exchange on node a */
struct Seen
{
  Snap s;
  GhostSnap g;
  bool ghosts = false;
  std::vector<double> x;
  void *user = nullptr;
};
std::vector<double> corners (t8_forest_t f)
{
  std::vector<double> x;
  const t8_scheme *s = t8_forest_get_scheme (f);
  for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); t++) {
    const t8_eclass_t c = t8_forest_get_tree_class (f, t);
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); i++) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, t, i);
      const int n = s->element_get_num_corners (c, e);
      for (int k = 0; k < n; k++) {
        double y[3];
        t8_forest_element_coordinate (f, t, e, k, y);
        x.insert (x.end (), y, y + 3);
      }
    }
  }
  return x;
}
Seen look (t8_forest_t f, bool ghosts, bool xs)
{
  Seen s;
  s.s = snap_forest (f);
  s.ghosts = ghosts;
  if (ghosts) s.g = snap_ghost (f);
  if (xs) s.x = corners (f);
  s.user = t8_forest_get_user_data (f);
  return s;
}
bool has_ghosts (const Op &o) { return o.ghost || o.kind == OP_GHOST; }
void same (const Seen &a, const Seen &b, int rank, int node, const char *when)
{
  std::string d = diff_leaves (a.s.leaves, b.s.leaves);
  if (!d.empty ()) fail ("forest-changed", "rank %d: forest %d %s: its leaves are others: %s", rank, node, when, d.c_str ());
  if (a.s.tree_ids != b.s.tree_ids || a.s.global != b.s.global || a.s.first != b.s.first || a.s.first_tree != b.s.first_tree)
    fail ("forest-changed", "rank %d: forest %d %s: its trees or its global numbers are others", rank, node, when);
  if (a.ghosts && b.ghosts) {
    d = diff_leaves (a.g.leaves, b.g.leaves);
    if (!d.empty ()) fail ("forest-changed", "rank %d: forest %d %s: its ghosts are others: %s", rank, node, when, d.c_str ());
    if (a.g.trees != b.g.trees || a.g.remotes != b.g.remotes || a.g.first_tree != b.g.first_tree || a.g.first_elem != b.g.first_elem)
      fail ("forest-changed", "rank %d: forest %d %s: its ghost trees or the processes they come from are others", rank, node, when);
  }
  if (a.x.size () != b.x.size () || (!a.x.empty () && memcmp (a.x.data (), b.x.data (), a.x.size () * sizeof (double))))
    fail ("forest-changed", "rank %d: forest %d %s: its leaves lie elsewhere", rank, node, when);
}
uint64_t value (const Leaf &l, int salt) { return sim::mix ((uint64_t) l.tree * 77 + (uint64_t) l.level * 1001 + l.id * 13 + (uint64_t) salt); }

void body26 ()
{
  static const int kinds[] = { OP_REFINE, OP_COARSEN, OP_PARTITION, OP_BALANCE, OP_OFFSETS, OP_COPY, OP_GHOST, OP_COMBINED, OP_MIXED, OP_WEIGHT, OP_PFC, OP_BALANCE_NOREP, OP_REFINE_REC, OP_REMOVE, OP_COARSEN_REC };
  const bool xs = chance (sim::W, 500);
  Hist h = draw_hist (xs ? MESH_PART_OK | MESH_GEOM : MESH_PART_OK, 6, { OP_COPY }, 0, 0);
  std::vector<Node> nodes (1);
  std::vector<int> live = { 0 };
  std::vector<Act> acts = { { 0, 0 } };
  const int n = range (sim::W, 2, 7);
  for (int i = 0; i < n; i++) {
    Node k;
    k.parent = live[choose (sim::W, (uint32_t) live.size ())];
    int sib = -1;
    for (size_t j = 1; j < nodes.size (); j++) if (nodes[j].parent == k.parent) sib = (int) j;
    if (sib >= 0 && chance (sim::W, 350)) {
      k.op = nodes[sib].op;
      k.path = nodes[sib].path;
      k.twin = sib;
      if (chance (sim::W, 300)) k.op.prof = !k.op.prof;   /* profiling must not matter */
    }
    else {
      k.path = nodes[k.parent].path;
      k.path.push_back (draw_op (kinds[choose (sim::W, 15)], h.m));
      if (chance (sim::W, 300)) k.path.back ().ghost = 3;
      limit_removed (k.path);
      k.op = k.path.back ();
    }
    nodes.push_back (k);
    live.push_back ((int) nodes.size () - 1);
    acts.push_back ({ 0, (int) nodes.size () - 1 });
    if (live.size () > 1 && chance (sim::W, 400)) {
      int j = choose (sim::W, (uint32_t) live.size ());
      acts.push_back ({ 1, live[j] });
      live.erase (live.begin () + j);
    }
    if (chance (sim::W, 400)) acts.push_back ({ 2, live[choose (sim::W, (uint32_t) live.size ())] });
    if (chance (sim::W, 400)) {
      int j = live[choose (sim::W, (uint32_t) live.size ())];
      if (j && has_ghosts (nodes[j].op)) acts.push_back ({ 3, j });
    }
  }
  for (int j : live) acts.push_back ({ 2, j });
  while (!live.empty ()) {
    int j = choose (sim::W, (uint32_t) live.size ());
    acts.push_back ({ 1, live[j] });
    live.erase (live.begin () + j);
    if (!live.empty ()) acts.push_back ({ 2, live[choose (sim::W, (uint32_t) live.size ())] });
  }
  h.describe ();
  for (auto &a : acts) {
    const Node &k = nodes[a.a];
    if (a.kind == 0 && k.parent < 0) sim::note ("forest 0: uniform level %d", h.level);
    else if (a.kind == 0) sim::note ("forest %d: from forest %d by %s%s", a.a, k.parent, k.op.str ().c_str (), k.twin >= 0 ? " (once more)" : "");
    else sim::note ("%s forest %d", a.kind == 1 ? "release" : a.kind == 2 ? "look at" : "ghost exchange on", a.a);
  }
  run_world (h.w, [&] (sc_MPI_Comm comm, int) {
    int rank;
    sc_MPI_Comm_rank (comm, &rank);
    std::vector<t8_forest_t> f (nodes.size (), nullptr);
    std::vector<Seen> first (nodes.size ());
    std::vector<char> mark (nodes.size ());
    for (auto &a : acts) {
      const Node &k = nodes[a.a];
      switch (a.kind) {
      case 0:
        if (k.parent < 0) f[a.a] = t8_forest_new_uniform (build_cmesh (h.m, comm), new_scheme (h.m), h.level, 0, comm);
        else {
          t8_forest_ref (f[k.parent]);
          f[a.a] = apply_op (f[k.parent], k.op);
        }
        t8_forest_set_user_data (f[a.a], &mark[a.a]);
        first[a.a] = look (f[a.a], k.parent >= 0 && has_ghosts (k.op), xs);
        if (k.parent >= 0) same (first[k.parent], look (f[k.parent], first[k.parent].ghosts, xs), rank, k.parent, "after another one was made from it");
        if (k.twin >= 0) {
          same (first[k.twin], first[a.a], rank, a.a, "made by the same operation from the same forest as an earlier one");
          if (f[k.twin] && !t8_forest_is_equal (f[k.twin], f[a.a])) fail ("forest-changed", "rank %d: forests %d and %d have the same leaves, t8_forest_is_equal denies it", rank, k.twin, a.a);
        }
        sim::state (hash_leaves (first[a.a].s.leaves) ^ (uint64_t) rank);
        break;
      case 1:
        t8_forest_unref (&f[a.a]);
        f[a.a] = nullptr;
        break;
      case 2: {
        Seen now = look (f[a.a], first[a.a].ghosts, xs);
        same (first[a.a], now, rank, a.a, "later");
        if (now.user != &mark[a.a]) fail ("forest-changed", "rank %d: forest %d lost its user data", rank, a.a);
        break;
      }
      case 3: {
        const std::vector<Leaf> &l = first[a.a].s.leaves, &g = first[a.a].g.leaves;
        sc_array_t d;
        sc_array_init_size (&d, 8, l.size () + g.size ());
        if (d.elem_count) memset (d.array, 0x5a, d.elem_count * 8);
        for (size_t i = 0; i < l.size (); i++) *(uint64_t *) sc_array_index (&d, i) = value (l[i], a.a);
        t8_forest_ghost_exchange_data (f[a.a], &d);
        for (size_t i = 0; i < g.size (); i++)
          if (*(uint64_t *) sc_array_index (&d, l.size () + i) != value (g[i], a.a)) fail ("ghost-data", "rank %d: forest %d: ghost %zu, %s, has not got its owner's value", rank, a.a, i, g[i].str ().c_str ());
        sc_array_reset (&d);
        break;
      }
      }
    }
  });
}
}
PROPERTY ("C26", body26)
