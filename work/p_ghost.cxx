/* C05: the ghost layer is exact. C06: ghost data exchange. */
#include "common.hxx"
#include <algorithm>
#include <cstring>

/* what every rank's ghost layer has to be, by brute force */
static std::vector<std::vector<Leaf>> true_ghosts (Model &M, const Step &s)
{
  std::vector<Leaf> all = s.global ();
  std::vector<int> own = owner_of (s);
  M.set (all);
  std::map<Leaf, int> at;
  for (size_t i = 0; i < all.size (); i++) at[all[i]] = own[i];
  std::vector<std::set<Leaf>> g (s.r.size ());
  for (size_t i = 0; i < all.size (); i++) {
    int nf = M.num_faces (all[i]);
    for (int f = 0; f < nf; f++)
      for (auto &n : M.neighbors (all[i], f)) {
        int o = at[n.leaf];
        if (o != own[i]) {
          g[own[i]].insert (n.leaf);
          g[o].insert (all[i]);
        }
      }
  }
  std::vector<std::vector<Leaf>> out;
  for (auto &x : g) out.push_back (std::vector<Leaf> (x.begin (), x.end ()));
  return out;
}
static void check_ghosts (Model &M, const Step &s, const std::vector<GhostSnap> &gs)
{
  std::vector<std::vector<Leaf>> want = true_ghosts (M, s);
  std::vector<Leaf> all = s.global ();
  std::vector<int> own = owner_of (s);
  std::map<Leaf, int> at;
  for (size_t i = 0; i < all.size (); i++) at[all[i]] = own[i];
  for (size_t r = 0; r < gs.size (); r++) {
    const GhostSnap &g = gs[r];
    if (!g.have) fail ("harness", "no ghost snapshot of rank %zu", r);
    std::set<Leaf> have (g.leaves.begin (), g.leaves.end ());
    for (auto &l : want[r])
      if (!have.count (l)) fail ("ghost-missing", "%s: rank %zu lacks the ghost %s of rank %d", s.what.c_str (), r, l.str ().c_str (), at[l]);
    std::set<Leaf> ws (want[r].begin (), want[r].end ());
    for (auto &l : g.leaves)
      if (!ws.count (l)) fail ("ghost-extra", "%s: rank %zu has the ghost %s, which %s", s.what.c_str (), r, l.str ().c_str (), at.count (l) ? "touches none of its leaves" : "is no leaf of the forest");
    if (g.leaves.size () != want[r].size ()) fail ("ghost-twice", "%s: rank %zu holds %zu ghosts, %zu are right", s.what.c_str (), r, g.leaves.size (), want[r].size ());
    std::string d = diff_leaves (want[r], g.leaves);
    if (!d.empty ()) fail ("ghost-order", "%s: ghosts of rank %zu are not in ascending order: %s", s.what.c_str (), r, d.c_str ());
    for (size_t i = 1; i < g.trees.size (); i++)
      if (!(g.trees[i - 1] < g.trees[i])) fail ("ghost-trees", "%s: ghost trees of rank %zu out of order", s.what.c_str (), r);
    std::vector<int> rem, fe, ft;
    for (size_t i = 0; i < g.leaves.size (); i++) {
      int o = at[g.leaves[i]];
      if (rem.empty () || rem.back () != o) {
        rem.push_back (o);
        fe.push_back ((int) i);
        ft.push_back ((int) (std::lower_bound (g.trees.begin (), g.trees.end (), g.leaves[i].tree) - g.trees.begin ()));
      }
    }
    if (rem != g.remotes) fail ("ghost-remotes", "%s: rank %zu lists %zu remote ranks, its ghosts belong to %zu", s.what.c_str (), r, g.remotes.size (), rem.size ());
    for (size_t i = 0; i < rem.size (); i++) {
      if (fe[i] != g.first_elem[i]) fail ("ghost-remote-first", "%s: rank %zu: the ghosts of rank %d start at %d, reported %d", s.what.c_str (), r, rem[i], fe[i], g.first_elem[i]);
      if (ft[i] != g.first_tree[i]) fail ("ghost-remote-first", "%s: rank %zu: the ghost trees of rank %d start at %d, reported %d", s.what.c_str (), r, rem[i], ft[i], g.first_tree[i]);
    }
  }
}
static const std::vector<int> ghost_kinds = { OP_REFINE, OP_REFINE_REC, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_REFINE, OP_BALANCE, OP_COMBINED, OP_COPY, OP_BALANCE_NOREP };
static void body05 ()
{
  Hist h = draw_hist (MESH_PART_OK, 6, ghost_kinds, 0, 4);
  Op last = draw_op (chance (sim::W, 500) ? OP_COPY : ghost_kinds[choose (sim::W, (uint32_t) ghost_kinds.size ())], h.m);
  h.ops.push_back (last);
  for (size_t i = 0; i < h.ops.size (); i++) {
    Op &o = h.ops[i];
    o.ghost = i + 1 == h.ops.size () || chance (sim::W, 300) ? 3 : 0;
    if (o.ghost && chance (sim::W, 200)) o.ghost = 2;   /* the other algorithms */
    bool bal = o.kind == OP_BALANCE || o.kind == OP_BALANCE_NOREP || (o.kind == OP_COMBINED && (o.flag & 2));
    if (o.ghost && bal && chance (sim::W, 400)) o.ghost = 1;
  }
  h.describe ();
  Record rec (h);
  std::vector<std::vector<GhostSnap>> gs[2];
  for (int g = 0; g < 2; g++) gs[g].resize (h.ops.size () + 1, std::vector<GhostSnap> (h.w.P));
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    if (c.op && c.op->ghost) gs[c.group][c.step][c.rank] = snap_ghost (c.f);
  });
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++)
    for (size_t i = 1; i <= h.ops.size (); i++)
      if (h.ops[i - 1].ghost) {
        gs[g][i].resize (h.w.size (g));
        if (h.w.size (g) > 1) check_ghosts (M, rec.g[g][i], gs[g][i]);
        sim::state (hash_leaves (rec.g[g][i].global ()) ^ hash_leaves (gs[g][i][0].leaves));
      }
}
PROPERTY ("C05", body05)

/* C06 */
static void fill (char *p, size_t n, const Leaf &l, int round)
{
  uint64_t x = sim::mix ((uint64_t) l.tree * 1000003 + (uint64_t) l.level * 101 + l.id * 31 + (uint64_t) round * 7777777);
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = sim::mix (x + i); p[i] = (char) (x >> (8 * (i % 8))); }
}
static void body06 ()
{
  Hist h = draw_hist (MESH_PART_OK, 6, ghost_kinds, 0, 3);
  h.ops.push_back (draw_op (chance (sim::W, 500) ? OP_COPY : ghost_kinds[choose (sim::W, (uint32_t) ghost_kinds.size ())], h.m));
  for (size_t i = 0; i < h.ops.size (); i++) {
    Op &o = h.ops[i];
    o.ghost = i + 1 == h.ops.size () || chance (sim::W, 250) ? 3 : 0;
    if (o.ghost && chance (sim::W, 150)) o.ghost = o.kind == OP_BALANCE || o.kind == OP_BALANCE_NOREP ? 1 : 2;
  }
  int rounds = range (sim::W, 1, 4);
  static const int sizes[] = { 1, 8, 3, 4, 16, 24, 40, 100, 7, 1000 };
  std::vector<int> sz;
  for (int i = 0; i < rounds; i++) sz.push_back (sizes[choose (sim::W, 10)]);
  h.describe ();
  sim::note ("%d exchanges", rounds);
  run_hist (h, [&] (HistCtx &c) {
    if (!c.op || !c.op->ghost) return;
    Snap s = snap_forest (c.f);
    GhostSnap g = snap_ghost (c.f);
    size_t nl = s.leaves.size (), ng = g.leaves.size ();
    for (int k = 0; k < rounds; k++) {
      sc_array_t a;
      sc_array_init_size (&a, sz[k], nl + ng);
      for (size_t i = 0; i < nl; i++) fill ((char *) sc_array_index (&a, i), sz[k], s.leaves[i], k);
      for (size_t i = 0; i < ng; i++) memset (sc_array_index (&a, nl + i), 0x5a + k, sz[k]);
      t8_forest_ghost_exchange_data (c.f, &a);
      /* the user may overwrite its data at once */
      std::vector<char> want (sz[k]);
      for (size_t i = 0; i < nl + ng; i++) {
        const Leaf &l = i < nl ? s.leaves[i] : g.leaves[i - nl];
        fill (want.data (), sz[k], l, k);
        if (memcmp (want.data (), sc_array_index (&a, i), sz[k])) {
          std::string what = "foreign or stale bytes";
          for (size_t j = 0; j < nl + ng; j++) {
            std::vector<char> o (sz[k]);
            fill (o.data (), sz[k], j < nl ? s.leaves[j] : g.leaves[j - nl], k);
            if (sz[k] >= 8 && !memcmp (o.data (), sc_array_index (&a, i), sz[k])) what = "the data of " + (j < nl ? s.leaves[j] : g.leaves[j - nl]).str ();
          }
          fail (i < nl ? "local-data-changed" : "ghost-data-wrong", "rank %d, exchange %d of %d byte items: the entry of %s %s holds %s", sim::rank (), k, sz[k], i < nl ? "local leaf" : "ghost", l.str ().c_str (), what.c_str ());
        }
      }
      memset (a.array, 0xee, a.elem_count * a.elem_size);
      sc_array_reset (&a);
    }
    sim::state (hash_leaves (s.leaves) ^ hash_leaves (g.leaves) * 3);
  });
}
PROPERTY ("C06", body06)
