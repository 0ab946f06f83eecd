/* C07: element data follows its elements. */
#include "common.hxx"
#include <cstring>

static void fill (char *p, size_t n, const Leaf &l, uint64_t salt)
{
  uint64_t x = sim::mix ((uint64_t) l.tree * 1000003 + (uint64_t) l.level * 101 + l.id * 31 + salt * 7777777);
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = sim::mix (x + i); p[i] = (char) (x >> (8 * (i % 8))); }
}
static void body07 ()
{
  const std::vector<int> parts = { OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_OFFSETS };
  Hist h = draw_hist (MESH_PART_OK, 7, { OP_REFINE, OP_COARSEN, OP_OFFSETS, OP_PARTITION, OP_REFINE, OP_WEIGHT, OP_REMOVE }, 0, 3);
  int np = range (sim::W, 1, 3);
  size_t first = h.ops.size ();
  for (int i = 0; i < np; i++) h.ops.push_back (draw_op (parts[choose (sim::W, (uint32_t) parts.size ())], h.m));
  limit_removed (h.ops);
  static const int sizes[] = { 8, 1, 3, 4, 16, 24, 100, 7, 1000 };
  int nd = range (sim::W, 1, 3);
  std::vector<int> sz;
  for (int i = 0; i < nd; i++) sz.push_back (sizes[choose (sim::W, 9)]);
  h.describe ();
  sim::note ("%d arrays move with each of the last %d partitions", nd, np);
  run_hist (h, [&] (HistCtx &c) {
    if (c.step <= (int) first) return;
    Snap a = snap_forest (c.old), b = snap_forest (c.f);
    for (int k = 0; k < nd; k++) {
      sc_array_t in, out;
      sc_array_init_size (&in, sz[k], a.leaves.size ());
      sc_array_init_size (&out, sz[k], b.leaves.size ());
      for (size_t i = 0; i < a.leaves.size (); i++) fill ((char *) sc_array_index (&in, i), sz[k], a.leaves[i], k);
      if (out.elem_count) memset (out.array, 0x77, out.elem_count * out.elem_size);
      t8_forest_partition_data (c.old, c.f, &in, &out);
      std::vector<char> want (sz[k]);
      for (size_t i = 0; i < b.leaves.size (); i++) {
        fill (want.data (), sz[k], b.leaves[i], k);
        if (memcmp (want.data (), sc_array_index (&out, i), sz[k]))
          fail ("data-wrong", "rank %d: array %d (%d byte items): the item of leaf %zu of %zu, %s, is not the one its old owner had", sim::rank (), k, sz[k], i, b.leaves.size (), b.leaves[i].str ().c_str ());
      }
      for (size_t i = 0; i < a.leaves.size (); i++) {
        fill (want.data (), sz[k], a.leaves[i], k);
        if (memcmp (want.data (), sc_array_index (&in, i), sz[k])) fail ("input-changed", "rank %d: the input of partition_data was changed at %zu", sim::rank (), i);
      }
      if (in.elem_count) memset (in.array, 0xee, in.elem_count * in.elem_size);   /* free to be reused now */
      sc_array_reset (&in);
      sc_array_reset (&out);
    }
    sim::state (hash_leaves (b.leaves) ^ (uint64_t) c.rank);
  });
}
PROPERTY ("C07", body07)
