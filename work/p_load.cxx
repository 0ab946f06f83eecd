/* C02: the load distribution that was asked for. C11: families stay together. */
#include "common.hxx"
#include <cmath>

/* n: leaves of each process, all: the leaves they are taken from */
static void check_weights (const std::vector<Leaf> &all, const std::vector<long> &n, const Op &op)
{
  const long N = (long) all.size ();
  const int P = (int) n.size ();
  std::vector<long double> pre (N + 1, 0);
  for (long i = 0; i < N; i++) pre[i + 1] = pre[i] + weight_of (op, all[i]);
  long double W = pre[N], eps = 1e-9L * W;
  long at = 0;
  for (int r = 0; r < P; r++) {
    long double ideal = W * r / P;
    if (pre[at] > ideal + eps) fail ("overweight", "weighted partition: rank %d starts at leaf %ld, weight before it %Lg, its share starts at %Lg of %Lg", r, at, pre[at], ideal, W);
    if (at < N && pre[at + 1] < ideal - eps) fail ("underweight", "weighted partition: rank %d starts at leaf %ld, weight up to and including it is only %Lg, its share starts at %Lg of %Lg", r, at, pre[at + 1], ideal, W);
    at += n[r];
  }
}
static void check_equal (const std::vector<long> &n, const char *what)
{
  const int P = (int) n.size ();
  long N = 0;
  for (long k : n) N += k;
  for (int r = 0; r < P; r++)
    if (n[r] != N / P && n[r] != N / P + (N % P != 0)) fail ("unequal", "%s of %ld leaves over %d processes gave rank %d %ld leaves", what, N, P, r, n[r]);
}
/* adapt, then partition, then balance, in one commit */
static void check_combined (const Step &before, const Step &after, const Op &op, const Model &M)
{
  if (!(op.flag & 1) && !((op.flag & 2) && !(op.flag & 4))) return;
  std::vector<Leaf> all;
  long total = 0;
  for (auto &s : before.r) total += (long) s.leaves.size ();
  for (auto &s : before.r) { auto v = M.adapt (s.leaves, op, total); all.insert (all.end (), v.begin (), v.end ()); }
  std::vector<long> n;
  if ((op.flag & 2) && !(op.flag & 4)) {      /* balanced with repartition: the partition before it does not matter any more */
    for (auto &s : after.r) n.push_back ((long) s.leaves.size ());
    check_equal (n, "balance with repartition");
    return;
  }
  size_t at = 0;
  for (size_t r = 0; r < after.r.size (); r++) {
    long k = 0;
    for (auto &l : after.r[r].leaves) {
      if (k > 0 && M.inside (l, all[at - 1])) continue;
      if (at >= all.size () || !M.inside (l, all[at])) fail ("not-as-asked", "rank %zu holds %s, which the adapted mesh does not have there", r, l.str ().c_str ());
      at++, k++;
    }
    n.push_back (k);
  }
  if (at != all.size ()) fail ("not-as-asked", "%zu of the %zu leaves of the adapted mesh are there", at, all.size ());
  if (op.pfc_base == 1) check_weights (all, n, op);
  else check_equal (n, "equal partition");
}
static void check_counts (const Step &before, const Step &after, const Op &op, const Model &M)
{
  int P = (int) after.r.size ();
  std::vector<Leaf> all = before.global ();
  long N = (long) all.size ();
  if (op.kind == OP_COMBINED) check_combined (before, after, op, M);
  else if (op.kind == OP_BALANCE) {
    std::vector<long> n;
    for (auto &s : after.r) n.push_back ((long) s.leaves.size ());
    check_equal (n, "balance with repartition");
  }
  else if (op.kind == OP_PARTITION) {
    for (int r = 0; r < P; r++) {
      long n = (long) after.r[r].leaves.size ();
      if (n != N / P && n != N / P + (N % P != 0)) fail ("unequal", "equal partition of %ld leaves over %d processes gave rank %d %ld leaves", N, P, r, n);
    }
  }
  else if (op.kind == OP_OFFSETS) {
    std::vector<t8_gloidx_t> o = cut_offsets (op, N, P);
    o.push_back (N);
    for (int r = 0; r < P; r++) {
      long n = (long) after.r[r].leaves.size ();
      if (n != o[r + 1] - o[r]) fail ("offset-ignored", "prescribed offsets give rank %d leaves %lld..%lld, it holds %ld leaves from %lld on", r, (long long) o[r], (long long) o[r + 1] - 1, n, (long long) after.r[r].first);
    }
  }
  else if (op.kind == OP_WEIGHT) {
    std::vector<long> n;
    for (auto &s : after.r) n.push_back ((long) s.leaves.size ());
    check_weights (all, n, op);
  }
}
static void body02 ()
{
  Hist h = draw_hist (MESH_PART_OK, 8, { OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_WEIGHT, OP_REFINE, OP_COARSEN, OP_REFINE, OP_COMBINED, OP_BALANCE }, 1, 5);
  static const int part[] = { OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_WEIGHT, OP_COMBINED };
  h.ops.push_back (draw_op (part[choose (sim::W, 5)], h.m));
  for (auto &o : h.ops) {
    if (o.kind == OP_COMBINED && chance (sim::W, 600)) o.pfc_base = 1;
    if ((o.kind == OP_WEIGHT || o.pfc_base == 1) && chance (sim::W, 250)) o.flag |= chance (sim::W, 250) ? 128 : 64;   /* leaves without weight */
  }
  h.describe ();
  Record rec (h);
  run_hist (h, [&] (HistCtx &c) { rec.add (c); });
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++)
    for (size_t i = 0; i < h.ops.size (); i++) {
      check_consistent (rec.g[g][i + 1], "inconsistent");
      check_counts (rec.g[g][i], rec.g[g][i + 1], h.ops[i], M);
      sim::state (hash_leaves (rec.g[g][i + 1].global ()));
    }
}
PROPERTY ("C02", body02)

/* C11 */
static void body11 ()
{
  Hist h = draw_hist (MESH_PART_OK, 8, { OP_PARTITION, OP_OFFSETS, OP_PFC, OP_WEIGHT, OP_REFINE, OP_COARSEN, OP_REFINE }, 0, 4);
  h.ops.push_back (draw_op (chance (sim::W, 200) ? OP_COMBINED : OP_PFC, h.m));
  for (auto &o : h.ops)
    if (o.kind == OP_COMBINED) {
      /* adapt, partition for coarsening, and perhaps balance where the leaves are */
      o.fam = true;
      o.flag |= 5;
      if (chance (sim::W, 300)) o.pfc_base = 1;
    }
  for (auto &o : h.ops) if ((o.kind == OP_WEIGHT || o.kind == OP_PFC) && chance (sim::W, 150)) o.flag |= 64;
  h.describe ();
  Record rec (h);
  run_hist (h, [&] (HistCtx &c) { rec.add (c); });
  Model M (h.m);
  for (int g = 0; g < h.groups (); g++)
    for (size_t i = 0; i < h.ops.size (); i++) {
      const bool comb = h.ops[i].kind == OP_COMBINED;
      if (h.ops[i].kind != OP_PFC && !comb) continue;
      const Step &s = rec.g[g][i + 1];
      check_consistent (s, "inconsistent");
      std::vector<Leaf> all = s.global ();
      long N = (long) all.size ();
      if (N == 0) continue;
      std::string d = comb ? "" : diff_leaves (rec.g[g][i].global (), all);
      if (!d.empty ()) fail ("leaves-changed", "%s", d.c_str ());
      int P = (int) s.r.size ();
      /* families: begin and end of the complete family of each leaf */
      std::vector<long> fb (N, -1), fe (N, -1);
      for (long k = 0; k < N; k++) {
        if (fb[k] >= 0 || all[k].level == 0) continue;
        std::vector<Leaf> sib;
        M.children (M.parent (all[k]), sib);
        long n = (long) sib.size ();
        bool full = k + n <= N;
        for (long j = 0; j < n && full; j++) full = all[k + j] == sib[j];
        if (full) for (long j = 0; j < n; j++) { fb[k + j] = k; fe[k + j] = k + n; }
      }
      /* boundaries asked for */
      std::vector<long> want (P, 0);
      bool exact = h.ops[i].pfc_base != 1 || h.ops[i].mode <= 2;
      if (comb && (h.ops[i].flag & 2)) exact = false;            /* balance has refined the leaves since */
      if (h.ops[i].pfc_base == 2) { auto o = cut_offsets (h.ops[i], N, P); for (int r = 0; r < P; r++) want[r] = (long) o[r]; }
      else if (h.ops[i].pfc_base == 1) {
        std::vector<long double> pre (N + 1, 0);
        for (long k = 0; k < N; k++) pre[k + 1] = pre[k] + weight_of (h.ops[i], all[k]);
        for (int r = 1; r < P; r++) { long k = 0; while (k < N && pre[k + 1] * P <= pre[N] * r) k++; want[r] = k; }
      }
      else for (int r = 0; r < P; r++) want[r] = N * r / P;
      long at = 0;
      for (int r = 0; r < P; r++) {
        if (at > 0 && at < N && fb[at] >= 0 && fb[at] != at)
          fail ("family-split", "the complete family of leaves %ld..%ld is split before leaf %ld: it belongs to rank %d and the rank before", fb[at], fe[at] - 1, at, r);
        if (exact) {
          long w = want[r];
          bool ok = at == w;
          if (!ok && w < N && fb[w] >= 0 && fb[w] < w) ok = at == fb[w] || at == fe[w];
          if (!ok) fail ("boundary-moved", "rank %d was to start at leaf %ld of %ld, it starts at %ld, which is not explained by a family split there", r, w, N, at);
        }
        at += (long) s.r[r].leaves.size ();
      }
      sim::state (hash_leaves (all) ^ i);
    }
}
PROPERTY ("C11", body11)
