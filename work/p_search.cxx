/* C10: searching the distributed mesh. */
#include "common.hxx"
#include <algorithm>
#include <t8_forest/t8_forest_iterate.h>
#include <t8_forest/t8_forest_search/t8_forest_search.hxx>

namespace
{
struct Point { t8_gloidx_t tree; t8_linearidx_t at; int id; };   /* a place in the mesh */
struct Visit
{
  Leaf e;
  bool leaf;
  int first, n;
  std::vector<int> active;       /* queries asked here */
  bool operator== (const Visit &o) const { return e == o.e && leaf == o.leaf && first == o.first && n == o.n && active == o.active; }
  std::string str () const
  {
    std::string s = e.str () + (leaf ? " leaf" : "") + " leaves " + std::to_string (first) + "+" + std::to_string (n) + " queries";
    for (int a : active) s += " " + std::to_string (a);
    return s;
  }
};
struct Ctx
{
  std::vector<Visit> v;
  const std::vector<Point> *pts;
  uint32_t salt;
  int prune;        /* per mille of elements where the search is stopped */
  int extra;        /* per mille of wrong matches */
};
/* decisions depend on the element only */
bool go_on (const Ctx &c, const Leaf &e) { return (int) (sim::mix (c.salt ^ sim::mix (e.tree * 131 + e.first + 7 * e.level)) % 1000) >= c.prune; }
bool in (const t8_scheme *s, const Leaf &l, const t8_element_t *e, const Point &p)
{
  if (p.tree != l.tree || p.at < l.first) return false;
  Elem d (s, (t8_eclass_t) l.cls);
  s->element_get_last_descendant ((t8_eclass_t) l.cls, e, d.e, s->get_maxlevel ((t8_eclass_t) l.cls));
  return p.at <= s->element_get_linear_id ((t8_eclass_t) l.cls, d.e, s->get_maxlevel ((t8_eclass_t) l.cls));
}
bool match (const Ctx &c, const t8_scheme *s, const Leaf &l, const t8_element_t *e, int q)
{
  if (in (s, l, e, (*c.pts)[q])) return true;
  return (int) (sim::mix (c.salt + 77 * q ^ sim::mix (l.tree * 131 + l.first + 7 * l.level)) % 1000) < c.extra;
}
Leaf leaf_of (t8_forest_t f, t8_locidx_t lt, const t8_element_t *e)
{
  return make_leaf (t8_forest_get_scheme (f), t8_forest_get_tree_class (f, lt), t8_forest_global_tree_id (f, lt), e);
}
bool seen (Ctx *c, t8_forest_t f, t8_locidx_t lt, const t8_element_t *e, bool is_leaf, const t8_element_array_t *leaves, t8_locidx_t first)
{
  Visit v { leaf_of (f, lt, e), is_leaf, (int) first, (int) t8_element_array_get_count (leaves), {} };
  /* the leaves handed over are those of the tree, from the index on */
  for (int i = 0; i < v.n; i++) {
    const t8_element_t *a = t8_element_array_index_locidx (leaves, i), *b = t8_forest_get_leaf_element_in_tree (f, lt, first + i);
    if (leaf_of (f, lt, a) != leaf_of (f, lt, b)) fail ("leaf-index-wrong", "rank %d: at %s the leaf %d handed over is %s, leaf %d of the tree is %s", sim::rank (), v.e.str ().c_str (), i, leaf_of (f, lt, a).str ().c_str (), (int) first + i, leaf_of (f, lt, b).str ().c_str ());
  }
  c->v.push_back (v);
  return go_on (*c, v.e);
}
int c_elem (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int is_leaf, const t8_element_array_t *leaves, const t8_locidx_t first)
{
  return seen ((Ctx *) t8_forest_get_user_data (f), f, lt, e, is_leaf, leaves, first);
}
void c_query (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int, const t8_element_array_t *, const t8_locidx_t, sc_array_t *queries, sc_array_t *idx, int *m, const size_t n)
{
  Ctx *c = (Ctx *) t8_forest_get_user_data (f);
  Leaf l = leaf_of (f, lt, e);
  for (size_t i = 0; i < n; i++) {
    int q = (int) *(size_t *) sc_array_index (idx, i);
    if (((Point *) sc_array_index (queries, q))->at != (*c->pts)[q].at) fail ("query-wrong", "query %d is not the one that was given", q);
    c->v.back ().active.push_back (q);
    m[i] = match (*c, t8_forest_get_scheme (f), l, e, q);
  }
}
/* what a search has to do, from the leaves of one tree */
void expect (const Model &M, const Ctx &c, const std::vector<Leaf> &t, size_t a, size_t b, const Leaf &e, bool queries, const std::vector<int> &active, std::vector<Visit> &out)
{
  if (a == b || (queries && active.empty ())) return;
  Visit v { e, b - a == 1 && t[a] == e, (int) a, (int) (b - a), {} };
  out.push_back (v);
  size_t at = out.size () - 1;
  if (!go_on (c, e)) return;
  std::vector<int> next;
  if (queries) {
    out[at].active = active;
    Elem x (M.s, (t8_eclass_t) e.cls);
    set_elem (M.s, e, x.e);
    for (int q : active) if (match (c, M.s, e, x.e, q)) next.push_back (q);
  }
  if (v.leaf) return;
  std::vector<Leaf> ch;
  M.children (e, ch);
  size_t i = a;
  for (auto &x : ch) {
    t8_linearidx_t last = M.last_desc (x);
    size_t j = i;
    while (j < b && t[j].first <= last) j++;
    expect (M, c, t, i, j, x, queries, next, out);
    i = j;
  }
}
void body10 ()
{
  const std::vector<int> kinds = { OP_REFINE, OP_REFINE_REC, OP_COARSEN, OP_PARTITION, OP_OFFSETS, OP_WEIGHT, OP_PFC, OP_OFFSETS, OP_BALANCE, OP_COMBINED, OP_REMOVE };
  Hist h = draw_hist (MESH_PART_OK, 6, kinds, 0, 4);
  bool removed = false;
  limit_removed (h.ops);
  for (auto &o : h.ops) removed = removed || o.kind == OP_REMOVE;
  int api = range (sim::W, 0, 4);      /* C without and with queries, classes plain, with queries, with batches */
  Ctx proto;
  proto.salt = choose (sim::W, 1u << 30);
  static const int pr[] = { 0, 0, 200, 500 };
  proto.prune = pr[choose (sim::W, 4)];
  proto.extra = pr[choose (sim::W, 4)];
  int reuse = chance (sim::W, 300) ? range (sim::W, 1, 5) : 0;
  Model M (h.m);
  std::vector<Point> pts;
  int np = range (sim::W, 0, 8);
  if (chance (sim::W, 30)) np = range (sim::W, 20, 200);
  for (int i = 0; i < np; i++) {
    uint64_t x = sim::mix (choose (sim::W, 1u << 30));
    t8_gloidx_t t = (t8_gloidx_t) (x % M.cls.size ());
    t8_eclass_t c = M.cls[t];
    Elem root (M.s, c), d (M.s, c);
    M.s->element_set_linear_id (c, root.e, 0, 0);
    M.s->element_get_last_descendant (c, root.e, d.e, M.s->get_maxlevel (c));
    t8_linearidx_t last = M.s->element_get_linear_id (c, d.e, M.s->get_maxlevel (c));
    pts.push_back ({ t, last + 1 ? sim::mix (x) % (last + 1) : sim::mix (x), i });
  }
  bool queries = api == 1 || api >= 3;
  h.describe ();
  sim::note ("search variant %d, stop at %d/1000, %d queries, %d/1000 extra matches%s", api, proto.prune, np, proto.extra, reuse ? ", the search object has been used before" : "");
  Record rec (h);
  std::vector<Ctx> ctx[2];
  for (int g = 0; g < 2; g++) ctx[g].assign (h.w.P, proto);
  run_hist (h, [&] (HistCtx &c) {
    rec.add (c);
    Ctx *x = &ctx[c.group][c.rank];
    x->pts = &pts;
    if (t8_forest_get_global_num_leaf_elements (c.f) == 0) return;
    const t8_scheme *sc = t8_forest_get_scheme (c.f);
    check_face_walk (c.f, proto.salt + 97 * c.rank, 3);
    if (api <= 1) {
      t8_forest_set_user_data (c.f, x);
      sc_array_t q;
      sc_array_init_size (&q, sizeof (Point), pts.size ());
      if (pts.size ()) memcpy (q.array, pts.data (), pts.size () * sizeof (Point));
      t8_forest_search (c.f, c_elem, queries ? c_query : NULL, queries ? &q : NULL);
      sc_array_reset (&q);
    }
    else {
      auto elem = [] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool is_leaf, const t8_element_array_t *leaves, const t8_locidx_t first, Ctx *u) { return seen (u, f, lt, e, is_leaf, leaves, first); };
      /* a used search object: it has searched this forest for other points, and for someone else */
      std::vector<Point> other;
      for (int i = 0; i < (reuse > 1 ? reuse : 0); i++) other.push_back ({ 0, 0, i });
      std::vector<Point> keep = other;
      Ctx old = proto;
      old.pts = &other;
      old.prune = 300;
      if (api == 2) {
        t8_search<Ctx> s (elem, c.f, reuse ? &old : x);
        if (reuse) {
          s.do_search ();
          s.update_user_data (x);
          if (reuse > 2) s.update_forest (c.f);
        }
        s.do_search ();
      }
      else if (api == 3) {
        auto query = [sc] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool, const t8_element_array_t *, const t8_locidx_t, const Point &p, Ctx *u) {
          int q = p.id;
          if (q < 0 || q >= (int) u->pts->size () || (*u->pts)[q].at != p.at || (*u->pts)[q].tree != p.tree) fail ("query-wrong", "a query is not one of those given");
          u->v.back ().active.push_back (q);
          return match (*u, sc, leaf_of (f, lt, e), e, q);
        };
        t8_search_with_queries<Point, Ctx> s (elem, query, reuse ? other : pts, nullptr, reuse ? &old : x);
        s.update_forest (c.f);
        if (reuse) {
          s.do_search ();
          s.update_queries (pts);
          s.update_user_data (x);
        }
        s.do_search ();
      }
      else {
        auto query = [sc] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool, const t8_element_array_t *, const t8_locidx_t, const std::vector<Point> &all, const std::vector<size_t> &act, std::vector<bool> &m, Ctx *u) {
          for (size_t q : act) {
            if (q >= all.size () || all[q].id != (int) q || q >= u->pts->size () || (*u->pts)[q].at != all[q].at) fail ("query-wrong", "a query is not one of those given");
            u->v.back ().active.push_back ((int) q);
            m[q] = match (*u, sc, leaf_of (f, lt, e), e, (int) q);
          }
        };
        t8_search_with_batched_queries<Point, Ctx> s (elem, query, reuse ? other : pts, c.f, reuse ? &old : x);
        if (reuse) {
          s.do_search ();
          s.update_queries (pts);
          s.update_user_data (x);
          s.update_forest (c.f);
        }
        s.do_search ();
      }
      for (size_t i = 0; i < keep.size (); i++)
        if (i >= other.size () || other[i].at != keep[i].at || other[i].tree != keep[i].tree || other[i].id != keep[i].id || other.size () != keep.size ())
          fail ("queries-overwritten", "rank %d: the queries of the former search were changed", sim::rank ());
      if (reuse == 5) {   /* no user data given: the callback gets none */
        alignas (t8_search<Ctx>) char mem[sizeof (t8_search<Ctx>)];
        memset (mem, 0xa5, sizeof (mem));
        bool none = true;
        auto *s = new (mem) t8_search<Ctx> ([&none] (const t8_forest_t, const t8_locidx_t, const t8_element_t *, const bool, const t8_element_array_t *, const t8_locidx_t, Ctx *u) { none = none && !u; return false; }, c.f);
        s->do_search ();
        s->~t8_search<Ctx> ();
        if (!none) fail ("user-data", "rank %d: the callback of a search without user data got a pointer", sim::rank ());
      }
    }
  }, true);
  std::vector<int> every;
  for (int q = 0; q < np; q++) every.push_back (q);
  for (int g = 0; g < h.groups (); g++) {
    const Step &s = rec.g[g].back ();
    std::vector<Leaf> all = s.global ();
    if (all.empty ()) continue;
    sim::state (hash_leaves (all) + api);
    std::vector<int> found (np, 0);
    for (size_t r = 0; r < s.r.size (); r++) {
      std::vector<Visit> want;
      const auto &L = s.r[r].leaves;
      for (size_t a = 0; a < L.size ();) {
        size_t b = a;
        while (b < L.size () && L[b].tree == L[a].tree) b++;
        std::vector<Leaf> t (L.begin () + a, L.begin () + b);
        /* nearest common ancestor */
        Leaf n = t[0];
        while (M.last_desc (n) < t.back ().first || n.level > t.back ().level || (t.size () > 1 && n == t[0])) n = M.parent (n);
        expect (M, ctx[g][r], t, 0, t.size (), n, queries, every, want);
        a = b;
      }
      const auto &have = ctx[g][r].v;
      for (size_t i = 0; i < std::max (want.size (), have.size ()); i++) {
        if (i >= have.size ()) fail ("search-incomplete", "rank %zu: the search did not visit %s", r, want[i].str ().c_str ());
        if (i >= want.size ()) fail ("search-too-much", "rank %zu: the search visited %s for no reason", r, have[i].str ().c_str ());
        if (!(want[i] == have[i])) fail ("search-order", "rank %zu: visit %zu of the search should be %s, it is %s", r, i, want[i].str ().c_str (), have[i].str ().c_str ());
      }
      if (proto.prune == 0) {
        if (!queries) {
          size_t n = 0;
          for (auto &v : have) n += v.leaf;
          if (n != L.size ()) fail ("search-incomplete", "rank %zu: the search visited %zu of %zu leaves", r, n, L.size ());
        }
        else
          for (auto &v : have)
            if (v.leaf)
              for (int q : v.active) {
                Elem x (M.s, (t8_eclass_t) v.e.cls);
                set_elem (M.s, v.e, x.e);
                found[q] += in (M.s, v.e, x.e, pts[q]);
              }
      }
    }
    if (proto.prune == 0 && queries && !removed)
      for (int q = 0; q < np; q++)
        if (found[q] != 1) fail ("query-found", "query %d was found %d times on all processes together", q, found[q]);
  }
}
}
PROPERTY ("C10", body10)
