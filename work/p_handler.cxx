/* C20: typed vectors arrive as they were sent. */
#include "common.hxx"
#include <t8_data/t8_vector_handler.hxx>
#include <cstring>
namespace
{
struct Rec { std::vector<double> d; int tag = 0; t8_gloidx_t id = -1; bool operator== (const Rec &o) const { return d == o.d && tag == o.tag && id == o.id; } };
Rec make_rec (uint32_t seed, int i)
{
  Rec r;
  uint64_t h = sim::mix (seed + 77 * i);
  r.tag = (int) (h % 1000);
  r.id = (t8_gloidx_t) (h >> 7);
  for (int k = 0; k < (int) (h % 4); k++) r.d.push_back (k + 0.5 * r.tag);
  return r;
}
int count_of (uint32_t seed) { uint64_t h = sim::mix (seed + 5); return h % 5 == 0 ? 0 : h % 11 == 0 ? 200 : (int) (h % 6); }
std::vector<Rec> make_vec (uint32_t seed)
{
  std::vector<Rec> v;
  for (int i = 0; i < count_of (seed); i++) v.push_back (make_rec (seed, i));
  return v;
}
}
template <> int t8_data_handler<Rec>::size (const Rec &r, sc_MPI_Comm comm)
{
  int a, b, c;
  sc_MPI_Pack_size (2, sc_MPI_INT, comm, &a);
  sc_MPI_Pack_size (1, T8_MPI_GLOIDX, comm, &b);
  sc_MPI_Pack_size ((int) r.d.size (), sc_MPI_DOUBLE, comm, &c);
  return a + b + c;
}
template <> void t8_data_handler<Rec>::pack (const Rec &r, int &pos, void *buf, const int n, sc_MPI_Comm comm)
{
  int k = (int) r.d.size ();
  sc_MPI_Pack ((void *) &r.tag, 1, sc_MPI_INT, buf, n, &pos, comm);
  sc_MPI_Pack (&k, 1, sc_MPI_INT, buf, n, &pos, comm);
  sc_MPI_Pack ((void *) &r.id, 1, T8_MPI_GLOIDX, buf, n, &pos, comm);
  sc_MPI_Pack ((void *) r.d.data (), k, sc_MPI_DOUBLE, buf, n, &pos, comm);
}
template <> void t8_data_handler<Rec>::unpack (const void *buf, const int n, int &pos, Rec &r, sc_MPI_Comm comm)
{
  int k = 0;
  void *b = (void *) buf;
  sc_MPI_Unpack (b, n, &pos, &r.tag, 1, sc_MPI_INT, comm);
  sc_MPI_Unpack (b, n, &pos, &k, 1, sc_MPI_INT, comm);
  sc_MPI_Unpack (b, n, &pos, &r.id, 1, T8_MPI_GLOIDX, comm);
  r.d.resize (k);
  sc_MPI_Unpack (b, n, &pos, r.d.data (), k, sc_MPI_DOUBLE, comm);
}
template <> t8_data_handler_type t8_data_handler<Rec>::type () { return t8_data_handler_type (1); }
namespace
{
enum { X_PAIR, X_ANY, X_RING, X_PACK, X_N };
const char *xn[] = { "pairs", "any source", "ring", "pack" };
struct Xch { int kind, shift, tag; uint32_t seed; bool anytag, reuse, nodata; };
void compare (const std::vector<Rec> &want, const std::shared_ptr<std::vector<Rec>> &got, int out, int r, const char *what)
{
  if (!got) fail ("content", "rank %d: no data after %s", r, what);
  if (out != (int) want.size () || got->size () != want.size ()) fail ("content", "rank %d: %d items received by %s (vector of %zu), %zu were sent", r, out, what, got->size (), want.size ());
  for (size_t i = 0; i < want.size (); i++)
    if (!((*got)[i] == want[i])) fail ("content", "rank %d: item %zu differs after %s", r, i, what);
}
void body ()
{
  World w = draw_world (7);
  int nx = range (sim::W, 1, 4);
  std::vector<Xch> xs;
  sim::note ("%s", w.str ().c_str ());
  for (int i = 0; i < nx; i++) {
    Xch x;
    x.kind = choose (sim::W, X_N);
    x.shift = range (sim::W, 1, 6);
    x.tag = choose (sim::W, 3);
    x.seed = choose (sim::W, 1 << 20);
    x.anytag = chance (sim::W, 300);
    x.reuse = chance (sim::W, 300);
    x.nodata = chance (sim::W, 100);
    xs.push_back (x);
    sim::note ("exchange %d: %s, shift %d, tag %d%s, seed %u%s%s", i, xn[x.kind], x.shift, x.tag, x.anytag ? " (received with any tag)" : "", x.seed, x.reuse ? ", receiver holds data" : "", x.nodata ? ", even ranks send nothing" : "");
  }
  run_world (w, [&] (sc_MPI_Comm comm, int) {
    int r, P;
    sc_MPI_Comm_rank (comm, &r);
    sc_MPI_Comm_size (comm, &P);
    auto data = [&] (const Xch &x, int from, int to) { return x.nodata && from % 2 == 0 ? std::vector<Rec> () : make_vec (x.seed + 100 * from + to); };
    auto handler = [&] (const Xch &x, int from, int to) { return x.nodata && from % 2 == 0 ? t8_vector_handler<Rec> () : t8_vector_handler<Rec> (data (x, from, to)); };
    auto empty = [&] (const Xch &x) { return x.reuse ? t8_vector_handler<Rec> (make_vec (x.seed + 9999 + r)) : t8_vector_handler<Rec> (); };
    for (auto &x : xs) {
      sc_MPI_Status st;
      int out = -1;
      switch (x.kind) {
      case X_PACK: {
        t8_vector_handler<Rec> h = handler (x, r, r), g = empty (x);
        int n = h.buffer_size (comm), pos = 0;
        std::vector<char> buf (n + 16, 'x');
        h.pack_vector_prefix (buf.data (), n, pos, comm);
        if (pos != n) fail ("size", "rank %d: %d bytes packed, %d announced", r, pos, n);
        for (int k = 0; k < 16; k++) if (buf[n + k] != 'x') fail ("size", "rank %d: written past the end of the buffer", r);
        pos = 0;
        g.unpack_vector_prefix (buf.data (), n, pos, out, comm);
        if (pos != n) fail ("size", "rank %d: %d bytes unpacked of %d", r, pos, n);
        compare (data (x, r, r), g.get_data (), out, r, "unpacking");
        break;
      }
      case X_PAIR: {
        /* lower to higher and back */
        int q = r ^ 1;
        if (q >= P) break;
        t8_vector_handler<Rec> h = handler (x, r, q), g = empty (x);
        if (r < q) { h.send (q, x.tag, comm); g.recv (q, x.anytag ? sc_MPI_ANY_TAG : x.tag, comm, &st, out); }
        else { g.recv (q, x.anytag ? sc_MPI_ANY_TAG : x.tag, comm, &st, out); h.send (q, x.tag, comm); }
        if (st.MPI_SOURCE != q || st.MPI_TAG != x.tag) fail ("status", "rank %d: status names source %d tag %d, the message is from %d tag %d", r, st.MPI_SOURCE, st.MPI_TAG, q, x.tag);
        compare (data (x, q, r), g.get_data (), out, r, "recv");
        break;
      }
      case X_ANY: {
        /* all others send to one rank, which takes the messages as they come */
        int root = x.shift % P;
        if (r != root) { t8_vector_handler<Rec> h = handler (x, r, root); h.send (root, x.tag + (x.anytag ? r : 0), comm); }
        else {
          std::vector<int> seen (P);
          t8_vector_handler<Rec> g = empty (x);
          for (int k = 0; k < P - 1; k++) {
            out = -1;
            g.recv (sc_MPI_ANY_SOURCE, x.anytag ? sc_MPI_ANY_TAG : x.tag, comm, &st, out);
            int q = st.MPI_SOURCE;
            if (q < 0 || q >= P || q == root || seen[q]++) fail ("status", "rank %d: message number %d is from %d", r, k, q);
            if (x.anytag && st.MPI_TAG != x.tag + q) fail ("status", "wrong tag");
            compare (data (x, q, root), g.get_data (), out, r, "recv from any source");
          }
        }
        sc_MPI_Barrier (comm);
        break;
      }
      case X_RING: {
        int to = (r + x.shift) % P, from = (r + P - x.shift % P) % P;
        t8_vector_handler<Rec> h = handler (x, r, to);
        h.sendrecv (to, from, x.tag, comm, &st, out);
        if (st.MPI_SOURCE != from) fail ("status", "wrong source");
        compare (data (x, from, r), h.get_data (), out, r, "sendrecv");
        break;
      }
      }
    }
  });
  uint64_t h = w.P;
  for (auto &x : xs) h = sim::mix (h + x.kind * 1000 + x.shift * 100 + x.seed % 50);
  sim::state (h);
}
}
PROPERTY ("C20", body)
