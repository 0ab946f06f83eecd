/* See sim.hxx.  Simulated MPI: fibers, scheduler, point to point, collectives,
 * communicators, attributes, shared memory windows, clock. */
#include "sim.hxx"
#include "guard.hxx"
#include <mpi.h>
#include <sc.h>
#include <sc_mpi.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#endif

namespace sim
{
const char *counter_name[K_N] = {
  "runs", "mpi_calls", "context_switches", "messages", "message_bytes", "collectives", "send_buffered", "send_rendezvous",
  "message_delayed", "message_overtaken", "collective_early_exit", "send_payload_read_late", "receive_buffer_scribbled",
  "rank_stalled", "reduction_reassociated", "multi_node_layout", "uneven_node_layout", "any_source_choice", "clock_skew",
  "clock_jump", "file_open_failure", "disk_full", "short_write", "read_error", "file_truncated", "file_corrupted",
  "crash_during_write", "short_read", "close_failure", "poll_negative", "rank_killed", "simulated_us", "probe0",
  "probe1", "probe2", "probe3", "probe4", "probe5", "probe6", "probe7", "probe8", "probe9", "probe10", "probe11", "probe12",
  "probe13", "probe14", "probe15"
};
Shared *shared = nullptr;
Tape tapes[NSTREAM];
Slot *slot = nullptr;
static uint32_t record_buf[NSTREAM][TAPE_CAP];
bool verbose = false;
static uint64_t ev_hash = 1469598103934665603ull, sched_hash = 88172645463325252ull;

uint64_t mix (uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static uint64_t next_raw (Tape &t) { t.prng += 0x9E3779B97F4A7C15ull; return mix (t.prng); }
void seed_tapes (uint64_t seed)
{
  for (int i = 0; i < NSTREAM; i++) {
    tapes[i] = Tape ();
    tapes[i].v = record_buf[i];
    tapes[i].prng = mix (seed * 3 + i + 77);
  }
}
uint32_t choose_by (Stream s, uint32_t n, const std::function<uint32_t (uint64_t)> &sampler)
{
  Tape &t = tapes[s];
  if (n <= 1) return 0;
  uint32_t r;
  if (t.replay || t.pos < t.n) {   /* recording after a rewind: the same again */
    r = t.pos < t.n ? t.v[t.pos] % n : 0;
    t.pos++;
  }
  else {
    r = sampler (next_raw (t));
    if (r >= n) r = n - 1;
    if (t.n >= TAPE_CAP) discard ("tape full");
    t.v[t.n++] = r;
    t.pos++;
  }
  return r;
}
uint32_t choose (Stream s, uint32_t n, int wz)
{
  return choose_by (s, n, [&] (uint64_t x) -> uint32_t {
    if (wz < 0) return (uint32_t) ((x >> 11) % n);
    if ((int) (x % 1000) < wz) return 0;
    return 1 + (uint32_t) ((x >> 20) % (n - 1));
  });
}
void count (Counter c, uint64_t by) { if (shared) shared->counters[c] += by; }

static void hash_bytes (uint64_t &h, const void *p, size_t n)
{
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
}
static uint64_t payload_hash (const void *p, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  const unsigned char *c = (const unsigned char *) p;
  while (n >= 8) {
    uint64_t w;
    memcpy (&w, c, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    c += 8;
    n -= 8;
  }
  hash_bytes (h, c, n);
  return h;
}
void event (const char *fmt, ...)
{
  char b[600];
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (n > (int) sizeof b - 1) n = sizeof b - 1;
  hash_bytes (ev_hash, b, n);
  if (verbose) fprintf (stderr, "  | %s\n", b);
}
void note (const char *fmt, ...)
{
  char b[2000];
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (n > (int) sizeof b - 1) n = sizeof b - 1;
  hash_bytes (ev_hash, b, n);
  if (verbose) fprintf (stderr, "# %s\n", b);
  if (shared && shared->notelen + n + 2 < sizeof shared->notes) {
    memcpy (shared->notes + shared->notelen, b, n);
    shared->notelen += n;
    shared->notes[shared->notelen++] = '\n';
    shared->notes[shared->notelen] = 0;
  }
}
void state (uint64_t h)
{
  if (shared && shared->nstates < sizeof shared->states / sizeof shared->states[0]) shared->states[shared->nstates++] = mix (h);
}
size_t tape_pos (Stream s) { return tapes[s].pos; }
void tape_rewind (Stream s, size_t pos) { tapes[s].pos = pos; }
void load_tapes ()
{
  for (int i = 0; i < NSTREAM; i++) {
    tapes[i] = Tape ();
    tapes[i].replay = true;
    tapes[i].v = slot->in[i];
    tapes[i].n = slot->in_n[i];
  }
}
void dump_tapes ()
{
  if (!slot || !slot->dump) return;
  for (int i = 0; i < NSTREAM; i++) {
    size_t n = tapes[i].replay ? std::min (tapes[i].pos, tapes[i].n) : tapes[i].n;
    memcpy (slot->out[i], tapes[i].v, n * sizeof (uint32_t));
    slot->out_n[i] = (uint32_t) n;
  }
}
static void seal (int how)
{
  if (shared) {
    shared->hash = ev_hash;
    shared->sched_hash = sched_hash;
    shared->finished = how;
  }
}
void finish_ok () { seal (1); }
std::vector<std::string> only_classes;
void fail (const char *cls, const char *fmt, ...)
{
  char b[6000];
  if (!only_classes.empty () && std::find (only_classes.begin (), only_classes.end (), cls) == only_classes.end ())
    discard ((std::string ("the workload ended with ") + cls).c_str ());
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (verbose) fprintf (stderr, "! %s: %s\n", cls, b);
  if (shared) {
    snprintf (shared->cls, sizeof shared->cls, "%s", cls);
    snprintf (shared->msg, sizeof shared->msg, "%s", b);
  }
  hash_bytes (ev_hash, cls, strlen (cls));
  hash_bytes (ev_hash, b, strlen (b));
  dump_tapes ();
  seal (2);
  _exit (3);
}
void discard (const char *why)
{
  if (shared) snprintf (shared->msg, sizeof shared->msg, "%s", why);
  seal (3);
  _exit (4);
}

/* ------------------------------------------------------------------ fibers */
struct Fiber
{
  ucontext_t ctx;
  char *stack = nullptr;
  size_t stack_size = 0;
  bool done = false, blocked = false;
  std::function<bool ()> pred;
  std::string what;
  double clock_off = 0, clock_rate = 1, clock_jump = 0;
  uint64_t rnd = 1;                                /* state of rand (): one per process, as in reality */
  int polls = 0;
  int prio = 0;
  const char *lastcall = "";
};
static std::vector<std::unique_ptr<Fiber>> fibers;
static int cur = -1;
static int world_size = 1;
static ucontext_t main_ctx;
static const std::function<void (int)> *entry_fn;
static uint64_t steps = 0, sim_us = 0;
static const uint64_t STEP_LIMIT = 3000000;

struct Policy
{
  int sched = 0, deliver = 0, eager = 0, transfer = 0, collexit = 0, reassoc = 0, topo = 0, topo_k = 1, scribble = 0, clock = 0;
  int eager_thr = 64;
  uint64_t stalled = 0;
};
static Policy pol;

int rank () { return cur; }
int nranks () { return world_size; }
bool in_fiber () { return cur >= 0; }
uint64_t now_us () { return sim_us; }

/* ------------------------------------------------------------ MPI objects */
}
using namespace sim;

struct ompi_communicator_t
{
  int id = 0;
  bool self = false, null = false;
  std::vector<int> g;                              /* world ranks */
  std::map<int, std::map<int, void *>> attr;       /* world rank -> keyval -> value */
  std::map<int, uint64_t> seq;                     /* world rank -> collectives entered */
  std::set<int> freed;
  int members () const { return self ? 1 : (int) g.size (); }
};
struct ompi_predefined_communicator_t : ompi_communicator_t { };
struct ompi_group_t { std::vector<int> g; bool null = false; };
struct ompi_predefined_group_t : ompi_group_t { };
struct ompi_datatype_t { size_t size = 0; int kind = 0; const char *name = ""; bool user = false; int owner = -1; ompi_datatype_t (size_t s = 0, int k = 0, const char *n = ""): size (s), kind (k), name (n) { } };
struct ompi_predefined_datatype_t : ompi_datatype_t { using ompi_datatype_t::ompi_datatype_t; };
struct ompi_op_t { int kind = 0; MPI_User_function *fn = nullptr; ompi_op_t (int k = 0): kind (k) { } };
struct ompi_predefined_op_t : ompi_op_t { using ompi_op_t::ompi_op_t; };
struct ompi_info_t { int x; };
struct ompi_predefined_info_t : ompi_info_t { };
struct ompi_win_t
{
  int id;
  ompi_communicator_t *comm;
  std::vector<char *> base;
  std::vector<MPI_Aint> size;
  std::vector<int> unit;
  char *block = nullptr;
  std::map<std::pair<int, int>, int> locks;        /* (target, world rank) -> type */
  int nfreed = 0;
};
struct ompi_predefined_win_t : ompi_win_t { };
struct ompi_file_t { int x; };
struct ompi_errhandler_t { int x; };
struct ompi_predefined_errhandler_t : ompi_errhandler_t { };

namespace sim
{
enum { T_BYTE = 1, T_CHAR, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LL, T_ULL, T_FLOAT, T_DOUBLE, T_LDOUBLE, T_2INT, T_PACKED, T_I8, T_USER };
enum { O_SUM = 1, O_MAX, O_MIN, O_LOR, O_LAND, O_BOR, O_BAND, O_PROD, O_LXOR, O_BXOR, O_USER };

struct Msg
{
  uint64_t id;
  int src, dst;          /* world ranks */
  ompi_communicator_t *comm;
  int tag;
  size_t bytes;
  const void *sbuf;
  std::vector<char> data;
  bool eager, sync, arrived = false, matched = false, done = false;
  uint64_t h;
  struct Req *sreq = nullptr, *rreq = nullptr;
};
}
struct ompi_request_t
{
};
namespace sim
{
struct Req : ompi_request_t
{
  bool is_send = false, is_barrier = false, complete = false, null = false, proc_null = false, freed = false;
  int owner = -1;
  /* receive */
  void *buf = nullptr;
  size_t cap = 0;
  int src = MPI_ANY_SOURCE, tag = MPI_ANY_TAG;
  ompi_communicator_t *comm = nullptr;
  MPI_Status st;
  Msg *m = nullptr;      /* send: own message */
  /* send */
  const void *sbuf = nullptr;
  size_t bytes = 0;
  uint64_t h = 0;
  std::function<bool ()> test;    /* Ibarrier */
};
}
struct ompi_predefined_request_t : sim::Req { };

extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
ompi_predefined_group_t ompi_mpi_group_null, ompi_mpi_group_empty;
ompi_predefined_info_t ompi_mpi_info_null;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_errhandler_t ompi_mpi_errors_return, ompi_mpi_errors_are_fatal, ompi_mpi_errhandler_null;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_datatype_t ompi_mpi_byte (1, T_BYTE, "BYTE"), ompi_mpi_char (1, T_CHAR, "CHAR"), ompi_mpi_signed_char (1, T_SCHAR, "SCHAR"),
  ompi_mpi_unsigned_char (1, T_UCHAR, "UCHAR"), ompi_mpi_short (2, T_SHORT, "SHORT"), ompi_mpi_unsigned_short (2, T_USHORT, "USHORT"),
  ompi_mpi_int (4, T_INT, "INT"), ompi_mpi_unsigned (4, T_UINT, "UNSIGNED"), ompi_mpi_long (8, T_LONG, "LONG"),
  ompi_mpi_unsigned_long (8, T_ULONG, "ULONG"), ompi_mpi_long_long_int (8, T_LL, "LLONG"), ompi_mpi_unsigned_long_long (8, T_ULL, "ULLONG"),
  ompi_mpi_float (4, T_FLOAT, "FLOAT"), ompi_mpi_double (8, T_DOUBLE, "DOUBLE"), ompi_mpi_long_double (sizeof (long double), T_LDOUBLE, "LDOUBLE"),
  ompi_mpi_2int (8, T_2INT, "2INT"), ompi_mpi_packed (1, T_PACKED, "PACKED"), ompi_mpi_int8_t (1, T_I8, "INT8"), ompi_mpi_uint8_t (1, T_UCHAR, "UINT8"),
  ompi_mpi_int32_t (4, T_INT, "INT32"), ompi_mpi_int64_t (8, T_LL, "INT64"), ompi_mpi_uint64_t (8, T_ULL, "UINT64"), ompi_mpi_uint32_t (4, T_UINT, "UINT32"), ompi_mpi_datatype_null (0, 0, "NULL");
ompi_predefined_op_t ompi_mpi_op_sum (O_SUM), ompi_mpi_op_max (O_MAX), ompi_mpi_op_min (O_MIN), ompi_mpi_op_lor (O_LOR), ompi_mpi_op_land (O_LAND),
  ompi_mpi_op_bor (O_BOR), ompi_mpi_op_band (O_BAND), ompi_mpi_op_prod (O_PROD), ompi_mpi_op_lxor (O_LXOR), ompi_mpi_op_bxor (O_BXOR), ompi_mpi_op_null (0);
}

namespace sim
{
static bool objects_ready = false;
static int next_comm_id = 10, next_keyval = 1;
static uint64_t next_msg_id = 1;
static std::deque<Msg *> inflight;                /* all messages not done, in post order */
static std::deque<Req *> posted;                  /* receives not matched, in post order */
static std::set<Req *> live_reqs;
static std::set<ompi_communicator_t *> live_comms;
static std::set<ompi_win_t *> live_wins;
static long live_groups = 0, live_types = 0, live_ops = 0;
struct Keyval { MPI_Comm_copy_attr_function *copy; MPI_Comm_delete_attr_function *del; void *extra; };
static std::map<int, Keyval> keyvals;
static void drop_colls ();

static void init_objects ()
{
  if (objects_ready) return;
  objects_ready = true;
  ompi_mpi_comm_world.id = 0;
  ompi_mpi_comm_world.g = { 0 };
  ompi_mpi_comm_self.id = 1;
  ompi_mpi_comm_self.self = true;
  ompi_mpi_comm_null.null = true;
  ompi_mpi_comm_null.id = -1;
  ompi_mpi_group_null.null = true;
  ompi_request_null.null = true;
  ompi_request_null.complete = true;
}
static int me () { return cur < 0 ? 0 : cur; }
static int crank (ompi_communicator_t *c, int world)
{
  if (c->self) return 0;
  for (size_t i = 0; i < c->g.size (); i++)
    if (c->g[i] == world) return (int) i;
  return -1;
}
static int wrank (ompi_communicator_t *c, int r) { return c->self ? me () : c->g[r]; }

Live live ()
{
  Live l;
  l.msgs = (long) inflight.size ();
  l.recvs = (long) posted.size ();
  l.requests = (long) live_reqs.size ();
  l.comms = (long) live_comms.size ();
  l.groups = live_groups;
  l.wins = (long) live_wins.size ();
  l.types = live_types;
  l.ops = live_ops;
  return l;
}

/* ------------------------------------------------------------ scheduler */
static bool ready (Fiber &f)
{
  if (f.done) return false;
  if (!f.blocked) return true;
  if (f.pred ()) return true;
  return false;
}
static void do_transfer (Msg *m);
static bool try_match ();

static void arrive (Msg *m)
{
  m->arrived = true;
  for (Msg *o : inflight) {
    if (o == m) break;
    if (o->dst == m->dst && !o->arrived) { count (K_OVERTAKE); break; }
  }
  event ("arrive m%llu %d->%d tag %d", (unsigned long long) m->id, m->src, m->dst, m->tag);
  sched_hash = mix (sched_hash ^ (0x1000 + m->src * 64 + m->dst));
  try_match ();
}
/* events the network can perform now */
static void net_options (std::vector<Msg *> &out)
{
  for (Msg *m : inflight) {
    if (out.size () >= 12) break;
    if (!m->arrived || (m->matched && !m->done)) out.push_back (m);
  }
}
static void net_step (Msg *m)
{
  if (!m->arrived) arrive (m);
  else if (m->matched && !m->done) do_transfer (m);
}
static void describe_blocked (std::string &s)
{
  for (size_t i = 0; i < fibers.size (); i++) {
    char b[300];
    snprintf (b, sizeof b, " rank %zu: %s;", i, fibers[i]->done ? "finished" : fibers[i]->what.c_str ());
    s += b;
  }
}
static void step_account ()
{
  steps++;
  sim_us += 1 + (steps % 7);
  if (steps > STEP_LIMIT) {
    std::string s;
    describe_blocked (s);
    fail ("livelock", "no end after %llu scheduling steps:%s", (unsigned long long) steps, s.c_str ());
  }
}
/* pick next fiber to run; performs network events on the way; returns -1 when all done */
static int pick (int from)
{
  for (;;) {
    step_account ();
    int P = (int) fibers.size ();
    std::vector<int> run;
    bool alldone = true;
    for (int k = 0; k < P; k++) {
      int r = from < 0 ? k : (from + k) % P;
      if (!fibers[r]->done) alldone = false;
      if (ready (*fibers[r])) run.push_back (r);
    }
    if (alldone) return -1;
    std::vector<Msg *> net;
    net_options (net);
    if (run.empty () && net.empty ()) {
      std::string s;
      describe_blocked (s);
      fail ("deadlock", "all ranks blocked:%s", s.c_str ());
    }
    /* order of the options: ranks that do work, network, ranks that only poll;
     * so that choice 0 always makes progress */
    std::vector<int> opt;               /* >= 0 rank, < 0: -1-index into net */
    for (int r : run) if (fibers[r]->polls <= 2) opt.push_back (r);
    for (size_t i = 0; i < net.size (); i++) opt.push_back (-1 - (int) i);
    for (int r : run) if (fibers[r]->polls > 2) opt.push_back (r);
    uint32_t n = (uint32_t) opt.size ();
    uint32_t c = choose_by (S, n, [&] (uint64_t x) -> uint32_t {
      double w[64], tot = 0;
      for (uint32_t i = 0; i < n && i < 64; i++) {
        double ww = 1;
        if (opt[i] >= 0) {
          Fiber &f = *fibers[opt[i]];
          switch (pol.sched) {
          case 0: ww = opt[i] == run[0] ? 1 : 0; break;
          case 1: ww = 1; break;
          case 2: ww = opt[i] == run[0] ? 20 : 1; break;
          case 3: ww = (pol.stalled >> opt[i] & 1) ? 1e-9 : 1; break;
          case 4: ww = 1 << (3 * f.prio); break;
          }
          if (f.polls > 2) ww = ww * 1e-3 + 1e-4;
        }
        else {
          ww = pol.deliver == 2 ? 1e-9 : pol.deliver == 1 ? 0.7 : 4;
          if (pol.sched == 3 && (pol.stalled >> net[-1 - opt[i]]->src & 1)) ww *= 1e-3;
        }
        w[i] = ww;
        tot += ww;
      }
      double u = (double) (x >> 11) / 9007199254740992.0 * tot;
      for (uint32_t i = 0; i < n && i < 64; i++) {
        if (u < w[i]) return i;
        u -= w[i];
      }
      return 0;
    });
    if (pol.sched == 3 && run.size () > 1)
      for (int r : run)
        if ((pol.stalled >> r & 1) && opt[c] != r) { count (K_STALL); break; }
    if (opt[c] >= 0) {
      int r = opt[c];
      if (pol.sched == 4 && fibers[r]->prio > 0 && steps % 97 == 0) fibers[r]->prio--;
      return r;
    }
    net_step (net[-1 - opt[c]]);
  }
}
#ifdef SIM_ASAN
static const void *main_bottom; static size_t main_size;
#endif
static void switch_to (int r)
{
  int from = cur;
  if (r == from) return;
  count (K_SWITCHES);
  sched_hash = mix (sched_hash ^ (uint64_t) (r + 1));
  cur = r;
  ucontext_t *a = from < 0 ? &main_ctx : &fibers[from]->ctx;
  ucontext_t *b = r < 0 ? &main_ctx : &fibers[r]->ctx;
#ifdef SIM_ASAN
  void *fake;
  __sanitizer_start_switch_fiber (&fake, r < 0 ? main_bottom : fibers[r]->stack, r < 0 ? main_size : fibers[r]->stack_size);
#endif
  swapcontext (a, b);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber (fake, nullptr, nullptr);
#endif
}
static void block_until (const char *what, std::function<bool ()> p)
{
  if (p ()) return;
  if (cur < 0) fail ("harness", "blocking MPI call outside of a simulated job: %s", what);
  Fiber &f = *fibers[cur];
  f.blocked = true;
  f.pred = p;
  f.what = what;
  int r = pick (cur);
  switch_to (r);
  f.blocked = false;
  f.pred = nullptr;
  if (!p ()) fail ("harness", "woken too early in %s", what);
}
/* every MPI call starts here */
static void call (const char *fn, ompi_communicator_t *c, bool point = true)
{
  init_objects ();
  count (K_STEPS);
  if (cur < 0) return;
  Fiber &f = *fibers[cur];
  f.lastcall = fn;
  f.what = fn;
  event ("%d %s c%d", cur, fn, c ? c->id : -2);
  if (c && c->null) fail ("mpi-usage", "%s on the null communicator (rank %d)", fn, cur);
  if (c && !c->self && c->id >= 10) {
    if (!live_comms.count (c)) fail ("mpi-usage", "%s on a freed communicator (rank %d)", fn, cur);
    if (c->freed.count (cur)) fail ("mpi-usage", "%s on communicator freed by rank %d", fn, cur);
  }
  if (point) {
    int r = pick (cur);
    switch_to (r);
  }
}
static void fiber_main ()
{
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber (nullptr, nullptr, nullptr);
#endif
  int r = cur;
  guard::own = false;
  (*entry_fn) (r);
  guard::own = true;
  fibers[r]->done = true;
  fibers[r]->what = "finished";
  event ("%d done", r);
  int nx = pick (r);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber (nullptr, nx < 0 ? main_bottom : fibers[nx]->stack, nx < 0 ? main_size : fibers[nx]->stack_size);
#endif
  cur = nx;
  setcontext (nx < 0 ? &main_ctx : &fibers[nx]->ctx);
}

static bool crashed = false;
void crash_job ()
{
  if (cur < 0) fail ("harness", "crash outside of a job");
  count (K_SHORT_SENDER);
  event ("job killed while rank %d runs", cur);
  crashed = true;
  cur = -1;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber (nullptr, main_bottom, main_size);
#endif
  setcontext (&main_ctx);
  abort ();
}
static int node_of (int w);
bool run (const Config &cfg, const std::function<void (int)> &fn)
{
  guard::Sim own_;
  init_objects ();
  crashed = false;
  int P = cfg.nranks;
  world_size = P;
  pol = Policy ();
  if (cfg.perturb) {
    pol.sched = choose (S, 5);
    pol.deliver = choose (S, 3);
    pol.eager = choose (S, 4);
    pol.eager_thr = 1 << range (S, 3, 9);
    pol.transfer = choose (S, 2);
    pol.collexit = choose (S, 3);
    pol.reassoc = choose (S, 2);
    pol.topo = choose (S, 5);
    pol.topo_k = range (S, 1, 4);
    pol.scribble = choose (S, 2);
    pol.clock = choose (S, 3);
    pol.stalled = choose (S, 1u << std::min (P, 16));
    /* sc's node communicators need equally many ranks of a communicator on
     * every node (t8code refuses to run otherwise): take the nearest layout */
    auto even = [&] () {
      std::map<int, std::map<int, int>> n;
      for (int w = 0; w < cfg.nranks; w++) {
        int g = w < (int) cfg.group.size () ? cfg.group[w] : 0;
        if (g >= 0) n[g][node_of (w)]++;
      }
      for (auto &g : n) for (auto &k : g.second) if (k.second != g.second.begin ()->second) return false;
      return true;
    };
    while (!even ()) {
      if (pol.topo_k > 1 && pol.topo < 4) pol.topo_k--;
      else pol.topo = 1;
    }
    if (pol.topo) count (K_NODES_MULTI);
    if (pol.topo == 4) count (K_NODES_ODD);
    event ("policy sched %d deliver %d eager %d/%d transfer %d collexit %d reassoc %d topo %d/%d scribble %d clock %d stalled %llx", pol.sched,
           pol.deliver, pol.eager, pol.eager_thr, pol.transfer, pol.collexit, pol.reassoc, pol.topo, pol.topo_k, pol.scribble, pol.clock,
           (unsigned long long) pol.stalled);
  }
  ompi_mpi_comm_world.g.clear ();
  for (int i = 0; i < P; i++) ompi_mpi_comm_world.g.push_back (i);
  ompi_mpi_comm_world.seq.clear ();
  ompi_mpi_comm_self.seq.clear ();
  steps = 0;
  entry_fn = &fn;
  fibers.clear ();
  const size_t SS = 1 << 20;
  for (int i = 0; i < P; i++) {
    auto f = std::make_unique<Fiber> ();
    f->stack = (char *) mmap (nullptr, SS + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == (char *) MAP_FAILED) fail ("harness", "no stack");
    mprotect (f->stack, 4096, PROT_NONE);
    f->stack_size = SS + 8192;
    memset (f->stack + SS + 8192 - 65536, 0xA5, 65536);
    getcontext (&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = f->stack_size;
    f->ctx.uc_link = nullptr;
    makecontext (&f->ctx, fiber_main, 0);
    if (cfg.perturb && pol.clock) {
      f->clock_off = range (S, 0, 100) * 0.37;
      f->clock_rate = 1.0 + range (S, 0, 20) * 0.01;
      count (K_CLOCK_SKEW);
    }
    if (cfg.perturb && pol.sched == 4) f->prio = range (S, 0, 3);
    fibers.push_back (std::move (f));
  }
#ifdef SIM_ASAN
  {
    pthread_attr_t at; void *a; size_t sz;
    pthread_getattr_np (pthread_self (), &at); pthread_attr_getstack (&at, &a, &sz); pthread_attr_destroy (&at);
    main_bottom = a; main_size = sz;
  }
#endif
  cur = -1;
  ompi_mpi_comm_world.attr.clear ();
  int r = pick (-1);
  if (r >= 0) switch_to (r);
  cur = -1;
  for (auto &f : fibers) munmap (f->stack, f->stack_size);
  fibers.clear ();
  world_size = 1;
  ompi_mpi_comm_world.g = { 0 };
  ompi_mpi_comm_world.attr.clear ();
  count (K_SIMTIME_US, sim_us);
  sim_us = 0;
  if (crashed) {   /* nothing of the killed job survives */
    inflight.clear ();
    posted.clear ();
    live_reqs.clear ();
    live_comms.clear ();
    live_wins.clear ();
    drop_colls ();
    live_groups = live_types = live_ops = 0;
    ompi_mpi_comm_self.attr.clear ();
  }
  return !crashed;
}

/* -------------------------------------------------------- point to point */
static bool envelope (const Req *r, const Msg *m)
{
  if (r->owner != m->dst || r->comm != m->comm) return false;
  if (r->comm->self) { if (m->src != r->owner) return false; }
  else if (r->src != MPI_ANY_SOURCE && r->comm->g[r->src] != m->src) return false;
  return r->tag == MPI_ANY_TAG || r->tag == m->tag;
}
/* messages a receive may be matched with now: per source the first (in post
 * order) whose envelope matches, if it has arrived */
static void candidates (const Req *r, std::vector<Msg *> &out)
{
  std::set<int> seen;
  for (Msg *m : inflight) {
    if (m->matched || !envelope (r, m)) continue;
    if (!seen.insert (m->src).second) continue;
    if (m->arrived) out.push_back (m);
  }
}
static void set_status (MPI_Status &st, const Msg *m)
{
  st.MPI_SOURCE = crank (m->comm, m->src);
  st.MPI_TAG = m->tag;
  st.MPI_ERROR = MPI_SUCCESS;
  st._cancelled = 0;
  st._ucount = m->bytes;
}
static void check_send_buffer (const void *buf, size_t n, uint64_t h, int src, int dst, int tag)
{
  if (n && payload_hash (buf, n) != h)
    fail ("send-buffer-reuse", "rank %d changed or released the buffer of a pending send (to %d, tag %d, %zu bytes) before completion", src, dst, tag, n);
}
static void do_transfer (Msg *m)
{
  Req *r = m->rreq;
  if (m->bytes > r->cap)
    fail ("truncation", "rank %d receives %zu bytes from rank %d (tag %d) into a buffer of %zu bytes", m->dst, m->bytes, m->src, m->tag, r->cap);
  const void *src = m->data.data ();
  if (!m->eager) {
    count (K_LATE_READ);
    check_send_buffer (m->sbuf, m->bytes, m->h, m->src, m->dst, m->tag);
    src = m->sbuf;
  }
  if (m->bytes) memcpy (r->buf, src, m->bytes);
  m->done = true;
  r->complete = true;
  set_status (r->st, m);
  if (r->freed) { live_reqs.erase (r); delete r; }
  if (m->sreq) {
    m->sreq->complete = true;
    m->sreq->m = nullptr;
    if (m->sreq->freed) { live_reqs.erase (m->sreq); delete m->sreq; }
  }
  event ("transfer m%llu", (unsigned long long) m->id);
  inflight.erase (std::find (inflight.begin (), inflight.end (), m));
  delete m;
}
static bool match (Req *r, Msg *m)
{
  m->matched = true;
  m->rreq = r;
  if (m->sreq && m->eager && m->sync) m->sreq->complete = true;
  event ("match m%llu %d->%d", (unsigned long long) m->id, m->src, m->dst);
  posted.erase (std::find (posted.begin (), posted.end (), r));
  if (pol.transfer == 0) do_transfer (m);
  return true;
}
static bool try_match ()
{
  bool any = false, again = true;
  while (again) {
    again = false;
    for (Req *r : posted) {
      std::vector<Msg *> c;
      candidates (r, c);
      if (c.empty ()) continue;
      uint32_t k = 0;
      if (c.size () > 1) { k = choose (S, (uint32_t) c.size ()); count (K_ANYSRC_CHOICE); }
      match (r, c[k]);
      any = again = true;
      break;
    }
  }
  return any;
}
static Req *post_send (const void *buf, size_t bytes, int dst, int tag, ompi_communicator_t *c, bool want_req, bool sync, bool force_sync_choice)
{
  (void) force_sync_choice;
  if (dst == MPI_PROC_NULL) {
    Req *q = new Req;
    q->is_send = q->proc_null = q->complete = true;
    q->owner = me ();
    live_reqs.insert (q);
    return q;
  }
  if (dst < 0 || dst >= c->members ()) fail ("mpi-usage", "send to invalid rank %d (communicator size %d)", dst, c->members ());
  Msg *m = new Msg;
  m->id = next_msg_id++;
  m->src = me ();
  m->dst = wrank (c, dst);
  m->comm = c;
  m->tag = tag;
  m->bytes = bytes;
  m->sbuf = buf;
  m->sync = sync;
  switch (pol.eager) {
  case 0: m->eager = true; break;
  case 1: m->eager = false; break;
  case 2: m->eager = choose (S, 2) == 0; break;
  default: m->eager = bytes <= (size_t) pol.eager_thr; break;
  }
  count (m->eager ? K_EAGER : K_RENDEZVOUS);
  count (K_MSGS);
  count (K_BYTES, bytes);
  m->h = bytes ? payload_hash (buf, bytes) : 0;
  if (m->eager && bytes) m->data.assign ((const char *) buf, (const char *) buf + bytes);
  Req *q = nullptr;
  if (want_req || !m->eager || sync) {
    q = new Req;
    q->is_send = true;
    q->owner = me ();
    q->m = m;
    q->sbuf = buf;
    q->bytes = bytes;
    q->h = m->h;
    q->comm = c;
    q->src = dst;
    q->tag = tag;
    q->complete = m->eager && !sync;
    live_reqs.insert (q);
    m->sreq = q;
  }
  event ("send m%llu %d->%d tag %d bytes %zu h %llx", (unsigned long long) m->id, m->src, m->dst, tag, bytes, (unsigned long long) m->h);
  inflight.push_back (m);
  if (pol.deliver == 0) arrive (m);
  else count (K_DELAYED);
  return q;
}
static Req *post_recv (void *buf, size_t cap, int src, int tag, ompi_communicator_t *c)
{
  if (src == MPI_PROC_NULL) {
    Req *q = new Req;
    q->proc_null = q->complete = true;
    q->owner = me ();
    q->st.MPI_SOURCE = MPI_PROC_NULL;
    q->st.MPI_TAG = MPI_ANY_TAG;
    q->st.MPI_ERROR = MPI_SUCCESS;
    q->st._ucount = 0;
    q->st._cancelled = 0;
    live_reqs.insert (q);
    return q;
  }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->members ())) fail ("mpi-usage", "receive from invalid rank %d (communicator size %d)", src, c->members ());
  Req *q = new Req;
  q->owner = me ();
  q->buf = buf;
  q->cap = cap;
  q->src = src;
  q->tag = tag;
  q->comm = c;
  live_reqs.insert (q);
  if (pol.scribble && cap && cap < (1u << 20)) {
    memset (buf, 0xDB, cap);
    count (K_SCRIBBLE);
  }
  posted.push_back (q);
  try_match ();
  return q;
}
static void finish_req (Req *q, MPI_Status *st)
{
  if (q->proc_null) {
    if (!q->is_send && st != MPI_STATUS_IGNORE) *st = q->st;
  }
  else if (q->is_send) {
    check_send_buffer (q->sbuf, q->bytes, q->h, q->owner, wrank (q->comm, q->src), q->tag);
    if (q->m) { q->m->sreq = nullptr; }
  }
  else if (st != MPI_STATUS_IGNORE && !q->is_barrier) *st = q->st;
  live_reqs.erase (q);
  delete q;
}
static bool req_done (Req *q)
{
  if (q->null) return true;
  if (q->is_barrier) return q->test ();
  return q->complete;
}
static void empty_status (MPI_Status *st)
{
  if (st == MPI_STATUS_IGNORE) return;
  st->MPI_SOURCE = MPI_ANY_SOURCE;
  st->MPI_TAG = MPI_ANY_TAG;
  st->MPI_ERROR = MPI_SUCCESS;
  st->_ucount = 0;
  st->_cancelled = 0;
}
static Req *R (MPI_Request r) { return static_cast<Req *> (r); }
static void check_req (Req *q)
{
  if (q == nullptr || (!q->null && !live_reqs.count (q))) fail ("mpi-usage", "rank %d waits for an invalid request", cur);
  if (!q->null && q->owner != me ()) fail ("mpi-usage", "rank %d waits for a request of rank %d", cur, q->owner);
}
static void progress_poll (bool success)
{
  if (cur < 0) return;
  if (success) fibers[cur]->polls = 0;
  else { fibers[cur]->polls++; count (K_POLL_FALSE); }
}

/* ------------------------------------------------------------ collectives */
enum { C_BARRIER = 1, C_BCAST, C_ALLREDUCE, C_REDUCE, C_ALLGATHER, C_ALLGATHERV, C_GATHER, C_GATHERV, C_SCAN, C_EXSCAN, C_ALLTOALL, C_DUP, C_SPLIT, C_SPLITT, C_CREATE, C_WIN, C_FENCE, C_WINFREE, C_RSB, C_IBARRIER, C_SCATTER, C_SCATTERV, C_FILE };
static const char *collname[] = { "", "Barrier", "Bcast", "Allreduce", "Reduce", "Allgather", "Allgatherv", "Gather", "Gatherv", "Scan", "Exscan", "Alltoall", "Comm_dup", "Comm_split", "Comm_split_type", "Comm_create", "Win_allocate", "Win_fence", "Win_free", "Reduce_scatter_block", "Ibarrier", "Scatter", "Scatterv", "File" };
struct Coll
{
  int kind = 0, root = -1, opk = 0, n = 0;
  long sig = -1;
  int first = -1;
  std::vector<char> have;
  std::vector<std::vector<char>> in;
  std::vector<long> a, b;
  std::vector<void *> p;
  int arrived = 0, left = 0;
  bool computed = false;
  std::vector<char> out;
  std::vector<ompi_communicator_t *> newcomm;
  ompi_win_t *win = nullptr;
};
typedef std::pair<std::pair<ompi_communicator_t *, int>, uint64_t> CollKey;
static std::map<CollKey, Coll> colls;
static void drop_colls () { colls.clear (); }

struct CollRef
{
  CollKey key;
  Coll *c;
  int r;
};
static CollRef coll_enter (ompi_communicator_t *cm, int kind, int root, int opk, long sig)
{
  int w = me ();
  uint64_t s = cm->seq[w]++;
  CollKey k = { { cm, cm->self ? w : -1 }, s };
  Coll &c = colls[k];
  int r = crank (cm, w);
  if (r < 0) fail ("mpi-usage", "%s on a communicator that rank %d is not a member of", collname[kind], w);
  if (c.n == 0) {
    c.n = cm->members ();
    c.kind = kind;
    c.root = root;
    c.opk = opk;
    c.sig = sig;
    c.first = w;
    c.have.assign (c.n, 0);
    c.in.resize (c.n);
    c.a.assign (c.n, 0);
    c.b.assign (c.n, 0);
    c.p.assign (c.n, nullptr);
    c.newcomm.assign (c.n, nullptr);
    count (K_COLL);
  }
  else if (c.kind != kind || c.root != root || c.opk != opk || (c.sig >= 0 && sig >= 0 && c.sig != sig))
    fail ("collective-mismatch", "rank %d calls %s (root %d, op %d, bytes %ld) where rank %d calls %s (root %d, op %d, bytes %ld)", w, collname[kind],
          root, opk, sig, c.first, collname[c.kind], c.root, c.opk, c.sig);
  c.have[r] = 1;
  c.arrived++;
  event ("%d coll %s c%d seq %llu", w, collname[kind], cm->id, (unsigned long long) s);
  return { k, &c, r };
}
static void coll_leave (CollRef &x)
{
  if (++x.c->left == x.c->n) colls.erase (x.key);
}
static void wait_all (CollRef &x)
{
  Coll *c = x.c;
  block_until (collname[c->kind], [c] { return c->arrived == c->n; });
}
/* does this rank wait for everybody although it need not? */
static bool coll_sync ()
{
  bool s = pol.collexit == 0 ? true : pol.collexit == 1 ? false : choose (S, 2) == 0;
  if (!s) count (K_EARLY_EXIT);
  return s;
}
static void wait_for (CollRef &x, int lo, int hi)   /* ranks lo..hi-1 must have arrived */
{
  if (coll_sync ()) { wait_all (x); return; }
  Coll *c = x.c;
  block_until (collname[c->kind], [c, lo, hi] {
    for (int i = lo; i < hi; i++) if (!c->have[i]) return false;
    return true;
  });
}

template <class T> static void red (int op, const T *a, T *b, size_t n)
{
  for (size_t i = 0; i < n; i++)
    switch (op) {
    case O_SUM: b[i] = a[i] + b[i]; break;
    case O_PROD: b[i] = a[i] * b[i]; break;
    case O_MAX: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
    case O_MIN: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
    case O_LOR: b[i] = a[i] || b[i]; break;
    case O_LAND: b[i] = a[i] && b[i]; break;
    case O_LXOR: b[i] = !a[i] != !b[i]; break;
    default: fail ("mpi-usage", "operation %d not defined for the type", op);
    }
}
template <class T> static void redi (int op, const T *a, T *b, size_t n)
{
  if (op == O_BOR) for (size_t i = 0; i < n; i++) b[i] |= a[i];
  else if (op == O_BAND) for (size_t i = 0; i < n; i++) b[i] &= a[i];
  else if (op == O_BXOR) for (size_t i = 0; i < n; i++) b[i] ^= a[i];
  else red (op, a, b, n);
}
static void combine (ompi_op_t *op, ompi_datatype_t *t, const void *a, void *b, int n)   /* b = a op b */
{
  if (op->kind == O_USER) {
    MPI_Datatype tt = t;
    int len = n;
    op->fn ((void *) a, b, &len, &tt);
    return;
  }
  switch (t->kind) {
#define R1(K, T) case K: redi (op->kind, (const T *) a, (T *) b, n); break
    R1 (T_CHAR, char); R1 (T_SCHAR, signed char); R1 (T_UCHAR, unsigned char); R1 (T_I8, int8_t); R1 (T_BYTE, unsigned char);
    R1 (T_SHORT, short); R1 (T_USHORT, unsigned short); R1 (T_INT, int); R1 (T_UINT, unsigned); R1 (T_LONG, long); R1 (T_ULONG, unsigned long);
    R1 (T_LL, long long); R1 (T_ULL, unsigned long long);
#undef R1
  case T_FLOAT: red (op->kind, (const float *) a, (float *) b, n); break;
  case T_DOUBLE: red (op->kind, (const double *) a, (double *) b, n); break;
  case T_LDOUBLE: red (op->kind, (const long double *) a, (long double *) b, n); break;
  default: fail ("mpi-usage", "reduction of type %s", t->name);
  }
}
static std::vector<char> reduce_range (Coll &c, int lo, int hi, ompi_op_t *op, ompi_datatype_t *t, int n)
{
  std::vector<std::vector<char>> v;
  for (int i = lo; i < hi; i++) v.push_back (c.in[i]);
  bool fp = t->kind == T_FLOAT || t->kind == T_DOUBLE || t->kind == T_LDOUBLE;
  uint32_t sub = 0;
  if (pol.reassoc && v.size () > 2 && fp) {
    sub = choose (S, 1 << 16);
    if (sub) count (K_REASSOC);
  }
  uint64_t x = sub;
  while (v.size () > 1) {
    size_t k = 0;
    if (sub) { x = mix (x); k = x % (v.size () - 1); }
    /* v[k] op v[k+1] */
    combine (op, t, v[k].data (), v[k + 1].data (), n);
    v.erase (v.begin () + k);
  }
  return v.empty () ? std::vector<char> () : v[0];
}
static size_t tsz (MPI_Datatype t) { return t->size; }
static void put (std::vector<char> &d, const void *p, size_t n)
{
  d.resize (n);
  if (n) memcpy (d.data (), p, n);
}
static ompi_communicator_t *new_comm (const std::vector<int> &g)
{
  ompi_communicator_t *c = new ompi_communicator_t;
  c->id = next_comm_id++;
  c->g = g;
  live_comms.insert (c);
  return c;
}
static void copy_attrs (ompi_communicator_t *o, ompi_communicator_t *n)
{
  int w = me ();
  auto it = o->attr.find (w);
  if (it == o->attr.end ()) return;
  auto copy = it->second;
  for (auto &kv : copy) {
    Keyval &k = keyvals[kv.first];
    void *out = nullptr;
    int flag = 0;
    if (k.copy == MPI_COMM_DUP_FN || k.copy == (MPI_Comm_copy_attr_function *) OMPI_C_MPI_COMM_DUP_FN) { out = kv.second; flag = 1; }
    else if (k.copy == MPI_COMM_NULL_COPY_FN) flag = 0;
    else k.copy (o, kv.first, k.extra, kv.second, &out, &flag);
    if (flag) n->attr[w][kv.first] = out;
  }
}
static void delete_attr (ompi_communicator_t *c, int w, int kv)
{
  auto it = c->attr.find (w);
  if (it == c->attr.end () || !it->second.count (kv)) return;
  void *val = it->second[kv];
  it->second.erase (kv);
  Keyval &k = keyvals[kv];
  if (k.del && k.del != MPI_COMM_NULL_DELETE_FN) k.del (c, kv, val, k.extra);
}
static int node_of (int w)
{
  switch (pol.topo) {
  case 0: return 0;
  case 1: return w;
  case 2: return w / pol.topo_k;
  case 3: return w / std::max (1, world_size / std::max (1, pol.topo_k));
  default: return w < pol.topo_k ? 0 : 1 + (w - pol.topo_k) / (pol.topo_k + 1);
  }
}
}  // namespace sim

/* ------------------------------------------------------------- MPI entry points */
extern "C" {
int OMPI_C_MPI_COMM_NULL_DELETE_FN (MPI_Comm, int, void *, void *) { return 0; }
int OMPI_C_MPI_COMM_NULL_COPY_FN (MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return 0; }
int OMPI_C_MPI_COMM_DUP_FN (MPI_Comm, int, void *, void *in, void *out, int *flag) { *(void **) out = in; *flag = 1; return 0; }

int MPI_Init (int *, char ***) { guard::Sim own_; init_objects (); return 0; }
int MPI_Init_thread (int *, char ***, int, int *p) { guard::Sim own_; init_objects (); *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized (int *f) { guard::Sim own_; *f = 1; return 0; }
int MPI_Finalized (int *f) { guard::Sim own_; *f = 0; return 0; }
int MPI_Finalize (void) { guard::Sim own_; return 0; }
int MPI_Abort (MPI_Comm, int) { guard::Sim own_; fail ("abort", "rank %d called MPI_Abort; last message: %s", cur, shared ? shared->lasterr : ""); }
double MPI_Wtime (void)
{
  guard::Sim own_;
  init_objects ();
  if (cur < 0) return 0;
  Fiber &f = *fibers[cur];
  sim_us += 1;
  if (pol.clock == 2 && choose (S, 40) == 1) { f.clock_jump += 3600.0; count (K_CLOCK_JUMP); }
  return f.clock_off + f.clock_jump + 1e-6 * (double) sim_us * f.clock_rate;
}
double MPI_Wtick (void) { guard::Sim own_; return 1e-6; }
int MPI_Comm_size (MPI_Comm c, int *s) { guard::Sim own_; init_objects (); if (c->null) fail ("mpi-usage", "Comm_size on the null communicator"); *s = c->members (); return 0; }
int MPI_Comm_rank (MPI_Comm c, int *r) { guard::Sim own_; init_objects (); if (c->null) fail ("mpi-usage", "Comm_rank on the null communicator"); *r = crank (c, me ()); return 0; }
int MPI_Comm_compare (MPI_Comm a, MPI_Comm b, int *r)
{
  guard::Sim own_;
  if (a == b) *r = MPI_IDENT;
  else if (a->null || b->null) fail ("mpi-usage", "Comm_compare with the null communicator");
  else {
    std::vector<int> ga = a->self ? std::vector<int>{ me () } : a->g, gb = b->self ? std::vector<int>{ me () } : b->g;
    if (ga == gb) *r = MPI_CONGRUENT;
    else {
      std::sort (ga.begin (), ga.end ());
      std::sort (gb.begin (), gb.end ());
      *r = ga == gb ? MPI_SIMILAR : MPI_UNEQUAL;
    }
  }
  return 0;
}
int MPI_Send (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Send", c);
  Req *q = post_send (b, n * tsz (t), d, tag, c, false, false, true);
  if (!q) return 0;
  char what[80];
  snprintf (what, sizeof what, "MPI_Send to %d tag %d", d, tag);
  block_until (what, [q] { return q->complete; });
  finish_req (q, MPI_STATUS_IGNORE);
  return 0;
}
int MPI_Ssend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Ssend", c);
  Req *q = post_send (b, n * tsz (t), d, tag, c, true, true, false);
  block_until ("MPI_Ssend", [q] { return q->complete; });
  finish_req (q, MPI_STATUS_IGNORE);
  return 0;
}
int MPI_Isend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Isend", c);
  *rq = post_send (b, n * tsz (t), d, tag, c, true, false, false);
  return 0;
}
int MPI_Issend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Issend", c);
  *rq = post_send (b, n * tsz (t), d, tag, c, true, true, false);
  return 0;
}
int MPI_Recv (void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Recv", c);
  Req *q = post_recv (b, n * tsz (t), s, tag, c);
  char what[80];
  snprintf (what, sizeof what, "MPI_Recv from %d tag %d", s, tag);
  block_until (what, [q] { return q->complete; });
  finish_req (q, st);
  return 0;
}
int MPI_Irecv (void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Irecv", c);
  *rq = post_recv (b, n * tsz (t), s, tag, c);
  return 0;
}
int MPI_Sendrecv (const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Sendrecv", c);
  Req *r = post_recv (rb, rn * tsz (rt), s, rtag, c);
  Req *q = post_send (sb, sn * tsz (stp), d, stag, c, true, false, false);
  block_until ("MPI_Sendrecv", [q, r] { return q->complete && r->complete; });
  finish_req (q, MPI_STATUS_IGNORE);
  finish_req (r, st);
  return 0;
}
static bool probe_once (int s, int tag, MPI_Comm c, MPI_Status *st)
{
  Req q;
  q.owner = me ();
  q.src = s;
  q.tag = tag;
  q.comm = c;
  std::vector<Msg *> v;
  candidates (&q, v);
  if (v.empty ()) return false;
  uint32_t k = 0;
  if (v.size () > 1) { k = choose (S, (uint32_t) v.size ()); count (K_ANYSRC_CHOICE); }
  if (st != MPI_STATUS_IGNORE) set_status (*st, v[k]);
  return true;
}
int MPI_Probe (int s, int tag, MPI_Comm c, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Probe", c);
  if (s != MPI_ANY_SOURCE && (s < 0 || s >= c->members ())) fail ("mpi-usage", "probe for invalid rank %d (communicator size %d)", s, c->members ());
  int w = me ();
  char what[80];
  snprintf (what, sizeof what, "MPI_Probe from %d tag %d", s, tag);
  block_until (what, [=] {
    Req q;
    q.owner = w;
    q.src = s;
    q.tag = tag;
    q.comm = c;
    std::vector<Msg *> v;
    candidates (&q, v);
    return !v.empty ();
  });
  if (!probe_once (s, tag, c, st)) fail ("harness", "probe");
  return 0;
}
int MPI_Iprobe (int s, int tag, MPI_Comm c, int *flag, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Iprobe", c);
  *flag = probe_once (s, tag, c, st);
  progress_poll (*flag);
  return 0;
}
int MPI_Get_count (const MPI_Status *st, MPI_Datatype t, int *n)
{
  guard::Sim own_;
  if (t->size == 0) *n = 0;
  else if (st->_ucount % t->size) *n = MPI_UNDEFINED;
  else *n = (int) (st->_ucount / t->size);
  return 0;
}
int MPI_Wait (MPI_Request *rq, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Wait", nullptr);
  Req *q = R (*rq);
  check_req (q);
  if (q->null) { empty_status (st); return 0; }
  block_until (q->is_send ? "MPI_Wait (send)" : "MPI_Wait (receive)", [q] { return req_done (q); });
  finish_req (q, st);
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall (int n, MPI_Request *rq, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Waitall", nullptr);
  std::vector<Req *> v;
  for (int i = 0; i < n; i++) { check_req (R (rq[i])); v.push_back (R (rq[i])); }
  block_until ("MPI_Waitall", [&v] {
    for (Req *q : v) if (!req_done (q)) return false;
    return true;
  });
  for (int i = 0; i < n; i++) {
    MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i;
    if (v[i]->null) { empty_status (s); continue; }
    finish_req (v[i], s);
    rq[i] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Waitsome (int n, MPI_Request *rq, int *outc, int *idx, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Waitsome", nullptr);
  std::vector<Req *> v;
  bool active = false;
  for (int i = 0; i < n; i++) { check_req (R (rq[i])); v.push_back (R (rq[i])); if (!v[i]->null) active = true; }
  if (!active) { *outc = MPI_UNDEFINED; return 0; }
  block_until ("MPI_Waitsome", [&v] {
    for (Req *q : v) if (!q->null && req_done (q)) return true;
    return false;
  });
  int k = 0;
  for (int i = 0; i < n; i++)
    if (!v[i]->null && req_done (v[i])) {
      if (k > 0 && pol.collexit == 2 && choose (S, 2)) continue;   /* report only some */
      finish_req (v[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + k);
      rq[i] = MPI_REQUEST_NULL;
      idx[k++] = i;
    }
  *outc = k;
  return 0;
}
int MPI_Waitany (int n, MPI_Request *rq, int *idx, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Waitany", nullptr);
  std::vector<Req *> v;
  bool active = false;
  for (int i = 0; i < n; i++) { check_req (R (rq[i])); v.push_back (R (rq[i])); if (!v[i]->null) active = true; }
  if (!active) { *idx = MPI_UNDEFINED; empty_status (st); return 0; }
  block_until ("MPI_Waitany", [&v] {
    for (Req *q : v) if (!q->null && req_done (q)) return true;
    return false;
  });
  std::vector<int> ok;
  for (int i = 0; i < n; i++) if (!v[i]->null && req_done (v[i])) ok.push_back (i);
  int i = ok[choose (S, (uint32_t) ok.size ())];
  finish_req (v[i], st);
  rq[i] = MPI_REQUEST_NULL;
  *idx = i;
  return 0;
}
int MPI_Test (MPI_Request *rq, int *flag, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Test", nullptr);
  Req *q = R (*rq);
  check_req (q);
  if (q->null) { *flag = 1; empty_status (st); return 0; }
  *flag = req_done (q);
  progress_poll (*flag);
  if (*flag) { finish_req (q, st); *rq = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Testall (int n, MPI_Request *rq, int *flag, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Testall", nullptr);
  *flag = 1;
  for (int i = 0; i < n; i++) { check_req (R (rq[i])); if (!req_done (R (rq[i]))) *flag = 0; }
  progress_poll (*flag);
  if (*flag)
    for (int i = 0; i < n; i++) {
      MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i;
      if (R (rq[i])->null) { empty_status (s); continue; }
      finish_req (R (rq[i]), s);
      rq[i] = MPI_REQUEST_NULL;
    }
  return 0;
}
int MPI_Testany (int n, MPI_Request *rq, int *idx, int *flag, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Testany", nullptr);
  std::vector<int> ok;
  bool active = false;
  for (int i = 0; i < n; i++) {
    check_req (R (rq[i]));
    if (R (rq[i])->null) continue;
    active = true;
    if (req_done (R (rq[i]))) ok.push_back (i);
  }
  *idx = MPI_UNDEFINED;
  *flag = !active || !ok.empty ();
  progress_poll (*flag);
  if (!active) empty_status (st);
  else if (!ok.empty ()) {
    *idx = ok[choose (S, (uint32_t) ok.size ())];
    finish_req (R (rq[*idx]), st);
    rq[*idx] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Testsome (int n, MPI_Request *rq, int *outc, int *idx, MPI_Status *st)
{
  guard::Sim own_;
  call ("MPI_Testsome", nullptr);
  bool active = false;
  int k = 0;
  for (int i = 0; i < n; i++) {
    check_req (R (rq[i]));
    if (R (rq[i])->null) continue;
    active = true;
    if (!req_done (R (rq[i]))) continue;
    finish_req (R (rq[i]), st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + k);
    rq[i] = MPI_REQUEST_NULL;
    idx[k++] = i;
  }
  progress_poll (k > 0 || !active);
  *outc = active ? k : MPI_UNDEFINED;
  return 0;
}
int MPI_Request_free (MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Request_free", nullptr, false);
  Req *q = R (*rq);
  check_req (q);
  if (q->null) fail ("mpi-usage", "rank %d frees the null request", cur);
  if (q->complete) {
    if (q->m) q->m->sreq = nullptr;
    live_reqs.erase (q);
    delete q;
  }
  else q->freed = true;
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Bsend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { guard::Sim own_; return MPI_Send (b, n, t, d, tag, c); }
int MPI_Rsend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { guard::Sim own_; return MPI_Send (b, n, t, d, tag, c); }
int MPI_Ibsend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq) { guard::Sim own_; return MPI_Isend (b, n, t, d, tag, c, rq); }
int MPI_Irsend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq) { guard::Sim own_; return MPI_Isend (b, n, t, d, tag, c, rq); }
int MPI_Barrier (MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Barrier", c);
  CollRef x = coll_enter (c, C_BARRIER, -1, 0, 0);
  wait_all (x);
  coll_leave (x);
  return 0;
}
int MPI_Ibarrier (MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Ibarrier", c);
  CollRef x = coll_enter (c, C_IBARRIER, -1, 0, 0);
  Req *q = new Req;
  q->is_barrier = true;
  q->owner = me ();
  auto done = std::make_shared<bool> (false);
  Coll *cc = x.c;
  auto xx = std::make_shared<CollRef> (x);
  q->test = [cc, done, xx] {
    if (*done) return true;
    if (cc->arrived == cc->n) { *done = true; coll_leave (*xx); return true; }
    return false;
  };
  live_reqs.insert (q);
  *rq = q;
  return 0;
}
int MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Bcast", c);
  size_t bytes = n * tsz (t);
  if (root < 0 || root >= c->members ()) fail ("mpi-usage", "MPI_Bcast with root %d", root);
  CollRef x = coll_enter (c, C_BCAST, root, 0, (long) bytes);
  if (x.r == root) put (x.c->in[root], b, bytes);
  else if (pol.scribble && bytes) memset (b, 0xDB, bytes);
  wait_for (x, root, root + 1);
  if (x.r != root && bytes) memcpy (b, x.c->in[root].data (), bytes);
  coll_leave (x);
  return 0;
}
int MPI_Allreduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Allreduce", c);
  size_t bytes = n * tsz (t);
  CollRef x = coll_enter (c, C_ALLREDUCE, -1, op->kind, (long) bytes);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? r : s, bytes);
  wait_all (x);
  if (!x.c->computed) { x.c->out = reduce_range (*x.c, 0, x.c->n, op, t, n); x.c->computed = true; }
  if (bytes) memcpy (r, x.c->out.data (), bytes);
  coll_leave (x);
  return 0;
}
int MPI_Reduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Reduce", c);
  size_t bytes = n * tsz (t);
  CollRef x = coll_enter (c, C_REDUCE, root, op->kind, (long) bytes);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? r : s, bytes);
  if (x.r == root) wait_all (x); else wait_for (x, x.r, x.r + 1);
  if (x.r == root && bytes) { x.c->out = reduce_range (*x.c, 0, x.c->n, op, t, n); memcpy (r, x.c->out.data (), bytes); }
  coll_leave (x);
  return 0;
}
static int scan_common (int kind, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  size_t bytes = n * tsz (t);
  CollRef x = coll_enter (c, kind, -1, op->kind, (long) bytes);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? r : s, bytes);
  int hi = kind == C_SCAN ? x.r + 1 : x.r;
  wait_for (x, 0, hi);
  if (hi > 0 && bytes) {
    std::vector<char> o = reduce_range (*x.c, 0, hi, op, t, n);
    memcpy (r, o.data (), bytes);
  }
  else if (pol.scribble && bytes) memset (r, 0xDB, bytes);   /* Exscan on rank 0: undefined */
  coll_leave (x);
  return 0;
}
int MPI_Scan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { guard::Sim own_; call ("MPI_Scan", c); return scan_common (C_SCAN, s, r, n, t, op, c); }
int MPI_Exscan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { guard::Sim own_; call ("MPI_Exscan", c); return scan_common (C_EXSCAN, s, r, n, t, op, c); }
int MPI_Allgather (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Allgather", c);
  size_t rb = rn * tsz (rt), sb = s == MPI_IN_PLACE ? rb : sn * tsz (st);
  if (sb != rb) fail ("mpi-usage", "MPI_Allgather sends %zu and receives %zu bytes per rank", sb, rb);
  CollRef x = coll_enter (c, C_ALLGATHER, -1, 0, (long) sb);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? (char *) r + x.r * rb : s, sb);
  wait_all (x);
  for (int i = 0; i < x.c->n && rb; i++) memcpy ((char *) r + i * rb, x.c->in[i].data (), rb);
  coll_leave (x);
  return 0;
}
int MPI_Allgatherv (const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *ds, MPI_Datatype rt, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Allgatherv", c);
  CollRef x = coll_enter (c, C_ALLGATHERV, -1, 0, -1);
  if (s == MPI_IN_PLACE) put (x.c->in[x.r], (char *) r + ds[x.r] * tsz (rt), rn[x.r] * tsz (rt));
  else put (x.c->in[x.r], s, sn * tsz (st));
  wait_all (x);
  for (int i = 0; i < x.c->n; i++) {
    size_t b = rn[i] * tsz (rt);
    if (b != x.c->in[i].size ()) fail ("mpi-usage", "MPI_Allgatherv: rank %d expects %zu bytes from %d, which sends %zu", x.r, b, i, x.c->in[i].size ());
    if (b) memcpy ((char *) r + ds[i] * tsz (rt), x.c->in[i].data (), b);
  }
  coll_leave (x);
  return 0;
}
int MPI_Gather (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Gather", c);
  CollRef x = coll_enter (c, C_GATHER, root, 0, s == MPI_IN_PLACE ? -1 : (long) (sn * tsz (st)));
  if (s == MPI_IN_PLACE) put (x.c->in[x.r], (char *) r + x.r * rn * tsz (rt), rn * tsz (rt));
  else put (x.c->in[x.r], s, sn * tsz (st));
  if (x.r == root) {
    wait_all (x);
    size_t rb = rn * tsz (rt);
    for (int i = 0; i < x.c->n && rb; i++) {
      if (x.c->in[i].size () != rb) fail ("mpi-usage", "MPI_Gather: %zu bytes from rank %d, %zu expected", x.c->in[i].size (), i, rb);
      memcpy ((char *) r + i * rb, x.c->in[i].data (), rb);
    }
  }
  else wait_for (x, x.r, x.r + 1);
  coll_leave (x);
  return 0;
}
int MPI_Gatherv (const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *ds, MPI_Datatype rt, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Gatherv", c);
  CollRef x = coll_enter (c, C_GATHERV, root, 0, -1);
  if (s == MPI_IN_PLACE) put (x.c->in[x.r], (char *) r + ds[x.r] * tsz (rt), rn[x.r] * tsz (rt));
  else put (x.c->in[x.r], s, sn * tsz (st));
  if (x.r == root) {
    wait_all (x);
    for (int i = 0; i < x.c->n; i++) {
      size_t b = rn[i] * tsz (rt);
      if (b != x.c->in[i].size ()) fail ("mpi-usage", "MPI_Gatherv: root expects %zu bytes from %d, which sends %zu", b, i, x.c->in[i].size ());
      if (b) memcpy ((char *) r + ds[i] * tsz (rt), x.c->in[i].data (), b);
    }
  }
  else wait_for (x, x.r, x.r + 1);
  coll_leave (x);
  return 0;
}
int MPI_Scatter (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Scatter", c);
  CollRef x = coll_enter (c, C_SCATTER, root, 0, -1);
  if (x.r == root) put (x.c->in[root], s, sn * tsz (st) * x.c->n);
  wait_for (x, root, root + 1);
  size_t b = rn * tsz (rt);
  if (r != MPI_IN_PLACE && b) memcpy (r, x.c->in[root].data () + x.r * b, b);
  coll_leave (x);
  return 0;
}
int MPI_Scatterv (const void *s, const int *sn, const int *ds, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Scatterv", c);
  CollRef x = coll_enter (c, C_SCATTERV, root, 0, -1);
  if (x.r == root) {
    x.c->p.resize (x.c->n);
    std::vector<char> all;
    std::vector<long> off (x.c->n), len (x.c->n);
    for (int i = 0; i < x.c->n; i++) {
      off[i] = (long) all.size ();
      len[i] = (long) (sn[i] * tsz (st));
      all.insert (all.end (), (const char *) s + ds[i] * tsz (st), (const char *) s + ds[i] * tsz (st) + len[i]);
    }
    x.c->in[root] = all;
    x.c->a = off;
    x.c->b = len;
  }
  wait_for (x, root, root + 1);
  if (r != MPI_IN_PLACE) {
    if ((long) (rn * tsz (rt)) < x.c->b[x.r]) fail ("truncation", "MPI_Scatterv");
    memcpy (r, x.c->in[root].data () + x.c->a[x.r], x.c->b[x.r]);
  }
  coll_leave (x);
  return 0;
}
int MPI_Alltoall (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Alltoall", c);
  size_t b = rn * tsz (rt);
  (void) sn;
  (void) st;
  CollRef x = coll_enter (c, C_ALLTOALL, -1, 0, (long) b);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? r : s, b * x.c->n);
  wait_all (x);
  for (int i = 0; i < x.c->n && b; i++) memcpy ((char *) r + i * b, x.c->in[i].data () + x.r * b, b);
  coll_leave (x);
  return 0;
}
int MPI_Alltoallv (const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Alltoallv", c);
  CollRef x = coll_enter (c, C_ALLTOALL, -1, 1, -1);
  std::vector<char> &in = x.c->in[x.r];
  for (int i = 0; i < x.c->n; i++) {
    uint64_t b = sn[i] * tsz (st);
    in.insert (in.end (), (char *) &b, (char *) (&b + 1));
    in.insert (in.end (), (const char *) s + sd[i] * tsz (st), (const char *) s + sd[i] * tsz (st) + b);
  }
  wait_all (x);
  for (int i = 0; i < x.c->n; i++) {
    const char *p = x.c->in[i].data ();
    uint64_t b = 0;
    for (int j = 0; j <= x.r; j++) {
      if (j) p += b;
      memcpy (&b, p, sizeof b);
      p += sizeof b;
    }
    if (b != rn[i] * tsz (rt)) fail ("mpi-usage", "MPI_Alltoallv: rank %d expects %zu bytes from %d, which sends %zu", x.r, rn[i] * tsz (rt), i, (size_t) b);
    if (b) memcpy ((char *) r + rd[i] * tsz (rt), p, b);
  }
  coll_leave (x);
  return 0;
}
/* nonblocking collectives: the result is written when the request completes */
static int icoll (ompi_communicator_t *c, int kind, int root, int opk, long sig, const void *in, size_t inb, int need, std::function<void (Coll &, int)> fin, MPI_Request *rq)
{
  CollRef x = coll_enter (c, kind, root, opk, sig);
  if (in) put (x.c->in[x.r], in, inb);
  Req *q = new Req;
  q->is_barrier = true;
  q->owner = me ();
  auto done = std::make_shared<bool> (false);
  auto xx = std::make_shared<CollRef> (x);
  q->test = [done, xx, need, fin] {
    if (*done) return true;
    Coll *cc = xx->c;
    if (need >= 0 ? !cc->have[need] : cc->arrived != cc->n) return false;
    fin (*cc, xx->r);
    *done = true;
    coll_leave (*xx);
    return true;
  };
  live_reqs.insert (q);
  *rq = q;
  return 0;
}
int MPI_Ibcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Ibcast", c);
  size_t bytes = n * tsz (t);
  bool isroot = crank (c, me ()) == root;
  return icoll (c, C_BCAST, root, 1, (long) bytes, isroot ? b : nullptr, bytes, root, [=] (Coll &k, int r) { if (r != root && bytes) memcpy (b, k.in[root].data (), bytes); }, rq);
}
int MPI_Iallreduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Iallreduce", c);
  size_t bytes = n * tsz (t);
  return icoll (c, C_ALLREDUCE, -1, 1000 + op->kind, (long) bytes, s == MPI_IN_PLACE ? r : s, bytes, -1, [=] (Coll &k, int) {
    if (!k.computed) { k.out = reduce_range (k, 0, k.n, op, t, n); k.computed = true; }
    if (bytes) memcpy (r, k.out.data (), bytes);
  }, rq);
}
int MPI_Iallgather (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq)
{
  guard::Sim own_;
  call ("MPI_Iallgather", c);
  size_t rb = rn * tsz (rt);
  (void) sn; (void) st;
  return icoll (c, C_ALLGATHER, -1, 1, (long) rb, s == MPI_IN_PLACE ? (char *) r + crank (c, me ()) * rb : s, rb, -1,
                [=] (Coll &k, int) { for (int i = 0; i < k.n && rb; i++) memcpy ((char *) r + i * rb, k.in[i].data (), rb); }, rq);
}
int MPI_Reduce_scatter_block (const void *s, void *r, int rn, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  guard::Sim own_;
  call ("MPI_Reduce_scatter_block", c);
  size_t b = rn * tsz (t);
  CollRef x = coll_enter (c, C_RSB, -1, op->kind, (long) b);
  put (x.c->in[x.r], s == MPI_IN_PLACE ? r : s, b * x.c->n);
  wait_all (x);
  std::vector<char> o = reduce_range (*x.c, 0, x.c->n, op, t, rn * x.c->n);
  if (b) memcpy (r, o.data () + x.r * b, b);
  coll_leave (x);
  return 0;
}
int MPI_Comm_dup (MPI_Comm c, MPI_Comm *n)
{
  guard::Sim own_;
  call ("MPI_Comm_dup", c);
  CollRef x = coll_enter (c, C_DUP, -1, 0, 0);
  wait_all (x);
  if (!x.c->newcomm[0]) x.c->newcomm[0] = new_comm (c->self ? std::vector<int>{ me () } : c->g);
  ompi_communicator_t *nc = x.c->newcomm[0];
  coll_leave (x);
  copy_attrs (c, nc);
  *n = nc;
  return 0;
}
static int split_common (MPI_Comm c, int kind, int color, int key, MPI_Comm *n)
{
  CollRef x = coll_enter (c, kind, -1, 0, 0);
  x.c->a[x.r] = color;
  x.c->b[x.r] = key;
  wait_all (x);
  if (!x.c->computed) {
    std::map<long, std::vector<std::pair<long, int>>> groups;
    for (int i = 0; i < x.c->n; i++) if (x.c->a[i] != MPI_UNDEFINED) groups[x.c->a[i]].push_back ({ x.c->b[i], i });
    for (auto &g : groups) {
      std::stable_sort (g.second.begin (), g.second.end ());
      std::vector<int> w;
      for (auto &p : g.second) w.push_back (c->self ? me () : c->g[p.second]);
      ompi_communicator_t *nc = new_comm (w);
      for (auto &p : g.second) x.c->newcomm[p.second] = nc;
    }
    x.c->computed = true;
  }
  *n = x.c->newcomm[x.r] ? x.c->newcomm[x.r] : MPI_COMM_NULL;
  coll_leave (x);
  return 0;
}
int MPI_Comm_split (MPI_Comm c, int color, int key, MPI_Comm *n) { guard::Sim own_; call ("MPI_Comm_split", c); return split_common (c, C_SPLIT, color, key, n); }
int MPI_Comm_split_type (MPI_Comm c, int type, int key, MPI_Info, MPI_Comm *n)
{
  guard::Sim own_;
  call ("MPI_Comm_split_type", c);
  return split_common (c, C_SPLITT, type == MPI_UNDEFINED ? MPI_UNDEFINED : node_of (me ()), key, n);
}
int MPI_Comm_create (MPI_Comm c, MPI_Group g, MPI_Comm *n)
{
  guard::Sim own_;
  call ("MPI_Comm_create", c);
  CollRef x = coll_enter (c, C_CREATE, -1, 0, 0);
  wait_all (x);
  bool in = std::find (g->g.begin (), g->g.end (), me ()) != g->g.end ();
  if (in) {
    if (!x.c->newcomm[0]) x.c->newcomm[0] = new_comm (g->g);
    *n = x.c->newcomm[0];
  }
  else *n = MPI_COMM_NULL;
  coll_leave (x);
  return 0;
}
int MPI_Comm_free (MPI_Comm *c)
{
  guard::Sim own_;
  call ("MPI_Comm_free", *c);
  ompi_communicator_t *k = *c;
  if (k == MPI_COMM_WORLD || k == MPI_COMM_SELF) fail ("mpi-usage", "MPI_Comm_free of a predefined communicator");
  int w = me ();
  std::vector<int> kv;
  for (auto &p : k->attr[w]) kv.push_back (p.first);
  for (int v : kv) delete_attr (k, w, v);
  k->attr.erase (w);
  if (crank (k, w) >= 0) k->freed.insert (w);
  if (k->freed.size () == k->g.size ()) live_comms.erase (k);   /* memory kept: late uses are reported */
  *c = MPI_COMM_NULL;
  return 0;
}
}
/* MPI_Finalize releases what is attached to the predefined communicators */
void sim::finalize ()
{
  for (ompi_communicator_t *k : { MPI_COMM_SELF, MPI_COMM_WORLD }) {
    std::vector<int> kv;
    for (auto &p : k->attr[me ()]) kv.push_back (p.first);
    for (int v : kv) delete_attr (k, me (), v);
    k->attr.erase (me ());
  }
}
extern "C" {
int MPI_Comm_create_keyval (MPI_Comm_copy_attr_function *cf, MPI_Comm_delete_attr_function *df, int *kv, void *ex)
{
  guard::Sim own_;
  init_objects ();
  *kv = next_keyval++;
  keyvals[*kv] = { cf, df, ex };
  return 0;
}
int MPI_Comm_free_keyval (int *kv) { guard::Sim own_; *kv = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr (MPI_Comm c, int kv, void *v)
{
  guard::Sim own_;
  int w = me ();
  delete_attr (c, w, kv);
  c->attr[w][kv] = v;
  return 0;
}
int MPI_Comm_get_attr (MPI_Comm c, int kv, void *v, int *flag)
{
  guard::Sim own_;
  int w = me ();
  static int tagub = 0x7fffffff;
  if (kv == MPI_TAG_UB) { *(void **) v = &tagub; *flag = 1; return 0; }
  auto it = c->attr.find (w);
  if (it == c->attr.end () || !it->second.count (kv)) { *flag = 0; return 0; }
  *(void **) v = it->second[kv];
  *flag = 1;
  return 0;
}
int MPI_Comm_delete_attr (MPI_Comm c, int kv) { guard::Sim own_; delete_attr (c, me (), kv); return 0; }
int MPI_Comm_group (MPI_Comm c, MPI_Group *g)
{
  guard::Sim own_;
  *g = new ompi_group_t;
  live_groups++;
  (*g)->g = c->self ? std::vector<int>{ me () } : c->g;
  return 0;
}
int MPI_Group_free (MPI_Group *g) { guard::Sim own_; if (*g != MPI_GROUP_NULL && *g != MPI_GROUP_EMPTY) { delete *g; live_groups--; } *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size (MPI_Group g, int *n) { guard::Sim own_; *n = (int) g->g.size (); return 0; }
int MPI_Group_rank (MPI_Group g, int *r)
{
  guard::Sim own_;
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < g->g.size (); i++) if (g->g[i] == me ()) *r = (int) i;
  return 0;
}
int MPI_Group_incl (MPI_Group g, int n, const int *r, MPI_Group *o)
{
  guard::Sim own_;
  *o = new ompi_group_t;
  live_groups++;
  for (int i = 0; i < n; i++) (*o)->g.push_back (g->g[r[i]]);
  return 0;
}
int MPI_Group_union (MPI_Group a, MPI_Group b, MPI_Group *o)
{
  guard::Sim own_;
  *o = new ompi_group_t;
  live_groups++;
  (*o)->g = a->g;
  for (int w : b->g) if (std::find ((*o)->g.begin (), (*o)->g.end (), w) == (*o)->g.end ()) (*o)->g.push_back (w);
  return 0;
}
int MPI_Group_translate_ranks (MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
  guard::Sim own_;
  for (int i = 0; i < n; i++) {
    rb[i] = MPI_UNDEFINED;
    for (size_t k = 0; k < b->g.size (); k++) if (b->g[k] == a->g[ra[i]]) rb[i] = (int) k;
  }
  return 0;
}
int MPI_Group_compare (MPI_Group a, MPI_Group b, int *r)
{
  guard::Sim own_;
  if (a->g == b->g) *r = MPI_IDENT;
  else {
    auto x = a->g, y = b->g;
    std::sort (x.begin (), x.end ());
    std::sort (y.begin (), y.end ());
    *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return 0;
}
int MPI_Type_size (MPI_Datatype t, int *n) { guard::Sim own_; *n = (int) t->size; return 0; }
int MPI_Type_contiguous (int n, MPI_Datatype t, MPI_Datatype *o) { guard::Sim own_; *o = new ompi_datatype_t (n * t->size, T_USER, "user"); live_types++; return 0; }
int MPI_Type_commit (MPI_Datatype *) { guard::Sim own_; return 0; }
int MPI_Type_free (MPI_Datatype *t) { guard::Sim own_; delete *t; live_types--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Op_create (MPI_User_function *f, int, MPI_Op *o) { guard::Sim own_; *o = new ompi_op_t (O_USER); (*o)->fn = f; live_ops++; return 0; }
int MPI_Op_free (MPI_Op *o) { guard::Sim own_; delete *o; live_ops--; *o = MPI_OP_NULL; return 0; }
int MPI_Pack_size (int n, MPI_Datatype t, MPI_Comm, int *s) { guard::Sim own_; *s = (int) (n * t->size); return 0; }
int MPI_Pack (const void *in, int n, MPI_Datatype t, void *out, int osz, int *pos, MPI_Comm)
{
  guard::Sim own_;
  size_t b = n * t->size;
  if (*pos < 0 || *pos + b > (size_t) osz) fail ("pack-overflow", "MPI_Pack of %zu bytes at position %d into %d bytes (rank %d)", b, *pos, osz, cur);
  if (b) memcpy ((char *) out + *pos, in, b);
  *pos += (int) b;
  return 0;
}
int MPI_Unpack (const void *in, int isz, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm)
{
  guard::Sim own_;
  size_t b = n * t->size;
  if (n < 0 || *pos < 0 || *pos + b > (size_t) isz) fail ("pack-overflow", "MPI_Unpack of %zu bytes at position %d from %d bytes (rank %d)", b, *pos, isz, cur);
  if (b) memcpy (out, (const char *) in + *pos, b);
  *pos += (int) b;
  return 0;
}
int MPI_Alloc_mem (MPI_Aint n, MPI_Info, void *p) { guard::Sim own_; *(void **) p = malloc (n); return 0; }
int MPI_Free_mem (void *p) { guard::Sim own_; free (p); return 0; }
int MPI_Error_string (int, char *s, int *n) { guard::Sim own_; strcpy (s, "error"); *n = 5; return 0; }
int MPI_Error_class (int e, int *c) { guard::Sim own_; *c = e; return 0; }
int MPI_Get_processor_name (char *s, int *n) { guard::Sim own_; strcpy (s, "sim"); *n = 3; return 0; }
int MPI_Comm_set_errhandler (MPI_Comm, MPI_Errhandler) { guard::Sim own_; return 0; }

int MPI_Win_allocate_shared (MPI_Aint size, int unit, MPI_Info, MPI_Comm c, void *base, MPI_Win *win)
{
  guard::Sim own_;
  call ("MPI_Win_allocate_shared", c);
  CollRef x = coll_enter (c, C_WIN, -1, 0, 0);
  x.c->a[x.r] = (long) size;
  x.c->b[x.r] = unit;
  for (int i = 0; i < x.c->n; i++)
    if (i != x.r && x.c->have[i] && node_of (wrank (c, i)) != node_of (me ()))
      fail ("mpi-usage", "shared memory window over ranks of different nodes");
  wait_all (x);
  if (!x.c->win) {
    ompi_win_t *w = new ompi_win_t;
    w->id = next_comm_id++;
    w->comm = c;
    size_t tot = 0;
    for (int i = 0; i < x.c->n; i++) tot += x.c->a[i];
    w->block = (char *) malloc (tot + 64);
    memset (w->block, 0xC3, tot + 64);
    size_t off = 0;
    for (int i = 0; i < x.c->n; i++) {
      w->base.push_back (w->block + off);
      w->size.push_back (x.c->a[i]);
      w->unit.push_back ((int) x.c->b[i]);
      off += x.c->a[i];
    }
    live_wins.insert (w);
    x.c->win = w;
  }
  *win = x.c->win;
  *(void **) base = x.c->win->base[x.r];
  coll_leave (x);
  return 0;
}
int MPI_Win_shared_query (MPI_Win w, int r, MPI_Aint *size, int *unit, void *base)
{
  guard::Sim own_;
  if (r == MPI_PROC_NULL) {
    for (r = 0; r < (int) w->size.size () && w->size[r] == 0; r++) { }
    if (r == (int) w->size.size ()) r = 0;
  }
  *size = w->size[r];
  *unit = w->unit[r];
  *(void **) base = w->base[r];
  return 0;
}
int MPI_Win_free (MPI_Win *win)
{
  guard::Sim own_;
  ompi_win_t *w = *win;
  call ("MPI_Win_free", w->comm);
  CollRef x = coll_enter (w->comm, C_WINFREE, -1, 0, 0);
  wait_all (x);
  for (auto &l : w->locks) if (l.first.second == me ()) fail ("mpi-usage", "window freed while locked by rank %d", me ());
  if (++w->nfreed == x.c->n) {
    memset (w->block, 0x7E, 1);
    free (w->block);
    live_wins.erase (w);
    delete w;
  }
  coll_leave (x);
  *win = MPI_WIN_NULL;
  return 0;
}
int MPI_Win_lock (int type, int target, int assert_, MPI_Win w)
{
  guard::Sim own_;
  call ("MPI_Win_lock", nullptr);
  int self = me ();
  (void) assert_;
  block_until ("MPI_Win_lock", [=] {
    for (auto &l : w->locks)
      if (l.first.first == target && (type == MPI_LOCK_EXCLUSIVE || l.second == MPI_LOCK_EXCLUSIVE)) return false;
    return true;
  });
  w->locks[{ target, self }] = type;
  return 0;
}
int MPI_Win_unlock (int target, MPI_Win w)
{
  guard::Sim own_;
  call ("MPI_Win_unlock", nullptr);
  if (!w->locks.erase ({ target, me () })) fail ("mpi-usage", "unlock of a window that is not locked (rank %d)", me ());
  return 0;
}
int MPI_Win_fence (int, MPI_Win w)
{
  guard::Sim own_;
  call ("MPI_Win_fence", w->comm);
  CollRef x = coll_enter (w->comm, C_FENCE, -1, 0, 0);
  wait_all (x);
  coll_leave (x);
  return 0;
}
int MPI_Win_sync (MPI_Win) { guard::Sim own_; return 0; }
#define UNSUP(f) fail ("harness", "MPI function not simulated: " f)
int MPI_Win_create (void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *) { guard::Sim own_; UNSUP ("MPI_Win_create"); }
int MPI_Accumulate (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win) { guard::Sim own_; UNSUP ("MPI_Accumulate"); }
int MPI_File_open (MPI_Comm, const char *, int, MPI_Info, MPI_File *) { guard::Sim own_; UNSUP ("MPI_File_open"); }
int MPI_File_close (MPI_File *) { guard::Sim own_; UNSUP ("MPI_File_close"); }
int MPI_File_read (MPI_File, void *, int, MPI_Datatype, MPI_Status *) { guard::Sim own_; UNSUP ("MPI_File_read"); }
int MPI_File_write (MPI_File, const void *, int, MPI_Datatype, MPI_Status *) { guard::Sim own_; UNSUP ("MPI_File_write"); }
int MPI_File_seek (MPI_File, MPI_Offset, int) { guard::Sim own_; UNSUP ("MPI_File_seek"); }
int MPI_File_get_position (MPI_File, MPI_Offset *) { guard::Sim own_; UNSUP ("MPI_File_get_position"); }

/* The C library's generator has one state per process; the ranks here share one process, so each gets its own. */
static uint64_t rnd_outside = 1;
void srand (unsigned s) { (cur >= 0 ? fibers[cur]->rnd : rnd_outside) = s; }
int rand (void)
{
  uint64_t &x = cur >= 0 ? fibers[cur]->rnd : rnd_outside;
  x = x * 6364136223846793005ull + 1442695040888963407ull;
  uint64_t y = x ^ (x >> 29);
  return (int) ((y * 0x9e3779b97f4a7c15ull) >> 33);
}
void srandom (unsigned s) { srand (s); }
long random (void) { return rand (); }

/* missing in libsc 2.3.6 */
unsigned __wrap_sleep (unsigned) { return 0; }
int sc_get_package_id (void) { return sc_package_id; }
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intra = sc_MPI_COMM_NULL, inter = sc_MPI_COMM_NULL;
  int n = 0;
  sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  if (intra == sc_MPI_COMM_NULL) {
    sc_mpi_comm_attach_node_comms (comm, 0);
    sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  }
  if (intra != sc_MPI_COMM_NULL) MPI_Comm_size (intra, &n);
  return n;
}
}
