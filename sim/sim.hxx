/* Deterministic simulation of an MPI job inside one process.
 *
 * Every rank is a fiber; a seeded scheduler decides which rank runs after
 * every MPI call, when a message becomes visible, when its payload is read and
 * written, which send is buffered, in which order reductions associate and how
 * ranks are laid out on nodes.  All decisions come from three choice tapes
 * (workload, schedule, fault); value 0 of every choice is the simplest one, so
 * that a tape can be shrunk and an exhausted tape is still a legal execution. */
#ifndef VERIF_SIM_HXX
#define VERIF_SIM_HXX
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
enum Stream { W = 0, S = 1, F = 2, NSTREAM = 3 };

/* The tapes live outside of the heap, so that recording and replaying a tape
 * leaves the heap of the program under test exactly the same. */
constexpr size_t TAPE_CAP = 1 << 22;
struct Tape
{
  uint32_t *v = nullptr;      /* recorded or replayed values */
  size_t n = 0, pos = 0;
  bool replay = false;
  uint64_t prng = 0;
};

/* one choice in [0,n); weight_zero = probability (per mille) of value 0 when
 * drawn from the PRNG, the rest is uniform over 1..n-1; <0: uniform. */
uint32_t choose (Stream s, uint32_t n, int weight_zero = -1);
/* value from the tape, but drawn by the given sampler when not replaying */
uint32_t choose_by (Stream s, uint32_t n, const std::function<uint32_t (uint64_t)> &sampler);
/* to run the same workload again */
size_t tape_pos (Stream s);
void tape_rewind (Stream s, size_t pos);
inline bool chance (Stream s, int permille) { return choose (s, 2, 1000 - permille) == 1; }
inline int range (Stream s, int lo, int hi) { return lo + (int) choose (s, (uint32_t) (hi - lo + 1)); }

/* Fault and probe counters, by small fixed index (see names in sim.cxx). */
enum Counter {
  K_RUNS, K_STEPS, K_SWITCHES, K_MSGS, K_BYTES, K_COLL, K_EAGER, K_RENDEZVOUS, K_DELAYED, K_OVERTAKE, K_EARLY_EXIT,
  K_LATE_READ, K_SCRIBBLE, K_STALL, K_REASSOC, K_NODES_MULTI, K_NODES_ODD, K_ANYSRC_CHOICE, K_CLOCK_SKEW, K_CLOCK_JUMP, K_FS_OPEN_FAIL,
  K_FS_ENOSPC, K_FS_SHORT_WRITE, K_FS_EIO_READ, K_FS_TRUNC, K_FS_CORRUPT, K_FS_CRASH, K_FS_SHORT_READ, K_FS_CLOSE_FAIL, K_POLL_FALSE, K_SHORT_SENDER,
  K_SIMTIME_US, K_PROBE0, K_PROBE1, K_PROBE2, K_PROBE3, K_PROBE4, K_PROBE5, K_PROBE6, K_PROBE7, K_PROBE8, K_PROBE9,
  K_PROBE10, K_PROBE11, K_PROBE12, K_PROBE13, K_PROBE14, K_PROBE15, K_N
};
extern const char *counter_name[K_N];
void count (Counter c, uint64_t by = 1);

struct Config
{
  int nranks = 1;
  bool perturb = true;   /* draw scheduling policy from the tape; false: plain */
  std::vector<int> group;   /* group of each rank (-1: idle); every node holds equally many ranks of a group */
};

/* Run fn(rank) on nranks fibers until all return.  Deadlock, livelock,
 * collective mismatch, send buffer reuse ... end the process through fail(). */
bool run (const Config &cfg, const std::function<void (int)> &fn);   /* false: the job was killed */
void crash_job ();      /* kill the whole job now (called by a rank); run() returns false */

int rank ();            /* world rank of the running fiber, -1 outside */
int nranks ();
bool in_fiber ();
uint64_t now_us ();

/* report a violation and end the (forked) process */
[[noreturn]] void fail (const char *cls, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
/* end the process quietly: this execution tells nothing (e.g. size limit) */
[[noreturn]] void discard (const char *why);
/* add to the event hash and, if verbose, to the event log */
void event (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void note (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));   /* description of the workload */
/* "this execution reached a distinct state": contributes to the state measure */
void state (uint64_t h);
extern bool verbose;
/* if not empty: failures of other classes only end the execution */
extern std::vector<std::string> only_classes;

/* what is still alive; used by the resource checks */
struct Live { long msgs, recvs, requests, comms, groups, wins, types, ops; };
Live live ();
void finalize ();   /* as MPI_Finalize does for what is attached to the predefined communicators */

/* ---- simulated file system (simfs.cxx) ---- */
struct FsFaults
{
  bool enabled = false;
  int open_fail_pm = 0;      /* per mille: fopen fails */
  long write_budget = -1;    /* bytes until ENOSPC, -1 unlimited */
  int write_err_pm = 0;      /* a write callback fails with EIO */
  int short_write_pm = 0;
  int read_err_pm = 0;
  int short_read_pm = 0;     /* legal: the read returns fewer bytes than asked */
  int close_fail_pm = 0;
  long crash_after_bytes = -1;  /* kill the job once that many bytes were written */
  int only_rank = -1;        /* inject only on this rank */
  int bufsize = 0;           /* size of the stdio buffer, 0: the default */
};
void fs_reset ();
void fs_set (const FsFaults &f);
bool fs_exists (const std::string &name);
std::string fs_get (const std::string &name);
void fs_put (const std::string &name, const std::string &data);
std::vector<std::string> fs_list ();
void fs_remove (const std::string &name);
int fs_faults_fired ();      /* number of faults fired since fs_set */
int fs_open_files ();
int fs_open_files_of (int rank);
int my_fs_faults ();         /* those that hit this rank */

/* ---- run control, used by runner.cxx ---- */
struct Shared   /* lives in shared memory, written by the child */
{
  volatile int finished;     /* 0 running, 1 ok, 2 violation, 3 discarded */
  char cls[64];
  char msg[8192];
  char lasterr[1024];
  char notes[16384];
  uint32_t notelen;
  uint64_t hash;
  uint64_t sched_hash;
  uint64_t counters[K_N];
  uint32_t nstates;
  uint64_t states[4096];
};
extern Shared *shared;
/* one execution: input and output, in shared memory */
struct Slot
{
  Shared sh;
  int use_tape, dump, cpu_limit_s;
  uint64_t seed;
  uint32_t in_n[NSTREAM], out_n[NSTREAM];
  uint32_t in[NSTREAM][TAPE_CAP], out[NSTREAM][TAPE_CAP];
};
extern Slot *slot;
extern Tape tapes[NSTREAM];
void seed_tapes (uint64_t seed);
uint64_t mix (uint64_t x);
void load_tapes ();          /* from the slot */
void dump_tapes ();          /* into the slot, if asked for */
void finish_ok ();
}
#endif
