/* Seeded search over simulated executions, double run gate, minimisation,
 * replay. One execution = one forked process, so every execution starts from
 * the same memory image and one seed is one exactly repeatable execution. */
#include "runner.hxx"
#include "sim.hxx"
#include "guard.hxx"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <malloc.h>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sc.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim { FILE *real_fopen (const char *, const char *); }
using namespace sim;

static std::vector<Property> &props () { static std::vector<Property> p; return p; }
void register_property (const char *id, void (*b) ()) { props ().push_back ({ id, b }); }

std::vector<Property> registered_properties ()
{
  std::vector<Property> v = props ();
  std::sort (v.begin (), v.end (), [] (const Property &a, const Property &b) { return strcmp (a.id, b.id) < 0; });
  return v;
}
extern void harness_init ();

static double wall ()
{
  struct timespec t;
  clock_gettime (CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void clear_shared (Shared *s)
{
  s->finished = 0;
  s->cls[0] = s->msg[0] = s->lasterr[0] = s->notes[0] = 0;
  s->notelen = 0;
  s->hash = s->sched_hash = 0;
  memset (s->counters, 0, sizeof s->counters);
  s->nstates = 0;
}
static int cpu_limit_s = 40;
static void on_signal (int sig)
{
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGPROF ? "hang" : "signal";
  signal (SIGSEGV, SIG_DFL);
  signal (SIGABRT, SIG_DFL);
  if (sig == SIGPROF && rank () < 0) discard ("the model");   /* the model takes too long */
  if (sig == SIGPROF) fail ("hang", "rank %d computes without end", rank ());
  fail (sig == SIGABRT ? "abort" : "crash", "%s on rank %d; last message: %s", n, rank (), shared ? shared->lasterr : "");
}
static void child_setup ()
{
  static char alt[65536];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack (&ss, nullptr);
  struct sigaction sa;
  memset (&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
  for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGPROF, SIGILL }) sigaction (s, &sa, nullptr);
  struct itimerval it;
  memset (&it, 0, sizeof it);
  it.it_value.tv_sec = slot->cpu_limit_s;
  setitimer (ITIMER_PROF, &it, nullptr);
}
static Property *the_prop;
/* runs in the forked child, on a stack of its own at a fixed distance from everything else */
static void execute ()
{
  child_setup ();
  if (slot->use_tape) load_tapes ();
  else seed_tapes (slot->seed);
  mallopt (M_PERTURB, 1 + (int) choose (F, 254));
  the_prop->body ();
  guard::check_all ();
  dump_tapes ();
  finish_ok ();
  _exit (0);
}
static void after_child (Shared *sh, int st)
{
  if (sh->finished) return;
  /* died without a word */
  sh->finished = 2;
  if (WIFSIGNALED (st)) { snprintf (sh->cls, sizeof sh->cls, "crash"); snprintf (sh->msg, sizeof sh->msg, "killed by signal %d; last message: %s", WTERMSIG (st), sh->lasterr); }
  else { snprintf (sh->cls, sizeof sh->cls, "exit"); snprintf (sh->msg, sizeof sh->msg, "the program ended with status %d; last message: %s", WEXITSTATUS (st), sh->lasterr); }
}
/* Executions are forked from pristine processes that do nothing else: every
 * execution, searched or replayed, starts from the same memory image. */
constexpr int MAXJ = 64;
struct Zygote { Slot *s; int to, from; };
static Zygote zyg[MAXJ];
static int nzyg;
static void *zstack;
static ucontext_t zctx, zback;
static void start_zygotes (int n)
{
  zstack = mmap (nullptr, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  /* all slots at once, so that every zygote has the same address space */
  Slot *slots = (Slot *) mmap (nullptr, sizeof (Slot) * MAXJ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (nzyg = 0; nzyg < n; nzyg++) {
    int a[2], b[2];
    Slot *s = slots + nzyg;
    if (slots == MAP_FAILED || pipe (a) || pipe (b)) { perror ("zygote"); exit (2); }
    fflush (stdout);
    pid_t z = fork ();
    if (z < 0) { perror ("fork"); exit (2); }
    if (z == 0) {
      for (int i = 0; i < nzyg; i++) { close (zyg[i].to); close (zyg[i].from); }
      close (a[1]);
      close (b[0]);
      for (;;) {
        char c;
        if (read (a[0], &c, 1) != 1) _exit (0);
        pid_t p = fork ();
        if (p == 0) {
          slot = s;
          shared = &s->sh;
#if defined(__SANITIZE_ADDRESS__)
          execute ();
#else
          struct rlimit lim = { 3ul << 30, 3ul << 30 };   /* a runaway execution ends as a failed allocation, not as the end of the machine */
          setrlimit (RLIMIT_DATA, &lim);
          getcontext (&zctx);
          zctx.uc_stack.ss_sp = zstack;
          zctx.uc_stack.ss_size = 8 << 20;
          zctx.uc_link = nullptr;
          makecontext (&zctx, execute, 0);
          swapcontext (&zback, &zctx);
#endif
        }
        int st = 0;
        waitpid (p, &st, 0);
        if (write (b[1], &st, sizeof st) != sizeof st) _exit (0);
      }
    }
    close (a[0]);
    close (b[1]);
    zyg[nzyg] = { s, a[1], b[0] };
  }
}
static void z_start (Zygote &z)
{
  clear_shared (&z.s->sh);
  z.s->cpu_limit_s = cpu_limit_s;
  char c = 1;
  if (write (z.to, &c, 1) != 1) { perror ("zygote"); exit (2); }
}
static void z_wait (Zygote &z)
{
  int st;
  if (read (z.from, &st, sizeof st) != sizeof st) { perror ("zygote"); exit (2); }
  after_child (&z.s->sh, st);
}
static Shared *run_seed (Zygote &z, uint64_t seed, bool dump = false)
{
  z.s->use_tape = 0;
  z.s->seed = seed;
  z.s->dump = dump;
  z_start (z);
  z_wait (z);
  return &z.s->sh;
}
typedef std::vector<uint32_t> Vec;
struct Tapes { Vec t[NSTREAM]; };
static void put_tapes (Zygote &z, const Tapes &t, bool dump)
{
  z.s->use_tape = 1;
  z.s->dump = dump;
  for (int i = 0; i < NSTREAM; i++) {
    size_t n = std::min (t.t[i].size (), TAPE_CAP);
    memcpy (z.s->in[i], t.t[i].data (), n * sizeof (uint32_t));
    z.s->in_n[i] = (uint32_t) n;
  }
}
static Shared *run_tapes (Zygote &z, const Tapes &t, bool dump = false)
{
  put_tapes (z, t, dump);
  z_start (z);
  z_wait (z);
  return &z.s->sh;
}
static void get_tapes (Zygote &z, Tapes &t)
{
  for (int i = 0; i < NSTREAM; i++) t.t[i].assign (z.s->out[i], z.s->out[i] + z.s->out_n[i]);
}
/* ------------------------------------------------------------- shrinking */
/* index of the first candidate that fails with class cls, or -1 */
static int try_batch (const std::vector<Tapes> &cand, const std::string &cls)
{
  for (size_t b = 0; b < cand.size (); b += nzyg) {
    size_t e = std::min (cand.size (), b + nzyg);
    for (size_t i = b; i < e; i++) { put_tapes (zyg[i - b], cand[i], false); z_start (zyg[i - b]); }
    int hit = -1;
    for (size_t i = b; i < e; i++) {
      z_wait (zyg[i - b]);
      Shared *sh = &zyg[i - b].s->sh;
      if (hit < 0 && sh->finished == 2 && cls == sh->cls) hit = (int) i;
    }
    if (hit >= 0) return hit;
  }
  return -1;
}
static void shrink (Tapes &t, const std::string &cls, double budget)
{
  double end = wall () + budget;
  cpu_limit_s = 2;
  bool progress = true;
  auto strip = [] (Vec &v) { while (!v.empty () && v.back () == 0) v.pop_back (); };
  while (progress && wall () < end) {
    progress = false;
    for (int s : { (int) S, (int) F, (int) W }) {
      strip (t.t[s]);
      /* truncate */
      std::vector<Tapes> c;
      for (size_t k : { (size_t) 0, t.t[s].size () / 8, t.t[s].size () / 4, t.t[s].size () / 2, t.t[s].size () * 3 / 4 })
        if (k < t.t[s].size ()) { Tapes n = t; n.t[s].resize (k); c.push_back (n); }
      int h = try_batch (c, cls);
      if (h >= 0) { t = c[h]; progress = true; }
      for (size_t chunk = std::max<size_t> (1, t.t[s].size () / 2); wall () < end; chunk /= 2) {
        for (size_t at = 0; at < t.t[s].size () && wall () < end;) {
          c.clear ();
          std::vector<size_t> pos;
          /* a group of candidates at consecutive positions: zero and delete */
          size_t a2 = at;
          for (int k = 0; k < 4 && a2 < t.t[s].size (); k++, a2 += chunk) {
            size_t e = std::min (a2 + chunk, t.t[s].size ());
            bool nz = false;
            for (size_t i = a2; i < e; i++) nz |= t.t[s][i] != 0;
            if (nz) { Tapes n = t; std::fill (n.t[s].begin () + a2, n.t[s].begin () + e, 0u); c.push_back (n); }
            if (s != S || chunk <= 8) { Tapes n = t; n.t[s].erase (n.t[s].begin () + a2, n.t[s].begin () + e); c.push_back (n); }
          }
          h = c.empty () ? -1 : try_batch (c, cls);
          if (h >= 0) { t = c[h]; progress = true; strip (t.t[s]); if (t.t[s].size () <= at) break; }
          else at = a2;
        }
        if (chunk == 1) break;
      }
      if (s == W)
        for (size_t i = 0; i < t.t[s].size () && wall () < end; i++) {
          if (t.t[s][i] < 2) continue;
          c.clear ();
          for (uint32_t v : { 1u, t.t[s][i] / 2, t.t[s][i] - 1 }) { Tapes n = t; n.t[s][i] = v; c.push_back (n); }
          h = try_batch (c, cls);
          if (h >= 0) { t = c[h]; progress = true; }
        }
    }
  }
}
static void write_escaped (FILE *f, const char *s)
{
  fputc ('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fprintf (f, "\\%c", *s);
    else if (*s == '\n') fprintf (f, "\\n");
    else if ((unsigned char) *s < 32) fputc (' ', f);
    else fputc (*s, f);
  }
  fputc ('"', f);
}
static void write_replay (const char *fn, const char *prop, uint64_t seed, const Tapes &t, Shared *sh, double shrink_s)
{
  FILE *f = real_fopen (fn, "w");
  if (!f) { perror (fn); exit (2); }
  fprintf (f, "t8sim-replay 1\nproperty %s\nseed %llu\nclass %s\nhash %llu\n", prop, (unsigned long long) seed, sh->cls, (unsigned long long) sh->hash);
  std::string m = sh->msg;
  for (char &c : m) if (c == '\n') c = ' ';
  fprintf (f, "message %s\n", m.c_str ());
  fprintf (f, "# minimised in %.1f s; workload of the minimised execution:\n", shrink_s);
  std::string n = sh->notes;
  size_t a = 0;
  while (a < n.size ()) {
    size_t e = n.find ('\n', a);
    if (e == std::string::npos) e = n.size ();
    fprintf (f, "# %s\n", n.substr (a, e - a).c_str ());
    a = e + 1;
  }
  fprintf (f, "tapes\n");
  for (int i = 0; i < NSTREAM; i++) {
    fprintf (f, "%zu\n", t.t[i].size ());
    for (size_t k = 0; k < t.t[i].size (); k++) fprintf (f, "%u%c", t.t[i][k], (k + 1) % 40 ? ' ' : '\n');
    fprintf (f, "\n");
  }
  fclose (f);
}
static bool read_replay (const char *fn, std::string &prop, std::string &cls, uint64_t &hash, Tapes &t)
{
  FILE *f = real_fopen (fn, "r");
  if (!f) return false;
  char line[20000];
  bool ok = false;
  while (fgets (line, sizeof line, f)) {
    if (!strncmp (line, "property ", 9)) { prop = line + 9; prop.erase (prop.find_last_not_of ("\n ") + 1); }
    else if (!strncmp (line, "class ", 6)) { cls = line + 6; cls.erase (cls.find_last_not_of ("\n ") + 1); }
    else if (!strncmp (line, "hash ", 5)) hash = strtoull (line + 5, nullptr, 10);
    else if (!strcmp (line, "tapes\n")) { ok = true; break; }
  }
  for (int i = 0; i < NSTREAM && ok; i++) {
    size_t n;
    ok = fscanf (f, "%zu", &n) == 1;
    for (size_t k = 0; ok && k < n; k++) { unsigned u; ok = fscanf (f, "%u", &u) == 1; t.t[i].push_back (u); }
  }
  fclose (f);
  return ok;
}

/* --------------------------------------------------------------- search */
struct WorkerOut   /* shared memory */
{
  uint64_t runs, ok, discarded, nontrivial, violations;
  uint64_t counters[K_N];
  volatile int stop;
  uint64_t bad_index;
  char cls[64];
  char msg[2048];
  char sample[3][1500];
  int nsample;
};
static uint64_t seed_of (uint64_t base, const char *prop, uint64_t i)
{
  uint64_t h = mix (base);
  for (const char *c = prop; *c; c++) h = mix (h ^ (uint64_t) *c);
  return mix (h + i * 0x9E3779B97F4A7C15ull) >> 1;
}
static std::vector<std::pair<std::string, std::string>> known;   /* class, substring */
static bool is_known (const char *cls, const char *msg, int *which)
{
  for (size_t i = 0; i < known.size (); i++)
    if (known[i].first == cls && strstr (msg, known[i].second.c_str ())) { if (which) *which = (int) i; return true; }
  return false;
}

int main (int argc, char **argv)
{
  /* identical addresses in every process: code that depends on them stays repeatable */
  if (!getenv ("SIM_NOASLR")) {
    setenv ("SIM_NOASLR", "1", 1);
    if (personality (ADDR_NO_RANDOMIZE) != -1) execv ("/proc/self/exe", argv);
  }
  /* no heap allocation before the zygotes are started that depends on the arguments */
  auto opt = [&] (const char *k, const char *d) -> const char * {
    for (int i = 2; i + 1 < argc; i++) if (!strncmp (argv[i], "--", 2)) { if (!strcmp (argv[i] + 2, k)) return argv[i + 1]; i++; }
    return d;
  };
  const char *cmd = argc > 1 ? argv[1] : "", *file = "";
  for (int i = 2; i < argc; i++) { if (!strncmp (argv[i], "--", 2)) i++; else file = argv[i]; }
  auto is = [&] (const char *c) { return !strcmp (cmd, c); };
  if (is ("list")) { for (auto &p : props ()) printf ("%s\n", p.id); return 0; }
  if (!is ("search") && !is ("hashes") && !is ("one") && !is ("replay")) {
    fprintf (stderr, "usage: search|hashes|replay|one|list\n");
    return 2;
  }
  static char propname[64];
  snprintf (propname, sizeof propname, "%s", opt ("prop", ""));
  if (is ("replay")) {   /* peek at the property without stdio buffers */
    static char head[4096];
    int fd = open (file, O_RDONLY);
    ssize_t k = fd < 0 ? -1 : read (fd, head, sizeof head - 1);
    if (fd >= 0) close (fd);
    const char *q = k > 0 ? strstr (head, "\nproperty ") : nullptr;
    if (!q || sscanf (q, "\nproperty %60s", propname) != 1) { fprintf (stderr, "cannot read %s\n", file); return 2; }
  }
  for (auto &p : props ()) if (!strcmp (propname, p.id)) the_prop = &p;
  if (!the_prop) { fprintf (stderr, "no property %s\n", propname); return 2; }
  verbose = strcmp (opt ("verbose", "0"), "0") != 0;
  int J = is ("search") ? std::max (1, std::min (atoi (opt ("jobs", "8")), MAXJ)) : 1;
  harness_init ();
  start_zygotes (J);
  Property &p = *the_prop;
  if (is ("replay")) {
    std::string prop, cls;
    uint64_t hash = 0;
    Tapes t;
    if (!read_replay (file, prop, cls, hash, t)) { fprintf (stderr, "cannot read %s\n", file); return 2; }
    Shared *sh = run_tapes (zyg[0], t);
    printf ("replay property=%s class=%s hash=%llu\n%s\n%s\n", prop.c_str (), sh->finished == 2 ? sh->cls : "none", (unsigned long long) sh->hash, sh->finished == 2 ? sh->msg : "", sh->notes);
    if (sh->finished != 2) return 0;
    return cls == sh->cls && hash == sh->hash ? 1 : 5;
  }
  if (is ("one")) {   /* --prop --seed [--verbose 1] */
    uint64_t s = *opt ("index", "") ? seed_of (strtoull (opt ("seed", "1"), nullptr, 10), p.id, strtoull (opt ("index", "0"), nullptr, 10)) : strtoull (opt ("seed", "1"), nullptr, 10);
    double t0 = wall ();
    Shared *sh = run_seed (zyg[0], s);
    printf ("finished=%d class=%s hash=%llu %.3fs\n%s\n%s\n", sh->finished, sh->cls, (unsigned long long) sh->hash, wall () - t0, sh->msg, sh->notes);
    for (int i = 0; i < K_N; i++) if (sh->counters[i]) printf ("%s=%llu ", counter_name[i], (unsigned long long) sh->counters[i]);
    printf ("\n");
    return sh->finished == 2;
  }
  uint64_t base = strtoull (opt ("seed", "1"), nullptr, 10);
  uint64_t n = strtoull (opt ("runs", "1000"), nullptr, 10), first = strtoull (opt ("first", "0"), nullptr, 10);
  double tmax = atof (opt ("time", "60"));
  std::string dir = opt ("dir", ".");
  double t0 = wall ();
  if (is ("hashes")) {   /* event hash of every execution, for determinism proofs */
    for (uint64_t i = first; i < first + n; i++) {
      Shared *sh = run_seed (zyg[0], seed_of (base, p.id, i));
      printf ("%llu %d %llu %llu\n", (unsigned long long) i, sh->finished, (unsigned long long) sh->hash, (unsigned long long) sh->sched_hash);
    }
    return 0;
  }
  if (*opt ("known", "")) {
    FILE *f = real_fopen (opt ("known", ""), "r");
    char l[3000];
    while (f && fgets (l, sizeof l, f)) {
      char *tab = strchr (l, '\t');
      if (!tab) continue;
      *tab = 0;
      std::string m = tab + 1;
      m.erase (m.find_last_not_of ("\n") + 1);
      known.push_back ({ l, m });
    }
    if (f) fclose (f);
  }
  std::vector<WorkerOut *> wo;
  std::vector<pid_t> wp;
  WorkerOut *all = (WorkerOut *) mmap (nullptr, sizeof (WorkerOut) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int *known_hits = (int *) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int w = 0; w < J; w++) {
    wo.push_back (all + w);
    fflush (stdout);
    pid_t c = fork ();
    if (c == 0) {
      WorkerOut &me = all[w];
      Zygote &z = zyg[w];
      Shared *sh = &z.s->sh;
      std::unordered_set<uint64_t> hs, ss, st;
      for (uint64_t i = first + w; i < first + n; i += J) {
        if (wall () - t0 > tmax) break;
        bool stop = false;
        for (int k = 0; k < J; k++) if (all[k].stop && all[k].bad_index < i) stop = true;
        if (stop) break;
        run_seed (z, seed_of (base, p.id, i));
        me.runs++;
        for (int k = 0; k < K_N; k++) me.counters[k] += sh->counters[k];
        if (sh->finished == 3) { me.discarded++; continue; }
        if (sh->finished == 2) {
          int which;
          if (is_known (sh->cls, sh->msg, &which)) { __atomic_add_fetch (&known_hits[which], 1, __ATOMIC_RELAXED); continue; }
          me.violations++;
          snprintf (me.cls, sizeof me.cls, "%s", sh->cls);
          snprintf (me.msg, sizeof me.msg, "%s", sh->msg);
          me.bad_index = i;
          me.stop = 1;
          break;
        }
        me.ok++;
        if (sh->counters[K_SWITCHES] > 2 && (sh->counters[K_MSGS] || sh->counters[K_COLL])) {
          me.nontrivial++;
          hs.insert (sh->hash);
        }
        ss.insert (sh->sched_hash);
        for (uint32_t k = 0; k < sh->nstates; k++) st.insert (sh->states[k]);
        if (me.nsample < 3 && (me.runs % 7) == 1) snprintf (me.sample[me.nsample++], sizeof me.sample[0], "seed %llu: %s", (unsigned long long) seed_of (base, p.id, i), sh->notes);
      }
      std::string fn = dir + "/hs." + p.id + "." + std::to_string (w);
      FILE *f = real_fopen (fn.c_str (), "w");
      if (f) {
        for (auto *set : { &hs, &ss, &st }) {
          uint64_t k = set->size ();
          fwrite (&k, 8, 1, f);
          for (uint64_t h : *set) fwrite (&h, 8, 1, f);
        }
        fclose (f);
      }
      _exit (0);
    }
    wp.push_back (c);
  }
  for (pid_t c : wp) { int st; waitpid (c, &st, 0); }
  std::unordered_set<uint64_t> sets[3];
  for (int w = 0; w < J; w++) {
    std::string fn = dir + "/hs." + p.id + "." + std::to_string (w);
    FILE *f = real_fopen (fn.c_str (), "r");
    for (int s = 0; f && s < 3; s++) {
      uint64_t k = 0, h;
      if (fread (&k, 8, 1, f) != 1) break;
      for (uint64_t i = 0; i < k && fread (&h, 8, 1, f) == 1; i++) sets[s].insert (h);
    }
    if (f) fclose (f);
    unlink (fn.c_str ());
  }
  WorkerOut tot;
  memset (&tot, 0, sizeof tot);
  int bad = -1;
  for (int w = 0; w < J; w++) {
    tot.runs += all[w].runs;
    tot.ok += all[w].ok;
    tot.discarded += all[w].discarded;
    tot.nontrivial += all[w].nontrivial;
    for (int k = 0; k < K_N; k++) tot.counters[k] += all[w].counters[k];
    if (all[w].stop && (bad < 0 || all[w].bad_index < all[bad].bad_index)) bad = w;
  }
  double t1 = wall ();
  std::string rp;
  int rc = 0;
  std::string gate = "";
  if (bad >= 0) {
    uint64_t s = seed_of (base, p.id, all[bad].bad_index);
    fprintf (stderr, "violation: property %s index %llu seed %llu class %s: %s\n", p.id, (unsigned long long) all[bad].bad_index, (unsigned long long) s, all[bad].cls, all[bad].msg);
    Zygote &za = zyg[0], &zb = zyg[J > 1 ? 1 : 0];
    Shared *a = &za.s->sh, *b = &zb.s->sh;
    run_seed (za, s, true);
    Tapes t;
    get_tapes (za, t);
    std::string cls = a->cls;
    uint64_t ha = a->hash;
    int fa = a->finished;
    run_seed (zb, s);
    if (fa != 2 || b->finished != 2 || cls != b->cls || (cls != "hang" && ha != b->hash) || cls == "harness") {
      gate = "not repeatable or harness error";
      rc = 2;
      fprintf (stderr, "gate: %d %s %llx / %d %s %llx\n", fa, cls.c_str (), (unsigned long long) ha, b->finished, b->cls, (unsigned long long) b->hash);
    }
    else {
      run_tapes (za, t);
      if (a->finished != 2 || cls != a->cls) { gate = "tape replay differs"; rc = 2; }
      else {
        double s0 = wall ();
        if (cls != "hang") shrink (t, cls, atof (opt ("shrink", "60")));
        cpu_limit_s = 40;
        run_tapes (za, t, true);
        get_tapes (za, t);
        run_tapes (za, t);
        rp = opt ("replay", (dir + "/replay-" + p.id + ".txt").c_str ());
        write_replay (rp.c_str (), p.id, s, t, a, wall () - s0);
        rc = 1;
      }
    }
    /* JSON part below */
  }
  FILE *f = real_fopen (opt ("json", "/dev/stdout"), "w");
  fprintf (f, "{\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"nontrivial_runs\":%llu,\"distinct_nontrivial\":%zu,\"distinct_interleavings\":%zu,\"distinct_states\":%zu,\"search_s\":%.2f,\"total_s\":%.2f,\"rc\":%d,\"gate\":\"%s\",\"first\":%llu,",
           p.id, (unsigned long long) base, (unsigned long long) tot.runs, (unsigned long long) tot.ok, (unsigned long long) tot.discarded, (unsigned long long) tot.nontrivial, sets[0].size (), sets[1].size (), sets[2].size (),
           t1 - t0, wall () - t0, rc, gate.c_str (), (unsigned long long) first);
  fprintf (f, "\"counters\":{");
  for (int k = 1; k < K_N; k++) fprintf (f, "%s\"%s\":%llu", k > 1 ? "," : "", counter_name[k], (unsigned long long) tot.counters[k]);
  fprintf (f, "},\"known_hits\":[");
  for (size_t i = 0; i < known.size (); i++) fprintf (f, "%s%d", i ? "," : "", known_hits[i]);
  fprintf (f, "],\"samples\":[");
  int ns = 0;
  for (int w = 0; w < J && ns < 4; w++)
    for (int k = 0; k < all[w].nsample && ns < 4; k++, ns++) {
      if (ns) fputc (',', f);
      write_escaped (f, all[w].sample[k]);
    }
  fprintf (f, "]");
  if (bad >= 0) {
    fprintf (f, ",\"violation\":{\"class\":");
    write_escaped (f, all[bad].cls);
    fprintf (f, ",\"message\":");
    write_escaped (f, all[bad].msg);
    fprintf (f, ",\"index\":%llu,\"replay\":", (unsigned long long) all[bad].bad_index);
    write_escaped (f, rp.c_str ());
    fprintf (f, "}");
  }
  fprintf (f, "}\n");
  fclose (f);
  return rc;
}
extern "C" const char *__asan_default_options () { return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0"; }
