/* Guard zones behind all memory that t8code, libsc and the C++ library allocate: a write behind (or, for new, before)
 * a block is noticed when the block is freed, or at the end of the execution.  The blocks are linked, so that what is
 * still alive can be listed. */
#include "guard.hxx"
#include "sim.hxx"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <new>
#if !defined(__SANITIZE_ADDRESS__)
#define GUARD 1
#endif
bool guard::own;
namespace
{
constexpr uint64_t MAGIC = 0x5afe5afe0ddba11ULL;
constexpr size_t TAIL = 32;
constexpr unsigned char FILL = 0xC7;
struct Head   /* in front of a block of operator new */
{
  Head *prev, *next;
  size_t n;
  int serial, nbt;
  void *bt[7];
  uint64_t magic;
};
static_assert (sizeof (Head) % 16 == 0, "");
Head list = { &list, &list, 0, 0, 0, {}, 0 };
int serial, count_from = -1;
bool traces;
bool bad_tail (const unsigned char *t) { for (size_t i = 0; i < TAIL; i++) if (t[i] != FILL) return true; return false; }
[[noreturn]] void broken (const char *what, size_t n) { sim::fail ("memory", "a block of %zu bytes was written %s its end", n, what); }
}
#ifdef GUARD
static void *guard_new (size_t n)
{
  Head *h = (Head *) malloc (sizeof (Head) + n + TAIL);
  if (!h) abort ();
  h->n = n;
  h->magic = MAGIC;
  h->serial = guard::own ? -2 : serial++;
  h->nbt = 0;
  if (traces) h->nbt = backtrace (h->bt, 7);
  h->prev = list.prev;
  h->next = &list;
  list.prev->next = h;
  list.prev = h;
  memset ((char *) (h + 1) + n, FILL, TAIL);
  return h + 1;
}
static void guard_delete (void *p)
{
  if (!p) return;
  Head *h = (Head *) p - 1;
  if (h->magic != MAGIC) sim::fail ("memory", "a block was freed that is not alive, or the memory before it was overwritten");
  if (bad_tail ((unsigned char *) p + h->n)) broken ("behind", h->n);
  h->magic = 0;
  h->prev->next = h->next;
  h->next->prev = h->prev;
  free (h);
}
void *operator new (size_t n) { return guard_new (n); }
void *operator new[] (size_t n) { return guard_new (n); }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return guard_new (n); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return guard_new (n); }
void operator delete (void *p) noexcept { guard_delete (p); }
void operator delete[] (void *p) noexcept { guard_delete (p); }
void operator delete (void *p, size_t) noexcept { guard_delete (p); }
void operator delete[] (void *p, size_t) noexcept { guard_delete (p); }
void operator delete (void *p, const std::nothrow_t &) noexcept { guard_delete (p); }
void operator delete[] (void *p, const std::nothrow_t &) noexcept { guard_delete (p); }
#endif

/* ---- libsc's allocator (linker wrap): size and guard in a side table ---- */
extern "C" {
void *__real_sc_malloc (int, size_t);
void *__real_sc_calloc (int, size_t, size_t);
void *__real_sc_realloc (int, void *, size_t);
char *__real_sc_strdup (int, const char *);
void __real_sc_free (int, void *);
}
namespace
{
struct Slot { void *p; size_t n; int pkg, nbt; void *bt[8]; };
Slot *slots;        /* open addressing; outside of the malloc heap's order of events it is just one block */
size_t cap, used;
size_t hash (void *p) { return (size_t) (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ULL >> 20); }
void put (Slot *t, size_t c, const Slot &s)
{
  size_t i = hash (s.p) & (c - 1);
  while (t[i].p) i = (i + 1) & (c - 1);
  t[i] = s;
}
void *add (int pkg, void *p, size_t n)
{
#ifdef GUARD
  if (!p) return p;
  if (used * 2 >= cap) {
    size_t c = cap ? cap * 2 : 1 << 12;
    Slot *t = (Slot *) calloc (c, sizeof (Slot));
    for (size_t i = 0; i < cap; i++) if (slots[i].p) put (t, c, slots[i]);
    free (slots);
    slots = t;
    cap = c;
  }
  Slot s = { p, n, pkg, 0, {} };
  if (traces) s.nbt = backtrace (s.bt, 8);
  put (slots, cap, s);
  used++;
  memset ((char *) p + n, FILL, TAIL);
#endif
  return p;
}
void del (void *p)
{
#ifdef GUARD
  if (!p || !cap) return;
  size_t i = hash (p) & (cap - 1);
  while (slots[i].p && slots[i].p != p) i = (i + 1) & (cap - 1);
  if (!slots[i].p) return;   /* allocated inside of sc.c */
  if (bad_tail ((unsigned char *) p + slots[i].n)) broken ("behind", slots[i].n);
  used--;
  for (size_t j = i;;) {   /* close the gap */
    slots[i].p = nullptr;
    size_t k;
    do {
      j = (j + 1) & (cap - 1);
      if (!slots[j].p) return;
      k = hash (slots[j].p) & (cap - 1);
    } while (i <= j ? i < k && k <= j : i < k || k <= j);
    slots[i] = slots[j];
    i = j;
  }
#endif
}
#ifdef GUARD
constexpr size_t XTRA = TAIL;
#else
constexpr size_t XTRA = 0;
#endif
}
extern "C" {
void *__wrap_sc_malloc (int k, size_t n) { return n ? add (k, __real_sc_malloc (k, n + XTRA), n) : __real_sc_malloc (k, n); }
void *__wrap_sc_calloc (int k, size_t n, size_t m)
{
  if (n * m == 0) return __real_sc_calloc (k, n, m);
  return add (k, __real_sc_calloc (k, 1, n * m + XTRA), n * m);
}
void *__wrap_sc_realloc (int k, void *p, size_t n)
{
  del (p);
  return n ? add (k, __real_sc_realloc (k, p, n + XTRA), n) : __real_sc_realloc (k, p, n);
}
char *__wrap_sc_strdup (int k, const char *s)
{
  if (!s) return __real_sc_strdup (k, s);
  size_t n = strlen (s) + 1;
  char *p = (char *) __wrap_sc_malloc (k, n);
  memcpy (p, s, n);
  return p;
}
void __wrap_sc_free (int k, void *p) { del (p); __real_sc_free (k, p); }
}

namespace guard
{
void check_all ()
{
#ifdef GUARD
  for (Head *h = list.next; h != &list; h = h->next) {
    if (h->magic != MAGIC) sim::fail ("memory", "the memory before a block was overwritten");
    if (bad_tail ((unsigned char *) (h + 1) + h->n)) broken ("behind", h->n);
  }
  for (size_t i = 0; i < cap; i++) if (slots[i].p && bad_tail ((unsigned char *) slots[i].p + slots[i].n)) broken ("behind", slots[i].n);
#endif
}
void mark (bool with_traces) { count_from = serial; traces = with_traces; }
long live (bool print)
{
  long n = 0;
  for (Head *h = list.next; h != &list; h = h->next)
    if (h->serial >= count_from) {
      n++;
      if (print) { fprintf (stderr, "block of %zu bytes from new, allocated at", h->n); for (int i = 1; i < h->nbt; i++) fprintf (stderr, " %p", h->bt[i]); fprintf (stderr, "\n"); }
    }
  if (print)
    for (size_t i = 0; i < cap; i++)
      if (slots[i].p && slots[i].nbt) { fprintf (stderr, "leak of package %d, allocated at", slots[i].pkg); for (int k = 1; k < slots[i].nbt; k++) fprintf (stderr, " %p", slots[i].bt[k]); fprintf (stderr, "\n"); }
  return n;
}
}

/* ---- lines of text files: allocated or moved by getline, freed with free ---- */
static void *line[256];
static int nline;
static void drop_line (void *p)
{
  for (int i = 0; i < nline; i++)
    if (line[i] == p) { line[i] = line[--nline]; return; }
}
int guard::lines () { return nline; }
extern "C" {
void __real_free (void *);
void __wrap_free (void *p)
{
  if (nline && p) drop_line (p);
  __real_free (p);
}
ssize_t __real___getdelim (char **, size_t *, int, FILE *);
static ssize_t read_line (char **l, size_t *n, int d, FILE *f)
{
  drop_line (*l);
  ssize_t r = __real___getdelim (l, n, d, f);
  if (*l && nline < 256) line[nline++] = *l;
  return r;
}
/* glibc's header turns getline into the other name */
ssize_t __wrap_getline (char **l, size_t *n, FILE *f) { return read_line (l, n, '\n', f); }
ssize_t __wrap___getdelim (char **l, size_t *n, int d, FILE *f) { return read_line (l, n, d, f); }
}
