// Heap seam: every allocation made by simulated code comes from a per-run
// arena at a fixed address (so runs are reproducible), is filled with a
// pattern, is surrounded by guards, is never reused within the run, and may be
// made to fail.
#include <dlfcn.h>
#include "sim.hpp"
#include <errno.h>
#include <stdlib.h>
#include <sys/mman.h>

extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
}

namespace sim
{
struct Hdr { uint64_t magic; size_t size; Hdr *next; uint32_t rank; uint32_t live; uint64_t guard[2]; };
static size_t const ARENA = 1ull << 31;
static size_t const BACK = 32;
static uint64_t const MAGIC = 0x51b0a11ce1157a1eull, GUARD = 0xfbfbfbfbfbfbfbfbull;
static char *arena = 0, *brk_ = 0;
static Hdr *blocks = 0;
static unsigned char fill = 0xcb;

void mem_init()
{
  arena = (char *)mmap((void *)0x2a0000000000ull, ARENA, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { fprintf(stderr, "sim: cannot map arena\n"); abort(); }
}
void mem_reset(uint64_t f)
{
  brk_ = arena; blocks = 0;
  static unsigned char const pats[] = { 0xcb, 0x5a, 0xfe, 0x41 };
  fill = pats[f & 3];
}
static bool mine(void const *p) { return p >= arena && p < arena + ARENA; }

static void *sim_alloc(size_t align, size_t size)
{
  if (align < 16) align = 16;
  uintptr_t u = (uintptr_t)brk_ + sizeof(Hdr);
  u = (u + align - 1) & ~(uintptr_t)(align - 1);
  if (size > ARENA || u + size + BACK > (uintptr_t)arena + ARENA) { errno = ENOMEM; return 0; }
  char *p = (char *)u;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic = MAGIC; h->size = size; h->next = blocks; h->rank = self->rank->id; h->live = 1; h->guard[0] = h->guard[1] = GUARD;
  blocks = h;
  memset(p, fill, size);
  memset(p + size, 0xfb, BACK);
  brk_ = p + size + BACK;
  self->rank->live_allocs++;
  return p;
}
static char const *check_block(Hdr *h)
{
  if (h->magic != MAGIC || h->guard[0] != GUARD || h->guard[1] != GUARD) return "memory before an allocation was overwritten";
  unsigned char *e = (unsigned char *)(h + 1) + h->size;
  if (h->live) { for (size_t i = 0; i < BACK; ++i) if (e[i] != 0xfb) return "memory after an allocation was overwritten"; }
  else
  {
    unsigned char *b = (unsigned char *)(h + 1);
    size_t n = h->size < 8192 ? h->size : 8192;
    for (size_t i = 0; i < n; ++i) if (b[i] != 0xdd) return "released memory was written to";
  }
  return 0;
}
static void sim_dealloc(void *p)
{
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC)
  {
    violation("bad-free", "rank %d: free of a pointer that is not an allocation", self->rank->id);
  }
  if (!h->live) violation("double-free", "rank %d: an allocation of %zu bytes is released twice", self->rank->id, h->size);
  if (char const *e = check_block(h)) violation("heap-corruption", "rank %d: %s (allocation of %zu bytes)", self->rank->id, e, h->size);
  race_free(p, h->size);
  h->live = 0;
  ranks[h->rank]->live_allocs--;
  memset(p, 0xdd, h->size);
}
void mem_check_all(int rank)
{
  for (Hdr *h = blocks; h; h = h->next)
  {
    if (rank >= 0 && (int)h->rank != rank) continue;
    if (char const *e = check_block(h)) violation("heap-corruption", "rank %d: %s (allocation of %zu bytes)", h->rank, e, h->size);
  }
}
static inline bool simctx() { return running && self && !self->inhost; }
static bool inject(size_t)
{
  if (!self->armed || !(info->faults & SIM_F_ALLOC)) return false;
  self->inhost++;
  int param;
  bool f = fault_here(SIM_F_ALLOC, param, C.p_alloc);
  if (f) { R.stats[ST_ALLOCFAIL]++; add_event("allocation fails"); }
  self->inhost--;
  return f;
}
} // namespace sim
using namespace sim;

extern "C" {
void *malloc(size_t n)
{
  if (!simctx()) return __libc_malloc(n);
  if (inject(n)) { errno = ENOMEM; return 0; }
  return sim_alloc(16, n);
}
void free(void *p)
{
  if (!p) return;
  if (!arena || !mine(p)) { __libc_free(p); return; }
  if (!running || !self) return;
  sim_dealloc(p);
}
void *calloc(size_t a, size_t b)
{
  if (!simctx()) return __libc_calloc(a, b);
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return 0; }
  if (inject(a * b)) { errno = ENOMEM; return 0; }
  void *p = sim_alloc(16, a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n)
{
  if (!p) return malloc(n);
  if (!mine(p)) return __libc_realloc(p, n);
  if (!running || !self) { void *q = __libc_malloc(n); Hdr *h = (Hdr *)((char *)p - sizeof(Hdr)); memcpy(q, p, h->size < n ? h->size : n); return q; }
  if (!self->inhost && inject(n)) { errno = ENOMEM; return 0; }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  void *q = sim_alloc(16, n);
  if (!q) return 0;
  memcpy(q, p, h->size < n ? h->size : n);
  sim_dealloc(p);
  return q;
}
void *memalign(size_t al, size_t n)
{
  if (!simctx()) return __libc_memalign(al, n);
  if (inject(n)) { errno = ENOMEM; return 0; }
  return sim_alloc(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n)
{
  if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p; return 0;
}
// the C library's table of exit handlers is no memory of the program
int __cxa_atexit(void (*f)(void *), void *arg, void *dso)
{
  typedef int (*fn)(void (*)(void *), void *, void *);
  static fn real;
  if (!real) real = (fn)dlsym(RTLD_NEXT, "__cxa_atexit");
  bool in = simctx();
  if (in) self->inhost++;
  int r = real(f, arg, dso);
  if (in) self->inhost--;
  return r;
}
long sim_live_allocs(void) { return self ? self->rank->live_allocs : 0; }
void sim_check_all_heap(void) { mem_check_all(self ? self->rank->id : -1); }
void sim_check_heap(void *p)
{
  if (!mine(p)) return;
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC || !h->live) violation("use-after-free", "rank %d: a live object refers to released memory", self->rank->id);
  if (char const *e = check_block(h)) violation("heap-corruption", "rank %d: %s", self->rank->id, e);
}
}
