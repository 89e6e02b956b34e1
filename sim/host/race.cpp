// Seam for threads of one rank: workloads compiled with -fsanitize=thread call
// the __tsan_* functions below (there is no sanitizer runtime).  Each
// instrumented access is a possible preemption point, and a happens-before
// detector (vector clocks over mutexes, static guards, spawn/join and C++11
// atomics and fences) reports conflicting accesses that nothing orders.
#include "sim.hpp"
#include <dlfcn.h>
#include <cxxabi.h>
#include <stdlib.h>
#include <unordered_map>

namespace sim
{
bool races_on = false;
typedef std::vector<uint32_t> VC;
static void join(VC &a, VC const &b)
{
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i];
}
struct TS { VC vc, pending, relfence; bool hasfence = false; void *last = 0; };
static std::vector<TS> ts;
static TS &me()
{
  int id = self->id;
  if ((int)ts.size() <= id) ts.resize(id + 1);
  TS &t = ts[id];
  if ((int)t.vc.size() <= id) t.vc.resize(id + 1, 0);
  if (!t.vc[id]) t.vc[id] = 1;
  return t;
}
struct Rec { uint32_t tid, epoch; unsigned char mask; bool write, atomic; void *pc; };
struct Cell { std::vector<Rec> r; };
static std::unordered_map<uintptr_t, Cell> shadow;
static std::unordered_map<uintptr_t, VC> syncs;

static inline bool on() { return running && self && !self->inhost && !self->hold && (info->flags & SIM_FL_PREEMPT); }
static std::string where(void *pc)
{
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname)
  {
    int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
    std::string s = d ? d : i.dli_sname; free(d);
    if (s.size() > 160) s.resize(160);
    return s;
  }
  return "?";
}
static void check(void const *p, size_t n, bool write, bool atomic, void *pc)
{
  if (threads.size() < 2) return;          // nothing to race with yet
  TS &t = me(); uint32_t id = self->id;
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8)
  {
    unsigned m = 0;
    for (int b = 0; b < 8; ++b) if (g + b >= a && g + b < e) m |= 1u << b;
    Cell &c = shadow[g];
    size_t k = 0;
    for (size_t i = 0; i < c.r.size(); ++i)
    {
      Rec &r = c.r[i];
      if (r.mask & m && r.tid != id && (r.write || write) && !(r.atomic && atomic))
        if (r.tid >= t.vc.size() || r.epoch > t.vc[r.tid])
          violation("data-race", "rank %d: %s of %zu bytes in %s by thread %u is not ordered with a %s by thread %u in %s", self->rank->id,
                    write ? "write" : "read", n, where(pc).c_str(), id, r.write ? "write" : "read", r.tid, where(r.pc).c_str());
      // keep unless this access subsumes it
      bool ordered = r.tid == id || (r.tid < t.vc.size() && r.epoch <= t.vc[r.tid]);
      bool drop = ordered && !(r.mask & ~m) && (write || !r.write) && (r.atomic || !atomic || r.tid != id) && (!atomic || r.atomic);
      if (!drop) c.r[k++] = r;
    }
    c.r.resize(k);
    Rec nr = { id, t.vc[id], (unsigned char)m, write, atomic, pc };
    c.r.push_back(nr);
  }
}
// an allocation is released: nothing may still be using it concurrently
void race_free(void *p, size_t n)
{
  if (!running || !self || !(info->flags & SIM_FL_PREEMPT) || threads.size() < 2) return;
  Host h;
  if (n > 4096) n = 4096;
  if (!self->hold) check(p, n ? n : 1, true, false, me().last);
  for (uintptr_t g = (uintptr_t)p & ~7ull; g < (uintptr_t)p + n; g += 8) { shadow.erase(g); syncs.erase(g); }
}
void race_acquire(void const *o)
{
  if (!running || !self || !(info->flags & SIM_FL_PREEMPT)) return;
  auto i = syncs.find((uintptr_t)o); TS &t = me();
  if (i != syncs.end()) join(t.vc, i->second);
}
void race_release(void const *o)
{
  if (!running || !self || !(info->flags & SIM_FL_PREEMPT)) return;
  TS &t = me(); join(syncs[(uintptr_t)o], t.vc); t.vc[self->id]++;
}
void race_spawn(int child)
{
  if (!(info->flags & SIM_FL_PREEMPT)) return;
  me();
  if ((int)ts.size() <= child) ts.resize(child + 1);
  ts[child].vc = me().vc;
  me().vc[self->id]++;
}
void race_join(int child)
{
  if (!(info->flags & SIM_FL_PREEMPT)) return;
  me();
  if (child < (int)ts.size()) join(me().vc, ts[child].vc);
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// kind 0: load, 1: store, 2: read-modify-write
static void atomic_sync(void const *p, size_t n, int kind, int mo, void *pc)
{
  mo &= 0x7fff;
  TS &t = me();
  t.last = pc;
  check(p, n, kind != 0, true, pc);
  uintptr_t a = (uintptr_t)p;
  if (kind != 1)
  {
    auto i = syncs.find(a);
    if (i != syncs.end()) { if (is_acq(mo)) join(t.vc, i->second); else join(t.pending, i->second); }
  }
  if (kind != 0)
  {
    VC &l = syncs[a];
    if (kind == 1) l.clear();             // a store starts a new release sequence
    if (is_rel(mo)) join(l, t.vc);
    else if (t.hasfence) join(l, t.relfence);
    if (is_rel(mo)) t.vc[self->id]++;
  }
}
static void fence(int mo)
{
  TS &t = me();
  if (is_acq(mo)) join(t.vc, t.pending);
  if (is_rel(mo)) { t.relfence = t.vc; t.hasfence = true; t.vc[self->id]++; }
}
static inline void access(void const *p, size_t n, bool w, void *pc)
{
  if (!on()) return;
  sim_preempt(w, p);
  Host h;
  me().last = pc;
  check(p, n, w, false, pc);
}
} // namespace sim
using namespace sim;

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void *p) { access(p, N, false, PC); } \
  void __tsan_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_read##N##_pc(void *p, void *pc) { access(p, N, false, pc); } \
  void __tsan_write##N##_pc(void *p, void *pc) { access(p, N, true, pc); } \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); } \
  void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access(p, n, true, PC); }
void *__tsan_memcpy(void *d, void const *s, unsigned long n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, void const *s, unsigned long n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (n) access(d, n, true, PC); return memset(d, c, n); }

#define BEGIN(K) bool o_ = on(); if (o_) { sim_preempt(2, (void *)p); Host h; atomic_sync((void *)p, sizeof *p, K, mo, PC); }
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(T const volatile *p, int mo) { BEGIN(0) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(T volatile *p, T v, int mo) { BEGIN(1) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(T volatile *p, T v, int mo) { BEGIN(2) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile *p, T *e, T d, int mo, int) \
  { BEGIN(*p == *e ? 2 : 0) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile *p, T *e, T d, int mo, int) \
  { BEGIN(*p == *e ? 2 : 0) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(T volatile *p, T e, T d, int mo, int) \
  { BEGIN(*p == e ? 2 : 0) __atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if (on()) { Host h; fence(mo); } }
void __tsan_atomic_signal_fence(int) {}
}
