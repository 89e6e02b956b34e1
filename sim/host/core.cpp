// Scheduler: real threads, parked, released one at a time by recorded choices.
#include "sim.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <algorithm>

namespace sim
{
char const *const stat_names[NSTAT] = {
  "messages_sent", "sends_eager", "sends_rendezvous", "sends_late_buffered", "network_deliveries",
  "messages_reordered_across_links", "slow_rank_runs", "rank_stalls", "collectives", "collectives_synchronising",
  "context_switches", "preemptions_at_memory_access", "mpi_errors_injected", "allocation_failures_injected",
  "clock_jumps_injected", "clock_skewed_runs", "io_failures_injected", "receives_that_had_to_wait", "buffered_sends_full",
  "lock_waits" };

thread_local Thread *self = 0;
std::vector<Thread *> threads;
std::vector<Rank *> ranks;
RunResult R;
RunSpec S;
SimProg P;
bool running = false;
long step_no = 0;
uint64_t now_ns = 1000000;
static int64_t wall_off;                  // what somebody has set the wall clock ahead
Cfg C;
std::vector<std::function<void(std::vector<Action> &)>> action_sources;
SimInfo const *info = 0;
std::string bias;
void *rank_libs[SIM_MAXRANKS];

static Rng rng_sched(1), rng_fault(1), rng_env(1);
static size_t choice_pos = 0;
static int result_fd = -1;
static bool want_sched = false;
static std::map<int, int> fault_sites;
static long access_no = 0; static int live_threads = 0;
static std::vector<long> preempt_plan; static size_t preempt_pos = 0;
static void *blackboard[64];
static char altstack[65536];

static int futex(std::atomic<int> *a, int op, int v)
{ return syscall(SYS_futex, (int *)a, op, v, 0, 0, 0); }
static void park(Thread *t)
{
  while (!t->go.load(std::memory_order_acquire)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void unpark(Thread *t)
{
  t->go.store(1, std::memory_order_release);
  futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

// --------------------------------------------------------------- events
void add_event(char const *fmt, ...)
{
  char buf[512];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  uint64_t h = 1469598103934665603ull;
  for (char *p = buf; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
  R.hash = mix64(R.hash, h);
  if (S.trace)
  {
    char line[640];
    int n = snprintf(line, sizeof line, "[%6ld t=%lluns %s%d] %s\n", step_no, (unsigned long long)now_ns,
                     self ? "rank " : "net", self ? self->rank->id : 0, buf);
    if (n > 0) { ssize_t w = write(2, line, std::min<size_t>(n, sizeof line - 1)); (void)w; }
  }
}

// -------------------------------------------------------------- choices
int choose(int n, int const *w)
{
  if (n <= 1) return 0;
  int c = 0;
  if (S.explicit_sched)
  {
    if (choice_pos < S.choices.size()) c = S.choices[choice_pos] % n;
    choice_pos++;
  }
  else if (w)
  {
    long tot = 0;
    for (int i = 0; i < n; ++i) tot += w[i];
    if (tot <= 0) c = 0;
    else
    {
      long x = rng_sched.below(tot);
      for (c = 0; c < n - 1; ++c) { if (x < w[c]) break; x -= w[c]; }
    }
  }
  else c = rng_sched.below(n);
  if (want_sched) R.choices.push_back(c);
  R.sched_hash = mix64(R.sched_hash, c * 131 + n);
  return c;
}

bool fault_here(int kind, int &param, double p)
{
  int site = fault_sites[kind]++;
  bool fire = false; param = 0;
  if (S.explicit_sched)
  {
    for (size_t i = 0; i < S.faults.size(); ++i)
      if (S.faults[i].kind == kind && S.faults[i].site == site) { fire = true; param = S.faults[i].param; }
  }
  else if (p > 0 && rng_fault.chance(p)) { fire = true; param = rng_fault.below(1000); }
  if (fire)
  {
    FaultAt f = { kind, site, param };
    R.faults.push_back(f);
    R.hash = mix64(R.hash, kind * 7919 + site);
  }
  return fire;
}

// ------------------------------------------------------------ end of run
static void put(std::string &o, char const *k, std::string const &v)
{ o += k; o += '='; for (size_t i = 0; i < v.size(); ++i) o += (v[i] == '\n') ? '\x01' : v[i]; o += '\n'; }

static bool ended = false;
void end_run(int status, std::string const &cls, std::string const &msg)
{
  if (ended) _exit(9);
  ended = true;
  running = false;
  R.status = status; R.cls = cls; R.msg = msg; R.steps = step_no; R.simtime = now_ns;
  for (char const *p = cls.c_str(); *p; ++p) R.hash = mix64(R.hash, *p);
  R.hash = mix64(R.hash, R.sched_hash);
  std::string o; char b[256];
  snprintf(b, sizeof b, "%d", status); put(o, "status", b);
  put(o, "cls", cls); put(o, "msg", msg);
  snprintf(b, sizeof b, "%llx %llx %llx %ld %llu", (unsigned long long)R.hash, (unsigned long long)R.sched_hash,
           (unsigned long long)R.prog_hash, R.steps, (unsigned long long)R.simtime); put(o, "h", b);
  std::string s; for (int i = 0; i < NSTAT; ++i) { snprintf(b, sizeof b, "%ld ", R.stats[i]); s += b; } put(o, "stats", s);
  s.clear(); for (int i = 0; i < NPROBE; ++i) { snprintf(b, sizeof b, "%ld ", R.probes[i]); s += b; } put(o, "probes", s);
  put(o, "notes", R.notes);
  s.clear(); for (size_t i = 0; i < R.faults.size(); ++i)
  { snprintf(b, sizeof b, "%d %d %d ", R.faults[i].kind, R.faults[i].site, R.faults[i].param); s += b; } put(o, "faults", s);
  if (want_sched)
  {
    s.clear(); for (size_t i = 0; i < R.choices.size(); ++i) { snprintf(b, sizeof b, "%d ", R.choices[i]); s += b; } put(o, "choices", s);
    s.clear(); for (size_t i = 0; i < R.preempts.size(); ++i) { snprintf(b, sizeof b, "%ld ", R.preempts[i]); s += b; } put(o, "preempts", s);
  }
  snprintf(b, sizeof b, "%llu", (unsigned long long)S.env); put(o, "env", b);
  o += "end=1\n";
  size_t off = 0;
  while (off < o.size())
  {
    ssize_t w = write(result_fd, o.data() + off, o.size() - off);
    if (w <= 0) { if (errno == EINTR) continue; break; }
    off += w;
  }
  _exit(0);
}
void violation(char const *cls, char const *fmt, ...)
{
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  end_run(1, cls, buf);
}
void abnormal(char const *cls, std::string const &msg)
{
  if (info && (info->flags & SIM_FL_FAILSTOP) && !R.faults.empty() && strcmp(cls, "signal")) end_run(2, cls, msg);
  end_run(1, cls, msg);
}

// ------------------------------------------------------------- schedule
static void advance_time()
{
  step_no++;
  now_ns += 50 + rng_env.below(2000);
  if (step_no > S.max_steps)
    violation("no-progress", "no completion within %ld simulated steps: %s", S.max_steps, sim_blocks_of());
}

static bool is_ready(Thread *t)
{
  if (t->done) return false;
  if (!t->ready) return true;
  return t->ready();
}

static void describe_threads(std::string &o)
{
  char b[256];
  for (size_t i = 0; i < threads.size(); ++i)
  {
    Thread *t = threads[i];
    if (t->done) snprintf(b, sizeof b, "rank %d thread %d: finished; ", t->rank->id, t->id);
    else snprintf(b, sizeof b, "rank %d thread %d: in %s %s; ", t->rank->id, t->id, t->ready ? t->why : "running", t->ready ? t->whydetail.c_str() : "");
    o += b;
  }
}

// Pick who runs next and hand over.  Called by the thread that holds the baton.
static void reschedule(bool must_leave)
{
  for (;;)
  {
    advance_time();
    if (C.p_stall > 0 && !S.explicit_sched && rng_sched.chance(C.p_stall))
    {
      Rank *r = ranks[rng_sched.below(ranks.size())];
      r->stall_until = step_no + 20 + rng_sched.below(200); R.stats[ST_STALL]++;
    }
    static std::vector<Thread *> en; static std::vector<int> w; static std::vector<Action> acts;
    en.clear(); w.clear(); acts.clear();
    bool self_ready = !must_leave && self && is_ready(self);
    if (self_ready) en.push_back(self);
    for (size_t i = 0; i < threads.size(); ++i)
      if (threads[i] != self && is_ready(threads[i])) en.push_back(threads[i]);
    if (must_leave && self && !self->done && is_ready(self)) en.push_back(self);
    for (size_t i = 0; i < en.size(); ++i)
      w.push_back(en[i]->rank->stall_until > step_no ? 0 : en[i]->rank->weight);
    for (size_t i = 0; i < action_sources.size(); ++i) action_sources[i](acts);
    for (size_t i = 0; i < acts.size(); ++i) w.push_back(acts[i].weight);
    size_t n = en.size() + acts.size();
    if (n == 0)
    {
      bool all = true;
      for (size_t i = 0; i < threads.size(); ++i) if (!threads[i]->done) all = false;
      if (all) { extern void run_complete(); run_complete(); }
      std::string o; describe_threads(o);
      if (info->flags & SIM_FL_FAILSTOP && !R.faults.empty()) end_run(2, "stuck-after-fault", o);
      end_run(1, "deadlock", "no rank can make progress: " + o + mpi_describe());
    }
    long tot = 0; for (size_t i = 0; i < n; ++i) tot += w[i];
    if (tot == 0) for (size_t i = 0; i < n; ++i) w[i] = 1;      // only stalled actors left
    int c = choose(n, &w[0]);
    if (c >= (int)en.size()) { acts[c - en.size()].run(); continue; }
    Thread *t = en[c];
    t->ready = std::function<bool()>();
    if (t == self) return;
    R.stats[ST_SWITCH]++;
    Thread *me = self;
    R.hash = mix64(R.hash, t->id + 1000);
    if (me && me->done) { unpark(t); return; }
    unpark(t);
    if (me) park(me);
    return;
  }
}

void sched_point(char const *why)
{
  if (!running || !self) return;
  if (self->hold) return;
  (void)why;
  // Switch only sometimes at non-blocking points (bounded number of context switches explores better).
  static int const w[2] = { 0, 0 }; (void)w;
  int ww[2] = { (int)(1000 * (1 - C.p_switch)), (int)(1000 * C.p_switch) };
  if (choose(2, ww) == 0) return;
  reschedule(false);
}

void block_until(std::function<bool()> ready, char const *why, std::string detail)
{
  if (!self->hold)
  {
    // an operation that could complete at once may still be delayed
    if (ready()) { sched_point(why); if (ready()) return; }
  }
  else if (ready()) return;
  self->ready = ready; self->why = why; self->whydetail = detail;
  reschedule(false);
}

void run_complete()
{
  for (size_t i = 0; i < ranks.size(); ++i) mpi_rank_done(ranks[i]);
  end_run(0, "ok", "");
}

static void *thread_main(void *p)
{
  Thread *t = (Thread *)p;
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, 0);
  park(t);
  if (t->rank->touch) t->rank->touch();      // the thread-local storage of the image is not the program's
  self = t;
  try { t->fn(t->arg); }
  catch (std::exception const &e)
  { abnormal("uncaught-exception", e.what()); }
  catch (...) { abnormal("uncaught-exception", "unknown exception"); }
  self->inhost++;
  t->done = true; live_threads--;
  t->armed = 0;
  add_event("thread %d ends", t->id);
  reschedule(true);
  // never returns to user code again; the thread stays parked
  for (;;) pause();
  return 0;
}

static Thread *new_thread(Rank *r, void (*fn)(void *), void *arg)
{
  Thread *t = new Thread; t->id = threads.size(); t->rank = r; t->fn = fn; t->arg = arg;
  threads.push_back(t); live_threads++;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
  extern int real_pthread_create(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *);
  if (real_pthread_create(&t->pt, &a, thread_main, t)) end_run(3, "internal", "pthread_create failed");
  return t;
}

static void rank_main(void *p)
{
  Rank *r = (Rank *)p;
  r->main(&P, r->id);
}

static void on_signal(int sig, siginfo_t *si, void *)
{
  if (self) self->inhost++;
  char b[128];
  if (sig == SIGPROF) snprintf(b, sizeof b, "endless loop: the CPU limit of the run was reached");
  else snprintf(b, sizeof b, "signal %d (%s) %s", sig, strsignal(sig), sig == SIGSEGV && si->si_addr < (void *)4096 ? "(null pointer)" : "");
  if (!running) { if (ended) _exit(9); end_run(3, "internal", std::string("outside the run: ") + b); }
  abnormal(sig == SIGABRT ? "abort" : sig == SIGPROF ? "hang" : "signal", b);
}

// a failed call must be reported as what it is
static void check_report(std::exception const &e)
{
  if (self && (info->flags & SIM_FL_FAILSTOP) && self->rank->last_fault && !strstr(e.what(), self->rank->last_fault))
    violation("error-not-reported", "rank %d: %s failed, but the exception says \"%s\"", self->rank->id, self->rank->last_fault, e.what());
}
static void on_terminate()
{
  if (self) self->inhost++;
  std::string m = "std::terminate";
  if (std::exception_ptr e = std::current_exception())
  {
    try { std::rethrow_exception(e); }
    catch (std::exception const &x) { check_report(x); m = std::string("std::terminate with an exception: ") + x.what(); }
    catch (...) { m = "std::terminate with an unknown exception"; }
  }
  if (!running) { if (ended) _exit(9); end_run(3, "internal", m); }
  abnormal("terminate", m);
}

void generate(RunSpec const &sp, SimProg &p)
{
  Rng g(mix64(sp.seed, 0x50524f47));
  memset(&p, 0, sizeof p);
  int lo = info->min_ranks, hi = info->max_ranks;
  // favour small jobs
  int span = hi - lo + 1;
  int a = g.below(span), b = g.below(span);
  p.nranks = lo + (g.chance(0.5) ? std::min(a, b) : a);
  p.nops = info->min_ops + g.below(info->max_ops - info->min_ops + 1);
  int tot = 0;
  if (info->code_weight) for (int i = 0; i < info->ncodes; ++i) tot += info->code_weight[i];
  // swarm: every run uses a random subset of the operation codes
  std::vector<int> w(info->ncodes);
  bool any = false;
  for (int i = 0; i < info->ncodes; ++i)
  {
    w[i] = info->code_weight ? info->code_weight[i] : 1;
    if (g.chance(0.35)) w[i] = 0;
    if (w[i]) any = true;
  }
  if (!any) for (int i = 0; i < info->ncodes; ++i) w[i] = info->code_weight ? info->code_weight[i] : 1;
  tot = 0; for (int i = 0; i < info->ncodes; ++i) tot += w[i];
  for (int i = 0; i < p.nops; ++i)
  {
    long x = g.below(tot); int c = 0;
    for (; c < info->ncodes - 1; ++c) { if (x < w[c]) break; x -= w[c]; }
    p.ops[i].code = c;
    for (int k = 0; k < SIM_MAXARGS; ++k) p.ops[i].a[k] = g.below(100000);
  }
}

void start_run(RunSpec const &sp)
{
  S = sp;
  R = RunResult();
  if (S.explicit_prog) P = S.prog; else generate(S, P);
  R.prog = P;
  uint64_t h = P.nranks;
  for (int i = 0; i < P.nops; ++i)
  { h = mix64(h, P.ops[i].code); for (int k = 0; k < SIM_MAXARGS; ++k) h = mix64(h, P.ops[i].a[k]); }
  R.prog_hash = h; R.hash = h;
  if (!S.explicit_sched) S.env = mix64(S.seed, 0x454e56) >> 1;
  rng_sched = Rng(mix64(S.seed, 0x5343484544));
  rng_fault = Rng(mix64(S.seed, 0x4641554c54));
  rng_env = Rng(S.env);
  // environment (part of the replay file through `env`)
  int nr = P.nranks;
  for (int i = 0; i < nr; ++i)
  {
    Rank *r = new Rank; r->id = i; ranks.push_back(r);
    r->info = (SimInfo const *)dlsym(rank_libs[i], "wl_info");
    r->main = (void (*)(SimProg const *, int))dlsym(rank_libs[i], "wl_rank");
    r->touch = (void (*)())dlsym(rank_libs[i], "wl_touch_tls");
  }
  if (info->faults & SIM_F_CLOCK)
  {
    for (int i = 0; i < nr; ++i) { ranks[i]->skew_ns = (int64_t)rng_env.below(2000000000ull); ranks[i]->drift = (int)rng_env.below(2001) * 1e-6 - 1e-3; }
    R.stats[ST_CLOCKSKEW] = 1;
  }
  if (!S.explicit_sched)
  {
    Rng g(mix64(S.seed, 0x434647));
    switch (g.below(5))
    {
      case 0: C.w_eager = 1; C.w_late = 0; C.w_rndv = 0; break;
      case 1: C.w_eager = 0; C.w_late = 0; C.w_rndv = 1; break;     // no buffering at all
      case 2: C.w_eager = 0; C.w_late = 1; C.w_rndv = 0; break;
      case 3: C.w_eager = 1; C.w_late = 0; C.w_rndv = 1; break;
      default: break;
    }
    static int const wd[] = { 1, 4, 16, 64 };
    C.w_deliver = wd[g.below(4)];
    static double const ps[] = { 0.02, 0.15, 0.5 };
    C.p_switch = ps[g.below(3)];
    C.p_collsync = g.below(3) * 0.5;
    if (g.chance(0.3)) { ranks[g.below(nr)]->weight = 1; R.stats[ST_SLOW]++; }
    if (g.chance(0.25)) C.p_stall = 0.01;
    if (g.chance(0.3)) { C.slow_link_src = g.below(nr); C.slow_link_dst = g.below(nr); }
    if (bias == "unbuffered") { C.w_eager = C.w_late = 0; C.w_rndv = 1; if (g.chance(0.5)) C.p_stall = 0.02; C.p_collsync = 1; }
    if (info->faults && (!(info->flags & SIM_FL_FAULTBIAS) || bias == "faults") && g.chance(0.85))       // some runs of a fault workload stay fault free
    {
      static double const pf[] = { 0.003, 0.01, 0.03, 0.1 };
      if (info->faults & SIM_F_MPIERR) C.p_mpierr = pf[g.below(4)];
      if (info->faults & SIM_F_ALLOC) C.p_alloc = pf[g.below(4)] * 2;
      if (info->faults & SIM_F_IO) C.p_io = 0.3;
      if (info->faults & SIM_F_CLOCK) C.p_clock = 0.05;
      if (info->faults & SIM_F_MPIERR) C.p_mpiquery = g.chance(0.2) ? C.p_mpierr / 2 : 0;   // ranks, sizes and comparisons
    }
  }
  if (info->flags & SIM_FL_PREEMPT)
  {
    if (S.explicit_sched) preempt_plan = S.preempts;
    else
    {
      Rng g(mix64(S.seed, 0x505245));
      // a few preemptions at random places; the range covers short and long runs
      int d = 1 + g.below(12);
      long range = 20l << g.below(11);
      for (int i = 0; i < d; ++i) preempt_plan.push_back(1 + g.below(range));
      if (g.chance(0.3))     // all along, at some rate
      { long st = 5 << g.below(7); for (long i = g.below(st); i < 30000; i += 1 + g.below(2 * st)) preempt_plan.push_back(i); }
      if (g.chance(0.4))     // plus a dense phase somewhere
      { long s = g.below(range); int st = 1 + g.below(7); for (int i = 0; i < 60; ++i) preempt_plan.push_back(s + 1 + i * st); }
      std::sort(preempt_plan.begin(), preempt_plan.end());
      preempt_plan.erase(std::unique(preempt_plan.begin(), preempt_plan.end()), preempt_plan.end());
    }
  }
  mpi_reset(nr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
  std::set_terminate(on_terminate);
  for (int i = 0; i < nr; ++i) new_thread(ranks[i], rank_main, ranks[i]);
  mem_reset(mix64(S.env, 77));
  running = true;
  self = 0;
  reschedule(true);
  for (;;) pause();
}
void set_result_fd(int fd, bool ws) { result_fd = fd; want_sched = ws; }
} // namespace sim

using namespace sim;

// -------------------------------------------------------------- API impl
extern "C" {
int sim_rank(void) { return self ? self->rank->id : -1; }
int sim_nranks(void) { return (int)ranks.size(); }
int sim_thread(void) { return self ? self->id : -1; }
void sim_fail(char const *cls, char const *fmt, ...)
{
  Host host_;
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  end_run(1, cls, "rank " + std::to_string(sim_rank()) + ": " + buf);
}
void sim_note(char const *fmt, ...)
{
  Host host_;
  if (R.notes.size() > 6000) return;
  char buf[512];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (R.notes.find(buf) != std::string::npos) return;      // said before, perhaps by another rank
  if (!R.notes.empty()) R.notes += " | ";
  R.notes += buf;
}
void sim_event(char const *fmt, ...)
{
  Host host_;
  char buf[480];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  add_event("%s", buf);
}
void sim_probe(int id) { if (id >= 0 && id < NPROBE) R.probes[id]++; }
void sim_mix(uint64_t v) { R.hash = mix64(R.hash, v); }
void sim_yield(char const *why) { Host host_; sched_point(why); }
int sim_choose(int n) { Host host_; return choose(n); }
int sim_spawn(void (*fn)(void *), void *arg)
{
  Host host_;
  Thread *t = new_thread(self->rank, fn, arg);
  race_spawn(t->id);
  add_event("spawn thread %d", t->id);
  return t->id;
}
void sim_join(int id)
{
  Host host_;
  Thread *t = threads[id];
  block_until([t] { return t->done; }, "join");
  race_join(id);
}
int sim_faults_fired(void) { return (int)R.faults.size(); }
void sim_faults_arm(int on) { if (self) self->armed = on; }
int sim_faults_armed(void) { return self ? self->armed : 0; }
uint64_t sim_now_ns(void) { return now_ns; }
void *sim_blackboard(int slot, size_t bytes)
{
  if (!blackboard[slot])
    blackboard[slot] = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return blackboard[slot];
}
// An operation into which an MPI error was injected is being left by an
// exception: judge the exception.  What the job does after that is not defined.
void sim_reported(void)
{
  Host host_;
  std::exception *e = (std::exception *)self->thrown;
  if (e) { check_report(*e); end_run(2, "reported", e->what()); }
  end_run(2, "reported", "an exception of another kind");
}
int sim_mpi_faults(void) { return self ? self->rank->mpi_faults : 0; }
void sim_hold(int on) { if (self) self->hold += on ? 1 : -1; }
char const *sim_blocks_of(void) { Host host_; static std::string o; o.clear(); describe_threads(o); return o.c_str(); }

void sim_preempt(int kind, void const *)
{
  if (!running || !self || self->hold || self->inhost || live_threads < 2) return;
  (void)kind;
  long k = ++access_no;
  while (preempt_pos < preempt_plan.size() && preempt_plan[preempt_pos] < k) preempt_pos++;
  if (preempt_pos < preempt_plan.size() && preempt_plan[preempt_pos] == k)
  {
    preempt_pos++;
    Host host_;
    // leave the thread at this very access
    int others = 0;
    for (size_t i = 0; i < threads.size(); ++i) if (threads[i] != self && is_ready(threads[i])) others++;
    if (!others) return;
    R.preempts.push_back(k);
    R.stats[ST_PREEMPT]++;
    self->ready = [] { return true; };
    // force a switch: pick among the others
    reschedule(true);
  }
}

// --------------------------------------------- interposed library calls
static void *next_sym(char const *n) { return dlsym(RTLD_NEXT, n); }

void __assert_fail(char const *expr, char const *file, unsigned line, char const *fn)
{
  if (running && self)
  {
    Host host_;
    char const *b = strrchr(file, '/'); b = b ? b + 1 : file;
    char buf[1024]; snprintf(buf, sizeof buf, "%s:%u: %s: assertion `%s' failed", b, line, fn ? fn : "?", expr);
    abnormal("assert", buf);
  }
  fprintf(stderr, "%s:%u: %s: assertion `%s' failed\n", file, line, fn, expr);
  abort();
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
  static int (*real)(clockid_t, struct timespec *);
  if (running && self && !self->inhost)
  {
    Host host_;
    Rank *r = self->rank;
    now_ns += 20;
    if (C.p_clock > 0 || S.explicit_sched)
    {
      int param;
      if (info->faults & SIM_F_CLOCK)
        if (fault_here(SIM_F_CLOCK, param, C.p_clock))
        {
          // the machine is suspended / the process is not scheduled for a long time
          static uint64_t const jump[] = { 1000ull, 1000000ull, 999999999ull, 1000000000ull, 5000000001ull, 3600000000000ull, 4294967296ull, 4300000000000000ull };
          int k = param % 12;
          if (k < 8) now_ns += jump[k];
          else wall_off += (k & 1 ? 1 : -1) * (k < 10 ? 1500000000ll : 86400000000000ll);      // the wall clock is set
          R.stats[ST_CLOCKJUMP]++;
        }
    }
    static uint64_t cpu_ns = 5000;                       // time spent computing: little while others run
    cpu_ns += 30;
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
    {
      ts->tv_sec = cpu_ns / 1000000000ull; ts->tv_nsec = cpu_ns % 1000000000ull;
      sched_point("clock");
      return 0;
    }
    uint64_t t = now_ns + r->skew_ns + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 1700000000000000000ull + wall_off : 0);
    if (id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE) t -= t % 4000000ull;
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    sched_point("clock");
    return 0;
  }
  if (!real) real = (int (*)(clockid_t, struct timespec *))next_sym("clock_gettime");
  return real(id, ts);
}
int clock_getres(clockid_t id, struct timespec *ts)
{
  static int (*real)(clockid_t, struct timespec *);
  if (running && self) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
  if (!real) real = (int (*)(clockid_t, struct timespec *))next_sym("clock_getres");
  return real(id, ts);
}

// Mutexes of simulated threads are simulated: an uncontended lock costs a
// scheduling point, a contended one blocks the simulated thread.
static std::map<pthread_mutex_t *, std::pair<Thread *, int>> &mutexes()
{ static std::map<pthread_mutex_t *, std::pair<Thread *, int>> m; return m; }

int pthread_mutex_lock(pthread_mutex_t *m)
{
  static int (*real)(pthread_mutex_t *);
  if (running && self && !self->inhost)
  {
    self->inhost++;
    auto it = mutexes().find(m);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (it != mutexes().end() && it->second.first == self && rec) { it->second.second++; self->inhost--; return 0; }
    Thread *me = self;
    if (info->flags & SIM_FL_PREEMPT) sched_point("mutex");
    bool held = mutexes().count(m) != 0;
    if (held)
    {
      R.stats[ST_LOCKWAIT]++;
      me->hold++;     // do not add a scheduling point of its own
      block_until([m] { return !mutexes().count(m); }, "pthread_mutex_lock");
      me->hold--;
    }
    mutexes()[m] = std::make_pair(me, 1);
    race_acquire(m);
    self->inhost--;
    return 0;
  }
  if (!real) real = (int (*)(pthread_mutex_t *))next_sym("pthread_mutex_lock");
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  static int (*real)(pthread_mutex_t *);
  if (running && self && !self->inhost)
  {
    self->inhost++;
    int rc = EBUSY;
    if (!mutexes().count(m)) { mutexes()[m] = std::make_pair(self, 1); race_acquire(m); rc = 0; }
    self->inhost--;
    return rc;
  }
  if (!real) real = (int (*)(pthread_mutex_t *))next_sym("pthread_mutex_trylock");
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  static int (*real)(pthread_mutex_t *);
  if (running && self && !self->inhost)
  {
    self->inhost++;
    auto it = mutexes().find(m);
    bool mine = it != mutexes().end();
    if (mine && --it->second.second == 0) { race_release(m); mutexes().erase(it); }
    if (mine && (info->flags & SIM_FL_PREEMPT)) sched_point("mutex");
    self->inhost--;
    if (mine) return 0;
  }
  if (!real) real = (int (*)(pthread_mutex_t *))next_sym("pthread_mutex_unlock");
  return real(m);
}

// Condition variables: a waiting thread is woken by a signal (which of several
// is a choice of the scheduler) and now and then by nothing at all.
struct CondWait { pthread_cond_t *c; Thread *t; bool woken; };
static std::list<CondWait> &condwaits() { static std::list<CondWait> l; return l; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
{
  Host host_;
  auto it = mutexes().find(m);
  if (it == mutexes().end()) return EPERM;
  int depth = it->second.second;
  race_release(m); mutexes().erase(it);
  condwaits().push_back(CondWait{ c, self, false });
  auto w = std::prev(condwaits().end());
  CondWait *cw = &*w;
  uint64_t spurious = choose(16) == 1 ? 1 : 0;
  self->hold++;
  block_until([=] { return (cw->woken || spurious || (deadline && sim_now_ns() >= deadline)) && !mutexes().count(m); }, "pthread_cond_wait");
  self->hold--;
  bool late = !w->woken && !spurious;
  condwaits().erase(w);
  mutexes()[m] = std::make_pair(self, depth);
  race_acquire(m);
  return late ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  static int (*real)(pthread_cond_t *, pthread_mutex_t *);
  if (running && self && !self->inhost) return cond_wait(c, m, 0);
  if (!real) real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  return real(c, m);
}
static int cond_wake(pthread_cond_t *c, bool all)
{
  Host host_;
  std::vector<CondWait *> w;
  for (auto &x : condwaits()) if (x.c == c && !x.woken) w.push_back(&x);
  if (!w.empty())
  {
    if (all) for (size_t i = 0; i < w.size(); ++i) w[i]->woken = true;
    else w[choose(w.size())]->woken = true;
  }
  if (info->flags & SIM_FL_PREEMPT) sched_point("signal");
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c)
{
  static int (*real)(pthread_cond_t *);
  if (running && self && !self->inhost) return cond_wake(c, false);
  if (!real) real = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  static int (*real)(pthread_cond_t *);
  if (running && self && !self->inhost) return cond_wake(c, true);
  if (!real) real = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
  return real(c);
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  static int (*real)(pthread_once_t *, void (*)(void));
  if (running && self && !self->inhost)
  {
    int volatile *s = (int volatile *)o;
    { Host host_; if (*s == 1) { self->hold++; block_until([s] { return *s != 1; }, "pthread_once"); self->hold--; }
      if (*s == 2) { race_acquire((void *)o); return 0; } }
    *s = 1;
    try { f(); } catch (...) { *s = 0; throw; }
    Host host_;
    race_release((void *)o);
    *s = 2;
    return 0;
  }
  if (!real) real = (int (*)(pthread_once_t *, void (*)(void)))next_sym("pthread_once");
  return real(o, f);
}
// Read-write locks: count of readers, or one writer.
struct RW { int readers = 0; Thread *writer = 0; };
static std::map<pthread_rwlock_t *, RW> &rwlocks() { static std::map<pthread_rwlock_t *, RW> m; return m; }
static int rw_lock(pthread_rwlock_t *l, bool write, bool wait)
{
  Host host_;
  RW *r = &rwlocks()[l];
  if (wait && (info->flags & SIM_FL_PREEMPT)) sched_point("rwlock");
  auto free_ = [r, write] { return !r->writer && !(write && r->readers); };
  if (!free_()) { if (!wait) return EBUSY; R.stats[ST_LOCKWAIT]++; self->hold++; block_until(free_, "pthread_rwlock"); self->hold--; }
  if (write) r->writer = self; else r->readers++;
  race_acquire(l);
  return 0;
}
#define SIMRW(NAME, W, B) int NAME(pthread_rwlock_t *l) { static int (*real)(pthread_rwlock_t *); \
  if (running && self && !self->inhost) return rw_lock(l, W, B); if (!real) real = (int (*)(pthread_rwlock_t *))next_sym(#NAME); return real(l); }
SIMRW(pthread_rwlock_rdlock, false, true)
SIMRW(pthread_rwlock_wrlock, true, true)
SIMRW(pthread_rwlock_tryrdlock, false, false)
SIMRW(pthread_rwlock_trywrlock, true, false)
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
  static int (*real)(pthread_rwlock_t *);
  if (running && self && !self->inhost)
  {
    Host host_;
    RW &r = rwlocks()[l];
    race_release(l);                 // readers too: a later writer comes after them
    if (r.writer) r.writer = 0; else if (r.readers) r.readers--;
    if (info->flags & SIM_FL_PREEMPT) sched_point("rwlock");
    return 0;
  }
  if (!real) real = (int (*)(pthread_rwlock_t *))next_sym("pthread_rwlock_unlock");
  return real(l);
}

// Exceptions: remember the last one a thread threw, as a std::exception.
void __cxa_throw(void *ex, void *ti, void (*dtor)(void *))
{
  typedef void (*fn)(void *, void *, void (*)(void *));
  static fn real;
  if (!real) real = (fn)next_sym("__cxa_throw");
  if (self)
  {
    void *p = ex;
    std::type_info *t = (std::type_info *)ti;
    self->thrown = t->__do_catch(&typeid(std::exception), &p, 1) ? p : 0;
  }
  real(ex, ti, dtor);
  abort();
}

// Function-local statics: the guard of a static being initialised by a
// preempted thread must block the simulated thread, not the process.
int sim_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
void sim_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
void sim_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t *g)
{
  char *c = (char *)g;
  if (c[0]) return 0;
  if (running && self && c[1])
  {
    Host host_;
    self->hold++;
    block_until([c] { return c[0] || !c[1]; }, "static-init");
    self->hold--;
    if (c[0]) { race_acquire(g); return 0; }
  }
  c[1] = 1;
  return 1;
}
void sim_guard_release(uint64_t *g) { if (running && self) { Host h; race_release(g); } char *c = (char *)g; c[0] = 1; c[1] = 0; }
void sim_guard_abort(uint64_t *g) { ((char *)g)[1] = 0; }
} // extern "C"

namespace sim
{
int real_pthread_create(pthread_t *t, pthread_attr_t const *a, void *(*f)(void *), void *p)
{
  static int (*real)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *);
  if (!real) real = (int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  return real(t, a, f, p);
}
}
