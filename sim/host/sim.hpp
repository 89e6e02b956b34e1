// Internal declarations of the simulator host.
#ifndef SIM_HPP
#define SIM_HPP
#include "../simapi.h"
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <atomic>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <memory>

namespace sim
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

inline uint64_t mix64(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}

// ------------------------------------------------- what defines one run
struct FaultAt { int kind; int site; int param; };   // the site-th opportunity of that kind

struct RunSpec
{
  uint64_t seed = 1;          // everything below is derived from it unless given
  bool explicit_prog = false;
  SimProg prog;
  bool explicit_sched = false;   // choices / preempts / faults / env are given
  std::vector<int> choices;
  std::vector<long> preempts;    // access indices at which a preemption happens
  std::vector<FaultAt> faults;
  uint64_t env = 1;              // latency and clock stream
  bool trace = false;
  long max_steps = 400000;
};

enum { NPROBE = 64 };
enum Stat
{
  ST_MSGS, ST_EAGER, ST_RNDV, ST_LATE, ST_DELIVER, ST_REORDER, ST_SLOW, ST_STALL, ST_COLL, ST_COLLSYNC,
  ST_SWITCH, ST_PREEMPT, ST_MPIERR, ST_ALLOCFAIL, ST_CLOCKJUMP, ST_CLOCKSKEW, ST_IOFAIL, ST_RECVWAIT, ST_BSENDFULL,
  ST_LOCKWAIT, NSTAT
};
extern char const *const stat_names[NSTAT];

struct RunResult
{
  int status = 0;                // 0 ok, 1 violation, 2 ended by injected fault (legal), 3 internal error
  std::string cls, msg;
  uint64_t hash = 0, sched_hash = 0, prog_hash = 0;
  long steps = 0; uint64_t simtime = 0;
  long stats[NSTAT] = {};
  long probes[NPROBE] = {};
  // schedule actually taken (only when wanted)
  std::vector<int> choices; std::vector<long> preempts; std::vector<FaultAt> faults; uint64_t env = 1;
  SimProg prog;
  std::string notes;
};

// ------------------------------------------------------------- threads
struct Rank;
struct Thread
{
  int id; Rank *rank; void *thrown = 0;
  pthread_t pt; std::atomic<int> go{0};
  bool done = false, started = false;
  std::function<bool()> ready;        // empty: runnable
  char const *why = "";
  std::string whydetail;
  void (*fn)(void *) = 0; void *arg = 0;
  int hold = 0;                       // >0: no preemption
  int inhost = 0;
  int armed = 0;                      // fault injection armed
};

struct Rank
{
  int mpi_faults = 0; char const *last_fault = 0;
  int id;
  SimInfo const *info; void (*main)(SimProg const *, int); void (*touch)();
  void *mpi = 0;                      // MPI state
  int weight = 16;                    // scheduling weight (slow ranks are lighter)
  long stall_until = -1;              // step until which the rank is stalled
  int64_t skew_ns = 0; double drift = 0;
  long live_allocs = 0;
};

struct Action                          // something the environment may do (network)
{
  int weight; std::function<void()> run; 
};

extern thread_local Thread *self;
extern std::vector<Thread *> threads;
extern std::vector<Rank *> ranks;
extern RunResult R;
extern RunSpec S;
extern SimProg P;
extern bool running;                   // inside a simulated run
extern long step_no;
extern uint64_t now_ns;

// marks host code: allocations and accesses made by it are not simulated
struct Host { Thread *t; Host() : t(self) { if (t) t->inhost++; } ~Host() { if (t) t->inhost--; } };

// Scheduler
int choose(int n, int const *weights = 0);       // recorded choice; 0 when forced
void sched_point(char const *why);               // may switch
void block_until(std::function<bool()> ready, char const *why, std::string detail = std::string());
void add_event(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
bool fault_here(int kind, int &param, double p); // recorded fault decision
void end_run(int status, std::string const &cls, std::string const &msg) __attribute__((noreturn));
void violation(char const *cls, char const *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void abnormal(char const *cls, std::string const &msg) __attribute__((noreturn));  // assert/terminate/signal
extern std::vector<std::function<void(std::vector<Action> &)>> action_sources;

struct Cfg                              // swarm configuration of a run
{
  double p_mpierr = 0, p_mpiquery = 0, p_alloc = 0, p_io = 0, p_clock = 0;
  int w_eager = 1, w_late = 1, w_rndv = 1;   // send modes
  int w_deliver = 8;                          // weight of a delivery
  double p_switch = 0.3;                      // probability of switching at a non-blocking point
  double p_collsync = 0.5;
  double p_stall = 0;
  int slow_link_src = -1, slow_link_dst = -1;
};
extern Cfg C;

// MPI
void mpi_reset(int nranks);
void mpi_rank_done(Rank *);
std::string mpi_describe();
// happens-before
void race_spawn(int child); void race_join(int child); void race_acquire(void const *); void race_release(void const *); void race_free(void *, size_t);
// memory
void mem_reset(uint64_t fill);
void mem_check_all(int rank);

RunResult run_forked(RunSpec const &spec, bool want_sched, double cpu_limit);
void generate(RunSpec const &, SimProg &);
void load(char const *lib, int n);
void start_run(RunSpec const &spec);   // never returns (child process)
extern SimInfo const *info;
extern std::string bias;
extern void *rank_libs[SIM_MAXRANKS];
}
#endif
