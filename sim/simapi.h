// Interface between the simulator host and the code running inside a
// simulated rank (workloads, instrumentation callbacks).
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { SIM_MAXARGS = 24, SIM_MAXOPS = 64, SIM_MAXRANKS = 6 };

// One abstract operation.  All arguments are raw non-negative integers: the
// workload maps them onto legal values, so that any argument vector is a
// legal program (this is what makes generic minimisation possible).
// Zero is always the simplest value.
struct SimOp { int code; int a[SIM_MAXARGS]; };
struct SimProg { int nranks; int nops; struct SimOp ops[SIM_MAXOPS]; };

// Static description of a workload.
struct SimInfo
{
  char const *name;
  int min_ranks, max_ranks;      // how many ranks (copies of the program)
  int min_ops, max_ops;
  int ncodes;                    // op codes are 0 .. ncodes-1
  int const *code_weight;        // 0: uniform
  unsigned faults;               // fault kinds that may be injected
  unsigned flags;
};

enum {                           // fault kinds
  SIM_F_MPIERR = 1,              // an MPI call returns an error
  SIM_F_ALLOC  = 2,              // malloc/posix_memalign/operator new fails
  SIM_F_CLOCK  = 4,              // clock skew and jumps
  SIM_F_IO     = 8,              // open/mmap/... fails
};
enum {                           // flags
  SIM_FL_PREEMPT   = 1,          // instrumented memory accesses are preemption points
  SIM_FL_FAILSTOP  = 2,          // after an injected fault, abnormal termination is legal
  SIM_FL_FAULTBIAS = 8,          // faults only with the bias "faults"
  SIM_FL_TINYCALLS = 4,          // every intercepted call may preempt
};

// -- provided by the host ------------------------------------------------
int  sim_rank(void);
int  sim_nranks(void);
int  sim_thread(void);                            // id of the simulated thread
void sim_fail(char const *cls, char const *fmt, ...)   // report a violation; ends the run
  __attribute__((noreturn, format(printf, 2, 3)));
void sim_note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_event(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(int id);                           // "this rare condition was hit"
void sim_mix(uint64_t v);                         // add to the run's event hash
void sim_yield(char const *why);                  // explicit scheduling point
int  sim_choose(int n);                           // recorded choice
int  sim_spawn(void (*fn)(void *), void *arg);    // new thread of this rank
void sim_join(int id);
void sim_reported(void) __attribute__((noreturn));
int  sim_mpi_faults(void);                         // MPI errors injected into this rank so far
int  sim_faults_fired(void);                      // number of injected faults so far
void sim_faults_arm(int on);                      // faults only fire while armed (per thread)
int  sim_faults_armed(void);
uint64_t sim_now_ns(void);                        // simulated true time
void *sim_blackboard(int slot, size_t bytes);     // zero-initialised memory shared by ranks (oracle only)
long sim_live_allocs(void);                       // live allocations of this rank
long sim_live_types(void);                        // live MPI datatypes of this rank
long sim_live_comms(void);
long sim_live_groups(void);
long sim_live_requests(void);
long sim_mpi_inits(void);                         // number of MPI_Init calls of this rank
long sim_mpi_finalizes(void);
int  sim_mpi_attached(void);
int  sim_msgs_pending(void);                      // p2p messages not yet received (whole job)
long sim_msgs_sent(void);
void sim_check_heap(void *p);                     // p must be a live allocation with intact guards
void sim_check_all_heap(void);                    // guards of every live allocation of the rank
void sim_preempt(int kind, void const *addr);     // called by instrumentation
void sim_hold(int on);                            // disable preemption (oracle sections), nestable
void sim_mode_serial(int on);
char const *sim_blocks_of(void);

// -- provided by the workload ----------------------------------------------
extern struct SimInfo const wl_info;
void wl_rank(struct SimProg const *, int rank);   // the program of one rank
// Called once in the job, after all ranks are done (no rank context).
#ifdef __cplusplus
}
#endif
#endif
