// Timers: what a timer says has passed since its start or restart is what has
// passed on the simulated machine, whatever threads and other processors do,
// however long the process was not scheduled, and whoever sets the wall clock.
#include "common.hpp"
#include <ovxx/timer.hpp>
#include <mpi.h>
#include <new>
#include <mutex>

using namespace wl;

namespace
{
enum { OP_NEW, OP_DROP, OP_RESTART, OP_ELAPSED, OP_COPY, OP_POINT, OP_ARITH, OP_WORK, OP_THREADS, OP_LIBRARY, NOPS };
int const weights[] = { 4, 1, 4, 8, 3, 4, 3, 5, 3, 1 };
enum { PR_SECONDS, PR_HOURS, PR_COPY, PR_THREAD, PR_LIB, PR_POINTS };
typedef ovxx::clock clk;
typedef clk::time_point point;

// a reading lies between the times right before and right after it
struct Span { uint64_t lo, hi; };
template <typename F> Span around(F f) { Span s; s.lo = sim_now_ns(); f(); s.hi = sim_now_ns(); return s; }
void between(char const *what, double got, double lo, double hi)
{
  double tol = 2e-9 + 1e-12 * std::abs(hi);
  if (!(got >= lo - tol && got <= hi + tol)) sim_fail("wrong-value", "%s is %.9f s, should be between %.9f and %.9f", what, got, lo, hi);
  if (hi > 1) sim_probe(PR_SECONDS);
  if (hi > 3000) sim_probe(PR_HOURS);
}

struct Timed
{
  ovxx::timer t; Span start;
  Timed() { start.lo = start.hi = 0; }
  static Timed *make()
  {
    Timed *p = 0;
    Span s = around([&] { p = new Timed; });
    p->start = s;
    return p;
  }
  void elapsed(char const *what)
  {
    double e = 0;
    Span s = around([&] { e = t.elapsed(); });
    between(what, e, (s.lo - double(start.hi)) * 1e-9, (s.hi - double(start.lo)) * 1e-9);
  }
  point restart()
  {
    point p;
    start = around([&] { p = t.restart(); });
    return p;
  }
};
struct Point { point p; Span at; };       // at: in simulated time
std::vector<std::unique_ptr<Timed> > timers;
std::vector<Point> points;

void work(int n) { for (int i = 0; i < n; ++i) sim_yield("work"); }

// the distance of two points of time
void apart(Point const &a, Point const &b)
{
  long lo = long(a.at.lo - b.at.hi), hi = long(a.at.hi - b.at.lo);
  auto d = a.p - b.p;                     // a point whose distance from the epoch is the difference
  long got = d.time_since_epoch().count(), direct = a.p.time_since_epoch().count() - b.p.time_since_epoch().count();
  if (!(got >= lo && got <= hi)) sim_fail("wrong-value", "two points of time are %ld ns apart, should be between %ld and %ld", got, lo, hi);
  if (got != direct || double(d) != double(got)) sim_fail("wrong-value", "difference of points of time: %ld, %ld, %.0f", got, direct, double(d));
}
struct Team { int n; unsigned tag; };
void member(void *p)
{
  unsigned tag = *(unsigned *)p;
  std::unique_ptr<Timed> a(Timed::make()), b;
  work(tag % 7);
  b.reset(Timed::make());
  a->elapsed("a timer of a thread");
  work(tag % 11);
  if (tag & 1) a->restart();
  b->elapsed("a second timer of a thread"); a->elapsed("a restarted timer of a thread");
}

void run(SimProg const *p)
{
  std::unique_ptr<vsip::vsipl> lib(new vsip::vsipl);
  for (int n = 1; n < p->nops; ++n)
  {
    Args a(p->ops[n]);
    int k = a.raw();
    Timed *t = timers.empty() ? 0 : timers[k % timers.size()].get();
    switch (p->ops[n].code)
    {
      case OP_NEW: if (timers.size() < 6) timers.push_back(std::unique_ptr<Timed>(Timed::make())); break;
      case OP_DROP: if (t) timers.erase(timers.begin() + k % timers.size()); break;
      case OP_RESTART:
        if (!t) break;
        {
          Point q; q.p = t->restart(); q.at = t->start;
          if (points.size() < 8) points.push_back(q); else points[k % 8] = q;
        }
        break;
      case OP_ELAPSED: if (t) t->elapsed("the time since a timer was started"); break;
      case OP_COPY:
        if (!t) break;
        sim_probe(PR_COPY);
        if (timers.size() < 6) timers.push_back(std::unique_ptr<Timed>(new Timed(*t)));
        else *timers[a.below(timers.size())] = *t;
        break;
      case OP_POINT:
      {
        Point q;
        q.at = around([&] { q.p = clk::now(); });
        if (points.size() < 8) points.push_back(q); else points[k % 8] = q;
        for (size_t i = 0; i < points.size(); ++i) { apart(q, points[i]); apart(points[i], q); }
        sim_probe(PR_POINTS);
        break;
      }
      case OP_ARITH:
      {
        long v[3]; for (int i = 0; i < 3; ++i) v[i] = (long(a.raw()) - 500) * (i == 1 ? 1000000007l : 1);
        clk::duration d(v[0]); d += clk::duration(v[1]); d -= clk::duration(v[2]);
        if (d.count() != v[0] + v[1] - v[2]) sim_fail("wrong-value", "a sum of durations is %ld, should be %ld", long(d.count()), v[0] + v[1] - v[2]);
        if (clk::duration::zero().count() != 0) sim_fail("wrong-value", "the duration of zero is %ld", long(clk::duration::zero().count()));
        struct Dirty { alignas(point) unsigned char m[sizeof(point)]; } m; memset(&m, 0x5a, sizeof m);
        asm volatile("" : : "r"(&m) : "memory");
        point *e = new (&m) point;
        asm volatile("" : : "r"(&m) : "memory");
        if (e->time_since_epoch().count() != 0) sim_fail("wrong-value", "the epoch is %ld after itself", long(e->time_since_epoch().count()));
        *e += d; *e -= clk::duration(5); *e += clk::duration(2);
        if (e->time_since_epoch().count() != d.count() - 3) sim_fail("wrong-value", "a moved point of time is at %ld, should be at %ld", long(e->time_since_epoch().count()), long(d.count() - 3));
        break;
      }
      case OP_WORK:                                // time passes: here, on the way to others, or nowhere
      {
        int how = a.below(3);
        if (how == 0) work(k % 40);
        else if (how == 1) MPI_Barrier(MPI_COMM_WORLD);
        else
        {
          length_type len = 1 + k % 30;
          Map<> mb(num_processors()); Map<Cyclic_dist> mc(Cyclic_dist(num_processors(), 1));
          Vector<float, Dense<1, float, row1_type, Map<> > > x(len, 2.f, mb); Vector<float, Dense<1, float, row1_type, Map<Cyclic_dist> > > y(len, mc);
          y = x;
        }
        break;
      }
      case OP_THREADS:
      {
        int c = 1 + a.below(3), ids[3]; unsigned tags[3];
        for (int i = 0; i < c; ++i) { tags[i] = hashu(k, i); ids[i] = sim_spawn(member, &tags[i]); }
        if (t) t->elapsed("a timer while threads run");
        for (int i = 0; i < c; ++i) sim_join(ids[i]);
        sim_probe(PR_THREAD);
        break;
      }
      case OP_LIBRARY: lib.reset(); lib.reset(new vsip::vsipl); sim_probe(PR_LIB); break;     // timers do not mind
    }
  }
  for (size_t i = 0; i < timers.size(); ++i) timers[i]->elapsed("a timer at the end");
}
}
extern "C" {
struct SimInfo const wl_info = { "tim", 1, 3, 3, 30, NOPS, weights, SIM_F_CLOCK | SIM_F_IO, SIM_FL_PREEMPT };

void wl_rank(struct SimProg const *p, int)
{
  MPI_Init(0, 0);
  run(p);
  std::vector<std::unique_ptr<Timed> >().swap(timers); std::vector<Point>().swap(points);
  sim_check_all_heap();
  MPI_Finalize();
}
}
