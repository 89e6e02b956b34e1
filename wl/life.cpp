// Lifetime of the library: objects of class vsipl in any number and order, with
// MPI owned by the application or by the library, in one thread or several,
// with allocations that fail while the library starts.
#include "common.hpp"
#include <ovxx/parallel/service.hpp>
#include <mpi.h>
#include <mutex>
#include <condition_variable>
#include <new>

using namespace wl;

namespace
{
enum { OP_MAKE, OP_DROP, OP_USE, OP_VIEW, OP_BSEND, OP_OWN_MPI, OP_COMM, OP_TEAM, OP_MAKE_FAIL, NOPS };
enum { PR_NESTED, PR_REINIT, PR_OUT_OF_ORDER, PR_TEAM_ALONE, PR_FAILED_INIT, PR_COMM, PR_TEAM };
int const weights[] = { 5, 5, 4, 3, 3, 2, 2, 4, 3 };
typedef Vector<float, Dense<1, float, row1_type, Map<> > > DV;
namespace P = ovxx::parallel;

bool app_mpi;
std::vector<std::unique_ptr<vsip::vsipl> > libs;
std::vector<std::unique_ptr<DV> > views;
std::vector<int> view_tags;
int ever;                 // library objects made so far
int in_comm;              // a communicator of our own is the default one
bool started;             // MPI is up, even if no library object is alive (a start failed half way)

void expect(bool ok, char const *what, long got, long want)
{ if (!ok) sim_fail("wrong-value", "%s: %ld, should be %ld", what, got, want); }

// What must hold at any time
void invariants(char const *when)
{
  bool const on = !libs.empty();
  long inits = sim_mpi_inits(), fins = sim_mpi_finalizes();
  char b[120];
  snprintf(b, sizeof b, "MPI initialisations, %s", when);
  expect(inits == (app_mpi || ever || started ? 1 : 0), b, inits, app_mpi || ever || started);
  long wf = !app_mpi && ever && !on;
  snprintf(b, sizeof b, "MPI finalisations, %s", when);
  expect(fins == wf, b, fins, wf);
  if (on || !started)
  {
    snprintf(b, sizeof b, "message buffers attached to MPI, %s", when);
    expect(sim_mpi_attached() == on, b, sim_mpi_attached(), on);
  }
  if (on)
  {
    snprintf(b, sizeof b, "number of processors, %s", when);
    expect(num_processors() == (length_type)sim_nranks(), b, num_processors(), sim_nranks());
    snprintf(b, sizeof b, "local processor, %s", when);
    expect(local_processor() == (processor_type)sim_rank(), b, local_processor(), sim_rank());
    expect(processor_set().size() == (length_type)sim_nranks(), "size of the processor set", processor_set().size(), sim_nranks());
  }
}
void made(vsip::vsipl *l) { libs.push_back(std::unique_ptr<vsip::vsipl>(l)); ever++; started = false; }
void drop_views() { while (!views.empty()) { views.pop_back(); view_tags.pop_back(); } }
void check_views()
{
  for (size_t k = 0; k < views.size(); ++k)
  {
    DV &v = *views[k];
    float got = sumval(v), want = 0;
    for (index_type i = 0; i < v.size(); ++i) want += int(hashu(view_tags[k], i) % 50);
    if (got != want) sim_fail("wrong-value", "a vector made earlier sums to %g, should be %g", got, want);
  }
}
void fill(DV &v, int tag)
{
  for (index_type i = 0; i < v.local().size(); ++i) v.local().put(i, int(hashu(tag, global_from_local_index(v, 0, i)) % 50));
}

struct Team
{
  std::mutex m; std::condition_variable cv; int here, n; bool together;
  void meet() { std::unique_lock<std::mutex> l(m); if (++here % n == 0) cv.notify_all(); else { int r = (here - 1) / n; while (here / n <= r) cv.wait(l); } }
};
struct Member { Team *t; int id, seed; };

void local_work(int seed)
{
  length_type n = 3 + seed % 5;
  Vector<float> a(n), b(n);
  for (index_type i = 0; i < n; ++i) a.put(i, seed + int(i));
  b = a * 2.f + 1.f;
  for (index_type i = 0; i < n; ++i) if (b.get(i) != (seed + int(i)) * 2.f + 1.f) sim_fail("wrong-value", "local vector of a thread: element %d", int(i));
  expect(num_processors() == (length_type)sim_nranks(), "number of processors in a thread", num_processors(), sim_nranks());
  expect(local_processor() == (processor_type)sim_rank(), "local processor in a thread", local_processor(), sim_rank());
  Map<> m(num_processors());
  DV d(7, m);
  if (subblock(d) != no_subblock) for (index_type i = 0; i < d.local().size(); ++i) d.local().put(i, 1.f);
}
void member(void *p)
{
  Member &m = *(Member *)p;
  int rounds = m.t->together ? 1 : 1 + m.seed % 3;
  for (int r = 0; r < rounds; ++r)
  {
    std::unique_ptr<vsip::vsipl> a(new vsip::vsipl);
    if (m.t->together) m.t->meet();          // every member has the library now
    local_work(m.seed + r);
    if (m.seed % 2)
    {
      std::unique_ptr<vsip::vsipl> b(new vsip::vsipl);
      local_work(m.seed + 10);
      if (m.seed % 4 == 1) a.swap(b);
      b.reset();
      local_work(m.seed + 11);
    }
    if (m.t->together) m.t->meet();
    a.reset();
  }
}
void team(int n, int seed)
{
  Team t; t.here = 0; t.n = n; t.together = !app_mpi && libs.empty();
  if (libs.empty()) { sim_probe(PR_TEAM_ALONE); } else sim_probe(PR_TEAM);
  Member ms[4]; int ids[4];
  for (int i = 0; i < n; ++i) { ms[i].t = &t; ms[i].id = i; ms[i].seed = hashu(seed, i) % 100; ids[i] = sim_spawn(member, &ms[i]); }
  if (!libs.empty()) local_work(5);
  for (int i = 0; i < n; ++i) sim_join(ids[i]);
}

void run(SimProg const *p)
{
  for (int n = 1; n < p->nops; ++n)
  {
    Args a(p->ops[n]);
    bool on = !libs.empty();
    bool over = !app_mpi && ever && !on;            // MPI has been finalised: nothing more can be done
    if (over) break;
    sim_event("op %d code %d", n, p->ops[n].code);
    switch (p->ops[n].code)
    {
      case OP_MAKE:
      {
        if (libs.size() >= 4) break;
        if (on) sim_probe(PR_NESTED); else if (ever) sim_probe(PR_REINIT);
        if (a.below(2))
        {
          char prog[] = "prog", arg[] = "-x"; char *storage[] = { prog, arg, 0 }; char **argv = storage; int argc = 2;
          made(new vsip::vsipl(argc, argv));
          if (argc != 2 || argv[1] != arg || strcmp(arg, "-x")) sim_fail("wrong-value", "the arguments of the application were changed");
        }
        else made(new vsip::vsipl);
        break;
      }
      case OP_DROP:
      {
        if (!on) break;
        if (libs.size() == 1)
        {
          drop_views();
          if (!app_mpi && a.below(3)) break;        // keep going for a while
        }
        size_t k = a.below(libs.size());
        if (k + 1 < libs.size()) sim_probe(PR_OUT_OF_ORDER);
        libs[k].swap(libs.back()); libs.pop_back();
        if (libs.empty()) in_comm = 0;
        break;
      }
      case OP_USE:
      {
        if (!on) break;
        length_type n = 1 + a.below(12); int tag = a.raw();
        Map<> m(num_processors());
        Map<Cyclic_dist> mc(Cyclic_dist(num_processors(), 1 + a.below(3)));
        DV x(n, m); Vector<float, Dense<1, float, row1_type, Map<Cyclic_dist> > > y(n, mc);
        fill(x, tag);
        y = x;
        float got = sumval(y), want = 0;
        for (index_type i = 0; i < n; ++i) want += int(hashu(tag, i) % 50);
        if (got != want) sim_fail("wrong-value", "sum of a distributed vector is %g, should be %g", got, want);
        break;
      }
      case OP_VIEW:
      {
        if (!on || views.size() > 3) break;
        Map<> m(num_processors());
        views.push_back(std::unique_ptr<DV>(new DV(1 + a.below(9), m)));
        int tag = a.raw(); view_tags.push_back(tag); fill(*views.back(), tag);
        break;
      }
      case OP_BSEND:                                // buffered sends use the buffer the library attached
      {
        if (!on) break;
        int nr = sim_nranks(), me = sim_rank(), len = 1 + a.below(2000);
        std::vector<float> out(len), in(len, -1.f);
        int tag = a.raw();
        for (int i = 0; i < len; ++i) out[i] = int(hashu(tag + me, i) % 100);
        P::Communicator c = P::default_communicator();
        c.buf_send((me + 1) % nr, &out[0], len);
        std::fill(out.begin(), out.end(), -2.f);    // the buffer is ours again at once
        c.recv((me + nr - 1) % nr, &in[0], len);
        for (int i = 0; i < len; ++i) if (in[i] != int(hashu(tag + (me + nr - 1) % nr, i) % 100)) sim_fail("wrong-value", "buffered message: element %d", i);
        break;
      }
      case OP_OWN_MPI:                              // the application uses MPI by itself
      {
        if (!on && !app_mpi) break;
        int nr = sim_nranks(), me = sim_rank(), v = me * 3 + n, w = -1, s = 0;
        MPI_Status st;
        MPI_Sendrecv(&v, 1, MPI_INT, (me + 1) % nr, 77, &w, 1, MPI_INT, (me + nr - 1) % nr, 77, MPI_COMM_WORLD, &st);
        expect(w == ((me + nr - 1) % nr) * 3 + n, "message of the application", w, ((me + nr - 1) % nr) * 3 + n);
        MPI_Allreduce(&v, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        break;
      }
      case OP_COMM:                                 // a default communicator of our own, with the same members
      {
        if (!on) break;
        if (!in_comm) { P::set_default_communicator(P::default_communicator().split(0)); in_comm = 1; sim_probe(PR_COMM); }
        else { P::Communicator c(P::default_communicator()); P::set_default_communicator(c); }
        break;
      }
      case OP_TEAM:
      {
        if (!on && !app_mpi && a.below(2)) break;
        team(2 + a.below(3), a.raw());
        ever++; started = false;
        break;
      }
      case OP_MAKE_FAIL:                            // memory runs out while the library starts
      {
        if (libs.size() >= 4) break;
        vsip::vsipl *l = 0;
        sim_faults_arm(1);
        try { l = new vsip::vsipl; } catch (std::bad_alloc const &) { sim_probe(PR_FAILED_INIT); }
        sim_faults_arm(0);
        if (!l && sim_nranks() > 1) l = new vsip::vsipl;     // the others have started
        if (l) made(l);
        // whether MPI came up before memory ran out is not determined
        else if (!on) started = started || app_mpi || sim_mpi_inits();
        break;
      }
    }
    invariants("after an operation");
    if (!libs.empty()) check_views();
  }
}
}
extern "C" {
struct SimInfo const wl_info = { "life", 1, 3, 3, 14, NOPS, weights, SIM_F_ALLOC | SIM_F_IO, SIM_FL_PREEMPT };

void wl_rank(struct SimProg const *p, int)
{
  {
    Args a(p->ops[0]);
    app_mpi = a.below(2);
  }
  if (app_mpi) MPI_Init(0, 0);
  long comms = sim_live_comms(), groups = sim_live_groups();
  long before = 0;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  invariants("at the start");
  run(p);
  drop_views();
  // the end of the program: a failed start is repeated, so that the library can end properly
  if (libs.empty() && started && !ever && !app_mpi) made(new vsip::vsipl);
  if (libs.empty() && started && app_mpi) made(new vsip::vsipl);
  while (!libs.empty()) libs.pop_back();
  started = false;
  invariants("at the end");
  std::vector<std::unique_ptr<vsip::vsipl> >().swap(libs);
  std::vector<std::unique_ptr<DV> >().swap(views); std::vector<int>().swap(view_tags);
  if (sim_live_comms() != comms || sim_live_groups() != groups)
    sim_fail("comm-leak", "communicators and groups left over after the library has ended: %ld and %ld", sim_live_comms() - comms, sim_live_groups() - groups);
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over after the library has ended", sim_live_allocs() - before);
  sim_check_all_heap();
  if (app_mpi) MPI_Finalize();
}
}
