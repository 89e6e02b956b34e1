// Threads of one processor, each holding a vsipl object, use the library at the
// same time: views of shared blocks (copied, dropped, handed over, read, written
// in disjoint parts) and objects of their own.  Compiled with -fsanitize=thread
// instrumentation: every memory access is a possible preemption point and
// unordered conflicting accesses are violations.
#include "common.hpp"
#include <vsip/signal.hpp>
#include <vsip/random.hpp>
#include <mutex>
#include <dlfcn.h>
#include <fftw3.h>

using namespace wl;

namespace
{
typedef Dense<1, float> block1;
typedef Dense<2, complex<float> > block2;
typedef Vector<float, block1> V1;
typedef Matrix<complex<float>, block2> M2;
enum { MAXT = 4, NSH = 3 };

int const weights[] = { 5, 4, 4, 4, 5, 6, 6, 5, 3, 2, 3, 2 };

int T;                                   // number of threads
SimProg const *prog;

float val(int tag, int i) { return float(int(hashu(tag, i) % 201) - 100); }

struct Mailbox { std::mutex m; std::vector<V1> v; };
Mailbox *boxes;                          // [T]

// What a thread starts with: its own handles of everything shared.
struct Start
{
  int t;
  std::vector<V1> sh;                    // shared vectors; this thread owns slice t
  std::vector<M2> shm;                   // shared matrix; this thread owns the rows r with r % T == t
  std::vector<V1> ro;                    // nobody writes it
  std::vector<int> tags;
};

void wrong(char const *what, int i, float got, float want)
{ sim_fail("wrong-value", "%s: element %d is %g, should be %g", what, i, got, want); }

void slice(length_type n, int t, index_type &lo, length_type &len)
{ lo = n * t / T; len = n * (t + 1) / T - lo; }

struct Worker
{
  Start &s; int t;
  std::vector<V1> loc;                   // copies of shared views
  std::vector<V1> own;                   // vectors only this thread knows, with their tag
  std::vector<int> owntag;
  std::vector<int> shtag;                // tag of what this thread last wrote to its slice
  int shmtag;
  explicit Worker(Start &st) : s(st), t(st.t), shtag(st.tags), shmtag(0) {}

  void check_slice(int k)
  {
    index_type lo; length_type len; slice(s.sh[k].size(), t, lo, len);
    V1::subview_type v = s.sh[k](Domain<1>(lo, 1, len));
    for (index_type i = 0; i < len; ++i)
    {
      float g = v.get(i), w = val(shtag[k], shtag[k] < 1000 ? lo + i : i);
      if (g != w) wrong("own part of a shared vector", i, g, w);
    }
  }
  void check_own(size_t k, char const *what)
  {
    for (index_type i = 0; i < own[k].size(); ++i)
      if (own[k].get(i) != val(owntag[k], i)) wrong(what, i, own[k].get(i), val(owntag[k], i));
  }
  static void fill(V1 v, int tag) { for (index_type i = 0; i < v.size(); ++i) v.put(i, val(tag, i)); }

  void op(int n, SimOp const &o)
  {
    Args a(o); a.raw();
    sim_event("op %d code %d", n, o.code);
    int tag = 1000 + n;
    switch (o.code)
    {
      case 0:                                        // copies of shared handles
      {
        int k = a.below(NSH), c = 1 + a.below(3);
        for (int i = 0; i < c; ++i) loc.push_back(loc.empty() || a.below(2) ? s.sh[k] : V1(loc[a.below(loc.size())]));
        if (loc.size() > 1 && a.below(2)) { V1 tmp(loc[0]); (void)tmp; }
        sim_probe(0);
        break;
      }
      case 1:                                        // drop handles
        while (!loc.empty() && a.below(4)) loc.pop_back();
        if (!own.empty() && a.below(3) == 0) { own.pop_back(); owntag.pop_back(); }
        break;
      case 2:                                        // write the part of a shared vector this thread owns
      {
        int k = a.below(NSH);
        index_type lo; length_type len; slice(s.sh[k].size(), t, lo, len);
        if (!len) break;
        int how = a.below(3);
        V1 src(len); fill(src, tag);
        if (how == 0) s.sh[k](Domain<1>(lo, 1, len)) = src;
        else if (how == 1) { V1::subview_type sub = s.sh[k](Domain<1>(lo, 1, len)); sub = src * 2.f - src; }
        else { V1 copy(s.sh[k]); V1::subview_type x(copy(Domain<1>(lo, 1, len))); for (index_type i = 0; i < len; ++i) x.put(i, src.get(i)); }
        shtag[k] = tag;
        sim_probe(1);
        break;
      }
      case 3: check_slice(a.below(NSH)); break;
      case 4:                                        // read what nobody writes
      {
        V1 r(s.ro[0]);
        float want = 0; for (index_type i = 0; i < r.size(); ++i) want += val(7, i);
        float got = sumval(r);
        if (got != want) wrong("sum of a constant vector", 0, got, want);
        V1::subview_type ev = r(Domain<1>(0, 2, (r.size() + 1) / 2));
        V1 x(ev.size()); x = ev + 1.f;
        for (index_type i = 0; i < x.size(); ++i) if (x.get(i) != val(7, 2 * i) + 1.f) wrong("expression of a constant vector", i, x.get(i), val(7, 2 * i) + 1.f);
        Index<1> ix; float mx = maxval(r, ix); index_type at = ix[0];
        if (mx != r.get(at)) wrong("maximum of a constant vector", at, r.get(at), mx);
        break;
      }
      case 5:                                        // a new vector, sometimes built from an own one
      {
        length_type len = 1 + a.below(12);
        V1 v(len); fill(v, tag);
        V1 w(len); w = v;
        own.push_back(w); owntag.push_back(tag);
        check_own(own.size() - 1, "own vector");
        break;
      }
      case 6:                                        // hand a vector over
      {
        if (own.empty()) break;
        int u = a.below(T);
        { std::lock_guard<std::mutex> l(boxes[u].m); boxes[u].v.push_back(own.back()); }
        own.pop_back(); owntag.pop_back();
        sim_probe(2);
        break;
      }
      case 7:                                        // take what others handed over; now it may be written
      {
        std::vector<V1> got;
        { std::lock_guard<std::mutex> l(boxes[t].m); got.swap(boxes[t].v); }
        for (size_t i = 0; i < got.size(); ++i)
        { fill(got[i], tag); own.push_back(got[i]); owntag.push_back(tag); sim_probe(3); }
        break;
      }
      case 8:                                        // rows of a shared matrix
      {
        M2 m(s.shm[0]);
        for (index_type r = t; r < m.size(0); r += T)
        {
          M2::row_type row = m.row(r);
          for (index_type c = 0; c < m.size(1); ++c)
          {
            complex<float> w(val(shmtag, r * 31 + c), val(shmtag, 5000 + c));
            if (shmtag && row.get(c) != w) wrong("own row of a shared matrix", c, row.get(c).real(), w.real());
          }
          for (index_type c = 0; c < m.size(1); ++c) row.put(c, complex<float>(val(tag, r * 31 + c), val(tag, 5000 + c)));
          M2::row_type::realview_type re = row.real();
          if (re.size() && re.get(0) != val(tag, r * 31)) wrong("real part of an own row", 0, re.get(0), val(tag, r * 31));
        }
        shmtag = tag;
        break;
      }
      case 9:                                        // a filter and its state
      {
        length_type kl = 2 + a.below(3), fl = 6 + a.below(4);
        V1 k(kl), in(fl), out(fl);
        fill(k, 3); 
        Fir<float> f(k, fl);
        std::vector<float> all;
        for (int fr = 0; fr < 2; ++fr)
        {
          fill(in, tag + fr);
          f(in, out);
          for (index_type i = 0; i < fl; ++i) all.push_back(val(tag + fr, i));
          for (index_type i = 0; i < fl; ++i)
          {
            float w = 0; long at = fr * fl + i;
            for (index_type j = 0; j < kl; ++j) if (at >= (long)j) w += val(3, j) * all[at - j];
            if (out.get(i) != w) wrong("output of a filter", i, out.get(i), w);
          }
          if (fr == 0) { Fir<float> g(f); fill(in, 99); g(in, out); sim_probe(4); }   // a copy has its own state
        }
        break;
      }
      case 10:                                       // random numbers; transforms
      {
        if (a.below(2))
        {
          int seed = a.below(1000);
          Rand<float> g1(seed, true), g2(seed, true);
          for (int i = 0; i < 6; ++i) { float x = g1.randu(), y = g2.randu(); if (x != y || x < 0 || x > 1) wrong("random number", i, x, y); }
        }
        else
        {
          length_type const n = 4 + 4 * a.below(2);
          Fft<const_Vector, complex<float>, complex<float>, fft_fwd, by_reference, 1> f(Domain<1>(n), 1.f);
          Vector<complex<float> > x(n, complex<float>(1, 0)), y(n);
          f(x, y);
          for (index_type i = 0; i < n; ++i)
          { float w = i ? 0.f : float(n), g = y.get(i).real(); if (g - w > .01f || w - g > .01f) wrong("transform of a constant", i, g, w); }
          sim_probe(5);
        }
        break;
      }
      default:                                       // one more vsipl object; the default communicator of this thread
      {
        vsip::vsipl more;
        if (num_processors() != 1 || local_processor() != 0) wrong("number of processors", 0, num_processors(), 1);
        if (a.below(2))
        {
          Map<> m(1); Vector<float, Dense<1, float, row1_type, Map<> > > d(9, m), e(9, m);
          for (index_type i = 0; i < 9; ++i) d.put(i, val(tag, i));
          e = d + d;
          for (index_type i = 0; i < 9; ++i) if (e.get(i) != 2 * val(tag, i)) wrong("vector with a map", i, e.get(i), 2 * val(tag, i));
        }
      }
    }
  }
  void run()
  {
    for (int n = 0; n < prog->nops; ++n) if (n && prog->ops[n].a[0] % T == t) op(n, prog->ops[n]);
    for (int k = 0; k < NSH; ++k) check_slice(k);
    for (size_t k = 0; k < own.size(); ++k) check_own(k, "own vector at the end");
  }
};

struct Thread { Start *s; bool lib; };
void body(void *p)
{
  Start *s = (Start *)p;
  {
    vsip::vsipl lib;
    std::unique_ptr<Start> st(s);
    { Worker w(*st); w.run(); }
    st.reset();                              // every handle goes before the library of this thread
  }
}

void run_all(SimProg const *p)
{
  Oracle *o_ = new Oracle; // nothing to preempt yet
  Args a(p->ops[0]);
  T = 2 + a.below(3);
  prog = p;
  int drop = a.below(8), size = 4 + a.below(14);
  delete o_;
  vsip::vsipl lib;
  {
    boxes = new Mailbox[MAXT];
    std::vector<V1> sh; std::vector<M2> shm; std::vector<V1> ro; std::vector<std::unique_ptr<V1> > kept;
    for (int k = 0; k < NSH; ++k) { V1 v(size + 3 * k); Worker::fill(v, 100 + k); sh.push_back(v); kept.push_back(std::unique_ptr<V1>(new V1(v))); }
    { V1 r(size); Worker::fill(r, 7); ro.push_back(r); }
    shm.push_back(M2(5, 4));
    std::vector<int> ids;
    for (int t = 0; t < T; ++t)
    {
      Start *s = new Start; s->t = t; s->sh = sh; s->shm = shm; s->ro = ro;
      for (int k = 0; k < NSH; ++k) s->tags.push_back(100 + k);
      ids.push_back(sim_spawn(body, s));
    }
    sh.clear();
    // the main thread lets go of some: the last user releases the memory
    for (int k = 0; k < NSH; ++k) if (drop >> k & 1) { sim_probe(6); kept[k].reset(); }
    for (int t = 0; t < T; ++t) sim_join(ids[t]);
    if (sumval(ro[0]) != sumval(V1(ro[0]))) wrong("sum", 0, 0, 0);
    delete[] boxes;
  }
}
// FFTW's planner may only be used by one thread at a time
int planning = -1;
template <typename F> F real_fn(char const *n) { return (F)dlsym(RTLD_NEXT, n); }
struct Planner
{
  Planner(char const *f)
  {
    if (planning >= 0 && planning != sim_thread()) sim_fail("data-race", "%s is called by thread %d while thread %d is planning", f, sim_thread(), planning);
    planning = sim_thread(); sim_yield("planner"); sim_hold(1);
  }
  ~Planner() { sim_hold(0); sim_yield("planner"); planning = -1; }
};
}
extern "C" {
fftwf_plan fftwf_plan_guru_dft(int r, const fftwf_iodim *d, int h, const fftwf_iodim *hd, fftwf_complex *i, fftwf_complex *o, int s, unsigned f)
{
  Planner p_("fftwf_plan_guru_dft");
  return real_fn<fftwf_plan (*)(int, const fftwf_iodim *, int, const fftwf_iodim *, fftwf_complex *, fftwf_complex *, int, unsigned)>("fftwf_plan_guru_dft")(r, d, h, hd, i, o, s, f);
}
void fftwf_destroy_plan(fftwf_plan q)
{ Planner p_("fftwf_destroy_plan"); real_fn<void (*)(fftwf_plan)>("fftwf_destroy_plan")(q); }

struct SimInfo const wl_info = { "thr", 1, 1, 4, 24, 12, weights, 0, SIM_FL_PREEMPT };

void wl_rank(struct SimProg const *p, int)
{
  long before = sim_live_allocs();
  run_all(p);
  sim_hold(1); fftwf_cleanup(); sim_hold(0);
  long after = sim_live_allocs();
  if (after != before) sim_fail("memory-leak", "%ld allocations are left over when everything is gone", after - before);
  if (sim_mpi_inits() != 1 || sim_mpi_finalizes() != 1) sim_fail("wrong-value", "MPI initialised %ld times, finalised %ld times", sim_mpi_inits(), sim_mpi_finalizes());
  sim_check_all_heap();
}
}
