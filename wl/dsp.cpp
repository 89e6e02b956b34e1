// Signal processing of distributed data: Fourier transforms of the rows or
// columns of a distributed matrix, vector-matrix products, filters and
// transforms of the rows a processor owns, with corner turns in between.
// DSP_PART 0 is the interpreter, the others hold one or two map kinds each.
#include "objects.hpp"
#include <vsip/impl/signal/fft.hpp>
#include <vsip/impl/signal/fir.hpp>
#include <vsip/impl/signal/conv.hpp>
#include <cmath>
using namespace wl;
typedef vsip::complex<float> CF;
typedef std::complex<double> Z;
struct Slot;
struct DspTables
{
  typedef Slot *(*Make)(length_type const *, MapParam const &, int);
  typedef void (*Turn)(Slot &, Slot &);
  Make make[8]; Turn turn[8][8];
};
DspTables &dsp_tables();
enum { PR_INPLACE, PR_OUT, PR_VALUE, PR_NESTED, PR_VMREP, PR_VMDIST, PR_ROWS, PR_EMPTY, PR_REAL, PR_VMFFT, PR_CYC };

// A distributed matrix with its serial model, of any map kind
struct Slot
{
  int nranks;
  virtual ~Slot() {}
  virtual Typed<CF, 2> &obj() = 0;
  virtual bool whole(int dim) const = 0;       // dimension not distributed
  virtual void step(Args &a, unsigned tag) = 0;
};

#if DSP_PART == 0
namespace wl { Tables &tables() { static Tables t; return t; } }
DspTables &dsp_tables() { static DspTables t; return t; }
static int const kinds[] = { 0, 1, 2, 5, 6, 7 };
enum { NKINDS = 6 };
enum { OP_NEW, OP_TURN, OP_STEP, NOPS };
static int const weight[] = { 2, 3, 6 };
extern "C" { SimInfo const wl_info = { "dsp", 1, 6, 3, 10, NOPS, weight, SIM_F_MPIERR, SIM_FL_FAILSTOP | SIM_FL_FAULTBIAS }; }
extern "C" void wl_rank(SimProg const *p, int)
{
  vsipl lib;
  long types = sim_live_types();
  {
    std::unique_ptr<Slot> s[2];
    length_type e[3] = { 1, 1, 1 };
    for (int i = 0; i < p->nops; ++i)
    {
      Args a(p->ops[i]); FaultyOp f_(i);
      int op = p->ops[i].code, w = a.below(2);
      if (op == OP_NEW || !s[0])
      {
        if (!s[0]) { e[0] = a.extent(9, 3); e[1] = a.extent(9, 3); }
        for (int k = 0; k < 2; ++k)
        {
          int kind = kinds[a.below(NKINDS)]; MapParam q; q.draw(a, p->nranks);
          int shape = a.below(4);                 // mostly distributed along one dimension
          if (shape == 1) { q.np[0] = p->nranks; q.np[1] = 1; }
          if (shape == 2) { q.np[0] = 1; q.np[1] = p->nranks; }
          if (k != w && s[k]) continue;
          s[k].reset(); s[k].reset(dsp_tables().make[kind](e, q, p->nranks));
          s[k]->nranks = p->nranks;
          s[k]->obj().refill(7 * i + k);
          sim_note("%d: %s", k, describe(s[k]->obj()).c_str());
        }
      }
      else if (op == OP_TURN)
      {
        sim_note("corner turn %d <- %d", w, 1 - w);
        dsp_tables().turn[s[w]->obj().k][s[1 - w]->obj().k](*s[w], *s[1 - w]);
        { Oracle o_; s[w]->obj().m.v = s[1 - w]->obj().m.v; }
        s[w]->obj().check("matrix after a corner turn");
      }
      else s[w]->step(a, 5 * i + 1);
      for (int k = 0; k < 2; ++k) s[k]->obj().check("matrix after an operation");
    }
  }
  if (sim_live_types() > types) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
}
#else
namespace {
static Z z(CF v) { return Z(v.real(), v.imag()); }
static Z z(float v) { return Z(v, 0); }
typedef std::vector<Z> ZV;
// serial transform along one dimension of an R x C matrix
static ZV dft(ZV const &m, length_type R, length_type C, int dim, int sign, double scale)
{
  ZV out(m.size());
  length_type n = dim ? C : R, other = dim ? R : C;
  for (index_type o = 0; o < other; ++o)
    for (index_type k = 0; k < n; ++k)
    {
      Z s = 0;
      for (index_type j = 0; j < n; ++j)
        s += m[dim ? o * C + j : j * C + o] * std::polar(1.0, sign * 2 * M_PI * double((j * k) % n) / double(n));
      out[dim ? o * C + k : k * C + o] = s * scale;
    }
  return out;
}
template <typename V> struct CheckNear
{
  V v; typename V::local_type loc; ZV const &want; length_type C; double tol; char const *what;
  CheckNear(V vv, ZV const &w, length_type c, double t, char const *s) : v(vv), loc(vv.local()), want(w), C(c), tol(t), what(s) {}
  void operator()(index_type const *l, index_type const *g)
  {
    Z got = z(loc.get(l[0], l[1])), ref = want[g[0] * C + g[1]];
    if (!(std::abs(got - ref) <= tol))
      sim_fail("wrong-value", "%s: element (%lu,%lu) is (%g,%g), a serial program has (%g,%g)", what, (unsigned long)g[0], (unsigned long)g[1],
               got.real(), got.imag(), ref.real(), ref.imag());
  }
};
template <typename V> static void near(V v, ZV const &want, char const *what)
{
  Oracle o_;
  double mx = 0; for (auto x : want) mx = std::max(mx, std::abs(x));
  CheckNear<V> f(v, want, v.size(1), 2e-4 * (mx + 1), what);
  for_local(v, f);
}
template <int K> struct SlotK : Slot
{
  typedef Obj<CF, 2, K> O;
  typedef typename O::map_type map_type;
  O o;
  MapParam q;
  SlotK(length_type const *e, MapParam const &qq, int n) : o(e, qq, n), q(qq) { nranks = n; }
  static Slot *make(length_type const *e, MapParam const &q, int n) { return new SlotK(e, q, n); }
  Typed<CF, 2> &obj() { return o; }
  bool whole(int d) const { return o.view.block().map().num_subblocks(d) == 1; }
  ZV model() const { ZV r; for (auto v : o.m.v) r.push_back(z(v)); return r; }
  length_type R() const { return o.m.ext[0]; }
  length_type C() const { return o.m.ext[1]; }
  // go on from the serial values, so that errors do not add up
  void settle(ZV const &w)
  {
    bool ok = true;
    for (size_t i = 0; i < w.size(); ++i)
    {
      o.m.v[i] = CF(w[i].real(), w[i].imag());
      ok = ok && std::abs(w[i]) < 1e6;
    }
    if (!ok) o.m.fill(w.size());
    write_local(o.view, o.m);
  }
  void finish(ZV const &w, char const *what) { near(o.view, w, what); settle(w); }

  template <int A, int D> void fftm(Args &a)
  {
    int const dim = A == row ? 1 : 0;           // row: along the columns' index
    int how = a.below(8);
    float scale = how % 2 ? 1.f / (dim ? C() : R()) : 0.5f;
    Domain<2> dom(R(), C());
    int const sign = D == fft_fwd ? -1 : 1;
    typedef Fftm<CF, CF, A, D, by_reference, 1, alg_time> Ref;
    typedef Fftm<CF, CF, A, D, by_value, 1, alg_time> Val;
    ZV in = model(), out = dft(in, R(), C(), dim, sign, scale);
    if (!subblock_any()) sim_probe(PR_EMPTY);
    sim_note("transform of the %s, form %d, %s", A == row ? "rows" : "columns", how, D == fft_fwd ? "forward" : "inverse");
    switch (how)
    {
      case 0: case 1: { sim_probe(PR_INPLACE); Ref f(dom, scale); f(o.view); finish(out, "transform in place"); break; }
      case 2:
      {
        sim_probe(PR_OUT);
        Ref f(dom, scale);
        O b(o.m.ext, q, nranks); b.refill(a.raw());
        f(o.view, b.view);
        near(b.view, out, "transform out of place");
        o.check("source of a transform");
        f(o.view, b.view);
        near(b.view, out, "transform repeated");
        break;
      }
      case 3:
      {
        sim_probe(PR_VALUE);
        Val f(dom, scale);
        O b(o.m.ext, q, nranks); b.refill(a.raw());
        b.view = f(o.view);
        near(b.view, out, "transform by value");
        o.check("source of a transform");
        break;
      }
      case 4:
      {
        Val f(dom, scale);
        float s = 1 + a.below(3);
        O b(o.m.ext, q, nranks); b.refill(a.raw());
        b.view = s * f(o.view) + o.view;
        for (size_t i = 0; i < out.size(); ++i) out[i] = double(s) * out[i] + in[i];
        near(b.view, out, "expression with a transform");
        break;
      }
      case 5:
      {
        sim_probe(PR_NESTED);
        Val f(dom, scale);
        Fftm<CF, CF, A, D == fft_fwd ? fft_inv : fft_fwd, by_value, 1, alg_time> g(dom, 1.f);
        float back = dim ? C() : R();
        O b(o.m.ext, q, nranks); b.refill(a.raw());
        b.view = g(f(o.view));
        for (size_t i = 0; i < out.size(); ++i) out[i] = in[i] * double(scale) * double(back);
        near(b.view, out, "inverse of a transform");
        break;
      }
      case 6: case 7: fftm_vm<A, D>(*this, a, dom, scale, out); break;
    }
  }
  bool subblock_any() const { return subblock(o.view) != no_subblock; }
  // a vector that conforms to the matrix for vmmul<VD>
  template <int A, int D> static void fftm_vm(SlotK &s, Args &a, Domain<2> const &dom, float scale, ZV out)
    {
      sim_probe(PR_VMFFT);
      Fftm<CF, CF, A, D, by_value, 1, alg_time> f(dom, scale);
      typedef Obj<CF, 1, 2> VO;
      int const VD = A == row ? 0 : 1;          // along the transformed dimension, which is whole
      length_type n[3] = { VD == 0 ? s.C() : s.R(), 1, 1 };
      MapParam vq; vq.draw(a, s.nranks); vq.perm = 0;
      VO v(n, vq, s.nranks); v.refill(a.raw());
      O b(s.o.m.ext, s.q, s.nranks); b.refill(a.raw());
      b.view = vmmul<VD>(v.view, f(s.o.view));
      for (index_type i = 0; i < s.R(); ++i) for (index_type j = 0; j < s.C(); ++j) out[i * s.C() + j] *= z(v.m.v[VD == 0 ? j : i]);
      near(b.view, out, "weighted transform");
    }
  template <int VD, int KV> void vm(Args &a)
  {
    typedef Obj<CF, 1, KV> VO;
    length_type n[3] = { VD == 0 ? C() : R(), 1, 1 };
    MapParam vq = q;
    vq.np[0] = o.view.block().map().num_subblocks(VD == 0 ? 1 : 0);
    if (KV == 2) vq.perm = 0;
    VO v(n, vq, nranks); v.refill(a.raw());
    int how = a.below(3);
    sim_note("vmmul<%d>, vector %s, form %d", VD, describe(v).c_str(), how);
    sim_probe(KV == 2 ? PR_VMREP : PR_VMDIST);
    O b(o.m.ext, q, nranks); b.refill(a.raw());
    ZV w = model();
    switch (how)
    {
      case 0: b.view = vmmul<VD>(v.view, o.view); break;
      case 1: o.view = vmmul<VD>(v.view, o.view); break;
      case 2: b.view = vmmul<VD>(v.view, CF(2, 1) * o.view); for (auto &x : w) x *= Z(2, 1); break;
    }
    for (index_type i = 0; i < R(); ++i) for (index_type j = 0; j < C(); ++j) w[i * C() + j] *= z(v.m.v[VD == 0 ? j : i]);
    if (how == 1) finish(w, "vector-matrix product in place"); else near(b.view, w, "vector-matrix product");
  }
  // transform, filter or convolve the rows (columns) this processor holds
  template <typename V> static void line(Args a, V in, V out, length_type n, int how)
  {
    if (how == 0)
    {
      Fft<const_Vector, CF, CF, fft_fwd, by_reference, 1> f(Domain<1>(n), 1.f);
      f(in, out);
    }
    else
    {
      Vector<CF> k(3); for (int i = 0; i < 3; ++i) k.put(i, CF(i + 1, i - 1));
      if (how == 1) { Fir<CF, nonsym, state_no_save> f(k, n, 1); f(in, out); }
      else { Convolution<const_Vector, nonsym, support_same, CF> f(k, Domain<1>(n), 1); f(in, out); }
    }
  }
  void lines(Args &a, int dim)
  {
    sim_probe(PR_ROWS);
    int how = a.below(3);
    length_type n = dim ? C() : R(), other = dim ? R() : C();
    if (n < 3) how = 0;
    sim_note("%s a processor holds, form %d", dim ? "rows" : "columns", how);
    O b(o.m.ext, q, nranks); b.refill(a.raw());
    if (subblock_any())
    {
      typename O::view_type::local_type in = o.view.local(), out = b.view.local();
      if (dim) for (index_type r = 0; r < in.size(0); ++r) line(a, in.row(r), out.row(r), n, how);
      else for (index_type c = 0; c < in.size(1); ++c) line(a, in.col(c), out.col(c), n, how);
    }
    ZV w = model();
    if (how == 0) w = dft(w, R(), C(), dim, -1, 1);
    else
    {
      ZV x = w;
      for (index_type l = 0; l < other; ++l) for (index_type i = 0; i < n; ++i)
      {
        Z s = 0;
        for (int k = 0; k < 3; ++k)
        {
          long j = long(i) - k + (how == 2 ? 1 : 0);
          if (j >= 0 && j < long(n)) s += Z(k + 1, k - 1) * x[dim ? l * C() + j : j * C() + l];
        }
        w[dim ? l * C() + i : i * C() + l] = s;
      }
    }
    near(b.view, w, how == 0 ? "transforms of local rows" : how == 1 ? "filters of local rows" : "convolutions of local rows");
  }
  // real to complex and back, by value
  template <int A> void real(Args &a)
  {
    sim_probe(PR_REAL);
    int const dim = A == row ? 1 : 0;
    length_type N = dim ? C() : R();
    length_type eh[3] = { R(), C(), 1 }; eh[dim] = N / 2 + 1;
    sim_note("transform of real %s", dim ? "rows" : "columns");
    Obj<float, 2, K> x(o.m.ext, q, nranks); x.refill(a.raw());
    O h(eh, q, nranks); h.refill(a.raw());
    Fftm<float, CF, A, fft_fwd, by_value, 1, alg_time> f(Domain<2>(R(), C()), 1.f);
    h.view = f(x.view);
    ZV in; for (auto v : x.m.v) in.push_back(z(v));
    ZV all = dft(in, R(), C(), dim, -1, 1), w(eh[0] * eh[1]);
    for (index_type i = 0; i < eh[0]; ++i) for (index_type j = 0; j < eh[1]; ++j) w[i * eh[1] + j] = all[i * C() + j];
    near(h.view, w, "transform of real data");
    x.check("source of a transform of real data");
    if (N % 2) return;
    Fftm<CF, float, A, fft_inv, by_value, 1, alg_time> g(Domain<2>(R(), C()), 1.f / N);
    x.view = T0() * x.view;
    x.view = g(h.view);
    near(x.view, in, "transform back to real data");
  }
  static float T0() { return 0.f; }
  void step(Args &a, unsigned)
  {
    int w = a.below(6), A = a.below(2), D = a.below(2);
    if (K == 2) sim_probe(PR_CYC);
    bool w0 = whole(0), w1 = whole(1);
    if (w < 3)
    {
      if (A == 0 && !w1) A = 1;
      if (A == 1 && !w0) A = 0;
      if (A == 0 && !w1) return;
      if (A == 0) { if (D) fftm<row, fft_fwd>(a); else fftm<row, fft_inv>(a); }
      else        { if (D) fftm<col, fft_fwd>(a); else fftm<col, fft_inv>(a); }
    }
    else if (w == 3)
    {
      // replicated vector: matrix whole along the vector; distributed: whole across it
      int KV = a.below(2);
      if (KV == 0 || K == 2 || K == 7)
      {
        if (A == 0 && w1) vm<0, 2>(a); else if (w0) vm<1, 2>(a); else if (w1) vm<0, 2>(a);
      }
      else if (A == 0 && w0) vm<0, 0>(a); else if (w1) vm<1, 0>(a); else if (w0) vm<0, 0>(a);
    }
    else if (w == 4)
    {
      if (A == 0 && w1) lines(a, 1); else if (w0) lines(a, 0); else if (w1) lines(a, 1);
    }
    else
    {
      if (A == 0 && w1) real<row>(a); else if (w0) real<col>(a); else if (w1) real<row>(a);
    }
  }
};
template <int KD, int KS> struct Turner
{
  static void run(Slot &d, Slot &s) { static_cast<SlotK<KD> &>(d).o.view = static_cast<SlotK<KS> &>(s).o.view; }
};
template <int K> struct Register
{
  template <int KS> static void one() { dsp_tables().turn[K][KS] = &Turner<K, KS>::run; }
  Register()
  {
    dsp_tables().make[K] = &SlotK<K>::make;
    one<0>(); one<1>(); one<2>(); one<5>(); one<6>(); one<7>();
  }
};
Register<DSP_KIND> reg_;
}
#endif
