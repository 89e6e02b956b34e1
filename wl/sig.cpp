// Signal processing objects and random generators under histories: frames,
// resets, copies, assignments, ends, in any order, over memory of any shape,
// with allocations that fail while objects are made or copied.  The reference
// model keeps the whole stream each object has seen.
#include "common.hpp"
#include <vsip/impl/signal/types.hpp>
#include <vsip/impl/signal/fft.hpp>
#include <vsip/impl/signal/conv.hpp>
#include <vsip/impl/signal/corr.hpp>
#include <vsip/impl/signal/fir.hpp>
#include <vsip/impl/signal/iir.hpp>
#include <vsip/impl/signal/freqswap.hpp>
#include <vsip/impl/signal/histo.hpp>
#include <vsip/random.hpp>
#include <ovxx/strided.hpp>
#include <new>
#include <cmath>
#if SIG_PART == 0
# include <fftw3.h>
#endif

using namespace wl;

namespace sig
{
typedef vsip::complex<float> cf;
typedef vsip::complex<double> cd;
enum { PR_FIR, PR_DEC, PR_COPY, PR_ASSIGN, PR_RESET, PR_NOMEM, PR_HIST, PR_IIR, PR_RAND, PR_CONV, PR_FFT, PR_STRIDE };

struct Obj
{
  int type; bool faulty;
  virtual ~Obj() {}
  virtual void frame(Args &) = 0;
  virtual void reset() {}
  virtual Obj *copy() { return 0; }              // 0: cannot be copied
  virtual bool assign(Obj &) { return false; }
};
typedef Obj *(*Maker)(Args &);
extern std::vector<Maker> *makers;

template <typename T> struct Cast { static T from(cd v) { return T(v.real()); } static cd to(T v) { return cd(double(v), 0); } };
template <typename T> struct Cast<vsip::complex<T> >
{ static vsip::complex<T> from(cd v) { return vsip::complex<T>(v.real(), v.imag()); } static cd to(vsip::complex<T> v) { return cd(v.real(), v.imag()); } };
template <typename T> inline cd value(unsigned h) { return Cast<T>::to(Cast<T>::from(cd(int(h % 15) - 7, int((h >> 8) % 15) - 7))); }

template <typename T>
void compare(char const *what, T got, cd want, index_type i, double tol = 0)
{
  cd g = Cast<T>::to(got);
  if (!(std::abs(g - want) <= tol))
    sim_fail("wrong-value", "%s: element %lu is (%g,%g), should be (%g,%g)", what, (unsigned long)i, g.real(), g.imag(), want.real(), want.imag());
}

// Memory of some shape, filled with x, given to f as a view; must be as it was afterwards.
template <typename T> struct Other
{ // the real parts of a complex vector
  Vector<vsip::complex<T> > b; 
  typedef typename Vector<vsip::complex<T> >::realview_type view;
  explicit Other(length_type n) : b(n, vsip::complex<T>(T(91), T(92))) {}
  view get() { return b.real(); }
  void canary() { for (index_type i = 0; i < b.size(); ++i) if (b.get(i).imag() != T(92)) sim_fail("wrong-value", "the imaginary part of element %lu changed with the real parts", (unsigned long)i); }
};
template <> struct Other<int>
{
  typedef Vector<int> view; view b; explicit Other(length_type n) : b(n) {} view get() { return b; } void canary() {}
};
template <typename T> struct Other<vsip::complex<T> >
{
  typedef vsip::complex<T> C;
  typedef Vector<C, ovxx::Strided<1, C, Layout<1, row1_type, dense, split_complex> > > view;
  view b; explicit Other(length_type n) : b(n) {} view get() { return b; } void canary() {}
};
struct Sub1
{
  index_type off; stride_type st; length_type total;
  Sub1(length_type n, Args &a)
  { st = 1 + a.below(3); off = a.below(3); total = off + (n - 1) * st + 1 + a.below(3); if (a.below(3) == 2) { off += (n - 1) * st; st = -st; } }
  Domain<1> dom(length_type n) const { return Domain<1>(off, st, n); }
  bool has(index_type i, length_type n) const
  { long d = long(i) - long(off); return d % st == 0 && d / st >= 0 && d / st < long(n); }
};
template <typename T, typename F>
void with_in(int kind, std::vector<cd> const &x, Args &a, F f)
{
  length_type n = x.size();
  if (kind == 0)
  {
    Vector<T> v(n); for (index_type i = 0; i < n; ++i) v.put(i, Cast<T>::from(x[i]));
    f(v);
    for (index_type i = 0; i < n; ++i) compare("input", v.get(i), x[i], i);
  }
  else if (kind == 1)
  {
    sim_probe(PR_STRIDE);
    Sub1 s(n, a); Vector<T> b(s.total, T(93));
    typename Vector<T>::subview_type v = b(s.dom(n));
    for (index_type i = 0; i < n; ++i) v.put(i, Cast<T>::from(x[i]));
    f(v);
    for (index_type i = 0; i < n; ++i) compare("input", v.get(i), x[i], i);
    for (index_type i = 0; i < s.total; ++i) if (!s.has(i, n)) compare("memory beside the input", b.get(i), 93, i);
  }
  else if (kind == 2)
  {
    Matrix<T> m(n, 3, T(94)); index_type c = a.below(3);
    typename Matrix<T>::col_type v = m.col(c);
    for (index_type i = 0; i < n; ++i) v.put(i, Cast<T>::from(x[i]));
    f(v);
    for (index_type i = 0; i < n; ++i) for (index_type k = 0; k < 3; ++k) compare("input", m.get(i, k), k == c ? x[i] : cd(94), i);
  }
  else
  {
    Other<T> o(n); typename Other<T>::view v = o.get();
    for (index_type i = 0; i < n; ++i) v.put(i, Cast<T>::from(x[i]));
    f(v);
    for (index_type i = 0; i < n; ++i) compare("input", v.get(i), x[i], i);
    o.canary();
  }
}
// The same for outputs: y receives what is there afterwards.
template <typename T, typename F>
void with_out(int kind, length_type n, std::vector<cd> &y, Args &a, F f)
{
  y.resize(n);
  if (kind == 0)
  {
    Vector<T> v(n, T(77));
    f(v);
    for (index_type i = 0; i < n; ++i) y[i] = Cast<T>::to(v.get(i));
  }
  else if (kind == 1)
  {
    Sub1 s(n, a); Vector<T> b(s.total, T(93));
    typename Vector<T>::subview_type v = b(s.dom(n));
    f(v);
    for (index_type i = 0; i < n; ++i) y[i] = Cast<T>::to(v.get(i));
    for (index_type i = 0; i < s.total; ++i) if (!s.has(i, n)) compare("memory beside the output", b.get(i), 93, i);
  }
  else
  {
    Other<T> o(n); typename Other<T>::view v = o.get();
    f(v);
    for (index_type i = 0; i < n; ++i) y[i] = Cast<T>::to(v.get(i));
    o.canary();
  }
}
// f(input view, output view)
template <typename TI, typename TO, typename F>
void with(std::vector<cd> const &x, length_type nout, std::vector<cd> &y, Args &a, F f)
{
  int k = a.below(6);
  auto both = [&](int ki, auto ko) {
    with_in<TI>(ki, x, a, [&](auto const &in) { with_out<TO>(decltype(ko)::value, nout, y, a, [&](auto const &out) { f(in, out); }); }); };
  int const ki[] = { 0, 1, 2, 3, 1, 0 };
  if (k == 0 || k == 4) both(ki[k], std::integral_constant<int, 0>());
  else if (k < 3) both(ki[k], std::integral_constant<int, 1>());
  else both(ki[k], std::integral_constant<int, 2>());
}
inline void note(char const *what, unsigned long n, unsigned long m) { sim_note("  %s %lu %lu", what, n, m); }

// ---------------------------------------------------------------- FIR
template <typename T, symmetry_type S, obj_state C>
struct FirObj : Obj
{
  typedef Fir<T, S, C> F;
  std::unique_ptr<F> f;
  std::vector<cd> h, seen;     // the whole kernel; the stream since the last reset
  length_type nin, dec;
  length_type out_done;
  struct Par { length_type k, n, d; unsigned tag; };
  static Par draw(Args &a)
  {
    Par p; p.k = (S == nonsym ? 2 : 1) + a.below(6);
    length_type order = S == nonsym ? p.k : S == sym_even_len_odd ? 2 * p.k - 1 : 2 * p.k;
    while (order < 2) { ++p.k; order += 2; }
    p.d = 1 + (a.below(2) ? a.below(order - 1 < 4 ? order - 1 : 4) : 0);
    p.n = order - 2 + a.extent(9); p.tag = a.raw();
    return p;
  }
  explicit FirObj(Args &a) : out_done(0)
  {
    sim_probe(PR_FIR);
    Par p = draw(a);
    if (p.d > 1) sim_probe(PR_DEC);
    std::vector<cd> c(p.k);
    for (index_type i = 0; i < p.k; ++i) c[i] = value<T>(hashu(p.tag, i));
    h = c;
    for (index_type i = 0; S != nonsym && i < p.k; ++i) { index_type j = p.k - 1 - i; if (S == sym_even_len_odd && i == 0) continue; h.push_back(c[j]); }
    nin = p.n; dec = p.d;
    int armed = sim_faults_armed();
    sim_faults_arm(0);
    with_in<T>(a.below(4), c, a, [&](auto const &k) { sim_faults_arm(armed); try { f.reset(new F(k, nin, dec)); } catch (...) { sim_faults_arm(0); throw; } sim_faults_arm(0); });
    sim_faults_arm(armed);
  }
  FirObj(FirObj const &o) : f(new F(*o.f)), h(o.h), seen(o.seen), nin(o.nin), dec(o.dec), out_done(o.out_done) {}
  Obj *copy() { return new FirObj(*this); }
  bool assign(Obj &b)
  {
    FirObj &o = static_cast<FirObj &>(b);
    *f = *o.f;
    h = o.h; seen = o.seen; nin = o.nin; dec = o.dec; out_done = o.out_done;
    return true;
  }
  void reset() { f->reset(); seen.clear(); out_done = 0; }
  void frame(Args &a)
  {
    if (f->kernel_size() != h.size() || f->filter_order() != h.size() || f->input_size() != nin || f->decimation() != dec || f->output_size() != (nin + dec - 1) / dec)
      sim_fail("wrong-value", "a filter of order %lu, input %lu, decimation %lu says order %lu, input %lu, output %lu, decimation %lu", (unsigned long)h.size(), (unsigned long)nin,
               (unsigned long)dec, (unsigned long)f->filter_order(), (unsigned long)f->input_size(), (unsigned long)f->output_size(), (unsigned long)f->decimation());
    unsigned tag = a.raw();
    std::vector<cd> x(nin), y;
    for (index_type i = 0; i < nin; ++i) x[i] = value<T>(hashu(tag, i));
    if (C == state_no_save) { seen.clear(); out_done = 0; }
    index_type from = seen.size();
    seen.insert(seen.end(), x.begin(), x.end());
    length_type got = 0;
    with<T, T>(x, f->output_size(), y, a, [&](auto const &in, auto const &out) { got = (*f)(in, out); });
    length_type want = 0;
    for (index_type t = out_done * dec; t < seen.size(); t += dec, ++want)
    {
      cd s = 0;
      for (index_type j = 0; j < h.size() && j <= t; ++j) s += h[j] * seen[t - j];
      if (want < got && want < y.size()) compare("output of a FIR filter", Cast<T>::from(y[want]), s, want);
    }
    if (got != want) sim_fail("wrong-value", "a FIR filter produced %lu elements, should be %lu", (unsigned long)got, (unsigned long)want);
    out_done += want; (void)from;
  }
};
// ---------------------------------------------------------------- IIR
template <typename T, obj_state C>
struct IirObj : Obj
{
  typedef Iir<T, C> F;
  std::unique_ptr<F> f;
  std::vector<cd> b, a_, w;
  length_type m, nin;
  explicit IirObj(Args &a)
  {
    sim_probe(PR_IIR);
    m = 1 + a.below(3); nin = a.extent(8); unsigned tag = a.raw();
    b.resize(3 * m); a_.resize(2 * m); w.assign(2 * m, 0);
    int armed = sim_faults_armed();
    sim_faults_arm(0);
    Matrix<T> mb(m, 3), ma(m, 2);
    for (index_type i = 0; i < m; ++i)
    {
      for (index_type j = 0; j < 3; ++j) { b[3 * i + j] = int(hashu(tag, 3 * i + j) % 5) - 2; mb.put(i, j, Cast<T>::from(b[3 * i + j])); }
      for (index_type j = 0; j < 2; ++j) { a_[2 * i + j] = (int(hashu(tag, 50 + 2 * i + j) % 5) - 2) * .5; ma.put(i, j, Cast<T>::from(a_[2 * i + j])); }
    }
    sim_faults_arm(armed);
    try { f.reset(new F(mb, ma, nin)); } catch (...) { sim_faults_arm(0); throw; }
    sim_faults_arm(0);
    mb = T(5); ma = T(5);            // the object has its own coefficients
    sim_faults_arm(armed);
  }
  IirObj(IirObj const &o) : f(new F(*o.f)), b(o.b), a_(o.a_), w(o.w), m(o.m), nin(o.nin) {}
  Obj *copy() { return new IirObj(*this); }
  bool assign(Obj &x)
  {
    IirObj &o = static_cast<IirObj &>(x);
    if (o.m != m) return false;      // required by the library
    *f = *o.f;
    b = o.b; a_ = o.a_; w = o.w; nin = o.nin;
    return true;
  }
  void reset() { f->reset(); w.assign(2 * m, 0); }
  void frame(Args &a)
  {
    if (f->kernel_size() != 2 * m || f->filter_order() != 2 * m || f->input_size() != nin || f->output_size() != nin) sim_fail("wrong-value", "sizes of an IIR filter");
    double big = 0;
    for (auto v : w) big = std::max(big, std::abs(v));
    if (big > 1e4) reset();
    unsigned tag = a.raw();
    std::vector<cd> x(nin), y;
    for (index_type i = 0; i < nin; ++i) x[i] = value<T>(hashu(tag, i));
    with<T, T>(x, nin, y, a, [&](auto const &in, auto const &out) { (*f)(in, out); });
    for (index_type i = 0; i < nin; ++i)
    {
      cd v = x[i];
      for (index_type k = 0; k < m; ++k)
      {
        cd w0 = v - a_[2 * k] * w[2 * k] - a_[2 * k + 1] * w[2 * k + 1];
        v = b[3 * k] * w0 + b[3 * k + 1] * w[2 * k] + b[3 * k + 2] * w[2 * k + 1];
        w[2 * k + 1] = w[2 * k]; w[2 * k] = w0;
      }
      compare("output of an IIR filter", Cast<T>::from(y[i]), v, i, 1e-6 * (1 + std::abs(v)));
    }
    if (C == state_no_save) w.assign(2 * m, 0);
  }
};
// ---------------------------------------------------------------- histograms
template <template <typename, typename> class V, typename T>
struct HistObj : Obj
{
  typedef Histogram<V, T> F;
  std::unique_ptr<F> f;
  std::vector<int> bins; double lo, hi;
  explicit HistObj(Args &a)
  {
    sim_probe(PR_HIST);
    length_type nb = 3 + a.below(8);
    lo = a.below(12) - 6;
    hi = lo + (std::is_same<T, int>::value ? 1 + a.below(20) : (nb - 2) * .25 * (1 + a.below(4)));
    bins.assign(nb, 0);
    bool start = a.below(4) == 3; unsigned tag = a.raw();
    if (!start) { f.reset(new F(T(lo), T(hi), nb)); return; }
    int armed = sim_faults_armed();
    sim_faults_arm(0);
    Vector<int> first(nb);
    for (index_type i = 0; i < nb; ++i) first.put(i, bins[i] = hashu(tag, i) % 9);
    sim_faults_arm(armed);
    try { f.reset(new F(T(lo), T(hi), first)); } catch (...) { sim_faults_arm(0); throw; }
    sim_faults_arm(0);
    first = -1;
    sim_faults_arm(armed);
  }
  HistObj(HistObj const &o) : f(new F(*o.f)), bins(o.bins), lo(o.lo), hi(o.hi) {}
  Obj *copy() { return new HistObj(*this); }
  bool assign(Obj &x) { HistObj &o = static_cast<HistObj &>(x); if (o.bins.size() != bins.size()) return false; *f = *o.f; bins = o.bins; lo = o.lo; hi = o.hi; return true; }
  void reset() {}
  void judge(const_Vector<scalar_i> r, std::vector<cd> const &x, bool acc)
  {
    length_type nb = bins.size();
    if (!acc) bins.assign(nb, 0);
    for (auto c : x)
    {
      double v = c.real();
      ++bins[v < lo ? 0 : v >= hi ? nb - 1 : 1 + index_type(std::floor((v - lo) * (nb - 2) / (hi - lo) + 1e-9))];
    }
    if (r.size() != nb) sim_fail("wrong-value", "a histogram has %lu bins, should be %lu", (unsigned long)r.size(), (unsigned long)nb);
    for (index_type i = 0; i < nb; ++i) if (r.get(i) != bins[i]) sim_fail("wrong-value", "bin %lu of a histogram has %d, should be %d", (unsigned long)i, int(r.get(i)), bins[i]);
  }
  template <typename F_> void on_data(std::vector<cd> const &x, Args &a, F_ f, const_Vector<T> *) { with_in<T>(a.below(4), x, a, f); }
  template <typename F_> void on_data(std::vector<cd> const &x, Args &a, F_ f, const_Matrix<T> *)
  {
    length_type r = 3, c = x.size() / 3;
    if (a.below(2)) { Matrix<T> m(r, c); for (index_type i = 0; i < r * c; ++i) m.put(i / c, i % c, Cast<T>::from(x[i])); f(m); }
    else
    {
      Matrix<T, Dense<2, T, col2_type> > m(2 * r, c + 2, T(91));
      typename Matrix<T, Dense<2, T, col2_type> >::subview_type s = m(Domain<2>(Domain<1>(1, 2, r), Domain<1>(1, 1, c)));
      for (index_type i = 0; i < r * c; ++i) s.put(i / c, i % c, Cast<T>::from(x[i])); 
      f(s);
    }
  }
  void frame(Args &a)
  {
    bool acc = a.below(3) != 0; unsigned tag = a.raw();
    length_type n = 3 * a.extent(8);
    std::vector<cd> x(n);
    // every bin of a float histogram starts at a representable value
    for (index_type i = 0; i < n; ++i)
    {
      unsigned h = hashu(tag, i);
      x[i] = h % 5 == 0 ? lo - 3 + double((h >> 4) % 3) : h % 5 == 1 ? hi + (h >> 4) % 3 : lo + double((h >> 4) % 32) / 32 * (hi - lo);
      if (std::is_same<T, int>::value) x[i] = std::floor(x[i].real());
      else x[i] = lo + std::floor((x[i].real() - lo) * 16) / 16;
    }
    on_data(x, a, [&](auto const &v) { this->judge((*f)(v, acc), x, acc); }, (V<T, Dense<ovxx::dim_of_view<V>::dim, T> > *)0);
  }
};
// ---------------------------------------------------------------- random numbers
typedef unsigned long long u64;
struct RandModel                 // the definition of C-VSIPL
{
  bool portable; u64 a, c, x, x1, x2, c1; u64 k, id;
  static u64 m32(u64 v) { return v & 0xffffffffull; }
  static int prime(int n) { int p = 1; for (; n > 0; ) { p += 2; bool is = true; for (int d = 3; d * d <= p; d += 2) if (p % d == 0) is = false; if (is) --n; } return p; }
  RandModel(u64 seed, u64 kk, u64 i, bool port) : portable(port), a(1664525), c(1013904223), x(m32(seed)), x1(1), x2(1), c1(prime(i)), k(kk), id(i)
  {
    u64 skip = portable ? 4294967295ull / k * (id - 1) : id;
    u64 ca = 1, cc = 0, pa = a, pc = c;         // the affine map, skip times
    for (; skip; skip >>= 1) { if (skip & 1) { cc = m32(m32(pa * cc) + pc); ca = m32(pa * ca); } pc = m32(m32(pa * pc) + pc); pa = m32(pa * pa); }
    x = m32(m32(ca * x) + cc);
  }
  double next()
  {
    if (!portable)
    {
      u64 r;
      r = 0; for (u64 i = 0; i < k; ++i) x = m32(m32(a * x) + c);
      r = x; return r / 4294967296.0;
    }
    x = m32(m32(a * x) + c); x1 = m32(m32(69069 * x1) + c1);
    u64 r = m32(x - x1);
    if (x1 == x2) { x1 = m32(x1 + 1); x2 = m32(x2 + 1); }
    return r / 4294967296.0;
  }
};
template <typename T> struct Draw
{
  static cd u(RandModel &m) { return double(T(m.next())); }
  static cd n(RandModel &m) { double s = 0; for (int i = 0; i < 12; ++i) s += m.next(); return m.portable ? 6 - s : s - 6; }
};
template <typename T> struct Draw<vsip::complex<T> >
{
  static cd u(RandModel &m) { double r = m.next(), i = m.next(); return cd(r, i); }
  static cd n(RandModel &m) { double r = 0, t = 0; for (int i = 0; i < 3; ++i) r += m.next(); for (int i = 0; i < 3; ++i) t += m.next(); return cd(3 - t - r, r - t); }
};
template <typename T>
struct RandObj : Obj
{
  std::unique_ptr<Rand<T> > f; RandModel m;
  explicit RandObj(Args &a) : m(0, 1, 1, true)
  {
    sim_probe(PR_RAND);
    u64 seed = a.below(2) ? hashu(a.raw(), 3) : a.below(100); u64 k = a.below(2) ? 1 + a.below(12) : 1, id = 1 + a.below(k); bool port = a.below(2);
    m = RandModel(seed, k, id, port);
    sim_note("  rand seed %lu, %lu of %lu, %sportable", (unsigned long)seed, (unsigned long)id, (unsigned long)k, port ? "" : "not ");
    if (k == 1 && a.below(2)) f.reset(new Rand<T>(seed, port)); else f.reset(new Rand<T>(seed, k, id, port));
  }
  void one(T v, bool u, index_type i) { compare("random number", v, u ? Draw<T>::u(m) : Draw<T>::n(m), i, 1e-5); }
  void frame(Args &a)
  {
    bool u = a.below(2); int how = a.below(5); length_type n = a.extent(9), c = a.extent(4);
    if (how == 0) for (index_type i = 0; i < n; ++i) one(u ? f->randu() : f->randn(), u, i);
    else if (how == 1)
    {
      Vector<T> v(n); if (u) v = f->randu(n); else v = f->randn(n);
      for (index_type i = 0; i < n; ++i) one(v.get(i), u, i);
    }
    else if (how == 2)
    {
      Matrix<T> v(n, c); if (u) v = f->randu(n, c); else v = f->randn(n, c);
      for (index_type i = 0; i < n * c; ++i) one(v.get(i / c, i % c), u, i);
    }
    else if (how == 3)
    { // within an expression each number is used once
      Vector<T> w(n, T(1)), v(n); if (u) v = f->randu(n) + w; else v = w + f->randn(n);
      for (index_type i = 0; i < n; ++i) one(v.get(i) - T(1), u, i);
    }
    else
    {
      Tensor<T> v(2, n, c); if (u) v = f->randu(2, n, c); else v = f->randn(2, n, c);
      for (index_type i = 0; i < 2 * n * c; ++i) one(v.get(i / (n * c), i / c % n, i % c), u, i);
    }
  }
};
// ---------------------------------------------------------------- convolution and correlation
template <symmetry_type S, support_region_type R, typename T>
struct ConvObj : Obj
{
  typedef Convolution<const_Vector, S, R, T> F;
  std::unique_ptr<F> f; std::vector<cd> h; length_type nin, dec;
  explicit ConvObj(Args &a)
  {
    sim_probe(PR_CONV);
    length_type k = 1 + a.below(5); unsigned tag = a.raw();
    length_type m = S == nonsym ? k : S == sym_even_len_odd ? 2 * k - 1 : 2 * k;
    nin = m - 1 + a.extent(8); dec = 1 + (a.below(2) ? a.below(3) : 0);
    std::vector<cd> c(k);
    for (index_type i = 0; i < k; ++i) c[i] = value<T>(hashu(tag, i));
    h = c;
    for (index_type i = 0; S != nonsym && i < k; ++i) { if (S == sym_even_len_odd && i == 0) continue; h.push_back(c[k - 1 - i]); }
    int armed = sim_faults_armed();
    sim_faults_arm(0);
    with_in<T>(a.below(4), c, a, [&](auto const &v) { sim_faults_arm(armed); try { f.reset(new F(v, Domain<1>(nin), dec)); } catch (...) { sim_faults_arm(0); throw; } sim_faults_arm(0); });
    sim_faults_arm(armed);
  }
  void frame(Args &a)
  {
    length_type m = h.size(), off = R == support_full ? 0 : R == support_same ? m / 2 : m - 1;
    length_type nout = R == support_full ? (nin + m - 2) / dec + 1 : R == support_same ? (nin - 1) / dec + 1 : (nin - m) / dec + 1;   // as many as depend on input only
    if (f->kernel_size().size() != m || f->input_size().size() != nin || f->output_size().size() != nout || f->decimation() != dec || f->symmetry() != S || f->support() != R)
      sim_fail("wrong-value", "a convolution with a kernel of %lu, input of %lu, decimation %lu: kernel %lu, output %lu, should be %lu", (unsigned long)m, (unsigned long)nin,
               (unsigned long)dec, (unsigned long)f->kernel_size().size(), (unsigned long)f->output_size().size(), (unsigned long)nout);
    unsigned tag = a.raw();
    std::vector<cd> x(nin), y;
    for (index_type i = 0; i < nin; ++i) x[i] = value<T>(hashu(tag, i));
    with<T, T>(x, nout, y, a, [&](auto const &in, auto const &out) { (*f)(in, out); });
    for (index_type n = 0; n < nout; ++n)
    {
      cd s = 0;
      for (index_type k = 0; k < m; ++k) { long p = long(n * dec + off) - long(k); if (p >= 0 && p < long(nin)) s += h[k] * x[p]; }
      compare("output of a convolution", Cast<T>::from(y[n]), s, n);
    }
  }
};
template <support_region_type R, typename T>
struct CorrObj : Obj
{
  typedef Correlation<const_Vector, R, T> F;
  std::unique_ptr<F> f; length_type m, n;
  explicit CorrObj(Args &a) { m = 1 + a.below(6); n = m - 1 + a.extent(8); f.reset(new F(Domain<1>(m), Domain<1>(n))); }
  void frame(Args &a)
  {
    length_type nout = R == support_full ? n + m - 1 : R == support_same ? n : n - m + 1, off = R == support_full ? m - 1 : R == support_same ? m / 2 : 0;
    if (f->reference_size().size() != m || f->input_size().size() != n || f->output_size().size() != nout || f->support() != R) sim_fail("wrong-value", "sizes of a correlation");
    unsigned tag = a.raw(); bool un = a.below(2);
    std::vector<cd> x(n), r(m), y;
    for (index_type i = 0; i < n; ++i) x[i] = value<T>(hashu(tag, i));
    for (index_type i = 0; i < m; ++i) r[i] = value<T>(hashu(tag + 1, i));
    Vector<T> ref(m); for (index_type i = 0; i < m; ++i) ref.put(i, Cast<T>::from(r[i]));
    with<T, T>(x, nout, y, a, [&](auto const &in, auto const &out) { (*f)(un ? unbiased : biased, ref, in, out); });
    for (index_type i = 0; i < nout; ++i)
    {
      cd s = 0; int used = 0;
      for (index_type k = 0; k < m; ++k) { long p = long(i + k) - long(off); if (p >= 0 && p < long(n)) { s += r[k] * std::conj(x[p]); ++used; } }
      if (un)
      {
        if (R == support_same && m % 2 == 0 && i >= n - m / 2) used = n - 1 + (m + 1) / 2 - i;     // as C-VSIPL defines it
        if (!used) continue;
        s /= double(used);
      }
      compare("output of a correlation", Cast<T>::from(y[i]), s, i, un ? 1e-4 * (1 + std::abs(s)) : 0);
    }
  }
};
template <symmetry_type S, support_region_type R, typename T>
struct Conv2Obj : Obj
{
  typedef Convolution<const_Matrix, S, R, T> F;
  std::unique_ptr<F> f; std::vector<cd> h; length_type m[2], n[2], dec;
  explicit Conv2Obj(Args &a)
  {
    length_type k[2]; unsigned tag = a.raw();
    dec = 1 + (a.below(3) == 2 ? 1 : 0);
    for (int d = 0; d < 2; ++d) { k[d] = 1 + a.below(3); m[d] = S == nonsym ? k[d] : S == sym_even_len_odd ? 2 * k[d] - 1 : 2 * k[d]; n[d] = m[d] - 1 + a.extent(5, 3); }
    h.resize(m[0] * m[1]);
    auto fold = [&](index_type i, int d) { return i < k[d] ? i : m[d] - 1 - i; };
    for (index_type i = 0; i < m[0]; ++i) for (index_type j = 0; j < m[1]; ++j) h[i * m[1] + j] = value<T>(hashu(tag, fold(i, 0) * 9 + fold(j, 1)));
    int armed = sim_faults_armed();
    sim_faults_arm(0);
    Matrix<T> c(k[0], k[1]);
    for (index_type i = 0; i < k[0]; ++i) for (index_type j = 0; j < k[1]; ++j) c.put(i, j, Cast<T>::from(h[i * m[1] + j]));
    sim_faults_arm(armed);
    try { f.reset(new F(c, Domain<2>(n[0], n[1]), dec)); } catch (...) { sim_faults_arm(0); throw; }
  }
  template <typename MI, typename MO> void go(MI in, MO out, unsigned tag)
  {
    length_type nout[2], off[2];
    for (int d = 0; d < 2; ++d)
    { nout[d] = f->output_size()[d].size(); off[d] = R == support_full ? 0 : R == support_same ? m[d] / 2 : m[d] - 1; }
    std::vector<cd> x(n[0] * n[1]);
    for (index_type i = 0; i < n[0] * n[1]; ++i) { x[i] = value<T>(hashu(tag, i)); in.put(i / n[1], i % n[1], Cast<T>::from(x[i])); }
    (*f)(in, out);
    for (index_type i = 0; i < nout[0]; ++i) for (index_type j = 0; j < nout[1]; ++j)
    {
      cd s = 0;
      for (index_type k = 0; k < m[0]; ++k) for (index_type l = 0; l < m[1]; ++l)
      {
        long p = long(i * dec + off[0]) - long(k), q = long(j * dec + off[1]) - long(l);
        if (p >= 0 && p < long(n[0]) && q >= 0 && q < long(n[1])) s += h[k * m[1] + l] * x[p * n[1] + q];
      }
      compare("output of a 2-D convolution", out.get(i, j), s, i * nout[1] + j);
    }
    for (index_type i = 0; i < n[0] * n[1]; ++i) compare("input", in.get(i / n[1], i % n[1]), x[i], i);
  }
  void frame(Args &a)
  {
    length_type o0 = f->output_size()[0].size(), o1 = f->output_size()[1].size(); unsigned tag = a.raw();
    for (int d = 0; d < 2; ++d)
      if (f->kernel_size()[d].size() != m[d] ||
          f->output_size()[d].size() != (R == support_full ? (n[d] + m[d] - 2) / dec + 1 : R == support_same ? (n[d] - 1) / dec + 1 : (n[d] - m[d]) / dec + 1))
        sim_fail("wrong-value", "sizes of a 2-D convolution");
    int k = a.below(3);
    if (k == 0) go(Matrix<T>(n[0], n[1]), Matrix<T>(o0, o1, T(7)), tag);
    else if (k == 1) go(Matrix<T, Dense<2, T, col2_type> >(n[0], n[1]), Matrix<T>(o0, o1, T(7)), tag);
    else
    {
      Matrix<T> b(2 * n[0] + 1, n[1] + 2, T(5)); Matrix<T, Dense<2, T, col2_type> > c(o0 + 1, 2 * o1, T(5));
      go(b(Domain<2>(Domain<1>(1, 2, n[0]), Domain<1>(2, 1, n[1]))), c(Domain<2>(Domain<1>(1, 1, o0), Domain<1>(0, 2, o1))), tag);
      for (index_type i = 0; i < o0 + 1; ++i) for (index_type j = 0; j < 2 * o1; ++j) if (i == 0 || j % 2) compare("memory beside the output", c.get(i, j), 5, i);
    }
  }
};
template <support_region_type R, typename T>
struct Corr2Obj : Obj
{
  typedef Correlation<const_Matrix, R, T> F;
  std::unique_ptr<F> f; length_type m[2], n[2];
  explicit Corr2Obj(Args &a) { for (int d = 0; d < 2; ++d) { m[d] = a.extent(4, 2); n[d] = m[d] - 1 + a.extent(5, 3); } f.reset(new F(Domain<2>(m[0], m[1]), Domain<2>(n[0], n[1]))); }
  template <typename MR, typename MI, typename MO> void go(MR ref, MI in, MO out, unsigned tag, bool un)
  {
    std::vector<cd> x(n[0] * n[1]), r(m[0] * m[1]); length_type off[2];
    for (int d = 0; d < 2; ++d) off[d] = R == support_full ? m[d] - 1 : R == support_same ? m[d] / 2 : 0;
    for (index_type i = 0; i < x.size(); ++i) { x[i] = value<T>(hashu(tag, i)); in.put(i / n[1], i % n[1], Cast<T>::from(x[i])); }
    for (index_type i = 0; i < r.size(); ++i) { r[i] = value<T>(hashu(tag + 1, i)); ref.put(i / m[1], i % m[1], Cast<T>::from(r[i])); }
    (*f)(un ? unbiased : biased, ref, in, out);
    for (index_type i = 0; i < out.size(0); ++i) for (index_type j = 0; j < out.size(1); ++j)
    {
      cd s = 0; int used[2] = { 0, 0 };
      for (index_type k = 0; k < m[0]; ++k) for (index_type l = 0; l < m[1]; ++l)
      {
        long p = long(i + k) - long(off[0]), q = long(j + l) - long(off[1]);
        if (p >= 0 && p < long(n[0]) && q >= 0 && q < long(n[1])) s += r[k * m[1] + l] * std::conj(x[p * n[1] + q]);
      }
      if (un)
      {
        for (int d = 0; d < 2; ++d)
          for (index_type k = 0; k < m[d]; ++k) { long p = long((d ? j : i) + k) - long(off[d]); used[d] += p >= 0 && p < long(n[d]); }
        if (!used[0] || !used[1]) continue;
        s /= double(used[0] * used[1]);
      }
      compare("output of a 2-D correlation", out.get(i, j), s, i * out.size(1) + j, un ? 1e-4 * (1 + std::abs(s)) : 0);
    }
    for (index_type i = 0; i < x.size(); ++i) compare("input", in.get(i / n[1], i % n[1]), x[i], i);
    for (index_type i = 0; i < r.size(); ++i) compare("reference", ref.get(i / m[1], i % m[1]), r[i], i);
  }
  void frame(Args &a)
  {
    length_type o[2]; unsigned tag = a.raw(); bool un = a.below(2);
    for (int d = 0; d < 2; ++d)
    {
      o[d] = R == support_full ? n[d] + m[d] - 1 : R == support_same ? n[d] : n[d] - m[d] + 1;
      if (f->reference_size()[d].size() != m[d] || f->input_size()[d].size() != n[d] || f->output_size()[d].size() != o[d]) sim_fail("wrong-value", "sizes of a 2-D correlation");
    }
    int k = a.below(3);
    if (k == 0) go(Matrix<T>(m[0], m[1]), Matrix<T>(n[0], n[1]), Matrix<T>(o[0], o[1], T(7)), tag, un);
    else if (k == 1) go(Matrix<T, Dense<2, T, col2_type> >(m[0], m[1]), Matrix<T>(n[0], n[1]), Matrix<T, Dense<2, T, col2_type> >(o[0], o[1], T(7)), tag, un);
    else
    {
      Matrix<T> b(2 * n[0] + 1, n[1] + 2, T(5)); Matrix<T, Dense<2, T, col2_type> > c(o[0] + 1, 2 * o[1], T(5)); Matrix<T> r(m[1], m[0]);
      go(r.transpose(), b(Domain<2>(Domain<1>(1, 2, n[0]), Domain<1>(2, 1, n[1]))), c(Domain<2>(Domain<1>(1, 1, o[0]), Domain<1>(0, 2, o[1]))), tag, un);
      for (index_type i = 0; i < o[0] + 1; ++i) for (index_type j = 0; j < 2 * o[1]; ++j) if (i == 0 || j % 2) compare("memory beside the output", c.get(i, j), 5, i);
    }
  }
};
// ---------------------------------------------------------------- transforms
double const pi = 3.14159265358979323846;
inline std::vector<cd> dft(std::vector<cd> const &x, length_type n, int sign)
{ // x: n values
  std::vector<cd> y(n);
  for (index_type k = 0; k < n; ++k) { cd s = 0; for (index_type j = 0; j < n; ++j) s += x[j] * std::polar(1., sign * 2 * pi * double(j * k % n) / n); y[k] = s; }
  return y;
}
// along one dimension of an r x c array
inline void dft2(std::vector<cd> &x, length_type r, length_type c, int dim, int sign)
{
  for (index_type i = 0; i < (dim ? r : c); ++i)
  {
    std::vector<cd> t; length_type n = dim ? c : r;
    for (index_type j = 0; j < n; ++j) t.push_back(dim ? x[i * c + j] : x[j * c + i]);
    t = dft(t, n, sign);
    for (index_type j = 0; j < n; ++j) (dim ? x[i * c + j] : x[j * c + i]) = t[j];
  }
}
// KIND: 0 c2c forward, 1 c2c inverse, 2 r2c, 3 c2r
template <int KIND, typename R> struct FftTypes
{
  typedef typename std::conditional<KIND == 2, R, vsip::complex<R> >::type I;
  typedef typename std::conditional<KIND == 3, R, vsip::complex<R> >::type O;
  enum { S = KIND == 0 ? fft_fwd : KIND == 1 ? fft_inv : 0 };
};
template <int KIND, typename R, return_mechanism_type M>
struct FftObj : Obj
{
  typedef typename FftTypes<KIND, R>::I I; typedef typename FftTypes<KIND, R>::O O;
  typedef Fft<const_Vector, I, O, FftTypes<KIND, R>::S, M, 1> F;
  std::unique_ptr<F> f; length_type n; double scale;
  explicit FftObj(Args &a)
  {
    sim_probe(PR_FFT);
    n = a.extent(12, 8); if (KIND > 1) n = 2 * a.extent(8, 8);
    scale = a.below(2) ? 1 : .25;
    f.reset(new F(Domain<1>(n), R(scale)));
  }
  void check(std::vector<cd> const &x, std::vector<cd> const &y, double times = 1)
  {
    std::vector<cd> full = x;
    if (KIND == 3) for (index_type k = n / 2 + 1; k < n; ++k) full.push_back(std::conj(x[n - k]));
    std::vector<cd> w = dft(full, n, KIND == 1 || KIND == 3 ? 1 : -1);
    for (index_type k = 0; k < y.size(); ++k) compare("output of a transform", Cast<O>::from(y[k]), scale * times * w[k], k, 1e-3 * n);
  }
  template <typename In, typename Out> void apply(In const &in, Out const &out, int, std::integral_constant<int, by_reference>) { (*f)(in, out); }
  template <typename In, typename Out> void apply(In const &in, Out const &out_, int how, std::integral_constant<int, by_value>)
  {
    Out out(out_);
    if (how == 0) out = (*f)(in);
    else if (how == 1) { out = (*f)(in) + (*f)(in); out *= O(.5); }
    else { Vector<O> t((*f)(in)); out = t; }
  }
  template <typename V> void in_place(V v, std::true_type) { (*f)(v); }
  template <typename V> void in_place(V, std::false_type) {}
  void frame(Args &a)
  {
    length_type ni = KIND == 3 ? n / 2 + 1 : n, no = KIND == 2 ? n / 2 + 1 : n;
    if (f->input_size().size() != ni || f->output_size().size() != no || f->scale() != R(scale) || f->forward() != (KIND % 2 == 0)) sim_fail("wrong-value", "sizes of a transform");
    unsigned tag = a.raw(); int how = a.below(3);
    std::vector<cd> x(ni), y;
    for (index_type i = 0; i < ni; ++i) x[i] = value<I>(hashu(tag, i));
    if (KIND == 3) { x[0] = x[0].real(); x[ni - 1] = x[ni - 1].real(); }
    typedef std::integral_constant<bool, KIND < 2 && M == by_reference> can;
    if (can::value && a.below(3) == 0)
    {
      with_out<O>(a.below(3), n, y, a, [&](auto const &v_) {
        auto v = v_;
        for (index_type i = 0; i < n; ++i) v.put(i, Cast<O>::from(x[i]));
        this->in_place(v, can()); });
    }
    else with<I, O>(x, no, y, a, [&](auto const &in, auto const &out) { this->apply(in, out, how, std::integral_constant<int, M>()); });
    check(x, y);
  }
};
// AX: 0 Fft over columns, 1 over rows (Fftm); 2: 2-D Fft
template <int KIND, int AX, typename R, int SD = 1>
struct Fft2Obj : Obj
{
  typedef typename FftTypes<KIND, R>::I I; typedef typename FftTypes<KIND, R>::O O;
  enum { special = AX == 2 ? SD : AX };     // the dimension whose size differs
  typedef typename std::conditional<AX == 2, Fft<const_Matrix, I, O, (KIND < 2 ? int(FftTypes<KIND, R>::S) : SD), by_reference, 1>,
            Fftm<I, O, AX == 1 ? row : col, (KIND == 0 || KIND == 2 ? fft_fwd : fft_inv), by_reference, 1> >::type F;
  std::unique_ptr<F> f; length_type n[2]; double scale;
  explicit Fft2Obj(Args &a)
  {
    sim_probe(PR_FFT);
    for (int d = 0; d < 2; ++d) { n[d] = a.extent(6); if (KIND > 1 && d == special) n[d] = 2 * (1 + n[d] / 2); }
    scale = a.below(2) ? 1 : .25;
    f.reset(new F(Domain<2>(n[0], n[1]), R(scale)));
  }
  template <typename MI, typename MO> void go(MI in, MO out, unsigned tag)
  {
    // the full input, with the symmetry a real result needs
    std::vector<cd> x(n[0] * n[1]);
    for (index_type i = 0; i < x.size(); ++i) x[i] = value<I>(hashu(tag, i));
    if (KIND == 3)
    {
      std::vector<cd> r(x.size()); for (index_type i = 0; i < x.size(); ++i) r[i] = x[i].real();
      if (AX != 0) dft2(r, n[0], n[1], 1, -1);
      if (AX != 1) dft2(r, n[0], n[1], 0, -1);
      x = r;
    }
    for (index_type i = 0; i < in.size(0); ++i) for (index_type j = 0; j < in.size(1); ++j) in.put(i, j, Cast<I>::from(x[i * n[1] + j]));
    (*f)(in, out);
    int sign = KIND % 2 ? 1 : -1;
    if (KIND != 3) for (index_type i = 0; i < in.size(0); ++i) for (index_type j = 0; j < in.size(1); ++j) compare("input of a 2-D transform", in.get(i, j), x[i * n[1] + j], i);
    if (AX != 0) dft2(x, n[0], n[1], 1, sign);
    if (AX != 1) dft2(x, n[0], n[1], 0, sign);
    for (index_type i = 0; i < out.size(0); ++i) for (index_type j = 0; j < out.size(1); ++j)
      compare("output of a 2-D transform", out.get(i, j), scale * x[i * n[1] + j], i * out.size(1) + j, 2e-3 * n[0] * n[1] * (KIND == 3 ? n[0] * n[1] : 1));
  }
  void frame(Args &a)
  {
    length_type i[2] = { n[0], n[1] }, o[2] = { n[0], n[1] };
    if (KIND == 3) i[special] = n[special] / 2 + 1;
    if (KIND == 2) o[special] = n[special] / 2 + 1;
    for (int d = 0; d < 2; ++d)
      if (f->input_size()[d].size() != i[d] || f->output_size()[d].size() != o[d]) sim_fail("wrong-value", "sizes of a 2-D transform");
    unsigned tag = a.raw();
    switch (a.below(4))
    {
      case 0: go(Matrix<I>(i[0], i[1]), Matrix<O>(o[0], o[1], O(7)), tag); break;
      case 1: go(Matrix<I, Dense<2, I, col2_type> >(i[0], i[1]), Matrix<O, Dense<2, O, col2_type> >(o[0], o[1], O(7)), tag); break;
      case 2: go(Matrix<I, Dense<2, I, col2_type> >(i[0], i[1]), Matrix<O>(o[0], o[1], O(7)), tag); break;
      default:
      {
        Matrix<I> b(2 * i[0] + 1, i[1] + 2, I(5)); Matrix<O, Dense<2, O, col2_type> > c(o[0] + 1, 2 * o[1], O(5));
        go(b(Domain<2>(Domain<1>(1, 2, i[0]), Domain<1>(2, 1, i[1]))), c(Domain<2>(Domain<1>(1, 1, o[0]), Domain<1>(0, 2, o[1]))), tag);
        for (index_type x = 0; x < o[0] + 1; ++x) for (index_type y = 0; y < 2 * o[1]; ++y) if (x == 0 || y % 2) compare("memory beside the output", c.get(x, y), 5, x);
      }
    }
  }
};
// in place and by value, two dimensions
template <int KIND, int AX, typename R>
struct Fft2In : Obj
{
  typedef vsip::complex<R> O;
  template <return_mechanism_type M> struct Type
  { typedef typename std::conditional<AX == 2, Fft<const_Matrix, O, O, int(FftTypes<KIND, R>::S), M, 1>, Fftm<O, O, AX == 1 ? row : col, KIND == 0 ? fft_fwd : fft_inv, M, 1> >::type F; };
  std::unique_ptr<typename Type<by_reference>::F> f; std::unique_ptr<typename Type<by_value>::F> g; length_type n[2]; double scale;
  explicit Fft2In(Args &a)
  {
    sim_probe(PR_FFT);
    for (int d = 0; d < 2; ++d) n[d] = a.extent(7);
    scale = a.below(2) ? 1 : .25;
    f.reset(new typename Type<by_reference>::F(Domain<2>(n[0], n[1]), R(scale))); g.reset(new typename Type<by_value>::F(Domain<2>(n[0], n[1]), R(scale)));
  }
  void fill(std::vector<cd> &x, unsigned tag) { x.resize(n[0] * n[1]); for (index_type i = 0; i < x.size(); ++i) x[i] = value<O>(hashu(tag, i)); }
  template <typename V> void load(V &v, std::vector<cd> const &x) { for (index_type i = 0; i < n[0]; ++i) for (index_type j = 0; j < n[1]; ++j) v.put(i, j, Cast<O>::from(x[i * n[1] + j])); }
  template <typename V> void check(V const &v, std::vector<cd> x, double times)
  {
    int sign = KIND % 2 ? 1 : -1;
    if (AX != 0) dft2(x, n[0], n[1], 1, sign);
    if (AX != 1) dft2(x, n[0], n[1], 0, sign);
    for (index_type i = 0; i < n[0]; ++i) for (index_type j = 0; j < n[1]; ++j) compare("output of a 2-D transform in place or by value", v.get(i, j), times * scale * x[i * n[1] + j], i * n[1] + j, 2e-3 * n[0] * n[1]);
  }
  template <typename V> void in_place(V v, unsigned tag) { std::vector<cd> x; fill(x, tag); load(v, x); (*f)(v); check(v, x, 1); }
  template <typename V, typename W> void by_val(V v, W out, int how, unsigned tag)
  {
    std::vector<cd> x; fill(x, tag); load(v, x);
    if (how) out = (*g)(v); else { out = (*g)(v) + (*g)(v); out *= O(.5); }
    check(out, x, 1);
    for (index_type i = 0; i < n[0]; ++i) for (index_type j = 0; j < n[1]; ++j) compare("input", v.get(i, j), x[i * n[1] + j], i);
  }
  void frame(Args &a)
  {
    unsigned tag = a.raw(); int how = a.below(2);
    typedef Matrix<O> MR; typedef Matrix<O, Dense<2, O, col2_type> > MC;
    MR big(2 * n[0] + 1, n[1] + 3, O(5)); Domain<2> dom(Domain<1>(1, 2, n[0]), Domain<1>(2, 1, n[1]));
    switch (a.below(6))
    {
      case 0: in_place(MR(n[0], n[1]), tag); break; case 1: in_place(MC(n[0], n[1]), tag); break;
      case 2: in_place(big(dom), tag); break;
      case 3: by_val(MR(n[0], n[1]), MC(n[0], n[1]), how, tag); break; case 4: by_val(MC(n[0], n[1]), MR(n[0], n[1]), how, tag); break;
      case 5: by_val(MR(n[0], n[1]), big(dom), how, tag); break;
    }
    for (index_type i = 0; i < big.size(0); ++i) for (index_type j = 0; j < big.size(1); ++j)
      if (i % 2 == 0 || j < 2 || j >= 2 + n[1]) compare("memory beside a transform in place", big.get(i, j), 5, i);
  }
};
// three dimensions; SD is the dimension whose size differs
template <int KIND, typename R, int SD = 2>
struct Fft3Obj : Obj
{
  typedef typename FftTypes<KIND, R>::I I; typedef typename FftTypes<KIND, R>::O O;
  typedef Fft<const_Tensor, I, O, (KIND < 2 ? int(FftTypes<KIND, R>::S) : SD), by_reference, 1> F;
  std::unique_ptr<F> f; length_type n[3]; double scale;
  explicit Fft3Obj(Args &a)
  {
    sim_probe(PR_FFT);
    for (int d = 0; d < 3; ++d) { n[d] = a.extent(4, 2); if (KIND > 1 && d == SD) n[d] = 2 * (1 + n[d] / 2); }
    scale = a.below(2) ? 1 : .25;
    f.reset(new F(Domain<3>(n[0], n[1], n[2]), R(scale)));
  }
  void dft3(std::vector<cd> &x, int sign)
  {
    for (int d = 0; d < 3; ++d)
    {
      length_type st = d == 2 ? 1 : d == 1 ? n[2] : n[1] * n[2];
      for (index_type i = 0; i < x.size(); ++i)
      {
        if (i / st % n[d]) continue;
        std::vector<cd> t; for (index_type k = 0; k < n[d]; ++k) t.push_back(x[i + k * st]);
        t = dft(t, n[d], sign);
        for (index_type k = 0; k < n[d]; ++k) x[i + k * st] = t[k];
      }
    }
  }
  index_type at(index_type i, index_type j, index_type k) const { return (i * n[1] + j) * n[2] + k; }
  template <typename V> void in_place(V in, std::vector<cd> x, std::true_type)
  {
    for (index_type i = 0; i < n[0]; ++i) for (index_type j = 0; j < n[1]; ++j) for (index_type k = 0; k < n[2]; ++k) in.put(i, j, k, Cast<I>::from(x[at(i, j, k)]));
    (*f)(in);
    dft3(x, KIND % 2 ? 1 : -1);
    for (index_type i = 0; i < n[0]; ++i) for (index_type j = 0; j < n[1]; ++j) for (index_type k = 0; k < n[2]; ++k)
      compare("output of a 3-D transform in place", in.get(i, j, k), scale * x[at(i, j, k)], at(i, j, k), 2e-3 * x.size());
  }
  template <typename V> void in_place(V, std::vector<cd>, std::false_type) {}
  template <typename TI, typename TO> void go(TI in, TO out, unsigned tag)
  {
    std::vector<cd> x(n[0] * n[1] * n[2]);
    for (index_type i = 0; i < x.size(); ++i) x[i] = value<I>(hashu(tag, i));
    if (KIND == 3) { for (auto &v : x) v = v.real(); dft3(x, -1); }
    for (index_type i = 0; i < in.size(0); ++i) for (index_type j = 0; j < in.size(1); ++j) for (index_type k = 0; k < in.size(2); ++k) in.put(i, j, k, Cast<I>::from(x[at(i, j, k)]));
    std::vector<cd> x0 = x;
    (*f)(in, out);
    dft3(x, KIND % 2 ? 1 : -1);
    for (index_type i = 0; i < out.size(0); ++i) for (index_type j = 0; j < out.size(1); ++j) for (index_type k = 0; k < out.size(2); ++k)
      compare("output of a 3-D transform", out.get(i, j, k), scale * x[at(i, j, k)], at(i, j, k), 2e-3 * x.size() * (KIND == 3 ? x.size() : 1));
    if (KIND == 3) return;
    for (index_type i = 0; i < in.size(0); ++i) for (index_type j = 0; j < in.size(1); ++j) for (index_type k = 0; k < in.size(2); ++k) compare("input of a 3-D transform", in.get(i, j, k), x0[at(i, j, k)], at(i, j, k));
    in_place(in, x0, std::integral_constant<bool, KIND < 2>());
  }
  void frame(Args &a)
  {
    length_type i[3] = { n[0], n[1], n[2] }, o[3] = { n[0], n[1], n[2] };
    if (KIND == 3) i[SD] = n[SD] / 2 + 1;
    if (KIND == 2) o[SD] = n[SD] / 2 + 1;
    for (int d = 0; d < 3; ++d) if (f->input_size()[d].size() != i[d] || f->output_size()[d].size() != o[d]) sim_fail("wrong-value", "sizes of a 3-D transform");
    unsigned tag = a.raw();
    typedef Dense<3, I, tuple<2, 0, 1> > PI; typedef Dense<3, O, tuple<2, 1, 0> > PO;
    switch (a.below(4))
    {
      case 0: go(Tensor<I>(i[0], i[1], i[2]), Tensor<O>(o[0], o[1], o[2]), tag); break;
      case 1: go(Tensor<I, PI>(i[0], i[1], i[2]), Tensor<O>(o[0], o[1], o[2]), tag); break;
      case 2: go(Tensor<I>(i[0], i[1], i[2]), Tensor<O, PO>(o[0], o[1], o[2]), tag); break;
      case 3:
      {
        Tensor<I> b(i[0] + 1, 2 * i[1], i[2] + 2, I(5)); Tensor<O> c(o[0], o[1] + 2, 2 * o[2] + 1, O(5));
        go(b(Domain<3>(Domain<1>(1, 1, i[0]), Domain<1>(1, 2, i[1]), Domain<1>(1, 1, i[2]))), c(Domain<3>(Domain<1>(o[0]), Domain<1>(1, 1, o[1]), Domain<1>(1, 2, o[2]))), tag);
        for (index_type x = 0; x < o[0]; ++x) for (index_type y = 0; y < o[1] + 2; ++y) for (index_type z = 0; z < 2 * o[2] + 1; ++z)
          if (y == 0 || y > o[1] || z % 2 == 0) compare("memory beside the output", c.get(x, y, z), 5, x);
      }
    }
  }
};
template <typename X> Obj *mk(Args &a) { return new X(a); }
struct Reg { Reg(std::initializer_list<Maker> l) { if (!makers) makers = new std::vector<Maker>; makers->insert(makers->end(), l); } };
}
using namespace sig;
#define PART_NS(n) part##n
#if SIG_PART == 1
void sig_reg1(std::vector<Maker> &m)
{
  m.push_back(mk<FirObj<float, nonsym, state_save> >); m.push_back(mk<FirObj<float, sym_even_len_odd, state_save> >);
  m.push_back(mk<FirObj<float, sym_even_len_even, state_save> >); m.push_back(mk<FirObj<float, nonsym, state_no_save> >);
  m.push_back(mk<FirObj<cf, nonsym, state_save> >); m.push_back(mk<FirObj<cf, sym_even_len_even, state_save> >);
  m.push_back(mk<FirObj<double, sym_even_len_odd, state_no_save> >); m.push_back(mk<FirObj<cf, sym_even_len_odd, state_save> >);
}
#elif SIG_PART == 2
void sig_reg2(std::vector<Maker> &m)
{
  m.push_back(mk<IirObj<double, state_save> >); m.push_back(mk<IirObj<double, state_no_save> >); m.push_back(mk<IirObj<vsip::complex<double>, state_save> >);
  m.push_back(mk<HistObj<const_Vector, float> >); m.push_back(mk<HistObj<const_Vector, int> >);
  m.push_back(mk<HistObj<const_Matrix, float> >); m.push_back(mk<HistObj<const_Matrix, int> >);
  m.push_back(mk<RandObj<float> >); m.push_back(mk<RandObj<double> >); m.push_back(mk<RandObj<cf> >);
}
#elif SIG_PART == 3
void sig_reg3(std::vector<Maker> &m)
{
  m.push_back(mk<ConvObj<nonsym, support_full, float> >); m.push_back(mk<ConvObj<nonsym, support_same, float> >); m.push_back(mk<ConvObj<nonsym, support_min, float> >);
  m.push_back(mk<ConvObj<sym_even_len_odd, support_same, float> >); m.push_back(mk<ConvObj<sym_even_len_even, support_full, float> >);
  m.push_back(mk<ConvObj<nonsym, support_full, cf> >); m.push_back(mk<ConvObj<sym_even_len_even, support_min, cf> >);
  m.push_back(mk<CorrObj<support_full, float> >); m.push_back(mk<CorrObj<support_same, float> >); m.push_back(mk<CorrObj<support_min, cf> >); m.push_back(mk<CorrObj<support_full, cf> >);
  m.push_back(mk<Conv2Obj<nonsym, support_full, float> >); m.push_back(mk<Conv2Obj<nonsym, support_same, float> >); m.push_back(mk<Conv2Obj<nonsym, support_min, float> >);
  m.push_back(mk<Conv2Obj<sym_even_len_odd, support_same, float> >); m.push_back(mk<Conv2Obj<sym_even_len_even, support_full, float> >);
  m.push_back(mk<Conv2Obj<nonsym, support_full, cf> >); m.push_back(mk<Corr2Obj<support_full, float> >); m.push_back(mk<Corr2Obj<support_same, float> >); m.push_back(mk<Corr2Obj<support_min, cf> >); m.push_back(mk<Corr2Obj<support_full, cf> >);
}
#elif SIG_PART == 4
void sig_reg4(std::vector<Maker> &m)
{
  m.push_back(mk<FftObj<0, float, by_reference> >); m.push_back(mk<FftObj<1, float, by_reference> >); m.push_back(mk<FftObj<2, float, by_reference> >); m.push_back(mk<FftObj<3, float, by_reference> >);
  m.push_back(mk<FftObj<0, float, by_value> >); m.push_back(mk<FftObj<2, float, by_value> >); m.push_back(mk<FftObj<3, double, by_value> >); m.push_back(mk<FftObj<1, double, by_reference> >);
}
#elif SIG_PART == 5
void sig_reg5(std::vector<Maker> &m)
{
  m.push_back(mk<Fft2Obj<0, 2, float> >); m.push_back(mk<Fft2Obj<1, 2, float> >); m.push_back(mk<Fft2Obj<2, 2, float, 0> >); m.push_back(mk<Fft2Obj<2, 2, float, 1> >);
  m.push_back(mk<Fft2Obj<3, 2, float, 0> >); m.push_back(mk<Fft2Obj<3, 2, float, 1> >);
  m.push_back(mk<Fft2Obj<0, 0, float> >); m.push_back(mk<Fft2Obj<1, 1, float> >); m.push_back(mk<Fft2Obj<2, 0, float> >); m.push_back(mk<Fft2Obj<2, 1, float> >); m.push_back(mk<Fft2Obj<3, 0, float> >);
  m.push_back(mk<Fft2Obj<3, 1, double> >);
}
#elif SIG_PART == 6
void sig_reg6(std::vector<Maker> &m)
{
  m.push_back(mk<Fft2In<0, 0, float> >); m.push_back(mk<Fft2In<1, 1, float> >); m.push_back(mk<Fft2In<0, 2, float> >); m.push_back(mk<Fft2In<1, 2, double> >);
  m.push_back(mk<Fft3Obj<0, float> >); m.push_back(mk<Fft3Obj<1, float> >); m.push_back(mk<Fft3Obj<2, float, 0> >); m.push_back(mk<Fft3Obj<2, float, 1> >); m.push_back(mk<Fft3Obj<2, float, 2> >);
  m.push_back(mk<Fft3Obj<3, float, 0> >); m.push_back(mk<Fft3Obj<3, float, 1> >); m.push_back(mk<Fft3Obj<3, float, 2> >);
}
#elif SIG_PART == 7
# include <vsip/impl/signal/window.hpp>
// Halves and quadrants exchanged.
template <typename T>
struct Swap1Obj : Obj
{
  explicit Swap1Obj(Args &) {}
  void frame(Args &a)
  {
    length_type n = a.extent(9); unsigned tag = a.raw(); int how = a.below(4);
    std::vector<cd> x(n), y;
    for (index_type i = 0; i < n; ++i) x[i] = value<T>(hashu(tag, i));
    auto at = [&](index_type i) { return x[(i + (n + 1) / 2) % n]; };
    if (how == 3)
    {
      with_out<T>(1, n, y, a, [&](auto const &v) { auto w = v; for (index_type i = 0; i < n; ++i) w.put(i, Cast<T>::from(x[i])); w = freqswap(w); });
      for (index_type i = 0; i < n; ++i) compare("halves exchanged in place", Cast<T>::from(y[i]), at(i), i);
      return;
    }
    with<T, T>(x, n, y, a, [&](auto const &in, auto const &out) { auto w = out; if (how == 0) w = freqswap(in); else if (how == 1) ovxx::signal::freqswap(in, w); else w = freqswap(in + in) - freqswap(in); });
    for (index_type i = 0; i < n; ++i) compare("halves exchanged", Cast<T>::from(y[i]), at(i), i);
  }
};
template <typename T>
struct Swap2Obj : Obj
{
  explicit Swap2Obj(Args &) {}
  length_type r, c; std::vector<cd> x; int how; bool same;
  template <typename V> void load(V v) { for (index_type i = 0; i < r; ++i) for (index_type j = 0; j < c; ++j) v.put(i, j, Cast<T>::from(x[i * c + j])); }
  template <typename V, typename W> void go(V in, W out)
  {
    load(in);
    switch (how)
    {
      case 0: out = freqswap(in); break;
      case 1: ovxx::signal::freqswap(in, out); break;
      case 2: ovxx::signal::freqswap<row>(in, out); break;
      case 3: ovxx::signal::freqswap<col>(in, out); break;
      default: out = freqswap(in + in) - freqswap(in); break;
    }
    for (index_type i = 0; i < r; ++i) for (index_type j = 0; j < c; ++j)
    {
      index_type k = how == 2 ? i : (i + (r + 1) / 2) % r, l = how == 3 ? j : (j + (c + 1) / 2) % c;
      compare("quadrants exchanged", out.get(i, j), x[k * c + l], i * c + j);
      if (!same) compare("input of an exchange of quadrants", in.get(i, j), x[i * c + j], i * c + j);
    }
  }
  template <typename V> void in_place(V v) { same = true; go(v, v); }
  void frame(Args &a)
  {
    r = a.extent(7); c = a.extent(7); unsigned tag = a.raw(); how = a.below(5); same = false;
    x.resize(r * c);
    for (index_type i = 0; i < x.size(); ++i) x[i] = value<T>(hashu(tag, i));
    typedef Matrix<T> MR; typedef Matrix<T, Dense<2, T, col2_type> > MC;
    MR big(2 * r + 1, c + 3, T(5)); Domain<2> dom(Domain<1>(2 * r - 1, -2, r), Domain<1>(2, 1, c));
    MC big2(c + 2, r + 1, T(5));
    typename MC::subview_type part2 = big2(Domain<2>(Domain<1>(1, 1, c), Domain<1>(1, 1, r)));
    switch (a.below(10))
    {
      case 0: go(MR(r, c), MR(r, c, T(7))); break;
      case 1: go(MC(r, c), MR(r, c, T(7))); break;
      case 2: go(MR(r, c), MC(r, c, T(7))); break;
      case 3: go(MR(r, c), big(dom)); break;
      case 4: go(MC(c, r).transpose(), big(dom)); break;
      case 5: go(big(dom), part2.transpose()); load(big(dom)); break;
      case 6: if (how < 4) in_place(MR(r, c)); break;
      case 7: if (how < 4) in_place(MC(r, c)); break;
      case 8: if (how < 4) { same = true; go(big(dom), big(dom)); } break;
      case 9: if (how < 4) { same = true; go(part2.transpose(), part2.transpose()); } break;
    }
    for (index_type i = 0; i < big.size(0); ++i) for (index_type j = 0; j < big.size(1); ++j)
      if (i % 2 == 0 || j < 2 || j >= 2 + c) compare("memory beside exchanged quadrants", big.get(i, j), 5, i);
    for (index_type i = 0; i < big2.size(0); ++i) for (index_type j = 0; j < big2.size(1); ++j)
      if (i == 0 || j == 0 || i > c) compare("memory beside exchanged quadrants", big2.get(i, j), 5, i);
  }
};
struct WindowObj : Obj
{
  explicit WindowObj(Args &) {}
  static double bessel(double x) { double s = 1, t = 1; for (int k = 1; k < 60; ++k) { t *= x / 2 / k; s += t * t; } return s; }
  void frame(Args &a)
  {
    length_type n = 2 + a.below(20); int kind = a.below(4); double par = a.below(8); double const pi = 3.14159265358979323846;
    std::vector<double> w(n);
    if (kind == 3)
    { // the window whose spectrum is T_{n-1}(x0 cos(t / 2))
      double d = std::pow(10., -(20 + 5 * par) / 20), x0 = std::cosh(std::acosh((1 + d) / d) / (n - 1)), top = 0;
      for (index_type i = 0; i < n; ++i)
      {
        w[i] = 0;
        for (index_type k = 0; k < n; ++k)
        {
          double x = x0 * std::cos(pi * k / n), t = std::abs(x) <= 1 ? std::cos((n - 1) * std::acos(x)) : (x < 0 && (n - 1) % 2 ? -1 : 1) * std::cosh((n - 1) * std::acosh(std::abs(x)));
          w[i] += t * std::cos(2 * pi * k * (i - (n - 1) / 2.) / n);
        }
        if (w[i] > top) top = w[i];
      }
      for (index_type i = 0; i < n; ++i) w[i] /= top;
    }
    else for (index_type i = 0; i < n; ++i)
      w[i] = kind == 0 ? .42 - .5 * std::cos(2 * pi * i / (n - 1)) + .08 * std::cos(4 * pi * i / (n - 1)) : kind == 1 ? .5 * (1 - std::cos(2 * pi * (i + 1) / (n + 1)))
             : bessel(par * std::sqrt(std::max(0., 1 - std::pow((2. * i - (n - 1.)) / (n - 1.), 2)))) / bessel(par);
    const_Vector<float> v = kind == 0 ? blackman(n) : kind == 1 ? hanning(n) : kind == 2 ? kaiser(n, par) : cheby(n, 20 + 5 * par);
    if (v.size() != n) sim_fail("wrong-value", "size of a window");
    char const *const what[] = { "Blackman window", "Hanning window", "Kaiser window", "Chebyshev window" };
    for (index_type i = 0; i < n; ++i) compare(what[kind], v.get(i), w[i], i, kind == 3 ? 1e-3 : 1e-4);
  }
};
// A series modulated frame by frame: the phase goes on.
template <typename T>
struct ModulateObj : Obj
{
  double nu, phi0; float phase; length_type at;
  explicit ModulateObj(Args &a) : nu((int(a.below(41)) - 20) / 32.), phi0(a.below(8) / 4.), phase(phi0), at(0) {}
  void frame(Args &a)
  {
    length_type n = a.extent(9); unsigned tag = a.raw();
    std::vector<cd> x(n), y;
    for (index_type i = 0; i < n; ++i) x[i] = value<T>(hashu(tag, i));
    if (at > 200) { at = 0; phase = phi0; }
    with<T, cf>(x, n, y, a, [&](auto const &in, auto const &out) { auto w = out; phase = modulate(in, float(nu), phase, w); });
    for (index_type i = 0; i < n; ++i)
      compare("modulated series", Cast<cf>::from(y[i]), x[i] * std::exp(cd(0, nu * (at + i) + phi0)), i, 1e-2);
    at += n;
    if (!(std::abs(phase - (nu * at + phi0)) < 1e-3)) sim_fail("wrong-value", "phase for the next frame of a modulated series is %g, should be %g", phase, nu * at + phi0);
  }
};
void sig_reg7(std::vector<Maker> &m)
{
  m.push_back(mk<ModulateObj<float> >); m.push_back(mk<ModulateObj<cf> >);
  m.push_back(mk<Swap1Obj<float> >); m.push_back(mk<Swap1Obj<cf> >); m.push_back(mk<Swap2Obj<float> >); m.push_back(mk<Swap2Obj<cf> >); m.push_back(mk<WindowObj>);
}
#else
void sig_reg7(std::vector<Maker> &); void sig_reg6(std::vector<Maker> &); void sig_reg1(std::vector<Maker> &); void sig_reg2(std::vector<Maker> &); void sig_reg3(std::vector<Maker> &); void sig_reg4(std::vector<Maker> &); void sig_reg5(std::vector<Maker> &);
namespace
{
enum { OP_MAKE, OP_FRAME, OP_RESET, OP_COPY, OP_ASSIGN, OP_DROP, NOPS };
int const weights[] = { 5, 12, 2, 4, 4, 1 };

void run(SimProg const *p)
{
  // groups of types, so that each family gets its share
  std::vector<Maker> fam[7], all;
  sig_reg1(fam[0]); sig_reg2(fam[1]); sig_reg3(fam[2]); sig_reg4(fam[3]); sig_reg5(fam[4]); sig_reg6(fam[5]); sig_reg7(fam[6]);
  std::vector<std::unique_ptr<Obj> > s;
  for (int n = 0; n < p->nops; ++n)
  {
    Args a(p->ops[n]);
    int code = p->ops[n].code;
    if (s.empty()) code = OP_MAKE;
    if (code == OP_MAKE)
    {
      if (s.size() >= 5) continue;
      int g = a.below(10); g = g < 3 ? 0 : g < 5 ? 1 : g - 3;
      int k = a.below(fam[g].size());
      bool again = !s.empty() && a.below(2);       // one more of a type that exists
      if (again) { int t = s[a.below(s.size())]->type; g = t / 100; k = t % 100; }
      std::unique_ptr<Obj> o;
      int at = a.n;
      sim_note("%d: object %d of type %d.%d", n, int(s.size()), g, k);
      sim_faults_arm(1);
      try { o.reset(fam[g][k](a)); } catch (std::bad_alloc const &) { sim_probe(PR_NOMEM); }
      sim_faults_arm(0);
      if (!o) { a.n = at; o.reset(fam[g][k](a)); }
      o->type = 100 * g + k;
      s.push_back(std::move(o));
      continue;
    }
    size_t x = a.below(s.size()), y = a.below(s.size());
    switch (code)
    {
      case OP_FRAME: sim_note("%d: frame for %d", n, int(x)); s[x]->frame(a); break;
      case OP_RESET: sim_note("%d: reset %d", n, int(x)); sim_probe(PR_RESET); s[x]->reset(); break;
      case OP_DROP: sim_note("%d: drop %d", n, int(x)); s[x].swap(s.back()); s.pop_back(); break;
      case OP_COPY:
      {
        if (s.size() >= 6) break;
        sim_note("%d: copy of %d", n, int(x));
        std::unique_ptr<Obj> o;
        sim_faults_arm(1);
        try { o.reset(s[x]->copy()); } catch (std::bad_alloc const &) { sim_probe(PR_NOMEM); }
        sim_faults_arm(0);
        if (o) { sim_probe(PR_COPY); o->type = s[x]->type; s.push_back(std::move(o)); }
        break;
      }
      case OP_ASSIGN:
      {
        for (size_t k = 0; k < s.size(); ++k) if (s[(y + k) % s.size()]->type == s[x]->type && (y + k) % s.size() != x) { y = (y + k) % s.size(); break; }
        if (s[x]->type != s[y]->type) break;
        sim_note("%d: %d = %d", n, int(x), int(y));
        if (x != y) sim_probe(PR_ASSIGN);
        s[x]->assign(*s[y]);
        break;
      }
    }
  }
}
}
// FFTW itself ends the program when it gets no memory
#include <dlfcn.h>
namespace
{
template <typename F> F real_fn(char const *n) { return (F)dlsym(RTLD_NEXT, n); }
struct NoFaults { int armed; NoFaults() : armed(sim_faults_armed()) { sim_faults_arm(0); } ~NoFaults() { sim_faults_arm(armed); } };
}
extern "C" {
#define PLAN(P, NAME, IN, OUT) \
P##_plan P##_plan_guru_##NAME(int r, const P##_iodim *d, int h, const P##_iodim *hd, IN *i, OUT *o, SGN unsigned f) \
{ NoFaults n_; return real_fn<P##_plan (*)(int, const P##_iodim *, int, const P##_iodim *, IN *, OUT *, SGN unsigned)>(#P "_plan_guru_" #NAME)(r, d, h, hd, i, o, SGA f); }
#define SGN int s,
#define SGA s,
PLAN(fftwf, dft, fftwf_complex, fftwf_complex) PLAN(fftw, dft, fftw_complex, fftw_complex)
#undef SGN
#undef SGA
#define SGN
#define SGA
PLAN(fftwf, dft_r2c, float, fftwf_complex) PLAN(fftw, dft_r2c, double, fftw_complex) PLAN(fftwf, dft_c2r, fftwf_complex, float) PLAN(fftw, dft_c2r, fftw_complex, double)
struct SimInfo const wl_info = { "sig", 1, 1, 4, 24, NOPS, weights, SIM_F_ALLOC, 0 };
void wl_rank(struct SimProg const *p, int)
{
  long before;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  {
    vsip::vsipl lib;
    run(p);
  }
  fftwf_cleanup(); fftw_cleanup();
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over at the end", sim_live_allocs() - before);
  sim_check_all_heap();
}
}
#endif
