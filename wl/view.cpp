// Views of local data: whole blocks of every storage format, and everything
// that can be derived from them -- parts, rows, columns, diagonals,
// transposes, slices, permutations, real and imaginary parts, and those of
// one another -- assigned, computed with, reduced, held beyond the lifetime of
// what they were derived from, in any order.  The reference model is flat
// memory plus, per view, the list of elements it stands for.
#include <set>
#include "common.hpp"
#include <ovxx/strided.hpp>
#include <ovxx/view/cast.hpp>
#include <vsip/complex.hpp>
#include <new>
#include <cmath>
#include <functional>
using namespace wl;

namespace vw
{
typedef vsip::complex<float> cf;
typedef std::complex<double> cd;
enum { PR_COPY, PR_EXPR, PR_INPLACE, PR_TRANSPOSE, PR_HOLD, PR_NOMEM, PR_REDUCE, PR_PROXY, PR_SELGEN, PR_FUNC, PR_OUTLIVED, PR_FORMS, PR_ORDERS };
enum { OP_RENEW, OP_ASSIGN, OP_SELF, OP_HOLD, OP_HELD, OP_DROP, OP_REDUCE, OP_FUNC, OP_SELECT, OP_FORMS, NOPS };

struct Mem { std::vector<double> v; };
typedef std::shared_ptr<Mem> MemP;
struct Held
{
  virtual ~Held() {}
  virtual void use(Args &, unsigned tag) = 0;
  virtual Mem *mem() = 0;
};
struct WorldBase
{
  std::vector<std::unique_ptr<Held> > held;
  virtual ~WorldBase() {}
  virtual void renew(Args &, unsigned tag) = 0;
  virtual void check(char const *) = 0;
};
typedef void (*OpFn)(WorldBase &, Args &, int code, unsigned tag);
struct Tab { WorldBase *(*make)(Args &, unsigned); OpFn fn[4]; OpFn func; };
extern Tab tab[3];

#if VW_PART == 0
Tab tab[3];
#else

#if VW_T == 0
typedef float T;
#elif VW_T == 1
typedef cf T;
#else
typedef int T;
#endif
typedef ovxx::scalar_of<T>::type S;
enum { W = ovxx::is_complex<T>::value ? 2 : 1 };     // model slots per element

namespace
{
template <typename U> struct Slot
{ enum { n = 1 }; static U get(std::vector<double> const &v, long s) { return U(v[s]); } static void put(std::vector<double> &v, long s, U x) { v[s] = x; } };
template <typename U> struct Slot<vsip::complex<U> >
{
  enum { n = 2 };
  static vsip::complex<U> get(std::vector<double> const &v, long s) { return vsip::complex<U>(v[s], v[s + 1]); }
  static void put(std::vector<double> &v, long s, vsip::complex<U> x) { v[s] = x.real(); v[s + 1] = x.imag(); }
};
template <typename U> struct Small { static U make(unsigned h) { return U(int(h % 19) - 9); } };
template <typename U> struct Small<vsip::complex<U> > { static vsip::complex<U> make(unsigned h) { return vsip::complex<U>(U(int(h % 19) - 9), U(int((h >> 8) % 19) - 9)); } };
inline cd big(T v) { return cd(re(v), im(v)); }

// The elements a view stands for, in row-major order of the view.
struct Idx
{
  int D; length_type n[3]; std::vector<long> s;
  Idx() : D(0) { n[0] = n[1] = n[2] = 1; }
  long at(index_type i, index_type j = 0, index_type k = 0) const { return s[(i * n[1] + j) * n[2] + k]; }
  length_type size() const { return n[0] * n[1] * n[2]; }
  template <typename F> static Idx make(int D, length_type a, length_type b, length_type c, F f)
  {
    Idx r; r.D = D; r.n[0] = a; r.n[1] = b; r.n[2] = c;
    for (index_type i = 0; i < a; ++i) for (index_type j = 0; j < b; ++j) for (index_type k = 0; k < c; ++k) r.s.push_back(f(i, j, k));
    return r;
  }
};
template <typename V> struct Vw { V v; Idx i; MemP m; Vw(V const &a, Idx const &b, MemP const &c) : v(a), i(b), m(c) {} };
template <typename V> Vw<V> mk(V const &v, Idx const &i, MemP const &m) { return Vw<V>(v, i, m); }

template <typename V, int D = V::dim> struct El;
template <typename V> struct El<V, 1> { template <typename X> static auto get(X const &v, index_type i, index_type, index_type) { return v.get(i); } template <typename U> static void put(V &v, index_type i, index_type, index_type, U x) { v.put(i, x); } };
template <typename V> struct El<V, 2> { template <typename X> static auto get(X const &v, index_type i, index_type j, index_type) { return v.get(i, j); } template <typename U> static void put(V &v, index_type i, index_type j, index_type, U x) { v.put(i, j, x); } };
template <typename V> struct El<V, 3> { template <typename X> static auto get(X const &v, index_type i, index_type j, index_type k) { return v.get(i, j, k); } template <typename U> static void put(V &v, index_type i, index_type j, index_type k, U x) { v.put(i, j, k, x); } };

template <typename V> void verify(char const *what, V const &v, Idx const &x, Mem const &m)
{
  typedef typename V::value_type U;
  for (int d = 0; d < x.D; ++d) if (v.size(d) != x.n[d]) sim_fail("wrong-value", "%s: extent %d is %lu, should be %lu", what, d, (unsigned long)v.size(d), (unsigned long)x.n[d]);
  if (v.size() != x.size()) sim_fail("wrong-value", "%s: %lu elements, should be %lu", what, (unsigned long)v.size(), (unsigned long)x.size());
  for (index_type i = 0; i < x.n[0]; ++i) for (index_type j = 0; j < x.n[1]; ++j) for (index_type k = 0; k < x.n[2]; ++k)
  {
    U g = El<V>::get(v, i, j, k), w = Slot<U>::get(m.v, x.at(i, j, k));
    if (!(g == w)) sim_fail("wrong-value", "%s: element (%lu,%lu,%lu) is (%g,%g), should be (%g,%g)", what, (unsigned long)i, (unsigned long)j, (unsigned long)k, re(g), im(g), re(w), im(w));
  }
}
template <typename V> void load(V v, Idx const &x, Mem const &m)
{
  typedef typename V::value_type U;
  for (index_type i = 0; i < x.n[0]; ++i) for (index_type j = 0; j < x.n[1]; ++j) for (index_type k = 0; k < x.n[2]; ++k) El<V>::put(v, i, j, k, Slot<U>::get(m.v, x.at(i, j, k)));
}

// A view of a whole block with its memory.
template <typename V> struct Whole
{
  std::unique_ptr<V> v; Idx i; MemP m;
  typedef typename V::value_type U;
  static V *create(length_type const *e, Vector<U> *) { return 0; }
  template <typename X> static X *create1(length_type const *e, std::integral_constant<int, 1>) { return new X(e[0]); }
  template <typename X> static X *create1(length_type const *e, std::integral_constant<int, 2>) { return new X(e[0], e[1]); }
  template <typename X> static X *create1(length_type const *e, std::integral_constant<int, 3>) { return new X(e[0], e[1], e[2]); }
  void renew(length_type const *e0, unsigned tag, bool faults)
  {
    length_type e[3] = { 1, 1, 1 }; for (int d = 0; d < int(V::dim); ++d) e[d] = e0[d];
    std::unique_ptr<V> n;
    if (faults)
    {
      sim_faults_arm(1);
      try { n.reset(create1<V>(e, std::integral_constant<int, V::dim>())); } catch (std::bad_alloc const &) { sim_probe(PR_NOMEM); }
      sim_faults_arm(0);
      if (!n) return;                                  // the old one stays as it was
    }
    else n.reset(create1<V>(e, std::integral_constant<int, V::dim>()));
    v.swap(n);
    m.reset(new Mem); m->v.resize(e[0] * e[1] * e[2] * Slot<U>::n);
    i = Idx::make(V::dim, e[0], e[1], e[2], [&](index_type a, index_type b, index_type c) { return long((a * e[1] + b) * e[2] + c) * Slot<U>::n; });
    refill(tag);
  }
  void refill(unsigned tag)
  {
    for (size_t k = 0; k < m->v.size(); ++k) m->v[k] = Small<int>::make(hashu(tag, k));
    load(*v, i, *m);
  }
  void check(char const *what) { verify(what, *v, i, *m); }
  Vw<V> get() { return mk(*v, i, m); }
};

template <dimension_type D, typename U, typename O> struct Str
{
  typedef ovxx::Strided<D, U, Layout<D, O, aligned_128, vsip::array> > aligned;
  typedef ovxx::Strided<D, U, Layout<D, O, dense, interleaved_complex> > inter;
  typedef ovxx::Strided<D, U, Layout<D, O, dense, split_complex> > split;
};
template <typename U> struct Comp { typedef vsip::complex<U> type; };                  // what has U as its parts
template <typename U> struct Comp<vsip::complex<U> > { typedef vsip::complex<U> type; };
template <> struct Comp<int> { typedef vsip::complex<float> type; };
typedef Comp<T>::type CT;

struct World : WorldBase
{
  length_type n;
  Whole<Vector<T> > v, v2;
  Whole<Matrix<T> > mr, mr2;
  Whole<Matrix<T, Dense<2, T, col2_type> > > mc;
  Whole<Matrix<T, Str<2, T, row2_type>::aligned> > ma;
  Whole<Tensor<T> > t;
  Whole<Tensor<T, Dense<3, T, tuple<2, 0, 1> > > > tp;
  Whole<Vector<CT> > cv; Whole<Matrix<CT> > cm; Whole<Tensor<CT> > ct;
  Whole<Vector<CT, Str<1, CT, row1_type>::split> > sv; Whole<Matrix<CT, Str<2, CT, col2_type>::split> > sm;
  Whole<Vector<CT, Str<1, CT, row1_type>::inter> > iv;
  Whole<Matrix<T, Dense<2, T, col2_type> > > mc2; Whole<Tensor<T> > t2;
  World(Args &a, unsigned tag)
  {
    n = 1 + a.below(7); int big = a.below(24); if (big == 0) n = 17 + a.below(30); else if (big < 10) n = 8 + a.below(10);
    for (int k = 0; k < 16; ++k) slot(k, a, tag + 977 * k, false);
  }
  void ext(Args &a, length_type *e, int D)
  {
    int o = a.below(7); length_type m = D == 3 && n > 8 ? 5 : n;
    for (int d = 0; d < 3; ++d) e[d] = m;
    if (o == 1) e[a.below(D)] = 1 + a.below(m + 3);
    if (o == 2) e[0] = m + 1;
  }
  void slot(int k, Args &a, unsigned tag, bool f)
  {
    length_type e[3]; ext(a, e, k < 2 || k == 8 || k == 11 || k == 13 ? 1 : k == 6 || k == 7 || k == 10 || k == 15 ? 3 : 2);
    switch (k)
    {
      case 0: v.renew(e, tag, f); break; case 1: v2.renew(e, tag, f); break;
      case 2: mr.renew(e, tag, f); break; case 3: mr2.renew(e, tag, f); break;
      case 4: mc.renew(e, tag, f); break; case 5: ma.renew(e, tag, f); break;
      case 6: t.renew(e, tag, f); break; case 7: tp.renew(e, tag, f); break;
      case 8: cv.renew(e, tag, f); break; case 9: cm.renew(e, tag, f); break; case 10: ct.renew(e, tag, f); break;
      case 11: sv.renew(e, tag, f); break; case 12: sm.renew(e, tag, f); break; case 13: iv.renew(e, tag, f); break;
      case 14: mc2.renew(e, tag, f); break; case 15: t2.renew(e, tag, f); break;
    }
  }
  void renew(Args &a, unsigned tag) { int k = a.below(16); sim_note("renew %d", k); slot(k, a, tag, true); }
  template <typename F> void all(F f)
  { f(v); f(v2); f(mr); f(mr2); f(mc); f(ma); f(t); f(tp); f(cv); f(cm); f(ct); f(sv); f(sm); f(iv); f(mc2); f(t2); }
  void check(char const *what) { Oracle o_; int k = 0; char b[80]; all([&](auto &w) { snprintf(b, sizeof b, "block %d %s", k++, what); w.check(b); }); }
};

// ------------------------------------------------------------ derived views
struct Dom
{
  index_type off; stride_type st; length_type len;
  Dom(length_type n, length_type want, Args &a, bool plain = false)
  {
    len = want >= 1 && want <= n ? want : 1 + a.below(n);
    int o = a.raw(); if (plain) o = o & 0xf0;
    st = 1; if (len > 1 && (o & 1)) { stride_type mx = (n - 1) / (len - 1); st = 1 + (o >> 1) % mx; } else if (len == 1) st = 1 + (o >> 1) % 3;
    index_type span = (len - 1) * st + 1;
    off = (o >> 4) % (n - span + 1);
    if ((o >> 8) % 3 == 2) { off += (len - 1) * st; st = -st; }
  }
  operator Domain<1>() const { return Domain<1>(off, st, len); }
  index_type at(index_type i) const { return off + i * st; }
};
struct Ctx { Args &a; length_type want[3]; bool alt, plain; };
template <typename W> auto pick(W &a, W &b, Ctx const &c) { return (c.alt ? b : a).get(); }     // one of two objects of the same type
template <typename V> auto sub1(Vw<V> x, Ctx &c)
{ Dom d(x.i.n[0], c.want[0], c.a, c.plain); return mk(x.v(Domain<1>(d)), Idx::make(1, d.len, 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(d.at(i)); }), x.m); }
template <typename V> auto sub2(Vw<V> x, Ctx &c)
{
  Dom d(x.i.n[0], c.want[0], c.a, c.plain), e(x.i.n[1], c.want[1], c.a, c.plain);
  return mk(x.v(Domain<2>(d, e)), Idx::make(2, d.len, e.len, 1, [&](index_type i, index_type j, index_type) { return x.i.at(d.at(i), e.at(j)); }), x.m);
}
template <typename V> auto sub3(Vw<V> x, Ctx &c)
{
  Dom d(x.i.n[0], c.want[0], c.a, c.plain), e(x.i.n[1], c.want[1], c.a, c.plain), f(x.i.n[2], c.want[2], c.a, c.plain);
  return mk(x.v(Domain<3>(d, e, f)), Idx::make(3, d.len, e.len, f.len, [&](index_type i, index_type j, index_type k) { return x.i.at(d.at(i), e.at(j), f.at(k)); }), x.m);
}
template <typename V> auto row(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[0]); return mk(x.v.row(r), Idx::make(1, x.i.n[1], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(r, i); }), x.m); }
template <typename V> auto rowx(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[0]); return mk(x.v(r, whole_domain), Idx::make(1, x.i.n[1], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(r, i); }), x.m); }
template <typename V> auto col(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[1]); return mk(x.v.col(r), Idx::make(1, x.i.n[0], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(i, r); }), x.m); }
template <typename V> auto diag(Vw<V> x, Ctx &c)
{
  long R = x.i.n[0], C = x.i.n[1], o = c.a.below(3) == 0 ? 0 : long(c.a.below(R + C - 1)) - (R - 1);
  long len = o >= 0 ? std::min(R, C - o) : std::min(R + o, C);
  return mk(x.v.diag(o), Idx::make(1, len, 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(i + (o < 0 ? -o : 0), i + (o > 0 ? o : 0)); }), x.m);
}
template <typename V> auto trans(Vw<V> x, Ctx &)
{ return mk(x.v.transpose(), Idx::make(2, x.i.n[1], x.i.n[0], 1, [&](index_type i, index_type j, index_type) { return x.i.at(j, i); }), x.m); }
template <typename V> auto re_part(Vw<V> x, Ctx &) { return mk(x.v.real(), x.i, x.m); }
template <typename V> auto im_part(Vw<V> x, Ctx &) { Idx i = x.i; for (auto &s : i.s) ++s; return mk(x.v.imag(), i, x.m); }
template <typename V> auto slice0(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[0]); return mk(x.v(r, whole_domain, whole_domain), Idx::make(2, x.i.n[1], x.i.n[2], 1, [&](index_type i, index_type j, index_type) { return x.i.at(r, i, j); }), x.m); }
template <typename V> auto slice1(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[1]); return mk(x.v(whole_domain, r, whole_domain), Idx::make(2, x.i.n[0], x.i.n[2], 1, [&](index_type i, index_type j, index_type) { return x.i.at(i, r, j); }), x.m); }
template <typename V> auto slice2(Vw<V> x, Ctx &c)
{ index_type r = c.a.below(x.i.n[2]); return mk(x.v(whole_domain, whole_domain, r), Idx::make(2, x.i.n[0], x.i.n[1], 1, [&](index_type i, index_type j, index_type) { return x.i.at(i, j, r); }), x.m); }
template <typename V> auto slice1d(Vw<V> x, Ctx &c)
{
  index_type r = c.a.below(x.i.n[1]); Dom d(x.i.n[0], c.want[0], c.a, c.plain), e(x.i.n[2], c.want[1], c.a, c.plain);
  return mk(x.v(Domain<1>(d), r, Domain<1>(e)), Idx::make(2, d.len, e.len, 1, [&](index_type i, index_type j, index_type) { return x.i.at(d.at(i), r, e.at(j)); }), x.m);
}
template <typename V> auto line0(Vw<V> x, Ctx &c)
{ index_type p = c.a.below(x.i.n[1]), q = c.a.below(x.i.n[2]); return mk(x.v(whole_domain, p, q), Idx::make(1, x.i.n[0], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(i, p, q); }), x.m); }
template <typename V> auto line1(Vw<V> x, Ctx &c)
{ index_type p = c.a.below(x.i.n[0]), q = c.a.below(x.i.n[2]); return mk(x.v(p, whole_domain, q), Idx::make(1, x.i.n[1], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(p, i, q); }), x.m); }
template <typename V> auto line2(Vw<V> x, Ctx &c)
{ index_type p = c.a.below(x.i.n[0]), q = c.a.below(x.i.n[1]); return mk(x.v(p, q, whole_domain), Idx::make(1, x.i.n[2], 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(p, q, i); }), x.m); }
template <typename V> auto line1d(Vw<V> x, Ctx &c)
{
  index_type p = c.a.below(x.i.n[0]), q = c.a.below(x.i.n[2]); Dom d(x.i.n[1], c.want[0], c.a, c.plain);
  return mk(x.v(p, Domain<1>(d), q), Idx::make(1, d.len, 1, 1, [&](index_type i, index_type, index_type) { return x.i.at(p, d.at(i), q); }), x.m);
}
template <int A, int B, int C, typename V> auto perm(Vw<V> x, Ctx &)
{
  int const p[3] = { A, B, C };
  return mk(x.v.template transpose<A, B, C>(), Idx::make(3, x.i.n[A], x.i.n[B], x.i.n[C], [&](index_type i, index_type j, index_type k)
    { index_type y[3]; y[p[0]] = i; y[p[1]] = j; y[p[2]] = k; return x.i.at(y[0], y[1], y[2]); }), x.m);
}

// f is called with the view of kind k.
template <int C> struct Parts;
template <> struct Parts<0>            // T is real and has complex blocks to be part of
{
  enum { K1 = 18, K2 = 15, K3 = 9 };
  template <typename F> static void with1(World &w, int k, Ctx &c, F f)
  {
    switch (k)
    {
      case 14: f(re_part(w.cv.get(), c)); break; case 15: f(im_part(w.cv.get(), c)); break;
      case 16: f(sub1(im_part(w.sv.get(), c), c)); break; default: f(re_part(row(w.cm.get(), c), c));
    }
  }
  template <typename F> static void with2(World &w, int k, Ctx &c, F f)
  { switch (k) { case 12: f(re_part(w.cm.get(), c)); break; case 13: f(sub2(im_part(w.cm.get(), c), c)); break; default: f(im_part(sub2(w.sm.get(), c), c)); } }
  template <typename F> static void with3(World &w, int k, Ctx &c, F f) { if (k == 7) f(re_part(w.ct.get(), c)); else f(sub3(im_part(w.ct.get(), c), c)); }
};
template <> struct Parts<1>            // T is complex
{
  enum { K1 = 18, K2 = 15, K3 = 8 };
  template <typename F> static void with1(World &w, int k, Ctx &c, F f)
  { switch (k) { case 14: f(w.sv.get()); break; case 15: f(sub1(w.sv.get(), c)); break; case 16: f(w.iv.get()); break; default: f(row(w.sm.get(), c)); } }
  template <typename F> static void with2(World &w, int k, Ctx &c, F f) { switch (k) { case 12: f(w.sm.get()); break; case 13: f(sub2(w.sm.get(), c)); break; default: f(trans(w.sm.get(), c)); } }
  template <typename F> static void with3(World &w, int, Ctx &c, F f) { f(perm<0, 2, 1>(pick(w.t, w.t2, c), c)); }
};
template <> struct Parts<2>
{
  enum { K1 = 14, K2 = 12, K3 = 7 };
  template <typename F> static void with1(World &, int, Ctx &, F) {} template <typename F> static void with2(World &, int, Ctx &, F) {} template <typename F> static void with3(World &, int, Ctx &, F) {}
};
typedef Parts<VW_T> PT;

template <typename F> void with1(World &w, int k, Ctx &c, F f)
{
  switch (k)
  {
    case 0: f(pick(w.v, w.v2, c)); break; case 1: f(sub1(pick(w.v, w.v2, c), c)); break; case 2: { Ctx d = { c.a, { 0, 0, 0 } }; f(sub1(sub1(pick(w.v, w.v2, c), d), c)); break; }
    case 3: f(row(pick(w.mr, w.mr2, c), c)); break; case 4: f(col(pick(w.mr, w.mr2, c), c)); break; case 5: f(diag(pick(w.mr, w.mr2, c), c)); break;
    case 6: f(rowx(pick(w.mc, w.mc2, c), c)); break; case 7: f(col(trans(pick(w.mc, w.mc2, c), c), c)); break;
    case 8: { Ctx d = { c.a, { 0, c.want[0], 0 } }; f(row(sub2(pick(w.mr, w.mr2, c), d), c)); break; }
    case 9: f(sub1(diag(w.ma.get(), c), c)); break;
    case 10: f(line0(pick(w.t, w.t2, c), c)); break; case 11: f(line1d(w.tp.get(), c)); break; case 12: f(sub1(line2(pick(w.t, w.t2, c), c), c)); break; case 13: f(w.v2.get()); break;
    default: PT::with1(w, k, c, f);
  }
}
template <typename F> void with2(World &w, int k, Ctx &c, F f)
{
  switch (k)
  {
    case 0: f(pick(w.mr, w.mr2, c)); break; case 1: f(pick(w.mc, w.mc2, c)); break; case 2: f(w.ma.get()); break; case 3: f(sub2(pick(w.mr, w.mr2, c), c)); break; case 4: f(sub2(pick(w.mc, w.mc2, c), c)); break;
    case 5: f(trans(pick(w.mr, w.mr2, c), c)); break; case 6: f(sub2(trans(w.ma.get(), c), c)); break;
    case 7: { Ctx d = { c.a, { c.want[1], c.want[0], 0 } }; f(trans(sub2(pick(w.mc, w.mc2, c), d), c)); break; }
    case 8: f(slice0(pick(w.t, w.t2, c), c)); break; case 9: f(slice1d(pick(w.t, w.t2, c), c)); break; case 10: f(slice2(w.tp.get(), c)); break; case 11: f(slice1(w.tp.get(), c)); break;
    default: PT::with2(w, k, c, f);
  }
}
template <typename F> void with3(World &w, int k, Ctx &c, F f)
{
  switch (k)
  {
    case 0: f(pick(w.t, w.t2, c)); break; case 1: f(w.tp.get()); break; case 2: f(sub3(pick(w.t, w.t2, c), c)); break; case 3: f(sub3(w.tp.get(), c)); break;
    case 4: f(perm<2, 1, 0>(pick(w.t, w.t2, c), c)); break; case 5: f(perm<1, 2, 0>(w.tp.get(), c)); break; case 6: f(sub3(perm<2, 0, 1>(pick(w.t, w.t2, c), c), c)); break;
    default: PT::with3(w, k, c, f);
  }
}
#ifdef VW_D
template <typename F> void with(World &w, int k, Ctx &c, F f)
{
# if VW_D == 1
  with1(w, k, c, f);
# elif VW_D == 2
  with2(w, k, c, f);
# else
  with3(w, k, c, f);
# endif
}
enum { D = VW_D, NK = VW_D == 1 ? int(PT::K1) : VW_D == 2 ? int(PT::K2) : int(PT::K3) };
// kinds that are parts of any wanted size
bool part(int k)
{
# if VW_D == 1
  return k == 1 || k == 2 || k == 8 || k == 9 || k == 11 || k == 12 || (VW_T == 0 && k == 16) || (VW_T == 1 && k == 15);
# elif VW_D == 2
  return k == 3 || k == 4 || k == 6 || k == 7 || k == 9 || (VW_T == 0 && k >= 13) || (VW_T == 1 && k == 13);
# else
  return k == 2 || k == 3 || k == 6 || (VW_T == 0 && k == 8);
# endif
}
void draw(World &w, Args &a, Ctx &c, int &kd, int &ks)
{
  kd = a.below(NK); ks = a.below(NK); int like = a.raw();
  if (like / 16 % 2) { static int const parts[3][4] = { { 1, 1, 2, 8 }, { 3, 4, 3, 6 }, { 2, 3, 2, 6 } }; kd = parts[D - 1][like / 32 % 4]; }
  if (like % 3 == 2) ks = kd; c.plain = like / 3 % 2;
  length_type n = D == 3 && w.n > 8 ? 5 : w.n;
  for (int d = 0; d < 3; ++d) c.want[d] = n;
  if (part(kd) && part(ks) && a.below(4))
    for (int d = 0; d < D; ++d) { int r = a.below(6); c.want[d] = r > 3 || n < 3 ? 1 + a.below(n) : r == 3 ? n : n - 1 - r / 2; }   // often nearly everything
}
bool disjoint(Idx const &a, Idx const &b)        // of the same memory
{ Oracle o_; std::set<long> x(a.s.begin(), a.s.end()); for (long y : b.s) if (x.count(y)) return false; return true; }
bool same_shape(Idx const &a, Idx const &b) { return a.n[0] == b.n[0] && a.n[1] == b.n[1] && a.n[2] == b.n[2]; }
template <typename V, typename F> void model(Vw<V> &d, F f)            // d[i] = f(i), the right sides first
{
  typedef typename V::value_type U;
  std::vector<U> r; for (size_t i = 0; i < d.i.s.size(); ++i) r.push_back(f(i));
  for (size_t i = 0; i < d.i.s.size(); ++i) Slot<U>::put(d.m->v, d.i.s[i], r[i]);
}
// values stay small enough for exact arithmetic
template <typename V> void tame(Vw<V> &d, unsigned tag)
{
  bool ok = true; typedef typename V::value_type U;
  for (long s : d.i.s) { U v = Slot<U>::get(d.m->v, s); if (!(std::abs(re(v)) <= 300 && std::abs(im(v)) <= 300)) ok = false; }
  if (ok) return;
  for (size_t i = 0; i < d.i.s.size(); ++i) Slot<U>::put(d.m->v, d.i.s[i], Small<U>::make(hashu(tag, i)));
  Oracle o_; load(d.v, d.i, *d.m);
}
template <typename V> struct HeldView : Held
{
  Vw<V> x; HeldView(Vw<V> const &y) : x(y) {}
  Mem *mem() { return x.m.get(); }
  void use(Args &a, unsigned tag)
  {
    typedef typename V::value_type U;
    verify("held view", x.v, x.i, *x.m);
    int w = a.below(4); U val = Small<U>::make(hashu(tag, 7));
    index_type i = a.below(x.i.n[0]), j = a.below(x.i.n[1]), k = a.below(x.i.n[2]);
    switch (w)
    {
      case 0: El<V>::put(x.v, i, j, k, val); Slot<U>::put(x.m->v, x.i.at(i, j, k), val); break;
      case 1: x.v = val; model(x, [&](size_t) { return val; }); break;
      case 2: { V h(x.v); h += val; model(x, [&](size_t q) { return U(Slot<U>::get(x.m->v, x.i.s[q]) + val); }); tame(x, tag); break; }
      case 3: { V h(x.v); h = x.v; break; }
    }
    verify("held view after its use", x.v, x.i, *x.m);
  }
};
// references to elements calculate like the elements
template <typename U> void same_value(char const *what, U g, U w) { if (!(g == w)) sim_fail("wrong-value", "%s with a reference to an element is (%g,%g), should be (%g,%g)", what, re(g), im(g), re(w), im(w)); }
template <typename U, typename P, typename Q> void arithmetic(P &&p, Q &&q, U z, U a, U b)
{
  Oracle o_;
  U r;
  r = p + z; same_value<U>("sum", r, a + z); r = z + p; same_value<U>("sum", r, z + a); r = p + q; same_value<U>("sum", r, a + b); r = z; r += p; same_value<U>("sum", r, z + a);
  r = p - z; same_value<U>("difference", r, a - z); r = z - p; same_value<U>("difference", r, z - a); r = p - q; same_value<U>("difference", r, a - b); r = z; r -= p; same_value<U>("difference", r, z - a);
  r = p * z; same_value<U>("product", r, a * z); r = z * p; same_value<U>("product", r, z * a); r = p * q; same_value<U>("product", r, a * b); r = z; r *= p; same_value<U>("product", r, z * a);
  if (z != U()) { r = p / z; same_value<U>("quotient", r, a / z); }
  if (a != U()) { r = z / p; same_value<U>("quotient", r, z / a); r = z; r /= p; same_value<U>("quotient", r, z / a); }
  if (b != U()) { r = p / q; same_value<U>("quotient", r, a / b); }
  if (!(p == a) || (p == b) != (a == b) || (p == q) != (a == b)) sim_fail("wrong-value", "comparison with a reference to an element");
}
template <typename X> auto proxy(X &v, index_type i, index_type j, index_type k, std::integral_constant<int, 1>) -> decltype(v(i)) { return v(i); }
template <typename X> auto proxy(X &v, index_type i, index_type j, index_type k, std::integral_constant<int, 2>) -> decltype(v(i, j)) { return v(i, j); }
template <typename X> auto proxy(X &v, index_type i, index_type j, index_type k, std::integral_constant<int, 3>) -> decltype(v(i, j, k)) { return v(i, j, k); }

template <typename V, bool sq = V::dim == 2> struct InPlace { static void go(Vw<V> &, Ctx &) {} };
template <typename V> struct InPlace<V, true>
{
  static void go(Vw<V> &x, Ctx &c)
  {
    typedef typename V::value_type U;
    if (x.i.n[0] != x.i.n[1]) return;
    sim_probe(PR_TRANSPOSE);
    x.v = x.v.transpose();
    length_type n = x.i.n[0];
    model(x, [&](size_t q) { return Slot<U>::get(x.m->v, x.i.at(q % n, q / n)); });
  }
};
bool near(cd a, cd b) { return std::abs(a - b) <= 1e-4 * (1 + std::abs(b)); }
void want(char const *what, cd got, cd w) { if (!near(got, w)) sim_fail("wrong-value", "%s is (%g,%g), should be (%g,%g)", what, got.real(), got.imag(), w.real(), w.imag()); }
template <typename U> struct Red
{ // ordered types
  template <typename V> static void go(Vw<V> &x, int w)
  {
    std::vector<U> e; for (long s : x.i.s) e.push_back(Slot<U>::get(x.m->v, s));
    Index<V::dim> ix; size_t b = 0; U got;
    switch (w)
    {
      case 0: got = maxval(x.v, ix); for (size_t k = 1; k < e.size(); ++k) if (e[k] > e[b]) b = k; break;
      case 1: got = minval(x.v, ix); for (size_t k = 1; k < e.size(); ++k) if (e[k] < e[b]) b = k; break;
      case 2: got = maxmgval(x.v, ix); for (size_t k = 1; k < e.size(); ++k) if (std::abs(e[k]) > std::abs(e[b])) b = k; break;
      default: got = minmgval(x.v, ix); for (size_t k = 1; k < e.size(); ++k) if (std::abs(e[k]) < std::abs(e[b])) b = k; break;
    }
    index_type y[3] = { 0, 0, 0 }; for (dimension_type d = 0; d < V::dim; ++d) y[d] = ix[d];
    U ref = w < 2 ? e[b] : U(std::abs(e[b]));
    bool in = true; for (dimension_type d = 0; d < V::dim; ++d) in = in && y[d] < x.i.n[d];
    if (!in) sim_fail("wrong-value", "reduction %d: the index is outside the view", w);
    U there = Slot<U>::get(x.m->v, x.i.at(y[0], y[1], y[2])); if (w >= 2) there = std::abs(there);
    if (!(got == ref) || !(there == ref)) sim_fail("wrong-value", "reduction %d: found %g (at an element that is %g), should be %g", w, double(got), double(there), double(ref));
  }
};
template <typename R> struct Red<vsip::complex<R> >
{
  template <typename V> static void go(Vw<V> &x, int w)
  {
    typedef vsip::complex<R> U;
    std::vector<U> e; for (long s : x.i.s) e.push_back(Slot<U>::get(x.m->v, s));
    Index<V::dim> ix; R got, ref; 
    R mx = 0, mn = 1e30; for (auto v : e) { mx = std::max(mx, std::norm(v)); mn = std::min(mn, std::norm(v)); }
    switch (w)
    {
      case 0: got = maxmgsqval(x.v, ix); ref = mx; break; case 1: got = minmgsqval(x.v, ix); ref = mn; break;
      case 2: got = maxmgval(x.v, ix); ref = std::sqrt(mx); break; default: got = minmgval(x.v, ix); ref = std::sqrt(mn); break;
    }
    want("reduction of magnitudes", got, ref);
    index_type y[3] = { 0, 0, 0 }; for (dimension_type d = 0; d < V::dim; ++d) y[d] = ix[d];
    bool in = true; for (dimension_type d = 0; d < V::dim; ++d) in = in && y[d] < x.i.n[d];
    if (!in) sim_fail("wrong-value", "reduction %d: the index is outside the view", w);
    R there = std::norm(Slot<U>::get(x.m->v, x.i.at(y[0], y[1], y[2]))); if (w >= 2) there = std::sqrt(there);
    want("element at the index a reduction found", there, ref);
  }
};
template <typename U> inline U scalar_for(int k) { return U(k); }

// Every form in which a view, const or not, gives parts of itself.
template <typename V> void look(char const *what, V const &v, Idx const &i, Mem const &m)
{
  typedef typename V::value_type U;
  verify(what, v, i, m);
  cd sum = 0; for (long s : i.s) { U e = Slot<U>::get(m.v, s); sum += cd(re(e), im(e)); }
  U got = sumval(v); want(what, cd(re(got), im(got)), sum);
}
#define LOOK(EXPR, A, B, C, AT) look(#EXPR, EXPR, Idx::make((C) ? 3 : (B) ? 2 : 1, A, (B) ? (B) : 1, (C) ? (C) : 1, [&](index_type i, index_type j, index_type k) { (void)i; (void)j; (void)k; return x.at AT; }), m)
template <typename V> void forms(V v, Idx const &x, Mem const &m, Args &a, std::integral_constant<int, 1>)
{
  index_type p = a.below(x.n[0]); Dom d(x.n[0], 0, a); Domain<1> dd = d;
  typename V::value_type e = v(p), w = Slot<typename V::value_type>::get(m.v, x.at(p)); if (!(e == w)) sim_fail("wrong-value", "element reference");
  // the same part by arithmetic on domains
  stride_type st = d.st > 0 ? d.st : 1; index_difference_type off = d.st > 0 ? d.off : d.off + (long(d.len) - 1) * d.st;
  Domain<1> y = a.below(2) ? Domain<1>(d.len) * st + off : off + st * Domain<1>(d.len);
  if (y != Domain<1>(off, st, d.len) || !((y - off) / st == Domain<1>(d.len)) || y.impl_last() != index_type(off + (long(d.len) - 1) * st)) sim_fail("wrong-value", "arithmetic on domains");
  LOOK(v(y), d.len, 0, 0, (off + i * st));
  LOOK(v, x.n[0], 0, 0, (i)); LOOK(v.get(dd), d.len, 0, 0, (d.at(i))); LOOK(v(dd), d.len, 0, 0, (d.at(i)));
}
template <typename V> void forms(V v, Idx const &x, Mem const &m, Args &a, std::integral_constant<int, 2>)
{
  index_type p = a.below(x.n[0]), q = a.below(x.n[1]); Dom d(x.n[0], 0, a), e(x.n[1], 0, a); Domain<2> dd(d, e);
  typename V::value_type g = v(p, q), w = Slot<typename V::value_type>::get(m.v, x.at(p, q)); if (!(g == w)) sim_fail("wrong-value", "element reference");
  LOOK(v, x.n[0], x.n[1], 0, (i, j)); LOOK(v.get(dd), d.len, e.len, 0, (d.at(i), e.at(j))); LOOK(v(dd), d.len, e.len, 0, (d.at(i), e.at(j)));
  { Domain<2> y = Domain<2>(Domain<1>(1), Domain<1>(1)) + index_difference_type(std::min(p, q)); LOOK(v(y), 1, 1, 0, (std::min(p, q), std::min(p, q))); if (y - index_difference_type(std::min(p, q)) != Domain<2>(1, 1)) sim_fail("wrong-value", "arithmetic on domains"); }
  LOOK(v.transpose(), x.n[1], x.n[0], 0, (j, i)); LOOK(v.row(p), x.n[1], 0, 0, (p, i)); LOOK(v.col(q), x.n[0], 0, 0, (i, q));
  LOOK(v(p, whole_domain), x.n[1], 0, 0, (p, i)); LOOK(v(whole_domain, q), x.n[0], 0, 0, (i, q));
  LOOK(v.diag(), std::min(x.n[0], x.n[1]), 0, 0, (i, i)); LOOK(v.diag(q), std::min(x.n[0], x.n[1] - q), 0, 0, (i, i + q)); LOOK(v.diag(-long(p)), std::min(x.n[0] - p, x.n[1]), 0, 0, (i + p, i));
}
template <int A, int B, int C, typename V> void order(V v, Idx const &x, Mem const &m)
{ LOOK((v.template transpose<A, B, C>()), x.n[A], x.n[B], x.n[C], (A == 0 ? i : B == 0 ? j : k, A == 1 ? i : B == 1 ? j : k, A == 2 ? i : B == 2 ? j : k)); }
template <typename V> void forms(V v, Idx const &x, Mem const &m, Args &a, std::integral_constant<int, 3>)
{
  index_type p = a.below(x.n[0]), q = a.below(x.n[1]), r = a.below(x.n[2]); Dom d(x.n[0], 0, a), e(x.n[1], 0, a), f(x.n[2], 0, a); Domain<3> dd(d, e, f); Domain<1> d0 = d, d1 = e, d2 = f;
  typename V::value_type g = v(p, q, r), w = Slot<typename V::value_type>::get(m.v, x.at(p, q, r)); if (!(g == w)) sim_fail("wrong-value", "element reference");
  LOOK(v, x.n[0], x.n[1], x.n[2], (i, j, k)); LOOK(v.get(dd), d.len, e.len, f.len, (d.at(i), e.at(j), f.at(k))); LOOK(v(dd), d.len, e.len, f.len, (d.at(i), e.at(j), f.at(k)));
  LOOK(v(d0, q, r), d.len, 0, 0, (d.at(i), q, r)); LOOK(v(p, d1, r), e.len, 0, 0, (p, e.at(i), r)); LOOK(v(p, q, d2), f.len, 0, 0, (p, q, f.at(i)));
  LOOK(v(p, d1, d2), e.len, f.len, 0, (p, e.at(i), f.at(j))); LOOK(v(d0, q, d2), d.len, f.len, 0, (d.at(i), q, f.at(j))); LOOK(v(d0, d1, r), d.len, e.len, 0, (d.at(i), e.at(j), r));
  LOOK(v(whole_domain, q, r), x.n[0], 0, 0, (i, q, r)); LOOK(v(p, whole_domain, r), x.n[1], 0, 0, (p, i, r)); LOOK(v(p, q, whole_domain), x.n[2], 0, 0, (p, q, i));
  LOOK(v(p, whole_domain, whole_domain), x.n[1], x.n[2], 0, (p, i, j)); LOOK(v(whole_domain, q, whole_domain), x.n[0], x.n[2], 0, (i, q, j)); LOOK(v(whole_domain, whole_domain, r), x.n[0], x.n[1], 0, (i, j, r));
  order<0, 1, 2>(v, x, m); order<0, 2, 1>(v, x, m); order<1, 0, 2>(v, x, m); order<1, 2, 0>(v, x, m); order<2, 0, 1>(v, x, m); order<2, 1, 0>(v, x, m);
}
template <typename V, int D> struct Const;
template <typename V> struct Const<V, 1> { typedef const_Vector<typename V::value_type, typename V::block_type> type; };
template <typename V> struct Const<V, 2> { typedef const_Matrix<typename V::value_type, typename V::block_type> type; };
template <typename V> struct Const<V, 3> { typedef const_Tensor<typename V::value_type, typename V::block_type> type; };
template <typename V> void forms(Vw<V> x, Args &a, bool con)
{
  sim_probe(PR_FORMS);
  std::integral_constant<int, V::dim> d; typename Const<V, V::dim>::type c(x.v);
  if (con) forms(c, x.i, *x.m, a, d); else forms(x.v, x.i, *x.m, a, d);
}
// The same elements stored in another order of the dimensions.
template <typename O, typename V> void stored(Vw<V> &x, int w)
{
  typedef typename V::value_type U;
  sim_probe(PR_ORDERS);
  Tensor<U, Dense<3, U, O> > y(x.i.n[0], x.i.n[1], x.i.n[2]); y = x.v;
  verify("copy in another order", y, x.i, *x.m);
  cd sum = 0; for (long s : x.i.s) { U v = Slot<U>::get(x.m->v, s); sum += cd(re(v), im(v)); }
  U got = sumval(y); want("sum of a tensor", cd(re(got), im(got)), sum);
  Vw<Tensor<U, Dense<3, U, O> > > z(y, x.i, x.m); Red<U>::go(z, w);
}
template <typename V> void orders(Vw<V> &, unsigned, std::integral_constant<int, 1>) {}
template <typename V> void orders(Vw<V> &, unsigned, std::integral_constant<int, 2>) {}
template <typename V> void orders(Vw<V> &x, unsigned h, std::integral_constant<int, 3>)
{
  switch (h % 6)
  {
    case 0: stored<tuple<0, 1, 2> >(x, h / 6 % 4); break; case 1: stored<tuple<0, 2, 1> >(x, h / 6 % 4); break; case 2: stored<tuple<1, 0, 2> >(x, h / 6 % 4); break;
    case 3: stored<tuple<1, 2, 0> >(x, h / 6 % 4); break; case 4: stored<tuple<2, 0, 1> >(x, h / 6 % 4); break; default: stored<tuple<2, 1, 0> >(x, h / 6 % 4);
  }
}

void op(WorldBase &wb, Args &a, int code, unsigned tag)
{
  World &w = static_cast<World &>(wb);
  Ctx c = { a, { 0, 0, 0 } }; int kd, ks;
  draw(w, a, c, kd, ks);
  Ctx cs = c; int alt = a.raw(); c.alt = alt & 1; cs.alt = (alt >> 1) & 1;
  if (code == OP_ASSIGN)
  {
    int how = a.below(9); T k = T(1 + a.below(4));
    with(w, kd, c, [&](auto d) { with(w, ks, cs, [&](auto s) {
      typedef typename decltype(d.v)::value_type U;
      if (!same_shape(d.i, s.i) || (d.m == s.m && !disjoint(d.i, s.i))) return;
      sim_note("assign kind %d = kind %d (%d), %lux%lux%lu", kd, ks, how, (unsigned long)d.i.n[0], (unsigned long)d.i.n[1], (unsigned long)d.i.n[2]);
      auto D = [&](size_t q) { return Slot<U>::get(d.m->v, d.i.s[q]); };
      auto S = [&](size_t q) { return Slot<U>::get(s.m->v, s.i.s[q]); };
      switch (how)
      {
        case 0: case 1: case 7: case 8: sim_probe(PR_COPY); d.v = s.v; model(d, [&](size_t q) { return S(q); }); break;
        case 2: sim_probe(PR_EXPR); d.v = k * s.v - d.v; model(d, [&](size_t q) { return U(k * S(q) - D(q)); }); break;
        case 3: sim_probe(PR_INPLACE); d.v += s.v; model(d, [&](size_t q) { return U(D(q) + S(q)); }); break;
        case 4: sim_probe(PR_EXPR); d.v = s.v * s.v + k; model(d, [&](size_t q) { return U(S(q) * S(q) + k); }); break;
        case 5: { typename decltype(d.v)::value_type z = Small<U>::make(tag); s.v -= z; model(s, [&](size_t q) { return U(S(q) - z); }); d.v = s.v; model(d, [&](size_t q) { return S(q); }); tame(s, tag + 1); break; }
        case 6: sim_probe(PR_SELGEN); vsip::swap(d.v, s.v); { std::vector<U> x; for (size_t q = 0; q < d.i.s.size(); ++q) x.push_back(D(q)); model(d, [&](size_t q) { return S(q); }); model(s, [&](size_t q) { return x[q]; }); } break;
      }
      tame(d, tag);
      verify("source of the assignment", s.v, s.i, *s.m);
    }); });
  }
  else if (code == OP_SELF)
  {
    int how = a.below(8);
    with(w, kd, c, [&](auto x) {
      typedef typename decltype(x.v)::value_type U;
      U z = Small<U>::make(hashu(tag, 3)); index_type i = a.below(x.i.n[0]), j = a.below(x.i.n[1]), k = a.below(x.i.n[2]);
      auto X = [&](size_t q) { return Slot<U>::get(x.m->v, x.i.s[q]); };
      sim_note("self kind %d (%d), %lux%lux%lu", kd, how, (unsigned long)x.i.n[0], (unsigned long)x.i.n[1], (unsigned long)x.i.n[2]);
      switch (how)
      {
        case 0: x.v = z; model(x, [&](size_t) { return z; }); break;
        case 1: x.v *= z; model(x, [&](size_t q) { return U(X(q) * z); }); break;
        case 2: x.v = x.v + x.v; model(x, [&](size_t q) { return U(X(q) + X(q)); }); break;
        case 3: x.v = -x.v; model(x, [&](size_t q) { return U(-X(q)); }); break;
        case 4: case 5: InPlace<decltype(x.v)>::go(x, c); break;
        case 6:
        {
          sim_probe(PR_PROXY); std::integral_constant<int, D> d;
          U was = proxy(x.v, i, j, k, d); want("element reference", cd(re(was), im(was)), cd(re(Slot<U>::get(x.m->v, x.i.at(i, j, k))), im(Slot<U>::get(x.m->v, x.i.at(i, j, k)))));
          arithmetic<U>(proxy(x.v, i, j, k, d), proxy(x.v, x.i.n[0] - 1 - i, j, k, d), z, was, Slot<U>::get(x.m->v, x.i.at(x.i.n[0] - 1 - i, j, k)));
          U now = z;
          proxy(x.v, i, j, k, d) = z;
          switch (tag / 64 % 5)
          {
            case 0: proxy(x.v, i, j, k, d) += U(2); now += U(2); break;
            case 1: proxy(x.v, i, j, k, d) -= U(3); now -= U(3); break;
            case 2: proxy(x.v, i, j, k, d) *= U(2); now *= U(2); break;
            case 3: proxy(x.v, i, j, k, d) /= U(2); now /= U(2); break;
            default: now = Slot<U>::get(x.m->v, x.i.at(x.i.n[0] - 1 - i, j, k)); if (x.i.n[0] - 1 - i == i) now = z; proxy(x.v, i, j, k, d) = proxy(x.v, x.i.n[0] - 1 - i, j, k, d);
          }
          Slot<U>::put(x.m->v, x.i.at(i, j, k), now); break;
        }
        case 7: { decltype(x.v) y(x.v); El<decltype(y)>::put(y, i, j, k, z); Slot<U>::put(x.m->v, x.i.at(i, j, k), z); break; }
      }
      tame(x, tag);
      verify("view", x.v, x.i, *x.m);
    });
  }
  else if (code == OP_HOLD)
  {
    if (w.held.size() >= 4) return;
    with(w, kd, c, [&](auto x) { sim_note("hold kind %d", kd); sim_probe(PR_HOLD); w.held.emplace_back(new HeldView<decltype(x.v)>(x)); });
  }
  else if (code == OP_REDUCE)
  {
    int how = a.below(10);
    with(w, kd, c, [&](auto x) {
      typedef typename decltype(x.v)::value_type U;
      sim_note("reduce kind %d (%d)", kd, how); sim_probe(PR_REDUCE);
      cd sum = 0, sq = 0; double mg = 0; double n = x.i.s.size();
      for (long s : x.i.s) { U v = Slot<U>::get(x.m->v, s); cd b(re(v), im(v)); sum += b; sq += b * b; mg += std::norm(b); }
      U got;
      switch (how)
      {
        case 0: got = sumval(x.v); want("sum", cd(re(got), im(got)), sum); break;
        case 1: if (VW_T == 2) break; got = meanval(x.v); want("mean", cd(re(got), im(got)), sum / n); break;
        case 2: got = sumsqval(x.v); want("sum of squares", cd(re(got), im(got)), sq); break;
        case 3: if (VW_T == 2) break; want("mean square", cd(meansqval(x.v)), mg / n); break;
        case 4: got = sumval(x.v + x.v); want("sum of an expression", cd(re(got), im(got)), sum + sum); break;
        case 5: if (alltrue(x.v == x.v) != true || anytrue(x.v != x.v) != false) sim_fail("wrong-value", "a view is not equal to itself"); break;
        default: Red<U>::go(x, how - 6);
      }
    });
  }
  else if (code == OP_FORMS)
  {
    int how = a.below(8); unsigned h = a.raw(); bool con = how & 1; sim_note("forms %d", how);
# if VW_D == 1
    switch (how / 2) { case 0: forms(w.v.get(), a, con); break; case 1: forms(sub1(w.v.get(), c), a, con); break; case 2: forms(row(w.mc.get(), c), a, con); break; default: forms(diag(w.mr.get(), c), a, con); }
# elif VW_D == 2
    switch (how / 2) { case 0: forms(w.mr.get(), a, con); break; case 1: forms(sub2(w.mc.get(), c), a, con); break; case 2: forms(trans(w.ma.get(), c), a, con); break; default: forms(slice1(w.t.get(), c), a, con); }
# else
    switch (how / 2)
    {
      case 0: forms(w.t.get(), a, con); break; case 1: forms(sub3(w.tp.get(), c), a, con); break; case 2: forms(perm<2, 0, 1>(w.t.get(), c), a, con); break;
      default: { auto x = w.t2.get(); orders(x, h, std::integral_constant<int, 3>()); auto y = sub3(w.tp.get(), c); orders(y, h >> 8, std::integral_constant<int, 3>()); }
    }
# endif
    (void)h;
  }
# if VW_D < 3
  else if (code == OP_SELECT)
  {
    int how = a.below(4); unsigned h = a.raw();
    with(w, kd, c, [&](auto x) {
      typedef typename decltype(x.v)::value_type U;
      sim_note("select kind %d (%d)", kd, how); sim_probe(PR_SELGEN);
      auto X = [&](size_t q) { return Slot<U>::get(x.m->v, x.i.s[q]); };
      length_type n = x.i.s.size(), C = x.i.n[1];
      auto ix = [&](size_t q) { return D == 1 ? Mk<D>::index(&(std::vector<index_type>{ index_type(q), 0 })[0]) : Mk<D>::index(&(std::vector<index_type>{ index_type(q / C), index_type(q % C) })[0]); };
      auto to = [&](Index<D> k) { return D == 1 ? k[0] : k[0] * C + k[D - 1]; };
      if (how == 0)
      {
        length_type m = 1 + h % 6; Vector<Index<D> > idx(m); std::vector<size_t> q;
        for (index_type i = 0; i < m; ++i) { q.push_back(hashu(h, i) % n); idx.put(i, ix(q[i])); }
        Vector<U> g = gather(x.v, idx);
        for (index_type i = 0; i < m; ++i) if (!(g.get(i) == X(q[i]))) sim_fail("wrong-value", "gather: element %lu is (%g,%g), should be (%g,%g)", (unsigned long)i, re(g.get(i)), im(g.get(i)), re(X(q[i])), im(X(q[i])));
      }
      else if (how == 1)
      {
        length_type m = 1 + h % 6; Vector<Index<D> > idx(m); Vector<U> g(m);
        for (index_type i = 0; i < m; ++i) { size_t q = hashu(h, i) % n; idx.put(i, ix(q)); U z = Small<U>::make(hashu(h, i + 99)); g.put(i, z); Slot<U>::put(x.m->v, x.i.s[q], z); }
        scatter(g, idx, x.v);
      }
      else if (how == 2)
      {
        length_type m = 1 + h % (n + 2); Vector<Index<D> > idx(m); U z = X(h % n);
        length_type got = indexbool(x.v == z, idx), cnt = 0;
        for (size_t q = 0; q < n; ++q) if (X(q) == z) { if (cnt < m && to(idx.get(cnt)) != q) sim_fail("wrong-value", "indexbool: position %lu is element %lu, should be %lu", (unsigned long)cnt, (unsigned long)to(idx.get(cnt)), (unsigned long)q); ++cnt; }
        if (got != cnt) sim_fail("wrong-value", "indexbool found %lu elements, there are %lu", (unsigned long)got, (unsigned long)cnt);
      }
#  if VW_T != 1
      else
      {
        U lo = U(int(h % 9) - 6), hi = lo + U(h % 7), mid = lo + U((h >> 4) % 3); if (mid > hi) mid = hi;
        auto e = x.v; std::vector<U> v; for (size_t q = 0; q < n; ++q) v.push_back(X(q));
        if (h & 256) { e = clip(x.v, lo, hi, U(-77), U(78)); model(x, [&](size_t q) { return v[q] <= lo ? U(-77) : v[q] < hi ? v[q] : U(78); }); }
        else { e = invclip(x.v, lo, mid, hi, U(-77), U(78)); model(x, [&](size_t q) { return v[q] < lo ? v[q] : v[q] < mid ? U(-77) : v[q] <= hi ? U(78) : v[q]; }); }
      }
#  endif
      verify("view", x.v, x.i, *x.m);
    });
  }
# endif
}
struct Reg { Reg() { tab[VW_T].fn[VW_D] = op; } } reg;
#endif
} // namespace

#if VW_PART == 2
namespace
{
WorldBase *make_world(Args &a, unsigned tag) { return new World(a, tag); }

// ------------------------------------------------ element-wise functions
// f on views and on elements must agree; the elements are computed in double
// precision with the standard library.
typedef std::vector<cd> Vals;
struct In { Whole<Vector<T> > *w; };
template <typename R, typename E, typename F> void cmp(char const *name, E const &got, length_type n, F f)
{
  Vector<R> d(n); d = got;
  for (index_type i = 0; i < n; ++i)
  {
    cd w = f(i), g(re(d.get(i)), im(d.get(i)));
    bool wn = std::isnan(w.real()) || std::isnan(w.imag()) || std::isinf(w.real()) || std::isinf(w.imag());
    if (wn) continue;
    if (!(std::abs(g - w) <= 2e-4 * (1 + std::abs(w)))) sim_fail("wrong-value", "%s: element %lu is (%g,%g), should be (%g,%g)", name, (unsigned long)i, g.real(), g.imag(), w.real(), w.imag());
  }
}
#define U1(NAME, R, MODEL) case __LINE__ - FIRST: cmp<R>(#NAME, NAME(X), n, [&](index_type i) -> cd { auto x = MX(i); (void)x; return MODEL; }); break;
#define B2(NAME, R, MODEL) case __LINE__ - FIRST: cmp<R>(#NAME, NAME(X, Y), n, [&](index_type i) -> cd { auto x = MX(i); auto y = MY(i); (void)x; (void)y; return MODEL; }); break;
#define E2(TEXT, R, MODEL) case __LINE__ - FIRST: cmp<R>(#TEXT, TEXT, n, [&](index_type i) -> cd { auto x = MX(i); auto y = MY(i); (void)x; (void)y; return MODEL; }); break;
#define T3(NAME, R, MODEL) case __LINE__ - FIRST: cmp<R>(#NAME, NAME(X, Y, Z), n, [&](index_type i) -> cd { auto x = MX(i); auto y = MY(i); auto z = MZ(i); (void)x; (void)y; (void)z; return MODEL; }); break;

S user1(T x) { return S(re(x)) + S(1); }
T user2(T x, T y) { return x * T(2) - y; }
T user3(T x, T y, T z) { return x + y * z; }
struct User1 { S operator()(T x) const { return user1(x); } };
struct User2 { T operator()(T x, T y) const { return user2(x, y); } };
struct User3 { T operator()(T x, T y, T z) const { return user3(x, y, z); } };
enum { NF1 = 49 };
#if VW_T == 1
template <typename V> void rtp(V X, length_type n, std::vector<T> const &mx)
{
  Vector<S> r(n), t(n); recttopolar(X, r, t);
  for (index_type i = 0; i < n; ++i)
  {
    S p, q; recttopolar(mx[i], p, q);
    if (!(std::abs(r.get(i) - std::abs(mx[i])) < 1e-4 && std::abs(t.get(i) - std::arg(mx[i])) < 1e-4 && std::abs(p - r.get(i)) < 1e-4 && std::abs(q - t.get(i)) < 1e-4)) sim_fail("wrong-value", "recttopolar: element %lu", (unsigned long)i);
  }
}
#else
template <typename V> void rtp(V, length_type, std::vector<T> const &) {}
#endif

#if VW_T == 0
enum { NF2 = 45 };
template <typename VX, typename VY, typename VZ, typename FX, typename FY, typename FZ, typename KT>
void func2(VX X, VY Y, VZ Z, length_type n, FX MX, FY MY, FZ MZ, int which, T k, KT K)
{
  auto P = 0.1f * X; auto Q = 0.25f * Y;                     // smaller arguments
  enum { FIRST = __LINE__ + 3 };
  switch (which)
  {
    U1(neg, T, -x)
    E2(acos(P), T, std::acos(0.1f * x))
    E2(asin(P), T, std::asin(0.1f * x))
    U1(atan, T, std::atan(x))
    U1(ceil, T, std::ceil(x))
    U1(cos, T, std::cos(x))
    E2(cosh(P), T, std::cosh(0.1f * x))
    U1(exp, T, std::exp(x))
    E2(exp10(P), T, std::pow(10., 0.1f * x))
    E2(floor(Q), T, std::floor(0.25f * y))
    E2(ceil(Q), T, std::ceil(0.25f * y))
    E2(log(mag(X)), T, std::log(std::abs(x)))
    E2(log10(mag(X)), T, std::log10(std::abs(x)))
    E2(recip(X), T, 1. / x)
    E2(rsqrt(magsq(X)), T, 1. / std::abs(x))
    U1(sin, T, std::sin(x))
    E2(sinh(P), T, std::sinh(0.1f * x))
    E2(sqrt(magsq(Y)), T, std::abs(y))
    E2(tan(P), T, std::tan(0.1f * x))
    U1(tanh, T, std::tanh(x))
    U1(euler, CT, std::polar(1., double(x)))
    B2(atan2, T, std::atan2(x, y))
    E2(X / Y, T, x / y)
    B2(div, T, x / y)
    B2(fmod, T, std::fmod(x, y))
    B2(ge, bool, x >= y)
    B2(gt, bool, x > y)
    B2(le, bool, x <= y)
    B2(lt, bool, x < y)
    B2(hypot, T, std::hypot(x, y))
    B2(max, T, std::max(x, y))
    B2(min, T, std::min(x, y))
    B2(maxmg, T, std::max(std::abs(x), std::abs(y)))
    B2(minmg, T, std::min(std::abs(x), std::abs(y)))
    B2(maxmgsq, T, std::max(x * x, y * y))
    B2(minmgsq, T, std::min(x * x, y * y))
    E2(pow(mag(X), T(2)), T, x * x)
    E2((X > Y) && (X > k), bool, x > y && x > K)
    E2((X > Y) || (Y <= k), bool, x > y || y <= K)
    E2(!(X > Y), bool, !(x > y))
    E2((X > Y) ^ (X > k), bool, (x > y) != (x > K))
    T3(expoavg, T, x * y + (1 - x) * z)
    E2((expoavg(0.25f, X, Y)), T, 0.25 * x + 0.75 * y)
    E2(cmplx(X, Y), CT, cd(x, y))
    E2(ovxx::view_cast<int>(Q), int, int(0.25f * y))
  }
}
#elif VW_T == 1
enum { NF2 = 16 };
template <typename VX, typename VY, typename VZ, typename FX, typename FY, typename FZ, typename KT>
void func2(VX X, VY Y, VZ Z, length_type n, FX MX, FY MY, FZ MZ, int which, T k, KT K)
{
  enum { FIRST = __LINE__ + 3 };
  switch (which)
  {
    U1(conj, T, std::conj(x))
    U1(arg, S, std::arg(x))
    U1(real, S, x.real())
    U1(imag, S, x.imag())
    U1(exp, T, std::exp(x))
    U1(recip, T, 1. / x)
    B2(jmul, T, x * std::conj(y))
    E2(X / Y, T, x / y)
    B2(maxmgsq, S, std::max(std::norm(x), std::norm(y)))
    B2(minmgsq, S, std::min(std::norm(x), std::norm(y)))
    E2(X * real(Y), T, x * y.real())
    E2(2.f * X, T, 2. * x)
    E2(X + imag(Y), T, x + y.imag())
    E2(X * conj(Y), T, x * std::conj(y))
    E2(conj(X) * Y, T, std::conj(x) * y)
    E2(polartorect(mag(X), arg(Y)), T, std::polar(std::abs(x), std::arg(y)))
  }
}
#else
enum { NF2 = 20 };
template <typename VX, typename VY, typename VZ, typename FX, typename FY, typename FZ, typename KT>
void func2(VX X, VY Y, VZ Z, length_type n, FX MX, FY MY, FZ MZ, int which, T k, KT K)
{
  enum { FIRST = __LINE__ + 3 };
  switch (which)
  {
    B2(band, T, int(x) & int(y))
    B2(bor, T, int(x) | int(y))
    B2(bxor, T, int(x) ^ int(y))
    U1(bnot, T, ~int(x))
    E2(X & Y, T, int(x) & int(y))
    E2(X | k, T, int(x) | int(K))
    E2(X ^ Y, T, int(x) ^ int(y))
    E2(~Y, T, ~int(y))
    E2(X / (2 * Y + 1), T, int(x) / (2 * int(y) + 1))
    B2(ge, bool, x >= y)
    B2(gt, bool, x > y)
    B2(le, bool, x <= y)
    B2(lt, bool, x < y)
    B2(max, T, std::max(x, y))
    B2(min, T, std::min(x, y))
    B2(land, bool, x && y)
    B2(lor, bool, x || y)
    B2(lxor, bool, !x != !y)
    U1(lnot, bool, !x)
    E2(ovxx::view_cast<float>(X) / 4.f, float, x / 4)
  }
}
#endif
template <typename VX, typename VY, typename VZ>
void func(VX X, VY Y, VZ Z, length_type n, std::vector<T> const &mx, std::vector<T> const &my, std::vector<T> const &mz, int which, T k)
{
#if VW_T == 1
  auto MX = [&](index_type i) { return cd(re(mx[i]), im(mx[i])); }; auto MY = [&](index_type i) { return cd(re(my[i]), im(my[i])); }; auto MZ = [&](index_type i) { return cd(re(mz[i]), im(mz[i])); };
  cd K(re(k), im(k));
#else
  auto MX = [&](index_type i) { return double(mx[i]); }; auto MY = [&](index_type i) { return double(my[i]); }; auto MZ = [&](index_type i) { return double(mz[i]); };
  double K = k;
#endif
  (void)K; (void)MZ;
  sim_note("function %d", which);
  sim_probe(PR_FUNC);
  enum { FIRST = __LINE__ + 3 };
  switch (which)
  {
    U1(neg, T, -x)
    U1(sq, T, x * x)
    U1(mag, S, std::abs(x))
    U1(magsq, S, std::norm(x))
    B2(add, T, x + y)
    B2(sub, T, x - y)
    B2(mul, T, x * y)
    B2(eq, bool, x == y)
    B2(ne, bool, x != y)
    E2(X + k, T, x + K)
    E2(k - Y, T, K - y)
    E2(X * Y + Y, T, x * y + y)
    E2(X * (Y - X), T, x * (y - x))
    T3(am, T, (x + y) * z)
    T3(ma, T, x * y + z)
    T3(msb, T, x * y - z)
    T3(sbm, T, (x - y) * z)
    E2((am(X, Y, k)), T, (x + y) * K)
    E2((ma(X, k, Y)), T, x * K + y)
    E2((msb(k, X, Y)), T, K * x - y)
    E2((sbm(X, k, Y)), T, (x - K) * y)
    E2((ite(X == Y, X, k)), T, x == y ? x : K)
    E2((ite(X != Y, k, Y)), T, x != y ? K : y)
    E2((am(X, k, Y)), T, (x + K) * y)
    E2((am(k, X, Y)), T, (K + x) * y)
    E2((am(k, X, T(2))), T, (K + x) * 2.)
    E2((am(X, k, T(3))), T, (x + K) * 3.)
    E2((am(k, T(3), Y)), T, (K + 3.) * y)
    E2((ma(X, Y, k)), T, x * y + K)
    E2((ma(k, X, Y)), T, K * x + y)
    E2((ma(X, k, T(2))), T, x * K + 2.)
    E2((ma(k, X, T(2))), T, K * x + 2.)
    E2((ma(k, T(2), X)), T, K * 2. + x)
    E2((msb(X, k, Y)), T, x * K - y)
    E2((msb(X, Y, k)), T, x * y - K)
    E2((sbm(k, X, Y)), T, (K - x) * y)
    E2((sbm(X, Y, k)), T, (x - y) * K)
    E2((ite(X == Y, k, T(2))), T, x == y ? K : decltype(K)(2))
    E2((ite(X == Y, X, Y)), T, x == y ? x : y)
    case 39: cmp<S>("unary(f)", unary(user1, X), n, [&](index_type i) -> cd { return re(mx[i]) + 1; }); break;
    case 40: cmp<T>("binary(f)", binary(user2, X, Y), n, [&](index_type i) -> cd { return MX(i) * 2. - MY(i); }); break;
    case 41: cmp<T>("ternary(f)", ternary(user3, X, Y, Z), n, [&](index_type i) -> cd { return MX(i) + MY(i) * MZ(i); }); break;
    case 42: cmp<T>("ramp", ramp(k, T(2), n), n, [&](index_type i) -> cd { return cd(re(k), im(k)) + 2. * double(i); }); break;
    case 43: cmp<T>("ramp in an expression", X + ramp(T(1), k, n), n, [&](index_type i) -> cd { return MX(i) + 1. + K * double(i); }); break;
    case 44: cmp<S>("unary(f object)", unary<S>(User1(), X), n, [&](index_type i) -> cd { return re(mx[i]) + 1; }); break;
    case 45: cmp<T>("binary(f object)", binary<T>(User2(), X, Y), n, [&](index_type i) -> cd { return MX(i) * 2. - MY(i); }); break;
    case 46: cmp<T>("ternary(f object)", ternary<T>(User3(), X, Y, Z), n, [&](index_type i) -> cd { return MX(i) + MY(i) * MZ(i); }); break;
    case 47:
    {
      T q = my[n / 2]; auto p = [&](T x, T y) { return x == y || y == q; };
      for (index_type b = 0; b <= n + 1; ++b)
      {
        index_type want = b; while (want < n && !p(mx[want], my[want])) ++want;
        index_type got = first(b, p, X, Y);
        if (got != want) sim_fail("wrong-value", "first from %lu: found %lu, should be %lu", (unsigned long)b, (unsigned long)got, (unsigned long)want);
      }
      break;
    }
    case 48: rtp(X, n, mx); break;
    default: func2(X, Y, Z, n, MX, MY, MZ, which - NF1, k, K);
  }
}
void op_func(WorldBase &wb, Args &a, int, unsigned tag)
{
  World &w = static_cast<World &>(wb);
  int which = a.below(NF1 + NF2), kx = a.below(3), ky = a.below(3); T k = Small<T>::make(hashu(tag, 1));
  length_type n = kx && ky && a.below(2) ? 1 + a.below(w.n) : w.n;
  Ctx c = { a, { n, n, n } };
  auto in = [&](Whole<Vector<T> > &v, int k, auto f) { switch (k) { case 0: f(v.get()); break; case 1: f(sub1(v.get(), c)); break; default: f(col(w.mr.get(), c)); } };
  in(w.v, kx, [&](auto x) { in(w.v2, ky, [&](auto y) {
    if (x.i.n[0] != y.i.n[0]) return;
    n = x.i.n[0];
    Vector<T> z(n); std::vector<T> mx, my, mz;
    for (index_type i = 0; i < n; ++i)
    {
      mx.push_back(Slot<T>::get(x.m->v, x.i.s[i])); my.push_back(Slot<T>::get(y.m->v, y.i.s[i])); mz.push_back(Small<T>::make(hashu(tag, i + 50))); z.put(i, mz[i]);
    }
    func(x.v, y.v, z, n, mx, my, mz, which, k);
  }); });
}
struct Reg2 { Reg2() { tab[VW_T].make = make_world; tab[VW_T].func = op_func; } } reg2;
} // namespace
#endif
#endif
} // namespace vw

#if VW_PART == 0
namespace
{
using namespace vw;
int const weights[NOPS] = { 2, 8, 4, 2, 4, 1, 3, 3, 3, 3 };
void run(SimProg const *p)
{
  std::unique_ptr<WorldBase> w;
  int t = 0;
  for (int n = 0; n < p->nops; ++n)
  {
    Args a(p->ops[n]); int code = p->ops[n].code; unsigned tag = 31 * n + 5;
    if (!w) { t = a.below(3); w.reset(tab[t].make(a, tag)); w->check("at the start"); continue; }
    switch (code)
    {
      case OP_RENEW: w->renew(a, tag); break;
      case OP_HELD: if (!w->held.empty()) { size_t k = a.below(w->held.size()); sim_note("use held %d", int(k)); w->held[k]->use(a, tag); } break;
      case OP_DROP: if (!w->held.empty()) { size_t k = a.below(w->held.size()); sim_note("drop held %d", int(k)); w->held[k].swap(w->held.back()); w->held.pop_back(); } break;
      case OP_FUNC: tab[t].func(*w, a, code, tag); break;
      default: tab[t].fn[1 + a.below(3)](*w, a, code, tag);
    }
    w->check("after the operation");
  }
  // the views outlive what they were derived from
  if (w)
  {
    std::vector<std::unique_ptr<Held> > h; h.swap(w->held); w.reset();
    static SimOp none; 
    for (auto &x : h) { sim_probe(PR_OUTLIVED); Args a(none); x->use(a, 3); }
  }
}
}
extern "C" {
struct SimInfo const wl_info = { "view", 1, 1, 4, 24, NOPS, weights, SIM_F_ALLOC, 0 };
void wl_rank(struct SimProg const *p, int)
{
  long before;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  {
    vsip::vsipl lib;
    run(p);
  }
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over at the end", sim_live_allocs() - before);
  sim_check_all_heap();
}
}
#endif
