// Single distributed objects: element access (WL_MODE 4), reductions (5),
// index queries (7).  One translation unit per group of map kinds
// (WL_PART 1..), WL_PART 0 is the interpreter.
#include "objects.hpp"
#include <ovxx/parallel/util.hpp>
#include <ovxx/output.hpp>
#include <sstream>
using namespace wl;
typedef void (*ElemFn)(Base &, Base *, Args &);
struct ElemTab { MakeFn make[NT][4][MAXK]; ElemFn fn[NT][4][MAXK]; };
ElemTab &etab();

#if WL_PART == 0
ElemTab &etab() { static ElemTab t; return t; }
enum { OP_CREATE, OP_USE, OP_USE2, NOPS };
static int const weight[] = { 2, 4, 4 };
#define STR2(x) #x
#define STR(x) STR2(x)
extern "C" { SimInfo const wl_info = { "elem" STR(WL_MODE), 1, 6, 2, 10, NOPS, weight, SIM_F_MPIERR, SIM_FL_FAILSTOP | SIM_FL_FAULTBIAS }; }

extern "C" void wl_rank(SimProg const *p, int rank)
{
  vsipl lib;
  long types = sim_live_types();
  {
    std::unique_ptr<Base> s[2];
    for (int i = 0; i < p->nops; ++i)
    {
      Args a(p->ops[i]); FaultyOp f_(i);
      int slot = a.below(2);
      if (p->ops[i].code == OP_CREATE || !s[slot])
      {
        static int const td[][2] = { { T_F, 1 }, { T_F, 2 }, { T_F, 3 }, { T_C, 1 }, { T_C, 2 }, { T_I, 1 }, { T_I, 2 } };
        int w = a.below(7);
        int t = td[w][0], d = td[w][1];
        int k = a.below(d == 1 ? NK1 : d == 2 ? NK2 : NK3);
        MapParam q; q.draw(a, p->nranks);
        length_type e[3] = { 1, 1, 1 };
        int big = a.below(40);
        for (int j = 0; j < d; ++j) e[j] = 1 + a.below(d == 1 ? 20 : d == 2 ? 8 : 5);
#if WL_MODE == 5
        if (big == 39 && d == 1 && t == T_F) e[0] = 4090 + 3 * e[0];
#else
        if (big > 35) e[d - 1] *= 7;
#endif
        int kinds_ = 0; for (int x = 0; x < NT; ++x) for (int y = 0; y < 4; ++y) for (int z = 0; z < MAXK; ++z) kinds_ += etab().make[x][y][z] != 0;
        if (kinds_ != 28) sim_fail("harness", "%d kinds of objects", kinds_);
        if (!etab().make[t][d][k]) continue;
        s[slot].reset(etab().make[t][d][k](e, q, p->nranks));
        s[slot]->refill(3 * i + 1);
        sim_note("slot %d: %s", slot, describe(*s[slot]).c_str());
      }
      if (p->ops[i].code == OP_CREATE) continue;
      Base &b = *s[slot];
      etab().fn[b.t][b.d][b.k](b, s[!slot].get(), a);
      b.check("object after the operation");
    }
    for (int j = 0; j < 2; ++j) if (s[j]) s[j]->check("object at the end");
  }
  if (sim_live_types() > types + 3) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
}

#else
template <typename T> inline T tol() { return T(); }
inline bool same(int a, int b) { return a == b; }
inline bool close(double a, double b) { double d = a - b; if (d < 0) d = -d; double m = b < 0 ? -b : b; return d <= 1e-5 * (1 + m); }

template <dimension_type D> inline void draw_index(Args &a, length_type const *e, index_type *x)
{ x[0] = x[1] = x[2] = 0; for (dimension_type d = 0; d < D; ++d) x[d] = a.below(e[d]); }

template <typename T>
inline void want_value(char const *what, index_type const *x, T got, T want)
{
  if (!(got == want))
    sim_fail("wrong-value", "%s (%lu,%lu,%lu): got (%g,%g), a serial program gets (%g,%g)", what, (unsigned long)x[0], (unsigned long)x[1], (unsigned long)x[2],
             re(got), im(got), re(want), im(want));
}

#if WL_MODE == 4
template <typename O> struct Rows { static bool go(O &, Args &) { return false; } };
template <typename T, int K> struct Rows<Obj<T, 2, K> >
{
  static bool go(Obj<T, 2, K> &o, Args &a)
  {
    index_type x[3]; draw_index<2>(a, o.m.ext, x);
    T v = Val<T>::make(a.raw());
    int w = a.below(3);
    if (w == 0)
    {
      T g = o.view.transpose().get(x[1], x[0]); want_value("get through transpose()", x, g, o.m.get(x));
      o.view.transpose().put(x[1], x[0], v); o.m.at(x) = v;
      want_value("get through transpose()", x, o.view.transpose().get(x[1], x[0]), v);
      return true;
    }
    if (has_cyclic<typename Obj<T, 2, K>::map_type>::value) return false;
    if (w == 1)
    {
      T g = o.view.row(x[0]).get(x[1]); want_value("get through row()", x, g, o.m.get(x));
      o.view.row(x[0]).put(x[1], v); o.m.at(x) = v;
    }
    else
    {
      Domain<1> d[3]; length_type n[3] = { 1, 1, 1 };
      for (int i = 0; i < 2; ++i) { n[i] = 1 + a.below(o.m.ext[i]); d[i] = draw_dom(a, o.m.ext[i], n[i], true); }
      index_type y[3] = { (index_type)a.below(n[0]), (index_type)a.below(n[1]), 0 };
      x[0] = d[0].impl_nth(y[0]); x[1] = d[1].impl_nth(y[1]);
      want_value("get through a subview", x, o.view(Mk<2>::dom(d)).get(y[0], y[1]), o.m.get(x));
      o.view(Mk<2>::dom(d)).put(y[0], y[1], v); o.m.at(x) = v;
    }
    return true;
  }
};
template <typename T, int K> struct Rows<Obj<T, 1, K> >
{
  static bool go(Obj<T, 1, K> &o, Args &a)
  {
    if (has_cyclic<typename Obj<T, 1, K>::map_type>::value) return false;
    length_type n = 1 + a.below(o.m.ext[0]);
    Domain<1> d = draw_dom(a, o.m.ext[0], n, true);
    index_type y = a.below(n), x[3] = { d.impl_nth(y), 0, 0 };
    T v = Val<T>::make(a.raw());
    want_value("get through a subview", x, o.view(d).get(y), o.m.get(x));
    o.view(d).put(y, v); o.m.at(x) = v;
    return true;
  }
};
// v(i), v(i, j), v(i, j, k) stand for an element
template <typename V> inline auto at_(V &v, index_type const *x, std::integral_constant<dimension_type, 1>) -> decltype(v(x[0])) { return v(x[0]); }
template <typename V> inline auto at_(V &v, index_type const *x, std::integral_constant<dimension_type, 2>) -> decltype(v(x[0], x[1])) { return v(x[0], x[1]); }
template <typename V> inline auto at_(V &v, index_type const *x, std::integral_constant<dimension_type, 3>) -> decltype(v(x[0], x[1], x[2])) { return v(x[0], x[1], x[2]); }
template <typename T, dimension_type D, int K>
void refs(Obj<T, D, K> &o, Args &a)
{
  std::integral_constant<dimension_type, D> d_;
  index_type x[3], y[3]; draw_index<D>(a, o.m.ext, x); draw_index<D>(a, o.m.ext, y);
  T v = Val<T>::make(a.raw()), g;
  switch (a.below(6))
  {
    case 0: at_(o.view, x, d_) = v; o.m.at(x) = v; break;
    case 1: at_(o.view, x, d_) += v; o.m.at(x) = o.m.get(x) + v; break;
    case 2: at_(o.view, x, d_) -= v; o.m.at(x) = o.m.get(x) - v; break;
    case 3: at_(o.view, x, d_) *= T(2); o.m.at(x) = o.m.get(x) * T(2); break;
    case 4: at_(o.view, x, d_) = at_(o.view, y, d_); o.m.at(x) = o.m.get(y); break;
    default:
      g = at_(o.view, x, d_) + at_(o.view, y, d_); want_value("sum of two element references", x, g, T(o.m.get(x) + o.m.get(y)));
      if (!(at_(o.view, x, d_) == o.m.get(x))) sim_fail("wrong-value", "an element reference does not compare equal to the element");
  }
  g = at_(o.view, x, d_); want_value("element reference", x, g, o.m.get(x));
}
// printing reads every element, on every processor
template <typename T, int K> std::string text(Obj<T, 1, K> &o)
{ std::ostringstream s; for (index_type i = 0; i < o.m.ext[0]; ++i) { index_type x[3] = { i, 0, 0 }; s << i << ": " << o.m.get(x) << '\n'; } return s.str(); }
template <typename T, int K> std::string text(Obj<T, 2, K> &o)
{
  std::ostringstream s;
  for (index_type i = 0; i < o.m.ext[0]; ++i) { s << i << ": "; for (index_type j = 0; j < o.m.ext[1]; ++j) { index_type x[3] = { i, j, 0 }; s << "  " << o.m.get(x); } s << '\n'; }
  return s.str();
}
template <typename T, int K> std::string text(Obj<T, 3, K> &o)
{
  std::ostringstream s;
  for (index_type z = 0; z < o.m.ext[0]; ++z)
  {
    s << "plane " << z << ":\n";
    for (index_type i = 0; i < o.m.ext[1]; ++i) { s << i << ": "; for (index_type j = 0; j < o.m.ext[2]; ++j) { index_type x[3] = { z, i, j }; s << o.m.get(x); } s << '\n'; }
    s << '\n';
  }
  return s.str();
}
template <typename T, dimension_type D, int K>
void op(Base &b, Base *, Args &a)
{
  typedef Obj<T, D, K> O; O &o = static_cast<O &>(b);
  int n = 1 + a.below(4);
  switch (a.below(8))
  {
    case 6: refs(o, a); return;
    case 7:
    {
      if (o.m.v.size() > 60) break;
      std::ostringstream s;
      { using namespace ovxx; s << o.view; }
      std::string want = text(o);
      if (s.str() != want) sim_fail("wrong-value", "printed text differs from the elements: '%.60s'...", s.str().c_str());
      return;
    }
  }
  if (a.below(4) == 3 && Rows<O>::go(o, a)) return;
  for (int i = 0; i < n; ++i)
  {
    index_type x[3]; draw_index<D>(a, o.m.ext, x);
    int w = a.below(3);
    T v = Val<T>::make(a.raw() + 77 * i);
    if (w) { put(o.view, x, v); o.m.at(x) = v; }
    if (w != 1) want_value("get", x, get(o.view, x), o.m.get(x));
  }
}
#elif WL_MODE == 5
template <typename T> struct Reduce
{
  template <typename V, typename M> static void go(V view, M const &m, int w)
  {
    double s = 0, q = 0, mx = -1e30, mn = 1e30, mxm = -1, mnm = 1e30;
    for (auto v : m.v) { s += re(v); q += re(v) * re(v); mx = std::max(mx, re(v)); mn = std::min(mn, re(v)); double g = re(v) < 0 ? -re(v) : re(v); mxm = std::max(mxm, g); mnm = std::min(mnm, g); }
    Index<V::dim> idx; double got = 0, want = 0; bool pos = false; bool mag = false; char const *nm = "";
    bool big = m.v.size() > 1000;
    if (big) w = w % 2 ? 0 : 1;
    switch (w)
    {
      case 0: nm = "sumval"; got = sumval(view); want = s; break;
      case 1: nm = "meanval"; if (sizeof(T) == sizeof(float) && T(0.5) == T(0)) return; got = meanval(view); want = s / m.v.size(); break;
      case 2: nm = "sumsqval"; got = sumsqval(view); want = q; break;
      case 3: nm = "meansqval"; if (T(0.5) == T(0)) return; got = meansqval(view); want = q / m.v.size(); break;
      case 4: nm = "maxval"; got = maxval(view, idx); want = mx; pos = true; break;
      case 5: nm = "minval"; got = minval(view, idx); want = mn; pos = true; break;
      case 6: nm = "maxmgval"; got = maxmgval(view, idx); want = mxm; pos = mag = true; break;
      case 7: nm = "minmgval"; got = minmgval(view, idx); want = mnm; pos = mag = true; break;
      default: return;
    }
    if (!close(got, want)) sim_fail("wrong-value", "%s: got %g, a serial program gets %g", nm, got, want);
    if (pos)
    {
      index_type x[3] = { 0, 0, 0 };
      for (dimension_type d = 0; d < V::dim; ++d) { x[d] = idx[d]; if (x[d] >= m.ext[d]) sim_fail("wrong-value", "%s: index %lu of an extent of %lu", nm, (unsigned long)x[d], (unsigned long)m.ext[d]); }
      double at = re(m.get(x)); if (mag && at < 0) at = -at;
      if (at != want) sim_fail("wrong-value", "%s: the element at the returned index is %g, not %g", nm, at, want);
      // all processors return the same index
      index_type key = x[0] * 1000003 + x[1] * 1009 + x[2];
      sim_mix(key);
    }
  }
};
template <typename T> struct Reduce<vsip::complex<T> >
{
  template <typename V, typename M> static void go(V view, M const &m, int w)
  {
    vsip::complex<double> s(0), q(0); double g = 0, mx = -1, mn = 1e30;
    for (auto v : m.v) { vsip::complex<double> d(v.real(), v.imag()); s += d; q += d * d; double n = d.real() * d.real() + d.imag() * d.imag(); g += n; mx = std::max(mx, n); mn = std::min(mn, n); }
    Index<V::dim> idx; vsip::complex<double> got, want; bool pos = false; char const *nm = "";
    switch (w % 6)
    {
      case 0: nm = "sumval"; { vsip::complex<T> r = sumval(view); got = vsip::complex<double>(r.real(), r.imag()); } want = s; break;
      case 1: nm = "meanval"; { vsip::complex<T> r = meanval(view); got = vsip::complex<double>(r.real(), r.imag()); } want = s / double(m.v.size()); break;
      case 2: nm = "sumsqval"; { vsip::complex<T> r = sumsqval(view); got = vsip::complex<double>(r.real(), r.imag()); } want = q; break;
      case 3: nm = "meansqval"; got = vsip::complex<double>(meansqval(view)); want = g / double(m.v.size()); break;
      case 4: nm = "maxmgsqval"; got = vsip::complex<double>(maxmgsqval(view, idx)); want = mx; pos = true; break;
      case 5: nm = "minmgsqval"; got = vsip::complex<double>(minmgsqval(view, idx)); want = mn; pos = true; break;
    }
    if (!close(got.real(), want.real()) || !close(got.imag(), want.imag()))
      sim_fail("wrong-value", "%s: got (%g,%g), a serial program gets (%g,%g)", nm, got.real(), got.imag(), want.real(), want.imag());
    if (pos)
    {
      index_type x[3] = { 0, 0, 0 };
      for (dimension_type d = 0; d < V::dim; ++d) { x[d] = idx[d]; if (x[d] >= m.ext[d]) sim_fail("wrong-value", "%s: index %lu of an extent of %lu", nm, (unsigned long)x[d], (unsigned long)m.ext[d]); }
      vsip::complex<T> c = m.get(x);
      if (!close(double(c.real()) * c.real() + double(c.imag()) * c.imag(), want.real())) sim_fail("wrong-value", "%s: wrong index", nm);
    }
  }
};
template <typename O> struct Logic
{
  static void go(O &o, Args &a)
  {
    typedef typename O::view_type::value_type T;
    int th = a.range(-100, 101);
    bool all = true, any = false;
    for (auto v : o.m.v) { bool c = re(v) > th; all = all && c; any = any || c; }
    if (alltrue(o.view > T(th)) != all) sim_fail("wrong-value", "alltrue(v > %d) is %d on processor %d", th, !all, sim_rank());
    if (anytrue(o.view > T(th)) != any) sim_fail("wrong-value", "anytrue(v > %d) is %d on processor %d", th, !any, sim_rank());
  }
};
template <typename T, dimension_type D, int K> struct Logic<Obj<vsip::complex<T>, D, K> > { static void go(Obj<vsip::complex<T>, D, K> &, Args &) {} };
template <dimension_type D, int K> struct Logic<Obj<int, D, K> >
{
  static void go(Obj<int, D, K> &o, Args &)
  {
    int all = -1, any = 0; for (int v : o.m.v) { all &= v; any |= v; }
    int ga = alltrue(o.view), gn = anytrue(o.view);
    if (ga != all) sim_fail("wrong-value", "alltrue is %d, a serial program gets %d", ga, all);
    if (gn != any) sim_fail("wrong-value", "anytrue is %d, a serial program gets %d", gn, any);
  }
};
template <typename T, dimension_type D, int K>
void op(Base &b, Base *other, Args &a)
{
  typedef Obj<T, D, K> O; O &o = static_cast<O &>(b);
  int w = a.below(8), form = a.below(4);
  if (o.m.v.size() > 1000 && form) form = 2 * (form % 2);
  if (form == 1 && !has_cyclic<typename O::map_type>::value)
  {
    Domain<1> d[3]; Model<T, D> m; length_type n[3] = { 1, 1, 1 };
    for (dimension_type i = 0; i < D; ++i) { n[i] = 1 + a.below(o.m.ext[i]); d[i] = draw_dom(a, o.m.ext[i], n[i], true); }
    m.init(n);
    auto f = [&](index_type const *y) { index_type x[3] = { 0, 0, 0 }, z[3] = { y[0], y[1], y[2] }; for (dimension_type k = 0; k < D; ++k) x[k] = d[k].impl_nth(y[k]); m.at(z) = o.m.get(x); };
    for_box<D>(n, f);
    sim_note("reduction %d of a subview", w);
    Reduce<T>::go(o.view(Mk<D>::dom(d)), m, w);
  }
  else if (form == 2 && other && other->t == b.t && other->d == b.d && other->k == b.k && other->extent()[0] == b.extent()[0] && other->extent()[1] == b.extent()[1]
           && other->extent()[2] == b.extent()[2] && o.m.v.size() < 1000)
  {
    O &p = static_cast<O &>(*other);
    Model<T, D> m = o.m; for (index_type i = 0; i < m.v.size(); ++i) m.v[i] = o.m.v[i] + p.m.v[i];
    sim_note("reduction %d of a sum", w);
    Reduce<T>::go(o.view + p.view, m, w);
  }
  else if (form == 3) { sim_note("logical reduction"); Logic<O>::go(o, a); }
  else { sim_note("reduction %d", w); Reduce<T>::go(o.view, o.m, w); }
}
#else
// ---- index queries
struct Held { int sb; int valid; };
template <typename Dist> struct DistModel;
template <> struct DistModel<Block_dist>
{
  // contiguous, in order, sizes differ by at most one
  static index_type sb(length_type n, length_type np, length_type, index_type g, length_type *sizes)
  { index_type f = 0; for (index_type s = 0; s < np; ++s) { if (g < f + sizes[s]) return s; f += sizes[s]; } return np; }
  static distribution_type kind() { return block; }
};
template <> struct DistModel<Cyclic_dist>
{ static index_type sb(length_type, length_type np, length_type cs, index_type g, length_type *) { return (g / cs) % np; } static distribution_type kind() { return cyclic; } };
template <> struct DistModel<Whole_dist>
{ static index_type sb(length_type, length_type, length_type, index_type, length_type *) { return 0; } static distribution_type kind() { return whole; } };

template <typename M> struct Expect;
template <typename D0, typename D1, typename D2> struct Expect<Map<D0, D1, D2> >
{
  // expected subblock coordinates of a global index
  template <typename V> static void check(V view, length_type const *ext, MapParam const &q, index_type const *g, index_type sb)
  {
    length_type np[3]; for (int d = 0; d < 3; ++d) np[d] = view.block().map().num_subblocks(d);
    index_type c[3]; index_type s = sb;
    for (int d = 2; d >= 0; --d) { c[d] = s % np[d]; s /= np[d]; }
    index_type w[3] = { one<D0>(0, ext, np, q, g), one<D1>(1, ext, np, q, g), one<D2>(2, ext, np, q, g) };
    for (int d = 0; d < int(V::dim); ++d)
      if (c[d] != w[d]) sim_fail("index-map", "dimension %d: global index %lu is in subblock %lu, expected %lu", d, (unsigned long)g[d], (unsigned long)c[d], (unsigned long)w[d]);
  }
  template <typename Dd> static index_type one(int d, length_type const *ext, length_type const *np, MapParam const &q, index_type const *g)
  {
    length_type sizes[64]; for (index_type s = 0; s < np[d]; ++s) sizes[s] = ext[d] / np[d] + (s < ext[d] % np[d]);
    return DistModel<Dd>::sb(ext[d], np[d], q.cs[d], g[d], sizes);
  }
  enum { replicated = 0 };
  // Maps are equal exactly if they distribute alike over the same processors.
  static void equality(Map<D0, D1, D2> const &map, int dim, MapParam const &q, MapParam const &other, int np, int what)
  {
    typedef Map<D0, D1, D2> M;
    MapParam r = q;
    if (what == 1) r.perm = other.perm;
    else if (what == 2) { r.cs[0] = other.cs[0]; }
    else if (what == 3) { r.cs[1] = other.cs[1]; r.cs[2] = other.cs[2]; }
    else if (what == 4) r = other;
    M m = dim == 1 ? MakeMap<1, M>::make(r, np) : dim == 2 ? MakeMap<2, M>::make(r, np) : MakeMap<3, M>::make(r, np);
    const_Vector<processor_type> p0 = map.processor_set(), p1 = m.processor_set();
    bool want = p0.size() == p1.size();
    for (index_type i = 0; want && i < p0.size(); ++i) want = p0.get(i) == p1.get(i);
    for (dimension_type d = 0; d < 3; ++d)
      want = want && map.num_subblocks(d) == m.num_subblocks(d) && (map.distribution(d) != cyclic || map.cyclic_contiguity(d) == m.cyclic_contiguity(d));
    if (!what && !want) sim_fail("index-map", "the map reports other processors than one made alike");
    if ((map == m) != want || (m == map) != want) sim_fail("index-map", "two maps that %s compare otherwise", want ? "distribute alike" : "distribute differently");
    M copy(m); if (!(copy == m)) sim_fail("index-map", "a copy of a map differs from it");
    copy = map; if (!(copy == map) || (copy == m) != want) sim_fail("index-map", "an assigned map differs from its source");
  }
  static bool kinds(Map<D0, D1, D2> const &m, MapParam const &q)
  {
    return m.distribution(0) == DistModel<D0>::kind() && m.distribution(1) == DistModel<D1>::kind() && m.distribution(2) == DistModel<D2>::kind()
      && (m.distribution(0) != cyclic || m.cyclic_contiguity(0) == (length_type)q.cs[0]) && (m.distribution(1) != cyclic || m.cyclic_contiguity(1) == (length_type)q.cs[1]);
  }
};
template <dimension_type D> struct Expect<Replicated_map<D> >
{
  template <typename V> static void check(V, length_type const *, MapParam const &, index_type const *, index_type sb)
  { if (sb != 0) sim_fail("index-map", "replicated data in subblock %lu", (unsigned long)sb); }
  enum { replicated = 1 };
  template <typename M> static void equality(M const &, int, MapParam const &, MapParam const &, int, int) {}
  static bool kinds(Replicated_map<D> const &, MapParam const &) { return true; }
};
template <typename T, dimension_type D> struct PointFn
{
  Model<T, D> &m; unsigned tag; long n;
  Model<T, D> *out; long *count;
  T operator()(T, Index<D> const &, Index<D> const &g) { ++*count; index_type x[3] = { 0, 0, 0 }; for (dimension_type d = 0; d < D; ++d) x[d] = g[d]; return Val<T>::make(hashu(tag, m.flat(x))); }
};
template <typename T, dimension_type D, int K>
void op(Base &b, Base *, Args &a)
{
  typedef Obj<T, D, K> O; O &o = static_cast<O &>(b);
  typedef typename O::map_type M; typedef typename O::view_type V;
  V v = o.view; M const &map = v.block().map();
  int const np = sim_nranks();
  length_type nsb = num_subblocks(v);
  if (nsb != map.num_subblocks() || !Expect<M>::kinds(map, o.q)) sim_fail("index-map", "the map reports other parameters than it was made with");
  { MapParam other; other.draw(a, np); int what = a.below(5); Expect<M>::equality(map, D, o.q, other, np, what); }
  // who holds what: every processor publishes what it holds
  int *board = (int *)sim_blackboard(1, sizeof(int) * 8);
  index_type mine = subblock(v);
  board[sim_rank()] = mine == no_subblock ? -1 : (int)mine;
  ovxx::parallel::default_communicator().barrier();
  int holders = 0;
  for (int r = 0; r < np; ++r)
  {
    index_type s = map.subblock(r);
    int claimed = s == no_subblock ? -1 : (int)s;
    if (claimed != board[r]) sim_fail("index-map", "processor %d holds subblock %d, processor %d thinks it holds %d", r, board[r], sim_rank(), claimed);
    if ((subblock(v, r) == no_subblock ? -1 : (int)subblock(v, r)) != claimed) sim_fail("index-map", "subblock(view, processor) disagrees with the map");
    if (claimed >= 0) ++holders;
  }
  for (index_type s = 0; s < nsb; ++s)
  {
    int n = 0;
    for (typename M::processor_iterator it = map.processor_begin(s); it != map.processor_end(s); ++it, ++n)
      if (board[*it] != (int)s) sim_fail("index-map", "processor %d does not hold subblock %lu", (int)*it, (unsigned long)s);
    if (!n) sim_fail("index-map", "nobody holds subblock %lu", (unsigned long)s);
    int cnt = 0; for (int r = 0; r < np; ++r) cnt += board[r] == (int)s;
    if (cnt != n) sim_fail("index-map", "%d processors hold subblock %lu, the map lists %d", cnt, (unsigned long)s, n);
  }
  ovxx::parallel::default_communicator().barrier();
  // global -> (subblock, local) -> global is the identity; the pairs are distinct
  std::vector<std::vector<char> > seen(nsb);
  std::vector<length_type> size(nsb);
  for (index_type s = 0; s < nsb; ++s) { size[s] = subblock_domain(v, s).size(); seen[s].assign(size[s], 0); }
  auto f = [&](index_type const *g)
  {
    Index<D> gi = Mk<D>::index(g);
    index_type s = subblock_from_global_index(v, gi);
    if (s >= nsb) sim_fail("index-map", "index (%lu,%lu,%lu) is in subblock %lu of %lu", g[0], g[1], g[2], (unsigned long)s, (unsigned long)nsb);
    Expect<M>::check(v, o.m.ext, o.q, g, s);
    Index<D> li = local_from_global_index(v, gi);
    Domain<D> sd = subblock_domain(v, s);
    length_type flat = 0;
    for (dimension_type d = 0; d < D; ++d)
    {
      if (li[d] >= sd[d].size()) sim_fail("index-map", "local index %lu of a subblock of size %lu", (unsigned long)li[d], (unsigned long)sd[d].size());
      flat = flat * sd[d].size() + li[d];
      if (global_from_local_index(v, d, s, li[d]) != g[d]) sim_fail("index-map", "global_from_local_index differs by dimension");
      if (local_from_global_index(v, d, g[d]) != li[d]) sim_fail("index-map", "local_from_global_index differs by dimension");
    }
    Index<D> back = global_from_local_index(v, s, li);
    for (dimension_type d = 0; d < D; ++d)
      if (back[d] != g[d]) sim_fail("index-map", "global index %lu -> local %lu -> global %lu in dimension %d", (unsigned long)g[d], (unsigned long)li[d], (unsigned long)back[d], (int)d);
    if (seen[s][flat]) sim_fail("index-map", "two elements at the same place in subblock %lu", (unsigned long)s);
    seen[s][flat] = 1;
    // the patch that holds it
    index_type p = patch_from_global_index(v, gi);
    if (p >= num_patches(v, s)) sim_fail("index-map", "patch %lu of %lu", (unsigned long)p, (unsigned long)num_patches(v, s));
    Domain<D> gd = global_domain(v, s, p), ld = local_domain(v, s, p);
    for (dimension_type d = 0; d < D; ++d)
    {
      if (g[d] < gd[d].first() || g[d] >= gd[d].first() + gd[d].size()) sim_fail("index-map", "patch %lu does not contain its index", (unsigned long)p);
      if (g[d] - gd[d].first() != li[d] - ld[d].first()) sim_fail("index-map", "patch %lu: local and global domain do not match", (unsigned long)p);
    }
  };
  for_box<D>(o.m.ext, f);
  // the patches cover every subblock exactly
  for (index_type s = 0; s < nsb; ++s)
  {
    length_type tot = 0;
    for (index_type p = 0; p < num_patches(v, s); ++p)
    {
      if (global_domain(v, s, p).size() != local_domain(v, s, p).size()) sim_fail("index-map", "patch %lu: different sizes", (unsigned long)p);
      tot += local_domain(v, s, p).size();
    }
    if (tot != size[s]) sim_fail("index-map", "subblock %lu has %lu elements, its patches %lu", (unsigned long)s, (unsigned long)size[s], (unsigned long)tot);
    for (index_type i = 0; i < seen[s].size(); ++i) if (!seen[s][i]) sim_fail("index-map", "subblock %lu: a place that no element has", (unsigned long)s);
  }
  // what this processor really holds
  if (mine != no_subblock)
  {
    if (v.local().size() != size[mine] || subblock_domain(v).size() != size[mine] || num_patches(v) != num_patches(v, mine))
      sim_fail("index-map", "the local part has %lu elements, the map says %lu", (unsigned long)v.local().size(), (unsigned long)size[mine]);
  }
  else if (num_patches(v) != 0 || subblock_domain(v).size() != 0) sim_fail("index-map", "a processor without subblock has patches");
  if (num_patches(v, no_subblock) != 0 || subblock_domain(v, no_subblock).size() != 0 || global_domain(v, no_subblock, 0).size() != 0 || local_domain(v, no_subblock, 0).size() != 0)
    sim_fail("index-map", "no subblock has elements");
  // the owner computes
  long count = 0;
  unsigned tag = a.raw();
  PointFn<T, D> pf = { o.m, tag, 0, 0, &count };
  ovxx::parallel::foreach_point(v, pf);
  if (count != (long)(mine == no_subblock ? 0 : size[mine])) sim_fail("index-map", "foreach_point visited %ld elements", count);
  o.m.fill(tag);
}
#endif

// unnamed namespace: every translation unit has its own registration
namespace {
template <typename T, dimension_type D, int K> struct Reg
{ static void go() { etab().make[TId<T>::id][D][K] = &Maker<T, D, K>::make; etab().fn[TId<T>::id][D][K] = &op<T, D, K>; } };
struct Init
{
  Init()
  {
#if WL_PART == 1
    Reg<float, 1, 0>::go(); Reg<float, 1, 1>::go(); Reg<float, 1, 2>::go(); Reg<int, 1, 0>::go(); Reg<int, 1, 1>::go(); Reg<int, 1, 2>::go();
#elif WL_PART == 2
    Reg<vsip::complex<float>, 1, 0>::go(); Reg<vsip::complex<float>, 1, 1>::go(); Reg<vsip::complex<float>, 1, 2>::go();
    Reg<vsip::complex<float>, 2, 0>::go(); Reg<vsip::complex<float>, 2, 4>::go(); Reg<vsip::complex<float>, 2, 7>::go();
#elif WL_PART == 3
    Reg<float, 2, 0>::go(); Reg<float, 2, 1>::go(); Reg<float, 2, 2>::go(); Reg<float, 2, 3>::go();
#elif WL_PART == 4
    Reg<float, 2, 4>::go(); Reg<float, 2, 5>::go(); Reg<float, 2, 6>::go(); Reg<float, 2, 7>::go();
#elif WL_PART == 5
    Reg<float, 3, 0>::go(); Reg<float, 3, 1>::go(); Reg<float, 3, 2>::go(); Reg<float, 3, 3>::go();
#elif WL_PART == 6
    Reg<int, 2, 0>::go(); Reg<int, 2, 1>::go(); Reg<int, 2, 4>::go(); Reg<int, 2, 7>::go();
#endif
  }
} init_;
}
#endif
