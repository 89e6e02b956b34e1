// Shared by all workloads: global reference models of distributed data,
// the map kinds under test, and the comparison of a distributed object with
// its model.  Every rank runs the same program and keeps its own complete
// model ("what a serial program would hold"), so no communication of the
// library under test is involved in judging the library under test.
#ifndef WL_COMMON_HPP
#define WL_COMMON_HPP
#include "../sim/simapi.h"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/math.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/selgen.hpp>
#include <vector>
#include <memory>
#include <cstring>
#include <cstdio>

static __thread int wl_tls_;
extern "C" __attribute__((weak, used)) void wl_touch_tls(void) { wl_tls_ = 1; }

namespace wl
{
using namespace vsip;

// Sections that belong to the oracle: no preemption, no fault.
struct Oracle
{
  int armed;
  Oracle() : armed(sim_faults_armed()) { sim_hold(1); sim_faults_arm(0); }
  ~Oracle() { sim_faults_arm(armed); sim_hold(0); }
};

// One operation of a program into which faults may be injected: a call that
// failed must not look like a success.
struct FaultyOp
{
  int before, op;
  explicit FaultyOp(int n) : before(sim_mpi_faults()), op(n) { sim_faults_arm(1); }
  ~FaultyOp()
  {
    sim_faults_arm(0);
    if (sim_mpi_faults() == before) return;
    if (std::uncaught_exception()) sim_reported();
    else
      sim_fail("error-not-reported", "operation %d went on as if nothing had happened although an MPI call it made failed", op);
  }
};

// Cursor over the arguments of one operation.
struct Args
{
  SimOp const &op; int n;
  explicit Args(SimOp const &o) : op(o), n(0) {}
  int raw() { int v = n < SIM_MAXARGS ? op.a[n] : 0; ++n; return v < 0 ? -v : v; }
  int below(int k) { int v = raw(); return k > 0 ? v % k : 0; }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  // an extent: mostly 1..k, sometimes up to f times that
  int extent(int k, int f = 5) { int v = raw(); return v % 11 == 10 ? 1 + (v / 11) % (f * k) : 1 + v % k; }
};

inline unsigned hashu(unsigned a, unsigned b)
{
  unsigned h = a * 2654435761u ^ (b + 0x9e3779b9u + (a << 6));
  h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
  return h;
}
// small integers: every operation used is exact in every element type
template <typename T> struct Val { static T make(unsigned h) { return T(int(h % 201) - 100); } };
template <> struct Val<unsigned char> { static unsigned char make(unsigned h) { return h % 256; } };
template <> struct Val<bool> { static bool make(unsigned h) { return (h >> 3) & 1; } };
template <typename T> struct Val<vsip::complex<T> >
{ static vsip::complex<T> make(unsigned h) { return vsip::complex<T>(T(int(h % 201) - 100), T(int((h >> 8) % 201) - 100)); } };

template <typename T> inline double re(T v) { return double(v); }
template <typename T> inline double re(vsip::complex<T> v) { return v.real(); }
template <typename T> inline double im(T) { return 0; }
template <typename T> inline double im(vsip::complex<T> v) { return v.imag(); }

template <typename T, dimension_type D>
struct Model
{
  length_type ext[3];
  std::vector<T> v;
  Model() { ext[0] = ext[1] = ext[2] = 0; }
  void init(length_type const *e)
  {
    length_type n = 1;
    for (dimension_type d = 0; d < 3; ++d) { ext[d] = d < D ? e[d] : 1; n *= ext[d]; }
    v.assign(n, T());
  }
  length_type size() const { return v.size(); }
  index_type flat(index_type const *i) const { return (i[0] * ext[1] + (D > 1 ? i[1] : 0)) * ext[2] + (D > 2 ? i[2] : 0); }
  typename std::vector<T>::reference at(index_type const *i) { return v[flat(i)]; }
  T get(index_type const *i) const { return v[flat(i)]; }
  void fill(unsigned tag) { for (index_type k = 0; k < v.size(); ++k) v[k] = Val<T>::make(hashu(tag, k)); }
};

// Uniform element access for views of any dimension.
template <typename T, typename B> inline T get(const_Vector<T, B> w, index_type const *i) { return w.get(i[0]); }
template <typename T, typename B> inline T get(const_Matrix<T, B> w, index_type const *i) { return w.get(i[0], i[1]); }
template <typename T, typename B> inline T get(const_Tensor<T, B> w, index_type const *i) { return w.get(i[0], i[1], i[2]); }
template <typename T, typename B> inline void put(Vector<T, B> w, index_type const *i, T v) { w.put(i[0], v); }
template <typename T, typename B> inline void put(Matrix<T, B> w, index_type const *i, T v) { w.put(i[0], i[1], v); }
template <typename T, typename B> inline void put(Tensor<T, B> w, index_type const *i, T v) { w.put(i[0], i[1], i[2], v); }

template <dimension_type D> struct Mk;
template <> struct Mk<1>
{
  static Domain<1> dom(length_type const *e) { return Domain<1>(e[0]); }
  static Domain<1> dom(Domain<1> const *d) { return d[0]; }
  template <typename T, typename B> struct view { typedef Vector<T, B> type; };
  template <typename V, typename M> static V make(length_type const *e, M const &m) { return V(e[0], m); }
  template <typename V, typename T, typename M> static V make(length_type const *e, T v, M const &m) { return V(e[0], v, m); }
  static Index<1> index(index_type const *i) { return Index<1>(i[0]); }
};
template <> struct Mk<2>
{
  static Domain<2> dom(length_type const *e) { return Domain<2>(e[0], e[1]); }
  static Domain<2> dom(Domain<1> const *d) { return Domain<2>(d[0], d[1]); }
  template <typename T, typename B> struct view { typedef Matrix<T, B> type; };
  template <typename V, typename M> static V make(length_type const *e, M const &m) { return V(e[0], e[1], m); }
  template <typename V, typename T, typename M> static V make(length_type const *e, T v, M const &m) { return V(e[0], e[1], v, m); }
  static Index<2> index(index_type const *i) { return Index<2>(i[0], i[1]); }
};
template <> struct Mk<3>
{
  static Domain<3> dom(length_type const *e) { return Domain<3>(e[0], e[1], e[2]); }
  static Domain<3> dom(Domain<1> const *d) { return Domain<3>(d[0], d[1], d[2]); }
  template <typename T, typename B> struct view { typedef Tensor<T, B> type; };
  template <typename V, typename M> static V make(length_type const *e, M const &m) { return V(e[0], e[1], e[2], m); }
  template <typename V, typename T, typename M> static V make(length_type const *e, T v, M const &m) { return V(e[0], e[1], e[2], v, m); }
  static Index<3> index(index_type const *i) { return Index<3>(i[0], i[1], i[2]); }
};

// ------------------------------------------------------------- map kinds
// Map kinds are template types, their parameters come from the program.
template <typename D0, typename D1, typename D2> struct DistOf;
inline void make_dist(Whole_dist &d, int, int) { d = Whole_dist(); }
inline void make_dist(Block_dist &d, int n, int) { d = Block_dist(n); }
inline void make_dist(Cyclic_dist &d, int n, int c) { d = Cyclic_dist(n, c); }
template <typename D> struct is_whole { enum { value = 0 }; };
template <> struct is_whole<Whole_dist> { enum { value = 1 }; };

// The parameters of a map, drawn from the program.
struct MapParam
{
  int np[3]; int cs[3]; int perm;      // perm: 0 default processor set, else a permutation/rotation
  void draw(Args &a, int nranks)
  {
    int left = nranks;
    int order = a.below(6);
    static int const ord[6][3] = { {0,1,2}, {1,0,2}, {2,1,0}, {0,2,1}, {1,2,0}, {2,0,1} };
    for (int k = 0; k < 3; ++k)
    {
      int d = ord[order][k];
      int r = a.raw();
      np[d] = r % 3 == 2 ? left : 1 + (r / 3) % left;
      left /= np[d];
      cs[d] = 1 + a.below(5);
    }
    perm = a.below(512); if (perm % 8 == 0) perm = 0;
  }
};
inline void perm_of(int perm, int nranks, std::vector<int> &p)
{
  p.resize(nranks);
  for (int i = 0; i < nranks; ++i) p[i] = i;
  if (perm == 0) return;
  if (perm % 4 == 1)      // two processors change places
  {
    if (nranks > 1) { int i = hashu(perm, 1) % nranks, j = (i + 1 + hashu(perm, 2) % (nranks - 1)) % nranks; std::swap(p[i], p[j]); }
    return;
  }
  for (int i = nranks - 1; i > 0; --i) { int j = hashu(perm, i) % (i + 1); std::swap(p[i], p[j]); }
}
inline Vector<processor_type> pset_of(int perm, int n, int nranks)
{
  std::vector<int> p; perm_of(perm, nranks, p);
  Vector<processor_type> v(n);
  for (int i = 0; i < n; ++i) v.put(i, processor_set().get(p[i]));
  return v;
}

template <dimension_type D, typename M> struct MakeMap;
template <dimension_type D, typename D0, typename D1, typename D2>
struct MakeMap<D, Map<D0, D1, D2> >
{
  // dimensions beyond D and "whole" dimensions have one subblock
  static Map<D0, D1, D2> make(MapParam const &q0, int nranks)
  {
    MapParam q = q0;
    if (D < 3) q.np[2] = 1;
    if (D < 2) q.np[1] = 1;
    if (is_whole<D0>::value) q.np[0] = 1;
    if (is_whole<D1>::value) q.np[1] = 1;
    if (is_whole<D2>::value) q.np[2] = 1;
    D0 d0; D1 d1; D2 d2;
    make_dist(d0, q.np[0], q.cs[0]); make_dist(d1, q.np[1], q.cs[1]); make_dist(d2, q.np[2], q.cs[2]);
    int n = q.np[0] * q.np[1] * q.np[2];
    if (q.perm < 4) return Map<D0, D1, D2>(d0, d1, d2);
    return Map<D0, D1, D2>(pset_of(q.perm, n, nranks), d0, d1, d2);
  }
};
template <dimension_type D>
struct MakeMap<D, Replicated_map<D> >
{
  static Replicated_map<D> make(MapParam const &q, int nranks)
  {
    if (q.perm < 4) return Replicated_map<D>();
    int n = 1 + hashu(q.perm, q.np[0] * 7 + q.cs[0]) % nranks;
    return Replicated_map<D>(pset_of(q.perm, n, nranks));
  }
};
template <dimension_type D>
struct MakeMap<D, Local_map> { static Local_map make(MapParam const &, int) { return Local_map(); } };

// ------------------------------------------------ objects under test
// Walk over the elements held by this rank.  F(local index, global index).
template <typename V, typename F>
inline void for_local(V view, F &f)
{
  if (subblock(view) == no_subblock) return;
  dimension_type const D = V::dim;
  length_type e[3] = { 1, 1, 1 };
  for (dimension_type d = 0; d < D; ++d) e[d] = view.local().size(d);
  index_type l[3], g[3] = { 0, 0, 0 };
  for (l[0] = 0; l[0] < e[0]; ++l[0])
    for (l[1] = 0; l[1] < e[1]; ++l[1])
      for (l[2] = 0; l[2] < e[2]; ++l[2])
      {
        Index<D> li = Mk<D>::index(l);
        Index<D> gi = global_from_local_index(view, li);
        for (dimension_type d = 0; d < D; ++d) g[d] = gi[d];
        f(l, g);
      }
}

template <typename V, typename MD>
struct WriteLocal
{
  V view; MD const &m;
  typename V::local_type loc;
  WriteLocal(V v, MD const &mm) : view(v), m(mm), loc(v.local()) {}
  void operator()(index_type const *l, index_type const *g) { put(loc, l, m.get(g)); }
};
template <typename V, typename MD>
struct CheckLocal
{
  typedef typename V::value_type T;
  V view; MD const &m; char const *what; long n;
  typename V::local_type loc;
  CheckLocal(V v, MD const &mm, char const *w) : view(v), m(mm), what(w), n(0), loc(v.local()) {}
  void operator()(index_type const *l, index_type const *g)
  {
    for (dimension_type d = 0; d < V::dim; ++d)
      if (g[d] >= m.ext[d]) sim_fail("index-map", "%s: local element maps to index %lu of an extent of %lu", what, (unsigned long)g[d], (unsigned long)m.ext[d]);
    T got = get(loc, l), want = m.get(g);
    if (!(got == want))
      sim_fail("wrong-value", "%s: element (%lu,%lu,%lu) is (%g,%g), a serial program has (%g,%g)", what,
               (unsigned long)g[0], (unsigned long)(V::dim > 1 ? g[1] : 0), (unsigned long)(V::dim > 2 ? g[2] : 0),
               re(got), im(got), re(want), im(want));
    ++n;
    sim_mix(hashu((unsigned)(long)re(got), (unsigned)(long)im(got)));
  }
};
template <typename V, typename MD> inline void write_local(V view, MD const &m)
{ Oracle o_; WriteLocal<V, MD> f(view, m); for_local(view, f); }
template <typename V, typename MD> inline long check_local(V view, MD const &m, char const *what)
{ Oracle o_; CheckLocal<V, MD> f(view, m, what); for_local(view, f); return f.n; }

} // namespace wl
#endif
