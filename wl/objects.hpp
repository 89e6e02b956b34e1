// Type-erased distributed objects with their serial models, and the tables of
// operations between pairs of map kinds (filled by several translation units).
#ifndef WL_OBJECTS_HPP
#define WL_OBJECTS_HPP
#include "common.hpp"

namespace wl
{
// element types
enum { T_F, T_C, T_I, T_D, NT };
template <typename T> struct TId;
template <> struct TId<float> { enum { id = T_F }; };
template <> struct TId<vsip::complex<float> > { enum { id = T_C }; };
template <> struct TId<int> { enum { id = T_I }; };
template <> struct TId<double> { enum { id = T_D }; };

// map/layout kinds, per dimension
template <dimension_type D, int K> struct Kind;
#define WL_KIND(D, K, ORDER, ...) \
  template <> struct Kind<D, K> { typedef __VA_ARGS__ map_type; typedef ORDER order_type; };
WL_KIND(1, 0, row1_type, Map<Block_dist>)
WL_KIND(1, 1, row1_type, Map<Cyclic_dist>)
WL_KIND(1, 2, row1_type, Replicated_map<1>)
enum { NK1 = 3 };
typedef Map<Block_dist, Block_dist> MapBB;
WL_KIND(2, 0, row2_type, Map<Block_dist, Block_dist>)
WL_KIND(2, 1, col2_type, Map<Block_dist, Block_dist>)
WL_KIND(2, 2, row2_type, Map<Cyclic_dist, Block_dist>)
WL_KIND(2, 3, row2_type, Map<Block_dist, Cyclic_dist>)
WL_KIND(2, 4, row2_type, Map<Cyclic_dist, Cyclic_dist>)
WL_KIND(2, 5, row2_type, Map<Block_dist, Whole_dist>)
WL_KIND(2, 6, col2_type, Map<Whole_dist, Block_dist>)
WL_KIND(2, 7, row2_type, Replicated_map<2>)
enum { NK2 = 8 };
WL_KIND(3, 0, row3_type, Map<Block_dist, Block_dist, Block_dist>)
WL_KIND(3, 1, col3_type, Map<Block_dist, Block_dist, Block_dist>)
WL_KIND(3, 2, row3_type, Map<Block_dist, Block_dist, Cyclic_dist>)
WL_KIND(3, 3, row3_type, Replicated_map<3>)
enum { NK3 = 4 };
template <dimension_type D> struct NKinds;
template <> struct NKinds<1> { enum { value = NK1 }; };
template <> struct NKinds<2> { enum { value = NK2 }; };
template <> struct NKinds<3> { enum { value = NK3 }; };

template <typename M> struct has_cyclic { enum { value = 0 }; };
template <typename D> struct is_cyclic { enum { value = 0 }; };
template <> struct is_cyclic<Cyclic_dist> { enum { value = 1 }; };
template <typename X, typename Y, typename Z> struct has_cyclic<Map<X, Y, Z> >
{ enum { value = is_cyclic<X>::value || is_cyclic<Y>::value || is_cyclic<Z>::value }; };

struct Base
{
  int t, d, k;
  MapParam q;
  Base() : t(0), d(0), k(0) {}
  virtual ~Base() {}
  virtual length_type const *extent() const = 0;
  virtual long check(char const *what) = 0;
  virtual void refill(unsigned tag) = 0;
  virtual length_type size() const = 0;
};
// what an operation needs to know about the model, independent of the map
template <typename T, dimension_type D>
struct Typed : Base
{
  Model<T, D> m;
  length_type const *extent() const { return m.ext; }
  length_type size() const { return m.size(); }
};
template <typename T, dimension_type D, int K>
struct Obj : Typed<T, D>
{
  typedef typename Kind<D, K>::map_type map_type;
  typedef Dense<D, T, typename Kind<D, K>::order_type, map_type> block_type;
  typedef typename Mk<D>::template view<T, block_type>::type view_type;
  view_type view;
  Obj(length_type const *e, MapParam const &qq, int nranks)
    : view(filled(qq, e) ? Mk<D>::template make<view_type>(e, value(e), MakeMap<D, map_type>::make(qq, nranks))
                         : Mk<D>::template make<view_type>(e, MakeMap<D, map_type>::make(qq, nranks)))
  {
    this->t = TId<T>::id; this->d = D; this->k = K; this->q = qq;
    this->m.init(e);
    if (filled(qq, e)) { this->m.v.assign(this->m.v.size(), value(e)); check_local(view, this->m, "constructed with a value"); }
  }
  // some objects are made with a value
  static bool filled(MapParam const &q, length_type const *e) { return hashu(q.perm * 31 + q.cs[0], e[0]) % 4 == 0; }
  static T value(length_type const *e) { return Val<T>::make(hashu(e[0], 5)); }
  void refill(unsigned tag) { this->m.fill(tag); write_local(view, this->m); }
  long check(char const *what) { return check_local(view, this->m, what); }
};

typedef Base *(*MakeFn)(length_type const *, MapParam const &, int);
typedef void (*PairFn)(Base &, Base &, Args &);
enum { MAXK = 8 };
struct Tables
{
  MakeFn make[NT][4][MAXK];
  PairFn pair[NT][4][MAXK][MAXK];
};
Tables &tables();

template <typename T, dimension_type D, int K>
struct Maker { static Base *make(length_type const *e, MapParam const &q, int n) { return new Obj<T, D, K>(e, q, n); } };

inline std::string describe(Base const &b)
{
  static char const *const tn[] = { "float", "cfloat", "int", "double" };
  static char const *const kn[4][8] = { {}, { "block", "cyclic", "replicated" },
    { "block-block", "block-block(col)", "cyclic-block", "block-cyclic", "cyclic-cyclic", "block-whole", "whole-block(col)", "replicated" },
    { "block-block-block", "block-block-block(col)", "block-block-cyclic", "replicated" } };
  char s[256];
  length_type const *e = b.extent();
  snprintf(s, sizeof s, "%s %lux%lux%lu %s procs(%d,%d,%d) contiguity(%d,%d,%d) pset %d", tn[b.t], (unsigned long)e[0], (unsigned long)e[1], (unsigned long)e[2],
           kn[b.d][b.k], b.q.np[0], b.q.np[1], b.q.np[2], b.q.cs[0], b.q.cs[1], b.q.cs[2], b.q.perm);
  return s;
}

// a random subdomain of length n within extent e (n <= e), possibly strided
inline Domain<1> draw_dom(Args &a, length_type e, length_type n, bool stride_ok)
{
  int s = a.raw();
  length_type st = 1;
  if (stride_ok && n > 1) { length_type mx = (e - 1) / (n - 1); st = 1 + (s % 3 ? 0 : (s / 3) % mx); }
  else if (stride_ok) st = 1 + s % 3;
  length_type span = n ? (n - 1) * st + 1 : 0;
  length_type room = e > span ? e - span : 0;
  index_type first = a.below(room + 1);
  return Domain<1>(first, st, n);
}

// iterate over a D-dimensional box
template <dimension_type D, typename F>
inline void for_box(length_type const *e, F &f)
{
  index_type i[3];
  for (i[0] = 0; i[0] < e[0]; ++i[0])
    for (i[1] = 0; i[1] < (D > 1 ? e[1] : 1); ++i[1])
      for (i[2] = 0; i[2] < (D > 2 ? e[2] : 1); ++i[2]) f(i);
}
} // namespace wl
#endif
