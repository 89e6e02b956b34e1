// Memory pools: objects take memory from the allocator that is in effect, keep
// to it for their whole life and give back exactly what they took, whatever
// happens to the default in the meantime, in whichever thread they end, and
// also if a pool runs dry half way through making an object.
#include "common.hpp"
#include <vsip/dense.hpp>
#include <vsip/dda.hpp>
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/dda/runtime.hpp>
#include <mpi.h>
#include <fftw3.h>
#include <new>
#include <map>
#include <algorithm>

using namespace wl;
using ovxx::Strided;

namespace
{
enum { OP_MAKE, OP_DROP, OP_USE, OP_COPY, OP_DEFAULT, OP_POOL, OP_CLOSE, OP_THREAD, OP_RESTART, OP_REDIST, OP_ALIAS, NOPS };
int const weights[] = { 8, 4, 6, 4, 5, 2, 3, 3, 1, 3, 3 };
enum { PR_DRY, PR_OTHER, PR_CLOSED, PR_THREAD, PR_RESTART, PR_HALF, PR_LAST };
typedef vsip::complex<float> cf;

// A pool of the program.  Fresh memory holds NaNs and every block of memory is
// guarded by the simulator; nothing may come back that was not taken here, or
// with another size than it was taken with.
struct Pool : ovxx::allocator
{
  int id; long fuse; size_t bytes; std::map<void *, size_t> live; bool refused;
  long taken;
  explicit Pool(int i) : id(i), fuse(-1), bytes(0), refused(false), taken(0) {}
private:
  void *allocate(size_t size)
  {
    Oracle o_;
    if (fuse >= 0 && fuse-- == 0) { refused = true; throw std::bad_alloc(); }
    void *p = 0;
    if (posix_memalign(&p, OVXX_ALLOC_ALIGNMENT, size ? size : 1)) abort();
    memset(p, 0xff, size);
    live[p] = size; bytes += size; ++taken;
    return p;
  }
  void deallocate(void *p, size_t size)
  {
    Oracle o_;
    if (!p) return;
    std::map<void *, size_t>::iterator i = live.find(p);
    if (i == live.end()) sim_fail("bad-free", "memory is given to pool %d that is not out of this pool", id);
    if (i->second != size) sim_fail("bad-free", "%lu bytes are given back to pool %d, but %lu were taken", (unsigned long)size, id, (unsigned long)i->second);
    sim_check_heap(p);
    memset(p, 0xff, size);
    live.erase(i); bytes -= size;
    free(p);
  }
};
enum { NP = 5 };
struct World;

struct Obj
{
  struct Group { size_t held[NP]; int users; unsigned may; Group() : users(1), may(0) { memset(held, 0, sizeof held); } };
  std::shared_ptr<Group> g;            // an object and its copies may share memory: bytes taken from each pool,
                                       // and the pools it may keep to
  Obj() : g(new Group) {}
  virtual ~Obj() {}
  virtual void use(Args &) = 0;        // change it and look at it
  virtual void check() = 0;
  virtual Obj *copy() { return 0; }
  virtual void redist(unsigned) {}
  virtual bool grows() const { return false; }   // may take memory later on
};

std::unique_ptr<Pool> pools[NP];       // a slot may be empty
std::vector<std::unique_ptr<Obj> > objs;
int deflt;                             // slot of the default pool; -1: the library's own
ovxx::allocator *own;                  // the library's own pool
std::unique_ptr<vsip::vsipl> lib;

void wrong(char const *what, double got, double want) { sim_fail("wrong-value", "%s is %g, should be %g", what, got, want); }

// -- the bytes out of each pool
struct Usage
{
  size_t b[NP];
  Usage() { for (int p = 0; p < NP; ++p) b[p] = pools[p] ? pools[p]->bytes : 0; }
};

// -- views ---------------------------------------------------------------
template <typename T, dimension_type D, typename B> struct ViewObj : Obj
{
  typedef typename Mk<D>::template view<T, B>::type V;
  std::unique_ptr<V> v; Model<T, D> m;
  ViewObj() {}
  ViewObj(length_type const *e, unsigned tag)
  {
    v.reset(make(e, (typename B::map_type *)0));
    m.init(e); fill(tag);
  }
  V *make(length_type const *e, Local_map *) { return mk(e, (V *)0); }
  template <typename M> V *make(length_type const *e, M *) { return new V(Mk<D>::template make<V>(e, M(num_processors()))); }
  template <typename X, typename Y> static Vector<X, Y> *mk(length_type const *e, Vector<X, Y> *) { return new Vector<X, Y>(e[0]); }
  template <typename X, typename Y> static Matrix<X, Y> *mk(length_type const *e, Matrix<X, Y> *) { return new Matrix<X, Y>(e[0], e[1]); }
  template <typename X, typename Y> static Tensor<X, Y> *mk(length_type const *e, Tensor<X, Y> *) { return new Tensor<X, Y>(e[0], e[1], e[2]); }
  void fill(unsigned tag)
  {
    m.fill(tag);
    each([&](index_type const *i) { put(*v, i, m.get(i)); });
  }
  template <typename F> void each(F f)
  {
    index_type i[3];
    for (i[0] = 0; i[0] < m.ext[0]; ++i[0]) for (i[1] = 0; i[1] < m.ext[1]; ++i[1]) for (i[2] = 0; i[2] < m.ext[2]; ++i[2]) f(i);
  }
  void check()
  {
    each([&](index_type const *i) { T g = get(*v, i), w = m.get(i); if (!(g == w)) wrong("an element of a view", re(g), re(w)); });
  }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    switch (a.below(4))
    {
      case 0: fill(tag); break;
      case 1: *v = *v + T(1); each([&](index_type const *i) { m.at(i) = m.get(i) + T(1); }); break;
      case 2: *v = T(int(tag % 50)); each([&](index_type const *i) { m.at(i) = T(int(tag % 50)); }); break;
      default: data(tag, std::is_same<typename B::map_type, Local_map>()); break;
    }
  }
  void data(unsigned, std::false_type) {}
  void data(unsigned tag, std::true_type)             // access to a copy of another format
  {
    typedef Layout<D, typename ovxx::col_major<D>::type, dense, ovxx::is_complex<T>::value ? split_complex : array> L;
    typedef dda::Data<B, dda::inout, L> A;
    typedef ovxx::storage_traits<T, L::storage_format> st;
    A d(v->block());
    each([&](index_type const *i)
    {
      stride_type o = 0;
      for (dimension_type k = 0; k < D; ++k) o += d.stride(k) * stride_type(i[k]);
      T g = st::get(d.ptr(), o), w = m.get(i);
      if (!(g == w)) wrong("an element in accessed memory", re(g), re(w));
      T n = Val<T>::make(hashu(tag, m.flat(i)));
      st::put(d.ptr(), o, n); m.at(i) = n;
    });
  }
  Obj *copy()                                          // a new view with the same elements
  {
    std::unique_ptr<ViewObj> o(new ViewObj);
    o->v.reset(make(m.ext, (typename B::map_type *)0));
    *o->v = *v; o->m = m;
    return o.release();
  }
};

// -- memory of the program: a block of another format keeps a copy ------------
// (formats: 0 the values, 1 interleaved parts, 2 split parts)
template <typename T> struct Mem
{
  std::vector<T> v;
  void lay(int, std::vector<T> const &m) { v = m; }
  T at(int, index_type k) const { return v[k]; }
  template <typename B> B *make(int, length_type n) { return new B(Domain<1>(n), v.data()); }
  template <typename B> void bind(B &b, int) { b.rebind(v.data()); }
  template <typename B> void bind(B &b, int, length_type n) { b.rebind(v.data(), Domain<1>(n)); }
};
template <> struct Mem<cf>
{
  std::vector<cf> v; std::vector<float> r, i;
  void lay(int f, std::vector<cf> const &m)
  {
    size_t n = m.size(); v.assign(n, cf(-7, -7)); r.assign(2 * n, -8); i.assign(n, -9);
    for (size_t k = 0; k < n; ++k)
      if (f == 0) v[k] = m[k]; else if (f == 1) { r[2 * k] = m[k].real(); r[2 * k + 1] = m[k].imag(); } else { r[k] = m[k].real(); i[k] = m[k].imag(); }
  }
  cf at(int f, index_type k) const { return f == 0 ? v[k] : f == 1 ? cf(r[2 * k], r[2 * k + 1]) : cf(r[k], i[k]); }
  template <typename B> B *make(int f, length_type n)
  {
    if (f == 0) return new B(Domain<1>(n), v.data());
    if (f == 1) return new B(Domain<1>(n), r.data());
    return new B(Domain<1>(n), std::make_pair(r.data(), i.data()));
  }
  template <typename B> void bind(B &b, int f)
  { if (f == 0) b.rebind(v.data()); else if (f == 1) b.rebind(r.data()); else b.rebind(r.data(), i.data()); }
  template <typename B> void bind(B &b, int f, length_type n)
  { if (f == 0) b.rebind(v.data(), Domain<1>(n)); else if (f == 1) b.rebind(r.data(), Domain<1>(n)); else b.rebind(r.data(), i.data(), Domain<1>(n)); }
};
template <typename T, typename B> struct UserObj : Obj
{
  Mem<T> u; std::unique_ptr<B> b; std::vector<T> m; int f; bool admitted;
  static int form(unsigned t) { return ovxx::is_complex<T>::value ? t % 3 : 0; }
  UserObj(length_type n, unsigned tag) : m(n), f(form(tag)), admitted(false)
  {
    fill(tag); u.lay(f, m);
    b.reset(u.template make<B>(f, n));
  }
  void fill(unsigned tag) { for (index_type k = 0; k < m.size(); ++k) m[k] = Val<T>::make(hashu(tag, k)); }
  bool grows() const { return true; }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    switch (a.below(3))
    {
      case 0: if (!admitted) { b->admit(true); admitted = true; } break;
      case 1: if (admitted) { b->release(true); admitted = false; } break;
      default:
        if (!admitted)                                 // other memory, of another format
        {
          Mem<T> old; std::swap(old, u);               // the old memory stays until the block has let go of it
          f = form(tag / 4);
          if (tag & 2) m.resize(1 + hashu(tag, 77) % 9);  // and of another size
          fill(tag); u.lay(f, m);
          if (tag & 2) u.bind(*b, f, m.size()); else u.bind(*b, f);
        }
        else { fill(tag); for (index_type k = 0; k < m.size(); ++k) b->put(k, m[k]); }
    }
  }
  void check()
  {
    for (index_type k = 0; k < m.size(); ++k)
    {
      T g = admitted ? b->get(k) : u.at(f, k);
      if (g != m[k]) wrong("an element of a block with memory of the program", re(g), re(m[k]));
    }
  }
};

// -- data access that lasts ---------------------------------------------------
struct DataObj : Obj
{
  typedef Dense<2, float> B;
  typedef Layout<2, col2_type, dense, array> L;
  typedef dda::Data<B, dda::inout, L> A;
  Matrix<float, B> v; std::vector<float> m; std::unique_ptr<A> d;
  DataObj(length_type r, length_type c, unsigned tag) : v(r, c), m(r * c)
  {
    for (index_type k = 0; k < r * c; ++k) { m[k] = Val<float>::make(hashu(tag, k)); v.put(k / c, k % c, m[k]); }
    d.reset(new A(v.block()));
  }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    for (index_type k = 0; k < m.size(); ++k) { m[k] = Val<float>::make(hashu(tag, k)); d->ptr()[(k / v.size(1)) * d->stride(0) + (k % v.size(1)) * d->stride(1)] = m[k]; }
    if (a.below(2)) { d->sync_out(); for (index_type k = 0; k < m.size(); ++k) if (v.get(k / v.size(1), k % v.size(1)) != m[k]) wrong("a written element", v.get(k / v.size(1), k % v.size(1)), m[k]); }
  }
  void check()
  {
    for (index_type k = 0; k < m.size(); ++k)
    { float g = d->ptr()[(k / v.size(1)) * d->stride(0) + (k % v.size(1)) * d->stride(1)]; if (g != m[k]) wrong("an element in accessed memory", g, m[k]); }
  }
};

// access with a layout chosen at run time
struct RtObj : Obj
{
  typedef Dense<2, cf> B;
  typedef ovxx::dda::Rt_data<B, dda::inout> A;
  Matrix<cf, B> v; std::vector<cf> m; bool split; std::unique_ptr<A> d;
  RtObj(length_type r, length_type c, unsigned tag, bool s) : v(r, c), m(r * c), split(s)
  {
    for (index_type k = 0; k < r * c; ++k) { m[k] = Val<cf>::make(hashu(tag, k)); v.put(k / c, k % c, m[k]); }
    ovxx::Rt_layout<2> l(dense, ovxx::Rt_tuple(1, 0, 2), split ? split_complex : array, 0);
    d.reset(new A(v.block(), l));
  }
  ptrdiff_t at(index_type k) { return (k / v.size(1)) * d->stride(0) + (k % v.size(1)) * d->stride(1); }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    for (index_type k = 0; k < m.size(); ++k)
    {
      m[k] = Val<cf>::make(hashu(tag, k));
      if (split) { std::pair<float *, float *> p = d->ptr().template as<split_complex>(); p.first[at(k)] = m[k].real(); p.second[at(k)] = m[k].imag(); }
      else d->ptr().template as<array>()[at(k)] = m[k];
    }
  }
  void check()
  {
    for (index_type k = 0; k < m.size(); ++k)
    {
      cf g;
      if (split) { std::pair<float *, float *> p = d->ptr().template as<split_complex>(); g = cf(p.first[at(k)], p.second[at(k)]); }
      else g = d->ptr().template as<array>()[at(k)];
      if (g != m[k]) wrong("an element in memory accessed with a layout chosen at run time", g.real(), m[k].real());
    }
  }
};

// access into memory of the program: nothing is taken from a pool
struct BufObj : Obj
{
  typedef Dense<2, cf> B;
  typedef ovxx::dda::Rt_data<B, dda::inout> A;
  Matrix<cf, B> v; std::vector<cf> m; std::vector<float> b0, b1; bool split;
  BufObj(length_type r, length_type c, unsigned tag, bool s) : v(r, c), m(r * c), b0(2 * r * c), b1(r * c), split(s)
  { for (index_type k = 0; k < r * c; ++k) { m[k] = Val<cf>::make(hashu(tag, k)); v.put(k / c, k % c, m[k]); } }
  void use(Args &a)
  {
    unsigned tag = a.raw(); bool again = a.below(2);
    Usage u;
    {
      ovxx::Rt_layout<2> l(dense, ovxx::Rt_tuple(1, 0, 2), split ? split_complex : array, 0);
      ovxx::pointer<cf> buf = split ? ovxx::pointer<cf>(std::make_pair(b0.data(), b1.data())) : ovxx::pointer<cf>(reinterpret_cast<cf *>(b0.data()));
      A d(v.block(), l, buf);
      for (int pass = 0; pass <= int(again); ++pass)
      {
        for (index_type k = 0; k < m.size(); ++k)
        {
          ptrdiff_t o = (k / v.size(1)) * d.stride(0) + (k % v.size(1)) * d.stride(1);
          cf g = split ? cf(b0[o], b1[o]) : cf(b0[2 * o], b0[2 * o + 1]);
          if (g != m[k]) wrong("an element in the given memory", g.real(), m[k].real());
          m[k] = Val<cf>::make(hashu(tag + pass, k));
          if (split) { b0[o] = m[k].real(); b1[o] = m[k].imag(); } else { b0[2 * o] = m[k].real(); b0[2 * o + 1] = m[k].imag(); }
        }
        if (!pass && again) { d.sync_out(); d.sync_in(); }
      }
    }
    Usage n;
    for (int p = 0; p < NP; ++p) if (n.b[p] != u.b[p]) sim_fail("memory-leak", "access into given memory: the bytes taken from pool %d changed", p);
  }
  void check()
  { for (index_type k = 0; k < m.size(); ++k) if (v.get(k / v.size(1), k % v.size(1)) != m[k]) wrong("an element of a matrix accessed in given memory", v.get(k / v.size(1), k % v.size(1)).real(), m[k].real()); }
};

// -- objects with memory of their own -------------------------------------------
struct FirObj : Obj
{
  typedef Fir<float> F;
  length_type kl, fl; std::vector<float> k, all; std::unique_ptr<F> f;
  FirObj(length_type l, length_type n, unsigned tag) : kl(l), fl(n), k(l)
  {
    Vector<float> kv(kl);
    for (index_type i = 0; i < kl; ++i) { k[i] = int(hashu(tag, i) % 9) - 4; kv.put(i, k[i]); }
    f.reset(new F(kv, fl));
  }
  FirObj(FirObj const &o) : Obj(), kl(o.kl), fl(o.fl), k(o.k), all(o.all), f(new F(*o.f)) {}
  Obj *copy() { return new FirObj(*this); }
  bool grows() const { return true; }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    Vector<float> in(fl), out(fl);
    size_t base = all.size();
    for (index_type i = 0; i < fl; ++i) { float x = int(hashu(tag, i) % 9) - 4; all.push_back(x); in.put(i, x); }
    (*f)(in, out);
    for (index_type i = 0; i < fl; ++i)
    {
      float w = 0;
      for (index_type j = 0; j < kl; ++j) if (base + i >= j) w += k[j] * all[base + i - j];
      if (out.get(i) != w) wrong("output of a filter", out.get(i), w);
    }
  }
  void check() {}
};
struct FftObj : Obj
{
  typedef Fft<const_Vector, cf, cf, fft_fwd, by_reference, 1> F;
  length_type n; std::unique_ptr<F> f;
  explicit FftObj(length_type nn) : n(nn), f(new F(Domain<1>(nn), 1.f)) {}
  bool grows() const { return true; }
  void use(Args &a)
  {
    Vector<cf, Strided<1, cf, Layout<1, row1_type, dense, split_complex> > > x(n);
    Vector<cf> y(n);
    index_type at = a.below(n);
    x = cf(0); x.put(at, cf(2, 0));
    (*f)(x, y);
    for (index_type i = 0; i < n; ++i)
    {
      double t = -2 * 3.14159265358979 * double(i * at % n) / n; cf w(2 * cos(t), 2 * sin(t)), g = y.get(i);
      if (!(fabs(g.real() - w.real()) < 1e-4 && fabs(g.imag() - w.imag()) < 1e-4)) wrong("a transformed value", g.real(), w.real());
    }
  }
  void check() {}
};
struct LudObj : Obj
{
  length_type n; std::unique_ptr<lud<float, by_reference> > l; std::vector<float> d;
  LudObj(length_type nn, unsigned tag) : n(nn), l(new lud<float, by_reference>(nn)), d(nn)
  {
    int const armed = fuses(0);
    Matrix<float> m(n, n, 0.f);
    for (index_type i = 0; i < n; ++i) { d[i] = 1 + hashu(tag, i) % 7; m.put(i, (i + 1) % n, d[i]); }
    l->decompose(m);
    fuses(armed);
  }
  LudObj(LudObj const &o) : Obj(), n(o.n), l(new lud<float, by_reference>(*o.l)), d(o.d) {}
  static int fuses(int on)                             // a pool cannot run dry where the library may not fail
  {
    static long saved[NP];
    for (int p = 0; p < NP; ++p) if (pools[p]) { if (!on) { saved[p] = pools[p]->fuse; pools[p]->fuse = -1; } else pools[p]->fuse = saved[p]; }
    return 1;
  }
  Obj *copy() { return new LudObj(*this); }
  bool grows() const { return true; }
  void use(Args &a)
  {
    unsigned tag = a.raw();
    Matrix<float, Dense<2, float, col2_type> > b(n, 2), x(n, 2);
    for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < 2; ++j) b.put(i, j, d[i] * (int(hashu(tag + j, i) % 21) - 10));
    if (!l->solve<mat_ntrans>(b, x)) wrong("success of solving", 0, 1);
    for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < 2; ++j)
    { float w = int(hashu(tag + j, i) % 21) - 10, g = x.get((i + 1) % n, j); if (!(fabs(g - w) < 1e-3)) wrong("an element of a solution", g, w); }
  }
  void check() {}
};

enum { NKINDS = 19 };
typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SplitB;
typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > InterB;
Obj *make(int kind, Args &a)
{
  unsigned tag = a.raw();
  length_type e[3] = { 1 + length_type(a.below(7)), 1 + length_type(a.below(5)), 1 + length_type(a.below(3)) };
  bool sp = a.below(2);
  switch (kind)
  {
    case 0: return new ViewObj<float, 1, Dense<1, float> >(e, tag);
    case 1: return new ViewObj<cf, 2, Dense<2, cf, col2_type> >(e, tag);
    case 2: return new ViewObj<float, 3, Dense<3, float> >(e, tag);
    case 3: return new ViewObj<cf, 2, Strided<2, cf, Layout<2, row2_type, dense, split_complex> > >(e, tag);
    case 4: return new ViewObj<float, 2, Strided<2, float, Layout<2, row2_type, aligned_32, array> > >(e, tag);
    case 5: return new ViewObj<cf, 1, Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > >(e, tag);
    case 6: return new ViewObj<float, 1, Dense<1, float, row1_type, Map<> > >(e, tag);
    case 7: return new ViewObj<cf, 2, Dense<2, cf, row2_type, Map<Cyclic_dist, Block_dist> > >(e, tag);
    case 8: return new UserObj<cf, Dense<1, cf> >(e[0], tag);
    case 9: return new DataObj(e[0], e[1], tag);
    case 10: { length_type kl = 2 + e[1]; return new FirObj(kl, kl + e[0], tag); }
    case 11: return new FftObj(2 + e[0]);
    case 12: return new LudObj(e[0], tag);
    case 13: return new RtObj(e[0], e[1], tag, sp);
    case 14: return new UserObj<float, Dense<1, float> >(e[0], tag);
    case 15: return new UserObj<cf, SplitB>(e[0], tag);
    case 16: return new UserObj<cf, InterB>(e[0], tag);
    case 17: return new BufObj(e[0], e[1], tag, sp);
    default: return new ViewObj<double, 1, Dense<1, double> >(e, tag);
  }
}
// kinds every processor has to make together
bool collective(int k) { return k == 6 || k == 7; }

// -- the state of the pools ---------------------------------------------------------
void account(char const *when)
{
  for (int p = 0; p < NP; ++p)
  {
    if (!pools[p]) continue;
    size_t want = 0;
    std::vector<Obj::Group *> seen;
    for (size_t k = 0; k < objs.size(); ++k)
    {
      Obj::Group *g = objs[k]->g.get();
      if (std::find(seen.begin(), seen.end(), g) == seen.end()) { seen.push_back(g); want += g->held[p]; }
    }
    if (pools[p]->bytes != want)
      sim_fail("memory-leak", "%s: %lu bytes of pool %d are out, its objects hold %lu", when, (unsigned long)pools[p]->bytes, p, (unsigned long)want);
  }
}
void same(Usage const &u, char const *when)
{
  Usage n;
  for (int p = 0; p < NP; ++p)
    if (n.b[p] != u.b[p]) sim_fail("memory-leak", "%s: the bytes taken from pool %d changed from %lu to %lu", when, p, (unsigned long)u.b[p], (unsigned long)n.b[p]);
}
// what an object took while it was made is out of the default pool
void born(Obj *o, Usage const &u, int from, char const *when)
{
  Usage n;
  for (int p = 0; p < NP; ++p)
  {
    if (n.b[p] < u.b[p]) sim_fail("bad-free", "%s: memory went back to pool %d", when, p);
    o->g->held[p] = n.b[p] - u.b[p];
    if (o->g->held[p] && p != from) sim_fail("wrong-value", "%s: memory was taken from pool %d, the default is %d", when, p, from);
  }
  if (from >= 0) o->g->may |= 1u << from;
}
void grown(Obj *o, Usage const &u, int from, char const *when)
{
  Usage n;
  for (int p = 0; p < NP; ++p)
  {
    if (n.b[p] == u.b[p]) continue;
    if (!o->grows()) sim_fail("memory-leak", "%s: the bytes taken from pool %d changed from %lu to %lu", when, p, (unsigned long)u.b[p], (unsigned long)n.b[p]);
    // an object keeps to its pool
    if (n.b[p] > u.b[p] && p != from && !(o->g->may >> p & 1)) sim_fail("wrong-value", "%s: memory was taken from pool %d", when, p);
    if (u.b[p] > n.b[p] && o->g->held[p] < u.b[p] - n.b[p]) sim_fail("bad-free", "%s: more went back to pool %d than the object held", when, p);
    if (n.b[p] > u.b[p]) o->g->may |= 1u << p;
    o->g->held[p] += n.b[p] - u.b[p];
  }
}
void effective(char const *when)
{
  ovxx::allocator *want = deflt < 0 ? own : pools[deflt].get();
  if (ovxx::allocator::get_default() != want) sim_fail("wrong-value", "%s: the default pool is not the one that was chosen", when);
}

struct Handover { Obj *o; int pool; int kind; SimOp const *op; int skip; bool restore; };
void in_thread(void *p)
{
  Handover &h = *(Handover *)p;
  vsip::vsipl mine;
  if (ovxx::allocator::get_default() != own) sim_fail("wrong-value", "a new thread starts with another default pool than the library's own");
  if (h.pool >= 0) ovxx::allocator::set_default(pools[h.pool].get());
  Args a(*h.op); a.n = h.skip;
  Usage u;
  h.o = make(h.kind, a);
  born(h.o, u, h.pool, "object of another thread");
  h.o->check();
}
struct End { Obj *o; };
void end_in_thread(void *p)
{
  End &e = *(End *)p;
  vsip::vsipl mine;
  delete e.o; e.o = 0;
}
void drop(size_t k, bool thread)
{
  Usage u;
  std::unique_ptr<Obj> o;
  o.swap(objs[k]); objs[k].swap(objs.back()); objs.pop_back();
  std::shared_ptr<Obj::Group> g = o->g;
  if (thread) { End e = { o.release() }; sim_join(sim_spawn(end_in_thread, &e)); }
  else o.reset();
  Usage n;
  --g->users;
  for (int p = 0; p < NP; ++p)
  {
    if (!pools[p]) continue;
    size_t back = u.b[p] - n.b[p];
    if (n.b[p] > u.b[p] || back > g->held[p] || (!g->users && back != g->held[p]))
      sim_fail("memory-leak", "%s that held %lu bytes of pool %d gave back %ld", g->users ? "an object with copies" : "an object", (unsigned long)g->held[p], p, long(back));
    g->held[p] -= back;
  }
}

void run(SimProg const *p)
{
  for (int n = 1; n < p->nops; ++n)
  {
    Args a(p->ops[n]);
    sim_event("op %d code %d", n, p->ops[n].code);
    switch (p->ops[n].code)
    {
      case OP_MAKE:
      {
        if (objs.size() >= 8) break;
        int kind = a.below(NKINDS), dry = a.below(4); long fuse = a.below(5);
        Usage u;
        Pool *d = deflt < 0 ? 0 : pools[deflt].get();
        bool fails = dry == 0 && d && !collective(kind);
        Obj *o = 0;
        if (fails) { d->fuse = fuse; d->refused = false; }
        int at = a.n;
        try { o = make(kind, a); }
        catch (std::bad_alloc const &)
        {
          if (!fails || !d->refused) sim_fail("uncaught-exception", "memory ran out although the pool had some");
          sim_probe(PR_DRY); if (fuse) sim_probe(PR_HALF);
        }
        if (d) d->fuse = -1;
        if (!o)
        {
          same(u, "after a pool ran dry while an object was made");
          a.n = at; o = make(kind, a);                 // once there is memory again it works
        }
        else if (fails && d->refused) sim_fail("error-not-reported", "an object was made although its pool had run dry");
        born(o, u, deflt, "new object");
        objs.push_back(std::unique_ptr<Obj>(o));
        o->check();
        break;
      }
      case OP_DROP:
      {
        bool thread = a.below(4) == 0;
        if (objs.empty()) break;
        size_t k = a.below(objs.size());
        for (int q = 0; q < NP; ++q) if (objs[k]->g->held[q] && q != deflt) sim_probe(PR_OTHER);
        drop(k, thread);
        break;
      }
      case OP_USE:
      {
        if (objs.empty()) break;
        Obj *o = objs[a.below(objs.size())].get();
        Usage u;
        o->use(a);
        grown(o, u, deflt, "use of an object");
        break;
      }
      case OP_COPY:
      {
        if (objs.empty() || objs.size() >= 8) break;
        size_t k = a.below(objs.size());
        int dry = a.below(3); long fuse = a.below(4);
        Usage u;
        Pool *d = deflt < 0 ? 0 : pools[deflt].get();
        Obj *o = 0;
        bool fails = dry == 0 && d && sim_nranks() == 1;
        if (fails) { d->fuse = fuse; d->refused = false; }
        bool ran_dry = false;
        // assigning the elements of a new view may not fail: only the copies of other objects meet a dry pool
        bool view = !objs[k]->grows();
        if (view && d) d->fuse = -1;
        try { o = objs[k]->copy(); }
        catch (std::bad_alloc const &) { ran_dry = true; if (!fails || view) sim_fail("uncaught-exception", "memory ran out although the pool had some"); sim_probe(PR_DRY); }
        if (d) d->fuse = -1;
        if (ran_dry) { same(u, "after a pool ran dry while an object was copied"); o = objs[k]->copy(); }
        if (!o) { same(u, "an object that cannot be copied"); break; }
        Usage un;
        for (int q = 0; q < NP; ++q)
        {
          if (un.b[q] < u.b[q]) sim_fail("bad-free", "copying an object gave memory back to pool %d", q);
          (objs[k]->grows() ? objs[k].get() : o)->g->held[q] += un.b[q] - u.b[q];
          if (un.b[q] > u.b[q] && q != deflt && !(objs[k]->g->may >> q & 1)) sim_fail("wrong-value", "copying an object took memory from pool %d", q);
        }
        if (objs[k]->grows()) { o->g = objs[k]->g; ++o->g->users; }
        if (deflt >= 0) o->g->may |= 1u << deflt;
        objs.push_back(std::unique_ptr<Obj>(o));
        o->check();
        break;
      }
      case OP_DEFAULT:
      {
        int to = a.below(NP + 1) - 1;
        if (to >= 0 && !pools[to]) break;
        deflt = to;
        ovxx::allocator::set_default(to < 0 ? own : pools[to].get());
        break;
      }
      case OP_POOL:
      {
        for (int q = 0; q < NP; ++q) if (!pools[q]) { pools[q].reset(new Pool(q)); break; }
        break;
      }
      case OP_CLOSE:                                   // a pool with nothing out can go
      {
        int q = a.below(NP);
        if (!pools[q] || q == deflt) break;
        bool needed = false;
        for (size_t k = 0; k < objs.size(); ++k) needed = needed || (objs[k]->g->may >> q & 1);
        if (needed) break;
        if (pools[q]->bytes) sim_fail("memory-leak", "memory is still out of pool %d after all of its objects ended", q);
        if (!pools[q]->live.empty()) sim_fail("memory-leak", "pieces without size are still out of pool %d", q);
        if (pools[q]->taken) sim_probe(PR_CLOSED);
        pools[q].reset();
        break;
      }
      case OP_THREAD:                                  // the default is a matter of each thread
      {
        Handover h;
        h.kind = a.below(NKINDS); h.pool = a.below(NP + 1) - 1;
        if (objs.size() >= 8 || collective(h.kind)) break;
        if (h.pool >= 0 && !pools[h.pool]) h.pool = -1;
        h.o = 0; h.op = &p->ops[n]; h.skip = a.n;
        sim_join(sim_spawn(in_thread, &h));
        objs.push_back(std::unique_ptr<Obj>(h.o));
        sim_probe(PR_THREAD);
        break;
      }
      case OP_RESTART:                                 // the library starts with its own pool
      {
        while (!objs.empty()) drop(objs.size() - 1, false);
        { vsip::vsipl nested; effective("with another library object"); }
        effective("after another library object ended");
        lib.reset(); lib.reset(new vsip::vsipl);
        deflt = -1;
        effective("after the library started again");
        sim_probe(PR_RESTART);
        break;
      }
      case OP_REDIST:                                  // moving distributed data needs memory for a while only
      {
        length_type len = 1 + a.below(40); unsigned tag = a.raw(); length_type cs = 1 + a.below(3); int order = a.below(3);
        Usage u;
        {
          typedef Vector<float, Dense<1, float, row1_type, Map<> > > DB;
          typedef Vector<float, Dense<1, float, row1_type, Map<Cyclic_dist> > > DC;
          Map<> mb(num_processors()); Map<Cyclic_dist> mc(Cyclic_dist(num_processors(), cs));
          std::unique_ptr<DB> x(new DB(len, mb));
          if (order == 1 && deflt >= 0) ovxx::allocator::set_default(own);
          DC y(len, mc);
          for (index_type i = 0; i < len; ++i) x->put(i, int(hashu(tag, i) % 50));
          y = *x;
          if (order == 2) x.reset();
          float want = 0;
          for (index_type i = 0; i < len; ++i) want += int(hashu(tag, i) % 50);
          float got = sumval(y);
          if (got != want) wrong("sum of a redistributed vector", got, want);
        }
        ovxx::allocator::set_default(deflt < 0 ? own : pools[deflt].get());
        same(u, "after moving distributed data");
        break;
      }
      case OP_ALIAS:                                   // parts and handles share memory, the last one gives it back
      {
        length_type r = 1 + a.below(5), c = 1 + a.below(5); unsigned tag = a.raw(); int first = a.below(3), other = a.below(2);
        Usage u;
        {
          typedef Matrix<float> M;
          std::unique_ptr<M> m(new M(r, c));
          Usage with;
          for (index_type i = 0; i < r * c; ++i) m->put(i / c, i % c, int(hashu(tag, i) % 50));
          std::unique_ptr<M> h(new M(*m));
          M::row_type row = m->row(r - 1);
          M::transpose_type t = m->transpose();
          same(with, "another handle or part of a view");
          if (other && deflt >= 0) ovxx::allocator::set_default(own);
          if (first != 1) m.reset();
          if (first != 2) h.reset();
          same(with, "a handle that is not the last one went away");
          for (index_type j = 0; j < c; ++j)
          {
            float w = int(hashu(tag, (r - 1) * c + j) % 50);
            if (row.get(j) != w) wrong("an element of a row", row.get(j), w);
            if (t.get(j, r - 1) != w) wrong("an element of a transpose", t.get(j, r - 1), w);
          }
        }
        ovxx::allocator::set_default(deflt < 0 ? own : pools[deflt].get());
        same(u, "after the last handle went away");
        sim_probe(PR_LAST);
        break;
      }
    }
    effective("after an operation");
    account("after an operation");
    for (size_t k = 0; k < objs.size(); ++k) objs[k]->check();
  }
}
}
extern "C" {
struct SimInfo const wl_info = { "pool", 1, 3, 3, 24, NOPS, weights, 0, 0 };

void wl_rank(struct SimProg const *p, int)
{
  MPI_Init(0, 0);
  long before = 0;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  lib.reset(new vsip::vsipl);
  own = ovxx::allocator::get_default();
  deflt = -1;
  {
    Args a(p->ops[0]);
    int k = a.below(NP);
    for (int q = 0; q <= k; ++q) pools[q].reset(new Pool(q));
    deflt = a.below(k + 2) - 1;
    if (deflt >= 0) ovxx::allocator::set_default(pools[deflt].get());
  }
  run(p);
  while (!objs.empty()) drop(objs.size() - 1, false);
  account("at the end");
  for (int q = 0; q < NP; ++q)
  {
    if (pools[q] && (pools[q]->bytes || !pools[q]->live.empty())) sim_fail("memory-leak", "memory is still out of pool %d at the end", q);
    if (q != deflt) pools[q].reset();
  }
  std::vector<std::unique_ptr<Obj> >().swap(objs);
  lib.reset();
  for (int q = 0; q < NP; ++q) pools[q].reset();
  fftwf_cleanup();
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over at the end", sim_live_allocs() - before);
  sim_check_all_heap();
  MPI_Finalize();
}
}
