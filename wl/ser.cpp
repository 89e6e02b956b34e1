// Data that leave one program as bytes and a description, and are made blocks
// of again elsewhere: several processors pass arrays on to each other, each
// time from another view of what they have, in another format and dimension
// order; what arrives must be refused or be exactly what was sent.
#include "common.hpp"
#include <vsip/serialization.hpp>
#include <vsip/dda.hpp>
#include <vsip/dense.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/parallel/service.hpp>
#include <new>
using namespace wl;
namespace S = vsip::serialization;
namespace ser
{
typedef vsip::complex<float> cf;
typedef vsip::complex<double> cd;
enum { PR_COPIED, PR_SUB, PR_TRANS, PR_USER, PR_REFUSED, PR_REMOTE, PR_SPLIT, PR_INTER, PR_NOMEM, PR_COMPONENT, PR_TENSOR, PR_REBOUND };
extern int nranks, me;
typedef std::vector<char> Bytes;

// What a message carries.
struct Parcel
{
  S::Descriptor d; unsigned dense;      // dense: the bytes follow
  unsigned long n[2]; Bytes b[2];
};
// the strides of dense data in the given order, without looking at dimensions of one element
inline bool dense_in(S::Descriptor const &d, int const *o, bool exact)
{
  long st = 1;
  for (int k = d.dimensions - 1; k >= 0; --k)
  {
    int x = o[k];
    if (d.stride[x] != st && (exact || d.size[x] > 1)) return false;
    st *= d.size[x];
  }
  return true;
}
static int const orders[6][3] = { {0,1,2}, {1,0,2}, {0,2,1}, {1,2,0}, {2,0,1}, {2,1,0} };
inline int norders(int D) { return D == 1 ? 1 : D == 2 ? 2 : 6; }
inline bool dense_any(S::Descriptor const &d, int D)
{ for (int k = 0; k < norders(D); ++k) if (dense_in(d, orders[k], false)) return true; return false; }
template <int K> struct Ord;
template <> struct Ord<0> { typedef tuple<0,1,2> type; };
template <> struct Ord<1> { typedef tuple<1,0,2> type; };
template <> struct Ord<2> { typedef tuple<0,2,1> type; };
template <> struct Ord<3> { typedef tuple<1,2,0> type; };
template <> struct Ord<4> { typedef tuple<2,0,1> type; };
template <> struct Ord<5> { typedef tuple<2,1,0> type; };

// every block type the receiver may ask about
struct Ask { int type, dim, order; bool (*f)(S::Descriptor const &); };
extern std::vector<Ask> *asks;

// Data of one element type and dimension, on one processor.
struct Slot
{
  int type, dim, owner;
  length_type ext[3];
  std::vector<cd> m;
  Slot() : type(0), dim(0), owner(0) { ext[0] = ext[1] = ext[2] = 1; }
  virtual ~Slot() {}
  virtual void check(char const *) {}
  // describe the data as some view, in some layout; the same draws on every processor
  virtual void pack(Parcel &, int view, int layout, unsigned h) { }
  virtual void user(Parcel &) {}
  virtual void change(index_type, cd) {}
  virtual void rebound(Args &) {}
  cd at(index_type const *i) const { return m[(i[0] * ext[1] + i[1]) * ext[2] + i[2]]; }
};
struct Type
{
  int id; bool cplx, integral, uns; int size;
  cd (*value)(unsigned);
  Slot *(*make)(int dim, int order, length_type const *ext, std::vector<cd> const &m);
  Slot *(*restore)(Parcel &, int dim, int order, int how, std::vector<cd> const &m, length_type const *ext);
  unsigned long long code;
};
extern Type types[8];
extern int ntypes;

template <typename T> struct Cast { static T from(cd v) { return T(v.real()); } static cd to(T v) { return cd(double(v), 0); } };
template <typename T> struct Cast<vsip::complex<T> >
{ static vsip::complex<T> from(cd v) { return vsip::complex<T>(v.real(), v.imag()); } static cd to(vsip::complex<T> v) { return cd(v.real(), v.imag()); } };

// What a view shows: index i of the view is index base + i * st of the slot,
// dimensions permuted by perm.
struct Shape
{
  int perm[3]; index_type off[3]; stride_type st[3]; length_type ext[3];
  Shape(Slot const &s, int kind, unsigned h)
  {
    for (int d = 0; d < 3; ++d) { perm[d] = d; off[d] = 0; st[d] = 1; ext[d] = s.ext[d]; }
    if (kind & 1)
      for (int d = 0; d < s.dim; ++d)
      {
        unsigned g = hashu(h, d); int how = g % 5; length_type n = s.ext[d];
        if (how == 0) { off[d] = n - 1; st[d] = -1; }
        else if (how == 1 && n > 2) { st[d] = 2; ext[d] = (n + 1) / 2; }
        else if (how == 2 && n > 1) { off[d] = 1; ext[d] = n - 1; }
        else if (how == 3 && n > 1) { ext[d] = n - 1; }
      }
    if ((kind & 2) && s.dim > 1) std::swap(perm[s.dim - 2], perm[s.dim - 1]);
    if ((kind & 2) && s.dim > 2 && hashu(h, 9) % 2) std::swap(perm[0], perm[1]);
    length_type e[3] = { ext[0], ext[1], ext[2] }; for (int d = 0; d < 3; ++d) ext[d] = e[perm[d]];
  }
  Domain<1> dom(int d, length_type const *full) const { (void)full; int k = 0; while (perm[k] != d) ++k; return Domain<1>(off[d], st[d], ext[k]); }
};
}

#if SER_PART == 0
namespace ser
{
int nranks, me;
Type types[8]; int ntypes;
std::vector<Ask> *asks;

template <int D> struct Sizes { };
enum { OP_NEW, OP_PASS, OP_USER, OP_CHANGE, OP_REBIND, OP_DROP, NOPS };
static int const weights[] = { 4, 12, 5, 3, 2, 1 };

static void send_bytes(int dst, char const *p, unsigned long n, bool buffered)
{
  ovxx::parallel::Communicator c = ovxx::parallel::default_communicator();
  if (buffered) c.buf_send(dst, const_cast<char *>(p), n);
  else { ovxx::parallel::Communicator::request_type r; c.send(dst, const_cast<char *>(p), n, r); c.wait(r); }
}
static void recv_bytes(int src, char *p, unsigned long n) { ovxx::parallel::default_communicator().recv(src, p, n); }
static void ship(Parcel &p, int src, int dst, bool buffered)
{
  if (src == dst) return;
  sim_probe(PR_REMOTE);
  if (me == src)
  {
    unsigned long head[4] = { p.dense, p.n[0], p.n[1], 0 };
    send_bytes(dst, (char *)&p.d, sizeof p.d, buffered); send_bytes(dst, (char *)head, sizeof head, buffered);
    for (int k = 0; k < 2; ++k) if (p.n[k]) send_bytes(dst, p.b[k].data(), p.n[k], buffered);
  }
  else if (me == dst)
  {
    unsigned long head[4];
    recv_bytes(src, (char *)&p.d, sizeof p.d); recv_bytes(src, (char *)head, sizeof head);
    p.dense = head[0]; p.n[0] = head[1]; p.n[1] = head[2];
    for (int k = 0; k < 2; ++k) { p.b[k].resize(p.n[k]); if (p.n[k]) recv_bytes(src, p.b[k].data(), p.n[k]); }
  }
}
// Every block type says yes to what it can hold and to nothing else.
static void ask_all(S::Descriptor const &d, int t, int D)
{
  for (size_t k = 0; k < asks->size(); ++k)
  {
    Ask const &q = (*asks)[k];
    bool got = q.f(d), fits = q.type == t && q.dim == D;
    bool must = fits && dense_in(d, orders[q.order], true), may = fits && dense_in(d, orders[q.order], false);
    if (got ? !may : must)
      sim_fail("wrong-value", "a block of type %d, %d dimensions, order %d %s data of type %d, %d dimensions, sizes %lu %lu %lu, strides %ld %ld %ld", q.type, q.dim, q.order, got ? "accepts" : "refuses",
               t, D, (unsigned long)d.size[0], D > 1 ? (unsigned long)d.size[1] : 0, D > 2 ? (unsigned long)d.size[2] : 0, (long)d.stride[0], D > 1 ? (long)d.stride[1] : 0, D > 2 ? (long)d.stride[2] : 0);
  }
}
static void run(SimProg const *p)
{
  std::vector<std::unique_ptr<Slot> > s;
  for (int n = 0; n < p->nops; ++n)
  {
    Args a(p->ops[n]); int code = p->ops[n].code;
    if (s.empty()) code = OP_NEW;
    if (code == OP_NEW)
    {
      if (s.size() >= 4) continue;
      int t = a.below(ntypes), D = a.range(1, 3), o = a.below(norders(D)), owner = a.below(nranks); unsigned tag = a.raw();
      length_type e[3] = { 1, 1, 1 }; for (int d = 0; d < D; ++d) e[d] = a.extent(D == 1 ? 12 : D == 2 ? 6 : 4, D == 3 ? 2 : 5);
      std::vector<cd> m(e[0] * e[1] * e[2]); for (size_t k = 0; k < m.size(); ++k) m[k] = types[t].value(hashu(tag, k));
      std::unique_ptr<Slot> x(me == owner ? types[t].make(D, o, e, m) : new Slot);
      x->type = t; x->dim = D; x->owner = owner; x->m = m; for (int d = 0; d < 3; ++d) x->ext[d] = e[d];
      s.push_back(std::move(x));
    }
    else
    {
      size_t w = a.below(s.size()); Slot &x = *s[w];
      sim_note("%d: op %d on %d (type %d, %d dimensions, processor %d)", n, code, int(w), x.type, x.dim, x.owner);
      if (code == OP_DROP) { s[w].swap(s.back()); s.pop_back(); }
      else if (code == OP_CHANGE)
      {
        index_type i = a.below(x.m.size()); x.m[i] = types[x.type].value(a.raw());
        if (me == x.owner) x.change(i, x.m[i]);
      }
      else if (code == OP_REBIND) { if (me == x.owner) x.rebound(a); }
      else
      {
        int dst = a.below(nranks), src = x.owner, view = a.below(8), layout = a.below(8), want = a.below(6), how = a.below(4); bool buffered = a.below(2); unsigned h = a.raw();
        Parcel c; c.dense = 0; c.n[0] = c.n[1] = 0; memset(&c.d, 0, sizeof c.d);
        bool user = code == OP_USER, part = !user && view >= 6 && types[x.type].cplx && x.dim < 3;
        if (!user && !part) view %= 4;
        if (part) view = view == 6 ? 4 : 5;
        Shape sh(x, user || part ? 0 : view, h);
        std::vector<cd> m;
        for (index_type i = 0; i < sh.ext[0]; ++i) for (index_type j = 0; j < sh.ext[1]; ++j) for (index_type k = 0; k < sh.ext[2]; ++k)
        {
          index_type v[3] = { i, j, k }, b[3];
          for (int d = 0; d < 3; ++d) b[sh.perm[d]] = sh.off[sh.perm[d]] + v[d] * sh.st[sh.perm[d]];
          cd e = x.at(b);
          m.push_back(part ? cd(view == 4 ? e.real() : e.imag()) : e);
        }
        int t = x.type; if (part) for (int k = 0; k < ntypes; ++k) if (!types[k].cplx && !types[k].integral && types[k].size * 2 == types[x.type].size) t = k;
        if (me == src) { if (user) { sim_probe(PR_USER); x.user(c); } else x.pack(c, view, layout, h); }
        ship(c, src, dst, buffered);
        if (me == dst)
        {
          if (c.d.value_type != types[t].code) sim_fail("wrong-value", "the described type is %llx, not %llx", (unsigned long long)c.d.value_type, types[t].code);
          if (c.d.dimensions != x.dim) sim_fail("wrong-value", "%d dimensions are described, not %d", int(c.d.dimensions), x.dim);
          for (int d = 0; d < x.dim; ++d) if (c.d.size[d] != sh.ext[d]) sim_fail("wrong-value", "size %d is described as %lu, not %lu", d, (unsigned long)c.d.size[d], (unsigned long)sh.ext[d]);
          ask_all(c.d, t, x.dim);
        }
        if (me == dst || me == src)
        {
          if (!c.dense) sim_probe(PR_REFUSED);
        }
        // what arrives replaces what was there; whether it can is known to everybody only through the message
        struct B { int dense; };
        B *b; { Oracle o; b = (B *)sim_blackboard(n, sizeof(B)); }
        if (me == src) b->dense = c.dense;
        ovxx::parallel::default_communicator().barrier();
        if (!b->dense) { for (size_t k = 0; k < s.size(); ++k) s[k]->check("unchanged"); continue; }
        std::unique_ptr<Slot> y;
        if (me == dst)
        {
          int o = -1;
          for (int k = 0; k < norders(x.dim) && o < 0; ++k)
          {
            int q = (k + want) % norders(x.dim);
            if (dense_in(c.d, orders[q], true)) o = q;
          }
          // data with a dimension of one element may be refused by everyone
          if (o >= 0) y.reset(types[t].restore(c, x.dim, o, how, m, sh.ext));
        }
        if (!y) y.reset(new Slot);
        bool none = false;
        {
          struct R { int none; }; R *r; { Oracle o; r = (R *)sim_blackboard(n + 100, sizeof(R)); }
          if (me == dst && y->dim == 0) { int o = -1; for (int k = 0; k < norders(x.dim); ++k) if (dense_in(c.d, orders[k], true)) o = k; r->none = o < 0; }
          ovxx::parallel::default_communicator().barrier();
          none = r->none;
        }
        if (!none)
        {
          y->type = t; y->dim = x.dim; y->owner = dst; y->m = m; for (int d = 0; d < 3; ++d) y->ext[d] = sh.ext[d];
          if (s.size() < 4 && how % 2) s.push_back(std::move(y)); else s[w] = std::move(y);
        }
      }
    }
    for (size_t k = 0; k < s.size(); ++k) { char what[60]; snprintf(what, sizeof what, "object %d after operation %d", int(k), n); s[k]->check(what); }
  }
}
}
extern "C" {
struct SimInfo const wl_info = { "ser", 1, 4, 3, 14, ser::NOPS, ser::weights, SIM_F_ALLOC, 0 };
void wl_rank(struct SimProg const *p, int)
{
  long before;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  {
    vsip::vsipl lib;
    ser::nranks = num_processors(); ser::me = local_processor();
    ser::run(p);
  }
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over at the end", sim_live_allocs() - before);
  sim_check_all_heap();
}
}

#else
namespace ser
{
#if SER_T == 0
typedef float T;
#elif SER_T == 1
typedef cf T;
#elif SER_T == 2
typedef cd T;
#elif SER_T == 3
typedef int T;
#elif SER_T == 4
typedef unsigned char T;
#elif SER_T == 5
typedef short T;
#elif SER_T == 6
typedef double T;
#else
typedef long T;
#endif
namespace
{
bool const cplx = ovxx::is_complex<T>::value;
typedef ovxx::scalar_of<T>::type R;
template <dimension_type D, typename B> struct ViewOf;
template <typename B> struct ViewOf<1, B> { typedef Vector<T, B> type; };
template <typename B> struct ViewOf<2, B> { typedef Matrix<T, B> type; };
template <typename B> struct ViewOf<3, B> { typedef Tensor<T, B> type; };

// Elements of type E at a pointer of any kind.
template <typename E> cd fetch(E const *p, long i) { return Cast<E>::to(p[i]); }
template <typename E> cd fetch(typename ovxx::scalar_of<E>::type const *p, long i, typename std::enable_if<ovxx::is_complex<E>::value>::type * = 0) { return cd(p[2 * i], p[2 * i + 1]); }
template <typename E, typename X> cd fetch(std::pair<X *, X *> p, long i) { return cd(p.first[i], p.second[i]); }
template <typename E, typename X> void bytes(Parcel &c, X const *p, size_t n) { c.n[0] = n * sizeof(E); c.b[0].assign((char const *)p, (char const *)p + c.n[0]); }
template <typename E, typename X> void bytes(Parcel &c, std::pair<X *, X *> p, size_t n)
{
  sim_probe(PR_SPLIT);
  c.n[0] = c.n[1] = n * sizeof(X);
  c.b[0].assign((char const *)p.first, (char const *)p.first + c.n[0]); c.b[1].assign((char const *)p.second, (char const *)p.second + c.n[1]);
}

template <typename L, typename View>
void emit(Parcel &c, View v)
{
  typedef typename View::block_type B; typedef typename B::value_type E;
  typedef vsip::dda::Data<B, vsip::dda::in, L> data_type;
  std::unique_ptr<data_type> d;
  sim_faults_arm(1);
  try { d.reset(new data_type(v.block())); } catch (std::bad_alloc const &) { sim_probe(PR_NOMEM); }
  sim_faults_arm(0);
  if (!d) d.reset(new data_type(v.block()));
  if (d->cost()) sim_probe(PR_COPIED);
  S::describe_data(*d, c.d);
  int const D = B::dim;
  if (c.d.storage_format == interleaved_complex) sim_probe(PR_INTER);
  if (c.d.storage_format != data_type::layout_type::storage_format) sim_fail("wrong-value", "format %d is described, not %d", int(c.d.storage_format), int(data_type::layout_type::storage_format));
  // what is described is what is there
  length_type e[3] = { 1, 1, 1 }; for (int k = 0; k < D; ++k) e[k] = v.size(k);
  size_t n = 0;
  for (index_type i = 0; i < e[0]; ++i) for (index_type j = 0; j < e[1]; ++j) for (index_type k = 0; k < e[2]; ++k, ++n)
  {
    index_type x[3] = { i, j, k }; long at = 0;
    for (int q = 0; q < D; ++q) at += long(x[q]) * c.d.stride[q];
    cd g = fetch<E>(d->ptr(), at), w = Cast<E>::to(wl::get(v, x));
    if (g != w) sim_fail("wrong-value", "element (%lu,%lu,%lu) is (%g,%g) where the description puts it, not (%g,%g)", (unsigned long)i, (unsigned long)j, (unsigned long)k, g.real(), g.imag(), w.real(), w.imag());
  }
  c.dense = dense_any(c.d, D);
  if (!c.dense) return;
  if (c.d.storage_size < n) sim_fail("wrong-value", "%lu elements of storage are described for %lu elements of dense data", (unsigned long)c.d.storage_size, (unsigned long)n);
  bytes<E>(c, d->ptr(), n);
}
template <storage_format_type F, dimension_type D, typename O, typename View>
void emit_c(Parcel &c, View v, std::true_type) { emit<Layout<D, O, dense, F> >(c, v); }
// (interleaved access to a part of complex data does not compile)
template <typename B> struct Plain { enum { value = 0 }; };
template <dimension_type D, typename X, typename O> struct Plain<Dense<D, X, O> > { enum { value = ovxx::is_complex<X>::value }; };
template <storage_format_type F, dimension_type D, typename O, typename View>
void emit_c(Parcel &c, View v, std::false_type) { emit<Layout<D, O, dense, array> >(c, v); }
template <typename View>
void emit_as(Parcel &c, View v, int layout)
{
  typedef typename View::block_type B; dimension_type const D = B::dim;
  typedef std::integral_constant<bool, ovxx::is_complex<typename B::value_type>::value> isc;
  switch (layout)
  {
    case 0: case 1: emit<typename get_block_layout<B>::type>(c, v); break;
    case 2: case 3: emit<Layout<D, tuple<0,1,2>, dense, array> >(c, v); break;
    case 4: emit<Layout<D, typename std::conditional<D == 2, tuple<1,0,2>, tuple<2,0,1> >::type, dense, array> >(c, v); break;
    case 5: emit<Layout<D, tuple<0,1,2>, D == 1 ? dense : aligned_16, array> >(c, v); break;
    case 6: emit_c<split_complex, D, tuple<0,1,2> >(c, v, isc()); break;
    case 7: emit_c<Plain<B>::value ? interleaved_complex : split_complex, D, typename std::conditional<D == 2, tuple<1,0,2>, tuple<0,1,2> >::type>(c, v, isc()); break;
  }
}
// real and imaginary parts
template <typename View> void emit_part(Parcel &c, View v, int view, int layout, std::true_type) { sim_probe(PR_COMPONENT); if (view == 4) emit_as(c, v.real(), layout); else emit_as(c, v.imag(), layout); }
template <typename View> void emit_part(Parcel &, View, int, int, std::false_type) {}
typedef std::integral_constant<bool, ovxx::is_complex<T>::value> is_cplx;

template <typename B> void views(Slot &s, Vector<T, B> v, Parcel &c, int view, int layout, unsigned h)
{
  if (view >= 4) emit_part(c, v, view, layout, is_cplx());
  else if (view & 1) { sim_probe(PR_SUB); Shape x(s, view, h); emit_as(c, v(x.dom(0, s.ext)), layout); }
  else emit_as(c, v, layout);
}
template <typename B> void views(Slot &s, Matrix<T, B> v, Parcel &c, int view, int layout, unsigned h)
{
  if (view >= 4) { emit_part(c, v, view, layout, is_cplx()); return; }
  Shape x(s, view, h); Domain<2> d(x.dom(0, s.ext), x.dom(1, s.ext));
  if (view & 1) sim_probe(PR_SUB);
  if (view & 2) sim_probe(PR_TRANS);
  switch (view) { case 0: emit_as(c, v, layout); break; case 1: emit_as(c, v(d), layout); break; case 2: emit_as(c, v.transpose(), layout); break; case 3: emit_as(c, v(d).transpose(), layout); break; }
}
template <typename B> void views(Slot &s, Tensor<T, B> v, Parcel &c, int view, int layout, unsigned h)
{
  sim_probe(PR_TENSOR);
  Shape x(s, view, h); Domain<3> d(x.dom(0, s.ext), x.dom(1, s.ext), x.dom(2, s.ext));
  if (view & 1) sim_probe(PR_SUB);
  if (view & 2) sim_probe(PR_TRANS);
  bool two = x.perm[0] == 2;
  switch (view)
  {
    case 0: emit_as(c, v, layout); break;
    case 1: emit_as(c, v(d), layout); break;
    case 2: if (two) emit_as(c, v.template transpose<2,0,1>(), layout); else emit_as(c, v.template transpose<0,2,1>(), layout); break;
    case 3: if (two) emit_as(c, v(d).template transpose<2,0,1>(), layout); else emit_as(c, v(d).template transpose<0,2,1>(), layout); break;
  }
}

// A block bound to memory of the program.
template <dimension_type D, int K, typename B>
struct Own : Slot
{
  Bytes buf[2]; storage_format_type fmt;
  B b; typename ViewOf<D, B>::type v;
  Own() : fmt(array), b(Domain<D>(), (T *)0), v(b) {}
  void bind(Domain<D> const &dom)
  {
    if (fmt == split_complex) bind_split(dom, is_cplx()); else if (fmt == interleaved_complex) bind_inter(dom, is_cplx());
    else b.rebind((T *)buf[0].data(), dom);
    b.admit(true);
  }
  void bind_split(Domain<D> const &dom, std::true_type) { b.rebind(std::make_pair((R *)buf[0].data(), (R *)buf[1].data()), dom); }
  void bind_split(Domain<D> const &, std::false_type) {}
  void bind_inter(Domain<D> const &dom, std::true_type) { b.rebind((R *)buf[0].data(), dom); }
  void bind_inter(Domain<D> const &, std::false_type) {}
  // the model in memory, in the order of the block
  void store()
  {
    size_t n = m.size(); bool split = fmt == split_complex;
    buf[0].assign(split ? n * sizeof(R) : n * sizeof(T), 0); buf[1].assign(split ? n * sizeof(R) : 0, 0);
    index_type i[3];
    for (i[0] = 0; i[0] < ext[0]; ++i[0]) for (i[1] = 0; i[1] < ext[1]; ++i[1]) for (i[2] = 0; i[2] < ext[2]; ++i[2])
    {
      index_type at = 0; for (dimension_type k = 0; k < D; ++k) at = at * ext[orders[K][k]] + i[orders[K][k]];
      cd e = this->at(i);
      if (split) { ((R *)buf[0].data())[at] = e.real(); ((R *)buf[1].data())[at] = e.imag(); }
      else ((T *)buf[0].data())[at] = Cast<T>::from(e);
    }
  }
  void check(char const *what)
  {
    index_type i[3];
    for (i[0] = 0; i[0] < ext[0]; ++i[0]) for (i[1] = 0; i[1] < ext[1]; ++i[1]) for (i[2] = 0; i[2] < ext[2]; ++i[2])
    {
      cd g = Cast<T>::to(wl::get(v, i)), w = at(i);
      if (g != w) sim_fail("wrong-value", "%s: element (%lu,%lu,%lu) is (%g,%g), not (%g,%g)", what, (unsigned long)i[0], (unsigned long)i[1], (unsigned long)i[2], g.real(), g.imag(), w.real(), w.imag());
    }
  }
  void pack(Parcel &c, int view, int layout, unsigned h) { views(*this, v, c, view, layout, h); }
  void user(Parcel &c)
  {
    b.release(true);
    S::describe_user_storage(b, c.d);
    if (c.d.storage_format != fmt) sim_fail("wrong-value", "format %d is described for memory in format %d", int(c.d.storage_format), int(fmt));
    if (c.d.storage_size < m.size()) sim_fail("wrong-value", "%lu elements of storage are described for a block of %lu", (unsigned long)c.d.storage_size, (unsigned long)m.size());
    for (int d = D; d < 3; ++d) if (c.d.size[d] || c.d.stride[d]) sim_fail("wrong-value", "size and stride of dimension %d of a block of %d dimensions", d, int(D));
    c.dense = dense_in(c.d, orders[K], true);
    if (!c.dense) sim_fail("wrong-value", "the description of memory of order %d has strides %ld %ld %ld", K, (long)c.d.stride[0], (long)c.d.stride[1], (long)c.d.stride[2]);
    for (int k = 0; k < 2; ++k) { c.b[k] = buf[k]; c.n[k] = buf[k].size(); }
    b.admit(true);
  }
  void change(index_type i, cd e)
  {
    index_type x[3] = { i / (ext[1] * ext[2]), i / ext[2] % ext[1], i % ext[2] };
    wl::put(v, x, Cast<T>::from(e));
  }
  void rebound(Args &a)
  {
    sim_probe(PR_REBOUND);
    b.release(false);
    if (cplx && B::storage_format != split_complex) fmt = storage_format_type(array + a.below(3));
    store(); bind(v_domain());
  }
  Domain<D> v_domain() { return Mk<D>::dom(ext); }
};
template <dimension_type D, int K, typename B> Slot *build(length_type const *ext, std::vector<cd> const &m, Parcel *c)
{
  std::unique_ptr<Own<D, K, B> > s(new Own<D, K, B>);
  for (int d = 0; d < 3; ++d) s->ext[d] = ext[d];
  s->m = m;
  if (c) { s->fmt = storage_format_type(c->d.storage_format); s->buf[0].swap(c->b[0]); s->buf[1].swap(c->b[1]); }
  else s->store();
  s->bind(s->v_domain());
  s->check(c ? "what was restored" : "a new block");
  return s.release();
}
template <int K> Slot *build_k(int dim, bool direct, length_type const *ext, std::vector<cd> const &m, Parcel *c);
template <dimension_type D, int K> Slot *build_d(bool direct, length_type const *ext, std::vector<cd> const &m, Parcel *c)
{
  typedef typename Ord<K>::type O;
  if (direct && c && D < 3) return build<D, K, ovxx::Strided<D, T, Layout<D, O, dense, array> > >(ext, m, c);
  return build<D, K, Dense<D, T, O> >(ext, m, c);
}
Slot *build_any(int dim, int order, bool direct, length_type const *ext, std::vector<cd> const &m, Parcel *c)
{
  if (dim == 1) return build_d<1, 0>(direct, ext, m, c);
  if (dim == 2) return order ? build_d<2, 1>(direct, ext, m, c) : build_d<2, 0>(direct, ext, m, c);
  switch (order)
  {
    case 0: return build_d<3, 0>(false, ext, m, c);
    case 1: return build_d<3, 1>(false, ext, m, c);
    case 2: return build_d<3, 2>(false, ext, m, c);
    case 3: return build_d<3, 3>(false, ext, m, c);
    case 4: return build_d<3, 4>(false, ext, m, c);
    default: return build_d<3, 5>(false, ext, m, c);
  }
}
Slot *make(int dim, int order, length_type const *ext, std::vector<cd> const &m) { return build_any(dim, order, false, ext, m, 0); }
Slot *restore(Parcel &c, int dim, int order, int how, std::vector<cd> const &m, length_type const *ext) { return build_any(dim, order, how == 3, ext, m, &c); }
cd value(unsigned h) { return Cast<T>::to(Val<T>::make(h)); }

template <typename X> void ask(int type)
{
#define ASK(D, K) { Ask a = { type, D, K, S::is_compatible<Dense<D, X, typename Ord<K>::type> > }; asks->push_back(a); Ask b = { type, D, K, S::is_compatible<ovxx::Strided<D, X, Layout<D, typename Ord<K>::type, dense, array> > > }; asks->push_back(b); }
  ASK(1, 0) ASK(2, 0) ASK(2, 1) ASK(3, 0) ASK(3, 1) ASK(3, 2) ASK(3, 3) ASK(3, 4) ASK(3, 5)
}
struct Register
{
  Register()
  {
    if (!asks) asks = new std::vector<Ask>;
    int const t = SER_T;
    Type x = { t, cplx, std::is_integral<T>::value, std::is_unsigned<T>::value, int(sizeof(T)), value, make, restore, S::type_info<T>::value };
    types[t] = x; if (ntypes <= t) ntypes = t + 1;
    ask<T>(t);
#if SER_T == 3
    ask<unsigned>(103);
#elif SER_T == 4
    ask<signed char>(104); ask<char>(204);
#elif SER_T == 5
    ask<unsigned short>(105);
#elif SER_T == 7
    ask<unsigned long>(107); ask<bool>(207);
#endif
  }
} registered;
}
}
#endif
