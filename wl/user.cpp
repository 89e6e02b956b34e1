// Memory shared between the program and blocks: user storage (rebind, admit,
// release, find) and direct data access, on local blocks and on distributed
// ones, in any history, with allocations that fail.
#include "common.hpp"
#include <vsip/dense.hpp>
#include <vsip/dda.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/dda/runtime.hpp>
#include <new>

using namespace wl;

namespace
{
enum { OP_MAKE, OP_DROP, OP_REBIND, OP_REBIND_SIZE, OP_ADMIT, OP_RELEASE, OP_FIND, OP_SCRIBBLE, OP_FILL, OP_ASSIGN, OP_DDA, OP_DDA_SUB, OP_PUT, OP_DDA_PART, NOPS };
int const weights[] = { 6, 1, 5, 2, 8, 7, 2, 4, 4, 4, 6, 4, 3, 6 };
enum { PR_FORMAT, PR_DIST, PR_EMPTY, PR_NOMEM, PR_SIZE, PR_COPYDDA, PR_REMOTE, PR_PART };
enum { F_NONE, F_ARRAY, F_INTER, F_SPLIT };
char const *const fname[] = { "none", "array", "interleaved", "split" };
typedef vsip::complex<float> cf;
int nranks, me;

// memory of the program, with guards, seen as floats
struct Buf
{
  enum { G = 4 };
  std::vector<float> mem[2];
  int fmt; length_type n; bool cplx;
  Buf() : fmt(F_NONE), n(0), cplx(false) {}
  static float guard(int i) { return -7777.f - i; }
  void make(int f, length_type nn, bool c, unsigned tag)
  {
    fmt = f; n = nn; cplx = c;
    length_type per = f == F_SPLIT ? n : c ? 2 * n : n;
    for (int k = 0; k < 2; ++k)
    {
      mem[k].assign(f == F_NONE || (k && f != F_SPLIT) ? 0 : per + 2 * G, 0.f);
      if (mem[k].empty()) continue;
      for (int i = 0; i < G; ++i) { mem[k][i] = guard(i); mem[k][G + per + i] = guard(i); }
      for (length_type i = 0; i < per; ++i) mem[k][G + i] = int(hashu(tag + k, i) % 199) - 99;
    }
  }
  float *p(int k) { return mem[k].empty() ? 0 : &mem[k][G]; }
  cf get(length_type i) { return fmt == F_SPLIT ? cf(p(0)[i], p(1)[i]) : cplx ? cf(p(0)[2 * i], p(0)[2 * i + 1]) : cf(p(0)[i], 0); }
  void put(length_type i, cf v)
  {
    if (fmt == F_SPLIT) { p(0)[i] = v.real(); p(1)[i] = v.imag(); }
    else if (cplx) { p(0)[2 * i] = v.real(); p(0)[2 * i + 1] = v.imag(); }
    else p(0)[i] = v.real();
  }
  void check(char const *what)
  {
    for (int k = 0; k < 2; ++k)
      if (!mem[k].empty())
        for (int i = 0; i < G; ++i)
          if (mem[k][i] != guard(i) || mem[k][mem[k].size() - G + i] != guard(i))
            sim_fail("wrong-value", "%s: memory %s the program's %s buffer was overwritten", what, mem[k][i] != guard(i) ? "before" : "after", fname[fmt]);
  }
};

template <typename T> struct Cv;
template <> struct Cv<float> { static float from(cf v) { return v.real(); } static cf to(float v) { return cf(v, 0); } };
template <> struct Cv<cf> { static cf from(cf v) { return v; } static cf to(cf v) { return v; } };

struct Base
{
  int kind;
  virtual ~Base() {}
  virtual void refill(unsigned) = 0;
  virtual void set(Args &) = 0;
  virtual void rebind(int fmt, unsigned tag, bool fault) = 0;
  virtual bool rebind_size(int fmt, unsigned tag, Args &, bool fault) = 0;
  virtual void admit(bool) = 0;
  virtual void release(bool, bool ptrs) = 0;
  virtual void find() = 0;
  virtual void scribble(unsigned tag) = 0;
  virtual void check(char const *) = 0;
  virtual void dda(Args &) = 0;
  virtual void dda_sub(Args &) = 0;
  virtual void dda_part(Args &) = 0;
  virtual bool assign(Base &) = 0;
  // what the program may do
  bool admitted, known, lost;     // lost: a rebind failed for lack of memory
  int fmt; bool bknown;           // format bound, contents of the buffer determined
  bool dist; int D; bool cplx;
};

template <typename B> struct is_local_block { enum { value = 1 }; };
template <dimension_type D, typename T, typename O, typename M> struct is_local_block<Dense<D, T, O, M> > { enum { value = 0 }; };
template <dimension_type D, typename T, typename O> struct is_local_block<Dense<D, T, O, Local_map> > { enum { value = 1 }; };

// binding memory of either format
template <typename B> void bind_f(B &b, Buf &m, float *) { b.rebind(m.p(0)); }
template <typename B> void bind_f(B &b, Buf &m, cf *)
{
  if (m.fmt == F_ARRAY) b.rebind(reinterpret_cast<cf *>(m.p(0)));
  else if (m.fmt == F_INTER) b.rebind(m.p(0));
  else b.rebind(m.p(0), m.p(1));
}
template <typename B, typename DOM> void bind_f(B &b, Buf &m, DOM const &d, float *) { b.rebind(m.p(0), d); }
template <typename B, typename DOM> void bind_f(B &b, Buf &m, DOM const &d, cf *)
{
  if (m.fmt == F_ARRAY) b.rebind(reinterpret_cast<cf *>(m.p(0)), d);
  else if (m.fmt == F_INTER) b.rebind(m.p(0), d);
  else b.rebind(m.p(0), m.p(1), d);
}
template <typename B> void find_f(B &b, bool rel, bool upd, int, float *&x, float *&y, float *)
{ y = 0; if (rel) b.release(upd, x); else b.find(x); }
template <typename B> void find_f(B &b, bool rel, bool upd, int fmt, float *&x, float *&y, cf *)
{
  y = 0;
  if (fmt == F_SPLIT) { if (rel) b.release(upd, x, y); else b.find(x, y); }
  else if (fmt == F_INTER) { if (rel) b.release(upd, x); else b.find(x); }
  else { cf *p = reinterpret_cast<cf *>(1); if (rel) b.release(upd, p); else b.find(p); x = reinterpret_cast<float *>(p); }
}
template <typename B, typename DOM, typename M> B *create(DOM const &d, Buf &m, M const &map, float *)
{ return new B(d, m.p(0), map); }
template <bool L> struct SplitCtor
{
  template <typename B, typename DOM, typename M> static B *make(DOM const &d, Buf &m, M const &map, bool) { return new B(d, m.p(0), m.p(1), map); }
};
template <> struct SplitCtor<true>       // local blocks also take a pair
{
  template <typename B, typename DOM, typename M> static B *make(DOM const &d, Buf &m, M const &map, bool pair)
  { return pair ? new B(d, std::make_pair(m.p(0), m.p(1)), map) : new B(d, m.p(0), m.p(1), map); }
};

template <typename B, typename DOM, typename M> B *create(DOM const &d, Buf &m, M const &map, cf *)
{
  if (m.fmt == F_ARRAY) return new B(d, reinterpret_cast<cf *>(m.p(0)), map);
  if (m.fmt == F_SPLIT) return SplitCtor<is_local_block<B>::value>::template make<B>(d, m, map, m.n & 1);
  return new B(d, m.p(0), map);
}

// the position of an element in memory of dense layout
template <typename O, dimension_type D>
length_type linear(index_type const *i, length_type const *e)
{
  dimension_type const o[3] = { O::impl_dim0, O::impl_dim1, O::impl_dim2 };
  length_type l = 0;
  for (dimension_type k = 0; k < 3; ++k) if (o[k] < D) l = l * e[o[k]] + i[o[k]];
  return l;
}

// direct access to the data of a block, compared with a model
template <typename T, dimension_type DIM> struct Acc
{
  template <typename DATA, typename PTR>
  void dread(DATA &d, PTR p, length_type const *e, Model<T, DIM> const &w, char const *what)
  {
    Oracle o_;
    typedef ovxx::storage_traits<T, DATA::layout_type::storage_format> st;
    for (dimension_type k = 0; k < DIM; ++k)
      if (d.size(k) != e[k]) sim_fail("wrong-value", "%s: extent %d is %lu, the block's is %lu", what, int(k), (unsigned long)d.size(k), (unsigned long)e[k]);
    index_type i[3];
    for (i[0] = 0; i[0] < e[0]; ++i[0]) for (i[1] = 0; i[1] < e[1]; ++i[1]) for (i[2] = 0; i[2] < e[2]; ++i[2])
    {
      stride_type off = 0;
      for (dimension_type k = 0; k < DIM; ++k) off += d.stride(k) * stride_type(i[k]);
      T got = st::get(p, off);
      if (!(got == w.get(i))) sim_fail("wrong-value", "%s: element (%lu,%lu,%lu) is (%g,%g), the block has (%g,%g)", what, (unsigned long)i[0], (unsigned long)i[1], (unsigned long)i[2],
                                       re(got), im(got), re(w.get(i)), im(w.get(i)));
    }
  }
  template <typename DATA>
  void dwrite(DATA &d, length_type const *e, Model<T, DIM> &w, unsigned tag, bool some, bool keep)
  {
    Oracle o_;
    typedef ovxx::storage_traits<T, DATA::layout_type::storage_format> st;
    typename DATA::ptr_type p = d.ptr();
    index_type i[3];
    for (i[0] = 0; i[0] < e[0]; ++i[0]) for (i[1] = 0; i[1] < e[1]; ++i[1]) for (i[2] = 0; i[2] < e[2]; ++i[2])
    {
      unsigned h = hashu(tag, w.flat(i));
      if (some && h % 3) continue;
      stride_type off = 0;
      for (dimension_type k = 0; k < DIM; ++k) off += d.stride(k) * stride_type(i[k]);
      T v = Val<T>::make(h);
      st::put(p, off, v);
      if (keep) w.at(i) = v;
    }
  }
  template <typename LAY, int A, typename BLK>
  void alig(BLK &b, length_type const *e, Model<T, DIM> &w, unsigned tag, bool some)
  {
    vsip::dda::Data<BLK, vsip::dda::inout, LAY> d(b);
    sim_faults_arm(0);
    if (reinterpret_cast<size_t>(d.ptr()) % (A > OVXX_ALLOC_ALIGNMENT ? OVXX_ALLOC_ALIGNMENT : A)) sim_fail("wrong-value", "memory given out as aligned to %d bytes is not", A);
    for (dimension_type k = 0; k + 1 < DIM; ++k)
      if (e[k] > 1 && d.stride(k) * sizeof(T) % A) sim_fail("wrong-value", "stride %ld of dimension %d keeps rows from being aligned to %d bytes", long(d.stride(k)), int(k), A);
    if (d.stride(DIM - 1) != 1 && e[DIM - 1] > 1) sim_fail("wrong-value", "aligned access with a stride of %ld", long(d.stride(DIM - 1)));
    dread(d, d.ptr(), e, w, "aligned access"); dwrite(d, e, w, tag, some, true);
  }
  // all ways of access to a block whose model is w
  template <typename BLK>
  void access(BLK &b, Model<T, DIM> &w, Args &a, bool faults)
  {
    namespace dda = vsip::dda;
    typedef typename dda::dda_block_layout<BLK>::layout_type nat;
    typedef Layout<DIM, typename ovxx::row_major<DIM>::type, dense, array> rowl;
    typedef Layout<DIM, typename ovxx::col_major<DIM>::type, dense, array> coll;
    typedef Layout<DIM, typename ovxx::row_major<DIM>::type, dense, sizeof(T) == sizeof(cf) ? split_complex : array> spl;
    typedef Layout<DIM, typename ovxx::row_major<DIM>::type, aligned_16, array> ali;
    typedef Layout<DIM, typename ovxx::row_major<DIM>::type, aligned_512, array> ali2;
    unsigned tag = a.raw();
    bool some = a.below(2);
    length_type const *e = w.ext;
    int how = a.below(11);
    sim_faults_arm(faults);
    try
    {
    switch (how)
    {
      case 0: { dda::Data<BLK, dda::in> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "read access"); break; }
      case 1: { dda::Data<BLK, dda::inout> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "read-write access"); dwrite(d, e, w, tag, some, true); dread(d, d.ptr(), e, w, "read-write access after writing"); break; }
      case 2: { dda::Data<BLK, dda::out> d(b); sim_faults_arm(0); dwrite(d, e, w, tag, false, true); break; }
      case 3: { dda::Data<BLK, dda::in | dda::copy> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "copy"); dwrite(d, e, w, tag, some, false); sim_probe(PR_COPYDDA); break; }
      case 4: { dda::Data<BLK, dda::inout, rowl> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "row-major access"); dwrite(d, e, w, tag, some, true); break; }
      case 5: { dda::Data<BLK, dda::inout, coll> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "column-major access"); dwrite(d, e, w, tag, some, true); break; }
      case 6: { dda::Data<BLK, dda::inout, spl> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "split access"); dwrite(d, e, w, tag, some, true); break; }
      case 7: if (tag % 2) alig<ali, 16>(b, e, w, tag, some); else alig<ali2, 512>(b, e, w, tag, some); break;
      case 8:                     // into memory of ours, synchronised in between
      {
        typedef dda::Data<BLK, dda::inout | dda::copy, rowl> DT;
        std::vector<T> mem(w.size() + 2, Val<T>::make(5));
        {
          DT d(b, &mem[1]); sim_faults_arm(0);
          if (d.ptr() != &mem[1]) sim_fail("wrong-value", "the buffer given to a data access is not the one used");
          dread(d, d.ptr(), e, w, "copy into own memory"); dwrite(d, e, w, tag, some, true);
          d.sync_out();
          dda::Data<BLK, dda::in> d2(b); dread(d2, d2.ptr(), e, w, "after synchronising out");
          dwrite(d, e, w, tag + 1, true, false);
          d.sync_in(); dread(d, d.ptr(), e, w, "after synchronising in");
        }
        if (!(mem[0] == Val<T>::make(5)) || !(mem.back() == Val<T>::make(5))) sim_fail("wrong-value", "a data access wrote outside the buffer it was given");
        break;
      }
      case 9: rt(b, w, tag, some); break;
      case 10: { BLK const &c = b; dda::Data<BLK, dda::in, coll> d(c); sim_faults_arm(0); dread(d, d.ptr(), e, w, "column-major read access"); break; }
    }
    }
    catch (std::bad_alloc const &) { sim_faults_arm(0); sim_probe(PR_NOMEM); }
    sim_faults_arm(0);
  }
  // layouts chosen at run time
  template <typename BLK> void rt(BLK &b, Model<T, DIM> &w, unsigned tag, bool some)
  {
    int h = hashu(tag, 3);
    Rt_(b, w, tag, some, h, (T *)0);
  }
  template <typename BLK> void Rt_(BLK &b, Model<T, DIM> &w, unsigned tag, bool some, int h, float *)
  {
    ovxx::Rt_layout<DIM> l(rt_pack(h), rt_order(h), array, rt_align(h));
    ovxx::dda::Rt_data<BLK, vsip::dda::inout> d(b, l);
    sim_faults_arm(0);
    rt_layout_check(d, w, h);
    rt_rw(d, w, tag, some, d.ptr());
  }
  template <typename BLK> void Rt_(BLK &b, Model<T, DIM> &w, unsigned tag, bool some, int h, cf *)
  {
    ovxx::Rt_layout<DIM> l(rt_pack(h), rt_order(h), h & 8 ? array : split_complex, rt_align(h));
    ovxx::dda::Rt_data<BLK, vsip::dda::inout> d(b, l);
    sim_faults_arm(0);
    rt_layout_check(d, w, h);
    if (h & 8) rt_rw(d, w, tag, some, d.ptr().template as<array>());
    else rt_rw_split(d, w, tag, some, d.ptr().template as<split_complex>());
  }
  static ovxx::Rt_tuple rt_order(unsigned h)
  {
    static int const p[6][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
    int const *o = p[(h >> 4) % 6];
    if (DIM == 3) return ovxx::Rt_tuple(o[0], o[1], o[2]);
    if (DIM == 2 && h & 1) return ovxx::Rt_tuple(1, 0, 2);
    return ovxx::Rt_tuple(0, 1, 2);
  }
  static pack_type rt_pack(unsigned h) { return h & 2 ? dense : h & 4 ? unit_stride : aligned; }
  static unsigned rt_align(unsigned h) { return h & 6 ? 0 : h & 1 ? 16 : 32; }
  template <typename DATA> void rt_layout_check(DATA &d, Model<T, DIM> const &w, unsigned h)
  {
    ovxx::Rt_tuple o = rt_order(h);
    dimension_type od[3] = { o.impl_dim0, o.impl_dim1, o.impl_dim2 };
    dimension_type last = od[DIM - 1];
    for (dimension_type k = 0; k < DIM; ++k) if (d.size(k) != w.ext[k]) sim_fail("wrong-value", "access with a layout chosen at run time: extent %d is %lu, should be %lu", int(k), (unsigned long)d.size(k), (unsigned long)w.ext[k]);
    if (w.ext[last] > 1 && d.stride(last) != 1) sim_fail("wrong-value", "access with a layout chosen at run time: stride of the last dimension is %ld", long(d.stride(last)));
    if (DIM == 1) return;
    dimension_type row = od[DIM - 2];
    if (w.ext[row] < 2) return;
    if (rt_pack(h) == dense && d.stride(row) != stride_type(w.ext[last])) sim_fail("wrong-value", "dense access with a layout chosen at run time: stride of rows is %ld, they have %lu elements", long(d.stride(row)), (unsigned long)w.ext[last]);
    if (rt_pack(h) == aligned && d.stride(row) * sizeof(T) % rt_align(h)) sim_fail("wrong-value", "aligned access with a layout chosen at run time: stride of rows is %ld", long(d.stride(row)));
  }
  template <typename DATA> void rt_rw(DATA &d, Model<T, DIM> &w, unsigned tag, bool some, T *p)
  {
    Oracle o_;
    index_type i[3];
    for (i[0] = 0; i[0] < w.ext[0]; ++i[0]) for (i[1] = 0; i[1] < w.ext[1]; ++i[1]) for (i[2] = 0; i[2] < w.ext[2]; ++i[2])
    {
      stride_type off = 0;
      for (dimension_type k = 0; k < DIM; ++k) off += d.stride(k) * stride_type(i[k]);
      if (!(p[off] == w.get(i))) sim_fail("wrong-value", "access with a layout chosen at run time: element is (%g,%g), the block has (%g,%g)", re(p[off]), im(p[off]), re(w.get(i)), im(w.get(i)));
      unsigned h = hashu(tag, w.flat(i));
      if (some && h % 3) continue;
      p[off] = Val<T>::make(h); w.at(i) = p[off];
    }
  }
  template <typename DATA> void rt_rw_split(DATA &d, Model<T, DIM> &w, unsigned tag, bool some, std::pair<float *, float *> p)
  {
    Oracle o_;
    index_type i[3];
    for (i[0] = 0; i[0] < w.ext[0]; ++i[0]) for (i[1] = 0; i[1] < w.ext[1]; ++i[1]) for (i[2] = 0; i[2] < w.ext[2]; ++i[2])
    {
      stride_type off = 0;
      for (dimension_type k = 0; k < DIM; ++k) off += d.stride(k) * stride_type(i[k]);
      T got = Cv<T>::from(cf(p.first[off], p.second[off]));
      if (!(got == w.get(i))) sim_fail("wrong-value", "split access with a layout chosen at run time: element is (%g,%g), the block has (%g,%g)", re(got), im(got), re(w.get(i)), im(w.get(i)));
      unsigned h = hashu(tag, w.flat(i));
      if (some && h % 3) continue;
      w.at(i) = Val<T>::make(h);
      cf c = Cv<T>::to(w.get(i)); p.first[off] = c.real(); p.second[off] = c.imag();
    }
  }
  // the ways of access that matter for a part of a block
  template <typename BLK>
  void few(BLK &b, Model<T, DIM> &w, Args &a)
  {
    namespace dda = vsip::dda;
    typedef Layout<DIM, typename ovxx::row_major<DIM>::type, dense, array> rowl;
    typedef Layout<DIM, typename ovxx::col_major<DIM>::type, dense, sizeof(T) == sizeof(cf) ? split_complex : array> coll;
    unsigned tag = a.raw();
    bool some = a.below(2);
    length_type const *e = w.ext;
    int how = a.below(6);
    sim_faults_arm(1);
    try
    {
    switch (how)
    {
      case 0: { dda::Data<BLK, dda::in> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "read access to a part"); break; }
      case 1: { dda::Data<BLK, dda::inout> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "access to a part"); dwrite(d, e, w, tag, some, true); dread(d, d.ptr(), e, w, "access to a part after writing"); break; }
      case 2: { dda::Data<BLK, dda::inout, rowl> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "row-major access to a part"); dwrite(d, e, w, tag, some, true); break; }
      case 3: { dda::Data<BLK, dda::inout, coll> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "column-major access to a part"); dwrite(d, e, w, tag, some, true); break; }
      case 4: { dda::Data<BLK, dda::in | dda::copy> d(b); sim_faults_arm(0); dread(d, d.ptr(), e, w, "copy of a part"); dwrite(d, e, w, tag, some, false); break; }
      case 5: { dda::Data<BLK, dda::out> d(b); sim_faults_arm(0); dwrite(d, e, w, tag, false, true); break; }
    }
    }
    catch (std::bad_alloc const &) { sim_faults_arm(0); sim_probe(PR_NOMEM); }
    sim_faults_arm(0);
  }
};

template <typename B, typename O, typename M>
struct Slot : Base, Acc<typename B::value_type, B::dim>
{
  typedef typename B::value_type T;
  static dimension_type const DIM = B::dim;
  typedef Acc<T, DIM> A_;
  using A_::dread; using A_::dwrite; using A_::access;
  typedef typename Mk<DIM>::template view<T, B>::type view_type;
  enum { local = is_local_block<B>::value };
  std::unique_ptr<view_type> view;
  Model<T, DIM> m;
  std::vector<T> wbuf;           // contents of the buffer (model), in order of memory
  Buf buf;
  MapParam q;

  length_type lext[3];
  static view_type *wrap(B *b) { struct D_ { B *b; ~D_() { b->decrement_count(); } } d = { b }; return new view_type(*b); }

  // how: 0 no user storage, 1 null pointer, 2 with memory
  Slot(length_type const *e, MapParam const &qq, int how, int f, unsigned tag, int k) : q(qq)
  {
    kind = k; lost = false; D = DIM; dist = !local; cplx = sizeof(T) == sizeof(cf);
    m.init(e);
    M map = MakeMap<DIM, M>::make(q, nranks);
    Domain<DIM> dom = Mk<DIM>::dom(e);
    if (how == 0) { view.reset(wrap(new B(dom, map))); fmt = F_NONE; admitted = true; }
    else if (how == 1) { view.reset(wrap(new B(dom, static_cast<T *>(0), map))); fmt = F_NONE; admitted = false; }
    else
    {
      length_type n = m.size();
      if (!local)
      {
        Oracle o_;                            // the size of the own part, from a block that is no more
        std::unique_ptr<view_type> v(wrap(new B(dom, static_cast<T *>(0), map)));
        n = subblock(*v) == no_subblock ? 0 : v->local().size();
      }
      { Oracle o_; buf.make(f, n, cplx, tag); sync_wbuf(); }
      view.reset(wrap(create<B>(dom, buf, map, (T *)0)));
      fmt = f; admitted = false;
    }
    known = false; bknown = fmt != F_NONE;
    Oracle o_;
    extents();
  }
  B &block() { return view->block(); }
  void extents()
  {
    for (int d = 0; d < 3; ++d) lext[d] = 1;
    if (subblock(*view) == no_subblock) { lext[0] = 0; return; }
    typename view_type::local_type l = view->local();
    for (dimension_type d = 0; d < DIM; ++d) lext[d] = l.size(d);
  }
  length_type lsize() const { return lext[0] * lext[1] * lext[2]; }
  void sync_wbuf() { wbuf.resize(buf.n); for (length_type i = 0; i < buf.n; ++i) wbuf[i] = Cv<T>::from(buf.get(i)); }

  // F(local index, global index)
  template <typename F> void each(F &f) { if (lsize()) for_local(*view, f); }
  struct ToBuf { Slot &s; ToBuf(Slot &x) : s(x) {} void operator()(index_type const *l, index_type const *g) { s.wbuf[linear<O, DIM>(l, s.lext)] = s.m.get(g); } };
  struct FromBuf { Slot &s; FromBuf(Slot &x) : s(x) {} void operator()(index_type const *l, index_type const *g) { s.m.at(g) = s.wbuf[linear<O, DIM>(l, s.lext)]; } };

  void state(char const *what)
  {
    if (block().admitted() != admitted) sim_fail("wrong-value", "%s: the block says it is %s", what, admitted ? "released" : "admitted");
    static user_storage_type const us[] = { no_user_format, array_format, interleaved_format, split_format };
    if ((lsize() || local) && !lost && block().user_storage() != us[fmt])
      sim_fail("wrong-value", "%s: the block reports user storage of format %d, bound is %s", what, int(block().user_storage()), fname[fmt]);
  }
  void check(char const *what)
  {
    Oracle o_;
    state(what);
    if (admitted && known) check_local(*view, m, what);
    if (fmt != F_NONE)
    {
      buf.check(what);
      if (!admitted && bknown)
        for (length_type i = 0; i < buf.n; ++i)
          if (!(Cv<T>::from(buf.get(i)) == wbuf[i]))
            sim_fail("wrong-value", "%s: position %lu of the program's %s buffer is (%g,%g), should be (%g,%g)", what, (unsigned long)i, fname[fmt],
                     buf.get(i).real(), buf.get(i).imag(), re(wbuf[i]), im(wbuf[i]));
    }
  }
  void refill(unsigned tag)
  {
    m.fill(tag);
    if (tag % 3 == 0) { T s = m.v[0]; for (length_type i = 0; i < m.v.size(); ++i) m.v[i] = s; *view = s; }
    else write_local(*view, m);
    known = true;
  }
  void set(Args &a)
  {
    index_type i[3];
    for (int d = 0; d < 3; ++d) i[d] = a.below(m.ext[d]);
    T v = Val<T>::make(a.raw());
    put(*view, i, v);
    m.at(i) = v;
    T got = get(*view, i);
    if (known && !(got == v)) sim_fail("wrong-value", "element just written reads as (%g,%g), written (%g,%g)", re(got), im(got), re(v), im(v));
  }
  void bound(Buf &nb, int f) { buf.mem[0].swap(nb.mem[0]); buf.mem[1].swap(nb.mem[1]); buf.fmt = f; buf.n = nb.n; buf.cplx = cplx; fmt = f; bknown = true; known = false; lost = false; }
  void rebind(int f, unsigned tag, bool fault)
  {
    Buf nb; nb.make(f, lsize(), cplx, tag);
    if (lsize() == 0) sim_probe(PR_EMPTY);
    bool failed = false;
    {
      sim_faults_arm(fault);
      try { bind_f(block(), nb, (T *)0); } catch (std::bad_alloc const &) { sim_faults_arm(0); failed = true; sim_probe(PR_NOMEM); }
      sim_faults_arm(0);
    }
    if (failed) { lost = true; if (fmt != F_NONE) buf.check("after a rebind that failed"); lost_now(); return; }
    bound(nb, f);
    { Oracle o_; sync_wbuf(); }
  }
  // after a failed rebind the block can only be bound again or dropped
  void lost_now() { if (block().admitted()) sim_fail("wrong-value", "a failed rebind admitted the block"); known = false; }
  bool rebind_size(int f, unsigned tag, Args &a, bool fault) { return rebind_size_(f, tag, a, fault, std::integral_constant<bool, local>()); }
  bool rebind_size_(int, unsigned, Args &, bool, std::false_type) { return false; }
  bool rebind_size_(int f, unsigned tag, Args &a, bool fault, std::true_type)
  {
    length_type e[3] = { 1, 1, 1 };
    for (dimension_type d = 0; d < DIM; ++d) e[d] = a.extent(DIM == 1 ? 12 : 5, DIM == 3 ? 2 : 5);
    Buf nb; nb.make(f, e[0] * e[1] * e[2], cplx, tag);
    bool failed = false;
    sim_faults_arm(fault);
    try { bind_f(block(), nb, Mk<DIM>::dom(e), (T *)0); } catch (std::bad_alloc const &) { sim_faults_arm(0); failed = true; sim_probe(PR_NOMEM); }
    sim_faults_arm(0);
    if (failed)
    {
      lost = true; lost_now();
      // the size must still fit the storage once bound again: give it one that is known
      Buf again; again.make(f, e[0] * e[1] * e[2], cplx, tag);
      bind_f(block(), again, Mk<DIM>::dom(e), (T *)0);
      bound(again, f);
    }
    else bound(nb, f);
    Oracle o_;
    m.init(e); extents(); sync_wbuf();
    if (block().size() != m.size()) sim_fail("wrong-value", "after rebinding to %lu elements the block has %lu", (unsigned long)m.size(), (unsigned long)block().size());
    for (dimension_type d = 0; d < DIM; ++d)
      if (block().size(DIM, d) != e[d] || view->size(d) != e[d]) sim_fail("wrong-value", "extent %d after rebinding is %lu, should be %lu", int(d), (unsigned long)view->size(d), (unsigned long)e[d]);
    return true;
  }
  void admit(bool update)
  {
    block().admit(update);
    if (admitted) return;
    admitted = true;
    if (fmt == F_NONE) return;
    if (!dist)
    {
      known = update && bknown;
      if (known) { Oracle o_; FromBuf f(*this); each(f); }
    }
    else known = false;           // the other processors' parts are not known here: filled next
  }
  void release(bool update, bool ptrs)
  {
    if (ptrs)
    {
      float *x = reinterpret_cast<float *>(8), *y = x;
      find_f(block(), true, update, fmt, x, y, (T *)0);
      found("release", x, y);
    }
    else block().release(update);
    if (!admitted) return;
    admitted = false;
    if (fmt == F_NONE) return;
    if (update && known) { Oracle o_; bknown = true; ToBuf f(*this); each(f); }
    else bknown = false;
  }
  void found(char const *what, float *x, float *y)
  {
    if (fmt == F_NONE ? x != 0 || y != 0 : lsize() && (x != buf.p(0) || (fmt == F_SPLIT && y != buf.p(1))))
      sim_fail("wrong-value", "%s() reports memory %s, bound is %s", what, x ? "that was not bound last" : "as unbound", fname[fmt]);
  }
  void find()
  {
    float *x = reinterpret_cast<float *>(8), *y = x;
    int f = fmt;
    find_f(block(), false, false, f, x, y, (T *)0);
    found("find", x, y);
    if (cplx && fmt == F_NONE) { x = y = reinterpret_cast<float *>(8); find_f(block(), false, false, F_SPLIT, x, y, (T *)0); found("find", x, y); }
  }
  void scribble(unsigned tag)
  {
    Oracle o_;
    for (length_type i = 0; i < buf.n; ++i) buf.put(i, cf(int(hashu(tag, i) % 99) - 40, int(hashu(tag + 1, i) % 99) - 40));
    sync_wbuf();
    bknown = true;
  }
  bool assign(Base &o)
  {
    if (o.D != D || o.cplx != cplx || &o == this) return false;
    return try_assign(o);
  }
  bool try_assign(Base &o);

  void dda(Args &a) { dda_(a, std::integral_constant<bool, local>()); }
  void dda_(Args &a, std::true_type) { access(block(), m, a, true); }
  struct LocalModel
  {
    Slot &s; Model<T, DIM> &w; bool back;
    LocalModel(Slot &x, Model<T, DIM> &y, bool b) : s(x), w(y), back(b) {}
    void operator()(index_type const *l, index_type const *g) { if (back) s.m.at(g) = w.get(l); else w.at(l) = s.m.get(g); }
  };
  void dda_(Args &a, std::false_type)
  {
    if (a.below(3) == 0)           // the whole object, on every processor
    {
      sim_probe(PR_REMOTE);
      int how = a.below(3); unsigned tag = a.raw(); bool some = a.below(2);
      // a replicated object is accessed through the processor's own replica: there is none elsewhere
      if (std::is_same<M, Replicated_map<DIM> >::value && lsize() == 0)
      {
        Oracle o_;
        for (length_type i = 0; how && i < m.v.size(); ++i)
        { unsigned h = hashu(tag, i); if (how == 2 || !some || h % 3 == 0) m.v[i] = Val<T>::make(h); }
        return;
      }
      if (how == 0) { vsip::dda::Data<B, vsip::dda::in> d(block()); dread(d, d.ptr(), m.ext, m, "read access to a distributed object"); }
      else if (how == 1) { vsip::dda::Data<B, vsip::dda::inout> d(block()); dread(d, d.ptr(), m.ext, m, "access to a distributed object"); dwrite(d, m.ext, m, tag, some, true); }
      else { vsip::dda::Data<B, vsip::dda::out> d(block()); dwrite(d, m.ext, m, tag, false, true); }
      return;
    }
    // the own part: the same change on every processor is drawn from the own elements only,
    // so everything is filled again afterwards
    unsigned again = a.raw();
    if (lsize())
    {
      typename view_type::local_type l = view->local();
      Model<T, DIM> w; w.init(lext);
      { Oracle o_; LocalModel f(*this, w, false); for_local(*view, f); }
      access(l.block(), w, a, false);
      { Oracle o_; Model<T, DIM> keep = m; LocalModel f(*this, w, true); for_local(*view, f); check_local(*view, m, "after access to the own part"); m = keep; }
    }
    refill(again);
  }
  void dda_sub(Args &a) { dda_sub_(a, std::integral_constant<bool, local>()); }
  void dda_sub_(Args &, std::false_type) {}
  void dda_sub_(Args &a, std::true_type) { dda_sub_dim(a, std::integral_constant<int, DIM>()); }
  void subaccess(Domain<1> const *d, Args &a)
  {
    Model<T, DIM> w; length_type e[3] = { 1, 1, 1 };
    for (dimension_type k = 0; k < DIM; ++k) e[k] = d[k].size();
    w.init(e);
    index_type i[3], g[3] = { 0, 0, 0 };
    for (i[0] = 0; i[0] < e[0]; ++i[0]) for (i[1] = 0; i[1] < e[1]; ++i[1]) for (i[2] = 0; i[2] < e[2]; ++i[2])
    { for (dimension_type k = 0; k < DIM; ++k) g[k] = d[k].impl_nth(i[k]); w.at(i) = m.get(g); }
    typename view_type::subview_type s = (*view)(Mk<DIM>::dom(d));
    access(s.block(), w, a, true);
    for (i[0] = 0; i[0] < e[0]; ++i[0]) for (i[1] = 0; i[1] < e[1]; ++i[1]) for (i[2] = 0; i[2] < e[2]; ++i[2])
    { for (dimension_type k = 0; k < DIM; ++k) g[k] = d[k].impl_nth(i[k]); m.at(g) = w.get(i); }
  }
  // --- other parts of a local block: rows, columns, diagonals, slices, transposes, components, and parts of parts
  template <typename T2, dimension_type D2, typename V, typename G>
  void part(V v, length_type n0, length_type n1, length_type n2, Args &a, G at)
  {
    Model<T2, D2> w; length_type e[3] = { n0, n1, n2 };
    w.init(e);
    index_type i[3];
    { Oracle o_; for (i[0] = 0; i[0] < n0; ++i[0]) for (i[1] = 0; i[1] < n1; ++i[1]) for (i[2] = 0; i[2] < n2; ++i[2]) w.at(i) = at(i, (T2 *)0, T2()); }
    for (dimension_type k = 0; k < D2; ++k)
      if (v.size(k) != e[k]) sim_fail("wrong-value", "extent %d of a part is %lu, should be %lu", int(k), (unsigned long)v.size(k), (unsigned long)e[k]);
    Acc<T2, D2> x;
    x.few(v.block(), w, a);
    { Oracle o_; for (i[0] = 0; i[0] < n0; ++i[0]) for (i[1] = 0; i[1] < n1; ++i[1]) for (i[2] = 0; i[2] < n2; ++i[2]) { T2 x = w.get(i); at(i, &x, T2()); } }
    sim_probe(PR_PART);
  }
  // element of the model behind an index of the part
  template <typename F> struct El
  {
    Model<T, DIM> &m; F f;
    template <typename T2> T2 operator()(index_type const *i, T2 *set, T2) const
    { index_type g[3] = { 0, 0, 0 }; f(i, g); if (set) m.at(g) = *set; return m.get(g); }
  };
  template <typename F> El<F> el(F f) { El<F> e = { m, f }; return e; }
  template <typename F> struct Co
  {
    Model<T, DIM> &m; F f; bool imag;
    float operator()(index_type const *i, float *set, float) const
    {
      index_type g[3] = { 0, 0, 0 }; f(i, g); cf v = Cv<T>::to(m.get(g));
      if (set) m.at(g) = Cv<T>::from(imag ? cf(v.real(), *set) : cf(*set, v.imag()));
      return imag ? v.imag() : v.real();
    }
  };
  template <typename F> Co<F> co(F f, bool i) { Co<F> e = { m, f, i }; return e; }
  typedef index_type const *ci; typedef index_type *wi;
  void dda_part(Args &a) { dda_part_(a, std::integral_constant<bool, local>()); }
  void dda_part_(Args &, std::false_type) {}
  void dda_part_(Args &a, std::true_type)
  {
    int how = a.below(8);
    if (cplx && how >= 6) components(a, std::integral_constant<bool, sizeof(T) == sizeof(cf)>());
    else parts(a, std::integral_constant<int, DIM>());
  }
  void components(Args &, std::false_type) {}
  void components(Args &a, std::true_type)
  {
    auto id = [](ci i, wi g) { for (int k = 0; k < 3; ++k) g[k] = i[k]; };
    if (a.below(2)) part<float, DIM>(view->real(), m.ext[0], m.ext[1], m.ext[2], a, co(id, false));
    else part<float, DIM>(view->imag(), m.ext[0], m.ext[1], m.ext[2], a, co(id, true));
  }
  void parts(Args &a, std::integral_constant<int, 1>)
  {
    length_type n = 1 + a.below(m.ext[0]), s = n > 1 ? 1 + a.below((m.ext[0] - 1) / (n - 1)) : 1;
    index_type o = a.below(m.ext[0] - (n - 1) * s);
    // a part of a part
    length_type n2 = 1 + a.below(n), o2 = a.below(n - n2 + 1);
    part<T, 1>((*view)(Domain<1>(o, s, n))(Domain<1>(o2, 1, n2)), n2, 1, 1, a, el([=](ci i, wi g) { g[0] = o + s * (o2 + i[0]); }));
  }
  void parts(Args &a, std::integral_constant<int, 2>)
  {
    index_type r = a.below(m.ext[0]), c = a.below(m.ext[1]);
    length_type n0 = m.ext[0], n1 = m.ext[1];
    switch (a.below(6))
    {
      case 0: part<T, 1>(view->row(r), n1, 1, 1, a, el([=](ci i, wi g) { g[0] = r; g[1] = i[0]; })); break;
      case 1: part<T, 1>(view->col(c), n0, 1, 1, a, el([=](ci i, wi g) { g[0] = i[0]; g[1] = c; })); break;
      case 2:
      {
        int k = a.range(-int(n0) + 1, int(n1) - 1);
        length_type n = k >= 0 ? std::min(n0, n1 - k) : std::min(n1, n0 + k);
        part<T, 1>(view->diag(k), n, 1, 1, a, el([=](ci i, wi g) { g[0] = i[0] + (k < 0 ? -k : 0); g[1] = i[0] + (k > 0 ? k : 0); }));
        break;
      }
      case 3: part<T, 2>(view->transpose(), n1, n0, 1, a, el([=](ci i, wi g) { g[0] = i[1]; g[1] = i[0]; })); break;
      case 4: part<T, 1>((*view)(Domain<2>(Domain<1>(r, 1, n0 - r), Domain<1>(c, 1, n1 - c))).col(0), n0 - r, 1, 1, a, el([=](ci i, wi g) { g[0] = r + i[0]; g[1] = c; })); break;
      case 5: part<T, 1>(view->row(r)(Domain<1>(c, 1, n1 - c)), n1 - c, 1, 1, a, el([=](ci i, wi g) { g[0] = r; g[1] = c + i[0]; })); break;
    }
  }
  void parts(Args &a, std::integral_constant<int, 3>)
  {
    index_type x = a.below(m.ext[0]), y = a.below(m.ext[1]), z = a.below(m.ext[2]);
    length_type n0 = m.ext[0], n1 = m.ext[1], n2 = m.ext[2];
    whole_domain_type const &w = whole_domain;
    switch (a.below(8))
    {
      case 0: part<T, 2>((*view)(x, w, w), n1, n2, 1, a, el([=](ci i, wi g) { g[0] = x; g[1] = i[0]; g[2] = i[1]; })); break;
      case 1: part<T, 2>((*view)(w, y, w), n0, n2, 1, a, el([=](ci i, wi g) { g[0] = i[0]; g[1] = y; g[2] = i[1]; })); break;
      case 2: part<T, 2>((*view)(w, w, z), n0, n1, 1, a, el([=](ci i, wi g) { g[0] = i[0]; g[1] = i[1]; g[2] = z; })); break;
      case 3: part<T, 1>((*view)(x, y, w), n2, 1, 1, a, el([=](ci i, wi g) { g[0] = x; g[1] = y; g[2] = i[0]; })); break;
      case 4: part<T, 1>((*view)(x, w, z), n1, 1, 1, a, el([=](ci i, wi g) { g[0] = x; g[1] = i[0]; g[2] = z; })); break;
      case 5: part<T, 1>((*view)(w, y, z), n0, 1, 1, a, el([=](ci i, wi g) { g[0] = i[0]; g[1] = y; g[2] = z; })); break;
      case 6: part<T, 3>(view->template transpose<1, 0, 2>(), n1, n0, n2, a, el([=](ci i, wi g) { g[0] = i[1]; g[1] = i[0]; g[2] = i[2]; })); break;
      case 7: part<T, 3>(view->template transpose<2, 0, 1>(), n2, n0, n1, a, el([=](ci i, wi g) { g[0] = i[1]; g[1] = i[2]; g[2] = i[0]; })); break;
    }
  }
  template <int N> void dda_sub_dim(Args &a, std::integral_constant<int, N>)
  {
    Domain<1> d[3];
    for (dimension_type k = 0; k < DIM; ++k)
    {
      length_type n = 1 + a.below(m.ext[k]);
      if (a.below(2)) n = m.ext[k];
      length_type st = n > 1 ? 1 + a.below((m.ext[k] - 1) / (n - 1)) : 1;
      length_type span = (n - 1) * st + 1;
      d[k] = Domain<1>(a.below(m.ext[k] - span + 1), st, n);
    }
    subaccess(d, a);
  }
};

template <dimension_type D, typename T, typename O, typename M> struct DB { typedef Dense<D, T, O, M> type; };
typedef Map<Block_dist> MB; typedef Map<Cyclic_dist> MC; typedef Map<Block_dist, Block_dist> MBB; typedef Map<Block_dist, Cyclic_dist> MBC;
#define KINDS(X) \
  X(0, Dense<1, float>, row1_type, Local_map) \
  X(1, Dense<2, float>, row2_type, Local_map) \
  X(2, Dense<1, cf>, row1_type, Local_map) \
  typedef Dense<2, cf, col2_type> K3; X(3, K3, col2_type, Local_map) \
  typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex> > K4; X(4, K4, row1_type, Local_map) \
  typedef ovxx::Strided<2, cf, Layout<2, row2_type, dense, split_complex> > K5; X(5, K5, row2_type, Local_map) \
  X(6, Dense<3, float>, row3_type, Local_map) \
  typedef Dense<1, float, row1_type, MB> K7; X(7, K7, row1_type, MB) \
  typedef Dense<1, float, row1_type, MC> K8; X(8, K8, row1_type, MC) \
  typedef Dense<2, cf, row2_type, MBB> K9; X(9, K9, row2_type, MBB) \
  typedef Dense<2, float, col2_type, MBC> K10; X(10, K10, col2_type, MBC) \
  typedef Dense<1, cf, row1_type, MC> K11; X(11, K11, row1_type, MC) \
  typedef Dense<1, float, row1_type, Replicated_map<1> > K12; X(12, K12, row1_type, Replicated_map<1>) \
  typedef Dense<3, cf, col3_type> K13; X(13, K13, col3_type, Local_map)
enum { NKIND = 14 };
#define NOP(...)
typedef Dense<2, cf, col2_type> K3; typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex> > K4;
typedef ovxx::Strided<2, cf, Layout<2, row2_type, dense, split_complex> > K5;
typedef Dense<1, float, row1_type, MB> K7; typedef Dense<1, float, row1_type, MC> K8; typedef Dense<2, cf, row2_type, MBB> K9;
typedef Dense<2, float, col2_type, MBC> K10; typedef Dense<1, cf, row1_type, MC> K11; typedef Dense<1, float, row1_type, Replicated_map<1> > K12;
typedef Dense<3, cf, col3_type> K13;
typedef Slot<Dense<1, float>, row1_type, Local_map> S0; typedef Slot<Dense<2, float>, row2_type, Local_map> S1; typedef Slot<Dense<1, cf>, row1_type, Local_map> S2;
typedef Slot<K3, col2_type, Local_map> S3; typedef Slot<K4, row1_type, Local_map> S4; typedef Slot<K5, row2_type, Local_map> S5; typedef Slot<Dense<3, float>, row3_type, Local_map> S6;
typedef Slot<K7, row1_type, MB> S7; typedef Slot<K8, row1_type, MC> S8; typedef Slot<K9, row2_type, MBB> S9; typedef Slot<K10, col2_type, MBC> S10;
typedef Slot<K11, row1_type, MC> S11; typedef Slot<K12, row1_type, Replicated_map<1> > S12; typedef Slot<K13, col3_type, Local_map> S13;

// the pairs that can be assigned: of the same element type and dimension, both local or both distributed
template <typename A, typename B, bool OK> struct Assign { static bool go(A &, Base &) { return false; } };
template <typename A, typename B> struct Assign<A, B, true>
{
  static bool go(A &a, Base &o)
  {
    B &b = static_cast<B &>(o);
    for (int d = 0; d < 3; ++d) if (a.m.ext[d] != b.m.ext[d]) return false;
    *a.view = *b.view;
    a.m.v = b.m.v; a.known = true;
    return true;
  }
};
template <typename A, typename B> struct Compat
{ enum { value = std::is_same<typename A::T, typename B::T>::value && int(A::DIM) == int(B::DIM) && int(A::local) == int(B::local) }; };
template <typename A> bool assign_to(A &a, Base &o)
{
  switch (o.kind)
  {
#define C(K) case K: return Assign<A, S##K, Compat<A, S##K>::value>::go(a, o);
    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13)
  }
  return false;
}
template <typename B, typename O, typename M> bool Slot<B, O, M>::try_assign(Base &o) { return assign_to(*this, o); }

Base *make(int k, length_type const *e, MapParam const &q, int how, int f, unsigned tag)
{
  switch (k)
  {
#define N(K) case K: return new S##K(e, q, how, f, tag, K);
    N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10) N(11) N(12) N(13)
  }
  return 0;
}
int const kdim[] = { 1, 2, 1, 2, 1, 2, 3, 1, 1, 2, 2, 1, 1, 3 };
bool const kcplx[] = { 0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 1, 0, 1 };

// a block whose contents the program may use
void ready(Base &b, Args &a)
{
  if (b.lost) b.rebind(b.cplx ? 1 + a.below(3) : F_ARRAY, a.raw(), false);
  if (!b.admitted) b.admit(true);
  if (!b.known) b.refill(a.raw());
}
void run(SimProg const *p)
{
  std::vector<std::unique_ptr<Base> > s;
  for (int n = 0; n < p->nops; ++n)
  {
    Args a(p->ops[n]);
    int code = p->ops[n].code;
    if (s.empty() && code != OP_MAKE) continue;
    if (code == OP_MAKE)
    {
      if (s.size() >= 4) continue;
      int k = a.below(NKIND);
      length_type e[3] = { 1, 1, 1 };
      bool same = a.below(3) == 0;
      for (int d = 0; d < kdim[k]; ++d) e[d] = same ? 3 + d : a.extent(kdim[k] == 1 ? 12 : 5, kdim[k] == 3 ? 2 : 5);
      MapParam q; q.draw(a, nranks);
      int how = a.below(3), f = kcplx[k] ? 1 + a.below(3) : F_ARRAY; unsigned tag = a.raw();
      bool local = k < 7 || k == 13;
      if (!local) sim_probe(PR_DIST);
      sim_note("object %d: kind %d %lux%lux%lu, %s", int(s.size()), k, (unsigned long)e[0], (unsigned long)e[1], (unsigned long)e[2], how == 0 ? "own storage" : how == 1 ? "null" : fname[f]);
      Base *b = 0;
      sim_faults_arm(local);
      try { b = make(k, e, q, how, f, tag); } catch (std::bad_alloc const &) { sim_probe(PR_NOMEM); }
      sim_faults_arm(0);
      if (!b) b = make(k, e, q, how, f, tag);   // there is memory again
      if (b) s.push_back(std::unique_ptr<Base>(b));
      continue;
    }
    size_t x = a.below(s.size());
    Base &b = *s[x];
    sim_note("%d: op %d on %d", n, code, int(x));
    int f = b.cplx ? 1 + a.below(3) : F_ARRAY;
    switch (code)
    {
      case OP_DROP: s[x].swap(s.back()); s.pop_back(); break;
      case OP_REBIND:
        if (b.admitted) b.release(false, false);
        if (b.fmt != F_NONE && b.fmt != f) sim_probe(PR_FORMAT);
        b.rebind(f, a.raw(), !b.dist);
        break;
      case OP_REBIND_SIZE:
        if (b.admitted) b.release(false, false);
        if (b.rebind_size(f, a.raw(), a, true)) sim_probe(PR_SIZE);
        break;
      case OP_ADMIT:
      {
        if (b.lost) b.rebind(f, a.raw(), false);
        bool was = b.admitted, upd = a.below(4) != 3;
        b.admit(upd);
        if (!was && b.dist && b.fmt != F_NONE)
        {
          // every processor's memory is compared with its part, then everything is given known contents
          if (upd && b.bknown) { /* checked by the own part below */ }
          b.refill(a.raw());
        }
        break;
      }
      case OP_RELEASE: if (!b.lost) b.release(a.below(4) != 3, a.below(2)); break;
      case OP_FIND: if (!b.lost) b.find(); break;
      case OP_SCRIBBLE: if (!b.admitted && b.fmt != F_NONE && !b.lost) b.scribble(a.raw()); break;
      case OP_FILL: if (b.admitted) b.refill(a.raw()); break;
      case OP_PUT: ready(b, a); b.set(a); break;
      case OP_ASSIGN:
      {
        Base &o = *s[a.below(s.size())];
        ready(b, a); ready(o, a); b.assign(o);
        break;
      }
      case OP_DDA: ready(b, a); b.dda(a); break;
      case OP_DDA_PART: ready(b, a); b.dda_part(a); break;
      case OP_DDA_SUB: ready(b, a); b.dda_sub(a); break;
    }
    for (size_t k = 0; k < s.size(); ++k) { char what[60]; snprintf(what, sizeof what, "object %d after operation %d", int(k), n); if (!s[k]->lost) s[k]->check(what); }
  }
}
}
extern "C" {
struct SimInfo const wl_info = { "user", 1, 3, 4, 16, NOPS, weights, SIM_F_ALLOC, 0 };
void wl_rank(struct SimProg const *p, int)
{
  long before;
  { { std::vector<int> w(1); } before = sim_live_allocs(); }
  {
    vsip::vsipl lib;
    nranks = num_processors(); me = local_processor();
    run(p);
  }
  if (sim_live_allocs() != before) sim_fail("memory-leak", "%ld allocations left over at the end", sim_live_allocs() - before);
  sim_check_all_heap();
}
}
