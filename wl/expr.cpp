// Elementwise expressions over distributed operands with different maps.
// WL_PART 0 is the interpreter, the other parts instantiate combinations of
// map kinds: WL_D, WL_COMBOS = list of X(KA, KB, KC), element type WL_T.
#include "objects.hpp"
using namespace wl;
struct TripleBase
{
  virtual ~TripleBase() {}
  virtual void op(Args &, unsigned tag) = 0;
  virtual void check(char const *) = 0;
};
typedef TripleBase *(*TripleFn)(Args &, int nranks, unsigned tag);
std::vector<TripleFn> &triples();
enum { PR_TRANSPOSE, PR_ROW, PR_SUB, PR_INPLACE, PR_DIFFMAP };

#ifdef WL_MAIN
std::vector<TripleFn> &triples() { static std::vector<TripleFn> t; return t; }
enum { OP_CREATE, OP_USE, OP_USE2, NOPS };
static int const weight[] = { 2, 4, 4 };
extern "C" { SimInfo const wl_info = { "expr", 1, 6, 2, 8, NOPS, weight, SIM_F_MPIERR, SIM_FL_FAILSTOP | SIM_FL_FAULTBIAS }; }
extern "C" void wl_rank(SimProg const *p, int rank)
{
  vsipl lib;
  long types = sim_live_types();
  {
    std::unique_ptr<TripleBase> t;
    for (int i = 0; i < p->nops; ++i)
    {
      Args a(p->ops[i]); FaultyOp f_(i);
      if (p->ops[i].code == OP_CREATE || !t) { t.reset(); t.reset(triples()[a.below(triples().size())](a, p->nranks, 3 * i + 1)); }
      else { t->op(a, 3 * i + 2); t->check("object after the expression"); }
    }
  }
  if (sim_live_types() > types) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
}
#else

template <dimension_type D, typename M, typename F> inline void each(M &m, F f)
{ Oracle o_; auto g = [&](index_type const *i) { index_type x[3] = { i[0], i[1], i[2] }; m.at(x) = f(x); }; for_box<D>(m.ext, g); }
inline float rng(float v) { return v; }

template <typename O> struct Rows { template <typename OV> static void go(O &, OV &, Args &) {} };
template <typename TR> struct Extra1 { static void go(TR &, Args &) {} };
template <typename TR> struct Extra2 { static void go(TR &, Args &) {} };

template <typename T> struct Keep { static bool ok(T v) { return re(v) > -30000 && re(v) < 30000 && im(v) > -30000 && im(v) < 30000; } };

template <typename T, dimension_type D, int KA, int KB, int KC>
struct Triple : TripleBase
{
  typedef Obj<T, D, KA> OA; typedef Obj<T, D, KB> OB; typedef Obj<T, D, KC> OC;
  enum { cyclic = has_cyclic<typename OA::map_type>::value || has_cyclic<typename OB::map_type>::value || has_cyclic<typename OC::map_type>::value };
  OA a; OB b; OC c;
  int nranks;
  Triple(length_type const *n, length_type const *nt, MapParam const &q1, MapParam const &q2, MapParam const &q3, int nr, unsigned tag)
    : a(n, q1, nr), b(nt, q2, nr), c(n, q3, nr), nranks(nr)
  {
    a.refill(tag); b.refill(tag + 1); c.refill(tag + 2);
    sim_note("A: %s; B: %s; C: %s", describe(a).c_str(), describe(b).c_str(), describe(c).c_str());
  }
  static TripleBase *make(Args &g, int nranks, unsigned tag)
  {
    MapParam q1, q2, q3; q1.draw(g, nranks); q2.draw(g, nranks);
    int same = g.below(4);
    if (same == 3) { q2 = q1; q3 = q1; } else q3 = same == 2 ? q2 : q1;
    q3.perm = g.below(8);
    length_type n[3] = { 1, 1, 1 };
    for (dimension_type d = 0; d < D; ++d) n[d] = 1 + g.below(D == 1 ? 20 : D == 2 ? 8 : 4);
    int big = g.below(16); if (big < 2) n[big ? D - 1 : 0] *= D == 3 ? 3 : 5;
    return new Triple(n, n, q1, q2, q3, nranks, tag);
  }
  void check(char const *w) { a.check(w); b.check(w); c.check(w); }
  // values stay small enough for exact arithmetic
  void tame(unsigned tag)
  {
    bool ok = true;
    for (auto v : a.m.v) ok = ok && Keep<T>::ok(v);
    if (!ok) a.refill(tag);
  }
  void op(Args &g, unsigned tag)
  {
    int w = g.below(13);
    typedef index_type const *IX;
    Model<T, D> &A = a.m, &B = b.m, &C = c.m;
    if (w) sim_note("expression %d", w);
    switch (w)
    {
      case 0: a.view = b.view + c.view; each<D>(A, [&](IX x) { return B.get(x) + C.get(x); }); break;
      case 1: a.view = T(2) * b.view - a.view; each<D>(A, [&](IX x) { return T(2) * B.get(x) - A.get(x); }); break;
      case 2: a.view += b.view; each<D>(A, [&](IX x) { return A.get(x) + B.get(x); }); sim_probe(PR_INPLACE); break;
      case 3: a.view = b.view * c.view; each<D>(A, [&](IX x) { return B.get(x) * C.get(x); }); break;
      case 4: a.view = T(g.below(50)); { T v = T(Args(g.op).op.a[0] * 0); Args h(g.op); h.below(13); v = T(h.below(50)); each<D>(A, [&](IX) { return v; }); } break;
      case 5: a.view = -b.view; each<D>(A, [&](IX x) { return -B.get(x); }); break;
      case 6: a.view -= T(3) * c.view; each<D>(A, [&](IX x) { return A.get(x) - T(3) * C.get(x); }); sim_probe(PR_INPLACE); break;
      case 7: a.view = b.view * c.view + a.view; each<D>(A, [&](IX x) { return B.get(x) * C.get(x) + A.get(x); }); break;
      case 8: c.view = b.view; each<D>(C, [&](IX x) { return B.get(x); }); break;
      case 9: b.view = a.view - c.view; each<D>(B, [&](IX x) { return A.get(x) - C.get(x); });
        { bool ok = true; for (auto v : B.v) ok = ok && Keep<T>::ok(v); if (!ok) b.refill(tag); } break;
      case 10: Extra1<Triple>::go(*this, g); break;
      case 11: Extra2<Triple>::go(*this, g); break;
      case 12: if (!cyclic) Sub<Triple, cyclic>::go(*this, g); break;
    }
    tame(tag);
  }
  template <typename TR, int CY> struct Sub { static void go(TR &, Args &) {} };
  template <typename TR> struct Sub<TR, 0>
  {
    static void go(TR &t, Args &g)
    {
      Domain<1> da[3], db[3], dc[3]; length_type n[3] = { 1, 1, 1 };
      int alike = g.below(8);       // often the same parts, or nearly everything
      for (dimension_type d = 0; d < D; ++d)
      {
        length_type e = t.a.m.ext[d]; n[d] = alike >= 6 && e > 1 ? e - g.below(2) : 1 + g.below(e);
        da[d] = draw_dom(g, e, n[d], true); db[d] = draw_dom(g, e, n[d], true); dc[d] = draw_dom(g, e, n[d], true);
        if (alike % 4 == 0) db[d] = da[d]; if (alike == 0 || alike == 4 || alike == 5) dc[d] = da[d];
      }
      sim_probe(PR_SUB);
      int how = g.below(3);
      if (how == 0) t.a.view(Mk<D>::dom(da)) = t.b.view(Mk<D>::dom(db)) + t.c.view(Mk<D>::dom(dc));
      else if (how == 1) t.a.view(Mk<D>::dom(da)) = T(7);
      else t.a.view(Mk<D>::dom(da)) += t.b.view(Mk<D>::dom(db));
      Oracle o_;
      auto f = [&](index_type const *y)
      {
        index_type x[3] = { 0, 0, 0 }, u[3] = { 0, 0, 0 }, v[3] = { 0, 0, 0 };
        for (dimension_type d = 0; d < D; ++d) { x[d] = da[d].impl_nth(y[d]); u[d] = db[d].impl_nth(y[d]); v[d] = dc[d].impl_nth(y[d]); }
        t.a.m.at(x) = how == 0 ? t.b.m.get(u) + t.c.m.get(v) : how == 1 ? T(7) : t.a.m.get(x) + t.b.m.get(u);
      };
      for_box<D>(n, f);
    }
  };
};
// real element types: functions and selections
template <dimension_type D, int KA, int KB, int KC> struct Extra1<Triple<float, D, KA, KB, KC> >
{
  typedef Triple<float, D, KA, KB, KC> TR;
  static void go(TR &t, Args &g)
  {
    typedef index_type const *IX;
    Model<float, D> &A = t.a.m, &B = t.b.m, &C = t.c.m;
    int w = g.below(6); float th = g.below(100);
    sim_note("function %d", w);
    switch (w)
    {
      case 0: t.a.view = ite(t.b.view > th, t.b.view, t.c.view); each<D>(A, [&](IX x) { return B.get(x) > th ? B.get(x) : C.get(x); }); break;
      case 1: t.a.view = clip(t.b.view, -th - 1, th, -th - 2, th + 3); each<D>(A, [&](IX x) { float v = B.get(x); return v <= -th - 1 ? -th - 2 : v >= th ? th + 3 : v; }); break;
      case 2: t.a.view = mag(t.b.view) + sq(t.c.view); each<D>(A, [&](IX x) { float c = C.get(x), v = B.get(x); return (v < 0 ? -v : v) + c * c; }); break;
      case 3: t.a.view = max(t.b.view, t.c.view) - min(t.a.view, t.c.view); each<D>(A, [&](IX x) { return std::max(B.get(x), C.get(x)) - std::min(A.get(x), C.get(x)); }); break;
      case 4: t.a.view = ma(t.b.view, t.c.view, t.a.view); each<D>(A, [&](IX x) { return B.get(x) * C.get(x) + A.get(x); }); break;
      case 5: t.a.view = am(t.b.view, t.c.view, th); each<D>(A, [&](IX x) { return (B.get(x) + C.get(x)) * th; }); break;
    }
  }
};
template <dimension_type D, int KA, int KB, int KC> struct Extra1<Triple<vsip::complex<float>, D, KA, KB, KC> >
{
  typedef vsip::complex<float> CF;
  typedef Triple<CF, D, KA, KB, KC> TR;
  static void go(TR &t, Args &g)
  {
    typedef index_type const *IX;
    Model<CF, D> &A = t.a.m, &B = t.b.m, &C = t.c.m;
    switch (g.below(3))
    {
      case 0: t.a.view = t.b.view + conj(t.c.view); each<D>(A, [&](IX x) { return B.get(x) + vsip::conj(C.get(x)); }); break;
      case 1: t.a.view = jmul(t.b.view, t.c.view); each<D>(A, [&](IX x) { return B.get(x) * vsip::conj(C.get(x)); }); break;
      case 2: t.a.view = CF(0, 1) * t.b.view; each<D>(A, [&](IX x) { return CF(0, 1) * B.get(x); }); break;
    }
  }
};
// vectors: ramps.  matrices: transposes, rows.
template <int KA, int KB, int KC> struct Extra2<Triple<float, 1, KA, KB, KC> >
{
  typedef Triple<float, 1, KA, KB, KC> TR;
  static void go(TR &t, Args &g)
  {
    typedef index_type const *IX;
    Model<float, 1> &A = t.a.m, &B = t.b.m;
    float s = g.below(20), d = 1 + g.below(4);
    if (g.below(2)) { t.a.view = ramp<float>(s, d, A.ext[0]); each<1>(A, [&](IX x) { return s + d * x[0]; }); }
    else { t.a.view = ramp<float>(s, d, A.ext[0]) + t.b.view; each<1>(A, [&](IX x) { return s + d * x[0] + B.get(x); }); }
  }
};
template <typename T, int KA, int KB, int KC> struct Extra2<Triple<T, 2, KA, KB, KC> >
{
  typedef Triple<T, 2, KA, KB, KC> TR;
  template <int KV, typename DUMMY> struct RowOps
  {
    static void go(TR &t, Args &g)
    {
      typedef index_type const *IX;
      bool const col = g.below(2);
      length_type nv[3] = { t.a.m.ext[col ? 0 : 1], 1, 1 };
      MapParam q; q.draw(g, t.nranks);
      Obj<T, 1, KV> v(nv, q, t.nranks); v.refill(g.raw());
      index_type r = g.below(t.a.m.ext[col ? 1 : 0]);
      int how = g.below(3);
      sim_note("%s %lu, vector %s, form %d", col ? "column" : "row", (unsigned long)r, describe(v).c_str(), how);
      sim_probe(PR_ROW);
      auto in = [&](IX x) { return x[col ? 1 : 0] == r; };
      switch (how + 3 * col)
      {
        case 0: v.view = t.a.view.row(r); break;
        case 1: t.a.view.row(r) = v.view; break;
        case 2: v.view = v.view + t.a.view.row(r); break;
        case 3: v.view = t.a.view.col(r); break;
        case 4: t.a.view.col(r) = v.view; break;
        case 5: v.view = v.view + t.a.view.col(r); break;
      }
      auto at = [&](IX x) { index_type y[3] = { col ? x[0] : r, col ? r : x[0], 0 }; return t.a.m.get(y); };
      if (how == 0) each<1>(v.m, at);
      else if (how == 2) each<1>(v.m, [&](IX x) { return v.m.get(x) + at(x); });
      else each<2>(t.a.m, [&](IX x) { if (!in(x)) return t.a.m.get(x); index_type y[3] = { x[col ? 0 : 1], 0, 0 }; return v.m.get(y); });
      v.check("vector after a row operation");
    }
  };
  template <typename DUMMY, int CY> struct MaybeRow { static void go(TR &t, Args &g) { if (g.below(2)) RowOps<0, int>::go(t, g); else RowOps<2, int>::go(t, g); } };
  template <typename DUMMY> struct MaybeRow<DUMMY, 1> { static void go(TR &, Args &) {} };
  static void go(TR &t, Args &g)
  {
    typedef index_type const *IX;
    if (!has_cyclic<typename TR::OA::map_type>::value && g.below(3)) { MaybeRow<int, has_cyclic<typename TR::OA::map_type>::value>::go(t, g); return; }
    // a matrix of the transposed shape with B's kind of map
    length_type nt[3] = { t.a.m.ext[1], t.a.m.ext[0], 1 };
    MapParam q; q.draw(g, t.nranks);
    typename TR::OB z(nt, q, t.nranks); z.refill(g.raw());
    sim_note("A = Z.transpose(), Z: %s", describe(z).c_str());
    sim_probe(PR_TRANSPOSE);
    t.a.view = z.view.transpose();
    each<2>(t.a.m, [&](IX x) { index_type y[3] = { x[1], x[0], 0 }; return z.m.get(y); });
    z.check("source of the transpose");
  }
};
// tensors: matrix and vector slices
template <typename T, int KA, int KB, int KC> struct Extra2<Triple<T, 3, KA, KB, KC> >
{
  typedef Triple<T, 3, KA, KB, KC> TR;
  template <typename TT, int CY> struct Slices { static void go(TT &, Args &) {} };
  template <typename TT> struct Slices<TT, 0>
  {
    static void go(TT &t, Args &g)
    {
      typedef index_type const *IX;
      whole_domain_type const W = whole_domain;
      length_type const *e = t.a.m.ext;
      int d = g.below(3), how = g.below(2);
      MapParam q; q.draw(g, t.nranks);
      {
        index_type r0 = g.below(e[d == 0 ? 1 : 0]), r1 = g.below(e[d == 2 ? 1 : 2]);
        length_type n[3] = { e[d], 1, 1 };
        Obj<T, 1, 0> v(n, q, t.nranks); v.refill(g.raw());
        sim_note("line (%lu,%lu) along dimension %d, vector %s", (unsigned long)r0, (unsigned long)r1, d, describe(v).c_str());
        if (how == 0)
        {
          if (d == 0) v.view = t.a.view(W, r0, r1); else if (d == 1) v.view = t.a.view(r0, W, r1); else v.view = t.a.view(r0, r1, W);
          each<1>(v.m, [&](IX x) { index_type y[3] = { d == 0 ? x[0] : r0, d == 0 ? r0 : d == 1 ? x[0] : r1, d == 2 ? x[0] : r1 }; return t.a.m.get(y); });
        }
        else
        {
          if (d == 0) t.a.view(W, r0, r1) = v.view; else if (d == 1) t.a.view(r0, W, r1) = v.view; else t.a.view(r0, r1, W) = v.view;
          each<3>(t.a.m, [&](IX x) { if (x[d == 0 ? 1 : 0] != r0 || x[d == 2 ? 1 : 2] != r1) return t.a.m.get(x); index_type y[3] = { x[d], 0, 0 }; return v.m.get(y); });
        }
        v.check("vector after a slice operation");
      }
    }
  };
  static void go(TR &t, Args &g) { Slices<TR, has_cyclic<typename TR::OA::map_type>::value>::go(t, g); }
};
template <typename T, dimension_type D, int KA, int KB, int KC> struct Reg
{ Reg() { triples().push_back(&Triple<T, D, KA, KB, KC>::make); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#ifdef WL_A
static Reg<WL_T, WL_D, WL_A> ra_;
#endif
#ifdef WL_B
static Reg<WL_T, WL_D, WL_B> rb_;
#endif
#endif
