// Matrix decompositions and solvers under histories: decompositions, solutions
// and products from them, copies, assignments and ends in any order, of local
// data in any shape of memory and of distributed data, with allocations that
// fail while objects are made or copied.  Judged by small serial algorithms.
#include "objects.hpp"
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <complex>
#include <cmath>
#include <new>

using namespace wl;
typedef std::complex<double> Z;
typedef std::vector<Z> ZV;
enum { PR_LU, PR_CHOL, PR_QR, PR_SVD, PR_COPY, PR_ASSIGN, PR_NOMEM, PR_DIST, PR_REJECT, PR_AGAIN, PR_TOEP, PR_LSQ, PR_PROD, PR_DOT };

struct Solver
{
  int type;
  virtual ~Solver() {}
  virtual void decompose(Args &, int nranks) = 0;
  virtual void use(Args &, int nranks) = 0;
  virtual Solver *copy() = 0;
  virtual bool assign(Solver &) = 0;
};
typedef Solver *(*SolverMaker)(Args &);
typedef void (*SolveFn)(Args &, int nranks);
struct SolveTables { SolverMaker make[4][8]; SolveFn fn[4][6]; };
SolveTables &solve_tables();

#if SLV_PART == 0
namespace wl { Tables &tables() { static Tables t; return t; } }
SolveTables &solve_tables() { static SolveTables t; return t; }
enum { OP_MAKE, OP_DECOMPOSE, OP_USE, OP_COPY, OP_ASSIGN, OP_DROP, OP_FUNCTION, NOPS };
static int const weights[] = { 3, 4, 8, 2, 2, 1, 5 };
extern "C" { SimInfo const wl_info = { "solve", 1, 4, 4, 20, NOPS, weights, SIM_F_ALLOC, 0 }; }

namespace {
// Make an object while memory is scarce; in the end it is there.
template <typename F> Solver *scarce(F f)
{
  for (int n = 0; ; ++n)
  {
    sim_faults_arm(n < 2);
    try { Solver *s = f(); sim_faults_arm(0); return s; }
    catch (std::bad_alloc &) { sim_faults_arm(0); sim_probe(PR_NOMEM); }
  }
}
void program(SimProg const *p)
{
  enum { N = 4 };
  std::unique_ptr<Solver> s[N];
  for (int i = 0; i < p->nops; ++i)
  {
    Args a(p->ops[i]);
    int op = p->ops[i].code, k = a.below(N), j = a.below(N);
    int type = a.below(4), kind = a.below(8);
    if (op == OP_FUNCTION) { solve_tables().fn[type][a.below(6)](a, p->nranks); continue; }
    if (op == OP_MAKE || !s[k])
    {
      s[k].reset();
      Args const a0 = a;
      s[k].reset(scarce([&] { Args b = a0; return solve_tables().make[type][kind](b); }));
      s[k]->type = type * 8 + kind;
      for (int n = 0; n < 4; ++n) a.raw();
      s[k]->decompose(a, p->nranks);
      continue;
    }
    if (op == OP_DECOMPOSE) { sim_probe(PR_AGAIN); s[k]->decompose(a, p->nranks); }
    else if (op == OP_USE) s[k]->use(a, p->nranks);
    else if (op == OP_COPY && k != j)
    {
      Solver *from = s[k].get();
      sim_note("solver %d is copied to %d", k, j);
      Solver *c = scarce([=] { return from->copy(); });
      c->type = s[k]->type;
      s[j].reset(c);
      sim_probe(PR_COPY);
      s[j]->use(a, p->nranks);
    }
    else if (op == OP_ASSIGN)
    {
      for (int n = 0; n < N; ++n, j = (j + 1) % N)
        if (s[j] && s[j]->type == s[k]->type && s[k]->assign(*s[j]))
        { sim_note("solver %d is assigned %d", k, j); if (j != k) sim_probe(PR_ASSIGN); break; }
      s[k]->use(a, p->nranks);
    }
    else if (op == OP_DROP) s[k].reset();
  }
  for (int k = 0; k < N; ++k) if (s[k]) { SimOp o = SimOp(); Args z(o); s[k]->use(z, p->nranks); }
}
}
extern "C" void wl_rank(SimProg const *p, int)
{
  vsipl lib;
  long types = sim_live_types(), mem = 0;
  for (int round = 0; round < 1; ++round) program(p);
  (void)mem;
  if (sim_live_types() > types) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
}
#else
// ------------------------------------------------------------------ one type
#if SLV_T == 0
typedef float T;
#elif SLV_T == 1
typedef double T;
#elif SLV_T == 2
typedef vsip::complex<float> T;
#else
typedef vsip::complex<double> T;
#endif
namespace {
bool const cplx = SLV_T > 1;
double const EPS = (SLV_T & 1) ? 1e-9 : 2e-3;
typedef ovxx::scalar_of<T>::type S;
mat_op_type const TR = cplx ? mat_herm : mat_trans;     // the adjoint
Z z(double v) { return Z(v, 0); }
template <typename U> Z z(vsip::complex<U> v) { return Z(v.real(), v.imag()); }
inline void from(Z v, float &o) { o = float(v.real()); }
inline void from(Z v, double &o) { o = v.real(); }
template <typename U> inline void from(Z v, vsip::complex<U> &o) { o = vsip::complex<U>(U(v.real()), U(v.imag())); }
T t(Z v) { T o; from(v, o); return o; }
Z value(unsigned h) { return Z(int(h % 9) - 4, cplx ? int((h >> 8) % 9) - 4 : 0); }

// --------------------------------------------------------- the serial model
struct M
{
  length_type r, c; ZV v;
  M(length_type rr = 0, length_type cc = 0) : r(rr), c(cc), v(rr * cc) {}
  Z &operator()(index_type i, index_type j) { return v[i * c + j]; }
  Z operator()(index_type i, index_type j) const { return v[i * c + j]; }
};
M identity(length_type n) { M m(n, n); for (index_type i = 0; i < n; ++i) m(i, i) = 1; return m; }
M adjoint(M const &a) { M o(a.c, a.r); for (index_type i = 0; i < a.r; ++i) for (index_type j = 0; j < a.c; ++j) o(j, i) = std::conj(a(i, j)); return o; }
M transpose(M const &a) { M o(a.c, a.r); for (index_type i = 0; i < a.r; ++i) for (index_type j = 0; j < a.c; ++j) o(j, i) = a(i, j); return o; }
M mul(M const &a, M const &b)
{
  M o(a.r, b.c);
  for (index_type i = 0; i < a.r; ++i) for (index_type k = 0; k < a.c; ++k) for (index_type j = 0; j < b.c; ++j) o(i, j) += a(i, k) * b(k, j);
  return o;
}
M cols(M const &a, index_type lo, length_type n) { M o(a.r, n); for (index_type i = 0; i < a.r; ++i) for (index_type j = 0; j < n; ++j) o(i, j) = a(i, lo + j); return o; }
// a x = b, partial pivoting
M gauss(M a, M b)
{
  length_type n = a.r;
  for (index_type k = 0; k < n; ++k)
  {
    index_type p = k;
    for (index_type i = k; i < n; ++i) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
    for (index_type j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
    for (index_type j = 0; j < b.c; ++j) std::swap(b(k, j), b(p, j));
    for (index_type i = 0; i < n; ++i) if (i != k)
    {
      Z f = a(i, k) / a(k, k);
      for (index_type j = 0; j < n; ++j) a(i, j) -= f * a(k, j);
      for (index_type j = 0; j < b.c; ++j) b(i, j) -= f * b(k, j);
    }
  }
  for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < b.c; ++j) b(i, j) /= a(i, i);
  return b;
}
double largest(M const &a) { double x = 0; for (Z e : a.v) x = std::max(x, std::abs(e)); return x; }
void same(M const &got, M const &want, double scale, char const *what)
{
  double tol = EPS * (scale + 1);
  for (index_type i = 0; i < want.r; ++i) for (index_type j = 0; j < want.c; ++j)
    if (!(std::abs(got(i, j) - want(i, j)) <= tol))
      sim_fail("wrong-value", "%s: element (%lu,%lu) is (%g,%g), should be (%g,%g)", what, (unsigned long)i, (unsigned long)j,
               got(i, j).real(), got(i, j).imag(), want(i, j).real(), want(i, j).imag());
}
M random_matrix(length_type r, length_type c, unsigned tag)
{ M m(r, c); for (index_type i = 0; i < r; ++i) for (index_type j = 0; j < c; ++j) m(i, j) = value(hashu(tag, i * 31 + j)); return m; }
// not close to singular: a heavy (possibly permuted) diagonal
M regular(length_type r, length_type c, unsigned tag)
{
  M m = random_matrix(r, c, tag);
  length_type n = std::min(r, c), s = hashu(tag, 77) % n;
  for (index_type i = 0; i < n; ++i) m(r > c ? i : (i + s) % n, r > c ? (i + s) % n : i) += double(8 * n);
  return m;
}
M positive(length_type n, unsigned tag)
{
  M m = random_matrix(n, n, tag);
  for (index_type i = 0; i < n; ++i) { for (index_type j = 0; j < i; ++j) m(i, j) = std::conj(m(j, i)); m(i, i) = double(8 * n) + i; }
  return m;
}

// --------------------------------------------- matrices in memory of any shape
template <typename V> void fill_local(V v, M const &m) { Oracle o_; for (index_type i = 0; i < m.r; ++i) for (index_type j = 0; j < m.c; ++j) v.put(i, j, t(m(i, j))); }
template <typename V> M read_local(V v) { Oracle o_; M m(v.size(0), v.size(1)); for (index_type i = 0; i < m.r; ++i) for (index_type j = 0; j < m.c; ++j) m(i, j) = z(v.get(i, j)); return m; }
template <int K> struct Mem;
template <typename O> struct MemL
{
  typedef Matrix<T, Dense<2, T, O> > view_type;
  view_type v;
  MemL(length_type r, length_type c, Args &, int) : v(r, c) {}
  view_type view() { return v; }
  void fill(M const &m) { fill_local(v, m); }
  void check(M const &m, double s, char const *w) { same(read_local(v), m, s, w); }
};
template <> struct Mem<0> : MemL<row2_type> { using MemL<row2_type>::MemL; };
template <> struct Mem<1> : MemL<col2_type> { using MemL<col2_type>::MemL; };
// part of a larger matrix; the rest must not change
template <> struct Mem<2>
{
  typedef Matrix<T>::subview_type view_type;
  length_type r, c, sr, sc; Matrix<T> whole; M image; Domain<2> d;
  Mem(length_type rr, length_type cc, Args &, int) : r(rr), c(cc), sr(2), sc(3), whole(rr * 2 + 2, cc * 3 + 1), image(rr * 2 + 2, cc * 3 + 1), d(Domain<1>(1, 2, rr), Domain<1>(1, 3, cc))
  { for (index_type i = 0; i < image.r; ++i) for (index_type j = 0; j < image.c; ++j) image(i, j) = 77; fill_local(whole, image); }
  view_type view() { return whole(d); }
  void fill(M const &m) { check_rest(); for (index_type i = 0; i < r; ++i) for (index_type j = 0; j < c; ++j) image(1 + 2 * i, 1 + 3 * j) = m(i, j); fill_local(whole, image); }
  void check_rest()
  {
    M now = read_local(whole);
    for (index_type i = 0; i < image.r; ++i) for (index_type j = 0; j < image.c; ++j)
      if (!(i % 2 == 1 && j % 3 == 1 && i / 2 < r && j / 3 < c) && now(i, j) != Z(77)) sim_fail("wrong-value", "element (%lu,%lu) beside the part of a matrix in use was changed", (unsigned long)i, (unsigned long)j);
  }
  void check(M const &m, double s, char const *w)
  {
    M now = read_local(whole), part(r, c);
    for (index_type i = 0; i < r; ++i) for (index_type j = 0; j < c; ++j) part(i, j) = now(1 + 2 * i, 1 + 3 * j);
    same(part, m, s, w); check_rest();
  }
};
template <> struct Mem<3>
{
  Matrix<T> b; typedef Matrix<T>::transpose_type view_type;
  Mem(length_type r, length_type c, Args &, int) : b(c, r) {}
  view_type view() { return b.transpose(); }
  void fill(M const &m) { fill_local(b, transpose(m)); }
  void check(M const &m, double s, char const *w) { same(transpose(read_local(b)), m, s, w); }
};
template <typename V> struct Near
{
  V v; typename V::local_type loc; M const &want; double tol; char const *what;
  Near(V vv, M const &w, double s, char const *n) : v(vv), loc(vv.local()), want(w), tol(EPS * (s + 1)), what(n) {}
  void operator()(index_type const *l, index_type const *g)
  {
    Z got = z(loc.get(l[0], l[1])), ref = want(g[0], g[1]);
    if (!(std::abs(got - ref) <= tol))
      sim_fail("wrong-value", "%s: element (%lu,%lu) is (%g,%g), should be (%g,%g)", what, (unsigned long)g[0], (unsigned long)g[1], got.real(), got.imag(), ref.real(), ref.imag());
  }
};
template <int K> struct MemD
{
  typedef typename Kind<2, K>::map_type map_type;
  typedef Matrix<T, Dense<2, T, typename Kind<2, K>::order_type, map_type> > view_type;
  view_type v;
  static MapParam draw(Args &a, int n) { MapParam q; q.draw(a, n); return q; }
  MemD(length_type r, length_type c, Args &a, int n) : v(r, c, MakeMap<2, map_type>::make(draw(a, n), n)) { sim_probe(PR_DIST); }
  view_type view() { return v; }
  struct Model2 { M const &m; length_type ext[3]; T get(index_type const *g) const { return t(m(g[0], g[1])); } };
  void fill(M const &m) { Model2 q = { m, { m.r, m.c, 1 } }; write_local(v, q); }
  void check(M const &m, double s, char const *w) { Oracle o_; Near<view_type> f(v, m, s, w); for_local(v, f); }
};
template <> struct Mem<4> : MemD<0> { using MemD<0>::MemD; };
template <> struct Mem<5> : MemD<4> { using MemD<4>::MemD; };
template <> struct Mem<6> : MemD<7> { using MemD<7>::MemD; };

// An input and a result
template <int KB, int KX, typename F>
void pair(Args &a, int n, M const &b, M const &want, double scale, char const *what, F f)
{
  Mem<KB> mb(b.r, b.c, a, n); Mem<KX> mx(want.r, want.c, a, n);
  mb.fill(b); mx.fill(random_matrix(want.r, want.c, 99));
  f(mb.view(), mx.view());
  mx.check(want, scale, what);
  { char s[120]; snprintf(s, sizeof s, "%s: the input", what); mb.check(b, 0, s); }
}
// the result takes the place of the input
template <int K, typename F>
void same_place(Args &a, int n, M const &b, M const &want, double scale, char const *what, F f)
{
  Mem<K> mb(b.r, b.c, a, n);
  mb.fill(b);
  f(mb.view(), mb.view());
  mb.check(want, scale, what);
}
template <typename F>
void local_result(Args &a, int n, M const &b, M const &want, double scale, char const *what, F f, bool aliasing = true)
{
  int k = a.below(7);
  if (k == 5 && aliasing && b.r == want.r && b.c == want.c) { same_place<0>(a, n, b, want, scale, what, f); return; }
  if (k == 6 && aliasing && b.r == want.r && b.c == want.c) { same_place<2>(a, n, b, want, scale, what, f); return; }
  switch (k % 5)
  {
    case 0: pair<0, 0>(a, n, b, want, scale, what, f); break;
    case 1: pair<1, 1>(a, n, b, want, scale, what, f); break;
    case 2: pair<2, 2>(a, n, b, want, scale, what, f); break;
    case 3: pair<3, 0>(a, n, b, want, scale, what, f); break;
    default: pair<0, 3>(a, n, b, want, scale, what, f); break;
  }
}
template <typename F>
void any_result(Args &a, int n, M const &b, M const &want, double scale, char const *what, F f)
{
  int k = a.below(11);
  if (k == 10 && b.r == want.r && b.c == want.c) { same_place<4>(a, n, b, want, scale, what, f); return; }
  switch (k)
  {
    case 5: pair<4, 4>(a, n, b, want, scale, what, f); break;
    case 6: pair<4, 0>(a, n, b, want, scale, what, f); break;
    case 7: pair<0, 5>(a, n, b, want, scale, what, f); break;
    case 8: pair<6, 4>(a, n, b, want, scale, what, f); break;
    case 9: pair<5, 2>(a, n, b, want, scale, what, f); break;
    default: local_result(a, n, b, want, scale, what, f);
  }
}
template <int K, typename F> void one(Args &a, int n, M const &b, F f, bool kept)
{
  Mem<K> mb(b.r, b.c, a, n); mb.fill(b); f(mb.view());
  if (kept) mb.check(b, 0, "the input");
  mb.fill(random_matrix(b.r, b.c, 98));      // a solver does not look at it again
}
template <typename F> void local_input(Args &a, int n, M const &b, F f, bool kept = false)
{
  switch (a.below(4))
  {
    case 0: one<0>(a, n, b, f, kept); break;
    case 1: one<1>(a, n, b, f, kept); break;
    case 2: one<2>(a, n, b, f, kept); break;
    default: one<3>(a, n, b, f, kept); break;
  }
}
template <typename F> void any_input(Args &a, int n, M const &b, F f, bool kept = false)
{
  switch (a.below(7))
  {
    case 4: one<4>(a, n, b, f, kept); break;
    case 5: one<5>(a, n, b, f, kept); break;
    case 6: one<6>(a, n, b, f, kept); break;
    default: local_input(a, n, b, f, kept);
  }
}
// Calls by value and by reference look the same
template <return_mechanism_type R> struct Call;
template <> struct Call<by_reference>
{
  template <typename FR, typename FV>
  static void any(Args &a, int n, M const &b, M const &want, double s, char const *what, FR f, FV)
  { any_result(a, n, b, want, s, what, [&](auto x, auto y) { if (!f(x, y)) sim_fail("wrong-value", "%s: reported as failed", what); }); }
  template <typename FR, typename FV>
  static void local(Args &a, int n, M const &b, M const &want, double s, char const *what, FR f, FV)
  { local_result(a, n, b, want, s, what, [&](auto x, auto y) { if (!f(x, y)) sim_fail("wrong-value", "%s: reported as failed", what); }, false); }
};
template <> struct Call<by_value>
{
  template <typename V> static void check(V r, M const &want, double s, char const *what)
  {
    if (r.size(0) != want.r || r.size(1) != want.c)
      sim_fail("wrong-value", "%s: the result is %lux%lu, should be %lux%lu", what, (unsigned long)r.size(0), (unsigned long)r.size(1), (unsigned long)want.r, (unsigned long)want.c);
    same(read_local(r), want, s, what);
  }
  template <typename FR, typename FV>
  static void any(Args &a, int n, M const &b, M const &want, double s, char const *what, FR, FV f)
  { any_input(a, n, b, [&](auto x) { check(f(x), want, s, what); }, true); }
  template <typename FR, typename FV>
  static void local(Args &a, int n, M const &b, M const &want, double s, char const *what, FR, FV f)
  { local_input(a, n, b, [&](auto x) { check(f(x), want, s, what); }, true); }
};

// --------------------------------------------------------------------- LU
template <return_mechanism_type R> struct Lu : Solver
{
  vsip::lud<T, R> s; length_type n; bool ok; M A;
  explicit Lu(length_type nn) : s(nn), n(nn), ok(false) {}
  static Solver *make(Args &a) { length_type n = a.extent(7); sim_note("LU of %lu", (unsigned long)n); sim_probe(PR_LU); return new Lu(n); }
  Solver *copy() { return new Lu(*this); }
  bool assign(Solver &o) { Lu &l = static_cast<Lu &>(o); if (l.n != n) return false; s = l.s; A = l.A; ok = l.ok; return true; }
  void decompose(Args &a, int np)
  {
    unsigned tag = a.raw();
    bool singular = a.below(8) == 7 && n > 1;
    A = regular(n, n, tag);
    if (singular) { index_type c = tag % n; for (index_type i = 0; i < n; ++i) A(i, c) = 0; sim_probe(PR_REJECT); }
    ok = !singular;
    if (s.length() != n) sim_fail("wrong-value", "lud::length is %lu", (unsigned long)s.length());
    any_input(a, np, A, [&](auto m)
    { if (s.decompose(m) != ok) sim_fail("wrong-value", "LU decomposition of a %s matrix reported as %s", ok ? "regular" : "singular", ok ? "failed" : "successful"); });
    if (ok) use(a, np);
  }
  void use(Args &a, int np)
  {
    if (!ok) return;
    int op = a.below(3);
    M b = random_matrix(n, 1 + a.below(4), a.raw());
    if (op == 0) Call<R>::any(a, np, b, gauss(A, b), largest(b), "LU solution", [&](auto x, auto y) { return s.template solve<mat_ntrans>(x, y); }, [&](auto x) { return s.template solve<mat_ntrans>(x); });
    else if (op == 1) Call<R>::any(a, np, b, gauss(transpose(A), b), largest(b), "LU solution (transpose)", [&](auto x, auto y) { return s.template solve<mat_trans>(x, y); }, [&](auto x) { return s.template solve<mat_trans>(x); });
    else Call<R>::any(a, np, b, gauss(adjoint(A), b), largest(b), "LU solution (adjoint)", [&](auto x, auto y) { return s.template solve<TR>(x, y); }, [&](auto x) { return s.template solve<TR>(x); });
  }
};
// ---------------------------------------------------------------- Cholesky
template <return_mechanism_type R> struct Chol : Solver
{
  vsip::chold<T, R> s; length_type n; mat_uplo u; bool ok; M A;
  Chol(mat_uplo uu, length_type nn) : s(uu, nn), n(nn), u(uu), ok(false) {}
  static Solver *make(Args &a) { length_type n = a.extent(7); mat_uplo u = a.below(2) ? lower : upper; sim_note("Cholesky of %lu", (unsigned long)n); sim_probe(PR_CHOL); return new Chol(u, n); }
  Solver *copy() { return new Chol(*this); }
  bool assign(Solver &o) { Chol &l = static_cast<Chol &>(o); if (l.n != n) return false; s = l.s; A = l.A; ok = l.ok; u = l.u; return true; }
  void decompose(Args &a, int np)
  {
    unsigned tag = a.raw();
    bool neg = a.below(8) == 7;
    A = positive(n, tag);
    if (neg) { A(tag % n, tag % n) = -3; sim_probe(PR_REJECT); }
    ok = !neg;
    if (s.length() != n || s.uplo() != u) sim_fail("wrong-value", "chold reports length %lu, uplo %d", (unsigned long)s.length(), int(s.uplo()));
    M half = A;                                // the other triangle is not referenced
    for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < n; ++j) if (u == upper ? i > j : i < j) half(i, j) = 1000 + tag % 7;
    local_input(a, np, half, [&](auto m)
    { if (s.decompose(m) != ok) sim_fail("wrong-value", "Cholesky decomposition of a matrix %s reported as %s", ok ? "positive definite" : "not positive definite", ok ? "failed" : "successful"); });
    if (ok) use(a, np);
  }
  void use(Args &a, int np)
  {
    if (!ok) return;
    M b = random_matrix(n, 1 + a.below(4), a.raw());
    Call<R>::local(a, np, b, gauss(A, b), largest(b), "Cholesky solution", [&](auto x, auto y) { return s.solve(x, y); }, [&](auto x) { return s.solve(x); });
  }
};
// ---------------------------------------------------------------------- QR
template <return_mechanism_type R> struct Rsol;
template <> struct Rsol<by_reference>
{
  template <typename Q> static M inverse(Q &q, length_type n)
  { Matrix<T> i(n, n), x(n, n); fill_local(i, identity(n)); q.template rsol<mat_ntrans>(i, T(1), x); return read_local(x); }
  template <typename Q> static M q(Q &s, length_type m, length_type)
  { Matrix<T> i(m, m), x(m, m); fill_local(i, identity(m)); s.template prodq<mat_ntrans, mat_lside>(i, x); return read_local(x); }
};
template <> struct Rsol<by_value>
{
  template <typename Q> static M inverse(Q &q, length_type n)
  { Matrix<T> i(n, n); fill_local(i, identity(n)); return read_local(q.template rsol<mat_ntrans>(i, T(1))); }
  template <typename Q> static M q(Q &s, length_type m, length_type)
  { Matrix<T> i(m, m); fill_local(i, identity(m)); return read_local(s.template prodq<mat_ntrans, mat_lside>(i)); }
};
template <return_mechanism_type R> struct Qr : Solver
{
  vsip::qrd<T, R> s; length_type m, n; storage_type st; bool ok; M A, q, r;
  Qr(length_type mm, length_type nn, storage_type x) : s(mm, nn, x), m(mm), n(nn), st(x), ok(false) {}
  static Solver *make(Args &a)
  {
    length_type n = a.extent(5, 4), m = n + a.below(4); int k = a.below(3);
    sim_note("QR of %lux%lu, storage %d", (unsigned long)m, (unsigned long)n, k);
    sim_probe(PR_QR);
    return new Qr(m, n, k == 0 ? qrd_saveq : k == 1 ? qrd_saveq1 : qrd_nosaveq);
  }
  Solver *copy() { return new Qr(*this); }
  bool assign(Solver &o) { Qr &l = static_cast<Qr &>(o); if (l.n != n || l.m != m) return false; s = l.s; st = l.st; A = l.A; ok = l.ok; q = l.q; r = l.r; return true; }
  void decompose(Args &a, int np)
  {
    A = regular(m, n, a.raw()); ok = true;
    if (s.rows() != m || s.columns() != n || s.qstorage() != st) sim_fail("wrong-value", "qrd reports %lux%lu, storage %d", (unsigned long)s.rows(), (unsigned long)s.columns(), int(s.qstorage()));
    any_input(a, np, A, [&](auto x) { if (!s.decompose(x)) sim_fail("wrong-value", "QR decomposition reported as failed"); });
    // R is the Cholesky factor up to phases, Q follows from it
    M ri = Rsol<R>::inverse(s, n);
    r = gauss(ri, identity(n));
    for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < i; ++j)
      if (!(std::abs(ri(i, j)) <= EPS)) sim_fail("wrong-value", "R of a QR decomposition is not upper triangular");
    same(mul(adjoint(r), r), mul(adjoint(A), A), largest(mul(adjoint(A), A)), "R'R of a QR decomposition");
    M q1 = gauss(adjoint(r), adjoint(A));           // (A R^-1)' = R'^-1 A'
    q1 = adjoint(q1);
    q = q1;
    if (st == qrd_saveq)
    {
      q = Rsol<R>::q(s, m, n);
      same(cols(q, 0, n), q1, 1, "first columns of Q");
      same(mul(adjoint(q), q), identity(m), 1, "Q'Q");
    }
    use(a, np);
  }
  void use(Args &a, int np)
  {
    if (!ok) return;
    int op = a.below(8);
    length_type p = 1 + a.below(4); unsigned tag = a.raw();
    if (op < 4 && st == qrd_nosaveq) op += 4;
    M aa = mul(adjoint(A), A);
    if (op == 0) { M b = random_matrix(q.c, p, tag); Call<R>::any(a, np, b, mul(q, b), 5 * q.c, "Q b", [&](auto x, auto y) { return s.template prodq<mat_ntrans, mat_lside>(x, y); }, [&](auto x) { return s.template prodq<mat_ntrans, mat_lside>(x); }); }
    else if (op == 1) { M b = random_matrix(m, p, tag); Call<R>::any(a, np, b, mul(adjoint(q), b), 5 * m, "Q' b", [&](auto x, auto y) { return s.template prodq<TR, mat_lside>(x, y); }, [&](auto x) { return s.template prodq<TR, mat_lside>(x); }); }
    else if (op == 2) { M b = random_matrix(p, m, tag); Call<R>::any(a, np, b, mul(b, q), 5 * m, "b Q", [&](auto x, auto y) { return s.template prodq<mat_ntrans, mat_rside>(x, y); }, [&](auto x) { return s.template prodq<mat_ntrans, mat_rside>(x); }); }
    else if (op == 3) { M b = random_matrix(p, q.c, tag); Call<R>::any(a, np, b, mul(b, adjoint(q)), 5 * m, "b Q'", [&](auto x, auto y) { return s.template prodq<TR, mat_rside>(x, y); }, [&](auto x) { return s.template prodq<TR, mat_rside>(x); }); }
    else if (op == 4)
    {
      M b = random_matrix(n, p, tag); Z al = double(1 + tag % 3); M w = gauss(r, b); for (Z &e : w.v) e *= al;
      if (a.below(2)) Call<R>::any(a, np, b, w, 10, "R x = b", [&](auto x, auto y) { return s.template rsol<mat_ntrans>(x, t(al), y); }, [&](auto x) { return s.template rsol<mat_ntrans>(x, t(al)); });
      else { w = gauss(adjoint(r), b); for (Z &e : w.v) e *= al; Call<R>::any(a, np, b, w, 10, "R' x = b", [&](auto x, auto y) { return s.template rsol<TR>(x, t(al), y); }, [&](auto x) { return s.template rsol<TR>(x, t(al)); }); }
    }
    else if (op == 5) { M b = random_matrix(n, p, tag); Call<R>::any(a, np, b, gauss(aa, b), 5, "A'A x = b", [&](auto x, auto y) { return s.covsol(x, y); }, [&](auto x) { return s.covsol(x); }); }
    else if (op == 6 && st == qrd_nosaveq) return;
    else { M b = random_matrix(m, p, tag); Call<R>::any(a, np, b, gauss(aa, mul(adjoint(A), b)), 5, "least squares", [&](auto x, auto y) { return s.lsqsol(x, y); }, [&](auto x) { return s.lsqsol(x); }); }
  }
};
// --------------------------------------------------------------------- SVD
template <return_mechanism_type R> struct SvdCall;
template <> struct SvdCall<by_reference>
{
  template <typename Q, typename V> static std::vector<double> decompose(Q &s, V a, length_type p)
  { Vector<S> d(p + 4, S(-5)); if (!s.decompose(a, d(Domain<1>(2, 1, p)))) sim_fail("wrong-value", "SVD reported as failed");
    if (d.get(0) != S(-5) || d.get(1) != S(-5) || d.get(p + 2) != S(-5)) sim_fail("wrong-value", "SVD wrote beside its result");
    std::vector<double> o; for (index_type i = 0; i < p; ++i) o.push_back(d.get(2 + i)); return o; }
  template <typename Q> static M u(Q &s, length_type m, index_type lo, index_type hi) { Matrix<T> x(m, hi - lo + 1); s.u(lo, hi, x); return read_local(x); }
  template <typename Q> static M v(Q &s, length_type m, index_type lo, index_type hi) { Matrix<T> x(m, hi - lo + 1); s.v(lo, hi, x); return read_local(x); }
};
template <> struct SvdCall<by_value>
{
  template <typename Q, typename V> static std::vector<double> decompose(Q &s, V a, length_type p)
  { Vector<S> d = s.decompose(a); if (d.size() != p) sim_fail("wrong-value", "SVD gives %lu values, should be %lu", (unsigned long)d.size(), (unsigned long)p);
    std::vector<double> o; for (index_type i = 0; i < p; ++i) o.push_back(d.get(i)); return o; }
  template <typename Q> static M u(Q &s, length_type, index_type lo, index_type hi) { return read_local(s.u(lo, hi)); }
  template <typename Q> static M v(Q &s, length_type, index_type lo, index_type hi) { return read_local(s.v(lo, hi)); }
};
template <return_mechanism_type R> struct Svd : Solver
{
  vsip::svd<T, R> s; length_type m, n, p; storage_type us, vs; bool ok; M A, U, V; std::vector<double> sv;
  Svd(length_type mm, length_type nn, storage_type u, storage_type v) : s(mm, nn, u, v), m(mm), n(nn), p(std::min(mm, nn)), us(u), vs(v), ok(false) {}
  static storage_type store(int k) { return k == 0 ? svd_uvfull : k == 1 ? svd_uvpart : svd_uvnos; }
  static Solver *make(Args &a)
  {
    length_type m = a.extent(6, 4), n = a.extent(6, 4); int u = a.below(3), v = a.below(3);
    sim_note("SVD of %lux%lu, storage %d %d", (unsigned long)m, (unsigned long)n, u, v);
    sim_probe(PR_SVD);
    return new Svd(m, n, store(u), store(v));
  }
  Solver *copy() { return new Svd(*this); }
  bool assign(Solver &o)
  {
    Svd &l = static_cast<Svd &>(o);
    if (l.n != n || l.m != m || l.us != us || l.vs != vs) return false;
    s = l.s; A = l.A; U = l.U; V = l.V; ok = l.ok; sv = l.sv; return true;
  }
  void decompose(Args &a, int np)
  {
    A = regular(m, n, a.raw()); ok = true;
    if (s.rows() != m || s.columns() != n || s.ustorage() != us || s.vstorage() != vs) sim_fail("wrong-value", "svd reports %lux%lu", (unsigned long)s.rows(), (unsigned long)s.columns());
    any_input(a, np, A, [&](auto x) { sv = SvdCall<R>::decompose(s, x, p); });
    M g = m < n ? mul(A, adjoint(A)) : mul(adjoint(A), A), gg = g;
    double big = 0; for (double e : sv) big = std::max(big, e * e);
    double power = big;
    for (index_type i = 0; i < p; ++i)
      if (!(sv[i] >= 0 && (i == 0 || sv[i] <= sv[i - 1] * (1 + EPS)))) sim_fail("wrong-value", "singular value %lu is %g, not in order", (unsigned long)i, sv[i]);
    for (int k = 1; k <= 4; ++k)
    {
      Z tr = 0; double sum = 0;
      for (index_type i = 0; i < p; ++i) { tr += gg(i, i); sum += std::pow(sv[i], 2 * k); }
      if (!(std::abs(tr - sum) <= EPS * 20 * (power + 1))) sim_fail("wrong-value", "singular values: the sum of their powers of %d is %g, should be %g", 2 * k, sum, tr.real());
      gg = mul(gg, g); power *= big;
    }
    double sc = std::sqrt(big);
    if (us != svd_uvnos)
    {
      length_type c = us == svd_uvfull ? m : p;
      U = SvdCall<R>::u(s, m, 0, c - 1);
      same(mul(adjoint(U), U), identity(c), 3, "U'U");
      M d = mul(adjoint(U), mul(mul(A, adjoint(A)), U)), want(c, c);
      for (index_type i = 0; i < p; ++i) want(i, i) = sv[i] * sv[i];
      same(d, want, 5 * big, "U'AA'U");
    }
    if (vs != svd_uvnos)
    {
      length_type c = vs == svd_uvfull ? n : p;
      V = SvdCall<R>::v(s, n, 0, c - 1);
      same(mul(adjoint(V), V), identity(c), 3, "V'V");
      M d = mul(adjoint(V), mul(mul(adjoint(A), A), V)), want(c, c);
      for (index_type i = 0; i < p; ++i) want(i, i) = sv[i] * sv[i];
      same(d, want, 5 * big, "V'A'AV");
    }
    if (us != svd_uvnos && vs != svd_uvnos)
    {
      M us_(m, p), vp = cols(V, 0, p);
      for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < p; ++j) us_(i, j) = U(i, j) * sv[j];
      same(mul(us_, adjoint(vp)), A, 3 * sc, "USV'");
    }
    use(a, np);
  }
  void use(Args &a, int np)
  {
    if (!ok) return;
    int op = a.below(10); unsigned tag = a.raw(); length_type k = 1 + a.below(4);
    bool onu = op < 5;
    if (onu && us == svd_uvnos) { onu = false; }
    if (!onu && vs == svd_uvnos) { if (us == svd_uvnos) return; onu = true; }
    op %= 5;
    M const &X = onu ? U : V;
    double sc = 5 * (X.r + X.c);
    if (op == 4)
    {
      index_type lo = a.below(X.c), hi = lo + a.below(X.c - lo);
      same(onu ? SvdCall<R>::u(s, m, lo, hi) : SvdCall<R>::v(s, n, lo, hi), cols(X, lo, hi - lo + 1), 1, onu ? "columns of U" : "columns of V");
    }
#define PROD(OP, B, WANT, TRN, SIDE) \
    else if (op == OP) { M b = B; M w = WANT; \
      if (onu) Call<R>::local(a, np, b, w, sc, "product with U", [&](auto x, auto y) { return s.template produ<TRN, SIDE>(x, y); }, [&](auto x) { return s.template produ<TRN, SIDE>(x); }); \
      else Call<R>::local(a, np, b, w, sc, "product with V", [&](auto x, auto y) { return s.template prodv<TRN, SIDE>(x, y); }, [&](auto x) { return s.template prodv<TRN, SIDE>(x); }); }
    PROD(0, random_matrix(X.c, k, tag), mul(X, b), mat_ntrans, mat_lside)
    PROD(1, random_matrix(X.r, k, tag), mul(adjoint(X), b), TR, mat_lside)
    PROD(2, random_matrix(k, X.r, tag), mul(b, X), mat_ntrans, mat_rside)
    PROD(3, random_matrix(k, X.c, tag), mul(b, adjoint(X)), TR, mat_rside)
#undef PROD
  }
};
// --------------------------------------------------------------- functions
template <int KA, int KB, int KX> void ls(Args &a, int np, bool cov, bool value)
{
  length_type n = 1 + a.below(5), m = n + a.below(4), p = 1 + a.below(3); unsigned tag = a.raw();
  M A = regular(m, n, tag), aa = mul(adjoint(A), A), b = random_matrix(cov ? n : m, p, tag + 1), w = gauss(aa, cov ? b : mul(adjoint(A), b));
  Mem<KA> ma(m, n, a, np); ma.fill(A);
  char const *what = cov ? "covsol" : "llsqsol";
  if (value)
  {
    Mem<KB> mb(b.r, b.c, a, np); mb.fill(b);
    Matrix<T> x(cov ? covsol(ma.view(), mb.view()) : llsqsol(ma.view(), mb.view()));
    Call<by_value>::check(x, w, 5, what);
  }
  else pair<KB, KX>(a, np, b, w, 5, what, [&](auto x, auto y) { if (cov) covsol(ma.view(), x, y); else llsqsol(ma.view(), x, y); });
}
void least_squares(Args &a, int np, bool cov)
{
  sim_probe(PR_LSQ);
  int k = a.below(8); bool v = a.below(2);
  switch (k)
  {
    case 0: ls<0, 0, 0>(a, np, cov, v); break;
    case 1: ls<1, 2, 3>(a, np, cov, v); break;
    case 2: ls<2, 1, 2>(a, np, cov, v); break;
    case 3: ls<3, 0, 1>(a, np, cov, v); break;
    case 4: ls<4, 4, 4>(a, np, cov, v); break;
    case 5: ls<4, 0, 5>(a, np, cov, v); break;
    case 6: ls<5, 6, 0>(a, np, cov, v); break;
    default: ls<0, 5, 4>(a, np, cov, v); break;
  }
}
void cov_fn(Args &a, int np) { least_squares(a, np, true); }
void lsq_fn(Args &a, int np) { least_squares(a, np, false); }
void toep_fn(Args &a, int)
{
  sim_probe(PR_TOEP);
  length_type n = a.extent(7); unsigned tag = a.raw(); int how = a.below(3); bool singular = a.below(8) == 7 && n > 1;
  M A(n, n), b = random_matrix(n, 1, tag), row(1, n);
  for (index_type i = 0; i < n; ++i) row(0, i) = i ? value(hashu(tag, 50 + i)) : Z(double(10 * n));
  if (singular) for (index_type i = 0; i < n; ++i) row(0, i) = 4;
  for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < n; ++j) A(i, j) = j >= i ? row(0, j - i) : std::conj(row(0, i - j));
  Vector<T> t0(2 * n), b0(2 * n), y0(2 * n), x0(2 * n, T(77));
  Domain<1> d(0, 1, n), e(0, 2, n), r(n - 1, -1, n);
  Domain<1> dt = how == 1 ? e : d, dx = how == 2 ? r : how == 1 ? e : d;
  for (index_type i = 0; i < n; ++i) { t0.put(dt.impl_nth(i), t(row(0, i))); b0.put(dx.impl_nth(i), t(b(i, 0))); }
  bool failed = false;
  M got(n, 1);
  try
  {
    if (tag % 2)
    {
      toepsol(t0(dt), b0(dx), y0(d), x0(dx));
      for (index_type i = 0; i < n; ++i) got(i, 0) = z(x0.get(dx.impl_nth(i)));
      for (index_type i = n; i < 2 * n; ++i) if (how != 1 && x0.get(i) != T(77)) sim_fail("wrong-value", "toepsol wrote beside its result");
    }
    else { const_Vector<T> x = toepsol(t0(dt), b0(dx), y0(d)); for (index_type i = 0; i < n; ++i) got(i, 0) = z(x.get(i)); }
  }
  catch (computation_error &) { failed = true; sim_probe(PR_REJECT); }
  if (failed != singular) sim_fail("wrong-value", "toepsol: a %s system reported as %s", singular ? "singular" : "regular", failed ? "failed" : "solved");
  if (!failed) same(got, gauss(A, b), 5, "toepsol");
}
// ---------------------------------------------------------------- products
template <typename V> void fill_vec(V v, M const &m) { Oracle o_; for (index_type i = 0; i < v.size(); ++i) v.put(i, t(m.v[i])); }
template <typename V> M read_vec(V v) { Oracle o_; M m(v.size(), 1); for (index_type i = 0; i < m.r; ++i) m.v[i] = z(v.get(i)); return m; }
template <int K> struct VMem;
template <> struct VMem<0>
{
  Vector<T> v; VMem(length_type n, Args &, int) : v(n) {}
  Vector<T> view() { return v; }
  void fill(M const &m) { fill_vec(v, m); }
  void check(M const &m, double s, char const *w) { same(read_vec(v), m, s, w); }
};
template <typename V> struct VPart
{
  Vector<T> whole; length_type n; Domain<1> d;
  VPart(length_type nn, Domain<1> dd) : whole(3 * nn + 3), n(nn), d(dd) { whole = T(77); }
  V view() { return whole(d); }
  void fill(M const &m) { for (index_type i = 0; i < n; ++i) whole.put(d.impl_nth(i), t(m.v[i])); }
  void check(M const &m, double s, char const *w)
  {
    M got(n, 1); Oracle o_;
    for (index_type i = 0; i < n; ++i) { got.v[i] = z(whole.get(d.impl_nth(i))); whole.put(d.impl_nth(i), T(77)); }
    same(got, m, s, w);
    for (index_type i = 0; i < whole.size(); ++i) if (whole.get(i) != T(77)) sim_fail("wrong-value", "%s: element %lu beside the vector was changed", w, (unsigned long)i);
    fill(got);
  }
};
template <> struct VMem<1> : VPart<Vector<T>::subview_type> { VMem(length_type n, Args &, int) : VPart<Vector<T>::subview_type>(n, Domain<1>(1, 3, n)) {} };
template <> struct VMem<2> : VPart<Vector<T>::subview_type> { VMem(length_type n, Args &a, int) : VPart<Vector<T>::subview_type>(n, Domain<1>(2 * n, -1 - int(a.below(2)), n)) {} };
template <> struct VMem<3>
{
  Matrix<T> b; length_type n; VMem(length_type nn, Args &, int) : b(nn, 3), n(nn) { b = T(77); }
  Matrix<T>::col_type view() { return b.col(1); }
  void fill(M const &m) { fill_vec(b.col(1), m); }
  void check(M const &m, double s, char const *w)
  { same(read_vec(b.col(1)), m, s, w); for (index_type i = 0; i < n; ++i) if (b.get(i, 0) != T(77) || b.get(i, 2) != T(77)) sim_fail("wrong-value", "%s: elements beside the vector were changed", w); }
};
template <int K> struct VMemD
{
  typedef typename Kind<1, K>::map_type map_type;
  typedef Vector<T, Dense<1, T, row1_type, map_type> > view_type;
  view_type v;
  static MapParam draw(Args &a, int n) { MapParam q; q.draw(a, n); return q; }
  VMemD(length_type n, Args &a, int np) : v(n, MakeMap<1, map_type>::make(draw(a, np), np)) { sim_probe(PR_DIST); }
  view_type view() { return v; }
  struct Model1 { M const &m; length_type ext[3]; T get(index_type const *g) const { return t(m.v[g[0]]); } };
  void fill(M const &m) { Model1 q = { m, { m.r * m.c, 1, 1 } }; write_local(v, q); }
  struct Near1
  {
    typename view_type::local_type loc; M const &want; double tol; char const *what;
    void operator()(index_type const *l, index_type const *g)
    { Z got = z(loc.get(l[0])); if (!(std::abs(got - want.v[g[0]]) <= tol)) sim_fail("wrong-value", "%s: element %lu is (%g,%g), should be (%g,%g)", what, (unsigned long)g[0], got.real(), got.imag(), want.v[g[0]].real(), want.v[g[0]].imag()); }
  };
  void check(M const &m, double s, char const *w) { Oracle o_; Near1 f = { v.local(), m, EPS * (s + 1), w }; for_local(v, f); }
};
template <> struct VMem<4> : VMemD<0> { using VMemD<0>::VMemD; };
template <> struct VMem<5> : VMemD<1> { using VMemD<1>::VMemD; };
template <> struct VMem<6> : VMemD<2> { using VMemD<2>::VMemD; };
M conj(M const &a) { M o = a; for (Z &e : o.v) e = std::conj(e); return o; }
M shape(M const &a, length_type r, length_type c) { M o(r, c); o.v = a.v; return o; }

template <typename V, typename W, typename X> void conjugate(V a, W b, X c, int h, std::true_type) { if (h) c = prodh(a, b); else c = prodj(a, b); }
template <typename V, typename W, typename X> void conjugate(V, W, X, int, std::false_type) {}
template <int KA, int KB, int KC> void mm(Args &a, int np)
{
  length_type m = a.extent(6, 4), k = a.extent(6, 4), n = a.extent(6, 4); unsigned tag = a.raw();
  int op = a.below(7);
  double sc = 100;
  if (op == 1) { k = 3; } if (op == 2) { m = k = 4; } if (op == 1) m = 3;
  M A = random_matrix(m, k, tag), B = random_matrix(k, n, tag + 1);
  Mem<KA> ma(m, k, a, np); ma.fill(A);
  M want = mul(A, op == 4 ? conj(B) : B);
  bool t_ = op == 3 || op == 5;
  M Bm = t_ ? transpose(B) : B;                       // what the call is given
  if (op == 5) { Bm = adjoint(B); if (!cplx) op = 3; }
  if (op == 4 && !cplx) { op = 0; }
  Mem<KB> mb(Bm.r, Bm.c, a, np); mb.fill(Bm);
  Mem<KC> mc(m, n, a, np); M C = random_matrix(m, n, tag + 2); mc.fill(C);
  auto va = ma.view(); auto vb = mb.view(); auto vc = mc.view();
  switch (op)
  {
    case 1: vc = prod3(va, vb); break;
    case 2: vc = prod4(va, vb); break;
    case 3: vc = prodt(va, vb); break;
    case 4: conjugate(va, vb, vc, 0, std::integral_constant<bool, cplx>()); break;
    case 5: conjugate(va, vb, vc, 1, std::integral_constant<bool, cplx>()); break;
    case 6: vc = vc - prod(va, vb) * T(2); for (index_type i = 0; i < want.v.size(); ++i) want.v[i] = C.v[i] - 2. * want.v[i]; break;
    default: vc = prod(va, vb);
  }
  mc.check(want, sc, "matrix product"); ma.check(A, 0, "left operand of a product"); mb.check(Bm, 0, "right operand of a product");
}
template <int KA, int KB, int KC> void mv(Args &a, int np)
{
  length_type m = a.extent(6, 4), n = a.extent(6, 4); unsigned tag = a.raw(); int op = a.below(5);
  if (op == 1) m = n = 3; if (op == 2) m = n = 4;
  M A = random_matrix(m, n, tag);
  Mem<KA> ma(m, n, a, np); ma.fill(A);
  if (op == 4)
  { // outer product
    M x = random_matrix(m, 1, tag + 1), y = random_matrix(n, 1, tag + 2); Z al = value(tag + 3);
    VMem<KB> vx(m, a, np); VMem<KC> vy(n, a, np); vx.fill(x); vy.fill(y);
    M want = mul(x, adjoint(y)); for (Z &e : want.v) e *= al;
    ma.view() = outer(t(al), vx.view(), vy.view());
    ma.check(want, 100, "outer product"); vx.check(x, 0, "operand of an outer product"); vy.check(y, 0, "operand of an outer product");
    return;
  }
  bool left = op == 3;
  M x = random_matrix(left ? m : n, 1, tag + 1);
  M want = left ? transpose(mul(transpose(x), A)) : mul(A, x);
  VMem<KB> vx(x.r, a, np); vx.fill(x); VMem<KC> vy(want.r, a, np); vy.fill(random_matrix(want.r, 1, 3));
  auto va = ma.view(); auto xx = vx.view(); auto yy = vy.view();
  if (left) yy = prod(xx, va); else if (op == 1) yy = prod3(va, xx); else if (op == 2) yy = prod4(va, xx); else yy = prod(va, xx);
  vy.check(want, 100, "matrix vector product"); ma.check(A, 0, "matrix operand"); vx.check(x, 0, "vector operand");
}
void prod_fn(Args &a, int np)
{
  sim_probe(PR_PROD);
  switch (a.below(22))
  {
    case 16: mm<1, 0, 0>(a, np); break;
    case 17: mm<0, 0, 1>(a, np); break;
    case 18: mm<1, 0, 1>(a, np); break;
    case 19: mm<0, 1, 1>(a, np); break;
    case 20: mm<1, 1, 0>(a, np); break;
    case 21: mv<1, 0, 0>(a, np); break;
    case 0: mm<0, 0, 0>(a, np); break;
    case 1: mm<1, 1, 1>(a, np); break;
    case 2: mm<0, 1, 0>(a, np); break;
    case 3: mm<2, 2, 2>(a, np); break;
    case 4: mm<3, 0, 1>(a, np); break;
    case 5: mm<1, 3, 0>(a, np); break;
    case 6: mm<0, 2, 3>(a, np); break;
    case 7: mm<1, 0, 2>(a, np); break;
    case 8: mv<0, 0, 0>(a, np); break;
    case 9: mv<1, 1, 0>(a, np); break;
    case 10: mv<2, 0, 1>(a, np); break;
    case 11: mv<3, 2, 3>(a, np); break;
    case 12: mv<0, 3, 2>(a, np); break;
    case 13: mv<1, 2, 2>(a, np); break;
    case 14: mv<2, 3, 3>(a, np); break;
    default: mv<0, 1, 1>(a, np);
  }
}
// what mat_op_type makes of a matrix
M with_op(M const &a, int op) { return op == 0 ? a : op == 1 ? transpose(a) : op == 2 ? adjoint(a) : conj(a); }
template <mat_op_type A_, mat_op_type B_, int KA, int KB, int KC> void gem(Args &a, int np)
{
  length_type m = a.extent(5, 4), k = a.extent(5, 4), n = a.extent(5, 4); unsigned tag = a.raw();
  int oa = A_ == mat_ntrans ? 0 : A_ == mat_trans ? 1 : A_ == mat_herm ? 2 : 3, ob = B_ == mat_ntrans ? 0 : B_ == mat_trans ? 1 : B_ == mat_herm ? 2 : 3;
  bool sum = a.below(3) == 0;
  M A = oa == 0 || oa == 3 ? random_matrix(m, k, tag) : random_matrix(k, m, tag), B = ob == 0 || ob == 3 ? random_matrix(k, n, tag + 1) : random_matrix(n, k, tag + 1);
  Z al = value(tag + 4), be = value(tag + 5);
  if (sum) n = k;
  M C = random_matrix(m, n, tag + 2), want = sum ? with_op(A, oa) : mul(with_op(A, oa), with_op(B, ob));
  for (index_type i = 0; i < want.v.size(); ++i) want.v[i] = al * want.v[i] + be * C.v[i];
  Mem<KA> ma(A.r, A.c, a, np); ma.fill(A); Mem<KB> mb(B.r, B.c, a, np); mb.fill(B); Mem<KC> mc(m, n, a, np); mc.fill(C);
  if (sum) gems<A_>(t(al), ma.view(), t(be), mc.view());
  else gemp<A_, B_>(t(al), ma.view(), mb.view(), t(be), mc.view());
  mc.check(want, 300, sum ? "general matrix sum" : "general matrix product"); ma.check(A, 0, "left operand"); mb.check(B, 0, "right operand");
}
void gem_fn(Args &a, int np)
{
  sim_probe(PR_PROD);
  mat_op_type const HE = cplx ? mat_herm : mat_trans, CJ = cplx ? mat_conj : mat_ntrans;
  switch (a.below(16))
  {
    case 10: gem<mat_ntrans, mat_ntrans, 0, 1, 1>(a, np); break;
    case 11: gem<mat_ntrans, mat_ntrans, 1, 0, 0>(a, np); break;
    case 12: gem<mat_trans, mat_trans, 0, 1, 1>(a, np); break;
    case 13: gem<mat_trans, mat_trans, 1, 0, 0>(a, np); break;
    case 14: gem<mat_ntrans, mat_ntrans, 1, 0, 1>(a, np); break;
    case 15: gem<mat_trans, CJ, 1, 1, 0>(a, np); break;
    case 0: gem<mat_ntrans, mat_ntrans, 0, 0, 0>(a, np); break;
    case 1: gem<mat_trans, mat_ntrans, 0, 1, 0>(a, np); break;
    case 2: gem<mat_ntrans, mat_trans, 1, 1, 1>(a, np); break;
    case 3: gem<HE, mat_trans, 2, 0, 2>(a, np); break;
    case 4: gem<CJ, HE, 0, 3, 1>(a, np); break;
    case 5: gem<mat_trans, CJ, 3, 2, 3>(a, np); break;
    case 6: gem<mat_ntrans, mat_ntrans, 4, 4, 4>(a, np); break;
    case 7: gem<mat_ntrans, mat_trans, 5, 4, 4>(a, np); break;
    case 8: gem<mat_ntrans, HE, 4, 6, 5>(a, np); break;
    default: gem<mat_trans, mat_ntrans, 4, 5, 6>(a, np); break;
  }
}
template <typename V, typename W> Z cdot(V a, W b, std::true_type) { return z(cvjdot(a, b)); }
template <typename V, typename W> Z cdot(V a, W b, std::false_type) { return z(dot(a, b)); }
template <int KA, int KB> void vec(Args &a, int np)
{
  length_type n = a.extent(9); unsigned tag = a.raw(); int op = a.below(4);
  M x = random_matrix(n, 1, tag), y = random_matrix(n, 1, tag + 1);
  VMem<KA> vx(n, a, np); VMem<KB> vy(n, a, np); vx.fill(x); vy.fill(y);
  if (op < 2)
  {
    Z got = op ? cdot(vx.view(), vy.view(), std::integral_constant<bool, cplx>()) : z(dot(vx.view(), vy.view())), want = 0;
    for (index_type i = 0; i < n; ++i) want += x.v[i] * (op ? std::conj(y.v[i]) : y.v[i]);
    if (!(std::abs(got - want) <= EPS * 100)) sim_fail("wrong-value", "dot product of %lu elements is (%g,%g), should be (%g,%g)", (unsigned long)n, got.real(), got.imag(), want.real(), want.imag());
  }
  else
  {
    M want = x; for (index_type i = 1; i < n; ++i) want.v[i] += want.v[i - 1];
    cumsum<0>(vx.view(), vy.view());
    vy.check(want, 100, "cumulative sum");
  }
  vx.check(x, 0, "operand");
}
template <int KA, int KB> void mcum(Args &a, int np)
{
  length_type m = a.extent(5, 4), n = a.extent(5, 4); unsigned tag = a.raw(); int d = a.below(2);
  M x = random_matrix(m, n, tag), want = x;
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) if (d ? i : j) want(i, j) += d ? want(i - 1, j) : want(i, j - 1);
  Mem<KA> mx(m, n, a, np); Mem<KB> my(m, n, a, np); mx.fill(x); my.fill(random_matrix(m, n, 4));
  if (d) cumsum<1>(mx.view(), my.view()); else cumsum<0>(mx.view(), my.view());
  my.check(want, 100, "cumulative sum of a matrix"); mx.check(x, 0, "operand");
}
// Kronecker products, with scales of the operands' type and of others
template <int KA, int KB> void kron_v(Args &a, int np)
{
  length_type m = a.extent(5, 4), n = a.extent(5, 4); unsigned tag = a.raw();
  M x = random_matrix(m, 1, tag), y = random_matrix(n, 1, tag + 1); Z al = value(tag + 2);
  VMem<KA> vx(m, a, np); VMem<KB> vy(n, a, np); vx.fill(x); vy.fill(y);
  M want(n, m), got(n, m);
  for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) want(i, j) = al * y.v[i] * x.v[j];
  auto r = kron(t(al), vx.view(), vy.view());
  if (r.size(0) != n || r.size(1) != m) sim_fail("wrong-value", "size of a Kronecker product");
  for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) got(i, j) = z(r.get(i, j));
  same(got, want, 100, "Kronecker product of vectors"); vx.check(x, 0, "operand of a Kronecker product"); vy.check(y, 0, "operand of a Kronecker product");
}
template <int KA, int KB> void kron_m(Args &a, int np)
{
  length_type e[4]; for (int i = 0; i < 4; ++i) e[i] = 1 + a.below(4);
  unsigned tag = a.raw(); int how = a.below(3);
  M x = random_matrix(e[0], e[1], tag), y = random_matrix(e[2], e[3], tag + 1); Z al = how == 0 ? value(tag + 2) : Z(int(tag % 9) - 4);
  Mem<KA> mx(e[0], e[1], a, np); Mem<KB> my(e[2], e[3], a, np); mx.fill(x); my.fill(y);
  M want(e[0] * e[2], e[1] * e[3]), got(want.r, want.c);
  for (index_type i = 0; i < want.r; ++i) for (index_type j = 0; j < want.c; ++j) want(i, j) = al * x(i / e[2], j / e[3]) * y(i % e[2], j % e[3]);
  auto take = [&](auto const &r)
  {
    if (r.size(0) != want.r || r.size(1) != want.c) sim_fail("wrong-value", "size of a Kronecker product");
    for (index_type i = 0; i < want.r; ++i) for (index_type j = 0; j < want.c; ++j) got(i, j) = z(r.get(i, j));
  };
  typedef typename ovxx::scalar_of<T>::type S;
  if (how == 0) take(kron(t(al), mx.view(), my.view()));
  else if (how == 1) take(kron(S(al.real()), mx.view(), my.view()));
  else take(kron(typename std::conditional<cplx, S, int>::type(al.real()), mx.view(), my.view()));
  same(got, want, 100, "Kronecker product of matrices"); mx.check(x, 0, "operand of a Kronecker product"); my.check(y, 0, "operand of a Kronecker product");
}
void vec_fn(Args &a, int np)
{
  sim_probe(PR_DOT);
  switch (a.below(20))
  {
    case 14: kron_v<0, 0>(a, np); break;
    case 15: kron_v<1, 3>(a, np); break;
    case 16: kron_v<2, 1>(a, np); break;
    case 17: kron_m<0, 0>(a, np); break;
    case 18: kron_m<1, 2>(a, np); break;
    case 19: kron_m<3, 1>(a, np); break;
    case 0: vec<0, 0>(a, np); break;
    case 1: vec<1, 1>(a, np); break;
    case 2: vec<2, 0>(a, np); break;
    case 3: vec<2, 2>(a, np); break;
    case 4: vec<3, 1>(a, np); break;
    case 5: vec<0, 2>(a, np); break;
    case 6: vec<4, 4>(a, np); break;
    case 7: vec<5, 4>(a, np); break;
    case 8: vec<6, 5>(a, np); break;
    case 9: vec<4, 6>(a, np); break;
    case 10: mcum<0, 1>(a, np); break;
    case 11: mcum<2, 3>(a, np); break;
    case 12: mcum<4, 5>(a, np); break;
    default: mcum<5, 6>(a, np);
  }
}
struct Register
{
  Register()
  {
    SolverMaker const m[8] = { &Lu<by_reference>::make, &Lu<by_value>::make, &Chol<by_reference>::make, &Chol<by_value>::make,
                               &Qr<by_reference>::make, &Qr<by_value>::make, &Svd<by_reference>::make, &Svd<by_value>::make };
    for (int k = 0; k < 8; ++k) solve_tables().make[SLV_T][k] = m[k];
    solve_tables().fn[SLV_T][0] = &cov_fn; solve_tables().fn[SLV_T][1] = &lsq_fn; solve_tables().fn[SLV_T][2] = &toep_fn;
    solve_tables().fn[SLV_T][3] = &prod_fn; solve_tables().fn[SLV_T][4] = &gem_fn; solve_tables().fn[SLV_T][5] = &vec_fn;
  }
} reg_;
}
#endif
