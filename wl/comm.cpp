// Communicators, groups and messages between them (multiple program, multiple
// data): every rank keeps a stack of communicators made by split, sub-group
// creation and copying, and the members a serial reasoner expects.  Different
// groups run different operations at the same time.
#include "objects.hpp"
#include <ovxx/parallel/util.hpp>
#include <ovxx/mpi/chain_builder.hpp>
#include <deque>
using namespace wl;
namespace wl { Tables &tables() { static Tables t; return t; } }
namespace P = ovxx::parallel;
typedef P::Communicator Comm;
typedef P::Group Grp;
typedef std::vector<int> IV;

enum { OP_SPLIT, OP_SUBGROUP, OP_POP, OP_BCAST, OP_REDUCE, OP_MESSAGES, OP_BARRIER, OP_GROUPS, OP_DATA, OP_COPY, OP_FLUSH, NOPS };
static int const weight[] = { 4, 5, 3, 4, 4, 6, 2, 4, 5, 2, 1 };
extern "C" { SimInfo const wl_info = { "comm", 1, 6, 3, 12, NOPS, weight, SIM_F_MPIERR, SIM_FL_FAILSTOP | SIM_FL_FAULTBIAS }; }
enum { PR_MPMD, PR_EXCLUDED, PR_PENDING, PR_SUBDATA };

static unsigned hash_members(IV const &m) { unsigned h = 7; for (size_t i = 0; i < m.size(); ++i) h = hashu(h, m[i] + 1); return h; }

struct Level
{
  Comm comm; IV w;               // members in rank order (empty: not a member)
  int id;                        // messages in one communicator are ordered
};
// ---------------------------------------------------------------- messages
struct Pend { virtual ~Pend() {} virtual void complete() = 0; int id; };

template <typename T> inline bool same(T const &a, T const &b) { return a == b; }
template <typename T> struct Mk1 { static T make(unsigned h) { return Val<T>::make(h); } };
template <dimension_type D> struct Mk1<Index<D> >
{ static Index<D> make(unsigned h) { Index<D> r; for (dimension_type d = 0; d < D; ++d) r[d] = hashu(h, d); return r; } };

struct Plan { int src, dst, len, kind, stride; unsigned tag; };   // ranks of the communicator

// The messages of one exchange, the same on every member.
static std::vector<Plan> plan(Args &a, int n, unsigned salt)
{
  std::vector<Plan> p;
  int k = a.range(1, 5), seed = a.raw();
  for (int i = 0; i < k; ++i)
  {
    unsigned h = hashu(hashu(seed, i), salt);
    Plan x; x.src = h % n; x.dst = (h >> 4) % n;
    x.len = (h >> 9) % 12; x.kind = (h >> 14) % 5; x.stride = 1 + (h >> 18) % 3; x.tag = h;
    if (a.below(3) == 2) { x.src = h % n; x.dst = (x.src + 1) % n; }
    if (x.kind >= 2 && x.len == 0) x.len = 1;
    p.push_back(x);
  }
  return p;
}
template <typename T>
struct Exchange : Pend
{
  Comm comm; int me, id;
  std::vector<Plan> p;
  std::deque<std::vector<T> > sbuf;
  std::vector<Comm::request_type> req;
  std::vector<MPI_Datatype> chains;
  Exchange(Comm const &c, int r, std::vector<Plan> const &pl) : comm(c), me(r), p(pl) {}
  static T elem(Plan const &x, int i) { return Mk1<T>::make(hashu(x.tag, i * 7 + 3)); }
  // memory of one message of strided elements: 0 unless element
  static size_t room(Plan const &x) { return x.len * x.stride + 1; }
  MPI_Datatype chain(Plan const &x, T *base)
  {
    ovxx::mpi::Chain_builder b;
    if (x.kind == 2) b.add<T>((char *)base - (char *)0, x.stride, x.len);                  // absolute
    else if (x.kind == 3)                                                                    // rows of two elements
    {
      int rows = x.len / 2;
      if (rows) b.add<T>((char *)base - (char *)0, 2 * x.stride, rows, x.stride, 2);
      if (x.len % 2) b.add<T>((char *)(base + rows * 2 * x.stride) - (char *)0, 1, 1);
    }
    else                                                                                     // relative, stitched
    {
      ovxx::mpi::Chain_builder rel;
      rel.add<T>(0, x.stride, x.len);
      MPI_Datatype t = rel.get_chain();
      b.stitch(base, t);
      MPI_Datatype all = b.get_chain();
      ovxx::mpi::free_chain(t);
      return all;
    }
    return b.get_chain();
  }
  void start()
  {
    req.reserve(p.size());
    for (size_t i = 0; i < p.size(); ++i)
    {
      Plan const &x = p[i];
      if (x.src != me) continue;
      sbuf.push_back(std::vector<T>(room(x)));
      std::vector<T> &b = sbuf.back();
      int st = x.kind >= 2 ? x.stride : 1;
      for (int k = 0; k < x.len; ++k) b[k * st] = elem(x, k);
      if (x.kind == 1)
      {
        comm.buf_send(x.dst, b.data(), x.len);
        for (size_t k = 0; k < b.size(); ++k) b[k] = T();      // a buffered send has copied its data
        continue;
      }
      req.push_back(Comm::request_type());
      if (x.kind == 0) comm.send(x.dst, b.data(), x.len, req.back());
      else
      {
        MPI_Datatype t = chain(x, b.data());
        comm.send(x.dst, t, req.back());
        ovxx::mpi::free_chain(t);
      }
    }
  }
  void complete()
  {
    for (size_t i = 0; i < p.size(); ++i)
    {
      Plan const &x = p[i];
      if (x.dst != me) continue;
      std::vector<T> b(room(x), T());
      int st = x.kind >= 2 ? x.stride : 1;
      if (x.kind >= 2) { MPI_Datatype t = chain(x, b.data()); comm.recv(x.src, t); ovxx::mpi::free_chain(t); }
      else comm.recv(x.src, b.data(), x.len);
      for (size_t k = 0; k < b.size(); ++k)
      {
        bool el = k % st == 0 && int(k / st) < x.len;
        T want = el ? elem(x, k / st) : T();
        if (!same<T>(b[k], want))
          sim_fail("wrong-value", "message %d->%d (%d elements, form %d): element %d differs from what was sent", x.src, x.dst, x.len, x.kind, (int)k);
      }
    }
    for (size_t i = 0; i < req.size(); ++i) comm.wait(req[i]);
  }
};
// std::vector<bool> has no storage to send from
struct Bool { bool b; Bool(bool v = false) : b(v) {} bool operator==(Bool o) const { return b == o.b; } };
namespace ovxx { namespace mpi { template <> struct Datatype<Bool> { static MPI_Datatype value() { return Datatype<bool>::value(); } }; } }
namespace wl { template <> struct Val<Bool> { static Bool make(unsigned h) { return Bool((h >> 5) & 1); } }; }

template <typename T> static Pend *mk(Comm const &c, int me, std::vector<Plan> const &p)
{ Exchange<T> *e = new Exchange<T>(c, me, p); e->start(); return e; }
static Pend *exchange(int t, Comm const &c, int me, std::vector<Plan> const &p)
{
  switch (t)
  {
    case 0: return mk<float>(c, me, p);
    case 1: return mk<vsip::complex<float> >(c, me, p);
    case 2: return mk<int>(c, me, p);
    case 3: return mk<double>(c, me, p);
    case 4: return mk<vsip::complex<double> >(c, me, p);
    case 5: return mk<Bool>(c, me, p);
    case 6: return mk<Index<1> >(c, me, p);
    case 7: return mk<Index<2> >(c, me, p);
    case 8: return mk<Index<3> >(c, me, p);
    case 9: return mk<unsigned char>(c, me, p);
    case 10: return mk<short>(c, me, p);
    case 11: return mk<char>(c, me, p);
    case 12: return mk<unsigned long>(c, me, p);
    default: return mk<long>(c, me, p);
  }
}
enum { NTYPES = 14 };
template <typename T> static void bcast1(Comm c, int me, int root, int len, unsigned tag)
{
  std::vector<T> b(len + 1);
  for (int i = 0; i < len; ++i) b[i] = me == root ? Mk1<T>::make(hashu(tag, i)) : T();
  c.broadcast(root, b.data(), len);
  for (int i = 0; i <= len; ++i)
    if (!same<T>(b[i], i < len ? Mk1<T>::make(hashu(tag, i)) : T()))
      sim_fail("wrong-value", "element %d of %d of a broadcast from %d differs from what the root has", i, len, root);
}
static void bcast(int t, Comm const &c, int me, int root, int len, unsigned tag)
{
  switch (t)
  {
    case 0: return bcast1<float>(c, me, root, len, tag);
    case 1: return bcast1<vsip::complex<float> >(c, me, root, len, tag);
    case 2: return bcast1<int>(c, me, root, len, tag);
    case 3: return bcast1<double>(c, me, root, len, tag);
    case 4: return bcast1<vsip::complex<double> >(c, me, root, len, tag);
    case 5: return bcast1<Bool>(c, me, root, len, tag);
    case 6: return bcast1<Index<1> >(c, me, root, len, tag);
    case 7: return bcast1<Index<2> >(c, me, root, len, tag);
    case 8: return bcast1<Index<3> >(c, me, root, len, tag);
    case 9: return bcast1<unsigned char>(c, me, root, len, tag);
    case 10: return bcast1<short>(c, me, root, len, tag);
    case 11: return bcast1<char>(c, me, root, len, tag);
    case 12: return bcast1<unsigned long>(c, me, root, len, tag);
    default: return bcast1<long>(c, me, root, len, tag);
  }
}
template <typename T> static void reduce1(Comm c, IV const &w, int me, int kind, unsigned tag)
{
  static ovxx::reduction_type const kinds[] = { ovxx::reduce_sum, ovxx::reduce_min, ovxx::reduce_max };
  T want = T();
  for (size_t i = 0; i < w.size(); ++i)
  {
    T v = Val<T>::make(hashu(tag, i));
    if (!i) want = v;
    else want = kind == 0 ? T(want + v) : kind == 1 ? (v < want ? v : want) : (want < v ? v : want);
  }
  T got = c.allreduce(kinds[kind], Val<T>::make(hashu(tag, me)));
  if (!(got == want)) sim_fail("wrong-value", "reduction %d over %d processors gives %g, should be %g", kind, (int)w.size(), double(got), double(want));
}
static void reduce_bool(Comm c, IV const &w, int me, int kind, unsigned tag)
{
  // mostly true (false) values, so that one processor decides
  bool all = true, any = false;
  for (size_t i = 0; i < w.size(); ++i)
  {
    bool v = hashu(tag, i) % (w.size() + 1) != 0; if (kind & 1) v = !v;
    all = all && v; any = any || v;
  }
  bool v = hashu(tag, me) % (w.size() + 1) != 0; if (kind & 1) v = !v;
  bool got, want = kind & 1 ? any : all;
  if (kind < 2) got = c.allreduce(kind & 1 ? ovxx::reduce_any_true_bool : ovxx::reduce_all_true_bool, v);
  else got = c.allreduce(kind & 1 ? ovxx::reduce_any_true : ovxx::reduce_all_true, int(v)) != 0;
  if (got != want) sim_fail("wrong-value", "logical reduction %d over %d processors gives %d", kind, (int)w.size(), (int)got);
}

// ---------------------------------------------------------------- checks
static int rank_in(IV const &w, int world)
{ for (size_t i = 0; i < w.size(); ++i) if (w[i] == world) return i; return -1; }
static void check_comm(Comm const &c, IV const &w, int world, char const *what)
{
  if (bool(c) != !w.empty()) sim_fail("wrong-value", "%s: communicator is %svalid", what, bool(c) ? "" : "not ");
  if (!c) return;
  if (c.size() != w.size()) sim_fail("wrong-value", "%s: %d members instead of %d", what, (int)c.size(), (int)w.size());
  if ((int)c.rank() != rank_in(w, world)) sim_fail("wrong-value", "%s: rank %d instead of %d", what, (int)c.rank(), rank_in(w, world));
  if (c.pvec().size() != w.size()) sim_fail("wrong-value", "%s: processor list has %d entries for %d members", what, (int)c.pvec().size(), (int)w.size());
  for (size_t i = 0; i < w.size(); ++i) if (c.pvec()[i] != (processor_type)i) sim_fail("wrong-value", "%s: processor list entry %d is %d", what, (int)i, (int)c.pvec()[i]);
}
static void check_group(Grp g, IV const &w, Grp const &world, int self, char const *what)
{
  if (g.size() != w.size()) sim_fail("wrong-value", "%s: group has %d members instead of %d", what, (int)g.size(), (int)w.size());
  int r = rank_in(w, self);
  if (g.rank() != (r < 0 ? no_rank : index_type(r))) sim_fail("wrong-value", "%s: rank in group is %ld instead of %d", what, (long)g.rank(), r);
  IV in(w.size()), out(w.size(), -7);
  for (size_t i = 0; i < w.size(); ++i) in[i] = i;
  Grp gw(world);
  IV::iterator e = g.translate_ranks(in.begin(), in.end(), gw, out.begin());
  if (e != out.end()) sim_fail("wrong-value", "%s: translated %d of %d ranks", what, int(e - out.begin()), (int)w.size());
  for (size_t i = 0; i < w.size(); ++i)
    if (out[i] != w[i]) sim_fail("wrong-value", "%s: member %d is processor %d instead of %d", what, (int)i, out[i], w[i]);
  if (w.size())
  {
    std::vector<int> o2(w.size(), -7);
    int *q = g.translate_ranks(&in[0], &in[0] + in.size(), gw, &o2[0]);
    if (q != &o2[0] + o2.size() || o2 != w) sim_fail("wrong-value", "%s: members differ when translated through pointers", what);
  }
}
// a random group over a base group of n members; ranks of the base
static Grp random_group(Args &a, Grp base, int n, unsigned salt, IV &m)
{
  int how = a.below(4);
  unsigned h = hashu(a.raw(), salt);
  IV pick;
  for (int i = 0; i < n; ++i) if (hashu(h, i) % 3 != 0) pick.push_back(i);
  if (how >= 2) for (size_t i = pick.size(); i > 1; --i) std::swap(pick[i - 1], pick[hashu(h, i + 90) % i]);
  bool ptr = a.below(2);
  int none = a.below(6);
  if (none == 5) pick.clear();
  if (how != 1)
  {
    m = pick;
    if (ptr) { int *p = pick.data(); return base.include(p, p + pick.size()); }
    return base.include(pick.begin(), pick.end());
  }
  m.clear();
  for (int i = 0; i < n; ++i) if (std::find(pick.begin(), pick.end(), i) == pick.end()) m.push_back(i);
  if (ptr) { int *p = pick.data(); return base.exclude(p, p + pick.size()); }
  return base.exclude(pick.begin(), pick.end());
}
static void data_op(Args &a, int n, unsigned tag)
{
  std::unique_ptr<Base> o[3];
  int d = a.range(1, 2);
  length_type e[3] = { 1, 1, 1 };
  for (int i = 0; i < d; ++i) e[i] = 1 + a.below(d == 1 ? 24 : 8);
  for (int k = 0; k < 3; ++k)
  {
    MapParam q; q.draw(a, n);
    int kind = a.below(d == 1 ? NK1 : NK2);
    if (!tables().make[T_F][d][kind]) kind = 0;
    o[k].reset(tables().make[T_F][d][kind](e, q, n));
    o[k]->refill(hashu(tag, k));
  }
  for (int k = 0; k < 3; ++k)
  {
    Base &D = *o[a.below(3)], &S = *o[a.below(3)];
    if (&D == &S) continue;
    PairFn f = tables().pair[T_F][d][D.k][S.k];
    if (f) f(D, S, a);
  }
  for (int k = 0; k < 3; ++k) o[k]->check("object of a group of processors");
  // element access and reductions stay within the group
  MapParam q; q.draw(a, n); q.perm = 0;
  Vector<float, Dense<1, float, row1_type, Map<Block_dist> > > v(5 + a.below(9), MakeMap<1, Map<Block_dist> >::make(q, n));
  Model<float, 1> m; length_type ve[3] = { v.size(), 1, 1 }; m.init(ve); m.fill(hashu(tag, 77)); write_local(v, m);
  float s = 0; for (index_type i = 0; i < m.v.size(); ++i) s += m.v[i];
  if (vsip::sumval(v) != s) sim_fail("wrong-value", "sum of distributed data within a group is not the serial sum");
  index_type i = a.below(v.size());
  if (v.get(i) != m.v[i]) sim_fail("wrong-value", "element of distributed data within a group is not the serial one");
}

extern "C" void wl_rank(SimProg const *p, int rank)
{
  vsipl lib;
  // datatypes made on first use stay
  ovxx::mpi::Datatype<bool>::value(); ovxx::mpi::Datatype<Index<1> >::value(); ovxx::mpi::Datatype<Index<2> >::value(); ovxx::mpi::Datatype<Index<3> >::value();
  long types = sim_live_types(), comms = sim_live_comms(), groups = sim_live_groups();
  {
  std::vector<Level> st;
  Level top; top.comm = P::default_communicator(); for (int i = 0; i < p->nranks; ++i) top.w.push_back(i); top.id = 0;
  { Comm c; check_comm(c, top.w, rank, "default-constructed communicator"); if (c != top.comm) sim_fail("wrong-value", "a default-constructed communicator is not the world"); }
  Grp world = top.comm.group();
  int next_id = 1;
  st.push_back(top);
  std::vector<std::unique_ptr<Pend> > pend;
  struct Flush
  {
    static void go(std::vector<std::unique_ptr<Pend> > &v, int id)
    {
      for (size_t i = 0; i < v.size();)
        if (id < 0 || v[i]->id == id) { v[i]->complete(); v.erase(v.begin() + i); } else ++i;
    }
  };
  for (int i = 0; i < p->nops; ++i)
  {
    Args a(p->ops[i]); FaultyOp f_(i);
    int code = p->ops[i].code;
    Level &cur = st.back();
    IV w = cur.w;
    bool in = !w.empty();
    unsigned salt = 0;
    // groups diverge: the same step does something else in every group
    if (code != OP_POP && a.below(2) == 1 && in && code != OP_FLUSH)
    {
      salt = hash_members(w);
      static int const alt[] = { OP_BCAST, OP_REDUCE, OP_MESSAGES, OP_BARRIER, OP_GROUPS, OP_DATA };
      if (code != OP_SPLIT && code != OP_SUBGROUP && code != OP_COPY && st.size() > 1) { code = alt[hashu(salt, i) % 6]; sim_probe(PR_MPMD); }
    }
    int me = in ? rank_in(w, rank) : -1, n = w.size();
    unsigned tag = hashu(hashu(i, 40503), salt);
    if (!in) sim_probe(PR_EXCLUDED);
    switch (code)
    {
      case OP_SPLIT:
      {
        if (st.size() > 3) break;
        Level l; l.id = next_id++;
        if (in)
        {
          int nc = a.range(1, 3), how = a.below(4); unsigned h = hashu(a.raw(), salt);
          IV col(n), key(n); bool undef = a.below(3) == 2;
          for (int k = 0; k < n; ++k)
          {
            col[k] = hashu(h, k) % nc; key[k] = how == 0 ? k : how == 1 ? -k : how == 2 ? 0 : int(hashu(h, k + 50) % 5);
            if (undef && hashu(h, k + 20) % 3 == 0) col[k] = MPI_UNDEFINED;
          }
          l.comm = how == 0 ? cur.comm.split(col[me]) : cur.comm.split(col[me], key[me]);
          if (col[me] != MPI_UNDEFINED)
          {
            std::vector<std::pair<int, int> > o;
            for (int k = 0; k < n; ++k) if (col[k] == col[me]) o.push_back(std::make_pair(key[k], k));
            std::stable_sort(o.begin(), o.end());
            for (size_t k = 0; k < o.size(); ++k) l.w.push_back(w[o[k].second]);
          }
          check_comm(l.comm, l.w, rank, "split");
          if (l.comm && l.comm == cur.comm) sim_fail("wrong-value", "a split communicator equals its parent");
        }
        else l.comm = Comm(MPI_COMM_NULL, Comm::comm_attach);
        st.push_back(l);
        break;
      }
      case OP_SUBGROUP:
      {
        if (st.size() > 3) break;
        Level l; l.id = next_id++;
        if (in)
        {
          IV m;
          Grp g = random_group(a, cur.comm.group(), n, salt, m);
          IV ww; for (size_t k = 0; k < m.size(); ++k) ww.push_back(w[m[k]]);
          check_group(g, ww, world, rank, "group");
          l.comm = Comm(cur.comm, g);
          if (rank_in(ww, rank) >= 0) l.w = ww;
          check_comm(l.comm, l.w, rank, "communicator of a group");
          if (l.comm) check_group(l.comm.group(), l.w, world, rank, "group of a communicator");
        }
        else l.comm = Comm(MPI_COMM_NULL, Comm::comm_attach);
        st.push_back(l);
        break;
      }
      case OP_COPY:
      {
        if (st.size() > 3) break;
        Level l; l.id = next_id++; l.w = w;
        bool dup = a.below(2);
        if (!in) { l.comm = Comm(MPI_COMM_NULL, dup ? Comm::comm_duplicate : Comm::comm_attach); st.push_back(l); break; }
        if (dup) l.comm = Comm(cur.comm, Comm::comm_duplicate);
        else { l.comm = cur.comm; l.id = cur.id; }
        check_comm(l.comm, l.w, rank, "copy of a communicator");
        if ((l.comm == cur.comm) == dup) sim_fail("wrong-value", "comparison of a communicator with its %s", dup ? "duplicate" : "copy");
        st.push_back(l);
        break;
      }
      case OP_POP:
      {
        if (st.size() > 1) { bool keep = a.below(2); if (!keep) Flush::go(pend, st.back().id); st.pop_back(); }
        break;
      }
      case OP_BCAST:
        if (in) { int t = (a.raw() + salt) % NTYPES, root = hashu(a.raw(), salt) % n, len = a.below(9); bcast(t, cur.comm, me, root, len, tag); }
        break;
      case OP_REDUCE:
        if (in)
        {
          int t = (a.raw() + salt) % 6, k = a.below(3), kb = a.below(4);
          if (t == 0) reduce1<int>(cur.comm, w, me, k, tag);
          else if (t == 1) reduce1<float>(cur.comm, w, me, k, tag);
          else if (t == 2) reduce1<double>(cur.comm, w, me, k, tag);
          else if (t == 3) reduce1<long>(cur.comm, w, me, k, tag);
          else reduce_bool(cur.comm, w, me, kb, tag);
        }
        break;
      case OP_MESSAGES:
        if (in)
        {
          int t = (a.raw() + salt) % NTYPES; bool later = a.below(2);
          Flush::go(pend, cur.id);
          std::vector<Plan> pl = plan(a, n, salt);
          std::unique_ptr<Pend> x(exchange(t, cur.comm, me, pl));
          x->id = cur.id;
          if (later) { sim_probe(PR_PENDING); pend.push_back(std::move(x)); }
          else x->complete();
        }
        break;
      case OP_BARRIER:
        if (in)
        {
          // nobody leaves before everybody has come
          struct B { int in[SIM_MAXRANKS]; };
          B *b; { Oracle o; b = (B *)sim_blackboard(i, sizeof(B)); b->in[rank] = 1; }
          cur.comm.barrier();
          { Oracle o; for (int k = 0; k < n; ++k) if (!b->in[w[k]]) sim_fail("wrong-value", "processor %d left a barrier before processor %d came to it", rank, w[k]); }
        }
        break;
      case OP_GROUPS:
        if (in)
        {
          IV m1, m2, u, x, d; Grp base = cur.comm.group();
          Grp g1 = random_group(a, base, n, salt, m1), g2 = random_group(a, base, n, hashu(salt, 5), m2);
          IV w1, w2;
          for (size_t k = 0; k < m1.size(); ++k) w1.push_back(w[m1[k]]);
          for (size_t k = 0; k < m2.size(); ++k) w2.push_back(w[m2[k]]);
          check_group(g1, w1, world, rank, "group"); check_group(g2, w2, world, rank, "group");
          u = w1;
          for (size_t k = 0; k < w2.size(); ++k) if (rank_in(w1, w2[k]) < 0) u.push_back(w2[k]);
          for (size_t k = 0; k < w1.size(); ++k) if (rank_in(w2, w1[k]) >= 0) x.push_back(w1[k]); else d.push_back(w1[k]);
          check_group(g1 | g2, u, world, rank, "union of groups");
          check_group(g1 & g2, x, world, rank, "intersection of groups");
          check_group(g1 - g2, d, world, rank, "difference of groups");
          check_group(base, w, world, rank, "group of a communicator");
        }
        break;
      case OP_DATA:
        if (in)
        {
          if (st.size() > 1) sim_probe(PR_SUBDATA);
          Flush::go(pend, cur.id);
          Comm old = P::set_default_communicator(cur.comm);
          {
            if (num_processors() != w.size()) sim_fail("wrong-value", "num_processors() is %d within a group of %d", (int)num_processors(), n);
            if ((int)local_processor() != me || (int)local_processor_index() != me) sim_fail("wrong-value", "local_processor() is %d within a group, not %d", (int)local_processor(), me);
            const_Vector<processor_type> ps = processor_set();
            if ((int)ps.size() != n) sim_fail("wrong-value", "processor_set() has %d entries within a group of %d", (int)ps.size(), n);
            for (int k = 0; k < n; ++k) if ((int)ps.get(k) != k) sim_fail("wrong-value", "processor_set() entry %d is %d", k, (int)ps.get(k));
            data_op(a, n, tag);
          }
          Comm mine = P::set_default_communicator(old);
          if (mine != cur.comm) sim_fail("wrong-value", "set_default_communicator() returned another communicator than the one in effect");
          check_comm(P::default_communicator(), st[0].w, rank, "restored default communicator");
        }
        break;
      case OP_FLUSH: Flush::go(pend, -1); break;
    }
  }
  Flush::go(pend, -1);
  }
  if (sim_live_types() > types) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
  if (sim_live_comms() > comms) sim_fail("comm-leak", "%ld communicators are left over", sim_live_comms() - comms);
  if (sim_live_groups() > groups) sim_fail("comm-leak", "%ld groups are left over", sim_live_groups() - groups);
}
