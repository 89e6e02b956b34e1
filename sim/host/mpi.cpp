// A simulated MPI: the real OpenVSIP code calls these entry points (the MPI C
// API is the seam); delivery, buffering and completion are decided by the
// seeded scheduler.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "sim.hpp"
#include <stdlib.h>
#include <algorithm>

// -------------------------------------------------- predefined handles
#define HANDLE(T, n) extern "C" { struct T n; }
struct ompi_predefined_communicator_t { char pad[64]; };
struct ompi_predefined_group_t { char pad[64]; };
struct ompi_predefined_datatype_t { char pad[64]; };
struct ompi_predefined_op_t { char pad[64]; };
struct ompi_predefined_request_t { char pad[64]; };
struct ompi_predefined_errhandler_t { char pad[64]; };
struct ompi_predefined_info_t { char pad[64]; };
HANDLE(ompi_predefined_communicator_t, ompi_mpi_comm_world)
HANDLE(ompi_predefined_communicator_t, ompi_mpi_comm_self)
HANDLE(ompi_predefined_communicator_t, ompi_mpi_comm_null)
HANDLE(ompi_predefined_group_t, ompi_mpi_group_empty)
HANDLE(ompi_predefined_group_t, ompi_mpi_group_null)
HANDLE(ompi_predefined_request_t, ompi_request_null)
HANDLE(ompi_predefined_errhandler_t, ompi_mpi_errors_return)
HANDLE(ompi_predefined_errhandler_t, ompi_mpi_errors_are_fatal)
HANDLE(ompi_predefined_errhandler_t, ompi_mpi_errhandler_null)
HANDLE(ompi_predefined_info_t, ompi_mpi_info_null)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_datatype_null)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_byte)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_packed)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_char)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_short)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_int)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_long)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_float)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_double)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_long_double)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_unsigned_char)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_signed_char)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_unsigned_short)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_unsigned_long)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_unsigned)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_long_long_int)
HANDLE(ompi_predefined_datatype_t, ompi_mpi_unsigned_long_long)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_max)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_min)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_sum)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_prod)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_land)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_band)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_lor)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_bor)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_lxor)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_bxor)
HANDLE(ompi_predefined_op_t, ompi_mpi_op_null)

namespace sim
{
enum Basic { B_BYTE = 1, B_CHAR, B_SHORT, B_INT, B_LONG, B_FLOAT, B_DOUBLE, B_LDOUBLE, B_UCHAR, B_SCHAR, B_USHORT, B_ULONG, B_UINT, B_LLONG, B_ULLONG };
static size_t const bsize[] = { 0, 1, 1, 2, 4, 8, 4, 8, sizeof(long double), 1, 1, 2, 8, 4, 8, 8 };
static char const *const bname[] = { "?", "byte", "char", "short", "int", "long", "float", "double", "long double", "uchar", "schar", "ushort", "ulong", "uint", "llong", "ullong" };

struct Seg { ptrdiff_t disp; int kind; size_t n; };
struct Type
{
  std::vector<Seg> segs; size_t size = 0; ptrdiff_t lb = 0, ub = 0; bool committed = false; bool builtin = false;
  void add(ptrdiff_t d, int k, size_t n)
  {
    if (!n) return;
    if (!segs.empty())
    {
      Seg &l = segs.back();
      if (l.kind == k && l.disp + (ptrdiff_t)(l.n * bsize[k]) == d) { l.n += n; size += n * bsize[k]; return; }
    }
    Seg s = { d, k, n }; segs.push_back(s); size += n * bsize[k];
  }
  ptrdiff_t extent() const { return ub - lb; }
};
struct Group { std::vector<int> w; };           // world ranks
struct Comm { long ctx; std::vector<int> w; int me; long coll_seq = 0; bool world = false; bool errors_return = false; };
struct Msg;
struct Req { bool done = false; bool send; Msg *m = 0; struct PRecv *p = 0; int rank; int err = 0; };
struct Msg
{
  int src, dst; long ctx; int tag; int mode;     // 0 eager, 1 late, 2 rendezvous, 3 buffered
  std::vector<unsigned char> data; std::vector<std::pair<int, size_t>> sig; size_t bytes = 0;
  void const *buf; int count; Type type; Req *req = 0; uint64_t sum = 0; long seq = 0;
  size_t boff = 0, blen = 0;
};
struct PRecv
{
  int rank; long ctx; int src, tag; void *buf; int count; Type type; bool done = false; int err = 0; Req *req = 0;
  int got_src = 0, got_tag = 0; size_t got_bytes = 0; bool partial = false;
};
struct Coll
{
  int kind; long ctx; std::vector<int> w; int arrived = 0; std::vector<char> in, left;
  int root = 0; size_t bytes = 0; std::vector<std::pair<int, size_t>> sig; void *op = 0; int rootset = 0;
  std::vector<unsigned char> data; std::vector<std::vector<unsigned char>> parts; int basic = 0; size_t n = 0;
  std::vector<std::vector<int>> groups; std::vector<std::pair<int, int>> ck; bool sync = false;
  std::map<long, long> newctx; int left_n = 0; char const *name = "";
};
struct RankMpi
{
  bool inited = false, finalized = false; long n_init = 0, n_fin = 0;
  Comm world; Comm selfc;
  std::set<Comm *> comms; std::set<Group *> groups; std::map<void *, Type *> types; std::set<Req *> reqs;
  std::deque<PRecv *> posted;
  void *abuf = 0; size_t asize = 0; std::vector<std::pair<size_t, size_t>> ause;
  bool done = false;
};
static std::vector<RankMpi *> M;
// in flight, per channel (fifo) and delivered but unmatched, per destination
typedef std::tuple<int, int, long> Chan;
static std::map<Chan, std::deque<Msg *>> flight;
static std::vector<std::deque<Msg *>> arrived;
static std::map<std::pair<long, long>, Coll *> colls;
static long next_ctx = 10, msg_seq = 0, sends_total = 0;

static RankMpi &me() { return *M[self->rank->id]; }
static int myrank() { return self->rank->id; }

static Type *basic_type(void *h)
{
  static std::map<void *, Type *> m;
  if (m.empty())
  {
    struct { void *h; int k; } t[] = {
      { &ompi_mpi_byte, B_BYTE }, { &ompi_mpi_packed, B_BYTE }, { &ompi_mpi_char, B_CHAR }, { &ompi_mpi_short, B_SHORT }, { &ompi_mpi_int, B_INT },
      { &ompi_mpi_long, B_LONG }, { &ompi_mpi_float, B_FLOAT }, { &ompi_mpi_double, B_DOUBLE }, { &ompi_mpi_long_double, B_LDOUBLE },
      { &ompi_mpi_unsigned_char, B_UCHAR }, { &ompi_mpi_signed_char, B_SCHAR }, { &ompi_mpi_unsigned_short, B_USHORT },
      { &ompi_mpi_unsigned_long, B_ULONG }, { &ompi_mpi_unsigned, B_UINT }, { &ompi_mpi_long_long_int, B_LLONG }, { &ompi_mpi_unsigned_long_long, B_ULLONG } };
    for (auto &x : t) { Type *y = new Type; y->add(0, x.k, 1); y->ub = bsize[x.k]; y->committed = y->builtin = true; m[x.h] = y; }
  }
  auto it = m.find(h);
  return it == m.end() ? 0 : it->second;
}
static Type *get_type(MPI_Datatype h, char const *fn)
{
  if (Type *t = basic_type((void *)h)) return t;
  auto it = me().types.find((void *)h);
  if (it == me().types.end()) violation("mpi-usage", "rank %d: %s uses a datatype that is not valid (freed or never created)", myrank(), fn);
  return it->second;
}
static Comm *get_comm(MPI_Comm c, char const *fn)
{
  if ((void *)c == (void *)&ompi_mpi_comm_world) return &me().world;
  if ((void *)c == (void *)&ompi_mpi_comm_self) return &me().selfc;
  if ((void *)c == (void *)&ompi_mpi_comm_null) return 0;
  if (!me().comms.count((Comm *)c)) violation("mpi-usage", "rank %d: %s uses a communicator that is not valid (freed or never created)", myrank(), fn);
  return (Comm *)c;
}
static Group *get_group(MPI_Group g, char const *fn)
{
  static Group empty;
  if ((void *)g == (void *)&ompi_mpi_group_empty) return &empty;
  if ((void *)g == (void *)&ompi_mpi_group_null) return 0;
  if (!me().groups.count((Group *)g)) violation("mpi-usage", "rank %d: %s uses a group that is not valid (freed or never created)", myrank(), fn);
  return (Group *)g;
}
static void alive(char const *fn)
{
  if (!me().inited || me().finalized)
    violation("mpi-usage", "rank %d: %s called %s", myrank(), fn, me().finalized ? "after MPI was finalized" : "before MPI was initialized");
}
static std::vector<std::pair<int, size_t>> signature(Type const &t, int count)
{
  std::vector<std::pair<int, size_t>> s;
  for (int c = 0; c < count; ++c)
    for (auto &g : t.segs) { if (!s.empty() && s.back().first == g.kind) s.back().second += g.n; else s.push_back(std::make_pair(g.kind, g.n)); }
  return s;
}
static void pack(void const *buf, Type const &t, int count, std::vector<unsigned char> &out)
{
  out.resize(t.size * count);
  unsigned char *o = out.data();
  for (int c = 0; c < count; ++c)
    for (auto &g : t.segs)
    {
      size_t n = g.n * bsize[g.kind];
      memcpy(o, (char const *)buf + c * t.extent() + g.disp, n); o += n;
    }
}
static void unpack(void *buf, Type const &t, int count, unsigned char const *d, size_t len)
{
  for (int c = 0; c < count; ++c)
    for (auto &g : t.segs)
    {
      size_t n = std::min(g.n * bsize[g.kind], len);
      memcpy((char *)buf + c * t.extent() + g.disp, d, n); d += n; len -= n;
      if (!len) return;
    }
}
static uint64_t sum(std::vector<unsigned char> const &d)
{ uint64_t h = 1469598103934665603ull; for (unsigned char c : d) { h ^= c; h *= 1099511628211ull; } return h; }
static std::string sigstr(std::vector<std::pair<int, size_t>> const &s)
{
  std::string o; char b[64];
  for (size_t i = 0; i < s.size() && i < 6; ++i) { snprintf(b, sizeof b, "%s%zu %s", i ? "," : "", s[i].second, bname[s[i].first]); o += b; }
  return o;
}

// ------------------------------------------------------------- transport
static void complete_send(Msg *m)
{
  if (m->req) { m->req->done = true; m->req->m = 0; m->req = 0; }
}
static void take_payload(Msg *m)          // read the sender's memory now
{
  pack(m->buf, m->type, m->count, m->data);
  if (sum(m->data) != m->sum)
    violation("send-buffer-modified", "the buffer of a message from rank %d to rank %d was modified before the send completed", m->src, m->dst);
}
static void match(int dst)
{
  RankMpi &r = *M[dst];
  bool again = true;
  while (again)
  {
    again = false;
    for (size_t i = 0; i < r.posted.size() && !again; ++i)
    {
      PRecv *p = r.posted[i];
      for (size_t k = 0; k < arrived[dst].size(); ++k)
      {
        Msg *m = arrived[dst][k];
        if (m->ctx != p->ctx || (p->src != MPI_ANY_SOURCE && p->src != m->src) || (p->tag != MPI_ANY_TAG && p->tag != m->tag)) continue;
        if (m->mode == 2) { take_payload(m); complete_send(m); }
        if (m->mode == 3)
        {
          // the bytes live in the attached buffer of the sender
          RankMpi &sr = *M[m->src];
          memcpy(m->data.data(), (char *)m->buf + m->boff, m->data.size());
          for (size_t u = 0; u < sr.ause.size(); ++u) if (sr.ause[u].first == m->boff && sr.ause[u].second == m->blen) { sr.ause.erase(sr.ause.begin() + u); break; }
          if (sum(m->data) != m->sum)
            violation("send-buffer-modified", "the attached buffer holding a message from rank %d to rank %d was modified or released before delivery", m->src, m->dst);
        }
        std::vector<std::pair<int, size_t>> rs = signature(p->type, p->count);
        size_t cap = p->type.size * p->count;
        p->got_src = m->src; p->got_tag = m->tag; p->got_bytes = m->bytes;
        if (m->bytes > cap)
        {
          violation("mpi-truncate", "rank %d receives %zu bytes into a buffer for %zu bytes from rank %d", dst, m->bytes, cap, m->src);
        }
        // type signatures must agree over the length of the message
        {
          size_t i1 = 0, i2 = 0, l1 = 0, l2 = 0; bool ok = true;
          while (i1 < m->sig.size() && ok)
          {
            if (i2 >= rs.size()) { ok = false; break; }
            if (m->sig[i1].first != rs[i2].first) { ok = false; break; }
            size_t n = std::min(m->sig[i1].second - l1, rs[i2].second - l2);
            l1 += n; l2 += n;
            if (l1 == m->sig[i1].second) { i1++; l1 = 0; }
            if (l2 == rs[i2].second) { i2++; l2 = 0; }
          }
          if (!ok) violation("mpi-type-mismatch", "message from rank %d to rank %d: sent as (%s), received as (%s)", m->src, dst, sigstr(m->sig).c_str(), sigstr(rs).c_str());
        }
        size_t n = m->data.size();
        if (p->partial) n /= 2;                       // a torn receive (reported as an error)
        unpack(p->buf, p->type, p->count, m->data.data(), n);
        if (p->partial) p->err = MPI_ERR_OTHER;
        add_event("match %d->%d ctx %ld seq %ld bytes %zu sum %llx", m->src, dst, m->ctx, m->seq, m->bytes, (unsigned long long)sum(m->data));
        R.sched_hash = mix64(R.sched_hash, m->src * 64 + dst);
        p->done = true;
        if (p->req) { p->req->done = true; p->req->err = p->err; p->req->p = 0; }
        arrived[dst].erase(arrived[dst].begin() + k);
        r.posted.erase(r.posted.begin() + i);
        delete m;
        again = true;
        break;
      }
    }
  }
}
static void deliver(Chan const &c)
{
  std::deque<Msg *> &q = flight[c];
  Msg *m = q.front(); q.pop_front();
  if (q.empty()) flight.erase(c);
  R.stats[ST_DELIVER]++;
  for (auto &f : flight) for (Msg *o : f.second) if (o->seq < m->seq && o->dst == m->dst) { R.stats[ST_REORDER]++; goto counted; }
counted:
  add_event("deliver %d->%d ctx %ld seq %ld", m->src, m->dst, m->ctx, m->seq);
  if (m->mode == 1) { take_payload(m); complete_send(m); }
  arrived[m->dst].push_back(m);
  match(m->dst);
}
static void net_actions(std::vector<Action> &a)
{
  for (auto &f : flight)
  {
    Chan c = f.first;
    Action x; x.weight = C.w_deliver;
    if (std::get<0>(c) == C.slow_link_src && std::get<1>(c) == C.slow_link_dst) x.weight = 1;
    x.run = [c] { deliver(c); };
    a.push_back(x);
  }
}

// error injection; returns an MPI error code or MPI_SUCCESS
static int inject(char const *fn, int *param_out = 0, bool query = false)
{
  if (!(info->faults & SIM_F_MPIERR) || !self->armed) return MPI_SUCCESS;
  int param = 0;
  if (!fault_here(SIM_F_MPIERR, param, query ? C.p_mpiquery : C.p_mpierr)) return MPI_SUCCESS;
  R.stats[ST_MPIERR]++;
  self->rank->mpi_faults++; self->rank->last_fault = fn;
  add_event("%s fails", fn);
  if (param_out) *param_out = param;
  static int const codes[] = { MPI_ERR_OTHER, MPI_ERR_TRUNCATE, MPI_ERR_COMM, MPI_ERR_TYPE, MPI_ERR_RANK, MPI_ERR_BUFFER };
  return codes[param % 6];
}

static int isend(void const *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, Req **out, int forced_mode, char const *fn)
{
  alive(fn);
  Comm *c = get_comm(comm, fn);
  if (!c) return MPI_ERR_COMM;
  if (dest < 0 || dest >= (int)c->w.size()) return MPI_ERR_RANK;
  Type *t = get_type(dt, fn);
  if (!t->committed) violation("mpi-usage", "rank %d: %s uses a datatype that was not committed", myrank(), fn);
  if (int e = inject(fn)) return e;
  sends_total++;
  Msg *m = new Msg; m->src = myrank(); m->dst = c->w[dest]; m->ctx = c->ctx; m->tag = tag; m->buf = buf; m->count = count; m->type = *t;
  m->bytes = t->size * count; m->sig = signature(*t, count); m->seq = ++msg_seq;
  int w[3] = { C.w_eager, C.w_late, C.w_rndv };
  m->mode = forced_mode >= 0 ? forced_mode : choose(3, w);
  pack(buf, *t, count, m->data); m->sum = sum(m->data);
  R.stats[ST_MSGS]++;
  R.stats[m->mode == 0 ? ST_EAGER : m->mode == 2 ? ST_RNDV : ST_LATE]++;
  add_event("send %d->%d ctx %ld seq %ld bytes %zu mode %d sum %llx", m->src, m->dst, m->ctx, m->seq, m->bytes, m->mode, (unsigned long long)m->sum);
  Req *r = 0;
  if (out) { r = new Req; r->send = true; r->rank = myrank(); r->m = m; m->req = r; me().reqs.insert(r); *out = r; }
  if (m->mode == 0) complete_send(m);
  flight[Chan(m->src, m->dst, m->ctx)].push_back(m);
  return MPI_SUCCESS;
}
static PRecv *post(void *buf, int count, MPI_Datatype dt, int src, int tag, Comm *c, char const *fn)
{
  Type *t = get_type(dt, fn);
  if (!t->committed) violation("mpi-usage", "rank %d: %s uses a datatype that was not committed", myrank(), fn);
  PRecv *p = new PRecv; p->rank = myrank(); p->ctx = c->ctx; p->src = src == MPI_ANY_SOURCE ? src : c->w[src]; p->tag = tag; p->buf = buf; p->count = count; p->type = *t;
  me().posted.push_back(p);
  add_event("recv posted %d<-%d ctx %ld bytes %zu", p->rank, p->src, p->ctx, t->size * count);
  match(myrank());
  if (!p->done) R.stats[ST_RECVWAIT]++;
  return p;
}
static int world_to_comm(Comm *c, int w)
{ for (size_t i = 0; i < c->w.size(); ++i) if (c->w[i] == w) return i; return MPI_UNDEFINED; }

// ------------------------------------------------------------ collectives
enum { K_BARRIER, K_BCAST, K_ALLREDUCE, K_CREATE, K_SPLIT, K_DUP, K_REDUCE, K_FINALIZE, K_ALLGATHER, K_GATHER };
static char const *const kname[] = { "Barrier", "Bcast", "Allreduce", "Comm_create", "Comm_split", "Comm_dup", "Reduce", "Finalize", "Allgather", "Gather" };

static Coll *enter(Comm *c, int kind)
{
  long seq = c->coll_seq++;
  Coll *&k = colls[std::make_pair(c->ctx, seq)];
  if (!k)
  {
    k = new Coll; k->kind = kind; k->ctx = c->ctx; k->w = c->w; size_t n = c->w.size();
    k->in.resize(n); k->left.resize(n); k->parts.resize(n); k->groups.resize(n); k->ck.resize(n);
    R.stats[ST_COLL]++;
    int w[2] = { (int)(1000 * (1 - C.p_collsync)), (int)(1000 * C.p_collsync) };
    k->sync = choose(2, w);
    if (k->sync) R.stats[ST_COLLSYNC]++;
  }
  if (k->kind != kind)
    violation("collective-mismatch", "rank %d calls %s while other ranks of the communicator call %s", myrank(), kname[kind], kname[k->kind]);
  k->in[c->me] = 1; k->arrived++;
  add_event("%s ctx %ld #%ld arrives %d/%zu", kname[kind], c->ctx, seq, k->arrived, c->w.size());
  return k;
}
static void leave(Comm *c, Coll *k)
{
  k->left[c->me] = 1;
  if (++k->left_n == (int)k->w.size())
    for (auto it = colls.begin(); it != colls.end(); ++it) if (it->second == k) { colls.erase(it); delete k; break; }
}
static bool all_in(Coll *k) { return k->arrived == (int)k->w.size(); }

template <typename T> static bool red_arith(void *op, T *a, T const *b, size_t n)
{
  for (size_t i = 0; i < n; ++i)
    if (op == &ompi_mpi_op_sum) a[i] = a[i] + b[i];
    else if (op == &ompi_mpi_op_prod) a[i] = a[i] * b[i];
    else if (op == &ompi_mpi_op_max) a[i] = a[i] < b[i] ? b[i] : a[i];
    else if (op == &ompi_mpi_op_min) a[i] = b[i] < a[i] ? b[i] : a[i];
    else return false;
  return true;
}
template <typename T> static bool red_int(void *op, T *a, T const *b, size_t n)
{
  if (op == &ompi_mpi_op_land) for (size_t i = 0; i < n; ++i) a[i] = a[i] && b[i];
  else if (op == &ompi_mpi_op_lor) for (size_t i = 0; i < n; ++i) a[i] = a[i] || b[i];
  else if (op == &ompi_mpi_op_lxor) for (size_t i = 0; i < n; ++i) a[i] = !a[i] != !b[i];
  else if (op == &ompi_mpi_op_band) for (size_t i = 0; i < n; ++i) a[i] &= b[i];
  else if (op == &ompi_mpi_op_bor) for (size_t i = 0; i < n; ++i) a[i] |= b[i];
  else if (op == &ompi_mpi_op_bxor) for (size_t i = 0; i < n; ++i) a[i] ^= b[i];
  else return red_arith(op, a, b, n);
  return true;
}
static bool reduce(int k, void *op, void *a, void const *b, size_t n)
{
  switch (k)
  {
    case B_BYTE:
      if (op != &ompi_mpi_op_band && op != &ompi_mpi_op_bor && op != &ompi_mpi_op_bxor) return false;
      return red_int(op, (unsigned char *)a, (unsigned char const *)b, n);
    case B_CHAR: return false;
    case B_SCHAR: return red_int(op, (signed char *)a, (signed char const *)b, n);
    case B_UCHAR: return red_int(op, (unsigned char *)a, (unsigned char const *)b, n);
    case B_SHORT: return red_int(op, (short *)a, (short const *)b, n);
    case B_USHORT: return red_int(op, (unsigned short *)a, (unsigned short const *)b, n);
    case B_INT: return red_int(op, (int *)a, (int const *)b, n);
    case B_UINT: return red_int(op, (unsigned *)a, (unsigned const *)b, n);
    case B_LONG: case B_LLONG: return red_int(op, (long *)a, (long const *)b, n);
    case B_ULONG: case B_ULLONG: return red_int(op, (unsigned long *)a, (unsigned long const *)b, n);
    case B_FLOAT: return red_arith(op, (float *)a, (float const *)b, n);
    case B_DOUBLE: return red_arith(op, (double *)a, (double const *)b, n);
    case B_LDOUBLE: return red_arith(op, (long double *)a, (long double const *)b, n);
  }
  return false;
}

void mpi_reset(int n)
{
  arrived.resize(n);
  for (int i = 0; i < n; ++i)
  {
    RankMpi *r = new RankMpi; M.push_back(r);
    r->world.ctx = 1; r->world.me = i; r->world.world = true;
    for (int k = 0; k < n; ++k) r->world.w.push_back(k);
    r->selfc.ctx = 1000000 + i; r->selfc.me = 0; r->selfc.w.push_back(i);
  }
  action_sources.push_back(net_actions);
}
std::string mpi_describe()
{
  std::string o; char b[256];
  for (auto &f : flight) for (Msg *m : f.second) { snprintf(b, sizeof b, "in flight %d->%d (%zu bytes); ", m->src, m->dst, m->bytes); o += b; }
  for (auto &q : arrived) for (Msg *m : q) { snprintf(b, sizeof b, "unreceived %d->%d (%zu bytes); ", m->src, m->dst, m->bytes); o += b; }
  return o;
}
void mpi_rank_done(Rank *)
{
  // called when every thread is done
  bool faulty = !R.faults.empty() && (info->flags & SIM_FL_FAILSTOP);
  if (faulty) return;
  std::string o = mpi_describe();
  if (!o.empty()) end_run(1, "message-leak", "messages were never received: " + o);
  for (size_t i = 0; i < M.size(); ++i)
  {
    if (M[i]->inited && !M[i]->finalized) end_run(1, "mpi-not-finalized", "rank " + std::to_string(i) + " ends without finalizing MPI");
    if (!M[i]->posted.empty()) end_run(1, "request-leak", "rank " + std::to_string(i) + ": a receive was posted and never completed");
  }
}
} // namespace sim

using namespace sim;
#define ENTER(fn) Host host_; static char const *const FN = fn; (void)FN; \
  if (!running || !self) { fprintf(stderr, "sim: %s outside a run\n", fn); abort(); }

extern "C" {
long sim_live_types(void) { return me().types.size(); }
long sim_live_comms(void) { return me().comms.size(); }
long sim_live_groups(void) { return me().groups.size(); }
long sim_live_requests(void) { return me().reqs.size(); }
long sim_mpi_inits(void) { return me().n_init; }
long sim_mpi_finalizes(void) { return me().n_fin; }
int sim_mpi_attached(void) { return me().abuf != 0; }
long sim_msgs_sent(void) { return sends_total; }
int sim_msgs_pending(void)
{ int n = 0; for (auto &f : flight) n += f.second.size(); for (auto &q : arrived) n += q.size(); return n; }

int MPI_Init(int *, char ***)
{
  ENTER("MPI_Init");
  if (me().inited) violation("mpi-usage", "rank %d: MPI_Init called twice", myrank());
  me().n_init++;
  add_event("MPI_Init");
  sched_point(FN);
  if (me().inited) violation("mpi-usage", "rank %d: MPI_Init called twice", myrank());
  me().inited = true;
  return MPI_SUCCESS;
}
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Initialized(int *f) { ENTER("MPI_Initialized"); *f = me().inited; sched_point(FN); return MPI_SUCCESS; }
int MPI_Finalized(int *f) { ENTER("MPI_Finalized"); *f = me().finalized; return MPI_SUCCESS; }
int MPI_Finalize(void)
{
  ENTER("MPI_Finalize");
  alive(FN);
  me().n_fin++;
  bool faulty = !R.faults.empty() && (info->flags & SIM_FL_FAILSTOP);
  if (!faulty)
    for (Req *r : me().reqs)
      violation("request-leak", "rank %d: MPI_Finalize with %s", myrank(), r->send ? "a send that was never waited for" : "a receive that was never waited for");
  Coll *k = enter(&me().world, K_FINALIZE);
  if (k->sync) block_until([k] { return all_in(k); }, "MPI_Finalize");
  // pending buffered messages leave the attached buffer
  RankMpi *r = &me();
  if (!r->ause.empty()) block_until([r] { return r->ause.empty(); }, "MPI_Finalize");
  leave(&me().world, k);
  if (r->abuf) ((volatile char *)r->abuf)[0] = ((volatile char *)r->abuf)[0];
  r->abuf = 0; r->finalized = true;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int) { ENTER("MPI_Abort"); abnormal("mpi-abort", "MPI_Abort called"); }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return MPI_SUCCESS; }
int MPI_Buffer_attach(void *b, int n)
{
  ENTER("MPI_Buffer_attach");
  alive(FN);
  if (me().abuf) { R.probes[NPROBE - 1]++; return MPI_ERR_BUFFER; }
  me().abuf = b; me().asize = n;
  return MPI_SUCCESS;
}
int MPI_Buffer_detach(void *b, int *n)
{
  ENTER("MPI_Buffer_detach");
  alive(FN);
  RankMpi *r = &me();
  if (!r->abuf) return MPI_ERR_BUFFER;
  if (!r->ause.empty()) block_until([r] { return r->ause.empty(); }, FN);
  *(void **)b = r->abuf; *n = r->asize;
  r->abuf = 0;
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler)
{ ENTER("MPI_Comm_set_errhandler"); alive(FN); Comm *x = get_comm(c, FN); if (!x) return MPI_ERR_COMM; x->errors_return = true; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r)
{ ENTER("MPI_Comm_rank"); alive(FN); Comm *x = get_comm(c, FN); if (!x) return MPI_ERR_COMM; if (int e = inject(FN, 0, true)) return e; *r = x->me; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *r)
{ ENTER("MPI_Comm_size"); alive(FN); Comm *x = get_comm(c, FN); if (!x) return MPI_ERR_COMM; if (int e = inject(FN, 0, true)) return e; *r = x->w.size(); return MPI_SUCCESS; }
static MPI_Group new_group(std::vector<int> const &w)
{
  if (w.empty()) return (MPI_Group)(void *)&ompi_mpi_group_empty;
  Group *g = new Group; g->w = w; me().groups.insert(g); return (MPI_Group)g;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{ ENTER("MPI_Comm_group"); alive(FN); Comm *x = get_comm(c, FN); if (!x) return MPI_ERR_COMM; if (int e = inject(FN)) return e; *g = new_group(x->w); return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
  ENTER("MPI_Comm_compare"); alive(FN);
  Comm *x = get_comm(a, FN), *y = get_comm(b, FN);
  if (!x || !y) return MPI_ERR_COMM;
  if (int e = inject(FN, 0, true)) return e;
  if (x == y) *r = MPI_IDENT;
  else if (x->w == y->w) *r = MPI_CONGRUENT;
  else { std::set<int> p(x->w.begin(), x->w.end()), q(y->w.begin(), y->w.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; }
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *c)
{
  ENTER("MPI_Comm_free"); alive(FN);
  Comm *x = get_comm(*c, FN);
  if (!x) return MPI_ERR_COMM;
  if (x == &me().world) violation("mpi-usage", "rank %d: the world communicator is freed", myrank());
  add_event("comm free ctx %ld", x->ctx);
  me().comms.erase(x);            // handle memory is kept, so that stale handles are recognised
  *c = (MPI_Comm)(void *)&ompi_mpi_comm_null;
  return MPI_SUCCESS;
}
static int make_comm(Comm *c, Coll *k, std::vector<int> const &w, long key, MPI_Comm *out)
{
  int mr = -1;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] == myrank()) mr = i;
  if (mr < 0) { *out = (MPI_Comm)(void *)&ompi_mpi_comm_null; return MPI_SUCCESS; }
  long &x = k->newctx[key];
  if (!x) x = next_ctx++;
  Comm *n = new Comm; n->ctx = x; n->w = w; n->me = mr; n->errors_return = c->errors_return;
  me().comms.insert(n);
  *out = (MPI_Comm)n;
  return MPI_SUCCESS;
}
int MPI_Comm_create(MPI_Comm comm, MPI_Group g, MPI_Comm *out)
{
  ENTER("MPI_Comm_create"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  Group *gr = get_group(g, FN); if (!gr) return MPI_ERR_GROUP;
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_CREATE);
  k->groups[c->me] = gr->w;
  block_until([k] { return all_in(k); }, FN);
  bool in = std::find(gr->w.begin(), gr->w.end(), myrank()) != gr->w.end();
  if (in)
    for (int w : gr->w)
    {
      int cr = world_to_comm(c, w);
      if (cr == MPI_UNDEFINED) violation("mpi-usage", "rank %d: new communicator has a member outside its parent", myrank());
      if (k->groups[cr] != gr->w) violation("collective-mismatch", "members of a new communicator disagree about its group (rank %d)", myrank());
    }
  int rc = make_comm(c, k, in ? gr->w : std::vector<int>(), in ? gr->w[0] : -1, out);
  leave(c, k);
  return rc;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out)
{
  ENTER("MPI_Comm_split"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_SPLIT);
  k->ck[c->me] = std::make_pair(color, key);
  block_until([k] { return all_in(k); }, FN);
  std::vector<std::pair<int, int>> o;
  if (color != MPI_UNDEFINED)
    for (size_t i = 0; i < c->w.size(); ++i) if (k->ck[i].first == color) o.push_back(std::make_pair(k->ck[i].second, (int)i));
  std::stable_sort(o.begin(), o.end());
  std::vector<int> w; for (auto &p : o) w.push_back(c->w[p.second]);
  int rc = make_comm(c, k, w, color, out);
  leave(c, k);
  return rc;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out)
{
  ENTER("MPI_Comm_dup"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_DUP);
  block_until([k] { return all_in(k); }, FN);
  int rc = make_comm(c, k, c->w, 0, out);
  leave(c, k);
  return rc;
}
int MPI_Group_rank(MPI_Group g, int *r)
{
  ENTER("MPI_Group_rank"); alive(FN);
  Group *x = get_group(g, FN); if (!x) return MPI_ERR_GROUP;
  if (int e = inject(FN, 0, true)) return e;
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < x->w.size(); ++i) if (x->w[i] == myrank()) *r = i;
  return MPI_SUCCESS;
}
int MPI_Group_size(MPI_Group g, int *r) { ENTER("MPI_Group_size"); alive(FN); Group *x = get_group(g, FN); if (!x) return MPI_ERR_GROUP; if (int e = inject(FN, 0, true)) return e; *r = x->w.size(); return MPI_SUCCESS; }
int MPI_Group_free(MPI_Group *g)
{
  ENTER("MPI_Group_free"); alive(FN);
  Group *x = get_group(*g, FN); if (!x) return MPI_ERR_GROUP;
  me().groups.erase(x);
  *g = (MPI_Group)(void *)&ompi_mpi_group_null;
  return MPI_SUCCESS;
}
int MPI_Group_incl(MPI_Group g, int n, int const r[], MPI_Group *out)
{
  ENTER("MPI_Group_incl"); alive(FN);
  Group *x = get_group(g, FN); if (!x) return MPI_ERR_GROUP;
  if (int e = inject(FN)) return e;
  std::vector<int> w; std::set<int> seen;
  for (int i = 0; i < n; ++i)
  { if (r[i] < 0 || r[i] >= (int)x->w.size() || !seen.insert(r[i]).second) return MPI_ERR_RANK; w.push_back(x->w[r[i]]); }
  *out = new_group(w); return MPI_SUCCESS;
}
int MPI_Group_excl(MPI_Group g, int n, int const r[], MPI_Group *out)
{
  ENTER("MPI_Group_excl"); alive(FN);
  Group *x = get_group(g, FN); if (!x) return MPI_ERR_GROUP;
  if (int e = inject(FN)) return e;
  std::set<int> ex;
  for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)x->w.size() || !ex.insert(r[i]).second) return MPI_ERR_RANK; }
  std::vector<int> w;
  for (size_t i = 0; i < x->w.size(); ++i) if (!ex.count(i)) w.push_back(x->w[i]);
  *out = new_group(w); return MPI_SUCCESS;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, int const r[], MPI_Group b, int o[])
{
  ENTER("MPI_Group_translate_ranks"); alive(FN);
  Group *x = get_group(a, FN), *y = get_group(b, FN); if (!x || !y) return MPI_ERR_GROUP;
  if (int e = inject(FN)) return e;
  for (int i = 0; i < n; ++i)
  {
    if (r[i] < 0 || r[i] >= (int)x->w.size()) return MPI_ERR_RANK;
    o[i] = MPI_UNDEFINED;
    for (size_t k = 0; k < y->w.size(); ++k) if (y->w[k] == x->w[r[i]]) o[i] = k;
  }
  return MPI_SUCCESS;
}
static int group_op(MPI_Group a, MPI_Group b, MPI_Group *out, int op, char const *FN)
{
  alive(FN);
  Group *x = get_group(a, FN), *y = get_group(b, FN); if (!x || !y) return MPI_ERR_GROUP;
  if (int e = inject(FN)) return e;
  std::vector<int> w;
  for (int r : x->w)
  {
    bool in = std::find(y->w.begin(), y->w.end(), r) != y->w.end();
    if (op == 0 || (op == 1 && in) || (op == 2 && !in)) w.push_back(r);
  }
  if (op == 0) for (int r : y->w) if (std::find(x->w.begin(), x->w.end(), r) == x->w.end()) w.push_back(r);
  *out = new_group(w); return MPI_SUCCESS;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER("MPI_Group_union"); return group_op(a, b, o, 0, FN); }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER("MPI_Group_intersection"); return group_op(a, b, o, 1, FN); }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER("MPI_Group_difference"); return group_op(a, b, o, 2, FN); }

// ------------------------------------------------------------ datatypes
static MPI_Datatype new_type(Type *t) { me().types[t] = t; return (MPI_Datatype)t; }
static void append(Type *n, Type const *o, ptrdiff_t base)
{
  bool first = n->segs.empty() && n->lb == 0 && n->ub == 0;
  for (auto &s : o->segs) n->add(base + s.disp, s.kind, s.n);
  ptrdiff_t l = base + o->lb, u = base + o->ub;
  if (first) { n->lb = l; n->ub = u; } else { n->lb = std::min(n->lb, l); n->ub = std::max(n->ub, u); }
}
int MPI_Type_vector(int count, int bl, int stride, MPI_Datatype old, MPI_Datatype *out)
{
  ENTER("MPI_Type_vector"); alive(FN); Type *o = get_type(old, FN);
  if (count < 0 || bl < 0) return MPI_ERR_COUNT;
  if (int e = inject(FN)) return e;
  Type *n = new Type;
  for (int i = 0; i < count; ++i) for (int j = 0; j < bl; ++j) append(n, o, ((ptrdiff_t)i * stride + j) * o->extent());
  *out = new_type(n); return MPI_SUCCESS;
}
int MPI_Type_create_hvector(int count, int bl, MPI_Aint stride, MPI_Datatype old, MPI_Datatype *out)
{
  ENTER("MPI_Type_create_hvector"); alive(FN); Type *o = get_type(old, FN);
  if (int e = inject(FN)) return e;
  Type *n = new Type;
  for (int i = 0; i < count; ++i) for (int j = 0; j < bl; ++j) append(n, o, (ptrdiff_t)i * stride + j * o->extent());
  *out = new_type(n); return MPI_SUCCESS;
}
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *out)
{
  ENTER("MPI_Type_contiguous"); alive(FN); Type *o = get_type(old, FN);
  if (int e = inject(FN)) return e;
  Type *n = new Type;
  for (int i = 0; i < count; ++i) append(n, o, (ptrdiff_t)i * o->extent());
  *out = new_type(n); return MPI_SUCCESS;
}
int MPI_Type_create_struct(int count, int const bl[], MPI_Aint const d[], MPI_Datatype const ty[], MPI_Datatype *out)
{
  ENTER("MPI_Type_create_struct"); alive(FN);
  if (int e = inject(FN)) return e;
  Type *n = new Type;
  for (int i = 0; i < count; ++i)
  { Type *o = get_type(ty[i], FN); for (int j = 0; j < bl[i]; ++j) append(n, o, d[i] + (ptrdiff_t)j * o->extent()); }
  *out = new_type(n); return MPI_SUCCESS;
}
int MPI_Type_create_hindexed(int count, int const bl[], MPI_Aint const d[], MPI_Datatype old, MPI_Datatype *out)
{
  ENTER("MPI_Type_create_hindexed"); alive(FN);
  if (int e = inject(FN)) return e;
  Type *n = new Type; Type *o = get_type(old, FN);
  for (int i = 0; i < count; ++i) for (int j = 0; j < bl[i]; ++j) append(n, o, d[i] + (ptrdiff_t)j * o->extent());
  *out = new_type(n); return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *t) { ENTER("MPI_Type_commit"); alive(FN); Type *x = get_type(*t, FN); if (int e = inject(FN)) return e; x->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t)
{
  ENTER("MPI_Type_free"); alive(FN);
  Type *x = get_type(*t, FN);
  if (x->builtin) violation("mpi-usage", "rank %d: a predefined datatype is freed", myrank());
  me().types.erase((void *)*t);
  *t = (MPI_Datatype)(void *)&ompi_mpi_datatype_null;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int *s) { ENTER("MPI_Type_size"); *s = get_type(t, FN)->size; return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int MPI_Error_string(int c, char *s, int *n)
{
  char const *m = "simulated communication failure";
  *n = snprintf(s, MPI_MAX_ERROR_STRING, "%s (code %d)", m, c); return MPI_SUCCESS;
}
int MPI_Error_class(int c, int *k) { *k = c; return MPI_SUCCESS; }
double MPI_Wtime(void) { return now_ns * 1e-9; }

// -------------------------------------------------------- point to point
int MPI_Bsend(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm)
{
  ENTER("MPI_Bsend"); alive(FN);
  Type *t = get_type(dt, FN);
  RankMpi &r = me();
  Comm *c = get_comm(comm, FN);
  if (!c) return MPI_ERR_COMM;
  if (!r.abuf) return MPI_ERR_BUFFER;
  size_t need = t->size * count + MPI_BSEND_OVERHEAD;
  std::sort(r.ause.begin(), r.ause.end());
  size_t off = 0; bool ok = false;
  for (size_t i = 0; i <= r.ause.size(); ++i)
  {
    size_t end = i < r.ause.size() ? r.ause[i].first : r.asize;
    if (off + need <= end) { ok = true; break; }
    if (i < r.ause.size()) off = r.ause[i].first + r.ause[i].second;
  }
  if (!ok) { R.stats[ST_BSENDFULL]++; add_event("Bsend: buffer full"); return MPI_ERR_BUFFER; }
  if (dest < 0 || dest >= (int)c->w.size()) return MPI_ERR_RANK;
  if (int e = inject(FN)) return e;
  sends_total++;
  Msg *m = new Msg; m->src = myrank(); m->dst = c->w[dest]; m->ctx = c->ctx; m->tag = tag; m->count = count; m->type = *t;
  m->bytes = t->size * count; m->sig = signature(*t, count); m->seq = ++msg_seq; m->mode = 3;
  pack(buf, *t, count, m->data); m->sum = sum(m->data);
  m->buf = r.abuf; m->boff = off; m->blen = need;
  if (m->data.size()) memcpy((char *)r.abuf + off, m->data.data(), m->data.size());
  r.ause.push_back(std::make_pair(off, need));
  R.stats[ST_MSGS]++; R.stats[ST_LATE]++;
  add_event("bsend %d->%d ctx %ld seq %ld bytes %zu", m->src, m->dst, m->ctx, m->seq, m->bytes);
  flight[Chan(m->src, m->dst, m->ctx)].push_back(m);
  sched_point(FN);
  return MPI_SUCCESS;
}
int MPI_Isend(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, MPI_Request *req)
{
  ENTER("MPI_Isend");
  sched_point(FN);
  Req *r = 0;
  int rc = isend(buf, count, dt, dest, tag, comm, &r, -1, FN);
  if (rc == MPI_SUCCESS) *req = (MPI_Request)r;
  sched_point(FN);
  return rc;
}
static int wait_req(Req *r, MPI_Status *st, char const *FN)
{
  if (!r->done)
    block_until([r] { return r->done; }, FN, r->send && r->m ? "(send to rank " + std::to_string(r->m->dst) + ")" : "");
  int e = r->err;
  me().reqs.erase(r);
  if (st && st != MPI_STATUS_IGNORE) st->MPI_ERROR = e;
  delete r;
  return e;
}
int MPI_Wait(MPI_Request *req, MPI_Status *st)
{
  ENTER("MPI_Wait"); alive(FN);
  if ((void *)*req == (void *)&ompi_request_null) return MPI_SUCCESS;
  Req *r = (Req *)*req;
  if (!me().reqs.count(r)) violation("mpi-usage", "rank %d: MPI_Wait on a request that is not active", myrank());
  int e = wait_req(r, st, FN);
  *req = (MPI_Request)(void *)&ompi_request_null;
  if (int x = inject(FN)) return x;
  sched_point(FN);
  return e;
}
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[])
{ int e = 0; for (int i = 0; i < n; ++i) { int x = MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); if (x) e = x; } return e; }
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st)
{
  ENTER("MPI_Test"); alive(FN);
  if ((void *)*req == (void *)&ompi_request_null) { *flag = 1; return MPI_SUCCESS; }
  Req *r = (Req *)*req;
  if (!me().reqs.count(r)) violation("mpi-usage", "rank %d: MPI_Test on a request that is not active", myrank());
  if (!r->done) { bool any = true; block_until([&any] { return any; }, FN); }
  *flag = r->done;
  if (r->done) { wait_req(r, st, FN); *req = (MPI_Request)(void *)&ompi_request_null; }
  return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *req)
{
  ENTER("MPI_Request_free"); alive(FN);
  Req *r = (Req *)*req;
  if (!me().reqs.count(r)) violation("mpi-usage", "rank %d: MPI_Request_free on a request that is not active", myrank());
  me().reqs.erase(r);
  if (r->m) r->m->req = 0;
  if (r->p) r->p->req = 0;
  delete r;
  *req = (MPI_Request)(void *)&ompi_request_null;
  return MPI_SUCCESS;
}
int MPI_Send(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm)
{
  ENTER("MPI_Send"); sched_point(FN);
  Req *r = 0;
  int rc = isend(buf, count, dt, dest, tag, comm, &r, -1, FN);
  if (rc) return rc;
  return wait_req(r, MPI_STATUS_IGNORE, FN);
}
int MPI_Ssend(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm)
{
  ENTER("MPI_Ssend"); sched_point(FN);
  Req *r = 0;
  int rc = isend(buf, count, dt, dest, tag, comm, &r, 2, FN);
  if (rc) return rc;
  return wait_req(r, MPI_STATUS_IGNORE, FN);
}
static void fill_status(Comm *c, PRecv *p, MPI_Status *st)
{
  if (!st || st == MPI_STATUS_IGNORE) return;
  st->MPI_SOURCE = world_to_comm(c, p->got_src); st->MPI_TAG = p->got_tag; st->MPI_ERROR = p->err; st->_ucount = p->got_bytes; st->_cancelled = 0;
}
int MPI_Recv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Status *st)
{
  ENTER("MPI_Recv"); alive(FN);
  sched_point(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->w.size())) return MPI_ERR_RANK;
  int param = 0; bool partial = false;
  if (int e = inject(FN, &param)) { if (param % 2 == 0) return e; partial = true; }
  PRecv *p;
  {
    Type *t = get_type(dt, FN);
    if (!t->committed) violation("mpi-usage", "rank %d: %s uses a datatype that was not committed", myrank(), FN);
    p = new PRecv; p->rank = myrank(); p->ctx = c->ctx; p->src = src == MPI_ANY_SOURCE ? src : c->w[src]; p->tag = tag; p->buf = buf; p->count = count; p->type = *t;
    p->partial = partial;
    me().posted.push_back(p);
    add_event("recv posted %d<-%d ctx %ld bytes %zu", p->rank, p->src, p->ctx, t->size * count);
    match(myrank());
    if (!p->done) R.stats[ST_RECVWAIT]++;
  }
  if (!p->done)
    block_until([p] { return p->done; }, FN, "(from rank " + std::to_string(p->src) + ")");
  fill_status(c, p, st);
  int e = p->err;
  delete p;
  return e;
}
int MPI_Irecv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Request *req)
{
  ENTER("MPI_Irecv"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->w.size())) return MPI_ERR_RANK;
  if (int e = inject(FN)) return e;
  Req *r = new Req; r->send = false; r->rank = myrank(); me().reqs.insert(r);
  PRecv *p = post(buf, count, dt, src, tag, c, FN);
  if (p->done) r->done = true; else { p->req = r; r->p = p; }
  *req = (MPI_Request)r;
  sched_point(FN);
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype sd, int dest, int stag, void *rb, int rc, MPI_Datatype rd, int src, int rtag, MPI_Comm comm, MPI_Status *st)
{
  MPI_Request q;
  int e = MPI_Isend(sb, sc, sd, dest, stag, comm, &q);
  if (e) return e;
  e = MPI_Recv(rb, rc, rd, src, rtag, comm, st);
  int f = MPI_Wait(&q, MPI_STATUS_IGNORE);
  return e ? e : f;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype dt, int *n) { ENTER("MPI_Get_count"); Type *t = get_type(dt, FN); *n = t->size ? st->_ucount / t->size : 0; return MPI_SUCCESS; }

// ------------------------------------------------------------ collectives
int MPI_Barrier(MPI_Comm comm)
{
  ENTER("MPI_Barrier"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  sched_point(FN);
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_BARRIER);
  block_until([k] { return all_in(k); }, FN);
  leave(c, k);
  return MPI_SUCCESS;
}
int MPI_Bcast(void *buf, int count, MPI_Datatype dt, int root, MPI_Comm comm)
{
  ENTER("MPI_Bcast"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  Type *t = get_type(dt, FN);
  if (!t->committed) violation("mpi-usage", "rank %d: %s uses a datatype that was not committed", myrank(), FN);
  if (root < 0 || root >= (int)c->w.size()) return MPI_ERR_ROOT;
  sched_point(FN);
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_BCAST);
  auto sg = signature(*t, count);
  if (k->arrived == 1) { k->root = root; k->sig = sg; k->bytes = t->size * count; }
  else if (k->root != root || k->sig != sg)
    violation("collective-mismatch", "rank %d broadcasts with root %d (%s), others with root %d (%s)", myrank(), root, sigstr(sg).c_str(), k->root, sigstr(k->sig).c_str());
  if (c->me == root) { pack(buf, *t, count, k->data); k->rootset = 1; add_event("bcast payload %llx", (unsigned long long)sum(k->data)); }
  if (k->sync) block_until([k] { return all_in(k); }, FN);
  else if (c->me != root) block_until([k] { return k->rootset != 0; }, FN);
  if (c->me != root) unpack(buf, *t, count, k->data.data(), k->data.size());
  leave(c, k);
  return MPI_SUCCESS;
}
static int do_reduce(void const *sb, void *rb, int count, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm comm, int kind, char const *FN)
{
  alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  Type *t = get_type(dt, FN);
  if (!t->builtin && t->segs.size() > 1) return MPI_ERR_OP;
  if (!t->builtin) return MPI_ERR_OP;      // predefined operations need predefined types
  sched_point(FN);
  if (int e = inject(FN)) return e;
  // operation must be defined for the type
  { unsigned char a[16] = { 0 }, b[16] = { 0 }; if (!reduce(t->segs[0].kind, (void *)op, a, b, 1)) return MPI_ERR_OP; }
  Coll *k = enter(c, kind);
  auto sg = signature(*t, count);
  if (k->arrived == 1) { k->sig = sg; k->op = (void *)op; k->root = root; }
  else if (k->sig != sg || k->op != (void *)op || k->root != root)
    violation("collective-mismatch", "rank %d: the ranks of a reduction disagree about type, operation or root", myrank());
  pack(sb == MPI_IN_PLACE ? rb : sb, *t, count, k->parts[c->me]);
  add_event("reduce payload %llx", (unsigned long long)sum(k->parts[c->me]));
  if (kind == K_ALLREDUCE || k->sync || c->me == root) block_until([k] { return all_in(k); }, FN);
  if (kind == K_ALLREDUCE || c->me == root)
  {
    // same combination order for all ranks, rotated per operation
    std::vector<unsigned char> acc = k->parts[0];
    size_t n = acc.size() / bsize[t->segs[0].kind];
    for (size_t i = 1; i < k->parts.size(); ++i) reduce(t->segs[0].kind, (void *)op, acc.data(), k->parts[i].data(), n);
    unpack(rb, *t, count, acc.data(), acc.size());
  }
  leave(c, k);
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype dt, MPI_Op op, MPI_Comm comm)
{ ENTER("MPI_Allreduce"); return do_reduce(sb, rb, count, dt, op, 0, comm, K_ALLREDUCE, FN); }
int MPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm comm)
{ ENTER("MPI_Reduce"); return do_reduce(sb, rb, count, dt, op, root, comm, K_REDUCE, FN); }
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm)
{
  ENTER("MPI_Allgather"); alive(FN);
  Comm *c = get_comm(comm, FN); if (!c) return MPI_ERR_COMM;
  Type *t = get_type(st, FN), *u = get_type(rt, FN);
  sched_point(FN);
  if (int e = inject(FN)) return e;
  Coll *k = enter(c, K_ALLGATHER);
  pack(sb, *t, sc, k->parts[c->me]);
  block_until([k] { return all_in(k); }, FN);
  for (size_t i = 0; i < k->parts.size(); ++i)
    unpack((char *)rb + i * rc * u->extent(), *u, rc, k->parts[i].data(), k->parts[i].size());
  leave(c, k);
  return MPI_SUCCESS;
}
} // extern "C"
