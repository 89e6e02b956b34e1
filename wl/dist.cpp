// Assignment between distributed objects: every rank runs the same program
// over up to four objects and knows what a serial program would hold.
#include "objects.hpp"
using namespace wl;
namespace wl { Tables &tables() { static Tables t; return t; } }

enum { OP_CREATE, OP_ASSIGN, OP_FILL, OP_CHECK, OP_ASSIGN2, NOPS };
static int const weight[] = { 5, 8, 1, 1, 4 };
#ifndef WL_NAME
#define WL_NAME "dist"
#endif
extern "C" { SimInfo const wl_info = { WL_NAME, 1, 6, 3, 10, NOPS, weight, SIM_F_MPIERR, SIM_FL_FAILSTOP | SIM_FL_FAULTBIAS }; }
enum { SLOTS = 4 };

struct Store
{
  std::unique_ptr<Base> s[SLOTS];
  ~Store() {}
};

static Base *create(Args &a, int nranks, Base *like)
{
  static int const td[][2] = { { T_F, 1 }, { T_F, 2 }, { T_F, 3 }, { T_C, 1 }, { T_C, 2 }, { T_I, 1 } };
  int w = a.below(9);
  if (w > 5) w = w == 6 ? 1 : w == 7 ? 0 : 2;
  int t = td[w][0], d = td[w][1];
  int same = a.below(8);
  if (like && same != 1) { t = like->t; d = like->d; }
  int nk = d == 1 ? NK1 : d == 2 ? NK2 : NK3;
  int k = a.below(nk);
  MapParam q; q.draw(a, nranks);
  length_type e[3] = { 1, 1, 1 };
  int big = a.below(8);
  for (int i = 0; i < 3; ++i)
  {
    int mx = d == 1 ? (big == 7 ? 300 : 24) : d == 2 ? (big == 7 ? 24 : 9) : 5;
    e[i] = i < d ? 1 + a.below(mx) : (a.raw(), 1);
  }
  if (like && same != 1 && same != 2) for (int i = 0; i < d; ++i) e[i] = like->extent()[i];
  if (!tables().make[t][d][k]) sim_fail("harness", "no objects of type %d, dimension %d, kind %d", t, d, k);
  return tables().make[t][d][k](e, q, nranks);
}
static int partner(Store &st, int from, int seed)
{
  for (int j = 0; j < SLOTS; ++j)
  {
    int k = (seed + j) % SLOTS;
    if (k != from && st.s[k] && st.s[k]->t == st.s[from]->t && st.s[k]->d == st.s[from]->d) return k;
  }
  return -1;
}

extern "C" void wl_rank(SimProg const *p, int rank)
{
  vsipl lib;
  long types = sim_live_types();
  {
  Store st;
  for (int i = 0; i < p->nops; ++i)
  {
    Args a(p->ops[i]); FaultyOp f_(i);
    int objects = 0;
    for (int j = 0; j < SLOTS; ++j) objects += st.s[j] != 0;
    // a program starts with two objects
    switch (objects < 2 && p->ops[i].code != OP_FILL ? (int)OP_CREATE : p->ops[i].code)
    {
      case OP_CREATE:
      {
        int k = -1;
        int c = a.below(SLOTS + 2);
        if (c < SLOTS && objects > 1) k = c;
        else for (int j = 0; j < SLOTS && k < 0; ++j) if (!st.s[j]) k = j;
        if (k < 0) k = 0;
        Base *like = 0;
        for (int j = 0; j < SLOTS; ++j) if (j != k && st.s[j]) like = st.s[j].get();
        Base *n = create(a, p->nranks, like);
        if (!n) break;
        n->refill(17 * i + 1);
        st.s[k].reset(n);
        sim_note("slot %d: %s", k, describe(*n).c_str());
        break;
      }
      case OP_ASSIGN:
      case OP_ASSIGN2:
      {
        int d = -1;
        int want = a.below(SLOTS);
        for (int j = 0; j < SLOTS && d < 0; ++j)
        {
          int k = (want + j) % SLOTS;
          if (st.s[k] && partner(st, k, 0) >= 0) d = k;
        }
        int sw = a.below(SLOTS);
        if (d < 0) break;
        int s = partner(st, d, sw);
        Base &D = *st.s[d], &S = *st.s[s];
        PairFn f = tables().pair[D.t][D.d][D.k][S.k];
        if (!f) sim_fail("harness", "no assignment of kinds %d, %d", D.k, S.k);
        sim_note("slot %d <- slot %d", d, s);
        f(D, S, a);
        break;
      }
      case OP_FILL:
      {
        int k = a.below(SLOTS);
        if (st.s[k]) st.s[k]->refill(31 * i + 7);
        break;
      }
      case OP_CHECK:
        for (int j = 0; j < SLOTS; ++j) if (st.s[j]) st.s[j]->check("object after assignment");
        break;
    }
  }
  for (int j = 0; j < SLOTS; ++j) if (st.s[j]) st.s[j]->check("object at the end");
  }
  if (sim_live_types() > types) sim_fail("type-leak", "%ld message datatypes are left over", sim_live_types() - types);
}
