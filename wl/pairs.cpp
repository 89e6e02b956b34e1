// One part of the assignment table: element type PT, dimension PD, all
// sources for the destination kind PK.
#include "assign.hpp"
using namespace wl;
#ifndef PT
#define PT float
#define PD 1
#define PK 0
#endif
#ifndef PKS_LO
#define PKS_LO 0
#define PKS_HI 99
#endif
// unnamed namespace: every translation unit has its own registration
namespace {
template <typename T, int DIM, int DK, int SK, int N> struct Reg
{
  static void go(Tables &t) { if (SK >= PKS_LO && SK <= PKS_HI) t.pair[TId<T>::id][DIM][DK][SK] = Get<T, DIM, DK, SK, (SK >= PKS_LO && SK <= PKS_HI)>::fn(); Reg<T, DIM, DK, SK + 1, N>::go(t); }
  template <typename U, int D2, int K2, int S2, bool on> struct Get { static PairFn fn() { return 0; } };
  template <typename U, int D2, int K2, int S2> struct Get<U, D2, K2, S2, true> { static PairFn fn() { return &Pair<U, D2, K2, S2>::run; } };
};
template <typename T, int DIM, int DK, int N> struct Reg<T, DIM, DK, N, N> { static void go(Tables &) {} };
struct Init
{
  Init()
  {
    Tables &t = tables();
    t.make[TId<PT>::id][PD][PK] = &Maker<PT, PD, PK>::make;
    Reg<PT, PD, PK, 0, NKinds<PD>::value>::go(t);
  }
} init_;
}
