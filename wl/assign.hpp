#include "objects.hpp"
#include <ovxx/parallel/assign.hpp>
namespace wl
{
#ifndef WL_STRIDE
#define WL_STRIDE 1
#endif
template <typename T, dimension_type D, int KD, int KS>
struct Pair
{
  static void run(Base &bd, Base &bs, Args &a)
  {
    typedef Obj<T, D, KD> OD; typedef Obj<T, D, KS> OS;
    OD &d = static_cast<OD &>(bd); OS &s = static_cast<OS &>(bs);
    bool const cyclic = has_cyclic<typename OD::map_type>::value || has_cyclic<typename OS::map_type>::value;
    int mode = a.below(3);
    if (cyclic) mode = 0;
    if (mode == 0)
    {
      if (cyclic) { for (dimension_type i = 0; i < D; ++i) if (d.m.ext[i] != s.m.ext[i]) return; }
      for (dimension_type i = 0; i < D; ++i) if (d.m.ext[i] != s.m.ext[i]) mode = 1;
    }
    if (mode == 0)
    {
      d.view = s.view;
      Oracle o_; d.m.v = s.m.v;
      return;
    }
    Domain<1> dd[3], ds[3];
    length_type n[3] = { 1, 1, 1 };
    int alike = a.below(8);       // often the same part of both, or nearly everything
    for (dimension_type i = 0; i < D; ++i)
    {
      length_type mn = std::min(d.m.ext[i], s.m.ext[i]);
      n[i] = alike >= 6 && mn > 1 ? mn - a.below(2) : 1 + a.below(mn);
      dd[i] = draw_dom(a, d.m.ext[i], n[i], WL_STRIDE && mode == 2);
      ds[i] = draw_dom(a, s.m.ext[i], n[i], WL_STRIDE && mode == 2);
      if (alike % 4 == 0 && dd[i].impl_last() < s.m.ext[i]) ds[i] = dd[i];
    }
    d.view(Mk<D>::dom(dd)) = s.view(Mk<D>::dom(ds));
    Oracle o_;
    Model<T, D> old = s.m;
    auto f = [&](index_type const *i)
    {
      index_type x[3] = { 0, 0, 0 }, y[3] = { 0, 0, 0 };
      for (dimension_type k = 0; k < D; ++k) { x[k] = dd[k].impl_nth(i[k]); y[k] = ds[k].impl_nth(i[k]); }
      d.m.at(x) = old.get(y);
    };
    for_box<D>(n, f);
  }
};
}
