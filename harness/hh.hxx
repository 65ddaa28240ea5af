// Prelude: framework plus the library's dense linear algebra.
#pragma once
#include "vh.hxx"

#include <HyperHDG/dense_la.hxx>

namespace hh
{
template <unsigned int r, unsigned int c, typename T>
using Ref = std::array<std::array<T, c>, r>;  // Row-major reference.

template <typename T>
inline T rnd(vh::Rng& rng)
{
  if constexpr (std::is_floating_point_v<T>)
  {
    switch (rng.next() % 10)
    {
      case 0:
        return (T)0;
      case 1:
        return (T)rng.i(-4, 4);
      case 2:
        return (T)rng.d(-1e6, 1e6);
      case 3:
        if (std::is_same_v<T, double> && rng.coin())
          return (T)rng.d(-1e-20, 1e-20);
        return (T)rng.d(-1e-6, 1e-6);
      default:
        return (T)rng.d(-3., 3.);
    }
  }
  else if constexpr (std::is_unsigned_v<T>)
    return (T)rng.i(0, 9);
  else
    return (T)rng.i(-9, 9);
}
template <unsigned int r, unsigned int c, typename T>
SmallMat<r, c, T> random_mat(vh::Rng& rng)
{
  SmallMat<r, c, T> m;
  for (unsigned int k = 0; k < r * c; ++k)
    m[k] = rnd<T>(rng);
  return m;
}
template <unsigned int r, unsigned int c, typename T>
uint64_t hash(const SmallMat<r, c, T>& m, uint64_t h = 1469598103934665603ull)
{
  h = vh::mix(vh::mix(h, r), c);
  for (unsigned int k = 0; k < r * c; ++k)
    h = vh::mix(h, (T)m[k]);
  return h;
}
template <unsigned int r, unsigned int c, typename T>
std::string str(const SmallMat<r, c, T>& m)
{
  std::ostringstream o;
  o.precision(17);
  o << r << "x" << c << "[";
  for (unsigned int k = 0; k < r * c; ++k)
    o << (k ? " " : "") << (double)m.data()[k];
  o << "]";
  return o.str();
}
}  // namespace hh
