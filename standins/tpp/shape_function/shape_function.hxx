// Stand-in for the (absent) submodule tensor_product_polynomials: shape functions.
//
// Written for the verification harness in /verif only.  Orthonormal Legendre polynomials on [0,1]
// and their tensor products (first dimension runs fastest).
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdlib>
#include <iostream>

namespace TPP
{
namespace detail
{
// L2([0,1])-orthonormal Legendre polynomial of degree k and its derivative.
inline long double legendre(unsigned int k, long double x)
{
  const long double t = 2.0L * x - 1.0L;
  long double pm = 1.0L, p = t;
  if (k == 0)
    return 1.0L;
  for (unsigned int n = 1; n < k; ++n)
  {
    long double pn = ((2 * n + 1) * t * p - n * pm) / (n + 1);
    pm = p;
    p = pn;
  }
  return p * std::sqrt((long double)(2 * k + 1));
}
inline long double legendre_der(unsigned int k, long double x)
{
  if (k == 0)
    return 0.0L;
  const long double t = 2.0L * x - 1.0L;
  // P'_{n+1} = P'_{n-1} + (2n+1) P_n
  long double pm = 1.0L, p = t, dm = 0.0L, d = 1.0L;
  for (unsigned int n = 1; n < k; ++n)
  {
    long double pn = ((2 * n + 1) * t * p - n * pm) / (n + 1);
    long double dn = dm + (2 * n + 1) * p;
    pm = p;
    p = pn;
    dm = d;
    d = dn;
  }
  return 2.0L * d * std::sqrt((long double)(2 * k + 1));
}
}  // namespace detail

namespace ShapeType
{
template <unsigned int poly_deg>
struct Legendre
{
  static constexpr unsigned int degree() { return poly_deg; }
  static constexpr unsigned int n_fun() { return poly_deg + 1; }
};
template <typename one_dim_t, unsigned int dimT>
struct Tensorial
{
  typedef one_dim_t shape_t;
  static constexpr unsigned int dim() { return dimT; }
  static constexpr unsigned int degree() { return one_dim_t::degree(); }
  static constexpr unsigned int n_fun()
  {
    unsigned int r = 1;
    for (unsigned int i = 0; i < dimT; ++i)
      r *= one_dim_t::n_fun();
    return r;
  }
};
}  // namespace ShapeType

template <typename shape_t>
struct ShapeFunction
{
  typedef shape_t shape_fun_t;
  static constexpr unsigned int n_fun() { return shape_t::n_fun(); }
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int degree() { return shape_t::degree(); }

  template <typename float_t, typename coeff_t, typename point_t>
  static float_t lin_comb_fct_val(const coeff_t& coeffs, const point_t& pt)
  {
    if (coeffs.size() != n_fun())
    {
      std::cerr << "STANDIN-TPP: wrong number of coefficients" << std::endl;
      std::abort();
    }
    long double result = 0.0L;
    for (unsigned int i = 0; i < n_fun(); ++i)
    {
      long double v = 1.0L;
      unsigned int idx = i;
      for (unsigned int d = 0; d < dim(); ++d)
      {
        v *= detail::legendre(idx % (degree() + 1), (long double)pt[d]);
        idx /= degree() + 1;
      }
      result += v * (long double)coeffs[i];
    }
    return (float_t)result;
  }
};
}  // namespace TPP
