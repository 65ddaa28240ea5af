// Stand-in for the (absent) submodule tensor_product_chain_complex.
//
// Written for the verification harness in /verif only.  It implements the part of the TPCC
// interface which HyperHDG/wrapper/tpcc.hxx relies on: the chain complex of the k-dimensional faces
// of a tensor product grid in n dimensions, enumerated lexicographically.
#pragma once

#include <array>
#include <cstddef>
#include <cstdlib>
#include <iostream>

namespace TPCC
{
template <typename T>
constexpr T binomial(T n, T k)
{
  if (k > n)
    return 0;
  T result = 1;
  for (T i = 1; i <= k; ++i)
    result = result * (n - k + i) / i;
  return result;
}

enum class boundaries : unsigned int
{
  none = 0,
  both = 3
};

namespace detail
{
[[noreturn]] inline void fail(const char* what)
{
  std::cerr << "STANDIN-TPCC: " << what << std::endl;
  std::abort();
}
// idx-th k-subset of {0,...,n-1} (lexicographic), as bit mask.
template <int n, int k>
constexpr unsigned int subset(unsigned int idx)
{
  unsigned int mask = 0, need = k, start = 0;
  while (need > 0)
  {
    for (unsigned int d = start; d < (unsigned int)n; ++d)
    {
      unsigned int cnt = binomial<unsigned int>(n - d - 1, need - 1);
      if (idx < cnt)
      {
        mask |= 1u << d;
        start = d + 1;
        --need;
        break;
      }
      idx -= cnt;
    }
  }
  return mask;
}
template <int n, int k>
constexpr unsigned int subset_index(unsigned int mask)
{
  for (unsigned int i = 0; i < binomial<unsigned int>(n, k); ++i)
    if (subset<n, k>(i) == mask)
      return i;
  fail("unknown direction set");
}
}  // namespace detail

template <int n, int k, typename Sint = unsigned int, typename Tint = unsigned int>
class Element
{
  unsigned int mask_;  // Bits of the directions the element extends along.
  std::array<Sint, (n > 0 ? n : 1)> coord_;

  unsigned int nth(unsigned int index, bool along) const
  {
    for (unsigned int d = 0; d < (unsigned int)n; ++d)
      if ((((mask_ >> d) & 1u) == 1u) == along)
      {
        if (index == 0)
          return d;
        --index;
      }
    detail::fail("direction index out of range");
  }

 public:
  static constexpr unsigned int n_val = n;
  static constexpr unsigned int k_val = k;

  Element() : mask_(0) { coord_.fill(0); }
  Element(unsigned int mask, const std::array<Sint, (n > 0 ? n : 1)>& coord)
  : mask_(mask), coord_(coord)
  {
  }
  static constexpr unsigned int n_facets() { return 2 * k; }
  unsigned int mask() const { return mask_; }
  Sint coordinate(unsigned int d) const { return coord_[d]; }
  unsigned int along_direction(unsigned int i) const { return nth(i, true); }
  unsigned int across_direction(unsigned int i) const { return nth(i, false); }
  Sint along_coordinate(unsigned int i) const { return coord_[nth(i, true)]; }
  Sint across_coordinate(unsigned int i) const { return coord_[nth(i, false)]; }
  unsigned int direction_index() const { return detail::subset_index<n, k>(mask_); }
  Element<n, k - 1, Sint, Tint> facet(unsigned int i) const
  {
    if (i >= n_facets())
      detail::fail("facet index out of range");
    const unsigned int d = nth(i / 2, true);
    auto c = coord_;
    c[d] += i % 2;
    return Element<n, k - 1, Sint, Tint>(mask_ & ~(1u << d), c);
  }
};

template <int n,
          int k,
          boundaries bnd = boundaries::both,
          typename Bint = unsigned int,
          typename Sint = unsigned int,
          typename Tint = unsigned int>
class Lexicographic
{
  std::array<Sint, (n > 0 ? n : 1)> dims_;

  // Number of positions in direction d.
  Bint range(unsigned int mask, unsigned int d) const
  {
    if ((mask >> d) & 1u)
      return dims_[d];
    return bnd == boundaries::both ? dims_[d] + 1 : (dims_[d] > 0 ? dims_[d] - 1 : 0);
  }
  Bint block(unsigned int mask) const
  {
    Bint r = 1;
    for (unsigned int d = 0; d < (unsigned int)n; ++d)
      r *= range(mask, d);
    return r;
  }

 public:
  Lexicographic() { dims_.fill(0); }
  template <typename arr_t>
  explicit Lexicographic(const arr_t& dims)
  {
    dims_.fill(0);
    for (unsigned int d = 0; d < (unsigned int)n; ++d)
      dims_[d] = dims[d];
  }
  const std::array<Sint, (n > 0 ? n : 1)>& dims() const { return dims_; }
  Bint size() const
  {
    Bint r = 0;
    for (unsigned int i = 0; i < binomial<unsigned int>(n, k); ++i)
      r += block(detail::subset<n, k>(i));
    return r;
  }
  Element<n, k, Sint, Tint> operator[](Bint index) const
  {
    for (unsigned int i = 0; i < binomial<unsigned int>(n, k); ++i)
    {
      const unsigned int mask = detail::subset<n, k>(i);
      const Bint b = block(mask);
      if (index >= b)
      {
        index -= b;
        continue;
      }
      std::array<Sint, (n > 0 ? n : 1)> c;
      c.fill(0);
      for (unsigned int d = 0; d < (unsigned int)n; ++d)
      {
        const Bint r = range(mask, d);
        c[d] = index % r;
        index /= r;
        if (bnd == boundaries::none && !((mask >> d) & 1u))
          ++c[d];
      }
      return Element<n, k, Sint, Tint>(mask, c);
    }
    detail::fail("element index out of range");
  }
  Bint index(const Element<n, k, Sint, Tint>& e) const
  {
    Bint r = 0;
    for (unsigned int i = 0; i < e.direction_index(); ++i)
      r += block(detail::subset<n, k>(i));
    Bint stride = 1;
    for (unsigned int d = 0; d < (unsigned int)n; ++d)
    {
      Bint c = e.coordinate(d);
      if (bnd == boundaries::none && !((e.mask() >> d) & 1u))
      {
        if (c == 0)
          detail::fail("index of a boundary face in a complex without boundary");
        --c;
      }
      if (c >= range(e.mask(), d))
        detail::fail("element does not belong to complex");
      r += stride * c;
      stride *= range(e.mask(), d);
    }
    return r;
  }
  // Index within the set of elements which share the across directions and coordinates of e.
  Bint index_in_slice(const Element<n, k, Sint, Tint>& e) const
  {
    Bint r = 0, stride = 1;
    for (unsigned int d = 0; d < (unsigned int)n; ++d)
      if ((e.mask() >> d) & 1u)
      {
        if (e.coordinate(d) >= dims_[d])
          detail::fail("element does not belong to complex");
        r += stride * e.coordinate(d);
        stride *= dims_[d];
      }
    return r;
  }
  template <boundaries b>
  Lexicographic<n, k - 1, b, Bint, Sint, Tint> boundary() const
  {
    return Lexicographic<n, k - 1, b, Bint, Sint, Tint>(dims_);
  }
};
}  // namespace TPCC
