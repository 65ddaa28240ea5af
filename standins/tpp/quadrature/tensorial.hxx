// Stand-in for the (absent) submodule tensor_product_polynomials: tensorial quadrature.
//
// Written for the verification harness in /verif only.
//
// Semantics (documented in /verif/DESIGN.md): the hyperedge is the image of the unit cube under
// x = b + M xi, M = Q R.  Integrals live on the isometric parallelepiped y = R xi, i.e., gradients
// are R^{-T} grad_xi, volume elements carry geom.area(), faces carry geom.face_area(face), and the
// outward unit normal of a face in y coordinates is geom.local_normal(face).
#pragma once

#include <tpp/shape_function/shape_function.hxx>

#include <array>
#include <cmath>
#include <type_traits>
#include <vector>

namespace TPP
{
namespace Quadrature
{
template <unsigned int quad_deg>
struct GaussLegendre
{
  static constexpr unsigned int n_points() { return quad_deg / 2 + 1; }
};

template <typename rule_t, typename shape_funT, typename float_t = double>
class Tensorial
{
 public:
  typedef shape_funT shape_fun_t;
  static constexpr unsigned int dim = shape_fun_t::dim();
  static constexpr unsigned int deg = shape_fun_t::degree();
  static constexpr unsigned int nq = rule_t::n_points();

 private:
  using idx_t = std::array<unsigned int, (dim > 0 ? dim : 1)>;

  struct Tables
  {
    std::array<long double, nq> pt, wt;
    std::array<std::array<long double, nq>, deg + 1> val, der;
    std::array<std::array<long double, 2>, deg + 1> bval, bder;
    Tables()
    {
      const long double pi = std::acos(-1.0L);
      for (unsigned int i = 0; i < nq; ++i)
      {
        long double t = std::cos(pi * (nq - i - 0.25L) / (nq + 0.5L)), dp = 1.0L;
        for (unsigned int it = 0; it < 100; ++it)
        {
          long double p0 = 1.0L, p1 = t;
          for (unsigned int n = 1; n < nq; ++n)
          {
            long double p2 = ((2 * n + 1) * t * p1 - n * p0) / (n + 1);
            p0 = p1;
            p1 = p2;
          }
          dp = nq * (t * p1 - p0) / (t * t - 1.0L);
          long double step = p1 / dp;
          t -= step;
          if (std::abs(step) < 1e-20L)
            break;
        }
        pt[i] = 0.5L * (t + 1.0L);
        wt[i] = 1.0L / ((1.0L - t * t) * dp * dp);
      }
      for (unsigned int k = 0; k <= deg; ++k)
      {
        for (unsigned int q = 0; q < nq; ++q)
        {
          val[k][q] = detail::legendre(k, pt[q]);
          der[k][q] = detail::legendre_der(k, pt[q]);
        }
        for (unsigned int b = 0; b < 2; ++b)
        {
          bval[k][b] = detail::legendre(k, (long double)b);
          bder[k][b] = detail::legendre_der(k, (long double)b);
        }
      }
    }
  };
  static const Tables& tab()
  {
    static const Tables t;
    return t;
  }

  [[noreturn]] static void fail(const char* what)
  {
    std::cerr << "STANDIN-TPP: " << what << std::endl;
    std::abort();
  }
  static constexpr unsigned int ipow(unsigned int b, unsigned int e)
  {
    unsigned int r = 1;
    for (unsigned int i = 0; i < e; ++i)
      r *= b;
    return r;
  }
  static idx_t split(unsigned int index, unsigned int n_dims, unsigned int range)
  {
    idx_t r{};
    for (unsigned int d = 0; d < n_dims; ++d)
    {
      r[d] = index % range;
      index /= range;
    }
    if (index != 0)
      fail("shape function or quadrature index out of range");
    return r;
  }
  // Quadrature point of the volume.
  struct VolPt
  {
    idx_t q;
    std::array<long double, (dim > 0 ? dim : 1)> x;
    long double w;
  };
  static const std::vector<VolPt>& vol_pts()
  {
    static const std::vector<VolPt> pts = []() {
      std::vector<VolPt> r;
      for (unsigned int i = 0; i < ipow(nq, dim); ++i)
      {
        VolPt p{split(i, dim, nq), {}, 1.0L};
        for (unsigned int d = 0; d < dim; ++d)
        {
          p.x[d] = tab().pt[p.q[d]];
          p.w *= tab().wt[p.q[d]];
        }
        r.push_back(p);
      }
      return r;
    }();
    return pts;
  }
  // Quadrature points of a face: q[d] = nq marks the fixed direction.
  static const std::vector<VolPt>& bdr_pts(unsigned int face)
  {
    static const std::vector<std::vector<VolPt>> all = []() {
      std::vector<std::vector<VolPt>> a;
      for (unsigned int f = 0; f < 2 * dim; ++f)
      {
        std::vector<VolPt> r;
        for (unsigned int i = 0; i < ipow(nq, dim - 1); ++i)
        {
          idx_t s = split(i, dim - 1, nq);
          VolPt p{{}, {}, 1.0L};
          unsigned int k = 0;
          for (unsigned int d = 0; d < dim; ++d)
            if (d == f / 2)
            {
              p.q[d] = nq;
              p.x[d] = f % 2;
            }
            else
            {
              p.q[d] = s[k++];
              p.x[d] = tab().pt[p.q[d]];
              p.w *= tab().wt[p.q[d]];
            }
          r.push_back(p);
        }
        a.push_back(r);
      }
      return a;
    }();
    if (face >= 2 * dim)
      fail("face index out of range");
    return all[face];
  }
  static long double v1(unsigned int k, const VolPt& p, unsigned int d)
  {
    return p.q[d] == nq ? tab().bval[k][p.x[d] > 0.5L] : tab().val[k][p.q[d]];
  }
  static long double d1(unsigned int k, const VolPt& p, unsigned int d)
  {
    return p.q[d] == nq ? tab().bder[k][p.x[d] > 0.5L] : tab().der[k][p.q[d]];
  }
  static long double phi(const idx_t& k, const VolPt& p)
  {
    long double r = 1.0L;
    for (unsigned int d = 0; d < dim; ++d)
      r *= v1(k[d], p, d);
    return r;
  }
  static long double dphi(const idx_t& k, const VolPt& p, unsigned int dir)
  {
    long double r = 1.0L;
    for (unsigned int d = 0; d < dim; ++d)
      r *= d == dir ? d1(k[d], p, d) : v1(k[d], p, d);
    return r;
  }
  // Face shape function: k has dim-1 entries.
  static long double psi(const idx_t& k, const VolPt& p, unsigned int face)
  {
    long double r = 1.0L;
    unsigned int i = 0;
    for (unsigned int d = 0; d < dim; ++d)
      if (d != face / 2)
        r *= v1(k[i++], p, d);
    return r;
  }
  static idx_t vol_idx(unsigned int i, unsigned int degree = deg) { return split(i, dim, degree + 1); }
  static idx_t bdr_idx(unsigned int i) { return split(i, dim - 1, deg + 1); }

  // Physical gradient (in y coordinates): solve R^T g = grad_xi.
  struct RMat
  {
    long double r[dim > 0 ? dim : 1][dim > 0 ? dim : 1];
    template <typename geom_t>
    explicit RMat(const geom_t& geom)
    {
      const auto m = geom.mat_r();
      for (unsigned int d = 0; d < dim; ++d)
        for (unsigned int e = 0; e < dim; ++e)
          r[e][d] = (long double)m(e, d);
    }
  };
  static std::array<long double, (dim > 0 ? dim : 1)> grad(const idx_t& k, const VolPt& p, const RMat& m)
  {
    std::array<long double, (dim > 0 ? dim : 1)> g{};
    for (unsigned int d = 0; d < dim; ++d)
    {
      long double s = dphi(k, p, d);
      for (unsigned int e = 0; e < d; ++e)
        s -= m.r[e][d] * g[e];
      g[d] = s / m.r[d][d];
    }
    return g;
  }
  template <typename point_t, typename smallVec_t, typename geom_t>
  static point_t phys(const VolPt& p, const geom_t& geom)
  {
    std::conditional_t<std::is_void_v<smallVec_t>,
                       std::decay_t<decltype(std::declval<geom_t&>().local_normal(0))>, smallVec_t>
      ref;
    for (unsigned int d = 0; d < dim; ++d)
      ref[d] = (float_t)std::min(1.0L, std::max(0.0L, p.x[d]));
    return (point_t)geom.map_ref_to_phys(ref);
  }
  // Component dir of a vector field in local coordinates, i.e., (Q^T v)_dir.
  template <typename geom_t>
  struct QMat
  {
    long double q[geom_t::space_dim()][geom_t::space_dim()];
    explicit QMat(const geom_t& geom)
    {
      const auto m = geom.mat_q();
      for (unsigned int d = 0; d < geom_t::space_dim(); ++d)
        for (unsigned int e = 0; e < geom_t::space_dim(); ++e)
          q[d][e] = (long double)m(d, e);
    }
  };
  template <typename geom_t, typename vec_t>
  static long double local_comp(const vec_t& v, unsigned int dir, const QMat<geom_t>& m)
  {
    long double s = 0.0L;
    for (unsigned int d = 0; d < geom_t::space_dim(); ++d)
      s += m.q[d][dir] * (long double)v[d];
    return s;
  }
  template <typename point_t, typename geom_t>
  static point_t direction(int comp, geom_t& geom)
  {
    if (comp > 0)
      return (point_t)geom.inner_normal(comp - 1);
    return (point_t)geom.outer_normal(-comp - 1);
  }

 public:
  static constexpr unsigned int n_quad_points() { return nq; }

  // ----------------------------------------------------------------- reference element
  static float_t integrate_vol_phiphi(unsigned int i, unsigned int j)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
      s += p.w * phi(a, p) * phi(b, p);
    return (float_t)s;
  }
  static float_t integrate_vol_Dphiphi(unsigned int i, unsigned int j, unsigned int dir)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
      s += p.w * dphi(a, p, dir) * phi(b, p);
    return (float_t)s;
  }
  static float_t integrate_bdr_phiphi(unsigned int i, unsigned int j, unsigned int face)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : bdr_pts(face))
      s += p.w * phi(a, p) * phi(b, p);
    return (float_t)s;
  }
  static float_t integrate_bdr_phipsi(unsigned int i, unsigned int j, unsigned int face)
  {
    const idx_t a = vol_idx(i), b = bdr_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : bdr_pts(face))
      s += p.w * phi(a, p) * psi(b, p, face);
    return (float_t)s;
  }

  // ----------------------------------------------------------------- physical element
  template <typename geom_t>
  static float_t integrate_vol_phiphi(unsigned int i, unsigned int j, geom_t& geom)
  {
    return (float_t)geom.area() * integrate_vol_phiphi(i, j);
  }
  template <typename geom_t>
  static float_t integrate_bdr_phiphi(unsigned int i, unsigned int j, unsigned int face, geom_t& geom)
  {
    return (float_t)geom.face_area(face) * integrate_bdr_phiphi(i, j, face);
  }
  template <typename geom_t>
  static float_t integrate_bdr_phipsi(unsigned int i, unsigned int j, unsigned int face, geom_t& geom)
  {
    return (float_t)geom.face_area(face) * integrate_bdr_phipsi(i, j, face);
  }
  template <typename vec_t, typename geom_t, unsigned int deg_i = deg, unsigned int deg_j = deg>
  static vec_t integrate_vol_nablaphiphi(unsigned int i, unsigned int j, geom_t& geom)
  {
    static_assert(deg_i <= deg && deg_j <= deg, "Degree not tabulated.");
    const idx_t a = vol_idx(i, deg_i), b = vol_idx(j, deg_j);
    std::array<long double, (dim > 0 ? dim : 1)> s{};
    const RMat rm(geom);
    for (const VolPt& p : vol_pts())
    {
      const auto g = grad(a, p, rm);
      const long double f = p.w * phi(b, p);
      for (unsigned int d = 0; d < dim; ++d)
        s[d] += f * g[d];
    }
    vec_t result;
    for (unsigned int d = 0; d < dim; ++d)
      result[d] = (float_t)(s[d] * (long double)geom.area());
    return result;
  }

  // ----------------------------------------------------------------- scalar functions
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_vol_phiphifunc(unsigned int i, unsigned int j, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
      s += p.w * phi(a, p) * phi(b, p) * fun(phys<point_t, vec_t>(p, geom), time);
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_vol_phifunc(unsigned int i, geom_t& geom, const float_t time = 0.)
  {
    return (float_t)geom.area() * integrate_volUni_phifunc<point_t, geom_t, fun, vec_t>(i, geom, time);
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_volUni_phifunc(unsigned int i, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
      s += p.w * phi(a, p) * fun(phys<point_t, vec_t>(p, geom), time);
    return (float_t)s;
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_vol_derphifunc(unsigned int i, unsigned int dir, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i);
    long double s = 0.0L;
    const RMat rm(geom);
    for (const VolPt& p : vol_pts())
      s += p.w * grad(a, p, rm)[dir] * fun(phys<point_t, vec_t>(p, geom), time);
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_vol_nablaphinablaphifunc(unsigned int i, unsigned int j, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    const RMat rm(geom);
    for (const VolPt& p : vol_pts())
    {
      const auto g = grad(a, p, rm), h = grad(b, p, rm);
      long double dot = 0.0L;
      for (unsigned int d = 0; d < dim; ++d)
        dot += g[d] * h[d];
      s += p.w * dot * fun(phys<point_t, vec_t>(p, geom), time);
    }
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_bdrUni_psifunc(unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t b = bdr_idx(j);
    long double s = 0.0L;
    for (const VolPt& p : bdr_pts(face))
      s += p.w * psi(b, p, face) * fun(phys<point_t, vec_t>(p, geom), time);
    return (float_t)s;
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_bdr_phifunc(unsigned int i, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i);
    long double s = 0.0L;
    for (const VolPt& p : bdr_pts(face))
      s += p.w * phi(a, p) * fun(phys<point_t, vec_t>(p, geom), time);
    return (float_t)(s * (long double)geom.face_area(face));
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_bdr_nablaphiphinufunc(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    const auto n = geom.local_normal(face);
    long double s = 0.0L;
    const RMat rm(geom);
    for (const VolPt& p : bdr_pts(face))
    {
      const auto g = grad(a, p, rm);
      long double dot = 0.0L;
      for (unsigned int d = 0; d < dim; ++d)
        dot += g[d] * (long double)n[d];
      s += p.w * dot * phi(b, p) * fun(phys<point_t, vec_t>(p, geom), time);
    }
    return (float_t)(s * (long double)geom.face_area(face));
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_bdr_nablaphipsinufunc(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = bdr_idx(j);
    const auto n = geom.local_normal(face);
    long double s = 0.0L;
    const RMat rm(geom);
    for (const VolPt& p : bdr_pts(face))
    {
      const auto g = grad(a, p, rm);
      long double dot = 0.0L;
      for (unsigned int d = 0; d < dim; ++d)
        dot += g[d] * (long double)n[d];
      s += p.w * dot * psi(b, p, face) * fun(phys<point_t, vec_t>(p, geom), time);
    }
    return (float_t)(s * (long double)geom.face_area(face));
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const float_t), typename vec_t, typename coeff_t>
  static float_t integrate_vol_diffsquare_discana(const coeff_t& coeffs, geom_t& geom, const float_t time = 0.)
  {
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
    {
      long double u = 0.0L;
      for (unsigned int i = 0; i < shape_fun_t::n_fun(); ++i)
        u += (long double)coeffs[i] * phi(vol_idx(i), p);
      u -= (long double)fun(phys<point_t, vec_t>(p, geom), time);
      s += p.w * u * u;
    }
    return (float_t)(s * (long double)geom.area());
  }

  // ----------------------------------------------------------------- functions with a direction
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const point_t&, const float_t), typename vec_t, typename coeff_t>
  static float_t integrate_vol_diffsquare_discanacomp(const coeff_t& coeffs, int comp, geom_t& geom, const float_t time = 0.)
  {
    const point_t n = direction<point_t>(comp, geom);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
    {
      long double u = 0.0L;
      for (unsigned int i = 0; i < shape_fun_t::n_fun(); ++i)
        u += (long double)coeffs[i] * phi(vol_idx(i), p);
      u -= (long double)fun(phys<point_t, vec_t>(p, geom), n, time);
      s += p.w * u * u;
    }
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_vol_phivecfunccomp(unsigned int i, int comp, geom_t& geom, const float_t time = 0.)
  {
    const point_t n = direction<point_t>(comp, geom);
    const idx_t a = vol_idx(i);
    long double s = 0.0L;
    for (const VolPt& p : vol_pts())
      s += p.w * phi(a, p) * fun(phys<point_t, vec_t>(p, geom), n, time);
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, float_t fun(const point_t&, const point_t&, const float_t), typename vec_t = void>
  static float_t integrate_bdr_phivecfunccomp(unsigned int i, unsigned int face, int comp, geom_t& geom, const float_t time = 0.)
  {
    const point_t n = direction<point_t>(comp, geom);
    const idx_t a = vol_idx(i);
    long double s = 0.0L;
    for (const VolPt& p : bdr_pts(face))
      s += p.w * phi(a, p) * fun(phys<point_t, vec_t>(p, geom), n, time);
    return (float_t)(s * (long double)geom.face_area(face));
  }

  // ----------------------------------------------------------------- vector valued functions
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_vol_phiphivecfunc(unsigned int i, unsigned int j, unsigned int dir, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    const QMat<std::remove_cv_t<geom_t>> qm(geom);
    for (const VolPt& p : vol_pts())
      s += p.w * phi(a, p) * phi(b, p) * local_comp(fun(phys<point_t, vec_t>(p, geom), time), dir, qm);
    return (float_t)(s * (long double)geom.area());
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_vol_nablaphiphivecfunc(unsigned int i, unsigned int j, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    long double s = 0.0L;
    const RMat rm(geom);
    const QMat<std::remove_cv_t<geom_t>> qm(geom);
    for (const VolPt& p : vol_pts())
    {
      const auto g = grad(a, p, rm);
      const auto v = fun(phys<point_t, vec_t>(p, geom), time);
      long double dot = 0.0L;
      for (unsigned int d = 0; d < dim; ++d)
        dot += g[d] * local_comp(v, d, qm);
      s += p.w * dot * phi(b, p);
    }
    return (float_t)(s * (long double)geom.area());
  }

 private:
  // side = +1: part of the face where v.n > 0, side = -1: part where v.n <= 0.
  // with_nu: integrand carries the factor v.n.
  template <typename point_t, typename geom_t, auto fun, typename vec_t, typename integrand_t>
  static float_t wind(unsigned int face, geom_t& geom, float_t time, int side, bool with_nu, integrand_t f)
  {
    long double s = 0.0L;
    const QMat<std::remove_cv_t<geom_t>> qm(geom);
    const auto n = geom.local_normal(face);
    for (const VolPt& p : bdr_pts(face))
    {
      const auto v = fun(phys<point_t, vec_t>(p, geom), time);
      long double vn = 0.0L;
      for (unsigned int d = 0; d < dim; ++d)
        vn += (long double)n[d] * local_comp(v, d, qm);
      if ((vn > 0.0L) != (side > 0))
        continue;
      s += p.w * f(p) * (with_nu ? vn : 1.0L);
    }
    return (float_t)(s * (long double)geom.face_area(face));
  }

 public:
  // Functions tested with the local solution see the outflow part, with the skeletal one the inflow.
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_phiphinuvecfunc_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, true, [&](const VolPt& p) { return phi(a, p) * phi(b, p); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_psiphinuvecfunc_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = bdr_idx(i), b = vol_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, true, [&](const VolPt& p) { return psi(a, p, face) * phi(b, p); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_phipsinuvecfunc_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = bdr_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, -1, true, [&](const VolPt& p) { return phi(a, p) * psi(b, p, face); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_psipsinuvecfunc_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = bdr_idx(i), b = bdr_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, -1, true, [&](const VolPt& p) { return psi(a, p, face) * psi(b, p, face); });
  }
  template <typename point_t, typename geom_t, float_t sfun(const point_t&, const float_t), auto fun, typename vec_t = void>
  static float_t integrate_bdr_phifuncnuvecfunc_cutwind(unsigned int i, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, -1, true, [&](const VolPt& p) { return phi(a, p) * (long double)sfun(phys<point_t, vec_t>(p, geom), time); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_phiphi_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = vol_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, false, [&](const VolPt& p) { return phi(a, p) * phi(b, p); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_psiphi_cutwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = bdr_idx(i), b = vol_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, false, [&](const VolPt& p) { return psi(a, p, face) * phi(b, p); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_phipsi_cutdownwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = vol_idx(i), b = bdr_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, false, [&](const VolPt& p) { return phi(a, p) * psi(b, p, face); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = void>
  static float_t integrate_bdr_psipsi_cutdownwind(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, const float_t time = 0.)
  {
    const idx_t a = bdr_idx(i), b = bdr_idx(j);
    return wind<point_t, geom_t, fun, vec_t>(face, geom, time, +1, false, [&](const VolPt& p) { return psi(a, p, face) * psi(b, p, face); });
  }
};
}  // namespace Quadrature
}  // namespace TPP
