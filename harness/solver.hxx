// Equation monitors of local solvers: values reported by the solver are inserted into the weak
// equations it discretises, with own quadrature and own test functions.
#pragma once
#include "grid.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>

namespace eqm
{
using grid::Vec;
// ------------------------------------------------------------------------------ polynomials
// Total degree 2 (or p) polynomial of position and time with random coefficients.
struct Poly
{
  std::vector<std::pair<std::vector<unsigned int>, double>> terms;  // Exponents of x and coefficient.
  double rate = 0.;  // Factor (1 + rate * time).
  template <typename P>
  double operator()(const P& x, double t) const
  {
    double s = 0;
    for (auto& m : terms)
    {
      double v = m.second;
      for (size_t k = 0; k < m.first.size(); ++k)
        for (unsigned int e = 0; e < m.first[k]; ++e)
          v *= (double)x[k];
      s += v;
    }
    return s * (1. + rate * t);
  }
  Poly der(unsigned int k) const
  {
    Poly d;
    d.rate = rate;
    for (auto m : terms)
      if (k < m.first.size() && m.first[k] > 0)
      {
        m.second *= m.first[k]--;
        d.terms.push_back(m);
      }
    return d;
  }
};
// All monomials with total degree (or degree per variable) at most p.
inline Poly random_poly(vh::Rng& rng, unsigned int s, unsigned int p, bool tensor, double size = 1., double rate = 0.)
{
  Poly q;
  q.rate = rate;
  std::vector<unsigned int> e(s, 0);
  for (;;)
  {
    unsigned int tot = 0;
    for (auto x : e)
      tot += x;
    if (tensor || tot <= p)
      q.terms.emplace_back(e, rng.coin(5) ? 0. : size * rng.i(-8, 8) / 8.);
    unsigned int k = 0;
    while (k < s && ++e[k] > p)
      e[k++] = 0;
    if (k == s)
      break;
  }
  return q;
}
inline uint64_t hash(const Poly& p, uint64_t h = 11)
{
  for (auto& t : p.terms)
    h = vh::mix(h, t.second);
  return vh::mix(h, p.rate);
}
// ------------------------------------------------------------------------------ quadrature, basis
struct Rule
{
  std::vector<double> x, w;  // On [0,1].
};
inline const Rule& gauss(unsigned int n)
{
  static std::map<unsigned int, Rule> all;
  Rule& r = all[n];
  if (r.x.empty())
    for (unsigned int i = 0; i < n; ++i)
    {
      long double t = std::cos(3.14159265358979323846L * (i + 0.75L) / (n + 0.5L)), d = 1;
      for (int it = 0; it < 60; ++it)
      {
        long double a = 1, b = t;
        for (unsigned int k = 1; k < n; ++k)
        {
          const long double c = ((2 * k + 1) * t * b - k * a) / (k + 1);
          a = b;
          b = c;
        }
        d = n * (t * b - a) / (t * t - 1);
        t -= b / d;
      }
      r.x.push_back((double)((1 - t) / 2));
      r.w.push_back((double)(1 / ((1 - t * t) * d * d)));
    }
  return r;
}
// Orthonormal Legendre polynomials on [0,1] and derivative.
inline double leg(unsigned int k, double x)
{
  const double t = 2 * x - 1;
  double a = 1, b = t;
  if (k == 0)
    return 1;
  for (unsigned int n = 1; n < k; ++n)
  {
    const double c = ((2 * n + 1) * t * b - n * a) / (n + 1);
    a = b;
    b = c;
  }
  return b * std::sqrt(2. * k + 1);
}
inline double dleg(unsigned int k, double x)
{
  // Derivative by the expansion P'_k = sum (2j+1) P_j over j = k-1, k-3, ...
  double s = 0;
  for (int j = (int)k - 1; j >= 0; j -= 2)
    s += (2 * j + 1) * leg(j, x) / std::sqrt(2. * j + 1);
  return 2 * s * std::sqrt(2. * k + 1);
}
// Sum together with the sum of moduli, so that a vanishing sum can be judged.
struct Acc
{
  double s = 0, m = 0;
  void add(double v) { add(v, v); }
  // mag: size of what v was computed from.
  void add(double v, double mag)
  {
    s += v;
    m += std::max(std::abs(v), std::abs(mag));
  }
};
// ------------------------------------------------------------------------------ a cell
// Coordinates y = R xi in the tangential frame given by the first d columns of Q.
template <unsigned int d>
struct Cell
{
  unsigned int s;
  Vec origin;
  grid::Mat span, q;
  double R[d][d], Ri[d][d];  // R and its inverse.
  double vol;
  std::array<double, 2 * d> area;
  std::array<std::array<double, d>, 2 * d> n;
  template <typename G>
  explicit Cell(G& g)
  {
    s = G::space_dim();
    typedef std::remove_cv_t<std::remove_reference_t<decltype(g.span_vec(0)[0])>> T;
    typedef SmallVec<d, T> P;
    origin = grid::vec(g.map_ref_to_phys((const P&)P((T)0.)));
    for (unsigned int k = 0; k < d; ++k)
    {
      P x((T)0.);
      x[k] = 1.;
      span.push_back(grid::sub(grid::vec(g.map_ref_to_phys((const P&)x)), origin));
    }
    q = grid::mat(g.mat_q());
    double A[d][2 * d];
    for (unsigned int i = 0; i < d; ++i)
      for (unsigned int j = 0; j < d; ++j)
      {
        R[i][j] = grid::dot(q[i], span[j]);
        A[i][j] = R[i][j];
        A[i][d + j] = i == j;
      }
    for (unsigned int k = 0; k < d; ++k)
    {
      unsigned int p = k;
      for (unsigned int i = k; i < d; ++i)
        if (std::abs(A[i][k]) > std::abs(A[p][k]))
          p = i;
      for (unsigned int j = 0; j < 2 * d; ++j)
        std::swap(A[k][j], A[p][j]);
      const double f = A[k][k];
      for (unsigned int j = 0; j < 2 * d; ++j)
        A[k][j] /= f;
      for (unsigned int i = 0; i < d; ++i)
        if (i != k)
        {
          const double h = A[i][k];
          for (unsigned int j = 0; j < 2 * d; ++j)
            A[i][j] -= h * A[k][j];
        }
    }
    for (unsigned int i = 0; i < d; ++i)
      for (unsigned int j = 0; j < d; ++j)
        Ri[i][j] = A[i][d + j];
    vol = grid::volume(span);
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      auto rest = span;
      rest.erase(rest.begin() + f / 2);
      area[f] = grid::volume(rest);
      double l = 0;
      for (unsigned int k = 0; k < d; ++k)
      {
        n[f][k] = (f % 2 ? 1. : -1.) * Ri[f / 2][k];
        l += n[f][k] * n[f][k];
      }
      for (auto& x : n[f])
        x /= std::sqrt(l);
    }
  }
  Vec phys(const std::array<double, d>& xi) const
  {
    Vec p = origin;
    for (unsigned int k = 0; k < d; ++k)
      p = grid::axpy(xi[k], span[k], p);
    return p;
  }
  // Component of a vector in space along the tangential frame.
  double along(const Vec& v, unsigned int k) const { return grid::dot(v, q[k]); }
};
// A unit cell without geometry.
template <unsigned int d>
struct UnitGeo
{
  static constexpr unsigned int space_dim() { return d; }
  SmallVec<d, double> span_vec(unsigned int k) const
  {
    SmallVec<d, double> v;
    v[k] = 1;
    return v;
  }
  SmallVec<d, double> map_ref_to_phys(const SmallVec<d, double>& x) const { return x; }
  SmallMat<d, d, double> mat_q() const { return diagonal<d, d, double>(1.); }
};
// Quadrature points with everything needed there.
template <unsigned int d, unsigned int N>
struct Quad
{
  struct Pt
  {
    std::array<double, d> xi;
    Vec x;
    double w;            // Weight including volume or area.
    unsigned int index;  // Into the values of the local solver.
  };
  const Cell<d>& c;
  std::vector<Pt> vol;
  std::array<std::vector<Pt>, 2 * d> face;
  static constexpr unsigned int M = N + 2;
  static std::array<double, M> abscissas()
  {
    std::array<double, M> a;
    a[0] = 0;
    a[M - 1] = 1;
    for (unsigned int k = 0; k < N; ++k)
      a[k + 1] = gauss(N).x[k];
    return a;
  }
  explicit Quad(const Cell<d>& cell) : c(cell)
  {
    const auto a = abscissas();
    unsigned int tot = 1;
    for (unsigned int k = 0; k < d; ++k)
      tot *= M;
    for (unsigned int i = 0; i < tot; ++i)
    {
      std::array<unsigned int, d> dg;
      unsigned int r = i, ends = 0, f = 0;
      double w = 1;
      Pt p;
      for (unsigned int k = 0; k < d; ++k, r /= M)
      {
        dg[k] = r % M;
        p.xi[k] = a[dg[k]];
        if (dg[k] == 0 || dg[k] == M - 1)
        {
          ++ends;
          f = 2 * k + (dg[k] != 0);
        }
        else
          w *= gauss(N).w[dg[k] - 1];
      }
      if (ends > 1)
        continue;
      p.x = c.phys(p.xi);
      p.index = i;
      p.w = w * (ends ? c.area[f] : c.vol);
      (ends ? face[f] : vol).push_back(p);
    }
  }
};
// Basis (test) functions: tensor products, first direction fastest.
template <unsigned int d>
struct Basis
{
  unsigned int deg;
  unsigned int n() const
  {
    unsigned int r = 1;
    for (unsigned int k = 0; k < d; ++k)
      r *= deg + 1;
    return r;
  }
  std::array<unsigned int, d> split(unsigned int i) const
  {
    std::array<unsigned int, d> e;
    for (unsigned int k = 0; k < d; ++k, i /= deg + 1)
      e[k] = i % (deg + 1);
    return e;
  }
  double val(unsigned int i, const std::array<double, d>& xi) const
  {
    const auto e = split(i);
    double v = 1;
    for (unsigned int k = 0; k < d; ++k)
      v *= leg(e[k], xi[k]);
    return v;
  }
  // Gradient in the tangential frame.
  std::array<double, d> grad(unsigned int i, const std::array<double, d>& xi, const Cell<d>& c) const
  {
    const auto e = split(i);
    std::array<double, d> g, r;
    for (unsigned int k = 0; k < d; ++k)
    {
      g[k] = 1;
      for (unsigned int l = 0; l < d; ++l)
        g[k] *= l == k ? dleg(e[l], xi[l]) : leg(e[l], xi[l]);
    }
    for (unsigned int k = 0; k < d; ++k)
    {
      r[k] = 0;
      for (unsigned int l = 0; l < d; ++l)
        r[k] += c.Ri[l][k] * g[l];
    }
    return r;
  }
  unsigned int n_face() const { return n() / (deg + 1); }
  double face_val(unsigned int j, unsigned int f, const std::array<double, d>& xi) const
  {
    double v = 1;
    for (unsigned int k = 0; k < d; ++k)
      if (k != f / 2)
      {
        v *= leg(j % (deg + 1), xi[k]);
        j /= deg + 1;
      }
    return v;
  }
};
// Polynomial on a cell given by its values at the volume points of a quadrature.
template <unsigned int d>
struct LocalPoly
{
  const Cell<d>& c;
  Basis<d> b;
  std::vector<double> coef;
  template <typename Q, typename Vals>
  LocalPoly(const Cell<d>& cell, const Q& quad, unsigned int deg, const Vals& v) : c(cell), b{deg}, coef(b.n(), 0.)
  {
    for (unsigned int i = 0; i < b.n(); ++i)
      for (auto& pt : quad.vol)
        coef[i] += pt.w / c.vol * v[pt.index] * b.val(i, pt.xi);
  }
  double at(const std::array<double, d>& xi) const
  {
    double s = 0;
    for (unsigned int i = 0; i < b.n(); ++i)
      s += coef[i] * b.val(i, xi);
    return s;
  }
  double operator()(const Vec& x) const
  {
    const Vec r = grid::sub(x, c.origin);
    std::array<double, d> xi;
    for (unsigned int k = 0; k < d; ++k)
    {
      xi[k] = 0;
      for (unsigned int l = 0; l < d; ++l)
        xi[k] += c.Ri[k][l] * grid::dot(c.q[l], r);
    }
    return at(xi);
  }
};
template <typename A, unsigned int d>
double trace(const A& lambda, const Basis<d>& b, unsigned int f, const std::type_identity_t<std::array<double, d>>& xi, unsigned int offset = 0)
{
  double v = 0;
  for (unsigned int j = 0; j < b.n_face(); ++j)
    v += lambda[f][offset + j] * b.face_val(j, f, xi);
  return v;
}
// ------------------------------------------------------------------------------ skeletal arrays
inline double draw_tau(vh::Rng& rng)
{
  return rng.coin(3) ? rng.d(0.05, 12.) : rng.pick<double>({1., 0.5, 2., 7., 0.1});
}
inline double draw_time(vh::Rng& rng)
{
  return rng.coin(3) ? 0. : rng.i(-12, 12) / 8.;
}
// Later and earlier, and no dyadic numbers.
inline double draw_any_time(vh::Rng& rng)
{
  return rng.coin(4) ? rng.d(-4., 4.) : draw_time(rng);
}
template <typename A>
std::string at(size_t e, A a)
{
  return "hyperedge " + std::to_string(e) + " number " + std::to_string(a);
}
template <typename A>
void fill_lambda(vh::Rng& rng, A& l, double size)
{
  for (auto& x : l)
    for (auto& y : x)
      y = rng.coin(6) ? 0. : size * rng.i(-16, 16) / 16.;
  const int mode = rng.i(0, 19);
  const size_t row = rng.u(0, l.size() - 1), col = rng.u(0, l[0].size() - 1);
  const double scale = mode == 4 ? 1e-13 : mode == 5 ? 1e-6 : mode == 6 ? 1e5 : 1.;
  for (size_t i = 0; i < l.size(); ++i)
    for (size_t j = 0; j < l[i].size(); ++j)
      if (mode == 0)  // The same values on all faces.
        l[i][j] = l[0][j];
      else if (mode == 1 && i != row)  // Only one face.
        l[i][j] = 0.;
      else if (mode == 2 && (i != row || j != col))  // Only one unknown.
        l[i][j] = 0.;
      else if (mode == 3)
        l[i][j] = 0.;
      else
        l[i][j] *= scale;
}
template <typename A>
A combine(double a, const A& x, double b, const A& y)
{
  A r = x;
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t j = 0; j < r[i].size(); ++j)
      r[i][j] = a * x[i][j] + b * y[i][j];
  return r;
}
template <typename A>
double dotp(const A& x, const A& y)
{
  double s = 0;
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t j = 0; j < x[i].size(); ++j)
      s += x[i][j] * y[i][j];
  return s;
}
template <typename A>
double norm(const A& x)
{
  return std::sqrt(dotp(x, x));
}
inline void balance(const Acc& a, const std::string& key, const std::string& what, double tol = 1e-6)
{
  vh::check_lazy(std::abs(a.s) <= tol * a.m + 1e-10, key, [&] { return what + " residual " + vh::num(a.s) + " of terms of size " + vh::num(a.m); });
  vh::event("equations");
}
// ------------------------------------------------------------------------------ hypergraphs
template <typename LS, typename Topo, typename Geom, typename Node>
using Graph = HDGHyperGraph<LS::n_glob_dofs_per_node(), Topo, Geom, Node, typename LS::data_type>;

template <typename LS>
using Lambda = std::array<std::array<double, LS::n_glob_dofs_per_node()>, 2 * LS::hyEdge_dim()>;

// Calls f(hypergraph, hash) for a random cubic or file grid.
template <unsigned int d, unsigned int s, typename LS, typename F>
void on_cubic(vh::Rng& rng, unsigned int maxn, unsigned int maxr, F&& f)
{
  std::vector<unsigned int> n(s);
  uint64_t h = 10 * d + s;
  for (auto& x : n)
    h = vh::mix(h, x = rng.u(1, maxn));
  Graph<LS, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>> g(n);
  const unsigned int r = rng.u(1, maxr);
  if (r > 1)
    g.set_refinement(r);
  f(g, vh::mix(h, r));
}
template <unsigned int d, unsigned int s, typename LS, typename F>
void on_file(vh::Rng& rng, unsigned int maxe, unsigned int maxr, F&& f)
{
  auto dom = grid::make_domain(rng, d, s, maxe, false);
  if (rng.coin(4))  // Small and large cells.
  {
    const double scale = std::pow(10., rng.d(-1.3, 1.3));
    for (auto& p : dom.points)
      for (auto& x : p)
        x *= scale;
    vh::event("scaled-domains");
  }
  const std::string name = grid::write_domain(dom, vh::scratch() + "/solver.geo");
  Graph<LS, Topology::File<d, s>, Geometry::File<d, s>, NodeDescriptor::File<d, s>> g(name);
  const unsigned int r = rng.u(1, maxr);
  if (r > 1)
    g.set_refinement(r);
  f(g, vh::mix(dom.hash, r));
}
// ------------------------------------------------------------------------------ global systems
typedef std::vector<double> V;
// Solves A x = b; zero rows (Dirichlet) get x_i = b_i.
inline bool dense_solve(std::vector<V> A, V b, V& x)
{
  const size_t n = b.size();
  for (size_t i = 0; i < n; ++i)
  {
    double m = 0;
    for (auto v : A[i])
      m = std::max(m, std::abs(v));
    if (m == 0)
      A[i][i] = 1;
  }
  std::vector<std::vector<long double>> L(n, std::vector<long double>(n + 1));
  for (size_t i = 0; i < n; ++i)
  {
    for (size_t j = 0; j < n; ++j)
      L[i][j] = A[i][j];
    L[i][n] = b[i];
  }
  for (size_t k = 0; k < n; ++k)
  {
    size_t p = k;
    for (size_t i = k; i < n; ++i)
      if (std::abs(L[i][k]) > std::abs(L[p][k]))
        p = i;
    std::swap(L[k], L[p]);
    if (std::abs(L[k][k]) < 1e-13)
      return false;
    for (size_t i = k + 1; i < n; ++i)
      if (L[i][k] != 0)
      {
        const long double f = L[i][k] / L[k][k];
        for (size_t j = k; j <= n; ++j)
          L[i][j] -= f * L[k][j];
      }
  }
  x.assign(n, 0.);
  for (size_t k = n; k-- > 0;)
  {
    long double s = L[k][n];
    for (size_t j = k + 1; j < n; ++j)
      s -= L[k][j] * x[j];
    x[k] = (double)(s / L[k][k]);
  }
  return true;
}
template <typename F>
std::vector<V> dense_matrix(F&& product, size_t n)
{
  std::vector<V> A(n, V(n));
  for (size_t j = 0; j < n; ++j)
  {
    V e(n, 0.);
    e[j] = 1;
    const V c = product(e);
    for (size_t i = 0; i < n; ++i)
      A[i][j] = c[i];
  }
  return A;
}
inline double max_abs(const std::vector<V>& A)
{
  double m = 0;
  for (auto& r : A)
    for (auto v : r)
      m = std::max(m, std::abs(v));
  return m;
}
// The error of a solved problem is the L2 norm of the difference on the whole hypergraph: analytic
// results that are off by a constant show its measure.
inline double shift_ = 0.;
template <unsigned int d, unsigned int s, typename F>
void error_norm(vh::Rng& rng, const std::vector<unsigned int>& n, double tol, F&& error)
{
  double measure = 0;
  for (unsigned int set = 0; set < (1u << s); ++set)
  {
    double m = 1;
    for (unsigned int i = 0; i < s; ++i)
      m *= set >> i & 1 ? 1. : n[i] + 1.;
    if ((unsigned int)__builtin_popcount(set) == d)
      measure += m;
  }
  shift_ = rng.pick<double>({0.5, -2., 3.});
  const double want = std::abs(shift_) * std::sqrt(measure), got = error();
  shift_ = 0.;
  vh::check_lazy(std::abs(got - want) <= tol * (1. + want), "error-norm", [&] { return vh::num(got) + " instead of " + vh::num(want) + " of hyperedges of measure " + vh::num(measure); });
  vh::event("error-norms");
}
// Solves residual(lambda) = 0 with lambda = 0 in the Dirichlet unknowns.
template <typename P>
bool solve_problem(P& p, double time, V& lambda)
{
  const size_t n = p.size_of_system();
  V zero(n, 0.);
  V b = p.residual_flux(zero, time);
  for (auto& x : b)
    x = -x;
  return dense_solve(dense_matrix([&](const V& e) { return p.trace_to_flux(e, time); }, n), b, lambda);
}
}  // namespace eqm
