// Monitors of the local solvers of the biharmonic equation: Bilaplacian, BilaplacianUniform.
#ifndef SUB  // 1 cubic and uniform, 2 file, 3 exactness; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
using namespace eqm;

static Poly k_, f_, g_, gl_, u_;
static double a_ = 1.;       // Coefficient in exact mode.
static bool exact_ = false;  // Data follow from u_.
static unsigned int dim_ = 1;
static std::function<double(const Vec&)> source_;  // Right-hand side of a problem without Dirichlet values.
template <typename P>
static double inv_coef(const P& x, double t)
{
  return exact_ ? 1. / a_ : 1. + 0.5 * k_(x, t) * k_(x, t);
}
template <typename P>
static double lap(const Poly& u, const P& x, double t)
{
  double s = 0;
  for (unsigned int k = 0; k < dim_; ++k)
    s += u.der(k).der(k)(x, t);
  return s;
}
template <typename P>
static double bilap(const Poly& u, const P& x, double t)
{
  double s = 0;
  for (unsigned int k = 0; k < dim_; ++k)
    for (unsigned int l = 0; l < dim_; ++l)
      s += u.der(k).der(k).der(l).der(l)(x, t);
  return s;
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> dirichlet_nodes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 26> dirichlet_laplacian_nodes = dirichlet_nodes;
  static constexpr std::array<unsigned int, 0> neumann_nodes{};
  static constexpr std::array<unsigned int, 0> neumann_laplacian_nodes{};
  static T inverse_bilaplacian_coefficient(const P& x, const T t = 0.) { return inv_coef(x, t); }
  static T right_hand_side(const P& x, const T t = 0.) { return source_ ? source_(grid::vec(x)) : exact_ ? a_ * bilap(u_, x, t) : f_(x, t); }
  static T dirichlet_value(const P& x, const T t = 0.) { return source_ ? 0. : exact_ ? u_(x, t) : g_(x, t); }
  static T dirichlet_laplace_value(const P& x, const T t = 0.) { return source_ ? 0. : exact_ ? -a_ * lap(u_, x, t) : gl_(x, t); }
  static T neumann_value(const P&, const T = 0.) { return 0.; }
  static T neumann_laplace_value(const P&, const T = 0.) { return 0.; }
  static T analytic_result(const P& x, const T t = 0.) { return u_(x, t) + eqm::shift_; }
};
// Different boundaries for the solution and its Laplacian.
template <unsigned int s, typename T>
struct ParMixed : Par<s, T>
{
  static constexpr std::array<unsigned int, 4> dirichlet_nodes{1, 3, 6, 13};
  static constexpr std::array<unsigned int, 3> dirichlet_laplacian_nodes{1, 2, 4};
};
static void draw_data(vh::Rng& rng, unsigned int s)
{
  const double rate = rng.coin() ? 0. : rng.i(-4, 4) / 8.;
  exact_ = false;
  k_ = random_poly(rng, s, 1, false, 0.7, rate);
  f_ = random_poly(rng, s, 2, false, 2., rate);
  g_ = random_poly(rng, s, 2, false, 1., -rate);
  gl_ = random_poly(rng, s, 2, false, 1., 0.5 * rate);
  u_ = random_poly(rng, s, 2, false, 1., rate);
}
// ------------------------------------------------------------------------------ local equations
// The solver reports p = -grad u and u. The equation of u determines w, the flux equation of w its
// flux q; what remains are the flux equation of u, the conservation equation of w and the fluxes.
template <unsigned int d, unsigned int p, unsigned int N, typename Vals, typename Arr>
static void local_equations(const Cell<d>& c, const Vals& v, const Arr& lambda, const Arr& flux, const std::array<bool, 2 * d>& dir, const std::array<bool, 2 * d>& dirl, double tau, double time, bool uniform, size_t e)
{
  const Quad<d, N> Q(c);
  const Basis<d> B{p};
  const unsigned int nb = B.n_face(), n = B.n();
  std::array<double, d + 1> big;
  big.fill(0.);
  for (unsigned int k = 0; k <= d; ++k)
    for (double x : v[k])
      big[k] = std::max(big[k], std::abs(x));
  auto coef = [&](const Vec& x) { return uniform ? 1. : inv_coef(x, time); };
  auto hat = [&](unsigned int f, const auto& pt) { return trace(lambda, B, f, pt.xi) + (dir[f] ? g_(pt.x, time) : 0.); };
  auto hatl = [&](unsigned int f, const auto& pt) { return trace(lambda, B, f, pt.xi, nb) + (dirl[f] ? gl_(pt.x, time) : 0.); };
  // Laplacian w.
  std::vector<V> M(n, V(n, 0.));
  V b(n), wc;
  double wbig = 0;
  for (unsigned int i = 0; i < n; ++i)
  {
    Acc a;
    for (auto& pt : Q.vol)
    {
      for (unsigned int k = 0; k < d; ++k)
        a.add(-pt.w * v[k][pt.index] * B.grad(i, pt.xi, c)[k], pt.w * big[k] * B.grad(i, pt.xi, c)[k]);
      for (unsigned int j = 0; j < n; ++j)
        M[i][j] += pt.w * coef(pt.x) * B.val(i, pt.xi) * B.val(j, pt.xi);
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (auto& pt : Q.face[f])
      {
        const double test = pt.w * B.val(i, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          a.add(test * v[k][pt.index] * c.n[f][k], test * big[k]);
        a.add(test * tau * v[d][pt.index], test * tau * big[d]);
        a.add(-test * tau * hat(f, pt));
      }
    b[i] = a.s;
    wbig += a.m / c.vol;
  }
  if (!dense_solve(M, b, wc))
    return;
  auto w_at = [&](const std::array<double, d>& xi) {
    double s = 0;
    for (unsigned int i = 0; i < n; ++i)
      s += wc[i] * B.val(i, xi);
    return s;
  };
  // Its flux q.
  std::array<V, d> qc;
  double qbig = 0;
  for (unsigned int k = 0; k < d; ++k)
    for (unsigned int i = 0; i < n; ++i)
    {
      Acc a;
      for (auto& pt : Q.vol)
        a.add(pt.w * w_at(pt.xi) * B.grad(i, pt.xi, c)[k], pt.w * wbig * B.grad(i, pt.xi, c)[k]);
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          a.add(-pt.w * hatl(f, pt) * c.n[f][k] * B.val(i, pt.xi));
      qc[k].push_back(a.s / c.vol);
      qbig += a.m / c.vol;
    }
  auto q_at = [&](unsigned int k, const std::array<double, d>& xi) {
    double s = 0;
    for (unsigned int i = 0; i < n; ++i)
      s += qc[k][i] * B.val(i, xi);
    return s;
  };
  for (unsigned int i = 0; i < n; ++i)
  {
    for (unsigned int k = 0; k < d; ++k)
    {
      Acc a;
      for (auto& pt : Q.vol)
      {
        a.add(pt.w * v[k][pt.index] * B.val(i, pt.xi), pt.w * big[k] * B.val(i, pt.xi));
        a.add(-pt.w * v[d][pt.index] * B.grad(i, pt.xi, c)[k], pt.w * big[d] * B.grad(i, pt.xi, c)[k]);
      }
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          a.add(pt.w * hat(f, pt) * c.n[f][k] * B.val(i, pt.xi));
      balance(a, "flux-equation", at(e, i));
    }
    Acc a;
    for (auto& pt : Q.vol)
    {
      for (unsigned int k = 0; k < d; ++k)
        a.add(-pt.w * q_at(k, pt.xi) * B.grad(i, pt.xi, c)[k], pt.w * qbig * B.grad(i, pt.xi, c)[k]);
      if (!uniform)
        a.add(-pt.w * f_(pt.x, time) * B.val(i, pt.xi));
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (auto& pt : Q.face[f])
      {
        const double test = pt.w * B.val(i, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          a.add(test * q_at(k, pt.xi) * c.n[f][k], test * qbig);
        a.add(test * tau * w_at(pt.xi), test * tau * wbig);
        a.add(-test * tau * hatl(f, pt));
      }
    balance(a, "laplacian-conservation-equation", at(e, i), 1e-6);
  }
  // First half of the flux: flux of the Laplacian; the uniform solver has the flux of u there.
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int j = 0; j < nb; ++j)
    {
      Acc a, l;
      for (auto& pt : Q.face[f])
      {
        const double test = pt.w * B.face_val(j, f, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
        {
          a.add(test * v[k][pt.index] * c.n[f][k], test * big[k]);
          l.add(test * q_at(k, pt.xi) * c.n[f][k], test * qbig);
        }
        a.add(test * tau * v[d][pt.index], test * tau * big[d]);
        a.add(-test * tau * trace(lambda, B, f, pt.xi));
        l.add(test * tau * w_at(pt.xi), test * tau * wbig);
        l.add(-test * tau * trace(lambda, B, f, pt.xi, nb));
      }
      const double first = flux[f][uniform ? nb + j : j], second = flux[f][uniform ? j : nb + j];
      if (dir[f])
        vh::check_eq(first, 0., "flux-at-dirichlet-face", at(e, f));
      else
      {
        l.add(-first);
        balance(l, "numerical-flux-of-laplacian", at(e, f), 1e-6);
      }
      if (dirl[f])
        vh::check_eq(second, 0., "flux-at-laplacian-dirichlet-face", at(e, f));
      else
      {
        a.add(-second);
        balance(a, "numerical-flux", at(e, f));
      }
      vh::event("fluxes");
    }
}
template <bool cubic, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename P>
static void monitored(vh::Rng& rng, unsigned int maxn)
{
  constexpr unsigned int N = p + 3;
  typedef LocalSolver::Bilaplacian<d, p, 2 * p + 4, P, double> LS;
  const double tau = draw_tau(rng), time = draw_any_time(rng);
  const LS ls(tau);
  draw_data(rng, s);
  auto body = [&](auto& hg, uint64_t h) {
    typedef Lambda<LS> L;
    const auto all = P<s, double>::dirichlet_nodes;
    const auto alll = P<s, double>::dirichlet_laplacian_nodes;
    const size_t ne = hg.n_hyEdges(), step = ne > 5 ? ne / 5 : 1;
    for (size_t e = rng.u(0, step - 1); e < ne; e += step)
    {
      auto edge = hg[e];
      std::array<bool, 2 * d> dir, dirl;
      const auto types = ls.node_types(edge);
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        dir[f] = std::find(all.begin(), all.end(), edge.node_descriptor[f]) != all.end();
        dirl[f] = std::find(alll.begin(), alll.end(), edge.node_descriptor[f]) != alll.end();
        vh::check_eq(types[f] != 0, dir[f], "node-types", at(e, f));
        vh::event(dir[f] ? "dirichlet-faces" : "free-faces");
      }
      L lambda, mu;
      fill_lambda(rng, lambda, 2.);
      fill_lambda(rng, mu, 2.);
      const size_t nb = lambda[0].size() / 2;
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (size_t j = 0; j < nb; ++j)
        {
          if (dir[f])
            lambda[f][j] = mu[f][j] = 0.;
          if (dirl[f])
            lambda[f][nb + j] = mu[f][nb + j] = 0.;
        }
      const L keep = lambda;
      L res, flux, other, zero, res0, comb;
      for (auto* x : {&res, &flux, &other, &zero, &res0, &comb})
        for (auto& y : *x)
          y.fill(0.);
      auto& back = ls.residual_flux(lambda, res, edge, time);
      vh::check(&back == &res, "returns-output");
      const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, time);
      const Cell<d> cell(edge.geometry);
      local_equations<d, p, N>(cell, vals, lambda, res, dir, dirl, tau, time, false, e);
      ls.trace_to_flux(lambda, flux, edge, time);
      ls.trace_to_flux(mu, other, edge, time);
      ls.residual_flux(zero, res0, edge, time);
      const double size = 1e-9 * (norm(flux) + norm(other) + norm(res0) + 1.);
      vh::check_lazy(norm(combine(1., res, -1., combine(1., flux, 1., res0))) <= size, "residual-affine", [&] { return at(e, 0); });
      ls.trace_to_flux(combine(2., lambda, -3., mu), comb, edge, time);
      vh::check_lazy(norm(combine(1., comb, -1., combine(2., flux, -3., other))) <= 10 * size, "flux-linear", [&] { return at(e, 0); });
      vh::check_lazy(std::abs(dotp(flux, mu) - dotp(lambda, other)) <= 1e-8 * (norm(flux) * norm(mu) + norm(lambda) * norm(other) + norm(lambda) * norm(mu)), "flux-symmetric", [&] { return at(e, 0); });
      const Quad<d, N> Q(cell);
      for (bool data : {false, true})
      {
        L mass, want;
        for (auto* x : {&mass, &want})
          for (auto& y : *x)
            y.fill(0.);
        auto sol = vals;
        if (!data)
        {
          source_ = [](const Vec&) { return 0.; };
          sol = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, time);
        }
        const LocalPoly<d> u(cell, Q, p, sol[d]);
        double size_u = 0;
        for (auto x : u.coef)
          size_u += std::abs(x);
        source_ = [&](const Vec& x) { return u(x); };
        ls.residual_flux(zero, want, edge, time);
        source_ = nullptr;
        if (data)
          ls.total_numerical_flux_mass(lambda, mass, edge, time);
        else
          ls.trace_to_mass_flux(lambda, mass, edge, time);
        vh::check_lazy(norm(combine(1., mass, -1., want)) <= 1e-5 * (norm(want) + norm(mass) + size_u * cell.vol) + 1e-9, data ? "mass-residual" : "mass-flux", [&] { return at(e, 0) + " " + vh::num(norm(mass)) + " instead of " + vh::num(norm(want)); });
        vh::event("mass-fluxes");
      }
      vh::check(keep == lambda, "input-modified");
      const auto err = ls.errors(lambda, edge, time);
      double want = 0, mag = 0;
      for (auto& pt : Q.vol)
      {
        const double uh = vals[d][pt.index], u = u_(pt.x, time);
        want += pt.w * (uh - u) * (uh - u);
        mag += pt.w * (uh * uh + u * u);
      }
      vh::check_lazy(std::abs(err[0] - want) <= 1e-5 * mag + 1e-12, "error-value", [&] { return at(e, 0) + " " + vh::num(err[0]) + " instead of " + vh::num(want); });
      vh::event("errors");
      vh::event("hyperedges");
    }
    vh::state(hash(f_, hash(k_, vh::mix(vh::mix(h, tau), time))));
  };
  if constexpr (cubic)
    on_cubic<d, s, LS>(rng, maxn, 2, body);
  else
    on_file<d, s, LS>(rng, 4, 2, body);
}
// ------------------------------------------------------------------------------ exactness
template <unsigned int d, unsigned int s, unsigned int p>
static void exactness(vh::Rng& rng, unsigned int maxn)
{
  typedef LocalSolver::Bilaplacian<d, p, 2 * p + 2, Par, double> LS;
  const double time = draw_time(rng), rate = rng.i(-2, 2) / 8.;
  const double tau = draw_tau(rng);
  dim_ = d;
  a_ = rng.pick<double>({1., 2., 0.5});
  if (d == s)
    u_ = random_poly(rng, s, p, rng.coin(), 1., rate);
  else
  {
    // The same differential equation on all hyperedges: alpha |x|^2 + b x + c.
    u_ = random_poly(rng, s, 1, false, 1., rate);
    const double alpha = rng.i(-4, 4) / 4.;
    for (unsigned int k = 0; k < s; ++k)
    {
      std::vector<unsigned int> ex(s, 0);
      ex[k] = 2;
      u_.terms.emplace_back(ex, alpha);
    }
  }
  exact_ = true;
  std::vector<unsigned int> n(s);
  for (auto& x : n)
    x = rng.u(1, maxn);
  GlobalLoop::Elliptic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS> problem(n, tau);
  if (rng.coin())
    problem.set_refinement(2);
  V lambda;
  if (problem.size_of_system() > 120)
    return;
  if (!vh::check(solve_problem(problem, time, lambda), "system-singular", "tau " + vh::num(tau)))
    return;
  const V r = problem.residual_flux(lambda, time);
  double rm = 0;
  for (auto x : r)
    rm = std::max(rm, std::abs(x));
  vh::check_lazy(rm <= 1e-7, "solved-residual", [&] { return vh::num(rm); });
  const auto err = problem.errors(lambda, time);
  vh::check_lazy(err[0] <= 5e-6, "exact-solution-not-reproduced", [&] { return "error " + vh::num(err[0]) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " tau " + vh::num(tau) + " time " + vh::num(time); });
  error_norm<d, s>(rng, n, 1e-5, [&] { return problem.errors(lambda, time)[0]; });
  exact_ = false;
  vh::event("exact-problems");
  vh::state(hash(u_, vh::mix(n[0], tau)));
}
template <unsigned int d, unsigned int p>
static void uniform(vh::Rng& rng)
{
  constexpr unsigned int N = p + 2;
  typedef LocalSolver::BilaplacianUniform<d, p, 2 * p> LS;
  const double tau = draw_tau(rng);
  const LS ls(tau);
  draw_data(rng, d);
  typedef Lambda<LS> L;
  L lambda, flux, res;
  fill_lambda(rng, lambda, 2.);
  for (auto* x : {&flux, &res})
    for (auto& y : *x)
      y.fill(0.);
  ls.trace_to_flux(lambda, flux);
  ls.residual_flux(lambda, res);
  vh::check(res == flux, "uniform-residual");
  const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda);
  UnitGeo<d> geo;
  const Cell<d> cell(geo);
  std::array<bool, 2 * d> dir;
  dir.fill(false);
  local_equations<d, p, N>(cell, vals, lambda, flux, dir, dir, tau, 0., true, 0);
  vh::event("uniform");
  vh::state(vh::mix(vh::mix(vh::mix(d, p), tau), lambda[0][0]));
}
#if SUB == 0 || SUB == 1
VH_SCENARIO(local_cubic)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return monitored<true, 1, 1, 1, Par>(rng, 4);
    case 1:
      return monitored<true, 1, 2, 3, ParMixed>(rng, 2);
    case 2:
      return monitored<true, 1, 3, 0, ParMixed>(rng, 2);
    case 3:
      return monitored<true, 2, 2, 1, ParMixed>(rng, 2);
    default:
      return monitored<true, 2, 3, 1, Par>(rng, 1);
  }
}
VH_SCENARIO(uniform_solver)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return uniform<1, 0>(rng);
    case 1:
      return uniform<1, 2>(rng);
    case 2:
      return uniform<2, 1>(rng);
    default:
      return uniform<2, 2>(rng);
  }
}
#endif
#if SUB == 0 || SUB == 2
VH_SCENARIO(local_file)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return monitored<false, 1, 2, 2, ParMixed>(rng, 4);
    case 1:
      return monitored<false, 1, 3, 1, ParMixed>(rng, 4);
    case 2:
      return monitored<false, 2, 2, 2, ParMixed>(rng, 3);
    default:
      return monitored<false, 2, 3, 1, ParMixed>(rng, 3);
  }
}
#endif
#if SUB == 0 || SUB == 3
VH_SCENARIO(exact_solutions)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return exactness<1, 1, 4>(rng, 4);
    case 1:
      return exactness<1, 2, 2>(rng, 2);
    case 2:
      return exactness<2, 2, 1>(rng, 3);
    case 3:
      return exactness<2, 2, 2>(rng, 2);
    default:
      return exactness<1, 1, 3>(rng, 3);
  }
}
#endif
VH_MAIN
