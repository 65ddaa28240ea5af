// Monitors of the diffusion-type local solvers. PART 1: Diffusion, DiffusionUniform; 2: DiffusionIP;
// 3: DiffusionPostprocess; 4: DiffusionAdvectionReaction.
#ifndef PART
#define PART 1
#endif
#ifndef SUB  // Scenarios compiled into this program: 1, 4 cubic, 2 file, 3 exactness and uniform; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#if PART == 1
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
#elif PART == 2
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#elif PART == 3
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#else
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#endif
using namespace eqm;

// ------------------------------------------------------------------------------ parameters
static Poly k_, f_, g_, u_, c_, b_[3];
static bool exact_ = false;  // Right-hand side etc. follow from u_.
static unsigned int dim_ = 0;
static std::function<double(const Vec&)> source_;  // Right-hand side of a problem without Dirichlet values.
template <typename P>
static double kappa(const P& x, double t)
{
  const double v = k_(x, t);
  return 1. / (1. + 0.5 * v * v);  // Inverse is a polynomial.
}
// In exact mode the coefficient itself is affine and positive.
static double ka_[4];
template <typename P>
static double kappa_affine(const P& x, double t)
{
  double v = ka_[3] * (1. + 0.25 * t * t);
  for (unsigned int k = 0; k < dim_; ++k)
    v += ka_[k] * (double)x[k];
  return v;
}
template <typename P>
static double rhs_exact(const P& x, double t)
{
  // - div (kappa grad u - b u) + c u
  double v = 0;
  for (unsigned int k = 0; k < dim_; ++k)
  {
    const Poly d = u_.der(k);
    v -= kappa_affine(x, t) * d.der(k)(x, t) + ka_[k] * d(x, t);
#if PART == 4
    v += b_[k](x, t) * d(x, t) + b_[k].der(k)(x, t) * u_(x, t);
#endif
  }
#if PART == 4
  v += c_(x, t) * u_(x, t);
#endif
  return v;
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> dirichlet_nodes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 0> neumann_nodes{};
  static T diffusion_coeff(const P& x, const T t = 0.) { return exact_ ? kappa_affine(x, t) : (T)(1. + 0.5 * k_(x, t) * k_(x, t)); }
  static T inverse_diffusion_coeff(const P& x, const T t = 0.) { return exact_ ? 1. / kappa_affine(x, t) : 1. / kappa(x, t); }
  static T right_hand_side(const P& x, const T t = 0.) { return source_ ? source_(grid::vec(x)) : exact_ ? rhs_exact(x, t) : f_(x, t); }
  static T dirichlet_value(const P& x, const T t = 0.) { return source_ ? 0. : exact_ ? u_(x, t) : g_(x, t); }
  static T neumann_value(const P&, const T = 0.) { return 0.; }
  static T analytic_result(const P& x, const T t = 0.) { return u_(x, t) + eqm::shift_; }
  static SmallVec<s, T> advective_velocity(const P& x, const T t = 0.)
  {
    SmallVec<s, T> v;
    for (unsigned int k = 0; k < s; ++k)
      v[k] = exact_ ? b_[k](x, t) / kappa_affine(x, t) : b_[k](x, t);
    return v;
  }
  static T reaction_rate(const P& x, const T t = 0.) { return exact_ ? c_(x, t) : c_(x, t) * c_(x, t) + 0.1; }
};
// Only some boundaries are Dirichlet boundaries.
template <unsigned int s, typename T>
struct ParMixed : Par<s, T>
{
  static constexpr std::array<unsigned int, 4> dirichlet_nodes{1, 3, 6, 13};
};
#if PART == 1
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::Diffusion<d, p, qd, P, double>;
#elif PART == 2
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::DiffusionIP<d, p, qd, P, double>;
#elif PART == 3
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::DiffusionPostprocess<d, p, qd, P, double>;
#else
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::DiffusionAdvectionReaction<d, p, qd, P, double>;
#endif
// ------------------------------------------------------------------------------ local equations
// Values at quadrature points -> weak equations and fluxes. Component d is u (component 0 for IP).
template <unsigned int d, unsigned int p, unsigned int N, typename Vals, typename Arr>
static void local_equations(const Cell<d>& c, const Vals& v, const Arr& lambda, const Arr* flux, const std::array<bool, 2 * d>& dir, double tau, double time, bool uniform, size_t e)
{
  const Quad<d, N> Q(c);
  const Basis<d> B{p};
  const bool ip = PART == 2 && !uniform;
  const unsigned int U = ip ? 0 : d;
  // Values come in single precision: their size decides on what can be expected.
  std::array<double, d + 1> big;
  big.fill(0.);
  for (unsigned int k = 0; k <= U; ++k)
    for (double x : v[k])
      big[k] = std::max(big[k], std::abs(x));
  auto coef = [&](const Vec& x) { return uniform ? 1. : kappa(x, time); };
  auto hat = [&](unsigned int f, const auto& pt) { return trace(lambda, B, f, pt.xi) + (dir[f] ? g_(pt.x, time) : 0.); };
  // Normal component of the flux at a face point; IP: from the gradient of the polynomial.
  std::vector<double> ucoef(B.n(), 0.);
  if (ip)
    for (unsigned int i = 0; i < B.n(); ++i)
      for (auto& pt : Q.vol)
        ucoef[i] += pt.w / c.vol * v[U][pt.index] * B.val(i, pt.xi);
  auto grad_u = [&](const std::array<double, d>& xi) {
    std::array<double, d> g;
    g.fill(0.);
    for (unsigned int i = 0; i < B.n(); ++i)
    {
      const auto h = B.grad(i, xi, c);
      for (unsigned int k = 0; k < d; ++k)
        g[k] += ucoef[i] * h[k];
    }
    return g;
  };
  double gbig = 0;
  for (unsigned int i = 0; i < B.n(); ++i)
    for (unsigned int k = 0; k < d; ++k)
      for (unsigned int l = 0; l < d; ++l)
        gbig += std::abs(ucoef[i] * c.Ri[l][k]) * 2 * (p * p + 1.);
  auto normal_flux = [&](unsigned int f, const auto& pt, Acc& a, double test) {
    if (ip)
    {
      const auto g = grad_u(pt.xi);
      const double kap = 1. + 0.5 * k_(pt.x, time) * k_(pt.x, time);
      for (unsigned int k = 0; k < d; ++k)
        a.add(-test * kap * g[k] * c.n[f][k], test * kap * gbig);
    }
    else
      for (unsigned int k = 0; k < d; ++k)
        a.add(test * v[k][pt.index] * c.n[f][k], test * big[k]);
  };
  for (unsigned int i = 0; i < B.n(); ++i)
  {
    if (!ip)
      for (unsigned int k = 0; k < d; ++k)
      {
        Acc a;
        for (auto& pt : Q.vol)
        {
          a.add(pt.w * v[k][pt.index] / coef(pt.x) * B.val(i, pt.xi), pt.w * big[k] / coef(pt.x) * B.val(i, pt.xi));
          a.add(-pt.w * v[U][pt.index] * B.grad(i, pt.xi, c)[k], pt.w * big[U] * B.grad(i, pt.xi, c)[k]);
#if PART == 4
          Vec b;
          for (unsigned int l = 0; l < c.s; ++l)
            b.push_back(b_[l](pt.x, time));
          a.add(-pt.w * c.along(b, k) * v[U][pt.index] * B.val(i, pt.xi));
#endif
        }
        for (unsigned int f = 0; f < 2 * d; ++f)
          for (auto& pt : Q.face[f])
            a.add(pt.w * hat(f, pt) * c.n[f][k] * B.val(i, pt.xi));
        balance(a, "flux-equation", at(e, i));
      }
    Acc a;
    for (auto& pt : Q.vol)
    {
      const auto g = B.grad(i, pt.xi, c);
      if (ip)
      {
        const auto h = grad_u(pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          a.add(pt.w * (1. + 0.5 * k_(pt.x, time) * k_(pt.x, time)) * h[k] * g[k], pt.w * (1. + 0.5 * k_(pt.x, time) * k_(pt.x, time)) * gbig * g[k]);
      }
      else
        for (unsigned int k = 0; k < d; ++k)
          a.add(-pt.w * v[k][pt.index] * g[k], pt.w * big[k] * g[k]);
      if (!uniform)
        a.add(-pt.w * f_(pt.x, time) * B.val(i, pt.xi));
#if PART == 4
      a.add(pt.w * (c_(pt.x, time) * c_(pt.x, time) + 0.1) * v[U][pt.index] * B.val(i, pt.xi));
#endif
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (auto& pt : Q.face[f])
      {
        normal_flux(f, pt, a, pt.w * B.val(i, pt.xi));
        a.add(pt.w * tau * v[U][pt.index] * B.val(i, pt.xi), pt.w * tau * big[U] * B.val(i, pt.xi));
        a.add(-pt.w * tau * hat(f, pt) * B.val(i, pt.xi));
      }
    balance(a, "conservation-equation", at(e, i));
  }
  if (flux)
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < B.n_face(); ++j)
      {
        if (dir[f])
        {
          vh::check_eq((*flux)[f][j], 0., "flux-at-dirichlet-face", at(e, f));
          continue;
        }
        Acc a;
        a.add(-(*flux)[f][j]);
        for (auto& pt : Q.face[f])
        {
          normal_flux(f, pt, a, pt.w * B.face_val(j, f, pt.xi));
          a.add(pt.w * tau * v[U][pt.index] * B.face_val(j, f, pt.xi), pt.w * tau * big[U] * B.face_val(j, f, pt.xi));
          a.add(-pt.w * tau * trace(lambda, B, f, pt.xi) * B.face_val(j, f, pt.xi));
        }
        balance(a, "numerical-flux", at(e, f));
        vh::event("fluxes");
      }
}
static void draw_data(vh::Rng& rng, unsigned int s)
{
  const double rate = rng.coin() ? 0. : rng.i(-4, 4) / 8.;
  exact_ = false;
  k_ = random_poly(rng, s, 1, false, 0.7, rate);
  f_ = random_poly(rng, s, 2, false, 2., rate);
  g_ = random_poly(rng, s, 2, false, 1., -rate);
  u_ = random_poly(rng, s, 2, false, 1., rate);
  c_ = random_poly(rng, s, 1, false, 1., rate);
  for (auto& b : b_)
    b = random_poly(rng, s, 1, false, 1., rng.coin() ? rate : 0.);
}
template <bool cubic, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename P>
static void monitored(vh::Rng& rng, unsigned int maxn)
{
  constexpr unsigned int N = p + 3;
  typedef Solver<d, p, 2 * p + 4, P> LS;
  const double tau = draw_tau(rng), time = draw_any_time(rng);
  const LS ls(tau);
  draw_data(rng, s);
  auto body = [&](auto& hg, uint64_t h) {
    typedef Lambda<LS> L;
    const auto all = P<s, double>::dirichlet_nodes;
    L sum;
    const size_t ne = hg.n_hyEdges(), step = ne > 6 ? ne / 6 : 1;
    for (size_t e = rng.u(0, step - 1); e < ne; e += step)
    {
      auto edge = hg[e];
      std::array<bool, 2 * d> dir;
      const auto types = ls.node_types(edge);
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        dir[f] = std::find(all.begin(), all.end(), edge.node_descriptor[f]) != all.end();
        vh::check_eq(types[f] != 0, dir[f], "node-types", at(e, f));
        vh::event(dir[f] ? "dirichlet-faces" : "free-faces");
      }
      L lambda, mu;
      fill_lambda(rng, lambda, 2.);
      fill_lambda(rng, mu, 2.);
      for (unsigned int f = 0; f < 2 * d; ++f)
        if (dir[f])
        {
          lambda[f].fill(0.);
          mu[f].fill(0.);
        }
      const L keep = lambda;
      L res, flux, other, zero, res0, comb;
      for (auto* x : {&res, &flux, &other, &zero, &res0, &comb})
        for (auto& y : *x)
          y.fill(0.);
      auto& back = ls.residual_flux(lambda, res, edge, time);
      vh::check(&back == &res, "returns-output");
      const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, time);
      const Cell<d> cell(edge.geometry);
      local_equations<d, p, N>(cell, vals, lambda, &res, dir, tau, time, false, e);
      // The flux is affine: residual = linear part + residual of zero.
      ls.trace_to_flux(lambda, flux, edge, time);
      ls.trace_to_flux(mu, other, edge, time);
      ls.residual_flux(zero, res0, edge, time);
      const double size = 1e-9 * (norm(flux) + norm(other) + norm(res0) + 1.);
      vh::check_lazy(norm(combine(1., res, -1., combine(1., flux, 1., res0))) <= size, "residual-affine", [&] { return at(e, 0); });
      ls.trace_to_flux(combine(2., lambda, -3., mu), comb, edge, time);
      vh::check_lazy(norm(combine(1., comb, -1., combine(2., flux, -3., other))) <= 10 * size, "flux-linear", [&] { return at(e, 0); });
      if (PART == 1 || PART == 3)
      {
        vh::check_lazy(std::abs(dotp(flux, mu) - dotp(lambda, other)) <= 1e-9 * (norm(flux) * norm(mu) + norm(lambda) * norm(other) + norm(lambda) * norm(mu)), "flux-symmetric", [&] { return at(e, 0); });
        vh::check_lazy(dotp(flux, lambda) <= 1e-9 * (norm(flux) + norm(lambda)) * norm(lambda), "flux-semidefinite", [&] { return at(e, 0); });
      }
#if PART == 1 || PART == 4
      // The mass flux is the flux of the problem with vanishing trace whose source is the solution.
      for (bool data : {false, true})
      {
        const Quad<d, N> Q(cell);
        L mass, want;
        for (auto* x : {&mass, &want})
          for (auto& y : *x)
            y.fill(0.);
        auto sol = vals;
        if (!data)
        {
          source_ = [](const Vec&) { return 0.; };
          sol = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, time);
        }
        const LocalPoly<d> u(cell, Q, p, sol[d]);
        double size_u = 0;
        for (auto x : u.coef)
          size_u += std::abs(x);
        source_ = [&](const Vec& x) { return u(x); };
        ls.residual_flux(zero, want, edge, time);
        source_ = nullptr;
        if (data)
          ls.total_numerical_flux_mass(lambda, mass, edge, time);
        else
          ls.trace_to_mass_flux(lambda, mass, edge, time);
        vh::check_lazy(norm(combine(1., mass, -1., want)) <= 1e-5 * (norm(want) + norm(mass) + size_u * cell.vol) + 1e-9, data ? "mass-residual" : "mass-flux", [&] { return at(e, 0) + " " + vh::num(norm(mass)) + " instead of " + vh::num(norm(want)); });
        vh::event("mass-fluxes");
      }
#endif
      vh::check(keep == lambda, "input-modified");
      // The reported error is the L2 distance of the reported values to the analytic result.
      const auto err = ls.errors(lambda, edge, time);
#if PART != 3
      const Quad<d, N> Q(cell);
      double want = 0, mag = 0;
      for (auto& pt : Q.vol)
      {
        const double uh = vals[PART == 2 ? 0 : d][pt.index], u = u_(pt.x, time);
        want += pt.w * (uh - u) * (uh - u);
        mag += pt.w * (uh * uh + u * u);
      }
      vh::check_lazy(std::abs(err[0] - want) <= 1e-5 * mag + 1e-12, "error-value", [&] { return at(e, 0) + " " + vh::num(err[0]) + " instead of " + vh::num(want); });
#else
      // The postprocessed solution has the mean of u and the gradient of the flux in the weak sense.
      const Quad<d, N + 1> Q(cell);
      const auto w = ls.bulk_values(Quad<d, N + 1>::abscissas(), lambda, edge, time);
      const Basis<d> B{p + 1};
      const unsigned int n = B.n();
      std::vector<V> A(n, V(n, 0.));
      V b(n, 0.), x;
      for (unsigned int i = 0; i < n; ++i)
        for (auto& pt : Q.vol)
        {
          const auto gi = B.grad(i, pt.xi, cell);
          if (i == 0)
          {
            b[0] += pt.w * w[d][pt.index];
            for (unsigned int j = 0; j < n; ++j)
              A[0][j] += pt.w * B.val(j, pt.xi);
            continue;
          }
          for (unsigned int k = 0; k < d; ++k)
            b[i] -= pt.w * w[k][pt.index] * gi[k];
          for (unsigned int j = 0; j < n; ++j)
          {
            const auto gj = B.grad(j, pt.xi, cell);
            for (unsigned int k = 0; k < d; ++k)
              A[i][j] += pt.w * (1. + 0.5 * k_(pt.x, time) * k_(pt.x, time)) * gi[k] * gj[k];
          }
        }
      if (dense_solve(A, b, x))
      {
        double want = 0, mag = 0;
        for (auto& pt : Q.vol)
        {
          double uh = 0;
          for (unsigned int j = 0; j < n; ++j)
            uh += x[j] * B.val(j, pt.xi);
          want += pt.w * (uh - u_(pt.x, time)) * (uh - u_(pt.x, time));
          mag += pt.w * (uh * uh + u_(pt.x, time) * u_(pt.x, time));
        }
        vh::check_lazy(std::abs(err[0] - want) <= 1e-5 * mag + 1e-12, "error-value", [&] { return at(e, 0) + " " + vh::num(err[0]) + " instead of " + vh::num(want); });
      }
#endif
      vh::event("errors");
      vh::event("hyperedges");
    }
    vh::state(hash(f_, hash(k_, vh::mix(vh::mix(h, tau), time))));
  };
  if constexpr (cubic)
    on_cubic<d, s, LS>(rng, maxn, 2, body);
  else
    on_file<d, s, LS>(rng, 4, 2, body);
}
// ------------------------------------------------------------------------------ exactness
// If the exact solution and its flux are polynomials of the discrete spaces, the solved problem
// reproduces it. Hyperedges of lower dimension than space: solution alpha |x|^2 + b x + c.
template <unsigned int d, unsigned int s, unsigned int p>
static void exactness(vh::Rng& rng, unsigned int maxn)
{
  typedef Solver<d, p, 2 * p + 2, Par> LS;
  const double time = draw_time(rng), rate = rng.i(-2, 2) / 8.;
  const double tau = draw_tau(rng);
  dim_ = s;
  for (auto& x : ka_)
    x = 0;
  ka_[3] = rng.pick<double>({1., 2., 0.5});
  // PART 2 is consistent for polynomials of degree p; postprocessing adds a degree to u, not to the flux.
  if (d == s)
  {
    const bool affine = rng.coin() && p > 1;
    if (affine)
      for (unsigned int k = 0; k < s; ++k)
        ka_[k] = rng.i(0, 4) / 8.;
    u_ = random_poly(rng, s, affine || PART == 4 ? p - 1 : p, rng.coin(), 1., rate);
    c_ = random_poly(rng, s, 1, false, 0.5, rate);
    for (auto& x : c_.terms)
      x.second = std::abs(x.second);
    for (unsigned int k = 0; k < 3; ++k)
      b_[k] = random_poly(rng, s, p > 1 ? 1 : 0, false, 0.5, rng.coin() ? rate : 0.);
  }
  else
  {
    u_ = random_poly(rng, s, 1, false, 1., rate);
    const double alpha = p > 1 && !(PART == 4) ? rng.i(-4, 4) / 4. : 0.;
    for (unsigned int k = 0; k < s; ++k)
    {
      std::vector<unsigned int> ex(s, 0);
      ex[k] = 2;
      u_.terms.emplace_back(ex, alpha);
    }
    dim_ = d;  // The divergence within a hyperedge sees d directions.
    c_.terms.clear();
    for (auto& b : b_)
      b.terms.clear();
  }
  exact_ = true;
  std::vector<unsigned int> n(s);
  for (auto& x : n)
    x = rng.u(1, maxn);
  GlobalLoop::Elliptic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS> problem(n, tau);
  if (rng.coin())
    problem.set_refinement(2);
  V lambda;
  if (problem.size_of_system() > 90)
    return;
  if (!vh::check(solve_problem(problem, time, lambda), "system-singular", "tau " + vh::num(tau)))
    return;
  const V r = problem.residual_flux(lambda, time);
  double rm = 0;
  for (auto x : r)
    rm = std::max(rm, std::abs(x));
  vh::check_lazy(rm <= 1e-8, "solved-residual", [&] { return vh::num(rm); });
  const auto err = problem.errors(lambda, time);
  vh::check_lazy(err[0] <= 2e-6, "exact-solution-not-reproduced", [&] { return "error " + vh::num(err[0]) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " tau " + vh::num(tau) + " time " + vh::num(time); });
  error_norm<d, s>(rng, n, 1e-5, [&] { return problem.errors(lambda, time)[0]; });
  exact_ = false;
  vh::event("exact-problems");
  vh::state(hash(u_, vh::mix(n[0], tau)));
}
#if SUB == 0 || SUB == 1
VH_SCENARIO(local_cubic)
{
  switch (rng.i(0, 4))
  {
    case 4:
      return monitored<true, 1, 1, 6, Par>(rng, 2);
    case 0:
      return monitored<true, 1, 1, 1, Par>(rng, 4);
    case 1:
      return monitored<true, 1, 2, 3, ParMixed>(rng, 2);
    case 2:
      return monitored<true, 1, 3, 0 + (PART == 2 || PART == 3), ParMixed>(rng, 2);
    default:
      return monitored<true, 3, 3, 1, ParMixed>(rng, 1);
  }
}
#endif
#if SUB == 0 || SUB == 4
VH_SCENARIO(local_square)
{
  switch (rng.i(0, 2))
  {
    case 0:
      return monitored<true, 2, 2, 1, ParMixed>(rng, 2);
    case 1:
      return monitored<true, 2, 2, 2, Par>(rng, 2);
    default:
      return monitored<true, 2, 3, 1, Par>(rng, 1);
  }
}
#endif
#if SUB == 0 || SUB == 2
VH_SCENARIO(local_file)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return monitored<false, 1, 2, 2, ParMixed>(rng, 4);
    case 1:
      return monitored<false, 1, 3, 1, ParMixed>(rng, 4);
    case 2:
      return monitored<false, 2, 2, 2, ParMixed>(rng, 3);
    case 3:
      return monitored<false, 2, 3, 1, ParMixed>(rng, 3);
    default:
      return monitored<false, 3, 3, 1, ParMixed>(rng, 1);
  }
}
#endif
#if SUB == 0 || SUB == 3
VH_SCENARIO(exact_solutions)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return exactness<1, 1, 3>(rng, 4);
    case 1:
      return exactness<1, 2, 2>(rng, 3);
    case 2:
      return exactness<2, 2, 1>(rng, 3);
    case 3:
      return exactness<2, 2, 2>(rng, 2);
    default:
      return exactness<1, 3, 2>(rng, 2);
  }
}
#endif
#if PART == 1 && (SUB == 0 || SUB == 3)
template <unsigned int d, unsigned int p>
static void uniform(vh::Rng& rng)
{
  constexpr unsigned int N = p + 2;
  typedef LocalSolver::DiffusionUniform<d, p, 2 * p> LS;
  const double tau = draw_tau(rng);
  const LS ls(tau);
  draw_data(rng, d);
  typedef Lambda<LS> L;
  L lambda, mu, flux, other, res;
  fill_lambda(rng, lambda, 2.);
  fill_lambda(rng, mu, 2.);
  for (auto* x : {&flux, &other, &res})
    for (auto& y : *x)
      y.fill(0.);
  ls.trace_to_flux(lambda, flux);
  ls.trace_to_flux(mu, other);
  ls.residual_flux(lambda, res);
  vh::check(res == flux, "uniform-residual");
  const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda);
  UnitGeo<d> geo;
  const Cell<d> cell(geo);
  std::array<bool, 2 * d> dir;
  dir.fill(false);
  local_equations<d, p, N>(cell, vals, lambda, &flux, dir, tau, 0., true, 0);
  vh::check_lazy(std::abs(dotp(flux, mu) - dotp(lambda, other)) <= 1e-9 * (norm(flux) * norm(mu) + norm(lambda) * norm(other) + norm(lambda) * norm(mu)), "flux-symmetric", [&] { return at(0, 0); });
  // Constants have no flux.
  L one, nil;
  for (auto& y : one)
  {
    y.fill(0.);
    y[0] = 3.;
  }
  for (auto& y : nil)
    y.fill(0.);
  ls.trace_to_flux(one, nil);
  vh::check_lazy(norm(nil) <= 1e-10, "constant-has-flux", [&] { return vh::num(norm(nil)); });
  vh::event("uniform");
  vh::state(vh::mix(vh::mix(vh::mix(d, p), tau), lambda[0][0]));
}
VH_SCENARIO(uniform_solver)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return uniform<1, 0>(rng);
    case 1:
      return uniform<1, 2>(rng);
    case 2:
      return uniform<2, 1>(rng);
    case 3:
      return uniform<2, 2>(rng);
    default:
      return uniform<3, 1>(rng);
  }
}
#endif
VH_MAIN
