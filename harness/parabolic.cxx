// Monitors of the one-step theta schemes. PART 1: DiffusionParab; 2: BilaplacianParab (implicit Euler).
#ifndef PART
#define PART 1
#endif
#ifndef SUB  // 1 cubic, 2 file, 3 exactness, 4 square; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#if PART == 1
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#else
#define BIHARMONIC
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#endif
using namespace eqm;

static Poly k_, f_, g_, gl_, i_, il_, u_;
static double a_ = 1.;       // Coefficient in exact mode.
static bool exact_ = false;  // Data follow from u_.
static unsigned int dim_ = 1;
template <typename P>
static double inv_coef(const P& x, double t)
{
  return exact_ ? 1. / a_ : 1. + 0.5 * k_(x, t) * k_(x, t);
}
static double lap(const Poly& u, const auto& x, double t)
{
  double s = 0;
  for (unsigned int k = 0; k < dim_; ++k)
    s += u.der(k).der(k)(x, t);
  return s;
}
static double bilap(const Poly& u, const auto& x, double t)
{
  double s = 0;
  for (unsigned int k = 0; k < dim_; ++k)
    for (unsigned int l = 0; l < dim_; ++l)
      s += u.der(k).der(k).der(l).der(l)(x, t);
  return s;
}
static double rhs_exact(const auto& x, double t)
{
  Poly dt = u_;
  dt.rate = 0;
  return u_.rate * dt(x, 0.) + (PART == 1 ? -a_ * lap(u_, x, t) : a_ * bilap(u_, x, t));
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> dirichlet_nodes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 26> dirichlet_laplacian_nodes = dirichlet_nodes;
  static constexpr std::array<unsigned int, 0> neumann_nodes{};
  static constexpr std::array<unsigned int, 0> neumann_laplacian_nodes{};
  static T inverse_diffusion_coeff(const P& x, const T t = 0.) { return inv_coef(x, t); }
  static T inverse_bilaplacian_coefficient(const P& x, const T t = 0.) { return inv_coef(x, t); }
  static T right_hand_side(const P& x, const T t = 0.) { return exact_ ? rhs_exact(x, t) : f_(x, t); }
  static T dirichlet_value(const P& x, const T t = 0.) { return exact_ ? u_(x, t) : g_(x, t); }
  static T dirichlet_laplace_value(const P& x, const T t = 0.) { return exact_ ? -a_ * lap(u_, x, t) : gl_(x, t); }
  static T initial(const P& x, const T t = 0.) { return exact_ ? u_(x, t) : i_(x, t); }
  static T initial_laplace(const P& x, const T t = 0.) { return exact_ ? -a_ * lap(u_, x, t) : il_(x, t); }
  static T neumann_value(const P&, const T = 0.) { return 0.; }
  static T neumann_laplace_value(const P&, const T = 0.) { return 0.; }
  static T analytic_result(const P& x, const T t = 0.) { return u_(x, t) + eqm::shift_; }
};
// Only some boundaries; different ones for the solution and its Laplacian.
template <unsigned int s, typename T>
struct ParMixed : Par<s, T>
{
  static constexpr std::array<unsigned int, 4> dirichlet_nodes{1, 3, 6, 13};
  static constexpr std::array<unsigned int, 3> dirichlet_laplacian_nodes{1, 2, 4};
};
static void draw_data(vh::Rng& rng, unsigned int s)
{
  const double rate = rng.coin(3) ? 0. : rng.i(-4, 4) / 8.;
  exact_ = false;
  k_ = random_poly(rng, s, 1, false, 0.7, rate);
  f_ = random_poly(rng, s, 2, false, 2., rate);
  g_ = random_poly(rng, s, 2, false, 1., -rate);
  gl_ = random_poly(rng, s, 2, false, 1., 0.5 * rate);
  i_ = random_poly(rng, s, 2, false, 1., -0.5 * rate);
  il_ = random_poly(rng, s, 2, false, 1., rate);
  u_ = random_poly(rng, s, 2, false, 1., rate);
}
#if PART == 1
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::DiffusionParab<d, p, qd, P, double>;
#else
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::BilaplacianParab<d, p, qd, P, double>;
#endif
#include "steps.hxx"
// The initial state a hyperedge has to have.
template <unsigned int d, unsigned int p, unsigned int N, typename L>
static State<d, L> initial_state(const Cell<d>& c, const L& lambda, double time)
{
  const Quad<d, N> Q(c);
  const Basis<d> B{p};
  std::array<V, d + 1> zero;
  constexpr unsigned int tot = std::pow(Quad<d, N>::M, d);
  for (auto& z : zero)
    z.assign(tot, 0.);
  State<d, L> s = remember<d, N>(c, p, zero, lambda, time);
  for (unsigned int i = 0; i < B.n(); ++i)
    for (auto& pt : Q.vol)
      s.v[d].coef[i] += pt.w / c.vol * i_(pt.x, time) * B.val(i, pt.xi);
#if PART == 1
  std::vector<V> M(B.n(), V(B.n(), 0.));
  for (unsigned int i = 0; i < B.n(); ++i)
    for (unsigned int j = 0; j < B.n(); ++j)
      for (auto& pt : Q.vol)
        M[i][j] += pt.w * inv_coef(pt.x, time) * B.val(i, pt.xi) * B.val(j, pt.xi);
  for (unsigned int k = 0; k < d; ++k)
  {
    V b(B.n(), 0.);
    for (unsigned int i = 0; i < B.n(); ++i)
    {
      for (auto& pt : Q.vol)
        b[i] += pt.w * i_(pt.x, time) * B.grad(i, pt.xi, c)[k];
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          b[i] -= pt.w * i_(pt.x, time) * c.n[f][k] * B.val(i, pt.xi);
    }
    dense_solve(M, b, s.v[k].coef);
  }
#endif
  for (auto& u : s.v)
    for (auto& pt : Q.vol)
      s.size = std::max(s.size, std::abs(u.at(pt.xi)));
  return s;
}
template <bool cubic, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename P>
static void monitored(vh::Rng& rng, unsigned int maxn)
{
  constexpr unsigned int N = p + 3;
  typedef Solver<d, p, 2 * p + 4, P> LS;
  const double tau = draw_tau(rng);
  const double theta = PART == 2 || rng.coin(3) ? 1. : rng.coin(4) ? rng.d(0.1, 1.) : rng.pick<double>({0.5, 0.25, 0.75});
  const double dt = rng.coin(4) ? rng.d(0.02, 3.) : rng.pick<double>({0.125, 0.5, 1., 0.01, 2.});
  const double start = rng.coin() ? 0. : draw_any_time(rng);
  const LS ls(std::vector<double>{tau, theta, dt});
  draw_data(rng, s);
  auto body = [&](auto& hg, uint64_t h) {
    typedef Lambda<LS> L;
    const auto all = P<s, double>::dirichlet_nodes;
    const auto alll = P<s, double>::dirichlet_laplacian_nodes;
    const size_t ne = hg.n_hyEdges(), step = ne > 3 ? ne / 3 : 1, first = rng.u(0, step - 1);
    std::map<size_t, State<d, L>> states;
    std::map<size_t, Cell<d>> cells;
    std::array<bool, 2 * d> dir, dirl;
    auto types = [&](auto& edge) {
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        dir[f] = std::find(all.begin(), all.end(), edge.node_descriptor[f]) != all.end();
        dirl[f] = std::find(alll.begin(), alll.end(), edge.node_descriptor[f]) != alll.end();
        vh::event(dir[f] ? "dirichlet-faces" : "free-faces");
      }
    };
    // Time steps are interleaved over the hyperedges: each one keeps its own state.
    for (size_t e = first; e < ne; e += step)
    {
      auto edge = hg[e];
      types(edge);
      cells.emplace(e, Cell<d>(edge.geometry));
      L lambda;
      fill_lambda(rng, lambda, 2.);
      auto& back = ls.make_initial(lambda, edge, start);
      vh::check(&back == &lambda, "returns-output");
      initial_trace<d, p>(cells.at(e), lambda, i_, dir, 0, start, e);
#if PART == 2
      initial_trace<d, p>(cells.at(e), lambda, il_, dirl, lambda[0].size() / 2, start, e);
#endif
      states.emplace(e, initial_state<d, p, N>(cells.at(e), lambda, start));
      vh::event("initial-states");
    }
    const unsigned int steps = rng.u(1, 3);
    for (unsigned int it = 1; it <= steps; ++it)
      for (size_t e = first; e < ne; e += step)
      {
        auto edge = hg[e];
        types(edge);
        const double time = start + it * dt;
        const Cell<d>& cell = cells.at(e);
        const Quad<d, N> Q(cell);
        auto& old = states.at(e);
        auto error_is = [&](const LocalPoly<d>& u, double t, double got, const char* key) {
          double want = 0, mag = 0;
          for (auto& pt : Q.vol)
          {
            const double uh = u.at(pt.xi), ua = u_(pt.x, t);
            want += pt.w * (uh - ua) * (uh - ua);
            mag += pt.w * (uh * uh + ua * ua);
          }
          vh::check_lazy(std::abs(got - want) <= 1e-5 * mag + 1e-12, key, [&] { return at(e, it) + " " + vh::num(got) + " instead of " + vh::num(want); });
          vh::event("errors");
        };
        L lambda, mu;
        fill_lambda(rng, lambda, 2.);
        fill_lambda(rng, mu, 2.);
        const size_t nb = PART == 2 ? lambda[0].size() / 2 : lambda[0].size();
        for (unsigned int f = 0; f < 2 * d; ++f)
          for (size_t j = 0; j < lambda[0].size(); ++j)
            if (j < nb ? dir[f] : dirl[f])
              lambda[f][j] = mu[f][j] = 0.;
        const L keep = lambda;
        L res, flux, other, zero, res0, comb;
        for (auto* x : {&res, &flux, &other, &zero, &res0, &comb})
          for (auto& y : *x)
            y.fill(0.);
#if PART == 1
        error_is(old.v[d], time, ls.errors(lambda, edge, time)[0], "error-of-state");
#endif
        auto& back = ls.residual_flux(lambda, res, edge, time);
        vh::check(&back == &res, "returns-output");
        const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, time);
        State<d, L> now = remember<d, N>(cell, p, vals, lambda, time);
#if PART == 1
        step_equations<d, p, N>(cell, now, old, res, dir, tau, theta, dt, e);
#else
        step_equations<d, p, N>(cell, now, old, res, dir, dirl, tau, dt, e);
        error_is(now.v[d], time, ls.errors(lambda, edge, time)[0], "error-value");
#endif
        ls.trace_to_flux(lambda, flux, edge, time);
        ls.trace_to_flux(mu, other, edge, time);
        ls.residual_flux(zero, res0, edge, time);
        const double size = 1e-9 * (norm(flux) + norm(other) + norm(res0) + 1.);
        vh::check_lazy(norm(combine(1., res, -1., combine(1., flux, 1., res0))) <= size, "residual-affine", [&] { return at(e, it); });
        ls.trace_to_flux(combine(2., lambda, -3., mu), comb, edge, time);
        vh::check_lazy(norm(combine(1., comb, -1., combine(2., flux, -3., other))) <= 10 * size, "flux-linear", [&] { return at(e, it); });
        vh::check_lazy(std::abs(dotp(flux, mu) - dotp(lambda, other)) <= 1e-8 * (norm(flux) * norm(mu) + norm(lambda) * norm(other) + norm(lambda) * norm(mu)), "flux-symmetric", [&] { return at(e, it); });
        vh::check(keep == lambda, "input-modified");
        ls.set_data(lambda, edge, time);
        vh::check(keep == lambda, "input-modified");
        states.erase(e);
        states.emplace(e, now);
#if PART == 1
        error_is(now.v[d], time, ls.errors(mu, edge, time)[0], "error-value");
#endif
        vh::event("time-steps");
        vh::event("hyperedges");
      }
    vh::state(hash(f_, hash(k_, vh::mix(vh::mix(vh::mix(h, tau), dt), theta))));
  };
  if constexpr (cubic)
    on_cubic<d, s, LS>(rng, maxn, 2, body);
  else
    on_file<d, s, LS>(rng, 4, 2, body);
}
// ------------------------------------------------------------------------------ exactness
// Solutions affine in time and in the discrete space are reproduced in every time step.
template <unsigned int d, unsigned int s, unsigned int p>
static void exactness(vh::Rng& rng, unsigned int maxn)
{
  typedef Solver<d, p, 2 * p + 2, Par> LS;
  const double rate = rng.i(-2, 2) / 8., tau = draw_tau(rng), start = rng.i(-4, 4) / 8.;
  const double theta = PART == 2 || rng.coin(3) ? 1. : rng.pick<double>({0.5, 0.75});
  const double dt = rng.pick<double>({0.125, 0.5, 0.02});
  dim_ = d;
  a_ = rng.pick<double>({1., 2., 0.5});
  if (d == s)
    u_ = random_poly(rng, s, p, rng.coin(), 1., rate);
  else
  {
    // The same differential equation on all hyperedges: alpha |x|^2 + b x + c.
    u_ = random_poly(rng, s, 1, false, 1., rate);
    const double alpha = rng.i(-4, 4) / 4.;
    for (unsigned int k = 0; k < s; ++k)
    {
      std::vector<unsigned int> ex(s, 0);
      ex[k] = 2;
      u_.terms.emplace_back(ex, alpha);
    }
  }
  exact_ = true;
  std::vector<unsigned int> n(s);
  for (auto& x : n)
    x = rng.u(1, maxn);
  GlobalLoop::Parabolic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS, V> problem(n, V{tau, theta, dt});
  if (rng.coin())
    problem.set_refinement(2);
  const size_t size = problem.size_of_system();
  if (size > 90)
    return;
  V lambda = problem.make_initial(V(size, 0.), start);
  double time = start;
  const auto matrix = dense_matrix([&](const V& e) { return problem.trace_to_flux(e, time); }, size);
  for (unsigned int it = 0; it < 4; ++it)
  {
    time = start + (it + 1) * dt;
    V b = problem.residual_flux(V(size, 0.), time);
    for (auto& x : b)
      x = -x;
    if (!vh::check(dense_solve(matrix, b, lambda), "system-singular", "tau " + vh::num(tau)))
      return;
#if PART == 2
    const double err = problem.errors(lambda, time)[0];
    error_norm<d, s>(rng, n, 1e-5, [&] { return problem.errors(lambda, time)[0]; });
    problem.set_data(lambda, time);
#else
    problem.set_data(lambda, time);
    const double err = problem.errors(lambda, time)[0];
#endif
    vh::check_lazy(err <= 2e-6, "exact-solution-not-reproduced", [&] { return "error " + vh::num(err) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " tau " + vh::num(tau) + " theta " + vh::num(theta) + " step " + std::to_string(it); });
#if PART != 2
    error_norm<d, s>(rng, n, 1e-5, [&] { return problem.errors(lambda, time)[0]; });
#endif
  }
  exact_ = false;
  vh::event("exact-problems");
  vh::state(hash(u_, vh::mix(vh::mix(n[0], tau), dt)));
}
#if SUB == 0 || SUB == 1
VH_SCENARIO(local_cubic)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return monitored<true, 1, 1, 1, Par>(rng, 4);
    case 1:
      return monitored<true, 1, 2, 3 - (PART == 2), ParMixed>(rng, 2);
    case 2:
      return monitored<true, 1, 3, 1, ParMixed>(rng, 2);
    default:
      return monitored<true, 2, 2, 1, ParMixed>(rng, 2);
  }
}
#endif
#if SUB == 0 || SUB == 4
VH_SCENARIO(local_square)
{
  switch (rng.i(0, PART == 2 ? 1 : 2))
  {
    case 0:
      return monitored<true, 2, 2, 2, ParMixed>(rng, 2);
    case 1:
      return monitored<true, 2, 3, 1, Par>(rng, 1);
#if PART == 1
    default:
      return monitored<true, 3, 3, 1, ParMixed>(rng, 1);
#endif
  }
}
#endif
#if SUB == 0 || SUB == 2
VH_SCENARIO(local_file)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return monitored<false, 1, 2, 2, ParMixed>(rng, 4);
    case 1:
      return monitored<false, 1, 3, 1, ParMixed>(rng, 4);
    case 2:
      return monitored<false, 2, 2, 1, ParMixed>(rng, 3);
    default:
      return monitored<false, 2, 3, 1, ParMixed>(rng, 3);
  }
}
#endif
#if SUB == 0 || SUB == 3
VH_SCENARIO(exact_solutions)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return exactness<1, 1, 3>(rng, 4);
    case 1:
      return exactness<1, 2, 2>(rng, 3);
    case 2:
      return exactness<2, 2, 1 + (PART == 2)>(rng, 2);
    case 3:
      return exactness<2, 2, 2>(rng, 2);
    default:
      return exactness<1, 3, 2>(rng, 2);
  }
}
#endif
VH_MAIN
