// P32: solved problems approach smooth solutions with the order of their degree.
// Sums of plane waves are the solutions; the data are derived from them analytically.
#include "grid.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#if PART == 1
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif PART == 2
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#elif PART == 3
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#elif PART == 4
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#elif PART == 5
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif PART == 6
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#elif PART == 7
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#elif PART == 8
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#elif PART == 9
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#elif PART == 10
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#elif PART == 11
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif PART == 12
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#endif
#if PART == 9 || PART == 10
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#elif PART == 11 || PART == 12
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#endif
#include <HyperHDG/sparse_la.hxx>
#include <memory>
extern "C" void dgetrf_(int*, int*, double*, int*, int*, int*);
extern "C" void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);

typedef std::vector<double> V;
#ifndef SLACK
#define SLACK (d == 1 ? 0.3 : 0.65)
#endif
// ------------------------------------------------------------------------------ the problem
struct Wave
{
  double a, w[3], ph, nu;
};
static std::vector<Wave> waves_;
static double kappa_, kamp_, kw_[3], kph_;  // kappa = kappa_ (1 + kamp_ sin(kw_.x + kph_))
static double vel_[3], slope_[3][3], reac_;  // Velocity vel_ + slope_ x.
static unsigned int cells_[3];               // Cells of the hypergraph in each direction.
static bool moving_;
enum Kind { diffusion, reaction, bilaplace, parabolic, biparabolic, advection };
static Kind kind_;
// Derivative of the solution: dx[i] times with respect to x_i and dt times with respect to time.
template <typename P>
static double du(const P& x, double t, std::array<int, 3> dx = {0, 0, 0}, int dt = 0)
{
  double s = 0;
  for (auto& w : waves_)
  {
    double arg = w.ph + (moving_ ? w.nu * t : 0.), f = w.a;
    int n = dt;
    for (unsigned int i = 0; i < P::size(); ++i)
    {
      arg += w.w[i] * x[i];
      for (int k = 0; k < dx[i]; ++k)
        f *= w.w[i];
      n += dx[i];
    }
    for (int k = 0; k < dt; ++k)
      f *= moving_ ? w.nu : 0.;
    s += f * std::sin(arg + n * M_PI / 2);
  }
  return s;
}
template <typename P>
static double kappa(const P& x)
{
  double arg = kph_;
  for (unsigned int i = 0; i < P::size(); ++i)
    arg += kw_[i] * x[i];
  return kappa_ * (1 + kamp_ * std::sin(arg));
}
template <typename P>
static double dkappa(const P& x, unsigned int j)
{
  double arg = kph_;
  for (unsigned int i = 0; i < P::size(); ++i)
    arg += kw_[i] * x[i];
  return kappa_ * kamp_ * kw_[j] * std::cos(arg);
}
// Directions of the hyperedge around an inner point of it.
template <typename P>
static std::vector<unsigned int> directions(const P& x)
{
  std::vector<unsigned int> r;
  for (unsigned int i = 0; i < P::size(); ++i)
    if (std::abs(x[i] * cells_[i] - std::round(x[i] * cells_[i])) > 1e-9)
      r.push_back(i);
  return r;
}
template <typename P>
static double velocity(const P& x, unsigned int i)
{
  double r = vel_[i];
  for (unsigned int j = 0; j < P::size(); ++j)
    r += slope_[i][j] * x[j];
  return r;
}
static std::array<int, 3> once(unsigned int i)
{
  std::array<int, 3> r{0, 0, 0};
  r[i] = 1;
  return r;
}
static std::array<int, 3> twice(unsigned int i, int j = -1)
{
  std::array<int, 3> r{0, 0, 0};
  r[i] = 2;
  if (j >= 0)
    r[j] += 2;
  return r;
}
template <typename P>
static double load(const P& x, double t)
{
  const auto D = directions(x);
  double f = 0;
  if (kind_ == bilaplace || kind_ == biparabolic)
  {
    for (auto i : D)
      for (auto j : D)
        f += kappa_ * du(x, t, twice(i, j));
    return kind_ == biparabolic ? f + du(x, t, {0, 0, 0}, 1) : f;
  }
  const double u = du(x, t), k = kappa(x);
  for (auto i : D)
  {
    const double ui = du(x, t, once(i)), ki = dkappa(x, i);
    if (kind_ != advection)
      f -= k * du(x, t, twice(i)) + ki * ui;
    if (kind_ == reaction)  // div(kappa b u)
      f += ki * velocity(x, i) * u + k * (slope_[i][i] * u + velocity(x, i) * ui);
    if (kind_ == advection)
      f += slope_[i][i] * u + velocity(x, i) * ui;
  }
  if (kind_ == reaction)
    f += reac_ * u;
  if (kind_ == parabolic || kind_ == advection)
    f += du(x, t, {0, 0, 0}, 1);
  return f;
}
template <unsigned int s, typename T = double>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> all{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 26> dirichlet_nodes = all, dirichlet_laplacian_nodes = all;
  static constexpr std::array<unsigned int, 0> neumann_nodes{}, neumann_laplacian_nodes{};
  static T diffusion_coeff(const P& x, const T = 0.) { return kappa(x); }
  static T inverse_diffusion_coeff(const P& x, const T = 0.) { return 1. / kappa(x); }
  static T inverse_bilaplacian_coefficient(const P&, const T = 0.) { return 1. / kappa_; }
  static SmallVec<s, T> advective_velocity(const P& x, const T = 0.)
  {
    SmallVec<s, T> b;
    for (unsigned int i = 0; i < s; ++i)
      b[i] = ::velocity(x, i);
    return b;
  }
  static T reaction_rate(const P&, const T = 0.) { return reac_; }
  static T right_hand_side(const P& x, const T t = 0.) { return load(x, t); }
  static T analytic_result(const P& x, const T t = 0.) { return du(x, t); }
  static T initial(const P& x, const T t = 0.) { return du(x, t); }
  static T dirichlet_value(const P& x, const T t = 0.) { return du(x, t); }
  static T dirichlet_laplace_value(const P& x, const T t = 0.)
  {
    // Of full dimensional domains: all directions.
    T w = 0;
    for (unsigned int i = 0; i < s; ++i)
      w -= kappa_ * du(x, t, twice(i));
    return w;
  }
  static T initial_laplace(const P& x, const T t = 0.) { return dirichlet_laplace_value(x, t); }
  static T neumann_value(const P&, const T = 0.) { return 0.; }
  static T neumann_laplace_value(const P&, const T = 0.) { return 0.; }
};
template <unsigned int s, typename T = double>
struct ParAdv : Par<s, T>
{
  static constexpr std::array<unsigned int, 26> boundary_nodes = Par<s, T>::all;
  static constexpr std::array<unsigned int, 0> dirichlet_nodes{}, outflow_nodes{};
  static SmallVec<s, T> velocity(const Point<s, T>& x, const T t = 0.) { return Par<s, T>::advective_velocity(x, t); }
};
static void draw_problem(vh::Rng& rng, unsigned int s, Kind kind, bool moving)
{
  kind_ = kind;
  moving_ = moving;
  waves_.assign(2, Wave());
  for (auto& w : waves_)
  {
    w.a = rng.pick<double>({1., -0.7, 0.5});
    w.ph = rng.d(0, 2 * M_PI);
    w.nu = rng.pick<double>({1., -1.5, 0.6});
    for (unsigned int i = 0; i < 3; ++i)
      w.w[i] = i < s ? rng.pick<double>({-1., 1.}) * rng.d(0.8, 1.6) : 0.;
  }
  kappa_ = rng.pick<double>({1., 0.5, 2.});
  kamp_ = kind == bilaplace || kind == biparabolic ? 0. : rng.pick<double>({0., 0.3});
  kph_ = rng.d(0, 2 * M_PI);
  reac_ = rng.pick<double>({0., 1., 2.});
  for (unsigned int i = 0; i < 3; ++i)
  {
    kw_[i] = rng.d(-1.5, 1.5);
    vel_[i] = rng.pick<double>({1., -1., 0.5, -0.7});
    for (unsigned int j = 0; j < 3; ++j)
      slope_[i][j] = rng.coin() ? rng.d(-0.4, 0.4) : 0.;
  }
}
// ------------------------------------------------------------------------------ linear systems
struct Lu
{
  int n = 0;
  V a;
  std::vector<int> piv;
  template <typename F>
  Lu(F&& product, size_t size) : n(size), a(size * size), piv(size)
  {
    V e(size, 0.);
    std::vector<char> nonzero(size, 0);
    for (size_t j = 0; j < size; ++j)
    {
      e[j] = 1.;
      const V c = product(e);
      e[j] = 0.;
      for (size_t i = 0; i < size; ++i)
      {
        a[j * size + i] = c[i];
        nonzero[i] |= c[i] != 0.;
      }
    }
    for (size_t i = 0; i < size; ++i)
      if (!nonzero[i])
        a[i * size + i] = 1.;
    int info = 0;
    dgetrf_(&n, &n, a.data(), &n, piv.data(), &info);
    vh::check(info == 0, "system-is-singular", std::to_string(info));
  }
  V solve(V b)
  {
    char t = 'N';
    int one = 1, info = 0;
    for (auto& x : b)
      x = -x;
    dgetrs_(&t, &n, &one, a.data(), &n, piv.data(), b.data(), &n, &info);
    return b;
  }
};
// ------------------------------------------------------------------------------ one mesh
template <unsigned int d, unsigned int s, typename LS>
using Ell = GlobalLoop::Elliptic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS, V>;
template <unsigned int d, unsigned int s, typename LS>
using Parb = GlobalLoop::Parabolic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS, V>;

// The grid with n cells in each direction: as such (refined == 0) or by refinement of a coarser one.
template <typename P, typename A>
static std::unique_ptr<P> problem(unsigned int s, unsigned int d, unsigned int n, unsigned int refined, const A& arg)
{
  const unsigned int r = d == s && refined && n % 2 == 0 ? (refined == 2 ? n : 2) : 1;
  auto p = std::make_unique<P>(std::vector<unsigned int>(s, n / r), arg);
  if (r > 1)
    p->set_refinement(r);
  for (auto& c : cells_)
    c = n;
  return p;
}
template <unsigned int d, unsigned int s, typename LS>
static double elliptic(unsigned int n, unsigned int refined, double tau, bool cg)
{
  auto p = problem<Ell<d, s, LS>>(s, d, n, refined, tau);
  const V zero = p->zero_vector();
  V b = p->residual_flux(zero), x;
  if (cg)
  {
    for (auto& y : b)
      y = -y;
    x = SparseLA::conjugate_gradient(b, *p, 20 * b.size() + 100, 1e-12);
  }
  else
    x = Lu([&](const V& e) { return p->trace_to_flux(e); }, zero.size()).solve(b);
  vh::event("solves");
  return p->errors(x)[0];
}
template <unsigned int d, unsigned int s, typename LS>
static double stepping(unsigned int n, unsigned int refined, double tau, double theta, unsigned int steps, double end)
{
  const double dt = end / steps, t0 = 0.25;
  double worst = 0;
  auto p = problem<Parb<d, s, LS>>(s, d, n, refined, V{tau, theta, dt});
  const V zero = p->zero_vector();
  V x = p->make_initial(zero, t0);
  Lu lu([&](const V& e) { return p->trace_to_flux(e, t0 + dt); }, zero.size());
  for (unsigned int k = 1; k <= steps; ++k)
  {
    x = lu.solve(p->residual_flux(zero, t0 + k * dt));
    const bool look = 4 * k % steps == 0;
    if (look && kind_ == biparabolic)  // Values follow from the unknowns and the last state.
      worst = std::max(worst, p->errors(x, t0 + k * dt)[0]);
    p->set_data(x, t0 + k * dt);
    if (look && kind_ != biparabolic)  // The state itself is compared.
      worst = std::max(worst, p->errors(x, t0 + k * dt)[0]);
    vh::event("time-steps");
  }
  vh::event("solves");
  return worst;
}
// Errors on successively finer grids: the last halving shows the order, the ones before some progress.
static void orders(const std::string& what, const std::vector<double>& err, double order, double slack, double tiny = 1e-9)
{
  std::string s = what;
  for (auto e : err)
    s += " " + vh::num(e);
  for (size_t i = 0; i < err.size(); ++i)
    vh::check(std::isfinite(err[i]) && err[i] >= 0., "error-is-no-number", s);
  for (size_t i = 1; i < err.size(); ++i)
  {
    if (err[i] < tiny)
      continue;
    const double rate = std::log2(err[i - 1] / err[i]), least = i + 1 == err.size() ? order - slack : 0.5 * order - slack;
    if (std::getenv("VH_RATES"))
      std::fprintf(stderr, "RATE %s | %zu %g of %g err %g\n", what.c_str(), i, rate, order, err[i]);
    vh::check(rate >= least, "order-of-convergence", s + " rate " + vh::num(rate) + " instead of " + vh::num(order));
    vh::event("rates");
  }
  vh::state(vh::mix(vh::fnv(what), err.back()));
}
// ------------------------------------------------------------------------------ scenarios
template <template <unsigned int, unsigned int, unsigned int, template <unsigned int, typename> typename, typename> class LS, unsigned int d, unsigned int s, unsigned int p>
static void space(vh::Rng& rng, Kind kind, std::vector<unsigned int> cells, double order, int method)
{
  draw_problem(rng, s, kind, rng.coin());
  const unsigned int refined = rng.u(0, 2);
  const double tau = rng.pick<double>({1., 0.5, 2.});
  std::vector<double> err;
  for (auto n : cells)
    err.push_back(elliptic<d, s, LS<d, p, 2 * p + 4, Par, double>>(n, refined, method == 2 ? 5. * (d + 1) * p * p * p * n : tau, method == 1));
  orders("kind " + std::to_string(kind) + " method " + std::to_string(method) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " refined " + std::to_string(refined) + " tau " + vh::num(tau), err, order - (s - d) / 2., SLACK);
}
#define GRID_1 {4, 8, 16}
#define GRID_2 {4, 8, 16}
#define GRID_12 {4, 8}
#define GRID_3 {2, 4, 8}
#if PART == 1
VH_SCENARIO(diffusion_orders)
{
  switch (rng.i(0, 6))
  {
    case 0: return space<LocalSolver::Diffusion, 1, 1, 1>(rng, diffusion, GRID_1, 2, 1);
    case 1: return space<LocalSolver::Diffusion, 1, 1, 3>(rng, diffusion, GRID_1, 4, 1);
    case 2: return space<LocalSolver::Diffusion, 2, 2, 1>(rng, diffusion, GRID_2, 2, 1);
    case 3: return space<LocalSolver::Diffusion, 2, 2, 2>(rng, diffusion, {4, 8}, 3, 1);
    case 4: return space<LocalSolver::Diffusion, 1, 2, 2>(rng, diffusion, GRID_12, 3, 1);
    case 5: return space<LocalSolver::Diffusion, 1, 3, 1>(rng, diffusion, GRID_3, 2, 1);
    default: return space<LocalSolver::Diffusion, 2, 3, 1>(rng, diffusion, {2, 4}, 2, 1);
  }
}
#elif PART == 2
VH_SCENARIO(ip_orders)
{
  switch (rng.i(0, 4))
  {
    case 0: return space<LocalSolver::DiffusionIP, 1, 1, 1>(rng, diffusion, GRID_1, 2, 2);
    case 1: return space<LocalSolver::DiffusionIP, 1, 1, 2>(rng, diffusion, GRID_1, 2, 2);
    case 2: return space<LocalSolver::DiffusionIP, 2, 2, 1>(rng, diffusion, {4, 8}, 2, 2);
    case 3: return space<LocalSolver::DiffusionIP, 2, 2, 2>(rng, diffusion, {2, 4}, 2, 2);
    default: return space<LocalSolver::DiffusionIP, 1, 2, 2>(rng, diffusion, GRID_12, 2, 2);
  }
}
#elif PART == 3
VH_SCENARIO(postprocess_orders)
{
  switch (rng.i(0, 4))
  {
    case 0: return space<LocalSolver::DiffusionPostprocess, 1, 1, 1>(rng, diffusion, GRID_1, 3, 1);
    case 1: return space<LocalSolver::DiffusionPostprocess, 1, 1, 2>(rng, diffusion, GRID_1, 4, 1);
    case 2: return space<LocalSolver::DiffusionPostprocess, 2, 2, 1>(rng, diffusion, GRID_2, 3, 1);
    case 3: return space<LocalSolver::DiffusionPostprocess, 2, 2, 2>(rng, diffusion, {2, 4}, 4, 1);
    default: return space<LocalSolver::DiffusionPostprocess, 1, 2, 1>(rng, diffusion, GRID_12, 3, 1);
  }
}
#elif PART == 4
VH_SCENARIO(reaction_orders)
{
  switch (rng.i(0, 4))
  {
    case 0: return space<LocalSolver::DiffusionAdvectionReaction, 1, 1, 1>(rng, reaction, GRID_1, 2, 0);
    case 1: return space<LocalSolver::DiffusionAdvectionReaction, 1, 1, 2>(rng, reaction, GRID_1, 3, 0);
    case 2: return space<LocalSolver::DiffusionAdvectionReaction, 2, 2, 1>(rng, reaction, {4, 8}, 2, 0);
    case 3: return space<LocalSolver::DiffusionAdvectionReaction, 2, 2, 2>(rng, reaction, {2, 4}, 3, 0);
    default: return space<LocalSolver::DiffusionAdvectionReaction, 1, 2, 2>(rng, reaction, GRID_12, 3, 0);
  }
}
#elif PART == 5
VH_SCENARIO(bilaplace_orders)
{
  switch (rng.i(0, 3))
  {
    case 0: return space<LocalSolver::Bilaplacian, 1, 1, 1>(rng, bilaplace, GRID_1, 2, 0);
    case 1: return space<LocalSolver::Bilaplacian, 1, 1, 2>(rng, bilaplace, GRID_1, 3, 0);
    case 2: return space<LocalSolver::Bilaplacian, 2, 2, 1>(rng, bilaplace, {4, 8}, 2, 0);
    default: return space<LocalSolver::Bilaplacian, 2, 2, 2>(rng, bilaplace, {2, 4}, 3, 0);
  }
}
#elif PART >= 9
// Eigenvalues of the unit cube (lowest, Dirichlet): initial values are the eigenfunction, disturbed.
static double disturbed_;
template <unsigned int s, typename T = double>
struct ParEig : Par<s, T>
{
  typedef Point<s, T> P;
  static T diffusion_coeff(const P&, const T = 0.) { return kappa_; }
  static T inverse_diffusion_coeff(const P&, const T = 0.) { return 1. / kappa_; }
  static T right_hand_side(const P&, const T = 0.) { return 0.; }
  static T analytic_result(const P&, const T = 0.) { return 0.; }
  static T dirichlet_value(const P&, const T = 0.) { return 0.; }
  static T dirichlet_laplace_value(const P&, const T = 0.) { return 0.; }
  static T initial(const P& x, const T = 0.)
  {
    T r = 1.;
    for (unsigned int i = 0; i < s; ++i)
      r *= std::sin(M_PI * x[i]) + disturbed_ * std::sin(2 * M_PI * x[i]);
    return r;
  }
  static T initial_laplace(const P& x, const T = 0.) { return kappa_ * s * M_PI * M_PI * initial(x); }
};
static double dot(const V& a, const V& b)
{
  double r = 0;
  for (size_t i = 0; i < a.size(); ++i)
    r += a[i] * b[i];
  return r;
}
template <typename F>
static V columns(F&& product, size_t n)
{
  V a(n * n), e(n, 0.);
  for (size_t j = 0; j < n; ++j)
  {
    e[j] = 1;
    const V c = product(e);
    e[j] = 0;
    std::copy(c.begin(), c.end(), a.begin() + j * n);
  }
  return a;
}
static V times(const V& a, const V& x)
{
  const size_t n = x.size();
  V r(n, 0.);
  for (size_t j = 0; j < n; ++j)
    for (size_t i = 0; i < n; ++i)
      r[i] += a[j * n + i] * x[j];
  return r;
}
// Eigenvalue of stiff x = eig mass x next to sigma; Dirichlet unknowns are taken out.
static double inverse_iteration(vh::Rng& rng, V stiff, V mass, size_t n, const std::vector<unsigned int>& dirichlet, double sigma)
{
  for (auto i : dirichlet)
    for (size_t j = 0; j < n; ++j)
      mass[j * n + i] = mass[i * n + j] = stiff[j * n + i] = stiff[i * n + j] = 0.;
  V shifted(n * n);
  for (size_t k = 0; k < n * n; ++k)
    shifted[k] = stiff[k] - sigma * mass[k];
  Lu lu([&](const V& e) { return times(shifted, e); }, n);
  V x(n);
  for (auto& y : x)
    y = rng.d(-1, 1);
  for (auto i : dirichlet)
    x[i] = 0;
  double eig = 0;
  for (int it = 0; it < 80; ++it)
  {
    V b = times(mass, x);
    for (auto& y : b)
      y = -y;
    const V y = lu.solve(b);
    eig = sigma + dot(x, x) / dot(x, y);
    const double l = std::sqrt(dot(y, y));
    for (size_t i = 0; i < n; ++i)
      x[i] = y[i] / l;
  }
  vh::event("solves");
  return eig;
}
template <template <class, class, class, class, class> class Loop, unsigned int d, typename LS>
using Eig = Loop<Topology::Cubic<d, d>, Geometry::UnitCube<d, d>, NodeDescriptor::Cubic<d, d>, LS, V>;
template <class A, class B, class C, class D, class E>
#if PART >= 11
using Loop0 = GlobalLoop::MassApproxEigenvalue<A, B, C, D, E>;
#else
using Loop0 = GlobalLoop::ShiftedInverseEigenvalue<A, B, C, D, E>;
template <class A, class B, class C, class D, class E>
using Loop1 = GlobalLoop::NonlinearEigenvalue<A, B, C, D, E>;
template <unsigned int d, typename LS>
static double newton(vh::Rng& rng, unsigned int n, unsigned int refined, double tau, double guess)
{
  auto p = problem<Eig<Loop1, d, LS>>(d, d, n, refined, tau);
  const size_t size = p->size_of_system();
  V x = p->make_initial(V(size, 0.));
  const double l = std::sqrt(dot(x, x));
  for (auto& y : x)
    y /= l;
  double eig = guess, last = 0;
  for (int it = 0; it < 40; ++it)
  {
    V b = p->trace_to_flux(x, eig);
    b.push_back(dot(x, x) - 1.);
    Lu lu(
      [&](V e) {
        const double de = e.back();
        e.pop_back();
        V r = p->jacobian_of_trace_to_flux(e, de, x, eig);
        r.push_back(2 * dot(x, e));
        return r;
      },
      size + 1);
    const V step = lu.solve(b);
    for (size_t i = 0; i < size; ++i)
      x[i] += step[i];
    eig += step[size];
    last = std::abs(step[size]);
    vh::event("newton-steps");
    if (last < 1e-11 * std::abs(eig))
      break;
  }
  vh::check(last < 1e-8 * std::abs(eig), "newton-diverged", "eigenvalue " + vh::num(eig) + " last step " + vh::num(last) + " d " + std::to_string(d) + " n " + std::to_string(n));
  vh::event("solves");
  return eig;
}
#endif
template <template <unsigned int, unsigned int, unsigned int, template <unsigned int, typename> typename, typename> class LS, unsigned int d, unsigned int p>
static void eigenvalues(vh::Rng& rng, std::vector<unsigned int> cells, int power, double order)
{
  typedef LS<d, p, 2 * p + 4, ParEig, double> L;
  kappa_ = rng.pick<double>({1., 0.5, 2.});
  disturbed_ = rng.d(-0.05, 0.05);
  const double exact = kappa_ * std::pow(d * M_PI * M_PI, power), tau = kappa_ * rng.pick<double>({1., 2.});
  const unsigned int refined = rng.u(0, 2), method = PART >= 11 ? 2 : rng.u(0, 1);
  const double shift = rng.d(0.8, 1.05) * exact, guess = exact * (1 + rng.d(-0.02, 0.02));
  std::vector<double> err;
  for (auto n : cells)
  {
    double e = 0;
#if PART < 11
    if (method == 0)
      e = newton<d, L>(rng, n, refined, tau, guess);
    else
#endif
    {
      auto q = problem<Eig<Loop0, d, L>>(d, d, n, refined, tau);
      const size_t size = q->size_of_system();
      V stiff, mass;
#if PART >= 11
      stiff = columns([&](const V& x) { return q->trace_to_flux(x); }, size);
      mass = columns([&](const V& x) { return q->trace_to_mass_flux(x); }, size);
      for (auto& y : stiff)
        y = -y;
#else
      stiff = columns([&](const V& x) { return q->trace_to_flux(x, 0.); }, size);
      mass = columns([&](const V& x) { return q->trace_to_flux(x, shift); }, size);
      for (size_t k = 0; k < stiff.size(); ++k)
      {
        mass[k] = -(stiff[k] - mass[k]) / shift;
        stiff[k] = -stiff[k];
      }
#endif
      e = inverse_iteration(rng, stiff, mass, size, q->dirichlet_indices(), shift);
    }
    err.push_back(std::abs(e - exact) / exact);
  }
  const std::string what = "eigenvalue method " + std::to_string(method) + " d " + std::to_string(d) + " p " + std::to_string(p) + " refined " + std::to_string(refined) + " tau " + vh::num(tau);
  // Only the Newton method solves the nonlinear problem, the others have an error of their own.
  if (method == 0)
    orders(what, err, order, SLACK);
  else if (method == 2)
    orders(what, err, 2., SLACK);
  else
    vh::state(vh::mix(vh::fnv(what), err.back()));
  vh::check(err.back() <= 0.08, "eigenvalue-far-off", what + " relative error " + vh::num(err.back()));
  vh::event("eigenvalues");
}
VH_SCENARIO(eigenvalue_orders)
{
#if PART == 9 || PART == 11
#if PART == 9
#define SOLVER LocalSolver::DiffusionEigs
#else
#define SOLVER LocalSolver::Diffusion
#endif
  switch (rng.i(0, 3))
  {
    case 0: return eigenvalues<SOLVER, 1, 1>(rng, {4, 8, 16}, 1, 3);
    case 1: return eigenvalues<SOLVER, 1, 2>(rng, {4, 8}, 1, 5);
    case 2: return eigenvalues<SOLVER, 2, 1>(rng, {4, 8}, 1, 3);
    default: return eigenvalues<SOLVER, 2, 2>(rng, {2, 4}, 1, 5);
  }
#else
#if PART == 10
#define SOLVER LocalSolver::BilaplacianEigs
#else
#define SOLVER LocalSolver::Bilaplacian
#endif
  switch (rng.i(0, 2))
  {
    case 0: return eigenvalues<SOLVER, 1, 1>(rng, {4, 8, 16}, 2, 3);
    case 1: return eigenvalues<SOLVER, 1, 2>(rng, {4, 8}, 2, 5);
    default: return eigenvalues<SOLVER, 2, 1>(rng, {4, 8}, 2, 3);
  }
#endif
}
#else
template <template <unsigned int, unsigned int, unsigned int, template <unsigned int, typename> typename, typename> class LS, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename Pa>
static void time(vh::Rng& rng, Kind kind, unsigned int n)
{
  draw_problem(rng, s, kind, true);
  const unsigned int refined = rng.u(0, 2);
  const double tau = kind == advection ? rng.pick<double>({0., 0., 0.5}) : rng.pick<double>({1., 0.5, 2.}), theta = kind != biparabolic && rng.coin() ? 0.5 : 1.;
  const double order = theta == 1. ? 1 : 2;
  std::vector<double> err;
  for (unsigned int k : {4, 8, 16})
    err.push_back(stepping<d, s, LS<d, p, 2 * p + 4, Pa, double>>(n, refined, tau, theta, k, 1.));
  orders("time kind " + std::to_string(kind) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " theta " + vh::num(theta) + " refined " + std::to_string(refined) + " tau " + vh::num(tau), err, order, SLACK, 3e-4);
}
template <template <unsigned int, unsigned int, unsigned int, template <unsigned int, typename> typename, typename> class LS, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename Pa>
static void both(vh::Rng& rng, Kind kind, std::vector<unsigned int> cells, double order)
{
  draw_problem(rng, s, kind, true);
  const unsigned int refined = rng.u(0, 2);
  const double tau = kind == advection ? rng.pick<double>({0., 0., 0.5}) : rng.pick<double>({1., 0.5, 2.});
  std::vector<double> err;
  for (auto n : cells)
    err.push_back(stepping<d, s, LS<d, p, 2 * p + 4, Pa, double>>(n, refined, tau, kind == biparabolic ? 1. : 0.5, kind == biparabolic ? n * n : n, 0.5));
  orders("both kind " + std::to_string(kind) + " d " + std::to_string(d) + " s " + std::to_string(s) + " p " + std::to_string(p) + " refined " + std::to_string(refined) + " tau " + vh::num(tau), err, order - (s - d) / 2., SLACK);
}
#if PART == 6
VH_SCENARIO(parabolic_orders)
{
  switch (rng.i(0, 3))
  {
    case 0: return time<LocalSolver::DiffusionParab, 1, 1, 3, Par>(rng, parabolic, 8);
    case 1: return time<LocalSolver::DiffusionParab, 1, 2, 3, Par>(rng, parabolic, 8);
    case 2: return both<LocalSolver::DiffusionParab, 1, 1, 1, Par>(rng, parabolic, GRID_1, 2);
    default: return both<LocalSolver::DiffusionParab, 2, 2, 1, Par>(rng, parabolic, {4, 8}, 2);
  }
}
#elif PART == 7
VH_SCENARIO(biparabolic_orders)
{
  switch (rng.i(0, 2))
  {
    case 0: return time<LocalSolver::BilaplacianParab, 1, 1, 3, Par>(rng, biparabolic, 8);
    case 1: return both<LocalSolver::BilaplacianParab, 1, 1, 1, Par>(rng, biparabolic, GRID_1, 2);
    default: return both<LocalSolver::BilaplacianParab, 2, 2, 1, Par>(rng, biparabolic, {4, 8}, 2);
  }
}
#elif PART == 8
VH_SCENARIO(advection_orders)
{
  switch (rng.i(0, 3))
  {
    case 0: return time<LocalSolver::AdvectionParab, 1, 1, 3, ParAdv>(rng, advection, 8);
    case 1: return time<LocalSolver::AdvectionParab, 2, 2, 3, ParAdv>(rng, advection, 3);
    case 2: return both<LocalSolver::AdvectionParab, 1, 1, 1, ParAdv>(rng, advection, GRID_1, 2);
    default: return both<LocalSolver::AdvectionParab, 2, 2, 1, ParAdv>(rng, advection, {4, 8}, 2);
  }
}
#endif
#endif
VH_MAIN
