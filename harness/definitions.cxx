// P33: shipped problem definitions (parameter sets of the reproducibles and examples and the defaults of the local solvers) fit together: the right-hand
// side is what the differential operator of the documented equation makes of the analytic result (differences in extended precision), boundary and initial
// values are those of the analytic result, coefficients and their inverses belong together, lists of boundary types do not contradict each other.
#include "hh.hxx"
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#if PART == 1
#include <reproducibles_python/parameters/diffusion.hxx>
#elif PART == 2
#include <examples/parameters/diffusion.hxx>
#elif PART == 3
#include <reproducibles_python/parameters/bilaplacian.hxx>
#elif PART == 4
#include <reproducibles_python/parameters/advection.hxx>
#elif PART == 5
#include <reproducibles_python/parameters/diffusion_advection_reaction.hxx>
#elif PART == 6
#include <HyperHDG/local_solver/timoshenko_network.hxx>
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <HyperHDG/topology/file.hxx>
#elif PART == 11
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif PART == 12
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#elif PART == 13
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#elif PART == 14
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#elif PART == 15
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#elif PART == 16
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#elif PART == 17
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif PART == 18
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#elif PART == 19
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#elif PART == 20
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#endif

typedef long double L;
static std::string where_;
static void same(const char* key, L got, L want, L tol = 1e-8L)
{
  vh::check_lazy(std::abs(got - want) <= tol * (1.L + std::abs(want)), key,
                 [&] { return where_ + ": " + vh::num((double)got) + " instead of " + vh::num((double)want); });
}
// First derivative, sixth order.
template <typename F>
L diff(F&& f)
{
  const L h = 1e-3L;
  return (45.L * (f(h) - f(-h)) - 9.L * (f(2.L * h) - f(-2.L * h)) + f(3.L * h) - f(-3.L * h)) / (60.L * h);
}
template <unsigned int s>
using Pl = Point<s, L>;
template <unsigned int s>
Pl<s> moved(Pl<s> x, unsigned int k, L h)
{
  x[k] += h;
  return x;
}
template <unsigned int s>
Pl<s> point(vh::Rng& rng, double lo = -1., double hi = 1.)
{
  Pl<s> x;
  for (unsigned int k = 0; k < s; ++k)
    x[k] = rng.d(lo, hi);
  return x;
}
// d different directions of s.
template <unsigned int s>
std::vector<unsigned int> directions(vh::Rng& rng, unsigned int d)
{
  std::vector<unsigned int> all(s);
  for (unsigned int k = 0; k < s; ++k)
    all[k] = k;
  for (unsigned int k = s; k > 1; --k)
    std::swap(all[k - 1], all[rng.i(0, k - 1)]);
  all.resize(d);
  return all;
}
// Node types: no interior (0), none twice, and none in two lists.
template <typename... Lists>
void types(const Lists&... lists)
{
  std::vector<unsigned int> all;
  (all.insert(all.end(), lists.begin(), lists.end()), ...);
  std::sort(all.begin(), all.end());
  vh::check(all.empty() || all.front() > 0, "boundary-types", where_ + ": interior nodes are listed as boundary");
  vh::check(std::adjacent_find(all.begin(), all.end()) == all.end(), "boundary-types", where_ + ": a type is listed twice");
  vh::event("type-lists", sizeof...(lists));
}
// The same values in double precision, and without a time at time zero.
#define SAME_VALUE(F)                                                               \
  if constexpr (requires { PL::F(x, t); })                                          \
  {                                                                                 \
    same("precision-" #F, PD::F(y, (double)t), PL::F(x, t), 1e-11L);                \
    same("default-time-" #F, PL::F(x), PL::F(x, L(0)), 1e-15L);                     \
    vh::event("functions");                                                         \
  }
enum Exceptions { none = 0, own_boundary_values = 1, own_initial_values = 2 };
template <unsigned int s, typename PL, typename PD>
void common(const Pl<s>& x, L t, int exceptions = none)
{
  Point<s, double> y;
  for (unsigned int k = 0; k < s; ++k)
    y[k] = x[k];
  SAME_VALUE(diffusion_coeff)
  SAME_VALUE(inverse_diffusion_coeff)
  SAME_VALUE(inverse_bilaplacian_coefficient)
  SAME_VALUE(reaction_rate)
  SAME_VALUE(analytic_result)
  SAME_VALUE(right_hand_side)
  SAME_VALUE(dirichlet_value)
  SAME_VALUE(dirichlet_laplace_value)
  SAME_VALUE(neumann_value)
  SAME_VALUE(neumann_laplace_value)
  if constexpr (requires { PL::diffusion_coeff(x, t) * PL::inverse_diffusion_coeff(x, t); })
    same("inverse-coefficients", PL::diffusion_coeff(x, t) * PL::inverse_diffusion_coeff(x, t), 1.L, 1e-12L);
  if constexpr (requires { PL::inverse_diffusion_coeff(x, t); })
    vh::check(PL::inverse_diffusion_coeff(x, t) > 0, "positive-coefficients", where_);
  if constexpr (requires { PL::inverse_bilaplacian_coefficient(x, t); })
    vh::check(PL::inverse_bilaplacian_coefficient(x, t) > 0, "positive-coefficients", where_);
  if (!(exceptions & own_boundary_values))
    same("boundary-values", PL::dirichlet_value(x, t), PL::analytic_result(x, t), 1e-14L);
  if constexpr (requires { PL::initial(x, t); })
    if (!(exceptions & own_initial_values))
      same("initial-values", PL::initial(x, t), PL::analytic_result(x, t), 1e-14L);
  if constexpr (requires { PL::outflow_nodes; })
    types(PL::boundary_nodes, PL::dirichlet_nodes, PL::outflow_nodes);
  else
    types(PL::dirichlet_nodes, PL::neumann_nodes);
  if constexpr (requires { PL::dirichlet_laplacian_nodes; })
    types(PL::dirichlet_laplacian_nodes);
  vh::event("points");
}
template <unsigned int s>
void named(vh::Rng&, const char* name, const Pl<s>& x, L t)
{
  where_ = name;
  for (unsigned int k = 0; k < s; ++k)
    where_ += " " + vh::num((double)x[k]);
  where_ += " time " + vh::num((double)t);
  vh::state(std::hash<std::string>()(where_));
}
// ------------------------------------------------------------------------------ equations
template <typename P, typename X>
L time_derivative(const X& x, L t)
{
  return diff([&](L h) { return P::analytic_result(x, t + h); });
}
// - div (coefficient grad u)
template <typename P, typename X>
L diffusion_of(const X& x, L t, const std::vector<unsigned int>& dirs)
{
  L sum = 0;
  for (const unsigned int k : dirs)
    sum -= diff([&](L g) {
      const X z = moved(x, k, g);
      return diff([&](L h) { return P::analytic_result(moved(z, k, h), t); }) / P::inverse_diffusion_coeff(z, t);
    });
  return sum;
}
// div (coefficient (velocity u - grad u)) + reaction u
template <typename P, typename X>
L transport_of(const X& x, L t, const std::vector<unsigned int>& dirs)
{
  L sum = P::reaction_rate(x, t) * P::analytic_result(x, t);
  for (const unsigned int k : dirs)
    sum += diff([&](L g) {
      const X z = moved(x, k, g);
      return (P::advective_velocity(z, t)[k] * P::analytic_result(z, t) -
              diff([&](L h) { return P::analytic_result(moved(z, k, h), t); })) /
             P::inverse_diffusion_coeff(z, t);
    });
  return sum;
}
// div (velocity u)
template <typename P, typename X>
L advection_of(const X& x, L t, const std::vector<unsigned int>& dirs)
{
  L sum = 0;
  for (const unsigned int k : dirs)
    sum += diff([&](L h) { return P::velocity(moved(x, k, h), t)[k] * P::analytic_result(moved(x, k, h), t); });
  return sum;
}
// w = - coefficient Laplace u and - Laplace w
template <typename P, typename X>
void bilaplacian_of(const X& x, L t, const std::vector<unsigned int>& dirs, L instationary)
{
  L w = 0, rhs = instationary;
  for (const unsigned int k : dirs)
  {
    w -= diff([&](L g) {
      const X z = moved(x, k, g);
      return diff([&](L h) { return P::analytic_result(moved(z, k, h), t); });
    });
    rhs -= diff([&](L g) {
      const X z = moved(x, k, g);
      return diff([&](L h) { return P::dirichlet_laplace_value(moved(z, k, h), t); });
    });
  }
  same("laplace-boundary-values", P::dirichlet_laplace_value(x, t), w / P::inverse_bilaplacian_coefficient(x, t));
  same("right-hand-sides", P::right_hand_side(x, t), rhs);
  vh::event("equations");
}
template <typename P, typename X>
void right_side(const X& x, L t, L want)
{
  same("right-hand-sides", P::right_hand_side(x, t), want);
  vh::event("equations");
}
#define BOTH(...) __VA_ARGS__<s, L>, __VA_ARGS__<s, double>

// ------------------------------------------------------------------------------ the sets
#if PART == 1 || PART == 2
template <unsigned int d, unsigned int s>
void hypergraphs(vh::Rng& rng)
{
  Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  const auto dirs = directions<s>(rng, d);
#if PART == 1
  {
    typedef typename HG<d>::template TestParametersQuadEllipt<s, L> P;
    named(rng, "diffusion HG::TestParametersQuadEllipt", x, t);
    common<s, P, typename HG<d>::template TestParametersQuadEllipt<s, double>>(x, t);
    right_side<P>(x, t, diffusion_of<P>(x, t, dirs));
  }
  typedef typename HG<d>::template TestParametersQuadElliptHO<s, L> P;
  for (unsigned int k = 0; k < s; ++k)
    if (std::find(dirs.begin(), dirs.end(), k) == dirs.end())
      x[k] = 0.5 * rng.i(-2, 2);
  named(rng, "diffusion HG::TestParametersQuadElliptHO", x, t);
  common<s, P, typename HG<d>::template TestParametersQuadElliptHO<s, double>>(x, t);
#else
  typedef typename HG<d>::template DiffusionElliptic<s, L> P;
  named(rng, "example HG::DiffusionElliptic", x, t);
  common<s, P, typename HG<d>::template DiffusionElliptic<s, double>>(x, t);
#endif
  right_side<P>(x, t, diffusion_of<P>(x, t, dirs));
}
VH_SCENARIO(diffusion_hypergraphs)
{
  switch (rng.i(0, 5))
  {
    case 0: return hypergraphs<1, 1>(rng);
    case 1: return hypergraphs<1, 2>(rng);
    case 2: return hypergraphs<2, 2>(rng);
    case 3: return hypergraphs<1, 3>(rng);
    case 4: return hypergraphs<2, 3>(rng);
    default: return hypergraphs<3, 3>(rng);
  }
}
#endif
#if PART == 1
template <unsigned int s>
void domains(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  const auto dirs = directions<s>(rng, s);
  {
    typedef TestParametersSinEllipt<s, L> P;
    named(rng, "diffusion TestParametersSinEllipt", x, t);
    common<s, BOTH(TestParametersSinEllipt)>(x, t);
    right_side<P>(x, t, diffusion_of<P>(x, t, dirs));
  }
  {
    typedef TestParametersSinParab<s, L> P;
    named(rng, "diffusion TestParametersSinParab", x, t);
    common<s, BOTH(TestParametersSinParab)>(x, t);
    right_side<P>(x, t, time_derivative<P>(x, t) + diffusion_of<P>(x, t, dirs));
  }
  typedef TestParametersEigs<s, L> P;
  named(rng, "diffusion TestParametersEigs", x, t);
  common<s, BOTH(TestParametersEigs)>(x, t, own_initial_values);
  right_side<P>(x, t, diffusion_of<P>(x, t, dirs));
  L guess = 1;
  for (unsigned int k = 0; k < s; ++k)
    guess *= std::sin(M_PIl * x[k]);
  same("initial-guess", P::initial(x, t), guess, 1e-3L);
  same("unit-coefficient", P::inverse_diffusion_coeff(x, t), 1.L, 1e-15L);
}
#endif
#if PART == 3
template <unsigned int d, unsigned int s>
void hypergraphs(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  typedef typename HG<d>::template TestParametersQuadEllipt<s, L> P;
  named(rng, "bilaplacian HG::TestParametersQuadEllipt", x, t);
  common<s, P, typename HG<d>::template TestParametersQuadEllipt<s, double>>(x, t);
  bilaplacian_of<P>(x, t, directions<s>(rng, d), 0);
}
template <unsigned int s>
void domains(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  const auto dirs = directions<s>(rng, s);
  {
    typedef TestParametersSinEllipt<s, L> P;
    named(rng, "bilaplacian TestParametersSinEllipt", x, t);
    common<s, BOTH(TestParametersSinEllipt)>(x, t);
    bilaplacian_of<P>(x, t, dirs, 0);
  }
  {
    typedef TestParametersSinParab<s, L> P;
    named(rng, "bilaplacian TestParametersSinParab", x, t);
    common<s, BOTH(TestParametersSinParab)>(x, t);
    bilaplacian_of<P>(x, t, dirs, time_derivative<P>(x, t));
    same("initial-values", P::initial_laplace(x, t), P::dirichlet_laplace_value(x, t), 1e-14L);
  }
  typedef TestParametersEigs<s, L> P;
  named(rng, "bilaplacian TestParametersEigs", x, t);
  common<s, BOTH(TestParametersEigs)>(x, t, own_initial_values);
  bilaplacian_of<P>(x, t, dirs, 0);
  L guess = 1;
  for (unsigned int k = 0; k < s; ++k)
    guess *= std::sin(M_PIl * x[k]);
  same("initial-guess", P::initial(x, t), guess, 1e-3L);
  same("unit-coefficient", P::inverse_bilaplacian_coefficient(x, t), 1.L, 1e-15L);
}
#endif
#if PART == 5
template <unsigned int d, unsigned int s>
void hypergraphs(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  typedef typename HG<d>::template TestParametersQuadEllipt<s, L> P;
  named(rng, "diffusion_advection_reaction HG::TestParametersQuadEllipt", x, t);
  common<s, P, typename HG<d>::template TestParametersQuadEllipt<s, double>>(x, t);
  right_side<P>(x, t, transport_of<P>(x, t, directions<s>(rng, d)));
}
template <unsigned int s>
void domains(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  typedef TestParametersSinEllipt<s, L> P;
  named(rng, "diffusion_advection_reaction TestParametersSinEllipt", x, t);
  common<s, BOTH(TestParametersSinEllipt)>(x, t);
  right_side<P>(x, t, transport_of<P>(x, t, directions<s>(rng, s)));
}
#endif
#if PART == 3 || PART == 5
VH_SCENARIO(hypergraph_sets)
{
  switch (rng.i(0, 5))
  {
    case 0: return hypergraphs<1, 1>(rng);
    case 1: return hypergraphs<1, 2>(rng);
    case 2: return hypergraphs<2, 2>(rng);
    case 3: return hypergraphs<1, 3>(rng);
    case 4: return hypergraphs<2, 3>(rng);
    default: return hypergraphs<3, 3>(rng);
  }
}
#endif
#if PART == 1 || PART == 3 || PART == 5
VH_SCENARIO(domain_sets)
{
  switch (rng.i(0, 2))
  {
    case 0: return domains<1>(rng);
    case 1: return domains<2>(rng);
    default: return domains<3>(rng);
  }
}
#endif
#if PART == 4
template <unsigned int s>
void moving(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  typedef TestParametersSinParab<s, L> P;
  named(rng, "advection TestParametersSinParab", x, t);
  common<s, BOTH(TestParametersSinParab)>(x, t);
  right_side<P>(x, t, time_derivative<P>(x, t) + advection_of<P>(x, t, directions<s>(rng, s)));
  // The left faces in the first direction are inflow, the right ones outflow (types 1 + 3 k, 2 + 3 k of cubic node descriptors).
  for (const unsigned int type : P::dirichlet_nodes)
    vh::check(type % 3 == 1 || P::velocity(x, t)[0] < 0, "inflow-types", where_ + ": " + std::to_string(type));
  for (const unsigned int type : P::outflow_nodes)
    vh::check(type % 3 == 2 || P::velocity(x, t)[0] < 0, "inflow-types", where_ + ": " + std::to_string(type));
}
VH_SCENARIO(moving_waves)
{
  switch (rng.i(0, 2))
  {
    case 0: return moving<1>(rng);
    case 1: return moving<2>(rng);
    default: return moving<3>(rng);
  }
}
// Slotted disc, cone and hump of radius 0.15 around (a, b + 1/4), (a, b - 1/4), (a - 1/4, b) with (a, b) = (shift + 1/2, 1/2).
static L bodies(L a, L b, L out, bool square)
{
  const L r = 0.15L;
  auto dist = [&](L p, L q) { return std::sqrt((a - p) * (a - p) + (b - q) * (b - q) + out * out); };
  auto most = [&](L p, L q) { return std::max({std::abs(a - p), std::abs(b - q), std::abs(out)}); };
  if ((square ? most(0.5L, 0.75L) : dist(0.5L, 0.75L)) <= r && (a <= 0.475L || a >= 0.525L || b >= 0.85L))
    return 1;
  if (dist(0.5L, 0.25L) <= r)
    return 1 - dist(0.5L, 0.25L) / r;
  if (dist(0.25L, 0.5L) <= r)
    return 0.25L * (1 + std::cos(M_PIl * dist(0.25L, 0.5L) / r));
  return 0;
}
// A point of the unit square, mostly within the bodies, and never on the edges of the discontinuous one.
static bool body_point(vh::Rng& rng, L& a, L& b, L& out)
{
  const double centers[3][2] = {{0.5, 0.75}, {0.5, 0.25}, {0.25, 0.5}};
  const auto& c = centers[rng.i(0, 2)];
  if (rng.coin())
    a = c[0] + rng.d(-0.2, 0.2), b = c[1] + rng.d(-0.2, 0.2);
  else
    a = rng.d(0., 1.), b = rng.d(0., 1.);
  out = rng.i(0, 3) ? 0. : rng.d(-0.3, 0.3);
  auto near = [](L v, L w) { return std::abs(v - w) < 1e-6L; };
  const L r = std::sqrt((a - 0.5L) * (a - 0.5L) + (b - 0.75L) * (b - 0.75L) + out * out);
  return !(near(r, 0.15L) || near(a, 0.475L) || near(a, 0.525L) || near(b, 0.85L) || near(std::abs(a - 0.5L), 0.15L) ||
           near(std::abs(b - 0.75L), 0.15L) || near(std::abs(out), 0.15L));
}
VH_SCENARIO(rotation)
{
  L a, b, out;
  if (!body_point(rng, a, b, out))
    return;
  Pl<2> x;
  x[0] = a, x[1] = b;
  const L t = rng.d(-1., 1.);
  typedef LeVeque<2, L> P;
  named(rng, "advection LeVeque", x, t);
  common<2, LeVeque<2, L>, LeVeque<2, double>>(x, t);
  same("bodies", P::analytic_result(x, t), bodies(a, b, 0, false));
  // The bodies return after a full turn around the centre.
  same("rotation", P::velocity(x, t)[0], 0.5L - b);
  same("rotation", P::velocity(x, t)[1], a - 0.5L);
  right_side<P>(x, t, 0);
}
template <typename PL, typename PD>
void cross(vh::Rng& rng, const char* name, bool square)
{
  L a, b, out;
  if (!body_point(rng, a, b, out))
    return;
  Pl<3> x;
  x[0] = a - 2, x[1] = out, x[2] = b;
  const L t = rng.d(-1., 1.);
  named(rng, name, x, t);
  common<3, PL, PD>(x, t);
  same("bodies", PL::analytic_result(x, t), bodies(a, b, out, square));
  Pl<3> y = point<3>(rng, -2., 2.);
  const auto v = PL::velocity(y, t);
  same("velocities", v[0], (y[0] < 0 && y[1] > 0) || (y[0] > 0 && y[1] < 0) ? 2.L : 1.L);
  same("velocities", v[1], 0.L);
  same("velocities", v[2], 0.L);
  y[1] = 0;
  same("velocities", PL::velocity(y, t)[0], 1.L);
  right_side<PL>(x, t, 0);
}
VH_SCENARIO(bodies_on_hypergraphs)
{
  if (rng.coin())
    cross<LeVequeHG<3, L>, LeVequeHG<3, double>>(rng, "advection LeVequeHG", false);
  else
    cross<HyperGraphMovie<3, L>, HyperGraphMovie<3, double>>(rng, "advection HyperGraphMovie", true);
}
template <unsigned int s>
void injected(vh::Rng& rng)
{
  const Pl<s> x = point<s>(rng);
  const L t = rng.d(-1., 1.);
  typedef injection<s, L> P;
  named(rng, "advection injection", x, t);
  common<s, BOTH(injection)>(x, t, own_boundary_values);
  same("injection", P::dirichlet_value(x, t), 1.L);
  for (unsigned int k = 0; k < s; ++k)
    same("velocities", P::velocity(x, t)[k], k == 0 ? 1.L : 0.L);
  right_side<P>(x, t, time_derivative<P>(x, t) + advection_of<P>(x, t, directions<s>(rng, s)));
  vh::check(std::find(P::dirichlet_nodes.begin(), P::dirichlet_nodes.end(), 1U) != P::dirichlet_nodes.end(), "inflow-types", where_);
  vh::check(std::find(P::outflow_nodes.begin(), P::outflow_nodes.end(), 2U) != P::outflow_nodes.end(), "inflow-types", where_);
}
VH_SCENARIO(injections)
{
  switch (rng.i(0, 2))
  {
    case 0: return injected<1>(rng);
    case 1: return injected<2>(rng);
    default: return injected<3>(rng);
  }
}
#endif
#if PART == 6
// n = - (u' - t x r), n' = f, m = - r', m' - t x n = g along the beams of the first two axes.
typedef std::array<L, 3> Vec;
static Vec cross_product(const Vec& a, const Vec& b)
{
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
typedef LocalSolver::TimoschenkoBeamParametersDefault<3, L> Beam;
typedef LocalSolver::TimoschenkoBeamParametersClamped<3, L> Clamped;
static Pl<3> unit(unsigned int k)
{
  Pl<3> e;
  e[k] = 1;
  return e;
}
static Vec slope(const std::function<Vec(L)>& f)
{
  Vec d;
  for (unsigned int k = 0; k < 3; ++k)
    d[k] = diff([&](L h) { return f(h)[k]; });
  return d;
}
VH_SCENARIO(beams)
{
  const unsigned int axis = rng.i(0, 1);
  Pl<3> x;
  x[axis] = rng.d(-1., 1.);
  named(rng, "timoshenko TimoschenkoBeamParametersDefault", x, 0);
  const L way = rng.coin() ? 1. : -1.;  // Beams point in either direction.
  Vec t{0, 0, 0};
  t[axis] = way;
  auto at = [&](L h) { return moved(x, axis, way * h); };
  auto u = [&](L h) { return Vec{Beam::analytic_result_u(at(h), unit(0)), Beam::analytic_result_u(at(h), unit(1)), Beam::analytic_result_u(at(h), unit(2))}; };
  auto r = [&](L h) { return Vec{Beam::analytic_result_phi(at(h), unit(0)), Beam::analytic_result_phi(at(h), unit(1)), Beam::analytic_result_phi(at(h), unit(2))}; };
  auto n = [&](L h) {
    const Vec du = slope([&](L g) { return u(h + g); }), tr = cross_product(t, r(h));
    return Vec{-du[0] + tr[0], -du[1] + tr[1], -du[2] + tr[2]};
  };
  auto m = [&](L h) {
    const Vec dr = slope([&](L g) { return r(h + g); });
    return Vec{-dr[0], -dr[1], -dr[2]};
  };
  const Vec f = slope(n), dm = slope(m), tn = cross_product(t, n(0));
  // Any direction: loads are linear in it.
  Pl<3> e;
  for (unsigned int k = 0; k < 3; ++k)
    e[k] = rng.coin() ? rng.d(-1., 1.) : rng.i(-1, 1);
  L fe = 0, ge = 0;
  for (unsigned int k = 0; k < 3; ++k)
    fe += f[k] * e[k], ge += (dm[k] - tn[k]) * e[k];
  same("right-hand-sides", Beam::right_hand_side_n(x, e), fe);
  same("right-hand-sides", Beam::right_hand_side_m(x, e), ge);
  vh::event("equations", 2);
  const L time = rng.d(-1., 1.);
  const Pl<3> y = point<3>(rng);
  same("boundary-values", Beam::dirichlet_value_u(y, e, time), Beam::analytic_result_u(y, e, time), 1e-14L);
  same("boundary-values", Beam::dirichlet_value_phi(y, e, time), Beam::analytic_result_phi(y, e, time), 1e-14L);
  same("boundary-values", Clamped::dirichlet_value_u(y, e, time), Clamped::analytic_result_u(y, e, time), 1e-14L);
  same("boundary-values", Clamped::dirichlet_value_phi(y, e, time), Clamped::analytic_result_phi(y, e, time), 1e-14L);
  same("clamped", Clamped::right_hand_side_n(y, e, time), 0.L);
  same("clamped", Clamped::right_hand_side_m(y, e, time), 0.L);
  same("clamped", Clamped::dirichlet_value_phi(y, e, time), 0.L);
  types(Beam::dirichlet_nodes, Beam::neumann_nodes);
  types(Clamped::dirichlet_nodes, Clamped::neumann_nodes);
  vh::event("functions", 6);
  vh::event("points");
}
// The shipped example: beams of cross.geo with the default parameters approach the analytic result with the order of their degree.
template <unsigned int degree>
void converges()
{
  typedef GlobalLoop::Elliptic<Topology::File<1, 3>, Geometry::File<1, 3>, NodeDescriptor::File<1, 3>, LocalSolver::TimoshenkoBeam<1, 3, degree, 2 * degree>> Problem;
  std::vector<double> errors;
  for (const unsigned int cells : {4U, 8U})
  {
    Problem problem(std::string(VH_REPO) + "/domains/cross.geo");
    problem.set_refinement(cells);
    auto rhs = problem.residual_flux(problem.zero_vector());
    for (double& value : rhs)
      value = -value;
    const auto solution = SparseLA::conjugate_gradient(rhs, problem, 20000, 1e-11);
    errors.push_back(problem.errors(solution)[0]);
  }
  const double rate = std::log2(errors[0] / errors[1]);
  vh::check_lazy(rate >= degree + 0.7, "cross-converges", [&] { return "degree " + std::to_string(degree) + " errors " + vh::num(errors[0]) + " " + vh::num(errors[1]); });
  vh::event("examples-solved");
}
VH_SCENARIO_W(beam_example, 0.05)
{
  if (rng.coin())
    converges<1>();
  else
    converges<2>();
}
#endif
#if PART > 10
#if PART <= 16
#define DEFAULT LocalSolver::DiffusionParametersDefault
#elif PART < 20
#define DEFAULT LocalSolver::Bilaplacian_parameters_default
#else
#define DEFAULT LocalSolver::DiffusionAdvectionReactionParametersDefault
#endif
// Defaults: unit coefficients, homogeneous data, no boundary conditions but natural ones.
template <unsigned int s>
void homogeneous(vh::Rng& rng)
{
  typedef DEFAULT<s, L> P;
  const Pl<s> x = point<s>(rng, -5., 5.);
  const L t = rng.d(-5., 5.);
  named(rng, "default parameters", x, t);
  common<s, DEFAULT<s, L>, DEFAULT<s, double>>(x, t);
  vh::check(P::dirichlet_nodes.empty() && P::neumann_nodes.empty(), "default-types", where_);
  same("default-data", P::right_hand_side(x, t), 0.L);
  same("default-data", P::dirichlet_value(x, t), 0.L);
  same("default-data", P::neumann_value(x, t), 0.L);
  same("default-data", P::analytic_result(x, t), 0.L);
#if PART >= 17 && PART < 20
  same("default-coefficient", P::inverse_bilaplacian_coefficient(x, t), 1.L);
  same("default-data", P::dirichlet_laplace_value(x, t), 0.L);
  same("default-data", P::neumann_laplace_value(x, t), 0.L);
#else
  if constexpr (requires { P::diffusion_coeff(x, t); })
    same("default-coefficient", P::diffusion_coeff(x, t), 1.L);
  if constexpr (requires { P::inverse_diffusion_coeff(x, t); })
    same("default-coefficient", P::inverse_diffusion_coeff(x, t), 1.L);
#endif
#if PART == 20
  same("default-data", P::reaction_rate(x, t), 0.L);
  for (unsigned int k = 0; k < s; ++k)
    same("default-data", P::advective_velocity(x, t)[k], 0.L);
#endif
  vh::event("defaults");
}
VH_SCENARIO(default_parameters)
{
  switch (rng.i(0, 2))
  {
    case 0: return homogeneous<1>(rng);
    case 1: return homogeneous<2>(rng);
    default: return homogeneous<3>(rng);
  }
}
#endif
VH_MAIN
