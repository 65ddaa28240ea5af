// Monitors of the eigenvalue solvers. PART 1: DiffusionEigs; 2: BilaplacianEigs.
#ifndef PART
#define PART 1
#endif
#ifndef SUB  // 1 cubic, 2 file; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#if PART == 1
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#else
#define BIHARMONIC
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#endif
using namespace eqm;

static Poly k_, f_, g_, gl_, i_, il_, u_;  // f_, g_, gl_ vanish.
template <typename P>
static double inv_coef(const P& x, double)
{
  return 1. + 0.5 * k_(x, 0.) * k_(x, 0.);
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> dirichlet_nodes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 26> dirichlet_laplacian_nodes = dirichlet_nodes;
  static constexpr std::array<unsigned int, 0> neumann_nodes{};
  static constexpr std::array<unsigned int, 0> neumann_laplacian_nodes{};
  static T inverse_diffusion_coeff(const P& x, const T t = 0.) { return inv_coef(x, t); }
  static T inverse_bilaplacian_coefficient(const P& x, const T t = 0.) { return inv_coef(x, t); }
  // Eigenvalue problems are homogeneous: none of these may have an influence.
  static T right_hand_side(const P&, const T = 0.) { return 17.; }
  static T dirichlet_value(const P&, const T = 0.) { return -9.; }
  static T dirichlet_laplace_value(const P&, const T = 0.) { return 5.; }
  static T neumann_value(const P&, const T = 0.) { return 3.; }
  static T neumann_laplace_value(const P&, const T = 0.) { return 2.; }
  static T initial(const P& x, const T = 0.) { return i_(x, 0.); }
  static T initial_laplace(const P& x, const T = 0.) { return il_(x, 0.); }
  static T analytic_result(const P& x, const T = 0.) { return u_(x, 0.); }
};
template <unsigned int s, typename T>
struct ParMixed : Par<s, T>
{
  static constexpr std::array<unsigned int, 4> dirichlet_nodes{1, 3, 6, 13};
  static constexpr std::array<unsigned int, 3> dirichlet_laplacian_nodes{1, 2, 4};
};
#include "steps.hxx"
#if PART == 1
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::DiffusionEigs<d, p, qd, P, double>;
#else
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::BilaplacianEigs<d, p, qd, P, double>;
#endif
template <bool cubic, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename P>
static void monitored(vh::Rng& rng, unsigned int maxn)
{
  constexpr unsigned int N = p + 3;
  typedef Solver<d, p, 2 * p + 4, P> LS;
  const double tau = draw_tau(rng);
  const LS ls(tau);
  k_ = random_poly(rng, s, 1, false, 0.5);
  i_ = random_poly(rng, s, 2, false);
  il_ = random_poly(rng, s, 2, false);
  u_ = random_poly(rng, s, 2, false);
  auto body = [&](auto& hg, uint64_t h) {
    typedef Lambda<LS> L;
    const auto all = P<s, double>::dirichlet_nodes;
    const auto alll = P<s, double>::dirichlet_laplacian_nodes;
    const size_t ne = hg.n_hyEdges(), step = ne > 4 ? ne / 4 : 1;
    for (size_t e = rng.u(0, step - 1); e < ne; e += step)
    {
      auto edge = hg[e];
      std::array<bool, 2 * d> dir, dirl;
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        dir[f] = std::find(all.begin(), all.end(), edge.node_descriptor[f]) != all.end();
        dirl[f] = std::find(alll.begin(), alll.end(), edge.node_descriptor[f]) != alll.end();
        vh::event(dir[f] ? "dirichlet-faces" : "free-faces");
      }
      const auto types = ls.node_types(edge);
      for (unsigned int f = 0; f < 2 * d; ++f)
        vh::check_eq(types[f] != 0, dir[f], "node-types", at(e, f));
      const Cell<d> cell(edge.geometry);
      const Quad<d, N> Q(cell);
      const double eig = rng.coin(5) ? 0. : rng.i(-16, 8) / 8.;
      L lambda, mu, init;
      fill_lambda(rng, lambda, 2.);
      fill_lambda(rng, mu, 2.);
      fill_lambda(rng, init, 2.);
      const size_t nb = PART == 2 ? lambda[0].size() / 2 : lambda[0].size();
      ls.make_initial(init, edge, eig);
      initial_trace<d, p>(cell, init, i_, dir, 0, 0., e);
#if PART == 2
      initial_trace<d, p>(cell, init, il_, dirl, nb, 0., e);
#endif
      vh::event("initial-states");
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (size_t j = 0; j < lambda[0].size(); ++j)
          if (j < nb ? dir[f] : dirl[f])
            lambda[f][j] = mu[f][j] = 0.;
      const L keep = lambda, keepmu = mu;
      L flux, other, comb;
      for (auto* x : {&flux, &other, &comb})
        for (auto& y : *x)
          y.fill(0.);
      auto& back = ls.trace_to_flux(lambda, flux, edge, eig);
      vh::check(&back == &flux, "returns-output");
      const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, eig);
      State<d, L> now = remember<d, N>(cell, p, vals, lambda, 0.);
      State<d, L> none = now;
      for (auto& x : none.v)
        std::fill(x.coef.begin(), x.coef.end(), 0.);
      for (auto& x : none.lambda)
        x.fill(0.);
      none.size = 0;
      // Close to a resonance of the hyperedge nothing can be said.
      if (now.size > 1e4)
        continue;
#if PART == 1
      step_equations<d, p, N>(cell, now, none, flux, dir, tau, 1., 1., e, -eig);
#else
      step_equations<d, p, N>(cell, now, none, flux, dir, dirl, tau, 1., e, -eig);
#endif
      ls.trace_to_flux(mu, other, edge, eig);
      ls.trace_to_flux(combine(2., lambda, -3., mu), comb, edge, eig);
      const double size = 1e-8 * (norm(flux) + norm(other) + 1.);
      vh::check_lazy(norm(combine(1., comb, -1., combine(2., flux, -3., other))) <= size, "flux-linear", [&] { return at(e, 0); });
      vh::check_lazy(std::abs(dotp(flux, mu) - dotp(lambda, other)) <= 1e-7 * (norm(flux) * norm(mu) + norm(lambda) * norm(other) + norm(lambda) * norm(mu)), "flux-symmetric", [&] { return at(e, 0); });
      // The Jacobian at (mu, eig) in direction (lambda, change) against differences.
      const double change = rng.i(-8, 8) / 8., t = 1e-3;
      L jac;
      for (auto& y : jac)
        y.fill(0.);
      auto& ret = ls.jacobian_of_trace_to_flux(lambda, jac, change, mu, eig, edge);
      vh::check(&ret == &jac, "returns-output");
      double big = norm(flux) + norm(other);
      const auto derivative = [&](const double step)
      {
        L diff[4];
        unsigned int k = 0;
        for (double m : {-2., -1., 1., 2.})
        {
          for (auto& y : diff[k])
            y.fill(0.);
          ls.trace_to_flux(mu, diff[k], edge, eig + m * step);
          big += norm(diff[k++]);
        }
        return combine(1. / (12 * step), combine(1., diff[0], -1., diff[3]), 8. / (12 * step), combine(1., diff[2], -1., diff[1]));
      };
      // The difference of two step widths bounds what the formula itself misses near resonances.
      const L der = derivative(t), coarse = derivative(2 * t);
      const double miss = std::abs(change) * norm(combine(1., der, -1., coarse));
      const L want = combine(1., flux, change, der);
      if (big < 1e3 && miss < 1e-3 * (1. + norm(want)))
      {
        vh::check_lazy(norm(combine(1., jac, -1., want)) <= 1e-6 * (big + norm(jac) + 1.) + miss, "jacobian", [&] { return at(e, 0) + " off by " + vh::num(norm(combine(1., jac, -1., want))) + " of " + vh::num(norm(jac)); });
        vh::event("jacobians");
      }
      vh::check(keep == lambda && keepmu == mu, "input-modified");
      const auto err = ls.errors(lambda, edge, eig);
      double w = 0, mag = 0;
      for (auto& pt : Q.vol)
      {
        const double uh = now.v[d].at(pt.xi), ua = u_(pt.x, 0.);
        w += pt.w * (uh - ua) * (uh - ua);
        mag += pt.w * (uh * uh + ua * ua);
      }
      vh::check_lazy(std::abs(err[0] - w) <= 1e-5 * mag + 1e-12, "error-value", [&] { return at(e, 0) + " " + vh::num(err[0]) + " instead of " + vh::num(w); });
      vh::event("errors");
      vh::event("hyperedges");
    }
    vh::state(hash(i_, hash(k_, vh::mix(h, tau))));
  };
  if constexpr (cubic)
    on_cubic<d, s, LS>(rng, maxn, 2, body);
  else
    on_file<d, s, LS>(rng, 4, 2, body);
}
#if SUB == 0 || SUB == 1
VH_SCENARIO(local_cubic)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return monitored<true, 1, 1, 1, Par>(rng, 4);
    case 1:
      return monitored<true, 1, 2, 3 - (PART == 2), ParMixed>(rng, 2);
    case 2:
      return monitored<true, 2, 2, 1, ParMixed>(rng, 2);
    case 3:
      return monitored<true, 2, 2, 2, Par>(rng, 2);
    default:
      return monitored<true, 2, 3, 1, ParMixed>(rng, 1);
  }
}
#endif
#if SUB == 0 || SUB == 2
VH_SCENARIO(local_file)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return monitored<false, 1, 2, 2, ParMixed>(rng, 4);
    case 1:
      return monitored<false, 1, 3, 1, ParMixed>(rng, 4);
    case 2:
      return monitored<false, 2, 2, 1, ParMixed>(rng, 3);
    default:
      return monitored<false, 2, 3, 1, ParMixed>(rng, 3);
  }
}
#endif
VH_MAIN
