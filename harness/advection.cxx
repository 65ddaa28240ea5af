// Monitors of AdvectionParab: upwind theta steps for u_t + div(v u) = f.
#ifndef SUB  // 1 cubic, 2 file, 3 exactness; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
using namespace eqm;

static Poly f_, g_, i_, u_, b_[3];
static bool exact_ = false;  // Data follow from u_.
static double rhs_exact(const auto& x, double t, unsigned int s)
{
  Poly dt = u_;
  dt.rate = 0;
  double v = u_.rate * dt(x, 0.);
  for (unsigned int k = 0; k < s; ++k)
    v += b_[k](x, t) * u_.der(k)(x, t) + b_[k].der(k)(x, t) * u_(x, t);
  return v;
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 26> boundary_nodes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr std::array<unsigned int, 0> dirichlet_nodes{};
  static constexpr std::array<unsigned int, 0> outflow_nodes{};
  static constexpr std::array<unsigned int, 0> neumann_nodes{};
  static SmallVec<s, T> velocity(const P& x, const T t = 0.)
  {
    SmallVec<s, T> v;
    for (unsigned int k = 0; k < s; ++k)
      v[k] = b_[k](x, t);
    return v;
  }
  static T right_hand_side(const P& x, const T t = 0.) { return exact_ ? rhs_exact(x, t, s) : f_(x, t); }
  static T dirichlet_value(const P& x, const T t = 0.) { return exact_ ? u_(x, t) : g_(x, t); }
  static T initial(const P& x, const T t = 0.) { return exact_ ? u_(x, t) : i_(x, t); }
  static T neumann_value(const P&, const T = 0.) { return 0.; }
  static T analytic_result(const P& x, const T t = 0.) { return u_(x, t) + eqm::shift_; }
};
// Some boundaries are declared to be inflow or outflow boundaries.
template <unsigned int s, typename T>
struct ParMixed : Par<s, T>
{
  static constexpr std::array<unsigned int, 4> boundary_nodes{3, 4, 5, 13};
  static constexpr std::array<unsigned int, 2> dirichlet_nodes{1, 6};
  static constexpr std::array<unsigned int, 2> outflow_nodes{2, 7};
};
template <unsigned int d, unsigned int p, unsigned int qd, template <unsigned int, typename> typename P>
using Solver = LocalSolver::AdvectionParab<d, p, qd, P, double>;

static void draw_data(vh::Rng& rng, unsigned int s)
{
  const double rate = rng.coin(3) ? 0. : rng.i(-4, 4) / 8.;
  exact_ = false;
  f_ = random_poly(rng, s, 2, false, 2., rate);
  g_ = random_poly(rng, s, 2, false, 1., -rate);
  i_ = random_poly(rng, s, 2, false, 1., -0.5 * rate);
  u_ = random_poly(rng, s, 2, false, 1., rate);
  const unsigned int deg = rng.coin() ? 0 : 1;
  for (auto& b : b_)
  {
    b = random_poly(rng, s, deg, false, 1., rng.coin() ? 0. : rate / 2);
    for (auto& t : b.terms)  // Irrational numbers: no velocity is tangential by accident of rounding.
      t.second *= 1.0123456789;
  }
}
template <unsigned int d, typename L>
struct State
{
  LocalPoly<d> u;
  L lambda;
  double time, size;
  std::array<bool, 2 * d> dir, out;
};
// Velocity in normal direction.
template <unsigned int d>
static double wind(const Cell<d>& c, unsigned int f, const Vec& x, double t)
{
  double r = 0;
  for (unsigned int k = 0; k < d; ++k)
  {
    double v = 0;
    for (unsigned int l = 0; l < c.s; ++l)
      v += b_[l](x, t) * c.q[k][l];
    r += v * c.n[f][k];
  }
  return r;
}
// Types of the faces; false: not decidable or contradictory (declared inflow with outflow, ...).
template <unsigned int d, unsigned int N, typename Par, typename E>
static bool face_types(const Cell<d>& c, const Quad<d, N>& Q, E& edge, double t, std::array<bool, 2 * d>& dir, std::array<bool, 2 * d>& out)
{
  auto in = [](const auto& a, unsigned int x) { return std::find(a.begin(), a.end(), x) != a.end(); };
  bool ok = true;
  for (unsigned int f = 0; f < 2 * d; ++f)
  {
    const unsigned int type = edge.node_descriptor[f];
    const bool declared_in = in(Par::dirichlet_nodes, type), declared_out = in(Par::outflow_nodes, type), boundary = in(Par::boundary_nodes, type);
    std::array<double, d> mid;
    mid.fill(0.5);
    mid[f / 2] = f % 2;
    const double w = wind(c, f, c.phys(mid), t);
    dir[f] = declared_in || (boundary && w <= 0);
    out[f] = declared_out || (boundary && w > 0);
    for (auto& pt : Q.face[f])
    {
      const double v = wind(c, f, pt.x, t);
      if (std::abs(v) < 1e-9 || (dir[f] && v > 0) || (out[f] && v < 0))
        ok = false;
    }
  }
  return ok;
}
// <(v.n)^+ u + (v.n)^- hat + tau (u - lambda) on the outflow part, test> over a face.
template <unsigned int d, unsigned int N, typename L, typename T, typename H>
static void face_terms(Acc& a, double fac, const Cell<d>& c, const Quad<d, N>& Q, const Basis<d>& B, const State<d, L>& s, double tau, unsigned int f, bool advective, T&& test, H&& hat)
{
  for (auto& pt : Q.face[f])
  {
    const double w = wind(c, f, pt.x, s.time), t = fac * pt.w * test(pt);
    if (w > 0)
    {
      a.add(t * (advective * w + tau) * s.u.at(pt.xi), t * (w + tau) * s.size);
      a.add(-t * tau * trace(s.lambda, B, f, pt.xi));
    }
    else if (advective)
      a.add(t * w * hat(pt));
  }
}
template <unsigned int d, unsigned int p, unsigned int N, typename L>
static void step_equations(const Cell<d>& c, const Quad<d, N>& Q, const State<d, L>& now, const State<d, L>& old, const L& flux, double tau, double theta, double dt, size_t e)
{
  const Basis<d> B{p};
  for (unsigned int i = 0; i < B.n(); ++i)
  {
    Acc a;
    for (auto& pt : Q.vol)
    {
      const double test = pt.w * B.val(i, pt.xi);
      a.add(test * now.u.at(pt.xi), test * now.size);
      a.add(-test * old.u.at(pt.xi), test * old.size);
    }
    for (auto* s : {&now, &old})
    {
      const double fac = dt * (s == &now ? theta : 1. - theta);
      for (auto& pt : Q.vol)
      {
        const auto gr = B.grad(i, pt.xi, c);
        for (unsigned int k = 0; k < d; ++k)
        {
          double v = 0;
          for (unsigned int l = 0; l < c.s; ++l)
            v += b_[l](pt.x, s->time) * c.q[k][l];
          a.add(-fac * pt.w * s->u.at(pt.xi) * v * gr[k], fac * pt.w * s->size * v * gr[k]);
        }
        a.add(-fac * pt.w * f_(pt.x, s->time) * B.val(i, pt.xi));
      }
      for (unsigned int f = 0; f < 2 * d; ++f)
        face_terms<d, N>(a, fac, c, Q, B, *s, tau, f, true, [&](auto& pt) { return B.val(i, pt.xi); }, [&](auto& pt) { return s->dir[f] ? g_(pt.x, s->time) : trace(s->lambda, B, f, pt.xi); });
    }
    balance(a, "time-step-equation", at(e, i));
  }
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int j = 0; j < B.n_face(); ++j)
    {
      vh::event("fluxes");
      if (now.dir[f])
      {
        vh::check_eq(flux[f][j], 0., "flux-at-inflow-face", at(e, f));
        continue;
      }
      Acc a;
      for (auto* s : {&now, &old})
        face_terms<d, N>(a, s == &now ? theta : 1. - theta, c, Q, B, *s, tau, f, !s->out[f], [&](auto& pt) { return B.face_val(j, f, pt.xi); }, [&](auto& pt) { return trace(s->lambda, B, f, pt.xi); });
      a.add(-flux[f][j]);
      balance(a, "numerical-flux", at(e, f));
    }
}
template <bool cubic, unsigned int d, unsigned int s, unsigned int p, template <unsigned int, typename> typename P>
static void monitored(vh::Rng& rng, unsigned int maxn)
{
  constexpr unsigned int N = p + 3;
  typedef Solver<d, p, 2 * p + 4, P> LS;
  const double tau = rng.coin(3) ? 0. : draw_tau(rng);
  const double theta = rng.coin(3) ? 1. : rng.coin(4) ? rng.d(0., 1.) : rng.pick<double>({0.5, 0.25, 0.75, 0.});
  const double dt = rng.coin(4) ? rng.d(0.01, 0.5) : rng.pick<double>({0.125, 0.5, 0.25, 0.01});
  const double start = rng.coin() ? 0. : draw_any_time(rng);
  const LS ls(std::vector<double>{tau, theta, dt});
  draw_data(rng, s);
  auto body = [&](auto& hg, uint64_t h) {
    typedef Lambda<LS> L;
    const Basis<d> B{p};
    const size_t ne = hg.n_hyEdges(), step = ne > 3 ? ne / 3 : 1, first = rng.u(0, step - 1);
    std::map<size_t, State<d, L>> states;
    std::map<size_t, Cell<d>> cells;
    auto values = [&](auto& edge, const Cell<d>& c, const Quad<d, N>& Q, const L& lambda, double t) {
      const auto vals = ls.bulk_values(Quad<d, N>::abscissas(), lambda, edge, t);
      State<d, L> r{LocalPoly<d>(c, Q, p, vals[0]), lambda, t, 0., {}, {}};
      for (double x : vals[0])
        r.size = std::max(r.size, std::abs(x));
      return r;
    };
    for (size_t e = first; e < ne; e += step)
    {
      auto edge = hg[e];
      const Cell<d>& c = cells.emplace(e, Cell<d>(edge.geometry)).first->second;
      const Quad<d, N> Q(c);
      L lambda;
      fill_lambda(rng, lambda, 2.);
      std::array<bool, 2 * d> dir, out;
      if (!face_types<d, N, P<s, double>>(c, Q, edge, start, dir, out))
        continue;
      auto& back = ls.make_initial(lambda, edge, start);
      vh::check(&back == &lambda, "returns-output");
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (unsigned int j = 0; j < B.n_face(); ++j)
          if (dir[f])
            vh::check_eq(lambda[f][j], 0., "initial-trace-at-inflow-face", at(e, f));
          else
          {
            Acc a;
            for (auto& pt : Q.face[f])
              a.add(pt.w / c.area[f] * i_(pt.x, start) * B.face_val(j, f, pt.xi));
            a.add(-lambda[f][j]);
            balance(a, "initial-trace", at(e, f), 1e-9);
          }
      State<d, L> st = values(edge, c, Q, lambda, start);
      for (unsigned int i = 0; i < B.n(); ++i)
      {
        Acc a;
        for (auto& pt : Q.vol)
          a.add(pt.w / c.vol * i_(pt.x, start) * B.val(i, pt.xi));
        a.add(-st.u.coef[i], st.size);
        balance(a, "initial-values", at(e, i));
      }
      st.dir = dir;
      st.out = out;
      states.emplace(e, st);
      vh::event("initial-states");
    }
    const unsigned int steps = rng.u(1, 3);
    for (unsigned int it = 1; it <= steps; ++it)
      for (size_t e = first; e < ne; e += step)
      {
        if (!states.count(e))
          continue;
        auto edge = hg[e];
        const double time = start + it * dt;
        const Cell<d>& c = cells.at(e);
        const Quad<d, N> Q(c);
        const State<d, L> old = states.at(e);
        states.erase(e);
        std::array<bool, 2 * d> dir, out;
        if (!face_types<d, N, P<s, double>>(c, Q, edge, time, dir, out) || dir != old.dir)
          continue;
        for (unsigned int f = 0; f < 2 * d; ++f)
          vh::event(dir[f] ? "inflow-faces" : out[f] ? "outflow-faces" : "free-faces");
        L lambda, mu;
        fill_lambda(rng, lambda, 2.);
        fill_lambda(rng, mu, 2.);
        for (unsigned int f = 0; f < 2 * d; ++f)
          if (dir[f])
          {
            lambda[f].fill(0.);
            mu[f].fill(0.);
          }
        const L keep = lambda;
        L res, flux, other, zero, res0, comb;
        for (auto* x : {&res, &flux, &other, &zero, &res0, &comb})
          for (auto& y : *x)
            y.fill(0.);
        auto& back = ls.residual_flux(lambda, res, edge, time);
        vh::check(&back == &res, "returns-output");
        ls.trace_to_flux(lambda, flux, edge, time);
        ls.trace_to_flux(mu, other, edge, time);
        ls.residual_flux(zero, res0, edge, time);
        const double size = 1e-9 * (norm(flux) + norm(other) + norm(res0) + 1.);
        vh::check_lazy(norm(combine(1., res, -1., combine(1., flux, 1., res0))) <= size, "residual-affine", [&] { return at(e, it); });
        ls.trace_to_flux(combine(2., lambda, -3., mu), comb, edge, time);
        vh::check_lazy(norm(combine(1., comb, -1., combine(2., flux, -3., other))) <= 10 * size, "flux-linear", [&] { return at(e, it); });
        ls.set_data(lambda, edge, time);
        vh::check(keep == lambda, "input-modified");
        State<d, L> now = values(edge, c, Q, lambda, time);
        now.dir = dir;
        now.out = out;
        step_equations<d, p, N>(c, Q, now, old, res, tau, theta, dt, e);
        double want = 0, mag = 0;
        for (auto& pt : Q.vol)
        {
          const double uh = now.u.at(pt.xi), ua = u_(pt.x, time);
          want += pt.w * (uh - ua) * (uh - ua);
          mag += pt.w * (uh * uh + ua * ua);
        }
        const double got = ls.errors(mu, edge, time)[0];
        vh::check_lazy(std::abs(got - want) <= 1e-5 * mag + 1e-12, "error-value", [&] { return at(e, it) + " " + vh::num(got) + " instead of " + vh::num(want); });
        states.emplace(e, now);
        vh::event("errors");
        vh::event("time-steps");
        vh::event("hyperedges");
      }
    vh::state(hash(f_, hash(b_[0], vh::mix(vh::mix(vh::mix(h, tau), dt), theta))));
  };
  if constexpr (cubic)
    on_cubic<d, s, LS>(rng, maxn, 2, body);
  else
    on_file<d, s, LS>(rng, 4, 2, body);
}
// ------------------------------------------------------------------------------ exactness
template <unsigned int d, unsigned int p>
static void exactness(vh::Rng& rng, unsigned int maxn)
{
  typedef Solver<d, p, 2 * p + 2, Par> LS;
  const double rate = rng.i(-2, 2) / 8., tau = rng.coin(3) ? 0. : draw_tau(rng), start = rng.i(-4, 4) / 8.;
  const double theta = rng.coin(3) ? 1. : rng.pick<double>({0.5, 0.75});
  const double dt = rng.pick<double>({0.125, 0.5, 0.02});
  u_ = random_poly(rng, d, p, rng.coin(), 1., rate);
  for (auto& b : b_)
  {
    b = random_poly(rng, d, 0, false, 1., 0.);
    b.terms[0].second = rng.pick<double>({1., -1., 0.5, -2., 0.3});
  }
  exact_ = true;
  std::vector<unsigned int> n(d);
  for (auto& x : n)
    x = rng.u(1, maxn);
  GlobalLoop::Parabolic<Topology::Cubic<d, d>, Geometry::UnitCube<d, d>, NodeDescriptor::Cubic<d, d>, LS, V> problem(n, V{tau, theta, dt});
  if (rng.coin())
    problem.set_refinement(2);
  const size_t size = problem.size_of_system();
  if (size > 90)
    return;
  V lambda = problem.make_initial(V(size, 0.), start);
  double time = start;
  const auto matrix = dense_matrix([&](const V& e) { return problem.trace_to_flux(e, time); }, size);
  for (unsigned int it = 0; it < 4; ++it)
  {
    time = start + (it + 1) * dt;
    V b = problem.residual_flux(V(size, 0.), time);
    for (auto& x : b)
      x = -x;
    if (!dense_solve(matrix, b, lambda))
      break;  // Without penalty the outflow boundary is not determined.
    problem.set_data(lambda, time);
    const double err = problem.errors(lambda, time)[0];
    vh::check_lazy(err <= 2e-6, "exact-solution-not-reproduced", [&] { return "error " + vh::num(err) + " d " + std::to_string(d) + " p " + std::to_string(p) + " tau " + vh::num(tau) + " theta " + vh::num(theta) + " step " + std::to_string(it); });
    error_norm<d, d>(rng, n, 1e-5, [&] { return problem.errors(lambda, time)[0]; });
    vh::event("exact-problems");
  }
  exact_ = false;
  vh::state(hash(u_, vh::mix(vh::mix(n[0], tau), dt)));
}
#if SUB == 0 || SUB == 1
VH_SCENARIO(local_cubic)
{
  switch (rng.i(0, 5))
  {
    case 0:
      return monitored<true, 1, 1, 1, Par>(rng, 4);
    case 1:
      return monitored<true, 1, 2, 3, ParMixed>(rng, 2);
    case 2:
      return monitored<true, 2, 2, 1, ParMixed>(rng, 2);
    case 3:
      return monitored<true, 2, 2, 2, Par>(rng, 2);
    case 4:
      return monitored<true, 2, 3, 1, Par>(rng, 1);
    default:
      return monitored<true, 3, 3, 1, Par>(rng, 1);
  }
}
#endif
#if SUB == 0 || SUB == 2
VH_SCENARIO(local_file)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return monitored<false, 1, 2, 2, Par>(rng, 4);
    case 1:
      return monitored<false, 1, 3, 1, ParMixed>(rng, 4);
    case 2:
      return monitored<false, 2, 2, 2, Par>(rng, 3);
    default:
      return monitored<false, 2, 3, 1, ParMixed>(rng, 3);
  }
}
#endif
#if SUB == 0 || SUB == 3
VH_SCENARIO(exact_solutions)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return exactness<1, 3>(rng, 4);
    case 1:
      return exactness<2, 1>(rng, 3);
    case 2:
      return exactness<2, 2>(rng, 2);
    default:
      return exactness<3, 1>(rng, 1);
  }
}
#endif
VH_MAIN
