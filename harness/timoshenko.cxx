// Monitor of the Timoshenko beam networks against an own solution of the beam equations.
#ifndef SUB  // 1 hyperedges, 2 networks; 0 all.
#define SUB 0
#endif
#include "solver.hxx"
#include <HyperHDG/local_solver/timoshenko_network.hxx>
using namespace eqm;

typedef std::array<double, 3> V3;
static V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(double s, const V3& a) { return {s * a[0], s * a[1], s * a[2]}; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template <typename P>
static V3 v3(const P& p) { return {(double)p[0], (double)p[1], (double)p[2]}; }

struct Field  // Vector field of position and time.
{
  std::array<Poly, 3> c;
  V3 operator()(const V3& x, double t) const { return {c[0](x, t), c[1](x, t), c[2](x, t)}; }
};
static Field n_, m_, gu_, gr_, u_, r_;
static Field random_field(vh::Rng& rng, unsigned int p, double rate)
{
  Field f;
  for (auto& c : f.c)
    c = random_poly(rng, 3, p, false, 1., rate);
  return f;
}
// The field a + b x position.
static Field rigid(const V3& a, const V3& b)
{
  Field f;
  for (unsigned int k = 0; k < 3; ++k)
  {
    const unsigned int i = (k + 1) % 3, j = (k + 2) % 3;  // (b x p)_k = b_i p_j - b_j p_i.
    std::vector<unsigned int> ei(3, 0), ej(3, 0), e0(3, 0);
    ei[i] = 1;
    ej[j] = 1;
    f.c[k].terms = {{e0, a[k]}, {ej, b[i]}, {ei, -b[j]}};
  }
  return f;
}
template <unsigned int s, typename T>
struct Par
{
  typedef Point<s, T> P;
  static constexpr std::array<unsigned int, 3> dirichlet_nodes{1, 3, 4};
  static constexpr std::array<unsigned int, 1> neumann_nodes{2};
  static T right_hand_side_n(const P& x, const P& n, const T t = 0.) { return dot(n_(v3(x), t), v3(n)); }
  static T right_hand_side_m(const P& x, const P& n, const T t = 0.) { return dot(m_(v3(x), t), v3(n)); }
  static T dirichlet_value_u(const P& x, const P& n, const T t = 0.) { return dot(gu_(v3(x), t), v3(n)); }
  static T dirichlet_value_phi(const P& x, const P& n, const T t = 0.) { return dot(gr_(v3(x), t), v3(n)); }
  static T analytic_result_u(const P& x, const P& n, const T t = 0.) { return dot(u_(v3(x), t) + shift_ * V3{{2., -1., 0.5}}, v3(n)); }
  static T analytic_result_phi(const P& x, const P& n, const T t = 0.) { return dot(r_(v3(x), t), v3(n)); }
};
static bool dirichlet(unsigned int type) { return type == 1 || type == 3 || type == 4; }

// ------------------------------------------------------------------------------ own solution
struct Beam
{
  V3 a, b;                        // Ends.
  double k[6] = {1, 1, 1, 1, 1, 1};  // Stiffness along and across, twisting and bending.
  V3 e1{0, 0, 0};                 // First direction of the cross section (if given).
};
struct Answer
{
  std::vector<double> coef;  // [quantity n, m, u, r][frame direction][shape function]
  V3 frame[3];
  unsigned int p;
  double at(unsigned int q, unsigned int d, double x) const
  {
    double s = 0;
    for (unsigned int i = 0; i <= p; ++i)
      s += coef[((q * 3) + d) * (p + 1) + i] * leg(i, x);
    return s;
  }
  V3 vec(unsigned int q, double x) const { return at(q, 0, x) * frame[0] + at(q, 1, x) * frame[1] + at(q, 2, x) * frame[2]; }
};
// Finds degree p fields n, m, u, r with t the unit tangent, l_u, l_r the given displacements and
// rotations of the ends:
//   K^{-1} n + u' - t x r = 0,   n' = f,   K^{-1} m + r' = 0,   m' - t x n = g
// tested weakly, with the traces n.nu + tau (u - l).
template <typename L>
static bool own_solution(const Beam& beam, unsigned int p, double tau, const L& lambda, bool data, double time, const std::array<bool, 2>& dir, Answer& ans)
{
  const V3 d = beam.b - beam.a;
  const double len = std::sqrt(dot(d, d));
  ans.p = p;
  ans.frame[0] = (1. / len) * d;
  V3 e = beam.e1;
  if (dot(e, e) == 0)
  {
    e = std::abs(ans.frame[0][0]) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0};
    e = e - dot(e, ans.frame[0]) * ans.frame[0];
    e = (1. / std::sqrt(dot(e, e))) * e;
  }
  ans.frame[1] = e;
  ans.frame[2] = cross(ans.frame[0], e);
  const unsigned int s = p + 1, N = 12 * s;
  auto id = [&](unsigned int q, unsigned int dd, unsigned int i) { return (q * 3 + dd) * s + i; };
  std::vector<V> A(N, V(N, 0.));
  V rhs(N, 0.);
  const Rule& g = gauss(p + 4);
  const double nu[2] = {-1., 1.};
  for (unsigned int i = 0; i < s; ++i)
  {
    for (unsigned int j = 0; j < s; ++j)
    {
      const double mass = i == j ? len : 0.;
      double slope = 0;  // Integral of phi_i' phi_j.
      for (size_t q = 0; q < g.x.size(); ++q)
        slope += g.w[q] * dleg(i, g.x[q]) * leg(j, g.x[q]);
      double ends = 0, jump = 0;
      for (unsigned int f = 0; f < 2; ++f)
      {
        ends += leg(i, f) * leg(j, f);
        jump += nu[f] * leg(i, f) * leg(j, f);
      }
      for (unsigned int dd = 0; dd < 3; ++dd)
        for (unsigned int q = 0; q < 2; ++q)
        {
          A[id(q, dd, i)][id(q, dd, j)] += mass / beam.k[3 * q + dd];
          A[id(q, dd, i)][id(q + 2, dd, j)] -= slope;
          A[id(q + 2, dd, i)][id(q, dd, j)] += jump - slope;
          A[id(q + 2, dd, i)][id(q + 2, dd, j)] += tau * ends;
        }
      // -(t x r) = (0, r_2, -r_1), -(t x n) = (0, n_2, -n_1).
      A[id(0, 1, i)][id(3, 2, j)] += mass;
      A[id(0, 2, i)][id(3, 1, j)] -= mass;
      A[id(3, 1, i)][id(0, 2, j)] += mass;
      A[id(3, 2, i)][id(0, 1, j)] -= mass;
    }
    for (unsigned int f = 0; f < 2; ++f)
    {
      const V3 end = f ? beam.b : beam.a;
      for (unsigned int q = 0; q < 2; ++q)
      {
        V3 val = v3(&lambda[f][3 * q]);
        if (data && dir[f])
          val = val + (q ? gr_ : gu_)(end, time);
        for (unsigned int dd = 0; dd < 3; ++dd)
        {
          const double c = dot(val, ans.frame[dd]) * leg(i, f);
          rhs[id(q, dd, i)] -= nu[f] * c;
          rhs[id(q + 2, dd, i)] += tau * c;
        }
      }
    }
    if (data)
      for (size_t k = 0; k < g.x.size(); ++k)
      {
        const V3 x = beam.a + g.x[k] * d;
        const V3 fn = n_(x, time), fm = m_(x, time);
        for (unsigned int dd = 0; dd < 3; ++dd)
        {
          rhs[id(2, dd, i)] += g.w[k] * len * leg(i, g.x[k]) * dot(fn, ans.frame[dd]);
          rhs[id(3, dd, i)] += g.w[k] * len * leg(i, g.x[k]) * dot(fm, ans.frame[dd]);
        }
      }
  }
  return dense_solve(A, rhs, ans.coef);
}
// Forces and moments that the beam exerts on its ends, in global coordinates.
template <typename L>
static L own_flux(const Answer& ans, double tau, const L& lambda, const std::array<bool, 2>& dir)
{
  L out;
  for (unsigned int f = 0; f < 2; ++f)
    for (unsigned int q = 0; q < 2; ++q)
    {
      const V3 val = (f ? 1. : -1.) * ans.vec(q, f) + tau * (ans.vec(q + 2, f) - v3(&lambda[f][3 * q]));
      for (unsigned int k = 0; k < 3; ++k)
        out[f][3 * q + k] = dir[f] ? 0. : val[k];
    }
  return out;
}
// ------------------------------------------------------------------------------ networks
struct Network
{
  grid::FileDomain dom;
  std::vector<Beam> beams;
};
static double draw_len(vh::Rng& rng) { return rng.i(-16, 16) / 8.; }
// Points are the nodes; properties need the cross section directions which the geometry uses.
static Network network(vh::Rng& rng, unsigned int max_points, bool ordinary)
{
  Network w;
  w.dom.d = 1;
  w.dom.s = 3;
  const unsigned int np = rng.u(2, max_points);
  std::vector<unsigned int> type(np);
  std::set<std::vector<double>> used;
  const int style = rng.i(0, 2);  // 0: space, 1: plane, 2: along the axes
  while (w.dom.points.size() < np)
  {
    std::vector<double> x{draw_len(rng), draw_len(rng), draw_len(rng)};
    if (style == 1)
      x[rng.u(0, 2)] = 0.;
    if (style == 2 && !w.dom.points.empty())
    {
      const unsigned int k = rng.u(0, 2);
      const double step = draw_len(rng);
      x = w.dom.points[rng.u(0, (unsigned int)w.dom.points.size() - 1)];
      x[k] += step;
    }
    bool far = true;
    for (auto& y : w.dom.points)
      far = far && std::hypot(x[0] - y[0], x[1] - y[1], x[2] - y[2]) > 0.2;
    if (far)
      w.dom.points.push_back(Vec(x.begin(), x.end()));
  }
  for (auto& t : type)
    t = rng.coin(3) ? rng.u(1, 4) : 0;
  if (ordinary)
    type[0] = 1;
  w.dom.n_nodes = np;
  std::set<std::pair<unsigned int, unsigned int>> pairs;
  auto add = [&](unsigned int a, unsigned int b) {
    if (a == b || !pairs.insert(std::minmax(a, b)).second)
      return;
    if (rng.coin(2))
      std::swap(a, b);
    w.dom.nodes.push_back({a, b});
    w.dom.pts.push_back({a, b});
    w.dom.types.push_back({type[a], type[b]});
    Beam be;
    be.a = v3(w.dom.points[a]);
    be.b = v3(w.dom.points[b]);
    w.beams.push_back(be);
  };
  for (unsigned int k = 1; k < np; ++k)
    add(k, rng.u(0, k - 1));
  for (unsigned int k = rng.u(0, np); k > 0; --k)
    add(rng.u(0, np - 1), rng.u(0, np - 1));
  w.dom.hash = 77;
  for (auto& b : w.beams)
    for (unsigned int k = 0; k < 3; ++k)
      w.dom.hash = vh::mix(vh::mix(w.dom.hash, b.a[k]), b.b[k]);
  return w;
}
template <typename LS>
using FileGraph = Graph<LS, Topology::File<1, 3>, Geometry::File<1, 3>, NodeDescriptor::File<1, 3>>;
template <typename LS>
static std::string write_network(vh::Rng& rng, Network& w, bool properties)
{
  const std::string name = vh::scratch() + "/beams.geo";
  grid::write_domain(w.dom, name);
  if (!properties)
    return name;
  FileGraph<LS> g(name);
  for (size_t e = 0; e < w.beams.size(); ++e)
  {
    Beam& be = w.beams[e];
    auto edge = g[e];
    const V3 n[2] = {v3(edge.geometry.outer_normal(0)), v3(edge.geometry.outer_normal(1))};
    const bool swap = rng.coin(2);
    V3 first = (rng.coin(2) ? 1. : -1.) * n[swap], second = (rng.coin(2) ? 1. : -1.) * n[!swap];
    std::vector<double> pr;
    for (unsigned int k = 0; k < 6; ++k)
    {
      be.k[k] = rng.u(1, 16) / 4.;
      pr.push_back(be.k[k] * (k < 3 ? 1e-4 : 1e-12));
    }
    be.e1 = first;
    for (auto* v : {&first, &second})
      pr.insert(pr.end(), v->begin(), v->end());
    w.dom.props.push_back(pr);
    w.dom.hash = vh::mix(w.dom.hash, be.k[0] + 10 * be.k[4]);
  }
  return grid::write_domain(w.dom, name);
}
static Beam part(const Beam& whole, unsigned int k, unsigned int n)
{
  Beam b = whole;
  b.a = whole.a + ((double)k / n) * (whole.b - whole.a);
  b.b = whole.a + ((double)(k + 1) / n) * (whole.b - whole.a);
  return b;
}
static double norm6(const std::array<std::array<double, 6>, 2>& x)
{
  double s = 0;
  for (auto& y : x)
    for (double z : y)
      s = std::max(s, std::abs(z));
  return s;
}
#if SUB == 0 || SUB == 1
template <unsigned int p>
static void hyperedges(vh::Rng& rng)
{
  typedef LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 4, Par> LS;
  typedef Lambda<LS> L;
  const double tau = draw_tau(rng);
  const LS ls(tau);
  Network w = network(rng, 4, false);
  const bool props = rng.coin(2);
  const std::string name = write_network<LS>(rng, w, props);
  FileGraph<LS> g(name);
  const unsigned int ref = rng.u(1, 3);
  if (ref > 1)
    g.set_refinement(ref);
  const double rate = rng.coin(3) ? 0. : rng.i(-4, 4) / 4.;
  n_ = random_field(rng, 2, rate);
  m_ = random_field(rng, 2, rate);
  gu_ = random_field(rng, 2, -rate);
  gr_ = random_field(rng, 2, rate);
  u_ = random_field(rng, 2, rate);
  r_ = random_field(rng, 2, rate);
  const double time = draw_any_time(rng);
  for (size_t e = 0; e < g.n_hyEdges(); ++e)
  {
    auto edge = g[e];
    const V3 lo = v3(edge.geometry.face_barycenter(0)), hi = v3(edge.geometry.face_barycenter(1));
    // The refined hyperedge this one is.
    Beam beam;
    bool found = false;
    for (auto& b : w.beams)
      for (unsigned int k = 0; k < ref; ++k)
      {
        const Beam c = part(b, k, ref);
        if (!found && dot(c.a - lo, c.a - lo) + dot(c.b - hi, c.b - hi) < 1e-20)
        {
          beam = c;
          found = true;
        }
      }
    vh::check(found, "unknown-hyperedge");
    if (!found)
      continue;
    std::array<bool, 2> dir;
    for (unsigned int f = 0; f < 2; ++f)
    {
      dir[f] = dirichlet(edge.node_descriptor[f]);
      vh::event(dir[f] ? "dirichlet-faces" : "free-faces");
    }
    L lambda, mu, flux, res, other, comb;
    fill_lambda(rng, lambda, 2.);
    fill_lambda(rng, mu, 2.);
    const L keep = lambda;
    for (auto* x : {&flux, &res, &other, &comb})
      for (auto& y : *x)
        y.fill(0.);
    vh::check(&ls.trace_to_flux(lambda, flux, edge, time) == &flux, "returns-output");
    vh::check(&ls.residual_flux(lambda, res, edge, time) == &res, "returns-output");
    ls.trace_to_flux(mu, other, edge, time);
    Answer hom, inh;
    if (!own_solution(beam, p, tau, lambda, false, time, dir, hom) || !own_solution(beam, p, tau, lambda, true, time, dir, inh))
      continue;
    auto agree = [&](const L& got, const L& want, const char* what) {
      double big = 1. + norm6(want);
      for (const Answer* a : {&hom, &inh})
        for (double c : a->coef)
          big = std::max(big, std::abs(c));
      for (unsigned int f = 0; f < 2; ++f)
        for (unsigned int k = 0; k < 6; ++k)
        {
          vh::check_lazy(std::abs(got[f][k] - want[f][k]) <= 1e-8 * big * (1. + tau), what, [&] { return at(e, f) + " component " + std::to_string(k) + ": " + vh::num(got[f][k]) + " instead of " + vh::num(want[f][k]) + (props ? " with" : " without") + " properties, time " + vh::num(time); });
          vh::event("fluxes");
        }
    };
    agree(flux, own_flux(hom, tau, lambda, dir), "beam-flux");
    agree(res, own_flux(inh, tau, lambda, dir), "beam-residual");
    vh::check(keep == lambda, "input-modified");
    // Rigid motions exert no forces; and the whole beam is in equilibrium.
    {
      const V3 c{draw_len(rng), draw_len(rng), draw_len(rng)}, om{draw_len(rng), draw_len(rng), draw_len(rng)};
      L motion, zero, forces = flux;
      for (unsigned int f = 0; f < 2; ++f)
      {
        const V3 x = f ? hi : lo, uu = c + cross(om, x);
        for (unsigned int k = 0; k < 3; ++k)
        {
          motion[f][k] = uu[k];
          motion[f][3 + k] = -om[k];
        }
        zero[f].fill(0.);
      }
      ls.trace_to_flux(motion, zero, edge, time);
      vh::check_lazy(norm6(zero) <= 1e-8 * (1. + tau) * (1. + norm6(motion)), "rigid-motion", [&] { return at(e, 0) + " force " + vh::num(norm6(zero)); });
      if (!dir[0] && !dir[1])
      {
        double work = 0, size = 0;
        for (unsigned int f = 0; f < 2; ++f)
          for (unsigned int k = 0; k < 6; ++k)
          {
            work += motion[f][k] * flux[f][k];
            size += std::abs(motion[f][k] * flux[f][k]);
          }
        vh::check_lazy(std::abs(work) <= 1e-8 * (1. + tau) * (1. + size), "equilibrium", [&] { return at(e, 0) + " work " + vh::num(work) + " of " + vh::num(size); });
        // Reciprocity.
        double ab = 0, ba = 0;
        for (unsigned int f = 0; f < 2; ++f)
          for (unsigned int k = 0; k < 6; ++k)
          {
            ab += flux[f][k] * mu[f][k];
            ba += other[f][k] * lambda[f][k];
          }
        vh::check_lazy(std::abs(ab - ba) <= 1e-8 * (1. + tau) * (1. + norm6(flux) * norm6(mu) + norm6(other) * norm6(lambda)), "reciprocity", [&] { return at(e, 0) + " " + vh::num(ab) + " versus " + vh::num(ba); });
        vh::event("equilibria");
      }
      vh::event("rigid-motions");
    }
    // Values and error.
    std::array<float, 4> abs{{0.f, 0.25f, (float)(rng.u(0, 64) / 64.), 1.f}};
    const auto vals = ls.bulk_values(abs, lambda, edge, time);
    double big = 1.;
    for (double c : inh.coef)
      big = std::max(big, std::abs(c));
    for (unsigned int q = 0; q < 4; ++q)
    {
      const V3 want = inh.vec(2, abs[q]);
      for (unsigned int k = 0; k < 3; ++k)
        vh::check_lazy(std::abs(vals[k][q] - want[k]) <= 3e-5 * big, "beam-value", [&] { return at(e, 0) + " coordinate " + std::to_string(k) + " at " + vh::num(abs[q]) + ": " + vh::num(vals[k][q]) + " instead of " + vh::num(want[k]); });
      vh::event("values");
    }
    const auto err = ls.errors(lambda, edge, time);
    double w2 = 0, mag = 0;
    const Rule& gr = gauss(p + 4);
    const V3 d = beam.b - beam.a;
    for (size_t q = 0; q < gr.x.size(); ++q)
    {
      const V3 uh = inh.vec(2, gr.x[q]), ua = u_(beam.a + gr.x[q] * d, time);
      w2 += gr.w[q] * std::sqrt(dot(d, d)) * dot(uh - ua, uh - ua);
      mag += gr.w[q] * std::sqrt(dot(d, d)) * (dot(uh, uh) + dot(ua, ua));
    }
    vh::check_lazy(std::abs(err[0] - w2) <= 1e-7 * mag + 1e-12, "error-value", [&] { return at(e, 0) + " " + vh::num(err[0]) + " instead of " + vh::num(w2) + " at time " + vh::num(time); });
    vh::event("errors");
    vh::event("hyperedges");
    if (props)
      vh::event("beams-with-properties");
  }
  vh::state(vh::mix(vh::mix(w.dom.hash, tau), time + 100. * ref));
}
VH_SCENARIO(beam_hyperedges)
{
  switch (rng.i(0, 2))
  {
    case 0:
      return hyperedges<1>(rng);
    case 1:
      return hyperedges<2>(rng);
    default:
      return hyperedges<3>(rng);
  }
}
#endif
#if SUB == 0 || SUB == 2
// Whole networks: the assembled system is symmetric and definite, reproduces rigid motions, and its
// solution balances forces and moments at every free node.
template <unsigned int p>
static void networks(vh::Rng& rng)
{
  typedef LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 4, Par> LS;
  const double tau = rng.u(1, 16) / 4.;
  Network w = network(rng, 5, true);
  const bool props = rng.coin(2);
  const std::string name = write_network<LS>(rng, w, props);
  GlobalLoop::Elliptic<Topology::File<1, 3>, Geometry::File<1, 3>, NodeDescriptor::File<1, 3>, LS> problem(name, tau);
  const unsigned int ref = rng.u(1, 2);
  if (ref > 1)
    problem.set_refinement(ref);
  const double time = draw_time(rng);
  const V3 c{draw_len(rng), draw_len(rng), draw_len(rng)}, om{draw_len(rng), draw_len(rng), draw_len(rng)};
  n_ = m_ = rigid({0, 0, 0}, {0, 0, 0});
  gu_ = u_ = rigid(c, om);
  gr_ = r_ = rigid(-1. * om, {0, 0, 0});
  const size_t n = problem.size_of_system();
  const auto A = dense_matrix([&](const V& x) { return problem.trace_to_flux(x, time); }, n);
  double big = 0;
  std::vector<bool> fixed(n, true);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
    {
      big = std::max(big, std::abs(A[i][j]));
      if (A[i][j] != 0)
        fixed[i] = false;
    }
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j)
      if (!fixed[i] && !fixed[j])
        vh::check_lazy(std::abs(A[i][j] - A[j][i]) <= 1e-9 * (1. + tau) * (1. + big), "network-symmetric", [&] { return "entries " + std::to_string(i) + "," + std::to_string(j) + ": " + vh::num(A[i][j]) + " and " + vh::num(A[j][i]); });
  vh::event("matrices");
  for (int k = 0; k < 3; ++k)
  {
    V x(n);
    double q = 0;
    for (size_t i = 0; i < n; ++i)
      x[i] = fixed[i] ? 0. : rng.i(-8, 8) / 4.;
    const V y = problem.trace_to_flux(x, time);
    double s = 0;
    for (size_t i = 0; i < n; ++i)
    {
      q += x[i] * y[i];
      s += std::abs(x[i] * y[i]);
    }
    vh::check_lazy(q <= 1e-9 * s, "network-definite", [&] { return vh::num(q) + " of " + vh::num(s); });
  }
  V lambda;
  if (!solve_problem(problem, time, lambda))
    return;
  const auto err = problem.errors(lambda, time);
  double size = 1.;
  for (double x : lambda)
    size = std::max(size, std::abs(x));
  vh::check_lazy(std::abs(err[0]) <= 1e-6 * size * (1. + tau), "rigid-solution", [&] { return "error " + vh::num(err[0]) + " tau " + vh::num(tau) + " of a network with " + std::to_string(w.beams.size()) + " beams"; });
  // The error of the problem is the L2 norm on the whole network.
  double length = 0;
  for (auto& b : w.beams)
    length += std::sqrt(dot(b.b - b.a, b.b - b.a));
  shift_ = rng.pick<double>({0.5, -2., 3.});
  const double want = std::abs(shift_) * std::sqrt(5.25 * length), got = problem.errors(lambda, time)[0];
  vh::check_lazy(std::abs(got - want) <= 1e-5 * size * (1. + tau) * (1. + want), "error-norm", [&] { return vh::num(got) + " instead of " + vh::num(want); });
  shift_ = 0.;
  vh::event("error-norms");
  vh::event("networks");
  if (props)
    vh::event("networks-with-properties");
  vh::state(vh::mix(vh::mix(w.dom.hash, tau), time + 100. * ref));
}
VH_SCENARIO(beam_networks)
{
  if (rng.coin(2))
    return networks<1>(rng);
  return networks<2>(rng);
}
#endif
VH_MAIN
