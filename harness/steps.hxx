// Equations of a theta step of the diffusion equation or of an implicit Euler step of the biharmonic
// equation (BIHARMONIC), evaluated with the data inv_coef, f_, g_, gl_ of the including file.
// ------------------------------------------------------------------------------ local state
// What a hyperedge has to remember: solution, flux, skeletal unknowns of the last time step.
template <unsigned int d, typename L>
struct State
{
  std::vector<LocalPoly<d>> v;  // Components: flux, solution.
  L lambda;
  double time;
  double size = 0;  // Size of values.
};
template <unsigned int d, unsigned int N, typename L, typename Vals>
static State<d, L> remember(const Cell<d>& c, unsigned int p, const Vals& v, const L& lambda, double time)
{
  State<d, L> s{{}, lambda, time};
  const Quad<d, N> Q(c);
  for (auto& x : v)
  {
    s.v.emplace_back(c, Q, p, x);
    for (double y : x)
      s.size = std::max(s.size, std::abs(y));
  }
  return s;
}
// Moments with face test functions of the numerical flux q.n + tau (u - lambda).
template <unsigned int d, unsigned int N, typename L>
static Acc flux_moment(const Cell<d>& c, const Quad<d, N>& Q, const Basis<d>& B, const State<d, L>& s, double tau, unsigned int f, unsigned int j)
{
  Acc a;
  for (auto& pt : Q.face[f])
  {
    const double test = pt.w * B.face_val(j, f, pt.xi);
    for (unsigned int k = 0; k < d; ++k)
      a.add(test * s.v[k].at(pt.xi) * c.n[f][k], test * s.size);
    a.add(test * tau * s.v[d].at(pt.xi), test * tau * s.size);
    a.add(-test * tau * trace(s.lambda, B, f, pt.xi));
  }
  return a;
}
#ifndef BIHARMONIC
// (1/kappa q, r) - (u, div r) + <hat, r.n> = 0 and
// (u, phi) + theta dt F(now)(phi) = (u_old, phi) - (1 - theta) dt F(old)(phi),
// F = -(q, grad phi) + <q.n + tau (u - hat), phi> - (f, phi).
template <unsigned int d, unsigned int p, unsigned int N, typename L>
static void step_equations(const Cell<d>& c, const State<d, L>& now, const State<d, L>& old, const L& flux, const std::array<bool, 2 * d>& dir, double tau, double theta, double dt, size_t e, double mass = 1.)
{
  const Quad<d, N> Q(c);
  const Basis<d> B{p};
  auto hat = [&](const State<d, L>& s, unsigned int f, const auto& pt) { return trace(s.lambda, B, f, pt.xi) + (dir[f] ? g_(pt.x, s.time) : 0.); };
  for (unsigned int i = 0; i < B.n(); ++i)
  {
    for (unsigned int k = 0; k < d; ++k)
    {
      Acc a;
      for (auto& pt : Q.vol)
      {
        const double phi = B.val(i, pt.xi), der = B.grad(i, pt.xi, c)[k], co = inv_coef(pt.x, now.time);
        a.add(pt.w * co * now.v[k].at(pt.xi) * phi, pt.w * co * now.size * phi);
        a.add(-pt.w * now.v[d].at(pt.xi) * der, pt.w * now.size * der);
      }
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          a.add(pt.w * hat(now, f, pt) * c.n[f][k] * B.val(i, pt.xi));
      balance(a, "flux-equation", at(e, i));
    }
    Acc a;
    for (auto& pt : Q.vol)
    {
      const double test = pt.w * B.val(i, pt.xi);
      a.add(mass * test * now.v[d].at(pt.xi), mass * test * now.size);
      a.add(-mass * test * old.v[d].at(pt.xi), mass * test * old.size);
    }
    for (auto* s : {&now, &old})
    {
      const double fac = dt * (s == &now ? theta : 1. - theta);
      if (fac == 0)
        continue;
      for (auto& pt : Q.vol)
      {
        const auto gr = B.grad(i, pt.xi, c);
        for (unsigned int k = 0; k < d; ++k)
          a.add(-fac * pt.w * s->v[k].at(pt.xi) * gr[k], fac * pt.w * s->size * gr[k]);
        a.add(-fac * pt.w * f_(pt.x, s->time) * B.val(i, pt.xi));
      }
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
        {
          const double test = fac * pt.w * B.val(i, pt.xi);
          for (unsigned int k = 0; k < d; ++k)
            a.add(test * s->v[k].at(pt.xi) * c.n[f][k], test * s->size);
          a.add(test * tau * s->v[d].at(pt.xi), test * tau * s->size);
          a.add(-test * tau * hat(*s, f, pt));
        }
    }
    balance(a, "time-step-equation", at(e, i));
  }
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int j = 0; j < B.n_face(); ++j)
    {
      if (dir[f])
        vh::check_eq(flux[f][j], 0., "flux-at-dirichlet-face", at(e, f));
      else
      {
        Acc a;
        const Acc b = flux_moment<d, N>(c, Q, B, now, tau, f, j), o = flux_moment<d, N>(c, Q, B, old, tau, f, j);
        a.add(theta * b.s, theta * b.m);
        a.add((1. - theta) * o.s, (1. - theta) * o.m);
        a.add(-flux[f][j]);
        balance(a, "numerical-flux", at(e, f));
      }
      vh::event("fluxes");
    }
}
#else
// The solver reports p = -grad u and u; w follows from its definition, q = -grad w from its flux equation.
template <unsigned int d, unsigned int p, unsigned int N, typename L>
static void step_equations(const Cell<d>& c, const State<d, L>& now, const State<d, L>& old, const L& flux, const std::array<bool, 2 * d>& dir, const std::array<bool, 2 * d>& dirl, double tau, double dt, size_t e, double mass = 1.)
{
  const Quad<d, N> Q(c);
  const Basis<d> B{p};
  const unsigned int nb = B.n_face(), n = B.n();
  const double time = now.time;
  auto hat = [&](unsigned int f, const auto& pt) { return trace(now.lambda, B, f, pt.xi) + (dir[f] ? g_(pt.x, time) : 0.); };
  auto hatl = [&](unsigned int f, const auto& pt) { return trace(now.lambda, B, f, pt.xi, nb) + (dirl[f] ? gl_(pt.x, time) : 0.); };
  std::vector<V> M(n, V(n, 0.));
  V b(n), wc;
  double wbig = 0, qbig = 0;
  for (unsigned int i = 0; i < n; ++i)
  {
    Acc a;
    for (auto& pt : Q.vol)
    {
      const auto gr = B.grad(i, pt.xi, c);
      for (unsigned int k = 0; k < d; ++k)
        a.add(-pt.w * now.v[k].at(pt.xi) * gr[k], pt.w * now.size * gr[k]);
      for (unsigned int j = 0; j < n; ++j)
        M[i][j] += pt.w * inv_coef(pt.x, time) * B.val(i, pt.xi) * B.val(j, pt.xi);
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (auto& pt : Q.face[f])
      {
        const double test = pt.w * B.val(i, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          a.add(test * now.v[k].at(pt.xi) * c.n[f][k], test * now.size);
        a.add(test * tau * now.v[d].at(pt.xi), test * tau * now.size);
        a.add(-test * tau * hat(f, pt));
      }
    b[i] = a.s;
    wbig += a.m / c.vol;
  }
  if (!dense_solve(M, b, wc))
    return;
  auto lin = [&](const V& co, const std::array<double, d>& xi) {
    double s = 0;
    for (unsigned int i = 0; i < n; ++i)
      s += co[i] * B.val(i, xi);
    return s;
  };
  std::array<V, d> qc;
  for (unsigned int k = 0; k < d; ++k)
    for (unsigned int i = 0; i < n; ++i)
    {
      Acc a;
      for (auto& pt : Q.vol)
        a.add(pt.w * lin(wc, pt.xi) * B.grad(i, pt.xi, c)[k], pt.w * wbig * B.grad(i, pt.xi, c)[k]);
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          a.add(-pt.w * hatl(f, pt) * c.n[f][k] * B.val(i, pt.xi));
      qc[k].push_back(a.s / c.vol);
      qbig += a.m / c.vol;
    }
  for (unsigned int i = 0; i < n; ++i)
  {
    for (unsigned int k = 0; k < d; ++k)
    {
      Acc a;
      for (auto& pt : Q.vol)
      {
        const double phi = B.val(i, pt.xi), der = B.grad(i, pt.xi, c)[k];
        a.add(pt.w * now.v[k].at(pt.xi) * phi, pt.w * now.size * phi);
        a.add(-pt.w * now.v[d].at(pt.xi) * der, pt.w * now.size * der);
      }
      for (unsigned int f = 0; f < 2 * d; ++f)
        for (auto& pt : Q.face[f])
          a.add(pt.w * hat(f, pt) * c.n[f][k] * B.val(i, pt.xi));
      balance(a, "flux-equation", at(e, i));
    }
    Acc a;
    for (auto& pt : Q.vol)
    {
      const auto gr = B.grad(i, pt.xi, c);
      const double test = pt.w * B.val(i, pt.xi);
      a.add(mass * test * now.v[d].at(pt.xi), mass * test * now.size);
      a.add(-mass * test * old.v[d].at(pt.xi), mass * test * old.size);
      for (unsigned int k = 0; k < d; ++k)
        a.add(-dt * pt.w * lin(qc[k], pt.xi) * gr[k], dt * pt.w * qbig * gr[k]);
      a.add(-dt * test * f_(pt.x, time));
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (auto& pt : Q.face[f])
      {
        const double test = dt * pt.w * B.val(i, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          a.add(test * lin(qc[k], pt.xi) * c.n[f][k], test * qbig);
        a.add(test * tau * lin(wc, pt.xi), test * tau * wbig);
        a.add(-test * tau * hatl(f, pt));
      }
    balance(a, "time-step-equation", at(e, i), 1e-6);
  }
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int j = 0; j < nb; ++j)
    {
      Acc a = flux_moment<d, N>(c, Q, B, now, tau, f, j), l;
      for (auto& pt : Q.face[f])
      {
        const double test = pt.w * B.face_val(j, f, pt.xi);
        for (unsigned int k = 0; k < d; ++k)
          l.add(test * lin(qc[k], pt.xi) * c.n[f][k], test * qbig);
        l.add(test * tau * lin(wc, pt.xi), test * tau * wbig);
        l.add(-test * tau * trace(now.lambda, B, f, pt.xi, nb));
      }
      if (dir[f])
        vh::check_eq(flux[f][j], 0., "flux-at-dirichlet-face", at(e, f));
      else
      {
        l.add(-flux[f][j]);
        balance(l, "numerical-flux-of-laplacian", at(e, f), 1e-6);
      }
      if (dirl[f])
        vh::check_eq(flux[f][nb + j], 0., "flux-at-laplacian-dirichlet-face", at(e, f));
      else
      {
        a.add(-flux[f][nb + j]);
        balance(a, "numerical-flux", at(e, f));
      }
      vh::event("fluxes");
    }
}
#endif
template <unsigned int d, unsigned int p, typename L>
static void initial_trace(const Cell<d>& c, const L& lambda, const Poly& want, const std::array<bool, 2 * d>& dir, unsigned int offset, double time, size_t e)
{
  const Quad<d, p + 3> Q(c);
  const Basis<d> B{p};
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int j = 0; j < B.n_face(); ++j)
      if (dir[f])
        vh::check_eq(lambda[f][offset + j], 0., "initial-trace-at-dirichlet-face", at(e, f));
      else
      {
        Acc a;
        for (auto& pt : Q.face[f])
          a.add(pt.w / c.area[f] * want(pt.x, time) * B.face_val(j, f, pt.xi));
        a.add(-lambda[f][offset + j]);
        balance(a, "initial-trace", at(e, f), 1e-9);
      }
}
