// Monitor: conjugate gradient contract on a counting, recording operator; oracle is a reference
// recurrence in extended precision plus the true residual.
#include "hh.hxx"
#include <HyperHDG/sparse_la.hxx>
using LD = long double;

template <typename T>
struct Operator
{
  std::vector<std::vector<LD>> a;
  long long applied = 0;
  bool sizes_ok = true;
  std::vector<T> trace_to_flux(const std::vector<T>& x)
  {
    ++applied;
    sizes_ok = sizes_ok && x.size() == a.size();
    std::vector<T> y(a.size());
    for (size_t i = 0; i < a.size(); ++i)
    {
      LD s = 0;
      for (size_t j = 0; j < a.size(); ++j)
        s += a[i][j] * x[j];
      y[i] = (T)s;
    }
    return y;
  }
};
// Residual norms of the exact recurrence after 0, 1, ... steps.
static std::vector<LD> reference(const std::vector<std::vector<LD>>& a, const std::vector<LD>& b, unsigned int steps)
{
  const size_t n = b.size();
  std::vector<LD> r = b, d = b, x(n, 0), z(n);
  LD rr = 0;
  for (LD v : r)
    rr += v * v;
  std::vector<LD> out{std::sqrt(rr)};
  for (unsigned int k = 0; k < steps; ++k)
  {
    if (rr < 1e-60L)
    {
      out.push_back(0);
      continue;
    }
    LD dz = 0;
    for (size_t i = 0; i < n; ++i)
    {
      z[i] = 0;
      for (size_t j = 0; j < n; ++j)
        z[i] += a[i][j] * d[j];
      dz += z[i] * d[i];
    }
    const LD al = rr / dz;
    LD r2 = 0;
    for (size_t i = 0; i < n; ++i)
    {
      r[i] -= al * z[i];
      r2 += r[i] * r[i];
    }
    const LD be = r2 / rr;
    for (size_t i = 0; i < n; ++i)
      d[i] = r[i] + be * d[i];
    rr = r2;
    out.push_back(std::sqrt(rr));
  }
  return out;
}
// Random orthogonal basis by Gram--Schmidt.
static std::vector<std::vector<LD>> spd(vh::Rng& rng, unsigned int n, const std::vector<LD>& eig)
{
  std::vector<std::vector<LD>> q(n, std::vector<LD>(n));
  for (unsigned int k = 0; k < n; ++k)
  {
    for (;;)
    {
      for (auto& v : q[k])
        v = rng.d(-1, 1);
      for (int rep = 0; rep < 2; ++rep)
        for (unsigned int l = 0; l < k; ++l)
        {
          LD s = 0;
          for (unsigned int i = 0; i < n; ++i)
            s += q[k][i] * q[l][i];
          for (unsigned int i = 0; i < n; ++i)
            q[k][i] -= s * q[l][i];
        }
      LD nn = 0;
      for (LD v : q[k])
        nn += v * v;
      if (nn > 1e-3L)
      {
        for (auto& v : q[k])
          v /= std::sqrt(nn);
        break;
      }
    }
  }
  std::vector<std::vector<LD>> a(n, std::vector<LD>(n, 0));
  for (unsigned int k = 0; k < n; ++k)
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        a[i][j] += eig[k] * q[k][i] * q[k][j];
  return a;
}
template <typename T>
void cg_case(vh::Rng& rng)
{
  const bool dbl = std::is_same_v<T, double>;
  const unsigned int n = rng.coin(4) ? 1 : rng.u(2, 14);
  const unsigned int distinct = rng.u(1, std::min(n, dbl ? 6u : 3u));
  std::vector<LD> levels(distinct), eig(n);
  for (auto& l : levels)
    l = rng.d(0.5, dbl ? 20. : 4.);
  for (auto& e : eig)
    e = levels[rng.u(0, distinct - 1)];
  Operator<T> op;
  op.a = spd(rng, n, eig);
  const double mag = rng.coin(3) ? std::pow(10., rng.i(dbl ? -8 : -2, 3)) : 1.;
  std::vector<T> b(n);
  std::vector<LD> bl(n);
  LD nb = 0;
  for (unsigned int i = 0; i < n; ++i)
  {
    b[i] = (T)(mag * rng.d(-1, 1));
    bl[i] = b[i];
    nb += bl[i] * bl[i];
  }
  nb = std::sqrt(nb);
  const std::vector<T> b0 = b;
  bool default_tol = dbl && rng.coin(3) && nb < 1e3;
  T tol = default_tol ? (T)1e-9 : (T)(std::pow(10., rng.d(dbl ? -9 : -4, -1)) * std::max(1., mag));
  const unsigned int limit_in = rng.coin() ? 0 : rng.u(1, n + 2);
  const unsigned int limit = limit_in == 0 ? n : limit_in;
  const std::vector<LD> hist = reference(op.a, bl, limit + 2);
  std::vector<T> x;
  int t;
  if (default_tol)
  {
    if (limit_in == 0)
      t = vh::thrown<SparseLA::SolveException>([&] { x = SparseLA::conjugate_gradient(b, op); });
    else
      t = vh::thrown<SparseLA::SolveException>([&] { x = SparseLA::conjugate_gradient(b, op, limit_in); });
  }
  else
    t = vh::thrown<SparseLA::SolveException>([&] { x = SparseLA::conjugate_gradient(b, op, limit_in, tol); });
  vh::check(t != 2, "cg-foreign-exception");
  vh::check(b == b0, "cg-modifies-rhs");
  vh::check(op.sizes_ok, "cg-vector-size");
  vh::check_lazy(op.applied <= (long long)limit, "cg-iteration-limit", [&] { return std::to_string(op.applied) + " applications, limit " + std::to_string(limit) + " n=" + std::to_string(n); });
  const LD noise = (dbl ? 1e-13L : 2e-5L) * nb;
  // First iteration at which the tolerance is clearly met, clearly not met before.
  int sure_ok = -1;
  bool sure_fail = true;
  for (unsigned int k = 0; k <= limit; ++k)
  {
    if (hist[k] + noise < 0.5L * tol && sure_ok < 0)
      sure_ok = k;
    if (hist[k] - noise < 2 * (LD)tol)
      sure_fail = false;
  }
  if (sure_ok >= 0)
    vh::check_lazy(t == 0 && op.applied <= sure_ok, "cg-must-converge", [&] { return "n=" + std::to_string(n) + " limit " + std::to_string(limit_in) + " tol " + vh::num(tol) + " reference converged at " + std::to_string(sure_ok) + " thrown " + std::to_string(t) + " applied " + std::to_string(op.applied); });
  if (sure_fail)
    vh::check_lazy(t == 1, "cg-must-throw", [&] { return "n=" + std::to_string(n) + " limit " + std::to_string(limit_in) + " tol " + vh::num(tol) + " best residual " + vh::num((double)hist[limit]); });
  if (t == 0)
  {
    vh::check_eq(x.size(), (size_t)n, "cg-solution-size");
    LD res = 0;
    for (unsigned int i = 0; i < n && x.size() == n; ++i)
    {
      LD s = -bl[i];
      for (unsigned int j = 0; j < n; ++j)
        s += op.a[i][j] * x[j];
      res += s * s;
    }
    vh::check_lazy(std::sqrt(res) <= 1.01L * tol + 100 * noise, "cg-residual", [&] { return "n=" + std::to_string(n) + " tol " + vh::num(tol) + " residual " + vh::num((double)std::sqrt(res)); });
    if (nb < (LD)tol * 0.99L)
    {
      vh::check_eq(op.applied, 0, "cg-small-rhs-applied");
      for (T v : x)
        vh::check_eq(v, (T)0, "cg-small-rhs-solution");
      vh::event("cg-trivial");
    }
    else
      vh::event("cg-converged");
  }
  else
    vh::event("cg-threw");
  uint64_t h = vh::mix(vh::mix(7, n), limit);
  for (T v : b)
    h = vh::mix(h, v);
  vh::state(h);
  vh::sample("cg n=" + std::to_string(n) + " distinct=" + std::to_string(distinct) + " tol=" + vh::num(tol) + " limit=" + std::to_string(limit_in) + " outcome=" + std::to_string(t) + " applied=" + std::to_string(op.applied));
}
VH_SCENARIO(cg)
{
  cg_case<double>(rng);
  cg_case<float>(rng);
}
// Chains: many iterations are needed, more than there are different numbers in short systems.
template <typename T>
struct Chain
{
  std::vector<T> diag, off;
  long long applied = 0;
  std::vector<T> trace_to_flux(const std::vector<T>& x)
  {
    ++applied;
    std::vector<T> y(x.size());
    apply(x, y);
    return y;
  }
  template <typename X>
  void apply(const X& x, X& y) const
  {
    for (size_t i = 0; i < x.size(); ++i)
    {
      y[i] = diag[i] * x[i];
      if (i > 0)
        y[i] += off[i - 1] * x[i - 1];
      if (i + 1 < x.size())
        y[i] += off[i] * x[i + 1];
    }
  }
};
VH_SCENARIO_W(cg_long, 0.2)
{
  const unsigned int n = rng.coin(4) ? rng.u(1000, 5000) : rng.u(40, 400);
  Chain<double> op;
  const double shift = std::pow(10., rng.d(-4, -1));
  double left = rng.coin() ? 1. : rng.d(0.5, 2.);
  const bool even = rng.coin();
  for (unsigned int i = 0; i < n; ++i)
  {
    const double right = even ? left : rng.d(0.5, 2.);
    op.diag.push_back(left + right + shift);
    op.off.push_back(-right);
    left = right;
  }
  std::vector<double> b(n), x;
  std::vector<LD> bl(n);
  LD nb = 0;
  for (unsigned int i = 0; i < n; ++i)
    bl[i] = b[i] = rng.d(-1, 1), nb += bl[i] * bl[i];
  nb = std::sqrt(nb);
  const double tol = nb * std::pow(10., rng.d(-6, -2));
  // Exact method in extended precision.
  unsigned int needed = 0;
  {
    std::vector<LD> r = bl, d = bl, z(n);
    LD rr = nb * nb;
    for (; rr >= (LD)tol * tol && needed < 4 * n; ++needed)
    {
      op.apply(d, z);
      LD dz = 0, r2 = 0;
      for (unsigned int i = 0; i < n; ++i)
        dz += d[i] * z[i];
      const LD al = rr / dz;
      for (unsigned int i = 0; i < n; ++i)
        r[i] -= al * z[i], r2 += r[i] * r[i];
      for (unsigned int i = 0; i < n; ++i)
        d[i] = r[i] + r2 / rr * d[i];
      rr = r2;
    }
  }
  const unsigned int limit = needed + needed / 5 + 5;
  const int t = vh::thrown<SparseLA::SolveException>([&] { x = SparseLA::conjugate_gradient(b, op, limit, tol); });
  vh::check_lazy(t == 0, "cg-long-must-converge", [&] { return "n=" + std::to_string(n) + " needs " + std::to_string(needed) + " tol " + vh::num(tol); });
  vh::check(op.applied <= limit, "cg-long-limit");
  if (t == 0 && vh::check(x.size() == n, "cg-long-size"))
  {
    std::vector<LD> xl(x.begin(), x.end()), z(n);
    op.apply(xl, z);
    LD res = 0;
    for (unsigned int i = 0; i < n; ++i)
      res += (z[i] - bl[i]) * (z[i] - bl[i]);
    vh::check_lazy(std::sqrt(res) <= 1.01L * tol + 1e-9L * nb, "cg-long-residual", [&] { return vh::num((double)std::sqrt(res)) + " for " + vh::num(tol); });
  }
  if (getenv("VH_RATES"))
    fprintf(stderr, "RATE %u %lld\n", needed, op.applied);
  vh::event("cg-long");
  vh::event("cg-long-iterations", op.applied);
  vh::state(vh::mix(vh::mix(n, shift), tol));
}
// Operators for which the method cannot succeed: no vector that is not a solution is ever returned.
VH_SCENARIO(cg_hostile)
{
  const unsigned int n = rng.u(1, 8);
  Operator<double> op;
  const int kind = rng.i(0, 3);
  std::vector<LD> eig(n);
  for (auto& e : eig)
    e = kind == 0 ? 0. : rng.d(0.5, 4.);
  op.a = spd(rng, n, eig);
  if (kind == 1)  // Indefinite.
    for (unsigned int i = 0; i < n; i += 2)
      for (unsigned int j = 0; j < n; ++j)
        op.a[i][j] = -op.a[i][j];
  if (kind == 2)
    op.a[rng.u(0, n - 1)][rng.u(0, n - 1)] = std::numeric_limits<double>::quiet_NaN();
  if (kind == 3)
    for (auto& r : op.a)
      for (auto& v : r)
        v = rng.d(-1, 1);
  std::vector<double> b(n), x;
  for (auto& v : b)
    v = rng.d(0.1, 1);
  const unsigned int limit = rng.u(1, 2 * n);
  const int t = vh::thrown<SparseLA::SolveException>([&] { x = SparseLA::conjugate_gradient(b, op, limit, 1e-7); });
  vh::check(t != 2, "cg-hostile-foreign-exception");
  vh::check(op.applied <= limit, "cg-hostile-limit");
  if (t == 0)
  {
    double res = 0;
    for (unsigned int i = 0; i < n; ++i)
    {
      LD s = -b[i];
      for (unsigned int j = 0; j < n; ++j)
        s += op.a[i][j] * x[j];
      res += (double)(s * s);
    }
    // Growth of the intermediate iterates limits the accuracy of the recurrence.
    vh::check_lazy(kind >= 1 && kind != 2 ? std::isfinite(res) : std::sqrt(res) < 1e-6, "cg-hostile-residual", [&] { return "kind " + std::to_string(kind) + " residual " + vh::num(std::sqrt(res)); });
  }
  if (kind == 0 || kind == 2)
    vh::check_eq(t, 1, "cg-hostile-no-exception", "kind " + std::to_string(kind));
  vh::event("cg-hostile");
  vh::state(vh::mix(vh::mix(vh::mix(9, n), kind), b[0]));
}
template <typename T>
void vectors(vh::Rng& rng)
{
  const unsigned int n = rng.coin(6) ? 0 : rng.u(1, 40);
  std::vector<T> a(n), b(n);
  LD ip = 0, mag = 0, n2 = 0;
  const LD eps = std::numeric_limits<T>::epsilon();
  for (unsigned int i = 0; i < n; ++i)
  {
    a[i] = hh::rnd<T>(rng);
    b[i] = hh::rnd<T>(rng);
    ip += (LD)a[i] * b[i];
    mag += std::abs((LD)a[i] * b[i]);
    n2 += (LD)a[i] * a[i];
  }
  const auto a0 = a, b0 = b;
  const T f = rng.coin(4) ? (T)1 : hh::rnd<T>(rng), g = rng.coin(4) ? (T)0 : hh::rnd<T>(rng);
  vh::check_lazy(std::abs((LD)SparseLA::inner_product(a, b) - ip) <= (n + 4) * eps * mag + 1e-40L, "inner-product", [&] { return "n=" + std::to_string(n); });
  vh::check_lazy(std::abs((LD)SparseLA::norm_2(a) - std::sqrt(n2)) <= (n + 4) * eps * std::sqrt(n2) + 1e-20L, "norm-2", [&] { return "n=" + std::to_string(n); });
  auto want = [&](const std::vector<T>& got, const char* key, const std::vector<T>& u, const std::vector<T>& v) {
    bool ok = got.size() == n;
    for (unsigned int i = 0; ok && i < n; ++i)
    {
      const LD x = (LD)f * u[i], y = (LD)g * v[i];
      ok = std::abs((LD)got[i] - (x + y)) <= 4 * eps * (std::abs(x) + std::abs(y)) + 1e-40L;
    }
    vh::check_lazy(ok, key, [&] { return "n=" + std::to_string(n) + " factors " + vh::num(f) + " " + vh::num(g); });
  };
  want(SparseLA::linear_combination(f, a, g, b), "linear-combination", a0, b0);
  std::vector<T> r(n, (T)17);
  SparseLA::linear_combination(f, a, g, b, r);
  want(r, "linear-combination-out", a0, b0);
  vh::check(a == a0 && b == b0, "linear-combination-modifies");
  SparseLA::linear_combination(f, a, g, b, a);
  want(a, "linear-combination-alias-left", a0, b0);
  a = a0;
  SparseLA::linear_combination(f, a, g, b, b);
  want(b, "linear-combination-alias-right", a0, b0);
  b = b0;
  SparseLA::linear_combination(f, a, g, a, a);
  want(a, "linear-combination-alias-both", a0, a0);
  vh::event("vector-cases");
  uint64_t h = 3;
  for (T v : a0)
    h = vh::mix(h, v);
  vh::state(h);
}
VH_SCENARIO_W(vectors, 3)
{
  vectors<double>(rng);
  vectors<float>(rng);
}
VH_MAIN
