// Monitor: solution of dense systems (PART 1) and QR decompositions / determinants (PART 2).
#include "hh.hxx"
#ifndef VH_ASAN
#include "alloc.hxx"
#endif
using namespace hh;
using LD = long double;
typedef std::vector<LD> Vec;  // Column-major matrix.

template <unsigned int r, unsigned int c, typename T>
Vec fl(const SmallMat<r, c, T>& m)
{
  return Vec(m.data().begin(), m.data().end());
}
static std::string show(const Vec& v)
{
  std::string s = "[";
  for (LD x : v)
    s += vh::num((double)x) + " ";
  return s + "]";
}
static uint64_t hv(const Vec& v, uint64_t h = 7)
{
  for (LD x : v)
    h = vh::mix(h, (double)x);
  return h;
}
static LD maxabs(const Vec& v)
{
  LD m = 0;
  for (LD x : v)
    m = std::max(m, std::abs(x));
  return m;
}
// Determinant by Gaussian elimination with pivoting in extended precision.
static LD det_ref(Vec a, unsigned int n)
{
  LD d = 1;
  for (unsigned int k = 0; k < n; ++k)
  {
    unsigned int p = k;
    for (unsigned int i = k + 1; i < n; ++i)
      if (std::abs(a[k * n + i]) > std::abs(a[k * n + p]))
        p = i;
    if (a[k * n + p] == 0)
      return 0;
    if (p != k)
    {
      d = -d;
      for (unsigned int j = 0; j < n; ++j)
        std::swap(a[j * n + p], a[j * n + k]);
    }
    d *= a[k * n + k];
    for (unsigned int i = k + 1; i < n; ++i)
    {
      const LD f = a[k * n + i] / a[k * n + k];
      for (unsigned int j = k; j < n; ++j)
        a[j * n + i] -= f * a[j * n + k];
    }
  }
  return d;
}
// Well-posed matrices of several shapes; entries are representable in T.
template <typename T>
static std::vector<T> gen(vh::Rng& rng, unsigned int r, unsigned int c)
{
  std::vector<T> a(r * c);
  const int kind = rng.i(0, 7);
  // Also very large or small matrices, as long as determinants remain representable.
  const int e = std::min(60, (std::is_same_v<T, float> ? 24 : 240) / (int)std::max(r, c));
  double scale = rng.coin(4) ? std::pow(10., rng.i(-std::min(6, e), std::min(6, e))) : 1.;
  if (rng.coin(8))
    scale = std::pow(10., rng.i(-e, e));
  for (auto& x : a)
    x = (T)rng.d(-1, 1);
  auto at = [&](unsigned int i, unsigned int j) -> T& { return a[j * r + i]; };
  if (kind == 0)  // Leading zeros: pivoting is necessary.
    at(0, 0) = 0;
  else if (kind == 1)  // Signed permutation with scaling.
  {
    for (auto& x : a)
      x = 0;
    std::vector<unsigned int> p(r);
    for (unsigned int i = 0; i < r; ++i)
      p[i] = i;
    for (unsigned int i = r; i > 1; --i)
      std::swap(p[i - 1], p[rng.u(0, i - 1)]);
    for (unsigned int j = 0; j < c && j < r; ++j)
      at(p[j], j) = (T)(rng.coin() ? -1. : 1.) * (T)rng.u(1, 4);
  }
  else if (kind == 2)  // Upper triangular: no reflections needed.
  {
    for (unsigned int j = 0; j < c; ++j)
      for (unsigned int i = j + 1; i < r; ++i)
        at(i, j) = 0;
  }
  else if (kind == 3)  // Small integers.
    for (auto& x : a)
      x = (T)rng.i(-3, 3);
  else if (kind == 4)  // Diagonally dominant.
    for (unsigned int i = 0; i < r && i < c; ++i)
      at(i, i) += (T)(r + c);
  else if (kind == 5)  // Identity or its negative.
  {
    for (auto& x : a)
      x = 0;
    for (unsigned int i = 0; i < r && i < c; ++i)
      at(i, i) = rng.coin() ? (T)1 : (T)-1;
  }
  for (auto& x : a)
    x = (T)(x * scale);
  return a;
}
template <unsigned int r, unsigned int c, typename T>
static SmallMat<r, c, T> mat(const std::vector<T>& a)
{
  SmallMat<r, c, T> m;
  for (unsigned int k = 0; k < r * c; ++k)
    m[k] = a[k];
  return m;
}

#if PART == 1
static void check_solution(const Vec& A, const Vec& B, const Vec& X, unsigned int n, unsigned int m, LD eps, const char* key)
{
  bool ok = true;
  LD na = 0;
  for (unsigned int i = 0; i < n; ++i)
  {
    LD s = 0;
    for (unsigned int j = 0; j < n; ++j)
      s += std::abs(A[j * n + i]);
    na = std::max(na, s);
  }
  for (unsigned int k = 0; k < m && ok; ++k)
  {
    LD nx = 0, nb = 0;
    for (unsigned int i = 0; i < n; ++i)
    {
      nx = std::max(nx, std::abs(X[k * n + i]));
      nb = std::max(nb, std::abs(B[k * n + i]));
    }
    for (unsigned int i = 0; i < n && ok; ++i)
    {
      LD res = -B[k * n + i];
      for (unsigned int j = 0; j < n; ++j)
        res += A[j * n + i] * X[k * n + j];
      ok = std::isfinite((double)res) && std::abs(res) <= 200 * n * eps * (na * nx + nb);
    }
  }
  vh::check_lazy(ok, key, [&] { return "A=" + show(A) + " b=" + show(B) + " x=" + show(X); });
}
template <unsigned int n, unsigned int m, typename T>
void solve(vh::Rng& rng)
{
  const LD eps = std::numeric_limits<T>::epsilon();
  const auto a0 = mat<n, n, T>(gen<T>(rng, n, n));
  SmallMat<n, m, T> b0;
  for (unsigned int k = 0; k < n * m; ++k)
    b0[k] = (T)rng.val(3.);
  const Vec A = fl(a0), B = fl(b0);
  const LD d = det_ref(A, n), sc = std::pow(maxabs(A), (LD)n);
  const bool regular = std::abs(d) > 1e-3L * sc;
  const bool trivial_singular = maxabs(A) == 0;
  if (!regular && !trivial_singular)
  {
    // Close to singular: either outcome is fine, but operands are untouched.
    vh::event("solve-nearly-singular");
    try
    {
      auto x = b0 / a0;
    }
    catch (Wrapper::LAPACKexception&)
    {
    }
    vh::check(fl(a0) == A && fl(b0) == B, "solve-modifies-const-operand");
    return;
  }
  if (trivial_singular)
    return;
  // Operator with constant operands.
  {
    const auto x = b0 / a0;
    check_solution(A, B, fl(x), n, m, eps, "solve-operator-const");
    vh::check(fl(a0) == A && fl(b0) == B, "solve-modifies-const-operand");
  }
  // Operator with operands that may be overwritten.
  {
    auto a(a0);
    auto b(b0);
    const auto x = b / a;
    check_solution(A, B, fl(x), n, m, eps, "solve-operator");
  }
  // Wrapper on arrays: solution is returned and stored in the right-hand side.
  {
    auto a = a0.data();
    auto b = b0.data();
    const auto x = Wrapper::lapack_solve<n, m, T>(a, b);
    check_solution(A, B, Vec(x.begin(), x.end()), n, m, eps, "solve-wrapper");
    check_solution(A, B, Vec(b.begin(), b.end()), n, m, eps, "solve-wrapper-inplace");
  }
  vh::event("solve-regular");
  vh::state(hv(A, hv(B)));
  vh::sample("solve A=" + show(A) + " b=" + show(B));
}
template <unsigned int n, unsigned int m, typename T>
void singular(vh::Rng& rng)
{
  // Exactly singular with exact elimination: at most one non-zero entry (+-1, +-2) per row.
  SmallMat<n, n, T> a0;
  std::vector<unsigned int> cols(n);
  for (unsigned int i = 0; i < n; ++i)
    cols[i] = i;
  for (unsigned int i = n; i > 1; --i)
    std::swap(cols[i - 1], cols[rng.u(0, i - 1)]);
  const unsigned int bad = rng.u(0, n - 1);
  const bool duplicate = n > 1 && rng.coin();
  for (unsigned int i = 0; i < n; ++i)
    if (i != bad)
      a0(i, cols[i]) = (T)(rng.coin() ? 2 : -1);
    else if (duplicate)
      a0(i, cols[(i + 1) % n]) = 1;  // Column of another row: dependent rows, zero column.
  SmallMat<n, m, T> b0;
  for (unsigned int k = 0; k < n * m; ++k)
    b0[k] = (T)rng.d(-1, 1);
  const Vec A = fl(a0), B = fl(b0);
  SmallMat<n, m, T> x;
  const int t1 = vh::thrown<Wrapper::LAPACKexception>([&] { x = b0 / (const SmallMat<n, n, T>&)a0; });
  vh::check_lazy(t1 == 1, "singular-const-no-exception", [&] { return "A=" + show(A) + " x=" + show(fl(x)); });
  const int t2 = vh::thrown<Wrapper::LAPACKexception>([&] {
    auto a(a0);
    auto b(b0);
    x = b / a;
  });
  vh::check_lazy(t2 == 1, "singular-no-exception", [&] { return "A=" + show(A) + " x=" + show(fl(x)); });
  vh::check(fl(a0) == A && fl(b0) == B, "singular-modifies-const-operand");
  vh::check(vh::thrown<std::exception>([&] {
              auto a = a0.data();
              auto b = b0.data();
              Wrapper::lapack_solve<n, m, T>(a, b);
            }) == 1,
            "singular-not-std-exception");
#ifndef VH_ASAN
  const long long l = vh::leaked([&] {
    for (int k = 0; k < 3; ++k)
      try
      {
        auto a = a0.data();
        auto b = b0.data();
        Wrapper::lapack_solve<n, m, T>(a, b);
      }
      catch (Wrapper::LAPACKexception&)
      {
      }
  });
  vh::check_eq(l, 0, "singular-leaks-memory");
  vh::event("leak-observations");
#endif
  vh::event("solve-singular");
  vh::state(hv(A, hv(B)));
}
VH_SCENARIO(solve)
{
  solve<1, 1, double>(rng);
  solve<2, 1, double>(rng);
  solve<3, 3, double>(rng);
  solve<4, 2, float>(rng);
  solve<5, 1, float>(rng);
  solve<8, 1, double>(rng);
  solve<6, 9, double>(rng);
  solve<2, 4, double>(rng);
  solve<12, 3, double>(rng);
}
VH_SCENARIO_W(solve_large, 0.1)
{
  solve<20, 20, double>(rng);
  solve<33, 1, float>(rng);
  solve<40, 2, double>(rng);
  solve<72, 1, double>(rng);
  singular<36, 1, double>(rng);
  vh::event("large-systems");
}
VH_SCENARIO(singular)
{
  singular<1, 1, double>(rng);
  singular<2, 2, float>(rng);
  singular<3, 1, double>(rng);
  singular<5, 2, double>(rng);
  singular<4, 4, float>(rng);
  singular<9, 1, double>(rng);
}
#else
static LD orth_defect(const Vec& q, unsigned int n)
{
  LD m = 0;
  for (unsigned int i = 0; i < n; ++i)
    for (unsigned int j = 0; j < n; ++j)
    {
      LD s = i == j ? -1 : 0;
      for (unsigned int k = 0; k < n; ++k)
        s += q[i * n + k] * q[j * n + k];
      m = std::max(m, std::abs(s));
    }
  return std::isfinite((double)m) ? m : 1e30L;
}
// max |Q R - A| where R is r x c column-major.
static LD qr_defect(const Vec& q, const Vec& rr, const Vec& a, unsigned int r, unsigned int c)
{
  LD m = 0;
  for (unsigned int i = 0; i < r; ++i)
    for (unsigned int j = 0; j < c; ++j)
    {
      LD s = -a[j * r + i];
      for (unsigned int k = 0; k < r; ++k)
        s += q[k * r + i] * rr[j * r + k];
      if (!std::isfinite((double)s))
        return 1e30L;
      m = std::max(m, std::abs(s));
    }
  return m;
}
static void upper(const Vec& rr, unsigned int r, unsigned int c, const char* key, const Vec& A)
{
  bool ok = true;
  for (unsigned int j = 0; j < c; ++j)
    for (unsigned int i = j + 1; i < r; ++i)
      ok = ok && rr[j * r + i] == 0;
  vh::check_lazy(ok, key, [&] { return "A=" + show(A) + " R=" + show(rr); });
}
static void check_qr(const Vec& q, const Vec& R, const Vec& A, unsigned int r, unsigned int c, LD eps, const std::string& key)
{
  const LD tol = 200 * r * eps;
  vh::check_lazy(orth_defect(q, r) <= tol, key + "-orthogonal", [&] { return "A=" + show(A) + " Q=" + show(q); });
  vh::check_lazy(qr_defect(q, R, A, r, c) <= tol * maxabs(A), key + "-product", [&] { return "A=" + show(A) + " Q=" + show(q) + " R=" + show(R); });
}
static Vec grow(const Vec& small, unsigned int r, unsigned int c)
{
  Vec R(r * c, 0);
  for (unsigned int j = 0; j < c; ++j)
    for (unsigned int i = 0; i < c; ++i)
      R[j * r + i] = small[j * c + i];
  return R;
}
template <unsigned int r, unsigned int c, typename T>
void qr(vh::Rng& rng)
{
  const LD eps = std::numeric_limits<T>::epsilon(), tol = 200 * r * eps;
  const auto a0 = mat<r, c, T>(gen<T>(rng, r, c));
  const Vec A = fl(a0);
  // Plain Householder factors.
  const Vec q1 = fl(qr_decomp_q(a0));
  vh::check(fl(a0) == A, "qr-q-modifies-const");
  vh::check_lazy(orth_defect(q1, r) <= tol, "qr-q-orthogonal", [&] { return "A=" + show(A) + " Q=" + show(q1); });
  {
    // Q^T A is upper triangular.
    bool ok = true;
    for (unsigned int j = 0; j < c; ++j)
      for (unsigned int i = j + 1; i < r; ++i)
      {
        LD s = 0;
        for (unsigned int k = 0; k < r; ++k)
          s += q1[i * r + k] * A[j * r + k];
        ok = ok && std::abs(s) <= tol * maxabs(A);
      }
    vh::check_lazy(ok, "qr-q-triangular", [&] { return "A=" + show(A) + " Q=" + show(q1); });
    auto a(a0);
    vh::check(fl(qr_decomp_q(a)) == q1, "qr-q-overloads-differ");
  }
  {
    auto a = a0.data();
    Wrapper::lapack_qr_decomp_r<r, c, T>(a);
    const Vec R(a.begin(), a.end());
    upper(R, r, c, "qr-r-upper", A);
    vh::check_lazy(qr_defect(q1, R, A, r, c) <= tol * maxabs(A), "qr-r-product", [&] { return "A=" + show(A) + " R=" + show(R); });
  }
  {
    auto a = a0.data();
    std::array<T, r * r> q;
    q.fill((T)7);
    Wrapper::lapack_qr_decomp<r, c, T>(a, q);
    const Vec R(a.begin(), a.end());
    upper(R, r, c, "qr-wrapper-upper", A);
    check_qr(Vec(q.begin(), q.end()), R, A, r, c, eps, "qr-wrapper");
  }
  if constexpr (c <= r)
  {
    {
      auto a = a0.data();
      std::array<T, r * r> q;
      std::array<T, c * c> rs;
      q.fill((T)7);
      rs.fill((T)7);
      Wrapper::lapack_qr_decomp<r, c, T>(a, q, rs);
      const Vec R(a.begin(), a.end()), Rs(rs.begin(), rs.end());
      upper(R, r, c, "qr-wrapper3-upper", A);
      check_qr(Vec(q.begin(), q.end()), R, A, r, c, eps, "qr-wrapper3");
      vh::check_lazy(grow(Rs, r, c) == R, "qr-wrapper3-reduced", [&] { return "R=" + show(R) + " reduced=" + show(Rs); });
    }
    auto a(a0);
    SmallSquareMat<r, T> q((T)7);
    SmallSquareMat<c, T> rr((T)7);
    qr_decomp(a, q, rr);
    const Vec Q = fl(q), R = fl(a), Rs = fl(rr);
    upper(R, r, c, "qr-normalized-upper", A);
    check_qr(Q, R, A, r, c, eps, "qr-normalized");
    vh::check_lazy(grow(Rs, r, c) == R, "qr-normalized-reduced", [&] { return "R=" + show(R) + " reduced=" + show(Rs); });
    check_qr(Q, grow(Rs, r, c), A, r, c, eps, "qr-normalized-with-reduced");
    vh::check_lazy(std::abs(det_ref(Q, r) - 1) <= 10 * tol, "qr-normalized-det-q", [&] { return "A=" + show(A) + " Q=" + show(Q); });
    bool pos = true;
    for (unsigned int i = 1; i < c; ++i)
      pos = pos && Rs[i * c + i] >= 0;
    vh::check_lazy(pos, "qr-normalized-diagonal", [&] { return "A=" + show(A) + " R=" + show(Rs); });
    SmallSquareMat<r, T> q2((T)3);
    SmallSquareMat<c, T> rr2((T)3);
    qr_decomp(a0, q2, rr2);
    vh::check(fl(a0) == A, "qr-normalized-modifies-const");
    vh::check(fl(q2) == Q && fl(rr2) == Rs, "qr-normalized-overloads-differ");
    // Generalized determinant.
    Vec ata(c * c, 0);
    for (unsigned int i = 0; i < c; ++i)
      for (unsigned int j = 0; j < c; ++j)
        for (unsigned int k = 0; k < r; ++k)
          ata[j * c + i] += A[i * r + k] * A[j * r + k];
    const LD want = r == c ? det_ref(A, r) : std::sqrt(std::max((LD)0, det_ref(ata, c)));
    LD bound = 1;
    for (unsigned int j = 0; j < c; ++j)
    {
      LD s = 0;
      for (unsigned int i = 0; i < r; ++i)
        s += A[j * r + i] * A[j * r + i];
      bound *= std::sqrt(s);
    }
    const LD got = determinant(a0);
    vh::check(fl(a0) == A, "determinant-modifies-const");
    auto ad(a0);
    const LD got2 = determinant(ad);
    vh::check(got == got2, "determinant-overloads-differ");
    if (r == c)
      vh::check_lazy(std::abs(got - want) <= tol * bound, "determinant-square", [&] { return "A=" + show(A) + " got " + vh::num((double)got) + " want " + vh::num((double)want); });
    else  // det(A^T A) is only accurate up to the square root of the precision near zero.
      vh::check_lazy(std::abs(got * got - want * want) <= tol * bound * bound, "determinant-rectangular", [&] { return "A=" + show(A) + " got " + vh::num((double)got) + " want +-" + vh::num((double)want); });
    vh::event(r == c ? "determinant-square" : "determinant-rectangular");
    if (r == c && want < 0)
      vh::event("determinant-negative");
  }
#ifndef VH_ASAN
  vh::check_eq(vh::leaked([&] { qr_decomp_q(a0); }), 0, "qr-leaks-memory");
#endif
  vh::event("qr-cases");
  vh::state(hv(A));
  vh::sample("qr " + std::to_string(r) + "x" + std::to_string(c) + " A=" + show(A));
}
VH_SCENARIO(qr_square)
{
  qr<1, 1, double>(rng);
  qr<2, 2, float>(rng);
  qr<2, 2, double>(rng);
  qr<3, 3, float>(rng);
  qr<4, 4, double>(rng);
  qr<7, 7, double>(rng);
}
VH_SCENARIO(qr_tall)
{
  qr<2, 1, float>(rng);
  qr<3, 1, double>(rng);
  qr<3, 2, float>(rng);
  qr<3, 2, double>(rng);
  qr<5, 3, double>(rng);
}
VH_SCENARIO(qr_wide)
{
  qr<2, 3, double>(rng);
  qr<1, 3, float>(rng);
}
VH_SCENARIO_W(qr_large, 0.2)
{
  qr<12, 12, double>(rng);
  qr<20, 3, double>(rng);
  qr<4, 9, double>(rng);
  qr<9, 9, float>(rng);
  vh::event("large-matrices");
}
#endif
VH_MAIN
