// Monitor: every operation of the fixed-size dense algebra against entrywise recomputation from the
// raw column-major storage.  The oracle works on type-erased copies of operands and results.
#include "hh.hxx"
using namespace hh;

struct Flat
{
  unsigned int r, c;
  std::vector<long double> v;
  long double eps;
  bool scalar;
  long double at(unsigned int i, unsigned int j) const { return scalar ? v[0] : (c == 1 ? v[i] : v[j * r + i]); }
};
template <unsigned int r, unsigned int c, typename T>
Flat fl(const SmallMat<r, c, T>& m)
{
  return Flat{r, c, std::vector<long double>(m.data().begin(), m.data().end()), std::is_floating_point_v<T> ? (long double)std::numeric_limits<T>::epsilon() : 0.0L, false};
}
template <typename T>
std::enable_if_t<std::is_arithmetic_v<T>, Flat> fl(T s)
{
  return Flat{1, 1, {(long double)s}, std::is_floating_point_v<T> ? (long double)std::numeric_limits<T>::epsilon() : 0.0L, true};
}
static std::string show(const Flat& f)
{
  std::string s = std::to_string(f.r) + "x" + std::to_string(f.c) + "[";
  for (auto x : f.v)
    s += vh::num((double)x) + " ";
  return s + "]";
}
static bool near(long double a, long double b, long double eps, long double mag)
{
  return a == b || std::abs(a - b) <= 64 * eps * (std::abs(b) + mag) + 1e-44L * (eps > 0);
}
static void equal(const Flat& got, const Flat& want, const std::string& key)
{
  vh::check_lazy(got.r == want.r && got.c == want.c && got.v == want.v, key, [&] { return "got " + show(got) + " want " + show(want); });
}
// got = a op b entrywise, where scalars and single columns act on every entry or column.
static void binary(const Flat& got, const char* key, char op, const Flat& a, const Flat& b)
{
  const unsigned int r = std::max(a.r, b.r), c = std::max(a.c, b.c);
  bool ok = got.r == r && got.c == c;
  for (unsigned int j = 0; ok && j < c; ++j)
    for (unsigned int i = 0; ok && i < r; ++i)
    {
      const long double x = a.at(i, j), y = b.at(i, j), z = got.v[j * r + i];
      long double w = 0;
      switch (op)
      {
        case '+':
          w = x + y;
          break;
        case '-':
          w = x - y;
          break;
        case '*':
          w = x * y;
          break;
        case '/':
          w = x / y;
          break;
      }
      ok = near(z, w, got.eps, 0);
    }
  vh::check_lazy(ok, key, [&] { return show(a) + " " + op + " " + show(b) + " gave " + show(got); });
}
// got = op_a(A) * op_b(B) with contraction length n.
static void product(const Flat& got, const char* key, const Flat& a, bool ta, const Flat& b, bool tb, unsigned int n)
{
  const unsigned int r = ta ? a.c : a.r, c = tb ? b.r : b.c;
  bool ok = got.r == r && got.c == c;
  for (unsigned int j = 0; ok && j < c; ++j)
    for (unsigned int i = 0; ok && i < r; ++i)
    {
      long double s = 0, m = 0;
      for (unsigned int l = 0; l < n; ++l)
      {
        const long double x = ta ? a.v[i * a.r + l] : a.v[l * a.r + i], y = tb ? b.v[l * b.r + j] : b.v[j * b.r + l];
        s += x * y;
        m += std::abs(x * y);
      }
      ok = near(got.v[j * r + i], s, got.eps, m);
    }
  vh::check_lazy(ok, key, [&] { return show(a) + " x " + show(b) + " gave " + show(got); });
}
static void scalar(long double got, long double want, long double eps, long double mag, const char* key, const Flat& a)
{
  vh::check_lazy(near(got, want, eps, mag), key, [&] { return show(a) + " gave " + vh::num((double)got) + " want " + vh::num((double)want); });
}
static uint64_t fhash(const Flat& f, uint64_t h = 1469598103934665603ull)
{
  h = vh::mix(vh::mix(h, f.r), f.c);
  for (auto x : f.v)
    h = vh::mix(h, (double)x);
  return h;
}

template <unsigned int r, unsigned int c, typename T>
void structure(vh::Rng& rng)
{
  using M = SmallMat<r, c, T>;
  vh::check(M::n_rows() == r && M::n_cols() == c && M::size() == r * c && M::dimensions() == (std::array<unsigned int, 2>{r, c}), "dimensions");
  std::array<T, r * c> raw;
  Flat want{r, c, {}, 0, false};
  for (auto& v : raw)
  {
    v = rnd<T>(rng);
    want.v.push_back(v);
  }
  const std::array<T, r * c> raw0 = raw;
  Flat zero{r, c, std::vector<long double>(r * c, 0.), 0, false};
  equal(fl(M()), zero, "ctor-default");
  const T s = rnd<T>(rng);
  Flat filled{r, c, std::vector<long double>(r * c, s), 0, false};
  equal(fl(M(s)), filled, "ctor-fill");
  M m(raw);
  vh::check(raw == raw0, "ctor-array-modifies");
  equal(fl(m), want, "ctor-array");
  std::array<T, r * c> raw2 = raw;
  equal(fl(M(std::move(raw2))), want, "ctor-array-move");
  std::vector<T> vec(raw.begin(), raw.end());
  equal(fl(M(vec)), want, "ctor-vector");
  M mc(m);
  equal(fl(mc), want, "ctor-copy");
  M ma;
  M& ref = (ma = m);
  vh::check(&ref == &ma, "assign-returns-self");
  equal(fl(ma), want, "assign-copy");
  equal(fl(m), want, "assign-source");
  M mo(std::move(mc));
  equal(fl(mo), want, "ctor-move");
  M mt;
  mt = std::move(mo);
  equal(fl(mt), want, "assign-move");
  M& self = ma;
  ma = self;
  equal(fl(ma), want, "assign-self");
  if constexpr (std::is_floating_point_v<T>)
  {
    SmallMat<r, c, double> d(m);
    equal(fl(d), want, "ctor-convert-wide");
    SmallMat<r, c, float> f(m);
    Flat wf = want;
    for (auto& x : wf.v)
      x = (float)x;
    equal(fl(f), wf, "ctor-convert-narrow");
  }
  // Element access.
  const M& cm = m;
  Flat g1 = zero, g2 = zero, g3 = zero, g4 = zero, g5 = zero, g6 = zero, g7 = zero;
  for (unsigned int j = 0; j < c; ++j)
  {
    const SmallMat<r, 1, T> col = cm.get_column(j);
    for (unsigned int i = 0; i < r; ++i)
    {
      g1.v[j * r + i] = m(i, j);
      g2.v[j * r + i] = cm(i, j);
      g3.v[j * r + i] = m[j * r + i];
      g4.v[j * r + i] = cm[j * r + i];
      g5.v[j * r + i] = col[i];
      g6.v[j * r + i] = m.data()[j * r + i];
    }
  }
  unsigned int k = 0;
  for (const T& v : cm)
    if (k++ < r * c)
      g7.v[k - 1] = v;
  vh::check(k == r * c, "iteration-count");
  equal(g1, want, "element-read-2d");
  equal(g2, want, "element-read-2d-const");
  equal(g3, want, "element-read-1d");
  equal(g4, want, "element-read-1d-const");
  equal(g5, want, "get-column");
  equal(g6, want, "data");
  equal(g7, want, "iteration");
  equal(fl(m), want, "read-modifies");
  {
    const unsigned int i0 = rng.u(0, r - 1), j0 = rng.u(0, c - 1);
    const T v = rnd<T>(rng);
    Flat w = want;
    w.v[j0 * r + i0] = v;
    M w1(m);
    w1(i0, j0) = v;
    equal(fl(w1), w, "element-write-2d");
    M w2(m);
    w2[j0 * r + i0] = v;
    equal(fl(w2), w, "element-write-1d");
    const SmallMat<r, 1, T> col = random_mat<r, 1, T>(rng);
    Flat wc = want;
    for (unsigned int i = 0; i < r; ++i)
      wc.v[j0 * r + i] = col.data()[i];
    M w3(m);
    w3.set_column(j0, col);
    equal(fl(w3), wc, "set-column");
  }
  // Comparison: equality is entrywise, order is lexicographic in storage order.
  M other(m);
  vh::check(other == m && !(other != m) && !(other < m) && !(m < other), "compare-equal");
  {
    M a = random_mat<r, c, T>(rng), b(a);
    const unsigned int k0 = rng.u(0, r * c - 1);
    for (unsigned int k1 = k0; k1 < r * c; ++k1)
      if (k1 == k0 || rng.coin(3))
        b[k1] = rnd<T>(rng);
    const bool lt = std::lexicographical_compare(a.data().begin(), a.data().end(), b.data().begin(), b.data().end());
    const bool gt = std::lexicographical_compare(b.data().begin(), b.data().end(), a.data().begin(), a.data().end());
    vh::check_lazy((a < b) == lt && (b < a) == gt, "compare-lexicographic", [&] { return show(fl(a)) + " vs " + show(fl(b)); });
    vh::check_lazy((a == b) == (a.data() == b.data()) && (a != b) == (a.data() != b.data()), "compare-equality", [&] { return show(fl(a)) + " vs " + show(fl(b)); });
  }
  // Printing: all entries, row by row, whatever the layout of blanks.
  {
    std::ostringstream o;
    o.precision(17);
    std::ostream& ret = (o << m);
    vh::check(&ret == &o, "print-returns-stream");
    std::istringstream in(o.str());
    Flat p{r, c, std::vector<long double>(r * c, 0.), 0, false};
    double x;
    unsigned int n = 0;
    while (in >> x)
    {
      if (n < r * c)
        p.v[(n % c) * r + n / c] = x;
      ++n;
    }
    vh::check(n == r * c, "print-count", o.str());
    Flat wd = want;
    for (auto& y : wd.v)
      y = (double)y;
    equal(p, wd, "print-content");
  }
  vh::event("structure-cases");
  vh::state(fhash(want));
  vh::sample("structure " + show(want));
}

template <typename T, typename F>
static bool divides(F&& f, bool zero, const char* key)
{
  const int t = vh::thrown<SmallMatDivByZeroException>(f);
  vh::event(zero ? "division-by-zero" : "division");
  return vh::check(t == (zero ? 1 : 0), std::string(key) + "-exception", "zero divisor " + std::to_string(zero) + ", thrown " + std::to_string(t)) && !zero;
}

template <unsigned int r, unsigned int c, typename T>
void arithmetic(vh::Rng& rng)
{
  using M = SmallMat<r, c, T>;
  M a = random_mat<r, c, T>(rng), b = random_mat<r, c, T>(rng);
  T s = rnd<T>(rng);
  if constexpr (std::is_unsigned_v<T>)
  {
    for (unsigned int k = 0; k < r * c; ++k)
      a[k] += 10 + b[k];  // Keep differences representable.
    s = 5;
  }
  const Flat A = fl(a), B = fl(b), S = fl(s);
  {
    M w(a);
    vh::check(&(w += s) == &w, "iadd-scalar-self");
    binary(fl(w), "iadd-scalar", '+', A, S);
    w = a;
    vh::check(&(w -= s) == &w, "isub-scalar-self");
    binary(fl(w), "isub-scalar", '-', A, S);
    w = a;
    vh::check(&(w *= s) == &w, "imul-scalar-self");
    binary(fl(w), "imul-scalar", '*', A, S);
    w = a;
    vh::check(&(w += b) == &w, "iadd-mat-self");
    binary(fl(w), "iadd-mat", '+', A, B);
    w = a;
    vh::check(&(w -= b) == &w, "isub-mat-self");
    binary(fl(w), "isub-mat", '-', A, B);
    w = a;
    vh::check(&(w *= b) == &w, "imul-mat-self");
    binary(fl(w), "imul-mat", '*', A, B);
    w = a;
    w += w;
    binary(fl(w), "iadd-alias", '+', A, A);
    w = a;
    w *= w;
    binary(fl(w), "imul-alias", '*', A, A);
    // Operands that are part of the changed matrix.
    w = a;
    w -= w;
    binary(fl(w), "isub-alias", '-', A, A);
    const unsigned int own = rng.u(0, r * c - 1);
    const T entry = a[own];
    w = a;
    w *= w[own];
    binary(fl(w), "imul-own-entry", '*', A, fl(entry));
    w = a;
    w += w[own];
    binary(fl(w), "iadd-own-entry", '+', A, fl(entry));
    if constexpr (!std::is_unsigned_v<T>)
    {
      w = a;
      w -= w[own];
      binary(fl(w), "isub-own-entry", '-', A, fl(entry));
    }
    w = a;
    w = w + w[own];
    binary(fl(w), "add-own-entry", '+', A, fl(entry));
    w = a;
    w = hada_prod(w, w);
    binary(fl(w), "hadamard-alias", '*', A, A);
  }
  binary(fl(a + b), "add", '+', A, B);
  binary(fl(a - b), "sub", '-', A, B);
  binary(fl(hada_prod(a, b)), "hadamard-product", '*', A, B);
  binary(fl(s + a), "scalar-add-left", '+', S, A);
  binary(fl(a + s), "scalar-add-right", '+', A, S);
  binary(fl(a - s), "scalar-sub-right", '-', A, S);
  binary(fl(s * a), "scalar-mul-left", '*', S, A);
  binary(fl(a * s), "scalar-mul-right", '*', A, S);
  equal(fl(a), A, "arithmetic-modifies-left");
  equal(fl(b), B, "arithmetic-modifies-right");
  if constexpr (std::is_floating_point_v<T>)
  {
    binary(fl(s - a), "scalar-sub-left", '-', S, A);
    // Matrix and column vector: the vector acts on every column.
    const SmallMat<r, 1, T> v = random_mat<r, 1, T>(rng);
    const Flat V = fl(v);
    M w(a);
    w += v;
    binary(fl(w), "iadd-broadcast", '+', A, V);
    w = a;
    w -= v;
    binary(fl(w), "isub-broadcast", '-', A, V);
    binary(fl(a + v), "add-broadcast-right", '+', A, V);
    binary(fl(v + a), "add-broadcast-left", '+', V, A);
    binary(fl(a - v), "sub-broadcast-right", '-', A, V);
    binary(fl(v - a), "sub-broadcast-left", '-', V, A);
    // Division: quotient, or the documented exception on a zero divisor.
    bool bz = std::count(B.v.begin(), B.v.end(), 0.0L), az = std::count(A.v.begin(), A.v.end(), 0.0L);
    M q;
    if (divides<T>([&] { q = a / s; }, s == 0, "div-scalar"))
      binary(fl(q), "div-scalar", '/', A, S);
    q = a;
    if (divides<T>([&] { q /= s; }, s == 0, "idiv-scalar"))
      binary(fl(q), "idiv-scalar", '/', A, S);
    if (divides<T>([&] { q = s / a; }, az, "div-scalar-by-mat"))
      binary(fl(q), "div-scalar-by-mat", '/', S, A);
    q = a;
    const unsigned int own = rng.u(0, r * c - 1);
    if (divides<T>([&] { q /= q[own]; }, a[own] == 0, "idiv-own-entry"))
      binary(fl(q), "idiv-own-entry", '/', A, fl((T)a[own]));
    q = a;
    if (divides<T>([&] { q /= q; }, az, "idiv-alias"))
      binary(fl(q), "idiv-alias", '/', A, A);
    q = a;
    if (divides<T>([&] { q = q / q[own]; }, a[own] == 0, "div-own-entry"))
      binary(fl(q), "div-own-entry", '/', A, fl((T)a[own]));
    q = a;
    if (divides<T>([&] { q /= b; }, bz, "idiv-mat"))
      binary(fl(q), "idiv-mat", '/', A, B);
    if (divides<T>([&] { q = hada_divi(a, b); }, bz, "hadamard-division"))
      binary(fl(q), "hadamard-division", '/', A, B);
    if constexpr (std::is_floating_point_v<T>)
    {
      // Divisors next to zero are no zeros; minus zero is one.
      const T lows[] = {std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min() / 2, std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon(), (T)1e-16, (T)1e-12, (T)1e-8};
      const T low = lows[rng.u(0, 6)], z = rng.coin(4) ? (rng.coin() ? (T)0 : -(T)0) : (rng.coin() ? low : -low);
      M n, d;
      for (unsigned int k = 0; k < r * c; ++k)
      {
        n[k] = low * (T)rng.i(-8, 8);
        d[k] = rng.coin() ? low : -low * (T)rng.i(1, 4);
      }
      if (rng.coin(4))
        d[rng.u(0, r * c - 1)] = rng.coin() ? (T)0 : -(T)0;
      const Flat N = fl(n), D = fl(d), Z = fl(z), L = fl(low);
      const bool dz = std::count(D.v.begin(), D.v.end(), 0.0L);
      if (divides<T>([&] { q = n / z; }, z == 0, "div-tiny-scalar"))
        binary(fl(q), "div-tiny-scalar", '/', N, Z);
      q = n;
      if (divides<T>([&] { q /= z; }, z == 0, "idiv-tiny-scalar"))
        binary(fl(q), "idiv-tiny-scalar", '/', N, Z);
      if (divides<T>([&] { q = low / d; }, dz, "div-scalar-by-tiny-mat"))
        binary(fl(q), "div-scalar-by-tiny-mat", '/', L, D);
      q = n;
      if (divides<T>([&] { q /= d; }, dz, "idiv-tiny-mat"))
        binary(fl(q), "idiv-tiny-mat", '/', N, D);
      if (divides<T>([&] { q = hada_divi(n, d); }, dz, "hadamard-division-tiny"))
        binary(fl(q), "hadamard-division-tiny", '/', N, D);
    }
    equal(fl(a), A, "division-modifies-left");
    equal(fl(b), B, "division-modifies-right");
    // Norms.
    long double n1 = 0, ninf = 0, n2 = 0;
    for (unsigned int j = 0; j < c; ++j)
    {
      long double t = 0;
      for (unsigned int i = 0; i < r; ++i)
        t += std::abs(A.v[j * r + i]);
      n1 = std::max(n1, t);
    }
    for (unsigned int i = 0; i < r; ++i)
    {
      long double t = 0;
      for (unsigned int j = 0; j < c; ++j)
        t += std::abs(A.v[j * r + i]);
      ninf = std::max(ninf, t);
    }
    scalar(norm_1(a), n1, A.eps, 0, "norm-1", A);
    scalar(norm_infty(a), ninf, A.eps, 0, "norm-infty", A);
    if constexpr (c == 1)
    {
      for (auto x : A.v)
        n2 += x * x;
      scalar(norm_2(a), std::sqrt(n2), A.eps, 0, "norm-2", A);
      for (T p : {(T)1, (T)2, (T)3, (T)1.5})
      {
        long double t = 0;
        for (auto x : A.v)
          t += std::pow(std::abs(x), (long double)p);
        t = std::pow(t, 1.0L / p);
        scalar(norm_p(a, p), t, 100 * A.eps, 0, "norm-p", A);
      }
    }
    vh::event("norm-cases");
  }
  long double ref = 0, mag = 0, prod = 1;
  for (unsigned int k = 0; k < r * c; ++k)
  {
    ref += A.v[k] * B.v[k];
    mag += std::abs(A.v[k] * B.v[k]);
    prod *= A.v[k];
  }
  scalar(scalar_product(a, b), ref, A.eps, mag, "scalar-product", A);
  if (std::abs(prod) < 1e9L && (std::abs(prod) > 1e-9L || prod == 0))
    scalar(entries_product(a), prod, A.eps, std::abs(prod), "entries-product", A);
  vh::event("arithmetic-cases");
  vh::state(fhash(A, fhash(B)));
  vh::sample("arithmetic a=" + show(A) + " b=" + show(B) + " s=" + vh::num((double)s));
}

template <unsigned int r, unsigned int c, unsigned int k, typename T>
void products(vh::Rng& rng)
{
  const auto a = random_mat<r, c, T>(rng);
  const auto b = random_mat<c, k, T>(rng);
  const auto cc = random_mat<r, k, T>(rng);
  const auto d = random_mat<k, c, T>(rng);
  const Flat A = fl(a), B = fl(b), C = fl(cc), D = fl(d);
  product(fl(a * b), "matrix-product", A, false, B, false, c);
  product(fl(transposed_mat_times_mat(a, cc)), "transposed-times-matrix", A, true, C, false, r);
  product(fl(mat_times_transposed_mat(a, d)), "matrix-times-transposed", A, false, D, true, c);
  product(fl(mat_times_mat_unfit(a, cc)), "matrix-product-unfit", A, false, C, false, std::min(c, r));
  const auto v = random_mat<r, 1, T>(rng);
  const auto w = random_mat<c, 1, T>(rng);
  product(fl(dyadic_product(v, w)), "dyadic-product", fl(v), false, fl(w), true, 1);
  const T dv = rnd<T>(rng);
  Flat dg{r, c, std::vector<long double>(r * c, 0.), 0, false}, dg2 = dg;
  constexpr unsigned int rank = std::min(r, c);
  const auto dvec = random_mat<rank, 1, T>(rng);
  for (unsigned int i = 0; i < rank; ++i)
  {
    dg.v[i * r + i] = dv;
    dg2.v[i * r + i] = dvec.data()[i];
  }
  equal(fl(diagonal<r, c, T>(dv)), dg, "diagonal");
  equal(fl(diagonal<r, c, T>(dvec)), dg2, "diagonal-vector");
  Flat tr{c, r, std::vector<long double>(r * c, 0.), 0, false};
  for (unsigned int i = 0; i < r; ++i)
    for (unsigned int j = 0; j < c; ++j)
      tr.v[i * c + j] = A.v[j * r + i];
  equal(fl(transposed(a)), tr, "transposed");
  Flat rp{r, c, std::vector<long double>(r * c, 0.), 0, false};
  for (unsigned int i = 0; i < r; ++i)
    for (unsigned int j = 0; j < c; ++j)
      rp.v[j * r + i] = v.data()[i];
  equal(fl(rep_mat<r, c, T>(v)), rp, "rep-mat");
  if constexpr (r == 3)
  {
    const auto u = random_mat<3, 1, T>(rng);
    const auto x = cross_product(v, u);
    const Flat V = fl(v), U = fl(u), X = fl(x);
    for (unsigned int i = 0; i < 3; ++i)
    {
      const unsigned int j = (i + 1) % 3, l = (i + 2) % 3;
      scalar(X.v[i], V.v[j] * U.v[l] - V.v[l] * U.v[j], X.eps, std::abs(V.v[j] * U.v[l]) + std::abs(V.v[l] * U.v[j]), "cross-product", V);
    }
  }
  equal(fl(a), A, "product-modifies-operand");
  equal(fl(b), B, "product-modifies-operand");
  equal(fl(cc), C, "product-modifies-operand");
  equal(fl(d), D, "product-modifies-operand");
  vh::event("product-cases");
  vh::state(fhash(A, fhash(B)));
  vh::sample("products A=" + show(A) + " B=" + show(B));
}

#if PART == 1
VH_SCENARIO(structure)
{
  structure<1, 1, double>(rng);
  structure<3, 1, double>(rng);
  structure<1, 3, float>(rng);
  structure<2, 2, double>(rng);
  structure<2, 3, float>(rng);
  structure<3, 2, double>(rng);
  structure<4, 1, unsigned int>(rng);
  structure<2, 3, int>(rng);
  structure<5, 4, double>(rng);
  structure<4, 7, float>(rng);
}
VH_SCENARIO(products)
{
  products<1, 1, 1, double>(rng);
  products<2, 2, 2, float>(rng);
  products<3, 3, 3, double>(rng);
  products<2, 3, 4, double>(rng);
  products<4, 2, 3, float>(rng);
  products<3, 1, 2, double>(rng);
  products<1, 4, 1, double>(rng);
  products<5, 3, 1, double>(rng);
}
#else
VH_SCENARIO(arithmetic)
{
  arithmetic<1, 1, double>(rng);
  arithmetic<2, 1, double>(rng);
  arithmetic<3, 1, float>(rng);
  arithmetic<1, 4, double>(rng);
  arithmetic<2, 2, double>(rng);
  arithmetic<3, 2, float>(rng);
  arithmetic<2, 5, double>(rng);
  arithmetic<3, 1, unsigned int>(rng);
  arithmetic<2, 2, int>(rng);
}
#endif
VH_MAIN
