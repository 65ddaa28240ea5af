// Monitors of the global loops on recording parts: PART 1 elliptic, 2 parabolic, 3 eigenvalue problems.
#include "hh.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

#ifndef PART
#define PART 1
#endif

// ------------------------------------------------------------------------------ recording parts
struct Net
{
  unsigned int n_nodes = 0;
  std::vector<std::vector<unsigned int>> nodes, types;
};
struct Nets
{
  std::map<unsigned int, Net> by_level;
  const Net& at(unsigned int l) const { return by_level.at(l); }
};
template <unsigned int d, bool arr>
struct Topo
{
  typedef Nets constructor_value_type;
  struct value_type
  {
    std::conditional_t<arr, std::array<unsigned int, 2 * d>, SmallVec<2 * d, unsigned int>> idx;
    const auto& get_hyNode_indices() const { return idx; }
  };
  Nets nets;
  unsigned int level = 1;
  Topo(const Nets& n) : nets(n) {}
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return 3; }
  const Net& net() const { return nets.at(level); }
  value_type operator[](const unsigned long i) const
  {
    value_type v;
    for (unsigned int k = 0; k < 2 * d; ++k)
      v.idx[k] = net().nodes.at(i)[k];
    return v;
  }
  unsigned int n_hyEdges() const { return net().nodes.size(); }
  unsigned int n_hyNodes() const { return net().n_nodes; }
  unsigned int get_refinement() const { return level; }
  void set_refinement(unsigned int l) { level = l; }
};
template <unsigned int d, bool arr>
struct Geom
{
  struct constructor_value_type
  {
    unsigned int salt;
  };
  typedef unsigned long value_type;
  unsigned int salt = 0, level = 1;
  Geom(const constructor_value_type& c) : salt(c.salt) {}
  Geom(const Topo<d, arr>& t) : level(t.level) {}
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return 3; }
  value_type operator[](const unsigned long i) const { return 1 + salt + 1000ul * level + 100000ul * i; }
  void set_refinement(unsigned int l) { level = l; }
};
template <unsigned int d, bool arr>
struct Node
{
  typedef std::vector<unsigned int> value_type;
  Topo<d, arr> t;
  Node(const Topo<d, arr>& x) : t(x) {}
  value_type operator[](const unsigned long i) const { return t.net().types.at(i); }
  void set_refinement(unsigned int l) { t.set_refinement(l); }
};
struct Data
{
  std::vector<double> stored;
  double time = -1;
};
// Coefficient of the recording local solver: deterministic in everything it may depend on.
static double coef(int fn, unsigned long edge, unsigned int i, unsigned int a, unsigned int j, unsigned int b, double time)
{
  uint64_t h = vh::mix(vh::mix(vh::mix(vh::mix(vh::mix(vh::mix(77 + fn, edge), i), a), j), b), time);
  return (double)(h % 2001) / 1000. - 1.;
}
struct Log
{
  std::map<std::string, std::map<unsigned long, int>> calls;
  std::vector<double> order;  // Values handed to sum_error.
  bool dirty = false;
  std::vector<double> times;
};
static Log logg;
enum
{
  FLUX,
  RES,
  RESC,
  MASS,
  JAC,
  JACV,
  INIT,
  ERR
};
static int post_calls, init_calls;

struct ErrorDef
{
  typedef std::array<double, 2> error_t;
  static error_t initial_error()
  {
    ++init_calls;
    return {10., 0.};
  }
  static error_t sum_error(const error_t& s, const error_t& e) { return {s[0] + e[0], std::max(s[1], e[1])}; }
  static error_t postprocess_error(const error_t& s)
  {
    ++post_calls;
    return {3 * s[0], s[1] + 1};
  }
};
template <unsigned int d, unsigned int nd, typename V>
struct Base
{
  typedef std::array<std::array<V, nd>, 2 * d> A;
  typedef Data data_type;
  typedef double constructor_value_type;
  typedef ErrorDef error_def;
  double factor = 1.;
  Base() {}
  Base(const double& f) : factor(f) {}
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  void apply(int fn, const char* name, unsigned long edge, const A& in, A& out, double time, bool affine = false) const
  {
    ++logg.calls[name][edge];
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int a = 0; a < nd; ++a)
      {
        if (out[i][a] != 0)
          logg.dirty = true;
        double s = affine ? coef(RESC, edge, i, a, 0, 0, time) : 0.;
        for (unsigned int j = 0; j < 2 * d; ++j)
          for (unsigned int b = 0; b < nd; ++b)
            s += coef(fn, edge, i, a, j, b, time) * in[j][b];
        out[i][a] += (V)(factor * s);
      }
  }
  typename ErrorDef::error_t err(unsigned long edge, const A& in, double time) const
  {
    ++logg.calls["errors"][edge];
    double s = 0, m = 0;
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int a = 0; a < nd; ++a)
      {
        s += coef(ERR, edge, i, a, 0, 0, time) * in[i][a];
        m = std::max(m, std::abs((double)in[i][a]));
      }
    return {s, m};
  }
};
// Local solver that does not want to know the hyperedge.
template <unsigned int d, unsigned int nd, typename V>
struct Blind : Base<d, nd, V>
{
  typedef typename Base<d, nd, V>::A A;
  static constexpr bool blind = true;
  using Base<d, nd, V>::Base;
  template <typename I, typename O>
  O& trace_to_flux(const I& in, O& out, const V time = 0.) const
  {
    this->apply(FLUX, "trace_to_flux", 0, in, out, time);
    return out;
  }
  template <typename I, typename O>
  O& residual_flux(const I& in, O& out, const V time = 0.) const
  {
    this->apply(RES, "residual_flux", 0, in, out, time, true);
    return out;
  }
  template <typename I, typename O>
  O& trace_to_mass_flux(const I& in, O& out, const V time = 0.) const
  {
    this->apply(MASS, "trace_to_mass_flux", 0, in, out, time);
    return out;
  }
  template <typename I, typename O>
  O& jacobian_of_trace_to_flux(const I& in, O& out, const V eig, const I& vals, const V eig_val) const
  {
    this->apply(JAC, "jacobian", 0, in, out, eig_val);
    A zero;
    for (auto& z : zero)
      z.fill(0.);
    this->apply(JACV, "jacobian-values", 0, vals, zero, eig);
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int a = 0; a < nd; ++a)
        out[i][a] += zero[i][a];
    return out;
  }
  template <typename O>
  O& make_initial(O& out, const V time = 0.) const
  {
    ++logg.calls["make_initial"][0];
    for (auto& o : out)
      for (unsigned int a = 0; a < nd; ++a)
        o[a] = (V)coef(INIT, 0, 0, a, 0, 0, time);
    return out;
  }
  template <typename I>
  typename ErrorDef::error_t errors(const I& in, const V time = 0.) const
  {
    return this->err(0, in, time);
  }
  template <typename I>
  void set_data(const I& in, const V time = 0.) const
  {
    ++logg.calls["set_data"][0];
    for (auto& x : in)
      for (auto v : x)
        logg.order.push_back(v);
    logg.times.push_back(time);
  }
  template <typename E>
  std::array<unsigned int, 2 * d> node_types(E& e) const
  {
    std::array<unsigned int, 2 * d> r;
    for (unsigned int k = 0; k < 2 * d; ++k)
      r[k] = e.node_descriptor[k];
    return r;
  }
};
template <unsigned int d, unsigned int nd, typename V>
struct Seeing : Base<d, nd, V>
{
  typedef typename Base<d, nd, V>::A A;
  static constexpr bool blind = false;
  using Base<d, nd, V>::Base;
  template <typename I, typename O, typename E>
  O& trace_to_flux(const I& in, O& out, E& e, const V time = 0.) const
  {
    this->apply(FLUX, "trace_to_flux", e.geometry, in, out, time);
    return out;
  }
  template <typename I, typename O, typename E>
  O& residual_flux(const I& in, O& out, E& e, const V time = 0.) const
  {
    this->apply(RES, "residual_flux", e.geometry, in, out, time, true);
    if (!e.data.stored.empty())  // Data written by set_data take part.
      for (unsigned int i = 0; i < 2 * d; ++i)
        for (unsigned int a = 0; a < nd; ++a)
          out[i][a] += (V)(e.data.stored[i * nd + a] * e.data.time);
    return out;
  }
  template <typename I, typename O, typename E>
  O& trace_to_mass_flux(const I& in, O& out, E& e, const V time = 0.) const
  {
    this->apply(MASS, "trace_to_mass_flux", e.geometry, in, out, time);
    return out;
  }
  template <typename I, typename O, typename E>
  O& jacobian_of_trace_to_flux(const I& in, O& out, const V eig, const I& vals, const V eig_val, E& e) const
  {
    this->apply(JAC, "jacobian", e.geometry, in, out, eig_val);
    A zero;
    for (auto& z : zero)
      z.fill(0.);
    this->apply(JACV, "jacobian-values", e.geometry, vals, zero, eig);
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int a = 0; a < nd; ++a)
        out[i][a] += zero[i][a];
    return out;
  }
  template <typename O, typename E>
  O& make_initial(O& out, E& e, const V time = 0.) const
  {
    ++logg.calls["make_initial"][e.geometry];
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int a = 0; a < nd; ++a)
        out[i][a] = (V)coef(INIT, e.topology.get_hyNode_indices()[i], 0, a, 0, 0, time);
    return out;
  }
  template <typename I, typename E>
  typename ErrorDef::error_t errors(const I& in, E& e, const V time = 0.) const
  {
    return this->err(e.geometry, in, time);
  }
  template <typename I, typename E>
  void set_data(const I& in, E& e, const V time = 0.) const
  {
    ++logg.calls["set_data"][e.geometry];
    e.data.stored.clear();
    for (auto& x : in)
      for (auto v : x)
        e.data.stored.push_back(v);
    e.data.time = time;
  }
  template <typename E>
  std::array<unsigned int, 2 * d> node_types(E& e) const
  {
    std::array<unsigned int, 2 * d> r;
    for (unsigned int k = 0; k < 2 * d; ++k)
      r[k] = e.node_descriptor[k];
    return r;
  }
};
// ------------------------------------------------------------------------------ reference
struct Ref
{
  unsigned int d, nd;
  const Net* net;
  unsigned int level, salt;
  bool blind;
  double factor, tol;
  unsigned long id(unsigned int e) const { return blind ? 0 : 1 + salt + 1000ul * level + 100000ul * e; }
  unsigned int size() const { return net->n_nodes * nd; }
  std::vector<double> apply(int fn, const std::vector<double>& x, double time, bool affine = false) const
  {
    std::vector<double> y(x.size(), 0.);
    for (unsigned int e = 0; e < net->nodes.size(); ++e)
      for (unsigned int i = 0; i < 2 * d; ++i)
        for (unsigned int a = 0; a < nd; ++a)
        {
          double s = affine ? coef(RESC, id(e), i, a, 0, 0, time) : 0.;
          for (unsigned int j = 0; j < 2 * d; ++j)
            for (unsigned int b = 0; b < nd; ++b)
              s += coef(fn, id(e), i, a, j, b, time) * x[net->nodes[e][j] * nd + b];
          y[net->nodes[e][i] * nd + a] += factor * s;
        }
    return y;
  }
  // Every hyperedge was visited exactly once.
  void visited(const std::string& fn, const std::string& key) const
  {
    auto& c = logg.calls[fn];
    if (blind)
      vh::check_eq(c[0], (int)net->nodes.size(), key + "-visits");
    else
    {
      vh::check_eq(c.size(), net->nodes.size(), key + "-visits");
      for (unsigned int e = 0; e < net->nodes.size(); ++e)
        vh::check_eq(c[id(e)], 1, key + "-visits", "edge " + std::to_string(e));
    }
    vh::check(!logg.dirty, key + "-output-not-zeroed");
    vh::event("edges-visited", net->nodes.size());
  }
};
static Net make_net(vh::Rng& rng, unsigned int d)
{
  Net n;
  const unsigned int e = rng.u(1, 7);
  n.n_nodes = rng.u(2, 2 * d * e + 1);
  const bool loops = rng.coin(4);
  if (!loops)
    n.n_nodes = std::max(n.n_nodes, 2 * d);
  for (unsigned int k = 0; k < e; ++k)
  {
    std::vector<unsigned int> v, t;
    while (v.size() < 2 * d)
    {
      const unsigned int x = rng.u(0, n.n_nodes - 1);
      if (loops || std::find(v.begin(), v.end(), x) == v.end())
        v.push_back(x);
    }
    for (unsigned int i = 0; i < 2 * d; ++i)
      t.push_back(rng.u(0, 2));
    n.nodes.push_back(v);
    n.types.push_back(t);
  }
  return n;
}
static uint64_t hash(const Net& n)
{
  uint64_t h = n.n_nodes;
  for (auto& e : n.nodes)
    for (auto x : e)
      h = vh::mix(h, x);
  return h;
}
template <typename V>
static V random_vec(vh::Rng& rng, unsigned int n)
{
  V v(n);
  for (auto& x : v)
    x = (typename V::value_type)rng.val(2.);
  return v;
}
template <typename V>
static std::vector<double> dbl(const V& v)
{
  return std::vector<double>(v.begin(), v.end());
}
static double pick_time(vh::Rng& rng)
{
  return rng.coin(4) ? 0. : rng.coin(3) ? (double)rng.i(1, 4) : rng.i(-300, 300) / 64.;
}
template <typename P, typename LS, unsigned int d, bool arr>
struct Maker
{
  static std::unique_ptr<P> make(vh::Rng& rng, const Nets& nets, Ref& r)
  {
    r.salt = 0;
    r.factor = 1.;
    switch (rng.i(0, 2))
    {
      case 0:
        return std::make_unique<P>(nets);
      case 1:
        r.factor = rng.pick<double>({2., -1., 0.5});
        return std::make_unique<P>(nets, r.factor);
      default:
        r.factor = rng.pick<double>({2., -1., 0.5});
        r.salt = rng.u(1, 99);
        return std::make_unique<P>(nets, typename Geom<d, arr>::constructor_value_type{r.salt}, r.factor);
    }
  }
};
template <typename P, typename V>
static void check_errors(P& p, const Ref& r, const V& x, double time)
{
  double s = 10., m = 0.;
  for (unsigned int e = 0; e < r.net->nodes.size(); ++e)
    for (unsigned int i = 0; i < 2 * r.d; ++i)
      for (unsigned int a = 0; a < r.nd; ++a)
      {
        s += coef(ERR, r.id(e), i, a, 0, 0, time) * x[r.net->nodes[e][i] * r.nd + a];
        m = std::max(m, std::abs((double)x[r.net->nodes[e][i] * r.nd + a]));
      }
  logg = Log();
  init_calls = post_calls = 0;
  const auto got = p.errors(x, time);
  r.visited("errors", "errors");
  vh::check_vec(dbl(got), std::vector<double>{3 * s, m + 1}, "errors", r.tol, 10.);
  vh::check(init_calls == 1 && post_calls == 1, "errors-initialised-and-postprocessed-once");
  vh::event("errors");
}
template <template <typename, typename, typename, typename, typename, typename> class Loop, template <unsigned int, unsigned int, typename> class S, unsigned int d, unsigned int nd, bool arr, typename F>
struct Setup
{
  typedef S<d, nd, F> LS;
  typedef std::vector<F> V;
  typedef Loop<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V, unsigned int> P;
};

#if PART == 1
template <template <unsigned int, unsigned int, typename> class S, unsigned int d, unsigned int nd, bool arr, typename F>
static void run(vh::Rng& rng)
{
  typedef S<d, nd, F> LS;
  typedef std::vector<F> V;
  typedef GlobalLoop::Elliptic<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V> P;
  Nets nets;
  for (unsigned int l = 1; l <= 3; ++l)
    nets.by_level[l] = make_net(rng, d);
  Ref r{d, nd, nullptr, 1, 0, LS::blind, 1., std::is_same_v<F, float> ? 2e-4 : 1e-12};
  auto p = Maker<P, LS, d, arr>::make(rng, nets, r);
  std::set<unsigned int> dirichlet;
  uint64_t h = vh::mix(hash(nets.at(1)), d * 10 + nd);
  for (int step = 0; step < 8; ++step)
  {
    r.net = &nets.at(r.level);
    const unsigned int n = r.size();
    vh::check_eq((unsigned int)p->size_of_system(), n, "size-of-system");
    vh::check_eq(p->get_refinement(), r.level, "refinement");
    const V zero = p->zero_vector();
    vh::check(zero.size() == n && std::all_of(zero.begin(), zero.end(), [](F v) { return v == 0; }), "zero-vector");
    const V x = random_vec<V>(rng, n);
    const V keep = x;
    const double time = pick_time(rng);
    const int op = rng.i(0, 5);
    h = vh::mix(vh::mix(h, op), time);
    auto clear = [&](std::vector<double> y) {
      for (auto i : dirichlet)
        y[i] = 0.;
      return y;
    };
    if (op == 0)
    {
      logg = Log();
      const V y = time == 0. ? p->trace_to_flux(x) : p->trace_to_flux(x, time);
      r.visited("trace_to_flux", "trace-to-flux");
      vh::check_vec(dbl(y), clear(r.apply(FLUX, dbl(x), time)), "trace-to-flux", r.tol, 1.);
      for (auto i : dirichlet)
        vh::check(y[i] == 0, "dirichlet-rows-zero");
      vh::event("products");
    }
    else if (op == 1)
    {
      logg = Log();
      const V y = time == 0. ? p->residual_flux(x) : p->residual_flux(x, time);
      r.visited("residual_flux", "residual-flux");
      vh::check_vec(dbl(y), clear(r.apply(RES, dbl(x), time, true)), "residual-flux", r.tol, 1.);
      for (auto i : dirichlet)
        vh::check(y[i] == 0, "dirichlet-rows-zero");
      vh::event("residuals");
    }
    else if (op == 2)
    {
      auto m = time == 0. ? p->trace_to_flux_mat() : p->trace_to_flux_mat(time);
      const auto &rows = m.get_rows(), &cols = m.get_cols();
      const V& vals = m.get_values();
      vh::check(rows.size() == cols.size() && rows.size() == vals.size(), "matrix-sizes");
      std::vector<double> dense(n * n, 0.), want(n * n, 0.);
      for (size_t k = 0; k < rows.size(); ++k)
        if (vh::check(rows[k] < n && cols[k] < n, "matrix-index-range"))
          dense[rows[k] * n + cols[k]] += vals[k];
      for (unsigned int j = 0; j < n; ++j)
      {
        std::vector<double> e(n, 0.);
        e[j] = 1.;
        const auto c = clear(r.apply(FLUX, e, time));
        for (unsigned int i = 0; i < n; ++i)
          want[i * n + j] = c[i];
      }
      vh::check_vec(dense, want, "matrix-entries", r.tol, 1.);
      vh::event("matrices");
    }
    else if (op == 3)
      check_errors(*p, r, x, time);
    else if (op == 4)
    {
      // Indices in any order, with repetitions; the last call counts.
      std::vector<unsigned int> idx;
      for (unsigned int k = rng.u(0, 5); k > 0; --k)
      {
        idx.push_back(rng.u(0, n - 1));
        if (rng.coin(3))
          idx.push_back(idx.front());
      }
      p->read_dirichlet_indices(idx);
      dirichlet = std::set<unsigned int>(idx.begin(), idx.end());
      vh::event("dirichlet-changes");
    }
    else
    {
      r.level = rng.u(1, 3);
      p->set_refinement(r.level);
      r.net = &nets.at(r.level);
      p->read_dirichlet_indices({});
      dirichlet.clear();
      vh::event("refinements");
    }
    vh::check(x == keep, "input-modified");
  }
  vh::state(h);
}
VH_SCENARIO(elliptic_loop)
{
  switch (rng.i(0, 5))
  {
    case 0:
      run<Blind, 1, 1, false, double>(rng);
      break;
    case 1:
      run<Seeing, 1, 1, true, double>(rng);
      break;
    case 2:
      run<Seeing, 1, 3, false, double>(rng);
      break;
    case 3:
      run<Blind, 2, 2, true, double>(rng);
      break;
    case 4:
      run<Seeing, 2, 2, false, double>(rng);
      break;
    default:
      run<Seeing, 2, 1, true, float>(rng);
  }
}
#elif PART == 2
template <template <unsigned int, unsigned int, typename> class S, unsigned int d, unsigned int nd, bool arr, typename F>
static void run(vh::Rng& rng)
{
  typedef S<d, nd, F> LS;
  typedef std::vector<F> V;
  typedef GlobalLoop::Parabolic<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V> P;
  Nets nets;
  for (unsigned int l = 1; l <= 3; ++l)
    nets.by_level[l] = make_net(rng, d);
  Ref r{d, nd, nullptr, 1, 0, LS::blind, 1., std::is_same_v<F, float> ? 2e-4 : 1e-12};
  auto p = Maker<P, LS, d, arr>::make(rng, nets, r);
  std::vector<std::vector<double>> stored;  // Data per hyperedge (model).
  double stored_time = 0;
  uint64_t h = vh::mix(hash(nets.at(1)), d * 10 + nd);
  for (int step = 0; step < 8; ++step)
  {
    r.net = &nets.at(r.level);
    const unsigned int n = r.size();
    vh::check_eq((unsigned int)p->size_of_system(), n, "size-of-system");
    vh::check_eq(p->get_refinement(), r.level, "refinement");
    const V zero = p->zero_vector();
    vh::check(zero.size() == n && std::all_of(zero.begin(), zero.end(), [](F v) { return v == 0; }), "zero-vector");
    const V x = random_vec<V>(rng, n);
    const V keep = x;
    const double time = pick_time(rng);
    const int op = rng.i(0, 6);
    h = vh::mix(vh::mix(h, op), time);
    if (op == 0)
    {
      logg = Log();
      const V y = time == 0. ? p->trace_to_flux(x) : p->trace_to_flux(x, time);
      r.visited("trace_to_flux", "trace-to-flux");
      vh::check_vec(dbl(y), r.apply(FLUX, dbl(x), time), "trace-to-flux", r.tol, 1.);
      vh::event("products");
    }
    else if (op <= 2)
    {
      logg = Log();
      const V y = time == 0. ? p->residual_flux(x) : p->residual_flux(x, time);
      r.visited("residual_flux", "residual-flux");
      auto want = r.apply(RES, dbl(x), time, true);
      if (!LS::blind && !stored.empty())
      {
        for (unsigned int e = 0; e < r.net->nodes.size(); ++e)
          for (unsigned int i = 0; i < 2 * d; ++i)
            for (unsigned int a = 0; a < nd; ++a)
              want[r.net->nodes[e][i] * nd + a] += stored[e][i * nd + a] * stored_time;
        vh::event("residuals-with-data");
      }
      vh::check_vec(dbl(y), want, "residual-flux", r.tol, 1.);
      vh::event("residuals");
    }
    else if (op == 3)
    {
      logg = Log();
      if (time == 0.)
        p->set_data(x);
      else
        p->set_data(x, time);
      r.visited("set_data", "set-data");
      stored.clear();
      stored_time = time;
      std::vector<double> flat;
      for (auto& e : r.net->nodes)
      {
        std::vector<double> v;
        for (auto k : e)
          for (unsigned int a = 0; a < nd; ++a)
            v.push_back(x[k * nd + a]);
        stored.push_back(v);
        flat.insert(flat.end(), v.begin(), v.end());
      }
      if (LS::blind)
      {
        vh::check(logg.order == flat, "set-data-values");
        vh::check(std::all_of(logg.times.begin(), logg.times.end(), [&](double t) { return t == (F)time; }), "set-data-time");
      }
      vh::event("data-set");
    }
    else if (op == 4)
    {
      const double t = time;
      logg = Log();
      const V y = t == 0. ? p->make_initial(zero) : p->make_initial(zero, t);
      r.visited("make_initial", "make-initial");
      std::vector<double> want(n, 0.);
      for (auto& e : r.net->nodes)
        for (auto k : e)
          for (unsigned int a = 0; a < nd; ++a)
            want[k * nd + a] = (F)coef(INIT, LS::blind ? 0 : k, 0, a, 0, 0, t);
      vh::check_vec(dbl(y), want, "make-initial", r.tol, 1., "time " + vh::num(t));
      vh::event("initial-states");
    }
    else if (op == 5)
      check_errors(*p, r, x, time);
    else
    {
      r.level = rng.u(1, 3);
      p->set_refinement(r.level);
      r.net = &nets.at(r.level);
      stored.clear();
      vh::event("refinements");
    }
    vh::check(x == keep, "input-modified");
  }
  vh::state(h);
}
VH_SCENARIO(parabolic_loop)
{
  switch (rng.i(0, 4))
  {
    case 0:
      run<Blind, 1, 1, false, double>(rng);
      break;
    case 1:
      run<Seeing, 1, 2, true, double>(rng);
      break;
    case 2:
      run<Blind, 2, 2, true, double>(rng);
      break;
    case 3:
      run<Seeing, 2, 2, false, double>(rng);
      break;
    default:
      run<Seeing, 2, 1, true, float>(rng);
  }
}
#else
template <typename P>
static void dirichlet_set(P& p, const Ref& r)
{
  std::set<unsigned int> want;
  for (unsigned int e = 0; e < r.net->nodes.size(); ++e)
    for (unsigned int i = 0; i < 2 * r.d; ++i)
      if (r.net->types[e][i] == 1)
        for (unsigned int a = 0; a < r.nd; ++a)
          want.insert(r.net->nodes[e][i] * r.nd + a);
  const std::vector<unsigned int> got = p.dirichlet_indices();
  vh::check(got == std::vector<unsigned int>(want.begin(), want.end()), "dirichlet-indices", std::to_string(got.size()) + " vs " + std::to_string(want.size()));
  vh::event("dirichlet-sets");
}
template <template <unsigned int, unsigned int, typename> class S, unsigned int d, unsigned int nd, bool arr, typename F>
static void run(vh::Rng& rng)
{
  typedef S<d, nd, F> LS;
  typedef std::vector<F> V;
  typedef GlobalLoop::NonlinearEigenvalue<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V> N;
  typedef GlobalLoop::MassApproxEigenvalue<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V> M;
  typedef GlobalLoop::ShiftedInverseEigenvalue<Topo<d, arr>, Geom<d, arr>, Node<d, arr>, LS, V> I;
  Nets nets;
  for (unsigned int l = 1; l <= 3; ++l)
    nets.by_level[l] = make_net(rng, d);
  const double tol = std::is_same_v<F, float> ? 2e-4 : 1e-12;
  Ref rn{d, nd, nullptr, 1, 0, LS::blind, 1., tol}, rm = rn, ri = rn;
  auto pn = Maker<N, LS, d, arr>::make(rng, nets, rn);
  auto pm = Maker<M, LS, d, arr>::make(rng, nets, rm);
  auto pi = Maker<I, LS, d, arr>::make(rng, nets, ri);
  uint64_t h = vh::mix(hash(nets.at(1)), d * 10 + nd);
  for (int step = 0; step < 8; ++step)
  {
    rn.net = &nets.at(rn.level);
    rm.net = &nets.at(rm.level);
    ri.net = &nets.at(ri.level);
    vh::check_eq((unsigned int)pn->size_of_system(), rn.size(), "size-of-system");
    vh::check_eq((unsigned int)pm->size_of_system(), rm.size(), "size-of-system");
    vh::check_eq((unsigned int)pi->size_of_system(), ri.size(), "size-of-system");
    vh::check(pn->get_refinement() == rn.level && pm->get_refinement() == rm.level && pi->get_refinement() == ri.level, "refinement");
    const double time = pick_time(rng), t2 = pick_time(rng);
    const int op = rng.i(0, 8);
    h = vh::mix(vh::mix(h, op), time);
    logg = Log();
    if (op <= 2)
    {
      // Vectors of eigenvalue problems may carry the eigenvalue as additional last entry.
      const bool extra = op == 0 && rng.coin();
      const Ref& r = op == 0 ? rn : op == 1 ? rm : ri;
      V x = random_vec<V>(rng, r.size() + extra);
      const V keep = x;
      V y;
      if (op == 0)
        y = time == 0. ? pn->trace_to_flux(x) : pn->trace_to_flux(x, time);
      else if (op == 1)
        y = time == 0. ? pm->trace_to_flux(x) : pm->trace_to_flux(x, time);
      else
        y = time == 0. ? pi->trace_to_flux(x) : pi->trace_to_flux(x, time);
      r.visited("trace_to_flux", "trace-to-flux");
      vh::check_vec(dbl(y), r.apply(FLUX, dbl(x), time), "trace-to-flux", tol, 1.);
      vh::check(x == keep, "input-modified");
      vh::event("products");
    }
    else if (op == 3)
    {
      const V x = random_vec<V>(rng, rm.size()), keep = x;
      const V y = time == 0. ? pm->trace_to_mass_flux(x) : pm->trace_to_mass_flux(x, time);
      rm.visited("trace_to_mass_flux", "mass-flux");
      vh::check_vec(dbl(y), rm.apply(MASS, dbl(x), time), "mass-flux", tol, 1.);
      vh::check(x == keep, "input-modified");
      vh::event("mass-products");
    }
    else if (op == 4)
    {
      const bool extra = rng.coin();
      const V x = random_vec<V>(rng, rn.size() + extra), v = random_vec<V>(rng, rn.size() + extra), kx = x, kv = v;
      const V y = pn->jacobian_of_trace_to_flux(x, time, v, t2);
      rn.visited("jacobian", "jacobian");
      auto want = rn.apply(JAC, dbl(x), t2);
      const auto add = rn.apply(JACV, dbl(v), time);
      for (size_t k = 0; k < want.size(); ++k)
        want[k] += add[k];
      vh::check_vec(dbl(y), want, "jacobian", tol, 1.);
      vh::check(x == kx && v == kv, "input-modified");
      vh::event("jacobians");
    }
    else if (op == 5)
    {
      const V x = random_vec<V>(rng, rn.size()), keep = x;
      const V y = time == 0. ? pn->make_initial(x) : pn->make_initial(x, time);
      rn.visited("make_initial", "make-initial");
      std::vector<double> want(rn.size(), 0.);
      for (auto& e : rn.net->nodes)
        for (auto k : e)
          for (unsigned int a = 0; a < nd; ++a)
            want[k * nd + a] = (F)coef(INIT, LS::blind ? 0 : k, 0, a, 0, 0, time);
      vh::check_vec(dbl(y), want, "make-initial", tol, 1.);
      vh::check(x == keep, "input-modified");
      vh::event("initial-states");
    }
    else if (op == 6)
      dirichlet_set(*pm, rm);
    else if (op == 7)
      dirichlet_set(*pi, ri);
    else
    {
      const unsigned int l = rng.u(1, 3);
      switch (rng.i(0, 2))
      {
        case 0:
          pn->set_refinement(rn.level = l);
          break;
        case 1:
          pm->set_refinement(rm.level = l);
          break;
        default:
          pi->set_refinement(ri.level = l);
      }
      vh::event("refinements");
    }
  }
  vh::state(h);
}
VH_SCENARIO(eigenvalue_loops)
{
  switch (rng.i(0, 3))
  {
    case 0:
      run<Blind, 1, 1, false, double>(rng);
      break;
    case 1:
      run<Seeing, 1, 2, true, double>(rng);
      break;
    case 2:
      run<Seeing, 2, 2, false, double>(rng);
      break;
    default:
      run<Seeing, 2, 1, true, float>(rng);
  }
}
#endif
VH_MAIN
