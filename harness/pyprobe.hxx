// Local solver of the monitor of the Python interface: results depend on every argument.
#pragma once
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>

namespace LocalSolver
{
struct ProbeErrors
{
  typedef std::array<double, 2> error_t;
  static error_t initial_error() { return {0.5, 0.}; }
  static error_t sum_error(const error_t& s, const error_t& e) { return {s[0] + e[0], std::max(s[1], e[1])}; }
  static error_t postprocess_error(const error_t& s) { return {3. * s[0], s[1] + 1.}; }
};
inline double probe_value(const double& x)
{
  return x;
}
inline double probe_value(const std::vector<double>& x)
{
  double s = 1.;
  for (unsigned int i = 0; i < x.size(); ++i)
    s += (i + 1) * x[i];
  return s;
}
template <unsigned int hyEdge_dimT, unsigned int nd, typename constructT = double>
class Probe
{
 public:
  struct data_type
  {
    std::vector<double> stored;
    double time = 0.;
  };
  typedef constructT constructor_value_type;
  typedef ProbeErrors error_def;
  typedef ProbeErrors solver_error;
  double factor = 1.;
  Probe() {}
  Probe(const constructT& c) : factor(probe_value(c)) {}
  static constexpr unsigned int hyEdge_dim() { return hyEdge_dimT; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return 2; }
  static constexpr unsigned int node_system_dimension() { return 1; }

 private:
  // Bounded, and sensitive to the hyperedge, its position and all indices.
  static double coef(double id, unsigned int i, unsigned int a, unsigned int j, unsigned int b)
  {
    return std::sin(1.7 * id + 0.9 * i + 2.3 * a + 4.1 * j + 5.9 * b);
  }
  template <typename E>
  static double ident(E& e)
  {
    double s = 0.25;
    for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
      s += (1 + i) * 0.31 * e.topology.get_hyNode_indices()[i] + 0.01 * e.node_descriptor[i];
    Point<hyEdge_dimT, double> x(0.3);
    auto y = e.geometry.map_ref_to_phys(x);
    for (unsigned int k = 0; k < decltype(y)::size(); ++k)
      s += (k + 1) * y[k];
    return s;
  }
  template <typename I, typename O>
  void apply(double id, double scale, const I& in, O& out, double shift) const
  {
    for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
      for (unsigned int a = 0; a < nd; ++a)
      {
        double s = shift * coef(id, i, a, 7, 7);
        for (unsigned int j = 0; j < 2 * hyEdge_dimT; ++j)
          for (unsigned int b = 0; b < nd; ++b)
            s += coef(id + scale, i, a, j, b) * in[j][b];
        out[i][a] += factor * s;
      }
  }

 public:
  template <typename I, typename O, typename E>
  O& trace_to_flux(const I& in, O& out, E& e, const double time = 0.) const
  {
    apply(ident(e), time, in, out, 0.);
    return out;
  }
  template <typename I, typename O, typename E>
  O& residual_flux(const I& in, O& out, E& e, const double time = 0.) const
  {
    apply(ident(e), 0.5 + time, in, out, 1. + time);
    for (unsigned int k = 0; k < e.data.stored.size(); ++k)
      out[k / nd][k % nd] += e.data.stored[k] * e.data.time;
    return out;
  }
  template <typename I, typename O, typename E>
  O& trace_to_mass_flux(const I& in, O& out, E& e, const double time = 0.) const
  {
    apply(ident(e), 0.8 + time, in, out, 0.);
    return out;
  }
  template <typename I, typename O, typename E>
  O& jacobian_of_trace_to_flux(const I& in, O& out, const double eig, const I& vals, const double eig_val, E& e) const
  {
    apply(ident(e), 1.2 + eig_val, in, out, 0.);
    apply(ident(e), 1.9, vals, out, eig);
    return out;
  }
  template <typename O, typename E>
  O& make_initial(O& out, E& e, const double time = 0.) const
  {
    for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
      for (unsigned int a = 0; a < nd; ++a)
        out[i][a] = factor * std::cos(0.1 * e.topology.get_hyNode_indices()[i] + a + time);
    return out;
  }
  template <typename I, typename E>
  ProbeErrors::error_t errors(const I& in, E& e, const double time = 0.) const
  {
    double s = time, m = 0.;
    for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
      for (unsigned int a = 0; a < nd; ++a)
      {
        s += coef(ident(e), i, a, 0, 0) * in[i][a];
        m = std::max(m, std::abs((double)in[i][a]));
      }
    return {s, m};
  }
  template <typename I, typename E>
  void set_data(const I& in, E& e, const double time = 0.) const
  {
    e.data.stored.clear();
    for (auto& x : in)
      for (auto v : x)
        e.data.stored.push_back(v);
    e.data.time = time;
  }
  template <typename E>
  std::array<unsigned int, 2 * hyEdge_dimT> node_types(E& e) const
  {
    std::array<unsigned int, 2 * hyEdge_dimT> r;
    for (unsigned int k = 0; k < 2 * hyEdge_dimT; ++k)
      r[k] = e.node_descriptor[k] != 0;
    return r;
  }
  template <typename A, size_t N, typename I, typename E>
  std::array<std::array<double, Hypercube<hyEdge_dimT>::pow(N)>, 2> bulk_values(const std::array<A, N>& x, const I& in, E& e, const double time = 0.) const
  {
    std::array<std::array<double, Hypercube<hyEdge_dimT>::pow(N)>, 2> r;
    for (unsigned int c = 0; c < 2; ++c)
      for (unsigned int p = 0; p < r[c].size(); ++p)
      {
        double s = time;
        for (unsigned int k = 0, q = p; k < hyEdge_dimT; ++k, q /= N)
          s += (k + 1) * x[q % N];
        for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
          for (unsigned int a = 0; a < nd; ++a)
            s += coef(ident(e), i, a, c, 0) * in[i][a];
        r[c][p] = s;
      }
    return r;
  }
};
}  // namespace LocalSolver
