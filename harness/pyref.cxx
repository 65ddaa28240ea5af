// Executes the operations that the monitor of the Python interface performs, directly in C++.
// Input: lines "operation object arguments".  Output: a line (a matrix: three) per operation.
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/local_solver/probe.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

typedef LOOP P;
static std::ofstream out;  // The library prints to the standard output.
// Multiples of 1/8.
static double number(std::istream& in)
{
  long x;
  in >> x;
  return x / 8.;
}
static std::vector<double> list(std::istream& in)
{
  unsigned int n;
  in >> n;
  std::vector<double> v(n);
  for (auto& x : v)
    x = number(in);
  return v;
}
// Entries from a number and their position.
static std::vector<double> vec(std::istream& in, const P& p)
{
  unsigned long seed;
  in >> seed;
  std::vector<double> v(p.size_of_system() + (WHICH == 5));
  for (unsigned int i = 0; i < v.size(); ++i)
    v[i] = ((long)((seed * 1103515245ul + i * 7919ul + i * i * 31ul) % 2001ul) - 1000) / 64.;
  return v;
}
template <typename V>
static void put(const V& v)
{
  out << std::hexfloat << v.size();
  for (auto x : v)
    out << ' ' << (double)x;
  out << '\n';
}
#if KIND == 1
typedef std::vector<unsigned int> topo_t;
static topo_t topo(std::istream& in)
{
  unsigned int n;
  in >> n;
  topo_t v(n);
  for (auto& x : v)
    in >> x;
  return v;
}
#else
typedef std::string topo_t;
static topo_t topo(std::istream& in)
{
  topo_t s;
  in >> s;
  return s;
}
#endif
#if LSOL == 1
typedef double lsol_t;
static lsol_t lsol(std::istream& in)
{
  return list(in)[0];
}
#else
typedef std::vector<double> lsol_t;
static lsol_t lsol(std::istream& in)
{
  return list(in);
}
#endif
int main(int, char** argv)
{
  out.open(argv[1]);
  std::map<int, std::unique_ptr<P>> objects;
  std::string line, op;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    int k;
    in >> op >> k;
    if (op == "new")
    {
      int form;
      in >> form;
      auto t = topo(in);
      if (form == 1)
        objects[k] = std::make_unique<P>(t);
      else if (form == 2)
        objects[k] = std::make_unique<P>(t, lsol(in));
      else
      {
        auto g = topo(in);
        objects[k] = std::make_unique<P>(t, g, lsol(in));
      }
      out << "ok\n";
      continue;
    }
    P& p = *objects.at(k);
    if (op == "size")
      out << p.size_of_system() << "\n";
    else if (op == "refinement")
      out << p.get_refinement() << "\n";
    else if (op == "refine")
    {
      unsigned int n;
      in >> n;
      p.set_refinement(n);
      out << n << "\n";
    }
    else if (op == "option")
    {
      std::string o, v;
      in >> o >> v;
      out << p.plot_option(o, v == "-" ? "" : v) << "\n";
    }
    else if (op == "plot")
    {
      auto v = vec(in, p);
      p.plot_solution(v, number(in));
      out << "ok\n";
    }
    else if (op == "delete")
    {
      objects.erase(k);
      out << "ok\n";
    }
#if WHICH == 1
    else if (op == "dirichlet")
    {
      unsigned int n;
      in >> n;
      std::vector<unsigned int> v(n);
      for (auto& x : v)
      {
        in >> x;
        x %= p.size_of_system();
      }
      p.read_dirichlet_indices(v);
      out << "ok\n";
    }
    else if (op == "matrix")
    {
      auto m = p.trace_to_flux_mat();
      put(m.get_cols());
      put(m.get_rows());
      put(m.get_values());
    }
#endif
#if WHICH <= 2
    else if (op == "zero")
      put(p.zero_vector());
    else if (op == "residual")
    {
      auto v = vec(in, p);
      put(p.residual_flux(v, number(in)));
    }
    else if (op == "errors")
    {
      auto v = vec(in, p);
      put(p.errors(v, number(in)));
    }
#endif
#if WHICH == 2
    else if (op == "data")
    {
      auto v = vec(in, p);
      p.set_data(v, number(in));
      out << "ok\n";
    }
#endif
#if WHICH == 2 || WHICH == 5
    else if (op == "initial")
    {
      auto v = vec(in, p);
      put(p.make_initial(v, number(in)));
    }
#endif
#if WHICH == 3 || WHICH == 4
    else if (op == "indices")
      put(p.dirichlet_indices());
#endif
#if WHICH == 3
    else if (op == "mass")
    {
      auto v = vec(in, p);
      put(p.trace_to_mass_flux(v, number(in)));
    }
#endif
#if WHICH == 5
    else if (op == "jacobian")
    {
      auto v = vec(in, p);
      double eig = number(in);
      auto w = vec(in, p);
      put(p.jacobian_of_trace_to_flux(v, eig, w, number(in)));
    }
#endif
    else if (op == "flux")
    {
      auto v = vec(in, p);
      put(p.trace_to_flux(v, number(in)));
    }
    else
      return 3;
  }
}
