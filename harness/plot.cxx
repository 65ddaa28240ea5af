// Monitors of plotting: PART 1 written files against the hypergraph and the local solver, PART 2 options and file names.
#include "grid.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/plot.hxx>
#include <filesystem>
#include <regex>

#ifndef PART
#define PART 1
#endif
using grid::Vec;
namespace fs = std::filesystem;

// ------------------------------------------------------------------------------ VTU parser
struct Tag
{
  std::string name;
  std::map<std::string, std::string> attr;
  std::vector<Tag> kids;
  std::string text;
  const Tag* kid(const std::string& n) const
  {
    const Tag* r = nullptr;
    for (auto& k : kids)
      if (k.name == n)
      {
        if (!vh::check(r == nullptr, "vtu-section-repeated", n))
          return nullptr;
        r = &k;
      }
    vh::check(r != nullptr, "vtu-section-missing", n);
    return r;
  }
};
struct Xml
{
  std::string s;
  size_t p = 0;
  bool ok = true;
  void blank()
  {
    while (p < s.size() && isspace((unsigned char)s[p]))
      ++p;
  }
  bool bad(const std::string& why)
  {
    if (ok)
      vh::fail("vtu-malformed", why + " at offset " + std::to_string(p));
    ok = false;
    return false;
  }
  bool tag(Tag& t)
  {
    if (p >= s.size() || s[p] != '<')
      return bad("expected <");
    ++p;
    while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_'))
      t.name += s[p++];
    if (t.name.empty())
      return bad("tag without name");
    for (;;)
    {
      blank();
      if (p >= s.size())
        return bad("end of file in tag");
      if (s.compare(p, 2, "/>") == 0)
      {
        p += 2;
        return true;
      }
      if (s[p] == '>')
      {
        ++p;
        break;
      }
      std::string n, v;
      while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_'))
        n += s[p++];
      blank();
      if (n.empty() || p >= s.size() || s[p++] != '=')
        return bad("attribute");
      blank();
      if (p >= s.size() || s[p++] != '"')
        return bad("attribute value");
      while (p < s.size() && s[p] != '"')
        v += s[p++];
      ++p;
      if (!t.attr.emplace(n, v).second)
        return bad("attribute twice");
    }
    for (;;)
    {
      while (p < s.size() && s[p] != '<')
        t.text += s[p++];
      if (p >= s.size())
        return bad("end of file in " + t.name);
      if (s.compare(p, 2, "</") == 0)
      {
        p += 2;
        std::string n;
        while (p < s.size() && s[p] != '>')
          n += s[p++];
        ++p;
        if (n != t.name)
          return bad("closing " + n + " instead of " + t.name);
        return true;
      }
      Tag k;
      if (!tag(k))
        return false;
      t.kids.push_back(k);
    }
  }
  bool parse(Tag& t)
  {
    blank();
    if (s.compare(p, 5, "<?xml") == 0)
    {
      p = s.find("?>", p);
      if (p == std::string::npos)
        return bad("declaration");
      p += 2;
    }
    blank();
    if (!tag(t))
      return false;
    blank();
    if (p != s.size())
      return bad("text after the document");
    return true;
  }
};
static bool numbers(const Tag& t, std::vector<double>& v)
{
  std::istringstream in(t.text);
  std::string w;
  const std::string ty = t.attr.count("type") ? t.attr.at("type") : "";
  vh::check(ty == "Float32" || ty == "Float64" || ty == "Int32" || ty == "Int64" || ty == "UInt8", "vtu-type", ty);
  vh::check(t.attr.count("format") && t.attr.at("format") == "ascii", "vtu-format");
  while (in >> w)
  {
    size_t pos = 0;
    double x = 0;
    try
    {
      x = std::stod(w, &pos);
    }
    catch (...)
    {
      pos = 0;
    }
    if (!vh::check(pos == w.size(), "vtu-number", w))
      return false;
    if (ty[0] != 'F')
      vh::check(w.find_first_not_of("0123456789") == std::string::npos, "vtu-integer", w);
    v.push_back(x);
  }
  return true;
}
struct Vtu
{
  size_t n_points = 0, n_cells = 0, comps = 0;
  bool has_index = false, has_values = false;
  std::vector<double> pts, conn, off, types, values, index;
};
static std::string slurp(const std::string& name)
{
  std::ifstream f(name);
  std::stringstream b;
  b << f.rdbuf();
  return b.str();
}
static bool read_vtu(const std::string& name, Vtu& v)
{
  if (!vh::check(fs::is_regular_file(name), "file-written", name))
    return false;
  Xml x;
  x.s = slurp(name);
  Tag t;
  if (!x.parse(t))
    return false;
  vh::check(t.name == "VTKFile" && t.attr["type"] == "UnstructuredGrid", "vtu-root");
  const Tag* g = t.kid("UnstructuredGrid");
  const Tag* pc = g ? g->kid("Piece") : nullptr;
  if (!pc)
    return false;
  v.n_points = std::atoll(pc->attr.count("NumberOfPoints") ? pc->attr.at("NumberOfPoints").c_str() : "-1");
  v.n_cells = std::atoll(pc->attr.count("NumberOfCells") ? pc->attr.at("NumberOfCells").c_str() : "-1");
  const Tag *p = pc->kid("Points"), *c = pc->kid("Cells"), *cd = pc->kid("CellData"), *pd = pc->kid("PointData");
  if (!p || !c || !cd || !pd)
    return false;
  const Tag* pa = p->kid("DataArray");
  if (!pa || !numbers(*pa, v.pts))
    return false;
  vh::check(pa->attr.count("NumberOfComponents") && pa->attr.at("NumberOfComponents") == "3", "vtu-coordinates");
  std::set<std::string> names;
  for (auto& a : c->kids)
  {
    const std::string n = a.attr.count("Name") ? a.attr.at("Name") : "";
    vh::check(names.insert(n).second, "vtu-array-twice", n);
    if (!numbers(a, n == "connectivity" ? v.conn : n == "offsets" ? v.off : v.types))
      return false;
  }
  vh::check(names == std::set<std::string>({"connectivity", "offsets", "types"}), "vtu-cell-arrays");
  for (auto& a : cd->kids)
  {
    v.has_index = true;
    if (!numbers(a, v.index))
      return false;
  }
  for (auto& a : pd->kids)
  {
    vh::check(!v.has_values, "vtu-values-twice");
    v.has_values = true;
    v.comps = std::atoll(a.attr.count("NumberOfComponents") ? a.attr.at("NumberOfComponents").c_str() : "0");
    if (!numbers(a, v.values))
      return false;
  }
  // Structural validity.
  bool ok = vh::check_eq(v.pts.size(), 3 * v.n_points, "vtu-number-of-coordinates");
  ok = vh::check_eq(v.off.size(), v.n_cells, "vtu-number-of-offsets") && ok;
  ok = vh::check_eq(v.types.size(), v.n_cells, "vtu-number-of-types") && ok;
  if (v.has_values)
    ok = vh::check_eq(v.values.size(), v.comps * v.n_points, "vtu-number-of-values") && ok;
  if (v.has_index)
    ok = vh::check_eq(v.index.size(), v.n_cells, "vtu-number-of-indices") && ok;
  double last = 0;
  static const std::map<int, int> sizes = {{1, 1}, {3, 2}, {8, 4}, {11, 8}};
  for (size_t k = 0; ok && k < v.n_cells; ++k)
  {
    ok = vh::check(sizes.count((int)v.types[k]), "vtu-cell-type", std::to_string((int)v.types[k])) && ok;
    if (ok)
      ok = vh::check_eq(v.off[k] - last, (double)sizes.at((int)v.types[k]), "vtu-offset", "cell " + std::to_string(k));
    last = v.off[k];
  }
  ok = vh::check_eq(v.conn.size(), (size_t)last, "vtu-connectivity-size") && ok;
  for (auto i : v.conn)
    ok = vh::check_lazy(i >= 0 && i < v.n_points, "vtu-connectivity-range", [&] { return vh::num(i); }) && ok;
  vh::event("files-parsed");
  return ok;
}
// ------------------------------------------------------------------------------ recording local solver
static double coef(unsigned int c, unsigned int i, unsigned int a)
{
  return (double)(vh::mix(vh::mix(vh::mix(5, c), i), a) % 201) / 100. - 1.;
}
static double value(unsigned int c, const Vec& x, const std::vector<Vec>& dofs, double id, double time)
{
  double s = id + time * (c + 1);
  for (size_t k = 0; k < x.size(); ++k)
    s += (2. + k + 3. * c) * x[k];
  for (size_t i = 0; i < dofs.size(); ++i)
    for (size_t a = 0; a < dofs[i].size(); ++a)
      s += coef(c, i, a) * dofs[i][a] * (1. + x[0]);
  return s;
}
struct SolBase
{
  struct data_type
  {
  };
  struct error_def
  {
    typedef std::array<double, 1> error_t;
  };
};
template <unsigned int d, unsigned int sys, unsigned int node, unsigned int nd, bool blind, typename V>
struct Sol : SolBase
{
  typedef double solver_float_t;
  typedef int constructor_value_type;
  Sol(const int& = 0) {}
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return sys; }
  static constexpr unsigned int node_system_dimension() { return node; }
  template <typename A, size_t N, typename I>
  std::array<std::array<V, Hypercube<d>::pow(N)>, sys> values(const std::array<A, N>& ab, const I& dofs, double id, double time) const
  {
    std::array<std::array<V, Hypercube<d>::pow(N)>, sys> r;
    std::vector<Vec> v;
    for (auto& x : dofs)
      v.emplace_back(x.begin(), x.end());
    for (unsigned int c = 0; c < sys; ++c)
      for (unsigned int p = 0; p < r[c].size(); ++p)
      {
        Vec x;
        unsigned int q = p;
        for (unsigned int k = 0; k < d; ++k, q /= N)
          x.push_back(ab[q % N]);
        r[c][p] = (V)value(c, x, v, id, time);
      }
    vh::event("local-evaluations");
    return r;
  }
  template <typename A, size_t N, typename I, bool b = blind, std::enable_if_t<b, int> = 0>
  auto bulk_values(const std::array<A, N>& ab, const I& dofs, const V time = 0.) const
  {
    return values(ab, dofs, 0., time);
  }
  template <typename A, size_t N, typename I, typename E, bool b = blind, std::enable_if_t<!b, int> = 0>
  auto bulk_values(const std::array<A, N>& ab, const I& dofs, E& e, const V time = 0.) const
  {
    double id = 0;
    for (unsigned int f = 0; f < 2 * d; ++f)
      id += (f + 1) * 0.25 * e.topology.get_hyNode_indices()[f];
    return values(ab, dofs, id, time);
  }
};
// ------------------------------------------------------------------------------ oracle
struct Expect
{
  bool edges, bounds, numbers;
  double scale, bscale, time;
  unsigned int sys, node;
  bool blind;
};
static bool near(const Vec& a, const Vec& b, double size)
{
  for (size_t k = 0; k < 3; ++k)
  {
    const double x = k < b.size() ? b[k] : 0.;
    if (!(std::abs(a[k] - x) <= 6e-4 * std::abs(x) + 2e-6 * size))
      return false;
  }
  return true;
}
static Vec pt(const Vtu& v, size_t i)
{
  return {v.pts[3 * i], v.pts[3 * i + 1], v.pts[3 * i + 2]};
}
// Returns for each vertex of the cell (VTK pixel / voxel order) which corner it is.
static bool match(const Vtu& v, size_t first, size_t nv, const std::vector<Vec>& corners, double size, std::vector<unsigned int>& bits, const std::string& what)
{
  bits.clear();
  std::vector<std::vector<unsigned int>> cand;
  for (size_t k = 0; k < nv; ++k)
  {
    const Vec p = pt(v, (size_t)v.conn[first + k]);
    int best = -1;
    double bd = 1e300;
    for (size_t c = 0; c < corners.size(); ++c)
    {
      Vec q = corners[c];
      q.resize(3, 0.);
      const double dist = grid::norm(grid::sub(q, p));
      if (dist < bd)
      {
        bd = dist;
        best = c;
      }
    }
    // In order (identity) if that also fits: robust if corners nearly coincide.
    if (near(p, corners[k], size))
      best = k;
    if (!vh::check_lazy(near(p, corners[best], size), "plotted-point", [&] {
          return what + " vertex " + std::to_string(k) + " is (" + vh::num(p[0]) + " " + vh::num(p[1]) + " " + vh::num(p[2]) + "), nearest corner (" + vh::num(corners[best][0]) + " " +
                 (corners[best].size() > 1 ? vh::num(corners[best][1]) : "-") + " ...)";
        }))
      return false;
    bits.push_back(best);
  }
  std::set<unsigned int> all(bits.begin(), bits.end());
  bool ok = vh::check_eq(all.size(), nv, "plotted-corners-distinct", what);
  // Axes: vertex 2^k differs from vertex 0 in exactly one direction, the others follow.
  for (size_t k = 0; ok && k < nv; ++k)
  {
    unsigned int want = bits[0];
    for (unsigned int j = 0; (1u << j) <= k; ++j)
      if (k >> j & 1)
        want ^= bits[1u << j] ^ bits[0];
    ok = vh::check_eq(bits[k], want, "plotted-cell-order", what);
    if (k && (k & (k - 1)) == 0)
      ok = vh::check_eq(__builtin_popcount(bits[k] ^ bits[0]), 1, "plotted-cell-axes", what) && ok;
  }
  vh::event("cells-checked");
  return ok;
}
static void oracle(const Vtu& v, const grid::Record& r, const std::vector<double>& lambda, unsigned int nd, const Expect& x)
{
  const unsigned int d = r.d, nv = 1u << d, nb = 1u << (d - 1);
  const size_t cells = (x.edges ? r.n_edges : 0) + (x.bounds ? 2 * d * r.n_edges : 0);
  if (!vh::check_eq(v.n_cells, cells, "number-of-cells") || !vh::check_eq(v.has_index, x.numbers, "numbers-written"))
    return;
  vh::check_eq(v.n_points, (x.edges ? r.n_edges * nv : 0) + (x.bounds ? 2 * d * r.n_edges * nb : 0), "number-of-points");
  if (vh::check_eq(v.has_values, x.sys != 0, "values-written") && x.sys != 0)
    vh::check_eq(v.comps, (size_t)std::max(x.sys, x.node), "number-of-components");
  static const int types[] = {1, 3, 8, 11};
  size_t cell = 0;
  std::set<size_t> used;
  for (size_t e = 0; x.edges && e < r.n_edges; ++e, ++cell)
  {
    const auto& c = r.cells[e];
    const std::string what = "edge " + std::to_string(e);
    vh::check_eq((int)v.types[cell], types[d], "cell-type", what);
    double size = grid::norm(c.origin);
    std::vector<Vec> corners, ref;
    for (auto& s : c.span)
      size += grid::norm(s);
    for (unsigned int b = 0; b < nv; ++b)
    {
      Vec p = c.origin, l;
      for (unsigned int k = 0; k < d; ++k)
      {
        l.push_back(0.5 + x.scale * ((b >> k & 1) - 0.5));
        p = grid::axpy(l[k], c.span[k], p);
      }
      corners.push_back(p);
      ref.push_back(l);
    }
    std::vector<unsigned int> bits;
    const size_t first = (size_t)v.off[cell] - nv;
    if (!match(v, first, nv, corners, size, bits, what))
      return;
    std::vector<Vec> dofs;
    double id = 0;
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      dofs.emplace_back(lambda.begin() + c.nodes[f] * nd, lambda.begin() + (c.nodes[f] + 1) * nd);
      id += (f + 1) * 0.25 * c.nodes[f];
    }
    for (unsigned int k = 0; k < nv; ++k)
    {
      const size_t i = (size_t)v.conn[first + k];
      used.insert(i);
      for (unsigned int comp = 0; v.has_values && comp < v.comps; ++comp)
      {
        double want = 0, mag = 0;
        if (comp < x.sys)
        {
          want = value(comp, ref[bits[k]], dofs, x.blind ? 0. : id, x.time);
          mag = std::abs(id) + 5 * std::abs(x.time) + 40;
          for (auto& q : dofs)
            for (double y : q)
              mag += 2 * std::abs(y);
        }
        const double got = v.values[i * v.comps + comp];
        vh::check_lazy(std::abs(got - want) <= 6e-4 * std::abs(want) + 2e-6 * mag, "plotted-value", [&] { return what + " component " + std::to_string(comp) + " is " + vh::num(got) + " not " + vh::num(want); });
        vh::event("values-checked");
      }
    }
    if (x.numbers)
      vh::check_eq((size_t)v.index[cell], e, "edge-number", what);
  }
  for (size_t e = 0; x.bounds && e < r.n_edges; ++e)
    for (unsigned int f = 0; f < 2 * d; ++f, ++cell)
    {
      const auto& c = r.cells[e];
      const std::string what = "edge " + std::to_string(e) + " boundary " + std::to_string(f);
      vh::check_eq((int)v.types[cell], types[d - 1], "boundary-cell-type", what);
      double size = grid::norm(c.origin);
      for (auto& s : c.span)
        size += grid::norm(s);
      std::vector<Vec> corners;
      for (unsigned int b = 0; b < nb; ++b)
      {
        Vec p = grid::axpy(0.5 + x.bscale * ((int)(f % 2) - 0.5), c.span[f / 2], c.origin);
        for (unsigned int k = 0, j = 0; k < d; ++k)
          if (k != f / 2)
            p = grid::axpy(0.5 + x.scale * x.bscale * ((b >> j++ & 1) - 0.5), c.span[k], p);
        corners.push_back(p);
      }
      std::vector<unsigned int> bits;
      const size_t first = (size_t)v.off[cell] - nb;
      if (!match(v, first, nb, corners, size, bits, what))
        return;
      for (unsigned int k = 0; k < nb; ++k)
        used.insert((size_t)v.conn[first + k]);
      vh::event("boundary-cells");
    }
  vh::check_eq(used.size(), v.n_points, "points-used");
}
struct Silence
{
  std::ostringstream o;
  std::streambuf* b;
  Silence() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Silence() { std::cout.rdbuf(b); }
};
template <typename HG, typename S, typename V>
static void plot_case(vh::Rng& rng, HG& hg, const grid::Record& r, unsigned int sys, unsigned int node, bool blind, uint64_t h)
{
  const S sol;
  const unsigned int nd = S::n_glob_dofs_per_node();
  std::vector<V> lambda(r.n_nodes * nd);
  for (auto& l : lambda)
    l = rng.coin(4) ? 0 : rng.coin(6) ? (V)rng.d(-1e4, 1e4) : (V)rng.d(-2., 2.);
  PlotOptions o;
  o.outputDir = vh::scratch() + "/plot";
  o.fileName = "f";
  Expect x;
  x.edges = o.plot_edges = rng.coin(4) ? false : true;
  x.bounds = o.plot_edge_boundaries = rng.coin();
  x.numbers = o.numbers = rng.coin(3);
  o.scale = rng.coin() ? 1.f : rng.i(1, 8) / 8.f;
  o.boundary_scale = rng.coin() ? 1.f : rng.i(1, 8) / 8.f;
  x.scale = o.scale;
  x.bscale = o.boundary_scale;
  x.time = rng.coin(3) ? 0. : rng.i(-40, 40) / 8.;
  x.sys = sys;
  x.node = node;
  x.blind = blind;
  const auto keep = lambda;
  {
    Silence s;
    if (x.time == 0. && rng.coin())
      plot(hg, sol, lambda, o);
    else
      plot(hg, sol, lambda, o, (V)x.time);
  }
  vh::check(keep == lambda, "input-modified");
  vh::check_eq(o.fileNumber, 1u, "file-number");
  Vtu v;
  if (read_vtu(o.outputDir + "/f.0.vtu", v))
    oracle(v, r, std::vector<double>(lambda.begin(), lambda.end()), nd, x);
  fs::remove_all(o.outputDir);
  vh::state(vh::mix(vh::mix(vh::mix(h, x.edges + 2 * x.bounds + 4 * x.numbers), x.scale), lambda[0]));
}
template <unsigned int d, typename HG, unsigned int nd>
static void solver_of(vh::Rng& rng, HG& hg, const grid::Record& r, uint64_t h)
{
  if constexpr (nd == 1)
    switch (rng.i(0, 2))
    {
      case 0:
        return plot_case<HG, Sol<d, 1, 1, nd, false, double>, double>(rng, hg, r, 1, 1, false, h);
      case 1:
        return plot_case<HG, Sol<d, d + 1, 1, nd, false, double>, double>(rng, hg, r, d + 1, 1, false, h);
      default:
        return plot_case<HG, Sol<d, 1, 1, nd, true, float>, float>(rng, hg, r, 1, 1, true, h);
    }
  else
    switch (rng.i(0, 2))
    {
      case 0:
        return plot_case<HG, Sol<d, 2, 4, nd, false, double>, double>(rng, hg, r, 2, 4, false, h);
      case 1:
        return plot_case<HG, Sol<d, 6, 2, nd, false, double>, double>(rng, hg, r, 6, 2, false, h);
      default:
        return plot_case<HG, Sol<d, d + 1, 1, nd, true, double>, double>(rng, hg, r, d + 1, 1, true, h);
    }
}
template <unsigned int d, unsigned int s, unsigned int nd>
static void cubic(vh::Rng& rng, unsigned int maxn, unsigned int maxr, unsigned int minn = 1)
{
  typedef HDGHyperGraph<nd, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, SolBase::data_type> HG;
  std::vector<unsigned int> n(s);
  uint64_t h = 10 * d + s;
  for (auto& x : n)
  {
    x = rng.u(minn, maxn);
    h = vh::mix(h, x);
  }
  HG hg(n);
  const unsigned int ref = rng.u(1, maxr);
  if (ref > 1)
    hg.set_refinement(ref);
  Topology::Cubic<d, s> topo(n);
  topo.set_refinement(ref);
  Geometry::UnitCube<d, s> geom(topo);
  const auto r = grid::record<d, s, double, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>>(topo, &geom, nullptr, rng, false);
  solver_of<d, HG, nd>(rng, hg, r, vh::mix(h, ref));
}
template <unsigned int d, unsigned int s, unsigned int nd>
static void file(vh::Rng& rng, unsigned int maxe, unsigned int maxr)
{
  typedef Topology::File<d, s> T;
  typedef Geometry::File<d, s> G;
  typedef HDGHyperGraph<nd, T, G, NodeDescriptor::File<d, s>, SolBase::data_type> HG;
  const auto f = grid::make_domain(rng, d, s, maxe, false);
  const std::string name = grid::write_domain(f, vh::scratch() + "/plot.geo");
  HG hg(name);
  const unsigned int ref = rng.u(1, maxr);
  if (ref > 1)
    hg.set_refinement(ref);
  T topo(name);
  topo.set_refinement(ref);
  G geom(topo);
  const auto r = grid::record<d, s, double, T, G, NodeDescriptor::File<d, s>>(topo, &geom, nullptr, rng, false);
  solver_of<d, HG, nd>(rng, hg, r, vh::mix(f.hash, ref));
}
#if PART == 1
VH_SCENARIO(cubic_plots)
{
  switch (rng.i(0, 4))
  {
    case 0:
      return cubic<1, 1, 1>(rng, 5, 3);
    case 1:
      return cubic<1, 2, 3>(rng, 3, 2);
    case 2:
      return cubic<2, 2, 1>(rng, 3, 2);
    case 3:
      return cubic<2, 3, 3>(rng, 2, 2);
    default:
      return cubic<3, 3, 1>(rng, 2, 2);
  }
}
VH_SCENARIO_W(large_plots, 0.01)
{
  // Numbers of points beyond 16 bits.
  vh::event("large-plots");
  return rng.coin() ? cubic<2, 2, 1>(rng, 133, 1, 129) : cubic<1, 1, 1>(rng, 34000, 1, 32800);
}
VH_SCENARIO(file_plots)
{
  switch (rng.i(0, 3))
  {
    case 0:
      return file<1, 2, 1>(rng, 6, 3);
    case 1:
      return file<1, 3, 3>(rng, 6, 3);
    case 2:
      return file<2, 3, 1>(rng, 4, 2);
    default:
      return file<3, 3, 3>(rng, 2, 2);
  }
}
#else
// ------------------------------------------------------------------------------ options and file names
struct Model
{
  std::string dir = "output", name = "example";
  unsigned int number = 0;
  bool print = true, inc = true, edges = true, bounds = false;
  double scale = 1, bscale = 1;
  std::string file() const { return dir + "/" + name + (print ? "." + std::to_string(number) : "") + ".vtu"; }
};
static std::map<std::string, std::string> tree(const std::string& root)
{
  std::map<std::string, std::string> m;
  if (fs::exists(root))
    for (auto& e : fs::recursive_directory_iterator(root))
      m[e.path().string()] = e.is_regular_file() ? slurp(e.path().string()) : "<dir>";
  return m;
}
static bool is_true(const std::string& s)
{
  return s == "true" || s == "1";
}
// The reported value of an option is the one of the model.
template <typename F>
static void query(F&& get, const Model& m, const std::string& opt)
{
  const std::string r = get(opt);
  auto num = [&](double want) {
    double got = NAN;
    try
    {
      got = std::stod(r);
    }
    catch (...)
    {
    }
    vh::check_lazy(std::abs(got - want) < 1e-6, "option-" + opt, [&] { return "'" + r + "' instead of " + vh::num(want); });
  };
  auto txt = [&](const std::string& want) { vh::check_eq(r, want, "option-" + opt); };
  auto flag = [&](bool want) { vh::check(want ? is_true(r) : (r == "0" || r == "false"), "option-" + opt, r); };
  if (opt == "outputDir")
    txt(m.dir);
  else if (opt == "fileName")
    txt(m.name);
  else if (opt == "fileEnding")
    txt("vtu");
  else if (opt == "fileNumber")
    txt(std::to_string(m.number));
  else if (opt == "printFileNumber")
    flag(m.print);
  else if (opt == "incrementFileNumber")
    flag(m.inc);
  else if (opt == "plotEdges")
    flag(m.edges);
  else if (opt == "plotEdgeBoundaries")
    flag(m.bounds);
  else if (opt == "scale")
    num(m.scale);
  else if (opt == "boundaryScale")
    num(m.bscale);
  vh::event("options-queried");
}
static const std::vector<std::string> all_options = {"outputDir", "fileName", "fileEnding", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries", "scale", "boundaryScale"};
static std::string set_random(vh::Rng& rng, Model& m, const std::string& opt, const std::string& root)
{
  std::string v;
  if (opt == "outputDir")
    v = m.dir = root + "/d" + std::to_string(rng.i(0, 2));
  else if (opt == "fileName")
    v = m.name = std::string(1, (char)('a' + rng.i(0, 2))) + (rng.coin(4) ? ".x y" : "");
  else if (opt == "fileEnding")
    v = "vtu";
  else if (opt == "fileNumber")
  {
    m.number = rng.coin(4) ? rng.u(0, 1000000) : rng.u(0, 12);
    v = std::to_string(m.number);
  }
  else if (opt == "scale" || opt == "boundaryScale")
  {
    const double x = rng.i(1, 16) / 16.;
    std::ostringstream o;
    o << x;
    v = o.str();
    (opt == "scale" ? m.scale : m.bscale) = x;
  }
  else
  {
    v = rng.pick<std::string>({"true", "false", "1", "0", "False", "no", "off"});
    (opt == "printFileNumber" ? m.print : opt == "incrementFileNumber" ? m.inc : opt == "plotEdges" ? m.edges : m.bounds) = is_true(v);
  }
  return v;
}
template <typename Get, typename Plot>
static void history(vh::Rng& rng, Get&& get, Plot&& plot_it, const grid::Record& r, unsigned int nd, unsigned int sys, unsigned int node)
{
  const std::string root = vh::scratch() + "/plots";
  fs::remove_all(root);
  fs::create_directory(root);
  Model m;
  for (auto& o : all_options)
    query([&](const std::string& s) { return get(s, ""); }, m, o);
  auto set = [&](const std::string& opt) {
    const std::string v = set_random(rng, m, opt, root);
    query([&](const std::string& s) { return get(s, v); }, m, opt);
    vh::event("options-set");
  };
  set("outputDir");
  uint64_t h = 3;
  for (int step = 0; step < 8; ++step)
  {
    for (int k = rng.i(0, 3); k > 0; --k)
      set(rng.pick(all_options));
    for (auto& o : all_options)
      query([&](const std::string& s) { return get(s, ""); }, m, o);
    auto before = tree(root);
    std::vector<double> lambda(r.n_nodes * nd);
    for (auto& l : lambda)
      l = rng.d(-2., 2.);
    Expect x;
    x.edges = m.edges;
    x.bounds = m.bounds;
    x.numbers = false;
    x.scale = m.scale;
    x.bscale = m.bscale;
    x.time = rng.i(-8, 8) / 4.;
    x.sys = sys;
    x.node = node;
    x.blind = false;
    {
      Silence s;
      plot_it(lambda, x.time);
    }
    auto after = tree(root);
    const std::string name = m.file();
    Vtu v;
    if (read_vtu(name, v))
      oracle(v, r, lambda, nd, x);
    // No other file was touched or created.
    before.erase(name);
    after.erase(name);
    before.erase(m.dir);
    after.erase(m.dir);
    vh::check(before == after, "other-files-touched", name);
    if (m.inc)
      ++m.number;
    for (auto& o : all_options)
      query([&](const std::string& s) { return get(s, ""); }, m, o);
    h = vh::mix(vh::fnv(name, h), x.time);
    vh::event("plots");
  }
  fs::remove_all(root);
  vh::state(h);
}
VH_SCENARIO(free_plots)
{
  constexpr unsigned int d = 2, s = 2, nd = 1;
  typedef HDGHyperGraph<nd, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, SolBase::data_type> HG;
  std::vector<unsigned int> n = {rng.u(1, 2), rng.u(1, 2)};
  HG hg(n);
  Topology::Cubic<d, s> topo(n);
  Geometry::UnitCube<d, s> geom(topo);
  const auto r = grid::record<d, s, double, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>>(topo, &geom, nullptr, rng, false);
  const Sol<d, 3, 1, nd, false, double> sol;
  PlotOptions o;
  history(rng, [&](const std::string& a, const std::string& b) { return b.empty() ? set_plot_option(o, a) : set_plot_option(o, a, b); },
          [&](const std::vector<double>& l, double t) { plot(hg, sol, l, o, t); }, r, nd, 3, 1);
}
/* Every kind of problem has the same interface for plots. */
template <template <class, class, class, class> class Problem>
struct Plots
{
  static void run(vh::Rng& rng)
  {
    constexpr unsigned int d = 1, s = 2, nd = 2;
    std::vector<unsigned int> n = {rng.u(1, 3), rng.u(1, 2)};
    typedef Sol<d, 2, 1, nd, false, double> S;
    typedef Problem<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, S> P;
    P p(n);
    // A second problem with other options: they do not interfere.
    P q(n);
    Topology::Cubic<d, s> topo(n);
    Geometry::UnitCube<d, s> geom(topo);
    const auto r = grid::record<d, s, double, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>>(topo, &geom, nullptr, rng, false);
    history(
      rng,
      [&](const std::string& a, const std::string& b) {
        q.plot_option("scale", "0.125");
        return b.empty() ? p.plot_option(a) : p.plot_option(a, b);
      },
      [&](const std::vector<double>& l, double t) { p.plot_solution(l, t); }, r, nd, 2, 1);
  }
};
template <class T, class G, class N, class L>
using EllipticP = GlobalLoop::Elliptic<T, G, N, L>;
template <class T, class G, class N, class L>
using ParabolicP = GlobalLoop::Parabolic<T, G, N, L>;
template <class T, class G, class N, class L>
using MassP = GlobalLoop::MassApproxEigenvalue<T, G, N, L>;
template <class T, class G, class N, class L>
using NonlinearP = GlobalLoop::NonlinearEigenvalue<T, G, N, L>;
template <class T, class G, class N, class L>
using ShiftedP = GlobalLoop::ShiftedInverseEigenvalue<T, G, N, L>;
VH_SCENARIO(problem_plots)
{
  switch (rng.u(0, 5))
  {
    case 0: Plots<ParabolicP>::run(rng); break;
    case 1: Plots<MassP>::run(rng); break;
    case 2: Plots<NonlinearP>::run(rng); break;
    case 3: Plots<ShiftedP>::run(rng); break;
    default: Plots<EllipticP>::run(rng);
  }
}
#ifndef NDEBUG
VH_SCENARIO_W(invalid_options, 0.2)
{
  PlotOptions o;
  auto dies = [&](const char* a, const char* b, const char* what) {
    std::string e;
    const auto r = vh::death([&] { set_plot_option(o, a, b); }, &e);
    vh::check(r == vh::Death::asserted, std::string("invalid-option-") + what, vh::name(r));
    vh::event("invalid-options");
  };
  dies("noSuchOption", "1", "unknown");
  dies("noSuchOption", "", "unknown-query");
  dies("fileEnding", "vtk", "ending");
  vh::state(rng.next());
}
#endif
#endif
VH_MAIN
