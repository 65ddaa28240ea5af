// Monitors of grids: identification of faces (PART 1: cubic, 2: file), metrics (3), node types (4).
#include "grid.hxx"
using grid::Cell;
using grid::FileDomain;
using grid::Record;
using grid::Vec;

#ifndef PART
#define PART 1
#endif

static std::string at(size_t e, int f = -1)
{
  return "edge " + std::to_string(e) + (f >= 0 ? " face " + std::to_string(f) : "");
}
static unsigned long long ipow(unsigned long long b, unsigned int e)
{
  unsigned long long r = 1;
  while (e--)
    r *= b;
  return r;
}
// ------------------------------------------------------------------------------ identification
// Faces are identified by keys; equal keys <=> equal node index; all nodes 0..n-1 are used.
static void identification(const Record& r, const std::vector<std::vector<std::string>>& keys)
{
  std::map<std::string, unsigned long long> by_key;
  std::map<unsigned long long, std::string> by_node;
  for (size_t e = 0; e < r.cells.size(); ++e)
    for (unsigned int f = 0; f < 2 * r.d; ++f)
    {
      const auto n = r.cells[e].nodes[f];
      vh::check_lazy(n < r.n_nodes, "node-range", [&] { return at(e, f) + " has node " + std::to_string(n); });
      auto k = by_key.emplace(keys[e][f], n);
      vh::check_lazy(k.first->second == n, "same-face-different-node", [&] { return at(e, f) + " key " + keys[e][f] + " nodes " + std::to_string(n) + " and " + std::to_string(k.first->second); });
      auto m = by_node.emplace(n, keys[e][f]);
      vh::check_lazy(m.first->second == keys[e][f], "different-faces-same-node", [&] { return at(e, f) + " node " + std::to_string(n) + " keys " + keys[e][f] + " and " + m.first->second; });
      vh::event("faces-observed");
    }
  return;
}
// Lower bounds of sizes and refinements; raised by the large cases only.
static unsigned int min_size = 1, min_level = 1;
static bool is_large()
{
  return min_size > 1 || min_level > 1;
}
static unsigned int draw_level(vh::Rng& rng, unsigned int maxr)
{
  return rng.u(std::min(min_level, maxr), maxr);
}
static void large(unsigned int size, unsigned int level, const std::function<void()>& f)
{
  min_size = size;
  min_level = level;
  f();
  min_size = min_level = 1;
  vh::event("large-grids");
}
static void all_nodes_used(const Record& r)
{
  std::set<unsigned long long> used;
  for (auto& c : r.cells)
    used.insert(c.nodes.begin(), c.nodes.end());
  vh::check_eq(used.size(), (size_t)r.n_nodes, "every-node-used");
}
// Integer lattice position of a point of the unit cube, per direction in units of 1/(2 N_k n).
static std::vector<long long> lattice(const Vec& p, const std::vector<unsigned int>& N, unsigned int n)
{
  std::vector<long long> l;
  for (size_t k = 0; k < p.size(); ++k)
  {
    const double x = p[k] * 2. * N[k] * n;
    const long long i = std::llround(x);
    vh::check_lazy(std::abs(x - i) < 1e-3, "off-lattice", [&] { return vh::num(p[k]); });
    l.push_back(i);
  }
  return l;
}
static std::string text(const std::vector<long long>& l)
{
  std::string s;
  for (auto x : l)
    s += std::to_string(x) + ",";
  return s;
}
// Directions (bit mask) spanned by a cell of the unit cube.
static std::vector<int> directions(const Cell& c)
{
  std::vector<int> dirs;
  for (auto& v : c.span)
  {
    int dir = -1, cnt = 0;
    for (size_t k = 0; k < v.size(); ++k)
      if (v[k] != 0.)
      {
        dir = k;
        ++cnt;
      }
    vh::check_lazy(cnt == 1, "cube-span", [&] { return std::to_string(cnt); });
    dirs.push_back(dir);
  }
  return dirs;
}
static void cubic_oracle(const Record& r, const std::vector<unsigned int>& N)
{
  // Expected numbers of cells and faces from counting subsets of directions.
  unsigned long long cells = 0, faces = 0;
  for (unsigned int m = 0; m < (1u << r.s); ++m)
  {
    const unsigned int k = __builtin_popcount(m);
    unsigned long long c = 1;
    for (unsigned int j = 0; j < r.s; ++j)
      c *= (m >> j & 1) ? N[j] : N[j] + 1;
    if (k == r.d)
      cells += c;
    if (k + 1 == r.d)
      faces += c;
  }
  const unsigned long long inner = r.d * (r.n - 1) * ipow(r.n, r.d - 1);
  vh::check_eq(r.n_edges, cells * ipow(r.n, r.d), "number-of-edges");
  vh::check_eq(r.n_nodes, faces * ipow(r.n, r.d - 1) + cells * inner, "number-of-nodes");
  std::set<std::string> cellset;
  std::vector<std::vector<std::string>> keys(r.cells.size());
  for (size_t e = 0; e < r.cells.size(); ++e)
  {
    const Cell& c = r.cells[e];
    const auto dirs = directions(c);
    unsigned int mask = 0;
    for (size_t k = 0; k < dirs.size(); ++k)
    {
      mask |= 1u << dirs[k];
      const double len = 1. / ((double)N[dirs[k]] * r.n);
      vh::check_close(c.span[k][dirs[k]], len, "cell-length", 1e-5);
    }
    vh::check_eq((unsigned int)__builtin_popcount(mask), r.d, "cell-directions");
    Vec center = c.origin;
    for (auto& v : c.span)
      center = grid::axpy(0.5, v, center);
    for (double x : center)
      vh::check_lazy(x > -1e-9 && x < 1 + 1e-9, "outside-unit-cube", [&] { return vh::num(x); });
    const auto key = std::to_string(mask) + ":" + text(lattice(center, N, r.n));
    vh::check_lazy(cellset.insert(key).second, "duplicate-cell", [&] { return at(e) + " " + key; });
    for (unsigned int f = 0; f < 2 * r.d; ++f)
    {
      const Vec b = grid::axpy(f % 2 ? 0.5 : -0.5, c.span[f / 2], center);
      const auto pos = lattice(b, N, r.n);
      // A face is a coarse one (possibly part of it) if the cell touches the coarse grid there;
      // faces inside a coarse hyperedge belong to that hyperedge alone.
      std::string k = std::to_string(mask & ~(1u << dirs[f / 2])) + ":" + text(pos);
      const bool coarse = pos[dirs[f / 2]] % (2 * (long long)r.n) == 0;
      keys[e].push_back(coarse ? k : k + "in" + std::to_string(mask));
    }
  }
  // Together with the number of cells this means that they are exactly the cells of the grid.
  vh::check_eq(cellset.size(), r.cells.size(), "cells-distinct");
  identification(r, keys);
  all_nodes_used(r);
}
template <unsigned int d, unsigned int s, typename Topo, typename Geom, typename Node, typename T>
static void cubic_case(vh::Rng& rng, unsigned int maxn, unsigned int maxr, const std::function<void(const Record&, const std::vector<unsigned int>&)>& oracle, bool metrics)
{
  std::vector<unsigned int> N(s);
  for (auto& x : N)
    x = rng.u(min_size, maxn);
  SmallVec<s, unsigned int> nv;
  for (unsigned int k = 0; k < s; ++k)
    nv[k] = N[k];
  Topo topo(nv);
  const bool before = is_large() || rng.coin();
  const unsigned int first = draw_level(rng, maxr);
  if (before)
    topo.set_refinement(first);
  Geom geom = [&] {
    if constexpr (std::is_constructible_v<Geom, Topo>)
      return Geom(topo);
    else
    {
      Geom g(nv);
      g.set_refinement(topo.get_refinement());
      return g;
    }
  }();
  Node node = [&] {
    if constexpr (std::is_constructible_v<Node, Topo>)
      if (rng.coin())
        return Node(topo);
    Node n(nv);
    n.set_refinement(topo.get_refinement());
    return n;
  }();
  const unsigned int changes = is_large() ? 0 : rng.u(0, 2);
  uint64_t h = vh::mix(vh::mix(before ? first : 0, d), s);
  for (auto x : N)
    h = vh::mix(h, x);
  for (unsigned int k = 0; k <= changes; ++k)
  {
    unsigned int level = topo.get_refinement();
    if (k > 0)
    {
      level = draw_level(rng, maxr);
      topo.set_refinement(level);
      geom.set_refinement(level);
      node.set_refinement(level);
    }
    else
      vh::check_eq(level, before ? first : 1u, "refinement-reported");
    vh::check_eq(topo.get_refinement(), level, "refinement-reported");
    vh::check_eq(geom.get_refinement(), level, "refinement-reported");
    vh::check_eq(node.get_refinement(), level, "refinement-reported");
    vh::check_eq((unsigned long long)node.n_hyEdges(), (unsigned long long)topo.n_hyEdges(), "types-number-of-edges");
    oracle(grid::record<d, s, T>(topo, &geom, &node, rng, metrics), N);
    if constexpr (std::is_same_v<Topo, Topology::Cubic<d, s>>)
      if (!is_large() && rng.coin(3))
      {
        Topo copy(topo);
        topo.set_refinement(1);  // The copy is independent.
        oracle(grid::record<d, s, T>(copy, &geom, &node, rng, metrics), N);
        const unsigned int other = draw_level(rng, maxr);
        copy.set_refinement(other);
        geom.set_refinement(other);
        node.set_refinement(other);
        vh::check_eq(topo.get_refinement(), 1u, "copy-refines-original");
        oracle(grid::record<d, s, T>(copy, &geom, &node, rng, metrics), N);
        geom.set_refinement(level);
        node.set_refinement(level);
        topo.set_refinement(level);
        vh::event("copies");
      }
    h = vh::mix(h, level);
    vh::event("grids");
    if (level > 1)
      vh::event("refined-grids");
  }
  vh::state(h);
}
template <unsigned int d, unsigned int s>
static void cubic_std(vh::Rng& rng, unsigned int maxn, unsigned int maxr, const std::function<void(const Record&, const std::vector<unsigned int>&)>& oracle, bool metrics = false)
{
  cubic_case<d, s, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, double>(rng, maxn, maxr, oracle, metrics);
}
static void cubic_any(vh::Rng& rng, const std::function<void(const Record&, const std::vector<unsigned int>&)>& oracle, bool metrics = false)
{
  switch (rng.i(0, 5))
  {
    case 0:
      cubic_std<1, 1>(rng, 7, 5, oracle, metrics);
      break;
    case 1:
      cubic_std<1, 2>(rng, 4, 4, oracle, metrics);
      break;
    case 2:
      cubic_std<1, 3>(rng, 3, 3, oracle, metrics);
      break;
    case 3:
      cubic_std<2, 2>(rng, 4, 4, oracle, metrics);
      break;
    case 4:
      cubic_std<2, 3>(rng, 2, 3, oracle, metrics);
      break;
    default:
      cubic_std<3, 3>(rng, 2, 3, oracle, metrics);
  }
}
// ------------------------------------------------------------------------------ file domains
// Sub-cell position inside its coarse hyperedge.
static std::vector<unsigned int> sub_position(const Record& r, const FileDomain& f, size_t e, unsigned int E)
{
  const Cell& c = r.cells[e];
  Vec center = c.origin;
  for (auto& v : c.span)
    center = grid::axpy(0.5, v, center);
  const Vec x = grid::local_coords(f.origin(E), f.span(E), center);
  std::vector<unsigned int> p;
  for (unsigned int k = 0; k < r.d; ++k)
  {
    const double t = x[k] * r.n - 0.5;
    const long long i = std::llround(t);
    vh::check_lazy(std::abs(t - i) < 1e-5 && i >= 0 && i < (long long)r.n, "subcell-position", [&] { return at(e) + " " + vh::num(x[k]); });
    p.push_back((unsigned int)std::max(0ll, i));
    // The sub-cell is the coarse cell scaled by 1/n.
    for (unsigned int j = 0; j < r.s; ++j)
      vh::check_close(c.span[k][j], f.span(E)[k][j] / r.n, "subcell-span", 1e-9, 1e-1);
  }
  return p;
}
static void file_oracle(const Record& r, const FileDomain& f)
{
  const unsigned long long per = ipow(r.n, r.d), inner = r.d * (r.n - 1) * ipow(r.n, r.d - 1);
  vh::check_eq(r.n_edges, f.nodes.size() * per, "number-of-edges");
  vh::check_eq(r.n_nodes, f.n_nodes * ipow(r.n, r.d - 1) + f.nodes.size() * inner, "number-of-nodes");
  std::vector<std::vector<std::string>> keys(r.cells.size());
  std::set<std::string> seen;
  for (size_t e = 0; e < r.cells.size(); ++e)
  {
    const unsigned int E = e / per;
    if (E >= f.nodes.size())
      break;
    const auto p = sub_position(r, f, e, E);
    std::string ck = std::to_string(E) + ":";
    for (auto x : p)
      ck += std::to_string(x) + ",";
    vh::check_lazy(seen.insert(ck).second, "duplicate-cell", [&] { return ck; });
    for (unsigned int i = 0; i < 2 * r.d; ++i)
    {
      const unsigned int pos = p[i / 2] + i % 2;
      std::string sub;
      for (unsigned int k = 0; k < r.d; ++k)
        if (k != i / 2)
          sub += std::to_string(p[k]) + ",";
      if (pos == 0 || pos == r.n)
        keys[e].push_back("node" + std::to_string(f.nodes[E][i]) + ":" + sub);
      else
        keys[e].push_back("in" + std::to_string(E) + "d" + std::to_string(i / 2) + "p" + std::to_string(pos) + ":" + sub);
    }
  }
  for (auto& k : keys)
    k.resize(2 * r.d);
  identification(r, keys);
}
// ------------------------------------------------------------------------------ metrics
static void metrics_oracle(const Record& r, double tol, bool cube)
{
  for (size_t e = 0; e < r.cells.size(); ++e)
  {
    const Cell& c = r.cells[e];
    double len = 0, size = 0;
    for (auto& v : c.span)
      len = std::max(len, grid::norm(v));
    size = len + grid::norm(c.origin);
    auto msg = [&] { return at(e); };
    vh::check_close(c.area, grid::volume(c.span), "area", tol, 0., at(e));
    for (unsigned int f = 0; f < 2 * r.d; ++f)
    {
      auto rest = c.span;
      rest.erase(rest.begin() + f / 2);
      vh::check_close(c.face_areas[f], grid::volume(rest), "face-area", tol, 0., at(e, f));
      Vec b = grid::axpy(f % 2 ? 1. : 0., c.span[f / 2], c.origin);
      for (auto& v : rest)
        b = grid::axpy(0.5, v, b);
      vh::check_vec(c.face_centers[f], b, "face-barycenter", tol, size, at(e, f));
      // Local normal, rotated to physical space: outward unit normal within the tangent space.
      Vec n(r.s, 0.);
      for (unsigned int k = 0; k < r.d; ++k)
        n = grid::axpy(c.local_normals[f][k], c.q[k], n);
      vh::check_close(grid::norm(n), 1., "local-normal-length", tol, 0., at(e, f));
      for (auto& v : rest)
        vh::check_lazy(std::abs(grid::dot(n, v)) <= 10 * tol * len, "local-normal-orthogonal", msg);
      vh::check_lazy((f % 2 ? 1. : -1.) * grid::dot(n, c.span[f / 2]) > 0, "local-normal-outward", [&] { return at(e, f); });
      // Inner normals: unit, tangential, opposite on opposite faces, orthogonal for other directions.
      const Vec& in = c.inner_normals[f];
      vh::check_close(grid::norm(in), 1., "inner-normal-length", tol, 0., at(e, f));
      for (unsigned int g = 0; g < 2 * r.d; ++g)
        vh::check_lazy(std::abs(grid::dot(in, c.inner_normals[g]) - (f / 2 != g / 2 ? 0. : f == g ? 1. : -1.)) <= 10 * tol, "inner-normals-orthonormal", [&] { return at(e, f); });
      if (cube)
        vh::check_vec(in, n, "inner-normal-outward", tol, 1., at(e, f));
      else
        vh::check_vec(in, grid::axpy(f % 2 ? -1. : 1., c.q[f / 2], Vec(r.s, 0.)), "inner-normal-of-frame", tol, 1., at(e, f));
      for (auto& o : c.outer_normals)
        vh::check_lazy(std::abs(grid::dot(in, o)) <= 10 * tol, "inner-normal-tangential", msg);
    }
    vh::check_eq(c.outer_normals.size(), (size_t)(r.s - r.d), "outer-normals");
    for (size_t k = 0; k < c.outer_normals.size(); ++k)
    {
      for (size_t j = 0; j < c.outer_normals.size(); ++j)
        vh::check_lazy(std::abs(grid::dot(c.outer_normals[k], c.outer_normals[j]) - (k == j)) <= 10 * tol, "outer-normals-orthonormal", msg);
      for (auto& v : c.span)
        vh::check_lazy(std::abs(grid::dot(c.outer_normals[k], v)) <= 10 * tol * len, "outer-normal-orthogonal", msg);
    }
    // Rotation and scaling of the transformation.
    for (unsigned int i = 0; i < r.s; ++i)
      for (unsigned int j = 0; j < r.s; ++j)
        vh::check_lazy(std::abs(grid::dot(c.q[i], c.q[j]) - (i == j)) <= 10 * tol, "rotation-orthogonal", msg);
    for (unsigned int k = 0; k < r.d; ++k)
    {
      Vec v(r.s, 0.);
      for (unsigned int j = 0; j < r.d; ++j)
        v = grid::axpy(c.r[k][j], c.q[j], v);
      vh::check_vec(v, c.span[k], "rotation-times-scaling", 10 * tol, len, at(e));
    }
    for (auto& p : c.probes)
    {
      Vec y = c.origin;
      for (unsigned int k = 0; k < r.d; ++k)
        y = grid::axpy(p.x[k], c.span[k], y);
      vh::check_vec(p.y, y, std::string("point-") + p.how, 10 * tol, size, at(e));
      vh::event(p.how);
    }
    vh::event("cells-measured");
  }
}
// ------------------------------------------------------------------------------ node types
static void cubic_types(const Record& r, const std::vector<unsigned int>& N)
{
  for (size_t e = 0; e < r.cells.size(); ++e)
  {
    const Cell& c = r.cells[e];
    const auto dirs = directions(c);
    Vec center = c.origin;
    for (auto& v : c.span)
      center = grid::axpy(0.5, v, center);
    for (unsigned int f = 0; f < 2 * r.d; ++f)
    {
      const Vec b = grid::axpy(f % 2 ? 0.5 : -0.5, c.span[f / 2], center);
      const auto pos = lattice(b, N, r.n);
      unsigned int mask = 0;  // Directions of the face.
      for (auto x : dirs)
        mask |= 1u << x;
      mask &= ~(1u << dirs[f / 2]);
      unsigned long long want = 0, pow3 = 1;
      for (unsigned int k = 0; k < r.s; ++k, pow3 *= 3)
        if (!(mask >> k & 1))
        {
          if (pos[k] == 0)
            want += pow3;
          else if (pos[k] == 2ll * N[k] * r.n)
            want += 2 * pow3;
        }
      if (pos[dirs[f / 2]] % (2 * (long long)r.n) != 0)
        want = 0;
      vh::check_eq(c.types[f], want, "cubic-type", at(e, f));
      vh::event(want ? "boundary-faces" : "interior-faces");
    }
  }
}
static void file_types(const Record& r, const FileDomain& f)
{
  const unsigned long long per = ipow(r.n, r.d);
  for (size_t e = 0; e < r.cells.size(); ++e)
  {
    const unsigned int E = e / per;
    const auto p = sub_position(r, f, e, E);
    for (unsigned int i = 0; i < 2 * r.d; ++i)
    {
      const unsigned int pos = p[i / 2] + i % 2;
      const unsigned long long want = (pos == 0 || pos == r.n) ? f.types[E][i] : 0;
      vh::check_eq(r.cells[e].types[i], want, "file-type", at(e, i));
      vh::event(want ? "boundary-faces" : "interior-faces");
    }
  }
}
template <unsigned int d, unsigned int s, typename T, typename IE, typename IN, typename IP>
static void file_case(vh::Rng& rng, unsigned int maxe, unsigned int maxr, const std::function<void(const Record&, const FileDomain&)>& oracle, bool metrics)
{
  typedef Topology::File<d, s, std::vector, Point<s, T>, IE, IN, IP> Topo;
  typedef Geometry::File<d, s, std::vector, Point<s, T>, Mapping::Linear, d, s, T, IE, IN, IP> Geom;
  typedef NodeDescriptor::File<d, s, std::vector, Point<s, T>, IE, IN, IP> Node;
  const FileDomain f = grid::make_domain(rng, d, s, maxe, rng.coin());
  const std::string name = grid::write_domain(f, vh::scratch() + "/grid.geo");
  Topo topo(name);
  const bool before = is_large() || rng.coin();
  const unsigned int first = draw_level(rng, maxr);
  if (before)
    topo.set_refinement(first);
  // Geometry and types may come from a topology of their own that is gone when they are used.
  const bool own = rng.coin(3);
  std::unique_ptr<Geom> geom_ptr = own ? std::make_unique<Geom>(Topo(name)) : std::make_unique<Geom>(topo);
  std::unique_ptr<Node> node_ptr = own ? std::make_unique<Node>(Topo(name)) : std::make_unique<Node>(topo);
  Geom& geom = *geom_ptr;
  Node& node = *node_ptr;
  if (own)
  {
    geom.set_refinement(topo.get_refinement());
    node.set_refinement(topo.get_refinement());
    vh::event("separate-parts");
  }
  uint64_t h = vh::mix(vh::mix(f.hash, before ? first : 0), d * 10 + s);
  const unsigned int changes = is_large() ? 0 : rng.u(0, 2);
  for (unsigned int k = 0; k <= changes; ++k)
  {
    if (k > 0)
    {
      const unsigned int level = draw_level(rng, maxr);
      topo.set_refinement(level);
      geom.set_refinement(level);
      node.set_refinement(level);
    }
    const unsigned int level = topo.get_refinement();
    vh::check_eq(geom.get_refinement(), level, "refinement-reported");
    vh::check_eq(node.get_refinement(), level, "refinement-reported");
    h = vh::mix(h, level);
    if (!is_large() && rng.coin(3))
    {
      const Node copy(node);
      vh::check_eq(copy.get_refinement(), level, "refinement-of-copy");
      if constexpr (std::is_same_v<Topo, Topology::File<d, s>>)
      {
        Topo tcopy(topo);
        topo.set_refinement(1);
        oracle(grid::record<d, s, T>(tcopy, &geom, &copy, rng, metrics), f);
        const unsigned int other = draw_level(rng, maxr);
        tcopy.set_refinement(other);
        geom.set_refinement(other);
        node.set_refinement(other);
        vh::check_eq(topo.get_refinement(), 1u, "copy-refines-original");
        vh::check_eq(copy.get_refinement(), level, "original-refines-copy");
        oracle(grid::record<d, s, T>(tcopy, &geom, &node, rng, metrics), f);
        geom.set_refinement(level);
        node.set_refinement(level);
        topo.set_refinement(level);
      }
      else
        oracle(grid::record<d, s, T>(topo, &geom, &copy, rng, metrics), f);
      vh::event("copies");
    }
    oracle(grid::record<d, s, T>(topo, &geom, &node, rng, metrics), f);
    if (metrics)
      for (unsigned long long e = 0; e < topo.n_hyEdges(); ++e)
      {
        auto ge = geom[e];
        vh::check_eq(ge.has_extra_data(), !f.props.empty(), "has-extra-data");
        if (!f.props.empty())
          vh::check_vec(grid::vec(ge.extra_data()), f.props[e / ipow(level, d)], "extra-data", 1e-6, 1., at(e));
      }
    vh::event("grids");
    if (level > 1)
      vh::event("refined-grids");
  }
  vh::state(h);
}
template <unsigned int d, unsigned int s>
static void file_std(vh::Rng& rng, unsigned int maxe, unsigned int maxr, const std::function<void(const Record&, const FileDomain&)>& oracle, bool metrics)
{
  file_case<d, s, double, unsigned int, unsigned int, unsigned int>(rng, maxe, maxr, oracle, metrics);
}
static void file_any(vh::Rng& rng, const std::function<void(const Record&, const FileDomain&)>& oracle, bool metrics = false)
{
  switch (rng.i(0, 6))
  {
    case 0:
      file_std<1, 1>(rng, 6, 5, oracle, metrics);
      break;
    case 1:
      file_std<1, 2>(rng, 6, 4, oracle, metrics);
      break;
    case 2:
      file_std<1, 3>(rng, 6, 4, oracle, metrics);
      break;
    case 3:
      file_std<2, 2>(rng, 5, 4, oracle, metrics);
      break;
    case 4:
      file_std<2, 3>(rng, 5, 4, oracle, metrics);
      break;
    case 5:
      file_std<1, 3>(rng, 12, 2, oracle, metrics);
      break;
    default:
      file_std<3, 3>(rng, 4, 3, oracle, metrics);
  }
}
// ------------------------------------------------------------------------------ stand-alone map
template <unsigned int d, unsigned int s, typename T>
static void linear_map(vh::Rng& rng)
{
  Point<s, T> o;
  SmallMat<s, d, T> m;
  grid::Mat cols;
  do
  {
    for (unsigned int k = 0; k < s; ++k)
      o[k] = (T)rng.d(-2, 2);
    for (unsigned int k = 0; k < s * d; ++k)
      m[k] = rng.coin(5) ? (T)0 : (T)rng.d(-2, 2);
    cols = grid::mat(m);
  } while ([&] {
    double p = 1;
    for (auto& c : cols)
      p *= grid::norm(c);
    return !(p > 1e-2) || grid::volume(cols) < 0.1 * p;
  }());
  const double tol = std::is_same_v<T, float> ? 1e-4 : 1e-11;
  // Very small and very large cells.
  T scale = 1;
  if (rng.coin(3))
  {
    scale = (T)std::pow(10., rng.i(std::is_same_v<T, float> ? -6 : -40, std::is_same_v<T, float> ? 6 : 40));
    for (unsigned int k = 0; k < s; ++k)
      o[k] *= scale;
    for (unsigned int k = 0; k < s * d; ++k)
      m[k] *= scale;
    cols = grid::mat(m);
    vh::event("scaled-maps");
  }
  const Mapping::Linear<d, s, T> map(o, m);
  vh::check(map.matrix() == m && map.translation() == o, "map-data");
  vh::check_close(std::abs(map.functional_determinant_hyEdge()), grid::volume(cols), "map-determinant", tol);
  for (unsigned int k = 0; k < d; ++k)
  {
    auto rest = cols;
    rest.erase(rest.begin() + k);
    vh::check_close(std::abs(map.functional_determinant_hyNode(k)), grid::volume(rest), "map-face-determinant", tol);
    vh::check_vec(grid::vec(map.matrix_column(k)), cols[k], "map-column", 0.);
  }
  SmallMat<d, 2, T> x;
  for (unsigned int k = 0; k < 2 * d; ++k)
    x[k] = (T)rng.d();
  const auto y = map.map_reference_to_physical(x);
  for (unsigned int j = 0; j < 2; ++j)
    for (unsigned int i = 0; i < s; ++i)
    {
      double w = o[i];
      for (unsigned int k = 0; k < d; ++k)
        w += (double)m(i, k) * x(k, j);
      vh::check_close(y(i, j) / (double)scale, w / (double)scale, "map-to-physical", tol, 1.);
    }
  if constexpr (d == s)
  {
    const auto back = map.map_physical_to_reference(y);
    vh::check_vec(grid::vec(back), grid::vec(x), "map-round-trip", 100 * tol, 1.);
  }
  // Normals of the faces within the cell: unit vectors orthogonal to the face, away from the other side.
  const grid::Mat R = grid::mat(map.mat_r());
  for (unsigned int k = 0; k < d; ++k)
  {
    const grid::Vec nrm = grid::vec(map.local_normal(k));
    vh::check_close(grid::norm(nrm), 1., "map-local-normal-length", tol);
    for (unsigned int j = 0; j < d; ++j)
    {
      const double p = grid::dot(nrm, R[j]) / grid::norm(R[j]);
      vh::check_lazy(j == k ? p < 0 : std::abs(p) <= 10 * tol, "map-local-normal", [&] { return vh::num(p); });
    }
  }
  vh::event("maps");
  vh::state(hh::hash(m));
}

#if PART == 1
VH_SCENARIO(cubic_grid)
{
  cubic_any(rng, cubic_oracle);
}
VH_SCENARIO(cubic_types)
{
  // Other coordinate types.
  cubic_case<2, 2, Topology::Cubic<2, 2>, Geometry::UnitCube<2, 2, float>, NodeDescriptor::Cubic<2, 2>, float>(rng, 4, 3, cubic_oracle, false);
}
template <unsigned int d, unsigned int s>
static void large_cubic(vh::Rng& rng, unsigned int size0, unsigned int size1, unsigned int level0, unsigned int level1)
{
  large(size0, level0, [&] { cubic_case<d, s, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, double>(rng, size1, level1, cubic_oracle, false); });
}
VH_SCENARIO_W(cubic_large, 0.02)
{
  // Numbers of faces and cells that exceed 16 bits, by cells or by refinement.
  switch (rng.i(0, 5))
  {
    case 0:
      large_cubic<1, 1>(rng, 1, 1, 65530, 66000);
      break;
    case 1:
      large_cubic<2, 2>(rng, 1, 1, 182, 190);
      break;
    case 2:
      large_cubic<3, 3>(rng, 1, 1, 29, 31);
      break;
    case 3:
      large_cubic<1, 2>(rng, 1, 2, 9000, 11000);
      break;
    case 4:
      large_cubic<1, 1>(rng, 65530, 66000, 1, 1);
      break;
    default:
      large_cubic<2, 2>(rng, 182, 190, 1, 1);
  }
}
#elif PART == 2
VH_SCENARIO(file_grid)
{
  file_any(rng, file_oracle);
}
VH_SCENARIO_W(file_large, 0.015)
{
  switch (rng.i(0, 3))
  {
    case 0:
      large(1, 65530, [&] { file_std<1, 2>(rng, 1, 66000, file_oracle, false); });
      break;
    case 1:
      large(1, 182, [&] { file_std<2, 2>(rng, 1, 190, file_oracle, false); });
      break;
    case 2:
      large(1, 29, [&] { file_std<3, 3>(rng, 1, 31, file_oracle, false); });
      break;
    default:
      large(1, 9000, [&] { file_std<1, 3>(rng, 4, 11000, file_oracle, false); });
  }
}
#elif PART == 3
VH_SCENARIO(cube_metrics)
{
  cubic_any(rng, [](const Record& r, const std::vector<unsigned int>& N) {
    metrics_oracle(r, 1e-12, true);
    cubic_oracle(r, N);  // The cells tile the grid.
  }, true);
}
VH_SCENARIO(file_metrics)
{
  file_any(rng, [](const Record& r, const FileDomain& f) {
    metrics_oracle(r, 1e-11, false);
    // The sub-cells tile the hyperedge.
    double sum = 0, want = 0;
    for (auto& c : r.cells)
      sum += c.area;
    for (unsigned int e = 0; e < f.nodes.size(); ++e)
      want += grid::volume(f.span(e));
    vh::check_close(sum, want, "total-area", 1e-10);
    file_oracle(r, f);
  }, true);
}
template <unsigned int d>
static void hypercube()
{
  vh::check_eq(Hypercube<d>::n_faces(), 2 * d, "hypercube-faces");
  vh::check_eq(Hypercube<d>::n_vertices(), 1u << d, "hypercube-vertices");
  for (unsigned int b = 1; b < 6; ++b)
  {
    vh::check_eq((unsigned long long)Hypercube<d>::pow(b), ipow(b, d), "hypercube-power");
    for (unsigned int i = 0; i < ipow(b, d); ++i)
    {
      const auto x = Hypercube<d>::index_decompose(i, b);
      vh::check_eq(x.size(), (size_t)std::max(d, 1u), "decomposition-size");
      for (unsigned int k = 0; k < x.size(); ++k)
        vh::check_eq((unsigned long long)x[k], i / ipow(b, k) % b, "decomposition");
    }
  }
}
VH_SCENARIO(linear_maps)
{
  hypercube<0>();
  hypercube<1>();
  hypercube<2>();
  hypercube<3>();
  linear_map<1, 1, double>(rng);
  linear_map<1, 3, double>(rng);
  linear_map<2, 2, double>(rng);
  linear_map<2, 3, double>(rng);
  linear_map<3, 3, double>(rng);
  linear_map<2, 2, float>(rng);
  linear_map<1, 2, float>(rng);
}
#elif PART == 4
VH_SCENARIO(cube_types)
{
  cubic_any(rng, cubic_types);
}
VH_SCENARIO(file_types)
{
  file_any(rng, file_types);
}
template <unsigned int d, unsigned int s>
static void large_cube_types(vh::Rng& rng, unsigned int size0, unsigned int size1, unsigned int level0, unsigned int level1)
{
  large(size0, level0, [&] { cubic_case<d, s, Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, double>(rng, size1, level1, cubic_types, false); });
}
VH_SCENARIO_W(large_types, 0.1)
{
  // Many sub-intervals, many cells.
  switch (rng.i(0, 9))
  {
    case 0:
      large_cube_types<1, 1>(rng, 1, 3, 10, 2000);
      break;
    case 1:
      large_cube_types<1, 1>(rng, 1, 1, 65530, 66000);
      break;
    case 2:
      large_cube_types<2, 2>(rng, 1, 3, 10, 40);
      break;
    case 3:
      large_cube_types<1, 2>(rng, 1, 3, 10, 300);
      break;
    case 4:
      large_cube_types<3, 3>(rng, 1, 2, 7, 12);
      break;
    case 5:
      large_cube_types<2, 2>(rng, 150, 190, 1, 1);
      break;
    case 6:
      large_cube_types<1, 1>(rng, 200, 66000, 1, 2);
      break;
    case 7:
      large(1, 10, [&] { file_std<1, 2>(rng, 5, 2000, file_types, false); });
      break;
    case 8:
      large(1, 10, [&] { file_std<2, 2>(rng, 3, 100, file_types, false); });
      break;
    default:
      large(1, 7, [&] { file_std<3, 3>(rng, 1, 30, file_types, false); });
  }
}
#endif
VH_MAIN
