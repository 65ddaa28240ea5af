// Plain records of grids (topology, geometry, node types) and a writer of generated domain files.
#pragma once
#include "hh.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/mapping/linear.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>

namespace grid
{
typedef std::vector<double> Vec;
typedef std::vector<Vec> Mat;  // List of columns.

inline double dot(const Vec& a, const Vec& b)
{
  double s = 0;
  for (size_t k = 0; k < a.size(); ++k)
    s += a[k] * b[k];
  return s;
}
inline Vec axpy(double f, const Vec& a, Vec b)
{
  for (size_t k = 0; k < a.size(); ++k)
    b[k] += f * a[k];
  return b;
}
inline Vec sub(const Vec& a, const Vec& b)
{
  return axpy(-1., b, a);
}
inline double norm(const Vec& a)
{
  return std::sqrt(dot(a, a));
}
// Square root of the Gram determinant (volume of the parallelepiped).
inline double volume(const Mat& cols)
{
  const size_t n = cols.size();
  std::vector<std::vector<long double>> q;
  long double v = 1;
  for (size_t i = 0; i < n; ++i)
  {
    std::vector<long double> c(cols[i].begin(), cols[i].end());
    for (int pass = 0; pass < 2; ++pass)
      for (auto& e : q)
      {
        long double s = 0;
        for (size_t k = 0; k < c.size(); ++k)
          s += e[k] * c[k];
        for (size_t k = 0; k < c.size(); ++k)
          c[k] -= s * e[k];
      }
    long double l = 0;
    for (auto x : c)
      l += x * x;
    l = std::sqrt(l);
    v *= l;
    if (l == 0)
      return 0;
    for (auto& x : c)
      x /= l;
    q.push_back(c);
  }
  return v;
}
// Reference coordinates of a point in the affine cell (least squares by normal equations).
inline Vec local_coords(const Vec& origin, const Mat& span, const Vec& p)
{
  const size_t d = span.size();
  std::vector<std::vector<long double>> a(d, std::vector<long double>(d + 1, 0));
  const Vec r = sub(p, origin);
  for (size_t i = 0; i < d; ++i)
  {
    for (size_t j = 0; j < d; ++j)
      a[i][j] = dot(span[i], span[j]);
    a[i][d] = dot(span[i], r);
  }
  for (size_t k = 0; k < d; ++k)
  {
    size_t m = k;
    for (size_t i = k; i < d; ++i)
      if (std::abs(a[i][k]) > std::abs(a[m][k]))
        m = i;
    std::swap(a[k], a[m]);
    for (size_t i = 0; i < d; ++i)
      if (i != k)
      {
        const long double f = a[i][k] / a[k][k];
        for (size_t j = k; j <= d; ++j)
          a[i][j] -= f * a[k][j];
      }
  }
  Vec x(d);
  for (size_t k = 0; k < d; ++k)
    x[k] = a[k][d] / a[k][k];
  return x;
}

struct Probe
{
  Vec x;  // Reference point.
  Vec y;  // Physical point the library reports.
  const char* how;
};
struct Cell
{
  std::vector<unsigned long long> nodes;
  std::vector<unsigned long long> types;
  Vec origin;
  Mat span, q, r, local_normals, inner_normals, outer_normals, face_centers;
  double area = 0;
  Vec face_areas;
  std::vector<Probe> probes;
  std::vector<double> extra;
};
struct Record
{
  unsigned int d = 0, s = 0, n = 1;  // Dimensions and refinement.
  unsigned long long n_edges = 0, n_nodes = 0;
  std::vector<Cell> cells;
};

template <typename V>
Vec vec(const V& v)
{
  Vec r(v.size());
  for (size_t k = 0; k < r.size(); ++k)
    r[k] = (double)v[k];
  return r;
}
template <unsigned int r, unsigned int c, typename T>
Mat mat(const SmallMat<r, c, T>& m)
{
  Mat o(c, Vec(r));
  for (unsigned int j = 0; j < c; ++j)
    for (unsigned int i = 0; i < r; ++i)
      o[j][i] = (double)m(i, j);
  return o;
}

template <unsigned int np, unsigned int d, unsigned int s, typename T, typename E>
void probes(E& e, vh::Rng& rng, Cell& c)
{
  SmallVec<np, float> p1;
  for (unsigned int k = 0; k < np; ++k)
    p1[k] = rng.coin(4) ? (float)rng.i(0, 1) : (float)(rng.i(0, 64) / 64.);
  const unsigned int tot = Hypercube<d>::pow(np);
  for (unsigned int t = 0; t < 3; ++t)
  {
    const unsigned int idx = rng.u(0, tot - 1);
    Vec x(d);
    unsigned int k = idx;
    for (unsigned int j = 0; j < d; ++j, k /= np)
      x[j] = p1[k % np];
    c.probes.push_back({x, vec(e.template lexicographic<np>(idx, p1)), "lexicographic"});
  }
  const unsigned int per = Hypercube<d - 1>::pow(np);
  for (unsigned int t = 0; t < 3; ++t)
  {
    const unsigned int face = rng.u(0, 2 * d - 1), in = rng.u(0, per - 1);
    const float scale = rng.coin() ? 1.f : (float)(rng.i(1, 8) / 8.);
    Vec x(d);
    unsigned int k = in;
    for (unsigned int j = 0; j < d; ++j)
      if (j == face / 2)
        x[j] = 0.5 + scale * ((int)(face % 2) - 0.5);
      else
      {
        x[j] = p1[k % np];
        k /= np;
      }
    c.probes.push_back({x, vec(e.template boundary_lexicographic<np>(face * per + in, face, scale, p1)), "boundary-lexicographic"});
  }
}

template <unsigned int d, unsigned int s, typename T, typename E>
void geometry_of(E& e, vh::Rng& rng, Cell& c)
{
  typedef SmallVec<d, T> P;
  c.origin = vec(e.map_ref_to_phys((const P&)P((T)0.)));
  for (unsigned int k = 0; k < d; ++k)
    c.span.push_back(vec(e.span_vec(k)));
  c.q = mat(e.mat_q());
  c.r = mat(e.mat_r());
  c.area = e.area();
  for (unsigned int f = 0; f < 2 * d; ++f)
  {
    c.face_areas.push_back(e.face_area(f));
    c.local_normals.push_back(vec(e.local_normal(f)));
    c.inner_normals.push_back(vec(e.inner_normal(f)));
    c.face_centers.push_back(vec(e.face_barycenter(f)));
  }
  if constexpr (s > d)
    for (unsigned int k = 0; k < s - d; ++k)
      c.outer_normals.push_back(vec(e.outer_normal(k)));
  // Random points, one by one and several at once.
  SmallMat<d, 3, T> pts;
  for (unsigned int k = 0; k < 3 * d; ++k)
    pts[k] = rng.coin() ? (T)(rng.i(0, 64) / 64.) : (T)rng.d(0., 1.);
  const auto keep = pts;
  const auto img = e.map_ref_to_phys((const SmallMat<d, 3, T>&)pts);
  vh::check(keep == pts, "map-modifies-constant-points");
  for (unsigned int j = 0; j < 3; ++j)
  {
    Vec x(d), y(s);
    for (unsigned int i = 0; i < d; ++i)
      x[i] = pts(i, j);
    for (unsigned int i = 0; i < s; ++i)
      y[i] = img(i, j);
    c.probes.push_back({x, y, "map"});
  }
  if constexpr (d == s)
  {
    auto in = pts;
    auto& ret = e.map_ref_to_phys(in);
    vh::check(&ret == &in, "inplace-map-returns-argument");
    for (unsigned int j = 0; j < 3; ++j)
    {
      Vec x(d), y(s);
      for (unsigned int i = 0; i < d; ++i)
        x[i] = pts(i, j);
      for (unsigned int i = 0; i < s; ++i)
        y[i] = in(i, j);
      c.probes.push_back({x, y, "inplace-map"});
    }
  }
  switch (rng.u(1, 4))
  {
    case 1:
      probes<1, d, s, T>(e, rng, c);
      break;
    case 2:
      probes<2, d, s, T>(e, rng, c);
      break;
    case 3:
      probes<3, d, s, T>(e, rng, c);
      break;
    default:
      probes<4, d, s, T>(e, rng, c);
  }
}

// Records all parts; geometry / types optional.
template <unsigned int d, unsigned int s, typename T, typename Topo, typename Geom, typename Node>
Record record(const Topo& topo, const Geom* geom, const Node* node, vh::Rng& rng, bool metrics)
{
  Record r;
  r.d = d;
  r.s = s;
  r.n = topo.get_refinement();
  r.n_edges = topo.n_hyEdges();
  r.n_nodes = topo.n_hyNodes();
  for (unsigned long long i = 0; i < r.n_edges; ++i)
  {
    Cell c;
    const auto te = topo[i];
    const auto& idx = te.get_hyNode_indices();
    vh::check_eq(idx.size(), (size_t)(2 * d), "faces-per-edge");
    if constexpr (requires { te.n_hyNodes(); })
      vh::check_eq((size_t)te.n_hyNodes(), (size_t)(2 * d), "nodes-per-edge");
    for (unsigned int f = 0; f < 2 * d; ++f)
      c.nodes.push_back(idx[f]);
    if (geom)
    {
      auto ge = (*geom)[i];
      if (metrics)
        geometry_of<d, s, T>(ge, rng, c);
      else
      {
        typedef SmallVec<d, T> P;
        c.origin = vec(ge.map_ref_to_phys((const P&)P((T)0.)));
        for (unsigned int k = 0; k < d; ++k)
        {
          P x((T)0.);
          x[k] = 1.;
          c.span.push_back(sub(vec(ge.map_ref_to_phys((const P&)x)), c.origin));
        }
      }
    }
    if (node)
    {
      const auto ne = (*node)[i];
      if constexpr (requires { ne.n_hyNodes(); })
        vh::check_eq((size_t)ne.n_hyNodes(), (size_t)(2 * d), "nodes-per-edge");
      for (unsigned int f = 0; f < 2 * d; ++f)
        c.types.push_back(ne[f]);
    }
    r.cells.push_back(c);
  }
  return r;
}

// Generated domain of parallelepipeds with arbitrarily shared nodes.
struct FileDomain
{
  unsigned int d, s, n_nodes;
  std::vector<std::vector<unsigned int>> nodes, types, pts;
  std::vector<Vec> points;
  std::vector<Vec> props;
  uint64_t hash = 7;
  Vec origin(unsigned int e) const { return points[pts[e][0]]; }
  Mat span(unsigned int e) const
  {
    Mat m;
    for (unsigned int k = 0; k < d; ++k)
      m.push_back(sub(points[pts[e][1 << k]], points[pts[e][0]]));
    return m;
  }
};
inline FileDomain make_domain(vh::Rng& rng, unsigned int d, unsigned int s, unsigned int max_edges, bool properties)
{
  FileDomain f;
  f.d = d;
  f.s = s;
  const unsigned int ne = rng.u(1, max_edges);
  const unsigned int lo = 2 * d;
  std::set<std::vector<unsigned int>> used;
  f.n_nodes = lo + rng.u(0, (2 * d - 1) * (ne - 1) + (ne > 1));
  const int style = rng.i(0, 3);  // 0: axis-parallel, 1: orthogonal, 2/3: general
  for (unsigned int e = 0; e < ne; ++e)
  {
    std::vector<unsigned int> nd;
    std::vector<unsigned int> sorted;
    int tries = 0;
    do
    {
      nd.clear();
      std::set<unsigned int> in;
      while (nd.size() < 2 * d)
      {
        unsigned int c = rng.u(0, f.n_nodes - 1);
        if (in.insert(c).second)
          nd.push_back(c);
      }
    } while (used.count(nd) && ++tries < 50);
    if (used.count(nd))
      continue;
    used.insert(nd);
    f.nodes.push_back(nd);
    std::vector<unsigned int> ty;
    for (unsigned int k = 0; k < 2 * d; ++k)
      ty.push_back(rng.u(0, 5));
    f.types.push_back(ty);
    // Spanning vectors of comfortable condition.
    Mat v;
    Vec o(s);
    for (auto& x : o)
      x = rng.d(-3., 3.);
    do
    {
      v.clear();
      for (unsigned int k = 0; k < d; ++k)
      {
        Vec c(s, 0.);
        if (style == 0)
          c[(k + rng.u(0, s > d ? 1 : 0)) % s] = (rng.coin() ? 1 : -1) * rng.d(0.2, 3.);
        else
          for (auto& x : c)
            x = rng.d(-1.5, 1.5);
        if (style == 1)
          for (unsigned int j = 0; j < k; ++j)
            c = axpy(-dot(c, v[j]) / dot(v[j], v[j]), v[j], c);
        v.push_back(c);
      }
    } while ([&] {
      double p = 1;
      for (auto& c : v)
        p *= norm(c);
      return !(p > 1e-2) || volume(v) < 0.25 * p;
    }());
    std::vector<unsigned int> ids;
    for (unsigned int b = 0; b < (1u << d); ++b)
    {
      Vec p = o;
      for (unsigned int k = 0; k < d; ++k)
        if (b >> k & 1)
          p = axpy(1., v[k], p);
      ids.push_back(f.points.size());
      f.points.push_back(p);
    }
    f.pts.push_back(ids);
    if (properties)
    {
      Vec pr(3);
      for (auto& x : pr)
        x = rng.d(-5., 5.);
      f.props.push_back(pr);
    }
    f.hash = vh::mix(vh::mix(f.hash, o[0]), nd[0]);
  }
  return f;
}
inline std::string write_domain(const FileDomain& f, const std::string& name)
{
  std::ofstream o(name);
  o.precision(17);
  o << "Space_Dim = " << f.s << ";\nHyperEdge_Dim = " << f.d << ";\nN_Points = " << f.points.size() << ";\nN_HyperNodes = " << f.n_nodes
    << ";\nN_HyperEdges = " << f.nodes.size() << ";\nPOINTS:\n";
  for (auto& p : f.points)
  {
    for (auto x : p)
      o << x << " ";
    o << "\n";
  }
  auto list = [&](const char* key, const std::vector<std::vector<unsigned int>>& l) {
    o << key << "\n";
    for (auto& e : l)
    {
      for (auto x : e)
        o << x << " ";
      o << "\n";
    }
  };
  list("HYPERNODES_OF_HYPEREDGES:", f.nodes);
  list("TYPES_OF_HYPERFACES:", f.types);
  list("POINTS_OF_HYPEREDGES:", f.pts);
  if (!f.props.empty())
  {
    o << "HYPEREDGE_PROPERTIES: " << f.props[0].size() << "\n";
    for (auto& e : f.props)
    {
      for (auto x : e)
        o << x << " ";
      o << "\n";
    }
  }
  return name;
}
}  // namespace grid
