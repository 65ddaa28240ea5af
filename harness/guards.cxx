// Monitor of preconditions: debug builds stop misuse (an index or size out of range) with a message before anything is
// read or written out of range, and accept everything that is in range; release builds evaluate none of the conditions.
#include "grid.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/hy_data_container.hxx>
#include <HyperHDG/hypercube.hxx>
#include <HyperHDG/hypernodefactory.hxx>
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <HyperHDG/sparse_la.hxx>

typedef std::function<void()> Fun;
static volatile double sink;

// Misuse: the process has to be stopped by the library.  Sanitizers watch for anything that happens before.
static void refuses(const char* key, const std::string& what, const Fun& f)
{
#ifndef NDEBUG
  std::string err;
  const vh::Death r = vh::death(f, &err);
  vh::event("misuse");
  vh::event(std::string("misuse-") + key);
  vh::check_lazy(r == vh::Death::asserted || r == vh::Death::threw, key, [&] {
    return what + ": " + vh::name(r) + " " + err.substr(0, 300);
  });
  if (r == vh::Death::asserted)
    vh::check_lazy(err.find("Source:") != std::string::npos && err.find("line") != std::string::npos, "message-names-its-source", [&] {
      return what + ": " + err.substr(0, 300);
    });
#endif
}
// Proper use: has to return (in this process; an assertion is a violation).
static void accepts(const char* key, const Fun& f)
{
  vh::event("proper-uses");
  vh::event(std::string("proper-") + key);
  f();
}
// An index that is out of range: the first one, close ones, those whose wrap-around is in range, the largest.
static unsigned int beyond(vh::Rng& rng, unsigned int n)
{
  switch (rng.u(0, 4))
  {
    case 0:
    case 1:
      return n;
    case 2:
      return n + rng.u(1, 3);
    case 3:
      return (unsigned int)-1 - rng.u(0, n);
    default:
      return n + rng.u(1, 1u << 30);
  }
}
static unsigned int within(vh::Rng& rng, unsigned int n)
{
  return rng.coin() ? n - 1 : rng.u(0, n - 1);
}
static std::string text(const char* s, unsigned long long i, unsigned long long n)
{
  return std::string(s) + " " + std::to_string(i) + " of " + std::to_string(n);
}

// ------------------------------------------------------------------------------------ matrices
template <unsigned int r, unsigned int c, typename T>
void matrix(vh::Rng& rng)
{
  typedef SmallMat<r, c, T> M;
  M a = hh::random_mat<r, c, T>(rng);
  const M& ca = a;
  vh::state(hh::hash(a));
  const unsigned int i = within(rng, r), j = within(rng, c), k = within(rng, r * c);
  accepts("matrix", [&] { sink = (double)(a(i, j) + ca(i, j) + a[k] + ca[k] + a.get_column(j)[i]); });
  const unsigned int bi = beyond(rng, r), bj = beyond(rng, c), bk = beyond(rng, r * c);
  switch (rng.u(0, 5))
  {
    case 0:
      return refuses("row-index", text("row", bi, r), [&] { sink = rng.coin() ? (double)a(bi, j) : (double)ca(bi, j); });
    case 1:
      return refuses("column-index", text("column", bj, c), [&] { sink = rng.coin() ? (double)a(i, bj) : (double)ca(i, bj); });
    case 2:
      return refuses("entry-index", text("entry", bk, r * c), [&] { sink = (double)ca[bk]; });
    case 3:
      return refuses("entry-index", text("entry (write)", bk, r * c), [&] { a[bk] = (T)1; });
    case 4:
      return refuses("get-column-index", text("column", bj, c), [&] { sink = (double)a.get_column(bj)[0]; });
    default:
    {
      const unsigned int n = rng.coin() ? r * c + rng.u(1, 4) : rng.u(0, r * c - 1);
      accepts("matrix-of-vector", [&] { sink = (double)M(std::vector<T>(r * c, (T)2))[k]; });
      refuses("matrix-of-vector-size", text("matrix of vector of size", n, r * c), [&] { sink = (double)M(std::vector<T>(n, (T)1))[0]; });
    }
  }
}
VH_SCENARIO(matrices)
{
  switch (rng.u(0, 6))
  {
    case 0:
      return matrix<1, 1, double>(rng);
    case 1:
      return matrix<3, 1, float>(rng);
    case 2:
      return matrix<1, 4, int>(rng);
    case 3:
      return matrix<2, 3, double>(rng);
    case 4:
      return matrix<3, 2, unsigned int>(rng);
    case 5:
      return matrix<4, 4, float>(rng);
    default:
      return matrix<5, 2, double>(rng);
  }
}
template <unsigned int d>
void decompose(vh::Rng& rng)
{
  const unsigned int range = rng.u(1, 6);
  unsigned int n = 1;
  for (unsigned int k = 0; k < d; ++k)
    n *= range;
  accepts("decompose", [&] {
    const unsigned int i = within(rng, n);
    const auto x = Hypercube<d>::index_decompose(i, range);
    unsigned int back = 0;
    for (unsigned int k = d; k-- > 0;)
      back = back * range + x[k];
    vh::check_eq(back, i, "decomposition");
  });
  const unsigned int b = beyond(rng, n);
  refuses("decompose-index", text("tensorial index", b, n), [&] { sink = Hypercube<d>::index_decompose(b, range)[0]; });
}
VH_SCENARIO_W(decomposition, .3)
{
  rng.coin() ? decompose<1>(rng) : rng.coin() ? decompose<2>(rng) : decompose<3>(rng);
}

// -------------------------------------------------------------------------------------- vectors
template <typename T>
void sparse(vh::Rng& rng)
{
  typedef std::vector<T> V;
  const unsigned int n = rng.u(1, 12);
  V a(n), b(n), c(n);
  for (unsigned int k = 0; k < n; ++k)
    a[k] = (T)rng.d(-1, 1), b[k] = (T)rng.d(-1, 1);
  const unsigned int m = rng.coin() ? n + rng.u(1, 5) : n - 1;
  const V w(m, (T)1);
  V res(m);
  accepts("vectors", [&] {
    sink = SparseLA::inner_product(a, b);
    sink = SparseLA::linear_combination((T)2, a, (T)1, b)[0];
    SparseLA::linear_combination((T)2, a, (T)1, b, c);
  });
  switch (rng.u(0, 4))
  {
    case 0:
      return refuses("inner-product-sizes", text("inner product: vector", m, n), [&] { sink = rng.coin() ? SparseLA::inner_product(a, w) : SparseLA::inner_product(w, a); });
    case 1:
      return refuses("combination-sizes", text("combination: vector", m, n), [&] {
        sink = (rng.coin() ? SparseLA::linear_combination((T)2, a, (T)1, w) : SparseLA::linear_combination((T)2, w, (T)1, a)).size();
      });
    case 2:
      return refuses("combination-inplace-sizes", text("in place combination: vector", m, n), [&] {
        switch (rng.u(0, 2))
        {
          case 0:
            return SparseLA::linear_combination((T)2, a, (T)1, w, c);
          case 1:
            return SparseLA::linear_combination((T)2, w, (T)1, a, c);
          default:
            return SparseLA::linear_combination((T)2, a, (T)1, b, res);
        }
      });
    default:
    {
      struct P
      {
        V trace_to_flux(const V& x) { return x; }
      } p;
      accepts("iterations", [&] { sink = SparseLA::conjugate_gradient(a, p, rng.u(0, 3))[0]; });
    }
  }
}
VH_SCENARIO_W(vectors, .5)
{
  rng.coin() ? sparse<double>(rng) : sparse<float>(rng);
}

// ---------------------------------------------------------------------------------------- dofs
template <unsigned int nd>
void factory(vh::Rng& rng)
{
  const unsigned int n = rng.u(1, 9), node = within(rng, n), bad = rng.coin(3) ? n : n + rng.u(1, 5);
  HyperNodeFactory<nd, unsigned int> f(n);
  std::vector<double> global(n * nd, 1.), local(nd, 2.);
  std::vector<unsigned int> idx(nd);
  vh::state(vh::mix(vh::mix(nd, n), node));
  accepts("dofs", [&] {
    f.get_dof_indices(node, idx);
    for (unsigned int k = 0; k < nd; ++k)
      vh::check_eq((unsigned int)f.template get_hyNode_from_dof_index<unsigned int>(idx[k]), node, "node-of-dof");
    f.get_dof_values(node, global, local);
    f.add_to_dof_values(node, global, local);
    f.set_dof_values(node, global, local);
    f.set_dof_values(node, global, 3.);
  });
  // Local vectors of a wrong size; global vectors that end within, or before, the node's values.
  const unsigned int wrong = rng.coin() ? nd + rng.u(1, 3) : nd - 1;
  std::vector<double> wl(wrong, 1.);
  std::vector<unsigned int> wi(wrong);
  std::vector<double> cut(node * nd + rng.u(0, nd - 1), 1.);
  const unsigned int which = rng.u(0, 2);
  switch (rng.u(0, 8))
  {
    case 0:
      return refuses("dof-index", text("degree of freedom of node", bad, n), [&] { sink = f.template get_hyNode_from_dof_index<unsigned int>(beyond(rng, n * nd)); });
    case 1:
      return refuses("local-index-size", text("local indices", wrong, nd), [&] { f.get_dof_indices(node, wi); });
    case 2:
      return refuses("local-size", text("local values (get)", wrong, nd), [&] { f.get_dof_values(node, global, wl); });
    case 3:
      return refuses("local-size-add", text("local values (add)", wrong, nd), [&] { f.add_to_dof_values(node, global, wl); });
    case 4:
      return refuses("local-size-set", text("local values (set)", wrong, nd), [&] { f.set_dof_values(node, global, wl); });
    case 5:
      return refuses("global-size", text("node (get)", bad, n), [&] { which ? f.get_dof_values(bad, global, local) : f.get_dof_values(node, cut, local); });
    case 6:
      return refuses("global-size-add", text("node (add)", bad, n), [&] { which ? f.add_to_dof_values(bad, global, local) : f.add_to_dof_values(node, cut, local); });
    case 7:
      return refuses("global-size-set", text("node (set)", bad, n), [&] { which ? f.set_dof_values(bad, global, local) : f.set_dof_values(node, cut, local); });
    default:
      return refuses("global-size-fill", text("node (fill)", bad, n), [&] { which ? f.set_dof_values(bad, global, 1.) : f.set_dof_values(node, cut, 1.); });
  }
}
VH_SCENARIO(dofs)
{
  rng.coin() ? factory<1>(rng) : rng.coin() ? factory<2>(rng) : factory<6>(rng);
}
VH_SCENARIO_W(data, .2)
{
  const unsigned int n = rng.u(0, 12);
  HyDataContainer<double, std::vector<double>> c(n);
  if (n)
    accepts("data", [&] { sink = c[within(rng, n)]; });
  const unsigned int b = beyond(rng, n);
  refuses("data-index", text("data", b, n), [&] { sink = rng.coin() ? c[b] : c.get_hyEdge(b); });
}

// --------------------------------------------------------------------------------------- grids
template <unsigned int d, unsigned int s, typename T, typename E>
void edge_guards(E& e, vh::Rng& rng)
{
  const unsigned int f = within(rng, 2 * d), k = within(rng, d);
  accepts("geometry", [&] {
    sink = e.span_vec(k)[0] + e.face_area(f) + e.local_normal(f)[0] + e.inner_normal(f)[0] + e.face_barycenter(f)[0];
    if constexpr (s > d)
      sink = e.outer_normal(within(rng, s - d))[0];
  });
  const unsigned int bk = beyond(rng, d), bf = beyond(rng, 2 * d), bo = beyond(rng, s - d);
  const SmallVec<3, float> sub1((float).25);
  switch (rng.u(0, 8))
  {
    case 0:
      return refuses("span-index", text("spanning vector", bk, d), [&] { sink = e.span_vec(bk)[0]; });
    case 1:
      return refuses("face-area-index", text("area of face", bf, 2 * d), [&] { sink = e.face_area(bf); });
    case 2:
      return refuses("local-normal-index", text("local normal", bf, 2 * d), [&] { sink = e.local_normal(bf)[0]; });
    case 3:
      return refuses("inner-normal-index", text("inner normal", bf, 2 * d), [&] { sink = e.inner_normal(bf)[0]; });
    case 4:
      return refuses("barycenter-index", text("barycentre of face", bf, 2 * d), [&] { sink = e.face_barycenter(bf)[0]; });
    case 5:
      return refuses("outer-normal-index", text("outer normal", bo, s - d), [&] { sink = e.outer_normal(bo)[0]; });
    case 6:
    {
      const unsigned int tot = Hypercube<d>::pow(3);
      accepts("lexicographic", [&] { sink = e.template lexicographic<3>(within(rng, tot), sub1)[0]; });
      const unsigned int b = beyond(rng, tot);
      return refuses("lexicographic-index", text("tensorial point", b, tot), [&] { sink = e.template lexicographic<3>(b, sub1)[0]; });
    }
    case 7:
    {
      const unsigned int tot = Hypercube<d - 1>::pow(3) * 2 * d;
      accepts("boundary-lexicographic", [&] { sink = e.template boundary_lexicographic<3>(tot - 1, 2 * d - 1, .8f, sub1)[0]; });
      const unsigned int b = beyond(rng, tot);
      return refuses("boundary-lexicographic-index", text("boundary point", b, tot), [&] { sink = e.template boundary_lexicographic<3>(b, within(rng, 2 * d), .8f, sub1)[0]; });
    }
    default:
    {
      SmallMat<d, 2, T> x;
      for (unsigned int i = 0; i < 2 * d; ++i)
        x[i] = (T)(rng.coin() ? rng.i(0, 1) : rng.d(0., 1.));
      accepts("reference-point", [&] { sink = e.map_ref_to_phys((const SmallMat<d, 2, T>&)x)[0]; });
      x[rng.u(0, 2 * d - 1)] = (T)(rng.coin() ? -rng.d(1e-3, 2.) : 1. + rng.d(1e-3, 2.));
      refuses("reference-point", "point outside of the reference hyperedge", [&] { sink = e.map_ref_to_phys((const SmallMat<d, 2, T>&)x)[0]; });
      if constexpr (d == s)
        refuses("reference-point-inplace", "point outside of the reference hyperedge (in place)", [&] { sink = e.map_ref_to_phys(x)[0]; });
    }
  }
}
template <unsigned int d, unsigned int s, typename T, typename Topo, typename Geom, typename Node>
void grid_guards(Topo& topo, Geom& geom, Node& node, vh::Rng& rng)
{
  const unsigned int n = topo.n_hyEdges(), i = within(rng, n), b = beyond(rng, n);
  vh::state(vh::mix(vh::mix(n, i), b));
  accepts("grid", [&] { sink = topo[i].get_hyNode_indices()[0] + geom[i].area() + node[i][2 * d - 1]; });
  switch (rng.u(0, 5))
  {
    case 0:
      return refuses("topology-index", text("hyperedge (topology)", b, n), [&] { sink = topo[b].get_hyNode_indices()[0]; });
    case 1:
      return refuses("geometry-index", text("hyperedge (geometry)", b, n), [&] { sink = geom[b].area(); });
    case 2:
      return refuses("descriptor-index", text("hyperedge (node descriptor)", b, n), [&] { sink = node[b][0]; });
    default:
      auto e = geom[i];
      return edge_guards<d, s, T>(e, rng);
  }
}
template <unsigned int d, unsigned int s, typename T>
void cubic(vh::Rng& rng)
{
  std::vector<unsigned int> N(s);
  for (auto& x : N)
    x = rng.u(1, 3);
  Topology::Cubic<d, s> topo(N);
  if (rng.coin())
    topo.set_refinement(rng.u(1, 3));
  Geometry::UnitCube<d, s, T> geom(topo);
  NodeDescriptor::Cubic<d, s> node(topo);
  grid_guards<d, s, T>(topo, geom, node, rng);
}
template <unsigned int d, unsigned int s>
void file(vh::Rng& rng)
{
  const auto dom = grid::make_domain(rng, d, s, 4, false);
  const std::string name = grid::write_domain(dom, vh::scratch() + "/g.geo");
  typedef Point<s, double> P;
  Topology::File<d, s, std::vector, P> topo(name);
  if (rng.coin())
    topo.set_refinement(rng.u(1, 3));
  Geometry::File<d, s, std::vector, P> geom(topo);
  NodeDescriptor::File<d, s, std::vector, P> node(topo);
  grid_guards<d, s, double>(topo, geom, node, rng);
}
VH_SCENARIO(cubic_grids)
{
  switch (rng.u(0, 5))
  {
    case 0:
      return cubic<1, 1, double>(rng);
    case 1:
      return cubic<1, 2, float>(rng);
    case 2:
      return cubic<1, 3, double>(rng);
    case 3:
      return cubic<2, 2, double>(rng);
    case 4:
      return cubic<2, 3, double>(rng);
    default:
      return cubic<3, 3, double>(rng);
  }
}
VH_SCENARIO(file_grids)
{
  switch (rng.u(0, 5))
  {
    case 0:
      return file<1, 1>(rng);
    case 1:
      return file<1, 2>(rng);
    case 2:
      return file<1, 3>(rng);
    case 3:
      return file<2, 2>(rng);
    case 4:
      return file<2, 3>(rng);
    default:
      return file<3, 3>(rng);
  }
}

// ------------------------------------------------------------------------------------- problems
template <unsigned int d, unsigned int s>
void problem(vh::Rng& rng)
{
  typedef LocalSolver::Diffusion<d, 1, 2> LS;
  std::vector<unsigned int> N(s);
  for (auto& x : N)
    x = rng.u(1, 3);
  GlobalLoop::Elliptic<Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>, LS> p(N);
  const unsigned int n = p.size_of_system();
  vh::state(n);
  std::vector<double> x(n, 1.);
  std::vector<unsigned int> idx{0, within(rng, n)};
  accepts("problem", [&] {
    p.read_dirichlet_indices(idx);
    sink = p.trace_to_flux(x)[0];
  });
  switch (rng.u(0, 2))
  {
    case 0:
    {
      const unsigned int b = beyond(rng, n);
      idx.insert(idx.begin() + rng.u(0, 2), b);
      return refuses("dirichlet-index", text("Dirichlet index", b, n), [&] {
        p.read_dirichlet_indices(idx);
        sink = p.trace_to_flux(x)[0];
      });
    }
    case 1:
    {
      x.resize(rng.coin() ? n - 1 : rng.u(0, n - 1));
      return refuses("trace-size", text("vector of unknowns", x.size(), n), [&] { sink = p.trace_to_flux(x)[0]; });
    }
    default:
    {
      x.resize(rng.coin() ? n - 1 : rng.u(0, n - 1));
      return refuses("trace-size-residual", text("vector of unknowns", x.size(), n), [&] { sink = p.residual_flux(x)[0]; });
    }
  }
}
VH_SCENARIO_W(problems, .5)
{
  rng.coin() ? problem<1, 2>(rng) : problem<2, 2>(rng);
}

// ---------------------------------------------------------------------------------- assertions
VH_SCENARIO_W(assertion, .3)
{
  // Conditions are evaluated once in debug builds and not at all in release builds; messages are complete.
  int evaluated = 0;
  const int i = rng.i(0, 1000);
  std::ostringstream o;
  auto* old = std::cerr.rdbuf(o.rdbuf());
  if (rng.coin())
  {
    hy_assert(++evaluated > 0, "not shown " << i);
  }
  else
  {
    for (int k = 0; k < 1; ++k)
      hy_assert((++evaluated, true), "not shown");
  }
  std::cerr.rdbuf(old);
#ifdef NDEBUG
  vh::check_eq(evaluated, 0, "evaluated-in-release-build");
#else
  vh::check_eq(evaluated, 1, "evaluated-once");
#endif
  vh::check_lazy(o.str().empty(), "silent-if-holds", [&] { return o.str(); });
  vh::event("assertions-that-hold");
#ifndef NDEBUG
  std::string err;
  const auto r = vh::death([&] { hy_assert(i < 0, "number " << i << " is wrong"); }, &err);
  vh::check_lazy(r == vh::Death::asserted, "assertion-stops", [&] { return vh::name(r); });
  vh::check_lazy(err.find("number " + std::to_string(i) + " is wrong") != std::string::npos, "assertion-message", [&] { return err; });
  vh::event("assertions-that-fail");
#endif
}
VH_MAIN
