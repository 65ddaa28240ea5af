// Monitor: hypergraph as a container of hyperedges, on recording mock parts; model-based histories.
#include "hh.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>

struct Parts  // Logical content shared by the three mocks: edge k of base e refined r times.
{
  unsigned int edges, nodes, salt;
};
static unsigned long part_id(char kind, unsigned int salt, unsigned int level, unsigned int index)
{
  return (((unsigned long)kind * 131 + salt) * 37 + level) * 100003 + index;
}
struct Topo
{
  typedef Parts constructor_value_type;
  typedef unsigned long value_type;
  Parts p;
  unsigned int level = 1;
  mutable unsigned long calls = 0;
  Topo(const Parts& c) : p(c) {}
  Topo(const Topo&) = default;
  static constexpr unsigned int hyEdge_dim() { return 2; }
  static constexpr unsigned int space_dim() { return 3; }
  value_type operator[](const unsigned long i) const
  {
    ++calls;
    vh::check(i < n_hyEdges(), "topology-index-range", std::to_string(i));
    return part_id('t', p.salt, level, i);
  }
  unsigned int n_hyEdges() const { return p.edges * level; }
  unsigned int n_hyNodes() const { return p.nodes + level; }
  unsigned int get_refinement() const { return level; }
  void set_refinement(unsigned int l) { level = l; }
};
struct Geom
{
  struct constructor_value_type
  {
    unsigned int salt;
  };
  typedef unsigned long value_type;
  unsigned int salt, level = 1;
  Geom(const constructor_value_type& c) : salt(c.salt) {}
  Geom(const Topo& t) : salt(t.p.salt), level(t.level) {}
  static constexpr unsigned int hyEdge_dim() { return 2; }
  static constexpr unsigned int space_dim() { return 3; }
  value_type operator[](const unsigned long i) const { return part_id('g', salt, level, i); }
  void set_refinement(unsigned int l) { level = l; }
};
struct Node
{
  typedef unsigned long value_type;
  unsigned int salt, level = 1;
  Node(const Topo& t) : salt(t.p.salt), level(t.level) {}
  value_type operator[](const unsigned long i) const { return part_id('n', salt, level, i); }
  void set_refinement(unsigned int l) { level = l; }
};
struct Data
{
  std::vector<double> v;
  int tag = 0;
};
template <unsigned int nd, typename IDX>
void history(vh::Rng& rng)
{
  typedef HDGHyperGraph<nd, Topo, Geom, Node, Data, IDX> G;
  static_assert(G::hyEdge_dim() == 2 && G::space_dim() == 3 && G::n_dofs_per_node() == nd);
  Parts p{rng.u(1, 6), rng.u(1, 5), rng.u(0, 1000)};
  unsigned int gsalt = p.salt;
  std::unique_ptr<G> gp;
  const int how = rng.i(0, 2);
  if (how == 0)
    gp = std::make_unique<G>(p);
  else if (how == 1)
  {
    gsalt = rng.u(0, 1000);
    gp = std::make_unique<G>(p, typename Geom::constructor_value_type{gsalt});
  }
  else
  {
    auto t = std::make_shared<Topo>(p);
    gp = std::make_unique<G>(t, std::make_shared<Geom>(*t), std::make_shared<Node>(*t));
  }
  G& g = *gp;
  G other(Parts{p.edges, p.nodes, p.salt + 1});
  unsigned int level = 1;
  std::vector<int> tags(p.edges, 0);
  std::vector<std::vector<double>> vals(p.edges);
  uint64_t h = vh::mix(vh::mix(vh::mix(3, p.edges), p.nodes), how);
  auto edge_ok = [&](const auto& e, unsigned int i, const char* via) {
    vh::check_lazy(e.topology == part_id('t', p.salt, level, i), std::string("topology-of-edge-") + via, [&] { return "edge " + std::to_string(i); });
    vh::check_lazy(e.geometry == part_id('g', gsalt, level, i), std::string("geometry-of-edge-") + via, [&] { return "edge " + std::to_string(i); });
    vh::check_lazy(e.node_descriptor == part_id('n', p.salt, level, i), std::string("nodes-of-edge-") + via, [&] { return "edge " + std::to_string(i); });
    vh::check_lazy(e.data.tag == tags[i] && e.data.v == vals[i], std::string("data-of-edge-") + via, [&] { return "edge " + std::to_string(i) + " tag " + std::to_string(e.data.tag) + " expected " + std::to_string(tags[i]); });
    vh::event("edges-observed");
  };
  for (int step = 0; step < 14; ++step)
  {
    const unsigned int n = p.edges * level;
    vh::check_eq((unsigned int)g.n_hyEdges(), n, "n-edges");
    vh::check_eq((unsigned int)g.n_hyNodes(), p.nodes + level, "n-nodes");
    vh::check_eq((unsigned int)g.n_global_dofs(), (p.nodes + level) * nd, "n-global-dofs");
    vh::check_eq((unsigned int)g.hyNode_factory().n_hyNodes(), p.nodes + level, "factory-nodes");
    vh::check_eq(g.get_refinement(), level, "get-refinement");
    const int op = rng.i(0, 7);
    h = vh::mix(h, op);
    if (op == 0)  // Forward iteration.
    {
      unsigned int i = 0;
      for (auto it = g.begin(); !(it == g.end()) && i <= n; ++it, ++i)
        if (i < n)
          edge_ok(*it, i, "iterator");
      vh::check_eq(i, n, "iteration-count");
    }
    else if (op == 1)  // Algorithms and range-based loops.
    {
      unsigned int i = 0;
      for (auto e : g)
      {
        if (i < n)
          edge_ok(e, i, "range");
        if (++i > n)
          break;
      }
      vh::check_eq(i, n, "range-count");
      i = 0;
      std::for_each(g.begin(), g.end(), [&](auto e) {
        if (i < n)
          edge_ok(e, i, "for-each");
        ++i;
      });
      vh::check_eq(i, n, "for-each-count");
    }
    else if (op == 2)  // Backward iteration and post-increment semantics.
    {
      auto it = g.end();
      unsigned int i = n;
      while (!(it == g.begin()) && i > 0)
      {
        --i;
        if (rng.coin())
        {
          auto& r = --it;
          vh::check(&r == &it, "predecrement-self");
        }
        else
        {
          auto old = it--;
          vh::check(!(old == it), "postdecrement-returns-old");
          auto o2 = old;
          vh::check(--o2 == it, "postdecrement-distance");
        }
        edge_ok(*it, i, "backward");
      }
      vh::check_eq(i, 0u, "backward-count");
      auto f = g.begin();
      auto old = f++;
      vh::check(old == g.begin() && !(f == old), "postincrement");
      auto& r = ++old;
      vh::check(&r == &old && f == old, "preincrement");
    }
    else if (op == 3)  // Random access, whole edge and by part.
    {
      const unsigned int i = rng.u(0, n - 1);
      edge_ok(g[i], i, "subscript");
      const G& cg = g;
      vh::check(cg.hyEdge_topology(i) == part_id('t', p.salt, level, i), "part-topology");
      vh::check(cg.hyEdge_geometry(i) == part_id('g', gsalt, level, i), "part-geometry");
      vh::check(cg.hyNode_descriptor(i) == part_id('n', p.salt, level, i), "part-nodes");
      vh::check(g.hyEdge_data(i).tag == tags[i], "part-data");
    }
    else if (op <= 5)  // Write data of one edge through one of three ways.
    {
      const unsigned int i = rng.u(0, n - 1);
      tags[i] = rng.i(1, 1 << 30);
      vals[i].assign(rng.u(0, 5), rng.d());
      const int way = rng.i(0, 2);
      if (way == 0)
      {
        auto e = g[i];
        e.data.tag = tags[i];
        e.data.v = vals[i];
      }
      else if (way == 1)
      {
        g.hyEdge_data(i).tag = tags[i];
        g.hyEdge_data(i).v = vals[i];
      }
      else
      {
        auto it = g.begin();
        for (unsigned int k = 0; k < i; ++k)
          ++it;
        auto e = *it;
        e.data.tag = tags[i];
        e.data.v = vals[i];
      }
      for (unsigned int k = 0; k < n; ++k)
        edge_ok(g[k], k, "after-write");
      vh::event("data-writes");
    }
    else if (op == 6)  // Refinement keeps all parts in step; data start afresh.
    {
      level = rng.u(1, 4);
      g.set_refinement(level);
      tags.assign(p.edges * level, 0);
      vals.assign(p.edges * level, {});
      for (unsigned int k = 0; k < p.edges * level; ++k)
        edge_ok(g[k], k, "after-refinement");
      vh::event("refinements");
    }
    else  // Another graph is another container.
    {
      vh::check(!(g.begin() == other.begin()), "iterators-of-different-graphs-equal");
      vh::check_eq((unsigned int)other.n_hyEdges(), p.edges, "other-graph-size");
      for (unsigned int k = 0; k < p.edges; ++k)
        vh::check(other[k].data.tag == 0 && other[k].data.v.empty(), "other-graph-data");
    }
  }
  vh::state(h);
  vh::sample("edges=" + std::to_string(p.edges) + " nodes=" + std::to_string(p.nodes) + " ctor=" + std::to_string(how));
}
VH_SCENARIO(history)
{
  history<1, unsigned int>(rng);
  history<3, unsigned int>(rng);
  history<2, unsigned long>(rng);
}
// Data container on its own.
VH_SCENARIO(container)
{
  const unsigned int n = rng.u(1, 30);
  HyDataContainer<std::array<double, 3>> c(n);
  HyDataContainer<Data> d(n);
  std::vector<std::array<double, 3>> model(n, {0., 0., 0.});
  for (int k = 0; k < 40; ++k)
  {
    const unsigned int i = rng.u(0, n - 1), j = rng.u(0, 2);
    const double v = rng.d();
    if (rng.coin())
      c[i][j] = v;
    else
      c.get_hyEdge(i)[j] = v;
    model[i][j] = v;
    const unsigned int q = rng.u(0, n - 1);
    vh::check(c[q] == model[q] && c.get_hyEdge(q) == model[q], "container-content", "entry " + std::to_string(q));
    vh::check(&c[q] == &c.get_hyEdge(q), "container-identity");
  }
  for (unsigned int i = 0; i < n; ++i)
    vh::check(d[i].tag == 0 && d[i].v.empty(), "container-default");
  vh::event("container-cases");
  vh::state(vh::mix(vh::mix(1, n), model[0][0]));
}
VH_MAIN
