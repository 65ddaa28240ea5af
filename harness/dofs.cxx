// Monitor: degree-of-freedom numbering; gather / scatter observed on guarded vectors against a model.
#include "hh.hxx"
#include <map>
#include <HyperHDG/hypernodefactory.hxx>

// Vector that records every access: index and whether it was a write (via non-const access).
template <typename T>
struct Spy
{
  typedef T value_type;
  std::vector<T> v;
  mutable std::vector<size_t> log;
  explicit Spy(size_t n, T x = 0) : v(n, x) {}
  size_t size() const { return v.size(); }
  T& operator[](size_t i)
  {
    log.push_back(i);
    if (i >= v.size())
    {
      vh::fail("access-out-of-range", "index " + std::to_string(i) + " of " + std::to_string(v.size()));
      static T dummy;
      return dummy;
    }
    return v[i];
  }
  const T& operator[](size_t i) const { return const_cast<Spy&>(*this)[i]; }
};
static void accesses(std::vector<size_t> log, size_t first, size_t n, const char* key)
{
  std::set<size_t> s(log.begin(), log.end()), want;
  for (size_t k = 0; k < n; ++k)
    want.insert(first + k);
  vh::check_lazy(s == want, key, [&] { return "accessed " + std::to_string(s.size()) + " entries starting at " + std::to_string(s.empty() ? 0 : *s.begin()) + ", expected " + std::to_string(n) + " at " + std::to_string(first); });
}
template <unsigned int nd, typename IDX, typename T>
void factory(vh::Rng& rng)
{
  typedef HyperNodeFactory<nd, IDX> F;
  const unsigned int n = rng.u(1, 25);
  F f0((IDX)n);
  F f(f0);
  if (rng.coin())
  {
    F g((IDX)(n + 1)), h((IDX)(n + 2));
    g = f0;
    vh::check_eq((size_t)g.n_hyNodes(), (size_t)n, "n-nodes-of-copy");
    h = std::move(g);
    vh::check_eq((size_t)h.n_hyNodes(), (size_t)n, "n-nodes-of-moved");
    f = h;
  }
  vh::check(F::n_dofs_per_node() == nd, "dofs-per-node");
  vh::check_eq((size_t)f.n_hyNodes(), (size_t)n, "n-nodes");
  vh::check_eq((size_t)f.n_global_dofs(), (size_t)n * nd, "n-global-dofs");
  vh::check_eq((size_t)f.template n_global_dofs<unsigned long long>(), (size_t)n * nd, "n-global-dofs-wide");
  // Partition: every global index belongs to exactly one (node, local index) pair.
  std::vector<int> owner(n * nd, -1);
  for (unsigned int node = 0; node < n; ++node)
  {
    SmallVec<std::max(nd, 1u), unsigned int> idx;
    std::vector<size_t> idxv(nd);
    auto& ret = f.get_dof_indices(node, idxv);
    vh::check(&ret == &idxv, "indices-return");
    if constexpr (nd > 0)
      f.get_dof_indices(node, idx);
    for (unsigned int k = 0; k < nd; ++k)
    {
      vh::check_eq((size_t)idx[k], idxv[k], "indices-container-dependent");
      if (!vh::check(idxv[k] < owner.size(), "index-range"))
        continue;
      vh::check_eq(owner[idxv[k]], -1, "index-owned-twice");
      owner[idxv[k]] = node;
      vh::check_eq(idxv[k], (size_t)node * nd + k, "index-contiguous");
      if constexpr (nd > 0)
        vh::check_eq((unsigned int)f.get_hyNode_from_dof_index(idxv[k]), node, "node-of-index");
    }
  }
  vh::check(std::count(owner.begin(), owner.end(), -1) == 0, "index-unowned");
  // Random history of gather / scatter against a model; the spy sees every access.
  Spy<T> global(n * nd);
  std::vector<T> model(n * nd);
  for (size_t k = 0; k < model.size(); ++k)
    model[k] = global.v[k] = hh::rnd<T>(rng);
  uint64_t h = vh::mix(vh::mix(5, n), nd);
  for (int step = 0; step < 12; ++step)
  {
    const unsigned int node = rng.u(0, n - 1);
    SmallVec<std::max(nd, 1u), T> loc;
    std::vector<T> locv(nd);
    for (unsigned int k = 0; k < nd; ++k)
      loc[k] = locv[k] = hh::rnd<T>(rng);
    const auto loc0 = locv;
    global.log.clear();
    const int op = rng.i(0, 3);
    h = vh::mix(vh::mix(h, node), op);
    if (op == 0)
    {
      const Spy<T>& cg = global;
      auto& ret = f.get_dof_values(node, cg, locv);
      vh::check(&ret == &locv, "gather-return");
      for (unsigned int k = 0; k < nd; ++k)
        vh::check_eq(locv[k], model[node * nd + k], "gather-value");
      accesses(global.log, node * nd, nd, "gather-accesses");
    }
    else if (op == 1)
    {
      auto& ret = f.add_to_dof_values(node, global, locv);
      vh::check(&ret == &global, "add-return");
      accesses(global.log, node * nd, nd, "add-accesses");
      for (unsigned int k = 0; k < nd; ++k)
        model[node * nd + k] += loc0[k];
      vh::check(locv == loc0, "add-modifies-local");
    }
    else if (op == 2)
    {
      auto& ret = f.set_dof_values(node, global, locv);
      vh::check(&ret == &global, "set-return");
      accesses(global.log, node * nd, nd, "set-accesses");
      for (unsigned int k = 0; k < nd; ++k)
        model[node * nd + k] = loc0[k];
      vh::check(locv == loc0, "set-modifies-local");
    }
    else
    {
      const T val = hh::rnd<T>(rng);
      auto& ret = f.set_dof_values(node, global, val);
      vh::check(&ret == &global, "fill-return");
      accesses(global.log, node * nd, nd, "fill-accesses");
      for (unsigned int k = 0; k < nd; ++k)
        model[node * nd + k] = val;
    }
    if constexpr (nd > 0)
      if (op == 0)
      {
        f.get_dof_values(node, (const Spy<T>&)global, loc);
        for (unsigned int k = 0; k < nd; ++k)
          vh::check_eq(loc[k], model[node * nd + k], "gather-value-small");
      }
    vh::check(global.v == model, "history-mismatch", "operation " + std::to_string(op));
    vh::event("gather-scatter");
    vh::event("accesses-observed", global.log.size());
  }
  vh::state(h);
  vh::sample("nodes=" + std::to_string(n) + " dofs/node=" + std::to_string(nd));
}
VH_SCENARIO(factory)
{
  factory<0, unsigned int, double>(rng);
  factory<1, unsigned int, double>(rng);
  factory<2, unsigned short, float>(rng);
  factory<3, unsigned int, double>(rng);
  factory<4, unsigned long, double>(rng);
  factory<9, unsigned int, float>(rng);
  factory<18, int, double>(rng);
}
// A huge vector that is zero almost everywhere.
struct Sparse
{
  typedef double value_type;
  std::map<unsigned long long, double> v;
  unsigned long long n;
  unsigned long long size() const { return n; }
  double& operator[](unsigned long long i) { return v[i]; }
  double operator[](unsigned long long i) const { return v.count(i) ? v.at(i) : 0.; }
};
// Numbers of unknowns beyond the range of the node index type.
VH_SCENARIO_W(wide, 0.2)
{
  const unsigned int n = rng.u(50000000, 4000000000u);
  HyperNodeFactory<1000, unsigned int> f(n);
  const unsigned long long want = 1000ull * n;
  vh::check_eq(f.n_global_dofs<unsigned long long>(), want, "wide-n-global-dofs");
  const unsigned int node = rng.u(0, n - 1);
  std::vector<unsigned long long> idx(1000);
  f.get_dof_indices(node, idx);
  bool ok = true;
  for (unsigned int k = 0; k < 1000; ++k)
    ok = ok && idx[k] == 1000ull * node + k;
  vh::check(ok, "wide-indices", "node " + std::to_string(node) + " got " + std::to_string(idx[0]));
  vh::check_eq(f.get_hyNode_from_dof_index(idx[rng.u(0, 999)]), node, "wide-node-of-index");
  HyperNodeFactory<1000, unsigned short> g(65535);
  vh::check_eq(g.n_global_dofs<unsigned int>(), 65535000u, "wide-short-index");
  {
    // Values that live beyond the range of the node index type.
    Sparse v{{}, want};
    std::array<double, 1000> loc, back;
    for (auto& x : loc)
      x = rng.d(-1, 1);
    const unsigned int other = (node + 1 + rng.u(0, n - 2)) % n;
    f.set_dof_values<unsigned long long>(node, v, loc);
    f.add_to_dof_values<unsigned long long>(node, v, loc);
    f.set_dof_values<unsigned long long>(other, v, 3.5);
    bool good = v.v.size() == 2000;
    for (unsigned int k = 0; k < 1000; ++k)
      good = good && v[1000ull * node + k] == loc[k] + loc[k] && v[1000ull * other + k] == 3.5;
    vh::check(good, "wide-values", "nodes " + std::to_string(node) + ", " + std::to_string(other));
    f.get_dof_values<unsigned long long>(node, v, back);
    good = true;
    for (unsigned int k = 0; k < 1000; ++k)
      good = good && back[k] == loc[k] + loc[k];
    vh::check(good, "wide-values-read");
  }
  vh::event("wide-cases");
  vh::state(vh::mix(vh::mix(11, n), node));
}
VH_MAIN
