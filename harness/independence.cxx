// Monitor of problem objects side by side: histories on several objects, interleaved and in threads, against each history alone in a process of its own.
// PART 1: stationary diffusion, 2: Bilaplacian and time-dependent problems, 3: eigenvalue problems and beams.
#include "grid.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <atomic>
#include <filesystem>
#include <thread>
// Several solvers define default parameters of the same name.
#if PART == 1
#define DiffusionParametersDefault Default1
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
#undef DiffusionParametersDefault
#define DiffusionParametersDefault Default2
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#undef DiffusionParametersDefault
#define DiffusionParametersDefault Default3
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#undef DiffusionParametersDefault
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#elif PART == 2
#define Bilaplacian_parameters_default Default1
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#undef Bilaplacian_parameters_default
#define Bilaplacian_parameters_default Default2
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#undef Bilaplacian_parameters_default
#define DiffusionParametersDefault Default3
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#undef DiffusionParametersDefault
#define DiffusionParametersDefault Default4
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#undef DiffusionParametersDefault
#else
#define Bilaplacian_parameters_default Default1
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#undef Bilaplacian_parameters_default
#define DiffusionParametersDefault Default3
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#undef DiffusionParametersDefault
#define DiffusionParametersDefault Default4
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#undef DiffusionParametersDefault
#include <HyperHDG/local_solver/timoshenko_network.hxx>
#endif

typedef std::vector<double> Vec;

template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 3U> dirichlet_nodes{1, 3, 5};
  static constexpr std::array<unsigned int, 2U> dirichlet_laplacian_nodes{2, 5};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{}, neumann_laplacian_nodes{}, outflow_nodes{};
  static constexpr std::array<unsigned int, 6U> boundary_nodes{1, 2, 3, 4, 5, 6};
  typedef Point<s, F> P;
  static F wave(const P& p, double a)
  {
    double x = a;
    for (unsigned int k = 0; k < s; ++k)
      x += (k + 1) * p[k];
    return std::sin(x);
  }
  static F inverse_diffusion_coeff(const P& p, const F t = 0.) { return 2. + wave(p, t); }
  static F diffusion_coeff(const P& p, const F t = 0.) { return 2. + wave(p, 1. + t); }
  static F inverse_bilaplacian_coefficient(const P& p, const F t = 0.) { return 2. + wave(p, 2. + t); }
  static F right_hand_side(const P& p, const F t = 0.) { return wave(p, 3. + t); }
  static F dirichlet_value(const P& p, const F t = 0.) { return wave(p, 4. + t); }
  static F dirichlet_laplace_value(const P& p, const F t = 0.) { return wave(p, 5. + t); }
  static F neumann_value(const P& p, const F t = 0.) { return wave(p, 6. + t); }
  static F neumann_laplace_value(const P& p, const F t = 0.) { return wave(p, 7. + t); }
  static F analytic_result(const P& p, const F t = 0.) { return wave(p, 8. + t); }
  static F initial(const P& p, const F t = 0.) { return wave(p, 9. + t); }
  static F initial_laplace(const P& p, const F t = 0.) { return wave(p, 10. + t); }
  static F reaction_rate(const P& p, const F t = 0.) { return 2. + wave(p, 11. + t); }
  static SmallVec<s, F> advective_velocity(const P& p, const F t = 0.)
  {
    SmallVec<s, F> v;
    for (unsigned int k = 0; k < s; ++k)
      v[k] = 0.1 * wave(p, k + t);
    return v;
  }
  static SmallVec<s, F> velocity(const P& p, const F t = 0.)
  {
    SmallVec<s, F> v;
    for (unsigned int k = 0; k < s; ++k)
      v[k] = 1. + 0.1 * wave(p, k + t);
    return v;
  }
};
template <typename A, typename B, typename C, typename D, typename E>
using Ell = GlobalLoop::Elliptic<A, B, C, D, E>;

struct Problem
{
  virtual ~Problem() {}
  virtual Vec step(unsigned int op, uint64_t seed) = 0;
};
static Vec random_vec(uint64_t seed, size_t n)
{
  vh::Rng rng(seed);
  Vec v(n);
  for (auto& x : v)
    x = rng.d(-2., 2.);
  return v;
}
template <typename V>
static void append(Vec& a, const V& b)
{
  for (auto x : b)
    a.push_back(x);
}
static Vec contents(const std::string& dir)
{
  Vec r;
  std::vector<std::string> names;
  if (std::filesystem::exists(dir))
    for (auto& f : std::filesystem::directory_iterator(dir))
      names.push_back(f.path().string());
  std::sort(names.begin(), names.end());
  for (auto& n : names)
  {
    std::ifstream f(n, std::ios::binary);
    std::ostringstream b;
    b << f.rdbuf();
    std::string t = n.substr(dir.size()) + b.str();
    r.push_back((double)(std::hash<std::string>()(t) >> 12));
  }
  return r;
}
// Operations of all kinds of problems; what a loop does not have is left out.
template <typename P>
struct Run : Problem
{
  std::unique_ptr<P> p;
  std::string dir;
  unsigned int maxr;
  Run(std::unique_ptr<P> q, const std::string& d, unsigned int r) : p(std::move(q)), dir(d), maxr(r)
  {
    p->plot_option("outputDir", dir);
    p->plot_option("printFileNumber", "false");
  }
  Vec step(unsigned int op, uint64_t seed) override
  {
    vh::Rng rng(seed);
    constexpr bool nonlinear = requires(P& q, const Vec& v) { q.jacobian_of_trace_to_flux(v, 0., v, 0.); };
    Vec v = random_vec(seed + 1, p->size_of_system() + nonlinear), r;
    const double t = rng.coin(3) ? 0. : rng.d(0., 1.);
    switch (op)
    {
      case 0:
      case 1:
        if constexpr (requires { p->trace_to_mass_flux(v, t); })
          if (op == 1)
            return p->trace_to_mass_flux(v, t);
        if constexpr (nonlinear)
          if (op == 1)
            return p->jacobian_of_trace_to_flux(v, rng.d(0., 1.), random_vec(seed + 2, v.size()), rng.d(0.1, 0.2));
        return p->trace_to_flux(v, t * 0.2);
      case 2:
        if constexpr (requires { p->residual_flux(v, t); })
          return p->residual_flux(v, t);
        return r;
      case 3:
        if constexpr (requires { p->errors(v, t); })
          append(r, p->errors(v, t));
        return r;
      case 4:
        p->set_refinement(rng.u(1, maxr));
        return Vec{(double)p->get_refinement(), (double)p->size_of_system()};
      case 5:
        if constexpr (requires { p->trace_to_flux_mat(); })
        {
          auto m = p->trace_to_flux_mat();
          append(r, m.get_cols());
          append(r, m.get_rows());
          append(r, m.get_values());
        }
        if constexpr (requires { p->set_data(v, t); })
          p->set_data(v, t);
        if constexpr (requires { p->dirichlet_indices(); })
          append(r, p->dirichlet_indices());
        return r;
      case 6:
        if constexpr (requires { p->make_initial(v, t); })
          return p->make_initial(v, t);
        return r;
      default:
        p->plot_option("fileName", rng.coin() ? "a" : "b");
        p->plot_solution(v, t);
        return contents(dir);
    }
  }
};
template <typename P, typename A>
static std::unique_ptr<Problem> run_of(const A& topo, double tau, const std::string& dir, unsigned int maxr)
{
  return std::make_unique<Run<P>>(std::make_unique<P>(topo, tau), dir, maxr);
}
template <typename P, typename A>
static std::unique_ptr<Problem> run_of(const A& topo, const Vec& par, const std::string& dir, unsigned int maxr)
{
  return std::make_unique<Run<P>>(std::make_unique<P>(topo, par), dir, maxr);
}
#define CUBE(d, s) Topology::Cubic<d, s>, Geometry::UnitCube<d, s>, NodeDescriptor::Cubic<d, s>
#define FILE_(d, s) Topology::File<d, s>, Geometry::File<d, s>, NodeDescriptor::File<d, s>

// Everything that makes up an object and what is done with it.
struct Plan
{
  unsigned int kind;
  std::vector<unsigned int> n;
  std::string name;
  double tau;
  Vec par;
  std::string dir;
  std::vector<std::pair<unsigned int, uint64_t>> ops;
};
static std::unique_ptr<Problem> make(const Plan& p, const std::string& dir)
{
  using namespace GlobalLoop;
  using namespace LocalSolver;
  const std::vector<unsigned int> n1{p.n[0]}, n2{p.n[0], p.n[1]};
  switch (p.kind)
  {
#if PART == 1
    case 0:
      return run_of<Elliptic<CUBE(1, 1), Diffusion<1, 2, 4, Par>>>(n1, p.tau, dir, 4);
    case 1:
      return run_of<Elliptic<CUBE(2, 2), Diffusion<2, 1, 2, Par>>>(n2, p.tau, dir, 2);
    case 2:
      return run_of<Elliptic<FILE_(1, 2), Diffusion<1, 2, 4, Par>>>(p.name, p.tau, dir, 4);
    case 3:
      return run_of<Elliptic<CUBE(1, 1), DiffusionIP<1, 2, 4, Par>>>(n1, 10. + p.tau, dir, 4);
    case 4:
      return run_of<Elliptic<CUBE(1, 2), DiffusionAdvectionReaction<1, 1, 2, Par>>>(n2, p.tau, dir, 4);
    case 5:
      return run_of<Elliptic<CUBE(1, 1), DiffusionUniform<1, 1, 2>>>(n1, p.tau, dir, 4);
    default:
      return run_of<Elliptic<CUBE(1, 1), DiffusionPostprocess<1, 1, 2, Par>>>(n1, p.tau, dir, 4);
#elif PART == 2
    case 0:
      return run_of<Elliptic<CUBE(1, 1), Bilaplacian<1, 2, 4, Par>>>(n1, p.tau, dir, 4);
    case 1:
      return run_of<Elliptic<FILE_(1, 2), Bilaplacian<1, 1, 2, Par>>>(p.name, p.tau, dir, 4);
    case 2:
      return run_of<Parabolic<CUBE(1, 1), DiffusionParab<1, 2, 4, Par>, Vec>>(n1, p.par, dir, 4);
    case 3:
      return run_of<Parabolic<CUBE(2, 2), DiffusionParab<2, 1, 2, Par>, Vec>>(n2, p.par, dir, 2);
    case 4:
      return run_of<Parabolic<CUBE(1, 1), BilaplacianParab<1, 1, 2, Par>, Vec>>(n1, Vec{p.par[0], 1., p.par[2]}, dir, 4);
    default:
      return run_of<Parabolic<CUBE(1, 1), AdvectionParab<1, 1, 2, Par>, Vec>>(n1, p.par, dir, 4);
#else
    case 0:
      return run_of<NonlinearEigenvalue<CUBE(1, 1), DiffusionEigs<1, 2, 4, Par>>>(n1, p.tau, dir, 4);
    case 1:
      return run_of<NonlinearEigenvalue<CUBE(1, 1), BilaplacianEigs<1, 1, 2, Par>>>(n1, p.tau, dir, 4);
    case 2:
      return run_of<ShiftedInverseEigenvalue<CUBE(2, 2), DiffusionEigs<2, 1, 2, Par>>>(n2, p.tau, dir, 2);
    case 3:
      return run_of<MassApproxEigenvalue<FILE_(1, 2), Diffusion<1, 1, 2, Par>>>(p.name, p.tau, dir, 4);
    default:
      return run_of<Elliptic<FILE_(1, 3), TimoshenkoBeam<1, 3, 1, 2>>>(p.name, p.tau, dir, 3);
#endif
  }
}
#if PART == 1
static const unsigned int kinds = 7;
#elif PART == 2
static const unsigned int kinds = 6;
#else
static const unsigned int kinds = 5;
#endif
static Vec alone(const Plan& p)
{
  Vec all;
  auto q = make(p, p.dir + ".alone");
  for (auto& o : p.ops)
  {
    const Vec r = q->step(o.first, o.second);
    all.push_back(r.size());
    append(all, r);
  }
  return all;
}
// In a process of its own.
static bool in_child(const Plan& p, Vec& result)
{
  int fd[2];
  if (pipe(fd) != 0)
  {
    std::cerr << "VH-INFRA pipe failed" << std::endl;
    _exit(99);
  }
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0)
  {
    ::close(fd[0]);
    const Vec r = alone(p);
    const char* at = (const char*)r.data();
    size_t left = r.size() * sizeof(double);
    while (left > 0)
    {
      const ssize_t k = ::write(fd[1], at, left);
      if (k <= 0)
        _exit(3);
      at += k;
      left -= k;
    }
    _exit(0);
  }
  ::close(fd[1]);
  std::string bytes;
  char buffer[65536];
  ssize_t k;
  while ((k = ::read(fd[0], buffer, sizeof buffer)) > 0)
    bytes.append(buffer, k);
  ::close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  result.resize(bytes.size() / sizeof(double));
  if (!bytes.empty())
    memcpy(result.data(), bytes.data(), result.size() * sizeof(double));
  return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}
struct Silence
{
  struct None : std::streambuf
  {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  } none;
  std::streambuf* b;
  Silence() : b(std::cout.rdbuf(&none)) {}
  ~Silence() { std::cout.rdbuf(b); }
};
static std::string beam_network(vh::Rng& rng, const std::string& name)
{
  grid::FileDomain f = grid::make_domain(rng, 1, 3, 4, true);
  f.props.clear();  // Those of beams have a fixed meaning.
  return grid::write_domain(f, name);
}
VH_SCENARIO(objects)
{
  const unsigned int n = rng.u(2, 4);
  const std::string base = vh::scratch() + "/ind";
  std::filesystem::remove_all(base);
  std::filesystem::create_directories(base);
  std::vector<Plan> plans(n);
  uint64_t h = 0;
  const unsigned int favourite = rng.u(0, kinds - 1);
  for (unsigned int i = 0; i < n; ++i)
  {
    Plan& p = plans[i];
    p.kind = rng.coin() ? favourite : rng.u(0, kinds - 1);
    p.n = {rng.u(1, 3), rng.u(1, 2)};
    p.tau = rng.d(0.3, 3.);
    p.par = {p.tau, rng.d(0.3, 1.), rng.d(0.05, 0.5)};
    p.dir = base + "/o" + std::to_string(i);
#if PART == 3
    p.name = p.kind == 4 ? beam_network(rng, base + "/d" + std::to_string(i) + ".geo")
                         : grid::write_domain(grid::make_domain(rng, 1, 2, 3, true), base + "/d" + std::to_string(i) + ".geo");
#else
    p.name = grid::write_domain(grid::make_domain(rng, 1, 2, 3, true), base + "/d" + std::to_string(i) + ".geo");
#endif
    const unsigned int k = rng.u(3, 12);
    for (unsigned int j = 0; j < k; ++j)
      p.ops.emplace_back(rng.u(0, 7), rng.next());
    // Objects that differ in a single number.
    if (i > 0 && rng.coin(3))
    {
      const std::string dir = p.dir;
      p = plans[i - 1];
      p.dir = dir;
      if (rng.coin())
        p.tau = p.par[0] = rng.d(0.3, 3.);
      else if (rng.coin())
        p.n[0] = rng.u(1, 3);
      else
        p.par[2] = rng.d(0.05, 0.5);
      vh::event("similar-objects");
    }
    h = vh::mix(vh::mix(h, p.kind), (uint64_t)(p.tau * 1e9));
  }
  vh::state(h);
  Silence silence;
  std::vector<Vec> want(n);
  for (unsigned int i = 0; i < n; ++i)
    if (!in_child(plans[i], want[i]))
    {
      std::cout.rdbuf(silence.b);
      vh::fail("history-died", "kind " + std::to_string(plans[i].kind) + " alone in a process");
      return;
    }
  std::vector<Vec> got(n);
  const bool threads = rng.coin();
  if (threads)
  {
    std::vector<std::thread> t;
    std::atomic<unsigned int> ready{0};
    for (unsigned int i = 0; i < n; ++i)
      t.emplace_back(
        [&, i]()
        {
          ++ready;
          while (ready < n)
            std::this_thread::yield();
          auto q = make(plans[i], plans[i].dir);
          for (auto& o : plans[i].ops)
          {
            const Vec r = q->step(o.first, o.second);
            got[i].push_back(r.size());
            append(got[i], r);
          }
        });
    for (auto& x : t)
      x.join();
    vh::event("threads", n);
  }
  else
  {
    std::vector<std::unique_ptr<Problem>> q(n);
    std::vector<size_t> at(n, 0);
    std::vector<unsigned int> left;
    for (unsigned int i = 0; i < n; ++i)
      left.push_back(i);
    while (!left.empty())
    {
      const unsigned int k = rng.u(0, left.size() - 1), i = left[k];
      if (!q[i])
        q[i] = make(plans[i], plans[i].dir);
      else if (at[i] < plans[i].ops.size())
      {
        const auto& o = plans[i].ops[at[i]++];
        const Vec r = q[i]->step(o.first, o.second);
        got[i].push_back(r.size());
        append(got[i], r);
        vh::event("operations");
      }
      else
      {
        q[i].reset();
        left.erase(left.begin() + k);
      }
    }
    vh::event("interleavings");
  }
  std::cout.rdbuf(silence.b);
  for (unsigned int i = 0; i < n; ++i)
  {
    const bool same = got[i].size() == want[i].size() && (got[i].empty() || memcmp(got[i].data(), want[i].data(), got[i].size() * sizeof(double)) == 0);
    vh::check_lazy(same, threads ? "differs-in-threads" : "differs-interleaved", [&]() {
      size_t k = 0;
      while (k < got[i].size() && k < want[i].size() && memcmp(&got[i][k], &want[i][k], sizeof(double)) == 0)
        ++k;
      std::ostringstream o;
      o.precision(17);
      o << "object " << i << " of kind " << plans[i].kind << ": value " << k << " of " << want[i].size() << " differs from the same history alone";
      if (k < got[i].size() && k < want[i].size())
        o << ": " << got[i][k] << " instead of " << want[i][k];
      return o.str();
    });
    vh::event("histories");
  }
  std::filesystem::remove_all(base);
}
VH_MAIN
