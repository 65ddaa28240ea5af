// Monitoring framework shared by all harnesses: deterministic case generation, oracles' verdicts,
// event counters, distinct-state hashes, death monitors (fork) and a per-case watchdog.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{
// ------------------------------------------------------------------------------------------ random
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed)
  {
    for (int i = 0; i < 4; ++i)
      next();
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Integer in [lo, hi].
  long long i(long long lo, long long hi) { return lo + (long long)(next() % (uint64_t)(hi - lo + 1)); }
  unsigned int u(unsigned int lo, unsigned int hi) { return (unsigned int)i(lo, hi); }
  bool coin(unsigned int one_in = 2) { return next() % one_in == 0; }
  // Uniform in [0,1).
  double d() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double lo, double hi) { return lo + (hi - lo) * d(); }
  // Sign-symmetric value with a few special magnitudes.
  double val(double mag = 1.)
  {
    switch (next() % 12)
    {
      case 0:
        return 0.;
      case 1:
        return mag;
      case 2:
        return -mag;
      default:
        return d(-mag, mag);
    }
  }
  template <typename T>
  const T& pick(const std::vector<T>& v)
  {
    return v[next() % v.size()];
  }
};
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char* c = (const unsigned char*)p;
  for (size_t k = 0; k < n; ++k)
    h = (h ^ c[k]) * 1099511628211ull;
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
{
  return fnv(s.data(), s.size(), h);
}
template <typename T>
inline uint64_t mix(uint64_t h, const T& v)
{
  static_assert(std::is_arithmetic_v<T>);
  return fnv(&v, std::is_same_v<T, long double> ? 10 : sizeof(T), h);
}

// ------------------------------------------------------------------------------------------ state
struct Global
{
  uint64_t seed = 1;
  std::string scenario;
  long long idx = -1;
  long long cases = 0, checks = 0, failures = 0;
  std::map<std::string, long long> counts;
  std::map<std::string, long long> fail_keys;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  int progress_fd = -1;
  bool verbose = false;
  std::string tier = "quick";
};
inline Global& g()
{
  static Global s;
  return s;
}
inline void event(const std::string& name, long long n = 1)
{
  g().counts[name] += n;
}
// The current case reached a distinct, non-trivial state identified by h.
inline void state(uint64_t h)
{
  g().states.insert(fnv(g().scenario, h));
}
inline void sample(const std::string& s)
{
  static std::set<std::string> seen;
  if (g().samples.size() < 12 && seen.insert(g().scenario).second)
    g().samples.push_back("[" + g().scenario + "#" + std::to_string(g().idx) + "] " + s.substr(0, 600));
}
inline std::string oneline(std::string s)
{
  for (char& c : s)
    if (c == '\n' || c == '\r')
      c = ' ';
  return s.substr(0, 900);
}
inline bool fail(const std::string& key, const std::string& msg)
{
  ++g().failures;
  if (g().fail_keys[key]++ < 3)
  {
    std::cout << "FAIL\t" << key << "\t" << g().scenario << "\t" << g().idx << "\t" << oneline(msg)
              << std::endl;
  }
  return false;
}
template <typename F>
inline bool check_lazy(bool cond, const std::string& key, F&& msg)
{
  ++g().checks;
  if (cond)
    return true;
  return fail(key, msg());
}
inline bool check(bool cond, const std::string& key, const std::string& msg = "")
{
  ++g().checks;
  if (cond)
    return true;
  return fail(key, msg);
}
// |a - b| <= abs + rel * max(|a|,|b|, scale); NaN fails.
inline bool close(double a, double b, double rel = 1e-10, double scale = 0.)
{
  const double m = std::max({std::abs(a), std::abs(b), scale});
  if (a == b)
    return true;
  return std::abs(a - b) <= rel * m + 1e-300;
}
inline std::string num(double v)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline bool check_close(double a, double b, const std::string& key, double rel = 1e-10, double scale = 0., const std::string& msg = "")
{
  ++g().checks;
  if (close(a, b, rel, scale))
    return true;
  return fail(key, "got " + num(a) + " expected " + num(b) + " (rel " + num(rel) + ", scale " + num(scale) + ") " + msg);
}
template <typename A, typename B>
inline bool check_eq(const A& a, const B& b, const std::string& key, const std::string& msg = "")
{
  ++g().checks;
  if (a == b)
    return true;
  std::ostringstream o;
  o.precision(17);
  o << "got " << a << " expected " << b << " " << msg;
  return fail(key, o.str());
}
// Vectors agree up to rel * max entry.
template <typename A, typename B>
inline bool check_vec(const A& a, const B& b, const std::string& key, double rel = 1e-10, double scale = 0., const std::string& msg = "")
{
  ++g().checks;
  if (a.size() != b.size())
    return fail(key, "sizes " + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " " + msg);
  double m = scale;
  for (size_t k = 0; k < a.size(); ++k)
    m = std::max({m, std::abs((double)b[k])});
  for (size_t k = 0; k < a.size(); ++k)
    if (!(std::abs((double)a[k] - (double)b[k]) <= rel * m + 1e-300))
      return fail(key, "entry " + std::to_string(k) + ": got " + num((double)a[k]) + " expected " + num((double)b[k]) + " (max " + num(m) + ") " + msg);
  return true;
}

// ------------------------------------------------------------------------------------------ death
enum class Death
{
  survived,   // Function returned.
  threw,      // Function threw an exception.
  asserted,   // Aborted with an assertion message of the library.
  aborted,    // SIGABRT without message of the library.
  sanitizer,  // A sanitizer stopped it.
  crashed,    // Other signal.
  hung
};
inline const char* name(Death d)
{
  static const char* n[] = {"survived", "threw", "asserted", "aborted", "sanitizer", "crashed", "hung"};
  return n[(int)d];
}
inline Death death(const std::function<void()>& f, std::string* out = nullptr)
{
  std::cout.flush();
  fflush(nullptr);
  int p[2];
  if (pipe(p) != 0)
  {
    std::cerr << "VH-INFRA pipe failed" << std::endl;
    _exit(99);
  }
  pid_t pid = fork();
  if (pid < 0)
  {
    std::cerr << "VH-INFRA fork failed" << std::endl;
    _exit(99);
  }
  if (pid == 0)
  {
    ::close(p[0]);
    dup2(p[1], 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    alarm(30);
    int rc = 0;
    try
    {
      f();
    }
    catch (...)
    {
      rc = 77;
    }
    _exit(rc);
  }
  ::close(p[1]);
  std::string err;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0)
    if (err.size() < 200000)
      err.append(buf, n);
  ::close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (out)
    *out = err;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return Death::survived;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    return Death::threw;
  if (err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos)
    return Death::sanitizer;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
    return Death::hung;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
    return err.find("Assert failed") != std::string::npos ? Death::asserted : Death::aborted;
  return Death::crashed;
}
// Exception monitor: returns "" if f returned, else a description.
template <typename E, typename F>
inline int thrown(F&& f)
{
  try
  {
    f();
  }
  catch (const E&)
  {
    return 1;
  }
  catch (...)
  {
    return 2;
  }
  return 0;
}

// ------------------------------------------------------------------------------------------ cases
struct Scenario
{
  std::string name;
  std::function<void(Rng&)> run;
  double weight;
};
inline std::vector<Scenario>& scenarios()
{
  static std::vector<Scenario> s;
  return s;
}
inline bool add(const std::string& name, std::function<void(Rng&)> f, double weight = 1.)
{
  scenarios().push_back({name, f, weight});
  return true;
}
// Scratch directory of this process (created by the runner).
inline std::string& scratch()
{
  static std::string s = ".";
  return s;
}

inline void on_alarm(int)
{
  const char m[] = "\nVH-HANG case exceeded its time limit\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(98);
}
inline int run_main(int argc, char** argv)
{
  uint64_t seed = 1;
  long long cases = 10, shard = 0, shards = 1, only = -1;
  std::string only_s, progress, hashes;
  for (int a = 1; a < argc; ++a)
  {
    std::string s = argv[a];
    auto arg = [&]() { return std::string(argv[++a]); };
    if (s == "--seed")
      seed = std::stoull(arg());
    else if (s == "--cases")
      cases = std::stoll(arg());
    else if (s == "--shard")
      shard = std::stoll(arg());
    else if (s == "--shards")
      shards = std::stoll(arg());
    else if (s == "--scenario")
      only_s = arg();
    else if (s == "--case")
      only = std::stoll(arg());
    else if (s == "--progress")
      progress = arg();
    else if (s == "--hashes")
      hashes = arg();
    else if (s == "--tier")
      g().tier = arg();
    else if (s == "--scratch")
      scratch() = arg();
  }
  g().seed = seed;
  if (!progress.empty())
    g().progress_fd = open(progress.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  signal(SIGALRM, on_alarm);
  for (const Scenario& sc : scenarios())
  {
    if (!only_s.empty() && only_s != sc.name)
      continue;
    long long n = std::max(1ll, (long long)(cases * sc.weight));
    for (long long k = 0; k < n; ++k)
    {
      if (only >= 0 && k != only)
        continue;
      if (only < 0 && (k + (long long)(fnv(sc.name) % 1024)) % shards != shard)
        continue;
      g().scenario = sc.name;
      g().idx = k;
      if (g().progress_fd >= 0)
      {
        char line[256];
        int len = snprintf(line, sizeof line, "%-80s %12lld\n", sc.name.c_str(), k);
        if (pwrite(g().progress_fd, line, len, 0) < 0) {}
      }
      alarm(120);
      Rng rng(fnv(sc.name, seed * 7919 + 13) + (uint64_t)k * 0x9E3779B97F4A7C15ull);
      ++g().cases;
      try
      {
        sc.run(rng);
      }
      catch (const std::exception& e)
      {
        fail("unexpected-exception:" + sc.name, e.what());
      }
      catch (...)
      {
        fail("unexpected-exception:" + sc.name, "unknown exception");
      }
      alarm(0);
    }
  }
  for (auto& c : g().counts)
    std::cout << "COUNT\t" << c.first << "\t" << c.second << "\n";
  for (auto& s : g().samples)
    std::cout << "SAMPLE\t" << oneline(s) << "\n";
  for (auto& k : g().fail_keys)
    std::cout << "FAILKEY\t" << k.first << "\t" << k.second << "\n";
  std::cout << "DONE\t" << g().cases << "\t" << g().checks << "\t" << g().states.size() << "\t" << g().failures << std::endl;
  if (!hashes.empty())
  {
    std::ofstream h(hashes);
    for (uint64_t v : g().states)
      h << v << "\n";
  }
  return 0;
}
}  // namespace vh

#define VH_MAIN                       \
  int main(int argc, char** argv)     \
  {                                   \
    return vh::run_main(argc, argv);  \
  }
#define VH_CONCAT2(a, b) a##b
#define VH_CONCAT(a, b) VH_CONCAT2(a, b)
#define VH_SCENARIO(name)                                                             \
  static void VH_CONCAT(vh_sc_, name)(vh::Rng & rng);                                 \
  static const bool VH_CONCAT(vh_reg_, name) = vh::add(#name, VH_CONCAT(vh_sc_, name)); \
  static void VH_CONCAT(vh_sc_, name)([[maybe_unused]] vh::Rng & rng)
#define VH_SCENARIO_W(name, w)                                                             \
  static void VH_CONCAT(vh_sc_, name)(vh::Rng & rng);                                      \
  static const bool VH_CONCAT(vh_reg_, name) = vh::add(#name, VH_CONCAT(vh_sc_, name), w); \
  static void VH_CONCAT(vh_sc_, name)([[maybe_unused]] vh::Rng & rng)
