// Monitor: domain files.  PART 1: .geo files written by a generator are read back and compared field
// by field; malformed files must be stopped.  PART 2: .pts files; the produced graph is parsed by an
// independent parser and compared with the brute-force neighborhood graph.
#include "hh.hxx"
#include <HyperHDG/read_domain.hxx>

static std::string file(const std::string& name)
{
  return vh::scratch() + "/" + name;
}
static void put(const std::string& name, const std::string& text)
{
  std::ofstream o(name);
  o << text;
  o.close();
  if (!o)
  {
    std::cerr << "VH-INFRA cannot write " << name << std::endl;
    _exit(99);
  }
}
static std::string fmt(vh::Rng& rng, double v)
{
  char b[64];
  switch (rng.i(0, 3))
  {
    case 0:
      snprintf(b, sizeof b, "%.17g", v);
      break;
    case 1:
      snprintf(b, sizeof b, "%.17e", v);
      break;
    case 2:
      snprintf(b, sizeof b, "%+.17g", v);
      break;
    default:
      snprintf(b, sizeof b, "%.20f", v);
      if (std::strtod(b, nullptr) != v)
        snprintf(b, sizeof b, "%.17g", v);
  }
  return b;
}

#if PART == 1
struct Plan
{
  unsigned int ed, sd, np, nn, ne;
  std::vector<std::vector<std::string>> pts;
  std::vector<std::vector<unsigned int>> nodes, faces, verts;
  std::vector<std::vector<std::string>> props;
  bool with_props;
};
static std::vector<std::vector<unsigned int>> tuples(vh::Rng& rng, unsigned int n, unsigned int len, unsigned int range)
{
  std::set<std::vector<unsigned int>> used;
  std::vector<std::vector<unsigned int>> out;
  while (out.size() < n)
  {
    std::vector<unsigned int> t;
    while (t.size() < len)
    {
      unsigned int v = rng.u(0, range - 1);
      if (std::find(t.begin(), t.end(), v) == t.end())
        t.push_back(v);
    }
    if (used.insert(t).second)
      out.push_back(t);
  }
  return out;
}
static Plan plan(vh::Rng& rng, unsigned int ed, unsigned int sd, bool large = false)
{
  Plan p;
  p.ed = ed;
  p.sd = sd;
  const unsigned int nf = 2 * ed, nv = 1 << ed;
  p.ne = rng.coin(4) ? 1 : rng.u(1, 12);
  p.np = nv + rng.u(2, 10);
  p.nn = nf + rng.u(2, 10);
  if (large)
  {
    p.ne = rng.u(1100, 3000);
    p.np = rng.coin() ? rng.u(1100, 3000) : rng.u(66000, 70000);
    p.nn = rng.coin() ? rng.u(1100, 3000) : rng.u(66000, 70000);
  }
  std::set<std::vector<double>> seen;
  while (p.pts.size() < p.np)
  {
    std::vector<std::string> s;
    std::vector<double> v;
    for (unsigned int d = 0; d < sd; ++d)
    {
      double x = rng.coin(3) ? (double)rng.i(-3, 3) : rng.coin(4) ? rng.d(-1e8, 1e8) : rng.d(-2., 2.);
      s.push_back(rng.coin(4) && x == std::floor(x) && std::abs(x) < 1e6 ? std::to_string((long)x) : fmt(rng, x));
      v.push_back(std::strtod(s.back().c_str(), nullptr));
    }
    if (seen.insert(v).second)
      p.pts.push_back(s);
  }
  p.nodes = tuples(rng, p.ne, nf, p.nn);
  p.verts = tuples(rng, p.ne, nv, p.np);
  for (unsigned int e = 0; e < p.ne; ++e)
  {
    p.faces.emplace_back();
    for (unsigned int f = 0; f < nf; ++f)
      p.faces.back().push_back(rng.coin(20) ? rng.u(6, 4000000000u) : rng.u(0, 5));
  }
  p.with_props = rng.coin();
  if (p.with_props)
  {
    const unsigned int k = rng.coin(8) ? rng.u(5, 40) : rng.u(1, 4);
    for (unsigned int e = 0; e < p.ne; ++e)
    {
      p.props.emplace_back();
      for (unsigned int i = 0; i < k; ++i)
        p.props.back().push_back(fmt(rng, rng.coin(4) ? rng.d(-1e8, 1e8) : rng.d(-10, 10)));
    }
  }
  return p;
}
// Sections in the mandatory order; each section is a block of lines that a mutation may damage.
static std::vector<std::string> sections(vh::Rng& rng, const Plan& p)
{
  auto ws = [&] { return std::string(rng.u(1, 3), rng.coin(5) ? '\t' : ' '); };
  auto lead = [&] { return rng.coin(6) ? ws() : std::string(); };
  auto noise = [&] {
    std::string s;
    while (rng.coin(3))
      s += rng.coin() ? "\n" : "# comment on N_Points and POINTS: and so on\n";
    return s;
  };
  auto tail = [&] { return rng.coin() ? std::string(";  # Number") : rng.coin() ? std::string(";") : std::string(); };
  auto head = [&](const char* key, unsigned int v) { return noise() + lead() + key + ws() + "=" + ws() + std::to_string(v) + tail() + "\n"; };
  std::vector<std::string> s;
  s.push_back(head("Space_Dim", p.sd));
  s.push_back(head("HyperEdge_Dim", p.ed));
  s.push_back(head("N_Points", p.np));
  s.push_back(head("N_HyperNodes", p.nn));
  s.push_back(head("N_HyperEdges", p.ne));
  auto rows = [&](const auto& v) {
    std::string t;
    for (auto& r : v)
    {
      t += lead();
      for (unsigned int k = 0; k < r.size(); ++k)
      {
        if constexpr (std::is_same_v<std::decay_t<decltype(r[k])>, std::string>)
          t += (k ? ws() : "") + r[k];
        else
          t += (k ? ws() : "") + std::to_string(r[k]);
      }
      t += rng.coin(5) ? ws() + "\n" : std::string("\n");
    }
    return t;
  };
  s.push_back(noise() + "POINTS:\n" + rows(p.pts));
  s.push_back(noise() + "HYPERNODES_OF_HYPEREDGES:\n" + rows(p.nodes));
  s.push_back(noise() + "TYPES_OF_HYPERFACES:\n" + rows(p.faces));
  s.push_back(noise() + "POINTS_OF_HYPEREDGES:\n" + rows(p.verts));
  if (p.with_props)
    s.push_back(noise() + "HYPEREDGE_PROPERTIES:" + ws() + std::to_string(p.props[0].size()) + "\n" + rows(p.props));
  else if (rng.coin())
    s.push_back(noise());
  return s;
}
static std::string join(const std::vector<std::string>& s)
{
  std::string t;
  for (auto& x : s)
    t += x;
  return t;
}
template <unsigned int ed, unsigned int sd, typename D>
static void compare(const D& d, const Plan& p, const std::string& text)
{
  auto where = [&] { return text.substr(0, 700); };
  vh::check_lazy(d.n_hyEdges == p.ne && d.n_hyNodes == p.nn && d.n_points == p.np, "numbers", where);
  bool ok = d.points.size() == p.np;
  for (unsigned int i = 0; ok && i < p.np; ++i)
    for (unsigned int k = 0; k < sd; ++k)
    {
      typedef typename std::decay_t<decltype(d.points[0])>::value_type T;
      const T want = std::is_same_v<T, float> ? (T)std::strtof(p.pts[i][k].c_str(), nullptr) : (T)std::strtod(p.pts[i][k].c_str(), nullptr);
      ok = ok && d.points[i][k] == want;
    }
  vh::check_lazy(ok, "points", where);
  auto eq = [&](const auto& got, const auto& want) {
    bool r = got.size() == want.size();
    for (unsigned int i = 0; r && i < want.size(); ++i)
    {
      r = got[i].size() == want[i].size();
      for (unsigned int k = 0; r && k < want[i].size(); ++k)
        r = got[i][k] == want[i][k];
    }
    return r;
  };
  vh::check_lazy(eq(d.hyNodes_hyEdge, p.nodes), "hypernodes-of-hyperedges", where);
  vh::check_lazy(eq(d.hyFaces_hyEdge, p.faces), "types-of-faces", where);
  vh::check_lazy(eq(d.points_hyEdge, p.verts), "points-of-hyperedges", where);
  if (p.with_props)
  {
    bool pr = d.n_properties == p.props[0].size() && d.hyEdge_properties.size() == p.ne;
    for (unsigned int i = 0; pr && i < p.ne; ++i)
    {
      pr = d.hyEdge_properties[i].size() == p.props[i].size();
      for (unsigned int k = 0; pr && k < p.props[i].size(); ++k)
      {
        typedef std::decay_t<decltype(d.hyEdge_properties[0][0])> T;
        pr = d.hyEdge_properties[i][k] == (std::is_same_v<T, float> ? (T)std::strtof(p.props[i][k].c_str(), nullptr) : (T)std::strtod(p.props[i][k].c_str(), nullptr));
      }
    }
    vh::check_lazy(pr, "properties", where);
    vh::event("with-properties");
  }
  else
    vh::check_lazy(d.n_properties == 0 && d.hyEdge_properties.empty(), "no-properties", where);
}
template <unsigned int ed, unsigned int sd>
void geo(vh::Rng& rng, bool large = false)
{
  const Plan p = plan(rng, ed, sd, large);
  const std::string text = join(sections(rng, p)), name = file("d" + std::to_string(ed) + std::to_string(sd) + ".geo");
  put(name, text);
  auto d = read_domain<ed, sd>(name);
  compare<ed, sd>(d, p, text);
  vh::check(d.check_consistency(), "consistency-of-valid-domain");
  auto d2 = read_domain_geo<ed, sd>(name);
  compare<ed, sd>(d2, p, text);
  auto d3 = read_domain<ed, sd, std::vector, Point<sd, float>, unsigned long>(name);
  compare<ed, sd>(d3, p, text);
  std::ifstream in(name);
  std::stringstream back;
  back << in.rdbuf();
  vh::check(back.str() == text, "reading-modifies-file");
  // Consistency oracle on damaged information (release builds have no asserts to stop them).
  auto bad = d;
  const int what = rng.i(0, 5);
  const unsigned int e = rng.u(0, p.ne - 1);
  if (what == 0)
    bad.hyNodes_hyEdge[e][rng.u(0, 2 * ed - 1)] = p.nn + rng.u(0, 2);
  else if (what == 1)
    bad.points_hyEdge[e][rng.u(0, (1 << ed) - 1)] = p.np + rng.u(0, 2);
  else if (what == 2)
    bad.hyNodes_hyEdge[e][0] = bad.hyNodes_hyEdge[e][2 * ed - 1];
  else if (what == 3)
    bad.points_hyEdge[e][0] = bad.points_hyEdge[e][(1 << ed) - 1];
  else if (what == 4)
    bad.points[rng.u(0, p.np - 2)] = bad.points[p.np - 1];
  else if (p.ne > 1)
    (rng.coin() ? bad.hyNodes_hyEdge[e] = bad.hyNodes_hyEdge[(e + 1) % p.ne], 0 : (bad.points_hyEdge[e] = bad.points_hyEdge[(e + 1) % p.ne], 0));
  else
    bad.points[1] = bad.points[0];
#ifdef NDEBUG
  vh::check(!bad.check_consistency(), "inconsistent-domain-accepted", "damage " + std::to_string(what));
#else
  if (rng.coin(4))
  {
    const vh::Death r = vh::death([&] { bad.check_consistency(); });
    vh::check(r == vh::Death::asserted, "inconsistent-domain-not-stopped", "damage " + std::to_string(what) + " " + vh::name(r));
  }
#endif
  vh::event("domains-read");
  vh::state(vh::fnv(text));
  vh::sample("geo " + std::to_string(ed) + "d in " + std::to_string(sd) + "d: " + std::to_string(p.ne) + " hyperedges, " + std::to_string(p.np) + " points");
}
VH_SCENARIO(geo)
{
  geo<1, 1>(rng);
  geo<1, 2>(rng);
  geo<1, 3>(rng);
  geo<2, 2>(rng);
  geo<2, 3>(rng);
  geo<3, 3>(rng);
}
VH_SCENARIO_W(geo_large, 0.01)
{
  if (rng.coin())
    geo<1, 3>(rng, true);
  else
    geo<2, 2>(rng, true);
  vh::event("large-domains");
}
#ifndef NDEBUG
template <unsigned int ed, unsigned int sd>
void malformed(vh::Rng& rng, bool large = false)
{
  const Plan p = plan(rng, ed, sd, large);
  std::vector<std::string> s = sections(rng, p);
  std::string name = file("m.geo"), what;
  const int kind = rng.i(large ? 5 : 0, large ? 12 : 13);
  auto drop_tail = [&](unsigned int sec) {
    // File ends inside the section: at least one data line is missing.
    s.resize(sec + 1);
    std::string& t = s[sec];
    t.pop_back();
    t.resize(t.rfind('\n') + 1);
  };
  switch (kind)
  {
    case 0:
      what = "wrong space dimension";
      s[0] = "Space_Dim = " + std::to_string(sd + 1) + ";\n";
      break;
    case 1:
      what = "wrong hyperedge dimension";
      s[1] = "HyperEdge_Dim = " + std::to_string(ed + 1) + ";\n";
      break;
    case 2:
    {
      const unsigned int k = rng.u(0, 8);
      what = "missing section " + std::to_string(k);
      s.erase(s.begin() + k);
      break;
    }
    case 3:
    {
      const unsigned int k = rng.u(0, 4);
      static const char* key[] = {"Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges"};
      what = std::string("no equal sign after ") + key[k];
      const unsigned int v[] = {sd, ed, p.np, p.nn, p.ne};
      s[k] = std::string(key[k]) + " : " + std::to_string(v[k]) + ";\n";
      break;
    }
    case 4:
    {
      const unsigned int k = rng.u(2, 4);
      static const char* key[] = {"N_Points", "N_HyperNodes", "N_HyperEdges"};
      what = std::string("zero ") + key[k - 2];
      s[k] = std::string(key[k - 2]) + " = 0;\n";
      break;
    }
    case 5:
    {
      const unsigned int k = rng.u(5, 8);
      what = "file ends in section " + std::to_string(k);
      drop_tail(k);
      break;
    }
    case 6:
    {
      what = "hypernode index out of range";
      s[3] = "N_HyperNodes = " + std::to_string([&] { unsigned int m = 0; for (auto& t : p.nodes) for (auto v : t) m = std::max(m, v); return m; }()) + ";\n";
      break;
    }
    case 7:
    {
      what = "duplicate hypernode in a hyperedge";
      Plan q = p;
      const unsigned int e = rng.u(0, p.ne - 1);
      const unsigned int a = rng.u(0, 2 * ed - 1), b = (a + rng.u(1, 2 * ed - 1)) % (2 * ed);
      q.nodes[e][a] = q.nodes[e][b];
      s = sections(rng, q);
      break;
    }
    case 8:
    {
      what = "duplicate point";
      Plan q = p;
      const unsigned int a = rng.u(0, p.np - 1);
      q.pts[(a + rng.u(1, p.np - 1)) % p.np] = q.pts[a];
      s = sections(rng, q);
      break;
    }
    case 9:
    {
      what = "point index out of range";
      Plan q = p;
      q.verts[rng.u(0, p.ne - 1)][rng.u(0, (1u << ed) - 1)] = p.np + rng.u(0, 3);
      s = sections(rng, q);
      break;
    }
    case 10:
    {
      what = "duplicate point in a hyperedge";
      Plan q = p;
      const unsigned int e = rng.u(0, p.ne - 1), n = 1u << ed, a = rng.u(0, n - 1);
      q.verts[e][a] = q.verts[e][(a + rng.u(1, n - 1)) % n];
      s = sections(rng, q);
      break;
    }
    case 11:
    case 12:
    {
      Plan q = p;
      if (p.ne == 1)
      {
        what = "missing file";
        name = file("does_not_exist.geo");
        break;
      }
      what = kind == 11 ? "hyperedges with the same hypernodes" : "hyperedges with the same points";
      const unsigned int a = rng.u(0, p.ne - 1), b = (a + rng.u(1, p.ne - 1)) % p.ne;
      auto& t = kind == 11 ? q.nodes : q.verts;
      t[a] = t[b];
      s = sections(rng, q);
      break;
    }
    default:
      what = rng.coin() ? "missing file" : "wrong ending";
      name = what == "missing file" ? file("does_not_exist.geo") : file("m.txt");
  }
  if (what != "missing file")
    put(name, join(s));
  std::string err;
  const vh::Death r = vh::death([&] { read_domain<ed, sd>(name); }, &err);
  vh::check_lazy(r == vh::Death::asserted, "malformed-not-stopped", [&] { return what + ": " + vh::name(r) + " " + join(s).substr(0, 500); });
  vh::event("malformed:" + what.substr(0, 24));
  vh::event("malformed-files");
  vh::state(vh::fnv(join(s) + what));
}
VH_SCENARIO_W(malformed, 0.5)
{
  malformed<1, 2>(rng);
  malformed<2, 3>(rng);
}
VH_SCENARIO_W(malformed_large, 0.02)
{
  malformed<1, 2>(rng, true);
}
#endif
// Files that are distributed with the library.
template <unsigned int ed, unsigned int sd>
void shipped(const std::string& name)
{
  std::ifstream in(name);
  if (!in)
    return;
  std::vector<std::vector<double>> block[4];
  unsigned int n[3] = {0, 0, 0};
  std::string line;
  int cur = -1;
  static const char* heads[] = {"POINTS:", "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:"};
  static const char* keys[] = {"N_Points", "N_HyperNodes", "N_HyperEdges"};
  while (std::getline(in, line))
  {
    std::istringstream ls(line);
    std::string w, eq;
    if (!(ls >> w))
      continue;
    bool head = false;
    for (int k = 0; k < 4; ++k)
      if (w == heads[k])
        cur = k, head = true;
    for (int k = 0; k < 3; ++k)
      if (w == keys[k] && ls >> eq >> n[k])
        head = true;
    if (head || cur < 0 || w[0] == '#')
      continue;
    std::istringstream ds(line);
    std::vector<double> row;
    double v;
    while (ds >> v)
      row.push_back(v);
    if (!row.empty() && block[cur].size() < (cur == 0 ? n[0] : n[2]))
      block[cur].push_back(row);
  }
  auto d = read_domain<ed, sd>(name);
  vh::check(d.n_points == n[0] && d.n_hyNodes == n[1] && d.n_hyEdges == n[2], "shipped-numbers", name);
  bool ok[4] = {block[0].size() == n[0], block[1].size() == n[2], block[2].size() == n[2], block[3].size() == n[2]};
  for (unsigned int i = 0; ok[0] && i < n[0]; ++i)
    for (unsigned int k = 0; k < block[0][i].size() && k < sd; ++k)
      ok[0] = ok[0] && d.points[i][k] == block[0][i][k];
  for (unsigned int i = 0; ok[1] && ok[2] && ok[3] && i < n[2]; ++i)
  {
    for (unsigned int k = 0; k < 2 * ed; ++k)
    {
      ok[1] = ok[1] && d.hyNodes_hyEdge[i][k] == block[1][i].at(k);
      ok[2] = ok[2] && d.hyFaces_hyEdge[i][k] == block[2][i].at(k);
    }
    for (unsigned int k = 0; k < 1u << ed; ++k)
      ok[3] = ok[3] && d.points_hyEdge[i][k] == block[3][i].at(k);
  }
  for (int k = 0; k < 4; ++k)
    vh::check(ok[k], std::string("shipped-") + heads[k], name);
  vh::event("shipped-files");
  vh::state(vh::fnv(name));
}
VH_SCENARIO_W(shipped, 0.0001)
{
  const std::string d = std::string(VH_REPO) + "/domains/";
  shipped<1, 3>(d + "cross.geo");
  shipped<1, 2>(d + "injection_test.geo");
  shipped<2, 3>(d + "leVeque_hg.geo");
  shipped<1, 3>(d + "line.geo");
  shipped<1, 1>(d + "simplex_1_1.geo");
  shipped<1, 2>(d + "simplex_1_2.geo");
  shipped<1, 3>(d + "simplex_1_3.geo");
  shipped<1, 4>(d + "simplex_1_4.geo");
  shipped<1, 5>(d + "simplex_1_5.geo");
}
#else  // PART 2
typedef std::vector<double> Pt;
template <unsigned int sd, typename T>
static bool edge(const Pt& a, const Pt& b, double eps, bool* doubtful)
{
  long double s = 0;
  bool exact = true;
  for (unsigned int d = 0; d < sd; ++d)
  {
    const long double x = (long double)a[d] - b[d];
    s += x * x;
  }
  unsigned int axes = 0;
  for (unsigned int d = 0; d < sd; ++d)
    axes += a[d] != b[d];
  exact = axes <= 1 && std::abs(s) < 1e6;  // Distance along one axis.
  s = std::sqrt(s);
  const long double tol = std::is_same_v<T, float> ? 1e-5L : 1e-12L;
  if (std::abs(s - eps) < tol * (1 + std::abs(s)) && !(exact && s == (long double)eps))
    *doubtful = true;
  return s < eps;
}
template <unsigned int sd, typename T>
void cloud(vh::Rng& rng, bool large = false)
{
  const unsigned int n = large ? rng.u(150, 500) : rng.coin(5) ? rng.u(1, 3) : rng.u(4, 45);
  double eps = rng.coin(3) ? 0.5 : (double)(T)rng.d(0.15, 1.2);
  const int kind = rng.i(0, 3);
  std::set<Pt> pts;
  int guard = 0;
  while (pts.size() < n && ++guard < 3000)
  {
    Pt p(sd);
    for (auto& x : p)
      x = kind == 0 ? 0.25 * rng.i(-6, 6) : kind == 1 ? (double)(T)rng.d(-1, 1) : kind == 2 ? (double)(T)(1000. + rng.d(-1, 1)) : (double)(T)(rng.i(0, 2) + rng.d(-0.1, 0.1));
    if (std::is_same_v<T, double> && rng.coin(8) && !pts.empty())  // Close twins.
    {
      p = *pts.begin();
      p[rng.u(0, sd - 1)] += 1e-7 * rng.u(1, 9);
    }
    pts.insert(p);
  }
  std::vector<Pt> in(pts.begin(), pts.end());
  if (rng.coin(3) && in.size() > 1)  // A radius right below or above a distance.
  {
    const unsigned int a = rng.u(0, in.size() - 1), b = (a + rng.u(1, in.size() - 1)) % in.size();
    long double s = 0;
    for (unsigned int d = 0; d < sd; ++d)
      s += ((long double)in[a][d] - in[b][d]) * ((long double)in[a][d] - in[b][d]);
    const double f = std::is_same_v<T, float> ? 1e-4 : rng.coin() ? 1e-8 : 1e-10;
    if (s > 1e-4L)
    {
      eps = (double)(T)(std::sqrt(s) * (rng.coin() ? 1 + f : 1 - f));
      vh::event("radius-next-to-distance");
    }
  }
  // Keep the component of one point (most clouds) so that the graph is valid.
  bool doubtful = false;
  auto comp = [&](const std::vector<Pt>& v) {
    std::vector<int> c(v.size(), -1);
    std::vector<unsigned int> st{0};
    c[0] = 0;
    while (!st.empty())
    {
      unsigned int a = st.back();
      st.pop_back();
      for (unsigned int b = 0; b < v.size(); ++b)
        if (c[b] < 0 && edge<sd, T>(v[a], v[b], eps, &doubtful))
        {
          c[b] = 0;
          st.push_back(b);
        }
    }
    return c;
  };
  std::vector<int> c = comp(in);
  bool connected = std::count(c.begin(), c.end(), -1) == 0;
  if (!connected && !rng.coin(6))
  {
    std::vector<Pt> keep;
    for (unsigned int k = 0; k < in.size(); ++k)
      if (c[k] == 0)
        keep.push_back(in[k]);
    in = keep;
    connected = true;
  }
  doubtful = false;
  std::set<std::pair<Pt, Pt>> want;
  for (unsigned int a = 0; a < in.size(); ++a)
    for (unsigned int b = a + 1; b < in.size(); ++b)
      if (edge<sd, T>(in[a], in[b], eps, &doubtful))
        want.insert({std::min(in[a], in[b]), std::max(in[a], in[b])});
  if (doubtful)
  {
    vh::event("skipped-rounding-tie");
    return;
  }
  std::vector<Pt> order = in;
#ifndef NDEBUG
  const bool twice = connected && in.size() > 1 && rng.coin(8);
#else
  const bool twice = false;
#endif
  if (twice)
    order.push_back(in[rng.u(0, in.size() - 1)]);
  for (unsigned int i = order.size(); i > 1; --i)
    std::swap(order[i - 1], order[rng.u(0, i - 1)]);
  std::string text = rng.coin() ? "# Points of a cloud\n\n" : "";
  text += "Space_Dim = " + std::to_string(sd) + ";\nEpsilon   = " + fmt(rng, eps) + ";\n\nPOINTS:\n";
  for (auto& p : order)
  {
    for (unsigned int d = 0; d < sd; ++d)
      text += (d ? " " : "") + fmt(rng, p[d]);
    text += "\n";
  }
  if (rng.coin(3))
    text += rng.coin() ? "\n" : "  \n\n";
  const std::string name = file("c" + std::to_string(sd) + ".pts"), geo = name + ".geo";
  put(name, text);
  ::unlink(geo.c_str());
  auto where = [&] { return text.substr(0, 800); };
  if (!connected || twice)
  {
#ifndef NDEBUG
    const vh::Death r = vh::death([&] {
      std::string f = name;
      make_epsilon_neighborhood_graph<sd, std::vector, Point<sd, T>, unsigned int>(f);
    });
    vh::check_lazy(r == vh::Death::asserted, twice ? "duplicate-not-stopped" : "disconnected-not-stopped", [&] { return std::string(vh::name(r)) + " " + where(); });
    vh::event(twice ? "clouds-with-duplicates" : "disconnected-clouds");
#endif
    return;
  }
  std::string f = name;
  make_epsilon_neighborhood_graph<sd, std::vector, Point<sd, T>, unsigned int>(f);
  vh::check_eq(f, geo, "filename");
  // Independent parser of the output.
  std::ifstream res(geo);
  std::string line;
  int cur = -1;
  long np = -1, nn = -1, ne = -1, hd = -1, sdim = -1;
  std::vector<std::vector<double>> block[4];
  static const char* heads[] = {"POINTS:", "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:"};
  while (std::getline(res, line))
  {
    std::istringstream ls(line);
    std::string w, eq;
    if (!(ls >> w))
      continue;
    bool head = false;
    for (int k = 0; k < 4; ++k)
      if (w == heads[k])
        cur = k, head = true;
    long* t = w == "N_Points" ? &np : w == "N_HyperNodes" ? &nn : w == "N_HyperEdges" ? &ne : w == "HyperEdge_Dim" ? &hd : w == "Space_Dim" ? &sdim : nullptr;
    if (t && ls >> eq >> *t)
      head = true;
    if (head || cur < 0)
      continue;
    std::istringstream ds(line);
    std::vector<double> row;
    double v;
    while (ds >> v)
      row.push_back(std::is_same_v<T, float> ? (double)(T)v : v);
    block[cur].push_back(row);
  }
  vh::check_lazy(sdim == (long)sd && hd == 1 && np == (long)in.size() && nn == np && ne == (long)want.size(), "header", where);
  vh::check_lazy(block[0].size() == in.size() && std::set<Pt>(block[0].begin(), block[0].end()) == std::set<Pt>(in.begin(), in.end()), "points-preserved", where);
  std::set<std::pair<Pt, Pt>> got;
  bool valid = block[1].size() == want.size() && block[3].size() == block[1].size() && block[2].size() == block[1].size();
  for (unsigned int k = 0; valid && k < block[1].size(); ++k)
  {
    valid = block[1][k].size() == 2 && block[2][k].size() == 2 && block[1][k] == block[3][k] && block[1][k][0] < block[0].size() && block[1][k][1] < block[0].size();
    if (!valid)
      break;
    const Pt &a = block[0][block[1][k][0]], &b = block[0][block[1][k][1]];
    valid = got.insert({std::min(a, b), std::max(a, b)}).second;
  }
  vh::check_lazy(valid, "edge-list", where);
  vh::check_lazy(got == want, "neighborhood-graph", [&] { return std::to_string(got.size()) + " edges, expected " + std::to_string(want.size()) + " " + where(); });
  // The same through the general entry point, from the list of points alone.
  if (in.size() > 1)
  {
    ::unlink(geo.c_str());
    auto d = read_domain<1, sd, std::vector, Point<sd, T>>(name);
    std::set<std::pair<Pt, Pt>> g2;
    for (auto& e : d.points_hyEdge)
    {
      Pt a(sd), b(sd);
      for (unsigned int k = 0; k < sd; ++k)
      {
        a[k] = d.points[e[0]][k];
        b[k] = d.points[e[1]][k];
      }
      g2.insert({std::min(a, b), std::max(a, b)});
    }
    vh::check_lazy(g2 == want && d.n_hyEdges == want.size() && d.n_points == in.size() && d.n_hyNodes == in.size(), "read-domain", where);
    vh::check_lazy(d.points_hyEdge == d.hyNodes_hyEdge, "nodes-are-points", where);
  }
  vh::event("clouds");
  vh::event("edges-observed", want.size());
  vh::state(vh::fnv(text));
  vh::sample("cloud of " + std::to_string(in.size()) + " points in " + std::to_string(sd) + "d, epsilon " + vh::num(eps) + ", " + std::to_string(want.size()) + " edges");
}
VH_SCENARIO(cloud)
{
  cloud<1, double>(rng);
  cloud<2, double>(rng);
  cloud<3, double>(rng);
  cloud<2, float>(rng);
}
VH_SCENARIO_W(cloud_large, 0.05)
{
  if (rng.coin())
    cloud<2, double>(rng, true);
  else
    cloud<3, double>(rng, true);
  vh::event("large-clouds");
}
#ifndef NDEBUG
VH_SCENARIO_W(malformed, 0.25)
{
  const int kind = rng.i(0, 5);
  static const char* what[] = {"no points", "wrong dimension", "negative epsilon", "duplicate point", "missing keyword", "wrong hyperedge dimension"};
  std::string t = "Space_Dim = 2;\nEpsilon = 1.5;\nPOINTS:\n0 0\n1 0\n0 1\n";
  if (kind == 0)
    t = "Space_Dim = 2;\nEpsilon = 1.5;\nPOINTS:\n";
  if (kind == 1)
    t = "Space_Dim = 3;\nEpsilon = 1.5;\nPOINTS:\n0 0\n1 0\n0 1\n";
  if (kind == 2)
    t = "Space_Dim = 2;\nEpsilon = " + std::string(rng.coin() ? "-1.5" : "0") + ";\nPOINTS:\n0 0\n1 0\n0 1\n";
  if (kind == 3)
    t += "1 0\n";
  if (kind == 4)
  {
    static const char* keys[] = {"Space_Dim", "Epsilon", "POINTS:"};
    const std::string k = keys[rng.u(0, 2)];
    t.replace(t.find(k), k.size(), "Else");
  }
  const std::string name = file("m.pts");
  put(name, t);
  const vh::Death r = vh::death([&] {
    if (kind == 5)
      read_domain<2, 2>(name);
    else
      read_domain<1, 2>(name);
  });
  vh::check(r == vh::Death::asserted, std::string("malformed-not-stopped-") + what[kind], vh::name(r));
  vh::event("malformed-files");
  vh::state(vh::fnv(t));
}
#endif
#endif
VH_MAIN
