// C17: the contact surface of a mesh; C20: of a mesh spread over processes.
#include <nimble.h>
#include <unistd.h>

#include "cases.h"
#include "contact.h"
#include "e2e.h"
#include "mpisim.h"
#include "ref.h"
using namespace vh;
using namespace contact;

static std::string PROP;
static std::string  // a message without its numbers
kind(const std::string& t)
{
  std::string r;
  for (char c : t)
    if (!isdigit(c) && c != '.') r += c;
  return r.substr(0, 60);
}
static void
kokkos()
{
  int   ac = 0;
  char* av[1] = {nullptr};
  if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
}
static std::string
join(const std::vector<int>& v)
{
  std::string s;
  for (int i : v) s += " " + (i < 0 ? std::string("-") : std::to_string(i));
  return s;
}
// which blocks are primary and secondary
struct Roles
{
  std::vector<int> p, s;
  const char*      name;
};
static const std::vector<int>   IDS{7, 3, 12};
static const std::vector<Roles> ROLES{{{7}, {3}, "7 on 3"}, {{3}, {7, 12}, "3 on 7 12"}, {{7, 3}, {7, 3}, "7 3 on themselves"}, {{12, 7, 3}, {12}, "12 7 3 on 12"}};

static void
alone(const exo::Mesh& m, const Roles& r, const std::string& name, Ctx& x)
{
  Surface s;
  {
    Quiet q;
    surface(m, r.p, r.s, s);
  }
  x.executions++;
  x.evaluations += s.faces.size() + s.nodes.size();
  for (auto& b : compare(s, m, r.p, r.s)) x.violation(kind(b), b + " | " + name);
  x.outcome(hmix(s.faces.size(), s.nodes.size()));
}
static std::vector<int>
digits(size_t v, int n, int base, int shift = 0)
{
  std::vector<int> d;
  for (int i = 0; i < n; i++, v /= base) d.push_back((int)(v % base) - shift);
  return d;
}
static size_t
power(size_t b, int n)
{
  size_t r = 1;
  while (n-- > 0) r *= b;
  return r;
}
static void
blocks(const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f)
{
  Stage st;
  st.name        = name;
  st.n           = (n + per - 1) / per;
  st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
  st.worker_init = kokkos;
  st.fn          = [=](size_t b, Ctx& x) {
    for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
  };
  st.case_timeout = 60;
  vh::run(st);
}
struct Grid
{
  int nx, ny, nz;
  int count() const { return nx * ny * nz; }
  std::string name() const { return std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz); }
};
// all ways to leave a cell empty or give it one of the blocks, with no more than so many empty, or no more than so many filled, cells
static std::vector<std::vector<int>>
bodies(const Grid& g, int nb, int empty = 99, int filled = 0)
{
  std::vector<std::vector<int>>    r;
  std::vector<int>                 st(g.count());
  std::function<void(int, int, int)> go = [&](int at, int e, int f) {
    if (e > empty && f > filled) return;
    if (at == g.count()) {
      if (f) r.push_back(st);
      return;
    }
    for (int k = -1; k < nb; k++) {
      st[at] = k;
      go(at + 1, e + (k < 0), f + (k >= 0));
    }
  };
  go(0, 0, 0);
  return r;
}
// ---- one process
static void
bodies_alone(const Grid& g, int nb, const std::vector<int>& ways, int empty = 99, int filled = 0)
{
  auto grid = cases::distort(exo::grid(g.nx, g.ny, g.nz), 1);
  auto all  = bodies(g, nb, empty, filled);
  blocks("every body in " + g.name() + " of " + std::to_string(nb) + " blocks", all.size(), 64, [=](size_t i, Ctx& x) {
    auto& st = all[i];
    std::vector<int> ids(IDS.begin(), IDS.begin() + nb);
    auto             m = body(grid, st, ids);
    x.distinct(hash_str(g.name() + join(st)));
    x.sample(g.name() + join(st));
    for (size_t w = 0; w < ways.size(); w++) {
      auto& r = ROLES[nb == 1 ? 2 : (i / 5 + w) % ROLES.size()];
      alone(rename(m, ways[w] ? ways[w] + (int)(i % 11) : 0), r, g.name() + " cells" + join(st) + ", roles " + r.name + ", naming " + std::to_string(ways[w]), x);
    }
  });
}
// nodes numbered in every order (few nodes), or in every order that exchanges up to two pairs of one of five orders
static void
numberings(const Grid& g, const std::vector<int>& st, const Roles& r)
{
  auto m = body(cases::distort(exo::grid(g.nx, g.ny, g.nz), 1), st, IDS);
  int  n = m.X.size();
  auto o = std::make_shared<std::vector<std::vector<int>>>();
  if (n <= 8) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    do o->push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
  } else {
    std::vector<std::pair<int, int>> sw{{0, 0}};
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) sw.push_back({i, j});
    for (int b = 0; b < 5; b++)
      for (size_t i = 0; i < sw.size(); i++)
        for (size_t j = 0; j <= i; j++) {
          std::vector<int> p(n);
          for (int k = 0; k < n; k++) p[k] = b == 0 ? k : b == 1 ? n - 1 - k : b == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : b == 3 ? (k * 5) % (n % 5 ? n : 1) + (n % 5 ? 0 : k) : (k ^ 1) < n ? k ^ 1 : k;
          std::swap(p[sw[i].first], p[sw[i].second]);
          std::swap(p[sw[j].first], p[sw[j].second]);
          o->push_back(p);
        }
  }
  blocks("every numbering of " + g.name() + join(st), o->size(), 64, [=](size_t i, Ctx& x) {
    auto& p = (*o)[i];
    auto  q = m;
    for (int k = 0; k < n; k++) q.X[p[k]] = m.X[k];
    for (auto& b : q.blocks)
      for (auto& c : b.conn)
        for (int& k : c) k = p[k];
    x.distinct(hash_str(g.name() + join(st) + join(p)));
    alone(q, r, g.name() + " cells" + join(st) + ", roles " + r.name + ", nodes" + join(p), x);
  });
}
// ---- several processes
struct Many
{
  exo::Mesh        m;
  Roles            r;
  std::vector<int> part;
  int              np;
  bool             rev;
  std::string      name;
};
static void
check_many(const Many& c, const std::vector<Surface>& s, const std::vector<std::string>& errors, const Surface& whole, std::vector<std::string>& bad)
{
  for (auto& e : errors) bad.push_back("message passing: " + e);
  if (!errors.empty()) return;
  Surface u;
  for (auto& p : s) {
    u.faces.insert(u.faces.end(), p.faces.begin(), p.faces.end());
    u.nodes.insert(u.nodes.end(), p.nodes.begin(), p.nodes.end());
  }
  std::map<std::array<int, 3>, int> a, b;
  for (auto& t : compare(u, c.m, c.r.p, c.r.s, &a)) bad.push_back(t);
  compare(whole, c.m, c.r.p, c.r.s, &b);
  if (bad.empty() && a != b) bad.push_back("a triangle has another identifier than in the unsplit mesh");
}
static std::vector<Surface> g_s;
static void
spread(const Many& c, Ctx& x, int bound, uint64_t cap = 0)
{
  auto    parts = exo::split(c.m, c.part, c.np, c.rev);
  Surface whole;
  {
    Quiet q;
    surface(c.m, c.r.p, c.r.s, whole);
  }
  auto body = [&](int r) {
    auto& p = parts[r];
    surface(p, c.r.p, c.r.s, g_s[r]);
  };
  auto verdict = [&](const mpisim::Execution& e, const std::string& how) {
    std::vector<std::string> bad;
    check_many(c, g_s, e.errors, whole, bad);
    for (auto& b : bad) x.violation(kind(b), b + " | " + c.name + how);
    x.executions++;
    x.transitions += e.steps;
    x.evaluations += whole.faces.size() + whole.nodes.size();
    x.state(e.signature);
    size_t h = 0;
    for (auto& s : g_s) h = hmix(h, hmix(s.faces.size(), s.nodes.size()));
    x.outcome(h);
  };
  mpisim::Config k;
  k.nranks       = c.np;
  k.stack        = 4 << 20;
  k.sched_points = k.test_points = bound > 0;
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  Quiet q;
  if (!bound) {
    g_s.assign(c.np, {});
    auto e = mpisim::run(k, {}, body);
    verdict(e, "");
  } else {
    bool     capped = false;
    uint64_t n      = mpisim::explore(
        k, bound, [&] { g_s.assign(c.np, {}); return body; },
        [&](const mpisim::Execution& e, const std::vector<int>& pre) { verdict(e, ", schedule " + mpisim::show(pre)); }, cap, &capped);
    x.count("schedules", n);
    if (capped) x.count("capped");
  }
}
static Many
many(const Grid& g, const std::vector<int>& st, const std::vector<int>& part, int np, int variant, const Roles& r)
{
  Many c;
  auto grid = exo::grid(g.nx, g.ny, g.nz);
  c.m  = rename(body(g.count() > 50 ? cases::wavy(grid) : cases::distort(grid, 1), st, IDS), variant % 3 ? variant : 0);
  c.np = np;
  c.r  = r;
  c.rev = variant % 2;
  int ne = c.m.nelem();
  c.part.assign(part.begin(), part.begin() + ne);
  for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(variant % 4 < 2 ? (int)i + 1 : 1000 - 7 * (int)i);
  for (int i = 0; i < ne; i++) c.m.elem_ids.push_back(variant % 4 < 2 ? i + 1 : 3 * (ne - i));
  c.name = g.name() + " cells" + join(st) + ", processes" + join(c.part) + ", roles " + r.name + ", naming " + std::to_string(variant);
  return c;
}
static void
distributions(const Grid& g, int np, int nb, int empty = 99)
{
  auto                all = bodies(g, nb, empty);
  std::vector<size_t> first{0};
  for (auto& st : all) {
    int ne = 0;
    for (int s : st) ne += s >= 0;
    first.push_back(first.back() + power(np, ne));
  }
  blocks("every body and distribution, " + g.name() + " on " + std::to_string(np), first.back(), 32, [=](size_t i, Ctx& x) {
    size_t b  = std::upper_bound(first.begin(), first.end(), i) - first.begin() - 1;
    auto   pt = digits(i - first[b], g.count(), np);
    auto&  r  = ROLES[nb == 1 ? 2 : (b + i) % ROLES.size()];
    spread(many(g, all[b], pt, np, (int)((i + b) % 12), r), x, 0);
  });
}
// hundreds of cells
static std::vector<int>
pattern(const Grid& g, int nb, int way)
{
  std::vector<int> st;
  for (int k = 0; k < g.nz; k++)
    for (int j = 0; j < g.ny; j++)
      for (int i = 0; i < g.nx; i++) {
        int e = st.size(), s = 0;
        bool rim = !i || !j || !k || i == g.nx - 1 || j == g.ny - 1 || k == g.nz - 1;
        if (way == 0) s = e * nb / g.count();
        if (way == 1) s = (i + j + k) % 2 ? e % nb : -1;
        if (way == 2) s = k % nb;
        if (way == 3) s = rim ? (i + j) % nb : -1;
        if (way == 4) s = e * 7 % 5 ? e * 11 % nb : -1;
        st.push_back(s);
      }
  return st;
}
static void
large_alone()
{
  std::vector<Grid> gs{{9, 9, 9}, {40, 3, 1}, {1, 1, 70}, {17, 16, 1}};
  blocks("large bodies", gs.size() * 5 * 2 * 4, 1, [=](size_t i, Ctx& x) {
    auto& g   = gs[i / 40];
    int   way = i / 8 % 5, nb = i / 4 % 2 ? 14 : 3;
    std::vector<int> ids = IDS, p, s;
    if (nb > 3) {
      ids.clear();
      for (int b = 0; b < nb; b++) ids.push_back(b * 5 % 97 + 1);
    }
    Roles r = ROLES[i % 4];
    if (nb > 3) {
      r.p.clear(), r.s.clear(), r.name = "every second on the others";
      for (int b = 0; b < nb; b++) {
        if (b % 2 || i % 4 == 2) r.p.push_back(ids[b]);
        if (b % 2 == 0 || i % 4 == 3) r.s.push_back(ids[b]);
      }
    }
    auto m = body(cases::wavy(exo::grid(g.nx, g.ny, g.nz)), pattern(g, nb, way), ids);
    x.distinct(hash_str(g.name()) + i);
    alone(rename(m, i % 3 ? (int)i : 0), r, g.name() + " pattern " + std::to_string(way) + " of " + std::to_string(nb) + " blocks, roles " + r.name + ", naming " + std::to_string(i), x);
  });
}
static void
large_spread()
{
  std::vector<Grid> gs{{6, 6, 6}, {40, 3, 1}, {12, 11, 1}};
  const int         nps[] = {2, 3, 5, 8};
  blocks("large bodies and distributions", gs.size() * 5 * 4 * 3, 1, [=](size_t i, Ctx& x) {
    auto& g   = gs[i / 60];
    int   way = i / 12 % 5, np = nps[i / 3 % 4], how = i % 3;
    std::vector<int> part;  // slabs, scattered, or nearly all on the last process
    for (int e = 0; e < g.count(); e++) part.push_back(how == 0 ? e * np / g.count() : how == 1 ? (e * 5 + e / 3) % np : e % 23 ? np - 1 : e % np);
    Many c = many(g, pattern(g, 3, way), part, np, (int)i, ROLES[(i / 3 + i / 12) % 4]);
    c.name = g.name() + " pattern " + std::to_string(way) + " on " + std::to_string(np) + " processes, distribution " + std::to_string(how) + ", roles " + c.r.name + ", naming " + std::to_string(i);
    spread(c, x, 0);
  });
}
// ---- whole runs
struct RunCase
{
  exo::Mesh        m;
  std::vector<int> part;
  int              np = 1;
  std::string      line, name;
  Roles            r;
};
struct Tell : nimble::ContactInterface
{
  static int rank() { return mpisim::active() ? mpisim::rank() : 0; }
  void
  DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement) override
  {
    std::string o;
    auto put = [&](const nimble::ContactEntity& c) {
      Entity e = entity(c);
      o.append((const char*)&e, sizeof e);
    };
    for (size_t i = 0; i < n.extent(0); i++) put(n(i));
    for (size_t i = 0; i < f.extent(0); i++) put(f(i));
    write_file("seen." + std::to_string(rank()), o);
  }
};
struct App : nimble::NimbleApplication
{
  std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override { return std::make_unique<Tell>(); }
};
static void
whole_run(const RunCase& c, Ctx& x)
{
  std::string dir   = scratch_dir("c17");
  auto        parts = c.np > 1 ? exo::split(c.m, c.part, c.np) : std::vector<exo::Mesh>{c.m};
  for (int p = 0; p < c.np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  ref::Deck d;
  d.steps = 1;
  d.t1    = 0.01;
  d.extra = "contact: " + c.line + "\n";
  write_file(dir + "/d.in", ref::deck_text(d, c.m));
  x.executions++;
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  auto o = e2e::run(dir, {"d.in"}, c.np, 60, {}, {}, [] { return std::unique_ptr<nimble::NimbleApplication>(new App); });
  if (!o.ok()) x.violation("status", "the run ended with status " + std::to_string(o.status) + " | " + c.name);
  else {
    Surface s;
    bool    ok = true;
    for (int p = 0; p < c.np; p++) {
      std::string f = dir + "/seen." + std::to_string(p), t = read_file(f);
      if (access(f.c_str(), R_OK)) x.violation("search", "process " + std::to_string(p) + " does not search | " + c.name), ok = false;
      for (size_t i = 0; i + sizeof(Entity) <= t.size(); i += sizeof(Entity)) {
        Entity e;
        memcpy(&e, &t[i], sizeof e);
        (e.type == nimble::ContactEntity::NODE ? s.nodes : s.faces).push_back(e);
      }
    }
    x.evaluations += s.faces.size() + s.nodes.size();
    if (ok)
      for (auto& b : compare(s, c.m, c.r.p, c.r.s)) x.violation(kind(b), b + " | " + c.name);
    long nf = -1, nn = -1;
    size_t q = o.log.find("(primary blocks):");
    if (q != std::string::npos) nf = atol(o.log.c_str() + q + 17);
    q = o.log.find("(secondary blocks):");
    if (q != std::string::npos) nn = atol(o.log.c_str() + q + 19);
    if (ok && (nf != (long)s.faces.size() || nn != (long)s.nodes.size())) x.violation("numbers", "the run reports " + std::to_string(nf) + " facets and " + std::to_string(nn) + " nodes | " + c.name);
  }
  remove_tree(dir);
}
static std::vector<RunCase>
run_cases(bool th, bool parallel)
{
  std::vector<RunCase> r;
  struct L { const char* text; Roles roles; };
  std::vector<L> lines{
      {"primary_blocks top secondary_blocks block_3 penalty_parameter 10", {{7}, {3}, ""}},
      {"master_blocks block_3 slave_blocks top low penalty_parameter 1.5e1", {{3}, {7, 12}, ""}},
      {"primary_blocks   top block_3  slave_blocks block_3   top penalty_parameter 2", {{7, 3}, {7, 3}, ""}},
      {"master_blocks low top block_3 secondary_blocks low penalty_parameter 0.5", {{12, 7, 3}, {12}, ""}},
      {"primary_blocks top top secondary_blocks low block_3 low penalty_parameter 3", {{7}, {12, 3}, ""}},
  };
  Grid   g{2, 2, 1};
  size_t n = power(3, 4);
  for (size_t i = 0; i < n; i++)
    for (size_t l = 0; l < lines.size(); l++) {
      RunCase c;
      auto    st = digits(i, 4, 3);
      c.m        = rename(body(cases::distort(exo::grid(2, 2, 1), 1 + i % 2), st, IDS), i % 5 ? (int)i : 0);
      for (auto& b : c.m.blocks) b.name = b.id == 7 ? "top" : b.id == 12 ? "low" : "";
      c.r    = lines[l].roles;
      c.line = lines[l].text;
      c.name = "run 2x2x1 cells" + join(st) + ", " + c.line;
      if (!parallel) r.push_back(c);
      else {
        c.np = 2 + i % 2;
        for (size_t v = 1; v < (th ? 12 : 4); v++) {
          c.part = digits((v * 29 + i * 5 + l) % power(c.np, 4), 4, c.np);
          for (size_t k = c.m.node_ids.size(); k < c.m.X.size(); k++) c.m.node_ids.push_back(k + 1);
          for (size_t k = c.m.elem_ids.size(); k < 4; k++) c.m.elem_ids.push_back(k + 1);
          std::set<int> used(c.part.begin(), c.part.end());
          if ((int)used.size() < c.np) continue;
          auto d = c;
          d.name += ", processes" + join(c.part);
          r.push_back(d);
        }
      }
    }
  return r;
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  PROP    = getenv("VH_PROPERTY") ? getenv("VH_PROPERTY") : "C17";
  bool th = opt.thorough();
  if (PROP == "C17") {
    bodies_alone({1, 1, 1}, 3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 23});
    bodies_alone({2, 1, 1}, 3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 23});
    bodies_alone({2, 2, 1}, 3, {0, 1, 2, 3});
    bodies_alone({3, 2, 1}, 3, {0, 1});
    bodies_alone({2, 2, 2}, 2, {0, 2, 3});
    bodies_alone({2, 2, 2}, 3, {1});
    bodies_alone({3, 3, 1}, 2, {2});
    bodies_alone({3, 2, 2}, 1, {3});
    large_alone();
    bodies_alone({3, 3, 3}, 1, {1}, th ? 5 : 3, th ? 5 : 3);
    numberings({1, 1, 1}, {0}, ROLES[2]);
    numberings({2, 1, 1}, {0, 1}, ROLES[0]);
    numberings({2, 1, 1}, {0, 0}, ROLES[2]);
    if (th) numberings({2, 2, 1}, {0, 1, 0, 0}, ROLES[2]);
    if (th) numberings({2, 2, 1}, {0, 1, 1, 0}, ROLES[0]);
    if (th) bodies_alone({3, 2, 2}, 2, {0, 5});
    if (th) bodies_alone({3, 3, 1}, 3, {4});
    if (th) bodies_alone({4, 2, 2}, 1, {6});
    auto  cs = run_cases(th, false);
    Stage st;
    st.name         = "whole runs";
    st.n            = cs.size();
    st.describe     = [&](size_t i) { return cs[i].name; };
    st.fn           = [&](size_t i, Ctx& x) { whole_run(cs[i], x); };
    st.case_timeout = 60;
    vh::run(st);
  } else {
    large_spread();
    distributions({2, 1, 1}, 3, 3);
    distributions({3, 1, 1}, 3, 3);
    distributions({2, 2, 1}, 3, 3);
    distributions({2, 2, 1}, 4, 2);
    distributions({2, 2, 2}, 2, 1);
    distributions({2, 2, 2}, 2, 2, th ? 99 : 0);
    distributions({2, 2, 2}, 3, 1, th ? 3 : 1);
    distributions({2, 2, 3}, 2, 1, th ? 3 : 1);
    if (th) distributions({2, 2, 2}, 4, 1, 0);
    if (th) distributions({2, 2, 2}, 3, 2, 0);
    // bodies whose reentrant edges have elements without a face on the skin
    {
      Grid g{2, 2, 3};
      std::vector<std::vector<int>> bs;
      for (int hole = 0; hole < 4; hole++)
        for (int v = 0; v < 3; v++) {
          std::vector<int> st(12);
          for (int e = 0; e < 12; e++) st[e] = e % 4 == hole ? -1 : v == 0 ? 0 : v == 1 ? (e / 4) % 2 : (e % 4 == 3 - hole ? 2 : 0);
          bs.push_back(st);
        }
      size_t np = power(2, 9);
      blocks("reentrant edges", bs.size() * np, 32, [=](size_t i, Ctx& x) {
        auto& st = bs[i / np];
        auto& r  = ROLES[(i / np) % ROLES.size()];
        for (int w = 0; w < 2; w++) spread(many(g, st, digits(i % np, 9, 2), 2, (int)(i % 12) + w, w ? ROLES[2] : r), x, 0);
      });
    }
    struct S { Grid g; std::vector<int> st; std::vector<std::vector<int>> parts; int np, bound; };
    std::vector<S> ss{
        {{2, 1, 1}, {0, 1}, {{0, 1}, {1, 0}, {0, 0}}, 2, th ? 4 : 3},
        {{2, 1, 1}, {0, 0}, {{0, 1}, {1, 0}, {1, 2}}, 3, th ? 3 : 2},
        {{2, 2, 1}, {0, 0, 1, 1}, {{0, 1, 0, 1}, {0, 1, 1, 0}}, 2, th ? 3 : 2},
        {{2, 2, 1}, {0, 1, 1, 0}, {{0, 1, 2, 0}, {2, 1, 0, 1}}, 3, th ? 2 : 1},
        {{2, 2, 1}, {0, 1, 2, 0}, {{0, 1, 2, 3}, {3, 0, 2, 1}}, 4, 1},
    };
    std::vector<std::pair<Many, int>> sc;
    for (auto& s : ss)
      for (auto& p : s.parts)
        for (int v = 0; v < 2; v++) sc.push_back({many(s.g, s.st, p, s.np, v, ROLES[v * 2]), s.bound});
    Stage st;
    st.name         = "schedules";
    st.n            = sc.size();
    st.describe     = [&](size_t i) { return sc[i].first.name; };
    st.worker_init  = kokkos;
    st.fn           = [&](size_t i, Ctx& x) { spread(sc[i].first, x, sc[i].second); };
    st.case_timeout = 3600;
    vh::run(st);
    auto  cs = run_cases(th, true);
    Stage sr;
    sr.name         = "whole runs";
    sr.n            = cs.size();
    sr.describe     = [&](size_t i) { return cs[i].name; };
    sr.fn           = [&](size_t i, Ctx& x) { whole_run(cs[i], x); };
    sr.case_timeout = 60;
    vh::run(sr);
  }
  return finish();
}
