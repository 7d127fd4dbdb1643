// C30: the trajectories of uncertainty runs against the independent reference model.
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using namespace cases;

struct Line  // uq parameters: material_<mat + 1> ...
{
  int                                         mat;
  std::vector<std::pair<std::string, double>> p;
};
struct Case
{
  exo::Mesh                        m;
  ref::Deck                        d;
  std::vector<Line>                lines;
  std::vector<std::vector<double>> exact, approx, coef;
  std::vector<int>                 part;  // elements on processes
  int                              np = 1;
  bool                             tpetra = false;
  std::string                      name;
};
static const char* kind[] = {"displacement", "velocity", "force"};

static void
must(const std::string& e)
{
  if (!e.empty()) {
    fprintf(stderr, "%s\n", e.c_str());
    _exit(3);
  }
}
static std::string
num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::vector<ref::Deck>
decks(const Case& c)
{
  std::vector<ref::Deck> r{c.d};
  for (auto& xi : c.exact) {
    ref::Deck d = c.d;
    size_t    k = 0;
    for (auto& l : c.lines)
      for (auto& p : l.p) {
        auto& m = d.mats[l.mat];
        (p.first == "bulk_modulus" ? m.K : m.G) += p.second * xi[k++];
      }
    r.push_back(d);
  }
  return r;
}
static std::string
row(const std::vector<double>& v)
{
  std::string s;
  for (double x : v) s += (s.empty() ? "" : " ") + num(x);
  return s;
}
static void
inputs(const std::string& dir, const Case& c)
{
  ref::Deck d = c.d;
  for (auto& l : c.lines) {
    d.extra += "uq parameters: material_" + std::to_string(l.mat + 1);
    for (auto& p : l.p) d.extra += " " + p.first + " " + num(p.second);
    d.extra += "\n";
  }
  d.extra += "uq model: file s.dat\n";
  for (size_t q = 0; q < c.exact.size() + c.approx.size(); q++)
    for (auto k : kind) {
      std::string s = q < c.exact.size() ? "exact_" : "sample_";
      d.fields.push_back(s + k + "_" + std::to_string(q < c.exact.size() ? q + 1 : q - c.exact.size() + 1));
    }
  write_file(dir + "/d.in", ref::deck_text(d, c.m));
  std::string s = std::to_string(c.exact.size()) + " " + std::to_string(c.approx.size()) + "\n";
  for (auto& r : c.exact) s += row(r) + "\n";
  for (size_t i = 0; i < c.approx.size(); i++) s += row(c.approx[i]) + " : " + row(c.coef[i]) + "\n";
  write_file(dir + "/s.dat", s);
}
// the sample fields of a results file whose node i is mesh node at[i]
static void
samples(const exo::Results& r, const std::vector<int>& at, const Case& c, const std::vector<ref::Run>& runs, std::vector<std::string>& bad)
{
  for (size_t q = 1; q < runs.size(); q++)
    for (int k = 0; k < 3; k++) {
      bool        ex    = q <= c.exact.size();
      std::string label = std::string(ex ? "exact_" : "sample_") + kind[k] + "_" + std::to_string(ex ? q : q - c.exact.size());
      double      sc    = k == 0 ? 1e-3 : k == 1 ? 1e-3 : 1e-2;
      auto get = [&](const ref::Plane& p) -> const std::vector<ref::V3>& { return k == 0 ? p.u : k == 1 ? p.v : p.f; };
      for (auto& p : runs[q].planes)
        for (auto& w : get(p))
          for (double v : w) sc = std::max(sc, std::fabs(v));
      for (int j = 0; j < 3; j++) {
        std::string nm = label + "_" + "xyz"[j];
        int         v  = r.nv(nm);
        if (v < 0) {
          bad.push_back("missing|no nodal variable " + nm);
          continue;
        }
        for (size_t s = 0; s < runs[q].planes.size() && s < r.nodal.size(); s++)
          for (size_t i = 0; i < at.size(); i++) {
            double e = get(runs[q].planes[s])[at[i]][j], g = r.nodal[s][v][i];
            if (!(std::fabs(e - g) <= 1e-9 * sc)) {
              bad.push_back(std::string(ex ? "exact " : "approximate ") + kind[k] + "|" + nm + " of node " + std::to_string(at[i]) + " at plane " + std::to_string(s) + " is " + fmt(g) + ", expected " + fmt(e));
              s = r.nodal.size();
              break;
            }
          }
      }
    }
}

// the list of the values the samples have
static void
values(const std::string& dir, const Case& c, Ctx& x)
{
  std::ifstream f(dir + "/parameter_samples.dat");
  std::string   line, w;
  std::getline(f, line);
  std::istringstream h(line);
  h >> w;
  if (w != "#") x.violation("values", "no list of parameter values | " + c.name);
  for (auto& l : c.lines)
    for (auto& p : l.p) {
      h >> w;
      if (w.substr(0, w.rfind('_')) != p.first) x.violation("values", "the list of parameter values has column " + w + " where " + p.first + " should be | " + c.name);
    }
  auto all = c.exact;
  all.insert(all.end(), c.approx.begin(), c.approx.end());
  for (auto& r : all) {
    size_t k = 0;
    for (auto& l : c.lines)
      for (auto& p : l.p) {
        double v = 0, e = (p.first == "bulk_modulus" ? c.d.mats[l.mat].K : c.d.mats[l.mat].G) + p.second * r[k++];
        f >> v;
        if (!(std::fabs(v - e) <= 1e-5 * std::fabs(e))) x.violation("values", "a sample is listed with " + p.first + " " + fmt(v) + " instead of " + fmt(e) + " | " + c.name);
      }
  }
}

static void
check(const Case& c, Ctx& x)
{
  std::string dir = scratch_dir("c30");
  auto        runs = ref::ensemble(c.m, decks(c), c.coef);
  for (auto& r : runs)
    if (r.unstable) x.count("reference-unstable");
  inputs(dir, c);
  std::vector<std::string> args{"--use_uq", "d.in"};
  if (c.tpetra) args.insert(args.begin(), "--use_tpetra");
  auto ps = c.np > 1 ? exo::split(c.m, c.part, c.np, false) : std::vector<exo::Mesh>{c.m};
  for (int p = 0; p < c.np; p++) must(exo::write_genesis(dir + "/" + piece("m.g", c.np, p), ps[p]));
  auto o = e2e::run(dir, args, c.np);
  x.executions++;
  x.evaluations++;
  x.transitions += c.d.steps * runs.size();
  x.count("trajectories", runs.size());
  if (!o.ok()) {
    std::string e;
    for (auto& m : o.errors) e += m + "; ";
    x.violation("status", "the run ended with status " + std::to_string(o.status) + " (" + e + o.log.substr(o.log.size() > 300 ? o.log.size() - 300 : 0) + ") | " + c.name);
  } else
    for (int p = 0; p < c.np; p++) {
      auto res = exo::read_results(dir + "/" + piece("m.out.e", c.np, p));
      std::vector<std::string> bad;
      std::vector<int>         at;
      if (c.np == 1) {
        bad = ref::compare(res, c.m, c.d, runs[0]);
        for (size_t i = 0; i < c.m.X.size(); i++) at.push_back(i);
      } else {
        if (!res.error.empty()) bad.push_back("unreadable|" + res.error);
        else if (res.nodal.size() != runs[0].planes.size()) bad.push_back("planes|" + std::to_string(res.nodal.size()) + " time planes");
        if (ps[p].nelem() == 0) continue;  // nothing nodal is written without elements
        for (int id : res.node_map) at.push_back(std::find(c.m.node_ids.begin(), c.m.node_ids.end(), id) - c.m.node_ids.begin());
      }
      if (bad.empty()) samples(res, at, c, runs, bad);
      for (auto& b : bad) x.violation(b.substr(0, b.find('|')), b.substr(b.find('|') + 1) + " | " + c.name);
      for (size_t s = 0; s < res.nodal.size(); s++) {
        uint64_t h = s;
        for (auto& v : res.nodal[s]) h = hash_dbl(v.data(), v.size(), h);
        x.state(h);
        x.outcome(h);
      }
    }
  if (o.ok()) values(dir, c, x);
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  remove_tree(dir);
}

static std::string
describe(const Case& c)
{
  std::string s;
  for (auto& l : c.lines) {
    s += " material_" + std::to_string(l.mat + 1);
    for (auto& p : l.p) s += " " + p.first + " " + fmt(p.second);
  }
  s += "; exact";
  for (auto& r : c.exact) s += " (" + row(r) + ")";
  s += "; approximate";
  for (auto& r : c.coef) s += " (" + row(r) + ")";
  return s;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto mats = materials();
  std::vector<Case> one, split;
  const std::string K = "bulk_modulus", G = "shear_modulus";
  // which parameters are uncertain
  std::vector<std::vector<Line>> l1 = {{{0, {{K, 2.5}}}}, {{0, {{G, 1.5}}}}, {{0, {{K, 2.5}, {G, 1.5}}}}, {{0, {{G, -1.5}, {K, 0.5}}}}};
  std::vector<std::vector<Line>> l2 = {{{0, {{K, 2.5}}}}, {{1, {{G, 1.25}}}}, {{0, {{K, 2.5}, {G, 1.5}}}, {1, {{K, 1.5}}}}, {{0, {{G, 1.5}}}, {1, {{G, 0.75}, {K, 1.5}}}}};
  static const double xi[]  = {-1, 0.5, 1, 0, -0.25, 0.75, 1.5, -0.5};
  static const double mix[] = {0, 1, 0.5, -0.25, 0.75, 2};
  auto sized = [&](Case& c, int ne, int na, int v) {
    size_t np = 0;
    for (auto& l : c.lines) np += l.p.size();
    int q = v;
    for (int i = 0; i < ne; i++) {
      c.exact.emplace_back();
      for (size_t k = 0; k < np; k++) c.exact.back().push_back(xi[(q += 1 + v + k) % 8]);
    }
    for (int i = 0; i < na; i++) {
      c.approx.emplace_back();
      for (size_t k = 0; k < np; k++) c.approx.back().push_back(xi[(q += 1 + v) % 8]);
      c.coef.emplace_back();
      for (int k = 0; k <= ne; k++) c.coef.back().push_back(mix[(q += 1 + v + i) % 6]);
    }
  };
  auto base = [&](int nx, int ny, int dis, std::vector<int> blk, std::vector<int> ids, std::vector<int> mat, int cond) {
    Case c;
    c.m = exo::assign_blocks(distort(exo::grid(nx, ny, 1), dis), blk, ids);
    sets(c.m);
    for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
    for (int e = 0; e < c.m.nelem(); e++) c.m.elem_ids.push_back(e + 1);
    c.d.mats   = {mats[0], mats[1], mats[2]};
    c.d.fields = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "stress", "deformation_gradient", "volume"};
    for (size_t b = 0; b < ids.size(); b++) c.d.block_mat[ids[b]] = mat[b];
    c.d.bcs   = conditions(cond);
    c.d.steps = 3;
    c.d.t1    = 0.2;
    c.name    = "grid " + std::to_string(nx) + "x" + std::to_string(ny) + " shape " + std::to_string(dis) + " materials";
    for (int b : blk) c.name += " " + std::to_string(mat[b] + 1);
    c.name += ", " + std::to_string(ids.size()) + " blocks, conditions " + std::to_string(cond);
    return c;
  };
  // the bodies: one block; two blocks of two materials; two blocks of one material; one uncertain of three
  struct B { int nx, ny; std::vector<int> blk, ids, mat; };
  std::vector<B> bs = {{1, 1, {0}, {1}, {0}}, {2, 1, {0, 1}, {4, 9}, {0, 1}}, {2, 1, {1, 0}, {7, 2}, {1, 0}}, {2, 1, {0, 1}, {1, 2}, {0, 0}}, {3, 1, {0, 1, 2}, {3, 1, 2}, {0, 2, 1}}, {2, 2, {0, 1, 1, 0}, {1, 12}, {0, 1}}};
  for (size_t b = 0; b < bs.size(); b++) {
    bool two = std::count(bs[b].mat.begin(), bs[b].mat.end(), 1);
    for (auto& l : two ? l2 : l1)
      for (int ne = 0; ne <= (th ? 3 : 2); ne++)
        for (int na = 0; na <= (th ? 3 : 2); na++) {
          if (ne + na == 0) continue;
          for (int v = 0; v < (th ? 4 : 2); v++)
            for (int dis = 0; dis < 2; dis++)
              for (int cond = 0; cond < 4; cond++) {
                if (!th && b > 1 && (cond + v + dis + ne) % 2) continue;
                Case c  = base(bs[b].nx, bs[b].ny, dis, bs[b].blk, bs[b].ids, bs[b].mat, cond);
                c.lines = l;
                sized(c, ne, na, v);
                c.name += describe(c);
                one.push_back(c);
              }
        }
  }
  // steps, output frequencies and start times
  for (int steps = 1; steps <= (th ? 8 : 5); steps++)
    for (int freq = 0; freq <= steps + 1; freq++)
      for (double t0 : {0.0, -2.0, 0.75})
        for (int cond = 0; cond < 4; cond++) {
          Case c    = base(2, 1, 1, {0, 1}, {4, 9}, {0, 1}, cond);
          c.lines   = l2[2];
          c.d.steps = steps;
          c.d.freq  = freq;
          c.d.t0    = t0;
          c.d.t1    = t0 + 0.2;
          sized(c, 1, 1, 1);
          c.name += " steps " + std::to_string(steps) + " frequency " + std::to_string(freq) + " from " + fmt(t0);
          one.push_back(c);
        }
  // many samples, elements, blocks and steps
  for (int q = 0; q < 6; q++)
    for (int v = 0; v < 2; v++) {
      Case c;
      if (q < 3) c = base(2, 1, 1, {0, 1}, {4, 9}, {0, 1}, 1 + v);
      if (q == 3) c = base(1, 1, 1, {0}, {1}, {0}, 1 + v);
      if (q > 3) {
        int              n = q == 4 ? 7 : 12, nb = q == 4 ? 3 : 12;
        std::vector<int> blk, ids, mat;
        for (int e = 0; e < n * (q == 4 ? 6 : 2); e++) blk.push_back(e * 5 % nb);
        for (int b = 0; b < nb; b++) ids.push_back(b * 5 % 37 + 1), mat.push_back(b % 3);
        c = base(n, q == 4 ? 6 : 2, 0, blk, ids, mat, 0);
      }
      c.lines = q == 3 ? l1[2] : l2[2 + v];
      if (q == 3) c.d.steps = 150, c.d.t1 = 2, c.d.freq = 7;
      const int ne[6] = {14, 11, 0, 2, 1, 2}, na[6] = {3, 12, 25, 1, 2, 1};
      sized(c, ne[q], na[q], v);
      c.name += describe(c) + ", large " + std::to_string(q);
      one.push_back(c);
      if (q < 2 || q == 4) {
        c.np = 2 + v;
        for (int e = 0; e < c.m.nelem(); e++) c.part.push_back((e * 5 + e / 3) % std::min(c.np, c.m.nelem()));
        c.name += ", scattered";
        split.push_back(c);
      }
    }
  // every assignment of elements to processes
  for (size_t b = 1; b < bs.size(); b++)
    for (int np = 2; np <= 3; np++) {
      int ne = bs[b].blk.size(), n = 1;
      for (int i = 0; i < ne; i++) n *= np;
      for (int a = 0; a < n; a++) {
        bool two = std::count(bs[b].mat.begin(), bs[b].mat.end(), 1);
        auto& ls = two ? l2 : l1;
        Case c   = base(bs[b].nx, bs[b].ny, 1, bs[b].blk, bs[b].ids, bs[b].mat, a % 4);
        c.lines  = ls[(a + b) % ls.size()];
        c.np     = np;
        for (int i = 0, t = a; i < ne; i++, t /= np) c.part.push_back(t % np);
        sized(c, a % 3, 2 - a % 3 ? 1 + a % 2 : 0, a % 2);
        c.tpetra = a % 5 == 4;
        c.name += describe(c) + ", elements on processes";
        for (int p : c.part) c.name += " " + std::to_string(p);
        if (c.tpetra) c.name += ", with Tpetra";
        split.push_back(c);
      }
    }
  for (int k = 0; k < 2; k++) {
    auto& cs = k ? split : one;
    Stage st;
    st.name         = k ? "processes" : "runs";
    st.n            = cs.size();
    st.describe     = [&](size_t i) { return cs[i].name; };
    st.fn           = [&](size_t i, Ctx& x) { check(cs[i], x); };
    st.case_timeout = 60;
    st.chunk        = 4;
    vh::run(st);
  }
  // sample files that cannot be used
  Case rc  = base(2, 1, 0, {0, 1}, {4, 9}, {0, 1}, 0);
  rc.lines = l2[2];
  sized(rc, 2, 2, 0);
  struct Bad { std::string text, why; bool none; };
  std::vector<Bad> bads;
  {
    std::string r3 = "0.5 0.5 0.5\n", a3 = "0.5 0.5 0.5 : 0 1 0\n";
    bads.push_back({"", "no file", true});
    bads.push_back({"", "an empty file", false});
    bads.push_back({"2\n" + r3 + r3 + a3 + a3, "one count only", false});
    bads.push_back({"two 2\n" + r3 + r3 + a3 + a3, "a count that is no number", false});
    std::vector<std::string> good{"2 2\n", r3, r3, a3, a3};
    auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l; return s; };
    for (size_t k = 1; k <= 4; k++) {
      auto v = good;
      v.resize(k);
      bads.push_back({join(v), "only " + std::to_string(k) + " lines", false});
      for (std::string t : {"0.5 0.5", "0.5 0.5 0.5 0.5", "", "0.5 x 0.5", "0.5 0.5 0.5"})
        for (std::string q : {" : 0 1 0", " : 0 1", " : 0 1 0 1", " : 0 y 0", " :", ""}) {
          if ((k <= 2 ? t + q == "0.5 0.5 0.5" : t + q == "0.5 0.5 0.5 : 0 1 0")) continue;
          v      = good;
          v[k]   = t + q + "\n";
          bads.push_back({join(v), "line " + std::to_string(k + 1) + " being '" + t + q + "'", false});
        }
    }
  }
  Stage rf;
  rf.name     = "refusals";
  rf.n        = bads.size();
  rf.describe = [&](size_t i) { return "samples file: " + bads[i].why; };
  rf.fn       = [&](size_t i, Ctx& x) {
    std::string dir = scratch_dir("c30r");
    inputs(dir, rc);
    must(exo::write_genesis(dir + "/m.g", rc.m));
    unlink((dir + "/s.dat").c_str());
    if (!bads[i].none) write_file(dir + "/s.dat", bads[i].text);
    auto o = e2e::run(dir, {"--use_uq", "d.in"});
    x.executions++;
    x.evaluations++;
    if (o.status == 0) x.violation("accepted", "the run went through with " + rf.describe(i));
    else if (o.status < 0 && o.status != -6) x.violation("crash", "the run ended with signal " + std::to_string(-o.status) + " with " + rf.describe(i));
    x.count("refusals");
    x.distinct(hash_str(rf.describe(i)));
    remove_tree(dir);
  };
  rf.case_timeout = 60;
  vh::run(rf);
  note("bounds", th ? "up to 4 elements, 3 blocks, 3 exact and 3 approximate samples, 8 steps, 3 processes" : "up to 4 elements, 3 blocks, 2 exact and 2 approximate samples, 5 steps, 3 processes; some with up to 25 samples, 42 elements, 12 blocks, 150 steps");
  return finish();
}
