// C09: contents of results files: the columns asked for, the mesh, the time planes, each value in its place.
#include <nimble_exodus_output.h>
#include <nimble_genesis_mesh.h>
#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using exo::Mesh;

static const std::vector<std::string> NODE_V{"displacement", "velocity", "acceleration", "internal_force", "external_force", "reference_coordinate"};
static const char* TENS[] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
// the columns a list of fields asks for
static void
columns(const std::vector<std::string>& f, std::multiset<std::string>& n, std::multiset<std::string>& e)
{
  std::set<std::string> seen;
  for (auto& s : f) {
    if (!seen.insert(s).second) continue;
    if (std::count(NODE_V.begin(), NODE_V.end(), s))
      for (char c : std::string("xyz")) n.insert(s + "_" + c);
    else if (s == "lumped_mass") n.insert(s);
    else if (s == "volume") e.insert(s);
    else {
      std::string b = s;
      if (s.size() > 6 && s.substr(0, 4) == "ipt0" && s[4] >= '1' && s[4] <= '8' && s[5] == '_') b = s.substr(6);
      int k = b == "stress" ? 6 : b == "deformation_gradient" ? 9 : 0;
      for (int i = 0; i < k; i++) e.insert(s + "_" + TENS[i]);
    }
  }
}
static std::string
show(const std::vector<std::string>& v)
{
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : " ") + x;
  return s;
}
static void
check(const std::string& what, const Mesh& m, const ref::Deck& d, Ctx& x, const ref::Run* run = nullptr)
{
  std::string dir = scratch_dir("c09");
  if (!exo::write_genesis(dir + "/m.g", m).empty()) _exit(3);
  write_file(dir + "/d.in", ref::deck_text(d, m));
  auto o = e2e::run(dir, {"d.in"});
  x.evaluations++;
  x.executions++;
  x.distinct(hash_str(what));
  std::string cls = what.substr(0, what.find(' '));
  if (!o.ok()) x.violation("run of " + cls, what + ": the run ends with status " + std::to_string(o.status) + ": " + o.log.substr(0, 400));
  else {
    auto r = exo::read_results(dir + "/m.out.e");
    std::vector<std::string> bad = exo::mesh_diff(r, m);
    std::multiset<std::string> n, e, gn(r.nvars.begin(), r.nvars.end()), ge(r.evars.begin(), r.evars.end());
    columns(d.fields, n, e);
    auto dif = [&](const std::multiset<std::string>& a, const std::multiset<std::string>& b) {
      std::string s;
      for (auto& k : a)
        if (a.count(k) > b.count(k)) s += " " + k;
      return s;
    };
    if (gn != n) bad.push_back("nodal columns|nodal columns differ; missing:" + dif(n, gn) + "; not asked for:" + dif(gn, n));
    if (ge != e) bad.push_back("element columns|element columns differ; missing:" + dif(e, ge) + "; not asked for:" + dif(ge, e));
    ref::Run own;
    if (!run) {
      own = ref::simulate(m, d);
      run = &own;
    }
    ref::Deck q = d;
    q.fields.clear();
    std::set<std::string> seen;
    for (auto& f : d.fields) {
      std::multiset<std::string> a, b;
      columns({f}, a, b);
      if ((a.size() || b.size()) && seen.insert(f).second) q.fields.push_back(f);
    }
    for (auto& s : ref::compare(r, m, q, *run)) bad.push_back(s);
    for (auto& s : bad) x.violation(s.substr(0, s.find('|')) + " of " + cls, what + ": " + s.substr(s.find('|') + 1));
    uint64_t h = 0;
    for (auto& p : r.nodal)
      for (auto& v : p) h = hash_dbl(v.data(), v.size(), h);
    x.outcome(h);
  }
  remove_tree(dir);
}
// values written through the output class itself
static void
api(size_t i, const std::string& what, Ctx& x)
{
  std::string dir = scratch_dir("c09a");
  int t = i;
  int ng = t % 3;
  t /= 3;
  int nn = t % 4;
  t /= 4;
  int ma = t % 8;
  t /= 8;
  int mb = t % 8;
  t /= 8;
  int der = t % 4;
  t /= 4;
  int lay = t % 3;
  Mesh m = exo::assign_blocks(exo::grid(3, 1, 1), lay == 0 ? std::vector<int>{0, 1, 1} : lay == 1 ? std::vector<int>{1, 0, 1} : std::vector<int>{1, 1, 2}, {5, 2, 9}, {"", "two", ""});
  if (lay < 2) m.blocks.pop_back();
  cases::sets(m);
  m.nsets[1].ndf = 0;
  if (!exo::write_genesis(dir + "/m.g", m).empty()) _exit(3);
  std::string l32(32, 'q');
  std::vector<std::string> g, n, E{"zeta", "alpha", l32}, D{"volume_x", "beta"};
  for (int k = 0; k < ng; k++) g.push_back(k ? "energy" : l32);
  std::vector<std::string> nnames{"displacement_z", "a", l32};
  for (int k = 0; k < nn; k++) n.push_back(nnames[k]);
  nimble::GenesisMesh gm;
  std::map<int, std::vector<std::string>> en, dn;
  std::multiset<std::string> all;
  Quiet q;
  gm.ReadFile(dir + "/m.g");
  int bi = 0;
  for (int b : gm.GetBlockIds()) {
    int mask = bi ? mb : ma;
    for (int k = 0; k < 3; k++)
      if (mask >> k & 1) en[b].push_back(E[bi ? 2 - k : k]);
    en[b];
    for (int k = 0; k < 2; k++)
      if (der >> k & 1) dn[b].push_back(D[k]);
    dn[b];
    std::set<std::string> u;
    u.insert(en[b].begin(), en[b].end());
    u.insert(dn[b].begin(), dn[b].end());
    for (auto& s : u)
      if (!all.count(s)) all.insert(s);
    bi++;
  }
  std::vector<std::string> bad;
  try {
    nimble::ExodusOutput out;
    out.Initialize(dir + "/o.e", gm);
    out.InitializeDatabase(gm, g, n, en, dn);
    auto val = [](int step, int a, int b, int c, int d) { return 1000000.0 * step + 10000.0 * a + 1000.0 * b + 10.0 * c + d + 0.25; };
    int  steps = 3;
    for (int s = 0; s < steps; s++) {
      std::vector<double> gd;
      for (int k = 0; k < ng; k++) gd.push_back(val(s, 1, k, 0, 0));
      std::vector<std::vector<double>> nd(nn);
      for (int k = 0; k < nn; k++)
        for (size_t i = 0; i < m.X.size(); i++) nd[k].push_back(val(s, 2, k, i, 0));
      std::map<int, std::vector<std::vector<double>>> ed, dd;
      for (int b : gm.GetBlockIds()) {
        int ne = gm.GetNumElementsInBlock(b);
        ed[b];
        dd[b];
        for (size_t k = 0; k < en[b].size(); k++) {
          ed[b].emplace_back();
          for (int i = 0; i < ne; i++) ed[b].back().push_back(val(s, 3, b, i, std::find(E.begin(), E.end(), en[b][k]) - E.begin()));
        }
        for (size_t k = 0; k < dn[b].size(); k++) {
          dd[b].emplace_back();
          for (int i = 0; i < ne; i++) dd[b].back().push_back(val(s, 4, b, i, std::find(D.begin(), D.end(), dn[b][k]) - D.begin()));
        }
      }
      out.WriteStep(0.5 + 0.125 * s, gd, nd, en, ed, dn, dd);
    }
    auto r = exo::read_results(dir + "/o.e");
    bad    = exo::mesh_diff(r, m);
    for (size_t k = 0; k < m.nsets.size() && k < r.ns_df.size(); k++)
      if (r.ns_df[k] != std::vector<double>(m.nsets[k].ndf < 0 ? m.nsets[k].nodes.size() : m.nsets[k].ndf, 1.0)) bad.push_back("node sets|the distribution factors differ");
    if (r.gvars != g) bad.push_back("global columns|global columns are " + show(r.gvars) + " instead of " + show(g));
    if (r.nvars != n) bad.push_back("nodal columns|nodal columns are " + show(r.nvars) + " instead of " + show(n));
    if (std::multiset<std::string>(r.evars.begin(), r.evars.end()) != all) bad.push_back("element columns|element columns are " + show(r.evars));
    if (r.times != std::vector<double>{0.5, 0.625, 0.75}) bad.push_back("times|time stamps differ");
    if (bad.empty())
      for (int s = 0; s < steps; s++) {
        for (int k = 0; k < ng; k++)
          if (r.global[s][k] != val(s, 1, k, 0, 0)) bad.push_back("global values|global values differ");
        for (int k = 0; k < nn; k++)
          for (size_t i = 0; i < m.X.size(); i++)
            if (r.nodal[s][k][i] != val(s, 2, k, i, 0)) bad.push_back("nodal values|nodal values differ");
        for (size_t b = 0; b < m.blocks.size(); b++) {
          int id = m.blocks[b].id;
          for (int w = 0; w < 2; w++)
            for (auto& nm : w ? dn[id] : en[id]) {
              int v = r.ev(nm);
              for (size_t i = 0; i < m.blocks[b].conn.size(); i++) {
                auto& L = w ? D : E;
                double want = val(s, w ? 4 : 3, id, i, std::find(L.begin(), L.end(), nm) - L.begin());
                if (i >= r.elem[s][b][v].size() || r.elem[s][b][v][i] != want) bad.push_back("element values|element values differ");
              }
            }
        }
      }
  } catch (std::exception& ex) { bad.push_back(std::string("exception|") + ex.what()); }
  x.evaluations++;
  x.executions++;
  x.distinct(hash_str(what));
  std::set<std::string> once(bad.begin(), bad.end());
  for (auto& s : once) x.violation(s.substr(0, s.find('|')) + " of output class", what + ": " + s.substr(s.find('|') + 1));
  remove_tree(dir);
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  // requested variables
  std::vector<std::string> F = NODE_V;
  for (auto s : {"lumped_mass", "volume", "stress", "deformation_gradient"}) F.push_back(s);
  for (int i = 1; i <= 8; i++)
    for (auto s : {"stress", "deformation_gradient"}) F.push_back("ipt0" + std::to_string(i) + "_" + s);
  std::vector<std::string> U{"no_such_field", "stress_xx", "Stress", "displacement_x"};
  std::vector<std::vector<std::string>> lists{{"no_such_field"}, F};
  {
    auto g = F;
    std::reverse(g.begin(), g.end());
    lists.push_back(g);
    g.insert(g.end(), F.begin(), F.end());
    lists.push_back(g);
  }
  for (auto& a : F) {
    lists.push_back({a});
    for (auto& b : F) lists.push_back({a, b});
    for (auto& u : U) {
      lists.push_back({a, u});
      lists.push_back({u, a});
    }
  }
  std::vector<std::string> G{"displacement", "lumped_mass", "volume", "stress", "deformation_gradient", "ipt03_stress", "ipt07_deformation_gradient"};
  if (th) G = F;
  for (auto& a : G)
    for (auto& b : G)
      for (auto& c : G) lists.push_back({a, b, c});
  std::vector<ref::Mat> mats = cases::materials();
  Mesh two = exo::assign_blocks(cases::distort(exo::grid(3, 1, 1), 1), {0, 1, 0}, {4, 2}, {"", "soft"});
  cases::sets(two);
  ref::Deck d0;
  d0.mats      = mats;
  d0.bcs       = cases::conditions(2);
  d0.steps     = 3;
  d0.freq      = 2;
  d0.t1        = 0.15;
  d0.block_mat = {{4, 1}, {2, 2}};
  ref::Run run0 = ref::simulate(two, d0);
  Stage st;
  st.name     = "fields";
  st.n        = lists.size();
  st.describe = [&](size_t i) { return "fields " + show(lists[i]); };
  st.fn       = [&](size_t i, Ctx& x) {
    ref::Deck d = d0;
    d.fields    = lists[i];
    check(st.describe(i), two, d, x, &run0);
    if (i % 131 == 0) x.sample(st.describe(i));
  };
  st.chunk = 8;
  vh::run(st);

  // integration points that do not exist must not be filed under a name as if they did
  std::vector<std::string> wrong;
  for (auto s : {"stress", "deformation_gradient"}) {
    for (auto p : {"ipt00_", "ipt09_", "ipt10_", "ipt11_", "ipt18_", "ipt81_", "ipt99_", "ipt0x_", "ipt_1_", "ipt-1_", "ipt1_", "ipt001_", "ipt8_", "ipt0a", "ipt", "ipt01", "ipt01__"}) wrong.push_back(std::string(p) + s);
  }
  for (auto p : {"ipt", "ipt0", "ipt01", "ipt01_", "i", "ip", "ipt01_lumped_mass", "ipt01_volume", "ipt01_displacement", "ipt01_no_such_field"}) wrong.push_back(p);
  Stage sw;
  sw.name     = "points";
  sw.n        = wrong.size() * 2;
  sw.describe = [&](size_t i) { return "points " + wrong[i / 2] + (i % 2 ? " and displacement" : ""); };
  sw.fn       = [&](size_t i, Ctx& x) {
    std::string dir = scratch_dir("c09p");
    ref::Deck   d   = d0;
    d.fields        = {wrong[i / 2]};
    if (i % 2) d.fields.push_back("displacement");
    if (!exo::write_genesis(dir + "/m.g", two).empty()) _exit(3);
    write_file(dir + "/d.in", ref::deck_text(d, two));
    auto o = e2e::run(dir, {"d.in"});
    x.evaluations++;
    x.executions++;
    x.distinct(hash_str(sw.describe(i)));
    if (o.status == -11 || o.status == -8 || o.status == -1000) x.violation("crash of points", sw.describe(i) + ": the run ends with " + std::to_string(o.status));
    if (o.ok()) {
      auto r = exo::read_results(dir + "/m.out.e");
      if (!r.error.empty()) x.violation("unreadable of points", sw.describe(i) + ": " + r.error);
      if (!r.evars.empty()) x.violation("column of points", sw.describe(i) + ": the results file has a column " + r.evars[0] + " for an integration point that does not exist");
      ref::Deck q = d;
      q.fields.erase(q.fields.begin());
      auto bad = ref::compare(r, two, q, run0);
      if (!bad.empty()) x.violation("values of points", sw.describe(i) + ": " + bad[0]);
    }
    remove_tree(dir);
  };
  vh::run(sw);

  // time planes
  struct P
  {
    int    steps, freq;
    double t0, len;
  };
  std::vector<P> ps;
  int S = th ? 24 : 10;
  for (int s = 1; s <= S; s++)
    for (int f = 1; f <= S + 2; f++)
      for (double t0 : {0.0, 2.5, -1.0})
        for (double len : {0.3, 1e-3}) {
          if (!th && len < 0.1 && t0 != 0) continue;
          ps.push_back({s, f, t0, len});
        }
  Mesh small = cases::distort(exo::grid(1, 1, 1), 2);
  cases::sets(small);
  Stage sp;
  sp.name     = "planes";
  sp.n        = ps.size();
  sp.describe = [&](size_t i) {
    auto& p = ps[i];
    return "planes " + std::to_string(p.steps) + " steps, frequency " + std::to_string(p.freq) + " from " + fmt(p.t0) + " over " + fmt(p.len);
  };
  sp.fn = [&](size_t i, Ctx& x) {
    auto&     p = ps[i];
    ref::Deck d;
    d.t0     = p.t0;
    d.t1     = p.t0 + p.len;
    d.steps  = p.steps;
    d.freq   = p.freq;
    d.bcs    = cases::conditions(1);
    d.fields = {"displacement", "velocity", "ipt02_stress", "volume"};
    check(sp.describe(i), small, d, x);
  };
  sp.chunk = 8;
  vh::run(sp);

  // meshes: every assignment of four elements to three blocks, ids, names, maps
  Mesh base = cases::distort(exo::grid(2, 2, 1), 1);
  std::vector<std::vector<int>> ids{{1, 2, 3}, {7, 3, 50}};
  std::vector<std::vector<std::string>> names{{"", "", ""}, {"steel", std::string(32, 'n'), "block_1x"}};
  Stage sm;
  sm.name     = "meshes";
  sm.n        = 81 * 2 * 2 * 4;
  sm.describe = [&](size_t i) { return "meshes blocks " + std::to_string(i % 81) + " ids " + std::to_string(i / 81 % 2) + " names " + std::to_string(i / 162 % 2) + " maps " + std::to_string(i / 324); };
  sm.fn       = [&](size_t i, Ctx& x) {
    std::vector<int> blk;
    size_t           t = i % 81;
    for (int k = 0; k < 4; k++, t /= 3) blk.push_back(t % 3);
    Mesh m  = exo::assign_blocks(base, blk, ids[i / 81 % 2], names[i / 162 % 2]);
    int  mp = i / 324;
    int  N  = m.X.size();
    if (mp & 1)
      for (int k = 0; k < N; k++) m.node_ids.push_back(2 * (N - k) + 5);
    if (mp & 1) m.elem_ids = {9, 2, 30, 4};
    if (mp == 2) m.aux_elem_map = {3, 1, 4, 2};
    if (mp == 3) {
      for (int k = 0; k < N; k++) m.aux_node_map.push_back(1 + (k + 3) % N);
    }
    cases::sets(m);
    m.nsets[1].name = "left";
    if (mp == 1) m.nsets[2].nodes = {};
    if (mp == 2) m.nsets[0].ndf = 0;
    ref::Deck d;
    d.mats  = mats;
    d.bcs   = cases::conditions(1);
    d.steps = 2;
    d.t1    = 0.1;
    d.freq  = 1;
    for (int k = 0; k < 3; k++) d.block_mat[m.blocks[k].id] = k;
    for (auto& b : d.bcs)
      if (b.set == "nodelist_2") b.set = "left";
    d.fields = {"displacement", "internal_force", "stress", "ipt05_deformation_gradient", "volume"};
    check(sm.describe(i), m, d, x);
  };
  sm.chunk = 8;
  vh::run(sm);

  // more of everything: elements, blocks, sets, steps and planes
  auto  big = cases::large();
  Stage sl;
  sl.name     = "large";
  sl.n        = big.size();
  sl.describe = [&](size_t i) { return "large: " + big[i].name; };
  sl.fn       = [&](size_t i, Ctx& x) { check(sl.describe(i), big[i].m, big[i].d, x); };
  sl.case_timeout = 120;
  vh::run(sl);

  Stage sa;
  sa.name     = "output class";
  sa.n        = 3 * 4 * 8 * 8 * 4 * 3;
  sa.describe = [&](size_t i) { return "output-class combination " + std::to_string(i); };
  sa.fn       = [&](size_t i, Ctx& x) { api(i, sa.describe(i), x); };
  sa.chunk    = 16;
  vh::run(sa);
  note("bounds", "all lists of up to two of 26 variables and of three of a smaller alphabet; all step counts and output frequencies up to the bound; all block assignments; all variable sets per block through the output class; bodies of up to 1000 elements, 40 blocks, 36 sets and 1100 planes");
  return finish();
}
