// C19: contact forces: their distribution over a face, their deposit on the mesh, and histories of evaluations.
#include <nimble.h>
#include <unistd.h>

#include "cases.h"
#include "contact.h"
#include "contact_run.h"
#include "e2e.h"
#include "mpisim.h"
#include "ref.h"
using namespace vh;
using namespace contact;

static void
kokkos()
{
  int   ac = 0;
  char* av[1] = {nullptr};
  if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
}
static void
blocks(const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f)
{
  Stage st;
  st.name        = name;
  st.n           = (n + per - 1) / per;
  st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
  st.worker_init = kokkos;
  st.fn          = [=](size_t b, Ctx& x) {
    for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
  };
  st.case_timeout = 60;
  vh::run(st);
}
static std::string
show(const V3& a)
{
  return fmt(a[0]) + " " + fmt(a[1]) + " " + fmt(a[2]);
}
// ---- one contact
struct Quad
{
  V3 p[4];
  V3 mid() const { return mul(0.25, add(add(p[0], p[1]), add(p[2], p[3]))); }
};
static std::vector<Quad>
quads()
{
  std::vector<Quad> r;
  Quad              u{{{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}}};
  const double      d[4] = {0, 0.35, -0.3, 0.15};
  for (int i = 0; i < 256; i++) {  // warped in all ways
    Quad q = u;
    for (int k = 0, t = i; k < 4; k++, t /= 4)
      for (int c = 0; c < 3; c++) q.p[k][c] += d[(t % 4 + c * (k + 1)) % 4] * (t % 4 != 0);
    r.push_back(q);
  }
  return r;
}
static V3
local(const V3& p, int how)
{
  // moved, turned and scaled
  if (how == 0) return p;
  if (how == 1) return {{3 + 0.6 * p[0] - 0.8 * p[1], -2 + 0.8 * p[0] + 0.6 * p[1], 5 + p[2]}};
  return {{1e-4 * p[2], 1e-4 * p[0], 1e-4 * p[1]}};
}
// the forces of one contact on the ten nodes of a small world
static void
one_contact(const Quad& q, int tri, const double b[3], double gap, double penalty, int share, const int ids[5], const std::string& name, Ctx& x)
{
  V3 a = q.p[tri], c = q.p[(tri + 1) % 4], m = q.mid();
  V3 n = cross(sub(c, a), sub(m, a));
  n    = mul(1 / len(n), n);
  V3 foot = add(add(mul(b[0], a), mul(b[1], c)), mul(b[2], m)), p = add(foot, mul(gap, n));
  double tc[9], nc[3];
  for (int k = 0; k < 3; k++) tc[k] = a[k], tc[3 + k] = c[k], tc[6 + k] = m[k], nc[k] = p[k];
  CE face(CE::TRIANGLE, 40, tc, 1.0, ids[tri], ids[(tri + 1) % 4], ids), node(CE::NODE, 41, nc, 1.0, ids[4]);
  // what must come out
  double s = penalty * gap / share;
  std::vector<double> want(30, 0.0), w2(30, 0.0);
  auto put = [&](std::vector<double>& w, int i, double f, double sc) {
    for (int k = 0; k < 3; k++) w[3 * i + k] += f * sc * n[k];
  };
  for (int v = 0; v < 2; v++) {
    auto&  w  = v ? w2 : want;
    double sc = v ? penalty * gap : s;
    put(w, ids[4], -1, sc);
    put(w, ids[tri], b[0], sc);
    put(w, ids[(tri + 1) % 4], b[1], sc);
    for (int k = 0; k < 4; k++) put(w, ids[k], b[2] / 4, sc);
  }
  double tol = 1e-12 * penalty * std::fabs(gap) + 1e-300;
  auto   judge = [&](const double* f, const std::vector<double>& w, const char* how) {
    double worst = 0;
    for (int i = 0; i < 30; i++) worst = std::max(worst, std::fabs(f[i] - w[i]));
    if (!(worst <= tol)) {
      std::string t;
      for (int i = 0; i < 30; i++)
        if (!(std::fabs(f[i] - w[i]) <= tol)) t += " " + std::to_string(i / 3) + "/" + std::to_string(i % 3) + ": " + fmt(f[i]) + " not " + fmt(w[i]);
      x.violation(how, std::string(how) + ": forces (node/component)" + t.substr(0, 200) + " | " + name);
    }
    x.outcome(hash_dbl(f, 30));
  };
  double dir[3] = {n[0], n[1], n[2]}, cp[3] = {foot[0], foot[1], foot[2]};
  {
    nimble_kokkos::DeviceScalarNodeView f("f", 30);
    nimble::KokkosPenaltyContactEnforcement e;
    e.penalty               = penalty;
    e.contact_manager_force = f;
    CE  fa = face, no = node;
    e.EnforceContact(no, fa, share, gap, dir, cp);
    double h[30];
    for (int i = 0; i < 30; i++) h[i] = f(i);
    judge(h, want, "one contact");
    // again: adds the same
    e.EnforceContact(no, fa, share, gap, dir, cp);
    auto twice = want;
    for (double& t : twice) t *= 2;
    for (int i = 0; i < 30; i++) h[i] = f(i);
    judge(h, twice, "the same contact again");
    e.EnforceContact(no, fa, share, -gap, dir, cp);
    e.EnforceContact(no, fa, share, 0.0, dir, cp);
    for (int i = 0; i < 30; i++) h[i] = f(i);
    judge(h, twice, "no contact");
  }
  {
    std::vector<double> f(30, 0.0);
    nimble::PenaltyContactEnforcement e;
    e.penalty = penalty;
    CE fa     = face;
    double* fp = f.data();
    e.EnforceContact<double*>(node, fa, gap, dir, b, fp);
    judge(f.data(), w2, "one contact, host");
  }
  x.executions += 4;
  x.evaluations += 4;
}
// displacement k of a world: the second body moves, the first bends
static std::vector<V3>
displacement(const World& w, int k)
{
  std::vector<V3> u(w.m.X.size(), V3{{0, 0, 0}});
  double          dir = w.name.find("below") != std::string::npos ? 1 : -1;
  for (size_t i = w.skip; i < u.size(); i++) {
    bool first = i < w.skip + w.half, mover = dir > 0 ? first : !first;
    auto& X = w.m.X[i];
    if (k == 1 && mover) u[i] = {{0.011, -0.013, dir * 0.31}};
    if (k == 2 && mover) u[i] = {{0.21, 0.117, dir * 0.17}};
    if (k == 3) u[i] = mover ? V3{{-0.143, 0.031, dir * (0.25 + 0.1 * X[0])}} : V3{{0.02 * X[1], 0, 0.07 * X[0] * X[1]}};
    if (k == 4) u[i] = {{1.5, -0.25 + 0.03 * X[2], 0.5}};       // together, no contact
    if (k == 5 && mover) u[i] = {{0.05, 0.04, dir * 1.9}};      // through
    if (k == 6 && mover) u[i] = {{0.431, -0.37, dir * 0.093}};
  }
  return u;
}
static const int NU = 7;
static void
history(const World& w, const std::vector<int>& seq, double penalty, Ctx& x)
{
  std::string name = w.name + ", displacements";
  for (int k : seq) name += " " + std::to_string(k);
  auto          pf = skin(w.m, w.p), sf = skin(w.m, w.s);
  std::set<int> nodes;
  for (auto& f : sf) nodes.insert(f.n.begin(), f.n.end());
  Quiet               quiet;
  nimble::GenesisMesh g;
  load(g, w.m);
  nimble::Parser         parser;
  nimble::DataManager    dm(parser, g);
  nimble::ContactManager cm(std::make_shared<Brute>(), dm);
  cm.SetPenaltyParameter(penalty);
  cm.CreateContactEntities(g, *dm.GetVectorCommunicator(), w.p, w.s);
  auto u = dm.GetModelData()->GetVectorNodeData("displacement");
  auto f = dm.GetModelData()->GetVectorNodeData("contact_force");
  x.distinct(hash_str(name));
  x.sample(name);
  for (size_t step = 0; step < seq.size(); step++) {
    auto            d = displacement(w, seq[step]);
    std::vector<V3> cur(w.m.X);
    for (size_t i = 0; i < cur.size(); i++)
      for (int k = 0; k < 3; k++) {
        u(i, k) = d[i][k];
        cur[i][k] += d[i][k];
      }
    cm.ComputeContactForce((int)step + 1, false, f);
    std::vector<Hit> hs;
    x.executions++;
    x.transitions++;
    if (!hits(w, cur, hs, pf, nodes)) {
      x.count("too near to tell "+w.name);
      continue;
    }
    std::vector<V3> want(cur.size(), V3{{0, 0, 0}});
    deposit(hs, pf, penalty, want);
    x.count(hs.empty() ? "evaluations without contact" : "evaluations with contact");
    x.count("contacts", hs.size());
    for (size_t i = 0; i < cur.size(); i++)
      for (int k = 0; k < 3; k++) {
        x.evaluations++;
        if (!(std::fabs(f(i, k) - want[i][k]) <= 1e-11 * penalty)) {
          x.violation("force", "contact force " + fmt(f(i, k)) + " instead of " + fmt(want[i][k]) + " on node " + std::to_string(i + 1) + " component " + std::to_string(k) + " at evaluation " + std::to_string(step + 1) + " | " + name);
          return;
        }
      }
    std::vector<double> flat;
    for (auto& q : want) flat.insert(flat.end(), q.begin(), q.end());
    uint64_t h = hash_dbl(flat.data(), flat.size());
    x.state(h);
    x.outcome(h);
  }
}
// ---- whole runs
struct App : nimble::NimbleApplication
{
  std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override { return std::make_unique<Logging>(); }
};
struct RunCase
{
  World            w;
  ref::Deck        d;
  std::vector<int> part;
  int              np = 1;
  double           penalty;
  std::string      name;
};
static void
whole_run(const RunCase& c, Ctx& x)
{
  std::string dir   = scratch_dir("c19");
  auto        parts = c.np > 1 ? exo::split(c.w.m, c.part, c.np) : std::vector<exo::Mesh>{c.w.m};
  for (int p = 0; p < c.np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.w.m));
  x.executions++;
  x.transitions += c.d.steps;
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  auto o = e2e::run(dir, {"d.in"}, c.np, 60, {}, {}, [] { return std::unique_ptr<nimble::NimbleApplication>(new App); });
  if (!o.ok()) {
    x.violation("status", "the run ended with status " + std::to_string(o.status) + " " + o.log.substr(o.log.size() > 300 ? o.log.size() - 300 : 0) + " | " + c.name);
    remove_tree(dir);
    return;
  }
  size_t                           nn = c.w.m.X.size();
  std::vector<std::vector<Event>>  ev(c.d.steps + 1);
  std::vector<exo::Results>        res;
  for (int p = 0; p < c.np; p++) {
    std::string t = read_file(dir + "/events." + std::to_string(p));
    for (size_t i = 0; i + sizeof(Event) <= t.size(); i += sizeof(Event)) {
      Event e;
      memcpy(&e, &t[i], sizeof e);
      if (e.call <= c.d.steps) ev[e.call].push_back(e);
    }
    res.push_back(exo::read_results(dir + "/" + cases::piece("m.out.e", c.np, p)));
    if (!res[p].error.empty()) x.violation("results", res[p].error + " | " + c.name);
  }
  remove_tree(dir);
  auto          pf = skin(c.w.m, c.w.p), sf = skin(c.w.m, c.w.s);
  std::set<int> nodes;
  for (auto& f : sf) nodes.insert(f.n.begin(), f.n.end());
  std::set<V3> places;
  bool         close_nodes = false;
  V3           momentum0{{0, 0, 0}};
  auto         mass = ref::lumped_mass(c.w.m, c.d);
  for (int s = 0; s <= c.d.steps; s++) {
    std::vector<V3>  u(nn), a(nn), fi(nn), fc(nn), v(nn);
    std::vector<int> have(nn, 0);
    for (int p = 0; p < c.np; p++) {
      auto& r = res[p];
      if ((int)r.nodal.size() != c.d.steps + 1) {
        x.violation("planes", std::to_string(r.nodal.size()) + " time planes | " + c.name);
        return;
      }
      auto get = [&](const char* what, int k, int i) {
        int q = r.nv(std::string(what) + "_" + "xyz"[k]);
        return q < 0 ? std::nan("") : r.nodal[s][q][i];
      };
      for (size_t i = 0; i < parts[p].X.size(); i++) {
        int g = c.np > 1 ? parts[p].node_ids[i] - 1 : (int)i;
        for (int k = 0; k < 3; k++) {
          double f = get("contact_force", k, i);
          if (have[g] && std::fabs(f - fc[g][k]) > 1e-10 * c.penalty) x.violation("shared node", "processes hold contact forces " + fmt(f) + " and " + fmt(fc[g][k]) + " for one node | " + c.name);
          u[g][k]  = get("displacement", k, i);
          v[g][k]  = get("velocity", k, i);
          a[g][k]  = get("acceleration", k, i);
          fi[g][k] = get("internal_force", k, i);
          fc[g][k] = f;
        }
        have[g] = 1;
      }
    }
    std::vector<V3> cur(nn), want(nn, V3{{0, 0, 0}});
    for (size_t i = 0; i < nn; i++) cur[i] = add(c.w.m.X[i], u[i]);
    auto find = [&](const V3& p) {
      int    b = 0;
      double d = 1e300;
      for (size_t i = 0; i < nn; i++)
        if (len(sub(cur[i], p)) < d) d = len(sub(cur[i], p)), b = i;
      return d < 1e-9 ? b : -1;
    };
    std::set<std::array<int, 3>> pairs;
    for (auto& e : ev[s]) {
      int n = find(e.node), i = find(e.a), j = find(e.c), f = -1, t = -1;
      for (size_t k = 0; k < pf.size(); k++)
        for (int q = 0; q < 4; q++)
          if (pf[k].n[q] == i && pf[k].n[(q + 1) % 4] == j) {
            V3 m{{0, 0, 0}};
            for (int z : pf[k].n) m = add(m, mul(0.25, cur[z]));
            if (len(sub(m, e.m)) < 1e-9) f = k, t = q;
          }
      if (n < 0 || f < 0 || !nodes.count(n)) {
        x.violation("entity", "the search is given an entity that is not where the body is at step " + std::to_string(s) + " | " + c.name);
        return;
      }
      pairs.insert({{n, f, t}});
      V3 q = mul(c.penalty * e.gap / e.share, e.n);
      want[n] = sub(want[n], q);
      want[i] = add(want[i], mul(e.w[0], q));
      want[j] = add(want[j], mul(e.w[1], q));
      for (int z : pf[f].n) want[z] = add(want[z], mul(e.w[2] / 4, q));
    }
    x.count("contacts", ev[s].size());
    if (s && c.np == 1) {
      std::vector<Hit> hs;
      if (hits(c.w, cur, hs, pf, nodes)) {
        std::set<std::array<int, 3>> exp;
        for (auto& h : hs) exp.insert({{h.node, h.face, h.tri}});
        if (exp != pairs) x.violation("pairs", std::to_string(pairs.size()) + " contacts instead of " + std::to_string(exp.size()) + " at step " + std::to_string(s) + " | " + c.name);
      } else x.count("too near to tell");
    }
    V3 total{{0, 0, 0}}, mom{{0, 0, 0}};
    for (size_t i = 0; i < nn; i++) {
      total = add(total, fc[i]);
      mom   = add(mom, mul(mass[i], v[i]));
      for (int k = 0; k < 3; k++) {
        x.evaluations += 2;
        if (!(std::fabs(fc[i][k] - want[i][k]) <= 1e-9 * c.penalty)) {
          x.violation("force", "contact force " + fmt(fc[i][k]) + " instead of " + fmt(want[i][k]) + " on node " + std::to_string(i + 1) + " at step " + std::to_string(s) + " | " + c.name);
          return;
        }
        if (s) {
          double w = (fi[i][k] + fc[i][k]) / mass[i];
          if (!(std::fabs(a[i][k] - w) <= 1e-9 * (std::fabs(fi[i][k]) + c.penalty) / mass[i])) x.violation("acceleration", "acceleration " + fmt(a[i][k]) + " instead of " + fmt(w) + " at step " + std::to_string(s) + " | " + c.name);
        }
      }
    }
    if (!(len(total) <= 1e-9 * c.penalty)) x.violation("balance", "contact forces add up to " + show(total) + " at step " + std::to_string(s) + " | " + c.name);
    if (s == 0) momentum0 = mom;
    if (!(len(sub(mom, momentum0)) <= 1e-9 * (1 + len(momentum0)))) x.violation("momentum", "momentum " + show(mom) + " instead of " + show(momentum0) + " at step " + std::to_string(s) + " | " + c.name);
    std::vector<double> flat;
    for (auto& q : fc) flat.insert(flat.end(), q.begin(), q.end());
    x.outcome(hash_dbl(flat.data(), flat.size()));
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto qs = quads();
  // one contact: every quadrilateral, triangle, foot, gap, penalty, sharing and node naming
  {
    std::vector<std::array<double, 3>> feet;
    for (int i = 0; i <= 4; i++)
      for (int j = 0; i + j <= 4; j++) feet.push_back({{i / 4.0, j / 4.0, (4 - i - j) / 4.0}});
    const int names[4][5] = {{0, 1, 2, 3, 4}, {9, 3, 6, 0, 2}, {4, 2, 1, 8, 5}, {1, 0, 3, 2, 9}};
    blocks("one contact", qs.size() * 4 * 3, 8, [=](size_t i, Ctx& x) {
      Quad q   = qs[i / 12];
      int  tri = i / 3 % 4, how = i % 3;
      for (auto& p : q.p) p = local(p, how);
      x.distinct(hmix(i, 19));
      for (size_t f = 0; f < feet.size(); f++)
        for (double gap : {-1e-6, -0.25})
          for (double pen : {1.0, 3e7})
            for (int share = 1; share <= 3; share++) one_contact(q, tri, feet[f].data(), gap * (how == 2 ? 1e-4 : 1), pen, share, names[(i + f + share) % 4], "quadrilateral " + std::to_string(i / 12) + " triangle " + std::to_string(tri) + " placed " + std::to_string(how), x);
    });
  }
  // all histories of evaluations
  {
    auto   ws = worlds();
    int    depth = th ? 6 : 4;
    size_t n = 1;
    for (int i = 0; i < depth; i++) n *= NU;
    for (size_t w = 0; w < ws.size(); w++)
      blocks("histories, " + ws[w].name, n, 16, [=](size_t i, Ctx& x) {
        std::vector<int> seq;
        for (int k = 0; k < depth; k++, i /= NU) seq.push_back(i % NU);
        history(ws[w], seq, 50, x);
      });
  }
  std::vector<RunCase> cs;
  {
    auto ws = worlds();
    for (auto& w : worlds(true)) ws.push_back(w);
    std::vector<std::array<double, 3>> vs{{{0, 0, 3}}, {{0.7, -0.4, 4}}, {{-1.1, 0.9, 2.5}}, {{0, 0, -1}}};
    for (size_t w = 0; w < ws.size(); w++)
      for (size_t v = 0; v < vs.size(); v++)
        for (double pen : {1.0, 6.0})
          for (int np = 1; np <= (!vh::with_mpi ? 1 : th ? 4 : 3); np++) {
            auto&  m  = ws[w].m;
            int    ne = m.nelem();
            size_t nq = distributions(ws[w], np);
            for (size_t q = 0; q < nq; q++) {
              RunCase c;
              c.w = ws[w];
              c.np = np;
              std::set<int> used;
              for (int e = 0; e < ne; e++) {
                c.part.push_back(owner(ws[w], np, q, e));
                used.insert(c.part.back());
              }
              if ((int)used.size() < np) continue;
              if (np > 1) {
                for (size_t i = 0; i < m.X.size(); i++) c.w.m.node_ids.push_back(i + 1);
                for (int i = 0; i < ne; i++) c.w.m.elem_ids.push_back(i + 1);
              }
              // the bodies start apart and run into each other
              exo::NodeSet s;
              s.id = 1;
              bool below = c.w.name.find("below") != std::string::npos;
              for (size_t i = c.w.skip; i < m.X.size(); i++)
                if ((i < c.w.skip + c.w.half) == below) s.nodes.push_back(i);
              c.w.m.nsets = {s};
              auto cst = [](double z) { return [z](double, double, double, double) { return z; }; };
              for (int k = 0; k < 3; k++) {
                double z = (below ? 1 : -1) * vs[v][k];
                c.d.bcs.push_back({ref::BC::IV, "nodelist_1", k, fmt(z), cst(z)});
              }
              c.d.mats    = cases::materials();
              c.d.block_mat[7] = (int)(v % 4);
              c.d.block_mat[3] = (int)((v + 1) % 4);
              c.d.steps   = th ? 12 : 8;
              c.d.t1      = 0.02 * c.d.steps;
              c.d.fields  = {"displacement", "velocity", "acceleration", "internal_force", "contact_force"};
              c.penalty   = pen;
              std::string line = "contact: primary_blocks";
              for (int b : c.w.p) line += " block_" + std::to_string(b);
              line += " secondary_blocks";
              for (int b : c.w.s) line += " block_" + std::to_string(b);
              c.d.extra = line + " penalty_parameter " + fmt(pen) + "\n";
              c.name    = "run " + c.w.name + ", velocity " + std::to_string(v) + ", penalty " + fmt(pen) + ", processes";
              for (int p : c.part) c.name += " " + std::to_string(p);
              cs.push_back(c);
              if (q || pen > 1 || v) continue;
              // many short steps
              c.d.steps = 150;
              c.d.t1    = 0.3;
              c.name += ", 150 steps";
              cs.push_back(c);
            }
          }
  }
  Stage st;
  st.name         = "whole runs";
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { whole_run(cs[i], x); };
  st.case_timeout = 60;
  vh::run(st);
  return finish();
}
