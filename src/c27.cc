// C27: every quasistatic deck of a family of bodies, materials, conditions, load steps and solver settings; every plane written is checked against equilibrium computed independently.
#include <algorithm>

#include "bodies.h"

typedef ref::V3 V3;
typedef ref::BC B;
struct QCase
{
  exo::Mesh   m;
  ref::Deck   d;
  std::string name;
  double      tol    = 1e-6;
  bool        must   = false;  // has to succeed
  std::vector<int> freqs;      // further output frequencies
};
static B
cond(B::Type t, const std::string& set, int comp, const std::string& text, std::function<double(double, double, double, double)> f)
{
  B b;
  b.type = t, b.set = set, b.comp = comp, b.text = text, b.f = f;
  return b;
}
static B
cond(B::Type t, const std::string& set, int comp, double v)
{
  return cond(t, set, comp, fmt(v), [v](double, double, double, double) { return v; });
}
static const int NCOND = 15, BENIGN = 11;
// conditions on the sets lo_x (1), hi_x (2), lo_y (3), lo_z (4), all (5), corner (6), hi_edge (7)
static std::vector<B>
conditions(int k, double s)
{
  std::vector<B> r;
  auto clamp = [&](const std::string& set) {
    for (int i = 0; i < 3; i++) r.push_back(cond(B::PD, set, i, 0));
  };
  auto sc = fmt(s);
  switch (k) {
    case 0:  // pulled, the far face free sideways
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_x", 0, "\"" + sc + "*t\"", [s](double, double, double, double t) { return s * t; }));
      break;
    case 1:  // sheared at a given velocity
      clamp("lo_x");
      r.push_back(cond(B::PV, "hi_x", 1, s));
      break;
    case 2:  // planes of symmetry, pulled at a velocity that varies in time
      r.push_back(cond(B::PD, "lo_x", 0, 0));
      r.push_back(cond(B::PD, "lo_y", 1, 0));
      r.push_back(cond(B::PD, "lo_z", 2, 0));
      r.push_back(cond(B::PV, "hi_x", 0, "\"" + sc + "*cos(t)\"", [s](double, double, double, double t) { return s * std::cos(t); }));
      break;
    case 3:  // every component of every node given
      r.push_back(cond(B::PD, "all", 0, "\"" + sc + "*t*(x + y*z)\"", [s](double x, double y, double z, double t) { return s * t * (x + y * z); }));
      r.push_back(cond(B::PD, "all", 1, "\"" + sc + "*t*(x - y)\"", [s](double x, double y, double, double t) { return s * t * (x - y); }));
      r.push_back(cond(B::PV, "all", 2, "\"" + sc + "*(z + t)\"", [s](double, double, double z, double t) { return s * (z + t); }));
      break;
    case 4:  // one corner pushed
      clamp("lo_x");
      r.push_back(cond(B::PD, "corner", 2, "\"-" + sc + "*t\"", [s](double, double, double, double t) { return -s * t; }));
      break;
    case 5:  // twisted between two faces
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_x", 0, 0));
      r.push_back(cond(B::PD, "hi_x", 1, "\"" + sc + "*t*z\"", [s](double, double, double z, double t) { return s * t * z; }));
      r.push_back(cond(B::PD, "hi_x", 2, "\"-" + sc + "*t*y\"", [s](double, double y, double, double t) { return -s * t * y; }));
      break;
    case 6:  // conditions on the same components: the later ones take effect
      clamp("lo_x");
      r.push_back(cond(B::PV, "hi_x", 0, -s));
      r.push_back(cond(B::PV, "hi_edge", 0, 0.5 * s));
      r.push_back(cond(B::PV, "hi_edge", 0, s));
      r.push_back(cond(B::PD, "corner", 0, "\"" + sc + "*t\"", [s](double, double, double, double t) { return s * t; }));
      break;
    case 7:  // a displacement condition replaced by a velocity, and an initial velocity (which has no say here)
      r.push_back(cond(B::IV, "all", 0, 3.0));
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_x", 2, 0.7));
      r.push_back(cond(B::PV, "hi_x", 2, s));
      break;
    case 8:  // constant after the first step
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_x", 0, 0.3 * s));
      break;
    case 9:  // nothing is done to the body
      clamp("lo_x");
      break;
    case 10:  // pulled on the last nodes only
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_edge", 2, "\"" + sc + "*t^2\"", [s](double, double, double, double t) { return s * t * t; }));
      break;
    // below: success is not required
    case 11: break;  // no conditions
    case 12:         // free to move as a rigid body
      r.push_back(cond(B::PD, "lo_x", 0, 0));
      r.push_back(cond(B::PD, "hi_x", 0, "\"" + sc + "*t\"", [s](double, double, double, double t) { return s * t; }));
      break;
    case 13:  // crushed
      clamp("lo_x");
      r.push_back(cond(B::PD, "hi_x", 0, "\"-12*" + sc + "*t\"", [s](double, double, double, double t) { return -12 * s * t; }));
      break;
    case 14:  // turned inside out
      clamp("lo_x");
      r.push_back(cond(B::PD, "corner", 0, "\"-30*" + sc + "*t\"", [s](double, double, double, double t) { return -30 * s * t; }));
      r.push_back(cond(B::PD, "hi_edge", 1, "\"9*" + sc + "*t\"", [s](double, double, double, double t) { return 9 * s * t; }));
      break;
  }
  return r;
}
static void
sets(exo::Mesh& m)
{
  exo::NodeSet n[7];
  const char*  nm[7] = {"lo_x", "hi_x", "lo_y", "lo_z", "all", "corner", "hi_edge"};
  V3           hi = m.X[0];
  for (auto& p : m.X)
    for (int i = 0; i < 3; i++) hi[i] = std::max(hi[i], p[i]);
  for (int i = 0; i < 7; i++) n[i].id = 10 + i, n[i].name = nm[i];
  for (int i = 0; i < (int)m.X.size(); i++) {
    auto& p = m.X[i];
    if (p[0] == 0) n[0].nodes.push_back(i);
    if (p[0] == hi[0]) n[1].nodes.push_back(i);
    if (p[1] == 0) n[2].nodes.push_back(i);
    if (p[2] == 0) n[3].nodes.push_back(i);
    n[4].nodes.push_back(i);
    if (p == hi) n[5].nodes.push_back(i);
    if (p[0] == hi[0] && p[2] == hi[2]) n[6].nodes.push_back(i);
  }
  m.nsets.assign(n, n + 7);
}
static exo::Mesh
reorder(const exo::Mesh& m, const std::vector<int>& to)
{
  exo::Mesh r = m;
  for (size_t i = 0; i < to.size(); i++) r.X[to[i]] = m.X[i];
  for (auto& b : r.blocks)
    for (auto& c : b.conn)
      for (int& v : c) v = to[v];
  for (auto& s : r.nsets)
    for (int& v : s.nodes) v = to[v];
  return r;
}
// orders of the nodes: as they are, the other way round, along the body, against it
static std::vector<int>
order(const exo::Mesh& m, int k)
{
  int              n = m.X.size();
  std::vector<int> at(n), to(n);
  for (int i = 0; i < n; i++) at[i] = k == 1 ? n - 1 - i : i;
  if (k >= 2) std::stable_sort(at.begin(), at.end(), [&](int a, int b) { return k == 2 ? m.X[a][0] < m.X[b][0] : m.X[a][0] > m.X[b][0]; });
  for (int i = 0; i < n; i++) to[at[i]] = i;
  return to;
}
struct State
{
  std::vector<V3>             f;
  std::vector<ref::ElemState> e;
  double                      scale = 0;
  bool                        bad   = false;
};
static State
forces(const QCase& c, const std::vector<V3>& u)
{
  State s;
  s.f.assign(u.size(), V3{{0, 0, 0}});
  for (auto& b : c.m.blocks) {
    auto& mat = c.d.mats[c.d.block_mat.count(b.id) ? c.d.block_mat.at(b.id) : 0];
    for (auto& e : b.conn) {
      std::array<V3, 8> X, U, F;
      for (int i = 0; i < 8; i++) X[i] = c.m.X[e[i]], U[i] = u[e[i]];
      ref::ElemState q;
      ref::element(X, U, mat, q, F);
      for (int i = 0; i < 8; i++)
        for (int k = 0; k < 3; k++) {
          s.f[e[i]][k] += F[i][k];
          s.scale = std::max(s.scale, std::fabs(F[i][k]));
          if (!std::isfinite(F[i][k])) s.bad = true;
        }
      s.e.push_back(q);
    }
  }
  return s;
}
// applies the conditions at the end of a step; which components are given
static std::vector<std::array<bool, 3>>
apply(const QCase& c, std::vector<V3>& u, double t, double dt)
{
  auto                             old = u;
  std::vector<std::array<bool, 3>> fixed(u.size(), {{false, false, false}});
  for (auto& b : c.d.bcs) {
    if (b.type == B::IV) continue;
    for (auto& s : c.m.nsets)
      if (s.name == b.set)
        for (int n : s.nodes) {
          double v            = b.f(c.m.X[n][0], c.m.X[n][1], c.m.X[n][2], t);
          fixed[n][b.comp]    = true;
          u[n][b.comp]        = b.type == B::PD ? v : old[n][b.comp] + v * dt;
        }
  }
  return fixed;
}
static std::vector<V3>
vec(const exo::Results& r, size_t s, const std::string& f)
{
  std::vector<V3> v(r.nn, V3{{0, 0, 0}});
  const char*     C[3] = {"_x", "_y", "_z"};
  for (int k = 0; k < 3; k++) {
    int i = r.nv(f + C[k]);
    if (i < 0 || (int)r.nodal[s][i].size() != r.nn) return {};
    for (int n = 0; n < r.nn; n++) v[n][k] = r.nodal[s][i][n];
  }
  return v;
}
static void
one(const QCase& c, Ctx& x)
{
  static const char* FULL[9] = {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx", "_yx", "_zy", "_xz"};
  static const int   RM[9]   = {0, 4, 8, 1, 5, 6, 3, 7, 2};  // place in a row-major matrix
  std::string        dir     = scratch_dir("qs");
  if (!exo::write_genesis(dir + "/m.g", c.m).empty()) _exit(3);
  auto say = [&](const std::string& key, const std::string& what) { x.violation(key, what + " | " + c.name); };
  exo::Results first;
  bool         success = false;
  double       stiff   = 0;
  for (auto& mt : c.d.mats) stiff = std::max(stiff, mt.K + mt.G);
  for (size_t run = 0; run <= c.freqs.size(); run++) {
    auto d = c.d;
    if (run) d.freq = c.freqs[run - 1];
    write_file(dir + "/d.in", ref::deck_text(d, c.m));
    x.executions++;
    auto o = e2e::run(dir, {"d.in"});
    auto r = exo::read_results(dir + "/m.out.e");
    remove((dir + "/m.out.e").c_str());
    if (run == 0) {
      success = o.ok();
      x.count(success ? "runs that succeeded" : "runs that reported failure");
      if (!success && c.must) say("gave up", "the run ended with status " + std::to_string(o.status));
      // a body turned inside out may end the run at once
      bool refused = (o.status == -6 || o.status == 134) && o.log.find("NIMBLE_ASSERT") != std::string::npos;
      if (!success && !refused && (o.status < 0 || o.status >= 128)) say("status", "the run ended with status " + std::to_string(o.status) + ": " + o.log.substr(o.log.size() > 200 ? o.log.size() - 200 : 0));
      if (!success && o.log.find("failed") == std::string::npos && o.log.find("rror") == std::string::npos) say("message", "the run ended with status " + std::to_string(o.status) + " and no message");
      if (!r.error.empty()) {
        say("results", r.error);
        break;
      }
      first = r;
    } else {
      // the same planes at another output frequency
      if (o.ok() != success) say("frequency", "with output every " + std::to_string(d.freq) + " steps the run ends with status " + std::to_string(o.status));
      if (!success) continue;
      std::vector<int> want{0};
      for (int k = 0; d.freq && k < d.steps; k++)
        if (k % d.freq == 0 || k == d.steps - 1) want.push_back(k + 1);
      if (r.times.size() != want.size()) say("planes", std::to_string(r.times.size()) + " planes with output every " + std::to_string(d.freq) + " steps");
      else
        for (size_t s = 0; s < want.size(); s++)
          if (r.times[s] != first.times[want[s]] || r.nodal[s] != first.nodal[want[s]] || r.elem[s] != first.elem[want[s]]) say("frequency", "plane " + std::to_string(want[s]) + " differs with output every " + std::to_string(d.freq) + " steps");
      continue;
    }
    // every plane
    size_t np = d.steps + 1;
    if (success ? r.times.size() != np : r.times.size() > np) {
      say("planes", std::to_string(r.times.size()) + " planes");
      break;
    }
    double          dt = (d.t1 - d.t0) / d.steps;
    std::vector<V3> u0(c.m.X.size(), V3{{0, 0, 0}});
    for (size_t s = 0; s < r.times.size(); s++) {
      std::string at = "step " + std::to_string(s) + ": ";
      auto        u = vec(r, s, "displacement"), f = vec(r, s, "internal_force");
      if (u.empty() || f.empty()) {
        say("columns", "no displacements or forces");
        break;
      }
      for (int n = 0; n < r.nn; n++)
        for (int k = 0; k < 3; k++)
          if (!std::isfinite(u[n][k]) || !std::isfinite(f[n][k])) {
            say("not a number", at + "a value that is not a number");
            n = r.nn - 1;
            break;
          }
      double t = d.t0 + s * dt;
      if (!vh::close(r.times[s], t, 1e-12, 1e-14)) say("times", at + "written as time " + fmt(r.times[s]));
      auto start = u0;
      auto fixed = s ? apply(c, start, t, dt) : std::vector<std::array<bool, 3>>(u.size(), {{false, false, false}});
      auto R0    = forces(c, start);
      auto q     = forces(c, u);
      x.state(hash_dbl(u[0].data(), 3 * u.size()));
      double l2 = 0, mx = 0, worst = 0, scale = std::max(q.scale, 0.1 * stiff);
      int    wn = 0, wk = 0;
      for (int n = 0; n < r.nn; n++)
        for (int k = 0; k < 3; k++) {
          x.evaluations++;
          if (fixed[n][k]) {
            if (!vh::close(u[n][k], start[n][k], 1e-12, 1e-14)) say("prescribed", at + "component " + std::to_string(k) + " of node " + std::to_string(n) + " is " + fmt(u[n][k]) + " instead of " + fmt(start[n][k]));
          } else {
            l2 += R0.f[n][k] * R0.f[n][k];
            mx = std::max(mx, std::fabs(R0.f[n][k]));
            if (!(std::fabs(q.f[n][k]) <= worst)) worst = std::fabs(q.f[n][k]), wn = n, wk = k;
          }
          if (!s && u[n][k] != 0) say("start", "displacement " + fmt(u[n][k]) + " at the start");
          if (s && !vh::close(f[n][k], q.f[n][k], 1e-8, 1e-11 * scale)) say("force", at + "internal force " + std::to_string(k) + " of node " + std::to_string(n) + " is " + fmt(f[n][k]) + " instead of " + fmt(q.f[n][k]));
        }
      // (a start that cannot be evaluated has no residual to be relative to)
      if (R0.bad) x.count("steps without a starting residual");
      double limit = c.tol * (std::sqrt(l2) + 20 * mx);
      if (s && (q.bad || !(worst <= limit * (1 + 1e-6) + 1e-13 * scale)))
        say("equilibrium", at + "out of balance by " + fmt(worst) + " at component " + std::to_string(wk) + " of node " + std::to_string(wn) + ", allowed " + fmt(limit));
      if (s) x.count("steps in equilibrium"), x.transitions++;
      // element data belong to these displacements
      int e = 0;
      for (size_t b = 0; b < r.block_ids.size(); b++)
        for (int i = 0; i < r.block_n[b]; i++, e++) {
          auto cmp = [&](const std::string& col, double want, double scl) {
            int v = r.ev(col);
            if (v < 0 || (int)r.elem[s][b][v].size() != r.block_n[b]) {
              say("columns", "no column " + col);
              return;
            }
            double have = r.elem[s][b][v][i];
            x.evaluations++;
            if (!vh::close(have, want, 1e-8, 1e-11 * scl)) say("element data", at + col + " of element " + std::to_string(e) + " is " + fmt(have) + " instead of " + fmt(want));
          };
          auto& st = q.e[e];
          auto& mt = c.d.mats[c.d.block_mat.count(r.block_ids[b]) ? c.d.block_mat.at(r.block_ids[b]) : 0];
          cmp("volume", st.vol, 1);
          for (int k = 0; k < 9; k++) {
            cmp(std::string("deformation_gradient") + FULL[k], st.Favg[RM[k]], 1);
            cmp(std::string("ipt08_deformation_gradient") + FULL[k], st.F[7][RM[k]], 1);
          }
          for (int k = 0; k < 6; k++) {
            cmp(std::string("stress") + FULL[k], st.Savg[k], mt.K + mt.G);
            cmp(std::string("ipt02_stress") + FULL[k], st.S[1][k], mt.K + mt.G);
          }
        }
      u0 = u;
    }
  }
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  remove_tree(dir);
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool               th = opt.thorough();
  std::vector<QCase> cs;
  struct G { int nx, ny, nz, nb; };
  std::vector<G> gs = {{1, 1, 1, 1}, {2, 1, 1, 2}, {3, 1, 1, 2}, {2, 2, 1, 2}, {4, 1, 1, 1}};
  if (th) gs = {{1, 1, 1, 1}, {2, 1, 1, 3}, {3, 1, 1, 3}, {2, 2, 1, 2}, {1, 1, 4, 2}, {2, 2, 2, 1}, {4, 1, 1, 1}};
  auto mats = cases::materials();
  struct S { int steps; double tol; int maxit; };
  std::vector<S> ss = {{1, 1e-6, 200}, {3, 1e-6, 200}, {2, 1e-2, 200}, {2, 1e-9, 200}, {1, 1e-6, 1}, {2, 1e-6, 2}, {2, 1e-6, 4}};
  for (auto& g : gs) {
    int ne = g.nx * g.ny * g.nz, na = 1;
    for (int i = 0; i < ne; i++) na *= g.nb;
    for (int a = 0; a < na; a++)
      for (int k = 0; k < NCOND; k++)
        for (int law = 0; law < (g.nb == 1 ? 4 : 2); law++)
          for (size_t s = 0; s < ss.size(); s++) {
            int num = (a + k + law + s) % 6, dis = (a + law + k + s) % 3;
            // quick: one block assignment runs all settings, the others two
            if (!th && a && s > 1) continue;
            if (th && ne == 8 && s > 3) continue;
            QCase            c;
            std::vector<int> blk, ids = {7, 3, 5};
            ids.resize(g.nb);
            for (int i = 0, t = a; i < ne; i++, t /= g.nb) blk.push_back(t % g.nb);
            auto m = exo::assign_blocks(exo::grid(g.nx, g.ny, g.nz), blk, ids);
            sets(m);
            static const int ORDER[6] = {0, 1, 0, 1, 2, 3};
            c.m = reorder(cases::distort(m, dis), order(m, ORDER[num]));
            bool loose = law == 3 && s < 2 && k < 4;
            if (loose) {
              // a node of no element, first or last
              c.m.X.push_back({{9, 9, 9}});
              if (s == 0) {
                std::vector<int> to;
                for (size_t i = 0; i + 1 < c.m.X.size(); i++) to.push_back(i + 1);
                to.push_back(0);
                c.m = reorder(c.m, to);
              }
            }
            int n = c.m.X.size();
            for (int i = 0; (num == 2 || num == 3 || num == 5) && i < n; i++) c.m.node_ids.push_back(num == 2 ? 7 * i + 130 : n - i);
            c.d.mats = mats;
            for (int b = 0; b < g.nb; b++) c.d.block_mat[ids[b]] = (law + b) % 4;
            c.d.steps  = ss[s].steps;
            c.d.t1     = 1;
            c.d.freq   = 1;
            c.d.bcs    = conditions(k, 0.08);
            c.d.fields = {"displacement", "internal_force", "volume", "deformation_gradient", "stress", "ipt08_deformation_gradient", "ipt02_stress"};
            c.tol      = ss[s].tol;
            c.d.extra  = "time integration scheme: quasistatic\n";
            if (c.tol != 1e-6) c.d.extra += "nonlinear solver relative tolerance: " + fmt(c.tol) + "\n";
            if (ss[s].maxit != 200) c.d.extra += "nonlinear solver maximum iterations: " + std::to_string(ss[s].maxit) + "\n";
            // (a tolerance relative to rounding errors may be out of reach)
            c.must = k < BENIGN && !loose && k != 9 && (k != 8 || c.d.steps == 1) && ss[s].maxit == 200 && c.tol >= 1e-6;
            if (s == 1) c.freqs = {2, 3, 0};
            c.name = "grid " + std::to_string(g.nx) + "x" + std::to_string(g.ny) + "x" + std::to_string(g.nz) + " blocks";
            for (int b : blk) c.name += " " + std::to_string(b);
            if (loose) c.name += " loose node";
            c.name += " distortion " + std::to_string(dis) + " numbering " + std::to_string(num) + " materials " + std::to_string(law) + " conditions " + std::to_string(k) + " steps " + std::to_string(ss[s].steps) + " tolerance " + fmt(c.tol) + " iterations " + std::to_string(ss[s].maxit);
            cs.push_back(c);
          }
  }
  // more elements, blocks and steps
  struct L { int nx, ny, nz, nb, steps; };
  for (auto& g : {L{3, 3, 3, 1, 2}, L{8, 1, 1, 8, 2}, L{12, 2, 1, 12, 1}, L{5, 5, 1, 3, 1}, L{1, 1, 1, 1, 60}, L{2, 1, 1, 2, 25}})
    for (int k = 0; k < BENIGN; k++) {
      if (k == 8) continue;
      QCase            c;
      std::vector<int> blk, ids;
      int              ne = g.nx * g.ny * g.nz;
      for (int b = 0; b < g.nb; b++) ids.push_back(b * 5 % 37 + 1);
      for (int e = 0; e < ne; e++) blk.push_back((e * 5 + k) % g.nb);
      auto m = exo::assign_blocks(cases::wavy(exo::grid(g.nx, g.ny, g.nz)), blk, ids);
      sets(m);
      c.m      = k % 2 ? reorder(m, order(m, 2)) : m;
      c.d.mats = mats;
      for (int b = 0; b < g.nb; b++) c.d.block_mat[ids[b]] = (k + b) % 4;
      c.d.steps  = g.steps;
      c.d.t1     = 1;
      c.d.freq   = 1;
      c.d.bcs    = conditions(k, 0.08);
      c.d.fields = {"displacement", "internal_force", "volume", "deformation_gradient", "stress", "ipt08_deformation_gradient", "ipt02_stress"};
      c.tol      = 1e-6;
      c.d.extra  = "time integration scheme: quasistatic\n";
      c.must     = (ne == 1 && k != 9) || k == 1 || k == 3 || k == 5 || k == 7;  // (the solver may give up on slender bodies)
      c.name     = "large: " + std::to_string(ne) + " elements in " + std::to_string(g.nb) + " blocks, " + std::to_string(g.steps) + " steps, conditions " + std::to_string(k);
      cs.push_back(c);
    }
  Stage st;
  st.name         = "decks";
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { one(cs[i], x); };
  st.case_timeout = 120;
  st.chunk        = 4;
  vh::run(st);
  // on several processes, where there is no quasistatic solution: refused on each, and nothing said to be a success
  std::vector<QCase> ps;
  for (int k = 0; k < NCOND; k++)
    for (int np = 2; np <= 3; np++) {
      QCase c;
      c.m = exo::grid(3, 1, 1);
      sets(c.m);
      for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
      c.m.elem_ids = {1, 2, 3};
      c.d.t1 = 1, c.d.steps = np, c.d.bcs = conditions(k, 0.08), c.d.fields = {"displacement"};
      c.d.extra = "time integration scheme: quasistatic\n";
      c.name    = "conditions " + std::to_string(k) + " on " + std::to_string(np) + " processes";
      c.freqs   = {np};
      ps.push_back(c);
    }
  Stage pt;
  pt.name     = "processes";
  pt.n        = ps.size();
  pt.describe = [&](size_t i) { return ps[i].name; };
  pt.fn       = [&](size_t i, Ctx& x) {
    auto&       c   = ps[i];
    int         np  = c.freqs[0];
    std::string dir = scratch_dir("qp");
    auto        m   = exo::split(c.m, np == 2 ? std::vector<int>{0, 1, 1} : std::vector<int>{2, 0, 1}, np);
    for (int p = 0; p < np; p++)
      if (!exo::write_genesis(dir + "/" + cases::piece("m.g", np, p), m[p]).empty()) _exit(3);
    write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
    auto o = e2e::run(dir, {"d.in"}, np);
    x.executions++, x.evaluations += np, x.distinct(hash_str(c.name));
    for (int p = 0; p < np; p++)
      if (p < (int)o.rank_status.size() && o.rank_status[p] == 0) x.violation("processes", "process " + std::to_string(p) + " reports success | " + c.name);
    if (o.log.find("rror") == std::string::npos && o.log.find("uasi") == std::string::npos) x.violation("processes", "no message | " + c.name);
    for (int p = 0; p < np; p++) {
      auto r = exo::read_results(dir + "/" + cases::piece("m.out.e", np, p));
      if (r.error.empty() && r.times.size() > 1) x.violation("processes", "results of " + std::to_string(r.times.size()) + " planes | " + c.name);
    }
    remove_tree(dir);
  };
  pt.case_timeout = 60;
  vh::run(pt);
  return finish();
}
