// C05: every short sequence of conditions; a body without stiffness, so that each component's motion follows from its conditions alone.
#include <unistd.h>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using namespace cases;
typedef std::function<double(double, double, double, double)> Fn;

struct Sym { int type, set, comp, val; };
static const char* TY[] = {"initial_velocity", "prescribed_velocity", "prescribed_displacement"};
struct Case
{
  std::vector<Sym> c;
  double           t0 = 0, t1 = 0.3;
  int              steps = 2, freq = 1, mesh = 0;
};
static exo::Mesh meshes[3];

static Fn
value(const Sym& s, int i, std::string& text)
{
  char   b[160];
  double k = 0.25 + 0.5 * (i % 3) + 0.0625 * s.comp;
  if (s.val == 0) {
    snprintf(b, sizeof b, "%.17g", i % 3 == 1 ? -k : k);
    text = b;
    return [=](double, double, double, double) { return i % 3 == 1 ? -k : k; };
  }
  if (s.type == 0) {
    snprintf(b, sizeof b, "\"%.17g*x - y*z + %.17g\"", k, k);
    text = b;
    return [=](double x, double y, double z, double) { return k * x - y * z + k; };
  }
  if (s.val == 1) {
    snprintf(b, sizeof b, "\"%.17g*x + t*(y - %.17g*z) + cos(t)\"", k, k);
    text = b;
    return [=](double x, double y, double z, double t) { return k * x + t * (y - k * z) + std::cos(t); };
  }
  snprintf(b, sizeof b, "\"t\"");
  text = b;
  return [=](double, double, double, double t) { return t; };
}

static std::string
describe(const Case& c)
{
  std::string s;
  for (size_t i = 0; i < c.c.size(); i++) {
    std::string t;
    value(c.c[i], i, t);
    s += (i ? "; " : "") + std::string(TY[c.c[i].type]) + " " + ref::set_name(meshes[c.mesh], c.c[i].set) + " " + "xyz"[c.c[i].comp] + " " + t;
  }
  return s + (c.t0 != 0 || c.steps != 2 || c.freq != 1 ? " | from " + fmt(c.t0) + " to " + fmt(c.t1) + " in " + std::to_string(c.steps) + " steps, output every " + std::to_string(c.freq) : "");
}

static void
check(const Case& c, Ctx& x)
{
  std::string dir = scratch_dir("c05");
  const exo::Mesh& m = meshes[c.mesh];
  ref::Deck d;
  d.mats[0].law = "elastic";
  d.mats[0].K   = 1e-13;
  d.mats[0].G   = 1e-13;
  d.t0 = c.t0;
  d.t1 = c.t1;
  d.steps  = c.steps;
  d.freq   = c.freq;
  d.fields = {"displacement", "velocity"};
  std::vector<Fn> fs;
  for (size_t i = 0; i < c.c.size(); i++) {
    ref::BC b;
    b.type = (ref::BC::Type)c.c[i].type;
    b.set  = ref::set_name(m, c.c[i].set);
    b.comp = c.c[i].comp;
    fs.push_back(value(c.c[i], i, b.text));
    d.bcs.push_back(b);
  }
  std::string e = exo::write_genesis(dir + "/m.g", m);
  if (!e.empty()) _exit(3);
  write_file(dir + "/d.in", ref::deck_text(d, m));
  std::string nm = describe(c);
  auto o = e2e::run(dir, {"d.in"});
  x.executions++;
  x.evaluations++;
  x.transitions += c.steps;
  x.distinct(hash_str(nm));
  x.sample(nm);
  if (!o.ok()) {
    x.violation("status", "the run ended with status " + std::to_string(o.status) + " | " + nm);
    remove_tree(dir);
    return;
  }
  auto r = exo::read_results(dir + "/m.out.e");
  remove_tree(dir);
  if (!r.error.empty()) {
    x.violation("unreadable", r.error + " | " + nm);
    return;
  }
  for (size_t s = 0; s < r.times.size(); s++) {
    double t = r.times[s];
    for (int k = 0; k < 3; k++) {
      int vu = r.nv(std::string("displacement_") + "xyz"[k]), vv = r.nv(std::string("velocity_") + "xyz"[k]);
      if (vu < 0 || vv < 0) {
        x.violation("variables", "the motion is not in the results file | " + nm);
        return;
      }
      for (int i = 0; i < r.nn; i++) {
        int iv = -1, pv = -1, pd = -1;
        for (size_t q = 0; q < c.c.size(); q++) {
          if (c.c[q].comp != k) continue;
          bool in = false;
          for (int n : m.nsets[c.c[q].set].nodes) in |= n == i;
          if (!in) continue;
          if (c.c[q].type == 0) iv = q;
          if (c.c[q].type == 1) pv = q;
          if (c.c[q].type == 2) pd = q;
        }
        auto   at = [&](int q, double tt) { return fs[q](m.X[i][0], m.X[i][1], m.X[i][2], tt); };
        double u = r.nodal[s][vu][i], v = r.nodal[s][vv][i];
        std::string who = " of node " + std::to_string(i) + " at time " + fmt(t) + " is ";
        if (s == 0) {
          // the start: prescribed velocities hold, then initial velocities
          double w = pv >= 0 ? at(pv, t) : iv >= 0 ? at(iv, 0) : 0;
          if (!close(v, w, 1e-11, 1e-13)) x.violation(pv >= 0 ? "velocity at the start" : "initial velocity", std::string("velocity_") + "xyz"[k] + who + fmt(v) + ", prescribed " + fmt(w) + " | " + nm);
          if (u != 0) x.violation("start", std::string("displacement_") + "xyz"[k] + who + fmt(u) + " at the start | " + nm);
        } else if (pv >= 0 && pv > pd) {
          double w = at(pv, t);
          if (!close(v, w, 1e-11, 1e-13)) x.violation("prescribed velocity", std::string("velocity_") + "xyz"[k] + who + fmt(v) + ", prescribed " + fmt(w) + " | " + nm);
        } else if (pd >= 0) {
          double w = at(pd, t);
          if (!close(u, w, 1e-10, 1e-11)) x.violation("prescribed displacement", std::string("displacement_") + "xyz"[k] + who + fmt(u) + ", prescribed " + fmt(w) + " | " + nm);
        } else {
          double w = iv >= 0 ? at(iv, 0) : 0;
          if (!close(v, w, 1e-9, 1e-9) || !close(u, w * (t - c.t0), 1e-9, 1e-9))
            x.violation("unconstrained", std::string("component ") + "xyz"[k] + who + "moved to " + fmt(u) + " with velocity " + fmt(v) + ", expected free motion at " + fmt(w) + " | " + nm);
        }
      }
    }
    uint64_t h = s;
    for (auto& v : r.nodal[s]) h = hash_dbl(v.data(), v.size(), h);
    x.state(h);
    x.outcome(h);
  }
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  meshes[0] = distort(exo::grid(2, 1, 1), 1);
  sets(meshes[0]);
  exo::NodeSet e;
  e.id    = 9;
  e.name  = "edge";
  e.nodes = {3, 4, 5};
  meshes[0].nsets.push_back(e);
  meshes[1] = distort(exo::grid(1, 2, 1), 2);
  sets(meshes[1]);
  meshes[1].nsets[0].name = "all";
  meshes[1].nsets[1].id   = 30;
  meshes[1].nsets[2].name = "left";
  e.id    = 2;
  e.name  = "left_2";
  e.nodes = {7, 0, 4, 9};
  meshes[1].nsets.push_back(e);
  e.id    = 17;
  e.name  = "nothing";
  e.nodes = {};
  meshes[1].nsets.push_back(e);
  std::vector<Sym> A, B;
  for (int ty = 0; ty < 3; ty++)
    for (int s = 0; s < 4; s++)
      for (int k = 0; k < 3; k++)
        for (int v = 0; v < 2; v++) A.push_back({ty, s, k, v});
  for (int ty = 0; ty < 3; ty++)
    for (int s : {0, 1, 3})
      for (int k = 0; k < (th ? 3 : 2); k++) {
        B.push_back({ty, s, k, 0});
        if (th && k != 2) B.push_back({ty, s, k, 2});
      }
  std::vector<Case> cs;
  cs.push_back(Case());
  for (auto& a : A)
    for (int mesh = 0; mesh < 2; mesh++) {
      Case c;
      c.mesh = mesh;
      c.c    = {a};
      cs.push_back(c);
    }
  for (auto& a : A)
    for (auto& b : A) {
      if (!th && a.comp != b.comp && a.val != b.val) continue;
      Case c;
      c.c    = {a, b};
      c.mesh = (a.set + b.set + a.comp + b.type) % 2;
      cs.push_back(c);
    }
  for (auto& a : B)
    for (auto& b : B)
      for (auto& d : B) {
        Case c;
        c.c = {a, b, d};
        cs.push_back(c);
      }
  // the empty set, time windows, step counts and output frequencies
  for (auto& a : A) {
    Case c;
    c.mesh = 1;
    c.c    = {{a.type, 4, a.comp, a.val}, {a.type, a.set, a.comp, a.val}};
    cs.push_back(c);
    for (double t0 : {0.0, 0.5, -1.25})
      for (int steps : {1, 3, 5})
        for (int freq : {1, 2}) {
          if (a.val == 0 && t0 != 0.5) continue;
          Case q;
          q.c     = {a};
          q.t0    = t0;
          q.t1    = t0 + 0.7;
          q.steps = steps;
          q.freq  = freq;
          cs.push_back(q);
        }
  }
  // many conditions over many sets of many nodes, and many steps
  meshes[2] = large()[3].m;
  for (auto& p : meshes[2].X)
    for (auto& q : p) q *= 20;
  for (int n : {12, 37, 70}) {
    Case c;
    c.mesh = 2;
    c.t1   = 0.002;
    for (int i = 0; i < n; i++) {
      int ty = i * 2 % 3;
      c.c.push_back({ty, (i * 5 + 1) % (int)meshes[2].nsets.size(), i / 3 % 3, ty == 2 ? i % 2 * 2 : i % 2});
    }
    cs.push_back(c);
  }
  for (int n : {101, 640, 1300}) {
    Case c;
    c.c     = {{0, 0, 1, 1}, {1, 1, 0, 1}, {2, 2, 2, 2}, {1, 3, 1, 0}};
    c.steps = n;
    c.freq  = n / 40;
    cs.push_back(c);
  }
  Stage st;
  st.name     = "sequences";
  st.n        = cs.size();
  st.describe = [&](size_t i) { return describe(cs[i]); };
  st.fn       = [&](size_t i, Ctx& x) { check(cs[i], x); };
  st.chunk    = 32;
  vh::run(st);

  // conditions that must be refused: every kind with every defect
  std::vector<std::string> bad;
  for (std::string ty : {"initial_velocity", "prescribed_velocity", "prescribed_displacement"})
    for (std::string set : {"nodelist_1", "edge"}) {
      for (std::string k : {"w", "xy", "1", "radial", "n", "0", "-"}) {
        bad.push_back(ty + " " + set + " " + k + " 1.0");
        bad.push_back(ty + " " + set + " " + k + " \"t\"");
      }
      bad.push_back(ty + " " + set);
      bad.push_back(ty + " " + set + " 1.0");
      bad.push_back(ty + " " + set + " \"t\"");
      bad.push_back(ty + " " + set + " x");
      bad.push_back(ty + " " + set + " x fast");
      bad.push_back(ty + " " + set + " x t");
      bad.push_back(ty + " " + set + " x \"t");
      bad.push_back(ty + " " + set + " x \"t\" \"x\"");
      bad.push_back(ty + " " + set + " x \"t +\"");
      bad.push_back(ty + " " + set + " x \"q\"");
      bad.push_back(ty + " " + set + " x \"sin(t\"");
      bad.push_back(ty + " " + set + " x \"t)\"");
      bad.push_back(ty + " " + set + " x \"\"");
    }
  for (std::string ty : {"fixed", "velocity", "prescribed", "prescribed_velocities", "initial_displacement", "prescribed_acceleration", "1"}) bad.push_back(ty + " nodelist_1 x 1.0");
  bad.push_back("prescribed_velocity");
  Stage sb;
  sb.name     = "refused";
  sb.n        = bad.size() * 2;
  sb.describe = [&](size_t i) { return bad[i / 2] + (i % 2 ? " after a good condition" : ""); };
  sb.fn       = [&](size_t i, Ctx& x) {
    std::string dir = scratch_dir("c05b");
    const exo::Mesh& m = meshes[0];
    ref::Deck d;
    d.steps  = 1;
    d.fields = {"displacement", "velocity"};
    if (i % 2) d.extra = "boundary condition: prescribed_velocity nodelist_2 y 0.5\n";
    d.extra += "boundary condition: " + bad[i / 2] + "\n";
    if (!exo::write_genesis(dir + "/m.g", m).empty()) _exit(3);
    write_file(dir + "/d.in", ref::deck_text(d, m));
    auto o = e2e::run(dir, {"d.in"});
    x.executions++;
    x.evaluations++;
    x.distinct(hash_str(sb.describe(i)));
    x.count("refused conditions");
    if (o.status == 0) x.violation("accepted " + bad[i / 2], "the run accepted the condition \"" + bad[i / 2] + "\"");
    remove_tree(dir);
  };
  sb.chunk = 8;
  vh::run(sb);
  note("bounds", th ? "all sequences of 1 and 2 of 72 conditions and of 3 of 45; sequences of up to 70 over 36 sets; up to 1300 steps" : "all sequences of 1 of 72 conditions, most of 2, and of 3 of 18; sequences of up to 70 over 36 sets; up to 1300 steps");
  return finish();
}
