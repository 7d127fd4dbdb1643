// C16: the critical time step: element sizes over lattices of shapes and positions, and the estimate whole runs report.
#include <nimble_element.h>

#include <cmath>
#include <limits>

#include "bodies.h"

static double
quoted(const std::string& log, const std::string& what)
{
  size_t p = log.find(what);
  if (p == std::string::npos) return std::nan("");
  return strtod(log.c_str() + p + what.size(), nullptr);
}
static void
estimate(const Case& c, Ctx& x)
{
  std::string dir   = scratch_dir("c16");
  auto        parts = c.np > 1 ? exo::split(c.m, c.part, c.np, c.rev) : std::vector<exo::Mesh>{c.m};
  for (int p = 0; p < c.np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  x.executions++;
  x.evaluations++;
  auto   o = e2e::run(dir, {"d.in"}, c.np);
  double w = ref::critical_dt(c.m, c.d);
  if (!o.ok()) x.violation("status", "the run ended with status " + std::to_string(o.status) + " | " + c.name);
  else {
    double g = quoted(o.log, "maximum stable time step:");
    if (!(std::fabs(g - w) <= 1e-5 * w)) x.violation(c.np > 1 ? "estimate, several processes" : "estimate", "the run reports a stable time step of " + fmt(g) + " instead of " + fmt(w) + " | " + c.name);
    double dt   = (c.d.t1 - c.d.t0) / c.d.steps;
    bool   warn = o.log.find("exceeds") != std::string::npos && o.log.find("WARNING") != std::string::npos;
    if (std::fabs(dt / w - 1) > 1e-6 && warn != (dt > w)) x.violation("warning", std::string(warn ? "a" : "no") + " warning for a step of " + fmt(dt) + ", the stable one is " + fmt(w) + " | " + c.name);
    x.count(warn ? "warned" : "not warned");
    x.outcome(hash_dbl(&g, 1));
  }
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  remove_tree(dir);
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name     = name;
    st.n        = (n + per - 1) / per;
    st.describe = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.fn       = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
    };
    vh::run(st);
  };
  typedef std::array<exo::V3, 8> Hex;
  auto size = [](const Hex& h, Ctx& x) {
    double c[26];
    c[24] = c[25] = 1e300;
    for (int i = 0; i < 24; i++) c[i] = h[i / 3][i % 3];
    nimble::HexElement e;
    x.executions++;
    x.evaluations++;
    return e.ComputeCharacteristicLength(c);
  };
  auto show = [](const Hex& h) {
    std::string s;
    for (auto& p : h) s += " " + fmt(p[0]) + "," + fmt(p[1]) + "," + fmt(p[2]);
    return s;
  };
  auto unit = exo::grid(1, 1, 1);
  auto cube = [&](double a, double b, double c) {
    Hex h;
    for (int i = 0; i < 8; i++) h[i] = {{unit.X[unit.blocks[0].conn[0][i]][0] * a, unit.X[unit.blocks[0].conn[0][i]][1] * b, unit.X[unit.blocks[0].conn[0][i]][2] * c}};
    return h;
  };
  // positions in all octants and across the planes; dyadic, so that moving is exact
  std::vector<double> at{0, -0.5, -1, -4, 3, -100, 4096, -4096};
  auto one = [=](Hex h, const std::string& kind, Ctx& x, bool all) {
    double w = ref::char_length({{h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]}});
    size_t n = at.size();
    for (size_t k = 0; k < n * n * n; k++) {
      if (!all && k % 19 != 0 && k % 73 != 5) continue;
      Hex m = h;
      for (auto& p : m) p[0] += at[k % n], p[1] += at[k / n % n], p[2] += at[k / n / n];
      double g = size(m, x);
      if (!(std::fabs(g - w) <= 1e-11 * (1 + w))) {
        x.violation(kind, "the size of the element is " + fmt(g) + " instead of " + fmt(w) + ", moved by " + fmt(at[k % n]) + " " + fmt(at[k / n % n]) + " " + fmt(at[k / n / n]) + " |" + show(h));
        return;
      }
    }
    for (double s : {0.5, 1024.0, 1.0 / 4096}) {
      Hex m = h;
      for (auto& p : m)
        for (double& v : p) v *= s;
      if (!(std::fabs(size(m, x) - s * w) <= 1e-11 * s * w)) x.violation(kind + ", scaled", "the size of the element scaled by " + fmt(s) + " is " + fmt(size(m, x)) + " instead of " + fmt(s * w) + " |" + show(h));
    }
  };
  std::vector<double> ed{1, 0.5, 2, 0.125, 8};
  blocks("boxes", 125, 5, [&](size_t i, Ctx& x) { one(cube(ed[i % 5], ed[i / 5 % 5], ed[i / 25]), "boxes", x, true); });
  // every node moved to every point around it
  blocks("one node moved", 8 * 27 * 25, 50, [&](size_t i, Ctx& x) {
    Hex    h = cube(ed[i / 216 % 5], ed[i / 1080 % 5], 1);
    size_t d = i / 8 % 27;
    for (int k = 0; k < 3; k++, d /= 3) h[i % 8][k] += ((int)(d % 3) - 1) * 0.25;
    one(h, "one node moved", x, false);
  });
  blocks("two nodes moved", 28 * 27 * 27, 200, [&](size_t i, Ctx& x) {
    int a = 0, b = 1;
    for (size_t k = i % 28; k; k--)
      if (++b == 8) b = ++a + 1;
    Hex    h = cube(1, 1, ed[i % 3]);
    size_t d = i / 28;
    for (int k = 0; k < 3; k++, d /= 3) h[a][k] += ((int)(d % 3) - 1) * 0.375;
    for (int k = 0; k < 3; k++, d /= 3) h[b][k] += ((int)(d % 3) - 1) * 0.375;
    one(h, "two nodes moved", x, false);
  });
  // sheared boxes: the box around is not the element
  blocks("sheared", 5 * 5 * 5 * 5 * 5 * 5, 200, [&](size_t i, Ctx& x) {
    double s[5] = {0, 0.5, -0.5, 1.5, -0.25};
    double q[6];
    for (double& v : q) {
      v = s[i % 5];
      i /= 5;
    }
    Hex h = cube(1, 1, 1);
    for (auto& p : h) p = {{p[0] + q[0] * p[1] + q[1] * p[2], p[1] + q[2] * p[0] + q[3] * p[2], p[2] + q[4] * p[0] + q[5] * p[1]}};
    one(h, "sheared", x, false);
  });
  // whole runs
  std::vector<Case> cs;
  int               k = 0;
  std::vector<exo::V3> move{{{0, 0, 0}}, {{-7, 0, 0}}, {{-9, -8, -10}}, {{5, -6, 100}}, {{-0.5, -0.5, -0.5}}};
  std::vector<double>  scale{1, 0.01, 30};
  std::vector<double>  rel{0.5, 0.99, 1.01, 3};
  for (auto& b : bodies(th))
    for (size_t v = 0; v < (th ? 5u : 2u); v++) {
      Case   c = b;
      auto&  t = move[(v + k) % 5];
      double s = scale[k % 3];
      for (auto& p : c.m.X)
        for (int i = 0; i < 3; i++) p[i] = s * (p[i] + t[i]);
      // one element much smaller than the others: moves through the elements
      c.d.fields = {"displacement"};
      c.d.steps  = 1 + k % 2;
      c.d.freq   = 1;
      c.d.t0     = k % 3 - 1;
      double w   = ref::critical_dt(c.m, c.d), r = rel[k % 4];
      c.d.t1     = c.d.t0 + c.d.steps * w * r;
      c.name += " moved by " + fmt(t[0]) + " " + fmt(t[1]) + " " + fmt(t[2]) + ", scaled by " + fmt(s) + ", step " + fmt(r) + " of the stable one";
      cs.push_back(c);
      k++;
    }
  // the critical element at every place, in every block, on every process
  for (int e = 0; e < 4; e++)
    for (int a = 0; a < 16; a++)
      for (int q = 0; q < 16; q++) {
        Case c;
        auto m = exo::grid(4, 1, 1);
        for (auto& p : m.X) p[0] = p[0] <= e ? p[0] : p[0] - 0.4;  // element e has the length 0.6

        std::vector<int> blk, part;
        for (int i = 0; i < 4; i++) blk.push_back(a >> i & 1), part.push_back(q >> i & 1);
        c.m        = exo::assign_blocks(m, blk, {2, 1});
        c.part     = part;
        c.np       = q && q != 15 ? 2 : 1;
        cases::sets(c.m);
        c.d.mats   = cases::materials();
        c.d.mats[1].K = 2.5;  // both materials have nearly the same speed
        c.d.mats[0].K = 1.1;
        c.d.block_mat[1] = 1;
        c.d.block_mat[2] = 0;
        c.d.fields = {"displacement"};
        c.d.steps  = 1;
        c.d.t1     = 0.3;
        c.name     = "chain, short element " + std::to_string(e) + " blocks " + std::to_string(a) + " processes " + std::to_string(q);
        if (c.np == 1 && q == 15) c.np = 1;
        cs.push_back(c);
      }
  // the critical element at every tenth place of a body of a thousand elements, and in every one of forty blocks
  auto big = cases::large();
  for (int w : {0, 1, 2, 3})
    for (int e = -1; e < big[w].m.nelem(); e += w == 0 ? 97 : w == 1 ? 1 : 13) {
      Case c;
      c.m = big[w].m;
      c.d = big[w].d;
      if (e >= 0) {  // element e thinner than all others: its nodes 0 3 4 7 move towards 1 2 5 6
        int b = 0, k = e;
        while (k >= (int)c.m.blocks[b].conn.size()) k -= c.m.blocks[b++].conn.size();
        auto n = c.m.blocks[b].conn[k];
        int  lo[4] = {n[0], n[3], n[4], n[7]}, hi[4] = {n[1], n[2], n[5], n[6]};
        for (int i = 0; i < 4; i++)
          for (int q = 0; q < 3; q++) c.m.X[lo[i]][q] += 0.4 * (c.m.X[hi[i]][q] - c.m.X[lo[i]][q]);
      }
      c.d.bcs.clear();
      c.d.fields = {"displacement"};
      c.d.steps  = 1;
      c.d.t1     = (e + 1) % 2 ? 0.25 : 0.001;
      c.np       = e % 3 == 2 ? 3 : 1;
      for (int i = 0; i < c.m.nelem(); i++) c.part.push_back(i * 3 / c.m.nelem());
      c.name = big[w].name + ", thin element " + std::to_string(e) + ", " + std::to_string(c.np) + " processes";
      cs.push_back(c);
    }
  run_cases("runs", cs, estimate);
  note("bounds", "boxes of five edge lengths, all single and pair displacements of nodes over three values, six shears over five values, each in up to 512 positions and three scales; runs over the block assignments and distributions of the grids of C04, moved, scaled, with four ratios of the step; a chain with the short element everywhere; a thin element at many places of bodies of up to 1000 elements and 40 blocks");
  return finish();
}
