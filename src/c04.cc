// C04: explicit runs against the independent reference model.
#include <unistd.h>

#include <algorithm>

#include "e2e.h"
#include "cases.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using namespace cases;

struct Case
{
  exo::Mesh   m;
  ref::Deck   d;
  std::string name;
};

static void
check(const Case& c, Ctx& x)
{
  std::string dir = scratch_dir("c04");
  std::string e   = exo::write_genesis(dir + "/m.g", c.m);
  if (!e.empty()) {
    fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
    _exit(3);
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  auto r = ref::simulate(c.m, c.d);
  x.executions++;
  x.evaluations++;
  x.transitions += c.d.steps;
  if (r.unstable) x.count("reference-unstable");
  auto o = e2e::run(dir, {"d.in"});
  if (!o.ok())
    x.violation("status", "the run ended with status " + std::to_string(o.status) + " (" + o.log.substr(o.log.size() > 300 ? o.log.size() - 300 : 0) + ") | " + c.name);
  else {
    auto res = exo::read_results(dir + "/m.out.e");
    for (auto& b : ref::compare(res, c.m, c.d, r)) x.violation(b.substr(0, b.find('|')), b.substr(b.find('|') + 1) + " | " + c.name);
    for (size_t s = 0; s < res.nodal.size(); s++) {
      uint64_t h = s;
      for (auto& v : res.nodal[s]) h = hash_dbl(v.data(), v.size(), h);
      x.state(h);
      x.outcome(h);
    }
  }
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  remove_tree(dir);
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  std::vector<Case> cases;
  // A: every assignment of the elements of small grids to blocks, with every assignment of materials to blocks
  struct G { int nx, ny, nz, nb; };
  std::vector<G> gs = {{1, 1, 1, 1}, {2, 1, 1, 2}, {3, 1, 1, 3}, {2, 2, 1, 2}};
  if (opt.thorough()) gs = {{1, 1, 1, 1}, {2, 1, 1, 2}, {3, 1, 1, 3}, {2, 2, 1, 3}, {5, 1, 1, 2}, {3, 2, 1, 2}};
  auto mats = materials();
  std::vector<std::vector<int>> idsets = {{1, 2, 3}, {7, 3, 5}, {12, 40, 2}};
  for (auto& g : gs) {
    int nmat = opt.thorough() ? 4 : g.nb == 3 ? 2 : 3;
    int ne = g.nx * g.ny * g.nz;
    int na = 1;
    for (int i = 0; i < ne; i++) na *= g.nb;
    for (int a = 0; a < na; a++) {
      std::vector<int> blk;
      for (int i = 0, t = a; i < ne; i++, t /= g.nb) blk.push_back(t % g.nb);
      int nm = 1;
      for (int i = 0; i < g.nb; i++) nm *= nmat;
      for (int q = 0; q < nm; q++) {
        for (int dis = 0; dis < 3; dis++)
          for (size_t is = 0; is < idsets.size(); is++) {
            Case c;
            auto m = distort(exo::grid(g.nx, g.ny, g.nz), dis);
            c.m    = exo::assign_blocks(m, blk, std::vector<int>(idsets[is].begin(), idsets[is].begin() + g.nb));
            sets(c.m);
            c.d.mats = mats;
            c.d.fields = all_fields();
            for (int b = 0, t = q; b < g.nb; b++, t /= nmat) c.d.block_mat[idsets[is][b]] = t % nmat;
            c.d.bcs   = conditions((a + q + dis) % 3);
            c.d.steps = 3;
            c.d.t1    = 0.2;
            c.name = "grid " + std::to_string(g.nx) + "x" + std::to_string(g.ny) + "x" + std::to_string(g.nz) + " shape " + std::to_string(dis) + " blocks";
            for (int b : blk) c.name += " " + std::to_string(idsets[is][b]);
            c.name += " materials";
            for (int b = 0, t = q; b < g.nb; b++, t /= nmat) c.name += " " + std::to_string(t % nmat);
            c.name += " conditions " + std::to_string((a + q + dis) % 3);
            cases.push_back(c);
          }
      }
    }
  }
  // B: stepping: all step counts, output frequencies, start times and step sizes
  int maxs = opt.thorough() ? 9 : 6;
  for (int steps = 1; steps <= maxs; steps++)
    for (int freq = 0; freq <= steps + 1; freq++)
      for (double t0 : {0.0, 0.75, -2.0})
        for (double len : {0.03, 0.4})
          for (int k = 0; k < 3; k++) {
            Case c;
            c.m = exo::assign_blocks(distort(exo::grid(2, 1, 1), 1), {0, 1}, {4, 9});
            sets(c.m);
            c.d.mats   = mats;
            c.d.fields = all_fields();
            c.d.block_mat[9] = k == 1;
            c.d.bcs    = conditions(k);
            c.d.steps  = steps;
            c.d.freq   = freq;
            c.d.t0     = t0;
            c.d.t1     = t0 + len;
            c.name     = "steps " + std::to_string(steps) + " frequency " + std::to_string(freq) + " from " + fmt(t0) + " for " + fmt(len) + " conditions " + std::to_string(k);
            cases.push_back(c);
          }
  for (auto& q : large()) cases.push_back({q.m, q.d, q.name});
  Stage st;
  st.name     = "runs";
  st.n        = cases.size();
  st.describe = [&](size_t i) { return cases[i].name; };
  st.fn       = [&](size_t i, Ctx& x) { check(cases[i], x); };
  st.case_timeout = 60;
  st.chunk    = 4;
  vh::run(st);
  note("bounds", "grids up to 4 (thorough 6) elements, up to 3 blocks, " + std::string(opt.thorough() ? "4" : "2 (three blocks) or 3") + " materials, up to " + std::to_string(maxs) + " steps; further bodies of up to 1000 elements, 40 blocks, 60 conditions and 1500 steps");
  return finish();
}
