// Whole runs on all block assignments and distributions of small grids.
#pragma once
#include <array>
#include <cstdlib>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"

namespace bodies_ns {
using namespace vh;
struct Case
{
  exo::Mesh                m;
  ref::Deck                d;
  std::string              name;
  std::vector<int>         part;
  int                      np = 1;
  bool                     rev = false;
  std::array<double, 9>    g{};  // an imposed gradient, row major
};
inline exo::Results
whole(const Case& c, Ctx& x, std::vector<std::vector<std::vector<double>>>& nodal, std::vector<exo::Results>* pieces = nullptr)
{
  // values by global node: nodal[step][var][node]; shared nodes must agree (C03) so any holder serves
  std::string dir = scratch_dir("body");
  auto        parts = c.np > 1 ? exo::split(c.m, c.part, c.np, c.rev) : std::vector<exo::Mesh>{c.m};
  for (int p = 0; p < c.np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  x.executions++;
  x.evaluations++;
  x.transitions += c.d.steps;
  exo::Results first;
  auto         o = e2e::run(dir, {"d.in"}, c.np);
  if (!o.ok()) {
    x.violation("status", "the run ended with status " + std::to_string(o.status) + " | " + c.name);
    first.error = "failed";
  } else
    for (int p = 0; p < c.np; p++) {
      auto r = exo::read_results(dir + "/" + cases::piece("m.out.e", c.np, p));
      if (!r.error.empty()) x.violation("results", r.error + " | " + c.name);
      if (!p) {
        first = r;
        nodal.assign(r.nodal.size(), std::vector<std::vector<double>>(r.nvars.size(), std::vector<double>(c.m.X.size())));
      }
      for (size_t s = 0; s < r.nodal.size() && s < nodal.size(); s++)
        for (size_t v = 0; v < r.nvars.size() && v < nodal[s].size(); v++)
          for (size_t i = 0; i < r.nodal[s][v].size(); i++) {
            int g = c.np > 1 ? parts[p].node_ids[i] - 1 : (int)i;
            nodal[s][v][g] = r.nodal[s][v][i];
          }
      if (pieces) pieces->push_back(r);
    }
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  remove_tree(dir);
  return first;
}
inline void
run_cases(const std::string& name, const std::vector<Case>& cs, const std::function<void(const Case&, Ctx&)>& f)
{
  Stage st;
  st.name         = name;
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { f(cs[i], x); };
  st.case_timeout = 60;
  st.chunk        = 4;
  vh::run(st);
}
// meshes with all block assignments, and all distributions over processes
inline std::vector<Case>
bodies(bool th)
{
  std::vector<Case> r;
  struct G { int nx, ny, nz, nb, np; };
  // grid, number of blocks and of processes
  std::vector<G> gs = {{1, 1, 1, 1, 1}, {2, 1, 1, 2, 2}, {3, 1, 1, 3, 3}, {2, 2, 1, 2, 3}, {2, 2, 2, 2, 2}};
  if (th) gs = {{1, 1, 1, 1, 1}, {2, 1, 1, 2, 2}, {3, 1, 1, 3, 3}, {2, 2, 1, 3, 4}, {4, 1, 1, 2, 4}, {2, 2, 2, 2, 2}};
  auto mats = cases::materials();
  for (auto& g : gs) {
    int ne = g.nx * g.ny * g.nz, na = 1, nq = 1;
    for (int i = 0; i < ne; i++) na *= g.nb, nq *= g.np;
    for (int a = 0; a < na; a++)
      for (int q = 0; q < nq; q++) {
        // eight elements: split in half along each direction, and in a chess board; thorough: all distributions of these blocks
        auto halves = [](int k) { return k == 0 || k == 0x0f || k == 0x33 || k == 0x55 || k == 0x69; };
        if (ne == 8 && (!halves(a) || (!th && !halves(q)))) continue;
        std::set<int> used;  // every process has an element (others: C03)
        for (int i = 0, t = q; i < ne; i++, t /= g.np) used.insert(t % g.np);
        if (q && (int)used.size() < g.np) continue;
        Case c;
        std::vector<int> blk;
        for (int i = 0, t = a; i < ne; i++, t /= g.nb) blk.push_back(t % g.nb);
        std::vector<int> ids = {7, 3, 5};
        ids.resize(g.nb);
        c.m = exo::assign_blocks(cases::distort(exo::grid(g.nx, g.ny, g.nz), 1 + (a + q) % 2), blk, ids);
        for (int i = 0, t = q; i < ne; i++, t /= g.np) c.part.push_back(t % g.np);
        c.np  = q ? g.np : 1;
        c.rev = (a + q) % 2;
        if (c.np > 1) {
          for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
          for (int i = 0; i < ne; i++) c.m.elem_ids.push_back(i + 1);
        }
        cases::sets(c.m);
        c.d.mats  = mats;
        for (int b = 0; b < g.nb; b++) c.d.block_mat[ids[b]] = (a + q + b) % 4;
        c.d.steps = 4;
        c.d.t1    = 0.2;
        c.name    = "grid " + std::to_string(g.nx) + "x" + std::to_string(g.ny) + "x" + std::to_string(g.nz) + " blocks";
        for (int b : blk) c.name += " " + std::to_string(b);
        c.name += c.np > 1 ? " processes" : " one process";
        if (c.np > 1)
          for (int p : c.part) c.name += " " + std::to_string(p);
        r.push_back(c);
      }
  }
  // larger ones, whole and scattered over three processes
  auto big = cases::large();
  for (int k = 0; k < 5; k++)
    for (int np = 1; np <= 3; np += 2) {
      if (k == 4 && np > 1) continue;
      Case c;
      c.m = big[k].m;
      c.d = big[k].d;
      c.d.bcs.clear();
      c.d.fields = ref::Deck().fields;
      c.np       = np;
      c.rev      = k % 2;
      c.d.steps  = k == 4 ? 300 : 4;
      c.d.freq   = 1;
      c.d.t1     = k == 4 ? 0.9 : 0.2;
      int ne     = c.m.nelem();
      for (int e = 0; e < ne; e++) c.part.push_back((e * 5 + e / 3) % np);
      if (np > 1) {
        for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
        for (int e = 0; e < ne; e++) c.m.elem_ids.push_back(e + 1);
      }
      c.name = big[k].name + (np > 1 ? ", three processes" : ", one process");
      r.push_back(c);
    }
  return r;
}
}  // namespace bodies_ns
using namespace bodies_ns;
