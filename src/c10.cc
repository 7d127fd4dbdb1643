// C10: the program is killed at every point where the files change; what had been completed must still be readable.
#include <signal.h>
#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "faults.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using exo::Mesh;

struct Conf
{
  std::string              name;
  Mesh                     m;
  ref::Deck                d;
  int                      np = 1;
  bool                     stale = false;  // a file of the results file's name is there already
  std::vector<int>         part;
  std::string              old;
  std::vector<std::string> files;  // results files
  std::vector<exo::Results> whole;
  std::map<std::string, std::string> others;  // files that must stay as they are
};
static void
prepare(const Conf& c, const std::string& dir)
{
  if (c.np == 1) {
    if (!exo::write_genesis(dir + "/m.g", c.m).empty()) _exit(3);
  } else {
    auto ps = exo::split(c.m, c.part, c.np);
    for (int p = 0; p < c.np; p++)
      if (!exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), ps[p]).empty()) _exit(3);
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  // results of other runs
  write_file(dir + "/m2.out.e", "results of another run");
  write_file(dir + "/m.e", "not the results file");
  write_file(dir + "/m.out.f", "something else");
  write_file(dir + "/m.out.e.4.0", "piece of another run");
  if (c.np > 1) write_file(dir + "/m.out.e", "results of the unsplit run");
  if (c.stale) write_file(dir + "/m.out.e", c.old);
}
static std::map<std::string, std::string>
keep(const Conf& c, const std::string& dir)
{
  std::map<std::string, std::string> r;
  std::vector<std::string> f{"d.in", "m2.out.e", "m.e", "m.out.f", "m.out.e.4.0"};
  if (c.np > 1) f.push_back("m.out.e");
  for (int p = 0; p < c.np; p++) f.push_back(cases::piece("m.g", c.np, p));
  for (auto& s : f) r[s] = read_file(dir + "/" + s);
  return r;
}
struct Point
{
  uint64_t op;
  int      prefix, len;
  char     kind;
  std::string file;
};
static std::vector<Conf>
confs()
{
  std::vector<Conf> r;
  auto add = [&](const char* n, Mesh m, int bc, int steps, int freq, std::vector<std::string> f) -> Conf& {
    Conf c;
    c.name = n;
    cases::sets(m);
    c.m        = m;
    c.d.mats   = cases::materials();
    c.d.steps  = steps;
    c.d.freq   = freq;
    c.d.t1     = 0.05 * steps;
    c.d.bcs    = cases::conditions(bc);
    c.d.fields = f;
    r.push_back(c);
    return r.back();
  };
  add("one element", exo::grid(1, 1, 1), 0, 2, 1, {"displacement", "volume"});
  {
    Conf& c = add("two blocks", exo::assign_blocks(exo::grid(2, 1, 1), {0, 1}, {7, 3}, {"right", ""}), 1, 3, 1, {"velocity", "stress"});
    c.d.block_mat = {{7, 0}, {3, 1}};
  }
  add("every second step", cases::distort(exo::grid(2, 1, 1), 1), 2, 5, 2, {"displacement"});
  {
    Conf& c = add("two processes", exo::grid(2, 1, 1), 0, 2, 1, {"displacement"});
    c.np    = 2;
    c.part  = {0, 1};
  }
  add("no element output", exo::grid(1, 1, 1), 1, 4, 1, {"lumped_mass"});
  add("only element output", exo::grid(1, 1, 1), 1, 3, 1, {"deformation_gradient"});
  add("eleven planes", exo::grid(2, 1, 1), 1, 10, 1, {"displacement", "volume", "stress"});
  add("thirty-one planes", exo::grid(1, 1, 1), 0, 30, 1, {"displacement", "velocity", "ipt02_stress"});
  {
    Conf& c = add("over older results", exo::grid(1, 1, 1), 0, 2, 1, {"displacement"});
    c.stale = true;
    Conf big = r[r.size() - 2];
    std::string dir = scratch_dir("c10o");
    prepare(big, dir);
    e2e::run(dir, {"d.in"});
    c.old = read_file(dir + "/m.out.e");
    remove_tree(dir);
  }
  if (opt.thorough()) {
    Conf& c = add("three processes", exo::assign_blocks(exo::grid(3, 2, 1), {0, 1, 0, 1, 1, 0}, {2, 5}), 2, 3, 1, {"displacement", "velocity", "stress"});
    c.np    = 3;
    c.part  = {0, 1, 2, 2, 1, 0};
    add("all fields", exo::assign_blocks(exo::grid(2, 2, 1), {0, 1, 1, 0}, {1, 2}), 1, 3, 1, cases::all_fields());
  }
  return r;
}
// planes that must have been written when the run says how far it is: those of the steps before, less the last of them
static int
due(const Conf& c, const std::string& log)
{
  int k = -1;
  if (log.find("Timing data") != std::string::npos) k = c.d.steps;
  else
    for (size_t at = log.find("% complete"); at != std::string::npos; at = log.find("% complete", at + 1)) {
      size_t b = at;
      while (b > 0 && isdigit(log[b - 1])) b--;
      int v = atoi(log.substr(b, at - b).c_str());
      if (v > 0 && v * c.d.steps % 100 == 0) k = v * c.d.steps / 100 - 1;
    }
  if (k < 0) return 0;
  int n = 1;
  for (int s = 1; s <= k; s++) n += (s - 1) % c.d.freq == 0 || s == c.d.steps;
  return n - 1;
}
static std::string
planes_differ(const exo::Results& g, const exo::Results& w, int n)
{
  if (!g.error.empty()) return "it cannot be read: " + g.error;
  if ((int)g.times.size() < n) return "it has " + std::to_string(g.times.size()) + " time planes";
  if (g.x != w.x || g.y != w.y || g.z != w.z || g.conn != w.conn || g.block_ids != w.block_ids || g.block_names != w.block_names || g.node_map != w.node_map || g.elem_map != w.elem_map || g.ns_ids != w.ns_ids ||
      g.ns_nodes != w.ns_nodes)
    return "its mesh differs";
  if (g.nvars != w.nvars || g.evars != w.evars || g.truth != w.truth) return "its variables differ";
  for (int i = 0; i < n; i++) {
    if (g.times[i] != w.times[i]) return "time of plane " + std::to_string(i) + " is " + fmt(g.times[i]) + " instead of " + fmt(w.times[i]);
    if (g.nodal[i] != w.nodal[i]) return "nodal values of plane " + std::to_string(i) + " differ";
    if (g.elem[i] != w.elem[i]) return "element values of plane " + std::to_string(i) + " differ";
  }
  return "";
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  faults::shared();
  std::vector<Conf> cs = confs();
  for (auto& c : cs) {
    std::string dir = scratch_dir("c10r");
    prepare(c, dir);
    c.others = keep(c, dir);
    for (int p = 0; p < c.np; p++) c.files.push_back(cases::piece("m.out.e", c.np, p));
    faults::reset();
    auto o = e2e::run(dir, {"d.in"}, c.np, 60, [] { faults::arm(faults::Config()); });
    if (!o.ok()) {
      total().violation("run", c.name + ": the undisturbed run fails: " + o.log.substr(0, 300));
      remove_tree(dir);
      continue;
    }
    int planes = 1;
    for (int s = 1; s <= c.d.steps; s++) planes += (s - 1) % c.d.freq == 0 || s == c.d.steps;
    if (keep(c, dir) != c.others) total().violation("other files", c.name + ": the undisturbed run changes a mesh file or other file");
    for (auto& f : c.files) {
      c.whole.push_back(exo::read_results(dir + "/" + f));
      auto& w = c.whole.back();
      if (!w.error.empty()) total().violation("run", c.name + ": no results: " + w.error);
      if ((int)w.times.size() != planes || faults::planes(f) < planes - 1) total().violation("run", c.name + ": " + f + " has " + std::to_string(w.times.size()) + " time planes, " + std::to_string(faults::planes(f)) + " of them complete, not " + std::to_string(planes));
    }
    std::vector<Point> pts;
    auto* S = faults::shared();
    if (S->nops >= sizeof(S->ops) / sizeof(S->ops[0])) {
      fprintf(stderr, "trace too long\n");
      return 2;
    }
    uint64_t k = 0;
    std::vector<std::string> seen;
    for (uint64_t i = 0; i < S->nops; i++) {
      auto& q = S->ops[i];
      if (q.kind == 'E') continue;
      uint64_t op = k++;
      if (q.kind == 's' || q.kind == 'r' || q.kind == 'o' || q.kind == 'f') continue;
      if (q.kind == 'w') {
        std::set<int> pre{0, 1, q.len / 2, q.len - 1};
        int g = opt.thorough() ? 64 : 512;
        for (int b = g; b < q.len; b += g) pre.insert(b);
        if (opt.thorough())
          for (int b = 0; b < q.len && b < 64; b += 4) pre.insert(b);
        for (int b : pre)
          if (b < q.len || b == 0) pts.push_back({op, b, q.len, q.kind, q.file});
      } else
        pts.push_back({op, 0, q.len, q.kind, q.file});
    }
    pts.push_back({k, 0, 0, '-', "end"});
    remove_tree(dir);
    Stage st;
    st.name     = c.name;
    st.n        = pts.size();
    st.case_timeout = 60;
    auto nm = [pts](size_t i) { return "operation " + std::to_string(pts[i].op) + " (" + pts[i].kind + " of " + pts[i].file + ", " + std::to_string(pts[i].prefix) + " of " + std::to_string(pts[i].len) + " bytes)"; };
    st.describe = nm;
    st.worker_init = [] {
      // a shared record of this worker's own
      faults::unshare();
    };
    st.fn = [&c, pts, nm](size_t i, Ctx& x) {
      std::string dir = scratch_dir("c10");
      prepare(c, dir);
      faults::reset();
      faults::Config fc;
      fc.mode   = faults::Config::KILL;
      fc.index  = pts[i].op;
      fc.prefix = pts[i].prefix;
      auto o    = e2e::run(dir, {"d.in"}, c.np, 60, [fc] { faults::arm(fc); });
      x.evaluations++;
      x.executions++;
      x.transitions += faults::shared()->nsys;
      x.distinct(hash_str(c.name + nm(i)));
      std::string what = c.name + ", killed before " + nm(i) + ": ";
      if (pts[i].kind != '-' && o.status != -SIGKILL) x.count("not reached");
      uint64_t h = hash_str(c.name);
      for (size_t q = 0; q < c.files.size(); q++) {
        int n = faults::planes(c.files[q]), d = c.np == 1 ? due(c, o.log) : 0;
        if (d > n) x.count("planes due by the run's own progress report"), n = d;
        h     = hmix(h, n + 1);
        if (n < 1) {
          x.count("killed before the first plane was complete");
          continue;
        }
        auto g = exo::read_results(dir + "/" + c.files[q]);
        std::string b = planes_differ(g, c.whole[q], std::min(n, (int)c.whole[q].times.size()));
        h = hmix(h, hash_str(read_file(dir + "/" + c.files[q])));
        if (!b.empty()) x.violation("planes", what + std::to_string(n) + " planes of " + c.files[q] + " had been written, but " + b, "");
      }
      x.state(h);
      if (keep(c, dir) != c.others) x.violation("other files", what + "a mesh file or other file is changed");
      x.outcome(h);
      remove_tree(dir);
    };
    run(st);
  }
  return finish();
}
