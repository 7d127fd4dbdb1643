// C03: every way of splitting small meshes over processes, compared with the unsplit run of the same code.
#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using namespace cases;

struct Model
{
  exo::Mesh   m;
  ref::Deck   d;
  std::string name;
  exo::Results whole;
};
static std::vector<Model> models;

static void
must(const std::string& e)
{
  if (!e.empty()) {
    fprintf(stderr, "%s\n", e.c_str());
    _exit(3);
  }
}
static void
prepare(const std::string& dir, const Model& q, const std::vector<int>& part, int np, bool rev, bool drop = false)
{
  auto ps = exo::split(q.m, part, np, rev);
  if (drop)  // pieces without the sets they hold no node of
    for (auto& m : ps)
      m.nsets.erase(std::remove_if(m.nsets.begin(), m.nsets.end(), [](const exo::NodeSet& s) { return s.nodes.empty(); }), m.nsets.end());
  for (int p = 0; p < np; p++) must(exo::write_genesis(dir + "/" + piece("m.g", np, p), ps[p]));
  write_file(dir + "/d.in", ref::deck_text(q.d, q.m));
}
static bool
load_whole(Model& q, Ctx& x)
{
  if (!q.whole.times.empty() || !q.whole.error.empty()) return q.whole.error.empty();
  std::string dir = scratch_dir("c03w");
  must(exo::write_genesis(dir + "/m.g", q.m));
  write_file(dir + "/d.in", ref::deck_text(q.d, q.m));
  auto o = e2e::run(dir, {"d.in"});
  x.executions++;
  if (!o.ok())
    q.whole.error = "the unsplit run failed";
  else
    q.whole = exo::read_results(dir + "/m.out.e");
  remove_tree(dir);
  if (!q.whole.error.empty()) x.violation("unsplit", "no unsplit run to compare with: " + q.whole.error + " | " + q.name);
  return q.whole.error.empty();
}
// compares all pieces; returns "" or "key|text"
static std::vector<std::string>
compare(const std::string& dir, const Model& q, const std::vector<int>& part, int np, Ctx* x)
{
  std::vector<std::string> bad;
  std::set<int>            es;
  for (int p = 0; p < np; p++) {
    auto r = exo::read_results(dir + "/" + piece("m.out.e", np, p));
    int  n = std::count(part.begin(), part.end(), p);
    if (r.error.empty() && r.ne != n) bad.push_back("elements|process " + std::to_string(p) + " wrote " + std::to_string(r.ne) + " elements instead of " + std::to_string(n));
    for (int e : r.elem_map)
      if (!es.insert(e).second) bad.push_back("elements|element " + std::to_string(e) + " is in two results files");
    for (auto& b : exo::diff(r, q.whole, 1e-9)) bad.push_back(b + " in the file of process " + std::to_string(p));
    if (x)
      for (size_t s = 0; s < r.nodal.size(); s++) {
        uint64_t h = s;
        for (auto& v : r.nodal[s]) h = hash_dbl(v.data(), v.size(), h);
        x->state(h);
      }
  }
  if ((int)es.size() != q.m.nelem()) bad.push_back("elements|the results files hold " + std::to_string(es.size()) + " of " + std::to_string(q.m.nelem()) + " elements");
  return bad;
}

static Model
model(int nx, int ny, int nz, int dis, std::vector<int> blk, std::vector<int> ids, int cond, int steps, std::vector<int> mat, bool globalids)
{
  Model q;
  q.m = exo::assign_blocks(distort(exo::grid(nx, ny, nz), dis), blk, ids);
  sets(q.m);
  if (globalids) {
    for (size_t i = 0; i < q.m.X.size(); i++) q.m.node_ids.push_back(1000 - 7 * (int)i);
    for (int e = 0; e < q.m.nelem(); e++) q.m.elem_ids.push_back(50 + 3 * e);
  } else {
    for (size_t i = 0; i < q.m.X.size(); i++) q.m.node_ids.push_back(i + 1);
    for (int e = 0; e < q.m.nelem(); e++) q.m.elem_ids.push_back(e + 1);
  }
  q.d.mats   = materials();
  q.d.fields = all_fields();
  for (size_t b = 0; b < ids.size(); b++) q.d.block_mat[ids[b]] = mat[b];
  q.d.bcs   = conditions(cond);
  q.d.steps = steps;
  q.d.t1    = 0.2;
  q.name    = "grid " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + " shape " + std::to_string(dis) + " " + std::to_string(ids.size()) + " blocks, conditions " + std::to_string(cond) + (globalids ? ", sparse global ids" : "");
  return q;
}
struct Case { int model, np, steps; std::vector<int> part; bool rev, drop, tpetra = false; };

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  models.push_back(model(2, 1, 1, 1, {0, 1}, {5, 2}, 1, 3, {0, 1}, true));
  models.push_back(model(3, 1, 1, 1, {0, 1, 0}, {1, 2}, 2, 3, {0, 1}, false));
  models.push_back(model(2, 2, 1, 2, {0, 1, 1, 2}, {4, 7, 3}, 1, 3, {1, 0, 2}, true));
  models.push_back(model(2, 2, 2, 1, {0, 0, 0, 0, 1, 1, 0, 1}, {2, 1}, 2, 2, {0, 2}, false));
  models.push_back(model(2, 2, 1, 1, {0, 0, 0, 0}, {1}, 0, 4, {0}, true));
  models.push_back(model(3, 1, 1, 1, {0, 0, 1}, {3, 9}, 3, 3, {0, 1}, true));
  std::vector<Case> cs;
  auto all = [&](int mi, int np, bool both) {
    int ne = models[mi].m.nelem();
    long n = 1;
    for (int i = 0; i < ne; i++) n *= np;
    for (long a = 0; a < n; a++) {
      std::vector<int> part;
      long t = a;
      for (int i = 0; i < ne; i++, t /= np) part.push_back(t % np);
      for (int rev = 0; rev < 2; rev++)
        for (int drop = 0; drop < 2; drop++)
          if (both || (rev == (a & 1) && drop == ((a * 2654435761u) >> 20 & 1))) cs.push_back({mi, np, 0, part, rev == 1, drop == 1});
    }
  };
  all(0, 2, true);
  all(1, 2, true);
  all(1, 3, true);
  all(2, 2, true);
  all(2, 3, true);
  all(2, 4, th);
  all(3, 2, th);
  all(4, 3, th);
  all(5, 2, true);
  all(5, 3, true);
  if (th) {
    all(3, 3, true);
    all(1, 4, true);
  }
  // every process index width: more than nine processes
  {
    models.push_back(model(4, 3, 1, 1, {0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1}, {1, 2}, 1, 2, {0, 1}, false));
    for (int np : {9, 10, 11, 12}) {
      std::vector<int> part;
      for (int e = 0; e < 12; e++) part.push_back(e % np);
      cs.push_back({6, np, 0, part, false, np % 2 == 0});
    }
  }
  // larger bodies: many nodes, blocks, sets and conditions, many shared nodes per pair of processes
  for (auto& q : large()) {
    if (q.d.steps > 100 && q.d.freq == 1) continue;
    int ne = q.m.nelem();
    Model t;
    t.m = q.m;
    t.d = q.d;
    for (size_t i = 0; i < q.m.X.size(); i++) t.m.node_ids.push_back(i + 1);
    for (int e = 0; e < ne; e++) t.m.elem_ids.push_back(e + 1);
    t.d.fields = q.m.blocks.size() < 20 ? all_fields() : std::vector<std::string>{"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "volume"};
    t.name     = q.name;
    models.push_back(t);
    for (int np : {2, 3, 8})
      for (int way = 0; way < 2; way++) {
        if (ne < 10 && (np > 2 || way)) continue;
        std::vector<int> part;  // slabs, or scattered so that nearly every node is shared
        for (int e = 0; e < ne; e++) part.push_back(way ? (e * 5 + e / 3) % np : e * np / ne);
        cs.push_back({(int)models.size() - 1, np, 0, part, way == 1, np == 3});
      }
  }
  // the same with the masses summed through Tpetra
  for (size_t i = 0, n = vh::with_trilinos ? cs.size() : 0; i < n; i++)
    if ((cs[i].model <= 2 && cs[i].np <= 3 && cs[i].rev != cs[i].drop) || cs[i].model == 6 || (cs[i].model > 6 && cs[i].np == 3)) {
      Case c   = cs[i];
      c.tpetra = true;
      cs.push_back(c);
    }
  Stage st;
  st.name     = "decompositions";
  st.n        = cs.size();
  st.describe = [&](size_t i) {
    std::string s = models[cs[i].model].name + ", elements on processes";
    if (cs[i].part.size() > 20)
      s += std::string(cs[i].part[1] ? " scattered over " : " in slabs over ") + std::to_string(cs[i].np);
    else
      for (int p : cs[i].part) s += " " + std::to_string(p);
    return s + (cs[i].rev ? ", local nodes in reverse" : "") + (cs[i].drop ? ", absent sets left out" : "") + (cs[i].tpetra ? ", with Tpetra" : "");
  };
  st.fn = [&](size_t i, Ctx& x) {
    auto& c = cs[i];
    auto& q = models[c.model];
    if (!load_whole(q, x)) return;
    std::string dir = scratch_dir("c03");
    prepare(dir, q, c.part, c.np, c.rev, c.drop);
    auto o = c.tpetra ? e2e::run(dir, {"--use_tpetra", "d.in"}, c.np) : e2e::run(dir, {"d.in"}, c.np);
    x.executions++;
    x.evaluations++;
    if (c.tpetra) x.count("with Tpetra");
    x.transitions += o.steps;
    std::string nm = st.describe(i);
    bool empty = false;
    for (int p = 0; p < c.np; p++) empty |= !std::count(c.part.begin(), c.part.end(), p);
    x.count(empty ? "with an empty process" : "all processes hold elements");
    if (!o.ok()) {
      std::string e;
      for (auto& m : o.errors) e += m + "; ";
      x.violation("status", "the run ended with status " + std::to_string(o.status) + " (" + e + o.log.substr(o.log.size() > 300 ? o.log.size() - 300 : 0) + ") | " + nm);
    } else
      for (auto& b : compare(dir, q, c.part, c.np, &x)) x.violation(b.substr(0, b.find('|')), b.substr(b.find('|') + 1) + " | " + nm);
    x.distinct(hash_str(nm));
    x.sample(nm);
    remove_tree(dir);
  };
  st.case_timeout = 60;
  st.chunk        = 4;
  vh::run(st);

  // schedules
  struct S { int model, np; std::vector<int> part; int bound; };
  std::vector<S> ss = {{0, 2, {0, 1}, 2}, {1, 2, {0, 1, 0}, 2}, {2, 3, {0, 1, 1, 2}, 2}, {2, 3, {2, 0, 1, 0}, 1}, {1, 3, {0, 1, 2}, 1}, {2, 4, {0, 1, 2, 3}, 1}};
  if (th) ss = {{0, 2, {0, 1}, 3}, {1, 2, {0, 1, 0}, 3}, {2, 3, {0, 1, 1, 2}, 2}, {2, 3, {2, 0, 1, 0}, 2}, {2, 4, {0, 1, 2, 3}, 2}, {1, 3, {0, 1, 2}, 2}};
  int steps_s = 1;
  Stage sc;
  sc.name     = "schedules";
  sc.n        = ss.size();
  sc.describe = [&](size_t i) { return models[ss[i].model].name + " over " + std::to_string(ss[i].np) + " processes, up to " + std::to_string(ss[i].bound) + " deviations"; };
  sc.fn = [&](size_t i, Ctx& x) {
    auto& c = ss[i];
    Model q = models[c.model];
    q.whole = exo::Results();
    q.d.steps = steps_s;
    q.d.fields = {"displacement", "velocity", "acceleration", "lumped_mass"};
    if (!load_whole(q, x)) return;
    std::string dir = scratch_dir("c03s");
    prepare(dir, q, c.part, c.np, false);
    auto r = e2e::explore(dir, {"d.in"}, c.np, c.bound, th ? 1000000 : 60000, [&](const e2e::Outcome& o) -> std::string {
      std::string e;
      for (auto& m : o.errors) e += m + "; ";
      if (!e.empty()) return e;
      if (!o.ok()) return "status " + std::to_string(o.status);
      auto b = compare(dir, q, c.part, c.np, nullptr);
      for (int p = 0; p < c.np; p++) unlink((dir + "/" + piece("m.out.e", c.np, p)).c_str());
      return b.empty() ? "" : b[0];
    }, th ? 3000 : 300);
    x.executions += r.executions;
    x.transitions += r.steps;
    x.count("schedules", r.executions);
    x.count(r.capped ? "schedule sets cut at the cap" : "schedule sets complete");
    if (r.status != 0) x.violation("schedule status", "the exploration ended with status " + std::to_string(r.status) + " | " + sc.describe(i));
    for (auto& b : r.bad) x.violation("schedule", b + " | " + sc.describe(i));
    remove_tree(dir);
  };
  sc.case_timeout = th ? 3600 : 320;
  vh::run(sc);
  note("bounds", th ? "up to 8 elements, 4 processes (12 for the index width), larger bodies on a few splits, 2 or 3 deviations" : "up to 8 elements, 4 processes (12 for the index width), larger bodies on a few splits, 1 or 2 deviations");
  return finish();
}
