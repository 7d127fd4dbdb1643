// C11: every Exodus call and every operation on the mesh and results files fails once; the run must not end as if nothing had happened.
#include <errno.h>
#include <exodusII.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "faults.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using exo::Mesh;

struct Conf
{
  std::string      name;
  Mesh             m;
  ref::Deck        d;
  int              np = 1;
  std::vector<int> part;
  std::vector<exo::Results> whole;
  std::set<std::string>     lines;  // what the undisturbed run prints
  std::vector<faults::Op>   sys, ex;
};
struct Fault
{
  faults::Config c;
  std::string    what;
  std::string    cls;
};
static void
prepare(const Conf& c, const std::string& dir)
{
  if (c.np == 1) {
    if (!exo::write_genesis(dir + "/m.g", c.m).empty()) _exit(3);
  } else {
    auto ps = exo::split(c.m, c.part, c.np);
    for (int p = 0; p < c.np; p++)
      if (!exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), ps[p]).empty()) _exit(3);
  }
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
}
static std::vector<Conf>
confs()
{
  std::vector<Conf> r;
  auto add = [&](const char* n, Mesh m, int bc, int steps, std::vector<std::string> f) -> Conf& {
    Conf c;
    c.name = n;
    cases::sets(m);
    c.m        = m;
    c.d.mats   = cases::materials();
    c.d.steps  = steps;
    c.d.t1     = 0.05 * steps;
    c.d.bcs    = cases::conditions(bc);
    c.d.fields = f;
    r.push_back(c);
    return r.back();
  };
  {
    Conf& c = add("two blocks", exo::assign_blocks(exo::grid(2, 1, 1), {0, 1}, {7, 3}, {"right", ""}), 1, 2, {"velocity", "lumped_mass", "volume"});
    c.m.node_ids = {3, 1, 2, 4, 5, 9, 8, 7, 6, 12, 10, 11};
    c.m.elem_ids = {2, 1};
    c.m.aux_node_map = {13, 11, 12, 14, 15, 19, 18, 17, 16, 22, 20, 21};
    c.m.aux_elem_map = {5, 6};
    exo::SideSet s;
    s.id    = 4;
    s.name  = "skin";
    s.elems = {0, 1};
    s.sides = {4, 2};
    c.m.ssets = {s};
    c.m.nsets[0].ndf = 0;
  }
  {
    Conf& c = add("two processes", exo::grid(2, 1, 1), 0, 1, {"displacement", "stress"});
    c.np    = 2;
    c.part  = {0, 1};
  }
  if (opt.thorough()) {
    Conf& c = add("three processes", exo::assign_blocks(exo::grid(3, 2, 1), {0, 1, 0, 1, 1, 0}, {2, 5}), 2, 3, {"displacement", "velocity", "stress"});
    c.np    = 3;
    c.part  = {0, 1, 2, 2, 1, 0};
    add("many fields", exo::assign_blocks(exo::grid(2, 2, 1), {0, 1, 1, 0}, {1, 2}), 1, 2, {"displacement", "velocity", "internal_force", "stress", "volume", "ipt03_deformation_gradient"});
  }
  return r;
}
static std::set<std::string>
lines_of(const std::string& log)
{
  std::set<std::string> r;
  std::istringstream    s(log);
  std::string           l;
  while (std::getline(s, l)) {
    std::string t;  // without numbers
    for (char c : l)
      if (!isdigit((unsigned char)c) && !strchr("+-.", c)) t += c;
    r.insert(t);
  }
  return r;
}
static bool
same(const exo::Results& a, const exo::Results& b)
{
  return a.error.empty() && b.error.empty() && a.times == b.times && a.nodal == b.nodal && a.elem == b.elem && a.nvars == b.nvars && a.evars == b.evars && a.x == b.x && a.y == b.y && a.z == b.z && a.conn == b.conn &&
         a.block_ids == b.block_ids && a.block_names == b.block_names && a.node_map == b.node_map && a.elem_map == b.elem_map && a.ns_ids == b.ns_ids && a.ns_nodes == b.ns_nodes;
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  std::vector<Conf> cs = confs();
  for (auto& c : cs) {
    std::string dir = scratch_dir("c11r");
    prepare(c, dir);
    faults::reset();
    auto o = e2e::run(dir, {"d.in"}, c.np, 60, [] { faults::arm(faults::Config()); });
    if (!o.ok()) {
      total().violation("run", c.name + ": the undisturbed run fails: " + o.log.substr(0, 300));
      continue;
    }
    for (int p = 0; p < c.np; p++) c.whole.push_back(exo::read_results(dir + "/" + cases::piece("m.out.e", c.np, p)));
    c.lines = lines_of(o.log);
    auto* S = faults::shared();
    for (uint64_t i = 0; i < S->nops; i++) (S->ops[i].kind == 'E' ? c.ex : c.sys).push_back(S->ops[i]);
    remove_tree(dir);
    std::vector<Fault> fs;
    auto add = [&](faults::Config::Mode md, uint64_t i, int err, int pre, bool perform, bool sticky, const std::string& w, const std::string& cls) {
      Fault f;
      f.c.mode    = md;
      f.c.index   = i;
      f.c.err     = err;
      f.c.prefix  = pre;
      f.c.perform = perform;
      f.c.sticky  = sticky;
      f.what      = w;
      f.cls       = cls;
      fs.push_back(f);
    };
    for (size_t i = 0; i < c.ex.size(); i++)
      for (int k = 0; k < 2; k++)
        for (int s = 0; s < 2; s++)
          add(faults::Config::EXFAIL, i, -1, 0, k, s, "Exodus call " + std::to_string(i) + " (" + c.ex[i].file + ") fails" + (k ? " after doing its work" : "") + (s ? ", as do all later ones" : ""), c.ex[i].file);
    for (size_t i = 0; i < c.ex.size(); i++)
      if (std::string(c.ex[i].file) != "ex_open" && std::string(c.ex[i].file) != "ex_create")
        add(faults::Config::EXFAIL, i, 1, 0, true, false, "Exodus call " + std::to_string(i) + " (" + c.ex[i].file + ") warns", "warning of " + std::string(c.ex[i].file));
    size_t nex = fs.size();
    for (size_t i = 0; i < c.sys.size(); i++) {
      auto&       q = c.sys[i];
      std::string w = "file operation " + std::to_string(i) + " (" + q.kind + " of " + q.file + ", " + std::to_string(q.len) + ")";
      std::vector<int> errs{q.kind == 'w' ? ENOSPC : q.kind == 'o' || q.kind == 'c' ? EACCES : EIO};
      if (q.kind == 'r') errs.push_back(0);
      if (opt.thorough() && (q.kind == 'w' || q.kind == 'o' || q.kind == 'c')) errs.push_back(EIO);
      if (opt.thorough() && (q.kind == 'r' || q.kind == 'w')) errs.push_back(EINTR);
      for (int e : errs)
        for (int s = 0; s < 2; s++) {
          if (e == EINTR && s) continue;
          add(faults::Config::SYSFAIL, i, e, 0, false, s, w + " fails with " + (e ? strerror(e) : "end of file") + (s ? ", as do all later ones of its kind" : ""), std::string("operation ") + q.kind);
          if (q.kind == 'w' && q.len > 1) add(faults::Config::SYSFAIL, i, e, q.len / 2, false, s, w + " writes only half" + (s ? " and later ones fail" : ""), std::string("operation ") + q.kind);
        }
    }
    (void)nex;
    Stage st;
    st.name         = c.name;
    st.n            = fs.size();
    st.case_timeout = 60;
    st.describe     = [fs](size_t i) { return fs[i].what; };
    st.worker_init  = [] { faults::unshare(); };
    st.fn           = [&c, &fs](size_t i, Ctx& x) {
      std::string dir = scratch_dir("c11");
      prepare(c, dir);
      faults::reset();
      auto fc = fs[i].c;
      auto o  = e2e::run(dir, {"d.in"}, c.np, 60, [fc] { faults::arm(fc); });
      x.evaluations++;
      x.executions++;
      x.transitions += faults::shared()->nsys + faults::shared()->nex;
      x.distinct(hash_str(c.name + fs[i].what));
      std::string what = c.name + ", " + fs[i].what + ": ";
      auto*       S    = faults::shared();
      if (!S->fired) x.count("not reached");
      bool stopped = o.status != 0;
      if (c.np > 1 && !stopped)
        for (int s : o.rank_status)
          if (s != 0 && s != -999) stopped = true;
      // a message: a line the undisturbed run does not print
      bool message = false;
      for (auto& l : lines_of(o.log))
        if (!l.empty() && !c.lines.count(l)) message = true;
      std::string how = fs[i].c.mode == faults::Config::EXFAIL ? "Exodus call: " : "";
      uint64_t h = hash_str(how + std::to_string(o.status) + (message ? "m" : "") + S->first_error);
      if (o.status == -1000) x.violation(how + fs[i].cls + " hangs", what + "the run does not end");
      else if (stopped) {
        x.count(how + "stopped");
        if (!message) x.violation(how + fs[i].cls + " silent", what + "the run ends with status " + std::to_string(o.status) + " without a message");
        else if (o.status == -SIGSEGV || o.status == -SIGBUS || o.status == -SIGFPE) x.violation(how + fs[i].cls + " crash", what + "the run crashes: " + o.log.substr(0, 300));
      } else {
        bool eq = true;
        for (int p = 0; p < c.np; p++) eq = eq && same(exo::read_results(dir + "/" + cases::piece("m.out.e", c.np, p)), c.whole[p]);
        h = hmix(h, eq);
        if (fs[i].c.mode == faults::Config::EXFAIL && fs[i].c.err > 0) {
          x.count("Exodus warning: " + std::string(message ? "passed on" : "not passed on"));
          if (!message) x.violation(fs[i].cls + " silent", what + "a warning of the Exodus library is not passed on");
        } else if (S->ex_errors) x.violation(how + fs[i].cls + " ignored" + (eq ? " (results right)" : ""), what + "the Exodus library reports an error in " + S->first_error + ", but the run ends with status 0");
        else if (!eq && fs[i].c.sticky && fs[i].c.err && fs[i].c.mode == faults::Config::SYSFAIL)
          x.violation(fs[i].cls + " permanently failing ignored", what + "the results are incomplete, but the run ends with status 0");
        else if (!eq) {
          x.count("hidden by the Exodus library: " + fs[i].cls + " in " + S->during + " returning " + std::to_string(S->during_ret) + (fs[i].c.sticky ? ", later operations failing too" : ""));
          x.sample(what + S->during, 12);
        } else
          x.count("harmless");
      }
      x.state(h);
      x.outcome(h);
      remove_tree(dir);
    };
    run(st);
  }
  return finish();
}
