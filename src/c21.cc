// C21: file names of every process of every process count, as function values and as files of whole runs.
#include <dirent.h>
#include <nimble_parser.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;

// the documented rule: base (without its .g or .e suffix), tag, extension, process count, padded index
static std::string
rule(std::string name, const std::string& ext, const std::string& tag, int r, int n)
{
  if (name.size() > 2 && name[name.size() - 2] == '.' && (name.back() == 'g' || name.back() == 'e')) name = name.substr(0, name.size() - 2);
  if (!tag.empty()) name += "." + tag;
  name += "." + ext;
  return cases::piece(name, n, r);
}
static void
list(const std::string& d, const std::string& pre, std::map<std::string, std::string>& out)
{
  DIR* p = opendir(d.c_str());
  if (!p) return;
  while (dirent* e = readdir(p)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    stat((d + "/" + n).c_str(), &st);
    if (S_ISDIR(st.st_mode)) list(d + "/" + n, pre + n + "/", out);
    else out[pre + n] = read_file(d + "/" + n);
  }
  closedir(p);
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  std::vector<std::string> stems{"a", "mesh", "wave_in_bar", "m.1", "v1.0", "m.grid", "run.exp", "my.example/mesh", "dir.g/m", "dir.e/m.x", "../up/m", "./m", "/tmp/x.y/m", "m g", "two words/m", "g", "e", "ge.", "m.g.x", "m.e.4", "none.x", "a.b.c.d", "M", "mesh-2_b", ".hidden"};
  std::vector<std::string> names;
  for (auto& s : stems)
    for (std::string x : {".g", ".e", "", ".gen", ".exo", ".g.g", ".e.g", ".G"}) {
      // a name that ends in .g or .e once the suffix is added is what the rule is about; others are taken whole
      names.push_back(s + x);
    }
  std::vector<std::pair<std::string, std::string>> kinds{{"g", ""}, {"e", "out"}, {"e", "contact"}, {"x", "a.b"}};
  int N = th ? 1100 : 130;
  Stage st;
  st.name     = "names";
  st.n        = names.size() * kinds.size();
  st.describe = [&](size_t i) { return names[i / kinds.size()] + " " + kinds[i % kinds.size()].first; };
  st.fn       = [&](size_t i, Ctx& x) {
    const std::string& nm = names[i / kinds.size()];
    auto&              k  = kinds[i % kinds.size()];
    for (int n = 1; n <= N; n++) {
      std::set<std::string> seen;
      for (int r = 0; r < n; r++) {
        x.executions++;
        x.evaluations++;
        std::string w = rule(nm, k.first, k.second, r, n), g = nimble::IOFileName(nm, k.first, k.second, r, n);
        if (g != w) x.violation("name " + nm, "process " + std::to_string(r) + " of " + std::to_string(n) + " uses '" + g + "' for '" + nm + "', expected '" + w + "'");
        if (!seen.insert(g).second) x.violation("shared " + nm, "two of " + std::to_string(n) + " processes use '" + g + "' for '" + nm + "'");
        if (n <= 12 || r == 0 || r == n - 1) x.outcome(hash_str(g));
        x.state(hash_str(g));
      }
      if (n == 1 && nimble::IOFileName(nm, k.first, k.second) != rule(nm, k.first, k.second, 0, 1)) x.violation("default " + nm, "the default name of '" + nm + "' is '" + nimble::IOFileName(nm, k.first, k.second) + "'");
    }
    for (int n : {1, 2, 9, 10, 11, 100})
      for (int r = 0; r < n; r++)
        for (int t : {1, 2, 10, 16})
          for (int q = 0; q < t; q++) {
            char buf[512];
            x.executions++;
            nimble::IOFileNameThreadSafe(nm.c_str(), k.first.c_str(), k.second.c_str(), r, n, q, t, buf);
            std::string w = cases::piece(rule(nm, k.first, k.second, r, n), t, q);
            if (w != buf) x.violation("threaded name " + nm, "thread " + std::to_string(q) + " of " + std::to_string(t) + " of process " + std::to_string(r) + " of " + std::to_string(n) + " uses '" + buf + "', expected '" + w + "'");
          }
    x.distinct(hash_str(st.describe(i)));
    x.sample(st.describe(i) + " -> " + nimble::IOFileName(nm, k.first, k.second, 3, 12), 5);
  };
  vh::run(st);

  // whole runs: the files read and written
  struct R { std::string in, out; int np; bool contact; };
  std::vector<R> rs;
  for (std::string in : {"m.g", "mesh", "sub.ex/m.g", "my mesh.g", "run.grid.g"})
    for (std::string out : {"m.e", "results", "sub.ex/r.e", "o.gate.e"})
      for (int np : {1, 2, 3, 4, 10, 12})
        if (th || np <= 3 || (in == "m.g" && (np == 10 || out == "m.e"))) rs.push_back({in, out, np, false});
  for (int np : {1, 2, 10}) rs.push_back({"m.g", "m.e", np, true});
  for (int np : {100, 101}) rs.push_back({"m.g", "m.e", np, false});
  Stage rr;
  rr.name     = "runs";
  rr.n        = rs.size();
  rr.describe = [&](size_t i) { return rs[i].in + " " + rs[i].out + " on " + std::to_string(rs[i].np); };
  rr.fn       = [&](size_t i, Ctx& x) {
    const R&    c   = rs[i];
    std::string dir = scratch_dir("c21"), nm = rr.describe(i);
    mkdir((dir + "/sub.ex").c_str(), 0755);
    exo::Mesh m = exo::grid(std::max(c.np, 2), 1, 1);
    cases::sets(m);
    std::vector<int> part;
    for (int e = 0; e < m.nelem(); e++) part.push_back(e % c.np);
    auto pcs = exo::split(m, part, c.np);
    for (int p = 0; p < c.np; p++)
      if (!exo::write_genesis(dir + "/" + rule(c.in, "g", "", p, c.np), c.np == 1 ? m : pcs[p]).empty()) _exit(3);
    // a decoy under the plain name must not be used by a split run
    if (c.np > 1 && !exo::write_genesis(dir + "/" + rule(c.in, "g", "", 0, 1), cases::distort(m, 1)).empty()) _exit(3);
    ref::Deck d;
    d.mesh_file = c.in;
    d.out_file  = c.out;
    d.steps     = 2;
    d.fields    = {"displacement"};
    if (c.contact) d.extra = "contact: primary_blocks block_1 secondary_blocks block_1 penalty_parameter 1.0\ncontact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name vis.e\n";
    write_file(dir + "/d.in", ref::deck_text(d, m));
    std::map<std::string, std::string> a, b;
    list(dir, "", a);
    auto o = e2e::run(dir, {"d.in"}, c.np);
    unlink((dir + "/run.log").c_str());
    list(dir, "", b);
    x.executions++;
    x.evaluations++;
    x.distinct(hash_str(nm));
    std::set<std::string> want;
    for (int p = 0; p < c.np; p++) {
      std::string f = rule(c.out, "e", "out", p, c.np);
      want.insert(f);
      if (c.contact) want.insert(rule("vis.e", "e", "out", p, c.np));
    }
    if (!o.ok()) x.violation("status " + nm, "the run ended with status " + std::to_string(o.status) + " | " + nm);
    for (auto& f : a)
      if (b[f.first] != f.second) x.violation("input changed " + nm, "the run changed " + f.first + " | " + nm);
    for (auto& f : b)
      if (!a.count(f.first) && !want.count(f.first)) x.violation("other file " + nm, "the run wrote " + f.first + " | " + nm);
    for (auto& f : want) {
      if (!b.count(f)) {
        x.violation("missing " + nm, "the run did not write " + f + " | " + nm);
        continue;
      }
      if (f.find("vis") == 0) continue;
      auto q = exo::read_results(dir + "/" + f);
      int  p = 0;
      while (rule(c.out, "e", "out", p, c.np) != f) p++;
      const exo::Mesh& mp = c.np == 1 ? m : pcs[p];
      bool             ok = q.error.empty() && q.nn == (int)mp.X.size() && q.ne == mp.nelem();
      for (int k = 0; ok && k < q.nn; k++) ok = q.x[k] == mp.X[k][0] && q.y[k] == mp.X[k][1] && q.z[k] == mp.X[k][2];
      if (!ok) x.violation("contents " + nm, f + " does not hold the mesh of its process | " + nm);
    }
    remove_tree(dir);
  };
  vh::run(rr);
  note("bounds", "all process counts up to " + std::to_string(N) + " with all their processes, " + std::to_string(names.size()) + " names, 4 kinds; whole runs on up to 12 processes");
  return finish();
}
