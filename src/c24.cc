// C24: every short material line through every reader of material lines, and whole runs, against an independent reading.
#include <nimble_kokkos_defs.h>
#include <nimble_kokkos_material_factory.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "bodies.h"
using namespace vh;

static const char* NAMES[3] = {"density", "bulk_modulus", "shear_modulus"};
// an independent reading of one line: 0 well formed, 1 to be refused, 2 a parameter is written more than once
struct Line
{
  int                           refuse = 0;  // must be refused as a material
  int                           refuse_list = 0;  // must be refused as a list of parameters (the material may be anything, parameters may be missing)
  bool                          twice = false, neo = false;
  std::map<std::string, std::vector<double>> v;
};
static bool
number(const std::string& s, double& d)
{
  // [sign] digits [. digits] [e [sign] digits], at least one digit before the exponent
  size_t i = 0, n = 0;
  auto   digits = [&] { size_t k = 0; while (i < s.size() && isdigit((unsigned char)s[i])) i++, k++; return k; };
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  n = digits();
  if (i < s.size() && s[i] == '.') i++, n += digits();
  if (!n) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    i++;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (!digits()) return false;
  }
  if (i != s.size()) return false;
  d = strtod(s.c_str(), nullptr);
  return std::isfinite(d);
}
static Line
reading(const std::string& text)
{
  Line                     l;
  std::vector<std::string> t;
  std::stringstream        ss(text);
  std::string              w;
  while (ss >> w) t.push_back(w);
  if (t.empty()) {
    l.refuse = l.refuse_list = 1;
    return l;
  }
  l.neo = t[0] == "neohookean";
  if (!l.neo && t[0] != "elastic") l.refuse = 1;
  if (t.size() < 2) l.refuse_list = 1;
  for (size_t i = 1; i < t.size(); i += 2) {
    double d;
    bool   known = std::find(NAMES, NAMES + 3, t[i]) != NAMES + 3;
    if (!known || i + 1 == t.size() || !number(t[i + 1], d)) {
      l.refuse = l.refuse_list = 1;
      return l;
    }
    l.v[t[i]].push_back(d);
    if (l.v[t[i]].size() > 1) l.twice = true;
  }
  if (l.v.size() < 3) l.refuse = 1;
  return l;
}
static bool
among(const std::vector<double>& v, double d)
{
  return std::find(v.begin(), v.end(), d) != v.end();
}
static std::string
judge(const Line& l, const nimble::Material* m, const char* how)
{
  if (l.refuse) return std::string("accepted ") + how;
  if (!m) return std::string("no material ") + how;
  if ((dynamic_cast<const nimble::NeohookeanMaterial*>(m) != nullptr) != l.neo) return std::string("the wrong material ") + how;
  if (!among(l.v.at("density"), m->GetDensity())) return std::string("density ") + fmt(m->GetDensity()) + " " + how;
  if (!among(l.v.at("bulk_modulus"), m->GetBulkModulus())) return std::string("bulk modulus ") + fmt(m->GetBulkModulus()) + " " + how;
  if (!among(l.v.at("shear_modulus"), m->GetShearModulus())) return std::string("shear modulus ") + fmt(m->GetShearModulus()) + " " + how;
  return "";
}
// a refusal carries a message, and is one of: an exception with a message (a stop with a message is looked at in a child)
static void
ask(const std::string& text, Ctx& x)
{
  Line l = reading(text);
  auto say = [&](const std::string& key, const std::string& what) { x.violation(key, what + " | material line \"" + text + "\""); };
  for (int how = 0; how < 3; how++) {
    const char* hn = how == 0 ? "through the array factory" : how == 1 ? "through the view factory" : "as a list of parameters";
    x.evaluations++;
    x.executions++;
    try {
      std::string bad;
      if (how == 0) {
        nimble::MaterialFactory f;
        f.parse_and_create(text, 8);
        bad = judge(l, f.get_material().get(), hn);
      } else if (how == 1) {
        nimble_kokkos::MaterialFactory f;
        f.parse_and_create(text);
        bad = judge(l, f.get_material_host().get(), hn);
        if (bad.empty()) bad = judge(l, f.get_material_device(), "on the device");
        if (f.get_material_device()) Kokkos::kokkos_free(f.get_material_device());
      } else {
        nimble::MaterialFactory f;
        auto                    m = f.parse_material_params_string(text);
        if (l.refuse_list) bad = std::string("accepted ") + hn;
        else if (m.size() != l.v.size()) bad = std::to_string(m.size()) + " parameters " + hn;
        else
          for (auto& p : l.v)
            if (!m.count(p.first) || !among(p.second, m.at(p.first))) bad = p.first + " " + hn + " is not the written value";
      }
      if (!bad.empty()) say(bad.substr(0, bad.find(' ')), bad);
    } catch (std::exception& e) {
      if (how < 2 ? !l.refuse && !l.twice : !l.refuse_list && !l.twice) say("refused", std::string("refused ") + hn + ": " + e.what());
      if (!e.what() || !*e.what()) say("no message", std::string("refused without a message ") + hn);
    }
  }
}
static void
ask_in_child(const std::string& text, Ctx& x)
{
  // lines that may stop the program
  Line l = reading(text);
  for (int how = 0; how < 3; how++) {
    std::string out;
    x.evaluations++;
    x.executions++;
    int fds[2];
    if (pipe(fds)) _exit(3);
    pid_t p = fork();
    if (p == 0) {
      dup2(fds[1], 1);
      dup2(fds[1], 2);
      close(fds[0]);
      close(fds[1]);
      try {
        nimble::MaterialFactory        f;
        nimble_kokkos::MaterialFactory g;
        if (how == 0) f.parse_and_create(text);
        if (how == 1) g.parse_and_create(text);
        if (how == 2) f.parse_material_params_string(text);
      } catch (std::exception& e) {
        printf("%s", e.what());
        fflush(stdout);
        _exit(1);
      }
      _exit(0);
    }
    close(fds[1]);
    char    b[512];
    ssize_t n;
    while ((n = read(fds[0], b, sizeof b)) > 0) out.append(b, n);
    close(fds[0]);
    int st = 0;
    waitpid(p, &st, 0);
    bool accepted = WIFEXITED(st) && WEXITSTATUS(st) == 0, must = how < 2 ? l.refuse : l.refuse_list;
    bool stopped  = (WIFEXITED(st) && WEXITSTATUS(st) == 1) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
    if (accepted == must || (must && (!stopped || out.empty())))
      x.violation("short line", std::string(accepted ? "accepted" : !stopped ? "crashed" : out.empty() ? "refused without a message" : "refused") + " | material line \"" + text + "\" way " + std::to_string(how));
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name        = name;
    st.n           = (n + per - 1) / per;
    st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.worker_init = [] {
      int  ac = 1;
      char a0[] = "x", *av[] = {a0, nullptr};
      if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
    };
    st.worker_fini = [] { fflush(stdout); };
    st.fn          = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
    };
    vh::run(st);
  };
  // no parameters at all
  std::vector<std::string> shorts{"", " ", "neohookean", "elastic ", "none", " density", "1"};
  blocks("short lines", shorts.size(), 1, [&](size_t i, Ctx& x) { ask_in_child(shorts[i], x); });
  // every sequence of words
  std::vector<std::string> W{"neohookean", "elastic", "density", "bulk_modulus", "shear_modulus", "foo", "2.5", "1e3", "x"};
  size_t                   n = 1;
  int                      depth = th ? 7 : 6;
  for (int k = 0; k < depth; k++) n *= W.size();
  blocks("words", n, 3000, [&](size_t i, Ctx& x) {
    // every length: a line ends at the first repetition of the last word in the remaining digits
    for (int len = 2; len <= depth; len++) {
      size_t k = i, lim = 1;
      for (int q = 0; q < len; q++) lim *= W.size();
      if (i >= lim) continue;  // each line of each length once
      std::string s;
      for (int q = 0; q < len; q++) {
        s += (q ? " " : "") + W[k % W.size()];
        k /= W.size();
      }
      ask(s, x);
    }
  });
  // complete lines: every order, with every pair of them written twice or an extra word anywhere
  std::vector<std::string> V{"1", "1.0", "2.", ".5", "+2.5", "-0.5", "1e3", "1.5E+3", "7.8e-9", "0", "1e-320", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "1e308",
                             "abc", "0x10", "1.2.3", "1,5", "1e", "1d3", "inf", "nan", "1e400", "5%", "--1", "1e5e5", "2.5m", "e3", "+", ".", "1_000", "1/2", "density", "\xc2\xbd"};
  blocks("numbers", V.size() * V.size() * V.size(), 500, [&](size_t i, Ctx& x) {
    size_t      a = i % V.size(), b = i / V.size() % V.size(), c = i / V.size() / V.size();
    int         ord[3] = {0, 1, 2};
    for (size_t k = 0; k < (i * 5 + i / 7) % 6; k++) std::next_permutation(ord, ord + 3);
    const std::string* v[3] = {&V[a], &V[b], &V[c]};
    std::string        s    = i % 2 ? "neohookean" : "elastic";
    for (int k : ord) s += std::string(" ") + NAMES[k] + " " + *v[k];
    ask(s, x);
  });
  std::vector<std::string> I{"foo", "3", "density 4", "bulk_modulus 4", "Density", "DENSITY 1", "poissons_ratio 0.3", "density 4 density 5", "elastic", ",", "density=3", "\"density\" 4"};
  blocks("orders", 2 * 6 * (1 + 7 * I.size()), 20, [&](size_t i, Ctx& x) {
    std::vector<std::string> w{i % 2 ? "neohookean" : "elastic"};
    int                      ord[3] = {0, 1, 2};
    for (size_t k = 0; k < i / 2 % 6; k++) std::next_permutation(ord, ord + 3);
    const char* v[3] = {"7.8", "1.6e11", "7.9e10"};
    for (int k : ord) {
      w.push_back(NAMES[k]);
      w.push_back(v[k]);
    }
    size_t e = i / 12;
    if (e && I[(e - 1) / 7][0] != '"') w.insert(w.begin() + 1 + (e - 1) % 7, I[(e - 1) / 7]);
    std::string s;
    for (auto& q : w) s += (s.empty() ? "" : " ") + q;
    ask(s, x);
  });
  // every spacing
  blocks("spacing", 2 * 6561 * 2, 500, [&](size_t i, Ctx& x) {
    std::string s = i % 2 ? "neohookean" : "elastic";
    const char* w[6] = {"shear_modulus", "3.5", "density", "2", "bulk_modulus", "1e2"};
    size_t      k = i / 2;
    s = std::string(k % 3, ' ') + s;
    k /= 3;
    for (auto q : w) {
      s += std::string(1 + k % 3, ' ') + q;
      k /= 3;
    }
    s += std::string(k % 6, ' ');
    ask(s, x);
  });
  // names
  std::vector<std::string> N{"neohookean", "elastic", "Neohookean", "ELASTIC", "neohookean2", "elasti", "neo", "none", "hypo", "elastic;", "-", "neo-hookean"};
  blocks("names", N.size() * 2, 1, [&](size_t i, Ctx& x) { ask(N[i / 2] + (i % 2 ? " density 1 bulk_modulus 2 shear_modulus 3" : " shear_modulus 3 density 1.5 bulk_modulus 2e1"), x); });

  // whole runs: two blocks, each with its line
  struct R
  {
    std::string l[2];
    int         np;
    bool        other;  // the second process sees no element of the first block
  };
  std::vector<R>           rs;
  std::vector<std::string> good, bad;
  for (int o = 0; o < 6; o++) {
    int ord[3] = {0, 1, 2};
    for (int k = 0; k < o; k++) std::next_permutation(ord, ord + 3);
    const char* v[3][3] = {{"1.5", "10", "5"}, {"2.5e0", "1.2E+1", ".4e1"}, {"+0.8", "20.", "3"}};
    for (int n = 0; n < 3; n++) {
      std::string s = (o + n) % 2 ? "elastic" : "neohookean";
      for (int k : ord) s += std::string(1 + (o + k) % 3, ' ') + NAMES[k] + std::string(1 + n, ' ') + v[n][k];
      good.push_back(s);
    }
  }
  std::string base = " density 1 bulk_modulus 10 shear_modulus 5";
  bad = {"neohookean", "Neohookean" + base, "rubber" + base, "elastic density 1 bulk_modulus 10", "elastic bulk_modulus 10 shear_modulus 5", "neohookean density 1 shear_modulus 5", "elastic" + base + " foo 1", "neohookean" + base + " density", "elastic density 1 bulk_modulus 10 shear_modulus",
         "elastic density 1 bulk_modulus ten shear_modulus 5", "neohookean density 1x bulk_modulus 10 shear_modulus 5", "neohookean density 1 bulk_modulus 10 shear_modulus 5,0", "elastic Density 1 bulk_modulus 10 shear_modulus 5", "elastic density bulk_modulus 10 shear_modulus 5", "1" + base, "density 1 bulk_modulus 10 shear_modulus 5"};
  for (size_t i = 0; i < good.size(); i++)
    for (size_t j = 0; j < good.size(); j++) {
      rs.push_back({{good[i], good[j]}, 1 + (int)((i + j) % 2), false});
    }
  for (size_t i = 0; i < bad.size(); i++)
    for (int w = 0; w < 2; w++)
      for (int np = 1; np <= 2; np++) {
        R r{{good[i % good.size()], good[(i * 5 + 1) % good.size()]}, np, false};
        r.l[w] = bad[i];
        rs.push_back(r);
      }
  Stage st;
  st.name         = "runs";
  st.n            = rs.size();
  st.chunk        = 4;
  st.case_timeout = 60;
  st.describe     = [&](size_t i) { return rs[i].l[0] + " / " + rs[i].l[1]; };
  st.fn           = [&](size_t i, Ctx& x) {
    R&   r = rs[i];
    auto m = exo::assign_blocks(cases::distort(exo::grid(2, 1, 1), 1), {0, 1}, {4, 9});
    if (r.np > 1) {
      for (size_t k = 0; k < m.X.size(); k++) m.node_ids.push_back(k + 1);
      m.elem_ids = {1, 2};
    }
    cases::sets(m);
    ref::Deck d;
    d.bcs   = cases::conditions(1);
    d.steps = 3;
    d.t1    = 0.15;
    d.mats.clear();
    bool refuse = false;
    for (int k = 0; k < 2; k++) {
      Line l = reading(r.l[k]);
      refuse = refuse || l.refuse;
      ref::Mat mt;
      if (!l.refuse) {
        mt.law = l.neo ? "neohookean" : "elastic";
        mt.rho = l.v["density"][0];
        mt.K   = l.v["bulk_modulus"][0];
        mt.G   = l.v["shear_modulus"][0];
      }
      d.mats.push_back(mt);
    }
    d.block_mat = {{4, 0}, {9, 1}};
    std::string text = ref::deck_text(d, m), out;
    std::stringstream ss(text);
    std::string       line;
    int               q = 0;
    while (std::getline(ss, line)) {
      if (line.compare(0, 20, "material parameters:") == 0) {
        line = "material parameters: material_" + std::to_string(q + 1) + " " + r.l[q];
        q++;
      }
      out += line + "\n";
    }
    std::string dir   = scratch_dir("c24");
    auto        parts = r.np > 1 ? exo::split(m, {0, 1}, 2, false) : std::vector<exo::Mesh>{m};
    for (int p = 0; p < r.np; p++) {
      std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", r.np, p), parts[p]);
      if (!e.empty()) _exit(3);
    }
    write_file(dir + "/d.in", out);
    x.evaluations++;
    x.executions++;
    x.transitions += 3;
    auto        o    = e2e::run(dir, {"d.in"}, r.np);
    std::string name = "material lines \"" + r.l[0] + "\" and \"" + r.l[1] + "\" on " + std::to_string(r.np) + " processes";
    x.distinct(hash_str(name));
    x.sample(name);
    if (refuse) {
      x.count("runs to be refused");
      if (o.status == 0) x.violation("run accepted", "the run ended as if nothing was wrong | " + name);
      else if (o.status == -1000 || o.status == -SIGSEGV) x.violation("run crashed", "the run ended with status " + std::to_string(o.status) + " | " + name);
      else if (o.log.find("rror") == std::string::npos && o.log.find("nvalid") == std::string::npos && o.log.find("xception") == std::string::npos && o.log.find("ssert") == std::string::npos && o.log.find("ASSERT") == std::string::npos && o.log.find("xist") == std::string::npos && o.log.find("aterial") == std::string::npos)
        x.violation("run silent", "the run was refused without a message: " + o.log.substr(0, 300) + " | " + name);
    } else if (!o.ok())
      x.violation("run refused", "the run ended with status " + std::to_string(o.status) + " | " + name);
    else if (r.np == 1) {
      auto res = exo::read_results(dir + "/m.out.e");
      for (auto& b : ref::compare(res, m, d, ref::simulate(m, d))) x.violation("run " + b.substr(0, b.find('|')), b.substr(b.find('|') + 1) + " | " + name);
    } else {
      // nodal values of both processes
      auto full = ref::simulate(m, d);
      for (int p = 0; p < 2; p++) {
        auto res = exo::read_results(dir + "/" + cases::piece("m.out.e", 2, p));
        int  v   = res.error.empty() ? res.nv("lumped_mass") : -1, f = res.error.empty() ? res.nv("internal_force_x") : -1;
        if (v < 0 || f < 0 || res.nodal.size() != full.planes.size()) {
          x.violation("run results", "no results | " + name);
          continue;
        }
        for (size_t s = 0; s < res.nodal.size(); s++)
          for (size_t k = 0; k < res.nodal[s][v].size(); k++) {
            int g = parts[p].node_ids[k] - 1;
            if (!(std::fabs(res.nodal[s][v][k] - full.mass[g]) <= 1e-11 * full.mass[g])) x.violation("run mass", "mass of node " + std::to_string(g) + " | " + name);
            if (!(std::fabs(res.nodal[s][f][k] - full.planes[s].f[g][0]) <= 1e-9)) x.violation("run force", "force on node " + std::to_string(g) + " | " + name);
          }
      }
    }
    remove_tree(dir);
  };
  vh::run(st);
  note("bounds", "every line of up to " + std::to_string(depth) + " of " + std::to_string(W.size()) + " words; complete lines in every order with " + std::to_string(V.size()) + " notations for each of the three values, extra words at every place, every spacing of one to three blanks; through three readers; runs with two blocks");
  return finish();
}
