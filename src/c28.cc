// C28: every short command line, parsed by the real option parser (in every build configuration of it) and by an independent reading.
#include <nimble_parser.h>
#include <sys/stat.h>
#include <tpl_include/CLI11/CLI11.hpp>
#include <unistd.h>

#include <nimble_cli.h>
#include <nimble.h>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;

// the option parser with every combination of optional features
#undef NIMBLE_HAVE_VT
#undef NIMBLE_HAVE_UQ
#undef NIMBLE_HAVE_TRILINOS
#undef NIMBLE_CLI_H
#define nimble nimble_k0
#include "nimble_cli.cc"
#undef nimble
#undef NIMBLE_CLI_H
#define NIMBLE_HAVE_UQ
#define nimble nimble_k1
#include "nimble_cli.cc"
#undef nimble
#undef NIMBLE_CLI_H
#define NIMBLE_HAVE_VT
#define NIMBLE_HAVE_TRILINOS
#define nimble nimble_k2
#include "nimble_cli.cc"
#undef nimble
#undef NIMBLE_HAVE_VT
#undef NIMBLE_CLI_H
#define nimble nimble_k3
#include "nimble_cli.cc"
#undef nimble

struct Got { int code; bool tp, vt, uq; std::string in; };
template <class C>
static Got
parse(std::vector<std::string> args)
{
  args.insert(args.begin(), "NimbleSM");
  std::vector<char*> v;
  for (auto& a : args) v.push_back(&a[0]);
  v.push_back(nullptr);
  C c(args.size(), v.data());
  c.ConfigureCommandLineArguments();
  Got g;
  g.code = c.ParseAndGetErrorCode();
  g.tp   = c.UseTpetra();
  g.vt   = c.UseVT();
  g.uq   = c.UseUQ();
  g.in   = c.InputFilename();
  return g;
}
// an independent reading; returns false when the line must be refused
static bool
reading(const std::vector<std::string>& a, bool htp, bool hvt, bool huq, Got& g, bool& help)
{
  g    = {0, false, false, false, ""};
  help = false;
  bool pos = false, ok = true, have = false;
  for (auto& s : a) {
    if (!pos && s == "--") {
      pos = true;
      continue;
    }
    if (!pos && (s == "-h" || s == "--help")) {
      help = true;
      continue;
    }
    if (!pos && s.substr(0, 5) == "--use") {
      std::string n = s, v = "true";
      auto        q = s.find('=');
      if (q != std::string::npos) n = s.substr(0, q), v = s.substr(q + 1);
      bool on = v == "true";
      if (n == "--use_tpetra") g.tp = on, ok &= htp;
      else if (n == "--use_vt") g.vt = on, ok &= hvt;
      else if (n == "--use_uq") g.uq = on, ok &= huq;
      continue;
    }
    if (!pos && s[0] == '-') continue;  // left to the libraries
    if (!have) {
      have = true;
      g.in = s;
      struct stat st;
      ok &= stat(s.c_str(), &st) == 0 && !S_ISDIR(st.st_mode);
    }
  }
  return ok && have;
}
static std::string
join(const std::vector<std::string>& v)
{
  std::string s;
  for (auto& a : v) s += (s.empty() ? "" : " ") + a;
  return s;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  std::vector<std::string> tok{"--use_tpetra", "--use_vt", "--use_uq", "d.in", "other.in", "missing.in", "dir", "--kokkos-threads=2", "--use_tpetra=false", "--use_uq=true", "-h", "--help", "--", "--use", "-x", "two words.in", "--use_vt=true"};
  int len = th ? 5 : 4;
  size_t k = tok.size(), total = 0, c = 1;
  std::vector<size_t> start;
  for (int l = 0; l <= len; l++) {
    start.push_back(total);
    total += c;
    c *= k;
  }
  auto line = [=](size_t i) {
    int l = len;
    while (i < start[l]) l--;
    i -= start[l];
    std::vector<std::string> v;
    for (int j = 0; j < l; j++, i /= k) v.push_back(tok[i % k]);
    return v;
  };
  size_t blk = 100;
  Stage  st;
  st.name        = "lines";
  st.n           = (total + blk - 1) / blk;
  st.describe    = [&](size_t b) { return join(line(b * blk)); };
  st.worker_init = [] {
    new Quiet;
    std::string d = scratch_dir("c28");
    if (chdir(d.c_str())) _exit(3);
    for (std::string f : {"d.in", "other.in", "two words.in"}) write_file(f, "x\n");
    mkdir("dir", 0755);
  };
  st.fn = [&](size_t b, Ctx& x) {
    struct K { const char* name; Got (*f)(std::vector<std::string>); bool tp, vt, uq; };
    static const K ks[] = {{"this build", parse<nimble::CommandLineConfiguration>, true, false, false},
                           {"a build without options", parse<nimble_k0::CommandLineConfiguration>, false, false, false},
                           {"a build with UQ", parse<nimble_k1::CommandLineConfiguration>, false, false, true},
                           {"a build with all", parse<nimble_k2::CommandLineConfiguration>, true, true, true},
                           {"a build with Tpetra and UQ", parse<nimble_k3::CommandLineConfiguration>, true, false, true}};
    for (size_t i = b * blk; i < std::min(total, (b + 1) * blk); i++) {
      auto a = line(i);
      for (auto& q : ks) {
        Got  w, g = q.f(a);
        bool help, ok = reading(a, q.tp, q.vt, q.uq, w, help);
        x.executions++;
        x.evaluations++;
        std::string nm = join(a) + " | " + q.name;
        uint64_t    h  = hash_str(g.in, g.code * 8 + g.tp * 4 + g.vt * 2 + g.uq);
        x.outcome(h);
        x.state(hmix(h, hash_str(nm)));
        if (help) continue;  // checked on whole runs
        if (ok != (g.code == 0)) {
          x.violation((ok ? "refused " : "accepted ") + join(a), "the command line is " + std::string(ok ? "refused with code " + std::to_string(g.code) : std::string("accepted")) + " | " + nm);
          continue;
        }
        if (!ok) {
          x.count("refused");
          continue;
        }
        if (g.tp != w.tp) x.violation("tpetra " + join(a), std::string("Tpetra is ") + (g.tp ? "on" : "off") + " | " + nm);
        if (g.vt != w.vt) x.violation("vt " + join(a), std::string("VT is ") + (g.vt ? "on" : "off") + " | " + nm);
        if (g.uq != w.uq) x.violation("uq " + join(a), std::string("UQ is ") + (g.uq ? "on" : "off") + " | " + nm);
        if (g.in != w.in) x.violation("deck " + join(a), "the deck is '" + g.in + "', expected '" + w.in + "' | " + nm);
      }
    }
    x.distinct(b);
    x.sample(join(line(b * blk + 7)), 4);
  };
  vh::run(st);

  // whole runs: which deck is run, and whether with Tpetra
  exo::Mesh m = exo::grid(2, 1, 1);
  cases::sets(m);
  std::vector<std::string> rt{"--use_tpetra", "d.in", "e.in", "--help", "-h", "--use_vt", "--use_uq", "missing.in", "--", "-x", "--use_tpetra=false"};
  std::vector<std::vector<std::string>> rl{{}};
  for (size_t b = 0, l = 0; l < (th ? 4 : 3); l++) {
    size_t e = rl.size();
    for (; b < e; b++)
      for (auto& t : rt) {
        auto v = rl[b];
        v.push_back(t);
        rl.push_back(v);
      }
  }
  Stage rr;
  rr.name     = "runs";
  rr.n        = rl.size();
  rr.chunk    = 8;
  rr.describe = [&](size_t i) { return join(rl[i]); };
  rr.fn       = [&](size_t i, Ctx& x) {
    Got  w;
    bool help;
    std::string dir = scratch_dir("c28r"), nm = join(rl[i]);
    if (!exo::write_genesis(dir + "/m.g", m).empty()) _exit(3);
    for (std::string f : {"d", "e"}) {
      ref::Deck d;
      d.out_file = f + ".e";
      d.steps    = 1;
      d.fields   = {"displacement"};
      write_file(dir + "/" + f + ".in", ref::deck_text(d, m));
    }
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd) || chdir(dir.c_str())) _exit(3);
    bool ok = reading(rl[i], true, false, false, w, help);
    if (chdir(cwd)) _exit(3);
    auto o = e2e::run(dir, rl[i]);
    x.executions++;
    x.evaluations++;
    x.distinct(hash_str(nm));
    bool fd = access((dir + "/d.out.e").c_str(), F_OK) == 0, fe = access((dir + "/e.out.e").c_str(), F_OK) == 0;
    x.outcome(o.status * 4 + fd * 2 + fe);
    if (help) {
      x.count("help");
      if (o.status != 0 && ok) x.violation("help status " + nm, "asking for help ended with status " + std::to_string(o.status) + " | " + nm);
      if (fd || fe) x.violation("help run " + nm, "asking for help ran a deck | " + nm);
      if (o.status == 0 && o.log.find("--use_tpetra") == std::string::npos) x.violation("help text " + nm, "asking for help printed no options | " + nm);
      if (o.status < 0 || o.status == 134) x.violation("help crash " + nm, "asking for help crashed with status " + std::to_string(o.status) + " | " + nm);
    } else if (!ok) {
      if (o.status == 0 || fd || fe) x.violation("run accepted " + nm, "a refused command line ran | " + nm);
      if (o.status < 0 || o.status == 134) x.violation("refusal crash " + nm, "a refused command line crashed with status " + std::to_string(o.status) + " | " + nm);
      if (o.log.empty()) x.violation("refusal text " + nm, "a refused command line printed nothing | " + nm);
    } else {
      if (o.status != 0) x.violation("run status " + nm, "the run ended with status " + std::to_string(o.status) + " | " + nm);
      if (fd != (w.in == "d.in") || fe != (w.in == "e.in")) x.violation("run deck " + nm, "another deck than " + w.in + " was run | " + nm);
      bool tp = o.log.find("Using Tpetra") != std::string::npos;
      if (tp != w.tp) x.violation("run tpetra " + nm, std::string("the run was ") + (tp ? "" : "not ") + "made with Tpetra | " + nm);
    }
    remove_tree(dir);
  };
  vh::run(rr);
  note("bounds", "all command lines of up to " + std::to_string(len) + " of 17 words in five build configurations; whole runs of up to " + (th ? "4" : "3") + " of 11 words");
  return finish();
}
