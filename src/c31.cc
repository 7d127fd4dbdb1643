// C31: whole runs with instrumented memory: valid inputs against the reference model while fresh memory holds
// a pattern, and every single-place corruption of decks, meshes, sample files and command lines.
#include <nimble.h>
#include <nimble_expression_parser.h>
#include <sanitizer/asan_interface.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <sstream>

#include "cases.h"
#include "contact.h"
#include "contact_run.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using exo::Mesh;

extern "C" const char*
__asan_default_options()
{
  return "detect_leaks=0:handle_abort=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
         "max_free_fill_size=1000000:free_fill_byte=85:detect_stack_use_after_return=0:quarantine_size_mb=16:allow_user_segv_handler=0:detect_odr_violation=0";
}
extern "C" const char*
__ubsan_default_options()
{
  return "print_stacktrace=0:halt_on_error=0";
}

struct App : nimble::NimbleApplication
{
  std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override { return std::make_unique<Brute>(); }
};
struct Input
{
  std::vector<Mesh>        parts;  // one: unsplit
  std::string              deck, samples;
  std::vector<std::string> args;  // before the deck
  std::string              rawmesh;  // instead of the first part
  bool                     brute = false, noname = false;
};
// the part of a report that names the place
static std::string
place(const std::string& log)
{
  std::string s;
  size_t      p = log.find("runtime error:");
  if (p != std::string::npos) {
    size_t b = log.rfind('\n', p), e = log.find('\n', p);
    s        = log.substr(b + 1, e - b - 1);
    size_t q = s.find("/src/");
    if (q != std::string::npos) s = s.substr(q + 5);
    // line numbers and values are no part of the key
    std::string k;
    size_t      c = s.find(':');
    k             = s.substr(0, c) + s.substr(s.find("runtime error:") + 13);
    std::string o;
    for (char ch : k)
      if (!isdigit(ch)) o += ch;
    return o.substr(0, 110);
  }
  p = log.find("ERROR: AddressSanitizer:");
  if (p != std::string::npos) {
    std::istringstream in(log.substr(p + 25));
    std::string        kind, line, fn;
    in >> kind;
    while (std::getline(in, line)) {
      size_t q = line.find("/src/");
      if (line.find("    #") == std::string::npos || q == std::string::npos || line.find("/verif/") != std::string::npos) continue;
      size_t i = line.find(" in ");
      fn       = i == std::string::npos ? "" : line.substr(i + 4, line.find('(', i) - i - 4);
      break;
    }
    return kind + " in " + fn.substr(0, 90);
  }
  p = log.find("Assertion '");
  if (p != std::string::npos && log.find("/c++/") != std::string::npos) return "library assertion " + log.substr(p + 10, log.find('\'', p + 11) - p - 9);
  p = log.find("buffer overflow detected");
  if (p != std::string::npos) return "buffer overflow detected";
  p = log.find("stack smashing");
  if (p != std::string::npos) return "stack smashing";
  p = log.find("free(): ");
  if (p != std::string::npos) return "invalid free";
  return "";
}
static e2e::Outcome
go(const std::string& dir, const Input& in)
{
  int np = in.parts.size();
  for (int p = 0; p < np; p++) {
    std::string f = dir + "/" + cases::piece("m.g", np, p);
    if (p == 0 && !in.rawmesh.empty()) write_file(f, in.rawmesh);
    else exo::write_genesis(f, in.parts[p]);  // what the library refuses to write stays out
  }
  if (!in.noname) write_file(dir + "/d.in", in.deck);
  if (!in.samples.empty()) write_file(dir + "/s.dat", in.samples);
  auto a = in.args;
  if (!in.noname) a.push_back("d.in");
  e2e::AppMaker mk;
  if (in.brute) mk = [] { return std::unique_ptr<nimble::NimbleApplication>(new App); };
  return e2e::run(dir, a, np, 120, {}, {}, mk);
}
// what is wrong with how a run ended, or ""
static std::string
fault(const e2e::Outcome& o)
{
  std::string s = place(o.log);
  if (!s.empty()) return s;
  if (o.status == -1000) return "does not end";
  if (o.status == 99) return "memory error";
  if (o.status < 0 && o.status != -6) return "ended by signal " + std::to_string(-o.status);
  if (o.status == -6 && o.log.find("terminate") == std::string::npos && o.log.size() < 5) return "ended without a message";
  return "";
}
static void
tell(const std::string& what, const e2e::Outcome& o, const std::string& f, Ctx& x)
{
  size_t p = o.log.find("ERROR: Addr");
  if (p == std::string::npos) p = o.log.find("runtime error");
  if (p == std::string::npos) p = o.log.size() > 500 ? o.log.size() - 500 : 0;
  x.violation(f, what + ": " + f + " | status " + std::to_string(o.status) + " " + o.log.substr(p > 120 ? p - 120 : 0, 900));
}
// "... identifier n" or "identifier map k with n", n negative or at least 2^24
static bool
wild_identifier(const std::string& what)
{
  size_t p = what.find("identifier");
  if (p == std::string::npos) return false;
  p = what.rfind(' ');
  long n = atol(what.c_str() + p + 1);
  return n < 0 || n >= 1 << 24;
}
// a run of a corrupted input
static void
survive(const std::string& what, const Input& in, Ctx& x)
{
  std::string dir = scratch_dir("c31");
  auto        o   = go(dir, in);
  x.evaluations++;
  x.executions++;
  x.distinct(hash_str(what));
  x.count(o.status == 0 ? "completed" : "refused");
  x.outcome(hash_str(o.log.substr(0, 120), o.status));
  std::string f = fault(o);
  if (!f.empty() && f.find("contact_manager.cc") != std::string::npos && what.find("mesh 1:") != std::string::npos && wild_identifier(what)) f = "contact identifiers past their range: " + f;
  if (!f.empty()) tell(what, o, f, x);
  // elements and sets that name nodes the mesh does not have
  if (o.status == 0 && what.find(" is node ") != std::string::npos) x.violation("missing node accepted", what + ": the run ends as if nothing was wrong");
  remove_tree(dir);
}
static std::string
quasi()
{
  return "time integration scheme: quasistatic\nnonlinear solver relative tolerance: 1.0e-8\nnonlinear solver maximum iterations: 60\n";
}
// ---- valid runs
struct Valid
{
  Mesh             m;
  ref::Deck        d;
  Input            in;
  bool             compare = true;
  std::string      name;
};
static Mesh
body(int k)
{
  Mesh m;
  if (k == 0) m = exo::grid(1, 1, 1);
  if (k == 1) m = exo::assign_blocks(exo::grid(2, 1, 1), {0, 1}, {7, 2}, {"first", ""});
  if (k == 2) m = exo::assign_blocks(cases::distort(exo::grid(2, 2, 1), 1), {0, 1, 1, 2}, {3, 1, 5}, {"", "a_block", ""});
  if (k == 3) m = exo::assign_blocks(exo::grid(3, 1, 1), {0, 0, 0}, {1, 2}, {"", "nothing"});
  cases::sets(m);
  if (k == 2) {
    m.node_ids.clear();
    for (size_t i = 0; i < m.X.size(); i++) m.node_ids.push_back(3 * (m.X.size() - i) + 5);
    for (int i = 0; i < m.nelem(); i++) m.elem_ids.push_back(100 - 7 * i);
  }
  if (k == 1) m.ssets.push_back({4, "side", {0, 1}, {1, 6}, -1});
  return m;
}
static std::vector<Valid>
valid(bool th)
{
  std::vector<Valid> r;
  std::vector<std::vector<std::string>> fields{cases::all_fields(), {"velocity"}, {"ipt03_stress", "volume"}};
  for (int b = 0; b < 4; b++)
    for (int c = -1; c < 4; c++)
      for (size_t f = 0; f < fields.size(); f++)
        for (int freq = 0; freq < 3; freq++)
          for (int mat = 0; mat < 2; mat++)
            for (int np = 1; np <= (b == 0 ? 1 : th ? 3 : 2); np++) {
              if (!th && (b + c + f + freq + mat) % 2) continue;
              Valid v;
              v.m        = body(b);
              v.d.mats   = cases::materials();
              v.d.steps  = 4;
              v.d.t1     = 0.1;
              v.d.freq   = freq;
              v.d.fields = fields[f];
              v.d.bcs    = cases::conditions(c);
              for (size_t k = 0; k < v.m.blocks.size(); k++) v.d.block_mat[v.m.blocks[k].id] = (k + mat) % 4;
              v.in.deck = ref::deck_text(v.d, v.m);
              if (np == 1) v.in.parts = {v.m};
              else {
                std::vector<int> part(v.m.nelem());
                for (size_t e = 0; e < part.size(); e++) part[e] = (e + b) % np;
                v.in.parts = exo::split(v.m, part, np, c % 2);
                if (f == 1) v.in.args = {"--use_kokkos", "--use_tpetra"};
              }
              v.name = "body " + std::to_string(b) + " conditions " + std::to_string(c) + " fields " + std::to_string(f) + " frequency " + std::to_string(freq) + " materials " + std::to_string(mat) + " processes " + std::to_string(np);
              r.push_back(v);
            }
  // long names, and many of everything
  for (int k = 0; k < 6; k++) {
    Valid v;
    int   n = k < 3 ? 2 : k == 3 ? 6 : k == 4 ? 10 : 16;
    std::vector<int>         blk, ids;
    std::vector<std::string> names;
    auto                     g = exo::grid(n, 1, 1);
    for (int i = 0; i < n; i++) {
      blk.push_back(i);
      ids.push_back(1 + (i * 7) % n * 3 + i % 2 * 500);
      std::string t = "b" + std::to_string(i) + "_";
      names.push_back(k == 0 || k == 4 ? t + std::string(32 - t.size(), 'q') : "");
    }
    v.m = exo::assign_blocks(g, blk, ids, names);
    cases::sets(v.m);
    for (int i = 0; i < 3 * n && k >= 3; i++) {
      exo::NodeSet q;
      q.id    = 100 + i;
      q.nodes = {(i * 5) % (int)v.m.X.size()};
      std::string t = "s" + std::to_string(i) + "_";
      if (k == 4) q.name = t + std::string(32 - t.size(), 'r');
      v.m.nsets.push_back(q);
    }
    v.d.mats.clear();
    for (int i = 0; i < n; i++) {
      ref::Mat a;
      a.law = i % 2 ? "elastic" : "neohookean";
      a.K += i;
      v.d.mats.push_back(a);
      v.d.block_mat[ids[i]] = i;
    }
    v.d.bcs = cases::conditions(k % 3);
    for (size_t i = 3; i < v.m.nsets.size(); i++) v.d.bcs.push_back({ref::BC::PV, ref::set_name(v.m, i), (int)i % 3, fmt(0.01 * i), [i](double, double, double, double) { return 0.01 * i; }});
    if (k == 1) {  // a long expression
      std::string t = "0.1";
      for (int i = 0; i < 60; i++) t += " + 0.01*x*(1 - t)";
      v.d.bcs.push_back({ref::BC::PV, "nodelist_1", 1, "\"" + t + "\"", [](double x, double, double, double t) { return 0.1 + 0.6 * x * (1 - t); }});
    }
    v.d.steps  = 3;
    v.d.t1     = 0.03;
    v.d.fields = k == 2 ? std::vector<std::string>{"displacement"} : cases::all_fields();
    v.in.deck  = ref::deck_text(v.d, v.m);
    v.in.parts = {v.m};
    v.name     = "long or many " + std::to_string(k);
    r.push_back(v);
  }
  return r;
}
static std::vector<Valid>
touching(bool th)
{
  std::vector<Valid> r;
  for (auto& w : worlds())
    for (int vis = 0; vis < 2; vis++)
      for (int order = 0; order < 2; order++)
        for (int np = 1; np <= (th ? 3 : 2); np++)
          for (int s = 0; s < (np == 1 ? 1 : th ? 4 : 2); s++) {
            Valid v;
            v.m       = w.m;
            v.compare = false;
            cases::sets(v.m);
            v.d.steps  = 8;
            v.d.t1     = 0.4;
            v.d.bcs    = {{ref::BC::IV, "nodelist_2", 2, "-0.9", {}}, {ref::BC::IV, "nodelist_3", 2, "\"-0.7 - 0.1*x\"", {}}};
            v.d.fields = {"displacement", "contact_force", "velocity"};
            auto names = [&](const std::vector<int>& k) {
              std::string t;
              for (int b : k) t += (t.empty() ? "block_" : " block_") + std::to_string(b);
              return t;
            };
            v.d.extra = std::string("contact: ") + "primary_blocks " + names(order ? w.s : w.p) + " secondary_blocks " + names(order ? w.p : w.s) + " penalty_parameter 4.0\n";
            if (vis) v.d.extra += "contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name vis.e\n";
            v.in.deck  = ref::deck_text(v.d, v.m);
            v.in.brute = true;
            if (np == 1) v.in.parts = {v.m};
            else {
              std::vector<int> part(v.m.nelem());
              for (size_t e = 0; e < part.size(); e++) part[e] = s == 0 ? e % np : s == 1 ? (e * np) / part.size() : s == 2 ? (e + 1 == part.size()) : np - 1;
              v.in.parts = exo::split(v.m, part, np, s % 2);
            }
            v.name = w.name + (order ? " swapped" : "") + (vis ? " shown" : "") + " processes " + std::to_string(np) + " distribution " + std::to_string(s);
            r.push_back(v);
          }
  return r;
}
static void
run_valid(const Valid& v, Ctx& x)
{
  std::string dir = scratch_dir("c31");
  auto        o   = go(dir, v.in);
  x.evaluations++;
  x.executions++;
  x.distinct(hash_str(v.name));
  std::string f = fault(o);
  if (!f.empty()) tell(v.name, o, f, x);
  else if (!o.ok())
    x.violation("valid run", v.name + ": ends with status " + std::to_string(o.status) + " " + (o.errors.empty() ? "" : o.errors[0]) + o.log.substr(0, 600));
  else if (v.compare) {
    auto run = ref::simulate(v.m, v.d);
    int  np  = v.in.parts.size();
    uint64_t h = 0;
    if (np == 1) {
      auto r = exo::read_results(dir + "/m.out.e");
      for (auto& s : exo::mesh_diff(r, v.m)) x.violation("mesh of results", v.name + ": " + s);
      for (auto& s : ref::compare(r, v.m, v.d, run)) x.violation("values", v.name + ": " + s.substr(s.find('|') + 1));
      for (auto& p : r.nodal)
        for (auto& q : p) h = hash_dbl(q.data(), q.size(), h);
    } else {
      // the nodes of the pieces by their identifiers
      std::map<int, int> at;
      for (size_t i = 0; i < v.m.X.size(); i++) at[v.m.node_ids.empty() ? i + 1 : v.m.node_ids[i]] = i;
      for (int p = 0; p < np; p++) {
        auto r = exo::read_results(dir + "/" + cases::piece("m.out.e", np, p));
        if (!r.error.empty()) {
          x.violation("values", v.name + ": " + r.error);
          continue;
        }
        const char* nm[2] = {"displacement", "velocity"};
        for (size_t t = 0; t < r.times.size() && t < run.planes.size(); t++)
          for (int q = 0; q < 2; q++)
            for (int c = 0; c < 3; c++) {
              int k = r.nv(std::string(nm[q]) + "_" + "xyz"[c]);
              if (k < 0) continue;
              for (int i = 0; i < r.nn; i++) {
                int    g = at.count(r.node_map[i]) ? at[r.node_map[i]] : -1;
                double w = g < 0 ? NAN : q ? run.planes[t].v[g][c] : run.planes[t].u[g][c];
                if (!vh::close(r.nodal[t][k][i], w, 1e-8, 1e-10)) {
                  x.violation("values", v.name + ": " + nm[q] + " of node " + std::to_string(r.node_map[i]) + " is " + fmt(r.nodal[t][k][i]) + " instead of " + fmt(w));
                  i = r.nn;
                }
              }
            }
      }
    }
    x.outcome(h);
  }
  remove_tree(dir);
}
// ---- corrupted decks
struct Named
{
  std::string name;
  Input       in;
};
static std::vector<Input>
bases()
{
  std::vector<Input> r;
  {  // explicit, three blocks, all kinds of conditions
    Input i;
    Mesh  m = body(2);
    ref::Deck d;
    d.mats = cases::materials();
    d.mats.resize(2);
    d.steps = 3;
    d.t1 = 0.05;
    d.bcs = cases::conditions(2);
    d.bcs.push_back({ref::BC::PV, "nodelist_1", 2, "\"x > 1.2 ? 0.1*t : -exp(-0.2^2)\"", {}});
    d.block_mat[1] = 1;
    d.fields = {"displacement", "ipt03_deformation_gradient", "stress", "volume", "lumped_mass"};
    d.extra = "initial time: 0.01\n";
    i.deck = ref::deck_text(d, m);
    i.parts = {m};
    r.push_back(i);
  }
  {  // contact
    Input i;
    Mesh  m = exo::grid(1, 1, 1), q = m;
    for (auto& p : q.X) {
      for (int c = 0; c < 3; c++) p[c] += c == 2 ? 0.95 : 0.1;
      m.X.push_back(p);
    }
    m.blocks[0].id = 1;
    auto c2 = q.blocks[0];
    c2.id = 2;
    for (auto& e : c2.conn)
      for (auto& k : e) k += 8;
    m.blocks.push_back(c2);
    cases::sets(m);
    ref::Deck d;
    d.steps = 2;
    d.t1 = 0.02;
    d.bcs = cases::conditions(0);
    d.extra = "contact: primary_blocks block_1 secondary_blocks block_2 penalty_parameter 100.0\ncontact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name vis.e\n";
    i.deck = ref::deck_text(d, m);
    i.parts = {m};
    i.brute = true;
    r.push_back(i);
  }
  {  // quasistatic
    Input i;
    Mesh  m = body(1);
    ref::Deck d;
    d.mats[0].law = "elastic";
    d.steps = 2;
    d.bcs = {{ref::BC::PD, "nodelist_2", 0, "0.0", {}}, {ref::BC::PD, "nodelist_2", 1, "0.0", {}}, {ref::BC::PD, "nodelist_2", 2, "0.0", {}}, {ref::BC::PD, "nodelist_3", 0, "\"0.05*t\"", {}}};
    d.fields = {"displacement", "internal_force", "stress"};
    d.extra = quasi();
    i.deck = ref::deck_text(d, m);
    i.parts = {m};
    r.push_back(i);
  }
  {  // samples
    Input i;
    Mesh  m = body(1);
    ref::Deck d;
    d.mats.resize(2);
    d.steps = 2;
    d.t1 = 0.02;
    d.block_mat[2] = 1;
    d.bcs = cases::conditions(1);
    d.fields = {"displacement", "exact_displacement_1", "sample_force_1"};
    d.extra = "uq parameters: material_1 bulk_modulus 2.0 shear_modulus 1.0\nuq parameters: material_2 bulk_modulus 4.0\nuq model: file s.dat\n";
    i.deck = ref::deck_text(d, m);
    i.samples = "1 1\n 0.5 -0.25 1.0\n 0.1 0.2 0.3 : 0.25 0.75\n";
    i.args = {"--use_uq"};
    i.parts = {m};
    r.push_back(i);
  }
  return r;
}
// every corruption of one place of a text
static std::vector<std::pair<std::string, std::string>>
corrupt(const std::string& t, bool th, const std::vector<std::string>& repl)
{
  std::vector<std::pair<std::string, std::string>> r;
  std::vector<std::pair<size_t, size_t>> tok, line;
  for (size_t i = 0; i < t.size();) {
    if (isspace(t[i])) {
      i++;
      continue;
    }
    size_t j = i;
    while (j < t.size() && !isspace(t[j])) j++;
    tok.push_back({i, j});
    i = j;
  }
  for (size_t i = 0; i < t.size();) {
    size_t j = t.find('\n', i);
    if (j == std::string::npos) j = t.size() - 1;
    line.push_back({i, j + 1});
    i = j + 1;
  }
  auto cut = [&](size_t a, size_t b, const std::string& s) { return t.substr(0, a) + s + t.substr(b); };
  for (auto& k : tok) {
    std::string w = t.substr(k.first, k.second - k.first), at = "word \"" + w + "\" at " + std::to_string(k.first);
    r.push_back({at + " left out", cut(k.first, k.second, "")});
    r.push_back({at + " twice", cut(k.first, k.second, w + " " + w)});
    for (auto& s : repl) r.push_back({at + " replaced by " + s.substr(0, 20), cut(k.first, k.second, s)});
    if (w.back() == ':') r.push_back({at + " without colon", cut(k.first, k.second, w.substr(0, w.size() - 1))});
  }
  for (auto& k : line) {
    std::string w = t.substr(k.first, k.second - k.first), at = "line at " + std::to_string(k.first);
    r.push_back({at + " left out", cut(k.first, k.second, "")});
    r.push_back({at + " twice", cut(k.first, k.second, w + w)});
    r.push_back({at + " joined", cut(k.second - 1, k.second, " ")});
    r.push_back({at + " ends with a blank", cut(k.second - 1, k.second, "  \t \n")});
    r.push_back({at + " ends with a return", cut(k.second - 1, k.second, "\r\n")});
  }
  for (size_t i = 0; i < t.size(); i += th ? 1 : 3) r.push_back({"end after " + std::to_string(i), t.substr(0, i)});
  if (th)
    for (size_t i = 0; i < t.size(); i++)
      for (char c : std::string("\0\xff\"#:-9 (", 9)) r.push_back({"byte " + std::to_string((unsigned char)c) + " put in at " + std::to_string(i), t.substr(0, i) + std::string(1, c) + t.substr(i)});
  return r;
}
// ---- corrupted meshes
static std::vector<std::pair<std::string, Mesh>>
meshes(const Mesh& b, bool th)
{
  std::vector<std::pair<std::string, Mesh>> r;
  int nn = b.X.size(), ne = b.nelem();
  auto put = [&](const std::string& s, const std::function<void(Mesh&)>& f) {
    Mesh m = b;
    f(m);
    r.push_back({s, m});
  };
  std::vector<int> wild{-1, nn, nn + 1, nn + 100, 1000000, 2147483646, -2, -2147483647};  // 0-based: one is added on writing
  for (size_t k = 0; k < b.blocks.size(); k++)
    for (size_t e = 0; e < b.blocks[k].conn.size(); e++)
      for (int c = 0; c < 8; c++) {
        for (int w : wild)
          if (th || c % 3 == 0) put("corner " + std::to_string(c) + " of element " + std::to_string(e) + " of block " + std::to_string(k) + " is node " + std::to_string(w + 1), [&](Mesh& m) { m.blocks[k].conn[e][c] = w; });
        put("corner " + std::to_string(c) + " of element " + std::to_string(e) + " of block " + std::to_string(k) + " twice", [&](Mesh& m) { m.blocks[k].conn[e][c] = m.blocks[k].conn[e][(c + 1) % 8]; });
      }
  for (int n = 0; n < nn; n++) {
    for (int w : {0, -1, -2147483647, 2147483647, 2000000000, 1 << 26, 1 << 27}) put("node " + std::to_string(n) + " has identifier " + std::to_string(w), [&](Mesh& m) {
      if (m.node_ids.empty())
        for (int i = 0; i < nn; i++) m.node_ids.push_back(i + 1);
      m.node_ids[n] = w;
    });
    put("node " + std::to_string(n) + " has the identifier of another", [&](Mesh& m) {
      if (m.node_ids.empty())
        for (int i = 0; i < nn; i++) m.node_ids.push_back(i + 1);
      m.node_ids[n] = m.node_ids[(n + 1) % nn];
    });
    for (int c = 0; c < 3; c++)
      for (double w : {(double)NAN, (double)INFINITY, 1e308, -1e-320}) put("coordinate " + std::to_string(c) + " of node " + std::to_string(n) + " is " + fmt(w), [&](Mesh& m) { m.X[n][c] = w; });
  }
  for (int n = 0; n < ne; n++) {
    for (int w : {0, -1, -2147483647, 2147483647, 1 << 26}) put("element " + std::to_string(n) + " has identifier " + std::to_string(w), [&](Mesh& m) {
      if (m.elem_ids.empty())
        for (int i = 0; i < ne; i++) m.elem_ids.push_back(i + 1);
      m.elem_ids[n] = w;
    });
    put("element " + std::to_string(n) + " has the identifier of another", [&](Mesh& m) {
      if (m.elem_ids.empty())
        for (int i = 0; i < ne; i++) m.elem_ids.push_back(i + 1);
      m.elem_ids[n] = m.elem_ids[(n + 1) % ne];
    });
  }
  std::vector<std::string> names{std::string(32, 'n'), std::string(31, 'n'), "a b", "block_1", "block_2", "nodelist_1", "material_1", ":", "%s%n", std::string(200, 'n')};
  for (size_t k = 0; k < b.blocks.size(); k++) {
    for (int w : {0, -1, 2147483647, -2147483647}) put("block " + std::to_string(k) + " has identifier " + std::to_string(w), [&](Mesh& m) { m.blocks[k].id = w; });
    for (auto& s : names) put("block " + std::to_string(k) + " is named " + s, [&](Mesh& m) { m.blocks[k].name = s; });
    for (std::string s : {"", "hex", "HEX20", "TETRA", "QUAD", "SHELL4", "nsided", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}) put("block " + std::to_string(k) + " of type " + s, [&](Mesh& m) { m.blocks[k].type = s; });
    for (int npe : {1, 3, 4, 6, 9, 20, 27}) put("block " + std::to_string(k) + " with " + std::to_string(npe) + " nodes per element", [&](Mesh& m) {
      auto& B = m.blocks[k];
      size_t n = B.conn.size();
      B.conn.clear();
      B.npe = npe;
      for (size_t e = 0; e < n; e++)
        for (int i = 0; i < npe; i++) B.raw.push_back(i % nn);
      if (n == 0) B.npe = 8;
    });
    put("block " + std::to_string(k) + " empty", [&](Mesh& m) { m.blocks[k].conn.clear(); m.elem_ids.clear(); });
    put("block " + std::to_string(k) + " missing", [&](Mesh& m) { m.blocks.erase(m.blocks.begin() + k); m.elem_ids.clear(); });
  }
  for (size_t k = 0; k < b.nsets.size(); k++) {
    size_t n = b.nsets[k].nodes.size();
    for (size_t i = 0; i < n; i += th ? 1 : std::max<size_t>(1, n / 2))
      for (int w : wild) put("member " + std::to_string(i) + " of set " + std::to_string(k) + " is node " + std::to_string(w + 1), [&](Mesh& m) { m.nsets[k].nodes[i] = w; });
    if (n) put("set " + std::to_string(k) + " has a member twice", [&](Mesh& m) { m.nsets[k].nodes.push_back(m.nsets[k].nodes[0]); });
    for (int df : {0, 1, 5}) put("set " + std::to_string(k) + " with " + std::to_string(df) + " factors", [&](Mesh& m) { m.nsets[k].ndf = df; });
    for (int w : {0, -1, 2147483647, 1}) put("set " + std::to_string(k) + " has identifier " + std::to_string(w), [&](Mesh& m) { m.nsets[k].id = w; });
    for (auto& s : names) put("set " + std::to_string(k) + " is named " + s, [&](Mesh& m) { m.nsets[k].name = s; });
    put("set " + std::to_string(k) + " empty", [&](Mesh& m) { m.nsets[k].nodes.clear(); });
  }
  for (int w : {-1, ne, ne + 5, 2147483646, -2147483647})
    for (int s : {0, 1, 7, -1, 2147483647}) put("side " + std::to_string(s) + " of element " + std::to_string(w + 1) + " in a side set", [&](Mesh& m) { m.ssets = {{9, "", {w}, {s}, -1}}; });
  for (int k : {0, 1, 3})
    for (int w : {0, -1, 2147483647}) put("original identifier map " + std::to_string(k) + " with " + std::to_string(w), [&](Mesh& m) {
      for (int i = 0; i < nn; i++) m.aux_node_map.push_back(i + 1);
      for (int i = 0; i < ne; i++) m.aux_elem_map.push_back(i + 1);
      m.aux_copies = k == 3 ? 2 : 1;
      (k == 1 ? m.aux_elem_map[0] : m.aux_node_map[0]) = w;
    });
  put("two dimensions", [&](Mesh& m) { m.dim = 2; });
  put("no blocks", [&](Mesh& m) { m.blocks.clear(); m.elem_ids.clear(); });
  put("no nodes", [&](Mesh& m) { m.X.clear(); m.blocks.clear(); m.nsets.clear(); m.ssets.clear(); m.node_ids.clear(); m.elem_ids.clear(); });
  put("no sets", [&](Mesh& m) { m.nsets.clear(); });
  put("a node of no element", [&](Mesh& m) { m.X.push_back({{9, 9, 9}}); if (!m.node_ids.empty()) m.node_ids.push_back(77777); });
  put("a long title", [&](Mesh& m) { m.title = std::string(80, 't'); });
  return r;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto vs = valid(th);
  Stage sv;
  sv.name     = "runs";
  sv.n        = vs.size();
  sv.describe = [&](size_t i) { return vs[i].name; };
  sv.fn       = [&](size_t i, Ctx& x) { run_valid(vs[i], x); };
  sv.case_timeout = 140;
  run(sv);

  auto ts = touching(th);
  {
    Stage s;
    s.name     = "contact";
    s.n        = ts.size();
    s.describe = [&](size_t i) { return ts[i].name; };
    s.fn       = [&](size_t i, Ctx& x) { run_valid(ts[i], x); };
    s.case_timeout = 140;
    run(s);
  }

  auto B = bases();
  {
    Stage s;
    s.name     = "bases";
    s.n        = B.size();
    s.describe = [&](size_t i) { return "base input " + std::to_string(i); };
    s.fn       = [&](size_t i, Ctx& x) {
      Valid v;
      v.in      = B[i];
      v.compare = false;
      v.name    = "base input " + std::to_string(i);
      run_valid(v, x);
    };
    run(s);
  }
  std::vector<std::string> repl{"0", "-1", "1", "2", "nan", "inf", "1e400", "-2147483649", "99999999999", "x", "\"", "\"x", "material_9", "nodelist_9", "block_9", ":", "%s%n", std::string(150, 'a')};
  {
    std::vector<std::pair<std::string, Input>> q;
    for (size_t k = 0; k < B.size(); k++) {
      for (auto& c : corrupt(B[k].deck, th, repl)) {
        q.push_back({"deck " + std::to_string(k) + ": " + c.first, B[k]});
        q.back().second.deck = c.second;
      }
    }
    Stage s;
    s.name     = "decks";
    s.n        = q.size();
    s.describe = [&](size_t i) { return q[i].first; };
    s.fn       = [&](size_t i, Ctx& x) { survive(q[i].first, q[i].second, x); };
    s.case_timeout = 140;
    s.chunk = 4;
    run(s);
  }
  {
    std::vector<std::pair<std::string, Input>> q;
    for (auto& c : corrupt(B[3].samples, th, repl)) {
      q.push_back({"samples: " + c.first, B[3]});
      q.back().second.samples = c.second;
    }
    Stage s;
    s.name     = "samples";
    s.n        = q.size();
    s.describe = [&](size_t i) { return q[i].first; };
    s.fn       = [&](size_t i, Ctx& x) { survive(q[i].first, q[i].second, x); };
    s.case_timeout = 140;
    s.chunk = 4;
    run(s);
  }
  {
    std::vector<std::pair<std::string, Input>> q;
    for (size_t k = 0; k < 3; k++) {
      for (auto& c : meshes(B[k].parts[0], th)) {
        q.push_back({"mesh " + std::to_string(k) + ": " + c.first, B[k]});
        q.back().second.parts[0] = c.second;
      }
      // a file that ends early
      std::string dir = scratch_dir("c31m");
      exo::write_genesis(dir + "/m.g", B[k].parts[0]);
      std::string f = read_file(dir + "/m.g");
      remove_tree(dir);
      for (size_t n = 1; n < f.size(); n += th ? 1 : n < 2400 ? 5 : 53) {  // the header ends near 2400
        q.push_back({"mesh " + std::to_string(k) + " ends after " + std::to_string(n), B[k]});
        q.back().second.rawmesh = f.substr(0, n);
      }
    }
    Stage s;
    s.name     = "meshes";
    s.n        = q.size();
    s.describe = [&](size_t i) { return q[i].first; };
    s.fn       = [&](size_t i, Ctx& x) { survive(q[i].first, q[i].second, x); };
    s.case_timeout = 140;
    s.chunk = 4;
    run(s);
  }
  {  // one of two pieces corrupted
    std::vector<std::pair<std::string, Input>> q;
    for (size_t k = 0; k < 2; k++) {
      Mesh             m = B[k].parts[0];
      std::vector<int> part(m.nelem());
      for (size_t e = 0; e < part.size(); e++) part[e] = e % 2;
      auto ps = exo::split(m, part, 2);
      for (int p = 0; p < 2; p++)
        for (auto& c : meshes(ps[1 - p], th)) {
          q.push_back({"piece " + std::to_string(1 - p) + " of mesh " + std::to_string(k) + ": " + c.first, B[k]});
          q.back().second.parts        = ps;
          q.back().second.parts[1 - p] = c.second;
        }
    }
    Stage s;
    s.name     = "pieces";
    s.n        = q.size();
    s.describe = [&](size_t i) { return q[i].first; };
    s.fn       = [&](size_t i, Ctx& x) { survive(q[i].first, q[i].second, x); };
    s.case_timeout = 140;
    s.chunk = 4;
    run(s);
  }
  {
    std::vector<std::string> w{"", "-", "--", "--use_uq", "--use_kokkos", "--use_tpetra", "--use_vt", "--help", "-h", "--kokkos-threads=x", "nosuch.in", ".", std::string(150, 'b'), "%s%n", "m.g"};
    std::vector<std::pair<std::string, Input>> q;
    for (size_t a = 0; a <= w.size(); a++)
      for (size_t b = 0; b <= w.size(); b++)
        for (int d = 0; d < 2; d++) {
          Input i = B[0];
          i.deck  = B[0].deck;
          i.args.clear();
          if (a) i.args.push_back(w[a - 1]);
          if (b) i.args.push_back(w[b - 1]);
          i.noname = d;
          std::string s = "arguments";
          for (auto& k : i.args) s += " \"" + k.substr(0, 20) + "\"";
          q.push_back({s + (d ? "" : " and the deck"), i});
        }
    Stage s;
    s.name     = "arguments";
    s.n        = q.size();
    s.describe = [&](size_t i) { return q[i].first; };
    s.fn       = [&](size_t i, Ctx& x) { survive(q[i].first, q[i].second, x); };
    s.case_timeout = 140;
    run(s);
  }
  {  // every expression of up to n characters, evaluated at two points
    const std::string al = "()+-*/^<>=!&|?:.1e t,x\"sin";
    size_t            L  = th ? 4 : 3, n = 1;
    for (size_t i = 0; i < L; i++) n *= al.size();
    n *= 4;  // on its own and at three places of a longer one
    Stage s;
    s.name     = "expressions";
    s.n        = n / 64 + 1;
    s.describe = [&](size_t i) { return "expressions from " + std::to_string(i * 64); };
    s.fn       = [&](size_t i, Ctx& x) {
      for (size_t k = i * 64; k < std::min(n, i * 64 + 64); k++) {
        std::string t;
        size_t      q = k / 4;
        for (size_t c = 0; c < L; c++, q /= al.size()) t += al[q % al.size()];
        static const char* pre[] = {"", "sin(x)", "(1.5e", "x > 1 ?"};
        static const char* post[] = {"", "^2", "*t)", "2 : t"};
        t = pre[k % 4] + t + post[k % 4];
        x.evaluations++;
        x.executions++;
        try {
          ExpressionParsing::BoundaryConditionFunctor f(t);
          for (double v : {0.0, 2.5}) {
            f.x = f.y = f.z = f.t = v;
            volatile double y = f.eval();
            (void)y;
          }
          x.count("accepted");
        } catch (std::exception&) {
          x.count("refused expressions");
        }
      }
    };
    run(s);
  }
  note("bounds", th ? "one corruption at a time at every place" : "one corruption at a time");
  return finish();
}
