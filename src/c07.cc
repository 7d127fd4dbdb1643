// C07: every layout, order and subset of deck lines, read by the real parser and by an independent reading of the written lines.
#include <nimble_parser.h>

#include <unistd.h>

#include <algorithm>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;

typedef std::pair<std::string, std::string> Line;  // key, value
// what a deck says, read back through the public interface
struct Cfg
{
  std::map<std::string, std::string> v;
  bool operator==(const Cfg& o) const { return v == o.v; }
};
static std::string
squeeze(const std::string& s)
{
  std::istringstream i(s);
  std::string        t, r;
  while (i >> t) r += (r.empty() ? "" : " ") + t;
  return r;
}
static const int IDS[] = {0, 1, 2, 3, 10, 27};
static Cfg
defaults()
{
  Cfg c;
  c.v = {{"genesis", "none"}, {"exodus", "none"}, {"two", "0"}, {"timing", "0"}, {"scheme", "explicit"}, {"tol", fmt(1e-6)}, {"iters", "200"}, {"t0", fmt(0)}, {"t1", fmt(0)},
         {"steps", "0"}, {"freq", "1"}, {"contact", ""}, {"vis", "0"}, {"visfile", "none"}, {"bcs", ""}, {"fields", "(refused)"}};
  for (int i : IDS) c.v["block " + std::to_string(i)] = "none";
  return c;
}
static bool
truth(const std::string& s)
{
  return s.size() && (toupper(s[0]) == 'T' || toupper(s[0]) == 'Y' || (s.size() > 1 && toupper(s[1]) == 'N'));
}
// the meaning of a list of lines
static Cfg
meaning(const std::vector<Line>& ls)
{
  Cfg c = defaults();
  std::map<std::string, std::string> mats;
  std::map<int, std::string>         blocks;
  for (auto& l : ls) {
    const std::string &k = l.first, w = squeeze(l.second);
    std::vector<std::string> t;
    std::istringstream       is(w);
    for (std::string s; is >> s;) t.push_back(s);
    if (k == "genesis input file") c.v["genesis"] = w;
    if (k == "exodus output file") c.v["exodus"] = w;
    if (k == "use two level mesh decomposition") c.v["two"] = truth(w) ? "1" : "0";
    if (k == "write timing data file") c.v["timing"] = truth(w) ? "1" : "0";
    if (k == "time integration scheme") c.v["scheme"] = w;
    if (k == "nonlinear solver relative tolerance") c.v["tol"] = fmt(std::stod(w));
    if (k == "nonlinear solver maximum iterations") c.v["iters"] = std::to_string(std::stoi(w));
    if (k == "initial time") c.v["t0"] = fmt(std::stod(w));
    if (k == "final time") c.v["t1"] = fmt(std::stod(w));
    if (k == "number of load steps") c.v["steps"] = std::to_string(std::stoi(w));
    if (k == "output frequency") c.v["freq"] = std::to_string(std::stoi(w));
    if (k == "contact") c.v["contact"] = w;
    if (k == "contact visualization") {
      c.v["vis"]     = t[1] == "on" || t[3] == "on" ? "1" : "0";
      c.v["visfile"] = t[5];
    }
    if (k == "material parameters") mats[t[0]] = w.substr(t[0].size() + 1);
    if (k == "element block") blocks[std::stoi(t[0].substr(t[0].rfind('_') + 1))] = t[1];
    if (k == "boundary condition") c.v["bcs"] += w + ";";
    if (k == "output fields") c.v["fields"] = w;
  }
  for (auto& b : blocks) c.v["block " + std::to_string(b.first)] = mats.count(b.second) ? mats[b.second] : "(refused)";
  return c;
}
static Cfg
observe(const nimble::Parser& p)
{
  Cfg c;
  auto get = [&](const std::string& k, const std::function<std::string()>& f) {
    try {
      c.v[k] = f();
    } catch (std::exception&) {
      c.v[k] = "(refused)";
    }
  };
  get("genesis", [&] { return p.GenesisFileName(); });
  get("exodus", [&] { return p.ExodusFileName(); });
  get("two", [&] { return std::string(p.UseTwoLevelMeshDecomposition() ? "1" : "0"); });
  get("timing", [&] { return std::string(p.WriteTimingDataFile() ? "1" : "0"); });
  get("scheme", [&] { return p.TimeIntegrationScheme(); });
  get("tol", [&] { return fmt(p.NonlinearSolverRelativeTolerance()); });
  get("iters", [&] { return std::to_string(p.NonlinearSolverMaxIterations()); });
  get("t0", [&] { return fmt(p.InitialTime()); });
  get("t1", [&] { return fmt(p.FinalTime()); });
  get("steps", [&] { return std::to_string(p.NumLoadSteps()); });
  get("freq", [&] { return std::to_string(p.OutputFrequency()); });
  get("contact", [&] { return p.HasContact() ? squeeze(p.ContactString()) : std::string(); });
  get("vis", [&] { return std::string(p.ContactVisualization() ? "1" : "0"); });
  get("visfile", [&] { return p.ContactVisualizationFileName(); });
  get("bcs", [&] {
    std::string s;
    for (auto& b : p.GetBoundaryConditionStrings()) s += squeeze(b) + ";";
    return s;
  });
  get("fields", [&] { return squeeze(p.GetOutputFieldString()); });
  for (int i : IDS) get("block " + std::to_string(i), [&] { return squeeze(p.GetModelMaterialParameters(i)); });
  return c;
}
static std::string deck_file;
static std::string
read_deck(const std::string& text, Cfg& c)
{
  write_file(deck_file, text);
  nimble::Parser p;
  p.SetInputFilename(deck_file);
  try {
    p.Initialize();
  } catch (std::exception& e) {
    std::string s = e.what();
    return "refused: " + s;
  }
  c = observe(p);
  return "";
}
static std::string
shorten(const std::string& s)
{
  std::string r;
  for (char ch : s.size() > 400 ? s.substr(0, 250) + "<" + std::to_string(s.size()) + " characters>" + s.substr(s.size() - 100) : s)
    r += ch == '\n' ? std::string("\\n") : ch == '\t' ? std::string("\\t") : ch == '\r' ? std::string("\\r") : std::string(1, ch);
  return r;
}
// text must mean the same as lines
static void
same(const std::string& key, const std::string& text, const std::vector<Line>& ls, Ctx& x)
{
  x.executions++;
  x.evaluations++;
  Cfg         got, want = meaning(ls);
  std::string e = read_deck(text, got);
  if (!e.empty()) {
    x.violation("refused " + key, "the deck is " + e + " | " + shorten(text));
    return;
  }
  uint64_t h = 0;
  for (auto& p : got.v) h = hash_str(p.second, hash_str(p.first, h));
  x.state(h);
  x.outcome(h);
  for (auto& p : want.v)
    if (got.v[p.first] != p.second) x.violation("setting " + p.first + " " + key, p.first + " is '" + shorten(got.v[p.first]) + "', the deck says '" + shorten(p.second) + "' | " + shorten(text));
}
static void
refused(const std::string& key, const std::string& text, Ctx& x, const std::string& setting = "")
{
  x.executions++;
  x.evaluations++;
  x.count("refused decks");
  Cfg got;
  std::string e = read_deck(text, got);
  if (!e.empty()) return;
  if (!setting.empty() && got.v[setting] == "(refused)") return;
  x.violation("accepted " + key, "the deck is accepted: " + shorten(text));
}
static std::string
plain(const std::vector<Line>& ls)
{
  std::string s;
  for (auto& l : ls) s += l.first + ": " + l.second + "\n";
  return s;
}
static std::vector<Line>
full()
{
  return {{"genesis input file", "dir/wave_in_bar.g"}, {"exodus output file", "wave.e"}, {"use two level mesh decomposition", "true"}, {"write timing data file", "ON"},
          {"time integration scheme", "quasistatic"}, {"nonlinear solver relative tolerance", "2.5e-7"}, {"nonlinear solver maximum iterations", "35"}, {"initial time", "-0.25"},
          {"final time", "1.0e-5"}, {"number of load steps", "1000"}, {"output frequency", "50"}, {"contact", "primary_blocks block_1 secondary_blocks block_2 penalty_parameter 1.0e6"},
          {"contact visualization", "visualize_contact_entities on visualize_bounding_boxes off file_name vis.e"}, {"material parameters", "material_1 neohookean density 7.8 shear_modulus 1.5e12 bulk_modulus 1.0e12"},
          {"element block", "block_1 material_1"}, {"boundary condition", "initial_velocity nodelist_1 x \"1000.0 * y\""}, {"output fields", "displacement velocity stress"},
          {"contact backend", "bvh"}, {"contact dicing", "2"}, {"contact splitting", "1 geom_axis"},
          {"material parameters", "steel elastic density 7 bulk_modulus 2 shear_modulus 1"}, {"element block", "block_10 steel"}, {"element block", "my_part_27 material_1"},
          {"boundary condition", "prescribed_velocity nodelist_2 y 0.0"}};
}
static std::vector<std::string> lead{"", " ", "\t", "  \t "}, before{"", " ", "\t"}, after{"", " ", "    ", "\t", " \t"}, tail{"", " ", "\t", "  # note", "#a: b", " \t", "\r"};
static size_t NLAY() { return lead.size() * before.size() * after.size() * tail.size() * 3; }
// line in layout k
static std::string
layout(const Line& l, size_t k)
{
  auto take = [&](const std::vector<std::string>& v) {
    std::string s = v[k % v.size()];
    k /= v.size();
    return s;
  };
  std::string a = take(lead), b = take(before), c = take(after), d = take(tail), v = l.second;
  if (k) {
    std::string w;
    bool        quoted = false;
    for (char ch : v) {
      quoted ^= ch == '"';
      w += ch == ' ' && !quoted ? (k == 1 ? std::string("  ") : std::string("\t")) : std::string(1, ch);
    }
    v = w;
  }
  return a + l.first + b + ":" + c + v + d;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto winit = [] { new Quiet; deck_file = scratch_dir("c07") + "/d.in"; };
  auto F = full();
  auto block = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name        = name;
    st.n           = (n + per - 1) / per;
    st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.worker_init = winit;
    st.fn          = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
    };
    vh::run(st);
  };
  // every order of the lines; conditions keep theirs in meaning
  std::vector<Line> P{F[0], F[1], F[8], F[13], F[14], F[15], F[23], F[21]};
  P.push_back(F[20]);
    size_t np = 1;
  for (size_t i = 2; i <= P.size(); i++) np *= i;
  block("orders", np, 500, [&](size_t i, Ctx& x) {
    std::vector<Line> rest = P, o;
    for (size_t k = P.size(); k >= 1; k--) {
      o.push_back(rest[i % k]);
      rest.erase(rest.begin() + i % k);
      i /= k;
    }
    same("order", plain(o), o, x);
    x.sample(shorten(plain(o)), 1);
  });
  // every layout of every line, with the others plain; every layout of all lines at once
  block("layouts", NLAY() * (F.size() + 1), 200, [&](size_t i, Ctx& x) {
    size_t      k = i % NLAY(), w = i / NLAY();
    std::string s;
    for (size_t j = 0; j < F.size(); j++) s += (w == F.size() || j == w ? layout(F[j], k) : F[j].first + ": " + F[j].second) + (j + 1 < F.size() || k % 2 ? "\n" : "");
    same("layout", s, F, x);
    x.sample(shorten(s), 1);
  });
  // pairs of layouts of neighbouring lines
  size_t n = th ? NLAY() : NLAY() / 3;  // values separated by one space; thorough: by others, too
  block("layout pairs", n * n, 5000, [&](size_t i, Ctx& x) {
    std::vector<Line> o{F[14], F[13]};
    same("layout pair", layout(o[0], i % n) + "\n" + layout(o[1], i / n), o, x);
  });
  // lines without a setting, at any two places
  std::vector<std::string> fill{"", " ", "\t", " \t ", "\r", "#", "# c: d", "  # x", "\t#", "#genesis input file: other.g", "# output fields", std::string(3000, ' '), "#" + std::string(2500, '-'), " # " + std::string(999, 'x'), "#:", "# #"};
  std::vector<Line> M{F[0], F[13], F[14], F[16], F[15], F[8]};
  size_t nf = fill.size() * (M.size() + 1);
  block("fillers", nf * nf * 2, 500, [&](size_t i, Ctx& x) {
    size_t      a = i / 2 % nf, b = i / 2 / nf;
    std::string s;
    for (size_t j = 0; j <= M.size(); j++) {
      if (a / fill.size() == j) s += fill[a % fill.size()] + "\n";
      if (b / fill.size() == j) s += fill[b % fill.size()] + (j == M.size() && i % 2 ? "" : "\n");
      if (j < M.size()) s += M[j].first + ": " + M[j].second + "\n";
    }
    same("filler", s, M, x);
  });
  // every subset of the keys: everything not written has its default
  int nk = th ? 20 : 17;
  block("subsets", (size_t)1 << nk, 2000, [&](size_t i, Ctx& x) {
    std::vector<Line> o;
    for (int k = 0; k < nk; k++)
      if (i >> k & 1) o.push_back(F[k]);
    same("subset", plain(o), o, x);
  });
  // two of everything
  std::vector<Line> G = F;
  for (Line l : {Line{"genesis input file", "b.g"}, Line{"exodus output file", "b.e"}, Line{"use two level mesh decomposition", "no"}, Line{"write timing data file", "off"}, Line{"time integration scheme", "explicit"},
                 Line{"nonlinear solver relative tolerance", "1"}, Line{"nonlinear solver maximum iterations", "7"}, Line{"initial time", "+3"}, Line{"final time", "4."}, Line{"number of load steps", "2"},
                 Line{"output frequency", "3"}, Line{"contact", "primary_blocks block_2 secondary_blocks block_1 penalty_parameter 3"}, Line{"contact visualization", "visualize_contact_entities off visualize_bounding_boxes off file_name w.e"},
                 Line{"material parameters", "material_1 elastic density 1 bulk_modulus 2 shear_modulus 3"}, Line{"element block", "block_1 steel"}, Line{"element block", "block_2 material_1"}, Line{"element block", "other_10 material_1"},
                 Line{"boundary condition", "initial_velocity nodelist_1 x \"1000.0 * y\""}, Line{"output fields", "volume"}})
    G.push_back(l);
  int nd = th ? 4 : 3;
  size_t nn = 1;
  for (int i = 0; i < nd; i++) nn *= G.size();
  block("repetitions", nn, 2000, [&](size_t i, Ctx& x) {
    std::vector<Line> o;
    for (int k = 0; k < nd; k++, i /= G.size()) o.push_back(G[i % G.size()]);
    same("repetition", plain(o), o, x);
  });
  // lines of every length
  block("lengths", th ? 20000 : 4200, 100, [&](size_t i, Ctx& x) {
    std::vector<Line> o = M;
    std::string       pad;
    while (pad.size() < i) pad += " f" + std::to_string(pad.size());
    pad.resize(i);
    o[3].second += squeeze(" a" + pad).substr(0, i) == "" ? "" : " a" + pad;
    while (o[3].second.back() == ' ') o[3].second.pop_back();
    same("length", plain(o), o, x);
    std::string s = plain(M);
    s.insert(s.size() - 1, std::string(i, ' '));
    same("length", s, M, x);
    same("length", "#" + std::string(i, '#') + "\n" + plain(M), M, x);
  });
  // every misspelt key
  std::vector<std::string> keys, wrong;
  for (auto& l : F)
    if (!std::count(keys.begin(), keys.end(), l.first)) keys.push_back(l.first);
  for (auto& k : keys) {
    for (size_t i = 0; i <= k.size(); i++) {
      for (char ch : std::string("aeioux st_-9")) {
        wrong.push_back(k.substr(0, i) + ch + k.substr(i));
        if (i < k.size()) wrong.push_back(k.substr(0, i) + ch + k.substr(i + 1));
      }
      if (i < k.size()) wrong.push_back(k.substr(0, i) + k.substr(i + 1));
      if (i < k.size()) wrong.push_back(k.substr(0, i) + (char)toupper(k[i]) + k.substr(i + 1));
      if (i + 1 < k.size()) wrong.push_back(k.substr(0, i) + k[i + 1] + k[i] + k.substr(i + 2));
      if (i > 0 && i < k.size()) wrong.push_back(k.substr(0, i)), wrong.push_back(k.substr(i));
    }
  }
  auto strip = [](std::string s) {
    while (s.size() && s.back() == ' ') s.pop_back();
    while (s.size() && s[0] == ' ') s.erase(0, 1);
    return s;
  };
  wrong.erase(std::remove_if(wrong.begin(), wrong.end(), [&](const std::string& w) { return std::count(keys.begin(), keys.end(), strip(w)) > 0; }), wrong.end());
  std::vector<std::string> vals{"1", "block_1 material_1", "true"};
  block("misspelt keys", wrong.size(), 50, [&](size_t i, Ctx& x) {
    for (auto& v : vals) refused("key " + wrong[i], plain(M) + wrong[i] + ": " + v + "\n", x);
    refused("key " + wrong[i], wrong[i] + "\n" + plain(M), x);
  });
  // values
  struct VC { std::string key, val, setting; bool ok; };
  std::vector<VC> vs;
  for (std::string k : {"nonlinear solver relative tolerance", "initial time", "final time"}) {
    for (std::string v : {"0", "1", "-2", "+3.5", "1e-3", "1E+3", ".5", "5.", "2.50e0", "00012", "123456789.125", "1e300", "-1.0e-300", "6.02214076e23"}) vs.push_back({k, v, "", true});
    for (std::string v : {"", "a", "1a", "1 2", "1,5", "1.2.3", "1e", "--1", "one", "1;", "1e3x", "e5", ".", "-", "1d3", "true", "1 s"}) vs.push_back({k, v, "", false});
  }
  for (std::string k : {"nonlinear solver maximum iterations", "number of load steps", "output frequency"}) {
    for (std::string v : {"0", "1", "17", "+4", "2147483647", "1000000", "0012"}) vs.push_back({k, v, "", true});
    for (std::string v : {"", "a", "1a", "1 2", "1e3", "1.5", "x1", "3000000000", "99999999999999999999", "-", "ten", "5%"}) vs.push_back({k, v, "", false});
  }
  for (std::string k : {"use two level mesh decomposition", "write timing data file"}) {
    for (std::string w : {"true", "yes", "on", "false", "no", "off"})
      for (int m = 0; m < 1 << w.size(); m++) {
        std::string v = w;
        for (size_t j = 0; j < w.size(); j++)
          if (m >> j & 1) v[j] = toupper(v[j]);
        vs.push_back({k, v, "", true});
      }
    for (std::string v : {"", "1", "0", "t", "y", "tru", "truee", "true false", "onn", "o", "none", "yes!", "nope"}) vs.push_back({k, v, "", false});
  }
  for (std::string v : {"explicit", "quasistatic"}) vs.push_back({"time integration scheme", v, "", true});
  for (std::string v : {"", "Explicit", "implicit", "quasi-static", "explici", "explicit quasistatic", "none"}) vs.push_back({"time integration scheme", v, "scheme", false});
  for (std::string a : {"on", "off"})
    for (std::string b : {"on", "off"})
      for (std::string f : {"vis.e", "v", "dir/x.e"}) vs.push_back({"contact visualization", "visualize_contact_entities " + a + " visualize_bounding_boxes " + b + " file_name " + f, "", true});
  for (std::string v : {"", "on", "visualize_contact_entities on", "visualize_contact_entities yes visualize_bounding_boxes off file_name v.e", "visualize_contact_entities on visualize_bounding_boxes 1 file_name v.e",
                        "visualize_bounding_boxes on visualize_contact_entities off file_name v.e", "visualize_contact_entities on visualize_bounding_boxes off file_name", "visualize_contact_entities on visualize_bounding_boxes off file v.e",
                        "visualize_contact_entities on visualize_bounding_boxes off file_name v.e w.e"})
    vs.push_back({"contact visualization", v, "", false});
  for (std::string b : {"block_1", "my_part_2", "a_b_3", "Block_10", "x_27", "_1", "1"})
    for (std::string m : {"material_1", "steel", "m"}) vs.push_back({"element block", b + " " + m, "", true});
  for (std::string v : {"", "block_1", "block_x material_1", "block material_1", "block_ material_1", "block_1x material_1", "block_1 material_1 material_2", "fibers material_1"}) vs.push_back({"element block", v, "", false});
  for (std::string v : {"", "material_1"}) vs.push_back({"material parameters", v, "", false});
  for (std::string k : {"genesis input file", "exodus output file", "boundary condition", "output fields", "contact"}) vs.push_back({k, "", "", false});
  // text is taken as it stands, whatever signs it holds
  for (std::string k : {"genesis input file", "exodus output file", "boundary condition", "contact"})
    for (std::string v : {"a:b", "a : b", ":a", "a:", "a: b: c", "c:\\x\\m.g", "a::b", "a=b", "a,b;c", "'a'", "\"a b\"", "a.b.c", "../a/./b.g", "a%b", "a\\nb", "-a", "{a}", "a&b|c", "a*b", "<a>", "1", "genesis input file", "final time: 3", "a_b-c+d", "\"x > 1 ? 2 : 3\"",
                          "initial_velocity nodelist_1 x \"t > 1 ? x : y\"", "prescribed_velocity a y \"x<y?1:x>2?3:4\"", "prescribed_displacement nodelist_2 z \"(x == 1) ? 2:(3)\"", "primary_blocks a:b secondary_blocks c penalty_parameter 1"})
      vs.push_back({k, v, "", true});
  for (std::string v : {"displacement:x", "a : b", "stress volume", "a,b"}) vs.push_back({"output fields", v, "", true});
  for (std::string v : {"m:1 elastic density 1 bulk_modulus 2 shear_modulus 3", "m elastic density 1:2", "m-1 law:a b 3", "m.1 elastic"}) vs.push_back({"material parameters", v, "", true});
  block("values", vs.size(), 10, [&](size_t i, Ctx& x) {
    std::vector<Line> o{{"material parameters", "material_1 elastic density 1 bulk_modulus 2 shear_modulus 3"}, {"material parameters", "steel elastic density 2 bulk_modulus 2 shear_modulus 3"}};
    o.push_back({vs[i].key, vs[i].val});
    if (vs[i].ok) same("value " + vs[i].key + ": " + vs[i].val, plain(o), o, x);
    else {
      refused("value " + vs[i].key + ": " + vs[i].val, plain(o), x, vs[i].setting);
      o.push_back({"final time", "1"});
      refused("value " + vs[i].key + ": " + vs[i].val, plain(o), x, vs[i].setting);
      if (vs[i].val.empty()) refused("value " + vs[i].key, vs[i].key + "\n" + plain(M), x), refused("value " + vs[i].key, plain(M) + vs[i].key + ":", x);
    }
    x.sample(vs[i].key + ": " + vs[i].val, 3);
  });
  // whole runs: what a run needs and does not find stops it; layouts do not matter
  exo::Mesh m = exo::assign_blocks(exo::grid(2, 1, 1), {0, 1}, {1, 7});
  cases::sets(m);
  std::vector<Line> R{{"genesis input file", "m.g"}, {"exodus output file", "m.e"}, {"final time", "0.1"}, {"number of load steps", "2"}, {"output fields", "displacement velocity stress"},
                      {"material parameters", "ma neohookean density 1 bulk_modulus 10 shear_modulus 5"}, {"material parameters", "mb elastic density 2 bulk_modulus 3 shear_modulus 4"},
                      {"element block", "block_1 ma"}, {"element block", "block_7 mb"}, {"boundary condition", "initial_velocity nodelist_1 x \"1 + y\""}, {"boundary condition", "prescribed_velocity nodelist_2 x 0.25"}};
  struct WR { std::string name, text; bool ok; };
  std::vector<WR> ws;
  ws.push_back({"plain", plain(R), true});
  for (size_t i = 0; i < R.size(); i++)
    for (size_t k = 0; k < NLAY(); k += th ? 7 : 41) {
      std::string s;
      for (size_t j = 0; j < R.size(); j++) s += j == i ? layout(R[j], k) + "\n" : R[j].first + ": " + R[j].second + "\n";
      ws.push_back({"layout", s, true});
    }
  for (size_t k = 0; k < NLAY(); k += th ? 3 : 17) {
    std::string s;
    for (auto& l : R) s += layout(l, k) + "\n";
    ws.push_back({"layout of all lines", s, true});
  }
  for (std::string e : {"0.5 > x ? 1 + y : 1 + y", "x < 3 ? 1 + y : 7", "x > 3 ? 7 : x > 2 ? 8 : 1 + y", "(x > 3 ? 7 : 1) + y", "1 + (y > 5 ? 6 : y)", "1+y", "y + 1", "( 1 + y )"})
    for (size_t k = 0; k < NLAY(); k += th ? 11 : 97) {
      auto q = R;
      q[9].second = "initial_velocity nodelist_1 x \"" + e + "\"";
      std::string s;
      for (size_t j = 0; j < R.size(); j++) s += j == 9 ? layout(q[j], k) + "\n" : q[j].first + ": " + q[j].second + "\n";
      ws.push_back({"layout of " + e, s, true});
    }
  for (size_t r = 0; r + 1 < R.size(); r++) {
    auto q = R;
    std::rotate(q.begin(), q.begin() + r, q.end() - 2);
    ws.push_back({"order", plain(q), true});
  }
  for (size_t i : {0, 1, 4, 5, 6, 7, 8}) {
    auto q = R;
    q.erase(q.begin() + i);
    ws.push_back({"without " + R[i].first + " " + R[i].second, plain(q), false});
  }
  auto repl = [&](size_t i, const std::string& v) {
    auto q      = R;
    q[i].second = v;
    ws.push_back({R[i].first + ": " + v, plain(q), false});
  };
  for (std::string v : {"n.g", "m.gg", "mm", "dir/m.g", "M.g"}) repl(0, v);
  repl(1, "missing_directory/m.e");
  repl(2, "-0.1");
  for (std::string v : {"ma neohooke density 1 bulk_modulus 10 shear_modulus 5", "ma neohookean", "ma neohookean density 1 bulk_modulus 10", "m neohookean density 1 bulk_modulus 10 shear_modulus 5"}) repl(5, v);
  for (std::string v : {"block_2 ma", "block_1 mc", "block_1 MA", "block_10 ma", "block_1 m"}) repl(7, v);
  for (std::string v : {"velocity nodelist_1 x 1", "initial_velocity nodelist_1 u 1", "initial_velocity nodelist_1 x one"}) repl(9, v);
  for (std::string e : {"time integration scheme: implicit", "foo: bar", "final tme: 2", "number of load steps: two"}) ws.push_back({e, plain(R) + e + "\n", false});
  uint64_t want = 0;
  auto digest = [](const std::string& f) {
    auto     r = exo::read_results(f);
    uint64_t h = r.error.empty() ? 1 : 0;
    for (auto& s : r.nodal)
      for (auto& v : s) h = hash_bytes(v.data(), 8 * v.size(), h);
    for (auto& s : r.elem)
      for (auto& b : s)
        for (auto& v : b) h = hash_bytes(v.data(), 8 * v.size(), h);
    return h;
  };
  auto go = [&](const std::string& text, uint64_t& h) {
    std::string dir = scratch_dir("c07r");
    if (!exo::write_genesis(dir + "/m.g", m).empty()) _exit(3);
    write_file(dir + "/d.in", text);
    auto o = e2e::run(dir, {"d.in"});
    h      = o.status == 0 ? digest(dir + "/m.out.e") : 0;
    remove_tree(dir);
    return o.status;
  };
  go(ws[0].text, want);
  Stage st;
  st.name     = "runs";
  st.n        = ws.size();
  st.describe = [&](size_t i) { return ws[i].name; };
  st.fn       = [&](size_t i, Ctx& x) {
    uint64_t h;
    int      s = go(ws[i].text, h);
    x.executions++;
    x.evaluations++;
    x.distinct(hash_str(ws[i].text));
    x.outcome(h);
    if (ws[i].ok && (s != 0 || h != want)) x.violation("run " + ws[i].name, "the run of a deck in another layout " + (s ? "ended with status " + std::to_string(s) : std::string("gave other results")) + " | " + shorten(ws[i].text));
    if (!ws[i].ok && s == 0) x.violation("run accepted " + ws[i].name, "the run accepted a deck with " + ws[i].name + " | " + shorten(ws[i].text));
  };
  vh::run(st);
  note("bounds", th ? "9! orders, all layouts of every line and of neighbouring pairs, 2^20 subsets, all 4-line repetitions" : "9! orders, all layouts of every line and of pairs with single spaces in the values, 2^17 subsets, all 3-line repetitions");
  return finish();
}
