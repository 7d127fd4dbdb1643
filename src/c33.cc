// C33: every combination of history-dependent materials in quasistatic runs; the material itself watches what it is given and what the results file says about it.
#include <nimble.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>

#include <fstream>
#include <map>

#include "bodies.h"

typedef std::vector<double> Vec;
static const int            NP = 8;
// the state variables of each kind of material
static std::vector<std::string>
labels(int kind)
{
  switch (kind) {
    case 1: return {"eqps"};
    case 2: return {"eqps_rate", "eqps"};
    case 3: return {"Damage", "script", "history_10", "history_1"};
    case 4: return {"flow_xx", "eqps", "flow"};
  }
  return {};
}
static double initial(int kind, int i) { return kind == 2 && i == 0 ? 0.0 : 0.25 * (i + 1) + 0.5 * kind; }

// ------------------------------------------------------------ the material
struct Watch
{
  int                      kind = 0, block = 0, step = -1;
  double                   t = 0;
  std::map<int, Vec>       before, now;  // element -> 8 x (F, S, h) as left by the last evaluation
  std::map<int, int>       asked;
  std::vector<std::string> said;
  std::vector<std::pair<double, std::map<int, Vec>>> ends;
  std::vector<int>         evals;
  void say(const std::string& s)
  {
    if (said.size() < 3) said.push_back("step " + std::to_string(step + 1) + ": " + s);
  }
  void finish()
  {
    if (step < 0) return;
    int lo = 1 << 30, hi = 0;
    for (auto& p : asked) lo = std::min(lo, p.second), hi = std::max(hi, p.second);
    if (lo != hi) say("calls|elements were asked " + std::to_string(lo) + " to " + std::to_string(hi) + " times");
    ends.push_back({t, now});
    evals.push_back(hi);
  }
};
class Probe : public nimble::Material
{
 public:
  Watch* w;
  double rho, K, G;
  Probe(const nimble::MaterialParameters& p, Watch* w_) : w(w_), rho(p.GetParameterValue("density")), K(p.GetParameterValue("bulk_modulus")), G(p.GetParameterValue("shear_modulus")) {}
  Probe(const Probe&) = default;
  int    NumStateVariables() const override { return labels(w->kind).size(); }
  void   GetStateVariableLabel(int i, char label[nimble::MaterialParameters::MAX_MAT_MODEL_STR_LEN]) const override { snprintf(label, 64, "%s", labels(w->kind)[i].c_str()); }
  double GetStateVariableInitialValue(int i) const override { return initial(w->kind, i); }
  double GetDensity() const override { return rho; }
  double GetBulkModulus() const override { return K; }
  double GetShearModulus() const override { return G; }
  void   GetTangent(int n, double* c) const override
  {
    double l = K - 2 * G / 3;
    for (int i = 0; i < n; i++)
      for (int a = 0; a < 6; a++)
        for (int b = 0; b < 6; b++) c[36 * i + 6 * a + b] = (a < 3 && b < 3 ? l : 0) + (a == b ? (a < 3 ? 2 * G : G) : 0);
  }
  void GetStress(
      int elem, int np, double tn, double t1, const double* Fn, const double* F, const double* Sn, double* S, const double* hn, double* h, nimble::DataManager&, bool out) override
  {
    int    n = labels(w->kind).size();
    size_t z = 15 + n;
    if (w->step < 0 || t1 != w->t) {
      w->finish();
      if (w->step >= 0 && tn != w->t) w->say("times|the step starts at " + vh::fmt(tn) + ", the one before ended at " + vh::fmt(w->t));
      w->before.swap(w->now);
      w->now.clear();
      w->asked.clear();
      w->step++;
      w->t = t1;
    }
    w->asked[elem]++;
    if (np != NP) return w->say("points|" + std::to_string(np) + " integration points");
    if (n && (!hn || !h)) return w->say("absent|no state variables");
    Vec was(NP * z), left(NP * z);
    for (int p = 0; p < NP; p++) {
      for (int i = 0; i < 9; i++) was[p * z + i] = Fn[9 * p + i];
      for (int i = 0; i < 6; i++) was[p * z + 9 + i] = Sn[6 * p + i];
      for (int i = 0; i < n; i++) was[p * z + 15 + i] = hn[n * p + i];
    }
    Vec want(NP * z, 0.0);
    if (w->step == 0) {
      for (int p = 0; p < NP; p++) {
        for (int i = 0; i < 3; i++) want[p * z + i] = 1;
        for (int i = 0; i < n; i++) want[p * z + 15 + i] = initial(w->kind, i);
      }
    } else {
      auto it = w->before.find(elem);
      if (it == w->before.end()) w->say("elements|element " + std::to_string(elem) + " was not there in the step before");
      else want = it->second;
    }
    for (size_t i = 0; i < NP * z; i++)
      if (was[i] != want[i]) {
        size_t k = i % z;
        w->say(
            std::string(w->step ? "carry" : "start") + "|element " + std::to_string(elem) + " point " + std::to_string(i / z + 1) + ": " + (k < 9 ? "the deformation gradient" : k < 15 ? "the stress" : labels(w->kind)[k - 15]) + " is " +
            vh::fmt(was[i]) + " instead of " + vh::fmt(want[i]));
        break;
      }
    for (int p = 0; p < NP; p++) {
      const double *f = F + 9 * p, *a = hn + n * p;
      double        e[6] = {f[0] - 1, f[1] - 1, f[2] - 1, (f[3] + f[6]) / 2, (f[4] + f[7]) / 2, (f[5] + f[8]) / 2}, tr = e[0] + e[1] + e[2];
      // the law: elastic, with a little memory of the stress and of every state variable
      double m = 0;
      for (int i = 0; i < n; i++) {
        h[n * p + i] = 0.75 * a[i] + (t1 - tn) * (i + 1) * (1 + tr) + 0.03125 * (p + 1) + 0.5 * e[(i + p) % 6] + 0.001 * elem;
        m += 0.01 * (h[n * p + i] - a[i]);
      }
      for (int i = 0; i < 6; i++) S[6 * p + i] = 0.05 * Sn[6 * p + i] + 2 * G * e[i] + (i < 3 ? (K - 2 * G / 3) * tr + 0.01 * G * m : 0);
      for (int i = 0; i < 9; i++) left[p * z + i] = f[i];
      for (int i = 0; i < 6; i++) left[p * z + 9 + i] = S[6 * p + i];
      for (int i = 0; i < n; i++) left[p * z + 15 + i] = h[n * p + i];
    }
    w->now[elem] = left;
    (void)out;
  }
#ifdef NIMBLE_HAVE_UQ
  void GetOffNominalStress(const double&, const double&, int, const double*, double*) override { abort(); }
#endif
#ifdef NIMBLE_HAVE_KOKKOS
  void
  GetStress(
      double, double, const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView&, const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView&,
      const nimble_kokkos::DeviceSymTensorIntPtSingleEntryView&, nimble_kokkos::DeviceSymTensorIntPtSingleEntryView, const nimble::Material::DeviceElemState&,
      nimble::Material::DeviceElemState&) const override
  {
    abort();
  }
#endif

 protected:
  void GetStress(double, double, nimble::Viewify<1, const double>&, nimble::Viewify<1, const double>&, nimble::Viewify<1, const double>&, nimble::Viewify<1>) const override { abort(); }
};
class Factory : public nimble::MaterialFactory
{
 public:
  std::vector<std::shared_ptr<Watch>> ws;
  ~Factory() override
  {
    std::ofstream o("watch.txt", std::ios::app);
    o.precision(17);
    for (auto& w : ws) {
      w->finish();
      o << "block " << w->block << " " << w->kind << " " << w->ends.size() << "\n";
      for (auto& s : w->said) o << "say " << s << "\n";
      for (size_t k = 0; k < w->ends.size(); k++) {
        o << "end " << w->ends[k].first << " " << w->evals[k] << " " << w->ends[k].second.size() << "\n";
        for (auto& e : w->ends[k].second) {
          o << e.first << " " << e.second.size();
          for (double v : e.second) o << " " << v;
          o << "\n";
        }
      }
    }
  }

 protected:
  void
  create() override
  {
    // the kind of material and the block it is for
    auto name = material_params->GetMaterialName(false);
    ws.push_back(std::make_shared<Watch>());
    sscanf(name.c_str(), "probe%dx%d", &ws.back()->kind, &ws.back()->block);
    material = std::make_shared<Probe>(*material_params, ws.back().get());
  }
};
class App : public nimble::NimbleApplication
{
 protected:
  std::unique_ptr<nimble::MaterialFactoryBase> CreateMaterialFactory() override { return std::unique_ptr<nimble::MaterialFactoryBase>(new Factory()); }
};

// ------------------------------------------------------------ the runs
struct HCase
{
  exo::Mesh   m;
  ref::Deck   d;
  std::string name;
  std::map<int, int> kind;  // of each block
};
struct End
{
  double             t;
  std::map<int, Vec> e;
};
static void
one(const HCase& c, Ctx& x)
{
  std::string dir = scratch_dir("qhist");
  if (!exo::write_genesis(dir + "/m.g", c.m).empty()) _exit(3);
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  x.executions++;
  auto say = [&](const std::string& key, const std::string& what) { x.violation(key, what + " | " + c.name); };
  auto o   = e2e::run(dir, {"d.in"}, 1, 60, {}, {}, [] { return std::unique_ptr<nimble::NimbleApplication>(new App()); });
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  // what the materials saw
  std::map<int, std::vector<End>> saw;
  {
    std::istringstream in(read_file(dir + "/watch.txt"));
    std::string        word;
    int                b = 0, kind, n, ne, evals;
    while (in >> word) {
      if (word == "block") {
        in >> b >> kind >> n;
        if (saw.count(b)) say("materials", "block " + std::to_string(b) + " has two materials");
        saw[b];
      } else if (word == "say") {
        std::string line;
        std::getline(in, line);
        size_t a = line.find(": "), k = line.find('|');
        if (a != std::string::npos && k != std::string::npos) say(line.substr(a + 2, k - a - 2), line.substr(1, a + 1) + line.substr(k + 1));
      } else if (word == "end") {
        End e;
        in >> e.t >> evals >> ne;
        x.transitions += (uint64_t)evals * ne;
        for (int i = 0; i < ne; i++) {
          int id, k;
          in >> id >> k;
          Vec v(k);
          for (auto& q : v) in >> q;
          x.state(hash_dbl(v.data(), v.size()));
          e.e[id] = v;
        }
        saw[b].push_back(e);
      } else {
        say("harness", "watch file");
        break;
      }
    }
  }
  if (!o.ok()) {
    say("status", "the run ended with status " + std::to_string(o.status) + ": " + o.log.substr(o.log.size() > 200 ? o.log.size() - 200 : 0));
    remove_tree(dir);
    return;
  }
  double dt = (c.d.t1 - c.d.t0) / c.d.steps;
  for (auto& b : c.m.blocks) {
    auto& s = saw[b.id];
    if ((int)s.size() != c.d.steps) {
      say("calls", "the material of block " + std::to_string(b.id) + " was asked in " + std::to_string(s.size()) + " of " + std::to_string(c.d.steps) + " steps");
      remove_tree(dir);
      return;
    }
    for (int k = 0; k < c.d.steps; k++) {
      if (!vh::close(s[k].t, c.d.t0 + (k + 1) * dt, 1e-12, 1e-14)) say("times", "step " + std::to_string(k + 1) + " ends at " + fmt(s[k].t));
      if (s[k].e.size() != b.conn.size()) say("calls", "step " + std::to_string(k + 1) + ": " + std::to_string(s[k].e.size()) + " of " + std::to_string(b.conn.size()) + " elements of block " + std::to_string(b.id) + " were asked");
    }
  }
  // what is written
  auto r = exo::read_results(dir + "/m.out.e");
  remove_tree(dir);
  if (!r.error.empty()) return say("results", r.error);
  std::vector<int> planes{0};
  for (int k = 0; c.d.freq && k < c.d.steps; k++)
    if (k % c.d.freq == 0 || k == c.d.steps - 1) planes.push_back(k + 1);
  if (r.times.size() != planes.size()) return say("planes", std::to_string(r.times.size()) + " planes");
  static const char* FULL[9] = {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx", "_yx", "_zy", "_xz"};
  int                first   = 0;
  for (auto& b : c.m.blocks) {
    int  kind = c.kind.at(b.id), n = labels(kind).size();
    auto ls = labels(kind);
    size_t z = 15 + n;
    int  rb = -1;
    for (size_t i = 0; i < r.block_ids.size(); i++)
      if (r.block_ids[i] == b.id) rb = i;
    if (rb < 0 || r.block_n[rb] != (int)b.conn.size()) return say("blocks", "block " + std::to_string(b.id) + " is not as in the mesh");
    // the columns of every quantity the material has, at every point and averaged
    std::vector<std::string> names;
    for (int i = 0; i < 9; i++) names.push_back(std::string("deformation_gradient") + FULL[i]);
    for (int i = 0; i < 6; i++) names.push_back(std::string("stress") + FULL[i]);
    for (auto& l : ls) names.push_back(l);
    for (size_t s = 0; s < planes.size(); s++) {
      int ux[3] = {r.nv("displacement_x"), r.nv("displacement_y"), r.nv("displacement_z")};
      for (size_t e = 0; e < b.conn.size(); e++) {
        int id = c.m.elem_ids.empty() ? first + (int)e : c.m.elem_ids[first + e] - 1;
        Vec rec(NP * z, 0.0);
        if (planes[s] == 0) {
          for (int p = 0; p < NP; p++) {
            for (int i = 0; i < 3; i++) rec[p * z + i] = 1;
            for (int i = 0; i < n; i++) rec[p * z + 15 + i] = initial(kind, i);
          }
        } else {
          auto& m = saw[b.id][planes[s] - 1].e;
          if (!m.count(id)) return say("elements", "element " + std::to_string(id) + " of block " + std::to_string(b.id) + " was not asked");
          rec = m.at(id);
        }
        // the current volume of every point
        double J[NP], vol = 0;
        for (int p = 0; p < NP; p++) {
          double g[3], N[8], D[8][3];
          ref::gauss(p, g);
          ref::shape(g[0], g[1], g[2], N, D);
          ref::M3 A;
          A.fill(0);
          for (int a = 0; a < 8; a++)
            for (int j = 0; j < 3; j++)
              for (int k = 0; k < 3; k++) A[3 * j + k] += (c.m.X[b.conn[e][a]][j] + r.nodal[s][ux[j]][b.conn[e][a]]) * D[a][k];
          vol += J[p] = ref::det(A);
        }
        for (size_t q = 0; q < names.size(); q++) {
          double avg = 0;
          for (int p = 0; p < NP; p++) avg += J[p] * rec[p * z + q] / vol;
          for (int p = 0; p <= NP; p++) {
            std::string col = p ? "ipt0" + std::to_string(p) + "_" + names[q] : names[q];
            int         v   = r.ev(col);
            if (v < 0 || r.elem[s][rb][v].size() != b.conn.size()) return say("no column", "no values of " + col + " in block " + std::to_string(b.id));
            double got = r.elem[s][rb][v][e], want = p ? rec[(p - 1) * z + q] : avg;
            x.evaluations++;
            if (p ? got != want : !vh::close(got, want, 1e-11, 1e-12)) say(p ? "written" : "written mean", "plane " + std::to_string(s) + ": " + col + " of element " + std::to_string(e) + " of block " + std::to_string(b.id) + " is " + fmt(got) + " instead of " + fmt(want));
          }
        }
      }
    }
    // nothing is filed under a block that does not have it
    for (int k = 1; k <= 4; k++)
      for (auto& l : labels(k)) {
        int v = r.ev(l);
        if (v < 0 || std::find(ls.begin(), ls.end(), l) != ls.end()) continue;
        for (size_t s = 0; s < planes.size(); s++)
          if (!r.elem[s][rb][v].empty()) say("foreign", l + " is written for block " + std::to_string(b.id) + ", whose material does not have it");
      }
    first += b.conn.size();
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool               th = opt.thorough();
  std::vector<HCase> cs;
  struct G { int nx, ny, nz, nb; };
  std::vector<G> gs = {{1, 1, 1, 1}, {2, 1, 1, 2}, {3, 1, 1, 2}, {2, 2, 1, 2}};
  if (th) gs = {{1, 1, 1, 1}, {2, 1, 1, 2}, {3, 1, 1, 3}, {2, 2, 1, 2}, {2, 2, 1, 3}};
  for (auto& g : gs) {
    int ne = g.nx * g.ny * g.nz, na = 1, nk = 1;
    for (int i = 0; i < ne; i++) na *= g.nb;
    for (int i = 0; i < g.nb; i++) nk *= 5;
    for (int a = 0; a < na; a++) {
      std::vector<int> blk;
      std::set<int>    have;
      for (int i = 0, t = a; i < ne; i++, t /= g.nb) blk.push_back(t % g.nb), have.insert(t % g.nb);
      if ((int)have.size() < g.nb) continue;
      if (!th && ne == 4 && a % 3 != 1) continue;
      for (int k = 0; k < nk; k++)
        for (int steps : (ne == 1 ? std::vector<int>{1, 2, 3, 4, 5, 40} : th ? std::vector<int>{1, 3, 6} : std::vector<int>{3}))
          for (int freq : (ne == 1 || th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1}))
            for (int load = 0; load < (ne == 1 || th ? 3 : 1); load++)
              for (int numbered = 0; numbered < 2; numbered++) {
                HCase            c;
                std::vector<int> ids = {7, 3, 5};
                ids.resize(g.nb);
                auto             box = exo::grid(g.nx, g.ny, g.nz);
                std::vector<int> ends;
                double           far = 0;
                for (auto& p : box.X) far = std::max(far, p[0]);
                for (auto& p : box.X) ends.push_back(p[0] == 0 ? 1 : p[0] == far ? 2 : 0);
                c.m = exo::assign_blocks(cases::distort(box, 1 + a % 2), blk, ids);
                if (numbered)
                  for (int i = 0; i < ne; i++) c.m.elem_ids.push_back(40 - 3 * i);
                for (int q = 0; q < 2; q++) {
                  exo::NodeSet n;
                  n.id = q + 1, n.name = q ? "hi_x" : "lo_x";
                  for (int i = 0; i < (int)c.m.X.size(); i++)
                    if (ends[i] == q + 1) n.nodes.push_back(i);
                  c.m.nsets.push_back(n);
                }
                c.d.mats.clear();
                c.name = "grid " + std::to_string(g.nx) + "x" + std::to_string(g.ny) + "x" + std::to_string(g.nz) + " blocks";
                for (int b : blk) c.name += " " + std::to_string(b);
                c.name += " materials";
                std::set<std::string> all;
                for (int b = 0, t = k; b < g.nb; b++, t /= 5) {
                  ref::Mat mt;
                  mt.law = "probe" + std::to_string(t % 5) + "x" + std::to_string(ids[b]);
                  mt.rho = 1, mt.K = 8 + b, mt.G = 4 - 0.5 * b;
                  c.d.block_mat[ids[b]] = c.d.mats.size();
                  c.d.mats.push_back(mt);
                  c.kind[ids[b]] = t % 5;
                  c.name += " " + std::to_string(t % 5);
                  for (auto& l : labels(t % 5)) all.insert(l);
                }
                int l = ne == 1 || th ? load : (a + k) % 3;
                c.name += " steps " + std::to_string(steps) + " every " + std::to_string(freq) + " load " + std::to_string(l) + (numbered ? " numbered" : "");
                c.d.steps = steps;
                c.d.freq  = freq;
                c.d.t0    = l == 2 ? 0.5 : 0;
                c.d.t1    = c.d.t0 + 0.25 * steps;
                auto add  = [&](ref::BC::Type t, const char* set, int comp, const std::string& text) {
                  ref::BC q;
                  q.type = t, q.set = set, q.comp = comp, q.text = text;
                  c.d.bcs.push_back(q);
                };
                for (int i = 0; i < 3; i++) add(ref::BC::PD, "lo_x", i, "0.0");
                if (l == 0) add(ref::BC::PD, "hi_x", 0, "\"0.03*t\"");
                if (l == 1) add(ref::BC::PV, "hi_x", 1, "0.04");
                if (l == 2) add(ref::BC::PD, "hi_x", 2, "\"0.02*sin(2*t)\"");
                c.d.extra  = "time integration scheme: quasistatic\nnonlinear solver relative tolerance: 1e-6\nnonlinear solver maximum iterations: 100\n";
                c.d.fields = {"displacement", "deformation_gradient", "stress"};
                for (auto& q : all) c.d.fields.push_back(q);
                for (int i = 1; i <= NP; i++) {
                  std::string pre = "ipt0" + std::to_string(i) + "_";
                  for (const char* f : {"deformation_gradient", "stress"}) c.d.fields.push_back(pre + f);
                  for (auto& q : all) c.d.fields.push_back(pre + q);
                }
                cs.push_back(c);
              }
    }
  }
  Stage st;
  st.name         = "histories";
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { one(cs[i], x); };
  st.case_timeout = 60;
  st.chunk        = 4;
  vh::run(st);
  return finish();
}
