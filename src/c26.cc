// C26: every combination of history-dependent materials, blocks, distributions and step counts; the material itself watches what it is given.
#include <nimble.h>
#include <nimble_kokkos_material_factory.h>
#include <nimble_material.h>

#include <fstream>
#include <map>

#include "bodies.h"

// ------------------------------------------------------------ the material
struct Watch
{
  // what a block's points left at the end of the step before, and what they leave in this one
  typedef std::vector<double> Left;
  std::map<Left, int>         before, now;
  int                         n = 0, points = 0, calls = 0, step = -1, tags = 0;
  double                      t = 0;
  std::vector<std::string>    said;
  void say(const std::string& s)
  {
    if (said.size() < 3) said.push_back("step " + std::to_string(step + 1) + ": " + s);
  }
  void finish()
  {
    if (step >= 0 && calls != points) say("calls|" + std::to_string(calls) + " calls for " + std::to_string(points) + " points");
    for (auto& p : before)
      if (p.second > 0) {
        say("lost|what a point left was given to no point");
        break;
      }
  }
};
static const int COUNTS[4] = {0, 1, 4, 19};
class Probe : public nimble::Material
{
 public:
  Watch* w;
  int    n;
  double rho, K, G;
  Probe(const nimble::MaterialParameters& p, Watch* w_, int n_)
      : w(w_), n(n_), rho(p.GetParameterValue("density")), K(p.GetParameterValue("bulk_modulus")), G(p.GetParameterValue("shear_modulus"))
  {
  }
  Probe(const Probe&) = default;
  int    NumStateVariables() const override { return n; }
  void   GetStateVariableLabel(int i, char label[nimble::MaterialParameters::MAX_MAT_MODEL_STR_LEN]) const override { snprintf(label, 64, "history_%d", i); }
  double GetStateVariableInitialValue(int) const override { return 0; }
  double GetDensity() const override { return rho; }
  double GetBulkModulus() const override { return K; }
  double GetShearModulus() const override { return G; }
  void   GetTangent(int, double*) const override { abort(); }
  void   GetStress(int, int, double, double, const double*, const double*, const double*, double*, const double*, double*, nimble::DataManager&, bool) override { abort(); }
#ifdef NIMBLE_HAVE_UQ
  void GetOffNominalStress(const double&, const double&, int, const double*, double*) override { abort(); }
#endif
  void
  GetStress(
      double                                                     tn,
      double                                                     t1,
      const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& Fn,
      const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& F,
      const nimble_kokkos::DeviceSymTensorIntPtSingleEntryView&  Sn,
      nimble_kokkos::DeviceSymTensorIntPtSingleEntryView         S,
      const nimble::Material::DeviceElemState&                   a,
      nimble::Material::DeviceElemState&                         b) const override
  {
    if (w->step < 0 || t1 != w->t) {
      if (w->step >= 0) {
        w->finish();
        if (tn != w->t) w->say("times|the step starts at " + vh::fmt(tn) + ", the one before ended at " + vh::fmt(w->t));
      }
      w->before.swap(w->now);
      w->now.clear();
      w->calls = 0;
      w->step++;
      w->t = t1;
    }
    w->calls++;
    Watch::Left g;
    for (int i = 0; i < 9; i++) g.push_back(Fn(i));
    for (int i = 0; i < 6; i++) g.push_back(Sn(i));
    bool s = n && a.scalar.size(), v = n && a.vec3D.size(), y = n && a.sym_tensor.size(), f = n && a.full_tensor.size();
    if (n == 19 && !(s && v && y && f)) w->say("absent|a kind of state is absent");
    if (n && (s != (b.scalar.size() > 0) || v != (b.vec3D.size() > 0) || y != (b.sym_tensor.size() > 0) || f != (b.full_tensor.size() > 0))) w->say("absent|a kind of state is absent at the end of the step");
    if (s) g.push_back(a.scalar(0));
    for (int i = 0; v && i < 3; i++) g.push_back(a.vec3D(i));
    for (int i = 0; y && i < 6; i++) g.push_back(a.sym_tensor(i));
    for (int i = 0; f && i < 9; i++) g.push_back(a.full_tensor(i));
    if (w->step == 0) {
      for (size_t i = 0; i < g.size(); i++)
        if (g[i] != (i < 3 ? 1 : 0)) {
          w->say("start|" + std::string(i < 9 ? "the deformation gradient" : i < 15 ? "the stress" : "a state variable") + " starts from " + vh::fmt(g[i]));
          break;
        }
    } else {
      auto it = w->before.find(g);
      if (it == w->before.end() || it->second == 0) {
        // what differs from the point with the same deformation gradient
        std::string what = "everything";
        for (auto& p : w->before)
          if (p.first.size() == g.size() && std::equal(g.begin(), g.begin() + 9, p.first.begin())) {
            size_t i = 9;
            while (i < g.size() && g[i] == p.first[i]) i++;
            what = i >= g.size() ? "given twice" : i < 15 ? "the stress" : i == 15 ? "the scalar" : i < 19 ? "the vector" : i < 25 ? "the symmetric tensor" : "the full tensor";
          }
        w->say("carry|no point left what this point is given (" + what + ")");
      } else
        it->second--;
    }
    // the law: elastic, with a memory
    double e[6] = {F(0) - 1, F(1) - 1, F(2) - 1, (F(3) + F(6)) / 2, (F(4) + F(7)) / 2, (F(5) + F(8)) / 2};
    double m[6] = {0, 0, 0, 0, 0, 0}, tr = e[0] + e[1] + e[2];
    Watch::Left l;
    double      tag = 0;
    if (y) {
      tag = w->step == 0 ? ++w->tags : a.sym_tensor(0);
      b.sym_tensor(0) = tag;
      for (int i = 1; i < 6; i++) b.sym_tensor(i) = m[i] = 0.8 * a.sym_tensor(i) + 0.2 * e[i];
    }
    if (s) b.scalar(0) = a.scalar(0) + (t1 - tn) * (1 + tr) + (w->step == 0 ? w->calls * 0.125 : 0);
    for (int i = 0; v && i < 3; i++) b.vec3D(i) = a.vec3D(i) * 1.25 + (i + 1) * F(i) + 0.01 * e[3 + i];
    for (int i = 0; f && i < 9; i++) b.full_tensor(i) = F(i);
    for (int i = 0; i < 6; i++) S(i) = 0.1 * Sn(i) + 2 * G * e[i] + (i < 3 ? (K - 2 * G / 3) * tr : 0.3 * G * m[i]);
    for (int i = 0; i < 9; i++) l.push_back(F(i));
    for (int i = 0; i < 6; i++) l.push_back(S(i));
    if (s) l.push_back(b.scalar(0));
    for (int i = 0; v && i < 3; i++) l.push_back(b.vec3D(i));
    for (int i = 0; y && i < 6; i++) l.push_back(b.sym_tensor(i));
    for (int i = 0; f && i < 9; i++) l.push_back(b.full_tensor(i));
    w->now[l]++;
    // what was left before is still there after the new values have been written
    Watch::Left h;
    for (int i = 0; i < 9; i++) h.push_back(Fn(i));
    for (int i = 0; i < 6; i++) h.push_back(Sn(i));
    if (s) h.push_back(a.scalar(0));
    for (int i = 0; v && i < 3; i++) h.push_back(a.vec3D(i));
    for (int i = 0; y && i < 6; i++) h.push_back(a.sym_tensor(i));
    for (int i = 0; f && i < 9; i++) h.push_back(a.full_tensor(i));
    if (h != g) w->say("overwritten|writing the values at the end of the step changes those at its start");
  }

 protected:
  void GetStress(double, double, nimble::Viewify<1, const double>&, nimble::Viewify<1, const double>&, nimble::Viewify<1, const double>&, nimble::Viewify<1>) const override { abort(); }
};
class Factory : public nimble_kokkos::MaterialFactory
{
 public:
  std::vector<std::shared_ptr<Watch>> ws;
  ~Factory() override
  {
    std::ofstream o("watch.txt", std::ios::app);
    for (auto& w : ws) {
      w->before.clear();
      w->finish();
      o << "block " << w->n << " " << w->points << " " << w->step + 1 << "\n";
      for (auto& s : w->said) o << s << "\n";
    }
  }

 protected:
  void
  create() override
  {
    auto name = material_params->GetMaterialName(false);
    ws.push_back(std::make_shared<Watch>());
    ws.back()->n      = atoi(name.c_str() + 5);
    ws.back()->points = material_params->GetNumMaterialPoints();
    material          = std::make_shared<Probe>(*material_params, ws.back().get(), ws.back()->n);
    material_device   = static_cast<nimble::Material*>(Kokkos::kokkos_malloc<>("Material", sizeof(Probe)));
    new (material_device) Probe(dynamic_cast<Probe&>(*material));
  }
};
class App : public nimble::NimbleApplication
{
 protected:
  std::unique_ptr<nimble::MaterialFactoryBase> CreateMaterialFactory() override { return std::unique_ptr<nimble::MaterialFactoryBase>(new Factory()); }
};

// ------------------------------------------------------------ the runs
struct HCase
{
  exo::Mesh        m;
  ref::Deck        d;
  std::vector<int> part;
  int              np = 1;
  std::string      name;
};
static void
one(const HCase& c, Ctx& x)
{
  std::string dir   = scratch_dir("hist");
  auto        parts = c.np > 1 ? exo::split(c.m, c.part, c.np, false) : std::vector<exo::Mesh>{c.m};
  for (int p = 0; p < c.np; p++)
    if (!exo::write_genesis(dir + "/" + cases::piece("m.g", c.np, p), parts[p]).empty()) _exit(3);
  write_file(dir + "/d.in", ref::deck_text(c.d, c.m));
  x.executions++;
  auto say = [&](const std::string& key, const std::string& what) { x.violation(key, what + " | " + c.name); };
  auto o   = e2e::run(dir, {"d.in"}, c.np, 60, {}, {}, [] { return std::unique_ptr<nimble::NimbleApplication>(new App()); });
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  // what the material saw
  std::istringstream in(read_file(dir + "/watch.txt"));
  std::string        line;
  int                points = 0;
  while (std::getline(in, line)) {
    int k, p, s;
    if (sscanf(line.c_str(), "block %d %d %d", &k, &p, &s) == 3) {
      points += p;
      x.transitions += (uint64_t)p * s;
      x.evaluations += (uint64_t)p * s;
      if (p && s != c.d.steps) say("calls", "the material was asked in " + std::to_string(s) + " of " + std::to_string(c.d.steps) + " steps");
    } else {
      size_t a = line.find(": "), b = line.find('|');
      if (a != std::string::npos && b != std::string::npos) say(line.substr(a + 2, b - a - 2), line.substr(0, a + 2) + line.substr(b + 1));
    }
  }
  if (!o.ok()) {
    say("status", "the run ended with status " + std::to_string(o.status));
    remove_tree(dir);
    return;
  }
  if (points != 8 * c.m.nelem()) say("calls", std::to_string(points) + " points instead of " + std::to_string(8 * c.m.nelem()));
  // what is written
  static const char* FULL[9] = {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx", "_yx", "_zy", "_xz"};
  for (int p = 0; p < c.np; p++) {
    auto r = exo::read_results(dir + "/" + cases::piece("m.out.e", c.np, p));
    if (!r.error.empty()) {
      say("results", r.error);
      continue;
    }
    for (size_t s = 0; s < r.times.size(); s++)
      for (size_t b = 0; b < r.block_ids.size(); b++) {
        int n = atoi(c.d.mats[c.d.block_mat.count(r.block_ids[b]) ? c.d.block_mat.at(r.block_ids[b]) : 0].law.c_str() + 5);
        for (int e = 0; e < r.block_n[b]; e++) {
          std::vector<double> all;
          for (auto& v : r.elem[s][b])
            if ((int)v.size() == r.block_n[b]) all.push_back(v[e]);
          x.state(hash_dbl(all.data(), all.size()));
        }
        if (!n || !r.block_n[b]) continue;
        for (int ip = 0; ip <= 8; ip++) {
          std::string pre = ip ? "ipt0" + std::to_string(ip) + "_" : "";
          for (int k = 0; k < 9; k++) {
            int iv = r.ev(pre + "state_full_tensor" + FULL[k]), id = r.ev(pre + "deformation_gradient" + FULL[k]);
            if (iv < 0 || id < 0) {
              say("no column", "no column " + pre + "state_full_tensor" + FULL[k]);
              k = 9, ip = 9;
              break;
            }
            auto &va = r.elem[s][b][iv], &vd = r.elem[s][b][id];
            if ((int)va.size() != r.block_n[b] || (int)vd.size() != r.block_n[b]) {
              say("no column", "no values of " + pre + "state_full_tensor" + FULL[k]);
              k = 9, ip = 9;
              break;
            }
            for (int e = 0; e < r.block_n[b]; e++) {
              // the material keeps the deformation gradient in this variable
              double want = s ? vd[e] : 0;
              if (ip ? va[e] != want : !vh::close(va[e], want, 1e-12, 1e-13)) say(ip ? "written" : "written mean", "plane " + std::to_string(s) + ": " + pre + "state_full_tensor" + FULL[k] + " of element " + std::to_string(e) + " is " + fmt(va[e]) + " instead of " + fmt(want));
              x.evaluations++;
            }
          }
          if (!ip || ip > 8) continue;
          for (int k = 0; k < 6; k++) {
            int iv = r.ev(pre + "state_sym_tensor" + FULL[k]);
            if (iv < 0 || (int)r.elem[s][b][iv].size() != r.block_n[b]) {
              say("no column", "no column " + pre + "state_sym_tensor" + FULL[k]);
              break;
            }
            for (int e = 0; e < r.block_n[b]; e++) {
              double v = r.elem[s][b][iv][e];
              if (s == 0) {
                if (v != 0) say("written", "plane 0: " + pre + "state_sym_tensor" + FULL[k] + " is " + fmt(v));
              } else if (k == 0) {
                // the tag a point got in the first step stays with it
                double first = r.elem[1][b][iv][e];
                if (v != first || v < 1) say("written", "plane " + std::to_string(s) + ": " + pre + "state_sym_tensor_xx of element " + std::to_string(e) + " is " + fmt(v) + ", was " + fmt(first));
              } else if (c.d.freq == 1) {
                // the memory follows the written deformation gradients
                int    i1 = r.ev(pre + "deformation_gradient" + FULL[k]), i2 = k > 2 ? r.ev(pre + "deformation_gradient" + FULL[k + 3]) : -1;
                double E    = k < 3 ? r.elem[s][b][i1][e] - 1 : (r.elem[s][b][i1][e] + r.elem[s][b][i2][e]) / 2;
                double want = 0.8 * r.elem[s - 1][b][iv][e] + 0.2 * E;
                if (!vh::close(v, want, 1e-12, 1e-14)) say("written", "plane " + std::to_string(s) + ": " + pre + "state_sym_tensor" + FULL[k] + " of element " + std::to_string(e) + " is " + fmt(v) + " instead of " + fmt(want));
              }
            }
          }
        }
      }
  }
  remove_tree(dir);
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool               th = opt.thorough();
  std::vector<HCase> cs;
  struct G { int nx, ny, nz, nb, np; };
  std::vector<G> gs = {{1, 1, 1, 1, 1}, {2, 1, 1, 2, 2}, {3, 1, 1, 3, 1}, {2, 2, 1, 2, 1}};
  if (th) gs = {{1, 1, 1, 1, 1}, {2, 1, 1, 2, 2}, {3, 1, 1, 3, 3}, {2, 2, 1, 2, 3}, {4, 1, 1, 2, 2}};
  std::vector<ref::Mat> mats(4);
  for (int i = 0; i < 4; i++) mats[i].law = "probe" + std::to_string(COUNTS[i]), mats[i].rho = 1 + i * 0.5, mats[i].K = 8 + i, mats[i].G = 4 - 0.5 * i;
  for (auto& g : gs) {
    int ne = g.nx * g.ny * g.nz, na = 1, nq = 1, nk = 1;
    for (int i = 0; i < ne; i++) na *= g.nb, nq *= g.np;
    for (int i = 0; i < g.nb; i++) nk *= 4;
    for (int a = 0; a < na; a++) {
      std::vector<int> blk;
      std::set<int>    have;
      for (int i = 0, t = a; i < ne; i++, t /= g.nb) blk.push_back(t % g.nb), have.insert(t % g.nb);
      for (int q = 0; q < nq; q++) {
        std::set<int>    used;
        std::vector<int> part;
        for (int i = 0, t = q; i < ne; i++, t /= g.np) part.push_back(t % g.np), used.insert(t % g.np);
        if (q && ((int)used.size() < g.np || !vh::with_mpi)) continue;
        for (int k = 0; k < nk; k++) {
          if ((int)have.size() < g.nb && k >= 4 && g.nb == 3) continue;
          for (int steps : (ne == 1 ? std::vector<int>{1, 2, 3, 4, 5, 6} : th ? std::vector<int>{1, 2, 4} : std::vector<int>{3}))
            for (int freq : (ne == 1 ? std::vector<int>{1, 2} : std::vector<int>{1})) {
              HCase            c;
              std::vector<int> ids = {7, 3, 5};
              ids.resize(g.nb);
              c.m = exo::assign_blocks(cases::distort(exo::grid(g.nx, g.ny, g.nz), 1 + (a + q) % 2), blk, ids);
              c.np   = q ? g.np : 1;
              c.part = part;
              if (c.np > 1) {
                for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
                for (int i = 0; i < ne; i++) c.m.elem_ids.push_back(i + 1);
              }
              cases::sets(c.m);
              c.d.mats  = mats;
              c.name    = "grid " + std::to_string(g.nx) + "x" + std::to_string(g.ny) + "x" + std::to_string(g.nz) + " blocks";
              for (int b : blk) c.name += " " + std::to_string(b);
              c.name += " state variables";
              for (int b = 0, t = k; b < g.nb; b++, t /= 4) c.d.block_mat[ids[b]] = t % 4, c.name += " " + std::to_string(COUNTS[t % 4]);
              c.name += c.np > 1 ? " processes" : " one process";
              if (c.np > 1)
                for (int p : c.part) c.name += " " + std::to_string(p);
              c.name += " steps " + std::to_string(steps) + " every " + std::to_string(freq);
              c.d.steps = steps;
              c.d.freq  = freq;
              c.d.t1    = 0.04 * steps;
              c.d.bcs   = cases::conditions((a + q + k) % 3);
              bool any  = false;
              c.d.fields = {"displacement", "deformation_gradient", "stress"};
              for (int b = 0, t = k; b < g.nb; b++, t /= 4) any |= t % 4 > 0;
              for (int i = 1; any && i <= 8; i++) {
                for (const char* f : {"_deformation_gradient", "_state_full_tensor", "_state_sym_tensor"}) c.d.fields.push_back("ipt0" + std::to_string(i) + f);
              }
              if (any) c.d.fields.push_back("state_full_tensor"), c.d.fields.push_back("state_sym_tensor");
              cs.push_back(c);
            }
        }
      }
    }
  }
  // more elements, blocks and steps
  struct L { int nx, ny, nz, nb, np, steps; };
  for (auto& g : {L{12, 1, 1, 12, 1, 3}, L{6, 6, 6, 1, 1, 2}, L{6, 6, 6, 3, 2, 2}, L{1, 1, 1, 1, 1, 260}, L{2, 1, 1, 2, 1, 120}})
    for (int k = 0; k < 4; k++) {
      if (g.np > 1 && !vh::with_mpi) continue;
      HCase            c;
      std::vector<int> ids, blk;
      int              ne = g.nx * g.ny * g.nz;
      bool             any = false;
      for (int b = 0; b < g.nb; b++) ids.push_back(b * 5 % 37 + 1);
      for (int e = 0; e < ne; e++) blk.push_back(e * 5 % g.nb), c.part.push_back(e * g.np / ne);
      c.m  = exo::assign_blocks(cases::wavy(exo::grid(g.nx, g.ny, g.nz)), blk, ids);
      c.np = g.np;
      if (c.np > 1) {
        for (size_t i = 0; i < c.m.X.size(); i++) c.m.node_ids.push_back(i + 1);
        for (int i = 0; i < ne; i++) c.m.elem_ids.push_back(i + 1);
      }
      cases::sets(c.m);
      c.d.mats = mats;
      for (int b = 0; b < g.nb; b++) c.d.block_mat[ids[b]] = (b + k) % 4, any |= (b + k) % 4 > 0;
      c.name    = "large: " + std::to_string(ne) + " elements in " + std::to_string(g.nb) + " blocks on " + std::to_string(g.np) + " processes, " + std::to_string(g.steps) + " steps, materials from " + std::to_string(k);
      c.d.steps = g.steps;
      c.d.freq  = 1;
      c.d.t1    = 0.01 * g.steps;
      for (int q = 0; q < 3; q++) c.d.bcs.push_back({ref::BC::IV, "nodelist_1", q, "\"0.05*sin(x + y - z)\"", [](double x, double y, double z, double) { return 0.05 * std::sin(x + y - z); }});
      c.d.fields = {"displacement", "deformation_gradient", "stress"};
      for (int i = 1; any && i <= 8; i++)
        for (const char* f : {"_deformation_gradient", "_state_full_tensor", "_state_sym_tensor"}) c.d.fields.push_back("ipt0" + std::to_string(i) + f);
      if (any) c.d.fields.push_back("state_full_tensor"), c.d.fields.push_back("state_sym_tensor");
      cs.push_back(c);
    }
  Stage st;
  st.name         = "histories";
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { one(cs[i], x); };
  st.case_timeout = 60;
  st.chunk        = 4;
  vh::run(st);
  return finish();
}
