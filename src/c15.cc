// C15: the stress and tangent of every material, through every interface, for every deformation gradient of a lattice, superposed rotations and
// material constants, against the closed laws in extended precision; and the stresses of whole runs.
#include <nimble_data_manager.h>
#include <nimble_kokkos_defs.h>
#include <nimble_kokkos_material_factory.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>
#include <nimble_parser.h>

#include "bodies.h"
using namespace vh;
typedef long double           LD;
typedef std::array<LD, 9>     M3;  // row major
typedef std::array<double, 9> D3;
static const int FR[9] = {0, 1, 2, 0, 1, 2, 1, 2, 0}, FC[9] = {0, 1, 2, 1, 2, 0, 0, 1, 2};

static M3
mul(const M3& a, const M3& b, bool tb = false)
{
  M3 r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * (tb ? b[3 * j + k] : b[3 * k + j]);
  return r;
}
static LD
det(const M3& a)
{
  return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
struct Law
{
  bool   neo;
  double rho, K, G;
};
// the written law, and the magnitude against which rounding is measured
static M3
law(const Law& m, const M3& F, LD& scale)
{
  M3 s{};
  if (!m.neo) {
    LD tr = F[0] + F[4] + F[8] - 3, l = (LD)m.K - 2 * (LD)m.G / 3, mx = 1;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        LD e = (F[3 * i + j] + F[3 * j + i]) / 2 - (i == j);
        s[3 * i + j] = 2 * m.G * e + (i == j ? l * tr : 0);
        mx = std::max(mx, fabsl(F[3 * i + j]));
      }
    scale = (m.K + m.G) * mx;
    return s;
  }
  LD J = det(F), q = powl(J, -2.0L / 3);
  M3 b = mul(F, F, true);
  LD tr = b[0] + b[4] + b[8], p = m.K / 2 * (J - 1 / J);
  for (int i = 0; i < 9; i++) s[i] = (i % 4 ? 0 : p) + m.G / J * q * (b[i] - (i % 4 ? 0 : tr / 3));
  scale = m.K * (J + 1 / J) + m.G / J * q * tr;
  return s;
}
static M3
about(LD x, LD y, LD z, LD t)
{
  LD n = sqrtl(x * x + y * y + z * z), c = cosl(t), s = sinl(t);
  x /= n, y /= n, z /= n;
  return {{c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s, y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s, z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)}};
}
static std::vector<M3>
rotations(int n)
{
  std::vector<M3> r{{{1, 0, 0, 0, 1, 0, 0, 0, 1}}};
  for (int x = 0; x <= n; x++)
    for (int y = -n; y <= n; y++)
      for (int z = -n; z <= n; z++)
        if (x || y || z)
          for (LD a : {0.4L, 1.5707963267948966192L, 2.5L, 3.14159265358979323846L}) r.push_back(about(x, y, z, a));
  return r;
}
// every way to build a material and to ask it
struct Mats
{
  std::vector<std::shared_ptr<nimble::Material>> m;
  std::vector<const char*>                       how;
};
static const Law&
constants(int i)
{
  static const std::vector<Law> l = {
      {true, 1, 10, 5}, {false, 1, 10, 5}, {true, 7.8e-9, 1.6e11, 7.9e10}, {false, 2500, 1.6e11, 7.9e10}, {true, 3, 1e-3, 2.5}, {false, 3, 1e-3, 2.5}, {true, 1, 5, 0}, {false, 1, 5, 0}, {true, 2, 0, 4}, {false, 2, 0, 4}, {true, 1, 2, 3}, {false, 1, 2, 3}};
  return l[i];
}
static const int NLAW = 12;
class Arrays : public nimble::MaterialFactory
{
};
static Mats&
materials(int i)
{
  static std::map<int, Mats> all;
  Mats&                      r = all[i];
  if (!r.m.empty()) return r;
  const Law&  l    = constants(i);
  std::string name = l.neo ? "neohookean" : "elastic";
  std::map<std::string, std::string> ns;
  nimble::MaterialParameters         p(name, ns, {{"density", l.rho}, {"bulk_modulus", l.K}, {"shear_modulus", l.G}});
  if (l.neo) r.m.push_back(std::make_shared<nimble::NeohookeanMaterial>(p));
  else r.m.push_back(std::make_shared<nimble::ElasticMaterial>(p));
  r.how.push_back("constructed");
  std::string text = name + " density " + fmt(l.rho) + " shear_modulus " + fmt(l.G) + " bulk_modulus " + fmt(l.K);
  nimble::MaterialFactory a;
  a.parse_and_create(text, 8);
  r.m.push_back(a.get_material());
  r.how.push_back("of the array factory");
  nimble_kokkos::MaterialFactory k;
  k.parse_and_create(text, 8);
  r.m.push_back(k.get_material_host());
  r.how.push_back("of the view factory");
  r.m.push_back(std::shared_ptr<nimble::Material>(k.get_material_device(), [](nimble::Material*) {}));
  r.how.push_back("of the view factory, on the device");
  return r;
}
static nimble::DataManager&
manager()
{
  // no material uses it
  static std::aligned_storage<sizeof(nimble::DataManager), 64>::type room;
  return *reinterpret_cast<nimble::DataManager*>(&room);
}
static const char* SY[6] = {"xx", "yy", "zz", "xy", "yz", "zx"};
static std::string
show(const M3& f)
{
  std::string s;
  for (int i = 0; i < 9; i++) s += (i ? " " : "") + fmt((double)f[i]);
  return s;
}
struct Views
{
  nimble_kokkos::DeviceFullTensorIntPtView Fn{"fn", 2}, F{"f", 2};
  nimble_kokkos::DeviceSymTensorIntPtView  Sn{"sn", 2}, S{"s", 2};
};
static void
evaluate(int li, const std::vector<M3>& Fs, Ctx& x)
{
  const Law& l = constants(li);
  Mats&      m = materials(li);
  size_t     n = Fs.size();
  std::vector<double> f(9 * n), f0(9 * n), s(6 * n + 6), s0(6 * n), st(1);
  std::vector<M3>     want(n);
  std::vector<LD>     tol(n);
  static Views*       v = new Views;
  for (size_t p = 0; p < n; p++) {
    M3 Fd;
    for (int k = 0; k < 9; k++) {
      f[9 * p + k]       = (double)Fs[p][3 * FR[k] + FC[k]];
      f0[9 * p + k]      = 0.3 * k - 1;  // the previous step does not matter
      Fd[3 * FR[k] + FC[k]] = f[9 * p + k];
    }
    for (int k = 0; k < 6; k++) s0[6 * p + k] = 7 * k - 11;
    LD sc;
    want[p] = law(l, Fd, sc);
    tol[p]  = 2e-12L * sc;
    if (l.neo) {
      // sensitivity of the determinant to rounding of the entries
      LD mx = 0, J = det(Fd);
      for (LD q : Fd) mx = std::max(mx, fabsl(q));
      tol[p] += 1e-14L * powl(mx, 3) / J * 10 * sc;
    }
  }
  auto judge = [&](size_t p, const double* got, const char* how, const char* face) {
    for (int k = 0; k < 6; k++) {
      LD w = want[p][3 * FR[k] + FC[k]];
      if (!(fabsl(got[k] - w) <= tol[p])) {
        x.violation(std::string(l.neo ? "neohookean " : "elastic ") + face, std::string("stress ") + SY[k] + " is " + fmt(got[k]) + " instead of " + fmt((double)w) + " | material " + how + " through " + face + ", bulk modulus " + fmt(l.K) + " shear modulus " + fmt(l.G) + ", deformation gradient " + show(Fs[p]) + " (row by row), point " + std::to_string(p + 1) + " of " + std::to_string(n));
        return;
      }
    }
  };
  for (size_t a = 0; a < m.m.size(); a++) {
    for (double& q : s) q = 1e99;
    m.m[a]->GetStress(3, (int)n, 0.1, 0.2, f0.data(), f.data(), s0.data(), s.data(), st.data(), st.data(), manager(), true);
    x.evaluations++;
    x.executions++;
    for (size_t p = 0; p < n; p++) judge(p, &s[6 * p], m.how[a], "arrays");
    for (int k = 0; k < 6; k++)
      if (s[6 * n + k] != 1e99) x.violation("array overrun", "stress written past the last point");
    for (size_t p = 0; p < n; p++) {
      int e = (p + a) % 2, i = (p * 3 + a) % 8;
      for (int q = 0; q < 2; q++)
        for (int j = 0; j < 8; j++)
          for (int k = 0; k < 9; k++) {
            v->F(q, j, k)  = -5 + k;
            v->Fn(q, j, k) = 0.3 * k;
            if (k < 6) v->S(q, j, k) = 1e98, v->Sn(q, j, k) = 3 * k;
          }
      for (int k = 0; k < 9; k++) v->F(e, i, k) = f[9 * p + k];
      nimble::Material::DeviceElemState d0, d1;
      m.m[a]->GetStress(0.1, 0.2, Kokkos::subview(v->Fn, e, i, Kokkos::ALL), Kokkos::subview(v->F, e, i, Kokkos::ALL), Kokkos::subview(v->Sn, e, i, Kokkos::ALL), Kokkos::subview(v->S, e, i, Kokkos::ALL), d0, d1);
      x.evaluations++;
      x.executions++;
      double g[6];
      for (int k = 0; k < 6; k++) g[k] = v->S(e, i, k);
      judge(p, g, m.how[a], "views");
      for (int q = 0; q < 2; q++)
        for (int j = 0; j < 8; j++)
          for (int k = 0; k < 6; k++)
            if ((q != e || j != i) && v->S(q, j, k) != 1e98) x.violation("view overrun", "stress of another point written");
    }
  }
}
static void
tangent(int li, int n, Ctx& x)
{
  const Law& l = constants(li);
  Mats&      m = materials(li);
  LD         la = (LD)l.K - 2 * (LD)l.G / 3;
  for (size_t a = 0; a < m.m.size(); a++) {
    std::vector<double> C(36 * n + 36, 1e99);
    m.m[a]->GetTangent(n, C.data());
    x.evaluations++;
    x.executions++;
    for (int p = 0; p < n; p++)
      for (int i = 0; i < 6; i++)
        for (int j = 0; j < 6; j++) {
          LD w = i < 3 && j < 3 ? la + (i == j ? 2 * (LD)l.G : 0) : i == j ? (LD)l.G : 0;
          if (!(fabsl(C[36 * p + 6 * i + j] - w) <= 1e-14L * (l.K + l.G)))
            x.violation("tangent", "modulus " + std::string(SY[i]) + "," + SY[j] + " is " + fmt(C[36 * p + 6 * i + j]) + " instead of " + fmt((double)w) + " at point " + std::to_string(p + 1) + " | " + (l.neo ? "neohookean" : "elastic") + " " + m.how[a] + " bulk modulus " + fmt(l.K) + " shear modulus " + fmt(l.G));
        }
    for (int k = 0; k < 36; k++)
      if (C[36 * n + k] != 1e99) x.violation("tangent overrun", "moduli written past the last point");
    if (m.m[a]->GetDensity() != l.rho || m.m[a]->GetBulkModulus() != l.K || m.m[a]->GetShearModulus() != l.G || m.m[a]->NumStateVariables() != 0)
      x.violation("constants", std::string("constants of the material ") + m.how[a] + " differ from the given ones");
    // the stress of a small strain is the one of the moduli
    for (int j = 0; j < 6; j++)
      for (double h : {1e-6, -1e-6}) {
        std::vector<double> f{1, 1, 1, 0, 0, 0, 0, 0, 0}, s(6, 1e99), z(9);
        f[j] += h;  // engineering shear
        m.m[a]->GetStress(0, 1, 0, 1, z.data(), f.data(), z.data(), s.data(), z.data(), z.data(), manager(), false);
        for (int i = 0; i < 6; i++)
          if (!(std::fabs(s[i] - C[6 * i + j] * h) <= 1e-10 * (l.K + l.G) * 10)) x.violation("tangent of the stress", "a small strain " + std::string(SY[j]) + " gives stress " + SY[i] + " " + fmt(s[i]) + ", the moduli " + fmt(C[6 * i + j] * h) + " | " + (l.neo ? "neohookean " : "elastic ") + m.how[a]);
      }
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name        = name;
    st.n           = (n + per - 1) / per;
    st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.worker_init = [] {
      int  ac = 1;
      char a0[] = "x", *av[] = {a0, nullptr};
      if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
    };
    st.worker_fini = [] { fflush(stdout); };
    st.fn          = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
    };
    vh::run(st);
  };
  // displacement gradients
  std::vector<double> V = th ? std::vector<double>{0, -0.3, 0.4, 0.9, -0.7} : std::vector<double>{0, -0.3, 0.4, 0.9};
  size_t              n9 = 1;
  for (int i = 0; i < 9; i++) n9 *= V.size();
  blocks("every gradient", n9, 2000, [&](size_t i, Ctx& x) {
    M3     F{};
    size_t k = i;
    for (LD& q : F) {
      q = V[k % V.size()];
      k /= V.size();
    }
    for (int d = 0; d < 3; d++) F[4 * d] += 1;
    if (det(F) < 0.02L) return;
    for (int l = 0; l < NLAW; l++) evaluate((l + (int)i) % NLAW, {F}, x);
  });
  // stretches, rotated on both sides
  std::vector<LD> S{0.05L, 0.5L, 1 - 1e-9L, 1, 1 + 1e-6L, 2, 20};
  auto            R = rotations(th ? 2 : 1);
  size_t          ns = S.size() * S.size() * S.size();
  blocks("rotated stretches", ns * R.size(), 20, [&](size_t i, Ctx& x) {
    size_t k = i % ns;
    M3     D{};
    for (int d = 0; d < 3; d++) {
      D[4 * d] = S[k % S.size()];
      k /= S.size();
    }
    const M3& Q = R[i / ns];
    const M3& P = R[(i / ns * 7 + i * 3) % R.size()];
    M3        a = mul(D, P, true), b = mul(mul(P, D), P, true), c = mul(Q, a), d = mul(Q, b);
    for (int l = 0; l < NLAW; l += 2) {
      evaluate(l + (constants(l).neo ? 0 : 1), {a, c, b, d, Q, a, b, c}, x);
      evaluate(l + 1, {d, Q, c}, x);
    }
    // the stress of a body turned as a whole is the turned stress
    for (int l = 0; l < NLAW; l++) {
      if (!constants(l).neo) continue;
      LD scale;
      M3 g[2];
      for (int w = 0; w < 2; w++) {
        const M3& F = w ? d : b;
        double    f[9], s[6] = {1e99, 1e99, 1e99, 1e99, 1e99, 1e99}, z[9] = {};
        for (int q = 0; q < 9; q++) f[q] = (double)F[3 * FR[q] + FC[q]];
        materials(l).m[0]->GetStress(0, 1, 0, 1, z, f, z, s, z, z, manager(), false);
        for (int q = 0; q < 9; q++) g[w][3 * FR[q] + FC[q]] = s[q < 6 ? q : q - 3];
      }
      law(constants(l), b, scale);
      M3 t = mul(mul(Q, g[0]), Q, true);
      for (int q = 0; q < 9; q++)
        if (!(fabsl(t[q] - g[1][q]) <= 1e-9L * scale)) {
          x.violation("turned", "the stress of a turned body is not the turned stress: " + fmt((double)g[1][q]) + " instead of " + fmt((double)t[q]) + " | deformation gradient " + show(b) + " turned by " + show(Q));
          break;
        }
    }
  });
  blocks("tangents", NLAW * 9, 4, [&](size_t i, Ctx& x) { tangent(i % NLAW, 1 + i / NLAW, x); });
  // whole runs: the stresses written are those of the deformation gradients written, by the law of each block
  std::vector<Case> cs;
  for (auto& b : bodies(th))
    for (int k = 0; k < 2; k++) {
      if (!th && b.m.nelem() > 2 && (k || (b.np > 1 && b.m.nelem() > 3))) continue;
      Case c   = b;
      c.d.bcs  = cases::conditions(1 + k);
      c.d.fields.clear();
      for (int i = 0; i < 8; i++)
        for (const char* f : {"_stress", "_deformation_gradient"}) c.d.fields.push_back("ipt0" + std::to_string(i + 1) + f);
      c.d.fields.push_back("volume");
      c.name += " conditions " + std::to_string(k + 1);
      cs.push_back(c);
    }
  run_cases("runs", cs, [](const Case& c, Ctx& x) {
    std::vector<std::vector<std::vector<double>>> nodal;
    std::vector<exo::Results>                     pieces;
    auto                                          r = whole(c, x, nodal, &pieces);
    if (!r.error.empty()) return;
    static const char* fs[] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
    for (auto& q : pieces)
      for (size_t s = 1; s < q.times.size(); s++)
        for (size_t b = 0; b < q.block_ids.size(); b++) {
          if (!q.block_n[b]) continue;
          auto& m = c.d.mats[c.d.block_mat.at(q.block_ids[b])];
          Law   l{m.law == "neohookean", m.rho, m.K, m.G};
          for (int ip = 1; ip <= 8; ip++)
            for (size_t e = 0; e < (size_t)q.block_n[b]; e++) {
              auto get = [&](const char* f, const char* k) {
                int v = q.ev("ipt0" + std::to_string(ip) + f + k);
                return v < 0 || e >= q.elem[s][b][v].size() ? NAN : q.elem[s][b][v][e];
              };
              M3 F;
              for (int k = 0; k < 9; k++) F[3 * FR[k] + FC[k]] = get("_deformation_gradient_", fs[k]);
              LD sc;
              M3 w = law(l, F, sc);
              for (int k = 0; k < 6; k++) {
                double g = get("_stress_", SY[k]);
                if (!(fabsl(g - w[3 * FR[k] + FC[k]]) <= 1e-11L * sc)) {
                  x.violation("run", std::string("stress ") + SY[k] + " of block " + std::to_string(q.block_ids[b]) + " point " + std::to_string(ip) + " is " + fmt(g) + " instead of " + fmt((double)w[3 * FR[k] + FC[k]]) + " at plane " + std::to_string(s) + " | " + c.name);
                  break;
                }
              }
            }
        }
  });
  note("bounds", "every displacement gradient over " + std::string(th ? "five" : "four") + " values with positive determinant, stretches over seven values rotated on both sides by " + std::to_string(R.size()) + " rotations, " + std::to_string(NLAW) + " sets of constants, four ways to build and two to evaluate each material; whole runs over the block assignments and distributions of the stated grids");
  return finish();
}
