#include "ref.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <limits>
#include <set>
#include <sstream>

namespace ref {
void
shape(double r, double s, double t, double N[8], double D[8][3])
{
  static const int c[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  for (int i = 0; i < 8; i++) {
    double a = 1 + c[i][0] * r, b = 1 + c[i][1] * s, g = 1 + c[i][2] * t;
    N[i]    = a * b * g / 8;
    D[i][0] = c[i][0] * b * g / 8;
    D[i][1] = a * c[i][1] * g / 8;
    D[i][2] = a * b * c[i][2] / 8;
  }
}
void
gauss(int i, double p[3])
{
  static const int c[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  for (int k = 0; k < 3; k++) p[k] = c[i][k] / std::sqrt(3.0);
}
double
det(const M3& a)
{
  return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
M3
inv(const M3& a)
{
  double d = det(a);
  return {{(a[4] * a[8] - a[5] * a[7]) / d, (a[2] * a[7] - a[1] * a[8]) / d, (a[1] * a[5] - a[2] * a[4]) / d,
           (a[5] * a[6] - a[3] * a[8]) / d, (a[0] * a[8] - a[2] * a[6]) / d, (a[2] * a[3] - a[0] * a[5]) / d,
           (a[3] * a[7] - a[4] * a[6]) / d, (a[1] * a[6] - a[0] * a[7]) / d, (a[0] * a[4] - a[1] * a[3]) / d}};
}
M3
mul(const M3& a, const M3& b)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      r[3 * i + j] = 0;
      for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * b[3 * k + j];
    }
  return r;
}
M3
transpose(const M3& a)
{
  return {{a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]}};
}
std::array<double, 6>
stress(const Mat& m, const M3& F)
{
  if (m.law == "elastic") {
    double l = m.K - 2 * m.G / 3, tr = F[0] + F[4] + F[8] - 3;
    return {{l * tr + 2 * m.G * (F[0] - 1), l * tr + 2 * m.G * (F[4] - 1), l * tr + 2 * m.G * (F[8] - 1), m.G * (F[1] + F[3]), m.G * (F[5] + F[7]), m.G * (F[2] + F[6])}};
  }
  double J = det(F);
  M3     b = mul(F, transpose(F));
  double q = std::pow(J, -2.0 / 3.0);
  double tr = q * (b[0] + b[4] + b[8]) / 3, p = 0.5 * m.K * (J - 1 / J);
  return {{p + m.G / J * (q * b[0] - tr), p + m.G / J * (q * b[4] - tr), p + m.G / J * (q * b[8] - tr), m.G / J * q * b[1], m.G / J * q * b[5], m.G / J * q * b[2]}};
}
double
char_length(const std::array<V3, 8>& x)
{
  double best = std::numeric_limits<double>::max();
  for (int i = 0; i < 8; i++)
    for (int j = i + 1; j < 8; j++) best = std::min(best, std::sqrt(std::pow(x[i][0] - x[j][0], 2) + std::pow(x[i][1] - x[j][1], 2) + std::pow(x[i][2] - x[j][2], 2)));
  for (int k = 0; k < 3; k++) {
    double lo = x[0][k], hi = x[0][k];
    for (auto& p : x) {
      lo = std::min(lo, p[k]);
      hi = std::max(hi, p[k]);
    }
    best = std::min(best, hi - lo);
  }
  return best;
}
static const Mat&
mat_of(const exo::Mesh& m, const Deck& d, int b)
{
  auto it = d.block_mat.find(m.blocks[b].id);
  return d.mats[it == d.block_mat.end() ? 0 : it->second];
}
double
critical_dt(const exo::Mesh& m, const Deck& d)
{
  double best = std::numeric_limits<double>::max();
  for (size_t b = 0; b < m.blocks.size(); b++)
    for (auto& c : m.blocks[b].conn) {
      std::array<V3, 8> x;
      for (int k = 0; k < 8; k++) x[k] = m.X[c[k]];
      const Mat& q = mat_of(m, d, b);
      best         = std::min(best, char_length(x) / std::sqrt(q.K / q.rho));
    }
  return best;
}
std::vector<double>
lumped_mass(const exo::Mesh& m, const Deck& d)
{
  std::vector<double> r(m.X.size(), 0.0);
  for (size_t b = 0; b < m.blocks.size(); b++) {
    const Mat& q = mat_of(m, d, b);
    for (auto& c : m.blocks[b].conn)
      for (int g = 0; g < 8; g++) {
        double p[3], N[8], D[8][3];
        gauss(g, p);
        shape(p[0], p[1], p[2], N, D);
        M3 a;
        a.fill(0);
        for (int i = 0; i < 8; i++)
          for (int j = 0; j < 3; j++)
            for (int k = 0; k < 3; k++) a[3 * j + k] += m.X[c[i]][j] * D[i][k];
        double J = det(a);
        for (int i = 0; i < 8; i++) r[c[i]] += q.rho * N[i] * J;  // row sum: the shape functions add up to one
      }
  }
  return r;
}
void
element(const std::array<V3, 8>& X, const std::array<V3, 8>& U, const Mat& mat, ElemState& s, std::array<V3, 8>& force)
{
  for (auto& f : force) f.fill(0);
  s.vol = 0;
  s.Favg.fill(0);
  s.Savg.fill(0);
  for (int g = 0; g < 8; g++) {
    double p[3], N[8], D[8][3];
    gauss(g, p);
    shape(p[0], p[1], p[2], N, D);
    M3 A, B;
    A.fill(0);
    B.fill(0);
    for (int i = 0; i < 8; i++)
      for (int j = 0; j < 3; j++)
        for (int k = 0; k < 3; k++) {
          B[3 * j + k] += X[i][j] * D[i][k];
          A[3 * j + k] += (X[i][j] + U[i][j]) * D[i][k];
        }
    s.F[g]    = mul(A, inv(B));
    s.S[g]    = stress(mat, s.F[g]);
    double J  = det(A);
    M3     Ai = inv(A);
    s.vol += J;
    for (int k = 0; k < 9; k++) s.Favg[k] += J * s.F[g][k];
    for (int k = 0; k < 6; k++) s.Savg[k] += J * s.S[g][k];
    auto& t      = s.S[g];
    M3    sig    = {{t[0], t[3], t[5], t[3], t[1], t[4], t[5], t[4], t[2]}};
    for (int i = 0; i < 8; i++) {
      double dN[3];
      for (int j = 0; j < 3; j++) dN[j] = D[i][0] * Ai[j] + D[i][1] * Ai[3 + j] + D[i][2] * Ai[6 + j];
      for (int j = 0; j < 3; j++) force[i][j] -= J * (sig[3 * j] * dN[0] + sig[3 * j + 1] * dN[1] + sig[3 * j + 2] * dN[2]);
    }
  }
  for (auto& v : s.Favg) v /= s.vol;
  for (auto& v : s.Savg) v /= s.vol;
}

std::string
set_name(const exo::Mesh& m, int i)
{
  return m.nsets[i].name.empty() ? "nodelist_" + std::to_string(m.nsets[i].id) : m.nsets[i].name;
}
std::string
block_name(const exo::Mesh& m, int i)
{
  return "block_" + std::to_string(m.blocks[i].id);
}

static std::string
num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::string
deck_text(const Deck& d, const exo::Mesh& m)
{
  std::ostringstream s;
  s << "genesis input file: " << d.mesh_file << "\nexodus output file: " << d.out_file << "\n";
  if (d.t0 != 0) s << "initial time: " << num(d.t0) << "\n";
  s << "final time: " << num(d.t1) << "\nnumber of load steps: " << d.steps << "\noutput frequency: " << d.freq << "\n";
  if (!d.fields.empty()) {
    s << "output fields:";
    for (auto& f : d.fields) s << " " << f;
    s << "\n";
  }
  for (size_t i = 0; i < d.mats.size(); i++)
    s << "material parameters: material_" << i + 1 << " " << d.mats[i].law << " density " << num(d.mats[i].rho) << " shear_modulus " << num(d.mats[i].G) << " bulk_modulus " << num(d.mats[i].K) << "\n";
  for (size_t b = 0; b < m.blocks.size(); b++) {
    auto it = d.block_mat.find(m.blocks[b].id);
    s << "element block: " << block_name(m, b) << " material_" << (it == d.block_mat.end() ? 0 : it->second) + 1 << "\n";
  }
  static const char* ty[] = {"initial_velocity", "prescribed_velocity", "prescribed_displacement"};
  for (auto& b : d.bcs) s << "boundary condition: " << ty[b.type] << " " << b.set << " " << "xyz"[b.comp] << " " << b.text << "\n";
  s << d.extra;
  return s.str();
}

Run
simulate(const exo::Mesh& m, const Deck& d)
{
  return ensemble(m, {d}, {})[0];
}

std::vector<Run>
ensemble(const exo::Mesh& m, const std::vector<Deck>& ds, const std::vector<std::vector<double>>& mixes)
{
  const Deck& d = ds[0];
  size_t      n = m.X.size();
  struct Body
  {
    std::vector<V3>        u, v, a, f;
    std::vector<ElemState> es;
  };
  std::vector<Body> bodies(ds.size() + mixes.size());
  std::vector<Run>  runs(bodies.size());
  for (auto& r : runs) {
    r.mass    = lumped_mass(m, d);
    r.dt_crit = critical_dt(m, d);
  }
  for (auto& b : bodies) {
    b.u = b.v = b.a = b.f = std::vector<V3>(n, V3{{0, 0, 0}});
    b.es.resize(m.nelem());
  }
  auto forces = [&](bool integrate) {
    for (size_t q = 0; q < ds.size(); q++) {
      auto& B = bodies[q];
      for (auto& x : B.f) x.fill(0);
      int e = 0;
      for (size_t b = 0; b < m.blocks.size(); b++)
        for (auto& c : m.blocks[b].conn) {
          std::array<V3, 8> X, U, F;
          for (int k = 0; k < 8; k++) {
            X[k] = m.X[c[k]];
            U[k] = B.u[c[k]];
          }
          element(X, U, mat_of(m, ds[q], b), B.es[e], F);
          if (integrate)
            for (int k = 0; k < 8; k++)
              for (int j = 0; j < 3; j++) B.f[c[k]][j] += F[k][j];
          e++;
        }
    }
    for (size_t q = 0; q < mixes.size(); q++)
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 3; j++) {
          double s = 0;
          for (size_t k = 0; k < ds.size(); k++) s += mixes[q][k] * bodies[k].f[i][j];
          bodies[ds.size() + q].f[i][j] = s;
        }
  };
  auto set_of = [&](const std::string& s) -> const std::vector<int>* {
    for (size_t i = 0; i < m.nsets.size(); i++)
      if (set_name(m, i) == s) return &m.nsets[i].nodes;
    return nullptr;
  };
  auto apply = [&](Body& B, double tc, double tp) {
    double dt = tc - tp;
    for (auto& b : d.bcs) {
      auto* s = set_of(b.set);
      if (!s || b.type == BC::IV || (b.type == BC::PD && !(dt > 0))) continue;
      for (int i : *s) {
        double w = b.f(m.X[i][0], m.X[i][1], m.X[i][2], tc);
        B.v[i][b.comp] = b.type == BC::PV ? w : (w - B.u[i][b.comp]) / dt;
      }
    }
  };
  auto store = [&](double t) {
    for (size_t q = 0; q < bodies.size(); q++) {
      auto& B = bodies[q];
      Plane p;
      p.t = t;
      p.u = B.u;
      p.v = B.v;
      p.a = B.a;
      p.f = B.f;
      p.e = B.es;
      runs[q].planes.push_back(p);
    }
  };
  // conditions hold from the start; they are evaluated at the initial time
  for (auto& B : bodies) {
    for (auto& b : d.bcs)
      if (b.type == BC::IV)
        if (auto* s = set_of(b.set))
          for (int i : *s) B.v[i][b.comp] = b.f(m.X[i][0], m.X[i][1], m.X[i][2], 0.0);
    for (auto& b : d.bcs)
      if (b.type == BC::PV)
        if (auto* s = set_of(b.set))
          for (int i : *s) B.v[i][b.comp] = b.f(m.X[i][0], m.X[i][1], m.X[i][2], d.t0);
  }
  forces(false);
  for (auto& B : bodies)
    for (auto& x : B.es) {
      for (auto& s : x.S) s.fill(0);
      x.Savg.fill(0);
    }
  for (auto& B : bodies)
    for (auto& x : B.f) x.fill(0);
  store(d.t0);
  double tc = d.t0, h = (d.t1 - d.t0) / d.steps;
  for (int s = 0; s < d.steps; s++) {
    double tp = tc;
    tc += h;
    double dt = tc - tp;
    for (auto& B : bodies) {
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 3; j++) B.v[i][j] += 0.5 * dt * B.a[i][j];
      apply(B, tc, tp);
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 3; j++) B.u[i][j] += dt * B.v[i][j];
      apply(B, tc, tp);
    }
    forces(true);
    bool out = d.freq != 0 && (s % d.freq == 0 || s == d.steps - 1);
    for (auto& B : bodies) {
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 3; j++) B.a[i][j] = B.f[i][j] / runs[0].mass[i];
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 3; j++) B.v[i][j] += 0.5 * dt * B.a[i][j];
      if (out) apply(B, tc, tp);
    }
    if (out) store(tc);
  }
  for (auto& r : runs)
    for (auto& p : r.planes)
      for (auto& w : p.u)
        for (double q : w)
          if (!(std::fabs(q) < 1e3)) r.unstable = true;
  return runs;
}

std::vector<std::string>
compare(const exo::Results& r, const exo::Mesh& m, const Deck& d, const Run& run, double tol)
{
  std::vector<std::string> bad;
  auto say = [&](const std::string& s) { if (bad.size() < 12) bad.push_back(s); };
  if (!r.error.empty()) {
    say("unreadable|" + r.error);
    return bad;
  }
  if (r.nn != (int)m.X.size() || r.ne != m.nelem()) {
    say("mesh|the results file has " + std::to_string(r.nn) + " nodes and " + std::to_string(r.ne) + " elements");
    return bad;
  }
  if (r.times.size() != run.planes.size()) {
    say("planes|" + std::to_string(r.times.size()) + " time planes, expected " + std::to_string(run.planes.size()));
    return bad;
  }
  for (size_t s = 0; s < run.planes.size(); s++)
    if (std::fabs(r.times[s] - run.planes[s].t) > 1e-12 * (1 + std::fabs(run.planes[s].t))) say("times|plane " + std::to_string(s) + " is stamped " + num(r.times[s]) + ", expected " + num(run.planes[s].t));
  std::set<std::string> req(d.fields.begin(), d.fields.end());
  auto scale = [&](std::function<double(const Plane&, size_t, int)> get, size_t n, int nc) {
    double q = 0;
    for (auto& p : run.planes)
      for (size_t i = 0; i < n; i++)
        for (int k = 0; k < nc; k++) q = std::max(q, std::fabs(get(p, i, k)));
    return q;
  };
  auto node = [&](const std::string& f, std::function<double(const Plane&, size_t, int)> get, int nc, double floor) {
    if (!req.count(f)) return;
    double sc = std::max(scale(get, m.X.size(), nc), floor);
    for (int k = 0; k < nc; k++) {
      std::string nm = nc == 1 ? f : f + "_" + "xyz"[k];
      int         v  = r.nv(nm);
      if (v < 0) {
        say("missing|no nodal variable " + nm);
        continue;
      }
      for (size_t s = 0; s < run.planes.size(); s++)
        for (size_t i = 0; i < m.X.size(); i++) {
          double e = get(run.planes[s], i, k), g = r.nodal[s][v][i];
          if (!(std::fabs(e - g) <= tol * sc)) {
            say("nodal " + f + "|" + nm + " of node " + std::to_string(i) + " at plane " + std::to_string(s) + " is " + num(g) + ", expected " + num(e));
            break;
          }
        }
    }
  };
  double vs = 1e-3, as = 1e-2;
  node("displacement", [](const Plane& p, size_t i, int k) { return p.u[i][k]; }, 3, 1e-3);
  node("velocity", [](const Plane& p, size_t i, int k) { return p.v[i][k]; }, 3, vs);
  node("acceleration", [](const Plane& p, size_t i, int k) { return p.a[i][k]; }, 3, as);
  node("internal_force", [](const Plane& p, size_t i, int k) { return p.f[i][k]; }, 3, as);
  node("external_force", [](const Plane&, size_t, int) { return 0.0; }, 3, 1);
  node("contact_force", [](const Plane&, size_t, int) { return 0.0; }, 3, 1);
  node("reference_coordinate", [&](const Plane&, size_t i, int k) { return m.X[i][k]; }, 3, 1e-3);
  node("lumped_mass", [&](const Plane&, size_t i, int) { return run.mass[i]; }, 1, 1e-3);
  static const char* fs[] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
  static const int   fi[] = {0, 4, 8, 1, 5, 6, 3, 7, 2};
  auto elem = [&](const std::string& f, int nc, std::function<double(const ElemState&, int)> get, const std::string& base, double floor) {
    double sc = floor;
    for (auto& p : run.planes)
      for (auto& e : p.e)
        for (int k = 0; k < nc; k++) sc = std::max(sc, std::fabs(get(e, k)));
    for (int k = 0; k < nc; k++) {
      std::string nm = nc == 1 ? f : f + "_" + fs[k];
      int         v  = r.ev(nm);
      if (v < 0) {
        if (m.nelem()) say("missing|no element variable " + nm);
        continue;
      }
      for (size_t s = 0; s < run.planes.size(); s++)
        for (size_t b = 0; b < m.blocks.size(); b++) {
          size_t rb = 0;
          while (rb < r.block_ids.size() && r.block_ids[rb] != m.blocks[b].id) rb++;
          if (rb == r.block_ids.size()) {
            say("mesh|block " + std::to_string(m.blocks[b].id) + " is not in the results file");
            continue;
          }
          for (size_t i = 0; i < m.blocks[b].conn.size(); i++) {
            double e = get(run.planes[s].e[m.block_offset(b) + i], k);
            if (i >= r.elem[s][rb][v].size()) {
              say("element " + base + "|" + nm + " is not stored for block " + std::to_string(m.blocks[b].id));
              break;
            }
            double g = r.elem[s][rb][v][i];
            if (!(std::fabs(e - g) <= tol * sc)) {
              say("element " + base + "|" + nm + " of element " + std::to_string(i) + " of block " + std::to_string(m.blocks[b].id) + " at plane " + std::to_string(s) + " is " + num(g) + ", expected " + num(e));
              break;
            }
          }
        }
    }
  };
  for (auto& f : d.fields) {
    if (f == "volume") elem(f, 1, [](const ElemState& e, int) { return e.vol; }, f, 1e-3);
    std::string base = f;
    int         ip   = -1;
    if (f.substr(0, 3) == "ipt") {
      ip   = atoi(f.substr(3, 2).c_str()) - 1;
      base = f.substr(6);
    }
    if (base == "stress") elem(f, 6, [ip](const ElemState& e, int k) { return ip < 0 ? e.Savg[k] : e.S[ip][k]; }, base, 1e-2);
    if (base == "deformation_gradient") elem(f, 9, [ip](const ElemState& e, int k) { return ip < 0 ? e.Favg[fi[k]] : e.F[ip][fi[k]]; }, base, 1e-2);
  }
  return bad;
}
}  // namespace ref
