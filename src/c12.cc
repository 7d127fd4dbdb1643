// C12, C13, C14: the eight-node hexahedron on every shape, deformation, node order and stress of small alphabets, through both interfaces of
// the element class, and whole runs, against formulas that do not use the element's own quadrature.
#include <nimble_element.h>
#include <unistd.h>

#include <algorithm>

#include "bodies.h"
#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
typedef std::array<double, 3> V3;
typedef std::array<V3, 8>     H;
typedef std::array<double, 9> M3;  // row major
// corner signs in node order
static const int SG[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
static const int FR[9] = {0, 1, 2, 0, 1, 2, 1, 2, 0}, FC[9] = {0, 1, 2, 1, 2, 0, 0, 1, 2};
static std::string PROP;

static std::vector<std::array<int, 8>>
orders()
{
  // orientation preserving symmetries of the cube as permutations: new node i is old node p[i]
  std::vector<std::array<int, 8>> r;
  int a[3] = {0, 1, 2};
  do {
    int par = ((a[0] > a[1]) + (a[0] > a[2]) + (a[1] > a[2])) % 2;
    for (int s = 0; s < 8; s++) {
      int sg[3] = {s & 1 ? -1 : 1, s & 2 ? -1 : 1, s & 4 ? -1 : 1};
      if (sg[0] * sg[1] * sg[2] * (par ? -1 : 1) < 0) continue;
      std::array<int, 8> p;
      for (int i = 0; i < 8; i++)
        for (int j = 0; j < 8; j++) {
          bool eq = true;
          for (int k = 0; k < 3; k++) eq = eq && SG[j][a[k]] == sg[k] * SG[i][k];
          if (eq) p[i] = j;
        }
      r.push_back(p);
    }
  } while (std::next_permutation(a, a + 3));
  return r;
}
static double
det3(const M3& a)
{
  return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
static void
shape(const double q[3], double N[8], double D[8][3])
{
  for (int n = 0; n < 8; n++) {
    double f[3];
    for (int k = 0; k < 3; k++) f[k] = 1 + SG[n][k] * q[k];
    N[n]    = f[0] * f[1] * f[2] / 8;
    D[n][0] = SG[n][0] * f[1] * f[2] / 8;
    D[n][1] = SG[n][1] * f[0] * f[2] / 8;
    D[n][2] = SG[n][2] * f[0] * f[1] / 8;
  }
}
static M3
jac(const H& x, const double q[3])
{
  double N[8], D[8][3];
  shape(q, N, D);
  M3 m{};
  for (int n = 0; n < 8; n++)
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m[3 * i + j] += x[n][i] * D[n][j];
  return m;
}
static bool
valid(const H& x, double least)
{
  for (auto& s : SG)
    for (double r : {1.0, 0.57735}) {
      double q[3] = {r * s[0], r * s[1], r * s[2]};
      if (det3(jac(x, q)) < least) return false;
    }
  return true;
}
// volume enclosed by the six bilinear faces: each is the mean of its two triangulations
static double
volume(const H& x)
{
  static const int F[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
  auto t = [&](int a, int b, int c) {
    V3 p, q, r;
    for (int k = 0; k < 3; k++) {
      p[k] = x[a][k] - x[0][k];
      q[k] = x[b][k] - x[0][k];
      r[k] = x[c][k] - x[0][k];
    }
    return (p[0] * (q[1] * r[2] - q[2] * r[1]) + p[1] * (q[2] * r[0] - q[0] * r[2]) + p[2] * (q[0] * r[1] - q[1] * r[0])) / 6;
  };
  double v = 0;
  for (auto& f : F) v += 0.5 * (t(f[0], f[1], f[2]) + t(f[0], f[2], f[3]) + t(f[0], f[1], f[3]) + t(f[1], f[2], f[3]));
  return v;
}
// integrals of the shape functions over the element, by a rule of higher order
static std::array<double, 8>
shape_integrals(const H& x)
{
  std::array<double, 8> r{};
  double                g = std::sqrt(0.6), p[3] = {-g, 0, g}, w[3] = {5.0 / 9, 8.0 / 9, 5.0 / 9};
  for (int i = 0; i < 27; i++) {
    double q[3] = {p[i % 3], p[i / 3 % 3], p[i / 9]}, N[8], D[8][3];
    shape(q, N, D);
    double c = w[i % 3] * w[i / 3 % 3] * w[i / 9] * det3(jac(x, q));
    for (int n = 0; n < 8; n++) r[n] += c * N[n];
  }
  return r;
}
static const double G1 = 1 / std::sqrt(3.0);
static void
point(int ip, double q[3])
{
  for (int k = 0; k < 3; k++) q[k] = G1 * SG[ip][k];
}
static std::string
show(const H& x)
{
  std::string s;
  for (auto& p : x) s += "(" + fmt(p[0]) + " " + fmt(p[1]) + " " + fmt(p[2]) + ")";
  return s;
}
// one element through both interfaces
struct Elem
{
  nimble::HexElement                          el;
  nimble_kokkos::DeviceVectorNodeGatheredView X{"x", 2}, U{"u", 2}, Fo{"f", 2};
  nimble_kokkos::DeviceScalarNodeGatheredView Ma{"m", 2};
  nimble_kokkos::DeviceFullTensorIntPtView    FG{"fg", 2};
  nimble_kokkos::DeviceSymTensorIntPtView     S{"s", 2};
  nimble_kokkos::DeviceScalarElemView         Vo{"v", 2};
  nimble_kokkos::DeviceFullTensorElemView     Fa{"fa", 2};
  nimble_kokkos::DeviceSymTensorElemView      Sa{"sa", 2};
  int                                         at = 1;
  void
  put(const H& x, const H& u)
  {
    for (int n = 0; n < 8; n++)
      for (int k = 0; k < 3; k++) {
        X(at, n, k) = x[n][k];
        U(at, n, k) = u[n][k];
      }
  }
  auto sx() { return Kokkos::subview(X, at, Kokkos::ALL, Kokkos::ALL); }
  auto su() { return Kokkos::subview(U, at, Kokkos::ALL, Kokkos::ALL); }
};
static Elem*
elem()
{
  static Elem* e = nullptr;
  if (!e) {
    e = new Elem;
  }
  return e;
}
static H
plus(const H& a, const H& b)
{
  H r;
  for (int n = 0; n < 8; n++)
    for (int k = 0; k < 3; k++) r[n][k] = a[n][k] + b[n][k];
  return r;
}
static H
apply(const M3& g, const H& x, const V3& c)
{
  H r;
  for (int n = 0; n < 8; n++)
    for (int k = 0; k < 3; k++) r[n][k] = g[3 * k] * x[n][0] + g[3 * k + 1] * x[n][1] + g[3 * k + 2] * x[n][2] + c[k];
  return r;
}
static H
reorder(const H& x, const std::array<int, 8>& p)
{
  H r;
  for (int i = 0; i < 8; i++) r[i] = x[p[i]];
  return r;
}
static double
reach(const H& x)
{
  double m = 0;
  for (auto& p : x)
    for (double v : p) m = std::max(m, std::fabs(v));
  return m;
}
static double
least_edge(const H& x)
{
  double m = 1e300;
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < i; j++) m = std::min(m, std::sqrt(std::pow(x[i][0] - x[j][0], 2) + std::pow(x[i][1] - x[j][1], 2) + std::pow(x[i][2] - x[j][2], 2)));
  return m;
}
struct Def
{
  std::array<M3, 8> F[2];  // by interface
};
static Def
gradients(const H& X, const H& U)
{
  Elem& e = *elem();
  Def   d;
  H     c = plus(X, U);
  double out[72];
  for (double& v : out) v = 1e99;
  e.el.ComputeDeformationGradients(&X[0][0], &c[0][0], out);
  for (int i = 0; i < 8; i++)
    for (int k = 0; k < 9; k++) d.F[0][i][3 * FR[k] + FC[k]] = out[9 * i + k];
  e.put(X, U);
  for (int i = 0; i < 8; i++)
    for (int k = 0; k < 9; k++) e.FG(e.at, i, k) = 1e99;
  e.el.ComputeDeformationGradients(e.sx(), e.su(), Kokkos::subview(e.FG, e.at, Kokkos::ALL, Kokkos::ALL));
  for (int i = 0; i < 8; i++)
    for (int k = 0; k < 9; k++) d.F[1][i][3 * FR[k] + FC[k]] = e.FG(e.at, i, k);
  return d;
}
static double
gap(const M3& a, const M3& b)
{
  double m = 0;
  for (int i = 0; i < 9; i++) {
    double g = std::fabs(a[i] - b[i]);
    if (!(g <= m)) m = g;
  }
  return m;
}
static M3
mul(const M3& a, const M3& b)
{
  M3 r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * b[3 * k + j];
  return r;
}
static M3
inv(const M3& a)
{
  M3     r;
  double d = det3(a);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int p = (j + 1) % 3, q = (j + 2) % 3, s = (i + 1) % 3, t = (i + 2) % 3;
      r[3 * i + j] = (a[3 * p + s] * a[3 * q + t] - a[3 * p + t] * a[3 * q + s]) / d;
    }
  return r;
}
static const char* IF[2] = {"arrays", "views"};

// ---------------------------------------------------------------- C12
static void
uniform(const H& X, const M3& g, const V3& c, const std::string& name, Ctx& x)
{
  M3 want = g;
  for (int i = 0; i < 3; i++) want[4 * i] += 1;
  H    U = apply(g, X, c), cur = plus(X, U);
  Def  d = gradients(X, U);
  x.evaluations++;
  x.executions++;
  double tol = 2e-14 * std::max(reach(X), reach(cur)) / least_edge(X) * 20 + 1e-12;
  for (int f = 0; f < 2; f++)
    for (int i = 0; i < 8; i++) {
      double e = gap(d.F[f][i], want);
      if (!(e <= tol)) {
        x.violation(std::string("uniform ") + IF[f], "a uniform displacement gradient is missed by " + fmt(e) + " at point " + std::to_string(i + 1) + " through " + IF[f] + " | " + name + " " + show(X));
        break;
      }
    }
  // volumes and averages
  Elem&  e = *elem();
  double v = 1e99, want_v = volume(cur);
  e.put(X, U);
  e.Vo(e.at) = 1e99;
  e.el.ComputeVolume(e.sx(), e.su(), Kokkos::subview(e.Vo, e.at));
  double vt = 1e-12 * (1 + std::pow(reach(cur) / least_edge(cur), 1) * 10) * want_v;
  if (!(std::fabs(e.Vo(e.at) - want_v) <= vt)) x.violation("volume views", "volume " + fmt(e.Vo(e.at)) + " instead of " + fmt(want_v) + " | " + name + " " + show(cur));
  double w[8], ws = 0;
  for (int i = 0; i < 8; i++) {
    double q[3];
    point(i, q);
    w[i] = det3(jac(cur, q));
    ws += w[i];
  }
  const int NQ = 11;
  double    in[8 * NQ], out[NQ], mx = 0;
  for (int i = 0; i < 8; i++)
    for (int k = 0; k < NQ; k++) in[NQ * i + k] = k < 8 ? (k == i) : k == 8 ? 1.0 : k == 9 ? -2.5 * i * i + 3 : 1e6 * (i % 3);
  for (double& o : out) o = 1e99;
  e.el.ComputeVolumeAverage(&cur[0][0], NQ, in, v, out);
  if (!(std::fabs(v - want_v) <= vt)) x.violation("volume arrays", "volume " + fmt(v) + " instead of " + fmt(want_v) + " | " + name + " " + show(cur));
  for (int k = 0; k < NQ; k++) {
    double a = 0, s = 0;
    for (int i = 0; i < 8; i++) {
      a += in[NQ * i + k] * w[i] / ws;
      s = std::max(s, std::fabs(in[NQ * i + k]));
    }
    if (!(std::fabs(out[k] - a) <= tol * s)) x.violation("average arrays", "volume average " + fmt(out[k]) + " instead of " + fmt(a) + " | quantity " + std::to_string(k) + " " + name + " " + show(cur));
  }
  (void)mx;
  for (int k = 0; k < 9; k++) {
    e.Fa(e.at, k) = 1e99;
    if (k < 6) e.Sa(e.at, k) = 1e99;
    for (int i = 0; i < 8; i++) {
      e.FG(e.at, i, k) = (i + 2) * (k + 1) % 7 - 3;
      if (k < 6) e.S(e.at, i, k) = (i * i + 1) * (k + 2) % 11 - 4;
    }
  }
  e.el.ComputeVolumeAverageFullTensor(e.sx(), e.su(), Kokkos::subview(e.FG, e.at, Kokkos::ALL, Kokkos::ALL), Kokkos::subview(e.Fa, e.at, Kokkos::ALL));
  e.el.ComputeVolumeAverageSymTensor(e.sx(), e.su(), Kokkos::subview(e.S, e.at, Kokkos::ALL, Kokkos::ALL), Kokkos::subview(e.Sa, e.at, Kokkos::ALL));
  for (int k = 0; k < 15; k++) {
    double a = 0, got = k < 9 ? e.Fa(e.at, k) : e.Sa(e.at, k - 9);
    for (int i = 0; i < 8; i++) a += (k < 9 ? e.FG(e.at, i, k) : e.S(e.at, i, k - 9)) * w[i] / ws;
    if (!(std::fabs(got - a) <= tol * 10)) x.violation("average views", "volume average " + fmt(got) + " instead of " + fmt(a) + " | component " + std::to_string(k) + " " + name + " " + show(cur));
  }
}
// a deformation that is not uniform: the interpolated one, and the same under translation and in every equivalent order
static void
nonuniform(const H& X, const H& U, const std::vector<std::array<int, 8>>& ord, const std::string& name, Ctx& x)
{
  x.evaluations++;
  x.executions++;
  Def    d = gradients(X, U);
  H      cur = plus(X, U);
  double tol = 2e-13 * std::max(reach(X), reach(cur)) / least_edge(X) + 1e-11;
  for (int i = 0; i < 8; i++) {
    double q[3];
    point(i, q);
    M3 want = mul(jac(cur, q), inv(jac(X, q)));
    for (int f = 0; f < 2; f++)
      if (!(gap(d.F[f][i], want) <= tol)) x.violation(std::string("interpolated ") + IF[f], "the deformation gradient at point " + std::to_string(i + 1) + " is off by " + fmt(gap(d.F[f][i], want)) + " through " + IF[f] + " | " + name + " " + show(X) + " to " + show(cur));
  }
  for (auto& p : ord) {
    x.evaluations++;
    Def r = gradients(reorder(X, p), reorder(U, p));
    for (int f = 0; f < 2; f++)
      for (int i = 0; i < 8; i++)
        if (!(gap(r.F[f][i], d.F[f][p[i]]) <= tol)) {
          x.violation(std::string("order ") + IF[f], "the deformation gradient depends on the node order through " + std::string(IF[f]) + " | " + name + " " + show(X));
          break;
        }
  }
  H Xt = X;
  for (auto& p : Xt) p = {p[0] + 40, p[1] - 30, p[2] + 7};
  Def t = gradients(Xt, U);
  for (int f = 0; f < 2; f++)
    for (int i = 0; i < 8; i++)
      if (!(gap(t.F[f][i], d.F[f][i]) <= tol * 1e2)) {
        x.violation(std::string("translation ") + IF[f], "the deformation gradient depends on the position through " + std::string(IF[f]) + " | " + name + " " + show(X));
        break;
      }
}

// ---------------------------------------------------------------- C13
static void
mass(const H& X, double rho, const std::string& name, Ctx& x)
{
  x.evaluations++;
  x.executions++;
  Elem&  e = *elem();
  H      zero{};
  double m[2][8], v = volume(X);
  auto   want = shape_integrals(X);
  for (double& q : m[0]) q = 1e99;
  e.el.ComputeLumpedMass(rho, &X[0][0], m[0]);
  e.put(X, zero);
  for (int i = 0; i < 8; i++) e.Ma(e.at, i) = 1e99;
  e.el.ComputeLumpedMass(rho, e.sx(), Kokkos::subview(e.Ma, e.at, Kokkos::ALL));
  for (int i = 0; i < 8; i++) m[1][i] = e.Ma(e.at, i);
  double tol = 1e-12 * (1 + 10 * reach(X) / least_edge(X));
  for (int f = 0; f < 2; f++) {
    double s = 0;
    for (int i = 0; i < 8; i++) {
      s += m[f][i];
      if (!(m[f][i] > 0)) x.violation(std::string("positive ") + IF[f], "nodal mass " + fmt(m[f][i]) + " through " + IF[f] + " | " + name + " " + show(X));
      if (!(std::fabs(m[f][i] - rho * want[i]) <= tol * rho * v)) x.violation(std::string("nodal mass ") + IF[f], "mass of node " + std::to_string(i) + " is " + fmt(m[f][i]) + " instead of " + fmt(rho * want[i]) + " through " + IF[f] + " | " + name + " " + show(X));
    }
    if (!(std::fabs(s - rho * v) <= tol * rho * v)) x.violation(std::string("total mass ") + IF[f], "masses add up to " + fmt(s) + " instead of " + fmt(rho * v) + " through " + IF[f] + " | " + name + " " + show(X));
  }
}

// ---------------------------------------------------------------- C14
static void
work(const H& X, const H& U, const std::array<std::array<double, 6>, 8>& S, const std::string& name, Ctx& x)
{
  x.evaluations++;
  x.executions++;
  Elem&  e   = *elem();
  H      cur = plus(X, U);
  double f[2][8][3];
  for (auto& a : f)
    for (auto& b : a)
      for (double& c : b) c = 1e99;
  e.el.ComputeNodalForces(&cur[0][0], &S[0][0], &f[0][0][0]);
  e.put(X, U);
  for (int i = 0; i < 8; i++) {
    for (int k = 0; k < 3; k++) e.Fo(e.at, i, k) = 1e99;
    for (int k = 0; k < 6; k++) e.S(e.at, i, k) = S[i][k];
  }
  e.el.ComputeNodalForces(e.sx(), e.su(), Kokkos::subview(e.S, e.at, Kokkos::ALL, Kokkos::ALL), Kokkos::subview(e.Fo, e.at, Kokkos::ALL, Kokkos::ALL));
  for (int i = 0; i < 8; i++)
    for (int k = 0; k < 3; k++) f[1][i][k] = e.Fo(e.at, i, k);
  double w[8][3] = {}, scale = 0;
  double power[9] = {};
  for (int i = 0; i < 8; i++) {
    double q[3], N[8], D[8][3];
    point(i, q);
    M3     j = jac(cur, q), ji = inv(j);
    double dj = det3(j);
    shape(q, N, D);
    double s[3][3];
    for (int k = 0; k < 6; k++) s[FR[k]][FC[k]] = s[FC[k]][FR[k]] = S[i][k];
    for (int a = 0; a < 9; a++) power[a] += dj * s[a / 3][a % 3];
    for (int n = 0; n < 8; n++) {
      double g[3];
      for (int a = 0; a < 3; a++) g[a] = D[n][0] * ji[a] + D[n][1] * ji[3 + a] + D[n][2] * ji[6 + a];
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) {
          w[n][a] -= dj * s[a][b] * g[b];
          scale = std::max(scale, std::fabs(dj * s[a][b] * g[b]));
        }
    }
  }
  double L = 0, R = reach(cur);
  V3     o = cur[0];
  for (auto& p : cur)
    for (int k = 0; k < 3; k++) L = std::max(L, std::fabs(p[k] - o[k]));
  double tol = (1e-12 + 1e-14 * R / least_edge(cur) * 20) * scale;
  for (int g = 0; g < 2; g++) {
    double sum[3] = {}, mom[3] = {}, pw[9] = {};
    for (int n = 0; n < 8; n++) {
      V3 r;
      for (int k = 0; k < 3; k++) {
        sum[k] += f[g][n][k];
        r[k] = cur[n][k] - o[k];
        if (!(std::fabs(f[g][n][k] - w[n][k]) <= tol)) x.violation(std::string("nodal force ") + IF[g], "force " + std::to_string(k) + " of node " + std::to_string(n) + " is " + fmt(f[g][n][k]) + " instead of " + fmt(w[n][k]) + " through " + IF[g] + " | " + name + " " + show(cur));
      }
      for (int k = 0; k < 3; k++) mom[k] += r[(k + 1) % 3] * f[g][n][(k + 2) % 3] - r[(k + 2) % 3] * f[g][n][(k + 1) % 3];
      for (int a = 0; a < 9; a++) pw[a] += f[g][n][a / 3] * r[a % 3];
    }
    for (int k = 0; k < 3; k++) {
      if (!(std::fabs(sum[k]) <= tol * 8)) x.violation(std::string("resultant ") + IF[g], "the forces have resultant " + fmt(sum[k]) + " through " + IF[g] + " | " + name + " " + show(cur));
      if (!(std::fabs(mom[k]) <= tol * 16 * L)) x.violation(std::string("moment ") + IF[g], "the forces have moment " + fmt(mom[k]) + " through " + IF[g] + " | " + name + " " + show(cur));
    }
    for (int a = 0; a < 9; a++)
      if (!(std::fabs(pw[a] + power[a]) <= tol * 24 * std::max(L, 1.0))) x.violation(std::string("power ") + IF[g], "the power of the forces is " + fmt(pw[a]) + ", of the stress " + fmt(-power[a]) + " through " + IF[g] + " | " + name + " " + show(cur));
  }
}
static void
tangent(const H& X, const H& U, const std::vector<double>& C, const std::string& name, Ctx& x)
{
  x.evaluations++;
  x.executions++;
  Elem&               e = *elem();
  std::vector<double> K(576, 1e99);
  e.el.ComputeTangent(&X[0][0], C.data(), K.data());
  // stress of the linearised strain of U at each point, and its forces
  std::array<std::array<double, 6>, 8> S;
  double                               smax = 0;
  double                               w[8][3] = {};
  for (int i = 0; i < 8; i++) {
    double q[3], N[8], D[8][3];
    point(i, q);
    M3     j = jac(X, q), ji = inv(j);
    double dj = det3(j);
    shape(q, N, D);
    double g[8][3], h[3][3] = {};
    for (int n = 0; n < 8; n++)
      for (int a = 0; a < 3; a++) {
        g[n][a] = D[n][0] * ji[a] + D[n][1] * ji[3 + a] + D[n][2] * ji[6 + a];
        for (int b = 0; b < 3; b++) h[b][a] += U[n][b] * g[n][a];
      }
    double eps[6] = {h[0][0], h[1][1], h[2][2], h[0][1] + h[1][0], h[1][2] + h[2][1], h[2][0] + h[0][2]}, s[3][3];
    for (int k = 0; k < 6; k++) {
      S[i][k] = 0;
      for (int l = 0; l < 6; l++) {
        S[i][k] += C[36 * i + 6 * k + l] * eps[l];
        smax = std::max(smax, std::fabs(C[36 * i + 6 * k + l] * 0.3));
      }
    }
    for (int k = 0; k < 6; k++) s[FR[k]][FC[k]] = s[FC[k]][FR[k]] = S[i][k];
    for (int n = 0; n < 8; n++)
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) w[n][a] += dj * s[a][b] * g[n][b];
  }
  double L = 0;
  for (auto& p : X)
    for (int k = 0; k < 3; k++) L = std::max(L, std::fabs(p[k] - X[0][k]));
  double lm = least_edge(X), tol = (1e-11 + 1e-13 * reach(X) / lm) * smax * 8 * L * L * L / (lm * lm) * std::max(1.0, reach(U));
  for (int n = 0; n < 24; n++) {
    double s = 0;
    for (int m = 0; m < 24; m++) s += K[24 * n + m] * U[m / 3][m % 3];
    if (!(std::fabs(s - w[n / 3][n % 3]) <= tol)) {
      x.violation("tangent", "tangent times displacement gives " + fmt(s) + " instead of " + fmt(w[n / 3][n % 3]) + " for component " + std::to_string(n) + " | " + name + " " + show(X) + " displaced by " + show(U));
      break;
    }
  }
}

// ---------------------------------------------------------------- shapes
struct Shape
{
  H           x;
  std::string name;
};
static H
base(int k)
{
  H r;
  for (int n = 0; n < 8; n++) {
    double p[3] = {0.5 * SG[n][0] + 0.5, 0.5 * SG[n][1] + 0.5, 0.5 * SG[n][2] + 0.5};
    if (k == 0) r[n] = {p[0], p[1], p[2]};
    if (k == 1) r[n] = {2.5 * p[0] - 3, 0.4 * p[1] + 2, 1.3 * p[2] - 1};
    if (k == 2) r[n] = {p[0] + 0.3 * p[1] - 0.2 * p[2], 0.9 * p[1] + 0.25 * p[2] - 0.4 * p[0], 1.1 * p[2] + 0.15 * p[0]};
    if (k == 3) r[n] = {1e-4 * p[0], 1e-4 * p[1], 1.5e-4 * p[2]};
  }
  return r;
}
static const double P3[3] = {0, -0.2, 0.25};
static V3
shift(int i)
{
  return {P3[i % 3], P3[i / 3 % 3], P3[i / 9]};
}
static double
unit(int k)
{
  return k == 3 ? 1e-4 : k == 1 ? 0.4 : 1;
}
// every way to move up to `most` nodes
static std::vector<Shape>
shapes(int b, int most, int every = 1)
{
  std::vector<Shape>           r;
  std::function<void(int, int, H, std::string)> go = [&](int from, int left, H x, std::string nm) {
    r.push_back({x, nm});
    if (!left) return;
    for (int n = from; n < 8; n++)
      for (int s = 1; s < 27; s++) {
        H  y = x;
        V3 d = shift(s);
        for (int k = 0; k < 3; k++) y[n][k] += unit(b) * d[k];
        go(n + 1, left - 1, y, nm + " " + std::to_string(n) + ":" + std::to_string(s));
      }
  };
  go(0, most, base(b), "base " + std::to_string(b));
  std::vector<Shape> v;
  for (size_t i = 0; i < r.size(); i += every) v.push_back(r[i]);
  return v;
}
static M3
gradient(size_t i, const std::vector<double>& v)
{
  M3 g;
  for (double& q : g) {
    q = v[i % v.size()];
    i /= v.size();
  }
  return g;
}
static bool
admissible(M3 g)
{
  for (int i = 0; i < 3; i++) g[4 * i] += 1;
  return det3(g) > 0.15;
}
static void
blocks(const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f)
{
  Stage st;
  st.name        = name;
  st.n           = (n + per - 1) / per;
  st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
  st.worker_init = [] {
    int   ac = 1;
    char  a0[] = "x", *av[] = {a0, nullptr};
    if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
  };
  st.worker_fini = [] { fflush(stdout); };
  st.fn          = [=](size_t b, Ctx& x) {
    for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
    x.distinct(hash_str(name + std::to_string(b)));
  };
  vh::run(st);
}
static std::array<std::array<double, 6>, 8>
stress(int k)
{
  std::array<std::array<double, 6>, 8> s{};
  if (k < 48) s[k / 6][k % 6] = 1.5;
  else
    for (int i = 0; i < 8; i++)
      for (int c = 0; c < 6; c++) s[i][c] = ((i * 7 + c * 5 + k * 3) % 11) - 5 + (k == 49 ? 1e4 * (c < 3) : 0);
  return s;
}
static H
motion(int k)
{
  H u{};
  for (int n = 0; n < 8; n++)
    for (int c = 0; c < 3; c++) u[n][c] = k == 0 ? 0 : 0.04 * (((n * 5 + c * 3 + k * k) % 7) - 3);
  return u;
}

static std::vector<double>
element_masses(const Case& c, double& total)
{
  std::vector<double> m(c.m.X.size());
  total = 0;
  for (auto& b : c.m.blocks)
    for (auto& e : b.conn) {
      H x;
      for (int n = 0; n < 8; n++) x[n] = c.m.X[e[n]];
      double rho = c.d.mats[c.d.block_mat.at(b.id)].rho;
      auto   w   = shape_integrals(x);
      for (int n = 0; n < 8; n++) m[e[n]] += rho * w[n];
      total += rho * volume(x);
    }
  return m;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  PROP    = getenv("VH_PROPERTY") ? getenv("VH_PROPERTY") : "C12";
  bool th = opt.thorough();
  auto ord = orders();
  std::vector<double> V3g{0, -0.3, 0.4}, V4g{0, -0.3, 0.4, 0.9};
  size_t n3 = 19683;
  std::vector<Shape> one, some;  // shapes with one node moved on all bases; a handful
  for (int b = 0; b < 4; b++)
    for (auto& s : shapes(b, 1))
      if (valid(s.x, 0)) one.push_back(s);
  for (size_t i = 0; i < one.size(); i += 61) some.push_back(one[i]);
  std::vector<Shape> two = shapes(0, 2);
  two.erase(std::remove_if(two.begin(), two.end(), [](const Shape& s) { return !valid(s.x, 0.02); }), two.end());
  std::vector<V3> moves{{0, 0, 0}, {3, -2, 5}, {1000, -500, 70}};
  auto cell = [&](size_t i) { return i < one.size() ? one[i] : two[i - one.size()]; };
  if (PROP == "C12") {
    blocks("every gradient", n3 * some.size(), 500, [&](size_t i, Ctx& x) {
      M3 g = gradient(i % n3, V3g);
      if (!admissible(g)) return;
      auto& s = some[i / n3];
      uniform(s.x, g, {0.5, -0.25, 0.125}, s.name + " gradient " + std::to_string(i % n3), x);
    });
    std::vector<M3> gs;
    for (size_t i = 0; i < n3; i += 1231)
      if (admissible(gradient(i, V3g))) gs.push_back(gradient(i, V3g));
    size_t nt = gs.size() * moves.size();
    blocks("every shape", (one.size() + two.size()) * nt, 2000, [&](size_t i, Ctx& x) {
      Shape s = cell(i / nt);
      double u = s.name[5] == '3' ? 1e-4 : 1;
      V3 c = moves[i % moves.size()];
      for (double& q : c) q *= u;
      H X = reorder(s.x, ord[(i / 3) % ord.size()]);
      for (auto& p : X)
        for (int k = 0; k < 3; k++) p[k] += (i % 2) * c[(k + 1) % 3];
      uniform(X, gs[i / moves.size() % gs.size()], c, s.name, x);
    });
    blocks("deformations", (one.size() + (th ? two.size() : 0)) * 6, 200, [&](size_t i, Ctx& x) {
      Shape  s = cell(i / 6);
      H      u = motion(1 + i % 6);
      double f = s.name[5] == '3' ? 1e-4 : s.name[5] == '1' ? 0.4 : 1;
      for (auto& p : u)
        for (double& q : p) q *= f;
      if (valid(plus(s.x, u), 0)) nonuniform(s.x, u, ord, s.name + " motion " + std::to_string(i % 6), x);
    });
    {
      auto three = shapes(0, 3);
      size_t m = th ? gs.size() : 1;
      blocks("three nodes moved", three.size() * m, 2000, [&](size_t k, Ctx& x) {
        size_t i = k / m;
        if (!valid(three[i].x, 0.02)) return;
        uniform(three[i].x, gs[(i + k) % gs.size()], moves[i % 3], three[i].name, x);
      });
    }
    // whole runs that impose a uniform velocity gradient on every node
    std::vector<Case> cs;
    std::vector<double> vl{0, -0.2, 0.3};
    size_t k = 0;
    size_t nb = 0;
    for (auto& b : bodies(th)) {
      if (nb++ % 4 && b.m.nelem() > 2 && !th) continue;
      for (size_t i = 0; i < (b.m.nelem() > 2 ? 1u : 12u); i++) {
        Case c = b;
        c.g    = gradient((k++ * 1789 + i * 37) % n3, vl);
        static const char* cn = "xyz";
        for (int q = 0; q < 3; q++) {
          std::string e = "\"";
          for (int l = 0; l < 3; l++) e += (l ? " + " : "") + fmt(c.g[3 * q + l]) + "*" + cn[l];
          c.d.bcs.push_back({ref::BC::PV, "nodelist_1", q, e + "\"", {}});
        }
        c.d.fields = cases::all_fields();
        c.name += " gradient " + std::to_string(k);
        cs.push_back(c);
      }
    }
    run_cases("uniform runs", cs, [](const Case& c, Ctx& x) {
      std::vector<std::vector<std::vector<double>>> nodal;
      std::vector<exo::Results>                     pieces;
      auto                                          r = whole(c, x, nodal, &pieces);
      if (!r.error.empty()) return;
      auto parts = c.np > 1 ? exo::split(c.m, c.part, c.np, c.rev) : std::vector<exo::Mesh>{c.m};
      static const char* fs[] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
      for (int p = 0; p < c.np; p++) {
        auto& q = pieces[p];
        for (size_t s = 0; s < q.times.size(); s++) {
          M3 F = c.g;
          for (double& v : F) v *= q.times[s];
          for (int i = 0; i < 3; i++) F[4 * i] += 1;
          for (size_t b = 0; b < q.block_ids.size(); b++) {
            if (!q.block_n[b]) continue;
            size_t mb = 0;
            while (parts[p].blocks[mb].id != q.block_ids[b]) mb++;
            for (int ip = 0; ip <= 8; ip++)
              for (int k = 0; k < 9; k++) {
                std::string v = (ip ? "ipt0" + std::to_string(ip) + "_" : "") + "deformation_gradient_" + fs[k];
                int         vi = q.ev(v);
                for (size_t e = 0; e < (size_t)q.block_n[b]; e++) {
                  double got = vi < 0 || e >= q.elem[s][b][vi].size() ? NAN : q.elem[s][b][vi][e], want = F[3 * FR[k] + FC[k]];
                  if (!(std::fabs(got - want) <= 1e-10)) {
                    x.violation("run gradient", v + " is " + fmt(got) + " instead of " + fmt(want) + " at plane " + std::to_string(s) + " | " + c.name);
                    break;
                  }
                }
              }
            int vi = q.ev("volume");
            for (size_t e = 0; e < (size_t)q.block_n[b]; e++) {
              H X;
              for (int n = 0; n < 8; n++) X[n] = parts[p].X[parts[p].blocks[mb].conn[e][n]];
              double got = vi < 0 ? NAN : q.elem[s][b][vi][e], want = det3(F) * volume(X);
              if (!(std::fabs(got - want) <= 1e-10 * volume(X))) x.violation("run volume", "volume is " + fmt(got) + " instead of " + fmt(want) + " at plane " + std::to_string(s) + " | " + c.name);
            }
          }
        }
      }
    });
    note("bounds", "all displacement gradients over {0,-0.3,0.4}^9 with positive volume on " + std::to_string(some.size()) + " shapes; all shapes with one node of four base bodies or two or three nodes of the cube moved by 26 offsets; 24 node orders; runs imposing uniform velocity gradients");
  }
  if (PROP == "C13") {
    std::vector<double> rho{1, 7.8e-9, 2500, 0.3};
    size_t n = (one.size() + two.size()) * rho.size() * moves.size();
    blocks("element masses", n, 4000, [&](size_t i, Ctx& x) {
      Shape  s = cell(i / 12);
      double u = s.name[5] == '3' ? 1e-4 : 1;
      H      X = reorder(s.x, ord[(i / 5) % ord.size()]);
      for (auto& p : X)
        for (int k = 0; k < 3; k++) p[k] += u * moves[i % 3][k];
      mass(X, rho[i / 3 % 4], s.name, x);
    });
    auto three = shapes(0, 3);
    blocks("three nodes moved", three.size(), 2000, [&](size_t i, Ctx& x) {
      if (valid(three[i].x, 0.02)) mass(reorder(three[i].x, ord[i % 24]), 1.5, three[i].name, x);
    });
    // runs
    std::vector<Case> cs;
    for (auto& b : bodies(th))
      for (int k = 0; k < 2; k++) {
        Case c   = b;
        c.d.bcs  = cases::conditions(0);
        if (k) c.m.nsets[0].nodes.resize(c.m.nsets[0].nodes.size() / 2);
        c.d.fields = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass"};
        c.name += k ? " pulled at one end" : " pulled";
        cs.push_back(c);
      }
    run_cases("runs", cs, [](const Case& c, Ctx& x) {
      std::vector<std::vector<std::vector<double>>> nodal;
      auto                                          r = whole(c, x, nodal);
      if (!r.error.empty()) return;
      double total, sum = 0;
      auto   want = element_masses(c, total);
      int    v    = r.nv("lumped_mass");
      if (v < 0) return x.violation("missing", "no lumped_mass in the results | " + c.name);
      for (size_t s = 0; s < nodal.size(); s++)
        for (size_t i = 0; i < want.size(); i++) {
          if (!s) sum += nodal[s][v][i];
          if (!(std::fabs(nodal[s][v][i] - want[i]) <= 1e-11 * total)) {
            x.violation("run nodal mass", "mass of node " + std::to_string(i) + " is " + fmt(nodal[s][v][i]) + " instead of " + fmt(want[i]) + " at plane " + std::to_string(s) + " | " + c.name);
            break;
          }
        }
      if (!(std::fabs(sum - total) <= 1e-11 * total)) x.violation("run total mass", "masses add up to " + fmt(sum) + " instead of " + fmt(total) + " | " + c.name);
      // accelerations of free nodes are force over mass
      for (size_t s = 1; s < nodal.size(); s++) {
        double scale = 1e-6;
        for (int k = 0; k < 3; k++)
          for (size_t i = 0; i < want.size(); i++) scale = std::max(scale, std::fabs(nodal[s][r.nv(std::string("internal_force_") + "xyz"[k])][i]));
        for (int k = 0; k < 3; k++) {
          int fv = r.nv(std::string("internal_force_") + "xyz"[k]), av = r.nv(std::string("acceleration_") + "xyz"[k]);
          for (size_t i = 0; i < want.size(); i++)
            if (!(std::fabs(nodal[s][av][i] * want[i] - nodal[s][fv][i]) <= 1e-10 * scale)) {
              x.violation("run acceleration", "acceleration of node " + std::to_string(i) + " times its mass is " + fmt(nodal[s][av][i] * want[i]) + ", the force " + fmt(nodal[s][fv][i]) + " at plane " + std::to_string(s) + " | " + c.name);
              break;
            }
        }
      }
    });
    note("bounds", "all shapes with one node of four base bodies, two or three nodes of the cube moved by 26 offsets, four densities, three positions, 24 node orders; all block assignments and distributions of the stated grids");
  }
  if (PROP == "C14") {
    size_t ns = 52, nm = 3;
    size_t cells = one.size() + two.size();
    blocks("every unit stress", one.size() * ns * nm, 3000, [&](size_t i, Ctx& x) {
      auto&  s = one[i / ns / nm];
      double f = s.name[5] == '3' ? 1e-4 : s.name[5] == '1' ? 0.4 : 1;
      H      u = motion(i / ns % nm), X = reorder(s.x, ord[i % 24]);
      for (auto& p : u)
        for (double& q : p) q *= f;
      if (valid(plus(X, u), 0)) work(X, u, stress(i % ns), s.name + " stress " + std::to_string(i % ns) + " motion " + std::to_string(i / ns % nm), x);
    });
    blocks("every shape", cells * 6, 3000, [&](size_t i, Ctx& x) {
      Shape  s = cell(i / 6);
      double f = s.name[5] == '3' ? 1e-4 : s.name[5] == '1' ? 0.4 : 1;
      H      u = motion(i % 3), X = reorder(s.x, ord[i / 3 % 24]);
      for (auto& p : u)
        for (double& q : p) q *= f;
      for (auto& p : X)
        for (int k = 0; k < 3; k++) p[k] += f * moves[i % 2][k];
      if (valid(plus(X, u), 0)) work(X, u, stress(48 + i % 4), s.name + " motion " + std::to_string(i % 3), x);
    });
    auto three = shapes(0, 3);
    blocks("three nodes moved", three.size(), 2000, [&](size_t i, Ctx& x) {
      if (valid(three[i].x, 0.02)) work(reorder(three[i].x, ord[i % 24]), motion(0), stress(48 + i % 4), three[i].name, x);
    });
    // tangents: unit moduli, general moduli; unit displacements of every node, and others
    std::vector<Shape> tsh;
    for (size_t i = 0; i < one.size(); i += th ? 7 : 41) tsh.push_back(one[i]);
    size_t nc = 36 * 2 + 2, nu = 24 + 3;
    blocks("tangents", tsh.size() * nc * nu, 500, [&](size_t i, Ctx& x) {
      size_t u = i % nu, c = i / nu % nc;
      auto&  s = tsh[i / nu / nc];
      std::vector<double> C(288);
      if (c < 36) for (int p = 0; p < 8; p++) C[36 * p + c] = 2;
      else if (c < 72) C[36 * ((c * 5 + i / nu / nc) % 8) + c - 36] = 3;
      else
        for (int k = 0; k < 288; k++) C[k] = ((k * 7 + c * 3) % 13) - 6;
      H U = motion(u < 24 ? 0 : u - 23);
      if (u < 24) U[u / 3][u % 3] = 1;
      tangent(s.x, U, C, s.name + " moduli " + std::to_string(c) + " displacement " + std::to_string(u), x);
    });
    // runs of free bodies: momentum
    std::vector<Case> cs;
    for (auto& b : bodies(th))
      for (int k = 0; k < 2; k++) {
        Case c  = b;
        c.d.bcs = cases::conditions(0);
        c.d.steps = 6;
        c.d.t1 = 0.3;
        if (k) c.m.nsets[0].nodes.resize(c.m.nsets[0].nodes.size() / 2);
        c.d.fields = {"displacement", "velocity", "acceleration", "internal_force"};
        c.name += k ? " pulled at one end" : " pulled";
        cs.push_back(c);
      }
    run_cases("free bodies", cs, [](const Case& c, Ctx& x) {
      std::vector<std::vector<std::vector<double>>> nodal;
      auto                                          r = whole(c, x, nodal);
      if (!r.error.empty()) return;
      double total;
      auto   m = element_masses(c, total);
      for (int k = 0; k < 3; k++) {
        int    vv = r.nv(std::string("velocity_") + "xyz"[k]), fv = r.nv(std::string("internal_force_") + "xyz"[k]);
        double p0 = 0;
        for (size_t s = 0; s < nodal.size(); s++) {
          double p = 0, f = 0, fs = 1e-3, ps = 1e-3;
          for (size_t i = 0; i < m.size(); i++) {
            p += m[i] * nodal[s][vv][i];
            f += nodal[s][fv][i];
            ps = std::max(ps, std::fabs(m[i] * nodal[s][vv][i]));
            fs = std::max(fs, std::fabs(nodal[s][fv][i]));
          }
          if (!s) p0 = p;
          if (!(std::fabs(f) <= 1e-10 * fs * m.size())) x.violation("run resultant", "internal forces of the free body add up to " + fmt(f) + " at plane " + std::to_string(s) + " | " + c.name);
          if (!(std::fabs(p - p0) <= 1e-10 * ps * m.size())) x.violation("run momentum", "momentum changes from " + fmt(p0) + " to " + fmt(p) + " at plane " + std::to_string(s) + " | " + c.name);
        }
      }
      // moment about the deformed positions
      for (size_t s = 0; s < nodal.size(); s++) {
        double t[3] = {}, sc = 1e-3;
        for (size_t i = 0; i < m.size(); i++) {
          double y[3], f[3];
          for (int k = 0; k < 3; k++) {
            y[k] = c.m.X[i][k] + nodal[s][r.nv(std::string("displacement_") + "xyz"[k])][i];
            f[k] = nodal[s][r.nv(std::string("internal_force_") + "xyz"[k])][i];
          }
          for (int k = 0; k < 3; k++) {
            t[k] += y[(k + 1) % 3] * f[(k + 2) % 3] - y[(k + 2) % 3] * f[(k + 1) % 3];
            sc = std::max(sc, std::fabs(y[(k + 1) % 3] * f[(k + 2) % 3]));
          }
        }
        for (double q : t)
          if (!(std::fabs(q) <= 1e-10 * sc * m.size())) x.violation("run moment", "internal forces of the free body have moment " + fmt(q) + " at plane " + std::to_string(s) + " | " + c.name);
      }
    });
    note("bounds", "48 unit stresses and four general ones on all shapes with one node moved, general stresses on all shapes with two or three nodes moved, three motions, 24 node orders; unit moduli times unit displacements of every node; free bodies in all block assignments and distributions of the stated grids");
  }
  return finish();
}
