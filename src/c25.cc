// C25: every tensor over small value lattices, at several scales, through the kernels of nimble_utils.h, against defining identities.
#include <nimble_utils.h>

#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <functional>

#include "vh.h"
using namespace vh;
typedef long double LD;
typedef std::array<double, 9> A9;  // storage of the library
typedef std::array<double, 6> A6;
// row, column of each stored component, written down here independently: full XX YY ZZ XY YZ ZX YX ZY XZ, symmetric XX YY ZZ XY YZ ZX
static const int FR[9] = {0, 1, 2, 0, 1, 2, 1, 2, 0}, FC[9] = {0, 1, 2, 1, 2, 0, 0, 1, 2};
struct M
{
  LD a[3][3];
};
static M
zero()
{
  M m;
  for (auto& r : m.a)
    for (auto& v : r) v = 0;
  return m;
}
static M
eye()
{
  M m = zero();
  for (int i = 0; i < 3; i++) m.a[i][i] = 1;
  return m;
}
static M
full(const double* p)
{
  M m;
  for (int k = 0; k < 9; k++) m.a[FR[k]][FC[k]] = p[k];
  return m;
}
static M
sym(const double* p)
{
  M m;
  for (int k = 0; k < 6; k++) m.a[FR[k]][FC[k]] = m.a[FC[k]][FR[k]] = p[k];
  return m;
}
static A9
pack(const M& m)
{
  A9 r;
  for (int k = 0; k < 9; k++) r[k] = m.a[FR[k]][FC[k]];
  return r;
}
static A6
packs(const M& m)
{
  A6 r;
  for (int k = 0; k < 6; k++) r[k] = (m.a[FR[k]][FC[k]] + m.a[FC[k]][FR[k]]) / 2;
  return r;
}
static M
operator*(const M& a, const M& b)
{
  M m = zero();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) m.a[i][j] += a.a[i][k] * b.a[k][j];
  return m;
}
static M
operator*(LD s, const M& b)
{
  M m = b;
  for (auto& r : m.a)
    for (auto& v : r) v *= s;
  return m;
}
static M
operator+(const M& a, const M& b)
{
  M m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m.a[i][j] = a.a[i][j] + b.a[i][j];
  return m;
}
static M
operator-(const M& a, const M& b)
{
  return a + (LD)-1 * b;
}
static M
tr(const M& a)
{
  M m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m.a[i][j] = a.a[j][i];
  return m;
}
static LD
norm(const M& a)
{
  LD s = 0;
  for (auto& r : a.a)
    for (auto& v : r) s += v * v;
  return std::sqrt(s);
}
static LD
det(const M& a)
{
  return a.a[0][0] * (a.a[1][1] * a.a[2][2] - a.a[1][2] * a.a[2][1]) - a.a[0][1] * (a.a[1][0] * a.a[2][2] - a.a[1][2] * a.a[2][0]) + a.a[0][2] * (a.a[1][0] * a.a[2][1] - a.a[1][1] * a.a[2][0]);
}
static M
adjugate(const M& a)
{
  M m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int p = (j + 1) % 3, q = (j + 2) % 3, r = (i + 1) % 3, s = (i + 2) % 3;
      m.a[i][j] = a.a[p][r] * a.a[q][s] - a.a[p][s] * a.a[q][r];
    }
  return m;
}
static std::string
show(const M& m)
{
  std::string s = "[";
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) s += fmt(m.a[i][j]) + (j < 2 ? " " : i < 2 ? "; " : "]");
  return s;
}
static std::map<std::string, double> worst;
// |x| <= tol * scale
static void
small(const char* what, LD x, LD scale, LD tol, const std::function<std::string()>& in, Ctx& c)
{
  double r = scale > 0 ? x / scale : x;
  if (!(r <= worst[what])) worst[what] = r;
  if (!(r <= tol)) c.violation(what, std::string(what) + ": error " + fmt(r) + " relative to the operands, for " + in());
}
static M
rotation(LD x, LD y, LD z, LD angle)
{
  LD n = std::sqrt(x * x + y * y + z * z);
  x /= n;
  y /= n;
  z /= n;
  M k = zero();
  k.a[0][1] = -z;
  k.a[0][2] = y;
  k.a[1][0] = z;
  k.a[1][2] = -x;
  k.a[2][0] = -y;
  k.a[2][1] = x;
  LD h = std::sin(angle / 2);
  return eye() + std::sin(angle) * k + (2 * h * h) * (k * k);
}
static const LD PI = acosl(-1.0L);
static const double SC[] = {1, 1e-8, 1e-3, 7e2, 1e7};

static void
products(const M& a0, const M& b0, double s, Ctx& x)
{
  x.executions++;
  x.evaluations++;
  A9   A = pack(a0), B = pack(b0), R;
  M    a = full(A.data()), b = full(B.data());  // what the library is given
  A6   S = packs(a + tr(a)), Q;
  M    sa = sym(S.data());
  auto in = [&] { return show(a) + ", " + show(b); };
  LD   na = norm(a), nb = norm(b), T = 1e-14;
  Mult_Full33_Full33(A.data(), B.data(), R.data());
  small("Mult_Full33_Full33", norm(full(R.data()) - a * b), na * nb, T, in, x);
  Mult_Scalar_Full33_Full33(1.7 * s, A.data(), B.data(), R.data());
  small("Mult_Scalar_Full33_Full33", norm(full(R.data()) - (LD)(1.7 * s) * (a * b)), s * na * nb, T, in, x);
  Mult_Sym33_Full33(S.data(), B.data(), R.data());
  small("Mult_Sym33_Full33", norm(full(R.data()) - sa * b), norm(sa) * nb, T, in, x);
  Mult_Full33_Sym33_ReturnT(B.data(), S.data(), R.data());
  small("Mult_Full33_Sym33_ReturnT", norm(full(R.data()) - tr(b * sa)), norm(sa) * nb, T, in, x);
  Sum_Full33_Full33(A.data(), B.data(), R.data());
  small("Sum_Full33_Full33", norm(full(R.data()) - (a + b)), na + nb, T, in, x);
  Sum_Sym33_Full33(S.data(), B.data(), R.data());
  small("Sum_Sym33_Full33", norm(full(R.data()) - (sa + b)), norm(sa) + nb, T, in, x);
  Rotate_Sym33_Using_Rtranspose_S_R(S.data(), B.data(), Q.data());
  small("Rotate_Sym33_Using_Rtranspose_S_R", norm(sym(Q.data()) - tr(b) * sa * b), norm(sa) * nb * nb, T, in, x);
  Unrotate_Sym33_Using_R_S_Rtranspose(S.data(), B.data(), Q.data());
  small("Unrotate_Sym33_Using_R_S_Rtranspose", norm(sym(Q.data()) - b * sa * tr(b)), norm(sa) * nb * nb, T, in, x);
  // four terms of the expansion
  auto br = [](const M& p, const M& q) { return p * q - q * p; };
  M c = br(a, b), w = a + b + (LD)0.5 * c + (LD)1 / 12 * (br(a, c) - br(b, c)) - (LD)1 / 24 * br(b, br(a, c));
  LD sc = na + nb + na * nb + na * nb * (na + nb) + na * na * nb * nb;
  BCH(A.data(), B.data(), R.data());
  small("BCH", norm(full(R.data()) - w), sc, 1e-13, in, x);
  M cs = br(sa, b), ws = sa + b + (LD)0.5 * cs + (LD)1 / 12 * (br(sa, cs) - br(b, cs)) - (LD)1 / 24 * br(b, br(sa, cs));
  LD ns = norm(sa);
  BCH_Sym33_Full33(S.data(), B.data(), R.data());
  small("BCH_Sym33_Full33", norm(full(R.data()) - ws), ns + nb + ns * nb + ns * nb * (ns + nb) + ns * ns * nb * nb, 1e-13, in, x);
}
static void
single(const M& a0, double s, Ctx& x)
{
  x.executions++;
  x.evaluations++;
  A9   A = pack(a0), R;
  M    a = full(A.data());  // what the library is given
  A6   Q;
  auto in = [&] { return show(a); };
  LD   na = norm(a), T = 1e-14;
  Mult_Scalar_Full33(-2.5 * s, A.data(), R.data());
  small("Mult_Scalar_Full33", norm(full(R.data()) + (LD)(2.5 * s) * a), s * na, T, in, x);
  Square_Full33T_Full33(A.data(), Q.data());
  small("Square_Full33T_Full33", norm(sym(Q.data()) - tr(a) * a), na * na, T, in, x);
  Square_Full33_Full33T(A.data(), Q.data());
  small("Square_Full33_Full33T", norm(sym(Q.data()) - a * tr(a)), na * na, T, in, x);
  SymPart_Full33(A.data(), Q.data());
  small("SymPart_Full33", norm(sym(Q.data()) - (LD)0.5 * (a + tr(a))), na, T, in, x);
  SkewPart_Full33(A.data(), R.data());
  small("SkewPart_Full33", norm(full(R.data()) - (LD)0.5 * (a - tr(a))), na, T, in, x);
  small("Norm_Full33", std::fabs(Norm_Full33(A.data()) - na), na, T, in, x);
  A6 S = packs(a);
  small("Norm_Sym33", std::fabs(Norm_Sym33(S.data()) - norm(sym(S.data()))), na, T, in, x);
  LD d = det(a);
  small("Determinant_Full33", std::fabs(Determinant_Full33(A.data()) - d), na * na * na, T, in, x);
  R.fill(9);
  SetEqual_Full33(A.data(), R.data());
  small("SetEqual_Full33", norm(full(R.data()) - a), na, 0, in, x);
  Q.fill(9);
  SetEqual_Sym33(S.data(), Q.data());
  small("SetEqual_Sym33", norm(sym(Q.data()) - sym(S.data())), na, 0, in, x);
  Zero_Full33(R.data());
  small("Zero_Full33", norm(full(R.data())), na, 0, in, x);
  double u[3] = {(double)a.a[0][0], (double)a.a[0][1], (double)a.a[0][2]}, v[3] = {(double)a.a[1][0], (double)a.a[1][1], (double)a.a[1][2]}, w[3];
  CrossProduct(u, v, w);
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    small("CrossProduct", std::fabs(w[i] - ((LD)u[j] * v[k] - (LD)u[k] * v[j])), na * na, T, in, x);
  }
  // inverses of matrices that are not nearly singular
  if (d > 1e-6 * na * na * na) {
    M  inv = (1 / d) * adjugate(a);
    LD k   = na * norm(inv);
    double dd = Invert_Full33(A.data(), R.data());
    small("Invert_Full33 determinant", std::fabs(dd - d), na * na * na, T, in, x);
    small("Invert_Full33", norm(full(R.data()) - inv), norm(inv), 1e-14 * k * k, in, x);
    double m[3][3], mi[3][3];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m[i][j] = a.a[i][j];
    dd   = Invert3x3(m, mi);
    M g  = zero();
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) g.a[i][j] = mi[i][j];
    small("Invert3x3 determinant", std::fabs(dd - d), na * na * na, T, in, x);
    small("Invert3x3", norm(g - inv), norm(inv), 1e-14 * k * k, in, x);
    x.count("inverses");
    // polar decompositions a = V R
    if (k < 1e3) {
      A6 V, L;
      A9 Rt;
      M  l;
      for (int which = 0; which < 2; which++) {
        V.fill(7);
        Rt.fill(7);
        if (which == 0)
          Polar_Decomp(A.data(), V.data(), Rt.data());
        else
          Polar_Left_LogV_Lame(A.data(), V.data(), Rt.data(), L.data());
        std::string n = which ? "Polar_Left_LogV_Lame" : "Polar_Decomp";
        M           mv = sym(V.data()), mr = full(Rt.data());
        LD          tol = 1e-12 * k * k;
        small((n + " product").c_str(), norm(mv * mr - a), na, tol, in, x);
        small((n + " rotation").c_str(), norm(mr * tr(mr) - eye()), 1, tol, in, x);
        small((n + " orientation").c_str(), std::fabs(det(mr) - 1), 1, tol, in, x);
        // positive definite
        bool pd = mv.a[0][0] > 0 && mv.a[0][0] * mv.a[1][1] - mv.a[0][1] * mv.a[0][1] > 0 && det(mv) > 0;
        if (!pd) x.violation(n + " stretch", n + ": the stretch is not positive definite for " + in());
        if (which) {
          // V = exp(L), by a series with scaling
          l      = sym(L.data());
          if (!std::isfinite((double)norm(l))) {
            x.violation(n + " logarithm", n + ": the logarithm is not finite for " + in());
            continue;
          }
          int sq = 0;
          while (norm(l) > 0.5) l = (LD)0.5 * l, sq++;
          M e = eye(), t = eye();
          for (int i = 1; i < 25; i++) {
            t = (LD)1 / i * (t * l);
            e = e + t;
          }
          while (sq--) e = e * e;
          small("Polar_Left_LogV_Lame logarithm", norm(e - mv), norm(mv), tol, in, x);
        }
      }
      x.count("polar decompositions");
    }
  }
}
static void
eigen(const M& a, Ctx& x)
{
  x.executions++;
  x.evaluations++;
  A6     S = packs(a);
  M      m = sym(S.data());
  double ev[3], v[3][3];
  auto   in = [&] { return show(m); };
  Eigen_Sym33_NonUnit(S.data(), ev[0], ev[1], ev[2], v[0], v[1], v[2]);
  LD n = norm(m);
  if (n == 0) n = 1;
  LD len[3];
  for (int i = 0; i < 3; i++) {
    len[i] = std::sqrt((LD)v[i][0] * v[i][0] + (LD)v[i][1] * v[i][1] + (LD)v[i][2] * v[i][2]);
    if (!(len[i] > 0) || !std::isfinite((double)len[i]) || !std::isfinite(ev[i])) {
      x.violation("Eigen_Sym33_NonUnit degenerate", "Eigen_Sym33_NonUnit: value " + fmt(ev[i]) + " with a vector of length " + fmt(len[i]) + " for " + in());
      return;
    }
  }
  for (int i = 0; i < 3; i++) {
    LD r = 0;
    for (int j = 0; j < 3; j++) {
      LD q = -(LD)ev[i] * v[i][j];
      for (int k = 0; k < 3; k++) q += m.a[j][k] * v[i][k];
      r += q * q;
    }
    small("Eigen_Sym33_NonUnit residual", std::sqrt(r) / len[i], n, 1e-10, in, x);
    for (int j = 0; j < i; j++) small("Eigen_Sym33_NonUnit orthogonality", std::fabs((LD)v[i][0] * v[j][0] + (LD)v[i][1] * v[j][1] + (LD)v[i][2] * v[j][2]) / len[i] / len[j], 1, 1e-9, in, x);
  }
  // the three values belong to the tensor as a whole: invariants
  small("Eigen_Sym33_NonUnit trace", std::fabs((LD)ev[0] + ev[1] + ev[2] - m.a[0][0] - m.a[1][1] - m.a[2][2]), n, 1e-10, in, x);
  small("Eigen_Sym33_NonUnit determinant", std::fabs((LD)ev[0] * ev[1] * ev[2] - det(m)), n * n * n, 1e-10, in, x);
}
static void
logs(LD ax, LD ay, LD az, LD angle, Ctx& x)
{
  x.executions++;
  x.evaluations++;
  M    r = rotation(ax, ay, az, angle);
  A9   R = pack(r), L;
  auto in = [&] { return "a rotation by " + fmt(angle) + " about (" + fmt(ax) + " " + fmt(ay) + " " + fmt(az) + ")"; };
  LD   n = std::sqrt(ax * ax + ay * ay + az * az), w[3] = {ax / n, ay / n, az / n};
  M    k = zero();
  k.a[0][1] = -w[2];
  k.a[0][2] = w[1];
  k.a[1][0] = w[2];
  k.a[1][2] = -w[0];
  k.a[2][0] = -w[1];
  k.a[2][1] = w[0];
  L.fill(77);
  Log_Rotation(R.data(), L.data());
  M l = full(L.data());
  LD e = norm(l - angle * k);
  if (angle > 3.1) e = std::min(e, norm(l + (2 * PI - angle) * k));  // both senses near a half turn
  small("Log_Rotation", e, 1, angle < 3.1 ? 1e-12 : 1e-6, in, x);
  if (angle == PI) {
    L.fill(77);
    Log_Rotation_Pi(R.data(), L.data());
    l = full(L.data());
    small("Log_Rotation_Pi", std::min(norm(l - angle * k), norm(l + angle * k)), 1, 1e-10, in, x);
  }
}
// a singular matrix must not pass for one that can be inverted: 0 it was refused, 1 its inverse is not finite, 2 its inverse looks like one
static int
passed(const M& a)
{
  A9    A = pack(a), R;
  pid_t p = fork();
  if (p == 0) {
    Quiet q;
    Invert_Full33(A.data(), R.data());
    bool finite = true;
    for (double v : R) finite = finite && std::isfinite(v);
    _exit(finite ? 2 : 1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 0;
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name     = name;
    st.n        = (n + per - 1) / per;
    st.describe = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.fn       = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
      if (getenv("VH_WORST"))
        for (auto& w : worst) fprintf(stderr, "WORST %s %g\n", w.first.c_str(), w.second);
    };
    vh::run(st);
  };
  auto lattice = [](size_t i, const std::vector<double>& v, double s, int n = 9) {
    M m = zero();
    for (int k = 0; k < n; k++, i /= v.size()) {
      double q = s * v[i % v.size()];
      if (n == 9) m.a[k / 3][k % 3] = q;
      else m.a[FR[k]][FC[k]] = m.a[FC[k]][FR[k]] = q;
    }
    return m;
  };
  auto pw = [](size_t b, int e) { size_t r = 1; while (e--) r *= b; return r; };
  std::vector<double> V3{-1, 0, 1}, V4{-0.75, 0, 1, 2.25}, VI{1.3, -0.2, 0.1};
  size_t nsc = sizeof SC / sizeof SC[0];
  blocks("tensors", pw(3, 9) * nsc, 500, [&](size_t i, Ctx& x) {
    single(lattice(i / nsc, V3, SC[i % nsc]), SC[i % nsc], x);
    if (i % 500 == 7) x.sample(show(lattice(i / nsc, V3, SC[i % nsc])), 2);
  });
  blocks("tensors of more values", pw(4, 9), 1000, [&](size_t i, Ctx& x) { single(lattice(i, V4, 1), 1, x); });
  if (th) blocks("tensors of five values", pw(5, 9), 5000, [&](size_t i, Ctx& x) { single(lattice(i, {-1.5, -0.25, 0, 1, 3}, 1), 1, x); });
  // diagonally dominant ones: every one can be inverted and decomposed
  blocks("stretched", pw(3, 9), 500, [&](size_t i, Ctx& x) {
    M m = lattice(i, {-0.1, 0, 0.23}, 1) + eye();
    single(m, 1, x);
    M d = eye();
    d.a[1][1] = 3;
    d.a[2][2] = 0.2;
    single(m * d, 1, x);
  });
  std::vector<M> bs;
  for (size_t i = 0; i < pw(3, 9); i += th ? 7 : 61) bs.push_back(lattice(i, {-1, 0.5, 2}, 1));
  blocks("pairs", pw(3, 9) * (th ? 400 : 25), 500, [&](size_t i, Ctx& x) {
    size_t k = i / pw(3, 9);
    double s = SC[(i + k) % nsc], u = SC[(i / 5 + k) % nsc];
    products(lattice(i % pw(3, 9), V3, s), (LD)u * bs[(i + k * 977) % bs.size()], s, x);
  });
  // every pair of unit tensors: each product term on its own
  blocks("unit pairs", 81 * 4, 10, [&](size_t i, Ctx& x) {
    M a = zero(), b = zero();
    size_t p = i / 4 % 9, q = i / 36;
    a.a[p / 3][p % 3] = i & 1 ? -3 : 2;
    b.a[q / 3][q % 3] = i & 2 ? 5 : -7;
    products(a, b, 1, x);
  });
  std::vector<double> E5{-2, -1, 0, 1, 3}, E6{-2, -1, 0, 1, 3, 0.5, 7};
  auto& EV = th ? E6 : E5;
  blocks("symmetric", pw(EV.size(), 6) * nsc, 1000, [&](size_t i, Ctx& x) { eigen(lattice(i / nsc, EV, SC[i % nsc], 6), x); });
  // nearly repeated eigenvalues: Q diag Q^T with every small difference, in every frame
  std::vector<M> frames;
  for (int x = -1; x <= 2; x++)
    for (int y = -1; y <= 2; y++)
      for (int z = -1; z <= 2; z++)
        if (x || y || z)
          for (double t : {0.3, 1.1, 2.0, 3.14159265358979}) frames.push_back(rotation(x, y, z, t));
  std::vector<double> dl{0, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1, 10};
  blocks("nearly repeated", frames.size() * dl.size() * dl.size() * 3 * nsc, 1000, [&](size_t i, Ctx& x) {
    M q = frames[i % frames.size()], d = zero();
    i /= frames.size();
    double a = dl[i % dl.size()], b = dl[i / dl.size() % dl.size()];
    i /= dl.size() * dl.size();
    double base = i % 3 == 0 ? 1 : i % 3 == 1 ? -2 : 0;
    double s = SC[i / 3];
    d.a[0][0] = s * (base + a);
    d.a[1][1] = s * base;
    d.a[2][2] = s * (base - b);
    eigen(q * d * tr(q), x);
    if (base == 1 && b < 0.5) {
      single(q * d * tr(q), s, x);
      single(q * d, s, x);
    }
  });
  // rotations
  std::vector<LD> ang{0, 0.3L, 0.5L, 1, 1.5L, PI / 2, 2, 2.5L, 3, 3.1L, PI};
  for (int k = 1; k <= 16; k++) ang.push_back(powl(10, -k)), ang.push_back(3 * powl(10, -k)), ang.push_back(PI - powl(10, -k)), ang.push_back(PI - 3 * powl(10, -k));
  int w = th ? 5 : 3;
  blocks("rotations", ang.size() * (2 * w + 1) * (2 * w + 1) * (2 * w + 1), 500, [&](size_t i, Ctx& x) {
    LD a = ang[i % ang.size()];
    i /= ang.size();
    int n = 2 * w + 1, p = i % n - w, q = i / n % n - w, r = (int)(i / n / n) - w;
    if (!p && !q && !r) return;
    logs(p, q, r, a, x);
  });
  // singular matrices
  blocks("singular", pw(3, 9), 200, [&](size_t i, Ctx& x) {
    M a = lattice(i, V3, 1);
    if (det(a) != 0) return;
    x.executions++;
    x.evaluations++;
    x.count("singular matrices");
    int p = passed(a);
    if (p == 1) x.violation("Invert_Full33 singular, inverse not finite", "Invert_Full33 divides by the zero determinant of the singular matrix " + show(a));
    if (p == 2) x.violation("Invert_Full33 singular, inverse finite", "Invert_Full33 inverts the singular matrix " + show(a));
  });
  // the approximation behind the eigenvalues
  blocks("third of an angle", th ? 1000000 : 100000, 1000, [&](size_t i, Ctx& x) {
    double v = i / (th ? 999999.0 : 99999.0);
    x.executions++;
    x.evaluations++;
    small("Cos_Of_Acos_Divided_By_3", std::fabs(Cos_Of_Acos_Divided_By_3(v) - std::cos(std::acos((LD)v) / 3)), 1, 1e-12, [&] { return fmt(v); }, x);
  });
  note("bounds", "all 3x3 tensors over {-1,0,1} and over four values at five scales, all symmetric ones over five values (thorough: seven), all at five scales from 1e-8 to 1e7, near-repeated spectra in " + std::to_string(frames.size()) + " frames, rotations about all axes of a cube of half width " + std::to_string(w));
  return finish();
}
