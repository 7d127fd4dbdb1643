// C22: every small sparsity pattern, filling order and reuse; every small system over an integer alphabet; against exact arithmetic.
#include <nimble_linear_solver.h>
#include <nimble_utils.h>
#include <csetjmp>
#include <csignal>

#include <algorithm>
#include <array>
#include <numeric>
#include <stdexcept>

#include "vh.h"
using namespace vh;
typedef long double     LD;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> Mat;

static std::string
show(const Mat& a)
{
  std::string s;
  for (auto& r : a) {
    s += "[";
    for (double v : r) s += (s.back() == '[' ? "" : " ") + fmt(v);
    s += "]";
  }
  return s;
}
static std::string
show(const V& a)
{
  std::string s = "(";
  for (double v : a) s += (s.size() > 1 ? " " : "") + fmt(v);
  return s + ")";
}
struct Pattern
{
  int              n;
  std::vector<int> i, j;
  uint64_t         bits = 0;
  std::vector<char> at;  // instead of bits, for large ones
  bool has(int r, int c) const { return at.empty() ? bits >> (r * n + c) & 1 : at[(size_t)r * n + c] != 0; }
};
static Pattern
pattern(int n, uint64_t bits)
{
  Pattern p;
  p.n    = n;
  p.bits = bits;
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++)
      if (bits >> (r * n + c) & 1) p.i.push_back(r), p.j.push_back(c);
  return p;
}
static Pattern
large_pattern(int n, int kind)
{
  Pattern p;
  p.n = n;
  p.at.assign((size_t)n * n, 0);
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++) {
      bool in = r == c;
      if (kind == 0) in = std::abs(r - c) < 3;                   // a band
      if (kind == 1) in = r == c || r == 0 || c == n / 2;        // a full row and a full column
      if (kind == 2) in = r / 24 == c / 24;                      // one element after another
      if (kind == 3) in = (r * 13 + c * 7) % 11 == 0 || c == n - 1;
      if (kind == 4) in = r < n / 2 ? c < 2 : (r + c) % 3 == 0;  // rows of very different lengths
      if (in) p.at[(size_t)r * n + c] = 1, p.i.push_back(r), p.j.push_back(c);
    }
  return p;
}
static double
value(int r, int c, int k)
{
  return ((r * 7 + c * 3 + k * 5) % 11) - 4.5;
}
// the container after `fill` against a dense table
static std::string
compare(const nimble::CRSMatrixContainer& A, const Pattern& p, const Mat& D)
{
  int rows = p.i.back() + 1;
  if (A.NumRows() != rows) return "rows: " + std::to_string(A.NumRows()) + " rows instead of " + std::to_string(rows);
  if (A.NumNonzeros() != p.i.size()) return "entries: " + std::to_string(A.NumNonzeros()) + " entries instead of " + std::to_string(p.i.size());
  for (int r = 0; r < rows; r++)
    for (int c = 0; c < p.n; c++) {
      try {
        double v = A(r, c);
        if (!p.has(r, c)) return "absent: entry " + std::to_string(r) + "," + std::to_string(c) + " is not in the pattern and was found";
        if (v != D[r][c]) return "value: entry " + std::to_string(r) + "," + std::to_string(c) + " is " + fmt(v) + " instead of " + fmt(D[r][c]);
      } catch (std::invalid_argument&) {
        if (p.has(r, c)) return "lost: entry " + std::to_string(r) + "," + std::to_string(c) + " is in the pattern and was not found";
      }
    }
  for (int t = 0; t < 3; t++) {
    V x(p.n), y(rows + 1, 7e77);
    for (int c = 0; c < p.n; c++) x[c] = t == 0 ? 1 << c % 20 : t == 1 ? 3 - 2 * c : (c == 1);
    A.MatVec(x.data(), y.data());
    for (int r = 0; r < rows; r++) {
      double w = 0;
      for (int c = 0; c < p.n; c++) w += D[r][c] * x[c];
      if (y[r] != w) return "product: row " + std::to_string(r) + " of the product is " + fmt(y[r]) + " instead of " + fmt(w);
    }
    if (y[rows] != 7e77) return "product: a value past the last row was written";
  }
  return "";
}
static std::string
describe(const Pattern& p)
{
  if (p.i.size() > 100) return "pattern of " + std::to_string(p.n) + " rows and " + std::to_string(p.i.size()) + " entries";
  std::string s = "pattern";
  for (size_t k = 0; k < p.i.size(); k++) s += " " + std::to_string(p.i[k]) + "," + std::to_string(p.j[k]);
  return s;
}
static void
use(nimble::CRSMatrixContainer& A, const Pattern& p, int order, Ctx& x, const std::string& before)
{
  x.executions++;
  x.evaluations++;
  auto say = [&](const std::string& step, const std::string& bad) {
    if (!bad.empty()) x.violation(step + " " + bad.substr(0, bad.find(':')), bad.substr(bad.find(':') + 2) + " after " + step + " | " + describe(p) + before + " filling order " + std::to_string(order));
  };
  try {
    A.AllocateNonzeros(p.i, p.j);
    Mat D(p.n, V(p.n));
    say("allocation", compare(A, p, D));
    std::vector<int> o(p.i.size());
    std::iota(o.begin(), o.end(), 0);
    if (order == 1) std::reverse(o.begin(), o.end());
    if (order > 1)
      for (size_t k = 0; k + 1 < o.size(); k++) std::swap(o[k], o[k + (order * 7 + k * 3) % (o.size() - k)]);
    for (int k : o) {
      A(p.i[k], p.j[k]) = value(p.i[k], p.j[k], order) - 1;
      A(p.i[k], p.j[k]) += 1;
      D[p.i[k]][p.j[k]] = value(p.i[k], p.j[k], order);
    }
    say("filling", compare(A, p, D));
    int rows = p.i.back() + 1;
    int r = order % rows, c = (order + 1) % p.n;
    A.SetRowValues(r, 2.25);
    for (int k = 0; k < p.n; k++)
      if (p.has(r, k)) D[r][k] = 2.25;
    say("setting a row", compare(A, p, D));
    A.SetColumnValues(c, -0.75);
    for (int k = 0; k < p.n; k++)
      if (p.has(k, c)) D[k][c] = -0.75;
    say("setting a column", compare(A, p, D));
    A.SetAllValues(1.5);
    for (int a = 0; a < p.n; a++)
      for (int b = 0; b < p.n; b++)
        if (p.has(a, b)) D[a][b] = 1.5;
    say("setting all", compare(A, p, D));
  } catch (std::exception& e) {
    say("use", std::string("exception: ") + e.what());
  }
}
static void
dense(int n, Ctx& x)
{
  // the dense container, fresh and reused
  nimble::MatrixContainer A;
  for (int round = 0; round < 3; round++) {
    int              m = n - (round == 1);
    if (m < 1) m = 1;
    std::vector<int> i, j;
    for (int r = 0; r < m; r++)
      for (int c = 0; c < m; c++) i.push_back(r), j.push_back(c);
    A.AllocateNonzeros(i, j);
    x.executions++;
    Mat  D(m, V(m));
    auto same = [&](const char* step) {
      for (int r = 0; r < m; r++)
        for (int c = 0; c < m; c++)
          if (A(r, c) != D[r][c]) {
            x.violation(std::string("dense ") + step, "entry " + std::to_string(r) + "," + std::to_string(c) + " is " + fmt(A(r, c)) + " instead of " + fmt(D[r][c]) + " after " + step + " | " + std::to_string(m) + " rows, use " + std::to_string(round + 1) + " of the container");
            return;
          }
    };
    same("allocation");
    for (int r = 0; r < m; r++)
      for (int c = 0; c < m; c++) A(r, c) = D[r][c] = value(r, c, round);
    same("filling");
    A.SetRowValues(round % m, 3);
    for (int c = 0; c < m; c++) D[round % m][c] = 3;
    same("setting a row");
    A.SetColumnValues((round + 1) % m, 4);
    for (int c = 0; c < m; c++) D[c][(round + 1) % m] = 4;
    same("setting a column");
    A.SetAllValues(-2);
    for (auto& r : D)
      for (double& v : r) v = -2;
    same("setting all");
    if ((int)A.NumNonzeros() != m * m) x.violation("dense size", "wrong number of entries");
  }
}
// ------------------------------------------------------------ systems
static bool
spd(const Mat& a)
{
  int              n = a.size();
  std::vector<std::vector<LD>> b(n, std::vector<LD>(n));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) b[i][j] = a[i][j];
  for (int k = 0; k < n; k++) {
    if (!(b[k][k] > 1e-9L)) return false;
    for (int i = k + 1; i < n; i++)
      for (int j = n - 1; j >= k; j--) b[i][j] -= b[i][k] / b[k][k] * b[k][j];
  }
  return true;
}
// solution by elimination with full pivoting; false when singular (exactly, for integers)
static bool
solve(const Mat& a, const V& b, std::vector<LD>& x, LD* ratio = nullptr)
{
  int                          n = a.size();
  std::vector<std::vector<LD>> m(n, std::vector<LD>(n + 1));
  std::vector<int>             col(n);
  LD                           big = 0, small = 1e300L;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) m[i][j] = a[i][j], big = std::max(big, fabsl(m[i][j]));
    m[i][n] = b[i];
    col[i]  = i;
  }
  for (int k = 0; k < n; k++) {
    int pi = k, pj = k;
    for (int i = k; i < n; i++)
      for (int j = k; j < n; j++)
        if (fabsl(m[i][j]) > fabsl(m[pi][pj])) pi = i, pj = j;
    if (fabsl(m[pi][pj]) <= big * 1e-15L) return false;
    small = std::min(small, fabsl(m[pi][pj]));
    std::swap(m[k], m[pi]);
    for (auto& r : m) std::swap(r[k], r[pj]);
    std::swap(col[k], col[pj]);
    for (int i = 0; i < n; i++)
      if (i != k) {
        LD f = m[i][k] / m[k][k];
        for (int j = k; j <= n; j++) m[i][j] -= f * m[k][j];
      }
  }
  x.assign(n, 0);
  for (int k = 0; k < n; k++) x[col[k]] = m[k][n] / m[k][k];
  if (ratio) *ratio = big / small;
  return true;
}
static nimble::CRSMatrixContainer
sparse(const Mat& a, bool all)
{
  nimble::CRSMatrixContainer A;
  std::vector<int>           i, j;
  int                        n = a.size();
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++)
      if (all || a[r][c] != 0 || r == c) i.push_back(r), j.push_back(c);
  A.AllocateNonzeros(i, j);
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++)
      if (all || a[r][c] != 0 || r == c) A(r, c) = a[r][c];
  return A;
}
static void
cg(const Mat& a, const V& b, const V& guess, nimble::CGScratchSpace& s, Ctx& x, double tol, int limit, const std::string& hist)
{
  int  n = a.size();
  auto A = sparse(a, n < 5 && (int)b[0] % 2);
  V    y(n + 1, 5e55);
  for (int i = 0; i < n; i++) y[i] = guess[i];
  int  it = -7;
  bool ok = nimble::CG_SolveSystem(A, b.data(), s, y.data(), it, tol, limit);
  x.executions++;
  x.evaluations++;
  auto name = [&] { return (n < 7 ? "matrix " + show(a) + " right-hand side " + show(b) + " start " + show(guess) : std::to_string(n) + " unknowns") + " tolerance " + fmt(tol) + " limit " + std::to_string(limit) + hist; };
  if (it < 0 || it > limit) x.violation("cg iterations", std::to_string(it) + " iterations | " + name());
  if (y[n] != 5e55) x.violation("cg overrun", "a value past the solution was written | " + name());
  // the measure of the tolerance: r . diag^-1 r relative to its first value
  auto measure = [&](const double* v) {
    LD m = 0;
    for (int i = 0; i < n; i++) {
      LD r = b[i];
      for (int j = 0; j < n; j++) r -= (LD)a[i][j] * v[j];
      m += r * r / a[i][i];
    }
    return m;
  };
  LD   m0 = measure(guess.data()), m1 = measure(y.data()), size = 0;
  for (int i = 0; i < n; i++) {
    LD t = fabsl(b[i]);
    for (int j = 0; j < n; j++) t += fabsl((LD)a[i][j]) * std::max(std::fabs(y[j]), std::fabs(guess[j]));
    size += t * t / a[i][i];
  }
  LD noise = size * 1e-28L * n * n;
  bool pd = spd(a);
  if (ok && !(m1 <= tol * m0 * 1.01L + noise)) x.violation(pd ? "cg wrong" : "cg wrong, indefinite", "success is reported with a residual of " + fmt((double)m1) + ", first residual " + fmt((double)m0) + " | " + name());
  x.count(ok ? "solved" : "failures reported");
  if (!pd) return;
  std::vector<LD> w;
  LD              ratio;
  if (!solve(a, b, w, &ratio)) return;
  if (ok && ratio < 1e6L) {
    LD far = 0, sz = 1e-300L, g = 0;
    for (int i = 0; i < n; i++) {
      far = std::max(far, fabsl(w[i] - y[i]));
      sz  = std::max(sz, fabsl(w[i]));
      g   = std::max(g, fabsl(guess[i]));
    }
    if (!(far <= sqrtl(tol) * ratio * n * 10 * (sz + g) + 1e-11L * ratio * (sz + g))) x.violation("cg solution", "the solution is off by " + fmt((double)far) + " of " + fmt((double)sz) + " | " + name());
  }
  // a limit of three times the unknowns suffices for these unless nothing is left to reduce
  if (!ok && limit >= 3 * n + 20 && tol >= 1e-16 && ratio < 1e4L && m0 * tol > noise) x.violation("cg failure", "failure is reported after " + std::to_string(it) + " iterations | " + name());
  // the limit counts: with one at or above what is needed the system is solved
  if (ok && limit > it) {
    for (int l : {it, it + 1}) {
      V   z(guess);
      int k = -7;
      if (!nimble::CG_SolveSystem(A, b.data(), s, z.data(), k, tol, l) || k != it) x.violation("cg limit", "with a limit of " + std::to_string(l) + " iterations failure is reported, " + std::to_string(it) + " are enough | " + name());
      for (int i = 0; i < n; i++)
        if (z[i] != y[i]) x.violation("cg repeat", "solving again gives a different solution | " + name());
    }
    if (it > 0) {
      V   z(guess);
      int k = -7;
      if (nimble::CG_SolveSystem(A, b.data(), s, z.data(), k, tol, it - 1)) x.violation("cg early", "success is reported with fewer iterations than needed | " + name());
    }
  }
}
struct Plain  // a matrix of the direct solver's own
{
  int    n;
  V      d;
  double operator()(int i, int j) const { return d[i * n + j]; }
  double& operator()(int i, int j) { return d[i * n + j]; }
};
static void
lu(const Mat& a, Ctx& x, bool container)
{
  int             n = a.size();
  std::vector<LD> w;
  LD              ratio;
  V               zero(n);
  bool            regular = solve(a, zero, w, &ratio);
  x.executions++;
  x.evaluations++;
  if (!regular) {
    // rounding can hide a singular matrix: only those whose elimination is exact must be recognised
    bool exact = n == 3, unit = true, same = false;
    for (auto& r : a)
      for (double v : r)
        if (v != 0 && std::fabs(v) != 1) exact = unit = false;
    for (int i = 0; i < n; i++) {
      bool zr = true, zc = true;
      for (int j = 0; j < n; j++) {
        zr &= a[i][j] == 0, zc &= a[j][i] == 0;
        same |= j > i && a[i] == a[j];
      }
      exact |= zr || zc;
    }
    if (!exact && !(unit && same)) return;
    x.count("singular matrices");
    static sigjmp_buf out;
    static auto       old = [](int) { siglongjmp(out, 1); };
    Plain             m{n, {}};
    std::vector<int>  idx(n);
    for (auto& r : a) m.d.insert(m.d.end(), r.begin(), r.end());
    auto before = signal(SIGABRT, old);
    Quiet q;
    if (!sigsetjmp(out, 1)) {
      LU_Decompose(n, m, idx.data());
      signal(SIGABRT, before);
      x.violation("lu singular", "a singular matrix is not reported | " + show(a));
    }
    signal(SIGABRT, before);
    return;
  }
  if (ratio > 1e10L) return;
  for (int k = 0; k <= n; k++) {
    V b(n + 1, 6e66);
    for (int i = 0; i < n; i++) b[i] = k < n ? (i == k) : 2.5 - i * 1.5;
    V rhs(b.begin(), b.begin() + n);
    std::vector<int> idx(n + 1, -77);
    if (container) {
      nimble::MatrixContainer m;
      std::vector<int>        ii, jj;
      for (int r = 0; r < n; r++)
        for (int c = 0; c < n; c++) ii.push_back(r), jj.push_back(c);
      m.AllocateNonzeros(ii, jj);
      for (int r = 0; r < n; r++)
        for (int c = 0; c < n; c++) m(r, c) = a[r][c];
      LU_SolveSystem(n, m, b.data(), idx.data());
    } else {
      Plain m{n, {}};
      for (auto& r : a) m.d.insert(m.d.end(), r.begin(), r.end());
      LU_Decompose(n, m, idx.data());
      // several right-hand sides with one decomposition
      V other(n);
      for (int i = 0; i < n; i++) other[i] = i - 3;
      LU_Solve(n, m, other.data(), idx.data());
      LU_Solve(n, m, b.data(), idx.data());
    }
    solve(a, rhs, w);
    LD far = 0, sz = 0;
    for (int i = 0; i < n; i++) {
      far = std::max(far, fabsl(w[i] - b[i]));
      sz  = std::max(sz, fabsl(w[i]));
      if (!(far == far) || b[i] != b[i]) far = 1e300L;
    }
    if (!(far <= 1e-14L * n * ratio * ratio * sz)) {
      x.violation(container ? "lu container" : "lu", "the solution is off by " + fmt((double)far) + " of " + fmt((double)sz) + " | matrix " + show(a) + " right-hand side " + show(rhs));
      return;
    }
    if (b[n] != 6e66 || idx[n] != -77) x.violation("lu overrun", "a value past the solution was written | " + show(a));
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name     = name;
    st.n        = (n + per - 1) / per;
    st.describe = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.fn       = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
    };
    vh::run(st);
  };
  blocks("patterns", 65536 * (th ? 12 : 3), 4096, [&](size_t i, Ctx& x) {
    if (!(i % 65536)) return;
    nimble::CRSMatrixContainer A;
    use(A, pattern(4, i % 65536), i / 65536, x, "");
  });
  blocks("small patterns", 511 * 40 + 15 * 40, 500, [&](size_t i, Ctx& x) {
    nimble::CRSMatrixContainer A;
    if (i < 511 * 40) use(A, pattern(3, 1 + i / 40), i % 40, x, "");
    else use(A, pattern(2, 1 + (i - 511 * 40) / 40), i % 40, x, "");
  });
  blocks("reused", 512 * 512, 2000, [&](size_t i, Ctx& x) {
    size_t a = i % 512, b = i / 512;
    if (!a || !b) return;
    nimble::CRSMatrixContainer A;
    auto                       p = pattern(3, a);
    A.AllocateNonzeros(p.i, p.j);
    A.SetAllValues(9);
    use(A, pattern(3, b), (int)(i % 3), x, " in a container used before for " + describe(p));
    if (i % 7 == 0) {
      auto q = pattern(4, (a * 129 + b * 33) % 65535 + 1);
      use(A, q, (int)(i % 5), x, " in a container used twice before");
      use(A, p, (int)(i % 4), x, " in a container used three times before");
    }
  });
  blocks("dense", 13, 1, [&](size_t i, Ctx& x) { dense(i < 12 ? 1 + i : 90, x); });
  blocks("large patterns", 5 * 5 * 3, 1, [&](size_t i, Ctx& x) {
    int                        n[5] = {17, 48, 101, 260, 410};
    nimble::CRSMatrixContainer A;
    if (i % 2) use(A, large_pattern(40, (int)(i % 5)), 1, x, "");
    use(A, large_pattern(n[i / 5 % 5], (int)(i % 5)), (int)(i / 25), x, i % 2 ? " in a container used before" : "");
  });
  // symmetric systems of three unknowns over integers
  std::vector<double> dg{1, 2, 3, 7}, of{0, 1, -1, 2, -3};
  std::vector<V>      rh;
  for (double p : {0.0, 1.0, -2.0})
    for (double q : {0.0, 1.0, -2.0})
      for (double r : {0.0, 1.0, -2.0}) rh.push_back({p, q, r});
  size_t nm = 64 * 125;
  blocks("systems of three", nm * rh.size() * 2, 2000, [&](size_t i, Ctx& x) {
    size_t k = i / rh.size() / 2;
    Mat    a(3, V(3));
    for (int d = 0; d < 3; d++) {
      a[d][d] = dg[k % 4];
      k /= 4;
    }
    for (int d = 0; d < 3; d++) {
      a[d][(d + 1) % 3] = a[(d + 1) % 3][d] = of[k % 5];
      k /= 5;
    }
    nimble::CGScratchSpace s;
    cg(a, rh[i / 2 % rh.size()], i % 2 ? V{0, 0, 0} : V{0.5, -2, 3}, s, x, 1e-16, i % 3 ? 1000 : 60, "");
  });
  // one and two unknowns, wide range of values, all limits
  std::vector<double> wide{1e-12, 1e-3, 1, 3, 1e5, 1e12};
  blocks("systems of two", 216 * 7 * 9 * 12, 1000, [&](size_t i, Ctx& x) {
    size_t k = i;
    double p = wide[k % 6], q = wide[k / 6 % 6], c = wide[k / 36 % 6];
    k /= 216;
    double f[7] = {0, 0.5, -0.5, 0.999, -0.999, 1, -1.5};
    double o    = f[k % 7] * std::sqrt(p * q);
    k /= 7;
    V   b{(double)(k % 3) - 1, (k / 3 % 3) * c};
    k /= 9;
    nimble::CGScratchSpace s;
    cg({{p, o}, {o, q}}, b, k % 2 ? V{0, 0} : V{1 / p, -c}, s, x, k < 8 ? 1e-16 : 1e-6, k < 6 ? (int)k : 1000, "");
  });
  blocks("systems of one", 6 * 6 * 4, 10, [&](size_t i, Ctx& x) {
    nimble::CGScratchSpace s;
    cg({{wide[i % 6]}}, {wide[i / 6 % 6] * (i / 36 % 2 ? -1 : 1)}, {i / 72 ? 2.0 : 0.0}, s, x, 1e-16, 1000, "");
  });
  // long systems: more steps than the interval at which the residual is computed anew
  blocks("long systems", th ? 260 : 130, 1, [&](size_t i, Ctx& x) {
    for (int kind = 0; kind < 4; kind++) {
      int n = 1 + i;
      Mat a(n, V(n));
      for (int r = 0; r < n; r++) {
        a[r][r] = kind == 0 ? 2 : kind == 1 ? 2.5 : kind == 2 ? r + 1.0 : 4.0 + r % 3;
        if (r + 1 < n) a[r][r + 1] = a[r + 1][r] = kind == 2 ? 0.25 : kind == 3 ? -1.5 : -1;
        if (kind == 3 && r + 9 < n) a[r][r + 9] = a[r + 9][r] = 0.25;
      }
      V b(n);
      for (int r = 0; r < n; r++) b[r] = kind == 1 ? (r == 0) : (r * 7 + i) % 5 - 2.0;
      nimble::CGScratchSpace s;
      cg(a, b, V(n, kind == 1 ? 1.0 : 0.0), s, x, 1e-16, 1000, "");
    }
  });
  // one scratch space for systems of different sizes in every order
  {
    std::vector<Mat> ms{{{2}}, {{2, 1}, {1, 3}}, {{5, 1}, {1, 0.5}}, {{4, 1, 0}, {1, 3, -1}, {0, -1, 2}}, {{1, 0, 0}, {0, 100, 0}, {0, 0, 3}}, {{6, 1, 0, 2}, {1, 5, 1, 0}, {0, 1, 4, 1}, {2, 0, 1, 3}}};
    size_t           m = ms.size(), n = 1;
    int              len = th ? 5 : 4;
    for (int k = 0; k < len; k++) n *= m;
    blocks("histories", n, 50, [=](size_t i, Ctx& x) {
      nimble::CGScratchSpace s;
      std::string            h = " after systems of";
      for (int k = 0; k < len; k++) {
        auto& a = ms[i % m];
        i /= m;
        V b;
        for (size_t q = 0; q < a.size(); q++) b.push_back((q * 3 + k) % 4 + 1.0);
        cg(a, b, V(a.size()), s, x, 1e-16, 1000, h);
        h += " " + std::to_string(a.size());
      }
    });
  }
  // direct solutions
  blocks("direct, two", 625 * 2, 50, [&](size_t i, Ctx& x) {
    double v[5] = {0, 1, -1, 2, -1e-3};
    lu({{v[i % 5], v[i / 5 % 5]}, {v[i / 25 % 5], v[i / 125 % 5]}}, x, i / 625);
  });
  blocks("direct, three", 19683 * (th ? 2 : 1), 200, [&](size_t i, Ctx& x) {
    Mat    a(3, V(3));
    size_t k = i;
    for (auto& r : a)
      for (double& v : r) {
        v = (double)(k % 3) - 1;
        if (i >= 19683 && v < 0) v = -4;
        k /= 3;
      }
    lu(a, x, i % 2);
  });
  blocks("direct, four", th ? 65536 * 4 : 65536, 500, [&](size_t i, Ctx& x) {
    Mat    a(4, V(4));
    size_t k = i;
    int    q = 0;
    for (auto& r : a)
      for (double& v : r) {
        v = (k & 1) ? (i / 65536 % 2 ? ((q % 3) ? 1 : -2) : 1) : (i / 131072 ? 3 : 0);
        k >>= 1;
        q++;
      }
    lu(a, x, i % 3 == 0);
  });
  // many unknowns: well-posed systems with the rows in many orders
  blocks("direct, many", 60 * 4, 2, [&](size_t i, Ctx& x) {
    int n = 5 + i / 4;
    if (n > 40) n = 40 + (n - 40) * 4;
    Mat a(n, V(n));
    for (int r = 0; r < n; r++)
      for (int c = 0; c < n; c++) {
        int q = i % 4 == 0 ? r : i % 4 == 1 ? n - 1 - r : i % 4 == 2 ? (r * 2 < n ? 2 * r : 2 * (n - 1 - r) + 1) : (r + n / 3) % n;
        if (q == c) a[r][c] = 4 + c % 3;
        else if (std::abs(q - c) < 3 || (q + 2 * c) % 7 == 0) a[r][c] = ((q * 5 + c * 3) % 7 - 3) * (std::abs(q - c) < 3 ? 0.4 : 2.0 / n);
      }
    lu(a, x, i % 3 == 0);
  });
  // row scales, permutations
  blocks("direct, permuted", 24 * 81 * 3, 100, [&](size_t i, Ctx& x) {
    int p[4] = {0, 1, 2, 3};
    for (size_t k = 0; k < i % 24; k++) std::next_permutation(p, p + 4);
    size_t s = i / 24 % 81;
    Mat    b = i / 1944 == 0 ? Mat{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}} : i / 1944 == 1 ? Mat{{4, 1, 2, 0}, {0, 3, 1, 1}, {1, 0, 5, 2}, {2, 1, 0, 6}} : Mat{{1, 2, 3, 4}, {0, 1, 2, 3}, {0, 0, 1, 2}, {0, 0, 0, 1}};
    Mat    a(4, V(4));
    for (int r = 0; r < 4; r++) {
      double f = s % 3 == 0 ? 1 : s % 3 == 1 ? 1e3 : 1e-2;
      s /= 3;
      for (int c = 0; c < 4; c++) a[r][c] = f * b[p[r]][c];
    }
    lu(a, x, i % 2);
  });
  note("bounds", "all patterns of two, three and four rows with up to 40 filling orders, all pairs of patterns of three rows in one container; all symmetric systems of three unknowns over four diagonal and five other values with 27 right-hand sides, two unknowns over values 1e-12 to 1e12 and every limit, chains up to " + std::to_string(th ? 260 : 130) + " unknowns, histories of four; all direct systems of three over {-1,0,1} and of four over {0,1}");
  return finish();
}
