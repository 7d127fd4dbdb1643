// C18: projection of nodes onto triangles, over lattices of triangles, feet, gaps, motions, scales and tolerances.
#include <nimble_contact_manager.h>

#include "contact.h"
using namespace vh;
typedef long double L;
typedef std::array<L, 3> V;
typedef nimble::ContactEntity  CE;
typedef nimble::ContactManager CM;

static V sub(const V& a, const V& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static V axpy(L s, const V& a, const V& b) { return {{s * a[0] + b[0], s * a[1] + b[1], s * a[2] + b[2]}}; }
static L dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross(const V& a, const V& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static L len(const V& a) { return std::sqrt(dot(a, a)); }

struct Tri
{
  V p[3];
};
static std::vector<Tri> T;  // all triangles with corners on the lattice, first corner in the middle of it or at its corner
static void
triangles()
{
  std::vector<V> l;
  for (int i = 0; i < 27; i++) l.push_back({{(L)(i % 3 - 1), (L)(i / 3 % 3 - 1), (L)(i / 9 - 1)}});
  for (int o : {13, 0, 11})
    for (int i = 0; i < 27; i++)
      for (int j = 0; j < 27; j++) {
        Tri t{{l[o], l[i], l[j]}};
        if (len(cross(sub(t.p[1], t.p[0]), sub(t.p[2], t.p[0]))) > 1e-9) T.push_back(t);
      }
}
struct Motion
{
  L   r[9];
  V   t;
  L   s;
  const char* name;
};
static V
move(const Motion& m, const V& p)
{
  V q;
  for (int i = 0; i < 3; i++) q[i] = m.s * (m.r[3 * i] * p[0] + m.r[3 * i + 1] * p[1] + m.r[3 * i + 2] * p[2] + m.t[i]);
  return q;
}
static Motion
turn(V axis, L angle, V t, L s, const char* name)
{
  Motion m;
  L      n = len(axis), c = std::cos(angle), d = 1 - c, e = std::sin(angle);
  V      a{{axis[0] / n, axis[1] / n, axis[2] / n}};
  L      k[9] = {0, -a[2], a[1], a[2], 0, -a[0], -a[1], a[0], 0};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m.r[3 * i + j] = (i == j) * c + d * a[i] * a[j] + e * k[3 * i + j];
  m.t    = t;
  m.s    = s;
  m.name = name;
  return m;
}
static std::vector<Motion>
motions()
{
  return {turn({{0, 0, 1}}, 0, {{0, 0, 0}}, 1, "in place"),
          turn({{1, 2, 3}}, 0.7L, {{5, -3, 2}}, 1, "turned and moved"),
          turn({{1, -1, 0.5}}, 2.9L, {{0.25, 7, -4}}, 1e-5L, "turned, small"),
          turn({{-2, 1, 1}}, 1.3L, {{-1, 2, 3}}, 1e6L, "turned, large"),
          turn({{0, 0, 1}}, 0, {{1000, -2000, 500}}, 1, "far away")};
}
static CE
entity(CE::CONTACT_ENTITY_TYPE t, const std::vector<V>& p, double size)
{
  double c[9];
  int    n[4] = {0, 1, 2, 3};
  for (size_t i = 0; i < p.size(); i++)
    for (int k = 0; k < 3; k++) c[3 * i + k] = (double)p[i][k];
  return t == CE::NODE ? CE(t, 1, c, size, 0) : CE(t, 2, c, size, 0, 1, n);
}
// the point of a triangle next to p
static V
nearest(const V& p, const Tri& t)
{
  V  n = cross(sub(t.p[1], t.p[0]), sub(t.p[2], t.p[0]));
  L  n2 = dot(n, n);
  L  a3 = dot(cross(sub(t.p[1], t.p[0]), sub(p, t.p[0])), n) / n2, a2 = dot(cross(sub(p, t.p[0]), sub(t.p[2], t.p[0])), n) / n2, a1 = 1 - a2 - a3;
  V  best = t.p[0];
  if (a1 >= 0 && a2 >= 0 && a3 >= 0) {
    for (int k = 0; k < 3; k++) best[k] = a1 * t.p[0][k] + a2 * t.p[1][k] + a3 * t.p[2][k];
    return best;
  }
  for (int i = 0; i < 3; i++) {
    V d = sub(t.p[(i + 1) % 3], t.p[i]);
    L s = std::min<L>(1, std::max<L>(0, dot(sub(p, t.p[i]), d) / dot(d, d)));
    V q = axpy(s, d, t.p[i]);
    if (len(sub(p, q)) < len(sub(p, best))) best = q;
  }
  return best;
}
struct Open : CM
{
  using CM::CM;
  using CM::ClosestPointProjection;
};
static const std::vector<L> FOOT{-0.5L, -1e-5L, 0, 1e-5L, 0.25L, 0.5L, 1 - 1e-5L, 1, 1 + 1e-5L, 1.5L};
static const std::vector<L> GAP{-1.5L, -1 - 1e-5L, -1 + 1e-5L, -0.3L, -1e-5L, 1e-5L, 0.3L, 1.5L};
static void
project(const Tri& t0, const Motion& m, L a2, L a3, L g, double size, double tol, const std::string& name, Ctx& x)
{
  // size: the characteristic length of the face in units of the triangle; g in units of it
  Tri t;
  for (int i = 0; i < 3; i++) {
    V q = move(m, t0.p[i]);
    for (int k = 0; k < 3; k++) t.p[i][k] = (double)q[k];  // as stored
  }
  V n  = cross(sub(t.p[1], t.p[0]), sub(t.p[2], t.p[0]));
  L nl = len(n), a1 = 1 - a2 - a3;
  for (L& q : n) q /= nl;
  L off  = len(m.t) * m.s;  // positions are this much larger than the triangle
  L edge = std::max(len(sub(t.p[1], t.p[0])), len(sub(t.p[2], t.p[0])));
  L cl   = size * m.s;
  V p;
  for (int k = 0; k < 3; k++) p[k] = (double)(a1 * t.p[0][k] + a2 * t.p[1][k] + a3 * t.p[2][k] + g * cl * n[k]);
  CE     node = entity(CE::NODE, {p}, 0), face = entity(CE::TRIANGLE, {t.p[0], t.p[1], t.p[2]}, (double)cl);
  bool   in   = true;
  double gap = 99, nn[3] = {9, 9, 9}, b[3] = {9, 9, 9};
  L      eps  = 1e-13L * edge * edge / nl * (1 + edge / (nl / edge)) * (1 + off / edge) * 4;
  bool   foot = true;  // inside, with the tolerance on every coordinate
  L      near = 1;
  for (L a : {a1, a2, a3}) {
    foot = foot && a > -tol && a < 1 + tol;
    near = std::min({near, std::fabs(a + tol), std::fabs(a - 1 - tol)});
  }
  if (near < eps + 1e-10L || (tol < 1e-7 && eps > 1e-9L && std::min({std::fabs(a1), std::fabs(a2), std::fabs(a3)}) < eps)) {
    x.count("too near to tell");
    return;
  }
  if (tol == 1e-8)
    CM::Projection(node, face, in, gap, nn, b);
  else
    CM::Projection(node, face, in, gap, nn, b, tol);
  x.executions++;
  x.evaluations += 2;
  bool want = foot && g < 0 && g > -1;
  if (in != want) x.violation(want ? "contact not reported" : "contact reported", std::string(want ? "no contact reported" : "contact reported") + " for foot " + fmt((double)a1) + " " + fmt((double)a2) + " " + fmt((double)a3) + " and gap " + fmt((double)g) + " sizes | " + name);
  x.count(want ? "in contact" : "not in contact");
  CM::PROJECTION_TYPE pt;
  CE::vertex          cp;
  double              gap2 = 99, nn2[3] = {9, 9, 9};
  if (tol == 1e-8)
    CM::SimpleClosestPointProjectionSingle(node, face, &pt, &cp, gap2, nn2);
  else
    CM::SimpleClosestPointProjectionSingle(node, face, &pt, &cp, gap2, nn2, tol);
  if ((pt == CM::FACE) != foot) x.violation("inside", "foot " + fmt((double)a1) + " " + fmt((double)a2) + " " + fmt((double)a3) + " is taken to be " + (foot ? "outside" : "inside") + " | " + name);
  if (!foot) return;
  L ge = eps * edge * 10 + 1e-14L * cl;
  for (double q : {gap, gap2})
    if (!(std::fabs(q - g * cl) <= ge)) x.violation("gap", "gap " + fmt(q) + " instead of " + fmt((double)(g * cl)) + " | " + name);
  L w[3] = {a1, a2, a3};
  for (int k = 0; k < 3; k++) {
    if (!(std::fabs(nn[k] - n[k]) <= eps * 10) || !(std::fabs(nn2[k] - n[k]) <= eps * 10)) x.violation("normal", "normal component " + fmt(nn[k]) + ", " + fmt(nn2[k]) + " instead of " + fmt((double)n[k]) + " | " + name);
    if (!(std::fabs(b[k] - w[k]) <= eps * 10)) x.violation("barycentric", "barycentric coordinate " + fmt(b[k]) + " instead of " + fmt((double)w[k]) + " | " + name);
    L f = p[k] - g * cl * n[k];
    if (!(std::fabs(cp[k] - f) <= ge)) x.violation("foot", "foot at " + fmt(cp[k]) + " instead of " + fmt((double)f) + " | " + name);
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  triangles();
  auto ms     = motions();
  auto blocks = [&](const std::string& name, size_t n, size_t per, const std::function<void(size_t, Ctx&)>& f) {
    Stage st;
    st.name        = name;
    st.n           = (n + per - 1) / per;
    st.describe    = [=](size_t i) { return name + " " + std::to_string(i * per) + ".."; };
    st.worker_init = [] {
      int   ac = 0;
      char* av[1] = {nullptr};
      if (!Kokkos::is_initialized()) Kokkos::initialize(ac, av);
    };
    st.fn = [=](size_t b, Ctx& x) {
      for (size_t i = b * per; i < std::min(n, (b + 1) * per); i++) f(i, x);
      x.distinct(hash_str(name + std::to_string(b)));
      x.sample(name + " " + std::to_string(b * per));
    };
    st.case_timeout = 60;
    vh::run(st);
  };
  auto name = [&](size_t t, int c, const Motion& m) { return "triangle " + std::to_string(t) + " corner " + std::to_string(c) + " " + m.name; };
  // every triangle, from every corner and from behind, in every motion
  size_t nm = ms.size();
  blocks("every triangle", T.size() * nm * 6, 20, [&](size_t i, Ctx& x) {
    size_t t = i / nm / 6;
    auto&  m = ms[i / 6 % nm];
    int    c = i % 6;
    Tri    q;
    for (int k = 0; k < 3; k++) q.p[k] = c < 3 ? T[t].p[(k + c) % 3] : T[t].p[(c - k) % 3];
    auto nm2 = name(t, c, m);
    for (L a2 : FOOT)
      for (L a3 : FOOT)
        for (L g : GAP) project(q, m, a2, a3, g, 1.5, 1e-8, nm2, x);
  });
  // face sizes and tolerances
  blocks("sizes and tolerances", T.size() * nm, 20, [&](size_t i, Ctx& x) {
    auto& m = ms[i % nm];
    auto  n = name(i / nm, 0, m);
    for (double tol : {1e-3, 0.05, 0.3})
      for (L a2 : {-2 * tol, -0.5 * tol, 0.0, 0.4, 1 + 0.5 * tol, 1 + 2 * tol})
        for (L a3 : {-2 * tol, -0.5 * tol, 0.0, 0.3, 1 + 0.5 * tol})
          for (L g : {-1.2L, -0.8L, 0.8L}) project(T[i / nm], m, a2, a3, g, 0.7, tol, n, x);
    for (double size : {0.01, 0.1, 30.0})
      for (L g : GAP) project(T[i / nm], m, 0.2, 0.3, g, size, 1e-8, n, x);
  });
  if (th) {
    // flat triangles
    blocks("narrow triangles", T.size() * nm * 3, 20, [&](size_t i, Ctx& x) {
      Tri q = T[i / nm / 3];
      L   f = std::pow(10.0L, -1 - (L)(i % 3));
      V   e = sub(q.p[1], q.p[0]), d = sub(q.p[2], q.p[0]);
      L   s = dot(e, d) / dot(e, e);
      for (int k = 0; k < 3; k++) q.p[2][k] = q.p[0][k] + s * e[k] + f * (d[k] - s * e[k]);
      for (L a2 : FOOT)
        for (L a3 : FOOT)
          for (L g : GAP) project(q, ms[i / 3 % nm], a2, a3, g, 1.5, 1e-8, name(i / nm / 3, 0, ms[i / 3 % nm]) + " narrow", x);
    });
  }
  // the closest point of a triangle, for nodes all around it
  blocks("closest points", T.size(), 20, [&](size_t i, Ctx& x) {
    nimble::Parser                parser;
    nimble::GenesisMesh           mesh;
    exo::Mesh                     one = exo::grid(1, 1, 1);
    contact::load(mesh, one);
    Quiet                         quiet;
    nimble::DataManager           dm(parser, mesh);
    Open                          cm(std::make_shared<nimble::ContactInterface>(), dm);
    std::vector<CE>               ns, ts;
    std::vector<V>                ps;
    std::vector<L>                vals{-2, -1, -0.4L, 0, 0.3L, 1, 1.7L};
    for (L a : vals)
      for (L b : vals)
        for (L c : vals) ps.push_back({{a, b, c}});
    for (auto& p : ps) {
      ns.push_back(entity(CE::NODE, {p}, 0));
      ts.push_back(entity(CE::TRIANGLE, {T[i].p[0], T[i].p[1], T[i].p[2]}, 1));
    }
    std::vector<CE::vertex>          cp(ps.size());
    std::vector<CM::PROJECTION_TYPE> pt(ps.size());
    cm.ClosestPointProjection(ns.data(), ts.data(), cp.data(), pt.data(), ps.size());
    for (size_t k = 0; k < ps.size(); k++) {
      V p;
      for (int d = 0; d < 3; d++) p[d] = (double)ps[k][d];
      V w = nearest(p, T[i]);
      x.executions++;
      x.evaluations++;
      for (int d = 0; d < 3; d++)
        if (!(std::fabs(cp[k][d] - w[d]) <= 1e-12L)) {
          x.violation("closest point", "closest point component " + fmt(cp[k][d]) + " instead of " + fmt((double)w[d]) + " | triangle " + std::to_string(i) + " node " + std::to_string(k));
          break;
        }
      double h[3] = {cp[k][0], cp[k][1], cp[k][2]};
      x.outcome(hash_dbl(h, 3));
    }
  });
  return finish();
}
