// Two bodies in contact: worlds, an independent search, and a brute force search for the program.
#pragma once
#include <unistd.h>

#include "cases.h"
#include "contact.h"
#include "mpisim.h"
using namespace vh;
using namespace contact;
typedef nimble::ContactEntity CE;
// ---- contact of two bodies
struct World
{
  exo::Mesh        m;
  std::vector<int> p, s;
  std::string      name;
  size_t           skip = 0, half = 0;  // nodes before the two bodies, nodes of the first of them
  bool             big = false;         // too many elements for all distributions
};
struct Hit
{
  int    node, face, tri;
  double gap, b[3];
  V3     n;
};
// every node of the secondary skin behind a triangle of the primary skin; false when one is too near to tell
inline bool
hits(const World& w, const std::vector<V3>& cur, std::vector<Hit>& out, const std::vector<Face>& pf, const std::set<int>& nodes)
{
  for (int i : nodes)
    for (size_t f = 0; f < pf.size(); f++)
      for (int t = 0; t < 4; t++) {
        V3 a = cur[pf[f].n[t]], c = cur[pf[f].n[(t + 1) % 4]], m{{0, 0, 0}};
        for (int k : pf[f].n) m = add(m, mul(0.25, cur[k]));
        V3     n  = cross(sub(c, a), sub(m, a)), v = sub(cur[i], a);
        double n2 = dot(n, n), b3 = dot(cross(sub(c, a), v), n) / n2, b2 = dot(cross(v, sub(m, a)), n) / n2, b1 = 1 - b2 - b3;
        double g = dot(v, n) / std::sqrt(n2);
        bool   own = std::find(pf[f].n.begin(), pf[f].n.end(), i) != pf[f].n.end();
        if (own) continue;  // a corner of the face itself lies in its plane or is kept out below
        double near = std::min(std::min(std::fabs(b1), std::fabs(b2)), std::fabs(b3)), gn = std::min(std::fabs(g), std::fabs(g + pf[f].size));
        bool   in = b1 > 0 && b2 > 0 && b3 > 0 && g < 0 && g > -pf[f].size;
        bool   could = b1 > -1e-7 && b2 > -1e-7 && b3 > -1e-7 && g < 1e-7 && g > -pf[f].size - 1e-7;
        if (could && (near < 1e-7 || gn < 1e-7)) return false;
        if (in) out.push_back({i, (int)f, t, g, {b1, b2, b3}, mul(1 / std::sqrt(n2), n)});
      }
  return true;
}
inline void
deposit(const std::vector<Hit>& hs, const std::vector<Face>& pf, double penalty, std::vector<V3>& f)
{
  std::map<int, int> share;
  for (auto& h : hs) share[h.node]++;
  for (auto& h : hs) {
    V3    q  = mul(penalty * h.gap / share[h.node], h.n);
    auto& fn = pf[h.face].n;
    f[h.node]          = sub(f[h.node], q);
    f[fn[h.tri]]       = add(f[fn[h.tri]], mul(h.b[0], q));
    f[fn[(h.tri + 1) % 4]] = add(f[fn[(h.tri + 1) % 4]], mul(h.b[1], q));
    for (int k : fn) f[k] = add(f[k], mul(h.b[2] / 4, q));
  }
}
// every node against every face of the same process, sharing a node's force between the faces it is behind
struct Brute : nimble::ContactInterface
{
  std::function<void(const CE&, const CE&, double, const double*, const double*, int)> tell;
  void
  DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement e) override
  {
    for (size_t i = 0; i < n.extent(0); i++)
      for (int pass = 0, share = 0; pass < 2; pass++)
        for (size_t j = 0; j < f.extent(0); j++) {
          auto& a = n(i);
          auto& b = f(j);
          bool  own = false;  // a corner of the face
          for (int k : {b.node_id_1_for_fictitious_node_, b.node_id_2_for_fictitious_node_, b.node_id_3_for_fictitious_node_, b.node_id_4_for_fictitious_node_}) own = own || k == a.node_id_for_node_1_;
          if (own) continue;
          bool   in;
          double gap, nrm[3], w[3], cp[3];
          nimble::ContactManager::Projection(a, b, in, gap, nrm, w);
          if (!in) continue;
          if (!pass) {
            share++;
            continue;
          }
          cp[0] = w[0] * b.coord_1_x_ + w[1] * b.coord_2_x_ + w[2] * b.coord_3_x_;
          cp[1] = w[0] * b.coord_1_y_ + w[1] * b.coord_2_y_ + w[2] * b.coord_3_y_;
          cp[2] = w[0] * b.coord_1_z_ + w[1] * b.coord_2_z_ + w[2] * b.coord_3_z_;
          if (tell) tell(a, b, gap, nrm, w, share);
          a.set_contact_status(true);
          b.set_contact_status(true);
          e.EnforceContact(a, b, share, gap, nrm, cp);
        }
  }
};
inline exo::Mesh
joined(const exo::Mesh& a, const exo::Mesh& b, int ida, int idb)
{
  exo::Mesh m = a;
  m.blocks[0].id = ida;
  int n = m.X.size();
  for (auto& p : b.X) m.X.push_back(p);
  exo::Block k = b.blocks[0];
  k.id         = idb;
  for (auto& c : k.conn)
    for (int& i : c) i += n;
  if (idb != ida) m.blocks.push_back(k);
  else
    for (auto& c : k.conn) m.blocks[0].conn.push_back(c);
  return m;
}
inline exo::Mesh
shifted(exo::Mesh m, double dx, double dy, double dz, double s = 1)
{
  for (auto& p : m.X) p = {{s * p[0] + dx, s * p[1] + dy, s * p[2] + dz}};
  return m;
}
// no node of one face straight behind an edge of another
inline exo::Mesh
tapered(exo::Mesh m)
{
  for (auto& p : m.X) {
    double x = p[0], y = p[1], z = p[2];
    p = {{0.4 + (x - 0.4) * (1 + 0.13 * y + 0.17 * z), 0.55 + (y - 0.55) * (1 + 0.15 * x - 0.12 * z), 0.47 + (z - 0.47) * (1 + 0.11 * x + 0.09 * y)}};
  }
  return m;
}
inline std::vector<World>
worlds(bool large = false)
{
  std::vector<World> r;
  auto one = exo::grid(1, 1, 1), two = exo::grid(2, 1, 1), four = exo::grid(2, 2, 1);
  r.push_back({joined(one, shifted(one, 0.317, 0.213, 1.05, 0.9), 7, 3), {7}, {3}, "cube above cube"});
  r.push_back({joined(cases::distort(two, 1), shifted(one, 0.57, 0.213, 1.25, 0.8), 7, 3), {7}, {3}, "cube above two"});
  r.push_back({joined(shifted(one, 0.31, 0.27, -1.06), cases::distort(four, 1), 3, 7), {7}, {3}, "cube below four"});
  r.push_back({joined(tapered(one), shifted(tapered(one), 0.317, 0.213, 1.27, 0.9), 7, 3), {7, 3}, {7, 3}, "cube and cube both ways"});
  r.push_back({joined(tapered(two), shifted(tapered(two), 0.517, 0.213, 1.33, 0.9), 7, 7), {7}, {7}, "one block with itself"});
  // a body without contact, the first in the mesh
  r.push_back({joined(cases::distort(one, 1), shifted(one, 0.317, 0.213, 1.25, 0.9), 7, 3), {7}, {3}, "bystander and cube above cube"});
  if (large) {
    r.clear();
    r.push_back({joined(cases::wavy(exo::grid(6, 5, 1)), shifted(cases::wavy(exo::grid(6, 5, 1)), 0.417, 0.213, 1.3, 0.83), 7, 3), {7}, {3}, "plate above plate"});
    r.push_back({joined(shifted(cases::wavy(exo::grid(3, 3, 3)), 0.31, 0.27, -3.36), cases::wavy(exo::grid(5, 4, 2)), 3, 7), {7, 3}, {7, 3}, "block below plate both ways"});
    for (auto& w : r) w.big = true;
  }
  for (auto& w : r) {
    std::set<int> u;
    for (auto& k : w.m.blocks[0].conn) u.insert(k.begin(), k.end());
    w.half = w.m.blocks.size() > 1 ? u.size() : w.m.X.size() / 2;
    if (w.name.find("bystander") == std::string::npos) continue;
    auto far = shifted(one, -3, 0.3, -2);
    w.skip   = far.X.size();
    for (auto& b : w.m.blocks)
      for (auto& c : b.conn)
        for (int& i : c) i += w.skip;
    far.blocks[0].id = 5;
    w.m.blocks.push_back(far.blocks[0]);
    w.m.X.insert(w.m.X.begin(), far.X.begin(), far.X.end());
  }
  return r;
}
// how many distributions of a body are looked at, and where distribution q puts element e
inline size_t
distributions(const World& w, int np)
{
  if (np == 1) return 1;
  return w.big ? 3 : (size_t)std::pow(np, w.m.nelem());
}
inline int
owner(const World& w, int np, size_t q, int e)
{
  int ne = w.m.nelem();
  if (w.big) return q == 0 ? e * np / ne : q == 1 ? (e * 5 + e / 3) % np : e % 13 ? np - 1 : e % np;
  for (; e > 0; e--) q /= np;
  return (int)(q % np);
}
struct Event
{
  V3     node, a, c, m, n;
  double gap, w[3];
  int    share, call;
};
struct Logging : Brute
{
  int         call = 0;
  std::string log;
  Logging()
  {
    tell = [this](const CE& a, const CE& b, double gap, const double* n, const double* w, int share) {
      Event e{entity(a).p[0], entity(b).p[0], entity(b).p[1], entity(b).p[2], {{n[0], n[1], n[2]}}, gap, {w[0], w[1], w[2]}, share, call};
      log.append((const char*)&e, sizeof e);
    };
  }
  void
  DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement e) override
  {
    call++;
    Brute::DoSearchAndEnforcement(n, f, e);
    write_file("events." + std::to_string(mpisim::active() ? mpisim::rank() : 0), log);
  }
};
