// Contact surfaces: bodies, an independent skin, and what the contact manager makes of them.
#pragma once
#include <nimble_contact_manager.h>
#include <nimble_data_manager.h>
#include <nimble_genesis_mesh.h>
#include <nimble_model_data_base.h>
#include <nimble_parser.h>
#include <nimble_vector_communicator.h>

#include <Kokkos_Core.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "exo.h"
#include "vh.h"

namespace contact {
typedef std::array<double, 3> V3;
inline V3 sub(const V3& a, const V3& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline V3 add(const V3& a, const V3& b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline V3 mul(double s, const V3& a) { return {{s * a[0], s * a[1], s * a[2]}}; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
inline double len(const V3& a) { return std::sqrt(dot(a, a)); }

struct Face
{
  std::array<int, 4> n;  // nodes, counterclockwise seen from outside
  int                elem;
  V3                 center;
  double             size;
};
// faces of the elements of the blocks `ids` that belong to one of them only
inline std::vector<Face>
skin(const exo::Mesh& m, const std::vector<int>& ids)
{
  // a face of a hexahedron is opposite corners of it differing in one local coordinate
  static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  std::map<std::array<int, 4>, std::vector<Face>> all;
  int e0 = 0;
  for (auto& b : m.blocks) {
    bool in = std::find(ids.begin(), ids.end(), b.id) != ids.end();
    for (size_t e = 0; in && e < b.conn.size(); e++) {
      V3 mid{{0, 0, 0}};
      for (int k = 0; k < 8; k++) mid = add(mid, mul(0.125, m.X[b.conn[e][k]]));
      for (int ax = 0; ax < 3; ax++)
        for (int s = 0; s < 2; s++) {
          std::vector<int> q;
          int              o1 = (ax + 1) % 3, o2 = (ax + 2) % 3;
          for (auto& p : {std::array<int, 2>{{0, 0}}, {{1, 0}}, {{1, 1}}, {{0, 1}}})
            for (int k = 0; k < 8; k++)
              if (C[k][ax] == s && C[k][o1] == p[0] && C[k][o2] == p[1]) q.push_back(b.conn[e][k]);
          Face f;
          f.elem   = e0 + (int)e;
          f.center = {{0, 0, 0}};
          for (int i : q) f.center = add(f.center, mul(0.25, m.X[i]));
          V3 nrm = cross(sub(m.X[q[2]], m.X[q[0]]), sub(m.X[q[3]], m.X[q[1]]));
          if (dot(nrm, sub(f.center, mid)) < 0) std::reverse(q.begin(), q.end());
          f.size = 0;
          for (int i = 0; i < 4; i++) {
            f.n[i] = q[i];
            f.size = std::max(f.size, len(sub(m.X[q[i]], m.X[q[(i + 1) % 4]])));
          }
          auto key = f.n;
          std::sort(key.begin(), key.end());
          all[key].push_back(f);
        }
    }
    e0 += b.conn.size();
  }
  std::vector<Face> r;
  for (auto& a : all)
    if (a.second.size() == 1) r.push_back(a.second[0]);
  return r;
}
struct Entity
{
  int    type, id;
  V3     p[3];
  double size;
  V3     lo, hi;
};
inline Entity
entity(const nimble::ContactEntity& e)
{
  Entity r;
  r.type = e.entity_type_;
  r.id   = e.contact_entity_global_id();
  r.p[0] = {{e.coord_1_x_, e.coord_1_y_, e.coord_1_z_}};
  r.p[1] = {{e.coord_2_x_, e.coord_2_y_, e.coord_2_z_}};
  r.p[2] = {{e.coord_3_x_, e.coord_3_y_, e.coord_3_z_}};
  r.size = e.char_len_;
  r.lo   = {{e.get_x_min(), e.get_y_min(), e.get_z_min()}};
  r.hi   = {{e.get_x_max(), e.get_y_max(), e.get_z_max()}};
  return r;
}
struct Surface
{
  std::vector<Entity> faces, nodes;
};
// what the search would be given
struct Recorder : nimble::ContactInterface
{
  Surface* out = nullptr;
  void
  DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement) override
  {
    out->faces.clear();
    out->nodes.clear();
    for (size_t i = 0; i < n.extent(0); i++) out->nodes.push_back(entity(n(i)));
    for (size_t i = 0; i < f.extent(0); i++) out->faces.push_back(entity(f(i)));
  }
};
inline void
load(nimble::GenesisMesh& g, const exo::Mesh& m)
{
  std::vector<int>                nid, eid, bids;
  std::vector<double>             x, y, z;
  std::map<int, std::string>      names;
  std::map<int, std::vector<int>> be, bc;
  std::map<int, int>              npe;
  for (size_t i = 0; i < m.X.size(); i++) {
    x.push_back(m.X[i][0]);
    y.push_back(m.X[i][1]);
    z.push_back(m.X[i][2]);
    nid.push_back(m.node_ids.empty() ? (int)i : m.node_ids[i] - 1);
  }
  int k = 0;
  for (auto& b : m.blocks) {
    bids.push_back(b.id);
    names[b.id] = b.name.empty() ? "block_" + std::to_string(b.id) : b.name;
    be[b.id];
    bc[b.id];
    npe[b.id] = 8;
    for (auto& c : b.conn) {
      int id = m.elem_ids.empty() ? k : m.elem_ids[k] - 1;
      k++;
      eid.push_back(id);
      be[b.id].push_back(id);
      for (int q : c) bc[b.id].push_back(q);
    }
  }
  g.Initialize("none", nid, x, y, z, eid, bids, names, be, npe, bc);
}
// surface of one (piece of a) mesh, in the calling rank
inline void
surface(const exo::Mesh& m, const std::vector<int>& prim, const std::vector<int>& sec, Surface& out)
{
  nimble::GenesisMesh g;
  load(g, m);
  nimble::Parser      parser;
  nimble::DataManager dm(parser, g);
  auto                rec = std::make_shared<Recorder>();
  rec->out                = &out;
  nimble::ContactManager cm(rec, dm);
  cm.SetPenaltyParameter(1.0);
  std::vector<int> p, s;
  for (auto& b : m.blocks) {
    if (std::find(prim.begin(), prim.end(), b.id) != prim.end()) p.push_back(b.id);
    if (std::find(sec.begin(), sec.end(), b.id) != sec.end()) s.push_back(b.id);
  }
  cm.CreateContactEntities(g, *dm.GetVectorCommunicator(), p, s);
  auto f = dm.GetModelData()->GetVectorNodeData("contact_force");
  cm.ComputeContactForce(1, false, f);
}
struct Less
{
  bool operator()(const V3& a, const V3& b) const { return a < b; }
};
// every difference between the surface recorded (by all processes together) and the skin of the whole body
inline std::vector<std::string>
compare(const Surface& s, const exo::Mesh& m, const std::vector<int>& prim, const std::vector<int>& sec, std::map<std::array<int, 3>, int>* ids = nullptr)
{
  std::vector<std::string> bad;
  auto say = [&](const std::string& t) { if (bad.size() < 4) bad.push_back(t); };
  std::map<V3, int> at;
  for (size_t i = 0; i < m.X.size(); i++) at[m.X[i]] = i;
  auto node = [&](const V3& p) { auto it = at.find(p); return it == at.end() ? -1 : it->second; };
  auto pf = skin(m, prim), sf = skin(m, sec);
  std::map<std::array<long, 3>, int> centers;
  auto q = [](const V3& p) { return std::array<long, 3>{{std::lround(p[0] * 1e6), std::lround(p[1] * 1e6), std::lround(p[2] * 1e6)}}; };
  for (size_t i = 0; i < pf.size(); i++) centers[q(pf[i].center)] = i;
  std::vector<std::array<int, 4>> seen(pf.size(), {{0, 0, 0, 0}});
  std::set<int> used;
  for (auto& e : s.faces) {
    if (e.type != nimble::ContactEntity::TRIANGLE) { say("a face entity that is no triangle"); continue; }
    int a = node(e.p[0]), b = node(e.p[1]), f = -1;
    auto c0 = q(e.p[2]);
    for (long dx = -1; dx <= 1 && f < 0; dx++)
      for (long dy = -1; dy <= 1 && f < 0; dy++)
        for (long dz = -1; dz <= 1 && f < 0; dz++) {
          auto it = centers.find({{c0[0] + dx, c0[1] + dy, c0[2] + dz}});
          if (it != centers.end()) f = it->second;
        }
    if (f < 0) { say("a triangle that is not on the skin of the primary blocks"); continue; }
    int k = -1;
    for (int i = 0; i < 4; i++)
      if (pf[f].n[i] == a && pf[f].n[(i + 1) % 4] == b) k = i;
    if (k < 0) { say("a triangle on a primary face with the wrong corners or facing inward"); continue; }
    seen[f][k]++;
    if (!used.insert(e.id).second) say("identifier " + std::to_string(e.id) + " is used twice");
    if (!vh::close(e.size, pf[f].size, 1e-12)) say("a primary face of size " + vh::fmt(pf[f].size) + " has size " + vh::fmt(e.size));
    for (auto& p : e.p)
      for (int d = 0; d < 3; d++)
        if (p[d] < e.lo[d] || p[d] > e.hi[d]) say("a triangle outside its bounding box");
    if (ids) (*ids)[{{a, b, pf[f].elem}}] = e.id;
  }
  for (auto& c : seen)
    for (int i = 0; i < 4; i++)
      if (c[i] != 1) say(c[i] ? "a triangle of the primary skin occurs " + std::to_string(c[i]) + " times" : "a triangle of the primary skin is missing");
  std::map<int, double> want;
  for (auto& f : sf)
    for (int n : f.n) want[n] = std::max(want[n], f.size);
  std::map<int, int> got;
  for (auto& e : s.nodes) {
    if (e.type != nimble::ContactEntity::NODE) { say("a node entity that is no node"); continue; }
    int a = node(e.p[0]);
    if (a < 0 || !want.count(a)) { say("a contact node that is not on the skin of the secondary blocks"); continue; }
    if (++got[a] > 1) say("a contact node occurs twice");
    if (!used.insert(e.id).second) say("identifier " + std::to_string(e.id) + " is used twice");
    int gid = m.node_ids.empty() ? a + 1 : m.node_ids[a];
    if (e.id != gid) say("contact node " + std::to_string(gid) + " has identifier " + std::to_string(e.id));
    if (!vh::close(e.size, want[a], 1e-12)) say("a contact node on faces of size " + vh::fmt(want[a]) + " has size " + vh::fmt(e.size));
    for (int d = 0; d < 3; d++)
      if (e.p[0][d] < e.lo[d] || e.p[0][d] > e.hi[d]) say("a contact node outside its bounding box");
  }
  for (auto& w : want)
    if (!got.count(w.first)) say("node " + std::to_string(w.first + 1) + " of the secondary skin is missing");
  return bad;
}
// the elements e of grid with state[e] >= 0, in block ids[state[e]]; only the nodes they use
inline exo::Mesh
body(const exo::Mesh& g, const std::vector<int>& state, const std::vector<int>& ids)
{
  exo::Mesh        m;
  std::vector<int> loc(g.X.size(), -1);
  for (size_t b = 0; b < ids.size(); b++) {
    exo::Block k;
    k.id = ids[b];
    m.blocks.push_back(k);
  }
  auto& conn = g.blocks[0].conn;
  for (size_t e = 0; e < conn.size(); e++)
    if (state[e] >= 0)
      for (int n : conn[e]) loc[n] = 0;
  for (size_t i = 0; i < loc.size(); i++)
    if (loc[i] == 0) {
      loc[i] = m.X.size();
      m.X.push_back(g.X[i]);
    }
  for (size_t e = 0; e < conn.size(); e++)
    if (state[e] >= 0) {
      auto c = conn[e];
      for (int& n : c) n = loc[n];
      m.blocks[state[e]].conn.push_back(c);
    }
  return m;
}
// another description of the same body: nodes and elements in another order, elements written from other corners
inline exo::Mesh
rename(const exo::Mesh& m, int how)
{
  // the 24 rotations of a hexahedron, as corner permutations
  static std::vector<std::array<int, 8>> rot;
  if (rot.empty()) {
    std::array<int, 8> id{{0, 1, 2, 3, 4, 5, 6, 7}}, a{{1, 2, 3, 0, 5, 6, 7, 4}}, b{{3, 2, 6, 7, 0, 1, 5, 4}};
    std::set<std::array<int, 8>> all{id};
    for (bool more = true; more;) {
      more = false;
      for (auto& p : std::set<std::array<int, 8>>(all))
        for (auto& g : {a, b}) {
          std::array<int, 8> q;
          for (int i = 0; i < 8; i++) q[i] = p[g[i]];
          more = all.insert(q).second || more;
        }
    }
    rot.assign(all.begin(), all.end());
  }
  if (!how) return m;
  exo::Mesh r = m;
  int       n = m.X.size(), k = how;
  auto      to = [&](int i) { return how % 2 ? n - 1 - i : (i + how) % n; };
  for (int i = 0; i < n; i++) r.X[to(i)] = m.X[i];
  for (auto& b : r.blocks) {
    if (how % 3) std::reverse(b.conn.begin(), b.conn.end());
    for (auto& c : b.conn) {
      auto d = c;
      for (int i = 0; i < 8; i++) c[i] = to(d[rot[k % rot.size()][i]]);
      k = k * 7 + 3;
      if (k > 100000) k %= 1009;
    }
  }
  if (how % 4 >= 2) std::reverse(r.blocks.begin(), r.blocks.end());
  return r;
}
}  // namespace contact
