// C23: whole runs of the same body written in different ways: node order, element order, identifiers, block splitting, local node order of elements, set order.
#include <unistd.h>

#include <algorithm>
#include <map>
#include <numeric>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
typedef std::vector<int> I;

struct Way  // one way to write a body
{
  I                   nodes;          // new node -> node of the base
  std::vector<I>      blocks;         // elements of the base, block by block
  I                   ids, mats;      // of the blocks
  I                   rot;            // local order of each element of the base (0: as it is)
  I                   node_ids, elem_ids;
  I                   set_order;      // order of the node sets in the file
  int                 inset = 0;      // order of the nodes in the sets
  I                   part;           // process of each element, in the new order
  int                 np   = 1;
  bool                rev  = false;
  std::string         name;
};
struct Base
{
  exo::Mesh   m;  // elements in one sequence of blocks, node and element ids 1..n
  I           mat;
  ref::Deck   d;
  std::string name;
};
static std::vector<I>
rotations()
{
  // orientation preserving relabellings of the hexahedron
  int c[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  std::vector<I> r;
  I              p{0, 1, 2};
  do {
    int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]);
    for (int s = 0; s < 8; s++) {
      int sg[3] = {s & 1 ? -1 : 1, s & 2 ? -1 : 1, s & 4 ? -1 : 1};
      if (sg[0] * sg[1] * sg[2] * (inv % 2 ? -1 : 1) < 0) continue;
      I q;
      for (int i = 0; i < 8; i++) {
        int v[3];
        for (int k = 0; k < 3; k++) v[k] = sg[k] * c[i][p[k]];
        for (int j = 0; j < 8; j++)
          if (c[j][0] == v[0] && c[j][1] == v[1] && c[j][2] == v[2]) q.push_back(j);
      }
      r.push_back(q);
    }
  } while (std::next_permutation(p.begin(), p.end()));
  auto id = std::find(r.begin(), r.end(), I{0, 1, 2, 3, 4, 5, 6, 7});
  std::swap(*r.begin(), *id);
  return r;
}
static exo::Mesh
rewrite(const Base& b, const Way& w, I& nmap, I& emap)
{
  static auto                     rots = rotations();
  std::vector<std::array<int, 8>> el;
  for (auto& k : b.m.blocks)
    for (auto& c : k.conn) el.push_back(c);
  exo::Mesh m;
  int       n = b.m.X.size();
  I         inv(n);
  nmap.resize(n);
  for (int i = 0; i < n; i++) {
    inv[w.nodes[i]] = i;
    m.X.push_back(b.m.X[w.nodes[i]]);
    nmap[i] = w.nodes[i] + 1;
  }
  for (size_t k = 0; k < w.blocks.size(); k++) {
    exo::Block q;
    q.id = w.ids[k];
    for (int e : w.blocks[k]) {
      std::array<int, 8> c;
      for (int i = 0; i < 8; i++) c[i] = inv[el[e][w.rot.empty() ? i : rots[w.rot[e]][i]]];
      q.conn.push_back(c);
      emap.push_back(e + 1);
    }
    m.blocks.push_back(q);
  }
  m.node_ids = w.node_ids;
  m.elem_ids = w.elem_ids;
  for (size_t k = 0; k < b.m.nsets.size(); k++) {
    auto s = b.m.nsets[w.set_order.empty() ? k : w.set_order[k]];
    for (int& i : s.nodes) i = inv[i];
    if (w.inset == 1) std::reverse(s.nodes.begin(), s.nodes.end());
    if (w.inset == 2) std::sort(s.nodes.begin(), s.nodes.end());
    if (w.inset == 3 && s.nodes.size() > 1) std::rotate(s.nodes.begin(), s.nodes.begin() + s.nodes.size() / 2, s.nodes.end());
    m.nsets.push_back(s);
  }
  return m;
}
static Way
plain(const Base& b)
{
  Way w;
  w.nodes.resize(b.m.X.size());
  std::iota(w.nodes.begin(), w.nodes.end(), 0);
  int e = 0;
  for (size_t k = 0; k < b.m.blocks.size(); k++) {
    I q;
    for (size_t i = 0; i < b.m.blocks[k].conn.size(); i++) q.push_back(e++);
    w.blocks.push_back(q);
    w.ids.push_back(b.m.blocks[k].id);
    w.mats.push_back(b.mat[k]);
  }
  return w;
}
static exo::Results
base_results(const Base& b, const std::string& dir)
{
  static std::map<std::string, exo::Results> known;
  auto                                       it = known.find(b.name);
  if (it != known.end()) return it->second;
  auto d = b.d;
  for (size_t k = 0; k < b.m.blocks.size(); k++) d.block_mat[b.m.blocks[k].id] = b.mat[k];
  d.mesh_file = "base.g";
  d.out_file  = "base.e";
  exo::write_genesis(dir + "/base.g", b.m);
  write_file(dir + "/base.in", ref::deck_text(d, b.m));
  auto         o = e2e::run(dir, {"base.in"});
  exo::Results r = exo::read_results(dir + "/base.out.e");
  if (!o.ok() && r.error.empty()) r.error = "the run of the body as it is failed";
  return known[b.name] = r;
}
static void
check(const Base& b, const Way& w, Ctx& x)
{
  std::string dir  = scratch_dir("c23");
  auto        base = base_results(b, dir);
  I           nmap, emap;
  auto        m = rewrite(b, w, nmap, emap);
  auto        d = b.d;
  for (size_t k = 0; k < w.ids.size(); k++) d.block_mat[w.ids[k]] = w.mats[k];
  if (!w.rot.empty()) {
    I2:
    for (size_t i = 0; i < d.fields.size(); i++)
      if (d.fields[i].compare(0, 3, "ipt") == 0) {
        d.fields.erase(d.fields.begin() + i);
        goto I2;
      }
    // the reference run has more columns; only common ones are compared below
  }
  std::vector<exo::Mesh> parts{m};
  if (w.np > 1) parts = exo::split(m, w.part, w.np, w.rev);
  std::map<int, int> ni, ei;
  for (size_t i = 0; i < nmap.size(); i++) ni[m.node_ids.empty() ? i + 1 : m.node_ids[i]] = nmap[i];
  for (size_t i = 0; i < emap.size(); i++) ei[m.elem_ids.empty() ? i + 1 : m.elem_ids[i]] = emap[i];
  for (int p = 0; p < w.np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", w.np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  write_file(dir + "/d.in", ref::deck_text(d, m));
  x.executions++;
  x.evaluations++;
  x.transitions += d.steps;
  auto name = [&] { return b.name + ": " + w.name; };
  auto o    = e2e::run(dir, {"d.in"}, w.np);
  if (!o.ok()) x.violation("status", "the run ended with status " + std::to_string(o.status) + " | " + name());
  else
    for (int p = 0; p < w.np; p++) {
      auto r = exo::read_results(dir + "/" + cases::piece("m.out.e", w.np, p));
      I    nm = nmap, em = emap;
      if (w.np > 1) {
        nm.clear();
        em.clear();
        for (int id : parts[p].node_ids) nm.push_back(ni[id]);
        for (int id : parts[p].elem_ids) em.push_back(ei[id]);
      }
      auto cmp = base;
      if (!w.rot.empty())
        for (auto& n : cmp.evars)
          if (n.compare(0, 3, "ipt") == 0) n = r.evars.empty() ? n : r.evars[0];  // not written by this run
      for (auto& t : exo::diff(r, cmp, 1e-10, nm, em)) x.violation(t.substr(0, t.find('|')), t.substr(t.find('|') + 1) + " | " + name());
      if (p == 0 && w.np == 1)
        for (size_t s = 1; s < r.nodal.size(); s++) {
          uint64_t h = s;
          for (auto& v : r.nodal[s]) h = hash_dbl(v.data(), v.size(), h);
          x.state(h);
        }
    }
  x.distinct(hash_str(name()));
  x.sample(name());
  remove_tree(dir);
}
static std::string
list(const I& v)
{
  std::string s;
  for (int i : v) s += " " + std::to_string(i);
  return s;
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  auto body = [&](int nx, int ny, int nz, const I& blk, const I& ids, const I& mat, int shape, int cond) {
    Base b;
    b.m = exo::assign_blocks(cases::distort(exo::grid(nx, ny, nz), shape), blk, ids);
    cases::sets(b.m);
    b.mat      = mat;
    b.d.mats   = cases::materials();
    b.d.bcs    = cases::conditions(cond);
    b.d.fields = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "stress", "deformation_gradient", "volume", "ipt02_deformation_gradient", "ipt05_stress", "ipt08_stress"};
    b.d.steps  = 3;
    b.d.t1     = 0.15;
    b.name     = "grid " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + " shape " + std::to_string(shape) + " blocks" + list(blk) + " materials" + list(mat) + " conditions " + std::to_string(cond);
    return b;
  };
  auto stage = [&](const std::string& name, size_t n, const std::function<void(size_t, Base&, Way&)>& make) {
    auto get = [=](size_t i, Base& b, Way& w) { make(i, b, w); };
    Stage st;
    st.name     = name;
    st.n        = n;
    st.describe = [=](size_t i) {
      Base b;
      Way  w;
      get(i, b, w);
      return b.name + ": " + w.name;
    };
    st.fn = [=](size_t i, Ctx& x) {
      Base b;
      Way  w;
      get(i, b, w);
      if (!w.nodes.empty()) check(b, w, x);
    };
    st.case_timeout = 60;
    st.chunk        = 16;
    vh::run(st);
  };
  auto fact = [](int n) { size_t f = 1; for (; n > 1; n--) f *= n; return f; };
  auto perm = [&](int n, size_t k) {
    I v(n), r;
    std::iota(v.begin(), v.end(), 0);
    for (int i = n; i > 0; i--) {
      size_t f = fact(i - 1);
      r.push_back(v[k / f]);
      v.erase(v.begin() + k / f);
      k %= f;
    }
    return r;
  };
  // 1: every order of the nodes of one element (quick: of seven of them after a swap that moves the first)
  stage("node orders of one element", th ? 40320 : 5040, [&](size_t i, Base& b, Way& w) {
    b       = body(1, 1, 1, {0}, {1}, {(int)(i % 4)}, 1, i % 4);
    w       = plain(b);
    w.nodes = perm(8, th ? i : i * 8 + i % 8);
    w.name  = "nodes" + list(w.nodes);
  });
  // 2: transpositions, reversals and shifts of the nodes of larger grids
  {
    struct G { int nx, ny, nz; I blk, ids, mat; };
    std::vector<G> gs{{2, 1, 1, {0, 1}, {7, 3}, {0, 1}}, {3, 1, 1, {1, 0, 1}, {5, 2}, {2, 1}}, {2, 2, 1, {0, 1, 1, 0}, {1, 2}, {3, 0}}, {2, 2, 2, {0, 1, 1, 0, 2, 2, 0, 1}, {4, 9, 1}, {1, 2, 0}}};
    std::vector<std::array<int, 3>> todo;  // grid, a, b
    for (int g = 0; g < (int)gs.size(); g++) {
      int n = (gs[g].nx + 1) * (gs[g].ny + 1) * (gs[g].nz + 1);
      for (int a = 0; a < n; a++)
        for (int c = a; c < n; c++) todo.push_back({g, a, c});
      for (int s = 1; s < n; s++) todo.push_back({g, -1, s});
      for (int s = 0; s < n; s++) todo.push_back({g, -2, s});
      for (int s = 1; s < n; s++) todo.push_back({g, -3, s});
    }
    stage("node orders of grids", todo.size(), [=](size_t i, Base& b, Way& w) {
      auto& t = todo[i];
      auto& g = gs[t[0]];
      b       = body(g.nx, g.ny, g.nz, g.blk, g.ids, g.mat, 1 + t[2] % 2, 1 + i % 3);
      w       = plain(b);
      int n   = w.nodes.size();
      if (t[1] >= 0) std::swap(w.nodes[t[1]], w.nodes[t[2]]);
      if (t[1] == -1 || t[1] == -2) std::rotate(w.nodes.begin(), w.nodes.begin() + t[2], w.nodes.end());
      if (t[1] == -2) std::reverse(w.nodes.begin(), w.nodes.end());
      if (t[1] == -3) {  // every t[2]-th
        I q;
        for (int s = 0; s < t[2]; s++)
          for (int k = s; k < n; k += t[2]) q.push_back(k);
        w.nodes = q;
      }
      w.name = "nodes" + list(w.nodes);
    });
  }
  // 3: every order of the elements and blocks: four elements, every assignment to up to three blocks
  {
    // a way: sequence of the elements (24), cut into blocks by material of the base, each block split at every place
    int na = 16;
    stage("element and block orders", na * 24 * 8 * (th ? 3 : 1), [=](size_t i, Base& b, Way& w) {
      int a = i % na, cut = i / na / 24 % 8, kind = th ? i / na / 24 / 8 : (i * 7 / 5) % 3;
      I   blk;
      for (int e = 0; e < 4; e++) blk.push_back(a >> e & 1);
      b       = kind == 0 ? body(2, 2, 1, blk, {3, 1}, {0, 1}, 1, 1 + i % 3) : kind == 1 ? body(4, 1, 1, blk, {1, 2}, {2, 3}, 2, 1 + i % 3) : body(1, 2, 2, blk, {6, 40}, {1, 0}, 0, 1 + i % 3);
      w       = plain(b);
      auto base_blocks = w.blocks;
      I    ofe(4), seq;
      // element of the base (block-major) and its material
      for (size_t k = 0; k < base_blocks.size(); k++)
        for (int e : base_blocks[k]) ofe[e] = b.mat[k];
      seq = perm(4, i / na % 24);
      // consecutive elements of the sequence of one material form blocks; cuts split them further
      w.blocks.clear();
      w.ids.clear();
      w.mats.clear();
      for (int k = 0; k < 4; k++) {
        bool fresh = k == 0 || ofe[seq[k]] != ofe[seq[k - 1]] || (cut >> (k - 1) & 1);
        if (fresh) {
          w.blocks.push_back({});
          w.mats.push_back(ofe[seq[k]]);
        }
        w.blocks.back().push_back(seq[k]);
      }
      I names[3] = {{1, 2, 3, 4}, {9, 7, 5, 3}, {2, 11, 1, 100}};
      for (size_t k = 0; k < w.blocks.size(); k++) w.ids.push_back(names[(i / 3 + a) % 3][k]);
      w.name = "elements by block";
      for (size_t k = 0; k < w.blocks.size(); k++) w.name += " " + std::to_string(w.ids[k]) + ":" + list(w.blocks[k]);
    });
  }
  // 4: every orientation of the local node order of the elements
  stage("local node orders", 24 * 24 * (th ? 4 : 1), [&](size_t i, Base& b, Way& w) {
    int k  = th ? i / 576 : i % 4;
    b      = body(2, 1, 1, {0, k % 2}, k % 2 ? I{4, 2} : I{4}, k % 2 ? I{k, 0} : I{k}, 1 + k / 2, 1 + i % 3);
    w      = plain(b);
    w.rot  = {(int)(i % 24), (int)(i / 24 % 24)};
    w.name = "local orders" + list(w.rot);
  });
  // 5: identifiers, on one process and on every distribution over two and three
  {
    int  np3 = 81;
    stage("identifiers and distributions", 8 * np3 * (th ? 3 : 1), [=](size_t i, Base& b, Way& w) {
      int how = i % 8, dist = i / 8 % np3, kind = th ? i / 8 / np3 : (i / 8) % 3;
      b = kind == 0 ? body(2, 2, 1, {0, 1, 0, 1}, {3, 1}, {0, 1}, 1, 1 + i % 3) : kind == 1 ? body(4, 1, 1, {0, 0, 1, 2}, {1, 2, 5}, {2, 3, 0}, 2, 1 + i % 3) : body(2, 2, 1, {0, 0, 0, 0}, {6}, {1}, 0, 1 + i % 3);
      w = plain(b);
      int n = w.nodes.size();
      for (int e = 0, t = dist; e < 4; e++, t /= 3) w.part.push_back(t % 3);
      int hi = *std::max_element(w.part.begin(), w.part.end());
      std::vector<bool> used(3);
      for (int p : w.part) used[p] = true;
      for (int p = 0; p <= hi; p++)
        if (!used[p]) { w.nodes.clear(); return; }
      w.np  = hi + 1;
      w.rev = i / 8 % 2;
      if (how & 4) std::reverse(w.nodes.begin(), w.nodes.end());
      for (int k = 0; k < n; k++) w.node_ids.push_back(how % 4 == 0 ? k + 1 : how % 4 == 1 ? n - k : how % 4 == 2 ? 1000000 + 7 * k : 1 + (k * 5 + 3) % (n % 5 ? n : n + 1) * 1000);
      for (int k = 0; k < 4; k++) w.elem_ids.push_back(how % 4 == 0 ? 4 - k : how % 4 == 1 ? k * 100 + 50 : how % 4 == 2 ? 77777 - k : k + 1);
      w.name = "node identifiers" + list(w.node_ids) + " elements" + list(w.elem_ids) + " processes" + list(w.part) + (w.rev ? " reversed" : "");
    });
  }
  // 6: order of the node sets and of the nodes in them
  stage("set orders", 6 * 4 * 4 * 3, [&](size_t i, Base& b, Way& w) {
    int k       = i / 96;
    b           = body(2, 1, 1, {0, 1}, {7, 3}, {k, 1}, 1 + k % 2, i / 24 % 4);
    w           = plain(b);
    w.set_order = perm(3, i % 6);
    w.inset     = i / 6 % 4;
    if (i % 2) std::reverse(w.nodes.begin(), w.nodes.end());
    w.name = "sets" + list(w.set_order) + " order in them " + std::to_string(w.inset) + (i % 2 ? " nodes reversed" : "");
  });
  // 7: larger bodies
  {
    auto              big = cases::large();
    std::vector<Base> bases;
    for (int k : {0, 1, 2, 3, 4}) {
      Base b;
      b.m    = big[k].m;
      b.d    = big[k].d;
      b.name = big[k].name;
      for (auto& q : b.m.blocks) b.mat.push_back(b.d.block_mat[q.id]);
      if (k == 1) b.d.fields = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "volume"};
      bases.push_back(b);
    }
    stage("larger bodies", bases.size() * 12, [=](size_t i, Base& b, Way& w) {
      b       = bases[i / 12];
      w       = plain(b);
      int way = i % 12, n = w.nodes.size(), ne = 0;
      for (auto& q : w.blocks) ne += q.size();
      static const char* what[] = {"nodes reversed", "every seventh node", "elements reversed in their blocks", "blocks reversed", "blocks of at most five hundred elements", "blocks of at most sixteen elements", "local orders", "node sets reversed", "identifiers", "two processes", "seven processes, scattered", "everything at once"};
      w.name = what[way];
      if (way == 0 || way == 11) std::reverse(w.nodes.begin(), w.nodes.end());
      if (way == 1 || way == 10) {
        I q;
        for (int s = 0; s < 7; s++)
          for (int k = s; k < n; k += 7) q.push_back(k);
        w.nodes = q;
      }
      if (way == 2 || way == 11)
        for (auto& q : w.blocks) std::reverse(q.begin(), q.end());
      if (way == 3 || way == 11) {
        std::reverse(w.blocks.begin(), w.blocks.end());
        std::reverse(w.ids.begin(), w.ids.end());
        std::reverse(w.mats.begin(), w.mats.end());
      }
      if (way == 4 || way == 5) {
        auto   old = w;
        size_t at  = way == 4 ? 500 : 16;
        w.blocks.clear(), w.ids.clear(), w.mats.clear();
        for (size_t k = 0; k < old.blocks.size(); k++)
          for (size_t e = 0; e < old.blocks[k].size(); e += at) {
            w.blocks.push_back(I(old.blocks[k].begin() + e, old.blocks[k].begin() + std::min(e + at, old.blocks[k].size())));
            w.ids.push_back(500 + (int)w.ids.size() * 3 % 500);
            w.mats.push_back(old.mats[k]);
          }
      }
      if (way == 6 || way == 11)
        for (int e = 0; e < ne; e++) w.rot.push_back(e * 7 % 24);
      if (way == 7 || way == 11) {
        for (int k = (int)b.m.nsets.size(); k-- > 0;) w.set_order.push_back(k);
        w.inset = 1 + i / 12 % 3;
      }
      if (way >= 8) {
        for (int k = 0; k < n; k++) w.node_ids.push_back(way == 8 ? 3000000 - 7 * k : way == 11 ? 5 + 2 * k : k + 1);
        for (int k = 0; k < ne; k++) w.elem_ids.push_back(way == 8 ? 900000 - 3 * k : way == 11 ? 5 + 2 * k : k + 1);
      }
      if (way == 9 || way == 10) {
        w.np = std::min(ne, way == 9 ? 2 : 7);
        for (int e = 0; e < ne; e++) w.part.push_back(way == 9 ? e * 2 / ne : (e * 5 + e / 3) % w.np);
      }
    });
  }
  note("bounds", std::string("all ") + (th ? "40320" : "5040 of the 40320") + " node orders of one element; transpositions, shifts, reversals and strides of the nodes of grids up to 2x2x2; all orders, cuts into blocks and material assignments of four elements; all pairs of local node orders; identifiers on all distributions of four elements over up to three processes; twelve ways to write each of five larger bodies");
  return finish();
}
