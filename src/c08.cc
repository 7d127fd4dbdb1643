// C08: every mesh of an alphabet of block layouts, numberings, names, sets and pieces, written with the
// Exodus library (or as text) and read by the code under test; unsupported contents must be refused.
#include <exodusII.h>
#include <nimble_genesis_mesh.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <numeric>
#include <set>

#include "cases.h"
#include "e2e.h"
#include "exo.h"
#include "ref.h"
#include "vh.h"
using namespace vh;
using exo::Mesh;

static std::string
ints(const std::vector<int>& v)
{
  std::string s = "(";
  for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? " " : "") + std::to_string(v[i]);
  return s + ")";
}
// what is wrong with the mesh `g` the code read, if `m` is what was written
static std::string
compare(nimble::GenesisMesh& g, const Mesh& m, bool text)
{
  char b[300];
  if (g.GetDim() != 3) return "dim|dimension is " + std::to_string(g.GetDim());
  if (g.GetNumNodes() != m.X.size()) return "nodes|" + std::to_string(g.GetNumNodes()) + " nodes instead of " + std::to_string(m.X.size());
  if (g.GetNumNodeGlobalIds() != m.X.size()) return "nodes|" + std::to_string(g.GetNumNodeGlobalIds()) + " node identifiers instead of " + std::to_string(m.X.size());
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
  int    maxid = -1;
  for (size_t i = 0; i < m.X.size(); i++) {
    double p[3] = {g.GetCoordinatesX()[i], g.GetCoordinatesY()[i], g.GetCoordinatesZ()[i]};
    for (int c = 0; c < 3; c++) {
      if (p[c] != m.X[i][c]) {
        snprintf(b, sizeof b, "coordinates|coordinate %d of node %zu is %.17g instead of %.17g", c, i, p[c], m.X[i][c]);
        return b;
      }
      lo[c] = std::min(lo[c], m.X[i][c]);
      hi[c] = std::max(hi[c], m.X[i][c]);
    }
    int id = !m.aux_node_map.empty() ? m.aux_node_map[i] : !m.node_ids.empty() ? m.node_ids[i] : (int)i + 1;
    maxid  = std::max(maxid, id - 1);
    if (g.GetNodeGlobalIds()[i] != id - 1) {
      snprintf(b, sizeof b, "node ids|global identifier of node %zu is %d instead of %d", i, g.GetNodeGlobalIds()[i] + 1, id);
      return b;
    }
  }
  if (g.GetMaxNodeGlobalId() != maxid) return "node ids|largest node identifier is " + std::to_string(g.GetMaxNodeGlobalId()) + " instead of " + std::to_string(maxid);
  if (!m.X.empty() && !std::isnan(lo[0] + lo[1] + lo[2])) {
    double q[6];
    g.BoundingBox(q[0], q[1], q[2], q[3], q[4], q[5]);
    auto c = g.BoundingBoxCenter();
    for (int k = 0; k < 3; k++)
      if (q[2 * k] != lo[k] || q[2 * k + 1] != hi[k] || !vh::close(c[k], 0.5 * (lo[k] + hi[k]))) return "bounding box|bounding box differs";
  }
  if ((int)g.GetNumElements() != m.nelem()) return "elements|" + std::to_string(g.GetNumElements()) + " elements instead of " + std::to_string(m.nelem());
  // blocks
  std::vector<int> ids, all;
  std::vector<std::string> names;
  for (auto& k : m.blocks) {
    size_t n = k.raw.empty() ? k.conn.size() : k.raw.size() / k.npe;
    if (n || text) ids.push_back(k.id);
    all.push_back(k.id);
    names.push_back(k.name.empty() ? "block_" + std::to_string(k.id) : k.name);
  }
  if (g.GetBlockIds() != ids) return "blocks|blocks with elements are " + ints(g.GetBlockIds()) + " instead of " + ints(ids);
  if (g.GetAllBlockIds() != all) return "blocks|blocks are " + ints(g.GetAllBlockIds()) + " instead of " + ints(all);
  if (g.GetNumBlocks() != ids.size() || g.GetNumGlobalBlocks() != all.size()) return "blocks|number of blocks differs";
  auto npeb = g.GetNumNodesPerElement();
  auto neb  = g.GetNumElementsInBlock();
  auto& allconn = g.GetConnectivity();
  if (npeb.size() != ids.size() || neb.size() != ids.size() || allconn.size() != ids.size()) return "blocks|the block tables hold the wrong number of blocks";
  int e = 0;
  std::vector<std::string> want_names;
  std::vector<int>         want_ids;
  for (size_t k = 0; k < all.size(); k++) {
    auto& B = m.blocks[k];
    if (g.GetBlockName(B.id) != names[k]) return "block names|block " + std::to_string(B.id) + " is named \"" + g.GetBlockName(B.id) + "\" instead of \"" + names[k] + "\"";
    std::vector<int> conn = B.raw;
    int              npe  = B.npe;
    if (B.raw.empty())
      for (auto& c : B.conn) conn.insert(conn.end(), c.begin(), c.end());
    int  n    = conn.size() / npe;
    bool here = n || text;
    if (g.HasBlock(names[k]) != here) return "block names|HasBlock(" + names[k] + ") is wrong";
    want_names.push_back(names[k]);
    if (!here) continue;
    want_ids.push_back(B.id);
    if (g.GetBlockId(names[k]) != B.id) return "block names|GetBlockId(" + names[k] + ") is wrong";
    if (g.GetNumElementsInBlock(B.id) != n || neb.at(B.id) != n) return "blocks|block " + std::to_string(B.id) + " has " + std::to_string(g.GetNumElementsInBlock(B.id)) + " elements instead of " + std::to_string(n);
    if (g.GetNumNodesPerElement(B.id) != npe || npeb.at(B.id) != npe) return "blocks|nodes per element of block " + std::to_string(B.id) + " is wrong";
    if (npe == 8 && g.GetElementType(B.id) != "HEX") return "blocks|element type of block " + std::to_string(B.id) + " is " + g.GetElementType(B.id);
    auto& gid = g.GetElementGlobalIdsInBlock(B.id);
    if ((int)gid.size() != n) return "element ids|block " + std::to_string(B.id) + " has " + std::to_string(gid.size()) + " element identifiers";
    for (int i = 0; i < n; i++, e++) {
      int id = !m.aux_elem_map.empty() ? m.aux_elem_map[e] : !m.elem_ids.empty() ? m.elem_ids[e] : e + 1;
      if (gid[i] != id - 1 || g.GetElementGlobalIds()[e] != id - 1) {
        snprintf(b, sizeof b, "element ids|global identifier of element %d of block %d is %d/%d instead of %d", i, B.id, gid[i] + 1, g.GetElementGlobalIds()[e] + 1, id);
        return b;
      }
    }
    const int* c = n ? g.GetConnectivity(B.id) : nullptr;
    for (size_t i = 0; i < conn.size(); i++)
      if (c[i] != conn[i] || allconn.at(B.id).at(i) != conn[i]) {
        snprintf(b, sizeof b, "connectivity|node %zu of element %zu of block %d is %d instead of %d", i % npe, i / npe, B.id, c[i], conn[i]);
        return b;
      }
    if (allconn.at(B.id).size() != conn.size()) return "connectivity|too many entries";
  }
  if (g.HasBlock("no_such_block") || g.HasBlock("")) return "block names|a block that is not there is found";
  bool threw = false;
  try {
    g.GetBlockId("no_such_block");
  } catch (std::exception&) { threw = true; }
  if (!threw) return "block names|GetBlockId of an unknown name returns";
  want_names.push_back("no_such_block");
  std::vector<int> got{99};
  g.BlockNamesToOnProcessorBlockIds(want_names, got);
  if (got != want_ids) return "block names|BlockNamesToOnProcessorBlockIds gives " + ints(got) + " instead of " + ints(want_ids);
  std::reverse(want_names.begin(), want_names.end());
  std::reverse(want_ids.begin(), want_ids.end());
  g.BlockNamesToOnProcessorBlockIds(want_names, got);
  if (got != want_ids) return "block names|BlockNamesToOnProcessorBlockIds gives " + ints(got) + " instead of " + ints(want_ids);
  // node sets
  std::vector<int> nid;
  for (auto& s : m.nsets) nid.push_back(s.id);
  if (g.GetNodeSetIds() != nid || g.GetNumNodeSets() != (int)nid.size()) return "node sets|node set ids are " + ints(g.GetNodeSetIds()) + " instead of " + ints(nid);
  auto nn = g.GetNodeSetNames();
  auto ns = g.GetNodeSets();
  auto df = g.GetNodeSetDistributionFactors();
  if (nn.size() != nid.size() || ns.size() != nid.size()) return "node sets|number of node sets differs";
  for (auto& s : m.nsets) {
    std::string w = s.name.empty() ? "nodelist_" + std::to_string(s.id) : s.name;
    if (!nn.count(s.id) || nn[s.id] != w) return "node set names|node set " + std::to_string(s.id) + " is named \"" + nn[s.id] + "\" instead of \"" + w + "\"";
    if (!ns.count(s.id) || ns[s.id] != s.nodes) return "node sets|node set " + std::to_string(s.id) + " holds " + ints(ns[s.id]) + " instead of " + ints(s.nodes);
    if (text) continue;
    size_t ndf = s.ndf < 0 ? s.nodes.size() : s.ndf;
    if (df[s.id].size() != ndf) return "distribution factors|node set " + std::to_string(s.id) + " has " + std::to_string(df[s.id].size()) + " distribution factors instead of " + std::to_string(ndf);
    for (size_t i = 0; i < ndf; i++)
      if (df[s.id][i] != (i < s.df.size() ? s.df[i] : 1.0)) return "distribution factors|values differ";
  }
  if (text) return "";
  std::vector<int> sid;
  for (auto& s : m.ssets) sid.push_back(s.id);
  if (g.GetSideSetIds() != sid || g.GetNumSideSets() != (int)sid.size()) return "side sets|side set ids are " + ints(g.GetSideSetIds()) + " instead of " + ints(sid);
  auto sn = g.GetSideSetNames();
  auto ss = g.GetSideSets();
  for (auto& s : m.ssets) {
    std::string w = s.name.empty() ? "sideset_" + std::to_string(s.id) : s.name;
    if (!sn.count(s.id) || sn[s.id] != w) return "side set names|side set " + std::to_string(s.id) + " is named \"" + sn[s.id] + "\" instead of \"" + w + "\"";
    if (!ss.count(s.id) || ss[s.id] != s.elems) return "side sets|side set " + std::to_string(s.id) + " holds " + ints(ss[s.id]) + " instead of " + ints(s.elems);
  }
  return "";
}
static std::string dir;
static void
check(const std::string& what, const Mesh& m, Ctx& x)
{
  std::string f = dir + "/m.g";
  auto e = exo::write_genesis(f, m);
  if (!e.empty()) {
    fprintf(stderr, "cannot write the mesh: %s (%s)\n", e.c_str(), what.c_str());
    _exit(3);
  }
  Quiet q;
  std::string bad;
  nimble::GenesisMesh g;
  try {
    g.ReadFile(f);
    bad = compare(g, m, false);
  } catch (std::exception& ex) { bad = std::string("refused|a supported mesh is refused: ") + ex.what(); }
  x.evaluations++;
  x.executions++;
  x.distinct(hash_str(what));
  x.outcome(hash_str(bad));
  if (!bad.empty()) x.violation(bad.substr(0, bad.find('|')) + " of " + what.substr(0, what.find(' ')), what + ": " + bad.substr(bad.find('|') + 1));
}
static std::string
text_of(const Mesh& m, int style)
{
  std::string s;
  char        b[200];
  if (style == 1) s += "# a comment\n\n";
  s += "number_of_nodes " + std::to_string(m.X.size()) + "\n";
  s += "number_of_elements " + std::to_string(m.nelem()) + "\n";
  s += "number_of_blocks " + std::to_string(m.blocks.size()) + "\n";
  s += "number_of_node_sets " + std::to_string(m.nsets.size()) + "\n";
  auto coords = [&] {
    s += "node_coordinates\n";
    for (size_t i = 0; i < m.X.size(); i++) {
      snprintf(b, sizeof b, style == 1 ? "  %d\t%.17g  %.17g %.17g\n" : "%d %.17g %.17g %.17g\n", m.node_ids.empty() ? (int)i + 1 : m.node_ids[i], m.X[i][0], m.X[i][1], m.X[i][2]);
      s += b;
    }
  };
  auto sets = [&] {
    for (auto& n : m.nsets) {
      s += "nodeset\n" + std::to_string(n.id) + " " + (n.name.empty() ? "nodelist_" + std::to_string(n.id) : n.name) + " " + std::to_string(n.nodes.size()) + "\n";
      for (int k : n.nodes) s += std::to_string(k + 1) + "\n";
    }
  };
  if (style == 2) sets();
  coords();
  int e = 0;
  for (auto& k : m.blocks) {
    if (style == 1) s += "\n";
    s += "element_block\n" + std::to_string(k.id) + " " + (k.name.empty() ? "block_" + std::to_string(k.id) : k.name) + " " + std::to_string(k.conn.size()) + " 8\n";
    for (auto& c : k.conn) {
      s += std::to_string(m.elem_ids.empty() ? e + 1 : m.elem_ids[e]);
      e++;
      for (int n : c) s += " " + std::to_string(n + 1);
      s += "\n";
    }
  }
  if (style != 2) sets();
  return s;
}
// what the Exodus library itself reads from a file; an empty string, or what could not be read
static std::string
library_view(const std::string& f, Mesh& m)
{
  int   cpu = 8, io = 0;
  float ver;
  int   id = ex_open(f.c_str(), EX_READ, &cpu, &io, &ver);
  if (id < 0) return "ex_open";
  std::string err;
#define EXC(x) do { if ((x) < 0) return #x; } while (0)
  char title[MAX_LINE_LENGTH + 1], nm[MAX_STR_LENGTH + 1], ty[MAX_STR_LENGTH + 1];
  int  nn, ne, nb, nns, nss;
  EXC(ex_get_init(id, title, &m.dim, &nn, &ne, &nb, &nns, &nss));
  std::vector<double> x(nn + 1), y(nn + 1), z(nn + 1);
  EXC(ex_get_coord(id, x.data(), y.data(), z.data()));
  for (int i = 0; i < nn; i++) m.X.push_back({{x[i], y[i], z[i]}});
  m.node_ids.resize(nn);
  m.elem_ids.resize(ne);
  EXC(ex_get_id_map(id, EX_NODE_MAP, m.node_ids.data()));
  EXC(ex_get_id_map(id, EX_ELEM_MAP, m.elem_ids.data()));
  int am, bm;
  EXC(ex_get_map_param(id, &am, &bm));
  if (am) {
    m.aux_node_map.resize(nn);
    EXC(ex_get_num_map(id, EX_NODE_MAP, 1, m.aux_node_map.data()));
  }
  if (bm) {
    m.aux_elem_map.resize(ne);
    EXC(ex_get_num_map(id, EX_ELEM_MAP, 1, m.aux_elem_map.data()));
  }
  std::vector<int> ids(nb + 1);
  EXC(ex_get_ids(id, EX_ELEM_BLOCK, ids.data()));
  for (int i = 0; i < nb; i++) {
    exo::Block b;
    int        n, ed, fc, at;
    b.id = ids[i];
    EXC(ex_get_block(id, EX_ELEM_BLOCK, b.id, ty, &n, &b.npe, &ed, &fc, &at));
    EXC(ex_get_name(id, EX_ELEM_BLOCK, b.id, nm));
    b.name = nm;
    if (n) {
      b.raw.resize(n * b.npe);
      EXC(ex_get_conn(id, EX_ELEM_BLOCK, b.id, b.raw.data(), nullptr, nullptr));
      for (int& k : b.raw) k--;
    }
    m.blocks.push_back(b);
  }
  ids.assign(nns + 1, 0);
  if (nns) EXC(ex_get_ids(id, EX_NODE_SET, ids.data()));
  for (int i = 0; i < nns; i++) {
    exo::NodeSet s;
    int          n, d;
    s.id = ids[i];
    EXC(ex_get_name(id, EX_NODE_SET, s.id, nm));
    s.name = nm;
    EXC(ex_get_set_param(id, EX_NODE_SET, s.id, &n, &d));
    s.nodes.resize(n);
    if (n) EXC(ex_get_set(id, EX_NODE_SET, s.id, s.nodes.data(), nullptr));
    for (int& k : s.nodes) k--;
    s.ndf = d;
    s.df.resize(d);
    if (d) EXC(ex_get_set_dist_fact(id, EX_NODE_SET, s.id, s.df.data()));
    m.nsets.push_back(s);
  }
  ids.assign(nss + 1, 0);
  if (nss) EXC(ex_get_ids(id, EX_SIDE_SET, ids.data()));
  for (int i = 0; i < nss; i++) {
    exo::SideSet s;
    int          n, d;
    s.id = ids[i];
    EXC(ex_get_name(id, EX_SIDE_SET, s.id, nm));
    s.name = nm;
    EXC(ex_get_set_param(id, EX_SIDE_SET, s.id, &n, &d));
    s.elems.resize(n);
    s.sides.resize(n);
    if (n) EXC(ex_get_set(id, EX_SIDE_SET, s.id, s.elems.data(), nullptr));
    for (int& k : s.elems) k--;
    s.ndf = d;
    m.ssets.push_back(s);
  }
#undef EXC
  ex_close(id);
  return "";
}
// permutation-like identifiers: 0 none, 1 reversed, 2 with gaps and rotated
static std::vector<int>
idmap(int n, int k)
{
  std::vector<int> v;
  for (int i = 0; i < n && k; i++) v.push_back(k == 1 ? n - i : 10 + 7 * ((i + n / 2) % n));
  return v;
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  std::vector<std::vector<int>> idsets{{1, 2, 3}, {7, 3, 50}, {10, 2, 5}};
  std::string c32(32, 'n'), c31 = std::string(30, 'a') + "z";
  std::vector<std::vector<std::string>> names{{"", "", ""}, {"steel", "foam", "rubber"}, {"", c32, "b"}, {c31, "two words", ""}, {"block_3", "block_1", "block_10"}};
  auto init_dir = [] { dir = scratch_dir("c08"); };
  auto fini_dir = [] { remove_tree(dir); };

  Mesh base = cases::distort(exo::grid(2, 2, 1), 1);
  Stage st;
  st.name        = "layouts";
  st.worker_init = init_dir;
  st.worker_fini = fini_dir;
  st.chunk       = 64;
  int maps = th ? 9 : 4;
  st.n     = 81 * idsets.size() * names.size() * maps * 4;
  auto layout = [&](size_t i, std::string* what) {
    size_t a = i % 81, q = i / 81;
    size_t id = q % idsets.size();
    q /= idsets.size();
    size_t nm = q % names.size();
    q /= names.size();
    int mp = q % maps, aux = q / maps;
    std::vector<int> blk;
    size_t           t = a;
    for (int k = 0; k < 4; k++, t /= 3) blk.push_back(t % 3);
    Mesh m     = exo::assign_blocks(base, blk, idsets[id], names[nm]);
    int  nk = th ? mp % 3 : (mp == 0 ? 0 : mp == 1 ? 1 : 2), ek = th ? mp / 3 : (mp == 0 ? 0 : mp == 1 ? 2 : mp == 2 ? 0 : 1);
    m.node_ids = idmap(m.X.size(), nk);
    m.elem_ids = idmap(4, ek);
    if (aux & 1) m.aux_node_map = idmap(m.X.size(), 2 - nk / 2);
    if (aux & 2) m.aux_elem_map = idmap(4, 2 - ek / 2);
    if (what) {
      char b[200];
      snprintf(b, sizeof b, "layouts blocks %d%d%d%d ids %zu names %zu node-map %d elem-map %d aux %d", blk[0], blk[1], blk[2], blk[3], id, nm, nk, ek, aux);
      *what = b;
    }
    return m;
  };
  st.describe = [&](size_t i) { std::string s; layout(i, &s); return s; };
  st.fn       = [&](size_t i, Ctx& x) {
    std::string s;
    Mesh        m = layout(i, &s);
    check(s, m, x);
    if (i % 997 == 0) x.sample(s);
  };
  vh::run(st);

  // larger meshes
  auto  big = cases::large();
  Stage sl;
  sl.name        = "large";
  sl.worker_init = init_dir;
  sl.worker_fini = fini_dir;
  sl.n           = big.size() * 9;
  auto large     = [&](size_t i) {
    Mesh m     = big[i / 9].m;
    m.node_ids = idmap(m.X.size(), i % 3);
    m.elem_ids = idmap(m.nelem(), i / 3 % 3);
    if (i % 2) m.aux_node_map = idmap(m.X.size(), 2), m.aux_elem_map = idmap(m.nelem(), 1);
    for (size_t k = 0; k < i % 9 * 5; k++) {
      exo::SideSet s;
      s.id = k % 4 == 3 ? 300 + k : 1 + k;
      if (k % 3 == 1) s.name = "side_set_of_a_long_name_" + std::to_string(k);
      for (int e = 0; e < m.nelem(); e++)
        if ((e + k) % (k + 1) == 0) s.elems.push_back(e), s.sides.push_back(1 + (e + k) % 6);
      m.ssets.push_back(s);
    }
    for (size_t b = 0; b < m.blocks.size() && i % 3; b++)
      if (b % 2) m.blocks[b].name = "block_of_a_rather_long_name_" + std::to_string(b);
    return m;
  };
  sl.describe = [&](size_t i) { return "large mesh: " + big[i / 9].name + ", variant " + std::to_string(i % 9); };
  sl.fn       = [&](size_t i, Ctx& x) { check(sl.describe(i), large(i), x); };
  vh::run(sl);

  // node and side sets of one and two hexahedra
  Stage ss;
  ss.name        = "sets";
  ss.worker_init = init_dir;
  ss.worker_fini = fini_dir;
  ss.chunk       = 64;
  std::vector<std::pair<std::string, Mesh>> sm;
  Mesh one = cases::distort(exo::grid(1, 1, 1), 1), two = cases::distort(exo::grid(2, 1, 1), 2);
  for (int mask = 0; mask < 256; mask++)
    for (int order = 0; order < 3; order++)
      for (int ndf = 0; ndf < 2; ndf++)
        for (int nm = 0; nm < 3; nm++) {
          Mesh m = one;
          exo::NodeSet s;
          s.id   = nm == 1 ? 40 : 3;
          s.name = nm == 0 ? "" : nm == 1 ? "left side" : c32;
          for (int k = 0; k < 8; k++)
            if (mask >> k & 1) s.nodes.push_back(k);
          if (order == 1) std::reverse(s.nodes.begin(), s.nodes.end());
          if (order == 2 && s.nodes.size() > 1) std::rotate(s.nodes.begin(), s.nodes.begin() + 1, s.nodes.end());
          s.ndf = ndf ? -1 : 0;
          for (size_t k = 0; k < s.nodes.size(); k++) s.df.push_back(0.5 + k);
          m.nsets.push_back(s);
          sm.push_back({"sets nodes " + ints(s.nodes) + (ndf ? " with" : " without") + " factors name " + std::to_string(nm), m});
        }
  // two sets: every pair of subsets of four nodes (equal, overlapping, empty)
  for (int a = 0; a < 16; a++)
    for (int b = 0; b < 16; b++)
      for (int sw = 0; sw < (th ? 4 : 2); sw++) {
        Mesh m = two;
        exo::NodeSet s, t;
        s.id = sw & 1 ? 20 : 1;
        t.id = sw & 1 ? 5 : 2;
        for (int k = 0; k < 4; k++) {
          if (a >> k & 1) s.nodes.push_back(3 * k);
          if (b >> k & 1) t.nodes.push_back(k == 3 ? 9 : 11 - k);
        }
        s.ndf = sw & 2 ? 0 : -1;
        t.ndf = a & 1 ? 0 : -1;
        t.name = "t";
        m.nsets = {s, t};
        sm.push_back({"sets pair " + ints(s.nodes) + " " + ints(t.nodes) + " " + std::to_string(sw), m});
      }
  for (int mask = 0; mask < 4096; mask++)
    for (int ndf = 0; ndf < 2; ndf++) {
      Mesh m = two;
      exo::SideSet s, t;
      s.id   = 6;
      t.id   = 2;
      t.name = c32;
      for (int k = 0; k < 12; k++)
        if (mask >> k & 1) {
          auto& u = k % 5 == 4 ? t : s;
          u.elems.push_back(k % 2);
          u.sides.push_back(1 + k / 2);
        }
      s.ndf = ndf ? -1 : 0;
      t.ndf = ndf ? 0 : -1;
      m.ssets = {s, t};
      if (mask & 1) {
        exo::NodeSet n;
        n.id    = 2;
        n.nodes = {5, 2};
        m.nsets = {n};
      }
      sm.push_back({"sets sides " + std::to_string(mask) + " " + std::to_string(ndf), m});
    }
  ss.n        = sm.size();
  ss.describe = [&](size_t i) { return sm[i].first; };
  ss.fn       = [&](size_t i, Ctx& x) { check(sm[i].first, sm[i].second, x); };
  vh::run(ss);

  // coordinates: every special value in every position
  std::vector<double> vals{0.0, -0.0, 1.0 / 3, -1e-300, 5e-324, 1e300, -1.7976931348623157e308, 3.0000000000000004, 1e16 + 2};
  Stage sc;
  sc.name        = "coordinates";
  sc.worker_init = init_dir;
  sc.worker_fini = fini_dir;
  sc.chunk       = 16;
  sc.n           = vals.size() * 24;
  sc.describe    = [&](size_t i) { return "coordinates " + std::to_string(i % 24) + " = " + fmt(vals[i / 24]); };
  sc.fn          = [&](size_t i, Ctx& x) {
    Mesh m = one;
    m.X[i % 8][i / 8 % 3] = vals[i / 24];
    check(sc.describe(i), m, x);
  };
  vh::run(sc);

  // pieces of every distribution of four elements in two blocks over three processes
  Stage sp;
  sp.name        = "pieces";
  sp.worker_init = init_dir;
  sp.worker_fini = fini_dir;
  sp.chunk       = 16;
  sp.n           = 81 * 2 * 2;
  sp.describe    = [&](size_t i) { return "pieces distribution " + std::to_string(i % 81) + " order " + std::to_string(i / 81 % 2) + " blocks " + std::to_string(i / 162); };
  sp.fn          = [&](size_t i, Ctx& x) {
    Mesh m = exo::assign_blocks(base, i / 162 ? std::vector<int>{0, 1, 1, 0} : std::vector<int>{0, 0, 0, 0}, {4, 2}, {"", "two"});
    cases::sets(m);
    m.nsets[1].name = "third";
    std::vector<int> part;
    size_t           t = i % 81;
    for (int k = 0; k < 4; k++, t /= 3) part.push_back(t % 3);
    for (auto& p : exo::split(m, part, 3, i / 81 % 2)) check(sp.describe(i), p, x);
  };
  vh::run(sp);

  // the text form
  Stage sx;
  sx.name        = "text";
  sx.worker_init = init_dir;
  sx.worker_fini = fini_dir;
  sx.chunk       = 16;
  sx.n           = 81 * 3 * 3 * 4;
  sx.describe    = [&](size_t i) { return "text blocks " + std::to_string(i % 81) + " layout " + std::to_string(i / 81 % 3) + " ids " + std::to_string(i / 243 % 3) + " maps " + std::to_string(i / 729); };
  sx.fn          = [&](size_t i, Ctx& x) {
    std::vector<int> blk;
    size_t           t = i % 81;
    for (int k = 0; k < 4; k++, t /= 3) blk.push_back(t % 3);
    Mesh m = exo::assign_blocks(base, blk, idsets[i / 243 % 3], i / 243 % 3 == 1 ? names[1] : names[0]);
    int  mp = i / 729;
    m.node_ids = idmap(m.X.size(), mp % 2 ? 1 : 0);
    m.elem_ids = idmap(4, mp / 2 ? 2 : 0);
    cases::sets(m);
    if (i % 2) m.nsets[1].nodes = {};
    m.nsets[2].name = "last_two";
    write_file(dir + "/m.txt", text_of(m, i / 81 % 3));
    Quiet q;
    std::string bad;
    nimble::GenesisMesh g;
    try {
      g.ReadTextFile(dir + "/m");
      bad = compare(g, m, true);
    } catch (std::exception& ex) { bad = std::string("refused|a supported mesh is refused: ") + ex.what(); }
    x.evaluations++;
    x.executions++;
    x.distinct(hash_str(sx.describe(i)));
    if (!bad.empty()) x.violation(bad.substr(0, bad.find('|')) + " of text", sx.describe(i) + ": " + bad.substr(bad.find('|') + 1));
  };
  vh::run(sx);

  // whole runs of meshes the program cannot use
  struct Bad
  {
    std::string                             what;
    std::function<void(const std::string&)> make;  // writes m.g in a directory
    Mesh                                    m;     // for the deck
  };
  std::vector<Bad> bads;
  auto raw = [&](const std::string& what, const std::string& type, int npe, std::vector<int> conn, int nn, int dim, bool second) {
    Mesh m = one;
    while ((int)m.X.size() < nn) m.X.push_back({{0.01 * m.X.size(), 0.5, 0.3}});
    m.dim = dim;
    exo::Block b;
    b.id   = 2;
    b.type = type;
    b.npe  = npe;
    b.raw  = conn;
    if (second) m.blocks.push_back(b);
    else {
      b.id     = 1;
      m.blocks = {b};
    }
    if (dim == 2) m.nsets.clear();
    bads.push_back({what + (second ? " beside hexahedra" : ""), [m](const std::string& d) { if (!exo::write_genesis(d + "/m.g", m).empty()) _exit(3); }, m});
  };
  std::vector<int> seq(27);
  std::iota(seq.begin(), seq.end(), 0);
  auto head = [&](int n) { return std::vector<int>(seq.begin(), seq.begin() + n); };
  for (int second = 0; second < 2; second++) {
    raw("TET4", "TET4", 4, {0, 1, 3, 4}, 8, 3, second);
    raw("two TET4 (eight nodes)", "TET4", 4, {0, 1, 3, 4, 1, 2, 3, 6}, 8, 3, second);
    raw("TET10", "TET10", 10, head(10), 10, 3, second);
    raw("WEDGE6", "WEDGE6", 6, {0, 1, 2, 4, 5, 6}, 8, 3, second);
    raw("PYRAMID5", "PYRAMID5", 5, {0, 1, 2, 3, 4}, 8, 3, second);
    raw("HEX20", "HEX20", 20, head(20), 20, 3, second);
    raw("HEX27", "HEX27", 27, head(27), 27, 3, second);
    raw("SHELL4", "SHELL4", 4, {0, 1, 2, 3}, 8, 3, second);
    raw("SPHERE", "SPHERE", 1, {0}, 8, 3, second);
    raw("BAR2", "BAR2", 2, {0, 1}, 8, 3, second);
    raw("TRI3", "TRI3", 3, {0, 1, 2}, 8, 3, second);
  }
  raw("QUAD4 in the plane", "QUAD4", 4, {0, 1, 2, 3}, 8, 2, false);
  raw("TRI3 in the plane", "TRI3", 3, {0, 1, 2}, 8, 2, false);
  raw("QUAD8 in the plane", "QUAD8", 8, head(8), 8, 2, false);
  for (int k = 0; k < 6; k++) {
    Mesh m = one;
    if (k == 0 || k == 4) m.aux_node_map = idmap(8, 1);
    if (k == 1 || k == 5) m.aux_elem_map = {1};
    if (k == 2 || k == 3) { m.aux_node_map = idmap(8, 1); m.aux_elem_map = {1}; }
    if (k == 0 || k == 2) m.aux_node_name = "other";
    if (k == 1 || k == 3) m.aux_elem_name = "other";
    if (k > 3) m.aux_copies = 2;
    bads.push_back({"auxiliary maps " + std::to_string(k), [m](const std::string& d) { if (!exo::write_genesis(d + "/m.g", m).empty()) _exit(3); }, one});
  }
  bads.push_back({"missing mesh file", [](const std::string&) {}, one});
  bads.push_back({"directory instead of a mesh file", [](const std::string& d) { mkdir((d + "/m.g").c_str(), 0755); }, one});
  bads.push_back({"empty mesh file", [](const std::string& d) { write_file(d + "/m.g", ""); }, one});
  bads.push_back({"text instead of a mesh file", [](const std::string& d) { write_file(d + "/m.g", "number_of_nodes 8\nnode_coordinates\n"); }, one});
  bads.push_back({"binary junk instead of a mesh file", [](const std::string& d) { write_file(d + "/m.g", std::string("\x7f" "ELF\x02\x01\x01\0\0\0\0\0", 12) + std::string(4000, '\x5a')); }, one});
  Stage sr;
  sr.name     = "refused";
  sr.n        = bads.size() * 2;
  sr.chunk    = 1;
  sr.describe = [&](size_t i) { return bads[i / 2].what + (i % 2 ? " (two processes)" : ""); };
  sr.fn       = [&](size_t i, Ctx& x) {
    std::string d = scratch_dir("c08b");
    auto&       b = bads[i / 2];
    int         np = 1 + i % 2;
    b.make(d);
    if (np == 2) {
      // the first process has a proper piece
      rename((d + "/m.g").c_str(), (d + "/m.g.2.1").c_str());
      if (!exo::write_genesis(d + "/m.g.2.0", one).empty()) _exit(3);
    }
    ref::Deck dk;
    dk.steps = 2;
    if (b.m.blocks.size() > 1) dk.block_mat[2] = 0;
    write_file(d + "/d.in", ref::deck_text(dk, b.m));
    auto o = e2e::run(d, {"d.in"}, np);
    x.evaluations++;
    x.executions++;
    x.distinct(hash_str(sr.describe(i)));
    x.outcome(hash_str(std::to_string(o.status)));
    if (o.status == 0 || o.status == -1000) x.violation("accepted " + b.what, "a run on " + sr.describe(i) + (o.status ? " does not end" : " ends as if it had succeeded"));
    else if (o.status == -11 || o.status == -8) x.violation("crash " + b.what, "a run on " + sr.describe(i) + " crashes with signal " + std::to_string(-o.status) + " instead of a message");
    else if (o.log.find("rror") == std::string::npos && o.log.find("terminate called") == std::string::npos && o.log.find("not supported") == std::string::npos && o.log.find("unsupported") == std::string::npos)
      x.violation("no message " + b.what, "a run on " + sr.describe(i) + " ends with status " + std::to_string(o.status) + " without a message: " + o.log.substr(0, 300));
    remove_tree(d);
  };
  vh::run(sr);

  // every prefix and every single-bit corruption of the header of a file: either refused, or read as the library reads it
  Mesh dm = one;
  cases::sets(dm);
  dm.nsets[2].name = "left";
  exo::SideSet dside;
  dside.elems = {0, 0};
  dside.sides = {2, 5};
  dside.name  = "skin";
  dm.ssets    = {dside};
  std::string image;
  {
    std::string d = scratch_dir("c08i");
    if (!exo::write_genesis(d + "/m.g", dm).empty()) return 3;
    image = read_file(d + "/m.g");
    remove_tree(d);
  }
  // the header ends where the coordinates start
  std::string pat;
  for (int n = 0; n < 8; n++)
    for (int i = 7; i >= 0; i--) pat += ((const char*)&dm.X[n][0])[i];
  size_t header = image.find(pat);
  if (header == std::string::npos) return 3;
  Stage sd;
  sd.name        = "damaged";
  sd.worker_init = init_dir;
  sd.worker_fini = fini_dir;
  sd.chunk       = 64;
  sd.n           = header * 9;
  sd.describe    = [&](size_t i) { return i < header ? "first " + std::to_string(i) + " bytes of a mesh file" : "mesh file with bit " + std::to_string((i - header) % 8) + " of byte " + std::to_string((i - header) / 8) + " flipped"; };
  sd.fn          = [&](size_t i, Ctx& x) {
    std::string s = image;
    if (i < header) s.resize(i);
    else s[(i - header) / 8] ^= 1 << (i - header) % 8;
    write_file(dir + "/d.g", s);
    auto limit = [] {
      struct rlimit r = {1ul << 29, 1ul << 29};
      setrlimit(RLIMIT_AS, &r);
    };
    std::string pay;
    int st = run_child(
        [&](int fd) -> int {
          limit();
          nimble::GenesisMesh g;
          g.ReadFile(dir + "/d.g");
          (void)!write(fd, "read", 4);
          Mesh m;
          auto e = library_view(dir + "/d.g", m);
          if (!e.empty()) {
            (void)!write(fd, e.data(), e.size());
            return 7;
          }
          std::set<int> bi, ni, si;
          for (auto& b : m.blocks) bi.insert(b.id);
          for (auto& b : m.nsets) ni.insert(b.id);
          for (auto& b : m.ssets) si.insert(b.id);
          // the library's own view is inconsistent
          if (m.dim != 3 || m.X.empty() || m.nelem() != (int)m.elem_ids.size() || bi.size() != m.blocks.size() || ni.size() != m.nsets.size() || si.size() != m.ssets.size()) return 0;
          auto c = compare(g, m, false);
          (void)!write(fd, c.data(), c.size());
          return c.empty() ? 0 : 8;
        },
        &pay, 20);
    x.evaluations++;
    x.executions++;
    x.outcome(hash_str(std::to_string(st)));
    x.count(st == 0 ? "damaged files read as the library reads them" : "damaged files refused");
    bool was_read = pay.substr(0, 4) == "read";
    if (st == -1000) x.violation("hang on damaged file", "reading the " + sd.describe(i) + " does not end");
    else if (was_read && (st == 7 || (st == 8 && i >= header))) x.violation(st == 7 ? "damaged file read" : "damaged file read differently", "the " + sd.describe(i) + (st == 7 ? " is read without complaint although this fails in the library: " : " is read as a different mesh: ") + pay.substr(4));
  };
  vh::run(sd);
  note("bounds", "81 assignments of 4 elements to 3 blocks x ids x names x maps x auxiliary maps; all node subsets of a hexahedron; pairs of subsets; side subsets; 81 distributions over 3 processes");
  return finish();
}
