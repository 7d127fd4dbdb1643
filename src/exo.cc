#include "exo.h"

#include <exodusII.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <numeric>
#include <set>

namespace exo {
int
Mesh::nelem() const
{
  int n = 0;
  for (auto& b : blocks) n += b.raw.empty() ? b.conn.size() : b.raw.size() / b.npe;
  return n;
}
int
Mesh::block_offset(int k) const
{
  int n = 0;
  for (int i = 0; i < k; i++) n += blocks[i].conn.size();
  return n;
}

std::string
write_genesis(const std::string& path, const Mesh& m)
{
  int cpu = 8, io = 8;
  int id  = ex_create(path.c_str(), EX_CLOBBER, &cpu, &io);
  if (id < 0) return "ex_create";
  std::string err;
#define EXC(x) do { int r_ = (x); if (r_ < 0 && err.empty()) err = std::string(#x).substr(0, 40) + " -> " + std::to_string(r_); } while (0)
  int nn = m.X.size();
  EXC(ex_put_init(id, m.title.c_str(), m.dim, nn, m.nelem(), m.blocks.size(), m.nsets.size(), m.ssets.size()));
  const char* cn[3] = {"x", "y", "z"};
  std::vector<double> x(nn + 1), y(nn + 1), z(nn + 1);
  for (int i = 0; i < nn; i++) {
    x[i] = m.X[i][0];
    y[i] = m.X[i][1];
    z[i] = m.X[i][2];
  }
  if (nn) EXC(ex_put_coord(id, x.data(), y.data(), m.dim == 3 ? z.data() : nullptr));
  EXC(ex_put_coord_names(id, const_cast<char**>(cn)));
  for (auto& b : m.blocks) {
    int  npe = b.raw.empty() ? 8 : b.npe;
    size_t n = b.raw.empty() ? b.conn.size() : b.raw.size() / npe;
    EXC(ex_put_block(id, EX_ELEM_BLOCK, b.id, n == 0 ? "NULL" : b.type.c_str(), n, n == 0 ? 0 : npe, 0, 0, 0));
    std::vector<int> c;
    for (int k : b.raw) c.push_back(k + 1);
    if (c.empty())
    for (auto& e : b.conn)
      for (int k = 0; k < npe; k++) c.push_back(e[k] + 1);
    if (!c.empty()) EXC(ex_put_conn(id, EX_ELEM_BLOCK, b.id, c.data(), nullptr, nullptr));
    if (!b.name.empty()) EXC(ex_put_name(id, EX_ELEM_BLOCK, b.id, b.name.c_str()));
  }
  for (auto& s : m.nsets) {
    int ndf = s.ndf < 0 ? (int)s.nodes.size() : s.ndf;
    EXC(ex_put_set_param(id, EX_NODE_SET, s.id, s.nodes.size(), ndf));
    std::vector<int> v;
    for (int n : s.nodes) v.push_back(n + 1);
    if (!v.empty()) EXC(ex_put_set(id, EX_NODE_SET, s.id, v.data(), nullptr));
    std::vector<double> d(ndf, 1.0);
    for (int i = 0; i < ndf && i < (int)s.df.size(); i++) d[i] = s.df[i];
    if (ndf) EXC(ex_put_set_dist_fact(id, EX_NODE_SET, s.id, d.data()));
    if (!s.name.empty()) EXC(ex_put_name(id, EX_NODE_SET, s.id, s.name.c_str()));
  }
  for (auto& s : m.ssets) {
    int ndf = s.ndf < 0 ? 4 * (int)s.elems.size() : s.ndf;
    EXC(ex_put_set_param(id, EX_SIDE_SET, s.id, s.elems.size(), ndf));
    std::vector<int> e;
    for (int k : s.elems) e.push_back(k + 1);
    if (!e.empty()) EXC(ex_put_set(id, EX_SIDE_SET, s.id, e.data(), s.sides.data()));
    std::vector<double> d(ndf, 1.0);
    if (ndf) EXC(ex_put_set_dist_fact(id, EX_SIDE_SET, s.id, d.data()));
    if (!s.name.empty()) EXC(ex_put_name(id, EX_SIDE_SET, s.id, s.name.c_str()));
  }
  if (!m.node_ids.empty()) EXC(ex_put_id_map(id, EX_NODE_MAP, m.node_ids.data()));
  if (!m.elem_ids.empty()) EXC(ex_put_id_map(id, EX_ELEM_MAP, m.elem_ids.data()));
  if (!m.aux_node_map.empty() || !m.aux_elem_map.empty()) {
    int nm = m.aux_node_map.empty() ? 0 : m.aux_copies, em = m.aux_elem_map.empty() ? 0 : m.aux_copies;
    EXC(ex_put_map_param(id, nm, em));
    for (int k = 1; k <= nm; k++) {
      EXC(ex_put_num_map(id, EX_NODE_MAP, k, m.aux_node_map.data()));
      EXC(ex_put_name(id, EX_NODE_MAP, k, (k == 1 ? m.aux_node_name : m.aux_node_name + std::to_string(k)).c_str()));
    }
    for (int k = 1; k <= em; k++) {
      EXC(ex_put_num_map(id, EX_ELEM_MAP, k, m.aux_elem_map.data()));
      EXC(ex_put_name(id, EX_ELEM_MAP, k, (k == 1 ? m.aux_elem_name : m.aux_elem_name + std::to_string(k)).c_str()));
    }
  }
  EXC(ex_close(id));
#undef EXC
  return err;
}

int
Results::nv(const std::string& n) const
{
  for (size_t i = 0; i < nvars.size(); i++)
    if (nvars[i] == n) return i;
  return -1;
}
int
Results::ev(const std::string& n) const
{
  for (size_t i = 0; i < evars.size(); i++)
    if (evars[i] == n) return i;
  return -1;
}

Results
read_results(const std::string& path, bool planes)
{
  Results r;
  int     cpu = 8, io = 0;
  float   ver;
  int     old = ex_opts(0);
  int     id  = ex_open(path.c_str(), EX_READ, &cpu, &io, &ver);
  if (id < 0) {
    r.error = "cannot open " + path;
    return r;
  }
#define EXC(x) do { int r_ = (x); if (r_ < 0 && r.error.empty()) r.error = std::string(#x).substr(0, 40) + " -> " + std::to_string(r_); } while (0)
  char title[MAX_LINE_LENGTH + 1];
  int  nb = 0, nns = 0, nss = 0;
  EXC(ex_get_init(id, title, &r.dim, &r.nn, &r.ne, &nb, &nns, &nss));
  if (!r.error.empty()) {
    ex_close(id);
    return r;
  }
  r.x.resize(r.nn + 1);
  r.y.resize(r.nn + 1);
  r.z.resize(r.nn + 1);
  if (r.nn) EXC(ex_get_coord(id, r.x.data(), r.y.data(), r.z.data()));
  r.x.resize(r.nn);
  r.y.resize(r.nn);
  r.z.resize(r.nn);
  r.block_ids.resize(nb);
  if (nb) EXC(ex_get_ids(id, EX_ELEM_BLOCK, r.block_ids.data()));
  for (int i = 0; i < nb; i++) {
    char t[MAX_STR_LENGTH + 1] = "", nm[MAX_STR_LENGTH + 1] = "";
    int  n = 0, npe = 0, na = 0;
    EXC(ex_get_block(id, EX_ELEM_BLOCK, r.block_ids[i], t, &n, &npe, nullptr, nullptr, &na));
    ex_get_name(id, EX_ELEM_BLOCK, r.block_ids[i], nm);
    r.block_n.push_back(n);
    r.block_npe.push_back(npe);
    r.block_types.push_back(t);
    r.block_names.push_back(nm);
    std::vector<int> c(n * npe);
    if (n * npe) EXC(ex_get_conn(id, EX_ELEM_BLOCK, r.block_ids[i], c.data(), nullptr, nullptr));
    r.conn.push_back(c);
  }
  r.node_map.resize(r.nn);
  r.elem_map.resize(r.ne);
  if (r.nn) EXC(ex_get_id_map(id, EX_NODE_MAP, r.node_map.data()));
  if (r.ne) EXC(ex_get_id_map(id, EX_ELEM_MAP, r.elem_map.data()));
  r.ns_ids.resize(nns);
  if (nns) EXC(ex_get_ids(id, EX_NODE_SET, r.ns_ids.data()));
  for (int i = 0; i < nns; i++) {
    int n = 0, d = 0;
    EXC(ex_get_set_param(id, EX_NODE_SET, r.ns_ids[i], &n, &d));
    std::vector<int> v(n);
    if (n) EXC(ex_get_set(id, EX_NODE_SET, r.ns_ids[i], v.data(), nullptr));
    r.ns_nodes.push_back(v);
    std::vector<double> df(d);
    if (d) EXC(ex_get_set_dist_fact(id, EX_NODE_SET, r.ns_ids[i], df.data()));
    r.ns_df.push_back(df);
  }
  auto names = [&](ex_entity_type t, std::vector<std::string>& out) {
    int n = 0;
    EXC(ex_get_variable_param(id, t, &n));
    for (int k = 1; k <= n; k++) {
      char nm[MAX_STR_LENGTH + 1] = "";
      EXC(ex_get_variable_name(id, t, k, nm));
      out.push_back(nm);
    }
  };
  names(EX_GLOBAL, r.gvars);
  names(EX_NODAL, r.nvars);
  names(EX_ELEM_BLOCK, r.evars);
  r.truth.assign(nb * r.evars.size(), 0);
  if (nb && r.evars.size()) EXC(ex_get_truth_table(id, EX_ELEM_BLOCK, nb, r.evars.size(), r.truth.data()));
  int nt = ex_inquire_int(id, EX_INQ_TIME);
  if (nt < 0) {
    r.error = "cannot inquire the number of time planes";
    nt      = 0;
  }
  for (int s = 1; s <= nt; s++) {
    double t = 0;
    EXC(ex_get_time(id, s, &t));
    r.times.push_back(t);
    if (!planes) continue;
    r.global.emplace_back(r.gvars.size());
    if (!r.gvars.empty()) EXC(ex_get_var(id, s, EX_GLOBAL, 1, 0, r.gvars.size(), r.global.back().data()));
    r.nodal.emplace_back();
    for (size_t v = 0; v < r.nvars.size(); v++) {
      std::vector<double> d(r.nn + 1);
      if (r.nn) EXC(ex_get_var(id, s, EX_NODAL, v + 1, 1, r.nn, d.data()));
      d.resize(r.nn);
      r.nodal.back().push_back(d);
    }
    r.elem.emplace_back();
    for (int b = 0; b < nb; b++) {
      r.elem.back().emplace_back();
      for (size_t v = 0; v < r.evars.size(); v++) {
        std::vector<double> d;
        if (r.block_n[b] && r.truth[b * r.evars.size() + v]) {
          d.resize(r.block_n[b]);
          EXC(ex_get_var(id, s, EX_ELEM_BLOCK, v + 1, r.block_ids[b], r.block_n[b], d.data()));
        }
        r.elem.back().back().push_back(d);
      }
    }
  }
#undef EXC
  ex_close(id);
  ex_opts(old);
  return r;
}

Mesh
grid(int nx, int ny, int nz, double hx, double hy, double hz)
{
  Mesh m;
  for (int k = 0; k <= nz; k++)
    for (int j = 0; j <= ny; j++)
      for (int i = 0; i <= nx; i++) m.X.push_back({{i * hx, j * hy, k * hz}});
  Block b;
  auto  n = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
  for (int k = 0; k < nz; k++)
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++)
        b.conn.push_back({{n(i, j, k), n(i + 1, j, k), n(i + 1, j + 1, k), n(i, j + 1, k), n(i, j, k + 1), n(i + 1, j, k + 1), n(i + 1, j + 1, k + 1), n(i, j + 1, k + 1)}});
  m.blocks.push_back(b);
  return m;
}

Mesh
assign_blocks(const Mesh& m, const std::vector<int>& blk, const std::vector<int>& ids, const std::vector<std::string>& names)
{
  Mesh r = m;
  r.blocks.clear();
  r.elem_ids.clear();
  for (size_t k = 0; k < ids.size(); k++) {
    Block b;
    b.id = ids[k];
    if (k < names.size()) b.name = names[k];
    r.blocks.push_back(b);
  }
  int e = 0;
  for (auto& b : m.blocks)
    for (auto& c : b.conn) r.blocks[blk[e++]].conn.push_back(c);
  return r;
}

std::vector<Mesh>
split(const Mesh& m, const std::vector<int>& part, int nparts, bool rev)
{
  std::vector<Mesh> out;
  int               nn = m.X.size();
  for (int p = 0; p < nparts; p++) {
    Mesh             q;
    std::vector<int> used(nn, 0), loc(nn, -1);
    int              e = 0;
    for (auto& b : m.blocks)
      for (auto& c : b.conn) {
        if (part[e++] == p)
          for (int n : c) used[n] = 1;
      }
    std::vector<int> order;
    for (int i = 0; i < nn; i++)
      if (used[i]) order.push_back(i);
    if (rev) std::reverse(order.begin(), order.end());
    for (int i : order) {
      loc[i] = q.X.size();
      q.X.push_back(m.X[i]);
      q.node_ids.push_back(m.node_ids.empty() ? i + 1 : m.node_ids[i]);
    }
    e = 0;
    for (auto& b : m.blocks) {
      Block nb = b;
      nb.conn.clear();
      for (auto& c : b.conn) {
        if (part[e] == p) {
          auto d = c;
          for (int& n : d) n = loc[n];
          nb.conn.push_back(d);
          q.elem_ids.push_back(m.elem_ids.empty() ? e + 1 : m.elem_ids[e]);
        }
        e++;
      }
      q.blocks.push_back(nb);
    }
    for (auto& s : m.nsets) {
      NodeSet ns = s;
      ns.nodes.clear();
      for (int n : s.nodes)
        if (loc[n] >= 0) ns.nodes.push_back(loc[n]);
      q.nsets.push_back(ns);
    }
    out.push_back(q);
  }
  return out;
}
}  // namespace exo

namespace exo {
static std::string
num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::vector<std::string>
diff(const Results& p, const Results& w, double tol, const std::vector<int>& nmap, const std::vector<int>& emap)
{
  std::vector<std::string> bad;
  auto say = [&](const std::string& s) { if (bad.size() < 10) bad.push_back(s); };
  if (!p.error.empty()) { say("unreadable|" + p.error); return bad; }
  if (!w.error.empty()) { say("unreadable|" + w.error); return bad; }
  if (p.times.size() != w.times.size()) {
    say("planes|" + std::to_string(p.times.size()) + " time planes instead of " + std::to_string(w.times.size()));
    return bad;
  }
  for (size_t s = 0; s < p.times.size(); s++)
    if (!(std::fabs(p.times[s] - w.times[s]) <= 1e-12 * (1 + std::fabs(w.times[s])))) say("times|plane " + std::to_string(s) + " is stamped " + num(p.times[s]) + " instead of " + num(w.times[s]));
  std::map<int, int> wn;
  std::map<int, std::pair<int, int>> we;
  for (int i = 0; i < w.nn; i++) wn[w.node_map[i]] = i;
  int e = 0;
  for (size_t b = 0; b < w.block_n.size(); b++)
    for (int i = 0; i < w.block_n[b]; i++) we[w.elem_map[e++]] = {(int)b, i};
  if (p.nn) {
    std::set<std::string> a(p.nvars.begin(), p.nvars.end()), b(w.nvars.begin(), w.nvars.end());
    if (a != b) say("variables|the nodal variables differ");
  }
  for (auto& n : p.nvars) {
    int v = p.nv(n), u = w.nv(n);
    if (u < 0) continue;
    double sc = 0;
    // the scale of the whole vector, not of the component, decides what is rounding
    std::string stem = n.size() > 2 && n[n.size() - 2] == '_' ? n.substr(0, n.size() - 1) : n;
    for (auto& m : w.nvars)
      if (m.compare(0, stem.size(), stem) == 0)
        for (auto& s : w.nodal)
          for (double q : s[w.nv(m)]) sc = std::max(sc, std::fabs(q));
    sc = std::max(sc, 1e-6);
    for (size_t s = 0; s < p.times.size(); s++)
      for (int i = 0; i < p.nn; i++) {
        int id = nmap.empty() ? p.node_map[i] : nmap[i];
        if (!wn.count(id)) { say("ids|node " + std::to_string(i) + " carries the unknown identifier " + std::to_string(id)); continue; }
        double g = p.nodal[s][v][i], x = w.nodal[s][u][wn[id]];
        if (!(std::fabs(g - x) <= tol * sc)) {
          say("nodal " + n + "|" + n + " of node " + std::to_string(id) + " at plane " + std::to_string(s) + " is " + num(g) + " instead of " + num(x));
          break;
        }
      }
  }
  for (auto& n : p.evars) {
    int v = p.ev(n), u = w.ev(n);
    if (u < 0) { say("variables|element variable " + n + " is not in the whole run"); continue; }
    double sc = 1e-6;
    std::string stem = n.size() > 3 && n[n.size() - 3] == '_' ? n.substr(0, n.size() - 2) : n;
    for (auto& m : w.evars)
      if (m.compare(0, stem.size(), stem) == 0)
        for (auto& s : w.elem)
          for (auto& b : s)
            for (double q : b[w.ev(m)]) sc = std::max(sc, std::fabs(q));
    for (size_t s = 0; s < p.times.size(); s++) {
      int k0 = 0;
      for (size_t b = 0; b < p.block_n.size(); k0 += p.block_n[b], b++)
        for (int i = 0; i < p.block_n[b]; i++) {
          int k  = k0 + i;
          int id = emap.empty() ? p.elem_map[k] : emap[k];
          if (!we.count(id)) { say("ids|element " + std::to_string(k) + " carries the unknown identifier " + std::to_string(id)); continue; }
          auto q = we[id];
          bool ps = i < (int)p.elem[s][b][v].size(), ws = q.second < (int)w.elem[s][q.first][u].size();
          if (ps != ws) { say("element " + n + "|" + n + " of element " + std::to_string(id) + (ps ? " is stored" : " is not stored")); continue; }
          if (!ps) continue;
          double g = p.elem[s][b][v][i], x = w.elem[s][q.first][u][q.second];
          if (!(std::fabs(g - x) <= tol * sc)) {
            say("element " + n + "|" + n + " of element " + std::to_string(id) + " at plane " + std::to_string(s) + " is " + num(g) + " instead of " + num(x));
            i = p.block_n[b];
          }
        }
    }
  }
  if (p.ne)
    for (auto& n : w.evars)
      if (p.ev(n) < 0) say("variables|element variable " + n + " is missing");
  return bad;
}
}  // namespace exo

namespace exo {
std::vector<std::string>
mesh_diff(const Results& r, const Mesh& m)
{
  std::vector<std::string> bad;
  auto say = [&](const std::string& s) { if (bad.size() < 10) bad.push_back(s); };
  if (!r.error.empty()) return {"unreadable|" + r.error};
  if (r.dim != 3 || r.nn != (int)m.X.size() || r.ne != m.nelem()) return {"mesh size|the results file has dimension " + std::to_string(r.dim) + ", " + std::to_string(r.nn) + " nodes and " + std::to_string(r.ne) + " elements"};
  for (int i = 0; i < r.nn; i++)
    if (r.x[i] != m.X[i][0] || r.y[i] != m.X[i][1] || r.z[i] != m.X[i][2]) {
      say("coordinates|node " + std::to_string(i) + " is at " + num(r.x[i]) + " " + num(r.y[i]) + " " + num(r.z[i]) + " instead of " + num(m.X[i][0]) + " " + num(m.X[i][1]) + " " + num(m.X[i][2]));
      break;
    }
  for (int i = 0; i < r.nn; i++) {
    int id = !m.aux_node_map.empty() ? m.aux_node_map[i] : !m.node_ids.empty() ? m.node_ids[i] : i + 1;
    if (r.node_map[i] != id) {
      say("node map|node " + std::to_string(i) + " has identifier " + std::to_string(r.node_map[i]) + " instead of " + std::to_string(id));
      break;
    }
  }
  for (int i = 0; i < r.ne; i++) {
    int id = !m.aux_elem_map.empty() ? m.aux_elem_map[i] : !m.elem_ids.empty() ? m.elem_ids[i] : i + 1;
    if (r.elem_map[i] != id) {
      say("element map|element " + std::to_string(i) + " has identifier " + std::to_string(r.elem_map[i]) + " instead of " + std::to_string(id));
      break;
    }
  }
  if (r.block_ids.size() != m.blocks.size()) return {"blocks|" + std::to_string(r.block_ids.size()) + " blocks instead of " + std::to_string(m.blocks.size())};
  for (size_t b = 0; b < m.blocks.size(); b++) {
    auto& B = m.blocks[b];
    std::string nm = B.name.empty() ? "block_" + std::to_string(B.id) : B.name;
    if (r.block_ids[b] != B.id) say("blocks|block " + std::to_string(b) + " has the id " + std::to_string(r.block_ids[b]) + " instead of " + std::to_string(B.id));
    if (r.block_names[b] != nm) say("block names|block " + std::to_string(B.id) + " is named \"" + r.block_names[b] + "\" instead of \"" + nm + "\"");
    if (r.block_n[b] != (int)B.conn.size()) {
      say("blocks|block " + std::to_string(B.id) + " has " + std::to_string(r.block_n[b]) + " elements instead of " + std::to_string(B.conn.size()));
      continue;
    }
    if (B.conn.empty()) continue;
    if (r.block_npe[b] != 8 || r.block_types[b].substr(0, 3) != "HEX") say("blocks|block " + std::to_string(B.id) + " is made of " + r.block_types[b]);
    else
      for (size_t i = 0; i < B.conn.size() * 8; i++)
        if (r.conn[b][i] != B.conn[i / 8][i % 8] + 1) {
          say("connectivity|element " + std::to_string(i / 8) + " of block " + std::to_string(B.id) + " differs");
          break;
        }
  }
  std::vector<int> ns;
  for (auto& s : m.nsets) ns.push_back(s.id);
  if (r.ns_ids != ns) say("node sets|the node sets differ");
  else
    for (size_t k = 0; k < ns.size(); k++) {
      std::vector<int> v;
      for (int n : m.nsets[k].nodes) v.push_back(n + 1);
      if (v != r.ns_nodes[k]) say("node sets|the nodes of node set " + std::to_string(ns[k]) + " differ");
    }
  return bad;
}
}  // namespace exo
