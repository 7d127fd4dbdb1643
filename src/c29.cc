// C29: the contact visualization file of whole runs of two bodies running into each other.
#include <nimble.h>
#include <unistd.h>

#include "cases.h"
#include "contact.h"
#include "contact_run.h"
#include "e2e.h"
#include "mpisim.h"
#include "ref.h"
using namespace vh;
using namespace contact;

// the search also says which entities are not in contact
struct Telling : Logging
{
  void
  DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement e) override
  {
    for (size_t i = 0; i < n.extent(0); i++) n(i).set_contact_status(false);
    for (size_t i = 0; i < f.extent(0); i++) f(i).set_contact_status(false);
    Logging::DoSearchAndEnforcement(n, f, e);
  }
};
struct App : nimble::NimbleApplication
{
  std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override { return std::make_unique<Telling>(); }
};
struct RunCase
{
  World            w;
  ref::Deck        d;
  std::vector<int> part;
  int              np = 1, vis = 1;  // 0: not asked for, 1: on, 2: off in the deck, 3: on but no contact
  std::string      contact, file = "vis.e", name;
};
static const char*
vis_line(int v)
{
  return v == 0 ? "" : v == 2 ? "off" : "on";
}
static std::string
out_name(const std::string& f)
{
  size_t n = f.size();
  bool   e = n > 2 && (f.substr(n - 2) == ".e" || f.substr(n - 2) == ".g");
  return (e ? f.substr(0, n - 2) : f) + ".out.e";
}
struct Outcome
{
  e2e::Outcome                    o;
  std::vector<exo::Results>       res, vis;
  std::vector<std::vector<Event>> ev;  // of each process
  std::vector<std::string>        files;
};
static Outcome
go(const RunCase& c, const std::vector<exo::Mesh>& parts, int vis)
{
  Outcome     r;
  int         np  = parts.size();
  std::string dir = scratch_dir("c29");
  for (int p = 0; p < np; p++) {
    std::string e = exo::write_genesis(dir + "/" + cases::piece("m.g", np, p), parts[p]);
    if (!e.empty()) {
      fprintf(stderr, "cannot write mesh: %s\n", e.c_str());
      _exit(3);
    }
  }
  auto d  = c.d;
  d.extra = vis == 3 ? "" : c.contact;
  if (vis) d.extra += std::string("contact visualization: visualize_contact_entities ") + vis_line(vis) + " visualize_bounding_boxes off file_name " + c.file + "\n";
  write_file(dir + "/d.in", ref::deck_text(d, c.w.m));
  r.o = e2e::run(dir, {"d.in"}, np, 60, {}, {}, [] { return std::unique_ptr<nimble::NimbleApplication>(new App); });
  if (r.o.ok())
    for (int p = 0; p < np; p++) {
      std::string        t = read_file(dir + "/events." + std::to_string(p));
      std::vector<Event> l;
      for (size_t i = 0; i + sizeof(Event) <= t.size(); i += sizeof(Event)) {
        Event e;
        memcpy(&e, &t[i], sizeof e);
        l.push_back(e);
      }
      r.ev.push_back(l);
      r.res.push_back(exo::read_results(dir + "/" + cases::piece("m.out.e", np, p)));
      std::string v = dir + "/" + cases::piece(out_name(c.file), np, p);
      bool there    = access(v.c_str(), F_OK) == 0;
      if (there) {
        r.vis.push_back(exo::read_results(v));
        r.files.push_back(v);
      }
    }
  remove_tree(dir);
  return r;
}
typedef std::array<int, 3> Tri;  // corner, corner, element of the whole body
struct Ids
{
  std::map<Tri, int> tri;
  std::map<int, int> node;
};
static void
check(const RunCase& c, const std::vector<exo::Mesh>& parts, const Outcome& r, Ids& ids, Ctx& x)
{
  size_t nn = c.w.m.X.size();
  int    np = parts.size();
  auto   bad = [&](const std::string& key, const std::string& t) { x.violation(key, t + " | " + c.name + (np == 1 && c.np > 1 ? ", unsplit" : "")); };
  if ((int)r.vis.size() != np) return bad("file", std::to_string(r.vis.size()) + " contact files for " + std::to_string(np) + " processes");
  auto          pf = skin(c.w.m, c.w.p), sf = skin(c.w.m, c.w.s);
  std::set<int> nodes, eids, nids;
  for (auto& f : sf) nodes.insert(f.n.begin(), f.n.end());
  std::map<V3, int> at;
  for (size_t i = 0; i < nn; i++) at[c.w.m.X[i]] = i;
  std::set<Tri> seen;
  std::set<int> seen_nodes;
  struct Item { int node = -1; int f = -1, t = -1, corner = -1; };
  for (int p = 0; p < np; p++) {
    auto& v   = r.vis[p];
    auto& res = r.res[p];
    if (!v.error.empty()) return bad("unreadable", v.error);
    if (v.block_ids != std::vector<int>{1, 2} || v.block_names != std::vector<std::string>{"contact_faces", "contact_nodes"}) return bad("blocks", "blocks of a contact file are not those of faces and nodes");
    if (v.block_n[0] && v.block_npe[0] != 3) return bad("blocks", "faces are not triangles");
    if (v.block_n[1] && v.block_npe[1] != 1) return bad("blocks", "node elements do not have one node");
    if (v.nn != 3 * v.block_n[0] + v.block_n[1]) return bad("count", std::to_string(v.nn) + " nodes for " + std::to_string(v.block_n[0]) + " faces and " + std::to_string(v.block_n[1]) + " nodes");
    if (v.times != res.times) bad("times", std::to_string(v.times.size()) + " time planes, the results file has " + std::to_string(res.times.size()) + ", or at other times");
    std::vector<Item> items(v.nn);
    std::vector<int>  used(v.nn, 0);
    auto              pos = [&](int i) { return V3{{v.x[i], v.y[i], v.z[i]}}; };
    std::map<std::array<int, 2>, int> tri_elem;
    for (int e = 0; e < v.block_n[0]; e++) {
      int q[3];
      for (int k = 0; k < 3; k++) {
        q[k] = v.conn[0][3 * e + k] - 1;
        if (q[k] < 0 || q[k] >= v.nn || used[q[k]]++) return bad("connectivity", "a node of a contact file belongs to no or to several elements");
      }
      auto ia = at.find(pos(q[0])), ib = at.find(pos(q[1]));
      int  f = -1, t = -1;
      if (ia != at.end() && ib != at.end())
        for (size_t k = 0; k < pf.size(); k++)
          for (int s = 0; s < 4; s++)
            if (pf[k].n[s] == ia->second && pf[k].n[(s + 1) % 4] == ib->second && len(sub(pf[k].center, pos(q[2]))) < 1e-12 * (1 + len(pf[k].center))) f = k, t = s;
      if (f < 0) return bad("face", "a triangle that is not on the skin of the primary blocks");
      Tri id{{ia->second, ib->second, pf[f].elem}};
      if (!seen.insert(id).second) bad("face", "a triangle occurs twice");
      for (int k = 0; k < 3; k++) {
        items[q[k]].f = f;
        items[q[k]].t = t;
        items[q[k]].corner = k;
      }
      int g = v.elem_map.size() > (size_t)e ? v.elem_map[e] : -1;
      if (!eids.insert(g).second) bad("identifier", "element identifier " + std::to_string(g) + " is used twice");
      ids.tri[id] = g;
    }
    for (int e = 0; e < v.block_n[1]; e++) {
      int q = v.conn[1][e] - 1;
      if (q < 0 || q >= v.nn || used[q]++) return bad("connectivity", "a node of a contact file belongs to no or to several elements");
      auto it = at.find(pos(q));
      if (it == at.end() || !nodes.count(it->second)) return bad("node", "a contact node that is not on the skin of the secondary blocks");
      if (!seen_nodes.insert(it->second).second) bad("node", "a contact node occurs twice");
      items[q].node = it->second;
      size_t k = v.block_n[0] + e;
      int    g = v.elem_map.size() > k ? v.elem_map[k] : -1;
      if (!eids.insert(g).second) bad("identifier", "element identifier " + std::to_string(g) + " is used twice");
      ids.node[it->second] = g;
    }
    for (int i = 0; i < v.nn; i++) {
      int g = v.node_map.size() > (size_t)i ? v.node_map[i] : -1;
      if (!nids.insert(g).second) bad("identifier", "node identifier " + std::to_string(g) + " is used twice");
    }
    // the planes
    std::map<int, int> local;
    for (size_t i = 0; i < parts[p].X.size(); i++) local[np == 1 ? (int)i : parts[p].node_ids[i] - 1] = i;
    int iu[3], it = v.nv("contact_status"), ju[3];
    for (int k = 0; k < 3; k++) {
      iu[k] = v.nv(std::string("displacement_") + "xyz"[k]);
      ju[k] = res.nv(std::string("displacement_") + "xyz"[k]);
    }
    if (v.nn && (iu[0] < 0 || iu[1] < 0 || iu[2] < 0 || it < 0 || v.nvars.size() != 4)) return bad("variables", "the nodal variables are not displacement and status");
    if (v.gvars != std::vector<std::string>{"num_contacts"}) return bad("variables", "the global variable is not the number of contacts");
    double dt = (c.d.t1 - c.d.t0) / c.d.steps;
    for (size_t s = 0; s < v.times.size() && s < res.times.size(); s++) {
      int             call = (int)std::lround((v.times[s] - c.d.t0) / dt);
      std::vector<V3> cur(nn);
      std::vector<int> have(nn, 0);
      for (auto& l : local) {
        for (int k = 0; k < 3; k++) cur[l.first][k] = c.w.m.X[l.first][k] + res.nodal[s][ju[k]][l.second];
        have[l.first] = 1;
      }
      std::set<std::array<int, 2>> hit_tri;
      std::set<int>                hit_node;
      for (auto& e : r.ev[p])
        if (e.call == call) {
          for (size_t i = 0; i < nn; i++)
            if (have[i] && nodes.count(i) && len(sub(cur[i], e.node)) < 1e-9) hit_node.insert(i);
          for (size_t k = 0; k < pf.size(); k++)
            for (int t = 0; t < 4; t++)
              if (have[pf[k].n[t]] && have[pf[k].n[(t + 1) % 4]] && len(sub(cur[pf[k].n[t]], e.a)) < 1e-9 && len(sub(cur[pf[k].n[(t + 1) % 4]], e.c)) < 1e-9) hit_tri.insert({{(int)k, t}});
        }
      double n = v.global.size() > s && v.global[s].size() ? v.global[s][0] : -1;
      x.evaluations++;
      if (n != (double)hit_tri.size()) bad("number", fmt(n) + " contacts instead of " + std::to_string(hit_tri.size()) + " in plane " + std::to_string(s));
      x.count(hit_tri.empty() ? "planes without contact" : "planes with contact");
      for (int i = 0; i < v.nn; i++) {
        auto& m = items[i];
        V3    u{{0, 0, 0}};
        bool  know = true;
        auto  disp = [&](int g) {
          know = know && have[g];
          return sub(cur[g], c.w.m.X[g]);
        };
        if (m.node >= 0) u = disp(m.node);
        else if (m.corner < 2) u = disp(pf[m.f].n[(m.t + m.corner) % 4]);
        else
          for (int g : pf[m.f].n) u = add(u, mul(0.25, disp(g)));
        if (!know) {
          bad("owner", "a process writes an entity on nodes it does not have");
          return;
        }
        for (int k = 0; k < 3; k++) {
          x.evaluations++;
          double g = v.nodal[s][iu[k]][i];
          if (!(std::fabs(g - u[k]) <= 1e-12 * (1 + len(c.w.m.X[0]) + std::fabs(u[k])) * 10)) return bad("displacement", "displacement " + fmt(g) + " instead of " + fmt(u[k]) + " in plane " + std::to_string(s));
        }
        bool in = m.node >= 0 ? hit_node.count(m.node) : hit_tri.count({{m.f, m.t}});
        if (v.nodal[s][it][i] != (in ? 1.0 : 0.0)) return bad("status", std::string(m.node >= 0 ? "node" : "face") + " in contact: " + fmt(v.nodal[s][it][i]) + " instead of " + (in ? "1" : "0") + " in plane " + std::to_string(s));
      }
      std::vector<double> flat{n};
      for (auto& q : v.nodal[s]) flat.insert(flat.end(), q.begin(), q.end());
      x.state(hash_dbl(flat.data(), flat.size()));
    }
  }
  if (seen.size() != 4 * pf.size()) bad("face", std::to_string(seen.size()) + " triangles instead of " + std::to_string(4 * pf.size()));
  if (seen_nodes != nodes) bad("node", std::to_string(seen_nodes.size()) + " contact nodes instead of " + std::to_string(nodes.size()));
}
static bool
same(const exo::Results& a, const exo::Results& b)
{
  return a.error == b.error && a.times == b.times && a.nvars == b.nvars && a.nodal == b.nodal && a.elem == b.elem && a.x == b.x && a.conn == b.conn;
}
static void
whole_run(const RunCase& c, Ctx& x)
{
  auto parts = c.np > 1 ? exo::split(c.w.m, c.part, c.np) : std::vector<exo::Mesh>{c.w.m};
  x.distinct(hash_str(c.name));
  x.sample(c.name);
  auto r = go(c, parts, c.vis);
  x.executions++;
  x.transitions += c.d.steps;
  if (!r.o.ok()) {
    x.violation("status", "the run ended with status " + std::to_string(r.o.status) + " " + r.o.log.substr(r.o.log.size() > 300 ? r.o.log.size() - 300 : 0) + " | " + c.name);
    return;
  }
  for (auto& q : r.res)
    if (!q.error.empty()) x.violation("results", q.error + " | " + c.name);
  // asking for it changes nothing else
  auto off = go(c, parts, c.vis == 3 ? 3 : 0);
  x.executions++;
  if (c.vis != 3) {
    if (!off.o.ok() || off.res.size() != r.res.size()) x.violation("status", "the run without the contact file fails | " + c.name);
    else
      for (size_t p = 0; p < r.res.size(); p++)
        if (!same(r.res[p], off.res[p])) x.violation("results", "the results differ from those of a run without contact file | " + c.name);
    if (off.vis.size()) x.violation("unasked", "a contact file nobody asked for | " + c.name);
  }
  if (c.vis != 1) {
    if (r.vis.size()) x.violation("unasked", "a contact file nobody asked for | " + c.name);
    return;
  }
  Ids a;
  check(c, parts, r, a, x);
  if (c.np > 1) {
    Ids  b;
    auto w = go(c, {c.w.m}, 1);
    x.executions++;
    if (!w.o.ok()) {
      x.violation("status", "the unsplit run ended with status " + std::to_string(w.o.status) + " | " + c.name);
      return;
    }
    check(c, {c.w.m}, w, b, x);
    if (a.tri != b.tri || a.node != b.node) x.violation("identifier", "the identifiers differ from those of the unsplit run | " + c.name);
  }
}
int
main(int argc, char** argv)
{
  init(argc, argv);
  bool                 th = opt.thorough();
  std::vector<RunCase> cs;
  auto                 ws = worlds();
  for (auto& w : worlds(true)) ws.push_back(w);
  std::vector<std::array<double, 3>> vs{{{0, 0, 3}}, {{0.7, -0.4, 4}}, {{-1.1, 0.9, 2.5}}, {{0, 0, -1}}};
  for (size_t w = 0; w < ws.size(); w++)
    for (size_t v = 0; v < vs.size(); v++)
      for (int vis = 0; vis < 4; vis++)
        for (int ids = 0; ids < 3; ids++)
          for (int freq : {1, 3, 20})
            for (int np = 1; np <= (!vh::with_mpi ? 1 : th ? 4 : 3); np++) {
              auto&  m  = ws[w].m;
              int    ne = m.nelem();
              if (vis != 1 && (v || ids == 1 || freq == 20)) continue;
              if (np > 1 && (freq == 20 || (!th && ids == 1))) continue;
              if (np > 2 && !th && (v % 2 || freq != 1)) continue;
              size_t nq = distributions(ws[w], np);
              for (size_t q = 0; q < nq; q++) {
                RunCase c;
                c.w = ws[w];
                c.np = np;
                c.vis = vis;
                std::set<int> used;
                for (int e = 0; e < ne; e++) {
                  c.part.push_back(owner(ws[w], np, q, e));
                  used.insert(c.part.back());
                }
                if ((int)used.size() < np) continue;
                if (np > 1 || ids) {
                  for (size_t i = 0; i < m.X.size(); i++) c.w.m.node_ids.push_back(ids == 1 ? m.X.size() - i : ids == 2 && np == 1 ? 10 + 7 * i : i + 1);
                  for (int i = 0; i < ne; i++) c.w.m.elem_ids.push_back(ids == 1 && np == 1 ? 1000 - 30 * i : ids == 2 ? 5 + 3 * i : i + 1);
                }
                if (np > 1 && ids == 1)  // split() identifies nodes by position + 1
                  for (size_t i = 0; i < m.X.size(); i++) c.w.m.node_ids[i] = i + 1;
                exo::NodeSet s;
                s.id = 1;
                bool   below = c.w.name.find("below") != std::string::npos;
                for (size_t i = c.w.skip; i < m.X.size(); i++)
                  if ((i < c.w.skip + c.w.half) == below) s.nodes.push_back(i);
                c.w.m.nsets = {s};
                auto cst = [](double z) { return [z](double, double, double, double) { return z; }; };
                for (int k = 0; k < 3; k++) {
                  double z = (below ? 1 : -1) * vs[v][k];
                  c.d.bcs.push_back({ref::BC::IV, "nodelist_1", k, fmt(z), cst(z)});
                }
                c.d.mats         = cases::materials();
                c.d.block_mat[7] = (int)(v % 4);
                c.d.block_mat[3] = (int)((v + 1) % 4);
                c.d.steps        = th ? 14 : 9;
                c.d.freq         = freq;
                c.d.t1           = 0.02 * c.d.steps;
                c.d.fields       = {"displacement", "velocity", "contact_force"};
                if (vis == 3) c.d.fields.pop_back();
                std::string line = "contact: primary_blocks";
                for (int b : c.w.p) line += " block_" + std::to_string(b);
                line += " secondary_blocks";
                for (int b : c.w.s) line += " block_" + std::to_string(b);
                c.contact = line + " penalty_parameter 6.0\n";
                c.file    = (w + v + q) % 3 == 0 ? "vis.e" : (w + v + q) % 3 == 1 ? "a.contact.view.exo" : "contact_vis.e";
                c.name    = "run " + c.w.name + ", velocity " + std::to_string(v) + ", visualization " + std::to_string(vis) + ", identifiers " + std::to_string(ids) + ", output frequency " + std::to_string(freq) + ", processes";
                for (int p : c.part) c.name += " " + std::to_string(p);
                cs.push_back(c);
                if (q || v || vis != 1) continue;
                // many short steps
                c.d.steps = 150;
                c.d.t1    = 0.3;
                c.name += ", 150 steps";
                cs.push_back(c);
              }
            }
  Stage st;
  st.name         = "whole runs";
  st.n            = cs.size();
  st.describe     = [&](size_t i) { return cs[i].name; };
  st.fn           = [&](size_t i, Ctx& x) { whole_run(cs[i], x); };
  st.case_timeout = 60;
  vh::run(st);
  return finish();
}
