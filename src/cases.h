// Decks and meshes shared by the whole-run harnesses.
#pragma once
#include <cmath>
#include <string>
#include "exo.h"
#include "ref.h"

namespace cases {
inline exo::Mesh
distort(exo::Mesh m, int k)
{
  // deterministic smooth distortion, none for k = 0
  for (auto& p : m.X) {
    double x = p[0], y = p[1], z = p[2];
    if (k == 1) p = {{x + 0.13 * y * z + 0.05 * x * y, y - 0.11 * x + 0.07 * z * x, z + 0.09 * x * y - 0.04 * y}};
    if (k == 2) p = {{0.7 * x + 3.0, 1.4 * y - 2.0 + 0.1 * x * x, 0.9 * z - 5 - 0.08 * x * y}};
  }
  return m;
}
inline std::vector<ref::BC>
conditions(int k)
{
  typedef ref::BC B;
  auto c = [](double v) { return [v](double, double, double, double) { return v; }; };
  std::vector<B> r;
  if (k >= 0) {
    r.push_back({B::IV, "nodelist_1", 0, "0.6", c(0.6)});
    r.push_back({B::IV, "nodelist_1", 1, "\"0.3*x - 0.2*z + 0.1\"", [](double x, double, double z, double) { return 0.3 * x - 0.2 * z + 0.1; }});
  }
  if (k == 3) {  // conditions on small sets first, on the whole body last
    auto iv = r;
    r.clear();
    r.push_back({B::PV, "nodelist_3", 1, "0.15", c(0.15)});
    r.push_back({B::PV, "nodelist_2", 0, "-0.4", c(-0.4)});
    r.push_back(iv[0]);
    r.push_back({B::PD, "nodelist_3", 2, "0.02", c(0.02)});
    r.push_back(iv[1]);
    r.push_back({B::PV, "nodelist_1", 2, "\"x > 1.2 ? 0.1*t : 0.2\"", [](double x, double, double, double t) { return x > 1.2 ? 0.1 * t : 0.2; }});
  }
  if (k == 1) {
    r.push_back({B::PV, "nodelist_2", 0, "-0.4", c(-0.4)});
    r.push_back({B::PD, "nodelist_2", 2, "\"0.2*t*(1 + y)\"", [](double, double y, double, double t) { return 0.2 * t * (1 + y); }});
  }
  if (k == 2) {
    r.push_back({B::PV, "nodelist_2", 0, "0.0", c(0)});
    r.push_back({B::PV, "nodelist_2", 1, "\"sin(3*t) + 0.1*x\"", [](double x, double, double, double t) { return std::sin(3 * t) + 0.1 * x; }});
    r.push_back({B::PD, "nodelist_3", 2, "0.02", c(0.02)});
  }
  return r;
}
inline void
sets(exo::Mesh& m)
{
  // 1: every node; 2: the first third; 3: the last node and the node before it
  int n = m.X.size();
  exo::NodeSet a, b, c;
  a.id = 1;
  b.id = 2;
  c.id = 3;
  for (int i = 0; i < n; i++) {
    a.nodes.push_back(i);
    if (i < n / 3) b.nodes.push_back(i);
  }
  c.nodes = {n - 1, n - 2};
  m.nsets = {a, b, c};
}

inline std::vector<std::string>
all_fields()
{
  std::vector<std::string> f{"displacement", "velocity", "acceleration", "internal_force", "external_force", "lumped_mass", "stress", "deformation_gradient", "volume", "reference_coordinate"};
  for (int i = 1; i <= 8; i++) f.push_back("ipt0" + std::to_string(i) + "_deformation_gradient");
  for (int i = 1; i <= 8; i += 3) f.push_back("ipt0" + std::to_string(i) + "_stress");
  return f;
}


inline std::vector<ref::Mat>
materials()
{
  std::vector<ref::Mat> mats(4);
  mats[1].law = "elastic";
  mats[1].rho = 2.5;
  mats[1].K   = 6;
  mats[1].G   = 4;
  mats[2].rho = 0.8;
  mats[2].K   = 20;
  mats[2].G   = 3;
  mats[3].law = "elastic";
  mats[3].K   = 3;
  mats[3].G   = 9;
  return mats;
}
// Bodies and decks far larger than the enumerated ones: many nodes, blocks, materials, sets, conditions, steps.
struct Large
{
  exo::Mesh   m;
  ref::Deck   d;
  std::string name;
};
inline exo::Mesh
wavy(exo::Mesh m)
{
  for (auto& p : m.X) {
    double x = p[0], y = p[1], z = p[2];
    p = {{x + 0.12 * std::sin(y + 2 * z), y - 0.1 * std::sin(1.3 * x + z), z + 0.11 * std::sin(x - 0.7 * y)}};
  }
  return m;
}
// n conditions of all kinds over the sets of the mesh after the first, each on one component
inline std::vector<ref::BC>
many_conditions(const exo::Mesh& m, int n)
{
  typedef ref::BC      B;
  std::vector<ref::BC> r;
  for (int i = 0; i < n; i++) {
    B b;
    b.type   = i % 3 == 0 ? B::PV : i % 3 == 1 ? B::PD : B::IV;
    b.set    = ref::set_name(m, 1 + i % ((int)m.nsets.size() - 1));
    b.comp   = (i / 2) % 3;
    double a = 0.01 * (i % 7 - 3);
    char   t[80];
    if (b.type == B::PD) {
      snprintf(t, sizeof t, "\"%.2f*sin(t)*(1 + sin(x))\"", a);
      b.f = [a](double x, double, double, double t) { return a * std::sin(t) * (1 + std::sin(x)); };
    } else {
      snprintf(t, sizeof t, "\"%.2f*cos(y + t)\"", a);
      b.f = [a](double, double y, double, double t) { return a * std::cos(y + t); };
    }
    b.text = t;
    r.push_back(b);
  }
  return r;
}
inline std::vector<Large>
large()
{
  std::vector<Large> r;
  auto add = [&](std::string name, int nx, int ny, int nz, int nb, int nmat, int nset, int ncond, int steps, int freq) {
    Large            q;
    std::vector<int> blk, ids;
    int              ne = nx * ny * nz;
    for (int e = 0; e < ne; e++) blk.push_back((e * 7) % nb);
    for (int b = 0; b < nb; b++) ids.push_back(b % 3 == 2 ? 1000 + b : 1 + (b * 5) % 97);
    q.m = exo::assign_blocks(wavy(exo::grid(nx, ny, nz)), blk, ids);
    int          n = q.m.X.size();
    exo::NodeSet all;
    all.id = 1;
    for (int i = 0; i < n; i++) all.nodes.push_back(i);
    q.m.nsets = {all};
    for (int s = 0; s < nset; s++) {
      exo::NodeSet t;
      t.id = s % 4 == 3 ? 2000 + s : 2 + s;
      if (s % 5 == 4) t.name = "set_of_a_rather_long_name_" + std::to_string(s);
      for (int i = 0; i < n; i++)
        if ((i * 3 + i / 7) % (nset + 2) == s) t.nodes.push_back(i);
      q.m.nsets.push_back(t);
    }
    q.d.mats.clear();
    for (int k = 0; k < nmat; k++) {
      ref::Mat t;
      t.law = k % 2 ? "elastic" : "neohookean";
      t.rho = 1 + 0.05 * k;
      t.K   = 10 - 0.1 * k;
      t.G   = 5 + 0.1 * k;
      q.d.mats.push_back(t);
    }
    for (int b = 0; b < nb; b++) q.d.block_mat[ids[b]] = (b * 3) % nmat;
    q.d.bcs.push_back({ref::BC::IV, "nodelist_1", 0, "\"0.05*sin(x + y)\"", [](double x, double y, double, double) { return 0.05 * std::sin(x + y); }});
    q.d.bcs.push_back({ref::BC::IV, "nodelist_1", 2, "\"0.05*cos(z - x)\"", [](double x, double, double z, double) { return 0.05 * std::cos(z - x); }});
    if (ncond)
      for (auto& b : many_conditions(q.m, ncond)) q.d.bcs.push_back(b);
    q.d.steps  = steps;
    q.d.freq   = freq;
    q.d.t1     = 0.02 * steps;
    q.d.fields = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "stress", "deformation_gradient", "volume", "ipt03_stress", "ipt08_deformation_gradient"};
    q.name     = name;
    r.push_back(q);
  };
  add("a thousand elements", 10, 10, 10, 1, 1, 3, 3, 3, 1);
  add("forty blocks of ten materials", 40, 2, 1, 40, 10, 3, 3, 4, 2);
  add("blocks over a plate", 17, 16, 1, 13, 4, 3, 0, 3, 1);
  add("sixty conditions over thirty-five sets", 6, 5, 4, 3, 3, 35, 60, 6, 1);
  add("fifteen hundred steps", 2, 1, 1, 2, 2, 2, 4, 1500, 7);
  add("eleven hundred planes", 1, 1, 1, 1, 1, 2, 2, 1100, 1);
  return r;
}
// the file name of a process
inline std::string
piece(const std::string& base, int np, int p)
{
  if (np == 1) return base;
  std::string w = std::to_string(np), q = std::to_string(p);
  while (q.size() < w.size()) q = "0" + q;
  return base + "." + w + "." + q;
}
}  // namespace cases
