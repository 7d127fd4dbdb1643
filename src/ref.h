// An independent reference of the semidiscrete model: 8-node hexahedra with
// 2x2x2 Gauss points, lumped (row-sum) mass, explicit central differences.
#pragma once
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "exo.h"

namespace ref {
typedef std::array<double, 3> V3;
typedef std::array<double, 9> M3;  // row major
struct Mat
{
  std::string law = "neohookean";  // or elastic
  double      rho = 1, K = 10, G = 5;
};
struct BC
{
  enum Type { IV, PV, PD } type = PV;
  std::string set;   // node set name as the deck writes it
  int         comp = 0;
  std::string text;  // the magnitude as written (quoted when an expression)
  std::function<double(double, double, double, double)> f;
};
struct Deck
{
  double                   t0 = 0, t1 = 0.25;
  int                      steps = 5, freq = 1;
  std::vector<Mat>         mats{Mat()};
  std::map<int, int>       block_mat;  // block id -> material index; missing: 0
  std::vector<BC>          bcs;
  std::vector<std::string> fields{"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "stress", "deformation_gradient"};
  std::string              extra;      // further deck lines
  std::string              mesh_file = "m.g", out_file = "m.e";
};
std::string deck_text(const Deck& d, const exo::Mesh& m);
std::string set_name(const exo::Mesh& m, int i);    // the name a deck uses for node set i
std::string block_name(const exo::Mesh& m, int i);

struct ElemState
{
  std::array<M3, 8>                     F;
  std::array<std::array<double, 6>, 8>  S;  // xx yy zz xy yz zx
  double                                vol;
  M3                                    Favg;
  std::array<double, 6>                 Savg;
};
struct Plane
{
  double                 t;
  std::vector<V3>        u, v, a, f;
  std::vector<ElemState> e;  // block-major element order
};
struct Run
{
  std::vector<double> mass;
  double              dt_crit = 0;
  std::vector<Plane>  planes;
  bool                unstable = false;
};
Run simulate(const exo::Mesh& m, const Deck& d);
// several bodies with the masses and conditions of ds[0], the first ones with the materials of
// each deck, the others under forces mixed from those of the first ones
std::vector<Run> ensemble(const exo::Mesh& m, const std::vector<Deck>& ds, const std::vector<std::vector<double>>& mixes);

// pieces, also used on their own
void shape(double r, double s, double t, double N[8], double D[8][3]);
void gauss(int i, double p[3]);  // integration point i in the documented order
double det(const M3& a);
M3 inv(const M3& a);
M3 mul(const M3& a, const M3& b);
M3 transpose(const M3& a);
std::array<double, 6> stress(const Mat& m, const M3& F);
std::vector<double> lumped_mass(const exo::Mesh& m, const Deck& d);
void element(const std::array<V3, 8>& X, const std::array<V3, 8>& U, const Mat& mat, ElemState& s, std::array<V3, 8>& force);
double char_length(const std::array<V3, 8>& x);
double critical_dt(const exo::Mesh& m, const Deck& d);

// every difference between a results file and the reference (restricted to the fields requested).
// nmap/emap: results-file node/element -> mesh node/element (block-major), empty: identity by position.
std::vector<std::string> compare(const exo::Results& r, const exo::Mesh& m, const Deck& d, const Run& run, double tol = 1e-9);
}  // namespace ref
