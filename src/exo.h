// Mesh descriptions, Genesis files written and results files read directly
// through the Exodus library (no code of the system under test involved).
#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>

namespace exo {
typedef std::array<double, 3> V3;
struct Block
{
  int                             id = 1;
  std::string                     name;           // empty: none
  std::string                     type = "HEX8";
  std::vector<std::array<int, 8>> conn;           // 0-based local node indices
  int                             npe = 8;        // nodes per element of raw
  std::vector<int>                raw;            // used instead of conn when not empty (0-based, npe per element)
};
struct NodeSet
{
  int              id = 1;
  std::string      name;
  std::vector<int> nodes;  // 0-based local
  int              ndf = -1;  // number of distribution factors, -1: one per node
  std::vector<double> df;     // values (1.0 when empty)
};
struct SideSet
{
  int              id = 1;
  std::string      name;
  std::vector<int> elems, sides;  // 0-based element, 1-based side
  int              ndf = -1;      // -1: four per side
};
struct Mesh
{
  std::vector<V3>      X;
  std::vector<Block>   blocks;
  std::vector<NodeSet> nsets;
  std::vector<SideSet> ssets;
  std::vector<int>     node_ids, elem_ids;  // 1-based, empty: not written
  std::vector<int>     aux_node_map;        // "original_global_id_map" node map, empty: none
  std::vector<int>     aux_elem_map;
  std::string          aux_node_name = "original_global_id_map", aux_elem_name = "original_global_id_map";
  int                  aux_copies = 1;      // how many of each
  std::string          title = "verif";
  int                  dim   = 3;
  int                  nelem() const;
  int                  block_offset(int b) const;
};
// writes the mesh; returns an error text or ""
std::string write_genesis(const std::string& path, const Mesh& m);

struct Results
{
  std::string              error;  // empty if readable
  int                      dim = 0, nn = 0, ne = 0;
  std::vector<double>      x, y, z;
  std::vector<int>         block_ids, block_n, block_npe;
  std::vector<std::string> block_names, block_types;
  std::vector<std::vector<int>> conn;  // 1-based as stored
  std::vector<int>         node_map, elem_map;
  std::vector<int>         ns_ids;
  std::vector<std::vector<int>> ns_nodes;
  std::vector<std::string> nvars, evars, gvars;
  std::vector<std::vector<double>> global;  // global[step][var]
  std::vector<std::vector<double>> ns_df;
  std::vector<int>         truth;  // block-major
  std::vector<double>      times;
  // nodal[step][var][node], elem[step][block][var][elem] (empty when not stored)
  std::vector<std::vector<std::vector<double>>> nodal;
  std::vector<std::vector<std::vector<std::vector<double>>>> elem;
  std::vector<std::vector<std::string>> dup_nvars;
  int nv(const std::string& n) const;
  int ev(const std::string& n) const;
};
Results read_results(const std::string& path, bool planes = true);

// a grid of nx*ny*nz unit hexahedra, x fastest; all in one block
Mesh grid(int nx, int ny, int nz, double hx = 1, double hy = 1, double hz = 1);
// distribute the elements of m over blocks: blk[e] = index into ids
Mesh assign_blocks(const Mesh& m, const std::vector<int>& blk, const std::vector<int>& ids, const std::vector<std::string>& names = {});
// pieces of a decomposition: part[e] = process of element e (in block-major element order).
// rev: local nodes in decreasing instead of increasing global order.  lost_blocks: keep empty blocks.
std::vector<Mesh> split(const Mesh& m, const std::vector<int>& part, int nparts, bool rev = false);
}  // namespace exo
namespace exo {
// every difference between the mesh a results file holds and the mesh it belongs to
std::vector<std::string> mesh_diff(const Results& r, const Mesh& m);
// every difference between the values of a part's (or renumbered) results file and the whole's.
// nmap/emap: node (element, block-major over the blocks of `part`) of the part -> id in the whole's maps; empty: by the id maps of both files.
// match_blocks: element ids are looked up over all blocks of the whole.
std::vector<std::string> diff(const Results& part, const Results& whole, double tol, const std::vector<int>& nmap = {}, const std::vector<int>& emap = {});
}  // namespace exo
