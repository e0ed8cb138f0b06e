#pragma once
#include "vp_shim.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
using namespace nw::graph;
using V32 = std::vector<uint32_t>;
using V64 = std::vector<size_t>;
// a real adjacency<0> over caller-provided arrays (the library's own move constructor from vectors)
inline adjacency<0> mk(uint32_t* ind, size_t n, uint32_t* tgt, size_t m) {
  return adjacency<0>(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m));
}
