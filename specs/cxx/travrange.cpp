#include "common.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/bfs_range.hpp"
extern "C" void vp_bfsrange(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t seed, uint32_t* out) {
  adjacency<0>                    A = mk(ind, n, tgt, m);
  topdown_bfs_range<adjacency<0>> r(A, seed);
  size_t                          k = 0;
  for (auto it = r.begin(); it != r.end(); ++it) {
    out[k] = *it;
    ++k;
  }
  vp_result(0, out, k);
}
extern "C" void vp_bfsedges(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t seed, uint32_t* us, uint32_t* vs) {
  adjacency<0>                 A = mk(ind, n, tgt, m);
  bfs_edge_range<adjacency<0>> r(A, seed);
  size_t                       k = 0;
  for (auto it = r.begin(); it != r.end(); ++it) {
    auto e = *it;
    us[k]  = std::get<0>(e);
    vs[k]  = std::get<1>(e);
    ++k;
  }
  vp_result(0, us, k);
  vp_result(1, vs, k);
}
