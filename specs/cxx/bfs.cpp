#include "common.hpp"
#include "nwgraph/algorithms/bfs.hpp"
extern "C" const uint32_t* vp_bfs(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t root) {
  adjacency<0> A = mk(ind, n, tgt, m);
  auto         p = bfs(A, root);
  return p.data();
}
