#include "common.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/util/intersection_size.hpp"
extern "C" size_t vp_is(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t u, uint32_t v) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return intersection_size(A[u], A[v]);
}
// iterator/iterator/range overload, as used by the upper-triangular counters
extern "C" size_t vp_is_tail(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t u, size_t k, uint32_t v) {
  adjacency<0> A   = mk(ind, n, tgt, m);
  auto         row = A.begin()[u];
  auto         end = row.end();
  return intersection_size(row.begin() + k, end, A.begin()[v]);
}
extern "C" size_t vp_is_its(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t u, uint32_t v) {
  adjacency<0> A = mk(ind, n, tgt, m);
  auto         a = A.begin()[u], b = A.begin()[v];
  return intersection_size(a.begin(), a.end(), b.begin(), b.end());
}
extern "C" size_t vp_tc(uint32_t* ind, size_t n, uint32_t* tgt, size_t m) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return triangle_count(A);
}
