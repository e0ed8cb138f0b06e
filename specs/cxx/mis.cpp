#include "common.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
extern "C" size_t vp_mis(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, size_t* out) {
  adjacency<0> A = mk(ind, n, tgt, m);
  V64          r(vp_view_tag{}, out, 0);
  maximal_independent_set(A, r);
  return r.size();
}
