#include "common.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
using AW = adjacency<0, uint64_t>;
static inline AW mkw(uint32_t* ind, size_t n, uint32_t* tgt, uint64_t* w, size_t m) {
  return AW(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m), V64(vp_view_tag{}, w, m));
}
extern "C" size_t vp_row_size(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t u) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return A[u].size();
}
extern "C" uint32_t vp_row_elem(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t u, uint32_t k) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return std::get<0>(A[u].begin()[k]);
}
extern "C" uint64_t vp_row_attr(uint32_t* ind, size_t n, uint32_t* tgt, uint64_t* w, size_t m, uint32_t u, uint32_t k) {
  AW A = mkw(ind, n, tgt, w, m);
  return std::get<1>(A[u].begin()[k]);
}
extern "C" uint32_t vp_source(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t e) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return A.source(e);
}
// what a traversal yields is appended to (os, ot, ow)
extern "C" void vp_outer(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os, uint32_t* ot) {
  adjacency<0> A = mk(ind, n, tgt, m);
  size_t       k = 0;
  for (auto it = A.begin(), e = A.end(); it != e; ++it)
    for (auto&& v : *it) {
      os[k] = it - A.begin();
      ot[k] = std::get<0>(v);
      ++k;
    }
  vp_result(0, os, k);
}
extern "C" void vp_edges(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os, uint32_t* ot) {
  adjacency<0> A = mk(ind, n, tgt, m);
  size_t       k = 0;
  for (auto&& [u, v] : make_edge_range(A)) {
    os[k] = u;
    ot[k] = v;
    ++k;
  }
  vp_result(0, os, k);
}
extern "C" void vp_edges_w(uint32_t* ind, size_t n, uint32_t* tgt, uint64_t* w, size_t m, uint32_t* os, uint32_t* ot, uint64_t* ow) {
  AW     A = mkw(ind, n, tgt, w, m);
  size_t k = 0;
  for (auto&& [u, v, x] : make_edge_range<0>(A)) {
    os[k] = u;
    ot[k] = v;
    ow[k] = x;
    ++k;
  }
  vp_result(0, os, k);
}
// the two halves of a split, one after the other
extern "C" void vp_edges_split(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os, uint32_t* ot) {
  adjacency<0> A = mk(ind, n, tgt, m);
  auto         lo = make_edge_range(A);
  decltype(lo) hi(lo, tbb::split{});
  size_t       k = 0;
  for (auto&& [u, v] : lo) {
    os[k] = u;
    ot[k] = v;
    ++k;
  }
  for (auto&& [u, v] : hi) {
    os[k] = u;
    ot[k] = v;
    ++k;
  }
  vp_result(0, os, k);
}
extern "C" void vp_plain(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os) {
  adjacency<0> A = mk(ind, n, tgt, m);
  size_t       k = 0;
  for (auto&& [u] : make_plain_range(A)) os[k++] = u;
  vp_result(0, os, k);
}
extern "C" void vp_plain_degree(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os, uint32_t* ot) {
  adjacency<0> A = mk(ind, n, tgt, m);
  size_t       k = 0;
  for (auto&& [u, d] : plain_degree_range(A)) {
    os[k] = u;
    ot[k] = d;
    ++k;
  }
  vp_result(0, os, k);
}
extern "C" void vp_neigh(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* os, uint32_t* ot) {
  adjacency<0> A = mk(ind, n, tgt, m);
  size_t       k = 0;
  for (auto&& [u, nbs] : make_neighbor_range(A))
    for (auto&& v : nbs) {
      os[k] = u;
      ot[k] = std::get<0>(v);
      ++k;
    }
  vp_result(0, os, k);
}
