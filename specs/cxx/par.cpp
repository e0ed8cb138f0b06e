// parallel_for / parallel_reduce over the library's ranges.  The task scheduler is modelled by one split: the body is called on both
// pieces of an arbitrary range (the induction step of every splitting); pieces of pieces are ranges again.
#include "vp_shim.hpp"
#undef parallel_for
#undef parallel_reduce
namespace tbb {
template <class R, class F>
inline void vp_split_for(R&& r0, F&& f) {
  std::decay_t<R> r(r0);
  vp_require(r.is_divisible());
  std::decay_t<R> s(r, tbb::split{});
  f(s);
  f(r);
}
template <class R, class T, class F, class J>
inline T vp_split_reduce(R&& r0, T identity, F&& f, J&& join) {
  std::decay_t<R> r(r0);
  vp_require(r.is_divisible());
  std::decay_t<R> s(r, tbb::split{});
  T               a = f(s, identity);
  T               b = f(r, identity);
  return join(a, b);
}
}    // namespace tbb
#define parallel_for vp_split_for
#define parallel_reduce vp_split_reduce
#include "common.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/parallel_for.hpp"
using It = V32::iterator;
using SR = splittable_range_adaptor<It>;
extern "C" void vp_pfor(uint32_t* a, size_t n, size_t lo, size_t hi, size_t cutoff) {
  V32 v(vp_view_tag{}, a, n);
  nw::graph::parallel_for(SR(v.begin() + lo, v.begin() + hi, cutoff), [](uint32_t& x) { x += 1; });
}
extern "C" void vp_pfor_v(uint64_t* hits, uint32_t n) {
  nw::graph::parallel_for(vertex_range<adjacency<0>>(n), [=](uint32_t x) { hits[x] += 1; });
}
extern "C" void vp_pfor_n(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint64_t* hits) {
  adjacency<0> A = mk(ind, n, tgt, m);
  nw::graph::parallel_for(neighbor_range<adjacency<0>>(A, 1), [=](auto&& u, auto&& nb) { hits[u] += nb.size() + 1; });
}
extern "C" uint64_t vp_pred(uint32_t* a, size_t n, size_t lo, size_t hi, size_t cutoff) {
  V32 v(vp_view_tag{}, a, n);
  return nw::graph::parallel_reduce(SR(v.begin() + lo, v.begin() + hi, cutoff), [](uint32_t x) { return uint64_t(x) + 1; }, std::plus<uint64_t>{}, uint64_t(0));
}
// an operation with a non-zero identity, and the initial value kept when the range is empty
extern "C" uint64_t vp_pred_max(uint32_t* a, size_t n, size_t lo, size_t hi, size_t cutoff, uint64_t init) {
  V32 v(vp_view_tag{}, a, n);
  return nw::graph::parallel_reduce(SR(v.begin() + lo, v.begin() + hi, cutoff), [](uint32_t x) { return uint64_t(x) + 1; },
                                    [](uint64_t x, uint64_t y) { return x < y ? y : x; }, init);
}
extern "C" uint64_t vp_pred_n(uint32_t* ind, size_t n, uint32_t* tgt, size_t m) {
  adjacency<0> A = mk(ind, n, tgt, m);
  return nw::graph::parallel_reduce(neighbor_range<adjacency<0>>(A, 1), [](auto&& u, auto&& nb) { return uint64_t(nb.size()) + u; }, std::plus<uint64_t>{}, uint64_t(0));
}
// one piece of an edge range (rows lo..hi), reduced into a running total
extern "C" uint64_t vp_pred_e(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, size_t lo, size_t hi, uint64_t init) {
  adjacency<0>             A = mk(ind, n, tgt, m);
  edge_range<adjacency<0>> r(A, lo);
  r.outer_end_ = r.outer_base_ + hi;
  return nw::graph::parallel_for_sequential(r, [](auto&& u, auto&& v) { return uint64_t(v) + u; }, std::plus<uint64_t>{}, init);
}
extern "C" void vp_pfs(uint32_t* a, size_t n) {
  V32 v(vp_view_tag{}, a, n);
  nw::graph::parallel_for_sequential(v, [](uint32_t& x) { x += 1; });
}
