#include "common.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/util.hpp"
// every wrapper builds a range covering [a,b), splits it once, and reports both pieces
extern "C" bool vp_split_sra(uint32_t* d, size_t n, size_t a, size_t b, size_t cutoff, uint64_t* out) {
  V32  v(vp_view_tag{}, d, n);
  splittable_range_adaptor<V32::iterator> r(v.begin() + a, v.begin() + b, cutoff);
  bool div = r.is_divisible();
  out[4]   = r.size();
  out[5]   = r.empty();
  splittable_range_adaptor<V32::iterator> s(r, tbb::split{});
  out[0] = s.begin() - v.begin();
  out[1] = s.end() - v.begin();
  out[2] = r.begin() - v.begin();
  out[3] = r.end() - v.begin();
  return div;
}
extern "C" bool vp_split_neighbor(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, size_t a, size_t b, uint64_t* out) {
  adjacency<0>                 A = mk(ind, n, tgt, m);
  neighbor_range<adjacency<0>> r(A, a);
  r.outer_end_ = r.outer_base_ + b;
  bool div     = r.is_divisible();
  out[4]       = r.size();
  out[5]       = r.empty();
  neighbor_range<adjacency<0>> s(r, tbb::split{});
  out[0] = s.outer_begin_ - s.outer_base_;
  out[1] = s.outer_end_ - s.outer_base_;
  out[2] = r.outer_begin_ - r.outer_base_;
  out[3] = r.outer_end_ - r.outer_base_;
  return div;
}
extern "C" bool vp_split_edge(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, size_t a, size_t b, uint64_t* out) {
  adjacency<0>             A = mk(ind, n, tgt, m);
  edge_range<adjacency<0>> r(A, a);
  r.outer_end_ = r.outer_base_ + b;
  bool div     = r.is_divisible();
  out[4]       = r.size();
  edge_range<adjacency<0>> s(r, tbb::split{});
  out[0] = s.outer_begin_ - s.outer_base_;
  out[1] = s.outer_end_ - s.outer_base_;
  out[2] = r.outer_begin_ - r.outer_base_;
  out[3] = r.outer_end_ - r.outer_base_;
  return div;
}
extern "C" bool vp_split_vertex(uint32_t a, uint32_t b, uint64_t* out) {
  vertex_range<adjacency<0>> r(b);
  r.begin_ += a;
  bool div = r.is_divisible();
  out[4]   = r.size();
  out[5]   = r.empty();
  vertex_range<adjacency<0>> s(r, tbb::split{});
  out[0] = s.begin().my_counter_;
  out[1] = s.end().my_counter_;
  out[2] = r.begin().my_counter_;
  out[3] = r.end().my_counter_;
  return div;
}
// block partition: the pieces of id and id+1
extern "C" void vp_block(size_t N, size_t n, size_t id, uint64_t* out) {
  auto p = block(N, n, id);
  auto q = block(N, n, id + 1);
  out[0] = p.first;
  out[1] = p.second;
  out[2] = q.first;
  out[3] = q.second;
}
extern "C" void vp_block_end(size_t N, size_t n, uint64_t* out) {
  auto p = block(N, n, size_t(0));
  auto q = block(N, n, n - 1);
  out[0] = p.first;
  out[1] = p.second;
  out[2] = q.first;
  out[3] = q.second;
}
template <class C> static inline void cyc_split(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t cutoff, uint64_t* out) {
  V32 v(vp_view_tag{}, d, n);
  C   r(v, 1ul);
  r.cycle_  = cycle;
  r.stride_ = stride;
  r.cutoff_ = cutoff;
  C s(r, tbb::split{});
  out[0] = s.cycle_;
  out[1] = s.stride_;
  out[2] = r.cycle_;
  out[3] = r.stride_;
  out[4] = (s.begin_ - v.begin() == 0) && (s.end_ - v.begin() == n) && (r.begin_ - v.begin() == 0) && (r.end_ - v.begin() == n) && s.cutoff_ == cutoff && r.cutoff_ == cutoff;
}
extern "C" void vp_cyc_split(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t cutoff, uint64_t* out) {
  cyc_split<cyclic_range_adaptor<V32::iterator>>(d, n, cycle, stride, cutoff, out);
}
extern "C" void vp_cycn_split(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t cutoff, uint64_t* out) {
  cyc_split<cyclic_neighbor_range<V32::iterator>>(d, n, cycle, stride, cutoff, out);
}
// one cycle: where it begins and ends, and one step of its iterator from position p
template <class C> static inline void cyc(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t p, uint64_t* out) {
  V32 v(vp_view_tag{}, d, n);
  C   r(v, 1ul);
  r.cycle_  = cycle;
  r.stride_ = stride;
  out[0]    = r.begin().i_ - v.begin();
  out[1]    = r.end().i_ - v.begin();
  out[2]    = r.size();
  auto i    = r.begin();
  i.i_      = v.begin() + p;
  out[3]    = i != r.end();
  ++i;
  out[4] = i.i_ - v.begin();
  out[5] = r.empty();
}
extern "C" void vp_cyc(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t p, uint64_t* out) {
  cyc<cyclic_range_adaptor<V32::iterator>>(d, n, cycle, stride, p, out);
}
extern "C" void vp_cycn(uint32_t* d, size_t n, int64_t cycle, int64_t stride, int64_t p, uint64_t* out) {
  cyc<cyclic_neighbor_range<V32::iterator>>(d, n, cycle, stride, p, out);
}
extern "C" size_t vp_cycn_deref(uint32_t* d, size_t n, int64_t stride, size_t p, uint32_t* val) {
  V32                                 v(vp_view_tag{}, d, n);
  cyclic_neighbor_range<V32::iterator> r(v, 1ul);
  r.stride_ = stride;
  auto i    = r.begin();
  i.i_      = v.begin() + p;
  auto [k, x] = *i;
  *val        = x;
  return k;
}
