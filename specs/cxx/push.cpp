#include "edges.hpp"
using BW = bi_edge_list<directedness::directed, uint64_t>;
// one push into a list holding m edges (arbitrary contents): the history step
template <class E>
static inline void outs(E& e) {
  vp_result(0, std::get<0>(static_cast<typename E::base&>(e)).d, e.size());
  vp_result(1, std::get<1>(static_cast<typename E::base&>(e)).d, std::get<1>(static_cast<typename E::base&>(e)).size());
  vp_result(2, std::get<0>(static_cast<typename E::base&>(e)).d, num_vertices(e));
}
extern "C" void vp_push(uint32_t* s, uint32_t* t, size_t m, size_t n, uint32_t i, uint32_t j) {
  DE e(0);
  el(e, s, t, m, n);
  e.push_back(i, j);
  outs(e);
}
extern "C" void vp_push_u(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n, uint32_t i, uint32_t j, uint64_t x) {
  UW e(0);
  el(e, s, t, m, n);
  col<UW, 2>(e, w, m);
  e.push_back(i, j, x);
  outs(e);
  vp_result(4, std::get<2>(static_cast<UW::base&>(e)).d, std::get<2>(static_cast<UW::base&>(e)).size());
}
extern "C" void vp_push_tuple(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n, uint32_t i, uint32_t j, uint64_t x) {
  DW e(0);
  el(e, s, t, m, n);
  col<DW, 2>(e, w, m);
  e.push_back(std::tuple<uint32_t, uint32_t, uint64_t>(i, j, x));
  outs(e);
  vp_result(4, std::get<2>(static_cast<DW::base&>(e)).d, std::get<2>(static_cast<DW::base&>(e)).size());
}
extern "C" void vp_push_bi(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n0, size_t n1, uint32_t i, uint32_t j, uint64_t x) {
  BW e(0, 0);
  el(e, s, t, m, n0, n1);
  col<BW, 2>(e, w, m);
  e.push_back(i, j, x);
  outs(e);
  vp_result(3, std::get<0>(static_cast<BW::base&>(e)).d, num_vertices(e, 1));
  vp_result(4, std::get<2>(static_cast<BW::base&>(e)).d, std::get<2>(static_cast<BW::base&>(e)).size());
}
extern "C" void vp_push_tuple_bi(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n0, size_t n1, uint32_t i, uint32_t j, uint64_t x) {
  BW e(0, 0);
  el(e, s, t, m, n0, n1);
  col<BW, 2>(e, w, m);
  e.push_back(std::tuple<uint32_t, uint32_t, uint64_t>(i, j, x));
  outs(e);
  vp_result(3, std::get<0>(static_cast<BW::base&>(e)).d, num_vertices(e, 1));
  vp_result(4, std::get<2>(static_cast<BW::base&>(e)).d, std::get<2>(static_cast<BW::base&>(e)).size());
}
// a whole history into an edge list that starts empty
extern "C" void vp_push_all(uint32_t* s, uint32_t* t, size_t m) {
  DE e(0);
  e.open_for_push_back();
  for (size_t k = 0; k < m; ++k) e.push_back(s[k], t[k]);
  e.close_for_push_back();
  outs(e);
}
// a whole history into a compressed structure with n rows; rows arrive in order
extern "C" void vp_push_rows(uint32_t* s, uint32_t* t, size_t m, size_t n) {
  adjacency<0> a(n);
  a.open_for_push_back();
  for (size_t k = 0; k < m; ++k) a.push_back(s[k], t[k]);
  a.close_for_push_back();
  vp_require(a.N_ + size_t(1) == a.indices_.size());
  vp_result(0, a.indices_.d, a.indices_.size());
  vp_result(1, std::get<0>(a.to_be_indexed_).d, std::get<0>(a.to_be_indexed_).size());
}
