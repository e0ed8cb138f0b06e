#include "edges.hpp"
template <int idx, class EL>
static inline uint32_t* deg(EL& e) {
  auto d = degrees<idx>(e);
  vp_require(d.size() == num_vertices(e, idx));
  return d.d;
}
extern "C" const uint32_t* vp_deg_dir0(uint32_t* s, uint32_t* t, size_t m, size_t n) {
  DE e(0);
  el(e, s, t, m, n);
  return deg<0>(e);
}
extern "C" const uint32_t* vp_deg_dir1(uint32_t* s, uint32_t* t, size_t m, size_t n) {
  DE e(0);
  el(e, s, t, m, n);
  return deg<1>(e);
}
extern "C" const uint32_t* vp_deg_und(uint32_t* s, uint32_t* t, size_t m, size_t n) {
  UE e(0);
  el(e, s, t, m, n);
  return deg<0>(e);
}
extern "C" const uint32_t* vp_deg_bi0(uint32_t* s, uint32_t* t, size_t m, size_t n0, size_t n1) {
  BE e(0, 0);
  el(e, s, t, m, n0, n1);
  return deg<0>(e);
}
extern "C" const uint32_t* vp_deg_bi1(uint32_t* s, uint32_t* t, size_t m, size_t n0, size_t n1) {
  BE e(0, 0);
  el(e, s, t, m, n0, n1);
  return deg<1>(e);
}
extern "C" const uint32_t* vp_deg_graph(uint32_t* ind, size_t n, uint32_t* tgt, size_t m) {
  adjacency<0> A = mk(ind, n, tgt, m);
  auto         d = degrees(A);
  vp_require(d.size() == n);
  return d.d;
}
