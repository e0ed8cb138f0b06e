#include "edges.hpp"
template <class A>
static inline void out(A& a, size_t n, size_t m) {
  vp_require(a.indices_.size() == n + 1);
  vp_require(a.N_ == n);
  vp_require(a.size() == n);
  vp_require(std::get<0>(a.to_be_indexed_).size() == m);
  vp_result(0, a.indices_.d, n + 1);
  vp_result(1, std::get<0>(a.to_be_indexed_).d, m);
  if constexpr (std::tuple_size_v<typename A::attributes_t> > 0) vp_result(2, std::get<1>(a.to_be_indexed_).d, m);
}
template <class E>
static inline void wgt(E& e, uint64_t* w, size_t m) { col<E, 2>(e, w, m); }
#define FILL(name, EL, AD, mult)                                                                       \
  extern "C" void name(uint32_t* s, uint32_t* t, size_t m, size_t n) {                                 \
    EL e(0);                                                                                           \
    el(e, s, t, m, n);                                                                                 \
    AD a(e);                                                                                           \
    out(a, n, mult* m);                                                                                \
  }
#define FILLW(name, EL, AD, mult)                                                                      \
  extern "C" void name(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n) {                    \
    EL e(0);                                                                                           \
    el(e, s, t, m, n);                                                                                 \
    wgt(e, w, m);                                                                                      \
    AD a(e);                                                                                           \
    out(a, n, mult* m);                                                                                \
  }
FILL(vp_fill_dir0, DE, adjacency<0>, 1)
FILL(vp_fill_dir1, DE, adjacency<1>, 1)
FILL(vp_fill_und0, UE, adjacency<0>, 2)
FILL(vp_fill_und1, UE, adjacency<1>, 2)
using A0W = adjacency<0, uint64_t>;
using A1W = adjacency<1, uint64_t>;
FILLW(vp_fill_dirw0, DW, A0W, 1)
FILLW(vp_fill_dirw1, DW, A1W, 1)
FILLW(vp_fill_undw0, UW, A0W, 2)
FILLW(vp_fill_undw1, UW, A1W, 2)
extern "C" void vp_fill_bi0(uint32_t* s, uint32_t* t, size_t m, size_t n0, size_t n1) {
  BE e(0, 0);
  el(e, s, t, m, n0, n1);
  biadjacency<0> a(e);
  out(a, n0, m);
}
extern "C" void vp_fill_bi1(uint32_t* s, uint32_t* t, size_t m, size_t n0, size_t n1) {
  BE e(0, 0);
  el(e, s, t, m, n0, n1);
  biadjacency<1> a(e);
  out(a, n1, m);
}
