// vp: debug output off
#include "vpstring.hpp"
#include "edges.hpp"
#include "nwgraph/util/proxysort.hpp"
using BW = bi_edge_list<directedness::directed, uint64_t>;
template <class E>
static inline void outs(E& e) {
  auto& b = static_cast<typename E::base&>(e);
  vp_require(std::get<1>(b).size() == e.size());
  vp_result(0, std::get<0>(b).d, e.size());
  vp_result(1, std::get<1>(b).d, e.size());
  if constexpr (std::tuple_size_v<typename E::attributes_t> > 0) {
    vp_require(std::get<2>(b).size() == e.size());
    vp_result(2, std::get<2>(b).d, e.size());
  }
}
template <class V> static inline void perm_out(V&& p) { vp_result(3, p.d, p.size()); }
// perm_by_degree from given degrees
#define PBD(name, dir)                                                                            \
  extern "C" void name(uint32_t* s, uint32_t* t, size_t m, size_t n, uint32_t* deg, size_t len) { \
    DE e(0);                                                                                      \
    el(e, s, t, m, n);                                                                            \
    V32  d(vp_view_tag{}, deg, len);                                                              \
    auto p = perm_by_degree<0>(e, d, dir);                                                        \
    perm_out(p);                                                                                  \
    outs(e);                                                                                      \
  }
PBD(vp_pbd_a, "ascending")
PBD(vp_pbd_d, "descending")
extern "C" void vp_relabel(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n, uint32_t* perm) {
  UW e(0);
  el(e, s, t, m, n);
  col<UW, 2>(e, w, m);
  V32  p(vp_view_tag{}, perm, n);
  auto q = relabel(e, p);
  perm_out(q);
  outs(e);
}
template <int idx>
static inline void rel_bi(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n0, size_t n1, uint32_t* perm) {
  BW e(0, 0);
  el(e, s, t, m, n0, n1);
  col<BW, 2>(e, w, m);
  V32  p(vp_view_tag{}, perm, idx ? n1 : n0);
  auto q = relabel<idx>(e, p);
  perm_out(q);
  outs(e);
}
extern "C" void vp_relabel_bi0(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n0, size_t n1, uint32_t* perm) { rel_bi<0>(s, t, w, m, n0, n1, perm); }
extern "C" void vp_relabel_bi1(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n0, size_t n1, uint32_t* perm) { rel_bi<1>(s, t, w, m, n0, n1, perm); }
#define RBD(name, call)                                                                                     \
  extern "C" void name(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n, uint32_t* deg, size_t len) { \
    UW e(0);                                                                                                \
    el(e, s, t, m, n);                                                                                      \
    col<UW, 2>(e, w, m);                                                                                    \
    V32 d(vp_view_tag{}, deg, len);                                                                         \
    call;                                                                                                   \
    outs(e);                                                                                                \
  }
RBD(vp_rbd_a, (perm_out(relabel_by_degree<0>(e, "ascending", d))))
RBD(vp_rbd_d, (perm_out(relabel_by_degree<0>(e, "descending", d))))
RBD(vp_rbdv_a, (relabel_by_degree(e, "ascending", d)))
extern "C" void vp_permute2(uint32_t* a, uint32_t* b, uint32_t* perm, size_t n) {
  V32 x(vp_view_tag{}, a, n), y(vp_view_tag{}, b, n), p(vp_view_tag{}, perm, n);
  permute(x, y, p);
  vp_result(0, y.d, y.size());
  vp_result(1, x.d, x.size());
}
template <class C>
static inline void proxy(uint32_t* a, size_t n, C c) {
  V32  x(vp_view_tag{}, a, n);
  auto p = nw::util::proxysort<uint32_t>(x, c);
  perm_out(p);
}
extern "C" void vp_proxy_l(uint32_t* a, size_t n) { proxy(a, n, std::less<uint32_t>()); }
extern "C" void vp_proxy_g(uint32_t* a, size_t n) { proxy(a, n, std::greater<uint32_t>()); }
using A1 = adjacency<0, uint64_t>;
#define COMP(name, sig, call)                                                                                             \
  extern "C" void name(uint32_t* ind, size_t n, uint32_t* tgt, uint64_t* w, size_t m sig) {                               \
    A1 a(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m), V64(vp_view_tag{}, w, m));                           \
    call;                                                                                                                 \
    vp_require(a.indices_.size() == n + 1);                                                                               \
    vp_require(std::get<1>(a.to_be_indexed_).size() == std::get<0>(a.to_be_indexed_).size());                             \
    vp_result(0, std::get<0>(a.to_be_indexed_).d, std::get<0>(a.to_be_indexed_).size());                                  \
    vp_result(1, std::get<1>(a.to_be_indexed_).d, std::get<1>(a.to_be_indexed_).size());                                  \
    vp_result(2, a.indices_.d, n + 1);                                                                                    \
  }
#define COMMA ,
COMP(vp_sortrows, , a.sort_to_be_indexed())
COMP(vp_relrows, COMMA uint32_t* perm, a.relabel_to_be_indexed(V32(vp_view_tag{} COMMA perm COMMA n)))
COMP(vp_permdeg_a, , perm_out(a.permute_by_degree("ascending")))
COMP(vp_permdeg_d, , perm_out(a.permute_by_degree("descending")))
COMP(vp_sortdeg_a, , a.sort_by_degree("ascending"))
COMP(vp_sortdeg_d, , a.sort_by_degree("descending"))
extern "C" void vp_rbd_count(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n) {
  UW e(0);
  el(e, s, t, m, n);
  col<UW, 2>(e, w, m);
  perm_out(relabel_by_degree<0>(e, "descending"));
  outs(e);
}
extern "C" void vp_pbd_count(uint32_t* s, uint32_t* t, size_t m, size_t n) {
  DE e(0);
  el(e, s, t, m, n);
  perm_out(perm_by_degree<1>(e));
  outs(e);
}
