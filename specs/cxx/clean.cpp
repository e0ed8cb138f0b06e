// vp: debug output off
#include "edges.hpp"
template <class E>
static inline void outs(E& e) {
  auto& b = static_cast<typename E::base&>(e);
  vp_require(std::get<1>(b).size() == e.size());
  vp_result(0, std::get<0>(b).d, e.size());
  vp_result(1, std::get<1>(b).d, e.size());
  if constexpr (std::tuple_size_v<typename E::attributes_t> > 0) {
    vp_require(std::get<2>(b).size() == e.size());
    vp_result(2, std::get<2>(b).d, e.size());
  }
}
#define PLAIN(name, op)                                                              \
  extern "C" void name(uint32_t* s, uint32_t* t, size_t m, size_t n) {               \
    DE e(0);                                                                         \
    el(e, s, t, m, n);                                                               \
    op;                                                                              \
    outs(e);                                                                         \
  }
#define WEIGHT(name, EL, op)                                                         \
  extern "C" void name(uint32_t* s, uint32_t* t, uint64_t* w, size_t m, size_t n) {  \
    EL e(0);                                                                         \
    el(e, s, t, m, n);                                                               \
    col<EL, 2>(e, w, m);                                                             \
    op;                                                                              \
    outs(e);                                                                         \
  }
PLAIN(vp_loops, remove_self_loops(e))
WEIGHT(vp_loops_w, UW, remove_self_loops(e))
PLAIN(vp_uniq, uniq(e))
WEIGHT(vp_uniq_w, UW, uniq(e))
WEIGHT(vp_tri_0p, UW, (swap_to_triangular<0, UW, succession::predecessor>(e)))
WEIGHT(vp_tri_0s, UW, (swap_to_triangular<0, UW, succession::successor>(e)))
WEIGHT(vp_tri_1p, UW, (swap_to_triangular<1, UW, succession::predecessor>(e)))
WEIGHT(vp_tri_1s, UW, (swap_to_triangular<1, UW, succession::successor>(e)))
PLAIN(vp_tri_plain, (swap_to_triangular<0, DE, succession::predecessor>(e)))
PLAIN(vp_tri_arg, (swap_to_triangular<0>(e, succession::successor)))
WEIGHT(vp_sort0, DW, sort_by<0>(e))
WEIGHT(vp_sort1, DW, sort_by<1>(e))
WEIGHT(vp_ssort0, DW, stable_sort_by<0>(e))
WEIGHT(vp_ssort1, DW, stable_sort_by<1>(e))
WEIGHT(vp_lex0, DW, lexical_sort_by<0>(e))
WEIGHT(vp_lex1, DW, lexical_sort_by<1>(e))
WEIGHT(vp_slex0, DW, lexical_stable_sort_by<0>(e))
WEIGHT(vp_slex1, DW, lexical_stable_sort_by<1>(e))
#define TRIANG(name, cess)                                                                              \
  extern "C" void name(uint32_t* ind, size_t n, uint32_t* tgt, uint64_t* w, size_t m) {                 \
    adjacency<0, uint64_t> a(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m), V64(vp_view_tag{}, w, m)); \
    a.triangularize<cess>();                                                                            \
    vp_require(a.indices_.size() == n + 1);                                                             \
    vp_require(std::get<1>(a.to_be_indexed_).size() == std::get<0>(a.to_be_indexed_).size());           \
    vp_result(0, std::get<0>(a.to_be_indexed_).d, std::get<0>(a.to_be_indexed_).size());                \
    vp_result(1, std::get<1>(a.to_be_indexed_).d, std::get<1>(a.to_be_indexed_).size());                \
    vp_result(2, a.indices_.d, n + 1);                                                                  \
  }
TRIANG(vp_triang_p, succession::predecessor)
TRIANG(vp_triang_s, succession::successor)
