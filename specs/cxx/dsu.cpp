#include "common.hpp"
#include "nwgraph/algorithms/kruskal.hpp"
#include "nwgraph/util/disjoint_set.hpp"
using VP = std::vector<std::pair<uint32_t, size_t>>;
extern "C" uint32_t vp_dj_find(std::pair<uint32_t, size_t>* s, size_t n, uint32_t x) {
  VP v(vp_view_tag{}, s, n);
  return disjoint_find(v, x);
}
extern "C" void vp_dj_union(std::pair<uint32_t, size_t>* s, size_t n, uint32_t x, uint32_t y) {
  VP v(vp_view_tag{}, s, n);
  disjoint_union(v, x, y);
}
extern "C" bool vp_dj_union_find(std::pair<uint32_t, size_t>* s, size_t n, uint32_t x, uint32_t y) {
  VP v(vp_view_tag{}, s, n);
  return disjoint_union_find(v, x, y);
}
