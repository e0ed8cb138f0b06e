#include "common.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
using VA = std::vector<std::atomic<uint32_t>>;
static_assert(sizeof(std::atomic<uint32_t>) == 4);
extern "C" void vp_cc_link(std::atomic<uint32_t>* c, size_t n, uint32_t u, uint32_t v) {
  VA w(vp_view_tag{}, c, n);
  link(u, v, w);
}
extern "C" void vp_cc_compress(std::atomic<uint32_t>* c, size_t n) {
  VA w(vp_view_tag{}, c, n);
  compress(std::execution::seq, w);
}
