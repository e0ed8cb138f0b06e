#include "common.hpp"
#include <queue>
#include <tuple>
#include <limits>
// std::priority_queue by its contract, without the order: top() is some stored element, pop() removes exactly that one (so what is
// proved holds whatever the comparator does)
extern "C" size_t vp_pq_top(size_t n) noexcept;                               // any index below n
extern "C" void vp_pq_pushed(const void* d, size_t pos) noexcept;             // ghost: the element at pos is new
extern "C" void vp_pq_popped(const void* d, size_t pos, size_t last) noexcept;    // ghost: pos leaves, last moves to pos
namespace std {
template <class T, class C = int, class Cmp = int> struct vp_pq {
  T* d;
  size_t n, k;
  vp_pq() : d(static_cast<T*>(vp_alloc(sizeof(T)))), n(0), k(0) {}
  bool empty() const { return n == 0; }
  size_t size() const { return n; }
  void push(const T& x) {
    vp_grow(n);
    d[n] = x;
    vp_pq_pushed(d, n);
    n = n + 1;
    k = vp_pq_top(n);
  }
  template <class... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
  const T& top() const {
    vp_require(n > 0);
    return d[k];
  }
  void pop() {
    vp_require(n > 0);
    vp_pq_popped(d, k, n - 1);
    d[k] = d[n - 1];
    n = n - 1;
    k = vp_pq_top(n);
  }
};
}
#define priority_queue vp_pq
#include "nwgraph/algorithms/dijkstra.hpp"
extern "C" const uint64_t* vp_dijkstra(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* wgt, uint32_t source) {
  adjacency<0, uint32_t> A(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m), V32(vp_view_tag{}, wgt, m));
  auto p = dijkstra<uint64_t>(A, source, [](auto&& e) { return std::get<1>(e); });
  return p.data();
}
