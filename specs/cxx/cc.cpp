#include "common.hpp"
#include <unordered_map>
#include <random>
#include "nwgraph/adaptors/plain_range.hpp"
// dependencies of sample_frequent_element: a random number in the requested range, a map whose iteration order is arbitrary; printing dropped
extern "C" size_t vp_uniform(size_t lo, size_t hi) noexcept;
extern "C" size_t vp_pick() noexcept;
namespace std {
struct vp_rng {};
template <class T> struct vp_unif {
  T a, b;
  vp_unif(T x, T y) : a(x), b(y) {}
  T operator()(vp_rng&) { return T(vp_uniform(a, b)); }
};
template <class K, class V> struct vp_umap {
  V* d;
  explicit vp_umap(size_t) : d(static_cast<V*>(vp_alloc(sizeof(V)))) {}
  V& operator[](K k) { return d[k]; }
  struct iterator {
    vp_umap* m;
    std::pair<const K, V> operator*() const {
      K k = K(vp_pick());
      return {k, m->d[k]};
    }
  };
  iterator begin() { return {this}; }
  iterator end() { return {this}; }
};
template <class I, class C> I vp_max_element(I b, I, C) { return b; }
struct vp_out {
  template <class X> vp_out& operator<<(const X&) { return *this; }
};
inline vp_out vp_cout;
}
#define mt19937 vp_rng
#define uniform_int_distribution vp_unif
#define unordered_map vp_umap
#define max_element vp_max_element
#define cout vp_cout
// afforest's callees stay calls, checked against their contracts, which are proved separately
namespace nw::graph {
template <typename Vector, typename T> [[gnu::noinline]] static void link(T u, T v, Vector& comp);
template <typename Execution, typename Vector> [[gnu::noinline]] static void compress(Execution& exec, Vector& comp);
}
#include "nwgraph/algorithms/connected_components.hpp"
// afforest on a CSR graph, without or with a transpose; out receives the labels
extern "C" size_t vp_afforest(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* tind, size_t rounds, uint32_t* out) {
  adjacency<0> A = mk(ind, n, tgt, m);
  adjacency<0> T = mk(tind, 0, tind, 0);
  auto c = afforest(std::execution::seq, A, T, rounds);
  for (size_t i = 0; i < c.size(); ++i) out[i] = c[i].load();
  return c.size();
}
extern "C" size_t vp_afforest_t(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* tind, size_t tn, uint32_t* ttgt, size_t tm, size_t rounds, uint32_t* out) {
  adjacency<0> A = mk(ind, n, tgt, m);
  adjacency<0> T = mk(tind, tn, ttgt, tm);
  auto c = afforest(std::execution::seq, A, T, rounds);
  for (size_t i = 0; i < c.size(); ++i) out[i] = c[i].load();
  return c.size();
}
