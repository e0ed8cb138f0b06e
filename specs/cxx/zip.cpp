// struct_of_arrays and zipped: element access, iterator laws, writes, growth
#include "common.hpp"
#include "nwgraph/containers/soa.hpp"
#include "nwgraph/containers/zip.hpp"
using S = struct_of_arrays<uint32_t, uint64_t>;
using Z = zipped<V32, V64>;
static inline void view(S& s, uint32_t* a, uint64_t* b, size_t n) {
  auto& x = std::get<0>(static_cast<S::base&>(s));
  auto& y = std::get<1>(static_cast<S::base&>(s));
  x.d = a; x.n = n; y.d = b; y.n = n;
}
template <class X>
static inline void law(X&& c, size_t i, size_t j, size_t n) {
  auto     b = c.begin();
  ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
  vp_require(c.size() == n);
  vp_require(size_t(c.end() - c.begin()) == n);
  vp_require(c.begin() + n == c.end());
  auto x = b + i, y = b + j;
  vp_require(y - x == d);
  vp_require(x + d == y);
  vp_require(d + x == y);
  vp_require(y - d == x);
  vp_require(x + d - d == x);
  vp_require((x == y) == (i == j));
  vp_require((x != y) == (i != j));
  vp_require((x < y) == (i < j));
  vp_require((x > y) == (i > j));
  vp_require((x <= y) == (i <= j));
  vp_require((x >= y) == (i >= j));
  auto z = x;
  z += d;
  vp_require(z == y);
  z -= d;
  vp_require(z == x);
  vp_require(++z == x + 1);
  vp_require(--z == x);
  vp_require(z++ == x);
  vp_require(z == x + 1);
  vp_require(z-- == x + 1);
  vp_require(z == x);
  vp_require(--z == x - 1);
  vp_require(++z == x);
}
template <int q, class X>
static inline uint64_t reads(X&& c, size_t i, size_t j) {
  // i, j < size: every way of reading element j gives the same value
  auto      b = c.begin();
  ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
  auto      v = std::get<q>(c[j]);
  auto      x = b + i;
  vp_require(std::get<q>(*(b + j)) == v);
  vp_require(std::get<q>(b[j]) == v);
  vp_require(std::get<q>(x[d]) == v);
  vp_require(std::get<q>(*(x + d)) == v);
  vp_require(std::get<q>(*(d + x)) == v);
  auto y = b + j;
  vp_require(std::get<q>(*y) == v);
  vp_require(std::get<q>(*y.operator->().operator->()) == v);
  return v;
}
#define LAWS(N, MK)                                                                                                      \
  extern "C" void vp_##N##_laws(uint32_t* a, uint64_t* b, size_t n, size_t i, size_t j) { MK law(c, i, j, n); }             \
  extern "C" uint64_t vp_##N##_read0(uint32_t* a, uint64_t* b, size_t n, size_t i, size_t j) { MK return reads<0>(c, i, j); } \
  extern "C" uint64_t vp_##N##_read1(uint32_t* a, uint64_t* b, size_t n, size_t i, size_t j) { MK return reads<1>(c, i, j); }
#define MKS S c; view(c, a, b, n);
#define MKZ V32 va(vp_view_tag{}, a, n); V64 vb(vp_view_tag{}, b, n); Z c(va, vb);
#define MKCS S c_; view(c_, a, b, n); const S& c = c_;
LAWS(soa, MKS)
LAWS(csoa, MKCS)
LAWS(zip, MKZ)
// writes through each way of naming an element
#define WRITES(N, MK)                                                                                                              \
  extern "C" void vp_##N##_w_index(uint32_t* a, uint64_t* b, size_t n, size_t j, uint32_t x, uint64_t y) { MK c[j] = std::tuple(x, y); } \
  extern "C" void vp_##N##_w_deref(uint32_t* a, uint64_t* b, size_t n, size_t j, uint32_t x, uint64_t y) {                          \
    MK auto it = c.begin();                                                                                                        \
    it += j;                                                                                                                       \
    *it = std::tuple(x, y);                                                                                                        \
  }                                                                                                                                \
  extern "C" void vp_##N##_w_sub(uint32_t* a, uint64_t* b, size_t n, size_t j, uint32_t x, uint64_t y) {                            \
    MK auto it = c.end();                                                                                                          \
    it[ptrdiff_t(j) - ptrdiff_t(n)] = std::tuple(x, y);                                                                            \
  }                                                                                                                                \
  extern "C" void vp_##N##_w_each(uint32_t* a, uint64_t* b, size_t n, uint64_t y) {                                                 \
    MK for (auto&& [u, v] : c) v = uint64_t(u) + y;                                                                                          \
  }                                                                                                                                \
  extern "C" void vp_##N##_w_swap(uint32_t* a, uint64_t* b, size_t n, size_t i, size_t j) {                                          \
    MK auto p = c.begin() + i, q = c.begin() + j;                                                                                  \
    std::iter_swap(p, q);                                                                                                          \
  }
WRITES(soa, MKS)
WRITES(zip, MKZ)
static inline void outs(S& s) {
  vp_result(0, std::get<0>(static_cast<S::base&>(s)).d, std::get<0>(static_cast<S::base&>(s)).size());
  vp_result(1, std::get<1>(static_cast<S::base&>(s)).d, std::get<1>(static_cast<S::base&>(s)).size());
  vp_result(2, std::get<1>(static_cast<S::base&>(s)).d, s.size());
}
extern "C" void vp_soa_push(uint32_t* a, uint64_t* b, size_t n, uint32_t x, uint64_t y) { MKS c.push_back(x, y); outs(c); }
extern "C" void vp_soa_push_t(uint32_t* a, uint64_t* b, size_t n, uint32_t x, uint64_t y) { MKS c.push_back(std::tuple(x, y)); outs(c); }
extern "C" void vp_soa_at(uint32_t* a, uint64_t* b, size_t n, size_t j, uint32_t x, uint64_t y) { MKS c.push_at(j, x, y); outs(c); }
extern "C" void vp_soa_at_t(uint32_t* a, uint64_t* b, size_t n, size_t j, uint32_t x, uint64_t y) { MKS c.push_at(j, std::tuple(x, y)); outs(c); }
extern "C" void vp_soa_clear(uint32_t* a, uint64_t* b, size_t n) { MKS c.clear(); outs(c); }
extern "C" void vp_soa_resize(uint32_t* a, uint64_t* b, size_t n, size_t k) { MKS c.resize(k); outs(c); }
extern "C" bool vp_soa_eq(uint32_t* a, uint64_t* b, size_t n, uint32_t* a2, uint64_t* b2, size_t n2) {
  MKS S c2;
  view(c2, a2, b2, n2);
  return c == c2;
}
extern "C" bool vp_zip_eq(uint32_t* a, uint64_t* b, size_t n, uint32_t* a2, uint64_t* b2, size_t n2) {
  MKZ V32 va2(vp_view_tag{}, a2, n2);
  V64 vb2(vp_view_tag{}, b2, n2);
  Z   c2(va2, vb2);
  return c == c2;
}
