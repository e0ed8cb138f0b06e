#include "vp_shim.hpp"
#define fill vp_fill
#include "nwgraph/util/AtomicBitVector.hpp"
using namespace nw::graph;
using BV = AtomicBitVector<uint64_t>;
// a real AtomicBitVector over a caller-provided word array (never destroyed)
union U {
  BV v;
  U(uint64_t* d, size_t bits) { v.bits_ = bits; v.data_ = d; }
  ~U() {}
};
extern "C" uint64_t vp_bv_get(uint64_t* d, size_t bits, size_t i) {
  U u(d, bits);
  return u.v.get(i);
}
extern "C" uint64_t vp_bv_atomic_get(uint64_t* d, size_t bits, size_t i) {
  U u(d, bits);
  return u.v.atomic_get(i);
}
extern "C" uint64_t vp_bv_set(uint64_t* d, size_t bits, size_t i) {
  U u(d, bits);
  return u.v.set(i);
}
extern "C" uint64_t vp_bv_atomic_set(uint64_t* d, size_t bits, size_t i) {
  U u(d, bits);
  return u.v.atomic_set(i);
}
extern "C" void vp_bv_clear(uint64_t* d, size_t bits) {
  U u(d, bits);
  u.v.clear();
}
static inline void put(BV::non_zero_iterator it, uint64_t* out) {
  out[0] = it.word_;
  out[1] = it.bit_;
  out[2] = *it;
}
extern "C" bool vp_bv_begin(uint64_t* d, size_t bits, uint64_t* out) {
  U    u(d, bits);
  auto it = u.v.begin();
  put(it, out);
  return it == u.v.end();
}
extern "C" bool vp_bv_next(uint64_t* d, size_t bits, uint64_t* out) {
  U    u(d, bits);
  auto it  = u.v.end();
  it.word_ = out[0];
  it.bit_  = out[1];
  ++it;
  put(it, out);
  return it == u.v.end();
}
extern "C" bool vp_bv_postinc(uint64_t* d, size_t bits, uint64_t* out) {
  U    u(d, bits);
  auto it  = u.v.end();
  it.word_ = out[0];
  it.bit_  = out[1];
  auto o   = it++;
  put(o, out + 3);
  put(it, out);
  return it == u.v.end();
}
// the splittable word range: [b,e) words; both pieces after one split
extern "C" bool vp_bv_split(uint64_t* d, size_t n, size_t b, size_t e, size_t cutoff, uint64_t* out) {
  BV::non_zero_range r(d, n, b, e, cutoff);
  bool               div = r.is_divisible();
  BV::non_zero_range s(r, tbb::split{});
  out[0] = s.begin_;
  out[1] = s.end_;
  out[2] = r.begin_;
  out[3] = r.end_;
  return div;
}
extern "C" bool vp_bv_range(uint64_t* d, size_t n, size_t b, size_t e, size_t cutoff, uint64_t* out) {
  BV::non_zero_range r(d, n, b, e, cutoff);
  put(r.begin(), out);
  put(r.end(), out + 3);
  out[6] = r.size();
  return r.empty();
}
