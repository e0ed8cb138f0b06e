#include "common.hpp"
// vector<vector<Id>> by contract: the bins are a log of (element, bin) pairs; the order inside a bin is unspecified, so what is proved
// holds for every order
extern "C" void   vp_bins_pushed(const void* lv, const void* lb, size_t pos) noexcept;      // ghost: the entry at pos is new
extern "C" size_t vp_bins_take(void* f, void* lv, void* lb, size_t n, size_t b) noexcept;   // the entries of bin b move to f; returns their number
extern "C" size_t vp_bins_left(size_t taken) noexcept;                                      // the number of entries left
extern "C" size_t vp_bins_size(const void* lb, size_t n, size_t b, size_t nb) noexcept;     // the number of entries of bin b (of nb bins)
// the bucket width by contract: x / delta >= t exactly if x >= delta * t
extern "C" size_t vp_delta_bin(uint64_t x) noexcept;
extern "C" uint64_t vp_delta_mul(size_t t) noexcept;
namespace std {
template <class T> struct vp_bin_ref;
template <class T, class A> class vp_vector<vp_vector<T>, A> {
public:
  T*      lv;
  size_t* lb;
  size_t  n, nb;
  explicit vp_vector(size_t k) : lv(static_cast<T*>(vp_alloc(sizeof(T)))), lb(static_cast<size_t*>(vp_alloc(sizeof(size_t)))), n(0), nb(k) {}
  size_t size() const { return nb; }
  void   resize(size_t k) {
    vp_grow(k);
    vp_require(k >= nb);      // (shrinking is not used)
    nb = k;
  }
  vp_bin_ref<T> operator[](size_t b) {
    vp_require(b < nb);
    return {*this, b};
  }
};
template <class T> struct vp_bin_ref {
  vp_vector<vp_vector<T>>& v;
  size_t                   b;
  void push_back(const T& x) {
    vp_grow(v.n);
    v.lv[v.n] = x;
    v.lb[v.n] = b;
    vp_bins_pushed(v.lv, v.lb, v.n);
    v.n = v.n + 1;
  }
  size_t size() const { return vp_bins_size(v.lb, v.n, b, v.nb); }
  bool   empty() const { return size() == 0; }
};
template <class T> inline void swap(vp_vector<T>& f, vp_bin_ref<T>&& r) {
  vp_require(f.n == 0);
  f.n   = vp_bins_take(f.d, r.v.lv, r.v.lb, r.v.n, r.b);
  r.v.n = vp_bins_left(f.n);
}
}
struct vp_delta {
  friend uint64_t operator*(vp_delta, size_t t) { return vp_delta_mul(t); }
  friend size_t   operator/(uint64_t x, vp_delta) { return vp_delta_bin(x); }
};
#include "nwgraph/algorithms/delta_stepping.hpp"
extern "C" const uint64_t* vp_delta_stepping(uint32_t* ind, size_t n, uint32_t* tgt, size_t m, uint32_t* wgt, uint32_t source) {
  adjacency<0, uint32_t> A(V32(vp_view_tag{}, ind, n + 1), V32(vp_view_tag{}, tgt, m), V32(vp_view_tag{}, wgt, m));
  auto p = delta_stepping<uint64_t>(A, source, vp_delta{}, [](auto& e) -> auto& { return std::get<1>(e); });
  return p.data();
}
