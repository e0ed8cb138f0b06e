// Contract-carrying stand-ins for the standard-library containers and algorithms the code under verification calls.
//
// The text under verification is /repo's, unchanged; only its *dependencies* are replaced, by the preprocessor: every standard
// header is included first, then std::vector, std::deque, ... are renamed to the classes below, whose operations are either tiny
// inline definitions over an unbounded, never-moving buffer or calls to extern functions that the verifier knows by contract.
// What this drops (and is listed as an assumption in the evidence): allocation failure, reallocation and iterator invalidation,
// capacity, the concrete libstdc++/TBB implementation, and parallel scheduling.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <execution>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ostream>
#include <queue>
#include <random>
#include <ranges>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <tbb/blocked_range.h>
#include <tbb/concurrent_queue.h>
#include <tbb/concurrent_vector.h>
#include <tbb/parallel_for.h>
#include <tbb/parallel_for_each.h>
#include <tbb/parallel_reduce.h>
#include <tbb/parallel_sort.h>
#include <tbb/tbb.h>

extern "C" {
// fresh, unbounded, non-aliasing buffer of elements of the given size
void* vp_alloc(std::size_t elem_size) noexcept __attribute__((malloc, returns_nonnull));
void  vp_free(void*) noexcept;
// buf[0..n) := v, everything else unchanged
void vp_fill8(void* buf, std::size_t n, unsigned char v) noexcept;
void vp_fill32(void* buf, std::size_t n, std::uint32_t v) noexcept;
void vp_fill64(void* buf, std::size_t n, std::uint64_t v) noexcept;
// whole-buffer content exchange / copy (containers swap, move and copy)
void vp_swap_buf(void* a, void* b) noexcept;
void vp_copy_buf(void* dst, const void* src) noexcept;
// a library precondition is violated
[[noreturn]] void vp_fail() noexcept;
// a container cannot grow further (std::length_error / std::bad_alloc): the call does not return
[[noreturn]] void vp_throw() noexcept;
// std::sort / std::stable_sort, contract in four steps: an arbitrary bijection of [0,n); every column rearranged by it; two arbitrary
// positions i <= j < n; the comparator's verdicts there, (later < earlier) and (earlier < later): the first is false for every i < j
// (sorted), both at once is a violated precondition (not a strict weak ordering); stable: equivalent elements keep their order
std::size_t vp_perm(std::size_t n) noexcept;
void        vp_permute(std::size_t h, void* first, std::size_t n, std::size_t elem_size) noexcept;
std::size_t vp_any(std::size_t h, int which) noexcept;
void        vp_ordered(std::size_t h, bool lt, bool gt, bool stable) noexcept;
// the verified wrapper hands a result buffer to its contract
void vp_result(int which, const void* p, std::size_t n) noexcept;
}

inline void vp_require(bool c) {
  if (!c) [[unlikely]]
    vp_fail();
}

inline void vp_grow(std::size_t n) {
  if (n >= (std::size_t(1) << 40)) [[unlikely]]
    vp_throw();
}

struct vp_view_tag {};

namespace std {

template <class T>
inline void vp_fill_buf(T* d, size_t n, const T& v) {
  if constexpr (std::is_trivially_copyable_v<T> && sizeof(T) == 1) {
    vp_fill8(d, n, std::bit_cast<unsigned char>(v));
  } else if constexpr (std::is_trivially_copyable_v<T> && sizeof(T) == 4) {
    vp_fill32(d, n, std::bit_cast<std::uint32_t>(v));
  } else if constexpr (std::is_trivially_copyable_v<T> && sizeof(T) == 8 && std::is_arithmetic_v<T>) {
    vp_fill64(d, n, std::bit_cast<std::uint64_t>(v));
  } else {
    for (size_t i = 0; i < n; ++i)
      d[i] = v;
  }
}

template <class T>
struct vp_iter {      // same interface as __gnu_cxx::__normal_iterator: a class type around a pointer
  using iterator_category = std::random_access_iterator_tag;
  using iterator_concept  = std::contiguous_iterator_tag;
  using value_type        = std::remove_cv_t<T>;
  using element_type      = T;
  using difference_type   = std::ptrdiff_t;
  using pointer           = T*;
  using reference         = T&;
  T* p = nullptr;
  constexpr vp_iter() = default;
  constexpr explicit vp_iter(T* q) : p(q) {}
  template <class U>
    requires(std::is_same_v<const U, T>)
  constexpr vp_iter(const vp_iter<U>& o) : p(o.p) {}
  constexpr T&       operator*() const { return *p; }
  constexpr T*       operator->() const { return p; }
  constexpr T&       operator[](difference_type n) const { return p[n]; }
  constexpr vp_iter& operator++() { ++p; return *this; }
  constexpr vp_iter  operator++(int) { vp_iter t = *this; ++p; return t; }
  constexpr vp_iter& operator--() { --p; return *this; }
  constexpr vp_iter  operator--(int) { vp_iter t = *this; --p; return t; }
  constexpr vp_iter& operator+=(difference_type n) { p += n; return *this; }
  constexpr vp_iter& operator-=(difference_type n) { p -= n; return *this; }
  friend constexpr vp_iter operator+(vp_iter a, difference_type n) { return vp_iter(a.p + n); }
  friend constexpr vp_iter operator+(difference_type n, vp_iter a) { return vp_iter(a.p + n); }
  friend constexpr vp_iter operator-(vp_iter a, difference_type n) { return vp_iter(a.p - n); }
  constexpr T* base() const { return p; }
};
template <class T, class U> constexpr std::ptrdiff_t operator-(vp_iter<T> a, vp_iter<U> b) { return a.p - b.p; }
template <class T, class U> constexpr bool operator==(vp_iter<T> a, vp_iter<U> b) { return a.p == b.p; }
template <class T, class U> constexpr auto operator<=>(vp_iter<T> a, vp_iter<U> b) { return a.p <=> b.p; }

template <class T, class A = std::allocator<T>>
class vp_vector {
public:
  using value_type             = T;
  using allocator_type         = A;
  using size_type              = size_t;
  using difference_type        = ptrdiff_t;
  using reference              = T&;
  using const_reference        = const T&;
  using pointer                = T*;
  using const_pointer          = const T*;
  using iterator               = vp_iter<T>;
  using const_iterator         = vp_iter<const T>;
  using reverse_iterator       = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;

  T*     d;
  size_t n;

  static T* alloc() { return static_cast<T*>(vp_alloc(sizeof(T))); }

  vp_vector() noexcept : d(alloc()), n(0) {}
  vp_vector(vp_view_tag, T* p, size_t k) noexcept : d(p), n(k) {}
  explicit vp_vector(size_t k) noexcept : d(alloc()), n(k) { init(0, k, T()); }
  vp_vector(size_t k, const T& v) noexcept : d(alloc()), n(k) { init(0, k, v); }
  vp_vector(const vp_vector& o) noexcept : d(alloc()), n(o.n) { vp_copy_buf(d, o.d); }
  vp_vector(vp_vector&& o) noexcept : d(o.d), n(o.n) { o.d = alloc(); o.n = 0; }
  vp_vector(std::initializer_list<T> il) noexcept : d(alloc()), n(0) {
    for (auto& x : il) push_back(x);
  }
  template <class It>
    requires(!std::is_integral_v<It>)
  vp_vector(It f, It l) noexcept : d(alloc()), n(0) {
    for (; f != l; ++f) push_back(*f);
  }
  vp_vector& operator=(const vp_vector& o) noexcept {
    vp_copy_buf(d, o.d);
    n = o.n;
    return *this;
  }
  vp_vector& operator=(vp_vector&& o) noexcept {
    vp_copy_buf(d, o.d);
    n   = o.n;
    o.n = 0;
    return *this;
  }
  ~vp_vector() {}

  void init(size_t from, size_t to, const T& v) { vp_fill_buf(d + from, to - from, v); }

  iterator       begin() noexcept { return iterator(d); }
  iterator       end() noexcept { return iterator(d + n); }
  const_iterator begin() const noexcept { return const_iterator(d); }
  const_iterator end() const noexcept { return const_iterator(d + n); }
  const_iterator cbegin() const noexcept { return const_iterator(d); }
  const_iterator cend() const noexcept { return const_iterator(d + n); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }

  size_t   size() const noexcept { return n; }
  size_t   capacity() const noexcept { return n; }
  bool     empty() const noexcept { return n == 0; }
  T*       data() noexcept { return d; }
  const T* data() const noexcept { return d; }
  T&       operator[](size_t i) { vp_require(i < n); return d[i]; }
  const T& operator[](size_t i) const { vp_require(i < n); return d[i]; }
  T&       at(size_t i) { vp_require(i < n); return d[i]; }
  const T& at(size_t i) const { vp_require(i < n); return d[i]; }
  T&       front() { vp_require(n > 0); return d[0]; }
  const T& front() const { vp_require(n > 0); return d[0]; }
  T&       back() { vp_require(n > 0); return d[n - 1]; }
  const T& back() const { vp_require(n > 0); return d[n - 1]; }

  void reserve(size_t) noexcept {}
  void shrink_to_fit() noexcept {}
  void clear() noexcept { n = 0; }
  void push_back(const T& x) { vp_grow(n); d[n] = x; n = n + 1; }
  template <class... Args>
  T& emplace_back(Args&&... args) {
    vp_grow(n);
    d[n] = T(std::forward<Args>(args)...);
    n    = n + 1;
    return d[n - 1];
  }
  void pop_back() { vp_require(n > 0); n = n - 1; }
  void resize(size_t k) {
    if (k > n) init(n, k, T());
    n = k;
  }
  void resize(size_t k, const T& v) {
    if (k > n) init(n, k, v);
    n = k;
  }
  void assign(size_t k, const T& v) {
    init(0, k, v);
    n = k;
  }
  iterator erase(iterator f) {
    vp_require(f.p != d + n);
    T* w = f.p;
    for (T* r = w + 1; r != d + n; ++r, ++w) *w = *r;
    n = n - 1;
    return f;
  }
  iterator erase(iterator f, iterator l) {
    if (l.p == d + n) {
      n = f.p - d;
      return f;
    }
    T *w = f.p, *r = l.p;
    for (; r != d + n; ++r, ++w) *w = *r;
    n = w - d;
    return f;
  }
  void swap(vp_vector& o) noexcept {
    vp_swap_buf(d, o.d);
    std::swap(n, o.n);
  }
  friend bool operator==(const vp_vector& a, const vp_vector& b) {
    if (a.n != b.n) return false;
    for (size_t i = 0; i < a.n; ++i)
      if (!(a.d[i] == b.d[i])) return false;
    return true;
  }
};

// one byte per element instead of one bit
template <class A>
class vp_vector<bool, A> {
public:
  using value_type      = bool;
  using size_type       = size_t;
  using difference_type = ptrdiff_t;
  using reference       = bool&;
  using const_reference = bool;
  bool*  d;
  size_t n;
  static bool* alloc() { return static_cast<bool*>(vp_alloc(1)); }
  vp_vector() noexcept : d(alloc()), n(0) {}
  explicit vp_vector(size_t k) noexcept : d(alloc()), n(k) { vp_fill8(d, k, 0); }
  vp_vector(size_t k, bool v) noexcept : d(alloc()), n(k) { vp_fill8(d, k, v); }
  vp_vector(const vp_vector& o) noexcept : d(alloc()), n(o.n) { vp_copy_buf(d, o.d); }
  size_t       size() const noexcept { return n; }
  bool         empty() const noexcept { return n == 0; }
  bool&        operator[](size_t i) { vp_require(i < n); return d[i]; }
  bool         operator[](size_t i) const { vp_require(i < n); return d[i]; }
  vp_iter<bool> begin() { return vp_iter<bool>(d); }
  vp_iter<bool> end() { return vp_iter<bool>(d + n); }
  void         push_back(bool x) { d[n] = x; n = n + 1; }
  void         reserve(size_t) {}
  void         resize(size_t k, bool v = false) {
    if (k > n) vp_fill8(d + n, k - n, v);
    n = k;
  }
};

// double-ended queue used as FIFO: two cursors into an unbounded buffer
template <class T, class A = std::allocator<T>>
class vp_deque {
public:
  using value_type      = T;
  using size_type       = size_t;
  using reference       = T&;
  using const_reference = const T&;
  using iterator        = vp_iter<T>;
  using const_iterator  = vp_iter<const T>;
  T*     d;
  size_t h, t;
  vp_deque() noexcept : d(static_cast<T*>(vp_alloc(sizeof(T)))), h(0), t(0) {}
  vp_deque(const vp_deque& o) noexcept : d(static_cast<T*>(vp_alloc(sizeof(T)))), h(o.h), t(o.t) { vp_copy_buf(d, o.d); }
  vp_deque(vp_deque&& o) noexcept : d(o.d), h(o.h), t(o.t) { o.d = static_cast<T*>(vp_alloc(sizeof(T))); o.h = o.t = 0; }
  vp_deque& operator=(const vp_deque& o) noexcept {
    vp_copy_buf(d, o.d);
    h = o.h;
    t = o.t;
    return *this;
  }
  vp_deque& operator=(vp_deque&& o) noexcept {
    vp_copy_buf(d, o.d);
    h = o.h;
    t = o.t;
    o.h = o.t = 0;
    return *this;
  }
  bool     empty() const { return h == t; }
  size_t   size() const { return t - h; }
  T&       front() { vp_require(h != t); return d[h]; }
  const T& front() const { vp_require(h != t); return d[h]; }
  T&       back() { vp_require(h != t); return d[t - 1]; }
  T&       operator[](size_t i) { vp_require(i < t - h); return d[h + i]; }
  void     push_back(const T& x) { vp_grow(t); d[t] = x; t = t + 1; }
  template <class... Args>
  void emplace_back(Args&&... args) { vp_grow(t); d[t] = T(std::forward<Args>(args)...); t = t + 1; }
  void     pop_front() { vp_require(h != t); h = h + 1; }
  void     pop_back() { vp_require(h != t); t = t - 1; }
  void     clear() { h = t = 0; }
  iterator begin() { return iterator(d + h); }
  iterator end() { return iterator(d + t); }
  const_iterator begin() const { return const_iterator(d + h); }
  const_iterator end() const { return const_iterator(d + t); }
  void swap(vp_deque& o) noexcept {
    vp_swap_buf(d, o.d);
    std::swap(h, o.h);
    std::swap(t, o.t);
  }
};

template <class T, class A>
inline void swap(vp_vector<T, A>& a, vp_vector<T, A>& b) noexcept { a.swap(b); }
template <class T, class A>
inline void swap(vp_deque<T, A>& a, vp_deque<T, A>& b) noexcept { a.swap(b); }

template <class T, class C = vp_deque<T>>
class vp_queue {
public:
  using value_type     = T;
  using container_type = C;
  using size_type      = size_t;
  C        c;
  bool     empty() const { return c.empty(); }
  size_t   size() const { return c.size(); }
  T&       front() { return c.front(); }
  const T& front() const { return c.front(); }
  void     push(const T& x) { c.push_back(x); }
  template <class... Args>
  void emplace(Args&&... args) { c.emplace_back(std::forward<Args>(args)...); }
  void pop() { c.pop_front(); }
};

template <class T, class C = vp_vector<T>>
class vp_stack {
public:
  using value_type     = T;
  using container_type = C;
  using size_type      = size_t;
  vp_vector<T> c;
  bool         empty() const { return c.empty(); }
  size_t       size() const { return c.size(); }
  T&           top() { return c.back(); }
  void         push(const T& x) { c.push_back(x); }
  template <class... Args>
  void emplace(Args&&... args) { c.emplace_back(std::forward<Args>(args)...); }
  void pop() { c.pop_back(); }
};

// std::for_each with an execution policy: sequential reading
template <class P, class It, class F>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline void vp_for_each(P&&, It f, It l, F fn) {
  for (; f != l; ++f) fn(*f);
}
template <class It, class F>
inline F vp_for_each(It f, It l, F fn) {
  for (; f != l; ++f) fn(*f);
  return fn;
}

template <class It, class T>
inline void vp_fill(It f, It l, const T& v) {
  using V = std::remove_reference_t<decltype(*f)>;
  if constexpr (requires { f.base(); } && std::is_arithmetic_v<V>) {
    vp_fill_buf(f.base(), size_t(l - f), V(v));
  } else {
    for (; f != l; ++f) *f = v;
  }
}
template <class P, class It, class T>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline void vp_fill(P&&, It f, It l, const T& v) { vp_fill(f, l, v); }

template <class I, class O>
inline O vp_copy(I f, I l, O o) {
  for (; f != l; ++f, ++o) *o = *f;
  return o;
}
template <class P, class I, class O>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline O vp_copy(P&&, I f, I l, O o) { return vp_copy(f, l, o); }

template <class I, class O>
inline O vp_inclusive_scan(I f, I l, O o) {
  if (f == l) return o;
  auto s = *f;
  *o     = s;
  for (++f, ++o; f != l; ++f, ++o) {
    s  = s + *f;
    *o = s;
  }
  return o;
}
template <class P, class I, class O>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline O vp_inclusive_scan(P&&, I f, I l, O o) { return vp_inclusive_scan(f, l, o); }

template <class I, class O, class T>
inline O vp_exclusive_scan(I f, I l, O o, T init) {
  for (; f != l; ++f, ++o) {
    auto x = *f;
    *o     = init;
    init   = init + x;
  }
  return o;
}
template <class P, class I, class O, class T>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline O vp_exclusive_scan(P&&, I f, I l, O o, T init) { return vp_exclusive_scan(f, l, o, init); }

template <class It, class T>
inline void vp_iota(It f, It l, T v) {
  for (; f != l; ++f, ++v) *f = v;
}

template <class It, class T>
inline It vp_lower_bound(It f, It l, const T& v) {
  // linear reading of the library contract (first position not less than v)
  while (f != l && *f < v) ++f;
  return f;
}
template <class It, class T>
inline It vp_upper_bound(It f, It l, const T& v) {
  while (f != l && !(v < *f)) ++f;
  return f;
}

template <class I, class J>
  requires(!std::is_execution_policy_v<std::remove_cvref_t<I>>)
inline bool vp_equal(I f, I l, J g) {
  for (; f != l; ++f, ++g)
    if (!(*f == *g)) return false;
  return true;
}
template <class P, class I, class J>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline bool vp_equal(P&&, I f, I l, J g) { return vp_equal(f, l, g); }

// unique: keeps the first of every run (the reference algorithm of the standard)
template <class It, class Pred>
  requires(!std::is_execution_policy_v<std::remove_cvref_t<It>>)
inline It vp_unique(It f, It l, Pred p) {
  if (f == l) return l;
  It w = f;
  for (++f; f != l; ++f)
    if (!p(*w, *f)) {
      ++w;
      *w = *f;
    }
  ++w;
  return w;
}
template <class P, class It, class Pred>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline It vp_unique(P&&, It f, It l, Pred p) { return vp_unique(f, l, p); }

// remove_if: stable compaction (the reference algorithm of the standard)
template <class It, class Pred>
inline It vp_remove_if(It f, It l, Pred p) {
  It w = f;
  for (; f != l; ++f)
    if (!p(*f)) {
      *w = *f;
      ++w;
    }
  return w;
}

template <class T>
inline void vp_permute_col(size_t h, size_t n, T& x) {
  if constexpr (requires { std::tuple_size<std::remove_cv_t<T>>::value; std::get<0>(x); } && !requires { x.first; })
    std::apply([&](auto&... y) { (vp_permute_col(h, n, y), ...); }, x);
  else
    vp_permute(h, const_cast<std::remove_cv_t<T>*>(&x), n, sizeof(T));
}
template <class It, class Cmp>
inline void vp_sort_impl(It f, It l, Cmp c, bool stable) {
  size_t n = l - f;
  if (n == 0) return;
  size_t h = vp_perm(n);
  {
    auto&& r = f[0];
    vp_permute_col(h, n, r);
  }
  size_t i = vp_any(h, 0), j = vp_any(h, 1);
  bool   lt = c(f[j], f[i]), gt = c(f[i], f[j]);
  vp_ordered(h, lt, gt, stable);
}
template <class It, class Cmp>
  requires(!std::is_execution_policy_v<std::remove_cvref_t<It>>)
inline void vp_sort(It f, It l, Cmp c) { vp_sort_impl(f, l, c, false); }
template <class It>
  requires(!std::is_execution_policy_v<std::remove_cvref_t<It>>)
inline void vp_sort(It f, It l) { vp_sort_impl(f, l, [](auto&& a, auto&& b) { return a < b; }, false); }
template <class P, class It, class Cmp>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline void vp_sort(P&&, It f, It l, Cmp c) { vp_sort_impl(f, l, c, false); }
template <class P, class It>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline void vp_sort(P&&, It f, It l) { vp_sort_impl(f, l, [](auto&& a, auto&& b) { return a < b; }, false); }
template <class It, class Cmp>
  requires(!std::is_execution_policy_v<std::remove_cvref_t<It>>)
inline void vp_stable_sort(It f, It l, Cmp c) { vp_sort_impl(f, l, c, true); }
template <class P, class It, class Cmp>
  requires(std::is_execution_policy_v<std::remove_cvref_t<P>>)
inline void vp_stable_sort(P&&, It f, It l, Cmp c) { vp_sort_impl(f, l, c, true); }

// tbb: sequential reading
}    // namespace std

namespace tbb {
template <class R, class F>
inline void vp_parallel_for(R&& r, F&& f) { f(r); }
template <class I, class F>
  requires(std::is_integral_v<I>)
inline void vp_parallel_for(I a, I b, F&& f) {
  for (I i = a; i < b; ++i) f(i);
}
template <class R, class T, class F, class J>
inline T vp_parallel_reduce(R&& r, T init, F&& f, J&&) { return f(r, init); }
}    // namespace tbb
namespace std::execution {}

#define vector vp_vector
#define deque vp_deque
#define queue vp_queue
#define stack vp_stack
#define for_each vp_for_each
#define copy vp_copy
#define sort vp_sort
#define stable_sort vp_stable_sort
#define fill_n vp_fill_n
#define inclusive_scan vp_inclusive_scan
#define exclusive_scan vp_exclusive_scan
#define iota vp_iota
#define lower_bound vp_lower_bound
#define upper_bound vp_upper_bound
#define remove_if vp_remove_if
#define unique vp_unique
#define equal vp_equal
#define parallel_for vp_parallel_for
#define parallel_reduce vp_parallel_reduce
