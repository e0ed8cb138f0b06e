#include <cstring>
#include "h.hpp"
#include <algorithm>
#include <numeric>
#include <tbb/tbb.h>
#include "nwgraph/containers/soa.hpp"
#include "nwgraph/containers/zip.hpp"
using namespace nw::graph;
using namespace vh;
using S = struct_of_arrays<u32, uint64_t, double>;
static S mk(size_t n) {
  S s;
  for (size_t k = 0; k < n; ++k) s.push_back(u32(7 * k + 3), uint64_t(1) << (k % 60), double(k) / 2);
  return s;
}
static std::tuple<u32, uint64_t, double> want(size_t k) { return {u32(7 * k + 3), uint64_t(1) << (k % 60), double(k) / 2}; }
template <class X> static void laws(const std::string& nm, X&& c, size_t n) {
  using T = std::tuple<u32, uint64_t, double>;
  if (!expect_eq(nm + "-size", size_t(c.size()), n)) return;
  expect_eq(nm + "-distance", size_t(c.end() - c.begin()), n);
  size_t k = 0;
  for (auto&& t : c) {
    if (!expect(nm + "-range-for", k < n && T(t) == want(k), show(k))) return;
    ++k;
  }
  expect_eq(nm + "-visits", k, n);
  for (size_t i = 0; i <= n; ++i)
    for (size_t j = 0; j <= n; ++j) {
      ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
      auto      x = c.begin() + i, y = c.begin() + j, z = x;
      bool ok = (y - x == d) && (x + d == y) && (d + x == y) && (y - d == x) && ((x == y) == (i == j)) && ((x < y) == (i < j)) && ((x > y) == (i > j)) && ((x <= y) == (i <= j)) && ((x >= y) == (i >= j));
      z += d;
      ok = ok && z == y;
      z -= d;
      ok = ok && z == x && z++ == x && z == x + 1 && z-- == x + 1 && z == x && ++z == x + 1 && --z == x && --z == x - 1;
      expect(nm + "-iterator-laws", ok, "i=" + show(i) + " j=" + show(j));
      if (j < n) {
        bool r = T(*y) == want(j) && T(c[j]) == want(j) && T(x[d]) == want(j) && T(*(x + d)) == want(j) && std::get<1>(*y.operator->().operator->()) == std::get<1>(want(j));
        expect(nm + "-reads", r, "i=" + show(i) + " j=" + show(j));
      }
    }
}
SECTION("laws") {
  for (size_t n = 0; n <= 12; ++n) {
    note("n=" + show(n));
    S s = mk(n);
    laws("soa", s, n);
    laws("const-soa", std::as_const(s), n);
    auto& [a, b, c] = static_cast<S::base&>(s);
    auto z = make_zipped(a, b, c);
    laws("zip", z, n);
  }
}
SECTION("writes") {
  for (size_t n = 1; n <= 9; ++n)
    for (size_t j = 0; j < n; ++j)
      for (int how = 0; how < 7; ++how) {
        note("n=" + show(n) + " j=" + show(j) + " how=" + show(how));
        S    s = mk(n);
        auto& [a, b, c] = static_cast<S::base&>(s);
        auto z = make_zipped(a, b, c);
        std::tuple<u32, uint64_t, double> v(99, 98, 97);
        switch (how) {
          case 0: s[j] = v; break;
          case 1: *(s.begin() + j) = v; break;
          case 2: s.end()[ptrdiff_t(j) - ptrdiff_t(n)] = v; break;
          case 3: z[j] = v; break;
          case 4: *(z.begin() + j) = v; break;
          case 5: z.end()[ptrdiff_t(j) - ptrdiff_t(n)] = v; break;
          case 6: s.push_at(j, v); break;
        }
        for (size_t k = 0; k < n; ++k) {
          auto w = k == j ? v : want(k);
          expect("write-exactly-that-element", a[k] == std::get<0>(w) && b[k] == std::get<1>(w) && c[k] == std::get<2>(w), "element " + show(k));
        }
      }
}
SECTION("bits") {      // the value stored is the value given, bit for bit
  const double d[] = {0.0, -0.0, 1.5, __builtin_nan(""), -__builtin_nan("7"), __builtin_inf(), 4.9e-324};
  for (double x : d)
    for (double y : d)
      for (int how = 0; how < 5; ++how) {
        note("old=" + std::to_string(x) + " new=" + std::to_string(y) + " how=" + show(how));
        S s = mk(3);
        s.push_at(1, 7u, uint64_t(8), x);
        std::tuple<u32, uint64_t, double> v(7, 8, y);
        switch (how) {
          case 0: s[1] = v; break;
          case 1: *(s.begin() + 1) = v; break;
          case 2: s.push_at(1, 7u, uint64_t(8), y); break;
          case 3: s.push_at(1, v); break;
          case 4: s.push_back(v); std::swap(std::get<2>(static_cast<S::base&>(s))[1], std::get<2>(static_cast<S::base&>(s))[3]); break;
        }
        double got = std::get<2>(s[1]);
        expect("write-bits", memcmp(&got, &y, sizeof y) == 0 && std::get<0>(s[1]) == 7 && std::get<1>(s[1]) == 8, "element 1");
      }
}
SECTION("equality") {
  for (size_t n = 0; n <= 5; ++n)
    for (size_t m = 0; m <= 5; ++m)
      for (size_t j = 0; j <= m; ++j) {
        note("n=" + show(n) + " m=" + show(m) + " changed=" + show(j));
        S s = mk(n), t = mk(m);
        if (j < m) std::get<1>(t[j]) = 5;
        auto& [a, b, c] = static_cast<S::base&>(s);
        auto& [d, e, f] = static_cast<S::base&>(t);
        auto y = make_zipped(a, b, c), z = make_zipped(d, e, f);
        expect_eq("soa-equal", bool(s == t), n == m && j == m);
        expect_eq("zip-equal", bool(y == z), n == m && j == m);
      }
}
SECTION("grow") {
  Rng rn(g_seed);
  for (int it = 0; it < 60; ++it) {
    S      s;
    std::vector<std::tuple<u32, uint64_t, double>> ref;
    note("random history " + show(it));
    for (int k = 0; k < 40; ++k) {
      switch (rn(6)) {
        case 0: case 1: case 2: s.push_back(u32(k), k * 5, k * .5); ref.emplace_back(u32(k), k * 5, k * .5); break;
        case 3: s.push_back(std::tuple<u32, uint64_t, double>(k, 1, 2)); ref.emplace_back(k, 1, 2); break;
        case 4: { size_t n = rn(12); s.resize(n); ref.resize(n); break; }
        case 5: if (!rn(5)) { s.clear(); ref.clear(); } break;
      }
      auto& [a, b, c] = static_cast<S::base&>(s);
      bool ok = a.size() == ref.size() && b.size() == ref.size() && c.size() == ref.size() && s.size() == ref.size();
      for (size_t q = 0; ok && q < ref.size(); ++q) ok = std::tuple<u32, uint64_t, double>(s[q]) == ref[q];
      expect("columns-in-step", ok, "after step " + show(k));
    }
  }
}
SECTION("algorithms") {
  Rng rn(g_seed);
  for (int it = 0; it < 60; ++it) {
    size_t n = rn(it < 50 ? 40 : 1200);
    std::vector<u32> a(n); std::vector<uint64_t> b(n); std::vector<double> c(n);
    S s;
    for (size_t k = 0; k < n; ++k) { a[k] = rn(n + 1); b[k] = a[k] * 3 + 1; c[k] = a[k] / 2.; s.push_back(a[k], b[k], c[k]); }
    note("sorting " + show(n) + " random elements");
    auto z = make_zipped(a, b, c);
    auto lt = [](auto&& x, auto&& y) { return std::get<0>(x) < std::get<0>(y); };
    std::vector<u32> ref(a);
    std::sort(ref.begin(), ref.end());
    std::sort(z.begin(), z.end(), lt);
    std::sort(s.begin(), s.end(), lt);
    for (size_t k = 0; k < n; ++k) {
      expect("sort-keeps-tuples", a[k] == ref[k] && b[k] == a[k] * 3 + 1 && c[k] == a[k] / 2., "zip position " + show(k));
      auto [x, y, w] = s[k];
      expect("sort-keeps-tuples", x == ref[k] && y == x * 3 + 1 && w == x / 2., "soa position " + show(k));
    }
    std::reverse(z.begin(), z.end());
    for (size_t k = 0; k < n; ++k) expect("reverse", a[k] == ref[n - 1 - k] && b[k] == a[k] * 3 + 1, show(k));
  }
}
