#include "h.hpp"
#include <atomic>
#include <barrier>
#include <thread>
#include <tbb/tbb.h>
#include "nwgraph/util/AtomicBitVector.hpp"
using namespace nw::graph;
using namespace vh;
using BV = AtomicBitVector<>;
static std::string bits_s(const std::vector<char>& v) {
  std::string s;
  for (char c : v) s += c ? '1' : '0';
  return s;
}
static std::vector<u64> ones(const std::vector<char>& v) {
  std::vector<u64> r;
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i]) r.push_back(i);
  return r;
}
template <class F> static void each(F f) {
  Rng r(g_seed * 3 + 1);
  std::vector<std::vector<char>> vs;
  for (size_t n = 0; n <= 200; ++n) {
    vs.push_back(std::vector<char>(n, 0));
    vs.push_back(std::vector<char>(n, 1));
    for (size_t k : {0, 1, 62, 63, 64, 65, 127, 128, 191, 192})
      if (k < n) {
        vs.push_back(std::vector<char>(n, 0));
        vs.back()[k] = 1;
      }
    for (int q = 0; q < (deep() ? 12 : 3); ++q) {
      std::vector<char> v(n, 0);
      size_t            d = r.range(2, 80);
      for (auto& c : v) c = r(d) == 0;
      vs.push_back(v);
    }
  }
  for (auto& v : vs) {
    note("bits " + bits_s(v));
    f(v, r);
  }
}
SECTION("setget") {
  each([](const std::vector<char>& v, Rng& r) {
    BV b(v.size());
    for (size_t i = 0; i < v.size(); ++i) expect("initially-clear", !b.get(i) && !b.atomic_get(i));
    std::vector<u64> o = ones(v);
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r(i)]);
    for (u64 i : o) {
      bool at = r(2);
      expect("set-old", !(at ? b.atomic_set(i) : b.set(i)), "bit " + show(i));
      expect("set-again", (r(2) ? b.atomic_set(i) : b.set(i)) != 0, "bit " + show(i));
    }
    for (size_t i = 0; i < v.size(); ++i) {
      expect("get", (b.get(i) != 0) == (v[i] != 0), "bit " + show(i));
      expect("atomic-get", (b.atomic_get(i) != 0) == (v[i] != 0), "bit " + show(i));
    }
    std::vector<u64> got;
    for (auto i = b.begin(); i != b.end(); ++i) got.push_back(*i);
    expect_eq("iterate", got, ones(v));
    got.clear();
    for (auto i = b.begin(); !(i == b.end());) got.push_back(*i++);
    expect_eq("iterate-post", got, ones(v));
    BV c(std::move(b));
    got.clear();
    for (auto i = c.begin(); i != c.end(); ++i) got.push_back(*i);
    expect_eq("moved", got, ones(v));
    c.clear();
    expect("cleared", c.begin() == c.end());
    for (size_t i = 0; i < v.size(); ++i) expect("cleared-get", !c.get(i));
  });
}
template <class R> static void pieces(R r, std::vector<R>& out, int depth = 0) {
  if (r.is_divisible() && depth < 40) {
    R s(r, tbb::split{});
    pieces(r, out, depth + 1);
    pieces(s, out, depth + 1);
  } else out.push_back(r);
}
SECTION("ranges") {
  each([](const std::vector<char>& v, Rng& r) {
    BV b(v.size());
    for (u64 i : ones(v)) b.set(i);
    for (size_t cut : {1, 2, 3}) {
      auto                     nz = b.non_zeros(cut);
      std::vector<decltype(nz)> ps;
      pieces(nz, ps);
      std::vector<u64> got;
      for (auto& p : ps) {
        expect("piece-size", p.size() <= cut, show(p.size()));
        for (auto i = p.begin(), e = p.end(); i != e; ++i) got.push_back(*i);
      }
      std::sort(got.begin(), got.end());
      expect_eq("pieces", got, ones(v));
    }
    std::vector<std::atomic<int>> hit(v.size());
    tbb::parallel_for(b.non_zeros(1), [&](auto&& s) {
      for (auto i = s.begin(), e = s.end(); i != e; ++i) ++hit[*i];
    });
    for (size_t i = 0; i < v.size(); ++i) expect_eq("parallel", hit[i].load(), v[i] ? 1 : 0);
  });
}
SECTION("concurrent") {
  Rng r(g_seed + 9);
  for (int it = 0; it < (deep() ? 400 : 60); ++it) {
    size_t n = r.range(1, 300), T = r.range(2, 8);
    note("concurrent sets: n=" + show(n) + " threads=" + show(T));
    BV                            b(n);
    std::vector<std::atomic<int>> win(n);
    std::barrier                  bar(T);
    std::vector<std::thread>      th;
    for (size_t t = 0; t < T; ++t)
      th.emplace_back([&] {
        bar.arrive_and_wait();
        for (size_t i = 0; i < n; ++i)
          if (i % 3 != 2 && !b.atomic_set(i)) ++win[i];
      });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; ++i) {
      expect_eq("one-winner", win[i].load(), i % 3 != 2 ? 1 : 0);
      expect("set", (b.atomic_get(i) != 0) == (i % 3 != 2), "bit " + show(i));
    }
  }
}
