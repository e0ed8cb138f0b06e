#include "h.hpp"
#include <tbb/tbb.h>
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/parallel_for.hpp"
#include "nwgraph/util/util.hpp"
using namespace nw::graph;
using namespace vh;
template <class R> static bool pieces(R r, std::vector<R>& out, Rng& rn, bool all, int depth = 0) {
  if (depth > 60 || out.size() > 5000) return false;
  if (r.is_divisible() && (all || rn(5))) {
    R s(r, tbb::split{});
    return pieces(r, out, rn, all, depth + 1) & pieces(s, out, rn, all, depth + 1);
  }
  out.push_back(r);
  return true;
}
template <class R, class F> static void parts(const std::string& nm, R r, size_t n, Rng& rn, F idx) {
  for (int all = 0; all < 2; ++all) {
    std::vector<R> ps;
    if (!expect(nm + "-splits-end", pieces(r, ps, rn, all), "splitting does not end")) return;
    std::vector<int> hit(n, 0);
    for (auto& p : ps) {
      size_t k = 0, last = 0;
      for (auto i = p.begin(), e = p.end(); i != e && k <= n; ++i, ++k) {
        size_t x = idx(i);
        if (!expect(nm + "-inside", x < n, show(x))) return;
        expect(nm + "-in-order", !k || x > last, show(last) + " then " + show(x));
        last = x;
        ++hit[x];
      }
      expect(nm + "-size", k == size_t(p.size()), show(k) + " elements, size() = " + show(size_t(p.size())));
    }
    for (size_t i = 0; i < n; ++i)
      if (!expect_eq(nm + "-exactly-once", hit[i], 1)) return;
  }
}
SECTION("flat") {
  Rng rn(g_seed);
  for (size_t n = 0; n <= 300; n += (n < 40 ? 1 : deep() ? 1 : 13)) {
    std::vector<u32> v(n);
    std::iota(v.begin(), v.end(), 0);
    for (size_t cut : {1, 2, 3, 5, 8, 16, 100}) {
      note("n=" + show(n) + " cutoff=" + show(cut));
      parts("splittable", splittable_range_adaptor<std::vector<u32>::iterator>(v.begin(), v.end(), cut), n, rn, [](auto& i) { return *i; });
      parts("cyclic", cyclic_range_adaptor<std::vector<u32>::iterator>(v, cut), n, rn, [](auto& i) { return *i; });
      parts("cyclic-neighbor", cyclic_neighbor_range<std::vector<u32>::iterator>(v, cut), n, rn, [](auto& i) {
        auto [k, x] = *i;
        return k == x ? k : size_t(-1);
      });
    }
    parts("vertex", vertex_range<adjacency<0>>(n), n, rn, [](auto& i) { return *i; });
  }
}
SECTION("block") {
  for (size_t N = 0; N <= (deep() ? 400 : 120); ++N)
    for (size_t n = 1; n <= 40; ++n) {
      note("block N=" + show(N) + " n=" + show(n));
      size_t at = 0;
      for (size_t id = 0; id < n; ++id) {
        auto [b, e] = block(N, n, id);
        expect_eq("begin", b, at);
        expect("order", b <= e);
        at = e;
      }
      expect_eq("end", at, N);
    }
}
static void graphs(const G& g, Rng& rn) {
  note(show_g(g));
  std::vector<u32> ind, tgt;
  csr(g, ind, tgt);
  adjacency<0> A(ind, tgt);
  parts("neighbor", neighbor_range<adjacency<0>>(A), g.n, rn, [](auto& i) { return std::get<0>(*i); });
  // edge_range: the pieces together enumerate the edges once, each piece in order
  for (int all = 0; all < 2; ++all) {
    edge_range<adjacency<0>>              r(A);
    std::vector<edge_range<adjacency<0>>> ps;
    if (!expect("edge-splits-end", pieces(r, ps, rn, all), "splitting does not end")) return;
    std::vector<std::pair<u32, u32>> got, want;
    size_t                           outer = 0;
    for (auto& p : ps) {
      outer += p.size();
      for (auto&& [u, v] : p) got.push_back({u, v});
    }
    std::sort(got.begin(), got.end());
    for (u32 u = 0; u < g.n; ++u)
      for (u32 k = ind[u]; k < ind[u + 1]; ++k) want.push_back({u, tgt[k]});
    std::sort(want.begin(), want.end());
    expect_eq("edge-exactly-once", got, want);
    expect_eq("edge-sizes", outer, g.n);
  }
}
SECTION("graph") {
  Rng rn(g_seed + 1);
  each_dir(3, deep() ? 200 : 80, 120, [&](const G& g) { graphs(g, rn); });
}
SECTION("parallel") {
  Rng rn(g_seed + 2);
  for (int it = 0; it < (deep() ? 200 : 40); ++it) {
    size_t n = rn(3000);
    note("parallel_for n=" + show(n));
    std::vector<u32> v(n);
    std::iota(v.begin(), v.end(), 0);
    auto go = [&](const std::string& nm, auto&& r, auto idx) {
      std::vector<std::atomic<int>> hit(n);
      nw::graph::parallel_for(r, [&](auto&&... a) { ++hit[idx(a...)]; });
      for (size_t i = 0; i < n; ++i)
        if (!expect_eq(nm, hit[i].load(), 1)) return;
    };
    auto id = [](auto&& x, auto&&...) { return size_t(x); };
    go("par-splittable", splittable_range_adaptor<std::vector<u32>::iterator>(v.begin(), v.end(), 7), id);
    go("par-cyclic", cyclic_range_adaptor<std::vector<u32>::iterator>(v, rn.range(1, 40)), id);
    go("par-cyclic-neighbor", cyclic_neighbor_range<std::vector<u32>::iterator>(v, rn.range(1, 40)), id);
    {
      std::vector<std::atomic<int>> hit(n);
      tbb::parallel_for(vertex_range<adjacency<0>>(n), [&](auto&& s) {
        for (auto i = s.begin(); i != s.end(); ++i) ++hit[*i];
      });
      for (size_t i = 0; i < n; ++i)
        if (!expect_eq("par-vertex", hit[i].load(), 1)) break;
    }
  }
}
