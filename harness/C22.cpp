#include "h.hpp"
#include <atomic>
#include <tbb/tbb.h>
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/parallel_for.hpp"
using namespace nw::graph;
using namespace vh;
SECTION("flat") {
  Rng rn(g_seed);
  for (size_t n = 0; n <= 400; n += (n < 20 ? 1 : 19))
    for (size_t cut : {1, 2, 7, 64, 100000}) {
      note("n=" + show(n) + " cutoff=" + show(cut));
      std::vector<u32> v(n);
      uint64_t         sum = 0;
      for (auto& x : v) sum += (x = rn(1000));
      auto ref = v;
      auto r = splittable_range_adaptor<std::vector<u32>::iterator>(v.begin(), v.end(), cut);
      parallel_for(r, [](u32& x) { x += 1; });
      for (size_t k = 0; k < n; ++k)
        if (!expect_eq("for-exactly-once", v[k], ref[k] + 1)) break;
      expect_eq("reduce-is-the-fold", parallel_reduce(r, [](u32 x) { return uint64_t(x); }, std::plus<uint64_t>{}, uint64_t(0)), sum + n);
      uint64_t mn = 5000, mx = 17;
      for (auto x : v) mn = std::min<uint64_t>(mn, x), mx = std::max<uint64_t>(mx, x);
      auto low = [](uint64_t a, uint64_t b) { return std::min(a, b); };
      auto high = [](uint64_t a, uint64_t b) { return std::max(a, b); };
      auto val = [](u32 x) { return uint64_t(x); };
      expect_eq("reduce-is-the-fold", parallel_reduce(r, val, low, uint64_t(5000)), mn);
      expect_eq("reduce-is-the-fold", parallel_reduce(r, val, high, uint64_t(17)), mx);
      expect_eq("sequential-fold", parallel_for_sequential(v, val, low, uint64_t(5000)), mn);
      auto c = cyclic_range_adaptor<std::vector<u32>::iterator>(v, cut);
      expect_eq("reduce-is-the-fold", parallel_reduce(c, [](u32 x) { return uint64_t(x); }, std::plus<uint64_t>{}, uint64_t(0)), sum + n);
      expect_eq("reduce-is-the-fold", parallel_reduce(c, val, low, uint64_t(5000)), mn);
      std::vector<std::atomic<u32>> h(n);
      parallel_for(vertex_range<adjacency<0>>(n), [&](u32 x) { h[x]++; });
      for (size_t k = 0; k < n; ++k)
        if (!expect_eq("for-exactly-once", h[k].load(), u32(1))) break;
      expect_eq("reduce-is-the-fold", parallel_reduce(vertex_range<adjacency<0>>(n), [](u32 x) { return uint64_t(x); }, [](uint64_t a, uint64_t b) { return std::max(a, b); }, uint64_t(0)), n ? n - 1 : 0);
      parallel_for_sequential(v, [](u32& x) { x += 1; });
      for (size_t k = 0; k < n; ++k)
        if (!expect_eq("sequential-exactly-once", v[k], ref[k] + 2)) break;
      expect_eq("sequential-fold", parallel_for_sequential(v, [](u32 x) { return uint64_t(x); }, std::plus<uint64_t>{}, uint64_t(5)), sum + 2 * n + 5);
    }
}
SECTION("graph") {
  Rng rn(g_seed);
  for (int it = 0; it < 60; ++it) {
    size_t n = 1 + rn(it < 40 ? 12 : 300);
    G g = random_dir(rn, n, rn(4 * n + 1));
    note(show_g(g));
    std::vector<u32> ind, tgt;
    csr(g, ind, tgt);
    adjacency<0> A(ind, tgt);
    n = A.size();
    std::vector<std::atomic<u32>> h(n);
    parallel_for(neighbor_range<adjacency<0>>(A), [&](auto&& u, auto&& nb) { h[u] += nb.size() + 1; });
    size_t m = 0;
    uint64_t sum = 0;
    for (size_t u = 0; u < n; ++u) {
      expect_eq("tuple-exactly-once", h[u].load(), u32(A[u].size() + 1));
      h[u] = 0;
      for (auto&& [v] : A[u]) { ++m; sum += u * 31 + v; }
    }
    parallel_for(cyclic_neighbor_range(A, 1 + rn(9)), [&](auto&& u, auto&& nb) { h[u] += nb.size() + 1; });
    for (size_t u = 0; u < n; ++u) expect_eq("tuple-exactly-once", h[u].load(), u32(A[u].size() + 1));
    expect_eq("edge-fold", parallel_reduce(edge_range<adjacency<0>>(A), [](auto&& u, auto&& v) { return uint64_t(u * 31 + v); }, std::plus<uint64_t>{}, uint64_t(0)), sum);
    std::atomic<size_t> e = 0;
    parallel_for(edge_range<adjacency<0>>(A), [&](auto&&, auto&&) { ++e; });
    expect_eq("edges-exactly-once", e.load(), m);
  }
}
