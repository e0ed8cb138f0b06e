#include "h.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/util/intersection_size.hpp"
using namespace nw::graph;
using namespace vh;
static size_t ref(std::vector<u32> a, std::vector<u32> b) {
  std::vector<u32> o;
  std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o));
  return o.size();
}
// two rows (duplicate-free, ascending) placed inside a graph with neighbouring rows that contain the same values
template <class F> void each_pair(F f) {
  for (u64 a = 0; a < 64; ++a)
    for (u64 b = 0; b < 64; ++b) {
      std::vector<u32> x, y;
      for (u32 k = 0; k < 6; ++k) {
        if (a >> k & 1) x.push_back(k);
        if (b >> k & 1) y.push_back(k);
      }
      f(x, y);
    }
  Rng r(g_seed);
  for (int k = 0; k < (deep() ? 4000 : 600); ++k) {
    std::set<u32> x, y;
    size_t        range = r.range(1, 80);
    for (size_t i = r(60); i--;) x.insert(r(range));
    for (size_t i = r(60); i--;) y.insert(r(range));
    f(std::vector<u32>(x.begin(), x.end()), std::vector<u32>(y.begin(), y.end()));
  }
}
struct Two {
  std::vector<u32> ind, tgt;
  Two(const std::vector<u32>& x, const std::vector<u32>& y) {
    std::vector<u32> pad{0, 1, 2, 5};
    ind = {0};
    for (const std::vector<u32>* v : {(const std::vector<u32>*)&pad, &x, (const std::vector<u32>*)&pad, &y, (const std::vector<u32>*)&pad}) {
      tgt.insert(tgt.end(), v->begin(), v->end());
      ind.push_back(tgt.size());
    }
  }
};
SECTION("rows") {
  each_pair([](const auto& x, const auto& y) {
    note("rows " + show(x) + " " + show(y));
    Two          t(x, y);
    adjacency<0> A(std::move(t.ind), std::move(t.tgt));
    size_t       w = ref(x, y);
    auto a = A[1], b = A[3];
    expect_eq("range-range", intersection_size(A[1], A[3]), w);
    expect_eq("swapped", intersection_size(A[3], A[1]), w);
    expect_eq("range-range-seq", intersection_size(a, b, std::execution::seq), w);
    expect_eq("iters", intersection_size(a.begin(), a.end(), b.begin(), b.end()), w);
    expect_eq("iters-seq", intersection_size(a.begin(), a.end(), b.begin(), b.end(), std::execution::seq), w);
    expect_eq("iters-range", intersection_size(a.begin(), a.end(), b), w);
    expect_eq("iters-range-seq", intersection_size(a.begin(), a.end(), b, std::execution::seq), w);
    expect_eq("self", intersection_size(A[1], A[1]), x.size());
    for (size_t k = 0; k <= x.size(); ++k) {
      std::vector<u32> tail(x.begin() + k, x.end());
      expect_eq("tail", intersection_size(a.begin() + k, a.end(), b), ref(tail, y));
    }
  });
}
SECTION("rows-policies") {
  each_pair([](const auto& x, const auto& y) {
    note("rows " + show(x) + " " + show(y));
    Two          t(x, y);
    adjacency<0> A(std::move(t.ind), std::move(t.tgt));
    size_t       w = ref(x, y);
    auto a = A[1], b = A[3];
    expect_eq("range-range-par", intersection_size(a, b, std::execution::par_unseq), w);
    expect_eq("iters-par", intersection_size(a.begin(), a.end(), b.begin(), b.end(), std::execution::par), w);
  });
}
SECTION("vectors") {
  each_pair([](const auto& x, const auto& y) {
    note("tuples " + show(x) + " " + show(y));
    std::vector<std::tuple<u32>> p, q;
    std::vector<std::tuple<u32, double>> q2;
    for (u32 v : x) p.push_back({v});
    for (u32 v : y) q.push_back({v}), q2.push_back({v, 0.5});
    expect_eq("tuples", intersection_size(p, q), ref(x, y));
    expect_eq("tuples-weighted", intersection_size(p, q2), ref(x, y));
  });
}
