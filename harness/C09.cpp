#include "h.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/experimental/algorithms/triangle_count.hpp"
using namespace nw::graph;
using namespace vh;
static size_t brute(const G& s) {      // sum over stored edges of common out-neighbours
  std::vector<std::set<u32>> r(s.n);
  for (auto& [a, b] : s.e) r[a].insert(b);
  size_t t = 0;
  for (auto& [a, b] : s.e)
    for (u32 x : r[a]) t += r[b].count(x);
  return t;
}
static adjacency<0> mkadj(const G& s) {
  std::vector<u32> ind, tgt;
  csr(s, ind, tgt);
  return adjacency<0>(std::move(ind), std::move(tgt));
}
static G lower(const G& g) {
  G l;
  l.n = g.n;
  for (auto& [a, b] : g.e) l.e.push_back({b, a});
  return l;
}
SECTION("sequential") {
  each_und(5, 300, 40, [](const G& g) {
    for (int k = 0; k < 3; ++k) {
      G s = k == 0 ? g : k == 1 ? lower(g) : symmetrize(g);
      note((k == 0 ? "upper " : k == 1 ? "lower " : "symmetric ") + show_g(g));
      auto   A = mkadj(s);
      size_t w = brute(s);
      expect_eq("tc", triangle_count(A), w);
      expect_eq("tc-v15", triangle_count_v15(A), w);
      expect_eq("tc-v2", triangle_count_v2(A), w);
      expect_eq("tc-v3", triangle_count_v3(A), w);
      if (k == 0) expect_eq("tc-v1", triangle_count_v1(A), w);
      if (k == 0 || k == 1) {
        size_t b3 = 0;      // independent: triangles by triples
        std::set<std::pair<u32, u32>> es(g.e.begin(), g.e.end());
        for (u32 i = 0; i < g.n; ++i)
          for (u32 j = i + 1; j < g.n; ++j)
            if (es.count({i, j}))
              for (u32 l = j + 1; l < g.n; ++l) b3 += es.count({i, l}) && es.count({j, l});
        expect_eq("triples", w, b3);
      }
    }
  });
  Rng r(g_seed);
  for (int k = 0; k < 300; ++k) {
    G s = random_dir(r, r.range(1, 12), r(60), false);
    note("directed " + show_g(s));
    auto A = mkadj(s);
    expect_eq("tc", triangle_count(A), brute(s));
  }
}
SECTION("threads") {
  each_und(4, 60, 30, [](const G& g) {
    auto   A = mkadj(g);
    size_t w = brute(g);
    for (size_t th : {1, 2, 3, 5, 8, 40}) {
      note("threads " + std::to_string(th) + " upper " + show_g(g));
      expect_eq("tc-threads", triangle_count(A, th), w);
      expect_eq("tc-v4", triangle_count_v4(A.begin(), A.end(), th), w);
      expect_eq("tc-v5", triangle_count_v5(A.begin(), A.end(), th), w);
      expect_eq("tc-v6", triangle_count_v6(A.begin(), A.end(), th), w);
    }
  });
}
SECTION("policies") {
  each_und(4, 60, 30, [](const G& g) {
    auto   A = mkadj(g);
    size_t w = brute(g);
    note("upper " + show_g(g));
    expect_eq("tc-v7", triangle_count_v7(A), w);
    expect_eq("tc-v7-seq", triangle_count_v7(A, std::execution::seq, std::execution::par_unseq), w);
    expect_eq("tc-v10", triangle_count_v10(A), w);
    expect_eq("tc-v14", triangle_count_v14(A), w);
    for (int st : {1, 2, 5}) {
      expect_eq("tc-v12", (size_t)triangle_count_v12(A, st), w);
      expect_eq("tc-v13", (size_t)triangle_count_v13(A, st), w);
    }
  });
}
