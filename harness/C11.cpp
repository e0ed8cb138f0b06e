#include "h.hpp"
#include <tbb/global_control.h>
#include <execution>
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/algorithms/dijkstra.hpp"
#include "nwgraph/algorithms/delta_stepping.hpp"
#include "nwgraph/experimental/algorithms/delta_stepping.hpp"
using namespace nw::graph;
using namespace vh;
using u64 = uint64_t;
// one thread: the schedules are C28's subject
static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
static const u64 INF = std::numeric_limits<u64>::max();
template <class W> static std::vector<u64> reference(const G& g, const std::vector<W>& w, size_t s) {
  std::vector<u64> d(g.n, INF);
  d[s] = 0;
  for (bool more = true; more;) {
    more = false;
    for (size_t k = 0; k < g.e.size(); ++k) {
      auto [x, y] = g.e[k];
      if (d[x] != INF && d[x] + w[k] < d[y]) d[y] = d[x] + w[k], more = true;
    }
  }
  return d;
}
template <class V> static std::vector<u64> vals(const V& v) {
  std::vector<u64> r;
  for (auto&& x : v) r.push_back(u64(x));
  return r;
}
static void cmp(const char* nm, const std::vector<u64>& v, const std::vector<u64>& d, size_t s, u64 delta) {
  if (v != d) fail(nm, "source " + show(s) + " delta " + show(delta) + ": got " + show(v) + " want " + show(d));
}
template <class W> static void run(const G& g, const std::vector<W>& w, const std::vector<u64>& deltas) {
  edge_list<directedness::directed, W> el(g.n);
  el.open_for_push_back();
  for (size_t k = 0; k < g.e.size(); ++k) el.push_back(g.e[k].first, g.e[k].second, w[k]);
  el.close_for_push_back();
  adjacency<0, W> a(el);
  std::string ws = " weights " + show(w);
  note(show_g(g) + ws);
  auto wt = [](auto& e) -> auto& { return std::get<1>(e); };
  for (u32 s = 0; s < g.n; ++s) {
    auto d = reference(g, w, s);
    auto eq = [&](const char* nm, const auto& v, u64 delta) { cmp(nm, vals(v), d, s, delta); };
    eq("dijkstra", dijkstra<u64>(a, s), 0);
    eq("dijkstra-weight", dijkstra<u64>(a, s, [](auto&& e) { return std::get<1>(e); }), 0);
    for (u64 delta : deltas) {
      eq("delta_stepping", delta_stepping<u64>(a, s, delta, wt), delta);
      eq("delta_stepping-parallel", delta_stepping<u64>(a, s, delta), delta);
      eq("delta_stepping_m1", delta_stepping_m1<u64>(a, s, delta, wt), delta);
      eq("delta_stepping_v6", delta_stepping_v6<u64>(a, s, delta), delta);
      eq("delta_stepping_v8", delta_stepping_v8<u64>(a, s, delta, wt), delta);
      eq("delta_stepping_v9", delta_stepping_v9<u64>(a, s, delta, wt), delta);
      eq("delta_stepping_v10", delta_stepping_v10<u64>(a, s, delta, wt), delta);
      eq("delta_stepping_v11", delta_stepping_v11<u64>(a, s, delta, wt), delta);
    }
    if (!deltas.empty()) {
      std::vector<int> di = dijkstra<int>(a, s);      // signed distances
      std::vector<u64> x;
      for (int y : di) x.push_back(y == std::numeric_limits<int>::max() ? INF : u64(y));
      cmp("dijkstra-int", x, d, s, 0);
    }
  }
}
static void small(const G& g) {
  static Rng r(g_seed + 11);
  std::vector<u32> w(g.e.size());
  for (u32 mx : {1u, 3u, 20u}) {
    for (auto& x : w) x = mx == 1 ? 1 : u32(r(mx + 1));
    run(g, w, g.n > 8 ? std::vector<u64>{4, 1000} : std::vector<u64>{1, 2, 7, 100});
  }
}
SECTION("small") { each_dir(3, deep() ? 2000 : 150, 24, small); }
// distances beyond 32 bits
SECTION("large") {
  each_dir(2, deep() ? 300 : 60, 12, [](const G& g) {
    static Rng r(g_seed + 12);
    std::vector<u64> w(g.e.size());
    for (auto& x : w) x = u64(r(1000)) << r(40);
    run(g, w, {});
  });
}
