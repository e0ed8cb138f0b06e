#include "h.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/experimental/algorithms/bfs.hpp"
using namespace nw::graph;
using namespace vh;

static const u32 NONE = std::numeric_limits<u32>::max();

static std::vector<u32> levels(const G& g, u32 root) {
  std::vector<std::vector<u32>> a(g.n);
  for (auto& [x, y] : g.e) a[x].push_back(y);
  std::vector<u32> d(g.n, NONE), q{root};
  d[root] = 0;
  for (size_t i = 0; i < q.size(); ++i)
    for (u32 y : a[q[i]])
      if (d[y] == NONE) { d[y] = d[q[i]] + 1; q.push_back(y); }
  return d;
}
template <class P> void check_tree(const std::string& tag, const G& g, u32 root, const std::vector<u32>& d, const P& p) {
  if (!expect_eq(tag + "-size", size_t(p.size()), g.n)) return;
  std::set<std::pair<u32, u32>> E(g.e.begin(), g.e.end());
  for (u32 v = 0; v < g.n; ++v) {
    u32 q = p[v];
    if ((q == NONE) != (d[v] == NONE)) { fail(tag + "-reached", "vertex " + show(v) + " parents " + show(p)); return; }
    if (q == NONE) continue;
    if (v == root) {
      if (!expect_eq(tag + "-root", q, root)) return;
    } else if (q >= g.n || !E.count({q, v}) || d[q] + 1 != d[v]) {
      fail(tag + "-tree", "vertex " + show(v) + " parents " + show(p));
      return;
    }
  }
}
template <int K> adjacency<K> mk(const G& g) {
  std::vector<u32> ind, tgt;
  if (K == 0) csr(g, ind, tgt);
  else {
    G t{g.n, {}};
    for (auto& [a, b] : g.e) t.e.push_back({b, a});
    csr(t, ind, tgt);
  }
  return adjacency<K>(std::move(ind), std::move(tgt));
}
template <class F> void graphs(F f) {
  each_dir(3, 0, 0, f);
  Rng r(g_seed);
  int N = deep() ? 2500 : 250;
  for (int k = 0; k < N; ++k) f(random_dir(r, r.range(1, k % 5 ? 12 : 90), r(k % 5 ? 30 : 400), k & 1));
  // layered / path / star shapes (long and bushy frontiers)
  for (size_t n : {2, 5, 33, 64, 65, 130, 300}) {
    G p{n, {}}, s{n, {}}, b{n, {}};
    for (u32 i = 0; i + 1 < n; ++i) p.e.push_back({i, i + 1});
    for (u32 i = 1; i < n; ++i) s.e.push_back({0, i}), s.e.push_back({i, 0}), b.e.push_back({(i - 1) / 2, i});
    f(p); f(s); f(b);
  }
}
SECTION("bfs") {
  graphs([](const G& g) {
    if (!g.n) return;
    auto A = mk<0>(g);
    for (u32 root = 0; root < g.n; root += 1 + g.n / 6) {
      note("root=" + show(root) + " " + show_g(g));
      check_tree("bfs", g, root, levels(g, root), bfs(A, root));
    }
  });
}
SECTION("bfs-direction-optimizing") {
  graphs([](const G& g) {
    if (!g.n) return;
    auto A = mk<0>(g);
    auto B = mk<1>(g);
    struct { int bins, alpha, beta; } P[] = {{32, 15, 18}, {1, 1, 1}, {4, 1000, 2}, {2, 3, 1000}, {3, 2, 4}};
    for (u32 root = 0; root < g.n; root += 1 + g.n / 3) {
      auto d = levels(g, root);
      for (auto& p : P) {
        note("root=" + show(root) + " bins=" + show(p.bins) + " alpha=" + show(p.alpha) + " beta=" + show(p.beta) + " " + show_g(g));
        check_tree("bfs-do", g, root, d, bfs(A, B, root, p.bins, p.alpha, p.beta));
      }
    }
  });
}
#define ONE(fn)                                                 \
  SECTION("experimental-" #fn) {                                 \
    graphs([](const G& g) {                                     \
      if (!g.n) return;                                         \
      auto A = mk<0>(g);                                        \
      for (u32 root = 0; root < g.n; root += 1 + g.n / 4) {     \
        note("root=" + show(root) + " " + show_g(g));           \
        check_tree(#fn, g, root, levels(g, root), fn(A, root)); \
      }                                                         \
    });                                                         \
  }
ONE(bfs_v6)
ONE(bfs_v7)
ONE(bfs_v8)
ONE(bfs_v9)
ONE(bfs_top_down)
ONE(bfs_top_down_bitmap)
#define TWO(fn)                                                    \
  SECTION("experimental-" #fn) {                                    \
    graphs([](const G& g) {                                        \
      if (!g.n) return;                                            \
      auto A = mk<0>(g);                                           \
      auto B = mk<1>(g);                                           \
      for (u32 root = 0; root < g.n; root += 1 + g.n / 4) {        \
        note("root=" + show(root) + " " + show_g(g));              \
        check_tree(#fn, g, root, levels(g, root), fn(A, B, root)); \
      }                                                            \
    });                                                            \
  }
TWO(bfs_bottom_up)
TWO(bfs_v1)
TWO(bfs_v2)

