#include "h.hpp"
#include <queue>
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/adaptors/bfs_range.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
using namespace nw::graph;
using namespace vh;

static const size_t INF = size_t(-1);
static std::vector<size_t> dist(const G& g, size_t s) {
  std::vector<std::vector<u32>> a(g.n);
  for (auto& [x, y] : g.e) a[x].push_back(y);
  std::vector<size_t> d(g.n, INF);
  std::vector<u32>    q{u32(s)};
  d[s] = 0;
  for (size_t k = 0; k < q.size(); ++k)
    for (auto y : a[q[k]])
      if (d[y] == INF) d[y] = d[q[k]] + 1, q.push_back(y);
  return d;
}
template <class A> void vertices(A& a, const G& g, size_t s, const std::vector<size_t>& d) {
  topdown_bfs_range   r(a, s);
  std::vector<size_t> out;
  for (auto it = r.begin(); it != r.end(); ++it) {
    out.push_back(*it);
    if (out.size() > g.n) { fail("vertex-range-too-long", show(out)); return; }
  }
  std::vector<char> seen(g.n, 0);
  for (size_t k = 0; k < out.size(); ++k) {
    if (!expect("vertex-in-range", out[k] < g.n, show(out))) return;
    if (!expect("vertex-reachable", d[out[k]] != INF, show(out))) return;
    if (!expect("vertex-once", !seen[out[k]], show(out))) return;
    seen[out[k]] = 1;
    if (k) if (!expect("vertices-in-order-of-distance", d[out[k - 1]] <= d[out[k]], show(out))) return;
  }
  for (size_t v = 0; v < g.n; ++v)
    if (!expect("every-reachable-vertex", seen[v] == (d[v] != INF), show(out))) return;
}
template <class A> void edges(A& a, const G& g, size_t s, const std::vector<size_t>& d) {
  bfs_edge_range                 r(a, s);
  std::vector<std::pair<size_t, size_t>> out;
  for (auto it = r.begin(); it != r.end(); ++it) {
    auto e = *it;
    out.emplace_back(std::get<0>(e), std::get<1>(e));
    if (out.size() > g.n) { fail("edge-range-too-long", show(s)); return; }
  }
  std::vector<char> seen(g.n, 0);
  seen[s] = 1;
  for (size_t k = 0; k < out.size(); ++k) {
    auto [u, v] = out[k];
    auto at     = [&] { return "seed " + show(s) + " edge " + show(k) + ": " + show(u) + "->" + show(v); };
    if (!expect("edge-in-range", u < g.n && v < g.n, at())) return;
    bool is = false;
    for (auto& [x, y] : g.e) is |= x == u && y == v;
    if (!expect("edge-of-the-graph", is, at())) return;
    if (!expect("edge-source-visited", seen[u], at())) return;
    if (!expect("edge-target-new", !seen[v], at())) return;
    seen[v] = 1;
    if (!expect("edge-adds-one-hop", d[v] == d[u] + 1, at())) return;
    if (k) if (!expect("edges-in-order-of-distance", d[out[k - 1].second] <= d[v], at())) return;
  }
  for (size_t v = 0; v < g.n; ++v)
    if (!expect("every-reachable-vertex-is-a-target", seen[v] == (d[v] != INF), "seed " + show(s) + " vertex " + show(v))) return;
}
static void both(const G& g, Rng& rn) {
  std::vector<u32> ind, tgt;
  csr(g, ind, tgt, rn(2));
  adjacency<0>            A(ind, tgt);
  std::vector<float>      w(tgt.size(), 1.f);
  adjacency<1, float>     W(std::vector<u32>(ind), std::vector<u32>(tgt), std::move(w));
  vov<0>                  V(g.n);
  adj_list<0, int>        L(g.n);
  for (auto& [x, y] : g.e) V.push_back(x, y), L.push_back(x, y, 1);
  for (size_t s = 0; s < g.n; s += g.n > 8 ? 1 + rn(g.n) : 1) {
    note(show_g(g) + " seed " + show(s));
    auto d = dist(g, s);

    vertices(A, g, s, d);
    edges(A, g, s, d);
    vertices(W, g, s, d);
    edges(W, g, s, d);
    vertices(V, g, s, d);
    vertices(L, g, s, d);
    edges(L, g, s, d);
  }
}
SECTION("small") {
  Rng rn(g_seed);
  each_dir(3, 0, 0, [&](const G& g) { both(g, rn); });
}
SECTION("random") {
  Rng rn(g_seed + 1);
  for (int k = 0; k < (deep() ? 3000 : 400); ++k) {
    size_t n = 1 + rn(k % 8 ? 10 : 80);
    both(random_dir(rn, n, rn(3 * n + 1), rn(2)), rn);
  }
}
SECTION("shapes") {
  Rng rn(g_seed + 2);
  for (size_t n : {1, 2, 5, 40, 200}) {
    G p, c, st, t;
    p.n = c.n = st.n = t.n = n;
    for (u32 k = 0; k + 1 < n; ++k) p.e.push_back({k, k + 1});
    for (u32 k = 0; k < n; ++k) c.e.push_back({k, u32((k + 1) % n)});
    for (u32 k = 1; k < n; ++k) st.e.push_back({0, k}), t.e.push_back({(k - 1) / 2, k});
    for (auto& g : {p, c, st, t}) both(g, rn), both(symmetrize(g), rn);
  }
}
