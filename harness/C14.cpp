#include "h.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/algorithms/kruskal.hpp"
#include "nwgraph/util/disjoint_set.hpp"
using namespace nw::graph;
using namespace vh;
using VP = std::vector<std::pair<vertex_id_type, size_t>>;
// reference partition
struct Ref {
  std::vector<size_t> c;
  explicit Ref(size_t n) : c(n) { std::iota(c.begin(), c.end(), 0); }
  bool unite(size_t a, size_t b) {
    size_t x = c[a], y = c[b];
    if (x == y) return false;
    for (auto& z : c)
      if (z == y) z = x;
    return true;
  }
};
static size_t root_of(const VP& s, size_t x) {
  for (size_t k = 0; k <= s.size(); ++k) {
    if (s[x].first == x) return x;
    x = s[x].first;
  }
  return size_t(-1);
}
static void same(const std::string& nm, const Ref& r, const std::function<size_t(size_t)>& root) {
  std::vector<size_t> q;
  for (size_t i = 0; i < r.c.size(); ++i) q.push_back(root(i));
  for (size_t i = 0; i < q.size(); ++i)
    for (size_t j = 0; j < q.size(); ++j)
      if ((q[i] == q[j]) != (r.c[i] == r.c[j])) return void(expect(nm, false, show(i) + "," + show(j) + " representatives " + show(q)));
  expect(nm, true, "");
}
struct Op {
  int    k;
  size_t a, b;
};
static std::string show_ops(size_t n, const std::vector<Op>& o) {
  std::string s = "n=" + show(n) + " ops:";
  for (auto& x : o) s += std::string(" ") + (x.k == 0 ? "union" : x.k == 1 ? "union_find" : "find") + "(" + show(x.a) + "," + show(x.b) + ")";
  return s;
}
static void run(size_t n, const std::vector<Op>& ops) {
  note(show_ops(n, ops));
  VP s(n);
  for (size_t i = 0; i < n; ++i) s[i] = {vertex_id_type(i), 0};
  Ref r(n);
  for (auto& o : ops) {
    if (o.k == 0) {
      disjoint_union(s, o.a, o.b);
      r.unite(o.a, o.b);
    } else if (o.k == 1) {
      bool m = r.unite(o.a, o.b);
      expect_eq("union_find-result", disjoint_union_find(s, o.a, o.b), m);
    } else {
      size_t w = root_of(s, o.a);
      expect_eq("find-is-root", size_t(disjoint_find(s, o.a)), w);
    }
    same("partition", r, [&](size_t i) { return root_of(s, i); });
    VP t = s;
    same("find", r, [&](size_t i) { return disjoint_find(t, i); });
  }
}
SECTION("small") {
  for (size_t n = 1; n <= 4; ++n) {
    std::vector<Op> all;
    for (int k = 0; k < 3; ++k)
      for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < (k == 2 ? 1 : n); ++b) all.push_back({k, a, b});
    for (auto& x : all)
      for (auto& y : all) {
        run(n, {x, y});
        if (n <= 3)
          for (auto& z : all) run(n, {x, y, z});
      }
  }
}
SECTION("random") {
  Rng r(g_seed);
  for (int it = 0; it < (deep() ? 3000 : 400); ++it) {
    size_t          n = r.range(1, 40);
    std::vector<Op> o;
    for (size_t k = r.range(1, 2 * n); k--;) o.push_back({int(r(3)), r(n), r(n)});
    run(n, o);
  }
}
SECTION("class") {
  Rng r(g_seed + 3);
  for (int it = 0; it < (deep() ? 1500 : 200); ++it) {
    int  n    = int(r.range(1, 24));
    bool size = r(2);
    note("disjoint_set n=" + show(n) + (size ? " by size" : " by height") + " it=" + show(it));
    disjoint_set<int> s(n);
    Ref               q(n);
    size_t            sets = n;
    std::string       tr;
    for (size_t k = r.range(0, 2 * n); k--;) {
      int a = r(n), b = r(n);
      tr += " " + show(a) + "-" + show(b);
      if (size) s.unionBySize(a, b);
      else s.unionByHeight(a, b);
      if (q.unite(a, b)) --sets;
      if (r(3) == 0) s.find_with_pathcompression(int(r(n)));
      note("disjoint_set n=" + show(n) + (size ? " by size" : " by height") + tr);
      same("class-find", q, [&](size_t i) { return s.find(int(i)); });
      expect_eq("class-sets", s.getSetNumber(), sets);
      if (size)
        for (int i = 0; i < n; ++i) expect_eq("class-set-size", s.getSetSize(i), size_t(std::count(q.c.begin(), q.c.end(), q.c[i])));
    }
    disjoint_set<int> c(s);
    same("class-copy", q, [&](size_t i) { return c.find(int(i)); });
  }
}
struct WE {
  u32    u, v;
  double w;
};
static void mst(size_t n, const std::vector<WE>& es) {
  std::string s = "n=" + show(n) + " edges:";
  for (auto& e : es) s += " " + show(e.u) + "-" + show(e.v) + ":" + show(e.w);
  note(s);
  edge_list<directedness::undirected, double> E(0);
  E.open_for_push_back();
  for (auto& e : es) E.push_back(e.u, e.v, e.w);
  E.close_for_push_back();
  auto T = kruskal(E);
  expect_eq("input-size", E.size(), es.size());
  // T is a sub-multiset of the input
  std::multiset<std::tuple<u32, u32, double>> in, tr;
  for (auto& e : es) in.insert({e.u, e.v, e.w});
  double tw = 0;
  Ref    tc(n), gc(n);
  for (auto&& [u, v, w] : T) {
    tr.insert({u, v, w});
    tw += w;
    expect("forest", tc.unite(u, v), "edge " + show(u32(u)) + "-" + show(u32(v)) + " closes a cycle");
  }
  expect("subset", std::includes(in.begin(), in.end(), tr.begin(), tr.end()));
  // reference (Prim-free): greedy over sorted copy
  auto k = es;
  std::sort(k.begin(), k.end(), [](auto& a, auto& b) { return a.w < b.w; });
  double rw = 0;
  for (auto& e : k)
    if (gc.unite(e.u, e.v)) rw += e.w;
  for (auto& e : es) expect("spanning", tc.c[e.u] == tc.c[e.v], show(e.u) + "-" + show(e.v) + " not connected");
  expect("minimum", std::abs(tw - rw) < 1e-9, "weight " + show(tw) + " minimum " + show(rw));
  // user comparator: maximum spanning forest
  edge_list<directedness::undirected, double> F(0);
  F.open_for_push_back();
  for (auto& e : es) F.push_back(e.u, e.v, e.w);
  F.close_for_push_back();
  auto   M  = kruskal(F, [](auto a, auto b) { return std::get<2>(a) > std::get<2>(b); });
  double mw = 0, xw = 0;
  for (auto&& [u, v, w] : M) mw += w;
  std::reverse(k.begin(), k.end());
  Ref mc(n);
  for (auto& e : k)
    if (mc.unite(e.u, e.v)) xw += e.w;
  expect("comparator", std::abs(mw - xw) < 1e-9, "weight " + show(mw) + " want " + show(xw));
}
SECTION("kruskal-small") {
  for (size_t n = 2; n <= 4; ++n)
    for (u64 m = 0; m < (1ull << (n * (n - 1) / 2)); ++m) {
      auto           g = und_from_mask(n, m);
      std::vector<WE> e;
      for (size_t i = 0; i < g.e.size(); ++i) e.push_back({g.e[i].first, g.e[i].second, double((i * 7 + m) % 5)});
      mst(n, e);
      std::reverse(e.begin(), e.end());
      mst(n, e);
    }
}
SECTION("kruskal-random") {
  Rng r(g_seed + 4);
  for (int it = 0; it < (deep() ? 2000 : 300); ++it) {
    size_t          n = r.range(1, 24), m = r(3 * n);
    std::vector<WE> e;
    for (size_t k = 0; k < m; ++k) e.push_back({u32(r(n)), u32(r(n)), double(r(r(2) ? 4 : 1000)) - 10});
    mst(n, e);
  }
}
