#include "el.hpp"
using namespace vh;
static std::vector<size_t> ref(const G& g, size_t n, bool c0, bool c1) {
  std::vector<size_t> d(n);
  for (auto& [a, b] : g.e) {
    if (c0) ++d[a];
    if (c1) ++d[b];
  }
  return d;
}
template <class V> static std::vector<size_t> vec(const V& v) { return std::vector<size_t>(v.begin(), v.end()); }
static void lists(const G& g) {
  note(show_g(g));
  {
    auto e = mkel<DE>(g);
    expect_eq("directed<0>", vec(degrees<0>(e)), ref(g, g.n, true, false));
    expect_eq("directed<1>", vec(degrees<1>(e)), ref(g, g.n, false, true));
    auto w = mkel<DW>(g);
    expect_eq("directed weighted<0>", vec(degrees<0>(w)), ref(g, g.n, true, false));
  }
  {
    auto e = mkel<UE>(g);
    expect_eq("undirected", vec(degrees<0>(e)), ref(g, g.n, true, true));
    expect_eq("undirected<1>", vec(degrees<1>(e)), ref(g, g.n, true, true));
  }
  {
    auto e = mkbel<BE>(g, g.n, g.n + 2);
    expect_eq("bipartite<0>", vec(degrees<0>(e)), ref(g, g.n, true, false));
    expect_eq("bipartite<1>", vec(degrees<1>(e)), ref(g, g.n + 2, false, true));
  }
}
SECTION("lists") { each_seq(3, 3, 400, 60, lists); }
static BE& mkbel_(const G& g) {
  static BE e(0, 0);
  e = mkbel<BE>(g, g.n, g.n + 1);
  return e;
}
static void graphs(const G& g) {
  note(show_g(g));
  std::vector<u32> I, T;
  csr(g, I, T);
  auto r = ref(g, g.n, true, false);
  adjacency<0> a(std::move(I), std::move(T));
  expect_eq("adjacency", vec(degrees(a)), r);
  for (size_t u = 0; u < g.n; ++u) expect_eq("degree(g,u)", size_t(degree(a, u)), r[u]);
  auto m = a.degrees();
  expect_eq("adjacency.degrees()", vec(m), r);
  auto t = a.degrees(std::execution::par);
  expect_eq("adjacency.degrees(policy)", vec(t), r);
  auto           e = mkel<UE>(g);
  adjacency<0>   ua(e);
  biadjacency<1> ba(mkbel_(g));
  auto           ru = ref(g, g.n, true, true), r1 = ref(g, g.n + 1, false, true);
  expect_eq("undirected adjacency", vec(degrees(ua)), ru);
  for (size_t u = 0; u < g.n; ++u) expect_eq("degree(und g,u)", size_t(degree(ua, u)), ru[u]);
  expect_eq("biadjacency<1>", vec(degrees(ba)), r1);
  for (size_t u = 0; u < g.n; ++u) expect_eq("degree(bi,u)", size_t(degree(ba, u)), r1[u]);
}
SECTION("graphs") { each_dir(3, 300, 60, graphs); }
