#include "el.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/volos.hpp"
using namespace vh;
using E3 = std::tuple<size_t, size_t, u64>;
using VE = std::vector<E3>;
static VE pushed(const G& g) {
  VE v;
  for (size_t k = 0; k < g.e.size(); ++k) v.push_back({g.e[k].first, g.e[k].second, wt(k)});
  return v;
}
static VE drop(VE v) {
  for (auto& t : v) std::get<2>(t) = 0;
  return v;
}
template <class E> static VE stored(E& e) {
  VE v;
  for (auto&& t : e) {
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) v.push_back({std::get<0>(t), std::get<1>(t), 0});
    else v.push_back({std::get<0>(t), std::get<1>(t), std::get<2>(t)});
  }
  return v;
}
static size_t need(const G& g, int c) {
  size_t r = 0;
  for (auto& [a, b] : g.e) {
    if (c != 1) r = std::max<size_t>(r, a + 1);
    if (c != 0) r = std::max<size_t>(r, b + 1);
  }
  return r;
}
template <class E> static void list(const char* nm, const G& g, bool tuple) {
  std::string s = nm;
  VE          w = pushed(g);
  if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) w = drop(w);
  for (size_t n0 : {size_t(0), g.n, g.n + 3}) {
    E e(n0);
    e.open_for_push_back();
    for (auto& [a, b, x] : w) {
      if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) {
        if (tuple) e.push_back(std::tuple<u32, u32>(a, b));
        else e.push_back(a, b);
      } else {
        if (tuple) e.push_back(std::tuple<u32, u32, u64>(a, b, x));
        else e.push_back(a, b, x);
      }
      expect_eq(s + " vertex count covers the last push", size_t(num_vertices(e)) > std::max(a, b), true);
    }
    e.close_for_push_back();
    expect_eq(s + " edges", stored(e), w);
    expect_eq(s + " size", size_t(e.size()), w.size());
    expect_eq(s + " num_edges", size_t(num_edges(e)), w.size());
    expect_eq(s + " num_vertices", size_t(num_vertices(e)), std::max(n0, need(g, 2)));
    // reopening appends
    e.open_for_push_back();
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) e.push_back(1, u32(g.n));
    else e.push_back(1, u32(g.n), 7);
    e.close_for_push_back();
    VE w2 = w;
    w2.push_back({1, g.n, std::tuple_size_v<typename E::attributes_t> == 0 ? 0 : 7});
    expect_eq(s + " edges after reopening", stored(e), w2);
    expect_eq(s + " num_vertices after reopening", size_t(num_vertices(e)), std::max({n0, need(g, 2), g.n + 1, size_t(2)}));
  }
}
template <class E> static void bilist(const char* nm, const G& g) {
  std::string s = nm;
  VE          w = pushed(g);
  if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) w = drop(w);
  for (size_t n0 : {size_t(0), g.n + 2})
    for (size_t n1 : {size_t(0), g.n + 1}) {
      E e = mkbel<E>(g, n0, n1);
      E f(n0, n1);
      f.open_for_push_back();
      for (auto& [a, b, x] : w) {
        if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) f.push_back(std::tuple<u32, u32>(a, b));
        else f.push_back(std::tuple<u32, u32, u64>(a, b, x));
      }
      f.close_for_push_back();
      expect_eq(s + " edges (tuples)", stored(f), w);
      expect_eq(s + " num_vertices 0 (tuples)", size_t(num_vertices(f, 0)), std::max(n0, need(g, 0)));
      expect_eq(s + " num_vertices 1 (tuples)", size_t(num_vertices(f, 1)), std::max(n1, need(g, 1)));
      expect_eq(s + " edges", stored(e), w);
      expect_eq(s + " num_vertices 0", size_t(num_vertices(e, 0)), std::max(n0, need(g, 0)));
      expect_eq(s + " num_vertices 1", size_t(num_vertices(e, 1)), std::max(n1, need(g, 1)));
    }
}
static void lists(const G& g) {
  note(show_g(g));
  for (bool t : {false, true}) {
    list<DE>("directed", g, t);
    list<UE>("undirected", g, t);
    list<DW>("directed weighted", g, t);
    list<UW>("undirected weighted", g, t);
  }
  bilist<BE>("bipartite", g);
  bilist<BW>("bipartite weighted", g);
  struct_of_arrays<u32, u64> so;
  VE                         w;
  for (size_t k = 0; k < g.e.size(); ++k) {
    if (k % 2) so.push_back(g.e[k].first, wt(k));
    else so.push_back(std::tuple<u32, u64>(g.e[k].first, wt(k)));
    w.push_back({g.e[k].first, 0, wt(k)});
  }
  VE got;
  for (auto&& [a, x] : so) got.push_back({a, 0, x});
  expect_eq("struct_of_arrays push_back", got, w);
}
SECTION("lists") { each_seq(3, 2, 200, 60, lists); }
SECTION("init") {
  note("initializer list of four edges");
  DE e{{3, 1}, {0, 2}, {1, 1}, {3, 1}};
  expect_eq("initializer list edges", stored(e), VE{{3, 1, 0}, {0, 2, 0}, {1, 1, 0}, {3, 1, 0}});
  expect_eq("initializer list num_vertices", size_t(num_vertices(e)), size_t(4));
  DW w{{0, 5, 9}, {2, 2, 8}};
  expect_eq("weighted initializer list edges", stored(w), VE{{0, 5, 9}, {2, 2, 8}});
  expect_eq("weighted initializer list num_vertices", size_t(num_vertices(w)), size_t(6));
  BE b{{0, 5}, {2, 2}};
  expect_eq("bipartite initializer list 0", size_t(num_vertices(b, 0)), size_t(3));
  expect_eq("bipartite initializer list 1", size_t(num_vertices(b, 1)), size_t(6));
  struct_of_arrays<u32, u64> s{{1, 2}, {3, 4}};
  expect_eq("soa initializer list", size_t(s.size()), size_t(2));
  expect_eq("soa initializer list 1", std::get<1>(s[1]), u64(4));
}
// rows arrive in nondecreasing order
static void rows(const G& g0) {
  G g = g0;
  std::stable_sort(g.e.begin(), g.e.end(), [](auto& a, auto& b) { return a.first < b.first; });
  note(show_g(g));
  size_t rn = need(g, 0);
  VE     w = pushed(g);
  for (size_t n : {size_t(0), size_t(1), rn ? rn - 1 : 0, rn, rn + 1, rn + 3}) {
    adjacency<0>                       a(n);
    adjacency<0, u64>                  aw(n);
    indexed_struct_of_arrays<u32, u64> is(n);
    a.open_for_push_back();
    aw.open_for_push_back();
    is.open_for_push_back();
    for (auto& [u, v, x] : w) {
      a.push_back(u, v);
      aw.push_back(u, v, x);
      is.push_back(u, x);
    }
    a.close_for_push_back();
    aw.close_for_push_back();
    is.close_for_push_back();
    size_t      N = std::max(n, rn);
    std::string s = "rows=" + std::to_string(n) + " ";
    expect_eq(s + "size", size_t(a.size()), N);
    expect_eq(s + "weighted size", size_t(aw.size()), N);
    expect_eq(s + "raw size", size_t(is.size()), N);
    if (a.size() != N || aw.size() != N || is.size() != N) continue;
    auto I = a.get_indices();
    expect_eq(s + "first offset", size_t(I[0]), size_t(0));
    expect_eq(s + "last offset", size_t(I[N]), w.size());
    VE got, gw, gi;
    for (size_t u = 0; u < N; ++u) {
      expect(s + "offsets monotone", I[u] <= I[u + 1]);
      for (auto&& t : a[u]) got.push_back({u, std::get<0>(t), 0});
      for (auto&& [v, x] : aw[u]) gw.push_back({u, v, x});
      for (auto&& t : is[u]) gi.push_back({u, 0, std::get<0>(t)});
    }
    expect_eq(s + "entries", got, drop(w));
    expect_eq(s + "weighted entries", gw, w);
    VE wi = w;
    for (auto& t : wi) std::get<1>(t) = 0;
    expect_eq(s + "raw entries", gi, wi);
    got.clear();
    size_t u = 0;
    for (auto&& r : a) {
      for (auto&& t : r) got.push_back({u, std::get<0>(t), 0});
      ++u;
    }
    expect_eq(s + "iterated rows", u, N);
    expect_eq(s + "iterated entries", got, drop(w));
  }
}
SECTION("rows") { each_seq(3, 3, 300, 60, rows); }
// vectors / lists of rows take any order
static void vv(const G& g) {
  note(show_g(g));
  VE w = pushed(g);
  for (size_t n : {size_t(0), g.n}) {
    vov<0, u64>      a(n);
    adj_list<0, u64> l(n);
    a.open_for_push_back();
    l.open_for_push_back();
    for (auto& [u, v, x] : w) {
      a.push_back(u, v, x);
      l.push_back(u, v, x);
    }
    a.close_for_push_back();
    l.close_for_push_back();
    size_t N = std::max(n, need(g, 0));
    expect_eq("vov rows", size_t(a.size()), N);
    expect_eq("adj_list rows", size_t(l.size()), N);
    VE got, gl, want = w;
    for (size_t u = 0; u < std::min<size_t>(N, a.size()); ++u)
      for (auto&& [v, x] : a[u]) got.push_back({u, v, x});
    for (size_t u = 0; u < std::min<size_t>(N, l.size()); ++u)
      for (auto&& [v, x] : l[u]) gl.push_back({u, v, x});
    std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); });
    expect_eq("vov entries", got, want);
    expect_eq("adj_list entries", gl, want);
  }
}
SECTION("vov") { each_seq(3, 3, 200, 60, vv); }
