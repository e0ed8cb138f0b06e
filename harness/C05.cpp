// relabelling, degree permutations
#include "el.hpp"
#include "nwgraph/util/proxysort.hpp"
using namespace vh;
using E3 = std::tuple<size_t, size_t, u64>;
using VE = std::vector<E3>;
template <class E> static VE stored(E& e) {
  VE v;
  for (auto&& t : e) {
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) v.push_back({std::get<0>(t), std::get<1>(t), 0});
    else v.push_back({std::get<0>(t), std::get<1>(t), std::get<2>(t)});
  }
  return v;
}
template <class V> static bool bijection(const V& p, size_t n) {
  std::vector<char> s(n, 0);
  if (p.size() != n) return false;
  for (auto x : p) {
    if (size_t(x) >= n || s[x]) return false;
    s[x] = 1;
  }
  return true;
}
template <class D, class V> static bool ordered(const V& p, const D& d, bool desc) {
  for (size_t i = 1; i < p.size(); ++i)
    if (desc ? d[p[i - 1]] < d[p[i]] : d[p[i - 1]] > d[p[i]]) return false;
  return true;
}
static std::vector<u32> random_perm(Rng& r, size_t n) {
  std::vector<u32> p(n);
  for (size_t i = 0; i < n; ++i) p[i] = u32(i);
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r(i)]);
  return p;
}
static std::vector<size_t> deg(const VE& v, size_t n, int col) {      // col 2: both
  std::vector<size_t> d(n);
  for (auto& [a, b, x] : v) {
    if (col != 1) ++d[a];
    if (col != 0) ++d[b];
  }
  return d;
}
static VE mapped(const VE& v, const std::vector<u32>& f, int col) {
  VE w;
  for (auto [a, b, x] : v) w.push_back({col != 1 ? f[a] : a, col != 0 ? f[b] : b, x});
  return w;
}
static std::vector<u32> inverse(const std::vector<u32>& p) {
  std::vector<u32> q(p.size());
  for (size_t i = 0; i < p.size(); ++i) q[p[i]] = u32(i);
  return q;
}
// new label of every vertex, read off a relabelled list
template <class V> static void isomorphic(const std::string& s, const VE& in, const VE& out, const V& nl, size_t n, int col) {
  std::vector<u32> f(nl.begin(), nl.end());
  if (!bijection(f, n)) return fail(s, "the labelling is not a bijection: " + show(f));
  expect_eq(s + " edges", out, mapped(in, f, col));
}
template <class E, bool und> static void uni(const char* nm, const G& g) {
  std::string      s  = nm;
  const VE         in = [&] { E e = mkel<E>(g); return stored(e); }();
  Rng              r(g_seed * 131 + g.e.size() * 7 + g.n);
  std::vector<u32> p = random_perm(r, g.n);
  {
    E    e = mkel<E>(g);
    auto q = relabel(e, p);
    expect_eq(s + " relabel returns the new labels", std::vector<u32>(q.begin(), q.end()), inverse(p));
    isomorphic(s + " relabel", in, stored(e), q, g.n, 2);
  }
  for (bool desc : {false, true}) {
    const std::string dir = desc ? "descending" : "ascending";
    auto              d   = deg(in, g.n, und ? 2 : 0);
    std::vector<u64>  given(d.begin(), d.end());
    {
      E    e = mkel<E>(g);
      auto q = perm_by_degree<0>(e, dir);
      expect_eq(s + " perm_by_degree bijection " + dir, bijection(q, g.n), true);
      expect_eq(s + " perm_by_degree order " + dir, ordered(q, d, desc), true);
      expect_eq(s + " perm_by_degree leaves the list alone", stored(e), in);
      auto q2 = perm_by_degree<0>(e, given, dir);
      expect_eq(s + " perm_by_degree(given) bijection " + dir, bijection(q2, g.n), true);
      expect_eq(s + " perm_by_degree(given) order " + dir, ordered(q2, d, desc), true);
    }
    if constexpr (!und) {
      E    e  = mkel<E>(g);
      auto d1 = deg(in, g.n, 1);
      auto q  = perm_by_degree<1>(e, dir);
      expect_eq(s + " perm_by_degree<1> order " + dir, bijection(q, g.n) && ordered(q, d1, desc), true);
    }
    for (int gv = 0; gv < 2; ++gv) {
      E    e = mkel<E>(g);
      auto q = gv ? relabel_by_degree<0>(e, dir, given) : relabel_by_degree<0>(e, dir);
      isomorphic(s + " relabel_by_degree<0> " + dir, in, stored(e), q, g.n, 2);
      auto d2 = deg(stored(e), g.n, und ? 2 : 0);
      if (!std::is_sorted(d2.begin(), d2.end())) {
        std::reverse(d2.begin(), d2.end());
        if (!desc || !std::is_sorted(d2.begin(), d2.end())) fail(s + " relabel_by_degree<0> " + dir + " order", show(d2));
      } else if (desc && !d2.empty() && d2.front() != d2.back()) fail(s + " relabel_by_degree<0> " + dir + " order", show(d2));
      E e2 = mkel<E>(g);
      if (gv) relabel_by_degree(e2, dir, given);
      else relabel_by_degree(e2, dir);
      auto a = deg(stored(e2), g.n, und ? 2 : 0);
      if (desc) std::reverse(a.begin(), a.end());
      expect_eq(s + " relabel_by_degree order " + dir, std::is_sorted(a.begin(), a.end()), true);
      expect_eq(s + " relabel_by_degree edge count", size_t(e2.size()), in.size());
    }
  }
}
template <int idx> static void bip(const G& g) {
  size_t            n[2] = {g.n, g.n + 2};
  std::string       s    = "bipartite relabel<" + std::to_string(idx) + ">";
  auto              mk   = [&] { return mkbel<BW>(g, n[0], n[1]); };
  const VE          in   = [&] { BW e = mk(); return stored(e); }();
  Rng               r(g_seed * 137 + g.e.size() * 5 + g.n);
  std::vector<u32>  p = random_perm(r, n[idx]);
  BW                e = mk();
  auto              q = relabel<idx>(e, p);
  isomorphic(s, in, stored(e), q, n[idx], idx);
  expect_eq(s + " returns the new labels", std::vector<u32>(q.begin(), q.end()), inverse(p));
}
using Rows = std::vector<std::vector<std::pair<size_t, u64>>>;
template <class A> static Rows rows(A& a) {
  Rows r(a.size());
  size_t u = 0;
  for (auto&& row : a) {
    for (auto&& t : row) r[u].push_back({std::get<0>(t), std::get<1>(t)});
    ++u;
  }
  return r;
}
static void comp(const G& g) {
  DW                e = mkel<DW>(g);
  adjacency<0, u64> a0(num_vertices(e));
  fill<0>(e, a0);
  const Rows        in = rows(a0);
  size_t            n  = in.size();
  std::vector<size_t> d(n);
  for (size_t u = 0; u < n; ++u) d[u] = in[u].size();
  {
    auto a = a0;
    a.sort_to_be_indexed();
    Rows got = rows(a), want = in;
    for (auto& x : got) {
      expect_eq("sort_to_be_indexed order", std::is_sorted(x.begin(), x.end(), [](auto& p, auto& q) { return p.first < q.first; }), true);
      std::sort(x.begin(), x.end());
    }
    for (auto& x : want) std::sort(x.begin(), x.end());
    expect_eq("sort_to_be_indexed entries", got, want);
  }
  Rng              r(g_seed * 139 + g.e.size() * 3 + g.n);
  std::vector<u32> p = random_perm(r, n);
  auto sorted_rows = [&](Rows x) {
    for (auto& q : x) std::sort(q.begin(), q.end());
    return x;
  };
  {
    auto a = a0;
    a.relabel_to_be_indexed(p);
    Rows got = rows(a), want = in;
    for (auto& x : want)
      for (auto& t : x) t.first = p[t.first];
    expect_eq("relabel_to_be_indexed entries", sorted_rows(got), sorted_rows(want));
  }
  for (bool desc : {false, true}) {
    const std::string dir = desc ? "descending" : "ascending";
    {
      auto a = a0;
      auto q = a.permute_by_degree(dir);
      if (!bijection(q, n)) return fail("permute_by_degree " + dir, "not a bijection: " + show(q));
      Rows got = rows(a), want(n);
      for (size_t u = 0; u < n; ++u) want[q[u]] = in[u];
      expect_eq("permute_by_degree " + dir + " rows", got, want);
      std::vector<size_t> d2(n);
      for (size_t u = 0; u < n; ++u) d2[u] = got[u].size();
      if (desc) std::reverse(d2.begin(), d2.end());
      expect_eq("permute_by_degree " + dir + " order", std::is_sorted(d2.begin(), d2.end()), true);
    }
    {
      auto a = a0;
      auto b = a0;
      auto q = b.permute_by_degree(dir);      // the same sort, so the same permutation
      a.sort_by_degree(dir);
      Rows got = rows(a), want(n);
      for (size_t u = 0; u < n; ++u)
        for (auto [v, x] : in[u]) want[q[u]].push_back({q[v], x});
      expect_eq("sort_by_degree " + dir + " is the relabelled graph", sorted_rows(got), sorted_rows(want));
      for (auto& x : got) expect_eq("sort_by_degree row order", std::is_sorted(x.begin(), x.end(), [](auto& p, auto& q) { return p.first < q.first; }), true);
    }
  }
}
static void proxy(const G& g) {
  std::vector<u32> x;
  for (auto& [a, b] : g.e) x.push_back(b);
  if (x.empty()) return;
  std::vector<u32> p(x.size());
  nw::util::proxysort(x, p, std::less<u32>());
  expect_eq("proxysort less", bijection(p, x.size()) && ordered(p, x, false), true);
  auto q = nw::util::proxysort<u64>(x, std::greater<u32>());
  expect_eq("proxysort greater", bijection(q, x.size()) && ordered(q, x, true), true);
  std::vector<u32> y(x.size());
  permute(x, y, p);
  for (size_t i = 0; i < x.size(); ++i) expect_eq("permute", y[i], x[p[i]]);
}
static void all(const G& g) {
  note(show_g(g));
  uni<DW, false>("directed", g);
  uni<UE, true>("undirected", g);
  bip<0>(g);
  bip<1>(g);
  comp(g);
  proxy(g);
}
SECTION("small") { each_seq(3, 3, 0, 0, all); }
SECTION("random") { each_seq(0, 0, 40, 40, all); }
SECTION("large") {      // long enough for the parallel algorithms to split
  Rng r(g_seed * 11 + 5);
  for (int q = 0; q < (deep() ? 12 : 3); ++q) all(random_dir(r, 3000 + 900 * q, 9000 + 3000 * q, true));
}
