#include "el.hpp"
#include "nwgraph/vofos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
using namespace vh;
using Row  = std::vector<std::tuple<u32, u64, double>>;
using Rows = std::vector<Row>;
// reference rows: column idx selects the row; undirected lists also store the reverse
static Rows ref(const G& g, size_t n, int idx, bool und, int nattr) {
  Rows r(n);
  for (size_t k = 0; k < g.e.size(); ++k) {
    auto [a, b] = g.e[k];
    if (idx) std::swap(a, b);
    u64    w = nattr > 0 ? wt(k) : 0;
    double d = nattr > 1 ? double(wt(k)) / 4 : 0;
    r[a].push_back({b, w, d});
    if (und) r[b].push_back({a, w, d});
  }
  for (auto& x : r) std::sort(x.begin(), x.end());
  return r;
}
template <class E> static std::tuple<u32, u64, double> ent(E&& e) {
  constexpr size_t k = std::tuple_size_v<std::remove_cvref_t<E>>;
  if constexpr (k == 1) return {std::get<0>(e), 0, 0};
  else if constexpr (k == 2) return {std::get<0>(e), std::get<1>(e), 0};
  else return {std::get<0>(e), std::get<1>(e), std::get<2>(e)};
}
template <class A> static void cmp(const std::string& nm, A& a, const Rows& want, bool sorted = false) {
  if (!expect_eq(nm + " rows", size_t(a.size()), want.size())) return;
  Rows got, it;
  for (size_t u = 0; u < want.size(); ++u) {
    Row x;
    for (auto&& e : a[u]) x.push_back(ent(e));
    if (sorted)
      for (size_t k = 1; k < x.size(); ++k)
        if (std::get<0>(x[k]) < std::get<0>(x[k - 1])) return fail(nm + " sorted", "row " + show(u) + " " + show(x));
    got.push_back(x);
  }
  // the same rows through the outer iterator
  size_t u = 0;
  for (auto&& row : a) {
    if (u >= want.size()) return fail(nm + " outer iteration", "more rows than vertices (" + show(want.size()) + ")");
    Row x;
    for (auto&& e : row) x.push_back(ent(e));
    if (x != got[u]) return fail(nm + " outer iteration", "row " + show(u) + " " + show(x) + " vs " + show(got[u]));
    ++u;
  }
  expect_eq(nm + " outer iteration length", u, want.size());
  for (auto& x : got) std::sort(x.begin(), x.end());
  expect_eq(nm, got, want);
  size_t m = 0;
  for (auto& x : want) m += x.size();
  expect_eq(nm + " num_edges", size_t(a.num_edges()), m);
}
template <class E> constexpr bool isund = E::edge_directedness == directedness::undirected;
template <class E, template <int, class...> class A, class... At> static void uni(const G& g, const std::string& nm) {
  constexpr int na = sizeof...(At);
  auto          r0 = ref(g, g.n, 0, isund<E>, na), r1 = ref(g, g.n, 1, isund<E>, na);
  {
    auto        e = mkel<E>(g);
    A<0, At...> a(e);
    cmp(nm + "<0>", a, r0);
    expect_eq(nm + " edge list untouched", e.size(), g.e.size());
  }
  {
    auto        e = mkel<E>(g);
    A<1, At...> a(e);
    cmp(nm + "<1>", a, r1);
  }
  {
    auto        e = mkel<E>(g);
    A<0, At...> a(e, true);
    cmp(nm + "<0> sorted", a, r0, true);
  }
  {      // requested vertex count, list not sized in advance
    auto        e = mkel<E>(g, false);
    A<0, At...> a(g.n, e);
    cmp(nm + "(N, el)", a, r0);
  }
  {      // explicit directedness
    auto        e = mkel<E>(g);
    A<0, At...> a(g.n);
    fill<0>(e, a, directedness::undirected, false);
    cmp(nm + " fill(undirected)", a, ref(g, g.n, 0, true, na));
    A<1, At...> b(g.n);
    fill<1>(e, b, directedness::undirected, false);
    cmp(nm + " fill<1>(undirected)", b, ref(g, g.n, 1, true, na));
    if (!isund<E>) {
      A<0, At...> c(g.n);
      fill<0>(e, c, directedness::directed, true);
      cmp(nm + " fill(directed)", c, ref(g, g.n, 0, false, na), true);
    }
  }
}
template <class B> static void copies(const G& g) {
  auto                 e = mkel<DW>(g);
  adjacency<0, u64>    a(e);
  auto                 r = ref(g, g.n, 0, false, 1);
  adjacency<0, u64>    b(a);
  cmp("copy", b, r);
  auto I = a.get_indices();
  auto T = a.get_to_be_indexed();
  adjacency<0, u64> c(I, std::get<0>(T), std::get<1>(T));
  cmp("from vectors (copied)", c, r);
  adjacency<0, u64> d(std::move(I), std::move(std::get<0>(T)), std::move(std::get<1>(T)));
  cmp("from vectors (moved)", d, r);
  adjacency<0, u64> f(std::move(d));
  cmp("moved", f, r);
}
static void all(const G& g) {
  note(show_g(g));
  uni<DE, adjacency>(g, "directed");
  uni<UE, adjacency>(g, "undirected");
  uni<DW, adjacency, u64>(g, "directed weighted");
  uni<UW, adjacency, u64>(g, "undirected weighted");
  uni<DW2, adjacency, u64, double>(g, "directed 2 attributes");
  uni<UW2, adjacency, u64, double>(g, "undirected 2 attributes");
  copies<void>(g);
}
SECTION("small") { each_seq(2, 3, 0, 1, all); }
SECTION("random") { each_seq(0, 0, 150, 60, all); }
static void bip(const G& g) {
  note("bipartite n1=n0+3 " + show_g(g));
  size_t n0 = g.n, n1 = g.n + 3;
  auto   e = mkbel<BE>(g, n0, n1);
  auto   w = mkbel<BW>(g, n0, n1);
  {
    biadjacency<0> a(e);
    cmp("biadjacency<0>", a, ref(g, n0, 0, false, 0));
    biadjacency<1> b(e);
    cmp("biadjacency<1>", b, ref(g, n1, 1, false, 0));
    biadjacency<1> s(e, true);
    cmp("biadjacency<1> sorted", s, ref(g, n1, 1, false, 0), true);
  }
  {
    biadjacency<0, u64> a(w);
    cmp("biadjacency<0> weighted", a, ref(g, n0, 0, false, 1));
    biadjacency<1, u64> b(w, true);
    cmp("biadjacency<1> weighted sorted", b, ref(g, n1, 1, false, 1), true);
  }
}
SECTION("bipartite") { each_seq(2, 3, 150, 50, bip); }
// large skewed input: parallel sort / scan paths
SECTION("large") {
  Rng r(g_seed + 9);
  for (int it = 0; it < (deep() ? 6 : 2); ++it) {
    G g = random_dir(r, 700, 20000, true);
    for (auto& [a, b] : g.e)
      if (r(3) == 0) a = 5;
    note("n=700 m=20000 skewed, it=" + show(it));
    uni<DW, adjacency, u64>(g, "directed weighted");
    uni<UW, adjacency, u64>(g, "undirected weighted");
  }
}
template <class Gr, class E> static void seqg(const G& g, const E& e, const std::string& nm, bool dir, int idx) {
  Gr a(g.n);
  push_back_fill(e, a, dir, idx);
  auto r = ref(g, g.n, idx, !dir, std::tuple_size_v<typename E::attributes_t>);
  if (!expect_eq(nm + " rows", size_t(num_vertices(a)), g.n)) return;
  for (size_t u = 0; u < g.n; ++u) {
    Row x;
    for (auto&& t : a[u]) x.push_back(ent(t));
    std::sort(x.begin(), x.end());
    expect_eq(nm + " row " + show(u), x, r[u]);
  }
}
static void seqs(const G& g) {
  note(show_g(g));
  auto e = mkel<DE>(g);
  auto w = mkel<DW>(g);
  for (int idx = 0; idx < 2; ++idx)
    for (bool dir : {true, false}) {
      std::string s = std::string(dir ? " directed" : " undirected") + (idx ? "<1>" : "<0>");
      seqg<vov<0>>(g, e, "vov" + s, dir, idx);
      seqg<vov<0, u64>>(g, w, "vov weighted" + s, dir, idx);
      seqg<adj_list<0>>(g, e, "adj_list" + s, dir, idx);
      seqg<adj_list<0, u64>>(g, w, "adj_list weighted" + s, dir, idx);
    }
}
SECTION("sequence-graphs") { each_seq(2, 3, 150, 40, seqs); }
