#include "el.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
using namespace vh;
using E3 = std::tuple<size_t, size_t, u64>;
using VE = std::vector<E3>;
struct Flat {
  std::vector<u32> I, T;
  std::vector<u64> W;
  VE               e;
};
static Flat flat(const G& g) {
  Flat f;
  csr(g, f.I, f.T, false);
  for (size_t u = 0; u < g.n; ++u)
    for (size_t k = f.I[u]; k < f.I[u + 1]; ++k) {
      f.W.push_back(wt(k));
      f.e.push_back({u, f.T[k], wt(k)});
    }
  return f;
}
static VE drop(VE v) {
  for (auto& t : v) std::get<2>(t) = 0;
  return v;
}
template <class R> static void leaves(R r, VE& out, int depth = 0) {
  if (depth < 40 && r.is_divisible()) {
    R b(r, tbb::split{});
    leaves(r, out, depth + 1);
    leaves(b, out, depth + 1);
    return;
  }
  for (auto&& [u, v] : r) out.push_back({u, v, 0});
}
template <class A> static void plain_views(const char* nm, A& a, const Flat& f, size_t n) {
  std::string s = nm;
  VE          want = drop(f.e), got;
  for (auto&& [u, v] : make_edge_range(a)) got.push_back({u, v, 0});
  expect_eq(s + " edge_range", got, want);
  for (size_t off = 0; off <= n; off += 1 + n / 7) {
    VE w, o;
    for (auto& t : want)
      if (std::get<0>(t) >= off) w.push_back(t);
    for (auto&& [u, v] : make_edge_range(a, off)) o.push_back({u, v, 0});
    expect_eq(s + " edge_range from row", o, w);
  }
  got.clear();
  leaves(make_edge_range(a), got);
  expect_eq(s + " edge_range split", got, want);
  {
    auto r = make_edge_range(a);
    auto b = r.begin();
    expect_eq(s + " edge_range empty()", b == r.end(), want.empty());
    if (!want.empty()) {
      auto c = b;      // ++ of a copy leaves the original
      ++c;
      expect_eq(s + " edge_range first", E3(std::get<0>(*b), std::get<1>(*b), 0), want[0]);
    }
  }
  std::vector<size_t> vs, ids(n);
  std::iota(ids.begin(), ids.end(), 0);
  for (auto&& [u] : make_plain_range(a)) vs.push_back(u);
  expect_eq(s + " plain_range", vs, ids);
  std::vector<std::pair<size_t, size_t>> ds, wd;
  for (auto&& [u, d] : plain_degree_range<A>(a)) ds.push_back({u, d});
  for (size_t u = 0; u < n; ++u) wd.push_back({u, f.I[u + 1] - f.I[u]});
  expect_eq(s + " plain_degree_range", ds, wd);
  got.clear();
  for (auto&& [u, nb] : make_neighbor_range(a))
    for (auto&& v : nb) got.push_back({u, std::get<0>(v), 0});
  expect_eq(s + " neighbor_range", got, want);
  for (size_t off = 0; off <= n; off += 1 + n / 5) {
    VE o, w;
    for (auto&& [u, nb] : make_neighbor_range(a, off))
      for (auto&& v : nb) o.push_back({u, std::get<0>(v), 0});
    for (auto& t : want)
      if (std::get<0>(t) >= off) w.push_back(t);
    expect_eq(s + " neighbor_range from row", o, w);
    vs.clear();
    for (auto&& [u] : make_plain_range(a, off)) vs.push_back(u);
    expect_eq(s + " plain_range from row", vs, std::vector<size_t>(ids.begin() + off, ids.end()));
  }
  std::function<void(decltype(make_plain_range(a)), int)> pl = [&](auto r, int d) {
    if (d < 40 && r.is_divisible()) {
      decltype(r) b(r, tbb::split{});
      pl(r, d + 1);
      pl(b, d + 1);
      return;
    }
    for (auto&& [u] : r) vs.push_back(u);
  };
  vs.clear();
  pl(make_plain_range(a), 0);
  expect_eq(s + " plain_range split", vs, ids);
  std::function<void(decltype(make_neighbor_range(a)), int)> nl = [&](auto r, int d) {
    if (d < 40 && r.is_divisible()) {
      decltype(r) b(r, tbb::split{});
      nl(r, d + 1);
      nl(b, d + 1);
      return;
    }
    for (auto&& [u, nb] : r)
      for (auto&& v : nb) got.push_back({u, std::get<0>(v), 0});
  };
  got.clear();
  nl(make_neighbor_range(a), 0);
  expect_eq(s + " neighbor_range split", got, want);
}
template <class A> static void rows(const char* nm, A& a, const Flat& f, size_t n) {
  std::string s = nm;
  VE          want = drop(f.e), got;
  expect_eq(s + " size", size_t(a.size()), n);
  expect_eq(s + " num_vertices", size_t(num_vertices(a)), n);
  for (size_t u = 0; u < n; ++u) {
    auto&& r = a[u];
    expect_eq(s + " row size", size_t(std::ranges::distance(r)), size_t(f.I[u + 1] - f.I[u]));
    for (auto&& v : r) got.push_back({u, std::get<0>(v), 0});
  }
  expect_eq(s + " rows", got, want);
  got.clear();
  size_t u = 0;
  for (auto&& r : a) {
    for (auto&& v : r) got.push_back({u, std::get<0>(v), 0});
    ++u;
  }
  expect_eq(s + " outer iteration rows", u, n);
  expect_eq(s + " outer iteration", got, want);
}
static void all(const G& g) {
  note(show_g(g));
  Flat f = flat(g);
  {
    adjacency<0> a(std::vector<u32>(f.I), std::vector<u32>(f.T));
    rows("adjacency", a, f, g.n);
    plain_views("adjacency", a, f, g.n);
    const auto& c = a;
    rows("const adjacency", c, f, g.n);
    VE got;
    for (auto&& [u, v] : make_edge_range(c)) got.push_back({u, v, 0});
    expect_eq("const edge_range", got, drop(f.e));
    for (size_t e = 0; e < f.T.size(); ++e) expect_eq("source(e)", size_t(a.source(e)), std::get<0>(f.e[e]));
    for (size_t u = 0; u < g.n; ++u) {
      auto r = a[u];
      expect_eq("row.size()", size_t(r.size()), size_t(f.I[u + 1] - f.I[u]));
      expect_eq("row.empty()", r.empty(), f.I[u + 1] == f.I[u]);
      for (size_t k = 0; k < r.size(); ++k) {
        expect_eq("row[k]", std::get<0>(r.begin()[k]), f.T[f.I[u] + k]);
        expect_eq("*(row+k)", std::get<0>(*(r.begin() + k)), f.T[f.I[u] + k]);
        expect_eq("*(end-k-1)", std::get<0>(*(r.end() - (k + 1))), f.T[f.I[u + 1] - k - 1]);
      }
      auto it = a.begin() + u;
      expect_eq("begin()+u - begin()", size_t(it - a.begin()), u);
      expect_eq("(*(begin()+u)).size()", size_t((*it).size()), size_t(f.I[u + 1] - f.I[u]));
      expect_eq("begin()[u].size()", size_t(a.begin()[u].size()), size_t(f.I[u + 1] - f.I[u]));
    }
    expect_eq("end()-begin()", size_t(a.end() - a.begin()), g.n);
  }
  {
    adjacency<0, u64> a(std::vector<u32>(f.I), std::vector<u32>(f.T), std::vector<u64>(f.W));
    rows("weighted", a, f, g.n);
    VE got;
    for (auto&& [u, v, w] : make_edge_range<0>(a)) got.push_back({u, v, w});
    expect_eq("weighted edge_range", got, f.e);
    got.clear();
    for (auto&& [u, v] : make_edge_range(a)) got.push_back({u, v, 0});
    expect_eq("weighted edge_range without attributes", got, drop(f.e));
    for (auto&& [u, v, w] : make_edge_range<0>(a)) w += 5;      // written through the range
    got.clear();
    for (auto&& [u, v, w] : make_edge_range<0>(a)) got.push_back({u, v, w - 5});
    expect_eq("weighted edge_range after writing", got, f.e);
    got.clear();
    for (size_t u = 0; u < g.n; ++u)
      for (auto&& [v, w] : a[u]) got.push_back({u, v, w - 5});
    expect_eq("weighted rows", got, f.e);
  }
  {
    vov<0, u64> a(g.n);
    adj_list<0, u64> l(g.n);
    a.open_for_push_back();
    for (auto& [u, v, w] : f.e) {
      a.push_back(u, v, w);
      l[u].push_back({u32(v), w});
    }
    a.close_for_push_back();
    rows("vov", a, f, g.n);
    VE got;
    for (auto&& [u, v, w] : make_edge_range<0>(a)) got.push_back({u, v, w});
    expect_eq("vov edge_range", got, f.e);
    rows("adj_list", l, f, g.n);
  }
}
SECTION("dir3") { each_dir(3, 0, 0, all); }
SECTION("rand") { each_dir(0, 250, 70, all); }
SECTION("gaps") {      // runs of empty rows, also at both ends
  Rng r(g_seed * 7 + 3);
  for (int k = 0; k < (deep() ? 3000 : 500); ++k) {
    G g;
    g.n = r.range(0, 70);
    if (g.n)
      for (size_t q = r(5); q; --q) {
        u32 u = u32(r(g.n));
        for (size_t c = r.range(1, 4); c; --c) g.e.push_back({u, u32(r(g.n))});
      }
    all(g);
  }
}
