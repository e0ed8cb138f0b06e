#include "h.hpp"
#include <tbb/global_control.h>
#include <execution>
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/experimental/algorithms/connected_components.hpp"
using namespace nw::graph;
using namespace vh;
// one thread: the schedules are C28's subject
static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
struct Quiet {
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(nullptr)) {}
  ~Quiet() { std::cout.rdbuf(b), std::cout.clear(); }
};
static adjacency<0> mk(const G& g, bool rev = false) {
  edge_list<directedness::directed> el(g.n);
  el.open_for_push_back();
  for (auto& [x, y] : g.e) rev ? el.push_back(y, x) : el.push_back(x, y);
  el.close_for_push_back();
  return adjacency<0>(el);
}
static std::vector<size_t> comps(const G& g) {
  std::vector<size_t> c(g.n);
  std::iota(c.begin(), c.end(), 0);
  for (auto& [x, y] : g.e) {
    size_t a = c[x], b = c[y];
    if (a != b)
      for (auto& z : c)
        if (z == b) z = a;
  }
  return c;
}
template <class V> static void same(const std::string& nm, const G& g, const std::vector<size_t>& c, const V& l, bool exact = true) {
  if (!expect(nm + "-size", exact ? l.size() == g.n : l.size() >= g.n, show(l.size()))) return;
  for (size_t i = 0; i < g.n; ++i)
    for (size_t j = 0; j < i; ++j)
      if ((size_t(l[i]) == size_t(l[j])) != (c[i] == c[j])) return void(expect(nm, false, "vertices " + show(i) + "," + show(j) + " labels " + show(size_t(l[i])) + "," + show(size_t(l[j]))));
  expect(nm, true, "");
}
template <class F> static auto quiet(F f) { Quiet q; return f(); }
static void verifier(const G& g, const adjacency<0>& a, const adjacency<0>& t, const std::vector<size_t>& c, bool sym) {
  std::vector<u32> l(g.n);
  for (size_t i = 0; i < g.n; ++i) l[i] = u32(c[i]);
  expect("verifier-accepts", quiet([&] { return CCVerifier(a, t, l); }));
  // wrong labellings: split a component, merge two components
  for (size_t i = 0; i < g.n; ++i) {
    auto k = l;
    bool other = false;
    for (size_t j = 0; j < g.n; ++j) other |= j != i && l[j] == l[i];
    if (other) {
      k[i] = u32(g.n);
      expect("verifier-rejects-split", !quiet([&] { return CCVerifier(a, t, k); }), show(i));
    }
    for (size_t j = 0; j < i; ++j)
      if (l[i] != l[j]) {
        auto m = l;
        for (auto& z : m)
          if (z == l[i]) z = l[j];
        expect("verifier-rejects-merge", !quiet([&] { return CCVerifier(a, t, m); }), show(i) + "," + show(j));
      }
  }
}
static void und(const G& u) {
  G g = symmetrize(u);
  note(show_g(g));
  auto c = comps(g);
  auto a = mk(g);
  adjacency<0> t(0);
  for (size_t r : {0, 1, 2, 3}) {
    same("afforest-seq", g, c, quiet([&] { return afforest(std::execution::seq, a, t, r); }));
    same("afforest-transpose", g, c, quiet([&] { return afforest(std::execution::par_unseq, a, a, r); }));
  }
  verifier(g, a, t, c, true);
  if (!g.n) return;
  same("ccv1", g, c, ccv1(a));
  same("ccv5", g, c, ccv5(a));
  same("v2", g, c, quiet([&] { return compute_connected_components_v2(a); }));
  for (size_t r : {0, 1, 2}) same("Afforest", g, c, Afforest(a, t, r));
  same("sv_v6", g, c, sv_v6(a));
  same("sv_v8", g, c, quiet([&] { return sv_v8(a); }));
  same("sv_v9", g, c, quiet([&] { return sv_v9(a); }));
  same("lpcc", g, c, lpcc(std::execution::seq, a));
  same("lpcc_cyclic", g, c, lpcc_cyclic(std::execution::seq, a));
}
static void dir(const G& g) {
  note(show_g(g));
  auto c = comps(g);
  auto a = mk(g), t = mk(g, true);
  for (size_t r : {0, 1, 2, 3}) same("afforest-directed", g, c, quiet([&] { return afforest(std::execution::seq, a, t, r); }));
  verifier(g, a, t, c, false);
}
SECTION("undirected") {
  each_und(deep() ? 6 : 5, deep() ? 4000 : 300, 40, und);
}
SECTION("directed") {
  each_dir(deep() ? 4 : 3, deep() ? 4000 : 300, 30, dir);
}
// recorded finding: compute_connected_components_v1 (experimental) loses links on larger graphs
SECTION("v1-recorded") {
  G u;
  u.n = 17;
  for (auto& [x, y] : std::vector<std::pair<u32, u32>>{{0, 5}, {2, 4}, {2, 11}, {2, 12}, {2, 16}, {3, 7}, {4, 10}, {5, 6}, {6, 7}, {7, 10}, {7, 13}, {7, 14}, {9, 16}, {10, 16}}) u.e.push_back({x, y});
  G g = symmetrize(u);
  note(show_g(g));
  auto a = mk(g);
  same("v1-17-vertices", g, comps(g), quiet([&] { return compute_connected_components_v1(a); }));
}
