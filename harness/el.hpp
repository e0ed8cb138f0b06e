// edge-list helpers for the harnesses
#pragma once
#include "h.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/edge_list.hpp"
namespace vh {
using namespace nw::graph;
using DE = edge_list<directedness::directed>;
using UE = edge_list<directedness::undirected>;
using DW = edge_list<directedness::directed, u64>;
using UW = edge_list<directedness::undirected, u64>;
using DW2 = edge_list<directedness::directed, u64, double>;
using UW2 = edge_list<directedness::undirected, u64, double>;
using BE = bi_edge_list<directedness::directed>;
using BW = bi_edge_list<directedness::directed, u64>;
inline u64 wt(size_t k) { return 1000 + 37 * k; }      // unique per position
template <class E> E mkel(const G& g, bool size_first = true) {
  E e(size_first ? g.n : 0);
  e.open_for_push_back();
  for (size_t k = 0; k < g.e.size(); ++k) {
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) e.push_back(g.e[k].first, g.e[k].second);
    else if constexpr (std::tuple_size_v<typename E::attributes_t> == 1) e.push_back(g.e[k].first, g.e[k].second, wt(k));
    else e.push_back(g.e[k].first, g.e[k].second, wt(k), double(wt(k)) / 4);
  }
  e.close_for_push_back();
  return e;
}
template <class E> E mkbel(const G& g, size_t n0, size_t n1) {
  E e(n0, n1);
  e.open_for_push_back();
  for (size_t k = 0; k < g.e.size(); ++k) {
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) e.push_back(g.e[k].first, g.e[k].second);
    else e.push_back(g.e[k].first, g.e[k].second, wt(k));
  }
  e.close_for_push_back();
  return e;
}
// edge sequences (order matters): all of length <= len on at most n vertices, then random ones
template <class F> void each_seq(size_t nmax, size_t len, size_t cnt, size_t rn, F f) {
  for (size_t n = 1; n <= nmax; ++n)
    for (size_t l = 0; l <= len; ++l) {
      u64 tot = 1;
      for (size_t i = 0; i < l; ++i) tot *= n * n;
      for (u64 c = 0; c < tot; ++c) {
        G   g;
        u64 x = c;
        g.n   = n;
        for (size_t i = 0; i < l; ++i, x /= n * n) g.e.push_back({u32(x % (n * n) / n), u32(x % n)});
        f(g);
      }
    }
  Rng r(g_seed * 83 + 11);
  if (deep()) cnt *= 6;
  for (size_t k = 0; k < cnt; ++k) {
    size_t n = r.range(1, rn), d = r(5);
    G      g = random_dir(r, n, d == 0 ? n / 2 : d == 1 ? n : d == 2 ? 3 * n : d == 3 ? n * n / 2 : 8 * n, true);
    if (d == 4 && n > 2) {      // skewed: a few hubs
      for (auto& [a, b] : g.e) {
        if (r(2)) a = u32(r(2));
        if (r(3) == 0) b = u32(n - 1 - r(2));
      }
    }
    f(g);
  }
}
}    // namespace vh
