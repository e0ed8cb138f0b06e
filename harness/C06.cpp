// clean-up of edge lists and of compressed graphs
#include "el.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/volos.hpp"
using namespace vh;
using E3 = std::tuple<size_t, size_t, u64>;
using VE = std::vector<E3>;
template <class E> static VE stored(E& e) {
  VE v;
  for (auto&& t : e) {
    if constexpr (std::tuple_size_v<typename E::attributes_t> == 0) v.push_back({std::get<0>(t), std::get<1>(t), 0});
    else v.push_back({std::get<0>(t), std::get<1>(t), std::get<2>(t)});
  }
  return v;
}
static const std::string str_s = "successor", str_p = "predecessor";
template <class E> static void one(const char* nm, const G& g) {
  std::string s   = nm;
  const VE    in  = [&] { E e = mkel<E>(g); return stored(e); }();
  auto        run = [&](const char* op, auto f, VE want, bool as_set = false) {
    E e = mkel<E>(g);
    f(e);
    VE got = stored(e);
    if (as_set) {
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
    }
    expect_eq(s + " " + op, got, want);
    expect_eq(s + " " + op + " size", size_t(e.size()), want.size());
    expect_eq(s + " " + op + " vertices", size_t(num_vertices(e)), size_t(num_vertices(mkel<E>(g))));
  };
  VE w;
  for (auto& t : in)
    if (std::get<0>(t) != std::get<1>(t)) w.push_back(t);
  run("remove_self_loops", [](E& e) { remove_self_loops(e); }, w);
  w.clear();
  auto same = [](const E3& a, const E3& b) { return std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b); };
  for (auto& t : in)
    if (w.empty() || !same(w.back(), t)) w.push_back(t);
  run("uniq", [](E& e) { uniq(e); }, w);
  VE lo, hi;
  for (auto [a, b, x] : in) {
    lo.push_back({std::max(a, b), std::min(a, b), x});
    hi.push_back({std::min(a, b), std::max(a, b), x});
  }
  constexpr auto P = succession::predecessor, S = succession::successor;
  run("swap_to_triangular<0,predecessor>", [](E& e) { swap_to_triangular<0, E, P>(e); }, lo);
  run("swap_to_triangular<0,successor>", [](E& e) { swap_to_triangular<0, E, S>(e); }, hi);
  run("swap_to_triangular<1,predecessor>", [](E& e) { swap_to_triangular<1, E, P>(e); }, hi);
  run("swap_to_triangular<1,successor>", [](E& e) { swap_to_triangular<1, E, S>(e); }, lo);
  run("swap_to_triangular<0>(predecessor)", [](E& e) { swap_to_triangular<0>(e, P); }, lo);
  run("swap_to_triangular<1>(predecessor)", [](E& e) { swap_to_triangular<1>(e, P); }, hi);
  run("swap_to_triangular<0>(string successor)", [](E& e) { swap_to_triangular<0>(e, str_s); }, hi);
  run("swap_to_triangular<0>(string predecessor)", [](E& e) { swap_to_triangular<0>(e, str_p); }, lo);
  auto srt = [&](const char* op, auto f, auto lt, bool stable) {
    VE z = in;
    if (stable) {
      std::stable_sort(z.begin(), z.end(), lt);
      run(op, f, z);
    } else {
      run(op, f, z, true);
      E e = mkel<E>(g);
      f(e);
      VE got = stored(e);
      expect_eq(s + " " + op + " is in order", std::is_sorted(got.begin(), got.end(), lt), true);
    }
  };
  auto k0 = [](const E3& a, const E3& b) { return std::get<0>(a) < std::get<0>(b); };
  auto k1 = [](const E3& a, const E3& b) { return std::get<1>(a) < std::get<1>(b); };
  auto l0 = [](const E3& a, const E3& b) { return std::tie(std::get<0>(a), std::get<1>(a)) < std::tie(std::get<0>(b), std::get<1>(b)); };
  auto l1 = [](const E3& a, const E3& b) { return std::tie(std::get<1>(a), std::get<0>(a)) < std::tie(std::get<1>(b), std::get<0>(b)); };
  srt("sort_by<0>", [](E& e) { sort_by<0>(e); }, k0, false);
  srt("sort_by<1>", [](E& e) { sort_by<1>(e); }, k1, false);
  srt("stable_sort_by<0>", [](E& e) { stable_sort_by<0>(e); }, k0, true);
  srt("stable_sort_by<1>", [](E& e) { stable_sort_by<1>(e); }, k1, true);
  srt("lexical_sort_by<0>", [](E& e) { lexical_sort_by<0>(e); }, l0, false);
  srt("lexical_sort_by<1>", [](E& e) { lexical_sort_by<1>(e); }, l1, false);
  srt("lexical_stable_sort_by<0>", [](E& e) { lexical_stable_sort_by<0>(e); }, l0, true);
  srt("lexical_stable_sort_by<1>", [](E& e) { lexical_stable_sort_by<1>(e); }, l1, true);
  // the usual pipeline
  auto uq = [&](auto f, const char* op) {
    E e = mkel<E>(g);
    f(e);
    uniq(e);
    VE got = stored(e), all = in;
    std::sort(all.begin(), all.end());
    std::set<std::pair<size_t, size_t>> want, have;
    for (auto& t : all) want.insert({std::get<0>(t), std::get<1>(t)});
    for (auto& t : got) {
      have.insert({std::get<0>(t), std::get<1>(t)});
      if (!std::binary_search(all.begin(), all.end(), t)) fail(s + op, "an entry that was not in the list");
    }
    expect_eq(s + op, have, want);
    expect_eq(s + op + " size", got.size(), want.size());
  };
  uq([](E& e) { lexical_sort_by<0>(e); }, " lexical_sort_by<0>, uniq");
  uq([](E& e) { lexical_stable_sort_by<1>(e); }, " lexical_stable_sort_by<1>, uniq");
}
template <int idx> static void tri(const G& g) {
  for (int low = 0; low < 2; ++low) {
    DW                e = mkel<DW>(g);
    adjacency<idx, u64> a(num_vertices(e));
    fill<idx>(e, a);
    std::vector<std::vector<std::pair<size_t, u64>>> want(g.n), got(a.size());
    size_t                                           u = 0;
    for (auto&& row : a) {
      for (auto&& t : row) {
        size_t v = std::get<0>(t);
        if (low ? v < u : v > u) want[u].push_back({v, std::get<1>(t)});
      }
      ++u;
    }
    if (low) a.template triangularize<succession::predecessor>();
    else a.template triangularize<succession::successor>();
    u = 0;
    for (auto&& row : a) {
      for (auto&& t : row) got[u].push_back({std::get<0>(t), std::get<1>(t)});
      ++u;
    }
    expect_eq("triangularize<" + std::string(low ? "predecessor" : "successor") + "> on adjacency<" + std::to_string(idx) + ">", got, want);
    expect_eq("triangularize keeps the row count", u, g.n);
  }
}
static void all(const G& g) {
  note(show_g(g));
  one<DE>("directed", g);
  one<UW>("undirected weighted", g);
  tri<0>(g);
  tri<1>(g);
}
SECTION("small") { each_seq(3, 3, 0, 0, all); }
SECTION("random") { each_seq(0, 0, 25, 40, all); }
SECTION("large") {      // long enough for the parallel algorithms to split
  Rng r(g_seed * 7 + 3);
  for (int q = 0; q < (deep() ? 12 : 3); ++q) all(random_dir(r, 60 + 400 * q, 9000 + 3000 * q, true));
}
SECTION("ids") {      // every list of two edges over ids from the whole range of the type
  const u32 id[] = {0, 1, 5, 0x10000u, 0x7fffffffu, 0x80000000u, 0x80000005u, 0xfffffffeu};
  for (u32 a : id)
    for (u32 b : id)
      for (u32 c : id)
        for (u32 d : id) {
          G g;
          g.n = 0;
          g.e = {{a, b}, {c, d}};
          note(show_g(g));
          one<DE>("directed", g);
          if ((a ^ b ^ c ^ d) & 1) one<UW>("undirected weighted", g);
        }
}
