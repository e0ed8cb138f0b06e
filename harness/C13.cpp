#include "h.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
#include "nwgraph/algorithms/dag_based_mis.hpp"
using namespace nw::graph;
using namespace vh;

template <class S> void check_mis(const G& s, const S& mis, const char* tag) {
  std::vector<char> in(s.n, 0);
  for (auto v : mis) {
    if (!expect(std::string(tag) + "-range", v < s.n, show(mis))) return;
    if (!expect(std::string(tag) + "-duplicate", !in[v], show(mis))) return;
    in[v] = 1;
  }
  std::vector<char> cov = in;
  for (auto& [a, b] : s.e) {
    if (a != b && in[a] && in[b]) { fail(std::string(tag) + "-not-independent", show(mis)); return; }
    if (in[a]) cov[b] = 1;
  }
  for (size_t v = 0; v < s.n; ++v)
    if (!cov[v]) { fail(std::string(tag) + "-not-maximal", show(mis)); return; }
}

SECTION("mis") {
  each_und(5, 400, 40, [](const G& g) {
    G s = symmetrize(g);
    note(show_g(g));
    std::vector<u32> ind, tgt;
    csr(s, ind, tgt);
    adjacency<0>        A(std::move(ind), std::move(tgt));
    std::vector<size_t> mis;
    maximal_independent_set(A, mis);
    check_mis(s, mis, "mis");
  });
  // self loops and parallel edges
  Rng r(g_seed);
  for (int k = 0; k < 300; ++k) {
    G g = random_dir(r, r.range(1, 12), r(30), true);
    G s = symmetrize(g);
    note(show_g(s));
    std::vector<u32> ind, tgt;
    csr(s, ind, tgt, false);
    adjacency<0>        A(std::move(ind), std::move(tgt));
    std::vector<size_t> mis;
    maximal_independent_set(A, mis);
    check_mis(s, mis, "mis");
  }
}
SECTION("mis-weighted") {
  Rng r(g_seed + 9);
  for (int k = 0; k < 200; ++k) {
    G g = random_und(r, r.range(2, 20), r(50));
    G s = symmetrize(g);
    if (s.e.empty()) continue;
    note(show_g(s));
    std::vector<u32> ind, tgt;
    csr(s, ind, tgt);
    std::vector<double>  w(tgt.size(), 1.5);
    adjacency<0, double> A(std::move(ind), std::move(tgt), std::move(w));
    std::vector<size_t>  mis;
    maximal_independent_set(A, mis);
    check_mis(s, mis, "mis");
  }
}
