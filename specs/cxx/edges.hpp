// real edge lists over caller-provided columns
#pragma once
#include "common.hpp"
#include "nwgraph/build.hpp"
using DE = edge_list<directedness::directed>;
using UE = edge_list<directedness::undirected>;
using BE = bi_edge_list<directedness::directed>;
using DW = edge_list<directedness::directed, uint64_t>;
using UW = edge_list<directedness::undirected, uint64_t>;
template <class E, int k, class T>
inline void col(E& e, T* p, size_t m) {
  auto& v = std::get<k>(static_cast<typename E::base&>(e));
  v.d     = p;
  v.n     = m;
}
template <class E>
inline void el(E& e, uint32_t* s, uint32_t* t, size_t m, size_t n) {
  col<E, 0>(e, s, m);
  col<E, 1>(e, t, m);
  e.vertex_cardinality[0] = n;
}
template <class E>
inline void el(E& e, uint32_t* s, uint32_t* t, size_t m, size_t n0, size_t n1) {
  col<E, 0>(e, s, m);
  col<E, 1>(e, t, m);
  e.vertex_cardinality[0] = n0;
  e.vertex_cardinality[1] = n1;
}
