import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
I="include/nwgraph/"
p("C01","Adjacency construction keeps exactly the edges of the edge list",
  "Building a compressed adjacency from an edge list stores, in the row of every vertex, exactly the targets (with their properties) of that vertex's edges, with multiplicity. A directed edge appears once, in the row chosen by the requested index; an undirected edge appears once in each endpoint's row. The number of rows equals the number of vertices and nothing is written out of bounds, whatever the order of the edges.",
  ["inputs"],"for every edge list (any order, repeated edges, self loops, isolated vertices), index, and attribute tuple",
  "tests build adjacencies from a few fixed files (karate and similar) and compare sizes; order, multiplicity and skewed rows are not quantified over",
  [I+"build.hpp",I+"adjacency.hpp",I+"containers/compressed.hpp",I+"util/proxysort.hpp"],
  [("fill_directed / fill_undirected / fill_biadjacency","build.hpp"),("sort_by + count + inclusive scan","build.hpp fill_adj_list"),("move_in / N_ / indices_","containers/compressed.hpp")],
  [("indices_","row offsets","containers/compressed.hpp"),("to_be_indexed_","columns, by row","containers/compressed.hpp")])
p("C02","Compressed-row access and edge ranges enumerate each stored edge exactly once",
  "Row u of a compressed adjacency is exactly the stored entries between its two row offsets, in order; its size is their difference. Flattened views over a graph (edge ranges, plain edge and degree ranges, neighbour ranges, vertex ranges) yield every stored edge (vertex, degree) exactly once, in storage order, labelled with its own source vertex, including around empty rows and the last row.",
  ["inputs"],"for every well-formed compressed graph, including empty rows anywhere and empty graphs",
  "tests iterate a handful of fixed graphs and compare counts; runs of empty rows at the ends are not covered",
  [I+"containers/compressed.hpp",I+"adaptors/edge_range.hpp",I+"adaptors/plain_range.hpp",I+"adaptors/neighbor_range.hpp",I+"adaptors/vertex_range.hpp"],
  [("outer_iterator::operator*","containers/compressed.hpp"),("edge_range iterator advance over empty rows","adaptors/edge_range.hpp"),("plain_range / plain_degree_range","adaptors/plain_range.hpp")])
p("C03","Incremental construction stores what was pushed, where it was pushed",
  "Between opening and closing for push_back, an edge list or compressed structure stores exactly the pushed tuples in push order; after close, row offsets are monotone, start at zero, end at the number of stored entries, and delimit exactly the entries pushed for that row. The vertex count of an edge list is one more than the largest endpoint pushed (per column for bipartite lists).",
  ["inputs","histories"],"for every sequence of pushes between open and close",
  "tests push a few fixed edges; offsets after arbitrary push sequences are not checked",
  [I+"edge_list.hpp",I+"containers/compressed.hpp",I+"containers/soa.hpp",I+"vovos.hpp",I+"volos.hpp"],
  [("push_back / open_for_push_back / close_for_push_back","edge_list.hpp, containers/compressed.hpp"),("accumulate (exclusive scan of row counts)","containers/compressed.hpp")])
p("C04","Zipped containers and their iterators stay in step and obey iterator laws",
  "A struct-of-arrays or zip container has as many elements as each of its columns, and element i is the tuple of the i-th entries of all columns. Its iterators satisfy the random-access laws (it + n - it == n, *(it + n) is it[n], ++ then -- is identity, ordering agrees with position), and writing through a dereferenced iterator writes exactly that element of each column. Containers compare equal exactly when they have the same elements.",
  ["inputs"],"for all container sizes, positions and offsets",
  "tests exercise a few positions of short containers",
  [I+"containers/soa.hpp",I+"containers/zip.hpp"],
  [("soa_iterator arithmetic","containers/soa.hpp"),("zipped iterator","containers/zip.hpp")])
p("C05","Relabelling and degree sorting produce an isomorphic graph",
  "Relabelling an edge list by a permutation maps every edge (u,v,attributes) to (perm of u, perm of v, same attributes), and nothing else. Degree-ordered permutations are bijections on the vertices that order them by degree in the requested direction, and a relabelled graph is isomorphic to the original.",
  ["inputs"],"for every edge list and every degree sequence, either direction",
  "tests relabel one or two graphs and compare degree sequences",
  [I+"build.hpp",I+"util/proxysort.hpp",I+"containers/compressed.hpp"],
  [("relabel / relabel_by_degree / perm_by_degree","build.hpp"),("proxysort","util/proxysort.hpp"),("permute","containers/compressed.hpp")])
p("C06","Edge-list clean-up removes exactly what it says and nothing else",
  "Removing self loops removes exactly the edges whose endpoints are equal; removing duplicates leaves exactly one of each run of equal edges; swapping to a triangular half orients every edge without losing, adding or re-attributing any; filtering to a triangle keeps exactly the edges on that side. Kept edges keep their order and their attributes.",
  ["inputs"],"for every edge list and attribute assignment",
  "tests check counts on fixed lists",
  [I+"build.hpp",I+"edge_list.hpp"],
  [("remove_self_loops / uniq / swap_to_triangular / lexical_sort_by","build.hpp")])
p("C07","Degree counts are exact",
  "The degrees reported for a compressed graph are the row lengths; the degrees reported for an edge list count, for each vertex, exactly the edges incident in the requested column (both columns for undirected lists).",
  ["inputs"],"for every graph and edge list",
  "tests compare a few degrees on fixed graphs",
  [I+"build.hpp",I+"containers/compressed.hpp"],
  [("degrees","build.hpp"),("degrees / row length","containers/compressed.hpp")])
p("C08","Neighbourhood intersection size is exact",
  "For two neighbour lists sorted by target without repeats, intersection_size returns the number of targets present in both, in each calling form (ranges, iterator pairs, mixed), and reads nothing outside the two lists.",
  ["inputs"],"for every pair of strictly sorted neighbour ranges of any lengths",
  "tests compare counts on a few fixed graphs; prefix/suffix/disjoint patterns are not enumerated",
  [I+"util/intersection_size.hpp"],[("merge loop","util/intersection_size.hpp")])
p("C09","Every triangle counter returns the number of triangles",
  "Given rows sorted by target without repeats, triangle_count returns the sum over stored edges (u,v) of the number of common neighbours of u and v - for an upper- or lower-triangular graph, the number of triangles, each counted once. On an upper-triangular graph all sequential and threaded variants return the same value for every thread count.",
  ["inputs","schedules","configurations"],"for every graph with sorted rows, every number of threads",
  "tests run karate-size inputs with one thread setting",
  [I+"algorithms/triangle_count.hpp",I+"experimental/algorithms/triangle_count.hpp",I+"util/intersection_size.hpp"],
  [("triangle_count","algorithms/triangle_count.hpp"),("cyclic partition by thread","algorithms/triangle_count.hpp"),("triangle_count_v*","experimental/algorithms/triangle_count.hpp")])
p("C10","Breadth-first search returns a valid shortest-path parent tree",
  "After a breadth-first search from a root, a vertex has a parent if and only if it is reachable from the root; the root's parent is itself; every other parent pair is an edge of the graph, and following parents reaches the root in the minimum number of hops. All variants (top-down, direction-optimizing) agree on which vertices are reached.",
  ["inputs"],"for every graph and root vertex",
  "tests verify a BFS tree on a few fixed graphs and roots",
  [I+"algorithms/bfs.hpp",I+"experimental/algorithms/bfs.hpp",I+"util/AtomicBitVector.hpp"],
  [("bfs queue loop","algorithms/bfs.hpp"),("top-down / bottom-up step and switch","algorithms/bfs.hpp")])
p("C11","Single-source shortest path distances are exact",
  "dijkstra and every delta_stepping routine return, for every vertex, the minimum total weight of a path from the source, and the 'infinite' value (the largest value of the distance type) exactly for unreachable vertices, for every bucket width of at least one.",
  ["inputs","configurations"],"for every graph with non-negative integer weights, every source and every delta",
  "tests compare with one stored distance file",
  [I+"algorithms/dijkstra.hpp",I+"algorithms/delta_stepping.hpp"],
  [("relaxation loop","algorithms/dijkstra.hpp"),("bucket loop / relax","algorithms/delta_stepping.hpp")])
p("C12","Connected components label exactly the connected components",
  "afforest (on an undirected graph, or a directed graph with its transpose) and, on an undirected graph, the other connected-components routines (ccv1, ccv5, Afforest, sv_v6, sv_v8, sv_v9, lpcc, lpcc_cyclic, compute_connected_components_v2) give two vertices the same label if and only if they are connected; CCVerifier accepts exactly such labellings.",
  ["inputs","configurations"],"for every undirected graph, every number of sampling rounds and every random sample",
  "tests verify a few fixed graphs",
  [I+"algorithms/connected_components.hpp",I+"experimental/algorithms/connected_components.hpp"],
  [("hook / compress","algorithms/connected_components.hpp"),("label propagation","algorithms/connected_components.hpp")])
p("C13","Maximal independent set is independent and maximal",
  "On an undirected graph the returned vertices are distinct valid vertices, no stored edge joins two different members, and every vertex is a member or has a member among its neighbours.",
  ["inputs"],"for every symmetric graph, including self loops and parallel edges",
  "tests run a couple of graphs and inspect the size",
  [I+"algorithms/maximal_independent_set.hpp",I+"algorithms/dag_based_mis.hpp"],
  [("greedy scan with removed flags","algorithms/maximal_independent_set.hpp")])
p("C14","Disjoint sets keep the partition; Kruskal gives a minimum spanning forest",
  "A find returns the representative of its argument's set and never changes the partition; a union merges exactly the two sets; all sequences terminate. Kruskal's algorithm returns a spanning forest of the input of minimum total weight.",
  ["inputs","histories"],"for every forest-shaped parent array, every sequence of unions and finds, every weighted edge list",
  "tests run one union sequence and one MST",
  [I+"util/disjoint_set.hpp",I+"algorithms/kruskal.hpp"],
  [("disjoint_find / disjoint_union / disjoint_union_find","util/disjoint_set.hpp"),("kruskal loop","algorithms/kruskal.hpp")],
  [("subsets[i]","parent of i; roots are their own parent","util/disjoint_set.hpp")])
p("C15","Range partitioning covers every element exactly once",
  "Splitting a range (splittable and edge ranges, neighbour ranges, block partition, cyclic and cyclic-neighbour ranges) yields pieces that are disjoint and together contain exactly the original elements, each in order, for every split point, stride and piece count.",
  ["inputs","configurations"],"for all range sizes, block counts, strides and split sequences",
  "tests split a few ranges; boundary sizes (not divisible, smaller than the count, empty) are not covered",
  [I+"adaptors/splittable_range_adaptor.hpp",I+"adaptors/cyclic_range_adaptor.hpp",I+"adaptors/cyclic_neighbor_range.hpp",I+"util/util.hpp",I+"adaptors/edge_range.hpp",I+"adaptors/vertex_range.hpp"],
  [("tbb::split constructors","adaptors/*_range*.hpp"),("block()","util/util.hpp"),("cyclic iterator step","adaptors/cyclic_range_adaptor.hpp")])
p("C16","Atomic bit vector: each bit is independent, set once wins once",
  "Setting a bit sets exactly that bit, the reported previous value is exact (so among setters of one bit exactly one sees it clear), get reports the current value, clear clears everything, and iteration over set bits yields exactly the set positions below the size in increasing order.",
  ["inputs","schedules"],"for every size, bit position and content",
  "tests touch a few positions; word boundaries and untouched neighbours are not quantified over",
  [I+"util/AtomicBitVector.hpp"],[("set / get / atom_set / atom_get","util/AtomicBitVector.hpp"),("non_zeros iterator","util/AtomicBitVector.hpp")])
p("C17","Breadth-first traversal ranges visit each reachable vertex exactly once, in breadth-first order",
  "Iterating a breadth-first vertex range (topdown_bfs_range) yields every vertex reachable from its seed exactly once, the seed first, in non-decreasing hop distance, and nothing else. Iterating a breadth-first edge range (bfs_edge_range) yields only edges of the graph, each from an already visited vertex to a vertex seen for the first time, one for every reachable vertex other than the seed; it yields nothing when the seed reaches nothing. Both terminate and never read outside the graph.",
  ["inputs"],"for every directed or undirected graph and seed, including isolated seeds, cycles, self loops and repeated edges",
  "tests walk the ranges on one graph and count or print what they see; isolated seeds, self loops and cycles back to the seed are not exercised",
  [I+"adaptors/bfs_range.hpp",I+"adaptors/bfs_edge_range.hpp"],
  [("queue + visited flags","adaptors/bfs_range.hpp"),("queue + visited flags, next unvisited target","adaptors/bfs_edge_range.hpp")])
p("C18","Binary serialization round-trips",
  "Deserializing what was serialized from an edge list, struct of arrays or compressed graph restores exactly the same content (sizes, columns, row offsets, flags), into an object of any previous content.",
  ["inputs"],"for every content, including empty",
  "tests round-trip one graph",
  [I+"containers/compressed.hpp",I+"containers/soa.hpp",I+"containers/aos.hpp",I+"edge_list.hpp",I+"adjacency.hpp"],
  [("serialize / deserialize","containers/*.hpp")])
p("C19","Matrix Market files are read as written and written as stored",
  "Reading a Matrix Market coordinate file yields exactly its entries with zero-based indices (both orientations for symmetric files), values preserved where requested; writing a graph and reading it back yields the same edges.",
  ["inputs"],"for every well-formed coordinate file (pattern, integer, real; general, symmetric) and every edge list",
  "tests read a few data files and compare sizes",
  [I+"io/mmio.hpp",I+"io/MatrixMarketFile.hpp"],[("read_mm / mm_fill","io/mmio.hpp"),("write_mm","io/mmio.hpp")])
p("C20","Sparse matrix product equals the mathematical product",
  "spMatspMat returns exactly the (row, column, value) entries of the product over the chosen map/reduce operations: one entry per structurally reachable pair, its value the reduction over all shared middle indices.",
  ["inputs"],"for every pair of conforming sparse matrices",
  "tests multiply one or two fixed matrices",
  [I+"algorithms/spMatspMat.hpp"],[("row-wise accumulation","algorithms/spMatspMat.hpp")])
p("C21","k-core returns exactly the vertices of the k-core",
  "On an undirected simple graph, k_core keeps exactly the vertices of the largest subgraph in which every vertex has at least k neighbours.",
  ["inputs"],"for every undirected graph and every k",
  "tests run a fixed graph",
  [I+"algorithms/k_core.hpp"],[("degree peeling","algorithms/k_core.hpp")])
p("C22","parallel_for / parallel_reduce apply the operation once per element",
  "The parallel_for and parallel_reduce helpers invoke the operation exactly once for every element of the range (passing tuple elements as arguments where applicable) and the reduction equals the sequential fold for an associative, commutative operation with identity.",
  ["inputs","schedules"],"for every range and every split of it",
  "tests sum one fixed range",
  [I+"util/parallel_for.hpp"],[("parallel_for_inner / parallel_for_sequential / parallel_for / parallel_reduce","util/parallel_for.hpp")])
p("C23","Graph colouring is proper",
  "Jones-Plassmann colouring assigns every vertex a colour such that the endpoints of every edge differ.",
  ["inputs","schedules"],"for every undirected simple graph",
  "tests colour a fixed graph",
  [I+"algorithms/jones_plassmann_coloring.hpp",I+"experimental/algorithms/jones_plassmann_coloring.hpp"],[("round loop","algorithms/jones_plassmann_coloring.hpp")])
p("C24","PageRank converges to the stationary distribution",
  "page_rank returns non-negative scores approximating the damped stationary distribution within the requested tolerance or after the requested number of iterations.",
  ["inputs"],"for every graph, damping factor, tolerance","tests compare one graph within a tolerance",
  [I+"algorithms/page_rank.hpp"],[("power iteration","algorithms/page_rank.hpp")])
p("C25","Betweenness centrality equals Brandes' definition",
  "The betweenness scores equal the sum over vertex pairs of the fraction of shortest paths through each vertex, optionally normalized.",
  ["inputs"],"for every graph and source set","tests compare one stored result",
  [I+"algorithms/betweenness_centrality.hpp"],[("forward counting / backward accumulation","algorithms/betweenness_centrality.hpp")])
p("C26","Jaccard similarity equals |N(u) cap N(v)| / |N(u) cup N(v)|",
  "The similarity attached to each edge is the exact ratio of common to total neighbours of its endpoints.",
  ["inputs"],"for every graph","tests compare a few values",
  [I+"algorithms/jaccard.hpp"],[("intersection per edge","algorithms/jaccard.hpp")])
p("C27","Maximum flow equals minimum cut",
  "The value returned by the max-flow routines is the value of a maximum flow between source and sink.",
  ["inputs"],"for every capacitated graph and terminal pair","tests run one small network",
  [I+"algorithms/max_flow.hpp",I+"algorithms/boykov_kolmogorov.hpp"],[("augmentation","algorithms/max_flow.hpp")])
p("C28","Parallel algorithms give the sequential result under every schedule",
  "For every interleaving of their threads, the parallel algorithms produce a result satisfying the same specification as their sequential counterparts, without data races on shared state.",
  ["schedules"],"for every schedule of every parallel algorithm","tests run whatever schedule the machine happens to pick",
  [I+"algorithms/bfs.hpp",I+"algorithms/connected_components.hpp",I+"util/atomic.hpp"],[("compare-and-swap helpers","util/atomic.hpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
