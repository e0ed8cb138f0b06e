From f77e2c587c243847d1c5e445c4e2d720b6c9907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 01/17] fix: bfs_v2 starts from a cleared frontier bitmap

queue_to_bitmap only sets bits, so the uninitialized words of 'front' could
mark vertices that were never in the frontier; the bottom-up step then gave
unreachable vertices a parent.
---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..13be7fb 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -574,7 +574,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(n);
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From 8b1ae5dd1550022fd21efab9210031c91c7e72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 02/17] fix: vertex_range splits into two disjoint halves and
 stops at one vertex

---
 include/nwgraph/adaptors/vertex_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..5b6f284 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -88,7 +88,7 @@ public:
   vertex_range(vertex_range&&)      = default;
 
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_), end_(rhs.begin_ += rhs.size() / 2) {}
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +97,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > 1; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From 3d65467e2d2a3173ebc239ec334671311abcf9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 03/17] fix: kruskal sizes its disjoint sets by vertex count,
 not edge count

---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From d288d0b2660a551587c7e1f32d5d950e16bd4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 04/17] fix: disjoint_set find starts at its argument; copy and
 set size read the right storage

---
 include/nwgraph/util/disjoint_set.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 120e06f..00077e3 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -130,7 +130,6 @@ public:
       std::cerr << "only support signed number" << std::endl;
       exit(EXIT_FAILURE);
     }
-    delete[] this->sets_;
     this->sets_ = new T[other.maxid_];
     memcpy(this->sets_, other.sets_, sizeof(T) * other.maxid_);
   }
@@ -224,7 +223,7 @@ public:
 
     //non-recursive simple find
     //negative means root
-    volatile T t = 0;
+    volatile T t = index;
     while (0 <= this->sets_[t]) {
       //if (t > this->maxid_ || t < 0) {
       t = this->sets_[t];
@@ -531,7 +530,7 @@ public:
 		 *  @ param[in] u, an element of the set to query
 		 *  @return the size of disjoint set.
 		 */
-  size_t getSetSize(const T u) const { return -find(u); }
+  size_t getSetSize(const T u) const { return -this->sets_[find(u)]; }
   /**
 		 * Overload operator<< for format output.
 		 * @param os, outstream pointer
-- 
2.43.0


From bdb0a9123ae5106099808f5b57d6a233e63c1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 05/17] fix: adjacency built from an edge list has one row per
 vertex when iterated

---
 include/nwgraph/adjacency.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
-- 
2.43.0


From 60517a300914cbd6979ff82f250bf6782c0b0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 06/17] fix: adjacency(N, edge_list) has N rows

---
 include/nwgraph/adjacency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..7ccf3c5 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -114,6 +114,7 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    if (base::indices_.size() < N + 1) base::indices_.resize(N + 1, base::indices_.back());
   }
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   index_adjacency(size_t N,
@@ -124,6 +125,7 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    if (base::indices_.size() < N + 1) base::indices_.resize(N + 1, base::indices_.back());
   }
   // customized move constructor
   index_adjacency(std::vector<vertex_id>&& indices,
-- 
2.43.0


From 8e3c4446e80c656294772db8092e97090f35bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 07/17] fix: sorting neighbour lists carries the edge
 properties along

---
 include/nwgraph/containers/compressed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..41a199a 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -416,10 +416,11 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    auto s = to_be_indexed_.begin();
 
     for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1],
+                [](const auto& a, const auto& b) -> bool { return std::get<0>(a) < std::get<0>(b); });
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 8215b8d015168bac49eca0b325a78a23b82aa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:03 +0000
Subject: [PATCH 08/17] fix: push_back into a compressed graph keeps the last
 row when it grows

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 41a199a..971a017 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -273,8 +273,8 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
+    if (i + 1 >= indices_.size()) {
+      for (index_t j = indices_.size(); j <= i + 1; ++j) {
         indices_.emplace_back(0);
         ++N_;
       }
-- 
2.43.0


From 01d0704e0f7da71a8e1ad032ed884dfb30d6f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 09/17] fix: permute_by_degree moves each row to its new place

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 971a017..0302f1b 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -492,8 +492,8 @@ public:    // fixme
     // before the computation, new_indices stores the degree of each vertex (with new id)
     std::inclusive_scan(ex_policy, new_indices.begin(), new_indices.end(), new_indices.begin());
     //7. Permute each neighborhood of each vertex in to_be_indexed_ to their new place
-    // based on the new_id_perm
-    to_be_indexed_.permute(indices_, new_indices, new_id_perm);
+    // perm gives, for each new row, the old row that moves there
+    to_be_indexed_.permute(indices_, new_indices, perm);
 
     //8. Overwrite the old indices_ with new_indices
     indices_ = std::move(new_indices);
-- 
2.43.0


From 7404297fa120939c45c0a63887f902cadc83244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 10/17] fix: permute_by_degree compiles with the default
 execution policy

---
 include/nwgraph/containers/compressed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 0302f1b..bc7b4ae 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -451,7 +451,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
-- 
2.43.0


From e60c48209181aa6b0a263a56cbb54c61d27dcbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:37 +0000
Subject: [PATCH 11/17] fix: soa and zip iterators: postfix increment and
 decrement compile

---
 include/nwgraph/containers/soa.hpp | 4 ++--
 include/nwgraph/containers/zip.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..5441df6 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -98,10 +98,10 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0ff909e..0237962 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -102,10 +102,10 @@ struct zipped : std::tuple<Ranges&...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From 8a269dd1be9541ed7f24d362282ed4cc2887cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:37 +0000
Subject: [PATCH 12/17] fix: containers of different sizes do not compare equal

---
 include/nwgraph/containers/soa.hpp | 2 +-
 include/nwgraph/containers/zip.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 5441df6..b4d4a03 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -334,7 +334,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   bool operator==(struct_of_arrays& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0237962..b353b16 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -297,7 +297,7 @@ struct zipped : std::tuple<Ranges&...> {
   }
 
   bool operator==(zipped& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From 0d0e514fe693055cd9e8c0e027b48a1dd4f97ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 13/17] fix: bfs_edge_range yielded a self-loop or read past
 the end at the seed's first edge

The iterator took the seed's first out-edge without checking that there is
one or that its target has not been visited yet.
---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 38 +++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..a235041 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -144,22 +144,11 @@ public:
     vertex_id_type                 v_;
     typename Graph::inner_iterator u_begin, u_end;
 
-  public:
-    bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
-
-    bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
-        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
-
-    bfs_edge_range_iterator& operator++() {
-      auto& Q      = the_range_.Q_;
+    // Move to the next edge whose target has not been visited; the queue is empty when there is none.
+    void advance() {
+      auto& Q       = the_range_.Q_;
       auto& visited = the_range_.visited_;
 
-
-      visited[std::get<0>(*u_begin)] = true;
-      Q.push(std::get<0>(*u_begin));
-
-      ++u_begin;
       while (u_begin != u_end && visited[std::get<0>(*u_begin)] == true) {
         ++u_begin;
       }
@@ -177,6 +166,27 @@ public:
           ++u_begin;
         }
       }
+    }
+
+  public:
+    bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      advance();
+    }
+
+    bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
+        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
+
+    bfs_edge_range_iterator& operator++() {
+      auto& Q      = the_range_.Q_;
+      auto& visited = the_range_.visited_;
+
+
+      visited[std::get<0>(*u_begin)] = true;
+      Q.push(std::get<0>(*u_begin));
+
+      ++u_begin;
+      advance();
 
       return *this;
     }
-- 
2.43.0


From 6807ea0e6300dba3e62b3088f1a10741e404656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 14/17] fix: afforest read one row past the end of the graph;
 CCVerifier never accepted

---
 include/nwgraph/algorithms/connected_components.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..6abc595 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,8 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
+  if (comp.empty()) return comp;
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
-- 
2.43.0


From 6eeb71d458f9cd64fa0b28a1eab2ecabfe41e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:58 +0000
Subject: [PATCH 15/17] fix: dijkstra's unreachable value is the distance
 type's largest value

It was the vertex id type's: dijkstra<int> found every distance to be -1, and
distances of 2^32 and more were lost with 64-bit distances.
---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From 67d4574b146544b8d0bb003edb5ffc3bbe3da254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:59 +0000
Subject: [PATCH 16/17] fix: delta_stepping's queue iterated over nothing:
 end() returned begin()

---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..0c8a39c 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From 318143085767643ccc56872fa35745a3ee93523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:59 +0000
Subject: [PATCH 17/17] fix: delta_stepping read an uninitialised flag when
 nothing was relaxed

---
 include/nwgraph/algorithms/delta_stepping.hpp              | 2 +-
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 0c8a39c..12d21cb 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0

