From e48c9d80e9802a38032bd0a2a788eb6ea75a69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 01/11] fix: approximate algorithms emit the caller's edges
 with their true weights

The spanner was built without edge weights and the cycles of its exact phase
were emitted as descriptors of the (temporary) spanner. Copy the weights to the
spanner and translate its cycles to edges of the input graph.
---
 include/parmcb/detail/approx_spanner.hpp      | 24 ++++++++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp   |  2 +-
 .../parmcb/parmcb_approx_sva_signed_tbb.hpp   |  2 +-
 include/parmcb/parmcb_approx_sva_trees.hpp    |  4 ++--
 .../parmcb/parmcb_approx_sva_trees_tbb.hpp    |  4 ++--
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..6114dbf 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -10,6 +10,8 @@
 #include <parmcb/detail/bfs.hpp>
 
 #include <functional>
+#include <iterator>
+#include <list>
 #include <numeric>
 
 #ifdef PARMCB_HAVE_TBB
@@ -23,6 +25,15 @@ namespace parmcb {
 
 namespace detail {
 
+/*
+ * Where the exact algorithm writes the cycles of the spanner, which are lists of spanner edges.
+ */
+template<class Graph>
+struct spanner_cycles {
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> container;
+    typedef std::back_insert_iterator<container> output_iterator;
+};
+
 template<class Graph, class WeightMap, bool ParallelUsingTBB>
 class NonSpannerEdgesCycleBuilder {
 public:
@@ -278,7 +289,17 @@ public:
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        typename spanner_cycles<Graph>::container cycles;
+        _weight += exact_mcb_algo(_spanner, spanner_weight_map, std::back_inserter(cycles));
+
+        // output them using the edges of the input graph
+        for (const std::list<Edge> &cycle : cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const Edge &spanner_e : cycle) {
+                cycle_edgelist.push_back(_edge_spanner_to_g.at(spanner_e));
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
@@ -351,6 +372,7 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(boost::edge_weight, _spanner, spanner_e, boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..2f3105c 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -28,7 +28,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..c2c85aa 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -26,7 +26,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
 
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..8b28763 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -36,7 +36,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -46,7 +46,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..bc9612b 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -35,7 +35,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -44,7 +44,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,typename parmcb::detail::spanner_cycles<Graph>::output_iterator> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
-- 
2.43.0


From 2fe37ea0a02e1a5ec0685f9eeeede8d4944faba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 02/11] fix: ext_gcd sets both coefficients, with the right
 sign, when an argument is zero

---
 include/parmcb/fp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..bafd89a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -36,11 +36,13 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     a = (a < 0) ? -a : a;
     b = (b < 0) ? -b : b;
     if (a == 0) {
+        x = 0;
         y = bneg ? -1 : 1;
         return b;
     }
     if (b == 0) {
-        x = bneg ? -1 : 1;
+        x = aneg ? -1 : 1;
+        y = 0;
         return a;
     }
 
-- 
2.43.0


From 6c75f3f55c6a788047424a704744458abaeb56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 03/11] fix: is_prime(2) is true

---
 include/parmcb/fp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index bafd89a..29900e1 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -111,6 +111,8 @@ public:
 #ifdef PARMCB_INVARIANTS_CHECK
          assert( p >= t );
  #endif
+        if (p == t)
+            return true;
         if (p % 2 == 0)
             return false;
         T zero = T(0);
-- 
2.43.0


From 48a6531526dfe8a1451003e870f190b631e201c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 04/11] fix: SpVecGF2::add compared the new coordinate with the
 element past the end

---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From 9f4c0e5f4c1dfd83f2832e3ef3cc6129ef0d7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 05/11] fix: DIMACS reader drops the last character of a file
 without trailing newline

---
 include/parmcb/util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..d199d5c 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,7 +119,10 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+            std::size_t length = strlen(buffer);
+            if (length > 0 && buffer[length - 1] == '\n') {
+                buffer[length - 1] = '\0'; // eat the newline
+            }
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-- 
2.43.0


From 502f483e30e7a90248624e193e7280e2d65dca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:39 +0000
Subject: [PATCH 06/11] fix: set_global_tbb_concurrency has no effect once it
 returned; demos ignore --cores without --verbose

---
 include/parmcb/util.hpp   | 12 +++++++++---
 src/approx-mcb-dimacs.cpp |  6 ++++--
 src/mcb-dimacs.cpp        |  6 ++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index d199d5c..6a4ba49 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <memory>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
@@ -152,11 +153,16 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+        // the limit is in force only as long as the control object is alive
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> global_limit;
+        global_limit.reset();
+        global_limit.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From d9156d8ed5efd7807a2bd33a845bf79d45e8be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 07/11] fix: MPI demo leaves the other processes waiting when
 rank 0 rejects the input

---
 src/mcb-dimacs-mpi.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..611f0e8 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,21 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
-            std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_multiple_edges(graph)) {
-            std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
-            std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
+    // all processes must leave together, the others would wait forever in a collective operation
+    if (parmcb::has_loops(graph)) {
+        std::cerr << "Graph has loops, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        std::cerr << "Graph has multiple edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From c16f4e3257d8cfe4443c764f1cbec9147c381c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 08/11] fix: MPI signed algorithm orders signed edges by
 address, which differs between processes

---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..6d7c0dc 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <iostream>
@@ -91,13 +92,16 @@ namespace parmcb {
                  * Heuristic in case number of signed edges is small compared to the number of vertices.
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
-                std::vector<Edge> signed_edges_as_vector;
+                // all processes must agree on the order, edge descriptors compare by address
+                std::vector<Edge> signed_edges_as_vector(signed_edges.begin(), signed_edges.end());
+                std::sort(signed_edges_as_vector.begin(), signed_edges_as_vector.end(),
+                        [&forest_index](const Edge &e1, const Edge &e2) {
+                            return forest_index(e1) < forest_index(e2);
+                        });
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (const Edge &se : signed_edges_as_vector) {
+                    hidden_edges_per_edge.insert(std::make_pair(se, tmp_signed_edges));
+                    tmp_signed_edges.erase(se);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From e3e54443f508d60fe8e15e08a93dcd359c1db7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 09/11] fix: compare lexicographic distances by exact path
 length

The isometric-cycles variants need mutually consistent shortest path trees. With
weights whose sums are not exact (e.g. 0.1, 0.2) the same path has different
lengths depending on the end it is accumulated from, so needed cycles were
dropped and the result was not a cycle basis.
---
 include/parmcb/detail/lex_dijkstra.hpp | 33 +++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index 5f5f543..e2902e5 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -30,14 +30,22 @@ namespace parmcb {
             typedef typename boost::property_traits<DistanceMap>::value_type DistanceType;
 
             LexDistance() :
-                    distance(DistanceType()), edge_count(0), vertex_indices() {
+                    distance(DistanceType()), error(DistanceType()), edge_count(0), vertex_indices() {
             }
 
-            LexDistance(DistanceType distance, std::size_t edge_count, std::set<std::size_t> vertex_indices) :
-                    distance(distance), edge_count(edge_count), vertex_indices(vertex_indices) {
+            LexDistance(DistanceType distance, DistanceType error, std::size_t edge_count,
+                    std::set<std::size_t> vertex_indices) :
+                    distance(distance), error(error), edge_count(edge_count), vertex_indices(vertex_indices) {
             }
 
+            /*
+             * The length of the path is distance + error, where error is what has been lost due to
+             * rounding when accumulating the edge weights (always zero for exact types). Shortest path
+             * trees of different sources are mutually consistent only if all paths are compared by
+             * their exact length.
+             */
             DistanceType distance;
+            DistanceType error;
             std::size_t edge_count;
             std::set<std::size_t> vertex_indices;
         };
@@ -53,6 +61,12 @@ namespace parmcb {
                 if (a.distance > b.distance) {
                     return false;
                 }
+                if (a.error < b.error) {
+                    return true;
+                }
+                if (a.error > b.error) {
+                    return false;
+                }
                 if (a.edge_count < b.edge_count) {
                     return true;
                 }
@@ -107,13 +121,20 @@ namespace parmcb {
                 const auto index_source = index_map[boost::source(e, g)];
 
                 const WeightType e_weight = boost::get(weight_map, e);
-                const WeightType sum = combine(a.distance, e_weight);
+                const DistanceType sum = combine(a.distance, e_weight);
+
+                // exact error of the addition (two-sum), then renormalize
+                const DistanceType e_part = sum - a.distance;
+                const DistanceType d_part = sum - e_part;
+                const DistanceType error = a.error + ((a.distance - d_part) + (e_weight - e_part));
+                const DistanceType new_distance = sum + error;
+                const DistanceType new_error = error - (new_distance - sum);
 
                 std::set<std::size_t> vertex_indices = a.vertex_indices;
                 vertex_indices.insert(index_target);
                 vertex_indices.insert(index_source);
 
-                return LexDistance<Graph, DistanceMap>(sum, a.edge_count + 1, vertex_indices);
+                return LexDistance<Graph, DistanceMap>(new_distance, new_error, a.edge_count + 1, vertex_indices);
             }
 
             const DistanceType inf;
@@ -159,7 +180,7 @@ namespace parmcb {
 
         VertexQueue queue(lex_dist_map, index_in_heap_map, compare);
 
-        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
+        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
         boost::put(pred_map, s, std::make_tuple(false, Edge()));
         queue.push(s);
 
-- 
2.43.0


From 80dd5da1e9f58fcf8ca0f324b8f3b63e1bd220f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 10/11] fix: ignore the rest of a comment line longer than the
 read buffer

---
 include/parmcb/util.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 6a4ba49..2b42171 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,8 +119,14 @@ namespace parmcb {
 
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
+        bool inside_line = false;
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
             std::size_t length = strlen(buffer);
+            bool continued = inside_line; // rest of a line longer than the buffer
+            inside_line = length > 0 && buffer[length - 1] != '\n';
+            if (continued) {
+                continue;
+            }
             if (length > 0 && buffer[length - 1] == '\n') {
                 buffer[length - 1] = '\0'; // eat the newline
             }
-- 
2.43.0


From 661152a15cb1342ab5f24e5909dfb8f67f0db2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 11/11] fix: hop limit of the spanner for k > 2^63

---
 include/parmcb/detail/approx_spanner.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 6114dbf..937365e 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -11,6 +11,7 @@
 
 #include <functional>
 #include <iterator>
+#include <limits>
 #include <list>
 #include <numeric>
 
@@ -353,6 +354,10 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
+        // a path longer than any the type can count is no restriction
+        const std::size_t max_size = (std::numeric_limits<std::size_t>::max)();
+        const std::size_t max_hops = _k > max_size / 2 ? max_size : 2 * _k - 1;
+
         // construct edge set of spanner
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
@@ -368,7 +373,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0

