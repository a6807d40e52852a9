From 609d75c88a420d4bf29158e9c71591f0a508c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 01/39] fix: use the cost of the new best solution in the cost
 cover event handler

SCIP processes BESTSOLFOUND before the upper bound is updated, so SCIPgetUpperbound
was still infinite when the first solution was found. Casting it to int gave a
negative bound, every vertex looked too expensive, and valid tours were cut off.
---
 src/cost_cover.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..c844257 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 #include "pctsp/cost_cover.hh"
 #include "pctsp/data_structures.hh"
 #include "pctsp/logger.hh"
@@ -77,7 +79,10 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 }
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
-    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetUpperbound(scip);
+    // SCIP may process this event before the upper bound is updated to the value of the new
+    // best solution (the bound is still infinite), so use the cost of the solution itself
+    double solution_cost = SCIPgetSolOrigObj(scip, SCIPeventGetSol(event));
+    CostNumberType cost_upper_bound = (CostNumberType) std::llround(solution_cost);
     unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
     increaseNumConssAdded(nconss);
     return SCIP_OKAY;
-- 
2.43.0


From 9677f49e9fd2f5da8154791557da7d6dbf6a81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 02/39] fix: read the summary statistics from YAML in the order
 of the struct members

num_cost_cover_shortest_paths and nconss_presolve_disjoint_paths were swapped.
---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From fc3ce825c1c8d05e7cac7076bc2d965d3a0728e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 03/39] fix: copy the non-singular components, not the first
 components

The i'th component was copied in place of the i'th non-singular one, and the overload
taking a graph called functions that do not exist.
---
 include/pctsp/data_structures.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..0ac7871 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
@@ -108,8 +108,8 @@ std::vector<std::vector<typename TGraph::vertex_descriptor>> getNonSingularConne
     int& n_components,
     std::vector<int>& vertex_component_ids
 ) {
-    auto component_vectors = getConnectedComponentVectors(graph, n_components, vertex_component_ids);
-    return getNonSingularComponentVectors(component_vectors);
+    auto component_vectors = getConnectedComponentsVectors(graph, n_components, vertex_component_ids);
+    return getNonSingularConnectedComponentVectors(component_vectors);
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 30c74655cb583b2b646e6b875a14474c6a1ce4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 04/39] fix: pass step_size before path_depth_limit to
 path_extension_bind

The two were swapped, so the default arguments never extended a tour.
---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From df79109eaa6c516aa6f90ddc7dee9a3aeabf8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 05/39] fix: use the tour returned by
 extension_until_prize_feasible in run_heuristic

The tour is not changed in place, so the extension was thrown away and the heuristic
missed feasible tours.
---
 pctsp/lab/run_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..a5bdc48 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -101,7 +101,7 @@ def run_heuristic(
         AlgorithmName.suurballes_extension_collapse,
     ]:
         # run extension with unitary gain then collapse
-        extension_until_prize_feasible(graph, small_tour, quota)
+        small_tour = extension_until_prize_feasible(graph, small_tour, quota)
         tour = extension_unitary_gain_collapse(
             graph,
             small_tour,
-- 
2.43.0


From 9fe7de4a1a12060b4d568a8e7f3dfa6998f74055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 06/39] fix: pass the collapse_paths parameter of the vial to
 the heuristic

It was only passed when the heuristic warm starts the exact algorithm.
---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index a5bdc48..5e66a66 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -183,6 +183,7 @@ def run_algorithm(
             vial.data_config.quota,
             vial.data_config.root,
             vial.model_params.algorithm,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
-- 
2.43.0


From c9ddcac51025a230f648adea8a2297760d271492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 07/39] fix: do not overwrite the biggest vertex id in
 get_graph_stats

The id is needed again to map split vertices back to the input graph.
---
 pctsp/apps/dataset_app.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..f3d62f2 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -155,7 +154,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         )
         if prize > biggest_prize:
             biggest_prize = prize
-            biggest_vertex = u
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From 1f0b05e5d76c0d074f6a1fb23c1aa5e4267e7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 08/39] fix: treat an unreadable result as missing in
 infeasible_vials, as missing_vials does

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..baf042e 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From 32e9928c435e74b280dad6950b2aebfa1481f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 09/39] fix: return the pair of disjoint paths that was checked
 in the random tour

The loop checked one vertex then returned the paths of another one it had just drawn,
which may be too short to be a cycle, and drew from an empty list when one vertex was left.
---
 pctsp/algorithms/heuristic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..4c28d8d 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -189,15 +189,14 @@ def random_tour_from_disjoint_paths_map(
         error_message += "(excluding between the root and itself)"
         raise ValueError(error_message)
 
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+    raise ValueError("Every pair of vertex disjoint paths is too short to be a cycle")
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From 2c6d6b53f5af4c7f1123691e2ac092c238e8dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 10/39] fix: update the prize of the tour in
 pathExtensionUntilPrizeFeasible

The prize was computed once, so the tour was extended past the quota.
---
 include/pctsp/heuristic.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index b4ba7c5..2c243b4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -352,6 +352,7 @@ void pathExtensionUntilPrizeFeasible(
             auto external_path = extension_paths[index_of_smallest_loss];
             int last_index = (index_of_smallest_loss + step_size) % k;
             swapPathsInTour(tour, external_path, index_of_smallest_loss, last_index);
+            prize = totalPrizeOfTour(prize_map, tour);
         }
     }
 }
-- 
2.43.0


From ddfadd2ed66b3436b2687ca6228c69d27d4a85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 11/39] fix: use the capacity of the root component's own edges
 in the maxflow separation

The capacities of all solution edges were indexed by the position of an edge among those
in the root component, so they were misaligned when other components exist.
---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..96194d9 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -334,10 +334,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;    // capacities of the edges in root_edge_vector
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -351,7 +354,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From e05898a85eae046323760306184e8f0983b71770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 12/39] fix: process every incident edge in Suurballe's
 algorithm, not every second one

process removes the edge from the list that was being iterated over.
---
 pctsp/suurballe/suurballe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index d6f086d..2bc69a4 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -302,7 +302,8 @@ def suurballe_shortest_vertex_disjoint_paths(
             T.labeled[v] = True  # make v labeled
 
             # process edges incident to v
-            for u, w in T.edges_incident_to_vertex[v]:
+            # NOTE process removes edges from the list, so loop over a copy
+            for u, w in T.edges_incident_to_vertex[v].copy():
                 process(T, u, w, v)
 
             # denoted x in the paper
@@ -426,7 +427,8 @@ def scan_parent(T, x, v):
     v : node
         Node which causes edge (u,w) to be processed.
     """
-    for u, w in T.edges_incident_to_vertex[x]:
+    # NOTE process removes edges from the list, so loop over a copy
+    for u, w in T.edges_incident_to_vertex[x].copy():
         # u and w are in different subtrees so process edge
         if u != x and is_ancestor(T, v, u):
             process(T, u, w, v)
-- 
2.43.0


From 57b125e3d384e6df74d409fb3e16f80011eac54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 13/39] fix: only initialise the tour with a simple cycle

The pair of disjoint paths from the root to itself may form a walk that visits
the root twice, which is not a tour.
---
 pctsp/algorithms/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 4c28d8d..2f0dde4 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,7 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From 343a1f2297f0261d8d0722ca1302d91391a24fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 14/39] fix: number the shortest path tree without recursion

preorder and postorder raised RecursionError on shortest path trees deeper than about
1000 vertices, for example the split digraph of a cycle with 600 vertices.
---
 pctsp/suurballe/suurballe.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index 2bc69a4..03167ea 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -111,19 +111,13 @@ def preorder(T: nx.DiGraph, source: Vertex) -> VertexList:
         Assigns nodes with the attribute "pre".
     """
     nx.set_node_attributes(T, sys.maxsize, name="pre")
-    order: VertexList = []
-    preorder_recursive(T, source, order)
+    # not recursive: a deep tree exceeds the recursion limit
+    order: VertexList = list(nx.dfs_preorder_nodes(T, source))
+    for index, vertex in enumerate(order):
+        T.nodes[vertex]["pre"] = index
     return order
 
 
-def preorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call in preorder traversal"""
-    T.nodes[vertex]["pre"] = len(order)
-    order.append(vertex)
-    for successor in T.successors(vertex):
-        preorder_recursive(T, successor, order)
-
-
 def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
     """Postorder traversal of the tree.
 
@@ -138,19 +132,13 @@ def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
         Assigns nodes with the attribute "post".
     """
     nx.set_node_attributes(T, sys.maxsize, name="post")
-    order: VertexList = []
-    postorder_recursive(T, source, order)
+    # not recursive: a deep tree exceeds the recursion limit
+    order: VertexList = list(nx.dfs_postorder_nodes(T, source))
+    for index, vertex in enumerate(order):
+        T.nodes[vertex]["post"] = index
     return order
 
 
-def postorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call for postorder traversal"""
-    for successor in T.successors(vertex):
-        postorder_recursive(T, successor, order)
-    T.nodes[vertex]["post"] = len(order)
-    order.append(vertex)
-
-
 def adjust_edge_cost(
     original_cost_of_edge: int, distance_from_s_to_u: int, distance_from_s_to_v: int
 ) -> int:
-- 
2.43.0


From 16a97d71fde081d52e92f6541ef466215c543c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 15/39] fix: remove leaves without recursion

remove_leaves called itself once per layer of leaves and raised RecursionError on a graph with
a pendant path of about 2000 vertices.
---
 pctsp/preprocessing/preprocessing.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pctsp/preprocessing/preprocessing.py b/pctsp/preprocessing/preprocessing.py
index dd30dee..512bd43 100644
--- a/pctsp/preprocessing/preprocessing.py
+++ b/pctsp/preprocessing/preprocessing.py
@@ -115,16 +115,17 @@ def remove_leaves(graph: nx.Graph) -> nx.Graph:
     Notes:
         Self loops are not considered
     """
-    leaf_vertices = set()
-    leaf_vertex_found = False
-    for vertex in graph:
+    subgraph = graph.subgraph(set(graph.nodes()))
+    leaf_vertices = {None}
+    # not recursive: a long pendant path exceeds the recursion limit
+    while leaf_vertices:
         # remove self loops and isolated vertices (not including self loops)
-        if degree_without_self_loops(graph, vertex) <= 1:
-            leaf_vertices.add(vertex)
-            leaf_vertex_found = True
-    subgraph = graph.subgraph(set(graph.nodes()) - leaf_vertices)
-    if leaf_vertex_found:
-        return remove_leaves(subgraph)
+        leaf_vertices = {
+            vertex
+            for vertex in subgraph
+            if degree_without_self_loops(subgraph, vertex) <= 1
+        }
+        subgraph = graph.subgraph(set(subgraph.nodes()) - leaf_vertices)
     return subgraph
 
 
-- 
2.43.0


From 5c2101aaba812a5cb864e5c4c46909ffa8d5fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 16/39] fix: do not look up vertices without a new name in the
 renaming

The prizes of vertices without edges, and a root without edges, were looked up with the end
iterator of the bimap: reading and writing out of bounds, a crash for an isolated root.
---
 include/pctsp/exception.hh  |  2 ++
 include/pctsp/renaming.hh   |  6 ++++++
 src/subtour_elimination.cpp | 10 ++++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..fd91870 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -33,6 +33,8 @@ class VertexNotFoundException : public std::exception {
     std::string message;
 public:
     VertexNotFoundException(const std::string& vertex_str) : message(std::string("Vertex not found: ") + vertex_str) {}
+
+    const char* what() const throw() { return message.c_str(); }
 };
 
 class NoSelfLoopFoundException : EdgeNotFoundException {
diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index 0903fa3..c868a0d 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -2,6 +2,8 @@
 #define __PCTSP_RENAME__
 #include <boost/bimap.hpp>
 
+#include "exception.hh"
+
 // functions for renaming vertices and creating new graphs
 
 template<typename OldVertex, typename NewVertex>
@@ -60,12 +62,14 @@ std::vector<std::pair<NewVertex, NewVertex>> renameEdges(
 template<typename OldVertex, typename NewVertex>
 OldVertex getOldVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, NewVertex& new_vertex) {
     auto it = vertex_bimap.left.find(new_vertex);
+    if (it == vertex_bimap.left.end()) throw VertexNotFoundException(std::to_string(new_vertex));
     return (*it).second;
 }
 
 template<typename OldVertex, typename NewVertex>
 NewVertex getNewVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, OldVertex& old_vertex) {
     auto it = vertex_bimap.right.find(old_vertex);
+    if (it == vertex_bimap.right.end()) throw VertexNotFoundException(std::to_string(old_vertex));
     return (*it).second;
 }
 
@@ -169,6 +173,8 @@ void fillRenamedVertexMap(
 ) {
     for (const auto& [key, value] : old_prize_map) {
         OldVertex old = key;
+        // a vertex that is not adjacent to any edge has no new name
+        if (vertex_id_map.right.find(old) == vertex_id_map.right.end()) continue;
         NewVertex v = getNewVertex(vertex_id_map, old);
         new_prize_map[v] = value;
     }
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 96194d9..b61a1d8 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -343,6 +343,11 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
             root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
+    // without edges at the root there is no root vertex in the support graph
+    if (root_edge_vector.empty()) {
+        BOOST_LOG_TRIVIAL(debug) << "Num vertices in support graph is zero.";
+        return SCIP_OKAY;
+    }
     // create mapping from input vertices to support vertices (they will be renamed)
     typedef boost::graph_traits<DirectedCapacityGraph>::vertex_descriptor SupportVertex;
     boost::bimap<SupportVertex, PCTSPvertex> lookup;
@@ -379,10 +384,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     for (int i = 0; i < added_sec.size(); i++) {
         added_sec[i] = false;
     }
-    if (support_root < added_sec.size())
-        added_sec[support_root] = true;
-    else
-        BOOST_LOG_TRIVIAL(debug) << "Num vertices in support graph is zero.";
+    added_sec[support_root] = true;
     for (auto target : boost::make_iterator_range(boost::vertices(support_graph))) {
         if (!added_sec[target]) {
             // reset the residual capacity
-- 
2.43.0


From e19c32ed8492d28183f3b4dfa7136a88aadbf343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 17/39] fix: close the log file after writing the solver
 statistics

Every solve left one file open: after about 1000 solves in one process no file could be
opened, so the summary statistics were silently not written.
---
 src/algorithms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..86a9774 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -225,6 +225,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
     // write the logs to txt
     FILE* log_file = fopen(scip_logs_txt.c_str(), "w");
     SCIPprintStatistics(scip, log_file);
+    if (log_file != NULL) fclose(log_file);
 
     // write the bounds CSV: NOTE this file can get very large
     // std::vector<Bounds> bounds_vector = bounds_handler->getBoundsVector();
-- 
2.43.0


From da28dca8cd66f1f073b6f97fcf06db1767475b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:47 +0000
Subject: [PATCH 18/39] fix: do not return an invalid result when there is
 nothing to branch on in enfolp

---
 src/subtour_elimination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index b61a1d8..48f3cc2 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -218,6 +218,8 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
             // resolve the infeasibility by branching
             BOOST_LOG_TRIVIAL(debug)<< "BRANCHING in enfolp: Node " << std::to_string(node_id) << " found to be tailing off. Gap is " << std::to_string(gap) << ". Threshold is " << std::to_string(sec_lp_gap_improvement_threshold) << std::endl;
             SCIPbranchLP(scip, result);
+            // without a fractional variable there is nothing to branch on: let SCIP resolve the infeasibility
+            if (*result == SCIP_DIDNOTRUN || *result == SCIP_DIDNOTFIND) *result = SCIP_INFEASIBLE;
         }
         else {
             // resolve the infeasibility by adding a subtour elimination constraint
-- 
2.43.0


From 9e58b52b8b16357e33380f34f0c7dae30dbef653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 19/39] fix: do not path-extend an empty tour or with a step
 size below one

---
 include/pctsp/heuristic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index 2c243b4..dcd4cca 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -259,7 +259,7 @@ void pathExtension(
     bool calculate_avg_loss = true;
     float avg_loss = 0.0;
     int i = 0;
-    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size < tour.size() - 1) {
+    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size > 0 && tour.size() > 1 && step_size < tour.size() - 1) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
@@ -332,7 +332,7 @@ void pathExtensionUntilPrizeFeasible(
     int num_feasible_extensions = 1;
     int i = 0;
 
-    while (prize < quota && num_feasible_extensions > 0 && step_size < tour.size() - 1 && i++ < boost::num_vertices(graph)) {
+    while (prize < quota && num_feasible_extensions > 0 && step_size > 0 && tour.size() > 1 && step_size < tour.size() - 1 && i++ < boost::num_vertices(graph)) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
-- 
2.43.0


From c6ea3ba39d9917e7e3ce2d538c53c06869a321be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 20/39] fix: do not overflow the distance of unreachable
 vertices in the shortest path cost cover

---
 include/pctsp/cost_cover.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..88a4530 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -1,6 +1,7 @@
 #ifndef __PCTSP_COST_COVER__
 #define __PCTSP_COST_COVER__
 
+#include <limits>
 #include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
@@ -152,8 +153,10 @@ SCIP_RETCODE includeShortestPathCostCover(
     );
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
+    // (the distance of a vertex that cannot be reached is the largest int: do not overflow)
+    const int max_distance = std::numeric_limits<int>::max();
     for (int i = 0; i < distances.size(); i++) {
-        distances[i] = distances[i] * 2;
+        distances[i] = distances[i] > max_distance / 2 ? max_distance : distances[i] * 2;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From 11dafc1a639039ed5d7638a4c1a2a6bc889ce70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:59 +0000
Subject: [PATCH 21/39] fix: report the bounds of the summary statistics in the
 units of the caller's costs

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 86a9774..1d316b8 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -100,8 +100,8 @@ SummaryStats getSummaryStatsFromSCIP(SCIP* scip) {
 
     SummaryStats summary = {
         SCIPgetStatus(scip),
-        SCIPgetLowerbound(scip),
-        SCIPgetUpperbound(scip),
+        SCIPgetDualbound(scip),
+        SCIPgetPrimalbound(scip),
         num_cost_cover_disjoint_paths,
         num_cost_cover_shortest_paths,
         nconss_presolve_disjoint_paths,
-- 
2.43.0


From 574adfcbf7dc7ed4239787d8c91048c398edb401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 22/39] fix: do not reset the counters of a node that was
 already added

---
 src/event_handlers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..b04077b 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -90,7 +90,8 @@ SCIP_DECL_EVENTDELETE(NodeEventhdlr::scip_delete) {
 SCIP_DECL_EVENTEXEC(NodeEventhdlr::scip_exec) {
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     auto node_id = SCIPnodeGetNumber(node);
-    if (node_id >= node_stats_.size()) {
+    // only add a node once, otherwise its counters are lost; nodes may be visited in any order
+    if (node_id > node_stats_.size() || node_stats_[node_id - 1].node_id != node_id) {
         addCurrentNode(scip);
     }
     return SCIP_OKAY;
-- 
2.43.0


From a1fd136713d33e0db0ae2a7488477dd0f5d8b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:39 +0000
Subject: [PATCH 23/39] fix: record bounds in the units of the caller's costs

---
 src/event_handlers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b04077b..15947f4 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -13,7 +13,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
    unsigned int parent_id = 1;
    if (node_id > 1) parent_id = SCIPnodeGetNumber(SCIPnodeGetParent(node));
    NodeStats stats = {
-      SCIPnodeGetLowerbound(node),
+      SCIPretransformObj(scip, SCIPnodeGetLowerbound(node)),
       node_id,
       0,
       0,
@@ -21,7 +21,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
       0,
       0,
       parent_id,
-      SCIPgetUpperbound(scip)
+      SCIPgetPrimalbound(scip)
    };
    return stats;
 }
@@ -151,8 +151,8 @@ SCIP_DECL_EVENTEXEC(BoundsEventHandler::scip_exec) {
     TimePointUTC start;
     start = getLastTimestamp();
     TimePointUTC end = time_point_cast<SubSeconds>(system_clock::now());
-    double lower_bound = SCIPgetLowerbound(scip);
-    double upper_bound = SCIPgetUpperbound(scip);
+    double lower_bound = SCIPgetDualbound(scip);
+    double upper_bound = SCIPgetPrimalbound(scip);
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     unsigned int node_id = SCIPnodeGetNumber(node);
     Bounds bounds = {start, end, lower_bound, upper_bound, node_id};
-- 
2.43.0


From 25918610abda812007d813cb6947ebf65ee504dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:23 +0000
Subject: [PATCH 24/39] fix: write timestamps in UTC and with leading zeros of
 the milliseconds

---
 src/event_handlers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index 15947f4..1c25277 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -106,8 +106,10 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    std::string ms_string = std::to_string(ms.count());
+    ms_string.insert(0, 3 - ms_string.size(), '0');     // milliseconds always have three digits
+    std::string all = std::string(mbstr) + "." + ms_string + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From abe123d901165a7649b0c1b6ac335a1c32ec1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 25/39] fix: give vertices added to a renaming names that are
 not yet taken

---
 include/pctsp/renaming.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index c868a0d..bd4c867 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -31,7 +31,7 @@ void renameVertices(
     boost::bimap<NewVertex, OldVertex>& vertex_bimap,
     OldVertexContainer& vertices
 ) {
-    NewVertex new_vertex = 0;
+    NewVertex new_vertex = vertex_bimap.size();  // names already given stay in use
     for (auto it = vertices.begin(); it != vertices.end(); it++) {
         OldVertex old_vertex = *it;
         findOrInsertVertex(vertex_bimap, old_vertex, new_vertex);
@@ -44,7 +44,7 @@ std::vector<std::pair<NewVertex, NewVertex>> renameEdges(
     OldEdgeContainer& old_edges
 ) {
     std::vector<std::pair<NewVertex, NewVertex>> new_edges(old_edges.size());
-    NewVertex new_vertex = 0;
+    NewVertex new_vertex = vertex_bimap.size();  // names already given stay in use
     int i = 0;
     for (auto it = old_edges.begin(); it != old_edges.end(); it++) {
         auto pair = *(it);
-- 
2.43.0


From 43366f6e25f674b3ceca21c20be6305864a4d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 26/39] fix: raise VariableIsNullException for the name of a
 missing variable

---
 include/pctsp/sciputils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/sciputils.hh b/include/pctsp/sciputils.hh
index 02b217d..cacef8c 100644
--- a/include/pctsp/sciputils.hh
+++ b/include/pctsp/sciputils.hh
@@ -15,7 +15,7 @@ std::string joinVariableNames(It& variable_first_it, It& variable_last_it) {
     for (; variable_first_it != variable_last_it; variable_first_it++) {
         SCIP_VAR* var = *variable_first_it;
         if (var == NULL) {
-            VariableIsNullException();
+            throw VariableIsNullException();
         }
         std::string var_name = SCIPvarGetName(var);
         joined_names += var_name + separator;
-- 
2.43.0


From 0e434c1abe5deafb34ba1122f630bc4f09efa4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 27/39] fix: take the quota of a londonaq instance from its
 total prize

---
 pctsp/compare/product_of_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..09c9a7d 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -108,7 +108,7 @@ def product_of_londonaq_data_config_from_alpha(
                 cost_function=problems[name].edge_weight_type,
                 dataset=DatasetName.londonaq,
                 graph_name=name,
-                quota=problems[name].get_quota(alpha),
+                quota=alpha * problems[name].get_total_prize() // 100,
                 root=problems[name].get_root_vertex(),
                 alpha=alpha,
             )
-- 
2.43.0


From a0d619776db0e24aef94338c37c1c18865dd2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 28/39] fix: summarise experiments that have no results or no
 statistics yet

---
 pctsp/apps/csv_app.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..cecf67b 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -31,7 +31,9 @@ def experiment_summary_df(
 ) -> pd.DataFrame:
     """Get a dataframe summarizing the results of an experiment"""
     vial_df = dataframe_from_vial_list(experiment.vials)
-    result_df = pd.DataFrame(map(lambda x: x.dict(), results))
+    result_df = pd.DataFrame(
+        map(lambda x: x.dict(), results), columns=list(Result.model_fields)
+    )
     joined_df = vial_df.merge(result_df, left_on="uuid", right_on="vial_uuid")
     joined_df["duration"] = (joined_df["end_time"] - joined_df["start_time"]).apply(
         lambda x: x.total_seconds()
@@ -60,7 +62,9 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_list.append(stats_dict)
         except (FileNotFoundError, yaml.YAMLError):
             pass
-    return pd.DataFrame.from_records(stats_list)
+    return pd.DataFrame.from_records(
+        stats_list, columns=[*SummaryStats.model_fields, "vial_uuid"]
+    )
 
 
 @csv_app.command(name="heuristics")
-- 
2.43.0


From 75530475f124c6f7110a37c05eaeaace8c503cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 29/39] fix: name branching strategies in their own column only

---
 pctsp/apps/tables_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index b7fa05c..9d92e5d 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -185,7 +185,7 @@ def pretty_dataframe(df: pd.DataFrame, long: bool = False) -> pd.DataFrame:
         4: "Default",
     }
     if "branching_strategy" in df:
-        df = df.replace(branching_replacements)
+        df = df.replace({"branching_strategy": branching_replacements})
     if "branching_strategy" in df.index.names:
         df = df.rename(index=branching_replacements, level=col)
 
-- 
2.43.0


From ec484a56d4d4dd2e100f1b8483e20d32f7b64e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 30/39] fix: do not log messages twice after asking for a
 logger twice

---
 pctsp/utils/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pctsp/utils/utils.py b/pctsp/utils/utils.py
index b15071f..7a304fa 100644
--- a/pctsp/utils/utils.py
+++ b/pctsp/utils/utils.py
@@ -30,7 +30,10 @@ def get_pctsp_logger(name: str, level: int = logging.INFO) -> logging.Logger:
     # add formatter to ch
     console_handler.setFormatter(formatter)
 
-    # add ch to logger
+    # add ch to logger, replacing the handler of an earlier call for the same name
+    for handler in list(logger.handlers):
+        if isinstance(handler.formatter, colorlog.ColoredFormatter):
+            logger.removeHandler(handler)
     logger.addHandler(console_handler)
 
     return logger
-- 
2.43.0


From a0b3221022476695a7ec94edcf9ed4979136c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 31/39] fix: leave the root out of the maps of disjoint paths
 from the root

---
 pctsp/preprocessing/preprocessing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pctsp/preprocessing/preprocessing.py b/pctsp/preprocessing/preprocessing.py
index 512bd43..b24e9c3 100644
--- a/pctsp/preprocessing/preprocessing.py
+++ b/pctsp/preprocessing/preprocessing.py
@@ -46,12 +46,16 @@ def undirected_vertex_disjoint_paths_map(
         biggest_vertex_id: The id of the biggest vertex in the undirected input graph
 
     Returns:
-        Mapping from vertices to disjoint paths
+        Mapping from vertices to disjoint paths. The root is not in the mapping.
     """
+    root_vertex = get_original_from_split_vertex(biggest_vertex_id, tree.source)
     vertex_disjoint_paths_map = {}
     for vertex in tree:
         if is_vertex_split_tail(biggest_vertex_id, vertex) and tree.labeled[vertex]:
             original_vertex = get_original_from_split_vertex(biggest_vertex_id, vertex)
+            # the tail of the root is reached by two walks that return to the root
+            if original_vertex == root_vertex:
+                continue
             split_vertex_disjoint_path = extract_suurballe_edge_disjoint_paths(
                 tree, tree.source, vertex
             )
@@ -75,13 +79,17 @@ def vertex_disjoint_cost_map(
         biggest_vertex_id: The id of the biggest vertex in the undirected input graph
 
     Returns:
-        Mapping from vertices to cost of disjoint paths
+        Mapping from vertices to cost of disjoint paths. The root is not in the mapping.
     """
+    root_vertex = get_original_from_split_vertex(biggest_vertex_id, tree.source)
     cost_map = {}
     for vertex in tree:
         # get the cost and store in map
         if is_vertex_split_tail(biggest_vertex_id, vertex) and tree.labeled[vertex]:
             original_vertex = get_original_from_split_vertex(biggest_vertex_id, vertex)
+            # the tail of the root is reached by two walks that return to the root
+            if original_vertex == root_vertex:
+                continue
             cost_map[original_vertex] = edge_disjoint_path_cost(tree, vertex)
     return cost_map
 
-- 
2.43.0


From 6d97a0392b15531c999357f18e05863553ff8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 32/39] fix: keep the cost of self loops when costs are drawn
 at random

---
 pctsp/lab/lab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index baf042e..da1af21 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -156,6 +156,8 @@ class Lab:
             # set a different cost function
             if data_config.cost_function == EdgeWeightType.UNIFORM_RANDOM:
                 new_cost = uniform_random_cost(list(graph.edges()))
+                # self loops keep their cost: a tour does not pay for visiting a vertex
+                new_cost = {(u, v): cost for (u, v), cost in new_cost.items() if u != v}
                 nx.set_edge_attributes(graph, new_cost, name="cost")
             elif data_config.cost_function == EdgeWeightType.MST:
                 new_cost = mst_cost(graph, cost_attr="cost")
-- 
2.43.0


From cb4e44ba10ca04c84d13e136894f7330206395e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 33/39] fix: do not add a second self loop to a vertex

---
 src/preprocessing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessing.cpp b/src/preprocessing.cpp
index 6936ec4..9041ee9 100644
--- a/src/preprocessing.cpp
+++ b/src/preprocessing.cpp
@@ -2,7 +2,9 @@
 
 void addSelfLoopsToGraph(PCTSPgraph& graph) {
     for (auto vertex : boost::make_iterator_range(vertices(graph))) {
-        boost::add_edge(vertex, vertex, graph);
+        if (boost::edge(vertex, vertex, graph).second == false) {
+            boost::add_edge(vertex, vertex, graph);
+        }
     }
 }
 
-- 
2.43.0


From 8083e10fd3592e258927223074e47143023c1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 34/39] fix: pass the parameters of path extension in the
 tsplib command

---
 pctsp/apps/main_app.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..862f7ae 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -552,9 +552,13 @@ def tsplib(
         model_params.sec_max_tailing_off_iterations = sec_max_tailing_off_iterations
         model_params.sec_sepafreq = 1
         model_params.time_limit = time_limit
-    if AlgorithmName.bfs_extension_collapse in (
-        model_params.algorithm,
-        model_params.heuristic,
+    path_extension_algorithms = (
+        AlgorithmName.bfs_path_extension_collapse,
+        AlgorithmName.suurballes_path_extension_collapse,
+    )
+    if (
+        model_params.algorithm in path_extension_algorithms
+        or model_params.heuristic in path_extension_algorithms
     ):
         model_params.collapse_paths = collapse_paths
         model_params.path_depth_limit = path_depth_limit
-- 
2.43.0


From b2531fd2f7a580efe09e53b34aceed414ba4f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 35/39] fix: do not draw lines between consecutive edges of a
 plot

---
 pctsp/plot/plot_edges.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/pctsp/plot/plot_edges.py b/pctsp/plot/plot_edges.py
index 829d793..8d41c1e 100644
--- a/pctsp/plot/plot_edges.py
+++ b/pctsp/plot/plot_edges.py
@@ -1,6 +1,5 @@
 """Draw edges with plotly"""
 
-import numpy as np
 import pandas as pd
 import plotly.graph_objects as go
 
@@ -18,23 +17,13 @@ def edge_scatter(
     # stack the source and target into a numpy array
     edge_np = edge_df[[source, target]].to_numpy()
 
-    # apply x/y coordinate mapper and flatten arrays
-    edge_x = np.array(
-        list(
-            map(
-                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name]),
-                edge_np,
-            )
-        )
-    ).flatten()
-    edge_y = np.array(
-        list(
-            map(
-                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name]),
-                edge_np,
-            )
-        )
-    ).flatten()
+    # apply x/y coordinate mapper, the gap (None) after each edge stops plotly from
+    # drawing a line from the end of the edge to the start of the next edge
+    edge_x: list = []
+    edge_y: list = []
+    for u, v in edge_np:
+        edge_x.extend([vertex_df.at[u, x_name], vertex_df.at[v, x_name], None])
+        edge_y.extend([vertex_df.at[u, y_name], vertex_df.at[v, y_name], None])
 
     # set the cosmetric params
     edge_cosmetics = {
-- 
2.43.0


From 19dbb94f0f9f48e30c71ee63353df42245991d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 36/39] fix: set the titles of plots as plotly expects them

---
 pctsp/plot/plot_graph.py    | 3 +--
 pctsp/plot/plot_vertices.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pctsp/plot/plot_graph.py b/pctsp/plot/plot_graph.py
index af3da9e..823340a 100644
--- a/pctsp/plot/plot_graph.py
+++ b/pctsp/plot/plot_graph.py
@@ -19,8 +19,7 @@ def graph_trace(edge_df: pd.DataFrame, vertex_df: pd.DataFrame) -> List[go.Scatt
 def graph_layout() -> go.Layout:
     """Plotly layout of graph"""
     return go.Layout(
-        title="<br>Network graph made with Python",
-        titlefont_size=16,
+        title={"text": "<br>Network graph made with Python", "font": {"size": 16}},
         showlegend=False,
         hovermode="closest",
         margin={"b": 20, "l": 5, "r": 5, "t": 40},
diff --git a/pctsp/plot/plot_vertices.py b/pctsp/plot/plot_vertices.py
index e9d32ac..f8c121c 100644
--- a/pctsp/plot/plot_vertices.py
+++ b/pctsp/plot/plot_vertices.py
@@ -24,7 +24,7 @@ def vertex_scatter(
             size=10,
             color=vertex_df[color],
             colorbar=go.scatter.marker.ColorBar(
-                thickness=15, title="Prize", xanchor="left", titleside="right"
+                thickness=15, title={"text": "Prize", "side": "right"}, xanchor="left"
             ),
             line_width=2,
         ),
-- 
2.43.0


From 2fedc8b6623733fa435e5be31aade95dac0d3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 37/39] fix: draw the edges of a tour with labelled edge frames

---
 pctsp/plot/plot_tour.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pctsp/plot/plot_tour.py b/pctsp/plot/plot_tour.py
index a266e5f..ea632e6 100644
--- a/pctsp/plot/plot_tour.py
+++ b/pctsp/plot/plot_tour.py
@@ -31,9 +31,10 @@ def tour_edges_trace(
     tour_edge_set = set(edge_list_from_walk(tour))
 
     # filter edges
-    tour_edge_mask = edge_df[[source, target]].apply(
-        lambda x: (x[0], x[1]) in tour_edge_set or (x[1], x[0]) in tour_edge_set, axis=1
-    )
+    tour_edge_mask = [
+        (u, v) in tour_edge_set or (v, u) in tour_edge_set
+        for u, v in zip(edge_df[source], edge_df[target])
+    ]
     tour_edge_df = edge_df.loc[tour_edge_mask]
 
     # filter vertices
-- 
2.43.0


From cfce4a78eb151d2d8dd510a8d886e475e8f6eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 38/39] fix: take a cut of two up to rounding for a cut of two

---
 src/subtour_elimination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 48f3cc2..0fada42 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -395,7 +395,8 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
             }
             auto flow = boost::push_relabel_max_flow(support_graph, support_root, target, capacity_property, residual_capacity, reverse_edges, vindex);
 
-            if (flow < 2 * FLOW_FLOAT_MULTIPLIER) {
+            // the capacity of every edge is rounded down by less than one unit
+            if (flow + (CapacityType) support_edges.size() < 2 * FLOW_FLOAT_MULTIPLIER) {
                 // traverse the residual graph from the root
                 // all vertices that are reachable on edges that have some flow are on one side of the cut
                 // all edges that are not reachable by the flow are on the other side of the cut
-- 
2.43.0


From 2de88fad22602518f479ca7d1ef07c3eb8b9c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:33 +0000
Subject: [PATCH 39/39] fix: write the bounds in full precision

---
 src/stats.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stats.cpp b/src/stats.cpp
index 449ca92..0400886 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -1,5 +1,6 @@
 #include "pctsp/exception.hh"
 #include "pctsp/stats.hh"
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 void writeSummaryStatsToYaml(SummaryStats& summary, std::filesystem::path& filename) {
@@ -61,6 +62,7 @@ unsigned int numMaxflowMincutSECs(std::vector<NodeStats>& node_stats) {
 void writeNodeStatsToCSV(std::vector<NodeStats>& node_stats, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path.string());
+        csv_file.precision(std::numeric_limits<double>::max_digits10);
         writeNodeStatsColumnNames(csv_file);
         for (NodeStats& stat : node_stats) {
             writeNodeStatsRow(stat, csv_file);
@@ -89,6 +91,7 @@ void writeNodeStatsColumnNames(std::ofstream& csv_file) {
 void writeBoundsToCSV(std::vector<Bounds>& bounds_vector, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path);
+        csv_file.precision(std::numeric_limits<double>::max_digits10);
         writeBoundsColumnsNames(csv_file);
         for (Bounds& bounds : bounds_vector) {
             writeBoundsRow(bounds, csv_file);
-- 
2.43.0

