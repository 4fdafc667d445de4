From eab8336e9cfae309e6df7dadb7181fa68b8277b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 01/17] fix: reject out-of-range detection events before
 touching the decoder state

An out-of-range index was only noticed after earlier detection events had been
created (or nodes marked), leaving the decoder unusable for later shots.
---
 .../sparse_blossom/driver/mwpm_decoding.cc      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..2600bf6 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -83,16 +83,19 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
     }
+    // Reject invalid detection events before changing any state, so that the Mwpm object can still be used afterwards
+    for (auto& detection : detection_events) {
+        if (detection >= mwpm.flooder.graph.nodes.size())
+            throw std::invalid_argument(
+                "The detection event with index " + std::to_string(detection) +
+                " does not correspond to a node in the graph, which only has " +
+                std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+    }
     mwpm.flooder.queue.cur_time = 0;
 
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "The detection event with index " + std::to_string(detection) +
-                    " does not correspond to a node in the graph, which only has " +
-                    std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +109,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "Detection event index `" + std::to_string(detection) +
-                    "` is larger than any detector node index in the graph.");
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 916a906efd61fdee4821131175a681758fa9e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 02/17] fix: count observables introduced by replacing an
 existing edge

With the replace and smallest-weight merge strategies the new edge's observable
indices were stored without updating the number of observables, so that they were
dropped from predictions or written past the end of the output.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 37b9cb8ab5a3ba8884c8796612ee04dfbfb08974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 03/17] fix: do not truncate the wrapped radius to 32 bits

Radii are cumulative times and exceed 2^31 when regions grow across more than
about 64 edges of maximal (discretized) weight.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 759e2efe47491eb2ddbdf5713ba6f5bd8410ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 04/17] fix: shift in obs_int in bit_vector_to_obs_mask

The shift was done in int, losing or corrupting observables 31 and above.
---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 2600bf6..532c184 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 196beec7640722b0bdb3a9e947b243f9447813b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:13 +0000
Subject: [PATCH 05/17] fix: path queries without a path or outside the graph
 raise instead of crashing

get_nodes_on_shortest_path_from_source read the node before checking its index and
dereferenced a null collision edge when the nodes are not connected or coincide.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc    | 8 ++++++--
 src/pymatching/sparse_blossom/search/search_flooder.h | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..6baeac8 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -371,12 +371,16 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
+    if (!src_is_boundary && src == dst) {
+        out_nodes.push_back(src);
+        return;
+    }
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..9dc33be 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -15,6 +15,8 @@
 #ifndef PYMATCHING2_SEARCH_FLOODER_H
 #define PYMATCHING2_SEARCH_FLOODER_H
 
+#include <stdexcept>
+
 #include "pymatching/sparse_blossom/search/search_graph.h"
 #include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
 
@@ -105,6 +107,10 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path exists between the source and the destination.");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From abc6065ecbf906cf269f3959454a223ec7a02fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:13 +0000
Subject: [PATCH 06/17] fix: allow noise simulation once every edge has an
 error probability again

Replacing the only edge without an error probability left the graph marked as
having edges without error probabilities.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 6baeac8..fa5171b 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -14,6 +14,8 @@
 
 #include "pymatching/sparse_blossom/driver/user_graph.h"
 
+#include <algorithm>
+
 #include "pymatching/rand/rand_gen.h"
 #include "pymatching/sparse_blossom/driver/implied_weights.h"
 
@@ -96,6 +98,7 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         } else {
             throw std::invalid_argument("Merge strategy not recognised.");
         }
+        bool had_valid_probability = is_valid_probability(neighbor.edge_it->error_probability);
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
@@ -108,8 +111,14 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         }
 
         _mwpm_needs_updating = true;
-        if (new_error_probability < 0 || new_error_probability > 1)
+        if (new_error_probability < 0 || new_error_probability > 1) {
             _all_edges_have_error_probabilities = false;
+        } else if (!had_valid_probability) {
+            // This may have been the last edge without an error probability
+            _all_edges_have_error_probabilities = std::all_of(edges.begin(), edges.end(), [](const UserEdge& e) {
+                return is_valid_probability(e.error_probability);
+            });
+        }
     }
 }
 
-- 
2.43.0


From 027f7587dac4d624bc59f8a77b01b1d64abf9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:38 +0000
Subject: [PATCH 07/17] fix: count_mistakes refuses to run without observable
 data

--obs_in defaults to stdin, not nullptr, so the check never fired and every shot was
compared with an all-zero record.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..a59cd09 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 93fa6d30e3a6925572154edd84a1860ca38a5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 08/17] fix: accept explicitly stored zeros in a sparse
 faults_matrix

Check matrices have their stored zeros removed before loading, faults
matrices did not: any sparse format that stores zeros (such as the blocks
of a bsr_matrix) was refused with a ValueError.
---
 src/pymatching/matching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymatching/matching.py b/src/pymatching/matching.py
index 3ac8fed..e62f688 100644
--- a/src/pymatching/matching.py
+++ b/src/pymatching/matching.py
@@ -1176,6 +1176,7 @@ class Matching:
                 faults_matrix = csc_matrix(faults_matrix)
             except TypeError:
                 raise TypeError("`faults` must be convertible to `scipy.sparse.csc_matrix`")
+            faults_matrix.eliminate_zeros()
 
         num_edges = check_matrix.shape[1]
 
-- 
2.43.0


From 758f124fed3faf9d8da454e955e683d5d0b76e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:37 +0000
Subject: [PATCH 09/17] fix: keep nodes without edges when exporting to
 networkx

Matching.to_networkx only created the nodes that edges mention, so isolated
detectors and isolated boundary nodes vanished and loading the exported graph
again gave a decoder with fewer detectors. to_rustworkx already exports them.
---
 src/pymatching/matching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymatching/matching.py b/src/pymatching/matching.py
index e62f688..80890ac 100644
--- a/src/pymatching/matching.py
+++ b/src/pymatching/matching.py
@@ -1672,6 +1672,7 @@ class Matching:
         """
         graph = nx.Graph()
         num_nodes = self.num_nodes
+        graph.add_nodes_from(range(num_nodes))
         has_virtual_boundary = False
         for u, v, data in self.edges():
             if v is None:
-- 
2.43.0


From e4385be4a26420cc3128c01648bffac15751fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 10/17] fix: list and validate the events of the last bucket of
 the event queue

---
 src/pymatching/sparse_blossom/tracker/radix_heap_queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
index 70877eb..0d21087 100644
--- a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
+++ b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
@@ -107,7 +107,7 @@ struct radix_heap_queue {
 
     /// Checks if all events are in the correct bucket.
     bool satisfies_invariants() const {
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             for (size_t k = 0; k < bit_buckets[b].size(); k++) {
                 if (cur_bit_bucket_for(bit_buckets[b][k].time) != b) {
                     return false;
@@ -167,7 +167,7 @@ struct radix_heap_queue {
     /// during normal operation.
     std::vector<FloodCheckEvent> to_vector() const {
         std::vector<FloodCheckEvent> result;
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             result.insert(result.begin(), bit_buckets[b].begin(), bit_buckets[b].end());
         }
         std::sort(result.begin(), result.end(), [](const FloodCheckEvent &e1, const FloodCheckEvent &e2) {
@@ -189,7 +189,7 @@ template <bool use_validation>
 std::ostream &operator<<(std::ostream &out, radix_heap_queue<use_validation> q) {
     out << "bit_bucket_queue {\n";
     out << "    cur_time=" << q.cur_time << "\n";
-    for (size_t b = 0; b < q.bit_buckets.size() - 1; b++) {
+    for (size_t b = 0; b < q.bit_buckets.size(); b++) {
         auto copy = q.bit_buckets[b];
         if (!copy.empty()) {
             out << "    bucket[" << b << "] {\n";
-- 
2.43.0


From 003cf50cd0413c8eacecdec7eb8d3c5622b50cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 11/17] fix: rounding no longer flips the sign of a merged
 weight

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index fa5171b..9419c18 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -35,7 +35,9 @@ double pm::to_weight_for_correlations(double probability) {
 double pm::merge_weights(double a, double b) {
     auto sgn = std::copysign(1, a) * std::copysign(1, b);
     auto signed_min = sgn * std::min(std::abs(a), std::abs(b));
-    return signed_min + std::log(1 + std::exp(-std::abs(a + b))) - std::log(1 + std::exp(-std::abs(a - b)));
+    auto merged = signed_min + std::log(1 + std::exp(-std::abs(a + b))) - std::log(1 + std::exp(-std::abs(a - b)));
+    // The sign of the merged weight is known exactly: do not let rounding flip it when the weight is close to zero.
+    return merged * sgn < 0 ? 0.0 : merged;
 }
 
 pm::UserNode::UserNode() : is_boundary(false) {
-- 
2.43.0


From 2a660686456d2712339f89ad53e5a8df2cadca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 12/17] fix: release buffers and files when decoding or loading
 throws in the bindings

---
 .../driver/user_graph.pybind.cc               | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
index 7b227e5..663205d 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
@@ -14,6 +14,8 @@
 
 #include "pymatching/sparse_blossom/driver/user_graph.pybind.h"
 
+#include <memory>
+
 #include "pybind11/pybind11.h"
 #include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
 #include "pymatching/sparse_blossom/driver/user_graph.h"
@@ -69,6 +71,17 @@ py::class_<pm::UserGraph> pm_pybind::pybind_user_graph(py::module &m) {
     return g;
 }
 
+namespace {
+
+void close_file(FILE *file) {
+    fclose(file);
+}
+
+/// Closes the file when it goes out of scope, also if parsing it throws
+using FileHandle = std::unique_ptr<FILE, void (*)(FILE *)>;
+
+}  // namespace
+
 pm::MERGE_STRATEGY merge_strategy_from_string(const std::string &merge_strategy) {
     static std::unordered_map<std::string, pm::MERGE_STRATEGY> const table = {
         {"disallow", pm::DISALLOW},
@@ -182,11 +195,14 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
             std::vector<uint64_t> detection_events_vec(
                 detection_events.data(), detection_events.data() + detection_events.size());
             auto &mwpm = enable_correlations ? self.get_mwpm_with_search_graph() : self.get_mwpm();
-            auto obs_crossed = new std::vector<uint8_t>(self.get_num_observables(), 0);
+            // Owned here until it is handed over to the returned array, since decoding may throw
+            auto obs_crossed_owner = std::make_unique<std::vector<uint8_t>>(self.get_num_observables(), 0);
             pm::total_weight_int weight = 0;
-            pm::decode_detection_events(mwpm, detection_events_vec, obs_crossed->data(), weight, enable_correlations);
+            pm::decode_detection_events(
+                mwpm, detection_events_vec, obs_crossed_owner->data(), weight, enable_correlations);
             double rescaled_weight = (double)weight / mwpm.flooder.graph.normalising_constant;
 
+            auto obs_crossed = obs_crossed_owner.release();
             auto err_capsule = py::capsule(obs_crossed, [](void *x) {
                 delete reinterpret_cast<std::vector<uint8_t> *>(x);
             });
@@ -203,7 +219,8 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
             auto &mwpm = self.get_mwpm_with_search_graph();
             std::vector<uint64_t> detection_events_vec(
                 detection_events.data(), detection_events.data() + detection_events.size());
-            auto edges = new std::vector<int64_t>();
+            // Owned here until it is handed over to the returned array, since decoding may throw
+            auto edges = std::make_unique<std::vector<int64_t>>();
             edges->reserve(detection_events_vec.size() / 2);
             if (enable_correlations) {
                 pm::decode_detection_events_to_edges_with_edge_correlations(mwpm, detection_events_vec, *edges);
@@ -211,7 +228,7 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
                 pm::decode_detection_events_to_edges(mwpm, detection_events_vec, *edges);
             }
             auto num_edges = edges->size() / 2;
-            auto edges_arr = pm_pybind::vec_to_array<int64_t>(edges);
+            auto edges_arr = pm_pybind::vec_to_array<int64_t>(edges.release());
             edges_arr.resize({(py::ssize_t)num_edges, (py::ssize_t)2});
             return edges_arr;
         },
@@ -434,14 +451,14 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
     m.def(
         "detector_error_model_file_to_matching_graph",
         [](const char *dem_path, bool enable_correlations) {
-            FILE *file = fopen(dem_path, "r");
+            FileHandle file(fopen(dem_path, "r"), close_file);
             if (file == nullptr) {
                 std::stringstream msg;
                 msg << "Failed to open '" << dem_path << "'";
                 throw std::invalid_argument(msg.str());
             }
-            auto dem = stim::DetectorErrorModel::from_file(file);
-            fclose(file);
+            auto dem = stim::DetectorErrorModel::from_file(file.get());
+            file.reset();
             return pm::detector_error_model_to_user_graph(dem, enable_correlations, pm::NUM_DISTINCT_WEIGHTS);
         },
         "dem_path"_a,
@@ -449,14 +466,14 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
     m.def(
         "stim_circuit_file_to_matching_graph",
         [](const char *stim_circuit_path, bool enable_correlations) {
-            FILE *file = fopen(stim_circuit_path, "r");
+            FileHandle file(fopen(stim_circuit_path, "r"), close_file);
             if (file == nullptr) {
                 std::stringstream msg;
                 msg << "Failed to open '" << stim_circuit_path << "'";
                 throw std::invalid_argument(msg.str());
             }
-            auto circuit = stim::Circuit::from_file(file);
-            fclose(file);
+            auto circuit = stim::Circuit::from_file(file.get());
+            file.reset();
             auto dem =
                 stim::ErrorAnalyzer::circuit_to_detector_error_model(circuit, true, true, false, 0, false, false);
             return pm::detector_error_model_to_user_graph(dem, enable_correlations, pm::NUM_DISTINCT_WEIGHTS);
-- 
2.43.0


From 728647459e0cc0b9a3f2cf4bd6fec3a1a4b3d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 13/17] fix: count_mistakes closes the file given by --obs_in

---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index a59cd09..85f3761 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -168,6 +168,9 @@ int main_count_mistakes(int argc, const char **argv) {
     if (shots_in != stdin) {
         fclose(shots_in);
     }
+    if (obs_in != stdin) {
+        fclose(obs_in);
+    }
 
     auto end = std::chrono::steady_clock::now();
     auto microseconds = (double)std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
-- 
2.43.0


From 9494034f5006492de5102592b0b7dadd7bb6d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 14/17] fix: correlated decoding after nodes become boundary
 nodes

Implied weights of a detector error model refer to edges of the user graph. After
set_boundary, some of those are boundary edges of the decoding graph or are not part
of it, and building the decoder failed with 'Failed to find neighbor'.
---
 .../sparse_blossom/driver/user_graph.h        | 56 +++++++++++++++++--
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..673dfd7 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -19,6 +19,7 @@
 #include <list>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 #include "pymatching/sparse_blossom/driver/implied_weights.h"
@@ -150,9 +151,9 @@ inline double UserGraph::iter_discretized_edges(
         bool node1_boundary = is_boundary_node(e.node1);
         bool node2_boundary = is_boundary_node(e.node2);
         if (node2_boundary && !node1_boundary) {
-            boundary_edge_func(e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
         } else if (node1_boundary && !node2_boundary) {
-            boundary_edge_func(e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node2, e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
         } else if (!node1_boundary) {
             edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
         }
@@ -168,19 +169,27 @@ inline double UserGraph::to_matching_or_search_graph_helper(
     // Use vectors to store boundary edges initially before adding them to the graph, so
     // that parallel boundary edges with negative edge weights can be handled correctly
     std::vector<bool> has_boundary_edge(nodes.size(), false);
+    std::vector<size_t> boundary_edge_ends(nodes.size());
     std::vector<pm::signed_weight_int> boundary_edge_weights(nodes.size());
     std::vector<std::vector<size_t>> boundary_edge_observables(nodes.size());
     std::vector<std::vector<ImpliedWeightUnconverted>> boundary_edge_implied_weights_unconverted(nodes.size());
 
-    double normalising_constant = iter_discretized_edges(
+    iter_discretized_edges(
         num_distinct_weights,
-        edge_func,
+        [](size_t,
+           size_t,
+           pm::signed_weight_int,
+           const std::vector<size_t>&,
+           const std::vector<ImpliedWeightUnconverted>&) {
+        },
         [&](size_t u,
+            size_t boundary_node,
             pm::signed_weight_int weight,
             const std::vector<size_t>& observables,
             const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
             // For parallel boundary edges, keep the boundary edge with the smaller weight
             if (!has_boundary_edge[u] || boundary_edge_weights[u] > weight) {
+                boundary_edge_ends[u] = boundary_node;
                 boundary_edge_weights[u] = weight;
                 boundary_edge_observables[u] = observables;
                 has_boundary_edge[u] = true;
@@ -188,6 +197,43 @@ inline double UserGraph::to_matching_or_search_graph_helper(
             }
         });
 
+    // Implied weights refer to edges of the user graph. Express them as edges of the graph being built, where
+    // an edge to a boundary node is the boundary edge of its other node, and omit those that refer to edges that
+    // are not included in the graph.
+    auto implied_weights_in_graph = [&](const std::vector<ImpliedWeightUnconverted>& implied_weights) {
+        std::vector<ImpliedWeightUnconverted> result;
+        for (ImpliedWeightUnconverted implied : implied_weights) {
+            if (is_boundary_node(implied.node1))
+                std::swap(implied.node1, implied.node2);
+            if (is_boundary_node(implied.node1) || implied.node1 == implied.node2)
+                continue;
+            if (is_boundary_node(implied.node2)) {
+                if (boundary_edge_ends[implied.node1] != implied.node2)
+                    continue;
+                implied.node2 = SIZE_MAX;
+            }
+            result.push_back(implied);
+        }
+        return result;
+    };
+
+    // Add edges that are not connected to the boundary
+    double normalising_constant = iter_discretized_edges(
+        num_distinct_weights,
+        [&](size_t u,
+            size_t v,
+            pm::signed_weight_int weight,
+            const std::vector<size_t>& observables,
+            const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
+            edge_func(u, v, weight, observables, implied_weights_in_graph(implied_weights_for_other_edges));
+        },
+        [](size_t,
+           size_t,
+           pm::signed_weight_int,
+           const std::vector<size_t>&,
+           const std::vector<ImpliedWeightUnconverted>&) {
+        });
+
     // Now add boundary edges to the graph
     for (size_t i = 0; i < has_boundary_edge.size(); i++) {
         if (has_boundary_edge[i])
@@ -195,7 +241,7 @@ inline double UserGraph::to_matching_or_search_graph_helper(
                 i,
                 boundary_edge_weights[i],
                 boundary_edge_observables[i],
-                boundary_edge_implied_weights_unconverted[i]);
+                implied_weights_in_graph(boundary_edge_implied_weights_unconverted[i]));
     }
     return normalising_constant;
 }
-- 
2.43.0


From b7a56308a92c7caee1a8898811d66c228374dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 15/17] fix: refuse check matrices with elements that are not
 ones also when they become one in uint8 or are stored several times

---
 src/pymatching/matching.py                                | 2 ++
 src/pymatching/sparse_blossom/driver/user_graph.pybind.cc | 3 ++-
 src/pymatching/sparse_blossom/driver/user_graph.pybind.h  | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/matching.py b/src/pymatching/matching.py
index 80890ac..d6f3ca5 100644
--- a/src/pymatching/matching.py
+++ b/src/pymatching/matching.py
@@ -1176,6 +1176,7 @@ class Matching:
                 faults_matrix = csc_matrix(faults_matrix)
             except TypeError:
                 raise TypeError("`faults` must be convertible to `scipy.sparse.csc_matrix`")
+            faults_matrix.sum_duplicates()
             faults_matrix.eliminate_zeros()
 
         num_edges = check_matrix.shape[1]
@@ -1198,6 +1199,7 @@ class Matching:
         elif isinstance(error_probabilities, (int, float)):
             error_probabilities = np.ones(num_edges) * error_probabilities
 
+        check_matrix.sum_duplicates()
         check_matrix.eliminate_zeros()
 
         repetitions = 1 if repetitions is None else repetitions
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
index 663205d..52c405a 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
@@ -32,7 +32,8 @@ pm_pybind::CompressedSparseColumnCheckMatrix::CompressedSparseColumnCheckMatrix(
     // As stated in the scipy documentation for the CSC representation: "The row indices for column i
     // are stored in indices[indptr[i]:indptr[i+1]] and their corresponding values are stored in
     // data[indptr[i]:indptr[i+1]]."
-    data = matrix.attr("data").cast<py::array_t<uint8_t>>();
+    // Not converted to a narrower type, which would hide elements that are not ones (such as 257 or 1.5)
+    data = matrix.attr("data").cast<py::array_t<double>>();
     indices = matrix.attr("indices").cast<py::array_t<int64_t>>();
     indptr = matrix.attr("indptr").cast<py::array_t<int64_t>>();
 
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.h b/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
index 1b9ea90..1936724 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
@@ -26,7 +26,7 @@ namespace pm_pybind {
 
 struct CompressedSparseColumnCheckMatrix {
     explicit CompressedSparseColumnCheckMatrix(const py::object &matrix);
-    py::array_t<uint8_t> data;
+    py::array_t<double> data;
     py::array_t<int64_t> indices;
     py::array_t<int64_t> indptr;
     size_t num_rows;
-- 
2.43.0


From 63cc71339601e498448bd70669c1398c63a0df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 16/17] fix: merging edges of infinite weight (two errors of
 probability one) gave a weight that is not a number

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 9419c18..c999574 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -35,7 +35,10 @@ double pm::to_weight_for_correlations(double probability) {
 double pm::merge_weights(double a, double b) {
     auto sgn = std::copysign(1, a) * std::copysign(1, b);
     auto signed_min = sgn * std::min(std::abs(a), std::abs(b));
-    auto merged = signed_min + std::log(1 + std::exp(-std::abs(a + b))) - std::log(1 + std::exp(-std::abs(a - b)));
+    // Infinite weights (error probabilities of 0 or 1) that cancel would give a sum or difference that is not a number
+    auto sum = a == -b ? 0 : a + b;
+    auto diff = a == b ? 0 : a - b;
+    auto merged = signed_min + std::log(1 + std::exp(-std::abs(sum))) - std::log(1 + std::exp(-std::abs(diff)));
     // The sign of the merged weight is known exactly: do not let rounding flip it when the weight is close to zero.
     return merged * sgn < 0 ? 0.0 : merged;
 }
-- 
2.43.0


From cc307fb1a4c719ff3d59dd27ddaa7ac76b6d7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 17/17] fix: refuse to decode graphs with edge weights that are
 not a number

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index c999574..8c0670e 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -446,6 +446,9 @@ double pm::UserGraph::get_edge_weight_normalising_constant(size_t max_num_distin
     double max_abs_weight = 0;
     bool all_integral_weight = true;
     for (auto& e : edges) {
+        if (std::isnan(e.weight))
+            throw std::invalid_argument("Edge weights that are not a number are not supported.");
+
         if (std::abs(e.weight) > max_abs_weight)
             max_abs_weight = std::abs(e.weight);
 
-- 
2.43.0

