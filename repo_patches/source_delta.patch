From 3e3560ad9c9519e5c69e1413217cb0a3621fb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 01/81] fix: greedy balancer loops forever on a node that no
 feasible block can take

---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..958a9f9 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,9 +201,9 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
             add_to_pq(from, u, u_weight, actual_relative_gain);
-          }
+          } // else: no feasible target block left, trying u again would never terminate
         } else { // gain changed after insertion --> try again with new gain
           add_to_pq(from, u, _graph->node_weight(u), actual_relative_gain);
           IFSTATS(++_stats.num_pq_reinserts);
-- 
2.43.0


From f56c140e3fdafd29130dd87c5d202de261d78931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 02/81] fix: weight buffers of reused subgraph memory are
 missing if an earlier, larger graph was unweighted

---
 kaminpar-shm/partitioning/helper.cc | 44 +++++++++++++----------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 8eb408d..5e24535 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -283,22 +283,20 @@ void extend_partition_lazy_extraction(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
@@ -530,22 +528,20 @@ void complete_partial_extend_partition(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
-- 
2.43.0


From e8a15e7cc4d654af7f4ff93c14efde5605f6c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 03/81] fix: subgraph memory is released although the partition
 still has to be extended

---
 kaminpar-shm/partitioning/deep/deep_multilevel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/partitioning/deep/deep_multilevel.cc b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
index c6364bd..7d4d932 100644
--- a/kaminpar-shm/partitioning/deep/deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
@@ -397,7 +397,9 @@ void DeepMultilevelPartitioner::extend_partition(PartitionedGraph &p_graph, cons
     );
   }
 
-  if (_last_initial_partitioning_level == _coarsener->level()) {
+  // The partition might have to be extended once more on the toplevel
+  if (_last_initial_partitioning_level == _coarsener->level() &&
+      p_graph.k() == _input_ctx.partition.k) {
     SCOPED_TIMER("Deallocation");
     _subgraph_memory.free();
     _extraction_mem_pool_ets.clear();
-- 
2.43.0


From 1991f98aebb217edef7d4f6c6e10c928a182dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 04/81] fix: number of degree buckets of an empty sorted graph
 underflows

---
 kaminpar-shm/datastructures/compressed_graph.cc | 2 +-
 kaminpar-shm/datastructures/csr_graph.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..fe8af2f 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -38,7 +38,7 @@ CompressedGraph::CompressedGraph(
 void CompressedGraph::init_degree_buckets() {
   KASSERT(std::all_of(_buckets.begin(), _buckets.end(), [](const auto n) { return n == 0; }));
 
-  if (sorted()) {
+  if (sorted() && n() > 0) {
     constexpr std::size_t kNumBuckets = kNumberOfDegreeBuckets<NodeID> + 1;
     tbb::enumerable_thread_specific<std::array<NodeID, kNumBuckets>> buckets_ets([&] {
       return std::array<NodeID, kNumBuckets>{};
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..23a5464 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -182,7 +182,7 @@ void CSRGraph::init_degree_buckets() {
 
   constexpr std::size_t kNumBuckets = kNumberOfDegreeBuckets<NodeID> + 1;
 
-  if (_sorted) {
+  if (_sorted && n() > 0) {
     tbb::enumerable_thread_specific<std::array<NodeID, kNumBuckets>> buckets_ets([&] {
       return std::array<NodeID, kNumBuckets>{};
     });
-- 
2.43.0


From 55b6745ac28cbf1ba75c9d126454bbfa33f843c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 05/81] fix: contraction of an empty graph reads before the
 leader mapping

---
 .../coarsening/contraction/cluster_contraction_preprocessing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
index 8e7e612..13d04c4 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
@@ -53,7 +53,7 @@ compute_mapping(const Graph &graph, StaticArray<NodeID> clustering, MemoryContex
 
   fill_leader_mapping(graph, clustering, m_ctx.leader_mapping);
   StaticArray<NodeID> mapping = compute_mapping(graph, std::move(clustering), m_ctx.leader_mapping);
-  const NodeID c_n = m_ctx.leader_mapping[graph.n() - 1];
+  const NodeID c_n = (graph.n() == 0) ? 0 : m_ctx.leader_mapping[graph.n() - 1];
 
   TIMED_SCOPE("Deallocation") {
     m_ctx.leader_mapping.free();
-- 
2.43.0


From 2d1ce6d7009e1a40e59eb00f2cdc4b71781042d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 06/81] fix: CSR copy of a (compressed) graph leaves the sorted
 flag and the maximum node weight uninitialised

---
 kaminpar-shm/datastructures/csr_graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 23a5464..b526092 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -24,6 +24,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       _edges(graph.m()),
       _node_weights(graph.n()),
       _edge_weights(graph.m()),
+      _sorted(graph.sorted()),
       _buckets(kNumberOfDegreeBuckets<NodeID> + 1) {
   graph.reified([&](const auto &graph) {
     _nodes.front() = 0;
@@ -42,6 +43,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       });
     });
 
+    _max_node_weight = graph.max_node_weight();
     _total_node_weight = graph.total_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
-- 
2.43.0


From 5d6d03e22ce0baad813fc16fcbfe5a653541d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 07/81] fix: packed gain cache entries overflow for weighted
 degrees that do not fit next to the block ID

---
 .../refinement/gains/hashing_gain_cache.h     | 15 +++++++++--
 .../refinement/gains/sparse_gain_cache.h      | 27 +++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..b32d777 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -79,9 +79,21 @@ public:
       _weighted_degrees.resize(_n);
     }
 
+    // Entries in the hash tables store the block ID and the gain value in the same integer: nodes
+    // with weighted degrees that are too large for the remaining bits use full tables instead
+    _bits_for_key = math::ceil_log2(_k);
+    const UnsignedEdgeWeight max_value =
+        std::numeric_limits<UnsignedEdgeWeight>::max() >> _bits_for_key;
+
     _offsets.front() = 0;
     _graph->pfor_nodes([&](const NodeID u) {
-      _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
+      UnsignedEdgeWeight weighted_degree = 0;
+      _graph->adjacent_nodes(u, [&](NodeID, const EdgeWeight weight) {
+        weighted_degree += static_cast<UnsignedEdgeWeight>(weight);
+      });
+      _offsets[u + 1] = (weighted_degree > max_value)
+                            ? static_cast<EdgeID>(_k)
+                            : std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
     const std::size_t gain_cache_size = _offsets.back();
@@ -93,7 +105,6 @@ public:
           << " bytes";
     }
 
-    _bits_for_key = math::ceil_log2(_k);
     DBG << "Gain cache summary: have " << _n << " nodes, " << _k << " blocks";
     DBG << "  Reserve " << (sizeof(UnsignedEdgeWeight) * 8 - _bits_for_key) << " of "
         << sizeof(UnsignedEdgeWeight) * 8 << " bits for gain values";
diff --git a/kaminpar-shm/refinement/gains/sparse_gain_cache.h b/kaminpar-shm/refinement/gains/sparse_gain_cache.h
index 5319b5b..8607919 100644
--- a/kaminpar-shm/refinement/gains/sparse_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/sparse_gain_cache.h
@@ -140,7 +140,7 @@ public:
     // Size of the gain cache (dense + sparse part)
     std::size_t gc_size = 0;
 
-    if (_graph->sorted()) {
+    if (_graph->sorted() && gains_fit_into_dense_part()) {
       DBG << "Graph was rearranged by degree buckets: using the mixed dense-sparse strategy";
 
       // Compute the degree that we use to determine the threshold degree bucket: nodes in buckets
@@ -169,7 +169,8 @@ public:
           << ", node threshold: " << _node_threshold << ", bucket threshold: " << _bucket_threshold;
       DBG << "Cache offsets: " << _cache_offsets;
     } else {
-      // For graphs that do not have degree buckets, assign all nodes to the sparse part
+      // For graphs that do not have degree buckets or with edge weights that are too large to be
+      // packed together with a block ID, assign all nodes to the sparse part
       gc_size = 1ul * _n * _k;
 
       DBG << "Graph was *not* rearranged by degree buckets: using the sparse strategy only (i.e., "
@@ -313,6 +314,28 @@ public:
   }
 
 private:
+  // Entries in the dense part (i.e., hash tables) store the block ID and the gain value in the same
+  // integer: returns whether the remaining bits suffice for the weighted degrees of all nodes.
+  [[nodiscard]] bool gains_fit_into_dense_part() const {
+    const UnsignedEdgeWeight max_value =
+        std::numeric_limits<UnsignedEdgeWeight>::max() >> _bits_for_key;
+    if (static_cast<UnsignedEdgeWeight>(_graph->total_edge_weight()) <= max_value) {
+      return true;
+    }
+
+    std::uint8_t fits = 1;
+    _graph->pfor_nodes([&](const NodeID u) {
+      UnsignedEdgeWeight weighted_degree = 0;
+      _graph->adjacent_nodes(u, [&](NodeID, const EdgeWeight weight) {
+        weighted_degree += static_cast<UnsignedEdgeWeight>(weight);
+      });
+      if (weighted_degree > max_value) {
+        __atomic_store_n(&fits, 0, __ATOMIC_RELAXED);
+      }
+    });
+    return fits;
+  }
+
   //
   // Degree buckets
   //
-- 
2.43.0


From 895ae15ec5f66b1f40ee674f51d455893204d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 08/81] fix: StreamVByte encoder omits the padding bytes of 64
 bit values

---
 kaminpar-common/graph_compression/streamvbyte.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/graph_compression/streamvbyte.h b/kaminpar-common/graph_compression/streamvbyte.h
index feea51f..d060a43 100644
--- a/kaminpar-common/graph_compression/streamvbyte.h
+++ b/kaminpar-common/graph_compression/streamvbyte.h
@@ -179,6 +179,8 @@ private:
 
     for (std::size_t i = 0; i < num_values; ++i) {
       Int value = _buffer[i];
+      [[maybe_unused]] std::size_t num_padding_bytes =
+          required_byte_width(value) - math::byte_width(value);
 
       do {
         *_data_ptr++ = static_cast<std::uint8_t>(value);
@@ -186,7 +188,6 @@ private:
       } while (value > 0);
 
       if constexpr (kIntByteWidth == 8) {
-        std::size_t num_padding_bytes = required_byte_width(value) - math::byte_width(value);
         while (num_padding_bytes > 0) {
           *_data_ptr++ = static_cast<std::uint8_t>(0);
           num_padding_bytes -= 1;
-- 
2.43.0


From 0f7016810cd63f5b7a8d12deb2b086495fa9ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 09/81] fix: compressed graphs report a maximum degree of zero

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..d9e89ce 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -196,6 +196,8 @@ public:
       return offset;
     }
 
+    _max_degree = std::max(_max_degree, degree);
+
     if constexpr (kIsWeightedNeighbor) {
       std::sort(neighborhood.begin(), neighborhood.end(), [](const auto &a, const auto &b) {
         return a.first < b.first;
-- 
2.43.0


From ea2595f60e0f46633da8388e9b1b3845e0d932c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 10/81] fix: total edge weight of StreamVByte-compressed graphs
 misses most edges

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index d9e89ce..9d6fcf5 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -553,6 +553,7 @@ private:
               const EdgeWeight weight = get_edge_weight(neighborhood, i);
               _cur_compressed_edges += encoder.add(adjacent_node);
               _cur_compressed_edges += encoder.add(weight);
+              _total_edge_weight += weight;
 
               i += 1;
             }
-- 
2.43.0


From 563456309e120ce11dd4aff1ce17ec239628a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 11/81] fix: compare all elements in StaticArray::operator==

---
 kaminpar-common/datastructures/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..8df1240 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -193,7 +193,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::memcmp(_data, other._data, size() * sizeof(T)) == 0;
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From 012839d9b2d6e8abb590837fae8e8e662d02f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 12/81] fix: keep all timestamp bits when comparing markers

---
 kaminpar-common/datastructures/marker.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kaminpar-common/datastructures/marker.h b/kaminpar-common/datastructures/marker.h
index e32e160..52ee0b7 100644
--- a/kaminpar-common/datastructures/marker.h
+++ b/kaminpar-common/datastructures/marker.h
@@ -23,6 +23,10 @@ template <
     typename Value = std::size_t,
     template <typename...> typename Container = std::vector>
 class Marker {
+  // Computed in the type of the timestamps: a narrower mask would cut off their upper bits
+  static constexpr Value kMarkerMask =
+      (static_cast<Value>(1) << kNumConcurrentMarkers) - static_cast<Value>(1);
+
 public:
   explicit Marker() : _marker_id(0), _first_unmarked_element{0} {
     RECORD_DATA_STRUCT(0, _struct);
@@ -46,9 +50,9 @@ public:
     KASSERT(marker < kNumConcurrentMarkers);
     KASSERT(element < _data.size());
 
-    _data[element] = ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id)
-                         ? _data[element] | (1u << marker)
-                         : _marker_id | (1u << marker);
+    _data[element] = ((_data[element] & ~kMarkerMask) == _marker_id)
+                         ? _data[element] | (static_cast<Value>(1) << marker)
+                         : _marker_id | (static_cast<Value>(1) << marker);
 
     if constexpr (track_first_unmarked_element) {
       while (_first_unmarked_element[marker] < _data.size() &&
@@ -65,8 +69,8 @@ public:
 
   [[nodiscard]] bool get(const std::size_t element, const std::size_t marker = 0) const {
     KASSERT(marker < kNumConcurrentMarkers);
-    return ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
-           ((_data[element] & (1u << marker)) != 0);
+    return ((_data[element] & ~kMarkerMask) == _marker_id) &&
+           ((_data[element] & (static_cast<Value>(1) << marker)) != 0);
   }
 
   [[nodiscard]] inline std::size_t size() const {
@@ -80,11 +84,11 @@ public:
   // Increase timestamp s.t. the least significant
   // num_concurrent_markers bits are zeroed
   void reset() {
-    _marker_id |= (1u << kNumConcurrentMarkers) - 1u;
+    _marker_id |= kMarkerMask;
     _marker_id += 1u;
     _first_unmarked_element.fill(0);
 
-    if ((_marker_id | ((1u << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
+    if ((_marker_id | kMarkerMask) == std::numeric_limits<Value>::max()) {
       _marker_id = 0;
 
       if constexpr (std::is_same_v<Container<Value>, std::vector<Value>>) {
-- 
2.43.0


From 6a78d8b219e179db8a98c2a1d3a82aa7ebce47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 13/81] fix: compute powers of two in the width of their type

---
 kaminpar-common/degree_buckets.h |  2 +-
 kaminpar-common/math.h           | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/degree_buckets.h b/kaminpar-common/degree_buckets.h
index 095fb60..881b6bd 100644
--- a/kaminpar-common/degree_buckets.h
+++ b/kaminpar-common/degree_buckets.h
@@ -17,7 +17,7 @@ template <typename NodeID>
 static constexpr int kNumberOfDegreeBuckets = std::numeric_limits<NodeID>::digits + 1;
 
 template <typename NodeID> inline NodeID lowest_degree_in_bucket(const int bucket) {
-  return (1u << bucket) >> 1u;
+  return (bucket == 0) ? 0 : static_cast<NodeID>(1) << (bucket - 1);
 }
 
 template <typename NodeID> inline int degree_bucket(const NodeID degree) {
diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 180b47a..112acbe 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -96,7 +96,7 @@ template <typename T> T floor_log2(const T arg) {
 }
 
 template <typename T> T floor2(const T arg) {
-  return 1 << floor_log2(arg);
+  return static_cast<T>(1) << floor_log2(arg);
 }
 
 //! With `UInt = uint32_t`, same as
@@ -106,7 +106,7 @@ template <typename T> T ceil_log2(const T arg) {
 }
 
 template <typename T> T ceil2(const T arg) {
-  return 1 << ceil_log2(arg);
+  return static_cast<T>(1) << ceil_log2(arg);
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
@@ -243,6 +243,10 @@ auto find_min_mean_max(const Container &container)
 }
 
 template <typename Int> Int create_mask(const int num_bits) {
-  return (1 << num_bits) - 1;
+  if (num_bits >= std::numeric_limits<Int>::digits) {
+    return std::numeric_limits<Int>::max();
+  }
+
+  return (static_cast<Int>(1) << num_bits) - 1;
 }
 } // namespace kaminpar::math
-- 
2.43.0


From 794913a09d3fdc0c36d6b022d7fb1f2766a3e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 14/81] fix: post-decrement of Atomic increments

---
 kaminpar-common/parallel/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/atomic.h b/kaminpar-common/parallel/atomic.h
index 3f06fcf..b1095f3 100644
--- a/kaminpar-common/parallel/atomic.h
+++ b/kaminpar-common/parallel/atomic.h
@@ -100,7 +100,7 @@ public:
   }
 
   T operator--(int) & noexcept {
-    return _value++;
+    return _value--;
   } // NOLINT
 
   T operator+=(T arg) noexcept {
-- 
2.43.0


From 9e16cda98f14995d2dc24a05cb4920931c722acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 15/81] fix: parallel maxima of negative floating point values

---
 kaminpar-common/parallel/algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/parallel/algorithm.h b/kaminpar-common/parallel/algorithm.h
index b914b61..c97d975 100644
--- a/kaminpar-common/parallel/algorithm.h
+++ b/kaminpar-common/parallel/algorithm.h
@@ -105,7 +105,7 @@ template <typename Container> typename Container::value_type max_element(const C
     const Container &_r;
 
   public:
-    value_t _ans{std::numeric_limits<value_t>::min()};
+    value_t _ans{std::numeric_limits<value_t>::lowest()};
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       const Container &r = _r;
@@ -139,7 +139,7 @@ typename std::iterator_traits<InputIt>::value_type max_element(InputIt begin, In
     InputIt _begin;
 
   public:
-    value_t _ans{std::numeric_limits<value_t>::min()};
+    value_t _ans{std::numeric_limits<value_t>::lowest()};
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       InputIt begin = _begin;
@@ -176,7 +176,7 @@ typename std::iterator_traits<InputIt>::value_type max_difference(InputIt begin,
 
   // Catch special cases: zero or one element
   if (size == 0) {
-    return std::numeric_limits<value_t>::min();
+    return std::numeric_limits<value_t>::lowest();
   } else if (size == 1) {
     return 0;
   }
@@ -185,7 +185,7 @@ typename std::iterator_traits<InputIt>::value_type max_difference(InputIt begin,
     InputIt _begin;
 
   public:
-    value_t _ans = std::numeric_limits<value_t>::min();
+    value_t _ans = std::numeric_limits<value_t>::lowest();
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       const InputIt begin = _begin;
-- 
2.43.0


From 7987ee311e75ad29848a3e0923113dbbf9c553a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 16/81] fix: aligned prefix sum of a single element ignores its
 size

---
 kaminpar-common/parallel/aligned_prefix_sum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/aligned_prefix_sum.h b/kaminpar-common/parallel/aligned_prefix_sum.h
index ad39fa7..efb35ef 100644
--- a/kaminpar-common/parallel/aligned_prefix_sum.h
+++ b/kaminpar-common/parallel/aligned_prefix_sum.h
@@ -57,7 +57,7 @@ std::size_t aligned_prefix_sum(OutputIt begin, OutputIt end, AlignedValueLambda
   *begin = 0;
   --n;
   if (n == 0) {
-    return 0;
+    return l(0).second;
   }
 
   auto compute_alignment_offset = [&](const std::size_t alignment, const std::size_t value) {
-- 
2.43.0


From 4b86205935bd35fbc357b3972c0639ab9907f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 17/81] fix: report the connectivity of newly adjacent blocks
 in large k delta gain caches

---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..068ff7f 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,9 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            const EdgeWeight value =
+                kIteratesExactGains ? _gain_cache.gain(node, from, to) : _gain_cache.conn(node, to);
+            return value + conn_delta(node, to) - conn_from_delta;
           });
         }
       }
-- 
2.43.0


From f67205de638369df0d4a82d46c667d54e2a08602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 18/81] fix: give nodes without neighbors a valid table size in
 hashing gain caches

---
 kaminpar-common/math.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 112acbe..70f9cdf 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -100,8 +100,11 @@ template <typename T> T floor2(const T arg) {
 }
 
 //! With `UInt = uint32_t`, same as
-//! `static_cast<uint32_t>(std::ceil(std::log2(arg)))`
+//! `static_cast<uint32_t>(std::ceil(std::log2(arg)))`; returns 0 for `arg == 0`
 template <typename T> T ceil_log2(const T arg) {
+  if (arg == 0) {
+    return 0;
+  }
   return floor_log2<T>(arg) + 1 - ((arg & (arg - 1)) == 0);
 }
 
-- 
2.43.0


From 4ac9fb0e3cce98f5d10b4d0a7eca73a17bc1ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 19/81] fix: size a reused hashing gain cache by the current
 graph

---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index b32d777..9ce9b29 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -96,7 +96,7 @@ public:
                             : std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 6f482beaa3e805da9d73ada7ccf38bcd43449722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 20/81] fix: drop left over elements when re-initializing a
 forest of heaps

---
 kaminpar-common/datastructures/binary_heap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/datastructures/binary_heap.h b/kaminpar-common/datastructures/binary_heap.h
index 1d3423e..d1f7e4a 100644
--- a/kaminpar-common/datastructures/binary_heap.h
+++ b/kaminpar-common/datastructures/binary_heap.h
@@ -486,6 +486,7 @@ public:
   DynamicBinaryForest &operator=(DynamicBinaryForest &&) noexcept = default;
 
   void init(const std::size_t capacity, const std::size_t heaps) {
+    clear(); // elements that are left over might not fit into the new capacity
     _id_pos.resize(capacity, kInvalidID);
     _heaps.resize(heaps);
   }
-- 
2.43.0


From a5cc83e0c7f7ccf1f8c63bd0e413e5b78f20b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 21/81] fix: Jet no longer replaces a feasible partition by an
 infeasible one

---
 kaminpar-shm/refinement/jet/jet_refiner.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kaminpar-shm/refinement/jet/jet_refiner.cc b/kaminpar-shm/refinement/jet/jet_refiner.cc
index 7b57cf8..ee32d67 100644
--- a/kaminpar-shm/refinement/jet/jet_refiner.cc
+++ b/kaminpar-shm/refinement/jet/jet_refiner.cc
@@ -71,6 +71,7 @@ bool JetRefiner::refine(PartitionedGraph &p_graph, const PartitionContext &p_ctx
   p_graph.pfor_nodes([&](const NodeID u) { best_partition[u] = p_graph.block(u); });
   const EdgeWeight initial_cut = metrics::edge_cut(p_graph);
   EdgeWeight best_cut = initial_cut;
+  const bool initially_feasible = metrics::is_feasible(p_graph, p_ctx);
   bool last_iteration_is_best = true;
   STOP_TIMER();
 
@@ -180,8 +181,11 @@ bool JetRefiner::refine(PartitionedGraph &p_graph, const PartitionContext &p_ctx
 
       const EdgeWeight final_cut = metrics::edge_cut(p_graph);
 
+      // The balancer might fail: never replace a feasible partition by an infeasible one
+      const bool acceptable = !initially_feasible || metrics::is_feasible(p_graph, p_ctx);
+
       TIMED_SCOPE("Update best partition") {
-        if (final_cut <= best_cut) {
+        if (acceptable && final_cut <= best_cut) {
           p_graph.pfor_nodes([&](const NodeID u) { best_partition[u] = p_graph.block(u); });
           last_iteration_is_best = true;
         } else {
@@ -192,7 +196,8 @@ bool JetRefiner::refine(PartitionedGraph &p_graph, const PartitionContext &p_ctx
       ++cur_iteration;
       ++cur_fruitless_iteration;
 
-      if (best_cut - final_cut > (1.0 - _ctx.refinement.jet.fruitless_threshold) * best_cut) {
+      if (acceptable &&
+          best_cut - final_cut > (1.0 - _ctx.refinement.jet.fruitless_threshold) * best_cut) {
         DBG << "Improved cut from " << initial_cut << " to " << best_cut << " to " << final_cut
             << ": resetting number of fruitless iterations (threshold: "
             << _ctx.refinement.jet.fruitless_threshold << ")";
@@ -203,7 +208,7 @@ bool JetRefiner::refine(PartitionedGraph &p_graph, const PartitionContext &p_ctx
             << "): incrementing fruitless iterations counter to " << cur_fruitless_iteration;
       }
 
-      if (final_cut < best_cut) {
+      if (acceptable && final_cut < best_cut) {
         best_cut = final_cut;
       }
     } while (cur_iteration < max_num_iterations &&
-- 
2.43.0


From a0a080bab15c0ff8390c7813af72f61bf80a2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 22/81] fix: label propagation: relabeling clusters with
 concurrent moves, vanished favored clusters and node weights

---
 .../coarsening/clustering/lp_clusterer.cc     |  7 ++++++
 kaminpar-shm/label_propagation.h              | 23 +++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 8a29feb..0c7fa76 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -91,6 +91,13 @@ public:
     ClusterBase::init_clusters_ref(clustering);
     Base::initialize(&graph, graph.n());
 
+    // Relabeled clusters are no longer identified by the ID of one of their nodes, which is required
+    // to look up communities and by the non-threadwise two-hop clustering implementations
+    if (!_communities.empty() || _lp_ctx.two_hop_strategy == TwoHopStrategy::MATCH ||
+        _lp_ctx.two_hop_strategy == TwoHopStrategy::CLUSTER) {
+      Base::set_relabel_before_second_phase(false);
+    }
+
     for (std::size_t iteration = 0; iteration < _lp_ctx.num_iterations; ++iteration) {
       SCOPED_TIMER("Iteration", std::to_string(iteration));
       if (Base::perform_iteration() == 0) {
diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index d48da25..ce3bd86 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -273,9 +273,6 @@ protected:
     SCOPED_HEAP_PROFILER("Relabel");
     SCOPED_TIMER("Relabel");
 
-    // Update initial num clusters since the maximum cluster ID is now different.
-    ClusterID num_actual_clusters = _current_num_clusters;
-    _initial_num_clusters = num_actual_clusters;
     _relabeled = true;
 
     // Store for each node whether it joined another cluster as this information gets lost. This
@@ -302,15 +299,27 @@ protected:
     });
 
     parallel::prefix_sum(mapping.begin(), mapping.end(), mapping.begin());
-    KASSERT(num_actual_clusters == mapping[_graph->n() - 1]);
+
+    // Update initial num clusters since the maximum cluster ID is now different. Do not rely on
+    // _current_num_clusters, since concurrent moves can count an emptied cluster multiple times.
+    const ClusterID num_actual_clusters = mapping[_graph->n() - 1];
+    _initial_num_clusters = num_actual_clusters;
+    _current_num_clusters = num_actual_clusters;
+
+    const auto is_empty = [&](const ClusterID cluster) {
+      return mapping[cluster] == (cluster == 0 ? 0 : mapping[cluster - 1]);
+    };
 
     tbb::parallel_for(tbb::blocked_range<NodeID>(0, _graph->n()), [&](const auto &r) {
       for (NodeID u = r.begin(); u != r.end(); ++u) {
         // Relabel the cluster stored for each node.
         derived_move_node(u, mapping[derived_cluster(u)] - 1);
 
-        // Relabel the clusters stored in the favored clusters vector.
-        _favored_clusters[u] = mapping[_favored_clusters[u]] - 1;
+        // Relabel the clusters stored in the favored clusters vector; if the favored cluster does
+        // not exist anymore, favor the own cluster.
+        const ClusterID favored_cluster = _favored_clusters[u];
+        _favored_clusters[u] =
+            is_empty(favored_cluster) ? derived_cluster(u) : mapping[favored_cluster] - 1;
       }
     });
 
@@ -948,7 +957,7 @@ protected:
         const ClusterWeight current_weight = derived_cluster_weight(c_u);
 
         if (current_weight > derived_max_cluster_weight(c_u) / 2 ||
-            current_weight != derived_initial_cluster_weight(c_u)) {
+            current_weight != derived_initial_cluster_weight(derived_initial_cluster(u))) {
           // Not considered: not a singleton cluster; or its weight is too heavy
           return false;
         }
-- 
2.43.0


From 7c58c8c6c19bd5f2f71de77c89ba10e3d015a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 23/81] fix: two-hop matching must not use stale favored
 clusters as synchronization variables

---
 kaminpar-shm/label_propagation.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index ce3bd86..7aee429 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -1080,7 +1080,16 @@ protected:
           derived_move_node(u, cluster);
           --_current_num_clusters;
         }
-      } else {
+      }
+    });
+
+    // Favored clusters are used as synchronization variables below: reset them for all nodes that
+    // are not considered for two-hop clustering (this must not happen before the previous loop has
+    // finished, since nodes can become ineligible until then), and for nodes that could not be moved
+    // to their favored cluster.
+    tbb::parallel_for(from, std::min(to, _graph->n()), [&](const NodeID u) {
+      if (!is_considered_for_two_hop_clustering(u) ||
+          is_considered_for_two_hop_clustering(_favored_clusters[u])) {
         _favored_clusters[u] = u;
       }
     });
-- 
2.43.0


From f41578f86ee21e487ccf37e40a14ebdc7baed3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 24/81] fix: two-hop and isolated nodes clustering must not
 join nodes of different communities

---
 .../coarsening/clustering/lp_clusterer.cc     |  4 ++
 kaminpar-shm/label_propagation.h              | 43 +++++++++++++------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 0c7fa76..fffb727 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -185,6 +185,10 @@ public:
     return _max_cluster_weight;
   }
 
+  [[nodiscard]] bool accept_merge(const ClusterID c_u, const ClusterID c_v) {
+    return _communities.empty() || _communities[c_u] == _communities[c_v];
+  }
+
   template <typename RatingMap>
   [[nodiscard]] ClusterID select_best_cluster(
       const bool store_favored_cluster,
diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index 7aee429..3210358 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -906,7 +906,7 @@ protected:
             if (_graph->degree(u) == 0) {
               const ClusterID cu = derived_cluster(u);
 
-              if (cluster != kInvalidClusterID &&
+              if (cluster != kInvalidClusterID && derived_accept_merge(cu, cluster) &&
                   derived_move_cluster_weight(
                       cu, cluster, derived_cluster_weight(cu), derived_max_cluster_weight(cluster)
                   )) {
@@ -992,20 +992,24 @@ protected:
       } else {
         const ClusterID rep = rep_key - 1;
 
-        const bool could_move_u_to_rep = derived_move_cluster_weight(
-            c_u, rep, derived_cluster_weight(c_u), derived_max_cluster_weight(rep)
-        );
+        const bool accept_merge = derived_accept_merge(c_u, rep);
+        const bool could_move_u_to_rep =
+            accept_merge &&
+            derived_move_cluster_weight(
+                c_u, rep, derived_cluster_weight(c_u), derived_max_cluster_weight(rep)
+            );
 
         if constexpr (match) {
-          KASSERT(could_move_u_to_rep);
+          KASSERT(could_move_u_to_rep || !accept_merge);
+        }
+
+        if (could_move_u_to_rep) {
           derived_move_node(u, rep);
-          rep_key = 0;
-        } else {
-          if (could_move_u_to_rep) {
-            derived_move_node(u, rep);
-          } else {
-            rep_key = c_u + 1;
+          if constexpr (match) {
+            rep_key = 0;
           }
+        } else {
+          rep_key = c_u + 1;
         }
       }
     };
@@ -1073,7 +1077,7 @@ protected:
     tbb::parallel_for(from, std::min(to, _graph->n()), [&](const NodeID u) {
       if (is_considered_for_two_hop_clustering(u)) {
         const NodeID cluster = _favored_clusters[u];
-        if (is_considered_for_two_hop_clustering(cluster) &&
+        if (is_considered_for_two_hop_clustering(cluster) && derived_accept_merge(u, cluster) &&
             derived_move_cluster_weight(
                 u, cluster, derived_cluster_weight(u), derived_max_cluster_weight(cluster)
             )) {
@@ -1167,6 +1171,11 @@ protected:
             "invariant violated by: " << V(u) << V(cluster) << V(C) << V(_favored_clusters[C])
         );
 
+        // The cluster cannot be joined regardless of its weight: keep u as a singleton cluster
+        if (!derived_accept_merge(u, cluster)) {
+          break;
+        }
+
         // Try to join the cluster:
         if constexpr (match) {
           // Matching mode: try to build a cluster only containing nodes "cluster" and "u"
@@ -1254,6 +1263,12 @@ private: // CRTP calls
     static_cast<Derived *>(this)->move_node(u, cluster);
   }
 
+  //! Return whether nodes of the clusters \c c_u and \c c_v may be placed in the same cluster by
+  //! the two-hop or isolated nodes clustering.
+  [[nodiscard]] bool derived_accept_merge(const ClusterID c_u, const ClusterID c_v) {
+    return static_cast<Derived *>(this)->accept_merge(c_u, c_v);
+  }
+
   //! Return current weight of cluster \c cluster.
   [[nodiscard]] ClusterWeight derived_cluster_weight(const ClusterID cluster) {
     return static_cast<Derived *>(this)->cluster_weight(cluster);
@@ -1351,6 +1366,10 @@ protected: // Default implementations
     return derived_cluster_weight(cluster);
   }
 
+  [[nodiscard]] inline bool accept_merge(const ClusterID /* c_u */, const ClusterID /* c_v */) {
+    return true;
+  }
+
   [[nodiscard]] inline bool skip_node(const NodeID /* node */) {
     return false;
   }
-- 
2.43.0


From 6fd56062d4b03a1ac450bbdc5fc8bc98e52e1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 25/81] fix: block weights of partitions with 65536 or more
 blocks: ignore unassigned nodes

---
 kaminpar-shm/datastructures/partitioned_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/datastructures/partitioned_graph.h b/kaminpar-shm/datastructures/partitioned_graph.h
index 40f6068..d84034b 100644
--- a/kaminpar-shm/datastructures/partitioned_graph.h
+++ b/kaminpar-shm/datastructures/partitioned_graph.h
@@ -273,7 +273,9 @@ private:
   void init_block_weights_par() {
     if (k() >= 65536) {
       this->pfor_nodes([&](const NodeID u) {
-        __atomic_fetch_add(&_block_weights[block(u)], this->node_weight(u), __ATOMIC_RELAXED);
+        if (const BlockID b = block(u); b != kInvalidBlockID) {
+          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);
+        }
       });
       return;
     }
-- 
2.43.0


From 5ff82ac28324e98ac5339709010c161aba6043f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 26/81] fix: do not read past the end of text files

The METIS parsers test the current character without checking the position. A file whose last line has no line break, or
whose size is a multiple of the page size, is read past the end of its mapping.
---
 apps/io/file_toker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index a093663..79effaa 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -154,7 +154,7 @@ public:
   }
 
   [[nodiscard]] inline char current() const {
-    return _contents[_position];
+    return valid_position() ? _contents[_position] : '\0';
   }
 
   inline void advance() {
-- 
2.43.0


From df20b706895a0a38809b6763426d5ac8acccceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 27/81] fix: accept empty text files

The partition of a graph without nodes is written to an empty file, which could not be read since empty files cannot be mapped.
---
 apps/io/file_toker.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index 79effaa..56755ee 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -49,6 +49,11 @@ public:
     _position = 0;
     _length = static_cast<std::size_t>(file_info.st_size);
 
+    if (_length == 0) {
+      _contents = nullptr;
+      return;
+    }
+
     _contents = static_cast<char *>(mmap(nullptr, _length, PROT_READ, MAP_PRIVATE, _fd, 0));
     if (_contents == MAP_FAILED) {
       close(_fd);
@@ -57,7 +62,9 @@ public:
   }
 
   ~MappedFileToker() {
-    munmap(_contents, _length);
+    if (_contents != nullptr) {
+      munmap(_contents, _length);
+    }
     close(_fd);
   }
 
-- 
2.43.0


From 5cf591e0e9ad25af42175351cdb8ba7b564b0c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 28/81] fix: compress METIS files of graphs without nodes

The last node was added unconditionally, i.e., as node number -1 if there is none.
---
 apps/io/shm_metis_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index acf73c8..465fe71 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -275,7 +275,9 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
         edge += 1;
       }
   );
-  builder.add_node(node - 1, neighbourhood);
+  if (node > 0) {
+    builder.add_node(node - 1, neighbourhood);
+  }
 
   KASSERT(
       builder.total_node_weight() <=
-- 
2.43.0


From 10f92dec4169ef4b67c9ea8a73a53628707dad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 29/81] fix: skip node sizes in METIS files

The parser announces that it ignores node sizes (format 1xx), but took them for node weights or neighbors.
---
 apps/io/shm_metis_parser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 465fe71..e6540bb 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -25,6 +25,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -46,7 +47,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
+  const bool has_node_sizes = format / 100; // == 1xx
   const bool has_node_weights = (format % 100) / 10;         // == x1x
   const bool has_edge_weights = format % 10;                 // == xx1
 
@@ -70,6 +71,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -94,6 +96,10 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From 576e4b6ebb96dd8641d1522a20022e8a5709e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 30/81] fix: find parallel edges that are not stored next to
 each other

The input validator sorts a copy of the edges, but looked for parallel edges in the unsorted ones.
---
 apps/io/shm_input_validator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/io/shm_input_validator.cc b/apps/io/shm_input_validator.cc
index ff8744d..cfd6409 100644
--- a/apps/io/shm_input_validator.cc
+++ b/apps/io/shm_input_validator.cc
@@ -50,8 +50,9 @@ void validate_undirected_graph(
 
     // Check for multi edges
     for (EdgeID e = nodes[u] + 1; e < nodes[u + 1]; ++e) {
-      if (edges[e - 1] == edges[e]) {
-        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << edges[e] << "\n";
+      const NodeID v = std::get<0>(edges_with_weights[e]);
+      if (std::get<0>(edges_with_weights[e - 1]) == v) {
+        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << v + 1 << "\n";
         std::exit(1);
       }
     }
-- 
2.43.0


From 75b1ecd8ef269965038c67b5c274dc4273d3012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 31/81] fix: include --p-deep-initial-partitioning-load in
 dumped configurations

---
 kaminpar-cli/kaminpar_arguments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index e29d3dc..e3c8a30 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -58,7 +58,7 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       "Fraction of cores that should be used for the coarse graph replication phase of deep MGP. A "
       "value of '1' will replicate the graph once for every PE, whereas smaller values lead to "
       "fewer replications."
-  );
+  )->capture_default_str();
   partitioning
       ->add_option(
           "--p-min-consecutive-seq-bipartitioning-levels",
-- 
2.43.0


From 342eb187c67e02aee434d6d79819b24ca930d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 32/81] fix: include flags in dumped configurations

---
 kaminpar-cli/kaminpar_arguments.cc | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index e3c8a30..0c9b49e 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -13,6 +13,13 @@
 #include "kaminpar-shm/kaminpar.h"
 
 namespace kaminpar::shm {
+namespace {
+// CLI11 does not capture the current values of flags, i.e., capture_default_str() has no effect
+std::string flag_str(const bool value) {
+  return value ? "true" : "false";
+}
+} // namespace
+
 void create_all_options(CLI::App *app, Context &ctx) {
   create_graph_compression_options(app, ctx);
   create_partitioning_options(app, ctx);
@@ -26,7 +33,7 @@ CLI::Option_group *create_graph_compression_options(CLI::App *app, Context &ctx)
   auto *compression = app->add_option_group("Graph Compression");
 
   compression->add_flag("-c,--compress", ctx.compression.enabled, "Enable graph compression")
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.compression.enabled));
 
   return compression;
 }
@@ -75,17 +82,17 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       ->capture_default_str();
   partitioning
       ->add_flag("--p-refine-after-extending", ctx.partitioning.refine_after_extending_partition)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.partitioning.refine_after_extending_partition));
   partitioning
       ->add_flag(
           "--p-rb-kway-toplevel-refinement", ctx.partitioning.rb_enable_kway_toplevel_refinement
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.partitioning.rb_enable_kway_toplevel_refinement));
 
   partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
   partitioning
       ->add_flag("--p-restrict-vcycle-refinement", ctx.partitioning.restrict_vcycle_refinement)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.partitioning.restrict_vcycle_refinement));
 
   create_partitioning_rearrangement_options(app, ctx);
 
@@ -189,9 +196,9 @@ Options are:
       ->capture_default_str();
 
   coarsening->add_flag("--c-forced-kc-level", ctx.coarsening.clustering.forced_kc_level)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.clustering.forced_kc_level));
   coarsening->add_flag("--c-forced-pc-level", ctx.coarsening.clustering.forced_pc_level)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.clustering.forced_pc_level));
   coarsening
       ->add_option(
           "--c-forced-level-upper-factor", ctx.coarsening.clustering.forced_level_upper_factor
@@ -340,13 +347,13 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
   ip->add_flag(
         "--i-r-disable", ctx.initial_partitioning.refinement.disabled, "Disable initial refinement."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.initial_partitioning.refinement.disabled));
   ip->add_flag(
         "--i-adaptive-epsilon",
         ctx.initial_partitioning.use_adaptive_epsilon,
         "Use adaptive epsilon."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.initial_partitioning.use_adaptive_epsilon));
 
   return ip;
 }
@@ -490,9 +497,9 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
         "If set, compute and output detailed statistics about FM batches (can be expensive to "
         "compute on some irregular graphs)."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.kway_fm.dbg_compute_batch_stats));
   fm->add_flag("--r-fm-dbg-report-progress", ctx.refinement.kway_fm.dbg_report_progress)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.kway_fm.dbg_report_progress));
 
   return fm;
 }
@@ -565,7 +572,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "input graph, as isolated nodes might have been removed and nodes might have been "
           "reordered."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_toplevel_graph));
 
   debug
       ->add_flag(
@@ -575,7 +582,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "This partition should only be used together with the toplevel graph obtained via "
           "--d-dump-toplevel-graph."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_toplevel_partition));
   debug
       ->add_flag(
           "--d-dump-coarsest-graph",
@@ -583,7 +590,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write the coarsest graph to disk. Note that the definition of "
           "'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_coarsest_graph));
 
   debug
       ->add_flag(
@@ -592,7 +599,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write partition of the coarsest graph to disk. Note that the "
           "definition of 'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_coarsest_partition));
 
   debug
       ->add_flag(
@@ -600,7 +607,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_graph_hierarchy,
           "Write the entire graph hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_graph_hierarchy));
 
   debug
       ->add_flag(
@@ -608,7 +615,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_partition_hierarchy,
           "Write the entire partition hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_partition_hierarchy));
 
   debug->add_flag(
       "--d-dump-everything",
-- 
2.43.0


From be89aa4c6a9b7fd3986f0cbef7cf5cbaa5ccda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 33/81] fix: include FM locking flags in dumped configurations

---
 kaminpar-cli/kaminpar_arguments.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index 0c9b49e..3ae32be 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -456,17 +456,17 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
       ->capture_default_str();
 
   fm->add_flag(
-      "--r-fm-lock-locally-moved-nodes{false},--r-fm-unlock-locally-moved-nodes",
+      "--r-fm-unlock-locally-moved-nodes,--r-fm-lock-locally-moved-nodes{false}",
       ctx.refinement.kway_fm.unlock_locally_moved_nodes,
       "If set, unlock all nodes after a batch that were only moved thread-locally, but not "
       "globally."
-  );
+  )->default_str(flag_str(ctx.refinement.kway_fm.unlock_locally_moved_nodes));
   fm->add_flag(
-      "--r-fm-lock-seed-nodes{false},--r-fm-unlock-seed-nodes",
+      "--r-fm-unlock-seed-nodes,--r-fm-lock-seed-nodes{false}",
       ctx.refinement.kway_fm.unlock_seed_nodes,
       "If set, keep seed nodes locked even if they were never moved. If this flag is not set, they "
       "are treated the same way as touched nodes."
-  );
+  )->default_str(flag_str(ctx.refinement.kway_fm.unlock_seed_nodes));
 
   // Flags for gain caches
   fm->add_option("--r-fm-gc", ctx.refinement.kway_fm.gain_cache_strategy)
-- 
2.43.0


From 88e051f8af55de09260c7c39cf97ba923e46bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 34/81] fix: do not enable all dumps if --d-dump-everything is
 set to false

---
 kaminpar-cli/kaminpar_arguments.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index 3ae32be..7f3d2b3 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -619,7 +619,12 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 
   debug->add_flag(
       "--d-dump-everything",
-      [&](auto) {
+      [&](const auto count) {
+        // May be zero or negative if the flag is set to false, e.g., by a dumped configuration
+        if (count <= 0) {
+          return;
+        }
+
         ctx.debug.dump_toplevel_graph = true;
         ctx.debug.dump_toplevel_partition = true;
         ctx.debug.dump_coarsest_graph = true;
-- 
2.43.0


From f95905bf31025691d1e4ef7c6fae96f8222748b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 35/81] fix: list the accepted values of clustering strategies
 in the help text

---
 kaminpar-cli/kaminpar_arguments.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index 7f3d2b3..a94306f 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -274,7 +274,7 @@ Options are:
   - disable: Do not merge two-hop singleton clusters
   - match:   Join two-hop singleton clusters pairwise
   - cluster: Cluster two-hop singleton clusters into a single cluster (respecting the maximum cluster weight limit)
-  - legacy:  Use v2.1 default behaviour
+  - match-threadwise, cluster-threadwise: Same, but only join nodes that are handled by the same thread
   )")
       ->capture_default_str();
   lp->add_option(
@@ -294,8 +294,8 @@ Options are:
       ->description(R"(Determines the strategy for handling isolated nodes during graph clustering.
 Options are:
   - keep:                   Keep isolated nodes in the graph
-  - match-always:           Pack pairs of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
-  - cluster-always:         Pack any number of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
+  - match:                  Pack pairs of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
+  - cluster:                Pack any number of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
   - match-during-two-hop:   Only match isolated nodes after two-hop clustering was triggered
   - cluster-during-two-hop: Only cluster isolated nodes after two-hop clustering was triggered
   )")
-- 
2.43.0


From a5f604fa4b7a43f380a81bc9699c4b5e33ebd46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 36/81] fix: include the preset in dumped configurations

---
 apps/KaMinPar.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 77b42e7..b59da6e 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -42,6 +42,7 @@ using namespace kaminpar::shm;
 namespace {
 
 struct ApplicationContext {
+  std::string preset = "default";
   bool dump_config = false;
   bool show_version = false;
 
@@ -83,7 +84,10 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
   cli.set_config("-C,--config", "", "Read parameters from a TOML configuration file.", false);
   cli.add_option_function<std::string>(
          "-P,--preset",
-         [&](const std::string preset) { ctx = create_context_by_preset_name(preset); }
+         [&](const std::string preset) {
+           ctx = create_context_by_preset_name(preset);
+           app.preset = preset;
+         }
   )
       ->check(CLI::IsMember(get_preset_names()))
       ->description(R"(Use configuration preset:
@@ -360,6 +364,8 @@ int main(int argc, char *argv[]) {
 
   if (app.dump_config) {
     CLI::App dump;
+    // Not all settings of a preset can be set by other options
+    dump.add_option("-P,--preset", app.preset)->capture_default_str();
     create_all_options(&dump, ctx);
     std::cout << dump.config_to_str(true, true);
     std::exit(1);
-- 
2.43.0


From 936acb7ca84c533c4af86a8d3d1247166254034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 37/81] fix: leave out empty lists in dumped configurations

---
 kaminpar-cli/kaminpar_arguments.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index a94306f..0bf66de 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -89,7 +89,12 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       )
       ->default_str(flag_str(ctx.partitioning.rb_enable_kway_toplevel_refinement));
 
-  partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
+  auto *vcycles =
+      partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
+  if (ctx.partitioning.vcycles.empty()) {
+    // Empty lists cannot be read from configuration files: leave them out
+    vcycles->default_str("")->run_callback_for_default(false);
+  }
   partitioning
       ->add_flag("--p-restrict-vcycle-refinement", ctx.partitioning.restrict_vcycle_refinement)
       ->default_str(flag_str(ctx.partitioning.restrict_vcycle_refinement));
@@ -361,7 +366,8 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
 CLI::Option_group *create_refinement_options(CLI::App *app, Context &ctx) {
   auto *refinement = app->add_option_group("Refinement");
 
-  refinement->add_option("--r-algorithms", ctx.refinement.algorithms)
+  auto *algorithms = refinement->add_option("--r-algorithms", ctx.refinement.algorithms);
+  algorithms
       ->transform(CLI::CheckedTransformer(get_kway_refinement_algorithms()).description(""))
       ->description(
           R"(This option can be used multiple times to define a sequence of refinement algorithms. 
@@ -372,6 +378,10 @@ The following algorithms can be used:
   - greedy-balancer: greedy balancer)"
       )
       ->capture_default_str();
+  if (ctx.refinement.algorithms.empty()) {
+    // Empty lists cannot be read from configuration files: leave them out
+    algorithms->default_str("")->run_callback_for_default(false);
+  }
 
   create_lp_refinement_options(app, ctx);
   create_kway_fm_refinement_options(app, ctx);
-- 
2.43.0


From 1668f91cf8571fc2f844a95ba2922bb65e7b1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 38/81] fix: output block sizes and rearranged graphs for
 explicit block weights

---
 apps/KaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index b59da6e..41974c2 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -463,6 +463,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weight_factors.size());
     partitioner.compute_partition(
         std::move(app.max_block_weight_factors), {partition.data(), partition.size()}
     );
@@ -477,6 +478,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weights.size());
     partitioner.compute_partition(
         std::move(app.max_block_weights), {partition.data(), partition.size()}
     );
-- 
2.43.0


From 138c6674bd045c0391494eb12c26c8e876946a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 39/81] fix: keep the node ordering if edge weights are ignored

---
 apps/KaMinPar.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 41974c2..4f82853 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -422,12 +422,17 @@ int main(int argc, char *argv[]) {
 
   if (app.ignore_edge_weights && !ctx.compression.enabled) {
     auto &csr_graph = graph.concretize<CSRGraph>();
+    const bool sorted = csr_graph.sorted();
+    StaticArray<NodeID> permutation = csr_graph.take_raw_permutation();
+
     graph = {std::make_unique<CSRGraph>(
         csr_graph.take_raw_nodes(),
         csr_graph.take_raw_edges(),
         csr_graph.take_raw_node_weights(),
-        StaticArray<EdgeWeight>{}
+        StaticArray<EdgeWeight>{},
+        sorted
     )};
+    graph.set_permutation(std::move(permutation));
   } else if (app.ignore_edge_weights) {
     LOG_WARNING << "Ignoring edge weights is currently only supported for uncompressed graphs; "
                    "ignoring option.";
-- 
2.43.0


From 988897ca8f5415ba8e661c56cc76e2af4f26e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 40/81] fix: output rearranged graphs for compressed input
 files

---
 apps/KaMinPar.cc | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 4f82853..8f77f50 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -26,6 +26,7 @@
 #include "kaminpar-common/strutils.h"
 #include "kaminpar-common/timer.h"
 
+#include "apps/io/shm_compressed_graph_binary.h"
 #include "apps/io/shm_input_validator.h"
 #include "apps/io/shm_io.h"
 #include "apps/io/shm_metis_parser.h"
@@ -280,11 +281,41 @@ inline void output_partition(const ApplicationContext &app, const std::vector<Bl
   shm::io::partition::write(app.partition_filename, partition);
 }
 
+inline CSRGraph decompress(const CompressedGraph &graph) {
+  StaticArray<EdgeID> nodes(graph.n() + 1);
+  StaticArray<NodeID> edges(graph.m());
+  StaticArray<NodeWeight> node_weights(graph.is_node_weighted() ? graph.n() : 0);
+  StaticArray<EdgeWeight> edge_weights(graph.is_edge_weighted() ? graph.m() : 0);
+
+  EdgeID cur = 0;
+  for (const NodeID u : graph.nodes()) {
+    nodes[u] = cur;
+    if (graph.is_node_weighted()) {
+      node_weights[u] = graph.node_weight(u);
+    }
+    graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
+      edges[cur] = v;
+      if (graph.is_edge_weighted()) {
+        edge_weights[cur] = w;
+      }
+      ++cur;
+    });
+  }
+  nodes[graph.n()] = cur;
+
+  return {std::move(nodes), std::move(edges), std::move(node_weights), std::move(edge_weights)};
+}
+
 inline void
 output_rearranged_graph(const ApplicationContext &app, const std::vector<BlockID> &partition) {
   if (!app.rearranged_graph_filename.empty()) {
-    Graph graph =
-        io::read(app.graph_filename, app.input_graph_file_format, NodeOrdering::NATURAL, false);
+    const bool compressed = io::compressed_binary::is_compressed(app.graph_filename);
+    Graph graph = io::read(
+        app.graph_filename, app.input_graph_file_format, NodeOrdering::NATURAL, compressed
+    );
+    if (compressed) {
+      graph = {std::make_unique<CSRGraph>(decompress(graph.concretize<CompressedGraph>()))};
+    }
     auto &csr_graph = graph.concretize<CSRGraph>();
 
     auto permutations = shm::graph::compute_node_permutation_by_generic_buckets(
-- 
2.43.0


From a816b13bcc0cbe22a79084ad586a20e50d6b53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 41/81] fix: fail if output files cannot be written

---
 apps/io/binary_util.h                  | 12 ++++++++++-
 apps/io/output_util.h                  | 28 ++++++++++++++++++++++++++
 apps/io/shm_compressed_graph_binary.cc |  4 ++++
 apps/io/shm_io.cc                      |  4 ++++
 apps/io/shm_metis_parser.cc            |  3 +++
 apps/io/shm_parhip_parser.cc           |  2 ++
 6 files changed, 52 insertions(+), 1 deletion(-)
 create mode 100644 apps/io/output_util.h

diff --git a/apps/io/binary_util.h b/apps/io/binary_util.h
index 8cc1016..6186414 100644
--- a/apps/io/binary_util.h
+++ b/apps/io/binary_util.h
@@ -20,6 +20,8 @@
 
 #include "kaminpar-common/datastructures/static_array.h"
 
+#include "apps/io/output_util.h"
+
 namespace kaminpar::io {
 
 class BinaryReaderException : public std::exception {
@@ -77,7 +79,9 @@ private:
 
 class BinaryWriter {
 public:
-  BinaryWriter(const std::string &filename) : _out(filename, std::ios::binary) {}
+  BinaryWriter(const std::string &filename)
+      : _out(filename, std::ios::binary),
+        _filename(filename) {}
 
   void write(const char *data, const std::size_t size) {
     _out.write(data, size);
@@ -93,8 +97,14 @@ public:
     write(data, size);
   }
 
+  //! Closes the file and exits with an error if it could not be written.
+  void close() {
+    close_output_file(_out, _filename);
+  }
+
 private:
   std::ofstream _out;
+  std::string _filename;
 };
 
 } // namespace kaminpar::io
diff --git a/apps/io/output_util.h b/apps/io/output_util.h
new file mode 100644
index 0000000..9697de2
--- /dev/null
+++ b/apps/io/output_util.h
@@ -0,0 +1,28 @@
+/*******************************************************************************
+ * Utility for finishing output files.
+ *
+ * @file:   output_util.h
+ ******************************************************************************/
+#pragma once
+
+#include <cstdlib>
+#include <fstream>
+#include <iostream>
+#include <string>
+
+namespace kaminpar::io {
+
+/*!
+ * Closes an output file and exits with an error if it could not be opened or written completely.
+ * The error is printed in quiet mode, too.
+ */
+inline void close_output_file(std::ofstream &out, const std::string &filename) {
+  out.close();
+
+  if (!out) {
+    std::cerr << "[Error] Cannot write to the file: " << filename << std::endl;
+    std::exit(EXIT_FAILURE);
+  }
+}
+
+} // namespace kaminpar::io
diff --git a/apps/io/shm_compressed_graph_binary.cc b/apps/io/shm_compressed_graph_binary.cc
index 2925a8e..41e984a 100644
--- a/apps/io/shm_compressed_graph_binary.cc
+++ b/apps/io/shm_compressed_graph_binary.cc
@@ -13,6 +13,8 @@
 #include "kaminpar-common/datastructures/static_array.h"
 #include "kaminpar-common/logger.h"
 
+#include "apps/io/output_util.h"
+
 namespace kaminpar::shm::io::compressed_binary {
 
 struct CompressedBinaryHeader {
@@ -133,6 +135,8 @@ void write(const std::string &filename, const CompressedGraph &graph) {
   if (graph.is_node_weighted()) {
     write_static_array(out, graph.raw_node_weights());
   }
+
+  kaminpar::io::close_output_file(out, filename);
 }
 
 template <typename T> static T read_int(std::ifstream &in) {
diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index a06922a..cfe27e9 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -13,6 +13,7 @@
 #include "kaminpar-common/logger.h"
 
 #include "apps/io/file_toker.h"
+#include "apps/io/output_util.h"
 #include "apps/io/shm_compressed_graph_binary.h"
 #include "apps/io/shm_metis_parser.h"
 #include "apps/io/shm_parhip_parser.h"
@@ -98,6 +99,7 @@ void write(const std::string &filename, const std::span<const BlockID> partition
   for (const BlockID block : partition) {
     out << block << "\n";
   }
+  kaminpar::io::close_output_file(out, filename);
 }
 
 StaticArray<BlockID> read(const std::string &filename) {
@@ -125,6 +127,7 @@ void write_block_sizes(
   for (const BlockID block_size : block_sizes) {
     out << block_size << "\n";
   }
+  kaminpar::io::close_output_file(out, filename);
 }
 
 StaticArray<BlockID> read_block_sizes(const std::string &filename) {
@@ -161,6 +164,7 @@ void write(const std::string &filename, std::span<const NodeID> remapping) {
   for (const NodeID new_id : remapping) {
     out << new_id << "\n";
   }
+  kaminpar::io::close_output_file(out, filename);
 }
 
 } // namespace remapping
diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index e6540bb..4d788fb 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -16,6 +16,7 @@
 #include "kaminpar-common/logger.h"
 
 #include "apps/io/file_toker.h"
+#include "apps/io/output_util.h"
 
 namespace kaminpar::shm::io::metis {
 using namespace kaminpar::io;
@@ -330,6 +331,8 @@ void write(const std::string &filename, const Graph &graph) {
 
     out << '\n';
   }
+
+  kaminpar::io::close_output_file(out, filename);
 }
 
 } // namespace kaminpar::shm::io::metis
diff --git a/apps/io/shm_parhip_parser.cc b/apps/io/shm_parhip_parser.cc
index 4556fcb..4990fd0 100644
--- a/apps/io/shm_parhip_parser.cc
+++ b/apps/io/shm_parhip_parser.cc
@@ -572,6 +572,8 @@ void write(const std::string &filename, const CSRGraph &graph) {
   if (has_edge_weights) {
     writer.write_raw_static_array(graph.raw_edge_weights());
   }
+
+  writer.close();
 }
 
 } // namespace kaminpar::shm::io::parhip
-- 
2.43.0


From 24079f6d2899e6bbc915477a4c1629bb4881a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 42/81] fix: require an input graph

---
 apps/KaMinPar.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 8f77f50..b81b9c5 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -111,7 +111,8 @@ The output should be stored in a file and can be used by the -C,--config option.
   auto *gp_group = mandatory->add_option_group("Partitioning")->silent();
   gp_group->add_option("-G,--graph", app.graph_filename, "Input graph in METIS format.")
       ->check(CLI::ExistingFile)
-      ->configurable(false);
+      ->configurable(false)
+      ->required();
 
   auto *partition_group = gp_group->add_option_group("Partition settings")->require_option(1);
   partition_group
-- 
2.43.0


From 64c27f70c0d0ff31c97ba32228f558a5a312c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 43/81] fix: attach grid communicators to their communicator

Grid communicators were cached by the handle of their communicator. Handles can be
reused once a communicator was freed, so that a message exchange on a new communicator
used the row and column communicators of a different, already freed one.
---
 kaminpar-mpi/grid_topology.cc | 32 +++++++++++++++++++++++++++-----
 kaminpar-mpi/grid_topology.h  |  8 ++++++++
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/kaminpar-mpi/grid_topology.cc b/kaminpar-mpi/grid_topology.cc
index f38fcd4..a7a7846 100644
--- a/kaminpar-mpi/grid_topology.cc
+++ b/kaminpar-mpi/grid_topology.cc
@@ -7,14 +7,36 @@
  ******************************************************************************/
 #include "kaminpar-mpi/grid_topology.h"
 
-#include <unordered_map>
-
 #include <mpi.h>
 
 namespace kaminpar::mpi {
+namespace {
+int delete_grid_communicator(MPI_Comm, int, void *grid_comm, void *) {
+  delete static_cast<GridCommunicator *>(grid_comm);
+  return MPI_SUCCESS;
+}
+
+int create_grid_communicator_keyval() {
+  int keyval = MPI_KEYVAL_INVALID;
+  MPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, delete_grid_communicator, &keyval, nullptr);
+  return keyval;
+}
+} // namespace
+
 GridCommunicator &get_grid_communicator(MPI_Comm comm) {
-  static std::unordered_map<MPI_Comm, GridCommunicator> grid_communicators;
-  auto [grid_comm_it, ignored] = grid_communicators.try_emplace(comm, comm);
-  return grid_comm_it->second;
+  // Attach the grid communicator to the communicator that it was created for: the handle of a
+  // communicator can be reused for a different communicator after it was freed.
+  static const int keyval = create_grid_communicator_keyval();
+
+  void *grid_comm = nullptr;
+  int found = 0;
+  MPI_Comm_get_attr(comm, keyval, &grid_comm, &found);
+
+  if (!found) {
+    grid_comm = new GridCommunicator(comm);
+    MPI_Comm_set_attr(comm, keyval, grid_comm);
+  }
+
+  return *static_cast<GridCommunicator *>(grid_comm);
 }
 } // namespace kaminpar::mpi
diff --git a/kaminpar-mpi/grid_topology.h b/kaminpar-mpi/grid_topology.h
index 2d55c2f..4031ac2 100644
--- a/kaminpar-mpi/grid_topology.h
+++ b/kaminpar-mpi/grid_topology.h
@@ -122,6 +122,14 @@ public:
     );
   }
 
+  GridCommunicator(const GridCommunicator &) = delete;
+  GridCommunicator &operator=(const GridCommunicator &) = delete;
+
+  ~GridCommunicator() {
+    MPI_Comm_free(&_row_comm);
+    MPI_Comm_free(&_col_comm);
+  }
+
   MPI_Comm row_comm() const {
     return _row_comm;
   }
-- 
2.43.0


From 0099048523bb9ecff11a1ddf2da8bd6a1e4edff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 44/81] fix: do not read uninitialised entries when building
 distributions

The prefix sums in build_distribution_from_local_count() and build_displs_from_value()
include the first entry, which was only set afterwards: with containers that leave their
entries uninitialised (NoinitVector), all entries were shifted by an arbitrary value.
---
 kaminpar-mpi/wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-mpi/wrapper.h b/kaminpar-mpi/wrapper.h
index 0b72de3..38d4c2b 100644
--- a/kaminpar-mpi/wrapper.h
+++ b/kaminpar-mpi/wrapper.h
@@ -414,9 +414,9 @@ inline Container<T> build_distribution_from_local_count(const T value, MPI_Comm
   const auto [size, rank] = get_comm_info(comm);
 
   Container<T> distribution(size + 1);
+  distribution.front() = 0;
   allgather(&value, 1, distribution.data() + 1, 1, comm);
   parallel::prefix_sum(distribution.begin(), distribution.end(), distribution.begin());
-  distribution.front() = 0;
 
   return distribution;
 }
@@ -435,9 +435,9 @@ inline NoinitVector<int> build_displs_from_value(const T original_value, MPI_Com
   const int value = asserting_cast<int>(original_value);
 
   NoinitVector<int> displs(get_comm_size(comm) + 1);
+  displs.front() = 0;
   allgather(&value, 1, displs.data() + 1, 1, comm);
   parallel::prefix_sum(displs.begin(), displs.end(), displs.begin());
-  displs.front() = 0;
   return displs;
 }
 
-- 
2.43.0


From a5be04a553c8f751774cf11c4a3eae2e591c3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 45/81] fix: degree buckets of sorted graphs on processes
 without nodes

The number of buckets was computed by advancing an iterator past the end if there are
no nodes, which resulted in 2^64 - 1 buckets.
---
 kaminpar-dist/datastructures/distributed_compressed_graph.cc | 5 ++++-
 kaminpar-dist/datastructures/distributed_csr_graph.cc        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/datastructures/distributed_compressed_graph.cc b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
index bf64658..bcf8d06 100644
--- a/kaminpar-dist/datastructures/distributed_compressed_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
@@ -73,7 +73,10 @@ void DistributedCompressedGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets =
+        (last_nonempty_bucket == _buckets.rend())
+            ? 0
+            : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
diff --git a/kaminpar-dist/datastructures/distributed_csr_graph.cc b/kaminpar-dist/datastructures/distributed_csr_graph.cc
index 6c2f73b..31295e7 100644
--- a/kaminpar-dist/datastructures/distributed_csr_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_csr_graph.cc
@@ -73,7 +73,10 @@ void DistributedCSRGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets =
+        (last_nonempty_bucket == _buckets.rend())
+            ? 0
+            : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
-- 
2.43.0


From 9d326f2955803947e33d645b143b6cae01b2b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 46/81] fix: visit no neighbors of compressed graphs if limited
 to zero neighbors

At least one neighbor was visited, in contrast to uncompressed graphs.
---
 kaminpar-common/graph_compression/compressed_neighborhoods.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_neighborhoods.h b/kaminpar-common/graph_compression/compressed_neighborhoods.h
index d8c4df1..b2ce4c6 100644
--- a/kaminpar-common/graph_compression/compressed_neighborhoods.h
+++ b/kaminpar-common/graph_compression/compressed_neighborhoods.h
@@ -269,6 +269,10 @@ public:
     constexpr bool kNonStoppable =
         std::is_void_v<std::invoke_result_t<Callback, NodeID, EdgeWeight>>;
 
+    if (max_num_neighbors == 0) {
+      return;
+    }
+
     NodeID num_neighbors_visited = 1;
     const auto invoke_and_check = [&](const NodeID v, const EdgeWeight w) {
       bool abort = num_neighbors_visited++ >= max_num_neighbors;
-- 
2.43.0


From f48ed4bfd627096794215ec4e85139849c9639fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 47/81] fix: rearrange graphs by coloring on processes without
 nodes

The largest color was read from an empty array.
---
 kaminpar-dist/graphutils/rearrangement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/graphutils/rearrangement.cc b/kaminpar-dist/graphutils/rearrangement.cc
index 0518cb1..786fb22 100644
--- a/kaminpar-dist/graphutils/rearrangement.cc
+++ b/kaminpar-dist/graphutils/rearrangement.cc
@@ -56,7 +56,8 @@ DistributedCSRGraph rearrange_by_coloring(DistributedCSRGraph graph, const Conte
   auto coloring = compute_node_coloring_sequentially(
       graph, ctx.refinement.colored_lp.coloring_chunks.compute(ctx.parallel)
   );
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
 
   START_TIMER("Allocation");
-- 
2.43.0


From b889156283680e2d937b321f1fa3c044480d19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 48/81] fix: initialize the high degree info for a threshold of
 zero

Zero was also the value that denotes uninitialized high degree info, so that the
array for ghost nodes was never allocated.
---
 kaminpar-dist/datastructures/distributed_compressed_graph.cc | 3 ++-
 kaminpar-dist/datastructures/distributed_compressed_graph.h  | 1 +
 kaminpar-dist/datastructures/distributed_csr_graph.cc        | 3 ++-
 kaminpar-dist/datastructures/distributed_csr_graph.h         | 1 +
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/datastructures/distributed_compressed_graph.cc b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
index bcf8d06..23846cb 100644
--- a/kaminpar-dist/datastructures/distributed_compressed_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
@@ -14,10 +14,11 @@
 namespace kaminpar::dist {
 
 void DistributedCompressedGraph::init_high_degree_info(const EdgeID high_degree_threshold) const {
-  if (_high_degree_threshold == high_degree_threshold) {
+  if (_high_degree_info_initialized && _high_degree_threshold == high_degree_threshold) {
     return;
   }
 
+  _high_degree_info_initialized = true;
   _high_degree_threshold = high_degree_threshold;
   _high_degree_ghost_node.resize(ghost_n());
 
diff --git a/kaminpar-dist/datastructures/distributed_compressed_graph.h b/kaminpar-dist/datastructures/distributed_compressed_graph.h
index be0d915..0165c47 100644
--- a/kaminpar-dist/datastructures/distributed_compressed_graph.h
+++ b/kaminpar-dist/datastructures/distributed_compressed_graph.h
@@ -569,6 +569,7 @@ private:
   // mutable for lazy initialization
   mutable StaticArray<std::uint8_t> _high_degree_ghost_node{};
   mutable EdgeID _high_degree_threshold = 0;
+  mutable bool _high_degree_info_initialized = false;
 
   std::vector<EdgeID> _edge_cut_to_pe{};
   std::vector<EdgeID> _comm_vol_to_pe{};
diff --git a/kaminpar-dist/datastructures/distributed_csr_graph.cc b/kaminpar-dist/datastructures/distributed_csr_graph.cc
index 31295e7..7541ef9 100644
--- a/kaminpar-dist/datastructures/distributed_csr_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_csr_graph.cc
@@ -23,10 +23,11 @@
 
 namespace kaminpar::dist {
 void DistributedCSRGraph::init_high_degree_info(const EdgeID high_degree_threshold) const {
-  if (_high_degree_threshold == high_degree_threshold) {
+  if (_high_degree_info_initialized && _high_degree_threshold == high_degree_threshold) {
     return;
   }
 
+  _high_degree_info_initialized = true;
   _high_degree_threshold = high_degree_threshold;
   _high_degree_ghost_node.resize(ghost_n());
 
diff --git a/kaminpar-dist/datastructures/distributed_csr_graph.h b/kaminpar-dist/datastructures/distributed_csr_graph.h
index ccbe779..bcb9682 100644
--- a/kaminpar-dist/datastructures/distributed_csr_graph.h
+++ b/kaminpar-dist/datastructures/distributed_csr_graph.h
@@ -706,6 +706,7 @@ private:
   // mutable for lazy initialization
   mutable StaticArray<std::uint8_t> _high_degree_ghost_node{};
   mutable EdgeID _high_degree_threshold = 0;
+  mutable bool _high_degree_info_initialized = false;
 
   std::vector<EdgeID> _edge_cut_to_pe{};
   std::vector<EdgeID> _comm_vol_to_pe{};
-- 
2.43.0


From 6e73da44ef8b431bdb2fb7d5d7e11ffffd42c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 49/81] fix: replicate distributed graphs into process groups
 of different size

---
 kaminpar-dist/graphutils/replicator.cc | 110 ++++++++++++++-----------
 1 file changed, 61 insertions(+), 49 deletions(-)

diff --git a/kaminpar-dist/graphutils/replicator.cc b/kaminpar-dist/graphutils/replicator.cc
index 6c36f2d..abcfd6c 100644
--- a/kaminpar-dist/graphutils/replicator.cc
+++ b/kaminpar-dist/graphutils/replicator.cc
@@ -11,6 +11,7 @@
 
 #include <mpi.h>
 
+#include "kaminpar-mpi/sparse_alltoall.h"
 #include "kaminpar-mpi/utils.h"
 #include "kaminpar-mpi/wrapper.h"
 
@@ -388,13 +389,15 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
           secondary_root,
           secondary_comm
       );
-      MPI_Bcast(
-          edge_weights.data(),
-          asserting_cast<int>(edge_weights.size()),
-          mpi::type::get<EdgeWeight>(),
-          secondary_root,
-          secondary_comm
-      );
+      if (is_edge_weighted) {
+        MPI_Bcast(
+            edge_weights.data(),
+            asserting_cast<int>(edge_weights.size()),
+            mpi::type::get<EdgeWeight>(),
+            secondary_root,
+            secondary_comm
+        );
+      }
     } else {
       MPI_Bcast(
           nodes.data() + nodes_displs.back(),
@@ -406,17 +409,19 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
       MPI_Bcast(
           tmp_global_edges.data() + edges_displs.back(),
           asserting_cast<int>(secondary_num_edges),
-          mpi::type::get<NodeID>(),
-          secondary_root,
-          secondary_comm
-      );
-      MPI_Bcast(
-          edge_weights.data() + edges_displs.back(),
-          asserting_cast<int>(secondary_num_edges),
-          mpi::type::get<EdgeWeight>(),
+          mpi::type::get<GlobalNodeID>(),
           secondary_root,
           secondary_comm
       );
+      if (is_edge_weighted) {
+        MPI_Bcast(
+            edge_weights.data() + edges_displs.back(),
+            asserting_cast<int>(secondary_num_edges),
+            mpi::type::get<EdgeWeight>(),
+            secondary_root,
+            secondary_comm
+        );
+      }
 
       tbb::parallel_for<NodeID>(
           nodes_displs.back(),
@@ -465,7 +470,7 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
 
   if (is_node_weighted) {
     KASSERT(graph.is_node_weighted() || graph.n() == 0);
-    node_weights.resize(nodes_displs.back() + num_ghost_nodes);
+    node_weights.resize(nodes_displs.back() + secondary_num_nodes + num_ghost_nodes);
     mpi::allgatherv(
         graph.raw_node_weights().data(),
         asserting_cast<int>(graph.n()),
@@ -474,6 +479,17 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
         nodes_displs.data(),
         primary_comm
     );
+
+    if (is_secondary_participant) {
+      const bool is_secondary_root = secondary_rank == secondary_root;
+      MPI_Bcast(
+          node_weights.data() + (is_secondary_root ? 0 : nodes_displs.back()),
+          asserting_cast<int>(is_secondary_root ? nodes_displs.back() : secondary_num_nodes),
+          mpi::type::get<NodeWeight>(),
+          secondary_root,
+          secondary_comm
+      );
+    }
   }
 
   DBG << V(ghost_node_info.ghost_owner) << V(ghost_node_info.ghost_to_global);
@@ -518,51 +534,48 @@ DistributedPartitionedGraph
 distribute_best_partition(const DistributedGraph &dist_graph, DistributedPartitionedGraph p_graph) {
   SCOPED_HEAP_PROFILER("Distribute best (dist-)partition");
 
-  // Create group with one PE of each replication
-  const PEID group_size = mpi::get_comm_size(p_graph.communicator());
-  const PEID group_rank = mpi::get_comm_rank(p_graph.communicator());
   const PEID size = mpi::get_comm_size(dist_graph.communicator());
   const PEID rank = mpi::get_comm_rank(dist_graph.communicator());
-  const PEID num_replications = size / group_size;
 
-  MPI_Comm inter_group_comm = MPI_COMM_NULL;
-  MPI_Comm_split(dist_graph.communicator(), group_rank, rank, &inter_group_comm);
-  const PEID inter_group_rank = mpi::get_comm_rank(inter_group_comm);
+  // Identify each replication by its first PE
+  const PEID group = mpi::allreduce<PEID>(rank, MPI_MIN, p_graph.communicator());
 
   // Find best partition
   const GlobalEdgeWeight my_cut = metrics::edge_cut(p_graph);
   struct ReductionMessage {
     long cut;
-    int rank;
+    int group;
   };
-  ReductionMessage best_cut_loc{my_cut, inter_group_rank};
-  MPI_Allreduce(MPI_IN_PLACE, &best_cut_loc, 1, MPI_LONG_INT, MPI_MINLOC, inter_group_comm);
+  ReductionMessage best_cut_loc{my_cut, group};
+  MPI_Allreduce(
+      MPI_IN_PLACE, &best_cut_loc, 1, MPI_LONG_INT, MPI_MINLOC, dist_graph.communicator()
+  );
 
-  // Compute partition distribution for p_graph --> dist_graph
-  NoinitVector<int> send_counts(num_replications);
-  for (PEID pe = group_rank * num_replications; pe < (group_rank + 1) * num_replications; ++pe) {
-    const PEID first_pe = group_rank * num_replications;
-    send_counts[pe - first_pe] = asserting_cast<int>(
-        dist_graph.node_distribution(pe + 1) - dist_graph.node_distribution(pe)
-    );
+  // Send best partition to the PEs owning the nodes in dist_graph; the groups might differ in size,
+  // thus the nodes of a PE might be owned by multiple PEs of the best group
+  const GlobalNodeID from = p_graph.offset_n();
+  const GlobalNodeID to = from + p_graph.n();
+  auto partition = p_graph.take_partition();
+
+  std::vector<std::vector<BlockID>> sendbufs(size);
+  if (best_cut_loc.group == group) {
+    for (PEID pe = 0; pe < size; ++pe) {
+      const GlobalNodeID first = std::max(from, dist_graph.node_distribution(pe));
+      const GlobalNodeID last = std::min(to, dist_graph.node_distribution(pe + 1));
+      for (GlobalNodeID u = first; u < last; ++u) {
+        sendbufs[pe].push_back(partition[u - from]);
+      }
+    }
   }
-  NoinitVector<int> send_displs = mpi::build_displs_from_counts(send_counts);
-  int recv_count = asserting_cast<int>(dist_graph.n());
+  const auto recvbufs = mpi::sparse_alltoall_get<BlockID>(sendbufs, dist_graph.communicator());
 
-  // Scatter best partition
-  auto partition = p_graph.take_partition();
   RECORD("new_partition") StaticArray<BlockID> new_partition(dist_graph.total_n());
-  MPI_Scatterv(
-      partition.data(),
-      send_counts.data(),
-      send_displs.data(),
-      mpi::type::get<BlockID>(),
-      new_partition.data(),
-      recv_count,
-      mpi::type::get<BlockID>(),
-      best_cut_loc.rank,
-      inter_group_comm
-  );
+  NodeID next_node = 0;
+  for (const auto &recvbuf : recvbufs) {
+    std::copy(recvbuf.begin(), recvbuf.end(), new_partition.begin() + next_node);
+    next_node += recvbuf.size();
+  }
+  KASSERT(next_node == dist_graph.n());
 
   // Create partitioned dist_graph
   DistributedPartitionedGraph p_dist_graph(&dist_graph, p_graph.k(), std::move(new_partition));
@@ -570,7 +583,6 @@ distribute_best_partition(const DistributedGraph &dist_graph, DistributedPartiti
   // Synchronize ghost node assignment
   graph::synchronize_ghost_node_block_ids(p_dist_graph);
 
-  MPI_Comm_free(&inter_group_comm);
   return p_dist_graph;
 }
 
-- 
2.43.0


From 46d57adb190b3014f5cce4497b0d45d3be26282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 50/81] fix: distribute block-induced subgraphs if there are
 more blocks than processes

---
 .../graphutils/subgraph_extractor.cc          | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/kaminpar-dist/graphutils/subgraph_extractor.cc b/kaminpar-dist/graphutils/subgraph_extractor.cc
index a718317..523c812 100644
--- a/kaminpar-dist/graphutils/subgraph_extractor.cc
+++ b/kaminpar-dist/graphutils/subgraph_extractor.cc
@@ -240,7 +240,7 @@ BlockID BlockExtractionOffsets::first_block_on_pe(PEID pe) const {
   if (static_cast<BlockID>(_size) <= _k) {
     return pe * _min_blocks_per_pe + std::min<BlockID>(pe, _rem_blocks);
   } else {
-    if (pe <= _rem_pes * _min_pes_per_block) {
+    if (pe < _rem_pes * (_min_pes_per_block + 1)) {
       return pe / (_min_pes_per_block + 1);
     } else {
       return _rem_pes + (pe - _rem_pes * (_min_pes_per_block + 1)) / _min_pes_per_block;
@@ -256,7 +256,15 @@ BlockID BlockExtractionOffsets::num_blocks_on_pe(PEID pe) const {
 }
 
 PEID BlockExtractionOffsets::first_pe_with_block(BlockID block) const {
-  return std::max<BlockID>(block, block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes));
+  if (static_cast<BlockID>(_size) <= _k) {
+    if (block < _rem_blocks * (_min_blocks_per_pe + 1)) {
+      return block / (_min_blocks_per_pe + 1);
+    } else {
+      return _rem_blocks + (block - _rem_blocks * (_min_blocks_per_pe + 1)) / _min_blocks_per_pe;
+    }
+  } else {
+    return block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes);
+  }
 }
 
 PEID BlockExtractionOffsets::first_invalid_pe_with_block(BlockID block) const {
@@ -264,7 +272,11 @@ PEID BlockExtractionOffsets::first_invalid_pe_with_block(BlockID block) const {
 }
 
 PEID BlockExtractionOffsets::num_pes_with_block(BlockID block) const {
-  return std::max<PEID>(1, _min_pes_per_block + (block < static_cast<BlockID>(_rem_pes)));
+  if (static_cast<BlockID>(_size) <= _k) {
+    return 1;
+  } else {
+    return _min_pes_per_block + (block < static_cast<BlockID>(_rem_pes));
+  }
 }
 
 namespace {
@@ -303,8 +315,10 @@ NoinitVector<GraphSize> exchange_subgraph_sizes(
     const PEID first_pe = offsets.first_pe_with_block(block);
     const PEID first_invalid_pe = offsets.first_invalid_pe_with_block(block);
     for (PEID to = first_pe; to < first_invalid_pe; ++to) {
-      send_subgraph_sizes[to].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
-      send_subgraph_sizes[to].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
+      // One entry per block if each block is sent to a single PE, otherwise one entry per PE
+      const std::size_t i = (static_cast<BlockID>(size) <= p_graph.k()) ? block : to;
+      send_subgraph_sizes[i].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
+      send_subgraph_sizes[i].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
     }
   });
 
@@ -359,6 +373,7 @@ SharedGraphs exchange_subgraphs(
 ) {
   SCOPED_TIMER("Exchange subgraphs");
   const PEID size = mpi::get_comm_size(p_graph.communicator());
+  const PEID rank = mpi::get_comm_rank(p_graph.communicator());
 
   std::vector<int> sendcounts_nodes(size);
   std::vector<int> sendcounts_edges(size);
@@ -387,22 +402,17 @@ SharedGraphs exchange_subgraphs(
 
     // Compute recvcounts + rdispls
     {
-      auto compute_offset = [&](const BlockID pe) {
-        const BlockID min_blocks_per_pe = p_graph.k() / size;
-        const BlockID rem_blocks = p_graph.k() % size;
-        return std::max<BlockID>(pe, pe * min_blocks_per_pe + std::min<BlockID>(pe, rem_blocks));
-      };
-
-      const BlockID first_block_on_pe = compute_offset(pe);
-      const BlockID first_invalid_block_on_pe = compute_offset(pe + 1);
-
-      recvcounts_nodes[pe] = recv_subgraph_displs[first_invalid_block_on_pe].n -
-                             recv_subgraph_displs[first_block_on_pe].n;
-      recvcounts_edges[pe] = recv_subgraph_displs[first_invalid_block_on_pe].m -
-                             recv_subgraph_displs[first_block_on_pe].m;
-
-      rdispls_nodes[pe + 1] = recv_subgraph_displs[first_invalid_block_on_pe].n;
-      rdispls_edges[pe + 1] = recv_subgraph_displs[first_invalid_block_on_pe].m;
+      // We receive the same number of blocks from each PE
+      const std::size_t first_subgraph = pe * offsets.num_blocks_on_pe(rank);
+      const std::size_t first_invalid_subgraph = (pe + 1) * offsets.num_blocks_on_pe(rank);
+
+      recvcounts_nodes[pe] = recv_subgraph_displs[first_invalid_subgraph].n -
+                             recv_subgraph_displs[first_subgraph].n;
+      recvcounts_edges[pe] = recv_subgraph_displs[first_invalid_subgraph].m -
+                             recv_subgraph_displs[first_subgraph].m;
+
+      rdispls_nodes[pe + 1] = recv_subgraph_displs[first_invalid_subgraph].n;
+      rdispls_edges[pe + 1] = recv_subgraph_displs[first_invalid_subgraph].m;
     }
   });
   MPI_Barrier(p_graph.communicator());
-- 
2.43.0


From 0b43649f51132057f3a3db5167281f1457c10899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 51/81] fix: extend distributed partitions to any number of
 blocks

---
 kaminpar-dist/partitioning/deep_multilevel.cc | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/kaminpar-dist/partitioning/deep_multilevel.cc b/kaminpar-dist/partitioning/deep_multilevel.cc
index 03fab55..52d8684 100644
--- a/kaminpar-dist/partitioning/deep_multilevel.cc
+++ b/kaminpar-dist/partitioning/deep_multilevel.cc
@@ -56,7 +56,12 @@ DistributedPartitionedGraph DeepMultilevelPartitioner::partition() {
   /*
    * Coarsening
    */
-  const BlockID first_step_k = std::min<BlockID>(_input_ctx.partition.k, _input_ctx.partition.K);
+  // All blocks are split into the same number of blocks when extending the partition: if this does
+  // not lead to the desired number of blocks, compute all blocks during initial partitioning
+  const bool can_extend_partition = _input_ctx.partition.k > _input_ctx.partition.K &&
+                                    _input_ctx.partition.k % _input_ctx.partition.K == 0;
+  const BlockID first_step_k =
+      can_extend_partition ? _input_ctx.partition.K : _input_ctx.partition.k;
   const GlobalNodeID desired_num_nodes =
       (_input_ctx.simulate_singlethread ? 1 : _input_ctx.parallel.num_threads) *
       _input_ctx.coarsening.contraction_limit * first_step_k;
@@ -202,10 +207,21 @@ DistributedPartitionedGraph DeepMultilevelPartitioner::partition() {
       desired_k = _input_ctx.partition.k;
     }
     while (dist_p_graph.k() < desired_k) {
-      const BlockID next_k =
-          std::min<BlockID>(desired_k, dist_p_graph.k() * _input_ctx.partition.K);
-      KASSERT(next_k % dist_p_graph.k() == 0u);
-      const BlockID k_per_block = next_k / dist_p_graph.k();
+      // Only use splits that lead to the final number of blocks
+      const BlockID remaining_k_per_block = _input_ctx.partition.k / dist_p_graph.k();
+      BlockID k_per_block =
+          std::min<BlockID>(desired_k / dist_p_graph.k(), _input_ctx.partition.K);
+      while (k_per_block > 1 && remaining_k_per_block % k_per_block != 0) {
+        --k_per_block;
+      }
+      if (k_per_block <= 1) {
+        if (desired_k < _input_ctx.partition.k) {
+          break; // Extend on a finer level
+        }
+        k_per_block = remaining_k_per_block;
+      }
+      const BlockID next_k = dist_p_graph.k() * k_per_block;
+      KASSERT(_input_ctx.partition.k % next_k == 0u);
 
       LOG << "  Extending partition from " << dist_p_graph.k() << " blocks to " << next_k
           << " blocks";
-- 
2.43.0


From 0d4566e79e0011401b6380c8238589430d123c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 52/81] fix: compute distributed partitions with a single block

---
 .../initial_partitioning/kaminpar_initial_partitioner.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
index 4a3620b..89f490a 100644
--- a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
+++ b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
@@ -20,7 +20,7 @@ namespace kaminpar::dist {
 shm::PartitionedGraph KaMinParInitialPartitioner::initial_partition(
     const shm::Graph &graph, const PartitionContext &p_ctx
 ) {
-  if (graph.n() <= 1) {
+  if (graph.n() <= 1 || p_ctx.k <= 1) {
     return {graph, p_ctx.k, StaticArray<BlockID>(graph.n())};
   }
 
-- 
2.43.0


From 4dd42c909297da5704aa7208ff72edce41622690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 53/81] fix: balance coarse graphs with fewer nodes than
 processes

---
 .../coarsening/contraction/global_cluster_contraction.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..1237f75 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -912,7 +912,7 @@ AssignmentShifts compute_assignment_shifts(
   pe_overload.front() = 0;
   pe_underload.front() = 0;
 
-  const auto avg_cnode_count = static_cast<NodeID>(c_n / size);
+  const auto avg_cnode_count = std::max<NodeID>(1, c_n / size);
   const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
 
   // Determine overloaded PEs
-- 
2.43.0


From 931bb1c1e2a5ddd436804a77d5d5c7de96f8ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 54/81] fix: report distributed edge cuts that do not fit into
 32 bits

---
 kaminpar-dist/dkaminpar.cc             | 2 +-
 kaminpar-dist/graphutils/replicator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index d4fb269..8507d92 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -366,7 +366,7 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
     );
   }
 
-  const EdgeWeight final_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight final_cut = metrics::edge_cut(p_graph);
 
 #ifdef KAMINPAR_ENABLE_TIMERS
   GLOBAL_TIMER.reset();
diff --git a/kaminpar-dist/graphutils/replicator.cc b/kaminpar-dist/graphutils/replicator.cc
index abcfd6c..dd8e5a4 100644
--- a/kaminpar-dist/graphutils/replicator.cc
+++ b/kaminpar-dist/graphutils/replicator.cc
@@ -598,7 +598,7 @@ distribute_best_partition(const DistributedGraph &dist_graph, shm::PartitionedGr
   MPI_Comm comm = dist_graph.communicator();
 
   const PEID rank = mpi::get_comm_rank(comm);
-  const auto shm_cut = asserting_cast<EdgeWeight>(shm::metrics::edge_cut(shm_p_graph));
+  const shm::EdgeWeight shm_cut = shm::metrics::edge_cut(shm_p_graph);
 
   // Find PE with best partition
   struct ReductionMessage {
-- 
2.43.0


From f11cd37af53cc7a012704b45dce10310f136dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 55/81] fix: compute heavy edge matchings on processes without
 nodes

---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..0b0c8a0 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -62,7 +62,7 @@ public:
     SCOPED_TIMER("Compute HEM clustering");
 
     tbb::parallel_for<NodeID>(0, graph.total_n(), [&](const NodeID u) {
-      matching[u] = kInvalidGlobalNodeID;
+      _matching[u] = kInvalidGlobalNodeID;
     });
 
     for (ColorID c = 0; c + 1 < _color_sizes.size(); ++c) {
@@ -71,8 +71,8 @@ public:
     }
 
     _graph->pfor_all_nodes([&](const NodeID u) {
-      if (matching[u] == kInvalidGlobalNodeID) {
-        matching[u] = _graph->local_to_global_node(u);
+      if (_matching[u] == kInvalidGlobalNodeID) {
+        _matching[u] = _graph->local_to_global_node(u);
       }
     });
 
@@ -110,7 +110,8 @@ private:
       return compute_node_coloring_sequentially(*_graph, _ctx.chunks.compute(_input_ctx.parallel));
     }();
 
-    const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+    const ColorID num_local_colors =
+        coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
     const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, _graph->communicator());
 
     TIMED_SCOPE("Allocation") {
-- 
2.43.0


From 680b4034aacfc0d23e87eacfb712b372b5655d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 56/81] fix: refine by colored label propagation on processes
 without nodes

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..b78a222 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -96,7 +96,8 @@ void ColoredLPRefiner::initialize() {
     );
   }();
 
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
   STATS << "Number of colors: " << num_colors;
 
-- 
2.43.0


From d6cce0c2f147d1e27a61ab21c01f13a2209d784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 57/81] fix: stop distributed balancing if no block can take a
 node

---
 .../refinement/balancer/node_balancer.cc      | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/node_balancer.cc b/kaminpar-dist/refinement/balancer/node_balancer.cc
index b8b71e3..84fb586 100644
--- a/kaminpar-dist/refinement/balancer/node_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/node_balancer.cc
@@ -278,18 +278,28 @@ private:
 
         if (from == to) {
           // Look for next block that can take node
-          while (cur == from ||
-                 _p_graph.block_weight(cur) + weight > _p_ctx.graph->max_block_weight(cur)) {
+          BlockID num_rejected = 0;
+          while (num_rejected < _p_ctx.k &&
+                 (cur == from ||
+                  _p_graph.block_weight(cur) + weight > _p_ctx.graph->max_block_weight(cur))) {
+            ++num_rejected;
             ++cur;
             if (cur >= _p_ctx.k) {
               cur = 0;
             }
           }
 
-          to = cur;
-          perform_move(candidate, true);
+          if (num_rejected < _p_ctx.k) {
+            to = cur;
+            perform_move(candidate, true);
+          }
         }
       }
+
+      // Drop nodes that do not fit into any other block
+      std::erase_if(candidates, [](const auto &candidate) {
+        return candidate.from == candidate.to;
+      });
     }
     STOP_TIMER();
     TIMER_BARRIER(_graph.communicator());
@@ -722,14 +732,15 @@ private:
   void switch_to_stalled() {
     TIMER_BARRIER(_graph.communicator());
 
-    _stalled = true;
-
     // Reinit the balancer to fix blocks that were not overloaded in the beginning, but are
     // overloaded now due to imbalanced parallel moves
     START_TIMER("Reinitialize");
     reinit();
     STOP_TIMER();
     TIMER_BARRIER(_graph.communicator());
+
+    // Initialization resets the flag
+    _stalled = true;
   }
 
   DistributedPartitionedGraph &_p_graph;
-- 
2.43.0


From 316bc853e258bc13a7daed42956b4cb0b20866ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 58/81] fix: allocate memory before initializing local label
 propagation

---
 kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
index aea5698..5a9c900 100644
--- a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
@@ -74,9 +74,9 @@ public:
   }
 
   void initialize(const Graph &graph) {
-    Base::initialize(&graph, graph.n());
     Base::allocate();
     ClusterWeightBase::allocate_cluster_weights(graph.n());
+    Base::initialize(&graph, graph.n());
   }
 
   void set_max_cluster_weight(const GlobalNodeWeight max_cluster_weight) {
-- 
2.43.0


From 5899b700b33f7d26254ce80ba74a4f39990acfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 59/81] fix: allocate block weight deltas of the colored
 refiner in all configurations

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b78a222..b902c18 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -218,7 +218,7 @@ bool ColoredLPRefiner::refine() {
       });
     }
 
-    if (_ctx.track_local_block_weights && _block_weight_deltas.size() < _p_ctx.k) {
+    if (_block_weight_deltas.size() < _p_ctx.k) {
       _block_weight_deltas.resize(_p_ctx.k);
       _p_graph.pfor_blocks([&](const BlockID b) { _block_weight_deltas[b] = 0; });
     }
-- 
2.43.0


From 2b163a8e42daf4fc5332dca431ff50624314bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 60/81] fix: compare distributed cuts that do not fit into 32
 bits during refinement

---
 kaminpar-dist/refinement/jet/jet_refiner.cc | 8 ++++----
 kaminpar-dist/refinement/snapshooter.cc     | 6 +++---
 kaminpar-dist/refinement/snapshooter.h      | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/kaminpar-dist/refinement/jet/jet_refiner.cc b/kaminpar-dist/refinement/jet/jet_refiner.cc
index 9a02b97..2a85946 100644
--- a/kaminpar-dist/refinement/jet/jet_refiner.cc
+++ b/kaminpar-dist/refinement/jet/jet_refiner.cc
@@ -144,8 +144,8 @@ public:
       int cur_fruitless_iteration = 0;
       int cur_iteration = 0;
 
-      const EdgeWeight initial_cut = metrics::edge_cut(_p_graph);
-      EdgeWeight best_cut = initial_cut;
+      const GlobalEdgeWeight initial_cut = metrics::edge_cut(_p_graph);
+      GlobalEdgeWeight best_cut = initial_cut;
 
       do {
         TIMER_BARRIER(_graph.communicator());
@@ -163,7 +163,7 @@ public:
             HEAVY
         );
 
-        const EdgeWeight before_rebalance_cut = IFDBG(metrics::edge_cut(_p_graph));
+        const GlobalEdgeWeight before_rebalance_cut = IFDBG(metrics::edge_cut(_p_graph));
         const double before_rebalance_l1 = IFDBG(metrics::imbalance_l1(_p_graph, _p_ctx));
         DBG0 << "Partition *before* rebalancing: cut=" << before_rebalance_cut
              << ", l1=" << before_rebalance_l1;
@@ -171,7 +171,7 @@ public:
         _balancer->initialize();
         _balancer->refine();
 
-        const EdgeWeight final_cut = metrics::edge_cut(_p_graph);
+        const GlobalEdgeWeight final_cut = metrics::edge_cut(_p_graph);
         const double final_l1 = metrics::imbalance_l1(_p_graph, _p_ctx);
         DBG0 << "Partition *after* rebalancing: cut=" << final_cut << ", l1=" << final_l1;
 
diff --git a/kaminpar-dist/refinement/snapshooter.cc b/kaminpar-dist/refinement/snapshooter.cc
index 39f1588..23b3823 100644
--- a/kaminpar-dist/refinement/snapshooter.cc
+++ b/kaminpar-dist/refinement/snapshooter.cc
@@ -46,7 +46,7 @@ void BestPartitionSnapshooter::rollback(DistributedPartitionedGraph &p_graph) {
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx
 ) {
-  const EdgeWeight current_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight current_cut = metrics::edge_cut(p_graph);
   const double current_l1 = metrics::imbalance_l1(p_graph, p_ctx);
   update(p_graph, p_ctx, current_cut, current_l1);
 }
@@ -54,7 +54,7 @@ void BestPartitionSnapshooter::update(
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph,
     const PartitionContext &p_ctx,
-    const EdgeWeight cut,
+    const GlobalEdgeWeight cut,
     const double l1
 ) {
   // Accept if the previous best partition is imbalanced and we improved its balance
@@ -94,7 +94,7 @@ void DummyPartitionSnapshooter::update(
 void DummyPartitionSnapshooter::update(
     const DistributedPartitionedGraph & /* p_graph */,
     const PartitionContext & /* p_ctx */,
-    EdgeWeight /* cut */,
+    GlobalEdgeWeight /* cut */,
     double /* l1 */
 ) {}
 
diff --git a/kaminpar-dist/refinement/snapshooter.h b/kaminpar-dist/refinement/snapshooter.h
index aac528b..f241371 100644
--- a/kaminpar-dist/refinement/snapshooter.h
+++ b/kaminpar-dist/refinement/snapshooter.h
@@ -26,7 +26,7 @@ public:
   virtual void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) = 0;
 
@@ -44,7 +44,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
@@ -54,7 +54,7 @@ private:
   void copy_partition(const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx);
 
   double _best_l1;
-  EdgeWeight _best_cut;
+  GlobalEdgeWeight _best_cut;
   StaticArray<BlockID> _best_partition;
   StaticArray<BlockWeight> _best_block_weights;
   bool _last_is_best;
@@ -69,7 +69,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
-- 
2.43.0


From ead77b7c34a331ddf44535d73c8c812b31c571df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 61/81] fix: apply block weight deltas of local moves only once

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b902c18..ea3e966 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -559,6 +559,7 @@ NodeID ColoredLPRefiner::perform_local_moves(const ColorID c) {
     );
     _p_graph.pfor_blocks([&](const BlockID b) {
       _p_graph.set_block_weight(b, _p_graph.block_weight(b) + _block_weight_deltas[b]);
+      _block_weight_deltas[b] = 0;
     });
   };
 
-- 
2.43.0


From 8ee280d7fa7b28d9f36d0a94a3537deac6717d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 62/81] fix: update block weight deltas of the colored refiner
 atomically

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index ea3e966..92b6292 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -864,8 +864,8 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
           ++num_moved_nodes;
 
           if (_ctx.track_local_block_weights) {
-            _block_weight_deltas[u_block] -= u_weight;
-            _block_weight_deltas[best_block] += u_weight;
+            __atomic_fetch_sub(&_block_weight_deltas[u_block], u_weight, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&_block_weight_deltas[best_block], u_weight, __ATOMIC_RELAXED);
           }
         }
 
-- 
2.43.0


From 6206df06dbcc3a40c0576be836a3b095eb75a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 63/81] fix: respect block weight limits when executing the
 best moves on one process

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index 92b6292..e26e258 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -402,6 +402,11 @@ auto ColoredLPRefiner::reduce_move_candidates(std::vector<MoveCandidate> &&candi
   const int rank = mpi::get_comm_rank(_p_graph.communicator());
   KASSERT(math::is_power_of_2(size), "#PE must be a power of two", assert::always);
 
+  // Nothing to merge with, but the moves must still be limited to the capacities of their targets
+  if (size == 1) {
+    return reduce_move_candidates(std::move(candidates), {});
+  }
+
   int active_size = size;
   while (active_size > 1) {
     // false = receiver
-- 
2.43.0


From 2fa8ac31cc4f0765ca0ccfaf0bff3a5a096542c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 64/81] fix: respect the coarse node imbalance if the average
 is not integral

---
 .../coarsening/contraction/global_cluster_contraction.cc   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 1237f75..23ca533 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -913,7 +913,12 @@ AssignmentShifts compute_assignment_shifts(
   pe_underload.front() = 0;
 
   const auto avg_cnode_count = std::max<NodeID>(1, c_n / size);
-  const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
+  // At least one PE must have this many coarse nodes: with a smaller maximum, PEs would give away
+  // more coarse nodes than the underloaded PEs can take without becoming overloaded themselves
+  const auto min_max_cnode_count = math::div_ceil<GlobalNodeID>(c_n, size);
+  const auto max_cnode_count = std::max<NodeID>(
+      static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count), min_max_cnode_count
+  );
 
   // Determine overloaded PEs
   tbb::parallel_for<PEID>(0, size, [&](const PEID pe) {
-- 
2.43.0


From 3923fc2409fa2104555e73aebb4baea372b625fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:36 +0000
Subject: [PATCH 65/81] fix: do not undercount overweight clusters that the own
 process does not fill

---
 .../clustering/lp/global_lp_clusterer.cc        | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
index d91b802..d1d9021 100644
--- a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
@@ -511,14 +511,15 @@ private:
           const GlobalNodeWeight increase_by_me = (*it).second;
 
           violation = 1;
-          if (_c_ctx.global_lp.enforce_legacy_weight) {
-            new_weight = _max_cluster_weight + (1.0 * increase_by_me / increase_by_others) *
-                                                   (new_weight - _max_cluster_weight);
-          } else {
-            new_weight =
-                _max_cluster_weight + (1.0 * increase_by_me / (increase_by_others + increase_by_me)
-                                      ) * (new_weight - _max_cluster_weight);
-          }
+
+          // Our share of the excess weight; this is zero if we did not contribute to the excess
+          const GlobalNodeWeight total_increase =
+              std::max<GlobalNodeWeight>(increase_by_others, 0) +
+              (_c_ctx.global_lp.enforce_legacy_weight ? 0 : increase_by_me);
+          const double share = (increase_by_me <= 0)    ? 0.0
+                               : (total_increase == 0) ? 1.0
+                                                       : 1.0 * increase_by_me / total_increase;
+          new_weight = _max_cluster_weight + share * (new_weight - _max_cluster_weight);
         }
         change_cluster_weight(cluster, -old_weight + new_weight, true);
       });
-- 
2.43.0


From e17e0c68ff4ad55f1e12ee01a604957c4b72b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 66/81] fix: follow the recursion tree for v-cycles whose
 number of blocks is not a power of two

---
 .../deep/vcycle_deep_multilevel.cc            | 19 +++---------
 kaminpar-shm/partitioning/helper.cc           | 22 +++++++------
 kaminpar-shm/partitioning/partition_utils.cc  | 31 +++++++++++++++++++
 kaminpar-shm/partitioning/partition_utils.h   | 25 +++++++++++++++
 4 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
index 253c4d4..1365f0a 100644
--- a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
@@ -21,29 +21,18 @@ std::vector<BlockWeight> compute_max_block_weights(
     const PartitionContext &input_p_ctx,
     const std::vector<BlockWeight> &next_block_weights
 ) {
-  const int level = math::floor_log2(current_k);
-  const BlockID expanded_blocks = current_k - (1 << level);
-
   std::vector<BlockWeight> max_block_weights(current_k);
   if (current_k == input_p_ctx.k) {
     for (BlockID b = 0; b < current_k; ++b) {
       max_block_weights[b] = input_p_ctx.max_block_weight(b);
     }
   } else {
+    const std::vector<BlockID> final_ks =
+        partitioning::compute_final_ks(current_k, next_block_weights.size());
+
     BlockID cur_begin = 0;
     for (BlockID b = 0; b < current_k; ++b) {
-      const BlockID num_sub_blocks = [&] {
-        if (b < 2 * expanded_blocks) {
-          const BlockID next_k =
-              std::min<BlockID>(math::ceil2(current_k), next_block_weights.size());
-          return partitioning::compute_final_k(b, next_k, next_block_weights.size());
-        } else {
-          return partitioning::compute_final_k(
-              b - expanded_blocks, math::floor2(current_k), next_block_weights.size()
-          );
-        }
-      }();
-
+      const BlockID num_sub_blocks = final_ks[b];
       const BlockID cur_end = cur_begin + num_sub_blocks;
       max_block_weights[b] = std::accumulate(
           next_block_weights.begin() + cur_begin, next_block_weights.begin() + cur_end, 0
diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 5e24535..226a19f 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -27,10 +27,12 @@ PartitionContext create_kway_context(const Context &input_ctx, const Partitioned
   const BlockID input_k = input_ctx.partition.k;
   const BlockID current_k = p_graph.k();
 
+  const std::vector<BlockID> final_ks = compute_final_ks(current_k, input_k);
+
   std::vector<BlockWeight> max_block_weights(p_graph.k());
   BlockID cur_fine_block = 0;
   for (const BlockID coarse_block : p_graph.blocks()) {
-    const BlockID num = compute_final_k(coarse_block, current_k, input_k);
+    const BlockID num = final_ks[coarse_block];
     const BlockID begin = cur_fine_block;
     const BlockID end = cur_fine_block + num;
     cur_fine_block += num;
@@ -498,8 +500,7 @@ void complete_partial_extend_partition(
     return subgraph_partitions;
   };
 
-  const int level = math::floor_log2(current_k);
-  const BlockID expanded_blocks = current_k - (1 << level);
+  const std::vector<BlockID> prev_blocks = compute_parent_blocks(current_k);
   const BlockID prev_current_k = math::floor2(current_k);
   const BlockID desired_k = std::min(math::ceil2(current_k), input_ctx.partition.k);
 
@@ -507,13 +508,13 @@ void complete_partial_extend_partition(
     SCOPED_HEAP_PROFILER("Bipartitioning");
 
     tbb::parallel_for<BlockID>(0, current_k, [&](const BlockID b) {
+      const BlockID prev_b = prev_blocks[b];
+
       // This block is already on the next level of the recursive bipartitioning tree
-      if (b < 2 * expanded_blocks) {
+      if (compute_final_k(prev_b, prev_current_k, current_k) > 1) {
         return;
       }
 
-      const BlockID prev_b = b - expanded_blocks;
-
       const BlockID final_kb = compute_final_k(prev_b, prev_current_k, input_ctx.partition.k);
       const BlockID subgraph_k = (desired_k == input_ctx.partition.k) ? final_kb : 2;
       if (subgraph_k <= 1) {
@@ -577,12 +578,13 @@ void complete_partial_extend_partition(
     k0.front() = 0;
 
     for (const BlockID b : p_graph.blocks()) {
-      if (b < 2 * expanded_blocks) {
+      const BlockID prev_b = prev_blocks[b];
+
+      if (compute_final_k(prev_b, prev_current_k, current_k) > 1) {
         k0[b + 1] = 1;
       } else {
-        k0[b + 1] = std::min<BlockID>(
-            2, compute_final_k(b - expanded_blocks, prev_current_k, input_ctx.partition.k)
-        );
+        k0[b + 1] =
+            std::min<BlockID>(2, compute_final_k(prev_b, prev_current_k, input_ctx.partition.k));
       }
     }
 
diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index 3f50d36..dea6d45 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -49,6 +49,37 @@ BlockID compute_final_k(const BlockID block, const BlockID current_k, const Bloc
   return base + (reversed_block < num_plus_one_blocks);
 }
 
+std::vector<BlockID> compute_parent_blocks(const BlockID current_k) {
+  const BlockID parent_k = math::floor2(current_k);
+
+  std::vector<BlockID> parents;
+  parents.reserve(current_k);
+  for (BlockID parent = 0; parent < parent_k; ++parent) {
+    parents.insert(parents.end(), compute_final_k(parent, parent_k, current_k), parent);
+  }
+
+  return parents;
+}
+
+std::vector<BlockID> compute_final_ks(const BlockID current_k, const BlockID input_k) {
+  const BlockID parent_k = math::floor2(current_k);
+  const BlockID next_k = std::min<BlockID>(2 * parent_k, input_k);
+
+  std::vector<BlockID> final_ks;
+  final_ks.reserve(current_k);
+  for (BlockID parent = 0; parent < parent_k; ++parent) {
+    if (compute_final_k(parent, parent_k, current_k) == 1) {
+      final_ks.push_back(compute_final_k(parent, parent_k, input_k));
+    } else {
+      // This block was already split in two
+      final_ks.push_back(compute_final_k(2 * parent, next_k, input_k));
+      final_ks.push_back(compute_final_k(2 * parent + 1, next_k, input_k));
+    }
+  }
+
+  return final_ks;
+}
+
 // @todo optimize
 BlockID
 compute_first_sub_block(const BlockID block, const BlockID current_k, const BlockID input_k) {
diff --git a/kaminpar-shm/partitioning/partition_utils.h b/kaminpar-shm/partitioning/partition_utils.h
index a47daa7..727c62d 100644
--- a/kaminpar-shm/partitioning/partition_utils.h
+++ b/kaminpar-shm/partitioning/partition_utils.h
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #pragma once
 
+#include <vector>
+
 #include "kaminpar-shm/kaminpar.h"
 
 namespace kaminpar::shm::partitioning {
@@ -36,6 +38,29 @@ namespace kaminpar::shm::partitioning {
  */
 BlockID compute_final_k(BlockID block, BlockID current_k, BlockID input_k);
 
+/**
+ * Given a partition with $k'$ blocks, where $k'$ is not necessarily a power of two, this function
+ * computes the ancestor of each block in the last complete level of the recursion tree, i.e., the
+ * level with $2^{\lfloor \log_2 k' \rfloor}$ blocks.
+ *
+ * @param current_k The number of blocks $k'$.
+ *
+ * @return For each block, its ancestor in the last complete level.
+ */
+std::vector<BlockID> compute_parent_blocks(BlockID current_k);
+
+/**
+ * Computes `compute_final_k()` for all blocks of a partition with `current_k` blocks. In contrast
+ * to `compute_final_k()`, `current_k` is not required to be a power of two: partitions computed by
+ * a v-cycle for `current_k` blocks are allowed, too.
+ *
+ * @param current_k The number of blocks in the intermediate partition.
+ * @param input_k The number of blocks in the final partition.
+ *
+ * @return For each block, the number of blocks into which it will be split. Sums to `input_k`.
+ */
+std::vector<BlockID> compute_final_ks(BlockID current_k, BlockID input_k);
+
 BlockID compute_first_sub_block(BlockID block, BlockID current_k, BlockID input_k);
 BlockID compute_first_invalid_sub_block(BlockID block, BlockID current_k, BlockID input_k);
 
-- 
2.43.0


From d18d44f516e5e22392e583f8a1da0435760aff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 67/81] fix: sum up the block weights of v-cycles without
 truncation

---
 kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
index 1365f0a..3546194 100644
--- a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
@@ -35,7 +35,9 @@ std::vector<BlockWeight> compute_max_block_weights(
       const BlockID num_sub_blocks = final_ks[b];
       const BlockID cur_end = cur_begin + num_sub_blocks;
       max_block_weights[b] = std::accumulate(
-          next_block_weights.begin() + cur_begin, next_block_weights.begin() + cur_end, 0
+          next_block_weights.begin() + cur_begin,
+          next_block_weights.begin() + cur_end,
+          static_cast<BlockWeight>(0)
       );
 
       DBG << "block " << b << ": aggregate weight for " << num_sub_blocks << " of "
-- 
2.43.0


From 4926b874035ea3f91b7b6e36a18dc54c4cf8e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 68/81] fix: let the distributed METIS reader start before the
 weight of its first node

---
 apps/io/dist_metis_parser.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 63cf4dd..8bdb36a 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -96,13 +96,15 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    const std::size_t node_position = toker.position();
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
     }
 
     if constexpr (stoppable) {
-      if (next_node_cb(node_weight)) {
+      if (next_node_cb(node_position)) {
         return;
       }
     } else {
@@ -156,7 +158,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const std::size_t node_position) {
         if (current_node < first_node) {
           current_node += 1;
           return false;
@@ -164,7 +166,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
 
         if (current_node < last_node) {
           if (current_node - first_node == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             actual_first_edge = current_edge;
           }
 
@@ -197,7 +199,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const std::size_t node_position) {
         if (current_edge < first_edge) {
           first_node += 1;
           return false;
@@ -205,7 +207,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
 
         if (current_edge < last_edge) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             actual_first_edge = current_edge;
           }
 
@@ -238,7 +240,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const std::size_t node_position) {
         std::size_t memory_space = first_node * sizeof(EdgeID) + current_edge * sizeof(NodeID);
         if (memory_space < memory_space_start) {
           first_node += 1;
@@ -248,7 +250,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
         memory_space += length * sizeof(EdgeID);
         if (memory_space < memory_space_stop) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             first_edge = current_edge;
           }
 
-- 
2.43.0


From a5ae4772de39fdb4869e96cc67c1115058ab8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 69/81] fix: allocate the node weights of compressed graphs for
 the nodes in the distributed METIS reader

---
 apps/io/dist_metis_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 8bdb36a..e4645d7 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -486,7 +486,7 @@ DistributedCompressedGraph compress_read(
 
   StaticArray<NodeWeight> node_weights;
   if (header.has_node_weights) {
-    node_weights.resize(num_local_edges, static_array::noinit);
+    node_weights.resize(num_local_nodes, static_array::noinit);
   }
 
   if (num_local_nodes > 0) {
-- 
2.43.0


From ec63083ae3bbe3fc0e16dcc12cbe8e1905fec552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 70/81] fix: skip node sizes in METIS files in the distributed
 reader

---
 apps/io/dist_metis_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index e4645d7..8f8c77a 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -28,6 +28,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -49,9 +50,9 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
-  const bool has_node_weights = (format % 100) / 10;         // == x1x
-  const bool has_edge_weights = format % 10;                 // == xx1
+  const bool has_node_sizes = format / 100;          // == 1xx
+  const bool has_node_weights = (format % 100) / 10; // == x1x
+  const bool has_edge_weights = format % 10;         // == xx1
 
   if (has_node_sizes) {
     LOG_WARNING << "ignoring node sizes";
@@ -73,6 +74,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -98,6 +100,10 @@ void parse_graph(
 
     const std::size_t node_position = toker.position();
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From 12a986e30fafff0c279af028dbf220249bc48b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 71/81] fix: assign isolated nodes after the last edge to a
 process if edges are balanced

---
 apps/io/dist_metis_parser.cc  | 5 ++++-
 apps/io/dist_parhip_parser.cc | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 8f8c77a..1afd3a9 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -287,7 +287,10 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_local_nodes(
   }
   case GraphDistribution::BALANCED_EDGES: {
     const auto [first_edge, last_edge] = compute_chunks(header.num_edges, size, rank);
-    return find_node_by_edge(toker, header, first_edge, last_edge);
+
+    // The last process also gets the isolated nodes after the last edge
+    const bool is_last = (rank + 1 == size);
+    return find_node_by_edge(toker, header, first_edge, is_last ? last_edge + 1 : last_edge);
   }
   case GraphDistribution::BALANCED_MEMORY_SPACE: {
     const std::size_t total_memory_space =
diff --git a/apps/io/dist_parhip_parser.cc b/apps/io/dist_parhip_parser.cc
index f5d8ebf..73e1733 100644
--- a/apps/io/dist_parhip_parser.cc
+++ b/apps/io/dist_parhip_parser.cc
@@ -162,6 +162,12 @@ std::pair<std::uint64_t, std::uint64_t> find_local_nodes(
 
     const std::uint64_t first_node =
         find_node(num_nodes, num_edges - 1, first_edge, std::forward<Lambda>(fetch_edge));
+
+    // The last process also gets the isolated nodes after the last edge
+    if (rank + 1 == size) {
+      return std::make_pair(first_node, static_cast<std::uint64_t>(num_nodes));
+    }
+
     const std::uint64_t last_node =
         find_node(num_nodes, num_edges - 1, last_edge, std::forward<Lambda>(fetch_edge));
 
-- 
2.43.0


From 43bba11cdbd2ce5ec0e2f192b21877a7870e52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 72/81] fix: count both directions when checking the number of
 edges in the distributed METIS reader

---
 apps/io/dist_metis_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 1afd3a9..672719f 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -67,7 +67,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
       "number of edges is too large for the edge ID type"
   );
   KASSERT(
-      num_edges <= (num_nodes * (num_nodes - 1)) / 2,
+      num_edges <= num_nodes * (num_nodes - 1),
       "specified number of edges is impossibly large"
   );
 
-- 
2.43.0


From 8540d06e4ba26782d3037429e42d36a245a82244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 73/81] fix: include the node of a largest connected component
 without edges

---
 apps/tools/shm_connected_components_tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index b68481d..ec25cde 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -138,6 +138,7 @@ template <typename Graph>
 
   std::stack<NodeID> next_nodes;
   next_nodes.push(initial_node);
+  rank_bitvector.set(initial_node);
   do {
     const NodeID node = next_nodes.top();
     next_nodes.pop();
-- 
2.43.0


From 7d137e66768b469bcaca0ad6dd37d9fa52b4a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 74/81] fix: include flags and missing options in dumped
 configurations of the distributed partitioner

---
 kaminpar-cli/dkaminpar_arguments.cc | 160 ++++++++++++++++------------
 1 file changed, 94 insertions(+), 66 deletions(-)

diff --git a/kaminpar-cli/dkaminpar_arguments.cc b/kaminpar-cli/dkaminpar_arguments.cc
index 4c1f2b9..703d194 100644
--- a/kaminpar-cli/dkaminpar_arguments.cc
+++ b/kaminpar-cli/dkaminpar_arguments.cc
@@ -14,6 +14,11 @@
 
 namespace kaminpar::dist {
 namespace {
+// CLI11 does not capture the current values of flags, i.e., capture_default_str() has no effect
+std::string flag_str(const bool value) {
+  return value ? "true" : "false";
+}
+
 void create_chunks_options(CLI::Option_group *cli, const std::string &prefix, ChunksContext &ctx) {
   cli->add_option(
          prefix + "-total-chunks",
@@ -38,7 +43,7 @@ void create_chunks_options(CLI::Option_group *cli, const std::string &prefix, Ch
          "Scale the number of chunks s.t. the nodes per chunk remains constant regardless of the "
          "number of threads used per MPI process."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.scale_chunks_with_threads));
 }
 } // namespace
 
@@ -79,14 +84,14 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
           ctx.enable_pe_splitting,
           "Enable PE splitting and graph replication in deep MGP"
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.enable_pe_splitting));
   partitioning
       ->add_flag(
           "--simulate-singlethreaded",
           ctx.simulate_singlethread,
           "Simulate single-threaded execution during a hybrid run"
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.simulate_singlethread));
   partitioning->add_option("--rearrange-by", ctx.rearrange_by)
       ->transform(CLI::CheckedTransformer(get_graph_orderings()).description(""))
       ->description(R"(Criteria by which the graph is sorted and rearrange:
@@ -103,13 +108,13 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 
   debug->add_flag("--d-save-coarsest-graph", ctx.debug.save_coarsest_graph)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.save_coarsest_graph));
   debug->add_flag("--d-save-coarsest-partition", ctx.debug.save_coarsest_partition)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.save_coarsest_partition));
   debug->add_flag("--d-print-compression-details", ctx.debug.print_compression_details)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.print_compression_details));
 
   return debug;
 }
@@ -117,9 +122,9 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 CLI::Option_group *create_compression_options(CLI::App *app, Context &ctx) {
   auto *compression = app->add_option_group("Graph Compression");
 
-  compression->add_flag(
-      "-c,--compress", ctx.compression.enabled, "Whether to compress the input graph."
-  );
+  compression
+      ->add_flag("-c,--compress", ctx.compression.enabled, "Whether to compress the input graph.")
+      ->default_str(flag_str(ctx.compression.enabled));
 
   return compression;
 }
@@ -154,7 +159,7 @@ CLI::Option_group *create_refinement_options(CLI::App *app, Context &ctx) {
           ctx.refinement.refine_coarsest_level,
           "Also run the refinement algorithms on the coarsest graph."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.refine_coarsest_level));
 
   create_lp_refinement_options(app, ctx);
   create_colored_lp_refinement_options(app, ctx);
@@ -185,7 +190,7 @@ CLI::Option_group *create_lp_refinement_options(CLI::App *app, Context &ctx) {
   lp->add_flag(
         "--r-lp-ignore-probabilities", ctx.refinement.lp.ignore_probabilities, "Always move nodes."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.lp.ignore_probabilities));
 
   return lp;
 }
@@ -227,9 +232,9 @@ CLI::Option_group *create_colored_lp_refinement_options(CLI::App *app, Context &
         "[commit-strategy=best] Sort move candidates by their relative gain "
         "rather than their absolute gain."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.colored_lp.sort_by_rel_gain));
   lp->add_flag("--r-clp-track-block-weights", ctx.refinement.colored_lp.track_local_block_weights)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.colored_lp.track_local_block_weights));
 
   create_chunks_options(lp, "--r-clp", ctx.refinement.colored_lp.coloring_chunks);
 
@@ -245,11 +250,14 @@ CLI::Option_group *create_colored_lp_refinement_options(CLI::App *app, Context &
         ctx.refinement.colored_lp.only_blacklist_input_level,
         "Only blacklist nodes when refining the input graph."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.colored_lp.only_blacklist_input_level));
 
   lp->add_flag(
-      "--r-clp-active-set", ctx.refinement.colored_lp.use_active_set, "Enable active set strategy."
-  );
+        "--r-clp-active-set",
+        ctx.refinement.colored_lp.use_active_set,
+        "Enable active set strategy."
+  )
+      ->default_str(flag_str(ctx.refinement.colored_lp.use_active_set));
 
   return lp;
 }
@@ -264,7 +272,7 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
           "--r-nb-enable-sequential-balancing",
           ctx.refinement.node_balancer.enable_sequential_balancing
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.node_balancer.enable_sequential_balancing));
   balancer
       ->add_option(
           "--r-nb-seq-nodes-per-block",
@@ -276,7 +284,7 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
       ->add_flag(
           "--r-nb-enable-parallel-balancing", ctx.refinement.node_balancer.enable_parallel_balancing
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.node_balancer.enable_parallel_balancing));
   balancer
       ->add_option(
           "--r-nb-parallel-threshold",
@@ -285,25 +293,29 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
           "this value, e.g., 0.01 for 1%."
       )
       ->capture_default_str();
-  balancer->add_option(
-      "--r-nb-par-num-dicing-attempts", ctx.refinement.node_balancer.par_num_dicing_attempts
-  );
-  balancer->add_flag(
-      "--r-nb-par-accept-imbalanced", ctx.refinement.node_balancer.par_accept_imbalanced_moves
-  );
+  balancer
+      ->add_option(
+          "--r-nb-par-num-dicing-attempts", ctx.refinement.node_balancer.par_num_dicing_attempts
+      )
+      ->capture_default_str();
+  balancer
+      ->add_flag(
+          "--r-nb-par-accept-imbalanced", ctx.refinement.node_balancer.par_accept_imbalanced_moves
+      )
+      ->default_str(flag_str(ctx.refinement.node_balancer.par_accept_imbalanced_moves));
   balancer
       ->add_flag(
           "--r-nb-par-positive-gain-buckets",
           ctx.refinement.node_balancer.par_enable_positive_gain_buckets
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.node_balancer.par_enable_positive_gain_buckets));
   balancer
       ->add_option("--r-nb-par-gain-bucket-base", ctx.refinement.node_balancer.par_gain_bucket_base)
       ->capture_default_str();
   balancer->add_flag("--r-nb-par-partial-buckets", ctx.refinement.node_balancer.par_partial_buckets)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.node_balancer.par_partial_buckets));
   balancer->add_flag("--r-nb-par-update-pq-gains", ctx.refinement.node_balancer.par_update_pq_gains)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.node_balancer.par_update_pq_gains));
   balancer
       ->add_option(
           "--r-nb-par-high-degree-update-interval",
@@ -336,7 +348,7 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
           "--r-cb-enable-sequential-balancing",
           ctx.refinement.cluster_balancer.enable_sequential_balancing
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.cluster_balancer.enable_sequential_balancing));
   balancer
       ->add_option(
           "--r-cb-seq-nodes-per-block",
@@ -349,7 +361,7 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
           "--r-cb-enable-parallel-balancing",
           ctx.refinement.cluster_balancer.enable_parallel_balancing
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.cluster_balancer.enable_parallel_balancing));
   balancer
       ->add_option(
           "--r-cb-parallel-threshold",
@@ -358,18 +370,22 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
           "this value, e.g., 0.01 for 1%."
       )
       ->capture_default_str();
-  balancer->add_option(
-      "--r-cb-par-num-dicing-attempts", ctx.refinement.cluster_balancer.par_num_dicing_attempts
-  );
-  balancer->add_flag(
-      "--r-cb-par-accept-imbalanced", ctx.refinement.cluster_balancer.par_accept_imbalanced
-  );
+  balancer
+      ->add_option(
+          "--r-cb-par-num-dicing-attempts", ctx.refinement.cluster_balancer.par_num_dicing_attempts
+      )
+      ->capture_default_str();
+  balancer
+      ->add_flag(
+          "--r-cb-par-accept-imbalanced", ctx.refinement.cluster_balancer.par_accept_imbalanced
+      )
+      ->default_str(flag_str(ctx.refinement.cluster_balancer.par_accept_imbalanced));
   balancer
       ->add_flag(
           "--r-cb-par-positive-gain-buckets",
           ctx.refinement.cluster_balancer.par_use_positive_gain_buckets
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.cluster_balancer.par_use_positive_gain_buckets));
   balancer
       ->add_option(
           "--r-cb-par-gain-bucket-factor", ctx.refinement.cluster_balancer.par_gain_bucket_factor
@@ -463,22 +479,28 @@ CLI::Option_group *create_coarsening_options(CLI::App *app, Context &ctx) {
   - hem-lp:         heavy edge matching + label propagation)")
 
       ->capture_default_str();
-  coarsening->add_option(
-      "--c-max-cnode-imbalance",
-      ctx.coarsening.max_cnode_imbalance,
-      "Maximum coarse node imbalance before rebalancing cluster assignment."
-  );
-  coarsening->add_flag(
-      "--c-migrate-cnode-prefix",
-      ctx.coarsening.migrate_cnode_prefix,
-      "Migrate the first few nodes of overloaded PEs rather than the last few."
-  );
-  coarsening->add_flag(
-      "--c-force-perfect-cnode-balance",
-      ctx.coarsening.force_perfect_cnode_balance,
-      "If imbalance threshold is exceeded, migrate nodes until perfectly "
-      "balanced."
-  );
+  coarsening
+      ->add_option(
+          "--c-max-cnode-imbalance",
+          ctx.coarsening.max_cnode_imbalance,
+          "Maximum coarse node imbalance before rebalancing cluster assignment."
+      )
+      ->capture_default_str();
+  coarsening
+      ->add_flag(
+          "--c-migrate-cnode-prefix",
+          ctx.coarsening.migrate_cnode_prefix,
+          "Migrate the first few nodes of overloaded PEs rather than the last few."
+      )
+      ->default_str(flag_str(ctx.coarsening.migrate_cnode_prefix));
+  coarsening
+      ->add_flag(
+          "--c-force-perfect-cnode-balance",
+          ctx.coarsening.force_perfect_cnode_balance,
+          "If imbalance threshold is exceeded, migrate nodes until perfectly "
+          "balanced."
+      )
+      ->default_str(flag_str(ctx.coarsening.force_perfect_cnode_balance));
 
   create_global_lp_coarsening_options(app, ctx);
   create_local_lp_coarsening_options(app, ctx);
@@ -508,11 +530,16 @@ CLI::Option_group *create_global_lp_coarsening_options(CLI::App *app, Context &c
         "nodes."
   )
       ->capture_default_str();
-  lp->add_flag("--c-glp-sync-cluster-weights", ctx.coarsening.global_lp.sync_cluster_weights);
-  lp->add_flag("--c-glp-enforce-cluster-weights", ctx.coarsening.global_lp.enforce_cluster_weights);
-  lp->add_flag("--c-glp-cheap-toplevel", ctx.coarsening.global_lp.cheap_toplevel);
-  lp->add_flag("--c-glp-prevent-cyclic-moves", ctx.coarsening.global_lp.prevent_cyclic_moves);
-  lp->add_flag("--c-glp-enforce-legacy-weight", ctx.coarsening.global_lp.enforce_legacy_weight);
+  lp->add_flag("--c-glp-sync-cluster-weights", ctx.coarsening.global_lp.sync_cluster_weights)
+      ->default_str(flag_str(ctx.coarsening.global_lp.sync_cluster_weights));
+  lp->add_flag("--c-glp-enforce-cluster-weights", ctx.coarsening.global_lp.enforce_cluster_weights)
+      ->default_str(flag_str(ctx.coarsening.global_lp.enforce_cluster_weights));
+  lp->add_flag("--c-glp-cheap-toplevel", ctx.coarsening.global_lp.cheap_toplevel)
+      ->default_str(flag_str(ctx.coarsening.global_lp.cheap_toplevel));
+  lp->add_flag("--c-glp-prevent-cyclic-moves", ctx.coarsening.global_lp.prevent_cyclic_moves)
+      ->default_str(flag_str(ctx.coarsening.global_lp.prevent_cyclic_moves));
+  lp->add_flag("--c-glp-enforce-legacy-weight", ctx.coarsening.global_lp.enforce_legacy_weight)
+      ->default_str(flag_str(ctx.coarsening.global_lp.enforce_legacy_weight));
 
   return lp;
 }
@@ -529,13 +556,13 @@ CLI::Option_group *create_local_lp_coarsening_options(CLI::App *app, Context &ct
         ctx.coarsening.local_lp.ignore_ghost_nodes,
         "Ignore ghost nodes for cluster rating."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.local_lp.ignore_ghost_nodes));
   lp->add_flag(
         "--c-llp-keep-ghost-clusters",
         ctx.coarsening.local_lp.keep_ghost_clusters,
         "Keep clusters of ghost clusters and remap them to local cluster IDs."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.local_lp.keep_ghost_clusters));
 
   return lp;
 }
@@ -557,12 +584,13 @@ CLI::Option_group *create_hem_coarsening_options(CLI::App *app, Context &ctx) {
         ctx.coarsening.hem.only_blacklist_input_level,
         "Only blacklist nodes when refining the input graph."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.hem.only_blacklist_input_level));
   lp->add_flag(
-      "--c-hem-ignore-weight-limit",
-      ctx.coarsening.hem.ignore_weight_limit,
-      "Ignore cluster weight limit."
-  );
+        "--c-hem-ignore-weight-limit",
+        ctx.coarsening.hem.ignore_weight_limit,
+        "Ignore cluster weight limit."
+  )
+      ->default_str(flag_str(ctx.coarsening.hem.ignore_weight_limit));
 
   return lp;
 }
@@ -590,7 +618,7 @@ CLI::Option_group *create_jet_refinement_options(CLI::App *app, Context &ctx) {
   jet->add_flag(
          "--r-jet-dynamic-negative-gain-factor", ctx.refinement.jet.dynamic_negative_gain_factor
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.jet.dynamic_negative_gain_factor));
 
   jet->add_option(
          "--r-jet-coarse-negative-gain-factor", ctx.refinement.jet.coarse_negative_gain_factor
@@ -630,7 +658,7 @@ CLI::Option_group *create_mtkahypar_refinement_options(CLI::App *app, Context &c
       ->add_option("--r-mtkahypar-config-coarse", ctx.refinement.mtkahypar.coarse_config_filename)
       ->capture_default_str();
   mtkahypar->add_flag("--r-mtkahypar-only-run-on-root", ctx.refinement.mtkahypar.only_run_on_root)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.mtkahypar.only_run_on_root));
 
   return mtkahypar;
 }
-- 
2.43.0


From 9defc80d78e011de1e60502bbfe85e9ceb6b814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 75/81] fix: do not use -C for both the configuration file and
 the contraction limit

---
 kaminpar-cli/dkaminpar_arguments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-cli/dkaminpar_arguments.cc b/kaminpar-cli/dkaminpar_arguments.cc
index 703d194..4251778 100644
--- a/kaminpar-cli/dkaminpar_arguments.cc
+++ b/kaminpar-cli/dkaminpar_arguments.cc
@@ -438,7 +438,7 @@ CLI::Option_group *create_coarsening_options(CLI::App *app, Context &ctx) {
 
   coarsening
       ->add_option(
-          "-C,--c-contraction-limit", ctx.coarsening.contraction_limit, "Contraction limit."
+          "--c-contraction-limit", ctx.coarsening.contraction_limit, "Contraction limit."
       )
       ->capture_default_str();
   coarsening
-- 
2.43.0


From cdfeafd05c478a74de0eb9686463b5e39c5796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 76/81] fix: list all presets of the distributed partitioner

---
 kaminpar-dist/presets.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kaminpar-dist/presets.cc b/kaminpar-dist/presets.cc
index 09812ec..fdff7c6 100644
--- a/kaminpar-dist/presets.cc
+++ b/kaminpar-dist/presets.cc
@@ -34,7 +34,10 @@ Context create_context_by_preset_name(const std::string &name) {
 std::unordered_set<std::string> get_preset_names() {
   return {
       "default",
+      "fast",
       "strong",
+      "4xjet",
+      "jet",
       "europar23-fast",
       "europar23-strong",
   };
-- 
2.43.0


From 16252d2147c820e84520838d7e4d956226dcb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 77/81] fix: describe the accepted partitioning modes of the
 distributed partitioner

---
 kaminpar-cli/dkaminpar_arguments.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kaminpar-cli/dkaminpar_arguments.cc b/kaminpar-cli/dkaminpar_arguments.cc
index 4251778..5eaac7f 100644
--- a/kaminpar-cli/dkaminpar_arguments.cc
+++ b/kaminpar-cli/dkaminpar_arguments.cc
@@ -74,9 +74,8 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
   partitioning->add_option("-m,--mode", ctx.mode)
       ->transform(CLI::CheckedTransformer(get_partitioning_modes()).description(""))
       ->description(R"(Partitioning scheme, possible options are:
-  - deep: distributed deep multilevel graph partitioning
-  - deeper: distributed deep multilevel graph partitioning with optional PE splitting and graph replication
-  - kway: direct k-way multilevel graph partitioning)")
+  - multilevel/deep: distributed deep multilevel graph partitioning
+  - multilevel/kway: direct k-way multilevel graph partitioning)")
       ->capture_default_str();
   partitioning
       ->add_flag(
-- 
2.43.0


From 77de6bb9a92fcfee2e34327d3046e52fee970ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 78/81] fix: include the preset in dumped configurations of the
 distributed partitioner

---
 apps/dKaMinPar.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/dKaMinPar.cc b/apps/dKaMinPar.cc
index 6cbae51..273f89f 100644
--- a/apps/dKaMinPar.cc
+++ b/apps/dKaMinPar.cc
@@ -52,6 +52,7 @@ std::unordered_map<std::string, IOKind> get_io_kinds() {
 }
 
 struct ApplicationContext {
+  std::string preset = "default";
   bool dump_config = false;
   bool show_version = false;
 
@@ -91,7 +92,10 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
   cli.set_config("-C,--config", "", "Read parameters from a TOML configuration file.", false);
   cli.add_option_function<std::string>(
          "-P,--preset",
-         [&](const std::string preset) { ctx = create_context_by_preset_name(preset); }
+         [&](const std::string preset) {
+           ctx = create_context_by_preset_name(preset);
+           app.preset = preset;
+         }
   )
       ->check(CLI::IsMember(get_preset_names()))
       ->description(R"(Use configuration preset:
@@ -471,6 +475,8 @@ int main(int argc, char *argv[]) {
   if (app.dump_config) {
     root_run_and_exit([&] {
       CLI::App dump;
+      // Not all settings of a preset can be set by other options
+      dump.add_option("-P,--preset", app.preset)->capture_default_str();
       create_all_options(&dump, ctx);
       std::cout << dump.config_to_str(true, true);
     });
-- 
2.43.0


From 7e2a001d814c85eb8c067b1d85232ca0a60268e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 79/81] fix: return the best partition if the distributed
 partitioner runs several times

---
 apps/dKaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/dKaMinPar.cc b/apps/dKaMinPar.cc
index 273f89f..99ed11b 100644
--- a/apps/dKaMinPar.cc
+++ b/apps/dKaMinPar.cc
@@ -456,6 +456,8 @@ void run_partitioner(
     LOG << "Avg. cut:  " << avg_cut;
     LOG << "Best cut:  " << best_cut;
   });
+
+  std::swap(best_partition, partition);
 }
 
 } // namespace
-- 
2.43.0


From 4a89b929ad27bc790f92e49f0f1f373cbd9224cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 80/81] fix: do not treat uncompressed graphs as compressed
 graphs and vice versa

---
 kaminpar-shm/kaminpar.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 7d36a4e..9720ca3 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -321,6 +321,9 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
   cio::print_build_datatypes<NodeID, EdgeID, NodeWeight, EdgeWeight>();
   cio::print_delimiter("Input Summary", '#');
 
+  // Compression only depends on the graph passed to the partitioner
+  _ctx.compression.enabled =
+      dynamic_cast<const CompressedGraph *>(_graph_ptr->underlying_graph()) != nullptr;
   _ctx.compression.setup(*_graph_ptr);
   _ctx.parallel.num_threads = _num_threads;
 
-- 
2.43.0


From 851b88a867aa86e511869f10a2ca47fd26b7b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 81/81] fix: do not treat uncompressed distributed graphs as
 compressed graphs and vice versa

---
 kaminpar-dist/dkaminpar.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index 8507d92..fc56f80 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -306,6 +306,9 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
   _ctx.initial_partitioning.kaminpar.parallel.num_threads = _ctx.parallel.num_threads;
   _ctx.partition.k = k;
   _ctx.partition.graph = std::make_unique<GraphContext>(graph, _ctx.partition);
+  // Compression only depends on the graph passed to the partitioner
+  _ctx.compression.enabled =
+      dynamic_cast<const DistributedCompressedGraph *>(_graph_ptr->underlying_graph()) != nullptr;
   if (_ctx.compression.enabled) {
     _ctx.compression.setup(_graph_ptr->compressed_graph());
   }
-- 
2.43.0

