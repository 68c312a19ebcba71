// Random partitioner configurations: a preset plus a few of the overrides the CLI offers.
#pragma once
#include "shmgen.h"

namespace pbt {
struct Conf {
  shm::Context ctx;
  std::string name;
  bool compress = false;
};

// balancing: only configurations whose top level runs unrestricted k-way balancing
inline Conf gen_conf(Gen &g, bool overrides = true, bool balancing = false) {
  using namespace kaminpar::shm;
  static const std::vector<std::string> presets = {
      "default", "fast", "strong", "fm", "largek", "largek-fast", "largek-strong", "terapart", "terapart-strong",
      "terapart-largek", "jet", "4xjet", "vcycle", "noref", "restricted-vcycle"};
  Conf c;
  c.name = presets[g.draw(presets.size() - (balancing ? 2 : 0))];
  c.ctx = create_context_by_preset_name(c.name);
  g.label("preset:" + c.name);
  if (overrides) {
    // Small graphs only exercise several levels with a small contraction limit.
    if (g.chance(2, 3)) {
      const NodeID l = g.pick<NodeID>({1, 2, 5, 10, 20, 40, 100, 400});
      c.ctx.coarsening.contraction_limit = l;
      c.name += ",C=" + std::to_string(l);
    }
    const int n = g.weighted({3, 3, 2, 2, 1});
    for (int i = 0; i < n; ++i) {
      auto &cl = c.ctx.coarsening.clustering;
      auto &con = c.ctx.coarsening.contraction;
      auto &p = c.ctx.partitioning;
      switch (g.draw(24)) {
      case 0: c.ctx.node_ordering = NodeOrdering::NATURAL; c.name += ",node-order=natural"; break;
      case 1: c.ctx.node_ordering = NodeOrdering::DEGREE_BUCKETS; c.name += ",node-order=deg"; break;
      case 2: c.ctx.edge_ordering = EdgeOrdering::COMPRESSION; c.name += ",edge-order=compression"; break;
      case 3: con.algorithm = g.pick({ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE}); c.name += ",contraction=" + std::to_string((int)con.algorithm); break;
      case 4: con.unbuffered_implementation = g.pick({ContractionImplementation::SINGLE_PHASE, ContractionImplementation::TWO_PHASE, ContractionImplementation::GROWING_HASH_TABLES}); c.name += ",contraction-impl=" + std::to_string((int)con.unbuffered_implementation); break;
      case 5: con.edge_buffer_fill_fraction = g.pick({0.01, 0.1, 0.5, 1.0}); con.algorithm = ContractionAlgorithm::BUFFERED; c.name += ",fill"; break;
      case 6: cl.lp.impl = g.pick({LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES}); c.name += ",c-lp-impl=" + std::to_string((int)cl.lp.impl); break;
      case 7: cl.lp.two_hop_strategy = g.pick({TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE}); c.name += ",two-hop=" + std::to_string((int)cl.lp.two_hop_strategy); break;
      case 8: cl.lp.isolated_nodes_strategy = g.pick({IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH, IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP, IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP}); c.name += ",isolated=" + std::to_string((int)cl.lp.isolated_nodes_strategy); break;
      case 9: cl.lp.tie_breaking_strategy = g.pick({TieBreakingStrategy::GEOMETRIC, TieBreakingStrategy::UNIFORM}); c.name += ",c-ties"; break;
      case 10: cl.lp.large_degree_threshold = g.pick<NodeID>({1, 5, 20}); c.name += ",c-large-deg"; break;
      case 11: cl.lp.max_num_neighbors = g.pick<NodeID>({1, 3, 10}); c.name += ",c-max-neighbors"; break;
      case 12: p.mode = g.pick({PartitioningMode::DEEP, PartitioningMode::KWAY, balancing ? PartitioningMode::DEEP : PartitioningMode::RB}); c.name += ",mode=" + std::to_string((int)p.mode); break;
      case 13: p.deep_initial_partitioning_mode = g.pick({InitialPartitioningMode::SEQUENTIAL, InitialPartitioningMode::ASYNCHRONOUS_PARALLEL, InitialPartitioningMode::SYNCHRONOUS_PARALLEL}); c.name += ",ip-mode=" + std::to_string((int)p.deep_initial_partitioning_mode); break;
      case 14: p.use_lazy_subgraph_memory = g.flip(); c.name += ",lazy-subgraphs=" + std::to_string(p.use_lazy_subgraph_memory); break;
      case 15: p.refine_after_extending_partition = true; c.name += ",refine-after-extending"; break;
      case 16: p.min_consecutive_seq_bipartitioning_levels = g.range(0, 3); c.name += ",min-seq-levels=" + std::to_string(p.min_consecutive_seq_bipartitioning_levels); break;
      case 17: {
        auto &a = c.ctx.refinement.algorithms;
        const std::vector<RefinementAlgorithm> all = {RefinementAlgorithm::GREEDY_BALANCER, RefinementAlgorithm::LABEL_PROPAGATION, RefinementAlgorithm::KWAY_FM, RefinementAlgorithm::JET};
        a.clear();
        a.push_back(RefinementAlgorithm::GREEDY_BALANCER);
        for (u64 x = g.draw(3); x > 0; --x) a.push_back(g.pick(all));
        a.push_back(RefinementAlgorithm::GREEDY_BALANCER);
        c.name += ",r-algorithms=";
        for (auto x : a) c.name += std::to_string((int)x);
        break;
      }
      case 18: c.ctx.refinement.kway_fm.gain_cache_strategy = g.pick({GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE, GainCacheStrategy::HASHING, GainCacheStrategy::DENSE, GainCacheStrategy::ON_THE_FLY}); c.name += ",gc=" + std::to_string((int)c.ctx.refinement.kway_fm.gain_cache_strategy); break;
      case 19: cl.cluster_weight_limit = g.pick({ClusterWeightLimit::EPSILON_BLOCK_WEIGHT, ClusterWeightLimit::BLOCK_WEIGHT, ClusterWeightLimit::ONE, ClusterWeightLimit::ZERO}); c.name += ",cwl=" + std::to_string((int)cl.cluster_weight_limit); break;
      case 20: c.ctx.initial_partitioning.refinement.disabled = true; c.name += ",i-r-disable"; break;
      case 21: cl.shrink_factor = g.pick({1.5, 2.0, 4.0}); c.name += ",shrink"; break;
      case 23: p.mode = PartitioningMode::VCYCLE; c.name += ",mode=vcycle"; break;
      case 22: cl.forced_kc_level = g.flip(); cl.forced_pc_level = !cl.forced_kc_level; c.name += cl.forced_kc_level ? ",forced-kc" : ",forced-pc"; break;
      }
    }
  }
  c.compress = c.ctx.compression.enabled;
  if (!c.compress && g.chance(1, 8)) {
    c.compress = c.ctx.compression.enabled = true;
    c.name += ",compress";
  }
  if (g.chance(1, 10)) { // the setting does not have to match the graph
    c.ctx.compression.enabled = !c.compress;
    c.name += c.compress ? ",not-compressed" : ",as-compressed";
    g.label("compression setting differs");
  }
  return c;
}

// Numbers of blocks for the v-cycles that precede the final one; the steps ascend to k, possibly repeating it.
inline void gen_vcycles(Gen &g, Conf &c, const shm::BlockID k) {
  if (c.ctx.partitioning.mode != shm::PartitioningMode::VCYCLE || !g.chance(4, 5)) return;
  auto &steps = c.ctx.partitioning.vcycles;
  c.name += ",vcycles=";
  for (u64 i = g.range(1, 3); i > 0; --i) {
    steps.push_back(g.chance(1, 3) ? k : g.range(2, std::max<u64>(2, k)));
  }
  std::sort(steps.begin(), steps.end());
  for (const auto s : steps) c.name += std::to_string(s) + "/";
  g.label("vcycle-steps:" + std::to_string(steps.size()));
}
} // namespace pbt
