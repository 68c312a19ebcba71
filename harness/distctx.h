// Random configurations of the distributed partitioner
#pragma once
#include "distgen.h"
#include "kaminpar-dist/presets.h"

namespace dist_pbt {
struct DistConf {
  kd::Context ctx = kd::create_default_context();
  std::string name;
};
inline void gen_chunks(Gen &g, kd::ChunksContext &c) {
  c.fixed_num_chunks = g.weighted({1, 1}) ? g.range(1, 9) : 0;
  c.min_num_chunks = g.range(1, 8);
}
inline kd::RefinementAlgorithm gen_refiner(Gen &g) {
  using R = kd::RefinementAlgorithm;
  return g.pick(std::vector<R>{R::BATCHED_LP_REFINER, R::HYBRID_NODE_BALANCER, R::JET_REFINER, R::COLORED_LP_REFINER, R::NOOP});
}
inline void gen_lp_coarsening(Gen &g, kd::LabelPropagationCoarseningContext &lp, std::string &name) {
  switch (g.draw(13)) {
  case 0: lp.num_iterations = g.range(1, 8); name += ",c-iterations"; break;
  case 1: lp.passive_high_degree_threshold = g.pick(std::vector<int>{1, 3, 20}); name += ",c-passive-degree"; break;
  case 2: lp.active_high_degree_threshold = g.pick(std::vector<int>{1, 3, 20}); name += ",c-active-degree"; break;
  case 3: lp.max_num_neighbors = g.pick(std::vector<int>{1, 3, 10}); name += ",c-max-neighbors"; break;
  case 4: lp.merge_singleton_clusters = g.flip(); name += ",c-merge-singletons"; break;
  case 5: lp.merge_nonadjacent_clusters_threshold = g.pick(std::vector<double>{0.0, 0.9, 1.0}); name += ",c-merge-threshold"; break;
  case 6: lp.sync_cluster_weights = g.flip(); name += ",c-sync"; break;
  case 7: lp.enforce_cluster_weights = g.flip(); name += ",c-enforce"; break;
  case 8: lp.cheap_toplevel = true; name += ",c-cheap"; break;
  case 9: lp.prevent_cyclic_moves = true; name += ",c-acyclic"; break;
  case 10: lp.enforce_legacy_weight = true; name += ",c-legacy"; break;
  case 11: lp.ignore_ghost_nodes = true; name += ",c-ignore-ghosts"; break;
  case 12: gen_chunks(g, lp.chunks); name += ",c-chunks"; break;
  }
}
inline void gen_refinement_override(Gen &g, kd::RefinementContext &r, std::string &name) {
  using kd::RefinementAlgorithm;
  switch (g.draw(15)) {
  case 0: r.lp.num_iterations = g.range(1, 9); name += ",lp-iterations"; break;
  case 1: gen_chunks(g, r.lp.chunks); name += ",lp-chunks"; break;
  case 2: r.lp.ignore_probabilities = g.flip(); r.lp.num_move_attempts = g.range(1, 3); name += ",lp-prob"; break;
  case 3: r.lp.active_high_degree_threshold = g.pick(std::vector<int>{1, 5}); name += ",lp-degree"; break;
  case 4:
    r.colored_lp.move_execution_strategy = g.pick(std::vector<kd::LabelPropagationMoveExecutionStrategy>{kd::LabelPropagationMoveExecutionStrategy::PROBABILISTIC, kd::LabelPropagationMoveExecutionStrategy::BEST_MOVES, kd::LabelPropagationMoveExecutionStrategy::LOCAL_MOVES});
    name += ",clp-strategy";
    break;
  case 5: gen_chunks(g, r.colored_lp.coloring_chunks); r.colored_lp.num_move_execution_iterations = g.range(1, 3); name += ",clp-chunks"; break;
  case 6: r.colored_lp.use_active_set = true; name += ",clp-active"; break;
  case 7: r.colored_lp.track_local_block_weights = false; r.colored_lp.sort_by_rel_gain = g.flip(); name += ",clp-track"; break;
  case 8: r.node_balancer.seq_num_nodes_per_block = g.range(1, 20); name += ",nb-nodes"; break;
  case 9: r.node_balancer.par_threshold = g.pick(std::vector<double>{0.0, 0.5, 10.0}); name += ",nb-par"; break;
  case 10: r.node_balancer.par_num_dicing_attempts = g.range(0, 3); r.node_balancer.par_accept_imbalanced_moves = g.flip(); name += ",nb-dice"; break;
  case 11: r.node_balancer.par_enable_positive_gain_buckets = g.flip(); r.node_balancer.par_partial_buckets = g.flip(); r.node_balancer.par_gain_bucket_base = g.pick(std::vector<double>{1.1, 1.5, 2}); name += ",nb-buckets"; break;
  case 12: r.jet.num_iterations = g.range(1, 20); name += ",jet-iterations"; break;
  case 13: r.jet.num_coarse_rounds = g.range(1, 3); r.jet.num_fine_rounds = g.range(1, 3); r.jet.dynamic_negative_gain_factor = g.flip(); name += ",jet-rounds"; break;
  case 14: r.jet.num_fruitless_iterations = g.range(1, 5); name += ",jet-fruitless"; break;
  }
}

// The best moves strategy of the coloured label propagation supports powers of two only (and says so)
inline void fit_to(kd::RefinementContext &r, int P) {
  using S = kd::LabelPropagationMoveExecutionStrategy;
  if ((P & (P - 1)) != 0 && r.colored_lp.move_execution_strategy == S::BEST_MOVES) r.colored_lp.move_execution_strategy = P % 2 ? S::LOCAL_MOVES : S::PROBABILISTIC;
  if (r.colored_lp.move_execution_strategy == S::LOCAL_MOVES) r.colored_lp.track_local_block_weights = true; // required (and checked)
}
inline DistConf gen_dist_conf(Gen &g, int P, bool overrides = true) {
  using namespace kaminpar::dist;
  DistConf c;
  c.name = g.pick(std::vector<std::string>{"default", "strong", "jet", "europar23-fast"});
  c.ctx = create_context_by_preset_name(c.name);
  g.label("preset:" + c.name);
  if (g.chance(3, 4)) {
    c.ctx.coarsening.contraction_limit = g.pick(std::vector<int>{1, 2, 5, 10, 20, 40, 100});
    c.name += ",C=" + std::to_string(c.ctx.coarsening.contraction_limit);
  }
  if (overrides) {
    for (int i = g.weighted({3, 3, 2, 2, 1}); i > 0; --i) {
      switch (g.draw(22)) {
      case 20: c.ctx.coarsening.global_clustering_algorithm = ClusteringAlgorithm::GLOBAL_HEM; c.ctx.coarsening.hem.small_color_blacklist = g.pick(std::vector<double>{0.0, 0.3}); c.name += ",hem"; break;
      case 21: c.ctx.coarsening.global_clustering_algorithm = ClusteringAlgorithm::GLOBAL_HEM_LP; c.name += ",hem-lp"; break;
      case 0: c.ctx.mode = PartitioningMode::KWAY; c.name += ",kway"; break;
      case 1: c.ctx.partition.K = g.pick(std::vector<int>{2, 4, 8}); c.name += ",K=" + std::to_string(c.ctx.partition.K); break;
      case 2: c.ctx.simulate_singlethread = false; c.name += ",no-simulate"; break;
      case 3: c.ctx.enable_pe_splitting = false; c.name += ",no-split"; break;
      case 4: c.ctx.rearrange_by = GraphOrdering::NATURAL; c.name += ",natural"; break;
      case 5: c.ctx.rearrange_by = GraphOrdering::COLORING; c.name += ",by-colour"; break;
      case 6: case 7: c.ctx.coarsening.max_global_clustering_levels = g.range(0, 4); c.ctx.coarsening.max_local_clustering_levels = g.range(0, 3); c.name += ",levels=" + std::to_string(c.ctx.coarsening.max_global_clustering_levels) + "+" + std::to_string(c.ctx.coarsening.max_local_clustering_levels); break;
      case 8: c.ctx.coarsening.global_clustering_algorithm = ClusteringAlgorithm::GLOBAL_NOOP; c.name += ",no-clustering"; break;
      case 9: c.ctx.initial_partitioning.algorithm = InitialPartitioningAlgorithm::RANDOM; c.name += ",random-ip"; break;
      case 10: case 11: {
        auto &a = c.ctx.refinement.algorithms;
        a.clear();
        a.push_back(RefinementAlgorithm::HYBRID_NODE_BALANCER);
        c.name += ",refinement=";
        for (u64 x = 1 + g.draw(2); x > 0; --x) {
          a.push_back(gen_refiner(g));
          c.name += std::to_string((int)a.back());
        }
        a.push_back(RefinementAlgorithm::HYBRID_NODE_BALANCER);
        break;
      }
      case 12: c.ctx.refinement.refine_coarsest_level = true; c.name += ",refine-coarsest"; break;
      case 13: c.ctx.coarsening.max_cnode_imbalance = g.pick(std::vector<double>{1.0, 1.01, 2.0, 100.0}); c.name += ",cnode-imbalance"; break;
      case 14: c.ctx.coarsening.migrate_cnode_prefix = g.flip(); c.ctx.coarsening.force_perfect_cnode_balance = g.flip(); c.name += ",cnode-migration"; break;
      case 15: c.ctx.coarsening.cluster_weight_limit = g.pick(std::vector<kaminpar::shm::ClusterWeightLimit>{kaminpar::shm::ClusterWeightLimit::BLOCK_WEIGHT, kaminpar::shm::ClusterWeightLimit::ONE, kaminpar::shm::ClusterWeightLimit::ZERO}); c.name += ",cluster-limit"; break;
      case 16: case 17: gen_lp_coarsening(g, c.ctx.coarsening.global_lp, c.name); break;
      case 18: case 19: gen_refinement_override(g, c.ctx.refinement, c.name); break;
      }
    }
  }
  fit_to(c.ctx.refinement, P);
  return c;
}
} // namespace dist_pbt
