# written by tools/closure.py
set(SUBSET_cluster
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_codecs
  )
set(SUBSET_codecs_fast
  )
set(SUBSET_compress
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/timer.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc)
set(SUBSET_compress_plain
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc)
set(SUBSET_compress_svb
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc)
set(SUBSET_config
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  apps/io/shm_compressed_graph_binary.cc
  apps/io/shm_input_validator.cc
  apps/io/shm_io.cc
  apps/io/shm_metis_parser.cc
  apps/io/shm_parhip_parser.cc
  apps/version.cc
  kaminpar-cli/kaminpar_arguments.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_containers
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc)
set(SUBSET_contract
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_dist_cli
  kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-dist/refinement/lp/clp_refiner.cc
  kaminpar-dist/refinement/lp/lp_refiner.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  apps/io/dist_io.cc
  apps/io/dist_metis_parser.cc
  apps/io/dist_parhip_parser.cc
  apps/version.cc
  kaminpar-cli/dkaminpar_arguments.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/coarsening/global_cluster_coarsener.cc
  kaminpar-dist/context.cc
  kaminpar-dist/context_io.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/debug.cc
  kaminpar-dist/dkaminpar.cc
  kaminpar-dist/factories.cc
  kaminpar-dist/graphutils/rearrangement.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/random_initial_partitioner.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/partitioning/deep_multilevel.cc
  kaminpar-dist/partitioning/kway_multilevel.cc
  kaminpar-dist/partitioning/utilities.cc
  kaminpar-dist/presets.cc
  kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-dist/refinement/balancer/cluster_balancer.cc
  kaminpar-dist/refinement/balancer/clusters.cc
  kaminpar-dist/refinement/balancer/node_balancer.cc
  kaminpar-dist/refinement/jet/jet_refiner.cc
  kaminpar-dist/refinement/multi_refiner.cc
  kaminpar-dist/refinement/noop_refiner.cc
  kaminpar-dist/refinement/snapshooter.cc
  kaminpar-dist/timer.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_dist_cluster
  kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-dist/refinement/lp/clp_refiner.cc
  kaminpar-dist/refinement/lp/lp_refiner.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-dist/algorithms/border_nodes.cc
  kaminpar-dist/algorithms/independent_set.cc
  kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/coarsening/global_cluster_coarsener.cc
  kaminpar-dist/context.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/debug.cc
  kaminpar-dist/factories.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/random_initial_partitioner.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/partitioning/deep_multilevel.cc
  kaminpar-dist/partitioning/kway_multilevel.cc
  kaminpar-dist/partitioning/utilities.cc
  kaminpar-dist/presets.cc
  kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-dist/refinement/balancer/cluster_balancer.cc
  kaminpar-dist/refinement/balancer/clusters.cc
  kaminpar-dist/refinement/balancer/node_balancer.cc
  kaminpar-dist/refinement/jet/jet_refiner.cc
  kaminpar-dist/refinement/multi_refiner.cc
  kaminpar-dist/refinement/noop_refiner.cc
  kaminpar-dist/refinement/snapshooter.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_dist_comm
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/timer.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-mpi/grid_topology.cc)
set(SUBSET_dist_conf
  kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-dist/refinement/lp/clp_refiner.cc
  kaminpar-dist/refinement/lp/lp_refiner.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  apps/io/dist_io.cc
  apps/io/dist_metis_parser.cc
  apps/io/dist_parhip_parser.cc
  apps/version.cc
  kaminpar-cli/dkaminpar_arguments.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/coarsening/global_cluster_coarsener.cc
  kaminpar-dist/context.cc
  kaminpar-dist/context_io.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/debug.cc
  kaminpar-dist/dkaminpar.cc
  kaminpar-dist/factories.cc
  kaminpar-dist/graphutils/rearrangement.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/random_initial_partitioner.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/partitioning/deep_multilevel.cc
  kaminpar-dist/partitioning/kway_multilevel.cc
  kaminpar-dist/partitioning/utilities.cc
  kaminpar-dist/presets.cc
  kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-dist/refinement/balancer/cluster_balancer.cc
  kaminpar-dist/refinement/balancer/clusters.cc
  kaminpar-dist/refinement/balancer/node_balancer.cc
  kaminpar-dist/refinement/jet/jet_refiner.cc
  kaminpar-dist/refinement/multi_refiner.cc
  kaminpar-dist/refinement/noop_refiner.cc
  kaminpar-dist/refinement/snapshooter.cc
  kaminpar-dist/timer.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_dist_contract
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/timer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-mpi/grid_topology.cc)
set(SUBSET_dist_e2e
  kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-dist/refinement/lp/clp_refiner.cc
  kaminpar-dist/refinement/lp/lp_refiner.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/coarsening/global_cluster_coarsener.cc
  kaminpar-dist/context.cc
  kaminpar-dist/context_io.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/debug.cc
  kaminpar-dist/dkaminpar.cc
  kaminpar-dist/factories.cc
  kaminpar-dist/graphutils/rearrangement.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/random_initial_partitioner.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/partitioning/deep_multilevel.cc
  kaminpar-dist/partitioning/kway_multilevel.cc
  kaminpar-dist/partitioning/utilities.cc
  kaminpar-dist/presets.cc
  kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-dist/refinement/balancer/cluster_balancer.cc
  kaminpar-dist/refinement/balancer/clusters.cc
  kaminpar-dist/refinement/balancer/node_balancer.cc
  kaminpar-dist/refinement/jet/jet_refiner.cc
  kaminpar-dist/refinement/multi_refiner.cc
  kaminpar-dist/refinement/noop_refiner.cc
  kaminpar-dist/refinement/snapshooter.cc
  kaminpar-dist/timer.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_dist_extract
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/timer.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/metrics.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc)
set(SUBSET_dist_graph
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/timer.cc
  kaminpar-dist/context.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/graphutils/rearrangement.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/presets.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/presets.cc)
set(SUBSET_dist_io
  apps/io/dist_io.cc
  apps/io/dist_metis_parser.cc
  apps/io/dist_parhip_parser.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/timer.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-mpi/grid_topology.cc)
set(SUBSET_dist_refine
  kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
  kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-dist/refinement/lp/clp_refiner.cc
  kaminpar-dist/refinement/lp/lp_refiner.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-dist/graphutils/subgraph_extractor.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
  kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
  kaminpar-dist/coarsening/global_cluster_coarsener.cc
  kaminpar-dist/context.cc
  kaminpar-dist/datastructures/distributed_compressed_graph.cc
  kaminpar-dist/datastructures/distributed_csr_graph.cc
  kaminpar-dist/datastructures/distributed_graph.cc
  kaminpar-dist/datastructures/distributed_partitioned_graph.cc
  kaminpar-dist/debug.cc
  kaminpar-dist/factories.cc
  kaminpar-dist/graphutils/replicator.cc
  kaminpar-dist/graphutils/synchronization.cc
  kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc
  kaminpar-dist/initial_partitioning/random_initial_partitioner.cc
  kaminpar-dist/metrics.cc
  kaminpar-dist/partitioning/deep_multilevel.cc
  kaminpar-dist/partitioning/kway_multilevel.cc
  kaminpar-dist/partitioning/utilities.cc
  kaminpar-dist/presets.cc
  kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-dist/refinement/balancer/cluster_balancer.cc
  kaminpar-dist/refinement/balancer/clusters.cc
  kaminpar-dist/refinement/balancer/node_balancer.cc
  kaminpar-dist/refinement/jet/jet_refiner.cc
  kaminpar-dist/refinement/multi_refiner.cc
  kaminpar-dist/refinement/noop_refiner.cc
  kaminpar-dist/refinement/snapshooter.cc
  kaminpar-mpi/grid_topology.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_e2e_balance
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_e2e_cut
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_e2e_valid
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_extract
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_gains_hash
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/timer.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/presets.cc)
set(SUBSET_gains_table
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_heaps
  )
set(SUBSET_histories
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_initial
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_io
  apps/io/shm_compressed_graph_binary.cc
  apps/io/shm_input_validator.cc
  apps/io/shm_io.cc
  apps/io/shm_metis_parser.cc
  apps/io/shm_parhip_parser.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/timer.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc)
set(SUBSET_partition
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_primitives
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc)
set(SUBSET_program
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  apps/io/shm_compressed_graph_binary.cc
  apps/io/shm_input_validator.cc
  apps/io/shm_io.cc
  apps/io/shm_metis_parser.cc
  apps/io/shm_parhip_parser.cc
  apps/version.cc
  kaminpar-cli/kaminpar_arguments.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_refine
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_reorder
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_reproducible
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
set(SUBSET_tools
  kaminpar-shm/coarsening/clustering/lp_clusterer.cc
  kaminpar-shm/initial_partitioning/initial_fm_refiner.cc
  kaminpar-shm/refinement/fm/fm_refiner.cc
  kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
  kaminpar-shm/refinement/lp/lp_refiner.cc
  kaminpar-shm/graphutils/subgraph_extractor.cc
  apps/io/shm_compressed_graph_binary.cc
  apps/io/shm_io.cc
  apps/io/shm_metis_parser.cc
  apps/io/shm_parhip_parser.cc
  kaminpar-cli/kaminpar_arguments.cc
  kaminpar-common/console_io.cc
  kaminpar-common/heap_profiler.cc
  kaminpar-common/logger.cc
  kaminpar-common/random.cc
  kaminpar-common/strutils.cc
  kaminpar-common/timer.cc
  kaminpar-shm/coarsening/cluster_coarsener.cc
  kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction.cc
  kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
  kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
  kaminpar-shm/context_io.cc
  kaminpar-shm/datastructures/compressed_graph.cc
  kaminpar-shm/datastructures/csr_graph.cc
  kaminpar-shm/datastructures/graph.cc
  kaminpar-shm/factories.cc
  kaminpar-shm/graphutils/compressed_graph_builder.cc
  kaminpar-shm/graphutils/permutator.cc
  kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_coarsener.cc
  kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_noop_refiner.cc
  kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_random_bipartitioner.cc
  kaminpar-shm/initial_partitioning/initial_refiner.cc
  kaminpar-shm/initial_partitioning/seed_node_utils.cc
  kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.cc
  kaminpar-shm/kaminpar.cc
  kaminpar-shm/partitioning/debug.cc
  kaminpar-shm/partitioning/deep/async_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/deep_multilevel.cc
  kaminpar-shm/partitioning/deep/sync_initial_partitioning.cc
  kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
  kaminpar-shm/partitioning/helper.cc
  kaminpar-shm/partitioning/kway/kway_multilevel.cc
  kaminpar-shm/partitioning/partition_utils.cc
  kaminpar-shm/partitioning/rb/rb_multilevel.cc
  kaminpar-shm/presets.cc
  kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc
  kaminpar-shm/refinement/balancer/greedy_balancer.cc
  kaminpar-shm/refinement/fm/batch_stats.cc
  kaminpar-shm/refinement/fm/general_stats.cc
  kaminpar-shm/refinement/jet/jet_refiner.cc
  kaminpar-shm/refinement/multi_refiner.cc)
