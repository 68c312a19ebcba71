// D10: configurations of the distributed program. Needs no processes: MPI is not used before a graph is read.
#include <cmath>
#include <map>
#include <numeric>
#include <regex>
#include <unordered_set>
#define main dkaminpar_main
#include "apps/dKaMinPar.cc"
#undef main
#include "prog.h"
#include "conf.h"

extern "C" {
int MPI_Init_thread(int *, char ***, int, int *provided) { *provided = MPI_THREAD_FUNNELED; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int *s) { *s = 1; return MPI_SUCCESS; }
}
namespace kaminpar::dist::io::skagen {
DistributedCSRGraph csr_streaming_generate(const std::string &, const PEID, const MPI_Comm) { std::_Exit(77); }
DistributedCompressedGraph compressed_streaming_generate(const std::string &, const PEID, const MPI_Comm) { std::_Exit(77); }
}

using namespace pbt;

static Run run_program(std::vector<std::string> args) {
  return in_child([&] {
    args.insert(args.begin(), "dKaMinPar");
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    return dkaminpar_main(args.size(), argv.data());
  });
}

static Fields fields(const Context &ctx) {
  Fields f;
#define F(x) f[#x] = show(ctx.x);
#define CHUNKS(p) F(p.total_num_chunks) F(p.fixed_num_chunks) F(p.min_num_chunks) F(p.scale_chunks_with_threads)
  F(rearrange_by) F(mode) F(enable_pe_splitting) F(simulate_singlethread) F(partition.K) F(partition.epsilon) F(compression.enabled)
  F(parallel.num_threads) F(parallel.num_mpis)
  F(coarsening.max_global_clustering_levels) F(coarsening.global_clustering_algorithm) F(coarsening.max_local_clustering_levels)
  F(coarsening.local_clustering_algorithm) F(coarsening.contraction_limit) F(coarsening.cluster_weight_limit)
  F(coarsening.cluster_weight_multiplier) F(coarsening.max_cnode_imbalance) F(coarsening.migrate_cnode_prefix) F(coarsening.force_perfect_cnode_balance)
#define LP(p) F(p.num_iterations) F(p.passive_high_degree_threshold) F(p.active_high_degree_threshold) F(p.max_num_neighbors) \
  F(p.merge_singleton_clusters) F(p.merge_nonadjacent_clusters_threshold) CHUNKS(p.chunks) F(p.ignore_ghost_nodes) F(p.keep_ghost_clusters) \
  F(p.sync_cluster_weights) F(p.enforce_cluster_weights) F(p.cheap_toplevel) F(p.prevent_cyclic_moves) F(p.enforce_legacy_weight)
  LP(coarsening.global_lp) LP(coarsening.local_lp)
  CHUNKS(coarsening.hem.chunks) F(coarsening.hem.small_color_blacklist) F(coarsening.hem.only_blacklist_input_level) F(coarsening.hem.ignore_weight_limit)
  F(initial_partitioning.algorithm)
  F(initial_partitioning.kaminpar.partitioning.mode) F(initial_partitioning.kaminpar.refinement.algorithms)
  F(initial_partitioning.kaminpar.coarsening.contraction_limit) F(initial_partitioning.kaminpar.compression.enabled)
  F(refinement.algorithms) F(refinement.refine_coarsest_level)
  F(refinement.lp.active_high_degree_threshold) F(refinement.lp.num_iterations) CHUNKS(refinement.lp.chunks) F(refinement.lp.num_move_attempts)
  F(refinement.lp.ignore_probabilities)
  F(refinement.colored_lp.num_iterations) F(refinement.colored_lp.num_move_execution_iterations) F(refinement.colored_lp.num_probabilistic_move_attempts)
  F(refinement.colored_lp.sort_by_rel_gain) CHUNKS(refinement.colored_lp.coloring_chunks) F(refinement.colored_lp.small_color_blacklist)
  F(refinement.colored_lp.only_blacklist_input_level) F(refinement.colored_lp.track_local_block_weights) F(refinement.colored_lp.use_active_set)
  F(refinement.colored_lp.move_execution_strategy)
#define NB(x) F(refinement.node_balancer.x)
  NB(max_num_rounds) NB(enable_sequential_balancing) NB(seq_num_nodes_per_block) NB(enable_parallel_balancing) NB(par_threshold) NB(par_num_dicing_attempts)
  NB(par_accept_imbalanced_moves) NB(par_enable_positive_gain_buckets) NB(par_gain_bucket_base) NB(par_partial_buckets) NB(par_update_pq_gains)
  NB(par_high_degree_update_interval) NB(par_high_degree_insertion_threshold) NB(par_high_degree_update_thresold)
#define CB(x) F(refinement.cluster_balancer.x)
  CB(max_num_rounds) CB(enable_sequential_balancing) CB(seq_num_nodes_per_block) CB(seq_full_pq) CB(enable_parallel_balancing) CB(parallel_threshold)
  CB(par_num_dicing_attempts) CB(par_accept_imbalanced) CB(par_use_positive_gain_buckets) CB(par_gain_bucket_factor) CB(par_initial_rebalance_fraction)
  CB(par_rebalance_fraction_increase) CB(cluster_size_strategy) CB(cluster_size_multiplier) CB(cluster_strategy) CB(cluster_rebuild_interval)
  CB(switch_to_sequential_after_stallmate) CB(switch_to_singleton_after_stallmate)
#define JET(x) F(refinement.jet.x)
  JET(num_coarse_rounds) JET(num_fine_rounds) JET(num_iterations) JET(num_fruitless_iterations) JET(fruitless_threshold) JET(dynamic_negative_gain_factor)
  JET(coarse_negative_gain_factor) JET(fine_negative_gain_factor) JET(initial_negative_gain_factor) JET(final_negative_gain_factor) JET(balancing_algorithm)
  F(refinement.mtkahypar.config_filename) F(refinement.mtkahypar.fine_config_filename) F(refinement.mtkahypar.coarse_config_filename)
  F(refinement.mtkahypar.only_run_on_root)
  F(debug.graph_filename) F(debug.save_coarsest_graph) F(debug.save_coarsest_partition) F(debug.print_compression_details)
#undef F
  return f;
}
static Fields fields(const ApplicationContext &ctx) {
  Fields f;
#define F(x) f["app." #x] = show(ctx.x);
  F(dump_config) F(show_version) F(seed) F(num_threads) F(repetitions) F(max_timer_depth) F(k) F(verbosity) F(check_input_graph) F(io_kind)
  F(io_distribution) F(io_format) F(io_kagen_distribution) F(io_skagen_graph_options) F(graph_filename) F(partition_filename) F(no_huge_pages) F(dry_run)
#undef F
  return f;
}
static std::set<std::string> differing(const Context &a, const Context &b) {
  std::set<std::string> s;
  const Fields x = fields(a), y = fields(b);
  for (auto &[k, v] : x) if (y.at(k) != v) s.insert(k);
  return s;
}

static const std::vector<std::string> PRESETS = {"default", "fast", "strong", "europar23-fast", "europar23-strong"}; // documented
struct Model { Context ctx = create_default_context(); ApplicationContext app = {}; };
struct Value { std::vector<std::string> args; std::function<void(Model &)> apply; };
struct Opt { std::string name; bool app; std::function<Value(Gen &)> make; };

static const Names<PartitioningMode> N_MODE = {{"multilevel/deep", PartitioningMode::DEEP}, {"multilevel/kway", PartitioningMode::KWAY}};
static const Names<GraphOrdering> N_ORDER = {{"natural", GraphOrdering::NATURAL}, {"deg-buckets", GraphOrdering::DEGREE_BUCKETS}, {"degree-buckets", GraphOrdering::DEGREE_BUCKETS}, {"coloring", GraphOrdering::COLORING}};
static const Names<InitialPartitioningAlgorithm> N_IP = {{"random", InitialPartitioningAlgorithm::RANDOM}, {"kaminpar", InitialPartitioningAlgorithm::KAMINPAR}, {"mtkahypar", InitialPartitioningAlgorithm::MTKAHYPAR}};
static const Names<ClusteringAlgorithm> N_CLUSTER = {{"noop", ClusteringAlgorithm::GLOBAL_NOOP}, {"global-noop", ClusteringAlgorithm::GLOBAL_NOOP}, {"lp", ClusteringAlgorithm::GLOBAL_LP}, {"global-lp", ClusteringAlgorithm::GLOBAL_LP}, {"hem", ClusteringAlgorithm::GLOBAL_HEM}, {"global-hem", ClusteringAlgorithm::GLOBAL_HEM}, {"hem-lp", ClusteringAlgorithm::GLOBAL_HEM_LP}, {"global-hem-lp", ClusteringAlgorithm::GLOBAL_HEM_LP}, {"local-noop", ClusteringAlgorithm::LOCAL_NOOP}, {"local-lp", ClusteringAlgorithm::LOCAL_LP}};
static const Names<RefinementAlgorithm> N_REF = {{"noop", RefinementAlgorithm::NOOP}, {"lp", RefinementAlgorithm::BATCHED_LP_REFINER}, {"blp", RefinementAlgorithm::BATCHED_LP_REFINER}, {"batched-lp", RefinementAlgorithm::BATCHED_LP_REFINER}, {"clp", RefinementAlgorithm::COLORED_LP_REFINER}, {"colored-lp", RefinementAlgorithm::COLORED_LP_REFINER}, {"nb", RefinementAlgorithm::HYBRID_NODE_BALANCER}, {"hybrid-node-balancer", RefinementAlgorithm::HYBRID_NODE_BALANCER}, {"cb", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER}, {"hybrid-cluster-balancer", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER}, {"jet", RefinementAlgorithm::JET_REFINER}, {"mtkahypar", RefinementAlgorithm::MTKAHYPAR_REFINER}};
static const Names<RefinementAlgorithm> N_BAL = {{"noop", RefinementAlgorithm::NOOP}, {"hybrid-node-balancer", RefinementAlgorithm::HYBRID_NODE_BALANCER}, {"hybrid-cluster-balancer", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER}, {"mtkahypar", RefinementAlgorithm::MTKAHYPAR_REFINER}};
static const Names<LabelPropagationMoveExecutionStrategy> N_EXEC = {{"probabilistic", LabelPropagationMoveExecutionStrategy::PROBABILISTIC}, {"best", LabelPropagationMoveExecutionStrategy::BEST_MOVES}, {"local", LabelPropagationMoveExecutionStrategy::LOCAL_MOVES}};
static const Names<ClusterSizeStrategy> N_SIZE = {{"zero", ClusterSizeStrategy::ZERO}, {"one", ClusterSizeStrategy::ONE}, {"max-overload", ClusterSizeStrategy::MAX_OVERLOAD}, {"avg-overload", ClusterSizeStrategy::AVG_OVERLOAD}, {"min-overload", ClusterSizeStrategy::MIN_OVERLOAD}};
static const Names<ClusterStrategy> N_SET = {{"singletons", ClusterStrategy::SINGLETONS}, {"lp", ClusterStrategy::LP}, {"greedy-batch-prefix", ClusterStrategy::GREEDY_BATCH_PREFIX}};
static const Names<GraphDistribution> N_DIST = {{"balanced-nodes", GraphDistribution::BALANCED_NODES}, {"balanced-edges", GraphDistribution::BALANCED_EDGES}, {"balanced-memory-space", GraphDistribution::BALANCED_MEMORY_SPACE}};
static const Names<IOKind> N_IO = {{"kaminpar", IOKind::KAMINPAR}, {"kagen", IOKind::KAGEN}, {"skagen", IOKind::STREAMING_KAGEN}};
static const Names<kagen::FileFormat> N_FMT = {{"metis", kagen::FileFormat::METIS}, {"parhip", kagen::FileFormat::PARHIP}};
static const Names<kagen::GraphDistribution> N_KDIST = {{"balance-vertices", kagen::GraphDistribution::BALANCE_VERTICES}, {"balance-edges", kagen::GraphDistribution::BALANCE_EDGES}};

static const std::vector<Opt> &options() {
  static std::vector<Opt> o;
  if (!o.empty()) return o;
  auto add = [&](const std::string &name, bool app, std::function<Value(Gen &)> f) { o.push_back({name, app, f}); };
#define ENUM(name, names, field) add(name, false, [](Gen &g) { const auto x = g.pick(names); return Value{{name, x.first}, [x](Model &m) { m.ctx.field = x.second; }}; });
#define INT(name, field) add(name, false, [](Gen &g) { using T = std::decay_t<decltype(std::declval<Context>().field)>; const T x = gen_int<T>(g); return Value{{name, std::to_string(x)}, [x](Model &m) { m.ctx.field = x; }}; });
#define DBL(name, field) add(name, false, [](Gen &g) { const double x = gen_double(g, g.flip() ? 6 : 17); return Value{{name, show(x)}, [x](Model &m) { m.ctx.field = x; }}; });
#define STR(name, field) add(name, false, [](Gen &g) { std::string x = gen_name(g); if (x == "-") x = "y"; return Value{{name, x}, [x](Model &m) { m.ctx.field = x; }}; });
#define FLAGX(name, field, app) add(name, app, [](Gen &g) { const int x = g.weighted({3, 1, 1}); return Value{{x == 0 ? name : x == 1 ? std::string(name) + "=true" : std::string(name) + "=false"}, [x](Model &m) { m.ctx.field = x != 2; }}; });
#define FLAG(name, field) FLAGX(name, field, false)
#define CHUNKOPTS(p, field) INT(p "-total-chunks", field.total_num_chunks) INT(p "-min-chunks", field.min_num_chunks) INT(p "-num-chunks", field.fixed_num_chunks) FLAG(p "-scale-chunks-with-threads", field.scale_chunks_with_threads)
  INT("-K", partition.K) INT("--block-multiplier", partition.K)
  ENUM("-m", N_MODE, mode) ENUM("--mode", N_MODE, mode)
  FLAG("--enable-pe-splitting", enable_pe_splitting) FLAG("--simulate-singlethreaded", simulate_singlethread)
  ENUM("--rearrange-by", N_ORDER, rearrange_by)
  FLAG("--compress", compression.enabled)
  add("-c", false, [](Gen &) { return Value{{"-c"}, [](Model &m) { m.ctx.compression.enabled = true; }}; });
  ENUM("--i-algorithm", N_IP, initial_partitioning.algorithm)
  for (const std::string name : {"--r-algorithms", "--r-algorithm"})
    add(name, false, [name](Gen &g) {
      std::vector<RefinementAlgorithm> v;
      Value r{{}, {}};
      const bool repeat = g.flip(); // the option once with several values, or several times
      for (u64 i = 0, c = 1 + g.draw(4); i < c; ++i) {
        const auto x = g.pick(N_REF);
        if (i == 0 || repeat) r.args.push_back(name);
        r.args.push_back(x.first);
        v.push_back(x.second);
      }
      r.apply = [v](Model &m) { m.ctx.refinement.algorithms = v; };
      return r;
    });
  FLAG("--r-refine-coarsest-graph", refinement.refine_coarsest_level)
  INT("--r-lp-num-iterations", refinement.lp.num_iterations)
  CHUNKOPTS("--r-lp", refinement.lp.chunks)
  INT("--r-lp-active-large-degree-threshold", refinement.lp.active_high_degree_threshold)
  FLAG("--r-lp-ignore-probabilities", refinement.lp.ignore_probabilities)
  INT("--r-clp-num-iterations", refinement.colored_lp.num_iterations)
  ENUM("--r-clp-commit-strategy", N_EXEC, refinement.colored_lp.move_execution_strategy)
  INT("--r-clp-num-commit-rounds", refinement.colored_lp.num_move_execution_iterations)
  INT("--r-clp-num-attempts", refinement.colored_lp.num_probabilistic_move_attempts)
  FLAG("--r-clp-sort-by-rel-gain", refinement.colored_lp.sort_by_rel_gain)
  FLAG("--r-clp-track-block-weights", refinement.colored_lp.track_local_block_weights)
  CHUNKOPTS("--r-clp", refinement.colored_lp.coloring_chunks)
  DBL("--r-clp-small-color-blacklist", refinement.colored_lp.small_color_blacklist)
  FLAG("--r-clp-only-blacklist-on-input-level", refinement.colored_lp.only_blacklist_input_level)
  FLAG("--r-clp-active-set", refinement.colored_lp.use_active_set)
  INT("--r-nb-max-num-rounds", refinement.node_balancer.max_num_rounds)
  FLAG("--r-nb-enable-sequential-balancing", refinement.node_balancer.enable_sequential_balancing)
  INT("--r-nb-seq-nodes-per-block", refinement.node_balancer.seq_num_nodes_per_block)
  FLAG("--r-nb-enable-parallel-balancing", refinement.node_balancer.enable_parallel_balancing)
  DBL("--r-nb-parallel-threshold", refinement.node_balancer.par_threshold)
  INT("--r-nb-par-num-dicing-attempts", refinement.node_balancer.par_num_dicing_attempts)
  FLAG("--r-nb-par-accept-imbalanced", refinement.node_balancer.par_accept_imbalanced_moves)
  FLAG("--r-nb-par-positive-gain-buckets", refinement.node_balancer.par_enable_positive_gain_buckets)
  DBL("--r-nb-par-gain-bucket-base", refinement.node_balancer.par_gain_bucket_base)
  FLAG("--r-nb-par-partial-buckets", refinement.node_balancer.par_partial_buckets)
  FLAG("--r-nb-par-update-pq-gains", refinement.node_balancer.par_update_pq_gains)
  INT("--r-nb-par-high-degree-update-interval", refinement.node_balancer.par_high_degree_update_interval)
  INT("--r-nb-par-high-degree-insertion-threshold", refinement.node_balancer.par_high_degree_insertion_threshold)
  INT("--r-nb-par-high-degree-update-threshold", refinement.node_balancer.par_high_degree_update_thresold)
  INT("--r-cb-max-num-rounds", refinement.cluster_balancer.max_num_rounds)
  FLAG("--r-cb-enable-sequential-balancing", refinement.cluster_balancer.enable_sequential_balancing)
  INT("--r-cb-seq-nodes-per-block", refinement.cluster_balancer.seq_num_nodes_per_block)
  FLAG("--r-cb-enable-parallel-balancing", refinement.cluster_balancer.enable_parallel_balancing)
  DBL("--r-cb-parallel-threshold", refinement.cluster_balancer.parallel_threshold)
  INT("--r-cb-par-num-dicing-attempts", refinement.cluster_balancer.par_num_dicing_attempts)
  FLAG("--r-cb-par-accept-imbalanced", refinement.cluster_balancer.par_accept_imbalanced)
  FLAG("--r-cb-par-positive-gain-buckets", refinement.cluster_balancer.par_use_positive_gain_buckets)
  DBL("--r-cb-par-gain-bucket-factor", refinement.cluster_balancer.par_gain_bucket_factor)
  DBL("--r-cb-par-initial-fraction", refinement.cluster_balancer.par_initial_rebalance_fraction)
  DBL("--r-cb-par-fraction-increase", refinement.cluster_balancer.par_rebalance_fraction_increase)
  ENUM("--r-cb-size-strategy", N_SIZE, refinement.cluster_balancer.cluster_size_strategy)
  DBL("--r-cb-size-multiplier", refinement.cluster_balancer.cluster_size_multiplier)
  ENUM("--r-cb-strategy", N_SET, refinement.cluster_balancer.cluster_strategy)
  INT("--r-cb-rebuild-interval", refinement.cluster_balancer.cluster_rebuild_interval)
  INT("--c-contraction-limit", coarsening.contraction_limit)
  DBL("--c-max-cluster-weight-multiplier", coarsening.cluster_weight_multiplier)
  INT("--c-max-local-levels", coarsening.max_local_clustering_levels)
  INT("--c-max-global-levels", coarsening.max_global_clustering_levels)
  ENUM("--c-local-clustering-algorithm", N_CLUSTER, coarsening.local_clustering_algorithm)
  ENUM("--c-global-clustering-algorithm", N_CLUSTER, coarsening.global_clustering_algorithm)
  DBL("--c-max-cnode-imbalance", coarsening.max_cnode_imbalance)
  FLAG("--c-migrate-cnode-prefix", coarsening.migrate_cnode_prefix)
  FLAG("--c-force-perfect-cnode-balance", coarsening.force_perfect_cnode_balance)
  INT("--c-glp-iterations", coarsening.global_lp.num_iterations)
  CHUNKOPTS("--c-glp", coarsening.global_lp.chunks)
  INT("--c-glp-active-large-degree-threshold", coarsening.global_lp.active_high_degree_threshold)
  INT("--c-glp-passive-large-degree-threshold", coarsening.global_lp.passive_high_degree_threshold)
  FLAG("--c-glp-sync-cluster-weights", coarsening.global_lp.sync_cluster_weights)
  FLAG("--c-glp-enforce-cluster-weights", coarsening.global_lp.enforce_cluster_weights)
  FLAG("--c-glp-cheap-toplevel", coarsening.global_lp.cheap_toplevel)
  FLAG("--c-glp-prevent-cyclic-moves", coarsening.global_lp.prevent_cyclic_moves)
  FLAG("--c-glp-enforce-legacy-weight", coarsening.global_lp.enforce_legacy_weight)
  INT("--c-llp-iterations", coarsening.local_lp.num_iterations)
  FLAG("--c-llp-ignore-ghost-nodes", coarsening.local_lp.ignore_ghost_nodes)
  FLAG("--c-llp-keep-ghost-clusters", coarsening.local_lp.keep_ghost_clusters)
  CHUNKOPTS("--c-hem", coarsening.hem.chunks)
  DBL("--c-hem-small-color-blacklist", coarsening.hem.small_color_blacklist)
  FLAG("--c-hem-only-blacklist-on-input-level", coarsening.hem.only_blacklist_input_level)
  FLAG("--c-hem-ignore-weight-limit", coarsening.hem.ignore_weight_limit)
  add("--r-jet-num-rounds", false, [](Gen &g) { const int x = gen_int<int>(g); return Value{{"--r-jet-num-rounds", std::to_string(x)}, [x](Model &m) { m.ctx.refinement.jet.num_coarse_rounds = m.ctx.refinement.jet.num_fine_rounds = x; }}; });
  INT("--r-jet-num-coarse-rounds", refinement.jet.num_coarse_rounds)
  INT("--r-jet-num-fine-rounds", refinement.jet.num_fine_rounds)
  INT("--r-jet-num-iterations", refinement.jet.num_iterations)
  INT("--r-jet-num-fruitless-iterations", refinement.jet.num_fruitless_iterations)
  DBL("--r-jet-fruitless-threshold", refinement.jet.fruitless_threshold)
  FLAG("--r-jet-dynamic-negative-gain-factor", refinement.jet.dynamic_negative_gain_factor)
  DBL("--r-jet-coarse-negative-gain-factor", refinement.jet.coarse_negative_gain_factor)
  DBL("--r-jet-fine-negative-gain-factor", refinement.jet.fine_negative_gain_factor)
  DBL("--r-jet-initial-negative-gain-factor", refinement.jet.initial_negative_gain_factor)
  DBL("--r-jet-final-negative-gain-factor", refinement.jet.final_negative_gain_factor)
  ENUM("--r-jet-balancing-algorithm", N_BAL, refinement.jet.balancing_algorithm)
  STR("--r-mtkahypar-config", refinement.mtkahypar.config_filename)
  STR("--r-mtkahypar-config-fine", refinement.mtkahypar.fine_config_filename)
  STR("--r-mtkahypar-config-coarse", refinement.mtkahypar.coarse_config_filename)
  FLAG("--r-mtkahypar-only-run-on-root", refinement.mtkahypar.only_run_on_root)
  // neither dumped nor read from files
  add("--epsilon", true, [](Gen &g) { const double x = gen_double(g, 17); return Value{{g.flip() ? "-e" : "--epsilon", show(x)}, [x](Model &m) { m.ctx.partition.epsilon = x; }}; });
  FLAGX("--d-save-coarsest-graph", debug.save_coarsest_graph, true)
  FLAGX("--d-save-coarsest-partition", debug.save_coarsest_partition, true)
  FLAGX("--d-print-compression-details", debug.print_compression_details, true)
  // options of the program
#define AINT(name, field, lo, hi) add(name, true, [](Gen &g) { const i64 x = g.range(lo, hi); return Value{{name, std::to_string(x)}, [x](Model &m) { m.app.field = x; }}; });
#define ASTR(name, field) add(name, true, [](Gen &g) { std::string x = gen_name(g); if (x == "-") x = "y"; return Value{{name, x}, [x](Model &m) { m.app.field = x; }}; });
#define AFLAG(name, field, value) add(name, true, [](Gen &) { return Value{{name}, [](Model &m) { m.app.field = value; }}; });
#define AENUM(name, names, field) add(name, true, [](Gen &g) { const auto x = g.pick(names); return Value{{name, x.first}, [x](Model &m) { m.app.field = x.second; }}; });
  AINT("--seed", seed, -5, 2147483647) AINT("-s", seed, 0, 100) AINT("--threads", num_threads, 0, 500) AINT("-t", num_threads, 1, 64)
  AINT("--repetitions", repetitions, 0, 50) AINT("--max-timer-depth", max_timer_depth, 0, 9)
  AFLAG("-q", verbosity, -1) AFLAG("--quiet", verbosity, -1)
  add("--verbose", true, [](Gen &g) { const int c = g.range(1, 3); return Value{std::vector<std::string>(c, "--verbose"), [c](Model &m) { m.app.verbosity = c; }}; });
  AFLAG("-T", max_timer_depth, 2147483647)
  AENUM("--io-format", N_FMT, io_format) AENUM("--io-kind", N_IO, io_kind) AENUM("--io-distribution", N_DIST, io_distribution) AENUM("--io-kagen-distribution", N_KDIST, io_kagen_distribution)
  ASTR("--io-skagen-graph", io_skagen_graph_options)
  AFLAG("--check-input-graph", check_input_graph, true) AFLAG("--no-huge-pages", no_huge_pages, true) AFLAG("--dry-run", dry_run, true)
  ASTR("-o", partition_filename) ASTR("--output", partition_filename)
  return o;
}

static std::string parse(const std::vector<std::string> &args, Model &m) { // "" or why the command line was refused
  CLI::App cli("dKaMinPar");
  m.ctx = create_default_context();
  m.app = ApplicationContext{};
  std::vector<std::string> rev(args.rbegin(), args.rend());
  try {
    setup_context(cli, m.app, m.ctx);
    cli.parse(rev);
  } catch (const CLI::Error &e) {
    return e.get_name() + ": " + e.what();
  }
  return "";
}
static std::string target(const std::string &name) { // options that set the same thing
  static const std::map<std::string, std::string> a = {{"-c", "--compress"}, {"-m", "--mode"}, {"-K", "--block-multiplier"}, {"--r-algorithm", "--r-algorithms"}, {"-s", "--seed"}, {"-t", "--threads"}, {"-q", "V"}, {"--quiet", "V"}, {"--verbose", "V"}, {"-T", "--max-timer-depth"}, {"-o", "--output"}, {"--r-jet-num-coarse-rounds", "--r-jet-num-rounds"}, {"--r-jet-num-fine-rounds", "--r-jet-num-rounds"}};
  auto it = a.find(name);
  return it == a.end() ? name : it->second;
}
static std::vector<Value> gen_options(Gen &g, u64 max, bool app) { // option values for distinct settings
  std::vector<Value> v;
  std::set<std::string> used;
  for (u64 i = 0, c = g.draw(max + 1); i < c; ++i) {
    const Opt &o = options()[g.draw(options().size())];
    if ((o.app && !app) || !used.insert(target(o.name)).second) continue;
    v.push_back(o.make(g));
  }
  return v;
}

PBT_TEST(command_line, 5) { // an option changes exactly the setting it names
  Model want;
  std::vector<std::vector<std::string>> groups;
  if (g.flip()) {
    const std::string preset = g.pick(PRESETS);
    want.ctx = create_context_by_preset_name(preset);
    groups.push_back({g.flip() ? "-P" : "--preset", preset});
    g.label("preset");
  }
  want.app.k = g.range(2, 4294967295ll);
  groups.push_back({g.flip() ? "-k" : "--k", std::to_string(want.app.k)});
  want.app.graph_filename = g.pick<std::string>({"x.metis", "rgg2d;n=10", "dir/y.parhip"});
  groups.push_back({g.flip() ? "-G" : "--graph", want.app.graph_filename});
  for (auto &v : gen_options(g, 12, true)) { v.apply(want); groups.push_back(v.args); }
  Rng r(g.seed());
  r.shuffle(groups); // the order on the command line does not matter, not even that of the preset
  std::vector<std::string> args;
  for (auto &x : groups) args.insert(args.end(), x.begin(), x.end());
  g.note(join(args));
  g.nontrivial(groups.size() > 3);
  Model got;
  const std::string err = parse(args, got);
  CHECK_MSG(err.empty(), "refused", "the command line is refused: " << err);
  const std::string d = diff(fields(got.ctx), fields(want.ctx)) + diff(fields(got.app), fields(want.app));
  CHECK_MSG(d.empty(), "setting", "wrong settings:" << d);
}

PBT_TEST(dump, 4) { // what --dump-config writes reproduces the configuration
  struct Plain { Plain() { plain_names = true; } ~Plain() { plain_names = false; } } plain;
  Model want;
  std::vector<std::string> args;
  if (g.chance(2, 3)) {
    const std::string preset = g.pick(PRESETS);
    want.ctx = create_context_by_preset_name(preset);
    args = {"-P", preset};
    g.label("preset:" + preset);
  }
  for (auto &v : gen_options(g, 10, false)) { v.apply(want); args.insert(args.end(), v.args.begin(), v.args.end()); }
  args.push_back("--dump-config");
  g.note(join(args));
  g.nontrivial(args.size() > 1);
  const Run r = run_program(args);
  CHECK_MSG(r.status >= 0, "crash", "--dump-config ends with signal " << -r.status << ": " << tail(r.err));
  CHECK_MSG(r.err.empty(), "refused", "--dump-config: " << r.err);
  CHECK_EQ(r.status, 0, "status", "exit status of --dump-config");
  const File conf(r.out);
  std::vector<std::string> args2 = {g.flip() ? "-C" : "--config", conf.path, "--version"};
  want.app.show_version = true;
  if (g.flip()) { // the command line goes first
    for (auto &v : gen_options(g, 4, true)) { v.apply(want); args2.insert(args2.end(), v.args.begin(), v.args.end()); }
    g.label("overridden");
    g.note(" then " + join(args2));
  }
  Model got;
  const std::string err = parse(args2, got);
  CHECK_MSG(err.empty(), "refused", "the dumped configuration is refused: " << err);
  const std::string d = diff(fields(got.ctx), fields(want.ctx), 1e-5) + diff(fields(got.app), fields(want.app));
  CHECK_MSG(d.empty(), "lost", "the dumped configuration differs from the one dumped:" << d);
}

PBT_TEST(enumerations, 1) { // exhaustive: all values of all enumerations
  const int which = g.draw(9);
  g.note("enumeration " + std::to_string(which));
  g.nontrivial();
  switch (which) {
  case 0: check_names("mode", N_MODE, get_partitioning_modes()); break;
  case 1: check_names("ordering", N_ORDER, get_graph_orderings()); break;
  case 2: check_names("initial partitioning", N_IP, get_initial_partitioning_algorithms()); break;
  case 3: check_names("clustering", N_CLUSTER, get_clustering_algorithms()); break;
  case 4: check_names("refinement", N_REF, get_kway_refinement_algorithms()); break;
  case 5: check_names("balancing", N_BAL, get_balancing_algorithms()); break;
  case 6: check_names("move execution", N_EXEC, get_label_propagation_move_execution_strategies()); break;
  case 7: check_names("cluster size", N_SIZE, get_move_set_size_strategies()); break;
  default: check_names("move sets", N_SET, get_move_set_strategies()); check_names("distribution", N_DIST, get_graph_distributions()); break;
  }
}

PBT_TEST(help, 1) { // values the help text lists for an option are accepted
  CLI::App cli("dKaMinPar");
  Model m;
  setup_context(cli, m.app, m.ctx);
  std::vector<std::pair<std::string, std::string>> cases;
  std::function<void(CLI::App *)> walk = [&](CLI::App *a) {
    for (auto *o : a->get_options()) {
      if (o->get_lnames().empty()) continue;
      std::istringstream in(o->get_description());
      for (std::string line; std::getline(in, line);) {
        std::smatch x;
        if (!std::regex_match(line, x, std::regex(" *- (([a-z0-9/-]+)(, [a-z0-9/-]+)*)( \\[.*\\])?:.*"))) continue;
        std::istringstream names(x[1]);
        for (std::string name; std::getline(names, name, ',');) cases.push_back({"--" + o->get_lnames()[0], name.substr(name.find_first_not_of(' '))});
      }
    }
    for (auto *s : a->get_subcommands([](CLI::App *) { return true; })) walk(s);
  };
  walk(&cli);
  CHECK_MSG(cases.size() > 30, "help", "only " << cases.size() << " documented values found");
  const auto c = cases[g.draw(cases.size())];
  g.note(c.first + " " + c.second);
  g.nontrivial();
  Model got;
  const std::string err = parse({"--version", c.first, c.second}, got);
  CHECK_MSG(err.empty(), "refused", "documented value refused: " << err);
}

PBT_TEST(presets, 1) {
  using S = std::set<std::string>;
  const auto names = get_preset_names();
  g.nontrivial();
  for (auto &p : PRESETS) CHECK_MSG(names.count(p), "missing", "preset '" << p << "' is not listed");
  auto get = [](const std::string &s) { return create_context_by_preset_name(s); };
  std::vector<std::string> all(names.begin(), names.end());
  std::sort(all.begin(), all.end());
  const std::string p = all[g.draw(all.size())];
  g.note(p);
  const Context c = get(p);
  { // the program accepts it, and both ways to select it agree
    Model m;
    const std::string err = parse({"-P", p, "--version"}, m);
    CHECK_MSG(err.empty(), "refused", "preset '" << p << "' refused: " << err);
    CHECK_MSG(differing(m.ctx, c).empty(), "differs", "-P " << p << " differs from create_context_by_preset_name: " << *differing(m.ctx, c).begin());
  }
  auto relation = [&](const std::string &a, const std::string &b, const S &allowed, const std::string &must = "") {
    const S d = differing(get(a), get(b));
    for (auto &x : d) CHECK_MSG(allowed.count(x), "differs", "presets '" << a << "' and '" << b << "' differ in " << x);
    if (!must.empty()) CHECK_MSG(d.count(must), "same", "presets '" << a << "' and '" << b << "' do not differ in " << must);
  };
  relation("fast", "default", {});
  relation("strong", "default", {"refinement.algorithms", "refinement.jet.num_coarse_rounds", "refinement.jet.num_fine_rounds", "refinement.jet.dynamic_negative_gain_factor"}, "refinement.algorithms");
  relation("europar23-fast", "default", {"coarsening.global_lp.enforce_legacy_weight"}, "coarsening.global_lp.enforce_legacy_weight");
  relation("europar23-strong", "europar23-fast", {"initial_partitioning.algorithm", "coarsening.global_lp.num_iterations"}, "initial_partitioning.algorithm");
  CHECK_MSG(get("europar23-strong").initial_partitioning.algorithm == InitialPartitioningAlgorithm::MTKAHYPAR, "algorithms", "preset 'europar23-strong' does not use Mt-KaHyPar");
  auto has = [&](const char *s, RefinementAlgorithm a, bool want) { CHECK_EQ(get(s).refinement.includes_algorithm(a), want, "algorithms", "preset '" << s << "' and refinement algorithm " << (int)a); };
  has("strong", RefinementAlgorithm::JET_REFINER, true);
  for (auto s : {"default", "fast", "europar23-fast", "europar23-strong"}) { has(s, RefinementAlgorithm::JET_REFINER, false); has(s, RefinementAlgorithm::BATCHED_LP_REFINER, true); has(s, RefinementAlgorithm::HYBRID_NODE_BALANCER, true); }
}

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
