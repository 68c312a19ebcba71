// K18: configurations of the shared-memory program. K21: the program itself. Runs the real main() in processes of its own.
#include <cmath>
#include <map>
#include <regex>
#include <span>
#define main kaminpar_main
#include "apps/KaMinPar.cc"
#undef main
#include "kaminpar-shm/context_io.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "apps/io/shm_compressed_graph_binary.h"
#include "prog.h"
#include "conf.h"

using namespace pbt;
using pbt::G;

static Run run_program(std::vector<std::string> args) {
  return in_child([&] {
    args.insert(args.begin(), "KaMinPar");
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    return kaminpar_main(args.size(), argv.data());
  });
}

#if PART == 1
static Fields fields(const Context &ctx) {
  Fields f;
#define F(x) f[#x] = show(ctx.x);
  F(compression.enabled) F(node_ordering) F(edge_ordering)
  F(partitioning.mode) F(partitioning.deep_initial_partitioning_mode) F(partitioning.deep_initial_partitioning_load)
  F(partitioning.min_consecutive_seq_bipartitioning_levels) F(partitioning.refine_after_extending_partition)
  F(partitioning.use_lazy_subgraph_memory) F(partitioning.vcycles) F(partitioning.restrict_vcycle_refinement)
  F(partitioning.rb_enable_kway_toplevel_refinement)
  F(coarsening.algorithm) F(coarsening.contraction_limit) F(coarsening.convergence_threshold)
  F(coarsening.clustering.algorithm) F(coarsening.clustering.cluster_weight_limit) F(coarsening.clustering.cluster_weight_multiplier)
  F(coarsening.clustering.shrink_factor) F(coarsening.clustering.max_mem_free_coarsening_level) F(coarsening.clustering.forced_kc_level)
  F(coarsening.clustering.forced_pc_level) F(coarsening.clustering.forced_level_upper_factor) F(coarsening.clustering.forced_level_lower_factor)
  F(coarsening.clustering.lp.num_iterations) F(coarsening.clustering.lp.large_degree_threshold) F(coarsening.clustering.lp.max_num_neighbors)
  F(coarsening.clustering.lp.impl) F(coarsening.clustering.lp.relabel_before_second_phase) F(coarsening.clustering.lp.two_hop_strategy)
  F(coarsening.clustering.lp.two_hop_threshold) F(coarsening.clustering.lp.isolated_nodes_strategy) F(coarsening.clustering.lp.tie_breaking_strategy)
  F(coarsening.contraction.algorithm) F(coarsening.contraction.unbuffered_implementation) F(coarsening.contraction.edge_buffer_fill_fraction)
#define I(p) F(p.disabled) F(p.stopping_rule) F(p.num_fruitless_moves) F(p.alpha) F(p.num_iterations) F(p.improvement_abortion_threshold)
  I(initial_partitioning.refinement) I(initial_partitioning.pool.refinement)
#undef I
  F(initial_partitioning.coarsening.contraction_limit) F(initial_partitioning.coarsening.convergence_threshold)
  F(initial_partitioning.coarsening.large_degree_threshold) F(initial_partitioning.coarsening.cluster_weight_limit)
  F(initial_partitioning.coarsening.cluster_weight_multiplier)
  F(initial_partitioning.pool.repetition_multiplier) F(initial_partitioning.pool.min_num_repetitions)
  F(initial_partitioning.pool.min_num_non_adaptive_repetitions) F(initial_partitioning.pool.max_num_repetitions)
  F(initial_partitioning.pool.num_seed_iterations) F(initial_partitioning.pool.use_adaptive_bipartitioner_selection)
  F(initial_partitioning.pool.enable_bfs_bipartitioner) F(initial_partitioning.pool.enable_ggg_bipartitioner)
  F(initial_partitioning.pool.enable_random_bipartitioner)
  F(initial_partitioning.refine_pool_partition) F(initial_partitioning.use_adaptive_epsilon)
  F(refinement.algorithms)
  F(refinement.lp.num_iterations) F(refinement.lp.large_degree_threshold) F(refinement.lp.max_num_neighbors) F(refinement.lp.impl)
  F(refinement.lp.tie_breaking_strategy)
  F(refinement.kway_fm.num_seed_nodes) F(refinement.kway_fm.alpha) F(refinement.kway_fm.num_iterations)
  F(refinement.kway_fm.unlock_locally_moved_nodes) F(refinement.kway_fm.unlock_seed_nodes) F(refinement.kway_fm.use_exact_abortion_threshold)
  F(refinement.kway_fm.abortion_threshold) F(refinement.kway_fm.gain_cache_strategy) F(refinement.kway_fm.constant_high_degree_threshold)
  F(refinement.kway_fm.k_based_high_degree_threshold) F(refinement.kway_fm.minimal_parallelism) F(refinement.kway_fm.dbg_compute_batch_stats)
  F(refinement.kway_fm.dbg_report_progress)
  F(refinement.jet.num_iterations) F(refinement.jet.num_fruitless_iterations) F(refinement.jet.fruitless_threshold)
  F(refinement.jet.num_rounds_on_fine_level) F(refinement.jet.num_rounds_on_coarse_level) F(refinement.jet.initial_gain_temp_on_fine_level)
  F(refinement.jet.final_gain_temp_on_fine_level) F(refinement.jet.initial_gain_temp_on_coarse_level)
  F(refinement.jet.final_gain_temp_on_coarse_level) F(refinement.jet.balancing_algorithm)
  F(refinement.mtkahypar.config_filename) F(refinement.mtkahypar.coarse_config_filename) F(refinement.mtkahypar.fine_config_filename)
  F(parallel.num_threads)
  F(debug.graph_name) F(debug.dump_graph_filename) F(debug.dump_partition_filename) F(debug.dump_toplevel_graph) F(debug.dump_toplevel_partition)
  F(debug.dump_coarsest_graph) F(debug.dump_coarsest_partition) F(debug.dump_graph_hierarchy) F(debug.dump_partition_hierarchy)
#undef F
  return f;
}
static Fields fields(const ApplicationContext &ctx) {
  Fields f;
#define F(x) f["app." #x] = show(ctx.x);
  F(dump_config) F(show_version) F(seed) F(num_threads) F(max_timer_depth) F(k) F(epsilon) F(max_block_weights) F(max_block_weight_factors)
  F(verbosity) F(validate) F(graph_filename) F(input_graph_file_format) F(ignore_edge_weights) F(partition_filename)
  F(rearranged_graph_filename) F(rearranged_mapping_filename) F(block_sizes_filename) F(output_graph_file_format) F(no_huge_pages) F(dry_run)
#undef F
  return f;
}
static std::set<std::string> differing(const Context &a, const Context &b) {
  std::set<std::string> s;
  const Fields x = fields(a), y = fields(b);
  for (auto &[k, v] : x) if (y.at(k) != v) s.insert(k);
  return s;
}

static const std::vector<std::string> PRESETS = {"default", "fast", "strong", "fm", "largek", "largek-fast", "largek-strong", "terapart",
  "terapart-strong", "terapart-largek", "jet", "4xjet", "noref", "vcycle", "restricted-vcycle"};

// What is known about the options: how to write a value, and what it does
struct Model { Context ctx; ApplicationContext app; };
struct Value { std::vector<std::string> args; std::function<void(Model &)> apply; };
struct Opt { std::string name; bool app; std::function<Value(Gen &)> make; };

static const Names<NodeOrdering> N_NODE = {{"natural", NodeOrdering::NATURAL}, {"deg-buckets", NodeOrdering::DEGREE_BUCKETS}, {"degree-buckets", NodeOrdering::DEGREE_BUCKETS}, {"external-deg-buckets", NodeOrdering::EXTERNAL_DEGREE_BUCKETS}, {"external-degree-buckets", NodeOrdering::EXTERNAL_DEGREE_BUCKETS}, {"implicit-deg-buckets", NodeOrdering::IMPLICIT_DEGREE_BUCKETS}, {"implicit-degree-buckets", NodeOrdering::IMPLICIT_DEGREE_BUCKETS}};
static const Names<EdgeOrdering> N_EDGE = {{"natural", EdgeOrdering::NATURAL}, {"compression", EdgeOrdering::COMPRESSION}};
static const Names<CoarseningAlgorithm> N_COARSEN = {{"noop", CoarseningAlgorithm::NOOP}, {"clustering", CoarseningAlgorithm::CLUSTERING}};
static const Names<ClusteringAlgorithm> N_CLUSTER = {{"noop", ClusteringAlgorithm::NOOP}, {"lp", ClusteringAlgorithm::LABEL_PROPAGATION}};
static const Names<ClusterWeightLimit> N_LIMIT = {{"epsilon-block-weight", ClusterWeightLimit::EPSILON_BLOCK_WEIGHT}, {"static-block-weight", ClusterWeightLimit::BLOCK_WEIGHT}, {"one", ClusterWeightLimit::ONE}, {"zero", ClusterWeightLimit::ZERO}};
static const Names<LabelPropagationImplementation> N_LP = {{"single-phase", LabelPropagationImplementation::SINGLE_PHASE}, {"two-phase", LabelPropagationImplementation::TWO_PHASE}, {"growing-hash-tables", LabelPropagationImplementation::GROWING_HASH_TABLES}};
static const Names<RefinementAlgorithm> N_REF = {{"noop", RefinementAlgorithm::NOOP}, {"lp", RefinementAlgorithm::LABEL_PROPAGATION}, {"fm", RefinementAlgorithm::KWAY_FM}, {"jet", RefinementAlgorithm::JET}, {"greedy-balancer", RefinementAlgorithm::GREEDY_BALANCER}, {"mtkahypar", RefinementAlgorithm::MTKAHYPAR}};
static const Names<FMStoppingRule> N_STOP = {{"simple", FMStoppingRule::SIMPLE}, {"adaptive", FMStoppingRule::ADAPTIVE}};
static const Names<PartitioningMode> N_MODE = {{"deep", PartitioningMode::DEEP}, {"vcycle", PartitioningMode::VCYCLE}, {"rb", PartitioningMode::RB}, {"kway", PartitioningMode::KWAY}};
static const Names<InitialPartitioningMode> N_IPMODE = {{"sequential", InitialPartitioningMode::SEQUENTIAL}, {"async-parallel", InitialPartitioningMode::ASYNCHRONOUS_PARALLEL}, {"sync-parallel", InitialPartitioningMode::SYNCHRONOUS_PARALLEL}, {"communities", InitialPartitioningMode::COMMUNITIES}};
static const Names<GainCacheStrategy> N_GC = {{"compact-hashing", GainCacheStrategy::COMPACT_HASHING}, {"compact-hashing-largek", GainCacheStrategy::COMPACT_HASHING_LARGE_K}, {"sparse", GainCacheStrategy::SPARSE}, {"sparse-largek", GainCacheStrategy::SPARSE_LARGE_K}, {"hashing", GainCacheStrategy::HASHING}, {"hashing-largek", GainCacheStrategy::HASHING_LARGE_K}, {"dense", GainCacheStrategy::DENSE}, {"dense-largek", GainCacheStrategy::DENSE_LARGE_K}, {"on-the-fly", GainCacheStrategy::ON_THE_FLY}};
static const Names<TieBreakingStrategy> N_TIE = {{"geometric", TieBreakingStrategy::GEOMETRIC}, {"uniform", TieBreakingStrategy::UNIFORM}};
static const Names<TwoHopStrategy> N_HOP = {{"disable", TwoHopStrategy::DISABLE}, {"match", TwoHopStrategy::MATCH}, {"match-threadwise", TwoHopStrategy::MATCH_THREADWISE}, {"cluster", TwoHopStrategy::CLUSTER}, {"cluster-threadwise", TwoHopStrategy::CLUSTER_THREADWISE}};
static const Names<IsolatedNodesClusteringStrategy> N_ISO = {{"keep", IsolatedNodesClusteringStrategy::KEEP}, {"match", IsolatedNodesClusteringStrategy::MATCH}, {"cluster", IsolatedNodesClusteringStrategy::CLUSTER}, {"match-during-two-hop", IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP}, {"cluster-during-two-hop", IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP}};
static const Names<ContractionAlgorithm> N_CON = {{"buffered", ContractionAlgorithm::BUFFERED}, {"buffered-legacy", ContractionAlgorithm::BUFFERED_LEGACY}, {"unbuffered", ContractionAlgorithm::UNBUFFERED}, {"unbuffered-naive", ContractionAlgorithm::UNBUFFERED_NAIVE}};
static const Names<ContractionImplementation> N_CONI = {{"single-phase", ContractionImplementation::SINGLE_PHASE}, {"two-phase", ContractionImplementation::TWO_PHASE}, {"growing-hash-tables", ContractionImplementation::GROWING_HASH_TABLES}};
static const Names<io::GraphFileFormat> N_FMT = {{"metis", io::GraphFileFormat::METIS}, {"parhip", io::GraphFileFormat::PARHIP}};

static const std::vector<Opt> &options() {
  static std::vector<Opt> o;
  if (!o.empty()) return o;
  auto add = [&](const std::string &name, bool app, std::function<Value(Gen &)> f) { o.push_back({name, app, f}); };
#define ENUM(name, names, field) add(name, false, [](Gen &g) { const auto x = g.pick(names); return Value{{name, x.first}, [x](Model &m) { m.ctx.field = x.second; }}; });
#define INT(name, field) add(name, false, [](Gen &g) { using T = std::decay_t<decltype(std::declval<Context>().field)>; const T x = gen_int<T>(g); return Value{{name, std::to_string(x)}, [x](Model &m) { m.ctx.field = x; }}; });
#define DBL(name, field) add(name, false, [](Gen &g) { const double x = gen_double(g, g.flip() ? 6 : 17); return Value{{name, show(x)}, [x](Model &m) { m.ctx.field = x; }}; });
#define STR(name, field) add(name, false, [](Gen &g) { std::string x = gen_name(g); if (x == "-") x = "y"; return Value{{name, x}, [x](Model &m) { m.ctx.field = x; }}; });
#define BOOLOPT(name, field) add(name, false, [](Gen &g) { const bool x = g.flip(); return Value{{name, x ? g.pick<std::string>({"true", "1", "on", "yes"}) : g.pick<std::string>({"false", "0", "off", "no"})}, [x](Model &m) { m.ctx.field = x; }}; });
#define FLAG(name, field) add(name, false, [](Gen &g) { const int x = g.weighted({3, 1, 1}); return Value{{x == 0 ? name : x == 1 ? name "=true" : name "=false"}, [x](Model &m) { m.ctx.field = x != 2; }}; });
#define FLAGVAL(name, field, value) add(name, false, [](Gen &) { return Value{{name}, [](Model &m) { m.ctx.field = value; }}; });
  FLAG("--compress", compression.enabled)
  add("-c", false, [](Gen &) { return Value{{"-c"}, [](Model &m) { m.ctx.compression.enabled = true; }}; });
  ENUM("--p-mode", N_MODE, partitioning.mode)
  ENUM("-m", N_MODE, partitioning.mode)
  ENUM("--p-deep-initial-partitioning-mode", N_IPMODE, partitioning.deep_initial_partitioning_mode)
  DBL("--p-deep-initial-partitioning-load", partitioning.deep_initial_partitioning_load)
  INT("--p-min-consecutive-seq-bipartitioning-levels", partitioning.min_consecutive_seq_bipartitioning_levels)
  BOOLOPT("--p-lazy-extract-subgraph-memory", partitioning.use_lazy_subgraph_memory)
  FLAG("--p-refine-after-extending", partitioning.refine_after_extending_partition)
  FLAG("--p-rb-kway-toplevel-refinement", partitioning.rb_enable_kway_toplevel_refinement)
  FLAG("--p-restrict-vcycle-refinement", partitioning.restrict_vcycle_refinement)
  add("--p-vcycles", false, [](Gen &g) {
    std::vector<BlockID> v;
    Value r{{"--p-vcycles"}, {}};
    for (u64 i = 0, c = 1 + g.draw(4); i < c; ++i) { v.push_back(gen_int<BlockID>(g)); r.args.push_back(std::to_string(v.back())); }
    r.apply = [v](Model &m) { m.ctx.partitioning.vcycles = v; };
    return r;
  });
  ENUM("--node-order", N_NODE, node_ordering)
  ENUM("--edge-order", N_EDGE, edge_ordering)
  ENUM("--c-algorithm", N_COARSEN, coarsening.algorithm)
  INT("--c-contraction-limit", coarsening.contraction_limit)
  DBL("--c-convergence-threshold", coarsening.convergence_threshold)
  DBL("--c-shrink-factor", coarsening.clustering.shrink_factor)
  ENUM("--c-clustering-algorithm", N_CLUSTER, coarsening.clustering.algorithm)
  ENUM("--c-cluster-weight-limit", N_LIMIT, coarsening.clustering.cluster_weight_limit)
  DBL("--c-cluster-weight-multiplier", coarsening.clustering.cluster_weight_multiplier)
  INT("--c-max-memory-free-coarsening-level", coarsening.clustering.max_mem_free_coarsening_level)
  FLAG("--c-forced-kc-level", coarsening.clustering.forced_kc_level)
  FLAG("--c-forced-pc-level", coarsening.clustering.forced_pc_level)
  DBL("--c-forced-level-upper-factor", coarsening.clustering.forced_level_upper_factor)
  DBL("--c-forced-level-lower-factor", coarsening.clustering.forced_level_lower_factor)
  INT("--c-lp-num-iterations", coarsening.clustering.lp.num_iterations)
  INT("--c-lp-active-large-degree-threshold", coarsening.clustering.lp.large_degree_threshold)
  INT("--c-lp-max-num-neighbors", coarsening.clustering.lp.max_num_neighbors)
  ENUM("--c-lp-tie-breaking-strategy", N_TIE, coarsening.clustering.lp.tie_breaking_strategy)
  ENUM("--c-lp-impl", N_LP, coarsening.clustering.lp.impl)
  BOOLOPT("--c-lp-second-phase-relabel", coarsening.clustering.lp.relabel_before_second_phase)
  ENUM("--c-lp-two-hop-strategy", N_HOP, coarsening.clustering.lp.two_hop_strategy)
  DBL("--c-lp-two-hop-threshold", coarsening.clustering.lp.two_hop_threshold)
  ENUM("--c-lp-isolated-nodes-strategy", N_ISO, coarsening.clustering.lp.isolated_nodes_strategy)
  ENUM("--c-contraction-algorithm", N_CON, coarsening.contraction.algorithm)
  ENUM("--c-contraction-unbuffered-impl", N_CONI, coarsening.contraction.unbuffered_implementation)
  DBL("--c-con-edge-buffer-fill-fraction", coarsening.contraction.edge_buffer_fill_fraction)
  FLAG("--i-r-disable", initial_partitioning.refinement.disabled)
  FLAG("--i-adaptive-epsilon", initial_partitioning.use_adaptive_epsilon)
  add("--r-algorithms", false, [](Gen &g) {
    std::vector<RefinementAlgorithm> v;
    Value r{{}, {}};
    const bool repeat = g.flip(); // the option once with several values, or several times
    for (u64 i = 0, c = 1 + g.draw(4); i < c; ++i) {
      const auto x = g.pick(N_REF);
      if (i == 0 || repeat) r.args.push_back("--r-algorithms");
      r.args.push_back(x.first);
      v.push_back(x.second);
    }
    r.apply = [v](Model &m) { m.ctx.refinement.algorithms = v; };
    return r;
  });
  INT("--r-lp-num-iterations", refinement.lp.num_iterations)
  INT("--r-lp-active-large-degree-threshold", refinement.lp.large_degree_threshold)
  INT("--r-lp-max-num-neighbors", refinement.lp.max_num_neighbors)
  ENUM("--r-lp-impl", N_LP, refinement.lp.impl)
  ENUM("--r-lp-tie-breaking-strategy", N_TIE, refinement.lp.tie_breaking_strategy)
  INT("--r-fm-num-iterations", refinement.kway_fm.num_iterations)
  INT("--r-fm-num-seed-nodes", refinement.kway_fm.num_seed_nodes)
  DBL("--r-fm-abortion-threshold", refinement.kway_fm.abortion_threshold)
  FLAGVAL("--r-fm-lock-locally-moved-nodes", refinement.kway_fm.unlock_locally_moved_nodes, false)
  FLAGVAL("--r-fm-unlock-locally-moved-nodes", refinement.kway_fm.unlock_locally_moved_nodes, true)
  FLAGVAL("--r-fm-lock-seed-nodes", refinement.kway_fm.unlock_seed_nodes, false)
  FLAGVAL("--r-fm-unlock-seed-nodes", refinement.kway_fm.unlock_seed_nodes, true)
  ENUM("--r-fm-gc", N_GC, refinement.kway_fm.gain_cache_strategy)
  INT("--r-fm-gc-const-hd-threshold", refinement.kway_fm.constant_high_degree_threshold)
  DBL("--r-fm-gc-k-based-hd-threshold", refinement.kway_fm.k_based_high_degree_threshold)
  INT("--r-fm-minimal-parallelism-pm", refinement.kway_fm.minimal_parallelism)
  FLAG("--r-fm-dbg-batch-stats", refinement.kway_fm.dbg_compute_batch_stats)
  FLAG("--r-fm-dbg-report-progress", refinement.kway_fm.dbg_report_progress)
  INT("--r-jet-num-iterations", refinement.jet.num_iterations)
  INT("--r-jet-num-fruitless-iterations", refinement.jet.num_fruitless_iterations)
  DBL("--r-jet-fruitless-threshold", refinement.jet.fruitless_threshold)
  INT("--r-jet-num-rounds-on-fine-level", refinement.jet.num_rounds_on_fine_level)
  INT("--r-jet-num-rounds-on-coarse-level", refinement.jet.num_rounds_on_coarse_level)
  DBL("--r-jet-initial-gain-temp-on-fine-level", refinement.jet.initial_gain_temp_on_fine_level)
  DBL("--r-jet-final-gain-temp-on-fine-level", refinement.jet.final_gain_temp_on_fine_level)
  DBL("--r-jet-initial-gain-temp-on-coarse-level", refinement.jet.initial_gain_temp_on_coarse_level)
  DBL("--r-jet-final-gain-temp-on-coarse-level", refinement.jet.final_gain_temp_on_coarse_level)
  STR("--r-mtkahypar-config", refinement.mtkahypar.config_filename)
  STR("--r-mtkahypar-config-fine", refinement.mtkahypar.fine_config_filename)
  STR("--r-mtkahypar-config-coarse", refinement.mtkahypar.coarse_config_filename)
  STR("--d-dump-graph-filename", debug.dump_graph_filename)
  STR("--d-dump-partition-filename", debug.dump_partition_filename)
  FLAG("--d-dump-toplevel-graph", debug.dump_toplevel_graph)
  FLAG("--d-dump-toplevel-partition", debug.dump_toplevel_partition)
  FLAG("--d-dump-coarsest-graph", debug.dump_coarsest_graph)
  FLAG("--d-dump-coarsest-partition", debug.dump_coarsest_partition)
  FLAG("--d-dump-graph-hierarchy", debug.dump_graph_hierarchy)
  FLAG("--d-dump-partition-hierarchy", debug.dump_partition_hierarchy)
  // options of the program
#define AINT(name, field, lo, hi) add(name, true, [](Gen &g) { const i64 x = g.range(lo, hi); return Value{{name, std::to_string(x)}, [x](Model &m) { m.app.field = x; }}; });
#define ASTR(name, field) add(name, true, [](Gen &g) { std::string x = gen_name(g); if (x == "-") x = "y"; return Value{{name, x}, [x](Model &m) { m.app.field = x; }}; });
#define AFLAG(name, field, value) add(name, true, [](Gen &) { return Value{{name}, [](Model &m) { m.app.field = value; }}; });
#define AENUM(name, names, field) add(name, true, [](Gen &g) { const auto x = g.pick(names); return Value{{name, x.first}, [x](Model &m) { m.app.field = x.second; }}; });
  AINT("--seed", seed, -5, 2147483647) AINT("-s", seed, 0, 100) AINT("--threads", num_threads, 1, 500) AINT("-t", num_threads, 1, 64)
  AINT("--max-timer-depth", max_timer_depth, 0, 9)
  add("--epsilon", true, [](Gen &g) { const double x = gen_double(g, 17); return Value{{g.flip() ? "-e" : "--epsilon", show(x)}, [x](Model &m) { m.app.epsilon = x; }}; });
  AFLAG("-q", verbosity, -1) AFLAG("--quiet", verbosity, -1)
  add("--verbose", true, [](Gen &g) { const int c = g.range(1, 3); return Value{std::vector<std::string>(c, "--verbose"), [c](Model &m) { m.app.verbosity = c; }}; });
  AFLAG("-T", max_timer_depth, 2147483647)
  AENUM("-f", N_FMT, input_graph_file_format) AENUM("--graph-file-format", N_FMT, input_graph_file_format) AENUM("--input-graph-file-format", N_FMT, input_graph_file_format)
  AENUM("--output-graph-file-format", N_FMT, output_graph_file_format)
  AFLAG("--ignore-edge-weights", ignore_edge_weights, true) AFLAG("--validate", validate, true) AFLAG("--no-huge-pages", no_huge_pages, true) AFLAG("--dry-run", dry_run, true)
  ASTR("-o", partition_filename) ASTR("--output", partition_filename) ASTR("--output-rearranged-graph", rearranged_graph_filename)
  ASTR("--output-rearranged-graph-mapping", rearranged_mapping_filename) ASTR("--output-block-sizes", block_sizes_filename)
  return o;
}

static std::string parse(const std::vector<std::string> &args, Model &m) { // "" or why the command line was refused
  CLI::App cli("KaMinPar");
  m.ctx = create_default_context();
  m.app = ApplicationContext{};
  setup_context(cli, m.app, m.ctx);
  std::vector<std::string> rev(args.rbegin(), args.rend());
  try {
    cli.parse(rev);
  } catch (const CLI::Error &e) {
    return e.get_name() + ": " + e.what();
  }
  return "";
}
static std::string target(const std::string &name) { // options that set the same thing
  static const std::map<std::string, std::string> a = {{"-c", "--compress"}, {"-m", "--p-mode"}, {"-s", "--seed"}, {"-t", "--threads"}, {"-q", "V"}, {"--quiet", "V"}, {"--verbose", "V"}, {"-T", "--max-timer-depth"}, {"-f", "F"}, {"--graph-file-format", "F"}, {"--input-graph-file-format", "F"}, {"-o", "--output"}, {"--r-fm-lock-locally-moved-nodes", "L"}, {"--r-fm-unlock-locally-moved-nodes", "L"}, {"--r-fm-lock-seed-nodes", "S"}, {"--r-fm-unlock-seed-nodes", "S"}};
  auto it = a.find(name);
  return it == a.end() ? name : it->second;
}
// Option values for distinct settings
static std::vector<Value> gen_options(Gen &g, u64 max, bool app, std::set<std::string> *names = nullptr) {
  std::vector<Value> v;
  std::set<std::string> used;
  for (u64 i = 0, c = g.draw(max + 1); i < c; ++i) {
    const Opt &o = options()[g.draw(options().size())];
    if ((o.app && !app) || !used.insert(target(o.name)).second) continue;
    v.push_back(o.make(g));
    if (names) names->insert(target(o.name));
  }
  return v;
}

PBT_TEST(command_line, 5) { // an option changes exactly the setting it names
  const File graph("0 0\n");
  Model want{create_default_context(), {}};
  std::vector<std::vector<std::string>> groups;
  if (g.flip()) {
    const std::string preset = g.pick(PRESETS);
    want.ctx = create_context_by_preset_name(preset);
    groups.push_back({g.flip() ? "-P" : "--preset", preset});
    g.label("preset");
  }
  switch (g.draw(3)) {
  case 0: want.app.k = g.range(2, 4294967295ll); groups.push_back({g.flip() ? "-k" : "--k", std::to_string(want.app.k)}); break;
  case 1: {
    groups.push_back({g.flip() ? "-B" : "--block-weights"});
    for (u64 i = 0, c = g.range(1, 5); i < c; ++i) { want.app.max_block_weights.push_back(g.draw(1000000)); groups.back().push_back(std::to_string(want.app.max_block_weights.back())); }
    break;
  }
  default: {
    groups.push_back({g.flip() ? "-b" : "--block-weight-factors"});
    for (u64 i = 0, c = g.range(1, 5); i < c; ++i) { want.app.max_block_weight_factors.push_back(gen_double(g, 17)); groups.back().push_back(show(want.app.max_block_weight_factors.back())); }
  }
  }
  groups.push_back({g.flip() ? "-G" : "--graph", graph.path});
  want.app.graph_filename = graph.path;
  for (auto &v : gen_options(g, 12, true)) { v.apply(want); groups.push_back(v.args); }
  Rng r(g.seed());
  r.shuffle(groups); // the order on the command line does not matter, not even that of the preset
  std::vector<std::string> args;
  for (auto &x : groups) args.insert(args.end(), x.begin(), x.end());
  g.note(join(args));
  g.nontrivial(groups.size() > 3);
  Model got;
  const std::string err = parse(args, got);
  CHECK_MSG(err.empty(), "refused", "the command line is refused: " << err);
  std::string d = diff(fields(got.ctx), fields(want.ctx)) + diff(fields(got.app), fields(want.app));
  CHECK_MSG(d.empty(), "setting", "wrong settings:" << d);
}

PBT_TEST(dump, 3) { // what --dump-config writes reproduces the configuration
  struct Plain { Plain() { plain_names = true; } ~Plain() { plain_names = false; } } plain;
  Model want{create_default_context(), {}};
  std::vector<std::string> args;
  std::string preset;
  if (g.chance(2, 3)) {
    preset = g.pick(PRESETS);
    want.ctx = create_context_by_preset_name(preset);
    args = {"-P", preset};
    g.label("preset:" + preset);
  }
  for (auto &v : gen_options(g, 10, false)) { v.apply(want); args.insert(args.end(), v.args.begin(), v.args.end()); }
  args.push_back("--dump-config");
  g.note(join(args));
  g.nontrivial(args.size() > 1);
  const Run r = run_program(args);
  CHECK_MSG(r.status >= 0, "crash", "--dump-config ends with signal " << -r.status);
  CHECK_MSG(r.err.empty(), "refused", "--dump-config: " << r.err);
  const File conf(r.out);
  std::vector<std::string> args2 = {g.flip() ? "-C" : "--config", conf.path, "--version"};
  want.app.show_version = true;
  if (g.flip()) { // the command line goes first
    for (auto &v : gen_options(g, 4, true)) { v.apply(want); args2.insert(args2.end(), v.args.begin(), v.args.end()); }
    g.label("overridden");
    g.note(" then " + join(args2));
  }
  Model got;
  const std::string err = parse(args2, got);
  CHECK_MSG(err.empty(), "refused", "the dumped configuration is refused: " << err);
  const std::string d = diff(fields(got.ctx), fields(want.ctx), 1e-5) + diff(fields(got.app), fields(want.app));
  CHECK_MSG(d.empty(), "lost", "the dumped configuration differs from the one dumped:" << d);
}

PBT_TEST(enumerations, 1) { // exhaustive: all values of all enumerations
  const int which = g.draw(17);
  g.note("enumeration " + std::to_string(which));
  g.nontrivial();
  switch (which) {
  case 0: check_names("node ordering", N_NODE, get_node_orderings()); break;
  case 1: check_names("edge ordering", N_EDGE, get_edge_orderings()); break;
  case 2: check_names("coarsening", N_COARSEN, get_coarsening_algorithms()); break;
  case 3: check_names("clustering", N_CLUSTER, get_clustering_algorithms()); break;
  case 4: check_names("cluster weight limit", N_LIMIT, get_cluster_weight_limits()); break;
  case 5: check_names("label propagation", N_LP, get_lp_implementations()); break;
  case 6: check_names("refinement", N_REF, get_kway_refinement_algorithms()); break;
  case 7: check_names("stopping rule", N_STOP, get_fm_stopping_rules()); break;
  case 8: check_names("mode", N_MODE, get_partitioning_modes()); break;
  case 9: check_names("initial mode", N_IPMODE, get_initial_partitioning_modes()); break;
  case 10: check_names("gain cache", N_GC, get_gain_cache_strategies()); break;
  case 11: check_names("ties", N_TIE, get_tie_breaking_strategies()); break;
  case 12: check_names("two-hop", N_HOP, get_two_hop_strategies()); break;
  case 13: check_names("isolated nodes", N_ISO, get_isolated_nodes_clustering_strategies()); break;
  case 14: check_names("contraction", N_CON, get_contraction_algorithms()); break;
  case 15: check_names("contraction implementation", N_CONI, get_contraction_implementations()); break;
  default: check_names("file format", N_FMT, io::get_graph_file_formats()); break;
  }
}

PBT_TEST(help, 1) { // values the help text lists for an option are accepted
  CLI::App cli("KaMinPar");
  Model m{create_default_context(), {}};
  setup_context(cli, m.app, m.ctx);
  std::vector<std::pair<std::string, std::string>> cases;
  std::function<void(CLI::App *)> walk = [&](CLI::App *a) {
    for (auto *o : a->get_options()) {
      if (o->get_lnames().empty()) continue;
      std::istringstream in(o->get_description());
      for (std::string line; std::getline(in, line);) {
        std::smatch x;
        if (std::regex_match(line, x, std::regex("  - ([a-z0-9-]+)(:.*)?"))) cases.push_back({"--" + o->get_lnames()[0], x[1]});
      }
    }
    for (auto *s : a->get_subcommands([](CLI::App *) { return true; })) walk(s);
  };
  walk(&cli);
  CHECK_MSG(cases.size() > 20, "help", "only " << cases.size() << " documented values found");
  const auto c = cases[g.draw(cases.size())];
  g.note(c.first + " " + c.second);
  g.nontrivial();
  Model got;
  const std::string err = parse({"--version", c.first, c.second}, got);
  CHECK_MSG(err.empty(), "refused", "documented value refused: " << err);
}

PBT_TEST(presets, 1) {
  using S = std::set<std::string>;
  const auto names = get_preset_names();
  g.nontrivial();
  for (auto &p : PRESETS) CHECK_MSG(names.count(p), "missing", "preset '" << p << "' is not listed");
  auto get = [](const std::string &s) { return create_context_by_preset_name(s); };
  std::vector<std::string> all(names.begin(), names.end());
  std::sort(all.begin(), all.end());
  const std::string p = all[g.draw(all.size())];
  g.note(p);
  const Context c = get(p);
  { // the program accepts it, and both ways to select it agree
    Model m;
    const std::string err = parse({"-P", p, "--version"}, m);
    CHECK_MSG(err.empty(), "refused", "preset '" << p << "' refused: " << err);
    CHECK_MSG(differing(m.ctx, c).empty(), "differs", "-P " << p << " differs from create_context_by_preset_name: " << *differing(m.ctx, c).begin());
  }
  auto relation = [&](const std::string &a, const std::string &b, const S &allowed, const std::string &must = "") {
    const S d = differing(get(a), get(b));
    for (auto &x : d) CHECK_MSG(allowed.count(x), "differs", "presets '" << a << "' and '" << b << "' differ in " << x);
    if (!must.empty()) CHECK_MSG(d.count(must), "same", "presets '" << a << "' and '" << b << "' do not differ in " << must);
  };
  const S ref = {"refinement.algorithms"}, tera = {"compression.enabled", "partitioning.deep_initial_partitioning_mode"};
  const S reps = {"initial_partitioning.pool.min_num_repetitions", "initial_partitioning.pool.min_num_non_adaptive_repetitions", "initial_partitioning.pool.max_num_repetitions"};
  S fast = reps;
  fast.insert({"partitioning.deep_initial_partitioning_load", "coarsening.clustering.lp.num_iterations"});
  S lkfast = reps;
  lkfast.insert({"initial_partitioning.pool.enable_bfs_bipartitioner", "initial_partitioning.pool.enable_ggg_bipartitioner", "initial_partitioning.pool.enable_random_bipartitioner", "initial_partitioning.pool.refinement.disabled", "initial_partitioning.pool.refinement.num_iterations", "initial_partitioning.refine_pool_partition"});
  const S jet = {"refinement.jet.num_rounds_on_coarse_level", "refinement.jet.num_rounds_on_fine_level", "refinement.jet.initial_gain_temp_on_coarse_level", "refinement.jet.initial_gain_temp_on_fine_level", "refinement.jet.final_gain_temp_on_coarse_level", "refinement.jet.final_gain_temp_on_fine_level"};
  relation("fm", "strong", {});
  relation("fast", "default", fast, "coarsening.clustering.lp.num_iterations");
  relation("strong", "default", ref, "refinement.algorithms");
  relation("largek", "default", reps, "initial_partitioning.pool.max_num_repetitions");
  relation("largek-fast", "largek", lkfast, "initial_partitioning.pool.max_num_repetitions");
  relation("largek-strong", "largek", {"refinement.algorithms", "refinement.kway_fm.gain_cache_strategy"}, "refinement.algorithms");
  relation("terapart", "default", tera, "compression.enabled");
  relation("terapart-strong", "strong", tera, "compression.enabled");
  relation("terapart-largek", "largek", tera, "compression.enabled");
  relation("jet", "default", ref, "refinement.algorithms");
  relation("4xjet", "jet", jet, "refinement.jet.num_rounds_on_coarse_level");
  relation("noref", "default", ref, "refinement.algorithms");
  relation("vcycle", "default", {"partitioning.mode"}, "partitioning.mode");
  relation("restricted-vcycle", "vcycle", {"refinement.algorithms", "partitioning.restrict_vcycle_refinement"}, "partitioning.restrict_vcycle_refinement");
  using R = RefinementAlgorithm;
  auto has = [&](const char *s, R a, bool want) { CHECK_EQ(get(s).refinement.includes_algorithm(a), want, "algorithms", "preset '" << s << "' and refinement algorithm " << (int)a); };
  for (auto s : {"strong", "largek-strong", "terapart-strong", "fm"}) has(s, R::KWAY_FM, true);
  for (auto s : {"default", "fast", "largek", "terapart"}) { has(s, R::KWAY_FM, false); has(s, R::LABEL_PROPAGATION, true); has(s, R::GREEDY_BALANCER, true); }
  for (auto s : {"jet", "4xjet"}) has(s, R::JET, true);
  has("restricted-vcycle", R::GREEDY_BALANCER, false); // it does not respect communities
  CHECK_MSG(get("noref").refinement.algorithms.empty(), "algorithms", "preset 'noref' refines");
}
#endif

#if PART == 2
PBT_TEST(program, 8) {
  GraphOptions o;
  o.max_n = 2000;
  o.max_m = 12000;
  o.allow_empty = false;
  G gr = gen_graph(g, o);
  label_graph(g, gr);
  std::vector<std::string> args;
  auto arg = [&](std::initializer_list<std::string> x) { args.insert(args.end(), x); };
  // the input file
  const bool sorted = g.chance(1, 5);
  if (sorted) gr = bucket_sorted(gr);
  g.note(gr.str());
  const int format = g.weighted({3, 3, 1});
  bool compress = format == 2 || g.chance(1, 4);
  const File in(format == 0 ? metis_text(g, gr) : format == 1 ? parhip_text(g, gr) : "");
  if (format == 2) {
    const Run w = in_child([&] {
      io::compressed_binary::write(in.path, CompressedGraphBuilder::compress(to_csr(gr)));
      return 0;
    });
    CHECK_EQ(w.status, 0, "write", "writing a compressed graph");
    g.label("format:compressed");
  } else {
    if (format == 1) arg({"-f", "parhip"});
    else if (g.flip()) arg({"--input-graph-file-format", "metis"});
    g.label(format ? "format:parhip" : "format:metis");
  }
  arg({g.flip() ? "-G" : "--graph", in.path});
  if (sorted && format != 2 && g.chance(2, 3)) { arg({"--node-order", "implicit-deg-buckets"}); g.label("order:implicit"); }
  else switch (g.draw(4)) {
    case 0: arg({"--node-order", "natural"}); break;
    case 1: arg({"--node-order", "deg-buckets"}); break;
    case 2: arg({"--node-order", "external-deg-buckets"}); g.label("order:external"); break;
    default: break;
  }
  if (g.chance(1, 6)) arg({"--edge-order", "compression"});
  std::string preset = "default";
  if (g.chance(2, 3)) { preset = g.pick<std::string>({"default", "fast", "strong", "fm", "largek", "largek-fast", "largek-strong", "terapart", "terapart-strong", "terapart-largek", "jet", "4xjet", "noref", "vcycle", "restricted-vcycle"}); arg({"-P", preset}); }
  if (compress) arg({"-c"});
  compress = compress || preset.rfind("terapart", 0) == 0;
  if (compress) g.label("compressed");
  // the partition
  BlockID k = g.pick<BlockID>({2, 2, 3, 4, 5, 8, 16, 27, 64, 200});
  const i64 tw = gr.total_w();
  std::vector<i64> limits;
  switch (g.weighted({3, 2, 2, 2})) {
  case 0: {
    arg({"-k", std::to_string(k)});
    limits.assign(k, (i64)(1.03 * std::ceil(1.0 * tw / k)));
    break;
  }
  case 1: {
    const double eps = g.pick({0.0, 0.001, 0.1, 0.5, 3.0});
    arg({"-k", std::to_string(k), "-e", show_double(eps)});
    limits.assign(k, (i64)((1.0 + eps) * std::ceil(1.0 * tw / k)));
    break;
  }
  case 2: {
    g.label("limits:weights");
    k = std::min<BlockID>(k, 30);
    Rng r(g.seed());
    arg({"-B"});
    double s = 0;
    std::vector<double> share(k);
    for (auto &x : share) s += x = 1 + r.unit() * 3;
    for (auto &x : share) { limits.push_back((i64)std::ceil(1.1 * x / s * tw) + 1); args.push_back(std::to_string(limits.back())); }
    break;
  }
  default: {
    g.label("limits:factors");
    k = std::min<BlockID>(k, 30);
    Rng r(g.seed());
    arg({"-b"});
    double s = 0;
    std::vector<double> share(k);
    for (auto &x : share) s += x = 1 + r.unit() * 3;
    for (auto &x : share) { const std::string t = show_double(1.1 * x / s); limits.push_back((i64)std::ceil(std::strtod(t.c_str(), nullptr) * tw)); args.push_back(t); }
  }
  }
  if (g.flip()) arg({"-t", std::to_string(g.pick({1, 2, 4, 8}))});
  if (g.flip()) arg({"-s", std::to_string(g.draw(1000))});
  if (g.chance(2, 3)) arg({"--c-contraction-limit", std::to_string(g.pick({1, 5, 20, 100}))});
  if (g.chance(1, 6)) arg({"-m", "kway"});
  const bool ignore_ew = g.chance(1, 5), validate = g.chance(1, 5);
  if (ignore_ew) { arg({"--ignore-edge-weights"}); g.label("ignore-edge-weights"); }
  if (validate) arg({"--validate"});
  const int verbosity = g.weighted({3, 1, 1, 1}); // plain, quiet, verbose, very verbose
  if (verbosity == 1) arg({"-q"});
  for (int i = 1; i < verbosity; ++i) arg({"--verbose"});
  if (g.chance(1, 6)) arg({"-T"});
  if (g.chance(1, 6)) arg({"--no-huge-pages"});
  // the output
  const File out("old\n"), sizes("old\n"), rearranged("old\n"), mapping("old\n");
  arg({"-o", out.path});
  const bool with_sizes = g.chance(1, 2), with_rearranged = g.chance(1, 3), to_parhip = g.flip();
  if (with_sizes) { arg({"--output-block-sizes", sizes.path}); g.label("block-sizes"); }
  if (with_rearranged) {
    arg({"--output-rearranged-graph", rearranged.path, "--output-rearranged-graph-mapping", mapping.path, "--output-graph-file-format", to_parhip ? "parhip" : "metis"});
    g.label("rearranged");
  }
  g.note(join(args));
  g.nontrivial(gr.n >= 2);

  const Run r = run_program(args);
  CHECK_MSG(r.status >= 0, "crash", "the program ends with signal " << -r.status << ": " << tail(r.out + r.err));
  CHECK_MSG(r.status == 0, "exit", "exit status " << r.status << ": " << tail(r.out + r.err));

  const std::vector<i64> part = numbers(out.read(), "partition file");
  CHECK_EQ(part.size(), gr.n, "lines", "partition file");
  std::vector<i64> weight(k), size(k);
  for (u64 u = 0; u < gr.n; ++u) {
    CHECK_MSG(part[u] >= 0 && part[u] < k, "block", "node " << u << " is in block " << part[u]);
    weight[part[u]] += gr.w(u);
    ++size[part[u]];
  }
  G seen = gr;
  if (ignore_ew && !compress) seen.ew.clear();
  const i64 cut = seen.cut(part);
  if (verbosity == 1) {
    for (auto *x : {"Summary", "Edge cut", "RESULT"}) CHECK_MSG(r.out.find(x) == std::string::npos, "quiet", "output despite --quiet: " << tail(r.out));
  } else {
    const std::string text = plain(r.out);
    i64 x = 0;
    CHECK_MSG(find_number(text, "Number of blocks: +(\\d+)\n", x) && x == k, "report", "reported number of blocks: " << x << ": " << tail(text));
    CHECK_MSG(find_number(text, "Edge cut: +(-?\\d+)\n", x), "report", "no cut reported: " << tail(text));
    CHECK_EQ(x, cut, "cut", "reported cut and cut of the written partition");
    for (BlockID b = 0; b < std::min<BlockID>(k, 128); ++b) {
      CHECK_MSG(find_number(text, "w\\(" + std::to_string(b) + " *\\) = (-?\\d+)", x), "report", "no weight of block " << b);
      CHECK_EQ(x, weight[b], "weight", "reported and written weight of block " << b);
    }
    bool feasible = true;
    for (BlockID b = 0; b < k; ++b) feasible = feasible && weight[b] <= limits[b];
    CHECK_MSG(text.find(std::string("Feasible:         ") + (feasible ? "yes" : "no") + "\n") != std::string::npos, "feasible", "feasible is " << feasible << ": " << tail(text));
    if (verbosity > 1) {
      CHECK_MSG(find_number(text, "RESULT cut=(-?\\d+) ", x), "report", "no RESULT line");
      CHECK_EQ(x, cut, "cut", "RESULT line and cut of the written partition");
      CHECK_MSG(find_number(text, "RESULT .* feasible=(\\d+)", x) && x == (i64)feasible, "feasible", "RESULT line: feasible=" << x);
      CHECK_MSG(find_number(text, "RESULT .* k=(\\d+)", x) && x == k, "report", "RESULT line: k=" << x);
    }
  }
  if (with_sizes) {
    const std::vector<i64> s = numbers(sizes.read(), "block sizes");
    CHECK_MSG(s == size, "sizes", "written block sizes are wrong (" << s.size() << " lines, k=" << k << ")");
  }
  if (with_rearranged) {
    const std::vector<i64> map = numbers(mapping.read(), "mapping");
    const std::string text = rearranged.read();
    const G now = to_parhip ? parse_parhip(text) : parse_metis(text);
    CHECK_EQ(map.size(), gr.n, "mapping", "size of the mapping");
    CHECK_EQ(now.n, gr.n, "rearranged", "number of nodes");
    std::vector<i64> back(gr.n, -1);
    for (u64 u = 0; u < gr.n; ++u) {
      CHECK_MSG(map[u] >= 0 && (u64)map[u] < gr.n && back[map[u]] < 0, "mapping", "node " << u << " is mapped to " << map[u]);
      back[map[u]] = u;
    }
    std::set<i64> done;
    for (u64 x = 0; x < gr.n; ++x) {
      const u64 u = back[x];
      if (x > 0 && part[u] != part[back[x - 1]]) CHECK_MSG(done.insert(part[back[x - 1]]).second && !done.count(part[u]), "consecutive", "block " << part[u] << " is not consecutive");
      CHECK_EQ(now.w(x), gr.w(u), "rearranged", "weight of node " << u << " (now " << x << ")");
      const auto a = edges_of(now, x), b = edges_of(gr, u, &map);
      CHECK_MSG(a == b, "rearranged", "edges of node " << u << " (now " << x << ") are " << edge_text(a) << ", expected " << edge_text(b));
    }
  }
}

PBT_TEST(invalid, 2) { // no partition, a message and an error status
  const File graph("5 4\n2\n1 3\n2 4\n3 5\n4\n"), out("old\n");
  const std::string G = graph.path;
  const bool quiet = g.chance(1, 4);
  struct Case { const char *what; std::vector<std::string> args; };
  const File binary;
  std::vector<Case> cases = {
      {"missing file", {"-G", "/nonexistent/graph", "-k", "2"}},
      {"directory", {"-G", "/", "-k", "2"}},
      {"unknown format", {"-G", G, "-k", "2", "-f", g.pick<std::string>({"metsi", "", "7", "binary"})}},
      {"unknown output format", {"-G", G, "-k", "2", "--output-graph-file-format", "x"}},
      {"unknown preset", {"-G", G, "-k", "2", "-P", g.pick<std::string>({"quality", "", "Default", "fast "})}},
      {"too few blocks", {"-G", G, "-k", std::to_string(g.draw(2))}},
      {"negative k", {"-G", G, "-k", "-" + std::to_string(1 + g.draw(5))}},
      {"k too large", {"-G", G, "-k", "4294967296"}},
      {"k is no number", {"-G", G, "-k", g.pick<std::string>({"two", "2x", "", "2.5"})}},
      {"no blocks", {"-G", G}},
      {"no graph", {"-k", "2"}},
      {"nothing", {}},
      {"negative epsilon", {"-G", G, "-k", "2", "-e", g.pick<std::string>({"-0.1", "-1e-9", "x"})}},
      {"threads", {"-G", G, "-k", "2", "-t", g.pick<std::string>({"0", "-1", "x"})}},
      {"k and block weights", {"-G", G, "-k", "2", "-B", "4", "4"}},
      {"k and factors", {"-G", G, "-k", "2", "-b", "0.6", "0.6"}},
      {"both limits", {"-G", G, "-B", "4", "4", "-b", "0.6", "0.6"}},
      {"too small weights", {"-G", G, "-B", std::to_string(g.draw(3)), std::to_string(g.draw(4))}},
      {"negative weights", {"-G", G, "-B", "-4", "10"}},
      {"too small factors", {"-G", G, "-b", "0.3", g.pick<std::string>({"0.3", "0.7", "-0.1"})}},
      {"unknown option", {"-G", G, "-k", "2", "--c-unknown", "3"}},
      {"extra argument", {"-G", G, "-k", "2", "more"}},
      {"unknown value", {"-G", G, "-k", "2", g.pick<std::string>({"--c-lp-impl", "--node-order", "-m", "--r-algorithms", "--c-contraction-algorithm", "--r-fm-gc"}), g.pick<std::string>({"unknown", "", "LP"})}},
      {"missing configuration", {"-G", G, "-k", "2", "-C", "/nonexistent/config"}},
      {"compressed graph without -c", {"-G", binary.path, "-k", "2"}},
      {"unwritable partition", {"-G", G, "-k", "2", "-o", g.pick<std::string>({"/nonexistent/part", "/", "/dev/full"})}},
      {"unwritable block sizes", {"-G", G, "-k", "2", "--output-block-sizes", g.pick<std::string>({"/nonexistent/part", "/dev/full"})}},
      {"unwritable mapping", {"-G", G, "-k", "2", "--output-rearranged-graph", out.path, "--output-rearranged-graph-mapping", g.pick<std::string>({"/nonexistent/part", "/dev/full"})}},
      {"unwritable graph", {"-G", G, "-k", "2", "--output-rearranged-graph", g.pick<std::string>({"/nonexistent/part", "/dev/full"}), "--output-graph-file-format", g.pick<std::string>({"metis", "parhip"})}},
  };
  Case c = g.pick(cases);
  if (c.what == std::string("compressed graph without -c"))
    in_child([&] {
      pbt::G gr;
      gr.n = 2, gr.xadj = {0, 1, 2}, gr.adj = {1, 0};
      io::compressed_binary::write(binary.path, CompressedGraphBuilder::compress(to_csr(gr)));
      return 0;
    });
  const bool output = std::string(c.what).rfind("unwritable", 0) == 0;
  if (!output) c.args.insert(c.args.end(), {"-o", out.path});
  if (quiet) c.args.push_back("-q");
  g.note(std::string(c.what) + ": " + join(c.args));
  g.label(c.what);
  g.nontrivial();
  const Run r = run_program(c.args);
  CHECK_MSG(r.status >= 0, "crash", "the program ends with signal " << -r.status << ": " << tail(r.out + r.err));
  CHECK_MSG(r.status != 0, "accepted", "exit status 0: " << tail(r.out + r.err));
  // quiet mode suppresses all console output, including most error messages
  if (!quiet) CHECK_MSG(!r.err.empty() || !r.out.empty(), "silent", "no message");
  if (!output) CHECK_MSG(out.read() == "old\n", "written", "a partition is written");
}
#endif

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
