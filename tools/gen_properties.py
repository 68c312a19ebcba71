#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue). Source of truth for the wording."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

STABLE = ("The tests that run here cover string helpers, prefix sums and varint coding only; ")

prop("K01", "Every partitioning call terminates with a valid k-way assignment",
     "For every undirected graph without self-loops (the empty graph included), every number of blocks from two on (more blocks than nodes included; the recursive bisection mode only takes powers of two), "
     "every preset and thread count, partitioning terminates without crashing and assigns to every node exactly one block id in [0, k), "
     "indexed by the node ids of the caller's graph. No element behind the first n elements of the output is written, and this includes "
     "empty, edgeless, disconnected, isolated-node-heavy, star-like and heavily weighted graphs.",
     ["inputs", "configurations", "schedules"],
     "all graphs x node/edge weights x k x presets (deep, recursive bisection, k-way, v-cycle with ascending intermediate block counts) x preset overrides x thread counts x seeds",
     STABLE + "the upstream end-to-end test partitions one fixed grid-like graph with k=16. Which branch a run takes depends on size, degree, weight skew, k and thread interleaving.",
     ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/partitioning", "kaminpar-shm/initial_partitioning", "kaminpar-shm/coarsening", "kaminpar-shm/presets.cc"],
     [("public entry: preprocessing, partitioner dispatch, re-integration of isolated nodes, copy-out through the permutation", "kaminpar-shm/kaminpar.cc: KaMinPar::compute_partition"),
      ("deep multilevel driver and extension of the block count", "kaminpar-shm/partitioning/deep/deep_multilevel.cc, kaminpar-shm/partitioning/helper.cc"),
      ("isolated node re-assignment", "kaminpar-shm/graphutils/permutator.cc: assign_isolated_nodes")],
     observe=["KaMinPar::compute_partition output span"])

prop("K02", "The reported edge cut is the cut of the returned partition",
     "The value returned by a partitioning call equals the total weight of the edges (each undirected edge once) whose endpoints lie in "
     "different blocks of the returned assignment, evaluated on the graph the caller passed in. This holds for weighted and unweighted graphs, "
     "for all presets, thread counts and compressed or uncompressed inputs, also when nodes were reordered or isolated nodes were set aside internally.",
     ["inputs", "configurations", "schedules"],
     "all graphs x weights x presets x k x thread counts",
     STABLE + "upstream compares the cut for a single graph; a wrong permutation, weight mix-up or stale block only shows on graphs where it changes the sum.",
     ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/metrics.h", "kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/datastructures/csr_graph.h"],
     [("final cut computation", "kaminpar-shm/kaminpar.cc: compute_partition, kaminpar-shm/metrics.h: edge_cut"),
      ("node permutation on the way out", "kaminpar-shm/kaminpar.cc: _graph_ptr->map_original_node")])

prop("K03", "Partitions respect the requested block weight limits",
     "If all nodes have unit weight, no block of the returned partition is heavier than (1 + epsilon) times the average block weight rounded up "
     "(default epsilon 3%). When explicit limits or factors per block are given instead and leave every block room for rounding, every block stays within its own limit. "
     "For weighted nodes the same limit holds whenever the limit leaves room for the heaviest node in every block on top of the average. "
     "(Configurations without a top-level balancer give no such promise: refinement switched off, refinement restricted to the communities of a v-cycle, and plain recursive bisection.)",
     ["inputs", "configurations", "schedules"],
     "all unit-weight graphs and weighted graphs with slack x k x epsilon or per-block limits x presets x threads",
     STABLE + "no test covers per-block limits; the balance depends on the interplay of recursive bisection, adaptive epsilon, relaxed intermediate limits and the balancer over all inputs.",
     ["kaminpar-shm/kaminpar.h", "kaminpar-shm/kaminpar.cc", "kaminpar-shm/partitioning/partition_utils.cc", "kaminpar-shm/refinement/balancer/greedy_balancer.cc", "kaminpar-shm/partitioning/helper.cc", "kaminpar-shm/graphutils/permutator.cc"],
     [("block weight limits and inferred epsilon", "kaminpar-shm/kaminpar.cc: PartitionContext::setup, kaminpar-shm/kaminpar.h: infer_epsilon"),
      ("adaptive epsilon for bipartitions and limits of intermediate blocks", "kaminpar-shm/partitioning/partition_utils.cc, kaminpar-shm/partitioning/helper.cc"),
      ("rebalancing", "kaminpar-shm/refinement/balancer/greedy_balancer.cc")])

prop("K04", "Single-threaded runs are reproducible for a fixed seed",
     "With one thread, partitioning the same graph with the same configuration after re-seeding with the same seed returns the same assignment and cut, "
     "no matter what was partitioned before in the process, which partitioner object is used, or how verbose the output is.",
     ["inputs", "histories", "configurations"],
     "all graphs x configurations x seeds x preceding partitioning calls in the same process",
     STABLE + "upstream checks three seeds on one graph from a fresh state; leaks of state between calls (caches, timers, random generators, uninitialised memory) need histories.",
     ["kaminpar-common/random.h", "kaminpar-common/random.cc", "kaminpar-shm/kaminpar.cc", "kaminpar-shm/initial_partitioning"],
     [("re-seeding of all generators", "kaminpar-common/random.cc: Random::reseed"),
      ("thread-local pools reused between bipartitionings", "kaminpar-shm/partitioning/helper.h, kaminpar-shm/initial_partitioning/initial_bipartitioner_worker_pool.h")])

prop("K05", "Equivalent graph representations give equivalent partitions",
     "Passing a graph by copy, by borrowing or as a prepared graph object, with explicit all-one weights or no weights, gives the same single-threaded result, and the copying interface "
     "and the const inputs never modify the caller's arrays; borrowing leaves the arrays describing the same graph up to reordering of neighbours. "
     "Sequences of set-graph and partition calls with changing k, balance settings, verbosity and graphs on one partitioner object behave as the same calls on fresh objects.",
     ["inputs", "histories", "configurations"],
     "all graphs x ways of passing them x call histories on one instance",
     STABLE + "upstream has a handful of fixed call sequences on one graph; state such as 'already rearranged', stale limits or removed isolated nodes only matters in longer histories.",
     ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/kaminpar.h", "kaminpar-shm/datastructures/csr_graph.cc", "kaminpar-shm/datastructures/graph.cc"],
     [("graph ownership", "kaminpar-shm/kaminpar.cc: borrow_and_mutate_graph, copy_graph, set_graph"),
      ("rearrangement is done once per graph", "kaminpar-shm/kaminpar.cc: compute_partition (_was_rearranged)")],
     state=[("_was_rearranged", "graph already reordered", "kaminpar-shm/kaminpar.h")])

prop("K06", "Compressing a graph loses nothing",
     "A compressed graph, built sequentially or in parallel with any number of threads, answers every query as the uncompressed graph it was built from: numbers of nodes and edges, degrees, "
     "maximum degree, neighbourhoods with edge weights as multisets (also when iteration is stopped early, limited in length or done in parallel), node weights, total weights and whether weights are present. "
     "This holds for high-degree nodes, runs of consecutive neighbours, isolated nodes, empty graphs and any weights.",
     ["inputs", "schedules", "configurations"],
     "all graphs x weights x compression settings x builders x thread counts",
     STABLE + "upstream compares a few tiny fixed graphs; nodes above the high-degree threshold, part boundaries, interval boundaries and packet boundaries of the parallel builder are not reached.",
     ["kaminpar-common/graph_compression", "kaminpar-shm/datastructures/compressed_graph.h", "kaminpar-shm/graphutils/compressed_graph_builder.cc", "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"],
     [("encoder", "kaminpar-common/graph_compression/compressed_edges_builder.h"),
      ("decoder", "kaminpar-common/graph_compression/compressed_neighborhoods.h"),
      ("parallel stitching of per-thread buffers", "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h")])

prop("K07", "Integer codecs round-trip every value",
     "Every integer written with one of the variable-length codecs (plain, marked, signed and block-wise vectorised, the latter with any delta mode for 32-bit values) is read back exactly, the number of bytes written is the number "
     "announced beforehand and the number consumed by the reader, and consecutive values in one buffer do not disturb each other.",
     ["inputs"],
     "all sequences of 32- and 64-bit values, marker bits, signs, sequence lengths and buffer offsets",
     "The varint tests that run here use single sampled values; they do not cover sequences, block boundaries, deltas, weights or the vectorised coder.",
     ["kaminpar-common/graph_compression/varint.h", "kaminpar-common/graph_compression/streamvbyte.h"],
     [("varint family", "kaminpar-common/graph_compression/varint.h"),
      ("StreamVByte encoder/decoder", "kaminpar-common/graph_compression/streamvbyte.h")])

prop("K08", "Graph files round-trip and all file formats agree",
     "Writing a graph to a file and reading it back yields the same graph (structure, node and edge weights) for every supported format and reading mode (natural order, degree-bucket order, compressed on the fly, serialised compressed), "
     "and the formats agree with each other; order-changing modes return the same graph up to the announced node permutation. "
     "Node orderings never lose or duplicate nodes, edges or weights, and partitions written to a file are read back unchanged.",
     ["inputs", "configurations", "schedules"],
     "all graphs x weights x formats x orderings x id/weight widths in the header x whitespace and comment variants",
     STABLE + "there is no upstream test of the shared-memory readers at all besides helper tokenisers.",
     ["apps/io"],
     [("METIS reader/writer", "apps/io/shm_metis_parser.cc, apps/io/file_toker.h"),
      ("ParHIP reader/writer with header versions", "apps/io/shm_parhip_parser.cc"),
      ("serialised compressed graphs", "apps/io/shm_compressed_graph_binary.cc"),
      ("format dispatch, partition and remapping files", "apps/io/shm_io.cc")])

prop("K09", "Contraction preserves weights and projects partitions exactly",
     "Contracting a graph by any clustering yields a graph with one node per cluster, whose node weights are the summed member weights, whose edges join exactly those cluster pairs that are adjacent, with the summed edge weights, "
     "and without self-loops or duplicate edges; total node weight is preserved. Projecting any coarse labelling back gives every fine node the label of its cluster, so cut and block weights of a projected partition are unchanged. "
     "All contraction algorithms agree up to renumbering, for any thread count.",
     ["inputs", "configurations", "schedules"],
     "all graphs x clusterings (any leader ids) x contraction algorithms and implementations x buffer fill fractions x threads, CSR and compressed inputs",
     STABLE + "the upstream contraction tests use paths, grids and matchings of a few nodes; buffers never overflow, high-degree coarse nodes never trigger the second phase.",
     ["kaminpar-shm/coarsening/contraction", "kaminpar-shm/coarsening/cluster_coarsener.cc"],
     [("four contraction algorithms", "kaminpar-shm/coarsening/contraction/*.cc"),
      ("projection", "kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc: CoarseGraphImpl::project_up/down"),
      ("coarsening hierarchy", "kaminpar-shm/coarsening/cluster_coarsener.cc")])

prop("K10", "Clusterings respect weight limits and communities",
     "A clustering computed during coarsening assigns every node a cluster id in [0, n), no cluster with more than one member is heavier than the configured maximum cluster weight (with several threads: by more than one node per additional thread), "
     "every cluster lies within one connected component or consists of isolated nodes only, and if communities are given no cluster spans two of them. Isolated nodes are treated as their configured strategy says (kept, grouped only among themselves). "
     "This holds for every label propagation variant, two-hop strategy, isolated-node strategy, tie-breaking rule and degree limit, also when the same clusterer is reused for several graphs.",
     ["inputs", "configurations", "schedules", "histories"],
     "all graphs x maximum weights x communities x label propagation settings x thread counts x reuse",
     STABLE + "clustering is not tested upstream; overweight clusters arise only from concurrent joins or in the two-hop and isolated-node phases.",
     ["kaminpar-shm/label_propagation.h", "kaminpar-shm/coarsening/clustering/lp_clusterer.cc", "kaminpar-shm/coarsening/max_cluster_weights.h"],
     [("atomic weight-bounded moves", "kaminpar-shm/label_propagation.h: move_cluster_weight"),
      ("two-hop and isolated node clustering", "kaminpar-shm/label_propagation.h: match_or_cluster_*"),
      ("community check", "kaminpar-shm/coarsening/clustering/lp_clusterer.cc: accept_cluster")])

prop("K11", "Refinement never worsens or invalidates a partition",
     "Given any partition, each refinement algorithm leaves every node in a valid block, keeps the tracked block weights equal to the true block weights and does not move any node outside its community if communities are given. "
     "If all blocks were within their limits they still are after label propagation, balancing and Jet for any number of threads and after single-threaded local search (FM); the balancer leaves feasible partitions untouched. Starting from such a partition, Jet, single-threaded FM and single-threaded label propagation (without neighbourhood limits), alone or combined, do not increase the edge cut. For unit-weight graphs the balancer makes an infeasible partition feasible whenever the limits allow it.",
     ["inputs", "configurations", "schedules"],
     "all graphs x partitions (feasible or not) x limits x refinement algorithms and settings x threads",
     STABLE + "refiners have no upstream test; concurrency, overweight blocks and rollback paths depend on input and schedule.",
     ["kaminpar-shm/refinement"],
     [("label propagation refiner", "kaminpar-shm/refinement/lp/lp_refiner.cc"),
      ("localised FM with rollback", "kaminpar-shm/refinement/fm/fm_refiner.cc"),
      ("Jet", "kaminpar-shm/refinement/jet/jet_refiner.cc"),
      ("greedy balancer", "kaminpar-shm/refinement/balancer/greedy_balancer.cc"),
      ("block weights", "kaminpar-shm/datastructures/partitioned_graph.h: move, try_move_block_weight")])

prop("K12", "Gain caches always report the true gains",
     "After any sequence of node moves, every gain cache variant reports for every node and block exactly the summed weight of edges from the node to that block, the resulting gain of a move, and whether the node is a border node; iterating over a node's adjacent blocks offers every block that has connecting edges. This also holds after the balancer, which keeps the cache up to date, moved nodes. "
     "Speculative moves applied through a delta view change the view only, are reported exactly and vanish when the view is cleared.",
     ["inputs", "histories", "configurations", "schedules"],
     "all graphs x partitions x move sequences (also concurrent moves of distinct nodes) x cache variants x high-degree thresholds x k",
     STABLE + "the upstream gain cache test uses small fixed graphs with two or three moves; hash table collisions, deletions and width switches need long histories.",
     ["kaminpar-shm/refinement/gains", "kaminpar-common/datastructures/compact_hash_map.h"],
     [("gain caches", "kaminpar-shm/refinement/gains/{sparse,dense,hashing,compact_hashing,on_the_fly}_gain_cache.h"),
      ("delta caches", "kaminpar-shm/refinement/gains/delta_gain_caches.h"),
      ("linear probing table with deletions", "kaminpar-common/datastructures/compact_hash_map.h")])

prop("K13", "Block-induced subgraphs and their partitions are extracted exactly",
     "Extracting the subgraphs induced by the blocks of a partition yields, per block, exactly its nodes and the edges inside it with their weights, for every extraction routine (sequential, parallel, lazily per block, with shared or separate memory). "
     "Copying partitions of the subgraphs back assigns every node the block of its subgraph offset by the right number of preceding blocks, for every (also non power of two) final number of blocks, "
     "and splitting k blocks recursively always ends with exactly k blocks whose counts per sub-block differ by at most one at each bisection.",
     ["inputs", "configurations", "schedules"],
     "all graphs x partitions (also with empty blocks) x numbers of blocks x memory layouts x threads",
     STABLE + "upstream extracts from graphs with up to eight nodes in two to four blocks; empty blocks, missing weights and uneven splits are not covered.",
     ["kaminpar-shm/graphutils/subgraph_extractor.cc", "kaminpar-shm/partitioning/partition_utils.cc", "kaminpar-shm/partitioning/partition_utils.h"],
     [("subgraph memory layout", "kaminpar-shm/graphutils/subgraph_extractor.h: SubgraphMemory, SubgraphMemoryStartPosition"),
      ("extraction and copy back", "kaminpar-shm/graphutils/subgraph_extractor.cc"),
      ("k-splits", "kaminpar-shm/partitioning/partition_utils.cc: compute_final_k etc., kaminpar-common/math.h: split_integral")])

prop("K14", "Reordering nodes and edges and setting isolated nodes aside is lossless",
     "Rearranging a graph by degree buckets yields an isomorphic graph: the node permutation and its inverse are mutual bijections, nodes are ordered by degree class with isolated nodes last, and all neighbourhoods and weights follow; reordering edges changes only the order inside neighbourhoods. "
     "Removing the isolated nodes and adding them back restores the graph exactly, with consistent totals in between, and distributing them over the blocks keeps all other assignments: with unit weights no block limit is exceeded while another block has room, and with weights none is exceeded if every limit leaves room for the heaviest node on top of the average.",
     ["inputs", "schedules", "histories"],
     "all graphs x weights x numbers of isolated nodes x removal/re-integration sequences x threads",
     STABLE + "the upstream permutator tests cover three tiny graphs, and nothing covers removal of isolated nodes with weights.",
     ["kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/graphutils/permutator.h", "kaminpar-shm/datastructures/csr_graph.cc", "kaminpar-common/degree_buckets.h"],
     [("permutation", "kaminpar-shm/graphutils/permutator.h: sort_by_degree_buckets, build_permuted_graph"),
      ("isolated nodes", "kaminpar-shm/datastructures/csr_graph.cc: remove_isolated_nodes, integrate_isolated_nodes; permutator.cc: assign_isolated_nodes")])

prop("K15", "Priority queues always return an extremal element",
     "After any sequence of insertions, removals, key changes and clears, every priority queue variant contains exactly the elements of a plain map subjected to the same operations, returns a minimal or maximal key from the top, and reports membership, size and keys correctly; "
     "shared or per-block queues never mix up elements of different queues.",
     ["histories", "inputs"],
     "all operation sequences over ids, keys (with ties and negative keys) and capacities x min/max x addressable/dynamic/shared/with position variants",
     STABLE + "upstream heap tests are short hand-written sequences.",
     ["kaminpar-common/datastructures/binary_heap.h"],
     [("sift operations and position index", "kaminpar-common/datastructures/binary_heap.h")])

prop("K16", "Maps, sets, bit vectors and arrays behave like their simple models",
     "After any sequence of operations every map, marker, set, queue, bit vector with rank, packed array and resettable array returns exactly what a straightforward reference container holding the same data returns, including after clears, resizes, moves, growth at capacity boundaries, "
     "key collisions and deletions.",
     ["histories", "inputs"],
     "all operation sequences x capacities x key/value widths x data structure variants",
     STABLE + "upstream covers some of these with single hand-written sequences.",
     ["kaminpar-common/datastructures"],
     [("sparse and dynamic maps", "kaminpar-common/datastructures/{dynamic_map,rating_map,sparse_map,fixed_size_sparse_map,compact_hash_map}.h"),
      ("arrays", "kaminpar-common/datastructures/{static_array,fast_reset_array,compact_static_array,bitvector_rank,marker,queue}.h")])

prop("K17", "Parallel primitives equal their sequential definitions",
     "Parallel prefix sums, reductions, maxima, maximal differences, chunked and strided loops, atomics and bucketed prefix sums return what the sequential definition returns for every input length, value type and thread count, and iterate over every index exactly once. "
     "Integer helper functions (logarithms, powers of two, splitting an integer range, rounding) match their mathematical definition for all arguments.",
     ["inputs", "schedules"],
     "all inputs, lengths and numbers of threads; all integer arguments in range",
     "The tests that run here call the primitives on a few fixed arrays; block boundaries, lengths not divisible by the grain or by the thread count and concurrency are not covered.",
     ["kaminpar-common/parallel", "kaminpar-common/math.h", "kaminpar-common/math.h"],
     [("parallel algorithms", "kaminpar-common/parallel/algorithm.h, aligned_prefix_sum.h, loops.h, atomic.h"),
      ("integer helpers", "kaminpar-common/math.h")])

prop("K18", "Configurations survive being printed, dumped and parsed",
     "Every named preset can be created, equals the preset its alias denotes and differs from others only as documented; dumping the configuration selected on the command line and loading that dump reproduces the same configuration, "
     "every enumeration value printed by the program is accepted back as the same value (floating point settings to the six digits a dump holds), and options given on the command line change exactly the setting they name.",
     ["configurations", "inputs"],
     "all presets x all combinations of option values x all enumeration values",
     STABLE + "command line parsing has no upstream test beyond fixed presets.",
     ["kaminpar-cli/kaminpar_arguments.cc", "kaminpar-shm/context_io.cc", "kaminpar-shm/presets.cc", "apps/KaMinPar.cc"],
     [("enumeration tables and printers", "kaminpar-shm/context_io.cc"),
      ("option registration", "kaminpar-cli/kaminpar_arguments.cc"),
      ("presets", "kaminpar-shm/presets.cc")])

prop("K19", "Initial bipartitioning yields valid, balanced, correctly scored bipartitions",
     "Bipartitioning a small graph assigns every node to one of two blocks, and the sequential coarsening, all initial partitioners and the 2-way local search keep node weights, edge weights and block weights exact at each level; 2-way local search never worsens a feasible bipartition's cut nor makes it infeasible. "
     "If the limits leave room for the heaviest node and the heaviest cluster that coarsening may build on top of the balanced weights, the final bipartition respects both limits, for graphs of any structure including disconnected and edgeless ones, also when the worker objects are reused for many graphs of varying size.",
     ["inputs", "configurations", "histories"],
     "all small graphs x weights x pairs of block limits x pool settings x reuse histories of the same worker",
     STABLE + "upstream tests call single bipartitioners on a few fixed graphs; pooled objects keep arrays across calls.",
     ["kaminpar-shm/initial_partitioning"],
     [("sequential coarsening", "kaminpar-shm/initial_partitioning/initial_coarsener.cc"),
      ("pool of bipartitioners", "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc"),
      ("2-way FM", "kaminpar-shm/initial_partitioning/initial_fm_refiner.cc")])

prop("K20", "Partition metrics and block weights match their definitions",
     "Edge cut (sequential and parallel), imbalance, overload and feasibility equal their definitions on every graph and partition, and a partitioned graph's block weights equal the sums of node weights of its blocks after any sequence of single or concurrent moves, weight-limited moves, block changes and re-initialisations. "
     "A delta view on top of a partition reports exactly the combination of base and pending moves.",
     ["inputs", "histories", "schedules"],
     "all graphs, partitions and move sequences, also concurrent",
     STABLE + "upstream evaluates metrics on one or two small graphs.",
     ["kaminpar-shm/metrics.h", "kaminpar-shm/metrics.cc", "kaminpar-shm/datastructures/partitioned_graph.h", "kaminpar-shm/datastructures/delta_partitioned_graph.h"],
     [("metrics", "kaminpar-shm/metrics.h"),
      ("block weight bookkeeping", "kaminpar-shm/datastructures/partitioned_graph.h"),
      ("delta view", "kaminpar-shm/datastructures/delta_partitioned_graph.h")])

prop("K21", "The command line programs write what they compute",
     "For every valid input file and option combination, the partitioning program exits successfully and the partition file holds one valid block id per node in input order, whose recomputed cut, block weights and block sizes equal the reported and written ones; this holds for every input format, ordering and compression option. "
     "Rearranged graphs, node mappings and block size files describe the same graph and partition. Invalid invocations (missing input graph, unknown formats or values, contradicting or infeasible balance constraints) and outputs that cannot be written end with an error status instead of a crash or silent success.",
     ["inputs", "configurations"],
     "all graphs x formats x orderings x presets x output options; invalid invocations",
     STABLE + "nothing runs the programs.",
     ["apps/KaMinPar.cc", "apps/io/shm_io.cc", "kaminpar-cli/kaminpar_arguments.cc"],
     [("program flow", "apps/KaMinPar.cc: main"),
      ("writers", "apps/io/shm_io.cc")])

prop("K22", "The graph tools output exactly what they compute",
     "For every valid graph with at least one node, in every input format, with and without compression: the connected components tool reports the number, sizes and the largest of the components and extracts a largest one exactly; the weight tool keeps graph and node weights and attaches symmetric edge weights from the requested ranges, the same for the same call; "
     "the compression tool's file holds the same graph; the rearrangement tool's file holds the same graph up to the requested renumbering, which sorts the nodes by degree buckets; the property tools report the graph's sizes, weights and degrees, and the number of blocks, cut and imbalance of a given partition or list of block sizes.",
     ["inputs", "configurations"],
     "all graphs x tools x formats x options",
     STABLE + "nothing runs the tools.",
     ["apps/tools"],
     [("components", "apps/tools/shm_connected_components_tool.cc"),
      ("weights", "apps/tools/shm_graph_attach_weights_tool.cc"),
      ("compression, rearrangement", "apps/tools/shm_graph_compression_tool.cc, shm_graph_rearrangement_tool.cc"),
      ("properties", "apps/tools/shm_graph_properties_tool.cc, shm_partition_properties_tool.cc")])

prop("D01", "Distributed partitioning yields valid, balanced, correctly reported partitions",
     "For every undirected graph distributed in any way over any number of processes (also processes without nodes), the distributed partitioner terminates without deadlock or crash, returns on every process a block id in [0, k) for each of its nodes, "
     "and all processes return the same cut, equal to the weight of cut edges of the assembled global partition. For unit node weights no block exceeds (1 + epsilon) times the average block weight rounded up.",
     ["inputs", "configurations", "schedules"],
     "all graphs x node distributions x process counts x threads x k x presets x epsilon",
     STABLE + "no MPI test runs; upstream partitions one graph for two process counts.",
     ["kaminpar-dist/dkaminpar.cc", "kaminpar-dist/partitioning", "kaminpar-dist/presets.cc", "kaminpar-dist/refinement", "kaminpar-dist/coarsening"],
     [("public entry", "kaminpar-dist/dkaminpar.cc: compute_partition"),
      ("distributed deep multilevel", "kaminpar-dist/partitioning/deep_multilevel.cc"),
      ("shared-memory initial partitioning on replicated graphs", "kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc")])

prop("D02", "Distributed graphs represent the global graph consistently",
     "However a graph is distributed, every process maps each of its owned and ghost nodes to the right global node and back, knows the right owner, weights, neighbourhoods, edge weights, border and interface information, and all processes agree on global counts and totals; "
     "compressed and uncompressed distributed graphs agree. Distributed metrics (cut, imbalance, feasibility, block weights) equal the values of the assembled partition.",
     ["inputs", "configurations"],
     "all graphs x distributions (also empty processes) x process counts x compression x degree-bucket reordering",
     STABLE + "upstream checks a few ring-like graphs on up to four processes.",
     ["kaminpar-dist/datastructures", "kaminpar-dist/metrics.cc", "kaminpar-dist/graphutils/rearrangement.cc"],
     [("ghost node mapping", "kaminpar-dist/datastructures/ghost_node_mapper.h"),
      ("distributed CSR/compressed graph", "kaminpar-dist/datastructures/distributed_csr_graph.h, distributed_compressed_graph.h"),
      ("metrics", "kaminpar-dist/metrics.cc")])

prop("D03", "Distributed contraction is exact and projects partitions back",
     "Contracting a distributed graph by any clustering, whose clusters may span processes, yields a consistent distributed graph with one node per cluster, exactly summed node and edge weights, no self-loops and no duplicate edges, with node counts per process balanced as configured whenever every process has enough fine nodes. "
     "Projecting a coarse partition back gives every fine node on every process, also as ghost, the block of its coarse node, so cut and block weights are preserved.",
     ["inputs", "configurations", "schedules"],
     "all graphs x distributions x clusterings x migration limits x process counts",
     STABLE + "upstream contracts few small rings.",
     ["kaminpar-dist/coarsening/contraction"],
     [("global contraction with node migration", "kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc"),
      ("local contraction", "kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc")])

prop("D04", "Message exchanges deliver every message exactly once to the right process",
     "Every collective message exchange (dense, sparse, grid-routed, ghost/interface-node synchronisation) delivers to each process exactly the messages addressed to it, each once, unaltered and attributed to the right sender or node, for any message counts including none, and any number of processes.",
     ["inputs", "configurations", "schedules"],
     "all message matrices x process counts (square, non-square, one) x exchange implementations x node subsets",
     STABLE + "the MPI tests do not run here; upstream uses regular message patterns.",
     ["kaminpar-mpi", "kaminpar-dist/graphutils/communication.h", "kaminpar-dist/graphutils/synchronization.h"],
     [("sparse and grid all-to-all", "kaminpar-mpi/sparse_alltoall.h, grid_alltoall.h, alltoall.h, grid_topology.h"),
      ("interface-to-PE / ghost exchanges", "kaminpar-dist/graphutils/communication.h")])

prop("D05", "Replicating, gathering and extracting distributed subgraphs is exact",
     "Gathering a distributed graph or partition on every process, replicating it over process groups and picking the best partition, and extracting the block-induced subgraphs and distributing them to processes each yield exactly the described part of the global graph with its weights, "
     "and copying results back assigns every node the right block.",
     ["inputs", "configurations"],
     "all graphs x distributions x partitions x process counts x numbers of blocks",
     STABLE + "upstream covers few symmetric graphs and process counts.",
     ["kaminpar-dist/graphutils/replicator.cc", "kaminpar-dist/graphutils/subgraph_extractor.cc"],
     [("replication", "kaminpar-dist/graphutils/replicator.cc"),
      ("block extraction", "kaminpar-dist/graphutils/subgraph_extractor.cc")])

prop("D06", "Distributed refinement keeps partitions consistent and feasible",
     "Each refinement or balancing algorithm that the presets use, and coloured label propagation, leaves every process with valid blocks for owned nodes, the owner's block for each ghost node and the same, correct block weights. A feasible partition stays feasible under Jet, balancing and move strategies that coordinate the processes; Jet and coloured label propagation do not worsen its cut (also if the cut exceeds 32 bits), "
     "balancing leaves it untouched and makes an infeasible unit-weight partition feasible.",
     ["inputs", "configurations", "schedules"],
     "all graphs x distributions x partitions x limits x algorithms x process and thread counts",
     STABLE + "no upstream test runs a distributed refiner end to end.",
     ["kaminpar-dist/refinement"],
     [("label propagation and coloured label propagation", "kaminpar-dist/refinement/lp"),
      ("node and cluster balancers", "kaminpar-dist/refinement/balancer"),
      ("Jet with snapshots", "kaminpar-dist/refinement/jet/jet_refiner.cc, kaminpar-dist/refinement/snapshooter.cc")])

prop("D07", "Distributed clusterings and node selections are valid",
     "Distributed clusterings agree between owner and ghost copies, use ids of existing nodes and join connected nodes or isolated ones only. Matchings pair adjacent nodes and respect the maximum cluster weight; so does label propagation with one process (up to one node per additional thread), while with several processes each one respects it for its own nodes, or the limit is exceeded by a bounded factor if overweight clusters are dissolved again. Distributed node colourings are proper and cover every node; independent sets contain no two adjacent nodes and border nodes only; "
     "border-node enumeration finds exactly the nodes with a neighbour in another block.",
     ["inputs", "configurations", "schedules"],
     "all graphs x distributions x limits x algorithms x process counts",
     STABLE + "upstream uses rings and cliques on few processes.",
     ["kaminpar-dist/coarsening/clustering", "kaminpar-dist/distributed_label_propagation.h", "kaminpar-dist/algorithms"],
     [("global/local label propagation and heavy edge matching", "kaminpar-dist/coarsening/clustering"),
      ("colouring, independent sets, border nodes", "kaminpar-dist/algorithms")])

prop("D08", "Distributed readers give every process its part of the graph file",
     "Reading a METIS or ParHIP file with several processes gives each of them a consecutive range of nodes with exactly the file's adjacency, node weights and edge weights, the ranges together cover every node once, also isolated ones and with more processes than nodes, and are balanced by nodes, edges or memory as asked for; the plain and the compressed distributed graph agree. "
     "Processes that write a partition produce one line per node in the order of the global ids, replacing an older file.",
     ["inputs", "configurations"],
     "all well-formed files (comments, white space, optional weights and sizes) x distributions x process counts x compression",
     "No test reads a graph file with several processes.",
     ["apps/io/dist_metis_parser.cc", "apps/io/dist_parhip_parser.cc", "apps/io/dist_io.cc"],
     [("METIS reader", "apps/io/dist_metis_parser.cc"),
      ("ParHIP reader", "apps/io/dist_parhip_parser.cc"),
      ("partition writer", "apps/io/dist_io.cc")])

prop("D09", "The distributed program writes the partition it computes",
     "Run by any number of processes on a METIS or ParHIP file or on a graph that KaGen hands over, plain or compressed, the program ends with status zero and writes exactly one line per node, in the order of the global ids of the input (also if nodes were rearranged), each a block below k. "
     "The printed edge cut, imbalance and feasibility are those of the written partition; with repetitions it writes the partition with the best of the printed cuts, best and worst cut are those of the runs; with default settings and unit node weights the balance constraint given by k and epsilon holds. An older output file is replaced, and nothing but warnings is printed if quiet output was asked for.",
     ["inputs", "configurations", "schedules"],
     "all graphs x input paths x node distributions x presets and options x process and thread counts",
     STABLE + "no test runs the distributed program.",
     ["apps/dKaMinPar.cc", "kaminpar-dist/dkaminpar.cc", "apps/io/dist_io.cc"],
     [("reading, running, repetitions and writing", "apps/dKaMinPar.cc"),
      ("summary, import of graphs, mapping to original nodes", "kaminpar-dist/dkaminpar.cc"),
      ("partition writer", "apps/io/dist_io.cc")])

prop("D10", "Distributed configurations survive being printed, dumped and parsed",
     "Every documented preset of the distributed program can be selected, equals the preset its alias denotes and differs from others only as documented; dumping the configuration selected on the command line and loading that dump reproduces the same configuration, "
     "every enumeration value printed or documented by the program is accepted back as the same value (floating point settings to the six digits a dump holds), and options given on the command line change exactly the setting they name.",
     ["configurations", "inputs"],
     "all presets x all combinations of option values x all enumeration values",
     STABLE + "no test parses a command line of the distributed program.",
     ["kaminpar-cli/dkaminpar_arguments.cc", "kaminpar-dist/context_io.cc", "kaminpar-dist/presets.cc", "apps/dKaMinPar.cc"],
     [("option registration", "kaminpar-cli/dkaminpar_arguments.cc"),
      ("enumeration tables and printers", "kaminpar-dist/context_io.cc"),
      ("presets", "kaminpar-dist/presets.cc"),
      ("dumping and reading configurations", "apps/dKaMinPar.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
