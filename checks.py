"""Which harness decides which property, and in which build variants."""
VARIANTS = {
    "main": {},
    "asan": {"SAN": "address"},
    "w64": {"W64": "ON"},
    "id64": {"W64": "ON", "EXTRA_DEFS": "KAMINPAR_64BIT_NODE_IDS;KAMINPAR_64BIT_EDGE_IDS"},
    "dist": {"WITH_DIST": "ON"},
}
BOTH = ("quick", "thorough")
CHECKS = {
    "K01": {
        "title": "valid partition, termination",
        "rule": "random graph x configuration x k x limits x thread count x seed; non-trivial: at least two nodes",
        "technique": "property-based testing: random graph x configuration x limits x threads; invariant over the returned array, guard zones, crash and hang detection",
        "note": "Every generated call either returns a complete partition or hangs/crashes visibly; bounds: n <= 6000 (40000 thorough), k <= 300, 1-8 threads",
        "runs": [{"target": "e2e_valid"}, {"target": "e2e_valid", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K02": {
        "title": "reported cut",
        "rule": "as K01; non-trivial: at least two nodes",
        "technique": "property-based testing: reported cut against a recomputation from the generated edge list",
        "note": "as K01, sampled",
        "runs": [{"target": "e2e_cut"}],
    },
    "K03": {
        "title": "balance",
        "rule": "as K01 over configurations with an unrestricted top-level balancer; non-trivial: at least two nodes",
        "technique": "property-based testing: recomputed block weights against the limits derived independently from the call",
        "note": "asserted for unit weights, and for weighted graphs where every limit leaves room for the heaviest node; sampled",
        "runs": [{"target": "e2e_balance"}],
    },
    "K04": {
        "title": "reproducible",
        "rule": "graph x configuration x request x seed, repeated after other runs, on another object or with other verbosity; non-trivial: >= 3 nodes and >= 1 edge",
        "technique": "metamorphic property-based testing: repeated single-threaded run against the first one, with generated unrelated work in between",
        "note": "sampled; n <= 1500 (10000 thorough)",
        "runs": [{"target": "reproducible"}],
    },
    "K05": {
        "title": "representation and history",
        "rule": "graph x configuration x request in several representations, or call sequences on one object against fresh objects; non-trivial: >= 3 nodes and >= 1 edge (and >= 2 calls)",
        "technique": "differential and stateful property-based testing: representations against each other, call histories against fresh objects",
        "note": "sampled; n <= 1500 (10000 thorough), histories of up to 6 calls",
        "runs": [{"target": "histories"}],
    },
    "K06": {
        "title": "compression",
        "rule": "adjacency lists with runs, far ids, hubs above the high-degree threshold x weights x builder x threads; non-trivial: at least one edge",
        "technique": "differential property-based testing: every query of the compressed graph against the uncompressed lists it was built from",
        "note": "sampled; n <= 26000, degrees up to 26000; default, StreamVByte and plain encodings",
        "runs": [{"target": "compress", "share": 4}, {"target": "compress_svb"}, {"target": "compress_plain"},
                 {"target": "compress", "variant": "asan", "tiers": ("thorough",)}, {"target": "compress", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K07": {
        "title": "codecs",
        "rule": "sequences of values mixed over all byte lengths; non-trivial: at least two values",
        "technique": "round-trip property-based testing of every codec over generated value sequences in one shared buffer with guard bytes",
        "note": "sampled; both decoder builds (portable and BMI2); sequences of up to 200 values",
        "runs": [{"target": "codecs"}, {"target": "codecs_fast"}],
    },
    "K08": {
        "title": "graph files",
        "rule": "graph x format x header variants x white space, comments, orderings and weights x damaged text; non-trivial: at least one edge",
        "technique": "round-trip and differential property-based testing of readers and writers against the generated edge list, with guard pages behind mapped files",
        "note": "sampled; n <= 400; METIS headers with an explicit number of constraints are not supported by the reader and not generated",
        "runs": [{"target": "io"}, {"target": "io", "variant": "w64", "share": 0.5}, {"target": "io", "variant": "asan", "tiers": ("thorough",)}, {"target": "io", "variant": "id64", "tiers": ("thorough",)}],
    },
    "K09": {
        "title": "contraction",
        "rule": "graph x clustering (random, matching-like, stars, singletons, one cluster) x algorithm x implementation x buffer fraction x representation x threads, chained into hierarchies; non-trivial: at least one edge and fewer clusters than nodes",
        "technique": "property-based testing: contraction and projection against a map-based reference contraction of the generated edge list; invariants over generated coarsening hierarchies",
        "note": "sampled; n <= 700 (30000 in contract_big), all contraction algorithms, 1-8 threads",
        "runs": [{"target": "contract"}, {"target": "contract", "variant": "asan", "tiers": ("thorough",)}, {"target": "contract", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K10": {
        "title": "clustering",
        "rule": "graph x maximum cluster weight x communities x label propagation settings x threads, one clusterer reused over several graphs; non-trivial: at least one cluster has two members",
        "technique": "property-based testing: recomputed cluster weights, communities and component membership after each clustering, on clusterers reused over generated sequences of graphs",
        "note": "sampled; n <= 600 (hub graphs larger), 1-8 threads; exact weight limit with one thread, slack of one node per additional thread otherwise",
        "runs": [{"target": "cluster"}, {"target": "cluster", "variant": "asan", "tiers": ("thorough",)}, {"target": "cluster", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K11": {
        "title": "refinement",
        "rule": "graph x partition (feasible or not) x limits x refinement algorithm or combination x settings x threads, one refiner reused over several graphs; non-trivial: at least one node was moved",
        "technique": "property-based testing: recomputed block weights, cut and feasibility before and after each refinement, on refiners reused over generated sequences of graphs",
        "note": "sampled; n <= 600, k <= 100, 1-8 threads; cut claims for FM and label propagation only for one thread",
        "runs": [{"target": "refine"}, {"target": "refine", "variant": "asan", "tiers": ("thorough",)}, {"target": "refine", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K12": {
        "title": "gain caches",
        "rule": "gain cache type x graph (plain, degree-sorted, compressed) x k x thresholds, reused over several graphs, with sequential, concurrent and speculative moves; non-trivial: nodes of a graph with edges were moved",
        "technique": "model-based stateful property-based testing: every query of every gain cache and delta gain cache against a recomputation from the edge list",
        "note": "sampled; n <= 400, k <= 5000, up to 8 threads; concurrent moves are checked after they have finished",
        "runs": [{"target": "gains_table"}, {"target": "gains_hash"}, {"target": "gains_table", "variant": "asan", "tiers": ("thorough",)}, {"target": "gains_hash", "variant": "asan", "tiers": ("thorough",)}, {"target": "gains_hash", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K13": {
        "title": "subgraph extraction",
        "rule": "graph x partition (also empty blocks) x block counts x memory layout x threads; non-trivial: more than one block on a graph with edges, more than two final blocks",
        "technique": "property-based testing: every extracted subgraph against a map-based reference extraction, copied-back and extended partitions against their definition, exhaustive split identities",
        "note": "sampled; n <= 500, k <= 80, 1-8 threads",
        "runs": [{"target": "extract"}, {"target": "extract", "variant": "asan", "tiers": ("thorough",)}, {"target": "extract", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K14": {
        "title": "reordering and isolated nodes",
        "rule": "graph x weights x share of isolated nodes x permutation / edge order / removal and re-integration sequences x threads; non-trivial: at least one edge, some but not all nodes isolated",
        "technique": "round-trip and differential property-based testing: permuted graph against the generated edge list, removal followed by re-integration against the original graph",
        "note": "sampled; n <= 2500, 1-8 threads",
        "runs": [{"target": "reorder"}, {"target": "reorder", "variant": "asan", "tiers": ("thorough",)}, {"target": "reorder", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K15": {
        "title": "priority queues",
        "rule": "operation sequences over few, small, wide and extreme keys; non-trivial: the queue held at least two elements",
        "technique": "model-based stateful property-based testing: every queue variant against a plain map",
        "note": "sampled; sequences of up to 120 operations, up to a few hundred elements; the sentinel keys (type limits) are excluded",
        "runs": [{"target": "heaps"}, {"target": "heaps", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K16": {
        "title": "containers",
        "rule": "operation sequences per container with repeated, colliding and extreme keys, growth, clears, resizes and moves; non-trivial: held at least two elements (and saw a removal or reset where that exists)",
        "technique": "model-based stateful property-based testing: every container against a reference container, with threads for the concurrent ones",
        "note": "sampled; sequences of up to 200 operations, bit vectors up to 50000 bits, up to 8 threads",
        "runs": [{"target": "containers"}, {"target": "containers", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K17": {
        "title": "parallel primitives and integer helpers",
        "rule": "input lengths, value types, thread counts, alignments and integers spread over all bit lengths; non-trivial: more than one element, value above one",
        "technique": "property-based testing: every primitive against its sequential or mathematical definition on generated inputs and thread counts",
        "note": "sampled; lengths up to 60000, 1-8 threads, 32- and 64-bit integers over the whole range",
        "runs": [{"target": "primitives"}, {"target": "primitives", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K18": {
        "title": "configurations",
        "rule": "subsets of all options with generated values in any order x preset x config file and command line; non-trivial: at least one option or preset given",
        "technique": "model-based property-based testing of the real command line parser: option values against a field-by-field model, dump and reload in separate processes as round-trip",
        "note": "every option of the shared-memory program and every preset is covered; values sampled; file names without characters CLI11 cannot quote, doubles up to 6 digits in dumps",
        "runs": [{"target": "config"}],
    },
    "K19": {
        "title": "initial bipartitioning",
        "rule": "sequences of graphs x limits x coarsening, pool and refinement settings on one reused object, concurrent workers; non-trivial: a level was built, nodes were moved, or a graph with edges was split",
        "technique": "property-based testing: coarse graphs against a map-based reference contraction, recomputed block weights, cuts and overloads, longer pool runs against shorter ones",
        "note": "sampled; n <= 2500, up to 5 graphs per object, 1-8 threads",
        "runs": [{"target": "initial"}, {"target": "initial", "variant": "asan", "tiers": ("thorough",)}, {"target": "initial", "variant": "w64", "tiers": ("thorough",)}],
    },
    "K21": {
        "title": "shared-memory program",
        "rule": "graph x file format x ordering x preset and options x output files, one process per case; invalid invocations; non-trivial: a graph with edges is partitioned, or an invocation has to be refused",
        "technique": "property-based testing of the real program in processes of its own: every output file against a reference built from the generated graph and the printed results",
        "note": "sampled; n <= 2500, one invalid aspect per invocation",
        "runs": [{"target": "program"}, {"target": "program", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K22": {
        "title": "graph tools",
        "rule": "tool x graph x input and output format x compression x orderings x weight distributions x partitions; non-trivial: at least one edge",
        "technique": "property-based testing of the real tools in processes of their own: every output file and printed value against a reference computed from the generated graph",
        "note": "sampled; 1 <= n <= 1200; malformed inputs and graphs without nodes are not covered",
        "runs": [{"target": "tools"}, {"target": "tools", "variant": "asan", "tiers": ("thorough",)}],
    },
    "K20": {
        "title": "metrics and block weights",
        "rule": "graph x partition x sequences of single, limited and concurrent moves, block changes, re-initialisations and delta views; non-trivial: more than one node and block, at least one move",
        "technique": "model-based stateful property-based testing: metrics, block weights and delta views against recomputation from the generated edge list",
        "note": "sampled; n <= 700, k up to 70000 for re-initialisation, 1-8 threads",
        "runs": [{"target": "partition"}, {"target": "partition", "variant": "asan", "tiers": ("thorough",)}, {"target": "partition", "variant": "w64", "tiers": ("thorough",)}],
    },
    "D02": {
        "title": "distributed graph",
        "rule": "graph x distribution (empty processes too) x compressed x communicator x rearrangement; graph x partition x move sequence; ghost node sets over up to 64 processes with up to 10^6 nodes; non-trivial: at least two processes and one edge (or one ghost node)",
        "technique": "property-based testing on 1-6 MPI processes: every query of the distributed graph and partition against the generated global edge list; ghost node mapper against a reference map",
        "note": "sampled; n <= 250, up to 6 processes of one machine, 1-4 threads each",
        "runs": [{"target": "dist_graph", "variant": "dist"}],
    },
    "D03": {
        "title": "distributed contraction",
        "rule": "graph x distribution x clustering (random, matchings, stars, one cluster, singletons, shuffled, one process owns all) x permitted coarse node imbalance and migration, up to three levels; non-trivial: at least two processes, one edge and a shrinking clustering",
        "technique": "property-based testing on 1-8 MPI processes with delayed and synchronous sends: coarse graphs, their placement and projections against a map-based reference contraction of the generated edge list",
        "note": "sampled; n <= 500, up to 8 processes of one machine, 1-3 threads each; contraction of local clusterings (dead code) is not covered",
        "runs": [{"target": "dist_contract", "variant": "dist"}],
    },
    "D04": {
        "title": "message exchange",
        "rule": "message matrix x exchange x communicator (world, duplicate, split, reversed; freed in between), or graph x distribution x node range x filter; delayed and synchronous sends; non-trivial: more than one process and at least one message or edge",
        "technique": "property-based testing over generated message matrices and distributed graphs run on 1-9 MPI processes, with randomly delayed and synchronous sends; oracle: the generated matrix / the edge list",
        "note": "sampled; up to 9 processes of one machine, 3000 messages per pair, 250 nodes",
        "runs": [{"target": "dist_comm", "variant": "dist"}],
    },
    "D05": {
        "title": "replication, gathering and subgraphs",
        "rule": "graph x distribution x replications (ragged groups too); graph x distribution x partition x blocks (fewer, equal and more than processes, multiples or not) ; non-trivial: at least two processes and one edge",
        "technique": "property-based testing on 1-9 MPI processes: replicated, gathered and extracted graphs against the generated edge list, copied partitions against the best of the generated ones",
        "note": "sampled; n <= 300, up to 9 processes of one machine",
        "runs": [{"target": "dist_extract", "variant": "dist"}],
    },
    "D01": {
        "title": "distributed partitioner end to end",
        "rule": "graph x distribution (empty processes too) x compressed x communicator x preset and options x sequences of (k, seed) x epsilon; total edge weights beyond 32 bits; non-trivial: at least two processes and two nodes",
        "technique": "property-based testing of the whole distributed partitioner on 1-8 MPI processes with delayed and synchronous sends: gathered partitions against the generated edge list",
        "note": "sampled; n <= 3000, k <= 300, up to 8 processes of one machine, 1-3 threads each; balance for presets and unit node weights only",
        "secs": {"quick": 60, "thorough": 900},
        "runs": [{"target": "dist_e2e", "variant": "dist"}],
    },
    "D07": {
        "title": "distributed clusterings and selections",
        "rule": "graph x distribution x clusterer and settings x weight limits over up to three levels of one reused clusterer; graph x partition x supersteps / seed; non-trivial: at least one edge",
        "technique": "property-based testing on 1-8 MPI processes with delayed and synchronous sends: clusterings, colourings, independent sets and border nodes against their definitions on the generated edge list",
        "note": "sampled; n <= 400, up to 8 processes of one machine, 1-3 threads each; label propagation on several processes: weight limit per process (no enforcement) or up to a factor of twice the number of processes",
        "secs": {"quick": 40, "thorough": 600},
        "runs": [{"target": "dist_cluster", "variant": "dist"}],
    },
    "D08": {
        "title": "distributed graph files",
        "rule": "graph x format x header variants x white space, comments, orderings and weights x distribution of the nodes x processes (more than nodes too) x plain/compressed; partition x distribution; non-trivial: at least two processes and one edge (or two nodes)",
        "technique": "property-based testing on 1-6 MPI processes: files written by an independent generator, every query of the graph each process read against the generated edge list",
        "note": "sampled; n <= 1500, up to 6 processes of one machine; KaGen's generators and readers (KaGen is not installed) are not covered",
        "runs": [{"target": "dist_io", "variant": "dist"}],
    },
    "D09": {
        "title": "distributed program",
        "rule": "graph x METIS / ParHiP file or in-memory distribution x compression x node distribution x preset, mode, contraction limit, order x k x epsilon x repetitions x verbosity x processes and threads; non-trivial: at least two processes, nodes and blocks",
        "technique": "property-based testing of the real main() on 1-6 MPI processes with delayed and synchronous sends: the written partition against the generated edge list and against the printed summary",
        "note": "sampled; n <= 2000, k <= 200, up to 6 processes of one machine; KaGen is not installed: its generators and readers are replaced by a stand-in that hands over generated graphs; streaming KaGen is not covered",
        "secs": {"quick": 35, "thorough": 600},
        "runs": [{"target": "dist_cli", "variant": "dist"}],
    },
    "D10": {
        "title": "distributed configurations",
        "rule": "subsets of all options of the distributed program with generated values in any order x preset x config file and command line; non-trivial: at least one option or preset given",
        "technique": "model-based property-based testing of the real command line parser: option values against a field-by-field model, dump and reload in separate processes as round-trip",
        "note": "every option of the distributed program and every documented preset is covered; values sampled; KaGen's own tables are replaced by a stand-in; file names without characters CLI11 cannot quote, doubles up to 6 digits in dumps",
        "runs": [{"target": "dist_conf", "variant": "dist"}],
    },
    "D06": {
        "title": "distributed refinement",
        "rule": "graph x distribution x partition (feasible or not) x limits x sequence of refiners and settings x threads; cuts beyond 32 bits; non-trivial: at least two processes, one edge and two blocks",
        "technique": "property-based testing on 1-7 MPI processes with delayed and synchronous sends: partition, ghost copies, block weights, overload and cut recomputed from the generated edge list after each of a random sequence of refiners",
        "note": "sampled; n <= 2000, k <= 200, up to 7 processes of one machine, 1-3 threads each; the hybrid cluster balancer (not used by any preset) is not covered, see DESIGN.md",
        "secs": {"quick": 45, "thorough": 900},
        "runs": [{"target": "dist_refine", "variant": "dist"}],
    },
}
NOT_APPLICABLE = {}
