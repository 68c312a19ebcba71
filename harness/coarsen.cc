// K10 (PART 1): clusterings. K09 (PART 2): contraction, projection and the coarsening hierarchy.
#include "ctxgen.h"
#include "kaminpar-common/random.h"
#include "kaminpar-shm/coarsening/cluster_coarsener.h"
#include "kaminpar-shm/coarsening/clusterer.h"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"
#include "kaminpar-shm/coarsening/max_cluster_weights.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include <map>
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

// Hubs over many nodes, rings, random edges: reaches the large-degree and buffer-overflow paths
static pbt::G big_graph(Gen &g, u64 lo, u64 hi) {
  const u64 n = g.range(lo, hi);
  const u64 hubs = g.draw(4), extra = g.draw(5), ring = g.flip();
  Rng r(g.seed());
  std::vector<std::pair<u64, u64>> es;
  auto add = [&](u64 a, u64 b) { if (a != b) es.push_back({std::min(a, b), std::max(a, b)}); };
  for (u64 h = 0; h < hubs; ++h) {
    const u64 skip = r.below(4) == 0 ? 2 : 0;
    for (u64 v = 0; v < n; ++v) if (skip == 0 || r.below(3) < skip) add(h * (n / 5) + 1, v);
  }
  if (ring) for (u64 v = 0; v + 1 < n; ++v) add(v, v + 1);
  for (u64 v = 0; v < n; ++v) for (u64 i = 0; i < extra; ++i) add(v, r.chance(1, 2) ? r.below(n) : std::min(n - 1, v + r.below(50)));
  std::sort(es.begin(), es.end());
  es.erase(std::unique(es.begin(), es.end()), es.end());
  std::vector<i64> ew;
  if (g.flip()) for (u64 i = 0; i < es.size(); ++i) ew.push_back(1 + r.below(1000));
  pbt::G gr = from_edges(n, es, ew.empty() ? nullptr : &ew, g.flip() ? &r : nullptr);
  if (g.flip()) for (u64 u = 0; u < n; ++u) gr.vw.push_back(1 + r.below(10));
  gr.family = "big-h" + std::to_string(hubs) + "-x" + std::to_string(extra);
  return gr;
}

static pbt::G read_back(const shm::Graph &gr) {
  pbt::G o;
  o.n = gr.n();
  o.xadj.assign(1, 0);
  for (NodeID u = 0; u < gr.n(); ++u) {
    gr.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { o.adj.push_back(v); o.ew.push_back(w); });
    o.xadj.push_back(o.adj.size());
    o.vw.push_back(gr.reified([&](const auto &c) { return c.node_weight(u); }));
  }
  return o;
}

struct Form { shm::Graph graph; pbt::G model; std::string name; };
// Plain, degree-sorted or compressed
static Form make_form(Gen &g, pbt::G gr, bool compressed_ok = true) {
  switch (g.weighted({4, 2, compressed_ok ? 2 : 0})) {
  case 1: {
    CSRGraph csr = to_csr(gr);
    shm::Graph s = graph::rearrange_by_degree_buckets(csr);
    pbt::G m = read_back(s);
    return {std::move(s), std::move(m), "sorted"};
  }
  case 2: return {shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr)))), gr, "compressed"};
  default: return {to_graph(gr), gr, "plain"};
  }
}

#if PART == 1
static void drive(Gen &g, bool big) {
  const int threads = g.weighted({3, 2}) == 0 ? 1 : g.range(2, 8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
  Context ctx = create_context_by_preset_name(g.pick<std::string>({"default", "fast", "strong", "largek", "terapart", "vcycle", "jet"}));
  auto &cl = ctx.coarsening.clustering;
  if (g.chance(1, 20)) cl.algorithm = ClusteringAlgorithm::NOOP;
  for (int i = g.weighted({1, 3, 3, 2}); i > 0; --i) switch (g.draw(8)) {
    case 0: cl.lp.num_iterations = g.range(1, 6); break;
    case 1: cl.lp.impl = g.pick({LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES}); break;
    case 2: cl.lp.two_hop_strategy = g.pick({TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE}); break;
    case 3: cl.lp.isolated_nodes_strategy = g.pick({IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH, IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP, IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP}); break;
    case 4: cl.lp.tie_breaking_strategy = g.pick({TieBreakingStrategy::GEOMETRIC, TieBreakingStrategy::UNIFORM}); break;
    case 5: cl.lp.large_degree_threshold = g.pick<NodeID>({1, 2, 5, 20, 100}); break;
    case 6: cl.lp.max_num_neighbors = g.pick<NodeID>({1, 3, 10}); break;
    case 7: cl.lp.two_hop_threshold = g.pick({0.0, 0.5, 0.9, 1.0}); break;
  }
  if (g.chance(1, big ? 3 : 12)) cl.lp.relabel_before_second_phase = true;
  g.note("impl" + std::to_string((int)cl.lp.impl) + " 2hop" + std::to_string((int)cl.lp.two_hop_strategy) + " iso" + std::to_string((int)cl.lp.isolated_nodes_strategy) + (cl.lp.relabel_before_second_phase ? " relabel" : ""));
  g.label("2hop:" + std::to_string((int)cl.lp.two_hop_strategy));
  g.label("iso:" + std::to_string((int)cl.lp.isolated_nodes_strategy));
  auto clusterer = factory::create_clusterer(ctx);
  Random::reseed(g.seed() & 0x7fffffff);

  bool kept = false; // memory of the previous call is kept: graphs must not grow
  u64 prev_n = 0;
  bool prev_compressed = false;
  const int rounds = big ? 1 + g.draw(2) : 1 + g.draw(4);
  for (int round = 0; round < rounds; ++round) {
    pbt::G base;
    if (big && !kept) base = big_graph(g, 10050, 14000);
    else {
      GraphOptions o;
      o.max_n = kept ? std::max<u64>(1, prev_n) : 3000;
      o.max_m = 20000;
      o.allow_empty = false;
      base = gen_graph(g, o);
    }
    if (kept && base.n > prev_n) break; // generator added isolated nodes
    // As in a coarsening hierarchy: only the first graphs are compressed, and kept memory stays kept
    Form f = make_form(g, std::move(base), !kept || prev_compressed);
    prev_compressed = f.name == "compressed";
    const pbt::G &gr = f.model;
    g.note(gr.str() + " " + f.name);
    label_graph(g, gr);
    g.label(f.name);
    Rng r(g.seed());
    // Weight limit
    i64 limit;
    switch (g.draw(5)) {
    case 0: limit = g.range(0, 8); break;
    case 1: limit = gr.max_w() * g.range(1, 10); break;
    case 2: limit = 1 + r.below(gr.total_w()); break;
    case 3: limit = gr.total_w() / std::max<i64>(1, (i64)std::sqrt((double)gr.n)); break;
    default: {
      PartitionContext p_ctx;
      p_ctx.setup(f.graph, g.range(2, 16), 0.03);
      limit = compute_max_cluster_weight<NodeWeight>(ctx.coarsening, p_ctx, gr.n, gr.total_w());
    }
    }
    clusterer->set_max_cluster_weight(limit);
    const u64 desired = g.chance(1, 3) ? r.below(gr.n) : 0;
    clusterer->set_desired_cluster_count(desired);
    std::vector<NodeID> com;
    if (g.chance(1, 3)) {
      const u64 c = g.range(1, 6);
      for (u64 u = 0; u < gr.n; ++u) com.push_back(r.below(c));
      if (g.flip()) for (u64 u = 0; u < gr.n; ++u) com[u] = u * c / gr.n;
      g.label("communities");
    }
    g.note(" limit=" + std::to_string(limit) + (com.empty() ? "" : " communities") + (desired ? " desired=" + std::to_string(desired) : ""));
    clusterer->set_communities(com);
    const bool free_after = !kept && g.flip();
    StaticArray<NodeID> clustering(gr.n);
    clusterer->compute_clustering(clustering, f.graph, free_after);
    kept = !free_after;
    prev_n = gr.n;

    CHECK_EQ(clustering.size(), gr.n, "size", "clustering size");
    std::vector<i64> weight(gr.n, 0), members(gr.n, 0);
    std::vector<i64> seen(gr.n, -1);
    u64 clusters = 0;
    for (u64 u = 0; u < gr.n; ++u) {
      const u64 c = clustering[u];
      CHECK_MSG(c < gr.n, "invalid-cluster", "node " << u << " is in cluster " << c << " of a graph with " << gr.n << " nodes");
      weight[c] += gr.w(u);
      clusters += members[c]++ == 0;
    }
    if (cl.lp.relabel_before_second_phase) prev_n = clusters; // the next graph is at most as large as the contracted one
    if (clusters < gr.n) { g.nontrivial(true); g.label("joined"); }
    const i64 slack = (threads - 1) * gr.max_w();
    for (u64 c = 0; c < gr.n; ++c)
      if (members[c] > 1) {
        CHECK_MSG(weight[c] <= limit + slack, "too-heavy", "cluster " << c << " with " << members[c] << " nodes weighs " << weight[c] << ", limit " << limit << ", " << threads << " threads");
        if (weight[c] > limit) g.label("parallel-slack-used");
      }
    if (!com.empty())
      for (u64 u = 0; u < gr.n; ++u) {
        const u64 c = clustering[u];
        if (seen[c] < 0) seen[c] = com[u];
        CHECK_MSG(seen[c] == (i64)com[u], "community", "cluster " << c << " contains node " << u << " of community " << com[u] << " and a node of community " << seen[c]);
      }
    // Clusters stay within connected components, isolated nodes are only grouped with isolated nodes
    std::vector<u64> comp(gr.n);
    std::iota(comp.begin(), comp.end(), 0);
    auto find = [&](u64 x) { while (comp[x] != x) x = comp[x] = comp[comp[x]]; return x; };
    for (u64 u = 0; u < gr.n; ++u) for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) comp[find(u)] = find(gr.adj[e]);
    std::vector<i64> in(gr.n, -1);
    for (u64 u = 0; u < gr.n; ++u) {
      const i64 x = gr.deg(u) == 0 ? (i64)gr.n : (i64)find(u);
      i64 &y = in[clustering[u]];
      if (y < 0) y = x;
      CHECK_MSG(x == y, "unrelated", "cluster " << clustering[u] << " mixes connected components (node " << u << ", degree " << gr.deg(u) << ")");
    }
    using Iso = IsolatedNodesClusteringStrategy;
    if (cl.algorithm == ClusteringAlgorithm::NOOP) CHECK_MSG(clusters == gr.n, "noop", "no-op clustering joined nodes");
    for (u64 u = 0; u < gr.n; ++u) {
      if (gr.deg(u) > 0) continue;
      const i64 mem = members[clustering[u]];
      if (cl.lp.isolated_nodes_strategy == Iso::KEEP) CHECK_MSG(mem == 1, "kept", "isolated node " << u << " was clustered although isolated nodes are kept");
      if (cl.lp.isolated_nodes_strategy == Iso::MATCH || cl.lp.isolated_nodes_strategy == Iso::MATCH_DURING_TWO_HOP) CHECK_MSG(mem <= 2, "matched", "isolated node " << u << " is in a cluster of " << mem << " although isolated nodes are matched");
    }
  }
}
PBT_TEST(lp, 12) { drive(g, false); }
PBT_TEST(lp_hubs, 1) { drive(g, true); }
#endif

#if PART == 2
static std::vector<NodeID> gen_clustering(Gen &g, const pbt::G &gr, std::string &name) {
  Rng r(g.seed());
  std::vector<NodeID> c(gr.n);
  const u64 n = gr.n;
  const int how = g.draw(7);
  name = "clustering" + std::to_string(how);
  switch (how) {
  case 0: for (u64 u = 0; u < n; ++u) c[u] = u; break;
  case 1: { const u64 x = r.below(std::max<u64>(1, n)); for (u64 u = 0; u < n; ++u) c[u] = x; break; }
  case 2: { const u64 k = 1 + r.below(std::max<u64>(1, n)); for (u64 u = 0; u < n; ++u) c[u] = r.below(k); break; }
  case 3: { const u64 s = 1 + g.draw(8); for (u64 u = 0; u < n; ++u) c[u] = u / s * s; break; }
  case 4: // along edges
  case 5: {
    for (u64 u = 0; u < n; ++u) c[u] = gr.deg(u) && r.chance(how == 4 ? 1 : 9, how == 4 ? 2 : 10) ? gr.adj[gr.xadj[u] + r.below(gr.deg(u))] : u;
    for (u64 u = 0; u < n; ++u) if (r.chance(1, 2)) c[u] = c[c[u]];
    break; }
  case 6: { // few clusters with random, far apart ids; many ids unused
    std::vector<NodeID> ids;
    for (u64 i = 0; i < 1 + r.below(5); ++i) ids.push_back(r.below(std::max<u64>(1, n)));
    for (u64 u = 0; u < n; ++u) c[u] = r.chance(1, 20) ? u : ids[r.below(ids.size())];
    break; }
  }
  return c;
}

// mapping: fine node -> coarse node, as observed through project_up
static void check_coarse(Gen &g, const pbt::G &gr, const std::vector<u32> &map, const shm::Graph &coarse, const std::string &what) {
  const u64 cn = coarse.n();
  std::vector<std::map<u64, i64>> nb(cn);
  std::vector<i64> w(cn, 0);
  i64 cmax = 0;
  for (u64 u = 0; u < gr.n; ++u) {
    w[map[u]] += gr.w(u);
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) if (map[u] != map[gr.adj[e]]) nb[map[u]][map[gr.adj[e]]] += gr.we(e);
  }
  u64 m = 0;
  i64 tw = 0, te = 0;
  for (u64 c = 0; c < cn; ++c) {
    const i64 cw = coarse.reified([&](const auto &x) { return x.node_weight(c); });
    CHECK_MSG(cw == w[c], "node-weight", what << ": coarse node " << c << " weighs " << cw << ", members weigh " << w[c]);
    cmax = std::max(cmax, cw);
    tw += cw;
    std::map<u64, i64> got;
    u64 d = 0;
    coarse.adjacent_nodes(c, [&](const NodeID v, const EdgeWeight x) {
      CHECK_MSG(v < cn && v != c, "bad-edge", what << ": coarse edge " << c << " -> " << v << " of " << cn);
      CHECK_MSG(got.emplace(v, x).second, "duplicate-edge", what << ": coarse edge " << c << " -> " << v << " appears twice");
      ++d;
      te += x;
    });
    CHECK_MSG(got == nb[c], "edges", what << ": neighbourhood of coarse node " << c << " has " << got.size() << " edges with " << [&] { i64 s = 0; for (auto &[a, b] : got) s += b; return s; }() << ", expected " << nb[c].size() << " with " << [&] { i64 s = 0; for (auto &[a, b] : nb[c]) s += b; return s; }());
    CHECK_EQ(coarse.reified([&](const auto &x) { return x.degree(c); }), d, "degree", what << ": degree of coarse node " << c);
    m += d;
  }
  CHECK_EQ(coarse.m(), m, "m", what << ": number of coarse edges");
  CHECK_EQ(tw, gr.total_w(), "total", what << ": total node weight");
  CHECK_EQ(coarse.total_node_weight(), gr.total_w(), "total", what << ": reported total node weight");
  CHECK_EQ(coarse.max_node_weight(), cn == 0 ? coarse.max_node_weight() : cmax, "max", what << ": reported maximum node weight");
  CHECK_EQ(coarse.total_edge_weight(), te, "total", what << ": reported total edge weight");
}

static ContractionCoarseningContext gen_con(Gen &g) {
  ContractionCoarseningContext con{};
  con.algorithm = g.pick({ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE, ContractionAlgorithm::UNBUFFERED});
  con.unbuffered_implementation = g.pick({ContractionImplementation::SINGLE_PHASE, ContractionImplementation::TWO_PHASE, ContractionImplementation::GROWING_HASH_TABLES});
  con.edge_buffer_fill_fraction = g.pick({0.01, 0.1, 0.5, 1.0});
  return con;
}

static void contract_seq(Gen &g, bool big) {
  const int threads = g.weighted({2, 3}) == 0 ? 1 : g.range(2, 8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
  contraction::MemoryContext m_ctx;
  const int rounds = big ? 1 + g.draw(2) : 1 + g.draw(4);
  for (int round = 0; round < rounds; ++round) {
    GraphOptions o;
    o.max_n = 2500;
    o.max_m = 20000;
    o.allow_empty = false;
    Form f = make_form(g, big ? big_graph(g, 4000, 24000) : gen_graph(g, o));
    const pbt::G &gr = f.model;
    label_graph(g, gr);
    std::string cname;
    const std::vector<NodeID> clustering = gen_clustering(g, gr, cname);
    const int calls = 1 + g.draw(2); // several algorithms on the same input
    for (int i = 0; i < calls; ++i) {
      const auto con = gen_con(g);
      const std::string what = f.name + " algorithm " + std::to_string((int)con.algorithm) + "/" + std::to_string((int)con.unbuffered_implementation) + " fill " + std::to_string(con.edge_buffer_fill_fraction) + " " + cname;
      if (i == 0) g.note(gr.str() + " " + cname);
      g.label("algorithm:" + std::to_string((int)con.algorithm));
      auto coarse = g.chance(1, 4) ? contract_clustering(f.graph, to_static<NodeID>(clustering), con) : contract_clustering(f.graph, to_static<NodeID>(clustering), con, m_ctx);
      const u64 cn = coarse->get().n();
      std::set<NodeID> used(clustering.begin(), clustering.end());
      CHECK_EQ(cn, used.size(), "n", what << ": number of coarse nodes");
      if (cn > 1 && cn < gr.n) g.nontrivial(true);
      // Projections reveal the mapping
      std::vector<BlockID> ids(cn), map(gr.n, 0xffffffffu);
      std::iota(ids.begin(), ids.end(), 0);
      coarse->project_up(ids, map);
      std::map<NodeID, u32> of;
      std::vector<char> hit(cn, 0);
      for (u64 u = 0; u < gr.n; ++u) {
        CHECK_MSG(map[u] < cn, "mapping", what << ": node " << u << " is projected to coarse node " << map[u] << " of " << cn);
        auto [it, fresh] = of.emplace(clustering[u], map[u]);
        CHECK_MSG(it->second == map[u], "mapping", what << ": node " << u << " of cluster " << clustering[u] << " is projected to coarse nodes " << map[u] << " and " << it->second);
        if (fresh) { CHECK_MSG(!hit[map[u]], "mapping", what << ": two clusters share coarse node " << map[u]); hit[map[u]] = 1; }
      }
      check_coarse(g, gr, map, coarse->get(), what);
      // Down projection of labels that are constant on clusters
      std::vector<BlockID> lab(gr.n), down(cn, 0xffffffffu);
      for (u64 u = 0; u < gr.n; ++u) lab[u] = clustering[u] % 7;
      coarse->project_down(lab, down);
      for (u64 u = 0; u < gr.n; ++u) CHECK_MSG(down[map[u]] == lab[u], "project-down", what << ": coarse node " << map[u] << " got label " << down[map[u]] << " instead of " << lab[u]);
      // Cut and block weights of a projected partition
      Rng r(g.seed());
      const u64 k = 1 + r.below(5);
      std::vector<BlockID> cp(cn), fp(gr.n);
      for (auto &b : cp) b = r.below(k);
      coarse->project_up(cp, fp);
      i64 ccut = 0;
      for (u64 c = 0; c < cn; ++c) coarse->get().adjacent_nodes(c, [&](const NodeID v, const EdgeWeight x) { if (cp[c] != cp[v]) ccut += x; });
      CHECK_EQ(ccut / 2, gr.cut(fp), "cut", what << ": cut of the projected partition");
      if (big) break;
    }
  }
}
PBT_TEST(contract, 12) { contract_seq(g, false); }
PBT_TEST(contract_big, 1) { contract_seq(g, true); }

PBT_TEST(hierarchy, 5) {
  const int threads = g.weighted({2, 3}) == 0 ? 1 : g.range(2, 8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  GraphOptions o;
  o.max_n = 2500;
  o.max_m = 15000;
  o.allow_empty = false;
  o.big_bias = 3;
  Form f = make_form(g, gen_graph(g, o));
  label_graph(g, f.model);
  Context ctx = create_context_by_preset_name(g.pick<std::string>({"default", "strong", "largek", "terapart"}));
  ctx.parallel.num_threads = threads;
  ctx.coarsening.contraction = gen_con(g);
  auto &cl = ctx.coarsening.clustering;
  cl.lp.impl = g.pick({LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES});
  cl.max_mem_free_coarsening_level = g.draw(4);
  ctx.coarsening.contraction_limit = g.pick<NodeID>({1, 5, 50});
  const u64 k = g.range(2, 8);
  ctx.partition.setup(f.graph, k, g.pick({0.03, 0.1, 1.0}));
  g.note(f.model.str() + " " + f.name + " algorithm " + std::to_string((int)ctx.coarsening.contraction.algorithm));
  Random::reseed(g.seed() & 0x7fffffff);
  const bool via_factory = g.flip();
  Rng r(g.seed());
  std::vector<NodeID> com;
  for (int pass = 0; pass < 1 + (int)g.draw(2); ++pass) {
    // one coarsener per toplevel graph, as everywhere in the program
    std::unique_ptr<Coarsener> coarsener = via_factory ? factory::create_coarsener(ctx) : std::make_unique<ClusteringCoarsener>(ctx, ctx.partition);
    coarsener->initialize(&f.graph);
    com.clear();
    const u64 nc = g.range(1, 5);
    if (g.chance(1, 3)) { for (u64 u = 0; u < f.model.n; ++u) com.push_back(u * nc / f.model.n); g.label("communities"); }
    coarsener->use_communities(com);
    std::vector<pbt::G> levels{f.model};
    std::vector<std::vector<NodeID>> coms{com};
    const int depth = g.range(1, 8);
    for (int i = 0; i < depth; ++i) {
      coarsener->coarsen();
      levels.push_back(read_back(coarsener->current()));
      const auto c = coarsener->current_communities();
      coms.emplace_back(c.begin(), c.end());
      CHECK_EQ(coarsener->level(), (std::size_t)i + 1, "level", "number of levels");
      if (levels.back().n < levels[levels.size() - 2].n) g.nontrivial(true);
      if (levels.back().n <= 1) break;
    }
    // Go up again, every coarse node its own block
    for (u64 l = levels.size() - 1; l > 0; --l) {
      const u64 cn = levels[l].n;
      std::vector<u32> ids(cn);
      std::iota(ids.begin(), ids.end(), 0);
      const shm::Graph *coarse_ptr = &coarsener->current();
      // Keep the coarse graph's content as model: the graph itself is released
      PartitionedGraph p(*coarse_ptr, cn, to_static<BlockID>(ids));
      PartitionedGraph up = coarsener->uncoarsen(std::move(p));
      CHECK_EQ(up.k(), cn, "k", "blocks after uncoarsening");
      CHECK_EQ(up.n(), levels[l - 1].n, "n", "nodes after uncoarsening");
      std::vector<u32> map(up.n());
      std::vector<i64> bw(cn, 0);
      for (u64 u = 0; u < up.n(); ++u) {
        map[u] = up.block(u);
        CHECK_MSG(map[u] < cn, "mapping", "node " << u << " is projected to block " << map[u] << " of " << cn);
        bw[map[u]] += levels[l - 1].w(u);
        if (!com.empty()) CHECK_MSG(coms[l][map[u]] == coms[l - 1][u], "community", "level " << l << ": node " << u << " of community " << coms[l - 1][u] << " is in a coarse node of community " << coms[l][map[u]]);
      }
      for (u64 c = 0; c < cn; ++c) {
        CHECK_MSG(bw[c] == levels[l].w(c), "node-weight", "level " << l << ": coarse node " << c << " weighs " << levels[l].w(c) << ", members " << bw[c]);
        CHECK_MSG(up.block_weight(c) == bw[c], "block-weight", "level " << l << ": block " << c);
      }
      // Edges
      std::vector<std::map<u64, i64>> nb(cn);
      const pbt::G &fine = levels[l - 1];
      for (u64 u = 0; u < fine.n; ++u) for (u64 e = fine.xadj[u]; e < fine.xadj[u + 1]; ++e) if (map[u] != map[fine.adj[e]]) nb[map[u]][map[fine.adj[e]]] += fine.we(e);
      for (u64 c = 0; c < cn; ++c) {
        std::map<u64, i64> got;
        for (u64 e = levels[l].xadj[c]; e < levels[l].xadj[c + 1]; ++e) CHECK_MSG(got.emplace(levels[l].adj[e], levels[l].we(e)).second, "duplicate-edge", "level " << l << ": duplicate coarse edge at " << c);
        CHECK_MSG(got == nb[c], "edges", "level " << l << ": neighbourhood of coarse node " << c);
      }
    }
    CHECK_MSG(coarsener->empty(), "level", "hierarchy not empty after uncoarsening all levels");
  }
}
#endif

int main(int argc, char **argv) {
  config().hang_s = 60;
  pbt::Runner r;
  return r.main(argc, argv);
}
