// K11: refinement algorithms against a partition model.
#include <map>
#include "ctxgen.h"
#include "kaminpar-common/random.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/refinement/refiner.h"
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;
using RA = RefinementAlgorithm;

static std::string name_of(RA a) {
  switch (a) {
  case RA::GREEDY_BALANCER: return "balancer";
  case RA::LABEL_PROPAGATION: return "lp";
  case RA::KWAY_FM: return "fm";
  case RA::JET: return "jet";
  default: return "other";
  }
}

// Weighted grids, tori and geometric-like meshes with a low-cut order
static pbt::G mesh(Gen &g) {
  const u64 w = g.range(4, 20), h = g.range(4, 24), kind = g.draw(4);
  Rng r(g.seed());
  pbt::G gr;
  const u64 n = w * h;
  std::vector<std::map<u32, i64>> nb(n);
  const u64 mw = g.pick<u64>({1, 3, 20, 1000});
  auto edge = [&](u64 a, u64 b) {
    if (a != b) nb[a][b] = nb[b][a] = 1 + r.below(mw);
  };
  for (u64 y = 0; y < h; ++y) for (u64 x = 0; x < w; ++x) {
    const u64 v = y * w + x;
    if (x + 1 < w) edge(v, v + 1);
    if (y + 1 < h) edge(v, v + w);
    if (kind == 1 && x + 1 < w && y + 1 < h) edge(v, v + w + 1);
    if (kind == 2) { edge(v, y * w + (x + 1) % w); edge(v, ((y + 1) % h) * w + x); }
    if (kind == 3) for (u64 i = r.below(4); i > 0; --i) { const i64 t = (i64)v + (i64)r.below(3 * w) - (i64)(3 * w / 2); if (t >= 0 && t < (i64)n) edge(v, t); }
  }
  gr.n = n;
  gr.xadj.assign(1, 0);
  const bool ew = mw > 1, vw = g.flip();
  for (u64 u = 0; u < n; ++u) {
    for (auto [v, x] : nb[u]) { gr.adj.push_back(v); if (ew) gr.ew.push_back(x); }
    gr.xadj.push_back(gr.adj.size());
    if (vw) gr.vw.push_back(1 + r.below(4));
  }
  g.note("mesh" + std::to_string(kind) + " ");
  return gr;
}

static void drive(Gen &g, std::vector<RA> algos, bool polish = false) {
  const bool many = algos.size() > 1;
  const int threads = polish || g.weighted({3, 2}) == 0 ? 1 : g.range(2, 8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
  const std::string nm = many ? "multi" : name_of(algos[0]);
  auto has = [&](RA a) { return std::find(algos.begin(), algos.end(), a) != algos.end(); };

  Context ctx = create_context_by_preset_name(g.pick<std::string>({"default", "strong", "jet", "largek", "4xjet"}));
  ctx.parallel.num_threads = threads;
  ctx.refinement.algorithms = algos;
  auto &lp = ctx.refinement.lp;
  auto &fm = ctx.refinement.kway_fm;
  bool lp_limited = false;
  for (int i = g.weighted({2, 2, 1, 1}); i > 0; --i) switch (g.draw(12)) {
    case 0: lp.num_iterations = g.range(1, 10); break;
    case 1: lp.large_degree_threshold = g.pick<NodeID>({1, 4, 20}); lp_limited = true; g.note("lp-large-degree "); break;
    case 2: lp.max_num_neighbors = g.pick<NodeID>({1, 3, 10}); lp_limited = true; g.note("lp-max-neighbors "); break;
    case 3: lp.impl = g.pick({LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES}); g.note("lp-impl" + std::to_string((int)lp.impl) + " "); break;
    case 4: lp.tie_breaking_strategy = g.pick({TieBreakingStrategy::GEOMETRIC, TieBreakingStrategy::UNIFORM}); g.note("lp-ties "); break;
    case 5: fm.num_seed_nodes = g.range(1, 12); break;
    case 6: fm.alpha = g.pick({0.1, 1.0, 5.0}); break;
    case 7: fm.num_iterations = g.range(1, 12); fm.abortion_threshold = g.pick({0.0, 0.5, 0.999}); break;
    case 8: fm.unlock_locally_moved_nodes = g.flip(); fm.unlock_seed_nodes = g.flip(); break;
    case 9: fm.gain_cache_strategy = g.pick({GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE, GainCacheStrategy::SPARSE_LARGE_K, GainCacheStrategy::COMPACT_HASHING_LARGE_K, GainCacheStrategy::HASHING, GainCacheStrategy::HASHING_LARGE_K, GainCacheStrategy::DENSE, GainCacheStrategy::DENSE_LARGE_K, GainCacheStrategy::ON_THE_FLY}); g.note("gc" + std::to_string((int)fm.gain_cache_strategy) + " "); break;
    case 10: ctx.refinement.jet.num_iterations = g.range(1, 20); ctx.refinement.jet.num_fruitless_iterations = g.range(1, 12); break;
    case 11: { auto &j = ctx.refinement.jet; j.num_rounds_on_fine_level = g.range(1, 4); j.num_rounds_on_coarse_level = g.range(1, 4); j.initial_gain_temp_on_fine_level = g.pick({0.0, 0.25, 0.75, 1.0}); break; }
  }

  const int rounds = polish ? 1 : 1 + g.draw(3);
  struct Case { pbt::G gr; u64 k; bool sorted; };
  std::vector<Case> cases;
  u64 max_n = 0, max_k = 2;
  for (int i = 0; i < rounds; ++i) {
    GraphOptions o;
    o.max_n = 600;
    o.max_m = 4000;
    o.allow_empty = true;
    Case c{polish ? mesh(g) : gen_graph(g, o), 0, false};
    c.k = polish ? g.range(2, 8) : g.weighted({4, 1}) == 0 ? g.range(2, 9) : g.pick<u64>({10, 16, 17, 31, 64, 100});
    g.note(c.gr.str() + " k=" + std::to_string(c.k));
    max_n = std::max(max_n, c.gr.n);
    max_k = std::max(max_k, c.k);
    cases.push_back(std::move(c));
  }
  // The refiner is built for the largest level
  ctx.partition.n = max_n + (g.chance(1, 4) ? g.range(0, 50) : 0);
  ctx.partition.k = max_k;
  auto refiner = factory::create_refiner(ctx);
  Random::reseed(g.seed() & 0x7fffffff);

  for (const Case &c : cases) {
    const pbt::G &gr = c.gr;
    label_graph(g, gr);
    const u64 k = c.k;
    Rng r(g.seed());
    // Partition: random, grown along the node order, or an improved mix
    std::vector<u32> part(gr.n);
    const int shape = polish ? 1 : g.draw(4);
    const u64 used = shape == 3 ? 1 + r.below(k) : k;
    for (u64 u = 0; u < gr.n; ++u) part[u] = shape == 0 || shape == 3 ? r.below(used) : std::min<u64>(k - 1, u * k / std::max<u64>(1, gr.n));
    if (shape == 1) for (u64 u = 0; u < gr.n; ++u) if (r.chance(1, polish ? 30 : 10)) part[u] = r.below(k);
    if (shape == 2) for (u64 u = 0; u < gr.n; ++u) if (gr.deg(u) && r.chance(1, 2)) part[u] = part[gr.adj[gr.xadj[u] + r.below(gr.deg(u))]];
    std::vector<i64> bw(k, 0);
    for (u64 u = 0; u < gr.n; ++u) bw[part[u]] += gr.w(u);

    // Limits
    const bool compressed = g.chance(1, 4);
    shm::Graph graph = compressed ? shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr)))) : to_graph(gr);
    if (compressed) g.label("compressed");
    PartitionContext p_ctx;
    const int how = g.draw(3);
    if (how == 0) p_ctx.setup(graph, k, g.pick({0.001, 0.03, 0.1, 0.5, 2.0}));
    else {
      std::vector<BlockWeight> lim(k);
      i64 sum = 0;
      for (u64 b = 0; b < k; ++b) {
        lim[b] = how == 1 ? bw[b] + (i64)r.below(1 + g.pick<u64>({0, 1, 5, 50}) * gr.max_w()) : 1 + (i64)r.below(1 + 3 * gr.total_w() / k);
        sum += lim[b] = std::max<BlockWeight>(lim[b], 1);
      }
      for (u64 b = 0; sum < gr.total_w(); b = (b + 1) % k) { const i64 add = std::max<i64>(1, (gr.total_w() - sum) / (i64)k); lim[b] += add; sum += add; }
      p_ctx.setup(graph, std::move(lim), false);
    }
    bool feasible = true;
    for (u64 b = 0; b < k; ++b) feasible = feasible && bw[b] <= p_ctx.max_block_weight(b);
    g.label(feasible ? "start:feasible" : "start:infeasible");
    i64 cut0 = gr.cut(part);

    // Communities: unions of blocks, so that the partition is nested in them
    std::vector<NodeID> com;
    std::vector<u32> com_of_block(k);
    if (!many && has(RA::LABEL_PROPAGATION) && g.chance(1, 4)) {
      const u64 cs = 1 + r.below(k);
      for (auto &x : com_of_block) x = r.below(cs);
      for (u64 u = 0; u < gr.n; ++u) com.push_back(com_of_block[part[u]]);
      g.label("communities");
    }
    refiner->set_communities(com);

    PartitionedGraph p(graph, k, to_static<BlockID>(part));
    refiner->initialize(p);
    const int reps = polish ? g.range(1, 10) : 1 + g.weighted({3, 1, 1});
    for (int rep = 0; rep < reps; ++rep) {
    refiner->refine(p, p_ctx);

    CHECK_EQ(p.k(), k, "k", "number of blocks after refinement");
    std::vector<u32> after(gr.n);
    std::vector<i64> bw2(k, 0);
    u64 moved = 0;
    for (u64 u = 0; u < gr.n; ++u) {
      after[u] = p.block(u);
      CHECK_MSG(after[u] < k, "invalid-block", nm << ": node " << u << " ended in block " << after[u] << " of " << k);
      bw2[after[u]] += gr.w(u);
      moved += after[u] != part[u];
    }
    for (u64 b = 0; b < k; ++b) CHECK_MSG(p.block_weight(b) == bw2[b], "block-weight", nm << ": tracked weight of block " << b << " is " << p.block_weight(b) << ", true " << bw2[b]);
    if (moved) { g.nontrivial(true); g.label("moved"); }
    const i64 cut1 = gr.cut(after);
    bool feasible2 = true;
    for (u64 b = 0; b < k; ++b) feasible2 = feasible2 && bw2[b] <= p_ctx.max_block_weight(b);

    const bool unit = gr.max_w() <= 1;
    const bool fm_par = has(RA::KWAY_FM) && threads > 1;
    // (1) limits: label propagation and balancing never push a block over its limit
    if (!has(RA::JET) && !fm_par)
      for (u64 b = 0; b < k; ++b) CHECK_MSG(bw2[b] <= std::max<i64>(bw[b], p_ctx.max_block_weight(b)), "overloaded", nm << ": block " << b << " went from " << bw[b] << " to " << bw2[b] << ", limit " << p_ctx.max_block_weight(b) << ", " << threads << " threads");
    if (feasible && (!fm_par || (unit && algos.back() == RA::GREEDY_BALANCER)))
      CHECK_MSG(feasible2, "infeasible", nm << ": feasible partition became infeasible, " << threads << " threads");
    // (2) cut
    const bool balancer_only = algos.size() == 1 && has(RA::GREEDY_BALANCER);
    if (balancer_only && feasible) CHECK_MSG(moved == 0, "balancer-moved", "balancer moved " << moved << " nodes of a feasible partition");
    const bool lp_exact = !has(RA::LABEL_PROPAGATION) || (threads == 1 && !lp_limited && com.empty());
    const bool fm_exact = !has(RA::KWAY_FM) || threads == 1;
    if (feasible && lp_exact && fm_exact)
      CHECK_MSG(cut1 <= cut0, "cut-worse", nm << ": cut of a feasible partition rose from " << cut0 << " to " << cut1 << ", " << threads << " threads");
    if (!many && ((has(RA::KWAY_FM) && threads == 1) || has(RA::JET)))
      CHECK_MSG(cut1 <= cut0, "cut-worse", nm << ": cut rose from " << cut0 << " to " << cut1 << ", " << threads << " threads");
    // (3) balancing unit weights
    if (unit && algos.back() == RA::GREEDY_BALANCER) CHECK_MSG(feasible2, "unbalanced", nm << ": unit weights, the limits sum up to enough, but the result is infeasible, " << threads << " threads");
    // (4) communities
    if (!com.empty())
      for (u64 u = 0; u < gr.n; ++u) CHECK_MSG(com_of_block[after[u]] == com[u], "community", nm << ": node " << u << " of community " << com[u] << " moved to block " << after[u] << " of community " << com_of_block[after[u]]);
    part = std::move(after);
    bw = std::move(bw2);
    cut0 = cut1;
    feasible = feasible2;
    }
  }
}

PBT_TEST(lp, 4) { drive(g, {RA::LABEL_PROPAGATION}); }
PBT_TEST(fm, 4) { drive(g, {RA::KWAY_FM}); }
PBT_TEST(polish, 4) { drive(g, {g.weighted({3, 1, 1}) == 0 ? RA::KWAY_FM : g.pick({RA::JET, RA::LABEL_PROPAGATION})}, true); }
PBT_TEST(jet, 2) { drive(g, {RA::JET}); }
PBT_TEST(balancer, 4) { drive(g, {RA::GREEDY_BALANCER}); }
PBT_TEST(multi, 3) {
  std::vector<RA> a;
  for (u64 i = 1 + g.draw(3); i > 0; --i) a.push_back(g.pick({RA::GREEDY_BALANCER, RA::LABEL_PROPAGATION, RA::KWAY_FM, RA::JET}));
  a.push_back(RA::GREEDY_BALANCER);
  for (RA x : a) g.note(name_of(x) + " ");
  drive(g, a);
}
int main(int argc, char **argv) {
  config().confirm_runs = 25;
  config().hang_s = 60;
  pbt::Runner r;
  return r.main(argc, argv);
}
