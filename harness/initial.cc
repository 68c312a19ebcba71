// K19: sequential coarsening, flat bipartitioners, 2-way FM, the pool and the multilevel bipartitioner.
#include <map>
#include <set>
#include "ctxgen.h"
#include "kaminpar-common/random.h"
#include "kaminpar-shm/coarsening/max_cluster_weights.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_bipartitioner_worker_pool.h"
#include "kaminpar-shm/initial_partitioning/initial_coarsener.h"
#include "kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_random_bipartitioner.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

static pbt::G read_csr(const CSRGraph &gr) {
  pbt::G o;
  o.n = gr.n();
  o.xadj.assign(1, 0);
  for (NodeID u = 0; u < gr.n(); ++u) {
    gr.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { o.adj.push_back(v); o.ew.push_back(w); });
    o.xadj.push_back(o.adj.size());
    o.vw.push_back(gr.node_weight(u));
  }
  return o;
}

struct Item {
  std::unique_ptr<CSRGraph> csr; // plain
  shm::Graph holder;             // degree-sorted
  const CSRGraph *g = nullptr;
  pbt::G model;
};

static Item gen_item(Gen &g, u64 max_n, bool allow_empty) {
  GraphOptions o;
  o.max_n = max_n;
  o.max_m = max_n * 8;
  o.allow_empty = allow_empty;
  Item it;
  it.model = gen_graph(g, o);
  label_graph(g, it.model);
  it.csr = std::make_unique<CSRGraph>(to_csr(it.model));
  if (g.chance(1, 3) && it.model.n > 0) {
    it.holder = graph::rearrange_by_degree_buckets(*it.csr);
    it.g = dynamic_cast<const CSRGraph *>(it.holder.underlying_graph());
    it.model = read_csr(*it.g);
    g.note("sorted ");
    g.label("sorted");
  } else {
    it.g = it.csr.get();
  }
  g.note(it.model.str());
  return it;
}

// coarse must be the contraction of fine under map
static void check_contraction(const pbt::G &fine, const CSRGraph &coarse, const std::vector<u32> &map, const std::string &what) {
  const u64 cn = coarse.n();
  std::vector<i64> w(cn, 0);
  std::vector<std::map<u32, i64>> nb(cn);
  std::vector<char> hit(cn, 0);
  for (u64 u = 0; u < fine.n; ++u) {
    CHECK_MSG(map[u] < cn, "map", what << ": node " << u << " maps to " << map[u] << " of " << cn);
    hit[map[u]] = 1;
    w[map[u]] += fine.w(u);
    for (u64 e = fine.xadj[u]; e < fine.xadj[u + 1]; ++e)
      if (map[fine.adj[e]] != map[u]) nb[map[u]][map[fine.adj[e]]] += fine.we(e);
  }
  i64 tw = 0, te = 0;
  u64 m = 0;
  for (u64 c = 0; c < cn; ++c) {
    CHECK_MSG(hit[c], "map", what << ": coarse node " << c << " represents no node");
    CHECK_EQ((i64)coarse.node_weight(c), w[c], "coarse-weight", what << ": weight of coarse node " << c);
    std::map<u32, i64> got;
    u64 cnt = 0;
    coarse.adjacent_nodes(c, [&](const NodeID v, const EdgeWeight x) { got[v] += x; ++cnt; });
    CHECK_EQ(cnt, nb[c].size(), "coarse-degree", what << ": degree of coarse node " << c);
    CHECK_MSG(got == nb[c], "coarse-edges", what << ": neighbourhood of coarse node " << c);
    tw += w[c];
    m += cnt;
    for (auto [v, x] : got) te += x;
  }
  CHECK_EQ((u64)coarse.m(), m, "coarse-m", what << ": number of coarse edges");
  CHECK_EQ((i64)coarse.total_node_weight(), tw, "coarse-total", what << ": total coarse node weight");
  CHECK_EQ((i64)coarse.total_edge_weight(), te, "coarse-total", what << ": total coarse edge weight");
  i64 mx = 0;
  for (i64 x : w) mx = std::max(mx, x);
  CHECK_EQ((i64)coarse.max_node_weight(), mx, "coarse-max", what << ": maximum coarse node weight");
}

template <typename P> static std::vector<u32> blocks_of(const P &p, const pbt::G &gr, u64 k, const std::string &what) {
  std::vector<u32> part(gr.n);
  std::vector<i64> bw(k, 0);
  CHECK_EQ((u64)p.n(), gr.n, "n", what << ": number of nodes");
  CHECK_EQ((u64)p.k(), k, "k", what << ": number of blocks");
  for (u64 u = 0; u < gr.n; ++u) {
    part[u] = p.block(u);
    CHECK_MSG(part[u] < k, "invalid-block", what << ": node " << u << " in block " << part[u] << " of " << k);
    bw[part[u]] += gr.w(u);
  }
  for (u64 b = 0; b < k; ++b) CHECK_EQ((i64)p.block_weight(b), bw[b], "block-weight", what << ": weight of block " << b);
  return part;
}

PBT_TEST(coarsening, 4) {
  InitialCoarseningContext c;
  c.contraction_limit = 20;
  c.convergence_threshold = g.pick({0.05, 0.0, 0.2, 0.5});
  c.large_degree_threshold = g.weighted({4, 1}) == 0 ? 1000000 : g.pick<NodeID>({1, 2, 4, 16, 100});
  c.cluster_weight_limit = ClusterWeightLimit::BLOCK_WEIGHT;
  c.cluster_weight_multiplier = 1.0;
  if (c.large_degree_threshold < 1000000) g.label("large-degree");
  Random::reseed(g.seed() & 0x7fffffff);
  InitialCoarsener co(c);
  const int rounds = g.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    Item it = gen_item(g, g.weighted({6, 3, 1}) == 0 ? 120 : g.flip() ? 600 : 2500, false);
    const pbt::G &gr = it.model;
    co.init(*it.g);
    const i64 mcw = g.weighted({1, 3, 2, 1}) == 0 ? 1 : g.flip() ? (i64)g.range(1, 8) * gr.max_w() : g.flip() ? 1 + gr.total_w() / (i64)g.range(1, 40) : gr.total_w();
    const u64 limit = g.pick<u64>({20, 1, 5, 0});
    g.note("mcw=" + std::to_string(mcw) + " ");
    std::vector<pbt::G> levels{read_csr(*it.g)};
    const CSRGraph *cur = it.g;
    while (cur->n() > limit && levels.size() < 30) {
      const CSRGraph *next = co.coarsen(mcw);
      if (next == cur) break;
      CHECK_MSG(next->n() < levels.back().n, "no-shrink", "coarsening from " << levels.back().n << " to " << next->n() << " nodes");
      levels.push_back(read_csr(*next));
      cur = next;
    }
    g.label("levels:" + std::to_string(std::min<std::size_t>(levels.size() - 1, 6)));
    CHECK_EQ(co.level(), levels.size() - 1, "level", "number of levels");
    if (levels.size() > 1) g.nontrivial(gr.m() > 0);
    Rng r(g.seed());
    // Undo the levels with partitions that reveal the mapping (fresh or handed through) or with bipartitions
    const int mode = g.draw(3);
    u64 k = mode == 2 ? 2 : levels.back().n;
    auto labels = [&](u64 n) { std::vector<u32> p(n); for (u64 u = 0; u < n; ++u) p[u] = mode == 2 ? r.below(2) : u; return p; };
    std::vector<u32> lab = labels(levels.back().n);
    PartitionedCSRGraph p(PartitionedCSRGraph::seq{}, *co.current(), k, to_static<BlockID>(lab));
    CSRGraph top = to_csr(levels.back()); // the coarsener drops its own copy below
    for (std::size_t l = levels.size() - 1; l > 0; --l) {
      CHECK_MSG(!co.empty(), "level", "hierarchy empty at level " << l);
      const i64 cut = levels[l].cut(lab);
      p = co.uncoarsen(std::move(p));
      const std::string what = "level " + std::to_string(l - 1);
      const std::vector<u32> part = blocks_of(p, levels[l - 1], k, what);
      std::vector<i64> a(k, 0), b(k, 0);
      if (mode == 2) {
        CHECK_EQ(levels[l - 1].cut(part), cut, "projection-cut", what << ": cut of the projected bipartition");
        for (u64 u = 0; u < levels[l].n; ++u) a[lab[u]] += levels[l].w(u);
        for (u64 u = 0; u < levels[l - 1].n; ++u) b[part[u]] += levels[l - 1].w(u);
        CHECK_MSG(a == b, "projection-weights", what << ": block weights changed by projecting");
        lab = part;
      } else if (mode == 1 || l + 1 == levels.size()) {
        // composed (mode 1) or single-level (mode 0, coarsest) mapping onto `top`
        check_contraction(levels[l - 1], top, part, what);
        if (mode == 0 || l + 1 == levels.size()) {
          std::vector<u64> size(k, 0);
          for (u32 x : part) ++size[x];
          for (u64 x = 0; x < k; ++x)
            if (size[x] > 1) CHECK_MSG(levels[l].w(x) <= mcw, "cluster-weight", what << ": cluster of " << size[x] << " nodes weighs " << levels[l].w(x) << ", limit " << mcw);
        }
        lab = part;
      } else {
        check_contraction(levels[l - 1], top, part, what);
        std::vector<u64> size(k, 0);
        for (u32 x : part) ++size[x];
        for (u64 x = 0; x < k; ++x)
          if (size[x] > 1) CHECK_MSG(levels[l].w(x) <= mcw, "cluster-weight", what << ": cluster of " << size[x] << " nodes weighs " << levels[l].w(x) << ", limit " << mcw);
      }
      if (mode == 0 && l > 1) {
        k = levels[l - 1].n;
        lab = labels(k);
        top = to_csr(levels[l - 1]);
        p = PartitionedCSRGraph(PartitionedCSRGraph::seq{}, *co.current(), k, to_static<BlockID>(lab));
      }
    }
    CHECK_MSG(co.empty(), "level", "levels left after undoing all of them");
    CHECK_MSG(co.current() == it.g, "level", "the input graph is not the finest level");
  }
}

// ---- limits ----
struct Limits { PartitionContext p; bool room; };
static Limits gen_limits(Gen &g, const CSRGraph &csr, const pbt::G &gr, i64 extra = 0) {
  Limits l;
  Rng r(g.seed());
  const i64 tot = std::max<i64>(1, gr.total_w());
  const int how = g.draw(4);
  if (how == 0) l.p.setup(csr, 2, g.pick({0.0, 0.03, 0.2, 1.0}), g.flip());
  else {
    i64 a = how == 1 ? tot / 2 : (i64)r.below(tot + 1), b = std::max<i64>(1, tot - a);
    a = std::max<i64>(a, 1);
    a += r.below(2 * gr.max_w() + 2) * g.range(0, 2);
    b += r.below(2 * gr.max_w() + 2) * g.range(0, 2);
    if (how == 3 && g.flip()) { a = std::max<i64>(1, a * 2 / 3); b = std::max<i64>(1, b * 2 / 3); g.label("too-tight"); }
    l.p.setup(csr, std::vector<BlockWeight>{(BlockWeight)a, (BlockWeight)b}, g.flip());
  }
  l.room = true;
  const i64 need = std::max<i64>(gr.max_w(), extra);
  for (BlockID b : {0, 1}) l.room = l.room && l.p.max_block_weight(b) >= l.p.perfectly_balanced_block_weight(b) + need;
  l.room = l.room && l.p.perfectly_balanced_block_weight(0) + l.p.perfectly_balanced_block_weight(1) >= gr.total_w();
  g.note("limits=" + std::to_string(l.p.max_block_weight(0)) + "," + std::to_string(l.p.max_block_weight(1)) + (l.room ? " room " : " "));
  g.label(l.room ? "room" : "tight");
  return l;
}

static InitialRefinementContext gen_refinement(Gen &g) {
  InitialRefinementContext r;
  r.disabled = false;
  r.stopping_rule = g.pick({FMStoppingRule::SIMPLE, FMStoppingRule::ADAPTIVE});
  r.num_fruitless_moves = g.pick<NodeID>({100, 0, 1, 5, 20});
  r.alpha = g.pick({1.0, 0.1, 10.0});
  r.num_iterations = g.pick<std::size_t>({5, 1, 2, 20});
  r.improvement_abortion_threshold = g.pick({0.0001, 0.0, 0.5});
  return r;
}

static i64 overload(const std::vector<i64> &bw, const PartitionContext &p) {
  i64 o = 0;
  for (u64 b = 0; b < bw.size(); ++b) o += std::max<i64>(0, bw[b] - p.max_block_weight(b));
  return o;
}
static std::vector<i64> weights(const pbt::G &gr, const std::vector<u32> &part, u64 k) {
  std::vector<i64> bw(k, 0);
  for (u64 u = 0; u < gr.n; ++u) bw[part[u]] += gr.w(u);
  return bw;
}

PBT_TEST(fm, 4) {
  const InitialRefinementContext rc = gen_refinement(g);
  Random::reseed(g.seed() & 0x7fffffff);
  auto refiner = create_initial_refiner(rc);
  const int rounds = g.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    Item it = gen_item(g, g.weighted({5, 2}) == 0 ? 120 : 700, true);
    const pbt::G &gr = it.model;
    Limits l = gen_limits(g, *it.g, gr);
    Rng r(g.seed());
    std::vector<u32> part(gr.n);
    const int shape = g.draw(4);
    for (u64 u = 0; u < gr.n; ++u) switch (shape) {
      case 0: part[u] = r.below(2); break;
      case 1: part[u] = u * 2 >= gr.n; break;
      case 2: part[u] = (u * 2 >= gr.n) ^ (r.below(8) == 0); break;
      default: part[u] = r.below(12) == 0;
    }
    PartitionedCSRGraph p(PartitionedCSRGraph::seq{}, *it.g, 2, to_static<BlockID>(part));
    refiner->init(*it.g);
    const int reps = g.range(1, 3);
    for (int rep = 0; rep < reps; ++rep) {
      const i64 cut0 = gr.cut(part), ov0 = overload(weights(gr, part, 2), l.p);
      const bool improved = refiner->refine(p, l.p);
      const std::vector<u32> after = blocks_of(p, gr, 2, "fm");
      const i64 cut1 = gr.cut(after), ov1 = overload(weights(gr, after, 2), l.p);
      CHECK_MSG(cut1 <= cut0, "cut-worse", "2-way FM raised the cut from " << cut0 << " to " << cut1);
      CHECK_MSG(ov1 <= ov0, "overload-worse", "2-way FM raised the overload from " << ov0 << " to " << ov1);
      if (rc.num_iterations != 1) CHECK_EQ(improved, cut1 < cut0, "improved", "reported improvement from " << cut0 << " to " << cut1);
      if (after != part) { g.nontrivial(true); g.label("moved"); }
      part = after;
    }
  }
}

static InitialPoolPartitionerContext gen_pool(Gen &g) {
  InitialPoolPartitionerContext p = create_default_context().initial_partitioning.pool;
  p.refinement = gen_refinement(g);
  p.refinement.disabled = g.chance(1, 5);
  if (g.flip()) {
    p.min_num_repetitions = g.range(1, 5);
    p.max_num_repetitions = p.min_num_repetitions + g.range(0, 5);
    p.min_num_non_adaptive_repetitions = g.range(1, 4);
  }
  p.num_seed_iterations = g.range(0, 3);
  p.use_adaptive_bipartitioner_selection = g.flip();
  const int e = g.range(1, 7);
  p.enable_bfs_bipartitioner = e & 1;
  p.enable_ggg_bipartitioner = e & 2;
  p.enable_random_bipartitioner = e & 4;
  g.note("pool=" + std::to_string(e) + " ");
  return p;
}

PBT_TEST(flat, 3) {
  const InitialPoolPartitionerContext pc = gen_pool(g);
  Random::reseed(g.seed() & 0x7fffffff);
  const int kind = g.draw(7);
  std::unique_ptr<InitialFlatBipartitioner> f;
  switch (kind) {
    case 0: f = std::make_unique<AlternatingBfsBipartitioner>(pc); break;
    case 1: f = std::make_unique<LighterBlockBfsBipartitioner>(pc); break;
    case 2: f = std::make_unique<SequentialBfsBipartitioner>(pc); break;
    case 3: f = std::make_unique<LongerQueueBfsBipartitioner>(pc); break;
    case 4: f = std::make_unique<ShorterQueueBfsBipartitioner>(pc); break;
    case 5: f = std::make_unique<InitialGGGBipartitioner>(pc); break;
    case 6: f = std::make_unique<InitialRandomBipartitioner>(pc); break;
  }
  g.label("kind:" + std::to_string(kind));
  StaticArray<BlockID> partition(0);
  StaticArray<BlockWeight> bws(2);
  const int rounds = g.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    Item it = gen_item(g, g.weighted({5, 2}) == 0 ? 80 : 500, true);
    const pbt::G &gr = it.model;
    Limits l = gen_limits(g, *it.g, gr);
    f->init(*it.g, l.p);
    const int reps = g.range(1, 3);
    for (int rep = 0; rep < reps; ++rep) {
      PartitionedCSRGraph p = f->bipartition(std::move(partition), std::move(bws));
      const auto part = blocks_of(p, gr, 2, "flat bipartitioner " + std::to_string(kind));
      const auto bw = weights(gr, part, 2);
      if (l.room) CHECK_EQ(overload(bw, l.p), (i64)0, "overload", "flat bipartitioner " << kind << ": weights " << bw[0] << ", " << bw[1]);
      partition = p.take_raw_partition();
      bws = p.take_raw_block_weights();
      g.nontrivial(gr.n > 1);
    }
  }
}

PBT_TEST(pool, 3) {
  InitialPoolPartitionerContext pc = gen_pool(g);
  const u64 seed = g.seed() & 0x7fffffff;
  const bool compare = g.flip();
  if (compare) { // the longer run starts with exactly the shorter one
    pc.use_adaptive_bipartitioner_selection = false;
    pc.min_num_repetitions = pc.max_num_repetitions = g.range(1, 4);
  }
  InitialPoolPartitionerContext longer = pc;
  longer.min_num_repetitions = longer.max_num_repetitions = pc.max_num_repetitions + g.range(1, 4);
  Random::reseed(seed);
  InitialPoolBipartitioner pool(pc);
  pool.set_num_repetitions(g.pick({1, 10, 1000}));
  const int rounds = compare ? 1 : g.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    Item it = gen_item(g, g.weighted({5, 2}) == 0 ? 60 : 300, true);
    const pbt::G &gr = it.model;
    Limits l = gen_limits(g, *it.g, gr);
    pool.init(*it.g, l.p);
    PartitionedCSRGraph p = pool.bipartition();
    const auto part = blocks_of(p, gr, 2, "pool");
    const i64 ov = overload(weights(gr, part, 2), l.p), cut = gr.cut(part);
    if (l.room) CHECK_EQ(ov, (i64)0, "overload", "pool bipartition");
    g.nontrivial(gr.n > 1 && gr.m() > 0);
    if (compare) {
      Random::reseed(seed);
      InitialPoolBipartitioner again(longer);
      again.set_num_repetitions(1);
      again.init(*it.g, l.p);
      PartitionedCSRGraph q = again.bipartition();
      const auto part2 = blocks_of(q, gr, 2, "longer pool run");
      const i64 ov2 = overload(weights(gr, part2, 2), l.p), cut2 = gr.cut(part2);
      g.label("compared");
      CHECK_MSG(!(ov == 0 && ov2 > 0), "score", "a longer pool run forgets a feasible bipartition (overload " << ov2 << ")");
      if ((ov == 0) == (ov2 == 0)) CHECK_MSG(cut2 <= cut, "score", "a longer pool run ends with cut " << cut2 << ", the shorter one with " << cut);
    }
  }
}

// The tree of block counts: every level has twice as many entries, the first half (rounded up) to the left
static std::vector<u64> level_of(u64 input_k, u64 current_k) {
  std::vector<u64> l{input_k};
  while (l.size() < current_k) {
    std::vector<u64> next;
    for (u64 x : l) {
      next.push_back((x + 1) / 2);
      if (x / 2 > 0) next.push_back(x / 2);
    }
    l = next;
  }
  return l;
}

static void multilevel(Gen &g, bool workers) {
  const int threads = workers ? g.range(1, 8) : 1;
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  Context ctx = create_context_by_preset_name(g.pick<std::string>({"default", "strong", "largek", "fast"}));
  auto &ip = ctx.initial_partitioning;
  if (g.flip()) ip.coarsening.contraction_limit = g.pick<NodeID>({1, 2, 5, 60});
  if (g.chance(1, 3)) ip.coarsening.convergence_threshold = g.pick({0.0, 0.3});
  if (g.chance(1, 3)) ip.coarsening.cluster_weight_limit = g.pick({ClusterWeightLimit::EPSILON_BLOCK_WEIGHT, ClusterWeightLimit::BLOCK_WEIGHT, ClusterWeightLimit::ONE, ClusterWeightLimit::ZERO});
  if (g.chance(1, 3)) ip.coarsening.cluster_weight_multiplier = g.pick({1.0, 0.01, 0.3});
  if (g.flip()) ip.pool = gen_pool(g);
  if (g.flip()) ip.refinement = gen_refinement(g);
  ip.refinement.disabled = g.chance(1, 6);
  ip.refine_pool_partition = g.chance(1, 4);
  ip.use_adaptive_epsilon = g.weighted({1, 3});
  const u64 k = g.weighted({2, 2, 1}) == 0 ? 2 : g.flip() ? g.range(2, 9) : g.range(2, 64);

  // A parent graph split into blocks of a level with few enough blocks
  Item parent = gen_item(g, g.weighted({3, 3}) == 0 ? 200 : 1500, false);
  const pbt::G &gr = parent.model;
  if (g.weighted({2, 1}) == 0) ctx.partition.setup(*parent.g, k, g.pick({0.03, 0.001, 0.3}));
  else {
    Rng r(g.seed());
    std::vector<BlockWeight> lim(k);
    i64 sum = 0;
    for (auto &x : lim) sum += x = 1 + r.below(1 + 3 * gr.total_w() / k);
    for (u64 b = 0; sum < gr.total_w(); b = (b + 1) % k) { const i64 add = std::max<i64>(1, (gr.total_w() - sum) / (i64)k); lim[b] += add; sum += add; }
    ctx.partition.setup(*parent.g, std::move(lim), g.flip());
    g.label("limits");
  }
  ctx.partition.n = gr.n;
  u64 cur_k = 1;
  while (cur_k * 2 < k && g.flip()) cur_k *= 2;
  const auto lv = level_of(k, cur_k);
  g.note("k=" + std::to_string(k) + " cur=" + std::to_string(cur_k) + " ");
  Rng r(g.seed());
  struct Job { pbt::G model; std::unique_ptr<CSRGraph> csr; u64 block; };
  std::vector<Job> jobs;
  const int shape = g.draw(3);
  std::vector<u32> owner(gr.n), local(gr.n);
  for (u64 u = 0; u < gr.n; ++u) owner[u] = shape == 0 ? r.below(cur_k) : shape == 1 ? std::min<u64>(cur_k - 1, u * cur_k / gr.n) : (r.below(3) ? 0 : r.below(cur_k));
  for (u64 b = 0; b < cur_k; ++b) {
    if (lv[b] < 2) continue;
    Job j;
    j.block = b;
    u32 cnt = 0;
    for (u64 u = 0; u < gr.n; ++u) if (owner[u] == b) local[u] = cnt++;
    if (cnt == 0 && !workers) continue;
    j.model.n = cnt;
    j.model.xadj.assign(1, 0);
    for (u64 u = 0; u < gr.n; ++u) if (owner[u] == b) {
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) if (owner[gr.adj[e]] == b) { j.model.adj.push_back(local[gr.adj[e]]); if (!gr.ew.empty()) j.model.ew.push_back(gr.ew[e]); }
      j.model.xadj.push_back(j.model.adj.size());
      if (!gr.vw.empty()) j.model.vw.push_back(gr.vw[u]);
    }
    j.csr = std::make_unique<CSRGraph>(to_csr(j.model));
    jobs.push_back(std::move(j));
  }
  for (u64 i = jobs.size(); i > 1; --i) std::swap(jobs[i - 1], jobs[r.below(i)]);
  if (jobs.empty()) { g.note("nothing to split"); return; }
  for (const Job &j : jobs) if (j.model.n > ip.coarsening.contraction_limit && j.model.m() > 0) g.nontrivial(true);
  Random::reseed(g.seed() & 0x7fffffff);

  if (!workers) {
    InitialMultilevelBipartitioner ml(ctx);
    const int rounds = g.range(1, 2);
    for (int round = 0; round < rounds; ++round) for (const Job &j : jobs) {
      ml.initialize(*j.csr, j.block, cur_k);
      const PartitionContext pc = ml.p_ctx();
      const PartitionedCSRGraph p = ml.partition();
      CHECK_MSG(&p.graph() == j.csr.get(), "graph", "the bipartition belongs to another graph");
      const auto part = blocks_of(p, j.model, 2, "multilevel, block " + std::to_string(j.block));
      const i64 mcw = compute_max_cluster_weight<NodeWeight>(ip.coarsening, pc, j.model.n, j.model.total_w());
      bool room = true;
      i64 perf = 0;
      for (BlockID b : {0, 1}) {
        room = room && pc.max_block_weight(b) >= pc.perfectly_balanced_block_weight(b) + std::max<i64>(mcw, j.model.max_w());
        perf += pc.perfectly_balanced_block_weight(b);
      }
      room = room && perf >= j.model.total_w();
      g.label(room ? "room" : "tight");
      const auto bw = weights(j.model, part, 2);
      if (room) CHECK_EQ(overload(bw, pc), (i64)0, "overload", "multilevel bipartition: weights " << bw[0] << ", " << bw[1] << ", limits " << pc.max_block_weight(0) << ", " << pc.max_block_weight(1));
    }
  } else {
    InitialBipartitionerWorkerPool pool(ctx);
    std::vector<std::unique_ptr<shm::Graph>> graphs;
    for (const Job &j : jobs) {
      const bool compressed = j.model.n > 0 && g.chance(1, 5);
      graphs.push_back(std::make_unique<shm::Graph>(compressed ? shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(j.model)))) : to_graph(j.model)));
    }
    const int rounds = g.range(1, 3);
    const bool own = g.flip();
    for (int round = 0; round < rounds; ++round) {
      std::vector<std::vector<u32>> parts(jobs.size());
      std::vector<std::vector<i64>> tracked(jobs.size());
      std::vector<u64> ns(jobs.size());
      auto run = [&](u64 i) {
        const PartitionedGraph p = pool.bipartition(graphs[i].get(), jobs[i].block, cur_k, own);
        ns[i] = p.n();
        for (u64 u = 0; u < p.n(); ++u) parts[i].push_back(p.block(u));
        if (p.k() == 2) for (BlockID b : {0, 1}) tracked[i].push_back(p.block_weight(b));
      };
      if (own) { // several bipartitions are alive at once
        

        std::vector<std::optional<PartitionedGraph>> res(jobs.size());
        tbb::parallel_for<u64>(0, jobs.size(), [&](u64 i) { res[i].emplace(pool.bipartition(graphs[i].get(), jobs[i].block, cur_k, true)); });
        for (u64 i = 0; i < jobs.size(); ++i) {
          ns[i] = res[i]->n();
          for (u64 u = 0; u < res[i]->n(); ++u) parts[i].push_back(res[i]->block(u));
          for (BlockID b : {0, 1}) tracked[i].push_back(res[i]->block_weight(b));
        }
      } else {
        tbb::parallel_for<u64>(0, jobs.size(), run);
      }
      for (u64 i = 0; i < jobs.size(); ++i) {
        const pbt::G &m = jobs[i].model;
        CHECK_EQ(ns[i], m.n, "n", "worker: number of nodes");
        for (u64 u = 0; u < m.n; ++u) CHECK_MSG(parts[i][u] < 2, "invalid-block", "worker: node " << u << " in block " << parts[i][u]);
        CHECK_MSG(tracked[i] == weights(m, parts[i], 2), "block-weight", "worker: tracked block weights of job " << i);
      }
    }
    pool.free();
  }
}
PBT_TEST(multilevel, 4) { multilevel(g, false); }
PBT_TEST(workers, 2) { multilevel(g, true); }

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
