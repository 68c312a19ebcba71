// D06: distributed refinement and balancing
#include "distctx.h"

#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/factories.h"
#include "kaminpar-dist/metrics.h"
#include "kaminpar-dist/refinement/snapshooter.h"

using namespace dist_pbt;
using R = kd::RefinementAlgorithm;

struct RefineCase : DistCase {
  DistConf conf;
  u32 k = 2;
  double eps = 0.03;
  std::vector<u32> part;
  std::vector<i64> limits; // empty: those of the context
  std::vector<R> algos;    // applied one after another
  bool toplevel = true;
  int reseed = 0;
};
static const char *name_of(R a) {
  switch (a) {
  case R::NOOP: return "noop";
  case R::BATCHED_LP_REFINER: return "lp";
  case R::COLORED_LP_REFINER: return "clp";
  case R::JET_REFINER: return "jet";
  case R::HYBRID_NODE_BALANCER: return "node-balancer";
  default: return "?";
  }
}
static void gen_refine(Gen &g, RefineCase &c) {
  DistOptions o;
  o.graph.max_n = g.chance(1, 12) ? 2000 : 250;
  o.graph.max_m = 6 * o.graph.max_n;
  if (g.chance(1, 3)) o.graph.weights = false;
  o.max_p = 7;
  gen_dist_case(g, c, o);
  if (c.gr.m() > 0 && g.chance(1, 6)) { // cuts that need more than 32 bits, although the edges of every node do not
    i64 most = 1;
    for (u64 u = 0; u < c.gr.n; ++u) {
      i64 d = 0;
      for (u64 e = c.gr.xadj[u]; e < c.gr.xadj[u + 1]; ++e) d += c.gr.we(e);
      most = std::max(most, d);
    }
    if (c.gr.ew.empty()) c.gr.ew.assign(c.gr.adj.size(), 1);
    for (auto &w : c.gr.ew) w *= (1ll << 30) / most;
    g.label("large edge weights");
    g.note(" large edge weights");
  }
  c.k = g.weighted({5, 2, 1}) == 0 ? g.range(1, 8) : g.weighted({2, 1}) == 0 ? g.range(1, 40) : g.range(41, 200);
  c.eps = g.pick(std::vector<double>{0.03, 0.0, 0.1, 0.5, 2.0});
  c.part = gen_partition(g, c.gr, c.k);
  if (g.chance(1, 3)) { // other limits that fit the graph
    const i64 W = c.gr.total_w();
    Rng r(g.seed());
    c.limits.assign(c.k, 0);
    std::vector<i64> w(c.k, 0);
    for (u64 u = 0; u < c.gr.n; ++u) w[c.part[u]] += c.gr.w(u);
    const int how = g.draw(3);
    for (u32 b = 0; b < c.k; ++b) c.limits[b] = how == 0 ? w[b] + (i64)r.below(W / c.k + 2) : how == 1 ? (i64)r.below(2 * W / c.k + 2) + 1 : std::max<i64>(1, w[b] + (i64)r.below(5) - 2);
    i64 sum = 0;
    for (i64 x : c.limits) sum += x;
    while (sum < W + (i64)c.k) ++c.limits[r.below(c.k)], ++sum;
    g.label("own limits");
  }
  c.conf = gen_dist_conf(g, c.P, false);
  for (int i = g.weighted({3, 3, 2}); i > 0; --i) gen_refinement_override(g, c.conf.ctx.refinement, c.conf.name);
  fit_to(c.conf.ctx.refinement, c.P);
  const int len = g.range(1, 3);
  std::string s;
  for (int i = 0; i < len; ++i) {
    R a = gen_refiner(g);
    c.algos.push_back(a);
    s += std::string(" ") + name_of(a);
    g.label(std::string("refiner:") + name_of(a));
  }
  c.toplevel = g.chance(1, 2);
  c.reseed = g.draw(1000000);
  g.note(" k=" + std::to_string(c.k) + " eps=" + std::to_string(c.eps) + (c.limits.empty() ? "" : " limits") + (c.toplevel ? " top " : " coarse ") + c.conf.name + s);
  g.nontrivial(c.P > 1 && c.gr.m() > 0 && c.k > 1);
}

static void fill_ctx(kd::Context &ctx, const kd::DistributedGraph &dg, u32 k, double eps, int P, int threads) {
  ctx.parallel.num_mpis = P;
  ctx.parallel.num_threads = threads;
  ctx.partition.k = k;
  ctx.partition.epsilon = eps;
  ctx.partition.graph = std::make_unique<kd::GraphContext>(dg, ctx.partition);
}
struct PState {
  std::vector<u32> part;
  std::vector<i64> w;
  i64 cut = 0;
};
// Gathers the partition and checks what every process knows
static PState collect(const kd::DistributedPartitionedGraph &pg, const RefineCase &c, const Rank &rk, const std::string &when) {
  const G &gr = c.gr;
  PState s;
  std::vector<u32> own;
  for (kd::NodeID u = 0; u < pg.n(); ++u) {
    CHECK_MSG(pg.block(u) < c.k, "block", when << ": node " << pg.local_to_global_node(u) << " is in block " << pg.block(u) << " of " << c.k);
    own.push_back(pg.block(u));
  }
  for (auto &v : rk.all(own)) s.part.insert(s.part.end(), v.begin(), v.end());
  for (kd::NodeID u = pg.n(); u < pg.total_n(); ++u) {
    const u64 gu = pg.local_to_global_node(u);
    CHECK_EQ(pg.block(u), s.part[gu], "ghost", when << ": block of ghost node " << gu);
  }
  s.w.assign(c.k, 0);
  for (u64 u = 0; u < gr.n; ++u) s.w[s.part[u]] += gr.w(u);
  for (u32 b = 0; b < c.k; ++b) CHECK_EQ((i64)pg.block_weight(b), s.w[b], "block weights", when << ": weight of block " << b);
  s.cut = gr.cut(s.part);
  return s;
}

DIST_TEST(refine, 6, RefineCase, gen_refine) {
  Comm comm(c.comm);
  kaminpar::Random::reseed(c.reseed);
  const G &gr = c.gr;
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  StaticArray<kd::BlockID> p(dg.total_n());
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) p[u] = c.part[dg.local_to_global_node(u)];
  kd::DistributedPartitionedGraph pg(&dg, c.k, std::move(p));
  kd::Context ctx = c.conf.ctx;
  fill_ctx(ctx, dg, c.k, c.eps, c.P, c.threads);
  if (!c.limits.empty()) ctx.partition.graph->max_block_weights.assign(c.limits.begin(), c.limits.end());
  if (!c.toplevel) ctx.partition.graph->global_n += 1;
  std::vector<i64> limit;
  for (u32 b = 0; b < c.k; ++b) limit.push_back(ctx.partition.graph->max_block_weight(b));
  auto overload = [&](const PState &s) {
    i64 l1 = 0;
    for (u32 b = 0; b < c.k; ++b) l1 += std::max<i64>(0, s.w[b] - limit[b]);
    return l1;
  };
  const bool unit = gr.total_w() == (i64)gr.n;
  PState before = collect(pg, c, rk, "before");
  std::map<R, std::unique_ptr<kd::GlobalRefinerFactory>> factories;
  std::map<R, std::unique_ptr<kd::GlobalRefiner>> refiners;
  for (R a : c.algos)
    if (!factories.count(a)) {
      factories[a] = kd::factory::create_refiner(ctx, a);
      refiners[a] = factories[a]->create(pg, ctx.partition);
    }
  for (std::size_t i = 0; i < c.algos.size(); ++i) {
    const R a = c.algos[i];
    const std::string when = std::string("after ") + name_of(a) + " (step " + std::to_string(i) + ")";
    refiners[a]->initialize();
    refiners[a]->refine();
    const PState now = collect(pg, c, rk, when);
    const i64 over0 = overload(before), over = overload(now);
    const bool lp_any = a == R::BATCHED_LP_REFINER && ctx.refinement.lp.ignore_probabilities;
    const bool clp_any = a == R::COLORED_LP_REFINER && ctx.refinement.colored_lp.move_execution_strategy == kd::LabelPropagationMoveExecutionStrategy::LOCAL_MOVES;
    if (over0 == 0 && !lp_any && !clp_any) CHECK_MSG(over == 0, "feasible", when << ": a feasible partition became overloaded by " << over);
    if (a == R::COLORED_LP_REFINER) CHECK_MSG(now.cut <= before.cut, "worse", when << ": the cut grew from " << before.cut << " to " << now.cut);
    if (a == R::JET_REFINER) {
      if (over0 == 0) CHECK_MSG(now.cut <= before.cut, "worse", when << ": the cut of a feasible partition grew from " << before.cut << " to " << now.cut);
      CHECK_MSG(over <= over0, "worse", when << ": the overload grew from " << over0 << " to " << over);
    }
    if (a == R::HYBRID_NODE_BALANCER) {
      if (over0 == 0) CHECK_MSG(now.part == before.part, "needless", when << ": a feasible partition was changed");
    }
    if (a == R::HYBRID_NODE_BALANCER && unit) CHECK_MSG(over == 0, "balance", when << ": unit weights, but still overloaded by " << over << " (was " << over0 << ")");
    if (a == R::NOOP) CHECK_MSG(now.part == before.part, "needless", when << ": changed");
    before = now;
  }
}

// snapshots of the best partition
DIST_TEST(snapshot, 1, RefineCase, gen_refine) {
  Comm comm(c.comm);
  const G &gr = c.gr;
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  auto local = [&](const std::vector<u32> &part) {
    StaticArray<kd::BlockID> p(dg.total_n());
    for (kd::NodeID u = 0; u < dg.total_n(); ++u) p[u] = part[dg.local_to_global_node(u)];
    return p;
  };
  kd::Context ctx = c.conf.ctx;
  fill_ctx(ctx, dg, c.k, c.eps, c.P, c.threads);
  if (!c.limits.empty()) ctx.partition.graph->max_block_weights.assign(c.limits.begin(), c.limits.end());
  auto l1 = [&](const std::vector<u32> &part) {
    std::vector<i64> w(c.k, 0);
    for (u64 u = 0; u < gr.n; ++u) w[part[u]] += gr.w(u);
    i64 l = 0;
    for (u32 b = 0; b < c.k; ++b) l += std::max<i64>(0, w[b] - (i64)ctx.partition.graph->max_block_weight(b));
    return l;
  };
  kd::BestPartitionSnapshooter best(dg.total_n(), c.k);
  std::vector<u32> ref = c.part, cur = c.part;
  Rng r(c.seed);
  {
    kd::DistributedPartitionedGraph pg(&dg, c.k, local(cur));
    best.init(pg, ctx.partition);
  }
  const int rounds = 1 + r.below(6);
  for (int i = 0; i < rounds; ++i) {
    for (u64 j = r.below(gr.n + 1); j > 0; --j) cur[r.below(gr.n)] = r.below(c.k);
    kd::DistributedPartitionedGraph pg(&dg, c.k, local(cur));
    best.update(pg, ctx.partition);
    const i64 a = l1(ref), b = l1(cur);
    if ((a > 0 && b < a) || (b == 0 && gr.cut(cur) <= gr.cut(ref))) ref = cur;
    if (r.chance(1, 2)) {
      best.rollback(pg);
      RefineCase d;
      const PState s = collect(pg, c, rk, "rolled back");
      CHECK_MSG(s.part == ref, "snapshot", "round " << i << ": rolled back to another partition: overload " << l1(s.part) << " instead of " << l1(ref) << ", cut " << s.cut << " instead of " << gr.cut(ref));
      cur = ref;
    }
  }
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
