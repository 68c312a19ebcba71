// K12: gain caches report the true gains after any sequence of initialisations and moves.
#include "shmgen.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/refinement/balancer/greedy_balancer.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"
#include <algorithm>
#include <numeric>
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

namespace {
struct Model {
  const pbt::G *g = nullptr;
  u64 k = 0;
  std::vector<u32> part;
  std::map<u32, i64> conns(u64 u) const {
    std::map<u32, i64> c;
    for (u64 e = g->xadj[u]; e < g->xadj[u + 1]; ++e) c[part[g->adj[e]]] += g->we(e);
    return c;
  }
};

// Permute so that degrees are sorted by power-of-two bucket; the order within a bucket stays arbitrary.
pbt::G bucket_sorted(const pbt::G &a) {
  std::vector<u64> order;
  for (u64 u = 0; u < a.n; ++u) if (a.deg(u) > 0) order.push_back(u);
  std::stable_sort(order.begin(), order.end(), [&](u64 x, u64 y) { return degree_bucket<u64>(a.deg(x)) < degree_bucket<u64>(a.deg(y)); });
  std::vector<u64> pos(a.n, 0);
  for (u64 i = 0; i < order.size(); ++i) pos[order[i]] = i;
  pbt::G b;
  b.family = a.family + "+sorted";
  b.n = order.size();
  b.xadj = {0};
  for (u64 u : order) {
    for (u64 e = a.xadj[u]; e < a.xadj[u + 1]; ++e) {
      b.adj.push_back(pos[a.adj[e]]);
      if (!a.ew.empty()) b.ew.push_back(a.ew[e]);
    }
    b.xadj.push_back(b.adj.size());
    if (!a.vw.empty()) b.vw.push_back(a.vw[u]);
  }
  return b;
}

template <typename GC> concept HasBorder = requires(GC &c) { c.is_border_node(0u, 0u); };

template <bool nonadjacent, bool exact, typename GC> void verify(GC &gc, const Model &m, Rng &r, const char *where) {
  const u64 n = m.g->n;
  const bool all = n <= 150;
  const u64 rounds = all ? n : 100;
  for (u64 i = 0; i < rounds; ++i) {
    const u64 u = all ? i : r.below(n);
    const auto c = m.conns(u);
    auto conn = [&](u64 b) { const auto it = c.find(b); return it == c.end() ? i64(0) : it->second; };
    const u64 from = m.part[u];
    std::vector<u64> targets;
    if (m.k <= 24) for (u64 b = 0; b < m.k; ++b) targets.push_back(b);
    else {
      for (const auto &[b, w] : c) if (targets.size() < 16) targets.push_back(b);
      for (int j = 0; j < 6; ++j) targets.push_back(r.below(m.k));
      targets.push_back(m.k - 1);
      targets.push_back(from);
    }
    for (const u64 b : targets) {
      const i64 got = gc.conn(u, b);
      CHECK_MSG(got == conn(b), "conn", where << ": conn(" << u << "," << b << ") = " << got << ", true " << conn(b) << " (degree " << m.g->deg(u) << ", k " << m.k << ")");
      if (b != from) {
        const i64 gain = gc.gain(u, from, b);
        CHECK_MSG(gain == conn(b) - conn(from), "gain", where << ": gain(" << u << "," << from << "->" << b << ") = " << gain << ", true " << conn(b) - conn(from));
        const u64 b2 = targets[r.below(targets.size())];
        if (b2 != from && b2 != b) {
          const auto p = gc.gain(u, from, std::pair<BlockID, BlockID>(b, b2));
          CHECK_MSG(p.first == conn(b) - conn(from) && p.second == conn(b2) - conn(from), "gain2", where << ": gain(" << u << "," << from << "->" << b << "/" << b2 << ") = " << p.first << "/" << p.second << ", true " << conn(b) - conn(from) << "/" << conn(b2) - conn(from));
        }
      }
    }
    std::map<u64, int> offered;
    const bool skip = r.chance(1, 4); // a consumer need not ask for the value
    gc.gains(u, from, [&](const BlockID to, auto &&value) {
      CHECK_MSG(to < m.k && to != from, "offered-block", where << ": gains(" << u << ") from " << from << " offers block " << to << " of " << m.k);
      ++offered[to];
      if (skip && to % 2 == 0) return;
      const i64 v = value();
      const i64 want = conn(to) - (exact ? conn(from) : 0);
      CHECK_MSG(v == want, "gains", where << ": gains(" << u << ") from " << from << " reports " << v << " for block " << to << ", true " << want);
    });
    for (const auto &[b, times] : offered) CHECK_MSG(times == 1, "offered-once", where << ": gains(" << u << ") offers block " << b << " " << times << " times");
    if (nonadjacent) CHECK_MSG(offered.size() == m.k - 1, "all-blocks", where << ": gains(" << u << ") offers " << offered.size() << " of " << m.k - 1 << " blocks");
    for (const auto &[b, w] : c) CHECK_MSG(b == from || w == 0 || offered.count(b), "adjacent-blocks", where << ": gains(" << u << ") from " << from << " misses adjacent block " << b << " with connectivity " << w);
    if constexpr (HasBorder<GC>) {
      i64 other = 0;
      for (const auto &[b, w] : c) if (b != from) other += w;
      const bool border = gc.is_border_node(u, from);
      CHECK_MSG(border == (other > 0), "border", where << ": node " << u << " border " << border << ", weight to other blocks " << other);
    }
  }
}

template <typename GC> void drive(Gen &g) {
  constexpr bool nonadj = GC::kIteratesNonadjacentBlocks;
  constexpr bool exact = GC::kIteratesExactGains;
  using GraphT = typename GC::Graph;
  const int threads = 1 + g.draw(8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
  Context ctx = create_default_context();
  auto &fm = ctx.refinement.kway_fm;
  if (g.flip()) fm.k_based_high_degree_threshold = g.pick({0.0, 0.3, 0.5, 1.0, 2.0});
  if (g.flip()) fm.constant_high_degree_threshold = g.pick<EdgeID>({0, 1, 2, 3, 8, 40});
  const u64 pre_n = g.weighted({2, 1}) == 0 ? 0 : g.range(0, 300);
  // The on the fly cache sizes its buffers once; the other preallocations are only hints.
  constexpr bool sized = std::is_same_v<GC, NormalOnTheFlyGainCache<GraphT>>;
  GC gc(ctx, pre_n, sized ? 5000 : g.chance(1, 2) ? 0 : g.range(0, 40));
  g.note("thresholds k*" + std::to_string(fm.k_based_high_degree_threshold) + "," + std::to_string(fm.constant_high_degree_threshold) + " preallocated n=" + std::to_string(pre_n));
  const int inits = 1 + g.draw(3);
  bool moved = false;
  for (int round = 0; round < inits; ++round) {
    GraphOptions o;
    o.max_n = 400;
    o.max_m = 3000;
    o.allow_empty = false;
    pbt::G gr = gen_graph(g, o);
    const bool sort = g.chance(1, 2) && gr.m() > 0;
    if (sort) gr = bucket_sorted(gr);
    label_graph(g, gr);
    if (sort) g.label("sorted");
    Model m;
    m.g = &gr;
    m.k = g.weighted({3, 2, 1}) == 0 ? g.range(2, 8) : g.flip() ? g.range(2, 130) : g.pick<u64>({2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000});
    g.note(gr.str() + " k=" + std::to_string(m.k) + (sort ? " sorted" : ""));
    Rng r(g.seed());
    const u64 used = 1 + r.below(m.k);
    for (u64 u = 0; u < gr.n; ++u) m.part.push_back(r.below(r.chance(1, 2) ? used : m.k));
    std::unique_ptr<AbstractGraph> ag;
    CSRGraph csr(to_static<EdgeID>(gr.xadj), to_static<NodeID>(gr.adj), to_static<NodeWeight>(gr.vw), to_static<EdgeWeight>(gr.ew), sort);
    if constexpr (std::is_same_v<GraphT, CompressedGraph>) ag = std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(csr));
    else ag = std::make_unique<CSRGraph>(std::move(csr));
    shm::Graph graph(std::move(ag));
    PartitionedGraph p(graph, m.k, to_static<BlockID>(m.part));
    const GraphT *concrete = nullptr;
    if constexpr (std::is_same_v<GraphT, shm::Graph>) concrete = &graph;
    else concrete = &graph.concretize<GraphT>();
    gc.initialize(*concrete, p);
    verify<nonadj, exact>(gc, m, r, "fresh");
    const int phases = g.draw(5);
    std::vector<u64> targets; // concentrate moves on few blocks to make entries vanish and come back
    for (int i = 0; i < 3; ++i) targets.push_back(r.below(m.k));
    auto target = [&] { return r.chance(1, 2) ? targets[r.below(3)] : r.below(m.k); };
    for (int ph = 0; ph < phases; ++ph) {
      moved = moved || gr.m() > 0;
      switch (g.draw(4)) {
      case 0: { // sequential moves, some repeated on the same node
        g.label("phase:sequential");
        const u64 cnt = 1 + r.below(60), pool = 1 + r.below(gr.n);
        for (u64 i = 0; i < cnt; ++i) {
          const u64 u = r.below(pool), from = m.part[u], to = target();
          if (from == to) continue;
          p.set_block(u, to);
          gc.move(u, from, to);
          m.part[u] = to;
        }
        verify<nonadj, exact>(gc, m, r, "after moves");
        break;
      }
      case 1: { // concurrent moves of distinct nodes
        g.label("phase:concurrent");
        std::vector<u32> nodes(gr.n);
        std::iota(nodes.begin(), nodes.end(), 0);
        r.shuffle(nodes);
        nodes.resize(1 + r.below(gr.n));
        std::vector<u32> to(nodes.size());
        for (auto &t : to) t = target();
        tbb::parallel_for<std::size_t>(0, nodes.size(), [&](std::size_t i) {
          const u32 u = nodes[i], from = m.part[u];
          if (from == to[i]) return;
          p.set_block(u, to[i]);
          gc.move(u, from, to[i]);
        });
        for (std::size_t i = 0; i < nodes.size(); ++i) m.part[nodes[i]] = to[i];
        verify<nonadj, exact>(gc, m, r, "after concurrent moves");
        break;
      }
      default: { // speculative moves on a delta, then drop or apply them
        if constexpr (!std::is_same_v<GraphT, void>) {
          if constexpr (requires { typename GC::DeltaGainCache; }) {
            g.label("phase:delta");
            DeltaPartitionedGraph dg(&p);
            typename GC::DeltaGainCache d(gc, dg);
            Model dm = m;
            const int steps = 1 + g.draw(3);
            for (int s = 0; s < steps; ++s) {
              const u64 cnt = 1 + r.below(40), pool = 1 + r.below(gr.n);
              for (u64 i = 0; i < cnt; ++i) {
                const u64 u = r.below(pool), from = dm.part[u], to = r.chance(1, 4) ? m.part[u] : target();
                if (from == to) continue;
                dg.set_block(u, to);
                d.move(u, from, to);
                dm.part[u] = to;
              }
              verify<nonadj, exact>(d, dm, r, "delta");
              verify<nonadj, exact>(gc, m, r, "below a delta");
              if (g.flip()) {
                if (g.flip()) {
                  for (u64 u = 0; u < gr.n; ++u) if (dm.part[u] != m.part[u]) {
                    const u64 from = m.part[u];
                    m.part[u] = dm.part[u];
                    gc.move(u, from, m.part[u]);
                    p.set_block(u, m.part[u]);
                  }
                }
                dg.clear();
                d.clear();
                dm = m;
                verify<nonadj, exact>(d, dm, r, "cleared delta");
              }
            }
          }
        }
        break;
      }
      }
    }
    if (g.chance(1, 6)) gc.free();
  }
  g.nontrivial(moved);
}
template <typename T> using GenDelta = GenericDeltaGainCache<T>;
template <typename T> using GenLargeDelta = LargeKGenericDeltaGainCache<T>;

// The balancer keeps the gain cache it is given up to date, over several calls, whatever it moves.
void tracked(Gen &g) {
  const int threads = 1 + g.draw(8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  Context ctx = create_default_context();
  GraphOptions o;
  o.max_n = 300;
  o.max_m = 2500;
  o.allow_empty = false;
  const pbt::G gr = gen_graph(g, o);
  label_graph(g, gr);
  const bool compressed = g.chance(1, 3);
  std::unique_ptr<AbstractGraph> ag;
  CSRGraph csr(to_static<EdgeID>(gr.xadj), to_static<NodeID>(gr.adj), to_static<NodeWeight>(gr.vw), to_static<EdgeWeight>(gr.ew), false);
  if (compressed) ag = std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(csr));
  else ag = std::make_unique<CSRGraph>(std::move(csr));
  shm::Graph graph(std::move(ag));
  Model m;
  m.g = &gr;
  m.k = g.range(2, 20);
  g.note(gr.str() + " k=" + std::to_string(m.k));
  Rng r(g.seed());
  const u64 used = 1 + r.below(m.k);
  for (u64 u = 0; u < gr.n; ++u) m.part.push_back(r.below(used));
  PartitionedGraph p(graph, m.k, to_static<BlockID>(m.part));
  using GC = NormalSparseGainCache<shm::Graph>;
  GC gc(ctx, 0, 0);
  gc.initialize(graph, p);
  ctx.partition.setup(graph, m.k, 0.03); // the balancer sizes its maps by the number of blocks
  GreedyBalancer balancer(ctx);
  const int rounds = 1 + g.draw(3);
  bool moved = false;
  for (int round = 0; round < rounds; ++round) {
    balancer.initialize(p);
    balancer.track_moves(&gc);
    const double eps = g.pick({0.0, 0.03, 0.3, 1.0});
    PartitionContext pctx;
    pctx.setup(graph, m.k, eps);
    balancer.refine(p, pctx);
    for (u64 u = 0; u < gr.n; ++u) {
      moved = moved || m.part[u] != p.block(u);
      m.part[u] = p.block(u);
    }
    verify<GC::kIteratesNonadjacentBlocks, GC::kIteratesExactGains>(gc, m, r, "after balancing");
    for (u64 i = r.below(gr.n + 1); i > 0; --i) { // overload some blocks again
      const u64 u = r.below(gr.n), from = m.part[u], to = r.below(1 + m.k / 3);
      if (from == to) continue;
      p.set_block(u, to);
      gc.move(u, from, to);
      m.part[u] = to;
    }
  }
  g.label(moved ? "balancer-moved" : "balancer-idle");
  g.nontrivial(moved && gr.m() > 0);
}
} // namespace

#if PART == 1
PBT_TEST(tracked_by_balancer, 3) { tracked(g); }
PBT_TEST(normal_sparse, 4) { drive<NormalSparseGainCache<CSRGraph>>(g); }
PBT_TEST(normal_sparse_graph, 2) { drive<NormalSparseGainCache<shm::Graph>>(g); }
PBT_TEST(normal_sparse_compressed, 1) { drive<NormalSparseGainCache<CompressedGraph>>(g); }
PBT_TEST(largek_sparse, 3) { drive<LargeKSparseGainCache<CSRGraph>>(g); }
PBT_TEST(exact_sparse, 1) { drive<SparseGainCache<CSRGraph, GenDelta, true, true>>(g); }
PBT_TEST(exact_largek_sparse, 1) { drive<SparseGainCache<CSRGraph, GenLargeDelta, false, true>>(g); }
PBT_TEST(normal_dense, 2) { drive<NormalDenseGainCache<CSRGraph>>(g); }
PBT_TEST(largek_dense, 2) { drive<LargeKDenseGainCache<CSRGraph>>(g); }
PBT_TEST(on_the_fly, 2) { drive<NormalOnTheFlyGainCache<CSRGraph>>(g); }
#else
PBT_TEST(normal_compact, 4) { drive<NormalCompactHashingGainCache<CSRGraph>>(g); }
PBT_TEST(normal_compact_compressed, 2) { drive<NormalCompactHashingGainCache<CompressedGraph>>(g); }
PBT_TEST(largek_compact, 3) { drive<LargeKCompactHashingGainCache<CSRGraph>>(g); }
PBT_TEST(exact_compact, 1) { drive<CompactHashingGainCache<CSRGraph, GenDelta, true, true>>(g); }
PBT_TEST(exact_largek_compact, 1) { drive<CompactHashingGainCache<CSRGraph, GenLargeDelta, false, true>>(g); }
PBT_TEST(normal_hashing, 3) { drive<NormalHashingGainCache<CSRGraph>>(g); }
PBT_TEST(largek_hashing, 2) { drive<LargeKHashingGainCache<CSRGraph>>(g); }
#endif
PBT_MAIN()
