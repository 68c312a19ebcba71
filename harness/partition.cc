// K20: partition metrics, block weight bookkeeping under sequential and concurrent moves, and the delta view.
#include <barrier>
#include <cmath>
#include <thread>
#include "ctxgen.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/metrics.h"
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

struct Form { shm::Graph graph; pbt::G model; std::string name; };
static Form make_form(Gen &g, pbt::G gr) {
  if (g.weighted({3, 1}) == 1) return {shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr)))), gr, "compressed"};
  return {to_graph(gr), gr, "plain"};
}

static u64 gen_k(Gen &g) { return g.weighted({6, 2, 1}) == 0 ? g.range(1, 12) : g.flip() ? g.range(2, 300) : g.pick<u64>({64, 128, 1000, 65535, 65536, 70000}); }

static std::vector<u32> gen_part(Gen &g, u64 n, u64 k, bool invalid) {
  Rng r(g.seed());
  std::vector<u32> p(n);
  const int shape = g.draw(4), inv = invalid ? g.draw(3) : 0;
  for (u64 u = 0; u < n; ++u) {
    p[u] = shape == 0 ? r.below(k) : shape == 1 ? std::min<u64>(k - 1, u * k / std::max<u64>(1, n)) : shape == 2 ? k - 1 : (r.below(8) ? 0 : r.below(k));
    if (inv == 1 && r.chance(1, 3)) p[u] = kInvalidBlockID;
    if (inv == 2) p[u] = kInvalidBlockID;
  }
  return p;
}

struct Model {
  const pbt::G &gr;
  u64 k;
  std::vector<u32> part;
  std::vector<i64> bw;
  void init() {
    bw.assign(k, 0);
    for (u64 u = 0; u < gr.n; ++u) if (part[u] != kInvalidBlockID) bw[part[u]] += gr.w(u);
  }
};

template <typename P> static void check_equal(const P &p, const Model &m, const std::string &what) {
  CHECK_EQ((u64)p.k(), m.k, "k", what << ": k");
  CHECK_EQ((u64)p.n(), m.gr.n, "n", what << ": n");
  for (u64 u = 0; u < m.gr.n; ++u) CHECK_EQ((u32)p.block(u), m.part[u], "block", what << ": block of node " << u);
  for (u64 b = 0; b < m.k; ++b) CHECK_EQ((i64)p.block_weight(b), m.bw[b], "block-weight", what << ": weight of block " << b);
  u64 cnt = 0;
  for (const BlockID b : p.blocks()) { CHECK_EQ((u64)b, cnt, "blocks", what << ": block enumeration"); ++cnt; }
  CHECK_EQ(cnt, m.k, "blocks", what << ": number of blocks enumerated");
}

template <typename P> static void check_metrics(Gen &g, const P &p, const Model &m, const PartitionContext &p_ctx, const std::vector<i64> &limit, const std::string &what) {
  i64 cut = 0, over = 0, maxw = 0;
  for (u64 u = 0; u < m.gr.n; ++u) for (u64 e = m.gr.xadj[u]; e < m.gr.xadj[u + 1]; ++e) if (m.part[u] != m.part[m.gr.adj[e]]) cut += m.gr.we(e);
  cut /= 2;
  bool balanced = true;
  for (u64 b = 0; b < m.k; ++b) {
    over += std::max<i64>(0, m.bw[b] - limit[b]);
    balanced &= m.bw[b] <= limit[b];
    maxw = std::max(maxw, m.bw[b]);
  }
  CHECK_EQ((i64)metrics::edge_cut(p), cut, "cut", what << ": edge cut");
  CHECK_EQ((i64)metrics::edge_cut_seq(p), cut, "cut", what << ": sequential edge cut");
  const i64 perfect = (m.gr.total_w() + (i64)m.k - 1) / (i64)m.k;
  if (perfect > 0) {
    const double want = std::max(0.0, (double)maxw / perfect - 1.0), got = metrics::imbalance(p);
    CHECK_MSG(std::abs(got - want) <= 1e-9 * (1 + want), "imbalance", what << ": imbalance " << got << ", expected " << want << " (heaviest block " << maxw << ", average " << perfect << ")");
  }
  if (over <= std::numeric_limits<NodeWeight>::max()) CHECK_EQ((i64)metrics::total_overload(p, p_ctx), over, "overload", what << ": total overload");
  CHECK_EQ(metrics::is_balanced(p, p_ctx), balanced, "balanced", what << ": is balanced");
  CHECK_EQ(metrics::is_feasible(p, p_ctx), balanced, "balanced", what << ": is feasible");
}

static std::vector<i64> gen_limits(Gen &g, const Model &m, PartitionContext &p_ctx, const shm::Graph &graph) {
  std::vector<i64> limit(m.k);
  Rng r(g.seed());
  const int style = g.draw(4);
  if (style == 0) {
    const double eps = g.pick({0.0, 0.03, 0.5, 2.0});
    p_ctx.setup(graph, m.k, eps);
    const i64 avg = (m.gr.total_w() + (i64)m.k - 1) / (i64)m.k;
    for (auto &x : limit) x = (i64)((1.0 + eps) * avg);
    return limit;
  }
  const bool tight = r.chance(1, 2); // exactly at or one off the weights
  for (u64 b = 0; b < m.k; ++b) limit[b] = tight ? std::max<i64>(0, m.bw[b] + (i64)r.below(style == 1 ? 1 : 3) - (style == 3 && r.chance(1, 20))) : r.below(m.gr.total_w() + 2);
  p_ctx.setup(graph, std::vector<BlockWeight>(limit.begin(), limit.end()));
  return limit;
}

static void set_threads(Gen &g, std::unique_ptr<tbb::global_control> &gc) {
  gc = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, g.flip() ? 1 : g.range(2, 8));
}

// Operation sequences on a partition and on delta views of it
PBT_TEST(moves, 4) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  GraphOptions o;
  o.max_n = 800;
  o.max_m = 5000;
  o.allow_empty = true;
  Form f = make_form(g, gen_graph(g, o));
  label_graph(g, f.model);
  const u64 n = f.model.n;
  Model m{f.model, gen_k(g), {}, {}};
  const bool invalid = g.chance(1, 5);
  m.part = gen_part(g, n, m.k, invalid);
  m.init();
  g.note(f.model.str() + " " + f.name + " k=" + std::to_string(m.k));
  g.nontrivial(n > 1 && m.k > 1);
  PartitionedGraph p = [&] {
    const bool none = std::all_of(m.part.begin(), m.part.end(), [](u32 b) { return b == kInvalidBlockID; });
    switch (g.draw(3)) {
    case 1: return none && g.flip() ? PartitionedGraph(PartitionedGraph::seq{}, f.graph, m.k) : PartitionedGraph(PartitionedGraph::seq{}, f.graph, m.k, to_static<BlockID>(m.part));
    case 2: return PartitionedGraph(f.graph, m.k, to_static<BlockID>(m.part), to_static<BlockWeight>(m.bw));
    default: return none && g.flip() ? PartitionedGraph(f.graph, m.k) : PartitionedGraph(f.graph, m.k, to_static<BlockID>(m.part));
    }
  }();
  check_equal(p, m, "constructed");
  if (n == 0) return;
  Rng r(g.seed());
  const int steps = g.weighted({3, 1}) == 0 ? g.range(0, 12) : g.range(0, 60);
  std::unique_ptr<DeltaPartitionedGraph> d;
  Model dm = m;
  std::vector<u32> touched;
  for (int s = 0; s < steps; ++s) {
    const u64 u = r.below(n), to = r.below(m.k);
    const u64 op = r.below(d ? 9 : 7);
    const std::string what = "step " + std::to_string(s) + " (operation " + std::to_string(op) + " on node " + std::to_string(u) + ")";
    if (op <= 2) { // weight-limited move
      if (m.part[u] == kInvalidBlockID || m.part[u] == to) continue;
      const i64 after = m.bw[to] + f.model.w(u), max = r.chance(1, 2) ? after + (i64)r.below(3) - 1 : (i64)r.below(f.model.total_w() + 1);
      const bool moved = p.move(u, m.part[u], to, max);
      CHECK_EQ(moved, after <= max, "move", what << ": to block " << to << " of weight " << m.bw[to] << " with limit " << max);
      if (moved) { m.bw[m.part[u]] -= f.model.w(u); m.bw[to] += f.model.w(u); m.part[u] = to; }
      d.reset();
    } else if (op == 3) {
      if (r.chance(1, 4)) { p.set_block<false>(u, to); m.part[u] = to; } // block weights are the caller's business
      else {
        p.set_block(u, to);
        if (m.part[u] != kInvalidBlockID) m.bw[m.part[u]] -= f.model.w(u);
        m.bw[to] += f.model.w(u);
        m.part[u] = to;
      }
      d.reset();
    } else if (op == 4) {
      const u64 from = r.below(m.k);
      const i64 delta = r.below(50), after = m.bw[to] + delta, max = after + (i64)r.below(3) - 1;
      if (from == to) continue;
      CHECK_EQ(p.move_block_weight(from, to, delta, max), after <= max, "move-weight", what << ": " << delta << " from block " << from << " to " << to);
      if (after <= max) { m.bw[from] -= delta; m.bw[to] += delta; }
      d.reset();
    } else if (op == 5) { // re-initialisation from the raw partition restores true block weights
      if (r.chance(1, 2)) {
        auto raw = p.take_raw_partition();
        p = r.chance(1, 2) ? PartitionedGraph(f.graph, m.k, std::move(raw)) : PartitionedGraph(PartitionedGraph::seq{}, f.graph, m.k, std::move(raw));
        m.init();
      } else {
        const i64 x = r.below(100);
        switch (r.below(3)) {
        case 0: p.set_block_weight(to, x); m.bw[to] = x; break;
        case 1: p.increase_block_weight(to, x); m.bw[to] += x; break;
        default: p.decrease_block_weight(to, x); m.bw[to] -= x;
        }
      }
      d.reset();
    } else if (op == 6) {
      if (invalid) continue;
      d = std::make_unique<DeltaPartitionedGraph>(&p);
      dm.k = m.k; dm.part = m.part; dm.bw = m.bw;
      touched.clear();
      for (u64 i = r.below(30); i > 0; --i) {
        const u64 v = r.chance(1, 3) && !touched.empty() ? touched[r.below(touched.size())] : r.below(n), t = r.below(m.k);
        if (r.chance(1, 8)) { d->set_block<false>(v, t); dm.part[v] = t; }
        else {
          d->set_block(v, t);
          dm.bw[dm.part[v]] -= f.model.w(v);
          dm.bw[t] += f.model.w(v);
          dm.part[v] = t;
        }
        if (std::find(touched.begin(), touched.end(), v) == touched.end()) touched.push_back(v);
      }
    } else if (op == 7) {
      d->clear();
      dm.part = m.part; dm.bw = m.bw;
      touched.clear();
    } else { // the base may change under a view as long as the changed nodes are not part of it
      if (std::find(touched.begin(), touched.end(), u) != touched.end()) continue;
      p.set_block(u, to);
      const i64 w = f.model.w(u);
      m.bw[m.part[u]] -= w; m.bw[to] += w; dm.bw[m.part[u]] -= w; dm.bw[to] += w;
      m.part[u] = dm.part[u] = to;
    }
    check_equal(p, m, what);
    if (d) {
      check_equal(*d, dm, what + ", delta view");
      CHECK_EQ((u64)d->size(), touched.size(), "delta-size", what << ": pending nodes");
      std::vector<u32> seen;
      d->for_each([&](const NodeID v, const BlockID b) {
        seen.push_back(v);
        CHECK_EQ((u32)b, dm.part[v], "delta-each", what << ": pending block of node " << v);
      });
      std::sort(seen.begin(), seen.end());
      std::vector<u32> want = touched;
      std::sort(want.begin(), want.end());
      CHECK_MSG(seen == want, "delta-each", what << ": nodes with pending moves");
      g.label("delta");
    }
  }
  if (std::find(m.part.begin(), m.part.end(), kInvalidBlockID) == m.part.end()) {
    PartitionContext p_ctx;
    m.init();
    PartitionedGraph q(f.graph, m.k, to_static<BlockID>(m.part));
    auto limit = gen_limits(g, m, p_ctx, f.graph);
    check_metrics(g, q, m, p_ctx, limit, "final");
  }
}

PBT_TEST(metric_values, 3) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  GraphOptions o;
  o.max_n = 5000;
  o.max_m = 30000;
  o.allow_empty = true;
  Form f = make_form(g, gen_graph(g, o));
  label_graph(g, f.model);
  Model m{f.model, gen_k(g), {}, {}};
  m.part = gen_part(g, f.model.n, m.k, false);
  m.init();
  g.note(f.model.str() + " " + f.name + " k=" + std::to_string(m.k));
  g.nontrivial(f.model.m() > 0 && m.k > 1);
  PartitionContext p_ctx;
  auto limit = gen_limits(g, m, p_ctx, f.graph);
  PartitionedGraph p(f.graph, m.k, to_static<BlockID>(m.part));
  check_equal(p, m, "constructed");
  check_metrics(g, p, m, p_ctx, limit, "partition");
}

// Many threads move disjoint sets of nodes between few blocks with little room
PBT_TEST(concurrent, 3) {
  pbt::G gr;
  gr.n = g.range(8, 4000);
  gr.xadj.assign(gr.n + 1, 0);
  gr.family = "edgeless";
  Rng r(g.seed());
  const u64 mw = g.pick<u64>({1, 1, 2, 5, 100});
  if (mw > 1) for (u64 u = 0; u < gr.n; ++u) gr.vw.push_back(1 + r.below(mw));
  shm::Graph graph = to_graph(gr);
  Model m{gr, g.range(2, 5), {}, {}};
  m.part = gen_part(g, gr.n, m.k, false);
  m.init();
  const int threads = g.range(2, 8), per = g.range(50, 3000);
  const bool limited = g.weighted({3, 1}) == 0;
  const i64 slack = g.pick<i64>({0, 1, 3, 20});
  g.note("n=" + std::to_string(gr.n) + " weights<=" + std::to_string(mw) + " k=" + std::to_string(m.k) + " threads=" + std::to_string(threads) + " moves=" + std::to_string(per) + (limited ? " slack=" + std::to_string(slack) : " unlimited"));
  g.label("threads:" + std::to_string(threads));
  std::vector<i64> limit(m.k);
  for (u64 b = 0; b < m.k; ++b) limit[b] = std::max(m.bw[b], (gr.total_w() + (i64)m.k - 1) / (i64)m.k) + slack * (i64)mw;
  PartitionedGraph p(graph, m.k, to_static<BlockID>(m.part));
  std::vector<std::vector<u32>> owned(threads);
  for (u64 u = 0; u < gr.n; ++u) owned[r.below(threads)].push_back(u);
  std::atomic<u64> moved{0};
  std::atomic<i64> seen_over{0};
  std::barrier bar(threads);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t, seed = g.seed()] {
    Rng q(seed + t);
    bar.arrive_and_wait();
    u64 ok = 0;
    if (!owned[t].empty()) for (int i = 0; i < per; ++i) {
      const u32 u = owned[t][q.below(owned[t].size())];
      const u32 from = m.part[u];
      u32 to = q.below(m.k);
      if (from == to) continue;
      if (limited) {
        if (p.move(u, from, to, limit[to])) {
          m.part[u] = to;
          ++ok;
        }
        const i64 over = (i64)p.block_weight(to) - limit[to];
        if (over > 0) seen_over = over;
      } else {
        p.set_block(u, to);
        m.part[u] = to;
        ++ok;
      }
    }
    moved += ok;
  });
  for (auto &t : ts) t.join();
  g.nontrivial(moved > 0);
  m.init();
  check_equal(p, m, "after concurrent moves");
  if (limited) {
    CHECK_EQ((i64)seen_over, 0l, "limit", "a block was seen above its limit by " << seen_over);
    for (u64 b = 0; b < m.k; ++b) CHECK_MSG(m.bw[b] <= limit[b], "limit", "block " << b << " weighs " << m.bw[b] << " > " << limit[b]);
  }
}

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
