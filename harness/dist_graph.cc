// D02: distributed graphs, ghost nodes, rearrangement, partitions, metrics
#include "distgen.h"

#include "kaminpar-dist/graphutils/rearrangement.h"
#include "kaminpar-dist/metrics.h"
#include "kaminpar-dist/presets.h"

using namespace dist_pbt;

static u64 degree_bucket(u64 d) { // 0 for degree 0, b for degrees in [2^(b-1), 2^b)
  u64 b = 0;
  for (; d; d >>= 1) ++b;
  return b;
}

struct GraphCase : DistCase {
  bool sorted = false;
  int rearrange = 0; // 0 none, 1 by buckets, 2 by colour, 3 any permutation
  std::vector<u64> thresholds;
};
static void gen_graph_case(Gen &g, GraphCase &c) {
  DistOptions o;
  o.graph.max_n = g.chance(1, 8) ? 3000 : 300;
  o.graph.max_m = 10 * o.graph.max_n;
  gen_dist_case(g, c, o);
  c.sorted = g.chance(1, 4);
  if (!c.compressed) c.rearrange = g.weighted({2, 2, 2, 1});
  const int t = g.draw(4);
  for (int i = 0; i < t; ++i) c.thresholds.push_back(g.weighted({1, 1}) ? g.range(1, 20) : g.range(0, c.gr.max_deg() + 1));
  if (c.sorted) { // every process has its nodes in the order of degree buckets
    std::vector<u64> order(c.gr.n), to(c.gr.n);
    for (u64 u = 0; u < c.gr.n; ++u) order[u] = u;
    for (int p = 0; p < c.P; ++p)
      std::stable_sort(order.begin() + c.dist[p], order.begin() + c.dist[p + 1], [&](u64 a, u64 b) { return degree_bucket(c.gr.deg(a)) < degree_bucket(c.gr.deg(b)); });
    for (u64 i = 0; i < c.gr.n; ++i) to[order[i]] = i;
    c.gr = relabel(c.gr, to);
    g.label("sorted by degree buckets");
  }
  static const char *r[] = {"no", "degree buckets", "colouring", "permutation"};
  g.label(std::string("rearranged:") + r[c.rearrange]);
  g.note(std::string(" rearranged:") + r[c.rearrange] + (c.sorted ? " sorted" : "") + " thresholds=" + std::to_string(c.thresholds.size()));
  g.nontrivial(c.P > 1 && c.gr.m() > 0);
}

static void check_buckets(const kd::DistributedGraph &dg, bool sorted) {
  CHECK_EQ(dg.sorted(), sorted, "buckets", "sorted");
  u64 at = 0;
  CHECK_MSG(dg.number_of_buckets() <= 65, "buckets", dg.number_of_buckets() << " buckets");
  for (std::size_t b = 0; b < dg.number_of_buckets(); ++b) {
    CHECK_EQ(dg.first_node_in_bucket(b), at, "buckets", "first node of bucket " << b);
    at += dg.bucket_size(b);
    CHECK_EQ(dg.first_invalid_node_in_bucket(b), at, "buckets", "end of bucket " << b);
    if (sorted)
      for (u64 u = dg.first_node_in_bucket(b); u < at; ++u) CHECK_EQ(degree_bucket(dg.degree(u)), b, "buckets", "bucket of node " << u << " with degree " << dg.degree(u));
  }
  CHECK_EQ(at, (u64)dg.n(), "buckets", "nodes in buckets");
}
static void check_high_degree(const kd::DistributedGraph &dg, const G &g, const std::vector<u64> &thresholds) {
  for (u64 t : thresholds) {
    dg.init_high_degree_info(t);
    for (kd::NodeID u = 0; u < dg.total_n(); ++u)
      CHECK_EQ(dg.is_high_degree_node(u), g.deg(dg.local_to_global_node(u)) > t, "high degree", "node " << u << " threshold " << t << " degree " << g.deg(dg.local_to_global_node(u)));
  }
}
// Loops over nodes and edges visit everything once
static void check_loops(const kd::DistributedGraph &dg, u64 seed) {
  const u64 n = dg.n(), tn = dg.total_n();
  auto once = [&](const char *what, u64 from, u64 to, auto &&loop) {
    std::vector<std::atomic<int>> seen(tn);
    loop([&](const kd::NodeID u) {
      if (u < tn) seen[u].fetch_add(1);
      else throw Failure{"loops", std::string(what) + ": node " + std::to_string(u)};
    });
    for (u64 u = 0; u < tn; ++u) CHECK_EQ(seen[u].load(), (int)(u >= from && u < to), "loops", what << ": node " << u);
  };
  auto ranged = [](auto &f) { return [&](const auto &r) { for (auto u = r.begin(); u != r.end(); ++u) f(u); }; };
  u64 a = n ? mix(seed) % n : 0, b = n ? a + mix(seed + 1) % (n - a + 1) : 0;
  once("nodes", 0, n, [&](auto f) { for (kd::NodeID u : dg.nodes()) f(u); });
  once("nodes of a range", a, b, [&](auto f) { for (kd::NodeID u : dg.nodes(a, b)) f(u); });
  once("ghost nodes", n, tn, [&](auto f) { for (kd::NodeID u : dg.ghost_nodes()) f(u); });
  once("all nodes", 0, tn, [&](auto f) { for (kd::NodeID u : dg.all_nodes()) f(u); });
  once("pfor_nodes", 0, n, [&](auto f) { dg.pfor_nodes(f); });
  once("pfor_nodes of a range", a, b, [&](auto f) { dg.pfor_nodes(a, b, f); });
  once("pfor_ghost_nodes", n, tn, [&](auto f) { dg.pfor_ghost_nodes(f); });
  once("pfor_all_nodes", 0, tn, [&](auto f) { dg.pfor_all_nodes(f); });
  once("pfor_nodes_range", 0, n, [&](auto f) { dg.pfor_nodes_range(ranged(f)); });
  once("pfor_nodes_range of a range", a, b, [&](auto f) { dg.pfor_nodes_range(a, b, ranged(f)); });
  once("pfor_all_nodes_range", 0, tn, [&](auto f) { dg.pfor_all_nodes_range(ranged(f)); });
  u64 m = 0;
  for ([[maybe_unused]] auto e : dg.edges()) ++m;
  CHECK_EQ(m, (u64)dg.m(), "loops", "edges");
  // a limited number of neighbours, and stopping early
  for (u64 i = 0; i < std::min<u64>(n, 60); ++i) {
    const kd::NodeID u = n <= 60 ? i : mix(seed + i) % n;
    const u64 d = dg.degree(u), lim = mix(seed * 3 + i) % (d + 2);
    std::vector<kd::NodeID> all, some, prefix;
    dg.adjacent_nodes(u, [&](const kd::NodeID v) { all.push_back(v); });
    dg.adjacent_nodes(u, lim, [&](const kd::NodeID v, kd::EdgeWeight) { some.push_back(v); });
    CHECK_EQ(some.size(), std::min(lim, d), "loops", "neighbours of " << u << " limited to " << lim);
    std::vector<kd::NodeID> x = all, y = some;
    std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
    CHECK_MSG(std::includes(x.begin(), x.end(), y.begin(), y.end()), "loops", "limited neighbours of " << u << " are no neighbours");
    dg.adjacent_nodes(u, [&](const kd::NodeID v) {
      prefix.push_back(v);
      return prefix.size() == lim;
    });
    CHECK_EQ(prefix.size(), lim == 0 ? d : std::min(lim, d), "loops", "neighbours of " << u << " until stopped after " << lim);
    for (u64 j = 0; j < prefix.size(); ++j) CHECK_EQ(prefix[j], all[j], "loops", "neighbour " << j << " of " << u << " until stopped");
  }
}

DIST_TEST(graph, 5, GraphCase, gen_graph_case) {
  Comm comm(c.comm);
  kaminpar::Random::reseed(c.seed % 1000000);
  {
    kd::DistributedGraph dg = make_dist(c.gr, c.dist, c.compressed, rk.rank, comm.comm, c.sorted);
    check_dist_graph(dg, c.gr, c.dist, rk);
    check_buckets(dg, c.sorted);
    check_loops(dg, c.seed + rk.rank);
    check_high_degree(dg, c.gr, c.thresholds);
    CHECK_MSG(kd::debug::validate_graph(dg), "validate", "validate_graph rejects the graph");
    CHECK_MSG(!dg.permuted(), "permuted", "new graph is permuted");
    CHECK_MSG(!dg.color_sorted(), "permuted", "new graph is sorted by colour");
    int cmp;
    MPI_Comm_compare(dg.communicator(), comm.comm, &cmp);
    CHECK_EQ(cmp, MPI_IDENT, "communicator", "of the graph");
    if (!c.compressed) {
      const auto &csr = dg.csr_graph();
      u64 e = 0;
      for (kd::NodeID u : csr.nodes()) {
        for (kd::EdgeID x : csr.incident_edges(u)) CHECK_EQ((u64)x, e++, "edges", "incident edges of " << u);
        csr.neighbors(u, [&](const kd::EdgeID x, const kd::NodeID v, const kd::EdgeWeight w) {
          CHECK_EQ(csr.raw_edges()[x], v, "edges", "edge " << x);
          CHECK_EQ(csr.edge_weight(x), w, "edges", "weight of edge " << x);
        });
      }
      CHECK_EQ(e, (u64)csr.m(), "edges", "all incident edges");
      std::vector<std::atomic<int>> tgt(dg.total_n());
      csr.pfor_edges([&](const kd::NodeID v) { tgt[v].fetch_add(1); });
      u64 sum = 0;
      for (auto &t : tgt) sum += t.load();
      CHECK_EQ(sum, e, "edges", "pfor_edges");
    }
  }
  if (c.rearrange == 0) return;
  kd::DistributedCSRGraph csr = make_csr(c.gr, c.dist, rk.rank, comm.comm);
  kd::Context ctx = kd::create_default_context();
  ctx.parallel.num_mpis = rk.size;
  ctx.parallel.num_threads = c.threads;
  ctx.rearrange_by = c.rearrange == 1 ? kd::GraphOrdering::DEGREE_BUCKETS : kd::GraphOrdering::COLORING;
  if (c.seed & 1) ctx.refinement.colored_lp.coloring_chunks.fixed_num_chunks = 1 + c.seed % 17;
  if (c.rearrange == 3) {
    StaticArray<kd::NodeID> o2n(csr.n()), n2o(csr.n());
    std::vector<kd::NodeID> p(csr.n());
    for (kd::NodeID u = 0; u < csr.n(); ++u) p[u] = u;
    Rng(c.seed + rk.rank).shuffle(p);
    for (kd::NodeID u = 0; u < csr.n(); ++u) o2n[u] = p[u], n2o[p[u]] = u;
    csr = kd::graph::rearrange_by_permutation(std::move(csr), std::move(o2n), std::move(n2o), false);
  } else {
    csr = kd::graph::rearrange(std::move(csr), ctx);
  }
  const u64 n = c.dist[rk.rank + 1] - c.dist[rk.rank];
  if (n > 0) CHECK_MSG(csr.permuted(), "permuted", "rearranged graph has no permutation");
  std::vector<u64> mine;
  for (u64 u = 0; u < n; ++u) mine.push_back(c.dist[rk.rank] + csr.map_original_node(u));
  std::vector<u64> to;
  for (auto &v : rk.all(mine)) to.insert(to.end(), v.begin(), v.end());
  std::vector<u64> s = to;
  std::sort(s.begin(), s.end());
  for (u64 u = 0; u < c.gr.n; ++u) CHECK_EQ(s[u], u, "permuted", "not a permutation of the nodes of every process");
  const G h = relabel(c.gr, to);
  std::vector<u64> sizes;
  const bool coloured = csr.color_sorted();
  CHECK_EQ(coloured, c.rearrange == 2, "colours", "sorted by colour");
  if (coloured) sizes.assign(csr.get_color_sizes().begin(), csr.get_color_sizes().end());
  kd::DistributedGraph dg(std::make_unique<kd::DistributedCSRGraph>(std::move(csr)));
  check_dist_graph(dg, h, c.dist, rk);
  check_buckets(dg, false);
  check_high_degree(dg, h, c.thresholds);
  CHECK_MSG(kd::debug::validate_graph(dg), "validate", "validate_graph rejects the rearranged graph");
  if (c.rearrange == 1 && n > 0) { // degree buckets are consecutive and no bucket but the one of isolated nodes is out of order
    u64 last = 0;
    for (u64 u = 0; u < n; ++u) {
      const u64 b = degree_bucket(dg.degree(u));
      if (b == 0) continue;
      CHECK_MSG(b >= last, "bucket order", "node " << u << " of degree bucket " << b << " after bucket " << last);
      last = b;
    }
  }
  if (coloured) {
    const auto cs = rk.all(sizes);
    for (auto &x : cs) CHECK_EQ(x.size(), cs[0].size(), "colours", "number of colours differs");
    CHECK_EQ(dg.number_of_colors() + 1, sizes.size(), "colours", "number of colours");
    for (std::size_t i = 0; i + 1 < sizes.size(); ++i) CHECK_EQ((u64)dg.color_size(i), sizes[i + 1] - sizes[i], "colours", "size of colour " << i);
    std::vector<int> col(h.n);
    for (int p = 0; p < rk.size; ++p) {
      CHECK_EQ(cs[p].back(), c.dist[p + 1] - c.dist[p], "colours", "sizes of process " << p);
      int k = 0;
      for (u64 i = 0; i < cs[p].back(); ++i) {
        while (cs[p][k + 1] <= i) ++k;
        col[c.dist[p] + i] = k;
      }
    }
    for (u64 u = 0; u < h.n; ++u)
      for (u64 e = h.xadj[u]; e < h.xadj[u + 1]; ++e) CHECK_MSG(col[u] != col[h.adj[e]], "colours", "adjacent nodes " << u << " and " << h.adj[e] << " have colour " << col[u]);
  }
}

// --- mapping of ghost nodes, concurrently
struct GhostCase : CaseBase {
  u64 n = 0;
  std::vector<u64> dist, calls; // global nodes in the order of the calls
  int rank = 0;
};
PBT_TEST(ghost_nodes, 3) {
  const int P = g.range(1, 40), rank = g.range(0, P - 1), threads = g.range(1, 6);
  const u64 n = g.weighted({3, 1, 1}) ? g.logsize(2, 1ull << 34) : g.range(1, 400);
  std::vector<u64> d = gen_dist(g, n, P);
  const u64 own = d[rank + 1] - d[rank];
  if (n == own || own > 0xf0000000ull) g.reject();
  std::vector<u64> calls;
  const u64 distinct = g.range(0, std::min<u64>(n - own, 600));
  std::set<u64> all;
  Rng rng(g.seed());
  const bool cluster = g.flip();
  for (u64 i = 0; i < distinct; ++i) {
    u64 v = cluster ? (rng.below(10) * 1000003 + rng.below(300)) % (n - own) : rng.below(n - own);
    if (v >= d[rank]) v += own;
    all.insert(v);
    for (u64 r = rng.below(4); r < 4; ++r) calls.push_back(v);
  }
  rng.shuffle(calls);
  g.note("P=" + std::to_string(P) + " rank=" + std::to_string(rank) + " n=" + std::to_string(n) + " own=" + std::to_string(own) + " ghosts=" + std::to_string(all.size()) + " calls=" + std::to_string(calls.size()) + " threads=" + std::to_string(threads));
  g.nontrivial(all.size() > 1);
  auto owner = [&](u64 v) { return std::upper_bound(d.begin() + 1, d.end(), v) - d.begin() - 1; };
  auto nd = node_distribution(d);
  {
    tbb::task_arena arena(threads);
    kd::graph::GhostNodeMapper m(rank, nd);
    std::vector<kd::NodeID> got(calls.size());
    arena.execute([&] { tbb::parallel_for<std::size_t>(0, calls.size(), [&](std::size_t i) { got[i] = m.new_ghost_node(calls[i]); }); });
    CHECK_EQ(m.next_ghost_node(), own + all.size(), "ghosts", "number of ghost nodes");
    auto r = m.finalize();
    CHECK_EQ(r.ghost_to_global.size(), all.size(), "ghosts", "ghost to global");
    CHECK_EQ(r.ghost_owner.size(), all.size(), "ghosts", "owners");
    for (std::size_t i = 0; i < calls.size(); ++i) {
      CHECK_MSG(got[i] >= own && got[i] < own + all.size(), "ghosts", "node " << calls[i] << " became " << got[i]);
      CHECK_EQ(r.ghost_to_global[got[i] - own], calls[i], "ghosts", "ghost " << got[i]);
      CHECK_EQ(r.ghost_owner[got[i] - own], owner(calls[i]), "ghosts", "owner of " << calls[i]);
      auto it = r.global_to_ghost.find(calls[i] + 1);
      CHECK_MSG(it != r.global_to_ghost.end(), "ghosts", "global node " << calls[i] << " not found");
      CHECK_EQ((*it).second, got[i], "ghosts", "global node " << calls[i]);
    }
    for (u64 i = 0; i < 30; ++i) {
      const u64 v = rng.below(n);
      CHECK_EQ(r.global_to_ghost.find(v + 1) != r.global_to_ghost.end(), all.count(v) > 0, "ghosts", "contains " << v);
    }
  }
  if (n < (1ull << 28)) {
    kd::CompactGhostNodeMappingBuilder b(rank, nd);
    std::vector<kd::NodeID> got;
    for (u64 v : calls) got.push_back(b.new_ghost_node(v));
    CHECK_EQ(b.next_ghost_node(), own + all.size(), "compact ghosts", "number of ghost nodes");
    const kd::CompactGhostNodeMapping m = b.finalize();
    CHECK_EQ(m.num_ghost_nodes(), all.size(), "compact ghosts", "number of ghost nodes");
    for (std::size_t i = 0; i < calls.size(); ++i) {
      CHECK_MSG(got[i] >= own && got[i] < own + all.size(), "compact ghosts", "node " << calls[i] << " became " << got[i]);
      CHECK_EQ(m.ghost_to_global(got[i] - own), calls[i], "compact ghosts", "ghost " << got[i]);
      CHECK_EQ(m.ghost_owner(got[i] - own), owner(calls[i]), "compact ghosts", "owner of " << calls[i]);
      CHECK_MSG(m.contains_global_as_ghost(calls[i]), "compact ghosts", "global node " << calls[i] << " not found");
      CHECK_EQ(m.global_to_ghost(calls[i]), got[i], "compact ghosts", "global node " << calls[i]);
    }
    for (u64 i = 0; i < 30; ++i) {
      const u64 v = rng.below(n);
      CHECK_EQ(m.contains_global_as_ghost(v), all.count(v) > 0, "compact ghosts", "contains " << v);
    }
  }
}

// --- partitions and metrics
struct PartCase : DistCase {
  u32 k = 1;
  std::vector<u32> part;
  int ctor = 0;
  double eps = 0.03;
  int moves = 0;
  bool relaxed = false;
};
static void gen_part(Gen &g, PartCase &c) {
  DistOptions o;
  o.graph.max_n = 300;
  o.graph.max_m = 3000;
  gen_dist_case(g, c, o);
  c.k = g.weighted({1, 4}) ? g.range(1, 20) : g.range(1, 300);
  c.part = gen_partition(g, c.gr, c.k);
  c.ctor = g.draw(2);
  c.eps = g.pick(std::vector<double>{0.0, 0.001, 0.03, 0.1, 0.5, 2.0});
  c.moves = g.draw(5) * g.draw(40);
  g.note(" k=" + std::to_string(c.k) + " eps=" + std::to_string(c.eps) + " moves=" + std::to_string(c.moves));
  g.nontrivial(c.P > 1 && c.k > 1 && c.gr.m() > 0);
}
DIST_TEST(partition, 4, PartCase, gen_part) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  const G &gr = c.gr;
  std::vector<u32> part = c.part;
  auto local = [&] {
    StaticArray<kd::BlockID> p(dg.total_n());
    for (kd::NodeID u = 0; u < dg.total_n(); ++u) p[u] = part[dg.local_to_global_node(u)];
    return p;
  };
  auto weights = [&] {
    std::vector<i64> w(c.k, 0);
    for (u64 u = 0; u < gr.n; ++u) w[part[u]] += gr.w(u);
    return w;
  };
  kd::DistributedPartitionedGraph pg;
  if (c.ctor == 0) pg = kd::DistributedPartitionedGraph(&dg, c.k, local());
  else pg = kd::DistributedPartitionedGraph(&dg, c.k, local(), to_static<kd::BlockWeight>(weights()));
  kd::PartitionContext p_ctx(c.k, c.k, c.eps);
  p_ctx.k = c.k;
  p_ctx.epsilon = c.eps;
  p_ctx.graph = std::make_unique<kd::GraphContext>(dg, p_ctx);
  auto check = [&](const char *when) {
    const auto w = weights();
    CHECK_EQ(pg.k(), c.k, "partition", when);
    CHECK_EQ(pg.block_weights().size(), (std::size_t)c.k, "partition", when);
    for (u32 b = 0; b < c.k; ++b) {
      CHECK_EQ((i64)pg.block_weight(b), w[b], "block weights", when << ": weight of block " << b);
      CHECK_EQ((i64)pg.block_weights()[b], w[b], "block weights", when << ": weight of block " << b);
    }
    i64 cut2 = 0;
    for (kd::NodeID u = 0; u < dg.total_n(); ++u) {
      const u64 gu = dg.local_to_global_node(u);
      CHECK_EQ(pg.block(u), part[gu], "blocks", when << ": block of node " << u);
      CHECK_EQ(pg.partition()[u], part[gu], "blocks", when << ": block of node " << u);
      if (u >= dg.n()) continue;
      bool border = false;
      for (u64 e = gr.xadj[gu]; e < gr.xadj[gu + 1]; ++e)
        if (part[gr.adj[e]] != part[gu]) border = true, cut2 += gr.we(e);
      CHECK_EQ(pg.check_border_node(u), border, "border", when << ": node " << gu);
    }
    CHECK_EQ((i64)kd::metrics::local_edge_cut(pg), cut2, "local cut", when);
    CHECK_EQ((i64)kd::metrics::edge_cut(pg), gr.cut(part), "cut", when);
    // balance
    const i64 W = gr.total_w();
    const i64 perfect = (W + c.k - 1) / c.k;
    i64 gmw = 0;
    for (u64 u = 0; u < gr.n; ++u) gmw = std::max(gmw, gr.w(u));
    i64 limit = (i64)((1.0 + c.eps) * (double)perfect);
    if ((i64)gr.n != W) limit = std::max(limit, perfect + gmw);
    double l1 = 0, l2 = 0, imb = 0;
    u32 over = 0;
    for (u32 b = 0; b < c.k; ++b) {
      CHECK_EQ((i64)p_ctx.graph->max_block_weight(b), limit, "limits", "block " << b);
      CHECK_EQ((i64)p_ctx.graph->perfectly_balanced_block_weight(b), perfect, "limits", "perfectly balanced block " << b);
      if (perfect) imb = std::max(imb, 1.0 * w[b] / perfect - 1.0);
      if (w[b] <= limit) continue;
      ++over;
      l1 += w[b] - limit;
      l2 += 1.0 * (w[b] - limit) * (w[b] - limit);
    }
    l2 = std::sqrt(l2);
    auto near = [](double a, double b) { return std::abs(a - b) <= 1e-9 * std::max(1.0, std::abs(b)); };
    CHECK_EQ(kd::metrics::num_imbalanced_blocks(pg, p_ctx), over, "feasibility", when);
    CHECK_EQ(kd::metrics::is_feasible(pg, p_ctx), over == 0, "feasibility", when);
    if (perfect) CHECK_MSG(near(kd::metrics::imbalance(pg), imb), "imbalance", when << ": " << kd::metrics::imbalance(pg) << " instead of " << imb);
    CHECK_MSG(near(kd::metrics::imbalance_l1(pg, p_ctx), l1), "imbalance", when << ": l1 " << kd::metrics::imbalance_l1(pg, p_ctx) << " instead of " << l1);
    CHECK_MSG(near(kd::metrics::imbalance_l2(pg, p_ctx), l2), "imbalance", when << ": l2 " << kd::metrics::imbalance_l2(pg, p_ctx) << " instead of " << l2);
    CHECK_MSG(kd::debug::validate_partition(pg), "validate", when << ": validate_partition rejects the partition");
  };
  check("new");
  if (c.moves == 0 || gr.n == 0) return;
  // Everybody moves own nodes, then tells the others
  Rng all(c.seed);
  std::vector<std::pair<u64, u32>> mv;
  for (int i = 0; i < c.moves; ++i) mv.emplace_back(all.below(gr.n), all.below(c.k));
  std::vector<i64> delta(c.k, 0);
  for (auto [u, b] : mv)
    if (u >= c.dist[rk.rank] && u < c.dist[rk.rank + 1]) {
      const kd::NodeID l = u - c.dist[rk.rank];
      delta[pg.block(l)] -= gr.w(u), delta[b] += gr.w(u);
      pg.set_block<false>(l, b);
    }
  for (auto [u, b] : mv) part[u] = b;
  kd::graph::synchronize_ghost_node_block_ids(pg);
  const auto ds = rk.all(delta);
  for (u32 b = 0; b < c.k; ++b) {
    i64 w = pg.block_weight(b);
    for (auto &d : ds) w += d[b];
    pg.set_block_weight(b, w);
  }
  check("moved");
  // Moves with bookkeeping, known to everybody
  mv.clear();
  for (int i = 0; i < c.moves; ++i) mv.emplace_back(all.below(gr.n), all.below(c.k));
  std::map<u64, u32> last;
  for (auto [u, b] : mv) last[u] = b;
  for (auto [u, b] : mv) {
    if (dg.contains_global_node(u)) pg.set_block(dg.global_to_local_node(u), b);
    part[u] = b;
  }
  pg.reinit_block_weights();
  check("recomputed");
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
