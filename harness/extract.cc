// K13: block-induced subgraphs, copying their partitions back, and the recursive splitting of block counts.
#include <functional>
#include <map>
#include "ctxgen.h"
#include "kaminpar-common/math.h"
#include "kaminpar-common/random.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/partitioning/helper.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using namespace kaminpar::shm::partitioning;
using pbt::G;

// The tree of block counts: every level has twice as many entries, the first half (rounded up) to the left
static std::vector<u64> level_of(u64 input_k, u64 current_k) {
  std::vector<u64> l{input_k};
  while (l.size() < current_k) {
    std::vector<u64> next;
    for (u64 x : l) {
      next.push_back((x + 1) / 2);
      if (x / 2 > 0) next.push_back(x / 2);
    }
    l = next;
  }
  return l;
}

static pbt::G read_back(const shm::Graph &gr) {
  pbt::G o;
  o.n = gr.n();
  o.xadj.assign(1, 0);
  for (NodeID u = 0; u < gr.n(); ++u) {
    gr.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { o.adj.push_back(v); o.ew.push_back(w); });
    o.xadj.push_back(o.adj.size());
    o.vw.push_back(gr.reified([&](const auto &c) { return c.node_weight(u); }));
  }
  return o;
}

// sub must be the graph induced by `nodes` (original ids, in the order of the local ids)
static void check_induced(const pbt::G &gr, const std::vector<u32> &nodes, const shm::Graph &sub, const std::string &what) {
  CHECK_EQ((u64)sub.n(), nodes.size(), "n", what << ": number of nodes");
  std::map<u32, u32> local;
  for (u32 i = 0; i < nodes.size(); ++i) local[nodes[i]] = i;
  CHECK_EQ(local.size(), nodes.size(), "mapping", what << ": nodes share a local id");
  const pbt::G s = read_back(sub);
  i64 tw = 0, te = 0;
  u64 m = 0, maxdeg = 0;
  for (u32 i = 0; i < nodes.size(); ++i) {
    const u32 u = nodes[i];
    CHECK_EQ(s.vw[i], gr.w(u), "node-weight", what << ": weight of node " << u << " (local " << i << ")");
    tw += gr.w(u);
    std::multimap<u32, i64> a, b;
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
      auto it = local.find(gr.adj[e]);
      if (it != local.end()) { a.insert({it->second, gr.we(e)}); te += gr.we(e); }
    }
    for (u64 e = s.xadj[i]; e < s.xadj[i + 1]; ++e) b.insert({s.adj[e], s.ew[e]});
    m += a.size();
    maxdeg = std::max<u64>(maxdeg, a.size());
    CHECK_MSG(a == b, "edges", what << ": edges of node " << u << " (local " << i << ", " << a.size() << " expected, " << b.size() << " found)");
    CHECK_EQ((u64)sub.reified([&](const auto &c) { return c.degree(i); }), a.size(), "degree", what << ": degree of node " << u);
  }
  CHECK_EQ((u64)sub.m(), m, "m", what << ": number of edges");
  CHECK_EQ((i64)sub.total_node_weight(), tw, "total", what << ": total node weight");
  CHECK_EQ((i64)sub.total_edge_weight(), te, "total", what << ": total edge weight");
}

struct Form { shm::Graph graph; pbt::G model; std::string name; };
static Form make_form(Gen &g, pbt::G gr) {
  const bool vw = !gr.vw.empty(), ew = !gr.ew.empty();
  switch (g.weighted({4, 2, 2})) {
  case 1: {
    CSRGraph csr = to_csr(gr);
    shm::Graph s = graph::rearrange_by_degree_buckets(csr);
    pbt::G m = read_back(s);
    if (!vw) m.vw.clear();
    if (!ew) m.ew.clear();
    return {std::move(s), std::move(m), "sorted"};
  }
  case 2: return {shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr)))), gr, "compressed"};
  default: return {to_graph(gr), gr, "plain"};
  }
}

static std::vector<u32> gen_part(Gen &g, const pbt::G &gr, u64 k) {
  Rng r(g.seed());
  std::vector<u32> part(gr.n);
  const int shape = g.draw(5);
  const u64 used = 1 + r.below(k);
  for (u64 u = 0; u < gr.n; ++u) switch (shape) {
    case 0: part[u] = r.below(k); break;
    case 1: part[u] = std::min<u64>(k - 1, u * k / std::max<u64>(1, gr.n)); break;
    case 2: part[u] = (r.below(used) * 7 + used) % k; break; // empty blocks
    case 3: part[u] = k - 1; break;
    default: part[u] = r.below(10) ? 0 : r.below(k);
  }
  return part;
}

static u64 gen_k(Gen &g) { return g.weighted({4, 3, 1}) == 0 ? g.range(2, 20) : g.flip() ? g.range(2, 70) : g.pick<u64>({64, 128, 129, 200, 255, 256, 257}); }

// A level of the splitting tree, i.e. a power of two below k
static u64 gen_level(Gen &g, u64 k) {
  std::vector<u64> ls;
  for (u64 l = 1; l < k; l *= 2) ls.push_back(l);
  return ls[g.draw(ls.size())];
}

PBT_TEST(splits, 2) {
  const u64 k = g.weighted({3, 2, 1}) == 0 ? g.range(2, 300) : g.logsize(2, 100000);
  g.note("k=" + std::to_string(k));
  g.nontrivial(k > 2);
  for (u64 l = 1; l < k; l *= 2) {
    const auto want = level_of(k, l);
    u64 first = 0;
    for (u64 b = 0; b < l; ++b) {
      const std::string what = "block " + std::to_string(b) + " of " + std::to_string(l) + " (final " + std::to_string(k) + ")";
      CHECK_EQ((u64)compute_final_k(b, l, k), want[b], "final-k", what << ": final number of blocks");
      CHECK_EQ((u64)compute_first_sub_block(b, l, k), first, "first", what << ": first sub-block");
      first += want[b];
      CHECK_EQ((u64)compute_first_invalid_sub_block(b, l, k), first, "end", what << ": end of the sub-blocks");
      const auto [lo, hi] = math::split_integral<BlockID>(want[b]);
      CHECK_MSG(lo + hi == want[b] && lo - hi <= 1, "split", what << ": split into " << lo << " and " << hi);
    }
    CHECK_EQ(first, k, "sum", "level " << l << ": the final blocks do not add up");
    Context ctx = create_default_context();
    ctx.partition.k = k;
    CHECK_EQ((u64)compute_next_k(l, ctx), std::min(2 * l, k), "next", "level after " << l);
  }
  for (u64 b = 0; b < k; ++b) CHECK_EQ((u64)compute_final_k(b, k, k), 1ul, "leaf", "block " << b << " of " << k);
}

static void drive(Gen &g, int kind) {
  const int threads = g.weighted({2, 3}) == 0 ? 1 : g.range(2, 8);
  tbb::global_control gcl(tbb::global_control::max_allowed_parallelism, threads);
  GraphOptions o;
  o.max_n = kind == 2 ? 400 : 1500;
  o.max_m = 6000;
  o.allow_empty = true;
  const int rounds = 1 + g.draw(3);
  // One memory is sized for all levels and reused
  struct Case { Form f; u64 k, cur; };
  std::vector<Case> cases;
  u64 mn = 0, mm = 0, mk = 0;
  bool any_vw = false, any_ew = false;
  for (int i = 0; i < rounds; ++i) {
    Case c{make_form(g, gen_graph(g, o)), gen_k(g), 0};
    c.cur = gen_level(g, c.k);
    label_graph(g, c.f.model);
    g.label(c.f.name);
    mn = std::max(mn, c.f.model.n);
    mm = std::max<u64>(mm, c.f.model.adj.size());
    mk = std::max(mk, c.k);
    any_vw |= !c.f.model.vw.empty();
    any_ew |= !c.f.model.ew.empty();
    cases.push_back(std::move(c));
  }
  graph::SubgraphMemory shared;
  if (g.flip()) { any_vw = true; any_ew = true; }
  shared.resize(mn, mk, mm, any_vw, any_ew);
  graph::TemporarySubgraphMemory tmp;
  SubgraphMemoryEts lazy_ets;
  TemporarySubgraphMemoryEts tmp_ets;

  for (auto &c : cases) {
    const pbt::G &gr = c.f.model;
    const u64 k = c.k, cur = c.cur;
    g.note(gr.str() + " " + c.f.name + " k=" + std::to_string(cur) + "->" + std::to_string(k));
    const auto part = gen_part(g, gr, cur);
    const auto finals = level_of(k, cur);
    if (gr.m() > 0 && cur > 1) g.nontrivial(true);
    PartitionedGraph p_graph(c.f.graph, cur, to_static<BlockID>(part));
    Rng r(g.seed());

    if (kind == 2) { // the real thing: extending a partition by recursive bipartitioning
      Context ctx = create_context_by_preset_name(g.pick<std::string>({"default", "fast", "largek", "terapart"}));
      ctx.parallel.num_threads = threads;
      ctx.partition.setup(c.f.graph, k, 0.03);
      ctx.partitioning.min_consecutive_seq_bipartitioning_levels = g.draw(3);
      if (gr.n == 0 || k > 70) g.reject();
      Random::reseed(r.below(1000));
      InitialBipartitionerWorkerPool pool(ctx);
      std::vector<u64> targets;
      for (u64 l = cur * 2; l < k; l *= 2) targets.push_back(l);
      targets.push_back(k);
      u64 from = cur;
      std::vector<u32> prev = part;
      for (int step = 0; step < 2 && from < k; ++step) {
        u64 to = targets[g.draw(targets.size())];
        if (to <= from) to = k;
        const bool lazy = g.flip();
        const std::string what = std::string(lazy ? "lazy " : "") + "extension " + std::to_string(from) + "->" + std::to_string(to) + " of " + std::to_string(k);
        const int active = g.range(1, threads);
        if (lazy) extend_partition_lazy_extraction(p_graph, to, ctx, lazy_ets, tmp_ets, pool, active);
        else if (g.flip()) extend_partition(p_graph, to, ctx, shared, tmp_ets, pool, active);
        else extend_partition(p_graph, to, ctx, tmp_ets, pool, active);
        CHECK_EQ((u64)p_graph.k(), to, "k", what << ": number of blocks");
        std::vector<u64> range_end;
        const auto fine = level_of(k, to);
        const auto coarse = level_of(k, from);
        std::vector<u64> off(from + 1, 0);
        for (u64 b = 0; b < from; ++b) off[b + 1] = off[b] + (to == k ? coarse[b] : to / from);
        CHECK_EQ(off[from], to, "model", "tree");
        std::vector<i64> bw(to, 0);
        for (u64 u = 0; u < gr.n; ++u) {
          const u64 b = p_graph.block(u);
          CHECK_MSG(b >= off[prev[u]] && b < off[prev[u] + 1], "range", what << ": node " << u << " of block " << prev[u] << " moved to block " << b << ", expected [" << off[prev[u]] << ", " << off[prev[u] + 1] << ")");
          bw[b] += gr.w(u);
          prev[u] = b;
        }
        for (u64 b = 0; b < to; ++b) CHECK_EQ((i64)p_graph.block_weight(b), bw[b], "block-weight", what << ": weight of block " << b);
        from = to;
      }
      continue;
    }

    // Block-induced subgraphs, all at once or one by one
    std::vector<StaticArray<BlockID>> subparts;
    ScalableVector<StaticArray<BlockID>> sub_partitions;
    StaticArray<NodeID> mapping;
    const u64 k_prime = [&] { // extend to a finer level or to the final number of blocks
      std::vector<u64> ls;
      for (u64 l = cur * 2; l < k; l *= 2) ls.push_back(l);
      ls.push_back(k);
      return ls[g.draw(ls.size())];
    }();
    std::vector<std::vector<u32>> members(cur);
    auto locate = [&](const StaticArray<NodeID> &map) {
      std::vector<u64> cnt(cur, 0);
      for (u64 u = 0; u < gr.n; ++u) ++cnt[part[u]];
      for (u64 b = 0; b < cur; ++b) members[b].assign(cnt[b], 0xffffffffu);
      for (u64 u = 0; u < gr.n; ++u) {
        CHECK_MSG(map[u] < cnt[part[u]], "mapping", "node " << u << " has local id " << map[u] << " in a block of " << cnt[part[u]] << " nodes");
        CHECK_MSG(members[part[u]][map[u]] == 0xffffffffu, "mapping", "nodes " << members[part[u]][map[u]] << " and " << u << " share a local id");
        members[part[u]][map[u]] = u;
      }
    };

    if (kind == 0) {
      graph::SubgraphMemory own;
      const bool use_shared = g.flip();
      if (!use_shared) own.resize(gr.n, k, gr.adj.size(), !gr.vw.empty(), !gr.ew.empty());
      graph::SubgraphMemory &mem = use_shared ? shared : own;
      auto res = graph::extract_subgraphs(p_graph, k, mem);
      locate(res.node_mapping);
      CHECK_EQ((u64)res.subgraphs.size(), cur, "count", "number of subgraphs");
      for (u64 b = 0; b < cur; ++b) check_induced(gr, members[b], res.subgraphs[b], "block " + std::to_string(b));
      // Recursive sequential extraction within the space of each block, as the recursive bipartitioning does
      std::function<void(const shm::Graph &, const std::vector<u32> &, u64, graph::SubgraphMemoryStartPosition)> rec =
          [&](const shm::Graph &sg, const std::vector<u32> &nodes, u64 fk, graph::SubgraphMemoryStartPosition pos) {
            if (fk <= 2) return;
            std::vector<u32> bip(nodes.size());
            const int style = r.below(4);
            for (auto &b : bip) b = style == 0 ? 0 : style == 1 ? 1 : r.below(2);
            PartitionedGraph bi(PartitionedGraph::seq{}, sg, 2, to_static<BlockID>(bip));
            const std::array<BlockID, 2> ks = {(BlockID)((fk + 1) / 2), (BlockID)(fk / 2)};
            std::array<std::vector<u32>, 2> sub;
            for (u32 i = 0; i < nodes.size(); ++i) sub[bip[i]].push_back(nodes[i]);
            auto [graphs, positions] = graph::extract_subgraphs_sequential(bi, ks, pos, mem, tmp);
            for (int s = 0; s < 2; ++s) {
              for (int t = s; t < 2; ++t) check_induced(gr, sub[t], graphs[t], "nested subgraph " + std::to_string(t) + " with " + std::to_string(ks[t]) + " of " + std::to_string(fk) + " blocks, after " + std::to_string(s) + " recursions");
              rec(graphs[s], sub[s], ks[s], positions[s]);
            }
          };
      std::vector<u64> order(cur);
      for (u64 b = 0; b < cur; ++b) order[b] = b;
      r.shuffle(order);
      for (u64 i = 0; i < cur; ++i) {
        rec(res.subgraphs[order[i]], members[order[i]], finals[order[i]], res.positions[order[i]]);
        if (i + 1 < cur) check_induced(gr, members[order[i + 1]], res.subgraphs[order[i + 1]], "block " + std::to_string(order[i + 1]) + " after extracting from another block");
      }
      mapping = std::move(res.node_mapping);
    } else {
      auto pre = graph::lazy_extract_subgraphs_preprocessing(p_graph);
      locate(pre.mapping);
      u64 off = 0;
      for (u64 b = 0; b < cur; ++b) {
        CHECK_EQ((u64)pre.block_nodes_offset[b], off, "offset", "first node of block " << b);
        off += members[b].size();
        for (u64 i = 0; i < members[b].size(); ++i)
          CHECK_EQ(pre.block_nodes[pre.block_nodes_offset[b] + i], members[b][i], "block-nodes", "node " << i << " of block " << b);
        u64 m = 0;
        for (u32 u : members[b]) for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) m += part[gr.adj[e]] == b;
        CHECK_EQ((u64)pre.block_num_edges[b], m, "block-edges", "edges inside block " << b);
        const StaticArray<NodeID> nodes(members[b].size(), pre.block_nodes.data() + pre.block_nodes_offset[b]);
        graph::SubgraphMemory own;
        const bool use_shared = g.flip();
        if (!use_shared) own.resize(members[b].size(), finals[b], m, !gr.vw.empty(), !gr.ew.empty());
        auto sub = graph::extract_subgraph(p_graph, b, nodes, pre.mapping, use_shared ? shared : own);
        check_induced(gr, members[b], sub, "lazily extracted block " + std::to_string(b));
      }
      mapping = std::move(pre.mapping);
    }

    // Partitions of the subgraphs, copied back
    std::vector<u64> count(cur), first(cur + 1, 0);
    for (u64 b = 0; b < cur; ++b) {
      count[b] = k_prime == k ? finals[b] : k_prime / cur;
      first[b + 1] = first[b] + count[b];
      sub_partitions.emplace_back(members[b].size());
      for (auto &x : sub_partitions.back()) x = r.below(count[b]);
    }
    std::vector<u32> want(gr.n);
    for (u64 b = 0; b < cur; ++b) for (u64 i = 0; i < members[b].size(); ++i) want[members[b][i]] = first[b] + sub_partitions[b][i];
    PartitionedGraph out = graph::copy_subgraph_partitions(std::move(p_graph), sub_partitions, k_prime, k, mapping);
    CHECK_EQ((u64)out.k(), k_prime, "k", "blocks after copying");
    std::vector<i64> bw(k_prime, 0);
    for (u64 u = 0; u < gr.n; ++u) {
      CHECK_EQ((u32)out.block(u), want[u], "copy", "node " << u << " of block " << part[u] << " (" << cur << " -> " << k_prime << " of " << k << ")");
      bw[want[u]] += gr.w(u);
    }
    for (u64 b = 0; b < k_prime; ++b) CHECK_EQ((i64)out.block_weight(b), bw[b], "block-weight", "weight of block " << b);
  }
}

PBT_TEST(extract, 4) { drive(g, 0); }
PBT_TEST(extract_lazy, 3) { drive(g, 1); }
PBT_TEST(extend, 2) { drive(g, 2); }

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
