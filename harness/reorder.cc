// K14: node and edge reordering, removal and re-integration of isolated nodes.
#include <map>
#include "ctxgen.h"
#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-common/random.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

// Graphs with generated numbers of isolated nodes, sometimes with hubs
static pbt::G iso_graph(Gen &g, u64 max_n, bool unit_ok = true) {
  GraphOptions o;
  o.max_n = max_n;
  o.max_m = 4 * max_n;
  o.allow_empty = true;
  pbt::G gr = gen_graph(g, o);
  const u64 extra = g.weighted({1, 2, 1}) == 0 ? 0 : g.flip() ? g.draw(6) : g.draw(300);
  Rng r(g.seed());
  if (extra > 0) { // spread over the ids
    const u64 n = gr.n + extra;
    std::vector<u64> pos(n);
    for (u64 i = 0; i < n; ++i) pos[i] = i;
    if (g.flip()) r.shuffle(pos);
    std::vector<u32> inv(n, 0xffffffffu);
    for (u64 u = 0; u < gr.n; ++u) inv[pos[u]] = u;
    pbt::G o2;
    o2.family = gr.family + "+iso";
    o2.n = n;
    o2.xadj.assign(1, 0);
    for (u64 i = 0; i < n; ++i) {
      const u32 u = inv[i];
      if (u != 0xffffffffu) for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
        o2.adj.push_back(pos[gr.adj[e]]);
        if (!gr.ew.empty()) o2.ew.push_back(gr.ew[e]);
      }
      o2.xadj.push_back(o2.adj.size());
      if (!gr.vw.empty()) o2.vw.push_back(u != 0xffffffffu ? gr.w(u) : 1 + r.below(std::min<i64>(gr.max_w(), 1000)));
    }
    gr = o2;
  }
  (void)unit_ok;
  label_graph(g, gr);
  if (gr.isolated()) g.label("isolated");
  return gr;
}

using Edges = std::multimap<u32, i64>;
static Edges edges_of(const pbt::G &gr, u32 u) {
  Edges x;
  for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) x.insert({gr.adj[e], gr.we(e)});
  return x;
}

static void set_threads(Gen &g, std::unique_ptr<tbb::global_control> &gc) {
  const int threads = g.weighted({2, 3}) == 0 ? 1 : g.range(2, 8);
  gc = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
}

static u64 class_of(u64 deg) { return deg == 0 ? 0xff : 64 - __builtin_clzll(deg); } // isolated nodes last

// `now` is the graph after renumbering nodes by old_to_new
static void check_renumbered(const pbt::G &gr, const CSRGraph &now, const std::vector<u32> &old_to_new) {
  CHECK_EQ((u64)now.n(), gr.n, "n", "number of nodes");
  CHECK_EQ((u64)now.m(), gr.adj.size(), "m", "number of edges");
  CHECK_EQ((i64)now.total_node_weight(), gr.total_w(), "total", "total node weight");
  CHECK_EQ((i64)now.total_edge_weight(), gr.total_we(), "total", "total edge weight");
  CHECK_EQ((u64)now.max_degree(), gr.max_deg(), "max-degree", "maximum degree");
  if (gr.n) CHECK_EQ((i64)now.max_node_weight(), gr.max_w(), "max-weight", "maximum node weight");
  std::vector<u32> back(gr.n, 0xffffffffu);
  for (u64 u = 0; u < gr.n; ++u) {
    CHECK_MSG(old_to_new[u] < gr.n, "permutation", "node " << u << " is renumbered to " << old_to_new[u]);
    CHECK_MSG(back[old_to_new[u]] == 0xffffffffu, "permutation", "nodes " << u << " and " << back[old_to_new[u]] << " get the same id");
    back[old_to_new[u]] = u;
  }
  for (u64 u = 0; u < gr.n; ++u) {
    const u32 nu = old_to_new[u];
    CHECK_EQ((i64)now.node_weight(nu), gr.w(u), "node-weight", "weight of node " << u << " (now " << nu << ")");
    CHECK_EQ((u64)now.degree(nu), gr.deg(u), "degree", "degree of node " << u << " (now " << nu << ")");
    Edges a = edges_of(gr, u), b;
    now.adjacent_nodes(nu, [&](const NodeID v, const EdgeWeight w) { b.insert({v < gr.n ? back[v] : 0xffffffffu, w}); });
    CHECK_MSG(a == b, "edges", "edges of node " << u << " (now " << nu << ") differ");
  }
}

PBT_TEST(degree_buckets, 4) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  const pbt::G gr = iso_graph(g, 3000);
  g.note(gr.str());
  g.nontrivial(gr.m() > 0);
  CSRGraph csr = to_csr(gr);
  std::vector<u32> o2n(gr.n);
  if (g.flip()) {
    shm::Graph now = graph::rearrange_by_degree_buckets(csr);
    CHECK_MSG(now.sorted(), "sorted", "the rearranged graph is not marked as sorted");
    CHECK_MSG(now.permuted() || gr.n == 0, "sorted", "the rearranged graph is not marked as permuted");
    for (u64 u = 0; u < gr.n; ++u) o2n[u] = now.map_original_node(u);
    check_renumbered(gr, now.csr_graph(), o2n);
    for (u64 u = 0; u + 1 < gr.n; ++u)
      CHECK_MSG(class_of(now.csr_graph().degree(u)) <= class_of(now.csr_graph().degree(u + 1)), "order", "nodes " << u << " and " << u + 1 << " of degrees " << now.csr_graph().degree(u) << " and " << now.csr_graph().degree(u + 1));
  } else {
    auto nodes = to_static<EdgeID>(gr.xadj);
    auto edges = to_static<NodeID>(gr.adj);
    auto nw = to_static<NodeWeight>(gr.vw);
    auto ew = to_static<EdgeWeight>(gr.ew);
    auto perm = graph::rearrange_graph(nodes, edges, nw, ew);
    CHECK_EQ((u64)perm.old_to_new.size(), gr.n, "permutation", "size of the permutation");
    for (u64 u = 0; u < gr.n; ++u) {
      o2n[u] = perm.old_to_new[u];
      if (o2n[u] < gr.n) CHECK_EQ((u64)perm.new_to_old[o2n[u]], u, "inverse", "inverse of the permutation at " << u);
    }
    check_renumbered(gr, CSRGraph(std::move(nodes), std::move(edges), std::move(nw), std::move(ew), true), o2n);
  }
}

PBT_TEST(generic_buckets, 2) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  const u64 n = g.flip() ? g.draw(20) : g.logsize(0, 30000), k = g.logsize(1, 500);
  g.note("n=" + std::to_string(n) + " buckets=" + std::to_string(k));
  g.nontrivial(n > 1 && k > 1);
  Rng r(g.seed());
  std::vector<u32> bucket(n);
  const int shape = g.draw(3);
  for (u64 u = 0; u < n; ++u) bucket[u] = shape == 0 ? r.below(k) : shape == 1 ? std::min<u64>(k - 1, u * k / n) : (r.chance(1, 10) ? r.below(k) : k - 1);
  auto check = [&](const graph::NodePermutations &p, auto &&key, const char *what) {
    CHECK_EQ((u64)p.old_to_new.size(), n, "size", what);
    CHECK_EQ((u64)p.new_to_old.size(), n, "size", what);
    std::vector<bool> seen(n);
    for (u64 u = 0; u < n; ++u) {
      const u64 x = p.old_to_new[u];
      CHECK_MSG(x < n && !seen[x], "bijection", what << ": node " << u << " -> " << x);
      seen[x] = true;
      CHECK_EQ((u64)p.new_to_old[x], u, "inverse", what << ": inverse at " << x);
    }
    for (u64 x = 0; x + 1 < n; ++x) {
      const u64 a = p.new_to_old[x], b = p.new_to_old[x + 1];
      CHECK_MSG(key(a) < key(b) || (key(a) == key(b) && a < b), "order", what << ": position " << x << " holds node " << a << " of bucket " << key(a) << " before node " << b << " of bucket " << key(b));
    }
  };
  if (g.flip()) check(graph::compute_node_permutation_by_generic_buckets<NodeID>(n, k, [&](const NodeID u) { return bucket[u]; }), [&](u64 u) { return bucket[u]; }, "generic");
  else {
    const bool at_end = g.flip();
    auto key = [&](u64 u) { return bucket[u] == 0 ? (at_end ? 0xff : 0) : 64 - __builtin_clzll(bucket[u]); };
    check(graph::compute_node_permutation_by_degree_buckets(n, [&](const NodeID u) { return bucket[u]; }, at_end), key, at_end ? "isolated last" : "isolated first");
  }
}

PBT_TEST(edge_order, 3) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  pbt::G gr;
  if (g.chance(1, 4)) { // runs, and nodes above the high-degree threshold
    const u64 n = g.range(2000, 24000), hubs = g.range(1, 2), gap = g.range(2, 40);
    Rng r(g.seed());
    std::vector<std::pair<u64, u64>> es;
    std::vector<i64> ew;
    for (u64 h = 0; h < hubs; ++h) for (u64 v = h + 1; v < n; ++v) if (r.below(gap)) { es.push_back({h, v}); ew.push_back(1 + r.below(1000)); }
    const bool weighted = g.flip();
    gr = from_edges(n, es, weighted ? &ew : nullptr, &r);
    gr.family = "hubs";
  } else gr = iso_graph(g, 800);
  g.note(gr.str());
  g.nontrivial(gr.m() > 0);
  CSRGraph csr = to_csr(gr);
  for (int i = g.draw(2); i >= 0; --i) graph::reorder_edges_by_compression(csr);
  std::vector<u32> id(gr.n);
  for (u64 u = 0; u < gr.n; ++u) id[u] = u;
  check_renumbered(gr, csr, id);
  for (u64 u = 0; u <= gr.n; ++u) CHECK_EQ((u64)csr.raw_nodes()[u], gr.xadj[u], "offsets", "first edge of node " << u);
}

// Removing isolated nodes and adding them back, repeatedly, with the assignment in between
PBT_TEST(isolated, 5) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  const pbt::G gr = iso_graph(g, 600);
  g.note(gr.str());
  const u64 iso = gr.isolated();
  g.nontrivial(iso > 0 && iso < gr.n);
  CHECK_EQ((u64)graph::count_isolated_nodes(to_graph(gr)), iso, "count", "number of isolated nodes");
  if (g.chance(1, 4)) CHECK_EQ((u64)graph::count_isolated_nodes(shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr))))), iso, "count", "number of isolated nodes of the compressed graph");
  CSRGraph csr = to_csr(gr);
  shm::Graph now = graph::rearrange_by_degree_buckets(csr);
  std::vector<u32> o2n(gr.n), back(gr.n);
  for (u64 u = 0; u < gr.n; ++u) back[o2n[u] = now.map_original_node(u)] = u;
  const int rounds = g.range(1, 3);
  Rng r(g.seed());
  for (int round = 0; round < rounds; ++round) {
    now.remove_isolated_nodes(graph::count_isolated_nodes(now));
    const u64 n = gr.n - iso;
    const CSRGraph &c = now.csr_graph();
    CHECK_EQ((u64)now.n(), n, "removed-n", "nodes without the isolated ones");
    CHECK_EQ((u64)now.m(), gr.adj.size(), "removed-m", "edges without isolated nodes");
    i64 tw = 0, mw = n ? 0 : 1;
    for (u64 u = 0; u < gr.n; ++u) if (gr.deg(u)) { tw += gr.w(u); mw = std::max(mw, gr.w(u)); }
    CHECK_EQ((i64)now.total_node_weight(), tw, "removed-total", "total node weight without isolated nodes");
    CHECK_EQ((i64)now.max_node_weight(), mw, "removed-max", "maximum node weight without isolated nodes");
    u64 visited = 0, in_buckets = 0;
    for (const NodeID x : now.nodes()) {
      ++visited;
      CHECK_EQ((i64)c.node_weight(x), gr.w(back[x]), "removed-weight", "weight of node " << x);
      CHECK_EQ((u64)c.degree(x), gr.deg(back[x]), "removed-degree", "degree of node " << x);
      Edges a = edges_of(gr, back[x]), b;
      c.adjacent_nodes(x, [&](const NodeID v, const EdgeWeight w) { b.insert({back[v], w}); });
      CHECK_MSG(a == b, "removed-edges", "edges of node " << x);
    }
    CHECK_EQ(visited, n, "removed-nodes", "nodes visited without isolated nodes");
    for (u64 b = 0; b < c.number_of_buckets(); ++b) {
      CHECK_EQ((u64)c.first_node_in_bucket(b), in_buckets, "buckets", "first node of bucket " << b << " of " << c.number_of_buckets());
      for (u64 i = 0; i < c.bucket_size(b); ++i)
        CHECK_MSG(in_buckets + i < n && (u64)degree_bucket(c.degree(in_buckets + i)) == b, "buckets", "node " << in_buckets + i << " in degree bucket " << b);
      in_buckets += c.bucket_size(b);
    }
    CHECK_EQ(in_buckets, n, "buckets", "nodes in degree buckets");

    // A partition of the remaining graph
    const u64 k = g.weighted({3, 1}) == 0 ? g.range(2, 8) : g.range(2, 40);
    std::vector<u32> part(n);
    for (auto &b : part) b = r.below(k);
    PartitionedGraph p_graph(now, k, to_static<BlockID>(part));
    std::vector<i64> bw(k, 0);
    for (u64 x = 0; x < n; ++x) bw[part[x]] += gr.w(back[x]);
    const u64 added = now.integrate_isolated_nodes();
    CHECK_EQ(added, iso, "integrated", "number of re-integrated nodes");
    check_renumbered(gr, now.csr_graph(), o2n);
    CHECK_MSG(now.sorted() || gr.n == 0, "sorted", "the graph is no longer marked as sorted");

    // Limits: per block or uniform, sometimes too small
    PartitionContext p_ctx;
    std::vector<i64> limit(k);
    const i64 avg = (gr.total_w() + k - 1) / (i64)k, mxw = gr.vw.empty() ? 1 : gr.max_w();
    const int style = g.draw(3);
    for (u64 b = 0; b < k; ++b) {
      i64 room = style == 0 ? avg - bw[b] : style == 1 ? (i64)r.below(iso + 2) : avg + mxw - bw[b];
      limit[b] = bw[b] + (style == 1 ? room : std::max<i64>(room, style == 0 && r.chance(1, 4) ? -1 : room));
    }
    p_ctx.setup(now, std::vector<BlockWeight>(limit.begin(), limit.end()), false);
    PartitionedGraph out = graph::assign_isolated_nodes(std::move(p_graph), added, p_ctx);
    CHECK_EQ((u64)out.n(), gr.n, "assign-n", "nodes after assigning isolated nodes");
    CHECK_EQ((u64)out.k(), k, "assign-k", "blocks after assigning isolated nodes");
    std::vector<i64> after(k, 0);
    for (u64 x = 0; x < gr.n; ++x) {
      const u64 b = out.block(x);
      CHECK_MSG(b < k, "assign-block", "isolated node " << x << " in block " << b);
      if (x < n) CHECK_EQ(b, (u64)part[x], "assign-kept", "block of the non-isolated node " << x);
      after[b] += gr.w(back[x]);
    }
    for (u64 b = 0; b < k; ++b) CHECK_EQ((i64)out.block_weight(b), after[b], "assign-weight", "weight of block " << b);
    // A block is filled beyond its limit only if no other block has room (unit weights), or never if
    // every block could take the heaviest node on top of the average
    bool over = false;
    for (u64 b = 0; b < k; ++b) over |= after[b] > bw[b] && after[b] > limit[b];
    if (mxw == 1 && over) for (u64 b = 0; b < k; ++b) CHECK_MSG(after[b] >= limit[b], "assign-room", "a block is overfull although block " << b << " has weight " << after[b] << " of " << limit[b]);
    bool slack = true;
    for (u64 b = 0; b < k; ++b) slack &= limit[b] >= avg + mxw;
    if (slack) CHECK_MSG(!over, "assign-slack", "a block is overfull although all limits leave room");
  }
}

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
