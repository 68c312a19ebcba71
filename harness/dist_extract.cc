// D05: replicating distributed graphs, choosing partitions, extracting block-induced subgraphs
#include "distgen.h"

#include "kaminpar-dist/graphutils/replicator.h"
#include "kaminpar-dist/graphutils/subgraph_extractor.h"
#include "kaminpar-dist/metrics.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"

using namespace dist_pbt;
namespace ks = kaminpar::shm;

static i64 cut_of(const G &g, const std::vector<u32> &p) {
  i64 c = 0;
  for (u64 u = 0; u < g.n; ++u)
    for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (p[u] != p[g.adj[e]]) c += g.we(e);
  return c / 2;
}
static std::vector<u32> random_partition(const G &g, u32 k, u64 seed) { // of varying quality
  Rng r(seed);
  std::vector<u32> p(g.n);
  const u64 noise = r.below(5);
  for (u64 u = 0; u < g.n; ++u) p[u] = r.below(4) < noise ? r.below(k) : u * k / g.n;
  return p;
}
// An shm graph against a graph whose nodes are called to[u] in it
static void check_shm(const ks::Graph &sg, const G &g, const char *what) {
  CHECK_EQ((u64)sg.n(), g.n, what, "number of nodes");
  CHECK_EQ((u64)sg.m(), g.m(), what, "number of edges");
  CHECK_EQ((i64)sg.total_node_weight(), g.total_w(), what, "total node weight");
  CHECK_EQ((i64)sg.total_edge_weight(), g.total_we(), what, "total edge weight");
  for (u64 u = 0; u < g.n; ++u) {
    CHECK_EQ((i64)sg.csr_graph().node_weight(u), g.w(u), what, "weight of node " << u);
    CHECK_EQ((u64)sg.csr_graph().degree(u), g.deg(u), what, "degree of node " << u);
    std::vector<std::pair<u64, i64>> exp, got;
    for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e) exp.emplace_back(g.adj[e], g.we(e));
    sg.csr_graph().adjacent_nodes(u, [&](const ks::NodeID v, const ks::EdgeWeight w) { got.emplace_back(v, w); });
    std::sort(exp.begin(), exp.end());
    std::sort(got.begin(), got.end());
    CHECK_MSG(exp == got, what, "neighbourhood of node " << u << " differs");
  }
}
static void check_dist_part(const kd::DistributedPartitionedGraph &pg, u32 k, const std::vector<u32> &part, const G &g, const char *what) {
  CHECK_EQ(pg.k(), k, what, "number of blocks");
  for (kd::NodeID u = 0; u < pg.total_n(); ++u) CHECK_EQ(pg.block(u), part[pg.local_to_global_node(u)], what, "block of node " << pg.local_to_global_node(u) << (pg.is_owned_node(u) ? "" : " (ghost)"));
  std::vector<i64> w(k, 0);
  for (u64 u = 0; u < g.n; ++u) w[part[u]] += g.w(u);
  for (u32 b = 0; b < k; ++b) CHECK_EQ((i64)pg.block_weight(b), w[b], what, "weight of block " << b);
}
static kd::DistributedPartitionedGraph make_part(const kd::DistributedGraph &dg, u32 k, const std::vector<u32> &part) {
  StaticArray<kd::BlockID> p(dg.total_n());
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) p[u] = part[dg.local_to_global_node(u)];
  return {&dg, k, std::move(p)};
}

struct RepCase : DistCase {
  u32 k = 1;
  int reps = 1, root = 0;
};
static void gen_rep(Gen &g, RepCase &c) {
  DistOptions o;
  o.graph.max_n = 250;
  o.graph.max_m = 2500;
  o.max_p = 9;
  gen_dist_case(g, c, o);
  c.k = g.range(1, 12);
  c.reps = g.range(1, c.P);
  c.root = g.range(0, c.P - 1);
  g.note(" k=" + std::to_string(c.k) + " replications=" + std::to_string(c.reps));
  g.label(c.reps == 1 ? "one copy" : c.P % c.reps ? "uneven groups" : "even groups");
  g.nontrivial(c.P > 1 && c.gr.m() > 0);
}
DIST_TEST(replicate, 3, RepCase, gen_rep) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  kd::DistributedGraph rep = kd::replicate_graph(dg, c.reps);
  MPI_Comm sub = rep.communicator();
  {
    Rank srk;
    srk.comm = sub;
    MPI_Comm_rank(sub, &srk.rank);
    MPI_Comm_size(sub, &srk.size);
    CHECK_MSG(srk.size >= rk.size / c.reps && srk.size <= (rk.size + c.reps - 1) / c.reps, "groups", "group of " << srk.size << " processes out of " << rk.size << ", replicated " << c.reps << " times");
    std::vector<u64> dist(rep.node_distribution().begin(), rep.node_distribution().end());
    CHECK_EQ(dist.size(), (std::size_t)srk.size + 1, "replicate", "node distribution");
    CHECK_MSG(dist.front() == 0 && dist.back() == c.gr.n && std::is_sorted(dist.begin(), dist.end()), "replicate", "node distribution");
    for (auto &d : srk.all(dist)) CHECK_MSG(d == dist, "replicate", "node distributions differ");
    check_dist_graph(rep, c.gr, dist, srk, false);
    // every group has its own partition; the best one wins
    std::vector<u32> keys = rk.each((u32)(rk.rank - srk.rank)); // anything to tell the groups apart is fine: take the ranks of a group's processes
    std::vector<int> first{rk.rank};
    for (auto &v : srk.all(first)) first.push_back(v[0]);
    const int leader = *std::min_element(first.begin(), first.end());
    std::vector<int> leaders = rk.each(leader);
    i64 best = std::numeric_limits<i64>::max();
    std::map<i64, std::vector<std::vector<u32>>> by_cut;
    for (int l : leaders) {
      auto p = random_partition(c.gr, c.k, c.seed + 77 * l);
      const i64 cut = cut_of(c.gr, p);
      best = std::min(best, cut);
      by_cut[cut].push_back(p);
    }
    kd::DistributedPartitionedGraph mine = make_part(rep, c.k, random_partition(c.gr, c.k, c.seed + 77 * leader));
    kd::DistributedPartitionedGraph got = kd::distribute_best_partition(dg, std::move(mine));
    std::vector<u32> own(got.n());
    for (kd::NodeID u = 0; u < got.n(); ++u) own[u] = got.block(u);
    std::vector<u32> glob;
    for (auto &v : rk.all(own)) glob.insert(glob.end(), v.begin(), v.end());
    CHECK_MSG(std::find(by_cut[best].begin(), by_cut[best].end(), glob) != by_cut[best].end(), "best partition", "result is no partition of the smallest cut " << best << " but has cut " << cut_of(c.gr, glob));
    check_dist_part(got, c.k, glob, c.gr, "best partition");
  }
  rep = kd::DistributedGraph();
  MPI_Comm_free(&sub);
}
DIST_TEST(gather, 3, RepCase, gen_rep) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  ks::Graph sg = kd::replicate_graph_everywhere(dg);
  check_shm(sg, c.gr, "gathered graph");
  const auto part = random_partition(c.gr, c.k, c.seed);
  {
    auto pg = make_part(dg, c.k, part);
    auto [g2, p2] = kd::allgather_graph(pg);
    check_shm(*g2, c.gr, "gathered graph");
    CHECK_EQ((u32)p2->k(), c.k, "gathered partition", "number of blocks");
    for (u64 u = 0; u < c.gr.n; ++u) CHECK_EQ(p2->block(u), part[u], "gathered partition", "node " << u);
  }
  { // everyone's own partition; the best wins
    i64 best = std::numeric_limits<i64>::max();
    std::vector<u32> win;
    for (int p = 0; p < rk.size; ++p) {
      auto q = random_partition(c.gr, c.k, c.seed + 31 * p);
      const i64 cut = cut_of(c.gr, q);
      if (cut < best) best = cut, win = q;
    }
    auto q = random_partition(c.gr, c.k, c.seed + 31 * rk.rank);
    ks::PartitionedGraph sp(sg, c.k, to_static<ks::BlockID>(q));
    auto got = kd::distribute_best_partition(dg, std::move(sp));
    std::vector<u32> own(got.n()), glob;
    for (kd::NodeID u = 0; u < got.n(); ++u) own[u] = got.block(u);
    for (auto &v : rk.all(own)) glob.insert(glob.end(), v.begin(), v.end());
    CHECK_EQ(cut_of(c.gr, glob), best, "best partition", "cut of the chosen partition");
    bool known = false;
    for (int p = 0; p < rk.size; ++p) known = known || glob == random_partition(c.gr, c.k, c.seed + 31 * p);
    CHECK_MSG(known, "best partition", "not one of the partitions");
    check_dist_part(got, c.k, glob, c.gr, "best partition");
  }
  {
    auto got = kd::distribute_partition(dg, c.k, rk.rank == c.root ? to_static<ks::BlockID>(part) : StaticArray<ks::BlockID>(), c.root);
    check_dist_part(got, c.k, part, c.gr, "distributed partition");
  }
}

struct SubCase : DistCase {
  u32 k = 1, mult = 2;
  std::vector<u32> part;
};
static void gen_sub(Gen &g, SubCase &c) {
  DistOptions o;
  o.graph.max_n = 250;
  o.graph.max_m = 2500;
  o.max_p = 9;
  gen_dist_case(g, c, o);
  c.k = g.weighted({2, 1}) ? g.range(1, 40) : g.range(1, 9);
  c.mult = g.range(1, 5);
  c.part = gen_partition(g, c.gr, c.k);
  g.label((int)c.k < c.P ? "fewer blocks than processes" : (int)c.k == c.P ? "as many blocks as processes" : "more blocks than processes");
  g.note(" k=" + std::to_string(c.k) + " x" + std::to_string(c.mult));
  g.nontrivial(c.P > 1 && c.k > 1 && c.gr.m() > 0);
}
DIST_TEST(subgraphs, 4, SubCase, gen_sub) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  const G &gr = c.gr;
  auto pg = make_part(dg, c.k, c.part);
  auto ex = kd::graph::extract_and_scatter_block_induced_subgraphs(pg);
  const kd::graph::BlockExtractionOffsets off(rk.size, c.k);
  // which process has which block
  std::vector<std::vector<int>> holders(c.k);
  for (int p = 0; p < rk.size; ++p) {
    const u32 from = off.first_block_on_pe(p), to = off.first_invalid_block_on_pe(p);
    CHECK_EQ(to - from, off.num_blocks_on_pe(p), "assignment", "number of blocks of process " << p);
    CHECK_MSG(from < to && to <= c.k, "assignment", "process " << p << " has blocks " << from << " to " << to << " of " << c.k);
    if ((int)c.k <= rk.size) CHECK_EQ(to - from, 1u, "assignment", "blocks of process " << p);
    else CHECK_MSG(to - from <= (c.k + rk.size - 1) / rk.size, "assignment", "process " << p << " has " << to - from << " blocks");
    for (u32 b = from; b < to; ++b) holders[b].push_back(p);
  }
  for (u32 b = 0; b < c.k; ++b) {
    CHECK_MSG(!holders[b].empty(), "assignment", "nobody has block " << b);
    if ((int)c.k > rk.size) CHECK_EQ(holders[b].size(), 1u, "assignment", "holders of block " << b);
    CHECK_MSG((int)holders[b].size() <= (rk.size + (int)c.k - 1) / (int)c.k, "assignment", "holders of block " << b);
  }
  const u32 fb = off.first_block_on_pe(rk.rank), nb = off.num_blocks_on_pe(rk.rank);
  CHECK_EQ(ex.subgraphs.size(), nb, "subgraphs", "number of subgraphs");
  CHECK_EQ(ex.subgraph_offsets.size(), nb, "subgraphs", "number of subgraphs");
  CHECK_MSG(ex.mapping.size() >= dg.n(), "subgraphs", "mapping");
  std::vector<u32> m(ex.mapping.begin(), ex.mapping.begin() + dg.n());
  const auto maps = rk.all(m); // position of a node among its process' nodes of its block
  std::vector<u64> id(gr.n);  // its id in the subgraph
  std::vector<std::vector<u64>> members(c.k), offs(c.k);
  for (u32 b = 0; b < c.k; ++b) {
    for (int p = 0; p < rk.size; ++p) {
      offs[b].push_back(members[b].size());
      std::vector<u64> mine;
      for (u64 u = c.dist[p]; u < c.dist[p + 1]; ++u)
        if (c.part[u] == b) mine.push_back(u);
      std::vector<u64> at(mine.size(), ~0ull);
      for (u64 u : mine) {
        const u64 x = maps[p][u - c.dist[p]];
        CHECK_MSG(x < mine.size() && at[x] == ~0ull, "mapping", "node " << u << " of block " << b << " is mapped to " << x << " of " << mine.size());
        at[x] = u;
        id[u] = offs[b].back() + x;
      }
      members[b].insert(members[b].end(), at.begin(), at.end());
    }
    offs[b].push_back(members[b].size());
  }
  for (u32 i = 0; i < nb; ++i) {
    const u32 b = fb + i;
    G sub;
    sub.n = members[b].size();
    sub.xadj.assign(1, 0);
    for (u64 u : members[b]) {
      sub.vw.push_back(gr.w(u));
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e)
        if (c.part[gr.adj[e]] == b) sub.adj.push_back(id[gr.adj[e]]), sub.ew.push_back(gr.we(e));
      sub.xadj.push_back(sub.adj.size());
    }
    check_shm(ex.subgraphs[i], sub, "subgraphs");
    CHECK_EQ(ex.subgraph_offsets[i].size(), (std::size_t)rk.size + 1, "subgraphs", "offsets of block " << b);
    for (int p = 0; p <= rk.size; ++p) CHECK_EQ((u64)ex.subgraph_offsets[i][p], offs[b][p], "subgraphs", "offset of process " << p << " in block " << b);
  }
  // partition the subgraphs, everyone on its own, and copy the partitions back
  auto sub_part = [&](u32 b, int pe) { return random_partition(G{.n = members[b].size()}, c.mult, c.seed + 1000003 * b + (holders[b].size() > 1 ? pe : 0)); };
  auto sub_cut = [&](u32 b, const std::vector<u32> &p) {
    i64 cut = 0;
    for (u64 u : members[b])
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e)
        if (c.part[gr.adj[e]] == b && p[id[u]] != p[id[gr.adj[e]]]) cut += gr.we(e);
    return cut / 2;
  };
  std::vector<ks::PartitionedGraph> sp;
  for (u32 i = 0; i < nb; ++i) sp.emplace_back(ex.subgraphs[i], c.mult, to_static<ks::BlockID>(sub_part(fb + i, rk.rank)));
  auto got = kd::graph::copy_subgraph_partitions(std::move(pg), sp, ex);
  std::vector<u32> own(got.n()), glob;
  for (kd::NodeID u = 0; u < got.n(); ++u) own[u] = got.block(u);
  for (auto &v : rk.all(own)) glob.insert(glob.end(), v.begin(), v.end());
  for (u32 b = 0; b < c.k; ++b) {
    i64 best = std::numeric_limits<i64>::max();
    for (int p : holders[b]) best = std::min(best, sub_cut(b, sub_part(b, p)));
    bool ok = false;
    for (int p : holders[b]) {
      const auto q = sub_part(b, p);
      if (sub_cut(b, q) != best) continue;
      bool same = true;
      for (u64 u : members[b]) same = same && glob[u] == b * c.mult + q[id[u]];
      ok = ok || same;
    }
    CHECK_MSG(ok, "copied partitions", "nodes of block " << b << " did not get the partition of its subgraph with the smallest cut");
  }
  check_dist_part(got, c.k * c.mult, glob, gr, "copied partitions");
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
