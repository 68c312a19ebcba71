// Random distributed graphs: a global graph, cut into consecutive pieces owned by the processes (pieces may be empty).
#pragma once
#include <set>
#include "mpigen.h"
#include "graphgen.h"
#include "shmgen.h"

#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"
#include "kaminpar-common/random.h"
#include "kaminpar-dist/context.h"
#include "kaminpar-dist/datastructures/distributed_compressed_graph.h"
#include "kaminpar-dist/datastructures/distributed_csr_graph.h"
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/datastructures/ghost_node_mapper.h"
#include "kaminpar-dist/graphutils/synchronization.h"

namespace dist_pbt {
namespace kd = kaminpar::dist;
using kaminpar::StaticArray;

struct DistOptions {
  GraphOptions graph;
  int max_p = 6;
  bool compressed = true;
  bool sub_comms = true;
};
struct DistCase : CaseBase {
  G gr;
  std::vector<u64> dist; // P + 1 entries
  bool compressed = false;
  int comm = 0; // 0: MPI_COMM_WORLD, 1: a duplicate
};

inline std::vector<u64> gen_dist(Gen &g, u64 n, int P) {
  std::vector<u64> d(P + 1, 0);
  d[P] = n;
  switch (g.weighted({5, 4, 1, 3})) {
  case 0: // balanced
    for (int p = 1; p < P; ++p) d[p] = n * p / P;
    g.label("dist:balanced");
    break;
  case 1:
    for (int p = 1; p < P; ++p) d[p] = g.range(0, n);
    std::sort(d.begin(), d.end());
    g.label("dist:random");
    break;
  case 2: { // one process owns everything
    const int o = g.range(0, P - 1);
    for (int p = 1; p < P; ++p) d[p] = p <= o ? 0 : n;
    g.label("dist:one owner");
    break;
  }
  case 3: { // some processes own nothing
    std::vector<int> own;
    for (int p = 0; p < P; ++p)
      if (!g.chance(1, 2)) own.push_back(p);
    if (own.empty()) own.push_back(P - 1);
    u64 i = 0;
    for (int p = 0; p < P; ++p) {
      if (i < own.size() && own[i] == p) ++i;
      d[p + 1] = n * i / own.size();
    }
    g.label("dist:some empty");
    break;
  }
  }
  return d;
}

inline void gen_dist_case(Gen &g, DistCase &c, const DistOptions &o = {}) {
  gen_base(g, c, o.max_p);
  c.gr = gen_graph(g, o.graph);
  c.dist = gen_dist(g, c.gr.n, c.P);
  c.compressed = o.compressed && g.chance(1, 3);
  c.comm = o.sub_comms && g.chance(1, 4);
  label_graph(g, c.gr);
  if (c.compressed) g.label("compressed");
  if (c.comm) g.label("duplicated communicator");
  std::string s = c.gr.str() + " dist=[";
  for (u64 d : c.dist) s += std::to_string(d) + " ";
  s.back() = ']';
  g.note(s + (c.compressed ? " compressed" : "") + (c.comm ? " dup" : "") + " seed=" + std::to_string(c.seed) + " ");
}

inline std::vector<u32> gen_partition(Gen &g, const G &gr, u32 k) {
  std::vector<u32> part(gr.n, 0);
  const int mode = g.weighted({4, 4, 2, 1});
  Rng rng(g.seed());
  const u64 shift = g.draw(4);
  switch (mode) {
  case 0: // consecutive
    for (u64 u = 0; u < gr.n; ++u) part[u] = u * k / gr.n;
    break;
  case 1:
    for (u64 u = 0; u < gr.n; ++u) part[u] = rng.below(k);
    break;
  case 2: // skewed
    for (u64 u = 0; u < gr.n; ++u) part[u] = rng.below(1 + rng.below(1 + rng.below(k)));
    break;
  case 3: break; // a single block
  }
  if (shift && mode != 3) // some nodes elsewhere
    for (u64 i = 0; i < gr.n / (5 * shift); ++i) part[rng.below(gr.n)] = rng.below(k);
  static const char *names[] = {"consecutive", "random", "skewed", "single block"};
  g.label(std::string("partition:") + names[mode]);
  g.note(std::string(" partition:") + names[mode]);
  return part;
}

inline int owner_of(const std::vector<u64> &dist, u64 u) {
  int p = 0;
  while (dist[p + 1] <= u) ++p;
  return p;
}

// Communicator of a case; freed when the case is over
struct Comm {
  MPI_Comm comm = MPI_COMM_WORLD;
  explicit Comm(int kind) {
    if (kind == 1) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
  }
  ~Comm() {
    if (comm != MPI_COMM_WORLD && std::uncaught_exceptions() == 0) MPI_Comm_free(&comm);
  }
};

inline StaticArray<kd::GlobalNodeID> node_distribution(const std::vector<u64> &dist) { return to_static<kd::GlobalNodeID>(dist); }
inline StaticArray<kd::GlobalEdgeID> edge_distribution(const G &g, const std::vector<u64> &dist) {
  std::vector<u64> d;
  for (u64 u : dist) d.push_back(g.xadj[u]);
  return to_static<kd::GlobalEdgeID>(d);
}

inline kd::DistributedCSRGraph make_csr(const G &g, const std::vector<u64> &dist, int rank, MPI_Comm comm, bool sorted = false) {
  const u64 from = dist[rank], to = dist[rank + 1], n = to - from, e0 = g.xadj[from];
  auto nd = node_distribution(dist);
  auto ed = edge_distribution(g, dist);
  kd::graph::GhostNodeMapper mapper(rank, nd);
  StaticArray<kd::EdgeID> nodes(n + 1);
  StaticArray<kd::NodeID> edges(g.xadj[to] - e0);
  StaticArray<kd::EdgeWeight> ew(g.ew.empty() ? 0 : edges.size());
  for (u64 u = 0; u <= n; ++u) nodes[u] = g.xadj[from + u] - e0;
  for (u64 e = 0; e < edges.size(); ++e) {
    const u64 v = g.adj[e0 + e];
    edges[e] = v >= from && v < to ? v - from : mapper.new_ghost_node(v);
    if (!g.ew.empty()) ew[e] = g.ew[e0 + e];
  }
  StaticArray<kd::NodeWeight> vw;
  if (!g.vw.empty()) {
    vw.resize(mapper.next_ghost_node());
    for (u64 u = 0; u < n; ++u) vw[u] = g.vw[from + u];
  }
  auto r = mapper.finalize();
  kd::DistributedCSRGraph d(std::move(nd), std::move(ed), std::move(nodes), std::move(edges), std::move(vw), std::move(ew), std::move(r.ghost_owner), std::move(r.ghost_to_global), std::move(r.global_to_ghost), sorted, comm);
  if (!g.vw.empty()) kd::graph::synchronize_ghost_node_weights(d);
  return d;
}

inline kd::DistributedCompressedGraph make_compressed(const G &g, const std::vector<u64> &dist, int rank, MPI_Comm comm, bool sorted = false) {
  const u64 from = dist[rank], to = dist[rank + 1], n = to - from, e0 = g.xadj[from];
  auto nd = node_distribution(dist);
  auto ed = edge_distribution(g, dist);
  kd::CompactGhostNodeMappingBuilder mapper(rank, nd);
  kaminpar::CompressedNeighborhoodsBuilder<kd::NodeID, kd::EdgeID, kd::EdgeWeight> builder(n, g.xadj[to] - e0, !g.ew.empty());
  for (u64 u = 0; u < n; ++u) {
    std::vector<std::pair<kd::NodeID, kd::EdgeWeight>> nb;
    for (u64 e = g.xadj[from + u]; e < g.xadj[from + u + 1]; ++e) {
      const u64 v = g.adj[e];
      nb.emplace_back(v >= from && v < to ? v - from : mapper.new_ghost_node(v), (kd::EdgeWeight)g.we(e));
    }
    builder.add(u, nb);
  }
  StaticArray<kd::NodeWeight> vw;
  if (!g.vw.empty()) {
    vw.resize(mapper.next_ghost_node());
    for (u64 u = 0; u < n; ++u) vw[u] = g.vw[from + u];
  }
  kd::DistributedCompressedGraph d(std::move(nd), std::move(ed), builder.build(), std::move(vw), mapper.finalize(), sorted, comm);
  if (!g.vw.empty()) kd::graph::synchronize_ghost_node_weights(d);
  return d;
}

inline kd::DistributedGraph make_dist(const G &g, const std::vector<u64> &dist, bool compressed, int rank, MPI_Comm comm, bool sorted = false) {
  if (compressed) return kd::DistributedGraph(std::make_unique<kd::DistributedCompressedGraph>(make_compressed(g, dist, rank, comm, sorted)));
  return kd::DistributedGraph(std::make_unique<kd::DistributedCSRGraph>(make_csr(g, dist, rank, comm, sorted)));
}
inline kd::DistributedGraph make_dist(const DistCase &c, const Rank &rk, MPI_Comm comm) {
  kaminpar::Random::reseed(c.seed % 1000000);
  return make_dist(c.gr, c.dist, c.compressed, rk.rank, comm);
}

// The same graph with node u called to[u]
inline G relabel(const G &g, const std::vector<u64> &to) {
  G r;
  r.n = g.n;
  r.family = g.family;
  std::vector<u64> from(g.n);
  for (u64 u = 0; u < g.n; ++u) from[to[u]] = u;
  r.xadj.assign(1, 0);
  for (u64 x = 0; x < g.n; ++x) {
    const u64 u = from[x];
    std::vector<std::pair<u64, i64>> nb;
    for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e) nb.emplace_back(to[g.adj[e]], g.we(e));
    std::sort(nb.begin(), nb.end());
    for (auto &[v, w] : nb) {
      r.adj.push_back(v);
      if (!g.ew.empty()) r.ew.push_back(w);
    }
    if (!g.vw.empty()) r.vw.push_back(g.vw[u]);
    r.xadj.push_back(r.adj.size());
  }
  return r;
}

// All that a process knows about its part of the graph, against the graph
inline void check_dist_graph(const kd::DistributedGraph &dg, const G &g, const std::vector<u64> &dist, const Rank &rk, bool weights_as_given = true) {
  const u64 from = dist[rk.rank], to = dist[rk.rank + 1], n = to - from;
  CHECK_EQ(dg.global_n(), g.n, "counts", "global n");
  CHECK_EQ(dg.global_m(), g.m(), "counts", "global m");
  CHECK_EQ(dg.n(), n, "counts", "n");
  CHECK_EQ(dg.m(), g.xadj[to] - g.xadj[from], "counts", "m");
  CHECK_EQ(dg.offset_n(), from, "counts", "offset_n");
  CHECK_EQ(dg.offset_m(), g.xadj[from], "counts", "offset_m");
  CHECK_EQ(dg.node_distribution().size(), (std::size_t)rk.size + 1, "counts", "node distribution");
  CHECK_EQ(dg.edge_distribution().size(), (std::size_t)rk.size + 1, "counts", "edge distribution");
  for (int p = 0; p <= rk.size; ++p) {
    CHECK_EQ(dg.node_distribution(p), dist[p], "counts", "node distribution " << p);
    CHECK_EQ(dg.node_distribution()[p], dist[p], "counts", "node distribution " << p);
    CHECK_EQ(dg.edge_distribution(p), g.xadj[dist[p]], "counts", "edge distribution " << p);
    CHECK_EQ(dg.edge_distribution()[p], g.xadj[dist[p]], "counts", "edge distribution " << p);
    if (p == rk.size) break;
    CHECK_EQ(dg.n(p), dist[p + 1] - dist[p], "counts", "n of " << p);
    CHECK_EQ(dg.m(p), g.xadj[dist[p + 1]] - g.xadj[dist[p]], "counts", "m of " << p);
    CHECK_EQ(dg.offset_n(p), dist[p], "counts", "offset_n of " << p);
    CHECK_EQ(dg.offset_m(p), g.xadj[dist[p]], "counts", "offset_m of " << p);
  }
  std::set<u64> ghosts;
  std::vector<u64> cut(rk.size, 0), vol(rk.size, 0);
  i64 tw = 0, mw = 0, te = 0, gmw = 0;
  for (u64 u = 0; u < g.n; ++u) gmw = std::max(gmw, g.w(u));
  for (u64 u = from; u < to; ++u) {
    tw += g.w(u), mw = std::max(mw, g.w(u));
    std::set<int> seen;
    for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      te += g.we(e);
      const u64 v = g.adj[e];
      if (v >= from && v < to) continue;
      ghosts.insert(v);
      const int o = owner_of(dist, v);
      ++cut[o];
      if (seen.insert(o).second) ++vol[o];
    }
  }
  CHECK_EQ(dg.ghost_n(), ghosts.size(), "counts", "ghost nodes");
  CHECK_EQ(dg.total_n(), n + ghosts.size(), "counts", "total_n");
  if (weights_as_given) {
    if (dg.total_n() > 0) CHECK_EQ(dg.is_node_weighted(), !g.vw.empty(), "weights", "is_node_weighted");
    if (dg.m() > 0) CHECK_EQ(dg.is_edge_weighted(), !g.ew.empty(), "weights", "is_edge_weighted");
  }
  CHECK_EQ((i64)dg.total_node_weight(), tw, "weights", "total node weight");
  CHECK_EQ((i64)dg.global_total_node_weight(), g.total_w(), "weights", "global total node weight");
  if (n > 0) CHECK_EQ((i64)dg.max_node_weight(), mw, "weights", "maximum node weight");
  if (g.n > 0) CHECK_EQ((i64)dg.global_max_node_weight(), gmw, "weights", "global maximum node weight");
  CHECK_EQ((i64)dg.total_edge_weight(), te, "weights", "total edge weight");
  CHECK_EQ((i64)dg.global_total_edge_weight(), g.total_we(), "weights", "global total edge weight");
  for (int p = 0; p < rk.size; ++p) {
    CHECK_EQ((u64)dg.edge_cut_to_pe(p), cut[p], "communication", "edges to process " << p);
    CHECK_EQ((u64)dg.comm_vol_to_pe(p), vol[p], "communication", "interface nodes to process " << p);
  }
  // nodes
  for (u64 u = 0; u < g.n; ++u) {
    const bool own = u >= from && u < to;
    CHECK_EQ(dg.is_owned_global_node(u), own, "ownership", "global node " << u);
    CHECK_EQ(dg.contains_global_node(u), own || ghosts.count(u) > 0, "ownership", "contains global node " << u);
    CHECK_EQ(dg.find_owner_of_global_node(u), owner_of(dist, u), "ownership", "owner of global node " << u);
  }
  std::vector<u64> gid(dg.total_n());
  std::set<u64> seen;
  CHECK_MSG(!dg.contains_local_node(dg.total_n()), "ownership", "a node after the last one");
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) {
    CHECK_MSG(dg.contains_local_node(u), "ownership", "local node " << u);
    const bool own = u < n;
    CHECK_EQ(dg.is_owned_node(u), own, "ownership", "local node " << u);
    CHECK_EQ(dg.is_ghost_node(u), !own, "ownership", "local node " << u);
    gid[u] = dg.local_to_global_node(u);
    if (own) CHECK_EQ(gid[u], from + u, "ids", "local node " << u);
    else CHECK_MSG(ghosts.count(gid[u]), "ids", "ghost node " << u << " is global node " << gid[u] << ", not a neighbour of this process");
    CHECK_MSG(seen.insert(gid[u]).second, "ids", "two nodes are global node " << gid[u]);
    CHECK_EQ(dg.global_to_local_node(gid[u]), u, "ids", "global node " << gid[u]);
    CHECK_EQ((i64)dg.node_weight(u), g.w(gid[u]), "weights", "weight of local node " << u << ", global node " << gid[u]);
    if (!own) {
      const int o = owner_of(dist, gid[u]);
      CHECK_EQ(dg.ghost_owner(u), o, "ownership", "owner of ghost node " << u);
      CHECK_EQ(dg.map_remote_node(gid[u] - dist[o], o), u, "ids", "ghost node " << u);
    }
  }
  // neighbourhoods
  for (kd::NodeID u = 0; u < n; ++u) {
    const u64 gu = from + u;
    std::vector<std::pair<u64, i64>> exp, got;
    std::vector<u64> plain;
    for (u64 e = g.xadj[gu]; e < g.xadj[gu + 1]; ++e) exp.emplace_back(g.adj[e], g.we(e));
    CHECK_EQ(dg.degree(u), exp.size(), "neighbours", "degree of node " << gu);
    dg.adjacent_nodes(u, [&](const kd::NodeID v, const kd::EdgeWeight w) {
      CHECK_MSG(v < gid.size(), "neighbours", "node " << gu << " has neighbour " << v << " of " << gid.size());
      got.emplace_back(gid[v], w);
    });
    dg.adjacent_nodes(u, [&](const kd::NodeID v) { plain.push_back(gid[v]); });
    std::sort(exp.begin(), exp.end());
    std::sort(got.begin(), got.end());
    std::sort(plain.begin(), plain.end());
    CHECK_MSG(exp == got, "neighbours", "node " << gu << " has " << got.size() << " neighbours with weights that differ from the " << exp.size() << " of the graph");
    for (std::size_t i = 0; i < plain.size(); ++i) CHECK_EQ(plain[i], exp[i].first, "neighbours", "unweighted neighbours of " << gu);
    CHECK_EQ(plain.size(), exp.size(), "neighbours", "unweighted neighbours of " << gu);
  }
}
} // namespace dist_pbt
