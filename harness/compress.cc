// K06: compressed graphs answer every query as the graph they were built from.
#include "shmgen.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include <mutex>
#include <tbb/global_control.h>

using namespace pbt;
using namespace kaminpar;
using NW = std::vector<std::pair<u64, i64>>;

// Adjacency lists with runs of consecutive ids, single far ids and degrees around the encoder's thresholds. The
// encoder never looks at the reverse edge, so the lists need not be symmetric.
static G gen_adjacency(Gen &g) {
  if (g.chance(1, 3)) {
    GraphOptions o;
    o.max_n = 3000;
    o.max_m = 12000;
    return gen_graph(g, o);
  }
  G gr;
  const bool hubs = g.chance(1, 25);
  gr.family = hubs ? "runs+hubs" : "runs";
  gr.n = hubs ? g.range(10002, 26000) : g.logsize(0, 2500);
  const int style = g.draw(5); // share of run-shaped neighbourhoods
  const u64 avg = 1 + g.draw(hubs ? 4 : 30);
  Rng r(g.seed());
  std::vector<u64> hub;
  std::vector<u64> hub_deg;
  for (int i = hubs ? 1 + (int)g.draw(3) : 0; i > 0; --i) {
    hub.push_back(r.below(gr.n));
    hub_deg.push_back(std::min<u64>(gr.n - 1, g.flip() ? g.range(9998, 10003) : g.flip() ? g.pick<u64>({10000, 10999, 11000, 11001, 12000, 20000}) : g.range(10000, 26000)));
  }
  for (u64 u = 0; u < gr.n; ++u) {
    std::vector<u64> nb;
    u64 want = r.chance(1, 6) ? 0 : r.below(2 * avg);
    for (std::size_t i = 0; i < hub.size(); ++i) if (hub[i] == u) want = hub_deg[i];
    want = std::min(want, gr.n - 1);
    if (want * 3 >= gr.n) { // dense: leave out few
      std::vector<u64> all;
      for (u64 v = 0; v < gr.n; ++v) if (v != u) all.push_back(v);
      if (r.chance(1, 2)) r.shuffle(all);
      else if (all.size() > want) all.erase(all.begin(), all.begin() + r.below(all.size() - want + 1));
      all.resize(std::min(all.size(), want));
      nb = all;
    } else {
      std::set<u64> s;
      for (int tries = 0; s.size() < want && tries < (int)(4 * want + 20); ++tries) {
        const bool run = (int)r.below(4) < style;
        const u64 len = run ? 1 + r.below(r.chance(1, 5) ? 40 : 6) : 1;
        const u64 at = r.chance(1, 4) ? (u + r.below(5)) : r.chance(1, 8) ? gr.n - 1 - std::min(gr.n - 1, r.below(5)) : r.chance(1, 8) ? r.below(4) : r.below(gr.n);
        for (u64 i = 0; i < len && s.size() < want; ++i) if (at + i < gr.n && at + i != u) s.insert(at + i);
      }
      nb.assign(s.begin(), s.end());
    }
    if (r.chance(1, 2)) r.shuffle(nb);
    gr.adj.insert(gr.adj.end(), nb.begin(), nb.end());
    gr.xadj.push_back(gr.adj.size());
  }
  if (g.chance(1, 3)) { const i64 top = g.pick<i64>({1, 2, 100, 100000}); for (u64 u = 0; u < gr.n; ++u) gr.vw.push_back(1 + (i64)r.below(top)); }
  if (g.chance(2, 5)) {
    const i64 cap = std::max<i64>(1, 2000000000 / (i64)std::max<u64>(1, gr.m()));
    const i64 top = std::min(cap, g.pick<i64>({1, 2, 63, 64, 65, 127, 128, 8192, 1000000000}));
    const bool skew = g.flip();
    for (u64 e = 0; e < gr.m(); ++e) gr.ew.push_back(skew && r.chance(3, 4) ? 1 : 1 + (i64)r.below(top));
  }
  return gr;
}

static NW expected(const G &gr, u64 u) {
  NW v;
  for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) v.push_back({gr.adj[e], gr.we(e)});
  std::sort(v.begin(), v.end());
  return v;
}
static std::string show(const NW &v) {
  std::string s;
  for (std::size_t i = 0; i < v.size() && i < 30; ++i) s += " " + std::to_string(v[i].first) + "/" + std::to_string(v[i].second);
  return s;
}

// u's neighbourhood through every iteration interface of an (un)compressed graph
template <typename Graph> void check_node(const Graph &c, const G &gr, u64 u, Rng &r, bool all, const std::string &who) {
  const NW want = expected(gr, u);
  CHECK_EQ((u64)c.degree(u), gr.deg(u), "degree", who << " node " << u);
  NW got;
  c.adjacent_nodes(u, [&](const shm::NodeID v, const shm::EdgeWeight w) { got.push_back({v, w}); });
  std::sort(got.begin(), got.end());
  CHECK_MSG(got == want, "neighbourhood", who << " node " << u << " got" << show(got) << " expected" << show(want));
  if (!all) return;
  got.clear();
  c.adjacent_nodes(u, [&](const shm::NodeID v) { got.push_back({v, 0}); });
  std::sort(got.begin(), got.end());
  NW ids = want;
  for (auto &x : ids) x.second = 0;
  CHECK_MSG(got == ids, "neighbourhood-ids", who << " node " << u << " got" << show(got) << " expected" << show(ids));
  auto subset = [&](NW g2, u64 count, const char *tag) {
    std::sort(g2.begin(), g2.end());
    CHECK_EQ((u64)g2.size(), count, tag, who << " number of visited neighbours, node " << u << " degree " << want.size());
    CHECK_MSG(std::includes(want.begin(), want.end(), g2.begin(), g2.end()), tag, who << " node " << u << " visited" << show(g2) << " expected some of" << show(want));
  };
  const u64 d = want.size();
  for (int i = 0; i < 2; ++i) {
    const u64 stop = d == 0 ? 0 : 1 + r.below(d), lim = r.below(d + 4);
    got.clear();
    c.adjacent_nodes(u, [&](const shm::NodeID v, const shm::EdgeWeight w) { got.push_back({v, w}); return got.size() >= stop; });
    subset(got, stop, "early-stop");
    got.clear();
    c.adjacent_nodes(u, lim, [&](const shm::NodeID v, const shm::EdgeWeight w) { got.push_back({v, w}); });
    subset(got, std::min(lim, d), "limited");
    got.clear();
    c.adjacent_nodes(u, lim, [&](const shm::NodeID v, const shm::EdgeWeight w) { got.push_back({v, w}); return got.size() >= stop; });
    subset(got, std::min({stop, lim, d}), "limited-stop");
  }
  std::mutex m;
  got.clear();
  c.pfor_adjacent_nodes(u, std::numeric_limits<shm::NodeID>::max(), 1 + r.below(3000), [&](const shm::NodeID v, const shm::EdgeWeight w) { std::lock_guard l(m); got.push_back({v, w}); });
  std::sort(got.begin(), got.end());
  CHECK_MSG(got == want, "parallel-direct", who << " node " << u << " got" << show(got) << " expected" << show(want));
  got.clear();
  c.pfor_adjacent_nodes(u, std::numeric_limits<shm::NodeID>::max(), 1 + r.below(3000), [&](auto &&local) {
    NW mine;
    local([&](const shm::NodeID v, const shm::EdgeWeight w) { mine.push_back({v, w}); });
    std::lock_guard l(m);
    got.insert(got.end(), mine.begin(), mine.end());
  });
  std::sort(got.begin(), got.end());
  CHECK_MSG(got == want, "parallel-local", who << " node " << u << " got" << show(got) << " expected" << show(want));
}

template <typename Graph> void check_graph(const Graph &c, const G &gr, u64 seed, const std::string &who) {
  CHECK_EQ((u64)c.n(), gr.n, "n", who);
  CHECK_EQ((u64)c.m(), gr.m(), "m", who);
  CHECK_EQ((i64)c.total_node_weight(), gr.total_w(), "total-node-weight", who);
  CHECK_EQ((i64)c.total_edge_weight(), gr.total_we(), "total-edge-weight", who);
  if (gr.n > 0) CHECK_EQ((i64)c.max_node_weight(), gr.max_w(), "max-node-weight", who);
  CHECK_EQ(c.is_node_weighted(), gr.total_w() != (i64)gr.n, "is-node-weighted", who);
  CHECK_EQ(c.is_edge_weighted(), gr.total_we() != (i64)gr.m(), "is-edge-weighted", who);
  CHECK_EQ((u64)c.max_degree(), gr.max_deg(), "max-degree", who);
  Rng r(seed);
  for (u64 u = 0; u < gr.n; ++u) {
    CHECK_EQ((i64)c.node_weight(u), gr.w(u), "node-weight", who << " node " << u);
    check_node(c, gr, u, r, gr.deg(u) > 2000 || gr.n < 60 || r.chance(60, gr.n), who);
  }
}

#ifndef ONLY_NEIGHBORHOODS
static G permuted(const G &gr, const std::vector<u64> &old_of) { // new node i is old node old_of[i]
  std::vector<u64> new_of(gr.n);
  for (u64 i = 0; i < gr.n; ++i) new_of[old_of[i]] = i;
  G p;
  p.n = gr.n;
  p.family = gr.family;
  for (u64 i = 0; i < gr.n; ++i) {
    const u64 u = old_of[i];
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) { p.adj.push_back(new_of[gr.adj[e]]); if (!gr.ew.empty()) p.ew.push_back(gr.ew[e]); }
    p.xadj.push_back(p.adj.size());
    if (!gr.vw.empty()) p.vw.push_back(gr.vw[u]);
  }
  return p;
}

PBT_TEST(compressed_graph, 10) {
  G gr = gen_adjacency(g);
  label_graph(g, gr);
  if (gr.max_deg() >= 10000) g.label("high-degree");
  const int how = g.draw(4), threads = g.pick({1, 2, 4, 8, 8});
  const u64 seed = g.seed();
  g.nontrivial(gr.m() > 0);
  g.label(how == 0 ? "sequential" : how == 1 ? "parallel" : how == 2 ? "parallel-permuted" : "incremental");
  g.note(gr.str() + " builder=" + std::to_string(how) + " threads=" + std::to_string(threads));
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, threads);
  if (how == 0) {
    const auto c = shm::CompressedGraphBuilder::compress(to_csr(gr));
    check_graph(c, gr, seed, "sequential");
    shm::Graph wrapped(std::make_unique<shm::CompressedGraph>(shm::CompressedGraphBuilder::compress(to_csr(gr))));
    check_graph(shm::CSRGraph(wrapped), gr, seed, "decompressed");
  } else if (how == 1) {
    check_graph(shm::parallel_compress(to_csr(gr)), gr, seed, "parallel");
  } else if (how == 2) {
    std::vector<u64> old_of(gr.n);
    std::iota(old_of.begin(), old_of.end(), 0);
    Rng r(seed);
    r.shuffle(old_of);
    const G p = permuted(gr, old_of);
    std::vector<u64> new_of(gr.n);
    for (u64 i = 0; i < gr.n; ++i) new_of[old_of[i]] = i;
    const auto c = shm::parallel_compress(
        gr.n, gr.m(), gr.total_w() != (i64)gr.n, gr.total_we() != (i64)gr.m(), false, [&](shm::NodeID i) { return (shm::NodeID)old_of[i]; },
        [&](shm::NodeID u) { return (shm::NodeID)gr.deg(u); }, [&](shm::NodeID u) { return (shm::EdgeID)gr.xadj[u]; },
        [&](shm::EdgeID e) { return (shm::NodeID)new_of[gr.adj[e]]; }, [&](shm::NodeID u) { return (shm::NodeWeight)gr.w(u); },
        [&](shm::EdgeID e) { return (shm::EdgeWeight)gr.we(e); });
    check_graph(c, p, seed, "parallel-permuted");
  } else {
    const bool vw = gr.total_w() != (i64)gr.n, ew = gr.total_we() != (i64)gr.m();
    shm::CompressedGraphBuilder b(gr.n, gr.m(), vw, ew, false);
    for (u64 u = 0; u < gr.n; ++u) {
      std::vector<std::pair<shm::NodeID, shm::EdgeWeight>> nb;
      for (auto &[v, w] : expected(gr, u)) nb.push_back({(shm::NodeID)v, (shm::EdgeWeight)w});
      b.add_node(u, nb);
      if (vw) b.add_node_weight(u, gr.w(u));
    }
    if (vw) CHECK_EQ((i64)b.total_node_weight(), gr.total_w(), "builder-node-weight", "");
    if (ew) CHECK_EQ((i64)b.total_edge_weight(), gr.total_we(), "builder-edge-weight", "");
    check_graph(b.build(), gr, seed, "incremental");
  }
}

#endif

// The encoder on its own with 64-bit ids, as the distributed graphs use it
template <typename NodeID, typename EdgeID, typename EdgeWeight> void neighborhoods(Gen &g) {
  G gr = gen_adjacency(g);
  g.nontrivial(gr.m() > 0);
  g.note(gr.str());
  const bool ew = !gr.ew.empty();
  CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight> b(gr.n, gr.m(), ew);
  for (u64 u = 0; u < gr.n; ++u) {
    if (ew) {
      std::vector<std::pair<NodeID, EdgeWeight>> nb;
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) nb.push_back({(NodeID)gr.adj[e], (EdgeWeight)gr.ew[e]});
      b.add(u, nb);
    } else {
      std::vector<NodeID> nb(gr.adj.begin() + gr.xadj[u], gr.adj.begin() + gr.xadj[u + 1]);
      b.add(u, nb);
    }
  }
  const auto c = b.build();
  CHECK_EQ((u64)c.num_nodes(), gr.n, "n", "");
  CHECK_EQ((u64)c.num_edges(), gr.m(), "m", "");
  CHECK_EQ((u64)c.max_degree(), gr.max_deg(), "max-degree", "");
  CHECK_EQ((i64)c.total_edge_weight(), gr.total_we(), "total-edge-weight", "");
  for (u64 u = 0; u < gr.n; ++u) {
    NW got;
    CHECK_EQ((u64)c.degree(u), gr.deg(u), "degree", "node " << u);
    c.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { got.push_back({v, w}); });
    std::sort(got.begin(), got.end());
    CHECK_MSG(got == expected(gr, u), "neighbourhood", "node " << u << " got" << show(got) << " expected" << show(expected(gr, u)));
  }
}
#ifndef KAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING // only for 32-bit ids and weights
PBT_TEST(neighborhoods_u32_u64, 1) { neighborhoods<std::uint32_t, std::uint64_t, std::int64_t>(g); }
PBT_TEST(neighborhoods_u64_u64, 1) { neighborhoods<std::uint64_t, std::uint64_t, std::int64_t>(g); }
#endif
PBT_TEST(neighborhoods_u32_u32, 1) { neighborhoods<std::uint32_t, std::uint32_t, std::int32_t>(g); }
PBT_MAIN()
