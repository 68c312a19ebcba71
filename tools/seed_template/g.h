// Small weighted test graphs for the demonstrations
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <tbb/global_control.h>
#include "kaminpar-common/random.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/metrics.h"
#define REQUIRE(x, ...) do { if (!(x)) { std::printf(__VA_ARGS__); std::printf(" [%s]\n", #x); std::exit(1); } } while (0)

struct M { // adjacency lists
  unsigned n;
  std::vector<std::map<unsigned, long>> adj;
  std::vector<long> vw;
  explicit M(unsigned n) : n(n), adj(n), vw(n, 1) {}
  void edge(unsigned a, unsigned b, long w = 1) { if (a != b) { adj[a][b] = w; adj[b][a] = w; } }
  unsigned long m() const { unsigned long s = 0; for (auto &x : adj) s += x.size(); return s; }
  std::tuple<kaminpar::StaticArray<kaminpar::shm::EdgeID>, kaminpar::StaticArray<kaminpar::shm::NodeID>, kaminpar::StaticArray<kaminpar::shm::NodeWeight>, kaminpar::StaticArray<kaminpar::shm::EdgeWeight>> arrays() const {
    using namespace kaminpar; using namespace kaminpar::shm;
    StaticArray<EdgeID> nodes(n + 1); StaticArray<NodeID> edges(m()); StaticArray<NodeWeight> nw(n); StaticArray<EdgeWeight> ew(m());
    unsigned long e = 0;
    for (unsigned u = 0; u < n; ++u) { nodes[u] = e; nw[u] = vw[u]; for (auto [v, w] : adj[u]) { edges[e] = v; ew[e++] = w; } }
    nodes[n] = e;
    return {std::move(nodes), std::move(edges), std::move(nw), std::move(ew)};
  }
  kaminpar::shm::CSRGraph csr() const { auto [a, b, c, d] = arrays(); return kaminpar::shm::CSRGraph(std::move(a), std::move(b), std::move(c), std::move(d), false); }
  kaminpar::shm::Graph graph() const { return kaminpar::shm::Graph(std::make_unique<kaminpar::shm::CSRGraph>(csr())); }
};

// A w x h grid with edge weights up to maxw, node weights up to maxv, and some random edges
inline M grid(unsigned w, unsigned h, unsigned seed, long maxw = 1, long maxv = 1, unsigned extra = 0) {
  M g(w * h);
  std::mt19937 r(seed);
  for (unsigned i = 0; i < h; ++i) for (unsigned j = 0; j < w; ++j) {
    if (j + 1 < w) g.edge(i * w + j, i * w + j + 1, 1 + r() % maxw);
    if (i + 1 < h) g.edge(i * w + j, (i + 1) * w + j, 1 + r() % maxw);
  }
  for (unsigned i = 0; i < extra; ++i) g.edge(r() % g.n, r() % g.n, 1 + r() % maxw);
  for (auto &x : g.vw) x = 1 + r() % maxv;
  return g;
}

// Partitions through the library; returns the blocks
inline std::vector<kaminpar::shm::BlockID> partition(const M &g, kaminpar::shm::Context ctx, unsigned k, double eps, int threads, int seed, long *cut = nullptr) {
  using namespace kaminpar; using namespace kaminpar::shm;
  KaMinPar p(threads, ctx);
  p.set_output_level(OutputLevel::QUIET);
  KaMinPar::reseed(seed);
  p.set_graph(g.graph());
  std::vector<BlockID> part(g.n);
  const auto c = p.compute_partition(k, eps, part);
  if (cut) *cut = c;
  return part;
}
inline std::vector<long> weights(const M &g, const std::vector<kaminpar::shm::BlockID> &part, unsigned k) {
  std::vector<long> w(k);
  for (unsigned u = 0; u < g.n; ++u) { REQUIRE(part[u] < k, "node %u is in block %u", u, part[u]); w[part[u]] += g.vw[u]; }
  return w;
}
inline long limit(const M &g, unsigned k, double eps) {
  long t = 0, mx = 0;
  for (auto x : g.vw) t += x, mx = std::max(mx, x);
  const long perfect = (t + k - 1) / k;
  return std::max<long>((long)((1.0 + eps) * perfect), perfect + mx);
}
