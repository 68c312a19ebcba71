// K01-K03: end-to-end partitioning. PROP selects which aspect is asserted.
#include "ctxgen.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#ifndef PROP
#define PROP 1
#endif

using namespace pbt;
using namespace kaminpar;
using kaminpar::shm::BlockID;

static i64 max_n() { return std::string(getenv("PBT_TIER") ? getenv("PBT_TIER") : "quick") == "thorough" ? 40000 : 6000; }

PBT_TEST(partition, 10) {
  GraphOptions o;
  o.max_n = max_n();
  o.max_m = 10 * o.max_n;
  o.allow_empty = true;
  o.big_bias = 3;
  G gr = gen_graph(g, o);
  label_graph(g, gr);
  g.note(gr.str());
  Conf conf = gen_conf(g, true, PROP == 3);
  const int threads = g.pick<int>({1, 1, 2, 4, 8});
  const int seed = g.draw(1000);

  // number of blocks
  BlockID k;
  switch (g.weighted({4, 2, 2, 2})) {
  default: k = g.range(2, 9); break;
  case 1: k = g.range(10, 70); break;
  case 2: k = g.pick<BlockID>({2, 4, 8, 16, 32, 64, 128}); break;
  case 3: k = std::max<u64>(2, std::min<u64>(300, gr.n + g.draw(6) - std::min<u64>(gr.n, 3))); break; // around n, also k > n
  }
  // Recursive bisection rejects other numbers of blocks explicitly
  if (conf.ctx.partitioning.mode == shm::PartitioningMode::RB) k = std::bit_floor(k);
  gen_vcycles(g, conf, k);
  const std::size_t how = g.weighted({3, 4, 2, 2});
  std::vector<shm::BlockWeight> limits; // what is asserted
  double eps = 0.03;
  std::vector<double> factors;
  const i64 tw = gr.total_w();
  const i64 avg = (tw + k - 1) / k;
  std::vector<shm::BlockWeight> given;
  if (how == 1) eps = g.pick({0.001, 0.01, 0.03, 0.05, 0.1, 0.2, 0.5, 1.0, 3.0});
  if (how == 2) { // absolute limits, individually different
    Rng r(g.seed());
    const double slack = g.pick({0.03, 0.1, 0.5});
    const bool uneven = g.flip();
    double s = 0;
    std::vector<double> share(k);
    for (auto &x : share) s += x = uneven ? 1 + r.unit() * 3 : 1;
    for (auto &x : share) given.push_back((i64)std::ceil((1 + slack) * x / s * tw) + 1);
    limits = given;
  }
  if (how == 3) {
    const double slack = g.pick({0.03, 0.1, 0.5});
    Rng r(g.seed());
    double s = 0;
    const bool uneven = g.flip();
    factors.resize(k);
    for (auto &x : factors) s += x = uneven ? 1 + r.unit() * 2 : 1;
    for (auto &x : factors) x = x / s * (1 + slack);
    for (auto &x : factors) limits.push_back(std::ceil(x * tw));
  }
  if (how < 2) {
    limits.assign(k, (shm::BlockWeight)((1.0 + eps) * std::ceil(1.0 * tw / k)));
  }
  g.note(" | " + conf.name + " k=" + std::to_string(k) + " threads=" + std::to_string(threads) + " seed=" + std::to_string(seed) +
         (how == 0 ? " default-eps" : how == 1 ? " eps=" + std::to_string(eps) : how == 2 ? " limits" : " factors"));
  g.label("k:" + std::string(k > gr.n ? ">n" : k < 10 ? "2-9" : "10+"));
  g.label("threads:" + std::to_string(threads));
  g.label(how == 0 ? "balance:default" : how == 1 ? "balance:eps" : how == 2 ? "balance:limits" : "balance:factors");
  if (conf.compress) g.label("compressed-input");

  Arrays a(gr);
  const Arrays before = a;
  constexpr std::size_t GUARD = 64;
  constexpr BlockID CANARY = 0xdeadbeefu;
  std::vector<BlockID> part(gr.n + GUARD, CANARY);
  i64 cut;
  KaMinPar::reseed(seed);
  {
    KaMinPar p(threads, conf.ctx);
    p.set_output_level(OutputLevel::QUIET);
    if (conf.compress) {
      auto csr = to_csr(gr);
      p.set_graph(shm::Graph(std::make_unique<shm::CompressedGraph>(g.flip() ? shm::CompressedGraphBuilder::compress(csr) : shm::parallel_compress(csr))));
    } else if (g.flip()) {
      p.copy_graph(a.xadj, a.adjncy, a.vwgt, a.adjwgt);
    } else {
      p.borrow_and_mutate_graph(a.xadj, a.adjncy, a.vwgt, a.adjwgt);
    }
    std::span<BlockID> out(part.data(), gr.n);
    if (how == 0) cut = p.compute_partition(k, out);
    else if (how == 1) cut = p.compute_partition(k, eps, out);
    else if (how == 2) cut = p.compute_partition(given, out);
    else cut = p.compute_partition(factors, out);
  }
  g.nontrivial(gr.n >= 2 && k >= 2);
  for (u64 i = 0; i < GUARD; ++i) CHECK_MSG(part[gr.n + i] == CANARY, "overrun", "output written behind the last node at +" << i);
  std::vector<i64> bw(k, 0);
  for (u64 u = 0; u < gr.n; ++u) {
    CHECK_MSG(part[u] < k, "invalid-block", "node " << u << " got block " << part[u] << ", k=" << k);
    bw[part[u]] += gr.w(u);
  }
#if PROP == 2
  CHECK_EQ(cut, gr.cut(part), "cut", "reported cut vs. recomputed cut");
#endif
#if PROP == 3
  bool must = gr.vw.empty() || std::all_of(gr.vw.begin(), gr.vw.end(), [](i64 w) { return w == 1; });
  if (must) g.label("asserted:unit");
  if (!must) { // weighted: only with room for the heaviest node
    must = true;
    for (BlockID b = 0; b < k; ++b) must = must && limits[b] >= avg + gr.max_w();
    if (must) g.label("asserted:weighted-with-room");
  }
  if (must)
    for (BlockID b = 0; b < k; ++b) CHECK_MSG(bw[b] <= limits[b], "overload", "block " << b << " weighs " << bw[b] << " > limit " << limits[b] << " (total " << tw << ", k=" << k << ")");
#endif
}

int main(int argc, char **argv) {
  config().confirm_runs = 25;
  config().hang_s = 60;
  pbt::Runner r;
  return r.main(argc, argv);
}
