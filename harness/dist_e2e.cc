// D01: the distributed partitioner end to end
#include "distctx.h"

#include "kaminpar-dist/dkaminpar.h"

using namespace dist_pbt;

struct Call {
  u32 k = 2;
  int seed = 0;
};
struct E2ECase : DistCase {
  DistConf conf;
  std::vector<Call> calls;
  double eps = 0.03;
  bool spans = true;
  bool other_setting = false;
};
static void gen_calls(Gen &g, E2ECase &c) {
  const int n = g.weighted({4, 2, 1}) + 1;
  for (int i = 0; i < n; ++i) {
    Call x;
    x.k = g.weighted({6, 2, 1}) == 0 ? g.range(1, 9) : g.weighted({2, 1}) == 0 ? g.range(1, 64) : g.range(65, 300);
    x.seed = g.draw(1000000);
    c.calls.push_back(x);
    g.note(" k=" + std::to_string(x.k));
    g.label(x.k > 128 ? "k > 128" : x.k > 9 ? "k > 9" : "k <= 9");
  }
  c.eps = g.pick(std::vector<double>{0.03, 0.001, 0.1, 0.5, 0.0, 2.0});
  c.spans = !c.compressed && g.chance(2, 3);
  c.other_setting = g.chance(1, 10); // the setting does not have to match the graph
  g.note(" eps=" + std::to_string(c.eps) + (c.spans ? " spans " : " ") + c.conf.name);
  g.nontrivial(c.P > 1 && c.gr.n > 1);
}
static void gen_e2e(Gen &g, E2ECase &c) {
  DistOptions o;
  o.graph.max_n = g.chance(1, 10) ? 3000 : 400;
  o.graph.max_m = 6 * o.graph.max_n;
  o.max_p = 8;
  gen_dist_case(g, c, o);
  c.conf = gen_dist_conf(g, c.P);
  gen_calls(g, c);
}
static void gen_simple(Gen &g, E2ECase &c) { // presets as they are, unit weights
  DistOptions o;
  o.graph.max_n = g.chance(1, 10) ? 3000 : 400;
  o.graph.max_m = 6 * o.graph.max_n;
  o.graph.weights = false;
  o.max_p = 8;
  gen_dist_case(g, c, o);
  c.conf = gen_dist_conf(g, c.P, false);
  gen_calls(g, c);
}

static void run_case(const E2ECase &c, const Rank &rk, bool balance) {
  const G &gr = c.gr;
  Comm comm(c.comm);
  const u64 from = c.dist[rk.rank], to = c.dist[rk.rank + 1], n = to - from;
  kd::Context ctx = c.conf.ctx;
  ctx.partition.epsilon = c.eps;
  ctx.compression.enabled = c.compressed != c.other_setting;
  kaminpar::dKaMinPar p(comm.comm, c.threads, ctx);
  p.set_output_level(kaminpar::OutputLevel::QUIET);
  if (c.spans) {
    std::vector<kd::GlobalNodeID> vtxdist(c.dist.begin(), c.dist.end()), adj(gr.adj.begin() + gr.xadj[from], gr.adj.begin() + gr.xadj[to]);
    std::vector<kd::GlobalEdgeID> xadj;
    for (u64 u = from; u <= to; ++u) xadj.push_back(gr.xadj[u] - gr.xadj[from]);
    std::vector<kd::GlobalNodeWeight> vw;
    std::vector<kd::GlobalEdgeWeight> ew;
    if (!gr.vw.empty()) vw.assign(gr.vw.begin() + from, gr.vw.begin() + to);
    if (!gr.ew.empty()) ew.assign(gr.ew.begin() + gr.xadj[from], gr.ew.begin() + gr.xadj[to]);
    p.import_graph(vtxdist, xadj, adj, vw, ew);
  } else {
    p.import_graph(make_dist(gr, c.dist, c.compressed, rk.rank, comm.comm));
  }
  for (std::size_t i = 0; i < c.calls.size(); ++i) {
    const Call &x = c.calls[i];
    kaminpar::dKaMinPar::reseed(x.seed);
    constexpr u32 kGuard = 0xdeadbeef;
    std::vector<kd::BlockID> part(n + 16, kGuard);
    const i64 cut = p.compute_partition(x.k, part.data() + 8);
    for (int j = 0; j < 8; ++j) CHECK_MSG(part[j] == kGuard && part[n + 8 + j] == kGuard, "guard", "call " << i << " writes outside the array");
    std::vector<u32> own(part.begin() + 8, part.begin() + 8 + n), all;
    for (u64 u = 0; u < n; ++u) CHECK_MSG(own[u] < x.k, "valid", "call " << i << ": node " << from + u << " is in block " << own[u] << " of " << x.k);
    for (auto &v : rk.all(own)) all.insert(all.end(), v.begin(), v.end());
    i64 exp = 0;
    std::vector<i64> w(x.k, 0);
    for (u64 u = 0; u < gr.n; ++u) {
      w[all[u]] += gr.w(u);
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e)
        if (all[u] != all[gr.adj[e]]) exp += gr.we(e);
    }
    CHECK_EQ(cut, exp / 2, "cut", "call " << i << ": cut");
    if (!balance || gr.total_w() != (i64)gr.n) continue;
    const i64 avg = (gr.n + x.k - 1) / x.k;
    const i64 limit = (i64)((1.0 + c.eps) * avg + 1e-9);
    const i64 max = *std::max_element(w.begin(), w.end());
    CHECK_MSG(max <= limit, "balance", "call " << i << ": a block weighs " << max << ", the limit for k=" << x.k << " is " << limit);
  }
}
DIST_TEST(presets, 2, E2ECase, gen_simple) { run_case(c, rk, true); }
DIST_TEST(options, 3, E2ECase, gen_e2e) { run_case(c, rk, false); }

static void gen_large(Gen &g, E2ECase &c) { // the weights of a process fit into 32 bits, those of the graph do not
  DistOptions o;
  o.graph.max_n = 120;
  o.graph.max_m = 150;
  o.graph.weights = false;
  o.max_p = 8;
  gen_dist_case(g, c, o);
  if (c.P < 3 || c.gr.m() < 20) g.reject();
  u64 most = 1;
  for (int p = 0; p < c.P; ++p) most = std::max(most, c.gr.xadj[c.dist[p + 1]] - c.gr.xadj[c.dist[p]]);
  c.gr.ew.assign(c.gr.m(), 2000000000 / most);
  c.conf = gen_dist_conf(g, c.P, false);
  c.conf.ctx.coarsening.contraction_limit = 2000; // merged edges have to fit into 32 bits, too
  c.conf.name += ",C=2000";
  gen_calls(g, c);
  g.label(c.gr.total_we() > 8000000000ll ? "total edge weight > 2^32" : "total edge weight < 2^32");
}
DIST_TEST(large_cuts, 1, E2ECase, gen_large) { run_case(c, rk, true); }

int main(int argc, char **argv) { return dist_main(argc, argv); }
