// K04 (reproducibility) and K05 (representation / history equivalence); PROP selects.
#include "ctxgen.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

using namespace pbt;
using namespace kaminpar;
using kaminpar::shm::BlockID;

static bool thorough() { return std::string(getenv("PBT_TIER") ? getenv("PBT_TIER") : "quick") == "thorough"; }

struct Request { // one partitioning call
  int how = 0;
  BlockID k = 2;
  double eps = 0.03;
  std::vector<shm::BlockWeight> limits;
  std::vector<double> factors;
  std::string str() const { return "k=" + std::to_string(k) + (how == 0 ? "" : how == 1 ? ",eps=" + std::to_string(eps) : how == 2 ? ",limits" : ",factors"); }
  i64 run(KaMinPar &p, u64 n, std::vector<BlockID> &part) const {
    part.assign(n, 0xdeadbeefu);
    std::span<BlockID> out(part);
    switch (how) {
    case 0: return p.compute_partition(k, out);
    case 1: return p.compute_partition(k, eps, out);
    case 2: return p.compute_partition(limits, out);
    default: return p.compute_partition(factors, out);
    }
  }
};

static Request gen_request(Gen &g, const G &gr, const Conf &conf) {
  Request r;
  r.k = g.weighted({3, 1}) == 0 ? g.range(2, 9) : g.range(10, 60);
  if (conf.ctx.partitioning.mode == shm::PartitioningMode::RB) r.k = std::bit_floor(r.k);
  r.how = g.weighted({4, 3, 2, 1});
  if (r.how == 1) r.eps = g.pick({0.03, 0.001, 0.1, 0.5, 2.0});
  Rng x(r.how >= 2 ? g.seed() : 0);
  const i64 tw = gr.total_w();
  for (BlockID b = 0; r.how == 2 && b < r.k; ++b) r.limits.push_back(std::ceil(tw * (1.05 + x.unit()) / r.k) + 1);
  for (BlockID b = 0; r.how == 3 && b < r.k; ++b) r.factors.push_back((1.05 + x.unit()) / r.k);
  return r;
}

static void set_graph(KaMinPar &p, const G &gr, Arrays &a, int mode) {
  switch (mode) {
  case 0: p.copy_graph(a.xadj, a.adjncy, a.vwgt, a.adjwgt); break;
  case 1: p.borrow_and_mutate_graph(a.xadj, a.adjncy, a.vwgt, a.adjwgt); break;
  case 2: p.set_graph(to_graph(gr)); break;
  case 3: p.set_graph(shm::Graph(std::make_unique<shm::CompressedGraph>(shm::CompressedGraphBuilder::compress(to_csr(gr))))); break;
  case 4: p.set_graph(shm::Graph(std::make_unique<shm::CompressedGraph>(shm::parallel_compress(to_csr(gr))))); break;
  }
}
static const char *MODE[] = {"copy", "borrow", "set", "compressed", "parallel-compressed"};

static void silence() {
  static bool once = [] { return freopen("/dev/null", "w", stdout) != nullptr; }();
  (void)once;
}

static std::string first_diff(const std::vector<BlockID> &a, const std::vector<BlockID> &b) {
  u64 d = 0, at = 0;
  for (u64 u = 0; u < a.size(); ++u)
    if (a[u] != b[u] && d++ == 0) at = u;
  return std::to_string(d) + " nodes differ, first " + std::to_string(at) + ": " + std::to_string(d ? a[at] : 0) + " vs " + std::to_string(d ? b[at] : 0);
}

static GraphOptions graph_options() {
  GraphOptions o;
  o.max_n = thorough() ? 10000 : 1500;
  o.max_m = 8 * o.max_n;
  return o;
}

#if PROP == 4
PBT_TEST(reproducible, 10) {
  silence();
  GraphOptions o = graph_options();
  G gr = gen_graph(g, o);
  label_graph(g, gr);
  g.note(gr.str());
  Conf conf = gen_conf(g);
  const Request req = gen_request(g, gr, conf);
  gen_vcycles(g, conf, req.k);
  const int seed = g.draw(1000);
  g.note(" | " + conf.name + " " + req.str() + " seed=" + std::to_string(seed));
  const int mode = conf.compress ? 3 : g.draw(3);
  auto run = [&](KaMinPar &p, std::vector<BlockID> &part) {
    Arrays a(gr);
    KaMinPar::reseed(seed);
    set_graph(p, gr, a, mode);
    return req.run(p, gr.n, part);
  };
  std::vector<BlockID> first, second;
  i64 cut1, cut2;
  KaMinPar p1(1, conf.ctx);
  p1.set_output_level(OutputLevel::QUIET);
  cut1 = run(p1, first);
  // anything may happen in between
  const int between = g.draw(4);
  for (int i = 0; i < between; ++i) {
    GraphOptions o2 = graph_options();
    o2.max_n = 400;
    G other = gen_graph(g, o2);
    Conf c2 = gen_conf(g);
    KaMinPar p2(g.pick({1, 1, 4}), c2.ctx);
    p2.set_output_level(OutputLevel::QUIET);
    Arrays b(other);
    std::vector<BlockID> part;
    set_graph(p2, other, b, c2.compress ? 3 : 0);
    KaMinPar::reseed(g.draw(5));
    gen_request(g, other, c2).run(p2, other.n, part);
    g.note(" ; then " + c2.name);
  }
  g.label("between:" + std::to_string(between));
  const int obj = g.draw(3);
  if (obj == 0) { // fresh object
    KaMinPar p3(1, conf.ctx);
    p3.set_output_level(OutputLevel::QUIET);
    cut2 = run(p3, second);
  } else if (obj == 1) { // fresh, other verbosity
    Logger::set_quiet_mode(false);
    KaMinPar p3(1, conf.ctx);
    p3.set_output_level(g.pick({OutputLevel::PROGRESS, OutputLevel::APPLICATION, OutputLevel::EXPERIMENT, OutputLevel::DEBUG}));
    cut2 = run(p3, second);
    g.label("verbose");
  } else {
    cut2 = run(p1, second);
    g.label("same-object");
  }
  g.note(obj == 0 ? " fresh" : obj == 1 ? " verbose" : " same object");
  g.nontrivial(gr.n >= 3 && gr.m() >= 2);
  CHECK_MSG(first == second, "not-reproducible", first_diff(first, second));
  CHECK_EQ(cut2, cut1, "cut-not-reproducible", "cut of the repetition");
}
#else
static void check_same_graph(const G &gr, const Arrays &a) {
  CHECK_MSG(std::equal(a.xadj.begin(), a.xadj.end(), gr.xadj.begin(), gr.xadj.end()), "borrowed-xadj", "offsets changed");
  CHECK_MSG(std::equal(a.vwgt.begin(), a.vwgt.end(), gr.vw.begin(), gr.vw.end()), "borrowed-vwgt", "node weights changed");
  for (u64 u = 0; u < gr.n; ++u) {
    std::multiset<std::pair<i64, i64>> x, y;
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
      x.insert({(i64)gr.adj[e], gr.we(e)});
      y.insert({(i64)a.adjncy[e], a.adjwgt.empty() ? 1 : (i64)a.adjwgt[e]});
    }
    CHECK_MSG(x == y, "borrowed-adjacency", "neighbourhood of " << u << " changed");
  }
}

PBT_TEST(representation, 10) {
  GraphOptions o = graph_options();
  G gr = gen_graph(g, o);
  label_graph(g, gr);
  g.note(gr.str());
  Conf conf = gen_conf(g);
  const Request req = gen_request(g, gr, conf);
  gen_vcycles(g, conf, req.k);
  const int seed = g.draw(1000);
  g.note(" | " + conf.name + " " + req.str() + " seed=" + std::to_string(seed));
  g.nontrivial(gr.n >= 3 && gr.m() >= 2);
  std::vector<BlockID> ref;
  i64 ref_cut = 0;
  bool have = false;
  const Arrays pristine(gr);
  auto attempt = [&](const G &x, int mode, const std::string &what) {
    Arrays a(x);
    KaMinPar::reseed(seed);
    KaMinPar p(1, conf.ctx);
    p.set_output_level(OutputLevel::QUIET);
    set_graph(p, x, a, mode);
    std::vector<BlockID> part;
    const i64 cut = req.run(p, x.n, part);
    if (mode == 1) check_same_graph(x, a);
    else CHECK_MSG(a == Arrays(x), "input-modified", what << " modified the caller's arrays");
    if (!have) {
      ref = part;
      ref_cut = cut;
      have = true;
    } else {
      CHECK_MSG(part == ref, "differs:" + what, what << ": " << first_diff(part, ref));
      CHECK_EQ(cut, ref_cut, "cut-differs", what);
    }
  };
  std::vector<G> forms = {gr};
  if (gr.vw.empty() && gr.n > 0) {
    G x = gr;
    x.vw.assign(x.n, 1);
    forms.push_back(x);
  }
  if (gr.ew.empty() && gr.m() > 0) {
    G x = forms.back();
    x.ew.assign(x.m(), 1);
    forms.push_back(x);
    x.vw = gr.vw;
    forms.push_back(x);
  }
  for (u64 f = 0; f < forms.size(); ++f)
    for (int mode = conf.compress ? 3 : 0; mode < (conf.compress ? 5 : 3); ++mode) {
      if (f > 0 && !g.flip()) continue;
      attempt(forms[f], mode, std::string(MODE[mode]) + (f ? "/explicit-ones" : ""));
    }
}

PBT_TEST(history, 6) {
  silence();
  Conf conf = gen_conf(g);
  const u64 ng = g.range(1, 3);
  std::vector<G> gs;
  for (u64 i = 0; i < ng; ++i) {
    GraphOptions o = graph_options();
    gs.push_back(gen_graph(g, o));
    g.note((i ? " ## " : "") + gs.back().str());
  }
  g.note(" | " + conf.name);
  KaMinPar::reseed(0);
  KaMinPar p(1, conf.ctx);
  p.set_output_level(OutputLevel::QUIET);
  std::unique_ptr<Arrays> cur;
  u64 gi = 0;
  int mode = 0;
  const u64 steps = g.range(2, 6);
  for (u64 s = 0; s < steps; ++s) {
    if (s == 0 || g.chance(1, 3)) {
      gi = g.draw(ng);
      mode = conf.compress ? 3 + g.draw(2) : g.draw(3);
      auto next = std::make_unique<Arrays>(gs[gi]);
      set_graph(p, gs[gi], *next, mode);
      cur = std::move(next);
      g.note(" set" + std::to_string(gi) + MODE[mode]);
    }
    const G &gr = gs[gi];
    const Request req = gen_request(g, gr, conf);
    const int seed = g.draw(100);
    if (g.chance(1, 5)) {
      p.set_output_level(g.pick({OutputLevel::QUIET, OutputLevel::PROGRESS, OutputLevel::EXPERIMENT}));
      g.note(" verbosity");
    }
    g.note(" " + req.str() + ",seed=" + std::to_string(seed));
    std::vector<BlockID> got, want;
    KaMinPar::reseed(seed);
    const i64 c1 = req.run(p, gr.n, got);
    Arrays b(gr);
    KaMinPar::reseed(seed);
    KaMinPar q(1, conf.ctx);
    q.set_output_level(OutputLevel::QUIET);
    set_graph(q, gr, b, mode);
    const i64 c2 = req.run(q, gr.n, want);
    CHECK_MSG(got == want, "history-dependent", "step " << s << " (" << req.str() << "): " << first_diff(got, want));
    CHECK_EQ(c1, c2, "history-dependent-cut", "step " << s);
    if (gr.n >= 3 && s > 0) g.nontrivial();
  }
  if (mode == 1) check_same_graph(gs[gi], *cur);
}
#endif

int main(int argc, char **argv) {
  config().hang_s = 40;
  pbt::Runner r;
  return r.main(argc, argv);
}
