// D03: contraction of distributed graphs, projection. D07: distributed clusterings, colourings, independent sets, border nodes.
#include "distctx.h"

#include "kaminpar-dist/algorithms/border_nodes.h"
#include "kaminpar-dist/algorithms/greedy_node_coloring.h"
#include "kaminpar-dist/algorithms/independent_set.h"
#include "kaminpar-dist/coarsening/clusterer.h"
#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/factories.h"

using namespace dist_pbt;
using kd::GlobalNodeID;

// The contracted graph, with coarse node c[u] for node u
static G contract_ref(const G &g, const std::vector<u64> &c, u64 c_n) {
  std::map<std::pair<u64, u64>, i64> ew;
  G r;
  r.vw.assign(c_n, 0);
  for (u64 u = 0; u < g.n; ++u) {
    r.vw[c[u]] += g.w(u);
    for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (c[u] < c[g.adj[e]]) ew[{c[u], c[g.adj[e]]}] += g.we(e);
  }
  std::vector<std::pair<u64, u64>> edges;
  std::vector<i64> w;
  for (auto &[e, x] : ew) edges.push_back(e), w.push_back(x);
  std::vector<i64> vw = r.vw;
  r = from_edges(c_n, edges, &w, nullptr);
  r.vw = vw;
  r.family = "contracted";
  return r;
}
#if PART == 1
static std::vector<u64> components(const G &g) {
  std::vector<u64> c(g.n, ~0ull), st;
  for (u64 s = 0; s < g.n; ++s) {
    if (c[s] != ~0ull) continue;
    c[s] = s;
    st.push_back(s);
    while (!st.empty()) {
      const u64 u = st.back();
      st.pop_back();
      for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
        if (c[g.adj[e]] == ~0ull) c[g.adj[e]] = s, st.push_back(g.adj[e]);
    }
  }
  return c;
}

#endif
struct Level {
  int style = 0;
  u64 seed = 0;
  double imbalance = 1e9;
  bool prefix = false, perfect = false;
};
#if PART == 2
static const char *style_names[] = {"random", "matching", "one cluster", "singletons", "own range", "neighbour's id", "one process", "few clusters", "shuffled singletons", "stars"};
static std::vector<u64> make_clustering(const G &g, const std::vector<u64> &dist, int P, const Level &l) {
  std::vector<u64> c(g.n);
  Rng r(l.seed);
  if (g.n == 0) return c;
  switch (l.style) {
  case 0: for (u64 &x : c) x = r.below(g.n); break;
  case 1: { // pairs of neighbours, called by any of both or by anything unused
    std::vector<char> used(g.n, 0);
    for (u64 u = 0; u < g.n; ++u) c[u] = u;
    for (u64 u = 0; u < g.n; ++u) {
      if (used[u]) continue;
      for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
        if (!used[g.adj[e]]) {
          used[u] = used[g.adj[e]] = 1;
          c[u] = c[g.adj[e]] = r.chance(1, 2) ? u : g.adj[e];
          break;
        }
    }
    break;
  }
  case 2: { const u64 x = r.below(g.n); for (u64 &y : c) y = x; break; }
  case 3: for (u64 u = 0; u < g.n; ++u) c[u] = u; break;
  case 4: for (u64 u = 0; u < g.n; ++u) { const int p = owner_of(dist, u); c[u] = dist[p] + r.below(dist[p + 1] - dist[p]); } break;
  case 5: for (u64 u = 0; u < g.n; ++u) c[u] = g.deg(u) == 0 || r.chance(1, 4) ? u : g.adj[g.xadj[u] + r.below(g.deg(u))]; break;
  case 6: { // all ids belong to one process
    const int p = owner_of(dist, r.below(g.n));
    const u64 k = 1 + r.below(dist[p + 1] - dist[p]);
    for (u64 &x : c) x = dist[p] + r.below(k);
    break;
  }
  case 7: { const u64 k = 1 + r.below(std::min<u64>(g.n, 8)), s = r.below(g.n); for (u64 &x : c) x = (s + r.below(k) * 7) % g.n; break; }
  case 8: for (u64 u = 0; u < g.n; ++u) c[u] = u; r.shuffle(c); break;
  case 9: { // everything near a hub joins it
    for (u64 u = 0; u < g.n; ++u) c[u] = u;
    for (u64 i = 0; i < g.n / 5 + 1; ++i) {
      const u64 h = r.below(g.n);
      for (u64 e = g.xadj[h]; e < g.xadj[h + 1]; ++e) c[g.adj[e]] = h;
      c[h] = h;
    }
    break;
  }
  }
  (void)P;
  return c;
}
struct ContractCase : DistCase {
  std::vector<Level> levels;
};
static void gen_contract(Gen &g, ContractCase &c) {
  DistOptions o;
  o.graph.max_n = 500;
  o.graph.max_m = 4000;
  o.max_p = 8;
  gen_dist_case(g, c, o);
  const int n = 1 + g.weighted({4, 3, 2});
  bool shrinks = false;
  for (int i = 0; i < n; ++i) {
    Level l;
    l.style = g.weighted({3, 4, 1, 1, 3, 4, 3, 1, 1, 2});
    l.seed = g.seed();
    l.imbalance = g.pick(std::vector<double>{1e9, 1.1, 1.0, 1.5, 3.0});
    l.prefix = g.flip();
    l.perfect = g.flip();
    c.levels.push_back(l);
    g.label(std::string("clustering:") + style_names[l.style]);
    g.note(" " + std::string(style_names[l.style]) + " imbalance=" + std::to_string(l.imbalance).substr(0, 5) + (l.prefix ? " prefix" : " suffix") + (l.perfect ? " perfect" : ""));
    shrinks |= l.style != 3 && l.style != 8;
  }
  g.nontrivial(c.P > 1 && c.gr.m() > 0 && shrinks);
}

#endif
// coarse graph of g under the clustering, found out through projection; checks it
struct Contracted {
  std::unique_ptr<kd::CoarseGraph> cg;
  G g;
  std::vector<u64> dist, coarse_of;
};
static Contracted contract_and_check(const kd::DistributedGraph &dg, const G &g, const std::vector<u64> &dist, const std::vector<u64> &clu, const Rank &rk, const Level *l) {
  Contracted r;
  StaticArray<GlobalNodeID> clustering(dg.total_n());
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) clustering[u] = clu[dg.local_to_global_node(u)];
  if (l) r.cg = kd::contract_clustering(dg, clustering, l->imbalance, l->prefix, l->perfect);
  else r.cg = kd::contract_clustering(dg, clustering);
  const kd::DistributedGraph &cd = r.cg->get();
  r.dist.assign(cd.node_distribution().begin(), cd.node_distribution().end());
  CHECK_EQ(r.dist.size(), (std::size_t)rk.size + 1, "distribution", "processes");
  for (auto &d : rk.all(r.dist)) CHECK_MSG(d == r.dist, "distribution", "node distributions of the coarse graph differ");
  CHECK_MSG(r.dist[0] == 0 && std::is_sorted(r.dist.begin(), r.dist.end()), "distribution", "not sorted");
  std::set<u64> used(clu.begin(), clu.end());
  CHECK_EQ(r.dist.back(), (u64)used.size(), "clusters", "number of coarse nodes");
  CHECK_EQ((u64)cd.n(), r.dist[rk.rank + 1] - r.dist[rk.rank], "distribution", "own coarse nodes");
  // which coarse node is which cluster
  StaticArray<kd::BlockID> cp(cd.total_n()), fp(dg.total_n());
  for (kd::NodeID u = 0; u < cd.total_n(); ++u) cp[u] = cd.local_to_global_node(u);
  for (auto &x : fp) x = ~0u;
  r.cg->project(cp, fp);
  std::vector<u64> own(fp.begin(), fp.begin() + dg.n());
  for (auto &v : rk.all(own)) r.coarse_of.insert(r.coarse_of.end(), v.begin(), v.end());
  CHECK_EQ(r.coarse_of.size(), g.n, "projection", "nodes");
  std::map<u64, u64> to, from;
  for (u64 u = 0; u < g.n; ++u) {
    CHECK_MSG(r.coarse_of[u] < r.dist.back(), "projection", "node " << u << " belongs to coarse node " << r.coarse_of[u] << " of " << r.dist.back());
    auto [i, n1] = to.insert({clu[u], r.coarse_of[u]});
    CHECK_EQ(i->second, r.coarse_of[u], "clusters", "coarse node of node " << u << ", cluster " << clu[u]);
    auto [j, n2] = from.insert({r.coarse_of[u], clu[u]});
    CHECK_EQ(j->second, clu[u], "clusters", "clusters of coarse node " << r.coarse_of[u]);
  }
  for (kd::NodeID u = dg.n(); u < dg.total_n(); ++u) CHECK_EQ((u64)fp[u], r.coarse_of[dg.local_to_global_node(u)], "projection", "ghost node " << dg.local_to_global_node(u));
  r.g = contract_ref(g, r.coarse_of, r.dist.back());
  check_dist_graph(cd, r.g, r.dist, rk, false);
  // any other labels
  Rng lr(g.n * 31 + 7);
  const u64 salt = lr.next();
  auto label = [&](u64 cu) { return (u32)(mix(cu ^ salt) % 0xFFFFFFFFull); };
  for (kd::NodeID u = 0; u < cd.total_n(); ++u) cp[u] = label(cd.local_to_global_node(u));
  r.cg->project(cp, fp);
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) CHECK_EQ(fp[u], label(r.coarse_of[dg.local_to_global_node(u)]), "projection", "label of node " << dg.local_to_global_node(u));
  // placement
  std::vector<u64> natural(rk.size, 0);
  for (u64 x : used) ++natural[owner_of(dist, x)];
  const u64 c_n = used.size();
  u64 nmax = 0, cmax = 0;
  bool room = true;
  for (int p = 0; p < rk.size; ++p) {
    nmax = std::max(nmax, natural[p]);
    cmax = std::max(cmax, r.dist[p + 1] - r.dist[p]);
    room = room && dist[p + 1] - dist[p] >= (c_n + rk.size - 1) / rk.size + 1;
  }
  const double max = l ? l->imbalance : 1e18;
  if (c_n > 0 && 1.0 * nmax * rk.size / c_n <= max) {
    for (int p = 0; p < rk.size; ++p) CHECK_EQ(r.dist[p + 1] - r.dist[p], natural[p], "placement", "coarse nodes of process " << p << " although the placement was balanced");
  } else if (room && c_n > 0) {
    const double imb = l->perfect ? 1.0 : max;
    const u64 want = std::max<u64>((u64)(imb * std::max<u64>(1, c_n / rk.size)), (c_n + rk.size - 1) / rk.size);
    CHECK_MSG(cmax <= want, "placement", "a process got " << cmax << " of " << c_n << " coarse nodes, at most " << want << " are allowed; naturally " << nmax);
  } else {
    CHECK_MSG(cmax <= nmax, "placement", "balancing the coarse nodes raised the maximum from " << nmax << " to " << cmax);
  }
  return r;
}
#if PART == 2
DIST_TEST(contract, 4, ContractCase, gen_contract) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  G g = c.gr;
  std::vector<u64> dist = c.dist;
  std::vector<Contracted> hierarchy;
  const kd::DistributedGraph *cur = &dg;
  for (const Level &l : c.levels) {
    hierarchy.push_back(contract_and_check(*cur, g, dist, make_clustering(g, dist, c.P, l), rk, &l));
    cur = &hierarchy.back().cg->get();
    g = hierarchy.back().g;
    dist = hierarchy.back().dist;
  }
  // a partition of the coarsest graph through all levels: cut and weights stay
  const u32 k = 4;
  std::vector<u64> map(c.gr.n);
  for (u64 u = 0; u < c.gr.n; ++u) {
    map[u] = u;
    for (auto &h : hierarchy) map[u] = h.coarse_of[map[u]];
  }
  StaticArray<kd::BlockID> p(cur->total_n());
  for (kd::NodeID u = 0; u < cur->total_n(); ++u) p[u] = mix(cur->local_to_global_node(u)) % k;
  for (int i = (int)hierarchy.size() - 1; i >= 0; --i) {
    const kd::DistributedGraph &fine = i == 0 ? dg : hierarchy[i - 1].cg->get();
    StaticArray<kd::BlockID> q(fine.total_n());
    hierarchy[i].cg->project(p, q);
    p = std::move(q);
  }
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) CHECK_EQ((u64)p[u], mix(map[dg.local_to_global_node(u)]) % k, "projection", "block of node " << dg.local_to_global_node(u) << " after " << hierarchy.size() << " levels");
}

#endif
//
// D07
//
#if PART == 1
struct ClusterCase : DistCase {
  kd::Context ctx = kd::create_default_context();
  kd::ClusteringAlgorithm algo = kd::ClusteringAlgorithm::GLOBAL_LP;
  std::vector<i64> limit; // per level
  std::vector<Level> levels;
  u32 communities = 0;
  u64 reseed = 0;
};
static void gen_cluster(Gen &g, ClusterCase &c) {
  using A = kd::ClusteringAlgorithm;
  DistOptions o;
  o.graph.max_n = 400;
  o.graph.max_m = 3000;
  o.max_p = 6;
  gen_dist_case(g, c, o);
  c.ctx = kd::create_context_by_preset_name(g.pick(std::vector<std::string>{"default", "europar23-fast"}));
  c.algo = g.pick(std::vector<A>{A::GLOBAL_LP, A::GLOBAL_LP, A::GLOBAL_HEM, A::GLOBAL_HEM_LP, A::LOCAL_LP, A::GLOBAL_NOOP});
  static const char *names[] = {"noop", "lp", "hem", "hem+lp", "local noop", "local lp"};
  const char *an = c.algo == A::GLOBAL_LP ? names[1] : c.algo == A::GLOBAL_HEM ? names[2] : c.algo == A::GLOBAL_HEM_LP ? names[3] : c.algo == A::LOCAL_LP ? names[5] : names[0];
  g.label(std::string("clusterer:") + an);
  std::string name = an;
  for (int i = g.weighted({3, 3, 2, 1}); i > 0; --i) gen_lp_coarsening(g, c.ctx.coarsening.global_lp, name);
  if (g.chance(1, 3)) {
    c.ctx.coarsening.global_lp.enforce_cluster_weights = false;
    name += ",unenforced";
  }
  if (g.chance(3, 4)) c.ctx.coarsening.global_lp.chunks.fixed_num_chunks = g.range(1, 6);
  if (c.algo == A::LOCAL_LP) {
    auto &l = c.ctx.coarsening.local_lp;
    l.num_iterations = g.range(1, 6);
    if (g.chance(1, 4)) l.active_high_degree_threshold = g.pick(std::vector<int>{1, 3, 20});
    if (g.chance(1, 4)) l.max_num_neighbors = g.pick(std::vector<int>{1, 3, 10});
    if (g.chance(1, 3)) c.communities = g.range(2, 6);
  }
  c.ctx.coarsening.hem.small_color_blacklist = g.pick(std::vector<double>{0.0, 0.0, 0.3});
  c.ctx.coarsening.hem.only_blacklist_input_level = g.flip();
  gen_chunks(g, c.ctx.coarsening.hem.chunks);
  const int n = c.algo == A::LOCAL_LP ? 1 + g.weighted({3, 1}) : 1 + g.weighted({3, 3, 2});
  const i64 tw = c.gr.total_w(), mw = c.gr.max_w();
  for (int i = 0; i < n; ++i) {
    i64 l = 1;
    switch (g.weighted({3, 3, 1, 1, 2})) {
    case 0: l = mw * g.range(1, 6); break;
    case 1: l = std::max<i64>(1, tw / g.range(1, 30)); break;
    case 2: l = tw; break;
    case 3: l = 1; break;
    case 4: l = g.range(1, 2 * std::max<i64>(mw, 1)); break;
    }
    c.limit.push_back(std::max<i64>(1, std::min<i64>(l, 2000000000)));
    Level lv;
    lv.imbalance = g.pick(std::vector<double>{1e9, 1.1});
    lv.prefix = g.flip();
    lv.perfect = g.flip();
    c.levels.push_back(lv);
    name += " max=" + std::to_string(c.limit.back());
  }
  c.reseed = g.draw(1000);
  g.note(name);
  g.nontrivial(c.gr.m() > 0);
}
static void fill_ctx(kd::Context &ctx, const kd::DistributedGraph &dg, int P, int threads) {
  ctx.parallel.num_mpis = P;
  ctx.parallel.num_threads = threads;
  ctx.partition.k = 2;
  ctx.partition.epsilon = 0.03;
  ctx.partition.graph = std::make_unique<kd::GraphContext>(dg, ctx.partition);
}
DIST_TEST(cluster, 5, ClusterCase, gen_cluster) {
  using A = kd::ClusteringAlgorithm;
  Comm comm(c.comm);
  kaminpar::Random::reseed(c.reseed);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  kd::Context ctx = c.ctx;
  fill_ctx(ctx, dg, c.P, c.threads);
  auto clusterer = kd::factory::create_clusterer(ctx, c.algo);
  G g = c.gr;
  std::vector<u64> dist = c.dist;
  std::vector<std::unique_ptr<Contracted>> hierarchy;
  const kd::DistributedGraph *cur = &dg;
  for (std::size_t i = 0; i < c.levels.size(); ++i) {
    const i64 max = c.limit[i];
    const std::string when = "level " + std::to_string(i) + ": ";
    clusterer->set_max_cluster_weight(max);
    std::vector<u64> clu;
    const bool local = c.algo == A::LOCAL_LP;
    StaticArray<GlobalNodeID> clustering(cur->total_n());
    StaticArray<kd::BlockID> comms;
    if (c.communities) {
      comms.resize(cur->total_n());
      for (kd::NodeID u = 0; u < cur->total_n(); ++u) comms[u] = mix(cur->local_to_global_node(u)) % c.communities;
      clusterer->set_communities(comms);
    }
    clusterer->cluster(clustering, *cur);
    if (local) {
      const kd::NodeID *lc = reinterpret_cast<const kd::NodeID *>(clustering.data());
      std::vector<u64> own;
      for (kd::NodeID u = 0; u < cur->n(); ++u) {
        CHECK_MSG(lc[u] < cur->n(), "ids", when << "node " << u << " is in cluster " << lc[u] << " of " << cur->n());
        own.push_back(cur->offset_n() + lc[u]);
      }
      for (auto &v : rk.all(own)) clu.insert(clu.end(), v.begin(), v.end());
    } else {
      std::vector<u64> own;
      for (kd::NodeID u = 0; u < cur->n(); ++u) {
        CHECK_MSG(clustering[u] < g.n, "ids", when << "node " << cur->local_to_global_node(u) << " is in cluster " << clustering[u] << " of " << g.n);
        own.push_back(clustering[u]);
      }
      for (auto &v : rk.all(own)) clu.insert(clu.end(), v.begin(), v.end());
      for (kd::NodeID u = cur->n(); u < cur->total_n(); ++u)
        CHECK_EQ((u64)clustering[u], clu[cur->local_to_global_node(u)], "ghost", when << "cluster of ghost node " << cur->local_to_global_node(u));
    }
    std::map<u64, i64> w;
    std::map<u64, std::vector<u64>> members;
    for (u64 u = 0; u < g.n; ++u) w[clu[u]] += g.w(u), members[clu[u]].push_back(u);
    const std::vector<u64> comp = components(g);
    const i64 slack = (c.threads - 1) * g.max_w();
    for (auto &[id, m] : members) {
      if (m.size() < 2) continue;
      bool iso = true, same = true;
      for (u64 u : m) iso = iso && g.deg(u) == 0, same = same && comp[u] == comp[m[0]];
      CHECK_MSG(iso || same, "component", when << "cluster " << id << " holds unconnected nodes " << m[0] << ", ...");
      if (c.communities)
        for (u64 u : m) CHECK_EQ(mix(u) % c.communities, mix(m[0]) % c.communities, "community", when << "node " << u << " of cluster " << id);
      i64 bound = max;
      if (c.algo != A::GLOBAL_HEM) bound += slack;
      if (c.P > 1 && (c.algo == A::GLOBAL_LP || c.algo == A::GLOBAL_HEM_LP)) { // processes fill a cluster independently of each other
        CHECK_MSG(w[id] <= 2 * c.P * bound, "weight", when << "cluster " << id << " of " << m.size() << " nodes weighs " << w[id] << ", maximum " << max);
        if (ctx.coarsening.global_lp.enforce_cluster_weights) continue; // moves nodes back wherever they came from
        std::map<int, std::pair<int, i64>> share;
        for (u64 u : m) {
          auto &x = share[owner_of(dist, u)];
          ++x.first, x.second += g.w(u);
        }
        for (auto &[p, x] : share)
          if (x.first > 1) CHECK_MSG(x.second <= bound, "weight", when << "the " << x.first << " nodes of process " << p << " in cluster " << id << " weigh " << x.second << ", maximum " << max);
      } else {
        CHECK_MSG(w[id] <= bound, "weight", when << "cluster " << id << " of " << m.size() << " nodes weighs " << w[id] << ", maximum " << max);
      }
      if (c.algo == A::GLOBAL_HEM) {
        CHECK_MSG(m.size() == 2, "matching", when << m.size() << " matched nodes");
        bool adjacent = false;
        for (u64 e = g.xadj[m[0]]; e < g.xadj[m[0] + 1]; ++e) adjacent |= g.adj[e] == m[1];
        CHECK_MSG(adjacent, "matching", when << "nodes " << m[0] << " and " << m[1] << " are matched");
      }
      CHECK_MSG(c.algo != A::GLOBAL_NOOP, "noop", when << "a cluster of several nodes");
    }
    auto h = std::make_unique<Contracted>(contract_and_check(*cur, g, dist, clu, rk, &c.levels[i]));
    hierarchy.push_back(std::move(h));
    cur = &hierarchy.back()->cg->get();
    g = hierarchy.back()->g;
    dist = hierarchy.back()->dist;
  }
}

struct SelectCase : DistCase {
  u32 k = 2, supersteps = 1;
  std::vector<u32> part;
  int iseed = 0;
};
static void gen_select(Gen &g, SelectCase &c) {
  DistOptions o;
  o.graph.max_n = 400;
  o.graph.max_m = 4000;
  o.max_p = 8;
  gen_dist_case(g, c, o);
  c.k = g.range(1, 10);
  c.supersteps = g.weighted({1, 1}) ? g.range(1, 5) : g.range(1, 60);
  c.part = gen_partition(g, c.gr, c.k);
  c.iseed = g.draw(100000);
  g.note(" k=" + std::to_string(c.k) + " supersteps=" + std::to_string(c.supersteps));
  g.nontrivial(c.gr.m() > 0);
}
DIST_TEST(coloring, 3, SelectCase, gen_select) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  const auto col = dg.reified([&](const auto &g) { return kd::compute_node_coloring_sequentially(g, c.supersteps); });
  CHECK_EQ((u64)col.size(), (u64)dg.total_n(), "colours", "entries");
  std::vector<u64> own(col.begin(), col.begin() + dg.n()), all;
  for (auto &v : rk.all(own)) all.insert(all.end(), v.begin(), v.end());
  for (kd::NodeID u = dg.n(); u < dg.total_n(); ++u) CHECK_EQ((u64)col[u], all[dg.local_to_global_node(u)], "ghost", "colour of ghost node " << dg.local_to_global_node(u));
  for (u64 u = 0; u < c.gr.n; ++u) {
    CHECK_MSG(all[u] <= c.gr.max_deg(), "colours", "colour " << all[u] << ", but the largest degree is " << c.gr.max_deg());
    for (u64 e = c.gr.xadj[u]; e < c.gr.xadj[u + 1]; ++e) CHECK_MSG(all[u] != all[c.gr.adj[e]], "proper", "neighbours " << u << " and " << c.gr.adj[e] << " have colour " << all[u]);
  }
}
DIST_TEST(selections, 3, SelectCase, gen_select) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  StaticArray<kd::BlockID> p(dg.total_n());
  for (kd::NodeID u = 0; u < dg.total_n(); ++u) p[u] = c.part[dg.local_to_global_node(u)];
  kd::DistributedPartitionedGraph pg(&dg, c.k, std::move(p));
  std::set<u64> border;
  for (u64 u = 0; u < c.gr.n; ++u)
    for (u64 e = c.gr.xadj[u]; e < c.gr.xadj[u + 1]; ++e)
      if (c.part[u] != c.part[c.gr.adj[e]]) border.insert(u);
  for (kd::NodeID u = 0; u < dg.n(); ++u) CHECK_EQ((bool)pg.check_border_node(u), border.count(dg.local_to_global_node(u)) > 0, "border", "node " << dg.local_to_global_node(u));
  std::vector<u64> found;
  for (kd::NodeID u : kd::graph::find_border_nodes(pg)) {
    CHECK_MSG(u < dg.n(), "border", "node " << u << " is not owned");
    found.push_back(dg.local_to_global_node(u));
  }
  std::sort(found.begin(), found.end());
  std::vector<u64> exp;
  for (u64 u : border)
    if (u >= dg.offset_n() && u < dg.offset_n() + dg.n()) exp.push_back(u);
  CHECK_MSG(found == exp, "border", "found " << found.size() << " border nodes instead of " << exp.size());
  std::vector<u64> own, all;
  for (kd::NodeID u : kd::graph::find_independent_border_set(pg, c.iseed)) {
    CHECK_MSG(u < dg.n(), "independent", "node " << u << " is not owned");
    own.push_back(dg.local_to_global_node(u));
  }
  for (auto &v : rk.all(own)) all.insert(all.end(), v.begin(), v.end());
  std::set<u64> set(all.begin(), all.end());
  CHECK_EQ(set.size(), all.size(), "independent", "nodes in the set");
  for (u64 u : set) {
    CHECK_MSG(border.count(u), "independent", "node " << u << " is no border node");
    for (u64 e = c.gr.xadj[u]; e < c.gr.xadj[u + 1]; ++e) CHECK_MSG(!set.count(c.gr.adj[e]), "independent", "neighbours " << u << " and " << c.gr.adj[e] << " are in the set");
  }
}
#endif
int main(int argc, char **argv) { return dist_main(argc, argv); }
