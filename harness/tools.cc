// K22: the tools that come with the partitioner. Runs their real main() in processes of their own.
#include <bit>
#include <map>
#include <random>
#include <set>
#include <stack>
#include <tbb/concurrent_hash_map.h>
#include <tbb/global_control.h>
#include "kaminpar-cli/kaminpar_arguments.h"
#include "kaminpar-shm/context_io.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-common/assert.h"
#include "kaminpar-common/console_io.h"
#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/logger.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/strutils.h"
#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"
#include "prog.h"

#define main tool_main
namespace tool_components {
#include "apps/tools/shm_connected_components_tool.cc"
}
namespace tool_weights {
#include "apps/tools/shm_graph_attach_weights_tool.cc"
}
namespace tool_compress {
#include "apps/tools/shm_graph_compression_tool.cc"
}
namespace tool_properties {
#include "apps/tools/shm_graph_properties_tool.cc"
}
namespace tool_rearrange {
#include "apps/tools/shm_graph_rearrangement_tool.cc"
}
namespace tool_partition {
#include "apps/tools/shm_partition_properties_tool.cc"
}
#undef main

using Main = int (*)(int, char **);
static Run run_tool(Main m, std::vector<std::string> args) {
  return in_child([&] {
    args.insert(args.begin(), "tool");
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    return m(args.size(), argv.data());
  });
}

struct Tool {
  std::vector<std::string> args;
  File in;
  bool parhip = false;
  Run r{};
  void add(std::initializer_list<std::string> x) { args.insert(args.end(), x); }
  Tool(Gen &g, const G &gr, bool need_parhip = false) : in("") {
    parhip = need_parhip || g.flip();
    const std::string text = parhip ? parhip_text(g, gr) : metis_text(g, gr);
    { std::ofstream o(in.path, std::ios::binary | std::ios::trunc); o << text; }
    add({g.flip() ? "-G" : "--graph", in.path});
    if (parhip) add({"-f", "parhip"});
    else if (g.flip()) add({"--graph-file-format", "metis"});
    const int t = g.weighted({2, 1, 1, 1});
    if (t) add({"-t", std::to_string(t == 1 ? 1 : t == 2 ? 2 : 8)});
    g.label(parhip ? "ParHIP" : "METIS");
  }
  void run(Gen &g, Main m, const char *what) {
    std::string line;
    for (std::size_t i = 2; i < args.size(); ++i) line += " " + args[i];
    g.note(std::string(" ") + what + line);
    r = run_tool(m, args);
    CHECK_EQ(r.status, 0, "exit", what << line << ": " << tail(plain(r.out)) << tail(plain(r.err)));
    r.out = plain(r.out);
  }
  i64 number(const std::string &re) const {
    i64 x = 0;
    CHECK_MSG(find_number(r.out, re, x), "output", "no '" << re << "' in: " << tail(r.out));
    return x;
  }
};
static G read_out(const File &f, bool parhip) { return parhip ? parse_parhip(f.read()) : parse_metis(f.read()); }
// The graph that results from calling node u map[u]
static void check_same(const G &got, const G &gr, const std::vector<i64> &map, bool edge_weights, const std::string &what) {
  CHECK_EQ(got.n, gr.n, "graph", what << ": nodes");
  CHECK_EQ(got.m(), gr.m(), "graph", what << ": edges");
  for (u64 u = 0; u < gr.n; ++u) {
    const u64 v = map[u];
    CHECK_EQ(got.w(v), gr.w(u), "graph", what << ": weight of node " << v << ", node " << u << " of the input");
    auto e = edges_of(gr, u, &map), o = edges_of(got, v);
    if (!edge_weights) {
      for (auto &x : e) x.second = 1;
      for (auto &x : o) x.second = 1;
    }
    CHECK_MSG(e == o, "graph", what << ": node " << v << " has " << edge_text(o) << " instead of " << edge_text(e));
  }
}
static std::vector<i64> identity(u64 n) {
  std::vector<i64> id(n);
  std::iota(id.begin(), id.end(), 0);
  return id;
}
static G graph_for(Gen &g, u64 max_n = 1200, bool names = false) {
  GraphOptions o;
  o.max_n = max_n;
  o.max_m = 6 * max_n;
  o.allow_empty = false;
  G gr = gen_graph(g, o);
  if (g.chance(1, 12)) gr = from_edges(1 + g.draw(5), {}, nullptr, nullptr); // isolated nodes only
  if (names) { // weights that tell the nodes apart
    gr.vw.resize(gr.n);
    for (u64 u = 0; u < gr.n; ++u) gr.vw[u] = u + 2;
  }
  label_graph(g, gr);
  g.note(gr.str());
  g.nontrivial(gr.m() > 0);
  return gr;
}
// Node names[u] of the output is node u of the input
static std::vector<i64> by_name(const G &got, const G &gr) {
  std::vector<i64> map(gr.n, -1);
  CHECK_EQ(got.n, gr.n, "graph", "nodes");
  CHECK_EQ(got.vw.size(), gr.n, "graph", "node weights");
  for (u64 v = 0; v < got.n; ++v) {
    const i64 u = got.vw[v] - 2;
    CHECK_MSG(u >= 0 && u < (i64)gr.n && map[u] < 0, "graph", "node " << v << " has weight " << got.vw[v]);
    map[u] = v;
  }
  return map;
}

PBT_TEST(components, 4) {
  const G gr = graph_for(g);
  Tool t(g, gr);
  if (g.flip()) { t.add({g.flip() ? "-c" : "--compress"}); g.label("compressed"); }
  const File out;
  const bool write = g.chance(3, 4), parhip = g.flip();
  if (write) {
    t.add({"--out", out.path});
    if (parhip) t.add({"--out-f", "parhip"});
  }
  t.run(g, tool_components::tool_main, "components");
  // reference
  std::vector<u64> comp(gr.n, ~0ull);
  std::vector<std::vector<u64>> cs;
  for (u64 s = 0; s < gr.n; ++s) {
    if (comp[s] != ~0ull) continue;
    cs.emplace_back();
    std::vector<u64> st = {s};
    comp[s] = cs.size() - 1;
    while (!st.empty()) {
      const u64 u = st.back();
      st.pop_back();
      cs.back().push_back(u);
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e)
        if (comp[gr.adj[e]] == ~0ull) comp[gr.adj[e]] = comp[s], st.push_back(gr.adj[e]);
    }
    std::sort(cs.back().begin(), cs.back().end());
  }
  u64 largest = 0;
  std::map<int, i64> hist;
  for (auto &c : cs) largest = std::max<u64>(largest, c.size()), ++hist[std::bit_width(c.size()) - 1];
  CHECK_EQ(t.number("Number of connected components: (\\d+)"), (i64)cs.size(), "components", "number");
  CHECK_EQ(t.number("Largest connected component: (\\d+)"), (i64)largest, "components", "largest");
  CHECK_EQ(t.number("Isolated nodes: (\\d+)"), hist[0], "components", "isolated nodes");
  for (int b = 1; b <= std::bit_width(largest) - 1; ++b)
    CHECK_EQ(t.number(" " + std::to_string(1 << b) + "-" + std::to_string(1 << (b + 1)) + " nodes: (\\d+)"), hist[b], "components", "components with 2^" << b << " nodes");
  g.label(cs.size() == 1 ? "connected" : "several components");
  if (!write) return;
  const G got = read_out(out, parhip);
  u64 candidates = 0;
  for (auto &c : cs) candidates += c.size() == largest;
  for (auto &c : cs) { // one of the largest components
    if (c.size() != largest) continue;
    G exp;
    exp.n = c.size();
    exp.xadj.assign(1, 0);
    std::map<u64, u64> id;
    for (u64 i = 0; i < c.size(); ++i) id[c[i]] = i;
    for (u64 u : c) {
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) exp.adj.push_back(id[gr.adj[e]]), exp.ew.push_back(gr.we(e));
      exp.xadj.push_back(exp.adj.size());
      exp.vw.push_back(gr.w(u));
    }
    try {
      check_same(got, exp, identity(exp.n), true, "largest component");
      return;
    } catch (const pbt::Failure &) {
      if (--candidates == 0) throw;
    }
  }
}

PBT_TEST(attach_weights, 4) {
  const G gr = graph_for(g);
  Tool t(g, gr);
  const File out;
  const bool parhip = g.flip();
  t.add({"--out", out.path});
  if (parhip) t.add({"--out-f", "parhip"});
  if (g.flip()) t.add({"-s", std::to_string(g.draw(1000))});
  struct Range { i64 lo, hi; };
  std::vector<Range> ranges;
  auto range = [&](const char *lo, const char *hi, Range def) {
    if (g.flip()) {
      const i64 a = g.range(1, 300), b = a + (g.flip() ? 0 : g.range(0, 100000));
      t.add({lo, std::to_string(a), hi, std::to_string(b)});
      def = {a, b};
    }
    ranges.push_back(def);
  };
  switch (g.draw(3)) {
  case 0: t.add({"-d", "uniform"}); range("--u-min", "--u-max", {1, 65536}); g.label("uniform"); break;
  case 1:
    t.add({"--distribution", "alternating"});
    range("--a-min-small", "--a-max-small", {1, 1});
    range("--a-min-large", "--a-max-large", {65536, 65536});
    g.label("alternating");
    break;
  default:
    t.add({"-d", "exponential"});
    if (g.flip()) t.add({"--e-lambda", g.pick<std::string>({"0.001", "0.5", "10"})});
    ranges.push_back({1, std::numeric_limits<i64>::max()});
    g.label("exponential");
  }
  t.run(g, tool_weights::tool_main, "weights");
  const G got = read_out(out, parhip);
  check_same(got, gr, identity(gr.n), false, "weighted graph");
  if (gr.m() > 0) CHECK_MSG(!got.ew.empty() || ranges[0].lo == 1, "weights", "no edge weights");
  std::map<std::pair<u64, u64>, i64> w;
  for (u64 u = 0; u < got.n; ++u)
    for (u64 e = got.xadj[u]; e < got.xadj[u + 1]; ++e) {
      const i64 x = got.we(e);
      bool ok = false;
      for (auto &r : ranges) ok |= r.lo <= x && x <= r.hi;
      CHECK_MSG(ok, "weights", "edge " << u << "-" << got.adj[e] << " has weight " << x);
      w[{u, got.adj[e]}] = x;
    }
  for (auto &[e, x] : w) CHECK_EQ(w[std::pair(e.second, e.first)], x, "symmetric", "weight of edge " << e.second << "-" << e.first);
  if (g.chance(1, 4)) { // once more
    const std::string first = out.read();
    t.run(g, tool_weights::tool_main, "weights");
    CHECK_MSG(out.read() == first, "repeatable", "the same call gives other weights");
  }
}

PBT_TEST(compress, 4) {
  const bool sorted = g.chance(1, 4), external = !sorted && g.chance(1, 3);
  G gr = graph_for(g, 1200, external);
  if (sorted) gr = bucket_sorted(gr);
  Tool t(g, gr, external);
  const File out;
  t.add({"--out", out.path});
  if (sorted) t.add({"--node-order", "implicit-deg-buckets"});
  else if (external) t.add({"--node-order", "external-deg-buckets"});
  else if (g.flip()) t.add({"--node-order", "natural"});
  g.label(sorted ? "order:implicit" : external ? "order:external" : "order:natural");
  t.run(g, tool_compress::tool_main, "compress");
  const File dump;
  const Run r = in_child([&] {
    using namespace kaminpar::shm;
    auto c = io::compressed_binary::read(out.path);
    std::string s;
    put<u64>(s, c.n()), put<u64>(s, c.sorted());
    for (NodeID u = 0; u < c.n(); ++u) {
      put<i64>(s, c.node_weight(u)), put<u64>(s, c.degree(u));
      c.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { put<u64>(s, v), put<i64>(s, w); });
    }
    std::ofstream(dump.path, std::ios::binary) << s;
    return 0;
  });
  CHECK_EQ(r.status, 0, "read", "reading the compressed graph: " << tail(plain(r.err)));
  const std::string s = dump.read();
  std::size_t p = 0;
  auto num = [&] {
    CHECK_MSG(p + 8 <= s.size(), "read", "the dump ends early");
    i64 x;
    std::memcpy(&x, s.data() + p, 8);
    p += 8;
    return x;
  };
  G got;
  got.n = num();
  const bool is_sorted = num();
  got.xadj.assign(1, 0);
  for (u64 u = 0; u < got.n; ++u) {
    got.vw.push_back(num());
    for (i64 d = num(); d > 0; --d) { got.adj.push_back(num()); got.ew.push_back(num()); }
    got.xadj.push_back(got.adj.size());
  }
  CHECK_EQ(p, s.size(), "read", "size of the dump");
  CHECK_EQ(is_sorted, sorted || external, "sorted", "the graph is marked as sorted");
  check_same(got, gr, external ? by_name(got, gr) : identity(gr.n), true, "compressed graph");
  if (is_sorted) for (u64 u = 1; u < got.n; ++u) CHECK_MSG(class_of(got.deg(u - 1)) <= class_of(got.deg(u)), "sorted", "node " << u - 1 << " of degree " << got.deg(u - 1) << " before one of degree " << got.deg(u));
}

PBT_TEST(rearrange, 4) {
  const bool sorted = g.chance(1, 5);
  G gr = graph_for(g, 1200, true);
  if (sorted) gr = bucket_sorted(gr);
  if (sorted) for (u64 u = 0; u < gr.n; ++u) gr.vw[u] = u + 2;
  const int order = sorted ? 2 : g.weighted({2, 4, 0, 2});
  Tool t(g, gr, order == 3);
  const File out;
  const bool parhip = g.flip();
  t.add({g.flip() ? "-O" : "--out", out.path});
  if (parhip) t.add({"--out-f", "parhip"});
  const char *names[] = {"natural", "deg-buckets", "implicit-deg-buckets", "external-deg-buckets"};
  t.add({"--node-order", names[order]});
  if (g.flip()) t.add({"--edge-order", g.flip() ? "compression" : "natural"});
  g.label(std::string("order:") + names[order]);
  t.run(g, tool_rearrange::tool_main, "rearrange");
  const G got = read_out(out, parhip);
  check_same(got, gr, order == 1 || order == 3 ? by_name(got, gr) : identity(gr.n), true, "rearranged graph");
  if (order != 0) for (u64 u = 1; u < got.n; ++u) CHECK_MSG(class_of(got.deg(u - 1)) <= class_of(got.deg(u)), "sorted", "node " << u - 1 << " of degree " << got.deg(u - 1) << " before one of degree " << got.deg(u));
}

PBT_TEST(properties, 2) {
  const G gr = graph_for(g);
  Tool t(g, gr);
  if (g.flip()) { t.add({"-c"}); g.label("compressed"); }
  t.run(g, tool_properties::tool_main, "properties");
  CHECK_EQ(t.number("Number of nodes: +(\\d+)"), (i64)gr.n, "properties", "nodes");
  CHECK_EQ(t.number("Number of edges: +(\\d+)"), (i64)gr.m(), "properties", "edges");
  CHECK_EQ(t.number("Max degree: +(\\d+)"), (i64)gr.max_deg(), "properties", "maximum degree");
  CHECK_EQ(t.number("Isolated nodes: +(\\d+)"), (i64)gr.isolated(), "properties", "isolated nodes");
  if (gr.total_w() != (i64)gr.n) CHECK_EQ(t.number("Number of nodes: +\\d+ \\(total weight: (\\d+)"), gr.total_w(), "properties", "total node weight");
  if (gr.total_we() != (i64)gr.m()) CHECK_EQ(t.number("Number of edges: +\\d+ \\(total weight: (\\d+)"), gr.total_we(), "properties", "total edge weight");
  std::smatch m;
  CHECK_MSG(std::regex_search(t.r.out, m, std::regex("Average degree: +([0-9.e+-]+)")), "properties", "no average degree");
  const double avg = std::stod(m[1]), exp = 1.0 * gr.m() / gr.n;
  CHECK_MSG(std::abs(avg - exp) <= 1e-4 * (1 + exp), "properties", "average degree " << avg << " instead of " << exp);
}

PBT_TEST(partition, 4) {
  const G gr = graph_for(g);
  Tool t(g, gr);
  const u64 k = 1 + g.weighted({1, 4, 2}) * g.draw(std::min<u64>(gr.n, 60));
  std::vector<u64> part(gr.n);
  std::string text;
  Rng r(g.seed());
  const bool sizes = g.flip();
  if (sizes) {
    for (u64 u = 0; u < gr.n; ++u) part[u] = r.below(k);
    std::sort(part.begin(), part.end());
    std::vector<u64> c(k, 0);
    for (u64 b : part) ++c[b];
    while (c.size() > 1 && c.back() == 0) c.pop_back();
    for (u64 x : c) text += std::to_string(x) + "\n";
  } else {
    for (u64 u = 0; u < gr.n; ++u) part[u] = r.below(k), text += std::to_string(part[u]) + "\n";
  }
  const File p(text);
  t.add({sizes ? "--block-sizes" : g.flip() ? "-P" : "--partition", p.path});
  if (g.flip()) { t.add({"-c"}); g.label("compressed"); }
  g.label(sizes ? "block sizes" : "partition");
  t.run(g, tool_partition::tool_main, "partition");
  const u64 blocks = *std::max_element(part.begin(), part.end()) + 1;
  i64 cut = 0, heaviest = 0;
  std::vector<i64> w(blocks, 0);
  for (u64 u = 0; u < gr.n; ++u) {
    heaviest = std::max(heaviest, w[part[u]] += gr.w(u));
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) cut += part[gr.adj[e]] != part[u] ? gr.we(e) : 0;
  }
  CHECK_EQ(t.number("Number of blocks: (\\d+)"), (i64)blocks, "partition", "blocks");
  CHECK_EQ(t.number("Edge cut: +(\\d+)"), cut / 2, "partition", "cut");
  std::smatch m;
  CHECK_MSG(std::regex_search(t.r.out, m, std::regex("Imbalance: +([0-9.e+-]+)")), "partition", "no imbalance");
  const double perfect = std::ceil(1.0 * gr.total_w() / blocks), exp = heaviest / perfect - 1, got = std::stod(m[1]);
  CHECK_MSG(std::abs(got - exp) <= 1e-4 * (1 + std::abs(exp)), "partition", "imbalance " << got << " instead of " << exp);
}

int main(int argc, char **argv) {
  pbt::Runner r;
  return r.main(argc, argv);
}
