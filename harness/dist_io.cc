// D08: every process reads its part of a graph file; the processes together write a partition
#include "distgen.h"
#include "iofiles.h"

#include "apps/io/dist_io.h"
#include "apps/io/dist_metis_parser.h"
#include "apps/io/dist_parhip_parser.h"

using namespace dist_pbt;
namespace dio = kaminpar::dist::io;

static u64 bucket(u64 d) { // 0 for degree 0, b for degrees in [2^(b-1), 2^b)
  u64 b = 0;
  for (; d; d >>= 1) ++b;
  return b;
}
static std::string parhip_exact(Gen &g, const G &gr) { // with the widths of this build
  const bool vw = !gr.vw.empty() || g.chance(1, 8), ew = !gr.ew.empty() || g.chance(1, 8);
  const bool nw8 = vw ? sizeof(kd::NodeWeight) == 8 : g.flip(), ew8 = ew ? sizeof(kd::EdgeWeight) == 8 : g.flip();
  const bool e8 = sizeof(kd::EdgeID) == 8, id8 = sizeof(kd::NodeID) == 8;
  std::string s;
  put<u64>(s, (u64)!ew | (u64)!vw << 1 | (u64)!e8 << 2 | (u64)!id8 << 3 | (u64)!nw8 << 4 | (u64)!ew8 << 5);
  put<u64>(s, gr.n);
  put<u64>(s, gr.m());
  auto num = [&](bool eight, u64 x) { if (eight) put<u64>(s, x); else put<u32>(s, x); };
  const u64 base = 24 + (gr.n + 1) * sizeof(kd::EdgeID);
  for (u64 x : gr.xadj) num(e8, base + x * sizeof(kd::NodeID));
  for (u64 v : gr.adj) num(id8, v);
  if (vw) for (u64 u = 0; u < gr.n; ++u) num(nw8, gr.w(u));
  if (ew) for (u64 e = 0; e < gr.m(); ++e) num(ew8, gr.we(e));
  return s;
}

struct FileCase : CaseBase {
  G gr;
  bool metis = true, compressed = false, sorted = false;
  int comm = 0;
  std::string text;
  kd::GraphDistribution distribution = kd::GraphDistribution::BALANCED_NODES;
};
static void gen_file_case(Gen &g, FileCase &c) {
  gen_base(g, c);
  GraphOptions o;
  o.max_n = g.chance(1, 6) ? 1500 : 60;
  o.max_m = 6 * o.max_n;
  c.gr = gen_graph(g, o);
  if (c.gr.n > 1 && g.chance(1, 4)) { // empty stretches at the ends
    std::vector<u64> to(c.gr.n);
    const u64 shift = g.draw(c.gr.n);
    for (u64 u = 0; u < c.gr.n; ++u) to[u] = (u + shift) % c.gr.n;
    c.gr = relabel(c.gr, to);
  }
  c.sorted = g.chance(1, 5);
  if (c.sorted) {
    std::vector<u64> order(c.gr.n), to(c.gr.n);
    std::iota(order.begin(), order.end(), 0);
    std::stable_sort(order.begin(), order.end(), [&](u64 a, u64 b) { return bucket(c.gr.deg(a)) < bucket(c.gr.deg(b)); });
    for (u64 i = 0; i < c.gr.n; ++i) to[order[i]] = i;
    c.gr = relabel(c.gr, to);
    g.label("sorted");
  }
  label_graph(g, c.gr);
  c.metis = g.flip();
  c.compressed = g.flip();
  c.comm = g.draw(2);
  static const char *names[] = {"balanced nodes", "balanced edges", "balanced memory"};
  const int d = g.draw(3);
  c.distribution = std::array{kd::GraphDistribution::BALANCED_NODES, kd::GraphDistribution::BALANCED_EDGES, kd::GraphDistribution::BALANCED_MEMORY_SPACE}[d];
  c.text = c.metis ? metis_text(g, c.gr) : parhip_exact(g, c.gr);
  g.label(names[d]);
  g.label(c.metis ? "METIS" : "ParHIP");
  g.label(c.compressed ? "compressed" : "plain");
  if (c.gr.n > 0 && c.gr.deg(c.gr.n - 1) == 0) g.label("isolated nodes at the end");
  if ((u64)c.P > c.gr.n) g.label("more processes than nodes");
  g.note(std::string(c.metis ? " metis " : " parhip ") + names[d] + (c.compressed ? " compressed" : "") + " bytes=" + std::to_string(c.text.size()));
  g.nontrivial(c.P > 1 && c.gr.m() > 0);
}

DIST_TEST(read_graph, 8, FileCase, gen_file_case) {
  Comm comm(c.comm);
  kaminpar::Random::reseed(c.seed % 1000000);
  File f(c.text);
  auto read = [&] {
    if (c.metis)
      return c.compressed ? kd::DistributedGraph(std::make_unique<kd::DistributedCompressedGraph>(dio::metis::compress_read(f.path, c.distribution, c.sorted, comm.comm)))
                          : kd::DistributedGraph(std::make_unique<kd::DistributedCSRGraph>(dio::metis::csr_read(f.path, c.distribution, c.sorted, comm.comm)));
    return c.compressed ? kd::DistributedGraph(std::make_unique<kd::DistributedCompressedGraph>(dio::parhip::compressed_read(f.path, c.distribution, c.sorted, comm.comm)))
                        : kd::DistributedGraph(std::make_unique<kd::DistributedCSRGraph>(dio::parhip::csr_read(f.path, c.distribution, c.sorted, comm.comm)));
  };
  kd::DistributedGraph dg = read();
  // the processes' ranges cover all nodes
  std::vector<u64> dist;
  CHECK_EQ(dg.node_distribution().size(), (std::size_t)rk.size + 1, "cover", "size of the node distribution");
  for (auto x : dg.node_distribution()) dist.push_back(x);
  CHECK_EQ(dist.front(), 0u, "cover", "first node");
  for (int p = 0; p < rk.size; ++p) CHECK_MSG(dist[p] <= dist[p + 1], "cover", "process " << p << " has nodes " << dist[p] << ".." << dist[p + 1]);
  CHECK_EQ(dist.back(), c.gr.n, "cover", "nodes in the distribution");
  for (auto &other : rk.all(dist)) CHECK_MSG(other == dist, "cover", "processes disagree on the node distribution");
  // what each process has is balanced as asked for
  u64 max_deg = c.gr.n ? c.gr.max_deg() : 0;
  for (int p = 0; p < rk.size; ++p) {
    const u64 n = dist[p + 1] - dist[p], m = c.gr.xadj[dist[p + 1]] - c.gr.xadj[dist[p]];
    const u64 sn = sizeof(kd::EdgeID), sm = sizeof(kd::NodeID);
    switch (c.distribution) {
    case kd::GraphDistribution::BALANCED_NODES:
      CHECK_MSG(n == c.gr.n / rk.size || n == c.gr.n / rk.size + 1, "balance", "process " << p << " of " << rk.size << " has " << n << " of " << c.gr.n << " nodes");
      break;
    case kd::GraphDistribution::BALANCED_EDGES:
      CHECK_MSG(m <= c.gr.m() / rk.size + 1 + max_deg, "balance", "process " << p << " of " << rk.size << " has " << m << " of " << c.gr.m() << " edges");
      break;
    case kd::GraphDistribution::BALANCED_MEMORY_SPACE:
      CHECK_MSG(n * sn + m * sm <= (c.gr.n * sn + c.gr.m() * sm) / rk.size + 1 + 2 * (sn + max_deg * sm), "balance", "process " << p << " of " << rk.size << " has " << n << " nodes and " << m << " edges");
      break;
    }
  }
  CHECK_EQ(dg.sorted(), c.sorted, "sorted", "sorted");
  check_dist_graph(dg, c.gr, dist, rk, false);
}

struct PartCase : CaseBase {
  std::vector<u64> dist;
  std::vector<u64> part;
};
static void gen_part_case(Gen &g, PartCase &c) {
  gen_base(g, c);
  const u64 n = g.logsize(1, 2000);
  Rng r(g.seed());
  const u64 k = 1 + g.draw(100000);
  for (u64 u = 0; u < n; ++u) c.part.push_back(r.below(k));
  for (int p = 1; p < c.P; ++p) c.dist.push_back(r.below(n + 1));
  c.dist.push_back(0), c.dist.push_back(n);
  std::sort(c.dist.begin(), c.dist.end());
  g.note(" n=" + std::to_string(n) + " k=" + std::to_string(k));
  g.nontrivial(c.P > 1 && n > 1);
}
DIST_TEST(write_partition, 1, PartCase, gen_part_case) {
  const int pid = rk.each<int>(getpid())[0];
  const std::string path = std::string(std::getenv("PBT_TMP")) + "/part." + std::to_string(pid);
  if (rk.rank == 0) std::ofstream(path) << "something\nolder\nthan this\n" << std::string(20000, '1');
  rk.each<int>(0);
  dio::partition::write(path, std::vector<kd::BlockID>(c.part.begin() + c.dist[rk.rank], c.part.begin() + c.dist[rk.rank + 1]));
  std::string got, exp;
  {
    std::ifstream in(path, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    got = ss.str();
  }
  for (u64 b : c.part) exp += std::to_string(b) + "\n";
  rk.each<int>(0);
  if (rk.rank == 0) unlink(path.c_str());
  CHECK_MSG(got == exp, "written", "the file has " << got.size() << " bytes, the partition takes " << exp.size());
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
