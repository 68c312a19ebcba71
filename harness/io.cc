// K08: graph, partition and remapping files of the shared-memory programs (apps/io).
#include <map>
#include <sys/syscall.h>
#include "ctxgen.h"
#include "iofiles.h"
#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_input_validator.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include <tbb/global_control.h>

#if defined(__SANITIZE_ADDRESS__)
#define GUARDS 0
#else
#define GUARDS 1
// Mapped files are followed by an inaccessible page, as they may be anywhere: bytes behind the end of a file whose
// size is a multiple of the page size do not exist.
static std::map<void *, std::size_t> *g_maps;
static thread_local bool g_in_map;
extern "C" void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
  if (fd >= 0 && !(flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && prot == PROT_READ && addr == nullptr && len > 0 && g_maps && !g_in_map) {
    const std::size_t r = (len + 4095) / 4096 * 4096;
    char *base = (char *)syscall(SYS_mmap, nullptr, r + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) return MAP_FAILED;
    void *p = (void *)syscall(SYS_mmap, base, len, prot, flags | MAP_FIXED, fd, off);
    if (p == MAP_FAILED) return p;
    g_in_map = true;
    (*g_maps)[p] = r + 4096;
    g_in_map = false;
    return p;
  }
  return (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
}
extern "C" int munmap(void *addr, size_t len) noexcept {
  if (g_maps && !g_in_map && len > 0) {
    auto it = g_maps->find(addr);
    if (it != g_maps->end()) {
      const std::size_t l = it->second;
      g_in_map = true;
      g_maps->erase(it);
      g_in_map = false;
      return syscall(SYS_munmap, addr, l);
    }
  }
  return syscall(SYS_munmap, addr, len);
}
#endif

using namespace pbt;
using namespace kaminpar;
using namespace kaminpar::shm;
using pbt::G;

static pbt::G base_graph(Gen &g, u64 max_n = 1500) {
  GraphOptions o;
  o.max_n = max_n;
  o.max_m = 8 * max_n;
  pbt::G gr = gen_graph(g, o);
  label_graph(g, gr);
  return gr;
}

using Edges = std::vector<std::pair<u64, i64>>;
static Edges edges_of(const pbt::G &gr, u64 u) {
  Edges x;
  for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) x.push_back({gr.adj[e], gr.we(e)});
  std::sort(x.begin(), x.end());
  return x;
}

// `now` is the model with node u renamed to o2n(u)
template <typename Graph, typename F> static void check_same(const pbt::G &gr, const Graph &now, const std::string &what, F &&o2n) {
  CHECK_EQ((u64)now.n(), gr.n, "n", what << ": number of nodes");
  CHECK_EQ((u64)now.m(), gr.m(), "m", what << ": number of edges");
  std::vector<u64> map(gr.n), back(gr.n, ~0ull);
  for (u64 u = 0; u < gr.n; ++u) {
    map[u] = o2n(u);
    CHECK_MSG(map[u] < gr.n && back[map[u]] == ~0ull, "permutation", what << ": node " << u << " is announced as " << map[u]);
    back[map[u]] = u;
  }
  for (u64 u = 0; u < gr.n; ++u) {
    const u64 x = map[u];
    CHECK_EQ((i64)now.node_weight(x), gr.w(u), "node-weight", what << ": weight of node " << u << " (now " << x << ")");
    CHECK_EQ((u64)now.degree(x), gr.deg(u), "degree", what << ": degree of node " << u << " (now " << x << ")");
    Edges a = edges_of(gr, u), b;
    now.adjacent_nodes(x, [&](const NodeID v, const EdgeWeight w) { b.push_back({v < gr.n ? back[v] : ~0ull, w}); });
    std::sort(b.begin(), b.end());
    CHECK_MSG(a == b, "edges", what << ": edges of node " << u << " (now " << x << ", " << a.size() << " expected, " << b.size() << " found) differ");
  }
  CHECK_EQ((i64)now.total_node_weight(), gr.total_w(), "total", what << ": total node weight");
  CHECK_EQ((i64)now.total_edge_weight(), gr.total_we(), "total", what << ": total edge weight");
  CHECK_EQ((u64)now.max_degree(), gr.max_deg(), "max-degree", what << ": maximum degree");
  if (gr.n) CHECK_EQ((i64)now.max_node_weight(), gr.max_w(), "max-weight", what << ": maximum node weight");
}
template <typename Graph> static void check_same(const pbt::G &gr, const Graph &now, const std::string &what) {
  check_same(gr, now, what, [](u64 u) { return u; });
}
static void check_graph(const pbt::G &gr, const shm::Graph &now, const std::string &what) {
  now.reified([&](const CSRGraph &c) { check_same(gr, c, what); }, [&](const CompressedGraph &c) { check_same(gr, c, what); });
}

template <typename Graph> static void check_bucket_order(const Graph &now, const std::string &what) {
  CHECK_MSG(now.sorted(), "sorted", what << ": not marked as sorted by degree buckets");
  for (u64 u = 0; u + 1 < now.n(); ++u)
    CHECK_MSG(class_of(now.degree(u)) <= class_of(now.degree(u + 1)), "order", what << ": nodes " << u << " and " << u + 1 << " of degrees " << now.degree(u) << " and " << now.degree(u + 1));
}

static void set_threads(Gen &g, std::unique_ptr<tbb::global_control> &gc) {
  const int threads = g.weighted({2, 3}) == 0 ? 1 : g.range(2, 8);
  gc = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, threads);
  g.label("threads:" + std::to_string(threads));
}

PBT_TEST(metis, 5) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  pbt::G gr = base_graph(g);
  const bool sorted = g.chance(1, 4);
  if (sorted) gr = bucket_sorted(gr);
  g.nontrivial(gr.m() > 0);
  g.note(gr.str());
  const std::string text = metis_text(g, gr);
  if (text.size() < 500) g.note(" file: " + text);
  const File f(text);
  const NodeOrdering ord = sorted ? NodeOrdering::IMPLICIT_DEGREE_BUCKETS : g.flip() ? NodeOrdering::NATURAL : NodeOrdering::EXTERNAL_DEGREE_BUCKETS;
  switch (g.draw(4)) {
  case 0: {
    const CSRGraph c = io::metis::csr_read(f.path, sorted);
    check_same(gr, c, "csr_read");
    CHECK_EQ(c.sorted(), sorted, "sorted", "csr_read");
    break;
  }
  case 1: {
    const CompressedGraph c = io::metis::compress_read(f.path, sorted);
    check_same(gr, c, "compress_read");
    CHECK_EQ(c.sorted(), sorted, "sorted", "compress_read");
    break;
  }
  default: {
    const bool compress = g.flip();
    const shm::Graph now = io::read(f.path, io::GraphFileFormat::METIS, ord, compress);
    CHECK_EQ((dynamic_cast<const CompressedGraph *>(now.underlying_graph()) != nullptr), compress, "kind", "io::read");
    check_graph(gr, now, compress ? "io::read compressed" : "io::read");
  }
  }
}

static shm::Graph some_graph(Gen &g, const pbt::G &gr, bool csr_only = false) {
  switch (csr_only ? 0 : g.draw(3)) {
  case 0: return to_graph(gr);
  case 1: return shm::Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(to_csr(gr))));
  default: return shm::Graph(std::make_unique<CompressedGraph>(parallel_compress(to_csr(gr))));
  }
}

PBT_TEST(metis_write, 3) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  const pbt::G gr = base_graph(g);
  g.nontrivial(gr.m() > 0);
  g.note(gr.str());
  const shm::Graph graph = some_graph(g, gr);
  const File f(g.flip() ? "old content of the file\n" : "");
  io::metis::write(f.path, graph);
  if (g.flip()) check_same(gr, io::metis::csr_read(f.path, false), "metis::write, csr_read");
  else check_same(gr, io::metis::compress_read(f.path, false), "metis::write, compress_read");
}

PBT_TEST(parhip, 5) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  pbt::G gr = base_graph(g, 2500);
  const bool sorted = g.chance(1, 3);
  if (sorted) gr = bucket_sorted(gr);
  g.nontrivial(gr.m() > 0);
  g.note(gr.str());
  File f;
  if (g.flip()) f.~File(), new (&f) File(parhip_text(g, gr));
  else io::parhip::write(f.path, to_csr(gr));
  NodeOrdering ord = g.pick({NodeOrdering::NATURAL, NodeOrdering::EXTERNAL_DEGREE_BUCKETS, NodeOrdering::IMPLICIT_DEGREE_BUCKETS});
  if (ord == NodeOrdering::IMPLICIT_DEGREE_BUCKETS && !sorted) ord = NodeOrdering::EXTERNAL_DEGREE_BUCKETS;
  auto check = [&](const auto &c, const std::string &what, bool permuting) {
    if (permuting && ord == NodeOrdering::EXTERNAL_DEGREE_BUCKETS) {
      CHECK_MSG(c.permuted() || gr.n == 0, "permuted", what << ": the permutation is not announced");
      check_same(gr, c, what + " external", [&](u64 u) { return (u64)c.map_original_node(u); });
      check_bucket_order(c, what);
    } else {
      CHECK_MSG(!c.permuted(), "permuted", what << ": announces a permutation in natural order");
      check_same(gr, c, what);
      CHECK_EQ(c.sorted(), ord == NodeOrdering::IMPLICIT_DEGREE_BUCKETS, "sorted", what);
    }
  };
  switch (g.draw(4)) {
  case 0: check(io::parhip::csr_read(f.path, ord), "parhip::csr_read", true); break;
  case 1: {
    if (ord == NodeOrdering::EXTERNAL_DEGREE_BUCKETS) ord = NodeOrdering::NATURAL;
    check(io::parhip::compressed_read(f.path, ord == NodeOrdering::IMPLICIT_DEGREE_BUCKETS), "parhip::compressed_read", false);
    break;
  }
  case 2: check(io::parhip::compressed_read_parallel(f.path, ord), "parhip::compressed_read_parallel", true); break;
  default: {
    const bool compress = g.flip();
    const shm::Graph now = io::read(f.path, io::GraphFileFormat::PARHIP, ord, compress);
    CHECK_EQ((dynamic_cast<const CompressedGraph *>(now.underlying_graph()) != nullptr), compress, "kind", "io::read");
    now.reified([&](const CSRGraph &c) { check(c, "io::read", true); }, [&](const CompressedGraph &c) { check(c, "io::read compressed", true); });
  }
  }
}

PBT_TEST(compressed_file, 4) {
  std::unique_ptr<tbb::global_control> gc;
  set_threads(g, gc);
  pbt::G gr = base_graph(g, g.chance(1, 20) ? 30000 : 2500);
  const bool sorted = g.chance(1, 3);
  if (sorted) gr = bucket_sorted(gr);
  g.nontrivial(gr.m() > 0);
  g.note(gr.str());
  CSRGraph csr(to_static<EdgeID>(gr.xadj), to_static<NodeID>(gr.adj), to_static<NodeWeight>(gr.vw), to_static<EdgeWeight>(gr.ew), sorted);
  const CompressedGraph a = g.flip() ? CompressedGraphBuilder::compress(csr) : parallel_compress(csr);
  const File f(g.chance(1, 4) ? std::string(100000, 'z') : "");
  io::compressed_binary::write(f.path, a);
  CHECK_MSG(io::compressed_binary::is_compressed(f.path), "magic", "a written file is not recognised");
  auto check = [&](const CompressedGraph &b) {
    check_same(gr, b, "compressed_binary");
    CHECK_EQ(b.sorted(), sorted, "sorted", "compressed_binary");
    CHECK_EQ(b.is_node_weighted(), a.is_node_weighted(), "weighted", "node weights");
    CHECK_EQ(b.is_edge_weighted(), a.is_edge_weighted(), "weighted", "edge weights");
    CHECK_EQ((u64)b.num_high_degree_nodes(), (u64)a.num_high_degree_nodes(), "stats", "high degree nodes");
    CHECK_EQ((u64)b.num_high_degree_parts(), (u64)a.num_high_degree_parts(), "stats", "high degree parts");
    CHECK_EQ((u64)b.num_interval_nodes(), (u64)a.num_interval_nodes(), "stats", "interval nodes");
    CHECK_EQ((u64)b.num_intervals(), (u64)a.num_intervals(), "stats", "intervals");
    if (sorted) {
      CHECK_EQ((u64)b.number_of_buckets(), (u64)a.number_of_buckets(), "buckets", "number of degree buckets");
      for (u64 i = 0; i < a.number_of_buckets(); ++i) CHECK_EQ((u64)b.bucket_size(i), (u64)a.bucket_size(i), "buckets", "size of degree bucket " << i);
    }
  };
  if (g.flip()) check(io::compressed_binary::read(f.path));
  else check(io::read(f.path, g.flip() ? io::GraphFileFormat::METIS : io::GraphFileFormat::PARHIP, NodeOrdering::NATURAL, true).compressed_graph());
}

template <typename F> static int in_child(F &&fn) { // exit status of fn run in a process of its own
  std::fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    on_exit([](int st, void *) { _exit(st); }, nullptr);
    alarm(30);
    fn();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

PBT_TEST(foreign_files, 1) { // files this build must refuse
  const tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
  const pbt::G gr = base_graph(g, 100);
  g.note(gr.str());
  g.nontrivial(gr.m() > 0);
  if (g.flip()) {
    const File f;
    io::compressed_binary::write(f.path, CompressedGraphBuilder::compress(to_csr(gr)));
    std::string s = f.read();
    const int what = g.draw(4);
    if (what == 0) s[g.draw(8)] ^= 1 << g.draw(8); // magic number
    else if (what == 1) { // widths and encodings
      const int bit = g.pick({2, 3, 4, 5, 7, 8, 9});
      s[8 + bit / 8] ^= 1 << (bit % 8);
    } else s[10 + 8 * g.draw(3) + g.draw(8)] ^= 1 << g.draw(8); // thresholds
    const File f2(s);
    CHECK_EQ(io::compressed_binary::is_compressed(f2.path), what != 0, "magic", "is_compressed");
    const int st = in_child([&] { (void)io::compressed_binary::read(f2.path); });
    CHECK_EQ(st, 1, "accepted", "exit status when reading a foreign compressed graph file");
  } else {
    std::string s = parhip_text(g, gr);
    u64 version;
    std::memcpy(&version, s.data(), 8);
    std::vector<int> bad;
    if (sizeof(EdgeID) == 4) bad.push_back(2);
    if (sizeof(NodeID) == 4) bad.push_back(3);
    if (sizeof(NodeWeight) == 4 && !(version & 2)) bad.push_back(4);
    if (sizeof(EdgeWeight) == 4 && !(version & 1)) bad.push_back(5);
    if (bad.empty()) return g.reject();
    version &= ~(1ull << g.pick(bad));
    std::memcpy(s.data(), &version, 8);
    const File f(s);
    const int mode = g.draw(5);
    const int st = in_child([&] {
      if (mode == 0) (void)io::parhip::csr_read(f.path, NodeOrdering::NATURAL);
      if (mode == 1) (void)io::parhip::csr_read(f.path, NodeOrdering::EXTERNAL_DEGREE_BUCKETS);
      if (mode == 2) (void)io::parhip::compressed_read(f.path, false);
      if (mode == 3) (void)io::parhip::compressed_read_parallel(f.path, NodeOrdering::NATURAL);
      if (mode == 4) (void)io::parhip::compressed_read_parallel(f.path, NodeOrdering::EXTERNAL_DEGREE_BUCKETS);
    });
    CHECK_EQ(st, 1, "accepted", "exit status when reading a ParHIP file with too wide ids or weights, mode " << mode);
  }
}

PBT_TEST(partition_files, 3) {
  const u64 n = g.weighted({3, 1}) == 0 ? g.draw(50) : g.logsize(0, 20000);
  const u64 k = g.flip() ? g.range(1, 20) : g.logsize(1, 4000000000);
  g.note("n=" + std::to_string(n) + " k=" + std::to_string(k));
  g.nontrivial(n > 1 && k > 1);
  Rng r(g.seed());
  std::vector<BlockID> part(n);
  for (auto &b : part) b = r.below(k);
  const File f(g.flip() ? std::string(5000, '7') : "");
  switch (g.draw(3)) {
  case 0: {
    io::partition::write(f.path, part);
    const auto now = io::partition::read(f.path);
    CHECK_EQ((u64)now.size(), n, "size", "size of the partition read");
    for (u64 u = 0; u < n; ++u) CHECK_EQ(now[u], part[u], "block", "block of node " << u);
    break;
  }
  case 1: {
    const u64 kk = 1 + k % 3000;
    for (auto &b : part) b %= kk;
    io::partition::write_block_sizes(f.path, kk, part);
    std::vector<u64> cnt(kk);
    for (auto b : part) ++cnt[b];
    std::string want;
    for (u64 c : cnt) want += std::to_string(c) + "\n";
    CHECK_EQ(f.read(), want, "block-sizes", "block size file");
    const auto now = io::partition::read_block_sizes(f.path);
    CHECK_EQ((u64)now.size(), n, "size", "size of the partition read from block sizes");
    for (u64 u = 0; u < n; ++u) {
      CHECK_MSG(now[u] < kk && cnt[now[u]] > 0, "block", "block " << now[u] << " of node " << u);
      --cnt[now[u]];
      if (u) CHECK_MSG(now[u - 1] <= now[u], "block", "blocks are not contiguous at " << u);
    }
    break;
  }
  default: {
    std::vector<NodeID> p(part.begin(), part.end());
    io::remapping::write(f.path, p);
    std::string want;
    for (auto x : p) want += std::to_string(x) + "\n";
    CHECK_EQ(f.read(), want, "remapping", "remapping file");
  }
  }
}

PBT_TEST(validator, 2) { // accepts exactly the symmetric graphs without parallel edges
  const tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
  GraphOptions o;
  o.max_n = 200;
  o.max_m = 2000;
  pbt::G gr = gen_graph(g, o);
  label_graph(g, gr);
  const int how = gr.m() == 0 ? 0 : g.weighted({2, 2, 2, 2});
  const char *names[] = {"valid", "parallel edge", "missing reverse edge", "inconsistent weight"};
  g.label(names[how]);
  std::string note;
  if (how > 0) {
    g.nontrivial();
    u64 e = g.draw(gr.m()), u = 0;
    while (gr.xadj[u + 1] <= e) ++u;
    const u64 v = gr.adj[e];
    auto insert = [&](u64 a, u64 b, i64 w) {
      const u64 at = gr.xadj[a] + g.draw(gr.deg(a) + 1);
      gr.adj.insert(gr.adj.begin() + at, b);
      if (!gr.ew.empty()) gr.ew.insert(gr.ew.begin() + at, w);
      for (u64 x = a + 1; x <= gr.n; ++x) ++gr.xadj[x];
    };
    if (how == 1) { const i64 w = gr.we(e); insert(u, v, w); insert(v, u, w); }
    if (how == 2) {
      gr.adj.erase(gr.adj.begin() + e);
      if (!gr.ew.empty()) gr.ew.erase(gr.ew.begin() + e);
      for (u64 x = u + 1; x <= gr.n; ++x) --gr.xadj[x];
    }
    if (how == 3) {
      if (gr.ew.empty()) gr.ew.assign(gr.m(), 1);
      gr.ew[e] += g.range(1, 3);
    }
    note = std::string(" ") + names[how] + " " + std::to_string(u) + "-" + std::to_string(v);
  } else g.nontrivial(gr.m() > 0);
  g.note(gr.str() + note);
  const shm::Graph graph = to_graph(gr);
  const int st = in_child([&] { validate_undirected_graph(graph); });
  CHECK_EQ(st, how == 0 ? 0 : 1, "verdict", "exit status of the validator for a graph with: " << names[how]);
}

int main(int argc, char **argv) {
#if GUARDS
  g_maps = new std::map<void *, std::size_t>;
#endif
  pbt::Runner r;
  return r.main(argc, argv);
}
