// D09: the distributed program, run by all processes of a job with its real main()
#include <cmath>
#include <numeric>
#include <regex>
#define main dkaminpar_main
#include "apps/dKaMinPar.cc"
#undef main
#include "distgen.h"
#include "prog.h"

static bool g_inside = false; // the job is set up already when the program starts
extern "C" {
int MPI_Init_thread(int *argc, char ***argv, int required, int *provided) {
  if (!g_inside) return PMPI_Init_thread(argc, argv, required, provided);
  *provided = MPI_THREAD_FUNNELED;
  return MPI_SUCCESS;
}
int MPI_Finalize() { return g_inside ? MPI_SUCCESS : PMPI_Finalize(); }
}
namespace kaminpar::dist::io::skagen {
DistributedCSRGraph csr_streaming_generate(const std::string &, const PEID, const MPI_Comm) { std::_Exit(77); }
DistributedCompressedGraph compressed_streaming_generate(const std::string &, const PEID, const MPI_Comm) { std::_Exit(77); }
}

using namespace dist_pbt;

struct ProgCase : CaseBase {
  G gr;
  std::vector<u64> dist; // for graphs from KaGen
  int source = 0;        // 0: METIS file, 1: ParHiP file, 2: KaGen
  std::string text, name;
  std::vector<std::string> args;
  std::string preset = "default";
  u32 k = 2;
  double eps = 0.03;
  int reps = 0, verbosity = 0;
  bool deep = true, old = false;
};
static std::string parhip_exact(Gen &g, const G &gr) { // with the widths of this build
  const bool vw = !gr.vw.empty() || g.chance(1, 8), ew = !gr.ew.empty() || g.chance(1, 8);
  const bool nw8 = vw ? sizeof(kd::NodeWeight) == 8 : g.flip(), ew8 = ew ? sizeof(kd::EdgeWeight) == 8 : g.flip();
  const bool e8 = sizeof(kd::EdgeID) == 8, id8 = sizeof(kd::NodeID) == 8;
  std::string s;
  put<u64>(s, (u64)!ew | (u64)!vw << 1 | (u64)!e8 << 2 | (u64)!id8 << 3 | (u64)!nw8 << 4 | (u64)!ew8 << 5);
  put<u64>(s, gr.n);
  put<u64>(s, gr.m());
  auto num = [&](bool eight, u64 x) { if (eight) put<u64>(s, x); else put<u32>(s, x); };
  const u64 base = 24 + (gr.n + 1) * sizeof(kd::EdgeID);
  for (u64 x : gr.xadj) num(e8, base + x * sizeof(kd::NodeID));
  for (u64 v : gr.adj) num(id8, v);
  if (vw) for (u64 u = 0; u < gr.n; ++u) num(nw8, gr.w(u));
  if (ew) for (u64 e = 0; e < gr.m(); ++e) num(ew8, gr.we(e));
  return s;
}

static void gen_prog(Gen &g, ProgCase &c) {
  gen_base(g, c);
  GraphOptions o;
  o.allow_empty = false;
  o.max_n = g.chance(1, 10) ? 2000 : 300;
  o.max_m = 6 * o.max_n;
  o.weights = g.flip();
  c.gr = gen_graph(g, o);
  label_graph(g, c.gr);
  c.source = g.weighted({3, 3, 2});
  auto arg = [&](std::initializer_list<std::string> x) { c.args.insert(c.args.end(), x); };
  static const char *sources[] = {"METIS", "ParHiP", "KaGen"};
  g.label(sources[c.source]);
  if (c.source == 2) {
    c.dist = gen_dist(g, c.gr.n, c.P);
    c.name = g.flip() ? "grid_2d;n=10" : "graph.metis";
    if (g.flip()) arg({"--io-kind", "kagen"});
    if (g.chance(1, 3)) arg({"--io-kagen-distribution", g.pick<std::string>({"balance-edges", "balance-vertices"})});
  } else {
    arg({"--io-kind", "kaminpar", "--io-format", c.source == 0 ? "metis" : "parhip"});
    if (g.flip()) arg({"--io-distribution", g.pick<std::string>({"balanced-nodes", "balanced-edges", "balanced-memory-space"})});
    c.text = c.source == 0 ? metis_text(g, c.gr) : parhip_exact(g, c.gr);
    if (g.chance(1, 3)) {
      arg({g.flip() ? "-c" : "--compress"});
      g.label("compressed");
    }
  }
  if (g.chance(2, 3)) {
    c.preset = g.pick<std::string>({"default", "fast", "strong", "europar23-fast"});
    arg({g.flip() ? "-P" : "--preset", c.preset});
  }
  g.label("preset:" + c.preset);
  if (g.chance(1, 2)) arg({"--c-contraction-limit", std::to_string(g.pick<int>({1, 5, 20, 60}))});
  if (g.chance(1, 4)) arg({"--rearrange-by", g.pick<std::string>({"natural", "deg-buckets"})});
  if (g.chance(1, 8)) { c.deep = false; arg({"-m", "multilevel/kway"}); g.label("k-way mode"); }
  c.k = g.pick<u32>({1, 2, 2, 3, 4, 5, 8, 16, 27, 64, 200});
  arg({g.flip() ? "-k" : "--k", std::to_string(c.k)});
  if (g.flip()) {
    c.eps = g.pick({0.0, 0.001, 0.1, 0.5, 3.0});
    arg({"-e", show_double(c.eps)});
  }
  if (g.chance(2, 3)) arg({"-s", std::to_string(g.draw(100000))});
  arg({"-t", std::to_string(c.threads)});
  c.reps = g.chance(1, 3) ? g.draw(4) : 0;
  if (c.reps || g.chance(1, 6)) arg({"--repetitions", std::to_string(c.reps)});
  if (c.reps > 1) g.label("repetitions");
  c.verbosity = g.weighted({4, 1, 1, 1}) - 1;
  c.verbosity = c.verbosity < 0 ? 0 : c.verbosity == 0 ? -1 : c.verbosity;
  if (c.verbosity < 0) arg({g.flip() ? "-q" : "--quiet"});
  for (int i = 0; i < c.verbosity; ++i) arg({"--verbose"});
  if (g.chance(1, 5)) arg({"-T"});
  else if (g.chance(1, 5)) arg({"--max-timer-depth", std::to_string(g.draw(6))});
  c.old = g.flip(); // the file for the partition exists
  std::string s;
  for (auto &x : c.args) s += " " + x;
  g.note(s);
  g.nontrivial(c.P > 1 && c.gr.n > 1 && c.k > 1);
}

// Runs the program in all processes; returns what this process prints
static std::string run_program(std::vector<std::string> args, int &status) {
  struct Capture {
    File f;
    int old;
    Capture() { std::cout.flush(), std::fflush(stdout); old = dup(1); dup2(f.fd, 1); }
    ~Capture() { std::cout.flush(), std::fflush(stdout); dup2(old, 1); close(old); g_inside = false; }
  };
  Capture cap;
  args.insert(args.begin(), "dKaMinPar");
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  kaminpar::Logger::set_quiet_mode(false);
  g_inside = true;
  status = dkaminpar_main(args.size(), argv.data());
  g_inside = false;
  std::cout.flush(), std::fflush(stdout);
  return plain(cap.f.read());
}
static std::vector<i64> all_numbers(const std::string &out, const std::string &re) {
  std::vector<i64> v;
  const std::regex r(re);
  for (std::sregex_iterator i(out.begin(), out.end(), r), e; i != e; ++i) v.push_back(std::stoll((*i)[1]));
  return v;
}

DIST_TEST(program, 1, ProgCase, gen_prog) {
  const G &gr = c.gr;
  const std::string path = std::string(std::getenv("PBT_TMP")) + "/out." + std::to_string(rk.each<int>(getpid())[0]);
  if (rk.rank == 0) {
    unlink(path.c_str());
    if (c.old) std::ofstream(path) << "older\n" << std::string(20000, '1');
  }
  rk.each<int>(0);
  const File in(c.text);
  std::vector<std::string> args = c.args;
  const std::vector<std::string> files = {"-G", c.source == 2 ? c.name : in.path, "-o", path};
  args.insert(c.seed % 2 ? args.begin() : args.end(), files.begin(), files.end());
  if (c.source == 2) kagen::source() = [&](const std::string &name) {
    CHECK_EQ(name, c.name, "graph", "name of the graph");
    kagen::Graph x;
    const u64 from = c.dist[rk.rank], to = c.dist[rk.rank + 1];
    x.vertex_range = {from, to};
    for (u64 u = from; u <= to; ++u) x.xadj.push_back(gr.xadj[u] - gr.xadj[from]);
    x.adjncy.assign(gr.adj.begin() + gr.xadj[from], gr.adj.begin() + gr.xadj[to]);
    if (!gr.vw.empty()) x.vertex_weights.assign(gr.vw.begin() + from, gr.vw.begin() + to);
    if (!gr.ew.empty()) x.edge_weights.assign(gr.ew.begin() + gr.xadj[from], gr.ew.begin() + gr.xadj[to]);
    return x;
  };
  int status = -1;
  const std::string out = run_program(args, status);
  CHECK_EQ(status, 0, "status", "the program returns " << status << "; output: " << tail(out));
  rk.each<int>(0);
  if (rk.rank != 0) {
    rk.each<int>(0);
    return;
  }
  std::string written;
  {
    std::ifstream f(path, std::ios::binary);
    CHECK_MSG(f, "file", "the program writes no partition");
    std::stringstream ss;
    ss << f.rdbuf();
    written = ss.str();
  }
  unlink(path.c_str());
  const std::vector<i64> part = numbers(written, "partition");
  CHECK_EQ(part.size(), gr.n, "lines", "lines of the partition");
  std::vector<i64> w(c.k, 0);
  i64 cut = 0;
  for (u64 u = 0; u < gr.n; ++u) {
    CHECK_MSG(part[u] >= 0 && part[u] < c.k, "block", "node " << u << " is in block " << part[u] << " of " << c.k);
    w[part[u]] += gr.w(u);
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e)
      if (part[u] != part[gr.adj[e]]) cut += gr.we(e);
  }
  cut /= 2;
  const i64 perfect = (gr.total_w() + c.k - 1) / c.k, max = *std::max_element(w.begin(), w.end());
  const bool unit = gr.total_w() == (i64)gr.n;
  i64 limit = (i64)((1.0 + c.eps) * perfect);
  if (!unit) limit = std::max(limit, perfect + *std::max_element(gr.vw.begin(), gr.vw.end()));
  if (unit && c.deep) CHECK_MSG(max <= (i64)((1.0 + c.eps) * perfect + 1e-9), "balance", "a block weighs " << max << ", the limit is " << limit);
  if (c.verbosity < 0) {
    std::istringstream lines(out);
    for (std::string l; std::getline(lines, l);) CHECK_MSG(l.empty() || l.rfind("[Warning]", 0) == 0, "quiet", "a quiet program prints: " << tail(out));
  } else {
    const std::size_t runs = std::max(c.reps, 1);
    const std::vector<i64> cuts = all_numbers(out, "\n  Edge cut: +(-?[0-9]+)\n");
    CHECK_EQ(cuts.size(), runs, "summary", "summaries printed; output: " << tail(out));
    const std::vector<i64> ks = all_numbers(out, "\n  Number of blocks: +([0-9]+)\n");
    CHECK_MSG(ks.size() >= runs && std::count(ks.begin(), ks.end(), c.k) == (i64)ks.size(), "summary", "number of blocks printed; output: " << tail(out));
    CHECK_EQ(cut, *std::min_element(cuts.begin(), cuts.end()), "cut", "cut of the partition written, and the best cut printed; output: " << tail(out));
    i64 x;
    if (c.reps > 0) {
      CHECK_MSG(find_number(out, "\nBest cut: +([0-9]+)\n", x), "summary", "no best cut; output: " << tail(out));
      CHECK_EQ(x, cut, "cut", "best cut");
      CHECK_MSG(find_number(out, "\nWorst cut: +([0-9]+)\n", x), "summary", "no worst cut; output: " << tail(out));
      CHECK_EQ(x, *std::max_element(cuts.begin(), cuts.end()), "cut", "worst cut");
    }
    if (runs == 1) {
      const std::size_t last = out.rfind("\nPartition summary:");
      CHECK_MSG(last != std::string::npos, "summary", "no summary; output: " << tail(out));
      const std::string summary = out.substr(last);
      std::smatch m;
      CHECK_MSG(std::regex_search(summary, m, std::regex("\n  Imbalance: +([-+.0-9e]+)\n")), "summary", "no imbalance; output: " << tail(out));
      CHECK_MSG(std::abs(std::stod(m[1]) - (1.0 * max / perfect - 1)) <= 1e-5 * (1 + 1.0 * max / perfect), "imbalance", "imbalance printed: " << m[1] << ", is " << 1.0 * max / perfect - 1 << ": the heaviest block weighs " << max << " of " << gr.total_w() << ", k=" << c.k << " n=" << gr.n << "; output: " << tail(out));
      CHECK_MSG(std::regex_search(summary, m, std::regex("\n  Feasible: +(yes|no)\n")), "summary", "no feasibility; output: " << tail(out));
      CHECK_EQ(m[1] == "yes", max <= limit, "feasible", "feasible? A block weighs " << max << ", the limit is " << limit);
    }
    if (c.verbosity == 1) {
      const auto r = all_numbers(out, "\nRESULT cut=(-?[0-9]+) ");
      CHECK_MSG(r == cuts, "parseable", "parseable results; output: " << tail(out));
    }
  }
  rk.each<int>(0);
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
