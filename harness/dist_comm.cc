// D04: message exchanges
#include "distgen.h"

#include "kaminpar-dist/graphutils/communication.h"
#include "kaminpar-mpi/binary_reduction_tree.h"
#include "kaminpar-mpi/sparse_allreduce.h"
#include "kaminpar-mpi/sparse_alltoall.h"

using namespace dist_pbt;
namespace mpi = kaminpar::mpi;
namespace mg = kaminpar::mpi::graph;
using kaminpar::NoinitVector;

// --- message matrices
struct Round {
  int kind = 0;             // which exchange
  int comm = 0;             // 0: world, 1: duplicate, 2: split, 3: reversed
  std::vector<int> color;   // split
  std::vector<std::vector<u32>> cnt; // messages from -> to
  bool rvalue = false, free_comm = false;
};
struct MatrixCase : CaseBase {
  std::vector<Round> rounds;
};
static const char *kinds[] = {"default", "grid", "alltoallv", "complete", "get", "get const", "v", "grid dense"};
static void gen_matrix(Gen &g, MatrixCase &c) {
  gen_base(g, c, 9);
  if (g.chance(1, 6)) c.P = g.pick(std::vector<int>{7, 8, 9});
  const int R = g.range(1, 5);
  u64 total = 0;
  for (int i = 0; i < R; ++i) {
    Round r;
    r.kind = g.weighted({2, 5, 2, 2, 2, 1, 1, 1});
    r.comm = g.weighted({4, 2, 4, 2});
    if (r.comm == 2)
      for (int p = 0; p < c.P; ++p) r.color.push_back(g.draw(3));
    r.rvalue = g.flip();
    r.free_comm = g.chance(2, 3);
    r.cnt.assign(c.P, std::vector<u32>(c.P, 0));
    const int shape = g.weighted({4, 2, 2, 1, 1});
    const u32 big = shape == 3 ? 3000 : 12;
    Rng rng(g.seed());
    for (int a = 0; a < c.P; ++a)
      for (int b = 0; b < c.P; ++b) {
        u32 &n = r.cnt[a][b];
        switch (shape) {
        case 0: n = g.draw(4); break;
        case 1: n = rng.chance(1, 4) ? rng.below(big) : 0; break;
        case 2: n = rng.below(big); break;
        case 3: n = rng.chance(1, 2) ? rng.below(big) : 0; break;
        case 4: break; // nothing at all
        }
        total += n;
      }
    g.label(std::string("kind:") + kinds[r.kind]);
    g.label("comm:" + std::to_string(r.comm));
    std::string s = std::string("{") + kinds[r.kind] + " comm" + std::to_string(r.comm) + (r.free_comm ? "(freed)" : "") + " ";
    for (int x : r.color) s += std::to_string(x);
    if (c.P <= 4)
      for (auto &row : r.cnt) {
        s += "[";
        for (u32 n : row) s += std::to_string(n) + " ";
        s += "]";
      }
    g.note(s + "}");
    c.rounds.push_back(r);
  }
  g.nontrivial(c.P > 1 && total > 0);
}

template <typename M> M message(int round, int from, int to, u32 i);
template <> u64 message<u64>(int round, int from, int to, u32 i) { return mix(((u64)round << 50) ^ ((u64)from << 40) ^ ((u64)to << 30) ^ i); }
template <> u32 message<u32>(int round, int from, int to, u32 i) { return (u32)message<u64>(round, from, to, i); }
struct Odd {
  u32 a;
  std::uint8_t b;
  u64 c;
  bool operator==(const Odd &o) const { return a == o.a && b == o.b && c == o.c; }
};
template <> Odd message<Odd>(int round, int from, int to, u32 i) {
  const u64 m = message<u64>(round, from, to, i);
  Odd o;
  std::memset((void *)&o, 0, sizeof o);
  o.a = (u32)m, o.b = (std::uint8_t)(m >> 7), o.c = m * 3;
  return o;
}

template <typename M> static void exchange(const Round &r, int no, MPI_Comm comm, const Rank &rk, const std::vector<int> &members) {
  // members: world ranks by rank in comm
  const int size = members.size();
  int me;
  MPI_Comm_rank(comm, &me);
  auto count = [&](int a, int b) { return r.cnt[members[a]][members[b]]; };
  std::vector<NoinitVector<M>> send(size);
  for (int p = 0; p < size; ++p)
    for (u32 i = 0; i < count(me, p); ++i) send[p].push_back(message<M>(no, members[me], members[p], i));
  std::vector<int> calls(size, 0);
  std::vector<std::vector<M>> got(size);
  auto receive = [&](auto buf, const mpi::PEID pe) {
    if (pe < 0 || pe >= size) throw Failure{"sender", std::string(kinds[r.kind]) + ": messages from process " + std::to_string(pe) + " of " + std::to_string(size)};
    ++calls[pe];
    for (const M &m : buf) got[pe].push_back(m);
  };
  bool calls_known = true;
  using B = NoinitVector<M>;
  switch (r.kind) {
  case 0:
    if (r.rvalue) mpi::sparse_alltoall<M>(std::move(send), receive, comm);
    else mpi::sparse_alltoall<M>(std::as_const(send), receive, comm);
    break;
  case 1:
    if (r.rvalue) mpi::sparse_alltoall<M, B>(mpi::tag::grid, std::move(send), receive, comm);
    else mpi::sparse_alltoall<M, B>(mpi::tag::grid, send, receive, comm);
    break;
  case 2:
    if (r.rvalue) mpi::sparse_alltoall<M, B>(mpi::tag::alltoallv, std::move(send), receive, comm);
    else mpi::sparse_alltoall<M, B>(mpi::tag::alltoallv, send, receive, comm);
    break;
  case 3:
    if (r.rvalue) mpi::sparse_alltoall<M, B>(mpi::tag::complete_send_recv, std::move(send), receive, comm);
    else mpi::sparse_alltoall<M, B>(mpi::tag::complete_send_recv, send, receive, comm);
    break;
  case 4:
  case 5: {
    auto bufs = r.kind == 4 ? mpi::sparse_alltoall_get<M>(std::move(send), comm) : mpi::sparse_alltoall_get<M>(std::as_const(send), comm);
    CHECK_EQ(bufs.size(), (std::size_t)size, "buffers", "one buffer per process");
    for (int p = 0; p < size; ++p) receive(bufs[p], p);
    break;
  }
  case 6: {
    std::vector<M> sb, rb;
    std::vector<int> sc(size), sd(size + 1), rc(size), rd(size + 1);
    for (int p = 0; p < size; ++p) {
      sc[p] = send[p].size(), rc[p] = count(p, me);
      sd[p + 1] = sd[p] + sc[p], rd[p + 1] = rd[p] + rc[p];
      sb.insert(sb.end(), send[p].begin(), send[p].end());
    }
    rb.resize(rd[size]);
    mpi::sparse_alltoallv(sb.data(), sc.data(), sd.data(), rb.data(), rc.data(), rd.data(), comm);
    for (int p = 0; p < size; ++p) receive(std::vector<M>(rb.begin() + rd[p], rb.begin() + rd[p + 1]), p);
    break;
  }
  case 7: {
    NoinitVector<M> data;
    NoinitVector<int> counts(size);
    for (int p = 0; p < size; ++p) {
      counts[p] = send[p].size();
      for (const M &m : send[p]) data.push_back(m);
    }
    mpi::sparse_alltoall_grid<M, B>(std::move(data), counts, receive, comm);
    break;
  }
  }
  for (int p = 0; p < size; ++p) {
    CHECK_EQ(calls[p], 1, "calls", kinds[r.kind] << " round " << no << " comm " << r.comm << ": calls of the receiver for process " << p << " of " << size);
    CHECK_EQ(got[p].size(), (std::size_t)count(p, me), "count", kinds[r.kind] << " round " << no << " comm " << r.comm << ": messages from process " << p << " of " << size);
    for (u32 i = 0; i < got[p].size(); ++i)
      CHECK_MSG(got[p][i] == message<M>(no, members[p], members[me], i), "content", kinds[r.kind] << " round " << no << " comm " << r.comm << ": message " << i << " from process " << p << " of " << size);
  }
}

DIST_TEST(exchange, 6, MatrixCase, gen_matrix) {
  int no = 0;
  for (const Round &r : c.rounds) {
    MPI_Comm comm = MPI_COMM_WORLD;
    switch (r.comm) {
    case 1: MPI_Comm_dup(MPI_COMM_WORLD, &comm); break;
    case 2: MPI_Comm_split(MPI_COMM_WORLD, r.color[rk.rank], rk.rank, &comm); break;
    case 3: MPI_Comm_split(MPI_COMM_WORLD, 0, -rk.rank, &comm); break;
    }
    std::vector<int> members;
    for (int p = 0; p < rk.size; ++p) {
      if (r.comm == 2 && r.color[p] != r.color[rk.rank]) continue;
      members.push_back(p);
    }
    if (r.comm == 3) std::reverse(members.begin(), members.end());
    switch (no % 3) {
    case 0: exchange<u64>(r, no, comm, rk, members); break;
    case 1: exchange<Odd>(r, no, comm, rk, members); break;
    case 2: exchange<u32>(r, no, comm, rk, members); break;
    }
    if (comm != MPI_COMM_WORLD && r.free_comm) MPI_Comm_free(&comm);
    ++no;
  }
}

// --- grid layout, for every number of processes up to the bound
struct SizeCase : CaseBase {};
PBT_TEST(grid_topology, 1) {
  const u64 size = g.weighted({3, 1}) == 0 ? g.range(1, 70) : g.logsize(1, 20000);
  const mpi::GridTopology t((int)size);
  g.note("size=" + std::to_string(size));
  g.nontrivial(size > 1);
  std::vector<std::vector<int>> rows(t.num_rows()), vcols(t.num_full_cols());
  for (int p = 0; p < (int)size; ++p) {
    CHECK_MSG(t.row(p) >= 0 && t.row(p) < t.num_rows() && t.col(p) >= 0 && t.col(p) < t.num_cols(), "range", "process " << p << " of " << size << " at " << t.row(p) << "," << t.col(p));
    CHECK_MSG(t.virtual_col(p) >= 0 && t.virtual_col(p) < t.num_full_cols(), "range", "process " << p << " of " << size << " in virtual column " << t.virtual_col(p));
    rows[t.row(p)].push_back(p);
    vcols[t.virtual_col(p)].push_back(p);
    CHECK_EQ(t.row_size(t.row(p)), t.num_cols_in_row(t.row(p)), "row size", "of row " << t.row(p) << " of " << size);
  }
  for (int r = 0; r < t.num_rows(); ++r) CHECK_EQ((int)rows[r].size(), t.row_size(r), "row size", "of row " << r << " of " << size);
  u64 s = 0;
  for (int v = 0; v < t.num_full_cols(); ++v) {
    CHECK_EQ((int)vcols[v].size(), t.virtual_col_size(v), "column size", "of column " << v << " of " << size);
    // order within the column communicator: real members first
    std::stable_sort(vcols[v].begin(), vcols[v].end(), [&](int a, int b) { return std::make_pair(t.col(a) != v, a) < std::make_pair(t.col(b) != v, b); });
    for (int i = 0; i < (int)vcols[v].size(); ++i) CHECK_EQ(t.virtual_element(i, v), vcols[v][i], "element", "row " << i << " of column " << v << " of " << size);
    s += vcols[v].size();
  }
  CHECK_EQ(s, size, "partition", "all processes are in a column");
}

// --- reductions
struct RedCase : CaseBase {
  u64 len = 0;
  int density = 1;
  int root = 0;
};
static void gen_red(Gen &g, RedCase &c) {
  gen_base(g, c, 9);
  if (g.chance(1, 6)) c.P = g.pick(std::vector<int>{7, 8, 9});
  c.len = g.logsize(0, 300);
  c.density = 1 + g.draw(6);
  c.root = g.range(0, c.P - 1);
  g.note("len=" + std::to_string(c.len));
  g.nontrivial(c.P > 1 && c.len > 0);
}
DIST_TEST(reductions, 2, RedCase, gen_red) {
  auto val = [&](int p, u64 i) -> i64 {
    const u64 h = mix(c.seed ^ ((u64)p << 32) ^ i);
    return h % c.density == 0 ? (i64)(h >> 8 & 0xffff) - 30000 : 0;
  };
  std::vector<i64> exp(c.len, 0);
  for (int p = 0; p < rk.size; ++p)
    for (u64 i = 0; i < c.len; ++i) exp[i] += val(p, i);
  for (int kind = 0; kind < 3; ++kind) {
    if (kind == 1 && (rk.size & (rk.size - 1))) continue;
    std::vector<i64> buf(c.len + 1, -77);
    for (u64 i = 0; i < c.len; ++i) buf[i] = val(rk.rank, i);
    if (kind == 0) mpi::inplace_sparse_allreduce(mpi::tag::mpi_allreduce, buf, c.len, MPI_SUM, MPI_COMM_WORLD);
    if (kind == 1) mpi::inplace_sparse_allreduce(mpi::tag::doubling_allreduce, buf, c.len, MPI_SUM, MPI_COMM_WORLD);
    if (kind == 2) mpi::inplace_sparse_allreduce(buf, c.len, MPI_SUM, MPI_COMM_WORLD);
    for (u64 i = 0; i < c.len; ++i) CHECK_EQ(buf[i], exp[i], "allreduce", "kind " << kind << " entry " << i);
    CHECK_EQ(buf[c.len], -77, "allreduce", "kind " << kind << " changed an entry behind the buffer");
  }
  { // binary reduction tree: all contributions once, at process 0
    std::vector<u64> mine;
    for (u64 i = 0; i < c.len; ++i)
      if (val(rk.rank, i)) mine.push_back(((u64)rk.rank << 32) | i);
    auto r = mpi::perform_binary_reduction(mine, std::vector<u64>{}, [](std::vector<u64> a, std::vector<u64> b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    }, MPI_COMM_WORLD);
    if (rk.rank == 0) {
      std::sort(r.begin(), r.end());
      std::vector<u64> all;
      for (int p = 0; p < rk.size; ++p)
        for (u64 i = 0; i < c.len; ++i)
          if (val(p, i)) all.push_back(((u64)p << 32) | i);
      CHECK_MSG(r == all, "reduction tree", r.size() << " of " << all.size() << " contributions");
    }
  }
  const i64 mine = (i64)(mix(c.seed + rk.rank) % 1000) - 500;
  const auto vals = rk.each(mine);
  const i64 sum = std::accumulate(vals.begin(), vals.end(), (i64)0);
  CHECK_EQ(mpi::allreduce(mine, MPI_SUM, MPI_COMM_WORLD), sum, "allreduce", "single");
  const auto [mn, avg, mx, sm] = mpi::gather_statistics(mine, MPI_COMM_WORLD);
  CHECK_EQ(mn, *std::min_element(vals.begin(), vals.end()), "statistics", "minimum");
  CHECK_EQ(mx, *std::max_element(vals.begin(), vals.end()), "statistics", "maximum");
  CHECK_EQ(sm, sum, "statistics", "sum");
  CHECK_MSG(std::abs(avg - 1.0 * sum / rk.size) < 1e-6, "statistics", "average " << avg);
  CHECK_EQ(mpi::scan(mine, MPI_SUM, MPI_COMM_WORLD), std::accumulate(vals.begin(), vals.begin() + rk.rank + 1, (i64)0), "scan", "inclusive");
  if (rk.rank > 0) CHECK_EQ(mpi::exscan(mine, MPI_SUM, MPI_COMM_WORLD), std::accumulate(vals.begin(), vals.begin() + rk.rank, (i64)0), "scan", "exclusive");
  else mpi::exscan(mine, MPI_SUM, MPI_COMM_WORLD);
  const auto gathered = mpi::gather(mine, c.root, MPI_COMM_WORLD);
  if (rk.rank == c.root)
    for (int p = 0; p < rk.size; ++p) CHECK_EQ(gathered[p], vals[p], "gather", "process " << p);
  const auto ag = mpi::allgather(mine, MPI_COMM_WORLD);
  for (int p = 0; p < rk.size; ++p) CHECK_EQ(ag[p], vals[p], "allgather", "process " << p);
  CHECK_EQ(mpi::bcast(mine, c.root, MPI_COMM_WORLD), vals[c.root], "bcast", "root " << c.root);
  CHECK_EQ(mpi::reduce_single(mine, MPI_SUM, c.root, MPI_COMM_WORLD), rk.rank == c.root ? sum : 0, "reduce", "root " << c.root);
  const u64 len = mix(c.seed + 5 + rk.rank) % (c.len + 1);
  const auto dist = mpi::build_distribution_from_local_count<u64, NoinitVector>(len, MPI_COMM_WORLD);
  const auto lens = rk.each(len);
  u64 s = 0;
  for (int p = 0; p <= rk.size; ++p) {
    CHECK_EQ(dist[p], s, "distribution", "entry " << p);
    if (p < rk.size) s += lens[p];
  }
  const auto counts = mpi::build_counts_from_value(len, MPI_COMM_WORLD);
  const auto displs = mpi::build_displs_from_counts(counts);
  const auto displs2 = mpi::build_displs_from_value(len, MPI_COMM_WORLD);
  const auto rc = mpi::build_distribution_recvcounts(dist);
  const auto rd = mpi::build_distribution_displs(dist);
  for (int p = 0; p < rk.size; ++p) {
    CHECK_EQ((u64)counts[p], lens[p], "counts", "entry " << p);
    CHECK_EQ((u64)displs[p], dist[p], "displs", "entry " << p);
    CHECK_EQ((u64)displs2[p], dist[p], "displs", "entry " << p);
    CHECK_EQ((u64)rc[p], lens[p], "counts", "entry " << p);
    CHECK_EQ((u64)rd[p], dist[p], "displs", "entry " << p);
  }
  std::vector<u64> part(len), whole(s);
  for (u64 i = 0; i < len; ++i) part[i] = mix(rk.rank * 1000 + i);
  mpi::allgatherv(part, whole, rc, rd, MPI_COMM_WORLD);
  for (int p = 0; p < rk.size; ++p)
    for (u64 i = 0; i < lens[p]; ++i) CHECK_EQ(whole[dist[p] + i], mix(p * 1000 + i), "allgatherv", "entry " << i << " of process " << p);
}

// --- exchanges along the edges of a distributed graph
struct GraphCase : DistCase {
  int kind = 0, mode = 0, keep = 1;
  u64 from = 0, to = 0; // per thousand of the local nodes
};
static void gen_comm(Gen &g, GraphCase &c) {
  DistOptions o;
  o.graph.max_n = 250;
  o.graph.max_m = 2500;
  gen_dist_case(g, c, o);
  c.kind = g.draw(3);
  c.mode = g.draw(5);
  c.keep = 1 + g.draw(4);
  c.from = g.range(0, 1000), c.to = g.range(c.from, 1000);
  static const char *k[] = {"interface to ghost", "interface to process", "custom"};
  g.label(std::string("exchange:") + k[c.kind]);
  g.note(std::string(k[c.kind]) + " mode=" + std::to_string(c.mode) + " keep=1/" + std::to_string(c.keep) + " range=" + std::to_string(c.from) + ".." + std::to_string(c.to));
  g.nontrivial(c.P > 1 && c.gr.m() > 0);
}
namespace {
struct EdgeMsg {
  u64 u, v; // global
  i64 w;
  u32 pe;
  auto operator<=>(const EdgeMsg &) const = default;
};
} // namespace
DIST_TEST(along_edges, 5, GraphCase, gen_comm) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  const G &gr = c.gr;
  std::vector<std::vector<EdgeMsg>> got(rk.size), exp(rk.size);
  std::vector<int> calls(rk.size, 0);
  auto keep = [&](u64 gu) { return mix(c.seed ^ gu) % c.keep == 0; };
  auto keep_edge = [&](u64 gu, u64 gv) { return mix(c.seed ^ (gu * 1000003 + gv)) % c.keep == 0; };
  // range and order of the nodes of a process
  const bool ranged = c.mode >= 2, mapped = c.mode == 3;
  auto range_of = [&](int p, u64 &from, u64 &to) {
    const u64 n = c.dist[p + 1] - c.dist[p];
    from = ranged ? n * c.from / 1000 : 0;
    to = ranged ? n * c.to / 1000 : n;
  };
  auto map_of = [&](int p, u64 i) { // any permutation of the local nodes
    const u64 n = c.dist[p + 1] - c.dist[p];
    return mapped ? n - 1 - i : i;
  };
  u64 from, to;
  range_of(rk.rank, from, to);
  auto receive = [&](const auto &buf, const kd::PEID pe) {
    CHECK_MSG(pe >= 0 && pe < rk.size, "sender", "process " << pe);
    ++calls[pe];
    for (const EdgeMsg &m : buf) got[pe].push_back(m);
  };
  auto take = [&](auto bufs) {
    CHECK_EQ(bufs.size(), (std::size_t)rk.size, "buffers", "one per process");
    for (int p = 0; p < rk.size; ++p) receive(bufs[p], p);
  };
  auto gid = [&](kd::NodeID u) { return dg.local_to_global_node(u); };
  const kd::NodeID F = from, T = to;
  auto id = [](kd::NodeID u) { return u; };
  auto mapper = [&](kd::NodeID i) -> kd::NodeID { return map_of(rk.rank, i); };
  bool filtered = true, edge_filter = false;
  if (c.kind == 0) {
    auto build = [&](kd::NodeID u, kd::NodeID v, kd::EdgeWeight w) { return EdgeMsg{gid(u), gid(v), w, 0}; };
    auto build_pe = [&](kd::NodeID u, kd::NodeID v, kd::EdgeWeight w, kd::PEID pe) { return EdgeMsg{gid(u), gid(v), w, (u32)pe + 1}; };
    auto flt = [&](kd::NodeID u) { return keep(gid(u)); };
    auto eflt = [&](kd::NodeID u, kd::NodeID v, kd::EdgeWeight) { return keep_edge(gid(u), gid(v)); };
    switch (c.mode) {
    case 0:
      filtered = false;
      if (c.keep & 1) mg::sparse_alltoall_interface_to_ghost<EdgeMsg>(dg, build, receive);
      else take(mg::sparse_alltoall_interface_to_ghost_get<EdgeMsg>(dg, build));
      break;
    case 1:
      if (c.keep & 1) mg::sparse_alltoall_interface_to_ghost<EdgeMsg>(dg, flt, build_pe, receive);
      else take(mg::sparse_alltoall_interface_to_ghost_get<EdgeMsg>(dg, flt, build_pe));
      break;
    case 2:
      edge_filter = true;
      if (c.keep & 1) mg::sparse_alltoall_interface_to_ghost<EdgeMsg>(dg, F, T, eflt, build, receive);
      else take(mg::sparse_alltoall_interface_to_ghost_get<EdgeMsg>(dg, F, T, eflt, build));
      break;
    case 3:
      if (c.keep & 1) mg::sparse_alltoall_interface_to_ghost_custom_range<EdgeMsg>(dg, F, T, mapper, flt, build_pe, receive);
      else take(mg::sparse_alltoall_interface_to_ghost_custom_range_get<EdgeMsg>(dg, F, T, mapper, flt, build_pe));
      break;
    case 4:
      edge_filter = true;
      take(mg::sparse_alltoall_interface_to_ghost_custom_range_get<EdgeMsg>(dg, F, T, id, eflt, build_pe));
      break;
    }
  } else if (c.kind == 1) {
    auto build = [&](kd::NodeID u) { return EdgeMsg{gid(u), 0, 0, 0}; };
    auto build_pe = [&](kd::NodeID u, kd::PEID pe) { return EdgeMsg{gid(u), 0, 0, (u32)pe + 1}; };
    auto build_seq = [&](kd::NodeID i, kd::NodeID u, kd::PEID pe) { return EdgeMsg{gid(u), 0, i, (u32)pe + 1}; };
    auto flt = [&](kd::NodeID u) { return keep(gid(u)); };
    auto flt_seq = [&](kd::NodeID, kd::NodeID u) { return keep(gid(u)); };
    switch (c.mode) {
    case 0:
      filtered = false;
      if (c.keep & 1) mg::sparse_alltoall_interface_to_pe<EdgeMsg>(dg, build, receive);
      else take(mg::sparse_alltoall_interface_to_pe_get<EdgeMsg>(dg, build));
      break;
    case 1:
      if (c.keep & 1) mg::sparse_alltoall_interface_to_pe<EdgeMsg>(dg, flt, build_pe, receive);
      else take(mg::sparse_alltoall_interface_to_pe_get<EdgeMsg>(dg, flt, build_pe));
      break;
    case 2:
      if (c.keep & 1) mg::sparse_alltoall_interface_to_pe<EdgeMsg>(dg, F, T, flt, build, receive);
      else take(mg::sparse_alltoall_interface_to_pe_get<EdgeMsg>(dg, F, T, flt, build));
      break;
    case 3:
      if (c.keep & 1) mg::sparse_alltoall_interface_to_pe_custom_range<EdgeMsg>(dg, F, T, mapper, flt_seq, build_seq, receive);
      else take(mg::sparse_alltoall_interface_to_pe_custom_range_get<EdgeMsg>(dg, F, T, mapper, flt, build_pe));
      break;
    case 4: take(mg::sparse_alltoall_interface_to_pe_custom_range_get<EdgeMsg>(dg, F, T, id, flt, build)); break;
    }
  } else {
    auto flt = [&](kd::NodeID u) { return keep(gid(u)); };
    auto target = [&](kd::NodeID u) -> kd::PEID { return mix(gid(u) * 7 + c.seed) % rk.size; };
    auto build = [&](kd::NodeID u) { return EdgeMsg{gid(u), 0, 0, 0}; };
    if (c.mode & 1) mg::sparse_alltoall_custom<EdgeMsg>(dg, F, T, flt, target, build, receive);
    else take(mg::sparse_alltoall_custom<EdgeMsg>(dg, F, T, flt, target, build));
  }
  for (int p = 0; p < rk.size; ++p) {
    u64 f, t;
    range_of(p, f, t);
    for (u64 i = f; i < t; ++i) {
      const u64 u = c.dist[p] + (c.kind == 2 ? i : map_of(p, i));
      if (c.kind == 2) {
        if (keep(u) && (int)(mix(u * 7 + c.seed) % rk.size) == rk.rank) exp[p].push_back({u, 0, 0, 0});
        continue;
      }
      if (p == rk.rank || (filtered && !edge_filter && !keep(u))) continue;
      bool first = true;
      for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
        const u64 v = gr.adj[e];
        if (v < c.dist[rk.rank] || v >= c.dist[rk.rank + 1]) continue;
        if (c.kind == 0) {
          if (edge_filter && !keep_edge(u, v)) continue;
          exp[p].push_back({u, v, gr.we(e), c.mode == 1 || c.mode >= 3 ? (u32)rk.rank + 1 : 0});
        } else if (first) {
          const bool pe = c.mode == 1 || c.mode == 3, seq = c.mode == 3 && (c.keep & 1);
          exp[p].push_back({u, 0, seq ? (i64)i : 0, pe ? (u32)rk.rank + 1 : 0});
          first = false;
        }
      }
    }
    std::sort(got[p].begin(), got[p].end());
    std::sort(exp[p].begin(), exp[p].end());
    CHECK_EQ(calls[p], 1, "calls", "calls of the receiver for process " << p);
    if (got[p] != exp[p]) {
      std::ostringstream o;
      for (auto &m : got[p])
        if (!std::binary_search(exp[p].begin(), exp[p].end(), m)) { o << " unexpected (" << m.u << "," << m.v << "," << m.w << "," << m.pe << ")"; break; }
      for (auto &m : exp[p])
        if (!std::binary_search(got[p].begin(), got[p].end(), m)) { o << " missing (" << m.u << "," << m.v << "," << m.w << "," << m.pe << ")"; break; }
      CHECK_MSG(false, "messages", got[p].size() << " messages from process " << p << ", expected " << exp[p].size() << ":" << o.str());
    }
  }
}

// --- ghost copies after synchronisation
struct SyncCase : DistCase {
  u32 k = 1;
};
static void gen_sync(Gen &g, SyncCase &c) {
  DistOptions o;
  o.graph.max_n = 250;
  o.graph.max_m = 2500;
  gen_dist_case(g, c, o);
  c.k = 1 + g.draw(9);
  g.note("k=" + std::to_string(c.k));
  g.nontrivial(c.P > 1 && c.gr.m() > 0);
}
DIST_TEST(ghosts, 2, SyncCase, gen_sync) {
  Comm comm(c.comm);
  kd::DistributedGraph dg = make_dist(c, rk, comm.comm);
  for (kd::NodeID u : dg.ghost_nodes()) CHECK_EQ((i64)dg.node_weight(u), c.gr.w(dg.local_to_global_node(u)), "ghost weight", "of global node " << dg.local_to_global_node(u));
  auto blk = [&](u64 u, int round) -> kd::BlockID { return mix(c.seed + u + round * 77) % c.k; };
  StaticArray<kd::BlockID> part(dg.total_n());
  for (kd::NodeID u : dg.nodes()) part[u] = blk(dg.local_to_global_node(u), 0);
  kd::DistributedPartitionedGraph p(&dg, c.k, std::move(part));
  for (int round = 0; round < 2; ++round) {
    for (kd::NodeID u : dg.nodes()) p.set_block<false>(u, blk(dg.local_to_global_node(u), round));
    kd::graph::synchronize_ghost_node_block_ids(p);
    for (kd::NodeID u : dg.all_nodes()) CHECK_EQ(p.block(u), blk(dg.local_to_global_node(u), round), "ghost block", "of global node " << dg.local_to_global_node(u) << (dg.is_ghost_node(u) ? " (ghost)" : ""));
  }
}

int main(int argc, char **argv) { return dist_main(argc, argv); }
