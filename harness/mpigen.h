// Distributed tests. A case is drawn in a worker of the engine and handed (as its choice tape) to an MPI job that the
// worker keeps running; every rank draws the same case again, takes part in the operation and checks what it sees.
// The first rank whose check fails ends the job; a rank that dies ends it, too. Sends can be delayed and made synchronous.
#pragma once
#include <memory>
#include <poll.h>
#include <sys/prctl.h>
#include <thread>
#include <mpi.h>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
#include "pbt.h"

namespace dist_pbt {
using namespace pbt;

// --- Perturbed MPI calls (the library's calls end here, MPI itself uses the PMPI_ names)
struct Perturb {
  int delay = 0;     // one in `delay` calls sleeps, 0: never
  bool sync = false; // standard sends wait for the receiver, which MPI allows
  Rng rng{1};
  void hit() {
    if (delay > 0 && rng.below(delay) == 0) usleep(rng.below(200));
  }
};
inline Perturb &perturb() {
  static Perturb p;
  return p;
}
} // namespace dist_pbt
extern "C" {
#define W(name, params, args) int MPI_##name params { dist_pbt::perturb().hit(); return PMPI_##name args; }
int MPI_Send(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) {
  dist_pbt::perturb().hit();
  return dist_pbt::perturb().sync ? PMPI_Ssend(b, c, t, d, tag, m) : PMPI_Send(b, c, t, d, tag, m);
}
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *r) {
  dist_pbt::perturb().hit();
  return dist_pbt::perturb().sync ? PMPI_Issend(b, c, t, d, tag, m, r) : PMPI_Isend(b, c, t, d, tag, m, r);
}
W(Recv, (void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Status *st), (b, c, t, s, tag, m, st))
W(Probe, (int s, int tag, MPI_Comm m, MPI_Status *st), (s, tag, m, st))
W(Barrier, (MPI_Comm m), (m))
W(Allreduce, (const void *a, void *b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm m), (a, b, c, t, o, m))
W(Reduce, (const void *a, void *b, int c, MPI_Datatype t, MPI_Op o, int r, MPI_Comm m), (a, b, c, t, o, r, m))
W(Bcast, (void *b, int c, MPI_Datatype t, int r, MPI_Comm m), (b, c, t, r, m))
W(Allgather, (const void *a, int ac, MPI_Datatype at, void *b, int bc, MPI_Datatype bt, MPI_Comm m), (a, ac, at, b, bc, bt, m))
W(Alltoall, (const void *a, int ac, MPI_Datatype at, void *b, int bc, MPI_Datatype bt, MPI_Comm m), (a, ac, at, b, bc, bt, m))
W(Alltoallv, (const void *a, const int *ac, const int *ad, MPI_Datatype at, void *b, const int *bc, const int *bd, MPI_Datatype bt, MPI_Comm m), (a, ac, ad, at, b, bc, bd, bt, m))
#undef W
}

namespace dist_pbt {
// --- What a rank knows
struct Rank {
  MPI_Comm comm = MPI_COMM_WORLD;
  int rank = 0, size = 1;
  template <typename T> std::vector<std::vector<T>> all(const std::vector<T> &mine) const { // everybody's vector on everybody
    static_assert(std::is_trivially_copyable_v<T>);
    int n = mine.size() * sizeof(T);
    std::vector<int> ns(size), ds(size + 1);
    PMPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, comm);
    for (int i = 0; i < size; ++i) ds[i + 1] = ds[i] + ns[i];
    std::vector<char> buf(ds[size] + 1);
    PMPI_Allgatherv(mine.data(), n, MPI_BYTE, buf.data(), ns.data(), ds.data(), MPI_BYTE, comm);
    std::vector<std::vector<T>> r(size);
    for (int i = 0; i < size; ++i) {
      r[i].resize(ns[i] / sizeof(T));
      std::memcpy((void *)r[i].data(), buf.data() + ds[i], ns[i]);
    }
    return r;
  }
  template <typename T> std::vector<T> each(const T &mine) const {
    std::vector<T> r;
    for (auto &v : all(std::vector<T>{mine})) r.push_back(v[0]);
    return r;
  }
};

struct CaseBase {
  int P = 1, threads = 1;
  int delay = 0;
  bool sync = false;
  u64 seed = 0;
};
// Number of processes, threads and perturbation of a case
inline void gen_base(Gen &g, CaseBase &c, int max_p = 6) {
  const bool deep = std::getenv("PBT_TIER") && std::string(std::getenv("PBT_TIER")) == "thorough";
  const int more = deep || max_p > 6;
  c.P = (int)g.weighted({2, 4, 4, 4, 2, 1, more, more, more}) + 1;
  c.P = std::min(c.P, max_p);
  c.threads = g.weighted({3, 2, 1}) + 1;
  switch (g.weighted({3, 2, 1})) {
  case 1: c.delay = 4; break;
  case 2: c.delay = 1 + g.draw(20); break;
  }
  c.sync = g.flip();
  c.seed = g.seed();
  g.label("P:" + std::to_string(c.P));
  g.label("threads:" + std::to_string(c.threads));
  if (c.delay) g.label("delayed messages");
  if (c.sync) g.label("synchronous sends");
  g.note("P=" + std::to_string(c.P) + " t=" + std::to_string(c.threads) + " ");
}

struct DTest {
  std::string name;
  std::function<void(Gen &, Rank &)> run; // in a rank
};
inline std::vector<DTest> &dtests() {
  static std::vector<DTest> t;
  return t;
}

inline bool write_all(int fd, const void *p, std::size_t n) {
  const char *c = (const char *)p;
  while (n > 0) {
    ssize_t k = write(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k, n -= k;
  }
  return true;
}
inline bool read_all(int fd, void *p, std::size_t n) {
  char *c = (char *)p;
  while (n > 0) {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k, n -= k;
  }
  return true;
}

class Job { // an MPI job with P ranks, seen from the worker
public:
  explicit Job(int P) : _P(P) {
    static int count = 0;
    _dir = std::string(std::getenv("PBT_TMP")) + "/job" + std::to_string(getpid()) + "." + std::to_string(count++);
    mkdir(_dir.c_str(), 0700);
    for (int r = 0; r < P; ++r)
      for (const char *s : {"in", "out"}) {
        const std::string f = _dir + "/" + s + std::to_string(r);
        mkfifo(f.c_str(), 0600);
        (s[0] == 'i' ? _in : _out).push_back(open(f.c_str(), O_RDWR | O_CLOEXEC));
      }
    char exe[4096];
    const ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[l] = 0;
    const char *wrapper = std::getenv("PBT_RANK_WRAPPER"); // for debugging: a script that runs its arguments
    const pid_t me = getpid();
    _pid = fork();
    if (_pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (getppid() != me) _exit(1);
      setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1);
      setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1);
      const std::string np = std::to_string(P), tmp = std::getenv("PBT_TMP");
      const int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0);
      execlp("mpirun", "mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "mpi_yield_when_idle", "1", "--mca", "btl", "self,vader", "--mca", "pml", "ob1",
             "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "orte_tmpdir_base", tmp.c_str(), "-n", np.c_str(), wrapper ? wrapper : exe, wrapper ? exe : "--mpi-rank", wrapper ? "--mpi-rank" : _dir.c_str(), wrapper ? _dir.c_str() : nullptr, (char *)nullptr);
      _exit(127);
    }
  }
  ~Job() { stop(); }
  void stop() {
    if (_pid > 0) {
      kill(_pid, SIGKILL);
      waitpid(_pid, nullptr, 0);
      _pid = -1;
    }
    for (int f : _in) close(f);
    for (int f : _out) close(f);
    _in.clear(), _out.clear();
  }
  // Returns true if all ranks passed; otherwise the job is over
  bool run(u64 test, const std::vector<u64> &tape, std::string &tag, std::string &msg) {
    std::vector<u64> m = {test, tape.size()};
    m.insert(m.end(), tape.begin(), tape.end());
    for (int fd : _in) write_all(fd, m.data(), m.size() * 8);
    std::vector<char> got(_P, 0);
    int left = _P;
    for (;;) {
      std::vector<pollfd> ps;
      std::vector<int> who;
      for (int r = 0; r < _P; ++r)
        if (!got[r]) ps.push_back({_out[r], POLLIN, 0}), who.push_back(r);
      const int k = poll(ps.data(), ps.size(), 50);
      for (std::size_t i = 0; k > 0 && i < ps.size(); ++i) {
        if (!(ps[i].revents & POLLIN)) continue;
        u32 h[3];
        read_all(ps[i].fd, h, sizeof h);
        std::string t(h[1], 0), s(h[2], 0);
        read_all(ps[i].fd, t.data(), t.size());
        read_all(ps[i].fd, s.data(), s.size());
        got[who[i]] = 1;
        if (h[0] != 0) {
          tag = t;
          msg = "on process " + std::to_string(who[i]) + " of " + std::to_string(_P) + ": " + s;
          stop();
          return false;
        }
        --left;
      }
      if (left == 0) return true;
      int st;
      if (k <= 0 && waitpid(_pid, &st, WNOHANG) == _pid) {
        _pid = -1;
        tag = "crash";
        msg = "a process ended";
        for (int r = 0; r < _P; ++r) {
          std::ifstream in(_dir + "/log" + std::to_string(r));
          std::stringstream ss;
          ss << in.rdbuf();
          const std::string s = ss.str();
          for (const char *w : {"KASSERT FAILED", "ERROR: AddressSanitizer", "runtime error:", "*** Process received signal", "terminate called", "MPI_ERR"}) {
            auto p = s.rfind(w);
            if (p == std::string::npos) continue;
            tag = std::string("crash:") + (w[0] == '*' || w[0] == 't' ? "signal" : w);
            msg += "\n[" + std::to_string(r) + "] " + s.substr(p, 1500);
            break;
          }
        }
        if (tag == "crash")
          for (int r = 0; r < P_(); ++r) {
            std::ifstream in(_dir + "/log" + std::to_string(r));
            std::stringstream ss;
            ss << in.rdbuf();
            const std::string s = ss.str();
            if (!s.empty()) msg += "\n[" + std::to_string(r) + "] ..." + s.substr(s.size() > 500 ? s.size() - 500 : 0);
          }
        stop();
        return false;
      }
    }
  }

private:
  int P_() const { return _P; }
  int _P;
  std::string _dir;
  std::vector<int> _in, _out;
  pid_t _pid = -1;
};

inline void remote(Gen &g, int P, const std::string &name, const Shm *shm) {
  static std::map<int, std::unique_ptr<Job>> jobs;
  static pid_t owner = 0;
  if (owner != getpid()) { // forked: the jobs belong to somebody else
    for (auto &j : jobs) j.second.release();
    jobs.clear();
    owner = getpid();
  }
  u64 t = 0;
  while (dtests()[t].name != name) ++t;
  auto &j = jobs[P];
  if (!j) j = std::make_unique<Job>(P);
  std::string tag, msg;
  if (!j->run(t, std::vector<u64>(shm->tape, shm->tape + shm->tape_len), tag, msg)) {
    j.reset();
    throw Failure{tag, msg};
  }
}

inline int rank_main(const std::string &dir) {
  const pid_t parent = getppid();
  std::thread([parent] {
    while (getppid() == parent) usleep(100000);
    _exit(3);
  }).detach();
  int provided;
  MPI_Init_thread(nullptr, nullptr, MPI_THREAD_FUNNELED, &provided);
  Rank rk;
  PMPI_Comm_rank(MPI_COMM_WORLD, &rk.rank);
  PMPI_Comm_size(MPI_COMM_WORLD, &rk.size);
  const std::string r = std::to_string(rk.rank);
  const int log = open((dir + "/log" + r).c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
  dup2(log, 1);
  dup2(log, 2);
  const int in = open((dir + "/in" + r).c_str(), O_RDONLY), out = open((dir + "/out" + r).c_str(), O_WRONLY);
  Shm *shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 h[2];
  u64 cases = 0;
  while (read_all(in, h, sizeof h)) {
    std::vector<u64> tape(h[1]);
    if (!read_all(in, tape.data(), tape.size() * 8)) break;
    u32 res[3] = {0, 0, 0};
    std::string tag, msg;
    try {
      Gen g(shm, &tape);
      rk.comm = MPI_COMM_WORLD;
      dtests()[h[0]].run(g, rk);
      perturb().delay = 0;
      perturb().sync = false;
      PMPI_Barrier(MPI_COMM_WORLD);
      int flag = 0;
      MPI_Status st;
      PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &st);
      if (flag) throw Failure{"unreceived", "a message from process " + std::to_string(st.MPI_SOURCE) + " was never received"};
      PMPI_Barrier(MPI_COMM_WORLD);
    } catch (const Failure &f) {
      res[0] = 1, tag = f.tag, msg = f.msg;
    } catch (const Rejected &) {
      res[0] = 1, tag = "harness", msg = "rejected in a rank";
    } catch (const std::exception &e) {
      res[0] = 1, tag = "exception", msg = std::string("uncaught exception: ") + e.what();
    }
    msg = msg.substr(0, MSG_LEN - 100);
    res[1] = tag.size(), res[2] = msg.size();
    std::string all((const char *)res, sizeof res);
    all += tag + msg;
    if (!write_all(out, all.data(), all.size()) || res[0]) pause();
    if (++cases % 64 == 0) {
      std::fflush(stdout);
      if (ftruncate(1, 0) != 0) {}
    }
  }
  _exit(0);
}

template <typename C> struct DReg {
  DReg(const char *name, int weight, void (*gen)(Gen &, C &), void (*run)(const C &, Rank &)) {
    dtests().push_back({name, [gen, run](Gen &g, Rank &rk) {
      C c;
      gen(g, c);
      perturb().rng = Rng(c.seed * 64 + rk.rank);
      perturb().delay = c.delay;
      perturb().sync = c.sync;
      tbb::task_arena arena(c.threads);
      arena.execute([&] { run(c, rk); });
    }});
    tests().push_back({name, weight, [gen, n = std::string(name)](Gen &g) {
      C c;
      gen(g, c);
      remote(g, c.P, n, g.shm());
    }});
  }
};
// DIST_TEST(name, weight, Case, gen_function) { run with `c` (the case) and `rk` (this rank) }
#define DIST_TEST(name, weight, Case, gen)                                                         \
  static void dist_run_##name(const Case &, dist_pbt::Rank &);                                     \
  static dist_pbt::DReg<Case> dist_reg_##name(#name, weight, gen, dist_run_##name);                \
  static void dist_run_##name(const Case &c, dist_pbt::Rank &rk)

// DIST_KNOWN(name, Case, fill) { run with `c` and `rk` }: a fixed case that fails; fill(c) sets the case up
template <typename C> struct DKnown {
  DKnown(const char *name, void (*fill)(C &), void (*run)(const C &, Rank &)) {
    const u64 t = dtests().size();
    dtests().push_back({name, [fill, run](Gen &, Rank &rk) {
      C c;
      fill(c);
      tbb::task_arena arena(c.threads);
      arena.execute([&] { run(c, rk); });
    }});
    knowns().push_back({name, [fill, t] {
      C c;
      fill(c);
      Job job(c.P);
      std::string tag, msg;
      if (!job.run(t, {}, tag, msg)) throw Failure{tag, msg};
    }});
  }
};
#define DIST_KNOWN(name, Case, fill)                                                               \
  static void dist_run_##name(const Case &, dist_pbt::Rank &);                                     \
  static dist_pbt::DKnown<Case> dist_known_##name(#name, fill, dist_run_##name);                   \
  static void dist_run_##name(const Case &c, dist_pbt::Rank &rk)

inline int dist_main(int argc, char **argv) {
  if (argc == 3 && std::string(argv[1]) == "--mpi-rank") return rank_main(argv[2]);
  config().workers = 3;
  config().hang_s = 40;
  config().confirm_runs = 4;
  config().shrink_s = 60;
  Runner r;
  return r.main(argc, argv);
}
} // namespace dist_pbt
