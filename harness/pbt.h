// Small property-based testing engine used by every harness in this directory.
//
// * A test is a function of a Gen. All randomness comes from Gen::draw(), which records every drawn
//   integer on a "choice tape". The tape of case i is a pure function of (VERIF_SEED, test, i).
// * A supervisor process (which never touches the code under test) forks workers that run cases, so
//   crashes, aborts, foreign exceptions and hangs of a worker are observations.
// * A failing case is re-run in isolated child processes before it is believed, and is shrunk by
//   generic tape reduction (drop / zero / lower choices). The minimal tape is the replay file.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i32 = std::int32_t;
using u16 = std::uint16_t;
using i64 = std::int64_t;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng { // splitmix64; for bulk data derived from one drawn seed
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 b) { return b <= 1 ? 0 : (u64)(((unsigned __int128)next() * b) >> 64); }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
  template <typename V> void shuffle(V &v) {
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

struct Failure {
  std::string tag, msg;
};
struct Rejected {};

inline u64 now_ms() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

constexpr std::size_t TAPE_CAP = 1u << 16, HASH_CAP = 1u << 19, MAX_LABELS = 200, N_SAMPLES = 3,
                      SAMPLE_LEN = 600, DESC_LEN = 6000, MSG_LEN = 3000;

enum State : int { S_IDLE = 0, S_RUNNING = 1, S_FAILED = 2, S_FINISHED = 3 };

struct Shm { // one per worker process, MAP_SHARED with the supervisor
  std::atomic<u64> case_idx, start_ms;
  std::atomic<int> state;
  u64 first_idx; // first case this process ran (for sequence replays)
  u64 done, nontrivial, rejected, n_hash;
  u64 tape_len;
  bool tape_overflow;
  int nlabels, nsamples;
  char tag[256];
  char msg[MSG_LEN];
  std::size_t desc_len;
  char desc[DESC_LEN];
  char label[MAX_LABELS][56];
  u64 label_n[MAX_LABELS];
  char sample[N_SAMPLES][SAMPLE_LEN];
  u64 hash[HASH_CAP];
  u64 tape[TAPE_CAP];
};

class Gen {
public:
  Gen(Shm *shm, u64 seed) : _shm(shm), _rng(seed), _replay(nullptr) { reset(); }
  Gen(Shm *shm, const std::vector<u64> *tape) : _shm(shm), _rng(0), _replay(tape) { reset(); }

  // Uniform in [0, bound). 0 is the simplest value.
  u64 draw(u64 bound) {
    u64 v;
    if (_replay != nullptr) {
      v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
      if (bound != 0 && v >= bound) v %= bound;
    } else {
      v = bound == 0 ? _rng.next() : _rng.below(bound);
    }
    if (_pos < TAPE_CAP) _shm->tape[_pos] = v;
    else _shm->tape_overflow = true;
    ++_pos;
    _shm->tape_len = std::min<u64>(_pos, TAPE_CAP);
    return v;
  }
  i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo) + 1); }
  bool chance(u64 num, u64 den) { return draw(den) >= den - num; } // "false" is simplest
  bool flip() { return draw(2) == 1; }
  // Log-uniform size in [lo, hi]
  u64 logsize(u64 lo, u64 hi) {
    int bl = 0, bh = 0;
    while ((1ull << (bl + 1)) <= lo + 1 && bl < 62) ++bl;
    while ((1ull << (bh + 1)) <= hi + 1 && bh < 62) ++bh;
    const u64 b = range(bl, bh);
    const u64 a = std::max<u64>(lo, (1ull << b) - 1), z = std::min<u64>(hi, (1ull << (b + 1)) - 2);
    return a >= z ? std::min(a, hi) : (u64)range(a, z);
  }
  u64 seed() { return draw(1u << 20); }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  // index drawn with given weights
  std::size_t weighted(std::initializer_list<int> w) {
    u64 s = 0;
    for (int x : w) s += x;
    u64 r = draw(s), i = 0;
    for (int x : w) {
      if (r < (u64)x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }

  [[noreturn]] void fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }
  void reject() { throw Rejected{}; }

  void label(const std::string &s) { _labels.push_back(s); }
  void nontrivial(bool b = true) { _nontrivial = _nontrivial || b; }
  bool is_nontrivial() const { return _nontrivial; }
  const Shm *shm() const { return _shm; }
  void note(const std::string &s) {
    const std::size_t room = DESC_LEN - 1 - _shm->desc_len, l = std::min(room, s.size());
    std::memcpy(_shm->desc + _shm->desc_len, s.data(), l);
    _shm->desc_len += l;
    _shm->desc[_shm->desc_len] = 0;
  }
  const std::vector<std::string> &labels() const { return _labels; }
  u64 tape_hash() const {
    u64 h = 1469598103934665603ull;
    for (u64 i = 0; i < _shm->tape_len; ++i) h = (h ^ _shm->tape[i]) * 1099511628211ull + (h >> 29);
    return h;
  }

private:
  void reset() {
    _pos = 0;
    _shm->tape_len = 0;
    _shm->tape_overflow = false;
    _shm->desc_len = 0;
    _shm->desc[0] = 0;
    _shm->tag[0] = 0;
    _shm->msg[0] = 0;
  }
  Shm *_shm;
  Rng _rng;
  const std::vector<u64> *_replay;
  u64 _pos = 0;
  bool _nontrivial = false;
  std::vector<std::string> _labels;
};

struct StrBuilder {
  std::ostringstream os;
  template <typename T> StrBuilder &operator<<(const T &t) {
    os << t;
    return *this;
  }
};

#define CHECK_MSG(cond, tag, stream)                                                               \
  do {                                                                                             \
    if (!(cond)) {                                                                                 \
      pbt::StrBuilder sb_;                                                                         \
      sb_ << stream;                                                                               \
      throw pbt::Failure{tag, sb_.os.str()};                                                       \
    }                                                                                              \
  } while (false)
#define CHECK_EQ(a, b, tag, stream)                                                                \
  do {                                                                                             \
    const auto a_ = (a);                                                                           \
    const auto b_ = (b);                                                                           \
    if (!(a_ == b_)) {                                                                             \
      pbt::StrBuilder sb_;                                                                         \
      sb_ << "got " << a_ << " expected " << b_ << "; " << stream;                                 \
      throw pbt::Failure{tag, sb_.os.str()};                                                       \
    }                                                                                              \
  } while (false)

struct Test {
  std::string name;
  int weight;
  std::function<void(Gen &)> fn;
};
inline std::vector<Test> &tests() {
  static std::vector<Test> t;
  return t;
}
struct Known {
  std::string name;
  std::function<void()> fn; // throws Failure / crashes while the defect is present
};
inline std::vector<Known> &knowns() {
  static std::vector<Known> t;
  return t;
}
struct Reg {
  Reg(const char *n, int w, std::function<void(Gen &)> f) { tests().push_back({n, w, f}); }
};
struct RegKnown {
  RegKnown(const char *n, std::function<void()> f) { knowns().push_back({n, f}); }
};
#define PBT_TEST(name, weight)                                                                     \
  static void pbt_fn_##name(pbt::Gen &);                                                           \
  static pbt::Reg pbt_reg_##name(#name, weight, pbt_fn_##name);                                    \
  static void pbt_fn_##name(pbt::Gen &g)
#define PBT_KNOWN(name)                                                                            \
  static void pbt_known_##name();                                                                  \
  static pbt::RegKnown pbt_regk_##name(#name, pbt_known_##name);                                   \
  static void pbt_known_##name()

struct Config {
  double hang_s = 60;      // one case may take this long before it is suspected to hang
  int confirm_runs = 6;    // isolated re-runs of a failing case
  int workers = 8;
  double shrink_s = 25;
  std::function<void()> per_process; // run at the start of each worker process
};
inline Config &config() {
  static Config c;
  return c;
}

struct Result {
  enum K { PASS, FAIL, CRASH, HANG, REJECT } k = PASS;
  std::string tag, msg, desc;
  std::vector<u64> tape;
  bool bad() const { return k == FAIL || k == CRASH || k == HANG; }
};

class Runner {
public:
  int main(int argc, char **argv) {
    std::string out, replay, known, only;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--seed") _seed = std::stoull(next());
      else if (a == "--secs") _secs = std::stod(next());
      else if (a == "--max-cases") _max_cases = std::stoull(next());
      else if (a == "--out") out = next();
      else if (a == "--replay") replay = next();
      else if (a == "--known") known = next();
      else if (a == "--replay-dir") _replay_dir = next();
      else if (a == "--workers") config().workers = std::stoi(next());
      else if (a == "--test") only = next();
      else if (a == "--id") _id = next();
      else if (a == "--tier") _tier = next();
      else if (a == "--keep-going") _keep_going = true;
      else if (a == "--hang") _hang_override = std::stod(next());
      else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    setenv("PBT_TIER", _tier.c_str(), 1);
    if (_hang_override > 0) config().hang_s = _hang_override;
    if (!only.empty()) {
      std::vector<Test> t;
      for (auto &x : tests()) if (x.name == only) t.push_back(x);
      tests() = t;
    }
    std::sort(tests().begin(), tests().end(), [](auto &a, auto &b) { return a.name < b.name; });
    for (auto &t : tests()) _total_weight += t.weight;
    char tmpl[] = "/tmp/pbt.XXXXXX";
    _tmp = mkdtemp(tmpl);
    setenv("PBT_TMP", _tmp.c_str(), 1);
    _iso = map_shm();
    int rc;
    if (!known.empty()) rc = run_known(known);
    else if (!replay.empty()) rc = run_replay(replay);
    else rc = search(out);
    cleanup_tmp();
    return rc;
  }

private:
  u64 _seed = 1, _max_cases = ~0ull, _total_weight = 0;
  double _secs = 10;
  int _replay_count = 0;
  std::string _replay_dir = ".", _id = "X", _tmp, _tier = "quick";
  bool _keep_going = false;
  double _hang_override = 0;
  Shm *_iso = nullptr;

  void cleanup_tmp() {
    if (_tmp.rfind("/tmp/pbt.", 0) == 0) {
      pid_t p = fork();
      if (p == 0) {
        execlp("rm", "rm", "-rf", "--", _tmp.c_str(), (char *)nullptr);
        _exit(1);
      }
      waitpid(p, nullptr, 0);
    }
  }
  static Shm *map_shm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<Shm *>(p);
  }
  std::size_t test_of(u64 idx) const {
    u64 r = mix(idx * 7 + 3) % _total_weight;
    for (std::size_t t = 0; t < tests().size(); ++t) {
      if (r < (u64)tests()[t].weight) return t;
      r -= tests()[t].weight;
    }
    return 0;
  }
  u64 case_seed(u64 idx) const { return mix(mix(_seed) ^ mix(idx + 0x51ed27)); }

  void redirect(const std::string &name) {
    int fd = open((_tmp + "/" + name).c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
  std::string log_tail(const std::string &name) {
    std::ifstream in(_tmp + "/" + name);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string s = ss.str();
    auto p = s.rfind("KASSERT FAILED");
    if (p != std::string::npos) {
      auto b = s.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      return s.substr(b, 400);
    }
    p = s.rfind("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.rfind("runtime error:");
    if (p != std::string::npos) return s.substr(p, 1200);
    return s.size() > 500 ? s.substr(s.size() - 500) : s;
  }

  // Runs one case in this process; returns false on an oracle failure (recorded in shm)
  static bool run_here(const Test &t, Gen &g, Shm *shm, bool count) {
    try {
      t.fn(g);
    } catch (const Rejected &) {
      if (count) ++shm->rejected;
      else shm->rejected = 1;
      return true;
    } catch (const Failure &f) {
      std::snprintf(shm->tag, sizeof shm->tag, "%s", f.tag.c_str());
      std::snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
      return false;
    } catch (const std::exception &e) {
      std::snprintf(shm->tag, sizeof shm->tag, "exception");
      std::snprintf(shm->msg, sizeof shm->msg, "uncaught exception: %s", e.what());
      return false;
    }
    return true;
  }
  static void account(Shm *shm, Gen &g, const Test &t) {
    ++shm->done;
    auto add = [&](const std::string &l) {
      for (int i = 0; i < shm->nlabels; ++i)
        if (l.compare(0, 55, shm->label[i]) == 0) { ++shm->label_n[i]; return; }
      if (shm->nlabels < (int)MAX_LABELS) {
        std::snprintf(shm->label[shm->nlabels], 56, "%s", l.c_str());
        shm->label_n[shm->nlabels++] = 1;
      }
    };
    add("test:" + t.name);
    std::set<std::string> ls(g.labels().begin(), g.labels().end());
    for (auto &l : ls) add(l);
    if (g.is_nontrivial()) {
      ++shm->nontrivial;
      if (shm->n_hash < HASH_CAP) shm->hash[shm->n_hash++] = g.tape_hash() ^ mix(std::hash<std::string>{}(t.name));
      if (shm->nsamples < (int)N_SAMPLES && (shm->nsamples == 0 || shm->nontrivial % 50 == 7)) {
        std::snprintf(shm->sample[shm->nsamples++], SAMPLE_LEN, "[%s] %s", t.name.c_str(), shm->desc);
      }
    }
  }

  [[noreturn]] void worker(Shm *shm, int w, u64 first, u64 step, u64 deadline) {
    redirect("worker" + std::to_string(w));
    if (config().per_process) config().per_process();
    shm->first_idx = first;
    u64 since_trunc = 0;
    for (u64 idx = first; idx < _max_cases && now_ms() < deadline; idx += step) {
      const Test &t = tests()[test_of(idx)];
      shm->case_idx = idx;
      shm->start_ms = now_ms();
      shm->state = S_RUNNING;
      Gen g(shm, case_seed(idx));
      const u64 rej = shm->rejected;
      const bool ok = run_here(t, g, shm, true);
      if (!ok) {
        shm->state = S_FAILED;
        _exit(10);
      }
      if (shm->rejected == rej) account(shm, g, t);
      shm->state = S_IDLE;
      if (++since_trunc >= 64) {
        since_trunc = 0;
        std::fflush(stdout);
        if (ftruncate(1, 0) != 0) {}
      }
    }
    shm->state = S_FINISHED;
    _exit(0);
  }

  Result wait_child(pid_t pid, Shm *shm, double limit_s, const std::string &log) {
    Result r;
    const u64 t0 = now_ms();
    int st = 0;
    for (;;) {
      pid_t p = waitpid(pid, &st, WNOHANG);
      if (p == pid) break;
      if (now_ms() - t0 > (u64)(limit_s * 1000)) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        r.k = Result::HANG;
        r.tag = "hang";
        r.msg = "case did not finish within " + std::to_string((int)limit_s) + " s";
        break;
      }
      usleep(now_ms() - t0 < 50 ? 300 : 3000);
    }
    kill(-pid, SIGKILL); // stray grandchildren of a crashed case
    if (r.k != Result::HANG) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.k = shm->rejected ? Result::REJECT : Result::PASS;
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
        r.k = Result::FAIL;
        r.tag = shm->tag;
        r.msg = shm->msg;
      } else {
        r.k = Result::CRASH;
        r.tag = WIFSIGNALED(st) ? std::string("crash:") + strsignal(WTERMSIG(st)) : "exit:" + std::to_string(WEXITSTATUS(st));
        r.msg = log_tail(log);
      }
    }
    r.desc = std::string(shm->desc, shm->desc_len);
    r.tape.assign(shm->tape, shm->tape + shm->tape_len);
    return r;
  }
  Result isolated(const Test &t, const std::vector<u64> &tape, double limit_s) {
    Shm *shm = _iso;
    shm->rejected = 0;
    shm->state = S_RUNNING;
    shm->desc_len = 0;
    shm->tape_len = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0), prctl(PR_SET_PDEATHSIG, SIGKILL);
      redirect("iso");
      if (config().per_process) config().per_process();
      Gen g(shm, &tape);
      const bool ok = run_here(t, g, shm, false);
      std::fflush(stdout);
      _exit(ok ? 0 : 10);
    }
    return wait_child(p, shm, limit_s, "iso");
  }
  Result sequence(u64 first, u64 step, u64 last, double limit_s) {
    Shm *shm = _iso;
    shm->rejected = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0), prctl(PR_SET_PDEATHSIG, SIGKILL);
      redirect("iso");
      if (config().per_process) config().per_process();
      for (u64 idx = first; idx <= last; idx += step) {
        const Test &t = tests()[test_of(idx)];
        Gen g(shm, case_seed(idx));
        if (!run_here(t, g, shm, false)) _exit(10);
      }
      shm->rejected = 0;
      _exit(0);
    }
    return wait_child(p, shm, limit_s, "iso");
  }

  // Confirmation: how many of n isolated runs go wrong
  std::pair<int, Result> confirm(const Test &t, const std::vector<u64> &tape, int n, double limit) {
    int bad = 0, hangs = 0, runs = 0;
    Result last;
    for (int i = 0; i < n; ++i) {
      Result r = isolated(t, tape, limit);
      ++runs;
      if (r.k == Result::HANG) {
        ++hangs;
        if (hangs >= 3 && bad == 0) return {hangs, r};
        continue;
      }
      if (r.bad()) {
        ++bad;
        last = r;
        if (bad >= 3) break;
      } else if (hangs > 0) {
        return {bad, last}; // slow once, fine once: not a hang
      }
    }
    return {bad, last};
  }

  std::pair<std::vector<u64>, Result> shrink(const Test &t, std::vector<u64> tape, Result best, bool flaky) {
    const u64 deadline = now_ms() + (u64)(config().shrink_s * 1000);
    const int reps = flaky ? 6 : 1;
    int attempts = 0;
    auto still = [&](const std::vector<u64> &cand) {
      for (int i = 0; i < reps && now_ms() < deadline; ++i) {
        ++attempts;
        Result r = isolated(t, cand, std::min(10.0, config().hang_s));
        if ((r.k == Result::FAIL || r.k == Result::CRASH) && (r.tag == best.tag || best.k == Result::CRASH)) {
          if (r.tape.size() <= cand.size()) { tape = r.tape; } else tape = cand;
          best = r;
          return true;
        }
        if (r.k == Result::REJECT) return false;
      }
      return false;
    };
    while (!tape.empty() && tape.back() == 0) tape.pop_back();
    bool progress = true;
    while (progress && now_ms() < deadline) {
      progress = false;
      for (std::size_t len = std::max<std::size_t>(1, tape.size() / 2); len >= 1 && now_ms() < deadline; len /= 2) {
        for (std::size_t i = 0; i < tape.size() && now_ms() < deadline;) {
          std::vector<u64> c(tape);
          c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + len));
          if (still(c)) progress = true;
          else i += len;
        }
        if (len == 1) break;
      }
      for (std::size_t i = 0; i < tape.size() && now_ms() < deadline; ++i) {
        if (tape[i] == 0) continue;
        std::vector<u64> c(tape);
        c[i] = 0;
        if (still(c)) { progress = true; continue; }
        for (u64 lo = 0, hi = (i < tape.size() ? tape[i] : 0); lo + 1 < hi && i < tape.size() && now_ms() < deadline;) {
          const u64 mid = lo + (hi - lo) / 2;
          c = tape;
          c[i] = mid;
          if (still(c)) { hi = mid; progress = true; }
          else lo = mid;
        }
      }
    }
    std::fprintf(stderr, "shrink: %d attempts, tape length %zu\n", attempts, tape.size());
    return {tape, best};
  }

  std::string write_replay(const std::string &kind, const std::string &test, const std::vector<u64> &tape, const Result &r, const std::string &extra) {
    mkdir(_replay_dir.c_str(), 0755);
    const std::string path = _replay_dir + "/" + _id + "-" + test + "-" + std::to_string(_seed) + (_replay_count == 0 ? "" : "-" + std::to_string(_replay_count)) + ".replay";
    ++_replay_count;
    std::ofstream o(path);
    o << "property " << _id << "\nkind " << kind << "\ntest " << test << "\n";
    if (!extra.empty()) o << extra << "\n";
    o << "tag " << r.tag << "\n";
    o << "tape";
    for (u64 v : tape) o << ' ' << v;
    o << "\nmessage <<\n" << r.msg << "\n>>\ninput <<\n" << r.desc << "\n>>\n";
    return path;
  }

  int run_replay(const std::string &file) {
    std::ifstream in(file);
    std::string line, test, kind = "tape";
    std::vector<u64> tape;
    u64 first = 0, step = 1, last = 0;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::string w;
      ls >> w;
      if (w == "test") ls >> test;
      else if (w == "kind") ls >> kind;
      else if (w == "sequence") ls >> _seed >> first >> step >> last;
      else if (w == "tape") { u64 v; while (ls >> v) tape.push_back(v); }
      else if (w == "message") break;
    }
    if (kind == "sequence") {
      Result r = sequence(first, step, last, 600);
      std::printf("%s %s\n%s\n%s\n", r.bad() ? "FAIL" : "PASS", r.tag.c_str(), r.msg.c_str(), r.desc.c_str());
      return r.bad() ? 1 : 0;
    }
    for (auto &t : tests()) {
      if (t.name != test) continue;
      auto [n, r] = confirm(t, tape, std::max(config().confirm_runs, 6), config().hang_s);
      if (n == 0) r = isolated(t, tape, config().hang_s);
      std::printf("%s (%d bad runs) %s\n%s\n%s\n", n > 0 ? "FAIL" : "PASS", n, r.tag.c_str(), r.msg.c_str(), r.desc.c_str());
      return n > 0 ? 1 : 0;
    }
    std::printf("no such test %s\n", test.c_str());
    return 2;
  }
  int run_known(const std::string &name) {
    for (auto &k : knowns()) {
      if (k.name != name) continue;
      Test t{"known", 1, [&](Gen &) { k.fn(); }};
      Result r = isolated(t, {}, config().hang_s);
      std::printf("%s %s %s\n", r.bad() ? "PRESENT" : "ABSENT", r.tag.c_str(), r.msg.c_str());
      return r.bad() ? 1 : 0;
    }
    std::printf("no such known finding %s\n", name.c_str());
    return 2;
  }

  static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }

  struct W { pid_t pid = -1; Shm *shm; u64 next; bool fin = false; };

  int search(const std::string &out) {
    const int nw = config().workers;
    const u64 t0 = now_ms();
    u64 deadline = t0 + (u64)(_secs * 1000);
    std::vector<W> ws(nw);
    for (int i = 0; i < nw; ++i) {
      ws[i].shm = map_shm();
      ws[i].next = i;
    }
    auto spawn = [&](int i) {
      if (now_ms() >= deadline || ws[i].next >= _max_cases) { ws[i].fin = true; ws[i].pid = -1; return; }
      ws[i].shm->state = S_IDLE;
      ws[i].shm->start_ms = now_ms();
      std::fflush(stdout); std::fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        setpgid(0, 0), prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker(ws[i].shm, i, ws[i].next, nw, deadline);
      }
      ws[i].pid = p;
    };
    auto stop_all = [&] {
      for (auto &w : ws) {
        if (w.pid > 0) {
          kill(-w.pid, SIGKILL);
          kill(w.pid, SIGKILL);
          waitpid(w.pid, nullptr, 0);
          w.pid = -1;
          w.next = w.shm->case_idx + nw;
        }
      }
    };
    for (int i = 0; i < nw; ++i) spawn(i);

    std::vector<std::string> unconfirmed;
    std::string fail_json;
    bool violated = false;
    std::vector<std::string> replays;
    std::map<std::string, int> failed_tests;

    for (;;) {
      bool active = false;
      int failing = -1;
      Result obs;
      for (int i = 0; i < nw && failing < 0; ++i) {
        W &w = ws[i];
        if (w.fin) continue;
        if (w.pid < 0) { spawn(i); if (w.fin) continue; }
        active = true;
        int st;
        pid_t p = waitpid(w.pid, &st, WNOHANG);
        if (p == w.pid) {
          kill(-w.pid, SIGKILL);
          w.pid = -1;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.fin = true; continue; }
          obs.k = WIFEXITED(st) && WEXITSTATUS(st) == 10 ? Result::FAIL : Result::CRASH;
          obs.tag = obs.k == Result::FAIL ? std::string(w.shm->tag)
                    : WIFSIGNALED(st)     ? std::string("crash:") + strsignal(WTERMSIG(st))
                                          : "exit:" + std::to_string(WEXITSTATUS(st));
          obs.msg = obs.k == Result::FAIL ? std::string(w.shm->msg) : log_tail("worker" + std::to_string(i));
          failing = i;
        } else if (w.shm->state == S_RUNNING && now_ms() > w.shm->start_ms + (u64)(config().hang_s * 1000)) {
          obs.k = Result::HANG;
          obs.tag = "hang";
          failing = i;
        }
      }
      if (failing >= 0) {
        const u64 tstop = now_ms();
        W &w = ws[failing];
        const u64 idx = w.shm->case_idx;
        const Test &t = tests()[test_of(idx)];
        obs.desc = std::string(w.shm->desc, w.shm->desc_len);
        std::vector<u64> tape(w.shm->tape, w.shm->tape + w.shm->tape_len);
        const bool overflow = w.shm->tape_overflow;
        const u64 first = w.shm->first_idx;
        stop_all();
        w.next = idx + nw;
        std::fprintf(stderr, "candidate: case %llu test %s tag %s\n  %s\n  %s\n", (unsigned long long)idx, t.name.c_str(), obs.tag.c_str(), obs.msg.substr(0, 500).c_str(), obs.desc.substr(0, 300).c_str());
        int n = 0;
        Result r;
        if (!overflow) std::tie(n, r) = confirm(t, tape, config().confirm_runs, config().hang_s);
        std::string kind = "tape", extra;
        if (n == 0 && obs.k != Result::HANG) { // does it need the preceding cases of that process?
          int bad = 0;
          for (int i = 0; i < 2; ++i) {
            Result s = sequence(first, nw, idx, 120);
            if (s.k == Result::FAIL || s.k == Result::CRASH) { ++bad; r = s; }
          }
          if (bad == 2) {
            n = bad;
            kind = "sequence";
            extra = "sequence " + std::to_string(_seed) + " " + std::to_string(first) + " " + std::to_string(nw) + " " + std::to_string(idx);
          }
        }
        if (n > 0) {
          violated = true;
          if (kind == "tape" && r.k != Result::HANG) {
            auto [st, sr] = shrink(t, tape, r, n < 3);
            tape = st;
            r = sr;
          }
          if (failed_tests[t.name + r.tag]++ == 0) {
            const std::string path = write_replay(kind, t.name, tape, r, extra);
            replays.push_back(path);
            if (!fail_json.empty()) fail_json += ",";
            fail_json += "{\"replay\":" + js(path) + ",\"test\":" + js(t.name) + ",\"tag\":" + js(r.tag) + ",\"message\":" + js(r.msg.substr(0, 1500)) + ",\"input\":" + js(r.desc.substr(0, 1500)) + "}";
            std::fprintf(stderr, "CONFIRMED %s/%s tag=%s\n  %s\n  input: %s\n", _id.c_str(), t.name.c_str(), r.tag.c_str(), r.msg.substr(0, 800).c_str(), r.desc.substr(0, 800).c_str());
          }
          if (!_keep_going) break;
        } else {
          unconfirmed.push_back(t.name + ": " + obs.tag + ": " + obs.msg.substr(0, 600) + " | " + obs.desc.substr(0, 300));
          std::fprintf(stderr, "  not reproduced in isolation\n");
        }
        deadline += now_ms() - tstop;
        if (unconfirmed.size() > 25) break;
        continue;
      }
      if (!active) break;
      usleep(2000);
    }
    stop_all();

    u64 done = 0, nontriv = 0, rejected = 0;
    std::unordered_set<u64> hs;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
    for (auto &w : ws) {
      done += w.shm->done;
      nontriv += w.shm->nontrivial;
      rejected += w.shm->rejected;
      for (u64 i = 0; i < w.shm->n_hash; ++i) hs.insert(w.shm->hash[i]);
      for (int i = 0; i < w.shm->nlabels; ++i) labels[w.shm->label[i]] += w.shm->label_n[i];
      for (int i = 0; i < w.shm->nsamples && samples.size() < 8; ++i) samples.push_back(w.shm->sample[i]);
    }
    std::ostringstream o;
    o << "{\"evaluations\":" << done << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << hs.size()
      << ",\"rejected\":" << rejected << ",\"wall_s\":" << (now_ms() - t0) / 1000.0 << ",\"violated\":" << (violated ? "true" : "false")
      << ",\"failures\":[" << fail_json << "],\"unconfirmed\":[";
    for (std::size_t i = 0; i < unconfirmed.size(); ++i) o << (i ? "," : "") << js(unconfirmed[i]);
    o << "],\"labels\":{";
    bool f = true;
    for (auto &[k, v] : labels) { o << (f ? "" : ",") << js(k) << ":" << v; f = false; }
    o << "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << js(samples[i]);
    o << "]}\n";
    if (out.empty()) std::fputs(o.str().c_str(), stdout);
    else std::ofstream(out) << o.str();
    std::fprintf(stderr, "%s: %llu cases (%llu nontrivial, %zu distinct, %llu rejected), %zu unconfirmed, %s\n", _id.c_str(), (unsigned long long)done, (unsigned long long)nontriv, hs.size(), (unsigned long long)rejected, unconfirmed.size(), violated ? "VIOLATED" : "ok");
    return violated ? 1 : 0;
  }
};

} // namespace pbt

#define PBT_MAIN()                                                                                 \
  int main(int argc, char **argv) {                                                                \
    pbt::Runner r;                                                                                 \
    return r.main(argc, argv);                                                                     \
  }
