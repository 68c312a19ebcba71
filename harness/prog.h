// Running programs in processes of their own, and reading the files they write
#pragma once
#include <cmath>
#include <regex>
#include <sys/wait.h>
#include "iofiles.h"

using namespace pbt;
using pbt::G;

struct Run { int status; std::string out, err; }; // status: exit status or minus the signal
template <typename F> inline Run in_child(F &&fn) noexcept { // exceptions end the child as they would end a program
  const File out, err;
  std::fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    dup2(out.fd, 1);
    dup2(err.fd, 2);
    alarm(50);
    std::exit(fn());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return {WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), out.read(), err.read()};
}
inline std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v) s += (s.empty() ? "" : " ") + (x.empty() || x.find(' ') != std::string::npos ? "'" + x + "'" : x);
  return s;
}
inline std::string show_double(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }

inline std::string plain(const std::string &s) { return std::regex_replace(s, std::regex("\x1b\\[[0-9;]*m"), ""); }
inline std::string tail(const std::string &s) { return s.size() > 600 ? "..." + s.substr(s.size() - 600) : s; }
inline std::vector<i64> numbers(const std::string &s, const char *what) { // one number per line
  std::vector<i64> v;
  std::istringstream in(s);
  for (std::string line; std::getline(in, line);) {
    char *e;
    v.push_back(std::strtoll(line.c_str(), &e, 10));
    CHECK_MSG(!line.empty() && *e == 0, "line", what << ": line " << v.size() << " is '" << line << "'");
  }
  CHECK_MSG(s.empty() || s.back() == '\n', "line", what << ": the last line does not end");
  return v;
}
inline bool find_number(const std::string &out, const std::string &re, i64 &x) {
  std::smatch m;
  if (!std::regex_search(out, m, std::regex(re))) return false;
  x = std::stoll(m[1]);
  return true;
}
// The graph of a METIS or ParHiP file as the program writes them
inline G parse_metis(const std::string &s) {
  std::istringstream in(s);
  std::string line, fmt;
  CHECK_MSG(std::getline(in, line), "format", "no header");
  std::istringstream h(line);
  u64 n = 0, m = 0;
  h >> n >> m >> fmt;
  const bool vw = fmt.size() > 1 && fmt[fmt.size() - 2] == '1', ew = !fmt.empty() && fmt.back() == '1';
  G o;
  o.n = n;
  o.xadj.assign(1, 0);
  for (u64 u = 0; u < n; ++u) {
    CHECK_MSG(std::getline(in, line), "format", "no line for node " << u);
    std::istringstream l(line);
    i64 x, w;
    if (vw) { CHECK_MSG(l >> w, "format", "no weight for node " << u); o.vw.push_back(w); }
    while (l >> x) {
      CHECK_MSG(x >= 1 && (u64)x <= n, "format", "neighbor " << x << " of node " << u);
      o.adj.push_back(x - 1);
      if (ew) { CHECK_MSG(l >> w, "format", "no edge weight, node " << u); o.ew.push_back(w); }
    }
    o.xadj.push_back(o.adj.size());
  }
  CHECK_EQ(o.adj.size(), 2 * m, "format", "number of edges in the header");
  return o;
}
inline G parse_parhip(const std::string &s) {
  std::size_t p = 0;
  auto num = [&](bool four) {
    CHECK_MSG(p + (four ? 4 : 8) <= s.size(), "format", "the file ends early");
    u64 x = 0;
    std::memcpy(&x, s.data() + p, four ? 4 : 8);
    p += four ? 4 : 8;
    return x;
  };
  const u64 version = num(false);
  G o;
  o.n = num(false);
  const u64 m = num(false);
  CHECK_MSG(o.n < (1u << 20) && m < (1u << 22), "format", "n=" << o.n << " m=" << m);
  const bool ew = !(version & 1), vw = !(version & 2), e4 = version & 4, id4 = version & 8, nw4 = version & 16, ew4 = version & 32;
  const u64 base = 24 + (o.n + 1) * (e4 ? 4 : 8);
  o.xadj.clear();
  for (u64 u = 0; u <= o.n; ++u) o.xadj.push_back((num(e4) - base) / (id4 ? 4 : 8));
  CHECK_EQ(o.xadj.back(), m, "format", "last offset");
  for (u64 e = 0; e < m; ++e) { o.adj.push_back(num(id4)); CHECK_MSG(o.adj.back() < o.n, "format", "neighbor " << o.adj.back()); }
  if (vw) for (u64 u = 0; u < o.n; ++u) o.vw.push_back(num(nw4));
  if (ew) for (u64 e = 0; e < m; ++e) o.ew.push_back(num(ew4));
  CHECK_EQ(p, s.size(), "format", "size of the file");
  return o;
}
inline std::vector<std::pair<u64, i64>> edges_of(const G &gr, u64 u, const std::vector<i64> *map = nullptr) {
  std::vector<std::pair<u64, i64>> x;
  for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) x.push_back({map ? (*map)[gr.adj[e]] : gr.adj[e], gr.we(e)});
  std::sort(x.begin(), x.end());
  return x;
}

inline std::string edge_text(const std::vector<std::pair<u64, i64>> &x) {
  std::string s;
  for (u64 i = 0; i < x.size() && i < 20; ++i) s += (i ? " " : "") + std::to_string(x[i].first) + "/" + std::to_string(x[i].second);
  return "{" + s + "}";
}
