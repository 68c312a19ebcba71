// Graph files as text, written independently of the code under test.
#pragma once
#include <fstream>
#include <numeric>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include "shmgen.h"

namespace pbt {
struct File { // an anonymous file with a path
  int fd;
  std::string path;
  explicit File(const std::string &content = "") {
    fd = memfd_create("io", 0);
    if (fd < 0) { perror("memfd_create"); _exit(2); }
    path = "/proc/self/fd/" + std::to_string(fd);
    for (std::size_t p = 0; p < content.size();) {
      const ssize_t w = ::write(fd, content.data() + p, content.size() - p);
      if (w <= 0) _exit(2);
      p += w;
    }
  }
  ~File() { close(fd); }
  std::string read() const {
    std::ifstream in(path, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
  }
};

inline u64 class_of(u64 deg) { return deg == 0 ? 0xff : 64 - __builtin_clzll(deg); } // isolated nodes last
// The graph with its nodes sorted by degree bucket
inline G bucket_sorted(const G &gr) {
  std::vector<u64> ord(gr.n), pos(gr.n);
  std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](u64 a, u64 b) { return class_of(gr.deg(a)) < class_of(gr.deg(b)); });
  for (u64 i = 0; i < gr.n; ++i) pos[ord[i]] = i;
  G o;
  o.n = gr.n;
  o.family = gr.family + "+sorted";
  o.xadj.assign(1, 0);
  for (u64 u : ord) {
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
      o.adj.push_back(pos[gr.adj[e]]);
      if (!gr.ew.empty()) o.ew.push_back(gr.ew[e]);
    }
    o.xadj.push_back(o.adj.size());
    if (!gr.vw.empty()) o.vw.push_back(gr.vw[u]);
  }
  return o;
}

// METIS text for a graph, with every liberty the format gives
inline std::string metis_text(Gen &g, const G &gr) {
  Rng r(g.seed());
  const bool comments = g.chance(1, 3), spaces = g.chance(1, 3), sizes = g.chance(1, 8);
  const bool vw = !gr.vw.empty() || g.chance(1, 8), ew = !gr.ew.empty() || g.chance(1, 8);
  std::ostringstream o;
  auto sp = [&](bool need) { for (u64 i = 0, c = need + (spaces && r.chance(1, 3) ? r.below(4) : 0); i < c; ++i) o << ' '; };
  auto comment = [&] {
    while (comments && r.chance(1, 4)) {
      sp(false);
      o << '%' << (r.chance(1, 2) ? std::string(r.below(30), "x 1%"[r.below(4)]) : " 3 4 1 comment") << '\n';
    }
  };
  comment();
  sp(false);
  o << gr.n;
  sp(true);
  o << gr.m() / 2;
  if (sizes || vw || ew || g.chance(1, 6)) {
    sp(true);
    std::string f = std::string(1, '0' + sizes) + char('0' + vw) + char('0' + ew);
    while (f.size() > 1 && f[0] == '0' && r.chance(3, 4)) f.erase(0, 1);
    o << f;
    g.label("fmt:" + f);
  }
  sp(false);
  o << '\n';
  for (u64 u = 0; u < gr.n; ++u) {
    comment();
    bool first = true;
    auto tok = [&](u64 x) { sp(!first); first = false; o << x; };
    if (sizes) tok(1 + r.below(50));
    if (vw) tok(gr.w(u));
    for (u64 e = gr.xadj[u]; e < gr.xadj[u + 1]; ++e) {
      tok(gr.adj[e] + 1);
      if (ew) tok(gr.we(e));
    }
    sp(false);
    o << '\n';
  }
  std::string s = o.str();
  if (comments && g.flip()) s += "% the end\n";
  if (!s.empty() && s.back() == '\n' && g.chance(1, 5)) {
    s.pop_back();
    g.label("no-final-newline");
  }
  if (g.chance(1, 3)) { // an exact number of pages
    s = "%" + std::string((8192 - (s.size() + 2) % 4096) % 4096, 'p') + "\n" + s;
    g.label("page-exact");
  }
  return s;
}

template <typename T> void put(std::string &s, T x) { s.append(reinterpret_cast<const char *>(&x), sizeof x); }
inline std::string parhip_text(Gen &g, const G &gr) {
  const bool vw = !gr.vw.empty() || g.chance(1, 8), ew = !gr.ew.empty() || g.chance(1, 8);
  // widths up to those of this build; the width flags of absent weights are arbitrary
  const bool id8 = sizeof(kaminpar::shm::NodeID) == 8 && g.flip(), e8 = sizeof(kaminpar::shm::EdgeID) == 8 && g.flip();
  const bool nw8 = (sizeof(kaminpar::shm::NodeWeight) == 8 || !vw) && g.flip(), ew8 = (sizeof(kaminpar::shm::EdgeWeight) == 8 || !ew) && g.flip();
  g.label(std::string("widths:") + (id8 ? "N" : "n") + (e8 ? "E" : "e") + (nw8 ? "V" : "v") + (ew8 ? "W" : "w"));
  std::string s;
  put<u64>(s, (u64)!ew | (u64)!vw << 1 | (u64)!e8 << 2 | (u64)!id8 << 3 | (u64)!nw8 << 4 | (u64)!ew8 << 5);
  put<u64>(s, gr.n);
  put<u64>(s, gr.m());
  auto num = [&](bool eight, u64 x) { if (eight) put<u64>(s, x); else put<u32>(s, x); };
  const u64 base = 24 + (gr.n + 1) * (e8 ? 8 : 4);
  for (u64 x : gr.xadj) num(e8, base + x * (id8 ? 8 : 4));
  for (u64 v : gr.adj) num(id8, v);
  if (vw) for (u64 u = 0; u < gr.n; ++u) num(nw8, gr.w(u));
  if (ew) for (u64 e = 0; e < gr.m(); ++e) num(ew8, gr.we(e));
  return s;
}

} // namespace pbt
