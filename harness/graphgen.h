// Random undirected graphs (simple, no self-loops, symmetric weights) for all harnesses.
#pragma once
#include "pbt.h"
#include <cmath>
#include <numeric>

namespace pbt {

struct G {
  u64 n = 0;
  std::vector<u64> xadj{0};
  std::vector<u64> adj;
  std::vector<i64> vw;  // empty: unweighted
  std::vector<i64> ew;  // per directed edge; empty: unweighted
  std::string family;

  u64 m() const { return adj.size(); }
  u64 deg(u64 u) const { return xadj[u + 1] - xadj[u]; }
  i64 w(u64 u) const { return vw.empty() ? 1 : vw[u]; }
  i64 we(u64 e) const { return ew.empty() ? 1 : ew[e]; }
  i64 total_w() const { i64 s = 0; for (u64 u = 0; u < n; ++u) s += w(u); return s; }
  i64 total_we() const { i64 s = 0; for (u64 e = 0; e < m(); ++e) s += we(e); return s; }
  i64 max_w() const { i64 s = 0; for (u64 u = 0; u < n; ++u) s = std::max(s, w(u)); return s; }
  u64 max_deg() const { u64 s = 0; for (u64 u = 0; u < n; ++u) s = std::max(s, deg(u)); return s; }
  u64 isolated() const { u64 s = 0; for (u64 u = 0; u < n; ++u) s += deg(u) == 0; return s; }
  template <typename P> i64 cut(const P &part) const { // each undirected edge once
    i64 c = 0;
    for (u64 u = 0; u < n; ++u)
      for (u64 e = xadj[u]; e < xadj[u + 1]; ++e)
        if (part[u] != part[adj[e]]) c += we(e);
    return c / 2;
  }
  std::string str(u64 limit = 60) const {
    std::ostringstream o;
    o << family << " n=" << n << " m=" << m() / 2 << (vw.empty() ? "" : " nodeweights") << (ew.empty() ? "" : " edgeweights");
    if (n + m() <= limit) {
      o << " {";
      for (u64 u = 0; u < n; ++u) {
        o << (u ? "; " : "") << u;
        if (!vw.empty()) o << "(w" << vw[u] << ")";
        o << ":";
        for (u64 e = xadj[u]; e < xadj[u + 1]; ++e) {
          o << ' ' << adj[e];
          if (!ew.empty()) o << '/' << ew[e];
        }
      }
      o << "}";
    }
    return o.str();
  }
};

struct GraphOptions {
  u64 max_n = 2000;
  u64 max_m = 40000;          // undirected edges
  bool allow_empty = true;    // n == 0
  bool weights = true;
  i64 max_total_weight = 1000000000; // bound for total node weight and total edge weight
  bool shuffle_ids = true;
  bool sorted_adj_only = false;
  int big_bias = 1; // weight of the large size class
};

// Builds G from an edge list (u<v unique) with optional weights per undirected edge
inline G from_edges(u64 n, const std::vector<std::pair<u64, u64>> &edges, const std::vector<i64> *ew, Rng *order) {
  G g;
  g.n = n;
  g.xadj.assign(n + 1, 0);
  for (auto &[a, b] : edges) { ++g.xadj[a + 1]; ++g.xadj[b + 1]; }
  for (u64 i = 0; i < n; ++i) g.xadj[i + 1] += g.xadj[i];
  g.adj.resize(g.xadj[n]);
  if (ew) g.ew.resize(g.xadj[n]);
  std::vector<u64> pos(g.xadj.begin(), g.xadj.end() - 1);
  std::vector<u64> idx(edges.size());
  std::iota(idx.begin(), idx.end(), 0);
  if (order) order->shuffle(idx);
  else std::sort(idx.begin(), idx.end(), [&](u64 a, u64 b) { return edges[a] < edges[b]; });
  for (u64 i : idx) {
    auto [a, b] = edges[i];
    if (ew) { g.ew[pos[a]] = (*ew)[i]; g.ew[pos[b]] = (*ew)[i]; }
    g.adj[pos[a]++] = b;
    g.adj[pos[b]++] = a;
  }
  if (!order) { // sort neighbourhoods
    for (u64 u = 0; u < n; ++u) {
      std::vector<std::pair<u64, i64>> v;
      for (u64 e = g.xadj[u]; e < g.xadj[u + 1]; ++e) v.push_back({g.adj[e], ew ? g.ew[e] : 1});
      std::sort(v.begin(), v.end());
      for (u64 i = 0; i < v.size(); ++i) { g.adj[g.xadj[u] + i] = v[i].first; if (ew) g.ew[g.xadj[u] + i] = v[i].second; }
    }
  }
  return g;
}

inline void add_weights(Gen &g, G &gr, std::vector<std::pair<u64, u64>> &edges, std::vector<i64> &ew, bool &has_ew, const GraphOptions &o, Rng &r) {
  const u64 n = gr.n;
  if (o.weights && n > 0) {
    const i64 cap = std::max<i64>(1, o.max_total_weight / (i64)n);
    switch (g.weighted({8, 3, 2, 1, 1, 1})) {
    case 0: break;
    case 1: for (u64 u = 0; u < n; ++u) gr.vw.push_back(r.range(1, std::min<i64>(5, cap))); break;
    case 2: for (u64 u = 0; u < n; ++u) gr.vw.push_back(r.range(1, std::min<i64>(1000, cap))); break;
    case 3: // one or few heavy nodes
      gr.vw.assign(n, 1);
      for (u64 i = 0, c = 1 + g.draw(3); i < c; ++i) gr.vw[r.below(n)] = r.range(1, std::max<i64>(1, std::min<i64>(o.max_total_weight / 8, (i64)n)));
      break;
    case 4: // heavy skew, near the id width
      for (u64 u = 0; u < n; ++u) gr.vw.push_back(r.range(1, r.chance(1, 10) ? cap : std::min<i64>(cap, 10)));
      break;
    case 5: gr.vw.assign(n, r.range(1, std::min<i64>(cap, 7))); break; // uniform non-unit
    }
  }
  has_ew = false;
  const u64 m = edges.size();
  if (o.weights && m > 0) {
    const i64 cap = std::max<i64>(1, o.max_total_weight / (i64)(2 * m));
    switch (g.weighted({8, 4, 2, 1, 1})) {
    case 0: break;
    case 1: has_ew = true; for (u64 e = 0; e < m; ++e) ew.push_back(r.range(1, std::min<i64>(5, cap))); break;
    case 2: has_ew = true; for (u64 e = 0; e < m; ++e) ew.push_back(r.range(1, std::min<i64>(100000, cap))); break;
    case 3: has_ew = true; for (u64 e = 0; e < m; ++e) ew.push_back(r.chance(1, 20) ? r.range(1, cap) : 1); break;
    case 4: has_ew = true; ew.assign(m, r.range(1, std::min<i64>(cap, 9))); break;
    }
  }
}

inline G gen_graph(Gen &g, const GraphOptions &o = {}) {
  std::set<std::pair<u64, u64>> es;
  std::vector<std::pair<u64, u64>> edges;
  G gr;
  u64 n = 0;
  auto add = [&](u64 a, u64 b) { if (a != b) es.insert({std::min(a, b), std::max(a, b)}); };
  auto full = [&] { return es.size() >= o.max_m; };
  const std::size_t cls = g.weighted({3, 4, o.big_bias});
  if (cls == 0) {
    // explicit small graph, every edge an individual choice (shrinks well)
    gr.family = "explicit";
    n = g.range(o.allow_empty ? 0 : 1, std::min<u64>(o.max_n, 12));
    const u64 c = n < 2 ? 0 : g.range(0, n * 2);
    for (u64 i = 0; i < c; ++i) { u64 a = g.draw(n), b = g.draw(n); add(a, b); }
    gr.n = n;
    edges.assign(es.begin(), es.end());
    bool has_ew = false;
    std::vector<i64> ew;
    if (o.weights && n > 0 && g.chance(1, 3)) for (u64 u = 0; u < n; ++u) gr.vw.push_back(1 + g.draw(6));
    if (o.weights && !edges.empty() && g.chance(1, 3)) { has_ew = true; for (u64 e = 0; e < edges.size(); ++e) ew.push_back(1 + g.draw(9)); }
    Rng r(0);
    const bool shuf = !o.sorted_adj_only && g.flip();
    G res = from_edges(n, edges, has_ew ? &ew : nullptr, shuf ? &r : nullptr);
    res.vw = gr.vw;
    res.family = gr.family;
    return res;
  }
  const u64 lim = cls == 1 ? std::min<u64>(o.max_n, 200) : o.max_n;
  n = g.logsize(1, lim);
  const std::size_t fam = g.weighted({3, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2, 1, 1, 2});
  Rng r(g.seed());
  static const char *names[] = {"gnm", "path", "cycle", "star", "clique", "grid", "tree", "cliques", "geometric", "powerlaw", "hubs", "matching", "edgeless", "bipartite"};
  gr.family = names[fam];
  switch (fam) {
  case 0: {
    const u64 d = 1 + g.draw(20);
    for (u64 i = 0; i < n * d / 2 + 1 && n > 1 && !full(); ++i) add(r.below(n), r.below(n));
    break;
  }
  case 1: for (u64 i = 0; i + 1 < n; ++i) add(i, i + 1); break;
  case 2: for (u64 i = 0; i + 1 < n; ++i) add(i, i + 1); if (n > 2) add(0, n - 1); break;
  case 3: for (u64 i = 1; i < n && !full(); ++i) add(0, i); break;
  case 4: n = std::min<u64>(n, 90); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < i; ++j) add(i, j); break;
  case 5: { u64 w = std::max<u64>(1, (u64)std::sqrt((double)n)); for (u64 i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) add(i, i + 1); if (i + w < n) add(i, i + w); } break; }
  case 6: { const u64 d = 1 + g.draw(8); for (u64 i = 1; i < n; ++i) add(i, d == 8 ? i / 2 : r.below(std::min<u64>(i, i / d + 1))); break; }
  case 7: { const u64 s = 2 + g.draw(12); for (u64 i = 0; i < n && !full(); ++i) for (u64 j = i / s * s; j < i; ++j) add(i, j); for (u64 i = s; i < n && r.chance(3, 4); i += s) add(i - 1, i); break; }
  case 8: { // geometric-like ring of close ids with few long links
    const u64 d = 2 + g.draw(10);
    for (u64 i = 0; i < n && !full(); ++i) for (u64 j = 0; j < d / 2 + 1; ++j) if (n > 1) add(i, (i + 1 + r.below(std::min<u64>(n - 1, 2 * d))) % n);
    for (u64 i = 0; i < n / 20; ++i) add(r.below(n), r.below(n));
    break; }
  case 9: { // preferential attachment
    const u64 d = 1 + g.draw(6);
    std::vector<u64> ends{0};
    for (u64 i = 1; i < n && !full(); ++i) for (u64 j = 0; j < d; ++j) { u64 t = ends[r.below(ends.size())]; add(i, t); ends.push_back(t); ends.push_back(i); }
    break; }
  case 10: { // few hubs connected to many, leaves
    const u64 h = 1 + g.draw(5);
    for (u64 i = h; i < n && !full(); ++i) { add(i, r.below(h)); if (r.chance(1, 3)) add(i, r.below(h)); }
    if (r.chance(1, 2)) for (u64 i = 1; i < h && i < n; ++i) add(0, i);
    break; }
  case 11: for (u64 i = 0; i + 1 < n; i += 2) add(i, i + 1); break;
  case 12: break;
  case 13: { const u64 a = 1 + r.below(std::max<u64>(1, std::min<u64>(n, 20))); for (u64 i = a; i < n && !full(); ++i) for (u64 j = 0; j < a; ++j) if (r.chance(1, 2)) add(i, j); break; }
  }
  // additional isolated nodes
  u64 iso = 0;
  if (g.chance(1, 4)) { iso = g.logsize(1, std::max<u64>(1, std::min<u64>(n * 2, o.max_n))); gr.family += "+isolated"; }
  n += iso;
  edges.assign(es.begin(), es.end());
  if (o.shuffle_ids && (iso > 0 || g.flip())) { // relabel nodes
    std::vector<u64> p(n);
    std::iota(p.begin(), p.end(), 0);
    r.shuffle(p);
    for (auto &[a, b] : edges) { a = p[a]; b = p[b]; if (a > b) std::swap(a, b); }
  }
  gr.n = n;
  bool has_ew;
  std::vector<i64> ew;
  add_weights(g, gr, edges, ew, has_ew, o, r);
  const bool shuf = !o.sorted_adj_only && g.flip();
  G res = from_edges(n, edges, has_ew ? &ew : nullptr, shuf ? &r : nullptr);
  res.vw = gr.vw;
  res.family = gr.family;
  return res;
}

inline void label_graph(Gen &g, const G &gr) {
  g.label("family:" + gr.family);
  g.label(gr.n == 0 ? "n:0" : gr.n <= 12 ? "n:1-12" : gr.n <= 100 ? "n:13-100" : gr.n <= 1000 ? "n:101-1000" : gr.n <= 10000 ? "n:1001-10000" : "n:>10000");
  if (!gr.vw.empty()) g.label("nodeweights");
  if (!gr.ew.empty()) g.label("edgeweights");
  if (gr.isolated()) g.label("has-isolated");
}

} // namespace pbt
