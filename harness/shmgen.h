// Shared-memory specific generators: graphs in KaMinPar's types and random configurations.
#pragma once
#include "graphgen.h"
#include <span>

#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"

namespace pbt {
namespace shm = kaminpar::shm;

struct Arrays {
  std::vector<shm::EdgeID> xadj;
  std::vector<shm::NodeID> adjncy;
  std::vector<shm::NodeWeight> vwgt;
  std::vector<shm::EdgeWeight> adjwgt;
  explicit Arrays(const G &g)
      : xadj(g.xadj.begin(), g.xadj.end()), adjncy(g.adj.begin(), g.adj.end()), vwgt(g.vw.begin(), g.vw.end()),
        adjwgt(g.ew.begin(), g.ew.end()) {}
  bool operator==(const Arrays &) const = default;
};

template <typename T> kaminpar::StaticArray<T> to_static(const std::vector<auto> &v) {
  kaminpar::StaticArray<T> a(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) a[i] = static_cast<T>(v[i]);
  return a;
}

inline shm::CSRGraph to_csr(const G &g) {
  return shm::CSRGraph(
      to_static<shm::EdgeID>(g.xadj), to_static<shm::NodeID>(g.adj), to_static<shm::NodeWeight>(g.vw),
      to_static<shm::EdgeWeight>(g.ew), false);
}
inline shm::Graph to_graph(const G &g) { return shm::Graph(std::make_unique<shm::CSRGraph>(to_csr(g))); }
} // namespace pbt
