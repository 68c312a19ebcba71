// Stand-in for KaGen, whose sources are not part of the tree: declares what the distributed program names. Graphs come
// from source(), which a harness sets; without it, the program ends where it would generate or read a graph.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <ostream>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <mpi.h>

namespace kagen {
using SInt = unsigned long long;
using SSInt = long long;
enum class FileFormat { EXTENSION, METIS, PARHIP };
enum class GraphDistribution { BALANCE_VERTICES, BALANCE_EDGES };
inline std::unordered_map<std::string, FileFormat> GetInputFormatMap() {
  return {{"extension", FileFormat::EXTENSION}, {"metis", FileFormat::METIS}, {"parhip", FileFormat::PARHIP}};
}
inline std::unordered_map<std::string, GraphDistribution> GetGraphDistributionMap() {
  return {{"balance-vertices", GraphDistribution::BALANCE_VERTICES}, {"balance-edges", GraphDistribution::BALANCE_EDGES}};
}
inline std::ostream &operator<<(std::ostream &o, FileFormat f) { return o << (f == FileFormat::METIS ? "metis" : f == FileFormat::PARHIP ? "parhip" : "extension"); }
inline std::ostream &operator<<(std::ostream &o, GraphDistribution d) { return o << (d == GraphDistribution::BALANCE_EDGES ? "balance-edges" : "balance-vertices"); }
struct Graph {
  std::pair<SInt, SInt> vertex_range;
  std::vector<SInt> xadj, adjncy;
  std::vector<SSInt> vertex_weights, edge_weights;
  template <typename T = SInt> std::vector<T> TakeXadj() { return {xadj.begin(), xadj.end()}; }
  template <typename T = SInt> std::vector<T> TakeAdjncy() { return {adjncy.begin(), adjncy.end()}; }
  template <typename T = SSInt> std::vector<T> TakeVertexWeights() { return {vertex_weights.begin(), vertex_weights.end()}; }
  template <typename T = SSInt> std::vector<T> TakeEdgeWeights() { return {edge_weights.begin(), edge_weights.end()}; }
};
inline std::function<Graph(const std::string &)> &source() {
  static std::function<Graph(const std::string &)> s = [](const std::string &) -> Graph { std::_Exit(77); };
  return s;
}
class KaGen {
public:
  explicit KaGen(MPI_Comm) {}
  void UseCSRRepresentation() {}
  void EnableUndirectedGraphVerification() {}
  void EnableBasicStatistics() {}
  void EnableOutput(bool) {}
  Graph GenerateFromOptionString(const std::string &options) { return source()(options); }
  Graph ReadFromFile(const std::string &name, FileFormat, GraphDistribution) { return source()(name); }
};
template <typename T> std::vector<T> BuildVertexDistribution(const Graph &g, MPI_Datatype type, MPI_Comm comm) {
  int size;
  MPI_Comm_size(comm, &size);
  std::vector<T> d(size + 1, 0);
  const T to = g.vertex_range.second;
  MPI_Allgather(&to, 1, type, d.data() + 1, 1, type, comm);
  return d;
}
} // namespace kagen
