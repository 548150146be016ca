// Stand-in for libhtd (absent here): only what src/minfill_vtree.cpp uses.
// Assumed contract: computeOrdering returns some permutation of the vertices
// 1..n of the hypergraph. Every permutation is allowed, so the check draws one.
#pragma once
#include <algorithm>
#include <cstddef>
#include <list>
#include <memory>
#include <random>
#include <unordered_set>
#include <vector>
namespace htd {
typedef std::size_t vertex_t;
typedef std::size_t index_t;
struct Id { static const int FIRST = 0; };
struct LibraryInstance { virtual ~LibraryInstance() {} };
inline LibraryInstance *createManagementInstance(int) { return new LibraryInstance; }
struct MultiHypergraph {
  std::size_t n = 0;
  explicit MultiHypergraph(const LibraryInstance *) {}
  vertex_t addVertex() { return ++n; }
  void addEdge(const std::vector<vertex_t> &) {}
};
struct VertexOrdering {
  std::vector<vertex_t> s;
  const std::vector<vertex_t> &sequence() const { return s; }
};
inline std::mt19937_64 &ordering_rng() { static std::mt19937_64 g; return g; }
struct MinFillOrderingAlgorithm {
  explicit MinFillOrderingAlgorithm(const LibraryInstance *) {}
  VertexOrdering *computeOrdering(const MultiHypergraph &g) const {
    auto *o = new VertexOrdering;
    for (std::size_t i = 1; i <= g.n; ++i) o->s.push_back(i);
    std::shuffle(o->s.begin(), o->s.end(), ordering_rng());
    return o;
  }
};
}  // namespace htd
