// Reference model of a matching problem, its exact oracles and its generators. Independent of PyMatching's code.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <algorithm>
#include <cstdint>
#include <map>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <vector>

#include "pbt.h"

namespace ref {

typedef int64_t i64;
const i64 INF = (i64)1 << 60;
const i64 MAXW = (1 << 24) - 1;

struct Edge {
    int u, v;  // v == -1: virtual boundary
    i64 w;
    std::vector<size_t> obs;
};

struct Graph {
    int n = 0;
    std::vector<Edge> edges;
    std::set<int> boundary;  // nodes marked as boundary
    size_t min_obs = 0;
    bool is_b(int x) const { return x < 0 || boundary.count(x); }
    size_t num_obs() const {
        size_t k = min_obs;
        for (auto &e : edges) for (auto o : e.obs) k = std::max(k, o + 1);
        return k;
    }
    std::string str() const;
};

/// The graph with all boundary nodes contracted into one vertex B == n, every edge with weight >= 0 kept.
struct Contracted {
    int n;                                                // B is vertex n
    std::vector<std::vector<std::pair<int, i64>>> adj;    // by vertex
    explicit Contracted(const Graph &g, bool absolute = true);
    std::vector<i64> dijkstra(int src, bool through_boundary) const;
};

/// Exact optimum by enumerating every subset of edges (<= 22 edges). With masks: the set of optimal observable sets.
struct Brute {
    bool feasible = false;
    i64 best = INF;
    std::set<std::vector<size_t>> best_obs;
};
Brute brute_force(const Graph &g, const std::vector<uint64_t> &syn, bool with_obs);

/// Exact optimum of the signed problem through T-join duality: Dijkstra distances plus exact pairing.
/// Pairing by subset DP for few terminals, by weighted blossom otherwise. nullopt: infeasible.
std::optional<i64> optimum(const Graph &g, const std::vector<uint64_t> &syn, int dp_limit = 12);

/// Minimum-weight perfect matching of a complete-ish cost matrix (INF = no edge). nullopt: none exists.
std::optional<i64> min_perfect_matching_dp(const std::vector<std::vector<i64>> &c);
std::optional<i64> min_perfect_matching_blossom(const std::vector<std::vector<i64>> &c);

/// Is there an edge set explaining syn? (parity per connected component without boundary)
bool feasible(const Graph &g, const std::vector<uint64_t> &syn);

/// Syndrome (non-boundary nodes, sorted) of a set of edge indices.
std::vector<uint64_t> syndrome_of(const Graph &g, const std::vector<size_t> &edge_ids);

/// Syndrome without events on boundary nodes, sorted.
std::vector<uint64_t> strip_boundary(const Graph &g, const std::vector<uint64_t> &syn);

std::vector<int> components(const Graph &g, std::vector<bool> &has_boundary);

// ------------------------------------------------------------------ generators
enum ObsMode { OBS_NONE, OBS_UNIQUE, OBS_SHARED };
struct GraphOpts {
    int max_n = 10;
    bool negative = false;
    bool allow_boundary = true;
    bool allow_boundary_nodes = true;
    bool self_loops = false;
    bool parallel_boundary = true;  // several boundary edges per node through different boundary nodes
    ObsMode obs = OBS_NONE;
    size_t max_obs = 64;   // OBS_SHARED: ids below this; OBS_UNIQUE: number of edges is capped to it
    int max_edges = 1 << 30;
    int weight_mode = -1;
    int family = -1;
    bool large = false;    // now and then a graph of 100..400 nodes, with private ids on max_obs of its edges
    bool huge = true;      // with large: now and then thousands of nodes, up to more than 2^16
};
Graph gen_graph(pbt::Gen &g, const GraphOpts &o);
i64 gen_weight(pbt::Gen &g, int mode);
int gen_weight_mode(pbt::Gen &g);
/// A feasible syndrome on non-boundary nodes.
std::vector<uint64_t> gen_feasible_syndrome(pbt::Gen &g, const Graph &gr, int max_k);
std::string syn_str(const std::vector<uint64_t> &s);

}  // namespace ref
#endif
