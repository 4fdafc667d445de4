// Glue between the reference model and PyMatching's C++ API.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "model.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"

namespace glue {
using ref::i64;

/// Adds nodes, boundary and edges of the model graph to a user graph.
pm::UserGraph make_user_graph(const ref::Graph &g, double scale = 1.0);

struct Decoded {
    bool threw = false;
    std::string what;
    std::vector<size_t> obs;  // predicted ids, sorted
    double weight = 0;        // in the user's units
    i64 raw = 0;
};
/// decode through the byte-array interface used by the bindings.
Decoded decode(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr = false);
/// decode through the bit-mask interface used by the command line.
Decoded decode_mask(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr = false);

struct EdgeList {
    bool threw = false;
    std::string what;
    std::vector<std::pair<i64, i64>> edges;
};
EdgeList decode_edges(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr = false);

struct Pairs {
    bool threw = false;
    std::string what;
    std::vector<std::pair<i64, i64>> pairs;  // -1: boundary
};
Pairs decode_pairs(pm::Mwpm &m, const std::vector<uint64_t> &syn);

std::string obs_str(const std::vector<size_t> &o);

/// The graph as the decoder sees it: non-boundary part plus at most one (the lightest) boundary edge per node.
/// Boundary-boundary edges vanish. Among equally light boundary edges all are kept (ties are free choices).
/// Validity of a predicted id set when every edge has its own id: returns the edges selected, or fails.
std::vector<size_t> ids_to_edges(const ref::Graph &g, const std::vector<size_t> &obs);

/// Judges a prediction when some edges have private ids (and no other edge has ids): some explanation of syn of weight best
/// must use exactly the named edges among those with ids.
void check_prediction(const ref::Graph &g, const std::vector<uint64_t> &syn, const std::vector<size_t> &obs, i64 best, const std::string &what = "");

i64 total_weight(const ref::Graph &g, const std::vector<size_t> &edges);

/// Checks that an edge list (by endpoints, -1 boundary) is a valid explanation; returns its weight.
/// Boundary edges are attributed the lightest boundary edge of their node.
i64 check_edge_list(const ref::Graph &g, const std::vector<std::pair<i64, i64>> &edges, const std::vector<uint64_t> &syn);

}  // namespace glue
#endif
