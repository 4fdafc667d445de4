// Random detector error models, as text, with an independent interpretation.
#ifndef VERIF_DEM_H
#define VERIF_DEM_H
#include "model.h"
namespace dem {
struct Component {
    std::vector<size_t> dets, obs;
};
struct Error {
    double p;
    std::vector<Component> comps;
};
/// The flattened meaning of a model.
struct Flat {
    std::vector<Error> errors;
    size_t num_dets = 0, num_obs = 0;
};
struct Model {
    std::string text;
    Flat flat;
};
struct Opts {
    int max_dets = 8;        // ids of detectors before shifts
    int max_instr = 12;
    int max_pairs = 1 << 30; // bound on the number of distinct edges
    bool structure = true;   // repeat blocks, shifts, declarations, comments
    bool hyper = true;       // components with 0 or more than 2 detectors
    bool big_p = true;       // probabilities above one half
    bool zero_p = true;
    bool decomposed = true;
    bool dup_components = true;  // the same edge twice in one error
    bool coarse_p = false;       // few distinct probabilities (ties)
    bool near_half = false;      // probabilities just below one half, so that merged weights are tiny
    bool certain = false;      // some errors have probability one
    bool large = false;          // long repeats, far shifts, high ids
    size_t max_obs = 6;
    bool unique_obs = false;     // every component instance names its own observable
};
Model generate(pbt::Gen &g, const Opts &o);

struct REdge {
    int u, v;  // v == -1: boundary
    std::vector<size_t> obs;
    double p, w;
};
/// Edges in order of first appearance, independent mechanisms combined.
std::vector<REdge> edges_of(const Flat &f);
double llr(double p);
}  // namespace dem
#endif
