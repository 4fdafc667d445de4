#include "common.h"

#include <iterator>
#include <sstream>

namespace glue {

pm::UserGraph make_user_graph(const ref::Graph &g, double scale) {
    pm::UserGraph u(g.n, g.min_obs);
    if (!g.boundary.empty()) u.set_boundary(std::set<size_t>(g.boundary.begin(), g.boundary.end()));
    for (auto &e : g.edges) {
        if (e.v < 0) u.add_or_merge_boundary_edge(e.u, e.obs, (double)e.w * scale, -1);
        else u.add_or_merge_edge(e.u, e.v, e.obs, (double)e.w * scale, -1);
    }
    return u;
}

std::string obs_str(const std::vector<size_t> &o) {
    std::ostringstream s;
    s << "{";
    for (size_t k = 0; k < o.size(); k++) s << (k ? "," : "") << o[k];
    s << "}";
    return s.str();
}

Decoded decode(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr) {
    Decoded d;
    size_t n = m.flooder.graph.num_observables;
    // Exactly sized heap buffer, so that a sanitizer sees any write past the end.
    std::vector<uint8_t> obs(n, 0);
    pm::total_weight_int w = 0;
    try {
        pm::decode_detection_events(m, syn, obs.data(), w, corr);
    } catch (const std::invalid_argument &e) {
        d.threw = true;
        d.what = e.what();
        return d;
    }
    for (size_t i = 0; i < n; i++) {
        CHECK(obs[i] <= 1, "prediction entry " << i << " is not a bit: " << (int)obs[i]);
        if (obs[i]) d.obs.push_back(i);
    }
    d.raw = w;
    d.weight = (double)w / m.flooder.graph.normalising_constant;
    return d;
}

Decoded decode_mask(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr) {
    Decoded d;
    try {
        auto r = pm::decode_detection_events_for_up_to_64_observables(m, syn, corr);
        for (size_t i = 0; i < 64; i++) if (r.obs_mask >> i & 1) d.obs.push_back(i);
        d.raw = r.weight;
        d.weight = (double)r.weight / m.flooder.graph.normalising_constant;
    } catch (const std::invalid_argument &e) {
        d.threw = true;
        d.what = e.what();
    }
    return d;
}

EdgeList decode_edges(pm::Mwpm &m, const std::vector<uint64_t> &syn, bool corr) {
    EdgeList r;
    std::vector<int64_t> e;
    try {
        if (corr) pm::decode_detection_events_to_edges_with_edge_correlations(m, syn, e);
        else pm::decode_detection_events_to_edges(m, syn, e);
    } catch (const std::invalid_argument &x) {
        r.threw = true;
        r.what = x.what();
        return r;
    }
    CHECK(e.size() % 2 == 0, "edge list of odd length");
    for (size_t i = 0; i + 1 < e.size(); i += 2) r.edges.push_back({e[i], e[i + 1]});
    return r;
}

Pairs decode_pairs(pm::Mwpm &m, const std::vector<uint64_t> &syn) {
    Pairs r;
    try {
        pm::decode_detection_events_to_match_edges(m, syn);
    } catch (const std::invalid_argument &x) {
        r.threw = true;
        r.what = x.what();
        return r;
    }
    for (auto &e : m.flooder.match_edges) {
        i64 a = e.loc_from ? e.loc_from - m.flooder.graph.nodes.data() : -1;
        i64 b = e.loc_to ? e.loc_to - m.flooder.graph.nodes.data() : -1;
        r.pairs.push_back({a, b});
    }
    return r;
}

std::vector<size_t> ids_to_edges(const ref::Graph &g, const std::vector<size_t> &obs) {
    std::map<size_t, size_t> owner;
    for (size_t i = 0; i < g.edges.size(); i++) for (auto o : g.edges[i].obs) owner[o] = i;
    std::vector<size_t> r;
    for (auto o : obs) {
        auto it = owner.find(o);
        CHECK(it != owner.end(), "predicted id " << o << " belongs to no edge");
        r.push_back(it->second);
    }
    return r;
}

void check_prediction(const ref::Graph &g, const std::vector<uint64_t> &syn, const std::vector<size_t> &obs, i64 best, const std::string &what) {
    auto edges = ids_to_edges(g, obs);
    auto got = ref::syndrome_of(g, edges);
    auto w = total_weight(g, edges);
    ref::Graph rest;
    rest.n = g.n;
    rest.boundary = g.boundary;
    for (auto &e : g.edges) if (e.obs.empty()) rest.edges.push_back(e);
    if (rest.edges.empty()) {
        CHECK(got == syn, what << "prediction " << obs_str(obs) << " names edges explaining " << ref::syn_str(got));
        CHECK(w == best, what << "prediction " << obs_str(obs) << " has weight " << w << ", optimum " << best);
        return;
    }
    std::vector<uint64_t> left;
    std::set_symmetric_difference(got.begin(), got.end(), syn.begin(), syn.end(), std::back_inserter(left));
    auto r = ref::optimum(rest, left);
    CHECK(r.has_value(), what << "prediction " << obs_str(obs) << " belongs to no explanation of the syndrome");
    CHECK(*r + w == best, what << "the best explanation with prediction " << obs_str(obs) << " has weight " << *r + w << ", optimum " << best);
}

i64 total_weight(const ref::Graph &g, const std::vector<size_t> &edges) {
    i64 w = 0;
    for (auto i : edges) w += g.edges[i].w;
    return w;
}

i64 check_edge_list(const ref::Graph &g, const std::vector<std::pair<i64, i64>> &edges, const std::vector<uint64_t> &syn) {
    // Lightest edge per (unordered) pair of decoder vertices, all boundary nodes identified with -1.
    std::map<std::pair<i64, i64>, i64> w;
    for (auto &e : g.edges) {
        i64 a = g.is_b(e.u) ? -1 : e.u, b = g.is_b(e.v) ? -1 : e.v;
        if (a == b) continue;
        std::pair<i64, i64> k = std::minmax(a, b);
        auto it = w.find(k);
        if (it == w.end() || e.w < it->second) w[k] = e.w;
    }
    std::set<std::pair<i64, i64>> seen;
    std::vector<char> par(g.n, 0);
    i64 tot = 0;
    for (auto &e : edges) {
        CHECK(e.first >= 0 && e.first < g.n && e.second >= -1 && e.second < g.n, "edge (" << e.first << "," << e.second << ") is out of range");
        std::pair<i64, i64> k = std::minmax(e.first, e.second);
        CHECK(seen.insert(k).second, "edge (" << e.first << "," << e.second << ") is listed twice");
        auto it = w.find(k);
        CHECK(it != w.end(), "edge (" << e.first << "," << e.second << ") is not in the graph");
        tot += it->second;
        par[e.first] ^= 1;
        if (e.second >= 0) par[e.second] ^= 1;
    }
    std::vector<uint64_t> got;
    for (int i = 0; i < g.n; i++) if (par[i]) got.push_back(i);
    auto want = ref::strip_boundary(g, syn);
    CHECK(got == want, "edges explain " << ref::syn_str(got) << " instead of " << ref::syn_str(want));
    return tot;
}

}  // namespace glue
