#include <cmath>
#include "common.h"
#include "dem.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C16";
const char *pbt::RULE =
    "random detector error model text (nested repeats, shifts, declarations, decompositions, repeated mechanisms, zero and >1/2 "
    "probabilities, components with 0..3 detectors) loaded and compared edge by edge with an independent interpreter; then random shots "
    "decoded and compared with the exact optimum within rounding. Non-trivial: two mechanisms share an edge, or a repeat/shift/separator is present";
void pbt::property(Gen &g, Ctx &c) {
    dem::Opts o;
    o.max_dets = (int)g.range(2, 9);
    o.max_instr = g.scale ? 30 : 14;
    o.unique_obs = g.chance(1, 3);
    o.max_obs = g.chance(1, 5) ? 80 : 6;
    if (g.chance(1, 40)) {
        o.large = true;
        if (g.chance(1, 2)) o.max_dets = 10 + (int)g.choice(g.chance(1, 4) ? 5000 : 300);
        if (g.chance(1, 4)) o.max_obs = 1000;
    }
    o.certain = g.chance(1, 25);
    auto m = dem::generate(g, o);
    c.desc << m.text;
    c.commit();
    stim::DetectorErrorModel d(m.text.c_str());
    auto u = pm::detector_error_model_to_user_graph(d, false, pm::NUM_DISTINCT_WEIGHTS);
    CHECK(u.get_num_nodes() == m.flat.num_dets, "nodes " << u.get_num_nodes() << ", expected " << m.flat.num_dets);
    CHECK(u.get_num_detectors() == m.flat.num_dets, "detectors " << u.get_num_detectors());
    CHECK(u.get_num_observables() == m.flat.num_obs, "observables " << u.get_num_observables() << ", expected " << m.flat.num_obs);
    CHECK(u.get_boundary().empty(), "a detector became a boundary");
    auto want = dem::edges_of(m.flat);
    std::map<std::pair<int, int>, const dem::REdge *> by;
    for (auto &e : want) by[{e.u, e.v}] = &e;
    CHECK(u.get_num_edges() == want.size(), "edges " << u.get_num_edges() << ", expected " << want.size());
    std::set<std::pair<int, int>> seen;
    double mx = 0;
    for (auto &e : u.edges) {
        int a = (int)e.node1, b = e.node2 == SIZE_MAX ? -1 : (int)e.node2;
        if (b >= 0 && a > b) std::swap(a, b);
        auto it = by.find({a, b});
        CHECK(it != by.end(), "unexpected edge (" << a << "," << b << ")");
        CHECK(seen.insert({a, b}).second, "edge (" << a << "," << b << ") twice");
        auto &x = *it->second;
        CHECK(std::abs(e.error_probability - x.p) < 1e-12, "probability of (" << a << "," << b << ") is " << e.error_probability << ", expected " << x.p);
        CHECK(e.weight == x.w || std::abs(e.weight - x.w) < 1e-9 * (1 + std::abs(x.w)) + 1e-15 / std::min(x.p, 1 - x.p), "weight of (" << a << "," << b << ") is " << e.weight << ", expected " << x.w);
        CHECK(e.observable_indices == x.obs, "observables of (" << a << "," << b << ") are " << glue::obs_str(e.observable_indices) << ", expected " << glue::obs_str(x.obs));
        mx = std::max(mx, std::abs(x.w));
    }
    CHECK(u.all_edges_have_error_probabilities(), "probabilities missing");

    if (std::isinf(mx)) {
        // An error of probability one (or an even number of them) on an edge: no finite weight describes it.
        bool threw = false;
        try {
            u.get_mwpm();
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        CHECK(threw, "an edge of infinite weight was accepted");
        mx = 0;
        c.nontrivial = true;
        if (c.want_labels) c.label("infinite weight");
    }

    // Decode a few shots of the loaded model through both ways of obtaining a decoder.
    if (mx > 0 && m.flat.num_dets > 0) {
        const double S = (double)(1 << 24) / mx;
        ref::Graph gr;
        gr.n = (int)m.flat.num_dets;
        for (auto &e : want) gr.edges.push_back({e.u, e.v, (ref::i64)std::llround(e.w * S), e.obs});
        gr.min_obs = m.flat.num_obs;
        auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, g.chance(1, 2), false);
        int shots = (int)g.range(1, 3);
        for (int s = 0; s < shots; s++) {
            auto syn = ref::gen_feasible_syndrome(g, gr, 12);
            c.desc << " shot " << ref::syn_str(syn);
            c.commit();
            auto best = ref::optimum(gr, syn);
            CHECK(best.has_value(), "oracle infeasible");
            double tol = (double)(2 * want.size() + 4) / S + 1e-12;
            for (int w = 0; w < 2; w++) {
                auto r = glue::decode(w ? mw : u.get_mwpm(), syn);
                CHECK(!r.threw, "refused: " << r.what);
                CHECK(std::abs(r.weight - *best / S) < tol, "weight " << r.weight << ", optimum " << *best / S);
                if (o.unique_obs) {
                    // Every edge still names an observable of its own: its first component's.
                    std::set<size_t> firsts;
                    bool distinct = true;
                    for (auto &e : want) for (auto q : e.obs) distinct &= firsts.insert(q).second;
                    if (distinct) {
                        auto ids = glue::ids_to_edges(gr, r.obs);
                        CHECK(ref::syndrome_of(gr, ids) == syn, "predicted observables " << glue::obs_str(r.obs) << " explain " << ref::syn_str(ref::syndrome_of(gr, ids)));
                        CHECK(std::abs(glue::total_weight(gr, ids) / S - *best / S) < tol, "prediction is not of minimum weight");
                    }
                }
            }
        }
    }
    size_t comps = 0;
    for (auto &e : m.flat.errors) comps += e.comps.size();
    bool st = m.text.find("repeat") != std::string::npos || m.text.find("shift") != std::string::npos || m.text.find('^') != std::string::npos;
    c.nontrivial = comps > want.size() || st;
    if (c.want_labels) {
        c.label("cases");
        if (o.large) c.label("large");
        if (m.text.find("repeat") != std::string::npos) c.label("repeat");
        if (m.text.find("shift") != std::string::npos) c.label("shift");
        if (m.text.find('^') != std::string::npos) c.label("decomposed");
        if (comps > want.size()) c.label("merged or dropped components");
        if (m.flat.num_obs > 64) c.label(">64 observables");
    }
}
