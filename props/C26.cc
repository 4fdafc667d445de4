#include <cmath>

#include "common.h"
#include "dem.h"
#include "pymatching/rand/rand_gen.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C26";
const char *pbt::RULE =
    "history of 3..40 API calls over a small pool of graphs and decoders: construct, add/merge with any strategy, boundary changes, extra "
    "ids, model loads with and without correlations, every decoding mode on feasible, infeasible and out-of-range syndromes, path queries, "
    "noise, moves of graphs' decoders; run with exactly sized buffers under address/undefined sanitizers (and hardened containers), every "
    "exception must be a standard one, arguments outside the graph must raise. Non-trivial: at least 5 calls of at least 3 kinds";
namespace {
struct Slot {
    pm::UserGraph u;
    bool dem_corr = false;
};
std::vector<uint64_t> events(Gen &g, size_t n, bool &outside, bool dups = true) {
    std::set<uint64_t> q;
    size_t k = g.choice(std::min<size_t>(n, 12) + 1);
    for (size_t i = 0; i < k && n; i++) q.insert(g.choice(n));
    std::vector<uint64_t> v(q.begin(), q.end());
    if (g.chance(1, 2)) g.shuffle(v);
    if (dups && !v.empty() && g.chance(1, 6)) v.push_back(v[g.choice(v.size())]);
    outside = g.chance(1, 12);
    if (outside) v.insert(v.begin() + g.choice(v.size() + 1), g.chance(1, 4) ? UINT64_MAX - g.choice(2) : n + g.choice(70));
    return v;
}
}  // namespace
void pbt::property(Gen &g, Ctx &c) {
    std::vector<std::unique_ptr<Slot>> pool;
    auto fresh = [&]() {
        auto s = std::make_unique<Slot>();
        switch (g.choice(3)) {
            case 0: s->u = pm::UserGraph(); break;
            case 1: s->u = pm::UserGraph(g.choice(10)); break;
            default: s->u = pm::UserGraph(g.choice(10), g.choice(3) ? g.choice(6) : 60 + g.choice(10));
        }
        return s;
    };
    // A graph is never copied or moved once it holds edges: its nodes point into its own edge list.
    pool.push_back(fresh());
    std::vector<std::unique_ptr<pm::Mwpm>> loose;  // decoders that live on their own, with their graphs' sizes
    int steps = (int)g.range(3, g.scale ? 60 : 40);
    std::set<int> kinds;
    int done = 0;
    static const int Ws[] = {0, 1, 2, 3, 7, 100};
    auto weight = [&]() -> double {
        switch (g.weighted({5, 3, 1, 1, 1})) {
            case 0: return Ws[g.choice(6)];
            case 1: return (double)g.choice(1000) / 97;
            case 2: return -(double)g.choice(5);
            case 3: return (double)ref::MAXW - (double)g.choice(2);
            default: return -(double)g.choice(1000) / 97;
        }
    };
    for (int s = 0; s < steps; s++) {
        auto &slot = *pool[g.choice(pool.size())];
        auto &u = slot.u;
        size_t n = u.get_num_nodes();
        int kind = (int)g.weighted({10, 4, 2, 1, 6, 2, 3, 2, 3, 2, 2, 1, 1, 1, 3});
        c.desc << "\n" << s << ": g" << (&slot == pool[0].get() ? 0 : 1) << " kind " << kind << " n=" << n;
        c.commit();
        bool counted = true;
        try {
            switch (kind) {
                case 0: {
                    size_t a = g.choice(std::max<size_t>(n, 4) + (g.chance(1, 10) ? 4 : 0)), b = g.choice(std::max<size_t>(n, 4));
                    std::vector<size_t> obs;
                    size_t k = g.choice(3);
                    for (size_t i = 0; i < k; i++) obs.push_back(g.chance(1, 20) ? 62 + g.choice(5) : g.choice(5));
                    double w = weight();
                    auto st = (pm::MERGE_STRATEGY)g.choice(5);
                    double p = g.chance(1, 4) ? -1 : (double)g.choice(11) / 10;
                    c.desc << " add " << a << "," << b << " w=" << w << " p=" << p << " strategy " << (int)st << " obs " << glue::obs_str(obs);
                    c.commit();
                    if (g.chance(1, 4)) u.add_or_merge_boundary_edge(a, obs, w, p, st);
                    else u.add_or_merge_edge(a, b, obs, w, p, st);
                    break;
                }
                case 1: {
                    std::set<size_t> b;
                    size_t k = g.choice(4);
                    for (size_t i = 0; i < k; i++) b.insert(g.choice(n + 3));
                    c.desc << " boundary {";
                    for (auto x : b) c.desc << x << " ";
                    c.desc << "}";
                    c.commit();
                    u.set_boundary(b);
                    CHECK(u.get_boundary() == b, "boundary not stored");
                    break;
                }
                case 2: u.set_min_num_observables(g.chance(1, 8) ? 64 + g.choice(4) : g.choice(8)); break;
                case 3: if (pool.size() < 3) pool.push_back(fresh()); break;
                case 4: case 5: case 6: case 7: {
                    bool outside;
                    auto ev = events(g, n, outside);
                    bool search = g.chance(1, 2);
                    bool corr = slot.dem_corr && g.chance(1, 2);
                    c.desc << " decode mode " << kind - 4 << (search ? " with search graph" : "") << (corr ? " correlated " : " ") << ref::syn_str(ev);
                    c.commit();
                    auto &m = search || kind == 6 || corr ? u.get_mwpm_with_search_graph() : u.get_mwpm();
                    bool threw = false;
                    std::string what;
                    if (kind == 4) { auto r = glue::decode(m, ev, corr); threw = r.threw; }
                    else if (kind == 5 && u.get_num_observables() <= 64) { auto r = glue::decode_mask(m, ev, corr); threw = r.threw; }
                    else if (kind == 6) { auto r = glue::decode_edges(m, ev, corr); threw = r.threw; }
                    else { auto r = glue::decode_pairs(m, ev); threw = r.threw; }
                    CHECK(threw || !outside, "an event outside the graph was accepted");
                    break;
                }
                case 8: {
                    size_t a = g.choice(n + 2), b = g.chance(1, 3) ? SIZE_MAX : g.choice(n + 2);
                    if (g.chance(1, 6)) std::swap(a, b);
                    c.desc << " path " << (int64_t)a << "->" << (int64_t)b;
                    c.commit();
                    std::vector<size_t> out;
                    bool threw = false;
                    try {
                        u.get_nodes_on_shortest_path_from_source(a, b, out);
                    } catch (const std::invalid_argument &) {
                        threw = true;
                    }
                    bool outside = (a != SIZE_MAX && a >= n) || (b != SIZE_MAX && b >= n);
                    CHECK(threw || !outside, "a path query outside the graph was answered");
                    if (!threw) for (auto x : out) CHECK(x < n, "path contains unknown node " << x);
                    break;
                }
                case 9: {
                    std::vector<uint8_t> err(u.get_num_observables()), syn(n);
                    if (g.chance(1, 2)) pm::set_seed(g.choice(100));
                    u.add_noise(err.data(), syn.data());
                    for (auto x : err) CHECK(x <= 1, "noise is not a bit");
                    for (auto x : syn) CHECK(x <= 1, "syndrome is not a bit");
                    break;
                }
                case 10: {
                    dem::Opts o;
                    o.max_dets = (int)g.range(2, 7);
                    o.max_instr = 8;
                    o.max_obs = g.chance(1, 6) ? 70 : 4;
                    bool corr = g.chance(1, 2);
                    if (corr && g.chance(3, 4)) { o.hyper = o.big_p = o.dup_components = false; }
                    auto m = dem::generate(g, o);
                    c.desc << " load" << (corr ? " with correlations" : "") << "\n" << m.text;
                    c.commit();
                    if (pool.size() < 3) {
                        stim::DetectorErrorModel d(m.text.c_str());
                        // Constructed in place, as the bindings do.
                        pool.push_back(std::unique_ptr<Slot>(new Slot{pm::detector_error_model_to_user_graph(d, corr, pm::NUM_DISTINCT_WEIGHTS), corr}));
                    } else {
                        stim::DetectorErrorModel d(m.text.c_str());
                        loose.push_back(std::make_unique<pm::Mwpm>(pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, g.chance(1, 2), corr)));
                    }
                    break;
                }
                case 11: {  // a decoder of its own, moved around
                    auto m = u.to_mwpm(g.chance(1, 2) ? pm::NUM_DISTINCT_WEIGHTS : 1 + (1 << g.range(1, 23)), g.chance(1, 2));
                    pm::Mwpm m2(std::move(m));
                    auto p = std::make_unique<pm::Mwpm>();
                    *p = std::move(m2);
                    loose.push_back(std::move(p));
                    break;
                }
                case 12: if (loose.size() >= 2) { *loose[0] = std::move(*loose.back()); loose.pop_back(); } else if (pool.size() > 1) pool.pop_back(); break;
                case 13: {
                    size_t a = g.choice(n + 3), b = g.choice(n + 3);
                    double w;
                    u.has_edge(a, b);
                    u.has_boundary_edge(a);
                    if (a < n && u.get_edge_or_boundary_edge_weight(a, g.chance(1, 3) ? SIZE_MAX : b, w)) CHECK(!std::isnan(w), "weight is NaN");
                    if (a < n) u.is_boundary_node(a);
                    u.max_abs_weight();
                    CHECK(u.get_num_detectors() <= u.get_num_nodes(), "more detectors than nodes");
                    break;
                }
                default: {
                    if (loose.empty()) { counted = false; break; }
                    auto &m = *loose[g.choice(loose.size())];
                    size_t k = m.flooder.graph.nodes.size();
                    bool outside;
                    auto ev = events(g, k, outside);
                    c.desc << " loose decode " << ref::syn_str(ev);
                    c.commit();
                    bool threw = glue::decode(m, ev).threw;
                    CHECK(threw || !outside, "an event outside the graph was accepted");
                }
            }
        } catch (const std::bad_alloc &) {
            pbt::fail("allocation failure");
        } catch (const std::length_error &e) {
            pbt::fail(std::string("length error: ") + e.what());
        } catch (const std::exception &e) {
            c.desc << " -> " << e.what();
        }
        if (counted) { kinds.insert(kind); done++; }
    }
    // What is left of each graph still decodes like a fresh copy of its contents.
    for (auto &p : pool) {
        auto &u = p->u;
        size_t n = u.get_num_nodes();
        if (!n || p->dem_corr) continue;
        pm::UserGraph f(n, u.get_num_observables());
        if (!u.boundary_nodes.empty()) f.set_boundary(u.boundary_nodes);
        for (auto &e : u.edges) {
            if (e.node2 == SIZE_MAX) f.add_or_merge_boundary_edge(e.node1, e.observable_indices, e.weight, e.error_probability);
            else f.add_or_merge_edge(e.node1, e.node2, e.observable_indices, e.weight, e.error_probability);
        }
        bool outside;
        auto ev = events(g, n, outside, false);
        c.desc << "\nfinal decode " << ref::syn_str(ev);
        c.commit();
        glue::Decoded a, b;
        bool ta = false, tb = false;
        try { a = glue::decode(u.get_mwpm(), ev); } catch (const std::invalid_argument &) { ta = true; }
        try { b = glue::decode(f.get_mwpm(), ev); } catch (const std::invalid_argument &) { tb = true; }
        CHECK(ta == tb && a.threw == b.threw, "the graph and a fresh copy of it disagree on whether the syndrome can be decoded");
        CHECK(a.weight == b.weight, "weight " << a.weight << ", a fresh copy of the graph gives " << b.weight);
    }
    c.nontrivial = done >= 5 && kinds.size() >= 3;
    if (c.want_labels) {
        for (int k : kinds) c.label("kind " + std::to_string(k));
        if (pool.size() > 1) c.label("several graphs");
    }
}
