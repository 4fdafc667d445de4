#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C02";
const char *pbt::RULE =
    "graph with <=64 fault ids (a) one private id per edge plus shared ids, so that the prediction names an edge set that must reproduce "
    "the syndrome at optimal weight, or (b) shared/no/multiple ids on <=14 edges, where the prediction must be among those of all optimal "
    "edge sets found by enumeration. Non-trivial: non-empty prediction";
void pbt::property(Gen &g, Ctx &c) {
    bool unique = g.chance(2, 3);
    ref::GraphOpts o;
    if (unique) {
        o.max_n = g.chance(1, 2) ? 10 : 24;
        o.obs = ref::OBS_UNIQUE;
        o.large = true;
        o.max_obs = 56 + g.choice(9);
    } else {
        o.max_n = 7;
        o.max_edges = 14;
        o.obs = ref::OBS_SHARED;
        o.max_obs = 64;
    }
    o.self_loops = true;
    auto gr = ref::gen_graph(g, o);
    // Shared ids on top of the private ones.
    std::set<size_t> shared;
    if (unique) {
        size_t lo = o.max_obs, k = std::min<size_t>(64 - lo, g.choice(4));
        for (size_t i = 0; i < k; i++) {
            size_t id = g.chance(1, 2) ? 63 - i : lo + i;
            if (id < lo || !shared.insert(id).second) continue;
            for (auto &e : gr.edges) if (!e.obs.empty() && g.chance(1, 2)) { if (g.chance(1, 2)) e.obs.push_back(id); else e.obs.insert(e.obs.begin(), id); }
        }
    }
    if (g.chance(1, 4)) gr.min_obs = (size_t)g.range(0, 64);
    auto u = glue::make_user_graph(gr);
    auto &m = g.chance(1, 4) ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    int shots = 1 + (int)g.choice(3);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 40);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto d = glue::decode(m, order);
        CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
        auto e = glue::decode_mask(m, order);
        CHECK(!e.threw, "feasible syndrome rejected (mask): " << e.what);
        for (auto *r : {&d, &e}) {
            if (unique) {
                std::vector<size_t> priv, sh;
                for (auto x : r->obs) (shared.count(x) ? sh : priv).push_back(x);
                auto edges = glue::ids_to_edges(gr, priv);
                auto best = ref::optimum(gr, syn);
                CHECK(best.has_value(), "oracle infeasible");
                glue::check_prediction(gr, syn, priv, *best);
                CHECK(r->weight == (double)*best, "reported weight " << r->weight << ", optimum " << *best);
                std::map<size_t, int> par;
                for (auto i : edges) for (auto x : gr.edges[i].obs) if (shared.count(x)) par[x] ^= 1;
                std::vector<size_t> want;
                for (auto &p : par) if (p.second) want.push_back(p.first);
                CHECK(sh == want, "shared ids predicted " << glue::obs_str(sh) << " but the chosen edges flip " << glue::obs_str(want));
            } else {
                auto b = ref::brute_force(gr, syn, true);
                CHECK(b.feasible && r->weight == (double)b.best, "reported weight " << r->weight << ", optimum " << b.best);
                CHECK(b.best_obs.count(r->obs), "prediction " << glue::obs_str(r->obs) << " belongs to no optimal edge set");
                if (c.want_labels && b.best_obs.size() > 1) c.label("several optimal predictions");
            }
        }
        if (!d.obs.empty()) c.nontrivial = true;
        if (c.want_labels) {
            c.label(unique ? "private ids" : "shared ids, enumerated");
            if (!shared.empty()) c.label("private + shared ids");
            if (!d.obs.empty() && d.obs.back() >= 32) c.label("predicted id >=32");
            if (!d.obs.empty() && d.obs.back() == 63) c.label("predicted id 63");
            if (syn.size() > 6) c.label("events >6");
            if (gr.n > 90) c.label("n>90");
        }
    }
}
