#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C03";
const char *pbt::RULE =
    "signed or non-negative graph with 65..400 fault ids, private id per edge (prediction = edge set, must reproduce the syndrome at "
    "optimal weight) or few ids with >64 declared (prediction among all optimal ones; weight equal to the <=64-id decoder). "
    "Non-trivial: at least 2 detection events and non-empty prediction or negative weights";
void pbt::property(Gen &g, Ctx &c) {
    bool neg = g.chance(1, 3);
    int kind = (int)g.weighted({3, 2, 2});  // private ids; private ids on a bigger graph; declared ids
    ref::GraphOpts o;
    o.negative = neg;
    if (neg) o.parallel_boundary = false;
    if (kind < 2) {
        o.obs = ref::OBS_UNIQUE;
        o.large = true;
        o.max_obs = 65 + g.choice(kind == 1 ? 336 : 40);
        o.max_n = kind == 1 ? 40 : 10;
    } else {
        o.obs = ref::OBS_SHARED;
        o.max_n = 7;
        o.max_edges = 13;
        o.max_obs = 20 + g.choice(100);
    }
    auto gr = ref::gen_graph(g, o);
    if (neg) for (auto &e : gr.edges) if (gr.is_b(e.u) && gr.is_b(e.v)) e.w = std::abs(e.w);
    if (neg) {  // at most one boundary edge per node
        std::set<int> has;
        std::vector<ref::Edge> keep;
        for (auto &e : gr.edges) {
            int x = gr.is_b(e.u) ? (gr.is_b(e.v) ? -2 : e.v) : gr.is_b(e.v) ? e.u : -2;
            if (x >= 0 && !has.insert(x).second) continue;
            keep.push_back(e);
        }
        gr.edges = keep;
    }
    if (g.chance(1, 200) && gr.num_obs()) {  // ids beyond 16 bits
        size_t top = gr.num_obs() - 1, to = 65535 + g.choice(300);
        for (auto &e : gr.edges) for (auto &x : e.obs) if (x == top) x = to;
    }
    gr.min_obs = 65 + (g.chance(1, 2) ? 0 : g.choice(100));
    auto u = glue::make_user_graph(gr);
    auto &m = g.chance(1, 2) ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    CHECK(m.flooder.graph.num_observables == gr.num_obs(), "number of observables " << m.flooder.graph.num_observables);
    pm::UserGraph u2(0);
    bool low = false;
    if (kind == 2) {
        ref::Graph g2 = gr;
        g2.min_obs = 0;
        for (auto &e : g2.edges) for (auto &x : e.obs) x %= 64;
        low = true;
        u2 = glue::make_user_graph(g2);
    }
    int shots = 1 + (int)g.choice(3);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 40);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto d = glue::decode(m, order);
        CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle infeasible");
        CHECK(d.weight == (double)*best, "weight " << d.weight << ", optimum " << *best);
        if (kind < 2) {
            glue::check_prediction(gr, syn, d.obs, *best);
        } else {
            auto b = ref::brute_force(gr, syn, true);
            CHECK(b.best_obs.count(d.obs), "prediction " << glue::obs_str(d.obs) << " belongs to no optimal edge set");
            if (low) {
                auto d2 = glue::decode(u2.get_mwpm(), order);
                CHECK(!d2.threw && d2.weight == d.weight, "<=64-id decoder reports " << d2.weight << ", >64-id decoder " << d.weight);
            }
        }
        if (syn.size() >= 2 && (!d.obs.empty() || neg)) c.nontrivial = true;
        if (c.want_labels) {
            c.label(kind == 0 ? "private ids" : kind == 1 ? "private ids, larger graph" : "declared ids");
            if (neg) c.label("negative weights");
            if (!d.obs.empty() && d.obs.back() >= 64) c.label("predicted id >=64");
            if (syn.size() > 6) c.label("events >6");
            if (gr.n > 90) c.label("n>90");
        }
    }
}
