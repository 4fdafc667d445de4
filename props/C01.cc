#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C01";
const char *pbt::RULE =
    "random graph (8 families, weights 0..2^24-1 in 8 modes, boundary styles) and feasible syndrome; oracle: exact optimum by "
    "edge-subset enumeration (<=16 edges, cross-checked) or Dijkstra + exact pairing. Non-trivial: at least 2 detection events "
    "and positive optimum";
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    size_t size = g.weighted({5, 5, 3, 1});
    static const int maxn[] = {7, 14, 30, 60};
    o.max_n = maxn[size];
    o.obs = ref::OBS_NONE;
    o.self_loops = true;
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm();
    int shots = 1 + (int)g.choice(3);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 40);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle: no solution for a feasible syndrome");
        if (gr.edges.size() <= 14 && c.want_labels) {
            auto b = ref::brute_force(gr, syn, false);
            CHECK(b.feasible && b.best == *best, "oracle disagreement: brute " << b.best << " vs " << *best);
            c.label("brute-force cross-check");
        }
        auto d = glue::decode(m, order);
        CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
        CHECK(d.weight == (double)*best, "decode weight " << d.weight << " but the optimum is " << *best);
        auto e = glue::decode_mask(m, order);
        CHECK(!e.threw, "feasible syndrome rejected: " << e.what);
        CHECK(e.weight == (double)*best, "bit-mask decode weight " << e.weight << " but the optimum is " << *best);
        if (syn.size() >= 2 && *best > 0) c.nontrivial = true;
        if (c.want_labels) {
            c.label(syn.size() == 0 ? "events 0" : syn.size() <= 2 ? "events 1-2" : syn.size() <= 6 ? "events 3-6" : "events >6");
            if (gr.n > 14) c.label("n>14");
            if (gr.n > 90) c.label("n>90");
            if (gr.n > 500) c.label("n>500");
            if (!gr.boundary.empty()) c.label("boundary nodes");
        }
    }
}
