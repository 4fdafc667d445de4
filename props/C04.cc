#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C04";
const char *pbt::RULE =
    "signed or non-negative graph without self-loops, 1..4 feasible syndromes decoded to edges on one decoder; the edge list must be "
    "duplicate-free, consist of graph edges, reproduce the syndrome and have optimal weight. Non-trivial: at least 2 edges returned";
void pbt::property(Gen &g, Ctx &c) {
    bool neg = g.chance(2, 5);
    ref::GraphOpts o;
    static const int maxn[] = {7, 14, 40};
    o.max_n = maxn[g.weighted({4, 4, 1})];
    o.negative = neg;
    o.large = true;
    if (neg) o.parallel_boundary = false;
    auto gr = ref::gen_graph(g, o);
    if (neg) for (auto &e : gr.edges) if (gr.is_b(e.u) && gr.is_b(e.v)) e.w = std::abs(e.w);
    if (neg) {
        std::set<int> has;
        std::vector<ref::Edge> keep;
        for (auto &e : gr.edges) {
            int x = gr.is_b(e.u) ? (gr.is_b(e.v) ? -2 : e.v) : gr.is_b(e.v) ? e.u : -2;
            if (x >= 0 && !has.insert(x).second) continue;
            keep.push_back(e);
        }
        gr.edges = keep;
    }
    if (g.chance(1, 6)) gr.min_obs = 70;
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm_with_search_graph();
    int shots = 1 + (int)g.choice(4);
    std::vector<uint64_t> prev;
    for (int s = 0; s < shots; s++) {
        auto syn = s > 0 && g.chance(1, 4) ? prev : ref::gen_feasible_syndrome(g, gr, 40);
        prev = syn;
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " shot " << s << " syndrome " << ref::syn_str(order);
        c.commit();
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle infeasible");
        auto d = glue::decode_edges(m, order);
        CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
        auto w = glue::check_edge_list(gr, d.edges, syn);
        CHECK(w == *best, "edge list has weight " << w << ", optimum " << *best);
        if (d.edges.size() >= 2) c.nontrivial = true;
        if (c.want_labels) {
            if (neg) c.label("negative weights");
            c.label(d.edges.empty() ? "no edge" : d.edges.size() < 4 ? "edges 1-3" : d.edges.size() < 12 ? "edges 4-11" : "edges >=12");
            if (syn.size() > 6) c.label("events >6");
            if (gr.n > 90) c.label("n>90");
        }
    }
}
