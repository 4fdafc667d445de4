#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C05";
const char *pbt::RULE =
    "non-negative graph and feasible syndrome; decoded pairs must cover every event exactly once and the summed shortest-path distances "
    "(Dijkstra, not through the boundary) must equal the optimum; graphs with a negative edge must be refused. Non-trivial: >=2 pairs";
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {7, 14, 40};
    o.max_n = maxn[g.weighted({4, 4, 2})];
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    if (g.chance(1, 12)) {
        // Refusal of negative weights.
        bool made = false;
        for (auto &e : gr.edges) if (!gr.is_b(e.u) && e.w > 0 && g.chance(1, 2)) { e.w = -e.w; made = true; }
        if (!made) return;
        bool eff = false;
        std::map<int, ref::i64> lightest;
        for (auto &e : gr.edges) if (e.w < 0 && !(gr.is_b(e.u) && gr.is_b(e.v))) eff = true;
        if (!eff) return;
        auto u = glue::make_user_graph(gr);
        auto &m = u.get_mwpm();
        auto syn = ref::gen_feasible_syndrome(g, gr, 20);
        c.desc << gr.str() << " syndrome " << ref::syn_str(syn);
        c.commit();
        auto p = glue::decode_pairs(m, syn);
        CHECK(p.threw, "graph with negative weights was decoded to pairs");
        c.label("negative weights refused");
        c.nontrivial = true;
        return;
    }
    auto u = glue::make_user_graph(gr);
    auto &m = g.chance(1, 4) ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    int shots = 1 + (int)g.choice(3);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 40);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto p = glue::decode_pairs(m, order);
        CHECK(!p.threw, "feasible syndrome rejected: " << p.what);
        std::map<ref::i64, int> seen;
        ref::Contracted con(gr);
        ref::i64 tot = 0;
        for (auto &x : p.pairs) {
            CHECK(x.first >= 0, "pair starting at the boundary");
            seen[x.first]++;
            if (x.second >= 0) seen[x.second]++;
            auto d = con.dijkstra((int)x.first, false);
            ref::i64 dist = x.second >= 0 ? d[x.second] : d[con.n];
            CHECK(dist < ref::INF, "pair (" << x.first << "," << x.second << ") is not connected");
            tot += dist;
        }
        for (auto e : syn) CHECK(seen[e] == 1, "event " << e << " appears " << seen[e] << " times in the pairs");
        CHECK(seen.size() == syn.size(), "pairs mention a node that is not a detection event");
        auto best = ref::optimum(gr, syn);
        CHECK(best && tot == *best, "pair distances sum to " << tot << ", optimum " << (best ? *best : -1));
        if (p.pairs.size() >= 2) c.nontrivial = true;
        if (c.want_labels) {
            if (gr.n > 90) c.label("n>90");
            c.label(p.pairs.size() < 2 ? "pairs 0-1" : p.pairs.size() < 5 ? "pairs 2-4" : "pairs >=5");
            for (auto &x : p.pairs) if (x.second < 0) { c.label("boundary pair"); break; }
        }
    }
}
