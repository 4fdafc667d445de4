#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C08";
const char *pbt::RULE =
    "arbitrary syndrome (feasible or not, boundary nodes, out-of-range indices) on a signed or non-negative graph, all decoding modes; must be "
    "rejected iff a boundary-free component has odd parity or an index is not a node; followed by a feasible syndrome checked against the "
    "optimum. Non-trivial: the syndrome is rejected, or is feasible with >=2 events";
void pbt::property(Gen &g, Ctx &c) {
    bool neg = g.chance(1, 3);
    ref::GraphOpts o;
    static const int maxn[] = {6, 12, 30};
    o.max_n = maxn[g.weighted({4, 4, 1})];
    o.negative = neg;
    o.parallel_boundary = !neg;
    static const int fams[] = {0, 1, 2, 3, 4, 5, 5, 5, 7};
    o.family = fams[g.choice(9)];
    o.allow_boundary = g.chance(1, 2);
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    if (neg) {
        std::set<int> has;
        std::vector<ref::Edge> keep;
        for (auto &e : gr.edges) {
            if (gr.is_b(e.u) && gr.is_b(e.v)) e.w = std::abs(e.w);
            int x = gr.is_b(e.u) ? (gr.is_b(e.v) ? -2 : e.v) : gr.is_b(e.v) ? e.u : -2;
            if (x >= 0 && !has.insert(x).second) continue;
            keep.push_back(e);
        }
        gr.edges = keep;
    }
    if (g.chance(1, 4)) gr.min_obs = 66;
    bool anyneg = false;
    for (auto &e : gr.edges) if (e.w < 0 && !(gr.is_b(e.u) && gr.is_b(e.v))) anyneg = true;
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm_with_search_graph();
    c.desc << gr.str();
    for (int s = 0; s < 2 + (int)g.choice(3); s++) {
        std::vector<uint64_t> syn;
        int how = (int)g.weighted({4, 3, 2, 2});
        if (how == 0) {
            int dens = gr.n > 500 ? 0 : gr.n > 60 ? 20 : 3;
            if (dens) for (int i = 0; i < gr.n; i++) if (g.chance(1, dens)) syn.push_back(i);
        } else if (how == 1) {
            syn = ref::gen_feasible_syndrome(g, gr, 30);
        } else if (how == 2) {
            syn = ref::gen_feasible_syndrome(g, gr, 30);
            uint64_t x = g.choice(gr.n);
            auto it = std::find(syn.begin(), syn.end(), x);
            if (it == syn.end()) syn.push_back(x); else syn.erase(it);
        } else {
            syn = ref::gen_feasible_syndrome(g, gr, 10);
            static const uint64_t big[] = {0, 1, 7, 1000, 1ull << 31, 1ull << 32, (1ull << 63), ~0ull, ~0ull - 1};
            uint64_t x = big[g.choice(9)];
            syn.push_back(x < 2000 ? gr.n + x : x);
        }
        g.shuffle(syn);
        bool out = false;
        for (auto x : syn) if (x >= (uint64_t)gr.n) out = true;
        bool ok = !out && ref::feasible(gr, syn);
        int mode = (int)g.choice(5);
        if (mode == 2 && gr.num_obs() > 64) mode = 0;
        c.desc << "\n  mode " << mode << " syndrome " << ref::syn_str(syn);
        c.commit();
        bool threw;
        if (mode == 0) threw = glue::decode(m, syn).threw;
        else if (mode == 1) threw = glue::decode_edges(m, syn).threw;
        else if (mode == 2) threw = glue::decode_mask(m, syn).threw;
        else if (mode == 3 && !anyneg) threw = glue::decode_pairs(m, syn).threw;
        else threw = glue::decode(m, syn, true).threw;
        CHECK(threw == !ok, (ok ? "feasible syndrome rejected" : out ? "out-of-range event answered" : "infeasible syndrome answered"));
        if (!ok || syn.size() >= 2) c.nontrivial = true;
        // The decoder stays usable.
        auto f = ref::gen_feasible_syndrome(g, gr, 20);
        c.desc << " then " << ref::syn_str(f);
        c.commit();
        auto best = ref::optimum(gr, f);
        auto d = glue::decode(m, f);
        CHECK(!d.threw, "feasible syndrome " << ref::syn_str(f) << " rejected afterwards: " << d.what);
        CHECK(best && d.weight == (double)*best, "afterwards weight " << d.weight << ", optimum " << (best ? *best : -1));
        auto e = glue::decode_edges(m, f);
        CHECK(!e.threw, "feasible syndrome rejected afterwards by decode to edges: " << e.what);
        CHECK(glue::check_edge_list(gr, e.edges, f) == *best, "edge list not optimal afterwards");
        if (c.want_labels) {
            c.label(ok ? "feasible" : out ? "out of range" : "infeasible");
            if (neg) c.label("negative weights");
        }
    }
}
