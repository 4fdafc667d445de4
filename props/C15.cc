#include <cmath>
#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C15";
const char *pbt::RULE =
    "history of 3..20 steps mixing graph changes (new edges, merges of every strategy, boundary changes, extra ids beyond 64, new nodes) with "
    "decodes of every mode on one graph object; each answer is compared with a graph built from scratch from the current contents and, for "
    "integer weights, with the exact optimum and the edges the predicted ids name. Non-trivial: a decode, then a change, then a decode";

static ref::Graph snapshot(pm::UserGraph &u, bool &integral) {
    ref::Graph r;
    r.n = (int)u.get_num_nodes();
    for (auto b : u.get_boundary()) r.boundary.insert((int)b);
    integral = true;
    for (auto &e : u.edges) {
        if (e.weight != std::round(e.weight)) integral = false;
        r.edges.push_back({(int)e.node1, e.node2 == SIZE_MAX ? -1 : (int)e.node2, (ref::i64)std::llround(e.weight), e.observable_indices});
    }
    r.min_obs = u.get_num_observables();
    return r;
}
static pm::UserGraph rebuild(pm::UserGraph &u) {
    pm::UserGraph f(u.get_num_nodes(), u.get_num_observables());
    f.set_boundary(u.get_boundary());
    for (auto &e : u.edges) {
        if (e.node2 == SIZE_MAX) f.add_or_merge_boundary_edge(e.node1, e.observable_indices, e.weight, e.error_probability);
        else f.add_or_merge_edge(e.node1, e.node2, e.observable_indices, e.weight, e.error_probability);
    }
    return f;
}
/// Signed weights are exact on this domain only: one boundary edge per node, no negative boundary-boundary edge or self-loop.
static bool exact_domain(const ref::Graph &g) {
    std::map<int, int> nb;
    bool neg = false;
    for (auto &e : g.edges) {
        bool a = g.is_b(e.u), b = g.is_b(e.v);
        if (e.w < 0) neg = true;
        if (a && b) { if (e.w < 0) return false; continue; }
        if (e.u == e.v && e.w < 0) return false;
        if (a != b) nb[a ? e.v : e.u]++;
    }
    if (neg) for (auto &x : nb) if (x.second > 1) return false;
    return true;
}

void pbt::property(Gen &g, Ctx &c) {
    int N = (int)g.range(2, 8);
    bool wide = g.chance(1, 40);
    if (wide) N += (int)g.range(10, 120);
    pm::UserGraph u(g.chance(1, 2) ? g.choice(N + 1) : 0);
    size_t next_id = 0;
    bool allow_neg = g.chance(1, 3), allow_real = g.chance(1, 6);
    int steps = (int)g.range(3, g.scale ? 40 : 20);
    int stage = 0;
    bool after_change = false;
    std::vector<uint64_t> last;
    auto add = [&]() {
        int64_t a = (int64_t)g.choice(N), b = g.chance(1, 4) ? -1 : (int64_t)g.choice(N);
        static const int strat[] = {pm::REPLACE, pm::SMALLEST_WEIGHT, pm::KEEP_ORIGINAL, pm::DISALLOW, pm::INDEPENDENT};
        int st = strat[g.choice(allow_real ? 5 : 4)];
        double w = (double)g.choice(9);
        if (g.chance(1, 10)) w = (double)g.choice(1 << 20);
        if (allow_neg && g.chance(1, 3)) w = -w;
        std::vector<size_t> obs{next_id++};
        if (g.chance(1, 15)) next_id += 40;
        c.desc << " add(" << a << "," << b << " w=" << w << " id=" << obs[0] << " s" << st << ")";
        try {
            if (b >= 0) u.add_or_merge_edge(a, b, obs, w, -1, (pm::MERGE_STRATEGY)st);
            else u.add_or_merge_boundary_edge(a, obs, w, -1, (pm::MERGE_STRATEGY)st);
        } catch (const std::invalid_argument &) {
            CHECK(st == pm::DISALLOW, "edge refused");
        }
    };
    int warm = (int)g.range(1, 10);
    if (wide) warm += 2 * N;
    for (int k = 0; k < warm; k++) add();
    if (g.chance(1, 2)) {
        c.desc << " boundary{" << N - 1 << "}";
        u.set_boundary({(size_t)N - 1});
    }
    for (int s = 0; s < steps; s++) {
        int op = (int)g.weighted({6, 6, 2, 1, 1});
        if (op == 0) {
            add();
        } else if (op == 2) {
            std::set<size_t> bd;
            int nb = (int)g.choice(4);
            for (int q = 0; q < nb; q++) bd.insert(g.choice(N + 1));
            c.desc << " boundary{";
            for (auto x : bd) c.desc << x << " ";
            c.desc << "}";
            u.set_boundary(bd);
        } else if (op == 3) {
            size_t n = g.chance(1, 2) ? 60 + g.choice(10) : g.choice(100);
            c.desc << " min_ids(" << n << ")";
            u.set_min_num_observables(n);
        } else if (op == 4) {
            N++;
            c.desc << " N=" << N;
        }
        if (op != 1) {
            if (stage == 1) after_change = true;
            continue;
        }
        bool integral;
        auto gr = snapshot(u, integral);
        if (gr.n == 0) continue;
        std::vector<uint64_t> syn;
        if (!last.empty() && g.chance(1, 2)) syn = last;  // the same syndrome against the changed graph
        else syn = ref::gen_feasible_syndrome(g, gr, 12);
        bool in_range = true;
        for (auto x : syn) if ((int)x >= gr.n) in_range = false;
        if (!in_range) continue;
        last = syn;
        auto plain = ref::strip_boundary(gr, syn);
        bool feas = ref::feasible(gr, plain);
        int mode = (int)g.weighted({4, 2, 3, 2});
        c.desc << " decode" << mode << ref::syn_str(syn);
        c.commit();
        auto f = rebuild(u);
        bool dom = integral && exact_domain(gr);
        std::optional<ref::i64> best;
        if (dom) best = ref::optimum(gr, plain);
        if (dom) CHECK(best.has_value() == feas, "oracles disagree on feasibility");
        bool neg = false;
        for (auto &e : gr.edges) if (e.w < 0 && !(gr.is_b(e.u) && gr.is_b(e.v))) neg = true;
        if (mode == 0 || mode == 1) {
            auto &m = mode == 0 ? u.get_mwpm() : u.get_mwpm_with_search_graph();
            auto d = glue::decode(m, syn);
            auto e = glue::decode(mode == 0 ? f.get_mwpm() : f.get_mwpm_with_search_graph(), syn);
            CHECK(d.threw == e.threw && d.threw == !feas, "decode " << (d.threw ? "refused" : "accepted") << " the syndrome, a fresh graph " << (e.threw ? "refuses" : "accepts") << " it: " << d.what);
            if (!d.threw) {
                CHECK(d.raw == e.raw && d.weight == e.weight, "weight " << d.weight << ", a graph built from scratch gives " << e.weight);
                if (dom) {
                    CHECK(d.weight == (double)*best, "weight " << d.weight << ", optimum " << *best);
                    auto ids = glue::ids_to_edges(gr, d.obs);
                    CHECK(ref::syndrome_of(gr, ids) == plain, "predicted ids " << glue::obs_str(d.obs) << " explain " << ref::syn_str(ref::syndrome_of(gr, ids)));
                    CHECK(glue::total_weight(gr, ids) == *best, "predicted ids have weight " << glue::total_weight(gr, ids) << ", optimum " << *best);
                }
            }
        } else if (mode == 2) {
            auto d = glue::decode_edges(u.get_mwpm_with_search_graph(), syn);
            CHECK(d.threw == !feas, "decode to edges " << (d.threw ? "refused" : "accepted"));
            if (!d.threw && dom) CHECK(glue::check_edge_list(gr, d.edges, syn) == *best, "edge set of weight other than " << *best);
        } else {
            auto d = glue::decode_pairs(u.get_mwpm(), syn);
            if (!integral) {
                CHECK(d.threw == glue::decode_pairs(f.get_mwpm(), syn).threw, "decode to pairs differs from a fresh graph");
            } else if (!neg) {
                CHECK(d.threw == !feas, "decode to pairs " << (d.threw ? "refused" : "accepted"));
                if (!d.threw && dom) {
                    ref::Contracted con(gr);
                    ref::i64 tot = 0;
                    std::vector<uint64_t> ends;
                    for (auto &p : d.pairs) {
                        int a = (int)std::max(p.first, p.second), b = (int)std::min(p.first, p.second);
                        CHECK(a >= 0, "pair without a node");
                        auto dist = con.dijkstra(a, false);
                        tot += b < 0 ? dist[con.n] : dist[b];
                        ends.push_back(a);
                        if (b >= 0) ends.push_back(b);
                    }
                    std::sort(ends.begin(), ends.end());
                    CHECK(ends == plain, "pairs cover " << ref::syn_str(ends));
                    CHECK(tot == *best, "pairs have total distance " << tot << ", optimum " << *best);
                }
            } else CHECK(d.threw, "pairs with negative weights accepted");
        }
        stage = 1;
        if (after_change) c.nontrivial = true;
        if (c.want_labels) {
            c.label("decodes");
            if (after_change) c.label("decode after change");
            if (!feas) c.label("infeasible");
            if (gr.min_obs > 64) c.label(">64 ids");
        }
    }
    if (c.want_labels) c.label("cases");
}
