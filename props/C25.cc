#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C25";
const char *pbt::RULE =
    "graphs of 40 to 600 nodes (2D/3D lattices, chained odd cycles, sparse random, clustered, trees with chords, hubs) with up to 200 "
    "detection events; oracle: Dijkstra distances + an independent weighted blossom implementation, then the same problem relabelled, "
    "permuted, endpoint-swapped, scaled and split into components must give the same (scaled) weight, also through the edge and pair "
    "interfaces. Non-trivial: at least 12 detection events";
namespace {
ref::Graph lattice3(Gen &g, int cap) {
    ref::Graph r;
    int a = (int)g.range(2, 8), b = (int)g.range(2, 8), t = std::max(2, std::min((int)g.range(2, 9), cap / (a * b)));
    r.n = a * b * t;
    auto id = [&](int i, int j, int k) { return (k * a + i) * b + j; };
    bool hook = g.chance(1, 2), wrap = g.chance(1, 3);
    int wm = (int)g.choice(5);
    auto add = [&](int x, int y) { r.edges.push_back({x, y, ref::gen_weight(g, wm), {}}); };
    for (int k = 0; k < t; k++)
        for (int i = 0; i < a; i++)
            for (int j = 0; j < b; j++) {
                if (i + 1 < a) add(id(i, j, k), id(i + 1, j, k));
                else if (wrap && a > 2) add(id(i, j, k), id(0, j, k));
                if (j + 1 < b) add(id(i, j, k), id(i, j + 1, k));
                if (k + 1 < t) add(id(i, j, k), id(i, j, k + 1));
                if (hook && k + 1 < t && i + 1 < a) add(id(i, j, k), id(i + 1, j, k + 1));
                if (!wrap && (j == 0 || j == b - 1)) r.edges.push_back({id(i, j, k), -1, ref::gen_weight(g, wm), {}});
            }
    return r;
}
ref::Graph clusters(Gen &g, int cap) {
    // Dense odd cliques joined by long edges: many nested blossoms.
    ref::Graph r;
    int k = (int)g.range(4, 24);
    std::vector<int> first;
    for (int q = 0; q < k && r.n + 9 < cap; q++) {
        int s = 3 + 2 * (int)g.choice(3);
        first.push_back(r.n);
        for (int i = 0; i < s; i++)
            for (int j = i + 1; j < s; j++) if (j == i + 1 || g.chance(2, 3)) r.edges.push_back({r.n + i, r.n + j, 1 + (ref::i64)g.choice(6), {}});
        r.n += s;
    }
    std::set<std::pair<int, int>> have;
    int links = (int)g.range((int)first.size() - 1, 3 * (int)first.size());
    for (int q = 0; q < links; q++) {
        int x = q + 1 < (int)first.size() ? q : (int)g.choice(first.size());
        int y = q + 1 < (int)first.size() ? q + 1 : (int)g.choice(first.size());
        if (x == y) continue;
        int u = first[x] + (int)g.choice(3), v = first[y] + (int)g.choice(3);
        if (u > v) std::swap(u, v);
        if (have.insert({u, v}).second) r.edges.push_back({u, v, 3 + (ref::i64)g.choice(30), {}});
    }
    int nb = (int)g.choice(4);
    std::set<int> bs;
    for (int q = 0; q < nb; q++) bs.insert((int)g.choice(r.n));
    for (int x : bs) r.edges.push_back({x, -1, (ref::i64)g.choice(60), {}});
    return r;
}
}  // namespace
void pbt::property(Gen &g, Ctx &c) {
    int cap = g.scale ? 600 : g.chance(1, 8) ? 400 : 150;
    ref::Graph gr;
    switch (g.weighted({6, 3, 3})) {
        case 0: {
            ref::GraphOpts o;
            static const int fam[] = {0, 2, 4, 5, 7, 1};
            o.family = fam[g.weighted({3, 5, 5, 3, 1, 1})];
            o.max_n = cap;
            gr = ref::gen_graph(g, o);
            break;
        }
        case 1: gr = lattice3(g, cap); break;
        default: gr = clusters(g, cap);
    }
    int k = (int)g.weighted({5, 3, 1});
    int max_k = k == 0 ? 40 : k == 1 ? 80 : 200;
    // Dense syndromes.
    std::vector<uint64_t> syn;
    {
        std::vector<char> on(gr.n, 0);
        std::vector<int> cand;
        for (int i = 0; i < gr.n; i++) if (!gr.boundary.count(i)) cand.push_back(i);
        int style = (int)g.choice(3);
        if (style == 0) syn = ref::gen_feasible_syndrome(g, gr, max_k);
        else {
            // A window or a random sample of nodes.
            size_t start = style == 1 ? g.choice(cand.size()) : 0;
            int p = 2 + (int)g.choice(4);
            for (size_t i = 0; i < cand.size(); i++) {
                int x = style == 1 ? cand[(start + i) % cand.size()] : cand[i];
                if ((int)syn.size() >= max_k) break;
                if (g.chance(style == 1 ? 3 : 1, style == 1 ? 4 : p)) syn.push_back(x);
            }
            std::sort(syn.begin(), syn.end());
            std::vector<bool> hb;
            auto comp = ref::components(gr, hb);
            std::map<int, std::vector<uint64_t>> by;
            for (auto x : syn) by[comp[x]].push_back(x);
            syn.clear();
            for (auto &[q, v] : by) {
                if (v.size() % 2 && !hb[q]) v.pop_back();
                syn.insert(syn.end(), v.begin(), v.end());
            }
            std::sort(syn.begin(), syn.end());
        }
    }
    c.desc << gr.str() << " syndrome " << ref::syn_str(syn);
    c.commit();
    auto best = ref::optimum(gr, syn);
    CHECK(best.has_value(), "oracle infeasible");
    auto u = glue::make_user_graph(gr);
    int mode = (int)g.weighted({3, 2, 2});
    auto &m = mode == 1 ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    auto d = glue::decode(m, syn);
    CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
    CHECK(d.weight == (double)*best, "weight " << d.weight << ", optimum " << *best);
    if (mode == 1) {
        auto e = glue::decode_edges(m, syn);
        CHECK(!e.threw, "feasible syndrome rejected: " << e.what);
        CHECK(glue::check_edge_list(gr, e.edges, syn) == *best, "edge set is not of minimum weight " << *best);
    } else if (mode == 2) {
        auto pr = glue::decode_pairs(m, syn);
        CHECK(!pr.threw, "feasible syndrome rejected: " << pr.what);
        ref::Contracted con(gr);
        ref::i64 tot = 0;
        std::vector<uint64_t> ends;
        for (auto &p : pr.pairs) {
            int a = (int)std::max(p.first, p.second), b = (int)std::min(p.first, p.second);
            CHECK(a >= 0, "pair without a node");
            auto dist = con.dijkstra(a, false);
            tot += b < 0 ? dist[con.n] : dist[b];
            ends.push_back(a);
            if (b >= 0) ends.push_back(b);
        }
        std::sort(ends.begin(), ends.end());
        CHECK(ends == syn, "pairs cover " << ref::syn_str(ends));
        CHECK(tot == *best, "pairs have total distance " << tot << ", optimum " << *best);
    }
    // Relabelled, permuted, swapped, scaled.
    {
        ref::Graph h = gr;
        std::vector<int> p(h.n);
        for (int i = 0; i < h.n; i++) p[i] = i;
        g.shuffle(p);
        ref::i64 mx = 1;
        for (auto &e : h.edges) mx = std::max(mx, e.w);
        ref::i64 f = 1 + (ref::i64)g.choice(std::min<ref::i64>(ref::MAXW / mx, 1000));
        double half = g.chance(1, 3) ? 0.5 : 1;  // also fractional units: exact in binary
        for (auto &e : h.edges) {
            e.u = p[e.u];
            if (e.v >= 0) e.v = p[e.v];
            if (e.v >= 0 && g.chance(1, 2)) std::swap(e.u, e.v);
            e.w *= f;
        }
        std::set<int> nb;
        for (auto b : h.boundary) nb.insert(p[b]);
        h.boundary = nb;
        g.shuffle(h.edges);
        std::vector<uint64_t> s2;
        for (auto x : syn) s2.push_back(p[x]);
        g.shuffle(s2);
        c.desc << " then relabelled, permuted and scaled by " << f << " x " << half;
        c.commit();
        auto u2 = glue::make_user_graph(h, half);
        auto d2 = glue::decode(u2.get_mwpm(), s2);
        CHECK(!d2.threw, "relabelled problem rejected: " << d2.what);
        double want = (double)*best * (double)f * half;
        if (half == 1) CHECK(d2.weight == want, "relabelled problem has weight " << d2.weight << ", expected " << want);
        else {
            double tol = (double)h.edges.size() * (double)mx * (double)f * half / (double)ref::MAXW + 1e-9 * want;
            CHECK(std::abs(d2.weight - want) <= tol, "relabelled problem has weight " << d2.weight << ", expected " << want);
        }
    }
    // Component by component.
    {
        std::vector<bool> hb;
        auto comp = ref::components(gr, hb);
        std::map<int, std::vector<uint64_t>> by;
        for (auto x : syn) by[comp[x]].push_back(x);
        if (by.size() >= 2) {
            double sum = 0;
            for (auto &[q, v] : by) {
                auto dd = glue::decode(m, v);
                CHECK(!dd.threw, "component rejected: " << dd.what);
                sum += dd.weight;
            }
            CHECK(sum == (double)*best, "components sum to " << sum << ", optimum " << *best);
            if (c.want_labels) c.label("several components");
        }
    }
    c.nontrivial = syn.size() >= 12;
    if (c.want_labels) {
        c.label(syn.size() < 12 ? "events <12" : syn.size() < 40 ? "events 12-39" : syn.size() < 100 ? "events 40-99" : "events >=100");
        c.label(gr.n < 100 ? "nodes <100" : gr.n < 250 ? "nodes 100-249" : "nodes >=250");
    }
}
