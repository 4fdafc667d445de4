#include <cmath>

#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C24";
const char *pbt::RULE =
    "graphs with real weights (log-uniform over up to 40 decades, log-likelihoods, near ties, tiny next to huge, negative) at any overall "
    "scale, and long graphs (paths, rings, spiders, ladders of up to 600 edges) whose solutions span distances beyond 2^31 and 2^32 internal "
    "units; true optimum computed with 40-bit weights; the chosen edge set and the reported weight must be within edges x unit of it, exact "
    "for integers; weights above 2^24-1, infinite or not a number refused, and the graph usable once they are replaced. Non-trivial: at least two distinct weights or a distance beyond 2^31";
namespace {
double gen_real(Gen &g, int mode) {
    switch (mode) {
        case 0: return (double)g.choice(1000001) / 1000000;
        case 1: return std::pow(10.0, -(double)g.choice(41) / (g.chance(1, 2) ? 1 : 10)) * (double)(1 + g.choice(9));
        case 2: { double p = (double)(1 + g.choice(499)) / 1000; return std::log((1 - p) / p); }
        case 3: return 1 + (double)g.choice(9) / 16777216.0;
        case 4: return g.chance(1, 2) ? 1.0 : (double)g.choice(9) / 16777216.0;
        case 5: return (double)g.choice(17) / 7;
        default: return g.chance(1, 3) ? 0.0 : 0.1 * (double)(1 + g.choice(5));
    }
}
}  // namespace

void pbt::property(Gen &g, Ctx &c) {
    ref::Graph gr;
    std::vector<double> w;
    bool lng = g.chance(1, 4);
    bool neg = false;
    bool integral = false;
    if (!lng) {
        ref::GraphOpts o;
        static const int maxn[] = {6, 12, 22};
        o.max_n = maxn[g.weighted({4, 4, 1})];
        neg = g.chance(1, 4);
        if (neg) o.parallel_boundary = false;
        o.max_edges = 64;
        o.weight_mode = 0;
        o.allow_boundary_nodes = !neg;
        gr = ref::gen_graph(g, o);
        int mode = (int)g.choice(8);
        for (size_t k = 0; k < gr.edges.size(); k++) {
            double x = gen_real(g, mode == 7 ? (int)g.choice(7) : mode);
            if (neg && g.chance(1, 3)) x = -x;
            w.push_back(x);
        }
    } else {
        // Long graphs with weights at or near the maximum.
        static const int lens[] = {90, 200, 320, 600};
        int len = (int)g.range(20, lens[g.weighted({4, 4, 3, 1})]);
        integral = g.chance(1, 2);
        auto wt = [&]() -> double {
            if (integral) return (double)(ref::MAXW - (g.chance(1, 3) ? (int64_t)g.choice(1000) : 0));
            return g.chance(1, 8) ? (double)g.choice(1000) / 1000 : 1.0 - (double)g.choice(3) / 1000;
        };
        int kind = (int)g.choice(4);
        auto edge = [&](int a, int b, double x) { gr.edges.push_back({a, b, 0, {}}); w.push_back(x); };
        if (kind == 0) {  // path, boundary at one or both ends
            gr.n = len;
            for (int i = 0; i + 1 < len; i++) edge(i, i + 1, wt());
            if (g.chance(3, 4)) edge(0, -1, wt());
            if (g.chance(1, 2)) edge(len - 1, -1, wt());
        } else if (kind == 1) {  // ring with chords
            gr.n = len;
            for (int i = 0; i < len; i++) edge(i, (i + 1) % len, wt());
            if (g.chance(1, 3)) edge((int)g.choice(len), -1, wt());
        } else if (kind == 2) {  // spider
            int legs = (int)g.range(3, 7);
            gr.n = 1;
            for (int l = 0; l < legs; l++) {
                int prev = 0;
                int m = std::max(1, len / legs);
                for (int i = 0; i < m; i++) { edge(prev, gr.n, wt()); prev = gr.n++; }
                if (g.chance(1, 3)) edge(prev, -1, wt());
            }
        } else {  // ladder
            int m = std::max(2, len / 2);
            gr.n = 2 * m;
            for (int i = 0; i < m; i++) {
                edge(i, m + i, wt());
                if (i + 1 < m) { edge(i, i + 1, wt()); edge(m + i, m + i + 1, wt()); }
            }
            if (g.chance(1, 2)) edge(0, -1, wt());
        }
        if (g.chance(1, 3)) {
            std::vector<int> p(gr.n);
            for (int i = 0; i < gr.n; i++) p[i] = i;
            g.shuffle(p);
            for (auto &e : gr.edges) { e.u = p[e.u]; if (e.v >= 0) e.v = p[e.v]; }
        }
    }
    const size_t E = gr.edges.size();
    double mx = 0;
    for (auto x : w) mx = std::max(mx, std::abs(x));
    // Overall scale: the largest weight anywhere between 1e-290 and the documented maximum.
    if (!integral && mx > 0) {
        double top;
        switch (g.weighted({3, 2, 2, 2, 1})) {
            case 0: top = mx; break;
            case 1: top = (double)ref::MAXW; break;
            case 2: top = std::pow(10.0, (double)g.range(-8, 6)); break;
            case 3: top = (double)(1 + g.choice(ref::MAXW)) - 0.5; break;
            default: top = std::pow(10.0, (double)g.range(-290, 6)); break;
        }
        double f = top / mx;
        for (auto &x : w) { x = x == mx ? top : x == -mx ? -top : x * f; }
        for (auto &x : w) { if (x > top) x = top; if (x < -top) x = -top; }
        mx = top;
    }
    bool too_big = g.chance(1, 40) && E > 0;
    const size_t big_at = too_big ? g.choice(E) : 0;
    if (too_big) {
        size_t k = big_at;
        double x = g.chance(1, 3) ? 16777215.5 : g.chance(1, 2) ? 16777216.0 : std::pow(10.0, (double)g.range(8, 300));
        if (g.chance(1, 4)) x = g.chance(1, 2) ? INFINITY : NAN;
        w[k] = g.chance(1, 4) ? -x : x;
    }
    bool all_int = true;
    for (auto x : w) all_int &= std::round(x) == x;
    const double unit = all_int ? 0 : mx / (double)ref::MAXW;
    const double S = mx > 0 ? (double)((ref::i64)1 << 40) / mx : 1;
    for (size_t k = 0; k < E; k++) gr.edges[k].w = too_big ? 0 : all_int ? (ref::i64)w[k] : (ref::i64)std::llround(w[k] * S);
    const double per = all_int ? 1 : 1 / S;  // user units per reference unit
    int readout = (int)g.choice(2);  // 0: private ids; 1: edge list
    bool few = readout == 1 && g.chance(1, 2);
    for (size_t k = 0; k < E; k++) gr.edges[k].obs = few ? std::vector<size_t>{k % 64} : std::vector<size_t>{k};
    auto describe = [&]() {
        c.desc << "n=" << gr.n << " boundary nodes " << gr.boundary.size();
        c.desc.precision(17);
        for (size_t k = 0; k < E && k < 80; k++) c.desc << " (" << gr.edges[k].u << "," << gr.edges[k].v << "," << w[k] << ")";
        if (E > 80) c.desc << " ... " << E << " edges";
        for (auto b : gr.boundary) c.desc << " b" << b;
        c.desc << " readout " << readout << " ids " << (few ? "shared" : "private");
    };
    describe();
    c.commit();
    pm::UserGraph u(gr.n, 0);
    if (!gr.boundary.empty()) u.set_boundary(std::set<size_t>(gr.boundary.begin(), gr.boundary.end()));
    auto build = [&]() {
        for (size_t k = 0; k < E; k++) {
            auto &e = gr.edges[k];
            if (e.v < 0) u.add_or_merge_boundary_edge(e.u, e.obs, w[k], -1);
            else u.add_or_merge_edge(e.u, e.v, e.obs, w[k], -1);
        }
    };
    if (too_big) {
        bool threw = false;
        try {
            build();
            if (readout) u.get_mwpm_with_search_graph();
            else u.get_mwpm();
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        CHECK(threw, "a weight beyond the maximum was accepted");
        // Giving the edge a weight that fits makes the graph usable.
        auto &e = gr.edges[big_at];
        try {
            if (e.v < 0) u.add_or_merge_boundary_edge(e.u, e.obs, 0, -1, pm::REPLACE);
            else u.add_or_merge_edge(e.u, e.v, e.obs, 0, -1, pm::REPLACE);
        } catch (const std::invalid_argument &ex) {
            CHECK(false, "replacing the edge was refused: " << ex.what());
        }
        auto r = glue::decode(u.get_mwpm(), {});
        CHECK(!r.threw, "still refused after the weight was replaced: " << r.what);
        c.nontrivial = true;
        if (c.want_labels) c.label("weight beyond maximum");
        return;
    }
    build();
    auto &m = readout ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    std::map<std::pair<int, int>, size_t> at;
    for (size_t k = 0; k < E; k++) {
        auto &e = gr.edges[k];
        int a = gr.is_b(e.u) ? -1 : e.u, b = gr.is_b(e.v) ? -1 : e.v;
        std::pair<int, int> key(std::min(a, b), std::max(a, b));
        auto it = at.find({key.first, key.second});
        if (it == at.end() || w[k] < w[it->second]) at[{key.first, key.second}] = k;
    }
    int shots = (int)g.range(1, 3);
    ref::i64 longest = 0;
    for (int s = 0; s < shots; s++) {
        std::vector<uint64_t> syn;
        if (lng && g.chance(2, 3)) {
            // Few events, far apart.
            int want = (int)g.range(1, 6);
            std::set<uint64_t> q;
            for (int k = 0; k < want; k++) q.insert(g.chance(1, 3) ? (g.chance(1, 2) ? gr.n - 1 : 0) : g.choice(gr.n));
            syn.assign(q.begin(), q.end());
            if (!ref::feasible(gr, syn)) syn.erase(syn.begin() + g.choice(syn.size()));
            if (!ref::feasible(gr, syn)) syn.clear();
        } else {
            syn = ref::gen_feasible_syndrome(g, gr, 14);
        }
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        describe();
        c.desc << " syndrome " << ref::syn_str(order);
        c.commit();
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle infeasible");
        auto d = glue::decode(m, order);
        CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
        const double opt = (double)*best * per;
        std::vector<size_t> edges;
        if (readout == 0) {
            edges = glue::ids_to_edges(gr, d.obs);
        } else {
            auto el = glue::decode_edges(m, order);
            CHECK(!el.threw, "feasible syndrome rejected: " << el.what);
            std::set<size_t> seen;
            for (auto &p : el.edges) {
                std::pair<int, int> key((int)std::min(p.first, p.second), (int)std::max(p.first, p.second));
                auto it = at.find({key.first, key.second});
                CHECK(it != at.end(), "no edge (" << p.first << "," << p.second << ")");
                CHECK(seen.insert(it->second).second, "edge (" << p.first << "," << p.second << ") listed twice");
                edges.push_back(it->second);
            }
        }
        auto got = ref::syndrome_of(gr, edges);
        CHECK(got == syn, "chosen edges explain " << ref::syn_str(got));
        double tw = 0;
        for (auto k : edges) tw += w[k];
        const double fuzz = 1e-9 * (std::abs(tw) + std::abs(opt)) + (double)(E + 2) * per * (all_int ? 0 : 1);
        const double tol = (double)(std::max<size_t>(edges.size(), gr.n) + (neg ? E : 0)) * unit + fuzz;
        CHECK(tw <= opt + (all_int ? 0.0 : tol), "chosen edges have true weight " << tw << ", true optimum " << opt << ", allowed excess " << tol);
        CHECK(std::abs(d.weight - opt) <= (all_int ? 0.0 : tol), "reported weight " << d.weight << ", true optimum " << opt << ", allowed difference " << tol);
        if (readout == 0 && !all_int) {
            // Edges of negative weight outside the solution also enter the sum, each rounded.
            double tol2 = (double)(edges.size() + (neg ? E : 0)) * unit + fuzz;
            CHECK(std::abs(d.weight - tw) <= tol2, "reported weight " << d.weight << " of a solution of weight " << tw);
        }
        longest = std::max(longest, *best);
    }
    std::set<double> dist(w.begin(), w.end());
    double internal = mx > 0 ? (double)longest * per / mx * 2 * (double)ref::MAXW : 0;
    c.nontrivial = dist.size() >= 2 || internal > 2147483648.0;
    if (c.want_labels) {
        if (lng) c.label("long graph");
        if (internal > 2147483648.0) c.label("solution beyond 2^31");
        if (internal > 4294967296.0) c.label("solution beyond 2^32");
        if (neg) c.label("negative");
        if (all_int) c.label("integral");
        if (mx < 1e-100) c.label("tiny scale");
        if (mx > 1e6) c.label("scale near maximum");
    }
}
