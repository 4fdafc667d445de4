#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C23";
const char *pbt::RULE =
    "a graph with a list of boundary edges, expressed (a) through the virtual boundary, (b) through one boundary node, (c) spread over several "
    "boundary nodes with extra heavier parallel edges, boundary-boundary edges, relabelled nodes and detection events on boundary nodes, with negative weights in a quarter of the cases; all give "
    "the weight of the reference optimum and valid predictions. Non-trivial: the optimum uses the boundary or >= 2 events";
struct BE { int node; ref::i64 w; };
static bool common_ids;  // edges share fault ids or have none: only weights, edge sets and pairs are judged
static void judge(Ctx &c, const char *name, const ref::Graph &gr, const std::vector<uint64_t> &syn, const std::vector<uint64_t> &full, ref::i64 best, int mode) {
    c.desc << "\n" << name << ": " << gr.str() << " syndrome " << ref::syn_str(full);
    c.commit();
    auto u = glue::make_user_graph(gr);
    auto &m = mode == 1 ? u.get_mwpm_with_search_graph() : u.get_mwpm();
    auto d = glue::decode(m, full);
    CHECK(!d.threw, name << " refused: " << d.what);
    CHECK(d.weight == (double)best, name << " gives weight " << d.weight << ", expected " << best);
    // Every edge has private fault ids, all of which change together.
    if (!common_ids) {
    std::set<size_t> on(d.obs.begin(), d.obs.end());
    std::vector<size_t> ids;
    for (size_t i = 0; i < gr.edges.size(); i++) {
        size_t hit = 0;
        for (auto o : gr.edges[i].obs) hit += on.count(o);
        CHECK(hit == 0 || hit == gr.edges[i].obs.size(), name << ": prediction flips only some of the fault ids of edge " << i);
        if (hit) ids.push_back(i);
        for (auto o : gr.edges[i].obs) on.erase(o);
    }
    CHECK(on.empty(), name << ": predicted id " << *on.begin() << " belongs to no edge");
    CHECK(ref::syndrome_of(gr, ids) == syn, name << ": prediction does not explain the syndrome");
    CHECK(glue::total_weight(gr, ids) == best, name << ": prediction has weight " << glue::total_weight(gr, ids));
    }
    if (mode == 1) {
        auto e = glue::decode_edges(m, full);
        CHECK(!e.threw, name << " refused: " << e.what);
        CHECK(glue::check_edge_list(gr, e.edges, full) == best, name << ": edge set is not of minimum weight");
    }
    if (mode == 2) {
        auto pr = glue::decode_pairs(m, full);
        CHECK(!pr.threw, name << " refused: " << pr.what);
        ref::Contracted con(gr);
        ref::i64 tot = 0;
        std::vector<uint64_t> ends;
        for (auto &p : pr.pairs) {
            int a = (int)std::max(p.first, p.second), b = (int)std::min(p.first, p.second);
            CHECK(a >= 0, "pair without a node");
            auto dist = con.dijkstra(a, false);
            tot += b < 0 ? dist[con.n] : dist[b];
            ends.push_back(a);
            if (b >= 0) ends.push_back(b);
        }
        std::sort(ends.begin(), ends.end());
        CHECK(ends == syn, name << ": pairs cover " << ref::syn_str(ends));
        CHECK(tot == best, name << ": pairs have total distance " << tot);
    }
}
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {5, 10, 20};
    o.max_n = maxn[g.weighted({3, 4, 1})];
    o.allow_boundary = false;
    int wm = ref::gen_weight_mode(g);
    o.weight_mode = wm;
    o.max_edges = 40;
    bool neg = g.chance(1, 4);
    o.negative = neg;
    o.large = true;
    o.huge = false;
    auto core = ref::gen_graph(g, o);
    bool many = g.chance(1, 6);
    std::vector<BE> bes;
    int k = (int)g.range(1, std::max(1, core.n / 2));
    std::set<int> at;
    for (int i = 0; i < k; i++) at.insert((int)g.choice(core.n));
    for (int x : at) {
        ref::i64 w = ref::gen_weight(g, wm);
        bes.push_back({x, neg && g.chance(1, 3) ? -w : w});
    }
    int mode = neg ? (int)g.weighted({4, 3}) : (int)g.weighted({4, 3, 2});
    bool several = g.chance(1, 4);  // several fault ids on some of the edges
    size_t id = 0;
    common_ids = g.chance(1, 6);
    size_t same = g.choice(3);
    auto fresh = [&]() {
        std::vector<size_t> r;
        if (common_ids) {
            if (same) r.push_back(same == 1 ? 0 : g.choice(3));
            return r;
        }
        size_t k = several && g.chance(1, 2) ? 1 + g.choice(6) : 1;
        while (r.size() < k) r.push_back(id++);
        return r;
    };
    // (a) virtual boundary
    ref::Graph a = core;
    for (auto &e : a.edges) e.obs = fresh();
    for (auto &b : bes) a.edges.push_back({b.node, -1, b.w, fresh()});
    if (many || id > 64) a.min_obs = 70;
    auto syn = ref::gen_feasible_syndrome(g, a, 14);
    auto best = ref::optimum(a, syn);
    CHECK(best.has_value(), "oracle infeasible");
    judge(c, "virtual boundary", a, syn, syn, *best, mode);
    // (b) one boundary node, last
    ref::Graph b = core;
    id = 0;
    for (auto &e : b.edges) e.obs = fresh();
    int B = b.n++;
    b.boundary = {B};
    for (auto &x : bes) b.edges.push_back({g.chance(1, 2) ? x.node : B, 0, x.w, fresh()});
    for (size_t i = core.edges.size(), j = 0; i < b.edges.size(); i++, j++) {
        int first = b.edges[i].u;
        b.edges[i].v = first == B ? bes[j].node : B;
    }
    if (many || id > 64) b.min_obs = 70;
    auto full = syn;
    if (g.chance(1, 2)) full.push_back(B);
    judge(c, "one boundary node", b, syn, full, *best, mode);
    // (c) several boundary nodes (and the virtual boundary), relabelled
    ref::Graph d = core;
    id = 0;
    for (auto &e : d.edges) e.obs = fresh();
    int nb = (int)g.range(1, 4);
    std::vector<int> bn{-1};
    for (int i = 0; i < nb; i++) { bn.push_back(d.n); d.boundary.insert(d.n++); }
    for (auto &x : bes) {
        std::vector<int> where = bn;
        g.shuffle(where);
        int copies = 1 + (int)g.choice(std::min<size_t>(3, where.size()));
        int light = (int)g.choice(copies);
        for (int q = 0; q < copies; q++) {
            ref::i64 w = x.w;
            // Extra copies are not lighter, and never worth combining with a negative one.
            if (q != light) w = std::min<ref::i64>(ref::MAXW, std::abs(w) + (g.chance(1, 3) ? 0 : ref::gen_weight(g, wm)));
            int v = where[q];
            if (v >= 0 && g.chance(1, 3)) d.edges.push_back({v, x.node, w, fresh()});
            else d.edges.push_back({x.node, v, w, fresh()});
        }
    }
    std::set<std::pair<int, int>> bb;
    int nbb = (int)g.choice(3);
    for (int q = 0; q < nbb; q++) {
        int x = bn[1 + g.choice(nb)], y = bn[g.choice(bn.size())];
        if (y < 0) { if (bb.insert({x, -1}).second) d.edges.push_back({x, -1, ref::gen_weight(g, wm), fresh()}); }
        else if (x != y && bb.insert(std::minmax(x, y)).second) d.edges.push_back({x, y, ref::gen_weight(g, wm), fresh()});
    }
    if (id > 64) many = true;
    std::vector<int> perm(d.n);
    for (int i = 0; i < d.n; i++) perm[i] = i;
    if (g.chance(2, 3)) g.shuffle(perm);
    for (auto &e : d.edges) { e.u = perm[e.u]; if (e.v >= 0) e.v = perm[e.v]; }
    std::set<int> pb;
    for (auto x : d.boundary) pb.insert(perm[x]);
    d.boundary = pb;
    if (g.chance(1, 2)) g.shuffle(d.edges);
    if (many) d.min_obs = 70;
    std::vector<uint64_t> ds;
    for (auto x : syn) ds.push_back(perm[x]);
    full = ds;
    std::sort(ds.begin(), ds.end());
    for (auto x : d.boundary) if (g.chance(1, 3)) full.insert(full.begin() + g.choice(full.size() + 1), x);
    judge(c, "several boundary nodes", d, ds, full, *best, mode);
    c.nontrivial = syn.size() >= 2 || syn.size() == 1;
    if (c.want_labels) {
        c.label("cases");
        if (full.size() > ds.size()) c.label("events on boundary nodes");
        if (syn.size() >= 4) c.label(">=4 events");
        if (many) c.label(">64 ids");
        if (several) c.label("several fault ids per edge");
        if (neg) c.label("negative weights");
    }
}
