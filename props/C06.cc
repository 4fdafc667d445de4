#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C06";
const char *pbt::RULE =
    "graph with signed weights (self-loops, parallel boundary edges with non-negative sum), private fault id per edge; oracle: signed optimum by "
    "enumeration (<=14 edges) or T-join duality; the prediction must name an edge set that reproduces the syndrome at that weight. "
    "Non-trivial: at least one negative edge";
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {7, 12, 24};
    o.max_n = maxn[g.weighted({5, 4, 2})];
    o.negative = true;
    o.self_loops = true;
    o.obs = ref::OBS_UNIQUE;
    bool many = g.chance(1, 3);
    o.max_obs = many ? 65 + g.choice(60) : 64;
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    // Now and then a graph whose negative weights add up far beyond 2^31.
    bool heavy = gr.edges.size() > 64 && gr.edges.size() < 400 && gr.n <= 150 && g.chance(1, 2);
    if (heavy) {
        int per = 1 + (int)g.choice(4);
        for (auto &e : gr.edges) {
            ref::i64 w = ref::MAXW - std::abs(e.w) % 1000;
            e.w = g.chance(per, 4) ? -w : w;
        }
    }
    // Recorded findings: a negative edge between boundary nodes, and two boundary edges of one node with negative sum.
    std::map<int, ref::i64> light;
    std::vector<ref::Edge> keep;
    for (auto &e : gr.edges) {
        if (gr.is_b(e.u) && gr.is_b(e.v)) e.w = std::abs(e.w);
        int x = gr.is_b(e.u) ? (gr.is_b(e.v) ? -2 : e.v) : gr.is_b(e.v) ? e.u : -2;
        if (x >= 0) {
            auto it = light.find(x);
            if (it == light.end()) light[x] = e.w;
            else if (it->second + e.w < 0) continue;
            else it->second = std::min(it->second, e.w);
        }
        keep.push_back(e);
    }
    gr.edges = keep;
    if (many) gr.min_obs = 65;
    bool anyneg = false, loop = false, bneg = false;
    for (auto &e : gr.edges) if (e.w < 0) { anyneg = true; if (e.u == e.v) loop = true; if (gr.is_b(e.u) || gr.is_b(e.v)) bneg = true; }
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm();
    int shots = 1 + (int)g.choice(3);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 30);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        for (int b : gr.boundary)
            if (g.chance(1, 6)) order.insert(order.begin() + g.choice(order.size() + 1), b);  // events there are ignored
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle infeasible");
        if (gr.edges.size() <= 13 && c.want_labels) {
            auto b = ref::brute_force(gr, syn, false);
            CHECK(b.feasible && b.best == *best, "oracle disagreement: brute " << b.best << " vs " << *best);
            c.label("brute-force cross-check");
        }
        std::vector<glue::Decoded> rs{glue::decode(m, order)};
        if (!many) rs.push_back(glue::decode_mask(m, order));
        for (auto &d : rs) {
            CHECK(!d.threw, "feasible syndrome rejected: " << d.what);
            CHECK(d.weight == (double)*best, "weight " << d.weight << ", optimum " << *best);
            glue::check_prediction(gr, syn, d.obs, *best);
        }
        if (anyneg) c.nontrivial = true;
        if (c.want_labels) {
            if (loop) c.label("negative self-loop");
            if (bneg) c.label("negative boundary edge");
            if (syn.empty() && anyneg) c.label("empty syndrome, negative edges");
            if (many) c.label(">64 ids");
            if (gr.n > 90) c.label("n>90");
            ref::i64 sum = 0;
            for (auto &e : gr.edges) if (e.w < 0) sum += e.w;
            if (sum < -(1LL << 30)) c.label("negative weights add up beyond 2^30");
        }
    }
}

// The two recorded findings, each on its smallest input.
static std::string probe(const ref::Graph &gr) {
    auto best = ref::optimum(gr, {});
    auto u = glue::make_user_graph(gr);
    auto d = glue::decode(u.get_mwpm(), {});
    if (!d.threw && d.weight == (double)*best) return "";
    std::ostringstream o;
    o << gr.str() << " empty syndrome: weight " << d.weight << ", optimum " << *best;
    return o.str();
}
void pbt::known_probes(std::map<std::string, std::string> &out) {
    ref::Graph a;
    a.n = 3;
    a.boundary = {1, 2};
    a.edges = {{0, 1, -1, {}}, {0, 2, -2, {}}};
    out["parallel-negative-boundary-edges"] = probe(a);
    ref::Graph b;
    b.n = 2;
    b.boundary = {0, 1};
    b.edges = {{0, 1, -1, {}}};
    out["negative-boundary-boundary-edge"] = probe(b);
}
