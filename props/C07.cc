#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C07";
const char *pbt::RULE =
    "history of 2..14 calls on one decoder: decode, bit-mask decode, decode to edges, to pairs, with correlations flag, shortest-path "
    "queries, infeasible and out-of-range syndromes; every answer is checked against the exact oracle. Non-trivial: history of >=3 calls with "
    ">=2 different kinds of call and a checked answer after a rejection or after another kind of call";
static bool run_path(pm::Mwpm &m, const ref::Graph &gr, int a, int b, const ref::Contracted &con) {
    auto d = con.dijkstra(a, false);
    ref::i64 want = b < 0 ? d[con.n] : d[b];
    if (want >= ref::INF || a == b) return false;
    ref::i64 tot = 0;
    m.search_flooder.iter_edges_on_shortest_path_from_middle(a, b < 0 ? SIZE_MAX : b, [&](const pm::SearchGraphEdge &e) {
        tot += e.detector_node->neighbor_weights[e.neighbor_index];
    });
    CHECK(tot == 2 * want, "path query " << a << "->" << b << " has length " << tot / 2.0 << ", shortest is " << want);
    return true;
}
void pbt::property(Gen &g, Ctx &c) {
    bool neg = g.chance(1, 3);
    ref::GraphOpts o;
    static const int maxn[] = {6, 12, 24};
    o.max_n = maxn[g.weighted({4, 4, 1})];
    o.negative = neg;
    o.parallel_boundary = !neg;
    o.obs = ref::OBS_UNIQUE;
    bool many = g.chance(1, 3);
    o.max_obs = many ? 100 : 64;
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    if (neg) {
        std::set<int> has;
        std::vector<ref::Edge> keep;
        for (auto &e : gr.edges) {
            if (gr.is_b(e.u) && gr.is_b(e.v)) e.w = std::abs(e.w);
            int x = gr.is_b(e.u) ? (gr.is_b(e.v) ? -2 : e.v) : gr.is_b(e.v) ? e.u : -2;
            if (x >= 0 && !has.insert(x).second) continue;
            keep.push_back(e);
        }
        gr.edges = keep;
    }
    if (many) gr.min_obs = 65;
    bool anyneg = false;
    for (auto &e : gr.edges) if (e.w < 0 && !(gr.is_b(e.u) && gr.is_b(e.v))) anyneg = true;
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm_with_search_graph();
    ref::Contracted con(gr);
    std::vector<int> inner;
    for (int i = 0; i < gr.n; i++) if (!gr.boundary.count(i)) inner.push_back(i);
    c.desc << gr.str() << "\n";
    int steps = (int)g.range(2, g.scale ? 24 : 14);
    if (gr.n <= 6 && g.chance(1, 300)) steps += 300;  // long histories on small graphs
    std::set<int> kinds;
    bool dirty = false;
    std::vector<uint64_t> last;
    for (int s = 0; s < steps; s++) {
        int kind = (int)g.weighted({5, 2, 3, 2, 2, 2, 3, 2});
        if (inner.empty() && kind >= 5) continue;
        if (many && kind == 1) kind = 0;
        std::vector<uint64_t> syn;
        if (kind <= 4) {
            if (!last.empty() && g.chance(1, 3) && ref::feasible(gr, last)) {
                syn = last;  // the same syndrome again, or a neighbouring one
            } else {
                syn = ref::gen_feasible_syndrome(g, gr, 30);
            }
            last = syn;
            if (g.chance(1, 2)) g.shuffle(syn);
            if (!gr.boundary.empty() && g.chance(1, 5)) syn.insert(syn.begin() + g.choice(syn.size() + 1), *gr.boundary.begin());
        }
        auto plain = ref::strip_boundary(gr, syn);
        c.desc << "  call " << s << " kind " << kind << " " << ref::syn_str(syn);
        c.commit();
        std::optional<ref::i64> best;
        if (kind <= 4) {
            best = ref::optimum(gr, plain);
            CHECK(best.has_value(), "oracle infeasible");
        }
        bool checked = true;
        switch (kind) {
            case 0: case 1: case 4: {
                auto d = kind == 1 ? glue::decode_mask(m, syn) : glue::decode(m, syn, kind == 4);
                CHECK(!d.threw, "call " << s << ": feasible syndrome rejected: " << d.what);
                CHECK(d.weight == (double)*best, "call " << s << ": weight " << d.weight << ", optimum " << *best);
                glue::check_prediction(gr, plain, d.obs, *best, "call " + std::to_string(s) + ": ");
                break;
            }
            case 2: {
                auto d = glue::decode_edges(m, syn, g.chance(1, 4));
                CHECK(!d.threw, "call " << s << ": feasible syndrome rejected: " << d.what);
                auto w = glue::check_edge_list(gr, d.edges, plain);
                CHECK(w == *best, "call " << s << ": edge list weight " << w << ", optimum " << *best);
                break;
            }
            case 3: {
                auto p = glue::decode_pairs(m, syn);
                CHECK(p.threw == anyneg, "call " << s << ": pairs " << (p.threw ? "refused: " + p.what : "answered for negative weights"));
                if (!p.threw) {
                    std::vector<uint64_t> ends;
                    ref::i64 tot = 0;
                    for (auto &x : p.pairs) {
                        ends.push_back(x.first);
                        if (x.second >= 0) ends.push_back(x.second);
                        auto d = con.dijkstra((int)x.first, false);
                        tot += x.second >= 0 ? d[x.second] : d[con.n];
                    }
                    std::sort(ends.begin(), ends.end());
                    CHECK(ends == plain, "call " << s << ": pairs do not cover the events");
                    CHECK(tot == *best, "call " << s << ": pairs have weight " << tot << ", optimum " << *best);
                }
                break;
            }
            case 5: {
                int a = inner[g.choice(inner.size())];
                int b = g.chance(1, 3) ? -1 : inner[g.choice(inner.size())];
                c.desc << " " << a << "->" << b;
                c.commit();
                checked = run_path(m, gr, a, b, con);
                break;
            }
            case 6: {  // infeasible syndrome, if the graph has one
                std::vector<bool> hb;
                auto comp = ref::components(gr, hb);
                std::vector<int> bad;
                for (int x : inner) if (!hb[comp[x]]) bad.push_back(x);
                if (bad.empty()) { checked = false; break; }
                syn = ref::gen_feasible_syndrome(g, gr, 20);
                int x = bad[g.choice(bad.size())];
                auto it = std::find(syn.begin(), syn.end(), (uint64_t)x);
                if (it != syn.end()) syn.erase(it); else syn.insert(syn.begin() + g.choice(syn.size() + 1), x);
                int mode = (int)g.choice(4);
                c.desc << ref::syn_str(syn) << " mode " << mode;
                c.commit();
                bool threw = mode == 0 ? glue::decode(m, syn).threw : mode == 1 ? glue::decode_edges(m, syn).threw : mode == 2 && !many ? glue::decode_mask(m, syn).threw : mode == 3 ? glue::decode(m, syn, true).threw : glue::decode_pairs(m, syn).threw;
                CHECK(threw, "call " << s << ": infeasible syndrome answered");
                dirty = true;
                break;
            }
            default: {  // event outside the graph
                syn = ref::gen_feasible_syndrome(g, gr, 20);
                syn.insert(syn.begin() + g.choice(syn.size() + 1), (uint64_t)gr.n + g.choice(3));
                int mode = (int)g.choice(3);
                c.desc << ref::syn_str(syn) << " mode " << mode;
                c.commit();
                bool threw = mode == 0 ? glue::decode(m, syn).threw : mode == 1 ? glue::decode_edges(m, syn).threw : glue::decode_pairs(m, syn).threw;
                CHECK(threw, "call " << s << ": event outside the graph answered");
                dirty = true;
                break;
            }
        }
        c.desc << "\n";
        if (checked) {
            kinds.insert(kind);
            if (kind <= 5 && (dirty || kinds.size() >= 2) && s >= 2) c.nontrivial = true;
            if (c.want_labels) {
                static const char *nm[] = {"decode", "decode mask", "to edges", "to pairs", "correlated flag", "path query", "infeasible", "out of range"};
                c.label(std::string("call: ") + nm[kind]);
                if (dirty && kind <= 5) c.label("checked answer after a rejection");
            }
        }
    }
}
