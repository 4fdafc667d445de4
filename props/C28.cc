#include <malloc.h>
#include <cstdlib>
#include <new>
#include "common.h"
#include "dem.h"
#include "pymatching/rand/rand_gen.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C28";
const char *pbt::RULE =
    "a list of 1..6 operations on one decoder (every decoding mode, correlated decoding, path queries, refused syndromes, sampling, graph "
    "changes that keep its size, building, moving and dropping further decoders) is run over and over while the bytes held from operator new are "
    "counted; suspected growth is followed for 1024 rounds and judged by growth of at least 8 bytes a round over the last three doublings. "
    "Non-trivial: an operation with at least two detection events, or a second decoder";

// Bytes currently held by C++ code.
static long long g_live = 0;
static void *take(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live += (long long)malloc_usable_size(p);
    return p;
}
static void give(void *p) {
    if (p) g_live -= (long long)malloc_usable_size(p);
    free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }

struct Op {
    int kind;
    std::vector<uint64_t> syn;
    int a, b;
};

void pbt::property(Gen &g, Ctx &c) {
    bool corr = g.chance(1, 3);
    ref::Graph gr;
    std::string text;
    pm::UserGraph u;
    std::unique_ptr<stim::DetectorErrorModel> model;
    if (corr) {
        dem::Opts o;
        o.max_dets = (int)g.range(2, 7);
        o.max_instr = 14;
        o.structure = o.big_p = o.hyper = o.zero_p = o.dup_components = false;
        o.max_obs = g.chance(1, 5) ? 80 : 6;
        auto m = dem::generate(g, o);
        text = m.text;
        c.desc << text;
        c.commit();
        model = std::make_unique<stim::DetectorErrorModel>(m.text.c_str());
        u = pm::detector_error_model_to_user_graph(*model, true, pm::NUM_DISTINCT_WEIGHTS);
        gr.n = (int)m.flat.num_dets;
        for (auto &e : dem::edges_of(m.flat)) gr.edges.push_back({e.u, e.v, 1, e.obs});
    } else {
        ref::GraphOpts o;
        o.max_n = g.chance(1, 3) ? 20 : 8;
        o.negative = g.chance(1, 3);
        o.obs = ref::OBS_UNIQUE;
        o.max_obs = g.chance(1, 3) ? 100 : 64;
        gr = ref::gen_graph(g, o);
        if (o.max_obs > 64) gr.min_obs = 65;
        u = glue::make_user_graph(gr);
        c.desc << gr.str() << "\n";
    }
    if (gr.edges.empty()) return;
    std::vector<int> inner;
    for (int i = 0; i < gr.n; i++) if (!gr.boundary.count(i)) inner.push_back(i);
    if (inner.empty()) return;
    ref::Contracted con(gr);
    bool many = u.get_num_observables() > 64;
    std::vector<Op> ops;
    int k = (int)g.range(1, g.scale ? 6 : 4);
    for (int i = 0; i < k; i++) {
        Op op;
        op.kind = (int)g.weighted({4, 2, 3, 3, 3, 2, 3, 1, 2, 2, 2});
        if (many && op.kind == 1) op.kind = 0;
        if (op.kind == 8 && !u.all_edges_have_error_probabilities()) op.kind = 0;
        op.syn = ref::gen_feasible_syndrome(g, gr, 16);
        op.a = inner[g.choice(inner.size())];
        op.b = g.chance(1, 3) ? -1 : inner[g.choice(inner.size())];
        if (op.kind == 5) {
            auto d = con.dijkstra(op.a, false);
            if (op.a == op.b || (op.b < 0 ? d[con.n] : d[op.b]) >= ref::INF) op.kind = 2;
        }
        if (op.kind == 6) {  // a syndrome that is refused, if there is one
            std::vector<bool> hb;
            auto comp = ref::components(gr, hb);
            if (hb[comp[op.a]]) {
                op.syn.push_back((uint64_t)gr.n + 1);
            } else {
                auto it = std::find(op.syn.begin(), op.syn.end(), (uint64_t)op.a);
                if (it != op.syn.end()) op.syn.erase(it); else op.syn.push_back(op.a);
            }
        }
        c.desc << " op" << op.kind << "(" << op.a << "," << op.b << ")" << ref::syn_str(op.syn);
        if (op.syn.size() >= 2 || op.kind == 9) c.nontrivial = true;
        ops.push_back(op);
        if (c.want_labels) {
            static const char *nm[] = {"decode", "decode mask", "to edges", "to pairs", "correlated", "path query", "refused", "graph change", "sampling", "second decoder", "correlated to edges"};
            c.label(std::string("op: ") + nm[op.kind]);
        }
    }
    c.commit();
    bool with_search = g.chance(3, 4);
    if (with_search) u.get_mwpm_with_search_graph();
    auto edge = u.edges.front();
    auto round = [&] {
        for (auto &op : ops) {
            // Decoders are fetched as the bindings do: the search graph is built when a mode needs it.
            auto full = [&]() -> pm::Mwpm & { return u.get_mwpm_with_search_graph(); };
            auto lite = [&]() -> pm::Mwpm & { return many ? u.get_mwpm_with_search_graph() : u.get_mwpm(); };
            switch (op.kind) {
                case 0: glue::decode(lite(), op.syn); break;
                case 1: glue::decode_mask(lite(), op.syn); break;
                case 2: glue::decode_edges(full(), op.syn); break;
                case 3: glue::decode_pairs(lite(), op.syn); break;
                case 4: glue::decode(full(), op.syn, true); break;
                case 5: full().search_flooder.iter_edges_on_shortest_path_from_middle(op.a, op.b < 0 ? SIZE_MAX : op.b, [&](const pm::SearchGraphEdge &) {}); break;
                case 6: {
                    bool threw = op.a % 3 == 0 ? glue::decode(lite(), op.syn).threw : op.a % 3 == 1 ? glue::decode_edges(full(), op.syn).threw : glue::decode_pairs(lite(), op.syn).threw;
                    CHECK(threw, "a syndrome without explanation was answered");
                    break;
                }
                case 7:
                    u.add_or_merge_edge(edge.node1, edge.node2, edge.observable_indices, edge.weight, edge.error_probability, pm::REPLACE);
                    glue::decode(lite(), {});
                    break;
                case 8: {
                    std::vector<uint8_t> err(u.get_num_observables() + 1), syn(u.get_num_nodes() + 1);
                    u.add_noise(err.data(), syn.data());
                    break;
                }
                case 9: {
                    pm::Mwpm other = u.to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                    glue::decode(other, op.syn);
                    glue::decode_edges(other, op.syn);
                    pm::Mwpm third(std::move(other));
                    glue::decode(third, op.syn);
                    pm::Mwpm fourth = u.to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                    glue::decode(fourth, op.syn);
                    fourth = std::move(third);
                    glue::decode_edges(fourth, op.syn);
                    if (model) {
                        auto v = pm::detector_error_model_to_user_graph(*model, true, pm::NUM_DISTINCT_WEIGHTS);
                        glue::decode(v.get_mwpm_with_search_graph(), op.syn, true);
                    }
                    break;
                }
                default: glue::decode_edges(full(), op.syn, true); break;
            }
        }
        return g_live;
    };
    long long at[12] = {0};
    int done = 0;
    auto upto = [&](int n) {
        long long v = 0;
        while (done < n) { v = round(); done++; }
        return v;
    };
    at[2] = upto(4);
    at[3] = upto(8);
    if (at[3] <= at[2]) return;
    if (c.want_labels) c.label("followed further");
    for (int e = 4; e <= 10; e++) {
        at[e] = upto(1 << e);
        if (e >= 5 && at[e] <= at[e - 2]) return;  // levelled off
    }
    bool grows = true;
    for (int e = 8; e <= 10; e++) grows &= at[e] - at[e - 1] >= (long long)8 * (1 << (e - 1));
    CHECK(!grows, "memory held grows without end: " << at[7] << " bytes after 128 rounds, " << at[8] << " after 256, " << at[9] << " after 512, " << at[10] << " after 1024");
}
