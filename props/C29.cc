#include <exception>
#include <thread>
#include "common.h"
#include "dem.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C29";
const char *pbt::RULE =
    "2..4 graphs or error models, each with a decoder of its own and a list of 1..6 calls (all decoding modes, path queries, refused syndromes), run "
    "interleaved call by call, nested (a call on one decoder from within the path callback of another), or in one thread per decoder "
    "(phase tsan: under ThreadSanitizer); decoders are built inside the run too. Every answer is judged by the exact optimum of its own "
    "graph. Non-trivial: at least two decoders with a checked answer from a non-empty syndrome";
struct Op {
    int kind;
    std::vector<uint64_t> syn;
    int a = 0, b = 0;
    ref::i64 want = 0;
};
struct Unit {
    ref::Graph gr;
    bool many = false, neg = false, fresh = false;
    pm::UserGraph u;
    std::vector<Op> ops;
    std::string text;  // built from an error model instead of gr
    size_t num_edges = 0;
    void build() {
        if (text.empty()) {
            u = glue::make_user_graph(gr);
        } else {
            stim::DetectorErrorModel d(text.c_str());
            u = pm::detector_error_model_to_user_graph(d, true, pm::NUM_DISTINCT_WEIGHTS);
            CHECK(u.get_num_edges() == num_edges, "model loaded with " << u.get_num_edges() << " edges instead of " << num_edges);
        }
    }
    pm::Mwpm &mwpm() { return u.get_mwpm_with_search_graph(); }
};
template <typename F>
static void exec(Unit &t, const Op &op, const F &inside) {
    auto &m = t.mwpm();
    if (!t.text.empty()) {
        auto d = glue::decode(m, op.syn);
        CHECK(!d.threw && d.raw == op.want, "weight " << d.raw << ", alone it is " << op.want);
        if (op.kind % 2) d = glue::decode(m, op.syn, true);
        else d.threw = glue::decode_edges(m, op.syn, true).threw;
        CHECK(!d.threw, "correlated decoding refused a feasible syndrome: " << d.what);
        return;
    }
    switch (op.kind) {
        case 0: case 1: {
            auto d = op.kind == 1 && !t.many ? glue::decode_mask(m, op.syn) : glue::decode(m, op.syn, op.kind == 1);
            CHECK(!d.threw, "feasible syndrome refused: " << d.what);
            CHECK(d.weight == (double)op.want, "weight " << d.weight << ", optimum " << op.want);
            glue::check_prediction(t.gr, op.syn, d.obs, op.want);
            break;
        }
        case 2: {
            auto d = glue::decode_edges(m, op.syn);
            CHECK(!d.threw, "feasible syndrome refused: " << d.what);
            auto w = glue::check_edge_list(t.gr, d.edges, op.syn);
            CHECK(w == op.want, "edge list weight " << w << ", optimum " << op.want);
            break;
        }
        case 3: {
            auto p = glue::decode_pairs(m, op.syn);
            if (t.neg) break;
            CHECK(!p.threw, "feasible syndrome refused: " << p.what);
            std::vector<uint64_t> ends;
            for (auto &x : p.pairs) { ends.push_back(x.first); if (x.second >= 0) ends.push_back(x.second); }
            std::sort(ends.begin(), ends.end());
            CHECK(ends == op.syn, "pairs do not cover the events");
            break;
        }
        case 4: {
            ref::i64 tot = 0;
            auto visit = [&](const pm::SearchGraphEdge &e) {
                tot += e.detector_node->neighbor_weights[e.neighbor_index];
                inside();
            };
            if ((op.a + op.b) % 2) m.search_flooder.iter_edges_on_shortest_path_from_source(op.a, op.b < 0 ? SIZE_MAX : op.b, visit);
            else m.search_flooder.iter_edges_on_shortest_path_from_middle(op.a, op.b < 0 ? SIZE_MAX : op.b, visit);
            CHECK(tot == 2 * op.want, "path " << op.a << "->" << op.b << " has length " << tot / 2.0 << ", shortest is " << op.want);
            break;
        }
        default: {
            bool threw = op.a % 2 ? glue::decode(m, op.syn).threw : glue::decode_edges(m, op.syn).threw;
            CHECK(threw, "a syndrome without explanation was answered");
        }
    }
}

void pbt::property(Gen &g, Ctx &c) {
    int k = (int)g.range(2, 4), mode = (int)g.weighted({2, 1, 3});
    std::vector<std::unique_ptr<Unit>> us;
    int useful = 0;
    for (int i = 0; i < k; i++) {
        auto t = std::make_unique<Unit>();
        if (g.chance(1, 4)) {
            dem::Opts o;
            o.max_dets = (int)g.range(2, 7);
            o.max_instr = 14;
            o.structure = g.chance(1, 4);
            o.big_p = o.hyper = o.dup_components = false;
            auto m = dem::generate(g, o);
            auto &gr = t->gr;
            gr.n = (int)m.flat.num_dets;
            for (auto &e : dem::edges_of(m.flat)) gr.edges.push_back({e.u, e.v, 1, e.obs});
            if (gr.edges.empty()) return;
            t->text = m.text;
            t->num_edges = gr.edges.size();
            t->build();
            c.desc << "decoder " << i << ": " << m.text;
            int calls = (int)g.range(1, 4);
            for (int j = 0; j < calls; j++) {
                Op op;
                op.kind = (int)g.choice(2);
                op.syn = ref::gen_feasible_syndrome(g, gr, 14);
                auto d = glue::decode(t->mwpm(), op.syn);
                CHECK(!d.threw, "feasible syndrome refused: " << d.what);
                op.want = d.raw;
                c.desc << "  call" << op.kind << ref::syn_str(op.syn);
                t->ops.push_back(op);
            }
            useful++;
            c.desc << "\n";
            t->fresh = g.chance(2, 3);
            us.push_back(std::move(t));
            continue;
        }
        ref::GraphOpts o;
        o.max_n = g.chance(1, 4) ? 16 : 8;
        o.parallel_boundary = false;
        o.obs = ref::OBS_UNIQUE;
        t->many = g.chance(1, 3);
        o.max_obs = t->many ? 100 : 64;
        t->gr = ref::gen_graph(g, o);
        auto &gr = t->gr;
        if (t->many) gr.min_obs = 65;
        std::vector<int> inner;
        for (int x = 0; x < gr.n; x++) if (!gr.boundary.count(x)) inner.push_back(x);
        if (inner.empty()) return;
        ref::Contracted con(gr);
        c.desc << "decoder " << i << ": " << gr.str() << "\n";
        int calls = (int)g.range(1, 6);
        bool answered = false;
        for (int j = 0; j < calls; j++) {
            Op op;
            op.kind = (int)g.weighted({4, 1, 3, 2, 3, 1});
            op.syn = ref::gen_feasible_syndrome(g, gr, 14);
            op.a = inner[g.choice(inner.size())];
            op.b = g.chance(1, 3) ? -1 : inner[g.choice(inner.size())];
            if (op.kind == 4) {
                auto d = con.dijkstra(op.a, false);
                op.want = op.b < 0 ? d[con.n] : d[op.b];
                if (op.a == op.b || op.want >= ref::INF) op.kind = 2;
            }
            if (op.kind == 5) op.syn.push_back((uint64_t)gr.n + 1 + g.choice(3));
            if (op.kind < 4) {
                auto best = ref::optimum(gr, op.syn);
                CHECK(best.has_value(), "oracle infeasible");
                op.want = *best;
                answered |= !op.syn.empty();
            }
            c.desc << "  call" << op.kind << "(" << op.a << "," << op.b << ")" << ref::syn_str(op.syn);
            t->ops.push_back(op);
        }
        useful += answered;
        c.desc << "\n";
        t->fresh = g.chance(1, 2);
        us.push_back(std::move(t));
    }
    c.desc << "mode " << mode;
    c.commit();
    c.nontrivial = useful >= 2;
    auto none = [] {};
    if (mode == 0) {
        std::vector<std::pair<int, int>> order;
        for (int i = 0; i < k; i++) for (int j = 0; j < (int)us[i]->ops.size(); j++) order.push_back({i, j});
        g.shuffle(order);
        for (auto &t : us) t->build();
        for (auto &p : order) {
            c.desc << " " << p.first << "." << p.second;
            c.commit();
            exec(*us[p.first], us[p.first]->ops[p.second], none);
        }
    } else if (mode == 1) {
        for (auto &t : us) t->build();
        std::vector<size_t> at(k, 0);
        // Each path callback runs the next call of the next decoder.
        std::function<void(int, int)> go = [&](int i, int depth) {
            auto &t = *us[i];
            auto &op = t.ops[at[i]++ % t.ops.size()];
            exec(t, op, [&] { if (depth + 1 < k) go((i + 1) % k, depth + 1); });
        };
        for (int r = 0; r < 8; r++) go(r % k, 0);
    } else {
        int rounds = 1 + (int)g.choice(4);
        std::vector<std::exception_ptr> err(k);
        for (auto &t : us) if (!t->fresh) t->build();
        std::vector<std::thread> th;
        for (int i = 0; i < k; i++)
            th.emplace_back([&, i] {
                try {
                    auto &t = *us[i];
                    if (t.fresh) t.build();
                    for (int r = 0; r < rounds; r++) for (auto &op : t.ops) exec(t, op, none);
                } catch (...) {
                    err[i] = std::current_exception();
                }
            });
        for (auto &t : th) t.join();
        for (auto &e : err) if (e) std::rethrow_exception(e);
    }
    if (c.want_labels) c.label(mode == 0 ? "interleaved" : mode == 1 ? "nested" : "threads");
}
