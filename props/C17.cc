#include <cmath>
#include "common.h"
#include "dem.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C17";
const char *pbt::RULE =
    "random decomposed detector error model (<= 13 edges) loaded with correlations; a history of correlated and plain calls in every mode, each "
    "answer judged against all minimum-weight first passes (full enumeration) followed by exact reweighting and a second enumeration; changes of the graph (new edges, boundary nodes) come between "
    "calls; a quarter of the cases are models or calls that must be refused. Non-trivial: a correlated answer whose second pass has a lowered edge";
typedef std::pair<int, int> E2;
struct Oracle {
    std::vector<dem::REdge> e;
    std::vector<uint64_t> par;
    std::vector<std::map<size_t, double>> implied;  // implied[f][e]: weight of e given f
    double unit = 0;
    int n = 0;
    struct Ans {
        std::vector<uint32_t> first;             // near-optimal first passes
        std::vector<std::vector<double>> w;      // reweighted edge weights for each
        std::vector<double> best;                // second-pass optimum for each
    };
    double weight(const std::vector<double> &w, uint32_t s) const {
        double t = 0;
        for (size_t i = 0; i < e.size(); i++) if (s >> i & 1) t += w[i];
        return t;
    }
    double tol() const { return unit * (4 * (double)e.size() + 8) + 1e-12; }
    std::vector<uint32_t> explanations(const std::vector<uint64_t> &syn) const {
        uint64_t want = 0;
        for (auto x : syn) want |= (uint64_t)1 << x;
        std::vector<uint32_t> r;
        uint64_t cur = 0;
        uint32_t sel = 0;
        for (uint64_t k = 0;; k++) {
            if (cur == want) r.push_back(sel);
            if (k + 1 == ((uint64_t)1 << e.size())) break;
            int b = __builtin_ctzll(k + 1);
            cur ^= par[b];
            sel ^= 1u << b;
        }
        return r;
    }
    Ans answer(const std::vector<uint32_t> &ex) const {
        Ans a;
        std::vector<double> w0;
        for (auto &x : e) w0.push_back(x.w);
        double best = 1e300;
        for (auto s : ex) best = std::min(best, weight(w0, s));
        for (auto s : ex) {
            if (weight(w0, s) > best + tol()) continue;
            auto w = w0;
            for (size_t f = 0; f < e.size(); f++)
                if (s >> f & 1) for (auto &x : implied[f]) w[x.first] = std::min(w[x.first], x.second);
            double b2 = 1e300;
            for (auto t : ex) b2 = std::min(b2, weight(w, t));
            a.first.push_back(s);
            a.w.push_back(w);
            a.best.push_back(b2);
        }
        return a;
    }
};
static E2 key(const dem::Component &c) {
    if (c.dets.size() == 1) return {(int)c.dets[0], -1};
    return {(int)std::min(c.dets[0], c.dets[1]), (int)std::max(c.dets[0], c.dets[1])};
}
static double xr(double a, double b) { return a * (1 - b) + b * (1 - a); }

static void refused_models(Gen &g, Ctx &c) {
    dem::Opts o;
    o.max_dets = (int)g.range(2, 6);
    o.max_instr = 8;
    o.structure = g.chance(1, 2);
    o.big_p = g.chance(1, 2);
    o.hyper = g.chance(1, 2);
    auto m = dem::generate(g, o);
    bool bad = false;
    for (auto &e : m.flat.errors) {
        if (e.p > 0.5) bad = true;
        if (e.p == 0 || bad) continue;
        for (auto &k : e.comps) {
            if (k.dets.size() > 2) bad = true;
            if (k.dets.empty() && e.comps.size() > 1) bad = true;
        }
    }
    // The same edge twice in one error would imply an edge from itself: outside the supported models.
    for (auto &e : m.flat.errors) {
        std::set<E2> s;
        for (auto &k : e.comps) if (k.dets.size() == 1 || k.dets.size() == 2) if (!s.insert(key(k)).second && !bad) return;
    }
    c.desc << "load with correlations, expect " << (bad ? "refusal" : "success") << ":\n" << m.text;
    c.commit();
    stim::DetectorErrorModel d(m.text.c_str());
    bool threw = false;
    std::string what;
    try {
        auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
        CHECK(mw.flooder.graph.nodes.size() == m.flat.num_dets, "number of detectors");
    } catch (const std::invalid_argument &x) { threw = true; what = x.what(); }
    CHECK(threw == bad, (threw ? "refused: " + what : std::string("accepted")));
    c.nontrivial = bad;
    if (c.want_labels) c.label(bad ? "refused model" : "accepted model");
}

static void without_correlations(Gen &g, Ctx &c) {
    dem::Opts o;
    o.max_dets = (int)g.range(2, 6);
    o.max_instr = 8;
    o.big_p = false;
    o.hyper = false;
    o.max_pairs = 12;
    auto m = dem::generate(g, o);
    stim::DetectorErrorModel d(m.text.c_str());
    auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, false);
    ref::Graph gr;
    gr.n = (int)m.flat.num_dets;
    for (auto &e : dem::edges_of(m.flat)) gr.edges.push_back({e.u, e.v, 0, e.obs});
    c.desc << "loaded without correlations:\n" << m.text;
    int calls = (int)g.range(1, 4);
    for (int k = 0; k < calls; k++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 8);
        int mode = (int)g.choice(3);
        c.desc << " corr" << mode << ref::syn_str(syn);
        c.commit();
        bool threw = mode == 0 ? glue::decode(mw, syn, true).threw : mode == 1 ? glue::decode_edges(mw, syn, true).threw : m.flat.num_obs > 64 ? true : glue::decode_mask(mw, syn, true).threw;
        CHECK(threw, "correlated decoding accepted by a decoder loaded without correlations");
        auto plain = glue::decode(mw, syn);
        CHECK(!plain.threw, "plain decoding fails afterwards: " << plain.what);
        auto fresh = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, false);
        CHECK(plain.raw == glue::decode(fresh, syn).raw, "plain decoding changed after a refused call");
    }
    c.nontrivial = true;
    if (c.want_labels) c.label("refused calls");
}

void pbt::property(Gen &g, Ctx &c) {
    size_t kind = g.weighted({9, 2, 1});
    if (kind == 1) return refused_models(g, c);
    if (kind == 2) return without_correlations(g, c);
    dem::Opts o;
    o.max_dets = (int)g.range(2, 7);
    o.max_instr = g.scale ? 24 : 14;
    o.structure = g.chance(1, 4);
    o.big_p = false;
    o.hyper = false;
    o.dup_components = false;
    o.coarse_p = g.chance(1, 2);
    o.max_pairs = (int)g.range(2, 12);
    bool many = g.chance(1, 5);
    o.max_obs = many ? 90 : 10;
    o.unique_obs = !many || g.chance(1, 2);
    if (g.chance(1, 12)) {
        o.near_half = o.structure = true;
        o.max_pairs = (int)g.range(1, 4);
        o.max_dets = (int)g.range(2, 3);
        o.max_instr = 30;
    }
    auto m = dem::generate(g, o);
    for (auto &e : m.flat.errors) {
        // shifts may collide components of one error only through equal relative pairs, already excluded
        std::set<E2> s;
        for (auto &k : e.comps) if (!s.insert(key(k)).second) return;
    }
    Oracle q;
    q.e = dem::edges_of(m.flat);
    q.n = (int)m.flat.num_dets;
    if (q.e.empty() || q.e.size() > 13) return;
    std::map<E2, size_t> idx;
    for (size_t i = 0; i < q.e.size(); i++) {
        idx[{q.e[i].u, q.e[i].v}] = i;
        uint64_t p = (uint64_t)1 << q.e[i].u;
        if (q.e[i].v >= 0) p |= (uint64_t)1 << q.e[i].v;
        q.par.push_back(p);
    }
    std::map<std::pair<size_t, size_t>, double> joint;
    std::vector<double> marg(q.e.size(), 0);
    for (auto &e : m.flat.errors) {
        if (e.p == 0) continue;
        for (auto &a : e.comps) {
            size_t i = idx.at(key(a));
            marg[i] = xr(marg[i], e.p);
            for (auto &b : e.comps) {
                size_t j = idx.at(key(b));
                if (i == j) continue;
                auto &x = joint[{i, j}];
                x = xr(x, e.p);
            }
        }
    }
    q.implied.resize(q.e.size());
    double mx = 0;
    for (auto &x : q.e) mx = std::max(mx, std::abs(x.w));
    for (auto &x : joint) {
        double w = dem::llr(std::min(0.5, x.second / marg[x.first.first]));
        q.implied[x.first.first][x.first.second] = w;
        mx = std::max(mx, std::abs(w));
    }
    q.unit = mx / (1 << 24) + 1e-12;
    c.desc << m.text;
    c.commit();
    stim::DetectorErrorModel d(m.text.c_str());
    auto u = pm::detector_error_model_to_user_graph(d, true, pm::NUM_DISTINCT_WEIGHTS);
    CHECK(u.get_num_edges() == q.e.size(), "edges " << u.get_num_edges());
    for (auto &e : u.edges) {
        int a = (int)e.node1, b = e.node2 == SIZE_MAX ? -1 : (int)e.node2;
        if (b >= 0 && a > b) std::swap(a, b);
        auto it = idx.find({a, b});
        CHECK(it != idx.end(), "unexpected edge");
        auto &x = q.e[it->second];
        CHECK(std::abs(e.weight - x.w) < 1e-9 * (1 + std::abs(x.w)), "weight of (" << a << "," << b << ") is " << e.weight << ", expected " << x.w);
        CHECK(e.observable_indices == x.obs, "observables of (" << a << "," << b << ")");
    }
    auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
    bool use_user = g.chance(1, 2);
    ref::Graph gr;
    bool distinct = true;
    auto describe = [&] {
        gr = ref::Graph();
        gr.n = q.n;
        idx.clear();
        q.par.clear();
        distinct = true;
        std::set<size_t> f;
        for (size_t i = 0; i < q.e.size(); i++) {
            auto &e = q.e[i];
            gr.edges.push_back({e.u, e.v, 0, e.obs});
            idx[{e.u, e.v}] = i;
            uint64_t p = (uint64_t)1 << e.u;
            if (e.v >= 0) p |= (uint64_t)1 << e.v;
            q.par.push_back(p);
            if (e.obs.size() != 1) distinct = false;
            for (auto x : e.obs) distinct &= f.insert(x).second;
        }
    };
    describe();
    auto user_e = q.e;
    const auto user_implied = q.implied;
    size_t num_obs = m.flat.num_obs;
    std::set<size_t> boundary;
    bool negative = false;
    // The decoding graph after changes of the user graph: an edge to a boundary node is a boundary edge of its other node, of which the lightest is kept.
    auto rebuild = [&]() -> bool {
        std::vector<int> pos(user_e.size(), -1);
        std::map<int, size_t> kept;
        std::vector<E2> ends;
        mx = 0;
        for (auto &f : user_implied) for (auto &x : f) mx = std::max(mx, std::abs(x.second));
        for (auto &e : user_e) mx = std::max(mx, std::abs(e.w));
        q.unit = mx / (1 << 24) + 1e-12;
        for (size_t i = 0; i < user_e.size(); i++) {
            int a = user_e[i].u, b = user_e[i].v;
            if (boundary.count(a)) { a = b; b = -1; }
            if (b >= 0 && boundary.count(b)) b = -1;
            if (a >= 0 && boundary.count(a)) a = -1;
            ends.push_back({a, b});
            if (a < 0 || b >= 0) continue;
            if (!kept.count(a)) { kept[a] = i; continue; }
            if (std::abs(user_e[kept[a]].w - user_e[i].w) < 4 * q.unit) return false;
            if (user_e[i].w < user_e[kept[a]].w) kept[a] = i;
        }
        q.e.clear();
        q.implied.clear();
        for (size_t i = 0; i < user_e.size(); i++) {
            if (ends[i].first < 0 || (ends[i].second < 0 && kept[ends[i].first] != i)) continue;
            pos[i] = (int)q.e.size();
            q.e.push_back(user_e[i]);
            q.e.back().u = ends[i].first;
            q.e.back().v = ends[i].second;
        }
        q.implied.resize(q.e.size());
        for (size_t i = 0; i < user_implied.size(); i++)
            if (pos[i] >= 0) for (auto &x : user_implied[i]) if (pos[x.first] >= 0) q.implied[pos[i]][pos[x.first]] = x.second;
        describe();
        return true;
    };
    int calls = (int)g.range(1, g.scale ? 8 : 5);
    for (int k = 0; k < calls; k++) {
        if (use_user && g.chance(1, 3)) {
            int op = (int)g.weighted({3, 1, 3});
            if (op == 0) {
                int a = (int)g.choice(std::min(q.n + 1, 12)), b = g.chance(1, 4) ? -1 : (int)g.choice(std::min(q.n + 2, 12));
                if (b >= 0 && a > b) std::swap(a, b);
                bool there = a == b;
                for (auto &e : user_e) there |= e.u == a && e.v == b;
                if (there || user_e.size() >= 14) continue;
                double w = g.chance(1, 3) ? (double)g.choice(6) : (double)g.choice(100000) / 7919.0;
                if (boundary.empty() && g.chance(1, 3)) w = -w, negative |= w < 0;
                std::vector<size_t> obs;
                if (distinct || g.chance(1, 2)) obs.push_back(distinct ? num_obs : g.choice(num_obs + 1));
                c.desc << " add(" << a << "," << b << ",w=" << w << "," << glue::obs_str(obs) << ")";
                c.commit();
                if (b < 0) u.add_or_merge_boundary_edge(a, obs, w, 0.1);
                else u.add_or_merge_edge(a, b, obs, w, 0.1);
                for (auto o : obs) num_obs = std::max(num_obs, o + 1);
                dem::REdge e{};
                e.u = a; e.v = b; e.w = w; e.obs = obs;
                user_e.push_back(e);
                q.n = std::max(q.n, std::max(a, b) + 1);
            } else if (op == 1) {
                size_t o = g.choice(num_obs + 4);
                c.desc << " min_obs(" << o << ")";
                c.commit();
                u.set_min_num_observables(o);
                num_obs = std::max(num_obs, o);
            } else {
                if (negative) continue;
                boundary.clear();
                for (size_t i = g.choice(3); i-- > 0;) boundary.insert(g.choice(q.n));
                c.desc << " boundary(";
                for (auto b : boundary) c.desc << b << ",";
                c.desc << ")";
                c.commit();
                u.set_boundary(boundary);
            }
            if (!rebuild()) return;
            CHECK(u.get_num_observables() == num_obs, "number of observables " << u.get_num_observables() << " expected " << num_obs);
            if (c.want_labels) c.label("changed graph");
            if (c.want_labels && !boundary.empty()) c.label("boundary nodes");
        }
        auto &M = use_user ? u.get_mwpm_with_search_graph() : mw;
        auto syn = ref::gen_feasible_syndrome(g, gr, 10);
        int mode = (int)g.weighted({4, 3, 2, 2, 1});
        if (mode == 2 && num_obs > 64) mode = 0;
        c.desc << " call" << mode << ref::syn_str(syn);
        c.commit();
        auto ex = q.explanations(syn);
        CHECK(!ex.empty(), "oracle infeasible");
        auto ans = q.answer(ex);
        bool lowered = false;
        for (auto &w : ans.w) for (size_t i = 0; i < w.size(); i++) lowered |= w[i] < q.e[i].w;
        std::vector<double> w0;
        for (auto &x : q.e) w0.push_back(x.w);
        double plain = 1e300;
        for (auto s : ex) plain = std::min(plain, q.weight(w0, s));
        auto sel_of = [&](const std::vector<size_t> &ids) { uint32_t s = 0; for (auto i : ids) s ^= 1u << i; return s; };
        auto valid_sel = [&](uint32_t s) { return std::find(ex.begin(), ex.end(), s) != ex.end(); };
        // Is there a first pass after which `pred` holds?
        auto some = [&](auto pred) { for (size_t i = 0; i < ans.first.size(); i++) if (pred(i)) return true; return false; };
        if (mode == 0 || mode == 2) {
            auto r = mode == 0 ? glue::decode(M, syn, true) : glue::decode_mask(M, syn, true);
            CHECK(!r.threw, "refused: " << r.what);
            std::set<uint32_t> cand;
            if (distinct) {
                auto s = sel_of(glue::ids_to_edges(gr, r.obs));
                CHECK(valid_sel(s), "prediction " << glue::obs_str(r.obs) << " does not explain the shot");
                cand.insert(s);
            } else {
                for (auto s : ex) {
                    std::map<size_t, int> par;
                    for (size_t i = 0; i < q.e.size(); i++) if (s >> i & 1) for (auto x : q.e[i].obs) par[x] ^= 1;
                    std::vector<size_t> v;
                    for (auto &x : par) if (x.second) v.push_back(x.first);
                    if (v == r.obs) cand.insert(s);
                }
                CHECK(!cand.empty(), "prediction " << glue::obs_str(r.obs) << " belongs to no explanation");
            }
            CHECK(some([&](size_t i) {
                if (std::abs(r.weight - ans.best[i]) > q.tol()) return false;
                for (auto s : cand) if (q.weight(ans.w[i], s) <= ans.best[i] + q.tol()) return true;
                return false;
            }), "correlated decode gives weight " << r.weight << " and observables " << glue::obs_str(r.obs) << "; two-pass optimum " << ans.best[0] << " (plain optimum " << plain << ", " << ans.first.size() << " first passes)");
        } else if (mode == 1) {
            auto r = glue::decode_edges(M, syn, true);
            CHECK(!r.threw, "refused: " << r.what);
            uint32_t s = 0;
            for (auto &e : r.edges) {
                int a = (int)e.first, b = (int)e.second;
                if (b >= 0 && a > b) std::swap(a, b);
                auto it = idx.find({a, b});
                CHECK(it != idx.end(), "edge (" << a << "," << b << ") is not in the graph");
                CHECK(!(s >> it->second & 1), "edge twice");
                s |= 1u << it->second;
            }
            CHECK(valid_sel(s), "edges do not explain the shot");
            CHECK(some([&](size_t i) { return q.weight(ans.w[i], s) <= ans.best[i] + q.tol(); }), "edges are not of minimum weight after reweighting");
        } else {
            auto r = glue::decode(M, syn, false);
            CHECK(!r.threw, "refused: " << r.what);
            CHECK(std::abs(r.weight - plain) < q.tol(), "plain decode gives " << r.weight << ", optimum " << plain);
            if (mode == 4) {
                auto e = glue::decode_edges(M, syn);
                uint32_t s = 0;
                for (auto &x : e.edges) {
                    int a = (int)x.first, b = (int)x.second;
                    if (b >= 0 && a > b) std::swap(a, b);
                    CHECK(idx.count({a, b}), "edge not in graph");
                    s ^= 1u << idx[{a, b}];
                }
                CHECK(valid_sel(s) && q.weight(w0, s) <= plain + q.tol(), "plain edges are not of minimum weight");
            }
        }
        if (mode <= 2 && lowered) c.nontrivial = true;
        if (c.want_labels && mode <= 2) {
            c.label("correlated calls");
            if (lowered) c.label("lowered an edge");
            if (lowered && ans.best[0] < plain - 10 * q.tol()) c.label("second pass is cheaper");
            bool other = false;
            for (auto s : ex) if (q.weight(ans.w[0], s) <= ans.best[0] + q.tol() && q.weight(w0, s) > plain + q.tol()) other = true;
            if (other) c.label("second pass picks other edges");
        }
    }
    if (c.want_labels) c.label("cases");
}
