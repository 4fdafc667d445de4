#include <cmath>
#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C14";
const char *pbt::RULE =
    "sequence of 1..25 graph operations (add edge / boundary edge with any merge strategy, weight, probability and ids; set boundary; set "
    "minimum number of ids) against a dictionary model; all queries compared after every operation. Non-trivial: at least one operation "
    "hits an existing edge";
typedef std::pair<int64_t, int64_t> Key;  // (lo, hi), hi == -1: virtual boundary
struct ME {
    std::vector<size_t> obs;
    double w, p;
};
struct Model {
    size_t nodes = 0, nobs = 0;
    std::map<Key, ME> edges;
    std::set<size_t> boundary;
};
/// log((1-p)/p) of two independent mechanisms, from odds: e^w = (1 + e^(a+b)) / (e^a + e^b).
static double merged(long double a, long double b) {
    auto lse = [](long double x, long double y) { return std::max(x, y) + log1pl(expl(-fabsl(x - y))); };
    return (double)(lse(0, a + b) - lse(a, b));
}
static bool valid(double p) { return p >= 0 && p <= 1; }
static Key key(int64_t u, int64_t v) { return v < 0 ? Key{u, -1} : Key{std::min(u, v), std::max(u, v)}; }
static bool close(double a, double b) { return a == b || std::abs(a - b) <= 1e-11 * (1 + std::abs(a) + std::abs(b)); }

static void compare(pm::UserGraph &u, Model &m, Gen &g) {
    CHECK(u.get_num_nodes() == m.nodes, "number of nodes " << u.get_num_nodes() << ", expected " << m.nodes);
    CHECK(u.get_num_detectors() == m.nodes - m.boundary.size(), "number of detectors " << u.get_num_detectors());
    CHECK(u.get_num_observables() == m.nobs, "number of fault ids " << u.get_num_observables() << ", expected " << m.nobs);
    CHECK(u.get_num_edges() == m.edges.size(), "number of edges " << u.get_num_edges() << ", expected " << m.edges.size());
    CHECK(u.get_boundary() == m.boundary, "boundary differs");
    bool all = true;
    double mx = 0;
    std::set<Key> seen;
    for (auto &e : u.edges) {
        Key k = key((int64_t)e.node1, e.node2 == SIZE_MAX ? -1 : (int64_t)e.node2);
        auto it = m.edges.find(k);
        CHECK(it != m.edges.end(), "unexpected edge (" << k.first << "," << k.second << ")");
        CHECK(seen.insert(k).second, "edge (" << k.first << "," << k.second << ") twice");
        auto &x = it->second;
        CHECK(close(e.weight, x.w), "weight of (" << k.first << "," << k.second << ") is " << e.weight << ", expected " << x.w);
        if (valid(x.p)) CHECK(close(e.error_probability, x.p), "probability of (" << k.first << "," << k.second << ") is " << e.error_probability << ", expected " << x.p);
        else CHECK(!valid(e.error_probability), "(" << k.first << "," << k.second << ") has a probability " << e.error_probability << " but none was known");
        CHECK(e.observable_indices == x.obs, "fault ids of (" << k.first << "," << k.second << ") are " << glue::obs_str(e.observable_indices) << ", expected " << glue::obs_str(x.obs));
        x.w = e.weight;  // within rounding; later smallest-weight decisions refer to the stored value
        if (valid(x.p)) x.p = e.error_probability;
        all &= valid(x.p);
        mx = std::max(mx, std::abs(x.w));
    }
    CHECK(u.all_edges_have_error_probabilities() == all, "all_edges_have_error_probabilities is " << !all);
    CHECK(close(u.max_abs_weight(), mx), "maximum weight " << u.max_abs_weight() << ", expected " << mx);
    for (size_t i = 0; i < m.nodes + 2; i++) {
        CHECK(u.has_boundary_edge(i) == (m.edges.count({(int64_t)i, -1}) > 0), "has_boundary_edge(" << i << ")");
        if (i < m.nodes) CHECK(u.is_boundary_node(i) == (m.boundary.count(i) > 0), "is_boundary_node(" << i << ")");
    }
    for (size_t i = 0; i < m.nodes + 2; i++)
        for (size_t j = 0; j < m.nodes + 2; j++) {
            auto it = m.edges.find(key((int64_t)i, (int64_t)j));
            CHECK(u.has_edge(i, j) == (it != m.edges.end()), "has_edge(" << i << "," << j << ")");
            double w = 12345.5;
            bool h = u.get_edge_or_boundary_edge_weight(i, j, w);
            CHECK(h == (it != m.edges.end()), "weight query of (" << i << "," << j << ")");
            if (h) CHECK(close(w, it->second.w), "weight query of (" << i << "," << j << ") gives " << w);
        }
    for (size_t i = 0; i < m.nodes + 1; i++) {
        auto it = m.edges.find({(int64_t)i, -1});
        double w = 0;
        bool h = u.get_edge_or_boundary_edge_weight(i, SIZE_MAX, w);
        CHECK(h == (it != m.edges.end()) && (!h || close(w, it->second.w)), "boundary weight query of " << i);
    }
}

void pbt::property(Gen &g, Ctx &c) {
    Model m;
    int N = (int)g.range(1, 7);
    m.nodes = g.chance(1, 2) ? g.choice(N + 1) : 0;
    m.nobs = m.nodes && g.chance(1, 3) ? g.choice(5) : 0;
    pm::UserGraph u = m.nobs ? pm::UserGraph(m.nodes, m.nobs) : m.nodes ? pm::UserGraph(m.nodes) : pm::UserGraph();
    c.desc << "graph of " << m.nodes << " nodes, " << m.nobs << " ids:";
    int ops = (int)g.range(1, g.scale ? 60 : 25), hits = 0;
    static const char *sname[] = {"disallow", "independent", "smallest-weight", "keep-original", "replace"};
    for (int k = 0; k < ops; k++) {
        int op = (int)g.weighted({10, 5, 1, 1});
        if (op <= 1) {
            int64_t a = (int64_t)g.choice(N), b = op == 0 ? (int64_t)g.choice(N) : -1;
            int st = (int)g.choice(5);
            double w;
            switch (g.choice(5)) {
                case 0: w = (double)g.choice(8); break;
                case 1: w = (double)g.range(-8, 8); break;
                case 2: w = (double)g.range(-1000000, 1000000) / 100000; break;
                case 3: w = (double)g.range(-60000, 60000) / 100; break;
                default: w = std::ldexp((double)g.range(-1000, 1000), -(int)g.choice(60));
            }
            double p = g.chance(1, 4) ? (g.chance(1, 2) ? -1 : 1.5) : (double)g.choice(1001) / 1000;
            std::vector<size_t> obs;
            int no = (int)g.weighted({3, 5, 2, 1});
            std::set<size_t> os;
            for (int q = 0; q < no; q++) os.insert(g.chance(1, 8) ? g.choice(200) : g.choice(10));
            obs.assign(os.begin(), os.end());
            Key kk = key(a, b);
            c.desc << " add(" << a << "," << b << " w=" << w << " p=" << p << " obs=" << glue::obs_str(obs) << " " << sname[st] << ")";
            c.commit();
            auto it = m.edges.find(kk);
            bool expect_throw = false;
            m.nodes = std::max(m.nodes, (size_t)std::max(a, b) + 1);
            bool store_obs = false;
            if (it == m.edges.end()) {
                m.edges[kk] = {obs, w, p};
                store_obs = true;
            } else {
                hits++;
                auto &x = it->second;
                switch (st) {
                    case pm::DISALLOW: expect_throw = true; break;
                    case pm::KEEP_ORIGINAL: break;
                    case pm::REPLACE: x = {obs, w, p}; store_obs = true; break;
                    case pm::SMALLEST_WEIGHT: if (w < x.w) { x = {obs, w, p}; store_obs = true; } break;
                    case pm::INDEPENDENT:
                        x.w = merged(w, x.w);
                        x.p = valid(p) && valid(x.p) ? p * (1 - x.p) + x.p * (1 - p) : -1;
                        break;
                }
            }
            if (store_obs) for (auto q : obs) m.nobs = std::max(m.nobs, q + 1);
            bool threw = false;
            try {
                if (b >= 0) u.add_or_merge_edge(a, b, obs, w, p, (pm::MERGE_STRATEGY)st);
                else u.add_or_merge_boundary_edge(a, obs, w, p, (pm::MERGE_STRATEGY)st);
            } catch (const std::invalid_argument &) { threw = true; }
            CHECK(threw == expect_throw, (threw ? "refused" : "did not refuse") << " the edge");
        } else if (op == 2) {
            std::set<size_t> bd;
            int nb = (int)g.choice(4);
            for (int q = 0; q < nb; q++) bd.insert(g.choice(N + 1));
            c.desc << " boundary{";
            for (auto x : bd) c.desc << x << " ";
            c.desc << "}";
            c.commit();
            u.set_boundary(bd);
            m.boundary = bd;
            for (auto x : bd) m.nodes = std::max(m.nodes, x + 1);
        } else {
            size_t n = g.choice(12);
            c.desc << " min_ids(" << n << ")";
            u.set_min_num_observables(n);
            m.nobs = std::max(m.nobs, n);
        }
        compare(u, m, g);
    }
    c.nontrivial = hits > 0;
    if (c.want_labels) {
        c.label("cases");
        if (hits) c.label("merging");
        if (hits >= 4) c.label(">=4 merges");
        if (m.nobs > 64) c.label(">64 ids");
    }
}
