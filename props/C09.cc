#include "common.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C09";
const char *pbt::RULE =
    "signed or non-negative graph, sequence of path queries (both visiting orders of the search structure and the user-graph query), checked "
    "against Dijkstra on absolute weights: a chain of existing edges from source to target of minimal length. Non-trivial: a path of >=2 edges";
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {8, 20, 60};
    o.max_n = maxn[g.weighted({4, 4, 2})];
    o.negative = g.chance(1, 4);
    o.large = true;
    auto gr = ref::gen_graph(g, o);
    if (g.chance(1, 8)) gr.min_obs = 70;
    auto u = glue::make_user_graph(gr);
    ref::Contracted con(gr);
    std::map<std::pair<int, int>, ref::i64> len;
    // The decoder keeps the lightest (signed) boundary edge of a node and searches with its absolute weight.
    std::map<int, ref::i64> bw;
    for (auto &e : gr.edges) {
        bool a = gr.is_b(e.u), b = gr.is_b(e.v);
        if (a && b) continue;
        if (a || b) {
            int x = a ? e.v : e.u;
            if (!bw.count(x) || e.w < bw[x]) bw[x] = e.w;
        } else if (e.u != e.v) len[std::minmax(e.u, e.v)] = std::abs(e.w);
    }
    for (auto &p : bw) p.second = std::abs(p.second);
    for (auto &v : con.adj) {
        std::vector<std::pair<int, ref::i64>> keep;
        for (auto &e : v) if (e.first != con.n) keep.push_back(e);
        v = keep;
    }
    con.adj[con.n].clear();
    for (auto &p : bw) { con.adj[p.first].push_back({con.n, p.second}); }
    std::vector<int> inner;
    for (int i = 0; i < gr.n; i++) if (!gr.boundary.count(i)) inner.push_back(i);
    if (inner.empty()) return;
    c.desc << gr.str();
    if (g.chance(1, 16)) {
        size_t a = inner[g.choice(inner.size())];
        std::vector<size_t> nodes;
        c.desc << "\n  query " << a << " -> " << a;
        c.commit();
        u.get_nodes_on_shortest_path_from_source(a, a, nodes);
        CHECK(nodes.size() == 1 && nodes[0] == a, "the path from a node to itself has " << nodes.size() << " nodes");
    }
    int queries = 1 + (int)g.choice(6);
    for (int q = 0; q < queries; q++) {
        int a = inner[g.choice(inner.size())];
        auto d = con.dijkstra(a, false);
        std::vector<int> reach;
        for (int x : inner) if (x != a && d[x] < ref::INF) reach.push_back(x);
        bool to_b = d[con.n] < ref::INF && (reach.empty() || g.chance(1, 3));
        if (!to_b && reach.empty()) continue;
        int b = to_b ? -1 : reach[g.choice(reach.size())];
        ref::i64 want = to_b ? d[con.n] : d[b];
        int mode = (int)g.choice(3);
        c.desc << "\n  query mode " << mode << " " << a << " -> " << b;
        c.commit();
        auto &m = u.get_mwpm_with_search_graph();
        auto *base = m.search_flooder.graph.nodes.data();
        if (mode <= 1) {
            std::vector<std::pair<int, int>> es;
            ref::i64 tot = 0;
            auto visit = [&](const pm::SearchGraphEdge &e) {
                int x = (int)(e.detector_node - base);
                auto *nb = e.detector_node->neighbors[e.neighbor_index];
                int y = nb ? (int)(nb - base) : -1;
                es.push_back({x, y});
                tot += e.detector_node->neighbor_weights[e.neighbor_index];
                ref::i64 w = y < 0 ? (bw.count(x) ? bw[x] : -1) : (len.count(std::minmax(x, y)) ? len[std::minmax(x, y)] : -1);
                CHECK(w >= 0, "edge (" << x << "," << y << ") is not in the graph");
                CHECK(e.detector_node->neighbor_weights[e.neighbor_index] == 2 * w, "edge (" << x << "," << y << ") has weight " << e.detector_node->neighbor_weights[e.neighbor_index] << " instead of " << 2 * w);
            };
            if (mode == 0) m.search_flooder.iter_edges_on_shortest_path_from_source(a, to_b ? SIZE_MAX : b, visit);
            else m.search_flooder.iter_edges_on_shortest_path_from_middle(a, to_b ? SIZE_MAX : b, visit);
            CHECK(tot == 2 * want, "path length " << tot / 2.0 << ", shortest " << want);
            if (mode == 0) {
                int cur = a;
                for (auto &e : es) {
                    CHECK(e.first == cur, "path is not a chain from the source: at " << cur << " but next edge starts at " << e.first);
                    cur = e.second;
                }
                CHECK(cur == b, "path ends at " << cur << " instead of " << b);
            } else {
                std::map<int, int> deg;
                for (auto &e : es) { deg[e.first] ^= 1; deg[e.second] ^= 1; }
                for (auto &x : deg) CHECK(x.second == (x.first == a || x.first == b), "visited edges do not join source and target (node " << x.first << ")");
                CHECK(deg[a] == 1 && deg[b] == 1, "visited edges do not join source and target");
            }
            if (es.size() >= 2) c.nontrivial = true;
            if (c.want_labels) c.label(es.size() < 2 ? "1 edge" : es.size() < 6 ? "2-5 edges" : ">=6 edges");
        } else {
            // Through the user graph; the boundary may be named by the virtual boundary or by any boundary node.
            std::vector<size_t> nodes;
            bool rev = g.chance(1, 2);
            size_t tb = to_b ? (!gr.boundary.empty() && g.chance(1, 2) ? (size_t)*gr.boundary.begin() : SIZE_MAX) : (size_t)b;
            if (rev) u.get_nodes_on_shortest_path_from_source(tb, a, nodes);
            else u.get_nodes_on_shortest_path_from_source(a, tb, nodes);
            std::vector<int> seq(nodes.begin(), nodes.end());
            if (rev) std::reverse(seq.begin(), seq.end());
            CHECK(!seq.empty() && seq[0] == a, "node list does not start at the source");
            if (!to_b) CHECK(seq.back() == b, "node list does not end at the target");
            ref::i64 tot = 0;
            for (size_t i = 0; i + 1 < seq.size(); i++) {
                auto it = len.find(std::minmax(seq[i], seq[i + 1]));
                CHECK(it != len.end(), "nodes " << seq[i] << "," << seq[i + 1] << " are not adjacent");
                tot += it->second;
            }
            if (to_b) {
                CHECK(bw.count(seq.back()), "last node " << seq.back() << " has no boundary edge");
                tot += bw[seq.back()];
            }
            CHECK(tot == want, "node list has length " << tot << ", shortest " << want);
            if (seq.size() >= 3) c.nontrivial = true;
        }
        if (c.want_labels) c.label(to_b ? "to boundary" : "to node");
    }
}
