#include "common.h"
#include "pymatching/sparse_blossom/flooder/graph_fill_region.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C13";
const char *pbt::RULE =
    "non-negative graph and feasible syndrome; the decoding timeline is stepped event by event and the region structure (ownership, "
    "non-negative radii, edges never over-covered, dual sum non-decreasing and at most the optimum) is checked after every event; at the end the "
    "radii sum to the optimum. Non-trivial: at least 3 matcher events";
typedef ref::i64 i64;
using pm::GraphFillRegion;

static i64 check_state(pm::Mwpm &m, i64 t, bool final_state, size_t &blossoms, size_t &nested) {
    auto &nodes = m.flooder.graph.nodes;
    std::set<GraphFillRegion *> regions;
    std::map<GraphFillRegion *, size_t> owned;
    for (size_t i = 0; i < nodes.size(); i++) {
        auto &n = nodes[i];
        if (!n.region_that_arrived) {
            CHECK(!n.region_that_arrived_top && !n.reached_from_source, "node " << i << " has no owner but a top owner or source");
            CHECK(n.local_radius().get_distance_at_time(t) == 0, "unowned node " << i << " has a radius");
            continue;
        }
        owned[n.region_that_arrived]++;
        GraphFillRegion *r = n.region_that_arrived;
        size_t depth = 0;
        while (true) {
            regions.insert(r);
            if (!r->blossom_parent) break;
            r = r->blossom_parent;
            CHECK(++depth < 10000, "blossom parents form a cycle");
        }
        CHECK(n.region_that_arrived_top == r, "node " << i << " is attributed to a region that is not its top region");
        CHECK(n.reached_from_source, "owned node " << i << " has no source event");
        CHECK(n.local_radius().get_distance_at_time(t) >= 0, "node " << i << " has local radius " << n.local_radius().get_distance_at_time(t));
    }
    i64 dual = 0;
    blossoms = nested = 0;
    for (auto *r : regions) {
        i64 rad = r->radius.get_distance_at_time(t);
        CHECK(rad >= 0, "region with radius " << rad);
        dual += rad;
        size_t shell = 0;
        for (auto *n : r->shell_area) {
            CHECK(n->region_that_arrived == r, "shell node not owned by its region");
            shell++;
        }
        CHECK(shell == owned[r], "region lists " << shell << " shell nodes but owns " << owned[r]);
        if (!r->blossom_children.empty()) {
            blossoms++;
            if (r->blossom_parent) nested++;
            CHECK(r->blossom_children.size() % 2 == 1 && r->blossom_children.size() >= 3, "blossom with " << r->blossom_children.size() << " children");
            for (auto &ch : r->blossom_children) CHECK(ch.region->blossom_parent == r, "blossom child points to another parent");
        }
        if (r->blossom_parent) CHECK(r->radius.is_frozen(), "region inside a blossom is not frozen");
        else {
            CHECK((r->alt_tree_node != nullptr) != r->radius.is_frozen(), "top region must be frozen exactly when it is not in a tree");
            if (final_state) CHECK(!r->alt_tree_node, "unmatched region at the end");
            if (!r->alt_tree_node && r->match.region) CHECK(r->match.region->match.region == r, "match is not mutual");
        }
    }
    for (size_t i = 0; i < nodes.size(); i++) {
        auto &n = nodes[i];
        i64 a = n.local_radius().get_distance_at_time(t);
        for (size_t k = 0; k < n.neighbors.size(); k++) {
            i64 w = n.neighbor_weights[k];
            auto *o = n.neighbors[k];
            if (!o) {
                CHECK(a <= w, "region reaches " << a << " along a boundary edge of weight " << w << " at node " << i);
            } else if (o->region_that_arrived_top != n.region_that_arrived_top) {
                i64 b = o->local_radius().get_distance_at_time(t);
                CHECK(a + b <= w, "edge (" << i << "," << (o - nodes.data()) << ") of weight " << w << " is covered " << a << "+" << b);
            }
        }
    }
    return dual;
}

void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {7, 14, 30};
    o.max_n = maxn[g.weighted({4, 4, 2})];
    o.large = true;
    o.huge = false;
    auto gr = ref::gen_graph(g, o);
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm();
    int shots = 1 + (int)g.choice(2);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 24);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value(), "oracle infeasible");
        m.flooder.queue.cur_time = 0;
        for (auto x : order) m.create_detection_event(&m.flooder.graph.nodes[x]);
        size_t events = 0, b = 0, nest = 0, maxb = 0, maxn2 = 0, shat = 0;
        i64 last = 0;
        while (true) {
            auto ev = m.flooder.run_until_next_mwpm_notification();
            i64 t = m.flooder.queue.cur_time;
            if (ev.event_type == pm::NO_EVENT) break;
            i64 d = check_state(m, t, false, b, nest);
            if (ev.event_type == pm::BLOSSOM_SHATTER) shat++;
            m.process_event(ev);
            i64 d2 = check_state(m, t, false, b, nest);
            CHECK(d == d2, "processing an event changed the sum of radii from " << d << " to " << d2);
            CHECK(d >= last, "sum of radii decreased from " << last << " to " << d);
            CHECK(d <= 2 * *best, "sum of radii " << d / 2.0 << " exceeds the optimum " << *best);
            last = d;
            maxb = std::max(maxb, b);
            maxn2 = std::max(maxn2, nest);
            CHECK(++events < 200000, "runaway timeline");
        }
        i64 d = check_state(m, m.flooder.queue.cur_time, true, b, nest);
        CHECK(d == 2 * *best, "final sum of radii " << d / 2.0 << ", optimum " << *best);
        // Every event is matched; extract and compare.
        i64 w = 0;
        for (auto x : order)
            if (m.flooder.graph.nodes[x].region_that_arrived)
                w += m.shatter_blossom_and_extract_matches(m.flooder.graph.nodes[x].region_that_arrived_top).weight;
        CHECK(w == d, "extracted weight " << w / 2.0 << " differs from the sum of radii " << d / 2.0);
        for (auto &n : m.flooder.graph.nodes)
            CHECK(!n.region_that_arrived && !n.region_that_arrived_top && !n.reached_from_source && n.local_radius().get_distance_at_time(0) == 0, "node state left behind after extraction");
        if (events >= 3) c.nontrivial = true;
        if (c.want_labels) {
            if (maxb) c.label("with blossom");
            if (maxn2) c.label("nested blossom");
            if (shat) c.label("blossom shattered");
            if (events > 20) c.label(">20 events");
        }
    }
}
