#include "common.h"
#include "pymatching/sparse_blossom/flooder/graph_fill_region.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C31";
const char *pbt::RULE =
    "non-negative graph with one fault id per edge and feasible syndrome; the decoding timeline is stepped event by event and after every event the "
    "alternating trees, matches, blossom cycles and the path recorded for every tree edge, match, cycle edge and reached node are checked: structure, mutual links, "
    "ends, and that the path has exactly the length given by the radii. Non-trivial: a tree of at least two levels or a blossom was seen";
typedef ref::i64 i64;
using pm::AltTreeNode;
using pm::CompressedEdge;
using pm::DetectorNode;
using pm::GraphFillRegion;

struct Looker {
    pm::Mwpm &m;
    const ref::Graph &gr;
    const std::vector<int> &owner;  // edge of every fault id
    i64 t;
    std::set<GraphFillRegion *> regions;
    std::map<GraphFillRegion *, std::set<DetectorNode *>> events;  // detection events of every region
    std::set<AltTreeNode *> trees;
    size_t blossoms = 0, deep = 0, nested = 0, matches = 0;

    size_t idx(const DetectorNode *n) const { return n - m.flooder.graph.nodes.data(); }
    i64 rad(const GraphFillRegion *r) const { return r->radius.get_distance_at_time(t); }
    static GraphFillRegion *top(GraphFillRegion *r) {
        size_t d = 0;
        while (r->blossom_parent) { r = r->blossom_parent; CHECK(++d < 10000, "blossom parents form a cycle"); }
        return r;
    }
    bool within(const DetectorNode *s, GraphFillRegion *r) {
        auto it = events.find(r);
        return it != events.end() && it->second.count(const_cast<DetectorNode *>(s));
    }
    /// Length of the edges of a mask, whose odd-degree nodes must be a and b (b null: the boundary, if to_boundary).
    i64 walk(pm::obs_int mask, const DetectorNode *a, const DetectorNode *b, const char *what) {
        std::map<size_t, int> par;
        i64 w = 0;
        for (size_t k = 0; k < 64; k++) {
            if (!(mask >> k & 1)) continue;
            CHECK(k < owner.size() && owner[k] >= 0, what << " crosses fault id " << k << ", which belongs to no edge");
            auto &e = gr.edges[owner[k]];
            w += 2 * e.w;
            if (!gr.is_b(e.u)) par[e.u] ^= 1;
            if (!gr.is_b(e.v)) par[e.v] ^= 1;
        }
        par[idx(a)] ^= 1;
        if (b) par[idx(b)] ^= 1;
        for (auto &p : par)
            CHECK(!p.second, what << " records edges that do not form a path between its ends " << idx(a) << " and " << (b ? (i64)idx(b) : -1) << " (odd at " << p.first << ")");
        return w;
    }
    /// The path of a tight edge is as long as the radii of the regions it leaves.
    void tight(const CompressedEdge &e, const char *what) {
        CHECK(e.loc_from, what << " has no start");
        std::vector<GraphFillRegion *> a, b;
        for (auto *r = e.loc_from->region_that_arrived; r; r = r->blossom_parent) a.push_back(r);
        if (e.loc_to) for (auto *r = e.loc_to->region_that_arrived; r; r = r->blossom_parent) b.push_back(r);
        while (!a.empty() && !b.empty() && a.back() == b.back()) { a.pop_back(); b.pop_back(); }
        i64 want = 0;
        for (auto *r : a) want += rad(r);
        for (auto *r : b) want += rad(r);
        i64 w = walk(e.obs_mask, e.loc_from, e.loc_to, what);
        CHECK(w == want, what << " (" << idx(e.loc_from) << "," << (e.loc_to ? (i64)idx(e.loc_to) : -1) << ") records a path of length " << w << ", the radii give " << want);
    }
    void between(const CompressedEdge &e, GraphFillRegion *x, GraphFillRegion *y, const char *what) {
        CHECK(e.loc_from && within(e.loc_from, x), what << " does not start in its region");
        if (y) CHECK(e.loc_to && within(e.loc_to, y), what << " does not end in its region");
        else CHECK(!e.loc_to, what << " to the boundary ends at node " << idx(e.loc_to));
        tight(e, what);
    }
    void cycle(GraphFillRegion *r) {
        size_t k = r->blossom_children.size();
        if (!k) {
            CHECK(events[r].size() == 1, "a region without children has " << events[r].size() << " detection events");
            return;
        }
        blossoms++;
        if (r->blossom_parent) nested++;
        CHECK(k % 2 == 1 && k >= 3, "blossom with " << k << " children");
        std::set<GraphFillRegion *> seen;
        for (size_t i = 0; i < k; i++) {
            auto &ch = r->blossom_children[i];
            CHECK(regions.count(ch.region), "blossom child that holds no node");
            CHECK(ch.region->blossom_parent == r, "blossom child points to another parent");
            CHECK(seen.insert(ch.region).second, "blossom child listed twice");
            CHECK(!ch.region->alt_tree_node, "blossom child is still in a tree");
            CHECK(ch.region->radius.is_frozen(), "blossom child is not frozen");
            between(ch.edge, ch.region, r->blossom_children[(i + 1) % k].region, "cycle edge");
        }
    }
    /// depth first through one tree
    size_t tree(AltTreeNode *n, size_t depth) {
        CHECK(depth < 100000, "tree without end");
        CHECK(trees.insert(n).second, "tree node reached twice");
        CHECK(!n->visited, "tree node left marked as visited");
        CHECK(n->outer_region && regions.count(n->outer_region) && !n->outer_region->blossom_parent, "outer region of a tree node is not a region at the top");
        CHECK(n->outer_region->alt_tree_node == n, "outer region does not point to its tree node");
        CHECK(n->outer_region->radius.is_growing(), "outer region does not grow");
        if (n->inner_region) {
            CHECK(regions.count(n->inner_region) && !n->inner_region->blossom_parent, "inner region of a tree node is not a region at the top");
            CHECK(n->inner_region->alt_tree_node == n, "inner region does not point to its tree node");
            CHECK(n->inner_region->radius.is_shrinking(), "inner region does not shrink");
            CHECK(n->parent.alt_tree_node, "tree node with an inner region has no parent");
            between(n->inner_to_outer_edge, n->inner_region, n->outer_region, "inner to outer edge");
        } else {
            CHECK(!n->parent.alt_tree_node, "root with a parent");
        }
        size_t d = 1;
        for (auto &ch : n->children) {
            CHECK(ch.alt_tree_node && ch.alt_tree_node->parent.alt_tree_node == n, "child does not point to its parent");
            CHECK(ch.alt_tree_node->parent.edge == ch.edge.reversed(), "edges of parent and child differ");
            CHECK(ch.alt_tree_node->inner_region, "child without an inner region");
            between(ch.edge, n->outer_region, ch.alt_tree_node->inner_region, "tree edge");
            d = std::max(d, 1 + tree(ch.alt_tree_node, depth + 1));
        }
        return d;
    }
    void look(bool final_state) {
        auto &nodes = m.flooder.graph.nodes;
        for (auto &n : nodes) {
            if (!n.region_that_arrived) continue;
            for (auto *r = n.region_that_arrived; r; r = r->blossom_parent) {
                regions.insert(r);
                if (n.reached_from_source == &n) events[r].insert(&n);
            }
        }
        for (auto &n : nodes) {
            if (!n.region_that_arrived) continue;
            auto *s = n.reached_from_source;
            CHECK(s && s->region_that_arrived && s->reached_from_source == s, "node " << idx(&n) << " was reached from a node that is no detection event");
            CHECK(within(s, n.region_that_arrived), "node " << idx(&n) << " was reached from another region's detection event");
            CHECK(n.region_that_arrived_top == top(n.region_that_arrived), "top region of node " << idx(&n) << " is out of date");
            CHECK(n.wrapped_radius_cached == n.compute_wrapped_radius(), "wrapped radius of node " << idx(&n) << " is out of date");
            i64 whole = 0;
            for (auto *r = s->region_that_arrived; r; r = r->blossom_parent) whole += rad(r);
            i64 w = walk(n.observables_crossed_from_source, &n, s, "reached node");
            CHECK(n.local_radius().get_distance_at_time(t) == whole - w,
                  "node " << idx(&n) << " at distance " << w << " from event " << idx(s) << " of radius " << whole << " has local radius " << n.local_radius().get_distance_at_time(t));
        }
        for (auto *r : regions) {
            CHECK(events[r].size() % 2 == 1, "region with " << events[r].size() << " detection events");
            cycle(r);
            if (r->blossom_parent) {
                CHECK(r->blossom_parent_top == top(r), "top of a nested region is out of date");
                CHECK(!r->alt_tree_node, "nested region in a tree");
                bool listed = false;
                for (auto &ch : r->blossom_parent->blossom_children) listed |= ch.region == r;
                CHECK(listed, "region is not listed by its blossom");
            } else if (!r->alt_tree_node) {
                matches++;
                CHECK(r->radius.is_frozen(), "matched region is not frozen");
                between(r->match.edge, r, r->match.region, "match");
                if (r->match.region) {
                    CHECK(regions.count(r->match.region) && !r->match.region->blossom_parent && !r->match.region->alt_tree_node, "matched to a region that is not matched");
                    CHECK(r->match.region->match.region == r, "match is not mutual");
                    CHECK(r->match.region->match.edge == r->match.edge.reversed(), "edges of the two sides of a match differ");
                }
            }
        }
        for (auto *r : regions) {
            if (r->blossom_parent || !r->alt_tree_node) continue;
            CHECK(r->alt_tree_node->outer_region == r || r->alt_tree_node->inner_region == r, "region points to a tree node that does not hold it");
            auto *n = r->alt_tree_node;
            size_t d = 0;
            while (n->parent.alt_tree_node) { n = n->parent.alt_tree_node; CHECK(++d < 100000, "tree parents form a cycle"); }
            if (!trees.count(n)) deep = std::max(deep, tree(n, 0));
            CHECK(trees.count(r->alt_tree_node), "tree node is missing from its tree");
        }
        CHECK(trees.size() == m.node_arena.allocated.size() - m.node_arena.available.size(), trees.size() << " tree nodes in use, " << m.node_arena.allocated.size() - m.node_arena.available.size() << " allocated");
        CHECK(regions.size() == m.flooder.region_arena.allocated.size() - m.flooder.region_arena.available.size(),
              regions.size() << " regions in use, " << m.flooder.region_arena.allocated.size() - m.flooder.region_arena.available.size() << " allocated");
        if (final_state) CHECK(trees.empty(), "a tree is left at the end");
    }
};

void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    static const int maxn[] = {7, 14, 30};
    o.max_n = maxn[g.weighted({3, 4, 3})];
    o.obs = ref::OBS_UNIQUE;
    o.max_obs = 64;
    auto gr = ref::gen_graph(g, o);
    std::vector<int> owner(64, -1);
    for (size_t i = 0; i < gr.edges.size(); i++)
        for (auto k : gr.edges[i].obs) if (k < 64) owner[k] = (int)i;
    for (auto &e : gr.edges) if (e.obs.size() != 1) return;
    auto u = glue::make_user_graph(gr);
    auto &m = u.get_mwpm();
    int shots = 1 + (int)g.choice(2);
    for (int s = 0; s < shots; s++) {
        auto syn = ref::gen_feasible_syndrome(g, gr, 24);
        auto order = syn;
        if (g.chance(1, 2)) g.shuffle(order);
        c.desc.str("");
        c.desc << gr.str() << " syndrome " << ref::syn_str(order);
        c.commit();
        m.flooder.queue.cur_time = 0;
        for (auto x : order) m.create_detection_event(&m.flooder.graph.nodes[x]);
        size_t steps = 0, deep = 0, bl = 0, nest = 0, trees = 0;
        auto look = [&](bool fin) {
            Looker l{m, gr, owner, (i64)m.flooder.queue.cur_time};
            l.look(fin);
            deep = std::max(deep, l.deep);
            bl = std::max(bl, l.blossoms);
            nest = std::max(nest, l.nested);
            trees = std::max(trees, l.trees.size());
        };
        look(false);
        while (true) {
            auto ev = m.flooder.run_until_next_mwpm_notification();
            if (ev.event_type == pm::NO_EVENT) break;
            look(false);
            m.process_event(ev);
            look(false);
            CHECK(++steps < 200000, "runaway timeline");
        }
        look(true);
        ref::i64 w = 0;
        for (auto x : order)
            if (m.flooder.graph.nodes[x].region_that_arrived)
                w += m.shatter_blossom_and_extract_matches(m.flooder.graph.nodes[x].region_that_arrived_top).weight;
        auto best = ref::optimum(gr, syn);
        CHECK(best.has_value() && w == 2 * *best, "extracted weight " << w / 2.0 << " is not the optimum " << best.value_or(-1));
        CHECK(m.flooder.region_arena.allocated.size() == m.flooder.region_arena.available.size(), "regions are left after extraction");
        if (deep >= 2 || bl) c.nontrivial = true;
        if (c.want_labels) {
            if (deep >= 2) c.label("tree of two levels");
            if (deep >= 4) c.label("tree of four levels");
            if (bl) c.label("blossom");
            if (nest) c.label("nested blossom");
        }
    }
}
