#include <cmath>
#include "common.h"
#include "pymatching/rand/rand_gen.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C21";
const char *pbt::RULE =
    "random graph with per-edge probabilities (0, 1 and in between), every edge naming its own id or ids shared between edges; sequences of "
    "samples after seeding, checked for consistency of ids and syndrome, certain and impossible edges, boundary nodes and reproducibility; on "
    "some cases 3000 samples are compared with each edge's probability and pairwise independence within 7.5 standard deviations. "
    "Non-trivial: an edge with a probability strictly between 0 and 1 failed in some sample";
void pbt::property(Gen &g, Ctx &c) {
    ref::GraphOpts o;
    o.max_n = (int)g.range(2, 10);
    o.self_loops = true;
    o.obs = ref::OBS_UNIQUE;
    o.max_obs = g.chance(1, 3) ? 100 : 64;
    o.weight_mode = 0;
    auto gr = ref::gen_graph(g, o);
    size_t extra = 0;
    pm::UserGraph u(gr.n);
    if (!gr.boundary.empty()) u.set_boundary(std::set<size_t>(gr.boundary.begin(), gr.boundary.end()));
    std::vector<double> p;
    bool missing = g.chance(1, 10) && !gr.edges.empty();
    size_t miss_at = gr.edges.empty() ? 0 : g.choice(gr.edges.size());
    bool repaired = missing && g.chance(1, 2);
    // Ids shared between edges come on top of each edge's own id.
    size_t base = gr.num_obs();
    size_t shared = g.choice(3);
    std::vector<std::vector<size_t>> sh(gr.edges.size());
    for (size_t i = 0; i < gr.edges.size(); i++) {
        switch (g.weighted({6, 1, 1, 2})) {
            case 0: p.push_back((double)(50 + g.choice(900)) / 1000); break;
            case 1: p.push_back(0); break;
            case 2: p.push_back(1); break;
            default: p.push_back((double)g.choice(1000000) / 1e6);
        }
        for (size_t s = 0; s < shared; s++) if (g.chance(1, 2)) sh[i].push_back(base + s);
    }
    c.desc << gr.str() << "\n p:";
    for (size_t i = 0; i < gr.edges.size(); i++) {
        auto &e = gr.edges[i];
        double q = missing && i == miss_at ? -1 : p[i];
        c.desc << " " << q;
        auto ob = e.obs;
        for (auto x : sh[i]) ob.push_back(x), extra = std::max(extra, x + 1);
        if (e.v < 0) u.add_or_merge_boundary_edge(e.u, ob, (double)e.w, q);
        else u.add_or_merge_edge(e.u, e.v, ob, (double)e.w, q);
        if (missing && i == miss_at && repaired) {
            if (e.v < 0) u.add_or_merge_boundary_edge(e.u, ob, (double)e.w, p[i], pm::REPLACE);
            else u.add_or_merge_edge(e.v, e.u, ob, (double)e.w, p[i], pm::REPLACE);
        }
    }
    if (repaired) missing = false;
    size_t nobs = u.get_num_observables();
    CHECK(nobs >= extra, "too few ids");
    unsigned seed = (unsigned)g.choice((uint64_t)1 << 32);
    bool stats = g.chance(1, 40);
    int samples = stats ? 3000 : (int)g.range(1, 6);
    c.desc << " seed " << seed << " samples " << samples << (missing ? " with a missing probability" : "");
    c.commit();
    CHECK(u.all_edges_have_error_probabilities() == !missing, "all_edges_have_error_probabilities");
    std::vector<std::vector<uint8_t>> runs;
    std::vector<size_t> count(gr.edges.size(), 0);
    std::map<std::pair<size_t, size_t>, size_t> both;
    bool mid = false;
    for (int round = 0; round < 2; round++) {
        pm::set_seed(seed);
        int N = round == 0 ? samples : std::min(samples, 6);
        for (int s = 0; s < N; s++) {
            std::vector<uint8_t> err(nobs, 0), syn(u.get_num_nodes(), 0);
            u.add_noise(err.data(), syn.data());
            if (round == 1) {
                auto all = err;
                all.insert(all.end(), syn.begin(), syn.end());
                CHECK(all == runs[s], "sample " << s << " differs after setting the same seed again");
                continue;
            }
            if (s < 6) { auto all = err; all.insert(all.end(), syn.begin(), syn.end()); runs.push_back(all); }
            if (missing) {
                for (auto x : err) CHECK(!x, "noise although a probability is missing");
                for (auto x : syn) CHECK(!x, "noise although a probability is missing");
                continue;
            }
            std::vector<size_t> fail_ids;
            std::vector<uint8_t> want_syn(syn.size(), 0), want_err(nobs, 0);
            for (size_t i = 0; i < gr.edges.size(); i++) {
                auto &e = gr.edges[i];
                uint8_t f = err[e.obs[0]];
                CHECK(f <= 1, "noise entry is not a bit");
                if (p[i] == 0) CHECK(!f, "edge " << i << " of probability 0 failed");
                if (p[i] == 1) CHECK(f, "edge " << i << " of probability 1 did not fail");
                if (!f) continue;
                if (p[i] > 0 && p[i] < 1) mid = true;
                count[i]++;
                fail_ids.push_back(i);
                for (auto x : e.obs) want_err[x] ^= 1;
                for (auto x : sh[i]) want_err[x] ^= 1;
                if (!gr.is_b(e.u)) want_syn[e.u] ^= 1;
                if (!gr.is_b(e.v)) want_syn[e.v] ^= 1;
            }
            CHECK(err == want_err, "fault ids are not those of the failed edges");
            CHECK(syn == want_syn, "syndrome is not that of the failed edges");
            if (stats) for (size_t a = 0; a < fail_ids.size(); a++) for (size_t b = a + 1; b < fail_ids.size(); b++) both[{fail_ids[a], fail_ids[b]}]++;
        }
    }
    if (stats && !missing) {
        auto z = [&](double k, double q) { return std::abs(k - samples * q) / std::sqrt(samples * q * (1 - q)); };
        for (size_t i = 0; i < p.size(); i++) {
            if (p[i] < 0.02 || p[i] > 0.98) continue;
            CHECK(z(count[i], p[i]) < 7.5, "edge " << i << " failed " << count[i] << " of " << samples << " times, probability " << p[i]);
            for (size_t j = 0; j < i; j++) {
                double q = p[i] * p[j];
                if (q < 0.02 || q > 0.98 || p[j] > 0.98) continue;
                size_t k = both.count({j, i}) ? both[{j, i}] : 0;
                CHECK(z((double)k, q) < 7.5, "edges " << j << " and " << i << " failed together " << k << " of " << samples << " times, expected rate " << q);
            }
        }
    }
    c.nontrivial = mid;
    if (c.want_labels) {
        c.label("cases");
        if (stats) c.label("frequency test");
        if (missing) c.label("missing probability");
        if (!gr.boundary.empty()) c.label("boundary nodes");
    }
}
