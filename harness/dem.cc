#include "dem.h"

#include <cmath>
#include <sstream>

namespace dem {
using pbt::Gen;
namespace {
struct Node {
    enum Kind { ERR, SHIFT, DET, LOG, REP } kind;
    Error err;
    size_t n = 0;  // shift amount, declared id, repetitions
    std::vector<Node> body;
    std::string extra;
};
struct State {
    Gen &g;
    const Opts &o;
    std::set<std::pair<size_t, size_t>> pairs;  // relative pairs in use
    size_t next_obs = 0;
};

double gen_p(Gen &g, const Opts &o) {
    if (o.zero_p && g.chance(1, 15)) return 0;
    if (o.certain && g.chance(1, 3)) return 1;
    if (o.near_half && g.chance(2, 3)) return 0.45 + (double)g.choice(501) / 10000;
    if (o.coarse_p && g.chance(2, 3)) {
        static const double ps[] = {0.1, 0.01, 0.2, 0.05, 0.5};
        return ps[g.choice(5)];
    }
    if (o.big_p && g.chance(1, 6)) return 0.5 + (double)g.choice(499) / 1000;
    switch (g.choice(3)) {
        case 0: return (double)(1 + g.choice(500)) / 1000;
        case 1: return (double)(1 + g.choice(1000000)) / 2000000;
        default: return std::pow(10.0, -(double)g.choice(9)) * (double)(1 + g.choice(45)) / 100;
    }
}

Component gen_comp(State &s) {
    Gen &g = s.g;
    Component c;
    int k = 1 + (int)g.weighted({5, 9});
    k = 3 - k;  // two detectors is the simple case
    if (s.o.hyper && g.chance(1, 10)) k = g.chance(1, 2) ? 0 : 3;
    for (int tries = 0; tries < 30; tries++) {
        std::set<size_t> d;
        while ((int)d.size() < k) {
            size_t x = g.choice(s.o.max_dets);
            while (d.count(x)) x = (x + 1) % s.o.max_dets;
            d.insert(x);
            if (d.size() >= (size_t)s.o.max_dets) break;
        }
        c.dets.assign(d.begin(), d.end());
        if (g.chance(1, 2)) std::reverse(c.dets.begin(), c.dets.end());
        if (c.dets.size() != 1 && c.dets.size() != 2) break;
        std::pair<size_t, size_t> key{*d.begin(), c.dets.size() == 2 ? *d.rbegin() : SIZE_MAX};
        if (s.pairs.count(key)) break;
        if ((int)s.pairs.size() < s.o.max_pairs) { s.pairs.insert(key); break; }
        // reuse an existing pair
        auto it = s.pairs.begin();
        std::advance(it, g.choice(s.pairs.size()));
        c.dets = {it->first};
        if (it->second != SIZE_MAX) c.dets.push_back(it->second);
        break;
    }
    if (s.o.unique_obs) {
        c.obs = {s.next_obs++};
    } else {
        int n = (int)g.weighted({4, 4, 1});
        std::set<size_t> q;
        for (int i = 0; i < n && s.o.max_obs; i++) q.insert(g.choice(s.o.max_obs));
        c.obs.assign(q.begin(), q.end());
    }
    return c;
}

std::vector<Node> gen_block(State &s, int depth, int count) {
    Gen &g = s.g;
    std::vector<Node> out;
    for (int i = 0; i < count; i++) {
        int k = s.o.structure ? (int)g.weighted({12, 1, 1, 1, depth < 2 ? 1 : 0}) : 0;
        Node n;
        switch (k) {
            case 0: {
                n.kind = Node::ERR;
                n.err.p = gen_p(g, s.o);
                int c = s.o.decomposed ? 1 + (int)g.weighted({24, 12, 4, 1, 1, 1}) : 1;
                std::set<std::vector<size_t>> used;
                for (int q = 0; q < c; q++) {
                    auto comp = gen_comp(s);
                    auto key = comp.dets;
                    std::sort(key.begin(), key.end());
                    if (!s.o.dup_components && !used.insert(key).second) continue;
                    n.err.comps.push_back(comp);
                }
                break;
            }
            case 1: n.kind = Node::SHIFT; n.n = g.choice(s.o.large ? 300 : 4); n.extra = g.chance(1, 3) ? "(1, 2.5)" : ""; break;
            case 2: n.kind = Node::DET; n.n = g.choice(s.o.large && g.chance(1, 4) ? 70000 : s.o.max_dets + 3); n.extra = g.chance(1, 2) ? "(0.5, 1)" : ""; break;
            case 3: n.kind = Node::LOG; n.n = g.choice(s.o.large && g.chance(1, 4) ? 700 : s.o.max_obs + 2); break;
            default: n.kind = Node::REP; n.n = 1 + g.choice(s.o.large && depth == 0 ? 60 : 3); n.body = gen_block(s, depth + 1, (int)g.range(1, 4));
        }
        out.push_back(n);
    }
    return out;
}

std::string num(double p) {
    std::ostringstream o;
    o.precision(17);
    o << p;
    return o.str();
}

void print(const std::vector<Node> &b, std::ostringstream &o, int ind) {
    std::string pad(ind, ' ');
    for (auto &n : b) {
        o << pad;
        switch (n.kind) {
            case Node::ERR:
                o << "error(" << num(n.err.p) << ")";
                for (size_t c = 0; c < n.err.comps.size(); c++) {
                    if (c) o << " ^";
                    auto &k = n.err.comps[c];
                    for (auto d : k.dets) o << " D" << d;
                    for (auto x : k.obs) o << " L" << x;
                }
                break;
            case Node::SHIFT: o << "shift_detectors" << n.extra << " " << n.n; break;
            case Node::DET: o << "detector" << n.extra << " D" << n.n; break;
            case Node::LOG: o << "logical_observable L" << n.n; break;
            case Node::REP:
                o << "repeat " << n.n << " {\n";
                print(n.body, o, ind + 4);
                o << pad << "}";
                break;
        }
        o << "\n";
    }
}

void flatten(const std::vector<Node> &b, size_t &off, Flat &f) {
    for (auto &n : b) {
        switch (n.kind) {
            case Node::ERR: {
                Error e = n.err;
                for (auto &c : e.comps) {
                    for (auto &d : c.dets) { d += off; f.num_dets = std::max(f.num_dets, d + 1); }
                    for (auto x : c.obs) f.num_obs = std::max(f.num_obs, x + 1);
                }
                f.errors.push_back(e);
                break;
            }
            case Node::SHIFT: off += n.n; break;
            case Node::DET: f.num_dets = std::max(f.num_dets, n.n + off + 1); break;
            case Node::LOG: f.num_obs = std::max(f.num_obs, n.n + 1); break;
            case Node::REP: for (size_t r = 0; r < n.n; r++) flatten(n.body, off, f); break;
        }
    }
}
/// A separator next to nothing is not a valid target list: drop components that name nothing at all.
void clean(std::vector<Node> &b) {
    for (auto &n : b) {
        if (n.kind == Node::ERR && n.err.comps.size() > 1) {
            std::vector<Component> k;
            for (auto &c : n.err.comps) if (!c.dets.empty() || !c.obs.empty()) k.push_back(c);
            if (k.empty()) k.push_back(n.err.comps[0]);
            n.err.comps = k;
        }
        clean(n.body);
    }
}
}  // namespace

double llr(double p) { return std::log((1 - p) / p); }

Model generate(Gen &g, const Opts &o) {
    State s{g, o, {}, 0};
    auto b = gen_block(s, 0, (int)g.range(1, o.max_instr));
    clean(b);
    std::ostringstream t;
    print(b, t, 0);
    Model m;
    m.text = t.str();
    size_t off = 0;
    flatten(b, off, m.flat);
    return m;
}

std::vector<REdge> edges_of(const Flat &f) {
    std::vector<REdge> r;
    std::map<std::pair<size_t, size_t>, size_t> at;
    std::vector<std::pair<long double, long double>> pq;  // probability and its complement, both without cancellation
    for (auto &e : f.errors) {
        if (e.p == 0) continue;
        const long double ep = e.p, eq = 1 - ep;
        for (auto &c : e.comps) {
            if (c.dets.empty() || c.dets.size() > 2) continue;
            std::pair<size_t, size_t> k{c.dets[0], c.dets.size() == 2 ? c.dets[1] : SIZE_MAX};
            if (k.first > k.second) std::swap(k.first, k.second);
            auto it = at.find(k);
            if (it == at.end()) {
                at[k] = r.size();
                r.push_back({(int)k.first, k.second == SIZE_MAX ? -1 : (int)k.second, c.obs, e.p, 0});
                pq.push_back({ep, eq});
            } else {
                auto &x = pq[it->second];
                x = {x.first * eq + x.second * ep, x.second * eq + x.first * ep};
            }
        }
    }
    for (size_t i = 0; i < r.size(); i++) {
        r[i].p = (double)pq[i].first;
        r[i].w = (double)std::log(pq[i].second / pq[i].first);
    }
    return r;
}
}  // namespace dem
