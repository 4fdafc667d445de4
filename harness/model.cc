#include "model.h"

#include <cstring>
#include <functional>
#include <sstream>

namespace ref {

std::string syn_str(const std::vector<uint64_t> &s) {
    std::ostringstream o;
    o << "[";
    for (size_t k = 0; k < s.size(); k++) o << (k ? "," : "") << s[k];
    o << "]";
    return o.str();
}

std::string Graph::str() const {
    std::ostringstream o;
    o << "graph n=" << n;
    if (!boundary.empty()) {
        o << " boundary={";
        for (auto b : boundary) o << b << " ";
        o << "}";
    }
    if (min_obs) o << " min_obs=" << min_obs;
    o << " edges:";
    size_t shown = 0;
    for (auto &e : edges) {
        if (shown++ > 60) { o << " ...(" << edges.size() << " edges)"; break; }
        o << " (" << e.u << "," << e.v << ",w=" << e.w;
        if (!e.obs.empty()) {
            o << ",L";
            for (auto x : e.obs) o << x << " ";
        }
        o << ")";
    }
    return o.str();
}

Contracted::Contracted(const Graph &g, bool) : n(g.n), adj(g.n + 1) {
    for (auto &e : g.edges) {
        int a = g.is_b(e.u) ? g.n : e.u, b = g.is_b(e.v) ? g.n : e.v;
        if (a == b) continue;
        i64 w = e.w < 0 ? -e.w : e.w;
        adj[a].push_back({b, w});
        adj[b].push_back({a, w});
    }
}

std::vector<i64> Contracted::dijkstra(int src, bool through_boundary) const {
    std::vector<i64> d(n + 1, INF);
    std::priority_queue<std::pair<i64, int>, std::vector<std::pair<i64, int>>, std::greater<std::pair<i64, int>>> q;
    d[src] = 0;
    q.push({0, src});
    while (!q.empty()) {
        auto [x, u] = q.top();
        q.pop();
        if (x > d[u]) continue;
        if (u == n && !through_boundary && src != n) continue;
        for (auto &[v, w] : adj[u])
            if (x + w < d[v]) {
                d[v] = x + w;
                q.push({d[v], v});
            }
    }
    return d;
}

std::vector<uint64_t> strip_boundary(const Graph &g, const std::vector<uint64_t> &syn) {
    std::vector<uint64_t> r;
    for (auto s : syn) if (!g.boundary.count((int)s)) r.push_back(s);
    std::sort(r.begin(), r.end());
    return r;
}

std::vector<uint64_t> syndrome_of(const Graph &g, const std::vector<size_t> &ids) {
    std::vector<char> p(g.n, 0);
    for (auto i : ids) {
        auto &e = g.edges[i];
        if (!g.is_b(e.u)) p[e.u] ^= 1;
        if (!g.is_b(e.v)) p[e.v] ^= 1;
    }
    std::vector<uint64_t> r;
    for (int k = 0; k < g.n; k++) if (p[k]) r.push_back(k);
    return r;
}

Brute brute_force(const Graph &g, const std::vector<uint64_t> &syn0, bool with_obs) {
    auto syn = strip_boundary(g, syn0);
    size_t m = g.edges.size();
    // node parity as bitmask over the nodes that an edge touches (m <= 32, so at most 64 of them)
    std::map<uint64_t, int> id;
    auto bit_of = [&](uint64_t node) {
        return (uint64_t)1 << id.emplace(node, (int)id.size()).first->second;
    };
    std::vector<uint64_t> pm(m, 0);
    for (size_t i = 0; i < m; i++) {
        auto &e = g.edges[i];
        if (!g.is_b(e.u)) pm[i] ^= bit_of(e.u);
        if (!g.is_b(e.v)) pm[i] ^= bit_of(e.v);
    }
    Brute b;
    uint64_t want = 0;
    for (auto s : syn) {
        if (!id.count(s)) return b;  // no edge reaches this event
        want ^= bit_of(s);
    }
    uint64_t cur = 0;
    i64 w = 0;
    std::vector<uint32_t> opt;
    uint32_t sel = 0;
    for (uint64_t k = 0;; k++) {
        if (cur == want) {
            b.feasible = true;
            if (w < b.best) { b.best = w; opt.clear(); }
            if (w == b.best && with_obs) opt.push_back(sel);
        }
        if (k + 1 == ((uint64_t)1 << m)) break;
        int bit = __builtin_ctzll(k + 1);
        cur ^= pm[bit];
        sel ^= 1u << bit;
        w += (sel >> bit & 1) ? g.edges[bit].w : -g.edges[bit].w;
    }
    for (auto s : opt) {
        std::map<size_t, int> c;
        for (size_t i = 0; i < m; i++) if (s >> i & 1) for (auto o : g.edges[i].obs) c[o] ^= 1;
        std::vector<size_t> v;
        for (auto &x : c) if (x.second) v.push_back(x.first);
        b.best_obs.insert(v);
    }
    return b;
}

std::optional<i64> min_perfect_matching_dp(const std::vector<std::vector<i64>> &c) {
    size_t k = c.size();
    if (k % 2) return std::nullopt;
    std::vector<i64> dp((size_t)1 << k, INF);
    dp[0] = 0;
    for (size_t s = 0; s + 1 < ((size_t)1 << k); s++) {
        if (dp[s] >= INF) continue;
        size_t i = 0;
        while (s >> i & 1) i++;
        for (size_t j = i + 1; j < k; j++)
            if (!(s >> j & 1) && c[i][j] < INF) {
                size_t t = s | (size_t)1 << i | (size_t)1 << j;
                dp[t] = std::min(dp[t], dp[s] + c[i][j]);
            }
    }
    i64 r = dp[((size_t)1 << k) - 1];
    if (r >= INF) return std::nullopt;
    return r;
}

// Weighted maximum matching on general graphs, O(n^3) primal-dual with explicit blossoms (textbook implementation).
namespace {
struct WB {
    struct Ed { int u, v; i64 w; };
    int n, nx;
    std::vector<std::vector<Ed>> g;
    std::vector<i64> lab;
    std::vector<int> match, slack, st, pa, S, vis;
    std::vector<std::vector<int>> fl_from, fl;
    std::queue<int> q;
    int vt = 0;
    explicit WB(int n_) : n(n_), nx(n_) {
        int M = 2 * n + 2;
        g.assign(M, std::vector<Ed>(M));
        for (int u = 0; u < M; u++) for (int v = 0; v < M; v++) g[u][v] = {u, v, 0};
        lab.assign(M, 0); match.assign(M, 0); slack.assign(M, 0); st.assign(M, 0); pa.assign(M, 0); S.assign(M, 0); vis.assign(M, 0);
        fl_from.assign(M, std::vector<int>(M, 0));
        fl.assign(M, {});
    }
    i64 dist(const Ed &e) { return lab[e.u] + lab[e.v] - g[e.u][e.v].w * 2; }
    void upd(int u, int x) { if (!slack[x] || dist(g[u][x]) < dist(g[slack[x]][x])) slack[x] = u; }
    void set_slack(int x) {
        slack[x] = 0;
        for (int u = 1; u <= n; u++) if (g[u][x].w > 0 && st[u] != x && S[st[u]] == 0) upd(u, x);
    }
    void push(int x) { if (x <= n) q.push(x); else for (int i : fl[x]) push(i); }
    void set_st(int x, int b) { st[x] = b; if (x > n) for (int i : fl[x]) set_st(i, b); }
    int get_pr(int b, int xr) {
        int pr = (int)(std::find(fl[b].begin(), fl[b].end(), xr) - fl[b].begin());
        if (pr % 2 == 1) { std::reverse(fl[b].begin() + 1, fl[b].end()); return (int)fl[b].size() - pr; }
        return pr;
    }
    void set_match(int u, int v) {
        match[u] = g[u][v].v;
        if (u > n) {
            Ed e = g[u][v];
            int xr = fl_from[u][e.u], pr = get_pr(u, xr);
            for (int i = 0; i < pr; i++) set_match(fl[u][i], fl[u][i ^ 1]);
            set_match(xr, v);
            std::rotate(fl[u].begin(), fl[u].begin() + pr, fl[u].end());
        }
    }
    void augment(int u, int v) {
        for (;;) {
            int xnv = st[match[u]];
            set_match(u, v);
            if (!xnv) return;
            set_match(xnv, st[pa[xnv]]);
            u = st[pa[xnv]];
            v = xnv;
        }
    }
    int lca(int u, int v) {
        for (vt++; u || v; std::swap(u, v)) {
            if (u == 0) continue;
            if (vis[u] == vt) return u;
            vis[u] = vt;
            u = st[match[u]];
            if (u) u = st[pa[u]];
        }
        return 0;
    }
    void add_blossom(int u, int l, int v) {
        int b = n + 1;
        while (b <= nx && st[b]) b++;
        if (b > nx) nx++;
        lab[b] = 0; S[b] = 0; match[b] = match[l];
        fl[b].clear();
        fl[b].push_back(l);
        for (int x = u, y; x != l; x = st[pa[y]]) { fl[b].push_back(x); fl[b].push_back(y = st[match[x]]); push(y); }
        std::reverse(fl[b].begin() + 1, fl[b].end());
        for (int x = v, y; x != l; x = st[pa[y]]) { fl[b].push_back(x); fl[b].push_back(y = st[match[x]]); push(y); }
        set_st(b, b);
        for (int x = 1; x <= nx; x++) g[b][x].w = g[x][b].w = 0;
        for (int x = 1; x <= n; x++) fl_from[b][x] = 0;
        for (int xs : fl[b]) {
            for (int x = 1; x <= nx; x++)
                if (g[b][x].w == 0 || dist(g[xs][x]) < dist(g[b][x])) { g[b][x] = g[xs][x]; g[x][b] = g[x][xs]; }
            for (int x = 1; x <= n; x++) if (fl_from[xs][x]) fl_from[b][x] = xs;
        }
        set_slack(b);
    }
    void expand(int b) {
        for (int i : fl[b]) set_st(i, i);
        int xr = fl_from[b][g[b][pa[b]].u], pr = get_pr(b, xr);
        for (int i = 0; i < pr; i += 2) {
            int xs = fl[b][i], xns = fl[b][i + 1];
            pa[xs] = g[xns][xs].u;
            S[xs] = 1; S[xns] = 0;
            slack[xs] = 0;
            set_slack(xns);
            push(xns);
        }
        S[xr] = 1; pa[xr] = pa[b];
        for (size_t i = pr + 1; i < fl[b].size(); i++) { int xs = fl[b][i]; S[xs] = -1; set_slack(xs); }
        st[b] = 0;
    }
    bool on_found(const Ed &e) {
        int u = st[e.u], v = st[e.v];
        if (S[v] == -1) {
            pa[v] = e.u; S[v] = 1;
            int nu = st[match[v]];
            slack[v] = slack[nu] = 0;
            S[nu] = 0;
            push(nu);
        } else if (S[v] == 0) {
            int l = lca(u, v);
            if (!l) { augment(u, v); augment(v, u); return true; }
            add_blossom(u, l, v);
        }
        return false;
    }
    bool matching() {
        std::fill(S.begin() + 1, S.begin() + nx + 1, -1);
        std::fill(slack.begin() + 1, slack.begin() + nx + 1, 0);
        q = {};
        for (int x = 1; x <= nx; x++) if (st[x] == x && !match[x]) { pa[x] = 0; S[x] = 0; push(x); }
        if (q.empty()) return false;
        for (;;) {
            while (!q.empty()) {
                int u = q.front();
                q.pop();
                if (S[st[u]] == 1) continue;
                for (int v = 1; v <= n; v++)
                    if (g[u][v].w > 0 && st[u] != st[v]) {
                        if (dist(g[u][v]) == 0) { if (on_found(g[u][v])) return true; }
                        else upd(u, st[v]);
                    }
            }
            i64 d = INT64_MAX;
            for (int b = n + 1; b <= nx; b++) if (st[b] == b && S[b] == 1) d = std::min(d, lab[b] / 2);
            for (int x = 1; x <= nx; x++)
                if (st[x] == x && slack[x]) {
                    if (S[x] == -1) d = std::min(d, dist(g[slack[x]][x]));
                    else if (S[x] == 0) d = std::min(d, dist(g[slack[x]][x]) / 2);
                }
            for (int u = 1; u <= n; u++) {
                if (S[st[u]] == 0) { if (lab[u] <= d) return false; lab[u] -= d; }
                else if (S[st[u]] == 1) lab[u] += d;
            }
            for (int b = n + 1; b <= nx; b++) if (st[b] == b) { if (S[st[b]] == 0) lab[b] += d * 2; else if (S[st[b]] == 1) lab[b] -= d * 2; }
            q = {};
            for (int x = 1; x <= nx; x++)
                if (st[x] == x && slack[x] && st[slack[x]] != x && dist(g[slack[x]][x]) == 0)
                    if (on_found(g[slack[x]][x])) return true;
            for (int b = n + 1; b <= nx; b++) if (st[b] == b && S[b] == 1 && lab[b] == 0) expand(b);
        }
    }
    std::pair<i64, int> solve() {
        int c = 0;
        i64 tot = 0, wmax = 0;
        for (int u = 0; u <= n; u++) { st[u] = u; fl[u].clear(); }
        for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) { fl_from[u][v] = (u == v ? u : 0); wmax = std::max(wmax, g[u][v].w); }
        for (int u = 1; u <= n; u++) lab[u] = wmax;
        while (matching()) c++;
        for (int u = 1; u <= n; u++) if (match[u] && match[u] < u) tot += g[u][match[u]].w;
        return {tot, c};
    }
};
}  // namespace

std::optional<i64> min_perfect_matching_blossom(const std::vector<std::vector<i64>> &c) {
    int k = (int)c.size();
    if (k % 2) return std::nullopt;
    if (k == 0) return 0;
    i64 mx = 0;
    for (auto &r : c) for (auto x : r) if (x < INF) mx = std::max(mx, x);
    // Large enough that a maximum-weight matching has maximum cardinality.
    i64 C = (mx + 1) * (k + 2);
    WB b(k);
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j && c[i][j] < INF) b.g[i + 1][j + 1].w = C - c[i][j];
    auto [tot, cnt] = b.solve();
    if (cnt * 2 != k) return std::nullopt;
    return C * (k / 2) - tot;
}

std::optional<i64> optimum(const Graph &g, const std::vector<uint64_t> &syn0, int dp_limit) {
    auto syn = strip_boundary(g, syn0);
    std::set<uint64_t> T(syn.begin(), syn.end());
    auto tog = [&](int x) { if (!g.is_b(x)) { if (!T.erase(x)) T.insert(x); } };
    i64 base = 0;
    for (auto &e : g.edges) if (e.w < 0) { base += e.w; tog(e.u); tog(e.v); }
    std::vector<uint64_t> t(T.begin(), T.end());
    Contracted c(g);
    size_t k = t.size();
    std::vector<std::vector<i64>> d;
    for (auto x : t) d.push_back(c.dijkstra((int)x, true));
    size_t K = k + (k % 2);
    std::vector<std::vector<i64>> cost(K, std::vector<i64>(K, INF));
    // Paths through the boundary vertex already include pairing both events with the boundary.
    for (size_t i = 0; i < k; i++) {
        for (size_t j = 0; j < k; j++) if (i != j) cost[i][j] = d[i][t[j]];
        if (K > k) cost[i][k] = cost[k][i] = d[i][c.n];
    }
    auto r = (int)K <= dp_limit ? min_perfect_matching_dp(cost) : min_perfect_matching_blossom(cost);
    if (!r) return std::nullopt;
    return *r + base;
}

std::vector<int> components(const Graph &g, std::vector<bool> &hb) {
    std::vector<int> p(g.n);
    for (int i = 0; i < g.n; i++) p[i] = i;
    std::function<int(int)> find = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    std::vector<int> touches;
    for (auto &e : g.edges) {
        bool a = g.is_b(e.u), b = g.is_b(e.v);
        if (!a && !b) p[find(e.u)] = find(e.v);
        else if (a && !b) touches.push_back(e.v);
        else if (b && !a) touches.push_back(e.u);
    }
    hb.assign(g.n, false);
    for (auto t : touches) hb[find(t)] = true;
    for (int i = 0; i < g.n; i++) p[i] = find(i);
    return p;
}

bool feasible(const Graph &g, const std::vector<uint64_t> &syn) {
    std::vector<bool> hb;
    auto c = components(g, hb);
    std::vector<int> par(g.n, 0);
    for (auto s : syn) if (!g.boundary.count((int)s)) par[c[s]] ^= 1;
    for (int i = 0; i < g.n; i++) if (par[i] && !hb[i]) return false;
    return true;
}

// ------------------------------------------------------------------ generators
int gen_weight_mode(pbt::Gen &g) { return (int)g.weighted({3, 4, 3, 3, 2, 2, 1, 2}); }

i64 gen_weight(pbt::Gen &g, int mode) {
    switch (mode) {
        case 0: return 1;
        case 1: return g.range(0, 3);
        case 2: return g.range(1, 10);
        case 3: return g.range(0, 100);
        case 4: return g.range(0, MAXW);
        case 5: { int b = (int)g.choice(24); return ((i64)1 << b) - (i64)g.choice(2) + (b > 1 ? (i64)g.choice(2) : 0); }
        case 6: { static const i64 ex[] = {0, 1, MAXW, MAXW - 1, MAXW / 2, 2}; return ex[g.choice(6)]; }
        default: { static const i64 ex[] = {1, 2, 1000, 1001, 30000}; return ex[g.choice(5)]; }
    }
}

namespace {
/// Thousands of nodes described by a handful of choices: path, ladder or star with weights from a small formula.
Graph gen_huge(pbt::Gen &g, const GraphOpts &o) {
    Graph r;
    static const int top[] = {600, 3000, 66000};
    int mx = top[g.weighted({6, 4, 1})];
    r.n = mx - (int)g.choice(300);
    int shape = (int)g.choice(3);
    if (shape == 2 && r.n > 3000) shape = 1;  // adding edges to a hub is linear in its degree
    uint64_t mul = 1 + g.choice(1000), mod = 1 + g.choice(g.chance(1, 2) ? 40 : 100000), neg = o.negative ? (uint64_t)r.n / (1 + g.choice(8)) : 0;
    uint64_t k = 0;
    auto add = [&](int u, int v) {
        i64 w = (i64)((k * mul + k / 7) % mod);
        if (neg && k % neg == 0) w = -w;
        k++;
        r.edges.push_back({u, v, w, {}});
    };
    if (shape == 0) for (int i = 0; i + 1 < r.n; i++) add(i, i + 1);
    else if (shape == 1) for (int i = 0; i + 2 < r.n; i++) { add(i, i + 2); if (i % 2 == 0) add(i, i + 1); }
    else for (int i = 1; i < r.n; i++) add(i % 9 == 0 ? i - 1 : 0, i);
    if (o.allow_boundary && g.chance(1, 2)) { add(0, -1); if (g.chance(1, 2)) add(r.n - 1, -1); }
    if (o.obs == OBS_UNIQUE) {
        size_t c = std::min<size_t>(o.max_obs, r.edges.size());
        size_t stride = g.chance(1, 2) ? r.edges.size() / c : 1, at = g.choice(r.edges.size());
        for (size_t i = 0; i < c; i++) r.edges[(at + i * stride) % r.edges.size()].obs = {i};
    }
    return r;
}
}  // namespace

Graph gen_graph(pbt::Gen &g, const GraphOpts &o) {
    Graph r;
    bool large = o.large && g.chance(1, 120);
    if (large && o.huge && g.chance(1, 40)) return gen_huge(g, o);
    std::set<std::pair<int, int>> have;
    std::vector<std::pair<int, int>> pairs;
    auto add = [&](int a, int b) {
        if (a == b) return;
        auto k = std::minmax(a, b);
        if (have.insert(k).second) pairs.push_back({a, b});
    };
    std::vector<int> preferred_boundary;
    std::map<std::pair<int, int>, i64> planned;  // weights that come with the structure
    int fam = o.family >= 0 ? o.family : (int)g.weighted({4, 2, 4, 3, 4, 4, 2, 2, 0, 0, 3});
    int mx = std::max(2, o.max_n);
    if (large) {
        mx = 100 + (int)g.choice(g.chance(1, 3) ? 300 : 100);
        static const int lf[] = {2, 4, 8, 9, 0, 5, 7, 1, 10};
        fam = lf[g.weighted({4, 4, 4, 4, 3, 3, 2, 1, 3})];
    }
    switch (fam) {
        case 0: {  // tree plus chords
            r.n = (int)g.range(1, mx);
            for (int i = 1; i < r.n; i++) add(i, (int)g.choice(i));
            int extra = (int)g.range(0, r.n);
            for (int k = 0; k < extra; k++) add((int)g.choice(r.n), (int)g.choice(r.n));
            break;
        }
        case 1: {  // path or cycle
            r.n = (int)g.range(2, mx);
            for (int i = 0; i + 1 < r.n; i++) add(i, i + 1);
            if (r.n > 2 && g.chance(1, 2)) add(r.n - 1, 0);
            else { preferred_boundary.push_back(0); preferred_boundary.push_back(r.n - 1); }
            break;
        }
        case 2: {  // 2D grid, boundary on two sides
            int a = (int)g.range(1, std::max(1, (int)std::min<i64>(mx / 2, 14)));
            int b = (int)g.range(2, std::max(2, mx / a));
            r.n = a * b;
            bool periodic = g.chance(1, 3), diag = g.chance(1, 4);
            for (int i = 0; i < a; i++)
                for (int j = 0; j < b; j++) {
                    if (i + 1 < a) add(i * b + j, (i + 1) * b + j);
                    else if (periodic && a > 2) add(i * b + j, j);
                    if (j + 1 < b) add(i * b + j, i * b + j + 1);
                    if (diag && i + 1 < a && j + 1 < b) add(i * b + j, (i + 1) * b + j + 1);
                    if (j == 0 || j == b - 1) preferred_boundary.push_back(i * b + j);
                }
            break;
        }
        case 3: {  // complete or nearly complete
            r.n = (int)g.range(2, std::min(mx, 12));
            int drop = (int)g.choice(3);
            for (int i = 0; i < r.n; i++)
                for (int j = i + 1; j < r.n; j++)
                    if (drop == 0 || !g.chance(drop, 6)) add(i, j);
            break;
        }
        case 4: {  // chained odd cycles: blossom-prone
            r.n = 1;
            std::vector<int> ends{0};
            while (r.n + 2 <= mx) {
                int len = 3 + 2 * (int)g.choice(3);
                if (r.n + len - 1 > mx) len = 3;
                int at = ends[g.choice(ends.size())];
                int prev = at, first = r.n;
                (void)first;
                for (int k = 1; k < len; k++) { int x = r.n++; add(prev, x); prev = x; ends.push_back(x); }
                add(prev, at);
                if (g.chance(1, 4) && r.n < mx) { int x = r.n++; add(x, ends[g.choice(ends.size())]); ends.push_back(x); }
                if (g.chance(1, 8)) break;
            }
            int extra = (int)g.choice(3);
            for (int k = 0; k < extra; k++) add((int)g.choice(r.n), (int)g.choice(r.n));
            break;
        }
        case 5: {  // sparse random, possibly disconnected
            r.n = (int)g.range(2, mx);
            int m = (int)g.range(r.n / 2, r.n * 2);
            for (int k = 0; k < m; k++) add((int)g.choice(r.n), (int)g.choice(r.n));
            break;
        }
        case 6: {  // 3D lattice (space x space x time)
            int a = (int)g.range(1, 3), b = (int)g.range(1, 4);
            int t = std::max(1, std::min((int)g.range(1, 8), mx / (a * b)));
            r.n = a * b * t;
            auto id = [&](int i, int j, int k) { return (k * a + i) * b + j; };
            bool hook = g.chance(1, 2);
            for (int k = 0; k < t; k++)
                for (int i = 0; i < a; i++)
                    for (int j = 0; j < b; j++) {
                        if (i + 1 < a) add(id(i, j, k), id(i + 1, j, k));
                        if (j + 1 < b) add(id(i, j, k), id(i, j + 1, k));
                        if (k + 1 < t) add(id(i, j, k), id(i, j, k + 1));
                        if (hook && k + 1 < t && i + 1 < a) add(id(i, j, k), id(i + 1, j, k + 1));
                        if (j == 0 || j == b - 1) preferred_boundary.push_back(id(i, j, k));
                    }
            break;
        }
        case 8: {  // larger 3D lattice
            int a = (int)g.range(2, 8), b = (int)g.range(2, 8), t = std::max(2, std::min((int)g.range(2, 9), mx / (a * b)));
            r.n = a * b * t;
            auto id = [&](int i, int j, int k) { return (k * a + i) * b + j; };
            bool hook = g.chance(1, 2), wrap = g.chance(1, 3);
            for (int k = 0; k < t; k++)
                for (int i = 0; i < a; i++)
                    for (int j = 0; j < b; j++) {
                        if (i + 1 < a) add(id(i, j, k), id(i + 1, j, k));
                        else if (wrap && a > 2) add(id(i, j, k), id(0, j, k));
                        if (j + 1 < b) add(id(i, j, k), id(i, j + 1, k));
                        if (k + 1 < t) add(id(i, j, k), id(i, j, k + 1));
                        if (hook && k + 1 < t && i + 1 < a) add(id(i, j, k), id(i + 1, j, k + 1));
                        if (j == 0 || j == b - 1) preferred_boundary.push_back(id(i, j, k));
                    }
            break;
        }
        case 9: {  // dense odd cliques with links: many nested blossoms
            std::vector<int> first;
            int k = (int)g.range(4, 24);
            for (int q = 0; q < k && r.n + 9 < mx; q++) {
                int s = 3 + 2 * (int)g.choice(3);
                first.push_back(r.n);
                for (int i = 0; i < s; i++)
                    for (int j = i + 1; j < s; j++) if (j == i + 1 || g.chance(2, 3)) add(r.n + i, r.n + j);
                r.n += s;
            }
            int links = (int)g.range((int)first.size() - 1, 3 * (int)first.size());
            for (int q = 0; q < links; q++) {
                int x = q + 1 < (int)first.size() ? q : (int)g.choice(first.size());
                int y = q + 1 < (int)first.size() ? q + 1 : (int)g.choice(first.size());
                if (x != y) add(first[x] + (int)g.choice(3), first[y] + (int)g.choice(3));
            }
            break;
        }
        case 10: {  // odd cycles (of odd cycles) tied to two far arms: blossoms that form, get matched, shrink and shatter
            i64 unit = g.chance(1, 2) ? 1 : 1 + (i64)g.choice(5000);
            auto put = [&](int a, int b, i64 w) {
                add(a, b);
                planned.emplace(std::minmax(a, b), std::min<i64>(MAXW, w * unit));
            };
            int gadgets = large ? 1 + (int)g.choice(8) : 1 + (int)(mx > 20 ? g.choice(2) : 0), last = -1;
            for (int q = 0; q < gadgets && r.n + 5 <= mx; q++) {
                int room = std::min(mx - r.n - 2, 40), len = 3 + 2 * (int)g.choice(std::min(7, (room - 1) / 2));
                if (len > room) len = 3;
                bool nest = len >= 3 && room >= len + 2 && g.chance(1, 2);
                i64 s = 1 + (i64)g.choice(3);
                std::vector<std::vector<int>> cl(len);
                int left = room - len;
                for (auto &c : cl) {
                    int k = nest && left >= 2 && g.chance(1, 2) ? 3 + 2 * (int)(left >= 4 ? g.choice(2) : 0) : 1;
                    left -= k - 1;
                    for (int i = 0; i < k; i++) c.push_back(r.n++);
                    if (k > 1) for (int i = 0; i < k; i++) put(c[i], c[(i + 1) % k], s + (i64)(g.chance(1, 3) ? g.choice(2) : 0));
                }
                i64 d = nest ? s + 1 + (i64)g.choice(4) : s;
                for (int i = 0; i < len; i++) {
                    auto &a = cl[i], &b = cl[(i + 1) % len];
                    put(a[g.choice(a.size())], b[g.choice(b.size())], d + (i64)(g.chance(1, 3) ? g.choice(2) : 0));
                }
                int arms = 2 + (int)g.choice(2);
                for (int i = 0; i < arms && r.n < mx; i++) {
                    auto &a = cl[g.choice(len)];
                    int x = r.n++;
                    put(x, a[g.choice(a.size())], d + 1 + (i64)g.choice(12) + (i ? (i64)g.choice(12) : 0));
                    preferred_boundary.push_back(x);
                }
                if (last >= 0) put(last, cl[g.choice(len)][0], d + 5 + (i64)g.choice(30));
                last = r.n - 1;
            }
            break;
        }
        default: {  // star / wheel / several hubs
            r.n = (int)g.range(2, mx);
            bool wheel = g.chance(1, 2);
            int hubs = 1 + (int)g.choice(2);
            for (int i = hubs; i < r.n; i++) add(i, (int)g.choice(hubs));
            if (wheel) for (int i = hubs; i < r.n; i++) add(i, i + 1 < r.n ? i + 1 : hubs);
            break;
        }
    }
    if (!large && (int)pairs.size() > o.max_edges) pairs.resize(o.max_edges);
    int wm = o.weight_mode >= 0 ? o.weight_mode : gen_weight_mode(g);
    for (auto &p : pairs) {
        bool sw = g.chance(1, 4);
        i64 w = gen_weight(g, wm);
        auto pl = planned.find(std::minmax(p.first, p.second));
        if (pl != planned.end() && o.weight_mode < 0) w = pl->second;
        r.edges.push_back({sw ? p.second : p.first, sw ? p.first : p.second, w, {}});
    }
    // Boundary edges.
    if (o.allow_boundary) {
        int mode = (int)g.weighted({2, 4, 2, 2});  // none, virtual, nodes, both
        if (!o.allow_boundary_nodes && mode >= 2) mode = 1;
        if (mode) {
            std::set<int> at;
            if (!preferred_boundary.empty() && g.chance(2, 3)) {
                bool all = g.chance(2, 3);
                for (int x : preferred_boundary) if (all || g.chance(1, 2)) at.insert(x);
            } else {
                int k = (int)g.range(1, std::max(1, r.n / 2));
                for (int i = 0; i < k; i++) at.insert((int)g.choice(r.n));
            }
            int n0 = r.n, nb = 0;
            std::vector<int> bn;
            if (mode >= 2) {
                nb = 1 + (int)g.choice(2);
                for (int k = 0; k < nb; k++) { bn.push_back(r.n); r.boundary.insert(r.n++); }
                if (nb == 2 && g.chance(1, 2)) r.edges.push_back({bn[0], bn[1], gen_weight(g, wm), {}});
            }
            for (int x : at) {
                if (x >= n0) continue;
                int style = mode == 1 ? 0 : mode == 2 ? 1 : (int)g.choice(2);
                if (style == 0) r.edges.push_back({x, -1, gen_weight(g, wm), {}});
                else {
                    int b = bn[g.choice(bn.size())];
                    if (g.chance(1, 3)) r.edges.push_back({b, x, gen_weight(g, wm), {}});
                    else r.edges.push_back({x, b, gen_weight(g, wm), {}});
                }
                if (o.parallel_boundary && mode >= 2 && g.chance(1, 3)) {
                    if (style == 0) r.edges.push_back({x, bn[0], gen_weight(g, wm), {}});
                    else r.edges.push_back({x, -1, gen_weight(g, wm), {}});
                }
            }
            // Existing nodes can also be declared boundary.
            if (mode == 3 && g.chance(1, 4)) r.boundary.insert((int)g.choice(n0));
            if (r.boundary.size() && g.chance(1, 3)) {  // relabel so that boundary nodes are not last
                std::vector<int> perm(r.n);
                for (int i = 0; i < r.n; i++) perm[i] = i;
                g.shuffle(perm);
                for (auto &e : r.edges) { e.u = perm[e.u]; if (e.v >= 0) e.v = perm[e.v]; }
                std::set<int> nbs;
                for (auto b : r.boundary) nbs.insert(perm[b]);
                r.boundary = nbs;
            }
        }
    }
    if (o.self_loops && g.chance(1, 4)) {
        int x = (int)g.choice(r.n);
        r.edges.push_back({x, x, gen_weight(g, wm), {}});
    }
    if (o.negative) {
        int dens = (int)g.choice(4);
        if (large) {
            for (auto &e : r.edges) if (g.chance(1, dens < 2 ? 40 : 12)) e.w = -e.w;
        } else for (auto &e : r.edges)
            if (dens == 3 || g.chance(1, dens == 0 ? 8 : dens == 1 ? 4 : 2)) e.w = -e.w;
    }
    if (!large && (int)r.edges.size() > o.max_edges) r.edges.resize(o.max_edges);
    if (r.n == 0) r.n = 1;
    // Observables.
    if (o.obs == OBS_UNIQUE && r.edges.size() > o.max_obs && large) {
        // Ids on a sample of the edges only.
        size_t at = g.choice(r.edges.size()), stride = g.chance(1, 2) ? 1 : r.edges.size() / o.max_obs;
        std::vector<size_t> ids(o.max_obs);
        for (size_t i = 0; i < ids.size(); i++) ids[i] = i;
        if (g.chance(1, 2)) g.shuffle(ids);
        for (size_t i = 0; i < ids.size(); i++) r.edges[(at + i * stride) % r.edges.size()].obs = {ids[i]};
    } else if (o.obs == OBS_UNIQUE) {
        if (r.edges.size() > o.max_obs) r.edges.resize(o.max_obs);
        std::vector<size_t> ids(r.edges.size());
        for (size_t i = 0; i < ids.size(); i++) ids[i] = i;
        if (g.chance(1, 2)) {  // spread ids over the whole range
            size_t top = o.max_obs;
            if (ids.size() && top > ids.size()) {
                size_t shift = top - ids.size();
                size_t cut = (size_t)g.choice(ids.size() + 1);
                for (size_t i = cut; i < ids.size(); i++) ids[i] += shift;
            }
            g.shuffle(ids);
        }
        for (size_t i = 0; i < r.edges.size(); i++) r.edges[i].obs = {ids[i]};
    } else if (o.obs == OBS_SHARED) {
        size_t pool = 1 + g.choice(4);
        bool many = g.chance(1, 40);  // long id lists
        if (many) pool = std::min<size_t>(o.max_obs, 5 + g.choice(120));
        std::vector<size_t> ids;
        for (size_t i = 0; i < pool; i++) ids.push_back(g.chance(1, 2) ? i : g.chance(1, 3) ? o.max_obs - 1 : g.choice(o.max_obs));
        if (many && r.edges.size() > 60) many = false, ids.resize(3);
        for (auto &e : r.edges)
            for (auto id : ids)
                if (g.chance(many ? 2 : 1, 3) && std::find(e.obs.begin(), e.obs.end(), id) == e.obs.end()) e.obs.push_back(id);
    }
    return r;
}

std::vector<uint64_t> gen_feasible_syndrome(pbt::Gen &g, const Graph &gr, int max_k) {
    std::vector<bool> hb;
    auto comp = components(gr, hb);
    std::vector<char> on(gr.n, 0);
    std::vector<int> cand;
    for (int i = 0; i < gr.n; i++) if (!gr.boundary.count(i)) cand.push_back(i);
    if (cand.empty()) return {};
    int k = 0;
    size_t style;
    if (gr.n >= 500) style = 4;
    else {
        style = g.weighted({4, 2, 2, 2});
        if (gr.n > 90 && g.chance(1, 2)) max_k = std::max(max_k, g.chance(1, 6) ? 160 : 70);
    }
    switch (style) {
        case 0: {  // a few
            int t = (int)g.range(0, std::min<int>(max_k, 6));
            for (int i = 0; i < t; i++) { int x = cand[g.choice(cand.size())]; if (!on[x]) { on[x] = 1; k++; } }
            break;
        }
        case 4: {  // a few, near container borders
            int t = (int)g.range(0, 6);
            for (int i = 0; i < t; i++) {
                static const int64_t mark[] = {0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 65537, -1, -2};
                int64_t x = g.chance(1, 2) ? (int64_t)g.choice(gr.n) : mark[g.choice(13)];
                if (x < 0) x += gr.n;
                if (x < gr.n && !gr.boundary.count((int)x)) on[x] = 1;
            }
            break;
        }
        case 1: {  // dense
            for (int x : cand) if (k < max_k && g.chance(1, 2)) { on[x] = 1; k++; }
            break;
        }
        case 2: {  // everything (up to the limit)
            bool all = g.chance(1, 2);
            for (int x : cand) if (k < max_k && (all || g.chance(7, 8))) { on[x] = 1; k++; }
            break;
        }
        default: {  // from an error
            int d = 2 + (int)g.choice(6);
            for (auto &e : gr.edges)
                if (g.chance(1, d)) {
                    if (!gr.is_b(e.u)) on[e.u] ^= 1;
                    if (!gr.is_b(e.v)) on[e.v] ^= 1;
                }
            k = 0;
            for (int x : cand) if (on[x] && ++k > max_k) on[x] = 0;
        }
    }
    // Repair the parity of components without boundary.
    std::vector<int> par(gr.n, 0), rep(gr.n, -1);
    for (int x : cand) { par[comp[x]] ^= on[x]; if (on[x]) rep[comp[x]] = x; }
    for (int c = 0; c < gr.n; c++) if (par[c] && !hb[c]) on[rep[c]] = 0;
    std::vector<uint64_t> r;
    for (int x : cand) if (on[x]) r.push_back(x);
    return r;
}

}  // namespace ref
