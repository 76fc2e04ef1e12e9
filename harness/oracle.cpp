#include "oracle.h"
#include <algorithm>
#include <map>
#include <queue>
#include <functional>
extern "C" void symx_host(int on);
struct Host { Host() { symx_host(1); } ~Host() { symx_host(0); } };
typedef std::pair<int, std::vector<std::pair<int, int>>> Key;
static int find(std::vector<int> &p, int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
int orc_components(const GSpec &g) {
    Host h; std::vector<int> p(g.n); for (int i = 0; i < g.n; i++) p[i] = i;
    int c = g.n; for (auto &e : g.e) { int a = find(p, e.first), b = find(p, e.second); if (a != b) { p[a] = b; c--; } } return c;
}
bool orc_forest(const GSpec &g, mask_t m) {
    Host h; std::vector<int> p(g.n); for (int i = 0; i < g.n; i++) p[i] = i;
    for (size_t i = 0; i < g.e.size(); i++) if (m >> i & 1) { int a = find(p, g.e[i].first), b = find(p, g.e[i].second); if (a == b) return false; p[a] = b; }
    return true;
}
bool orc_acyclic_without(const GSpec &g, const std::vector<bool> &rem) {
    Host h; std::vector<int> p(g.n); for (int i = 0; i < g.n; i++) p[i] = i;
    for (auto &e : g.e) { if (rem[e.first] || rem[e.second]) continue; int a = find(p, e.first), b = find(p, e.second); if (a == b) return false; p[a] = b; }
    return true;
}
bool orc_simple_cycle(const GSpec &g, mask_t c) {
    Host h; if (!c) return false;
    std::vector<int> d(g.n, 0), p(g.n); for (int i = 0; i < g.n; i++) p[i] = i;
    int ne = 0, nv = 0, joins = 0;
    for (size_t i = 0; i < g.e.size(); i++) if (c >> i & 1) { ne++; d[g.e[i].first]++; d[g.e[i].second]++; int a = find(p, g.e[i].first), b = find(p, g.e[i].second); if (a != b) { p[a] = b; joins++; } }
    for (int x : d) { if (x == 0) continue; if (x != 2) return false; nv++; }
    return nv == ne && joins == nv - 1;
}
int orc_rank(const std::vector<mask_t> &v) {
    Host h; std::vector<mask_t> b; 
    for (mask_t x : v) { for (mask_t y : b) x = std::min(x, x ^ y); if (x) b.push_back(x); }
    return b.size();
}
bool orc_represent(const std::vector<mask_t> &basis, mask_t c, mask_t &coef) {
    Host h; std::vector<std::pair<mask_t, mask_t>> b;
    for (size_t i = 0; i < basis.size(); i++) { mask_t x = basis[i], k = 1ull << i; for (auto &y : b) if ((x ^ y.first) < x) { x ^= y.first; k ^= y.second; } if (x) b.push_back({x, k}); }
    coef = 0; for (auto &y : b) if ((c ^ y.first) < c) { c ^= y.first; coef ^= y.second; }
    return c == 0;
}
static std::map<Key, std::vector<mask_t>> *ccache;
static std::map<std::pair<Key, std::pair<int, int>>, std::vector<mask_t>> *pcache;
const std::vector<mask_t> &orc_paths(const GSpec &g, int u, int v) {
    Host h; if (!pcache) pcache = new std::map<std::pair<Key, std::pair<int, int>>, std::vector<mask_t>>;
    std::pair<Key, std::pair<int, int>> key(Key(g.n, g.e), {u, v});
    auto it = pcache->find(key); if (it != pcache->end()) return it->second;
    std::vector<mask_t> &r = (*pcache)[key];
    std::function<void(int, unsigned, mask_t)> rec = [&](int x, unsigned seen, mask_t m) {
        if (x == v) { r.push_back(m); return; }
        for (size_t i = 0; i < g.e.size(); i++) { int y = g.e[i].first == x ? g.e[i].second : g.e[i].second == x ? g.e[i].first : -1; if (y < 0 || (seen >> y & 1)) continue; rec(y, seen | 1u << y, m | 1ull << i); }
    };
    rec(u, 1u << u, 0);
    return r;
}
const std::vector<mask_t> &orc_cycles(const GSpec &g) {
    Host h; if (!ccache) ccache = new std::map<Key, std::vector<mask_t>>;
    Key key(g.n, g.e);
    auto it = ccache->find(key); if (it != ccache->end()) return it->second;
    std::vector<mask_t> &r = (*ccache)[key];
    for (size_t i = 0; i < g.e.size(); i++) {   // cycles whose smallest edge is i
        int s = g.e[i].first, t = g.e[i].second;
        std::function<void(int, unsigned, mask_t)> rec = [&](int x, unsigned seen, mask_t m) {
            if (x == t) { r.push_back(m | 1ull << i); return; }
            for (size_t j = i + 1; j < g.e.size(); j++) { int y = g.e[j].first == x ? g.e[j].second : g.e[j].second == x ? g.e[j].first : -1; if (y < 0 || (seen >> y & 1)) continue; rec(y, seen | 1u << y, m | 1ull << j); }
        };
        rec(s, 1u << s, 0);
    }
    std::sort(r.begin(), r.end());
    return r;
}
int orc_hops(const GSpec &g, mask_t m, int u, int v) {
    Host h; std::vector<int> d(g.n, -1); std::queue<int> q; q.push(u); d[u] = 0;
    while (!q.empty()) { int x = q.front(); q.pop(); for (size_t i = 0; i < g.e.size(); i++) if (m >> i & 1) { int y = g.e[i].first == x ? g.e[i].second : g.e[i].second == x ? g.e[i].first : -1; if (y >= 0 && d[y] < 0) { d[y] = d[x] + 1; q.push(y); } } }
    return d[v];
}
int orc_girth(const GSpec &g, mask_t m) {
    int best = 0;
    for (size_t i = 0; i < g.e.size(); i++) if (m >> i & 1) { int h = orc_hops(g, m & ~(1ull << i), g.e[i].first, g.e[i].second); if (h >= 0 && (best == 0 || h + 1 < best)) best = h + 1; }
    return best;
}
// graphs with any number of edges ---------------------------------------------
typedef std::vector<unsigned long long> Bits;
bool orc_big_simple(const GSpec &g, const std::vector<int> &c) {
    Host h; if (c.empty()) return false;
    std::vector<int> d(g.n, 0), p(g.n); std::vector<char> used(g.e.size(), 0); for (int i = 0; i < g.n; i++) p[i] = i;
    int nv = 0, joins = 0;
    for (int i : c) { if (i < 0 || used[i]) return false; used[i] = 1; d[g.e[i].first]++; d[g.e[i].second]++; int a = find(p, g.e[i].first), b = find(p, g.e[i].second); if (a != b) { p[a] = b; joins++; } }
    for (int x : d) { if (x == 0) continue; if (x != 2) return false; nv++; }
    return nv == (int)c.size() && joins == nv - 1;
}
int orc_big_rank(const GSpec &g, const std::vector<std::vector<int>> &v) {
    Host h; size_t W = (g.e.size() + 63) / 64; std::vector<std::pair<int, Bits>> b; int r = 0;
    for (auto &c : v) {
        Bits x(W, 0); for (int i : c) x[i / 64] ^= 1ull << i % 64;
        for (auto &y : b) if (x[y.first / 64] >> y.first % 64 & 1) for (size_t i = 0; i < W; i++) x[i] ^= y.second[i];
        for (size_t i = 0; i < g.e.size(); i++) if (x[i / 64] >> i % 64 & 1) { b.push_back({(int)i, x}); r++; break; }
    }
    return r;
}
// an optimum basis by support vectors: the lightest cycle with odd intersection, by shortest paths between the two copies of a vertex
static void big_mcb(const GSpec &g, const std::vector<int64_t> &w, std::vector<int> &mult);
void orc_big_mcb(const GSpec &g, const std::vector<int64_t> &w0, std::vector<int> &mult) {
    Host h; static std::map<std::pair<Key, std::vector<int64_t>>, std::vector<int>> *cache;   // the optimum does not depend on the scale
    if (!cache || cache->size() > 2000) { delete cache; cache = new std::map<std::pair<Key, std::vector<int64_t>>, std::vector<int>>; }
    std::vector<int64_t> w = w0; int64_t q = 0; for (int64_t x : w) { while (x) { int64_t t = q % x; q = x; x = t; } } if (q > 1) for (auto &x : w) x /= q;
    std::pair<Key, std::vector<int64_t>> key(Key(g.n, g.e), w);
    auto it = cache->find(key); if (it != cache->end()) { mult = it->second; return; }
    big_mcb(g, w, mult); (*cache)[key] = mult;
}
static void big_mcb(const GSpec &g, const std::vector<int64_t> &w, std::vector<int> &mult) {
    Host h; int n = g.n, m = g.e.size(); mult.assign(m, 0);
    std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    std::vector<std::vector<char>> S;   // support vectors: initially the single edges outside a spanning forest
    for (int i = 0; i < m; i++) { int a = find(p, g.e[i].first), b = find(p, g.e[i].second); if (a != b) p[a] = b; else { S.push_back(std::vector<char>(m, 0)); S.back()[i] = 1; } }
    std::vector<std::vector<std::pair<int, int>>> adj(n);
    for (int i = 0; i < m; i++) { adj[g.e[i].first].push_back({g.e[i].second, i}); adj[g.e[i].second].push_back({g.e[i].first, i}); }
    const int64_t INF = INT64_MAX / 4;
    for (size_t i = 0; i < S.size(); i++) {
        // every odd cycle passes a vertex of this cover of the support
        std::vector<char> cov(n, 0); std::vector<int> src;
        for (int e = 0; e < m; e++) if (S[i][e] && !cov[g.e[e].first] && !cov[g.e[e].second]) { int a = g.e[e].first, b = g.e[e].second, da = 0, db = 0; for (auto &x : adj[a]) da += S[i][x.second]; for (auto &x : adj[b]) db += S[i][x.second]; if (db > da) std::swap(a, b); cov[a] = 1; src.push_back(a); }
        int64_t best = INF; std::vector<int> bc;
        for (int s : src) {
            std::vector<int64_t> d(2 * n, INF); std::vector<int> pe(2 * n, -1), pv(2 * n, -1); std::vector<char> done(2 * n, 0);
            std::priority_queue<std::pair<int64_t, int>, std::vector<std::pair<int64_t, int>>, std::greater<std::pair<int64_t, int>>> q;
            d[s] = 0; q.push({0, s});
            while (!q.empty()) {
                int x = q.top().second; int64_t dx = q.top().first; q.pop(); if (done[x]) continue; done[x] = 1;
                if (dx >= best || x == s + n) break;
                int side = x >= n, v = x - side * n;
                for (auto &a : adj[v]) { int y = a.first + (side ^ S[i][a.second] ? n : 0); if (dx + w[a.second] < d[y]) { d[y] = dx + w[a.second]; pe[y] = a.second; pv[y] = x; q.push({d[y], y}); } }
            }
            if (d[s + n] < best) {
                best = d[s + n]; std::vector<char> par(m, 0);
                for (int x = s + n; x != s; x = pv[x]) par[pe[x]] ^= 1;
                bc.clear(); for (int e = 0; e < m; e++) if (par[e]) bc.push_back(e);
            }
        }
        for (int e : bc) mult[e]++;
        for (size_t j = i + 1; j < S.size(); j++) { int o = 0; for (int e : bc) o ^= S[j][e]; if (o) for (int e = 0; e < m; e++) S[j][e] ^= S[i][e]; }
    }
}
std::vector<int> orc_big_independent(const GSpec &g, const std::vector<std::vector<int>> &v) {
    Host h; size_t W = (g.e.size() + 63) / 64; std::vector<std::pair<int, Bits>> b; std::vector<int> r;
    for (size_t k = 0; k < v.size(); k++) {
        Bits x(W, 0); for (int i : v[k]) x[i / 64] ^= 1ull << i % 64;
        for (auto &y : b) if (x[y.first / 64] >> y.first % 64 & 1) for (size_t i = 0; i < W; i++) x[i] ^= y.second[i];
        for (size_t i = 0; i < g.e.size(); i++) if (x[i / 64] >> i % 64 & 1) { b.push_back({(int)i, x}); r.push_back(k); break; }
    }
    return r;
}
int orc_big_hops(const GSpec &g, const std::vector<char> &in, int u, int v, int limit) {
    Host h; std::vector<std::vector<int>> adj(g.n); for (size_t i = 0; i < g.e.size(); i++) if (in[i]) { adj[g.e[i].first].push_back(g.e[i].second); adj[g.e[i].second].push_back(g.e[i].first); }
    std::vector<int> d(g.n, -1); std::queue<int> q; q.push(u); d[u] = 0;
    while (!q.empty()) { int x = q.front(); q.pop(); if (limit > 0 && d[x] >= limit) continue; for (int y : adj[x]) if (d[y] < 0) { d[y] = d[x] + 1; q.push(y); } }
    return d[v];
}
