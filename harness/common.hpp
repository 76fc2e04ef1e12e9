#ifndef COMMON_HPP
#define COMMON_HPP
#include "../engine/symx.h"
#include "oracle.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <string>
#include <map>
#include <vector>
#include <list>
#include <set>
#include <iostream>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>

typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, double>> Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::graph_traits<Graph>::vertex_descriptor Vertex;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WeightMap;

struct Cfg {
    std::map<std::string, std::string> m;
    Cfg(const char *s) {
        std::string t(s);
        size_t i = 0;
        while (i < t.size()) {
            size_t j = t.find(' ', i); if (j == std::string::npos) j = t.size();
            std::string w = t.substr(i, j - i); i = j + 1;
            size_t q = w.find('='); if (q != std::string::npos) m[w.substr(0, q)] = w.substr(q + 1);
        }
    }
    std::string s(const char *k, const char *d = "") const { auto it = m.find(k); return it == m.end() ? std::string(d) : it->second; }
    int i(const char *k, int d = 0) const { auto it = m.find(k); return it == m.end() ? d : atoi(it->second.c_str()); }
    // the parameter k of the approximation: any size_t
    std::size_t k(int d = 0) const { auto it = m.find("k"); return it == m.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
    bool has(const char *k) const { return m.count(k); }
};
static inline std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; size_t i = 0;
    while (i <= s.size() && s.size()) { size_t j = s.find(c, i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; }
    return r;
}
// graph families ---------------------------------------------------------------
static inline GSpec named_graph(const std::string &name) {
    GSpec g;
    auto E = [&](int a, int b) { g.e.push_back({a, b}); };
    if (name[0] == 'K' && name.size() == 2) { g.n = name[1] - '0'; for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) E(i, j); }
    else if (name == "K33") { g.n = 6; for (int i = 0; i < 3; i++) for (int j = 3; j < 6; j++) E(i, j); }
    else if (name == "K23") { g.n = 5; for (int i = 0; i < 2; i++) for (int j = 2; j < 5; j++) E(i, j); }
    else if (name == "K24") { g.n = 6; for (int i = 0; i < 2; i++) for (int j = 2; j < 6; j++) E(i, j); }
    else if (name == "K5e") { g = named_graph("K5"); g.e.pop_back(); }
    else if (name[0] == 'C') { g.n = atoi(name.c_str() + 1); for (int i = 0; i < g.n; i++) E(i, (i + 1) % g.n); }
    else if (name[0] == 'P' && name[1] >= '0' && name[1] <= '9') { g.n = atoi(name.c_str() + 1); for (int i = 0; i + 1 < g.n; i++) E(i, i + 1); }
    else if (name[0] == 'W') { int k = atoi(name.c_str() + 1); g.n = k + 1; for (int i = 1; i <= k; i++) E(0, i); for (int i = 1; i <= k; i++) E(i, i % k + 1); }
    else if (name == "petersen") { g.n = 10; for (int i = 0; i < 5; i++) { E(i, (i + 1) % 5); E(i, i + 5); E(i + 5, (i + 2) % 5 + 5); } }
    else if (name == "cube") { g.n = 8; for (int i = 0; i < 8; i++) for (int b = 1; b < 8; b <<= 1) if (!(i & b)) E(i, i | b); }
    else if (name == "grid33") { g.n = 9; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { if (c < 2) E(3 * r + c, 3 * r + c + 1); if (r < 2) E(3 * r + c, 3 * r + c + 3); } }
    else if (name == "grid23") { g.n = 6; for (int r = 0; r < 2; r++) for (int c = 0; c < 3; c++) { if (c < 2) E(3 * r + c, 3 * r + c + 1); if (r < 1) E(3 * r + c, 3 * r + c + 3); } }
    else if (name == "prism") { g.n = 6; for (int i = 0; i < 3; i++) { E(i, (i + 1) % 3); E(i + 3, (i + 1) % 3 + 3); E(i, i + 3); } }
    else if (name == "house") { g.n = 5; E(0, 1); E(1, 2); E(2, 3); E(3, 0); E(2, 4); E(3, 4); }
    else if (name == "bowtie") { g.n = 5; E(0, 1); E(1, 2); E(2, 0); E(2, 3); E(3, 4); E(4, 2); }
    else if (name == "theta") { g.n = 6; E(0, 1); E(1, 5); E(0, 2); E(2, 5); E(0, 3); E(3, 4); E(4, 5); }
    else if (name == "theta5") { g.n = 5; E(0, 1); E(1, 4); E(0, 2); E(2, 4); E(0, 3); E(3, 4); }
    else if (name == "2K3") { g.n = 7; E(0, 1); E(1, 2); E(0, 2); E(4, 5); E(5, 6); E(4, 6); }
    else if (name == "2C4d") { g.n = 8; E(0, 1); E(1, 2); E(2, 3); E(3, 0); E(0, 2); E(4, 5); E(5, 6); E(6, 7); E(7, 4); E(5, 7); }
    else if (name == "K4p") { g.n = 6; E(4, 1); E(0, 1); E(0, 2); E(0, 3); E(1, 2); E(1, 3); E(2, 3); E(4, 5); }
    else if (name == "K4K3") { g.n = 7; E(0, 1); E(0, 2); E(0, 3); E(1, 2); E(1, 3); E(2, 3); E(3, 4); E(4, 5); E(5, 6); E(4, 6); }
    else if (name == "mobius") { g.n = 8; for (int i = 0; i < 8; i++) E(i, (i + 1) % 8); for (int i = 0; i < 4; i++) E(i, i + 4); }
    else if (name == "C6d") { g = named_graph("C6"); g.e.push_back({0, 3}); g.e.push_back({1, 4}); }
    else if (name.compare(0, 4, "hub:") == 0) { int k = atoi(name.c_str() + 4); g.n = k + 1; for (int i = 1; i <= k; i++) E(0, i); for (int i = 1; i <= k; i++) for (int j = i + 1; j <= k; j++) E(i, j); }   // complete graph, the edges of vertex 0 first
    else if (name.compare(0, 4, "bip:") == 0) { int k = atoi(name.c_str() + 4); g.n = 2 * k; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) E(i, k + j); }
    else if (name == "one") { g.n = 1; }
    else if (name == "empty") { g.n = 0; }
    else if (name.compare(0, 2, "e:") == 0) {
        for (auto &t : split(name.substr(2), ',')) { if (t[0] == 'n') { g.n = std::max(g.n, atoi(t.c_str() + 1)); continue; } int a = atoi(t.c_str()), b = atoi(t.c_str() + t.find('-') + 1); E(a, b); g.n = std::max(g.n, std::max(a, b) + 1); }
    } else { fprintf(stderr, "unknown graph %s\n", name.c_str()); _Exit(71); }
    return g;
}
static inline unsigned xs(unsigned &x) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; }
// g=all:n : every topology on n labelled vertices;  g=<name>;  perm=<seed> shuffles vertex numbers, edge order and endpoints
static inline GSpec make_graph(const Cfg &c) {
    std::string gs = c.s("g", "K4");
    GSpec g;
    if (gs.compare(0, 4, "all:") == 0) {
        g.n = atoi(gs.c_str() + 4);
        for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) if (symx_choice("edge", 2)) g.e.push_back({i, j});
    } else if (gs.compare(0, 4, "sub:") == 0) {   // every subgraph of a named graph
        GSpec h = named_graph(gs.substr(4)); g.n = h.n;
        for (auto &e : h.e) if (symx_choice("edge", 2)) g.e.push_back(e);
    } else if (gs.compare(0, 4, "sym:") == 0) {   // sym:n:m[:f]  m edges with symbolic endpoints; f: any insertion order and orientation
        std::vector<std::string> t = split(gs, ':');
        g.n = atoi(t[1].c_str()); int m = atoi(t[2].c_str()); bool free_order = t.size() > 3;
        std::vector<std::pair<int, int>> pairs;
        for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) pairs.push_back({i, j});
        if (m > (int)pairs.size()) m = pairs.size();
        int prev = -1;
        for (int i = 0; i < m; i++) {
            if (free_order) {
                int id = (int)symx_split(symx_int("edge", 0, 2 * (int64_t)pairs.size() - 1));
                std::pair<int, int> e = pairs[id / 2]; pairs.erase(pairs.begin() + id / 2);
                if (id & 1) std::swap(e.first, e.second);
                g.e.push_back(e);
            } else { prev = (int)symx_split(symx_int("edge", prev + 1, (int)pairs.size() - (m - i))); g.e.push_back(pairs[prev]); }
        }
    } else g = named_graph(gs);
    int p = c.i("perm");
    if (p) {
        unsigned x = 2463534242u + p * 7919u;
        std::vector<int> pi(g.n); for (int i = 0; i < g.n; i++) pi[i] = i;
        for (int i = g.n - 1; i > 0; i--) std::swap(pi[i], pi[xs(x) % (i + 1)]);
        for (int i = (int)g.e.size() - 1; i > 0; i--) std::swap(g.e[i], g.e[xs(x) % (i + 1)]);
        for (auto &e : g.e) { e.first = pi[e.first]; e.second = pi[e.second]; if (xs(x) & 1) std::swap(e.first, e.second); }
    }
    return g;
}
// larger families: rnd:n:m:seed (connected if m >= n-1), torus:r:c, ladder:n, cliques:k:s (k cliques of size s in a ring)
static inline GSpec big_graph(const Cfg &c) {
    std::string gs = c.s("g", "K4"); std::vector<std::string> t = split(gs, ':');
    auto I = [&](size_t i) { return i < t.size() ? atoi(t[i].c_str()) : 0; };
    GSpec g; std::set<std::pair<int, int>> seen;
    auto E = [&](int a, int b) { if (a == b || !seen.insert({std::min(a, b), std::max(a, b)}).second) return; g.e.push_back({a, b}); };
    if (t[0] == "rnd") { g.n = I(1); unsigned x = 1234567u + 7919u * I(3); for (int i = 1; i < g.n; i++) E(i, xs(x) % i); while ((int)g.e.size() < I(2)) { int a = xs(x) % g.n, b = xs(x) % g.n; E(a, b); } }
    else if (t[0] == "torus") { int r = I(1), q = I(2); g.n = r * q; for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { E(i * q + j, i * q + (j + 1) % q); E(i * q + j, (i + 1) % r * q + j); } }
    else if (t[0] == "ladder") { int k = I(1); g.n = 2 * k; for (int i = 0; i < k; i++) { E(i, i + k); if (i + 1 < k) { E(i, i + 1); E(i + k, i + k + 1); } } }
    else if (t[0] == "cliques") { int k = I(1), s = I(2); g.n = k * s; for (int i = 0; i < k; i++) { for (int a = 0; a < s; a++) for (int b = a + 1; b < s; b++) E(i * s + a, i * s + b); E(i * s, (i + 1) % k * s + 1); } }
    else if (t[0] == "hyper") { int d = I(1); g.n = 1 << d; for (int i = 0; i < g.n; i++) for (int b = 1; b < g.n; b <<= 1) if (!(i & b)) E(i, i | b); }
    else if (t[0] == "hubs") {   // hubs:s:l  hubs a-b, s vertices on each side joined to their hub, all cross pairs joined by an edge and by a path of l edges
        int q = I(1), l = I(2); g.n = 2 + 2 * q; E(0, 1);
        for (int i = 0; i < q; i++) { E(0, 2 + i); E(1, 2 + q + i); }
        for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) E(2 + i, 2 + q + j);
        for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) { int x = 2 + i; for (int z = 1; z < l; z++) { E(x, g.n); x = g.n++; } E(x, 2 + q + j); }
    }
    else if (t[0] == "wheel") { int k = I(1); g.n = k + 1; for (int i = 0; i < k; i++) { E(0, i + 1); E(i + 1, (i + 1) % k + 1); } }
    else if (t[0] == "star") { int k = I(1), q = I(2); g.n = k + 1; for (int i = 0; i < k; i++) E(0, i + 1); for (int i = 0; i + 1 < q; i++) E(i + 1, i + 2); }     // the first q leaves joined in a row
    else if (t[0] == "tri") { int k = I(1), iso = I(2); g.n = 3 * k + iso; for (int i = 0; i < k; i++) { int a = i * (g.n / k); E(a, a + 1); E(a + 1, a + 2); E(a, a + 2); } }   // triangles among isolated vertices
    else if (t[0] == "fan") { int k = I(1), z = I(2); g.n = 2 + k + z; for (int i = 0; i < k; i++) { E(0, 2 + i); E(1, 2 + i); } int u = 1; for (int i = 0; i < z; i++) { E(u, 2 + k + i); u = 2 + k + i; } }   // K2,k with a tail
    else return make_graph(c);
    // pad=k: k isolated vertices in front, pend=k: k pendant vertices in front (at vertex 0), padend=k: k isolated vertices at the end
    int pf = c.i("pad") + c.i("pend");
    if (pf) { for (auto &e : g.e) { e.first += pf; e.second += pf; } g.n += pf; seen.clear(); for (int i = c.i("pad"); i < pf; i++) E(i, pf); }
    g.n += c.i("padend");
    if (c.i("perm")) {
        unsigned x = 2463534242u + c.i("perm") * 7919u;
        std::vector<int> pi(g.n); for (int i = 0; i < g.n; i++) pi[i] = i;
        for (int i = g.n - 1; i > 0; i--) std::swap(pi[i], pi[xs(x) % (i + 1)]);
        if (c.s("w")[0] != 'p') for (int i = (int)g.e.size() - 1; i > 0; i--) std::swap(g.e[i], g.e[xs(x) % (i + 1)]);
        for (auto &e : g.e) { e.first = pi[e.first]; e.second = pi[e.second]; if (xs(x) & 1) std::swap(e.first, e.second); }
    }
    return g;
}
// tog=k: k of the edges may be missing
static inline void optional_edges(const Cfg &c, GSpec &g) {
    int k = c.i("tog"); unsigned x = 362436069u + 7919u * c.i("ws", 1);
    for (int i = 0; i < 9; i++) xs(x);
    std::vector<char> drop(g.e.size(), 0);
    std::vector<int> ord(g.e.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[xs(x) % (i + 1)]);
    for (int i = 0; i < k && i < (int)ord.size(); i++) drop[ord[i]] = (char)symx_split(symx_int("edge", 0, 1));
    std::vector<std::pair<int, int>> e; for (size_t i = 0; i < g.e.size(); i++) if (!drop[i]) e.push_back(g.e[i]);
    g.e = e;
}
static const double WMAX = 1073741824.0;
// w=r            every weight an arbitrary positive real
// w=r:k          k of them symbolic (spread by the seed ws=), the others small integer multiples of a symbolic unit
// w=i:lo:hi      every weight an arbitrary integer in [lo,hi] (ties)
// w=i:lo:hi:k    k of them symbolic
// w=1            unit weights
// w=c:<letters>  one arbitrary positive real per letter; edge i has the letter number i modulo the length; w=h:k  the first k edges a, the others b
// w=p:<k1><l1>,<k2><l2>,...  the first k1 edges have the weight l1, the next k2 l2 ...: a letter is a symbolic weight, a letter with a number after it a multiple of the first letter (e.g. p:19a,81a2,324b)
static inline std::vector<double> make_weights(const Cfg &c, size_t m) {
    std::vector<std::string> p = split(c.s("w", "r"), ':');
    if (p[0] == "p") {
        std::map<char, double> cls; std::vector<double> w;
        for (auto &t : split(p[1], ',')) {
            char *q; int k = strtol(t.c_str(), &q, 10); char l = *q++; double f = *q ? atof(q) : 1;
            if (!cls.count(l)) cls[l] = symx_real("w", c.i("lo", 1), c.i("hi", 65536));
            for (int i = 0; i < k && w.size() < m; i++) w.push_back(f * cls[l]);
        }
        if (w.empty()) w.push_back(1.0);
        while (w.size() < m) w.push_back(w.back());
        return w;
    }
    unsigned x = 88172645u + 7919u * c.i("ws", 1);
    std::vector<double> w(m);
    if (p[0] == "c" || p[0] == "h") {
        std::map<char, double> cls;
        for (size_t i = 0; i < m; i++) {
            char l = p[0] == "c" ? p[1][i % p[1].size()] : (int)i < atoi(p[1].c_str()) ? 'a' : 'b';
            if (!cls.count(l)) cls[l] = symx_real("w", 1.0 / 1024, WMAX);
            w[i] = cls[l];
        }
        return w;
    }
    int k = m; bool real = p[0] == "r", fixed = p[0] == "1"; int lo = 1, hi = 1;
    int fhi = c.i("fhi", 3);
    if (real && p.size() > 1) k = atoi(p[1].c_str());
    if (p[0] == "i") { lo = atoi(p[1].c_str()); hi = atoi(p[2].c_str()); if (p.size() > 3) k = atoi(p[3].c_str()); }
    if (fixed) k = 0;
    std::vector<int> ord(m); for (size_t i = 0; i < m; i++) ord[i] = i;
    if (k < (int)m) for (int i = (int)m - 1; i > 0; i--) std::swap(ord[i], ord[xs(x) % (i + 1)]);
    for (size_t i = 0; i < m; i++) w[ord[i]] = fixed ? 1.0 : real ? 1.0 + xs(x) % fhi : lo + (int)(xs(x) % (hi - lo + 1));
    std::vector<bool> sy(m, false);
    for (int i = 0; i < k && i < (int)m; i++) sy[ord[i]] = true;
    double u = 1;   // unit of the fixed weights: also symbolic, so only the ratios are fixed
    if (real && k < (int)m) u = symx_real("u", 1.0 / 1024, WMAX);
    for (size_t i = 0; i < m; i++) if (sy[i]) {
        if (real) w[i] = symx_real("w", 1.0 / 1024, WMAX); else w[i] = (double)symx_int("w", lo, hi);
    } else if (real) w[i] *= u;
    return w;
}
static inline void fill_graph(Graph &g, const GSpec &s, const std::vector<double> &w, std::vector<Edge> *edges = nullptr) {
    for (int i = 0; i < s.n; i++) boost::add_vertex(g);
    WeightMap wm = boost::get(boost::edge_weight, g);
    for (size_t i = 0; i < s.e.size(); i++) {
        Edge e = boost::add_edge(s.e[i].first, s.e[i].second, g).first;
        wm[e] = w[i];
        if (edges) edges->push_back(e);
    }
}
// emitted cycles -> masks ---------------------------------------------------------
// An emitted descriptor is identified through the address of its property
// object, without dereferencing it.
static inline int edge_id(const std::vector<Edge> &edges, const Edge &e) {
    for (size_t i = 0; i < edges.size(); i++) if (edges[i].get_property() == e.get_property()) {
        if ((edges[i].m_source == e.m_source && edges[i].m_target == e.m_target) || (edges[i].m_source == e.m_target && edges[i].m_target == e.m_source)) return i;
        return -1;
    }
    return -1;
}
// the same for many edges
struct EdgeIds {
    std::vector<std::pair<const void *, int>> v; const std::vector<Edge> &edges;
    EdgeIds(const std::vector<Edge> &es) : edges(es) { for (size_t i = 0; i < es.size(); i++) v.push_back({es[i].get_property(), (int)i}); std::sort(v.begin(), v.end()); }
    int operator()(const Edge &e) const {
        auto it = std::lower_bound(v.begin(), v.end(), std::make_pair((const void *)e.get_property(), -1));
        if (it == v.end() || it->first != e.get_property()) return -1;
        int i = it->second;
        return (edges[i].m_source == e.m_source && edges[i].m_target == e.m_target) || (edges[i].m_source == e.m_target && edges[i].m_target == e.m_source) ? i : -1;
    }
};
struct Emitted { std::vector<mask_t> cyc; };
static inline void symx_failf(const char *key, const char *fmt, long a = 0, long b = 0) { char buf[256]; snprintf(buf, sizeof buf, fmt, a, b); symx_fail(key, buf); }
// structural part of C01: returns the masks, fails the path otherwise
static inline std::vector<mask_t> check_basis(const GSpec &s, const std::vector<Edge> &edges, const std::list<std::list<Edge>> &cycles, const char *pfx = "") {
    char key[64];
#define KEY(x) (snprintf(key, sizeof key, "%s%s", pfx, x), key)
    long dim = (long)s.e.size() - s.n + orc_components(s);
    if ((long)cycles.size() != dim) symx_failf(KEY("cycle-count"), "emitted %ld cycles, cycle space dimension is %ld", cycles.size(), dim);
    std::vector<mask_t> r;
    for (auto &c : cycles) {
        mask_t m = 0;
        if (c.empty()) symx_failf(KEY("empty-cycle"), "cycle %ld is empty", r.size());
        for (auto &e : c) {
            int i = edge_id(edges, e);
            if (i < 0) symx_failf(KEY("foreign-edge"), "cycle %ld contains a descriptor that is not an edge of the input graph", r.size());
            if (m >> i & 1) symx_failf(KEY("repeated-edge"), "cycle %ld repeats edge %ld", r.size(), i);
            m |= 1ull << i;
        }
        if (!orc_simple_cycle(s, m)) symx_failf(KEY("not-simple-cycle"), "cycle %ld (mask %lx) is not a simple cycle", r.size(), (long)m);
        r.push_back(m);
    }
    if (orc_rank(r) != (int)r.size()) symx_failf(KEY("dependent"), "emitted cycles have rank %ld of %ld", orc_rank(r), r.size());
    return r;
#undef KEY
}
static inline double mask_weight(mask_t m, const std::vector<double> &w) { double s = 0; while (m) { int i = __builtin_ctzll(m); m &= m - 1; s += w[i]; } return s; }
static inline double total_weight(const std::vector<mask_t> &c, const std::vector<double> &w) { double s = 0; for (mask_t m : c) s += mask_weight(m, w); return s; }
// a basis is minimum iff no simple cycle is lighter than a basis cycle of its representation
static inline void assert_minimum(const GSpec &s, const std::vector<mask_t> &b, const std::vector<double> &w, const char *key) {
    const std::vector<mask_t> &all = orc_cycles(s);
    for (mask_t c : all) {
        mask_t k = 0;
        if (!orc_represent(b, c, k)) symx_fail(key, "a cycle of the graph is not spanned");
        double wc = mask_weight(c, w);
        for (size_t i = 0; i < b.size(); i++) if ((k >> i & 1) && b[i] != c) symx_assert_le(mask_weight(b[i], w), wc, key);
    }
}
// every cycle of the graph is at least 1/f as heavy as the basis cycles it can replace
static inline void assert_exchange(const GSpec &s, const std::vector<mask_t> &b, const std::vector<double> &w, double f, const char *key) {
    for (mask_t c : orc_cycles(s)) {
        mask_t k = 0;
        if (!orc_represent(b, c, k)) symx_fail(key, "a cycle of the graph is not spanned");
        double wc = mask_weight(c, w);
        for (size_t i = 0; i < b.size(); i++) if ((k >> i & 1) && b[i] != c) symx_assert_le(mask_weight(b[i], w), f * wc, key);
    }
}
// a minimum cycle basis for concrete weights (greedy over all simple cycles)
static inline std::vector<mask_t> greedy_mcb(const GSpec &s, const std::vector<double> &w) {
    std::vector<std::pair<double, mask_t>> v;
    for (mask_t c : orc_cycles(s)) v.push_back({mask_weight(c, w), c});
    std::sort(v.begin(), v.end());
    std::vector<mask_t> r; 
    long dim = (long)s.e.size() - s.n + orc_components(s);
    for (auto &p : v) { if ((long)r.size() == dim) break; mask_t k = 0; if (!orc_represent(r, p.second, k)) r.push_back(p.second); }
    return r;
}
// total <= f * (weight of a minimum cycle basis), for every weight of this path
static inline void assert_within(const GSpec &s, const std::vector<mask_t> &b, const std::vector<double> &w, double total, double f, const char *key) {
    if (!symx_is_symbolic()) { symx_assert_le(total, f * total_weight(greedy_mcb(s, w), w), key); return; }
    symx_soft(1);
    assert_exchange(s, b, w, f, key);        // sufficient by matroid exchange
    symx_assert_eq(total, total_weight(b, w), key);
    int ok = symx_valid();
    symx_soft(0);
    if (ok) return;
    // exact: partition the path condition by the optimum basis
    symx_region_begin();
    while (symx_region_next()) {
        std::vector<double> p(w.size());
        for (size_t i = 0; i < w.size(); i++) p[i] = symx_region_value(w[i]);
        std::vector<mask_t> o = greedy_mcb(s, p);
        for (mask_t c : orc_cycles(s)) { mask_t k = 0; orc_represent(o, c, k); for (size_t i = 0; i < o.size(); i++) if ((k >> i & 1) && o[i] != c) symx_region_le(mask_weight(o[i], w), mask_weight(c, w)); }
        symx_assert_le(total, f * total_weight(o, w), key);
        symx_region_block();
    }
}
// sum = sum_i mult[i]*w[i] <= f * optimum for every weight of this path: the difference is convex, so its maximum is at a vertex of the path condition
static inline double weigh(const std::vector<int> &mult, const std::vector<double> &w) { double s = 0; for (size_t i = 0; i < w.size(); i++) if (mult[i]) s += mult[i] * w[i]; return s; }
static inline void assert_within_hull(const Cfg &c, const GSpec &s, const std::vector<int> &mult, const std::vector<double> &w, int f, const char *key) {
    size_t m = w.size();
    int H = symx_is_symbolic() ? symx_hull(c.i("hull", 4)) : 0;
    for (int h = 0; h < std::max(H, 1); h++) {
        if (H < 0) break;
        std::vector<int64_t> v(m); __int128 tv = 0, ov = 0; bool ok = true;
        for (size_t i = 0; i < m; i++) {
            if (H) { v[i] = symx_hull_value(h, w[i]); if (v[i] == INT64_MIN) ok = false; }
            else { double x = w[i] * 1048576.0; v[i] = (int64_t)x; if ((double)v[i] != x || x > 4e15) ok = false; }
        }
        if (!ok) { symx_note("incomplete:hull value out of range"); continue; }
        std::vector<int> o; orc_big_mcb(s, v, o);
        for (size_t i = 0; i < m; i++) { tv += (__int128)mult[i] * v[i]; ov += (__int128)o[i] * v[i]; }
        if (tv <= f * ov) continue;
        symx_assert_le(weigh(mult, w), f * weigh(o, w), key);      // a basis that beats this one at the vertex: does it on the path?
        symx_flush("vertex");
        symx_note("incomplete:a vertex outside the path condition");
    }
}
#endif
