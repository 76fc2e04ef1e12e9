// C12 shortest-path trees, C14 candidate collections.
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/detail/cycles.hpp>
typedef parmcb::SPTree<Graph, WeightMap> Tree;
typedef parmcb::CandidateCycle<Graph, WeightMap> Cand;

// root path of v in a tree, read through the public accessors; fails the path if it is not one
static mask_t root_path(const GSpec &s, const Graph &g, const std::vector<Edge> &edges, const Tree &t, int src, int v, std::vector<int> &vs) {
    mask_t m = 0; int x = v, steps = 0;
    vs.assign(1, v);
    while (x != src) {
        auto nd = t.node(x);
        if (!nd) symx_failf("tree-gap", "a predecessor (%ld) on the root path of %ld has no node", x, v);
        if ((int)nd->vertex() != x) symx_failf("node-vertex", "node of %ld says vertex %ld", x, nd->vertex());
        if (!nd->has_pred()) symx_failf("no-pred", "node of %ld (root %ld) has no predecessor", x, src);
        int i = edge_id(edges, nd->pred());
        if (i < 0) symx_failf("foreign-edge", "predecessor edge of %ld is not an edge of the graph", x);
        int y = s.e[i].first == x ? s.e[i].second : s.e[i].second == x ? s.e[i].first : -1;
        if (y < 0) symx_failf("pred-not-incident", "predecessor edge of %ld is not incident to it", x);
        m |= 1ull << i; x = y; vs.push_back(x);
        if (++steps > s.n) symx_failf("not-a-tree", "predecessor edges of %ld do not lead to the root %ld", v, src);
    }
    std::reverse(vs.begin(), vs.end());
    return m;
}
static void check12(const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    auto im = boost::get(boost::vertex_index, g);
    std::vector<Tree> trees; trees.reserve(s.n);
    for (int u = 0; u < s.n; u++) trees.emplace_back(u, g, im, wm, boost::vertex(u, g));
    std::vector<std::vector<mask_t>> P(s.n, std::vector<mask_t>(s.n, 0));
    std::vector<std::vector<std::vector<int>>> V(s.n, std::vector<std::vector<int>>(s.n));
    mask_t allm = s.e.empty() ? 0 : ((1ull << s.e.size()) - 1);
    for (int u = 0; u < s.n; u++) for (int v = 0; v < s.n; v++) {
        Tree &t = trees[u];
        if ((int)t.source() != u) symx_failf("source", "tree of %ld has source %ld", u, t.source());
        bool reach = u == v || orc_hops(s, allm, u, v) >= 0;
        auto nd = t.node(boost::vertex(v, g));
        if (!reach) { if (nd) symx_failf("unreachable-node", "vertex %ld has a node in the tree of %ld", v, u); continue; }
        if (!nd) symx_failf("missing-node", "reachable vertex %ld has no node in the tree of %ld", v, u);
        if (u == v && nd->has_pred()) symx_failf("root-pred", "the root %ld has a predecessor", u);
        P[u][v] = root_path(s, g, edges, t, u, v, V[u][v]);
        if (u != v && (int)t.first(boost::vertex(v, g)) != V[u][v][1]) symx_failf("first-label", "first vertex on the path to %ld is reported as %ld", v, t.first(boost::vertex(v, g)));
        symx_assert_eq(nd->weight(), mask_weight(P[u][v], w), "tree-path-length");
        if (u != v) for (mask_t p : orc_paths(s, u, v)) if (p != P[u][v]) symx_assert_le(nd->weight(), mask_weight(p, w), "distance");
    }
    // children of a node are exactly the vertices whose predecessor edge leads to it
    for (int u = 0; u < s.n; u++) for (int v = 0; v < s.n; v++) {
        auto nd = trees[u].node(boost::vertex(v, g));
        if (!nd) continue;
        std::set<int> ch, ex;
        for (auto c : nd->children()) if (!ch.insert((int)c->vertex()).second) symx_failf("children", "vertex %ld appears twice below %ld", c->vertex(), v);
        for (int x = 0; x < s.n; x++) if (x != u && V[u][x].size() >= 2 && V[u][x][V[u][x].size() - 2] == v) ex.insert(x);
        if (ch != ex) symx_failf("children", "children of %ld in the tree of %ld do not match the predecessor edges", v, u);
    }
    for (int u = 0; u < s.n; u++) for (int v = 0; v < s.n; v++) {
        if (u == v || V[u][v].empty()) continue;
        if (P[u][v] != P[v][u]) symx_failf("not-symmetric", "the path chosen from %ld to %ld is not the reverse of the one back", u, v);
        const std::vector<int> &q = V[u][v];
        for (size_t i = 0; i < q.size(); i++) {
            mask_t m = 0;
            for (size_t j = i + 1; j < q.size(); j++) {
                m |= P[u][q[j]] ^ P[u][q[j - 1]];
                if (P[q[i]][q[j]] != m) symx_failf("sub-path", "a sub-path of the path chosen from %ld to %ld is not the chosen path of its ends", u, v);
            }
        }
    }
    symx_flush("C12");
}
struct Item { int root; mask_t cyc; int edge; };
template<class Builder> static std::vector<Item> collect(const char *name, const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    std::vector<Tree> trees; std::vector<Cand> cycles;
    trees.reserve(s.n);
    Builder b;
    b(g, wm, trees, cycles);
    std::vector<Item> r;
    std::vector<int> a, c;
    for (auto &cc : cycles) {
        if (cc.tree() >= trees.size()) symx_failf("tree-index", "candidate refers to tree %ld of %ld", cc.tree(), trees.size());
        Tree &t = trees[cc.tree()];
        int root = t.source(), i = edge_id(edges, cc.edge());
        if (i < 0) symx_failf("foreign-edge", "a candidate's edge is not an edge of the graph");
        if (!t.node(s.e[i].first) || !t.node(s.e[i].second)) symx_failf("unreachable-end", "candidate edge %ld of root %ld is not reachable", i, root);
        mask_t p = root_path(s, g, edges, t, root, s.e[i].first, a), q = root_path(s, g, edges, t, root, s.e[i].second, c);
        if (p & q) symx_failf("paths-share-edge", "the root paths of candidate (root %ld, edge %ld) share an edge", root, i);
        if ((p | q) >> i & 1) symx_failf("tree-edge", "candidate edge %ld lies on a root path of %ld", i, root);
        for (size_t x = 1; x < a.size(); x++) if (std::find(c.begin(), c.end(), a[x]) != c.end()) symx_failf("paths-meet", "the root paths of candidate (root %ld, edge %ld) meet below the root", root, i);
        mask_t m = p | q | (1ull << i);
        if (!orc_simple_cycle(s, m)) symx_failf("not-simple-cycle", "candidate (root %ld, edge %ld) is not a simple cycle", root, i);
        symx_assert_eq(cc.weight(), mask_weight(m, w), "candidate-weight");
        r.push_back({root, m, i});
    }
    return r;
}
// the collection reaches the optimum: for every weight, each cycle C of the graph is spanned by candidates no heavier than C
static void sufficient(const char *key, const GSpec &s, const std::vector<double> &w, const std::vector<Item> &col) {
    std::vector<mask_t> cs; for (auto &x : col) if (std::find(cs.begin(), cs.end(), x.cyc) == cs.end()) cs.push_back(x.cyc);
    long dim = (long)s.e.size() - s.n + orc_components(s);
    if (orc_rank(cs) != dim) { symx_failf(key, "candidates span dimension %ld of %ld", orc_rank(cs), dim); return; }
    symx_region_begin();
    while (symx_region_next()) {
        std::vector<double> p(w.size());
        for (size_t i = 0; i < w.size(); i++) p[i] = symx_region_value(w[i]);
        // greedy over the candidates at that point
        std::vector<std::pair<double, mask_t>> v; for (mask_t m : cs) v.push_back({mask_weight(m, p), m});
        std::sort(v.begin(), v.end());
        std::vector<mask_t> b; mask_t k = 0;
        for (auto &q : v) { if ((long)b.size() == dim) break; if (!orc_represent(b, q.second, k)) b.push_back(q.second); }
        // region: b stays a greedy choice among the candidates (every candidate is spanned by no heavier members of b)
        for (mask_t m : cs) { k = 0; orc_represent(b, m, k); for (size_t i = 0; i < b.size(); i++) if ((k >> i & 1) && b[i] != m) symx_region_le(mask_weight(b[i], w), mask_weight(m, w)); }
        assert_minimum(s, b, w, key);
        symx_region_block();
    }
}
static bool subset(const std::vector<Item> &a, const std::vector<Item> &b) {
    for (auto &x : a) { bool f = false; for (auto &y : b) if (x.root == y.root && x.edge == y.edge && x.cyc == y.cyc) f = true; if (!f) return false; }
    return true;
}
static bool dup(const std::vector<Item> &a) {
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) if (a[i].root == a[j].root && a[i].edge == a[j].edge) return true;
    return false;
}
static void check14(const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    using namespace parmcb::detail;
    std::vector<Item> H = collect<HortonCyclesBuilder<Graph, WeightMap>>("horton", s, g, wm, w, edges);
    std::vector<Item> F = collect<FVSCyclesBuilder<Graph, WeightMap>>("fvs", s, g, wm, w, edges);
    std::vector<Item> I = collect<ISOCyclesBuilder<Graph, WeightMap>>("iso", s, g, wm, w, edges);
    symx_flush("candidates");
    if (dup(H) || dup(F) || dup(I)) symx_fail("duplicate", "a candidate is listed twice");
    if (!subset(F, H)) symx_fail("fvs-not-in-horton", "an FVS candidate is not a Horton candidate");
    if (!subset(I, H)) symx_fail("iso-not-in-horton", "an isometric candidate is not a Horton candidate");
    sufficient("horton-insufficient", s, w, H);
    sufficient("fvs-insufficient", s, w, F);
    sufficient("iso-insufficient", s, w, I);
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    WeightMap wm = boost::get(boost::edge_weight, g);
    if (c.i("prop") == 12) check12(s, g, wm, w, edges); else check14(s, g, wm, w, edges);
    symx_reached("end");
}
