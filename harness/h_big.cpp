// C12 / C13 / C14 / C15 / C16 on larger graphs.
#include "common.hpp"
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#ifdef SPY   // C15: the exact phase is called through a spy which records its graph
struct Phase { int n; std::vector<std::pair<int, int>> e; std::vector<double> w; };
static std::vector<Phase> *phases;
template<class G, class WM> static void spy_record(const G &g, const WM &wm) {
    Phase p; p.n = boost::num_vertices(g);
    typename boost::graph_traits<G>::edge_iterator ei, ee;
    for (boost::tie(ei, ee) = boost::edges(g); ei != ee; ++ei) { p.e.push_back({(int)boost::source(*ei, g), (int)boost::target(*ei, g)}); p.w.push_back(boost::get(wm, *ei)); }
    phases->push_back(p);
}
namespace parmcb {
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_signed(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_signed(g, wm, out); }
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_fvs(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_fvs_trees(g, wm, out); }
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_iso(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_iso_trees(g, wm, out); }
}
#define mcb_sva_signed spy_signed
#define mcb_sva_fvs_trees spy_fvs
#define mcb_sva_iso_trees spy_iso
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
typedef std::list<std::list<Edge>> Cycles;
static void check15(const Cfg &c, const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    std::string a = c.s("a", "signed"); std::size_t k = c.k(2), m = s.e.size();
    // no path of the graph has more than n - 1 edges
    const long hops = k > (std::size_t)s.n ? s.n : 2 * k - 1;
    phases = new std::vector<Phase>();
    Cycles cycles;
    if (a == "signed") parmcb::approx_mcb_sva_signed(g, wm, k, std::back_inserter(cycles));
    else if (a == "fvs") parmcb::approx_mcb_sva_fvs_trees(g, wm, k, std::back_inserter(cycles));
    else parmcb::approx_mcb_sva_iso_trees(g, wm, k, std::back_inserter(cycles));
    if (phases->size() != 1) symx_skip("exact phase not observed");
    Phase p = phases->back();
    if (p.n != s.n) symx_failf("spanner-vertices", "spanner has %ld vertices, graph %ld", p.n, s.n);
    std::map<std::pair<int, int>, int> id; for (size_t j = 0; j < m; j++) id[{std::min(s.e[j].first, s.e[j].second), std::max(s.e[j].first, s.e[j].second)}] = j;
    std::vector<char> kept(m, 0);
    for (size_t i = 0; i < p.e.size(); i++) {
        auto it = id.find({std::min(p.e[i].first, p.e[i].second), std::max(p.e[i].first, p.e[i].second)});
        if (it == id.end()) symx_failf("not-subgraph", "spanner edge %ld-%ld is not an edge of the graph", p.e[i].first, p.e[i].second);
        if (kept[it->second]) symx_failf("repeated-edge", "edge %ld twice in the spanner", it->second);
        kept[it->second] = 1;
        symx_assert_eq(p.w[i], w[it->second], "spanner-weight");
    }
    symx_flush("weights");
    long dim = (long)m - s.n + orc_components(s);
    if ((long)cycles.size() != dim) symx_failf("partition", "%ld cycles emitted, dimension %ld: retained and dropped edges do not partition the edge set", cycles.size(), dim);
    for (size_t j = 0; j < m; j++) if (kept[j]) {
        std::vector<char> in = kept; in[j] = 0;
        int h = orc_big_hops(s, in, s.e[j].first, s.e[j].second, hops);
        if (h >= 0) symx_failf("girth", "the spanner has a cycle of %ld edges, k = %ld", h + 1, k);
    }
    for (size_t j = 0; j < m; j++) if (!kept[j]) {
        std::vector<char> in(m, 0); for (size_t i = 0; i < m; i++) if (kept[i] && w[i] <= w[j]) in[i] = 1;   // branches: decided by the solver
        if (orc_big_hops(s, in, s.e[j].first, s.e[j].second, hops) < 0) symx_failf("stretch", "dropped edge %ld has no path of at most %ld retained edges that are not heavier", j, hops);
    }
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = big_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    if (c.i("split")) for (auto &x : w) x = (double)symx_split((int64_t)x);
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    check15(c, s, g, boost::get(boost::edge_weight, g), w, edges);
    symx_reached("end");
}
#else
#include <parmcb/parmcb.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
typedef parmcb::SPTree<Graph, WeightMap> Tree;
typedef parmcb::CandidateCycle<Graph, WeightMap> Cand;
struct Path { std::vector<int> v, e; };   // from the root
static Path root_path(const GSpec &s, const Graph &g, const EdgeIds &id, const Tree &t, int src, int v) {
    Path p; int x = v; p.v.push_back(v);
    while (x != src) {
        auto nd = t.node(x);
        if (!nd) symx_failf("tree-gap", "a predecessor (%ld) on the root path of %ld has no node", x, v);
        if ((int)nd->vertex() != x) symx_failf("node-vertex", "node of %ld says vertex %ld", x, nd->vertex());
        if (!nd->has_pred()) symx_failf("no-pred", "node of %ld (root %ld) has no predecessor", x, src);
        int i = id(nd->pred());
        if (i < 0) symx_failf("foreign-edge", "predecessor edge of %ld is not an edge of the graph", x);
        int y = s.e[i].first == x ? s.e[i].second : s.e[i].second == x ? s.e[i].first : -1;
        if (y < 0) symx_failf("pred-not-incident", "predecessor edge of %ld is not incident to it", x);
        x = y; p.v.push_back(x); p.e.push_back(i);
        if ((int)p.v.size() > s.n) symx_failf("not-a-tree", "predecessor edges of %ld do not lead to the root %ld", v, src);
    }
    std::reverse(p.v.begin(), p.v.end()); std::reverse(p.e.begin(), p.e.end());
    return p;
}
static double path_weight(const std::vector<int> &e, const std::vector<double> &w) { double x = 0; for (int i : e) x += w[i]; return x; }
static void check12(const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    auto im = boost::get(boost::vertex_index, g); EdgeIds id(edges);
    std::vector<char> all(s.e.size(), 1);
    std::vector<Tree> trees; trees.reserve(s.n);
    for (int u = 0; u < s.n; u++) trees.emplace_back(u, g, im, wm, boost::vertex(u, g));
    std::vector<std::vector<Path>> P(s.n, std::vector<Path>(s.n));
    for (int u = 0; u < s.n; u++) {
        Tree &t = trees[u];
        if ((int)t.source() != u) symx_failf("source", "tree of %ld has source %ld", u, t.source());
        std::vector<int> below(s.n, 0);
        for (int v = 0; v < s.n; v++) {
            bool reach = u == v || orc_big_hops(s, all, u, v) >= 0;
            auto nd = t.node(boost::vertex(v, g));
            if (!reach) { if (nd) symx_failf("unreachable-node", "vertex %ld has a node in the tree of %ld", v, u); continue; }
            if (!nd) symx_failf("missing-node", "reachable vertex %ld has no node in the tree of %ld", v, u);
            if (u == v && nd->has_pred()) symx_failf("root-pred", "the root %ld has a predecessor", u);
            Path &p = P[u][v] = root_path(s, g, id, t, u, v);
            if (u != v && (int)t.first(boost::vertex(v, g)) != p.v[1]) symx_failf("first-label", "first vertex on the path to %ld is reported as %ld", v, t.first(boost::vertex(v, g)));
            if (u != v) below[p.v[p.v.size() - 2]]++;
            symx_assert_eq(nd->weight(), path_weight(p.e, w), "tree-path-length");
        }
        // the tree path is a shortest path iff no edge improves a distance
        for (size_t i = 0; i < s.e.size(); i++) {
            auto a = t.node(s.e[i].first), b = t.node(s.e[i].second);
            if (!a || !b) continue;
            symx_assert_le(b->weight(), a->weight() + w[i], "distance");
            symx_assert_le(a->weight(), b->weight() + w[i], "distance");
        }
        for (int v = 0; v < s.n; v++) {
            auto nd = t.node(boost::vertex(v, g)); if (!nd) continue;
            std::set<int> ch;
            for (auto c : nd->children()) { int x = c->vertex(); if (!ch.insert(x).second) symx_failf("children", "vertex %ld appears twice below %ld", x, v); if (P[u][x].v.size() < 2 || P[u][x].v[P[u][x].v.size() - 2] != v) symx_failf("children", "vertex %ld is listed below %ld but its predecessor is another", x, v); }
            if ((int)ch.size() != below[v]) symx_failf("children", "children of %ld in the tree of %ld do not match the predecessor edges", v, u);
        }
    }
    symx_flush("distances");
    for (int u = 0; u < s.n; u++) for (int v = 0; v < s.n; v++) {
        if (u == v || P[u][v].v.empty()) continue;
        const Path &p = P[u][v], &q = P[v][u];
        if (q.e != std::vector<int>(p.e.rbegin(), p.e.rend())) symx_failf("not-symmetric", "the path chosen from %ld to %ld is not the reverse of the one back", u, v);
        // every suffix is the chosen path of its ends; with the reverse property and the tree every sub-path is
        const Path &r = P[p.v[1]][v];
        if (r.e != std::vector<int>(p.e.begin() + 1, p.e.end())) symx_failf("sub-path", "a sub-path of the path chosen from %ld to %ld is not the chosen path of its ends", u, v);
    }
}
struct Item { int root, edge; std::vector<int> cyc; double weight; };
template<class Builder> static std::vector<Item> collect(const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    std::vector<Tree> trees; std::vector<Cand> cycles; EdgeIds id(edges);
    trees.reserve(s.n);
    Builder b;
    b(g, wm, trees, cycles);
    std::vector<Item> r;
    for (auto &cc : cycles) {
        if (cc.tree() >= trees.size()) symx_failf("tree-index", "candidate refers to tree %ld of %ld", cc.tree(), trees.size());
        Tree &t = trees[cc.tree()];
        int root = t.source(), i = id(cc.edge());
        if (i < 0) symx_failf("foreign-edge", "a candidate's edge is not an edge of the graph");
        if (!t.node(s.e[i].first) || !t.node(s.e[i].second)) symx_failf("unreachable-end", "candidate edge %ld of root %ld is not reachable", i, root);
        Path p = root_path(s, g, id, t, root, s.e[i].first), q = root_path(s, g, id, t, root, s.e[i].second);
        std::vector<int> e = p.e; e.insert(e.end(), q.e.begin(), q.e.end()); e.push_back(i);
        if (!orc_big_simple(s, e)) symx_failf("not-simple-cycle", "candidate (root %ld, edge %ld): the edge and its root paths are not a simple cycle", root, i);
        for (size_t x = 1; x < p.v.size(); x++) if (std::find(q.v.begin() + 1, q.v.end(), p.v[x]) != q.v.end()) symx_failf("paths-meet", "the root paths of candidate (root %ld, edge %ld) meet below the root", root, i);
        std::sort(e.begin(), e.end());
        symx_assert_eq(cc.weight(), path_weight(e, w), "candidate-weight");
        r.push_back({root, i, e, cc.weight()});
    }
    return r;
}
static void check14(const Cfg &c, const GSpec &s, const Graph &g, const WeightMap &wm, const std::vector<double> &w, const std::vector<Edge> &edges) {
    using namespace parmcb::detail;
    std::vector<std::vector<Item>> col(3);
    col[0] = collect<HortonCyclesBuilder<Graph, WeightMap>>(s, g, wm, w, edges);
    col[1] = collect<FVSCyclesBuilder<Graph, WeightMap>>(s, g, wm, w, edges);
    col[2] = collect<ISOCyclesBuilder<Graph, WeightMap>>(s, g, wm, w, edges);
    symx_flush("candidates");
    std::set<std::pair<int, int>> H;
    for (int q = 0; q < 3; q++) {
        std::set<std::pair<int, int>> seen;
        for (auto &x : col[q]) if (!seen.insert({x.root, x.edge}).second) symx_fail("duplicate", "a candidate is listed twice");
        if (q == 0) H = seen;
        else for (auto &x : seen) if (!H.count(x)) symx_fail(q == 1 ? "fvs-not-in-horton" : "iso-not-in-horton", "a candidate is not a Horton candidate");
    }
    // one greedy order for all of them: sorted by weight (the comparisons are branches decided by the solver)
    std::vector<std::pair<double, const std::vector<int> *>> ord; std::set<std::vector<int>> have;
    for (auto &x : col[0]) if (have.insert(x.cyc).second) ord.push_back({path_weight(x.cyc, w), &x.cyc});
    std::stable_sort(ord.begin(), ord.end(), [](const std::pair<double, const std::vector<int> *> &a, const std::pair<double, const std::vector<int> *> &b) { return a.first < b.first; });
    long dim = (long)s.e.size() - s.n + orc_components(s);
    const char *key[3] = {"horton-insufficient", "fvs-insufficient", "iso-insufficient"};
    for (int q = 0; q < 3; q++) {
        std::set<std::vector<int>> in; for (auto &x : col[q]) in.insert(x.cyc);
        std::vector<std::vector<int>> v; for (auto &o : ord) if (in.count(*o.second)) v.push_back(*o.second);
        std::vector<int> b = orc_big_independent(s, v);
        if ((long)b.size() != dim) symx_failf(key[q], "candidates span dimension %ld of %ld", b.size(), dim);
        std::vector<int> mult(s.e.size(), 0); for (int i : b) for (int e : v[i]) mult[e]++;
        assert_within_hull(c, s, mult, w, 1, key[q]);
    }
}
template<class G> struct Build {
    typedef typename boost::graph_traits<G>::edge_descriptor E;
    G g; std::vector<E> edges; std::map<std::pair<long, long>, int> ids;
    Build(const GSpec &s) : g(s.n) { for (auto &e : s.e) { ids[{std::min(e.first, e.second), std::max(e.first, e.second)}] = edges.size(); edges.push_back(boost::add_edge(e.first, e.second, g).first); } }
    int id(const E &e) const { auto it = ids.find({std::min((long)e.m_source, (long)e.m_target), std::max((long)e.m_source, (long)e.m_target)}); return it == ids.end() || edges[it->second].get_property() != e.get_property() ? -1 : it->second; }
};
template<class G, class FI> static void check_index(const GSpec &s, const Build<G> &b, const FI &fi) {
    long m = s.e.size(), c = orc_components(s), dim = m - s.n + c;
    if ((long)fi.weak_connected_components() != c) symx_failf("components", "reported %ld components, the graph has %ld", fi.weak_connected_components(), c);
    if ((long)fi.cycle_space_dimension() != dim) symx_failf("dimension", "reported dimension %ld, expected %ld", fi.cycle_space_dimension(), dim);
    std::vector<char> seen(m, 0); GSpec f; f.n = s.n;
    for (long i = 0; i < m; i++) {
        long x = fi(b.edges[i]);
        if (x < 0 || x >= m) symx_failf("index-range", "edge %ld has index %ld", i, x);
        if (seen[x]) symx_failf("not-injective", "index %ld is used twice", x);
        seen[x] = 1;
        if (b.id(fi((typename FI::size_type)x)) != i) symx_failf("not-inverse", "index %ld maps to another edge than %ld", x, i);
        bool on = fi.is_on_forest(b.edges[i]);
        if (on != (x >= dim)) symx_failf("forest-flag", "edge with index %ld reported on-forest=%ld", x, on);
        if (on) f.e.push_back(s.e[i]);
    }
    if (orc_components(f) != c || (long)f.e.size() != s.n - c) symx_failf("forest", "the forest has %ld edges, a spanning forest %ld", f.e.size(), s.n - c);
    for (auto v : boost::make_iterator_range(boost::vertices(b.g))) for (auto e : boost::make_iterator_range(boost::out_edges(v, b.g))) {
        int i = b.id(e);
        if (i < 0 || fi(e) != fi(b.edges[i]) || fi.is_on_forest(e) != fi.is_on_forest(b.edges[i])) symx_failf("orientation", "edge %ld is treated differently when met from its target", i);
    }
}
template<class G> static void check16(const GSpec &s) {
    Build<G> b(s);
    parmcb::ForestIndex<G> fi(b.g); check_index(s, b, fi);
    parmcb::ForestIndex<G> cp(fi); check_index(s, b, cp);
    GSpec s2; s2.n = s.n + 2; s2.e = s.e; s2.e.push_back({s.n, s.n + 1}); if (s.n) s2.e.push_back({0, s.n});
    Build<G> b2(s2);
    parmcb::ForestIndex<G> as(b2.g); check_index(s2, b2, as);
    as = fi; check_index(s, b, as);
}
template<class G> static void check13(const GSpec &s) {
    Build<G> b(s);
    std::vector<typename boost::graph_traits<G>::vertex_descriptor> out;
    parmcb::greedy_fvs(b.g, std::back_inserter(out));
    std::vector<bool> rem(s.n, false);
    for (auto v : out) {
        if ((long)v < 0 || (long)v >= s.n) symx_failf("foreign-vertex", "emitted vertex %ld is not in the graph", v);
        if (rem[v]) symx_failf("repeated-vertex", "vertex %ld emitted twice", v);
        rem[v] = true;
    }
    if (!orc_acyclic_without(s, rem)) symx_failf("cycle-left", "a cycle avoids the %ld emitted vertices", out.size());
    if ((long)s.e.size() - s.n + orc_components(s) == 0 && !out.empty()) symx_failf("forest-nonempty", "%ld vertices emitted for a forest", out.size());
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = big_graph(c);
    optional_edges(c, s);
    int prop = c.i("prop");
    if (prop == 13 || prop == 16) {
        using namespace boost;
        typedef adjacency_list<vecS, vecS, undirectedS, no_property, property<edge_weight_t, double>> GV;
        typedef adjacency_list<listS, vecS, undirectedS> GL;
        bool l = c.s("t") == "list";
        if (prop == 13) { if (l) check13<GL>(s); else check13<GV>(s); } else { if (l) check16<GL>(s); else check16<GV>(s); }
        symx_reached("end"); return;
    }
    std::vector<double> w = make_weights(c, s.e.size());
    if (c.i("split")) for (auto &x : w) x = (double)symx_split((int64_t)x);
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    WeightMap wm = boost::get(boost::edge_weight, g);
    if (prop == 12) check12(s, g, wm, w, edges); else check14(c, s, g, wm, w, edges);
    symx_reached("end");
}
#endif
