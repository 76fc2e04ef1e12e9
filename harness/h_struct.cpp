// C13 greedy_fvs, C16 ForestIndex: symbolic topologies.
#include "common.hpp"
#include <parmcb/forestindex.hpp>
#include <parmcb/detail/fvs.hpp>

template<class G> struct Build {
    typedef typename boost::graph_traits<G>::edge_descriptor E;
    G g; std::vector<E> edges;
    Build(const GSpec &s) : g(s.n) { for (auto &e : s.e) edges.push_back(boost::add_edge(e.first, e.second, g).first); }
    int id(const E &e) const {
        for (size_t i = 0; i < edges.size(); i++) if (edges[i].get_property() == e.get_property()) {
            if ((edges[i].m_source == e.m_source && edges[i].m_target == e.m_target) || (edges[i].m_source == e.m_target && edges[i].m_target == e.m_source)) return i;
            return -1;
        }
        return -1;
    }
};
template<class G, class FI> void check_index(const GSpec &s, const Build<G> &b, const FI &fi) {
    typedef typename Build<G>::E E;
    long m = s.e.size(), c = orc_components(s), dim = m - s.n + c;
    if ((long)fi.weak_connected_components() != c) symx_failf("components", "reported %ld components, the graph has %ld", fi.weak_connected_components(), c);
    if ((long)fi.cycle_space_dimension() != dim) symx_failf("dimension", "reported dimension %ld, expected %ld", fi.cycle_space_dimension(), dim);
    mask_t seen = 0, forest = 0;
    for (long i = 0; i < m; i++) {
        long x = fi(b.edges[i]);
        if (x < 0 || x >= m) symx_failf("index-range", "edge %ld has index %ld", i, x);
        if (seen >> x & 1) symx_failf("not-injective", "index %ld is used twice", x);
        seen |= 1ull << x;
        E back = fi((typename FI::size_type)x);
        if (b.id(back) != i) symx_failf("not-inverse", "index %ld maps to edge %ld", x, b.id(back));
        bool on = fi.is_on_forest(b.edges[i]);
        if (on != (x >= dim)) symx_failf("forest-flag", "edge with index %ld reported on-forest=%ld", x, on);
        if (on) forest |= 1ull << i;
    }
    if (!orc_forest(s, forest)) symx_failf("forest-cyclic", "edges reported on the forest contain a cycle (mask %lx)", forest);
    GSpec f; f.n = s.n; for (long i = 0; i < m; i++) if (forest >> i & 1) f.e.push_back(s.e[i]);
    if (orc_components(f) != c) symx_failf("forest-not-spanning", "the forest has %ld components, the graph %ld", orc_components(f), c);
}
template<class G> void run16(const GSpec &s) {
    typedef typename boost::graph_traits<G>::edge_descriptor E;
    Build<G> b(s);
    parmcb::ForestIndex<G> fi(b.g);
    check_index(s, b, fi);
    {   // edges met while traversing the graph (descriptors with the other orientation)
        for (auto v : boost::make_iterator_range(boost::vertices(b.g))) for (auto e : boost::make_iterator_range(boost::out_edges(v, b.g))) {
            int i = b.id(e);
            if (i < 0) continue;
            if (fi(e) != fi(b.edges[i])) symx_failf("orientation", "edge %ld has another index when met from its target", i);
            if (fi.is_on_forest(e) != fi.is_on_forest(b.edges[i])) symx_failf("orientation", "edge %ld has another forest flag when met from its target", i);
        }
    }
    parmcb::ForestIndex<G> cp(fi);
    check_index(s, b, cp);
    GSpec s2; s2.n = s.n + 2; s2.e = s.e; s2.e.push_back({s.n, s.n + 1}); if (s.n) s2.e.push_back({0, s.n});
    Build<G> b2(s2);
    parmcb::ForestIndex<G> as(b2.g);
    check_index(s2, b2, as);
    as = fi;
    check_index(s, b, as);
    check_index(s, b, fi);
    symx_reached("C16");
}
template<class G> void run13(const GSpec &s) {
    Build<G> b(s);
    std::vector<typename boost::graph_traits<G>::vertex_descriptor> out;
    parmcb::greedy_fvs(b.g, std::back_inserter(out));
    std::vector<bool> rem(s.n, false);
    for (auto v : out) {
        if ((long)v < 0 || (long)v >= s.n) symx_failf("foreign-vertex", "emitted vertex %ld is not in the graph", v);
        if (rem[v]) symx_failf("repeated-vertex", "vertex %ld emitted twice", v);
        rem[v] = true;
    }
    if (!orc_acyclic_without(s, rem)) symx_failf("cycle-left", "a cycle avoids the %ld emitted vertices", out.size());
    mask_t all = s.e.empty() ? 0 : ((1ull << s.e.size()) - 1);
    if (orc_forest(s, all) && !out.empty()) symx_failf("forest-nonempty", "%ld vertices emitted for a forest", out.size());
    symx_reached("C13");
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    using namespace boost;
    typedef adjacency_list<vecS, vecS, undirectedS, no_property, property<edge_weight_t, double>> GV;
    typedef adjacency_list<listS, vecS, undirectedS> GL;
    typedef adjacency_list<setS, vecS, undirectedS, no_property, no_property, no_property, setS> GS;
    std::string t = c.s("t", "vec");
    if (c.i("prop") == 16) { if (t == "vec") run16<GV>(s); else run16<GL>(s); }
    else { if (t == "vec") run13<GV>(s); else if (t == "list") run13<GL>(s); else run13<GS>(s); }
}
