// C05 / C06 / C15: approximate algorithms.
#include "common.hpp"
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#ifdef USE_TBB
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#endif
#ifdef SPY   // C15: the exact phase is called through a spy which records its graph
struct Phase { int n; std::vector<std::pair<int, int>> e; std::vector<double> w; };
static std::vector<Phase> *phases;
template<class G, class WM> static void spy_record(const G &g, const WM &wm) {
    Phase p; p.n = boost::num_vertices(g);
    typename boost::graph_traits<G>::edge_iterator ei, ee;
    for (boost::tie(ei, ee) = boost::edges(g); ei != ee; ++ei) { p.e.push_back({(int)boost::source(*ei, g), (int)boost::target(*ei, g)}); p.w.push_back(boost::get(wm, *ei)); }
    phases->push_back(p);
}
namespace parmcb {
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_signed(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_signed(g, wm, out); }
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_fvs(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_fvs_trees(g, wm, out); }
template<class G, class WM, class O> typename boost::property_traits<WM>::value_type spy_iso(const G &g, WM wm, O out) { spy_record(g, wm); return mcb_sva_iso_trees(g, wm, out); }
}
#define mcb_sva_signed spy_signed
#define mcb_sva_fvs_trees spy_fvs
#define mcb_sva_iso_trees spy_iso
#endif
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
typedef std::list<std::list<Edge>> Cycles;
static double run_approx(const std::string &a, const Graph &g, const WeightMap &wm, int k, Cycles &cycles) {
    if (a == "signed") return parmcb::approx_mcb_sva_signed(g, wm, k, std::back_inserter(cycles));
    if (a == "fvs") return parmcb::approx_mcb_sva_fvs_trees(g, wm, k, std::back_inserter(cycles));
    return parmcb::approx_mcb_sva_iso_trees(g, wm, k, std::back_inserter(cycles));
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    WeightMap wm = boost::get(boost::edge_weight, g);
    std::string a = c.s("a", "signed");
    int prop = c.i("prop", 5), k = c.i("k", 2);
    Cycles cycles;
    if (k == 0) {
        bool thrown = false;
        try { run_approx(a, g, wm, 0, cycles); } catch (std::exception &) { thrown = true; }
        if (!thrown) symx_fail("k0-accepted", "k = 0 was not rejected with an exception");
        if (!cycles.empty()) symx_fail("k0-emits", "k = 0 emitted cycles");
        symx_reached("k0");
        return;
    }
#ifdef SPY
    phases = new std::vector<Phase>();
#endif
    double total = run_approx(a, g, wm, k, cycles);
    if (prop == 5) {
        std::vector<mask_t> b = check_basis(s, edges, cycles);
        // the descriptors must work with the caller's property map
        double via = 0;
        for (auto &cy : cycles) for (auto &e : cy) via += boost::get(wm, e);
        symx_assert_eq(via, total_weight(b, w), "weight-through-map");
        symx_assert_eq(total, total_weight(b, w), "returned-weight");
        symx_flush("C05");
    } else if (prop == 6) {
        std::vector<mask_t> b = check_basis(s, edges, cycles, "basis-");
        if (k == 1) { assert_minimum(s, b, w, "not-minimum"); symx_flush("k=1"); }
        else assert_within(s, b, w, total_weight(b, w), 2 * k - 1, "ratio");
    }
#ifdef SPY
    if (phases->size() != 1) symx_skip("exact phase not observed");
    Phase p = phases->back();
    if (p.n != s.n) symx_failf("spanner-vertices", "spanner has %ld vertices, graph %ld", p.n, s.n);
    mask_t kept = 0;
    for (size_t i = 0; i < p.e.size(); i++) {
        int id = -1;
        for (size_t j = 0; j < s.e.size(); j++) if ((s.e[j].first == p.e[i].first && s.e[j].second == p.e[i].second) || (s.e[j].second == p.e[i].first && s.e[j].first == p.e[i].second)) id = j;
        if (id < 0) symx_failf("not-subgraph", "spanner edge %ld-%ld is not an edge of the graph", p.e[i].first, p.e[i].second);
        if (kept >> id & 1) symx_failf("repeated-edge", "edge %ld twice in the spanner", id);
        kept |= 1ull << id;
        symx_assert_eq(p.w[i], w[id], "spanner-weight");
    }
    symx_flush("weights");
    // the rest phase emits one cycle per dropped edge; together with the spanner's cycles that is the whole dimension
    long dim = (long)s.e.size() - s.n + orc_components(s);
    if ((long)cycles.size() != dim) symx_failf("partition", "%ld cycles emitted, dimension %ld: retained and dropped edges do not partition the edge set", cycles.size(), dim);
    int gi = orc_girth(s, kept);
    if (gi != 0 && gi <= 2 * k) symx_failf("girth", "the spanner has a cycle of %ld edges, k = %ld", gi, k);
    for (size_t j = 0; j < s.e.size(); j++) if (!(kept >> j & 1)) {
        bool ok = false;
        for (mask_t q : orc_paths(s, s.e[j].first, s.e[j].second)) {
            if ((q & ~kept) || __builtin_popcountll(q) > 2 * k - 1) continue;
            bool all = true;
            for (size_t i = 0; i < s.e.size() && all; i++) if ((q >> i & 1) && !(w[i] <= w[j])) all = false;   // branches: decided by the solver
            if (all) { ok = true; break; }
        }
        if (!ok) symx_failf("stretch", "dropped edge %ld has no path of at most %ld retained edges that are not heavier", j, 2 * k - 1);
    }
#endif
    symx_reached("end");
}
