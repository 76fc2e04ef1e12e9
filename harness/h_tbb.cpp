// C03: TBB-parallel entry points under a scheduler chosen by the solver.
#include <symx_tbb.hpp>
#include "common.hpp"
#include <parmcb/parmcb.hpp>
typedef std::list<std::list<Edge>> Cycles;
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    WeightMap wm = boost::get(boost::edge_weight, g);
    symx_tbb::Sched &sc = symx_tbb::sched();
    std::string b = c.s("base", "0");
    sc.base = b == "any" ? symx_choice("base", 4) : atoi(b.c_str());
    sc.budget = c.i("dev"); sc.maxcuts = c.i("cuts", 2); sc.race = c.i("race");
    std::string a = c.s("a", "signed");
    int k = c.i("k");
    Cycles cycles; double total;
    if (k == 0) {
        if (a == "signed") total = parmcb::mcb_sva_signed_tbb(g, wm, std::back_inserter(cycles));
        else if (a == "fvs") total = parmcb::mcb_sva_fvs_trees_tbb(g, wm, std::back_inserter(cycles));
        else total = parmcb::mcb_sva_iso_trees_tbb(g, wm, std::back_inserter(cycles));
    } else {
        if (a == "signed") total = parmcb::approx_mcb_sva_signed_tbb(g, wm, k, std::back_inserter(cycles));
        else if (a == "fvs") total = parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, std::back_inserter(cycles));
        else total = parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, std::back_inserter(cycles));
    }
    sc.race = false; sc.budget = 0;
    std::vector<mask_t> m = check_basis(s, edges, cycles);
    symx_assert_eq(total, total_weight(m, w), "returned-weight");
    if (k == 0) assert_minimum(s, m, w, "not-minimum");
    else assert_within(s, m, w, total, 2 * k - 1, "approximation-factor");
    symx_flush(a.c_str());
    if (sc.pfor + sc.preduce) symx_reached("parallel"); else symx_reached("end");
}
