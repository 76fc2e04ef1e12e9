// C01 / C02: exact algorithms.
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#ifndef PROP
#define PROP 3   // bit 0: C01, bit 1: C02
#endif
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    std::string a = c.s("a", "signed");
    int prop = c.i("prop", 3);
    std::list<std::list<Edge>> cycles;
    double total;
    if (a == "signed") total = parmcb::mcb_sva_signed(g, boost::get(boost::edge_weight, g), std::back_inserter(cycles));
    else if (a == "fvs") total = parmcb::mcb_sva_fvs_trees(g, boost::get(boost::edge_weight, g), std::back_inserter(cycles));
    else total = parmcb::mcb_sva_iso_trees(g, boost::get(boost::edge_weight, g), std::back_inserter(cycles));
    std::vector<mask_t> b = check_basis(s, edges, cycles);
    if (prop & 2) {
        symx_assert_eq(total, total_weight(b, w), "returned-weight");
        assert_minimum(s, b, w, "not-minimum");
    }
    symx_flush(a.c_str());
    symx_reached("end");
}
