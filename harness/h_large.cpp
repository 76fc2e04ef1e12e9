// C01 / C02 / C05 / C06 / C03 / C04 on larger graphs: few symbolic weights; optimality over every path is decided at the
// vertices of the path condition (the total of a path is linear, the optimum concave in the weights).
#include <symx_tbb.hpp>
#include <symx_mpi.hpp>
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/mpi/parmcb.hpp>
typedef std::list<std::list<Edge>> Cycles;
static double run(const std::string &v, const Graph &g, const WeightMap &wm, std::size_t k, Cycles &c, int ranks) {
    auto o = std::back_inserter(c);
    if (k > 0) {
        if (v == "signed") return parmcb::approx_mcb_sva_signed(g, wm, k, o);
        if (v == "fvs") return parmcb::approx_mcb_sva_fvs_trees(g, wm, k, o);
        if (v == "iso") return parmcb::approx_mcb_sva_iso_trees(g, wm, k, o);
        if (v == "signed_tbb") return parmcb::approx_mcb_sva_signed_tbb(g, wm, k, o);
        if (v == "fvs_tbb") return parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, o);
        if (v == "iso_tbb") return parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, o);
    }
    if (v == "signed") return parmcb::mcb_sva_signed(g, wm, o);
    if (v == "fvs") return parmcb::mcb_sva_fvs_trees(g, wm, o);
    if (v == "iso") return parmcb::mcb_sva_iso_trees(g, wm, o);
    if (v == "signed_tbb") return parmcb::mcb_sva_signed_tbb(g, wm, o);
    if (v == "fvs_tbb") return parmcb::mcb_sva_fvs_trees_tbb(g, wm, o);
    if (v == "iso_tbb") return parmcb::mcb_sva_iso_trees_tbb(g, wm, o);
    std::vector<double> t(ranks, 0.0); std::vector<Cycles> cs(ranks);
    bool ok = symx_mpi::run(ranks, 1, [&](int r) {
        boost::mpi::communicator world; auto ok = std::back_inserter(cs[r]);
        if (v == "signed_mpi") t[r] = parmcb::mcb_sva_signed_mpi(g, wm, ok, world);
        else if (v == "fvs_mpi") t[r] = parmcb::mcb_sva_fvs_trees_mpi(g, wm, ok, world);
        else if (v == "fvs_tbb_mpi") t[r] = parmcb::mcb_sva_fvs_trees_tbb_mpi(g, wm, ok, world);
        else if (v == "iso_mpi") t[r] = parmcb::mcb_sva_iso_trees_mpi(g, wm, ok, world);
        else if (v == "iso_tbb_mpi") t[r] = parmcb::mcb_sva_iso_trees_tbb_mpi(g, wm, ok, world);
        else { fprintf(stderr, "unknown variant %s\n", v.c_str()); _Exit(71); }
    });
    if (!ok) symx_fail("deadlock", "MPI variant does not return");
    for (int r = 1; r < ranks; r++) if (!cs[r].empty()) symx_failf("rank-emits", "rank %ld emitted %ld cycles", r, cs[r].size());
    c = cs[0]; return t[0];
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = big_graph(c);
    size_t m = s.e.size();
    std::vector<double> w = make_weights(c, m);
    if (c.i("split")) for (auto &x : w) x = (double)symx_split((int64_t)x);
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    WeightMap wm = boost::get(boost::edge_weight, g);
    std::string a = c.s("a", "signed");
    std::size_t k = c.k();
    symx_tbb::sched().base = c.i("base", 3);
    Cycles cycles;
    double total = run(a, g, wm, k, cycles, c.i("P", 2));
    EdgeIds id(edges);
    std::vector<std::vector<int>> b; std::vector<int> mult(m, 0);
    long dim = (long)m - s.n + orc_components(s);
    if ((long)cycles.size() != dim) symx_failf("cycle-count", "emitted %ld cycles, cycle space dimension is %ld", cycles.size(), dim);
    for (auto &cy : cycles) {
        std::vector<int> x;
        for (auto &e : cy) {
            int i = id(e);
            if (i < 0) symx_failf("foreign-edge", "cycle %ld contains a descriptor that is not an edge of the input graph", b.size());
            x.push_back(i); mult[i]++;
        }
        if (!orc_big_simple(s, x)) symx_failf("not-simple-cycle", "cycle %ld (%ld edges) is not a simple cycle", b.size(), x.size());
        b.push_back(x);
    }
    if (orc_big_rank(s, b) != (int)b.size()) symx_failf("dependent", "emitted cycles have rank %ld of %ld", orc_big_rank(s, b), b.size());
    int prop = c.i("prop", 2);
    if (prop == 1) { symx_flush("basis"); symx_reached("end"); return; }
    symx_assert_eq(total, weigh(mult, w), "returned-weight");
    symx_flush("weight");
    if (prop == 5) { symx_reached("end"); return; }
    assert_within_hull(c, s, mult, w, k > 0 ? 2 * std::min(k, (std::size_t)1 << 20) - 1 : 1, k > 0 ? "ratio" : "not-minimum");
    symx_reached("end");
}
