// C09: exact variants on weights whose sums are not exact.  Weights are j*unit (unit dyadic or not) plus d units in the last place;
// every addition of the implementation is rounded to double in the encoding as it is by the machine.
#include <symx_tbb.hpp>
#include <symx_mpi.hpp>
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/mpi/parmcb.hpp>
#include <cmath>
typedef std::list<std::list<Edge>> Cycles;
static double run(const std::string &v, const Graph &g, const WeightMap &wm, Cycles &c, int ranks) {
    auto o = std::back_inserter(c);
    if (v == "signed") return parmcb::mcb_sva_signed(g, wm, o);
    if (v == "fvs") return parmcb::mcb_sva_fvs_trees(g, wm, o);
    if (v == "iso") return parmcb::mcb_sva_iso_trees(g, wm, o);
    if (v == "signed_tbb") return parmcb::mcb_sva_signed_tbb(g, wm, o);
    if (v == "fvs_tbb") return parmcb::mcb_sva_fvs_trees_tbb(g, wm, o);
    if (v == "iso_tbb") return parmcb::mcb_sva_iso_trees_tbb(g, wm, o);
    std::vector<double> t(ranks, 0.0); std::vector<Cycles> cs(ranks);
    bool ok = symx_mpi::run(ranks, 1, [&](int k) {
        boost::mpi::communicator world; auto ok = std::back_inserter(cs[k]);
        if (v == "signed_mpi") t[k] = parmcb::mcb_sva_signed_mpi(g, wm, ok, world);
        else if (v == "fvs_mpi") t[k] = parmcb::mcb_sva_fvs_trees_mpi(g, wm, ok, world);
        else if (v == "fvs_tbb_mpi") t[k] = parmcb::mcb_sva_fvs_trees_tbb_mpi(g, wm, ok, world);
        else if (v == "iso_mpi") t[k] = parmcb::mcb_sva_iso_trees_mpi(g, wm, ok, world);
        else if (v == "iso_tbb_mpi") t[k] = parmcb::mcb_sva_iso_trees_tbb_mpi(g, wm, ok, world);
        else { fprintf(stderr, "unknown variant %s\n", v.c_str()); _Exit(71); }
    });
    if (!ok) symx_fail("deadlock", "MPI variant does not return");
    c = cs[0]; return t[0];
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    size_t m = s.e.size();
    int J = c.i("J", 3), D = c.i("D", 3), k = c.i("k", 3);
    double unit = c.has("u") ? atof(c.s("u").c_str()) : 0.125;
    unsigned x = 88172645u + 7919u * c.i("ws", 1);
    for (int i = 0; i < 9; i++) xs(x);
    std::vector<int> ord(m); for (size_t i = 0; i < m; i++) ord[i] = i;
    for (int i = (int)m - 1; i > 0; i--) std::swap(ord[i], ord[xs(x) % (i + 1)]);
    std::vector<bool> sy(m, false); for (int i = 0; i < k && i < (int)m; i++) sy[ord[i]] = true;
    std::vector<double> w(m);
    double big = c.has("big") ? atof(c.s("big").c_str()) : 0;   // some weights of another magnitude
    for (size_t i = 0; i < m; i++) {
        int j = 1 + xs(x) % J;
        double h = unit * j;
        if (big > 0 && xs(x) % 3 == 0) h = big * (1 + xs(x) % 2);
        int e; frexp(h, &e); double ulp = ldexp(1.0, e - 53);
        if (sy[i]) w[i] = h + (double)symx_int("d", 0, D) * ulp; else w[i] = h + (double)(int)(xs(x) % (D + 1)) * ulp;
    }
    Graph g; std::vector<Edge> edges;
    fill_graph(g, s, w, &edges);
    std::string a = c.s("a", "signed");
    symx_tbb::sched().base = c.i("base", 3);
    Cycles cycles;
    double total = run(a, g, boost::get(boost::edge_weight, g), cycles, c.i("P", 2));
    symx_round(0);   // from here on exact arithmetic
    std::vector<mask_t> b = check_basis(s, edges, cycles);
    const double tol = 1 + (big > 0 ? ldexp(1, -29) : ldexp(69, -36));   // 1 + 1.87e-9, 1 + 1.004e-9
    double sum = total_weight(b, w);
    symx_assert_le(total, sum * tol, "returned-weight");
    symx_assert_le(sum, total * tol, "returned-weight");
    symx_flush(a.c_str());
    assert_within(s, b, w, sum, tol, "not-minimum");
    symx_reached("end");
}
