// C20: set_global_tbb_concurrency, sequences of calls interleaved with library
// calls.  The native replay uses the installed oneTBB itself (-DREALTBB).
#ifdef REALTBB
#include <tbb/tbb.h>
#include <tbb/global_control.h>
#else
#include <symx_tbb.hpp>
#endif
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
typedef std::list<std::list<Edge>> Cycles;
static long active() { return (long)tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }
static void setter_helper(long n) { parmcb::set_global_tbb_concurrency((std::size_t)n); }
static void run(const std::string &a, int k, Graph &g) {
    Cycles cy; WeightMap wm = boost::get(boost::edge_weight, g);
    if (a == "signed") { if (k) parmcb::approx_mcb_sva_signed_tbb(g, wm, k, std::back_inserter(cy)); else parmcb::mcb_sva_signed_tbb(g, wm, std::back_inserter(cy)); }
    else if (a == "fvs") { if (k) parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, std::back_inserter(cy)); else parmcb::mcb_sva_fvs_trees_tbb(g, wm, std::back_inserter(cy)); }
    else { if (k) parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, std::back_inserter(cy)); else parmcb::mcb_sva_iso_trees_tbb(g, wm, std::back_inserter(cy)); }
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    int len = c.i("len", 2), hi = c.i("hi", 4096);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    Graph g; fill_graph(g, s, w, nullptr);
    std::string a = c.s("a", "none");
    for (int i = 0; i < len; i++) {
        long n = symx_int("n", 1, hi);
        if (symx_choice("nested", 2)) { setter_helper(n); } else parmcb::set_global_tbb_concurrency((std::size_t)n);
        long v = active();
        symx_assert_ieq(v, n, "limit");
        if (a != "none" && symx_choice("call", 2)) {
#ifndef REALTBB
            symx_tbb::Sched &sc = symx_tbb::sched(); sc.base = 1; sc.regions = 0; sc.lim_min = ~std::size_t(0); sc.lim_max = 0;
#endif
            run(a, c.i("k"), g);
#ifndef REALTBB
            if (sc.regions) { symx_reached("regions"); symx_assert_ieq((long)sc.lim_max, n, "limit-in-call"); symx_assert_ieq((long)sc.lim_min, n, "limit-in-call"); }
#endif
            symx_assert_ieq(active(), n, "limit-after-call");
        }
    }
    symx_flush("knob"); symx_reached("end");
}
