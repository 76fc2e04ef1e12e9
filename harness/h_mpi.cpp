// C04: the MPI entry points on P modelled ranks, each with its own copy of the
// graph at addresses of its own.
#include <symx_tbb.hpp>
#include <symx_mpi.hpp>
#include "common.hpp"
// edge nodes come from a slab of the rank, from its low or its high end
struct Slab { char *lo, *hi; int policy, n; };
inline Slab *&slab() { static Slab *s = nullptr; return s; }
template<class T> struct LayoutAlloc {
    typedef T value_type;
    LayoutAlloc() {}
    template<class U> LayoutAlloc(const LayoutAlloc<U> &) {}
    T *allocate(std::size_t n) {
        Slab *s = slab(); std::size_t b = (n * sizeof(T) + 15) & ~std::size_t(15);
        if (!s) return (T *)malloc(b);
        s->n++;
        bool low = s->policy == 0 ? true : s->policy == 1 ? false : s->policy == 2 ? s->n & 1 : symx_choice("layout", 2) == 0;
        if (s->n == 1) low = true;   // the first one has no neighbours
        if (low) { char *p = s->lo; s->lo += b; return (T *)p; }
        s->hi -= b; return (T *)s->hi;
    }
    void deallocate(T *, std::size_t) {}
    template<class U> bool operator==(const LayoutAlloc<U> &) const { return true; }
    template<class U> bool operator!=(const LayoutAlloc<U> &) const { return false; }
};
struct LayoutListS {};
namespace boost { template<class T> struct container_gen<LayoutListS, T> { typedef std::list<T, LayoutAlloc<T>> type; }; }
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>, boost::no_property, LayoutListS> MG;
typedef boost::graph_traits<MG>::edge_descriptor ME;
#include <parmcb/mpi/parmcb.hpp>
static int id_of(const std::vector<ME> &edges, const ME &e) {
    for (size_t i = 0; i < edges.size(); i++) if (edges[i].get_property() == e.get_property()) {
        if ((edges[i].m_source == e.m_source && edges[i].m_target == e.m_target) || (edges[i].m_source == e.m_target && edges[i].m_target == e.m_source)) return i;
        return -1;
    }
    return -1;
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    GSpec s = make_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    int P = c.i("P", 2); std::string a = c.s("a", "signed"), lay = c.s("lay", "any");
    int mode = c.has("mode") ? c.i("mode") : symx_choice("reduce-order", P > 2 ? 4 : 3);
    symx_tbb::sched().base = c.s("base") == "any" ? symx_choice("base", 4) : c.i("base", 1);
    std::vector<int> pol(P);
    for (int r = 0; r < P; r++) pol[r] = lay == "any" ? (r == 0 ? 0 : symx_choice("policy", 2)) : lay == "sym" ? (r == 0 ? 0 : 3) : lay == "mix" ? r % 3 : 0;
    std::vector<MG *> gs(P); std::vector<std::vector<ME>> es(P);
    for (int r = 0; r < P; r++) {
        symx_arena_switch(1 + r % 8);
        Slab sl; std::size_t SZ = 128 * (s.e.size() + 2); sl.lo = (char *)malloc(SZ); sl.hi = sl.lo + SZ; sl.policy = pol[r]; sl.n = 0; slab() = &sl;
        MG *g = new MG(s.n); gs[r] = g;
        auto wm = boost::get(boost::edge_weight, *g);
        for (size_t i = 0; i < s.e.size(); i++) { ME e = boost::add_edge(s.e[i].first, s.e[i].second, *g).first; wm[e] = w[i]; es[r].push_back(e); }
        slab() = nullptr;
        symx_arena_switch(0);
    }
    std::vector<std::list<std::list<ME>>> out(P); std::vector<double> total(P, 0.0); std::vector<int> ret(P, 0);
    bool ok = symx_mpi::run(P, mode, [&](int r) {
        boost::mpi::communicator world;
        auto wm = boost::get(boost::edge_weight, *gs[r]);
        auto o = std::back_inserter(out[r]);
        try {
            if (a == "signed") total[r] = parmcb::mcb_sva_signed_mpi(*gs[r], wm, o, world);
            else if (a == "fvs") total[r] = parmcb::mcb_sva_fvs_trees_mpi(*gs[r], wm, o, world);
            else if (a == "fvst") total[r] = parmcb::mcb_sva_fvs_trees_tbb_mpi(*gs[r], wm, o, world);
            else if (a == "iso") total[r] = parmcb::mcb_sva_iso_trees_mpi(*gs[r], wm, o, world);
            else total[r] = parmcb::mcb_sva_iso_trees_tbb_mpi(*gs[r], wm, o, world);
        } catch (std::exception &e) { char b[200]; snprintf(b, sizeof b, "rank %d left with an exception: %s", r, e.what()); symx_fail("exception", b); }
        ret[r] = 1;
    });
    if (!ok) { long k = 0; for (int r = 0; r < P; r++) k += !ret[r]; symx_failf("deadlock", "%ld of %ld ranks never return", k, P); }
    for (int r = 0; r < P; r++) if (!ret[r]) symx_failf("rank-lost", "rank %ld did not return", r);
    for (int r = 1; r < P; r++) if (!out[r].empty()) symx_failf("other-rank-output", "rank %ld emitted %ld cycles", r, out[r].size());
    // rank 0: as C01/C02
    long dim = (long)s.e.size() - s.n + orc_components(s);
    if ((long)out[0].size() != dim) symx_failf("cycle-count", "emitted %ld cycles, cycle space dimension is %ld", out[0].size(), dim);
    std::vector<mask_t> b;
    for (auto &cy : out[0]) {
        mask_t m = 0; if (cy.empty()) symx_fail("empty-cycle", "an emitted cycle is empty");
        for (auto &e : cy) { int i = id_of(es[0], e); if (i < 0) symx_fail("foreign-edge", "an emitted descriptor is not an edge of rank 0's graph"); if (m >> i & 1) symx_fail("repeated-edge", "a cycle repeats an edge"); m |= 1ull << i; }
        if (!orc_simple_cycle(s, m)) symx_failf("not-simple-cycle", "cycle %ld (mask %lx) is not a simple cycle", b.size(), (long)m);
        b.push_back(m);
    }
    if (orc_rank(b) != (int)b.size()) symx_failf("dependent", "emitted cycles have rank %ld of %ld", orc_rank(b), b.size());
    symx_assert_eq(total[0], total_weight(b, w), "returned-weight");
    assert_minimum(s, b, w, "not-minimum");
    symx_flush(a.c_str());
    symx_reached("mpi");
}
