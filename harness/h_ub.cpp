// C07: memory safety, undefined behaviour, leaks. Nothing here asserts on results:
// the engine's memory model, the compiler's undefined-behaviour traps and the
// leak count are the property; everything handed back is read by the caller.
#include <symx_tbb.hpp>
#include "common.hpp"
#include <sstream>
#include "hx_stdio.hpp"
#ifdef SYMX_NATIVE
static FILE *open_text() { std::vector<char> &b = hx_bytes(); if (b.empty()) b.push_back('\n'); return fmemopen(b.data(), b.size(), "r"); }
static void close_text(FILE *f) { fclose(f); }
#else
#define HX_STDIO_RENAME
#include "hx_stdio.hpp"
static FILE *open_text() { return hx_fopen("", "r"); }
static void close_text(FILE *f) { hx_fclose(f); }
#endif
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/graph/connected_components.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/spvecfp.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/arithmetic.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/spanning_forest.hpp>
#include <parmcb/detail/bfs.hpp>
#include <parmcb/detail/dijkstra.hpp>
#include <parmcb/detail/lex_dijkstra.hpp>
using namespace boost;
static void use(bool b) { if (b) symx_touch(); }     // a branch: an undefined value is noticed

template<class W> struct Of {
    typedef adjacency_list<vecS, vecS, undirectedS, no_property, property<edge_weight_t, W, property<edge_index_t, std::size_t>>> V;
    typedef adjacency_list<listS, vecS, undirectedS, no_property, property<edge_weight_t, W, property<edge_index_t, std::size_t>>> L;
    typedef adjacency_list<setS, vecS, undirectedS, no_property, property<edge_weight_t, W, property<edge_index_t, std::size_t>>, no_property, listS> S;
};
// read everything the caller got
template<class G, class WM, class W> static void touch(const G &g, const WM &wm, const std::list<std::list<typename graph_traits<G>::edge_descriptor>> &cs, const W &total) {
    use(total < W(3));
    for (auto &c : cs) for (auto &e : c) { use(source(e, g) < target(e, g)); use(get(wm, e) < W(2)); use(get(edge_index, g, e) > 1); }
}
// the approximation entry points take the graph's own edge_weight map
template<class G, class WM, class CS, class W> static void approx(const Cfg &c, const G &g, const WM &wm, std::true_type, CS &cs, W &t) {
    std::string f = c.s("f"), a = c.s("a");
    int k = c.i("k", 2);
    auto o = std::back_inserter(cs);
    if (f == "approx") t = a == "signed" ? parmcb::approx_mcb_sva_signed(g, wm, k, o) : a == "fvs" ? parmcb::approx_mcb_sva_fvs_trees(g, wm, k, o) : parmcb::approx_mcb_sva_iso_trees(g, wm, k, o);
    else t = a == "signed" ? parmcb::approx_mcb_sva_signed_tbb(g, wm, k, o) : a == "fvs" ? parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, o) : parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, o);
}
template<class G, class WM, class CS, class W> static void approx(const Cfg &, const G &, const WM &, std::false_type, CS &, W &) {}
template<class G, class WM> static void entry(const Cfg &c, const G &g, const WM &wm) {
    typedef typename graph_traits<G>::edge_descriptor E;
    typedef typename property_traits<WM>::value_type W;
    std::string f = c.s("f"), a = c.s("a");
    std::list<std::list<E>> cs; W t = W();
    auto o = std::back_inserter(cs);
    if (f == "exact") t = a == "signed" ? parmcb::mcb_sva_signed(g, wm, o) : a == "fvs" ? parmcb::mcb_sva_fvs_trees(g, wm, o) : parmcb::mcb_sva_iso_trees(g, wm, o);
    else if (f == "tbb") t = a == "signed" ? parmcb::mcb_sva_signed_tbb(g, wm, o) : a == "fvs" ? parmcb::mcb_sva_fvs_trees_tbb(g, wm, o) : parmcb::mcb_sva_iso_trees_tbb(g, wm, o);
    else approx(c, g, wm, std::is_same<WM, typename property_map<G, edge_weight_t>::type>(), cs, t);
    touch(g, wm, cs, t);
}
// a part of the library nothing else in it calls: exercised while it is there
template<class T, class F> static auto serializable(T &t, F &fi, int) -> decltype(t.create_serializable_candidate_cycles(fi), void()) { for (auto &x : t.create_serializable_candidate_cycles(fi)) use(x.e + x.v > 3); }
template<class T, class F> static void serializable(T &, F &, long) {}
template<class B, class G, class WM> static void builder(const G &g, const WM &wm) {
    typedef parmcb::SPTree<G, WM> Tree; typedef parmcb::CandidateCycle<G, WM> Cand;
    typedef typename graph_traits<G>::edge_descriptor E;
    std::vector<Tree> trees; std::vector<Cand> cycles;
    B b; b(g, wm, trees, cycles);
    parmcb::ForestIndex<G> fi(g);
    for (auto &c : cycles) {
        use(c.weight() < 3); use(get(wm, c.edge()) < 3);
        auto &t = trees[c.tree()];
        use(t.source() == source(c.edge(), g)); use(t.first(source(c.edge(), g)) == 0); use(t.id() == 1); use(num_vertices(t.graph()) > 2);
    }
    std::vector<Cand> copy(cycles); std::reverse(copy.begin(), copy.end()); copy.insert(copy.end(), cycles.begin(), cycles.end()); if (copy.size() > 1) copy[0] = copy[1];
    std::set<E> sg; int i = 0; for (auto e : make_iterator_range(edges(g))) if (i++ % 2) sg.insert(e);
    parmcb::CandidateCycleBuilder<G, WM> cb(g, wm);
    for (auto &t : trees) { t.update_parities(sg); serializable(t, fi, 0); for (auto &x : t.create_candidate_cycles()) use(x.weight() < 5); }
    for (auto &x : copy) { auto r = cb(trees, x, sg, false, 0); if (std::get<2>(r)) { use(std::get<1>(r) < 4); for (auto &e : std::get<0>(r)) use(get(wm, e) < 2); } }
    parmcb::ShortestOddCycleLookup<G, WM, false> lk(g, wm, trees, cycles, false);
    auto r = lk(sg); if (std::get<2>(r)) { use(std::get<1>(r) < 4); for (auto &e : std::get<0>(r)) use(get(wm, e) < 2); }
    parmcb::CandidateCycleToSerializableConverter<G, WM> cv(trees, fi);
    for (auto &x : cycles) { auto y = cv(x); use(y.v < y.e); }
    for (auto &t : trees) for (auto v : make_iterator_range(vertices(g))) { auto n = t.node(v); if (n) { use(n->weight() < 2); use(n->parity()); use(n->has_pred()); use(n->vertex() == v); for (auto ch : n->children()) use(ch->vertex() == v); } }
}
template<class G, class WM> static void components(const Cfg &c, const G &g, const WM &wm) {
    typedef typename graph_traits<G>::edge_descriptor E; typedef typename graph_traits<G>::vertex_descriptor V; typedef typename property_traits<WM>::value_type W;
    std::string f = c.s("f");
    if (f == "horton") builder<parmcb::detail::HortonCyclesBuilder<G, WM>>(g, wm);
    else if (f == "fvsb") builder<parmcb::detail::FVSCyclesBuilder<G, WM>>(g, wm);
    else if (f == "isob") builder<parmcb::detail::ISOCyclesBuilder<G, WM>>(g, wm);
    else if (f == "index") {
        parmcb::ForestIndex<G> a(g), b(a);
        G h(g); for (int i = 0; i < 2; i++) add_vertex(h);
        { parmcb::ForestIndex<G> d(h); b = d; use(b.weak_connected_components() > 1); }
        b = a; b = b;
        for (auto e : make_iterator_range(edges(g))) { use(b(e) < 3); use(b.is_on_forest(e)); E x = b(b(e)); use(get(wm, x) < 3); }
        use(b.cycle_space_dimension() > 1); use(b.weak_connected_components() > 1);
        parmcb::SpVecGF2<std::size_t> v; if (b.cycle_space_dimension()) { v = parmcb::SpVecGF2<std::size_t>(0); std::set<E> es; parmcb::convert_edges(v, std::inserter(es, es.end()), b); std::set<std::size_t> is; parmcb::convert_edges(es, std::inserter(is, is.end()), b); for (auto i : is) use(i == 0); }
        parmcb::SerializableMinOddCycle<G, WM> x, y(std::vector<std::size_t>{0}, W(1), true), z(x); z = y; parmcb::SerializableMinOddCycleMinOp<G, WM> op; use(op(x, y).exists); use(op(y, z).weight < 2); use(op(x, x).exists);
    } else if (f == "fvs") { std::vector<V> o; parmcb::greedy_fvs(g, std::back_inserter(o)); for (V v : o) use(v < 2); }
    else if (f == "search") {
        auto im = get(vertex_index, g);
        for (auto s : make_iterator_range(vertices(g))) {
            std::vector<W> d(num_vertices(g), (std::numeric_limits<W>::max)());
            std::vector<std::tuple<bool, E>> p(num_vertices(g), std::make_tuple(false, E()));
            function_property_map<parmcb::detail::VertexIndexFunctor<G, W>, V, W&> dm(parmcb::detail::VertexIndexFunctor<G, W>(d, im));
            function_property_map<parmcb::detail::VertexIndexFunctor<G, std::tuple<bool, E>>, V, std::tuple<bool, E>&> pm(parmcb::detail::VertexIndexFunctor<G, std::tuple<bool, E>>(p, im));
            if (c.s("a") == "dij") parmcb::dijkstra(g, wm, s, dm, pm);
            else if (c.s("a") == "lex") parmcb::lex_dijkstra(g, wm, s, dm, pm);
            else { parmcb::bfs(g, s, dm, pm); for (auto t : make_iterator_range(vertices(g))) for (std::size_t h = 0; h < 4; h++) use(parmcb::is_bfs_reachable(g, s, t, h)); }
            for (auto x : d) use(x < 2);
            for (auto &x : p) if (std::get<0>(x)) use(get(wm, std::get<1>(x)) < 2);
        }
    } else if (f == "pred") { use(parmcb::has_loops(g)); use(parmcb::has_multiple_edges(g)); use(parmcb::has_non_positive_weights(g, wm)); }
    use(true);
}
#ifdef UB_COMP
#define CALL components
#else
#define CALL entry
#endif
template<class G> static void graphs(const Cfg &c) {
    typedef typename graph_traits<G>::edge_descriptor E;
    typedef typename property_map<G, edge_weight_t>::type WM; typedef typename property_traits<WM>::value_type W;
    GSpec s = big_graph(c);
    std::vector<double> w = make_weights(c, s.e.size());
    symx_tbb::Sched &sc = symx_tbb::sched(); sc.base = c.i("base"); sc.budget = c.i("dev"); sc.maxcuts = 2;
    symx_tbb::limit_now();
    symx_mem_mark_begin();
    {
        G g(s.n); std::vector<E> es;
        std::vector<W> ws(s.e.size());
        for (std::size_t i = 0; i < s.e.size(); i++) {
            E e = add_edge(s.e[i].first, s.e[i].second, g).first; ws[i] = (W)w[i];
            put(edge_weight, g, e, (W)w[i]); put(edge_index, g, e, i);
        }
        if (c.s("wm") == "iter") {   // a weight map with a state of its own
            auto im = get(edge_index, g);
            CALL(c, g, make_iterator_property_map(ws.begin(), im));
        } else CALL(c, (const G &)g, get(edge_weight, g));
    }
    if (symx_mem_leaked()) symx_failf("leak", "%ld blocks allocated by the call are still allocated after its results are gone", symx_mem_leaked());
    symx_flush("mem"); symx_reached("mem");
}
template<class P> static void arith(const Cfg &c, int64_t lim) {
    int n = c.i("n", 2);
    std::vector<int64_t> x(n); for (auto &v : x) v = symx_int("x", -lim, lim);
    int64_t p = symx_int("p", 2, c.i("P", 40));
    symx_mem_mark_begin();
    {
        std::string q = c.s("q");
        if (q == "gcd") { symx_assume(x[0] != 0 || x[1] != 0); P a(x[0]), b(x[1]), s(1), t(1); P g = parmcb::fp<P>::ext_gcd(a, b, s, t); use(g < P(3)); use(s < t); }
        else if (q == "inv") { int64_t u = x[0] < 0 ? -x[0] : x[0], v = p; while (v) { int64_t t = u % v; u = v; v = t; } symx_assume(u == 1); P a(x[0]), m(p); use(parmcb::fp<P>::get_mult_inverse(a, m) < P(3)); }
        else if (q == "prime") use(parmcb::primes<P>::is_prime(P(p)));
        else {
            parmcb::SpVecFP<P> a{P(p)}, b{P(p)}, d{P(p)}; a = std::size_t(3); b = std::size_t(5); a = a * P(x[0]) + b; b *= P(x[1]); d = a + b * P(2); d += a; d = d; use(a * b < P(1)); use(d.size() > 1);
            for (auto &e : d) use(boost::get<0>(e) < 4); parmcb::SpVecFP<P> m(std::move(d)); use(m.size() > 0); d = std::move(m); d.clear();  std::ostringstream os; os << b; use(os.str().size() > 3);
        }
    }
    if (symx_mem_leaked()) symx_fail("leak", "memory is still allocated after the objects are gone");
    symx_flush("mem"); symx_reached("mem");
}
static void gf2(const Cfg &c) {
    typedef parmcb::SpVecGF2<std::size_t> V;
    std::vector<std::size_t> k(c.i("m", 3)); for (auto &x : k) x = (std::size_t)symx_int("k", 0, 1ll << 40);
    std::vector<int> kind; for (int i = 0; i < c.i("steps", 2); i++) kind.push_back(symx_choice("op", 9));
    int x = symx_choice("x", 2);
    symx_mem_mark_begin();
    {
        V v[2]; std::set<std::size_t> s;
        for (std::size_t i = 0; i < k.size(); i++) { v[i % 2] += V(k[i]); s.insert(k[i]); }
        V &a = v[x], &b = v[0]; std::size_t top = 0;
        for (int op : kind) switch (op) {
            case 0: a += b; break; case 1: a = b; break; case 2: a = std::move(b); b.clear(); break; case 3: { V t(a); t = t + b; a = t; break; }
            case 4: { V t(std::move(a)); b = t; a.clear(); break; } case 5: use(a * b == 1); break; case 6: use(a * s == 1); break; case 7: a = V(s); break; case 8: a.add((std::size_t(1) << 41) + top++); break;
        }
        for (auto &r : v) { for (auto i : r) use(i < 4); use(r.size() > 2); std::ostringstream os; os << r; use(os.str().size() > 3); }
    }
    if (symx_mem_leaked()) symx_fail("leak", "memory is still allocated after the vectors are gone");
    symx_flush("mem"); symx_reached("mem");
}
// a DIMACS text: every line kind, with bytes chosen by the solver
static void dimacs(const Cfg &c) {
    std::vector<char> &b = hx_bytes(); b.clear();
    auto S = [&](const std::string &t) { for (char x : t) b.push_back(x); };
    auto sym = [&](int lo, int hi) { b.push_back((char)symx_int("byte", lo, hi)); };
    int n = c.i("n", 3), m = c.i("m", 2), len = c.i("len", 0), csy = c.i("csy", 3);
    if (c.i("com")) { S(symx_choice("comment", 2) ? "#" : "c"); for (int i = 0; i < csy; i++) sym(' ', '~'); for (int i = csy; i < len; i++) b.push_back('x'); S("\n"); }
    if (c.i("plen")) { S("p "); for (int i = 0; i < csy; i++) sym('a', 'z'); for (int i = csy; i < c.i("plen"); i++) S("d"); S(" " + std::to_string(n) + " " + std::to_string(m) + "\n"); }
    else S("p edge " + std::to_string(n) + " " + std::to_string(m) + "\n");
    for (int i = 0; i < m; i++) {
        S(symx_choice("ea", 2) ? "a " : "e "); sym('1', '0' + n); S(" "); sym('1', '0' + n);
        if (symx_choice("weight", 2)) { S(" "); for (int j = 0; j < c.i("wd", 2); j++) sym('0', '9'); if (symx_choice("frac", 2)) { S("."); sym('0', '9'); } }
        for (int j = 0; j < c.i("pad"); j++) b.push_back(' ');
        if (i + 1 < m || symx_choice("newline", 2)) S("\n");
    }
    symx_mem_mark_begin();
    {
        Graph g; FILE *f = open_text();
        parmcb::read_dimacs_from_file(f, g);
        close_text(f);
        for (auto e : make_iterator_range(edges(g))) { use(get(edge_weight, g, e) < 3); use(source(e, g) < target(e, g)); }
        use(parmcb::has_loops(g)); use(parmcb::has_multiple_edges(g));
    }
    if (symx_mem_leaked()) symx_fail("leak", "memory is still allocated after the graph is gone");
    symx_flush("mem"); symx_reached("mem");
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    std::string f = c.s("f"), t = c.s("t", "vec");
#ifdef UB_MISC
    if (f == "gf2") gf2(c);
    else if (f == "dimacs") dimacs(c);
    else if (f == "arith") { if (t == "int") arith<int>(c, c.i("lim", 1000)); else if (t == "long") arith<long>(c, c.i("lim", 1000)); else arith<multiprecision::cpp_int>(c, c.i("lim", 1000)); }
#else
    if (t == "vec") graphs<Of<double>::V>(c);
#ifndef UB_ENTRY
    else if (t == "list") graphs<Of<double>::L>(c);
    else if (t == "set") graphs<Of<double>::S>(c);
#endif
    else if (t == "int") graphs<Of<int>::V>(c);
#endif
}
