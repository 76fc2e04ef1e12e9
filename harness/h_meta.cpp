// C08: the reported optimum of a graph and of a transformed presentation of it,
// computed on the same path by (possibly different) exact variants.
#include <symx_tbb.hpp>
#include <symx_mpi.hpp>
#include "common.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/mpi/parmcb.hpp>
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
struct WG { GSpec s; std::vector<double> w; };
template<class OutS, class EdgeS> struct GT { typedef boost::adjacency_list<OutS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>, boost::no_property, EdgeS> type; };
static int ranks = 2;
template<class G> double run_on(const WG &x, const std::string &v) {
    G g(x.s.n);
    auto wm = boost::get(boost::edge_weight, g);
    for (size_t i = 0; i < x.s.e.size(); i++) { auto e = boost::add_edge(x.s.e[i].first, x.s.e[i].second, g).first; wm[e] = x.w[i]; }
    std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>> c;
    auto o = std::back_inserter(c);
    double r = -1;
    if (v == "signed") r = parmcb::mcb_sva_signed(g, wm, o);
    else if (v == "fvs") r = parmcb::mcb_sva_fvs_trees(g, wm, o);
    else if (v == "iso") r = parmcb::mcb_sva_iso_trees(g, wm, o);
    else if (v == "signed_tbb") r = parmcb::mcb_sva_signed_tbb(g, wm, o);
    else if (v == "fvs_tbb") r = parmcb::mcb_sva_fvs_trees_tbb(g, wm, o);
    else if (v == "iso_tbb") r = parmcb::mcb_sva_iso_trees_tbb(g, wm, o);
    else {
        std::vector<double> t(ranks, 0.0);
        std::vector<std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>>> cs(ranks);
        bool ok = symx_mpi::run(ranks, 1, [&](int k) {
            boost::mpi::communicator world; auto ok = std::back_inserter(cs[k]);
            if (v == "signed_mpi") t[k] = parmcb::mcb_sva_signed_mpi(g, wm, ok, world);
            else if (v == "fvs_mpi") t[k] = parmcb::mcb_sva_fvs_trees_mpi(g, wm, ok, world);
            else if (v == "fvs_tbb_mpi") t[k] = parmcb::mcb_sva_fvs_trees_tbb_mpi(g, wm, ok, world);
            else if (v == "iso_mpi") t[k] = parmcb::mcb_sva_iso_trees_mpi(g, wm, ok, world);
            else if (v == "iso_tbb_mpi") t[k] = parmcb::mcb_sva_iso_trees_tbb_mpi(g, wm, ok, world);
            else { fprintf(stderr, "unknown variant %s\n", v.c_str()); _Exit(71); }
        });
        if (!ok) symx_fail("deadlock", "MPI variant does not return");
        r = t[0];
    }
    return r;
}
static double run(const WG &x, const std::string &v, const std::string &ty) {
    if (ty == "list") return run_on<GT<boost::listS, boost::listS>::type>(x, v);
    if (ty == "set") return run_on<GT<boost::setS, boost::listS>::type>(x, v);
    if (ty == "hash") return run_on<GT<boost::hash_setS, boost::listS>::type>(x, v);
    return run_on<GT<boost::vecS, boost::listS>::type>(x, v);
}
static std::vector<int> perm_of(int n, const char *what, int mode, unsigned salt) {   // mode 0: any (small n); otherwise one of a few
    std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    if (n < 2) return p;
    if (mode == 0 && n <= 4) { for (int i = n - 1; i > 0; i--) std::swap(p[i], p[symx_choice(what, i + 1)]); return p; }
    int k = mode < 0 ? -mode : symx_choice(what, mode > 1 ? mode : 3);
    if (k == 0) { std::reverse(p.begin(), p.end()); return p; }
    unsigned x = 362436069u + 104729u * (k + 17 * salt);
    for (int i = n - 1; i > 0; i--) std::swap(p[i], p[xs(x) % (i + 1)]);
    return p;
}
static WG renumber(const WG &a, int mode, unsigned salt) { WG b = a; std::vector<int> p = perm_of(a.s.n, "renumber", mode, salt); for (auto &e : b.s.e) { e.first = p[e.first]; e.second = p[e.second]; } return b; }
static WG reorder(const WG &a, int mode, unsigned salt) {
    WG b = a; std::vector<int> p = perm_of(a.s.e.size(), "edge-order", mode, salt);
    for (size_t i = 0; i < p.size(); i++) { b.s.e[i] = a.s.e[p[i]]; b.w[i] = a.w[p[i]]; }
    int f = mode < 0 ? 2 : symx_choice("flip", 3); for (size_t i = 0; i < p.size(); i++) if (f == 1 || (f == 2 && i % 2)) std::swap(b.s.e[i].first, b.s.e[i].second);
    return b;
}
static double bw(const Cfg &c, const WG &a) { return c.i("bsym") ? symx_real("bridge-weight", 1.0 / 1024, WMAX) : a.w.empty() ? 1.0 : a.w[0]; }
static int pick(const Cfg &c, const char *what, int n) { return c.i("pm") < 0 ? c.i("salt") % n : symx_choice(what, n); }
static WG grow(const WG &a, const Cfg &c, int kind) {
    WG b; int shift = 0;
    if (kind == 0) { int front = pick(c, "isolated-front", 2); b = a; if (front) { shift = 1; for (auto &e : b.s.e) { e.first++; e.second++; } } b.s.n = a.s.n + 2; return b; }
    b = a;
    int at = a.s.n ? pick(c, "at", std::min(a.s.n, c.i("ats", 3))) : -1;
    if (kind == 1) {   // pendant tree: path of two edges (and a leaf) at some vertex
        int v = b.s.n; b.s.n += 3;
        std::vector<std::pair<int, int>> ne = {{at < 0 ? v : at, at < 0 ? v + 1 : v}, {v, v + 2}, {v + 1, v + 2}};
        if (at < 0) ne = {{v, v + 1}, {v + 1, v + 2}};
        bool front = pick(c, "pendant-first", 2); double base = bw(c, a);
        std::vector<double> nw; for (size_t i = 0; i < ne.size(); i++) nw.push_back(base * (1.0 + i));
        b.s.e.insert(front ? b.s.e.begin() : b.s.e.end(), ne.begin(), ne.end()); b.w.insert(front ? b.w.begin() : b.w.end(), nw.begin(), nw.end());
    } else {   // bridges: join the components into one
        double base = bw(c, a); std::vector<int> rep; std::vector<int> comp(a.s.n, -1); int k = 0;
        for (int i = 0; i < a.s.n; i++) if (comp[i] < 0) { std::vector<int> st(1, i); comp[i] = k; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &e : a.s.e) { int y = e.first == x ? e.second : e.second == x ? e.first : -1; if (y >= 0 && comp[y] < 0) { comp[y] = k; st.push_back(y); } } } k++; rep.push_back(i); }
        if (k < 2) { b.s.n++; b.s.e.push_back({b.s.n - 1, at}); b.w.push_back(base); }
        else for (int i = 1; i < k; i++) { int u = rep[0], v = rep[i]; for (int j = a.s.n - 1; j >= 0; j--) if (comp[j] == i) { v = j; break; } b.s.e.push_back({u, v}); b.w.push_back(base * i); }
    }
    return b;
}
static WG subdivide(const WG &a, const Cfg &c) {
    if (a.s.e.empty()) return a;
    WG b = a; int es = c.i("edges", 4), m = a.s.e.size(); int i = pick(c, "subdivide", std::min(m, es)); if (es < m) i = (i * 7 + 3) % m;
    double x = symx_real("part", 1.0 / 1024, WMAX); symx_assume(x < a.w[i]);
    int v = pick(c, "new-vertex", 2) ? b.s.n : 0;
    if (v == 0) { for (auto &e : b.s.e) { e.first++; e.second++; } }
    b.s.n++;
    int t = b.s.e[i].second; b.s.e[i].second = v; b.w[i] = x;
    b.s.e.push_back({v, t}); b.w.push_back(a.w[i] - x);
    return b;
}
static WG join(const WG &a, const WG &h, int inter) {   // disjoint union, interleaved numbering and edge order
    WG b; b.s.n = a.s.n + h.s.n; int il = inter;
    auto pa = [&](int v) { return il == 0 ? v : il == 1 ? v + h.s.n : v < h.s.n ? 2 * v : v + h.s.n; };
    auto ph = [&](int v) { return il == 0 ? v + a.s.n : il == 1 ? v : v < a.s.n ? 2 * v + 1 : v + a.s.n; };
    size_t i = 0, j = 0;
    while (i < a.s.e.size() || j < h.s.e.size()) {
        bool fa = j >= h.s.e.size() || (i < a.s.e.size() && (il == 0 || (il == 2 && i <= j)));
        if (fa) { b.s.e.push_back({pa(a.s.e[i].first), pa(a.s.e[i].second)}); b.w.push_back(a.w[i]); i++; }
        else { b.s.e.push_back({ph(h.s.e[j].first), ph(h.s.e[j].second)}); b.w.push_back(h.w[j]); j++; }
    }
    return b;
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    WG a; a.s = big_graph(c); a.w = make_weights(c, a.s.e.size());
    std::string v1 = c.s("v1", "signed"), v2 = c.s("v2", v1.c_str()), t = c.s("t", "id");
    ranks = c.i("P", 2); symx_tbb::sched().base = c.i("base", 3);
    int mode = c.i("pm", 0);
    double w1 = run(a, v1, c.s("ty1", "vec")), expect = w1;
    WG b = a;
    for (auto &k : split(t, '+')) {
        if (k == "id") ;
        else if (k == "renum") b = renumber(b, mode, c.i("salt"));
        else if (k == "order") b = reorder(b, mode, c.i("salt"));
        else if (k == "isolated") b = grow(b, c, 0);
        else if (k == "pendant") b = grow(b, c, 1);
        else if (k == "bridge") b = grow(b, c, 2);
        else if (k == "subdiv") b = subdivide(b, c);
        else if (k == "scale") { static const double S[] = {2, 0.5, 1024, 1.0 / 256, 4294967296.0}; double f = S[pick(c, "scale", 5)]; for (auto &x : b.w) x *= f; expect *= f; }
        else if (k == "union") {
            WG h; Cfg d(config); d.m["g"] = c.s("g2", "K3"); d.m["w"] = c.s("w2", c.s("w", "r").c_str()); d.m["perm"] = c.s("perm2", "0"); d.m["ws"] = c.s("ws2", "5"); h.s = big_graph(d); h.w = make_weights(d, h.s.e.size());
            b = join(b, h, pick(c, "interleave", 3)); expect += run(h, c.s("v3", v1.c_str()), "vec");
        } else { fprintf(stderr, "unknown transformation %s\n", k.c_str()); _Exit(71); }
    }
    double w2 = run(b, v2, c.s("ty2", c.s("ty1", "vec").c_str()));
    symx_assert_eq(w2, expect, "optimum-differs");
    symx_flush(t.c_str());
    symx_reached("compared");
}
