// C10: DIMACS reader (f=read) and input validators (f=pred).
#include "common.hpp"
#include <system_error>
#include <cmath>
#include "hx_stdio.hpp"
#ifdef SYMX_NATIVE
// the replay reads the same bytes through the C library
static FILE *open_text() { std::vector<char> &b = hx_bytes(); if (b.empty()) b.push_back('\n'); return fmemopen(b.data(), b.size(), "r"); }
static void close_text(FILE *f) { fclose(f); }
#else
#define HX_STDIO_RENAME
#include "hx_stdio.hpp"
static FILE *open_text() { return hx_fopen("", "r"); }
static void close_text(FILE *f) { hx_fclose(f); }
#endif
#include <parmcb/util.hpp>

struct Exp { int64_t u, v; double w; bool def; };
struct Text {
    std::vector<char> &b = hx_bytes();
    Text() { b.clear(); }
    void c(char x) { b.push_back(x); }
    void s(const char *t) { while (*t) b.push_back(*t++); }
    void s(const std::string &t) { s(t.c_str()); }
    char sym(int lo, int hi) { char x = (char)symx_int("byte", lo, hi); b.push_back(x); return x; }
    int64_t dig(int lo = '0', int hi = '9') { char x = sym(lo, hi); return x - '0'; }
    // an unsigned number of k digits, any value
    int64_t num(int k, int hi = 9) { int64_t v = 0; for (int i = 0; i < k; i++) v = v * 10 + dig('0', '0' + (i == 0 ? hi : 9)); return v; }
    void eol(bool nl) { if (nl) c('\n'); }
};
// a comment line: 'c' or '#', then len bytes, the first `sy` of them any printable character
static void comment(Text &t, int sy, int len, char fill, const std::string &pat) {
    t.c(symx_choice("comment", 2) ? '#' : 'c');
    for (int i = 0; i < len; i++) { if (pat == "edge") t.c("e 1 2 "[i % 6]); else if (pat == "problem") t.c("p edge 2 1 "[i % 11]); else if (i < sy) t.sym(' ', '~'); else if (i >= len - 2 && len > 8) t.sym('a', 'p'); else t.c(fill); }
}
static int sep(Text &t, int mode) { int k = mode ? symx_choice("sep", 3) : 0; t.s(k == 0 ? " " : k == 1 ? "\t" : "  "); return k; }
static const char *const DEC[] = {"0.5", "2.25", "10.125", ".75", "3.", "1e2", "-0.5", "0.0", "-7", "1e-3", "12345.678", "1E+1", "0.1", "999999999", "-0", "1000000.000001"};
static void edge_line(Text &t, const Cfg &c, std::vector<Exp> &out, int n) {
    Exp e; e.w = 1; e.def = false;
    std::string wk = c.s("wt", "int");
    if (symx_choice("ea", 2)) t.c('a'); else t.c('e');
    int sm = c.i("seps");
    sep(t, sm);
    int dg = c.i("dig", 1), hi = c.i("hi", n + 1 > 9 ? 9 : n + 1);
    if (c.i("far")) {   // vertex numbers of any length, declared or not
        const int64_t far[] = {1, n, 0, n + 1, -1, -n, 10, 99, 100, 127, 128, 129, 255, 256, 257, n / 2, n - 1, 10 * n, 32768, 65535, 65536, 65537, 65536 + n, 100001, 2147483647};
        e.u = far[symx_choice("far", sizeof far / sizeof *far)]; e.v = c.i("far") > 1 ? far[symx_choice("far", sizeof far / sizeof *far)] : n - 1;
        if (symx_choice("swap", 2)) std::swap(e.u, e.v);
        t.s(std::to_string(e.u)); sep(t, sm); t.s(std::to_string(e.v));
    } else { e.u = t.num(dg, hi); sep(t, sm); e.v = t.num(dg, hi); }
    if (wk == "none") e.def = true;
    else if (wk == "int") { sep(t, sm); int k = c.i("wd", 2); bool neg = c.i("neg") && symx_choice("neg", 2); if (neg) t.c('-'); int64_t x = t.num(k); e.w = (double)x; if (neg) e.w = -e.w; }
    else if (wk == "dec") { int k = symx_choice("dec", sizeof DEC / sizeof *DEC); sep(t, sm); t.s(DEC[k]); e.w = strtod(DEC[k], nullptr); }
    else if (wk == "frac") {   // d.d with symbolic digits
        sep(t, sm); std::string s; int a = (int)symx_split(t.dig()); t.c('.'); int b = (int)symx_split(t.dig()); s = std::to_string(a) + "." + std::to_string(b); e.w = strtod(s.c_str(), nullptr);
    } else if (wk == "mix") { if (symx_choice("omit", 2)) e.def = true; else { sep(t, sm); int64_t x = t.num(1); e.w = (double)x; } }
    if (c.i("trail") && symx_choice("trail", 2)) t.s(" ");
    for (int i = c.i("tpad"); i > 0; i--) t.c(' ');
    out.push_back(e);
}
template<class G> static void run_read(const Cfg &c) {
    Text t;
    int n = c.i("n", 3), m = c.i("m", 2), pos = c.i("cpos", -1), clen = c.i("clen", 3), csy = c.i("csy", 2);
    std::vector<Exp> want;
    std::vector<int> lines;  // 0 comment, 1 problem, 2 edge
    lines.push_back(1); for (int i = 0; i < m; i++) lines.push_back(2);
    int nc = c.i("nc", 0);
    for (int i = 0; i < nc; i++) { int p = pos >= 0 ? pos : symx_choice("pos", lines.size() + 1); lines.insert(lines.begin() + p, 0); }
    int nn = n;
    // many lines: concrete edges (and comments) before and after the symbolic one
    int many = c.i("many"), at = many ? symx_choice("at", 5) * many / 4 : 0; uint64_t lcg = c.i("seed", 1) * 7919 + 17;
    auto rnd = [&](int k) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)((lcg >> 33) % k); };
    for (int i = 0; i < many; i++) lines.insert(i < at ? lines.end() - m : lines.end(), rnd(11) == 0 ? 4 : 3);
    int pad = c.i("pad", 0);
    for (size_t i = 0; i < lines.size(); i++) {
        size_t start = t.b.size();
        if (lines[i] == 0) comment(t, csy, clen, 'e', c.s("pat"));
        else if (lines[i] == 1) {
            t.s("p "); t.s(c.s("p", "edge")); t.s(" ");
            if (c.i("symn")) { int64_t x = t.dig('0', '0' + n); nn = (int)symx_split(x); } else t.s(std::to_string(n));
            t.s(" "); t.s(std::to_string(lines.size() - 1 - nc - std::count(lines.begin(), lines.end(), 4)));
        } else if (lines[i] == 4) t.s("c 12 e 1 2 3");
        else if (lines[i] == 3) {
            Exp e; e.u = 1 + rnd(nn); e.v = 1 + rnd(nn); e.def = rnd(4) == 0; e.w = e.def ? 1 : rnd(5) ? 1 + rnd(100000) : 1 + rnd(1000) / 8.0;
            t.s(rnd(2) ? "e " : "a "); t.s(std::to_string(e.u)); t.s(" "); t.s(std::to_string(e.v));
            if (!e.def) { char b[40]; snprintf(b, sizeof b, " %.3f", e.w); if (e.w == (int)e.w && rnd(2)) snprintf(b, sizeof b, " %d", (int)e.w); t.s(b); }
            want.push_back(e);
        } else {
            edge_line(t, c, want, nn);
            if (pad) { // move the last field to the end of a long line
                size_t e = t.b.size(), k = e; while (t.b[k - 1] != ' ') k--;
                size_t len = e - start; if ((int)len < pad) t.b.insert(t.b.begin() + k, pad - len, ' ');
            }
        }
        bool last = i + 1 == lines.size();
        t.eol(!last || c.s("nl", "any") == "1" || (c.s("nl", "any") == "any" && symx_choice("newline", 2)));
    }
    bool undeclared = false;
    for (auto &e : want) if (e.u < 1 || e.u > nn || e.v < 1 || e.v > nn) undeclared = true;
    G g; bool threw = false;
    FILE *fp = open_text();
    try { parmcb::read_dimacs_from_file(fp, g); } catch (...) { threw = true; }
    close_text(fp);
    symx_reached("read");
    if (threw && !undeclared) symx_fail("spurious-error", "the reader raised an error although every edge names declared vertices");
    if (!threw && undeclared) symx_fail("undeclared-vertex", "an edge names an undeclared vertex, no error was raised");
    if (threw) return;
    if ((int)boost::num_vertices(g) != nn) symx_failf("vertex-count", "graph has %ld vertices, the problem line declares %ld", boost::num_vertices(g), nn);
    if (boost::num_edges(g) != want.size()) symx_failf("edge-count", "graph has %ld edges, the text has %ld edge lines", boost::num_edges(g), want.size());
    // vertex number of a descriptor: position in the vertex range
    auto number = [&](typename boost::graph_traits<G>::vertex_descriptor x) { long k = 1; auto r = boost::vertices(g); for (auto it = r.first; it != r.second; ++it, ++k) if (*it == x) return k; return 0l; };
    auto wm = boost::get(boost::edge_weight, g);
    auto r = boost::edges(g); size_t i = 0;
    for (auto it = r.first; it != r.second; ++it, ++i) {
        Exp &e = want[i];
        int64_t a = number(boost::source(*it, g)), b = number(boost::target(*it, g));
        if (!((a == e.u && b == e.v) || (a == e.v && b == e.u))) symx_failf("endpoints", "edge %ld does not join the vertices of its line", i);
        symx_assert_eq(boost::get(wm, *it), e.def ? 1.0 : e.w, "weight");
    }
    symx_flush("dimacs");
}
template<class G> static void run_pred(const Cfg &c) {
    int n = c.i("n", 3), m = c.i("m", 3); std::string q = c.s("q", "loops");
    typedef typename boost::graph_traits<G>::vertex_descriptor V;
    typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type W;
    G g; std::vector<V> vs; for (int i = 0; i < n; i++) vs.push_back(boost::add_vertex(g));
    auto wm = boost::get(boost::edge_weight, g);
    bool loop = false, multi = false, nonpos = false; std::set<std::pair<int, int>> seen;
    for (int i = 0; i < m; i++) {
        int id = n ? (int)symx_split(symx_int("edge", 0, n * n - 1)) : 0, a = id / n, b = id % n;
        if (q == "weights" && a > b && !c.i("anyor")) symx_assume(false);
        if (q == "multi" && a == b) symx_assume(false);
        if (a == b) loop = true;
        if (!seen.insert(std::make_pair(std::min(a, b), std::max(a, b))).second) multi = true;
        auto e = boost::add_edge(vs[a], vs[b], g).first;
        W w = 1;
        if (q == "weights") {
            if (std::is_integral<W>::value) { w = (W)symx_int("w", c.i("wlo", -3), c.i("whi", 3)); } else w = (W)symx_dreal("w", -4, 4, (int64_t)1 << 40);
            if (w <= 0) nonpos = true;
        }
        wm[e] = w;
    }
    symx_reached("pred");
    if (q == "loops" && parmcb::has_loops(g) != loop) symx_failf("has-loops", "has_loops returned %ld, the graph %ld", !loop, loop);
    if (q == "multi" && parmcb::has_multiple_edges(g) != multi) symx_failf("has-multiple-edges", "has_multiple_edges returned %ld, truth %ld", !multi, multi);
    if (q == "weights" && parmcb::has_non_positive_weights(g, wm) != nonpos) symx_failf("has-non-positive-weights", "has_non_positive_weights returned %ld, truth %ld", !nonpos, nonpos);
    symx_flush("pred");
}
// a large simple graph, with one edge more: a copy of any edge, a loop at any vertex, any of some new pairs, or none
template<class G> static void run_large(const Cfg &c) {
    typedef typename boost::graph_traits<G>::vertex_descriptor V;
    typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type W;
    GSpec s = big_graph(c); int m = s.e.size();
    std::string q = c.s("q");
    bool loop = false, multi = false, nonpos = false;
    int bad = -1;
    if (q == "weights") bad = (int)symx_split(symx_int("which", 0, m - 1));
    else {
        int k = (int)symx_split(symx_int("extra", 0, 2 * m + s.n + 20)), a, b;
        if (k) {
            if (--k < 2 * m) { a = s.e[k / 2].first; b = s.e[k / 2].second; if (k & 1) std::swap(a, b); multi = true; }
            else if ((k -= 2 * m) < s.n) { a = b = k; loop = true; }
            else { a = (k * 37) % s.n; b = (k * 53 + s.n / 2) % s.n; if (a == b) loop = true; for (auto &e : s.e) if ((e.first == a && e.second == b) || (e.first == b && e.second == a)) multi = true; }
            int at = symx_choice("at", 3);
            s.e.insert(at == 0 ? s.e.begin() : at == 1 ? s.e.begin() + m / 2 : s.e.end(), std::make_pair(a, b));
        }
        if (q == "multi" && loop) symx_assume(false);
    }
    G g; std::vector<V> vs; for (int i = 0; i < s.n; i++) vs.push_back(boost::add_vertex(g));
    auto wm = boost::get(boost::edge_weight, g);
    for (int i = 0; i < (int)s.e.size(); i++) {
        auto e = boost::add_edge(vs[s.e[i].first], vs[s.e[i].second], g).first;
        W w = (W)(1 + i % 7);
        if (i == bad) { if (std::is_integral<W>::value) w = (W)symx_int("w", -3, 3); else w = (W)symx_dreal("w", -4, 4, (int64_t)1 << 40); if (w <= 0) nonpos = true; }
        wm[e] = w;
    }
    symx_reached("pred");
    if (q == "loops" && parmcb::has_loops(g) != loop) symx_failf("has-loops", "has_loops returned %ld, the graph %ld", !loop, loop);
    if (q == "multi" && parmcb::has_multiple_edges(g) != multi) symx_failf("has-multiple-edges", "has_multiple_edges returned %ld, truth %ld", !multi, multi);
    if (q == "weights" && parmcb::has_non_positive_weights(g, wm) != nonpos) symx_failf("has-non-positive-weights", "has_non_positive_weights returned %ld, truth %ld", !nonpos, nonpos);
    symx_flush("pred");
}
template<class G> static void pred(const Cfg &c) { if (c.s("f") == "large") run_large<G>(c); else run_pred<G>(c); }
typedef boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, int>> GraphI;
typedef boost::adjacency_list<boost::listS, boost::listS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GraphL;
typedef boost::adjacency_list<boost::multisetS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, long>> GraphM;
extern "C" void symx_harness(const char *cfg) {
    Cfg c(cfg);
    std::string t = c.s("t", "vec");
    if (c.s("f") == "read") { if (t == "list") run_read<boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>>>(c); else run_read<Graph>(c); }
    else if (t == "int") pred<GraphI>(c);
#ifdef LISTV
    else if (t == "list") pred<GraphL>(c);
#endif
    else if (t == "mset") pred<GraphM>(c);
    else pred<Graph>(c);
}
