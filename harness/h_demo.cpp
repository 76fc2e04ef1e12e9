// C11, C20: the command line programs.  -DDEMO=1 mcb-dimacs, 2 approx-mcb-dimacs,
// 3 collection-stats-dimacs, 4 mcb-dimacs-mpi; -DREAL runs the real algorithms,
// otherwise the library's entry points are stand-ins that record their
// arguments and return an arbitrary weight.
#include <symx_tbb.hpp>
#include <symx_mpi.hpp>
#include "common.hpp"
#include <cmath>
#include <cassert>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <system_error>
#include <tuple>
#include <boost/config.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/graph_utility.hpp>
#include <boost/graph/connected_components.hpp>
#include <boost/graph/breadth_first_search.hpp>
#include <boost/program_options.hpp>
#include <boost/timer/timer.hpp>
#include <boost/thread.hpp>
#include <boost/format.hpp>
#include <boost/lexical_cast.hpp>
#include "hx_stdio.hpp"
#ifdef SYMX_NATIVE
static FILE *nat_open(const char *, const char *) { if (hx_missing()) return nullptr; std::vector<char> &b = hx_bytes(); if (b.empty()) b.push_back('\n'); return fmemopen(b.data(), b.size(), "r"); }
namespace std { using ::nat_open; }
#define fopen nat_open
#else
#define HX_STDIO_RENAME
#include "hx_stdio.hpp"
#endif
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/mpi/parmcb.hpp>
// what a rank printed and how it ended ------------------------------------------
struct Val { std::size_t at; double v; };
struct Spy { int alg; bool tbb; int k; std::size_t limit; double w; };
struct Proc { std::string out, err; std::vector<Val> vals; std::vector<Spy> spies; int rc; bool done, threw; Proc() : rc(0), done(false), threw(false) {} };
static std::vector<Proc> *procs_p;
static Proc &me() { return (*procs_p)[symx_mpi::rank()]; }
class HxOut : public std::ostringstream {
    int which;
public:
    explicit HxOut(int w) : which(w) {}
    void drain() { std::string s = str(); if (!s.empty()) { (which ? me().err : me().out) += s; str(""); } }
    void num(double v) { drain(); if (!which) me().vals.push_back({me().out.size(), v}); static_cast<std::ostream &>(*this) << symx_eval(v); drain(); }
    HxOut &operator<<(double v) { num(v); return *this; }
    HxOut &operator<<(float v) { num(v); return *this; }
    HxOut &operator<<(long double v) { num((double)v); return *this; }
    template<class T> HxOut &operator<<(const T &t) { static_cast<std::ostream &>(*this) << t; drain(); return *this; }
    HxOut &operator<<(std::ostream &(*f)(std::ostream &)) { f(*this); drain(); return *this; }
    HxOut &operator<<(std::ios_base &(*f)(std::ios_base &)) { f(*this); return *this; }
};
static HxOut *outs[2];
#define cout hx_cout()
#define cerr hx_cerr()
#define clog hx_cerr()
namespace std { inline HxOut &hx_cout() { return *outs[0]; } inline HxOut &hx_cerr() { return *outs[1]; } }
struct HxExit { int rc; };
[[noreturn]] inline void hx_exit(int rc) { throw HxExit{rc}; }
inline int hx_printf_to(int which, const char *f, va_list ap) { char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); (which ? me().err : me().out) += b; return n; }
inline int hx_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = hx_printf_to(0, f, ap); va_end(ap); return n; }
inline int hx_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int n = hx_printf_to(fp == stderr, f, ap); va_end(ap); return n; }
inline int hx_fputs(const char *s, FILE *fp) { (fp == stderr ? me().err : me().out) += s; return 0; }
inline int hx_puts(const char *s) { me().out += s; me().out += "\n"; return 0; }
namespace std { using ::hx_exit; using ::hx_printf; using ::hx_fprintf; using ::hx_fputs; using ::hx_puts; }
struct Expect { int n; std::vector<std::pair<int, int>> e; std::vector<double> w; bool invalid; };
static Expect *want_p;
// the stand-ins ---------------------------------------------------------------
namespace parmcb {
template<class G, class WM> double spy(const G &g, const WM &wm, int alg, bool tbb, int k) {
    Expect &x = *want_p;
    if (x.invalid) symx_fail("ran-on-bad-input", "an algorithm was started although the graph violates a precondition");
    if ((long)boost::num_vertices(g) != x.n || boost::num_edges(g) != x.e.size()) symx_fail("wrong-graph", "the algorithm was given a graph other than the file's");
    std::vector<bool> used(x.e.size(), false);
    auto r = boost::edges(g);
    for (auto it = r.first; it != r.second; ++it) {
        int a = boost::source(*it, g), b = boost::target(*it, g), f = -1;
        for (size_t i = 0; i < x.e.size(); i++) if (!used[i] && ((x.e[i].first == a && x.e[i].second == b) || (x.e[i].first == b && x.e[i].second == a))) { f = i; break; }
        if (f < 0) symx_fail("wrong-graph", "the algorithm was given a graph other than the file's");
        used[f] = true; symx_assert_eq(boost::get(wm, *it), x.w[f], "wrong-graph");
    }
    double w = symx_mpi::rank() == 0 ? (double)symx_int("W", 0, 90000) : 0.0;
    me().spies.push_back({alg, tbb, k, symx_tbb::limit_now(), w});
    return w;
}
#define SPY(name, alg, tbb) template<class G, class WM, class O> double spy_##name(const G &g, WM wm, O) { return spy(g, wm, alg, tbb, 0); } \
    template<class G, class WM, class O> double spy_approx_##name(const G &g, WM wm, std::size_t k, O) { return spy(g, wm, alg, tbb, (int)k); } \
    template<class G, class WM, class O> double spy_##name##_mpi(const G &g, WM wm, O, boost::mpi::communicator &c) { c.barrier(); return spy(g, wm, alg, tbb, 0); }
SPY(mcb_sva_signed, 0, false) SPY(mcb_sva_signed_tbb, 0, true) SPY(mcb_sva_fvs_trees, 1, false) SPY(mcb_sva_fvs_trees_tbb, 1, true) SPY(mcb_sva_iso_trees, 2, false) SPY(mcb_sva_iso_trees_tbb, 2, true)
}
#ifndef REAL
#define mcb_sva_signed spy_mcb_sva_signed
#define mcb_sva_signed_tbb spy_mcb_sva_signed_tbb
#define mcb_sva_fvs_trees spy_mcb_sva_fvs_trees
#define mcb_sva_fvs_trees_tbb spy_mcb_sva_fvs_trees_tbb
#define mcb_sva_iso_trees spy_mcb_sva_iso_trees
#define mcb_sva_iso_trees_tbb spy_mcb_sva_iso_trees_tbb
#define approx_mcb_sva_signed spy_approx_mcb_sva_signed
#define approx_mcb_sva_signed_tbb spy_approx_mcb_sva_signed_tbb
#define approx_mcb_sva_fvs_trees spy_approx_mcb_sva_fvs_trees
#define approx_mcb_sva_fvs_trees_tbb spy_approx_mcb_sva_fvs_trees_tbb
#define approx_mcb_sva_iso_trees spy_approx_mcb_sva_iso_trees
#define approx_mcb_sva_iso_trees_tbb spy_approx_mcb_sva_iso_trees_tbb
#define mcb_sva_signed_mpi spy_mcb_sva_signed_mpi
#define mcb_sva_fvs_trees_mpi spy_mcb_sva_fvs_trees_mpi
#define mcb_sva_fvs_trees_tbb_mpi spy_mcb_sva_fvs_trees_tbb_mpi
#define mcb_sva_iso_trees_mpi spy_mcb_sva_iso_trees_mpi
#define mcb_sva_iso_trees_tbb_mpi spy_mcb_sva_iso_trees_tbb_mpi
#endif
#define main demo_main
#define exit hx_exit
#define _exit hx_exit
#define _Exit hx_exit
#define quick_exit hx_exit
#define printf hx_printf
#define fprintf hx_fprintf
#define fputs hx_fputs
#undef puts
#define puts hx_puts
#if DEMO == 1
#include <mcb-dimacs.cpp>
#elif DEMO == 2
#include <approx-mcb-dimacs.cpp>
#elif DEMO == 3
#include <collection-stats-dimacs.cpp>
#else
#include <mcb-dimacs-mpi.cpp>
#endif
#undef main
#undef exit
#undef _exit
#undef _Exit
#undef printf
#undef fprintf
#undef cout
#undef cerr
#undef clog
#ifndef SYMX_NATIVE
// caches inside the C++ library and program_options are filled before the first path
static void warm() {
    namespace po = boost::program_options;
    po::options_description d("x"); d.add_options()("help,h", "x")("b,v", po::value<bool>()->default_value(false)->implicit_value(true), "x")("k", po::value<int>()->default_value(2), "x")("input-file,I", po::value<std::string>(), "x");
    po::positional_options_description pd; pd.add("input-file", 1);
    const char *av[] = {"p", "--b=1", "--k", "3", "f", 0};
    for (int i = 0; i < 2; i++) { po::variables_map vm; po::command_line_parser p(5, (char **)av); p.options(d).positional(pd).allow_unregistered(); po::store(p.run(), vm); po::notify(vm); (void)vm["k"].as<int>(); (void)vm["b"].as<bool>(); (void)vm["input-file"].as<std::string>(); }
    try { po::variables_map vm; const char *bad[] = {"p", "--k=x", 0}; po::command_line_parser p(2, (char **)bad); p.options(d); po::store(p.run(), vm); po::notify(vm); } catch (po::error &e) { (void)e.what(); }
    std::ostringstream os; os << 1.5 << 2 << 3ul << true << std::fixed << std::setprecision(3) << 2.5 << std::endl << d; os << boost::format("%s %d\n") % std::string("a") % 1; std::string s = os.str();
    boost::timer::cpu_timer t; t.stop(); s = t.format(); std::cerr << ""; std::cout << "";
    (void)boost::thread::hardware_concurrency();
}
static struct Warm { Warm() { warm(); } } warm_now;
#endif
// graph, file, options, checks -----------------------------------------------------
static void build_file(const Cfg &c, Expect &x) {
    std::vector<char> &b = hx_bytes(); b.clear();
    auto str = [&](const std::string &t) { for (char ch : t) b.push_back(ch); };
    x.invalid = false;
    std::string wk = c.s("fw", "dig");
    int zero = -1;
    if (c.i("big")) {   // a larger file with at most one defect, anywhere
        GSpec s = big_graph(c); x.n = s.n; x.e = s.e; int m = x.e.size(), d = symx_choice("defect", 4);
        if (d == 1) { auto e = x.e[symx_choice("of", 6) * (m - 1) / 5]; if (symx_choice("turn", 2)) std::swap(e.first, e.second); x.e.insert(x.e.begin() + symx_choice("at", 3) * m / 2, e); }
        else if (d == 2) { int v = symx_choice("of", 6) * (x.n - 1) / 5; x.e.insert(x.e.begin() + symx_choice("at", 3) * m / 2, std::make_pair(v, v)); }
        else if (d == 3) zero = symx_choice("at", 8) * (m - 1) / 7;
    } else if (c.has("g")) { GSpec s = make_graph(c); x.n = s.n; x.e = s.e; }
    else {
        x.n = c.i("n", 3); int m = c.i("m", 3);
        for (int i = 0; i < m; i++) { int id = (int)symx_split(symx_int("edge", 0, x.n * x.n - 1)); x.e.push_back({id / x.n, id % x.n}); }
    }
    if (c.i("comment")) str("c a comment\n# another\n");
    str("p edge " + std::to_string(x.n) + " " + std::to_string(x.e.size()) + "\n");
    std::set<std::pair<int, int>> seen;
    int nsy = c.i("sy", 99);
    for (size_t i = 0; i < x.e.size(); i++) {
        auto e = x.e[i];
        if (e.first == e.second) x.invalid = true;
        if (!seen.insert(std::make_pair(std::min(e.first, e.second), std::max(e.first, e.second))).second) x.invalid = true;
        str("e " + std::to_string(e.first + 1) + " " + std::to_string(e.second + 1));
        double w = 1;
        if (c.i("big")) { w = (int)i == zero ? (symx_choice("sign", 2) ? -0.25 : 0.0) : 1 + i % 5; str(w < 1 ? (w < 0 ? " -0.25" : " 0") : w > 1 ? " " + std::to_string((int)w) : ""); }
        else if (wk == "dig" || wk == "pos") {   // a digit, any sign
            str(" ");
            bool neg = wk == "dig" && symx_choice("neg", 2); if (neg) str("-");
            if ((int)i < nsy) { char ch = (char)symx_int("digit", wk == "pos" ? '1' : '0', '9'); b.push_back(ch); w = (double)(ch - '0'); } else { str(std::to_string(1 + i % 3)); w = 1 + i % 3; }
            if (neg) w = -w;
        } else if (wk == "dec") { static const char *const D[] = {"0.5", "2.25", "1e2", "0.0", "-0.25", "12.5e-1", "-0"}; int k = symx_choice("dec", 7); str(std::string(" ") + D[k]); w = strtod(D[k], nullptr); }
        x.w.push_back(w);
        if (w <= 0) x.invalid = true;
        if (i + 1 < x.e.size() || !symx_choice("no-newline", 2)) str("\n");
    }
}
static void check_value(const GSpec &s, const Expect &x, double total, double k, const char *key) {
    // the optimum is decided per region of the weights on which one basis stays optimal
    if (!symx_is_symbolic()) { double o = total_weight(greedy_mcb(s, x.w), x.w); symx_assert_le(o, total, key); symx_assert_le(total, k * o, key); return; }
    symx_region_begin();
    while (symx_region_next()) {
        std::vector<double> p(x.w.size());
        for (size_t i = 0; i < p.size(); i++) p[i] = symx_region_value(x.w[i]);
        std::vector<mask_t> o = greedy_mcb(s, p);
        for (mask_t cy : orc_cycles(s)) { mask_t q = 0; orc_represent(o, cy, q); for (size_t i = 0; i < o.size(); i++) if ((q >> i & 1) && o[i] != cy) symx_region_le(mask_weight(o[i], x.w), mask_weight(cy, x.w)); }
        double ow = total_weight(o, x.w);
        symx_assert_le(ow, total, key); symx_assert_le(total, k * ow, key);
        symx_region_block();
    }
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    Expect x; want_p = &x;
    build_file(c, x);
    int P = DEMO == 4 ? c.i("P", 2) : 1;
    bool knob = c.i("prop") == 20;
    // options
    std::vector<std::string> args; args.push_back("demo");
    std::string os = c.s("opts", "few");
    int cores = -1; bool parallel = true; int k = 2;
    auto flag = [&](const char *name, int ways) -> int {   // absent / =true / =false
        int v = symx_choice(name, ways); if (v) args.push_back(std::string("--") + name + (v == 1 ? "=1" : "=0")); return v; };
    if (DEMO != 3) {
        if (os == "none") { }
        else {
            int alg = symx_choice("alg", os == "all" ? 6 : 3);
            const char *const A[][3] = {{"", "", ""}, {"--signed=0", "--fvstrees=1", ""}, {"--signed=0", "--isotrees=1", ""}, {"--signed=false", "", ""}, {"--signed=1", "--fvstrees=1", "--isotrees=1"}, {"--signed=0", "--fvstrees=1", "--isotrees=1"}};
            for (int i = 0; i < 3; i++) if (A[alg][i][0]) args.push_back(A[alg][i]);
            if (DEMO != 4) { int v = flag("parallel", os == "all" ? 3 : 3); if (v == 2) parallel = false; }
            if (os == "all" || knob) flag("verbose", 3);
            if (os == "all") flag("printcycles", 3);
            if ((os == "all" || knob) && DEMO != 4) { static const int C[] = {0, 1, 2, 3, 7}; int v = symx_choice("cores", knob ? 6 : 3); if (v) { cores = C[v - 1]; args.push_back("--cores"); args.push_back(std::to_string(cores)); } }
            if (DEMO == 2) { int v = symx_choice("k", 4); if (v) { k = v + 1; args.push_back("--k=" + std::to_string(k)); } }
        }
    } else if (os != "none") flag("verbose", 3);
    int pos = os == "all" || os == "few" ? symx_choice("file-arg", 2) : 0;
    if (pos == 0) args.push_back("file.dimacs"); else { args.push_back("--input-file"); args.push_back("file.dimacs"); }
    hx_missing() = false;
    symx_tbb::sched().base = 1;
    std::vector<Proc> procs(P); procs_p = &procs;
    std::vector<HxOut *> o; HxOut out(0), err(1); outs[0] = &out; outs[1] = &err;
    bool ok = symx_mpi::run(P, c.i("mode", 0), [&](int r) {
        std::vector<char *> av; std::vector<std::string> own = args; for (auto &t : own) av.push_back(&t[0]); av.push_back(nullptr);
        try { procs[r].rc = demo_main((int)own.size(), av.data()); procs[r].done = true; }
        catch (HxExit &e) { procs[r].rc = e.rc; procs[r].done = true; }
        catch (symx_mpi::Abort &) { throw; }
        catch (std::exception &e) { procs[r].threw = true; procs[r].done = true; procs[r].rc = 134; procs[r].err += e.what(); }
    });
    if (symx_mpi::world()->aborted) { ok = true; for (auto &p : procs) if (!p.done) { p.done = true; p.rc = symx_mpi::world()->abort_code ? symx_mpi::world()->abort_code : 1; } }
    if (!ok) { long q = 0; for (auto &p : procs) q += !p.done; symx_failf(x.invalid ? "hang-on-bad-input" : "hang", "%ld of %ld processes never terminate", q, P); }
    symx_reached(x.invalid ? "invalid" : "valid");
    std::size_t started = 0; for (auto &p : procs) started += p.spies.size();
    if (x.invalid) {
        bool diag = false;
        for (int r = 0; r < P; r++) { if ((procs[r].rc & 255) == 0) symx_failf("exit-status", "process %ld exits with status %ld on a rejected file", r, procs[r].rc); if (!procs[r].err.empty()) diag = true; if (procs[r].out.find("weight =") != std::string::npos) symx_fail("ran-on-bad-input", "a weight is printed for a rejected file"); }
        if (!diag) symx_fail("diagnostic", "a rejected file produces no diagnostic");
        if (started) symx_fail("ran-on-bad-input", "an algorithm ran on a rejected file");
        symx_flush("rejected");
        return;
    }
    for (int r = 0; r < P; r++) if (procs[r].rc != 0) symx_failf(procs[r].threw ? "exception" : "exit-status-valid", "process %ld exits with status %ld on a valid file", r, procs[r].rc);
    if (knob) {
        if (parallel && cores >= 1) {
#ifdef REAL
            symx_tbb::Sched &sc = symx_tbb::sched();
            if (sc.regions) { if ((long)sc.lim_max != cores || (long)sc.lim_min != cores) symx_failf("cores", "parallel regions ran with an allowed parallelism of %ld, --cores %ld", (long)sc.lim_max, cores); }
#else
            for (auto &s : procs[0].spies) if ((long)s.limit != cores) symx_failf("cores", "allowed parallelism is %ld at the library call, --cores %ld", s.limit, cores);
#endif
        }
        symx_flush("knob");
        return;
    }
    if (DEMO == 3) { symx_flush("stats"); return; }
    GSpec s; s.n = x.n; s.e = x.e;
    bool printed = false;
    const std::string label = "MCB weight = ";
    for (int r = 0; r < P; r++) {
        Proc &p = procs[r];
        for (std::size_t at = p.out.find(label); at != std::string::npos; at = p.out.find(label, at + 1)) {
            if (r == 0) printed = true;
            std::size_t end = at + label.size();
            double v = strtod(p.out.c_str() + end, nullptr);
            bool exact = false;
            for (auto &q : p.vals) if (q.at == end) {   // the printed text is the shown value up to the stream's precision
                double shown = v, val = symx_eval(q.v);
                if (std::fabs(shown - val) > 1e-4 * std::fabs(val)) symx_fail("printed", "the printed digits differ from the weight");
                v = q.v; exact = true;
            }
            if (!exact && symx_is_symbolic()) symx_note("incomplete:weight printed in a form the harness does not follow");
            if (!exact && symx_is_symbolic()) continue;
#ifdef REAL
            check_value(s, x, v, DEMO == 2 ? 2 * k - 1 : 1, "weight");
#else
            if (procs[0].spies.empty()) { symx_note("incomplete:no known entry point called"); continue; }
            symx_assert_eq(v, procs[0].spies.back().w, "weight");
            if (procs[0].spies.back().k < 0 || (DEMO == 2 && procs[0].spies.back().k > k)) symx_failf("approximation-factor", "called with k=%ld for --k=%ld", procs[0].spies.back().k, k);
#endif
        }
    }
    if (!printed) symx_fail("no-weight", "no 'MCB weight = ' line on a valid file");
    symx_flush("weight");
}
