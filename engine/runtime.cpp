// Symx runtime: expressions, decisions, solver, search.  See DESIGN.md.
#include <z3++.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <new>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <elf.h>
#include <dlfcn.h>
#include "symx.h"
#include "llvm_ops.h"

typedef uint8_t u8;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" char __libc_single_threaded;
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

// ------------------------------------------------------------------ memory map
static const u64 BASE = 0x100000000000ull;
static const u64 HEAP_SIZE = 768ull << 20;
static const u64 STACK_SIZE = 16ull << 20;
static const u64 REGION = HEAP_SIZE + STACK_SIZE;        // heap then stack
static const u64 CELLS = 0x200000000000ull;              // 8 bytes per byte
static const u64 GRANS = 0x300000000000ull;              // 1 byte per 8 bytes
static const u64 STATE = 0x310000000000ull;              // memcheck: 1 byte per 8-byte granule
static const u64 STACK_LO = BASE + HEAP_SIZE, STACK_HI = BASE + REGION;

struct Expr;
static inline u64 *cellp(u64 off) { return (u64 *)(CELLS + off * 8); }
static inline u8 *granp(u64 off) { return (u8 *)(GRANS + (off >> 3)); }
static inline u8 *statep(u64 off) { return (u8 *)(STATE + (off >> 3)); }
static const u64 UDEF = 0x312000000000ull;               // memcheck: per granule, which bytes hold no defined value
static inline u8 *udefp(u64 off) { return (u8 *)(UDEF + (off >> 3)); }

static const int NARENA = 9;
static u64 arena_cur[NARENA], arena_lo[NARENA], arena_hi[NARENA];
static int arena_id = 0;
static bool path_active = false;
static int in_engine = 1;
static bool memcheck_on = false, race_on = false, round_on = false, round_opt = false;
static u64 live_blocks = 0;
struct Guard { Guard() { in_engine++; } ~Guard() { in_engine--; } };

// ------------------------------------------------------------------ expressions
enum Kind : u8 { K_REAL, K_INT, K_ATOM, K_SQRT, K_UNDEF, K_BAD };
enum Op : u8 { O_LT, O_LE, O_EQ, O_NE, O_GT, O_GE };
static const Op NEG[6] = {O_GE, O_GT, O_NE, O_EQ, O_LE, O_LT};
static const Op SWP[6] = {O_GT, O_GE, O_EQ, O_NE, O_LT, O_LE};
static const char *OPS[6] = {"<", "<=", "==", "!=", ">", ">="};
struct Term { int v; double c; };
struct Expr {
    Kind kind; u8 op; int n; double k;
    Term t[0];
};

static char *pool_chunk = nullptr; static size_t pool_used = 0, pool_cap = 0;
static std::vector<std::pair<char *, size_t>> pool_chunks; static size_t pool_idx = 0;
static u64 pool_total = 0; static void pool_overflow();
static void *pool_alloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (pool_used + n > pool_cap) {
        if (pool_idx < pool_chunks.size()) { pool_chunk = pool_chunks[pool_idx].first; pool_cap = pool_chunks[pool_idx].second; pool_idx++; }
        else { pool_cap = std::max<size_t>(4 << 20, n); pool_chunk = (char *)__libc_malloc(pool_cap); pool_chunks.push_back({pool_chunk, pool_cap}); pool_idx = pool_chunks.size(); pool_total += pool_cap; if (pool_total > (1024ull << 20)) pool_overflow(); }
        pool_used = 0;
    }
    void *p = pool_chunk + pool_used; pool_used += n; return p;
}
static void pool_reset() { pool_idx = 0; pool_used = 0; pool_cap = 0; }

struct Var { bool isint; double lo, hi; bool input; double val; i64 den; char name[16]; };
static std::vector<Var> vars;         // of the current path
static std::vector<double> nextvals;  // concrete inputs for the next path, by creation order of *input* vars
static int n_inputs = 0;
struct Input { char type; double val; i64 den; char name[16]; };
static std::vector<Input> inputs;     // in creation order, for replay

static Expr *mk(Kind k, int n) { Expr *e = (Expr *)pool_alloc(sizeof(Expr) + n * sizeof(Term)); e->kind = k; e->op = 0; e->n = n; e->k = 0; return e; }
static Expr *mkvar(int v) { Expr *e = mk(vars[v].isint ? K_INT : K_REAL, 1); e->t[0] = {v, 1.0}; return e; }
static inline bool islin(Expr *e) { return e->kind == K_REAL || e->kind == K_INT; }

// ------------------------------------------------------------------ shared statistics
struct Shared {
    std::atomic<int> active, maxworkers;
    std::atomic<int> stop;
    std::atomic<u64> paths, pruned, decisions, implied, queries, sat, unsat, unknown, checks, checks_unsat, solver_us, divergences, mismatches, crashes, timeouts,
        forks, open_left, reached, choices, region_points, maxdepth, pathsteps;
    std::atomic<int> lock;
    std::atomic<u64> next_sample, nsamples;
    struct Slot { char key[200]; std::atomic<u64> cnt; } notes[400];
    u8 fns[65536];
    struct { std::atomic<u64> paths; } cfg[4096];
};
static Shared *S;
static void note(const char *key, u64 inc = 1, int *outcount = nullptr) {
    while (S->lock.exchange(1)) usleep(1);
    for (auto &s : S->notes) {
        if (s.key[0] == 0) { strncpy(s.key, key, sizeof s.key - 1); s.cnt += inc; if (outcount) *outcount = s.cnt; break; }
        if (strncmp(s.key, key, sizeof s.key - 1) == 0) { s.cnt += inc; if (outcount) *outcount = s.cnt; break; }
    }
    S->lock = 0;
}
static void notef(const char *fmt, ...) { char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); note(b); }

// ------------------------------------------------------------------ path state
enum TType : u8 { T_VAR, T_DEF, T_DEC, T_CHOICE, T_GUESS };
struct Atom { std::vector<Term> t; double k; Op op; };
struct Dec {
    TType type; bool open; bool dir;   // dir unused for DEF
    Atom a;                            // the atom as it holds on this path
    int ch, chn; u64 hash; int var;
};
static std::vector<Dec> trail;
static size_t pos;              // next trail position during a run
static size_t prefix_len;       // forced part
static std::string cfg_str; static int cfg_id;
static std::vector<std::string> configs;
static bool inhomog;            // path condition not positively homogeneous
struct Know { double lo, hi; bool los, his; bool nz; double nzv; };
static std::unordered_map<u64, Know> know;
static std::unordered_map<u64, int> auxmemo;
static bool path_mismatch;

enum End { E_NONE, E_OK, E_PRUNE, E_DIVERGE, E_VIOL, E_CRASH, E_TIMEOUT, E_SKIP };
static sigjmp_buf path_jb;
static volatile int end_code;
static char end_msg[512];
[[noreturn]] static void end_path(End e) { end_code = e; in_engine = 1; siglongjmp(path_jb, 1); }
static void pool_overflow() { if (!path_active) return; snprintf(end_msg, sizeof end_msg, "expression memory exhausted"); note("incomplete:expression memory exhausted"); end_path(E_TIMEOUT); }

static double opt_deadline = 1e18; static double t_start;
static double now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
static std::string outdir = "."; static int opt_path_timeout = 20; static int viol_limit = 3; static bool stop_first = true; static bool opt_verbose = false;
static u64 opt_seed = 1;
static int reach_count;

// ------------------------------------------------------------------ evaluation
// with --round sums need not be doubles: evaluated exactly, rounded once
static __float128 evalX(const Term *t, int n, double k) { __float128 s = k; for (int i = 0; i < n; i++) s += (__float128)t[i].c * vars[t[i].v].val; return s; }
static double evalE(const Expr *e) { if (round_opt) return (double)evalX(e->t, e->n, e->k); double s = e->k; for (int i = 0; i < e->n; i++) s += e->t[i].c * vars[e->t[i].v].val; return s; }
static double evalA(const Atom &a) { if (round_opt) return (double)evalX(a.t.data(), a.t.size(), a.k); double s = a.k; for (auto &t : a.t) s += t.c * vars[t.v].val; return s; }
static bool holds(double s, Op op) { switch (op) { case O_LT: return s < 0; case O_LE: return s <= 0; case O_EQ: return s == 0; case O_NE: return s != 0; case O_GT: return s > 0; default: return s >= 0; } }
static void interval(const Term *t, int n, double k, double &lo, double &hi) {
    lo = hi = k;
    for (int i = 0; i < n; i++) {
        const Var &v = vars[t[i].v];
        if (t[i].c > 0) { lo += t[i].c * v.lo; hi += t[i].c * v.hi; } else { lo += t[i].c * v.hi; hi += t[i].c * v.lo; }
    }
}
static u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static u64 hashT(const std::vector<Term> &t) { u64 h = 1469598103934665603ull; for (auto &x : t) { h = hmix(h, x.v); h = hmix(h, dbits(x.c)); } return h; }

static double gcdd(double a, double b) { while (b != 0) { double r = fmod(a, b); a = b; b = r; } return a; }
// normalise so that the leading coefficient is positive and integer coefficients are coprime
static bool exact_add(double a, double b, double &s) { s = a + b; double bb = s - a; return (a - (s - bb)) + (b - bb) == 0; }
static int one_var = -1;
static double lsb(double x) { if (x == 0) return INFINITY; int e; double m = frexp(fabs(x), &e); u64 v = (u64)ldexp(m, 53); return ldexp(1.0, e - 53 + __builtin_ctzll(v)); }
static void normalise(Atom &a) {
    if (a.t.empty()) return;
    if (round_opt) {   // fold the constant if it is a double, scale by a power of two to integers
        if (a.t[0].v == one_var) { double k; if (exact_add(a.k, a.t[0].c, k)) { a.k = k; a.t.erase(a.t.begin()); if (a.t.empty()) return; } }
        bool ai = true; double l = lsb(a.k); for (auto &x : a.t) { l = std::min(l, lsb(x.c)); if (!vars[x.v].isint) ai = false; }
        if (ai && std::isfinite(l) && l < 1) { for (auto &x : a.t) x.c /= l; a.k /= l; }
    }
    double g = 0; bool ints = true;
    for (auto &x : a.t) { if (x.c != floor(x.c) || fabs(x.c) > 1e15) { ints = false; break; } g = gcdd(fabs(x.c), g); }
    if (!ints || g == 0) g = 1;
    double kk = a.k / g;
    if (g != 1 && kk * g != a.k) g = 1;
    if (g != 1 && kk != floor(kk)) { double fr = kk * 4503599627370496.0; if (fr != floor(fr)) g = 1; }
    if (a.t[0].c < 0) g = -g;
    if (g != 1) {
        for (auto &x : a.t) x.c /= g;
        a.k /= g;
        if (g < 0) a.op = SWP[a.op];
    }
    if (a.k == 0) a.k = 0;
}
static Know &getKnow(const std::vector<Term> &t, u64 h) {
    auto it = know.find(h);
    if (it != know.end()) return it->second;
    Know k; interval(t.data(), t.size(), 0, k.lo, k.hi); k.los = k.his = false; k.nz = false; k.nzv = 0;
    return know[h] = k;
}
static bool allint(const std::vector<Term> &t) { for (auto &x : t) if (!vars[x.v].isint || x.c != floor(x.c)) return false; return true; }
// 1 implied true, 0 implied false, -1 unknown
static int implied(const Atom &a, const Know &K) {
    double lo, hi; interval(a.t.data(), a.t.size(), 0, lo, hi);
    bool los = false, his = false;
    if (K.lo > lo || (K.lo == lo && K.los)) { lo = K.lo; los = K.los; }
    if (K.hi < hi || (K.hi == hi && K.his)) { hi = K.hi; his = K.his; }
    double c = -a.k;   // term  op  c
    bool lt = hi < c || (hi == c && his), gt = lo > c || (lo == c && los);
    bool le = hi <= c, ge = lo >= c;
    bool eq = lo == c && hi == c && !los && !his;
    bool ne = lt || gt || (K.nz && K.nzv == c);
    switch (a.op) {
    case O_LT: if (lt || (le && ne)) return 1; if (ge) return 0; break;
    case O_LE: if (le) return 1; if (gt || (ge && ne)) return 0; break;
    case O_GT: if (gt || (ge && ne)) return 1; if (le) return 0; break;
    case O_GE: if (ge) return 1; if (lt || (le && ne)) return 0; break;
    case O_EQ: if (eq) return 1; if (ne) return 0; break;
    case O_NE: if (ne) return 1; if (eq) return 0; break;
    }
    return -1;
}
static void learn(const Atom &a, Know &K) {
    double c = -a.k; bool ai = allint(a.t);
    switch (a.op) {
    case O_LT: if (c < K.hi || (c == K.hi && !K.his)) { K.hi = c; K.his = true; } break;
    case O_LE: if (c < K.hi) { K.hi = c; K.his = false; } break;
    case O_GT: if (c > K.lo || (c == K.lo && !K.los)) { K.lo = c; K.los = true; } break;
    case O_GE: if (c > K.lo) { K.lo = c; K.los = false; } break;
    case O_EQ: K.lo = K.hi = c; K.los = K.his = false; break;
    case O_NE: K.nz = true; K.nzv = c; break;
    }
    if (ai) {
        if (K.his || K.hi != floor(K.hi)) { K.hi = K.his && K.hi == floor(K.hi) ? K.hi - 1 : floor(K.hi); K.his = false; }
        if (K.los || K.lo != floor(K.lo)) { K.lo = K.los && K.lo == floor(K.lo) ? K.lo + 1 : ceil(K.lo); K.los = false; }
        if (K.nz && K.nzv == K.lo) { K.lo += 1; K.nz = false; }
        if (K.nz && K.nzv == K.hi) { K.hi -= 1; K.nz = false; }
    }
    if (a.t.size() == 1 && a.t[0].c == 1) { Var &v = vars[a.t[0].v]; v.lo = std::max(v.lo, K.lo); v.hi = std::min(v.hi, K.hi); }
}

static Dec *trail_step(TType type, u64 hash) {
    if (pos < prefix_len) {
        Dec &d = trail[pos];
        if (d.type != type || d.hash != hash) {
            snprintf(end_msg, sizeof end_msg, "divergence at %zu/%zu type %d/%d", pos, prefix_len, (int)d.type, (int)type);
            end_path(E_DIVERGE);
        }
        pos++; return &d;
    }
    return nullptr;
}
static void add_def(const Atom &a0) {
    Atom a = a0; normalise(a);
    if (a.t.empty()) return;
    u64 h = hashT(a.t);
    Know &K = getKnow(a.t, h);
    if (a.k != 0) inhomog = true;
    u64 hh = hmix(hmix(h, dbits(a.k)), a.op);
    if (!trail_step(T_DEF, hh)) { Dec d; d.type = T_DEF; d.open = false; d.dir = true; d.a = a; d.hash = hh; d.ch = d.chn = 0; d.var = -1; trail.push_back(d); pos++; }
    learn(a, K);
}
static Atom atomOf(const Expr *e, Op op) { Atom a; a.t.assign(e->t, e->t + e->n); a.k = e->k; a.op = op; return a; }

// decide an atom; `conc` is what the native execution does
static bool decide_atom(Atom a, bool conc) {
    if (a.t.empty()) return conc;
    normalise(a);
    u64 h = hashT(a.t);
    Know &K = getKnow(a.t, h);
    int im = implied(a, K);
    bool sv = holds(evalA(a), a.op);
    if (sv != conc) {   // native arithmetic rounded (or information was dropped): the path is only this point
        if (!path_mismatch) note("mismatch:symbolic value differs from native value");
        path_mismatch = true; S->mismatches++;
        return conc;
    }
    if (im >= 0) {
        S->implied++;
        if ((im == 1) != conc) { path_mismatch = true; note("mismatch:implied"); }
        return conc;
    }
    Atom t = a; if (!conc) t.op = NEG[t.op];
    u64 hh = hmix(h, dbits(a.k));
    // hash identifies the question asked, not the answer
    hh = hmix(hh, (a.op == O_LT || a.op == O_GE) ? 1 : (a.op == O_LE || a.op == O_GT) ? 2 : 3);
    if (Dec *d = trail_step(T_DEC, hh)) {
        if (d->a.op != t.op) { snprintf(end_msg, sizeof end_msg, "direction diverges at %zu", pos); end_path(E_DIVERGE); }
    } else {
        Dec n; n.type = T_DEC; n.open = true; n.dir = conc; n.a = t; n.hash = hh; n.ch = n.chn = 0; n.var = -1;
        trail.push_back(n); pos++;
        S->decisions++;
    }
    if (a.k != 0) inhomog = true;
    learn(t, K);
    return conc;
}
static bool decideE(Expr *e, Op op) { // decide  e op 0  using the model values as the native outcome
    Atom a = atomOf(e, op);
    return decide_atom(a, holds(evalA(a), op));
}
static void pin(Expr *e, const char *why) {
    Guard g;
    notef("incomplete:%s", why);
    if (!islin(e)) return;
    if (e->n == 0) return;
    Atom a = atomOf(e, O_EQ); a.k -= evalE(e);
    add_def(a);
}
static int newvar(bool isint, double lo, double hi, bool input, double val, i64 den, const char *name) {
    Var v; v.isint = isint; v.lo = lo; v.hi = hi; v.input = input; v.val = val; v.den = den; strncpy(v.name, name ? name : "", 15); v.name[15] = 0;
    int id = vars.size();
    vars.push_back(v);
    u64 hh = hmix(hmix(isint ? 77 : 78, dbits(lo)), dbits(hi));
    if (!trail_step(T_VAR, hh)) { Dec d; d.type = T_VAR; d.open = false; d.dir = true; d.hash = hh; d.var = id; d.ch = d.chn = 0; d.a.k = lo; d.a.t.push_back({isint ? 1 : 0, hi}); d.a.op = O_LE; trail.push_back(d); pos++; }
    return id;
}

// ------------------------------------------------------------------ linear arithmetic
static bool exact_mul(double a, double b, double &p) { p = a * b; return std::isfinite(p) && fma(a, b, -p) == 0; }
static Expr *simp(Expr *e) { return e->n == 0 ? nullptr : e; }   // constant: native value is used
// --round: the constant of a form is k plus the coefficient of variable one_var (which is 1), an unevaluated sum of two doubles
static double two_sum(double a, double b, double &err) { double s = a + b, bb = s - a; err = (a - (s - bb)) + (b - bb); return s; }
static Expr *lin_add_wide(Expr *a, double k1, Expr *b, double k2, double sb, Kind kind) {
    int na = a ? a->n : 0, nb = b ? b->n : 0, i = 0, j = 0;
    Expr *r = mk(kind, na + nb + 1);
    double e1, e2, e3, c = 0, x; bool bad = (a && a->kind == K_BAD) || (b && b->kind == K_BAD);
    if (i < na && a->t[i].v == one_var) c = a->t[i++].c;
    if (j < nb && b->t[j].v == one_var) { c = two_sum(c, sb * b->t[j++].c, e1); if (e1 != 0) bad = true; }
    r->k = two_sum(k1, k2, e2);
    x = two_sum(c, e2, e3); if (e3 != 0) bad = true;
    r->k = two_sum(r->k, x, c);
    if (fabs(r->k) > 9007199254740992.0) bad = true;
    int n = 0;
    if (c != 0) r->t[n++] = {one_var, c};
    int n0 = n;
    while (i < na || j < nb) {
        if (j >= nb || (i < na && a->t[i].v < b->t[j].v)) r->t[n++] = a->t[i++];
        else if (i >= na || b->t[j].v < a->t[i].v) { r->t[n++] = {b->t[j].v, b->t[j].c * sb}; j++; }
        else { double e, q = two_sum(a->t[i].c, sb * b->t[j].c, e); if (e != 0) bad = true; if (q != 0) r->t[n++] = {a->t[i].v, q}; i++; j++; }
    }
    if (n == n0) n = 0;   // a constant: the caller has its (rounded) native value
    r->n = n;
    if (bad && n) r->kind = K_BAD;
    return r;
}
static Expr *lin_add(Expr *a, double ka, Expr *b, double kb, double sb, Kind kind) {  // a(+ka) + sb*(b + kb)
    int na = a ? a->n : 0, nb = b ? b->n : 0;
    Expr *r = mk(kind, na + nb);
    double k1 = a ? a->k : ka, k2 = (b ? b->k : kb) * sb;
    bool bad = !exact_add(k1, k2, r->k) || fabs(r->k) > 9007199254740992.0;
    if (round_opt && one_var >= 0) return lin_add_wide(a, k1, b, k2, sb, kind);
    int i = 0, j = 0, n = 0;
    while (i < na || j < nb) {
        if (j >= nb || (i < na && a->t[i].v < b->t[j].v)) r->t[n++] = a->t[i++];
        else if (i >= na || b->t[j].v < a->t[i].v) { r->t[n++] = {b->t[j].v, b->t[j].c * sb}; j++; }
        else { double c = a->t[i].c + sb * b->t[j].c; if (c != 0) r->t[n++] = {a->t[i].v, c}; i++; j++; }
    }
    r->n = n;
    if ((a && a->kind == K_BAD) || (b && b->kind == K_BAD)) bad = true;
    if (bad && n) r->kind = K_BAD;   // a value the linear form does not describe exactly; reported if it is ever used
    return r;
}
static Expr *lin_scale(Expr *a, double c, Kind kind) {
    if (round_opt && one_var >= 0 && c != 0) {   // binary digits of the factor, so that nothing is rounded
        Expr *r = nullptr; double rest = c;
        while (rest != 0) {
            int e; frexp(rest, &e); double p = ldexp(rest < 0 ? -1.0 : 1.0, e - 1); rest -= p;
            Expr *t = mk(kind, a->n); t->n = a->n; t->k = a->k * p; for (int i = 0; i < a->n; i++) t->t[i] = {a->t[i].v, a->t[i].c * p};
            if (a->kind == K_BAD && t->n) t->kind = K_BAD;
            r = r ? lin_add(r, 0, t, 0, 1, kind) : t;
        }
        return r;
    }
    Expr *r = mk(kind, a->n);
    r->n = a->n; bool ok = exact_mul(a->k, c, r->k);
    for (int i = 0; i < a->n; i++) { r->t[i].v = a->t[i].v; ok &= exact_mul(a->t[i].c, c, r->t[i].c); }
    if (c == 0) { r->n = 0; r->k = 0; }
    if (a->kind == K_BAD && r->n) r->kind = K_BAD;
    return ok ? r : nullptr;
}
static Expr *lin_const(double k, Kind kind) { Expr *r = mk(kind, 0); r->k = k; return r; }
static void ival(Expr *e, double &lo, double &hi) {
    interval(e->t, e->n, e->k, lo, hi);
    std::vector<Term> t(e->t, e->t + e->n);
    // look up knowledge about the normalised form
    Atom a; a.t = t; a.k = 0; a.op = O_LE; 
    if (t.empty()) return;
    double lead = t[0].c; normalise(a);
    auto it = know.find(hashT(a.t));
    if (it != know.end()) {
        double f = lead / a.t[0].c;
        double l = it->second.lo * f, h = it->second.hi * f; if (f < 0) std::swap(l, h);
        lo = std::max(lo, l + e->k); hi = std::min(hi, h + e->k);
    }
}

// ---- integers of width w: mathematical value in [-2^(w-1), 2^w)
static double p2(int w) { return ldexp(1.0, w); }
static Expr *fit(Expr *e, int w) {     // wrap to the representable window
    if (e->kind == K_BAD) return e;
    for (int it = 0; it < 4; it++) {
        double lo, hi; ival(e, lo, hi);
        if (hi >= p2(w)) { Expr *d = lin_add(e, 0, nullptr, p2(w), -1, K_INT); if (decideE(d, O_GE)) e = d; else return e; }
        else if (lo < -p2(w - 1)) { Expr *d = lin_add(e, 0, nullptr, p2(w - 1), 1, K_INT); if (decideE(d, O_LT)) e = lin_add(e, 0, nullptr, p2(w), 1, K_INT); else return e; }
        else return e;
    }
    return e;
}
static Expr *as_signed(Expr *e, int w) {
    if (e->kind == K_BAD) return e;
    double lo, hi; ival(e, lo, hi);
    if (hi < p2(w - 1)) return e;
    Expr *d = lin_add(e, 0, nullptr, p2(w - 1), -1, K_INT);
    if (decideE(d, O_GE)) return lin_add(e, 0, nullptr, p2(w), -1, K_INT);
    return e;
}
static Expr *as_unsigned(Expr *e, int w) {
    if (e->kind == K_BAD) return e;
    double lo, hi; ival(e, lo, hi);
    if (lo >= 0) return e;
    if (decideE(e, O_LT)) return lin_add(e, 0, nullptr, p2(w), 1, K_INT);
    return e;
}
static double sconst(u64 v, int w) { if (w == 64) return (double)(i64)v; i64 x = (i64)(v << (64 - w)) >> (64 - w); return (double)x; }
static double uconst(u64 v, int w) { if (w < 64) v &= (1ull << w) - 1; return (double)v; }
static Expr *viewI(Expr *e, u64 c, int w, bool sgn) {   // linear expression of the operand
    if (!e) return lin_const(sgn ? sconst(c, w) : uconst(c, w), K_INT);
    return sgn ? as_signed(e, w) : as_unsigned(e, w);
}
static double guess(double cur) {
    if (pos < prefix_len) { Dec *d = trail_step(T_GUESS, 4711); return d->a.k; }
    Dec n; n.type = T_GUESS; n.open = false; n.dir = true; n.hash = 4711; n.ch = n.chn = 0; n.var = -1; n.a.k = cur; n.a.op = O_EQ;
    trail.push_back(n); pos++;
    return cur;
}
// --round: the double nearest to the exact sum r (ties to even), where native is what the hardware computed.
// Every value is an integer combination over a power of two; the sum is split by binade (a decision) and the
// rounded value becomes base + ulp * (2h + p) with |r - result| <= ulp/2, strictly if the last bit p is one.
static Expr *fround_(Expr *r, double native) {
    if (r->n == 0 || r->kind == K_BAD) return r;
    double g = lsb(r->k); for (int i = 0; i < r->n; i++) { if (!vars[r->t[i].v].isint) return r; g = std::min(g, lsb(r->t[i].c)); }
    double lo, hi; ival(r, lo, hi);
    double M = std::max(fabs(lo), fabs(hi));
    if (M * (1 + 1e-15) < 9007199254740992.0 * g) return r;
    double b0, b1, ulp; bool neg;
    for (;;) {   // which binade: the question is about the current value, the answer may differ on another path
        __float128 v = evalX(r->t, r->n, r->k);
        int e; double d = (double)v; frexp(fabs(d), &e); if (v != 0 && (__float128)ldexp(1.0, e - 1) > (v < 0 ? -v : v)) e--;   // 2^(e-1) <= |v| < 2^e
        double q = guess(v == 0 ? 0 : v < 0 ? -(e + 5000.0) : e + 5000.0);
        if (q == 0) { if (decideE(r, O_EQ) || path_mismatch) return lin_const(0, K_REAL); continue; }
        neg = q < 0; e = (int)(fabs(q) - 5000);
        b0 = ldexp(1.0, e - 1), b1 = ldexp(1.0, e), ulp = ldexp(1.0, e - 53);
        bool in = neg ? decideE(lin_add(r, 0, nullptr, b0, 1, K_REAL), O_LE) && decideE(lin_add(r, 0, nullptr, b1, 1, K_REAL), O_GT)
                      : decideE(lin_add(r, 0, nullptr, b0, -1, K_REAL), O_GE) && decideE(lin_add(r, 0, nullptr, b1, -1, K_REAL), O_LT);
        if (in || path_mismatch) break;
    }
    if (ulp <= g) return r;
    double B = floor(r->k / (2 * ulp)) * 2 * ulp;
    Expr *N = lin_add(r, 0, nullptr, B, -1, K_REAL);
    if (N->kind == K_BAD) { note("incomplete:rounding outside the modelled range"); return N; }
    std::vector<Term> t(N->t, N->t + N->n);
    u64 h = hmix(hmix(hmix(hashT(t), dbits(N->k)), dbits(ulp)), 0x52);
    auto it = auxmemo.find(h);
    int hv, pv;
    double Q = (native - B) / ulp; 
    if (Q != floor(Q)) { path_mismatch = true; note("mismatch:rounded value"); return r; }
    double pb = fmod(fabs(Q), 2), hb = (Q - pb) / 2;
    if (it != auxmemo.end()) { hv = it->second; pv = hv + 1; }
    else {
        double nl, nh; ival(N, nl, nh);
        hv = newvar(true, floor(nl / (2 * ulp)) - 1, ceil(nh / (2 * ulp)) + 1, false, hb, 1, "h");
        pv = newvar(true, 0, 1, false, pb, 1, "p");
        inhomog = true; auxmemo[h] = hv;
        Expr *d = mk(K_REAL, 2); d->n = 2; d->k = 0; d->t[0] = {hv, 2 * ulp}; d->t[1] = {pv, ulp};
        d = lin_add(N, 0, d, 0, -1, K_REAL);                               // exact - rounded
        Expr *c = mk(K_REAL, 1); c->n = 1; c->k = 0; c->t[0] = {pv, g};
        add_def(atomOf(lin_add(lin_add(d, 0, c, 0, -1, K_REAL), 0, nullptr, ulp / 2, 1, K_REAL), O_GE));
        add_def(atomOf(lin_add(lin_add(d, 0, c, 0, 1, K_REAL), 0, nullptr, ulp / 2, -1, K_REAL), O_LE));
    }
    if (vars[hv].val != hb || vars[pv].val != pb) { path_mismatch = true; note("mismatch:rounded value"); }
    Expr *x = mk(K_REAL, 2); x->n = 2; x->k = B; x->t[0] = {hv, 2 * ulp}; x->t[1] = {pv, ulp};
    return x;
}
static Expr *fround(Expr *r, double native) { return round_on ? fround_(r, native) : r; }
// quotient variable q with c*q <= x < c*q + c   (floor division, c > 0)
static Expr *floordiv(Expr *x, double c) {
    double lo, hi; ival(x, lo, hi);
    if (x->n == 0) return lin_const(floor(x->k / c), K_INT);
    if (floor(lo / c) == floor(hi / c)) return lin_const(floor(lo / c), K_INT);
    // split off multiples of c
    bool divisible = fmod(x->k, c) == 0;
    for (int i = 0; i < x->n; i++) if (fmod(x->t[i].c, c) != 0) divisible = false;
    if (divisible) { Expr *r = mk(K_INT, x->n); r->n = x->n; r->k = x->k / c; for (int i = 0; i < x->n; i++) r->t[i] = {x->t[i].v, x->t[i].c / c}; return r; }
    std::vector<Term> t(x->t, x->t + x->n);
    u64 h = hmix(hmix(hashT(t), dbits(x->k)), dbits(c));
    auto it = auxmemo.find(h);
    int q;
    if (it != auxmemo.end()) q = it->second;
    else {
        q = newvar(true, floor(lo / c), floor(hi / c), false, floor(evalE(x) / c), 1, "q");
        inhomog = true;
        auxmemo[h] = q;
        Expr *r = lin_add(x, 0, lin_scale(mkvar(q), c, K_INT), 0, -1, K_INT);   // x - c q
        add_def(atomOf(r, O_GE));
        add_def(atomOf(lin_add(r, 0, nullptr, c - 1, -1, K_INT), O_LE));
    }
    return mkvar(q);
}

// concretise an integer: case split
// a question may mention a value of the current model; the trail remembers which one
static bool toolarge(Expr *e) {   // evaluation in double would not be exact
    double m = fabs(e->k);
    for (int i = 0; i < e->n; i++) m += fabs(e->t[i].c) * std::max(fabs(vars[e->t[i].v].lo), fabs(vars[e->t[i].v].hi));
    return !(m < 9007199254740992.0);
}
static void split_int(Expr *e) {
    if (!e || !islin(e) || e->n == 0) return;
    for (;;) {
        double lo, hi; ival(e, lo, hi);
        if (lo == hi) return;
        bool own = pos >= prefix_len;
        double v = guess(evalE(e));
        Atom a = atomOf(e, O_EQ); a.k -= v;
        if (decide_atom(a, holds(evalA(a), O_EQ)) || path_mismatch) return;
        if (own) { note("incomplete:value outside the exact range"); return; }
    }
}
static void undef_use(const char *where);

// K_UNDEF: op = which bytes are undefined; k != 0: computed from an undefined value rather than read
static Expr *mkundef(u8 mask, bool derived) { if (!mask) return nullptr; Expr *e = mk(K_UNDEF, 0); e->op = mask; e->k = derived; return e; }
static Expr *derive(Expr *x) { return x->kind == K_UNDEF ? mkundef(0xff, true) : x; }
#define CHK_UNDEF(x) if (x && (x->kind == K_UNDEF || x->kind == K_BAD)) { return derive(x); }

extern "C" {
Expr *__symx_args[64]; Expr *__symx_rets[64]; void *__symx_callee; void *__symx_rettag;

Expr *__symx_bin(int op, int w, Expr *a, u64 ca, Expr *b, u64 cb) {
    if (!a && !b) return nullptr;
    if (!(a && b) && (a ? a : b)->kind == K_UNDEF) {   // packed members: keep track of the bytes
        Expr *u = a ? a : b; u64 c = a ? cb : ca;
        if (op == LLVM_And) { u8 m = 0; for (int i = 0; i < 8; i++) if ((u->op >> i & 1) && (c >> (8 * i) & 0xff)) m |= 1 << i; return mkundef(m, true); }
        if (op == LLVM_Or) { u8 m = 0; for (int i = 0; i < 8; i++) if ((u->op >> i & 1) && (c >> (8 * i) & 0xff) != 0xff) m |= 1 << i; return mkundef(m, true); }
        if (a && op == LLVM_LShr && c % 8 == 0 && c < 64) return mkundef((u->op & (u8)((1u << (w / 8)) - 1)) >> (c / 8), true);
        if (a && op == LLVM_Shl && c % 8 == 0 && c < 64) return mkundef(u->op << (c / 8) & (u8)((1u << (w / 8)) - 1), true);
        if (op == LLVM_Mul && c == 0) return nullptr;
    }
    if (op == LLVM_Or && a && b && a->kind == K_UNDEF && b->kind == K_UNDEF) return mkundef(a->op | b->op, true);
    CHK_UNDEF(a) CHK_UNDEF(b)
    Guard g;
    if ((a && !islin(a)) || (b && !islin(b))) { note("incomplete:int op on non-linear"); return nullptr; }
    if ((a && a->kind == K_REAL) || (b && b->kind == K_REAL)) { if (a) pin(a, "bit operation on a real"); if (b) pin(b, "bit operation on a real"); return nullptr; }
    switch (op) {
    case LLVM_Add: return simp(fit(lin_add(a, a ? 0 : sconst(ca, w), b, b ? 0 : sconst(cb, w), 1, K_INT), w));
    case LLVM_Sub: return simp(fit(lin_add(a, a ? 0 : sconst(ca, w), b, b ? 0 : sconst(cb, w), -1, K_INT), w));
    case LLVM_Mul: case LLVM_Shl: {
        if (op == LLVM_Shl) { if (b) { split_int(b); b = nullptr; } if (!a) return nullptr; cb = 1ull << (cb & 63); }
        if (a && b) {
            double l1, h1, l2, h2; ival(a, l1, h1); ival(b, l2, h2);
            if (h1 - l1 < h2 - l2) { split_int(a); a = nullptr; } else { split_int(b); b = nullptr; }
        }
        Expr *e = a ? a : b; double c = a ? sconst(cb, w) : sconst(ca, w);
        e = lin_scale(as_signed(e, w), c, K_INT);
        if (!e) { note("incomplete:inexact product"); return nullptr; }
        return simp(fit(e, w));
    }
    case LLVM_UDiv: case LLVM_SDiv: case LLVM_URem: case LLVM_SRem: case LLVM_LShr: case LLVM_AShr: {
        bool sgn = op == LLVM_SDiv || op == LLVM_SRem || op == LLVM_AShr;
        bool rem = op == LLVM_URem || op == LLVM_SRem;
        if (op == LLVM_LShr || op == LLVM_AShr) {
            if (b) { split_int(b); b = nullptr; }
            if (!a) return nullptr;
            if (cb > 52 || cb == (u64)w - 1) {      // only the sign is left
                Expr *x = as_signed(a, w); double lo, hi; ival(x, lo, hi);
                if (islin(x) && x->n && cb < 64 && lo >= -p2(cb) && hi < p2(cb)) { decideE(x, O_LT); return nullptr; }
                if (cb > 52) { split_int(a); return nullptr; }
            }
            Expr *x = viewI(a, ca, w, sgn);
            return simp(floordiv(x, p2(cb)));
        }
        Expr *x = viewI(a, ca, w, sgn), *y = viewI(b, cb, w, sgn);
        if (x->kind == K_BAD) return x;
        if (y->kind == K_BAD) return y;
        if (fabs(x->k) > 4e15 || fabs(y->k) > 4e15) { Expr *r = mk(K_BAD, x->n ? x->n : y->n); memcpy(r, x->n ? x : y, sizeof(Expr) + r->n * sizeof(Term)); r->kind = K_BAD; return r; }
        bool xn = false, yn = false;
        if (sgn) {
            xn = x->n ? decideE(x, O_LT) : x->k < 0; yn = y->n ? decideE(y, O_LT) : y->k < 0;
            if (xn) x = lin_scale(x, -1, K_INT);
            if (yn) y = lin_scale(y, -1, K_INT);
        }
        if (y->n ? decideE(y, O_EQ) : y->k == 0) return nullptr;    // native division by zero follows
        Expr *q;
        if (y->n == 0) q = x->n ? floordiv(x, y->k) : lin_const(floor(x->k / y->k), K_INT);
        else {
            for (;;) {
                bool own = pos >= prefix_len;
                double q0 = guess(floor(evalE(x) / evalE(y)));
                Expr *sy = lin_scale(y, q0, K_INT); bool exact = sy; if (!sy) sy = y;
                Expr *r = lin_add(x, 0, sy, 0, -1, K_INT);
                Expr *r2 = lin_add(r, 0, y, 0, -1, K_INT);
                bool ok = exact && !toolarge(x) && !toolarge(y) && !toolarge(r) && !toolarge(r2);
                if (ok && (q0 == 0 || (r->n ? decideE(r, O_GE) : r->k >= 0)) && (r2->n ? decideE(r2, O_LT) : r2->k < 0)) { q = lin_const(q0, K_INT); break; }
                if (!ok || own || path_mismatch) { note("split:division outside the exact range"); for (Expr *e : {x, y}) for (int i = 0; i < e->n; i++) split_int(mkvar(e->t[i].v)); return nullptr; }
            }
        }
        if (rem) {
            Expr *r = q->n ? lin_add(x, 0, lin_scale(q, y->k, K_INT), 0, -1, K_INT) : lin_add(x, 0, lin_scale(y, q->k, K_INT), 0, -1, K_INT);
            if (xn) r = lin_scale(r, -1, K_INT);
            return simp(r);
        }
        if (xn != yn) q = lin_scale(q, -1, K_INT);
        return simp(q);
    }
    case LLVM_And: {
        if (a && b) { split_int(b); b = nullptr; }
        Expr *e = a ? a : b; u64 c = a ? cb : ca;
        u64 mask = w == 64 ? ~0ull : (1ull << w) - 1; c &= mask;
        if (c == 0) return nullptr;
        if (c == mask) return e;
        if ((c & (c + 1)) == 0) { // low bits
            int k = __builtin_popcountll(c); Expr *x = as_signed(e, w);
            Expr *q = floordiv(x, p2(k));
            return simp(lin_add(x, 0, q->n ? lin_scale(q, p2(k), K_INT) : lin_const(q->k * p2(k), K_INT), 0, -1, K_INT));
        }
        u64 inv = ~c & mask;
        if ((inv & (inv + 1)) == 0) { // clear low bits
            int k = __builtin_popcountll(inv); Expr *x = as_signed(e, w);
            Expr *q = floordiv(x, p2(k));
            return simp(q->n ? lin_scale(q, p2(k), K_INT) : lin_const(q->k * p2(k), K_INT));
        }
        split_int(e); return nullptr;
    }
    case LLVM_Or: {
        if (!a && ca == 0) return b; if (!b && cb == 0) return a;
        if (a) split_int(a); if (b) split_int(b); return nullptr;
    }
    case LLVM_Xor: {
        u64 mask = w == 64 ? ~0ull : (1ull << w) - 1;
        if (!a && (ca & mask) == mask) { Expr *t = a; a = b; b = t; cb = ca; }
        if (a && !b && (cb & mask) == mask) return simp(lin_add(nullptr, -1, as_signed(a, w), 0, -1, K_INT));
        if (a) split_int(a); if (b) split_int(b); return nullptr;
    }
    }
    if (a) split_int(a); if (b) split_int(b);
    return nullptr;
}

// an inexact form (huge constant) whose sign cannot depend on the symbols: the native outcome holds for all of them
static bool clear_sign(Expr *d) {
    double lo, hi; interval(d->t, d->n, d->k, lo, hi);
    return lo > 1e-6 * fabs(d->k) || hi < -1e-6 * fabs(d->k);
}
static Expr *mkatom(Expr *d, Op op) { Expr *e = mk(K_ATOM, d->n); e->op = op; e->n = d->n; e->k = d->k; memcpy(e->t, d->t, d->n * sizeof(Term)); return e; }

Expr *__symx_icmp(int pred, int w, Expr *a, u64 ca, Expr *b, u64 cb) {
    if (!a && !b) return nullptr;
    if (a && a->kind == K_UNDEF) return a;
    if (b && b->kind == K_UNDEF) return b;
    Guard g;
    if ((a && a->kind == K_BAD) || (b && b->kind == K_BAD)) {
        if ((!a || a->kind == K_BAD || a->kind == K_INT) && (!b || b->kind == K_BAD || b->kind == K_INT)) {
            Expr *d = lin_add(a, a ? 0 : uconst(ca, w), b, b ? 0 : uconst(cb, w), -1, K_INT);
            if (clear_sign(d)) return nullptr;
        }
        note("incomplete:inexact comparison"); return nullptr;
    }
    if ((a && a->kind != K_INT) || (b && b->kind != K_INT)) {
        // bit-pattern comparison of reals: only (in)equality is meaningful
        if (a && b && a->kind == K_REAL && b->kind == K_REAL && (pred == LLVM_ICMP_EQ || pred == LLVM_ICMP_NE)) {
            Expr *d = lin_add(a, 0, b, 0, -1, K_REAL); if (!d->n) return nullptr; return mkatom(d, pred == LLVM_ICMP_EQ ? O_EQ : O_NE);
        }
        if (a) pin(a, "bit comparison of a real"); if (b) pin(b, "bit comparison of a real"); return nullptr;
    }
    bool sgn; Op op;
    switch (pred) {
    case LLVM_ICMP_EQ: op = O_EQ; break; case LLVM_ICMP_NE: op = O_NE; break;
    case LLVM_ICMP_UGT: case LLVM_ICMP_SGT: op = O_GT; break; case LLVM_ICMP_UGE: case LLVM_ICMP_SGE: op = O_GE; break;
    case LLVM_ICMP_ULT: case LLVM_ICMP_SLT: op = O_LT; break; default: op = O_LE;
    }
    if (pred == LLVM_ICMP_EQ || pred == LLVM_ICMP_NE) {
        bool sok = true;
        if (a) { double lo, hi; ival(a, lo, hi); if (hi >= p2(w - 1)) sok = false; }
        if (b) { double lo, hi; ival(b, lo, hi); if (hi >= p2(w - 1)) sok = false; }
        sgn = sok;
    } else sgn = pred >= LLVM_ICMP_SGT;
    Expr *x = viewI(a, ca, w, sgn), *y = viewI(b, cb, w, sgn);
    Expr *d = lin_add(x, 0, y, 0, -1, K_INT);
    if (!d->n) return nullptr;
    if (d->kind == K_BAD) { if (clear_sign(d)) return nullptr; note("incomplete:inexact comparison"); return nullptr; }
    return mkatom(d, op);
}
static Expr *torealE(Expr *e) { if (e->kind == K_REAL) return e; Expr *r = mk(K_REAL, e->n); r->n = e->n; r->k = e->k; memcpy(r->t, e->t, e->n * sizeof(Term)); return r; }

Expr *__symx_fcmp(int pred, Expr *a, double ca, Expr *b, double cb) {
    if (!a && !b) return nullptr;
    if (a && a->kind == K_UNDEF) return a;
    if (b && b->kind == K_UNDEF) return b;
    Guard g;
    if ((a && a->kind == K_BAD) || (b && b->kind == K_BAD)) { note("incomplete:inexact comparison"); return nullptr; }
    if ((a && !islin(a)) || (b && !islin(b))) { note("incomplete:fcmp of non-linear"); return nullptr; }
    if ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb))) return nullptr;
    Op op;
    switch (pred & 7) {
    case 1: op = O_EQ; break; case 2: op = O_GT; break; case 3: op = O_GE; break; case 4: op = O_LT; break; case 5: op = O_LE; break; case 6: op = O_NE; break;
    default: return nullptr;
    }
    if ((!a && fabs(ca) > 1e300) || (!b && fabs(cb) > 1e300)) return nullptr;   // symbolic values are far smaller
    Expr *d = lin_add(a, ca, b, cb, -1, K_REAL);
    if (!d->n) return nullptr;
    if (d->kind == K_BAD) { note("incomplete:inexact comparison"); return nullptr; }
    return mkatom(d, op);
}
Expr *__symx_fbin(int op, int w, Expr *a, double ca, Expr *b, double cb) {
    if (!a && !b) return nullptr;
    CHK_UNDEF(a) CHK_UNDEF(b)
    Guard g;
    if (a && a->kind == K_SQRT) { return nullptr; }
    if ((a && !islin(a)) || (b && !islin(b))) { note("incomplete:float op of non-linear"); return nullptr; }
    if ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb))) return nullptr;
    switch (op) {
    case LLVM_FAdd: return simp(fround(lin_add(a, ca, b, cb, 1, K_REAL), ca + cb));
    case LLVM_FSub: return simp(fround(lin_add(a, ca, b, cb, -1, K_REAL), ca - cb));
    case LLVM_FMul: {
        if (a && b) { pin(b, "product of two reals"); cb = evalE(b); b = nullptr; }
        Expr *r = lin_scale(a ? a : b, a ? cb : ca, K_REAL);
        if (!r) { pin(a ? a : b, "inexact scaling"); return nullptr; }
        return simp(r);
    }
    case LLVM_FDiv: {
        if (b) { pin(b, "division by a real"); cb = evalE(b); b = nullptr; if (!a) return nullptr; }
        int ex; double m = frexp(cb, &ex);
        if (fabs(m) == 0.5) { Expr *r = lin_scale(a, 1 / cb, K_REAL); if (r) return simp(r); }
        pin(a, "inexact division"); return nullptr;
    }
    }
    if (a) pin(a, "frem"); if (b) pin(b, "frem");
    return nullptr;
}
static void decide_bool(Expr *e, bool conc, const char *where = "") {
    if (e->kind == K_UNDEF) { undef_use("branch on uninitialised value"); return; }
    if (e->kind != K_ATOM) { note("incomplete:non-atom condition"); return; }
    Atom a; a.t.assign(e->t, e->t + e->n); a.k = e->k; a.op = (Op)e->op;
    decide_atom(a, conc);
}
void __symx_decide(Expr *e, u8 conc) { if (!e) return; Guard g; decide_bool(e, conc & 1); }
Expr *__symx_not(Expr *e) { if (!e) return e; Expr *r = mk(K_ATOM, e->n); memcpy(r, e, sizeof(Expr) + e->n * sizeof(Term)); r->op = NEG[r->op]; return r; }
// x, y are 0/1 native values; null shadow = concrete
Expr *__symx_and(Expr *a, u8 x, Expr *b, u8 y) {
    if (!a && !b) return nullptr;
    x &= 1; y &= 1;
    Guard g;
    if (!a) return x ? b : nullptr;
    if (!b) return y ? a : nullptr;
    decide_bool(a, x);
    return x ? b : nullptr;
}
Expr *__symx_or(Expr *a, u8 x, Expr *b, u8 y) {
    if (!a && !b) return nullptr;
    x &= 1; y &= 1;
    Guard g;
    if (!a) return x ? nullptr : b;
    if (!b) return y ? nullptr : a;
    decide_bool(a, x);
    return x ? nullptr : b;
}
Expr *__symx_xor(Expr *a, u8 x, Expr *b, u8 y) {
    if (!a && !b) return nullptr;
    x &= 1; y &= 1;
    Guard g;
    if (a && b) { decide_bool(a, x); a = nullptr; }
    Expr *e = a ? a : b; u8 c = a ? y : x;
    if (e->kind == K_UNDEF) return e;
    return c ? __symx_not(e) : e;
}
void __symx_switch(Expr *e, u64 v, int w, int n, const u64 *vals) {
    if (!e) return;
    Guard g;
    if (e->kind == K_UNDEF) { undef_use("switch on uninitialised value"); return; }
    u64 mask = w == 64 ? ~0ull : (1ull << w) - 1;
    for (int i = 0; i < n; i++) {
        Expr *c = __symx_icmp(LLVM_ICMP_EQ, w, e, v, nullptr, vals[i]);
        bool hit = (v & mask) == (vals[i] & mask);
        if (c) decide_bool(c, hit);
        if (hit) break;
    }
}
void __symx_concretize(Expr *e, int w, u64 v) {
    if (!e) return;
    Guard g;
    if (e->kind == K_UNDEF) { undef_use("address from uninitialised value"); return; }
    if (e->kind == K_INT) { split_int(e); note("split:concretised integer"); }
    else if (e->kind == K_REAL) pin(e, "concretised real");
    else note("incomplete:concretised non-linear");
}
void __symx_unsup(Expr *e, const char *what) {
    if (!e) return;
    Guard g;
    if (e->kind == K_UNDEF) return;
    if (e->kind == K_INT) { split_int(e); return; }
    if (e->kind == K_ATOM) { Atom a; a.t.assign(e->t, e->t + e->n); a.k = e->k; a.op = (Op)e->op; decide_bool(e, holds(evalA(a), a.op)); return; }
    notef("dropped:%s", what);
}
static Expr *trunc_to_int(Expr *e) { // toward zero
    bool ints = e->k == floor(e->k);
    for (int i = 0; i < e->n; i++) if (!vars[e->t[i].v].isint || e->t[i].c != floor(e->t[i].c)) ints = false;
    if (ints) { Expr *r = mk(K_INT, e->n); r->n = e->n; r->k = e->k; memcpy(r->t, e->t, e->n * sizeof(Term)); return r; }
    bool neg = decideE(e, O_LT);
    if (neg) e = lin_scale(e, -1, K_REAL);
    double lo, hi; ival(e, lo, hi);
    int q = newvar(true, floor(std::max(lo, 0.0)), floor(hi), false, floor(evalE(e)), 1, "t");
    inhomog = true;
    Expr *r = lin_add(e, 0, mkvar(q), 0, -1, K_REAL);
    add_def(atomOf(r, O_GE));
    add_def(atomOf(lin_add(r, 0, nullptr, 1, -1, K_REAL), O_LT));
    Expr *k = mkvar(q);
    return neg ? lin_scale(k, -1, K_INT) : k;
}
Expr *__symx_cast(int op, int sw, int dw, Expr *e, u64 v, double d) {
    if (!e) return nullptr;
    if (e->kind == K_UNDEF) {
        if (op == LLVM_Trunc || op == LLVM_ZExt) { int b = (op == LLVM_Trunc ? dw : sw) / 8; return mkundef(b ? e->op & (u8)((1u << b) - 1) : e->op, e->k || op == LLVM_ZExt); }
        if (op == LLVM_BitCast) return e;
    }
    CHK_UNDEF(e)
    Guard g;
    switch (op) {
    case LLVM_ZExt: if (e->kind != K_INT) break; return as_unsigned(e, sw);
    case LLVM_SExt: if (e->kind != K_INT) break; return as_signed(e, sw);
    case LLVM_Trunc: {
        if (e->kind != K_INT) break;
        double lo, hi; ival(e, lo, hi);
        if (lo >= -p2(dw - 1) && hi < p2(dw)) return e;
        Expr *x = as_signed(e, sw);
        ival(x, lo, hi);
        if (lo >= -p2(dw - 1) && hi < p2(dw)) return x;
        Expr *q = floordiv(x, p2(dw));
        return simp(lin_add(x, 0, q->n ? lin_scale(q, p2(dw), K_INT) : lin_const(q->k * p2(dw), K_INT), 0, -1, K_INT));
    }
    case LLVM_SIToFP: if (e->kind != K_INT) break; return torealE(as_signed(e, sw));
    case LLVM_UIToFP: if (e->kind != K_INT) break; return torealE(as_unsigned(e, sw));
    case LLVM_FPExt: return e;
    case LLVM_FPTrunc: {
        if (e->kind != K_REAL) break;
        double lo, hi; ival(e, lo, hi);
        if (hi <= 16777216.0 && lo >= -16777216.0) return e;
        Expr *x = lin_add(e, 0, nullptr, 16777216.0, -1, K_REAL);
        if (!decideE(x, O_GT)) return e;
        pin(e, "float rounding"); return nullptr;
    }
    case LLVM_FPToSI: case LLVM_FPToUI:
        if (e->kind == K_SQRT) {
            Expr *x = mk(K_INT, e->n); x->n = e->n; x->k = e->k; memcpy(x->t, e->t, e->n * sizeof(Term));
            for (;;) {
                if (path_mismatch) return nullptr;
                double r = guess(floor(sqrt(evalE(x))));
                Expr *d = lin_add(x, 0, nullptr, r * r, -1, K_INT); if (d->n && !decideE(d, O_GE)) continue;
                d = lin_add(x, 0, nullptr, (r + 1) * (r + 1), -1, K_INT); if (d->n && !decideE(d, O_LT)) continue;
                return nullptr;
            }
        }
        if (e->kind != K_REAL) break;
        return simp(trunc_to_int(e));
    case LLVM_BitCast: return e;
    }
    pin(e, "cast"); return nullptr;
}
Expr *__symx_intr(int k, int w, Expr *a, u64 ca, Expr *b, u64 cb) {
    if (!a && !b) return nullptr;
    CHK_UNDEF(a) CHK_UNDEF(b)
    Guard g;
    if ((a && a->kind != K_INT) || (b && b->kind != K_INT)) { if (a) pin(a, "int intrinsic"); if (b) pin(b, "int intrinsic"); return nullptr; }
    if (k == 4) { Expr *x = as_signed(a, w); return decideE(x, O_LT) ? lin_scale(x, -1, K_INT) : x; }
    if (k == 5) {
        Expr *x = viewI(a, ca, w, false), *y = viewI(b, cb, w, false), *d = lin_add(x, 0, y, 0, -1, K_INT);
        if (!d->n) return nullptr; if (decideE(d, O_LT)) return nullptr; return d;
    }
    bool sgn = k >= 2;
    Expr *x = viewI(a, ca, w, sgn), *y = viewI(b, cb, w, sgn);
    Expr *d = lin_add(x, 0, y, 0, -1, K_INT);
    bool le = d->n ? decideE(d, O_LE) : d->k <= 0;
    bool ismin = k == 0 || k == 2;
    return simp((le == ismin) ? x : y);
}
Expr *__symx_fintr(int k, Expr *a, double ca, Expr *b, double cb, Expr *c, double cc) {
    if (!a && !b && !c) return nullptr;
    CHK_UNDEF(a) CHK_UNDEF(b) CHK_UNDEF(c)
    Guard g;
    switch (k) {
    case 0: if (!islin(a)) return nullptr; return decideE(a, O_LT) ? lin_scale(a, -1, K_REAL) : a;
    case 1: {
        bool ints = a->k == floor(a->k);
        for (int i = 0; i < a->n; i++) if (!vars[a->t[i].v].isint || a->t[i].c != floor(a->t[i].c)) ints = false;
        if (!ints) { pin(a, "sqrt"); return nullptr; }
        Expr *e = mk(K_SQRT, a->n); e->n = a->n; e->k = a->k; memcpy(e->t, a->t, a->n * sizeof(Term)); return e;
    }
    case 2: case 3: {
        Expr *d = lin_add(a, ca, b, cb, -1, K_REAL);
        bool le = d->n ? decideE(d, O_LE) : d->k <= 0;
        return (le == (k == 2)) ? a : b;
    }
    case 4: { Expr *m = __symx_fbin(LLVM_FMul, 64, a, ca, b, cb); return __symx_fbin(LLVM_FAdd, 64, m, ca * cb, c, cc); }
    case 5: case 6: case 7: {
        if (a->kind == K_SQRT) { if (k == 6) { note("incomplete:ceil sqrt"); return nullptr; } return a; }
        if (k == 7) { Expr *t = trunc_to_int(a); return simp(torealE(t)); }
        bool neg = decideE(a, O_LT);
        Expr *t = trunc_to_int(a);
        Expr *r = lin_add(a, 0, t, 0, -1, K_REAL);
        bool exactv = r->n ? decideE(r, O_EQ) : r->k == 0;
        double adj = exactv ? 0 : (k == 5 ? (neg ? -1 : 0) : (neg ? 0 : 1));
        return simp(lin_add(torealE(t), 0, nullptr, adj, 1, K_REAL));
    }
    }
    return nullptr;
}
// overflow flag of a with.overflow intrinsic: decided (so both outcomes are explored)
Expr *__symx_ovf(int k, int w, Expr *a, u64 ca, Expr *b, u64 cb) {
    if (!a && !b) return nullptr;
    CHK_UNDEF(a) CHK_UNDEF(b)
    Guard g;
    if ((a && a->kind != K_INT) || (b && b->kind != K_INT)) return nullptr;
    bool sgn = k < 3;
    Expr *x = viewI(a, ca, w, sgn), *y = viewI(b, cb, w, sgn), *r;
    if (k % 3 == 0) r = lin_add(x, 0, y, 0, 1, K_INT);
    else if (k % 3 == 1) r = lin_add(x, 0, y, 0, -1, K_INT);
    else {
        if (x->n && y->n) {
            double l1, h1, l2, h2; ival(x, l1, h1); ival(y, l2, h2);
            double m = std::max(std::max(fabs(l1 * l2), fabs(h1 * h2)), std::max(fabs(l1 * h2), fabs(h1 * l2)));
            if (m < (sgn ? p2(w - 1) : p2(w))) return nullptr;   // cannot overflow on this path
            if (h1 - l1 < h2 - l2) { split_int(x); x = lin_const(evalE(x), K_INT); } else { split_int(y); y = lin_const(evalE(y), K_INT); }
        }
        r = x->n ? lin_scale(x, y->k, K_INT) : lin_scale(y, x->k, K_INT);
        if (!r) { note("incomplete:inexact product"); return nullptr; }
    }
    if (!r->n) return nullptr;
    double lo, hi; ival(r, lo, hi);
    double min = sgn ? -p2(w - 1) : 0, max = sgn ? p2(w - 1) : p2(w);
    // the flag itself is the native one; deciding both comparisons covers it
    if (hi >= max) { if (decideE(lin_add(r, 0, nullptr, max, -1, K_INT), O_GE)) return nullptr; }
    if (lo < min) { decideE(lin_add(r, 0, nullptr, min, -1, K_INT), O_LT); }
    return nullptr;
}

// ------------------------------------------------------------------ shadow memory
}
static std::vector<u64> dirty;                       // granules that may hold cells
static std::unordered_map<u64, u64> gmap;            // cells outside the region
static inline u64 packc(Expr *e, int size) { int l = size == 1 ? 0 : size == 2 ? 1 : size == 4 ? 2 : 3; return (u64)e | l; }
static inline Expr *cexpr(u64 c) { return (Expr *)(c & ~7ull); }
static inline int csize(u64 c) { return 1 << (c & 7); }
static u64 getcell(u64 addr) {
    u64 off = addr - BASE;
    if (off < REGION) { if (!*granp(off)) return 0; return *cellp(off); }
    if (gmap.empty()) return 0;
    auto it = gmap.find(addr); return it == gmap.end() ? 0 : it->second;
}
static void setcell(u64 addr, u64 c) {
    u64 off = addr - BASE;
    if (off < REGION) {
        u8 *g = granp(off);
        if (!*g) { if (!c) return; *g = 1; dirty.push_back(off & ~7ull); }
        *cellp(off) = c;
    } else { if (c) gmap[addr] = c; else if (!gmap.empty()) gmap.erase(addr); }
}
static bool quiet(u64 addr, u64 size) {
    u64 off = addr - BASE;
    if (off < REGION) {
        u64 a = (off >= 7 ? off - 7 : 0) >> 3, b = (off + size - 1) >> 3;
        for (u64 i = a; i <= b; i++) if (((u8 *)GRANS)[i]) return false;
        return true;
    }
    return gmap.empty();
}
// the first n bytes of a symbolic value whose tail was overwritten: reported if anything reads them
static void damaged(u64 a, u64 n, Expr *e) {
    if (e->kind == K_UNDEF || e->n == 0) { setcell(a, 0); return; }
    Expr *r = mk(K_BAD, e->n); memcpy(r, e, sizeof(Expr) + e->n * sizeof(Term)); r->kind = K_BAD; r->k = NAN;
    setcell(a, packc(r, n >= 4 ? 4 : n >= 2 ? 2 : 1));
}
static void clear_range(u64 addr, u64 size) {
    if (!size || quiet(addr, size)) return;
    for (u64 a = addr > 7 ? addr - 7 : 0; a < addr; a++) {
        u64 c = getcell(a);
        if (c && a + csize(c) > addr) { damaged(a, addr - a, cexpr(c)); }
    }
    for (u64 a = addr; a < addr + size; a++) {
        u64 off = a - BASE;
        if (off < REGION && (off & 7) == 0 && !*granp(off)) { a += 7; continue; }
        setcell(a, 0);
    }
}
// bytes of [off, off+size) that were never given a value.  Stores by uninstrumented
// code do not clear the marks; they show as a marked byte that no longer holds the fill.
static u8 undef_bytes(u64 off, int size) {
    if (!*udefp(off) && !*udefp(off + size - 1)) return 0;
    u8 m = 0;
    for (int i = 0; i < size; i++) {
        u64 o = off + i; u8 u = *udefp(o);
        if (!(u >> (o & 7) & 1)) continue;
        u8 *w = (u8 *)(BASE + (o & ~7ull)); bool touched = false;
        for (int j = 0; j < 8; j++) if ((u >> j & 1) && w[j] != 0xcd) touched = true;
        if (touched) *udefp(o) = 0; else m |= 1 << i;
    }
    return m;
}
static void set_undef(u64 addr, u64 size, bool on) {
    u64 off = addr - BASE;
    if (off >= REGION) return;
    u64 e = off + size;
    while (off < e && (off & 7)) { u8 b = 1 << (off & 7); if (on) *udefp(off) |= b; else *udefp(off) &= ~b; off++; }
    if (e - off >= 8 && off < e) { memset(udefp(off), on ? 0xff : 0, (e - off) >> 3); off += (e - off) & ~7ull; }
    while (off < e) { u8 b = 1 << (off & 7); if (on) *udefp(off) |= b; else *udefp(off) &= ~b; off++; }
}
extern "C" {
Expr *__symx_load(u64 p, int size) {
    u64 off = p - BASE;
    if (memcheck_on && off < REGION && size <= 8) { u8 m = undef_bytes(off, size); if (m) { Guard g; u64 c = getcell(p); if (!c) return mkundef(m, false); } }
    if (__builtin_expect(off < REGION, 1)) { if (!*granp(off) && !*granp(off + size - 1)) { if (off & 7) { if (!*granp(off - (off > 7 ? 7 : 0))) return nullptr; } else return nullptr; } }
    else if (gmap.empty()) return nullptr;
    Guard g;
    u64 c = getcell(p);
    if (c && csize(c) == size) return cexpr(c);
    bool any = false;
    for (u64 a = p - 7; a < p + size; a++) {
        u64 x = getcell(a);
        if (x && (a >= p || a + csize(x) > p)) { any = true; if (cexpr(x)->kind == K_UNDEF) continue; pin(cexpr(x), "partial or mixed-size load"); }
    }
    (void)any;
    return nullptr;
}
void __symx_store(u64 p, int size, Expr *e) {
    u64 off = p - BASE;
    if (!e) { if (off < REGION && !*granp(off) && !*granp(off + size - 1) && (!(off & 7) || !*granp(off - (off > 7 ? 7 : 0)))) return; if (off >= REGION && gmap.empty()) return; Guard g; clear_range(p, size); return; }
    Guard g;
    clear_range(p, size);
    if (e->kind == K_UNDEF && !e->k) { for (int i = 0; i < size; i++) if (e->op >> i & 1) set_undef(p + i, 1, true); return; }
    if (e->kind == K_ATOM || e->kind == K_SQRT) { note("incomplete:stored non-linear"); return; }
    setcell(p, packc(e, size));
}
void __symx_store_c(u64 p, int size) { __symx_store(p, size, nullptr); }
void __symx_clear(u64 p, u64 size) { if (quiet(p, size ? size : 1)) return; Guard g; clear_range(p, size); }
static void copy_cells(u64 d, u64 s, u64 n) {
    if (!n) return;
    if (memcheck_on && d - BASE < REGION) {
        if (s - BASE < REGION) { std::vector<u8> m; Guard g; m.resize(n); for (u64 i = 0; i < n; i++) m[i] = *udefp(s + i - BASE) ? undef_bytes(s + i - BASE, 1) : 0; for (u64 i = 0; i < n; i++) { u64 o = d + i - BASE; u8 b = 1 << (o & 7); if (m[i]) *udefp(o) |= b; else *udefp(o) &= ~b; } }
        else set_undef(d, n, false);
    }
    bool qs = quiet(s, n);
    if (qs && quiet(d, n)) return;
    Guard g;
    std::vector<std::pair<u64, u64>> cs;
    if (!qs) {
        for (u64 i = 0; i < n; i++) {
            u64 off = s + i - BASE;
            if (off < REGION && (off & 7) == 0 && !*granp(off)) { i += 7; continue; }
            u64 c = getcell(s + i);
            if (c) { if (i + csize(c) <= n) cs.push_back({i, c}); else pin(cexpr(c), "partial copy"); }
        }
    }
    clear_range(d, n);
    for (auto &x : cs) setcell(d + x.first, x.second);
}
void __symx_memcpy(u64 d, u64 s, u64 n) { copy_cells(d, s, n); }
void __symx_memset(u64 d, u64 n) { __symx_clear(d, n); }
// start (on) and end of a stack object's life
static void stack_mark(u64 p, u64 size, u8 v) {
    u64 off = p - BASE;
    if (off >= REGION) return;
    if (v && (off & 7)) return;   // granules are 8 bytes
    u8 ok = off < HEAP_SIZE ? 8 : 0;
    memset(statep(off), v ? v : ok, ((off & 7) + size + 7) >> 3);
}
void __symx_byval(u64 d, u64 s, u64 n) { if (memcheck_on && d - BASE < REGION) stack_mark(d, n, 0); if (s) copy_cells(d, s, n); else __symx_clear(d, n); }
void __symx_wideload(u64 p, int size) {
    if (quiet(p, size)) return;
    Guard g;
    for (u64 a = p; a < p + size; a++) { u64 c = getcell(a); if (c && cexpr(c)->kind != K_UNDEF) pin(cexpr(c), "wide load"); }
}
void __symx_alloca(u64 p, u64 size) {
    Guard g;
    clear_range(p, size);
    if (memcheck_on && p - BASE < REGION) { stack_mark(p, size, 0); memset((void *)p, 0xcd, size); set_undef(p, size, true); }
}
// a local object of the given size at the start of a larger slot
void __symx_alloca_padded(u64 p, u64 size, u64 slot) {
    __symx_alloca(p, size);
    if (!memcheck_on || p - BASE >= REGION || (p & 7)) return;
    u64 full = (size + 7) >> 3;
    if (size & 7) *statep(p - BASE + (size & ~7ull)) = size & 7;
    memset(statep(p - BASE + full * 8), 0xfb, (slot >> 3) - full);
}
// the argument areas of a variadic call are no local objects of anybody
void __symx_vastart(u64 *ap) {
    if (!memcheck_on) return;
    if (ap[2] - BASE < REGION) stack_mark(ap[2], 176, 0);
    if (ap[1] - BASE < REGION) stack_mark(ap[1], 96, 0);
}
void __symx_lifetime(u64 p, u64 size, int on) {
    if (!memcheck_on || p - BASE >= REGION) return;
    if (on) { __symx_alloca(p, size); if (!(p & 7) && (size & 7)) *statep(p - BASE + (size & ~7ull)) = size & 7; return; }
    Guard g;
    stack_mark(p, size, 0xf8);
}
static const char **fn_names; static int fn_count;
void __symx_register(const char **names, int n) { fn_names = names; fn_count = n; }
void __symx_enter(int id) { if (id < 65536) S->fns[id] = 1; }
void __symx_frame(void *) {}
}

// ------------------------------------------------------------------ arena allocator
static void viol(const char *key, const std::string &msg, const std::vector<double> *vals);
static const u64 HDR = 32;
struct Hdr { u64 size; u64 magic; u64 seq; u64 arena; };
static u64 alloc_seq, mark_seq;
static std::unordered_map<u64, u64> *live;   // memcheck: live blocks -> seq
static int race_task = -1; static u64 race_alloc_mark; 
struct RAcc { int rd, wr; };   // task id or -2 = several, -1 = none
static std::unordered_map<u64, RAcc> *race_map; static bool race_active = false; static int race_paused = 0; static u64 race_stack_mark;

static void fatal_engine(const char *m) { fprintf(stderr, "symx: engine: %s\n", m); _exit(70); }
// Freed blocks are normally never handed out again; only long runs recycle them.
static const u64 RECYCLE_FROM = 40ull << 20;
static std::unordered_map<u64, std::vector<u64>> *recycled;
static void *arena_alloc(size_t n) {
    u64 need = ((n + 15) & ~15ull) + HDR + 16;
    u64 &cur = arena_cur[arena_id];
    if (!recycled[arena_id].empty()) {
        auto it = recycled[arena_id].find(need);
        if (it != recycled[arena_id].end() && !it->second.empty()) {
            u64 p = it->second.back(); it->second.pop_back();
            Hdr *h = (Hdr *)(p - HDR); h->size = n; h->magic = 0x53594d58414c4956ull; h->seq = ++alloc_seq; h->arena = arena_id;
            in_engine++; clear_range(p, need - HDR); in_engine--;
            memset((void *)p, 0xcd, n); live_blocks++;
            return (void *)p;
        }
    }
    if (cur + need > arena_hi[arena_id]) { snprintf(end_msg, sizeof end_msg, "arena exhausted"); note("incomplete:arena exhausted"); end_path(E_TIMEOUT); }
    Hdr *h = (Hdr *)cur; h->size = n; h->magic = 0x53594d58414c4956ull; h->seq = ++alloc_seq; h->arena = arena_id;
    u64 p = cur + HDR;
    memset((void *)p, 0xcd, n);
    cur += need;
    if (memcheck_on) {
        u64 off = p - BASE;
        u8 *s = statep(off); u64 full = n >> 3;
        memset(statep(off - HDR), 0xfa, HDR >> 3);
        memset(s, 8, full);
        u64 rest = ((n + 15) & ~15ull) / 8 + 2;
        for (u64 i = full; i < rest; i++) s[i] = 0xfa;
        if (n & 7) s[full] = n & 7;
        set_undef(p, n, true);
        { in_engine++; (*live)[p] = alloc_seq; in_engine--; }
    }
    live_blocks++;
    return (void *)p;
}
// names of the callers, from the executable's own symbol table
static std::vector<std::pair<u64, std::string>> *elf_syms;
static std::string short_fn(const std::string &m) {
    int stt = 0; char *d = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &stt);
    std::string s = d && !stt ? d : m, o; free(d);
    int depth = 0; size_t cut = 0;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (c == '<' && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0)) depth++;
        else if (c == '>' && depth) depth--;
        else if (depth) continue;
        else if (c == '(') { if (s.compare(i, 2, "()") == 0 && s.compare(i >= 8 ? i - 8 : 0, 8, "operator") == 0) { o += "()"; i++; continue; } if (s.compare(i, 11, "(anonymous ") == 0) continue; break; }
        else { if (c == ' ') cut = o.size() + 1; o += c; }
    }
    return cut < o.size() && o.find("operator") == std::string::npos ? o.substr(cut) : o;
}
static void elf_load() {
    elf_syms = new std::vector<std::pair<u64, std::string>>();
    FILE *f = fopen("/proc/self/exe", "rb"); if (!f) return;
    Elf64_Ehdr eh; if (fread(&eh, sizeof eh, 1, f) != 1) { fclose(f); return; }
    std::vector<Elf64_Shdr> sh(eh.e_shnum); fseek(f, eh.e_shoff, SEEK_SET);
    if (fread(sh.data(), sizeof(Elf64_Shdr), sh.size(), f) == sh.size())
        for (auto &x : sh) if (x.sh_type == SHT_SYMTAB) {
            std::vector<Elf64_Sym> sy(x.sh_size / sizeof(Elf64_Sym)); fseek(f, x.sh_offset, SEEK_SET); if (fread(sy.data(), sizeof(Elf64_Sym), sy.size(), f) != sy.size()) break;
            std::vector<char> st(sh[x.sh_link].sh_size + 1); fseek(f, sh[x.sh_link].sh_offset, SEEK_SET); if (fread(st.data(), 1, st.size() - 1, f) != st.size() - 1) break;
            for (auto &y : sy) if (ELF64_ST_TYPE(y.st_info) == STT_FUNC && y.st_value) elf_syms->push_back({y.st_value, st.data() + y.st_name});
        }
    fclose(f); std::sort(elf_syms->begin(), elf_syms->end());
}
static std::string callers() {
    std::string st; void *bt[48]; int n = backtrace(bt, 48), shown = 0;
    if (!elf_syms) elf_load();
    for (int i = 0; i < n && shown < 7; i++) {
        u64 a = (u64)bt[i] - 1;
        auto it = std::upper_bound(elf_syms->begin(), elf_syms->end(), std::make_pair(a, std::string("\xff")));
        if (it == elf_syms->begin() || a > elf_syms->back().first + 4096) continue;
        std::string f = short_fn((--it)->second);
        if (f.compare(0, 4, "main") == 0 || f.empty()) continue;
        st += (shown++ ? " <- " : " in ") + f;
        if (f == "symx_harness") break;
    }
    return st;
}
static void memviol(const char *what, u64 addr, u64 size);
static void arena_free(void *p) {
    u64 a = (u64)p;
    Hdr *h = (Hdr *)(a - HDR);
    if (h->magic == 0x53594d5846524545ull) { if (memcheck_on) memviol("double free", a, 0); else return; }
    else if (h->magic != 0x53594d58414c4956ull) { if (memcheck_on) memviol("invalid free", a, 0); else return; }
    h->magic = 0x53594d5846524545ull;
    live_blocks--;
    if (memcheck_on) { memset(statep(a - BASE), 0xfd, (h->size + 7) >> 3); in_engine++; live->erase(a); in_engine--; }
    if (!memcheck_on && !race_on && a - arena_lo[h->arena] > RECYCLE_FROM) { in_engine++; recycled[h->arena][((h->size + 15) & ~15ull) + HDR + 16].push_back(a); in_engine--; }
    if (race_on && race_active && race_task >= 0 && h->seq <= race_alloc_mark && !race_paused) { /* freeing a shared block counts as a write */ }
}
// destructors of statics first reached on a path die with the path
extern "C" int __cxa_atexit(void (*f)(void *), void *a, void *d) {
    if (path_active) return 0;
    static int (*real)(void (*)(void *), void *, void *);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(f, a, d);
}
void *operator new(size_t n) { if (path_active && !in_engine) return arena_alloc(n); void *p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept { u64 o = (u64)p - BASE; if (o < REGION) { if (path_active) arena_free(p); return; } __libc_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void *operator new(size_t n, std::align_val_t al) {
    if (path_active && !in_engine) { u64 a = (u64)al; if (a <= 16) return arena_alloc(n); char *p = (char *)arena_alloc(n + a); return p; }
    void *p; if (posix_memalign(&p, (size_t)al, n)) abort(); return p;
}
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ solver
static z3::context *Z; static z3::solver *Zs; static size_t asserted = 0;
static std::map<std::pair<int, int>, z3::expr *> zvars;
static z3::expr znum(double d) {
    if (d == floor(d) && fabs(d) < 9e18) return Z->real_val((int64_t)d, 1);
    int ex; double m = frexp(d, &ex);  // d = m * 2^ex
    i64 mi = (i64)ldexp(m, 53); ex -= 53;
    while (ex < 0 && !(mi & 1)) { mi >>= 1; ex++; }
    std::string s = std::to_string(mi);
    z3::expr e = Z->real_val(s.c_str());
    z3::expr two = Z->real_val(2);
    if (ex >= 0) { std::string t = "1"; z3::expr f = Z->real_val(1); for (int i = 0; i < ex; i++) f = f * two; return (e * f).simplify(); }
    z3::expr f = Z->real_val(1); for (int i = 0; i < -ex; i++) f = f * two;
    return (e / f).simplify();
}
static z3::expr zvar(int v, bool isint) {
    auto &p = zvars[{v, isint}];
    if (!p) { std::string n = std::string(isint ? "i" : "w") + std::to_string(v); p = new z3::expr(isint ? Z->int_const(n.c_str()) : Z->real_const(n.c_str())); }
    return *p;
}
static std::vector<bool> varint_tmp;
static bool var_isint(int v);
static z3::expr zatom(const std::vector<Term> &t, double k, Op op) {
    bool ai = k == floor(k) && fabs(k) < 9e18;
    for (auto &x : t) if (!var_isint(x.v) || x.c != floor(x.c)) ai = false;
    z3::expr_vector ev(*Z);
    for (auto &x : t) {
        if (ai) { z3::expr v = zvar(x.v, true); ev.push_back(x.c == 1 ? v : Z->int_val((int64_t)x.c) * v); }
        else { bool iv = var_isint(x.v); z3::expr v = zvar(x.v, iv); if (iv) v = z3::to_real(v); ev.push_back(x.c == 1 ? v : znum(x.c) * v); }
    }
    if (ev.empty()) return Z->bool_val(holds(k, op));
    z3::expr s = ev.size() == 1 ? ev[0] : z3::sum(ev);
    z3::expr r = ai ? Z->int_val((int64_t)-k) : znum(-k);
    switch (op) { case O_LT: return s < r; case O_LE: return s <= r; case O_EQ: return s == r; case O_NE: return s != r; case O_GT: return s > r; default: return s >= r; }
}
static z3::expr zdec(const Dec &d, bool flip) {
    if (d.type == T_VAR) {
        bool isint = d.a.t[0].v; double lo = d.a.k, hi = d.a.t[0].c;
        z3::expr v = zvar(d.var, isint);
        if (isint) return v >= Z->int_val((int64_t)lo) && v <= Z->int_val((int64_t)hi);
        return v >= znum(lo) && v <= znum(hi);
    }
    if (d.type == T_CHOICE || d.type == T_GUESS) return Z->bool_val(true);
    return zatom(d.a.t, d.a.k, flip ? NEG[d.a.op] : d.a.op);
}
// var sorts/bounds over the whole trail, for use after the path ended
struct VInfo { bool isint; double lo, hi; bool input; i64 den; };
static std::vector<VInfo> vinfo;
static bool var_isint(int v) { return vinfo[v].isint; }

static z3::check_result zcheck() {
    double t = now();
    z3::check_result r = z3::unknown;
    try { r = Zs->check(); } catch (z3::exception &e) { notef("incomplete:z3 %s", e.msg()); }
    S->solver_us += (u64)((now() - t) * 1e6);
    S->queries++;
    if (r == z3::sat) S->sat++; else if (r == z3::unsat) S->unsat++; else { S->unknown++; note("incomplete:solver unknown"); }
    return r;
}
static void sync(size_t n) {
    if (asserted > n) { Zs->pop(asserted - n); asserted = n; }
    while (asserted < n) { Zs->push(); Dec &d = trail[asserted]; if (d.type != T_CHOICE && d.type != T_GUESS) Zs->add(zdec(d, false)); asserted++; }
}
static bool zrat(const z3::expr &e, __int128 &num, __int128 &den) {
    auto p = [](const std::string &s, __int128 &o) { __int128 r = 0; bool neg = false; for (char c : s) { if (c == '-') { neg = true; continue; } if (c < '0' || c > '9') return false; r = r * 10 + (c - '0'); if (r > ((__int128)1 << 100)) return false; } o = neg ? -r : r; return true; };
    if (!e.is_numeral()) return false;
    std::string n, d;
    if (e.is_int()) { n = e.get_decimal_string(0); d = "1"; }
    else { n = e.numerator().get_decimal_string(0); d = e.denominator().get_decimal_string(0); }
    return p(n, num) && p(d, den) && den > 0;
}
static __int128 igcd(__int128 a, __int128 b) { if (a < 0) a = -a; while (b) { __int128 t = a % b; a = b; b = t; } return a; }

// Model for the variables created by trail[0..n).  Returns false if no
// exactly representable model could be produced.
static bool get_values(size_t n, bool inh, std::vector<double> &out) {
    unsigned scopes0 = Z3_solver_get_num_scopes(*Z, *Zs);
    for (int attempt = 0; attempt < 1; attempt++) {
        z3::model m = Zs->get_model();
        std::vector<__int128> num, den; std::vector<int> ids;
        __int128 l = 1; bool ok = true; bool anyint = false;
        out.clear();
        std::vector<char> isint; std::vector<i64> dens;
        for (size_t i = 0; i < n; i++) {
            Dec &d = trail[i];
            if (d.type != T_VAR) continue;
            bool ii = vinfo[d.var].isint;
            z3::expr v = m.eval(zvar(d.var, ii), true);
            __int128 a, b;
            if (!zrat(v, a, b)) { ok = false; a = 1; b = 1; }
            num.push_back(a); den.push_back(b); isint.push_back(ii); ids.push_back(d.var); dens.push_back(vinfo[d.var].den);
            if (ii) anyint = true;
            else { __int128 g = igcd(l, b); l = l / g * b; if (l > ((__int128)1 << 60)) ok = false; }
        }
        bool dyadic = true; for (auto x : dens) if (x != 1) dyadic = false;
        if (ok && (l == 1 || (!inh && !anyint && dyadic))) {
            bool fits = true;
            for (size_t i = 0; i < num.size(); i++) {
                __int128 x = isint[i] ? num[i] : num[i] * (l / den[i]);
                double v = (double)x;
                if (!isint[i] && (v > vinfo[ids[i]].hi || fabs(v) > 4e15)) fits = false;
                out.push_back(v);
            }
            if (fits) return true;
            out.clear();
        }
        // is the model dyadic already?
        if (ok && (inh || anyint || !dyadic)) {
            bool dy = true;
            for (size_t i = 0; i < num.size(); i++) { __int128 b = den[i]; if ((b & (b - 1)) != 0 || b > ((__int128)1 << 20)) dy = false; if (dens[i] > 1 && (b > dens[i] || dens[i] % (i64)b)) dy = false; }
            if (dy) { for (size_t i = 0; i < num.size(); i++) out.push_back((double)num[i] / (double)den[i]); return true; }
        }
        // move the real inputs one by one to a nearby dyadic point; every step is a linear real query
        Zs->push();
        bool good = true;
        for (size_t i = 0; i < n && good; i++) {
            Dec &d = trail[i];
            if (d.type != T_VAR || vinfo[d.var].isint) continue;
            z3::expr x = zvar(d.var, false);
            __int128 a, b;
            if (!zrat(m.eval(x, true), a, b)) { good = false; break; }
            double base = vinfo[d.var].den > 1 ? (double)vinfo[d.var].den : 1;
            bool done = false;
            for (double sc : {1.0, 2.0, 8.0, 64.0, 1024.0, 65536.0}) {
                if (base > 1 && sc > 1) break;
                double S2 = sc * base;
                double v = (double)a / (double)b * S2;
                for (double c : {std::floor(v + 0.5), std::floor(v + 0.5) == std::floor(v) ? std::ceil(v) : std::floor(v)}) {
                    Zs->push();
                    Zs->add(x * znum(S2) == znum(c));
                    if (zcheck() == z3::sat) { m = Zs->get_model(); done = true; break; }
                    Zs->pop();
                }
                if (done) break;
            }
            if (!done) { if (base > 1) good = false; else { a = b = 0; good = false; } }
        }
        if (good && zcheck() == z3::sat) {
            m = Zs->get_model();
            for (size_t i = 0; i < n; i++) {
                Dec &d = trail[i];
                if (d.type != T_VAR) continue;
                __int128 a = 0, b = 1;
                if (!zrat(m.eval(zvar(d.var, vinfo[d.var].isint), true), a, b)) good = false;
                out.push_back((double)a / (double)b);
            }
        } else good = false;
        while (Z3_solver_get_num_scopes(*Z, *Zs) > scopes0) Zs->pop();
        return good;
    }
    return false;
}

// ------------------------------------------------------------------ violations
static int viol_no = 0;
static std::string run_id() { return std::to_string(getpid()); }
static std::vector<std::string> stop_exempt;   // keys that do not stop the run
static void write_replay(FILE *f, const std::vector<double> *vals) {
    // values of the input variables in creation order interleaved with the choices
    size_t k = 0;
    for (auto &in : inputs) {
        if (in.type == 'C') fprintf(f, "C %d %s\n", (int)in.val, in.name);
        else {
            double v = vals ? (*vals)[k] : in.val; k++;
            fprintf(f, "%c %.17g %s\n", in.type, v, in.name);
        }
    }
}
static void viol(const char *key, const std::string &msg, const std::vector<double> *vals) {
    Guard g;
    char kb[200]; snprintf(kb, sizeof kb, "violation:%s", key);
    int c = 0; note(kb, 1, &c);
    if (c <= viol_limit) {
        std::string fn = outdir + "/viol_" + run_id() + "_" + std::to_string(viol_no++) + ".txt";
        FILE *f = fopen((fn + ".tmp").c_str(), "w");
        if (f) {
            std::string m1 = msg; for (auto &ch : m1) if (ch == '\n') ch = ' ';
            fprintf(f, "# key %s\n# msg %s\n# config %s\n", key, m1.c_str(), cfg_str.c_str());
            write_replay(f, vals);
            fclose(f);
            rename((fn + ".tmp").c_str(), fn.c_str());
        }
    }
    if (opt_verbose) fprintf(stderr, "[symx] violation %s: %s (%s)\n", key, msg.c_str(), cfg_str.c_str());
    bool exempt = false;
    for (auto &s : stop_exempt) if (strncmp(key, s.c_str(), s.size()) == 0) exempt = true;
    if (stop_first && !exempt) S->stop = 1;
}
static void undef_use(const char *where) {
    Guard g;
    std::string st = callers();
    viol("uninitialised", where + st, nullptr); end_path(E_VIOL);
}
static void memviol(const char *what, u64 addr, u64 size) {
    Guard g;
    std::string st = callers();
    char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %llx", what, (unsigned long long)size, (unsigned long long)(addr - BASE));
    viol((std::string("memory:") + what).c_str(), b + st, nullptr);
    end_path(E_VIOL);
}
extern "C" void __symx_ub(int kind) {
    static const char *const N[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound"};
    Guard g;
    std::string st = callers();
    std::string k = kind >= 0 && kind < (int)(sizeof N / sizeof *N) ? N[kind] : "trap";
    viol(("ub:" + k).c_str(), "undefined behaviour" + st, nullptr);
    end_path(E_VIOL);
}
extern "C" void __symx_mem(u64 addr, u64 size, int kind) {
    u64 off = addr - BASE;
    if (memcheck_on && off < REGION && size) {
        if (kind == 1 || kind == 3) set_undef(addr, size, false);
        if (off >= HEAP_SIZE && arena_id == 0 && addr < (u64)__builtin_frame_address(0)) memviol(kind == 1 ? "write to dead stack frame" : "read of dead stack frame", addr, size);
        if (off >= HEAP_SIZE) for (u64 a = off; a < off + size;) {
            u8 s = *statep(a); u64 in = a & 7, chunk = std::min<u64>(8 - in, off + size - a);
            if (s == 0xf8) memviol(kind == 1 ? "write out of scope" : "read out of scope", addr, size);
            if (s && in + chunk > (s > 8 ? 0 : s)) memviol(kind == 1 ? "write out of bounds of a local object" : "read out of bounds of a local object", addr, size);
            a += chunk;
        }
        if (off < HEAP_SIZE) {
            for (u64 a = off; a < off + size;) {
                u8 s = *statep(a); u64 in = a & 7; u64 chunk = std::min<u64>(8 - in, off + size - a);
                if (s == 0xf8) memviol(kind == 1 ? "write out of scope" : "read out of scope", addr, size);
                if (s == 0xfb) memviol(kind == 1 ? "write out of bounds of a local object" : "read out of bounds of a local object", addr, size);
                if (s > 8) { if (s == 0xfd) memviol(kind == 1 ? "write after free" : "read after free", addr, size); memviol(kind == 1 ? "write out of bounds" : "read out of bounds", addr, size); }
                if (s != 0 && in + chunk > s) memviol(kind == 1 ? "write out of bounds" : "read out of bounds", addr, size);
                if (s == 0) memviol(kind == 1 ? "write to unallocated" : "read of unallocated", addr, size);
                a += chunk;
            }
        }
    }
    if (race_on && race_active && race_task >= 0 && !race_paused && kind < 2) {
        // private: allocated by this task, or on the stack below the frame that started it
        if (off < HEAP_SIZE) { if (addr >= race_alloc_mark) return; }
        else if (off < REGION) { if (addr < race_stack_mark) return; }
        Guard g;
        for (u64 a = addr; a < addr + std::min<u64>(size, 64); a++) {
            auto it = race_map->emplace(a, RAcc{-1, -1}).first;
            RAcc &r = it->second;
            if (kind == 1) {
                if ((r.wr != -1 && r.wr != race_task) || (r.rd != -1 && r.rd != race_task)) {
                    race_paused = 1;
                    std::string st = callers();
                    viol("race", "conflicting accesses by two tasks of one parallel region (write)" + st, nullptr); end_path(E_VIOL);
                }
                r.wr = race_task;
            } else {
                if (r.wr != -1 && r.wr != race_task) {
                    race_paused = 1;
                    std::string st = callers();
                    viol("race", "conflicting accesses by two tasks of one parallel region (read after write)" + st, nullptr); end_path(E_VIOL);
                }
                if (r.rd == -1) r.rd = race_task; else if (r.rd != race_task) r.rd = -2;
            }
        }
    }
}

// ------------------------------------------------------------------ harness API
static std::vector<std::pair<Expr *, Op>> conj; static std::vector<std::string> conj_keys; static std::vector<std::pair<bool, std::string>> conj_conc;
static std::vector<std::vector<z3::expr>> *regions; static std::vector<Atom> region_cur; static std::vector<double> region_point; static bool region_open = false;

static Expr *arg(int i) { Expr *e = __symx_args[i]; return e; }
static void ret(Expr *e) { __symx_rets[0] = e; }

static u64 rng(u64 &x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
extern "C" {
static double input_var(const char *name, bool isint, double lo, double hi, i64 den) {
    Guard g;
    double val;
    int idx = n_inputs++;
    if (idx < (int)nextvals.size()) val = nextvals[idx];
    else { u64 x = opt_seed * 0x9e3779b97f4a7c15ull + idx * 7919 + 12345; rng(x); rng(x); double span = std::min(hi - lo, isint ? 1e9 : 6.0); val = lo + (double)(x % (u64)(span + 1)); if (isint && lo < 0 && hi > 0 && idx >= (int)nextvals.size()) val = std::max(lo, std::min(hi, (double)(i64)(x % 7) - 2)); if (val > hi) val = hi; if (val < lo) val = lo; if (isint && span < 1) val = lo; }
    int v = newvar(isint, lo, hi, true, val, den, name);
    Input in; in.type = isint ? 'I' : 'R'; in.val = val; in.den = den; strncpy(in.name, name, 15); in.name[15] = 0;
    inputs.push_back(in);
    while ((int)nextvals.size() <= idx) nextvals.push_back(val);
    ret(mkvar(v));
    return val;
}
double symx_real(const char *name, double lo, double hi) { return input_var(name, false, lo, hi, 1); }
double symx_dreal(const char *name, double lo, double hi, i64 den) { return input_var(name, false, lo, hi, den); }
void symx_round(int on) { round_on = round_opt && on; }
i64 symx_int(const char *name, i64 lo, i64 hi) { if (lo == hi) { ret(nullptr); return lo; } return (i64)input_var(name, true, lo, hi, 1); }
int symx_choice(const char *name, int n) {
    Guard g;
    int c;
    u64 hh = hmix(991, n);
    if (Dec *d = trail_step(T_CHOICE, hh)) c = d->ch;
    else { Dec e; e.type = T_CHOICE; e.open = n > 1; e.dir = true; e.ch = 0; e.chn = n; e.hash = hh; e.var = -1; e.a.k = 0; e.a.op = O_EQ; trail.push_back(e); pos++; c = 0; S->choices++; }
    Input in; in.type = 'C'; in.val = c; in.den = 1; strncpy(in.name, name, 15); in.name[15] = 0; inputs.push_back(in);
    ret(nullptr);
    return c;
}
void symx_assume(bool c) { Guard g; Expr *e = arg(0); if (e) decide_bool(e, c); if (!c) end_path(E_PRUNE); }
void symx_fail(const char *key, const char *msg) { viol(key, msg, nullptr); end_path(E_VIOL); }
static bool soft, soft_false;
static bool region_native;
static void add_conj(Expr *a, double ca, Expr *b, double cb, Op op, const char *key, Kind k) {
    Guard g;
    if ((a && !islin(a)) || (b && !islin(b))) { note("incomplete:assertion over a value without a linear form"); a = b = nullptr; }
    Expr *d = lin_add(a, ca, b, cb, -1, k);
    if (d->kind == K_BAD) { note("incomplete:inexact assertion"); d->n = 0; }
    bool h = holds(ca - cb, op);
    if (soft && !h) { soft_false = true; return; }
    if (region_open && !region_native) { if (d->n || !h) { conj.push_back({d, op}); conj_keys.push_back(key); } return; }   // about another point
    if (!d->n) { if (!h) { char m[200]; snprintf(m, sizeof m, "%s: %.17g vs %.17g", key, ca, cb); viol(key, m, nullptr); end_path(E_VIOL); } return; }
    conj.push_back({d, op}); conj_keys.push_back(key);
    if (!h) { char m[200]; snprintf(m, sizeof m, "%s: %.17g vs %.17g", key, ca, cb); viol(key, m, nullptr); end_path(E_VIOL); }
}
void symx_assert_le(double a, double b, const char *key) { add_conj(arg(0), a, arg(1), b, O_LE, key, K_REAL); }
void symx_assert_eq(double a, double b, const char *key) { add_conj(arg(0), a, arg(1), b, O_EQ, key, K_REAL); }
void symx_assert_ile(i64 a, i64 b, const char *key) { add_conj(arg(0), (double)a, arg(1), (double)b, O_LE, key, K_INT); }
void symx_assert_ieq(i64 a, i64 b, const char *key) { add_conj(arg(0), (double)a, arg(1), (double)b, O_EQ, key, K_INT); }
static void build_vinfo() {
    // entries created in this path (vars) describe the trail so far
    vinfo.clear();
    for (auto &d : trail) if (d.type == T_VAR) {
        VInfo v; v.isint = d.a.t[0].v; v.lo = d.a.k; v.hi = d.a.t[0].c; v.input = d.var < (int)vars.size() ? vars[d.var].input : true; v.den = d.var < (int)vars.size() ? vars[d.var].den : 1;
        if ((int)vinfo.size() <= d.var) vinfo.resize(d.var + 1);
        vinfo[d.var] = v;
    }
}
static std::vector<double> only_inputs(const std::vector<double> &vals) {
    std::vector<double> r; for (size_t i = 0; i < vals.size(); i++) if (vinfo[i].input) r.push_back(vals[i]); return r;
}
static int query_conj(const char *ctx, bool fatal) {   // 1: PC implies the conjunction, 0: it does not, -1: unknown
    Guard g;
    S->checks++;
    if (conj.empty()) { S->checks_unsat++; return 1; }
    // drop the atoms implied by intervals
    std::vector<z3::expr> neg; std::vector<int> idx;
    build_vinfo();
    std::map<u64, bool> seen;
    for (size_t i = 0; i < conj.size(); i++) {
        Atom a = atomOf(conj[i].first, conj[i].second); normalise(a);
        u64 h = hashT(a.t);
        u64 hh = hmix(hmix(h, dbits(a.k)), a.op);
        if (seen.count(hh)) continue;
        seen[hh] = true;
        Know K; auto it = know.find(h);
        if (it != know.end()) K = it->second; else { interval(a.t.data(), a.t.size(), 0, K.lo, K.hi); K.los = K.his = K.nz = false; }
        if (implied(a, K) == 1) continue;
        neg.push_back(zatom(a.t, a.k, NEG[a.op])); idx.push_back(i);
    }
    if (neg.empty()) { S->checks_unsat++; conj.clear(); conj_keys.clear(); return 1; }
    sync(trail.size());
    Zs->push();
    z3::expr_vector ev(*Z); for (auto &e : neg) ev.push_back(e);
    Zs->add(z3::mk_or(ev));
    z3::check_result r = zcheck();
    if (!fatal && r == z3::sat) { Zs->pop(); conj.clear(); conj_keys.clear(); return 0; }
    if (r == z3::sat) {
        std::vector<double> vals;
        std::string key = conj_keys[idx[0]];
        if (get_values(trail.size(), inhomog, vals)) {
            for (size_t j = 0; j < idx.size(); j++) { double s = conj[idx[j]].first->k; Expr *e = conj[idx[j]].first; for (int q = 0; q < e->n; q++) s += e->t[q].c * vals[e->t[q].v]; if (!holds(s, conj[idx[j]].second)) { key = conj_keys[idx[j]]; break; } }
            Zs->pop();
            auto in = only_inputs(vals);
            viol(key.c_str(), std::string(ctx), &in);
        } else { Zs->pop(); note("incomplete:counterexample not exactly representable"); }
        conj.clear(); conj_keys.clear();
        end_path(E_VIOL);
    }
    if (r == z3::unsat) S->checks_unsat++;
    Zs->pop();
    conj.clear(); conj_keys.clear();
    return r == z3::unsat ? 1 : -1;
}
void symx_flush(const char *ctx) { query_conj(ctx, true); }
void symx_soft(int on) { soft = on; soft_false = false; }
int symx_valid() { ret(nullptr); if (soft_false) { conj.clear(); conj_keys.clear(); return 0; } return query_conj("", false) == 1; }

void symx_reached(const char *label) { Guard g; reach_count++; S->reached++; char b[120]; snprintf(b, sizeof b, "reached:%s", label); note(b); }
void symx_note(const char *s) { Guard g; note(s); }
void symx_skip(const char *why) { Guard g; notef("skipped:%s", why); end_path(E_SKIP); }
double symx_eval(double v) { ret(nullptr); return v; }
i64 symx_ieval(i64 v) { ret(nullptr); return v; }
i64 symx_split(i64 v) { Guard g; Expr *e = arg(0); if (e) { if (e->kind == K_INT) split_int(e); } ret(nullptr); return v; }
int symx_is_symbolic() { ret(nullptr); return 1; }
// regions
static bool region_first;
void symx_region_begin() {
    Guard g; build_vinfo(); sync(trail.size()); Zs->push(); region_open = true; region_first = true; region_cur.clear();
    region_point.clear(); for (auto &v : vars) region_point.push_back(v.val);
}
int symx_region_next() {
    Guard g; ret(nullptr);
    region_native = region_first;
    if (region_first) { region_first = false; S->region_points++; return 1; }   // the native point itself
    z3::check_result r = zcheck();
    if (r != z3::sat) { Zs->pop(); region_open = false; return 0; }
    std::vector<double> vals;
    if (!get_values(trail.size(), inhomog, vals)) { note("incomplete:region point"); Zs->pop(); region_open = false; return 0; }
    region_point = vals; S->region_points++;
    return 1;
}
double symx_region_value(double v) { Guard g; Expr *e = arg(0); ret(nullptr); if (!e || !islin(e)) return v; double s = e->k; for (int i = 0; i < e->n; i++) s += e->t[i].c * region_point[e->t[i].v]; return s; }
void symx_region_le(double a, double b) { Guard g; Expr *x = arg(0), *y = arg(1); Expr *d = lin_add(x, a, y, b, -1, K_REAL); if (d->n) region_cur.push_back(atomOf(d, O_LE)); }
// query: PC and region_cur and not(conj)?  then block
void symx_region_block() {
    Guard g;
    S->checks++;
    // check the conjunction inside the region
    std::vector<z3::expr> neg; std::vector<int> idx;
    for (size_t i = 0; i < conj.size(); i++) { Atom a = atomOf(conj[i].first, conj[i].second); neg.push_back(zatom(a.t, a.k, NEG[a.op])); idx.push_back(i); }
    if (!neg.empty()) {
        Zs->push();
        z3::expr_vector ev(*Z); for (auto &e : neg) ev.push_back(e);
        Zs->add(z3::mk_or(ev));
        for (auto &a : region_cur) Zs->add(zatom(a.t, a.k, a.op));
        z3::check_result r = zcheck();
        if (r == z3::sat) {
            std::vector<double> vals; std::string key = conj_keys[0];
            if (get_values(trail.size(), inhomog, vals)) { auto in = only_inputs(vals); viol(key.c_str(), "region query", &in); }
            else note("incomplete:counterexample not exactly representable");
            conj.clear(); conj_keys.clear();
            end_path(E_VIOL);
        }
        if (r == z3::unsat) S->checks_unsat++;
        Zs->pop();
    } else S->checks_unsat++;
    conj.clear(); conj_keys.clear();
    z3::expr_vector rv(*Z);
    for (auto &a : region_cur) rv.push_back(zatom(a.t, a.k, NEG[a.op]));
    Zs->add(rv.size() ? z3::mk_or(rv) : Z->bool_val(false));
    region_cur.clear();
}
// hull: the vertices of the closed linear relaxation of the path condition.
// A function that is convex minus concave (here: the linear total of a path
// minus a multiple of the concave optimum) is <= 0 on PC iff it is <= 0 there.
static std::vector<std::vector<__int128>> *hull_pts; static std::vector<__int128> *hull_den;
static z3::expr rvar(int v) { return Z->real_const(("h" + std::to_string(v)).c_str()); }
static z3::expr rlin(const std::vector<Term> &t, double k) { z3::expr s = znum(k); for (auto &x : t) s = s + znum(x.c) * rvar(x.v); return s.simplify(); }
int symx_hull(int maxdim) {
    Guard g; ret(nullptr); build_vinfo();
    if (!hull_pts) { hull_pts = new std::vector<std::vector<__int128>>; hull_den = new std::vector<__int128>; }
    hull_pts->clear(); hull_den->clear();
    std::vector<z3::expr> eq, le; std::vector<int> ids; std::map<std::string, bool> seen;
    auto put = [&](std::vector<z3::expr> &v, const z3::expr &e) { std::string s = e.to_string(); if (seen.count(s)) return; seen[s] = true; v.push_back(e); };
    // an integer that is not its bound is beyond it
    std::map<int, std::pair<double, double>> ib;
    for (auto &d : trail) if (d.type == T_VAR && d.a.t[0].v) ib[d.var] = {d.a.k, d.a.t[0].c};
    for (bool more = true; more;) {
        more = false;
        for (auto &d : trail) if (d.type == T_DEC || d.type == T_DEF) {
            if (d.a.t.size() != 1 || !ib.count(d.a.t[0].v)) continue;
            auto &p = ib[d.a.t[0].v]; double x = -d.a.k / d.a.t[0].c; bool neg = d.a.t[0].c < 0; double nlo = p.first, nhi = p.second;
            Op op = d.a.op; if (neg) op = op == O_LT ? O_GT : op == O_LE ? O_GE : op == O_GT ? O_LT : op == O_GE ? O_LE : op;
            if (op == O_NE) { if (x == p.first) nlo = x + 1; if (x == p.second) nhi = x - 1; }
            else if (op == O_EQ) { nlo = std::max(nlo, ceil(x)); nhi = std::min(nhi, floor(x)); }
            else if (op == O_LT) nhi = std::min(nhi, ceil(x) - 1); else if (op == O_LE) nhi = std::min(nhi, floor(x));
            else if (op == O_GT) nlo = std::max(nlo, floor(x) + 1); else if (op == O_GE) nlo = std::max(nlo, ceil(x));
            if (nlo > p.first || nhi < p.second) { p = {nlo, nhi}; more = true; }
        }
    }
    for (auto &d : trail) {
        if (d.type == T_VAR) {
            ids.push_back(d.var);
            z3::expr v = rvar(d.var);
            double lo = d.a.k, hi = d.a.t[0].c; if (ib.count(d.var)) { lo = ib[d.var].first; hi = ib[d.var].second; }
            if (lo == hi) { put(eq, v - znum(lo)); continue; }
            put(le, v - znum(hi)); put(le, znum(lo) - v);
        } else if (d.type == T_DEC || d.type == T_DEF) {
            if (d.a.op == O_NE) continue;
            Atom a = d.a; normalise(a);
            if (a.t.empty()) continue;
            z3::expr e = rlin(a.t, a.k);
            if (a.op == O_EQ) put(eq, e); else if (a.op == O_LT || a.op == O_LE) put(le, e); else put(le, (-e).simplify());
        }
    }
    if (ids.empty()) return 0;
    z3::expr zero = Z->real_val(0);
    z3::solver s(*Z);
    auto check = [&](z3::solver &q) { double t = now(); z3::check_result r = z3::unknown; try { r = q.check(); } catch (z3::exception &) {} S->solver_us += (u64)((now() - t) * 1e6); S->queries++; if (r == z3::sat) S->sat++; else if (r == z3::unsat) S->unsat++; else S->unknown++; return r; };
    // independent equalities
    std::vector<z3::expr> ie;
    for (auto &e : eq) {
        if (ie.empty()) { ie.push_back(e); s.add(e == zero); continue; }
        s.push(); s.add(e != zero); bool indep = check(s) != z3::unsat; s.pop();
        if (indep) { ie.push_back(e); s.add(e == zero); }
    }
    int dim = (int)ids.size() - (int)ie.size();
    if (dim < 0) dim = 0;
    if (dim > maxdim) { note("incomplete:hull dimension"); return -1; }
    // facets
    std::vector<z3::expr> f;   // first a subset that implies the others, then without its own redundant members
    {
        s.push();
        u64 x = 88172645463325252ull; std::vector<size_t> ord; for (size_t i = 0; i < le.size(); i++) ord.push_back(i);
        for (size_t i = ord.size(); i-- > 1;) std::swap(ord[i], ord[rng(x) % (i + 1)]);
        for (size_t i : ord) { s.push(); s.add(le[i] > zero); z3::check_result r = check(s); s.pop(); if (r != z3::unsat) { f.push_back(le[i]); s.add(le[i] <= zero); } }
        s.pop();
        for (size_t i = 0; i < f.size();) {
            s.push();
            for (size_t j = 0; j < f.size(); j++) if (j != i) s.add(f[j] <= zero);
            s.add(f[i] > zero);
            if (check(s) == z3::unsat) f.erase(f.begin() + i); else i++;
            s.pop();
        }
    }
    double combos = 1; for (int i = 0; i < dim; i++) combos = combos * (double)((int)f.size() - i) / (i + 1);
    if (combos > 3000) { note("incomplete:hull size"); return -1; }
    for (auto &e : f) s.add(e <= zero);
    if ((int)f.size() < dim) { note("incomplete:hull unbounded"); return -1; }
    std::vector<int> c(dim); for (int i = 0; i < dim; i++) c[i] = i;
    for (;;) {
        s.push();
        for (int i : c) s.add(f[i] == zero);
        z3::check_result r = check(s);
        if (r == z3::unknown) { s.pop(); note("incomplete:hull unknown"); return -1; }
        if (r == z3::sat) {
            z3::model m = s.get_model();
            std::vector<__int128> num, den; __int128 l = 1; bool ok = true;
            for (int v : ids) { __int128 a = 0, b = 1; if (!zrat(m.eval(rvar(v), true), a, b)) { ok = false; break; } num.push_back(a); den.push_back(b); l = l / igcd(l, b) * b; if (l > ((__int128)1 << 60)) { ok = false; break; } }
            if (!ok) { s.pop(); note("incomplete:hull value"); return -1; }
            std::vector<__int128> p; for (size_t i = 0; i < num.size(); i++) { if ((size_t)ids[i] >= p.size()) p.resize(ids[i] + 1, 0); p[ids[i]] = num[i] * (l / den[i]); }
            bool dup = false; for (size_t i = 0; i < hull_pts->size(); i++) if ((*hull_den)[i] == l && (*hull_pts)[i] == p) dup = true;
            if (!dup) { hull_pts->push_back(p); hull_den->push_back(l); }
        }
        s.pop();
        int i = dim - 1; while (i >= 0 && c[i] == (int)f.size() - dim + i) i--;
        if (i < 0) break;
        c[i]++; for (int j = i + 1; j < dim; j++) c[j] = c[j - 1] + 1;
    }
    S->region_points += hull_pts->size();
    return hull_pts->size();
}
// value of an expression at vertex i times its common denominator; INT64_MIN: not an integer of that size
i64 symx_hull_value(int i, double v) {
    Guard g; Expr *e = __symx_args[1]; ret(nullptr);
    const std::vector<__int128> &p = (*hull_pts)[i]; __int128 D = (*hull_den)[i];
    // scaled by 2^20 for fractional coefficients
    __int128 s = 0;
    auto fx = [&](double c, __int128 x) { double t = c * 1048576.0; if (t != floor(t) || fabs(t) > 1e15) return false; __int128 q = (__int128)t; if (x > ((__int128)1 << 70)) return false; s += q * x; return true; };
    bool ok = true;
    if (e && islin(e)) { ok &= fx(e->k, D); for (int j = 0; j < e->n; j++) ok &= fx(e->t[j].c, p[e->t[j].v]); }
    else if (e) ok = false; else ok &= fx(v, D);
    if (!ok) return INT64_MIN;
    __int128 r = s >> 20; if ((r << 20) != s || r > ((__int128)1 << 52) || -r > ((__int128)1 << 52)) return INT64_MIN;
    return (i64)r;
}
void symx_mem_mark_begin() { mark_seq = alloc_seq; }
int symx_mem_leaked() { Guard g; ret(nullptr); int n = 0; if (live) for (auto &p : *live) if (p.second > mark_seq) n++; return n; }
void *symx_arena_switch(int id) { arena_id = id; return nullptr; }
void symx_race_begin() { Guard g; if (!race_on) return; race_map->clear(); race_active = true; race_task = -1; race_paused = 0; }
void symx_race_task(int id, const void *frame) { race_task = id; if (id >= 0) { race_alloc_mark = arena_cur[arena_id]; race_stack_mark = (u64)frame; } }
void symx_race_end() { Guard g; if (!race_on) return; race_active = false; race_task = -1; race_map->clear(); }
void symx_race_pause(int on) { race_paused += on ? 1 : -1; }
void symx_touch(void) {}
void symx_host(int on) { if (on) in_engine++; else in_engine--; }
void *symx_stack_alloc(size_t n) { u64 &cur = arena_cur[arena_id]; cur = (cur + 4095) & ~4095ull; u64 p = cur; cur += n; if (cur > arena_hi[arena_id]) fatal_engine("no room for stacks"); return (void *)p; }
}

// ------------------------------------------------------------------ running a path
static ucontext_t main_ctx, path_ctx;
static char path_outcome[256];
static void path_main() {
    try {
        in_engine = 0;
        symx_harness(cfg_str.c_str());
        in_engine = 1;
        end_code = E_OK;
    } catch (std::exception &e) { in_engine = 1; snprintf(end_msg, sizeof end_msg, "uncaught exception: %s", e.what()); end_code = E_CRASH; }
    catch (...) { in_engine = 1; snprintf(end_msg, sizeof end_msg, "uncaught exception"); end_code = E_CRASH; }
}
static volatile bool timer_pending = false;
static void on_sig(int sig, siginfo_t *si, void *uc) {
    if (!path_active) { fprintf(stderr, "symx: signal %d in engine\n", sig); signal(sig, SIG_DFL); raise(sig); return; }
    if (sig == SIGVTALRM) {
        if (in_engine) { timer_pending = true; struct itimerval it = {{0, 0}, {0, 20000}}; setitimer(ITIMER_VIRTUAL, &it, 0); return; }
        snprintf(end_msg, sizeof end_msg, "path exceeded its time limit (non-termination?)");
        end_code = E_TIMEOUT; in_engine = 1; siglongjmp(path_jb, 1);
    }
    if (in_engine && sig != SIGABRT) { const char *m = "symx: fault inside the engine\n"; (void)!write(2, m, strlen(m)); signal(sig, SIG_DFL); raise(sig); return; }
    snprintf(end_msg, sizeof end_msg, "signal %d (%s)%s", sig, strsignal(sig), sig == SIGSEGV && (u64)si->si_addr - (STACK_LO - 4096) < 8192 ? " stack overflow" : "");
    end_code = E_CRASH; in_engine = 1; siglongjmp(path_jb, 1);
}
static char *data_lo, *data_hi; static char *data_snap;
static void reset_state() {
    in_engine = 1;
    memcpy(data_lo, data_snap, data_hi - data_lo);
    for (u64 off : dirty) { *granp(off) = 0; memset(cellp(off), 0, 64); }
    dirty.clear(); gmap.clear();
    if (memcheck_on) { for (int i = 0; i < NARENA; i++) if (arena_cur[i] > arena_lo[i]) { memset(statep(arena_lo[i] - BASE), 0, (arena_cur[i] - arena_lo[i]) / 8 + 8); memset(udefp(arena_lo[i] - BASE), 0, (arena_cur[i] - arena_lo[i]) / 8 + 8); } memset(statep(HEAP_SIZE), 0, STACK_SIZE / 8); memset(udefp(HEAP_SIZE), 0, STACK_SIZE / 8); live->clear(); }
    for (int i = 0; i < NARENA; i++) { arena_cur[i] = arena_lo[i]; if (!recycled[i].empty()) recycled[i].clear(); }
    arena_id = 0; alloc_seq = 0; live_blocks = 0; mark_seq = 0;
    pool_reset();
    vars.clear(); inputs.clear(); n_inputs = 0; know.clear(); auxmemo.clear(); conj.clear(); conj_keys.clear();
    pos = 0; inhomog = false; path_mismatch = false; region_open = false; region_cur.clear(); reach_count = 0;
    race_active = false; race_task = -1; race_paused = 0; if (race_map) race_map->clear();
    round_on = round_opt; one_var = -1;
    if (round_opt) one_var = newvar(true, 1, 1, false, 1, 1, "one");
    memset(__symx_args, 0, sizeof __symx_args); memset(__symx_rets, 0, sizeof __symx_rets); __symx_callee = nullptr; __symx_rettag = nullptr;
    end_msg[0] = 0;
}
static int run_path() {
    reset_state();
    prefix_len = trail.size();
    // the configuration is decision 0
    {
        Guard g; int c; u64 hh = hmix(992, configs.size());
        if (Dec *d = trail_step(T_CHOICE, hh)) c = d->ch;
        else { Dec e; e.type = T_CHOICE; e.open = configs.size() > 1; e.dir = true; e.ch = 0; e.chn = configs.size(); e.hash = hh; e.var = -1; e.a.k = 0; e.a.op = O_EQ; trail.push_back(e); pos++; c = 0; }
        cfg_id = c; cfg_str = configs[c];
    }
    getcontext(&path_ctx);
    path_ctx.uc_stack.ss_sp = (void *)STACK_LO; path_ctx.uc_stack.ss_size = STACK_SIZE; path_ctx.uc_link = &main_ctx;
    makecontext(&path_ctx, path_main, 0);
    end_code = E_NONE;
    struct itimerval it = {{0, 0}, {opt_path_timeout, 0}};
    setitimer(ITIMER_VIRTUAL, &it, 0);
    if (sigsetjmp(path_jb, 1) == 0) { path_active = true; swapcontext(&main_ctx, &path_ctx); }
    path_active = false; in_engine = 1;
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &z, 0);
    if (region_open) { Zs->pop(); region_open = false; }
    if (Zs->ctx(), false) {}
    return end_code;
}

// the solver may be left with extra scopes when a path ends inside a query
static int base_scopes = 0;
static unsigned nscopes() { return Z3_solver_get_num_scopes(*Z, *Zs); }

static void worker_loop(size_t floor_);
static double last_fork = 0; static pid_t main_pid = 0;
static std::vector<double> cur_inputs_all() { std::vector<double> r; for (auto &v : vars) r.push_back(v.val); return r; }

static bool try_fork(size_t &floor_) {
    if (S->stop) return false;
    double t = now();
    if (t - last_fork < 0.003) return false;
    size_t i = floor_;
    while (i < trail.size() && !trail[i].open) i++;
    if (i >= trail.size()) return false;
    // configurations share the machine fairly: more of them run at once than there are cores
    int limit = i == 0 && configs.size() > 1 && trail[0].type == T_CHOICE ? 5 * S->maxworkers.load() : S->maxworkers.load();
    if (S->active.load() >= limit) return false;
    // leave something for ourselves
    size_t j = i + 1; while (j < trail.size() && !trail[j].open) j++;
    if (j >= trail.size() && !(trail[i].type == T_CHOICE && trail[i].chn - trail[i].ch > 2)) return false;
    if (S->active.fetch_add(1) >= limit) { S->active.fetch_sub(1); return false; }
    last_fork = t;
    S->forks++;
    pid_t p = fork();
    if (p < 0) { S->active.fetch_sub(1); return false; }
    if (p == 0) {
        last_fork = now();
        // child: everything below i is closed
        trail.resize(i + 1);
        for (size_t k = 0; k < i; k++) trail[k].open = false;
        if (asserted > i + 1) sync(i + 1);
        floor_ = i;
        return true;
    }
    // parent gives up node i (a choice keeps only its current alternative)
    trail[i].open = false;
    return false;
}

// positions the trail at the next unexplored leaf; false when none is left
static bool backtrack(size_t floor_) {
    while (trail.size() > floor_) {
        Dec &d = trail.back();
        if (d.open) {
            if (d.type == T_CHOICE) {
                d.ch++;
                if (d.ch + 1 >= d.chn) d.open = false;
                if (asserted >= trail.size()) sync(trail.size() - 1);
                // keep the values of variables created before
                size_t ni = 0; for (auto &x : trail) if (x.type == T_VAR && (x.var < (int)vinfo.size() ? vinfo[x.var].input : true)) ni++;
                // values consistent with the prefix: take them from the last path
                nextvals.resize(std::min(nextvals.size(), ni));
                return true;
            }
            // flip
            size_t i = trail.size() - 1;
            sync(i);
            d.open = false;
            Zs->push();
            Zs->add(zdec(d, true));
            z3::check_result r = zcheck();
            if (r == z3::sat) {
                d.a.op = NEG[d.a.op]; d.dir = !d.dir;
                bool inh = false; for (auto &x : trail) if (x.type == T_DEC || x.type == T_DEF) { if (x.a.k != 0) inh = true; } else if (x.type == T_VAR && x.a.t[0].v) inh = true;
                std::vector<double> vals;
                bool ok = get_values(trail.size(), inh, vals);
                Zs->pop();
                if (ok) { nextvals = only_inputs(vals); return true; }
                note("incomplete:no exactly representable model for a branch");
                trail.pop_back();
                continue;
            }
            Zs->pop();
            trail.pop_back();
            continue;
        }
        trail.pop_back();
        if (asserted > trail.size()) sync(trail.size());
    }
    return false;
}

// concrete inputs of some explored paths, to be replayed against the native build
static u64 opt_samples = 0;
static void sample_path(u64 n) {
    u64 nx = S->next_sample.load();
    if (n < nx || S->nsamples.load() >= opt_samples) return;
    if (!S->next_sample.compare_exchange_strong(nx, nx + 1 + nx / 3)) return;
    u64 k = S->nsamples.fetch_add(1);
    FILE *f = fopen((outdir + "/sample_" + std::to_string(k) + ".txt").c_str(), "w");
    if (!f) return;
    fprintf(f, "# key none\n# config %s\n", cfg_str.c_str());
    write_replay(f, nullptr);
    fclose(f);
}
static void worker_loop(size_t floor_) {
    bool child_root = false;
    int consecutive_div = 0;
    for (;;) {
        if (!child_root) {
            int e = run_path();
            while (nscopes() > asserted) Zs->pop();
            build_vinfo();
            u64 pathno = ++S->paths;
            if (e == E_OK && opt_samples) sample_path(pathno);
            if (cfg_id < 4096) S->cfg[cfg_id].paths++;
            if (trail.size() > S->maxdepth) S->maxdepth = trail.size();
            if (e == E_PRUNE) S->pruned++;
            if (e == E_DIVERGE) {
                S->divergences++; notef("divergence: %.100s", end_msg);
                // entries beyond the divergence are meaningless
                if (pos < trail.size()) { trail.resize(pos > floor_ ? pos : floor_); if (asserted > trail.size()) sync(trail.size()); }
                (void)consecutive_div;
            } else if (pos < trail.size()) {  // path ended before consuming its prefix
                if (e == E_OK || e == E_SKIP || e == E_PRUNE) { S->divergences++; note("divergence: path ended inside its prefix"); }
                trail.resize(std::max(pos, floor_)); if (asserted > trail.size()) sync(trail.size());
            }
            if (e == E_CRASH) {
                S->crashes++;
                std::string m = end_msg;
                viol(m.compare(0, 8, "uncaught") == 0 ? "exception" : "crash", m, nullptr);
            }
            if (e == E_TIMEOUT) { S->timeouts++; if (strstr(end_msg, "time limit")) viol("nontermination", end_msg, nullptr); }
        }
        child_root = false;
        if (getpid() != main_pid && kill(main_pid, 0) != 0) _exit(0);
        if (S->stop || now() - t_start > opt_deadline) {
            u64 o = 0; for (size_t i = floor_; i < trail.size(); i++) if (trail[i].open) o++;
            S->open_left += o; if (!S->stop) note("incomplete:deadline");
            break;
        }
        size_t f = floor_;
        if (try_fork(f)) { // in the child: continue from its root node
            floor_ = f;
            child_root = false;
            // fallthrough to backtrack: node f is open and last
        }
        if (!backtrack(floor_)) break;
    }
    S->active.fetch_sub(1);
}

// before the harness' static initialisers
__attribute__((constructor)) static void setup_memory() {
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto mp = [](u64 a, u64 n) { if (mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)a) fatal_engine("mmap"); };
    mp(BASE, REGION); mp(CELLS - 4096, REGION * 8 + 8192); mp(GRANS - 4096, REGION / 8 + 8192); mp(STATE, REGION / 8 + 4096); mp(UDEF - 4096, REGION / 8 + 8192);
}
extern "C" int symx_main(int argc, char **argv, char *dlo, char *dhi) {
    std::string statsfile; int workers = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return argv[++i]; };
        if (a == "--out") outdir = val(); else if (a == "--workers") workers = atoi(val().c_str()); else if (a == "--deadline") opt_deadline = atof(val().c_str());
        else if (a == "--stats") statsfile = val(); else if (a == "--timeout") opt_path_timeout = atoi(val().c_str()); else if (a == "--keep-going") stop_first = false;
        else if (a == "--exempt") stop_exempt.push_back(val()); else if (a == "-v") opt_verbose = true; else if (a == "--seed") opt_seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--samples") opt_samples = atoi(val().c_str()); else if (a == "--viol-limit") viol_limit = atoi(val().c_str());
        else if (a == "--memcheck") memcheck_on = true; else if (a == "--race") race_on = true; else if (a == "--round") round_on = round_opt = true; else if (a == "--configs") { FILE *f = fopen(val().c_str(), "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) configs.push_back(b); } if (f) fclose(f); }
        else configs.push_back(a);
    }
    if (configs.empty()) configs.push_back("");
    mprotect((void *)STACK_LO, 4096, PROT_NONE);
    u64 per = HEAP_SIZE / (NARENA + 7);
    arena_lo[0] = BASE + 4096; arena_hi[0] = BASE + per * 8;
    for (int i = 1; i < NARENA; i++) { arena_lo[i] = BASE + per * (7 + i); arena_hi[i] = arena_lo[i] + per; }
    recycled = new std::unordered_map<u64, std::vector<u64>>[NARENA];
    live = new std::unordered_map<u64, u64>; race_map = new std::unordered_map<u64, RAcc>;
    __libc_single_threaded = 0;
    static char altstack[65536]; stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, 0);
    void *bt[4]; backtrace(bt, 4);
    data_lo = dlo; data_hi = dhi; data_snap = (char *)__libc_malloc(dhi - dlo);
    Z = new z3::context; Zs = new z3::solver(*Z, "QF_LIRA");
    { z3::params p(*Z); p.set("random_seed", 0u); p.set("rlimit", 40000000u); Zs->set(p); }
    t_start = now();
    S->active = 1; S->maxworkers = workers;
    memcpy(data_snap, data_lo, data_hi - data_lo);
    pid_t me = getpid(); main_pid = me;
    prctl(PR_SET_CHILD_SUBREAPER, 1);   // orphaned workers report to us
    worker_loop(0);
    if (getpid() != me) { _exit(0); }
    while (S->active.load() > 0) {
        usleep(2000);
        int st; pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { notef("incomplete:worker died (%d)", st); S->active.fetch_sub(1); } }
        if (now() - t_start > opt_deadline + 60) { note("incomplete:workers did not stop"); break; }
        if (p < 0 && errno == ECHILD && S->active.load() > 0) { note("incomplete:worker lost"); break; }
    }
    double wall = now() - t_start;
    FILE *f = statsfile.empty() ? stdout : fopen(statsfile.c_str(), "w");
    auto js = [](const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; };
    fprintf(f, "{\"paths\":%llu,\"pruned\":%llu,\"decisions\":%llu,\"implied\":%llu,\"choices\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"checks\":%llu,\"checks_unsat\":%llu,\"solver_s\":%.3f,\"divergences\":%llu,\"mismatches\":%llu,\"crashes\":%llu,\"timeouts\":%llu,\"open_left\":%llu,\"reached\":%llu,\"region_points\":%llu,\"maxdepth\":%llu,\"forks\":%llu,\"stopped\":%d,\"wall_s\":%.3f,\n\"notes\":{",
            (unsigned long long)S->paths, (unsigned long long)S->pruned, (unsigned long long)S->decisions, (unsigned long long)S->implied, (unsigned long long)S->choices, (unsigned long long)S->queries, (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknown,
            (unsigned long long)S->checks, (unsigned long long)S->checks_unsat, S->solver_us / 1e6, (unsigned long long)S->divergences, (unsigned long long)S->mismatches, (unsigned long long)S->crashes, (unsigned long long)S->timeouts, (unsigned long long)S->open_left, (unsigned long long)S->reached, (unsigned long long)S->region_points, (unsigned long long)S->maxdepth, (unsigned long long)S->forks, (int)S->stop, wall);
    bool first = true;
    for (auto &s : S->notes) if (s.key[0]) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(s.key).c_str(), (unsigned long long)s.cnt); first = false; }
    fprintf(f, "},\n\"functions\":[");
    first = true;
    for (int i = 0; i < fn_count && i < 65536; i++) if (S->fns[i] && strstr(fn_names[i], "parmcb")) { fprintf(f, "%s%s", first ? "" : ",\n", js(fn_names[i]).c_str()); first = false; }
    fprintf(f, "],\n\"configs\":{");
    first = true;
    for (size_t i = 0; i < configs.size() && i < 4096; i++) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(configs[i]).c_str(), (unsigned long long)S->cfg[i].paths); first = false; }
    fprintf(f, "}}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(0);
}
