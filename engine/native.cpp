// Native counterpart of the harness API: replays one assignment of the inputs.
// exit 0: property holds on it; exit 1: "REPRODUCED key msg"; exit 3: the
// assignment does not fit the harness.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
struct In { char t; double v; };
static std::vector<In> ins; static size_t ip; static std::string cfg;
static FILE *out;
[[noreturn]] static void rep(const char *key, const char *msg) { fprintf(out, "REPRODUCED %s: %s\n", key, msg); fflush(out); _Exit(1); }
static double next(char t, double dflt) {
    if (ip >= ins.size()) return dflt;
    if (ins[ip].t != t) { fprintf(out, "MISFIT input %zu\n", ip); fflush(out); _Exit(3); }
    return ins[ip++].v;
}
extern "C" {
double symx_real(const char *, double lo, double) { return next('R', lo); }
double symx_dreal(const char *, double lo, double, int64_t) { return next('R', lo); }
void symx_round(int) {}
int64_t symx_int(const char *, int64_t lo, int64_t hi) { if (lo == hi) return lo; return (int64_t)next('I', (double)lo); }
int symx_choice(const char *, int) { return (int)next('C', 0); }
void symx_assume(bool c) { if (!c) { fprintf(out, "ASSUMPTION false\n"); fflush(out); _Exit(3); } }
void symx_fail(const char *key, const char *msg) { rep(key, msg); }
static bool soft, soft_false;
void symx_soft(int on) { soft = on; soft_false = false; }
int symx_valid() { return !soft_false; }
static void chk(bool ok, double a, double b, const char *key) { if (soft) { if (!ok) soft_false = true; return; } if (!ok) { char m[200]; snprintf(m, sizeof m, "%.17g vs %.17g", a, b); rep(key, m); } }
void symx_assert_le(double a, double b, const char *key) { chk(a <= b, a, b, key); }
void symx_assert_eq(double a, double b, const char *key) { chk(a == b, a, b, key); }
void symx_assert_ile(int64_t a, int64_t b, const char *key) { chk(a <= b, a, b, key); }
void symx_assert_ieq(int64_t a, int64_t b, const char *key) { chk(a == b, a, b, key); }
void symx_flush(const char *) {}
void symx_reached(const char *) {}
static int rn;
void symx_region_begin() { rn = 0; }
int symx_region_next() { return rn++ == 0; }
double symx_region_value(double v) { return v; }
void symx_region_le(double, double) {}
void symx_region_block() {}
int symx_hull(int) { return 0; }
int64_t symx_hull_value(int, double v) { return (int64_t)v; }
void symx_note(const char *) {}
void symx_skip(const char *why) { fprintf(out, "SKIP %s\n", why); fflush(out); _Exit(0); }
double symx_eval(double v) { return v; }
int64_t symx_ieval(int64_t v) { return v; }
int64_t symx_split(int64_t v) { return v; }
int symx_is_symbolic() { return 0; }
void symx_mem_mark_begin() {}
int symx_mem_leaked() { return 0; }
void *symx_arena_switch(int) { return nullptr; }
void symx_race_begin() {}
void symx_race_task(int, const void *) {}
void symx_race_end() {}
#ifdef NATIVE_TSAN
void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int);
void symx_race_pause(int on) { if (on) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } else { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } }
#else
void symx_race_pause(int) {}
#endif
void *symx_stack_alloc(size_t n) { return malloc(n); }
void symx_touch(void) {}
void symx_host(int) {}
}
static void on_sig(int s) { char b[100]; snprintf(b, sizeof b, "REPRODUCED crash: signal %d (%s)\n", s, strsignal(s)); (void)!write(fileno(out), b, strlen(b)); _Exit(1); }
static void on_alarm(int) { const char *b = "REPRODUCED nontermination: time limit\n"; (void)!write(fileno(out), b, strlen(b)); _Exit(1); }
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    char b[8192];
    while (fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0;
        if (strncmp(b, "# config ", 9) == 0) cfg = b + 9;
        else if (b[0] == '#' || !b[0]) continue;
        else { In i; i.t = b[0]; i.v = atof(b + 2); ins.push_back(i); }
    }
    fclose(f);
    out = fdopen(dup(1), "w");
#ifndef NATIVE_SANITIZE
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) signal(s, on_sig);
#endif
    signal(SIGALRM, on_alarm); alarm(argc > 2 ? atoi(argv[2]) : 20);
    try { symx_harness(cfg.c_str()); }
    catch (std::exception &e) { std::string m = std::string("uncaught ") + e.what(); rep("exception", m.c_str()); }
    catch (...) { rep("exception", "uncaught"); }
    fprintf(out, "HOLDS\n"); fflush(out);
#ifdef NATIVE_SANITIZE
    return 0;
#else
    _Exit(0);
#endif
}
