// Harness API.  The same harness source is compiled twice: with the symbolic
// instrumentation (clang + SymxPass, linked with runtime.cpp) and natively
// (g++, linked with native.cpp) to replay a counterexample on the real code.
#ifndef SYMX_H
#define SYMX_H
#include <cstdint>
#include <cstddef>
extern "C" {
// symbolic inputs -----------------------------------------------------------
double symx_real(const char *name, double lo, double hi);       // any real in [lo,hi], integer-scaled on replay
double symx_dreal(const char *name, double lo, double hi, int64_t den); // any multiple of 1/den in [lo,hi]
void symx_round(int on);                                         // --round only: additions are rounded to double (on) or exact (off)
int64_t symx_int(const char *name, int64_t lo, int64_t hi);      // any integer in [lo,hi]
int symx_choice(const char *name, int n);                        // any value of {0..n-1}
// assumptions and assertions --------------------------------------------------
void symx_assume(bool c);
void symx_fail(const char *key, const char *msg);                // this path violates the property
void symx_assert_le(double a, double b, const char *key);        // collected; one query per flush
void symx_assert_eq(double a, double b, const char *key);
void symx_assert_ile(int64_t a, int64_t b, const char *key);
void symx_assert_ieq(int64_t a, int64_t b, const char *key);
void symx_flush(const char *ctx);                                // PC and not(conjunction collected so far)
void symx_soft(int on);                                           // assertions only feed symx_valid
int symx_valid();                                                // 1: PC implies the collected conjunction (engine); the concrete truth natively
void symx_reached(const char *label);                            // vacuity witness
// regions: for a property of the form "for all w: P_r(w) where r = region of w"
void symx_region_begin();
int symx_region_next();                                          // a point of PC outside the blocked regions (1) or none (0)
double symx_region_value(double v);                              // value of an expression at that point
void symx_region_le(double a, double b);                         // constraint of the region
void symx_region_block();                                        // exclude it and go on
// vertices of the linear relaxation of PC (their number; -1: not enumerable), values times the common denominator (INT64_MIN: out of range)
int symx_hull(int maxdim);
int64_t symx_hull_value(int i, double v);
void symx_note(const char *s);
void symx_skip(const char *why);                                 // end this path, nothing claimed
double symx_eval(double v);                                      // concrete value, drops symbolic information (labels, logging)
int64_t symx_ieval(int64_t v);
int64_t symx_split(int64_t v);                                   // case-split an integer expression on its value
int symx_is_symbolic();                                          // 1 under the engine, 0 in native replay
// memory model (engine only; no-ops natively)
void symx_mem_mark_begin();
int symx_mem_leaked();
void *symx_arena_switch(int id);
void symx_race_begin();                                          // start of a parallel region
void symx_race_task(int id, const void *frame);                  // accesses from here on belong to task id (-1: none)
void symx_race_end();
void symx_race_pause(int on);
}
#define SYMX_MAIN int main(int argc, char **argv)
// every harness defines this
extern "C" void symx_harness(const char *config);
#endif
extern "C" void *symx_stack_alloc(size_t n);
extern "C" void symx_touch(void);   // does nothing, but is called
extern "C" void symx_host(int on);
