#pragma once
// Harness interface. The same harness source is linked against ms_rt.cpp (symbolic) or ms_native.cpp (replay).
#include <cstdint>
extern "C" {
int ms_int(const char* name, int lo, int hi);                       // integer in [lo,hi]
double ms_lattice(const char* name, int lo, int hi, int log2step);  // n * 2^log2step, n integer in [lo,hi]
double ms_double(const char* name);                                 // any IEEE double (all 2^64 bit patterns)
int ms_pick(const char* name, int lo, int hi);                      // integer in [lo,hi], fixed at once: one path per value (case split)
int ms_thorough(void);                                              // tier of this run
void ms_assume(bool c);
void ms_assert(bool c, const char* label);
void ms_reach(const char* label);
void ms_fail(const char* label);
int ms_symbolic(void);
}
static inline bool ms_bool(const char* name) { return ms_int(name, 0, 1) != 0; }
struct ms_reg { ms_reg(const char* name, void (*fn)()); };
#define MS_HARNESS(n) static void ms_h_##n(); static ms_reg ms_r_##n(#n, ms_h_##n); static void ms_h_##n()
