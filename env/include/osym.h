// Harness interface.  Implemented by the symbolic engine (engine/builtins.inc)
// and, for native replay of solver models, by env/runtime.cpp.
#pragma once
#include <cstdint>
extern "C" {
int32_t osym_i32(char const* name, int64_t lo, int64_t hi);   // symbolic, lo <= value <= hi
int64_t osym_i64(char const* name, int64_t lo, int64_t hi);
uint8_t osym_u8(char const* name);
double osym_f64(char const* name);                            // any 64-bit pattern
int64_t osym_choose(char const* name, int64_t lo, int64_t hi);// symbolic, explored value by value
void osym_assume(int cond);
void osym_assert(int cond, char const* msg);
void osym_reach(char const* label);                           // vacuity witness: must be reached by some path
void osym_observe(char const* name, uint64_t value);          // compared against the native run
void osym_note(char const* name, int64_t value);              // shown with a violation
int64_t osym_concretize(int64_t value);                       // fork on every value
int osym_is_symbolic(int64_t value);
int64_t osym_param(char const* name, int64_t dflt);           // set by the check driver
void osym_expect_abort(int on);                               // the program is required (1) / allowed to abort here
int64_t osym_heap_live(void);
void osym_print(char const* name, int64_t v);
int osym_co_create(void (*fn)(int64_t), int64_t arg);
void osym_co_switch(int id);
int osym_co_self(void);
int osym_co_done(int id);
void osym_main(void);
}
#define ASSERT(c) osym_assert(!!(c), #c)
#define ASSUME(c) osym_assume(!!(c))
#define REACH(l) osym_reach(l)
static inline uint64_t osym_dbits(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b; }
static inline void osym_observe_f64(char const* n, double d) { osym_observe(n, osym_dbits(d)); }
static inline bool osym_bool(char const* n) { return osym_i32(n, 0, 1) != 0; }
// an integer-valued (optionally scaled by a power of two) double
static inline double osym_fint(char const* n, int lo, int hi, double scale = 1.0) { return double(osym_i32(n, lo, hi)) * scale; }
