// The interface between harnesses and the symbolic executor (or the native replayer).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_u64(const char *name);                        // any 64-bit value
int64_t sym_i64(const char *name, int64_t lo, int64_t hi); // any value in [lo, hi]
void sym_assume(int c);
void sym_assert_(int c, const char *msg);
void sym_reach(const char *label); // vacuity witness: must be reached on some path
void sym_obs(const char *tag, uint64_t v); // observation, compared with the native run
void sym_done(void) __attribute__((noreturn));
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define sym_assert(c, msg) sym_assert_((c) ? 1 : 0, msg)
inline int sym_int(const char *n, int lo, int hi) { return (int)sym_i64(n, lo, hi); }
inline bool sym_bool(const char *n) { return sym_i64(n, 0, 1) != 0; }
// HARNESS(name) { ... } defines an entry point
#define HARNESS(name) extern "C" __attribute__((used, visibility("default"))) void name()
