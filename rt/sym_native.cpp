// Native side of sym.h: inputs come from a replay file, assertions abort, observations are printed.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
static FILE *in;
static uint64_t next(const char *name) {
  if (!in) { const char *f = getenv("SYM_REPLAY"); in = f ? fopen(f, "r") : nullptr; if (!in) { fprintf(stderr, "no replay file\n"); _exit(90); } }
  char n[256]; char v[64];
  if (fscanf(in, "%255s %63s", n, v) != 2) { fprintf(stderr, "REPLAY-MISMATCH: no more inputs at %s\n", name); _exit(91); }
  if (strcmp(n, name)) { fprintf(stderr, "REPLAY-MISMATCH: wanted %s, have %s\n", name, n); _exit(91); }
  if (v[0] == '-') return (uint64_t)strtoll(v, nullptr, 10);
  return strtoull(v, nullptr, 10);
}
extern "C" {
uint64_t sym_u64(const char *name) { return next(name); }
int64_t sym_i64(const char *name, int64_t, int64_t) { return (int64_t)next(name); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); fflush(nullptr); _exit(92); } }
void sym_assert_(int c, const char *msg) { if (!c) { fprintf(stderr, "ASSERTION-FAILED: %s\n", msg); fflush(nullptr); _exit(77); } }
void sym_reach(const char *) {}
void sym_obs(const char *tag, uint64_t v) { printf("OBS %s %llu\n", tag, (unsigned long long)v); }
void sym_done(void) { fflush(nullptr); _exit(0); }
}
#include <dlfcn.h>
__attribute__((weak)) int main() {
  const char *e = getenv("SYM_ENTRY");
  auto f = (void (*)())dlsym(nullptr, e ? e : "harness");
  if (!f) { fprintf(stderr, "no entry %s\n", e); return 93; }
  f(); fflush(nullptr); return 0;
}
