// C10: detail::monotonic_resource
#include "sym.h"
#include <boost/cobalt/detail/monotonic_resource.hpp>
#include <string>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <memory>
#include <optional>
using boost::cobalt::detail::monotonic_resource;
using boost::cobalt::detail::monotonic_allocator;
using u64 = uint64_t;
static u64 num(const void *p) { return (u64)(uintptr_t)p; }

// The chunks: minimally aligned, counted, and checked on release.
static int chunk_news, chunk_frees;
static bool no_chunks;
struct Chunk { void *p, *raw; size_t n, a; bool live; };
static Chunk chunks[16];
void *operator new(std::size_t n, std::align_val_t al) {
  if (no_chunks) { sym_reach("needs a chunk"); sym_done(); }
  size_t a = (size_t)al < 16 ? 16 : (size_t)al;
  // the block is aligned to `a`, but not to 2a
  char *raw = (char *)malloc(n + 3 * a);
  u64 v = (num(raw) + 2 * a - 1) / (2 * a) * (2 * a) - a;
  if (v < num(raw)) v += 2 * a;
  char *end = raw + n + 3 * a;
  for (char *q = (char *)v + n; q != end; q++) *q = 0x5a; // guard zone
  sym_assert(chunk_news < 16, "harness limit");
  chunks[chunk_news++] = {(void *)v, raw, n, (size_t)al, true};
  return (void *)v;
}
static void drop(void *p, size_t n, size_t a, bool sized) {
  for (int i = 0; i < chunk_news; i++)
    if (chunks[i].p == p) {
      sym_assert(chunks[i].live, "every chunk is released once");
      sym_assert(chunks[i].a == a && (!sized || chunks[i].n == n), "a chunk is released with its size and alignment");
      char *end = (char *)chunks[i].raw + chunks[i].n + 3 * (a < 16 ? 16 : a);
      for (char *q = (char *)p + chunks[i].n; q != end; q++) sym_assert(*q == 0x5a, "nothing is written behind a chunk");
      chunks[i].live = false; chunk_frees++; free(chunks[i].raw);
      return;
    }
  sym_assert(0, "only chunks are released");
}
void operator delete(void *p, std::size_t n, std::align_val_t a) noexcept { if (p) drop(p, n, (size_t)a, true); }
void operator delete(void *p, std::align_val_t a) noexcept { if (p) drop(p, 0, (size_t)a, false); }

static const u64 als[] = {1, 8, 16, 64, 2, 32, 4}; // a table, so that the alignment is concrete on every path
struct B { u64 p, n; };
static bool in_chunk(u64 p, u64 n) {
  for (int i = 0; i < chunk_news; i++) if (chunks[i].live && p >= num(chunks[i].p) && p + n <= num(chunks[i].p) + chunks[i].n) return true;
  return false;
}
static void alloc(monotonic_resource &r, B *b, int &k, u64 n, u64 a, u64 base, u64 cap) {
  u64 p = num(r.allocate(n, std::align_val_t(a)));
  sym_assert(p % a == 0, "the block is aligned as requested");
  sym_assert((p >= base && p + n <= base + cap) || in_chunk(p, n), "the block lies within the buffer or a chunk");
  for (int i = 0; i < k; i++) sym_assert(n == 0 || b[i].n == 0 || p + n <= b[i].p || b[i].p + b[i].n <= p, "blocks are disjoint");
  b[k++] = {p, n};
}

// blocks from the initial buffer; paths that need a chunk end there (see mono_chunks)
HARNESS(mono_buffer) {
  no_chunks = true;
  u64 base = 0x10000 + (TIER ? sym_int("off", 0, 63) : 3 * sym_int("off", 0, 7)), cap = sym_int("cap", 1, 4095);
  monotonic_resource r((void *)base, cap);
  B b[4]; int k = 0;
  for (int i = 0; i < (TIER ? 4 : 3); i++) {
    u64 n = sym_int("size", 0, 1023), a = als[sym_int("align", 0, TIER ? 6 : 3)];
    alloc(r, b, k, n, a, base, cap);
    sym_reach("in the buffer");
  }
  if (sym_bool("release")) {
    r.release();
    k = 0;
    alloc(r, b, k, sym_int("size", 0, 1023), 8, base, cap);
    sym_reach("reused");
  }
}
// small buffers or none, chunks of any size; every block is written completely
static void chunky(int K, int maxsize, int maxalign) {
  chunk_news = chunk_frees = 0;
  alignas(64) static char buf[128];
  int mode = sym_int("mode", 0, 1);
  int cap = 0; char *base = nullptr;
  B b[6]; char *q[6]; int n[6]; int k = 0;
  {
    std::optional<monotonic_resource> r;
    if (mode == 0) { static const int cs[] = {1, 5, 16, 31, 48}; r.emplace((size_t)cs[sym_int("chunk", 0, 4)]); }
    else { base = buf + sym_int("off", 0, 1) * 9; cap = sym_int("cap", 1, 3) * 13; r.emplace(base, (size_t)cap); }
    for (int i = 0; i < K; i++) {
      static const int szs[] = {1, 7, 8, 15, 11, 3, 40, 16}; n[k] = szs[sym_int("size", 0, maxsize)];
      u64 a = als[sym_int("align", 0, maxalign)];
      int j = k;
      alloc(*r, b, k, n[j], a, num(base), cap);
      q[j] = (char *)b[j].p;
      for (int x = 0; x < n[j]; x++) q[j][x] = (char)(j + 1);
    }
    for (int i = 0; i < k; i++) for (int x = 0; x < n[i]; x++) sym_assert(q[i][x] == (char)(i + 1), "a block keeps its contents until release");
    if (chunk_news > 1) sym_reach("two chunks");
    if (sym_bool("release")) {
      r->release();
      sym_assert(chunk_frees == chunk_news, "release() returns every chunk");
      k = 0; n[0] = 15;
      alloc(*r, b, k, n[0], 16, num(base), cap);
      for (int x = 0; x < n[0]; x++) ((char *)b[0].p)[x] = 7;
      sym_reach("released");
    }
  }
  sym_assert(chunk_frees == chunk_news, "destruction returns every chunk");
  sym_obs("chunks", chunk_news);
}
HARNESS(mono_chunks2) { chunky(2, TIER ? 7 : 3, TIER ? 5 : 3); }
HARNESS(mono_chunks3) {
  // larger steps: three blocks
  chunk_news = chunk_frees = 0;
  {
    monotonic_resource r((size_t)sym_int("chunk", 1, TIER ? 20 : 9));
    B b[4]; int k = 0; static const int sz[] = {8, 11, 1, 40};
    for (int i = 0; i < 3; i++) {
      int n = sz[sym_int("size", 0, TIER ? 3 : 1)];
      alloc(r, b, k, n, als[1 + sym_int("align", 0, TIER ? 2 : 1)], 0, 0);
      for (int x = 0; x < n; x++) ((char *)b[k - 1].p)[x] = (char)i;
    }
    sym_reach("end");
  }
  sym_assert(chunk_frees == chunk_news, "destruction returns every chunk");
}
// the allocator, with and without a resource
HARNESS(mono_alloc) {
  chunk_news = chunk_frees = 0;
  {
    alignas(16) char buf[64];
    monotonic_resource r(buf, (size_t)sym_int("cap", 1, 64));
    monotonic_allocator<int> ai(&r), none;
    monotonic_allocator<long> al(ai);
    int n = sym_int("n", 1, 5), m = sym_int("m", 1, 4);
    int *x = ai.allocate(n); long *y = al.allocate(m); int *z = none.allocate(n);
    for (int i = 0; i < n; i++) x[i] = i, z[i] = -i;
    for (int i = 0; i < m; i++) y[i] = 100 + i;
    for (int i = 0; i < n; i++) sym_assert(x[i] == i && z[i] == -i, "element kept");
    for (int i = 0; i < m; i++) sym_assert(y[i] == 100 + i, "element kept");
    ai.deallocate(x, n); al.deallocate(y, m); none.deallocate(z, n);
    sym_assert(chunk_frees == 0, "deallocation releases nothing before release()");
  }
  sym_assert(chunk_frees == chunk_news, "destruction returns every chunk");
  sym_reach("end");
}
