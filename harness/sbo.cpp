// C09: detail::sbo_resource under arbitrary short histories of allocations and deallocations
#include "sym.h"
#include <boost/cobalt/detail/sbo_resource.hpp>
#include <string>
#include <vector>
using boost::cobalt::detail::sbo_resource;
using u64 = uint64_t;
static u64 num(const void *p) { return (u64)(uintptr_t)p; }

// upstream: hands out addresses far away from the buffer and records what it is asked
struct upstream final : boost::cobalt::pmr::memory_resource {
  int allocs = 0, frees = 0;
  u64 last = 0, size = 0, align = 0;
  void *do_allocate(size_t n, size_t a) override { allocs++; size = n; align = a; last = (1ull << 60) + (u64)allocs * (1ull << 52); return (void *)last; }
  void do_deallocate(void *p, size_t n, size_t a) override { frees++; last = num(p); size = n; align = a; }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};

static void history(int ops, bool over_aligned, bool buffered) {
  u64 base = buffered ? 0x10000 + sym_int("off", 0, 15) : 0, cap = buffered ? sym_int("cap", 0, 4095) : 0;
  upstream up;
  sbo_resource r((void *)base, cap, &up);
  sbo_resource *rp = &r;
  sbo_resource none(&up);
  if (!buffered) rp = &none;
  struct B { u64 p, n, a; bool live, up; } b[8];
  int nb = 0, live = 0;
  // usable part of the buffer
  u64 first = (base + 15) & ~15ull, end = base + cap;
  u64 usable = first <= end ? end - first : 0;
  for (int i = 0; i < ops; i++) {
    int what = sym_int("op", -1, nb - 1); // -1: allocate, j: free block j
    if (what < 0) {
      u64 n = sym_int("size", 0, 4095), a = 1ull << sym_int("align", 0, over_aligned ? 6 : 4);
      int before = up.allocs;
      u64 p = num(rp->allocate(n, a));
      sym_assert(p % a == 0, "the block is aligned as requested");
      B &x = b[nb];
      x = {p, n, a, true, up.allocs != before};
      if (x.up) {
        sym_assert(up.allocs == before + 1 && p == up.last, "the upstream block is handed out");
        sym_assert(up.size >= n && up.align >= a, "upstream is asked for the requested size and alignment");
        x.n = up.size; x.a = up.align;
        if (live == 0 && a <= 16 && n > 0) sym_assert(n > usable || ((n + 15) & ~15ull) > usable, "an empty buffer with enough room is used");
        sym_reach("upstream");
      } else {
        sym_assert(n == 0 || (p >= base && p + n <= end), "the block lies within the buffer");
        for (int j = 0; j < nb; j++)
          if (b[j].live && !b[j].up && b[j].n) sym_assert(n == 0 || p + n <= b[j].p || b[j].p + b[j].n <= p, "live blocks are disjoint");
        if (n) sym_reach("buffer");
      }
      x.n = n; x.a = a;
      nb++; live++;
    } else {
      B &x = b[what];
      sym_assume(x.live);
      int before = up.frees, ab = up.allocs;
      rp->deallocate((void *)x.p, x.n, x.a);
      x.live = false; live--;
      if (x.up) sym_assert(up.frees == before + 1 && up.last == x.p && up.size == x.n && up.align == x.a, "an upstream block is returned upstream with its size and alignment");
      else sym_assert(up.frees == before || (x.p == 0 && x.n == 0), "a buffer block is never returned upstream");
      sym_assert(up.allocs == ab, "freeing does not allocate");
      sym_reach("freed");
    }
  }
  sym_obs("allocs", up.allocs); sym_obs("frees", up.frees);
  sym_assert(rp->is_equal(*rp) && !r.is_equal(none), "a resource equals only itself");
}
HARNESS(sbo_history) { history(TIER ? 5 : 4, false, true); }
HARNESS(sbo_over_aligned) { history(TIER ? 4 : 3, true, true); }
HARNESS(sbo_no_buffer) { history(4, true, false); }

// blocks allocated after some were freed out of order do not overlap the remaining ones
HARNESS(sbo_fragment) {
  u64 base = 0x10000 + 8 * sym_int("off", 0, 1), cap = sym_int("cap", 0, 255);
  upstream up;
  sbo_resource r((void *)base, cap, &up);
  constexpr int K = 3;
  u64 p[K], n[K]; bool live[K], isup[K];
  for (int i = 0; i < K; i++) { n[i] = sym_int("size", 1, 127); int b = up.allocs; p[i] = num(r.allocate(n[i], 8)); live[i] = true; isup[i] = up.allocs != b; }
  int frees = sym_int("frees", 1, 2);
  for (int i = 0; i < frees; i++) {
    int j = sym_int("free", 0, K - 1);
    sym_assume(live[j]);
    r.deallocate((void *)p[j], n[j], 8);
    live[j] = false;
  }
  for (int i = 0; i < (TIER ? 2 : 1); i++) {
    u64 m = sym_int("size", 1, 255); int b = up.allocs;
    u64 q = num(r.allocate(m, 8));
    if (up.allocs == b) {
      sym_assert(q >= base && q + m <= base + cap, "the block lies within the buffer");
      for (int j = 0; j < K; j++) if (live[j] && !isup[j]) sym_assert(q + m <= p[j] || p[j] + n[j] <= q, "live blocks are disjoint");
      sym_reach("reused");
      if (i == 0 && TIER) { p[0] = live[0] ? p[0] : q; n[0] = live[0] ? n[0] : m; if (!live[0]) { live[0] = true; isup[0] = false; } else break; }
    } else sym_reach("upstream");
  }
}

// when everything is freed, in any order, the buffer is completely usable again
HARNESS(sbo_recycle) {
  u64 base = 0x10000 + sym_int("off", 0, 15), cap = sym_int("cap", 0, 4095);
  upstream up;
  sbo_resource r((void *)base, cap, &up);
  u64 first = (base + 15) & ~15ull, end = base + cap;
  u64 usable = first <= end ? end - first : 0;
  constexpr int K = TIER ? 4 : 3;
  u64 p[K], n[K]; bool live[K] = {};
  int k = sym_int("k", 1, K);
  for (int i = 0; i < k; i++) { n[i] = sym_int("size", 0, 4095); p[i] = num(r.allocate(n[i], 8)); live[i] = true; }
  for (int i = 0; i < k; i++) {
    int j = sym_int("free", 0, K - 1);
    sym_assume(j < k);
    sym_assume(live[j]);
    r.deallocate((void *)p[j], n[j], 8);
    live[j] = false;
  }
  sym_assert(up.allocs == up.frees, "every upstream block went back");
  int before = up.allocs;
  u64 m = usable & ~15ull;
  if (m) {
    u64 q = num(r.allocate(m, 16));
    sym_assert(up.allocs == before && q == first, "the complete buffer is available again");
    sym_reach("recycled");
  }
}
// releasing in reverse order frees the space at once
HARNESS(sbo_lifo) {
  u64 base = sym_u64("base"), cap = sym_u64("cap");
  sym_assume(base > 0); sym_assume(base < (1ull << 47)); sym_assume(cap < (1ull << 40));
  upstream up;
  sbo_resource r((void *)base, cap, &up);
  u64 a = sym_u64("a"), b = sym_u64("b"), c = sym_u64("c");
  sym_assume(a > 0); sym_assume(b > 0); sym_assume(a < (1ull << 40)); sym_assume(b < (1ull << 40)); sym_assume(c < (1ull << 40));
  u64 p = num(r.allocate(a, 8)), q = num(r.allocate(b, 8));
  sym_assume(up.allocs == 0);
  r.deallocate((void *)q, b, 8);
  sym_assume(c <= b);
  sym_assume(c > 0);
  u64 s = num(r.allocate(c, 8));
  sym_assert(up.allocs == 0 && s == q, "space freed in reverse order is reused");
  r.deallocate((void *)s, c, 8);
  r.deallocate((void *)p, a, 8);
  sym_assert(up.frees == 0, "nothing goes upstream");
  sym_reach("end");
}
// through the allocator, writing every element
HARNESS(sbo_arrays) {
  using namespace boost::cobalt::detail;
  alignas(16) char buf[64];
  int off = sym_int("off", 0, 17), len = sym_int("len", 0, 47);
  sbo_resource r(buf + off, (size_t)len);
  {
    sbo_allocator<int> ai(&r);
    sbo_allocator<long> al(ai);
    int n = sym_int("n", 1, 6), m = sym_int("m", 1, 3);
    int *x = ai.allocate(n);
    long *y = al.allocate(m);
    for (int i = 0; i < n; i++) x[i] = i;
    for (int i = 0; i < m; i++) y[i] = 100 + i;
    for (int i = 0; i < n; i++) sym_assert(x[i] == i, "element kept");
    for (int i = 0; i < m; i++) sym_assert(y[i] == 100 + i, "element kept");
    if (sym_bool("order")) { ai.deallocate(x, n); al.deallocate(y, m); }
    else { al.deallocate(y, m); ai.deallocate(x, n); }
    sym_assert(ai.resource() == &r && al.resource() == &r, "the allocator keeps its resource");
  }
  sym_reach("end");
}
