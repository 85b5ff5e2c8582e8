// C11: buffer sequences
#include "sym.h"
#include <boost/cobalt/io/buffer.hpp>
#include <array>
#include <string>
#include <vector>
namespace io = boost::cobalt::io;
namespace asio = boost::asio;
using u64 = uint64_t;
static constexpr int K = TIER ? 5 : 4;

template <class Buf> struct Src {
  Buf b[K];
  u64 p[K], n[K];
  int k;
};
static void *ptr(u64 v) { return (void *)(uintptr_t)v; }
static u64 num(const void *p) { return (u64)(uintptr_t)p; }

// k buffers at arbitrary addresses with arbitrary sizes below 2^40
template <class Buf> void make(Src<Buf> &s, int lo, int hi = K, int bits = 40) {
  s.k = sym_int("k", lo, hi);
  for (int i = 0; i < s.k; i++) {
    s.p[i] = sym_u64("addr");
    s.n[i] = sym_u64("size");
    sym_assume(s.p[i] < (1ull << 47));
    sym_assume(s.n[i] < (1ull << bits));
    s.b[i] = Buf(ptr(s.p[i]), s.n[i]);
  }
}
// reference model: drop the first n bytes of the remaining buffers
template <class Buf> void model_drop(Src<Buf> &s, u64 n) {
  for (int i = 0; i < s.k; i++) {
    if (n < s.n[i]) { s.p[i] += n; s.n[i] -= n; return; }
    n -= s.n[i];
    s.n[i] = 0;
  }
}
// `seq` describes exactly the bytes of s, whatever the split
template <class Seq, class Buf> void same_bytes(const Seq &seq, const Src<Buf> &s) {
  int i = 0;
  for (auto it = seq.begin(); it != seq.end(); ++it) {
    if (it->size() == 0) continue;
    while (i < s.k && s.n[i] == 0) i++;
    sym_assert(i < s.k, "the sequence describes bytes beyond its source");
    sym_assert(num((*it).data()) == s.p[i], "the sequence skips or repeats bytes (wrong address)");
    sym_assert(it->size() == s.n[i], "the sequence describes the wrong number of bytes of a buffer");
    i++;
  }
  while (i < s.k && s.n[i] == 0) i++;
  sym_assert(i == s.k, "the sequence lost bytes at its end");
}

template <class Seq, class Buf> void construct_visit() {
  Src<Buf> s;
  make(s, 0);
  Seq seq{std::span<const Buf>(s.b, (size_t)s.k)};
  sym_assert(seq.buffer_count() == (s.k ? (size_t)s.k : 1u), "buffer_count is the number of buffers");
  int i = 0;
  for (auto b : seq) {
    if (s.k == 0) sym_assert(b.size() == 0, "an empty source yields an empty buffer");
    else {
      sym_assert(i < s.k, "no more buffers than the source has");
      sym_assert(num(b.data()) == s.p[i] && b.size() == s.n[i], "buffers are visited in order");
    }
    i++;
  }
  sym_assert(i == (s.k ? s.k : 1), "every buffer is visited");
  u64 tot = 0;
  for (int j = 0; j < s.k; j++) tot += s.n[j];
  sym_assert(asio::buffer_size(seq) == tot, "buffer_size is the number of bytes");
  // copies, assignments
  Seq c = seq, d;
  d = seq;
  same_bytes(c, s);
  same_bytes(d, s);
  sym_assert(c.buffer_count() == seq.buffer_count() && d.buffer_count() == seq.buffer_count(), "copies have the same buffers");
  // visit() hands out the same bytes
  u64 vt = visit(seq, [](const auto &q) -> u64 { return asio::buffer_size(q); });
  sym_assert(vt == tot, "visit() describes the same bytes");
  sym_obs("count", seq.buffer_count());
  sym_reach("visited");
  if (s.k == K) sym_reach("max");
}
HARNESS(buf_construct_m) { construct_visit<io::mutable_buffer_sequence, asio::mutable_buffer>(); }
HARNESS(buf_construct_c) { construct_visit<io::const_buffer_sequence, asio::const_buffer>(); }

template <class Seq, class Buf> void advance(int steps, int hi, int bits) {
  Src<Buf> s;
  make(s, 0, hi, bits);
  Seq seq{std::span<const Buf>(s.b, (size_t)s.k)};
  for (int i = 0; i < steps; i++) {
    u64 n = sym_u64("n");
    sym_assume(n < (1ull << (bits + 3)));
    auto &r = (seq += n);
    sym_assert(&r == &seq, "operator+= returns the sequence");
    model_drop(s, n);
  }
  same_bytes(seq, s);
  int left = 0;
  for (int j = 0; j < s.k; j++) left += s.n[j] != 0;
  if (!left) sym_reach("all consumed");
  else sym_reach("some left");
  sym_obs("left", left);
}
HARNESS(buf_advance_m) { advance<io::mutable_buffer_sequence, asio::mutable_buffer>(1, K, 40); }
HARNESS(buf_advance_c) { advance<io::const_buffer_sequence, asio::const_buffer>(1, K, 40); }
HARNESS(buf_advance2_m) { advance<io::mutable_buffer_sequence, asio::mutable_buffer>(2, TIER ? 3 : 2, 16); }
HARNESS(buf_advance2_c) { advance<io::const_buffer_sequence, asio::const_buffer>(2, TIER ? 3 : 2, 16); }

// any two positions i, j of the sequence
template <class Seq, class Buf> void iterators() {
  Src<Buf> s;
  make(s, 1);
  Seq seq{std::span<const Buf>(s.b, (size_t)s.k)};
  auto b = seq.begin(), e = seq.end();
  sym_assert(e - b == s.k, "end() - begin() is the number of buffers");
  int i = sym_int("i", 0, K), j = sym_int("j", 0, K);
  sym_assume(i <= s.k);
  sym_assume(j <= s.k);
  auto x = b + i, y = e - (s.k - j);
  auto z = b;
  z += j;
  sym_assert(z == y && !(z != y), "begin()+j is end()-(n-j)");
  sym_assert(y - x == j - i, "difference of two positions");
  sym_assert((x == y) == (i == j), "== is equality of positions");
  sym_assert((x != y) == (i != j), "!= is inequality of positions");
  sym_assert((x < y) == (i < j), "iterators are ordered like their positions (<)");
  sym_assert((x <= y) == (i <= j), "iterators are ordered like their positions (<=)");
  sym_assert((x > y) == (i > j), "iterators are ordered like their positions (>)");
  sym_assert((x >= y) == (i >= j), "iterators are ordered like their positions (>=)");
  auto w = x;
  w += j - i;
  sym_assert(w == y, "+= moves by the distance");
  w -= j - i;
  sym_assert(w == x, "-= moves back");
  if (i < s.k) {
    sym_assert(num((*x).data()) == s.p[i] && x->size() == s.n[i], "dereferencing position i yields buffer i");
    sym_assert(num(b[i].data()) == s.p[i] && b[i].size() == s.n[i], "begin()[i] yields buffer i");
    if (j < s.k) sym_assert(num(x[j - i].data()) == s.p[j], "it[d] yields the buffer d further");
    auto o = x;
    auto p = o++;
    sym_assert(p == x && o == x + 1, "postfix ++");
    auto q = o--;
    sym_assert(q == x + 1 && o == x, "postfix --");
    auto r1 = ++o;
    sym_assert(r1 == o && o - x == 1, "prefix ++");
    auto r2 = --o;
    sym_assert(r2 == o && o == x, "prefix --");
    sym_reach("dereferenced");
  }
}
HARNESS(buf_iter_m) { iterators<io::mutable_buffer_sequence, asio::mutable_buffer>(); }
HARNESS(buf_iter_c) { iterators<io::const_buffer_sequence, asio::const_buffer>(); }

// conversions from the things users pass, and real bytes moved through them
HARNESS(buf_convert) {
  u64 p = sym_u64("p"), n = sym_u64("n"), p2 = sym_u64("p2"), n2 = sym_u64("n2");
  asio::mutable_buffer m(ptr(p), n), m2(ptr(p2), n2);
  asio::const_buffer c(ptr(p), n), c2(ptr(p2), n2);
  auto one = [&](const auto &seq) {
    sym_assert(seq.buffer_count() == 1, "one buffer");
    sym_assert(num(seq.begin()->data()) == p && seq.begin()->size() == n, "a single buffer is kept as is");
    sym_assert(seq.end() - seq.begin() == 1, "one position");
  };
  one(io::mutable_buffer_sequence(m));
  one(io::const_buffer_sequence(c));
  one(io::const_buffer_sequence(m));
  auto two = [&](const auto &seq) {
    sym_assert(seq.buffer_count() == 2, "two buffers");
    auto it = seq.begin();
    sym_assert(num(it->data()) == p && it->size() == n, "first of two");
    ++it;
    sym_assert(num(it->data()) == p2 && it->size() == n2, "second of two");
    ++it;
    sym_assert(it == seq.end(), "end after two");
  };
  std::array<asio::mutable_buffer, 2> am{m, m2};
  std::array<asio::const_buffer, 2> ac{c, c2};
  std::vector<asio::mutable_buffer> vm{m, m2};
  std::vector<asio::const_buffer> vc{c, c2};
  two(io::mutable_buffer_sequence(am));
  two(io::const_buffer_sequence(ac));
  two(io::mutable_buffer_sequence(vm));
  two(io::const_buffer_sequence(vc));
  std::vector<asio::mutable_buffer> e;
  sym_assert(asio::buffer_size(io::mutable_buffer_sequence(e)) == 0, "empty container");
  sym_assert(asio::buffer_size(io::const_buffer_sequence()) == 0 && asio::buffer_size(io::mutable_buffer_sequence()) == 0, "default constructed");
  // assignment replaces everything
  io::mutable_buffer_sequence q{am};
  q = io::mutable_buffer_sequence(m2);
  sym_assert(q.buffer_count() == 1 && num(q.begin()->data()) == p2, "assignment replaces the buffers");
  sym_reach("end");
}

HARNESS(buf_copy_bytes) {
  constexpr int T = 6;
  unsigned char src[T];
  for (int i = 0; i < T; i++) src[i] = (unsigned char)sym_int("byte", 0, 255);
  int a = sym_int("a", 0, 3), b = sym_int("b", 0, 2), c = sym_int("c", 0, 1);
  std::array<asio::const_buffer, 3> sb{asio::const_buffer(src, a), asio::const_buffer(src + a, b), asio::const_buffer(src + a + b, c)};
  int x = sym_int("x", 0, 3), y = sym_int("y", 0, 3);
  unsigned char d1[3] = {0, 0, 0}, d2[3] = {0, 0, 0};
  std::array<asio::mutable_buffer, 2> db{asio::mutable_buffer(d1, x), asio::mutable_buffer(d2, y)};
  int drop = sym_int("drop", 0, 6);
  io::const_buffer_sequence cs{sb};
  cs += drop;
  int left = a + b + c - drop;
  if (left < 0) left = 0;
  io::mutable_buffer_sequence ms{db};
  size_t n = io::buffer_copy(ms, cs);
  sym_assert((int)n == (left < x + y ? left : x + y), "buffer_copy moves min(source, target) bytes");
  for (int i = 0; i < (int)n; i++) sym_assert((i < x ? d1[i] : d2[i - x]) == src[drop + i], "byte i of the target is byte i of the remaining source");
  sym_reach("end");
}
