// C13: read, write, read_at and write_at over devices that move any part of the buffer, in every way an operation may complete
#include "common.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/stream.hpp>
#include <boost/cobalt/io/random_access_device.hpp>
#include <boost/asio/append.hpp>
namespace io = cobalt::io;
using seq_handler = cobalt::completion_handler<error_code, std::size_t>;
using try_handler = cobalt::handler<error_code, std::size_t>;
constexpr int PIECES = TIER ? 3 : 2, STEPS = TIER ? 4 : 3;
enum { at_ready, at_once, posted, by_hand };
const error_code FAIL{5, boost::system::system_category()};
// a source of up to PIECES buffers anywhere in memory; what is passed on must be exactly what is left of it
struct source {
  size_t addr[PIECES], len[PIECES], total = 0; int n;
  void make(size_t maxlen) {
    n = sym_int("pieces", 1, PIECES);
    for (int i = 0; i < n; i++) { addr[i] = (size_t(i + 1) << 42) + sym_u64("addr") % 4096; len[i] = sym_u64("len"); sym_assume(len[i] <= maxlen); total += len[i]; }
  }
  template <class B> void check(const B &given, size_t pos) { // the rest of the source, from pos on
    int i = 0; size_t off = pos;
    while (i < n && off >= len[i]) off -= len[i++];
    for (auto it = asio::buffer_sequence_begin(given), e = asio::buffer_sequence_end(given); it != e; ++it) {
      auto b = *it; if (b.size() == 0) continue;
      sym_assert(i < n, "nothing beyond the buffer");
      sym_assert(reinterpret_cast<size_t>(b.data()) == addr[i] + off, "starts with the first byte not moved yet");
      sym_assert(b.size() == len[i] - off, "every byte left, and no other");
      off = 0; do i++; while (i < n && len[i] == 0);
    }
    sym_assert(i == n, "every byte left, and no other");
  }
};
struct hist {
  world &w; source s; uint64_t off0 = 0; size_t moved = 0; int steps = 0; error_code ec; bool at = false, failed = false, cancelled = false, finished = false;
  std::optional<seq_handler> h; int cur = -1; bool cancel_posted = false;
  hist(world &w) : w(w) {}
  template <class B> void arrived(const B &b, uint64_t off) {
    sym_assert(!finished && !failed, "no step after an error");
    sym_assert(!cancelled, "no step after a cancellation");
    sym_assert(moved < s.total, "no step once everything was moved");
    s.check(b, moved); sym_assert(!at || off == off0 + moved, "at the right offset");
  }
  std::pair<error_code, size_t> outcome() { // of this step
    steps++;
    size_t left = s.total - moved, n = sym_u64("n"); sym_assume(n <= left);
    error_code e = sym_bool("fails") ? FAIL : error_code();
    if (steps == STEPS) sym_assume(e || n == left);
    moved += n; if (e) { failed = true; ec = e; }
    return {e, n};
  }
};
template <bool Write> using buf = std::conditional_t<Write, io::const_buffer_sequence, io::mutable_buffer_sequence>;
template <bool Write, bool At> struct device {
  hist *h;
  void ready(uint64_t off, buf<Write> b, try_handler f) {
    if (h->cur < 0) { h->arrived(b, off); h->cur = sym_int("mode", 0, 3); }
    if (h->cur == at_ready) { auto [e, n] = h->outcome(); h->cur = -1; f(e, n); }
  }
  void initiate(uint64_t off, buf<Write> b, seq_handler f) {
    if (h->cur < 0) { h->arrived(b, off); h->cur = sym_int("mode", 1, 3); }
    sym_assert(asio::get_associated_executor(f) == cobalt::executor(h->w.ctx.get_executor()), "on the executor of the coroutine");
    int m = h->cur; h->cur = -1;
    if (m == by_hand) {
      auto sl = f.get_cancellation_slot(); h->h.emplace(std::move(f));
      sym_assert(sl.is_connected(), "cancellation is forwarded to the step");
      sl.assign([h = h](asio::cancellation_type t) { sym_assert(h->h.has_value(), "only the pending step is cancelled"); h->cancelled = true; });
      return;
    }
    auto [e, n] = h->outcome();
    if (m == at_once) { auto ex = asio::get_associated_immediate_executor(f, h->w.ctx.get_executor()); ex.execute([f = std::move(f), e = e, n = n]() mutable { std::move(f)(e, n); }); }
    else { asio::post(h->w.ctx, asio::append(std::move(f), e, n)); if (!h->cancel_posted && sym_bool("cancel_posted")) h->cancel_posted = true; }
  }
};
template <bool Write, bool At> struct stream;
template <> struct stream<false, false> : io::read_stream { device<false, false> d; bool tr;
  static void impl(void *t, io::mutable_buffer_sequence b, seq_handler f) { static_cast<stream *>(t)->d.initiate(0, b, std::move(f)); }
  static void ready(void *t, io::mutable_buffer_sequence b, try_handler f) { static_cast<stream *>(t)->d.ready(0, b, std::move(f)); }
  io::read_op read_some(io::mutable_buffer_sequence b) override { return {b, this, impl, tr ? ready : nullptr}; }
  io::read_all all(uint64_t, io::mutable_buffer_sequence b) { return io::read(*this, b); } };
template <> struct stream<true, false> : io::write_stream { device<true, false> d; bool tr;
  static void impl(void *t, io::const_buffer_sequence b, seq_handler f) { static_cast<stream *>(t)->d.initiate(0, b, std::move(f)); }
  static void ready(void *t, io::const_buffer_sequence b, try_handler f) { static_cast<stream *>(t)->d.ready(0, b, std::move(f)); }
  io::write_op write_some(io::const_buffer_sequence b) override { return {b, this, impl, tr ? ready : nullptr}; }
  io::write_all all(uint64_t, io::const_buffer_sequence b) { return io::write(*this, b); } };
template <> struct stream<false, true> : io::random_access_read_device { device<false, true> d; bool tr;
  static void impl(void *t, uint64_t o, io::mutable_buffer_sequence b, seq_handler f) { static_cast<stream *>(t)->d.initiate(o, b, std::move(f)); }
  static void ready(void *t, uint64_t o, io::mutable_buffer_sequence b, try_handler f) { static_cast<stream *>(t)->d.ready(o, b, std::move(f)); }
  io::read_at_op read_some_at(uint64_t o, io::mutable_buffer_sequence b) override { return {o, b, this, impl, tr ? ready : nullptr}; }
  io::read_all_at all(uint64_t o, io::mutable_buffer_sequence b) { return io::read_at(*this, o, b); } };
template <> struct stream<true, true> : io::random_access_write_device { device<true, true> d; bool tr;
  static void impl(void *t, uint64_t o, io::const_buffer_sequence b, seq_handler f) { static_cast<stream *>(t)->d.initiate(o, b, std::move(f)); }
  static void ready(void *t, uint64_t o, io::const_buffer_sequence b, try_handler f) { static_cast<stream *>(t)->d.ready(o, b, std::move(f)); }
  io::write_at_op write_some_at(uint64_t o, io::const_buffer_sequence b) override { return {o, b, this, impl, tr ? ready : nullptr}; }
  io::write_all_at all(uint64_t o, io::const_buffer_sequence b) { return io::write_at(*this, o, b); } };
struct outcome_t { bool threw = false; error_code ec; size_t n = 0; };
template <class S, class B> cobalt::promise<void> go(hist &h, S &s, B b, int style, outcome_t &o) {
  if (style == 0) { auto [e, n] = co_await cobalt::as_tuple(s.all(h.off0, b)); o.ec = e; o.n = n; }
  else if (style == 1) { auto r = co_await cobalt::as_result(s.all(h.off0, b)); if (r.has_error()) o.ec = r.error(); else o.n = *r; }
  else try { o.n = co_await s.all(h.off0, b); } catch (boost::system::system_error &e) { o.threw = true; o.ec = e.code(); }
  h.finished = true;
}
template <bool Write, bool At> void any_address() {
  {
    world w; hist h(w);
    h.s.make(size_t(1) << 40); if (At) { h.at = true; h.off0 = sym_u64("offset"); sym_assume(h.off0 < (uint64_t(1) << 60)); }
    int style = sym_int("style", 0, 2);
    stream<Write, At> s; s.d.h = &h; s.tr = sym_bool("can_be_ready");
    using ab = std::conditional_t<Write, asio::const_buffer, asio::mutable_buffer>;
    ab bs[PIECES]; for (int i = 0; i < h.s.n; i++) bs[i] = ab(reinterpret_cast<void *>(h.s.addr[i]), h.s.len[i]);
    buf<Write> b = h.s.n == 1 ? buf<Write>(bs[0]) : buf<Write>(std::span<const ab>(bs, h.s.n));
    outcome_t o;
    auto p = go(h, s, b, style, o);
    for (int k = 0; k <= STEPS; k++) {
      if (h.cancel_posted && !h.cancelled) { p.cancel(); h.cancelled = true; sym_reach("cancelled between"); }
      w.poll();
      if (h.finished) break;
      sym_assert(h.h.has_value(), "a step is pending until it finished");
      if (!h.cancelled && sym_bool("cancel")) { p.cancel(); sym_assert(h.cancelled, "cancellation is forwarded to the step"); sym_reach("cancelled"); }
      auto [e, n] = h.outcome();
      if (h.cancelled && sym_bool("aborts")) { e = asio::error::operation_aborted; h.failed = true; h.ec = e; }
      seq_handler f = std::move(*h.h); h.h.reset();
      f.get_cancellation_slot().clear();
      asio::post(w.ctx, asio::append(std::move(f), e, n));
    }
    sym_assert(h.finished && p.ready(), "it completes");
    error_code want = h.failed ? h.ec : h.cancelled ? error_code(asio::error::operation_aborted) : error_code();
    sym_assert(o.ec == want, "the first error, or none");
    if (!want) { sym_assert(h.moved == h.s.total, "complete unless there was an error"); sym_reach("complete"); } else sym_reach("error");
    if (style == 0 || !want) sym_assert(o.n == h.moved, "the exact number of bytes");
    sym_assert(o.threw == (style == 2 && want), "thrown only when awaited plainly");
    p.get();
  }
  sym_done();
}
HARNESS(rw_read) { any_address<false, false>(); }
HARNESS(rw_write) { any_address<true, false>(); }
HARNESS(rw_read_at) { any_address<false, true>(); }
HARNESS(rw_write_at) { any_address<true, true>(); }
// real bytes: what ends up in the buffer or the device
constexpr int BYTES = TIER ? 6 : 4;
struct bytes_dev {
  unsigned char *store; size_t pos = 0; int calls = 0; world *w; bool fail_at_end; size_t limit;
  template <class B> std::pair<error_code, size_t> step(B b, bool write) {
    size_t left = asio::buffer_size(b), n = sym_int("n", 1, BYTES); sym_assume(n <= left && pos + n <= limit);
    size_t k = 0;
    for (auto it = asio::buffer_sequence_begin(b), e = asio::buffer_sequence_end(b); it != e; ++it) {
      auto x = *it; auto *d = (unsigned char *)x.data();
      for (size_t j = 0; j < x.size() && k < n; j++, k++) { if (write) store[pos + k] = d[j]; else if constexpr (std::is_same_v<B, io::mutable_buffer_sequence>) d[j] = store[pos + k]; }
    }
    pos += n; calls++;
    error_code e; if (fail_at_end && pos == limit) e = FAIL;
    return {e, n};
  }
};
struct bytes_stream : io::stream {
  bytes_dev d;
  static void rd(void *t, io::mutable_buffer_sequence b, seq_handler f) { auto &s = *static_cast<bytes_stream *>(t); auto [e, n] = s.d.step(b, false); asio::post(s.d.w->ctx, asio::append(std::move(f), e, n)); }
  static void wr(void *t, io::const_buffer_sequence b, seq_handler f) { auto &s = *static_cast<bytes_stream *>(t); auto [e, n] = s.d.step(b, true); asio::post(s.d.w->ctx, asio::append(std::move(f), e, n)); }
  io::read_op read_some(io::mutable_buffer_sequence b) override { return {b, this, rd}; }
  io::write_op write_some(io::const_buffer_sequence b) override { return {b, this, wr}; }
};
template <bool Write> void real_bytes() {
  {
    world w; unsigned char store[BYTES], mem[BYTES + 3], before[BYTES + 3];
    for (int i = 0; i < BYTES; i++) store[i] = (unsigned char)sym_u64("s");
    for (int i = 0; i < BYTES + 3; i++) before[i] = mem[i] = (unsigned char)sym_u64("m");
    int a = sym_int("first", 0, BYTES), c = sym_int("second", 0, BYTES); sym_assume(a + c <= BYTES && a + c > 0);
    using ab = std::conditional_t<Write, asio::const_buffer, asio::mutable_buffer>;
    ab bs[2] = {ab(mem + 1, a), ab(mem + 2 + a, c)}; // a gap before, between and after
    bytes_stream s; s.d.w = &w; s.d.store = store; s.d.fail_at_end = sym_bool("fails"); s.d.limit = s.d.fail_at_end ? sym_int("limit", 1, BYTES) : BYTES; sym_assume(int(s.d.limit) <= a + c || !s.d.fail_at_end);
    unsigned char old[BYTES]; for (int i = 0; i < BYTES; i++) old[i] = store[i];
    error_code ec; size_t n = 99; bool fin = false;
    auto body = [&]() -> cobalt::promise<void> {
      if constexpr (Write) { auto [e, m] = co_await cobalt::as_tuple(io::write(s, io::const_buffer_sequence(std::span<const ab>(bs)))); ec = e; n = m; }
      else { auto [e, m] = co_await cobalt::as_tuple(io::read(s, io::mutable_buffer_sequence(std::span<const ab>(bs)))); ec = e; n = m; }
      fin = true;
    };
    auto p = body(); w.poll();
    sym_assert(fin, "it completes"); p.get();
    size_t want = s.d.fail_at_end ? s.d.limit : a + c;
    sym_assert(n == want && s.d.pos == want && ec == (s.d.fail_at_end ? FAIL : error_code()), "the exact number of bytes and the error");
    if (Write) {
      for (int i = 0; i < BYTES; i++) sym_assert(store[i] == (size_t(i) < want ? before[i < a ? 1 + i : 2 + i] : old[i]), "every byte once, in order");
      for (int i = 0; i < BYTES + 3; i++) sym_assert(mem[i] == before[i], "the source is not touched");
    } else for (int i = 0; i < BYTES + 3; i++) {
      int k = i >= 1 && i < 1 + a ? i - 1 : i >= 2 + a && i < 2 + a + c ? i - 2 : -1;
      sym_assert(mem[i] == (k >= 0 && size_t(k) < want ? store[k] : before[i]), "every byte once, in order, and no other");
    }
    sym_reach(s.d.fail_at_end ? "error" : "complete");
  }
  sym_done();
}
HARNESS(rw_bytes_read) { real_bytes<false>(); }
HARNESS(rw_bytes_write) { real_bytes<true>(); }
HARNESS(rw_dropped) { // the pending step is dropped: nothing leaks, nothing resumes
  {
    world w; hist h(w); h.s.make(64); sym_assume(h.s.total > 0);
    stream<false, false> s; s.d.h = &h; s.tr = false; outcome_t o; int alive = 0;
    asio::mutable_buffer bs[PIECES]; for (int i = 0; i < h.s.n; i++) bs[i] = asio::mutable_buffer(reinterpret_cast<void *>(h.s.addr[i]), h.s.len[i]);
    struct g { int &n; g(int &n) : n(n) { n++; } ~g() { n--; } };
    auto body = [&]() -> cobalt::promise<void> { g x(alive); co_await go(h, s, io::mutable_buffer_sequence(std::span<const asio::mutable_buffer>(bs, h.s.n)), 0, o); };
    {
      auto p = body(); w.poll();
      if (h.h) { h.h.reset(); sym_assert(alive == 0 && !h.finished, "abandoned frames are destroyed"); sym_reach("dropped"); }
    }
    w.poll();
    sym_assert(alive == 0, "destroyed");
  }
  sym_done();
}
