// C23: operations written as coroutines (composition.hpp)
#include "common.hpp"
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/deferred.hpp>
constexpr int STEPS = TIER ? 3 : 2;
struct counting final : boost::cobalt::pmr::memory_resource { // what does not fit into the operation's buffer ends up here
  long live = 0; int blocks = 0;
  void *do_allocate(size_t n, size_t a) override { live += n; blocks++; return ::operator new(n, std::align_val_t(a)); }
  void do_deallocate(void *p, size_t n, size_t a) override { live -= n; blocks--; sym_assert(live >= 0 && blocks >= 0, "freed with the size it was allocated with"); ::operator delete(p, n, std::align_val_t(a)); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
counting mem;
struct mem_scope { boost::cobalt::pmr::memory_resource *old; mem_scope() : old(boost::cobalt::pmr::set_default_resource(&mem)) {} ~mem_scope() { boost::cobalt::pmr::set_default_resource(old); } };
enum { at_ready, at_once, posted, by_hand };
using sh = cobalt::completion_handler<error_code, int>;
int id_of(const error_code &e) { return !e ? 0 : e.category() == boost::system::system_category() ? e.value() : e == asio::error::operation_aborted ? -1 : -2; }
struct hist;
struct step : cobalt::op<error_code, int> {
  hist &h; int mode = -1, ec = 0, v = 0; std::optional<sh> f; int got = 0; // got: the cancellation it was told of
  step(hist &h) : h(h) {}
  error_code code() { return error_code(ec, boost::system::system_category()); }
  void ready(cobalt::handler<error_code, int> r) override { choose(); if (mode == at_ready) r(code(), v); }
  void choose();
  void initiate(sh x) override;
  void complete(bool direct) {
    auto x = std::move(*f); f.reset(); auto s = x.get_cancellation_slot(); if (s.is_connected()) s.clear();
    if (direct) asio::dispatch(asio::append(std::move(x), code(), v)); else asio::post(asio::append(std::move(x), code(), v));
  }
};
struct hist {
  world &w; std::vector<step *> pending; int frames = 0, outer = 0, finished = 0, n = 0; bool inline_ok = true;
  hist(world &w) : w(w) {}
  ~hist() { for (auto *s : pending) (void)s; }
};
void step::choose() { mode = sym_int("mode", 0, 3); ec = sym_int("ec", 0, 3); v = sym_int("v", -100, 100); }
void step::initiate(sh x) {
  sym_assert(asio::get_associated_executor(x) == cobalt::executor(h.w.ctx.get_executor()), "steps run on the executor of the coroutine");
  switch (mode) {
  case at_once: { auto e = asio::get_associated_immediate_executor(x, h.w.ctx.get_executor()); e.execute([x = std::move(x), c = code(), v = v]() mutable { std::move(x)(c, v); }); break; }
  case posted: asio::post(h.w.ctx, asio::append(std::move(x), code(), v)); break;
  default: {
    auto s = x.get_cancellation_slot(); f.emplace(std::move(x)); h.pending.push_back(this);
    if (s.is_connected()) s.assign([this](asio::cancellation_type t) { sym_assert(f.has_value(), "only a pending step is cancelled"); got |= int(t); });
  } }
}
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
template <size_t N> struct filler { char b[N]; filler() { b[0] = 1; b[N - 1] = 2; } void check() { sym_assert(b[0] == 1 && b[N - 1] == 2, "the frame is left alone"); } };
template <class... A> std::tuple<A...> outcome_of(const error_code &e, int v) {
  if constexpr (sizeof...(A) == 0) return {};
  else if constexpr (sizeof...(A) == 1) return std::tuple<A...>(v);
  else if constexpr (std::is_same_v<std::tuple_element_t<1, std::tuple<A..., void>>, tok>) return std::tuple<A...>(e, tok(v));
  else return std::tuple<A...>(e, v);
}
// awaits up to STEPS operations, directly or through another composition
template <size_t N, class... A> struct comp final : cobalt::op<A...> {
  hist &h; int steps, kind; error_code ec; int sum = 0, starts = 0, inside = 0;
  comp(hist &h, int steps, int kind) : h(h), steps(steps), kind(kind) {}
  void initiate(cobalt::completion_handler<A...>) override {
    guard g(h.frames); filler<N> fill; starts++;
    for (int i = 0; i < steps; i++) {
      if (kind == 1 && i == 0) { // a nested composition
        comp<8, error_code, int> in(h, 1, 0);
        auto [e, v] = co_await in; sym_assert(e == in.ec && v == in.sum && h.frames == 1, "a nested composition delivers its values");
        sum += v; ec = e;
      } else if (kind == 2 && i == 0) { auto t = co_await asio::post(h.w.ctx, asio::deferred); static_assert(std::tuple_size_v<decltype(t)> == 0); }
      else if (kind == 3 && i == 0) { auto t = co_await asio::post(co_await cobalt::this_coro::executor, cobalt::use_op); static_assert(std::tuple_size_v<decltype(t)> == 0); }
      else {
        step s(h);
        auto [e, v] = co_await s; sym_assert(e == s.code() && v == s.v, "the values of a step arrive unchanged");
        sum += v; ec = e;
      }
      if (ec) break;
    }
    fill.check(); inside++;
    co_return outcome_of<A...>(ec, sum);
  }
};

inline void take(std::tuple<> &, error_code &, int &) {}
inline void take(std::tuple<int> &t, error_code &, int &v) { v = std::get<0>(t); }
template <class T> void take(std::tuple<error_code, T> &t, error_code &e, int &v) { e = std::get<0>(t); v = val(std::get<1>(t)); }
template <size_t N, class... A> cobalt::promise<void> outer(hist &h, comp<N, A...> &c, int style) {
  guard g(h.outer); long live = mem.live; int blocks = mem.blocks;
  bool threw = false, has_v = true; error_code e; int v = 0;
  if (style == 0) { auto t = co_await cobalt::as_tuple(c); static_assert(std::is_same_v<decltype(t), std::tuple<A...>>); take(t, e, v); }
  else if (style == 1) {
    auto r = co_await cobalt::as_result(c);
    if (r.has_error()) { has_v = false; if constexpr (sizeof...(A) == 2) e = r.error(); }
    else if constexpr (sizeof...(A) > 0) v = val(*r);
  } else {
    auto aw = c.operator co_await();
    void *first = aw.resource.allocate(64); aw.resource.deallocate(first, 64);
    try { if constexpr (sizeof...(A) == 0) co_await aw; else v = val(co_await aw); } catch (boost::system::system_error &x) { threw = true; e = x.code(); has_v = false; }
    void *again = aw.resource.allocate(64); sym_assert(first == again, "its frame is released before the awaiter continues"); aw.resource.deallocate(again, 64);
  }
  h.finished++;
  sym_assert(h.frames == 0, "its frame is destroyed before the awaiter continues");
  sym_assert(style == 2 ? mem.blocks == blocks : mem.blocks <= blocks + 1, "its frame is released before the awaiter continues"); (void)live;
  sym_assert(c.inside == 1 && c.starts == 1, "it ran once");
  sym_assert(e == (sizeof...(A) == 2 ? c.ec : error_code()), "the error it returned");
  sym_assert(threw == (style == 2 && !!e) && has_v == (style == 0 || !e), "an error throws only when awaited plainly");
  if (has_v && sizeof...(A) > 0) sym_assert(v == c.sum, "the values it returned");
  sym_assert(cobalt::this_thread::get_executor() == cobalt::executor(h.w.ctx.get_executor()), "on the executor of the awaiter");
  sym_reach(e ? "error" : "value");
}
template <size_t N, class... A> void run() {
  {
    mem_scope ms;
    {
      world w; hist h(w);
      int steps = sym_int("steps", 0, STEPS), kind = sym_int("kind", 0, 3); comp<N, A...> c(h, steps, kind);
      int style = sym_int("style", 0, 2); bool dropped = false;
      {
        auto p = outer(h, c, style);
        for (int k = 0; k <= STEPS; k++) {
          w.poll();
          if (h.pending.empty()) break;
          sym_assert(h.finished == 0 && h.outer == 1 && h.frames >= 1, "not before it returns");
          step *s = h.pending.back(); h.pending.pop_back();
          int act = sym_int("act", 0, 2);
          if (act < 2) s->complete(act);
          else { { auto f = std::move(*s->f); s->f.reset(); } dropped = true; sym_assert(h.frames == 0 && h.outer == 0 && mem.blocks == 0, "abandoned frames are destroyed and released"); sym_reach("dropped"); break; }
        }
        w.poll();
        if (!dropped) { sym_assert(h.finished == 1 && p.ready(), "the awaiter is resumed once"); p.get(); }
      }
      w.poll();
      sym_assert(h.frames == 0 && h.outer == 0, "destroyed once");
    }
    sym_assert(mem.blocks == 0 && mem.live == 0, "every block is released");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(comp_none) { run<8>(); }
HARNESS(comp_int) { run<8, int>(); }
HARNESS(comp_ec_int) { run<8, error_code, int>(); }
HARNESS(comp_ec_tok) { run<8, error_code, tok>(); }
HARNESS(comp_big_ec_int) { run<6000, error_code, int>(); } // frames that do not fit into the operation's buffer
HARNESS(comp_big_none) { run<6000>(); }
// values given to the initiating function
template <class... V> bool all_equal(int want[9], V &...v) { int i = 0; return ((val(v) == want[i++]) && ...); }
using ih = cobalt::completion_handler<int>;
int *expected;
#define BODY(...) filler<16> fill; bool ok = all_equal(expected __VA_OPT__(,) __VA_ARGS__); if (st) { auto got_ = co_await *st; (void)got_; ok = ok && all_equal(expected __VA_OPT__(,) __VA_ARGS__); } fill.check(); co_return std::tuple<int>(ok ? 1 : 0)
void f1(step *st, ih) { BODY(); }
void f2(step *st, tok a, ih) { BODY(a); }
void f3(step *st, tok a, int b, ih) { BODY(a, b); }
void f4(step *st, tok a, int b, tok c, ih) { BODY(a, b, c); }
void f5(step *st, tok a, int b, tok c, const int &d, ih) { BODY(a, b, c, d); }
void f6(step *st, tok a, int b, tok c, const int &d, tok &e, ih) { BODY(a, b, c, d, e); }
void f7(step *st, tok a, int b, tok c, const int &d, tok &e, int f, ih) { BODY(a, b, c, d, e, f); }
void f8(step *st, tok a, int b, tok c, const int &d, tok &e, int f, tok g, ih) { BODY(a, b, c, d, e, f, g); }
void f9(step *st, tok a, int b, tok c, const int &d, tok &e, int f, tok g, int i, ih) { BODY(a, b, c, d, e, f, g, i); }
struct args_op : cobalt::op<int> {
  int n; int *w; step *st; tok keep{0};
  void initiate(ih h) override {
    keep.v = w[4]; auto M = [](ih &h) -> ih && { return std::move(h); };
    switch (n) {
    case 1: f1(st, M(h)); break; case 2: f2(st, tok(w[0]), M(h)); break; case 3: f3(st, tok(w[0]), w[1], M(h)); break; case 4: f4(st, tok(w[0]), w[1], tok(w[2]), M(h)); break;
    case 5: f5(st, tok(w[0]), w[1], tok(w[2]), w[3], M(h)); break; case 6: f6(st, tok(w[0]), w[1], tok(w[2]), w[3], keep, M(h)); break; case 7: f7(st, tok(w[0]), w[1], tok(w[2]), w[3], keep, w[5], M(h)); break;
    case 8: f8(st, tok(w[0]), w[1], tok(w[2]), w[3], keep, w[5], tok(w[6]), M(h)); break; default: f9(st, tok(w[0]), w[1], tok(w[2]), w[3], keep, w[5], tok(w[6]), w[7], M(h)); break;
    }
  }
};
HARNESS(comp_args) {
  {
    world w; hist h(w); int vals[9]; for (auto &v : vals) v = sym_int("v", 0, 1000); expected = vals;
    step s(h); args_op o; o.n = sym_int("n", 1, 9); o.w = vals; o.st = sym_bool("suspends") ? &s : nullptr; int done = 0;
    auto body = [&]() -> cobalt::promise<void> { int r = co_await o; sym_assert(r == 1, "the values arrive unchanged and live as long as the operation"); sym_assert(tok::live == 1, "and are destroyed with it"); done++; };
    {
      auto p = body(); w.poll();
      if (s.f) { sym_assert(!done, "not before it returns"); s.complete(sym_bool("direct")); w.poll(); }
      sym_assert(done == 1 && p.ready(), "the awaiter is resumed once"); p.get();
    }
    sym_reach("end");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
// cancellation
template <class F> struct cancel_op : cobalt::op<error_code, int> {
  hist &h; int filter, seen[3] = {-1, -1, -1}, n = 0; step a, b;
  cancel_op(hist &h, int filter) : h(h), filter(filter), a(h), b(h) {}
  void initiate(cobalt::completion_handler<error_code, int>) override {
    guard g(h.frames);
    if (filter == 1) co_await cobalt::this_coro::reset_cancellation_state(asio::enable_partial_cancellation());
    else if (filter == 2) co_await cobalt::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation());
    else if (filter == 3) co_await cobalt::this_coro::reset_cancellation_state(asio::disable_cancellation());
    else if (filter == 4) co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation(), asio::enable_terminal_cancellation());
    int k = 0;
    for (step *s : {&a, &b}) {
      sym_assert(seen[k] == -1 && int(co_await cobalt::this_coro::cancelled) == (k ? seen[k - 1] : 0), "what was let through stays visible");
      co_await *s;
      seen[k++] = int(co_await cobalt::this_coro::cancelled);
    }
    co_return {error_code{}, 7};
  }
};
HARNESS(comp_cancel) {
  {
    world w; hist h(w); int filter = sym_int("filter", 0, 4); cancel_op<void> c(h, filter); step after(h); int done = 0;
    auto body = [&]() -> cobalt::promise<void> { auto [e, v] = co_await cobalt::as_tuple(c); sym_assert(!e && v == 7, "the values it returned"); done++; co_await cobalt::this_coro::throw_if_cancelled(false); co_await cobalt::as_tuple(after); done++; };
    {
      auto p = body();
      int total = 0;
      for (int i = 0; i < 3; i++) {
        w.poll();
        if (h.pending.empty()) break;
        step *s = h.pending.back(); h.pending.pop_back();
        int type = 0;
        if (sym_bool("cancel")) {
          int kind = sym_int("type", 0, 2); type = kind == 0 ? 1 : kind == 1 ? 2 : 4; p.cancel(asio::cancellation_type(type));
          if (s != &after) {
            int in = filter == 1 ? 3 : filter == 2 ? 1 : filter == 3 ? 0 : 7, out = filter == 4 ? 1 : in;
            total = type & in; // of the most recent one, as in asio
            sym_assert(s->got == (type & in & out), "reaches the operation awaited inside as far as the filters let it"); sym_reach(s->got ? "forwarded" : "filtered");
          } else { sym_assert(s->got == type, "afterwards it reaches what is awaited then"); sym_reach("afterwards"); }
        }
        s->complete(false); w.poll();
        if (s == &c.a) sym_assert(c.seen[0] == total, "visible inside exactly as far as the filter lets it through");
        if (s == &c.b) sym_assert(c.seen[1] == total, "visible inside exactly as far as the filter lets it through");
      }
      w.poll(); sym_assert(done == 2, "the awaiter is resumed once"); p.get();
    }
    sym_assert(h.frames == 0, "destroyed");
    sym_reach("end");
  }
  sym_done();
}
struct thrown { int id; };
struct throwing : cobalt::op<error_code, int> {
  hist &h; int id; throwing(hist &h, int id) : h(h), id(id) {}
  void initiate(cobalt::completion_handler<error_code, int>) override { guard g(h.frames); throw thrown{id}; co_return {error_code{}, 0}; }
};
HARNESS(comp_throws) { // before its first suspension
  {
    world w; hist h(w); throwing c(h, sym_int("id", 0, 9)); int got = -1, outer = 0;
    auto body = [&]() -> cobalt::promise<void> { guard g(outer); try { co_await c; } catch (thrown &t) { got = t.id; } };
    { auto p = body(); w.poll(); sym_assert(got == c.id && p.ready(), "what it throws surfaces in the awaiter"); p.get(); }
    sym_assert(outer == 0 && h.frames == 0, "everything is destroyed"); sym_reach("end");
  }
  sym_done();
}
HARNESS(comp_tokens) { // through a task that is spawned, so the handler belongs to something else
  {
    world w; hist h(w); comp<8, error_code, int> c(h, sym_int("steps", 0, 1), 0); int got = -1000, done = 0; error_code ec;
    auto body = [&]() -> cobalt::task<int> { auto [e, v] = co_await cobalt::as_tuple(c); ec = e; co_return v; };
    cobalt::spawn(w.ctx.get_executor(), body(), [&](std::exception_ptr e, int v) { sym_assert(!e, "no exception"); got = v; done++; });
    w.poll();
    if (!h.pending.empty()) { sym_assert(!done, "not before it returns"); h.pending.back()->complete(sym_bool("direct")); w.poll(); }
    sym_assert(done == 1 && got == c.sum && ec == c.ec, "the values it returned"); sym_reach("end");
  }
  sym_done();
}
