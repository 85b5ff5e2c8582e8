// C14: with(), for synchronous and asynchronous bodies with and without a value, and every kind of teardown
#include "common.hpp"
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/asio/append.hpp>
struct failure { int id; };
struct step : cobalt::op<error_code> { // completed by hand
  std::optional<cobalt::completion_handler<error_code>> h; int n = 0;
  void initiate(cobalt::completion_handler<error_code> f) override {
    n++; auto s = f.get_cancellation_slot(); h.emplace(std::move(f));
    if (s.is_connected()) s.assign([this](asio::cancellation_type) { complete(asio::error::operation_aborted); });
  }
  bool pending() const { return !!h; }
  void complete(error_code e = {}) { auto f = std::move(*h); h.reset(); auto s = f.get_cancellation_slot(); if (s.is_connected()) s.clear(); asio::post(asio::append(std::move(f), e)); }
};
struct hist {
  world &w; bool bsus = false, tsus = false, clears = false, replaces = false; int bfail = 0, tfail = 0; // 0 no, 1 throws at once, 2 throws after suspending
  step b, t; int bodies = 0, teardowns = 0, body_done = 0, teardown_done = 0, told = -1, result = 0, frames = 0, outer = 0; bool cancelled = false;
  int finished = 0, error = -1, value = -1;
  hist(world &w) : w(w) {}
};
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
struct res { // move-only
  static inline int live = 0;
  hist *h; bool moved = false; int id = 5;
  explicit res(hist &h) : h(&h) { live++; }
  res(res &&o) noexcept : h(o.h), id(o.id) { sym_assert(!o.moved, "not used after it was moved"); o.moved = true; live++; }
  ~res() { sym_assert(live > 0, "destroyed once"); live--; if (!moved && h) sym_assert(h->bodies == h->body_done && h->teardowns == h->teardown_done, "outlives the body and the teardown"); }
  cobalt::promise<void> await_exit(std::exception_ptr e);
};
int id_of(std::exception_ptr e) {
  if (!e) return -1;
  try { std::rethrow_exception(e); } catch (failure &f) { return f.id; } catch (boost::system::system_error &s) { return s.code() == asio::error::operation_aborted ? 50 : 51; } catch (std::exception &) { return 60; }
}
void tell(hist &h, std::exception_ptr e) {
  sym_assert(h.teardowns++ == 0, "the teardown runs once");
  sym_assert(h.bodies == 1 && h.body_done == 1, "after the body finished");
  h.told = id_of(e);
}
cobalt::promise<void> tear(hist &h) { // the asynchronous part
  guard g(h.frames);
  struct fin { hist &h; ~fin() { h.teardown_done++; } } f{h};
  if (h.tsus) co_await h.t;
  if (h.tfail) throw failure{2};
}
cobalt::promise<void> res::await_exit(std::exception_ptr e) { tell(*h, e); if (h->tfail == 3) { h->teardown_done++; throw failure{2}; } return tear(*h); }
cobalt::promise<void> tear_ref(res &&r, std::exception_ptr e) { tell(*r.h, e); if (r.h->tfail == 3) { r.h->teardown_done++; throw failure{2}; } return tear(*r.h); }
struct tear_obj {
  hist *h;
  template <class R> cobalt::promise<void> operator()(R &&r, std::exception_ptr &e) {
    tell(*h, e);
    if (h->clears) e = nullptr; else if (h->replaces) e = std::make_exception_ptr(failure{9});
    if (h->tfail == 3) { h->teardown_done++; throw failure{2}; }
    return tear(*h);
  }
};
template <class T> T make() { if constexpr (!std::is_void_v<T>) return T(7); }
template <class T> cobalt::promise<T> abody(res &r, bool) {
  hist &h = *r.h; guard g(h.frames);
  struct fin { hist &h; ~fin() { h.body_done++; } } f{h};
  if (h.bsus) co_await h.b;
  sym_assert(!r.moved && r.id == 5, "the body uses the resource");
  if (h.bfail) throw failure{1};
  if constexpr (!std::is_void_v<T>) co_return T(7);
}
template <class T> cobalt::promise<T> fbody(res &r) { hist &h = *r.h; h.bodies++; if (h.bfail == 2) { h.body_done++; throw failure{1}; } return abody<T>(r, true); }
template <class T> T sbody(res &r) { hist &h = *r.h; h.bodies++; h.body_done++; sym_assert(!r.moved && r.id == 5, "the body uses the resource"); if (h.bfail) throw failure{1}; return make<T>(); }
struct movable_fn { // a body with state of its own
  hist *h; tok t{3};
  cobalt::promise<int> operator()(res &r) && { sym_assert(t.v == 3, "the function outlives its coroutine"); h->bodies++; return run(r, this); }
  static cobalt::promise<int> run(res &r, movable_fn *self) {
    hist &h = *r.h; guard g(h.frames); struct fin { hist &h; ~fin() { h.body_done++; } } f{h};
    if (h.bsus) co_await h.b;
    sym_assert(self->t.v == 3, "the function outlives its coroutine");
    if (h.bfail) throw failure{1};
    co_return 7;
  }
};
template <class T, class Body, class... Td> cobalt::promise<void> outer(hist &h, int style, Body body, Td... td) {
  guard g(h.outer);
  std::exception_ptr e; int v = -1;
  try {
    if constexpr (std::is_void_v<T>) {
      if (style == 0) co_await cobalt::with(res(h), std::move(body), std::move(td)...);
      else { auto r = co_await cobalt::as_result(cobalt::with(res(h), std::move(body), std::move(td)...)); if (r.has_error()) e = r.error(); }
      v = 7;
    } else {
      if (style == 0) v = val(co_await cobalt::with(res(h), std::move(body), std::move(td)...));
      else { auto r = co_await cobalt::as_result(cobalt::with(res(h), std::move(body), std::move(td)...)); if (r.has_error()) e = r.error(); else v = val(*r); }
    }
  } catch (...) { e = std::current_exception(); }
  sym_assert(res::live == 0, "the resource is gone once with() completes");
  h.error = id_of(e); h.value = v; h.finished++;
}
template <class T, class Body, class... Td> void run(bool async, bool modifies, Body mk, Td... td) {
  {
    world w; hist h(w);
    if (async) h.bsus = sym_bool("body_suspends");
    h.bfail = sym_int("body_fails", 0, async ? 2 : 1);
    if (h.bfail == 2) h.bsus = false;
    h.tsus = sym_bool("teardown_suspends");
    h.tfail = sym_int("teardown_fails", 0, 1) * (sym_bool("sync") ? 3 : 1);
    if (modifies) { h.clears = sym_bool("clears"); h.replaces = !h.clears && sym_bool("replaces"); }
    int style = sym_int("style", 0, 1);
    bool drop = false;
    {
      std::optional<cobalt::promise<void>> c;
      if constexpr (sizeof...(td) > 0) c.emplace(outer<T>(h, style, mk(&h), td(&h)...)); else c.emplace(outer<T>(h, style, mk(&h)));
      sym_assert(h.bodies == 1, "the body starts at once");
      for (step *s : {&h.b, &h.t}) {
        w.poll();
        if (!s->pending()) continue;
        sym_assert(!h.finished, "not before everything is done");
        sym_assert(res::live >= 1, "the resource lives");
        int act = sym_int("act", 0, 2);
        if (act == 0) s->complete();
        else if (act == 1) { c->cancel(); h.cancelled = true; sym_assert(!s->pending(), "a cancellation is forwarded"); (s == &h.b ? h.bfail : h.tfail) = 7; }
        else { // the operation is abandoned: everything waiting for it is destroyed
          s->h.reset(); drop = true;
          sym_assert(h.frames == 0 && h.outer == 0 && res::live == 0, "abandoned frames and the resource are destroyed"); sym_reach("abandoned");
        }
        if (drop) break;
      }
      w.poll();
      if (!drop) {
        sym_assert(h.finished == 1 && c->ready(), "the awaiter is resumed once");
        int be = h.bfail == 7 ? 50 : h.bfail ? 1 : -1, te = h.tfail == 7 ? 50 : h.tfail ? 2 : -1;
        sym_assert(h.teardowns == 1 && h.told == be, "the teardown is told about the exception of the body");
        int after = h.clears ? -1 : h.replaces ? 9 : be;
        int want = after >= 0 ? after : te;
        if (h.clears && be >= 0 && want < 0 && !std::is_void_v<T>) { sym_assert(h.error == 60, "no value, and no exception left to rethrow"); sym_reach("cleared"); }
        else { sym_assert(h.error == want, "the first error wins"); if (want < 0) { sym_assert(h.value == 7, "the value of the body"); sym_reach("value"); } else sym_reach("error"); }
        c->get();
      }
    }
    w.poll();
    sym_assert(h.frames == 0 && h.outer == 0 && res::live == 0, "everything is destroyed once");
  }
  sym_assert(tok::live == 0 && res::live == 0, "everything is destroyed once");
  sym_done();
}
template <class T> auto F() { return [](hist *) { return &fbody<T>; }; }
template <class T> auto S() { return [](hist *) { return &sbody<T>; }; }
auto O() { return [](hist *h) { return tear_obj{h}; }; }
auto R() { return [](hist *) { return &tear_ref; }; }
HARNESS(with_async_void_member) { run<void>(true, false, F<void>()); }
HARNESS(with_async_void_fn) { run<void>(true, false, F<void>(), R()); }
HARNESS(with_async_void_obj) { run<void>(true, true, F<void>(), O()); }
HARNESS(with_async_tok_member) { run<tok>(true, false, F<tok>()); }
HARNESS(with_async_tok_obj) { run<tok>(true, true, F<tok>(), O()); }
HARNESS(with_sync_void_obj) { run<void>(false, true, S<void>(), O()); }
HARNESS(with_sync_tok_obj) { run<tok>(false, true, S<tok>(), O()); }
HARNESS(with_sync_void_member) { run<void>(false, false, S<void>()); }
HARNESS(with_sync_tok_member) { run<tok>(false, false, S<tok>()); }
HARNESS(with_sync_tok_fn) { run<tok>(false, false, S<tok>(), R()); }
HARNESS(with_functor) { run<int>(true, false, [](hist *h) { return movable_fn{h}; }, O()); }
HARNESS(with_unused) { // never awaited
  {
    world w; hist h(w);
    { auto x = cobalt::with(res(h), &fbody<int>, tear_obj{&h}); sym_assert(h.bodies == 0, "nothing runs before it is awaited"); (void)x; }
    sym_assert(res::live == 0, "an unused with() releases its resource");
    sym_assert(h.bodies == 0 && h.teardowns == 0, "and runs nothing");
    sym_reach("end");
  }
  sym_done();
}
HARNESS(with_gathered) { // two of them concurrently
  {
    world w; hist a(w), b(w); int done = 0;
    for (auto *h : {&a, &b}) { h->bsus = sym_bool("body_suspends"); h->bfail = sym_int("body_fails", 0, 1); h->tsus = sym_bool("teardown_suspends"); }
    auto body = [&]() -> cobalt::promise<void> {
      auto [x, y] = co_await cobalt::gather(cobalt::with(res(a), &fbody<int>, tear_obj{&a}), cobalt::with(res(b), &fbody<void>, tear_obj{&b}));
      sym_assert(x.has_error() == (a.bfail != 0) && y.has_error() == (b.bfail != 0), "each its own outcome");
      if (x.has_value()) sym_assert(*x == 7, "the value of the body");
      done++;
    };
    auto c = body();
    for (int k = 0; k < 4; k++) {
      w.poll();
      step *s[4] = {&a.b, &a.t, &b.b, &b.t}; int n = 0; for (auto *x : s) n += x->pending();
      if (!n) break;
      sym_assert(!done, "not before everything is done");
      int i = sym_int("which", 0, 3); sym_assume(s[i]->pending()); s[i]->complete();
    }
    w.poll();
    sym_assert(done == 1 && c.ready() && a.teardowns == 1 && b.teardowns == 1, "both torn down once"); c.get();
    sym_assert(res::live == 0 && a.frames == 0 && b.frames == 0, "everything is destroyed once");
    sym_reach("end");
  }
  sym_done();
}
