// C06: promises through every short history of moves, assignments, cancellation, awaiting and destruction
#include "common.hpp"
#include <optional>

struct rec { int frames = 0, pos = 0, yields = 0, delivered = 0, results = 0; bool escaped = false, aborted = false, expect_abort = false, finished = false, failed = false; };
struct failure { int id; };
struct guard { rec &r; guard(rec &r) : r(r) { r.frames++; } ~guard() { r.frames--; } };

template <class T> T make(int id) { if constexpr (std::is_void_v<T>) return; else return T(id); }
template <class T> cobalt::promise<T> body(world &w, rec &r, int id, bool may_throw) {
  guard g(r);
  try {
    while (r.pos < r.yields) { r.pos++; co_await w.yield(); }
  } catch (boost::system::system_error &e) {
    sym_assert(e.code() == asio::error::operation_aborted, "only a cancellation ends the body early");
    r.aborted = true;
  }
  r.finished = true;
  if (may_throw && sym_bool("throws")) { r.failed = true; throw failure{id}; }
  if constexpr (std::is_void_v<T>) co_return; else co_return T(id);
}
// awaits a promise and checks it delivers what the coroutine produced; style: plain, as_result, as_tuple
template <class T> cobalt::promise<void> await_it(cobalt::promise<T> &p, rec &r, int id, int style) {
  int got = -1; bool failed = false;
  try {
    if constexpr (std::is_void_v<T>) {
      if (style == 3 && p.ready()) { p.get(); got = id; sym_reach("get"); }
      else if (style == 0 || style == 3) { co_await p; got = id; }
      else if (style == 1) { auto x = co_await cobalt::as_result(p); if (x.has_error()) std::rethrow_exception(x.error()); got = id; }
      else { auto [e] = co_await cobalt::as_tuple(p); if (e) std::rethrow_exception(e); got = id; }
    } else {
      if (style == 3 && p.ready()) { got = val(p.get()); sym_reach("get"); }
      else if (style == 0 || style == 3) got = val(co_await p);
      else if (style == 1) { auto x = co_await cobalt::as_result(p); if (x.has_error()) std::rethrow_exception(x.error()); got = val(*x); }
      else { auto [e, v] = co_await cobalt::as_tuple(p); if (e) std::rethrow_exception(e); got = val(v); }
    }
  } catch (failure &f) { got = f.id; failed = true; }
  r.delivered++;
  sym_assert(got == id, "the awaiter gets what this coroutine produced");
  sym_assert(r.finished, "the awaiter resumes after the coroutine finished");
  sym_assert(failed == r.failed, "an exception is delivered exactly when one was thrown");
  sym_reach(failed ? "exception" : "value");
}
template <class T> void history(int coros, int slots, int steps, int maxyields, bool may_throw, bool styles) {
  {
    world w; rec r[3];
    {
    std::optional<cobalt::promise<T>> s[4]; int id[4]; // id: which coroutine, -1: none or moved from
    std::optional<cobalt::promise<void>> aw[4]; bool awaited[4] = {}, attached[4] = {};
    for (int i = 0; i < slots; i++) id[i] = -1;
    for (int i = 0; i < coros; i++) {
      r[i].yields = sym_int("yields", 0, maxyields);
      s[i].emplace(body<T>(w, r[i], i, may_throw)); id[i] = i; attached[i] = true;
    }
    auto busy = [&](int i) { return awaited[i] && !aw[i]->ready(); };
    auto cancel = [&](int i) { if (id[i] >= 0 && !r[id[i]].finished && r[id[i]].pos < r[id[i]].yields) r[id[i]].expect_abort = true; };
    auto run = [&](bool one) { // the exception of an abandoned coroutine goes to whoever runs the executor
      for (bool again = true; again; ) {
        again = false;
        try { w.ctx.restart(); if (one) w.ctx.poll_one(); else w.ctx.poll(); }
        catch (failure &f) {
          for (int i = 0; i < slots; i++) sym_assert(id[i] != f.id, "the exception of a coroutine goes to its promise");
          sym_assert(r[f.id].failed && !r[f.id].escaped, "the exception of an abandoned coroutine leaves it once");
          r[f.id].escaped = true; again = !one;
          sym_reach("escaped");
        }
      }
    };
    for (int k = 0; k < steps; k++) {
      int op = sym_int("op", 0, 6);
      if (op == 0) { run(true); }
      else {
        int a = sym_int("slot", 0, slots - 1);
        if (op == 4 || op == 5 || op == 6) sym_assume(id[a] >= 0 && !busy(a)); else sym_assume(s[a].has_value() && !busy(a));
        if (op == 1) { // move construct
          int b = sym_int("to", 0, slots - 1);
          sym_assume(!s[b].has_value());
          s[b].emplace(std::move(*s[a])); id[b] = id[a]; attached[b] = attached[a]; awaited[b] = awaited[a]; if (aw[a]) aw[b].emplace(std::move(*aw[a])), aw[a].reset();
          id[a] = -1; attached[a] = awaited[a] = false;
        } else if (op == 2) { // move assign
          int b = sym_int("to", 0, slots - 1);
          sym_assume(b != a && s[b].has_value() && !busy(b));
          if (attached[b]) cancel(b);
          *s[b] = std::move(*s[a]); id[b] = id[a]; attached[b] = attached[a]; awaited[b] = awaited[a]; aw[b].reset(); if (aw[a]) aw[b].emplace(std::move(*aw[a])), aw[a].reset();
          id[a] = -1; attached[a] = awaited[a] = false;
          sym_reach("assigned");
        } else if (op == 3) { // destroy
          if (attached[a]) cancel(a);
          s[a].reset(); id[a] = -1; attached[a] = awaited[a] = false; aw[a].reset();
        } else if (op == 4) { cancel(a); s[a]->cancel(); }
        else if (op == 5) { if (attached[a]) s[a]->detach(); else s[a]->attach(); attached[a] = !attached[a]; }
        else {
          sym_assume(!awaited[a]);
          aw[a].emplace(await_it(*s[a], r[id[a]], id[a], styles ? sym_int("style", 0, 3) : 0)); awaited[a] = true;
        }
      }
      for (int i = 0; i < slots; i++)
        if (id[i] >= 0) {
          sym_assert(s[i]->ready() == r[id[i]].finished, "ready() reports completion");
          sym_assert(s[i]->attached() == attached[i], "attached() reports the state");
          sym_assert(!!*s[i] == !(awaited[i] && r[id[i]].finished), "operator bool reports whether it can be awaited");
        } else if (s[i]) sym_assert(!s[i]->attached(), "a moved-from handle is attached to nothing");
    }
    run(false);
    for (int i = 0; i < slots; i++)
      if (id[i] >= 0 && !awaited[i]) {
        sym_assert(s[i]->ready() && !!*s[i], "a finished promise can be awaited");
        aw[i].emplace(await_it(*s[i], r[id[i]], id[i], styles ? sym_int("style", 0, 3) : 0)); awaited[i] = true;
      }
    w.poll();
    for (int i = 0; i < slots; i++)
      if (id[i] >= 0) {
        sym_assert(aw[i]->ready(), "the awaiter is resumed");
        aw[i]->get();
        sym_assert(r[id[i]].delivered == 1, "the outcome is delivered once");
        sym_assert(!*s[i], "an awaited promise cannot be awaited again");
      }
    }
    for (int i = 0; i < coros; i++) {
      sym_assert(r[i].frames == 0 && r[i].finished, "every coroutine ran to its end and its frame is destroyed once");
      sym_assert(r[i].delivered + r[i].escaped <= 1, "an outcome surfaces at most once");
      sym_assert(r[i].aborted == r[i].expect_abort, "a coroutine is cancelled exactly when its promise was cancelled, or destroyed while attached");
      if (r[i].aborted) sym_reach("aborted");
    }
  }
  sym_assert(tok::live == 0, "every result is destroyed once");
  sym_done();
}
HARNESS(prom_tok) { history<tok>(2, 3, TIER ? 4 : 3, TIER ? 2 : 2, false, false); }
HARNESS(prom_throw) { history<int>(2, 2, TIER ? 4 : 3, 1, true, false); }
HARNESS(prom_void) { history<void>(2, 3, TIER ? 4 : 3, 1, false, true); }
HARNESS(prom_one) { history<tok>(1, 3, TIER ? 6 : 4, 2, true, true); }
HARNESS(prom_noop) { // promises that are born completed
  int v = sym_int("v", -1000, 1000);
  {
    world w; rec r; r.finished = true;
    cobalt::promise<int> p = cobalt::noop<int>(int(v)), q = cobalt::noop<int>(int(v + 1));
    if (sym_bool("move")) { cobalt::promise<int> t(std::move(p)); p = std::move(t); }
    if (sym_bool("swap")) { cobalt::promise<int> t(std::move(p)); p = std::move(q); q = std::move(t); sym_assert(p.get() == v + 1 && q.get() == v, "values move with their promise"); }
    else {
      sym_assert(p.ready() && !!p && !p.attached(), "a noop promise is ready");
      auto a = await_it(p, r, v, sym_int("style", 0, 2));
      w.poll();
      sym_assert(a.ready() && r.delivered == 1, "it delivers its value"); a.get();
    }
    sym_reach("end");
  }
  sym_done();
}

HARNESS(prom_twice) { // only one coroutine may await a promise
  {
    world w; rec r; r.yields = sym_int("yields", 0, 2);
    cobalt::promise<int> p = body<int>(w, r, 7, true);
    int errors = 0, values = 0;
    auto awaiter = [&](int style) -> cobalt::promise<void> {
      try {
        if (style == 0) { sym_assert(co_await p == 7, "the value"); values++; }
        else if (style == 1) { auto x = co_await cobalt::as_result(p); if (x.has_error()) std::rethrow_exception(x.error()); sym_assert(*x == 7, "the value"); values++; }
        else { auto [e, v] = co_await cobalt::as_tuple(p); if (e) std::rethrow_exception(e); sym_assert(v == 7, "the value"); values++; }
      } catch (failure &) { values++; }
      catch (boost::system::system_error &e) { sym_assert(e.code() == cobalt::error::already_awaited, "the second awaiter is told so"); errors++; }
    };
    bool early = !p.ready();
    auto a = awaiter(sym_int("style", 0, 2));
    if (early) { auto b = awaiter(sym_int("style2", 0, 2)); sym_assert(b.ready() && errors == 1 && values == 0, "a second awaiter fails at once"); b.get(); sym_reach("second"); }
    w.poll();
    sym_assert(a.ready() && values == 1 && errors == early, "the first awaiter gets the outcome"); a.get();
  }
  sym_done();
}
