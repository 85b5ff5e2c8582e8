// C07: generators under every short history of awaits, get(), interrupted awaits, moves, cancellation and destruction
#include "comb.hpp"
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
struct rec {
  int frames = 0, started = 0, produced = 0, finished = 0, aborted = 0, npush = 0, push[16], passed = 0; // passed: items whose yield was resumed
  int yields = 0, consumed = 0, pending = 0; bool lazy = false, throws = false, attached = true, nested = false, interrupted = false, pushes = false;
  // see known finding C07-lazy-late: generator/lazy_generator_left_race expects these to run ahead
  bool ahead() const { return lazy && interrupted && !pushes; }
  void check() {
    if (!attached) return;
    sym_assert(produced <= consumed + 1 + ahead(), "a generator runs ahead by at most one value");
    if (lazy && !interrupted) sym_assert(produced <= consumed + pending, "a lazy generator produces nothing before it is awaited");
  }
};
struct guard { rec &r; guard(rec &r) : r(r) { r.frames++; } ~guard() { r.frames--; } };
template <class Y> Y item(int i) { return Y(10 + i); }
template <class P> P mkpush(int i) { if constexpr (!std::is_void_v<P>) return P(1000 + i); }
template <class Y, class P> cobalt::generator<Y, P> body(world &w, rec &r, int suspend_at) {
  guard g(r);
  auto got = [&](auto &&x) { r.push[r.npush++] = val(x); };
  if (r.lazy) {
    if constexpr (std::is_void_v<P>) co_await cobalt::this_coro::initial;
    else { auto &&p = co_await cobalt::this_coro::initial; got(p); }
    sym_reach("lazy start");
  }
  r.started = 1;
  for (int i = 0;; i++) {
    try { if (suspend_at & (1 << i)) co_await w.yield(); }
    catch (boost::system::system_error &e) { sym_assert(e.code() == asio::error::operation_aborted, "only a cancellation ends the body"); r.aborted = 1; break; }
    if (i == r.yields) break;
    r.produced++; r.check();
    if constexpr (std::is_void_v<P>) co_yield item<Y>(i);
    else { auto &&p = co_yield item<Y>(i); got(p); }
    r.passed = i + 1;
  }
  r.finished = 1; r.produced++; r.check();
  if (r.throws && !r.aborted) throw failure{5};
  co_return item<Y>(r.aborted ? 90 : r.yields);
}
// receives one item
void receive(rec &r, int v, int failed) {
  int i = r.consumed++;
  if (failed >= 0) sym_assert(failed == 5 && r.throws && i == r.yields && r.finished, "the exception surfaces where the last value would have");
  else if (r.aborted && r.finished && v == 100) sym_assert(r.consumed == r.produced, "the last value of a cancelled generator");
  else { sym_assert(v == 10 + i, "values arrive once and in order"); sym_assert(!(r.throws && i == r.yields), "an exception is not swallowed"); }
  sym_reach(failed >= 0 ? "exception" : "value");
}
template <class Y, class P> auto next(cobalt::generator<Y, P> &g, P *p) { if constexpr (std::is_void_v<P>) return g.operator co_await(); else return g(std::move(*p)); }
struct trigger { // completes when asked to
  std::coroutine_handle<> h;
};
struct trigger_aw {
  trigger &t;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { t.h = h; }
  void await_resume() { t.h = nullptr; }
  void interrupt_await() & { if (t.h) std::exchange(t.h, nullptr).resume(); }
};
struct hist { int sent[16], nsent = 0, nominal[16]; };
template <class Y, class P> cobalt::promise<void> take(cobalt::generator<Y, P> &g, rec &r, hist &h, int style, trigger *t) {
  r.pending++;
  int k = h.nsent;
  auto send = [&] { h.sent[h.nsent] = 1000 + h.nsent; h.nominal[h.nsent] = 1; h.nsent++; return mkpush<std::conditional_t<std::is_void_v<P>, int, P>>(h.nsent - 1); };
  auto p = send(); auto *pp = &p;
  auto aw = [&] { if constexpr (std::is_void_v<P>) return g.operator co_await(); else return g(std::move(*pp)); };
  int v = 0, failed = -1; bool interrupted = false;
  try {
    if (t) {
      auto a = aw(); trigger_aw b{*t};
      auto x = co_await cobalt::left_race(a, b);
      if (x.index() == 1) interrupted = true; else v = val(boost::variant2::get<0>(x));
    }
    else if (style == 0) { auto x = co_await aw(); v = val(x); }
    else if (style == 1) { auto x = co_await cobalt::as_result(aw()); if (x.has_error()) std::rethrow_exception(x.error()); v = val(*x); }
    else { auto [e, x] = co_await cobalt::as_tuple(aw()); if (e) std::rethrow_exception(e); v = val(x); }
  } catch (failure &f) { failed = f.id; }
  if (interrupted) { h.nominal[k] = 0; r.interrupted = true; sym_reach("interrupted"); }
  else { if (failed >= 0) h.nominal[k] = 0; receive(r, v, failed); }
  r.pending--;
}
template <class Y, class P> void history(int steps, int maxyields, bool throws, int styles, bool interrupts, bool moves, bool control) {
  {
    world w; rec r; hist h; trigger t{};
    r.yields = sym_int("yields", 0, maxyields);
    r.lazy = sym_bool("lazy"); r.pushes = !std::is_void_v<P>;
    r.throws = throws && sym_bool("throws");
    if (interrupts && !r.pushes) sym_assume(!(r.lazy && r.throws)); // known finding C07-lazy-late
    int sus = sym_int("suspensions", 0, (1 << (maxyields + 1)) - 1);
    sym_assume(sus < (1 << (r.yields + 1)));
    {
      using gen = cobalt::generator<Y, P>;
      std::optional<gen> g[2]; int cur = 0;
      g[0].emplace(body<Y, P>(w, r, sus));
      sym_assert(!r.lazy == (r.started || false), "an eager generator starts at once, a lazy one does not");
      std::optional<cobalt::promise<void>> c; bool cancelled = false, gets = false;
      auto idle = [&] { return !c || c->ready(); };
      for (int s = 0; s < steps; s++) {
        int op = sym_int("op", 0, control ? 6 : moves ? 4 : interrupts ? 3 : 2);
        if (op == 0) { w.ctx.restart(); w.ctx.poll_one(); }
        else if (op == 1) { // await
          sym_assume(idle() && *g[cur]); c.reset();
          c.emplace(take(*g[cur], r, h, styles ? sym_int("style", 0, styles) : 0, nullptr));
        } else if (op == 2) { // take a value that is there
          sym_assume(idle() && *g[cur] && g[cur]->ready());
          if (interrupts) sym_assume(!r.finished || !r.throws || r.consumed < r.yields);
          int v = 0, f = -1; try { auto x = g[cur]->get(); v = val(x); } catch (failure &e) { f = e.id; }
          receive(r, v, f); gets = true; sym_reach("get");
          if (f >= 0) { sym_assert(r.finished, "end"); break; }
        } else if (op == 3) { // await, interrupted by a race
          if (!interrupts) { sym_assume(false); }
          else if (t.h) { std::exchange(t.h, nullptr).resume(); }
          else { sym_assume(idle() && *g[cur]); c.reset(); c.emplace(take(*g[cur], r, h, 0, &t)); }
        } else if (op == 4) { // move
          sym_assume(moves && idle()); c.reset();
          if (!g[1 - cur]) g[1 - cur].emplace(std::move(*g[cur])); else *g[1 - cur] = std::move(*g[cur]);
          if (sym_bool("destroy_source")) g[cur].reset();
          cur = 1 - cur; sym_reach("moved");
        } else if (op == 5) { g[cur]->cancel(); cancelled = true; }
        else { sym_assume(idle()); break; } // destroy
        r.check();
        if (op == 0 && !r.ahead()) sym_assert(idle() || !g[cur]->ready(), "an available value is delivered to whoever awaits it");
        if (idle()) sym_assert(!!*g[cur] == (r.consumed <= r.yields && !(r.finished && r.consumed == r.produced)), "the generator is true until its last value was taken");
        if (!cancelled) sym_assert(!r.aborted, "nobody cancels the generator");
      }
      if (!sym_bool("drain")) { // destroy it here, with or without an outstanding await
        sym_assume(idle());
        r.attached = false; sym_reach("dropped");
      } else {
        if (t.h) std::exchange(t.h, nullptr).resume();
        w.poll();
        sym_assert(idle() , "an await completes with the next value");
        for (int k = 0; k < 8 && *g[cur]; k++) {
          sym_assume(!r.throws || r.consumed <= r.yields);
          c.reset(); c.emplace(take(*g[cur], r, h, 0, nullptr)); w.poll();
          sym_assert(c->ready(), "every await gets a value until the end");
          if (!r.lazy && !gets && !r.interrupted && !cancelled) sym_assert(r.finished || r.produced == r.consumed + 1, "an eager generator runs ahead by one value");
        }
        c->ready();
        sym_assert(r.finished && r.consumed == r.produced, "all values were received");
        if constexpr (!std::is_void_v<P>) { // pushes: in order, each once; those whose await delivered a value reach the body
          int k = 0;
          for (int i = 0; i < r.npush; i++) {
            while (k < h.nsent && h.sent[k] != r.push[i]) { sym_assert(!h.nominal[k], "no pushed value is skipped"); k++; }
            sym_assert(k < h.nsent, "the pushed values arrive once and in order"); k++;
          }
          sym_reach("pushes");
        }
        if (r.aborted) sym_reach("aborted");
      }
    }
    try { w.poll(); } catch (failure &) { sym_assert(!r.attached && r.throws, "only an abandoned generator throws into the event loop"); }
    sym_assert(r.frames == 0, "the coroutine is gone with its generator");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(gen_void) { history<int, void>(TIER ? 6 : 4, TIER ? 3 : 2, true, 2, false, false, false); }
HARNESS(gen_push) { history<tok, int>(TIER ? 6 : 4, TIER ? 3 : 2, false, 0, false, false, false); }
HARNESS(gen_push_tok) { history<int, tok>(TIER ? 5 : 3, 2, true, 2, false, false, false); }
HARNESS(gen_interrupt) { history<int, void>(TIER ? 6 : 4, 2, false, 0, true, false, false); }
HARNESS(gen_interrupt_push) { history<int, int>(TIER ? 6 : 4, 2, false, 0, true, false, false); }
HARNESS(gen_move) { history<tok, void>(TIER ? 6 : 4, 2, true, 0, true, true, false); }
HARNESS(gen_move_push) { history<int, tok>(TIER ? 5 : 4, 2, false, 0, true, true, false); }
HARNESS(gen_control) { history<tok, tok>(TIER ? 5 : 4, 2, false, 0, false, true, true); }
// one generator assigned over another, each lazy or eager and at any point of its life
template <class Y, class P> void assign() {
  {
    world w; rec r[2]; hist h[2];
    {
      using gen = cobalt::generator<Y, P>;
      std::optional<gen> g[2];
      for (int i = 0; i < 2; i++) {
        r[i].yields = sym_int("yields", i ? 1 : 0, 2); r[i].lazy = sym_bool("lazy"); r[i].pushes = !std::is_void_v<P>;
        g[i].emplace(body<Y, P>(w, r[i], sym_int("suspensions", 0, 1)));
      }
      auto read = [&](gen &x, int i) {
        auto c = take(x, r[i], h[i], 0, nullptr);
        w.poll();
        sym_assert(c.ready(), "every await gets a value until the end"); c.get();
        if (!r[i].lazy) sym_assert(r[i].finished || r[i].produced == r[i].consumed + 1, "an eager generator runs ahead by one value");
        r[i].check();
      };
      for (int i = 0; i < 2; i++) for (int n = sym_int("reads", 0, 1); n > 0 && *g[i]; n--) read(*g[i], i);
      r[0].attached = false;
      *g[0] = std::move(*g[1]);
      if (sym_bool("destroy_source")) g[1].reset();
      if (sym_bool("run")) w.poll();
      sym_assert(g[0]->ready() == (r[1].produced > r[1].consumed), "the handle reports the assigned generator");
      while (*g[0]) read(*g[0], 1);
      sym_assert(r[1].finished && r[1].consumed == r[1].produced, "all values of the assigned generator were received");
      sym_reach(r[0].lazy ? r[1].lazy ? "lazy to lazy" : "eager over lazy" : r[1].lazy ? "lazy over eager" : "eager to eager");
    }
    w.poll();
    for (auto &x : r) sym_assert(x.frames == 0, "the coroutine is gone with its generator");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(gen_assign) { assign<tok, void>(); }
HARNESS(gen_assign_push) { assign<int, tok>(); }
// the values of a lazy generator once an await was interrupted while the body was busy
HARNESS(gen_lazy_late) {
  world w; rec r; hist h; trigger t{};
  r.yields = sym_int("yields", 0, 2); r.lazy = true;
  {
    auto g = body<int, void>(w, r, (1 << (r.yields + 1)) - 1);
    { auto c = take(g, r, h, 0, &t); std::exchange(t.h, nullptr).resume(); sym_assert(c.ready(), "interrupted"); }
    auto c = take(g, r, h, 0, nullptr);
    w.ctx.restart(); w.ctx.poll_one();
    sym_assert(r.produced >= 1, "the body has run");
    sym_assert(c.ready(), "a value yielded by a lazy generator reaches its awaiter at once also after an interrupted await");
    sym_reach("at once");
  }
  w.poll();
  sym_done();
}
HARNESS(gen_noop) {
  world w; rec r; hist h;
  int v = sym_int("v", -1000, 1000);
  cobalt::generator<int> g = cobalt::noop<int>(int(v));
  if (sym_bool("move")) { cobalt::generator<int> t(std::move(g)); g = std::move(t); }
  sym_assert(g.ready() && !!g, "has its value");
  auto c = [&]() -> cobalt::promise<int> { co_return co_await g; }();
  w.poll();
  sym_assert(c.ready() && c.get() == v && !g, "delivers it once");
  sym_reach("end");
  sym_done();
}
