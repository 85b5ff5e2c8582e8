// C18: what a cancellation does to a coroutine: filters, state, forwarding, throw_if_cancelled
#include "common.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/asio/append.hpp>
#include <optional>
#include <vector>
using ct = asio::cancellation_type;
static unsigned u(ct c) { return static_cast<unsigned>(c); }
static constexpr unsigned TOTAL = 7; // terminal, partial and total
struct filt { unsigned m; ct operator()(ct t) const { return static_cast<ct>(u(t) & m); } };
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
struct awaited { // an awaitable that records what its cancellation handler gets
  int pending = 0, calls = 0; unsigned got = 0; bool keep = false;
  cobalt::unique_handle<void> h{nullptr}; asio::cancellation_slot slot;
  void fire() { pending = 0; if (slot.is_connected()) slot.clear(); slot = {}; h.release().resume(); }
};
struct slotop {
  awaited &a;
  bool await_ready() const { return false; }
  template <class P> void await_suspend(std::coroutine_handle<P> h) {
    a.pending = 1; a.h.reset(static_cast<void *>(nullptr)); a.h = cobalt::unique_handle<void>::from_address(h.address()); a.got = 0; a.calls = 0;
    a.slot = h.promise().get_cancellation_slot();
    if (a.slot.is_connected()) a.slot.assign([p = &a](ct t) { sym_assert(p->pending, "only while it is awaited"); p->got = u(t); p->calls++; });
  }
  void await_resume() { }
};
struct rec {
  awaited op; int steps = 0, frames = 0, done = 0, escaped = 0, wraps = 0;
  unsigned in = TOTAL, out = TOTAL, seen = 0; bool thr = true, connected = true;
  void *self = nullptr; void (*send)(void *, ct) = nullptr;
  asio::cancellation_signal sig;
  void emit(ct t) { // the model of one signal, then the real one
    unsigned v = u(t); bool arrives = true;
    for (int i = 0; i < wraps; i++) { v &= TOTAL; if (!v) arrives = false; }
    unsigned want = op.got; int calls = op.calls;
    if (arrives) { seen = v & in; if (op.pending && (seen & out)) { want = seen & out; calls++; } }
    send(self, t);
    sym_assert(op.calls == calls, "forwarded to what is awaited exactly when the filters let it through");
    sym_assert(op.got == want, "what is awaited gets what the filters let through");
  }
};
static ct any(const char *n) { return static_cast<ct>((unsigned)sym_u64(n)); }
template <class R> constexpr bool is_det = std::is_same_v<R, cobalt::detached>;
template <class R> R body(rec &r) {
  guard g(r.frames);
  if constexpr (is_det<R>) co_await cobalt::this_coro::reset_cancellation_source(r.sig.slot());
  for (int i = 0; i < r.steps; i++) {
    int what = sym_int("step", 0, 5);
    switch (what) {
    case 0: co_await asio::this_coro::reset_cancellation_state(); r.in = r.out = TOTAL; r.seen = 0; sym_reach("reset"); break;
    case 1: { unsigned m = (unsigned)sym_u64("filter"); co_await asio::this_coro::reset_cancellation_state(filt{m}); r.in = r.out = m; r.seen = 0; sym_reach("filter"); break; }
    case 2: { unsigned m = (unsigned)sym_u64("in"), o = (unsigned)sym_u64("out"); co_await asio::this_coro::reset_cancellation_state(filt{m}, filt{o}); r.in = m; r.out = o; r.seen = 0; sym_reach("filters"); break; }
    case 3: { bool b = sym_bool("throw"); co_await cobalt::this_coro::throw_if_cancelled(b); r.thr = b; break; }
    case 4: if (r.send) r.emit(any("own_signal")); break;
    default: {
      bool thrown = false, expect = r.thr && r.seen;
      try { co_await slotop{r.op}; }
      catch (boost::system::system_error &e) { thrown = true; sym_assert(e.code() == asio::error::operation_aborted, "it throws operation_aborted"); }
      sym_assert(thrown == expect, "the await throws exactly when cancelled and enabled");
      if (thrown) sym_reach("thrown"); else sym_reach("awaited");
    } }
    sym_assert(u(co_await cobalt::this_coro::cancelled) == r.seen, "the signal is visible as far as the filter lets it through");
    auto st = co_await asio::this_coro::cancellation_state;
    sym_assert(u(st.cancelled()) == r.seen, "also in the cancellation state");
    sym_assert((co_await cobalt::this_coro::throw_if_cancelled()) == r.thr, "throw_if_cancelled reads back");
  }
  r.done++;
  if constexpr (!is_det<R> && !std::is_same_v<R, cobalt::promise<void>> && !std::is_same_v<R, cobalt::task<void>>) co_return 1;
}
template <class A> cobalt::promise<void> wrap(A a) { co_await a; }
template <class A> cobalt::promise<void> wrap2(A a) { auto p = wrap(std::move(a)); co_await p; }
static void drive(rec &r) {
  for (int n = 0; r.op.pending; n++) {
    int k = sym_int("signals", 0, 2);
    for (int i = 0; i < k; i++) r.emit(any("signal"));
    if (k) sym_reach("signalled");
    r.op.fire();
  }
  sym_assert(r.done == 1 && r.frames == 0, "it finishes");
}
template <class P> static void hook(rec &r, P &p) { r.self = &p; r.send = [](void *p, ct t) { static_cast<P *>(p)->cancel(t); }; }
HARNESS(cancel_promise) { { world w; rec r; r.steps = 3 + TIER; auto p = body<cobalt::promise<void>>(r); hook(r, p); drive(r); p.get(); } sym_done(); }
HARNESS(cancel_generator) {
  { world w; rec r; r.steps = 3 + TIER; auto p = body<cobalt::generator<int>>(r); hook(r, p); drive(r); sym_assert(p.ready() && p.get() == 1, "its value"); }
  sym_done();
}
HARNESS(cancel_detached) {
  { world w; rec r; r.steps = 3 + TIER; r.self = &r; r.send = [](void *p, ct t) { static_cast<rec *>(p)->sig.emit(t); }; body<cobalt::detached>(r); drive(r); }
  sym_done();
}
HARNESS(cancel_task) { { world w; rec r; r.steps = 3; r.wraps = 1; auto p = wrap(body<cobalt::task<void>>(r)); hook(r, p); drive(r); p.get(); } sym_done(); }
HARNESS(cancel_nested) { { world w; rec r; r.steps = 2 + TIER; r.wraps = 2; auto p = wrap2(body<cobalt::promise<void>>(r)); hook(r, p); drive(r); p.get(); } sym_done(); }
HARNESS(cancel_nested_gen) { { world w; rec r; r.steps = 2 + TIER; r.wraps = 1; auto p = wrap(body<cobalt::generator<int>>(r)); hook(r, p); drive(r); p.get(); } sym_done(); }
// An operation that, like those of asio, leaves its cancellation handler in the slot when it completes.
struct left : cobalt::op<error_code> {
  std::optional<cobalt::completion_handler<error_code>> h; int n = 0, calls = 0; unsigned got = 0;
  void initiate(cobalt::completion_handler<error_code> f) override {
    n++; auto s = f.get_cancellation_slot(); h.emplace(std::move(f));
    if (s.is_connected()) s.assign([this](ct t) { sym_assert(pending(), "an operation that completed is not cancelled"); calls++; got = u(t); });
  }
  bool pending() const { return !!h; }
  void complete() { auto f = std::move(*h); h.reset(); asio::post(asio::append(std::move(f), error_code())); }
};
struct quiet { // sets no handler
  awaited &a;
  bool await_ready() const { return false; }
  void await_suspend(std::coroutine_handle<> h) { a.pending = 1; a.h.reset(static_cast<void *>(nullptr)); a.h = cobalt::unique_handle<void>::from_address(h.address()); }
  void await_resume() { }
};
template <class R> R child(left &l) {
  co_await cobalt::this_coro::throw_if_cancelled(false);
  co_await cobalt::as_tuple(l);
  if constexpr (std::is_same_v<R, cobalt::generator<int>>) co_return 5;
}
struct scene { left a, b; awaited q; slotop *so = nullptr; awaited last; int phase = 0, style = 0; world *w; };
#define STYLED(x) { if (s.style == 0) co_await x; else if (s.style == 1) { auto r = co_await cobalt::as_result(x); sym_assert(r.has_value(), "it succeeds"); } else { auto r = co_await cobalt::as_tuple(x); sym_assert(!std::get<0>(r), "it succeeds"); } }
enum { OP, PROMISE, TASK, GEN, RACE, RACES, GATHER, GATHERS, JOIN, JOINS, WITH, GROUP, NAMED };
template <int K> cobalt::promise<void> outer(scene &s) {
  using P = cobalt::promise<void>;
  co_await cobalt::this_coro::throw_if_cancelled(false);
  if constexpr (K == OP) STYLED(s.a)
  if constexpr (K == PROMISE) STYLED(child<P>(s.a))
  if constexpr (K == TASK) STYLED(child<cobalt::task<void>>(s.a))
  if constexpr (K == GEN) { auto g = child<cobalt::generator<int>>(s.a); STYLED(g) }
  if constexpr (K == NAMED) { auto p = child<P>(s.a); STYLED(p) }
  if constexpr (K == RACE) co_await cobalt::left_race(child<P>(s.a), child<P>(s.b));
  if constexpr (K == GATHER) co_await cobalt::gather(child<P>(s.a), child<P>(s.b));
  if constexpr (K == JOIN) co_await cobalt::join(child<P>(s.a), child<P>(s.b));
  if constexpr (K == RACES || K == GATHERS || K == JOINS) {
    std::vector<P> v; v.push_back(child<P>(s.a)); v.push_back(child<P>(s.b));
    if constexpr (K == RACES) co_await cobalt::left_race(std::move(v));
    if constexpr (K == GATHERS) co_await cobalt::gather(std::move(v));
    if constexpr (K == JOINS) co_await cobalt::join(std::move(v));
  }
  if constexpr (K == WITH) co_await cobalt::with(1, [&](int) -> P { co_await child<P>(s.a); }, [&](int, std::exception_ptr) -> P { co_await child<P>(s.b); });
  if constexpr (K == GROUP) { cobalt::wait_group g; g.push_back(child<P>(s.a)); g.push_back(child<P>(s.b)); co_await g.wait(); }
  s.phase = 1;
  co_await quiet{s.q};
  s.phase = 2;
  co_await slotop{s.last};
  s.phase = 3;
}
template <int K> void stale() {
  {
    world w; scene s; s.w = &w;
    if constexpr (K == OP || K == PROMISE || K == TASK || K == GEN || K == NAMED) s.style = sym_int("style", 0, 2);
    auto p = outer<K>(s); bool one = false;
    for (int i = 0; i < 5 + TIER; i++) {
      int n = sym_int("event", 0, 3);
      if (n == 0) {
        ct t = any("signal"); unsigned v = u(t) & TOTAL;
        int ca = s.a.calls, cb = s.b.calls, cl = s.last.calls; bool pa = s.a.pending(), pb = s.b.pending();
        p.cancel(t);
        sym_assert(s.last.calls == cl + (s.last.pending && v) && (!s.last.pending || !v || s.last.got == v), "the operation awaited now gets the signal");
        if (s.phase == 0) {
          if (v && pa && !one) sym_assert(s.a.calls == ca + 1 && s.a.got == v, "forwarded to what is awaited");
          if (v && pb && !one && K != WITH) sym_assert(s.b.calls == cb + 1 && s.b.got == v, "forwarded to every child");
          if (!v) sym_assert(s.a.calls == ca && s.b.calls == cb, "nothing to forward");
        } else { sym_assert(s.a.calls == ca && s.b.calls == cb, "nothing is forwarded to what finished"); sym_reach("late"); }
        w.poll();
      }
      else if (n == 1) { sym_assume(s.a.pending()); one = true; s.a.complete(); w.poll(); }
      else if (n == 2) { sym_assume(s.b.pending()); one = true; s.b.complete(); w.poll(); }
      else if (s.q.pending) s.q.fire();
      else { sym_assume(s.last.pending); s.last.fire(); sym_assert(s.phase == 3, "done"); sym_reach("done"); }
    }
    while (s.a.pending() || s.b.pending()) { (s.a.pending() ? s.a : s.b).complete(); w.poll(); }
    if (s.q.pending) s.q.fire();
    if (s.last.pending) s.last.fire();
    w.poll();
    sym_assert(s.phase == 3 && p.ready(), "it finishes"); p.get();
  }
  sym_done();
}
HARNESS(stale_op) { stale<OP>(); }
HARNESS(stale_promise) { stale<PROMISE>(); }
HARNESS(stale_named) { stale<NAMED>(); }
HARNESS(stale_task) { stale<TASK>(); }
HARNESS(stale_generator) { stale<GEN>(); }
HARNESS(stale_race) { stale<RACE>(); }
HARNESS(stale_races) { stale<RACES>(); }
HARNESS(stale_gather) { stale<GATHER>(); }
HARNESS(stale_gathers) { stale<GATHERS>(); }
HARNESS(stale_join) { stale<JOIN>(); }
HARNESS(stale_joins) { stale<JOINS>(); }
HARNESS(stale_with) { stale<WITH>(); }
HARNESS(stale_group) { stale<GROUP>(); }
// Handles going away: attached promises and generators cancel their coroutine, detached ones do not.
struct sleep_rec { awaited a; int frames = 0, ended = 0; unsigned seen = 0; };
template <class R> R sleeper(sleep_rec &s) {
  guard g(s.frames);
  co_await cobalt::this_coro::throw_if_cancelled(false);
  co_await slotop{s.a};
  s.seen = u(co_await cobalt::this_coro::cancelled); s.ended++;
  if constexpr (std::is_same_v<R, cobalt::generator<int>>) co_return 1;
}
HARNESS(cancel_handles) {
  {
    using P = cobalt::promise<void>;
    world w; sleep_rec s[2]; std::optional<P> p[2]; int on[2] = {0, 1}; bool att[2] = {true, true}; // handle i holds coroutine on[i]
    int calls[2] = {0, 0}; unsigned got[2] = {0, 0}, seen[2] = {0, 0};
    for (int i = 0; i < 2; i++) p[i].emplace(sleeper<P>(s[i]));
    auto gets = [&](int c, unsigned v) { v &= TOTAL; if (c >= 0 && s[c].a.pending) { seen[c] = v; if (v) { calls[c]++; got[c] = v; } } };
    for (int n = 0; n < 3 + TIER; n++) {
      int i = sym_int("handle", 0, 1), o = 1 - i; sym_assume(!!p[i]);
      switch (sym_int("action", 0, 6)) {
      case 0: { ct t = any("signal"); gets(on[i], u(t)); p[i]->cancel(t); sym_reach("cancelled"); break; }
      case 1: p[i]->detach(); att[i] = false; break;
      case 2: p[i]->attach(); att[i] = true; break;
      case 3: if (att[i]) gets(on[i], TOTAL); p[i].reset(); on[i] = -1; att[i] = false; sym_reach("destroyed"); break;
      case 4: +std::move(*p[i]); att[i] = false; break;
      case 5: { sym_assume(!!p[o]); if (att[i]) gets(on[i], TOTAL); *p[i] = std::move(*p[o]); on[i] = on[o]; att[i] = att[o]; on[o] = -1; att[o] = false; sym_reach("assigned"); break; }
      default: { P x(std::move(*p[i])); p[i].reset(); sym_assert(x.attached() == att[i], "moving keeps it attached or detached"); p[i].emplace(std::move(x)); sym_reach("moved"); }
      }
      for (int c = 0; c < 2; c++) sym_assert(s[c].a.calls == calls[c] && s[c].a.got == got[c], "a coroutine is cancelled by its attached handle only");
      if (p[i]) sym_assert(p[i]->attached() == att[i], "attached() is right");
      if (sym_bool("finish")) { int c = sym_int("which", 0, 1); if (s[c].a.pending) s[c].a.fire(); }
    }
    for (int c = 0; c < 2; c++) if (s[c].a.pending) s[c].a.fire();
    for (int c = 0; c < 2; c++) sym_assert(s[c].ended == 1 && s[c].frames == 0 && s[c].seen == seen[c], "each coroutine finishes and saw its signal");
    for (int i = 0; i < 2; i++) if (p[i] && on[i] >= 0) sym_assert(p[i]->ready(), "ready");
  }
  sym_done();
}
HARNESS(cancel_gen_handles) {
  {
    using G = cobalt::generator<int>;
    world w; sleep_rec s[2]; std::optional<G> p[2]; int on[2] = {0, 1};
    int calls[2] = {0, 0}; unsigned got[2] = {0, 0}, seen[2] = {0, 0};
    for (int i = 0; i < 2; i++) p[i].emplace(sleeper<G>(s[i]));
    auto gets = [&](int c, unsigned v) { v &= TOTAL; if (c >= 0 && s[c].a.pending) { seen[c] = v; if (v) { calls[c]++; got[c] = v; } } };
    for (int n = 0; n < 3 + TIER; n++) {
      int i = sym_int("handle", 0, 1), o = 1 - i; sym_assume(p[i] && on[i] >= 0);
      switch (sym_int("action", 0, 3)) {
      case 0: { ct t = any("signal"); gets(on[i], u(t)); p[i]->cancel(t); sym_reach("cancelled"); break; }
      case 1: gets(on[i], TOTAL); p[i].reset(); on[i] = -1; sym_reach("destroyed"); break;
      case 2: { sym_assume(p[o] && on[o] >= 0); gets(on[i], TOTAL); *p[i] = std::move(*p[o]); on[i] = on[o]; p[o].reset(); on[o] = -1; sym_reach("assigned"); break; }
      default: { G x(std::move(*p[i])); p[i].reset(); p[i].emplace(std::move(x)); sym_reach("moved"); }
      }
      for (int c = 0; c < 2; c++) sym_assert(s[c].a.calls == calls[c] && s[c].a.got == got[c], "a coroutine is cancelled by its generator only");
      if (sym_bool("finish")) { int c = sym_int("which", 0, 1); if (s[c].a.pending) s[c].a.fire(); }
    }
    for (int c = 0; c < 2; c++) if (s[c].a.pending) s[c].a.fire();
    for (int c = 0; c < 2; c++) sym_assert(s[c].ended == 1 && s[c].seen == seen[c], "each coroutine finishes and saw its signal");
    for (int i = 0; i < 2; i++) if (p[i] && on[i] >= 0) sym_assert(p[i]->ready() && p[i]->get() == 1, "ready");
    p[0].reset(); p[1].reset();
    sym_assert(s[0].frames == 0 && s[1].frames == 0, "destroyed");
  }
  sym_done();
}
// a generator awaited again and again: signals reach its body whenever it is what is awaited
struct gscene { left a; awaited last; bool lazy = false, waiting = false; int yields = 2, got = 0, fin = 0, gframes = 0; };
cobalt::generator<int> many(gscene &s) {
  guard g(s.gframes);
  co_await cobalt::this_coro::throw_if_cancelled(false);
  if (s.lazy) co_await cobalt::this_coro::initial;
  for (int i = 0; i < s.yields; i++) { if (sym_bool("busy")) co_await cobalt::as_tuple(s.a); co_yield i; }
  co_return s.yields;
}
cobalt::promise<void> consume(gscene &s) {
  co_await cobalt::this_coro::throw_if_cancelled(false);
  auto g = many(s);
  while (g) {
    s.waiting = true;
    int v = co_await g;
    s.waiting = false;
    sym_assert(v == s.got, "the values in order"); s.got++;
    if (sym_bool("rest")) co_await slotop{s.last};
  }
  s.fin++;
}
HARNESS(cancel_gen_yields) {
  {
    world w; gscene s; s.lazy = sym_bool("lazy"); s.yields = 2 + TIER;
    auto p = consume(s); w.poll();
    while (!s.fin) {
      bool pa = s.a.pending(), pl = s.last.pending; sym_assert(pa || pl, "something is awaited");
      if (sym_bool("cancel")) {
        ct t = any("signal"); unsigned v = u(t) & TOTAL; int ca = s.a.calls, cl = s.last.calls;
        p.cancel(t);
        sym_assert(s.last.calls == cl + (pl && v), "the operation awaited gets it");
        sym_assert(s.a.calls == ca + (pa && s.waiting && v), "a generator gets it exactly when it is awaited");
        if (v && pa && s.waiting) { sym_assert(s.a.got == v, "unchanged"); sym_reach("forwarded"); }
        if (pa && !s.waiting) sym_reach("not forwarded");
      }
      if (pa && (!pl || sym_bool("which"))) s.a.complete(); else s.last.fire();
      w.poll();
    }
    sym_assert(s.got == s.yields + 1 && s.gframes == 0, "all values"); p.get();
  }
  sym_done();
}
