// C21: tasks awaited, spawned and dropped
#include "common.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/run.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/detached.hpp>
struct failure { int id; };
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
struct hand : cobalt::op<error_code> { // completed by hand
  std::optional<cobalt::completion_handler<error_code>> h; int n = 0, cancels = 0;
  void initiate(cobalt::completion_handler<error_code> f) override {
    n++; auto s = f.get_cancellation_slot(); h.emplace(std::move(f));
    if (s.is_connected()) s.assign([this](asio::cancellation_type) { cancels++; });
  }
  bool pending() const { return !!h; }
  void complete(error_code e = {}) { auto f = std::move(*h); h.reset(); auto s = f.get_cancellation_slot(); if (s.is_connected()) s.clear(); asio::post(asio::append(std::move(f), e)); }
};
int id_of(std::exception_ptr e) {
  if (!e) return -1;
  try { std::rethrow_exception(e); } catch (failure &f) { return f.id; }
  catch (boost::system::system_error &s) { return s.code() == cobalt::error::moved_from ? 50 : s.code() == cobalt::error::already_awaited ? 51 : s.code() == asio::error::operation_aborted ? 52 : s.code() == cobalt::error::detached ? 53 : 59; }
  catch (...) { return 60; }
}
struct hist {
  int suspends = 0, fails = 0, value = 0, started = 0, ended = 0, frames = 0; // suspends: how often
  hand op; cobalt::executor *exec = nullptr, seen; bool check_exec = false;
  void pick(int n = 2) { suspends = sym_int("suspends", 0, n); fails = sym_int("fails", 0, 1); value = sym_int("value", 0, 1000); }
};
template <class T> T mk(int v) { if constexpr (!std::is_void_v<T>) return T(v); }
template <class T> cobalt::task<T> work(hist &h, tok arg) {
  guard g(h.frames); h.started++;
  sym_assert(h.started == 1, "the body runs once");
  sym_assert(arg.v == 77, "the arguments arrive and live as long as the body");
  h.seen = co_await cobalt::this_coro::executor;
  for (int i = 0; i < h.suspends; i++) { co_await cobalt::as_tuple(h.op); sym_assert(arg.v == 77, "the arguments live as long as the body"); }
  h.ended++;
  if (h.fails) throw failure{h.value};
  if constexpr (!std::is_void_v<T>) co_return T(h.value);
}
struct outcome { int n = 0, err = -1, v = -1, frames = 0; };
template <class T, class A> cobalt::promise<void> await_it(A &&t, outcome &o, int style) {
  guard g(o.frames);
  try {
    if (style == 0) { if constexpr (std::is_void_v<T>) { co_await t; o.v = 0; } else o.v = val(co_await t); }
    else if (style == 1) { auto r = co_await cobalt::as_result(t); if (r.has_error()) o.err = id_of(r.error()); else if constexpr (std::is_void_v<T>) o.v = 0; else o.v = val(*r); }
    else { auto r = co_await cobalt::as_tuple(t); if (std::get<0>(r)) o.err = id_of(std::get<0>(r)); else if constexpr (std::is_void_v<T>) o.v = 0; else o.v = val(std::get<1>(r)); }
  } catch (...) { o.err = id_of(std::current_exception()); sym_assert(style == 0, "as_result and as_tuple do not throw"); }
  o.n++;
}
template <class T> void check(hist &h, outcome &o) {
  sym_assert(o.n == 1, "the awaiter is resumed once");
  if (h.fails) { sym_assert(o.err == h.value && o.v == -1, "its exception"); sym_reach("error"); }
  else { sym_assert(o.err == -1 && o.v == (std::is_void_v<T> ? 0 : h.value), "its value"); sym_reach("value"); }
}
// awaited by name, optionally moved around first
template <class T> void awaited() {
  {
    world w; hist h; h.pick(); outcome o; int style = sym_int("style", 0, 2), moves = sym_int("moves", 0, 2);
    {
      std::optional<cobalt::task<T>> a(work<T>(h, tok(77))), b; cobalt::task<T> *t = &*a;
      w.poll(); sym_assert(!h.started, "nothing runs before it is awaited");
      if (moves > 0) { b.emplace(std::move(*a)); t = &*b; if (moves > 1) a.reset(); }
      outcome of;
      if (moves == 1) { await_it<T>(*a, of, style); sym_assert(of.n == 1 && of.err == 50 && !h.started, "a moved-from task is an error"); sym_reach("moved from"); }
      std::optional<cobalt::promise<void>> p(await_it<T>(*t, o, style));
      sym_assert(h.started == 1, "awaiting it starts it");
      for (int i = 0; i < h.suspends; i++) { sym_assert(h.op.pending() && !o.n && o.frames == 1, "not before it finished"); h.op.complete(); w.poll(); }
      check<T>(h, o); sym_assert(h.ended == 1 && h.frames == 0, "its frame is destroyed when it finished");
      sym_assert(h.seen == cobalt::executor(w.ctx.get_executor()), "on the executor of the awaiter");
      sym_assert(p->ready(), "finished"); p->get();
    }
    sym_assert(tok::live == 0, "everything is destroyed once");
  }
  sym_done();
}
HARNESS(task_await_void) { awaited<void>(); }
HARNESS(task_await_int) { awaited<int>(); }
HARNESS(task_await_tok) { awaited<tok>(); }
// tasks which lose interest on the way: never awaited, awaiter or operation abandoned, task object destroyed early
HARNESS(task_dropped) {
  {
    world w; hist h; h.pick(); outcome o; int how = sym_int("how", 0, 3);
    if (how == 0) {
      { auto t = work<tok>(h, tok(77)); if (sym_bool("moved")) { auto u = std::move(t); } w.poll(); }
      sym_assert(!h.started && tok::live == 0, "never awaited: destroyed without running"); sym_reach("unused");
    } else {
      sym_assume(h.suspends > 0);
      std::optional<cobalt::task<tok>> t(work<tok>(h, tok(77)));
      std::optional<cobalt::promise<void>> p(await_it<tok>(*t, o, 0));
      sym_assert(h.op.pending() && o.frames == 1, "waiting");
      if (h.suspends == 2) { h.op.complete(); w.poll(); }
      if (how == 1) { h.op.h.reset(); sym_assert(h.frames == 0 && o.frames == 0 && tok::live == 0 && !o.n, "abandoned: the task and its awaiter are destroyed"); sym_reach("abandoned"); p.reset(); w.poll(); }
      else if (how == 2) { p.reset(); sym_assert(o.frames == 1, "a dropped promise is detached"); h.op.complete(); w.poll(); sym_assert(o.n == 1 && h.ended == 1, "and still finishes"); check<tok>(h, o); sym_reach("detached"); }
      else { h.op.complete(); w.poll(); check<tok>(h, o); auto u = std::move(*t); t.reset(); sym_reach("finished"); p->get(); }
    }
    w.poll();
    sym_assert(h.frames == 0 && o.frames == 0 && h.op.n <= h.suspends, "destroyed once");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
// interrupted by a race, then awaited again
template <class R> int which(const R &r) { if constexpr (requires { r.index(); }) return r.index(); else return r; }
template <class T> void interrupted() {
  {
    world w; hist h; h.pick(); sym_assume(h.suspends > 0); outcome o; hand other; int raced = -1, style = sym_int("style", 0, 2);
    int left = h.suspends, when = sym_int("finishes", 0, 2); // the task finishes before, during or after it is awaited again
    {
      auto t = work<T>(h, tok(77));
      auto body = [&]() -> cobalt::promise<void> { auto r = co_await cobalt::race(t, other); raced = which(r); };
      auto step = [&] { if (left > 0) { sym_assert(h.op.pending(), "the task goes on"); h.op.complete(); w.poll(); left--; } };
      auto p = body();
      sym_assert(h.started == 1 && other.pending(), "both started");
      other.complete(); w.poll();
      sym_assert(raced == 1 && p.ready(), "the other one wins"); p.get();
      if (when == 0) { while (left) step(); sym_assert(h.ended == 1 && h.frames == 0, "it finishes without being awaited"); sym_reach("before"); }
      auto q = await_it<T>(t, o, style);
      sym_assert(h.op.n == (h.suspends - left + (left ? 1 : 0)), "it is not resumed by being awaited");
      if (when == 0) sym_assert(o.n == 1, "already done");
      while (left) { sym_assert(!o.n, "not before it finished"); step(); }
      check<T>(h, o); sym_assert(h.ended == 1 && q.ready(), "finished"); q.get();
    }
    sym_assert(tok::live == 0, "everything is destroyed once");
  }
  sym_done();
}
HARNESS(task_interrupted_tok) { interrupted<tok>(); }
HARNESS(task_interrupted_void) { interrupted<void>(); }
HARNESS(task_twice) { // a second awaiter
  {
    world w; hist h; h.pick(); sym_assume(h.suspends > 0); outcome a, b; int style = sym_int("style", 0, 2);
    {
      auto t = work<int>(h, tok(77));
      auto p = await_it<int>(t, a, style), q = await_it<int>(t, b, style);
      sym_assert(b.n == 1 && b.err == 51, "only one coroutine may await a task");
      sym_assert(a.frames == 1 && !a.n && h.op.n == 1, "which leaves the first one alone");
      for (int i = 0; i < h.suspends; i++) { h.op.complete(); w.poll(); }
      check<int>(h, a); p.get(); q.get(); sym_reach("end");
    }
    sym_assert(tok::live == 0, "everything is destroyed once");
  }
  sym_done();
}
HARNESS(task_cancel) { // awaiting task is cancelled: reaches the operation inside, as long as the task is awaited
  {
    world w; hist h; h.pick(); outcome o; hand after; bool fin = false;
    auto t = work<void>(h, tok(77));
    auto body = [&]() -> cobalt::promise<void> { co_await cobalt::this_coro::throw_if_cancelled(false); co_await cobalt::as_tuple(t); co_await cobalt::as_tuple(after); fin = true; };
    auto p = body();
    int want = 0; bool cancelled = false;
    for (int i = 0; i < h.suspends; i++) {
      if (i > 0 && cancelled) { sym_assert(!h.op.pending(), "the next await throws"); break; }
      if (sym_bool("cancel")) { p.cancel(); cancelled = true; want++; sym_reach("cancelled"); }
      sym_assert(h.op.pending() && h.op.cancels == want && after.cancels == 0, "reaches what the task awaits"); h.op.complete(); w.poll();
    }
    sym_assert(after.pending(), "the task has finished");
    p.cancel(); sym_assert(h.op.cancels == want && after.cancels == 1, "reaches what is awaited now");
    after.complete(); w.poll(); sym_assert(fin, "finished"); p.get(); sym_reach("end");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
// spawn
struct spawned { int n = 0, err = -2, v = -2; bool inside = false; };
template <class T> auto handler(spawned &s, int &live, world &w) {
  struct hd {
    spawned &s; std::shared_ptr<guard> g; world &w;
    void operator()(std::exception_ptr e) { done(e); s.v = 0; }
    void operator()(std::exception_ptr e, T v) requires(!std::is_void_v<T>) { done(e); s.v = val(v); }
    void done(std::exception_ptr e) { s.n++; sym_assert(s.n == 1, "the handler is called once"); s.err = id_of(e); sym_assert(!s.inside, "not from within spawn"); sym_assert(w.ctx.get_executor().running_in_this_thread(), "on its executor"); }
  };
  return hd{s, std::make_shared<guard>(live), w};
}
template <> auto handler<void>(spawned &s, int &live, world &w) {
  struct hd {
    spawned &s; std::shared_ptr<guard> g; world &w;
    void operator()(std::exception_ptr e) { s.n++; sym_assert(s.n == 1, "the handler is called once"); s.err = id_of(e); sym_assert(!s.inside, "not from within spawn"); sym_assert(w.ctx.get_executor().running_in_this_thread(), "on its executor"); s.v = 0; }
  };
  return hd{s, std::make_shared<guard>(live), w};
}
template <class T> void run_spawn() {
  {
    world w; hist h; h.pick(); spawned s; int live = 0; asio::cancellation_signal sig;
    std::unique_ptr<asio::io_context> ctx2(new asio::io_context{1}); bool other = sym_bool("other_context"), bound = sym_bool("bound"), slot = sym_bool("slot"), inside = sym_bool("inside"), by_ctx = sym_bool("by_context");
    auto &ctx = other ? *ctx2 : w.ctx;
    auto poll = [&] { for (int i = 0; i < 2; i++) { w.poll(); ctx2->restart(); ctx2->poll(); } };
    auto go = [&] {
      s.inside = true;
      auto t = work<T>(h, tok(77));
      auto hd = handler<T>(s, live, w);
      auto start = [&](auto &&token) { if (by_ctx) cobalt::spawn(ctx, std::move(t), std::forward<decltype(token)>(token)); else cobalt::spawn(ctx.get_executor(), std::move(t), std::forward<decltype(token)>(token)); };
      // the handler checks that it runs on w, so unless that is where the task runs it has to be bound
      if (slot) start(asio::bind_executor(w.ctx.get_executor(), asio::bind_cancellation_slot(sig.slot(), std::move(hd))));
      else if (bound || other) start(asio::bind_executor(w.ctx.get_executor(), std::move(hd)));
      else start(std::move(hd));
      s.inside = false;
    };
    if (inside) { asio::post(ctx, go); poll(); } else go();
    sym_assert(inside || !h.started, "spawn dispatches: nothing runs outside the executor");
    poll();
    sym_assert(h.started == 1, "spawn starts it");
    sym_assert(h.seen == cobalt::executor(ctx.get_executor()), "on the executor it was given");
    bool dropped = false, cancelled = false;
    for (int i = 0; i < h.suspends; i++) {
      if (cancelled) { sym_assert(!h.op.pending(), "a cancelled task throws at its next await"); h.fails = 1; h.value = 52; break; }
      sym_assert(h.op.pending() && !s.n, "not before it finished");
      int act = sym_int("act", 0, 2);
      if (act == 1) { sym_assume(slot); sig.emit(asio::cancellation_type::terminal); poll(); sym_assert(h.op.cancels == 1, "a cancellation reaches what the task awaits"); cancelled = true; sym_reach("cancelled"); }
      if (act == 2) { h.op.h.reset(); dropped = true; sym_assert(h.frames == 0 && live == 0 || slot, "abandoned: the task and its handler are destroyed"); sym_reach("abandoned"); break; }
      h.op.complete(); poll();
    }
    poll();
    if (!dropped) {
      sym_assert(s.n == 1, "the handler is called once");
      if (h.fails) { sym_assert(s.err == h.value, "its exception"); sym_reach("error"); } else { sym_assert(s.err == -1 && s.v == (std::is_void_v<T> ? 0 : h.value), "its value"); sym_reach("value"); }
      sym_assert(live == 0, "the handler is destroyed");
    } else sym_assert(s.n == 0, "abandoned: not called");
    if (slot) { sig.emit(asio::cancellation_type::terminal); poll(); }
    sig.slot().clear();
    sym_assert(h.frames == 0 && live == 0, "everything is destroyed once");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
HARNESS(spawn_void) { run_spawn<void>(); }
HARNESS(spawn_int) { run_spawn<int>(); }
HARNESS(spawn_tok) { run_spawn<tok>(); }
HARNESS(spawn_born_done) { // tasks made of noop, or moved from
  {
    world w; spawned s, s2, s3; int live = 0, v = sym_int("v", 0, 1000); hist h; h.pick(0);
    cobalt::spawn(w.ctx, cobalt::task<int>(cobalt::noop<int>(v)), handler<int>(s, live, w));
    auto t = work<void>(h, tok(77)); { auto u = std::move(t); }
    cobalt::spawn(w.ctx, std::move(t), handler<void>(s2, live, w));
    cobalt::spawn(w.ctx, cobalt::task<void>(cobalt::noop<>()), handler<void>(s3, live, w));
    w.poll();
    sym_assert(s.n == 1 && s.err == -1 && s.v == v, "the value"); sym_assert(s2.n == 1 && s2.err == 50 && !h.started, "a moved-from task is an error"); sym_assert(s3.n == 1 && s3.err == -1, "done");
    sym_assert(live == 0, "the handlers are destroyed"); sym_reach("end");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
HARNESS(spawn_awaited) { // the result of spawn awaited in another coroutine, possibly of another context
  {
    world w; std::unique_ptr<asio::io_context> ctx2(new asio::io_context{1}); hist h; h.pick(1); bool other = sym_bool("other_context"); auto &ctx = other ? *ctx2 : w.ctx; int v = -1, err = -1, fin = 0, tokn = sym_int("token", 0, 1);
    auto poll = [&] { for (int i = 0; i < 2; i++) { w.poll(); ctx2->restart(); ctx2->poll(); } };
    auto body = [&]() -> cobalt::promise<void> {
      try { if (tokn == 0) v = co_await cobalt::spawn(ctx, work<int>(h, tok(77)), cobalt::use_op); else v = co_await cobalt::spawn(ctx, work<int>(h, tok(77)), cobalt::use_task); } catch (...) { err = id_of(std::current_exception()); }
      sym_assert(w.ctx.get_executor().running_in_this_thread(), "the awaiter stays on its executor"); fin++;
    };
    auto p = body(); poll();
    sym_assert(h.started == 1 && h.seen == cobalt::executor(ctx.get_executor()), "on the executor it was given");
    if (h.suspends) { sym_assert(!fin, "not before it finished"); h.op.complete(); poll(); }
    sym_assert(fin == 1 && p.ready(), "the awaiter is resumed once"); p.get();
    sym_assert(h.fails ? err == h.value : v == h.value, "its value or exception"); sym_reach(h.fails ? "error" : "value");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
HARNESS(spawn_context_gone) { // the context is destroyed with the task anywhere on its way
  {
    hist h; h.pick(1); spawned s; int live = 0; bool slot = sym_bool("slot"), run = sym_bool("run"); asio::cancellation_signal sig; 
    {
      world w; world w2; cobalt::this_thread::set_executor(w.ctx.get_executor());
      auto hd = handler<tok>(s, live, w);
      if (slot) cobalt::spawn(w2.ctx, work<tok>(h, tok(77)), asio::bind_executor(w.ctx.get_executor(), asio::bind_cancellation_slot(sig.slot(), std::move(hd))));
      else cobalt::spawn(w2.ctx, work<tok>(h, tok(77)), asio::bind_executor(w.ctx.get_executor(), std::move(hd)));
      if (run) w2.poll();
      if (h.op.pending()) { if (sym_bool("complete")) h.op.complete(); else h.op.h.reset(); }
      if (sym_bool("step")) { w2.poll(); if (h.op.pending()) h.op.h.reset(); }
    }
    sym_assert(s.n == 0, "the handler was not called"); sig.slot().clear();
    sym_assert(h.frames == 0 && live == 0, "everything is destroyed once"); sym_reach(h.started ? "started" : "not started");
  }
  sym_assert(tok::live == 0, "everything is destroyed once");
  sym_done();
}
