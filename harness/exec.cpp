// C22: on which executor coroutines, handles and posted handlers run, and that each runs once or is destroyed
#include "common.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/unique_handle.hpp>
#include <boost/cobalt/detail/wrapper.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/defer.hpp>
#include <boost/asio/dispatch.hpp>
#include <optional>
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
struct ctxs {
  std::optional<asio::io_context> c[2]; int running = -1;
  ctxs() { c[0].emplace(1); c[1].emplace(1); }
  ~ctxs() { c[1].reset(); c[0].reset(); }
  cobalt::executor ex(int i) { return c[i]->get_executor(); }
  void poll(int i) { running = i; c[i]->restart(); c[i]->poll(); running = -1; }
  void drain() { for (int k = 0; k < 6; k++) { poll(0); poll(1); } }
};

// the executor of the thread: the last one set, until its context goes
HARNESS(exec_thread) {
  {
    std::optional<asio::io_context> c[2]; c[0].emplace(1); c[1].emplace(1); int cur = -1;
    const int n = TIER ? 6 : 5;
    for (int k = 0; k < n; k++) {
      int i = sym_int("which", 0, 1);
      if (c[i]) {
        if (sym_bool("set")) { cobalt::this_thread::set_executor(c[i]->get_executor()); cur = i; sym_reach("set"); }
        else { c[i].reset(); if (cur == i) { cur = -1; sym_reach("cleared"); } else if (cur >= 0) sym_reach("kept"); }
      } else c[i].emplace(1);
      sym_assert(cobalt::this_thread::has_executor() == (cur >= 0), "there is an executor exactly while the context of the last one set lives");
      if (cur >= 0) sym_assert(cobalt::this_thread::get_executor() == cobalt::executor(c[cur]->get_executor()), "it is the last one set");
      else {
        bool bad = false;
        try { cobalt::this_thread::get_executor(); } catch (asio::bad_executor &) { bad = true; }
        sym_assert(bad, "asking for an unset executor is an error");
      }
    }
  }
  sym_assert(!cobalt::this_thread::has_executor(), "nothing is left");
  sym_done();
}

// coroutines: their executor is the one given to them, or that of the thread when they were created
struct hist { ctxs &w; int own = -1, steps = 0, frames = 0, done = 0, inner = 0; bool entered = false; };
struct later : cobalt::op<int> { ctxs &w; int via; later(ctxs &w, int via) : w(w), via(via) {}
  void initiate(cobalt::completion_handler<int> f) override { asio::post(w.ex(via), asio::append(std::move(f), 7)); } };
cobalt::task<int> inner_task(hist &h, int via) {
  guard g(h.frames);
  sym_assert(co_await cobalt::this_coro::executor == h.w.ex(h.own), "a task has the executor of its awaiter");
  co_await asio::post(h.w.ex(via), cobalt::use_op);
  sym_assert(h.w.running == h.own, "and resumes on it");
  h.inner++;
  co_return 3;
}
cobalt::promise<int> inner_promise(hist &h, int via, asio::executor_arg_t, cobalt::executor) {
  guard g(h.frames);
  sym_assert(co_await cobalt::this_coro::executor == h.w.ex(h.own), "a promise has the executor given");
  co_await asio::post(h.w.ex(via), cobalt::use_op);
  sym_assert(h.w.running == h.own, "and resumes on it");
  h.inner++;
  co_return 4;
}
cobalt::task<void> teardown(hist &h, int via) {
  sym_assert(co_await cobalt::this_coro::executor == h.w.ex(h.own), "a teardown has the executor of its awaiter");
  co_await asio::post(h.w.ex(via), cobalt::use_op);
  sym_assert(h.w.running == h.own, "with runs on the executor of its awaiter");
}
// Await: one of the ways to wait for something that happens on a context
#define AWAIT(k, via) \
      switch (k) { \
      case 0: co_await asio::post(h.w.ex(via), cobalt::use_op); break; \
      case 1: { later l(h.w, via); sym_assert(co_await l == 7, "value"); break; } \
      case 2: { later l(h.w, via); auto v = co_await cobalt::race(l); sym_assert(boost::variant2::get<0>(v) == 7, "value"); break; } \
      case 3: { later l(h.w, via), m(h.w, 1 - (via)); auto [a, b] = co_await cobalt::join(l, m); sym_assert(a == 7 && b == 7, "value"); break; } \
      case 4: { later l(h.w, via); later m(h.w, 1 - (via)); auto r = co_await cobalt::gather(l, m); sym_assert(*std::get<0>(r) == 7, "value"); break; } \
      case 5: sym_assert(co_await inner_task(h, via) == 3, "value"); break; \
      case 6: sym_assert(co_await inner_promise(h, via, asio::executor_arg, h.w.ex(h.own)) == 4, "value"); break; \
      case 7: co_await cobalt::race(inner_task(h, via)); break; \
      case 8: co_await cobalt::gather(inner_task(h, via)); break; \
      case 9: co_await cobalt::join(inner_task(h, via)); break; \
      case 10: co_await cobalt::with(1, [&h, via](int) -> cobalt::task<void> { co_await asio::post(h.w.ex(via), cobalt::use_op); sym_assert(h.w.running == h.own, "with runs on the executor of its awaiter"); }, [&h, via](int, std::exception_ptr) -> cobalt::task<void> { return teardown(h, via); }); break; \
      }
#define BODY(yield, ret) \
  guard g(h.frames); \
  sym_assert(co_await cobalt::this_coro::executor == h.w.ex(h.own), "the executor is the one given, or the one of the thread"); \
  h.entered = true; \
  for (int i = 0; i < h.steps; i++) { \
    int k = sym_int("await", 0, 10), via = sym_int("via", 0, 1); \
    AWAIT(k, via) \
    sym_assert(h.w.running == h.own, "an operation resumes the coroutine on the executor of the coroutine"); \
    sym_assert(co_await cobalt::this_coro::executor == h.w.ex(h.own), "which does not change"); \
    sym_reach(via == h.own ? "own" : "other"); \
  } \
  h.done++; yield; ret;
template <class R> struct make;
template <> struct make<cobalt::promise<int>> {
  using R = cobalt::promise<int>; using io = asio::io_context::executor_type;
  static R plain(hist &h) { BODY(;, co_return 1) }
  static R front(asio::executor_arg_t, cobalt::executor, hist &h) { BODY(;, co_return 1) }
  static R middle(hist &h, asio::executor_arg_t, const cobalt::executor &, int) { BODY(;, co_return 1) }
  static R last(hist &h, cobalt::executor, asio::executor_arg_t, io) { BODY(;, co_return 1) }
  R member(hist &h, asio::executor_arg_t, io, cobalt::executor) { BODY(;, co_return 1) }
};
template <> struct make<cobalt::generator<int>> {
  using R = cobalt::generator<int>; using io = asio::io_context::executor_type;
  static R plain(hist &h) { BODY(;, co_return 1) }
  static R front(asio::executor_arg_t, cobalt::executor, hist &h) { BODY(;, co_return 1) }
  static R middle(hist &h, asio::executor_arg_t, const cobalt::executor &, int) { BODY(;, co_return 1) }
  static R last(hist &h, cobalt::executor, asio::executor_arg_t, io) { BODY(;, co_return 1) }
  R member(hist &h, asio::executor_arg_t, io, cobalt::executor) { BODY(;, co_return 1) }
};
template <> struct make<cobalt::detached> {
  using R = cobalt::detached; using io = asio::io_context::executor_type;
  static R plain(hist &h) { BODY(;, ;) }
  static R front(asio::executor_arg_t, cobalt::executor, hist &h) { BODY(;, ;) }
  static R middle(hist &h, asio::executor_arg_t, const cobalt::executor &, int) { BODY(;, ;) }
  static R last(hist &h, cobalt::executor, asio::executor_arg_t, io) { BODY(;, ;) }
  R member(hist &h, asio::executor_arg_t, io, cobalt::executor) { BODY(;, ;) }
};
template <class R> R start(hist &h, int kind, int given, make<R> &m) {
  auto &c = *h.w.c[given];
  switch (kind) {
  case 0: return m.plain(h);
  case 1: return m.front(asio::executor_arg, h.w.ex(given), h);
  case 2: return m.middle(h, asio::executor_arg, h.w.ex(given), 1);
  case 3: return m.last(h, h.w.ex(1 - given), asio::executor_arg, c.get_executor());
  default: return m.member(h, asio::executor_arg, c.get_executor(), h.w.ex(1 - given));
  }
}
template <class R> void exec_coro() {
  {
    ctxs w; hist h{w}; make<R> m;
    h.steps = TIER ? 2 : sym_int("steps", 1, 2);
    int kind = sym_int("kind", 0, 4), given = sym_int("given", 0, 1), thread = sym_int("thread", -1, 1);
    if (!TIER) sym_assume(kind == 4 || h.steps == 1 || (given == 0 && thread == 1 && kind == 0));
    if (thread >= 0) cobalt::this_thread::set_executor(w.ex(thread));
    h.own = kind ? given : thread;
    if (h.own < 0) {
      bool bad = false;
      try { (void)start<R>(h, kind, given, m); } catch (asio::bad_executor &) { bad = true; }
      sym_assert(bad && !h.frames && !h.entered, "without any executor creating a coroutine is an error");
      sym_reach("none");
    } else {
      auto r = start<R>(h, kind, given, m);
      sym_assert(h.entered, "started");
      if constexpr (std::is_same_v<R, cobalt::promise<int>>) r.detach();
      int change = sym_int("change", 0, 2); // the executor of the thread changes while the coroutine waits
      if (change) cobalt::this_thread::set_executor(w.ex(change - 1));
      int first = sym_int("first", 0, 1);
      w.poll(first); w.drain();
      sym_assert(h.done == 1, "finished");
      if constexpr (std::is_same_v<R, cobalt::promise<int>>) sym_assert(r.ready(), "finished");
    }
    sym_assert(!h.frames, "destroyed");
  }
  sym_assert(!cobalt::this_thread::has_executor(), "nothing is left");
  sym_done();
}
HARNESS(exec_promise) { exec_coro<cobalt::promise<int>>(); }
HARNESS(exec_generator) { exec_coro<cobalt::generator<int>>(); }
HARNESS(exec_detached) { exec_coro<cobalt::detached>(); }

// tasks: the executor they are spawned on; the completion token's
struct done_fn { ctxs &w; int want; int &n;
  void operator()(std::exception_ptr e) const { sym_assert(!e && w.running == want, "the token is called on its own executor, or on the one the task was spawned on"); n++; } 
  void operator()(std::exception_ptr e, int v) const { sym_assert(v == 1, "value"); (*this)(e); } };
cobalt::task<int> spawned(hist &h) { BODY(;, co_return 1) }
cobalt::task<void> spawned_void(hist &h) { BODY(;, ;) }
template <class T> void exec_spawn(T (*f)(hist &)) {
  {
    ctxs w; hist h{w}; h.steps = sym_int("steps", 0, 1); int n = 0;
    int thread = sym_int("thread", 0, 1); h.own = sym_int("own", 0, 1); int tokex = sym_int("token", -1, 1);
    cobalt::this_thread::set_executor(w.ex(thread));
    auto t = f(h);
    bool by_ctx = sym_bool("context");
    done_fn d{w, tokex < 0 ? h.own : tokex, n};
    if (tokex >= 0) { if (by_ctx) cobalt::spawn(*w.c[h.own], std::move(t), asio::bind_executor(w.ex(tokex), d)); else cobalt::spawn(w.ex(h.own), std::move(t), asio::bind_executor(w.ex(tokex), d)); }
    else { done_fn e = d; if (by_ctx) cobalt::spawn(*w.c[h.own], std::move(t), e); else cobalt::spawn(w.ex(h.own), std::move(t), std::as_const(e)); e.want = -5; }
    sym_assert(!h.entered && n == 0, "nothing runs before the context does");
    w.poll(1 - h.own);
    sym_assert(!h.entered && n == 0, "nothing runs on another context");
    int change = sym_int("change", 0, 2);
    if (change) cobalt::this_thread::set_executor(w.ex(change - 1));
    w.poll(h.own); w.drain();
    sym_assert(h.done == 1 && n == 1 && !h.frames, "completed once");
  }
  sym_done();
}
HARNESS(exec_spawn_int) { exec_spawn(spawned); }
HARNESS(exec_spawn_void) { exec_spawn(spawned_void); }

// handles
struct coro {
  struct promise_type {
    cobalt::executor exec;
    using executor_type = cobalt::executor;
    const executor_type &get_executor() const { return exec; }
    template <class... A> promise_type(cobalt::executor e, A &&...) : exec(e) {}
    coro get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { throw; }
  };
  std::coroutine_handle<promise_type> h;
};
struct fate { int resumed = 0, destroyed = 0, where = -2; };
struct fate_guard { fate &f; ~fate_guard() { f.destroyed++; } };
coro body(cobalt::executor, ctxs &w, fate &f, tok t) {
  fate_guard g{f};
  f.resumed++; f.where = w.running;
  sym_assert(t.v == 5, "its arguments are alive");
  co_return;
}
// t counts the frame: it is destroyed with it even if the body never ran
enum { how_post, how_dispatch, how_defer, how_post_own, how_dispatch_own, hows };
template <class H> void submit(ctxs &w, int how, int via, H h) {
  switch (how) {
  case how_post: asio::post(w.ex(via), std::move(h)); break;
  case how_dispatch: asio::dispatch(w.ex(via), std::move(h)); break;
  case how_defer: asio::defer(w.ex(via), std::move(h)); break;
  case how_post_own: asio::post(std::move(h)); break;
  default: asio::dispatch(std::move(h)); break;
  }
}
template <bool typed> void handle_posted() {
  {
    ctxs w; fate f; int own = sym_int("own", 0, 1), via = sym_int("via", 0, 1), how = sym_int("how", 0, hows - 1);
    using U = std::conditional_t<typed, cobalt::unique_handle<coro::promise_type>, cobalt::unique_handle<void>>;
    U u;
    auto c = body(w.ex(own), w, f, tok(5));
    if constexpr (typed) u.reset(&c.h.promise()); else u.reset(c.h.address());
    sym_assert(u && u != nullptr && u.address() == c.h.address() && !u.done(), "owned");
    if (!typed) sym_assume(how < how_post_own); // a plain handle has no executor
    if (how >= how_post_own) via = own;
    if constexpr (typed) { if (how == how_post_own) asio::post(std::move(u)); else if (how == how_dispatch_own) asio::dispatch(std::move(u)); else submit(w, how, via, std::move(u)); }
    else { if (how == how_post) asio::post(w.ex(via), std::move(u)); else if (how == how_dispatch) asio::dispatch(w.ex(via), std::move(u)); else asio::defer(w.ex(via), std::move(u)); }
    sym_assert(!u && f.resumed == 0 && tok::live == 1, "it went to the executor");
    int expect = typed ? own : via, drop = sym_int("drop", 0, 2);
    if (drop == 1) { w.c[via].reset(); sym_assert(f.resumed == 0 && tok::live == 0, "dropped with the context it waits in"); sym_reach("dropped"); }
    else {
      if (via != expect) { w.poll(expect); sym_assert(f.resumed == 0, "not yet"); }
      w.poll(via);
      if (via != expect) {
        sym_assert(f.resumed == 0 && tok::live == 1, "moved on to its own executor");
        if (drop == 2) { w.c[expect].reset(); sym_assert(f.resumed == 0 && tok::live == 0, "dropped with its own context"); sym_reach("dropped later"); }
        else { w.poll(expect); sym_reach("other context"); }
      }
      if (w.c[expect]) {
        sym_assert(f.resumed == 1 && f.where == expect && tok::live == 0, "resumed once, on its executor");
        w.drain();
        sym_assert(f.resumed == 1, "only once"); sym_reach("resumed");
      }
    }
  }
  sym_assert(tok::live == 0, "nothing leaks");
  sym_done();
}
HARNESS(exec_handle) { handle_posted<true>(); }
HARNESS(exec_handle_void) { handle_posted<false>(); }

// ownership: up to three handles of two coroutines
struct co2 {
  struct promise_type {
    co2 get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { throw; }
  };
  std::coroutine_handle<promise_type> h;
};
struct frame { int resumed = 0; bool alive = false; };
struct alive_arg { frame *f; alive_arg(frame &x) : f(&x) { f->alive = true; } alive_arg(alive_arg &&o) : f(std::exchange(o.f, nullptr)) {} ~alive_arg() { if (f) { sym_assert(f->alive, "destroyed once"); f->alive = false; } } };
co2 stepped(alive_arg a, frame &f) { for (int i = 0; i < 2; i++) { f.resumed++; co_await std::suspend_always(); } f.resumed++; }
template <class U, bool typed> void handle_owner() {
  {
    frame f[2]; std::coroutine_handle<> raw[2]; bool out[2] = {}; int steps[2] = {};
    for (int i = 0; i < 2; i++) raw[i] = stepped(alive_arg(f[i]), f[i]).h;
    auto from = [&](int i) { if constexpr (typed) return U::from_promise(std::coroutine_handle<co2::promise_type>::from_address(raw[i].address()).promise()); else return U::from_address(raw[i].address()); };
    U u[2] = {from(0), from(1)}; int m[2] = {0, 1}; bool loose[2] = {};
    const int n = TIER ? 4 : 3;
    for (int k = 0; k < n; k++) {
      int i = sym_int("i", 0, 1), j = 1 - i;
      switch (sym_int("op", 0, 8)) {
      case 0: sym_assume(m[i] >= 0 && steps[m[i]] < 3); u[i].resume(); steps[m[i]]++; break;
      case 1: sym_assume(m[i] >= 0 && steps[m[i]] < 3); u[i](); steps[m[i]]++; break;
      case 2: { sym_assume(m[i] >= 0 && steps[m[i]] < 3); bool call = sym_bool("call"); if (call) std::move(u[i])(); else std::move(u[i]).resume(); steps[m[i]]++; loose[m[i]] = true; m[i] = -1; sym_reach("resumed away"); break; }
      case 3: { sym_assume(m[i] >= 0); auto h = u[i].release(); sym_assert(h.address() == raw[m[i]].address(), "release gives the coroutine"); loose[m[i]] = true; m[i] = -1; sym_reach("released"); break; }
      case 4: u[i].destroy(); m[i] = -1; break;
      case 5: u[i].reset(); m[i] = -1; break;
      case 6: u[i] = std::move(u[j]); m[i] = m[j]; m[j] = -1; sym_reach("moved"); break;
      case 7: { U t(std::move(u[i])); sym_assert(!u[i], "moved from"); u[i] = std::move(t); break; }
      default: { // adopt a loose coroutine
        int l = loose[0] ? 0 : 1; sym_assume(loose[l]); loose[l] = false;
        if constexpr (typed) u[i].reset(&std::coroutine_handle<co2::promise_type>::from_address(raw[l].address()).promise()); else u[i].reset(raw[l].address());
        m[i] = l; sym_reach("adopted"); }
      }
      for (int q = 0; q < 2; q++) {
        sym_assert(bool(u[q]) == (m[q] >= 0) && (u[q] == nullptr) == (m[q] < 0) && (u[q] != nullptr) == (m[q] >= 0), "owned as expected");
        if (m[q] >= 0) sym_assert(u[q].address() == raw[m[q]].address() && u[q].done() == (steps[m[q]] == 3), "the right coroutine");
        sym_assert(f[q].alive == (m[0] == q || m[1] == q || loose[q]), "alive exactly while somebody owns it");
        sym_assert(f[q].resumed == steps[q], "resumed as often as asked");
      }
    }
    for (int q = 0; q < 2; q++) if (loose[q]) raw[q].destroy();
    for (auto &x : u) x = U(nullptr);
    sym_assert(!f[0].alive && !f[1].alive, "nothing leaks");
  }
  sym_done();
}
HARNESS(exec_owner) { handle_owner<cobalt::unique_handle<co2::promise_type>, true>(); }
HARNESS(exec_owner_void) { handle_owner<cobalt::unique_handle<void>, false>(); }

// post_coroutine: a completion token as a coroutine handle
struct cb { ctxs *w; fate *f; tok t; 
  void operator()() { sym_assert(t.v == 5, "alive"); f->resumed++; f->where = w->running; } };
HARNESS(exec_post_coroutine) {
  {
    ctxs w; fate f; int own = sym_int("own", 0, 1), form = sym_int("form", 0, 2), thread = sym_int("thread", -1, 1);
    if (thread >= 0) cobalt::this_thread::set_executor(w.ex(thread));
    const int expect = own;
    cobalt::unique_handle<void> u;
    namespace d = cobalt::detail;
    if (form == 0) u.reset(d::post_coroutine(asio::bind_executor(w.ex(own), cb{&w, &f, tok(5)})).address());
    else if (form == 1) u.reset(d::post_coroutine(w.ex(own), cb{&w, &f, tok(5)}).address());
    else u.reset(d::post_coroutine(*w.c[own], cb{&w, &f, tok(5)}).address());
    sym_assert(f.resumed == 0 && tok::live >= 1, "nothing happens yet");
    switch (sym_int("end", 0, 2)) {
    case 0: u.reset(); sym_assert(tok::live == 0, "destroyed with its handle"); w.drain(); sym_assert(f.resumed == 0, "a destroyed handler is not called"); sym_reach("destroyed"); break;
    case 1: {
      std::move(u).resume(); sym_assert(f.resumed == 0 && tok::live == 1, "posted, not called");
      w.poll(1 - expect); sym_assert(f.resumed == 0, "not on another executor");
      w.poll(expect); sym_assert(f.resumed == 1 && f.where == expect && tok::live == 0, "called once on its executor");
      w.drain(); sym_assert(f.resumed == 1, "only once"); sym_reach("called"); break;
    }
    default: std::move(u).resume(); w.c[expect].reset(); sym_assert(f.resumed == 0 && tok::live == 0, "dropped with the context"); sym_reach("dropped");
    }
  }
  sym_assert(tok::live == 0, "nothing leaks");
  sym_done();
}

// contexts that go away with coroutines waiting in them
template <class R> void exec_dropped() {
  {
    ctxs w; hist h{w}; make<R> m; h.steps = 1; h.own = 0; cobalt::this_thread::set_executor(w.ex(0));
    auto r = start<R>(h, 0, 0, m);
    if constexpr (std::is_same_v<R, cobalt::promise<int>>) r.detach();
    sym_assert(h.entered && h.frames >= 1, "waiting");
    int n = sym_int("polls", 0, 3);
    for (int i = 0; i < n; i++) { int p = sym_int("poll", 0, 1); w.poll(p); }
    bool was = h.done;
    w.c[1].reset(); w.c[0].reset();
    sym_assert(h.done == was && h.frames == 0, "destroyed with the contexts, not resumed"); sym_reach(was ? "done" : "dropped");
    sym_assert(!cobalt::this_thread::has_executor(), "and the executor is gone");
  }
  sym_done();
}
HARNESS(exec_drop_promise) { exec_dropped<cobalt::promise<int>>(); }
HARNESS(exec_drop_generator) { exec_dropped<cobalt::generator<int>>(); }
HARNESS(exec_drop_detached) { exec_dropped<cobalt::detached>(); }
