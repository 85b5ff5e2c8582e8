// children whose completion the harness controls, for the combinators
#pragma once
#include "common.hpp"
#include <optional>
#include <vector>
struct failure { int id; };
struct dropped {};
using ctype = asio::cancellation_type;
struct st { // what happened to one child
  int id = 0, mode = 2; // mode 0 ready, 1 completes while suspending, 2 pending, 3 throws from await_suspend, 4 throws from await_ready
  bool may_fail = false, fails = false, void_ = false;
  int started = 0, resumed = 0, destroyed = 0, order = -1;
  bool pending = false, interrupted = false, transacted = false;
  ctype cancelled = ctype::none;
  int cancels = 0;
  cobalt::unique_handle<void> h{nullptr};
  void (*begin)(void *) = nullptr;
  int value() const { return void_ ? 0 : 100 + id; }
};
inline int seq = 0;             // completions so far
inline bool no_late_start = false; // race: nothing starts once a child completed
template <class T> T mk(int v) { if constexpr (!std::is_void_v<T>) return T(v); }
template <class T> struct ev_base {
  st *s;
  asio::cancellation_slot slot{};
  bool await_ready() {
    sym_assert(s->started++ == 0, "each awaitable is used once, as in a co_await expression");
    if (no_late_start) sym_assert(seq == 0, "nothing is started once a child completed");
    if (s->mode == 4) { s->fails = true; s->order = seq++; s->resumed++; throw failure{s->id}; }
    return s->mode == 0;
  }
  template <class P> bool await_suspend(std::coroutine_handle<P> h) {
    sym_assert(s->started == 1, "await_ready comes first");
    if (s->mode == 3) { s->fails = true; s->order = seq++; s->resumed++; throw failure{s->id}; }
    if (s->mode == 1) return false;
    s->pending = true; s->h.reset(static_cast<void *>(nullptr)); s->h = cobalt::unique_handle<void>::from_address(h.address());
    if constexpr (requires { h.promise().begin_transaction(); }) s->begin = [](void *p) { std::coroutine_handle<P>::from_address(p).promise().begin_transaction(); };
    if constexpr (requires { h.promise().get_cancellation_slot(); })
      if (auto sl = h.promise().get_cancellation_slot(); sl.is_connected()) { slot = sl; sl.assign([s = s](ctype t) { s->cancelled |= t; s->cancels++; }); }
    return true;
  }
  T await_resume() {
    if (slot.is_connected()) slot.clear();
    sym_assert(s->started == 1 && s->resumed == 0 && !s->pending, "resumed once");
    s->resumed++;
    if (s->interrupted) throw dropped{};
    if (!s->transacted) s->order = seq++;
    if (s->may_fail && sym_bool("fails")) { s->fails = true; throw failure{s->id}; }
    return mk<T>(s->value());
  }
};
template <class T, bool Interruptible> struct ev : ev_base<T> {};
template <class T> struct ev<T, true> : ev_base<T> {
  void interrupt_await() && {
    st *s = this->s;
    if (!s->pending) return;
    s->pending = false; s->interrupted = true;
    s->h.release().resume();
  }
};
template <class T> struct evl : ev_base<T> { // interruptible as an lvalue, too
  void interrupt_await() & {
    st *s = this->s;
    if (!s->pending) return;
    s->pending = false; s->interrupted = true;
    s->h.release().resume();
  }
};
inline void fire(st &s) { s.pending = false; s.h.release().resume(); }
struct out { int resumed = 0, index = -1, value = -1, err = -1; bool cancel_seen = false; };
inline int err_id(std::exception_ptr e) {
  if (!e) return -1;
  try { std::rethrow_exception(e); } catch (failure &f) { return f.id; } catch (dropped &) { return -2; } catch (boost::system::system_error &) { return -3; } catch (...) { return -4; }
}
inline void setup(st *s, int n, int modes, bool may_fail) {
  seq = 0;
  for (int i = 0; i < n; i++) {
    s[i].id = i;
    int m = sym_int("mode", 0, modes);
    static const int map[] = {2, 0, 1, 3, 4};
    s[i].mode = map[m];
    s[i].may_fail = may_fail;
  }
}
inline bool any_pending(st *s, int n) { for (int i = 0; i < n; i++) if (s[i].pending) return true; return false; }
