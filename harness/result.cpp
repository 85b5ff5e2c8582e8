// C17: plain await, as_result and as_tuple of every kind of awaitable agree
#include "comb.hpp"
#include <boost/asio/append.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/with.hpp>
struct obs { int err = -1, n = 0, v[3] = {0, 0, 0}; };
inline int eid(const std::exception_ptr &e) { return err_id(e); }
inline int eid(const error_code &e) { return e ? 100 + e.value() : -1; }
inline int to_id(std::exception_ptr e) { // as eid, for whatever was thrown
  try { std::rethrow_exception(e); } catch (boost::system::system_error &s) { return 100 + s.code().value(); } catch (failure &f) { return f.id; } catch (...) { return -4; }
}
template <class T> concept tuple_like = requires { std::tuple_size<std::remove_cvref_t<T>>::value; };
template <class T> void values(obs &o, T &&x) {
  if constexpr (tuple_like<T>) std::apply([&](auto &...y) { ((o.v[o.n++] = val(y)), ...); }, x);
  else o.v[o.n++] = val(x);
}
template <class T> struct is_tuple : std::false_type {};
template <class... A> struct is_tuple<std::tuple<A...>> : std::true_type {};
// awaits what mk() returns; has_err: as_tuple carries an error first
template <class Mk> cobalt::promise<void> observe(Mk mk, obs &o, int style, bool &done) {
  try {
    if (style == 0) {
      if constexpr (std::is_void_v<cobalt::detail::co_await_result_t<decltype(mk())>>) { co_await mk(); }
      else values(o, co_await mk());
    } else if (style == 1) {
      auto r = co_await cobalt::as_result(mk());
      if (r.has_error()) o.err = eid(r.error());
      else if constexpr (!std::is_void_v<typename decltype(r)::value_type>) values(o, *r);
    } else {
      auto t = co_await cobalt::as_tuple(mk());
      static_assert(is_tuple<decltype(t)>::value, "as_tuple gives a tuple");
      std::apply([&](auto &...x) {
        auto one = [&](auto &y) {
          using Y = std::remove_cvref_t<decltype(y)>;
          if constexpr (std::is_same_v<Y, error_code> || std::is_same_v<Y, std::exception_ptr>) o.err = eid(y);
          else if (o.err == -1) values(o, y);
        };
        (one(x), ...);
      }, t);
    }
  } catch (...) { sym_assert(style == 0, "only a plain await throws"); o.err = to_id(std::current_exception()); }
  done = true;
}
// runs one configuration in one symbolic style and compares it to what is expected
template <class Mk> void agree(world &w, Mk mk, obs want, void (*later)(void *) = nullptr, void *arg = nullptr) {
  int style = sym_int("style", 0, 2);
  obs o; bool done = false;
  {
    auto c = observe(mk, o, style, done);
    if (later) later(arg);
    w.poll();
    sym_assert(done, "completes"); c.ready();
  }
  sym_assert(o.err == want.err, "each style reports exactly the error");
  if (want.err == -1) { sym_assert(o.n == want.n, "each style carries the values"); for (int i = 0; i < want.n; i++) sym_assert(o.v[i] == want.v[i], "each style carries the same values"); sym_reach("value"); }
  else sym_reach("error");
}
inline obs want(bool fails, int id, int n, int v0 = 0, int v1 = 0) { obs o; if (fails) o.err = id; else { o.n = n; o.v[0] = v0; o.v[1] = v1; } return o; }
template <class T> constexpr int nvalues = std::is_void_v<T> ? 0 : 1;
template <class T> T ret(int v) { if constexpr (!std::is_void_v<T>) return T(v); }

// ---- coroutines
template <class R, class T> R coro(world &w, bool late, bool fails, int v) {
  if (late) co_await w.yield();
  if (fails) throw failure{7};
  if constexpr (std::is_void_v<T>) co_return; else co_return T(v);
}
template <class T, int kind> void coroutines() {
  {
    world w; bool late = sym_bool("late"), fails = sym_bool("fail"); int v = sym_int("v", 0, 1000);
    auto ex = want(fails, 7, nvalues<T>, v);
    if constexpr (kind == 0) agree(w, [&] { return coro<cobalt::promise<T>, T>(w, late, fails, v); }, ex);
    else if constexpr (kind == 1) agree(w, [&] { return coro<cobalt::task<T>, T>(w, late, fails, v); }, ex);
    else if constexpr (kind == 2) { auto g = coro<cobalt::generator<T>, T>(w, late, fails, v); agree(w, [&]() -> auto & { return g; }, ex); }
    else if constexpr (kind == 3) { auto p = coro<cobalt::promise<T>, T>(w, late, fails, v); if (sym_bool("before")) w.poll(); agree(w, [&]() -> auto & { return p; }, ex); }
    else { auto t = coro<cobalt::task<T>, T>(w, late, fails, v); agree(w, [&]() -> auto && { return std::move(t); }, ex); }
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(res_promise_void) { coroutines<void, 0>(); }
HARNESS(res_promise_int) { coroutines<int, 0>(); }
HARNESS(res_promise_tok) { coroutines<tok, 0>(); }
HARNESS(res_promise_lvalue) { coroutines<tok, 3>(); }
HARNESS(res_task_void) { coroutines<void, 1>(); }
HARNESS(res_task_tok) { coroutines<tok, 1>(); }
HARNESS(res_task_rvalue) { coroutines<tok, 4>(); }
HARNESS(res_generator) { coroutines<tok, 2>(); }

// ---- hand written awaitables
template <class T, bool Nothrow> struct aw {
  int mode; bool fails; int v; std::coroutine_handle<> *h;
  bool await_ready() { return mode == 0; }
  bool await_suspend(std::coroutine_handle<> c) { if (mode == 1) return false; *h = c; return true; }
  T await_resume() noexcept(Nothrow) { if (fails) throw failure{7}; if constexpr (is_tuple<T>::value) return T(tok(v), v + 1); else return ret<T>(v); }
};
template <class T, bool N> struct has_member { aw<T, N> a; aw<T, N> operator co_await() { return a; } };
template <class T, bool N> struct has_free { aw<T, N> a; };
template <class T, bool N> aw<T, N> operator co_await(has_free<T, N> f) { return f.a; }
template <class T, bool N> void hand() {
  {
    world w; std::coroutine_handle<> h;
    aw<T, N> a{sym_int("mode", 0, 2), !N && sym_bool("fail"), sym_int("v", 0, 1000), &h};
    auto ex = is_tuple<T>::value ? want(a.fails, 7, 2, a.v, a.v + 1) : want(a.fails, 7, nvalues<T>, a.v);
    auto later = [](void *p) { auto &h = *static_cast<std::coroutine_handle<> *>(p); if (h) std::exchange(h, nullptr).resume(); };
    switch (sym_int("kind", 0, 2)) {
    case 0: agree(w, [a] { return a; }, ex, later, &h); break;
    case 1: agree(w, [a] { return has_member<T, N>{a}; }, ex, later, &h); break;
    case 2: agree(w, [a] { return has_free<T, N>{a}; }, ex, later, &h); break;
    }
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(res_hand_void) { hand<void, false>(); }
HARNESS(res_hand_int) { hand<int, false>(); }
HARNESS(res_hand_tok) { hand<tok, false>(); }
HARNESS(res_hand_tuple) { hand<std::tuple<tok, int>, false>(); }
HARNESS(res_hand_void_nothrow) { hand<void, true>(); }
HARNESS(res_hand_tok_nothrow) { hand<tok, true>(); }
HARNESS(res_noop) {
  { world w; int v = sym_int("v", -1000, 1000);
    switch (sym_int("kind", 0, 3)) {
    case 0: agree(w, [] { return cobalt::noop<void>(); }, want(false, 0, 0)); break;
    case 1: agree(w, [v] { return cobalt::noop<tok>(v); }, want(false, 0, 1, v)); break;
    case 2: agree(w, [v] { return cobalt::promise<int>(cobalt::noop<int>(v)); }, want(false, 0, 1, v)); break;
    default: agree(w, [v] { return cobalt::task<int>(cobalt::noop<int>(v)); }, want(false, 0, 1, v));
    } }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(res_channel) {
  {
    world w; int v = sym_int("v", 0, 1000); bool closed = sym_bool("closed");
    int bp = 100 + error_code(asio::error::broken_pipe).value();
    cobalt::channel<tok> c(sym_int("capacity", 0, 1), w.ctx.get_executor()); cobalt::channel<void> cv(1, w.ctx.get_executor());
    int kind = sym_int("kind", 0, 3);
    if (closed) { c.close(); cv.close(); }
    tok t(v);
    auto reader = [&]() -> cobalt::promise<void> { auto x = co_await cobalt::as_result(c.read()); };
    auto writer = [&]() -> cobalt::promise<void> { auto x = co_await cobalt::as_result(c.write(std::move(t))); };
    auto vwriter = [&]() -> cobalt::promise<void> { auto x = co_await cobalt::as_result(cv.write()); };
    std::optional<cobalt::promise<void>> o;
    if (kind == 0) { if (!closed) o.emplace(writer()); agree(w, [&] { return c.read(); }, want(closed, bp, 1, v)); }
    else if (kind == 1) { if (!closed) o.emplace(reader()); agree(w, [&] { return c.write(std::move(t)); }, want(closed, bp, 0)); }
    else if (kind == 2) { if (!closed) o.emplace(vwriter()); agree(w, [&] { return cv.read(); }, want(closed, bp, 0)); }
    else { agree(w, [&] { return cv.write(); }, want(closed, bp, 0)); }
    w.poll(); if (o) o->ready();
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
// ---- the mapping of completion arguments to results
template <class E> struct some_err;
template <> struct some_err<error_code> { static error_code mk(int v) { return error_code(v, boost::system::system_category()); } static int id(int v) { return v ? 100 + v : -1; } };
template <> struct some_err<std::exception_ptr> { static std::exception_ptr mk(int v) { return v ? std::make_exception_ptr(failure{v}) : nullptr; } static int id(int v) { return v ? v : -1; } };
template <class E, class... A> void interpreted(int e, int v, A... a) {
  constexpr int n = sizeof...(A);
  auto r = cobalt::interpret_as_result(std::tuple<E, A...>(some_err<E>::mk(e), std::move(a)...));
  static_assert(std::is_same_v<typename decltype(r)::error_type, E>);
  sym_assert(r.has_error() == (e != 0), "an error exactly if the first argument is one");
  if (r.has_error()) { sym_assert(eid(r.error()) == some_err<E>::id(e), "the error is kept"); sym_reach("error"); }
  else {
    obs o; if constexpr (n == 1) { static_assert(std::is_same_v<typename decltype(r)::value_type, A...>); values(o, *r); } else if constexpr (n > 1) { static_assert(std::is_same_v<typename decltype(r)::value_type, std::tuple<A...>>); values(o, *r); } else static_assert(std::is_void_v<typename decltype(r)::value_type>);
    for (int i = 0; i < n; i++) sym_assert(o.v[i] == v + i, "values are kept in order");
    sym_reach("value");
  }
}
HARNESS(res_interpret) {
  {
    int e = sym_int("e", 0, 50), v = sym_int("v", 0, 1000);
    switch (sym_int("kind", 0, 10)) {
    case 0: interpreted<error_code>(e, v); break;
    case 1: interpreted<error_code, int>(e, v, v); break;
    case 2: interpreted<error_code, tok>(e, v, tok(v)); break;
    case 3: interpreted<error_code, int, tok>(e, v, v, tok(v + 1)); break;
    case 4: interpreted<error_code, tok, int, tok>(e, v, tok(v), v + 1, tok(v + 2)); break;
    case 5: interpreted<std::exception_ptr>(e, v); break;
    case 6: interpreted<std::exception_ptr, tok>(e, v, tok(v)); break;
    case 7: interpreted<std::exception_ptr, tok, int>(e, v, tok(v), v + 1); break;
    case 8: { auto r = cobalt::interpret_as_result(std::tuple<tok>(tok(v))); sym_assert(r.has_value() && r->v == v, "a single value"); break; }
    case 9: { auto r = cobalt::interpret_as_result(std::tuple<int, tok>(v, tok(v))); sym_assert(r.has_value() && std::get<0>(*r) == v && std::get<1>(*r).v == v, "several values"); break; }
    default: { auto r = cobalt::interpret_as_result(std::tuple<>()); sym_assert(r.has_value(), "nothing"); }
    }
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
// ---- combinators
HARNESS(res_join) {
  {
    world w; bool late = sym_bool("late"); int v = sym_int("v", 0, 1000), f = sym_int("f", 0, 2);
    auto a = [&] { return coro<cobalt::promise<int>, int>(w, late, f == 1, v); };
    auto b = [&] { return coro<cobalt::promise<tok>, tok>(w, !late, f == 2, v + 1); };
    switch (sym_int("kind", 0, 2)) {
    case 0: agree(w, [&] { return cobalt::join(a(), b()); }, want(f != 0, 7, 2, v, v + 1)); break;
    case 1: { auto c = [&] { return coro<cobalt::promise<void>, void>(w, late, f == 1, v); }; auto d = [&] { return coro<cobalt::promise<void>, void>(w, !late, f == 2, v); }; agree(w, [&] { return cobalt::join(c(), d()); }, want(f != 0, 7, 0)); break; }
    default: { auto t = [&](tok &x) -> cobalt::promise<int> { co_await w.yield(); if (f == 1) throw failure{7}; co_return x.v; }; auto td = [&](tok &&, std::exception_ptr) -> cobalt::promise<void> { if (f == 2) throw failure{7}; co_return; };
      agree(w, [&] { return cobalt::with(tok(v), t, td); }, want(f != 0, 7, 1, v)); }
    }
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
