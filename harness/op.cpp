// C08, C17: operations completed in every way an asio initiation may, for the signatures the documentation lists
#include "comb.hpp"
#include <boost/asio/append.hpp>
#include <boost/asio/deferred.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/asio/detached.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
enum mode { in_ready, late_post, late_direct, immediate, init_throws, init_throws_after_move, posts, immediate_step, nested_immediate, immediate_throws, late_immediate, dropped_later, modes };
struct initiation_failed { int id; };
// one argument, remembered so that its arrival can be compared
template <class T> struct arg;
template <> struct arg<int> { int v = sym_int("v", -1000, 1000); int get() { return v; } void same(int x) { sym_assert(x == v, "the value arrives unchanged"); } };
template <> struct arg<tok> { int v = sym_int("v", 0, 1000); tok get() { return tok(v); } void same(const tok &x) { sym_assert(x.v == v, "the value arrives unchanged"); } };
template <> struct arg<error_code> {
  int v = sym_int("ec", -2, 2); bool sys = sym_bool("system");
  error_code get() { return error_code(v, sys ? boost::system::system_category() : asio::error::get_misc_category()); }
  bool set() { return v != 0; }
  void same(const error_code &e) { sym_assert(e == get(), "the error code arrives unchanged"); }
};
template <> struct arg<std::exception_ptr> {
  int v = sym_int("ep", 0, 2);
  std::exception_ptr get() { return v ? std::make_exception_ptr(failure{v}) : nullptr; }
  bool set() { return v != 0; }
  void same(const std::exception_ptr &e) { sym_assert(err_id(e) == (v ? v : -1), "the exception arrives unchanged"); }
};
template <class T> constexpr bool is_err = std::is_same_v<T, error_code> || std::is_same_v<T, std::exception_ptr>;
template <class... A> struct args {
  std::tuple<arg<A>...> a;
  static constexpr int n = sizeof...(A);
  static constexpr bool err() { if constexpr (n > 0) return is_err<std::tuple_element_t<0, std::tuple<A...>>>; else return false; }
  bool failed() { if constexpr (err()) return std::get<0>(a).set(); else return false; }
  template <class F> auto call(F &&f) { return std::apply([&](auto &...x) { return f(x.get()...); }, a); }
  template <class X, size_t... I> void same_tuple(X &x, std::index_sequence<I...>) { (std::get<I + err()>(a).same(std::get<I>(x)), ...); }
  template <class X> void same(X &x) { // the values without the error
    if constexpr (n - err() == 1) std::get<err()>(a).same(x);
    else { static_assert(std::tuple_size_v<X> == n - err()); same_tuple(x, std::make_index_sequence<n - err()>{}); }
  }
  template <class X, size_t... I> void same_all(X &x, std::index_sequence<I...>) { (std::get<I>(a).same(std::get<I>(x)), ...); }
  template <class X> void same_all(X &x) { static_assert(std::tuple_size_v<X> == n); same_all(x, std::make_index_sequence<n>{}); }
};
template <class... A> struct sop : cobalt::op<A...> {
  int m; args<A...> a; std::optional<cobalt::completion_handler<A...>> h; int nready = 0, ninit = 0; world *w;
  bool step_ran = false;
  std::optional<typename cobalt::completion_handler<A...>::immediate_executor_type> imm;
  sop(world *w, int m) : m(m), w(w) {}
  void ready(cobalt::handler<A...> f) override { sym_assert(nready++ == 0 && ninit == 0, "readiness is asked once, first"); if (m == in_ready) a.call(f); }
  auto bound(cobalt::completion_handler<A...> f) { return a.call([&](auto &&...x) { return asio::append(std::move(f), std::move(x)...); }); }
  template <class Ex> void at_once(Ex e, cobalt::completion_handler<A...> f) {
    a.call([&](auto &&...x) { e.execute([f = std::move(f), ...x = std::move(x)]() mutable { std::move(f)(std::move(x)...); }); });
  }
  void initiate(cobalt::completion_handler<A...> f) override {
    sym_assert(nready == 1 && ninit++ == 0, "initiated once, after it was not ready");
    sym_assert(m != in_ready, "a ready operation is not initiated");
    sym_assert(asio::get_associated_executor(f) == cobalt::executor(w->ctx.get_executor()), "the handler runs on the coroutine's executor");
    switch (m) {
    case init_throws: throw initiation_failed{1};
    case init_throws_after_move: { auto l = std::move(f); throw initiation_failed{2}; }
    case posts: asio::post(bound(std::move(f))); break;
    case immediate: { auto e = asio::get_associated_immediate_executor(f, asio::get_associated_executor(f)); at_once(e, std::move(f)); break; }
    case immediate_step: {
      auto e = f.get_immediate_executor(); bool *r = &step_ran; h.emplace(std::move(f));
      e.execute([r] { *r = true; }); sym_assert(step_ran, "intermediate steps may run at once while initiating"); break;
    }
    case nested_immediate: {
      auto e = f.get_immediate_executor(); bool *r = &step_ran;
      e.execute([r] { *r = true; });
      at_once(e, std::move(f)); break;
    }
    case immediate_throws: { auto e = f.get_immediate_executor(); e.execute([] { throw initiation_failed{3}; }); break; }
    case late_immediate: imm.emplace(f.get_immediate_executor()); h.emplace(std::move(f)); break;
    default: h.emplace(std::move(f));
    }
  }
  bool pending() const { return !!h; }
  void complete() { // like an event source would later
    auto f = std::move(*h); h.reset();
    if (m == late_immediate) at_once(*imm, std::move(f)); // an executor kept from the initiation may not run it inline any more
    else if (m == late_direct) a.call([&](auto &&...x) { std::move(f)(std::move(x)...); });
    else asio::dispatch(bound(std::move(f)));
  }
  bool throws() const { return m == init_throws || m == init_throws_after_move || m == immediate_throws; }
};
struct outcome { int resumed = 0, frames = 0; };
struct fguard { outcome &o; fguard(outcome &o) : o(o) { o.frames++; } ~fguard() { o.frames--; } };
template <class... A> void check_failure(sop<A...> &p, bool threw, std::exception_ptr e) {
  if (p.throws()) { int id = 0; try { std::rethrow_exception(e); } catch (initiation_failed &f) { id = f.id; } catch (...) {} sym_assert(threw && id == (p.m == init_throws ? 1 : p.m == immediate_throws ? 3 : 2), "what initiate throws surfaces in the awaiter"); sym_reach("initiation threw"); return; }
}
template <class... A> cobalt::promise<void> await_op(sop<A...> &p, outcome &o, int style) {
  fguard g(o);
  using ar = args<A...>;
  auto &a = p.a;
  std::exception_ptr ex; bool threw = false;
  try {
    if (style == 0) {
      if constexpr (ar::n - ar::err() == 0) { co_await p; sym_assert(!a.failed(), "an error throws"); }
      else { auto x = co_await p; sym_assert(!a.failed(), "an error throws"); a.same(x); }
    } else if (style == 1) {
      auto r = co_await cobalt::as_result(p);
      sym_assert(r.has_error() == a.failed(), "as_result holds an error exactly if there is one");
      if (r.has_error()) { if constexpr (ar::err()) std::get<0>(a.a).same(r.error()); }
      else if constexpr (ar::n - ar::err() > 0) a.same(*r);
    } else {
      auto t = co_await cobalt::as_tuple(p);
      a.same_all(t);
    }
    sym_assert(!p.throws(), "what initiate throws is not swallowed");
    sym_reach("completed");
  } catch (...) { threw = true; ex = std::current_exception(); }
  o.resumed++;
  if (threw && !p.throws()) {
    sym_assert(style == 0 && a.failed(), "a plain await throws exactly when there is an error");
    if constexpr (ar::err()) {
      if constexpr (std::is_same_v<std::tuple_element_t<0, std::tuple<A...>>, error_code>) {
        error_code c; try { std::rethrow_exception(ex); } catch (boost::system::system_error &e) { c = e.code(); }
        std::get<0>(a.a).same(c);
      } else std::get<0>(a.a).same(ex);
      sym_reach("error");
    }
  }
  check_failure(p, threw, ex);
}
template <class... A> void run_op() {
  {
    world w; outcome o;
    sop<A...> p(&w, sym_int("mode", 0, modes - 1));
    int style = sym_int("style", 0, 2);
    {
      auto c = await_op(p, o, style);
      bool sync = p.m == in_ready || p.m == immediate || p.m == nested_immediate || p.throws();
      sym_assert(o.resumed == sync && c.ready() == sync, "resumed at once exactly if it completed while initiating");
      if (p.m == posts) { w.poll(); }
      else if (p.m == dropped_later) { p.h.reset(); sym_assert(o.frames == 0, "dropping the handler destroys the coroutine"); sym_reach("dropped"); }
      else if (p.pending()) {
        if (sym_bool("poll")) w.poll();
        sym_assert(o.resumed == 0, "not resumed before it completes");
        p.complete();
        if (p.m == late_immediate) sym_assert(o.resumed == 0, "the immediate executor runs nothing inline once the initiation is over");
        if (p.m != late_direct) w.poll();
      }
      sym_assert(o.resumed == (p.m != dropped_later) && o.frames == 0, "resumed exactly once");
      sym_assert(p.nready == 1 && p.ninit == (p.m != in_ready), "asked and initiated once");
      if (p.m != dropped_later) { sym_assert(c.ready(), "finished"); c.get(); }
    }
    w.poll();
    sym_assert(o.resumed == (p.m != dropped_later), "resumed exactly once");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}
HARNESS(op_none) { run_op<>(); }
HARNESS(op_int) { run_op<int>(); }
HARNESS(op_tok) { run_op<tok>(); }
HARNESS(op_int_tok) { run_op<int, tok>(); }
HARNESS(op_ec) { run_op<error_code>(); }
HARNESS(op_ec_int) { run_op<error_code, int>(); }
HARNESS(op_ec_tok) { run_op<error_code, tok>(); }
HARNESS(op_ec_int_tok) { run_op<error_code, int, tok>(); }
HARNESS(op_ep) { run_op<std::exception_ptr>(); }
HARNESS(op_ep_tok) { run_op<std::exception_ptr, tok>(); }
HARNESS(op_ep_tok_int) { run_op<std::exception_ptr, tok, int>(); }

// several operations one after the other in one coroutine, which may be a promise, a task or detached
struct multi { world &w; int n; int m[3]; int done = 0; sop<error_code, tok> *cur = nullptr; outcome o; };
template <class R> R several(multi &s) {
  fguard g(s.o);
  for (int i = 0; i < s.n; i++) {
    sop<error_code, tok> p(&s.w, s.m[i]); s.cur = &p;
    auto [e, t] = co_await cobalt::as_tuple(p);
    p.a.same_all(*std::make_unique<std::tuple<error_code, tok>>(e, std::move(t)));
    s.done++; s.cur = nullptr;
  }
}
HARNESS(op_several) {
  {
    world w; multi s{w, sym_int("n", 1, TIER ? 3 : 2)};
    static const int ms[] = {in_ready, late_post, late_direct, immediate, posts, immediate_step, nested_immediate};
    for (int i = 0; i < s.n; i++) s.m[i] = ms[sym_int("mode", 0, 6)];
    {
      std::optional<cobalt::promise<void>> c;
      int kind = sym_int("kind", 0, 2);
      if (kind == 0) c.emplace(several<cobalt::promise<void>>(s));
      else if (kind == 1) { cobalt::spawn(w.ctx, several<cobalt::task<void>>(s), asio::detached); w.poll(); }
      else several<cobalt::detached>(s);
      for (int i = 0; i < 2 * s.n; i++) {
        if (s.cur && s.cur->pending()) { int d = s.done; s.cur->complete(); w.poll(); sym_assert(s.done > d, "completing an operation resumes its awaiter"); }
        else w.poll();
      }
      sym_assert(s.done == s.n && s.o.frames == 0, "every operation completed once, in order");
      sym_reach("end");
    }
    w.poll();
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}

// use_op as completion token, and deferred operations
struct initiated { int n = 0, m = 0; world *w; int got = 0; std::optional<cobalt::completion_handler<error_code, int>> h; };
struct initiator {
  template <class H> void operator()(H &&h, initiated *s, tok t) {
    s->n++; s->got = t.v;
    if (s->m == 0) asio::post(s->w->ctx, asio::append(std::forward<H>(h), error_code(s->got > 500 ? 7 : 0, boost::system::system_category()), s->got));
    else if (s->m == 1) { auto e = asio::get_associated_immediate_executor(h, asio::get_associated_executor(h)); asio::dispatch(e, asio::append(std::forward<H>(h), error_code(s->got > 500 ? 7 : 0, boost::system::system_category()), s->got)); }
    else throw initiation_failed{4};
  }
};
template <class Token> auto async_thing(initiated *s, tok t, Token &&token) { return asio::async_initiate<Token, void(error_code, int)>(initiator{}, token, s, std::move(t)); }
cobalt::promise<int> by_token(initiated &s, int v, int how) {
  if (how == 0) co_return co_await async_thing(&s, tok(v), cobalt::use_op);
  if (how == 1) co_return co_await async_thing(&s, tok(v), asio::deferred);
  if (how == 2) { auto o = async_thing(&s, tok(v), cobalt::use_op); sym_assert(s.n == 0, "nothing starts before it is awaited"); co_return co_await o; }
  auto r = co_await cobalt::as_result(async_thing(&s, tok(v), cobalt::use_op));
  co_return r.value();
}
HARNESS(op_tokens) {
  {
    world w; initiated s; s.w = &w; s.m = sym_int("mode", 0, 2);
    int v = sym_int("v", 0, 1000), how = sym_int("how", 0, 3);
    auto c = by_token(s, v, how);
    sym_assert(s.n == 1, "awaiting starts it");
    sym_assert(c.ready() == (s.m == 2), "a failing initiation shows at once");
    w.poll();
    sym_assert(c.ready() && s.n == 1, "completed");
    int r = -1, e = 0; try { r = c.get(); } catch (boost::system::system_error &x) { e = x.code().value(); } catch (initiation_failed &f) { e = -f.id; }
    if (s.m == 2) sym_assert(e == -4, "what the initiation throws surfaces");
    else sym_assert(v > 500 ? e == 7 : r == v && e == 0, "delivers the value or the error");
    sym_reach(s.m == 2 ? "threw" : v > 500 ? "error" : "value");
  }
  sym_assert(tok::live == 0, "every value is destroyed once");
  sym_done();
}

// operations as children of the combinators
HARNESS(op_combined) {
  {
    world w; sop<error_code, int> *p[2]; outcome o;
    static const int ms[] = {in_ready, late_post, late_direct, immediate, posts, immediate_step, init_throws};
    sop<error_code, int> p0(&w, ms[sym_int("mode", 0, 6)]), p1(&w, ms[sym_int("mode", 0, 6)]);
    p[0] = &p0; p[1] = &p1;
    bool joins = sym_bool("join");
    auto body = [&]() -> cobalt::promise<void> {
      fguard g(o);
      if (joins) {
        try {
          auto [x, y] = co_await cobalt::join(p0, p1);
          sym_assert(!p0.throws() && !p1.throws() && !p0.a.failed() && !p1.a.failed(), "a failure is not swallowed");
          std::get<1>(p0.a.a).same(x); std::get<1>(p1.a.a).same(y);
        } catch (initiation_failed &) { sym_assert(p0.throws() || p1.throws(), "threw"); }
        catch (boost::system::system_error &e) { sym_assert(p0.a.failed() || p1.a.failed(), "failed"); }
      } else {
        auto [x, y] = co_await cobalt::gather(p0, p1);
        int i = 0;
        auto check = [&](auto &q, auto &r) {
          sym_assert(r.has_error() == (q.throws() || q.a.failed()), "its own outcome");
          if (r.has_value()) std::get<1>(q.a.a).same(*r);
        };
        check(p0, x); check(p1, y);
      }
      o.resumed++;
    };
    auto c = body();
    bool flip = sym_bool("order");
    for (int i = 0; i < 2; i++) { auto *q = p[i ^ flip]; if (q->pending()) { sym_assert(!o.resumed, "not before the children completed"); q->complete(); } w.poll(); }
    sym_assert(o.resumed == 1 && o.frames == 0, "resumed once");
    c.get();
    sym_reach("end");
  }
  sym_done();
}
