// C04, C05: join and gather over children that are ready, complete while suspending, later in any order, fail or throw when started
#include "comb.hpp"
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
struct res { out o; bool has[4] = {}; int value[4] = {}, err[4] = {-1, -1, -1, -1}; int count = 0; };
template <class T> int vof(T &x) { if constexpr (requires { val(x); }) return val(x); else return 0; }
// outcome of a join
template <class V> void take(res &r, V &&v) {
  if constexpr (requires { v.size(); }) { r.count = (int)v.size(); for (size_t i = 0; i < v.size(); i++) { r.has[i] = true; r.value[i] = vof(v[i]); } }
  else std::apply([&](auto &... x) { int i = 0; ((r.has[i] = true, r.value[i] = vof(x), i++), ...); r.count = i; }, v);
}
template <class J> cobalt::promise<void> join_act(J j, res &r, int style) {
  using T = decltype(std::move(j).operator co_await().await_resume());
  if (style == 0) {
    try {
      if constexpr (std::is_void_v<T>) { co_await std::move(j); r.count = -1; }
      else { auto v = co_await std::move(j); take(r, v); }
    } catch (failure &f) { r.o.err = f.id; } catch (std::exception &) { r.o.err = -3; }
  } else if (style == 1) {
    auto v = co_await cobalt::as_result(std::move(j));
    if (v.has_error()) r.o.err = err_id(v.error());
    else if constexpr (std::is_void_v<T>) r.count = -1; else take(r, *v);
  } else {
    auto t = co_await cobalt::as_tuple(std::move(j));
    if (std::get<0>(t)) r.o.err = err_id(std::get<0>(t));
    else if constexpr (std::is_void_v<T>) r.count = -1; else take(r, std::get<1>(t));
  }
  r.o.resumed++;
}
template <class T> void part(res &r, int i, boost::system::result<T, std::exception_ptr> &x) {
  if (x.has_error()) r.err[i] = err_id(x.error());
  else { r.has[i] = true; if constexpr (!std::is_void_v<T>) r.value[i] = val(*x); }
}
template <class V> void gtake(res &r, V &v) {
  if constexpr (requires { v.size(); }) { r.count = (int)v.size(); for (size_t i = 0; i < v.size(); i++) part(r, (int)i, v[i]); }
  else std::apply([&](auto &... x) { int i = 0; (part(r, i++, x), ...); r.count = i; }, v);
}
template <class J> cobalt::promise<void> gather_act(J j, res &r, int style) {
  if (style == 0) { auto v = co_await std::move(j); gtake(r, v); }
  else if (style == 1) { auto v = co_await cobalt::as_result(std::move(j)); sym_assert(!v.has_error(), "gather itself does not fail"); gtake(r, *v); }
  else {
    auto t = co_await cobalt::as_tuple(std::move(j)); sym_assert(!std::get<0>(t), "gather itself does not fail");
    if constexpr (requires { std::get<1>(t).size(); }) gtake(r, std::get<1>(t));
    else std::apply([&](auto &, auto &... x) { int i = 0; (part(r, i++, x), ...); r.count = i; }, t);
  }
  r.o.resumed++;
}
void check(st *s, int n, res &r, bool gather, bool all_void, bool external) {
  bool all = true; int failed = -1;
  for (int i = 0; i < n; i++) {
    if (s[i].pending) all = false;
    if (s[i].fails && (failed < 0 || s[i].order < s[failed].order)) failed = i;
  }
  for (int i = 0; i < n; i++) {
    sym_assert(s[i].started == 1, "every child is started");
    if (s[i].pending) {
      bool cancelled = s[i].cancelled != ctype::none, expect = external || (!gather && failed >= 0);
      sym_assert(cancelled == expect, "a child is cancelled when the join has failed or the caller cancels, and only then");
      if (cancelled && !external) sym_reach("cancelled by failure");
    }
  }
  sym_assert((r.o.resumed == 1) == all && r.o.resumed <= 1, "the awaiter is resumed once, when every child has completed");
  if (!r.o.resumed) return;
  if (!gather && failed >= 0) { sym_assert(r.o.err == failed && r.count == 0, "the exception is that of the first child to fail"); sym_reach("exception"); return; }
  if (!gather) sym_assert(r.o.err == -1, "no exception without a failure");
  if (!gather && all_void) { sym_assert(r.count == -1, "completes with nothing"); sym_reach("values"); return; }
  sym_assert(r.count == n, "one result per child");
  for (int i = 0; i < n; i++) {
    if (s[i].fails) { sym_assert(!r.has[i] && r.err[i] == i, "the exception is in its child's place"); sym_reach("exception"); }
    else sym_assert(r.has[i] && r.value[i] == s[i].value() && r.err[i] == -1, "the value is in its child's place");
  }
  sym_reach("values");
}
template <class F> void run(st *s, int n, F make, bool gather, bool all_void, int cancels) {
  world w; res r;
  {
    auto p = make(r);
    check(s, n, r, gather, all_void, false);
    bool external = false, later = false;
    while (!r.o.resumed) {
      int c = sym_int("child", 0, n - 1 + (cancels > 0));
      if (c == n) { cancels--; external = true; p.cancel(); sym_reach("cancelled"); }
      else { sym_assume(s[c].pending); fire(s[c]); later = true; }
      check(s, n, r, gather, all_void, external);
    }
    if (later) sym_reach("completed later"); else sym_reach("at once");
    w.poll();
    sym_assert(p.ready() && r.o.resumed == 1, "the awaiting coroutine finished"); p.get();
  }
  sym_assert(tok::live == 0, "every result is destroyed once");
  sym_done();
}
template <bool G, class... T> auto mkc(T &&... t) { if constexpr (G) return cobalt::gather(std::forward<T>(t)...); else return cobalt::join(std::forward<T>(t)...); }
template <bool G, class J> auto actor(J j, res &r, int style) { if constexpr (G) return gather_act(std::move(j), r, style); else return join_act(std::move(j), r, style); }
template <bool G, class A, class B, class C, bool Lvalue> void variadic(int modes, int styles, int cancels) {
  st s[3]; s[0].void_ = std::is_void_v<A>; s[1].void_ = std::is_void_v<B>; s[2].void_ = std::is_void_v<C>;
  setup(s, 3, modes, true);
  int style = sym_int("style", 0, styles);
  constexpr bool v = std::is_void_v<A> && std::is_void_v<B> && std::is_void_v<C>;
  if constexpr (Lvalue) {
    ev<A, false> a{&s[0]}; ev<B, false> b{&s[1]}; ev<C, false> c{&s[2]};
    run(s, 3, [&](res &r) { return actor<G>(mkc<G>(a, b, c), r, style); }, G, v, cancels);
  } else run(s, 3, [&](res &r) { return actor<G>(mkc<G>(ev<A, false>{&s[0]}, ev<B, false>{&s[1]}, ev<C, false>{&s[2]}), r, style); }, G, v, cancels);
}
template <bool G, class T, bool Lvalue> void ranged(int modes, int styles, int cancels) {
  st s[4]; int n = sym_int("n", 0, TIER ? 4 : 3);
  for (auto &x : s) x.void_ = std::is_void_v<T>;
  setup(s, n, modes, true);
  int style = sym_int("style", 0, styles);
  std::vector<ev<T, false>> v;
  for (int i = 0; i < n; i++) v.push_back(ev<T, false>{&s[i]});
  if (n == 0) { // an empty range completes at once (or is refused by join)
    bool threw = false; res r; world w;
    try { auto p = actor<G>(mkc<G>(v), r, style); w.poll(); sym_assert(p.ready() && r.o.resumed == 1, "done at once"); } catch (std::exception &) { threw = true; }
    sym_assert(!threw || !G, "an empty gather does not throw"); sym_done(); return;
  }
  if constexpr (Lvalue) run(s, n, [&](res &r) { return actor<G>(mkc<G>(v), r, style); }, G, std::is_void_v<T>, cancels);
  else run(s, n, [&](res &r) { return actor<G>(mkc<G>(std::move(v)), r, style); }, G, std::is_void_v<T>, cancels);
}
// promises as children, moved in or not
template <bool G, bool Lvalue, bool Range> void promises() {
  world w; res r; st s[3]; int frames = 0;
  for (auto &x : s) x.void_ = true;
  setup(s, 3, 1, true);
  {
    auto child = [&](st &s) -> cobalt::promise<int> {
      struct g { int &f; g(int &f) : f(f) { f++; } ~g() { f--; } } gg(frames);
      co_await ev<void, false>{&s};
      co_return 100 + s.id;
    };
    std::vector<cobalt::promise<int>> v;
    for (auto &x : s) v.push_back(child(x));
    // failures among the finished ones are noticed in the order of the arguments
    auto p = [&] {
      if constexpr (Range) { if constexpr (Lvalue) return actor<G>(mkc<G>(v), r, 0); else return actor<G>(mkc<G>(std::move(v)), r, 0); }
      else if constexpr (Lvalue) return actor<G>(mkc<G>(v[0], v[1], v[2]), r, 0);
      else return actor<G>(mkc<G>(std::move(v[0]), std::move(v[1]), std::move(v[2])), r, 0);
    }();
    int first = -1;
    for (int i = 0; i < 3 && first < 0; i++) if (s[i].fails) first = i;
    while (!r.o.resumed) {
      sym_assert(any_pending(s, 3), "completes with its children");
      for (int i = 0; i < 3; i++) if (s[i].pending) sym_assert((s[i].cancelled != ctype::none) == (!G && first >= 0), "promises are cancelled by a failed join");
      int c = sym_int("child", 0, 2);
      sym_assume(s[c].pending);
      fire(s[c]);
      if (s[c].fails && first < 0) first = c;
    }
    sym_assert(!any_pending(s, 3), "no child outlives it");
    if (!G && first >= 0) { sym_assert(r.o.err == first, "the first failure"); sym_reach("exception"); }
    else for (int i = 0; i < 3; i++) {
      if (s[i].fails) { sym_assert(r.err[i] == i, "the exception is in its child's place"); sym_reach("exception"); }
      else { sym_assert(r.has[i] && r.value[i] == 100 + i, "the value is in its child's place"); sym_reach("values"); }
    }
    w.poll(); sym_assert(p.ready(), "done"); p.get();
  }
  sym_assert(frames == 0, "no coroutine is left behind");
  sym_done();
}
#if GATHER
#define G true
#else
#define G false
#endif
#if GATHER
HARNESS(gather_mixed) { variadic<G, int, void, tok, false>(2, 0, 1); }
HARNESS(gather_void) { variadic<G, void, void, void, true>(2, 0, 1); }
HARNESS(gather_styles) { if (sym_bool("void")) variadic<G, void, void, void, true>(1, 2, 0); else variadic<G, tok, int, void, true>(1, 2, 0); }
HARNESS(gather_throwing) { if (sym_bool("void")) variadic<G, void, void, void, false>(4, 0, 0); else variadic<G, int, void, int, false>(4, 0, 0); }
HARNESS(gather_range) { ranged<G, int, false>(2, 0, 1); }
HARNESS(gather_range_tok) { ranged<G, tok, true>(2, 2, 0); }
HARNESS(gather_range_void) { ranged<G, void, true>(2, 2, 0); }
HARNESS(gather_range_throwing) { if (sym_bool("void")) ranged<G, void, false>(4, 0, 0); else ranged<G, int, false>(4, 0, 0); }
HARNESS(gather_promises) { int k = sym_int("kind", 0, 3); if (k == 0) promises<G, true, false>(); else if (k == 1) promises<G, false, false>(); else if (k == 2) promises<G, true, true>(); else promises<G, false, true>(); }
#else
HARNESS(join_mixed) { variadic<G, int, void, tok, false>(2, 0, 1); }
HARNESS(join_void) { variadic<G, void, void, void, true>(2, 0, 1); }
HARNESS(join_styles) { if (sym_bool("void")) variadic<G, void, void, void, true>(1, 2, 0); else variadic<G, tok, int, void, true>(1, 2, 0); }
HARNESS(join_throwing) { if (sym_bool("void")) variadic<G, void, void, void, false>(4, 0, 0); else variadic<G, int, void, int, false>(4, 0, 0); }
HARNESS(join_range) { ranged<G, int, false>(2, 0, 1); }
HARNESS(join_range_tok) { ranged<G, tok, true>(2, 2, 0); }
HARNESS(join_range_void) { ranged<G, void, true>(2, 2, 0); }
HARNESS(join_range_throwing) { if (sym_bool("void")) ranged<G, void, false>(4, 0, 0); else ranged<G, int, false>(4, 0, 0); }
HARNESS(join_promises) { int k = sym_int("kind", 0, 3); if (k == 0) promises<G, true, false>(); else if (k == 1) promises<G, false, false>(); else if (k == 2) promises<G, true, true>(); else promises<G, false, true>(); }
#endif
