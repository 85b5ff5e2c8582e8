// C03: race over children that are ready, complete while suspending, later in any order, fail, or start a transaction first
#include "comb.hpp"
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#define MAXN (TIER ? 4 : 3)
struct rng { using result_type = unsigned; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 5; } unsigned operator()() { return (unsigned)sym_int("rnd", 0, 2); /* larger values are rejected by the distribution */ } };

template <class V> void take(out &o, V &v) {
  if constexpr (std::is_same_v<V, std::size_t>) { o.index = (int)v; o.value = 0; }
  else if constexpr (requires { v.second; }) { o.index = (int)v.first; o.value = val(v.second); }
  else { o.index = (int)v.index(); boost::variant2::visit([&](auto &x) { if constexpr (requires { val(x); }) o.value = val(x); else o.value = 0; }, v); }
}
template <class R> cobalt::promise<void> act(R r, out &o, int style, ctype *seen) {
  if (style == 0) {
    try { auto v = co_await std::move(r); take(o, v); }
    catch (failure &f) { o.err = f.id; } catch (dropped &) { o.err = -2; } catch (std::exception &) { o.err = -3; }
  } else if (style == 1) {
    auto v = co_await cobalt::as_result(std::move(r));
    if (v.has_error()) o.err = err_id(v.error()); else take(o, *v);
  } else {
    auto [e, v] = co_await cobalt::as_tuple(std::move(r));
    if (e) o.err = err_id(e); else take(o, v);
  }
  o.resumed++;
}
// what must hold whenever the event loop is idle
void check(st *s, int n, out &o, bool interruptible, ctype external) {
  int w = -1;
  for (int i = 0; i < n; i++) if (s[i].order == 0) w = i;
  bool all = true;
  for (int i = 0; i < n; i++) {
    if (s[i].pending) all = false;
    if (w >= 0 && s[i].pending && i != w) {
      sym_assert(!interruptible, "a loser that can be interrupted is");
      sym_assert((s[i].cancelled & ctype::all) == ctype::all, "the losers are cancelled once there is a winner");
      sym_reach("loser cancelled");
    }
    if (s[i].pending && w < 0) sym_assert(s[i].cancelled == external, "cancellation goes to the running children");
    if (w < 0) sym_assert(!s[i].interrupted, "nobody is interrupted without a winner");
  }
  sym_assert((o.resumed == 1) == all, "the awaiter is resumed once, when every child has completed");
  if (o.resumed) {
    sym_assert(w >= 0, "there is a winner");
    if (s[w].fails) sym_assert(o.err == w && o.index == -1, "the winner's exception is rethrown");
    else sym_assert(o.err == -1 && o.index == w && o.value == s[w].value(), "index and value are the winner's");
    for (int i = 0; i < n; i++) sym_assert(s[i].started == s[i].resumed, "every child that was started has completed");
  }
}
template <class F> void run(int n, F make, st *s, bool interruptible, bool left, int steps_cancel, int transactions) {
  world w; out o;
  no_late_start = true;
  {
    auto p = make(o);
    check(s, n, o, interruptible, ctype::none);
    ctype external = ctype::none;
    bool waspending = false;
    while (!o.resumed) {
      int c = sym_int("child", 0, n - 1 + (steps_cancel > 0) + (transactions > 0));
      if (c == n && steps_cancel > 0) { steps_cancel--; if (seq == 0) external = ctype::terminal | ctype::partial | ctype::total; p.cancel(); sym_reach("cancelled"); }
      else if (c >= n) { // a child commits to completing, and completes later
        int k = sym_int("which", 0, n - 1);
        sym_assume(s[k].pending && !s[k].transacted);
        transactions--;
        bool ok = true; int before = seq;
        try { s[k].begin(s[k].h.address()); } catch (std::runtime_error &) { ok = false; }
        sym_assert(ok == (before == 0), "only the first transaction is granted");
        if (ok) { s[k].transacted = true; s[k].order = seq++; sym_reach("transaction"); }
      } else {
        sym_assume(s[c].pending);
        fire(s[c]); waspending = true;
      }
      check(s, n, o, interruptible, external);
    }
    if (waspending) sym_reach("completed later"); else sym_reach("at once");
    w.poll();
    sym_assert(p.ready() && o.resumed == 1, "the awaiting coroutine finished"); p.get();
  }
  for (int i = 0; i < n; i++) {
    if (left && s[i].started) for (int j = 0; j < i; j++) sym_assert(s[j].started, "left_race starts its children from left to right");
    if (s[i].order == 0 && s[i].fails) sym_reach("exception");
  }
  sym_assert(tok::live == 0, "every result is destroyed once");
  sym_done();
}
template <class A, class B, class C, bool I, bool Lvalue> void variadic(bool left, int modes, int style_max, int cancels, int trans) {
  st s[3]; s[0].void_ = std::is_void_v<A>; s[1].void_ = std::is_void_v<B>; s[2].void_ = std::is_void_v<C>;
  setup(s, 3, modes, true);
  int style = sym_int("style", 0, style_max);
  if constexpr (Lvalue) {
    ev<A, I> a{&s[0]}; ev<B, I> b{&s[1]}; ev<C, I> c{&s[2]};
    rng g;
    run(3, [&](out &o) { return left ? act(cobalt::left_race(a, b, c), o, style, nullptr) : act(cobalt::race(g, a, b, c), o, style, nullptr); }, s, false, left, cancels, trans);
  } else
    run(3, [&](out &o) {
      if (left) return act(cobalt::left_race(ev<A, I>{&s[0]}, ev<B, I>{&s[1]}, ev<C, I>{&s[2]}), o, style, nullptr);
      return act(cobalt::race(rng{}, ev<A, I>{&s[0]}, ev<B, I>{&s[1]}, ev<C, I>{&s[2]}), o, style, nullptr);
    }, s, I, left, cancels, trans);
}
template <class T, bool I, bool Lvalue> void ranged(bool left, int modes, int style_max, int cancels, int trans) {
  st s[4]; int n = sym_int("n", 1, left ? MAXN : 3);
  for (auto &x : s) x.void_ = std::is_void_v<T>;
  setup(s, n, modes, true);
  int style = sym_int("style", 0, style_max);
  std::vector<ev<T, I>> v;
  for (int i = 0; i < n; i++) v.push_back(ev<T, I>{&s[i]});
  rng g;
  if constexpr (Lvalue) run(n, [&](out &o) { return left ? act(cobalt::left_race(v), o, style, nullptr) : act(cobalt::race(g, v), o, style, nullptr); }, s, false, left, cancels, trans);
  else run(n, [&](out &o) { return left ? act(cobalt::left_race(std::move(v)), o, style, nullptr) : act(cobalt::race(g, std::move(v)), o, style, nullptr); }, s, I, left, cancels, trans);
}
HARNESS(race_mixed) { variadic<int, void, tok, false, false>(true, 2, 0, 1, 0); }
HARNESS(race_mixed_shuffled) { variadic<int, void, tok, false, true>(false, 2, 0, 0, 0); }
HARNESS(race_void) { variadic<void, void, void, false, false>(true, 2, 0, 1, 0); }
HARNESS(race_styles) { variadic<int, void, tok, false, true>(true, 1, 2, 0, 0); }
HARNESS(race_interrupt) { variadic<int, void, int, true, false>(true, 2, 0, 1, 0); }
HARNESS(race_throwing) { if (sym_bool("void")) variadic<void, void, void, false, false>(true, 4, 0, 0, 0); else variadic<int, int, void, true, false>(true, 4, 0, 0, 0); }
HARNESS(race_trans) { if (sym_bool("void")) variadic<void, void, void, false, false>(true, 1, 0, 0, 2); else variadic<int, void, tok, false, false>(true, 1, 0, 0, 2); }
HARNESS(race_range) { ranged<tok, false, false>(true, 2, 2, 1, 0); }
HARNESS(race_range_shuffled) { ranged<int, false, true>(false, 2, 0, 0, 0); }
HARNESS(race_range_void) { ranged<void, false, true>(true, 2, 2, 1, 0); }
HARNESS(race_range_interrupt) { if (sym_bool("void")) ranged<void, true, false>(true, 2, 0, 0, 0); else ranged<int, true, false>(true, 2, 0, 0, 0); }
HARNESS(race_range_throwing) { if (sym_bool("void")) ranged<void, false, false>(true, 4, 0, 0, 0); else ranged<int, false, false>(true, 4, 0, 0, 0); }
HARNESS(race_range_trans) { if (sym_bool("void")) ranged<void, false, false>(true, 1, 0, 0, 2); else ranged<int, false, false>(true, 1, 0, 0, 2); }
// promises as children: lvalues are interrupted and keep running, rvalues are cancelled
cobalt::promise<int> child(st &s, int &frames) {
  struct g { int &f; g(int &f) : f(f) { f++; } ~g() { f--; } } gg(frames);
  co_await ev<void, false>{&s};
  co_return 100 + s.id;
}
template <bool Lvalue, bool Range> void promises() {
  world w; out o; st s[2]; int frames = 0;
  for (auto &x : s) x.void_ = true;
  setup(s, 2, 1, true); no_late_start = false; int start[2];
  {
    std::vector<cobalt::promise<int>> v;
    for (int i = 0; i < 2; i++) { v.push_back(child(s[i], frames)); start[i] = s[i].order; }
    auto aw = [&]() -> cobalt::promise<void> {
      try {
        if constexpr (Range) { if constexpr (Lvalue) { auto r = co_await cobalt::left_race(v); take(o, r); } else { auto r = co_await cobalt::left_race(std::move(v)); take(o, r); } }
        else if constexpr (Lvalue) { auto r = co_await cobalt::left_race(v[0], v[1]); take(o, r); }
        else { auto r = co_await cobalt::left_race(std::move(v[0]), std::move(v[1])); take(o, r); }
      } catch (failure &f) { o.err = f.id; }
      o.resumed++;
    };
    auto p = aw();
    int winner = start[0] >= 0 ? 0 : start[1] >= 0 ? 1 : -1; // a finished one wins from the left
    while (!o.resumed) {
      sym_assert(any_pending(s, 2), "the race ends once its children have completed");
      int c = sym_int("child", 0, 1);
      sym_assume(s[c].pending);
      if (winner < 0) winner = c;
      else if (!Lvalue) sym_assert(s[c].cancelled != ctype::none, "the loser is cancelled");
      fire(s[c]);
    }
    int l = 1 - winner;
    sym_assert(s[winner].fails ? o.err == winner : o.err == -1 && o.index == winner && o.value == 100 + winner, "the first completed promise wins");
    if (Lvalue) {
      sym_assert(s[l].cancelled == ctype::none, "an lvalue promise is not cancelled by losing");
      if (s[l].pending) { sym_assert(!v[l].ready(), "it keeps running"); fire(s[l]); sym_reach("kept running"); }
      sym_assert(v[l].ready() && !!v[l], "its result is still there");
      try { sym_assert(v[l].get() == 100 + l && !s[l].fails, "the loser's value"); } catch (failure &f) { sym_assert(f.id == l && s[l].fails, "the loser's exception"); }
    } else if (start[0] >= 0 && start[1] < 0) { // never started: still with its promise, which is destroyed with the race or vector
      v.clear();
      sym_assert(s[1].pending, "runs until it notices"); sym_reach("not started");
      if (!Range) sym_assert(s[1].cancelled != ctype::none, "destroying the promise cancels it");
      p.get(); s[1].may_fail = false; fire(s[1]);
    }
    w.poll();
    sym_assert(p.ready(), "done");
  }
  sym_assert(frames == 0, "no coroutine is left behind");
  sym_done();
}
HARNESS(race_promises) { promises<true, false>(); }
HARNESS(race_promises_rvalue) { promises<false, false>(); }
HARNESS(race_promises_range) { if (sym_bool("lvalue")) promises<true, true>(); else promises<false, true>(); }
// combinators inside a race
template <bool I, int Kind, bool Range = false> void nested() { // 0 gather, 1 join, 2 race
  world w; out o; st s[3]; no_late_start = false;
  for (auto &x : s) x.void_ = false;
  setup(s, 3, 1, true);
  bool inner_fails = false;
  {
    auto aw = [&]() -> cobalt::promise<void> {
      try {
        if constexpr (Range) {
          std::vector<ev<int, I>> v; for (int i = 0; i < 2; i++) { ev<int, I> e; e.s = &s[i]; v.push_back(e); }
          auto rest = [&](auto c) { return cobalt::left_race(std::move(c), ev<int, I>{&s[2]}); };
          auto fin = [&](auto &r) { o.index = (int)r.index(); if (o.index == 1) o.value = boost::variant2::get<1>(r); return o.index == 0; };
          if constexpr (Kind == 0) {
            auto r = co_await rest(cobalt::gather(std::move(v)));
            if (fin(r)) { auto &q = boost::variant2::get<0>(r); for (int i = 0; i < 2; i++) sym_assert(q[i].has_error() == s[i].fails && (s[i].fails || *q[i] == 100 + i), "the outcome of each child"); }
          } else if constexpr (Kind == 1) {
            auto r = co_await rest(cobalt::join(std::move(v)));
            if (fin(r)) { auto &q = boost::variant2::get<0>(r); sym_assert(q.size() == 2 && q[0] == 100 && q[1] == 101, "the values of the joined children"); }
          } else {
            auto r = co_await rest(cobalt::left_race(std::move(v)));
            if (fin(r)) { auto &q = boost::variant2::get<0>(r); sym_assert(q.second == 100 + (int)q.first, "the inner winner's value"); }
          }
        } else if constexpr (Kind == 0) {
          auto r = co_await cobalt::left_race(cobalt::gather(ev<int, I>{&s[0]}, ev<int, I>{&s[1]}), ev<int, I>{&s[2]});
          o.index = (int)r.index();
          if (o.index == 1) o.value = boost::variant2::get<1>(r);
          else {
            auto &[a, b] = boost::variant2::get<0>(r);
            sym_assert(a.has_error() == s[0].fails && (s[0].fails || *a == 100), "the outcome of the first child");
            sym_assert(b.has_error() == s[1].fails && (s[1].fails || *b == 101), "the outcome of the second child");
          }
        } else if constexpr (Kind == 1) {
          auto r = co_await cobalt::left_race(cobalt::join(ev<int, I>{&s[0]}, ev<int, I>{&s[1]}), ev<int, I>{&s[2]});
          o.index = (int)r.index();
          if (o.index == 1) o.value = boost::variant2::get<1>(r);
          else { auto &[a, b] = boost::variant2::get<0>(r); sym_assert(a == 100 && b == 101, "the values of the joined children"); }
        } else {
          auto r = co_await cobalt::left_race(cobalt::left_race(ev<int, I>{&s[0]}, ev<int, I>{&s[1]}), ev<int, I>{&s[2]});
          o.index = (int)r.index();
          if (o.index == 1) o.value = boost::variant2::get<1>(r);
          else { auto &q = boost::variant2::get<0>(r); sym_assert(s[q.index()].order == 0 || (s[2].order == 0 && s[q.index()].order == 1), "the inner winner"); }
        }
      } catch (failure &f) { o.err = f.id; }
      o.resumed++;
    };
    auto p = aw();
    auto started_pending = [&] { return s[0].pending || s[1].pending || s[2].pending; };
    while (!o.resumed) {
      sym_assert(started_pending(), "the race ends once its children have completed");
      int c = sym_int("child", 0, 2);
      sym_assume(s[c].pending);
      fire(s[c]);
      if (s[2].order == 0 || (s[2].order == 1 && Kind == 0)) // the plain child won
        for (int i = 0; i < 2; i++) if (s[i].pending) { sym_assert(s[i].cancelled != ctype::none, "cancellation reaches the children of the inner combinator"); sym_reach("inner cancelled"); }
    }
    sym_assert(!started_pending(), "nothing outlives the race");
    for (int i = 0; i < 3; i++) sym_assert(s[i].started == s[i].resumed, "every child completed");
    // when is the inner one complete?
    bool plain = s[2].order >= 0;
    int inner = -1; // the order at which the inner combinator was complete
    auto done = [&](int i) { return s[i].order; };
    if (Kind == 0) inner = s[0].order >= 0 && s[1].order >= 0 ? std::max(done(0), done(1)) : -1;
    if (Kind == 1) inner = s[0].order >= 0 && s[1].order >= 0 ? std::max(done(0), done(1)) : (s[0].order >= 0 && s[0].fails) ? done(0) : (s[1].order >= 0 && s[1].fails) ? done(1) : -1;
    if (Kind == 2) inner = s[0].order >= 0 && s[1].order >= 0 ? std::max(done(0), done(1)) : std::max(done(0), done(1));
    bool inner_wins = inner >= 0 && (!plain || inner < s[2].order);
    if (!inner_wins) sym_assert(s[2].fails ? o.err == 2 : o.err == -1 && o.index == 1 && o.value == 102, "the plain child wins");
    else {
      sym_reach("inner wins");
      if (Kind == 0) sym_assert(o.err == -1 && o.index == 0, "the gather wins");
      else {
        int f = s[0].order >= 0 && (s[1].order < 0 || s[0].order < s[1].order) ? 0 : 1; // first to complete
        if (Kind == 1) {
          int e = s[f].fails ? f : s[1 - f].order >= 0 && s[1 - f].fails ? 1 - f : -1;
          sym_assert(e >= 0 ? o.err == e : o.err == -1 && o.index == 0, "the join wins");
        } else sym_assert(s[f].fails ? o.err == f : o.err == -1 && o.index == 0, "the inner race wins");
      }
    }
    p.get();
  }
  sym_done();
}
HARNESS(race_gather) { nested<false, 0>(); }
HARNESS(race_join) { nested<false, 1>(); }
HARNESS(race_race) { nested<false, 2>(); }
HARNESS(race_gather_int) { nested<true, 0>(); }
HARNESS(race_join_int) { nested<true, 1>(); }
HARNESS(race_race_int) { nested<true, 2>(); }
HARNESS(race_gathers) { nested<false, 0, true>(); }
HARNESS(race_joins) { nested<false, 1, true>(); }
HARNESS(race_races) { nested<false, 2, true>(); }
HARNESS(race_gathers_int) { nested<true, 0, true>(); }
HARNESS(race_joins_int) { nested<true, 1, true>(); }
HARNESS(race_races_int) { nested<true, 2, true>(); }
// A join or race of named promises that loses a race is interrupted: its promises are not cancelled and can be awaited again.
struct wait_op : cobalt::op<error_code> {
  std::optional<cobalt::completion_handler<error_code>> h; int cancels = 0;
  void initiate(cobalt::completion_handler<error_code> f) override {
    auto sl = f.get_cancellation_slot(); h.emplace(std::move(f));
    if (sl.is_connected()) sl.assign([this](ctype) { cancels++; });
  }
  void complete() { auto f = std::move(*h); h.reset(); std::move(f)(error_code()); }
};
cobalt::promise<int> kept(wait_op &o, bool at_once, int v) { if (!at_once) co_await o; co_return v; }
template <int Kind> void keeps() { // 0 join, 1 join over a range, 2 race, 3 race over a range
  {
    world w; seq = 0; wait_op o[2]; st s[1]; s[0].id = 2; bool at_once[2] = {sym_bool("ready0"), sym_bool("ready1")};
    std::vector<cobalt::promise<int>> v; int won = -1;
    for (int i = 0; i < 2; i++) v.push_back(kept(o[i], at_once[i], 10 + i));
    auto body = [&]() -> cobalt::promise<void> {
      if constexpr (Kind == 0) { auto r = co_await cobalt::left_race(ev<int, false>{&s[0]}, cobalt::join(v[0], v[1])); won = (int)r.index(); }
      if constexpr (Kind == 1) { auto r = co_await cobalt::left_race(ev<int, false>{&s[0]}, cobalt::join(v)); won = (int)r.index(); }
      if constexpr (Kind == 2) { auto r = co_await cobalt::left_race(ev<int, false>{&s[0]}, cobalt::left_race(v[0], v[1])); won = (int)r.index(); }
      if constexpr (Kind == 3) { auto r = co_await cobalt::left_race(ev<int, false>{&s[0]}, cobalt::left_race(v)); won = (int)r.index(); }
    };
    auto p = body(); bool done[2] = {at_once[0], at_once[1]};
    int first = sym_int("first", 0, 2);
    if (first < 2) { sym_assume(o[first].h.has_value() && won < 0); o[first].complete(); done[first] = true; }
    bool inner = Kind < 2 ? done[0] && done[1] : done[0] || done[1];
    if (won < 0) { sym_assert(s[0].pending, "still racing"); fire(s[0]); }
    sym_assert(won == inner, "the first one wins"); sym_assert(p.ready(), "the race is over");
    if (!inner) {
      sym_reach("lost");
      for (int i = 0; i < 2; i++) {
        sym_assert(o[i].cancels == 0, "promises awaited by name are not cancelled");
        if (o[i].h) { sym_reach("kept running"); o[i].complete(); sym_assert(v[i].ready() && v[i].get() == 10 + i, "they finish with their value"); }
      }
    } else for (int i = 0; i < 2; i++) if (o[i].h) o[i].complete();
    p.get();
  }
  sym_done();
}
HARNESS(race_keeps) { int k = sym_int("kind", 0, 3); if (k == 0) keeps<0>(); else if (k == 1) keeps<1>(); else if (k == 2) keeps<2>(); else keeps<3>(); }
