// C15: wait groups through every short history of pushes, completions, waits, reaps and cancellations
#include "common.hpp"
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/asio/append.hpp>
struct failure { int id; };
struct mem {
  int id; bool suspends = false, throws = false; int frames = 0, cancels = 0; bool finished = false, in = false, gathered = false, reported = false, watched = false;
  asio::cancellation_type ct{};
  std::optional<cobalt::completion_handler<>> h;
  bool pending() const { return !!h; }
  void complete() { auto f = std::move(*h); h.reset(); auto s = f.get_cancellation_slot(); if (s.is_connected()) s.clear(); asio::post(std::move(f)); }
};
struct gate : cobalt::op<> {
  mem &m; gate(mem &m) : m(m) {}
  void initiate(cobalt::completion_handler<> f) override {
    auto s = f.get_cancellation_slot(); m.h.emplace(std::move(f));
    if (s.is_connected()) s.assign([&m = m](asio::cancellation_type t) { m.cancels++; m.ct = t; m.complete(); });
  }
};
struct guard { mem &m; guard(mem &m) : m(m) { m.frames++; } ~guard() { m.frames--; } };
cobalt::promise<void> body(mem &m) {
  guard g(m);
  if (m.suspends) { gate a(m); co_await a; }
  m.finished = true;
  if (m.throws) throw failure{m.id};
}
enum kind { one, all, group, leave, leave_failing };
struct group_model {
  world w; std::optional<cobalt::wait_group> wg; mem m[4]; int n = 0; int done = 0, started = 0; kind k{}; int fail = -1;
  std::optional<cobalt::promise<void>> c;
  int size() { int s = 0; for (int i = 0; i < n; i++) s += m[i].in; return s; }
  bool busy() { return c && !c->ready(); }
  bool busy_one() { return busy() && k == one; }
  bool finished_free(mem &x) { return x.in && x.finished && !x.gathered; }
  void check() {
    sym_assert((int)wg->size() == size(), "size() is the number of members not yet removed");
    for (int i = 0; i < n; i++) sym_assert(m[i].frames == !m[i].finished, "a member runs until it finished");
  }
  void push(bool may_fail) {
    mem &x = m[n]; x.id = n; n++;
    x.suspends = sym_bool("suspends"); x.throws = may_fail && sym_bool("fails");
    wg->push_back(body(x)); x.in = true;
    sym_assert(x.finished == !x.suspends, "runs at once");
  }
  cobalt::promise<void> wait(kind kk) {
    int id = -1;
    try {
      if (kk == one) co_await wg->wait_one();
      else if (kk == all) co_await wg->wait();
      else if (kk == group) co_await *wg;
      else co_await wg->await_exit(kk == leave ? nullptr : std::make_exception_ptr(failure{77}));
    } catch (failure &f) { id = f.id; }
    done++; fail = id;
    if (kk == one) {
      if (id >= 0) {
        sym_assert(id < n && m[id].in && m[id].finished && m[id].throws && !m[id].reported, "the exception is that of a finished member, surfacing once");
        m[id].reported = true; m[id].in = false; sym_reach("member failed");
      } else if (size()) {
        int x = -1; for (int i = 0; i < n; i++) if (finished_free(m[i]) && !m[i].throws) x = i;
        sym_assert(x >= 0, "wait_one completes when a member finished");
        m[x].in = false; sym_reach("one");
        // which of several equal ones was removed cannot be told
      } else sym_reach("empty");
    } else {
      sym_assert(id < 0, "wait swallows the exceptions of its members");
      for (int i = 0; i < n; i++) if (m[i].gathered) { sym_assert(m[i].finished, "wait completes once all members finished"); m[i].gathered = m[i].in = false; }
      sym_reach("all");
    }
    check();
  }
  void start(kind kk) {
    k = kk; int live = 0, c0[4];
    for (int i = 0; i < n; i++) { c0[i] = m[i].cancels; m[i].watched = m[i].in; if (m[i].in) { live++; if (kk != one) m[i].gathered = true; } }
    bool any = false, every = true;
    for (int i = 0; i < n; i++) if (m[i].in) { any |= m[i].finished; every &= m[i].finished; }
    c.reset(); started++;
    c.emplace(wait(kk));
    if (kk == one) sym_assert(c->ready() == (any || !live), "wait_one completes at once exactly if it can");
    else if (kk != leave && kk != leave_failing) sym_assert(c->ready() == every, "wait completes at once exactly if all members finished");
  }
  void settle() { w.poll(); if (c) sym_assert(c->ready() == (done == started), "the waiter finished"); }
};
void history(int steps, int members, bool may_fail, bool seeds) {
  {
    group_model g;
    auto normal = asio::cancellation_type::none, except = asio::cancellation_type::all;
    if (sym_bool("levels")) { normal = asio::cancellation_type::partial; except = asio::cancellation_type::terminal; }
    g.wg.emplace(normal, except);
    cobalt::detail::prng().seed(seeds ? sym_int("seed", 1, 6) * 2 - 1 : 1); // the order wait_one looks at its members in
    for (int s = 0; s < steps; s++) {
      int op = sym_int("op", 0, 6);
      if (op == 0) { sym_assume(g.n < members); g.push(may_fail); }
      else if (op == 1) { // a member finishes
        int i = sym_int("member", 0, members - 1); sym_assume(i < g.n && g.m[i].pending());
        g.m[i].complete(); int d = g.done; bool b = g.busy(); g.w.poll();
        sym_assert(g.m[i].finished, "the member finished");
        if (b && g.k == one && g.m[i].watched) sym_assert(g.done == d + 1, "wait_one completes with the first member to finish");
      }
      else if (op == 2) { sym_assume(!g.busy()); g.start(one); }
      else if (op == 3) { sym_assume(!g.busy()); g.start(sym_bool("co_await") ? group : all); }
      else if (op == 4) { // reap
        int want = 0; for (auto &x : g.m) want += g.finished_free(x);
        sym_assert((int)g.wg->reap() == want, "reap() removes exactly the finished members nobody waits for");
        for (auto &x : g.m) if (g.finished_free(x)) x.in = false;
        if (want) sym_reach("reaped");
      }
      else if (op == 5) {
        int before[4]; bool run[4]; for (int i = 0; i < 4; i++) before[i] = g.m[i].cancels, run[i] = g.m[i].in && g.m[i].pending();
        g.wg->cancel();
        for (int i = 0; i < 4; i++) sym_assert(g.m[i].cancels == before[i] + run[i], "cancel() reaches every unfinished member");
        g.w.poll();
      }
      else { // leave
        sym_assume(!g.busy());
        bool failing = sym_bool("failing"); auto ct = failing ? except : normal;
        int before[4]; bool run[4]; for (int i = 0; i < 4; i++) before[i] = g.m[i].cancels, run[i] = g.m[i].in && g.m[i].pending();
        g.start(failing ? leave_failing : leave);
        for (int i = 0; i < 4; i++) {
          bool hit = run[i] && ct != asio::cancellation_type::none;
          sym_assert(g.m[i].cancels == before[i] + hit, "leaving cancels the members at the configured level");
          if (hit) { sym_assert(((int)g.m[i].ct & 7) == ((int)ct & 7), "the level arrives"); sym_reach("left"); }
        }
        g.w.poll();
      }
      g.check();
    }
    for (int i = 0; i < g.n; i++) if (g.m[i].pending()) { g.m[i].complete(); g.w.poll(); }
    sym_assert(!g.busy() && g.done == g.started, "every wait completes once"); g.c.reset();
    int left = g.size();
    for (int i = 0; i < left; i++) { g.start(one); g.w.poll(); sym_assert(!g.busy(), "members finished"); }
    sym_assert(g.wg->size() == 0, "every member is reported once");
    g.wg.reset();
    g.w.poll();
    for (auto &x : g.m) sym_assert(x.frames == 0, "every member's frame is gone");
  }
  sym_done();
}
HARNESS(wg_history) { history(TIER ? 6 : 5, 2, false, false); }
HARNESS(wg_fail) { history(TIER ? 6 : 5, 2, true, true); }
HARNESS(wg_three) { history(TIER ? 7 : 4, 3, true, true); }
HARNESS(wg_destroy) { // destroying the group cancels what still runs
  {
    group_model g; g.wg.emplace();
    int n = sym_int("members", 0, 3);
    for (int i = 0; i < n; i++) g.push(true);
    for (int i = 0; i < n; i++) if (g.m[i].pending() && sym_bool("complete")) g.m[i].complete();
    if (sym_bool("poll")) g.w.poll();
    bool run[4]; for (int i = 0; i < 4; i++) run[i] = g.m[i].pending();
    g.wg.reset();
    for (int i = 0; i < n; i++) { sym_assert(g.m[i].cancels == run[i], "every unfinished member is cancelled"); if (run[i]) sym_reach("cancelled"); }
    for (bool again = true; again;) { again = false; try { g.w.poll(); } catch (failure &) { again = true; } }
    for (auto &x : g.m) sym_assert(x.frames == 0, "every member's frame is gone");
  }
  sym_done();
}
HARNESS(wg_with) { // leaving a with() scope waits for the members
  {
    group_model g;
    int n = sym_int("members", 0, 2); bool fails = sym_bool("body_fails"); bool left = false;
    auto body_ = [&]() -> cobalt::promise<void> {
      int id = -1;
      try {
        co_await cobalt::with(cobalt::wait_group(), [&](cobalt::wait_group &wg) -> cobalt::promise<void> {
          for (int i = 0; i < n; i++) { mem &x = g.m[i]; x.id = i; x.suspends = sym_bool("suspends"); x.throws = sym_bool("fails"); g.n++; wg.push_back(body(x)); x.in = true; }
          if (sym_bool("yield")) co_await g.w.yield();
          if (fails) throw failure{50};
        });
      } catch (failure &f) { id = f.id; }
      sym_assert(id == (fails ? 50 : -1), "the exception of the body surfaces, those of the members do not");
      for (int i = 0; i < n; i++) { sym_assert(g.m[i].finished && g.m[i].frames == 0, "all members finished before the scope is left"); sym_assert(g.m[i].cancels == (fails && g.m[i].suspends), "cancelled if the body failed"); }
      left = true;
    };
    auto outer = body_();
    g.w.poll();
    for (int i = 0; i < n; i++) if (g.m[i].pending()) { sym_assert(!left && !fails, "waits"); g.m[i].complete(); g.w.poll(); sym_reach("waited"); }
    sym_assert(left && outer.ready(), "left"); outer.get();
    sym_reach(fails ? "failed" : "left");
  }
  sym_done();
}
