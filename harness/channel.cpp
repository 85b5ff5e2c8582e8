// C01, C02: channels under every short program of concurrent readers, writers, closers and cancellations
#include "common.hpp"

constexpr int MAXW = 10, MAXR = 10;
struct rec { int issued = -1, done = -1, outcome = -1, value = -1; bool cancelled = false, after_close = false; };
struct log_t {
  rec w[MAXW], r[MAXR];
  int base = 0; // payloads are base + index of the write
  int nw = 0, nr = 0, clock = 0, cap = 0, wdone = 0, rdone = 0;
  bool closed = false;
  int wopen() { int n = 0; for (int i = 0; i < nw; i++) n += w[i].done < 0; return n; }
  int ropen() { int n = 0; for (int i = 0; i < nr; i++) n += r[i].done < 0; return n; }
  void held() { sym_assert(wdone - rdone <= cap + ropen(), "no more values are accepted than fit or are being read"); }
  int startw() { w[nw].issued = clock++; w[nw].after_close = closed; return nw++; }
  int startr() { r[nr].issued = clock++; r[nr].after_close = closed; return nr++; }
  void endw(int i, int c) {
    sym_assert(w[i].done < 0, "a write completes once"); w[i].done = clock++; w[i].outcome = c;
    if (!c) { wdone++; held(); sym_reach("written"); }
    sym_assert(!c || closed || w[i].cancelled, "a write fails only if cancelled or closed");
    sym_assert(c == 0 || c == 1 || c == 2, "error codes are the documented ones");
    sym_assert(c != 2 || closed, "broken pipe needs a closed channel");
    if (w[i].after_close) sym_assert(c != 0, "a write after close fails");
    if (w[i].after_close && !w[i].cancelled) sym_assert(c == 2, "a write after close fails with broken_pipe");
    if (w[i].cancelled && !closed) sym_assert(c != 2, "a cancelled write is aborted");
  }
  void endr(int i, int c, int v) {
    sym_assert(r[i].done < 0, "a read completes once"); r[i].done = clock++; r[i].outcome = c; r[i].value = v - base;
    if (!c) { rdone++; sym_reach("read"); }
    sym_assert(!c || closed || r[i].cancelled, "a read fails only if cancelled or closed");
    sym_assert(c == 0 || c == 1 || c == 2, "error codes are the documented ones");
    sym_assert(c != 2 || closed, "broken pipe needs a closed channel");
  }
};
template <class T> struct io_ { // how to write and read a T
  static auto write(cobalt::channel<T> &c, T &v) { return c.write(std::move(v)); }
};

template <class T> struct actor {
  log_t &l; cobalt::channel<T> &c; world &w;
  int waiting = -1; bool waiting_write = false; // the operation being awaited
  bool ever = false; // cancelled at some point: later awaits throw
  void cancelled() { ever = true; if (waiting >= 0) (waiting_write ? l.w[waiting] : l.r[waiting]).cancelled = true; }
  cobalt::promise<void> run(const char *op, int n, bool may_yield, bool may_write, bool may_read) {
    for (int k = 0; k < n; k++) {
      int o = sym_int(op, may_write ? 0 : 1, may_yield ? 2 : may_read ? 1 : 0);
      if (o == 1 && !may_read) o = 2;
      bool stop = false;
      if (o == 0) {
        int i = l.startw(); waiting = i; waiting_write = true;
        l.w[i].cancelled = ever;
        int res;
        try {
        if constexpr (std::is_void_v<T>) {
          if (k & 1) { auto [e] = co_await cobalt::as_tuple(c.write()); res = code(e); }
          else { auto e = co_await cobalt::as_result(c.write()); res = e ? 0 : code(e.error()); }
        } else {
          T v(l.base + i);
          if (k & 1) { auto [e] = co_await cobalt::as_tuple(c.write(std::move(v))); res = code(e); }
          else { auto e = co_await cobalt::as_result(c.write(v)); res = e ? 0 : code(e.error()); }
        }
        } catch (boost::system::system_error &e) { res = code(e.code()); }
        waiting = -1;
        l.endw(i, res); stop = res != 0;
      } else if (o == 1) {
        int i = l.startr(); waiting = i; waiting_write = false;
        l.r[i].cancelled = ever;
        int res, got = -1;
        try {
        if constexpr (std::is_void_v<T>) {
          if (k & 1) { auto [e] = co_await cobalt::as_tuple(c.read()); res = code(e); }
          else { auto e = co_await cobalt::as_result(c.read()); res = e ? 0 : code(e.error()); }
        } else {
          auto e = co_await cobalt::as_result(c.read());
          res = e ? 0 : code(e.error());
          if (e) got = val(*e);
        }
        } catch (boost::system::system_error &e) { res = code(e.code()); }
        waiting = -1;
        l.endr(i, res, got); stop = res != 0;
      } else co_await w.yield();
      if (stop) co_return;
    }
  }
};

template <class T> void check(log_t &l) {
  // conservation: values are received once, by reads that do not contradict the order of the writes
  int owner[MAXW]; for (int &o : owner) o = -1;
  if constexpr (!std::is_void_v<T>) {
    for (int i = 0; i < l.nr; i++) {
      if (l.r[i].done < 0 || l.r[i].outcome) continue;
      int v = l.r[i].value;
      sym_assert(v >= 0 && v < l.nw, "only written values are received");
      sym_assert(owner[v] < 0, "a value is received once");
      sym_assert(l.w[v].done < 0 || l.w[v].outcome == 0, "a failed write is not delivered");
      owner[v] = i;
    }
    for (int a = 0; a < l.nw; a++)
      for (int b = a + 1; b < l.nw; b++) {
        if (owner[b] < 0) continue;
        if (owner[a] >= 0) sym_assert(!(l.r[owner[b]].done < l.r[owner[a]].issued), "values are received in the order of the writes");
        else sym_assert(l.w[a].done >= 0 && l.w[a].outcome != 0, "no value is overtaken");
      }
  } else {
    sym_assert(l.rdone <= l.wdone + l.wopen(), "no signal is invented");
  }
}
// at quiescence
template <class T> void check_idle(log_t &l) {
  int wopen = l.wopen(), ropen = l.ropen(), held = l.wdone - l.rdone;
  sym_assert(held >= 0 && held <= l.cap, "at most the capacity is held");
  if (wopen) { sym_assert(held == l.cap, "no write is suspended while there is room"); sym_reach("write suspended"); }
  if (ropen) { sym_assert(held == 0, "no read is suspended while there is a value"); sym_reach("read suspended"); }
  sym_assert(!(wopen && ropen), "a suspended read and write complete each other");
  if (l.closed) sym_assert(!wopen && !ropen, "closing completes every suspended operation");
}
template <class T> cobalt::promise<void> drain(cobalt::channel<T> &c, log_t &l) {
  for (int k = 0; k < MAXR; k++) {
    int i = l.startr(), res, got = -1;
    if constexpr (std::is_void_v<T>) { auto e = co_await cobalt::as_result(c.read()); res = e ? 0 : code(e.error()); }
    else { auto e = co_await cobalt::as_result(c.read()); res = e ? 0 : code(e.error()); if (e) got = val(*e); }
    l.endr(i, res, got);
    if (res) { sym_assert(res == 2, "a drained closed channel reads broken_pipe"); co_return; }
  }
}
template <class T> void finish(world &w, cobalt::channel<T> &c, log_t &l) {
  int held = l.wdone - l.rdone;
  sym_assert(c.is_open() == !l.closed, "is_open reports the state");
  l.closed = true;
  c.close();
  sym_assert(!c.is_open(), "is_open reports the state");
  w.poll();
  sym_assert(!l.wopen() && !l.ropen(), "closing completes every suspended operation");
  sym_assert(l.wdone - l.rdone == held, "closing neither adds nor removes values");
  int before = l.rdone;
  auto d = drain(c, l);
  w.poll();
  sym_assert(d.ready(), "draining a closed channel does not block");
  sym_assert(l.rdone - before == held, "exactly the values held before the close can be read after it");
  check<T>(l);
}

template <class T> void program(int actors, int ops, int maxcap, bool yields) {
  world w; log_t l;
  l.cap = sym_int("cap", 0, maxcap);
  l.base = sym_int("payload", -1000000000, 1000000000);
  cobalt::channel<T> c{(size_t)l.cap};
  {
    actor<T> a[3] = {{l, c, w}, {l, c, w}, {l, c, w}};
    cobalt::promise<void> p0 = a[0].run("op", ops, yields, true, true), p1 = a[1].run("op", ops, yields, true, true), p2 = cobalt::noop();
    if (actors > 2) p2 = a[2].run("op", ops, yields, true, true);
    w.poll();
    check_idle<T>(l);
    finish(w, c, l);
    sym_assert(p0.ready() && p1.ready() && p2.ready(), "every actor finishes");
  }
  sym_assert(tok::live == 0, "every payload is destroyed");
  sym_done();
}
HARNESS(chan_int) { program<int>(3, 3, TIER ? 3 : 2, false); }
HARNESS(chan_int_yield) { program<int>(TIER ? 3 : 2, 3, 1, true); }
HARNESS(chan_tok) { program<tok>(TIER ? 3 : 2, TIER ? 3 : 4, 2, false); }
HARNESS(chan_void) { program<void>(3, 3, TIER ? 3 : 2, false); }
HARNESS(chan_void_yield) { program<void>(TIER ? 3 : 2, 3, 1, true); }
// long runs of one producer and one consumer
template <class T> cobalt::promise<void> produce(cobalt::channel<T> &c, log_t &l, int n, world &w, unsigned y) {
  for (int k = 0; k < n; k++) {
    if (y >> k & 1) co_await w.yield();
    int i = l.startw();
    T v(i);
    co_await c.write(std::as_const(v)); l.endw(i, 0);
  }
}
template <class T> cobalt::promise<void> consume(cobalt::channel<T> &c, log_t &l, int n, world &w, unsigned y) {
  for (int k = 0; k < n; k++) {
    if (y >> k & 1) co_await w.yield();
    int i = l.startr();
    int v = val(co_await c.read()); l.endr(i, 0, v);
    sym_assert(v == k, "one reader receives the values of one writer in order");
  }
}
HARNESS(chan_stream) {
  world w; log_t l; l.cap = sym_int("cap", 0, 3);
  int n = TIER ? 6 : 4;
  cobalt::channel<int> c{(size_t)l.cap};
  bool reader_first = sym_bool("reader_first");
  unsigned yw = sym_int("yields_writer", 0, (1 << n) - 1), yr = sym_int("yields_reader", 0, (1 << n) - 1);
  auto p = reader_first ? consume(c, l, n, w, yr) : produce(c, l, n, w, yw);
  auto q = reader_first ? produce(c, l, n, w, yw) : consume(c, l, n, w, yr);
  w.poll();
  sym_assert(p.ready() && q.ready(), "both finish");
  p.get(); q.get();
  sym_assert(l.wdone == n && l.rdone == n, "everything is transferred");
  check<int>(l);
  sym_done();
}

// ---------------------------------------------------------------- C02
template <class T> cobalt::promise<void> controller(world &w, log_t &l, cobalt::channel<T> &c, actor<T> *a, cobalt::promise<void> *p, int n, int steps, bool can_close) {
  for (int k = 0; k < steps; k++) {
    int o = sym_int("control", can_close ? -2 : -1, n - 1); // -1: yield, -2: close, i: cancel
    if (o == -1) co_await w.yield();
    else if (o == -2) { l.closed = true; c.close(); sym_assert(!c.is_open(), "closed"); sym_reach("closed"); }
    else { a[o].cancelled(); p[o].cancel(); sym_reach("cancelled"); }
  }
}
template <class T> void controlled(int actors, int ops, int maxcap, int steps, bool can_close) {
  world w; log_t l;
  l.cap = sym_int("cap", 0, maxcap);
  l.base = sym_int("payload", -1000000000, 1000000000);
  cobalt::channel<T> c{(size_t)l.cap};
  {
    actor<T> a[3] = {{l, c, w}, {l, c, w}, {l, c, w}};
    // the controller keeps its place in the schedule: it runs after the actors started
    cobalt::promise<void> p[3] = {a[0].run("op", ops, false, true, true), a[1].run("op", ops, false, true, true), actors > 2 ? a[2].run("op", ops, false, true, true) : cobalt::promise<void>(cobalt::noop())};
    auto k = controller(w, l, c, a, p, actors, steps, can_close);
    w.poll();
    sym_assert(k.ready(), "the controller finishes");
    for (int i = 0; i < l.nw; i++) if (l.w[i].cancelled) sym_assert(l.w[i].done >= 0, "a cancelled write completes");
    for (int i = 0; i < l.nr; i++) if (l.r[i].cancelled) sym_assert(l.r[i].done >= 0, "a cancelled read completes");
    for (int i = 0; i < l.nr; i++) if (l.r[i].done >= 0 && l.r[i].cancelled && l.r[i].outcome == 1) sym_reach("aborted");
    check_idle<T>(l);
    finish(w, c, l);
    sym_assert(p[0].ready() && p[1].ready() && p[2].ready(), "every actor finishes");
  }
  sym_assert(tok::live == 0, "every payload is destroyed");
  sym_done();
}
HARNESS(chan_cancel) { controlled<int>(3, 2, 1, TIER ? 3 : 2, false); }
HARNESS(chan_cancel2) { controlled<int>(2, TIER ? 3 : 2, 2, 3, false); }
HARNESS(chan_close) { controlled<int>(TIER ? 3 : 2, 2, 2, 3, true); }
HARNESS(chan_close_tok) { controlled<tok>(3, 1, 1, 2, true); }
HARNESS(chan_void_control) { controlled<void>(3, TIER ? 2 : 1, 1, TIER ? 2 : 3, true); }
HARNESS(chan_void_control2) { controlled<void>(2, 2, 2, 3, true); }
// operations created before the channel is closed, awaited after it
template <class W> cobalt::promise<int> await_op(W &op) { auto r = co_await cobalt::as_result(op); co_return r ? 0 : code(r.error()); }
template <class T> void stale() {
  world w; int cap = sym_int("cap", 0, 2);
  cobalt::channel<T> c{(size_t)cap};
  int v = 7;
  auto wr = [&] { if constexpr (std::is_void_v<T>) return c.write(); else return c.write(v); }();
  auto rd = c.read();
  c.close();
  auto p = await_op(wr), q = await_op(rd);
  w.poll();
  sym_assert(p.ready() && p.get() == 2, "a write awaited after close fails");
  sym_assert(q.ready() && q.get() == 2, "a read awaited after close fails");
  sym_reach("end");
  sym_done();
}
HARNESS(chan_stale) { if (sym_bool("void")) stale<void>(); else stale<int>(); }
// destroying a channel destroys the coroutines waiting on it
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
cobalt::detached waiter(cobalt::channel<tok> &c, bool write, int &alive, int &resumed) {
  guard g(alive);
  if (write) { tok t(1); co_await c.write(t); } else { tok t = co_await c.read(); }
  resumed++;
}
HARNESS(chan_destroy) {
  world w; int alive = 0, resumed = 0;
  int n = sym_int("waiters", 1, 3), cap = sym_int("cap", 0, 1);
  bool write = sym_bool("write"), close = sym_bool("close");
  {
    cobalt::channel<tok> c{(size_t)cap};
    for (int i = 0; i < n; i++) waiter(c, write, alive, resumed);
    sym_assert(alive == (write && n >= cap ? n - cap : n) , "the others wait");
    if (close) c.close();
  }
  if (!close) sym_assert(alive == 0, "waiting coroutines are destroyed with the channel");
  int before = resumed;
  try { w.poll(); } catch (...) {}
  for (int k = 0; k < 4; k++) try { w.poll(); } catch (...) {}
  sym_assert(alive == 0 && resumed == before && tok::live == 0, "nothing is left behind");
  sym_reach("end");
  sym_done();
}
// race over channels loses no value
template <int Ranged> cobalt::promise<void> racer(cobalt::channel<int> &c1, cobalt::channel<int> &c2, int n, int *got, int &ngot) {
  for (int k = 0; k < n; k++) {
    auto r = co_await cobalt::left_race(c1.read(), c2.read());
    got[ngot++] = r.index() == 0 ? boost::variant2::get<0>(r) : boost::variant2::get<1>(r);
  }
}
cobalt::promise<void> feed(cobalt::channel<int> &c, int first, int n, int &written) {
  for (int k = 0; k < n; k++) { co_await c.write(first + k); written++; }
}
HARNESS(chan_race) {
  world w;
  cobalt::channel<int> c1{(size_t)sym_int("cap1", 0, 1)}, c2{(size_t)sym_int("cap2", 0, 1)};
  int n1 = sym_int("n1", 0, 2), n2 = sym_int("n2", 0, 2), nr = n1 + n2;
  int got[8], ngot = 0, written = 0;
  int order = sym_int("order", 0, 2);
  cobalt::promise<void> r = cobalt::noop();
  if (order == 0) r = racer<0>(c1, c2, nr, got, ngot);
  auto p = feed(c1, 10, n1, written);
  if (order == 1) r = racer<0>(c1, c2, nr, got, ngot);
  auto q = feed(c2, 20, n2, written);
  if (order == 2) r = racer<0>(c1, c2, nr, got, ngot);
  w.poll();
  sym_assert(p.ready() && q.ready() && written == nr, "all values are written");
  sym_assert(r.ready(), "racing reads receive all of them");
  sym_assert(ngot == nr, "each race yields a value");
  int e1 = 10, e2 = 20;
  for (int i = 0; i < ngot; i++) {
    if (got[i] < 20) sym_assert(got[i] == e1++, "values of the first channel arrive in order");
    else sym_assert(got[i] == e2++, "values of the second channel arrive in order");
  }
  if (ngot == 4) sym_reach("all");
  sym_done();
}
