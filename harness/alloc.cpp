// C16: coroutine frames and intermediate buffers go back where they came from
#include "common.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/bind_allocator.hpp>
#include <boost/asio/bind_executor.hpp>
#include <optional>
namespace pmr = boost::cobalt::pmr;
struct failure { int id; };
struct guard { int &n; guard(int &n) : n(n) { n++; } ~guard() { n--; } };
struct pool final : pmr::memory_resource { // remembers every block it handed out
  struct blk { char *p; size_t n, a; } tab[24]; int live = 0, total = 0, fail = -1; bool closed = false;
  void *do_allocate(size_t n, size_t a) override {
    sym_assert(!closed, "nothing is allocated from a resource which is gone");
    sym_assert(live < 24 && a && (a & (a - 1)) == 0 && n, "sane requests");
    if (fail >= 0 && fail-- == 0) throw std::bad_alloc();
    total++;
    char *p = static_cast<char *>(a > 16 ? ::operator new(n, std::align_val_t(a)) : ::operator new(n));
    tab[live++] = {p, n, a};
    return p;
  }
  void do_deallocate(void *p, size_t n, size_t a) override {
    sym_assert(!closed, "nothing is returned to a resource which is gone");
    int i = 0; while (i < live && tab[i].p != p) i++;
    sym_assert(i < live, "freed once, to the resource it came from");
    sym_assert(tab[i].n == n, "with the size it was allocated with");
    sym_assert(tab[i].a == a, "and its alignment");
    tab[i] = tab[--live];
    if (a > 16) ::operator delete(p, std::align_val_t(a)); else ::operator delete(p);
  }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
  bool owns(const void *q) const { for (int i = 0; i < live; i++) if (q >= tab[i].p && q < tab[i].p + tab[i].n) return true; return false; }
};
struct pools { // the global default, the default of the thread, one given explicitly
  pool G, T, A; pmr::memory_resource *og, *ot;
  pools() { og = pmr::set_default_resource(&G); ot = cobalt::this_thread::set_default_resource(&T); }
  ~pools() { cobalt::this_thread::set_default_resource(ot); pmr::set_default_resource(og); }
  int of(const void *q) const { int n = G.owns(q) * 1 + T.owns(q) * 2 + A.owns(q) * 4; return n; }
  void empty() { sym_assert(!G.live && !T.live && !A.live, "everything went back"); }
  pmr::memory_resource *res(int i) { return i == 1 ? &G : i == 2 ? &T : static_cast<pmr::memory_resource *>(&A); }
};
struct hand : cobalt::op<error_code> {
  std::optional<cobalt::completion_handler<error_code>> h; int n = 0;
  void initiate(cobalt::completion_handler<error_code> f) override { n++; h.emplace(std::move(f)); }
  bool pending() const { return !!h; }
  void complete() { auto f = std::move(*h); h.reset(); asio::post(asio::append(std::move(f), error_code())); }
};
struct hist { pools &p; int suspends = 0, frames = 0, started = 0, ended = 0, where = 0, kind = 0; bool fails = false; hand op; const void *at = nullptr; };
using alloc_t = pmr::polymorphic_allocator<void>;
template <size_t N> struct filler { char b[N]; filler() { b[0] = 1; b[N - 1] = 2; } void check() { sym_assert(b[0] == 1 && b[N - 1] == 2, "the frame is left alone"); } };

#define BODY(yield)                                                                                                        \
  guard g(h.frames); filler<N> f; h.started++; h.at = &g; h.where = h.p.of(&g);                                            \
  sym_assert(h.where == 1 || h.where == 2 || h.where == 4, "the frame comes from one of the resources");                   \
  { auto a = co_await cobalt::this_coro::allocator; sym_assert(a.resource() == h.p.res(h.where), "this_coro::allocator is the allocator of the frame"); } \
  for (int i = 0; i < h.suspends; i++) co_await h.op;                                                                      \
  f.check(); sym_assert(arg.v == 7, "the arguments live in the frame");                                                    \
  if (h.fails) throw failure{1};                                                                                           \
  yield;                                                                                                                   \
  h.ended++;
template <class R> struct make;
template <> struct make<cobalt::promise<int>> {
  using R = cobalt::promise<int>;
  template <size_t N> static R plain(hist &h, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R front(std::allocator_arg_t, alloc_t, hist &h, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R middle(hist &h, std::allocator_arg_t, const alloc_t &, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R both(hist &h, tok arg, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, pmr::polymorphic_allocator<char>) { BODY(;) co_return 1; }
};
template <> struct make<cobalt::task<int>> {
  using R = cobalt::task<int>;
  template <size_t N> static R plain(hist &h, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R front(std::allocator_arg_t, alloc_t, hist &h, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R middle(hist &h, std::allocator_arg_t, const alloc_t &, tok arg) { BODY(;) co_return 1; }
  template <size_t N> static R both(hist &h, tok arg, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, pmr::polymorphic_allocator<char>) { BODY(;) co_return 1; }
};
template <> struct make<cobalt::generator<int>> {
  using R = cobalt::generator<int>;
  template <size_t N> static R plain(hist &h, tok arg) { BODY(co_yield 5;) co_return 1; }
  template <size_t N> static R front(std::allocator_arg_t, alloc_t, hist &h, tok arg) { BODY(co_yield 5;) co_return 1; }
  template <size_t N> static R middle(hist &h, std::allocator_arg_t, const alloc_t &, tok arg) { BODY(co_yield 5;) co_return 1; }
  template <size_t N> static R both(hist &h, tok arg, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, pmr::polymorphic_allocator<char>) { BODY(co_yield 5;) co_return 1; }
};
template <> struct make<cobalt::detached> {
  using R = cobalt::detached;
  template <size_t N> static R plain(hist &h, tok arg) { BODY(;) }
  template <size_t N> static R front(std::allocator_arg_t, alloc_t, hist &h, tok arg) { BODY(;) }
  template <size_t N> static R middle(hist &h, std::allocator_arg_t, const alloc_t &, tok arg) { BODY(;) }
  template <size_t N> static R both(hist &h, tok arg, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, pmr::polymorphic_allocator<char>) { BODY(;) }
};
template <class R, size_t N> R start_n(hist &h, world &w) {
  switch (h.kind) {
  case 0: return make<R>::template plain<N>(h, tok(7));
  case 1: return make<R>::template front<N>(std::allocator_arg, alloc_t(&h.p.A), h, tok(7));
  case 2: return make<R>::template middle<N>(h, std::allocator_arg, alloc_t(&h.p.A), tok(7));
  default: return make<R>::template both<N>(h, tok(7), asio::executor_arg, w.ctx.get_executor(), std::allocator_arg, &h.p.A);
  }
}
template <class R> R start(hist &h, world &w) { return sym_bool("large") ? start_n<R, 300>(h, w) : start_n<R, 3>(h, w); }
template <class R> constexpr int home(int kind) { return kind ? 4 : std::is_same_v<R, cobalt::task<int>> ? 1 : 2; }
struct outcome { int v = -1, err = -1, frames = 0; };
template <class R> cobalt::promise<void> await_it(R &r, outcome &o) {
  guard g(o.frames);
  try { o.v = co_await r; } catch (failure &) { o.err = 1; } catch (...) { o.err = 2; }
}
void swap_defaults(pools &p, pool &other) { pmr::set_default_resource(&other); cobalt::this_thread::set_default_resource(&other); (void)p; }

// frames: completed, failed, abandoned, never started or dropped, with the defaults changing after they were created
template <class R> void frames() {
  {
    pools p; pool late; {
      world w; hist h{p}; h.kind = sym_int("kind", 0, 3); h.suspends = sym_int("suspends", 0, 1); h.fails = sym_bool("fails"); outcome o;
      bool change = sym_bool("change"); int end = sym_int("end", 0, 3); // finishes, abandoned, object dropped before that, never awaited
      sym_assume(!(h.fails && end == 2)); // its exception leaves the run loop: frames_escaped
      {
        std::optional<R> r(start<R>(h, w));
        if (change) swap_defaults(p, late);
        if constexpr (std::is_same_v<R, cobalt::task<int>>) { sym_assert(!h.started, "not started"); sym_assert((h.kind ? p.A : p.G).live == 1 && (h.kind ? p.G : p.A).live == 0 && p.T.live == 0, "a task's frame comes from its own allocator or the global default"); }
        else { sym_assert(h.started == 1 && h.where == home<R>(h.kind), "the frame comes from its own allocator or the default of the thread"); }
        if (end == 3) {
          if constexpr (requires { r->detach(); }) r->attach();
          if constexpr (!std::is_same_v<R, cobalt::task<int>>) sym_assume(!h.fails);
          r.reset(); sym_reach("unused");
          if (h.op.pending()) { h.op.h.reset(); }
        } else {
          std::optional<cobalt::promise<void>> q(await_it<R>(*r, o));
          sym_assert(h.started == 1 && h.where == home<R>(h.kind), "from the right place");
          if (h.suspends) {
            sym_assert(h.op.pending(), "waiting");
            if (end == 1) { h.op.h.reset(); sym_assert(!o.frames, "the awaiter is gone"); sym_reach("abandoned"); }
            else {
              if (end == 2) { q.reset(); r.reset(); }
              if (h.op.pending()) h.op.complete();
              w.poll();
            }
          }
          w.poll();
          if (end == 0) { sym_assert(o.err == (h.fails ? 1 : -1), "delivered"); sym_reach(h.fails ? "failed" : "finished"); q->get(); }
          q.reset();
        }
        w.poll();
      }
      w.poll();
      sym_assert(h.frames == 0 && o.frames == 0, "no frame is left");
    }
    p.empty(); sym_assert(!late.live, "everything went back"); sym_assert(tok::live == 0, "arguments are destroyed");
  }
  sym_done();
}
HARNESS(frames_promise) { frames<cobalt::promise<int>>(); }
HARNESS(frames_task) { frames<cobalt::task<int>>(); }
HARNESS(frames_generator) { frames<cobalt::generator<int>>(); }
HARNESS(frames_detached) {
  {
    pools p; pool late; {
      world w; hist h{p}; h.kind = sym_int("kind", 0, 3); h.suspends = sym_int("suspends", 0, 2); bool change = sym_bool("change"), drop = sym_bool("drop"), threw = false;
      h.fails = sym_bool("fails"); sym_assume(!h.fails || !h.suspends);
      try { start<cobalt::detached>(h, w); } catch (failure &) { threw = true; }
      sym_assert(h.started == 1 && h.where == (h.kind ? 4 : 2), "the frame comes from its own allocator or the default of the thread");
      sym_assert(threw == h.fails, "an exception before the first suspension reaches the caller");
      if (change) swap_defaults(p, late);
      for (int i = 0; i < h.suspends && h.op.pending(); i++) { if (drop && i == h.suspends - 1) { h.op.h.reset(); sym_reach("abandoned"); } else { h.op.complete(); w.poll(); } }
      sym_assert(!h.frames, "no frame is left"); sym_reach(threw ? "failed" : "end");
    }
    p.empty(); sym_assert(!late.live && tok::live == 0, "everything went back");
  }
  sym_done();
}
// nobody is left to take the exception, so it leaves the run loop
template <class R> void escaped() {
  {
    pools p; {
      world w; hist h{p}; h.kind = sym_int("kind", 0, 3); h.suspends = 1; h.fails = true; outcome o; bool threw = false;
      if constexpr (std::is_same_v<R, cobalt::detached>) start<R>(h, w);
      else { auto r = start<R>(h, w); if constexpr (std::is_same_v<R, cobalt::task<int>>) { auto q = await_it<R>(r, o); } }
      sym_assert(h.op.pending(), "waiting");
      h.op.complete();
      try { w.poll(); } catch (failure &) { threw = true; }
      sym_assert(threw && !h.frames, "the exception leaves the run loop"); sym_reach("escaped");
    }
    sym_assert(!p.G.live && !p.T.live && !p.A.live, "the frame of a coroutine whose exception left the run loop is freed");
    sym_assert(tok::live == 0, "arguments are destroyed");
  }
  sym_done();
}
HARNESS(escaped_detached) { escaped<cobalt::detached>(); }
HARNESS(escaped_promise) { escaped<cobalt::promise<int>>(); }
// an allocation that fails leaves nothing behind
template <class R> void exhausted() {
  {
    pools p; {
      world w; hist h{p}; h.kind = sym_int("kind", 0, 3); bool threw = false; outcome o;
      pool &home_ = h.kind ? p.A : std::is_same_v<R, cobalt::task<int>> ? p.G : p.T;
      home_.fail = 0;
      try { start<R>(h, w); } catch (std::bad_alloc &) { threw = true; }
      sym_assert(threw && !h.started, "the caller sees the failed allocation"); sym_reach("failed");
    }
    p.empty(); sym_assert(tok::live == 0, "arguments are destroyed");
  }
  sym_done();
}
HARNESS(exhausted_promise) { exhausted<cobalt::promise<int>>(); }
HARNESS(exhausted_task) { exhausted<cobalt::task<int>>(); }
HARNESS(exhausted_generator) { exhausted<cobalt::generator<int>>(); }
HARNESS(exhausted_detached) { exhausted<cobalt::detached>(); }
// no executor: the promise constructor throws after the frame was allocated
template <class R> bool unbound(hist &h) {
  try {
    int k = h.kind; bool big = sym_bool("large");
    if (k == 0) big ? make<R>::template plain<300>(h, tok(7)) : make<R>::template plain<3>(h, tok(7));
    else if (k == 1) big ? make<R>::template front<300>(std::allocator_arg, alloc_t(&h.p.A), h, tok(7)) : make<R>::template front<3>(std::allocator_arg, alloc_t(&h.p.A), h, tok(7));
    else big ? make<R>::template middle<300>(h, std::allocator_arg, alloc_t(&h.p.A), tok(7)) : make<R>::template middle<3>(h, std::allocator_arg, alloc_t(&h.p.A), tok(7));
  } catch (asio::bad_executor &e) { return true; }
  return false;
}
HARNESS(frames_unbound) {
  {
    pools p; hist h{p}; h.kind = sym_int("kind", 0, 2); int which = sym_int("which", 0, 2);
    sym_assert(!cobalt::this_thread::has_executor(), "no executor");
    bool t = which == 0 ? unbound<cobalt::promise<int>>(h) : which == 1 ? unbound<cobalt::generator<int>>(h) : unbound<cobalt::detached>(h);
    sym_assert(t && !h.started, "no executor is an error of the caller"); sym_reach("failed");
    p.empty(); sym_assert(tok::live == 0, "arguments are destroyed");
  }
  sym_done();
}
// spawn and post_coroutine use the allocator of the handler, however big it is
template <class T, int N = 9> struct big { // an allocator with state
  using value_type = T;
  pool *p; long tag[N];
  template <class U> struct rebind { using other = big<U, N>; };
  explicit big(pool *p) : p(p) { for (int i = 0; i < N; i++) tag[i] = i + 1; }
  template <class U> big(const big<U, N> &o) : p(o.p) { for (int i = 0; i < N; i++) tag[i] = o.tag[i]; }
  T *allocate(size_t n) { ok(); return static_cast<T *>(p->allocate(n * sizeof(T), alignof(T))); }
  void deallocate(T *q, size_t n) { ok(); p->deallocate(q, n * sizeof(T), alignof(T)); }
  void ok() const { bool k = true; for (int i = 0; i < N; i++) k = k && tag[i] == i + 1; sym_assert(k, "the allocator kept its state"); }
  template <class U> bool operator==(const big<U, N> &o) const { return p == o.p; }
  template <class U> bool operator!=(const big<U, N> &o) const { return p != o.p; }
};
struct sink { int *n, *err; tok t; sink(int *n, int *err) : n(n), err(err), t(9) {} sink(sink &&) = default;
  void operator()(std::exception_ptr e, int) { sym_assert(t.v == 9, "the handler is intact"); ++*n; *err = e ? 1 : 0; }
  void operator()() { sym_assert(t.v == 9, "the handler is intact"); ++*n; *err = 0; } };
HARNESS(frames_spawn) {
  {
    pools p; int n = 0, err = -1; int kind = sym_int("allocator", 0, 2), end = sym_int("end", 0, 2), tk = sym_int("kind", 0, 1); {
      std::optional<world> w; w.emplace(); hist h{p}; h.kind = tk; h.suspends = sym_int("suspends", 0, 1); h.fails = sym_bool("fails"); {
        auto t = start<cobalt::task<int>>(h, *w);
        if (kind == 0) cobalt::spawn(w->ctx, std::move(t), sink(&n, &err));
        else if (kind == 1) cobalt::spawn(w->ctx, std::move(t), asio::bind_allocator(alloc_t(&p.A), sink(&n, &err)));
        else cobalt::spawn(w->ctx, std::move(t), asio::bind_allocator(big<int>(&p.A), sink(&n, &err)));
      }
      sym_assert(kind == 0 ? p.T.live >= 2 && p.A.live == (tk != 0) : p.A.live >= 2 + (tk != 0), "the completion lives in the allocator of the handler");
      if (end == 2) sym_reach("context gone");
      else {
        w->poll(); sym_assert(h.started == 1, "started");
        if (h.suspends) { sym_assert(h.op.pending() && !n, "waiting"); if (end == 1) { h.op.h.reset(); sym_reach("abandoned"); } else h.op.complete(); }
        w->poll();
        if (!h.suspends || end == 0) { sym_assert(n == 1 && err == h.fails, "completed"); sym_reach(h.fails ? "failed" : "finished"); }
      }
      w.reset(); sym_assert(!h.frames, "no frame is left");
    }
    p.empty(); sym_assert(tok::live == 0, "everything is destroyed");
  }
  sym_done();
}
HARNESS(frames_post) {
  {
    pools p; int n = 0, err = -1; int kind = sym_int("allocator", 0, 4), end = sym_int("end", 0, 2); {
      std::optional<world> w; w.emplace();
      cobalt::unique_handle<void> u;
      auto ex = w->ctx.get_executor(); bool bound = sym_bool("bound");
      auto post = [&](auto h) { u = cobalt::unique_handle<void>::from_address(cobalt::detail::post_coroutine(asio::bind_executor(ex, std::move(h))).address()); };
      auto go = [&](auto h) { if (bound) u = cobalt::unique_handle<void>::from_address(cobalt::detail::post_coroutine(ex, std::move(h)).address()); else post(std::move(h)); };
      if (kind == 0) go(sink(&n, &err));
      else if (kind == 1) go(asio::bind_allocator(alloc_t(&p.A), sink(&n, &err)));
      else if (kind == 2) go(asio::bind_allocator(big<int>(&p.A), sink(&n, &err)));
      else if (kind == 3) go(asio::bind_allocator(big<char, 3>(&p.A), sink(&n, &err)));
      else go(asio::bind_allocator(big<char, 5>(&p.A), sink(&n, &err)));
      sym_assert(p.A.live == (kind != 0) && !n, "the frame lives in the allocator of the handler");
      if (end == 0) { u.reset(); w->poll(); sym_assert(!n, "dropped"); sym_reach("dropped"); }
      else {
        u.release().resume(); sym_assert(!n, "posted, not called");
        if (end == 1) { w->poll(); sym_assert(n == 1 && err == 0, "called once"); sym_reach("called"); } else sym_reach("context gone");
      }
      w.reset();
    }
    p.empty(); sym_assert(tok::live == 0, "everything is destroyed");
  }
  sym_done();
}
// allocate_coroutine by itself: any frame size
template <class T, int P> struct arena_alloc { template <class U> struct rebind { using other = arena_alloc<U, P>; }; using value_type = T; struct st { alignas(16) char mem[1024]; int live = 0; size_t n = 0; char *at = nullptr; } *s; long pad[P];
  explicit arena_alloc(st *s) : s(s) { pad[0] = 5; pad[P - 1] = 6; } template <class U> arena_alloc(const arena_alloc<U, P> &o) : s(reinterpret_cast<st *>(o.s)) { pad[0] = o.pad[0]; pad[P - 1] = o.pad[P - 1]; }
  T *allocate(size_t n) { sym_assert(s->live == 0 && n * sizeof(T) <= 1024, "one block"); s->live = 1; s->n = n * sizeof(T); s->at = s->mem; return reinterpret_cast<T *>(s->mem); }
  void deallocate(T *q, size_t n) { sym_assert(pad[0] == 5 && pad[P - 1] == 6, "the allocator kept its state"); sym_assert(s->live == 1 && (char *)q == s->at && n * sizeof(T) == s->n, "freed as allocated"); s->live = 0; }
};
template <int P> void block() {
  using A = arena_alloc<char, P>; typename A::st s; A a(&s);
  size_t n = sym_int("size", 1, TIER ? 900 : 400);
  char *p = static_cast<char *>(cobalt::allocate_coroutine(n, a));
  sym_assert(p >= s.mem && p + n <= s.mem + s.n && (p - s.mem) % 16 == 0, "the frame fits into its block and is aligned");
  p[0] = 77; p[n - 1] = 77; // the frame's own bytes
#if defined(__cpp_sized_deallocation)
  cobalt::deallocate_coroutine<A>(p, n);
#else
  cobalt::deallocate_coroutine<A>(p);
#endif
  sym_assert(!s.live, "freed"); sym_reach("end"); sym_done();
}
HARNESS(coroutine_block_small) { block<2>(); }
HARNESS(coroutine_block_big) { block<8>(); }
// the buffer of a channel
HARNESS(channel_buffer) {
  {
    pools p; {
      world w; int limit = sym_int("limit", 0, 3); bool given = sym_bool("resource"), del = sym_bool("moved");
      std::optional<cobalt::channel<int>> c;
      if (given) c.emplace(limit, w.ctx.get_executor(), &p.A); else c.emplace(limit, w.ctx.get_executor());
      sym_assert((given ? p.T : p.A).live == 0, "from its resource"); if (limit) sym_assert((given ? p.A : p.T).live == 1, "its buffer");
      (void)del;
      int k = sym_int("writes", 0, 3); sym_assume(k <= limit); int done = 0;
      auto body = [&]() -> cobalt::promise<void> { for (int i = 0; i < k; i++) { co_await c->write(i); done++; } };
      { auto q = body(); w.poll(); sym_assert(done == k && q.ready(), "fits"); q.get(); }
      c.reset(); sym_reach("end");
    }
    p.empty();
  }
  sym_done();
}
