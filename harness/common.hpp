// shared by the coroutine harnesses: an io_context, yielding, payloads that count their instances
#pragma once
#include "sym.h"
#include <boost/cobalt.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
namespace cobalt = boost::cobalt;
namespace asio = boost::asio;
using boost::system::error_code;

struct world {
  asio::io_context ctx{1};
  world() { cobalt::this_thread::set_executor(ctx.get_executor()); }
  void poll() { ctx.restart(); ctx.poll(); }
  auto yield() { return asio::post(ctx, cobalt::use_op); }
};

// move-only payload, counts live instances and detects use after move
struct tok {
  static inline int live = 0;
  int v;
  explicit tok(int v) : v(v) { live++; }
  tok() : v(-2) { live++; }
  tok(tok &&o) noexcept : v(o.v) { o.v = -1; live++; }
  tok &operator=(tok &&o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; }
  ~tok() { sym_assert(live > 0, "no payload is destroyed twice"); v = -3; live--; }
};
inline int val(int v) { return v; }
inline int val(const tok &t) { return t.v; }
inline int code(const error_code &e) { // 0 ok, 1 aborted, 2 broken pipe, 3 other
  return !e ? 0 : e == asio::error::operation_aborted ? 1 : e == asio::error::broken_pipe ? 2 : 3;
}
inline int code(std::exception_ptr e) {
  if (!e) return 0;
  try { std::rethrow_exception(e); }
  catch (boost::system::system_error &s) { return code(s.code()); }
  catch (...) { return 4; }
}
