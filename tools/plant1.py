import subprocess, os, sys
PRE = r'''#include <boost/cobalt.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/steady_timer.hpp>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <optional>
#include <vector>
namespace cobalt = boost::cobalt; namespace asio = boost::asio;
using boost::system::error_code;
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
struct loop { asio::io_context ctx{1}; loop() { cobalt::this_thread::set_executor(ctx.get_executor()); } void poll() { ctx.restart(); ctx.poll(); } };
// an awaitable completed by hand
struct manual : cobalt::op<error_code, int>
{
  std::optional<cobalt::completion_handler<error_code, int>> h; bool cancelled = false; bool auto_cancel = true;
  void initiate(cobalt::completion_handler<error_code, int> f) override
  {
    auto s = f.get_cancellation_slot();
    h.emplace(std::move(f));
    if (s.is_connected()) s.assign([this](asio::cancellation_type) { cancelled = true; if (auto_cancel) complete(asio::error::operation_aborted, 0); });
  }
  void complete(error_code e, int v) { if (!h) return; auto f = std::move(*h); h.reset(); auto s = f.get_cancellation_slot(); if (s.is_connected()) s.clear(); asio::post(asio::append(std::move(f), e, v)); }
};
'''
B = []
def bug(id, prop, edits, demo, needs, what, pre=True, sources=None):
    B.append((id, prop, edits, ('// sources: %s\n' % sources if sources else '') + (PRE if pre else '') + demo, needs, what))
I = 'include/boost/cobalt/'
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for id, prop, edits, demo, needs, what in B:
    if only and id not in only: continue
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(demo)
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['python3', '/verif/tools/seed.py', 'new', id, prop, needs, what]); assert r.returncode == 0
