// C12: endpoints round-trip through the native sockaddr, for every address, port and path
#include "sym.h"
#include <boost/cobalt/io/endpoint.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <boost/asio/ip/udp.hpp>
#include <boost/asio/local/stream_protocol.hpp>
#include <boost/asio/generic/stream_protocol.hpp>
#include <string>
#include <vector>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/socket.h>
namespace io = boost::cobalt::io;
namespace asio = boost::asio;
using u64 = uint64_t;

static uint32_t be32(uint32_t v) { return __builtin_bswap32(v); }
static uint16_t be16(uint16_t v) { return __builtin_bswap16(v); }
static bool is(const io::endpoint &e, int f, int t, int p) { return e.protocol() == io::protocol_type(static_cast<io::protocol_type::family_t>(f), static_cast<io::protocol_type::type_t>(t), static_cast<io::protocol_type::protocol_t>(p)); }
template <class F> static int outcome(F f) { // 0 no exception, 1 bad access, 2 length error, 3 other
  try { f(); return 0; }
  catch (io::bad_endpoint_access &) { return 1; }
  catch (std::length_error &) { return 2; }
  catch (std::exception &) { return 3; }
}
static void same(const io::endpoint &a, const io::endpoint &b) {
  sym_assert(a.size() == b.size() && a.protocol() == b.protocol(), "copies have the same protocol and size");
  auto p = (const unsigned char *)a.data(), q = (const unsigned char *)b.data();
  bool eq = true;
  for (size_t i = 0; i < 28 && i < a.size(); i++) eq &= p[i] == q[i];
  sym_assert(eq, "copies have the same address");
}
template <class P> static void v4_as(P proto, int type, int prot) {
  uint32_t a = (uint32_t)sym_i64("addr", 0, 0xffffffffll); uint16_t port = (uint16_t)sym_int("port", 0, 65535);
  io::endpoint e{proto, a, port};
  sym_assert(is(e, AF_INET, type, prot), "the protocol is the one given");
  sym_assert(e.size() == sizeof(sockaddr_in), "the size is that of a sockaddr_in");
  auto in = (const sockaddr_in *)e.data();
  sym_assert(in->sin_family == AF_INET && in->sin_port == be16(port) && in->sin_addr.s_addr == a, "the native address holds the values");
  bool z = true; for (int i = 0; i < 8; i++) z &= in->sin_zero[i] == 0;
  sym_assert(z, "padding is zero");
  auto v = get<io::ip_v4>(e);
  sym_assert(v.port() == port && v.addr() == a, "v4 reads back");
  auto ip = get_if<io::ip>(&e);
  sym_assert(ip && ip->is_ipv4() && !ip->is_ipv6() && ip->port() == port, "any-ip reads back");
  auto b = ip->addr();
  u64 lo = 0; for (int i = 12; i < 16; i++) lo |= (u64)b[i] << (8 * (i - 12));
  sym_assert(lo == a, "any-ip address bytes");
  for (int i = 0; i < 12; i++) sym_assert(b[i] == 0, "any-ip prefix is zero");
  sym_assert(!get_if<io::ip_v6>(&e) && !get_if<io::tcp_v6>(&e) && !get_if<io::local_protocol>(&e), "other families do not match");
  sym_assert(outcome([&] { get<io::ip_v6>(e); }) == 1 && outcome([&] { get<io::local_stream>(e); }) == 1, "reading as another family throws");
  sym_assert(!!get_if<io::tcp_v4>(&e) == ((type == 0 || type == SOCK_STREAM) && (prot == 0 || prot == IPPROTO_TCP)), "tcp matches tcp only");
  sym_assert(!!get_if<io::udp_v4>(&e) == ((type == 0 || type == SOCK_DGRAM) && (prot == 0 || prot == IPPROTO_UDP)), "udp matches udp only");
  io::endpoint c(e), d; d = e; same(c, e); same(d, e);
  sym_obs("port", v.port());
  sym_reach("end");
}
HARNESS(ep_v4) {
  switch (sym_int("proto", 0, 2)) { case 0: v4_as(io::ip_v4, 0, 0); break; case 1: v4_as(io::tcp_v4, SOCK_STREAM, IPPROTO_TCP); break; default: v4_as(io::udp_v4, SOCK_DGRAM, IPPROTO_UDP); }
  sym_done();
}
template <class P> static void v6_as(P proto, int type, int prot) {
  std::array<std::uint8_t, 16> a; for (auto &x : a) x = (uint8_t)sym_int("b", 0, 255);
  uint16_t port = (uint16_t)sym_int("port", 0, 65535);
  io::endpoint e{proto, std::span<std::uint8_t, 16>(a), port};
  sym_assert(is(e, AF_INET6, type, prot), "the protocol is the one given");
  sym_assert(e.size() == sizeof(sockaddr_in6), "the size is that of a sockaddr_in6");
  auto in = (const sockaddr_in6 *)e.data();
  sym_assert(in->sin6_family == AF_INET6 && in->sin6_port == be16(port) && in->sin6_flowinfo == 0 && in->sin6_scope_id == 0, "the native address holds the values");
  bool ok = true;
  for (int i = 0; i < 16; i++) ok &= in->sin6_addr.s6_addr[i] == a[i];
  auto v = get<io::ip_v6>(e);
  for (int i = 0; i < 16; i++) ok &= v.addr()[i] == a[i];
  auto ip = get<io::ip>(e);
  auto b = ip.addr();
  for (int i = 0; i < 16; i++) ok &= b[i] == a[i];
  sym_assert(ok, "address bytes read back");
  sym_assert(v.port() == port && ip.port() == port && ip.is_ipv6() && !ip.is_ipv4(), "port and family read back");
  sym_assert(!get_if<io::ip_v4>(&e) && !get_if<io::udp_v4>(&e) && !get_if<io::local_protocol>(&e), "other families do not match");
  sym_assert(outcome([&] { get<io::ip_v4>(e); }) == 1 && outcome([&] { get<io::local_stream>(e); }) == 1, "reading as another family throws");
  sym_assert(!!get_if<io::tcp_v6>(&e) == ((type == 0 || type == SOCK_STREAM) && (prot == 0 || prot == IPPROTO_TCP)), "tcp matches tcp only");
  sym_assert(!!get_if<io::udp_v6>(&e) == ((type == 0 || type == SOCK_DGRAM) && (prot == 0 || prot == IPPROTO_UDP)), "udp matches udp only");
  io::endpoint c(e), d; d = e; same(c, e); same(d, e);
  sym_reach("end");
}
HARNESS(ep_v6) {
  switch (sym_int("proto", 0, 2)) { case 0: v6_as(io::ip_v6, 0, 0); break; case 1: v6_as(io::tcp_v6, SOCK_STREAM, IPPROTO_TCP); break; default: v6_as(io::udp_v6, SOCK_DGRAM, IPPROTO_UDP); }
  sym_done();
}
template <class P> static void unix_as(P proto, int type) {
  static const int lens[] = {0, 1, 2, 5, 13, 14, 15, 60, 106, 107, 108, 109, 200};
  int n = lens[sym_int("len", 0, 12)];
  std::string s(n, 'x');
  for (int i : {0, 1, n / 2, n - 2, n - 1}) if (i >= 0 && i < n) s[i] = (char)sym_int("c", 1, 255);
  if (n > 107) {
    sym_assert(outcome([&] { io::endpoint e{proto, std::string_view(s)}; }) == 2, "a path that does not fit is rejected");
    sym_reach("too long");
    return;
  }
  io::endpoint e{proto, std::string_view(s)};
  sym_assert(is(e, AF_UNIX, type, 0), "the protocol is the one given");
  u64 least = offsetof(sockaddr_un, sun_path) + n;
  sym_assert(e.size() >= least && e.size() <= least + 1, "the size covers exactly the path");
  auto un = (const sockaddr_un *)e.data();
  bool ok = un->sun_path[n] == 0; for (int i = 0; i < n; i++) ok &= un->sun_path[i] == s[i];
  sym_assert(ok, "the native address holds the path");
  auto &l = *get_if<io::local_protocol>(&e);
  auto p = l.path();
  sym_assert(p.size() == (size_t)n, "the path reads back completely");
  for (int i = 0; i < n; i++) ok &= p[i] == s[i];
  sym_assert(ok, "the path reads back");
  sym_assert(get<io::local_protocol>(e).path().size() == (size_t)n, "get yields the same");
  sym_assert(!get_if<io::ip_v4>(&e) && !get_if<io::ip_v6>(&e) && !get_if<io::ip>(&e) && !get_if<io::tcp>(&e), "other families do not match");
  sym_assert(outcome([&] { get<io::ip>(e); }) == 1, "reading as another family throws");
  sym_assert(!!get_if<io::local_stream>(&e) == (type == 0 || type == SOCK_STREAM), "stream matches stream only");
  sym_assert(!!get_if<io::local_datagram>(&e) == (type == 0 || type == SOCK_DGRAM), "datagram matches datagram only");
  sym_assert(!!get_if<io::local_seqpacket>(&e) == (type == 0 || type == SOCK_SEQPACKET), "seqpacket matches seqpacket only");
  sym_reach("fits");
}
HARNESS(ep_unix) {
  switch (sym_int("proto", 0, 3)) {
  case 0: unix_as(io::local_protocol, 0); break; case 1: unix_as(io::local_stream, SOCK_STREAM); break;
  case 2: unix_as(io::local_datagram, SOCK_DGRAM); break; default: unix_as(io::local_seqpacket, SOCK_SEQPACKET); }
  sym_done();
}
// textual v4 addresses: every spelling with the digit counts of a shape
HARNESS(ep_v4_text) {
  static const int shapes[][4] = {{1, 1, 1, 1}, {3, 3, 3, 3}, {1, 2, 3, 2}, {3, 1, 2, 1}};
  auto &sh = shapes[sym_int("shape", 0, TIER ? 3 : 2)];
  std::string s; uint32_t want = 0; bool valid = true;
  for (int i = 0; i < 4; i++) {
    int v = 0;
    if (i) s += '.';
    if (i == 1 && sh[i] == 3) { s += "168"; v = 168; }
    else for (int k = 0; k < sh[i]; k++) { int d = sym_int("digit", sh[i] > 1 && k == 0 ? 1 : 0, 9); s += (char)('0' + d); v = v * 10 + d; }
    if (v > 255) valid = false;
    want |= (uint32_t)(v & 255) << (8 * i);
  }
  bool any = sym_bool("unspec");
  uint16_t port = (uint16_t)sym_int("port", 0, 65535);
  if (!valid) {
    int o = outcome([&] { if (any) io::endpoint e{io::ip, std::string_view(s), port}; else io::endpoint e{io::ip_v4, std::string_view(s), port}; });
    sym_assert(o == 3, "an invalid address is rejected");
    sym_reach("invalid");
    sym_done();
  }
  io::endpoint e = any ? io::endpoint{io::ip, std::string_view(s), port} : io::endpoint{io::ip_v4, std::string_view(s), port};
  sym_assert(is(e, AF_INET, 0, 0) && e.size() == sizeof(sockaddr_in), "an ipv4 endpoint");
  auto v = get<io::ip_v4>(e);
  sym_assert(v.addr() == want && v.port() == port, "the textual address is parsed");
  auto t = v.addr_str();
  auto t2 = get<io::ip>(e).addr_str();
  bool eq = t.size() == s.size() && t2.size() == s.size();
  sym_assert(eq, "the textual address reads back completely");
  for (size_t i = 0; i < s.size(); i++) eq &= t[i] == s[i] && t2[i] == s[i];
  sym_assert(eq, "the textual address reads back");
  sym_reach("valid");
  sym_done();
}
HARNESS(ep_v6_text) {
  // 8 words; x is any hex digit (not a leading zero)
  static const char *forms[] = {"x1:2:3:4:5:6:7:xf", "::xa2", "1fx::", "1:2:3:4:5:6:7:xx", "fe80::axx:0:0:1", "1234:5678:9abc:def0:1234:5678:9abc:x3xd"};
  static const char *bad[] = {"", ":", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2::3", "12345::", "g::", "1.2.3", "::1.2.3.400", "1:2:3:4:5:6:7:", "1.2.3.4.5"};
  bool any = sym_bool("unspec");
  uint16_t port = (uint16_t)sym_int("port", 0, 65535);
  auto make = [&](std::string_view s) { return any ? io::endpoint{io::ip, s, port} : io::endpoint{io::ip_v6, s, port}; };
  int k = sym_int("form", -1, 5);
  if (k < 0) {
    int j = sym_int("bad", 0, 10);
    sym_assert(outcome([&] { make(bad[j]); }) == 3, "an invalid address is rejected");
    sym_reach("invalid");
    sym_done();
  }
  std::string s(forms[k]);
  uint16_t w[8]; int nw = 0, gap = -1; // parse with the substituted digits
  unsigned v = 0; bool have = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == ':') {
      if (have) w[nw++] = v;
      v = 0; have = false;
      if (i + 1 < s.size() && s[i + 1] == ':') { gap = nw; i++; }
      continue;
    }
    unsigned d;
    if (s[i] == 'x') {
      bool first = i == 0 || s[i - 1] == ':';
      d = sym_int("hex", first ? 1 : 0, 15);
      if (TIER) s[i] = d < 10 ? '0' + d : 'a' + d - 10;
      else s[i] = (char)('0' + d + (d > 9 ? 'a' - '0' - 10 : 0));
    } else d = s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10;
    v = v << 4 | d; have = true;
  }
  if (have) w[nw++] = v;
  uint16_t want[8]; int z = 8 - nw;
  for (int i = 0, j = 0; i < 8; i++) want[i] = gap >= 0 && i >= gap && i < gap + z ? 0 : w[j++];
  io::endpoint e = make(s);
  sym_assert(is(e, AF_INET6, 0, 0), "an ipv6 endpoint");
  sym_assert(e.size() == sizeof(sockaddr_in6), "the size is that of a sockaddr_in6");
  auto v6 = get<io::ip_v6>(e);
  auto by = v6.addr();
  bool eq = v6.port() == port;
  for (int i = 0; i < 8; i++) eq &= by[2 * i] == want[i] >> 8 && by[2 * i + 1] == (want[i] & 255);
  sym_assert(eq, "the textual address is parsed");
  auto t = v6.addr_str();
  auto t2 = get<io::ip>(e).addr_str();
  eq = t.size() == s.size() && t2.size() == s.size();
  if (!(k == 1 || k == 2)) {
    sym_assert(eq, "the textual address reads back completely");
    for (size_t i = 0; i < s.size(); i++) eq &= t[i] == s[i] && t2[i] == s[i];
    sym_assert(eq, "the textual address reads back");
  }
  sym_reach("valid");
  sym_done();
}
HARNESS(ep_text_long) { // texts that are too long for the family
  int what = sym_int("what", 0, 2), n = sym_int("len", 14, 60);
  std::string s(n, '1');
  s[n - 1] = (char)sym_int("c", 1, 255);
  sym_assume(s[n - 1] != '%');
  int lim = what == 0 ? 15 : 45;
  int o = outcome([&] {
    if (what == 0) io::endpoint e{io::tcp_v4, std::string_view(s), (uint16_t)80};
    else if (what == 1) io::endpoint e{io::tcp_v6, std::string_view(s), (uint16_t)80};
    else io::endpoint e{io::tcp, std::string_view(s), (uint16_t)80};
  });
  sym_assert(o == (n > lim ? 2 : 3), "too long or invalid text is rejected");
  if (n > lim) sym_reach("too long");
  sym_done();
}
// an endpoint received from the system: any family, type and protocol
HARNESS(ep_wrong_kind) {
  int fam = sym_int("family", 0, 65535), type = sym_int("type", 0, 7), prot = sym_int("protocol", 0, 255);
  io::endpoint e;
  sym_assert(e.capacity() >= sizeof(sockaddr_storage), "any address fits");
  auto s = (sockaddr_storage *)e.data();
  __builtin_memset(s, 0, sizeof *s);
  s->ss_family = (uint16_t)fam;
  e.set_type(static_cast<io::protocol_type::type_t>(type));
  e.set_protocol(static_cast<io::protocol_type::protocol_t>(prot));
  int len = (int[]){0, 16, 28, 110, 127, 128}[sym_int("len", 0, 5)];
  e.resize(len);
  sym_assert(e.size() == (size_t)len, "any size up to the capacity can be set");
  sym_assert(is(e, fam, type, prot), "the protocol reads back");
  auto ok = [&](int f, int t, int p) {
    bool m = f == AF_UNSPEC ? fam == AF_INET || fam == AF_INET6 : fam == f;
    return m && (!t || !type || t == type) && (!p || !prot || p == prot);
  };
#define KIND(x, f, t, p) { \
    bool want = ok(f, t, p); auto q = get_if<io::x>(&e); \
    sym_assert((q != nullptr) == want, "get_if yields an endpoint exactly when the kind matches: " #x); \
    if (want) sym_assert((const void *)q == e.data(), "and it is the address itself"); \
    sym_assert(outcome([&] { get<io::x>(e); }) == (want ? 0 : 1), "get throws exactly when the kind does not match: " #x); }
  switch (sym_int("kind", 0, 13)) {
  case 0: KIND(ip, AF_UNSPEC, 0, 0) break;
  case 1: KIND(ip_v4, AF_INET, 0, 0) break;
  case 2: KIND(ip_v6, AF_INET6, 0, 0) break;
  case 3: KIND(tcp, AF_UNSPEC, SOCK_STREAM, IPPROTO_TCP) break;
  case 4: KIND(tcp_v4, AF_INET, SOCK_STREAM, IPPROTO_TCP) break;
  case 5: KIND(tcp_v6, AF_INET6, SOCK_STREAM, IPPROTO_TCP) break;
  case 6: KIND(udp, AF_UNSPEC, SOCK_DGRAM, IPPROTO_UDP) break;
  case 7: KIND(udp_v4, AF_INET, SOCK_DGRAM, IPPROTO_UDP) break;
  case 8: KIND(udp_v6, AF_INET6, SOCK_DGRAM, IPPROTO_UDP) break;
  case 9: KIND(icmp, AF_UNSPEC, SOCK_DGRAM, IPPROTO_ICMP) break;
  case 10: KIND(local_stream, AF_UNIX, SOCK_STREAM, 0) break;
  case 11: KIND(local_datagram, AF_UNIX, SOCK_DGRAM, 0) break;
  case 12: KIND(local_seqpacket, AF_UNIX, SOCK_SEQPACKET, 0) break;
  default: KIND(local_protocol, AF_UNIX, 0, 0) }
  sym_reach("end");
  sym_done();
}
// endpoints of asio convert with everything they describe
HARNESS(ep_from_asio) {
  uint32_t a = (uint32_t)sym_i64("addr", 0, 0xffffffffll); uint16_t port = (uint16_t)sym_int("port", 0, 65535);
  asio::ip::address_v6::bytes_type b; for (auto &x : b) x = (uint8_t)sym_int("b", 0, 255);
  uint32_t scope = (uint32_t)sym_i64("scope", 0, 0xffffffffll);
  bool udp = sym_bool("udp"), v6 = sym_bool("v6");
  auto conv = [&](auto ep) {
    io::endpoint e{ep};
    sym_assert(is(e, v6 ? AF_INET6 : AF_INET, udp ? SOCK_DGRAM : SOCK_STREAM, udp ? IPPROTO_UDP : IPPROTO_TCP), "the protocol is kept");
    sym_assert(e.size() == ep.size(), "the size is kept");
    return e;
  };
  asio::ip::address addr = v6 ? asio::ip::address(asio::ip::address_v6(b, scope)) : asio::ip::address(asio::ip::address_v4(a));
  io::endpoint e = udp ? conv(asio::ip::udp::endpoint(addr, port)) : conv(asio::ip::tcp::endpoint(addr, port));
  auto ip = get<io::ip>(e);
  sym_assert(ip.port() == port && ip.is_ipv6() == v6, "port and family are kept");
  auto by = ip.addr(); bool eq = true;
  if (v6) { for (int i = 0; i < 16; i++) eq &= by[i] == b[i]; sym_assert(((const sockaddr_in6 *)e.data())->sin6_scope_id == scope, "the scope is kept"); }
  else eq = get<io::ip_v4>(e).addr() == be32(a);
  sym_assert(eq, "the address is kept");
  sym_reach("end");
  sym_done();
}
HARNESS(ep_protocols) { // the predefined protocols are those of the platform
  auto is = [](auto p, int f, int t, int pr) {
    io::protocol_type q(p);
    return (int)p.family() == f && (int)p.type() == t && (int)p.protocol() == pr && (int)q.family() == f && (int)q.type() == t && (int)q.protocol() == pr;
  };
  sym_assert(is(io::ip, AF_UNSPEC, 0, 0) && is(io::ip_v4, AF_INET, 0, 0) && is(io::ip_v6, AF_INET6, 0, 0), "ip");
  sym_assert(is(io::tcp, AF_UNSPEC, SOCK_STREAM, IPPROTO_TCP) && is(io::tcp_v4, AF_INET, SOCK_STREAM, IPPROTO_TCP) && is(io::tcp_v6, AF_INET6, SOCK_STREAM, IPPROTO_TCP), "tcp");
  sym_assert(is(io::udp, AF_UNSPEC, SOCK_DGRAM, IPPROTO_UDP) && is(io::udp_v4, AF_INET, SOCK_DGRAM, IPPROTO_UDP) && is(io::udp_v6, AF_INET6, SOCK_DGRAM, IPPROTO_UDP), "udp");
  sym_assert(is(io::icmp, AF_UNSPEC, SOCK_DGRAM, IPPROTO_ICMP), "icmp");
  sym_assert(is(io::local_protocol, AF_UNIX, 0, 0) && is(io::local_stream, AF_UNIX, SOCK_STREAM, 0) && is(io::local_datagram, AF_UNIX, SOCK_DGRAM, 0) && is(io::local_seqpacket, AF_UNIX, SOCK_SEQPACKET, 0), "local");
  int f = sym_int("f", 0, 99), t = sym_int("t", 0, 9), p = sym_int("p", 0, 99);
  io::protocol_type a(static_cast<io::protocol_type::family_t>(f), static_cast<io::protocol_type::type_t>(t), static_cast<io::protocol_type::protocol_t>(p));
  io::protocol_type b(a);
  sym_assert(a == b && (int)a.family() == f && (int)a.type() == t && (int)a.protocol() == p, "protocol values read back");
  io::endpoint none;
  sym_assert(none.protocol() == io::protocol_type() && !get_if<io::ip>(&none) && !get_if<io::local_protocol>(&none), "a default endpoint has no kind");
  sym_reach("end");
  sym_done();
}
