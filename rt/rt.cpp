// Runtime model, compiled to IR and linked with every harness: allocation,
// C++ exceptions and the out-of-line parts of libstdc++/libc/pthread used by cobalt.
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <new>
#include <optional>
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <chrono>
#include <pthread.h>
#include <time.h>

extern "C" {
void *__symex_alloc(size_t n, size_t align, int tag);
void __symex_free(void *, int tag, long size, size_t align);
[[noreturn]] void __symex_unwind(void *);
[[noreturn]] void __symex_fail(const char *kind, const char *msg);
[[noreturn]] void __symex_incomplete(const char *why);

// ---------------------------------------------------------------- memory
void *malloc(size_t n) { return __symex_alloc(n, 16, 1); }
void free(void *p) { if (p) __symex_free(p, 1, -1, 0); }
void *aligned_alloc(size_t a, size_t n) { return __symex_alloc(n, a, 1); }
int posix_memalign(void **p, size_t a, size_t n) { *p = __symex_alloc(n, a, 1); return 0; }
void *calloc(size_t a, size_t b) { char *p = (char *)__symex_alloc(a * b, 16, 1); for (size_t i = 0; i < a * b; i++) ((volatile char *)p)[i] = 0; return p; }
size_t strlen(const char *s) { size_t n = 0; while (((volatile const char *)s)[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *(volatile const char *)a, y = *(volatile const char *)b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *(volatile const char *)a, y = *(volatile const char *)b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { auto p = (volatile const unsigned char *)a, q = (volatile const unsigned char *)b; for (size_t i = 0; i < n; i++) { unsigned char x = p[i], y = q[i]; if (x != y) return x < y ? -1 : 1; } return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { auto p = (volatile const unsigned char *)a; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && ((volatile const char *)s)[i]; i++) ((volatile char *)d)[i] = s[i]; for (; i < n; i++) ((volatile char *)d)[i] = 0; return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { char c = ((volatile const char *)s)[i]; ((volatile char *)d)[i] = c; if (!c) return d; } }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) ((volatile char *)d)[l + i] = s[i]; ((volatile char *)d)[l + i] = 0; return d; }
int vsnprintf(char *d, size_t n, const char *, va_list) { if (n > 1) { d[0] = '#'; d[1] = 0; } else if (n) d[0] = 0; return 1; }
int snprintf(char *d, size_t n, const char *, ...) { if (n > 1) { d[0] = '#'; d[1] = 0; } else if (n) d[0] = 0; return 1; }
char *strerror_r(int, char *b, size_t n) noexcept { if (n) b[0] = 0; return b; }
char *__xpg_strerror_r_model(int, char *b, size_t n) { if (n) b[0] = 0; return b; }
static int the_errno;
int *__errno_location() noexcept { return &the_errno; }
void abort() noexcept { __symex_fail("abort", "abort() called"); }
[[noreturn]] void __assert_fail(const char *a, const char *, unsigned, const char *) noexcept { __symex_fail("assert", a); }
[[noreturn]] void __cxa_pure_virtual() { __symex_fail("pure-virtual", "pure virtual call"); }
[[noreturn]] void __cxa_deleted_virtual() { __symex_fail("pure-virtual", "deleted virtual call"); }
int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
int __cxa_guard_acquire(uint64_t *g) { if (*(volatile char *)g) return 0; return 1; }
void __cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; }
void __cxa_guard_abort(uint64_t *) {}
void *__dynamic_cast(const void *, const void *, const void *, ptrdiff_t) { __symex_incomplete("dynamic_cast"); }

// ---------------------------------------------------------------- pthread (one thread)
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_signal(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t *) noexcept { return 0; }
int pthread_condattr_init(pthread_condattr_t *) noexcept { return 0; }
int pthread_condattr_destroy(pthread_condattr_t *) noexcept { return 0; }
int pthread_condattr_setclock(pthread_condattr_t *, clockid_t) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *) { __symex_fail("deadlock", "the event loop would block forever"); }
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *) { __symex_fail("deadlock", "the event loop would block"); }
pthread_t pthread_self() noexcept { return 1; }
int pthread_once(pthread_once_t *c, void (*f)()) { if (!*c) { *c = 1; f(); } return 0; }
int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) noexcept { __symex_incomplete("pthread_create"); }
int pthread_key_create(pthread_key_t *k, void (*)(void *)) noexcept { static unsigned n; *k = n++; return 0; }
int pthread_key_delete(pthread_key_t) noexcept { return 0; }
static void *tss[16];
void *pthread_getspecific(pthread_key_t k) noexcept { return tss[k]; }
int pthread_setspecific(pthread_key_t k, const void *v) noexcept { tss[k] = (void *)v; return 0; }
void *__tls_get_addr(void *) { __symex_incomplete("tls"); }
}

void *operator new(size_t n) { return __symex_alloc(n, 16, 2); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __symex_alloc(n, 16, 2); }
__attribute__((weak)) void *operator new(size_t n, std::align_val_t a) { return __symex_alloc(n, (size_t)a, 4); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return __symex_alloc(n, (size_t)a, 4); }
void *operator new[](size_t n) { return __symex_alloc(n, 16, 3); }
void operator delete(void *p) noexcept { if (p) __symex_free(p, 2, -1, 0); }
void operator delete(void *p, size_t n) noexcept { if (p) __symex_free(p, 2, (long)n, 0); }
__attribute__((weak)) void operator delete(void *p, std::align_val_t a) noexcept { if (p) __symex_free(p, 4, -1, (size_t)a); }
__attribute__((weak)) void operator delete(void *p, size_t n, std::align_val_t a) noexcept { if (p) __symex_free(p, 4, (long)n, (size_t)a); }
void operator delete[](void *p) noexcept { if (p) __symex_free(p, 3, -1, 0); }
void operator delete[](void *p, size_t) noexcept { if (p) __symex_free(p, 3, -1, 0); }

// ---------------------------------------------------------------- exceptions
namespace {
struct Hdr { void *tinfo; void (*dtor)(void *); void *obj; void *adj; long refs; long handlers; Hdr *next; Hdr *primary; };
static_assert(sizeof(Hdr) == 64);
Hdr *caught; unsigned uncaught;
Hdr *hd(void *h) { return (Hdr *)h - 1; }
void *hnd(Hdr *h) { return h + 1; }
Hdr *mk(size_t n) { Hdr *h = (Hdr *)__symex_alloc(n + sizeof(Hdr), 16, 5); h->tinfo = nullptr; h->dtor = nullptr; h->obj = hnd(h); h->adj = hnd(h); h->refs = 0; h->handlers = 0; h->next = nullptr; h->primary = nullptr; return h; }
void rel(Hdr *h) { if (--h->refs == 0) { if (h->dtor) h->dtor(hnd(h)); __symex_free(h, 5, -1, 0); } }
void drop(Hdr *h) { if (h->primary) { Hdr *p = h->primary; __symex_free(h, 5, -1, 0); rel(p); } else rel(h); }
}
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept { return hnd(mk(n)); }
void __cxa_free_exception(void *h) noexcept { __symex_free(hd(h), 5, -1, 0); }
[[noreturn]] void __cxa_throw(void *h, void *ti, void (*dtor)(void *)) { hd(h)->tinfo = ti; hd(h)->dtor = dtor; hd(h)->refs = 1; uncaught++; __symex_unwind(h); }
__cxxabiv1::__cxa_refcounted_exception *__cxa_init_primary_exception_(void *h, std::type_info *ti, void (*dtor)(void *)) noexcept __asm__("__cxa_init_primary_exception");
__cxxabiv1::__cxa_refcounted_exception *__cxa_init_primary_exception_(void *h, std::type_info *ti, void (*dtor)(void *)) noexcept { hd(h)->tinfo = ti; hd(h)->dtor = dtor; hd(h)->refs = 0; return (__cxxabiv1::__cxa_refcounted_exception *)hd(h); }
void *__cxa_get_exception_ptr(void *h) noexcept { return hd(h)->adj; }
void *__cxa_begin_catch(void *h) noexcept {
  Hdr *x = hd(h);
  x->handlers = x->handlers < 0 ? -x->handlers + 1 : x->handlers + 1;
  if (x != caught) { x->next = caught; caught = x; }
  uncaught--;
  return x->adj;
}
void __cxa_end_catch() {
  Hdr *x = caught; if (!x) return;
  long c = x->handlers;
  if (c < 0) { if (++c == 0) caught = x->next; x->handlers = c; }
  else { x->handlers = --c; if (c == 0) { caught = x->next; drop(x); } else if (c < 0) __symex_fail("terminate", "end_catch"); }
}
[[noreturn]] void __cxa_rethrow() { Hdr *x = caught; if (!x) __symex_fail("terminate", "rethrow without exception"); x->handlers = -x->handlers; uncaught++; __symex_unwind(hnd(x)); }
[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast(); }
[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
[[noreturn]] void __clang_call_terminate_model(void *) { __symex_fail("terminate", "exception escapes a noexcept function"); }
int __gxx_personality_v0(...) { return 0; }
void _Unwind_Resume(void *) { __symex_incomplete("_Unwind_Resume"); }
}
namespace std {
void terminate() noexcept { __symex_fail("terminate", "std::terminate called"); }
bool uncaught_exception() noexcept { return uncaught; }
int uncaught_exceptions() noexcept { return uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hd(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { rel(hd(_M_exception_object)); _M_exception_object = nullptr; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info *exception_ptr::__cxa_exception_type() const noexcept { return (const std::type_info *)hd(_M_exception_object)->tinfo; }
}
exception_ptr current_exception() noexcept { return caught ? exception_ptr(caught->obj) : exception_ptr(); }
void rethrow_exception(exception_ptr ep) {
  Hdr *p = hd(ep._M_get());
  Hdr *d = mk(0); d->tinfo = p->tinfo; d->obj = hnd(p); d->primary = p; d->refs = 1; p->refs++;
  uncaught++;
  ep = nullptr;
  __symex_unwind(hnd(d));
}

// ---------------------------------------------------------------- library exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
__cow_string::__cow_string() : _M_p(nullptr) {}
static char *dup(const char *s, size_t n) { char *p = new char[n + 1]; for (size_t i = 0; i < n; i++) ((volatile char *)p)[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.c_str(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p ? dup(o._M_p, strlen(o._M_p)) : nullptr) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] (char *)_M_p; _M_p = o._M_p ? dup(o._M_p, strlen(o._M_p)) : nullptr; } return *this; }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { delete[] (char *)_M_p; }
#define BASE_EXC(X) \
  X::X(const string &s) : exception(), _M_msg(s) {} \
  X::X(const char *s) : exception(), _M_msg(s, strlen(s)) {} \
  X::X(X &&o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {} \
  X &X::operator=(X &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
  X::X(const X &o) noexcept : exception(), _M_msg(o._M_msg) {} \
  X &X::operator=(const X &o) noexcept { _M_msg = o._M_msg; return *this; } \
  X::~X() noexcept {} \
  const char *X::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
BASE_EXC(logic_error)
BASE_EXC(runtime_error)
#define DER_EXC(X, B) X::X(const string &s) : B(s) {} X::X(const char *s) : B(s) {} X::~X() noexcept {}
DER_EXC(domain_error, logic_error)
DER_EXC(invalid_argument, logic_error)
DER_EXC(length_error, logic_error)
DER_EXC(out_of_range, logic_error)
DER_EXC(range_error, runtime_error)
DER_EXC(overflow_error, runtime_error)
DER_EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { __symex_fail("system_error", "std::system_error thrown by libstdc++"); }
void __throw_future_error(int) { __symex_fail("future_error", "std::future_error thrown by libstdc++"); }

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base &a, _List_node_base &b) noexcept { __symex_incomplete("list swap"); }
void _List_node_base::_M_reverse() noexcept { __symex_incomplete("list reverse"); }
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  // unbalanced insertion: same order, no rotation
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}

// ---------------------------------------------------------------- memory resources
namespace pmr {
memory_resource::~memory_resource() = default;
namespace {
struct ndr final : memory_resource {
  constexpr ndr() = default;
  void *do_allocate(size_t n, size_t a) override { return a > 16 ? ::operator new(n, std::align_val_t(a)) : ::operator new(n); }
  void do_deallocate(void *p, size_t n, size_t a) override { if (a > 16) ::operator delete(p, n, std::align_val_t(a)); else ::operator delete(p, n); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct nullr final : memory_resource {
  constexpr nullr() = default;
  void *do_allocate(size_t, size_t) override { throw bad_alloc(); }
  void do_deallocate(void *, size_t, size_t) override {}
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
template <class T> union holder { T t; constexpr holder() : t() {} ~holder() {} };
constinit holder<ndr> ndr_mem; constinit holder<nullr> nullr_mem;
memory_resource *def;
}
memory_resource *new_delete_resource() noexcept { return &ndr_mem.t; } // declared const: no side effects allowed
memory_resource *null_memory_resource() noexcept { return &nullr_mem.t; }
memory_resource *get_default_resource() noexcept { return def ? def : new_delete_resource(); }
memory_resource *set_default_resource(memory_resource *r) noexcept { auto *o = get_default_resource(); def = r; return o; }
// pool: forwards to upstream (the grouping of blocks is not modelled), so that size,
// alignment and ownership of every block are still checked
struct __pool_resource::_BigBlock { void *p; size_t s, a; };
struct __pool_resource::_Pool {};
unsynchronized_pool_resource::unsynchronized_pool_resource(const pool_options &o, memory_resource *up) : _M_impl(o, up) {}
unsynchronized_pool_resource::~unsynchronized_pool_resource() {}
void unsynchronized_pool_resource::release() {}
void *unsynchronized_pool_resource::do_allocate(size_t n, size_t a) { return upstream_resource()->allocate(n, a); }
void unsynchronized_pool_resource::do_deallocate(void *p, size_t n, size_t a) { upstream_resource()->deallocate(p, n, a); }
__pool_resource::__pool_resource(const pool_options &o, memory_resource *up) : _M_opts(o), _M_unpooled(up), _M_npools(0) {}
__pool_resource::~__pool_resource() {}
}
}

// ---------------------------------------------------------------- inet
#include <arpa/inet.h>
#include <net/if.h>
static int pton4(const char *s, unsigned char *d) {
  unsigned char o[4] = {0, 0, 0, 0};
  int n = 0, digits = 0; unsigned v = 0;
  for (;; s++) {
    char c = *s;
    if (c >= '0' && c <= '9') {
      if (digits && v == 0) return 0; // no leading zeros
      v = v * 10 + (c - '0');
      if (v > 255) return 0;
      digits++;
    } else if (c == '.' || c == 0) {
      if (!digits) return 0;
      if (n == 4) return 0;
      o[n++] = (unsigned char)v; v = 0; digits = 0;
      if (c == 0) break;
      if (n == 4) return 0;
    } else return 0;
  }
  if (n != 4) return 0;
  for (int i = 0; i < 4; i++) d[i] = o[i];
  return 1;
}
static int pton6(const char *s, unsigned char *d) {
  unsigned char t[16]; for (auto &x : t) x = 0;
  int tp = 0, gap = -1, xd = 0; unsigned v = 0;
  const char *cur = s;
  if (*s == ':') { if (s[1] != ':') return 0; s++; }
  cur = s;
  for (;;) {
    char c = *s++;
    if (!c) break;
    int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (h >= 0) {
      if (xd == 4) return 0;
      v = v << 4 | h; xd++;
      continue;
    }
    if (c == ':') {
      cur = s;
      if (!xd) { if (gap >= 0) return 0; gap = tp; continue; }
      if (!*s) return 0;
      if (tp + 2 > 16) return 0;
      t[tp++] = v >> 8; t[tp++] = v; xd = 0; v = 0;
      continue;
    }
    if (c == '.' && tp + 4 <= 16 && pton4(cur, t + tp)) { tp += 4; xd = 0; break; }
    return 0;
  }
  if (xd) { if (tp + 2 > 16) return 0; t[tp++] = v >> 8; t[tp++] = v; }
  if (gap >= 0) {
    if (tp == 16) return 0;
    int n = tp - gap;
    for (int i = 1; i <= n; i++) { t[16 - i] = t[tp - i]; t[tp - i] = 0; }
    tp = 16;
  }
  if (tp != 16) return 0;
  for (int i = 0; i < 16; i++) d[i] = t[i];
  return 1;
}
static char *dec8(char *p, unsigned v) { if (v >= 100) *p++ = '0' + v / 100; if (v >= 10) *p++ = '0' + v / 10 % 10; *p++ = '0' + v % 10; return p; }
static char *hex16(char *p, unsigned v) {
  const char *h = "0123456789abcdef"; int sh = v >= 0x1000 ? 12 : v >= 0x100 ? 8 : v >= 0x10 ? 4 : 0;
  for (; sh >= 0; sh -= 4) *p++ = h[v >> sh & 15];
  return p;
}
static char *ntop4(const unsigned char *a, char *p) { for (int i = 0; i < 4; i++) { if (i) *p++ = '.'; p = dec8(p, a[i]); } return p; }
extern "C" {
int inet_pton(int af, const char *s, void *d) noexcept {
  if (af == AF_INET) return pton4(s, (unsigned char *)d);
  if (af == AF_INET6) return pton6(s, (unsigned char *)d);
  errno = EAFNOSUPPORT; return -1;
}
const char *inet_ntop(int af, const void *src, char *dst, socklen_t n) noexcept {
  char b[64], *p = b; auto a = (const unsigned char *)src;
  if (af == AF_INET) p = ntop4(a, p);
  else if (af == AF_INET6) {
    unsigned w[8]; for (int i = 0; i < 8; i++) w[i] = a[2 * i] << 8 | a[2 * i + 1];
    int best = -1, bl = 0, c = -1, cl = 0;
    for (int i = 0; i <= 8; i++) {
      if (i < 8 && w[i] == 0) { if (c < 0) c = i, cl = 1; else cl++; }
      else if (c >= 0) { if (best < 0 || cl > bl) best = c, bl = cl; c = -1; }
    }
    if (best >= 0 && bl < 2) best = -1;
    for (int i = 0; i < 8; i++) {
      if (best >= 0 && i >= best && i < best + bl) { if (i == best) *p++ = ':'; continue; }
      if (i) *p++ = ':';
      if (i == 6 && best == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) { p = ntop4(a + 12, p); break; }
      p = hex16(p, w[i]);
    }
    if (best >= 0 && best + bl == 8) *p++ = ':';
  } else { errno = EAFNOSUPPORT; return nullptr; }
  *p++ = 0;
  if ((size_t)(p - b) > n) { errno = ENOSPC; return nullptr; }
  for (char *q = b; q < p; q++) *dst++ = *q;
  return dst - (p - b);
}
unsigned if_nametoindex(const char *) noexcept { return 0; }
char *if_indextoname(unsigned, char *) noexcept { errno = ENXIO; return nullptr; }
}
extern "C" char *__symex_strchr(const char *s, int c) asm("strchr");
extern "C" char *__symex_strchr(const char *s, int c) { for (;; s++) { char x = *(volatile const char *)s; if (x == (char)c) return (char *)s; if (!x) return nullptr; } }

// ---------------------------------------------------------------- std::pmr::monotonic_buffer_resource (out of line part)
namespace std::pmr {
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
class monotonic_buffer_resource::_Chunk { public: _Chunk *next; size_t n, a, pad; };
void monotonic_buffer_resource::_M_new_buffer(size_t bytes, size_t alignment) {
  size_t n = bytes > _M_next_bufsiz ? bytes : _M_next_bufsiz;
  size_t m = alignment > alignof(max_align_t) ? alignment : alignof(max_align_t);
  size_t head = m > sizeof(_Chunk) ? m : sizeof(_Chunk);
  auto c = (_Chunk *)_M_upstream->allocate(n + head, m);
  c->next = _M_head; c->n = n + head; c->a = m;
  _M_head = c;
  _M_current_buf = (char *)c + head; _M_avail = n;
  _M_next_bufsiz = n * 3 / 2;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept {
  while (_M_head) {
    auto c = _M_head;
    _M_head = c->next;
    _M_upstream->deallocate(c, c->n, c->a);
  }
}
}

// std::random_device: the harnesses reseed the engines it seeds
extern "C" {
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
void _ZNSt13random_device7_M_finiEv(void *) {}
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return 1; }
}
