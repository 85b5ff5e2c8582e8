// Hash-consed bit-vector expressions, concrete evaluation and the z3 bridge.
#pragma once
#include <llvm/ADT/APInt.h>
#include <z3++.h>
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <deque>

namespace sx {

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
  Op op;
  uint32_t w;
  uint32_t lo;       // Extract: low bit; Var: variable id
  uint32_t id;
  uint64_t c;        // Const (w <= 64)
  const Expr *a, *b, *d;
  const llvm::APInt *wide; // Const (w > 64)
  uint64_t mask;     // hashed variable set (id % 64)
};
using E = const Expr *;

struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

class ExprPool {
  struct Key { Op op; uint32_t w, lo; uint64_t c; E a, b, d;
    bool operator==(const Key &o) const { return op==o.op&&w==o.w&&lo==o.lo&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KH { size_t operator()(const Key &k) const {
      uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull ^ k.w * 1000003ull ^ k.lo * 7919ull;
      auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
      mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d); return h ^ (h >> 29); } };
  std::unordered_map<Key, E, KH> tab;
  std::unordered_map<std::string, E> wides;
  std::deque<Expr> store;
public:
  std::vector<E> vars;
  std::vector<std::string> varNames;
  uint32_t size() const { return (uint32_t)store.size(); }
  E raw(Op op, uint32_t w, E a = nullptr, E b = nullptr, E d = nullptr, uint32_t lo = 0, uint64_t c = 0) {
    Key k{op, w, lo, c, a, b, d};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    uint64_t m = (a ? a->mask : 0) | (b ? b->mask : 0) | (d ? d->mask : 0);
    if (op == Op::Var) m = 1ull << (lo % 64);
    store.push_back(Expr{op, w, lo, (uint32_t)store.size(), c, a, b, d, nullptr, m});
    E e = &store.back();
    tab.emplace(k, e);
    return e;
  }
  E cst(uint64_t v, uint32_t w) {
    if (w > 64) return cstw(llvm::APInt(w, v));
    return raw(Op::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w));
  }
  E cstw(const llvm::APInt &v) {
    if (v.getBitWidth() <= 64) return cst(v.getZExtValue(), v.getBitWidth());
    std::string key((const char *)v.getRawData(), v.getNumWords() * 8);
    key += ":" + std::to_string(v.getBitWidth());
    auto it = wides.find(key);
    if (it != wides.end()) return it->second;
    store.push_back(Expr{Op::Const, v.getBitWidth(), 0, (uint32_t)store.size(), v.getRawData()[0], nullptr, nullptr, nullptr, new llvm::APInt(v), 0});
    E e = &store.back();
    wides.emplace(key, e);
    return e;
  }
  E newVar(uint32_t w, const std::string &name) {
    uint32_t i = (uint32_t)vars.size();
    E e = raw(Op::Var, w, nullptr, nullptr, nullptr, i);
    vars.push_back(e); varNames.push_back(name);
    return e;
  }
  // variables are numbered per path: the i-th input of width w
  E var(uint32_t i, uint32_t w, const std::string &name) {
    while (vars.size() <= i) { vars.push_back(nullptr); varNames.emplace_back(); }
    E e = raw(Op::Var, w, nullptr, nullptr, nullptr, i);
    vars[i] = e; varNames[i] = name;
    return e;
  }
  static bool isC(E e) { return e->op == Op::Const; }
  static bool isC(E e, uint64_t v) { return e->op == Op::Const && !e->wide && e->c == (v & maskw(e->w)); }
  static llvm::APInt ap(E e) { return e->wide ? *e->wide : llvm::APInt(e->w, e->c); }
  static llvm::APInt foldAP(Op op, const llvm::APInt &a, const llvm::APInt &b) {
    unsigned w = a.getBitWidth();
    auto B = [](bool x) { return llvm::APInt(1, x); };
    switch (op) {
    case Op::Add: return a + b; case Op::Sub: return a - b; case Op::Mul: return a * b;
    case Op::UDiv: return b.isZero() ? llvm::APInt::getAllOnes(w) : a.udiv(b);
    case Op::URem: return b.isZero() ? a : a.urem(b);
    case Op::SDiv: return b.isZero() ? llvm::APInt::getAllOnes(w) : a.sdiv(b);
    case Op::SRem: return b.isZero() ? a : a.srem(b);
    case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
    case Op::Shl: return b.uge(w) ? llvm::APInt(w, 0) : a.shl(b);
    case Op::LShr: return b.uge(w) ? llvm::APInt(w, 0) : a.lshr(b);
    case Op::AShr: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
    case Op::Eq: return B(a == b); case Op::Ult: return B(a.ult(b)); case Op::Ule: return B(a.ule(b));
    case Op::Slt: return B(a.slt(b)); case Op::Sle: return B(a.sle(b));
    default: abort();
    }
  }
  static uint64_t fold64(Op op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    switch (op) {
    case Op::Add: return (a + b) & m; case Op::Sub: return (a - b) & m; case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m; case Op::URem: return b ? a % b : a;
    case Op::SDiv: { if (!b) return m; int64_t x = sext64(a, w), y = sext64(b, w); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case Op::SRem: { if (!b) return a; int64_t x = sext64(a, w), y = sext64(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : a >> b;
    case Op::AShr: return (uint64_t)(sext64(a, w) >> (b >= w ? (w >= 64 ? 63 : w - 1) : b)) & m;
    case Op::Eq: return a == b; case Op::Ult: return a < b; case Op::Ule: return a <= b;
    case Op::Slt: return sext64(a, w) < sext64(b, w); case Op::Sle: return sext64(a, w) <= sext64(b, w);
    default: abort();
    }
  }
  static bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }
  static bool comm(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
  // linear sums: cancel terms that occur on both sides (valid modulo 2^w)
  typedef std::vector<std::pair<E, uint64_t>> Lin;
  bool gather(E e, uint64_t k, Lin &l, uint64_t &c, int &n) {
    if (n > 16) return false;
    if (isC(e)) { if (e->wide) return false; c += k * e->c; return true; }
    if (e->op == Op::Add) return gather(e->a, k, l, c, n) && gather(e->b, k, l, c, n);
    if (e->op == Op::Sub) return gather(e->a, k, l, c, n) && gather(e->b, 0 - k, l, c, n);
    n++;
    for (auto &p : l) if (p.first == e) { p.second += k; return true; }
    l.emplace_back(e, k);
    return true;
  }
  bool cancelled(E a, E b, bool minus, Lin &l, uint64_t &c) {
    if (a->w > 64 || ((a->op != Op::Add && a->op != Op::Sub) && (b->op != Op::Add && b->op != Op::Sub))) return false;
    int n = 0; c = 0;
    if (!gather(a, 1, l, c, n) || !gather(b, minus ? ~0ull : 1, l, c, n)) return false;
    uint64_t m = maskw(a->w); int left = 0;
    for (auto &p : l) { p.second &= m; if (p.second) { left++; if (p.second != 1 && p.second != m) return false; } }
    if (left >= n) return false;
    return true;
  }
  E sumOf(const Lin &l, uint64_t coef, uint32_t w) {
    E r = nullptr;
    for (auto &p : l) if (p.second == coef) r = r ? bin(Op::Add, r, p.first) : p.first;
    return r;
  }
  E relinear(const Lin &l, uint64_t c, uint32_t w) {
    E p = sumOf(l, 1, w), n = w == 1 ? nullptr : sumOf(l, maskw(w), w);
    if (!p) p = cst(0, w);
    E r = n ? raw(Op::Sub, w, p, n) : p;
    return bin(Op::Add, r, cst(c, w));
  }
  E notE(E x) { return bin(Op::Xor, x, cst(1, 1)); }
  E bin(Op op, E a, E b) {
    uint32_t w = a->w, rw = isCmp(op) ? 1 : w;
    if (isC(a) && isC(b)) {
      if (w <= 64) return cst(fold64(op, a->c, b->c, w), rw);
      return cstw(foldAP(op, ap(a), ap(b)));
    }
    if (comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    bool bc = isC(b) && w <= 64; uint64_t bv = bc ? b->c : 0; uint64_t all = maskw(w);
    switch (op) {
    case Op::Add:
      if (bc && bv == 0) return a;
      if (bc && a->op == Op::Add && isC(a->b)) return bin(Op::Add, a->a, cst(a->b->c + bv, w));
      break;
    case Op::Sub:
      if (a == b) return cst(0, w);
      if (bc) return bin(Op::Add, a, cst(0 - bv, w));
      if (a->op == Op::Add && a->a == b) return a->b;
      if (a->op == Op::Add && a->b == b) return a->a;
      if (a->op == Op::Add && isC(a->b) && b->op == Op::Add && isC(b->b) && a->a == b->a && w <= 64) return cst(a->b->c - b->b->c, w);
      if (b->op == Op::Add && isC(b->b) && b->a == a && w <= 64) return cst(0 - b->b->c, w);
      break;
    case Op::Mul: if (bc && bv == 0) return b; if (bc && bv == 1) return a; 
      if (bc && (bv & (bv-1)) == 0) { unsigned k = __builtin_ctzll(bv); return bin(Op::Shl, a, cst(k, w)); } break;
    case Op::UDiv: if (bc && bv == 1) return a; 
      if (bc && bv && (bv & (bv-1)) == 0) return bin(Op::LShr, a, cst(__builtin_ctzll(bv), w)); break;
    case Op::URem: if (bc && bv && (bv & (bv-1)) == 0) return bin(Op::And, a, cst(bv - 1, w)); break;
    case Op::And: if (a == b) return a; if (bc && bv == 0) return b; if (bc && bv == all) return a;
      if (bc && a->op == Op::And && isC(a->b)) return bin(Op::And, a->a, cst(bv & a->b->c, w));
      if (bc && a->op == Op::ZExt) { uint64_t im = maskw(a->a->w); if ((bv & im) == im) return a; return zext(bin(Op::And, a->a, cst(bv & im, a->a->w)), w); }
      break;
    case Op::Or: if (a == b) return a; if (bc && bv == 0) return a; if (bc && bv == all) return b;
      if (w == 1 && a->op == Op::Xor && a->a == b && isC(a->b,1)) return cst(1,1);
      if (w == 1 && b->op == Op::Xor && b->a == a && isC(b->b,1)) return cst(1,1);
      break;
    case Op::Xor: if (a == b) return cst(0, w); if (bc && bv == 0) return a;
      if (bc && a->op == Op::Xor && isC(a->b)) return bin(Op::Xor, a->a, cst(bv ^ a->b->c, w));
      if (w == 1 && bc) { // negate comparisons
        if (a->op == Op::Ult) return bin(Op::Ule, a->b, a->a);
        if (a->op == Op::Ule) return bin(Op::Ult, a->b, a->a);
        if (a->op == Op::Slt) return bin(Op::Sle, a->b, a->a);
        if (a->op == Op::Sle) return bin(Op::Slt, a->b, a->a);
      }
      break;
    case Op::Shl: case Op::LShr: case Op::AShr: if (bc && bv == 0) return a;
      if (bc && bv < w && op == Op::LShr) return zext(extract(a, bv, w - bv), w);
      if (bc && bv < w && op == Op::Shl) return concat(extract(a, 0, w - bv), cst(0, bv));
      if (bc && bv >= w && op != Op::AShr) return cst(0, w);
      break;
    case Op::Eq:
      if (a == b) return cst(1, 1);
      if (w == 1 && bc) return bv ? a : notE(a);
      if (bc) {
        if (a->op == Op::Add && isC(a->b)) return bin(Op::Eq, a->a, cst(bv - a->b->c, w));
        if (a->op == Op::Xor && isC(a->b)) return bin(Op::Eq, a->a, cst(bv ^ a->b->c, w));
        if (a->op == Op::ZExt) { if (bv & ~maskw(a->a->w)) return cst(0, 1); return bin(Op::Eq, a->a, cst(bv, a->a->w)); }
        if (a->op == Op::SExt) { uint64_t t = bv & maskw(a->a->w); if (((uint64_t)sext64(t, a->a->w) & all) != bv) return cst(0, 1); return bin(Op::Eq, a->a, cst(t, a->a->w)); }
        if (a->op == Op::Ite && isC(a->b) && isC(a->d)) {
          bool x = a->b->c == bv, y = a->d->c == bv;
          return x ? (y ? cst(1, 1) : a->a) : (y ? notE(a->a) : cst(0, 1));
        }
        if (a->op == Op::Ite && (isC(a->b) || isC(a->d))) return ite(a->a, bin(Op::Eq, a->b, b), bin(Op::Eq, a->d, b));
        if (a->op == Op::Concat && a->w <= 64) {
          uint32_t lw = a->b->w;
          return bin(Op::And, bin(Op::Eq, a->a, cst(bv >> lw, a->a->w)), bin(Op::Eq, a->b, cst(bv, lw)));
        }
      } else if (a->op == Op::Add && isC(a->b) && a->a == b) return cst(a->b->c == 0, 1);
      else if (b->op == Op::Add && isC(b->b) && b->a == a) return cst(b->b->c == 0, 1);
      else if (a->op == Op::Add && b->op == Op::Add && isC(a->b) && a->b == b->b) return bin(Op::Eq, a->a, b->a);
      break;
    case Op::Ult: if (a == b) return cst(0, 1); if (bc && bv == 0) return cst(0, 1); if (isC(a, all)) return cst(0, 1);
      if (bc && bv == 1) return bin(Op::Eq, a, cst(0, w));
      if (bc && a->op == Op::ZExt) { if (bv > maskw(a->a->w)) return cst(1, 1); return bin(Op::Ult, a->a, cst(bv, a->a->w)); }
      if (isC(a) && w <= 64 && b->op == Op::ZExt) { if (a->c >= maskw(b->a->w)) return cst(0, 1); return bin(Op::Ult, cst(a->c, b->a->w), b->a); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return bin(Op::Ult, a->a, b->a);
      break;
    case Op::Ule: if (a == b) return cst(1, 1); if (bc && bv == all) return cst(1, 1); if (isC(a, 0)) return cst(1, 1);
      if (bc && bv == 0) return bin(Op::Eq, a, b);
      if (bc && a->op == Op::ZExt) { if (bv >= maskw(a->a->w)) return cst(1, 1); return bin(Op::Ule, a->a, cst(bv, a->a->w)); }
      if (isC(a) && w <= 64 && b->op == Op::ZExt) { if (a->c > maskw(b->a->w)) return cst(0, 1); return bin(Op::Ule, cst(a->c, b->a->w), b->a); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return bin(Op::Ule, a->a, b->a);
      break;
    case Op::Slt: if (a == b) return cst(0, 1); break;
    case Op::Sle: if (a == b) return cst(1, 1); break;
    default: break;
    }
    if (!bc && w > 1 && (op == Op::Add || op == Op::Sub)) { Lin l; uint64_t c; if (cancelled(a, b, op == Op::Sub, l, c)) return relinear(l, c, w); }
    if (!bc && w > 1 && op == Op::Eq) {
      Lin l; uint64_t c;
      if (cancelled(a, b, true, l, c)) {
        E p = sumOf(l, 1, w), n = sumOf(l, maskw(w), w);
        if (!p) p = cst(0, w); if (!n) n = cst(0, w);
        return bin(Op::Eq, p, bin(Op::Add, n, cst(0 - c, w)));
      }
    }
    // distribute over ite with constant arms
    if (bc && a->op == Op::Ite && isC(a->b) && isC(a->d)) return ite(a->a, bin(op, a->b, b), bin(op, a->d, b));
    return raw(op, rw, a, b);
  }
  E ite(E c, E t, E f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (t->w == 1 && isC(t) && isC(f)) return t->c ? c : notE(c);
    if (c->op == Op::Xor && isC(c->b, 1)) return ite(c->a, f, t);
    if (t->w == 1 && isC(t)) return t->c ? bin(Op::Or, c, f) : bin(Op::And, notE(c), f);
    if (t->w == 1 && isC(f)) return f->c ? bin(Op::Or, notE(c), t) : bin(Op::And, c, t);
    return raw(Op::Ite, t->w, c, t, f);
  }
  E extract(E e, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
    case Op::Const:
      if (!e->wide) return cst(lo >= 64 ? 0 : e->c >> lo, w);
      return cstw(e->wide->extractBits(w, lo));
    case Op::Extract: return extract(e->a, e->lo + lo, w);
    case Op::Concat: { uint32_t lw = e->b->w;
      if (lo >= lw) return extract(e->a, lo - lw, w);
      if (lo + w <= lw) return extract(e->b, lo, w);
      return concat(extract(e->a, 0, lo + w - lw), extract(e->b, lo, lw - lo)); }
    case Op::ZExt: { uint32_t iw = e->a->w;
      if (lo >= iw) return cst(0, w);
      if (lo + w <= iw) return extract(e->a, lo, w);
      return zext(extract(e->a, lo, iw - lo), w); }
    case Op::SExt: { uint32_t iw = e->a->w;
      if (lo + w <= iw) return extract(e->a, lo, w);
      if (lo == 0) return sext(e->a, w);
      break; }
    case Op::Ite: if (isC(e->b) || isC(e->d)) return ite(e->a, extract(e->b, lo, w), extract(e->d, lo, w)); break;
    case Op::And: case Op::Or: case Op::Xor: if (isC(e->b)) return bin(e->op, extract(e->a, lo, w), extract(e->b, lo, w)); break;
    case Op::Add: case Op::Sub: case Op::Mul: if (lo == 0 && w <= 32 && isC(e->b)) return bin(e->op, extract(e->a, 0, w), extract(e->b, 0, w)); break;
    default: break;
    }
    return raw(Op::Extract, w, e, nullptr, nullptr, lo);
  }
  E concat(E hi, E lo) {
    uint32_t w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) {
      llvm::APInt r = ap(hi).zext(w).shl(lo->w) | ap(lo).zext(w);
      return cstw(r);
    }
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && lo->lo + lo->w == hi->lo) return extract(hi->a, lo->lo, w);
    if (isC(hi) && hi->c == 0 && !hi->wide) return zext(lo, w);
    if (lo->op == Op::Concat) { // right-assoc so that merges meet
      E h2 = concat(hi, lo->a);
      if (h2->op != Op::Concat) return concat(h2, lo->b);
    }
    if (hi->op == Op::ZExt && lo->op == Op::Extract && hi->a->op == Op::Extract && hi->a->a == lo->a && lo->lo + lo->w == hi->a->lo) return zext(concat(hi->a, lo), w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    return raw(Op::Concat, w, hi, lo);
  }
  E zext(E e, uint32_t w) {
    if (w == e->w) return e;
    if (isC(e)) return cstw(ap(e).zext(w));
    if (e->op == Op::ZExt) return zext(e->a, w);
    if (e->op == Op::Ite && isC(e->b) && isC(e->d)) return ite(e->a, zext(e->b, w), zext(e->d, w));
    return raw(Op::ZExt, w, e);
  }
  E sext(E e, uint32_t w) {
    if (w == e->w) return e;
    if (isC(e)) return cstw(ap(e).sext(w));
    if (e->op == Op::SExt) return sext(e->a, w);
    if (e->op == Op::ZExt) return zext(e->a, w);
    if (e->op == Op::Ite && isC(e->b) && isC(e->d)) return ite(e->a, sext(e->b, w), sext(e->d, w));
    return raw(Op::SExt, w, e);
  }
  // ---- evaluation under a model
  struct Ev { std::unordered_map<uint32_t, llvm::APInt> wide; std::unordered_map<uint32_t, uint64_t> m; };
  llvm::APInt evalW(E e, const Model &mod, Ev &ev) {
    if (e->w <= 64) return llvm::APInt(e->w, eval(e, mod, ev));
    if (isC(e)) return ap(e);
    auto it = ev.wide.find(e->id);
    if (it != ev.wide.end()) return it->second;
    llvm::APInt r(e->w, 0);
    switch (e->op) {
    case Op::Ite: r = eval(e->a, mod, ev) ? evalW(e->b, mod, ev) : evalW(e->d, mod, ev); break;
    case Op::Concat: r = evalW(e->a, mod, ev).zext(e->w).shl(e->b->w) | evalW(e->b, mod, ev).zext(e->w); break;
    case Op::Extract: r = evalW(e->a, mod, ev).extractBits(e->w, e->lo); break;
    case Op::ZExt: r = evalW(e->a, mod, ev).zext(e->w); break;
    case Op::SExt: r = evalW(e->a, mod, ev).sext(e->w); break;
    default: r = foldAP(e->op, evalW(e->a, mod, ev), evalW(e->b, mod, ev));
    }
    ev.wide.emplace(e->id, r);
    return r;
  }
  uint64_t eval(E e, const Model &mod, Ev &ev) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Var) return mod.get(e->lo) & maskw(e->w);
    auto it = ev.m.find(e->id);
    if (it != ev.m.end()) return it->second;
    uint64_t r;
    switch (e->op) {
    case Op::Ite: r = eval(e->a, mod, ev) ? eval(e->b, mod, ev) : eval(e->d, mod, ev); break;
    case Op::Concat: r = (eval(e->a, mod, ev) << e->b->w) | eval(e->b, mod, ev); break;
    case Op::Extract: if (e->a->w <= 64) r = (eval(e->a, mod, ev) >> e->lo) & maskw(e->w); else r = evalW(e->a, mod, ev).extractBits(e->w, e->lo).getZExtValue(); break;
    case Op::ZExt: r = eval(e->a, mod, ev); break;
    case Op::SExt: r = (uint64_t)sext64(eval(e->a, mod, ev), e->a->w) & maskw(e->w); break;
    default:
      if (e->a->w <= 64) r = fold64(e->op, eval(e->a, mod, ev), eval(e->b, mod, ev), e->a->w);
      else r = foldAP(e->op, evalW(e->a, mod, ev), evalW(e->b, mod, ev)).getZExtValue();
    }
    ev.m.emplace(e->id, r);
    return r;
  }
  uint64_t eval(E e, const Model &m) { Ev ev; return eval(e, m, ev); }
};

struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, cvc = 0; double time = 0; };

class Solver {
  ExprPool &P;
  z3::context ctx;
  std::vector<Z3_ast> bv, bl;
  struct CacheEnt { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::unordered_map<std::string, CacheEnt> cache;
public:
  SolverStats st;
  unsigned timeoutMs = 30000; double emaZ = 0; std::unique_ptr<z3::solver> inc; int incUses = 0;
  explicit Solver(ExprPool &p) : P(p) {}
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_ast toBool(E e);
  Z3_ast toBV(E e);
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E> &cs, E q, Model &io);
};

} // namespace sx
