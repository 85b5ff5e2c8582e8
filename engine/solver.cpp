#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
namespace sx {
Z3_ast Solver::toBool(E e) {
  if (bl.size() <= e->id) bl.resize(std::max<size_t>(P.size(), e->id + 1), nullptr);
  if (bl[e->id]) return bl[e->id];
  Z3_context c = ctx; Z3_ast r = nullptr;
  switch (e->op) {
  case Op::Const: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
  case Op::And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(c, 2, x); break; }
  case Op::Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(c, 2, x); break; }
  case Op::Xor: if (ExprPool::isC(e->b, 1)) r = Z3_mk_not(c, toBool(e->a)); else r = Z3_mk_xor(c, toBool(e->a), toBool(e->b)); break;
  case Op::Eq: if (e->a->w == 1) r = Z3_mk_iff(c, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(c, toBV(e->a), toBV(e->b)); break;
  case Op::Ult: r = Z3_mk_bvult(c, toBV(e->a), toBV(e->b)); break;
  case Op::Ule: r = Z3_mk_bvule(c, toBV(e->a), toBV(e->b)); break;
  case Op::Slt: r = Z3_mk_bvslt(c, toBV(e->a), toBV(e->b)); break;
  case Op::Sle: r = Z3_mk_bvsle(c, toBV(e->a), toBV(e->b)); break;
  case Op::Ite: r = Z3_mk_ite(c, toBool(e->a), toBool(e->b), toBool(e->d)); break;
  default: { Z3_ast one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_inc_ref(c, one); r = Z3_mk_eq(c, toBV(e), one); }
  }
  r = keep(r);
  if (bl.size() <= e->id) bl.resize(e->id + 1, nullptr);
  return bl[e->id] = r;
}
Z3_ast Solver::toBV(E e) {
  if (bv.size() <= e->id) bv.resize(std::max<size_t>(P.size(), e->id + 1), nullptr);
  if (bv[e->id]) return bv[e->id];
  Z3_context c = ctx; Z3_ast r = nullptr;
  auto s = Z3_mk_bv_sort(c, e->w);
  switch (e->op) {
  case Op::Const:
    if (e->wide) { llvm::SmallString<64> str; e->wide->toString(str, 10, false); r = Z3_mk_numeral(c, str.c_str(), s); }
    else r = Z3_mk_unsigned_int64(c, e->c, s);
    break;
  case Op::Var: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->lo) + "_" + std::to_string(e->w)).c_str()), s); break;
  case Op::Add: r = Z3_mk_bvadd(c, toBV(e->a), toBV(e->b)); break;
  case Op::Sub: r = Z3_mk_bvsub(c, toBV(e->a), toBV(e->b)); break;
  case Op::Mul: r = Z3_mk_bvmul(c, toBV(e->a), toBV(e->b)); break;
  case Op::UDiv: r = Z3_mk_bvudiv(c, toBV(e->a), toBV(e->b)); break;
  case Op::SDiv: r = Z3_mk_bvsdiv(c, toBV(e->a), toBV(e->b)); break;
  case Op::URem: r = Z3_mk_bvurem(c, toBV(e->a), toBV(e->b)); break;
  case Op::SRem: r = Z3_mk_bvsrem(c, toBV(e->a), toBV(e->b)); break;
  case Op::Shl: r = Z3_mk_bvshl(c, toBV(e->a), toBV(e->b)); break;
  case Op::LShr: r = Z3_mk_bvlshr(c, toBV(e->a), toBV(e->b)); break;
  case Op::AShr: r = Z3_mk_bvashr(c, toBV(e->a), toBV(e->b)); break;
  case Op::Concat: r = Z3_mk_concat(c, toBV(e->a), toBV(e->b)); break;
  case Op::Extract: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, toBV(e->a)); break;
  case Op::ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, toBV(e->a)); break;
  case Op::SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, toBV(e->a)); break;
  case Op::And: if (e->w > 1) { r = Z3_mk_bvand(c, toBV(e->a), toBV(e->b)); break; } goto b;
  case Op::Or: if (e->w > 1) { r = Z3_mk_bvor(c, toBV(e->a), toBV(e->b)); break; } goto b;
  case Op::Xor: if (e->w > 1) { r = Z3_mk_bvxor(c, toBV(e->a), toBV(e->b)); break; } goto b;
  case Op::Ite: if (e->w > 1) { r = Z3_mk_ite(c, toBool(e->a), toBV(e->b), toBV(e->d)); break; } goto b;
  default: b: {
    Z3_ast one = Z3_mk_unsigned_int64(c, 1, s); Z3_inc_ref(c, one);
    Z3_ast zero = Z3_mk_unsigned_int64(c, 0, s); Z3_inc_ref(c, zero);
    r = Z3_mk_ite(c, toBool(e), one, zero); }
  }
  r = keep(r);
  if (bv.size() <= e->id) bv.resize(e->id + 1, nullptr);
  return bv[e->id] = r;
}
int cvcCheck(const std::vector<E> &cs, E q, unsigned ms, std::vector<std::pair<uint32_t, uint64_t>> &model);
int Solver::check(const std::vector<E> &cs, E q, Model &io) {
  if (ExprPool::isC(q)) { if (!q->c) return 0; }
  // slice
  uint64_t m = q->mask;
  std::vector<E> sl; std::vector<char> used(cs.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++)
      if (!used[i] && (cs[i]->mask & m)) { used[i] = 1; m |= cs[i]->mask; sl.push_back(cs[i]); ch = true; }
  }
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
  std::string key;
  for (E e : sl) key.append((const char *)&e->id, 4);
  key.append((const char *)&q->id, 4);
  auto it = cache.find(key);
  if (it != cache.end()) {
    st.cacheHits++;
    if (it->second.r == 1) for (auto &p : it->second.m) { if (io.v.size() <= p.first) io.v.resize(p.first + 1, 0); io.v[p.first] = p.second; }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  CacheEnt ce; ce.r = -1;
  auto attempt = [&](bool qfbv) {
    if (!qfbv && (!inc || ++incUses > 3000)) { // one incremental solver serves many queries
      inc.reset(new z3::solver(ctx, z3::solver::simple())); incUses = 0;
      z3::params p(ctx); p.set("timeout", 400u); inc->set(p);
    }
    std::unique_ptr<z3::solver> own;
    if (qfbv) { own.reset(new z3::solver(ctx, "QF_BV")); z3::params p(ctx); p.set("timeout", timeoutMs); own->set(p); }
    z3::solver &s = qfbv ? *own : *inc;
    if (!qfbv) s.push();
    for (E e : sl) s.add(z3::expr(ctx, toBool(e)));
    s.add(z3::expr(ctx, toBool(q)));
    auto r = s.check();
    if (r == z3::unsat) ce.r = 0;
    else if (r == z3::sat) {
      ce.r = 1;
      z3::model mo = s.get_model();
      for (unsigned i = 0; i < mo.num_consts(); i++) {
        auto d = mo.get_const_decl(i);
        std::string n = d.name().str();
        if (n[0] != 'v') continue;
        uint64_t val = 0; z3::expr iv = mo.get_const_interp(d);
        if (!iv.is_numeral_u64(val)) continue;
        ce.m.emplace_back((uint32_t)std::stoul(n.substr(1)), val);
      }
    }
    if (!qfbv) { s.pop(); if (r == z3::unknown) inc.reset(); }
  };
  auto cvc = [&](unsigned ms) {
    std::vector<std::pair<uint32_t, uint64_t>> cm;
    int r = cvcCheck(sl, q, ms, cm);
    if (r == 1) { // only believed if the assignment satisfies the query
      Model t; for (auto &p : cm) { if (t.v.size() <= p.first) t.v.resize(p.first + 1, 0); t.v[p.first] = p.second; }
      ExprPool::Ev ev;
      for (E e : sl) if (!P.eval(e, t, ev)) r = -1;
      if (!P.eval(q, t, ev)) r = -1;
    }
    st.cvc++;
    if (r >= 0) { ce.r = r; ce.m = std::move(cm); }
  };
  auto now = [] { return std::chrono::steady_clock::now(); };
  auto z3first = [&] {
    auto a = now(); attempt(false);
    double d = std::chrono::duration<double>(now() - a).count();
    emaZ = 0.85 * emaZ + 0.15 * d;
  };
  if (const char *d = getenv("SYMEX_DUMPALL")) if (st.queries % 37 == 0) {
      z3::solver s(ctx);
      for (E e : sl) s.add(z3::expr(ctx, toBool(e)));
      s.add(z3::expr(ctx, toBool(q)));
      std::ofstream(std::string(d) + "/" + std::to_string(getpid()) + "-" + std::to_string(st.queries) + ".smt2") << s.to_smt2();
  }
  // whichever back end has been faster lately goes first
  if (emaZ < 0.15 || st.queries % 16 == 0) { z3first(); if (ce.r == -1) cvc(4000); }
  else { cvc(1000); if (ce.r == -1) z3first(); if (ce.r == -1) cvc(6000); }
  if (ce.r == -1) {
    if (const char *d = getenv("SYMEX_DUMP")) {
      z3::solver s(ctx);
      for (E e : sl) s.add(z3::expr(ctx, toBool(e)));
      s.add(z3::expr(ctx, toBool(q)));
      std::ofstream(std::string(d) + "/" + std::to_string(getpid()) + "-" + std::to_string(st.queries) + ".smt2") << s.to_smt2();
    }
    attempt(true);
  }
  st.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (ce.r == 1) { st.sat++; for (auto &p : ce.m) { if (io.v.size() <= p.first) io.v.resize(p.first + 1, 0); io.v[p.first] = p.second; } }
  else if (ce.r == 0) st.unsat++;
  else st.unknown++;
  if (ce.r != -1) cache.emplace(std::move(key), ce);
  return ce.r;
}
} // namespace sx
