// Second back end: cvc5 with bit-vectors solved as (mod 2^k) integers, strong on chains of additions and comparisons.
#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <cvc5/cvc5.h>
namespace sx {
namespace {
using namespace cvc5;
struct Conv {
  cvc5::Solver s;
  std::unordered_map<uint32_t, Term> bl, bv;
  std::vector<std::pair<uint32_t, Term>> vars;
  Term B(E e) {
    auto it = bl.find(e->id);
    if (it != bl.end()) return it->second;
    Term r;
    switch (e->op) {
    case Op::Const: r = s.mkBoolean(e->c); break;
    case Op::And: r = s.mkTerm(Kind::AND, {B(e->a), B(e->b)}); break;
    case Op::Or: r = s.mkTerm(Kind::OR, {B(e->a), B(e->b)}); break;
    case Op::Xor: r = ExprPool::isC(e->b, 1) ? s.mkTerm(Kind::NOT, {B(e->a)}) : s.mkTerm(Kind::XOR, {B(e->a), B(e->b)}); break;
    case Op::Eq: r = e->a->w == 1 ? s.mkTerm(Kind::EQUAL, {B(e->a), B(e->b)}) : s.mkTerm(Kind::EQUAL, {V(e->a), V(e->b)}); break;
    case Op::Ult: r = s.mkTerm(Kind::BITVECTOR_ULT, {V(e->a), V(e->b)}); break;
    case Op::Ule: r = s.mkTerm(Kind::BITVECTOR_ULE, {V(e->a), V(e->b)}); break;
    case Op::Slt: r = s.mkTerm(Kind::BITVECTOR_SLT, {V(e->a), V(e->b)}); break;
    case Op::Sle: r = s.mkTerm(Kind::BITVECTOR_SLE, {V(e->a), V(e->b)}); break;
    case Op::Ite: r = s.mkTerm(Kind::ITE, {B(e->a), B(e->b), B(e->d)}); break;
    default: r = s.mkTerm(Kind::EQUAL, {V(e), s.mkBitVector(1, 1)});
    }
    return bl[e->id] = r;
  }
  Term V(E e) {
    auto it = bv.find(e->id);
    if (it != bv.end()) return it->second;
    Term r;
    auto two = [&](Kind k) { return s.mkTerm(k, {V(e->a), V(e->b)}); };
    bool viaBool = false;
    switch (e->op) {
    case Op::Const:
      if (e->wide) { llvm::SmallString<64> str; e->wide->toString(str, 10, false); r = s.mkBitVector(e->w, str.c_str(), 10); }
      else r = s.mkBitVector(e->w, std::to_string(e->c), 10);
      break;
    case Op::Var: r = s.mkConst(s.mkBitVectorSort(e->w), "v" + std::to_string(e->lo)); vars.emplace_back(e->lo, r); break;
    case Op::Add: r = two(Kind::BITVECTOR_ADD); break;
    case Op::Sub: r = two(Kind::BITVECTOR_SUB); break;
    case Op::Mul: r = two(Kind::BITVECTOR_MULT); break;
    case Op::UDiv: r = two(Kind::BITVECTOR_UDIV); break;
    case Op::SDiv: r = two(Kind::BITVECTOR_SDIV); break;
    case Op::URem: r = two(Kind::BITVECTOR_UREM); break;
    case Op::SRem: r = two(Kind::BITVECTOR_SREM); break;
    case Op::Shl: r = two(Kind::BITVECTOR_SHL); break;
    case Op::LShr: r = two(Kind::BITVECTOR_LSHR); break;
    case Op::AShr: r = two(Kind::BITVECTOR_ASHR); break;
    case Op::Concat: r = two(Kind::BITVECTOR_CONCAT); break;
    case Op::Extract: r = s.mkTerm(s.mkOp(Kind::BITVECTOR_EXTRACT, {e->lo + e->w - 1, e->lo}), {V(e->a)}); break;
    case Op::ZExt: r = s.mkTerm(s.mkOp(Kind::BITVECTOR_ZERO_EXTEND, {e->w - e->a->w}), {V(e->a)}); break;
    case Op::SExt: r = s.mkTerm(s.mkOp(Kind::BITVECTOR_SIGN_EXTEND, {e->w - e->a->w}), {V(e->a)}); break;
    case Op::And: if (e->w > 1) r = two(Kind::BITVECTOR_AND); else viaBool = true; break;
    case Op::Or: if (e->w > 1) r = two(Kind::BITVECTOR_OR); else viaBool = true; break;
    case Op::Xor: if (e->w > 1) r = two(Kind::BITVECTOR_XOR); else viaBool = true; break;
    case Op::Ite: if (e->w > 1) r = s.mkTerm(Kind::ITE, {B(e->a), V(e->b), V(e->d)}); else viaBool = true; break;
    default: viaBool = true;
    }
    if (viaBool) r = s.mkTerm(Kind::ITE, {B(e), s.mkBitVector(1, 1), s.mkBitVector(1, 0)});
    return bv[e->id] = r;
  }
};
}
int cvcCheck(const std::vector<E> &cs, E q, unsigned ms, std::vector<std::pair<uint32_t, uint64_t>> &model) {
  try {
    Conv c;
    c.s.setOption("solve-bv-as-int", "sum");
    c.s.setOption("produce-models", "true");
    c.s.setOption("tlimit-per", std::to_string(ms));
    c.s.setLogic("ALL");
    for (E e : cs) c.s.assertFormula(c.B(e));
    c.s.assertFormula(c.B(q));
    Result r = c.s.checkSat();
    if (r.isUnsat()) return 0;
    if (!r.isSat()) return -1;
    for (auto &v : c.vars) {
      Term t = c.s.getValue(v.second);
      if (!t.isBitVectorValue()) return -1;
      model.emplace_back(v.first, (uint64_t)std::stoull(t.getBitVectorValue(10)));
    }
    return 1;
  } catch (std::exception &) { return -1; }
}
} // namespace sx
