// symex: a symbolic executor for LLVM 18 IR, deciding branches and assertions with z3.
#include "expr.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using namespace sx;
using SE = sx::E;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
struct V {
  uint64_t c = 0;
  SE e = nullptr;
  const std::vector<V> *agg = nullptr;
  uint32_t w = 0;
};
static ExprPool P;
static V K(uint64_t c, uint32_t w) { V v; v.c = c & maskw(w); v.w = w; return v; }
static V X(SE e) {
  V v; v.w = e->w;
  if (e->op == Op::Const && e->w <= 64) v.c = e->c; else v.e = e;
  return v;
}
static SE ex(const V &v) { if (v.agg) abort(); return v.e ? v.e : P.cst(v.c, v.w); }
static V A(std::vector<V> xs) { V v; v.agg = new std::vector<V>(std::move(xs)); return v; }

struct PathEnd { };            // current path is finished (any reason)
struct Incomplete { std::string why; };

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { KGlobal, KStack, KHeap };
struct Obj {
  int rc = 0;
  uint32_t id = 0; uint64_t base = 0; uint64_t size = 0; uint32_t align = 1;
  Kind kind = KGlobal; bool ro = false, freed = false; uint8_t tag = 0;
  const char *site = "";
  std::vector<uint8_t> data; std::vector<SE> sym;
};
struct ObjP {
  Obj *p = nullptr;
  ObjP() {}
  explicit ObjP(Obj *q) : p(q) { if (p) p->rc++; }
  ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; }
  ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
  ~ObjP() { if (p && --p->rc == 0) delete p; }
};
static constexpr unsigned SH = 20;           // one object per 1 MiB slot
static constexpr uint64_t FUNCBASE = 0x700000000000ull;
static constexpr unsigned CH = 64;
struct Chunk { ObjP o[CH]; };
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  Obj *get(uint64_t id) const { uint64_t c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id % CH].p; }
  ObjP &slot(uint64_t id) {
    uint64_t c = id / CH;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>();
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    return ch[c]->o[id % CH];
  }
  Obj *wr(uint64_t id) {
    ObjP &s = slot(id);
    if (s.p->rc > 1) { Obj *n = new Obj(*s.p); n->rc = 0; s = ObjP(n); }
    return s.p;
  }
};

// ------------------------------------------------------------------ decoded code
struct FuncInfo;
struct DI {
  const Instruction *I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  uint32_t w = 0;
  Type *ty = nullptr;
  SmallVector<int, 4> o;
  uint64_t imm = 0;
  SmallVector<std::pair<int, uint64_t>, 2> scaled; // GEP
  SmallVector<uint32_t, 4> succ;
  FuncInfo *callee = nullptr;
  bool musttail = false;
};
struct Blk { std::vector<DI> ins; std::map<uint32_t, std::vector<std::pair<int, int>>> phis; };
struct FuncInfo {
  Function *F = nullptr; uint32_t idx = 0; bool decoded = false; int builtin = -1;
  std::vector<Blk> bb; uint32_t nregs = 0; std::string name; uint64_t calls = 0, steps = 0;
};
struct Frame {
  FuncInfo *fi; uint32_t bb = 0, ip = 0, prev = 0;
  std::vector<V> regs; std::vector<uint32_t> allocas; uint64_t exPtr = 0; uint32_t exSel = 0;
};
struct Input { std::string name; uint32_t w; SE e; bool sgn; };
struct ObsRec { std::string tag; SE v; };
struct State {
  std::vector<std::shared_ptr<Frame>> st;
  Mem mem; std::vector<SE> cons; Model model;
  std::vector<Input> in; std::vector<ObsRec> obs; std::set<std::string> reach;
  uint64_t instr = 0; uint32_t root = 0; uint64_t heapNext = 0, stackNext = 0; uint32_t depth = 0;
  uint64_t queries = 0;
};

struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> in; };

struct Shared { std::atomic<int> slots; std::atomic<int> spawned; std::atomic<int> viol; std::atomic<uint64_t> paths; };

static const char *builtinNames[] = {
  "__symex_alloc", "__symex_free", "__symex_unwind", "__symex_fail", "__symex_incomplete",
  "sym_u64", "sym_i64", "sym_assume", "sym_assert_", "sym_reach", "sym_obs",
  "memcpy", "memmove", "memset", "__cxa_atexit", "__symex_is_live", "sym_is_symbolic", "__symex_heap_count", "sym_done", nullptr };
enum { B_alloc, B_free, B_unwind, B_fail, B_incomplete, B_u64, B_i64, B_assume, B_assert, B_reach, B_obs,
  B_memcpy, B_memmove, B_memset, B_atexit, B_islive, B_issym, B_heapcount, B_done };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr;
  Solver S{P};
  std::vector<std::unique_ptr<FuncInfo>> funcs; std::map<const Function *, FuncInfo *> fmap;
  std::map<const GlobalValue *, uint64_t> gaddr;
  std::vector<V> consts; std::map<const Constant *, int> cidx;
  std::map<uint64_t, uint32_t> tiIds; std::vector<uint64_t> tiList;
  uint64_t nGlobals = 0, stack0 = 0, stackN = 16384, heap0 = 0;
  uint64_t vtClass = 0, vtSi = 0, vtVmi = 0, vtPtr = 0;
  std::vector<std::unique_ptr<State>> work;
  std::vector<Function *> roots;
  // results
  std::vector<Violation> viols; std::set<std::string> violKeys; std::set<std::string> incomplete;
  std::map<std::string, uint64_t> reach;
  uint64_t nPaths = 0, nDropped = 0, nForks = 0, nInstr = 0, nAsserts = 0, nSymAsserts = 0, maxDepth = 0, maxPathInstr = 0, maxCons = 0;
  struct Sample { std::vector<std::pair<std::string, std::string>> in; std::vector<std::pair<std::string, uint64_t>> obs; };
  std::vector<Sample> samples; uint64_t sampleEvery = 1;
  // options
  double deadline = 1e18; unsigned workers = 1; uint64_t maxInstr = 30000000; unsigned maxViol = 6; unsigned maxSamples = 40; uint64_t seed = 1;
  Shared *sh = nullptr; int wfd = -1; bool isRoot = true; std::string outBase; double lastSplit = 0;
  uint64_t rng = 1;

  // ------------------------------------------------------------ module
  bool load(const std::vector<std::string> &files, const std::string &entry) {
    SMDiagnostic err;
    for (auto &f : files) {
      auto m = parseIRFile(f, err, ctx);
      if (!m) { err.print("symex", errs()); return false; }
      if (!M) M = std::move(m);
      else if (Linker::linkModules(*M, std::move(m), f.find("rt.bc") != std::string::npos ? Linker::LinkOnlyNeeded : Linker::None)) return false;
    }
    optimise(entry);
    DL = &M->getDataLayout();
    return true;
  }
  void optimise(const std::string &entry) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue &G) { return G.getName() == entry; }));
    // a coroutine that destroys itself in await_suspend must not keep the returned handle in its frame
    for (auto &F : *M) if (!F.isDeclaration() && F.getName().contains("St16coroutine_handle") && (F.getName().starts_with("_ZNSt16") || F.getName().starts_with("_ZNKSt16"))) {
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline);
    }
    cantFail(PB.parsePassPipeline(MPM, "globaldce,always-inline,function(sroa),coro-early,cgscc(coro-split),coro-cleanup,globaldce,default<O1>,globaldce"));
    MPM.run(*M, MAM);
  }
  uint32_t widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  void setup(const std::string &entry) {
    uint64_t id = 1;
    State s0;
    for (auto &F : *M) {
      auto fi = std::make_unique<FuncInfo>(); fi->F = &F; fi->idx = funcs.size(); fi->name = F.getName().str();
      if (F.isDeclaration()) for (int i = 0; builtinNames[i]; i++) if (fi->name == builtinNames[i]) fi->builtin = i;
      gaddr[&F] = FUNCBASE + 16ull * fi->idx; fmap[&F] = fi.get(); funcs.push_back(std::move(fi));
    }
    for (auto &G : M->globals()) { gaddr[&G] = (id << SH) + std::max<uint64_t>(16, G.getAlign().valueOrOne().value()); id++; }
    for (auto &Al : M->aliases()) if (auto *go = Al.getAliaseeObject()) { (void)go; }
    nGlobals = id; stack0 = (id / CH + 1) * CH; heap0 = stack0 + stackN;
    auto st = std::make_unique<State>();
    st->heapNext = heap0; st->stackNext = 0;
    for (auto &G : M->globals()) {
      uint64_t a = gaddr[&G]; auto *o = new Obj; o->id = a >> SH; o->base = a; o->kind = KGlobal; o->site = "global";
      uint64_t sz = G.hasInitializer() || G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
      if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 256);
      o->size = sz; o->data.assign(sz, 0); o->align = 16; o->ro = G.isConstant();
      if (sz > (1u << SH) - 64) { errs() << "global too large " << G.getName() << "\n"; }
      st->mem.slot(o->id) = ObjP(o);
      if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = a + 16;
      if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = a + 16;
      if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = a + 16;
      if (G.getName() == "_ZTVN10__cxxabiv119__pointer_type_infoE") vtPtr = a + 16;
    }
    for (auto &G : M->globals()) if (G.hasInitializer()) initMem(*st, gaddr[&G], G.getInitializer());
    if (auto *GC = M->getNamedGlobal("llvm.global_ctors"))
      if (GC->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> v;
        for (auto &op : CA->operands()) { auto *CS = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(CS->getOperand(1))) v.emplace_back(cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F); }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : v) roots.push_back(p.second);
      }
    Function *mainF = M->getFunction(entry);
    if (!mainF) { errs() << "no entry\n"; exit(3); }
    roots.push_back(mainF);
    work.push_back(std::move(st));
  }
  void initMem(State &s, uint64_t a, const Constant *C) {
    if (C->isNullValue() || isa<UndefValue>(C)) return;
    Type *t = C->getType();
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
      uint64_t es = CDS->getElementByteSize();
      for (unsigned i = 0; i < CDS->getNumElements(); i++) initMem(s, a + i * es, CDS->getElementAsConstant(i));
      return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      if (auto *ST = dyn_cast<StructType>(t)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < CA->getNumOperands(); i++) initMem(s, a + SL->getElementOffset(i), CA->getOperand(i)); }
      else { uint64_t es = DL->getTypeAllocSize(isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initMem(s, a + i * es, CA->getOperand(i)); }
      return;
    }
    V v = constV(C);
    Obj *o = s.mem.wr(a >> SH); bool ro = o->ro; o->ro = false;
    storeV(s, a, v, t); s.mem.wr(a >> SH)->ro = ro;
  }
  V constV(const Constant *C) {
    Type *t = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() <= 64) return K(CI->getZExtValue(), CI->getBitWidth()); return X(P.cstw(CI->getValue())); }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { auto b = CF->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return K(b.getZExtValue(), b.getBitWidth()); return X(P.cstw(b)); }
    if (isa<ConstantPointerNull>(C)) return K(0, 64);
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constV(GA->getAliasee());
    if (auto *G = dyn_cast<GlobalValue>(C)) return K(gaddr.at(G), 64);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroV(t);
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) { std::vector<V> xs; for (unsigned i = 0; i < CDS->getNumElements(); i++) xs.push_back(constV(CDS->getElementAsConstant(i))); return A(xs); }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) { std::vector<V> xs; for (auto &op : CA->operands()) xs.push_back(constV(cast<Constant>(op))); return A(xs); }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto *GEP = cast<GEPOperator>(CE);
        if (!GEP->accumulateConstantOffset(*DL, off)) throw Incomplete{"constant gep"};
        V b = constV(cast<Constant>(GEP->getPointerOperand())); return K(b.c + off.getSExtValue(), 64);
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
        V b = constV(CE->getOperand(0)); return K(b.c, widthOf(t)); }
      case Instruction::Sub: return K(constV(CE->getOperand(0)).c - constV(CE->getOperand(1)).c, widthOf(t));
      case Instruction::Add: return K(constV(CE->getOperand(0)).c + constV(CE->getOperand(1)).c, widthOf(t));
      case Instruction::Xor: return K(constV(CE->getOperand(0)).c ^ constV(CE->getOperand(1)).c, widthOf(t));
      case Instruction::ICmp: { uint64_t a = constV(CE->getOperand(0)).c, b = constV(CE->getOperand(1)).c;
        switch (cast<ConstantExpr>(CE)->getPredicate()) { case CmpInst::ICMP_EQ: return K(a == b, 1); case CmpInst::ICMP_NE: return K(a != b, 1); default: break; } }
      default: break;
      }
      std::string s; raw_string_ostream os(s); CE->print(os); throw Incomplete{"constant expr " + os.str()};
    }
    if (isa<ConstantTokenNone>(C)) return K(0, 1);
    std::string s; raw_string_ostream os(s); C->print(os); throw Incomplete{"constant " + os.str()};
  }
  V zeroV(Type *t) {
    if (uint32_t w = widthOf(t)) return w <= 64 ? K(0, w) : X(P.cst(0, w));
    if (auto *ST = dyn_cast<StructType>(t)) { std::vector<V> xs; for (auto *e : ST->elements()) xs.push_back(zeroV(e)); return A(xs); }
    if (auto *AT = dyn_cast<ArrayType>(t)) return A(std::vector<V>(AT->getNumElements(), zeroV(AT->getElementType())));
    if (auto *VT = dyn_cast<FixedVectorType>(t)) return A(std::vector<V>(VT->getNumElements(), zeroV(VT->getElementType())));
    return K(0, 64);
  }
  int opnd(const Value *v, std::map<const Value *, int> &slots) {
    if (auto *C = dyn_cast<Constant>(v)) {
      auto it = cidx.find(C);
      if (it != cidx.end()) return -2 - it->second;
      int i = consts.size(); consts.push_back(constV(C)); cidx[C] = i; return -2 - i;
    }
    auto it = slots.find(v);
    if (it == slots.end()) return -1; // metadata, labels, asm
    return it->second;
  }
  void decode(FuncInfo *f) {
    if (f->decoded) return;
    f->decoded = true;
    std::map<const Value *, int> slots; std::map<const BasicBlock *, uint32_t> bi;
    uint32_t n = 0;
    for (auto &a : f->F->args()) slots[&a] = n++;
    for (auto &B : *f->F) { uint32_t k = bi.size(); bi[&B] = k; for (auto &I : B) if (!I.getType()->isVoidTy()) slots[&I] = n++; }
    f->nregs = n; f->bb.resize(bi.size());
    for (auto &B : *f->F) {
      Blk &b = f->bb[bi[&B]];
      for (auto &PN : B.phis())
        for (unsigned i = 0; i < PN.getNumIncomingValues(); i++) {
          auto &l = b.phis[bi[PN.getIncomingBlock(i)]]; int d = slots[&PN]; bool dup = false;
          for (auto &q : l) dup |= q.first == d;
          if (!dup) l.emplace_back(d, opnd(PN.getIncomingValue(i), slots));
        }
      for (auto &I : B) {
        if (isa<PHINode>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          switch (II->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: continue;
          default: break;
          }
        }
        DI d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType();
        if (!I.getType()->isVoidTy()) { d.dst = slots[&I]; d.w = widthOf(I.getType()); }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &a : CB->args()) d.o.push_back(opnd(a.get(), slots));
          Value *cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
          if (auto *F = dyn_cast<Function>(cv)) d.callee = fmap[F];
          else if (isa<InlineAsm>(cv)) d.imm = 1;
          else d.o.push_back(opnd(cv, slots));
          if (auto *CI = dyn_cast<CallInst>(&I)) d.musttail = CI->isMustTailCall();
        } else
          for (auto &op : I.operands()) d.o.push_back(opnd(op.get(), slots));
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          int64_t off = 0; unsigned k = 1;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k) {
            Value *ix = gi.getOperand();
            if (auto *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * (int64_t)es;
            else d.scaled.emplace_back(d.o[k], es);
          }
          d.imm = off;
        }
        if (I.isTerminator()) for (unsigned i = 0; i < I.getNumSuccessors(); i++) d.succ.push_back(bi[I.getSuccessor(i)]);
        if (auto *ST = dyn_cast<StoreInst>(&I)) { d.ty = ST->getValueOperand()->getType(); d.w = widthOf(d.ty); }
        if (auto *AI = dyn_cast<AllocaInst>(&I)) { d.ty = AI->getAllocatedType(); d.imm = DL->getTypeAllocSize(d.ty); }
        b.ins.push_back(std::move(d));
      }
    }
  }
  // ------------------------------------------------------------ results helpers
  std::string where(State &s) {
    for (size_t i = s.st.size(); i-- > 0;) {
      const std::string &n = s.st[i]->fi->name;
      std::string dn = llvm::demangle(n);
      if (dn.find("boost::cobalt") != std::string::npos) return dn.substr(0, 300);
    }
    return s.st.empty() ? "" : llvm::demangle(s.st.back()->fi->name).substr(0, 300);
  }
  std::vector<std::pair<std::string, std::string>> inputs(State &s, const Model &m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &i : s.in) { uint64_t v = P.eval(i.e, m); r.emplace_back(i.name, i.sgn ? std::to_string(sext64(v, i.w)) : std::to_string(v)); }
    return r;
  }
  void violation(State &s, const std::string &kind, const std::string &msg, const Model &m) {
    std::string wh = where(s), key = kind + "|" + msg + "|" + wh;
    if (violKeys.insert(key).second && viols.size() < maxViol * 4) {
      Violation v{kind, msg, wh, {}, inputs(s, m)};
      if (getenv("SYMEX_DEBUG") && !s.st.empty()) { Frame &f = *s.st.back(); errs() << kind << ": " << msg << " at " << *f.fi->bb[f.bb].ins[f.ip].I << "\n"; for (int o : f.fi->bb[f.bb].ins[f.ip].o) if (o != -1) { const V &x = val(f, o); errs() << "   op " << (void *)x.c << (x.e ? " sym" : "") << "\n"; } }
      for (size_t i = s.st.size(); i-- > 0 && v.stack.size() < 25;) v.stack.push_back(llvm::demangle(s.st[i]->fi->name).substr(0, 200));
      viols.push_back(std::move(v));
      if (sh) sh->viol++;
    }
  }
  [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.model); throw PathEnd{}; }
  // ------------------------------------------------------------ deciding
  void add(State &s, SE c) {
    if (P.isC(c)) return;
    if (c->op == Op::And && c->w == 1) { add(s, c->a); add(s, c->b); return; }
    for (SE x : s.cons) if (x == c) return;
    s.cons.push_back(c);
  }
  bool known(State &s, SE c, bool &r) {
    if (P.isC(c)) { r = c->c; return true; }
    SE n = P.notE(c);
    for (SE x : s.cons) { if (x == c) { r = true; return true; } if (x == n) { r = false; return true; } }
    return false;
  }
  bool decide(State &s, SE c) {
    bool r;
    if (known(s, c, r)) return r;
    bool v = P.eval(c, s.model);
    SE mine = v ? c : P.notE(c), other = v ? P.notE(c) : c;
    Model m = s.model;
    uint64_t q0 = S.st.queries; int k = S.check(s.cons, other, m); if (S.st.queries != q0) tick += 1024;
    if (k < 0) throw Incomplete{"solver timeout"};
    if (k == 1) {
      auto n = std::make_unique<State>(s);
      n->st.back() = std::make_shared<Frame>(*s.st.back()); // callers hold a reference to our own top frame
      add(*n, other); n->model = std::move(m); n->depth++;
      if (n->depth > maxDepth) maxDepth = n->depth;
      nForks++; s.depth++;
      work.push_back(std::move(n));
    }
    add(s, mine);
    return v;
  }
  uint64_t conc(State &s, const V &v) {
    if (v.agg) abort();
    if (!v.e) return v.c;
    SE e = v.e;
    if (e->op == Op::Const) return e->c;
    // already fixed?
    for (int guard = 0;; guard++) {
      uint64_t x = P.eval(e, s.model);
      if (decide(s, P.bin(Op::Eq, e, P.cst(x, e->w)))) return x;
      if (guard > 4) throw Incomplete{"concretise"};
    }
  }
  bool truth(State &s, const V &v) { return v.e ? decide(s, v.e) : v.c; }
  // ------------------------------------------------------------ memory access
  Obj *find(State &s, uint64_t a, uint64_t n, bool wr, const char *what) {
    uint64_t id = a >> SH;
    Obj *o = s.mem.get(id);
    if (!o) { char b[64]; snprintf(b, 64, "%s invalid address", what); if (a < (1u << SH)) fail(s, "null-dereference", std::string(what) + " through a null pointer"); fail(s, "invalid-pointer", b); }
    if (o->freed) fail(s, "use-after-free", std::string(what) + " of freed memory");
    if (a < o->base || a + n > o->base + o->size) fail(s, "out-of-bounds", std::string(what) + " outside an object of size " + std::to_string(o->size));
    if (wr && o->ro) fail(s, "write-to-constant", "write to constant memory");
    return o;
  }
  V loadInt(State &s, uint64_t a, uint32_t w) {
    uint64_t n = (w + 7) / 8;
    Obj *o = find(s, a, n, false, "read");
    uint64_t off = a - o->base;
    bool sym = false;
    if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
    if (!sym) {
      if (n <= 8) { uint64_t r = 0; memcpy(&r, &o->data[off], n); return K(r, w); }
      APInt r(n * 8, 0);
      for (uint64_t i = n; i-- > 0;) { r <<= 8; r |= (uint64_t)o->data[off + i]; }
      return X(P.cstw(r.trunc(w)));
    }
    SE e = nullptr;
    for (uint64_t i = 0; i < n; i++) {
      SE b = o->sym[off + i] ? o->sym[off + i] : P.cst(o->data[off + i], 8);
      e = e ? P.concat(b, e) : b;
    }
    return X(P.extract(e, 0, w));
  }
  void storeInt(State &s, uint64_t a, const V &v) {
    uint64_t n = (v.w + 7) / 8;
    find(s, a, n, true, "write");
    Obj *o = s.mem.wr(a >> SH);
    uint64_t off = a - o->base;
    if (!v.e) {
      uint64_t c = v.c; memcpy(&o->data[off], &c, n);
      if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i] = nullptr;
      return;
    }
    SE e = v.e;
    if (e->w < n * 8) e = P.zext(e, n * 8);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    for (uint64_t i = 0; i < n; i++) {
      SE b = P.extract(e, 8 * i, 8);
      if (b->op == Op::Const) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b;
    }
  }
  V loadV(State &s, uint64_t a, Type *t) {
    if (uint32_t w = widthOf(t)) return loadInt(s, a, w);
    std::vector<V> xs;
    if (auto *ST = dyn_cast<StructType>(t)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) xs.push_back(loadV(s, a + SL->getElementOffset(i), ST->getElementType(i))); }
    else if (auto *AT = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) xs.push_back(loadV(s, a + i * es, AT->getElementType())); }
    else if (auto *VT = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) xs.push_back(loadV(s, a + i * es, VT->getElementType())); }
    else throw Incomplete{"load type"};
    return A(xs);
  }
  void storeV(State &s, uint64_t a, const V &v, Type *t) {
    if (!v.agg) { storeInt(s, a, v); return; }
    if (auto *ST = dyn_cast<StructType>(t)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) storeV(s, a + SL->getElementOffset(i), (*v.agg)[i], ST->getElementType(i)); }
    else { Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < v.agg->size(); i++) storeV(s, a + i * es, (*v.agg)[i], et); }
  }
  uint64_t allocObj(State &s, uint64_t size, uint64_t align, Kind k, uint8_t tag, const char *site) {
    if (size > (1u << SH) - 4096 || align > 2048) throw Incomplete{"allocation of " + std::to_string(size) + " bytes"};
    uint64_t id;
    if (k == KStack) {
      uint64_t tries = 0;
      do { id = stack0 + (s.stackNext++ % stackN); if (++tries > stackN) throw Incomplete{"stack objects"}; } while (s.mem.get(id));
    } else id = s.heapNext++;
    auto *o = new Obj; o->id = id; o->kind = k; o->size = size; o->tag = tag; o->align = align; o->site = site;
    o->base = (id << SH) + std::max<uint64_t>(16, align);
    o->data.assign(size, k == KStack ? 0xAA : 0xBE);
    s.mem.slot(id) = ObjP(o);
    return o->base;
  }
  void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    Obj *so = find(s, src, n, false, "read");
    find(s, d, n, true, "write");
    std::vector<uint8_t> bytes(so->data.begin() + (src - so->base), so->data.begin() + (src - so->base) + n);
    std::vector<SE> sym; if (!so->sym.empty()) sym.assign(so->sym.begin() + (src - so->base), so->sym.begin() + (src - so->base) + n);
    Obj *o = s.mem.wr(d >> SH); uint64_t off = d - o->base;
    memcpy(&o->data[off], bytes.data(), n);
    bool any = false; for (SE e : sym) any |= e != nullptr;
    if (any && o->sym.empty()) o->sym.assign(o->size, nullptr);
    if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i] = any ? sym[i] : nullptr;
  }
  std::string cstr(State &s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 200; i++) { V v = loadInt(s, a + i, 8); uint64_t c = v.e ? P.eval(v.e, s.model) : v.c; if (!c) break; r += (char)c; }
    return r;
  }
  // ------------------------------------------------------------ frames
  Frame &top(State &s) { auto &p = s.st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  void pushFrame(State &s, FuncInfo *f, const std::vector<V> &args) {
    decode(f); f->calls++;
    if (trace) errs() << std::string(s.st.size(), ' ') << llvm::demangle(f->name).substr(0, 150) << "\n";
    if (s.st.size() > 3000) fail(s, "stack-overflow", "unbounded recursion");
    auto fr = std::make_shared<Frame>(); fr->fi = f; fr->regs.resize(f->nregs);
    unsigned n = f->F->arg_size();
    for (unsigned i = 0; i < n && i < args.size(); i++) {
      fr->regs[i] = args[i];
      if (f->F->getArg(i)->hasByValAttr()) {
        Type *t = f->F->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t);
        uint64_t a = allocObj(s, sz, f->F->getParamAlign(i).valueOrOne().value(), KStack, 0, "byval");
        copyMem(s, a, conc(s, args[i]), sz); fr->regs[i] = K(a, 64); fr->allocas.push_back(a >> SH);
      }
    }
    s.st.push_back(std::move(fr));
  }
  void popFrame(State &s) {
    for (uint32_t id : s.st.back()->allocas) s.mem.slot(id) = ObjP();
    s.st.pop_back();
  }
  void enter(State &s, Frame &f, uint32_t b) {
    uint32_t from = f.bb;
    Blk &nb = f.fi->bb[b];
    if (!nb.phis.empty()) {
      auto &l = nb.phis[from];
      if (l.size() == 1) f.regs[l[0].first] = val(f, l[0].second);
      else { SmallVector<V, 8> t; for (auto &p : l) t.push_back(val(f, p.second)); for (size_t i = 0; i < l.size(); i++) f.regs[l[i].first] = t[i]; }
    }
    f.prev = from; f.bb = b; f.ip = 0;
  }
  const V &val(Frame &f, int o) { return o >= 0 ? f.regs[o] : consts[-2 - o]; }
  void ret(State &s, const V *rv) {
    popFrame(s);
    if (s.st.empty()) return;
    Frame &f = top(s); DI &d = f.fi->bb[f.bb].ins[f.ip];
    if (d.dst >= 0 && rv) f.regs[d.dst] = *rv;
    if (d.opc == Instruction::Invoke) enter(s, f, d.succ[0]); else f.ip++;
  }
  // ------------------------------------------------------------ exceptions
  uint64_t rd(State &s, uint64_t a, unsigned n = 8) { V v = loadInt(s, a, n * 8); return conc(s, v); }
  bool tiMatch(State &s, uint64_t catchTi, uint64_t ti, uint64_t obj, uint64_t &adj, int depth = 0) {
    if (catchTi == ti) { adj = obj; return true; }
    if (depth > 12) return false;
    Obj *o = s.mem.get(ti >> SH);
    if (!o || o->base != ti || o->size < 16) return false;
    uint64_t vt = rd(s, ti);
    if (vt == vtSi && vtSi) return tiMatch(s, catchTi, rd(s, ti + 16), obj, adj, depth + 1);
    if (vt == vtVmi && vtVmi) {
      uint32_t n = rd(s, ti + 20, 4);
      for (uint32_t i = 0; i < n; i++) {
        uint64_t b = rd(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd(s, ti + 32 + 16 * i);
        if (!(of & 2)) continue;
        int64_t off = of >> 8;
        if (of & 1) { if (!obj) continue; off = (int64_t)rd(s, rd(s, obj) + off); }
        if (tiMatch(s, catchTi, b, obj + off, adj, depth + 1)) return true;
      }
    }
    return false;
  }
  uint32_t tiId(uint64_t a) { auto it = tiIds.find(a); if (it != tiIds.end()) return it->second; uint32_t i = tiIds.size() + 1; tiIds[a] = i; return i; }
  // 0 no, 1 cleanup only, 2 handler
  int lpMatch(State &s, const LandingPadInst *LP, uint64_t h, uint32_t &sel, uint64_t &adj) {
    uint64_t ti = rd(s, h - 64), obj = rd(s, h - 48);
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      Constant *c = LP->getClause(i);
      if (LP->isCatch(i)) {
        if (c->isNullValue()) { sel = tiId(0); adj = obj; return 2; }
        uint64_t cti = constV(c).c;
        if (tiMatch(s, cti, ti, obj, adj)) { sel = tiId(cti); return 2; }
      } else { // filter
        bool ok = false;
        for (auto &op : c->operands()) { uint64_t a2; if (tiMatch(s, constV(cast<Constant>(op)).c, ti, obj, a2)) ok = true; }
        if (!ok) { sel = (uint32_t)-1; adj = obj; return 2; }
      }
    }
    sel = 0; adj = obj;
    return LP->isCleanup() ? 1 : 0;
  }
  void unwind(State &s, uint64_t h) {
    // search phase
    bool found = false; uint32_t sel; uint64_t adj;
    for (size_t i = s.st.size(); i-- > 0 && !found;) {
      Frame &f = *s.st[i]; DI &d = f.fi->bb[f.bb].ins[f.ip];
      if (d.opc == Instruction::Invoke) { auto *LP = cast<InvokeInst>(d.I)->getLandingPadInst(); if (lpMatch(s, LP, h, sel, adj) == 2) found = true; }
    }
    if (!found) { uint64_t ti = rd(s, h - 64); fail(s, "uncaught-exception", "exception of type " + tiName(s, ti) + " escapes: std::terminate"); }
    while (!s.st.empty()) {
      Frame &f = top(s); DI &d = f.fi->bb[f.bb].ins[f.ip];
      if (d.opc == Instruction::Invoke) {
        auto *LP = cast<InvokeInst>(d.I)->getLandingPadInst();
        int k = lpMatch(s, LP, h, sel, adj);
        if (k) {
          if (k == 2) storeInt(s, h - 40, K(adj, 64));
          f.exPtr = h; f.exSel = sel; enter(s, f, d.succ[1]); return;
        }
      }
      popFrame(s);
    }
    fail(s, "uncaught-exception", "unwound everything");
  }
  std::string tiName(State &s, uint64_t ti) {
    for (auto &p : gaddr) if (p.second == ti) return llvm::demangle(p.first->getName().str());
    return "?";
  }
  // ------------------------------------------------------------ arithmetic
  static V bin2(Op op, const V &a, const V &b) {
    if (!a.e && !b.e) return K(ExprPool::fold64(op, a.c, b.c, a.w), ExprPool::isCmp(op) ? 1 : a.w);
    return X(P.bin(op, ex(a), ex(b)));
  }
  V binop(State &s, unsigned opc, const V &a, const V &b) {
    if (a.agg) { std::vector<V> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop(s, opc, (*a.agg)[i], (*b.agg)[i])); return A(r); }
    Op op;
    switch (opc) {
    case Instruction::Add: op = Op::Add; break; case Instruction::Sub: op = Op::Sub; break; case Instruction::Mul: op = Op::Mul; break;
    case Instruction::UDiv: op = Op::UDiv; break; case Instruction::SDiv: op = Op::SDiv; break; case Instruction::URem: op = Op::URem; break; case Instruction::SRem: op = Op::SRem; break;
    case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break; case Instruction::Xor: op = Op::Xor; break;
    case Instruction::Shl: op = Op::Shl; break; case Instruction::LShr: op = Op::LShr; break; case Instruction::AShr: op = Op::AShr; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      uint64_t x = conc(s, a), y = conc(s, b);
      auto f = [&](auto p, auto q) { return opc == Instruction::FAdd ? p + q : opc == Instruction::FSub ? p - q : opc == Instruction::FMul ? p * q : p / q; };
      if (a.w == 32) { float p, q; uint32_t i = x, j = y; memcpy(&p, &i, 4); memcpy(&q, &j, 4); p = f(p, q); memcpy(&i, &p, 4); return K(i, 32); }
      double p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); p = f(p, q); memcpy(&x, &p, 8); return K(x, 64); }
    default: throw Incomplete{"binop"};
    }
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
      V z = bin2(Op::Eq, b, V{0, b.w > 64 ? P.cst(0, b.w) : nullptr, nullptr, b.w});
      if (truth(s, z)) fail(s, "division-by-zero", "division by zero");
    }
    return bin2(op, a, b);
  }
  static V notV(const V &a) { return a.e ? X(P.notE(a.e)) : K(!a.c, 1); }
  static V icmp(CmpInst::Predicate p, const V &a, const V &b) {
    if (a.agg) { std::vector<V> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return A(r); }
    switch (p) {
    case CmpInst::ICMP_EQ: return bin2(Op::Eq, a, b); case CmpInst::ICMP_NE: return notV(bin2(Op::Eq, a, b));
    case CmpInst::ICMP_ULT: return bin2(Op::Ult, a, b); case CmpInst::ICMP_ULE: return bin2(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return bin2(Op::Ult, b, a); case CmpInst::ICMP_UGE: return bin2(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return bin2(Op::Slt, a, b); case CmpInst::ICMP_SLE: return bin2(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return bin2(Op::Slt, b, a); case CmpInst::ICMP_SGE: return bin2(Op::Sle, b, a);
    default: abort();
    }
  }
  V fcmp(State &s, CmpInst::Predicate p, const V &a, const V &b) {
    uint64_t x = conc(s, a), y = conc(s, b); double u, v;
    if (a.w == 32) { float q; uint32_t i = x; memcpy(&q, &i, 4); u = q; i = y; memcpy(&q, &i, 4); v = q; } else { memcpy(&u, &x, 8); memcpy(&v, &y, 8); }
    bool un = u != u || v != v, r = false;
    if (p & 1) r |= u == v && !un; if (p & 2) r |= u > v; if (p & 4) r |= u < v; if (p & 8) r |= un;
    return K(r, 1);
  }
  V castV(State &s, unsigned opc, const V &a, uint32_t w, uint32_t sw) {
    switch (opc) {
    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (!a.e && w <= 64) return K(a.c, w);
      { SE e = ex(a); if (w > e->w) return X(P.zext(e, w)); if (w < e->w) return X(P.extract(e, 0, w)); return X(e); }
    case Instruction::SExt: if (!a.e && w <= 64) return K((uint64_t)sext64(a.c, a.w), w); return X(P.sext(ex(a), w));
    case Instruction::UIToFP: case Instruction::SIToFP: { uint64_t x = conc(s, a); double d = opc == Instruction::UIToFP ? (double)x : (double)sext64(x, a.w);
      if (w == 32) { float f = opc == Instruction::UIToFP ? (float)x : (float)sext64(x, a.w); uint32_t i; memcpy(&i, &f, 4); return K(i, 32); } memcpy(&x, &d, 8); return K(x, 64); }
    case Instruction::FPToUI: case Instruction::FPToSI: { uint64_t x = conc(s, a); double d; if (a.w == 32) { float f; uint32_t i = x; memcpy(&f, &i, 4); d = f; } else memcpy(&d, &x, 8);
      return K(opc == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d, w); }
    case Instruction::FPExt: { uint32_t i = conc(s, a); float f; memcpy(&f, &i, 4); double d = f; uint64_t x; memcpy(&x, &d, 8); return K(x, 64); }
    case Instruction::FPTrunc: { uint64_t x = conc(s, a); double d; memcpy(&d, &x, 8); float f = d; uint32_t i; memcpy(&i, &f, 4); return K(i, 32); }
    }
    throw Incomplete{"cast"};
  }
  // ------------------------------------------------------------ calls
  bool intrinsic(State &s, Frame &f, DI &d, V &r) {
    auto *II = dyn_cast<IntrinsicInst>(d.I);
    if (!II) return false;
    auto a = [&](unsigned i) -> const V & { return val(f, d.o[i]); };
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = conc(s, a(2)); if (!n) return true; uint64_t p = conc(s, a(0)), q = conc(s, a(1)); copyMem(s, p, q, n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { doMemset(s, a(0), a(1), a(2)); return true; }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(s, "trap", "trap executed");
    case Intrinsic::umin: r = sel(bin2(Op::Ult, a(0), a(1)), a(0), a(1)); return true;
    case Intrinsic::umax: r = sel(bin2(Op::Ult, a(0), a(1)), a(1), a(0)); return true;
    case Intrinsic::smin: r = sel(bin2(Op::Slt, a(0), a(1)), a(0), a(1)); return true;
    case Intrinsic::smax: r = sel(bin2(Op::Slt, a(0), a(1)), a(1), a(0)); return true;
    case Intrinsic::abs: r = sel(bin2(Op::Slt, a(0), K(0, a(0).w)), bin2(Op::Sub, K(0, a(0).w), a(0)), a(0)); return true;
    case Intrinsic::usub_sat: r = sel(bin2(Op::Ult, a(0), a(1)), K(0, a(0).w), bin2(Op::Sub, a(0), a(1))); return true;
    case Intrinsic::uadd_sat: { V t = bin2(Op::Add, a(0), a(1)); r = sel(bin2(Op::Ult, t, a(0)), K(~0ull, a(0).w), t); return true; }
    case Intrinsic::uadd_with_overflow: { V t = bin2(Op::Add, a(0), a(1)); r = A({t, bin2(Op::Ult, t, a(0))}); return true; }
    case Intrinsic::usub_with_overflow: r = A({bin2(Op::Sub, a(0), a(1)), bin2(Op::Ult, a(0), a(1))}); return true;
    case Intrinsic::umul_with_overflow: { uint32_t w = a(0).w; SE t = P.bin(Op::Mul, P.zext(ex(a(0)), 2 * w), P.zext(ex(a(1)), 2 * w)); r = A({X(P.extract(t, 0, w)), notV(X(P.bin(Op::Eq, P.extract(t, w, w), P.cst(0, w))))}); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      uint32_t w = a(0).w; auto id = II->getIntrinsicID(); Op o = id == Intrinsic::sadd_with_overflow ? Op::Add : id == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul;
      SE t = P.bin(o, P.sext(ex(a(0)), 2 * w), P.sext(ex(a(1)), 2 * w)); SE lo = P.extract(t, 0, w);
      r = A({X(lo), notV(X(P.bin(Op::Eq, t, P.sext(lo, 2 * w))))}); return true; }
    case Intrinsic::ctpop: { if (!a(0).e) { r = K(__builtin_popcountll(a(0).c), d.w); return true; } SE e = ex(a(0)); SE t = P.cst(0, e->w); for (unsigned i = 0; i < e->w; i++) t = P.bin(Op::Add, t, P.zext(P.extract(e, i, 1), e->w)); r = X(t); return true; }
    case Intrinsic::cttz: case Intrinsic::ctlz: { bool tz = II->getIntrinsicID() == Intrinsic::cttz; SE e = ex(a(0)); uint32_t w = e->w; SE t = P.cst(w, w);
      for (unsigned k = 0; k < w; k++) { unsigned i = tz ? w - 1 - k : k; t = P.ite(P.extract(e, i, 1), P.cst(tz ? i : w - 1 - i, w), t); } r = X(t); return true; }
    case Intrinsic::bswap: { SE e = ex(a(0)); SE t = nullptr; for (unsigned i = 0; i < e->w / 8; i++) { SE b = P.extract(e, 8 * i, 8); t = t ? P.concat(t, b) : b; } r = X(t); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint32_t w = a(0).w; SE c = P.bin(Op::URem, ex(a(2)), P.cst(w, w)); SE cc = P.concat(ex(a(0)), ex(a(1)));
      if (II->getIntrinsicID() == Intrinsic::fshl) r = X(P.extract(P.bin(Op::Shl, cc, P.zext(c, 2 * w)), w, w)); else r = X(P.extract(P.bin(Op::LShr, cc, P.zext(c, 2 * w)), 0, w)); return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::expect_with_probability: r = a(0); return true;
    case Intrinsic::ptrmask: r = bin2(Op::And, a(0), a(1)); return true;
    case Intrinsic::is_constant: r = K(0, 1); return true;
    case Intrinsic::objectsize: r = K(~0ull, d.w); return true;
    case Intrinsic::eh_typeid_for: r = K(tiId(a(0).c), 32); return true;
    case Intrinsic::stacksave: r = K(0, 64); return true;
    case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
    case Intrinsic::frameaddress: case Intrinsic::returnaddress: r = K(0, 64); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fabs: { uint64_t x = conc(s, a(0)); auto id = II->getIntrinsicID(); auto g = [&](auto v) { return id == Intrinsic::floor ? std::floor(v) : id == Intrinsic::ceil ? std::ceil(v) : std::fabs(v); };
      if (d.w == 32) { float q; uint32_t i = x; memcpy(&q, &i, 4); q = g(q); memcpy(&i, &q, 4); r = K(i, 32); } else { double q; memcpy(&q, &x, 8); q = g(q); memcpy(&x, &q, 8); r = K(x, 64); } return true; }
    default: throw Incomplete{"intrinsic " + II->getCalledFunction()->getName().str()};
    }
  }
  static V sel(const V &c, const V &t, const V &f) {
    if (!c.e) return c.c ? t : f;
    return X(P.ite(c.e, ex(t), ex(f)));
  }
  void doMemset(State &s, const V &p, const V &c, const V &nn) {
    uint64_t n = conc(s, nn); if (!n) return; uint64_t a = conc(s, p);
    find(s, a, n, true, "write"); Obj *o = s.mem.wr(a >> SH); uint64_t off = a - o->base;
    V b = castV(s, Instruction::Trunc, c, 8, c.w);
    if (b.e && o->sym.empty()) o->sym.assign(o->size, nullptr);
    for (uint64_t i = 0; i < n; i++) { if (b.e) o->sym[off + i] = b.e; else { o->data[off + i] = b.c; if (!o->sym.empty()) o->sym[off + i] = nullptr; } }
  }
  // returns true when the call is complete (r set)
  bool builtin(State &s, Frame &f, DI &d, int b, std::vector<V> &a, V &r) {
    switch (b) {
    case B_alloc: { uint64_t n = conc(s, a[0]), al = conc(s, a[1]), tag = conc(s, a[2]); r = K(allocObj(s, n, al, KHeap, tag, "heap"), 64); return true; }
    case B_free: {
      uint64_t p = conc(s, a[0]), tag = conc(s, a[1]); int64_t sz = (int64_t)conc(s, a[2]); uint64_t al = conc(s, a[3]);
      if (!p) return true;
      Obj *o = s.mem.get(p >> SH);
      if (!o || o->kind != KHeap || o->base != p) fail(s, "bad-free", "free of a pointer that is no heap block");
      if (o->freed) fail(s, "double-free", "block freed twice");
      if (o->tag != tag) fail(s, "alloc-dealloc-mismatch", "block released through the wrong function");
      if (sz >= 0 && (uint64_t)sz != o->size) fail(s, "new-delete-type-mismatch", "sized delete with size " + std::to_string(sz) + " of a block of " + std::to_string(o->size));
      (void)al;
      Obj *w = s.mem.wr(p >> SH); w->freed = true; w->data.clear(); w->data.shrink_to_fit(); w->sym.clear(); w->sym.shrink_to_fit();
      return true; }
    case B_islive: { uint64_t p = conc(s, a[0]); Obj *o = s.mem.get(p >> SH); r = K(o && !o->freed, 32); return true; }
    case B_heapcount: { uint64_t n = 0; for (uint64_t i = heap0; i < s.heapNext; i++) { Obj *o = s.mem.get(i); if (o && !o->freed) n++; } r = K(n, 64); return true; }
    case B_unwind: unwind(s, conc(s, a[0])); throw int(1); // frame changed
    case B_fail: { std::string k = cstr(s, conc(s, a[0])), m = cstr(s, conc(s, a[1])); fail(s, k, m); }
    case B_incomplete: throw Incomplete{cstr(s, conc(s, a[0]))};
    case B_u64: case B_i64: {
      std::string name = cstr(s, conc(s, a[0]));
      SE e = P.var(s.in.size(), 64, name);
      s.in.push_back({name, 64, e, b == B_i64});
      if (b == B_i64) {
        int64_t lo = (int64_t)conc(s, a[1]), hi = (int64_t)conc(s, a[2]);
        if (lo == hi) { SE c = P.cst(lo, 64); s.in.back().e = c; r = X(c); return true; }
        // keep a small variable and extend it, which is much cheaper for the solver
        uint64_t span = (uint64_t)hi - (uint64_t)lo; uint32_t w = span == ~0ull ? 64 : std::max(1u, 64u - (unsigned)__builtin_clzll(span));
        SE v = P.var(s.in.size() - 1, w, name);
        if (s.model.v.size() < s.in.size()) s.model.v.resize(s.in.size(), 0);
        s.model.v[s.in.size() - 1] = 0;
        if (span != maskw(w)) add(s, P.bin(Op::Ule, v, P.cst(span, w)));
        SE full = P.bin(Op::Add, P.zext(v, 64), P.cst(lo, 64));
        s.in.back().e = full; r = X(full);
      } else {
        if (s.model.v.size() < s.in.size()) s.model.v.resize(s.in.size(), 0);
        s.model.v[s.in.size() - 1] = 0;
        r = X(e);
      }
      return true; }
    case B_issym: r = K(a[0].e != nullptr, 32); return true;
    case B_assume: {
      V c = icmp(CmpInst::ICMP_NE, a[0], K(0, a[0].w));
      if (!c.e) { if (!c.c) { nDropped++; throw PathEnd{}; } return true; }
      bool kn; if (known(s, c.e, kn)) { if (!kn) { nDropped++; throw PathEnd{}; } return true; }
      if (!P.eval(c.e, s.model)) {
        Model m = s.model; int k = S.check(s.cons, c.e, m);
        if (k < 0) throw Incomplete{"solver timeout"};
        if (k == 0) { nDropped++; throw PathEnd{}; }
        s.model = m;
      }
      add(s, c.e); return true; }
    case B_assert: {
      nAsserts++;
      V c = icmp(CmpInst::ICMP_NE, a[0], K(0, a[0].w));
      if (!c.e) { if (!c.c) fail(s, "assertion", cstr(s, conc(s, a[1]))); return true; }
      nSymAsserts++;
      bool kn; if (known(s, c.e, kn)) { if (!kn) fail(s, "assertion", cstr(s, conc(s, a[1]))); return true; }
      Model m = s.model; int k = S.check(s.cons, P.notE(c.e), m);
      if (k < 0) throw Incomplete{"solver timeout"};
      if (k == 1) {
        violation(s, "assertion", cstr(s, conc(s, a[1])), m);
        Model m2 = s.model;
        if (!P.eval(c.e, s.model)) { int k2 = S.check(s.cons, c.e, m2); if (k2 != 1) throw PathEnd{}; s.model = m2; }
        add(s, c.e);
      }
      return true; }
    case B_reach: s.reach.insert(cstr(s, conc(s, a[0]))); return true;
    case B_obs: s.obs.push_back({cstr(s, conc(s, a[0])), ex(a[1])}); return true;
    case B_memcpy: case B_memmove: { uint64_t n = conc(s, a[2]); uint64_t p = conc(s, a[0]); if (n) copyMem(s, p, conc(s, a[1]), n); r = K(p, 64); return true; }
    case B_memset: doMemset(s, a[0], a[1], a[2]); r = a[0]; return true;
    case B_atexit: r = K(0, 32); return true;
    case B_done: complete(s); throw PathEnd{};
    }
    return false;
  }
  void call(State &s, Frame &f, DI &d) {
    V r; bool inv = d.opc == Instruction::Invoke;
    auto finish = [&] { if (d.dst >= 0) f.regs[d.dst] = r; if (inv) enter(s, f, d.succ[0]); else f.ip++; };
    if (d.imm == 1 && !d.callee) { if (d.dst >= 0) r = zeroV(d.ty); finish(); return; } // inline asm: barrier
    if (d.callee && d.callee->F->isIntrinsic()) { if (intrinsic(s, f, d, r)) { finish(); return; } }
    FuncInfo *c = d.callee;
    unsigned na = cast_<CallBase>(d.I)->arg_size();
    if (!c) {
      uint64_t p = conc(s, val(f, d.o[na]));
      uint64_t i = (p - FUNCBASE) / 16;
      if (p < FUNCBASE || (p & 15) || i >= funcs.size()) fail(s, p < 4096 ? "null-call" : "invalid-call", "call through an invalid function pointer");
      c = funcs[i].get();
    }
    std::vector<V> args; args.reserve(na);
    for (unsigned i = 0; i < na; i++) args.push_back(d.o[i] == -1 ? V{} : val(f, d.o[i]));
    if (c->builtin >= 0) {
      try { if (builtin(s, f, d, c->builtin, args, r)) { finish(); return; } }
      catch (int) { return; }
    }
    if (c->F->isDeclaration()) throw Incomplete{"external function " + llvm::demangle(c->name)};
    if (d.musttail) popFrame(s);
    pushFrame(s, c, args);
  }
  template <class T> static const T *cast_(const Instruction *I) { return llvm::cast<T>(I); }
  // ------------------------------------------------------------ one instruction
  void step(State &s) {
    Frame &f = top(s);
    DI &d = f.fi->bb[f.bb].ins[f.ip];
    auto set = [&](V v) { f.regs[d.dst] = v; f.ip++; };
    switch (d.opc) {
    case Instruction::Br:
      if (d.succ.size() == 1) { enter(s, f, d.succ[0]); return; }
      { bool t = truth(s, val(f, d.o[0])); enter(s, f, t ? d.succ[0] : d.succ[1]); return; }
    case Instruction::Switch: {
      auto *SI = cast_<SwitchInst>(d.I); const V &c = val(f, d.o[0]);
      if (!c.e) { uint32_t t = d.succ[0]; unsigned i = 1; for (auto &cs : SI->cases()) { if (cs.getCaseValue()->getZExtValue() == c.c) { t = d.succ[i]; break; } i++; } enter(s, f, t); return; }
      V cc = c;
      unsigned i = 1;
      for (auto &cs : SI->cases()) { if (decide(s, P.bin(Op::Eq, cc.e, P.cst(cs.getCaseValue()->getZExtValue(), cc.w)))) { enter(s, f, d.succ[i]); return; } i++; }
      enter(s, f, d.succ[0]); return; }
    case Instruction::Ret: { if (d.o.empty()) ret(s, nullptr); else { V v = val(f, d.o[0]); ret(s, &v); } return; }
    case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached (undefined behaviour)");
    case Instruction::Call: case Instruction::Invoke: call(s, f, d); return;
    case Instruction::LandingPad: set(A({K(f.exPtr, 64), K(f.exSel, 32)})); return;
    case Instruction::Resume: { uint64_t h = (*val(f, d.o[0]).agg)[0].c; popFrame(s); unwind(s, h); return; }
    case Instruction::Load: { uint64_t a = conc(s, val(f, d.o[0])); set(d.w ? loadInt(s, a, d.w) : loadV(s, a, d.ty)); return; }
    case Instruction::Store: { uint64_t a = conc(s, val(f, d.o[1])); const V &v = val(f, d.o[0]); if (d.w) storeInt(s, a, v); else storeV(s, a, v, d.ty); f.ip++; return; }
    case Instruction::GetElementPtr: {
      const V &b = val(f, d.o[0]);
      if (b.agg) throw Incomplete{"vector gep"};
      if (d.scaled.empty()) { set(bin2(Op::Add, b, K(d.imm, 64))); return; }
      V r = bin2(Op::Add, b, K(d.imm, 64));
      for (auto &p : d.scaled) { V i = val(f, p.first); if (i.w < 64) i = castV(s, Instruction::SExt, i, 64, i.w); r = bin2(Op::Add, r, bin2(Op::Mul, i, K(p.second, 64))); }
      set(r); return; }
    case Instruction::Alloca: { uint64_t n = conc(s, val(f, d.o[0])); uint64_t a = allocObj(s, d.imm * n, cast_<AllocaInst>(d.I)->getAlign().value(), KStack, 0, "stack"); f.allocas.push_back(a >> SH); set(K(a, 64)); return; }
    case Instruction::ICmp: { set(icmp(cast_<ICmpInst>(d.I)->getPredicate(), val(f, d.o[0]), val(f, d.o[1]))); return; }
    case Instruction::FCmp: { set(fcmp(s, cast_<FCmpInst>(d.I)->getPredicate(), val(f, d.o[0]), val(f, d.o[1]))); return; }
    case Instruction::Select: {
      V c = val(f, d.o[0]); const V &t = val(f, d.o[1]), &e = val(f, d.o[2]);
      if (c.agg) { std::vector<V> r; for (size_t i = 0; i < c.agg->size(); i++) r.push_back(sel((*c.agg)[i], (*t.agg)[i], (*e.agg)[i])); set(A(r)); return; }
      if (c.e && (t.agg || e.agg)) { bool b = truth(s, c); set(b ? t : e); return; }
      set(sel(c, t, e)); return; }
    case Instruction::Freeze: set(val(f, d.o[0])); return;
    case Instruction::ExtractValue: { V v = val(f, d.o[0]); for (unsigned i : cast_<ExtractValueInst>(d.I)->indices()) v = V((*v.agg)[i]); set(v); return; }
    case Instruction::InsertValue: { set(insertV(val(f, d.o[0]), val(f, d.o[1]), cast_<InsertValueInst>(d.I)->getIndices())); return; }
    case Instruction::ExtractElement: { uint64_t i = conc(s, val(f, d.o[1])); set(V((*val(f, d.o[0]).agg)[i])); return; }
    case Instruction::InsertElement: { uint64_t i = conc(s, val(f, d.o[2])); auto xs = *val(f, d.o[0]).agg; xs[i] = val(f, d.o[1]); set(A(xs)); return; }
    case Instruction::ShuffleVector: { auto &x = *val(f, d.o[0]).agg, &y = *val(f, d.o[1]).agg; std::vector<V> r; for (int m : cast_<ShuffleVectorInst>(d.I)->getShuffleMask()) r.push_back(m < 0 ? x[0] : (size_t)m < x.size() ? x[m] : y[m - x.size()]); set(A(r)); return; }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto *I = cast_<AtomicRMWInst>(d.I); uint64_t a = conc(s, val(f, d.o[0])); V v = val(f, d.o[1]); V old = loadInt(s, a, v.w), n;
      switch (I->getOperation()) {
      case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = bin2(Op::Add, old, v); break; case AtomicRMWInst::Sub: n = bin2(Op::Sub, old, v); break;
      case AtomicRMWInst::And: n = bin2(Op::And, old, v); break; case AtomicRMWInst::Or: n = bin2(Op::Or, old, v); break; case AtomicRMWInst::Xor: n = bin2(Op::Xor, old, v); break;
      default: throw Incomplete{"atomicrmw"}; }
      storeInt(s, a, n); set(old); return; }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = conc(s, val(f, d.o[0])); V c = val(f, d.o[1]), n = val(f, d.o[2]); V old = loadInt(s, a, c.w);
      bool eq = truth(s, bin2(Op::Eq, old, c)); if (eq) storeInt(s, a, n); set(A({old, K(eq, 1)})); return; }
    case Instruction::FNeg: { uint64_t x = conc(s, val(f, d.o[0])); set(K(x ^ (1ull << (d.w - 1)), d.w)); return; }
    default:
      if (d.opc >= Instruction::CastOpsBegin && d.opc < Instruction::CastOpsEnd) {
        const V &a = val(f, d.o[0]);
        if (a.agg || !d.w) {
          if (d.opc == Instruction::BitCast) { // via bytes
            SE e = nullptr;
            if (a.agg) for (auto &x : *a.agg) e = e ? P.concat(ex(x), e) : ex(x); else e = ex(a);
            if (d.w) { set(X(e)); return; }
            auto *VT = llvm::cast<FixedVectorType>(d.ty); uint32_t ew = widthOf(VT->getElementType()); std::vector<V> r;
            for (unsigned i = 0; i < VT->getNumElements(); i++) r.push_back(X(P.extract(e, i * ew, ew))); set(A(r)); return;
          }
          if (!a.agg) throw Incomplete{"cast"};
          uint32_t ew = widthOf(llvm::cast<VectorType>(d.ty)->getElementType()); std::vector<V> r; for (auto &x : *a.agg) r.push_back(castV(s, d.opc, x, ew, x.w)); set(A(r)); return;
        }
        set(castV(s, d.opc, a, d.w, a.w)); return;
      }
      if (d.opc >= Instruction::BinaryOpsBegin && d.opc < Instruction::BinaryOpsEnd) { set(binop(s, d.opc, val(f, d.o[0]), val(f, d.o[1]))); return; }
      throw Incomplete{std::string("instruction ") + d.I->getOpcodeName()};
    }
  }
  V insertV(const V &a, const V &v, ArrayRef<unsigned> ix) {
    std::vector<V> xs = *a.agg;
    if (ix.size() == 1) xs[ix[0]] = v; else xs[ix[0]] = insertV(xs[ix[0]], v, ix.slice(1));
    return A(xs);
  }
  // ------------------------------------------------------------ driver
  void complete(State &s) {
    nPaths++; if (sh) sh->paths++;
    for (auto &r : s.reach) reach[r]++;
    maxPathInstr = std::max(maxPathInstr, s.instr); maxCons = std::max<uint64_t>(maxCons, s.cons.size());
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    auto mk = [&] { Sample x; x.in = inputs(s, s.model); for (auto &o : s.obs) x.obs.emplace_back(o.tag, P.eval(o.v, s.model)); return x; };
    if (samples.size() < maxSamples) samples.push_back(mk());
    else { uint64_t k = rng % nPaths; if (k < maxSamples) samples[k] = mk(); }
  }
  std::unique_ptr<State> takeNext() { auto p = std::move(work.back()); work.pop_back(); return p; }
  void split() {
    // hand half of the pending states to a new process
    if (work.size() < 2 || now() - lastSplit < 0.05) return;
    int k = sh->slots.fetch_sub(1);
    if (k <= 0) { sh->slots++; return; }
    lastSplit = now();
    int id = ++sh->spawned;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { sh->slots++; sh->spawned--; return; }
    std::vector<std::unique_ptr<State>> mine, his;
    for (size_t i = 0; i < work.size(); i++) (i % 2 ? mine : his).push_back(std::move(work[i]));
    if (p == 0) {
      isRoot = false; work = std::move(his); resetStats(); outBase = outBase.substr(0, outBase.rfind('.')) + "." + std::to_string(id);
      rng ^= id * 0x9E3779B97F4A7C15ull;
      isChild = true; inChild = true;
    } else { work = std::move(mine); kids.push_back(p); }
  }
  uint64_t tick = 0;
  bool trace = getenv("SYMEX_TRACE"); bool isChild = false, inChild = false; std::vector<pid_t> kids;
  void resetStats() {
    viols.clear(); violKeys.clear(); incomplete.clear(); reach.clear(); samples.clear(); kids.clear();
    nPaths = nDropped = nForks = nInstr = nAsserts = nSymAsserts = 0; S.st = SolverStats{};
    for (auto &f : funcs) f->calls = 0;
  }
  void explore() {
    std::unique_ptr<State> cur;
    while (true) {
      if (!cur) { if (work.empty()) break; cur = takeNext(); }
      State &s = *cur;
      bool done = false;
      try {
        while (true) {
          if (s.st.empty()) {
            if (s.root >= roots.size()) { complete(s); done = true; break; }
            FuncInfo *fi = fmap[roots[s.root++]];
            std::vector<V> args; for (auto &a : fi->F->args()) args.push_back(zeroV(a.getType()));
            pushFrame(s, fi, args);
          }
          step(s);
          s.instr++; nInstr++;
          if (s.instr > maxInstr) fail(s, "non-termination", "no progress after " + std::to_string(maxInstr) + " instructions");
          if (++tick >= 0x4000) {
            tick = 0;
            if (now() > deadline) throw Incomplete{"time budget"};
            if (sh && (unsigned)sh->viol.load() >= maxViol) { done = true; work.clear(); incomplete.insert("stopped after violations"); break; }
            if (workers > 1 && work.size() >= 2) { split(); if (inChild) { inChild = false; done = true; break; } }
          }
        }
      } catch (PathEnd &) { done = true; }
      catch (Incomplete &i) {
        incomplete.insert(i.why + " [" + where(s) + "]"); done = true;
        if (i.why == "time budget") work.clear();
      }
      if (done) cur.reset();
    }
  }
  json::Value result() {
    json::Object o;
    o["paths"] = (int64_t)nPaths; o["dropped"] = (int64_t)nDropped; o["forks"] = (int64_t)nForks; o["instr"] = (int64_t)nInstr;
    o["asserts"] = (int64_t)nAsserts; o["sym_asserts"] = (int64_t)nSymAsserts; o["max_path_instr"] = (int64_t)maxPathInstr; o["max_depth"] = (int64_t)maxDepth; o["max_constraints"] = (int64_t)maxCons;
    o["queries"] = (int64_t)S.st.queries; o["cache_hits"] = (int64_t)S.st.cacheHits; o["sat"] = (int64_t)S.st.sat; o["unsat"] = (int64_t)S.st.unsat; o["unknown"] = (int64_t)S.st.unknown; o["solver_s"] = S.st.time; o["cvc5_calls"] = (int64_t)S.st.cvc;
    json::Array inc; for (auto &i : incomplete) inc.push_back(i); o["incomplete"] = std::move(inc);
    json::Object rc; for (auto &r : reach) rc[r.first] = (int64_t)r.second; o["reach"] = std::move(rc);
    json::Array fs; for (auto &f : funcs) if (f->calls) fs.push_back(f->name); o["functions"] = std::move(fs);
    json::Array vs;
    for (auto &v : viols) { json::Array in, st; for (auto &i : v.in) in.push_back(json::Array{i.first, i.second}); for (auto &x : v.stack) st.push_back(json::fixUTF8(x)); vs.push_back(json::Object{{"kind", v.kind}, {"msg", json::fixUTF8(v.msg)}, {"where", json::fixUTF8(v.where)}, {"stack", std::move(st)}, {"in", std::move(in)}}); }
    o["violations"] = std::move(vs);
    json::Array sm;
    for (auto &x : samples) { json::Array in, ob; for (auto &i : x.in) in.push_back(json::Array{i.first, i.second}); for (auto &i : x.obs) ob.push_back(json::Array{i.first, std::to_string(i.second)}); sm.push_back(json::Object{{"in", std::move(in)}, {"obs", std::move(ob)}}); }
    o["samples"] = std::move(sm);
    return o;
  }
};

int main(int argc, char **argv) {
  std::vector<std::string> files; std::string out = "out", entry = "main", emit; Engine g; double budget = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") out = nx(); else if (a == "-j") g.workers = std::stoul(nx()); else if (a == "-t") budget = std::stod(nx());
    else if (a == "--max-instr") g.maxInstr = std::stoull(nx()); else if (a == "--entry") entry = nx(); else if (a == "--emit") emit = nx();
    else if (a == "--seed") g.seed = std::stoull(nx()); else if (a == "--max-viol") g.maxViol = std::stoul(nx());
    else files.push_back(a);
  }
  double t0 = now();
  g.deadline = t0 + budget;
  g.rng = g.seed * 0x9E3779B97F4A7C15ull + 12345;
  if (!g.load(files, entry)) return 3;
  if (!emit.empty()) { std::error_code ec; raw_fd_ostream os(emit, ec); g.M->print(os, nullptr); }
  try { g.setup(entry); } catch (Incomplete &i) { errs() << "setup: " << i.why << "\n"; return 3; }
  double tl = now() - t0;
  g.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (g.sh) Shared; g.sh->slots = (int)g.workers - 1; g.sh->spawned = 0; g.sh->viol = 0; g.sh->paths = 0;
  g.outBase = out + ".0";
  int pfd[2]; if (pipe(pfd)) return 3;
  g.wfd = pfd[1];
  g.explore();
  { std::error_code ec; raw_fd_ostream os(g.outBase + ".json", ec); os << g.result(); }
  g.sh->slots++;
  for (pid_t k : g.kids) { int st; waitpid(k, &st, 0); }
  if (g.isChild) _exit(0);
  close(pfd[1]); char c; while (read(pfd[0], &c, 1) > 0) {}
  json::Object o{{"processes", g.sh->spawned.load() + 1}, {"load_s", tl}, {"wall_s", now() - t0}};
  std::error_code ec; raw_fd_ostream os(out + ".main.json", ec); os << json::Value(std::move(o));
  return 0;
}
