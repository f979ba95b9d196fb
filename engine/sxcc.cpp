// sxcc: instrument LLVM IR for symbolic execution and emit an object file.
//   sxcc <in.bc> <out.o> <defined-symbols-file>
// Every integer/pointer SSA value gets an i32 "shadow" (0 = concrete, else an expression id of the
// runtime rt.cpp). The native value of a symbolic SSA value is meaningless and is never consumed:
// branches, switches, addresses, trapping operands and arguments of external functions are replaced by
// values the runtime decides with the solver (forking the process where several are feasible).
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/MC/TargetRegistry.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/TargetSelect.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Target/TargetMachine.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <fstream>
#include <set>
#include <unordered_set>
using namespace llvm;

static std::unordered_set<std::string> Defined;

// libc functions with an instrumented replacement in sxlib.cpp
static const std::map<std::string, std::string> Redirect = {
    {"memcmp", "sxlib_memcmp"}, {"bcmp", "sxlib_memcmp"}, {"strlen", "sxlib_strlen"},
    {"memchr", "sxlib_memchr"}, {"strtol", "sxlib_strtol"}, {"strcmp", "sxlib_strcmp"},
    {"__isoc23_strtol", "sxlib_strtol"}, {"isspace", "sxlib_isspace"}, {"tolower", "sxlib_tolower"},
    {"toupper", "sxlib_toupper"},
    {"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "sxlib_rb_inc"}, {"_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "sxlib_rb_inc"},
    {"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "sxlib_rb_dec"}, {"_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", "sxlib_rb_dec"},
    {"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", "sxlib_getline"},
    {"pthread_mutex_lock", "sxlib_mutex_lock"}, {"pthread_mutex_trylock", "sxlib_mutex_lock"}, {"pthread_mutex_unlock", "sxlib_mutex_unlock"},
    {"pthread_rwlock_wrlock", "sxlib_mutex_lock"}, {"pthread_rwlock_rdlock", "sxlib_rdlock"}, {"pthread_rwlock_unlock", "sxlib_mutex_unlock"},
    {"__cxa_guard_acquire", "sxlib_guard_acquire"}, {"__cxa_guard_release", "sxlib_guard_release"},
};
// external functions that never look at payload data reachable through their pointer arguments
static bool isPayloadBlind(StringRef n) {
  static const char *pre[] = {"sxr_", "_Zn", "_Zd", "__cxa_", "_ZSt18_Rb_tree", "_ZSt28_Rb_tree", "_ZSt29_Rb_tree",
    "_ZSt20__throw", "_ZSt2", "_ZSt1", "_ZNSt8__detail15_List", "pthread_", "_ZNSt6thread", "malloc", "free", "__gxx",
    "_Unwind", "_ZNSt8ios_base", "_ZNSt6locale", "_ZNSt12__basic_file", "_ZNKSt6locale", "_ZNSt11logic_error", "_ZNSt13runtime_error",
    "_ZNSt12out_of_range", "_ZNSt9exception", "_ZNSt16invalid_argument", "_ZSt9terminate", "_ZNSt6chrono", "_ZNKSt8__detail", "_ZSt16__throw", "_ZNSt12length_error", "_ZNSt11range_error",
    "_ZNSt15__exception_ptr", "_ZSt17current_exception", "_ZSt17rethrow", "_ZNSt13__future_base","_ZSt","_ZNSt14overflow_error","_ZNSt11regex_error",
    "_ZNSt12future_error","_ZNKSt13", "_ZNSt28__atomic_futex", "abort", "__assert", "exit", "_exit", "__clang_call_terminate", "_ZNSt", "_ZNKSt"};
  if (n.contains("ostream") || n.contains("istream") || n.contains("streambuf") || n.contains("stringstream") || n.contains("stringbuf") || n.contains("num_put") || n.contains("num_get")) return false;
  for (auto p : pre) if (n.starts_with(p)) return true;
  return false;
}

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I32, *I64, *I1, *I8, *VoidTy; PointerType *PT;
  GlobalVariable *Args, *Target, *Ret, *RetFn, *ByVal;
  FunctionCallee fLoad, fStore, fClear, fCopy, fSet, fBin, fCmp, fCast, fIte, fBr, fSwitch, fConc, fDivChk,
      fGep, fIntr, fOvf, fFn, fExtMem, fAtomic, fLoadChk, fPtr, fIcArg, fIcMem, fLdAddr;
  std::vector<Constant *> FnNames, FnFlags;
  Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    VoidTy = Type::getVoidTy(C); PT = PointerType::get(C, 0);
    Args = ext("__sx_args", ArrayType::get(I32, 64)); Target = ext("__sx_target", PT);
    Ret = ext("__sx_ret", ArrayType::get(I32, 16)); RetFn = ext("__sx_retfn", PT);
    ByVal = ext("__sx_byval", ArrayType::get(PT, 64));
    auto F = [&](const char *n, Type *r, std::vector<Type *> a) {
      auto fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
      if (auto *f = dyn_cast<Function>(fc.getCallee())) f->setDoesNotThrow();
      return fc;
    };
    fLoad = F("__sx_load", I32, {PT, I32}); fStore = F("__sx_store", VoidTy, {PT, I32, I32});
    fLoadChk = F("__sx_loadchk", VoidTy, {PT, I32});
    fClear = F("__sx_clear", VoidTy, {PT, I64}); fCopy = F("__sx_copy", VoidTy, {PT, PT, I64});
    fSet = F("__sx_set", VoidTy, {PT, I32, I8, I64});
    fBin = F("__sx_bin", I32, {I32, I32, I32, I64, I32, I64});
    fCmp = F("__sx_cmp", I32, {I32, I32, I32, I64, I32, I64});
    fCast = F("__sx_cast", I32, {I32, I32, I32, I32});
    fIte = F("__sx_ite", I32, {I32, I32, I32, I64, I32, I64});
    fBr = F("__sx_br", I1, {I32, I1}); fSwitch = F("__sx_switch", I64, {I32, I64, I32, I32, PT});
    fConc = F("__sx_conc", I64, {I32, I64}); fDivChk = F("__sx_divchk", VoidTy, {I32, I64, I32});
    fGep = F("__sx_gep", I32, {I32, I64, I32, I64, I32, I64});
    fIntr = F("__sx_intr", I32, {I32, I32, I32, I64, I32, I64, I32, I64});
    fExtMem = F("__sx_extmem", VoidTy, {PT}); fAtomic = F("__sx_atomic", VoidTy, {PT, I32, I32});
    fPtr = F("__sx_addr", PT, {I32, PT});
    fLdAddr = F("__sx_ldaddr", PT, {I32, PT, I32});
    fIcArg = F("__sx_icarg", I64, {PT, I32, I64}); fIcMem = F("__sx_icmem", VoidTy, {PT, PT});
  }
  GlobalVariable *ext(const char *n, Type *t) {
    if (auto *g = M.getGlobalVariable(n)) return g;
    return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
  }
  // leaf types of a first-class value; empty => unsupported/float
  static bool leaf(Type *t) { return t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); }
  void leaves(Type *t, SmallVectorImpl<Type *> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leaves(e, out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); return; }
    out.push_back(t);
  }
  unsigned nleaves(Type *t) { SmallVector<Type *, 4> v; leaves(t, v); return v.size(); }
  static bool tracked(Type *t) { return leaf(t) || ((t->isStructTy() || t->isArrayTy())); }

  // ---- per function state
  Function *F; DenseMap<Value *, SmallVector<Value *, 2>> Sh; DenseSet<Value *> May;
  Constant *Z() { return ConstantInt::get(I32, 0); }
  bool may(Value *v) { return May.count(v); }
  SmallVector<Value *, 2> shs(Value *v) {
    auto it = Sh.find(v);
    if (it != Sh.end()) return it->second;
    return SmallVector<Value *, 2>(std::max(1u, nleaves(v->getType())), Z());
  }
  Value *sh(Value *v) { return shs(v)[0]; }
  Value *to64(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isIntegerTy(64)) return v;
    return B.CreateZExt(v, I64);
  }
  Value *from64(IRBuilder<> &B, Value *v, Type *t) { return from64_(B, v, t); }
  Value *from64_(IRBuilder<> &B, Value *v, Type *t) {
    if (t->isPointerTy()) return B.CreateIntToPtr(v, t);
    if (t->isIntegerTy(64)) return v;
    return B.CreateTrunc(v, t);
  }
  unsigned width(Type *t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
  unsigned bytes(Type *t) { return DL.getTypeStoreSize(t); }

  bool computeMay(Instruction &I) {
    Type *t = I.getType();
    if (!tracked(t)) return false;
    if (isa<LoadInst>(I)) return true;
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs:
        case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::expect:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ctpop: case Intrinsic::cttz: case Intrinsic::ctlz:
          for (auto &a : cb->args()) if (may(a)) return true;
          return false;
        default: return false;
        }
      }
      if (cb->isInlineAsm()) return false;
      if (auto *f = cb->getCalledFunction()) {
        StringRef n = f->getName();
        if (f->isDeclaration() && !Defined.count(n.str()) && !n.starts_with("sx_") && !Redirect.count(n.str())) return false;
      }
      return true;
    }
    if (isa<AllocaInst>(I) || isa<LandingPadInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return false;
    if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I) || isa<FCmpInst>(I)) return false;
    if (auto *bc = dyn_cast<BitCastInst>(&I)) if (!leaf(bc->getSrcTy()) || !leaf(t)) return false;
    for (auto &op : I.operands()) if (may(op)) return true;
    return false;
  }

  // run `gen` only when any != 0; result phi'd with 0. B must be positioned at an instruction.
  Value *guarded(Instruction *at, Value *any, function_ref<Value *(IRBuilder<> &)> gen) {
    IRBuilder<> B(at);
    Value *c = B.CreateICmpNE(any, Z());
    Instruction *term = SplitBlockAndInsertIfThen(c, at, false);
    IRBuilder<> T(term);
    Value *r = gen(T);
    BasicBlock *thenEnd = term->getParent();
    BasicBlock *head = nullptr;
    IRBuilder<> N(at);
    BasicBlock *cont = at->getParent();
    PHINode *p = PHINode::Create(I32, 2, "", &cont->front());
    for (BasicBlock *pr : predecessors(cont)) if (pr != thenEnd) head = pr;
    p->addIncoming(r, thenEnd); p->addIncoming(Z(), head);
    return p;
  }
  Value *orAll(IRBuilder<> &B, ArrayRef<Value *> v) {
    Value *r = nullptr;
    for (auto *x : v) { if (x == Z()) continue; r = r ? B.CreateOr(r, x) : x; }
    return r ? r : Z();
  }
  // make operand concrete (forks if needed); for addresses etc.
  void concretizeOperand(Instruction &I, unsigned k) {
    Value *v = I.getOperand(k);
    if (!may(v) || !leaf(v->getType())) return;
    Value *s = sh(v);
    if (s == Z()) return;
    IRBuilder<> B(&I);
    Value *n;
    if (v->getType()->isPointerTy()) n = B.CreateCall(fPtr, {s, v});
    else n = from64(B, B.CreateCall(fConc, {s, to64(B, v)}), v->getType());
    I.setOperand(k, n);
  }
  Value *ptrArg(IRBuilder<> &B, GlobalVariable *g, unsigned i) {
    return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i);
  }

  void run(Function &f) {
    F = &f; Sh.clear(); May.clear();
    std::vector<Instruction *> insts;
    { // definitions before uses: reverse post-order, whatever the layout of the blocks
      ReversePostOrderTraversal<Function *> rpo(&f); DenseSet<BasicBlock *> seen;
      for (auto *bb : rpo) { seen.insert(bb); for (auto &i : *bb) insts.push_back(&i); }
      for (auto &bb : f) if (!seen.count(&bb)) for (auto &i : bb) insts.push_back(&i);
    }
    // which values may be symbolic
    for (auto &a : f.args()) if (tracked(a.getType())) May.insert(&a);
    bool ch = true;
    while (ch) { ch = false; for (auto *i : insts) if (!May.count(i) && computeMay(*i)) { May.insert(i); ch = true; } }

    // phis first
    std::vector<std::pair<PHINode *, SmallVector<PHINode *, 2>>> phis;
    for (auto *i : insts) if (auto *p = dyn_cast<PHINode>(i)) if (may(p)) {
      SmallVector<PHINode *, 2> ps; SmallVector<Value *, 2> vs;
      for (unsigned k = 0; k < nleaves(p->getType()); k++) { auto *q = PHINode::Create(I32, p->getNumIncomingValues(), "", p); ps.push_back(q); vs.push_back(q); }
      Sh[p] = vs; phis.push_back({p, ps});
    }
    // entry: argument shadows
    {
      BasicBlock &eb = f.getEntryBlock();
      Instruction *ip = &*eb.getFirstNonPHIOrDbgOrAlloca();
      IRBuilder<> B(ip);
      bool any = false, bv = false;
      for (auto &a : f.args()) { if (may(&a)) any = true; if (a.hasByValAttr()) bv = true; }
      if (any || bv) {
        Value *t = B.CreateLoad(PT, Target);
        Value *ok = B.CreateICmpEQ(t, &f);
        B.CreateStore(ConstantPointerNull::get(PT), Target);
        Value *mask = B.CreateSExt(ok, I32);
        unsigned k = 0;
        for (auto &a : f.args()) {
          if (!tracked(a.getType())) { k++; continue; }
          SmallVector<Value *, 2> vs;
          unsigned n = std::max(1u, nleaves(a.getType()));
          for (unsigned j = 0; j < n; j++) vs.push_back(B.CreateAnd(B.CreateLoad(I32, ptrArg(B, Args, std::min(63u, k + j))), mask));
          if (a.hasByValAttr() || a.hasStructRetAttr()) { vs[0] = Z(); May.erase(&a); }
          else Sh[&a] = vs;
          if (a.hasByValAttr()) {
            Value *src = B.CreateSelect(ok, B.CreateLoad(PT, ptrArg(B, ByVal, std::min(63u, k))), ConstantPointerNull::get(PT));
            B.CreateCall(fCopy, {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
          }
          k += n;
        }
      }
      // function coverage flag (only code under test: not std/boost internals)
      StringRef nm = f.getName();
      if (!nm.starts_with("_ZNSt") && !nm.starts_with("_ZNKSt") && !nm.starts_with("_ZSt") && !nm.contains("boost") && !nm.contains("gnu_cxx") && !nm.starts_with("_GLOBAL") && !nm.starts_with("__")) {
        auto *flag = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "sxf");
        auto *nmc = ConstantDataArray::getString(C, nm);
        auto *ng = new GlobalVariable(M, nmc->getType(), true, GlobalValue::PrivateLinkage, nmc, "sxn");
        FnNames.push_back(ng); FnFlags.push_back(flag);
        B.CreateStore(ConstantInt::get(I8, 1), flag);
      }
      for (auto *i : insts) if (auto *al = dyn_cast<AllocaInst>(i)) if (al->getParent() == &eb && isa<ConstantInt>(al->getArraySize())) {
        uint64_t sz = DL.getTypeAllocSize(al->getAllocatedType()) * cast<ConstantInt>(al->getArraySize())->getZExtValue();
        IRBuilder<> B2(al == ip || !al->comesBefore(ip) ? al->getNextNode() : ip);
        B2.CreateCall(fClear, {al, ConstantInt::get(I64, sz)});
      }
    }
    for (auto *i : insts) visit(*i);
    for (auto &[p, qs] : phis) for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
      auto in = shs(p->getIncomingValue(k));
      for (unsigned j = 0; j < qs.size(); j++) qs[j]->addIncoming(in[j], p->getIncomingBlock(k));
    }
  }

  void visit(Instruction &I) {
    Type *t = I.getType();
    if (isa<PHINode>(I)) return;
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      Value *lp = l->getPointerOperand();
      if (leaf(t) && !l->isAtomic() && may(lp) && sh(lp) != Z()) { // table lookup: address may stay symbolic
        IRBuilder<> B(&I);
        I.setOperand(0, B.CreateCall(fLdAddr, {sh(lp), lp, ConstantInt::get(I32, bytes(t))}));
      } else concretizeOperand(I, 0);
      IRBuilder<> B(&I);
      if (l->isAtomic()) { B.CreateCall(fAtomic, {l->getPointerOperand(), ConstantInt::get(I32, bytes(t)), ConstantInt::get(I32, 0)}); }
      if (leaf(t)) { Sh[&I] = {B.CreateCall(fLoad, {l->getPointerOperand(), ConstantInt::get(I32, bytes(t))})}; }
      else if (t->isStructTy() || t->isArrayTy()) { loadAgg(B, l); }
      else B.CreateCall(fLoadChk, {l->getPointerOperand(), ConstantInt::get(I32, bytes(t))});
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      concretizeOperand(I, 1);
      Type *vt = s->getValueOperand()->getType();
      IRBuilder<> B(&I);
      if (s->isAtomic()) B.CreateCall(fAtomic, {s->getPointerOperand(), ConstantInt::get(I32, bytes(vt)), ConstantInt::get(I32, 1)});
      if (leaf(vt)) B.CreateCall(fStore, {s->getPointerOperand(), ConstantInt::get(I32, bytes(vt)), sh(s->getValueOperand())});
      else if (vt->isStructTy() || vt->isArrayTy()) storeAgg(B, s);
      else B.CreateCall(fStore, {s->getPointerOperand(), ConstantInt::get(I32, bytes(vt)), Z()});
      return;
    }
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      concretizeOperand(I, 0);
      if (!(a->getParent() == &F->getEntryBlock() && isa<ConstantInt>(a->getArraySize()))) {
        IRBuilder<> B(I.getNextNode());
        Value *n = B.CreateMul(B.CreateZExtOrTrunc(a->getArraySize(), I64), ConstantInt::get(I64, DL.getTypeAllocSize(a->getAllocatedType())));
        B.CreateCall(fClear, {a, n});
      }
      return;
    }
    if (auto *r = dyn_cast<AtomicRMWInst>(&I)) {
      concretizeOperand(I, 0); concretizeOperand(I, 1);
      IRBuilder<> B(&I);
      B.CreateCall(fAtomic, {r->getPointerOperand(), ConstantInt::get(I32, bytes(t)), ConstantInt::get(I32, 2)});
      return;
    }
    if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) {
      for (int k = 0; k < 3; k++) concretizeOperand(I, k);
      IRBuilder<> B(&I);
      B.CreateCall(fAtomic, {r->getPointerOperand(), ConstantInt::get(I32, bytes(r->getCompareOperand()->getType())), ConstantInt::get(I32, 2)});
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional() && may(b->getCondition()) && sh(b->getCondition()) != Z()) {
        IRBuilder<> B(&I);
        b->setCondition(B.CreateCall(fBr, {sh(b->getCondition()), b->getCondition()}));
      }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      Value *c = s->getCondition();
      if (!leaf(c->getType())) return;
      if (may(c) && sh(c) != Z()) {
        std::vector<Constant *> cs;
        for (auto &k : s->cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getZExtValue()));
        auto *at = ArrayType::get(I64, cs.size());
        auto *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "sxsw");
        IRBuilder<> B(&I);
        Value *v = B.CreateCall(fSwitch, {sh(c), to64(B, c), ConstantInt::get(I32, width(c->getType())), ConstantInt::get(I32, cs.size()), g});
        s->setCondition(from64(B, v, c->getType()));
      }
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      Value *v = r->getReturnValue();
      if (!v || !tracked(v->getType()) || F->getName() == "main") return;
      // a musttail call before ret must stay adjacent
      if (I.getPrevNode() && isa<CallInst>(I.getPrevNode()) && cast<CallInst>(I.getPrevNode())->isMustTailCall()) return;
      if (!may(v)) return;
      IRBuilder<> B(&I);
      auto vs = shs(v);
      for (unsigned k = 0; k < vs.size() && k < 16; k++) B.CreateStore(vs[k], ptrArg(B, Ret, k));
      B.CreateStore(F, RetFn);
      return;
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) { visitCall(*cb); return; }
    if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) { concretizeOperand(I, 0); return; }
    if (auto *s = dyn_cast<SelectInst>(&I)) {
      if (!leaf(t) || t->isPointerTy()) {
        if (may(s->getCondition()) && sh(s->getCondition()) != Z()) {
          IRBuilder<> B(&I);
          s->setCondition(B.CreateCall(fBr, {sh(s->getCondition()), s->getCondition()}));
        }
        if (!may(&I)) return;
        auto a = shs(s->getTrueValue()), b = shs(s->getFalseValue());
        SmallVector<Value *, 2> r; IRBuilder<> B(&I);
        for (unsigned k = 0; k < a.size(); k++) r.push_back(B.CreateSelect(s->getCondition(), a[k], b[k]));
        Sh[&I] = r; return;
      }
      if (!may(&I)) return;
      Value *c = s->getCondition();
      Value *sa = sh(s->getTrueValue()), *sb = sh(s->getFalseValue());
      IRBuilder<> B(&I);
      Value *base = (sa == Z() && sb == Z()) ? (Value *)Z() : B.CreateSelect(c, sa, sb);
      if (may(c) && sh(c) != Z()) {
        Value *cs = sh(c);
        Value *cc = B.CreateICmpNE(cs, Z());
        Instruction *term = SplitBlockAndInsertIfThen(cc, &I, false);
        IRBuilder<> T(term);
        Value *r = T.CreateCall(fIte, {ConstantInt::get(I32, width(t)), cs, sa, to64(T, s->getTrueValue()), sb, to64(T, s->getFalseValue())});
        BasicBlock *cont = I.getParent();
        PHINode *p = PHINode::Create(I32, 2, "", &cont->front());
        for (BasicBlock *pr : predecessors(cont)) p->addIncoming(pr == term->getParent() ? r : base, pr);
        Sh[&I] = {p};
      } else Sh[&I] = {base};
      return;
    }
    if (isa<BinaryOperator>(I) && t->isIntegerTy()) {
      if (!leaf(t)) return;
      if (!may(&I)) return;
      unsigned op = I.getOpcode();
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      bool div = op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem;
      if (div) {
        IRBuilder<> B(&I);
        if (sb != Z() || !isa<ConstantInt>(b)) B.CreateCall(fDivChk, {sb, to64(B, b), ConstantInt::get(I32, width(t))});
        Value *any = orAll(B, {sa, sb});
        if (any != Z()) {
          Value *c = B.CreateICmpNE(any, Z());
          I.setOperand(0, B.CreateSelect(c, ConstantInt::get(t, 1), a));
          I.setOperand(1, B.CreateSelect(c, ConstantInt::get(t, 1), b));
        }
      }
      IRBuilder<> B(&I);
      Value *any = orAll(B, {sa, sb});
      if (any == Z()) { Sh[&I] = {Z()}; return; }
      Sh[&I] = {guarded(&I, any, [&](IRBuilder<> &T) -> Value * {
        return T.CreateCall(fBin, {ConstantInt::get(I32, op), ConstantInt::get(I32, width(t)), sa, to64(T, a), sb, to64(T, b)});
      })};
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(&I)) {
      Value *a = c->getOperand(0), *b = c->getOperand(1);
      if (!leaf(a->getType()) || !may(&I)) return;
      Value *sa = sh(a), *sb = sh(b);
      IRBuilder<> B(&I);
      Value *any = orAll(B, {sa, sb});
      if (any == Z()) { Sh[&I] = {Z()}; return; }
      Sh[&I] = {guarded(&I, any, [&](IRBuilder<> &T) -> Value * {
        return T.CreateCall(fCmp, {ConstantInt::get(I32, c->getPredicate()), ConstantInt::get(I32, width(a->getType())), sa, to64(T, a), sb, to64(T, b)});
      })};
      return;
    }
    if (auto *c = dyn_cast<CastInst>(&I)) {
      if (!may(&I)) { if (!leaf(t) && t->isIntegerTy()) concretizeOperand(I, 0); else if (isa<BitCastInst>(I)) concretizeOperand(I, 0); return; }
      if (!leaf(c->getSrcTy())) return;
      if (!leaf(t)) { concretizeOperand(I, 0); return; }
      Value *s = sh(c->getOperand(0));
      unsigned wf = width(c->getSrcTy()), wt = width(t);
      if (s == Z() || wf == wt) { Sh[&I] = {s}; return; }
      Sh[&I] = {guarded(&I, s, [&](IRBuilder<> &T) -> Value * {
        return T.CreateCall(fCast, {ConstantInt::get(I32, isa<SExtInst>(I) ? 1 : 0), ConstantInt::get(I32, wf), ConstantInt::get(I32, wt), s});
      })};
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (!may(&I)) return;
      MapVector<Value *, APInt> vo; APInt co(64, 0);
      if (!g->collectOffset(DL, 64, vo, co)) { for (unsigned k = 0; k < I.getNumOperands(); k++) concretizeOperand(I, k); return; }
      Value *bs = sh(g->getPointerOperand());
      SmallVector<Value *, 4> all{bs};
      for (auto &[v, s] : vo) all.push_back(sh(v));
      IRBuilder<> B(&I);
      Value *any = orAll(B, all);
      if (any == Z()) { Sh[&I] = {Z()}; return; }
      Sh[&I] = {guarded(&I, any, [&](IRBuilder<> &T) -> Value * {
        Value *acc = bs, *accv = T.CreateAdd(to64(T, g->getPointerOperand()), ConstantInt::get(I64, co));
        Value *first = ConstantInt::get(I64, co);
        // add constant offset first (uses idx shadow 0, value=co, scale 1)
        acc = T.CreateCall(fGep, {acc, to64(T, g->getPointerOperand()), Z(), first, ConstantInt::get(I32, 64), ConstantInt::get(I64, 1)});
        for (auto &[v, s] : vo) {
          Value *iv = v->getType()->isIntegerTy(64) ? v : T.CreateSExt(v, I64);
          acc = T.CreateCall(fGep, {acc, accv, sh(v), iv, ConstantInt::get(I32, width(v->getType())), ConstantInt::get(I64, s)});
          accv = T.CreateAdd(accv, T.CreateMul(iv, ConstantInt::get(I64, s)));
        }
        return acc;
      })};
      return;
    }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
      if (!may(&I)) return;
      auto vs = shs(e->getAggregateOperand());
      unsigned off = leafIndex(e->getAggregateOperand()->getType(), e->getIndices());
      SmallVector<Value *, 2> r;
      for (unsigned k = 0; k < nleaves(t); k++) r.push_back(vs[off + k]);
      Sh[&I] = r; return;
    }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) {
      if (!may(&I)) return;
      auto vs = shs(e->getAggregateOperand()); auto iv = shs(e->getInsertedValueOperand());
      unsigned off = leafIndex(t, e->getIndices());
      for (unsigned k = 0; k < nleaves(e->getInsertedValueOperand()->getType()); k++) vs[off + k] = iv[k];
      Sh[&I] = vs; return;
    }
    if (isa<FreezeInst>(I)) { if (may(&I)) Sh[&I] = shs(I.getOperand(0)); return; }
    if (isa<FCmpInst>(I) || isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<FenceInst>(I)) return;
    // anything else: concretize tracked operands
    if (!I.isTerminator()) for (unsigned k = 0; k < I.getNumOperands(); k++) concretizeOperand(I, k);
  }
  unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nleaves(st->getElementType(k)); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); off += i * nleaves(at->getElementType()); t = at->getElementType(); }
    }
    return off;
  }
  void aggOffsets(Type *t, uint64_t base, SmallVectorImpl<std::pair<uint64_t, Type *>> &o) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(st); for (unsigned k = 0; k < st->getNumElements(); k++) aggOffsets(st->getElementType(k), base + (uint64_t)sl->getElementOffset(k), o); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { for (unsigned k = 0; k < at->getNumElements(); k++) aggOffsets(at->getElementType(), base + k * DL.getTypeAllocSize(at->getElementType()), o); }
    else o.push_back({base, t});
  }
  void loadAgg(IRBuilder<> &B, LoadInst *l) {
    SmallVector<std::pair<uint64_t, Type *>, 4> o; aggOffsets(l->getType(), 0, o);
    SmallVector<Value *, 2> r;
    for (auto &[off, t] : o) r.push_back(leaf(t) ? (Value *)B.CreateCall(fLoad, {B.CreateConstInBoundsGEP1_64(I8, l->getPointerOperand(), off), ConstantInt::get(I32, bytes(t))}) : (Value *)Z());
    Sh[l] = r;
  }
  void storeAgg(IRBuilder<> &B, StoreInst *s) {
    SmallVector<std::pair<uint64_t, Type *>, 4> o; aggOffsets(s->getValueOperand()->getType(), 0, o);
    auto vs = shs(s->getValueOperand()); unsigned k = 0;
    for (auto &[off, t] : o) { B.CreateCall(fStore, {B.CreateConstInBoundsGEP1_64(I8, s->getPointerOperand(), off), ConstantInt::get(I32, bytes(t)), leaf(t) ? vs[k] : Z()}); k++; }
  }

  void visitCall(CallBase &cb) {
    Type *t = cb.getType();
    if (auto *ii = dyn_cast<IntrinsicInst>(&cb)) { visitIntrinsic(*ii); return; }
    if (cb.isInlineAsm()) { for (unsigned k = 0; k < cb.arg_size(); k++) concretizeOperand(cb, k); return; }
    Function *cf = cb.getCalledFunction();
    if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliasee());
    if (!cf) { // indirect: the pointer itself must be concrete
      Value *v = cb.getCalledOperand();
      if (may(v) && sh(v) != Z()) { IRBuilder<> B(&cb); cb.setCalledOperand(B.CreateCall(fPtr, {sh(v), v})); }
    }
    std::string name = cf ? cf->getName().str() : "";
    if (cf && Redirect.count(name) && cf->isDeclaration()) {
      auto nf = M.getOrInsertFunction(Redirect.at(name), cf->getFunctionType());
      cb.setCalledFunction(nf); cf = dyn_cast<Function>(nf.getCallee()); name = cf ? cf->getName().str() : name;
      cb.setAttributes(AttributeList());
    }
    bool isApi = StringRef(name).starts_with("sx_");
    bool external = cf && cf->isDeclaration() && !Defined.count(name) && !isApi && !StringRef(name).starts_with("sxlib_");
    if (external) {
      if (name == "memcpy" || name == "memmove") {
        for (int k = 0; k < 3; k++) concretizeOperand(cb, k);
        IRBuilder<> B(&cb); B.CreateCall(fCopy, {cb.getArgOperand(0), cb.getArgOperand(1), cb.getArgOperand(2)}); return;
      }
      if (name == "memset") {
        concretizeOperand(cb, 0); concretizeOperand(cb, 2);
        IRBuilder<> B(&cb); B.CreateCall(fSet, {cb.getArgOperand(0), sh(cb.getArgOperand(1)), B.CreateTrunc(cb.getArgOperand(1), I8), cb.getArgOperand(2)}); return;
      }
      for (unsigned k = 0; k < cb.arg_size(); k++) concretizeOperand(cb, k);
      if (!isPayloadBlind(name)) {
        IRBuilder<> B(&cb);
        for (unsigned k = 0; k < cb.arg_size(); k++) if (cb.getArgOperand(k)->getType()->isPointerTy() && !isa<GlobalValue>(cb.getArgOperand(k)))
          B.CreateCall(fExtMem, {cb.getArgOperand(k)});
      }
      return;
    }
    if (!cf) { // indirect call: the target may be code that is not instrumented
      for (unsigned k = 0; k < cb.arg_size(); k++) {
        Value *a = cb.getArgOperand(k);
        if (!leaf(a->getType()) || isa<Constant>(a)) continue;
        IRBuilder<> B(&cb);
        if (may(a) && sh(a) != Z()) { Value *n = from64(B, B.CreateCall(fIcArg, {cb.getCalledOperand(), sh(a), to64(B, a)}), a->getType()); Value *os = sh(a); cb.setArgOperand(k, n); Sh[n] = {os}; May.insert(n); }
        if (a->getType()->isPointerTy() && !isa<GlobalValue>(a)) B.CreateCall(fIcMem, {cb.getCalledOperand(), cb.getArgOperand(k)});
      }
    }
    // pass shadows
    {
      IRBuilder<> B(&cb);
      bool any = isApi, bv = false;
      for (auto &a : cb.args()) { if (may(a) && sh(a) != Z()) any = true; for (auto *x : shs(a)) if (x != Z()) any = true; }
      for (unsigned k = 0; k < cb.arg_size(); k++) if (cb.isByValArgument(k)) bv = true;
      if (any || bv) {
        unsigned k = 0;
        for (unsigned j = 0; j < cb.arg_size(); j++) {
          Value *a = cb.getArgOperand(j);
          if (!tracked(a->getType())) { k++; continue; }
          auto vs = shs(a);
          if (cb.isByValArgument(j)) { concretizeOperand(cb, j); a = cb.getArgOperand(j); B.CreateStore(a, ptrArg(B, ByVal, std::min(63u, k))); vs[0] = Z(); }
          for (unsigned q = 0; q < vs.size(); q++) B.CreateStore(vs[q], ptrArg(B, Args, std::min(63u, k + q)));
          k += vs.size();
        }
        B.CreateStore(cb.getCalledOperand(), Target);
      }
    }
    if (!tracked(t) || !may(&cb)) return;
    if (auto *ci = dyn_cast<CallInst>(&cb)) if (ci->isMustTailCall()) return;
    Instruction *ip;
    if (auto *inv = dyn_cast<InvokeInst>(&cb)) {
      BasicBlock *nd = inv->getNormalDest();
      if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front())) { // own block, so that the shadow dominates phi uses
        BasicBlock *nb = BasicBlock::Create(C, "", F, nd);
        BranchInst::Create(nd, nb);
        inv->setNormalDest(nb);
        nd->replacePhiUsesWith(inv->getParent(), nb);
        nd = nb;
      }
      ip = &*nd->getFirstInsertionPt();
    } else ip = cb.getNextNode();
    IRBuilder<> B(ip);
    Value *rf = B.CreateLoad(PT, RetFn);
    Value *ok = B.CreateICmpEQ(rf, cb.getCalledOperand());
    Value *mask = B.CreateSExt(ok, I32);
    B.CreateStore(ConstantPointerNull::get(PT), RetFn);
    SmallVector<Value *, 2> vs; unsigned n = std::max(1u, nleaves(t));
    for (unsigned k = 0; k < n; k++) vs.push_back(k < 16 ? B.CreateAnd(B.CreateLoad(I32, ptrArg(B, Ret, k)), mask) : (Value *)Z());
    Sh[&cb] = vs;
  }
  void visitIntrinsic(IntrinsicInst &I) {
    IRBuilder<> B(&I);
    Type *t = I.getType();
    switch (I.getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
    case Intrinsic::eh_typeid_for: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: return;
    case Intrinsic::lifetime_start: {
      auto *c = dyn_cast<ConstantInt>(I.getArgOperand(0));
      if (c && c->getSExtValue() > 0) B.CreateCall(fClear, {I.getArgOperand(1), ConstantInt::get(I64, c->getZExtValue())});
      return; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      for (int k = 0; k < 3; k++) concretizeOperand(I, k);
      IRBuilder<> B2(&I);
      B2.CreateCall(fCopy, {I.getArgOperand(0), I.getArgOperand(1), B2.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
      return; }
    case Intrinsic::memset: {
      concretizeOperand(I, 0); concretizeOperand(I, 2);
      IRBuilder<> B2(&I);
      B2.CreateCall(fSet, {I.getArgOperand(0), sh(I.getArgOperand(1)), I.getArgOperand(1), B2.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
      return; }
    case Intrinsic::expect: if (may(&I)) Sh[&I] = {sh(I.getArgOperand(0))}; return;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs:
    case Intrinsic::bswap: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ctpop: case Intrinsic::cttz:
    case Intrinsic::ctlz: case Intrinsic::fshl: case Intrinsic::fshr: {
      if (!may(&I) || !leaf(t)) return;
      static const std::map<unsigned, int> code = {{Intrinsic::smax, 1}, {Intrinsic::smin, 2}, {Intrinsic::umax, 3}, {Intrinsic::umin, 4}, {Intrinsic::abs, 5}, {Intrinsic::bswap, 6}, {Intrinsic::usub_sat, 7}, {Intrinsic::uadd_sat, 8}, {Intrinsic::ctpop, 9}, {Intrinsic::cttz, 10}, {Intrinsic::ctlz, 11}, {Intrinsic::fshl, 12}, {Intrinsic::fshr, 13}};
      unsigned n = I.arg_size();
      auto S = [&](unsigned k) -> Value * { return k < n && I.getArgOperand(k)->getType() == t ? sh(I.getArgOperand(k)) : (Value *)Z(); };
      SmallVector<Value *, 3> ss{S(0), S(1), S(2)};
      Value *any = orAll(B, ss);
      if (any == Z()) { Sh[&I] = {Z()}; return; }
      Sh[&I] = {guarded(&I, any, [&](IRBuilder<> &T) -> Value * {
        auto V = [&](unsigned k) -> Value * { return k < n ? to64(T, I.getArgOperand(k)) : (Value *)ConstantInt::get(I64, 0); };
        return T.CreateCall(fIntr, {ConstantInt::get(I32, code.at(I.getIntrinsicID())), ConstantInt::get(I32, width(t)), ss[0], V(0), ss[1], V(1), ss[2], V(2)});
      })};
      return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      if (!may(&I)) return;
      Type *at = I.getArgOperand(0)->getType();
      if (!leaf(at)) return;
      static const std::map<unsigned, int> code = {{Intrinsic::uadd_with_overflow, 20}, {Intrinsic::sadd_with_overflow, 22}, {Intrinsic::usub_with_overflow, 24}, {Intrinsic::ssub_with_overflow, 26}, {Intrinsic::umul_with_overflow, 28}, {Intrinsic::smul_with_overflow, 30}};
      Value *sa = sh(I.getArgOperand(0)), *sb = sh(I.getArgOperand(1));
      Value *any = orAll(B, {sa, sb});
      if (any == Z()) { Sh[&I] = {Z(), Z()}; return; }
      SmallVector<Value *, 2> r;
      for (int q = 0; q < 2; q++) r.push_back(guarded(&I, any, [&](IRBuilder<> &T) -> Value * {
        return T.CreateCall(fIntr, {ConstantInt::get(I32, code.at(I.getIntrinsicID()) + q), ConstantInt::get(I32, width(at)), sa, to64(T, I.getArgOperand(0)), sb, to64(T, I.getArgOperand(1)), Z(), ConstantInt::get(I64, 0)});
      }));
      Sh[&I] = r; return; }
    default:
      for (unsigned k = 0; k < I.arg_size(); k++) if (!isa<Constant>(I.getArgOperand(k)) && !I.getArgOperand(k)->getType()->isMetadataTy()) concretizeOperand(I, k);
      return;
    }
  }
};

// ---- hooks on the rational class: when an operand is a symbolic real, the runtime computes the result
static void insertHooks(Module &M) {
  LLVMContext &C = M.getContext();
  Type *I32 = Type::getInt32Ty(C); auto *PT = PointerType::get(C, 0); Type *I1 = Type::getInt1Ty(C);
  auto isreal = M.getOrInsertFunction("sxr_is", I32, PT, PT);
  static const std::map<std::string, int> cmpd = {{"_ZN8rationalpLERKS_", 0}, {"_ZN8rationalmIERKS_", 1}, {"_ZN8rationalmLERKS_", 2}, {"_ZN8rationaldVERKS_", 3}};
  auto hook = [&](Function &f, Value *a, Value *b, function_ref<void(IRBuilder<> &)> body) {
    Instruction *ip = &*f.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    IRBuilder<> B(ip);
    if (!b) b = a;
    Value *h = B.CreateCall(isreal, {a, b});
    Value *c = B.CreateICmpNE(h, ConstantInt::get(I32, 0));
    Instruction *term = SplitBlockAndInsertIfThen(c, ip, true);
    IRBuilder<> T(term);
    body(T);
    term->eraseFromParent();
    f.addFnAttr(Attribute::NoInline);
  };
  auto argp = [](Function &f, unsigned k) { return f.getArg(k); };
  for (auto &f : M) {
    if (f.isDeclaration()) continue;
    std::string n = f.getName().str();
    if (auto it = cmpd.find(n); it != cmpd.end() && f.arg_size() == 2) {
      int op = it->second;
      hook(f, argp(f, 0), argp(f, 1), [&](IRBuilder<> &T) {
        T.CreateCall(M.getOrInsertFunction("sxr_cmpd", Type::getVoidTy(C), I32, PT, PT), {ConstantInt::get(I32, op), f.getArg(0), f.getArg(1)});
        if (f.getReturnType()->isVoidTy()) T.CreateRetVoid(); else T.CreateRet(f.getArg(0)); });
    } else if ((n == "_ZeqRK8rationalS1_" || n == "_ZneRK8rationalS1_") && f.arg_size() == 2) {
      bool ne = n[2] == 'n';
      hook(f, argp(f, 0), argp(f, 1), [&](IRBuilder<> &T) {
        Value *r = T.CreateCall(M.getOrInsertFunction(ne ? "sx_rne" : "sx_req", I1, PT, PT), {f.getArg(0), f.getArg(1)});
        T.CreateRet(r); });
    } else if (n == "_Zng8rational" && f.arg_size() == 2) {
      hook(f, argp(f, 1), nullptr, [&](IRBuilder<> &T) {
        T.CreateCall(M.getOrInsertFunction("sxr_neg", Type::getVoidTy(C), PT, PT), {f.getArg(0), f.getArg(1)});
        T.CreateRetVoid(); });
    } else if (n == "_ZNK8rational9numeratorEv" && f.arg_size() == 2) {
      hook(f, argp(f, 1), nullptr, [&](IRBuilder<> &T) {
        T.CreateCall(M.getOrInsertFunction("sxr_numerator", Type::getVoidTy(C), PT, PT), {f.getArg(0), f.getArg(1)});
        T.CreateRetVoid(); });
    } else if (n == "_ZNK8rational9to_doubleEv" || StringRef(n).starts_with("_ZNK8rational4reprB") || StringRef(n).starts_with("_ZNK8rational3strB") || StringRef(n).starts_with("_ZNK8rational5latexB") || StringRef(n).starts_with("_ZNK8rational7compileB") || n == "_ZNK8rational11denominatorEv") {
      unsigned k = n == "_ZNK8rational9to_doubleEv" ? 0 : 1;
      hook(f, argp(f, k), nullptr, [&](IRBuilder<> &T) {
        T.CreateCall(M.getOrInsertFunction("sxr_unsupported", Type::getVoidTy(C), PT), {f.getArg(k)});
        T.CreateUnreachable(); });
    }
  }
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  bool hooks = !(argc > 4 && std::string(argv[4]) == "nohooks");
  { std::ifstream in(argv[3]); std::string s; while (std::getline(in, s)) Defined.insert(s); }
  InitializeNativeTarget(); InitializeNativeTargetAsmPrinter(); InitializeNativeTargetAsmParser();
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("sxcc", errs()); return 2; }
  std::string e;
  auto *T = TargetRegistry::lookupTarget(M->getTargetTriple(), e);
  TargetOptions TO; 
  std::unique_ptr<TargetMachine> TM(T->createTargetMachine(M->getTargetTriple(), "x86-64", "", TO, Reloc::Static, std::nullopt, CodeGenOptLevel::Less));
  if (hooks) insertHooks(*M);
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false;
    PassBuilder PB(TM.get(), PTO);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    MPM.run(*M, MAM);
  }
  Inst in(*M);
  std::vector<Function *> fs;
  for (auto &f : *M) if (!f.isDeclaration() && !f.hasAvailableExternallyLinkage()) fs.push_back(&f);
  for (auto *f : fs) { f->removeFnAttr(Attribute::Memory); f->removeFnAttr(Attribute::NoCallback); f->removeFnAttr(Attribute::WillReturn); in.run(*f); }
  // declarations must not promise purity either
  for (auto &f : *M) { if (!f.isIntrinsic()) { f.removeFnAttr(Attribute::Memory); } }
  for (auto *f : fs) for (auto &bb : *f) for (auto &i : bb) if (auto *cb = dyn_cast<CallBase>(&i)) if (!isa<IntrinsicInst>(cb)) { cb->removeFnAttr(Attribute::Memory); }
  if (!in.FnNames.empty()) {
    auto *PT = PointerType::get(C, 0);
    auto mk = [&](std::vector<Constant *> &v, const char *nm) { auto *at = ArrayType::get(PT, v.size()); return new GlobalVariable(*M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, v), nm); };
    auto *a = mk(in.FnNames, "sxnames"), *b = mk(in.FnFlags, "sxflags");
    auto *ft = FunctionType::get(Type::getVoidTy(C), false);
    auto *ctor = Function::Create(ft, GlobalValue::InternalLinkage, "sx_register_fns_ctor", *M);
    IRBuilder<> B(BasicBlock::Create(C, "", ctor));
    B.CreateCall(M->getOrInsertFunction("__sx_regfns", Type::getVoidTy(C), PT, PT, Type::getInt32Ty(C)), {a, b, B.getInt32(in.FnNames.size())});
    B.CreateRetVoid();
    appendToGlobalCtors(*M, ctor, 0);
  }
  // shared libraries must not bind to instrumented copies of library templates
  for (auto &g : M->global_values()) if (!g.isDeclaration() && !g.hasLocalLinkage() && !g.hasAvailableExternallyLinkage()) { g.setVisibility(GlobalValue::HiddenVisibility); g.setDSOLocal(true); }
  if (verifyModule(*M, &errs())) { errs() << "sxcc: broken module " << argv[1] << "\n"; return 3; }
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  legacy::PassManager PM;
  TM->addPassesToEmitFile(PM, out, nullptr, CodeGenFileType::ObjectFile);
  PM.run(*M);
  return 0;
}
