// SymPass: LLVM 18 instrumentation pass for the ekf_cal symbolic executor.
//
// Every scalar SSA value of floating-point or integer type gets a "shadow": a
// pointer to a term of the symbolic expression DAG kept by the runtime, or null
// when the value is concrete.  Floating-point operations build terms; comparisons
// on symbolic operands become path decisions taken by the runtime.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "../rt/ops.h"
#include <map>
#include <vector>
using namespace llvm;

namespace {

static const unsigned kMaxSlots = 64;

struct SymPass : PassInfoMixin<SymPass> {
  Module *M = nullptr;
  LLVMContext *C = nullptr;
  const DataLayout *DL = nullptr;
  Type *VoidT, *I1, *I32, *I64, *DblT;
  PointerType *PtrT;
  FunctionCallee fLoad, fStore, fFBin, fFun1, fFun2, fFCmp, fIBin, fICmp, fConcInt, fConcFp, fICast,
    fGetArg, fGetRet, fMemcpy, fClear, fByvalIn, fLost, fBitCast, fIntToFp, fConcat, fFpClass, fExtCall, fLoHi;
  GlobalVariable *gArgE, *gArgB, *gRetE, *gRetB;

  StringMap<int> lib1, lib2;

  void init(Module &m) {
    M = &m; C = &m.getContext(); DL = &m.getDataLayout();
    VoidT = Type::getVoidTy(*C); I1 = Type::getInt1Ty(*C); I32 = Type::getInt32Ty(*C);
    I64 = Type::getInt64Ty(*C); DblT = Type::getDoubleTy(*C); PtrT = PointerType::getUnqual(*C);
    auto f = [&](const char *n, Type *r, ArrayRef<Type *> a) {
      return m.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    fLoad = f("__sym_load", PtrT, {PtrT, I32});
    fStore = f("__sym_store", VoidT, {PtrT, I32, PtrT});
    fFBin = f("__sym_fbin", PtrT, {I32, PtrT, PtrT, DblT, DblT});
    fFun1 = f("__sym_fun1", PtrT, {I32, PtrT, DblT});
    fFun2 = f("__sym_fun2", PtrT, {I32, PtrT, PtrT, DblT, DblT});
    fFCmp = f("__sym_fcmp", I32, {I32, PtrT, PtrT, DblT, DblT, I32});
    fIBin = f("__sym_ibin", PtrT, {I32, I32, PtrT, PtrT, I64, I64});
    fICmp = f("__sym_icmp", I32, {I32, I32, PtrT, PtrT, I64, I64, I32});
    fConcInt = f("__sym_conc_int", I64, {PtrT, I64});
    fConcFp = f("__sym_conc_fp", I64, {PtrT, DblT, I32});
    fICast = f("__sym_icast", PtrT, {I32, I32, I32, PtrT});
    fGetArg = f("__sym_getarg", PtrT, {I32, I64});
    fGetRet = f("__sym_getret", PtrT, {I32, I64});
    fMemcpy = f("__sym_memcpy", VoidT, {PtrT, PtrT, I64});
    fClear = f("__sym_clear", VoidT, {PtrT, I64});
    fByvalIn = f("__sym_byval_in", VoidT, {PtrT, PtrT, I64});
    fLost = f("__sym_lost", VoidT, {PtrT, I32});
    fIntToFp = f("__sym_int2fp", PtrT, {PtrT});
    fConcat = f("__sym_concat", PtrT, {PtrT, PtrT, I64});
    fLoHi = f("__sym_lohi", PtrT, {PtrT, I32, I32});
    fExtCall = f("__sym_extcall", VoidT, {PtrT, I32});
    auto g = [&](const char *n) {
      return cast<GlobalVariable>(m.getOrInsertGlobal(n, ArrayType::get(I64, kMaxSlots)));
    };
    gArgE = g("__sym_arg_e"); gArgB = g("__sym_arg_b");
    gRetE = g("__sym_ret_e"); gRetB = g("__sym_ret_b");
    struct P { const char *n; int op; };
    static const P p1[] = {{"sin", OP_SIN}, {"cos", OP_COS}, {"tan", OP_TAN}, {"asin", OP_ASIN}, {"acos", OP_ACOS},
      {"atan", OP_ATAN}, {"sqrt", OP_SQRT}, {"fabs", OP_ABS}, {"floor", OP_FLOOR}, {"ceil", OP_CEIL},
      {"exp", OP_EXP}, {"log", OP_LOG}, {"round", OP_ROUND}, {"trunc", OP_TRUNC}, {"cbrt", OP_CBRT},
      {"sinf", OP_SIN}, {"cosf", OP_COS}, {"tanf", OP_TAN}, {"sqrtf", OP_SQRT}, {"fabsf", OP_ABS}, {"floorf", OP_FLOOR},
      {"ceilf", OP_CEIL}, {"atanf", OP_ATAN}, {"acosf", OP_ACOS}, {"asinf", OP_ASIN}};
    for (auto &x : p1) lib1[x.n] = x.op;
    static const P p2[] = {{"atan2", OP_ATAN2}, {"pow", OP_POW}, {"fmod", OP_FMOD}, {"fmin", OP_MIN}, {"fmax", OP_MAX},
      {"hypot", OP_HYPOT}, {"atan2f", OP_ATAN2}, {"powf", OP_POW}, {"fmodf", OP_FMOD}, {"copysign", OP_COPYSIGN},
      {"fminf", OP_MIN}, {"fmaxf", OP_MAX}, {"hypotf", OP_HYPOT}};
    for (auto &x : p2) lib2[x.n] = x.op;
  }

  // number of scalar lanes of a type that can carry shadows; pointers are lanes with no shadow
  static bool isScal(Type *T) {
    if (T->isDoubleTy() || T->isFloatTy()) return true;
    if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() >= 8 && I->getBitWidth() <= 64;
    return false;
  }
  static bool flatten(Type *T, std::vector<Type *> &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (auto *E : S->elements()) flatten(E, out);
      return true;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      if (A->getNumElements() > 16) { out.push_back(nullptr); return true; }
      for (unsigned i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), out);
      return true;
    }
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
      for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back(V->getElementType());
      return true;
    }
    out.push_back(T);
    return true;
  }
  static unsigned lanes(Type *T) { std::vector<Type *> v; flatten(T, v); return v.size(); }
  static bool composite(Type *T) { return T->isStructTy() || T->isArrayTy() || isa<FixedVectorType>(T); }

  struct Ctx {
    Function *F;
    std::map<Value *, Value *> sh;                  // scalars
    std::map<Value *, std::vector<Value *>> agg;    // composites
  };

  Constant *null() { return ConstantPointerNull::get(PtrT); }
  bool isNull(Value *v) { return isa<ConstantPointerNull>(v); }

  Value *S(Ctx &X, Value *V) {
    auto it = X.sh.find(V);
    if (it != X.sh.end()) return it->second;
    return null();
  }
  std::vector<Value *> A(Ctx &X, Value *V) {
    auto it = X.agg.find(V);
    if (it != X.agg.end()) return it->second;
    return std::vector<Value *>(lanes(V->getType()), null());
  }
  std::vector<Value *> L(Ctx &X, Value *V) {
    if (composite(V->getType())) return A(X, V);
    return {S(X, V)};
  }
  void setL(Ctx &X, Value *V, const std::vector<Value *> &v) {
    if (composite(V->getType())) X.agg[V] = v; else X.sh[V] = v[0];
  }
  // bits of a scalar as i64
  Value *bits(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isIntegerTy()) {
      unsigned w = T->getIntegerBitWidth();
      if (w < 64) return B.CreateZExt(V, I64);
      if (w == 64) return V;
      return B.CreateTrunc(V, I64);
    }
    return ConstantInt::get(I64, 0);
  }
  Value *dbl(IRBuilder<> &B, Value *V) {
    if (V->getType()->isFloatTy()) return B.CreateFPExt(V, DblT);
    return V;
  }
  Value *sext64(IRBuilder<> &B, Value *V) {
    if (V->getType()->getIntegerBitWidth() < 64) return B.CreateSExt(V, I64);
    return V;
  }
  // extract scalar lanes of a value (for bits)
  void laneVals(IRBuilder<> &B, Value *V, std::vector<Value *> &out) {
    Type *T = V->getType();
    if (auto *ST = dyn_cast<StructType>(T)) {
      for (unsigned i = 0; i < ST->getNumElements(); i++) laneVals(B, B.CreateExtractValue(V, i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      if (AT->getNumElements() > 16) { out.push_back(nullptr); return; }
      for (unsigned i = 0; i < AT->getNumElements(); i++) laneVals(B, B.CreateExtractValue(V, i), out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      for (unsigned i = 0; i < VT->getNumElements(); i++) out.push_back(B.CreateExtractElement(V, (uint64_t)i));
    } else out.push_back(V);
  }
  Value *slot(IRBuilder<> &B, GlobalVariable *G, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i);
  }
  Value *ci(unsigned v) { return ConstantInt::get(I32, v); }

  // Load shadows of a (possibly composite) type from memory
  void loadLanes(IRBuilder<> &B, Type *T, Value *Ptr, uint64_t off, std::vector<Value *> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) loadLanes(B, ST->getElementType(i), Ptr, off + SL->getElementOffset(i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      if (AT->getNumElements() > 16) { out.push_back(null()); return; }
      uint64_t es = DL->getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++) loadLanes(B, AT->getElementType(), Ptr, off + i * es, out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(VT->getElementType());
      for (unsigned i = 0; i < VT->getNumElements(); i++) loadLanes(B, VT->getElementType(), Ptr, off + i * es, out);
    } else if (isScal(T)) {
      Value *P = off ? B.CreateConstGEP1_64(Type::getInt8Ty(*C), Ptr, off) : Ptr;
      out.push_back(B.CreateCall(fLoad, {P, ci(DL->getTypeStoreSize(T))}));
    } else out.push_back(null());
  }
  void storeLanes(IRBuilder<> &B, Type *T, Value *Ptr, uint64_t off, const std::vector<Value *> &v, unsigned &k) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) storeLanes(B, ST->getElementType(i), Ptr, off + SL->getElementOffset(i), v, k);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(AT->getElementType());
      if (AT->getNumElements() > 16) {
        Value *P = off ? B.CreateConstGEP1_64(Type::getInt8Ty(*C), Ptr, off) : Ptr;
        B.CreateCall(fClear, {P, ConstantInt::get(I64, DL->getTypeStoreSize(T))});
        k++; return;
      }
      for (unsigned i = 0; i < AT->getNumElements(); i++) storeLanes(B, AT->getElementType(), Ptr, off + i * es, v, k);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(VT->getElementType());
      for (unsigned i = 0; i < VT->getNumElements(); i++) storeLanes(B, VT->getElementType(), Ptr, off + i * es, v, k);
    } else {
      Value *P = off ? B.CreateConstGEP1_64(Type::getInt8Ty(*C), Ptr, off) : Ptr;
      B.CreateCall(fStore, {P, ci(DL->getTypeStoreSize(T)), isScal(T) ? v[k] : (Value *)null()});
      k++;
    }
  }
  static unsigned laneOffset(Type *T, ArrayRef<unsigned> idx, Type *&sub) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        for (unsigned j = 0; j < i; j++) off += lanes(ST->getElementType(j));
        T = ST->getElementType(i);
      } else {
        auto *AT = cast<ArrayType>(T);
        off += i * lanes(AT->getElementType());
        T = AT->getElementType();
      }
    }
    sub = T;
    return off;
  }

  void instrument(Function &F) {
    Ctx X; X.F = &F;
    // snapshot
    std::vector<Instruction *> work;
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<BasicBlock *> order;
    for (auto *BB : RPO) order.push_back(BB);
    // split invoke normal edges first so there is a place for the post-call code
    std::map<InvokeInst *, Instruction *> after;
    for (auto *BB : order)
      if (auto *II = dyn_cast<InvokeInst>(BB->getTerminator())) {
        BasicBlock *ND = II->getNormalDest();
        BasicBlock *NB = SplitEdge(BB, ND);
        after[II] = &*NB->getFirstInsertionPt();
      }
    for (auto *BB : order) for (auto &I : *BB) work.push_back(&I);
    // arguments
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
      unsigned k = 0;
      for (auto &Arg : F.args()) {
        Type *T = Arg.getType();
        if (Arg.hasByValAttr()) {
          if (k < kMaxSlots) {
            Value *e = B.CreateLoad(I64, slot(B, gArgE, k));
            B.CreateCall(fByvalIn, {&Arg, B.CreateIntToPtr(e, PtrT), ConstantInt::get(I64, DL->getTypeAllocSize(Arg.getParamByValType()))});
          }
          k++;
          continue;
        }
        std::vector<Type *> tl; flatten(T, tl);
        std::vector<Value *> vals, shs;
        bool any = false;
        for (auto *t : tl) if (t && isScal(t)) any = true;
        if (any) laneVals(B, &Arg, vals);
        for (unsigned i = 0; i < tl.size(); i++, k++) {
          if (any && tl[i] && isScal(tl[i]) && vals[i] && k < kMaxSlots)
            shs.push_back(B.CreateCall(fGetArg, {ci(k), bits(B, vals[i])}));
          else shs.push_back(null());
        }
        if (any) setL(X, &Arg, shs);
      }
    }
    // phi placeholders
    std::vector<std::pair<PHINode *, std::vector<PHINode *>>> phis;
    for (auto *I : work)
      if (auto *P = dyn_cast<PHINode>(I)) {
        std::vector<Type *> tl; flatten(P->getType(), tl);
        bool any = false;
        for (auto *t : tl) if (t && isScal(t)) any = true;
        if (!any) continue;
        std::vector<PHINode *> np; std::vector<Value *> sv;
        for (auto *t : tl) {
          if (t && isScal(t)) {
            auto *q = PHINode::Create(PtrT, P->getNumIncomingValues(), "symphi", P);
            np.push_back(q); sv.push_back(q);
          } else { np.push_back(nullptr); sv.push_back(null()); }
        }
        phis.push_back({P, np});
        setL(X, P, sv);
      }
    for (auto *I : work) visit(X, I, after);
    for (auto &pr : phis) {
      for (unsigned i = 0; i < pr.first->getNumIncomingValues(); i++) {
        auto v = L(X, pr.first->getIncomingValue(i));
        for (unsigned l = 0; l < pr.second.size(); l++)
          if (pr.second[l]) pr.second[l]->addIncoming(v[l], pr.first->getIncomingBlock(i));
      }
    }
  }

  void visit(Ctx &X, Instruction *I, std::map<InvokeInst *, Instruction *> &after) {
    if (isa<PHINode>(I)) return;
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(X, CB, after); return; }
    if (auto *SI = dyn_cast<SwitchInst>(I)) {
      Value *s = S(X, SI->getCondition());
      if (!isNull(s)) {
        IRBuilder<> B(SI);
        Value *v = B.CreateCall(fConcInt, {s, sext64(B, SI->getCondition())});
        SI->setCondition(B.CreateTruncOrBitCast(v, SI->getCondition()->getType()));
      }
      return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(I)) {
      Value *V = RI->getReturnValue();
      if (!V) return;
      std::vector<Type *> tl; flatten(V->getType(), tl);
      auto sh = L(X, V);
      IRBuilder<> B(RI);
      bool any = false;
      for (unsigned i = 0; i < tl.size(); i++) if (tl[i] && isScal(tl[i])) any = true;
      if (!any) return;
      std::vector<Value *> vals; laneVals(B, V, vals);
      for (unsigned i = 0; i < tl.size() && i < kMaxSlots; i++)
        if (tl[i] && isScal(tl[i])) {
          B.CreateStore(B.CreatePtrToInt(sh[i], I64), slot(B, gRetE, i));
          if (!isNull(sh[i])) B.CreateStore(bits(B, vals[i]), slot(B, gRetB, i));
        }
      return;
    }
    if (I->isTerminator()) return;
    IRBuilder<> B(I->getNextNode());
    if (auto *LI = dyn_cast<LoadInst>(I)) {
      std::vector<Type *> tl; flatten(LI->getType(), tl);
      bool any = false;
      for (auto *t : tl) if (t && isScal(t)) any = true;
      if (!any) return;
      std::vector<Value *> v;
      loadLanes(B, LI->getType(), LI->getPointerOperand(), 0, v);
      setL(X, LI, v);
      return;
    }
    if (auto *SI = dyn_cast<StoreInst>(I)) {
      auto v = L(X, SI->getValueOperand());
      unsigned k = 0;
      storeLanes(B, SI->getValueOperand()->getType(), SI->getPointerOperand(), 0, v, k);
      return;
    }
    if (auto *RM = dyn_cast<AtomicRMWInst>(I)) {
      B.CreateCall(fClear, {RM->getPointerOperand(), ConstantInt::get(I64, DL->getTypeStoreSize(RM->getType()))});
      return;
    }
    if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) {
      B.CreateCall(fClear, {CX->getPointerOperand(), ConstantInt::get(I64, DL->getTypeStoreSize(CX->getNewValOperand()->getType()))});
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      IRBuilder<> BB(I);
      for (unsigned i = 1; i < G->getNumOperands(); i++) {
        Value *op = G->getOperand(i);
        if (!op->getType()->isIntegerTy()) continue;
        Value *s = S(X, op);
        if (isNull(s)) continue;
        Value *v = BB.CreateCall(fConcInt, {s, sext64(BB, op)});
        G->setOperand(i, BB.CreateTruncOrBitCast(v, op->getType()));
      }
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      auto v = A(X, E->getAggregateOperand());
      Type *sub; unsigned o = laneOffset(E->getAggregateOperand()->getType(), E->getIndices(), sub);
      unsigned n = lanes(sub);
      setL(X, I, std::vector<Value *>(v.begin() + o, v.begin() + o + n));
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(I)) {
      auto v = A(X, E->getAggregateOperand());
      Type *sub; unsigned o = laneOffset(E->getAggregateOperand()->getType(), E->getIndices(), sub);
      auto w = L(X, E->getInsertedValueOperand());
      for (unsigned i = 0; i < w.size(); i++) v[o + i] = w[i];
      setL(X, I, v);
      return;
    }
    if (auto *E = dyn_cast<ExtractElementInst>(I)) {
      auto v = A(X, E->getVectorOperand());
      if (auto *ix = dyn_cast<ConstantInt>(E->getIndexOperand())) X.sh[I] = v[ix->getZExtValue()];
      else { for (auto *s : v) if (!isNull(s)) B.CreateCall(fLost, {s, ci(1)}); }
      return;
    }
    if (auto *E = dyn_cast<InsertElementInst>(I)) {
      auto v = A(X, E->getOperand(0));
      if (auto *ix = dyn_cast<ConstantInt>(E->getOperand(2))) v[ix->getZExtValue()] = S(X, E->getOperand(1));
      setL(X, I, v);
      return;
    }
    if (auto *E = dyn_cast<ShuffleVectorInst>(I)) {
      auto a = A(X, E->getOperand(0)), b = A(X, E->getOperand(1));
      std::vector<Value *> v;
      for (int m : E->getShuffleMask()) {
        if (m < 0) v.push_back(null());
        else if ((unsigned)m < a.size()) v.push_back(a[m]);
        else v.push_back(b[m - a.size()]);
      }
      setL(X, I, v);
      return;
    }
    if (isa<FreezeInst>(I)) { setL(X, I, L(X, I->getOperand(0))); return; }
    if (auto *SL = dyn_cast<SelectInst>(I)) {
      Type *T = I->getType();
      auto a = L(X, SL->getTrueValue()), b = L(X, SL->getFalseValue());
      std::vector<Value *> v;
      bool vc = SL->getCondition()->getType()->isVectorTy();
      for (unsigned i = 0; i < a.size(); i++) {
        if (isNull(a[i]) && isNull(b[i])) { v.push_back(null()); continue; }
        Value *c = SL->getCondition();
        if (vc) c = B.CreateExtractElement(c, (uint64_t)i);
        v.push_back(B.CreateSelect(c, a[i], b[i]));
      }
      (void)T;
      setL(X, I, v);
      return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Type *T = BO->getType();
      Value *x = BO->getOperand(0), *y = BO->getOperand(1);
      if (T->isDoubleTy() || T->isFloatTy()) {
        Value *a = S(X, x), *b = S(X, y);
        if (isNull(a) && isNull(b)) return;
        int op = 0;
        switch (BO->getOpcode()) {
          case Instruction::FAdd: op = OP_ADD; break;
          case Instruction::FSub: op = OP_SUB; break;
          case Instruction::FMul: op = OP_MUL; break;
          case Instruction::FDiv: op = OP_DIV; break;
          case Instruction::FRem: op = OP_FMOD; break;
          default: return;
        }
        X.sh[I] = B.CreateCall(fFBin, {ci(op), a, b, dbl(B, x), dbl(B, y)});
      } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
        auto a = A(X, x), b = A(X, y);
        std::vector<Value *> v;
        bool fp = VT->getElementType()->isFloatingPointTy();
        for (unsigned i = 0; i < a.size(); i++) {
          if (isNull(a[i]) && isNull(b[i])) { v.push_back(null()); continue; }
          int op = 0;
          switch (BO->getOpcode()) {
            case Instruction::FAdd: op = OP_ADD; break;
            case Instruction::FSub: op = OP_SUB; break;
            case Instruction::FMul: op = OP_MUL; break;
            case Instruction::FDiv: op = OP_DIV; break;
            case Instruction::FRem: op = OP_FMOD; break;
            default: break;
          }
          if (fp && op) {
            Value *xv = B.CreateExtractElement(x, (uint64_t)i), *yv = B.CreateExtractElement(y, (uint64_t)i);
            v.push_back(B.CreateCall(fFBin, {ci(op), a[i], b[i], dbl(B, xv), dbl(B, yv)}));
          } else {
            if (!isNull(a[i])) B.CreateCall(fLost, {a[i], ci(2)});
            if (!isNull(b[i])) B.CreateCall(fLost, {b[i], ci(2)});
            v.push_back(null());
          }
        }
        setL(X, I, v);
      } else if (isScal(T)) {
        Value *a = S(X, x), *b = S(X, y);
        if (isNull(a) && isNull(b)) return;
        X.sh[I] = B.CreateCall(fIBin, {ci(BO->getOpcode() | (BO->getOpcode() == Instruction::LShr ? 0 : 0)), ci(T->getIntegerBitWidth()), a, b, sext64(B, x), sext64(B, y)});
        // remapped in the runtime by opcode number
      } else if (T->isIntegerTy(128) ) {
        for (auto *o : {x, y}) { Value *s = S(X, o); if (!isNull(s)) B.CreateCall(fLost, {s, ci(3)}); }
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      if (U->getOpcode() == Instruction::FNeg) {
        if (!composite(U->getType())) {
          Value *a = S(X, U->getOperand(0));
          if (!isNull(a)) X.sh[I] = B.CreateCall(fFun1, {ci(OP_NEG), a, dbl(B, U->getOperand(0))});
        } else {
          auto a = A(X, U->getOperand(0));
          std::vector<Value *> v;
          for (unsigned i = 0; i < a.size(); i++)
            v.push_back(isNull(a[i]) ? (Value *)null() : B.CreateCall(fFun1, {ci(OP_NEG), a[i], dbl(B, B.CreateExtractElement(U->getOperand(0), (uint64_t)i))}));
          setL(X, I, v);
        }
      }
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      Value *x = FC->getOperand(0), *y = FC->getOperand(1);
      if (composite(x->getType())) {
        auto a = A(X, x), b = A(X, y);
        Value *res = nullptr;
        for (unsigned i = 0; i < a.size(); i++) {
          if (isNull(a[i]) && isNull(b[i])) continue;
          Value *xv = B.CreateExtractElement(x, (uint64_t)i), *yv = B.CreateExtractElement(y, (uint64_t)i);
          Value *c = B.CreateExtractElement(FC, (uint64_t)i);
          Value *r = B.CreateCall(fFCmp, {ci(FC->getPredicate()), a[i], b[i], dbl(B, xv), dbl(B, yv), B.CreateZExt(c, I32)});
          Value *base = res ? res : (Value *)FC;
          res = B.CreateInsertElement(base, B.CreateTrunc(r, I1), (uint64_t)i);
        }
        if (res) FC->replaceUsesWithIf(res, [&](Use &u) { return after_(u, FC, res); });
        return;
      }
      Value *a = S(X, x), *b = S(X, y);
      if (isNull(a) && isNull(b)) return;
      Value *c0 = B.CreateZExt(FC, I32);
      Value *r = B.CreateCall(fFCmp, {ci(FC->getPredicate()), a, b, dbl(B, x), dbl(B, y), c0});
      Value *t = B.CreateTrunc(r, I1);
      FC->replaceUsesWithIf(t, [&](Use &u) { return u.getUser() != c0; });
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Value *x = IC->getOperand(0), *y = IC->getOperand(1);
      if (!isScal(x->getType())) {
        if (composite(x->getType())) for (auto *o : {x, y}) for (auto *s : A(X, o)) if (!isNull(s)) B.CreateCall(fLost, {s, ci(4)});
        return;
      }
      Value *a = S(X, x), *b = S(X, y);
      if (isNull(a) && isNull(b)) return;
      Value *c0 = B.CreateZExt(IC, I32);
      Value *r = B.CreateCall(fICmp, {ci(IC->getPredicate()), ci(x->getType()->getIntegerBitWidth()), a, b, sext64(B, x), sext64(B, y), c0});
      Value *t = B.CreateTrunc(r, I1);
      IC->replaceUsesWithIf(t, [&](Use &u) { return u.getUser() != c0; });
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *x = CI->getOperand(0);
      Type *ST = x->getType(), *DT = CI->getType();
      switch (CI->getOpcode()) {
        case Instruction::FPExt: case Instruction::FPTrunc: setL(X, I, L(X, x)); return;
        case Instruction::BitCast: {
          if (composite(ST) || composite(DT)) {
            auto v = L(X, x);
            unsigned ns = v.size(), nd = lanes(DT);
            if (ns == nd) { setL(X, I, v); return; }
            if (nd == 1 && ns == 2) {
              Value *bv = bits(B, I);
              X.sh[I] = (isNull(v[0]) && isNull(v[1])) ? (Value *)null() : B.CreateCall(fConcat, {v[0], v[1], bv});
              return;
            }
            if (nd == 2 && ns == 1 && !isNull(v[0])) {
              setL(X, I, {B.CreateCall(fLoHi, {v[0], ci(0), ci(0)}), B.CreateCall(fLoHi, {v[0], ci(1), ci(0)})});
              return;
            }
            for (auto *s : v) if (!isNull(s)) B.CreateCall(fLost, {s, ci(5)});
            return;
          }
          setL(X, I, L(X, x));
          return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          if (composite(ST)) { for (auto *s : A(X, x)) if (!isNull(s)) B.CreateCall(fLost, {s, ci(6)}); return; }
          Value *a = S(X, x);
          if (isNull(a)) return;
          IRBuilder<> BB(I);
          Value *r = BB.CreateCall(fConcFp, {a, dbl(BB, x), ci(CI->getOpcode() == Instruction::FPToSI)});
          Value *t = BB.CreateTruncOrBitCast(r, DT);
          I->replaceAllUsesWith(t);
          return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
          if (composite(ST)) return;
          Value *a = S(X, x);
          if (isNull(a)) return;
          X.sh[I] = B.CreateCall(fIntToFp, {a});
          return;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
          if (composite(ST)) { for (auto *s : A(X, x)) if (!isNull(s)) B.CreateCall(fLost, {s, ci(7)}); return; }
          Value *a = S(X, x);
          if (isNull(a)) return;
          if (!isScal(DT)) { // e.g. trunc to i1
            if (DT->isIntegerTy(1)) {
              IRBuilder<> BB(I);
              Value *v = BB.CreateCall(fConcInt, {a, sext64(BB, x)});
              I->setOperand(0, BB.CreateTruncOrBitCast(v, ST));
            } else B.CreateCall(fLost, {a, ci(8)});
            return;
          }
          X.sh[I] = B.CreateCall(fICast, {ci(CI->getOpcode() == Instruction::Trunc ? 0 : CI->getOpcode() == Instruction::ZExt ? 1 : 2),
            ci(ST->getIntegerBitWidth()), ci(DT->getIntegerBitWidth()), a});
          return;
        }
        default: return;
      }
    }
  }
  bool after_(Use &u, Instruction *FC, Value *res) {
    // replace only uses outside the instrumentation just built
    auto *Us = dyn_cast<Instruction>(u.getUser());
    if (!Us) return false;
    if (Us == res) return false;
    // instrumentation is in the same block between FC and res
    if (Us->getParent() == FC->getParent()) {
      for (Instruction *p = FC->getNextNode(); p; p = p->getNextNode()) {
        if (p == Us) return false;
        if (p == res) break;
      }
    }
    return true;
  }

  void visitCall(Ctx &X, CallBase *CB, std::map<InvokeInst *, Instruction *> &after) {
    if (CB->isInlineAsm()) return;
    Instruction *post = nullptr;
    if (auto *II = dyn_cast<InvokeInst>(CB)) post = after[II];
    else if (isa<CallInst>(CB)) post = CB->getNextNode();
    Function *Cal = CB->getCalledFunction();
    StringRef name = Cal ? Cal->getName() : StringRef();
    if (name.starts_with("__sym_")) {
      // harness API implemented in the runtime: falls through to the ordinary protocol
    }
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(X, II); return; }
    if (Cal && Cal->isDeclaration()) {
      auto i1 = lib1.find(name);
      if (i1 != lib1.end() && CB->arg_size() == 1 && CB->getType()->isFloatingPointTy()) {
        Value *a = S(X, CB->getArgOperand(0));
        if (!isNull(a)) { IRBuilder<> B(post); X.sh[CB] = B.CreateCall(fFun1, {ci(i1->second), a, dbl(B, CB->getArgOperand(0))}); }
        return;
      }
      auto i2 = lib2.find(name);
      if (i2 != lib2.end() && CB->arg_size() == 2 && CB->getType()->isFloatingPointTy()) {
        Value *a = S(X, CB->getArgOperand(0)), *b = S(X, CB->getArgOperand(1));
        if (!isNull(a) || !isNull(b)) {
          IRBuilder<> B(post);
          X.sh[CB] = B.CreateCall(fFun2, {ci(i2->second), a, b, dbl(B, CB->getArgOperand(0)), dbl(B, CB->getArgOperand(1))});
        }
        return;
      }
      if ((name == "memcpy" || name == "memmove") && CB->arg_size() == 3) {
        IRBuilder<> B(CB);
        B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if (name == "memset" && CB->arg_size() == 3) {
        IRBuilder<> B(CB);
        B.CreateCall(fClear, {CB->getArgOperand(0), CB->getArgOperand(2)});
        return;
      }
    }
    // generic call: pass shadows
    {
      IRBuilder<> B(CB);
      unsigned k = 0;
      bool anySym = false;
      std::vector<Value *> symArgs;
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value *V = CB->getArgOperand(i);
        if (CB->isByValArgument(i)) {
          if (k < kMaxSlots) B.CreateStore(B.CreatePtrToInt(V, I64), slot(B, gArgE, k));
          k++; continue;
        }
        if (V->getType()->isMetadataTy()) return;
        std::vector<Type *> tl; flatten(V->getType(), tl);
        auto sh = L(X, V);
        bool any = false;
        for (unsigned j = 0; j < tl.size(); j++) if (tl[j] && isScal(tl[j]) && !isNull(sh[j])) any = true;
        std::vector<Value *> vals;
        if (any) laneVals(B, V, vals);
        for (unsigned j = 0; j < tl.size(); j++, k++) {
          if (k >= kMaxSlots) continue;
          if (!(tl[j] && isScal(tl[j]))) continue;
          B.CreateStore(B.CreatePtrToInt(sh[j], I64), slot(B, gArgE, k));
          if (!isNull(sh[j])) {
            B.CreateStore(bits(B, vals[j]), slot(B, gArgB, k));
            anySym = true;
            symArgs.push_back(sh[j]);
          }
        }
      }
      if (anySym && Cal && Cal->isDeclaration() && !name.starts_with("__sym_")) {
        // a symbolic scalar may flow into code outside the encoding
        Value *acc = nullptr;
        for (auto *s : symArgs) {
          Value *nz = B.CreateZExt(B.CreateICmpNE(s, null()), I32);
          acc = acc ? B.CreateOr(acc, nz) : nz;
        }
        GlobalVariable *gn = nameStr(name);
        B.CreateCall(fExtCall, {gn, acc});
      }
      std::vector<Type *> rl;
      if (!CB->getType()->isVoidTy()) flatten(CB->getType(), rl);
      for (unsigned i = 0; i < rl.size() && i < kMaxSlots; i++)
        if (rl[i] && isScal(rl[i])) B.CreateStore(ConstantInt::get(I64, 0), slot(B, gRetE, i));
    }
    if (!post || CB->getType()->isVoidTy()) { postAlloc(CB, post, name); return; }
    IRBuilder<> B(post);
    std::vector<Type *> rl; flatten(CB->getType(), rl);
    bool any = false;
    for (auto *t : rl) if (t && isScal(t)) any = true;
    if (any) {
      std::vector<Value *> vals; laneVals(B, CB, vals);
      std::vector<Value *> sh;
      for (unsigned i = 0; i < rl.size(); i++)
        sh.push_back((rl[i] && isScal(rl[i]) && vals[i] && i < kMaxSlots) ? (Value *)B.CreateCall(fGetRet, {ci(i), bits(B, vals[i])}) : (Value *)null());
      setL(X, CB, sh);
    }
    postAlloc(CB, post, name);
  }
  std::map<std::string, GlobalVariable *> names;
  GlobalVariable *nameStr(StringRef n) {
    auto &g = names[n.str()];
    if (!g) {
      Constant *c = ConstantDataArray::getString(*C, n);
      g = new GlobalVariable(*M, c->getType(), true, GlobalValue::PrivateLinkage, c, "symname");
    }
    return g;
  }
  void postAlloc(CallBase *CB, Instruction *post, StringRef name) {
    if (!post) return;
    Value *sz = nullptr;
    if (name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "_ZnwmSt11align_val_t") sz = CB->getArgOperand(0);
    else if (name == "realloc" ) return;
    if (!sz) return;
    IRBuilder<> B(post);
    B.CreateCall(fClear, {CB, sz});
  }

  void visitIntrinsic(Ctx &X, IntrinsicInst *II) {
    Instruction *nx = II->getNextNode();
    switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        IRBuilder<> B(II);
        Value *n = II->getArgOperand(2);
        if (n->getType() != I64) n = B.CreateZExt(n, I64);
        B.CreateCall(fMemcpy, {II->getArgOperand(0), II->getArgOperand(1), n});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        IRBuilder<> B(II);
        Value *n = II->getArgOperand(2);
        if (n->getType() != I64) n = B.CreateZExt(n, I64);
        B.CreateCall(fClear, {II->getArgOperand(0), n});
        return;
      }
      default: break;
    }
    if (II->getType()->isVoidTy() || !nx) return;
    IRBuilder<> B(nx);
    int op1 = 0, op2 = 0;
    switch (II->getIntrinsicID()) {
      case Intrinsic::fabs: op1 = OP_ABS; break;
      case Intrinsic::sqrt: op1 = OP_SQRT; break;
      case Intrinsic::sin: op1 = OP_SIN; break;
      case Intrinsic::cos: op1 = OP_COS; break;
      case Intrinsic::exp: op1 = OP_EXP; break;
      case Intrinsic::log: op1 = OP_LOG; break;
      case Intrinsic::floor: op1 = OP_FLOOR; break;
      case Intrinsic::ceil: op1 = OP_CEIL; break;
      case Intrinsic::trunc: op1 = OP_TRUNC; break;
      case Intrinsic::round: op1 = OP_ROUND; break;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: op1 = OP_ROUND; break;
      case Intrinsic::minnum: case Intrinsic::minimum: op2 = OP_MIN; break;
      case Intrinsic::maxnum: case Intrinsic::maximum: op2 = OP_MAX; break;
      case Intrinsic::pow: op2 = OP_POW; break;
      case Intrinsic::copysign: op2 = OP_COPYSIGN; break;
      default: break;
    }
    if (composite(II->getType())) {
      if (!op1 && !op2) {
        for (auto &o : II->args()) if (composite(o->getType())) for (auto *s : A(X, o)) if (!isNull(s)) B.CreateCall(fLost, {s, ci(9)});
        return;
      }
      auto a = A(X, II->getArgOperand(0));
      std::vector<Value *> b(a.size(), null()), v;
      if (op2) b = A(X, II->getArgOperand(1));
      for (unsigned i = 0; i < a.size(); i++) {
        if (isNull(a[i]) && isNull(b[i])) { v.push_back(null()); continue; }
        Value *av = dbl(B, B.CreateExtractElement(II->getArgOperand(0), (uint64_t)i));
        if (op1) v.push_back(B.CreateCall(fFun1, {ci(op1), a[i], av}));
        else v.push_back(B.CreateCall(fFun2, {ci(op2), a[i], b[i], av, dbl(B, B.CreateExtractElement(II->getArgOperand(1), (uint64_t)i))}));
      }
      setL(X, II, v);
      return;
    }
    if (op1) {
      Value *a = S(X, II->getArgOperand(0));
      if (!isNull(a)) X.sh[II] = B.CreateCall(fFun1, {ci(op1), a, dbl(B, II->getArgOperand(0))});
      return;
    }
    if (op2) {
      Value *a = S(X, II->getArgOperand(0)), *b = S(X, II->getArgOperand(1));
      if (!isNull(a) || !isNull(b))
        X.sh[II] = B.CreateCall(fFun2, {ci(op2), a, b, dbl(B, II->getArgOperand(0)), dbl(B, II->getArgOperand(1))});
      return;
    }
    switch (II->getIntrinsicID()) {
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        Value *a = S(X, II->getArgOperand(0)), *b = S(X, II->getArgOperand(1)), *c = S(X, II->getArgOperand(2));
        if (isNull(a) && isNull(b) && isNull(c)) return;
        Value *m = B.CreateFMul(II->getArgOperand(0), II->getArgOperand(1));
        Value *e = B.CreateCall(fFBin, {ci(OP_MUL), a, b, dbl(B, II->getArgOperand(0)), dbl(B, II->getArgOperand(1))});
        X.sh[II] = B.CreateCall(fFBin, {ci(OP_ADD), e, c, dbl(B, m), dbl(B, II->getArgOperand(2))});
        return;
      }
      case Intrinsic::powi: {
        Value *a = S(X, II->getArgOperand(0));
        if (isNull(a)) return;
        X.sh[II] = B.CreateCall(fFun2, {ci(OP_POW), a, null(), dbl(B, II->getArgOperand(0)), B.CreateSIToFP(II->getArgOperand(1), DblT)});
        return;
      }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        Value *x = II->getArgOperand(0), *y = II->getArgOperand(1);
        if (!isScal(II->getType())) return;
        Value *a = S(X, x), *b = S(X, y);
        if (isNull(a) && isNull(b)) return;
        unsigned pr = II->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : II->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT :
          II->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        Value *c = B.CreateICmp((CmpInst::Predicate)pr, x, y);
        Value *r = B.CreateTrunc(B.CreateCall(fICmp, {ci(pr), ci(x->getType()->getIntegerBitWidth()), a, b, sext64(B, x), sext64(B, y), B.CreateZExt(c, I32)}), I1);
        Value *nv = B.CreateSelect(r, x, y);
        Value *ns = B.CreateSelect(r, a, b);
        II->replaceUsesWithIf(nv, [&](Use &u) { return u.getUser() != nv; });
        X.sh[nv] = ns; X.sh[II] = ns;
        return;
      }
      case Intrinsic::is_fpclass: {
        // symbolic reals are finite: classification of the concrete hint is used (finite)
        return;
      }
      case Intrinsic::expect: { if (isScal(II->getType())) X.sh[II] = S(X, II->getArgOperand(0)); return; }
      default:
        for (auto &o : II->args()) {
          if (isScal(o->getType())) { Value *s = S(X, o); if (!isNull(s)) B.CreateCall(fLost, {s, ci(10)}); }
        }
        return;
    }
  }

  // one record per function of the code under test: which functions were executed symbolically
  void coverage(Function &F) {
    StringRef n = F.getName();
    for (const char *p : {"_ZN5Eigen", "_ZNK5Eigen", "_ZSt", "_ZNSt", "_ZNKSt", "_ZN9__gnu", "_ZNK9__gnu", "_ZN2cv", "_ZNK2cv", "__", "_GLOBAL", "_ZZ", "_ZeqIN", "_ZN8internal"})
      if (n.starts_with(p)) return;
    StructType *ST = StructType::get(*C, {PtrT, I64});
    auto *G = new GlobalVariable(*M, ST, false, GlobalValue::PrivateLinkage, ConstantStruct::get(ST, {nameStr(n), ConstantInt::get(I64, 0)}), "symcov");
    G->setSection("symcov"); G->setAlignment(Align(8));
    IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
    B.CreateStore(ConstantInt::get(I64, 1), B.CreateStructGEP(ST, G, 1));
  }

  PreservedAnalyses run(Module &m, ModuleAnalysisManager &) {
    init(m); names.clear();
    std::vector<Function *> fs;
    for (auto &F : m) if (!F.isDeclaration() && !F.getName().starts_with("__sym_") && !F.hasFnAttribute(Attribute::Naked)) fs.push_back(&F);
    for (auto *F : fs) {
      // available_externally bodies are dropped later: make them proper linkonce copies
      if (F->hasAvailableExternallyLinkage()) F->setLinkage(GlobalValue::LinkOnceODRLinkage);
      // argument/return shadows are visible memory effects
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::Speculatable);
      instrument(*F);
      coverage(*F);
    }
    // calls must not be treated as pure any more
    for (auto &F : m) {
      if (F.isIntrinsic()) continue;
      F.removeFnAttr(Attribute::Memory);
      for (auto &BB : F) for (auto &I : BB)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!isa<IntrinsicInst>(CB)) { CB->removeFnAttr(Attribute::Memory); if (auto *ci = dyn_cast<CallInst>(CB)) if (!ci->isMustTailCall()) ci->setTailCall(false); }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      ScalarizerPassOptions o; o.ScalarizeLoadStore = true; o.ScalarizeVariableInsertExtract = true;
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
      MPM.addPass(SymPass());
    });
  }};
}
