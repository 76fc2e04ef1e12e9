// Symx: LLVM pass that turns a translation unit into a concolic executor of
// itself.  Every int/float SSA value gets a shadow "expression pointer"
// (null = concrete); the runtime (runtime.cpp) builds the expressions, records
// the branch decisions, and asks the SMT solver about them.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <cstdlib>
#include <string>

using namespace llvm;

namespace {

const unsigned MAXARGS = 64;

static bool envflag(const char *n) { const char *v = getenv(n); return v && *v && *v != '0'; }

struct Symx {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *VoidTy; IntegerType *I8, *I32, *I64; Type *DblTy; PointerType *PtrTy;
    Constant *Null;
    bool memcheck, race;
    GlobalVariable *GArgs, *GRets, *GCallee, *GRetTag;
    FunctionCallee fLoad, fStore, fStoreC, fClear, fMemcpy, fBin, fFBin, fICmp, fFCmp, fDecide, fSwitch,
        fCast, fConc, fBoolAnd, fBoolOr, fBoolXor, fIntr, fFIntr, fEnter, fMemAcc, fUnsup, fNot, fByval, fOvf, fMemsetA, fAlloca, fFrameIn, fLife, fUb, fAllocaP;
    std::set<std::string> unsupported;

    Symx(Module &M_) : M(M_), C(M_.getContext()), DL(M_.getDataLayout()) {
        VoidTy = Type::getVoidTy(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        DblTy = Type::getDoubleTy(C); PtrTy = PointerType::get(C, 0);
        Null = ConstantPointerNull::get(PtrTy);
        memcheck = envflag("SYMX_MEMCHECK"); race = envflag("SYMX_RACE");
        GArgs = new GlobalVariable(M, ArrayType::get(PtrTy, MAXARGS), false, GlobalValue::ExternalLinkage, nullptr, "__symx_args");
        GRets = new GlobalVariable(M, ArrayType::get(PtrTy, MAXARGS), false, GlobalValue::ExternalLinkage, nullptr, "__symx_rets");
        GCallee = new GlobalVariable(M, PtrTy, false, GlobalValue::ExternalLinkage, nullptr, "__symx_callee");
        GRetTag = new GlobalVariable(M, PtrTy, false, GlobalValue::ExternalLinkage, nullptr, "__symx_rettag");
        auto fn = [&](const char *n, Type *r, ArrayRef<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
        fLoad = fn("__symx_load", PtrTy, {PtrTy, I32});
        fStore = fn("__symx_store", VoidTy, {PtrTy, I32, PtrTy});
        fStoreC = fn("__symx_store_c", VoidTy, {PtrTy, I32});
        fClear = fn("__symx_clear", VoidTy, {PtrTy, I64});
        fAlloca = fn("__symx_alloca", VoidTy, {PtrTy, I64});
        fAllocaP = fn("__symx_alloca_padded", VoidTy, {PtrTy, I64, I64});
        fLife = fn("__symx_lifetime", VoidTy, {PtrTy, I64, I32});
        fUb = fn("__symx_ub", VoidTy, {I32});
        fMemcpy = fn("__symx_memcpy", VoidTy, {PtrTy, PtrTy, I64});
        fMemsetA = fn("__symx_memset", VoidTy, {PtrTy, I64});
        fBin = fn("__symx_bin", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
        fFBin = fn("__symx_fbin", PtrTy, {I32, I32, PtrTy, DblTy, PtrTy, DblTy});
        fICmp = fn("__symx_icmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
        fFCmp = fn("__symx_fcmp", PtrTy, {I32, PtrTy, DblTy, PtrTy, DblTy});
        fDecide = fn("__symx_decide", VoidTy, {PtrTy, I8});
        fSwitch = fn("__symx_switch", VoidTy, {PtrTy, I64, I32, I32, PtrTy});
        fCast = fn("__symx_cast", PtrTy, {I32, I32, I32, PtrTy, I64, DblTy});
        fConc = fn("__symx_concretize", VoidTy, {PtrTy, I32, I64});
        fBoolAnd = fn("__symx_and", PtrTy, {PtrTy, I8, PtrTy, I8});
        fBoolOr = fn("__symx_or", PtrTy, {PtrTy, I8, PtrTy, I8});
        fBoolXor = fn("__symx_xor", PtrTy, {PtrTy, I8, PtrTy, I8});
        fNot = fn("__symx_not", PtrTy, {PtrTy});
        fIntr = fn("__symx_intr", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
        fFIntr = fn("__symx_fintr", PtrTy, {I32, PtrTy, DblTy, PtrTy, DblTy, PtrTy, DblTy});
        fEnter = fn("__symx_enter", VoidTy, {I32});
        fMemAcc = fn("__symx_mem", VoidTy, {PtrTy, I64, I32});
        fUnsup = fn("__symx_unsup", VoidTy, {PtrTy, PtrTy});
        fOvf = fn("__symx_ovf", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
        fFrameIn = fn("__symx_frame", VoidTy, {PtrTy});
    }

    bool scalar(Type *T) {
        if (T->isIntegerTy()) return T->getIntegerBitWidth() <= 64;
        return T->isFloatTy() || T->isDoubleTy();
    }
    unsigned leaves(Type *T) {
        if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *E : S->elements()) n += leaves(E); return n; }
        if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * leaves(A->getElementType());
        return 1;
    }
    void leafInfo(Type *T, uint64_t off, SmallVectorImpl<std::pair<uint64_t, Type *>> &out) {
        if (auto *S = dyn_cast<StructType>(T)) {
            auto *L = DL.getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++) leafInfo(S->getElementType(i), off + L->getElementOffset(i), out);
        } else if (auto *A = dyn_cast<ArrayType>(T)) {
            uint64_t sz = DL.getTypeAllocSize(A->getElementType());
            for (uint64_t i = 0; i < A->getNumElements(); i++) leafInfo(A->getElementType(), off + i * sz, out);
        } else out.push_back({off, T});
    }
    // leaf offset of an extractvalue index list
    unsigned leafIndex(Type *T, ArrayRef<unsigned> idx, Type *&Out) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) off += leaves(S->getElementType(j)); T = S->getElementType(i); }
            else { auto *A = cast<ArrayType>(T); off += i * leaves(A->getElementType()); T = A->getElementType(); }
        }
        Out = T;
        return off;
    }

    using Sh = SmallVector<Value *, 1>;   // shadow leaves
    DenseMap<Value *, Sh> shadow;
    Function *F = nullptr;

    Value *sh(Value *V) {
        if (isa<Constant>(V)) return Null;
        if (!scalar(V->getType())) return Null;
        auto it = shadow.find(V);
        if (it == shadow.end() || it->second.empty()) return Null;
        return it->second[0];
    }
    Sh shAgg(Value *V) {
        unsigned n = leaves(V->getType());
        auto it = shadow.find(V);
        if (isa<Constant>(V) || it == shadow.end() || it->second.size() != n) { Sh r; r.assign(n, Null); return r; }
        return it->second;
    }
    void set(Value *V, Value *S) { Sh r; r.push_back(S); shadow[V] = r; }
    bool isNull(Value *V) { return V == Null; }

    Value *toI64(IRBuilder<> &B, Value *V) {
        Type *T = V->getType();
        if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
        if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
        if (T->isIntegerTy()) { if (T->getIntegerBitWidth() == 64) return V; return B.CreateZExt(V, I64); }
        return ConstantInt::get(I64, 0);
    }
    Value *toDbl(IRBuilder<> &B, Value *V) {
        if (V->getType()->isDoubleTy()) return V;
        if (V->getType()->isFloatTy()) return B.CreateFPExt(V, DblTy);
        return ConstantFP::get(DblTy, 0.0);
    }
    Value *toI8(IRBuilder<> &B, Value *V) { return B.CreateZExt(V, I8); }
    Value *i32(uint64_t v) { return ConstantInt::get(I32, v); }
    Value *i64(uint64_t v) { return ConstantInt::get(I64, v); }
    Constant *str(const std::string &s) {
        static std::map<std::pair<Module *, std::string>, Constant *> cache;
        auto &r = cache[{&M, s}];
        if (!r) {
            auto *A = ConstantDataArray::getString(C, s);
            auto *G = new GlobalVariable(M, A->getType(), true, GlobalValue::PrivateLinkage, A, "symx.str");
            r = G;
        }
        return r;
    }
    unsigned bits(Type *T) { return T->isIntegerTy() ? T->getIntegerBitWidth() : T->isDoubleTy() ? 64 : 32; }

    void decide(IRBuilder<> &B, Value *cond) {
        Value *s = sh(cond);
        if (isNull(s)) return;
        B.CreateCall(fDecide, {s, toI8(B, cond)});
    }
    void unsup(IRBuilder<> &B, Value *v, const std::string &what) {
        if (!scalar(v->getType())) return;
        Value *s = sh(v);
        if (isNull(s)) return;
        B.CreateCall(fUnsup, {s, str(what)});
    }
    void conc(IRBuilder<> &B, Value *v) {
        Value *s = sh(v);
        if (isNull(s)) return;
        B.CreateCall(fConc, {s, i32(bits(v->getType())), toI64(B, v)});
    }

    bool isRuntimeFn(StringRef n) { return n.starts_with("__symx_"); }
    bool skipFunction(Function &F) {
        if (F.isDeclaration()) return true;
        if (F.hasAvailableExternallyLinkage()) return true;
        StringRef n = F.getName();
        if (isRuntimeFn(n)) return true;
        if (F.hasFnAttribute("symx-skip")) return true;
        return false;
    }

    Function *calleeOf(CallBase &CB) {
        Value *V = CB.getCalledOperand()->stripPointerCasts();
        if (auto *A = dyn_cast<GlobalAlias>(V)) V = A->getAliaseeObject();
        return dyn_cast<Function>(V);
    }

    void memAcc(IRBuilder<> &B, Value *p, uint64_t size, int kind) {
        if (memcheck || race) B.CreateCall(fMemAcc, {p, i64(size), i32(kind)});
    }
    void memAccV(IRBuilder<> &B, Value *p, Value *size, int kind) {
        if (memcheck || race) B.CreateCall(fMemAcc, {p, B.CreateZExtOrTrunc(size, I64), i32(kind)});
    }

    std::vector<Instruction *> dead; std::map<AllocaInst *, uint64_t> padded;
    void instrument(Function &Fn, unsigned id) {
        F = &Fn;
        shadow.clear();
        padded.clear();
        if (memcheck)   // room for a guard behind every local object
            for (auto &I : Fn.getEntryBlock()) if (auto *AI = dyn_cast<AllocaInst>(&I)) if (AI->isStaticAlloca() && !AI->isUsedWithInAlloca() && !AI->isSwiftError() && AI->getAllocatedType()->isSized()) {
                if (AI->isArrayAllocation()) continue;
                uint64_t n = DL.getTypeAllocSize(AI->getAllocatedType());
                if (!n) continue;
                padded[AI] = n;
                AI->setAllocatedType(StructType::get(Fn.getContext(), {AI->getAllocatedType(), ArrayType::get(Type::getInt8Ty(Fn.getContext()), (8 - n % 8) % 8 + 16)}));
                if (AI->getAlign() < Align(8)) AI->setAlignment(Align(8));
            }
        SmallVector<Instruction *, 256> work;
        // split invoke normal edges first
        SmallVector<InvokeInst *, 8> invokes;
        for (auto &BB : Fn) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) invokes.push_back(II);
        for (auto *II : invokes) {
            BasicBlock *N = II->getNormalDest();
            if (!N->getSinglePredecessor() || isa<PHINode>(N->front())) {
                SplitBlockPredecessors(N, {II->getParent()}, ".symx");
            }
        }
        SmallVector<PHINode *, 32> phis;
        ReversePostOrderTraversal<Function *> RPO(&Fn);
        std::set<BasicBlock *> reach;
        for (auto *BB : RPO) { reach.insert(BB); for (auto &I : *BB) { work.push_back(&I); if (auto *P = dyn_cast<PHINode>(&I)) phis.push_back(P); } }
        // entry
        BasicBlock &E = Fn.getEntryBlock();
        Instruction *IP = &*E.getFirstInsertionPt();
        // after allocas at top
        while (isa<AllocaInst>(IP)) IP = IP->getNextNode();
        {
            IRBuilder<> B(IP);
            B.CreateCall(fEnter, {i32(id)});
            bool need = false;
            for (auto &A : Fn.args()) if (scalar(A.getType()) || A.hasByValAttr() || A.getType()->isAggregateType()) need = true;
            if (need) {
                Value *tag = B.CreateLoad(PtrTy, GCallee);
                Value *ok = B.CreateICmpEQ(tag, &Fn);
                unsigned slot = 0;
                for (auto &A : Fn.args()) {
                    if (A.hasByValAttr()) {
                        if (slot >= MAXARGS) break;
                        Value *p = B.CreateLoad(PtrTy, B.CreateConstGEP2_64(GArgs->getValueType(), GArgs, 0, slot));
                        Value *src = B.CreateSelect(ok, p, Null);
                        B.CreateCall(M.getOrInsertFunction("__symx_byval", FunctionType::get(VoidTy, {PtrTy, PtrTy, I64}, false)),
                                     {&A, src, i64(DL.getTypeAllocSize(A.getParamByValType()))});
                        slot++;
                    } else if (scalar(A.getType()) || A.getType()->isAggregateType()) {
                        unsigned n = leaves(A.getType());
                        Sh r;
                        for (unsigned i = 0; i < n; i++, slot++) {
                            if (slot >= MAXARGS) { r.push_back(Null); continue; }
                            Value *p = B.CreateLoad(PtrTy, B.CreateConstGEP2_64(GArgs->getValueType(), GArgs, 0, slot));
                            r.push_back(B.CreateSelect(ok, p, Null));
                        }
                        shadow[&A] = r;
                    }
                }
            }
            B.CreateStore(Null, GCallee);
        }
        // phis
        for (auto *P : phis) {
            Type *T = P->getType();
            if (scalar(T)) {
                IRBuilder<> B(P);
                set(P, B.CreatePHI(PtrTy, P->getNumIncomingValues(), "sx"));
            } else if (T->isAggregateType()) {
                IRBuilder<> B(P);
                Sh r;
                for (unsigned i = 0; i < leaves(T); i++) r.push_back(B.CreatePHI(PtrTy, P->getNumIncomingValues(), "sx"));
                shadow[P] = r;
            }
        }
        dead.clear();
        for (auto *I : work) visit(I);
        for (auto *I : dead) I->eraseFromParent();
        for (auto *P : phis) {
            auto it = shadow.find(P);
            if (it == shadow.end()) continue;
            Sh mine = it->second;
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
                Value *V = P->getIncomingValue(k);
                BasicBlock *BB = P->getIncomingBlock(k);
                Sh r;
                if (!reach.count(BB)) r.assign(mine.size(), Null);
                else if (scalar(P->getType())) r.push_back(sh(V));
                else r = shAgg(V);
                for (unsigned i = 0; i < mine.size(); i++) cast<PHINode>(mine[i])->addIncoming(r[i], BB);
            }
        }
    }

    void visitCall(CallBase *CB) {
        IRBuilder<> B(CB);
        Function *callee = calleeOf(*CB);
        Type *RT = CB->getType();
        if (CB->isInlineAsm()) return;
        if (callee && callee->isIntrinsic()) { visitIntrinsic(cast<CallInst>(CB), callee); return; }
        if (callee && isRuntimeFn(callee->getName())) return;
        StringRef name = callee ? callee->getName() : "";
        bool isApi = name.starts_with("symx_");
        bool external = callee && callee->isDeclaration() && !isApi;
        // math functions known by name
        if (external && !CB->arg_empty() && CB->getArgOperand(0)->getType()->isDoubleTy() && CB->arg_size() <= 2 && RT->isDoubleTy()) {
            int k = -1;
            if (name == "sqrt") k = 1; else if (name == "fabs") k = 0; else if (name == "floor") k = 5; else if (name == "ceil") k = 6;
            if (k >= 0) {
                Value *a = CB->getArgOperand(0);
                if (!isNull(sh(a))) {
                    IRBuilder<> BA(CB->getNextNode() ? CB->getNextNode() : CB);
                    if (isa<CallInst>(CB)) set(CB, BA.CreateCall(fFIntr, {i32(k), sh(a), a, Null, ConstantFP::get(DblTy, 0), Null, ConstantFP::get(DblTy, 0)}));
                }
                return;
            }
        }
        if (external) {
            // raw memory helpers
            if ((name == "memcpy" || name == "memmove") && CB->arg_size() == 3) {
                memAccV(B, CB->getArgOperand(1), CB->getArgOperand(2), 0); memAccV(B, CB->getArgOperand(0), CB->getArgOperand(2), 1);
                B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
                return;
            }
            if (name == "memset" && CB->arg_size() == 3) {
                B.CreateCall(fMemsetA, {CB->getArgOperand(0), CB->getArgOperand(2)});
                memAccV(B, CB->getArgOperand(0), CB->getArgOperand(2), 1);
                return;
            }
            for (auto &A : CB->args()) unsup(B, A, ("extern:" + name).str());
            return;
        }
        // instrumented, indirect, or API callee: pass shadows
        unsigned slot = 0;
        bool any = false;
        for (unsigned i = 0; i < CB->arg_size(); i++) {
            Value *A = CB->getArgOperand(i);
            if (CB->isByValArgument(i)) {
                if (slot < MAXARGS) B.CreateStore(A, B.CreateConstGEP2_64(GArgs->getValueType(), GArgs, 0, slot));
                slot++; any = true;
            } else if (scalar(A->getType())) {
                if (slot < MAXARGS) B.CreateStore(sh(A), B.CreateConstGEP2_64(GArgs->getValueType(), GArgs, 0, slot));
                slot++; any = true;
            } else if (A->getType()->isAggregateType()) {
                Sh r = shAgg(A);
                for (auto *x : r) { if (slot < MAXARGS) B.CreateStore(x, B.CreateConstGEP2_64(GArgs->getValueType(), GArgs, 0, slot)); slot++; }
                any = true;
            }
        }
        Value *fp = callee ? (Value *)callee : CB->getCalledOperand();
        if (any) B.CreateStore(isApi ? Null : fp, GCallee);
        bool wantRet = scalar(RT) || RT->isAggregateType();
        if (!wantRet) return;
        B.CreateStore(Null, GRetTag);
        if (isApi) B.CreateStore(Null, B.CreateConstGEP2_64(GRets->getValueType(), GRets, 0, 0));
        Instruction *after;
        if (auto *II = dyn_cast<InvokeInst>(CB)) after = &*II->getNormalDest()->getFirstInsertionPt();
        else after = CB->getNextNode();
        IRBuilder<> BA(after);
        Value *ok = isApi ? nullptr : BA.CreateICmpEQ(BA.CreateLoad(PtrTy, GRetTag), fp);
        Sh r;
        for (unsigned i = 0; i < leaves(RT); i++) {
            if (i >= MAXARGS) { r.push_back(Null); continue; }
            Value *p = BA.CreateLoad(PtrTy, BA.CreateConstGEP2_64(GRets->getValueType(), GRets, 0, i));
            r.push_back(ok ? BA.CreateSelect(ok, p, Null) : p);
        }
        shadow[CB] = r;
    }

    void visitIntrinsic(CallInst *CI, Function *callee) {
        IRBuilder<> B(CI);
        IRBuilder<> BA(CI->getNextNode());
        auto ID = callee->getIntrinsicID();
        auto a = [&](unsigned i) { return CI->getArgOperand(i); };
        Value *Z = ConstantFP::get(DblTy, 0.0);
        switch (ID) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            memAccV(B, a(1), a(2), 0); memAccV(B, a(0), a(2), 1);
            B.CreateCall(fMemcpy, {a(0), a(1), B.CreateZExtOrTrunc(a(2), I64)});
            conc(B, a(2));
            return;
        case Intrinsic::memset: case Intrinsic::memset_inline:
            memAccV(B, a(0), a(2), 1);
            B.CreateCall(fMemsetA, {a(0), B.CreateZExtOrTrunc(a(2), I64)});
            unsup(B, a(1), "memset");
            return;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs:
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::bswap: case Intrinsic::ctpop: {
            if (!scalar(CI->getType())) return;
            int k = ID == Intrinsic::umin ? 0 : ID == Intrinsic::umax ? 1 : ID == Intrinsic::smin ? 2 : ID == Intrinsic::smax ? 3 : ID == Intrinsic::abs ? 4
                : ID == Intrinsic::usub_sat ? 5 : -1;
            Value *s0 = sh(a(0)), *s1 = (ID == Intrinsic::abs || CI->arg_size() < 2) ? Null : sh(a(1));
            if (isNull(s0) && isNull(s1)) return;
            if (k < 0) { for (auto &A : CI->args()) conc(B, A); return; }
            set(CI, BA.CreateCall(fIntr, {i32(k), i32(bits(CI->getType())), s0, toI64(BA, a(0)), s1, ID == Intrinsic::abs ? i64(0) : toI64(BA, a(1))}));
            return;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
            if (!scalar(a(0)->getType())) return;
            if (isNull(sh(a(0))) && isNull(sh(a(1)))) return;
            int k = ID == Intrinsic::sadd_with_overflow ? 0 : ID == Intrinsic::ssub_with_overflow ? 1 : ID == Intrinsic::smul_with_overflow ? 2
                : ID == Intrinsic::uadd_with_overflow ? 3 : ID == Intrinsic::usub_with_overflow ? 4 : 5;
            unsigned w = bits(a(0)->getType());
            unsigned op = (k % 3) == 0 ? Instruction::Add : (k % 3) == 1 ? Instruction::Sub : Instruction::Mul;
            // overflow flag first (so that the value expression is built knowing the outcome)
            Value *o = BA.CreateCall(fOvf, {i32(k), i32(w), sh(a(0)), toI64(BA, a(0)), sh(a(1)), toI64(BA, a(1))});
            Value *v = BA.CreateCall(fBin, {i32(op), i32(w), sh(a(0)), toI64(BA, a(0)), sh(a(1)), toI64(BA, a(1))});
            Sh r; r.push_back(v); r.push_back(o);
            shadow[CI] = r;
            return;
        }
        case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::fmuladd: case Intrinsic::fma:
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::minimum: case Intrinsic::maximum: {
            if (!scalar(CI->getType())) return;
            bool any = false;
            for (auto &A : CI->args()) if (!isNull(sh(A))) any = true;
            if (!any) return;
            int k = ID == Intrinsic::fabs ? 0 : ID == Intrinsic::sqrt ? 1 : (ID == Intrinsic::minnum || ID == Intrinsic::minimum) ? 2
                : (ID == Intrinsic::maxnum || ID == Intrinsic::maximum) ? 3 : ID == Intrinsic::floor ? 5 : ID == Intrinsic::ceil ? 6 : ID == Intrinsic::trunc ? 7 : 4;
            unsigned n = CI->arg_size();
            set(CI, BA.CreateCall(fFIntr, {i32(k), sh(a(0)), toDbl(BA, a(0)), n > 1 ? sh(a(1)) : Null, n > 1 ? toDbl(BA, a(1)) : Z,
                                           n > 2 ? sh(a(2)) : Null, n > 2 ? toDbl(BA, a(2)) : Z}));
            return;
        }
        case Intrinsic::expect: case Intrinsic::expect_with_probability:
            if (scalar(CI->getType())) set(CI, sh(a(0)));
            return;
        case Intrinsic::is_fpclass: {
            // no NaN / infinity among symbolic values
            return;
        }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
            if (!memcheck) return;
            uint64_t n = cast<ConstantInt>(a(0))->getZExtValue();
            if (auto *AI = dyn_cast<AllocaInst>(a(1)->stripPointerCasts())) n = padded.count(AI) ? padded[AI] : (uint64_t)DL.getTypeAllocSize(AI->getAllocatedType());
            if (ID == Intrinsic::lifetime_start) BA.CreateCall(fLife, {a(1), i64(n), i32(1)}); else B.CreateCall(fLife, {a(1), i64(n), i32(0)});
            dead.push_back(CI);   // or slots would be merged by their lifetimes later
            return;
        }
        case Intrinsic::vastart:
            if (memcheck) BA.CreateCall(M.getOrInsertFunction("__symx_vastart", FunctionType::get(VoidTy, {PtrTy}, false)), {a(0)});
            return;
        case Intrinsic::ubsantrap: B.CreateCall(fUb, {B.CreateZExt(a(0), I32)}); return;
        case Intrinsic::trap: if (memcheck) B.CreateCall(fUb, {i32(99)}); return;
        case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
        case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::is_constant: case Intrinsic::objectsize:
        case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::vacopy:
            return;
        default: {
            for (auto &A : CI->args()) if (scalar(A->getType()) && !isNull(sh(A))) conc(B, A);
            return;
        }
        }
    }

    void visit(Instruction *I) {
        IRBuilder<> B(I);
        Type *T = I->getType();
        if (isa<PHINode>(I) || isa<LandingPadInst>(I)) return;
        if (auto *AI = dyn_cast<AllocaInst>(I)) {
            // emit after the alloca (and, in the entry block, after all leading allocas)
            Instruction *ip = AI->getNextNode();
            while (isa<AllocaInst>(ip) || isa<PHINode>(ip)) ip = ip->getNextNode();
            IRBuilder<> BA(ip);
            Value *sz = i64(DL.getTypeAllocSize(AI->getAllocatedType()));
            if (AI->isArrayAllocation()) sz = BA.CreateMul(sz, BA.CreateZExtOrTrunc(AI->getArraySize(), I64));
            auto pd = padded.find(AI);
            if (pd != padded.end()) BA.CreateCall(fAllocaP, {AI, i64(pd->second), sz}); else
            BA.CreateCall(memcheck ? fAlloca : fClear, {AI, sz});
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(I)) {
            uint64_t sz = DL.getTypeStoreSize(T);
            memAcc(B, L->getPointerOperand(), sz, L->isAtomic() ? 2 : 0);
            if (scalar(T)) {
                if (L->isAtomic()) return;
                if (T->isIntegerTy() && T->getIntegerBitWidth() < 8) return;
                IRBuilder<> BA(I->getNextNode());
                set(I, BA.CreateCall(fLoad, {L->getPointerOperand(), i32(sz)}));
            } else if (T->isAggregateType()) {
                IRBuilder<> BA(I->getNextNode());
                SmallVector<std::pair<uint64_t, Type *>, 8> lv; leafInfo(T, 0, lv);
                Sh r;
                for (auto &p : lv) {
                    if (!scalar(p.second) || DL.getTypeSizeInBits(p.second) < 8) { r.push_back(Null); continue; }
                    Value *addr = BA.CreateConstGEP1_64(I8, L->getPointerOperand(), p.first);
                    r.push_back(BA.CreateCall(fLoad, {addr, i32(DL.getTypeStoreSize(p.second))}));
                }
                shadow[I] = r;
            } else if (T->isVectorTy() || T->isIntegerTy() || T->isX86_FP80Ty()) {
                if (!T->isPointerTy() && sz <= 64) B.CreateCall(M.getOrInsertFunction("__symx_wideload", FunctionType::get(VoidTy, {PtrTy, I32}, false)), {L->getPointerOperand(), i32(sz)});
            }
            return;
        }
        if (auto *S = dyn_cast<StoreInst>(I)) {
            Value *V = S->getValueOperand();
            Type *VT = V->getType();
            uint64_t sz = DL.getTypeStoreSize(VT);
            memAcc(B, S->getPointerOperand(), sz, S->isAtomic() ? 3 : 1);
            if (scalar(VT)) {
                if (VT->isIntegerTy(1)) { decide(B, V); B.CreateCall(fStoreC, {S->getPointerOperand(), i32(sz)}); return; }
                Value *s = sh(V);
                if (isNull(s)) B.CreateCall(fStoreC, {S->getPointerOperand(), i32(sz)});
                else B.CreateCall(fStore, {S->getPointerOperand(), i32(sz), s});
            } else if (VT->isAggregateType()) {
                B.CreateCall(fClear, {S->getPointerOperand(), i64(sz)});
                SmallVector<std::pair<uint64_t, Type *>, 8> lv; leafInfo(VT, 0, lv);
                Sh r = shAgg(V);
                for (unsigned i = 0; i < lv.size(); i++) {
                    if (!scalar(lv[i].second) || isNull(r[i])) continue;
                    Value *addr = B.CreateConstGEP1_64(I8, S->getPointerOperand(), lv[i].first);
                    B.CreateCall(fStore, {addr, i32(DL.getTypeStoreSize(lv[i].second)), r[i]});
                }
            } else {
                if (sz <= 8) B.CreateCall(fStoreC, {S->getPointerOperand(), i32(sz)});
                else B.CreateCall(fClear, {S->getPointerOperand(), i64(sz)});
            }
            return;
        }
        if (auto *X = dyn_cast<AtomicRMWInst>(I)) {
            uint64_t sz = DL.getTypeStoreSize(X->getValOperand()->getType());
            memAcc(B, X->getPointerOperand(), sz, 3);
            B.CreateCall(fStoreC, {X->getPointerOperand(), i32(sz)});
            return;
        }
        if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) {
            uint64_t sz = DL.getTypeStoreSize(X->getNewValOperand()->getType());
            memAcc(B, X->getPointerOperand(), sz, 3);
            B.CreateCall(fStoreC, {X->getPointerOperand(), i32(sz)});
            return;
        }
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
            if (!scalar(T)) return;
            Value *x = BO->getOperand(0), *y = BO->getOperand(1);
            Value *sx = sh(x), *sy = sh(y);
            if (isNull(sx) && isNull(sy)) return;
            if (T->isFloatingPointTy()) {
                IRBuilder<> BA(I->getNextNode());
                set(I, BA.CreateCall(fFBin, {i32(BO->getOpcode()), i32(bits(T)), sx, toDbl(BA, x), sy, toDbl(BA, y)}));
            } else if (T->isIntegerTy(1)) {
                FunctionCallee f = BO->getOpcode() == Instruction::And ? fBoolAnd : BO->getOpcode() == Instruction::Or ? fBoolOr : fBoolXor;
                set(I, B.CreateCall(f, {sx, toI8(B, x), sy, toI8(B, y)}));
            } else {
                set(I, B.CreateCall(fBin, {i32(BO->getOpcode()), i32(bits(T)), sx, toI64(B, x), sy, toI64(B, y)}));
            }
            return;
        }
        if (auto *UO = dyn_cast<UnaryOperator>(I)) {
            if (!scalar(T)) return;
            Value *s = sh(UO->getOperand(0));
            if (isNull(s)) return;
            IRBuilder<> BA(I->getNextNode());
            set(I, BA.CreateCall(fFBin, {i32(Instruction::FSub), i32(bits(T)), Null, ConstantFP::get(DblTy, -0.0), s, toDbl(BA, UO->getOperand(0))}));
            return;
        }
        if (auto *IC = dyn_cast<ICmpInst>(I)) {
            Value *x = IC->getOperand(0), *y = IC->getOperand(1);
            if (!scalar(x->getType())) return;
            Value *sx = sh(x), *sy = sh(y);
            if (isNull(sx) && isNull(sy)) return;
            if (x->getType()->isIntegerTy(1)) { decide(B, x); decide(B, y); return; }
            set(I, B.CreateCall(fICmp, {i32(IC->getPredicate()), i32(bits(x->getType())), sx, toI64(B, x), sy, toI64(B, y)}));
            return;
        }
        if (auto *FC = dyn_cast<FCmpInst>(I)) {
            Value *x = FC->getOperand(0), *y = FC->getOperand(1);
            if (!scalar(x->getType())) return;
            Value *sx = sh(x), *sy = sh(y);
            if (isNull(sx) && isNull(sy)) return;
            set(I, B.CreateCall(fFCmp, {i32(FC->getPredicate()), sx, toDbl(B, x), sy, toDbl(B, y)}));
            return;
        }
        if (auto *BR = dyn_cast<BranchInst>(I)) {
            if (BR->isConditional()) decide(B, BR->getCondition());
            return;
        }
        if (auto *SW = dyn_cast<SwitchInst>(I)) {
            Value *c = SW->getCondition();
            if (!scalar(c->getType())) return;
            Value *s = sh(c);
            if (isNull(s)) return;
            if (c->getType()->isIntegerTy(1)) { decide(B, c); return; }
            SmallVector<uint64_t, 16> vals;
            for (auto &cs : SW->cases()) vals.push_back(cs.getCaseValue()->getZExtValue());
            auto *A = ConstantDataArray::get(C, vals);
            auto *G = new GlobalVariable(M, A->getType(), true, GlobalValue::PrivateLinkage, A, "symx.cases");
            B.CreateCall(fSwitch, {s, toI64(B, c), i32(bits(c->getType())), i32(vals.size()), G});
            return;
        }
        if (auto *SI = dyn_cast<SelectInst>(I)) {
            Value *c = SI->getCondition();
            if (c->getType()->isVectorTy()) return;
            if (scalar(T)) {
                Value *s1 = sh(SI->getTrueValue()), *s2 = sh(SI->getFalseValue());
                decide(B, c);
                if (isNull(s1) && isNull(s2)) return;
                set(I, B.CreateSelect(c, s1, s2));
            } else {
                decide(B, c);
                if (T->isAggregateType()) {
                    Sh a = shAgg(SI->getTrueValue()), b = shAgg(SI->getFalseValue()), r;
                    for (unsigned i = 0; i < a.size(); i++) r.push_back(B.CreateSelect(c, a[i], b[i]));
                    shadow[I] = r;
                }
            }
            return;
        }
        if (auto *CI = dyn_cast<CastInst>(I)) {
            Value *x = CI->getOperand(0);
            Type *ST = x->getType();
            if (!scalar(ST)) return;
            Value *s = sh(x);
            if (isNull(s)) return;
            if (ST->isIntegerTy(1)) { decide(B, x); return; }
            if (CI->getOpcode() == Instruction::IntToPtr) { conc(B, x); return; }
            if (!scalar(T)) { unsup(B, x, "cast"); return; }
            if (CI->getOpcode() == Instruction::BitCast) { set(I, s); return; }
            if (T->isIntegerTy(1)) { // trunc to i1: parity bit
                IRBuilder<> B2(I);
                Value *bit = B2.CreateCall(fBin, {i32(Instruction::And), i32(bits(ST)), s, toI64(B2, x), Null, i64(1)});
                set(I, B2.CreateCall(fICmp, {i32(CmpInst::ICMP_NE), i32(bits(ST)), bit, B2.CreateAnd(toI64(B2, x), i64(1)), Null, i64(0)}));
                return;
            }
            set(I, B.CreateCall(fCast, {i32(CI->getOpcode()), i32(bits(ST)), i32(bits(T)), s, toI64(B, x), toDbl(B, x)}));
            return;
        }
        if (auto *FR = dyn_cast<FreezeInst>(I)) {
            if (scalar(T)) { Value *s = sh(FR->getOperand(0)); if (!isNull(s)) set(I, s); }
            else if (T->isAggregateType()) shadow[I] = shAgg(FR->getOperand(0));
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
            for (auto &ix : G->indices()) if (scalar(ix->getType())) conc(B, ix);
            return;
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
            Type *O;
            unsigned off = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices(), O);
            Sh a = shAgg(EV->getAggregateOperand()), r;
            for (unsigned i = 0; i < leaves(O); i++) r.push_back(a[off + i]);
            if (scalar(T) || T->isAggregateType()) shadow[I] = r;
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(I)) {
            Type *O;
            unsigned off = leafIndex(IV->getAggregateOperand()->getType(), IV->getIndices(), O);
            Sh a = shAgg(IV->getAggregateOperand());
            Value *V = IV->getInsertedValueOperand();
            if (scalar(V->getType())) a[off] = sh(V);
            else if (V->getType()->isAggregateType()) { Sh b = shAgg(V); for (unsigned i = 0; i < b.size(); i++) a[off + i] = b[i]; }
            else a[off] = Null;
            shadow[I] = a;
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(I)) {
            Value *V = R->getReturnValue();
            if (!V) return;
            Type *VT = V->getType();
            if (scalar(VT)) {
                B.CreateStore(sh(V), B.CreateConstGEP2_64(GRets->getValueType(), GRets, 0, 0));
                B.CreateStore(F, GRetTag);
            } else if (VT->isAggregateType()) {
                Sh a = shAgg(V);
                for (unsigned i = 0; i < a.size() && i < MAXARGS; i++) B.CreateStore(a[i], B.CreateConstGEP2_64(GRets->getValueType(), GRets, 0, i));
                B.CreateStore(F, GRetTag);
            }
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
        if (isa<UnreachableInst>(I) || isa<ResumeInst>(I) || isa<FenceInst>(I)) return;
        // anything else (vectors, va_arg, ...): symbolic operands are an unsupported flow
        for (auto &O : I->operands()) if (!isa<BasicBlock>(O.get()) && O->getType() && scalar(O->getType())) unsup(B, O.get(), I->getOpcodeName());
    }

    bool run() {
        std::vector<Function *> fns;
        for (auto &Fn : M) if (!skipFunction(Fn)) fns.push_back(&Fn);
        // instrumented template instances must not be picked up by libstdc++ users outside (runtime, Z3)
        for (auto &Fn : M) if (!Fn.isDeclarationForLinker() && (Fn.hasLinkOnceLinkage() || Fn.hasWeakLinkage())) { Fn.setVisibility(GlobalValue::HiddenVisibility); Fn.setDSOLocal(true); }
        for (auto &Fn : M) {   // attributes the added calls would invalidate
            if (Fn.isIntrinsic()) continue; Fn.removeFnAttr(Attribute::Memory); Fn.removeFnAttr(Attribute::NoSync); Fn.removeFnAttr(Attribute::NoFree); Fn.removeFnAttr(Attribute::WillReturn);
            if (Fn.isDeclaration() && Fn.isIntrinsic()) continue;
            for (auto &BB : Fn) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (!(CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic())) CB->removeFnAttr(Attribute::Memory);
        }
        std::vector<Constant *> names;
        unsigned id = 0;
        for (auto *Fn : fns) {
            // replacing calls to tail calls breaks nothing, but musttail cannot take extra code after it
            instrument(*Fn, id++);
            std::string d = demangle(Fn->getName().str());
            names.push_back(str(d));
        }
        ArrayType *AT = ArrayType::get(PtrTy, names.size());
        auto *G = new GlobalVariable(M, AT, true, GlobalValue::InternalLinkage, ConstantArray::get(AT, names), "symx.names");
        // constructor registering the table
        FunctionType *FT = FunctionType::get(VoidTy, false);
        Function *Ctor = Function::Create(FT, GlobalValue::InternalLinkage, "__symx_ctor", M);
        IRBuilder<> B(BasicBlock::Create(C, "e", Ctor));
        B.CreateCall(M.getOrInsertFunction("__symx_register", FunctionType::get(VoidTy, {PtrTy, I32}, false)), {G, i32(names.size())});
        B.CreateRetVoid();
        appendToGlobalCtors(M, Ctor, 0);
        if (verifyModule(M, &errs())) { errs() << "symx: broken module\n"; return false; }
        return true;
    }
};

struct SymxPass : PassInfoMixin<SymxPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        Symx s(M);
        if (!s.run()) exit(3);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
        if (envflag("SYMX_EARLY")) PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymxPass()); });
        else PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymxPass()); });
    }};
}
