// LLVM 18 pass plugin: threads symbolic shadow expressions through every
// instrumented function.  See DESIGN.md ("Engine").
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/Utils/Local.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/xxhash.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

static const unsigned MAXARGS = 64, MAXRET = 16;

struct Rt {
    Module& M;
    LLVMContext& C;
    Type *I1, *I8, *I32, *I64, *Void;
    PointerType* Ptr;
    GlobalVariable *argsh, *argptr, *callee, *retsh, *retfn;
    FunctionCallee load, store, clear, bin, cmp, fcmp, cast, ite, branch, ptr, alloca_, conc, vecload, callpre, byval,
        intr, memcpy_, memmove_, memset_, fnenter, storeLeaf;

    GlobalVariable* tls(const char* n, Type* t) {
        return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n, nullptr,
                                  GlobalValue::InitialExecTLSModel);
    }
    Rt(Module& m) : M(m), C(m.getContext()) {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Void = Type::getVoidTy(C);
        Ptr = PointerType::getUnqual(C);
        argsh = tls("__sym_argsh", ArrayType::get(I32, MAXARGS));
        argptr = tls("__sym_argptr", ArrayType::get(I64, MAXARGS));
        callee = tls("__sym_callee", Ptr);
        retsh = tls("__sym_retsh", ArrayType::get(I32, MAXRET));
        retfn = tls("__sym_retfn", Ptr);
        auto f = [&](const char* n, Type* r, std::initializer_list<Type*> a) {
            AttributeList al = AttributeList().addFnAttribute(C, Attribute::NoUnwind);
            return M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type*>(a), false), al);
        };
        load = f("symrt_load", I32, {Ptr, I32, I64});
        store = f("symrt_store", Void, {Ptr, I32, I32, I64});
        clear = f("symrt_clear", Void, {Ptr, I64});
        bin = f("symrt_bin", I32, {I32, I32, I32, I64, I32, I64, I64});
        cmp = f("symrt_cmp", I32, {I32, I32, I32, I64, I32, I64, I64});
        fcmp = f("symrt_fcmp", I32, {I32, I32, I32, I64, I32, I64, I64});
        cast = f("symrt_cast", I32, {I32, I32, I32, I32, I64, I64});
        ite = f("symrt_ite", I32, {I32, I32, I32, I64, I32, I64});
        branch = f("symrt_branch", Void, {I32, I32, I32});
        ptr = f("symrt_ptr", Void, {I32, I64, I64, I32, I32});
        alloca_ = f("symrt_alloca", Void, {Ptr, I64});
        conc = f("symrt_conc", Void, {I32, I64, I32});
        vecload = f("symrt_vecload", Void, {Ptr, I64, I32});
        callpre = f("symrt_callpre", Void, {Ptr, Ptr, I32, I32});
        byval = f("symrt_byval", Void, {Ptr, I64, I64});
        intr = f("symrt_intr", I32, {I32, I32, I32, I64, I32, I64, I32, I64, I64});
        memcpy_ = f("symrt_memcpy", Void, {Ptr, I32, Ptr, I32, I64, I32, I32});
        memmove_ = f("symrt_memmove", Void, {Ptr, I32, Ptr, I32, I64, I32, I32});
        memset_ = f("symrt_memset", Void, {Ptr, I32, I32, I32, I64, I32, I32});
        fnenter = f("symrt_fnenter", Void, {Ptr});
    }
};

enum IntrOp { IO_FABS = 1, IO_UMAX, IO_UMIN, IO_SMAX, IO_SMIN, IO_BSWAP, IO_FSHL, IO_FSHR, IO_ABS, IO_CTPOP, IO_CTLZ, IO_CTTZ,
    IO_UADDO, IO_SADDO, IO_USUBO, IO_SSUBO, IO_UMULO, IO_SMULO, IO_USUBSAT, IO_UADDSAT, IO_FLOOR, IO_CEIL, IO_TRUNC, IO_RINT, IO_ISFPCLASS, IO_COPYSIGN, IO_FMULADD, IO_FMIN, IO_FMAX, IO_SQRT };

struct Instr {
    Rt& rt;
    const DataLayout& DL;
    Function& F;
    std::map<Value*, Value*> sh;
    uint32_t& site;
    Instr(Rt& r, Function& f, uint32_t& s) : rt(r), DL(r.M.getDataLayout()), F(f), site(s) {}

    Type* shTy(Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) {
            SmallVector<Type*, 8> v;
            for (auto* e : s->elements()) v.push_back(shTy(e));
            return StructType::get(rt.C, v);
        }
        if (auto* a = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()), a->getNumElements());
        return rt.I32;
    }
    bool scalarOk(Type* t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isPointerTy() || t->isFloatTy() || t->isDoubleTy();
    }
    unsigned width(Type* t) {
        if (t->isPointerTy()) return 64;
        return t->getPrimitiveSizeInBits();
    }
    Value* zero(Type* t) { return Constant::getNullValue(shTy(t)); }
    Value* S(Value* v) {
        if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return zero(v->getType());
        auto it = sh.find(v);
        if (it == sh.end()) return zero(v->getType());
        return it->second;
    }
    bool isZ(Value* s) { return isa<Constant>(s); }
    // value as i64
    Value* V(IRBuilder<>& B, Value* v) {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, rt.I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, rt.I32), rt.I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, rt.I64);
        if (t->isIntegerTy()) return B.CreateZExtOrTrunc(v, rt.I64);
        return B.getInt64(0);
    }
    Value* i32(IRBuilder<>& B, unsigned x) { return B.getInt32(x); }

    void concVal(IRBuilder<>& B, Value* v) {
        Value* s = S(v);
        if (isZ(s)) return;
        if (!scalarOk(v->getType())) return;
        B.CreateCall(rt.conc, {s, V(B, v), i32(B, site++)});
    }
    void leaves(Type* t, uint64_t off, std::vector<std::pair<uint64_t, Type*>>& out) {
        if (auto* s = dyn_cast<StructType>(t)) {
            auto* sl = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), out);
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL.getTypeAllocSize(a->getElementType());
            for (unsigned i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out);
        } else out.push_back({off, t});
    }
    // flatten aggregate shadows to list of leaf indices
    void leafIdx(Type* t, std::vector<unsigned>& cur, std::vector<std::vector<unsigned>>& out) {
        if (auto* s = dyn_cast<StructType>(t)) {
            for (unsigned i = 0; i < s->getNumElements(); i++) { cur.push_back(i); leafIdx(s->getElementType(i), cur, out); cur.pop_back(); }
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            for (unsigned i = 0; i < a->getNumElements(); i++) { cur.push_back(i); leafIdx(a->getElementType(), cur, out); cur.pop_back(); }
        } else out.push_back(cur);
    }
    Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i, Type* et) {
        Value* base = B.CreateThreadLocalAddress(g);
        return B.CreateConstInBoundsGEP1_32(et, base, i);
    }

    void ptrCheck(IRBuilder<>& B, Value* p, Value* size, bool write) {
        Value* s = S(p);
        if (isZ(s)) return;
        B.CreateCall(rt.ptr, {s, V(B, p), size, i32(B, write), i32(B, site++)});
    }

    void prepass() {
        // GEPs with variable indices -> explicit arithmetic
        std::vector<GetElementPtrInst*> geps;
        std::vector<InvokeInst*> inv;
        for (auto& I : instructions(F)) {
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                if (g->hasAllConstantIndices() || g->getType()->isVectorTy()) continue;
                bool isI8 = g->getSourceElementType()->isIntegerTy(8) && g->getNumIndices() == 1;
                if (isI8 && g->getOperand(1)->getType()->isIntegerTy(64)) continue;
                geps.push_back(g);
            }
            if (auto* i = dyn_cast<InvokeInst>(&I))
                if (!i->getType()->isVoidTy()) inv.push_back(i);
        }
        for (auto* g : geps) {
            IRBuilder<> B(g);
            Value* off = emitGEPOffset(&B, DL, g, true);
            Value* p = B.CreateGEP(rt.I8, g->getPointerOperand(), off);
            g->replaceAllUsesWith(p);
            g->eraseFromParent();
        }
        for (auto* i : inv) {
            BasicBlock* nd = i->getNormalDest();
            BasicBlock* nb = BasicBlock::Create(rt.C, "inv.cont", &F, nd);
            BranchInst::Create(nd, nb);
            i->setNormalDest(nb);
            nd->replacePhiUsesWith(i->getParent(), nb);
            // if unwind dest == nd impossible
        }
    }

    void run(unsigned fnid, GlobalVariable* desc) {
        prepass();
        std::vector<Instruction*> work;
        std::vector<PHINode*> phis;
        {
            ReversePostOrderTraversal<Function*> RPOT(&F);
            for (BasicBlock* bb : RPOT)
                for (auto& I : *bb) work.push_back(&I);
        }
        // phi shadows first
        for (auto* I : work)
            if (auto* p = dyn_cast<PHINode>(I)) {
                IRBuilder<> B(p);
                PHINode* sp = B.CreatePHI(shTy(p->getType()), p->getNumIncomingValues(), "s");
                sh[p] = sp;
                phis.push_back(p);
            }
        // entry
        {
            BasicBlock& E = F.getEntryBlock();
            auto ip = E.getFirstInsertionPt();
            while (isa<AllocaInst>(&*ip)) ++ip;
            IRBuilder<> B(&*ip);
            B.CreateCall(rt.fnenter, {desc});
            if (!F.arg_empty() && !F.isVarArg()) {
                Value* cp = B.CreateThreadLocalAddress(rt.callee);
                Value* c = B.CreateLoad(rt.Ptr, cp);
                Value* ok = B.CreateICmpEQ(c, &F);
                unsigned k = 0;
                for (auto& a : F.args()) {
                    if (a.hasByValAttr()) {
                        if (k < MAXARGS) {
                            Value* p = B.CreateLoad(rt.I64, slot(B, rt.argptr, k, rt.I64));
                            p = B.CreateSelect(ok, p, B.getInt64(0));
                            B.CreateCall(rt.byval, {&a, p, B.getInt64(DL.getTypeAllocSize(a.getParamByValType()))});
                        }
                        k++;
                        continue;
                    }
                    std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
                    leafIdx(a.getType(), cur, li);
                    if (li.size() == 1 && li[0].empty()) {
                        if (k < MAXARGS && scalarOk(a.getType())) {
                            Value* s = B.CreateLoad(rt.I32, slot(B, rt.argsh, k, rt.I32));
                            sh[&a] = B.CreateSelect(ok, s, B.getInt32(0));
                        }
                        k++;
                    } else k += li.size();
                }
                B.CreateStore(ConstantPointerNull::get(rt.Ptr), cp);
            }
            for (auto& I : E)
                if (auto* al = dyn_cast<AllocaInst>(&I))
                    if (auto sz = al->getAllocationSize(DL))
                        B.CreateCall(rt.alloca_, {al, B.getInt64(sz->getFixedValue())});
        }
        for (auto* I : work) visit(I);
        for (auto* p : phis) {
            auto* sp = cast<PHINode>(sh[p]);
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++) sp->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
        }
    }

    Instruction* after(Instruction* I) { return I->getNextNode(); }

    void visit(Instruction* I) {
        if (isa<PHINode>(I)) return;
        if (auto* x = dyn_cast<LoadInst>(I)) return vLoad(x);
        if (auto* x = dyn_cast<StoreInst>(I)) return vStore(x);
        if (auto* x = dyn_cast<BinaryOperator>(I)) return vBin(x);
        if (auto* x = dyn_cast<UnaryOperator>(I)) {
            if (!scalarOk(x->getType()) || isZ(S(x->getOperand(0)))) return;
            IRBuilder<> B(after(I));
            uint64_t m = x->getType()->isDoubleTy() ? (1ull << 63) : (1ull << 31);
            sh[I] = B.CreateCall(rt.bin, {i32(B, Instruction::Xor), i32(B, width(x->getType())), S(x->getOperand(0)), V(B, x->getOperand(0)), i32(B, 0), B.getInt64(m), V(B, x)});
            return;
        }
        if (auto* x = dyn_cast<ICmpInst>(I)) {
            Value *a = x->getOperand(0), *b = x->getOperand(1);
            if (!scalarOk(a->getType())) { conc2(I); return; }
            if (isZ(S(a)) && isZ(S(b))) return;
            IRBuilder<> B(after(I));
            sh[I] = B.CreateCall(rt.cmp, {i32(B, x->getPredicate()), i32(B, width(a->getType())), S(a), V(B, a), S(b), V(B, b), V(B, x)});
            return;
        }
        if (auto* x = dyn_cast<FCmpInst>(I)) {
            Value *a = x->getOperand(0), *b = x->getOperand(1);
            if (!scalarOk(a->getType())) { conc2(I); return; }
            if (isZ(S(a)) && isZ(S(b))) return;
            IRBuilder<> B(after(I));
            sh[I] = B.CreateCall(rt.fcmp, {i32(B, x->getPredicate()), i32(B, width(a->getType())), S(a), V(B, a), S(b), V(B, b), V(B, x)});
            return;
        }
        if (auto* x = dyn_cast<CastInst>(I)) return vCast(x);
        if (auto* x = dyn_cast<GetElementPtrInst>(I)) {
            if (x->getType()->isVectorTy()) return;
            Value* p = x->getPointerOperand();
            IRBuilder<> B(after(I));
            if (x->hasAllConstantIndices()) {
                if (isZ(S(p))) return;
                APInt off(64, 0);
                x->accumulateConstantOffset(DL, off);
                sh[I] = B.CreateCall(rt.bin, {i32(B, Instruction::Add), i32(B, 64), S(p), V(B, p), i32(B, 0), B.getInt64(off.getZExtValue()), V(B, x)});
            } else {
                Value* o = x->getOperand(1);
                if (isZ(S(p)) && isZ(S(o))) return;
                sh[I] = B.CreateCall(rt.bin, {i32(B, Instruction::Add), i32(B, 64), S(p), V(B, p), S(o), V(B, o), V(B, x)});
            }
            return;
        }
        if (auto* x = dyn_cast<SelectInst>(I)) {
            Value *c = x->getCondition(), *a = x->getTrueValue(), *b = x->getFalseValue();
            if (c->getType()->isVectorTy()) return;
            if (isZ(S(c)) && isZ(S(a)) && isZ(S(b))) return;
            IRBuilder<> B(after(I));
            if (!scalarOk(x->getType())) {
                // aggregate/vector: concretise condition
                IRBuilder<> B0(I);
                concVal(B0, c);
                sh[I] = B.CreateSelect(c, S(a), S(b));
                return;
            }
            Value* nat = (isZ(S(a)) && isZ(S(b))) ? (Value*)i32(B, 0) : B.CreateSelect(c, S(a), S(b));
            if (isZ(S(c))) { sh[I] = nat; return; }
            if (x->getType()->isPointerTy()) {
                IRBuilder<> B0(I);
                B0.CreateCall(rt.branch, {S(c), B0.CreateZExt(c, rt.I32), i32(B0, site++)});
                sh[I] = nat;
                return;
            }
            sh[I] = B.CreateCall(rt.ite, {i32(B, width(x->getType())), B.CreateOr(B.CreateShl(B.CreateZExt(c, rt.I32), 31), S(c)), S(a), V(B, a), S(b), V(B, b)});
            return;
        }
        if (auto* x = dyn_cast<BranchInst>(I)) {
            if (!x->isConditional()) return;
            Value* c = x->getCondition();
            if (isZ(S(c))) return;
            IRBuilder<> B(I);
            B.CreateCall(rt.branch, {S(c), B.CreateZExt(c, rt.I32), i32(B, site++)});
            return;
        }
        if (auto* x = dyn_cast<SwitchInst>(I)) { IRBuilder<> B(I); concVal(B, x->getCondition()); return; }
        if (auto* x = dyn_cast<ExtractValueInst>(I)) {
            Value* s = S(x->getAggregateOperand());
            if (isZ(s)) return;
            IRBuilder<> B(after(I));
            sh[I] = B.CreateExtractValue(s, x->getIndices());
            return;
        }
        if (auto* x = dyn_cast<InsertValueInst>(I)) {
            Value *s = S(x->getAggregateOperand()), *v = S(x->getInsertedValueOperand());
            if (isZ(s) && isZ(v)) return;
            IRBuilder<> B(after(I));
            sh[I] = B.CreateInsertValue(s, v, x->getIndices());
            return;
        }
        if (auto* x = dyn_cast<FreezeInst>(I)) { sh[I] = S(x->getOperand(0)); return; }
        if (isa<AllocaInst>(I)) {
            auto* al = cast<AllocaInst>(I);
            if (!al->isStaticAlloca()) {
                IRBuilder<> B(after(I));
                concVal(B, al->getArraySize());
                Value* n = B.CreateMul(B.CreateZExtOrTrunc(al->getArraySize(), rt.I64), B.getInt64(DL.getTypeAllocSize(al->getAllocatedType())));
                B.CreateCall(rt.alloca_, {al, n});
            }
            return;
        }
        if (auto* x = dyn_cast<AtomicRMWInst>(I)) {
            IRBuilder<> B(I);
            Value* sz = B.getInt64(DL.getTypeStoreSize(x->getType()));
            ptrCheck(B, x->getPointerOperand(), sz, true);
            concVal(B, x->getValOperand());
            B.CreateCall(rt.vecload, {x->getPointerOperand(), sz, i32(B, site++)});
            B.CreateCall(rt.clear, {x->getPointerOperand(), sz});
            return;
        }
        if (auto* x = dyn_cast<AtomicCmpXchgInst>(I)) {
            IRBuilder<> B(I);
            Value* sz = B.getInt64(DL.getTypeStoreSize(x->getNewValOperand()->getType()));
            ptrCheck(B, x->getPointerOperand(), sz, true);
            concVal(B, x->getNewValOperand());
            concVal(B, x->getCompareOperand());
            B.CreateCall(rt.vecload, {x->getPointerOperand(), sz, i32(B, site++)});
            B.CreateCall(rt.clear, {x->getPointerOperand(), sz});
            return;
        }
        if (auto* x = dyn_cast<ReturnInst>(I)) {
            Value* v = x->getReturnValue();
            if (!v) return;
            if (auto* ci = dyn_cast_or_null<CallInst>(I->getPrevNode()))
                if (ci->isMustTailCall()) return;
            IRBuilder<> B(I);
            std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
            leafIdx(v->getType(), cur, li);
            Value* s = S(v);
            for (unsigned i = 0; i < li.size() && i < MAXRET; i++) {
                Value* e = li[i].empty() ? s : B.CreateExtractValue(s, li[i]);
                B.CreateStore(e, slot(B, rt.retsh, i, rt.I32));
            }
            B.CreateStore(&F, B.CreateThreadLocalAddress(rt.retfn));
            return;
        }
        if (auto* x = dyn_cast<CallBase>(I)) return vCall(x);
        if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) { conc2(I); return; }
    }
    void conc2(Instruction* I) {
        IRBuilder<> B(I);
        for (auto& o : I->operands()) concVal(B, o);
    }

    void vLoad(LoadInst* x) {
        Type* t = x->getType();
        uint64_t sz = DL.getTypeStoreSize(t);
        {
            IRBuilder<> B(x);
            ptrCheck(B, x->getPointerOperand(), B.getInt64(sz), false);
        }
        IRBuilder<> B(after(x));
        if (t->isAggregateType()) {
            std::vector<std::pair<uint64_t, Type*>> lv;
            leaves(t, 0, lv);
            std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
            leafIdx(t, cur, li);
            Value* s = zero(t);
            for (unsigned i = 0; i < lv.size(); i++) {
                if (!scalarOk(lv[i].second)) continue;
                Value* p = B.CreateConstGEP1_64(rt.I8, x->getPointerOperand(), lv[i].first);
                Value* e = B.CreateExtractValue(x, li[i]);
                Value* h = ldShadow(B, p, lv[i].second, e);
                s = B.CreateInsertValue(s, h, li[i]);
            }
            sh[x] = s;
            return;
        }
        if (!scalarOk(t) || x->isAtomic()) {
            B.CreateCall(rt.vecload, {x->getPointerOperand(), B.getInt64(sz), i32(B, site++)});
            return;
        }
        sh[x] = ldShadow(B, x->getPointerOperand(), t, x);
    }
    Value* ldShadow(IRBuilder<>& B, Value* p, Type* t, Value* v) {
        uint64_t sz = DL.getTypeStoreSize(t);
        Value* s = B.CreateCall(rt.load, {p, i32(B, sz), V(B, v)});
        unsigned w = width(t);
        if (w != sz * 8) s = B.CreateCall(rt.cast, {i32(B, Instruction::Trunc), i32(B, sz * 8), i32(B, w), s, V(B, v), V(B, v)});
        return s;
    }
    void vStore(StoreInst* x) {
        Value* v = x->getValueOperand();
        Type* t = v->getType();
        uint64_t sz = DL.getTypeStoreSize(t);
        IRBuilder<> B(x);
        ptrCheck(B, x->getPointerOperand(), B.getInt64(sz), true);
        if (t->isAggregateType()) {
            std::vector<std::pair<uint64_t, Type*>> lv;
            leaves(t, 0, lv);
            std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
            leafIdx(t, cur, li);
            B.CreateCall(rt.clear, {x->getPointerOperand(), B.getInt64(sz)});
            for (unsigned i = 0; i < lv.size(); i++) {
                if (!scalarOk(lv[i].second)) continue;
                Value* p = B.CreateConstGEP1_64(rt.I8, x->getPointerOperand(), lv[i].first);
                stShadow(B, p, lv[i].second, B.CreateExtractValue(S(v), li[i]), B.CreateExtractValue(v, li[i]));
            }
            return;
        }
        if (!scalarOk(t)) { B.CreateCall(rt.clear, {x->getPointerOperand(), B.getInt64(sz)}); return; }
        stShadow(B, x->getPointerOperand(), t, S(v), v);
    }
    void stShadow(IRBuilder<>& B, Value* p, Type* t, Value* s, Value* v) {
        uint64_t sz = DL.getTypeStoreSize(t);
        unsigned w = width(t);
        if (!isZ(s) && w != sz * 8) s = B.CreateCall(rt.cast, {i32(B, Instruction::ZExt), i32(B, w), i32(B, sz * 8), s, V(B, v), V(B, v)});
        B.CreateCall(rt.store, {p, i32(B, sz), s, V(B, v)});
    }
    void vBin(BinaryOperator* x) {
        Value *a = x->getOperand(0), *b = x->getOperand(1);
        if (!scalarOk(x->getType())) { conc2(x); return; }
        if (isZ(S(a)) && isZ(S(b))) return;
        unsigned op = x->getOpcode();
        if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
            IRBuilder<> B0(x);
            if (!isZ(S(b))) {
                Value* z = B0.CreateICmpNE(b, Constant::getNullValue(b->getType()));
                Value* s = B0.CreateCall(rt.cmp, {i32(B0, CmpInst::ICMP_NE), i32(B0, width(b->getType())), S(b), V(B0, b), i32(B0, 0), B0.getInt64(0), V(B0, z)});
                B0.CreateCall(rt.branch, {s, B0.CreateZExt(z, rt.I32), i32(B0, site++)});
            }
        }
        IRBuilder<> B(after(x));
        sh[x] = B.CreateCall(rt.bin, {i32(B, op), i32(B, width(x->getType())), S(a), V(B, a), S(b), V(B, b), V(B, x)});
    }
    void vCast(CastInst* x) {
        Value* a = x->getOperand(0);
        if (!scalarOk(x->getType()) || !scalarOk(a->getType())) { conc2(x); return; }
        if (isZ(S(a))) return;
        unsigned op = x->getOpcode();
        unsigned w0 = width(a->getType()), w1 = width(x->getType());
        if (op == Instruction::BitCast) { sh[x] = S(a); return; }
        if (op == Instruction::PtrToInt || op == Instruction::IntToPtr) {
            if (w0 == w1) { sh[x] = S(a); return; }
            op = w1 < w0 ? Instruction::Trunc : Instruction::ZExt;
        }
        IRBuilder<> B(after(x));
        sh[x] = B.CreateCall(rt.cast, {i32(B, op), i32(B, w0), i32(B, w1), S(a), V(B, a), V(B, x)});
    }

    void vCall(CallBase* x) {
        if (x->isInlineAsm()) { conc2(x); return; }
        if (auto* ii = dyn_cast<IntrinsicInst>(x)) return vIntr(ii);
        Function* f = x->getCalledFunction();
        IRBuilder<> B(x);
        if (f && f->isDeclaration()) {
            StringRef n = f->getName();
            if (n.starts_with("symrt_")) {
                // harness primitives implemented by the runtime: arguments passed with shadows in slots, result in retsh[0]
            }
            if (n == "memcpy" || n == "memmove") {
                Value *d = x->getArgOperand(0), *s = x->getArgOperand(1), *l = x->getArgOperand(2);
                B.CreateCall(n == "memcpy" ? rt.memcpy_ : rt.memmove_, {d, S(d), s, S(s), l, S(l), i32(B, site++)});
                replaceCall(x, d);
                return;
            }
            if (n == "memset") {
                Value *d = x->getArgOperand(0), *s = x->getArgOperand(1), *l = x->getArgOperand(2);
                B.CreateCall(rt.memset_, {d, S(d), B.CreateZExtOrTrunc(s, rt.I32), S(s), l, S(l), i32(B, site++)});
                replaceCall(x, d);
                return;
            }
            // number parsers are modelled by instrumented code (harness/eckitstub.cc)
            static const std::map<std::string, std::string> model = {{"atoi", "symm_atoi"}, {"atol", "symm_atol"}, {"strtol", "symm_strtol"}, {"__isoc23_strtol", "symm_strtol"}};
            auto mi = model.find(n.str());
            if (mi != model.end()) {
                FunctionCallee nf = rt.M.getOrInsertFunction(mi->second, f->getFunctionType());
                x->setCalledFunction(nf);
                f = cast<Function>(nf.getCallee());
                x->setAttributes(AttributeList());
                n = f->getName();
            }
            static const std::set<std::string> wr = {"memcmp", "bcmp", "strlen", "strcmp", "strncmp", "strnlen", "memchr", "strchr", "strcpy", "strncpy", "strrchr",
                "isspace","isdigit","isalpha","isalnum","tolower","toupper"};
            if (wr.count(n.str())) {
                FunctionCallee nf = rt.M.getOrInsertFunction(("symrt_w_" + n).str(), f->getFunctionType());
                x->setCalledFunction(nf);
                f = cast<Function>(nf.getCallee());
                x->removeFnAttr(Attribute::Memory);
                x->removeFnAttr(Attribute::NoBuiltin);
            }
        }
        bool isRt = f && f->getName().starts_with("symrt_");
        // argument shadows
        unsigned k = 0;
        bool any = false;
        bool var = x->getFunctionType()->isVarArg();
        if (var) for (auto& a : x->args()) concVal(B, a.get());
        for (unsigned i = 0; i < x->arg_size(); i++) {
            Value* a = x->getArgOperand(i);
            if (x->isByValArgument(i)) {
                if (k < MAXARGS) B.CreateStore(V(B, a), slot(B, rt.argptr, k, rt.I64));
                any = true;
                k++;
                continue;
            }
            std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
            leafIdx(a->getType(), cur, li);
            if (li.size() == 1 && li[0].empty()) {
                if (k < MAXARGS) {
                    Value* s = S(a);
                    if (!isZ(s)) any = true;
                    B.CreateStore(s, slot(B, rt.argsh, k, rt.I32));
                    // the concrete value, for post-hoc concretisation / leak detection by callpre
                    if (scalarOk(a->getType()) && !(f && !f->isDeclaration()))
                        B.CreateStore(V(B, a), slot(B, rt.argptr, k, rt.I64));
                }
                k++;
            } else k += li.size();
        }
        (void)any;
        Value* cv = x->getCalledOperand();
        if (!f) { Value* s = S(cv); if (!isZ(s)) B.CreateCall(rt.ptr, {s, V(B, cv), B.getInt64(1), i32(B, 0), i32(B, site++)}); }
        bool known = f && !f->isDeclaration() && !f->isVarArg();
        if (!known && !isRt) {
            Value* nm = f ? (Value*)strConst(f->getName()) : (Value*)ConstantPointerNull::get(rt.Ptr);
            uint64_t pm = 0; // bitmask of pointer args (by slot), assume scalar slots
            unsigned kk = 0;
            for (unsigned i = 0; i < x->arg_size() && kk < 31; i++, kk++)
                if (x->getArgOperand(i)->getType()->isPointerTy()) pm |= 1u << kk;
            B.CreateCall(rt.callpre, {cv, nm, i32(B, (k > 31 ? 31 : k) | 0), i32(B, pm)});
        }
        B.CreateStore(cv, B.CreateThreadLocalAddress(rt.callee));
        if (auto* ci = dyn_cast<CallInst>(x)) if (ci->isMustTailCall()) return;
        if (x->getType()->isVoidTy()) return;
        Instruction* ip;
        if (auto* iv = dyn_cast<InvokeInst>(x)) ip = &*iv->getNormalDest()->getFirstInsertionPt();
        else ip = after(x);
        IRBuilder<> A(ip);
        std::vector<std::vector<unsigned>> li; std::vector<unsigned> cur;
        leafIdx(x->getType(), cur, li);
        Value* ok = A.CreateICmpEQ(A.CreateLoad(rt.Ptr, A.CreateThreadLocalAddress(rt.retfn)), cv);
        if (li.size() == 1 && li[0].empty()) {
            if (!scalarOk(x->getType())) return;
            Value* s = A.CreateLoad(rt.I32, slot(A, rt.retsh, 0, rt.I32));
            sh[x] = A.CreateSelect(ok, s, A.getInt32(0));
        } else {
            Value* s = zero(x->getType());
            for (unsigned i = 0; i < li.size() && i < MAXRET; i++) {
                Value* e = A.CreateLoad(rt.I32, slot(A, rt.retsh, i, rt.I32));
                s = A.CreateInsertValue(s, A.CreateSelect(ok, e, A.getInt32(0)), li[i]);
            }
            sh[x] = s;
        }
        // make sure a stale retfn does not validate the next call
    }
    Constant* strConst(StringRef s) {
        static std::map<std::pair<Module*, std::string>, Constant*> m;
        auto& c = m[{&rt.M, s.str()}];
        if (!c) {
            auto* d = ConstantDataArray::getString(rt.C, s, true);
            auto* g = new GlobalVariable(rt.M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__symname");
            c = g;
        }
        return c;
    }
    void replaceCall(CallBase* x, Value* v) {
        if (auto* iv = dyn_cast<InvokeInst>(x)) {
            IRBuilder<> B(x);
            x->replaceAllUsesWith(v);
            BasicBlock* nd = iv->getNormalDest();
            iv->getUnwindDest()->removePredecessor(iv->getParent());
            B.CreateBr(nd);
            x->eraseFromParent();
            return;
        }
        Value* s = S(v);
        x->replaceAllUsesWith(v);
        (void)s;
        x->eraseFromParent();
    }
    void vIntr(IntrinsicInst* x) {
        IRBuilder<> B(x);
        switch (x->getIntrinsicID()) {
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: {
                Value *d = x->getArgOperand(0), *s = x->getArgOperand(1), *l = x->getArgOperand(2);
                Value* l64 = B.CreateZExtOrTrunc(l, rt.I64);
                B.CreateCall(x->getIntrinsicID() == Intrinsic::memmove ? rt.memmove_ : rt.memcpy_, {d, S(d), s, S(s), l64, S(l), i32(B, site++)});
                x->eraseFromParent();
                return;
            }
            case Intrinsic::memset: {
                Value *d = x->getArgOperand(0), *s = x->getArgOperand(1), *l = x->getArgOperand(2);
                Value* l64 = B.CreateZExtOrTrunc(l, rt.I64);
                B.CreateCall(rt.memset_, {d, S(d), B.CreateZExt(s, rt.I32), S(s), l64, S(l), i32(B, site++)});
                x->eraseFromParent();
                return;
            }
            case Intrinsic::lifetime_start: {
                // the content is undefined from here on (the slot may have been shared with another variable)
                IRBuilder<> L(after(x));
                auto* n = cast<ConstantInt>(x->getArgOperand(0));
                if (n->getSExtValue() > 0) L.CreateCall(rt.alloca_, {x->getArgOperand(1), n});
                return;
            }
            case Intrinsic::expect: sh[x] = S(x->getArgOperand(0)); return;
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: sh[x] = S(x->getArgOperand(0)); return;
            default: break;
        }
        unsigned op = 0;
        switch (x->getIntrinsicID()) {
            case Intrinsic::fabs: op = IO_FABS; break;
            case Intrinsic::umax: op = IO_UMAX; break;
            case Intrinsic::umin: op = IO_UMIN; break;
            case Intrinsic::smax: op = IO_SMAX; break;
            case Intrinsic::smin: op = IO_SMIN; break;
            case Intrinsic::bswap: op = IO_BSWAP; break;
            case Intrinsic::fshl: op = IO_FSHL; break;
            case Intrinsic::fshr: op = IO_FSHR; break;
            case Intrinsic::abs: op = IO_ABS; break;
            case Intrinsic::uadd_with_overflow: op = IO_UADDO; break;
            case Intrinsic::sadd_with_overflow: op = IO_SADDO; break;
            case Intrinsic::usub_with_overflow: op = IO_USUBO; break;
            case Intrinsic::ssub_with_overflow: op = IO_SSUBO; break;
            case Intrinsic::umul_with_overflow: op = IO_UMULO; break;
            case Intrinsic::smul_with_overflow: op = IO_SMULO; break;
            case Intrinsic::usub_sat: op = IO_USUBSAT; break;
            case Intrinsic::uadd_sat: op = IO_UADDSAT; break;
            case Intrinsic::is_fpclass: op = IO_ISFPCLASS; break;
            case Intrinsic::copysign: op = IO_COPYSIGN; break;
            default: break;
        }
        bool anySym = false;
        for (auto& a : x->args())
            if (!isZ(S(a.get()))) anySym = true;
        if (!anySym) return;
        if (op) {
            Value* a0 = x->getArgOperand(0);
            if (!scalarOk(a0->getType())) { conc2(x); return; }
            unsigned w = width(a0->getType());
            IRBuilder<> A(after(x));
            Value* z = A.getInt64(0);
            Value* sa = S(a0); Value* va = V(A, a0);
            Value *sb = A.getInt32(0), *vb = z, *sc = A.getInt32(0), *vc = z;
            if (x->arg_size() > 1) { sb = S(x->getArgOperand(1)); vb = V(A, x->getArgOperand(1)); }
            if (x->arg_size() > 2) { sc = S(x->getArgOperand(2)); vc = V(A, x->getArgOperand(2)); }
            if (op >= IO_UADDO && op <= IO_SMULO) {
                Value* s = zero(x->getType());
                Value* r = A.CreateExtractValue(x, 0); Value* o = A.CreateExtractValue(x, 1);
                unsigned bop = (op == IO_UADDO || op == IO_SADDO) ? Instruction::Add : (op == IO_USUBO || op == IO_SSUBO) ? Instruction::Sub : Instruction::Mul;
                Value* h = A.CreateCall(rt.bin, {i32(A, bop), i32(A, w), sa, va, sb, vb, V(A, r)});
                Value* ho = A.CreateCall(rt.intr, {i32(A, op), i32(A, w), sa, va, sb, vb, sc, vc, V(A, o)});
                s = A.CreateInsertValue(s, h, 0);
                s = A.CreateInsertValue(s, ho, 1);
                sh[x] = s;
                return;
            }
            sh[x] = A.CreateCall(rt.intr, {i32(A, op), i32(A, w), sa, va, sb, vb, sc, vc, V(A, x)});
            return;
        }
        switch (x->getIntrinsicID()) {
            case Intrinsic::assume: case Intrinsic::lifetime_end: case Intrinsic::dbg_value:
            case Intrinsic::dbg_declare: case Intrinsic::objectsize: return;
            default: break;
        }
        conc2(x);  // complete fallback: every argument is concretised, all values enumerated
    }
};

struct SymPass : PassInfoMixin<SymPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        Rt rt(M);
        uint32_t site = (uint32_t)xxh3_64bits(M.getModuleIdentifier()) & 0x7ffff000;
        std::vector<Function*> fns;
        for (auto& F : M)
            if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("symrt_") && !F.hasFnAttribute(Attribute::Naked)
                && !F.getName().starts_with("__clang_call_terminate")) fns.push_back(&F);
        std::vector<Constant*> descs;
        unsigned id = 0;
        StructType* DT = StructType::get(rt.C, {rt.Ptr, rt.Ptr, rt.I32});
        for (auto* F : fns) {
            auto* d = ConstantDataArray::getString(rt.C, F->getName(), true);
            auto* nm = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__symfn");
            auto* desc = new GlobalVariable(M, DT, false, GlobalValue::PrivateLinkage,
                                            ConstantStruct::get(DT, {F, nm, ConstantInt::get(rt.I32, 0)}), "__symdesc");
            descs.push_back(desc);
            Instr in(rt, *F, site);
            in.run(id++, desc);
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::NoSync);
            F->removeFnAttr(Attribute::NoFree);
        }
        for (auto& F : M) { // attributes about memory are no longer true anywhere
            if (F.isIntrinsic()) continue;
            F.removeFnAttr(Attribute::Memory);
        }
        for (auto* F : fns)
            for (auto& I : instructions(*F))
                if (auto* c = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(c)) c->removeFnAttr(Attribute::Memory);
        // constructor: register functions
        if (!descs.empty()) {
            auto* AT = ArrayType::get(rt.Ptr, descs.size());
            auto* arr = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, descs), "__symdescs");
            Function* ctor = Function::Create(FunctionType::get(rt.Void, false), GlobalValue::InternalLinkage, "symrt_modctor", M);
            BasicBlock* bb = BasicBlock::Create(rt.C, "e", ctor);
            IRBuilder<> B(bb);
            B.CreateCall(M.getOrInsertFunction("symrt_register", FunctionType::get(rt.Void, {rt.Ptr, rt.I32}, false)), {arr, B.getInt32(descs.size())});
            B.CreateRetVoid();
            appendToGlobalCtors(M, ctor, 0);
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}  // namespace

// Preemption points (schedule exploration): a call to sched_point() before every memory access through a pointer in
// the functions of namespace odc, placed before any optimisation so that the symbolic and the replay build agree.
struct PreemptPass : PassInfoMixin<PreemptPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        FunctionCallee f;
        for (auto& F : M) {
            StringRef n = F.getName();
            if (F.isDeclaration() || !(n.starts_with("_ZN3odc") || n.starts_with("_ZNK3odc") || n.starts_with("_ZZN3odc") || n.starts_with("_ZZNK3odc"))) continue;
            std::vector<Instruction*> at;
            for (auto& I : instructions(F)) {
                Value* p = nullptr;
                if (auto* l = dyn_cast<LoadInst>(&I)) p = l->getPointerOperand();
                if (auto* s = dyn_cast<StoreInst>(&I)) p = s->getPointerOperand();
                if (!p) continue;
                Value* u = const_cast<Value*>(getUnderlyingObject(p));
                if (isa<AllocaInst>(u)) continue;
                if (auto* g = dyn_cast<GlobalVariable>(u)) if (g->isConstant()) continue;
                at.push_back(&I);
            }
            if (at.empty()) continue;
            f = M.getOrInsertFunction("sched_point", FunctionType::get(Type::getVoidTy(M.getContext()), false));
            for (auto* I : at) IRBuilder<>(I).CreateCall(f, {});
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
#ifdef SYM_PREEMPT
                PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(PreemptPass()); });
#endif
#ifndef SYM_PREEMPT_ONLY
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
                    FunctionPassManager FPM;
                    FPM.addPass(LowerSwitchPass());
                    FPM.addPass(ScalarizerPass());
                    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
                    MPM.addPass(SymPass());
                });
#endif
            }};
}
