// SymPass: LLVM 18 pass plugin that instruments every function of a module so
// that, next to the concrete execution, the runtime (runtime.cpp) builds the
// symbolic expression of every SSA value which depends on a symbolic input.
//
// One shadow (pointer to an expression, null = concrete) is kept for every
// scalar *leaf* of every SSA value; memory shadows live in the runtime.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

#include "ops.h"

namespace {

constexpr unsigned MAXARGS = 64;

using Leaves = std::vector<Value*>;  // one shadow per leaf; nullptr = statically concrete

struct Rt {
    Type *Ptr, *I1, *I8, *I32, *I64, *Void;
    FunctionCallee bin, cmp, cast, ite, load, store, branch, switch_, pin, pinbits, enter, retget, precall, memcpy_, memset_, rawcopy, rawset,
        memclear, argval, bytevalcopy, pinaddr, intrin1, extractbits;
    GlobalVariable *args, *rets, *byvals, *argvals;
};

std::map<std::string, std::string> gRedirect;
bool gLoaded = false;

void loadRedirects() {
    if (gLoaded)
        return;
    gLoaded = true;
    const char* f = getenv("SYM_REDIRECT");
    if (!f)
        return;
    std::ifstream in(f);
    std::string a, b;
    while (in >> a >> b)
        gRedirect[a] = b;
}

unsigned leafCount(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) {
        unsigned n = 0;
        for (auto* E : S->elements())
            n += leafCount(E);
        return n;
    }
    if (auto* A = dyn_cast<ArrayType>(T))
        return A->getNumElements() * leafCount(A->getElementType());
    if (auto* V = dyn_cast<FixedVectorType>(T))
        return V->getNumElements();
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy())
        return 0;
    return 1;
}

// byte offset and type of each leaf in memory
void leafLayout(const DataLayout& DL, Type* T, uint64_t base, std::vector<std::pair<uint64_t, Type*>>& out) {
    if (auto* S = dyn_cast<StructType>(T)) {
        auto* L = DL.getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); ++i)
            leafLayout(DL, S->getElementType(i), base + L->getElementOffset(i), out);
        return;
    }
    if (auto* A = dyn_cast<ArrayType>(T)) {
        uint64_t sz = DL.getTypeAllocSize(A->getElementType());
        for (unsigned i = 0; i < A->getNumElements(); ++i)
            leafLayout(DL, A->getElementType(), base + i * sz, out);
        return;
    }
    if (auto* V = dyn_cast<FixedVectorType>(T)) {
        uint64_t bits = DL.getTypeSizeInBits(V->getElementType());
        for (unsigned i = 0; i < V->getNumElements(); ++i)
            out.push_back({base + i * bits / 8, V->getElementType()});
        return;
    }
    if (leafCount(T))
        out.push_back({base, T});
}

struct Instrumenter {
    Module& M;
    Rt& R;
    const DataLayout& DL;
    Function* F = nullptr;
    std::map<Value*, Leaves> sh;
    std::vector<std::pair<PHINode*, std::vector<PHINode*>>> phis;
    uint32_t siteBase = 0, siteN = 0;

    Instrumenter(Module& m, Rt& r) : M(m), R(r), DL(m.getDataLayout()) {}

    Value* null() { return ConstantPointerNull::get(cast<PointerType>(R.Ptr)); }

    Leaves get(Value* V) {
        auto it = sh.find(V);
        if (it != sh.end())
            return it->second;
        return Leaves(leafCount(V->getType()), nullptr);
    }
    Value* get1(Value* V) {
        auto l = get(V);
        return l.size() == 1 ? l[0] : nullptr;
    }
    Value* orNull(Value* s) { return s ? s : null(); }
    static bool any(const Leaves& l) {
        for (auto* x : l)
            if (x)
                return true;
        return false;
    }

    unsigned bits(Type* T) {
        if (T->isPointerTy())
            return 64;
        return DL.getTypeSizeInBits(T);
    }
    // concrete value as i64
    Value* conc(IRBuilder<>& B, Value* V) {
        Type* T = V->getType();
        if (T->isPointerTy())
            return B.CreatePtrToInt(V, R.I64);
        if (T->isIntegerTy()) {
            if (bits(T) > 64)
                return B.CreateTrunc(V, R.I64);
            return B.CreateZExt(V, R.I64);
        }
        if (T->isFloatTy())
            return B.CreateZExt(B.CreateBitCast(V, B.getInt32Ty()), R.I64);
        if (T->isDoubleTy())
            return B.CreateBitCast(V, R.I64);
        return B.getInt64(0);
    }
    Value* site(IRBuilder<>& B) { return B.getInt32(siteBase + (siteN++)); }

    void pinLeaf(IRBuilder<>& B, Value* s, Value* V) {
        if (!s)
            return;
        if (V && bits(V->getType()) <= 64)
            B.CreateCall(R.pin, {s, conc(B, V), site(B)});
        else
            B.CreateCall(R.pinbits, {s, site(B)});
    }
    // pin all symbolic leaves of a value
    void pinAll(IRBuilder<>& B, Value* V) {
        auto l = get(V);
        if (!any(l))
            return;
        bool scalar = l.size() == 1 && !V->getType()->isAggregateType() && !V->getType()->isVectorTy();
        for (auto* s : l)
            if (s) {
                if (scalar)
                    pinLeaf(B, s, V);
                else
                    B.CreateCall(R.pinbits, {s, site(B)});
            }
    }
    void pinOperands(Instruction* I) {
        IRBuilder<> B(I);
        for (auto& U : I->operands())
            pinAll(B, U.get());
    }

    // address: if symbolic, concretise
    void pinAddr(IRBuilder<>& B, Value* P) {
        if (auto* s = get1(P))
            B.CreateCall(R.pinaddr, {s, conc(B, P), site(B)});
    }

    void visitBin(BinaryOperator* I) {
        Type* T = I->getType();
        if (T->isFPOrFPVectorTy()) {
            pinOperands(I);
            return;
        }
        auto a = get(I->getOperand(0)), b = get(I->getOperand(1));
        if (!any(a) && !any(b))
            return;
        Type* ET = T->getScalarType();
        if (bits(ET) > 64) {
            pinOperands(I);
            return;
        }
        unsigned op = 0;
        switch (I->getOpcode()) {
            case Instruction::Add: op = OP_ADD; break;
            case Instruction::Sub: op = OP_SUB; break;
            case Instruction::Mul: op = OP_MUL; break;
            case Instruction::UDiv: op = OP_UDIV; break;
            case Instruction::SDiv: op = OP_SDIV; break;
            case Instruction::URem: op = OP_UREM; break;
            case Instruction::SRem: op = OP_SREM; break;
            case Instruction::Shl: op = OP_SHL; break;
            case Instruction::LShr: op = OP_LSHR; break;
            case Instruction::AShr: op = OP_ASHR; break;
            case Instruction::And: op = OP_AND; break;
            case Instruction::Or: op = OP_OR; break;
            case Instruction::Xor: op = OP_XOR; break;
            default: pinOperands(I); return;
        }
        IRBuilder<> B(I);
        Leaves out(a.size(), nullptr);
        for (unsigned i = 0; i < a.size(); ++i) {
            if (!a[i] && !b[i])
                continue;
            Value *x = I->getOperand(0), *y = I->getOperand(1);
            if (T->isVectorTy()) {
                x = B.CreateExtractElement(x, i);
                y = B.CreateExtractElement(y, i);
            }
            out[i] = B.CreateCall(R.bin, {B.getInt32(op), B.getInt32(bits(ET)), orNull(a[i]), conc(B, x), orNull(b[i]), conc(B, y)});
        }
        sh[I] = out;
    }

    unsigned cmpOp(CmpInst::Predicate P) {
        switch (P) {
            case CmpInst::ICMP_EQ: return OP_EQ;
            case CmpInst::ICMP_NE: return OP_NE;
            case CmpInst::ICMP_ULT: return OP_ULT;
            case CmpInst::ICMP_ULE: return OP_ULE;
            case CmpInst::ICMP_UGT: return OP_UGT;
            case CmpInst::ICMP_UGE: return OP_UGE;
            case CmpInst::ICMP_SLT: return OP_SLT;
            case CmpInst::ICMP_SLE: return OP_SLE;
            case CmpInst::ICMP_SGT: return OP_SGT;
            case CmpInst::ICMP_SGE: return OP_SGE;
            default: return 0;
        }
    }

    void visitCmp(ICmpInst* I) {
        auto a = get(I->getOperand(0)), b = get(I->getOperand(1));
        if (!any(a) && !any(b))
            return;
        Type* ET = I->getOperand(0)->getType()->getScalarType();
        if (bits(ET) > 64) {
            pinOperands(I);
            return;
        }
        IRBuilder<> B(I);
        Leaves out(a.size(), nullptr);
        bool vec = I->getOperand(0)->getType()->isVectorTy();
        for (unsigned i = 0; i < a.size(); ++i) {
            if (!a[i] && !b[i])
                continue;
            Value *x = I->getOperand(0), *y = I->getOperand(1);
            if (vec) {
                x = B.CreateExtractElement(x, i);
                y = B.CreateExtractElement(y, i);
            }
            out[i] = B.CreateCall(R.cmp, {B.getInt32(cmpOp(I->getPredicate())), B.getInt32(bits(ET)), orNull(a[i]), conc(B, x),
                                          orNull(b[i]), conc(B, y)});
        }
        sh[I] = out;
    }

    void visitCast(CastInst* I) {
        auto a = get(I->getOperand(0));
        if (!any(a))
            return;
        Type *ST = I->getSrcTy(), *DT = I->getDestTy();
        unsigned op = 0;
        switch (I->getOpcode()) {
            case Instruction::Trunc: op = OP_TRUNC; break;
            case Instruction::ZExt: op = OP_ZEXT; break;
            case Instruction::SExt: op = OP_SEXT; break;
            case Instruction::PtrToInt:
            case Instruction::IntToPtr: {
                unsigned s = bits(ST->getScalarType()), d = bits(DT->getScalarType());
                op = s > d ? OP_TRUNC : s < d ? OP_ZEXT : 0;
                if (!op) {
                    sh[I] = a;
                    return;
                }
                break;
            }
            case Instruction::BitCast:
                if (leafCount(ST) == leafCount(DT)) {
                    sh[I] = a;
                    return;
                }
                if (ST->isVectorTy() && !DT->isVectorTy() && bits(DT) <= 64 && ST->getScalarType()->isIntegerTy()) {
                    IRBuilder<> B(I);
                    unsigned eb = bits(ST->getScalarType());
                    Value* acc = nullptr;
                    Value* accC = B.getInt64(0);
                    for (int i = a.size() - 1; i >= 0; --i) {
                        Value* e = conc(B, B.CreateExtractElement(I->getOperand(0), (uint64_t)i));
                        // acc = concat(acc, e)
                        if (i == (int)a.size() - 1) {
                            acc = a[i];
                            accC = e;
                        }
                        else {
                            unsigned ab = eb * (a.size() - 1 - i);
                            acc = B.CreateCall(R.bin, {B.getInt32(OP_CONCAT), B.getInt32((ab << 8) | eb), orNull(acc), accC, orNull(a[i]), e});
                            accC = B.CreateOr(B.CreateShl(accC, eb), e);
                        }
                    }
                    sh[I] = {acc};
                    return;
                }
                pinOperands(I);
                return;
            case Instruction::SIToFP:
            case Instruction::UIToFP:
            case Instruction::FPToSI:
            case Instruction::FPToUI:
            case Instruction::FPExt:
            case Instruction::FPTrunc: pinOperands(I); return;
            default: pinOperands(I); return;
        }
        unsigned s = bits(ST->getScalarType()), d = bits(DT->getScalarType());
        if (s > 64 || d > 64) {
            pinOperands(I);
            return;
        }
        IRBuilder<> B(I);
        Leaves out(a.size(), nullptr);
        for (unsigned i = 0; i < a.size(); ++i)
            if (a[i])
                out[i] = B.CreateCall(R.cast, {B.getInt32(op), B.getInt32(s), B.getInt32(d), a[i]});
        sh[I] = out;
    }

    void visitSelect(SelectInst* I) {
        auto c = get(I->getCondition());
        auto t = get(I->getTrueValue()), f = get(I->getFalseValue());
        if (!any(c) && !any(t) && !any(f))
            return;
        if (I->getCondition()->getType()->isVectorTy()) {
            pinOperands(I);
            return;
        }
        IRBuilder<> B(I);
        bool scalar = !I->getType()->isAggregateType() && !I->getType()->isVectorTy();
        Type* T = I->getType();
        if (!any(c) || !scalar || bits(T) > 64) {
            if (any(c))
                pinAll(B, I->getCondition());
            Leaves out;
            for (unsigned i = 0; i < t.size(); ++i)
                out.push_back((t[i] || f[i]) ? B.CreateSelect(I->getCondition(), orNull(t[i]), orNull(f[i])) : nullptr);
            sh[I] = out;
            return;
        }
        if (T->isPointerTy() || T->isFloatingPointTy()) {
            // fork on pointer selects: keeps addresses concrete
            pinAll(B, I->getCondition());
            sh[I] = {(t[0] || f[0]) ? B.CreateSelect(I->getCondition(), orNull(t[0]), orNull(f[0])) : nullptr};
            return;
        }
        sh[I] = {B.CreateCall(R.ite, {c[0], conc(B, I->getCondition()), orNull(t[0]), conc(B, I->getTrueValue()), orNull(f[0]),
                                      conc(B, I->getFalseValue()), B.getInt32(bits(T))})};
    }

    void visitGEP(GetElementPtrInst* I) {
        if (I->getType()->isVectorTy()) {
            pinOperands(I);
            return;
        }
        bool sym = false;
        for (auto& U : I->operands())
            if (any(get(U.get())))
                sym = true;
        if (!sym)
            return;
        IRBuilder<> B(I);
        Value* s = get1(I->getPointerOperand());
        Value* c = conc(B, I->getPointerOperand());
        auto addTo = [&](Value* xs, Value* xc) {
            if (s || xs)
                s = B.CreateCall(R.bin, {B.getInt32(OP_ADD), B.getInt32(64), orNull(s), c, orNull(xs), xc});
            c = B.CreateAdd(c, xc);
        };
        for (auto GTI = gep_type_begin(I), E = gep_type_end(I); GTI != E; ++GTI) {
            Value* idx = GTI.getOperand();
            if (auto* ST = GTI.getStructTypeOrNull()) {
                uint64_t off = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                if (off)
                    addTo(nullptr, B.getInt64(off));
                continue;
            }
            uint64_t sz = DL.getTypeAllocSize(GTI.getIndexedType());
            Value* is = get1(idx);
            unsigned ib = bits(idx->getType());
            Value* ic = B.CreateSExtOrTrunc(idx, R.I64);
            if (is && ib < 64)
                is = B.CreateCall(R.cast, {B.getInt32(OP_SEXT), B.getInt32(ib), B.getInt32(64), is});
            Value* mc = B.CreateMul(ic, B.getInt64(sz));
            if (is && sz != 1)
                is = B.CreateCall(R.bin, {B.getInt32(OP_MUL), B.getInt32(64), is, ic, null(), B.getInt64(sz)});
            addTo(is, mc);
        }
        sh[I] = {s};
    }

    void visitLoad(LoadInst* I) {
        IRBuilder<> B(I);
        pinAddr(B, I->getPointerOperand());
        std::vector<std::pair<uint64_t, Type*>> lay;
        leafLayout(DL, I->getType(), 0, lay);
        if (lay.size() > 64)
            return;
        Leaves out;
        for (auto& l : lay) {
            uint64_t n = DL.getTypeStoreSize(l.second);
            if (n > 8) {
                out.push_back(nullptr);
                // x86_fp80 / i128 loads: any symbolic byte is pinned
                B.CreateCall(R.load, {B.CreateConstGEP1_64(R.I8, I->getPointerOperand(), l.first), B.getInt32(n | 0x1000), B.getInt32(0)});
                continue;
            }
            Value* p = l.first ? B.CreateConstGEP1_64(R.I8, I->getPointerOperand(), l.first) : I->getPointerOperand();
            out.push_back(B.CreateCall(R.load, {p, B.getInt32(n), B.getInt32(bits(l.second))}));
        }
        sh[I] = out;
    }

    void storeShadow(IRBuilder<>& B, Value* ptr, Value* V) {
        auto s = get(V);
        std::vector<std::pair<uint64_t, Type*>> lay;
        leafLayout(DL, V->getType(), 0, lay);
        if (lay.size() > 64 || !any(s)) {
            B.CreateCall(R.memclear, {ptr, B.getInt64(DL.getTypeStoreSize(V->getType()))});
            return;
        }
        for (unsigned i = 0; i < lay.size(); ++i) {
            uint64_t n = DL.getTypeStoreSize(lay[i].second);
            Value* p = lay[i].first ? B.CreateConstGEP1_64(R.I8, ptr, lay[i].first) : ptr;
            if (!s[i])
                B.CreateCall(R.memclear, {p, B.getInt64(n)});
            else
                B.CreateCall(R.store, {p, B.getInt32(n), B.getInt32(bits(lay[i].second)), s[i]});
        }
    }

    void visitStore(StoreInst* I) {
        {
            IRBuilder<> B(I);
            pinAddr(B, I->getPointerOperand());
        }
        IRBuilder<> B(I->getNextNode());
        storeShadow(B, I->getPointerOperand(), I->getValueOperand());
    }

    static unsigned leafIndex(Type* T, ArrayRef<unsigned> idx) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto* S = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; ++k)
                    n += leafCount(S->getElementType(k));
                T = S->getElementType(i);
            }
            else {
                auto* A = cast<ArrayType>(T);
                n += i * leafCount(A->getElementType());
                T = A->getElementType();
            }
        }
        return n;
    }

    std::vector<Instruction*> dead;
    void visitIntrinsic(IntrinsicInst* I) {
        IRBuilder<> B(I);
        switch (I->getIntrinsicID()) {
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
            case Intrinsic::memcpy_inline: {
                pinAddr(B, I->getArgOperand(0));
                pinAddr(B, I->getArgOperand(1));
                pinAll(B, I->getArgOperand(2));
                Value* N = B.CreateZExt(I->getArgOperand(2), R.I64);
                B.CreateCall(R.memcpy_, {I->getArgOperand(0), I->getArgOperand(1), N});
                B.CreateCall(R.rawcopy, {I->getArgOperand(0), I->getArgOperand(1), N});
                dead.push_back(I);
                return;
            }
            case Intrinsic::memset:
            case Intrinsic::memset_inline: {
                pinAddr(B, I->getArgOperand(0));
                pinAll(B, I->getArgOperand(2));
                Value* N = B.CreateZExt(I->getArgOperand(2), R.I64);
                B.CreateCall(R.memset_, {I->getArgOperand(0), orNull(get1(I->getArgOperand(1))), N});
                B.CreateCall(R.rawset, {I->getArgOperand(0), I->getArgOperand(1), N});
                dead.push_back(I);
                return;
            }
            case Intrinsic::umin:
            case Intrinsic::umax:
            case Intrinsic::smin:
            case Intrinsic::smax: {
                auto a = get(I->getArgOperand(0)), b = get(I->getArgOperand(1));
                if (!any(a) && !any(b))
                    return;
                if (I->getType()->isVectorTy() || bits(I->getType()) > 64) {
                    pinOperands(I);
                    return;
                }
                unsigned op = I->getIntrinsicID() == Intrinsic::umin   ? OP_ULT
                              : I->getIntrinsicID() == Intrinsic::umax ? OP_UGT
                              : I->getIntrinsicID() == Intrinsic::smin ? OP_SLT
                                                                       : OP_SGT;
                Value *x = conc(B, I->getArgOperand(0)), *y = conc(B, I->getArgOperand(1));
                Value* c = B.CreateCall(R.cmp, {B.getInt32(op), B.getInt32(bits(I->getType())), orNull(a[0]), x, orNull(b[0]), y});
                CmpInst::Predicate P = op == OP_ULT   ? CmpInst::ICMP_ULT
                                       : op == OP_UGT ? CmpInst::ICMP_UGT
                                       : op == OP_SLT ? CmpInst::ICMP_SLT
                                                      : CmpInst::ICMP_SGT;
                Value* cc = B.CreateZExt(B.CreateICmp(P, I->getArgOperand(0), I->getArgOperand(1)), R.I64);
                sh[I] = {B.CreateCall(R.ite, {c, cc, orNull(a[0]), x, orNull(b[0]), y, B.getInt32(bits(I->getType()))})};
                return;
            }
            case Intrinsic::usub_sat: {
                auto a = get1(I->getArgOperand(0)), b = get1(I->getArgOperand(1));
                if (!a && !b)
                    return;
                if (I->getType()->isVectorTy()) {
                    pinOperands(I);
                    return;
                }
                unsigned bb = bits(I->getType());
                Value *x = conc(B, I->getArgOperand(0)), *y = conc(B, I->getArgOperand(1));
                Value* c = B.CreateCall(R.cmp, {B.getInt32(OP_ULT), B.getInt32(bb), orNull(a), x, orNull(b), y});
                Value* cc = B.CreateZExt(B.CreateICmpULT(I->getArgOperand(0), I->getArgOperand(1)), R.I64);
                Value* d = B.CreateCall(R.bin, {B.getInt32(OP_SUB), B.getInt32(bb), orNull(a), x, orNull(b), y});
                Value* dc = conc(B, B.CreateSub(I->getArgOperand(0), I->getArgOperand(1)));
                sh[I] = {B.CreateCall(R.ite, {c, cc, null(), B.getInt64(0), d, dc, B.getInt32(bb)})};
                return;
            }
            case Intrinsic::bswap:
            case Intrinsic::ctpop:
            case Intrinsic::abs: {
                auto a = get1(I->getArgOperand(0));
                if (!a)
                    return;
                if (I->getType()->isVectorTy() || bits(I->getType()) > 64) {
                    pinOperands(I);
                    return;
                }
                unsigned k = I->getIntrinsicID() == Intrinsic::bswap ? 1 : I->getIntrinsicID() == Intrinsic::abs ? 2 : 3;
                sh[I] = {B.CreateCall(R.intrin1, {B.getInt32(k), B.getInt32(bits(I->getType())), a})};
                return;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                auto a = get1(I->getArgOperand(0)), b = get1(I->getArgOperand(1));
                auto* C = dyn_cast<ConstantInt>(I->getArgOperand(2));
                if (!a && !b && !get1(I->getArgOperand(2)))
                    return;
                unsigned bb = bits(I->getType());
                if (!C || I->getType()->isVectorTy() || bb > 64) {
                    pinOperands(I);
                    return;
                }
                uint64_t n = C->getZExtValue() % bb;
                if (I->getIntrinsicID() == Intrinsic::fshr)
                    n = (bb - n) % bb;
                if (n == 0) {
                    sh[I] = {I->getIntrinsicID() == Intrinsic::fshl ? a : b};
                    return;
                }
                Value *x = I->getArgOperand(0), *y = I->getArgOperand(1);
                Value* hx = a ? (Value*)B.CreateCall(R.bin, {B.getInt32(OP_SHL), B.getInt32(bb), a, conc(B, x), null(), B.getInt64(n)}) : nullptr;
                Value* hy = b ? (Value*)B.CreateCall(R.bin, {B.getInt32(OP_LSHR), B.getInt32(bb), b, conc(B, y), null(), B.getInt64(bb - n)}) : nullptr;
                sh[I] = {B.CreateCall(R.bin, {B.getInt32(OP_OR), B.getInt32(bb), orNull(hx), conc(B, B.CreateShl(x, n)), orNull(hy),
                                              conc(B, B.CreateLShr(y, bb - n))})};
                return;
            }
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::umul_with_overflow:
            case Intrinsic::smul_with_overflow: {
                auto a = get1(I->getArgOperand(0)), b = get1(I->getArgOperand(1));
                if (!a && !b)
                    return;
                Type* T = I->getArgOperand(0)->getType();
                if (T->isVectorTy() || bits(T) > 64) {
                    pinOperands(I);
                    return;
                }
                unsigned op, ov;
                switch (I->getIntrinsicID()) {
                    case Intrinsic::uadd_with_overflow: op = OP_ADD; ov = OP_UADDO; break;
                    case Intrinsic::usub_with_overflow: op = OP_SUB; ov = OP_USUBO; break;
                    case Intrinsic::sadd_with_overflow: op = OP_ADD; ov = OP_SADDO; break;
                    case Intrinsic::ssub_with_overflow: op = OP_SUB; ov = OP_SSUBO; break;
                    case Intrinsic::umul_with_overflow: op = OP_MUL; ov = OP_UMULO; break;
                    default: op = OP_MUL; ov = OP_SMULO; break;
                }
                Value *x = conc(B, I->getArgOperand(0)), *y = conc(B, I->getArgOperand(1));
                Value* r = B.CreateCall(R.bin, {B.getInt32(op), B.getInt32(bits(T)), orNull(a), x, orNull(b), y});
                Value* o = B.CreateCall(R.cmp, {B.getInt32(ov), B.getInt32(bits(T)), orNull(a), x, orNull(b), y});
                sh[I] = {r, o};
                return;
            }
            case Intrinsic::expect: sh[I] = get(I->getArgOperand(0)); return;
            case Intrinsic::lifetime_start:
                B.SetInsertPoint(I->getNextNode());
                if (auto* C = dyn_cast<ConstantInt>(I->getArgOperand(0)))
                    if (C->getSExtValue() > 0)
                        B.CreateCall(R.memclear, {I->getArgOperand(1), B.getInt64(C->getZExtValue())});
                return;
            case Intrinsic::assume:
            case Intrinsic::lifetime_end:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_label:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::vastart:
            case Intrinsic::vaend:
            case Intrinsic::vacopy:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::trap:
            case Intrinsic::donothing:
            case Intrinsic::prefetch:
            case Intrinsic::stacksave:
            case Intrinsic::stackrestore:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
                if (leafCount(I->getType()) == 1 && I->arg_size() == 1)
                    sh[I] = get(I->getArgOperand(0));
                return;
            default: pinOperands(I); return;
        }
    }

    void visitCall(CallBase* I) {
        if (auto* II = dyn_cast<IntrinsicInst>(I)) {
            visitIntrinsic(II);
            return;
        }
        if (I->isInlineAsm()) {
            pinOperands(I);
            return;
        }
        Value* callee = I->getCalledOperand();
        Function* fn = dyn_cast<Function>(callee->stripPointerCasts());
        if (fn && fn->getName().starts_with("__sym_"))
            return;
        if (fn) {
            auto it = gRedirect.find(fn->getName().str());
            if (it != gRedirect.end() && !F->getName().starts_with("symm_")) {
                FunctionCallee nf = M.getOrInsertFunction(it->second, I->getFunctionType());
                I->setCalledOperand(nf.getCallee());
                callee = nf.getCallee();
                fn = dyn_cast<Function>(callee);
            }
        }
        IRBuilder<> B(I);
        if (!fn)
            pinAddr(B, callee);
        unsigned slot = 0;
        bool anySym = false;
        std::vector<std::pair<unsigned, Value*>> argSh;
        for (unsigned i = 0; i < I->arg_size(); ++i) {
            Value* A = I->getArgOperand(i);
            auto l = get(A);
            for (auto* s : l) {
                if (slot < MAXARGS)
                    argSh.push_back({slot, s});
                if (s)
                    anySym = true;
                ++slot;
            }
        }
        bool local = fn && !fn->isDeclaration() && !fn->isInterposable();
        bool isInstrLocal = fn && !fn->isDeclaration();
        (void)local;
        if (slot > MAXARGS)
            slot = MAXARGS;
        // argument shadows
        for (auto& p : argSh)
            B.CreateStore(orNull(p.second), B.CreateConstInBoundsGEP2_32(R.args->getValueType(), R.args, 0, p.first));
        // concrete argument values, needed if the callee is not instrumented (pinning) or for byval
        unsigned s2 = 0;
        for (unsigned i = 0; i < I->arg_size(); ++i) {
            Value* A = I->getArgOperand(i);
            unsigned n = leafCount(A->getType());
            if (n == 1 && s2 < MAXARGS && A->getType()->isPointerTy() && (!isInstrLocal || I->isByValArgument(i)))
                B.CreateStore(conc(B, A), B.CreateConstInBoundsGEP2_32(R.argvals->getValueType(), R.argvals, 0, s2));
            else if (!isInstrLocal)
                for (unsigned k = 0; k < n && s2 + k < MAXARGS; ++k)
                    B.CreateStore(B.getInt64(0), B.CreateConstInBoundsGEP2_32(R.argvals->getValueType(), R.argvals, 0, s2 + k));
            s2 += n;
        }
        Value* instr = B.CreateCall(R.precall, {callee, B.getInt32(slot), site(B), B.getInt32((isInstrLocal ? 1 : 0) | (anySym ? 2 : 0))});
        unsigned rl = leafCount(I->getType());
        if (auto* CI = dyn_cast<CallInst>(I)) {
            if (CI->isMustTailCall())
                return;
            if (rl == 0 || rl > 16)
                return;
            IRBuilder<> A(I->getNextNode());
            Leaves out;
            for (unsigned k = 0; k < rl; ++k)
                out.push_back(A.CreateCall(R.retget, {instr, A.getInt32(k)}));
            sh[I] = out;
        }
        else if (auto* II = dyn_cast<InvokeInst>(I)) {
            if (rl == 0 || rl > 16)
                return;
            BasicBlock* ND = II->getNormalDest();
            // pre-split guarantees a unique predecessor
            IRBuilder<> A(&*ND->getFirstInsertionPt());
            Leaves out;
            for (unsigned k = 0; k < rl; ++k)
                out.push_back(A.CreateCall(R.retget, {instr, A.getInt32(k)}));
            sh[I] = out;
        }
    }

    void visit(Instruction* I) {
        if (auto* x = dyn_cast<BinaryOperator>(I))
            return visitBin(x);
        if (auto* x = dyn_cast<ICmpInst>(I))
            return visitCmp(x);
        if (auto* x = dyn_cast<CastInst>(I))
            return visitCast(x);
        if (auto* x = dyn_cast<SelectInst>(I))
            return visitSelect(x);
        if (auto* x = dyn_cast<GetElementPtrInst>(I))
            return visitGEP(x);
        if (auto* x = dyn_cast<LoadInst>(I))
            return visitLoad(x);
        if (auto* x = dyn_cast<StoreInst>(I))
            return visitStore(x);
        if (auto* x = dyn_cast<CallBase>(I))
            return visitCall(x);
        if (auto* x = dyn_cast<PHINode>(I)) {
            (void)x;
            return;
        }
        if (auto* x = dyn_cast<FreezeInst>(I)) {
            sh[I] = get(x->getOperand(0));
            return;
        }
        if (auto* x = dyn_cast<ExtractValueInst>(I)) {
            auto a = get(x->getAggregateOperand());
            if (!any(a))
                return;
            unsigned i0 = leafIndex(x->getAggregateOperand()->getType(), x->getIndices());
            unsigned n = leafCount(I->getType());
            sh[I] = Leaves(a.begin() + i0, a.begin() + i0 + n);
            return;
        }
        if (auto* x = dyn_cast<InsertValueInst>(I)) {
            auto a = get(x->getAggregateOperand());
            auto v = get(x->getInsertedValueOperand());
            if (!any(a) && !any(v))
                return;
            unsigned i0 = leafIndex(I->getType(), x->getIndices());
            for (unsigned k = 0; k < v.size(); ++k)
                a[i0 + k] = v[k];
            sh[I] = a;
            return;
        }
        if (auto* x = dyn_cast<ExtractElementInst>(I)) {
            auto a = get(x->getVectorOperand());
            if (!any(a))
                return;
            if (auto* C = dyn_cast<ConstantInt>(x->getIndexOperand()))
                sh[I] = {a[C->getZExtValue()]};
            else
                pinOperands(I);
            return;
        }
        if (auto* x = dyn_cast<InsertElementInst>(I)) {
            auto a = get(x->getOperand(0));
            auto v = get(x->getOperand(1));
            if (!any(a) && !any(v))
                return;
            if (auto* C = dyn_cast<ConstantInt>(x->getOperand(2))) {
                a[C->getZExtValue()] = v[0];
                sh[I] = a;
            }
            else
                pinOperands(I);
            return;
        }
        if (auto* x = dyn_cast<ShuffleVectorInst>(I)) {
            auto a = get(x->getOperand(0)), b = get(x->getOperand(1));
            if (!any(a) && !any(b))
                return;
            Leaves out;
            for (int m : x->getShuffleMask())
                out.push_back(m < 0 ? nullptr : (unsigned)m < a.size() ? a[m] : b[m - a.size()]);
            sh[I] = out;
            return;
        }
        if (auto* x = dyn_cast<BranchInst>(I)) {
            if (x->isConditional())
                if (auto* s = get1(x->getCondition())) {
                    IRBuilder<> B(I);
                    B.CreateCall(R.branch, {s, B.CreateZExt(x->getCondition(), B.getInt32Ty()), site(B)});
                }
            return;
        }
        if (auto* x = dyn_cast<SwitchInst>(I)) {
            auto* s = get1(x->getCondition());
            if (!s)
                return;
            IRBuilder<> B(I);
            std::vector<Constant*> cs;
            for (auto& c : x->cases())
                cs.push_back(ConstantInt::get(R.I64, c.getCaseValue()->getZExtValue()));
            auto* AT = ArrayType::get(R.I64, cs.size());
            auto* G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs), "__symcases");
            B.CreateCall(R.switch_, {s, conc(B, x->getCondition()), G, B.getInt32(cs.size()), B.getInt32(bits(x->getCondition()->getType())), site(B)});
            return;
        }
        if (auto* x = dyn_cast<ReturnInst>(I)) {
            if (Value* V = x->getReturnValue()) {
                if (auto* prev = dyn_cast_or_null<CallInst>(I->getPrevNode()))
                    if (prev->isMustTailCall())
                        return;
                auto l = get(V);
                if (l.size() > 16)
                    return;
                IRBuilder<> B(I);
                for (unsigned k = 0; k < l.size(); ++k)
                    B.CreateStore(orNull(l[k]), B.CreateConstInBoundsGEP2_32(R.rets->getValueType(), R.rets, 0, k));
            }
            return;
        }
        if (isa<AllocaInst>(I)) {
            return;
        }
        if (auto* x = dyn_cast<AtomicRMWInst>(I)) {
            IRBuilder<> B(I);
            pinAddr(B, x->getPointerOperand());
            pinAll(B, x->getValOperand());
            B.CreateCall(R.load, {x->getPointerOperand(), B.getInt32(DL.getTypeStoreSize(I->getType()) | 0x1000), B.getInt32(0)});
            B.CreateCall(R.memclear, {x->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(I->getType()))});
            return;
        }
        if (auto* x = dyn_cast<AtomicCmpXchgInst>(I)) {
            IRBuilder<> B(I);
            pinOperands(I);
            uint64_t n = DL.getTypeStoreSize(x->getCompareOperand()->getType());
            B.CreateCall(R.load, {x->getPointerOperand(), B.getInt32(n | 0x1000), B.getInt32(0)});
            B.CreateCall(R.memclear, {x->getPointerOperand(), B.getInt64(n)});
            return;
        }
        if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I))
            return;
        pinOperands(I);
    }

    void run(Function& Fn) {
        F = &Fn;
        sh.clear();
        phis.clear();
        siteN = 0;
        siteBase = (uint32_t)(std::hash<std::string>()(Fn.getName().str()) * 2654435761u) & 0xfffff000u;
        // unique predecessor for invoke normal destinations; split phi edges into invoke dests
        {
            std::vector<InvokeInst*> inv;
            for (auto& BB : Fn)
                if (auto* I = dyn_cast<InvokeInst>(BB.getTerminator()))
                    inv.push_back(I);
            for (auto* I : inv)
                if (!I->getNormalDest()->getSinglePredecessor() || isa<PHINode>(I->getNormalDest()->front())) {
                    auto* NB = BasicBlock::Create(M.getContext(), "invcont", &Fn, I->getNormalDest());
                    BasicBlock* OD = I->getNormalDest();
                    BranchInst::Create(OD, NB);
                    OD->replacePhiUsesWith(I->getParent(), NB);
                    I->setNormalDest(NB);
                }
        }
        // collect first
        std::vector<Instruction*> insts;
        std::vector<AllocaInst*> allocas;
        ReversePostOrderTraversal<Function*>* rpo = nullptr;
        (void)rpo;
        // dominance order: RPO over blocks
        std::vector<BasicBlock*> order;
        {
            std::set<BasicBlock*> seen;
            std::vector<std::pair<BasicBlock*, unsigned>> st;
            std::vector<BasicBlock*> post;
            st.push_back({&Fn.getEntryBlock(), 0});
            seen.insert(&Fn.getEntryBlock());
            while (!st.empty()) {
                auto& [bb, i] = st.back();
                auto* t = bb->getTerminator();
                if (i < t->getNumSuccessors()) {
                    BasicBlock* s = t->getSuccessor(i++);
                    if (seen.insert(s).second)
                        st.push_back({s, 0});
                }
                else {
                    post.push_back(bb);
                    st.pop_back();
                }
            }
            order.assign(post.rbegin(), post.rend());
        }
        for (auto* BB : order)
            for (auto& I : *BB) {
                insts.push_back(&I);
                if (auto* A = dyn_cast<AllocaInst>(&I))
                    allocas.push_back(A);
            }
        // shadow phis
        for (auto* I : insts)
            if (auto* P = dyn_cast<PHINode>(I)) {
                unsigned n = leafCount(P->getType());
                if (!n)
                    continue;
                std::vector<PHINode*> ps;
                Leaves l;
                for (unsigned k = 0; k < n; ++k) {
                    auto* SP = PHINode::Create(R.Ptr, P->getNumIncomingValues(), "symphi", P);
                    ps.push_back(SP);
                    l.push_back(SP);
                }
                sh[P] = l;
                phis.push_back({P, ps});
            }
        // entry
        Instruction* ip = &*Fn.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(ip))
            ip = ip->getNextNode();
        {
            IRBuilder<> B(ip);
            B.SetCurrentDebugLocation(DebugLoc());
            unsigned slot = 0;
            Value* flag = B.CreateCall(R.enter, {&Fn});
            std::vector<std::pair<Argument*, unsigned>> byv;
            for (auto& A : Fn.args()) {
                unsigned n = leafCount(A.getType());
                if (A.hasByValAttr() && slot < MAXARGS)
                    byv.push_back({&A, slot});
                Leaves l;
                for (unsigned k = 0; k < n; ++k, ++slot) {
                    if (slot >= MAXARGS || A.hasStructRetAttr() || A.hasByValAttr() || A.use_empty()) {
                        l.push_back(nullptr);
                        continue;
                    }
                    Value* v = B.CreateLoad(R.Ptr, B.CreateConstInBoundsGEP2_32(R.args->getValueType(), R.args, 0, slot));
                    l.push_back(B.CreateSelect(flag, v, null()));
                }
                sh[&A] = l;
            }
            for (auto& p : byv) {
                Value* src = B.CreateLoad(R.I64, B.CreateConstInBoundsGEP2_32(R.argvals->getValueType(), R.argvals, 0, p.second));
                B.CreateCall(R.bytevalcopy, {B.CreateZExt(flag, B.getInt32Ty()), p.first, src, B.getInt64(DL.getTypeAllocSize(p.first->getParamByValType()))});
            }
            for (auto* A : allocas)
                if (A->getParent() == &Fn.getEntryBlock() && isa<ConstantInt>(A->getArraySize())) {
                    uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType()) * cast<ConstantInt>(A->getArraySize())->getZExtValue();
                    // allocas after ip are not available yet; only clear those before
                    if (A->comesBefore(ip))
                        B.CreateCall(R.memclear, {A, B.getInt64(sz)});
                }
        }
        for (auto* I : insts)
            visit(I);
        for (auto* I : dead)
            I->eraseFromParent();
        dead.clear();
        for (auto& p : phis)
            for (unsigned i = 0; i < p.first->getNumIncomingValues(); ++i) {
                auto l = get(p.first->getIncomingValue(i));
                for (unsigned k = 0; k < p.second.size(); ++k)
                    p.second[k]->addIncoming(orNull(l[k]), p.first->getIncomingBlock(i));
            }
    }
};

struct SymPass : PassInfoMixin<SymPass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        loadRedirects();
        LLVMContext& C = M.getContext();
        Rt R;
        R.Ptr = PointerType::getUnqual(C);
        R.I1 = Type::getInt1Ty(C);
        R.I8 = Type::getInt8Ty(C);
        R.I32 = Type::getInt32Ty(C);
        R.I64 = Type::getInt64Ty(C);
        R.Void = Type::getVoidTy(C);
        auto P = R.Ptr;
        auto I32 = R.I32, I64 = R.I64;
        R.bin = M.getOrInsertFunction("__sym_bin", P, I32, I32, P, I64, P, I64);
        R.cmp = M.getOrInsertFunction("__sym_cmp", P, I32, I32, P, I64, P, I64);
        R.cast = M.getOrInsertFunction("__sym_cast", P, I32, I32, I32, P);
        R.ite = M.getOrInsertFunction("__sym_ite", P, P, I64, P, I64, P, I64, I32);
        R.load = M.getOrInsertFunction("__sym_load", P, P, I32, I32);
        R.store = M.getOrInsertFunction("__sym_store", R.Void, P, I32, I32, P);
        R.branch = M.getOrInsertFunction("__sym_branch", R.Void, P, I32, I32);
        R.switch_ = M.getOrInsertFunction("__sym_switch", R.Void, P, I64, P, I32, I32, I32);
        R.pin = M.getOrInsertFunction("__sym_pin", R.Void, P, I64, I32);
        R.pinaddr = M.getOrInsertFunction("__sym_pinaddr", R.Void, P, I64, I32);
        R.pinbits = M.getOrInsertFunction("__sym_pinbits", R.Void, P, I32);
        R.enter = M.getOrInsertFunction("__sym_enter", R.I1, P);
        R.retget = M.getOrInsertFunction("__sym_retget", P, I32, I32);
        R.precall = M.getOrInsertFunction("__sym_precall", I32, P, I32, I32, I32);
        R.memcpy_ = M.getOrInsertFunction("__sym_memcpy_shadow", R.Void, P, P, I64);
        R.memset_ = M.getOrInsertFunction("__sym_memset_shadow", R.Void, P, P, I64);
        R.rawcopy = M.getOrInsertFunction("__sym_rawcopy", R.Void, P, P, I64);
        R.rawset = M.getOrInsertFunction("__sym_rawset", R.Void, P, Type::getInt8Ty(M.getContext()), I64);
        R.memclear = M.getOrInsertFunction("__sym_memclear", R.Void, P, I64);
        R.bytevalcopy = M.getOrInsertFunction("__sym_byvalcopy", R.Void, I32, P, I64, I64);
        R.intrin1 = M.getOrInsertFunction("__sym_intrin1", P, I32, I32, P);
        auto tls = [&](const char* name, Type* T) {
            auto* G = cast<GlobalVariable>(M.getOrInsertGlobal(name, T));
            G->setThreadLocalMode(GlobalValue::GeneralDynamicTLSModel);
            return G;
        };
        R.args = tls("__sym_args", ArrayType::get(P, MAXARGS));
        R.argvals = tls("__sym_argvals", ArrayType::get(I64, MAXARGS));
        R.rets = tls("__sym_rets", ArrayType::get(P, 16));
        R.args->setThreadLocalMode(GlobalValue::InitialExecTLSModel);
        R.argvals->setThreadLocalMode(GlobalValue::InitialExecTLSModel);
        R.rets->setThreadLocalMode(GlobalValue::InitialExecTLSModel);

        Instrumenter ins(M, R);
        std::vector<Function*> fns;
        for (auto& F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sym_") && !F.hasAvailableExternallyLinkage() &&
                !F.hasFnAttribute(Attribute::Naked))
                fns.push_back(&F);
        // drop available_externally bodies: they are compiled elsewhere
        std::vector<Function*> ext;
        for (auto& F : M)
            if (F.hasAvailableExternallyLinkage())
                ext.push_back(&F);
        for (auto* F : ext) {
            F->deleteBody();
            F->setComdat(nullptr);
            F->setLinkage(GlobalValue::ExternalLinkage);
        }
        for (auto& F : M) {
            F.removeFnAttr(Attribute::Memory);
            F.removeFnAttr(Attribute::Speculatable);
            F.removeFnAttr(Attribute::WillReturn);
            for (auto& A : F.args()) {
                A.removeAttr(Attribute::ReadNone);
                A.removeAttr(Attribute::ReadOnly);
                A.removeAttr(Attribute::WriteOnly);
            }
        }
        for (auto* F : fns)
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    if (isa<IntrinsicInst>(CB))
                        continue;
                    CB->removeFnAttr(Attribute::Memory);
                    CB->removeFnAttr(Attribute::Speculatable);
                }
        for (auto* F : fns)
            ins.run(*F);
        // table of instrumented functions
        std::vector<Constant*> tab;
        for (auto* F : fns)
            if (F->hasName() && !F->hasLocalLinkage() && !F->hasComdat())
                tab.push_back(F);
        // comdat / local functions are referenced too (kept alive by the table only if emitted)
        for (auto* F : fns)
            if (F->hasLocalLinkage() || F->hasComdat())
                tab.push_back(F);
        // section entries must not keep discarded comdats: put entries of comdat functions into the same comdat
        for (auto* c : tab) {
            auto* F = cast<Function>(c);
            auto* G = new GlobalVariable(M, P, false, GlobalValue::PrivateLinkage, F, "__symtab");
            G->setSection("symfuncs");
            if (F->hasComdat())
                G->setComdat(F->getComdat());
            appendToCompilerUsed(M, {G});
        }
        return PreservedAnalyses::none();
    }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
            }};
}
