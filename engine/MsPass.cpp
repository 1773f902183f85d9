// MsPass: LLVM instrumentation pass for dynamic symbolic execution of the real code.
// Every first-class value V gets shadow expression ids (i32, 0 = concrete), one per scalar leaf.
// The native computation is untouched; the runtime (ms_rt.cpp) builds the expression DAG alongside.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include <map>
using namespace llvm;

#include "ms_ops.h"

namespace {
constexpr unsigned MaxLeaves = 32;

struct Inst {
    Module& M; LLVMContext& C; const DataLayout& DL;
    Type *I1, *I8, *I32, *I64, *F64, *Ptr, *Void;
    GlobalVariable *Args, *Ret, *Callee, *ByVal;
    FunctionCallee fEnter, fBin, fFBin, fICmp, fFCmp, fCast, fSelI, fBranch, fPin, fConc, fLoad, fStore, fMemcpy, fMemset, fClear, fFun, fIntr, fByVal, fSwitch, fPost, fBitop, fMemcmp, fHarn;
    std::map<Value*, SmallVector<Value*, 2>> Sh;
    Function* F = nullptr;
    Value* FnName = nullptr;

    explicit Inst(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
        I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        F64 = Type::getDoubleTy(C); Ptr = PointerType::getUnqual(C); Void = Type::getVoidTy(C);
        auto gv = [&](StringRef n, Type* t) {
            auto* g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
            return g; };
        Args = gv("__ms_args", ArrayType::get(I32, 256));
        Ret = gv("__ms_ret", ArrayType::get(I32, 64));
        Callee = gv("__ms_callee", Ptr);
        ByVal = gv("__ms_byval", ArrayType::get(Ptr, 256));
        auto fn = [&](StringRef n, Type* r, ArrayRef<Type*> a) {
            auto fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
            if (auto* f = dyn_cast<Function>(fc.getCallee())) f->setDoesNotThrow();
            return fc; };
        fEnter = fn("__ms_enter", Ptr, {Ptr});
        fByVal = fn("__ms_byval_in", Void, {Ptr, Ptr, Ptr, I64});
        fBin = fn("__ms_bin", I32, {I32, I32, I32, I32, I64, I64, I64});
        fFBin = fn("__ms_fbin", I32, {I32, I32, I32, I32, F64, F64, F64});
        fICmp = fn("__ms_icmp", I32, {I32, I32, I32, I32, I64, I64, I32});
        fFCmp = fn("__ms_fcmp", I32, {I32, I32, I32, I32, F64, F64, I32});
        fCast = fn("__ms_cast", I32, {I32, I32, I32, I32, I64});          // op, fromw, tow, e, resbits
        fSelI = fn("__ms_select", I32, {I32, I32, I32, I32, I32, I64, I64}); // isfp|w, ec,et,ef, c, tbits, fbits
        fBranch = fn("__ms_branch", Void, {I32, I32, Ptr});
        fPin = fn("__ms_pin", Void, {I32, I64, Ptr});
        fConc = fn("__ms_conc", Void, {I32, I64, Ptr, Ptr});
        fLoad = fn("__ms_load", I32, {Ptr, I32, I32, I64});              // addr, bytes, kind, bits
        fStore = fn("__ms_store", Void, {Ptr, I32, I32});
        fMemcpy = fn("__ms_memcpy", Void, {Ptr, Ptr, I64});
        fMemset = fn("__ms_memset", Void, {Ptr, I32, I64});
        fClear = fn("__ms_clear", Void, {Ptr, I64});
        fFun = fn("__ms_fun", I32, {I32, I32, I32, I32, F64, F64, F64, I64}); // fun id, width, ea, eb, a, b, res, ires
        fIntr = fn("__ms_intr", I32, {I32, I32, I32, I32, I32, I64, I64, I64, I64}); // op,w,ea,eb,ec,a,b,c,res
        fSwitch = fn("__ms_switch", Void, {I32, I32, I64, I32, Ptr, Ptr});
        fPost = fn("__ms_post", Void, {Ptr, I32, Ptr, I32});
        fMemcmp = fn("__ms_memcmp", Void, {Ptr, Ptr, I64});
    }

    static bool scal(Type* t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isDoubleTy() || t->isFloatTy(); }
    static unsigned kindW(Type* t) { return t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : t->getIntegerBitWidth(); }

    void leavesRec(Type* t, SmallVectorImpl<Type*>& out) {
        if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) leavesRec(e, out); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { if (a->getNumElements() > MaxLeaves) { for (unsigned i = 0; i <= MaxLeaves; ++i) out.push_back(Ptr); return; } for (uint64_t i = 0; i < a->getNumElements(); ++i) leavesRec(a->getElementType(), out); return; }
        if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) leavesRec(v->getElementType(), out); return; }
        out.push_back(t);
    }
    SmallVector<Type*, 4> leaves(Type* t) { SmallVector<Type*, 4> r; if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return r; leavesRec(t, r); if (r.size() > MaxLeaves) { r.clear(); } return r; }
    unsigned leafOffset(Type* t, ArrayRef<unsigned> idx, Type*& sub) {
        unsigned off = 0; sub = t;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(sub)) { for (unsigned k = 0; k < i; ++k) { SmallVector<Type*, 4> l; leavesRec(s->getElementType(k), l); off += l.size(); } sub = s->getElementType(i); }
            else { Type* et = isa<ArrayType>(sub) ? cast<ArrayType>(sub)->getElementType() : cast<FixedVectorType>(sub)->getElementType(); SmallVector<Type*, 4> l; leavesRec(et, l); off += l.size() * i; sub = et; }
        }
        return off;
    }
    Constant* Z() { return ConstantInt::get(I32, 0); }
    Constant* c32(uint64_t v) { return ConstantInt::get(I32, v); }
    Constant* c64(uint64_t v) { return ConstantInt::get(I64, v); }
    bool isZ(Value* v) { auto* k = dyn_cast<ConstantInt>(v); return k && k->isZero(); }

    SmallVector<Value*, 2> sh(Value* v) {
        auto it = Sh.find(v);
        if (it != Sh.end()) return it->second;
        SmallVector<Value*, 2> r(leaves(v->getType()).size(), Z());
        return r;
    }
    Value* sh1(Value* v) { auto r = sh(v); return r.size() == 1 ? r[0] : (Value*)Z(); }

    // bits of a scalar as i64
    Value* bits(IRBuilder<>& B, Value* v) {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w < 64 ? B.CreateZExt(v, I64) : w > 64 ? B.CreateTrunc(v, I64) : v; }
        return c64(0);
    }
    Value* asF(IRBuilder<>& B, Value* v) { return v->getType()->isFloatTy() ? B.CreateFPExt(v, F64) : v; }
    Value* lane(IRBuilder<>& B, Value* v, unsigned i) { return v->getType()->isVectorTy() ? B.CreateExtractElement(v, (uint64_t)i) : v; }

    void conc(IRBuilder<>& B, Value* e, Value* v, const char* why) {
        if (isZ(e)) return;
        B.CreateCall(fConc, {e, bits(B, v), str(why), FnName});
    }
    StringMap<Value*> strs;
    Value* str(StringRef s) {
        auto& r = strs[s];
        if (!r) {
            auto* cst = ConstantDataArray::getString(C, s);
            auto* g = new GlobalVariable(M, cst->getType(), true, GlobalValue::PrivateLinkage, cst, "__ms_s");
            r = g;
        }
        return r;
    }

    Instruction* after(Instruction* I) {
        if (auto* inv = dyn_cast<InvokeInst>(I)) return &*inv->getNormalDest()->getFirstInsertionPt();
        if (isa<PHINode>(I) || isa<LandingPadInst>(I)) return &*I->getParent()->getFirstInsertionPt();
        return I->getNextNode();
    }

    void run(Function& f) {
        F = &f; Sh.clear();
        FnName = str(f.getName());
        // split invoke normal edges with several predecessors
        SmallVector<InvokeInst*, 8> invs;
        for (auto& BB : f) if (auto* inv = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(inv);
        for (auto* inv : invs) if (!inv->getNormalDest()->getSinglePredecessor()) SplitEdge(inv->getParent(), inv->getNormalDest());

        SmallVector<Instruction*, 64> work; SmallVector<PHINode*, 16> phis;
        ReversePostOrderTraversal<Function*> RPOT(&f);
        for (auto* BB : RPOT) for (auto& I : *BB) work.push_back(&I);

        // arguments
        // the text of messages is written for the value of this run: what is written is not observed, and is not worth a path for each value
        const bool text = f.getName().contains("__formatter_int") || f.getName().contains("__formatter_fp");
        bool anyArg = false; unsigned n = 0;
        for (auto& a : f.args()) for (auto* t : leaves(a.getType())) anyArg |= scal(t);
        IRBuilder<> B(&*f.getEntryBlock().getFirstInsertionPt());
        B.SetCurrentDebugLocation(DebugLoc());
        Value* ap = B.CreateCall(fEnter, {&f});
        if (anyArg) {
            for (auto& a : f.args()) {
                SmallVector<Value*, 2> s;
                for (auto* t : leaves(a.getType())) {
                    if (scal(t) && n < 250 && !text) s.push_back(B.CreateLoad(I32, B.CreateConstInBoundsGEP1_32(I32, ap, n)));
                    else s.push_back(Z());
                    ++n;
                }
                Sh[&a] = s;
            }
        }
        // a structure passed by value is copied by the call itself
        for (auto& a : f.args())
            if (auto* t = a.getParamByValType(); t && a.getArgNo() < 250) B.CreateCall(fByVal, {ap, &a, B.CreateLoad(Ptr, B.CreateConstInBoundsGEP1_32(Ptr, ByVal, a.getArgNo())), c64(DL.getTypeAllocSize(t))});
        for (auto* I : work) visit(*I, phis);
        for (auto* p : phis) {
            auto s = sh(p);
            for (unsigned i = 0; i < s.size(); ++i) {
                auto* sp = dyn_cast<PHINode>(s[i]); if (!sp) continue;
                for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                    auto is = sh(p->getIncomingValue(k));
                    sp->addIncoming(is[i], p->getIncomingBlock(k));
                }
            }
        }
    }

    bool allZ(ArrayRef<Value*> v) { for (auto* x : v) if (!isZ(x)) return false; return true; }

    void visit(Instruction& I, SmallVectorImpl<PHINode*>& phis) {
        if (auto* p = dyn_cast<PHINode>(&I)) {
            auto ls = leaves(p->getType()); SmallVector<Value*, 2> s; bool any = false;
            for (auto* t : ls) {
                if (!scal(t)) { s.push_back(Z()); continue; }
                IRBuilder<> B(p); B.SetCurrentDebugLocation(DebugLoc());
                s.push_back(B.CreatePHI(I32, p->getNumIncomingValues())); any = true;
            }
            Sh[p] = s; if (any) phis.push_back(p);
            return;
        }
        if (auto* b = dyn_cast<BinaryOperator>(&I)) return visitBin(*b);
        if (auto* u = dyn_cast<UnaryOperator>(&I)) return visitUn(*u);
        if (auto* c = dyn_cast<CmpInst>(&I)) return visitCmp(*c);
        if (auto* c = dyn_cast<CastInst>(&I)) return visitCast(*c);
        if (auto* s = dyn_cast<SelectInst>(&I)) return visitSelect(*s);
        if (auto* fz = dyn_cast<FreezeInst>(&I)) { Sh[fz] = sh(fz->getOperand(0)); return; }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            for (auto& ix : g->indices()) if (!ix->getType()->isVectorTy()) { auto* e = sh1(ix); if (!isZ(e)) { IRBuilder<> B(g); B.CreateCall(fPin, {e, bits(B, ix), FnName}); } }
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) return visitLoad(*l);
        if (auto* s = dyn_cast<StoreInst>(&I)) return visitStore(*s);
        if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
            auto s = sh(x->getAggregateOperand()); Type* sub; unsigned off = leafOffset(x->getAggregateOperand()->getType(), x->getIndices(), sub);
            unsigned nn = leaves(x->getType()).size();
            if (s.size() >= off + nn) Sh[x] = SmallVector<Value*, 2>(s.begin() + off, s.begin() + off + nn);
            return;
        }
        if (auto* x = dyn_cast<InsertValueInst>(&I)) {
            auto s = sh(x->getAggregateOperand()); auto v = sh(x->getInsertedValueOperand()); Type* sub;
            unsigned off = leafOffset(x->getType(), x->getIndices(), sub);
            if (s.size() >= off + v.size()) { for (unsigned i = 0; i < v.size(); ++i) s[off + i] = v[i]; Sh[x] = s; }
            return;
        }
        if (auto* x = dyn_cast<ExtractElementInst>(&I)) {
            auto s = sh(x->getVectorOperand());
            if (auto* k = dyn_cast<ConstantInt>(x->getIndexOperand())) { if (k->getZExtValue() < s.size()) Sh[x] = {s[k->getZExtValue()]}; }
            else { IRBuilder<> B(x); conc(B, sh1(x->getIndexOperand()), x->getIndexOperand(), "extractelement"); for (unsigned i = 0; i < s.size(); ++i) conc(B, s[i], lane(B, x->getVectorOperand(), i), "extractelement"); }
            return;
        }
        if (auto* x = dyn_cast<InsertElementInst>(&I)) {
            auto s = sh(x->getOperand(0));
            if (auto* k = dyn_cast<ConstantInt>(x->getOperand(2))) { if (k->getZExtValue() < s.size()) { s[k->getZExtValue()] = sh1(x->getOperand(1)); Sh[x] = s; } }
            else { IRBuilder<> B(x); conc(B, sh1(x->getOperand(1)), x->getOperand(1), "insertelement"); }
            return;
        }
        if (auto* x = dyn_cast<ShuffleVectorInst>(&I)) {
            auto a = sh(x->getOperand(0)), b = sh(x->getOperand(1)); SmallVector<Value*, 2> r;
            for (int m : x->getShuffleMask()) { if (m < 0) r.push_back(Z()); else if ((unsigned)m < a.size()) r.push_back(a[m]); else if ((unsigned)m - a.size() < b.size()) r.push_back(b[m - a.size()]); else r.push_back(Z()); }
            Sh[x] = r; return;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) { auto* e = sh1(br->getCondition()); if (!isZ(e)) { IRBuilder<> B(br); B.CreateCall(fBranch, {e, B.CreateZExt(br->getCondition(), I32), FnName}); } }
            return;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            auto* e = sh1(sw->getCondition());
            if (!isZ(e)) {
                IRBuilder<> B(sw); SmallVector<uint64_t, 8> vals;
                for (auto& cs : sw->cases()) vals.push_back(cs.getCaseValue()->getZExtValue());
                auto* cst = ConstantDataArray::get(C, vals);
                auto* g = new GlobalVariable(M, cst->getType(), true, GlobalValue::PrivateLinkage, cst, "__ms_sw");
                B.CreateCall(fSwitch, {e, c32(kindW(sw->getCondition()->getType())), bits(B, sw->getCondition()), c32(vals.size()), g, FnName});
            }
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&I)) {
            if (auto* v = r->getReturnValue()) {
                auto s = sh(v); IRBuilder<> B(r);
                for (unsigned i = 0; i < s.size(); ++i) B.CreateStore(s[i], B.CreateConstInBoundsGEP1_32(I32, Ret, i));
            }
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(&I)) return visitCall(*cb);
        if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
            Value* p = isa<AtomicRMWInst>(&I) ? cast<AtomicRMWInst>(I).getPointerOperand() : cast<AtomicCmpXchgInst>(I).getPointerOperand();
            IRBuilder<> B(&I); B.CreateCall(fClear, {p, c64(8)});
            return;
        }
    }

    void visitBin(BinaryOperator& b) {
        auto a = sh(b.getOperand(0)), c = sh(b.getOperand(1));
        if (allZ(a) && allZ(c)) return;
        auto ls = leaves(b.getType()); if (ls.empty()) return;
        IRBuilder<> B(after(&b)); SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < ls.size(); ++i) {
            if (isZ(a[i]) && isZ(c[i])) { r.push_back(Z()); continue; }
            Value *x = lane(B, b.getOperand(0), i), *y = lane(B, b.getOperand(1), i), *z = lane(B, &b, i);
            if (!scal(ls[i])) { conc(B, a[i], x, "bin"); conc(B, c[i], y, "bin"); r.push_back(Z()); continue; }
            unsigned w = kindW(ls[i]);
            if (ls[i]->isFloatingPointTy()) {
                unsigned op = 0;
                switch (b.getOpcode()) { case Instruction::FAdd: op = OP_FADD; break; case Instruction::FSub: op = OP_FSUB; break; case Instruction::FMul: op = OP_FMUL; break; case Instruction::FDiv: op = OP_FDIV; break; default: op = OP_FREM; }
                r.push_back(B.CreateCall(fFBin, {c32(op), c32(w), a[i], c[i], asF(B, x), asF(B, y), asF(B, z)}));
            } else {
                unsigned op = 0;
                switch (b.getOpcode()) {
                case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break;
                case Instruction::UDiv: op = OP_UDIV; break; case Instruction::SDiv: op = OP_SDIV; break; case Instruction::URem: op = OP_UREM; break; case Instruction::SRem: op = OP_SREM; break;
                case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
                case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; default: op = OP_XOR; break; }
                r.push_back(B.CreateCall(fBin, {c32(op), c32(w), a[i], c[i], bits(B, x), bits(B, y), bits(B, z)}));
            }
        }
        Sh[&b] = r;
    }
    void visitUn(UnaryOperator& u) { // fneg
        auto a = sh(u.getOperand(0)); if (allZ(a)) return;
        auto ls = leaves(u.getType()); IRBuilder<> B(after(&u)); SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < ls.size(); ++i) {
            if (isZ(a[i]) || !scal(ls[i])) { r.push_back(Z()); continue; }
            Value *x = lane(B, u.getOperand(0), i), *z = lane(B, &u, i);
            r.push_back(B.CreateCall(fFun, {c32(FN_NEG), c32(kindW(ls[i])), a[i], Z(), asF(B, x), ConstantFP::get(F64, 0.0), asF(B, z), c64(0)}));
        }
        Sh[&u] = r;
    }
    void visitCmp(CmpInst& c) {
        auto a = sh(c.getOperand(0)), b = sh(c.getOperand(1));
        if (allZ(a) && allZ(b)) return;
        auto ls = leaves(c.getOperand(0)->getType()); IRBuilder<> B(after(&c)); SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < ls.size(); ++i) {
            if (isZ(a[i]) && isZ(b[i])) { r.push_back(Z()); continue; }
            Value *x = lane(B, c.getOperand(0), i), *y = lane(B, c.getOperand(1), i), *z = B.CreateZExt(lane(B, &c, i), I32);
            if (!scal(ls[i])) { conc(B, a[i], x, "cmp"); conc(B, b[i], y, "cmp"); r.push_back(Z()); continue; }
            if (ls[i]->isFloatingPointTy()) r.push_back(B.CreateCall(fFCmp, {c32(c.getPredicate()), c32(kindW(ls[i])), a[i], b[i], asF(B, x), asF(B, y), z}));
            else {
                unsigned op = 0;
                switch (c.getPredicate()) { case CmpInst::ICMP_EQ: op = OP_EQ; break; case CmpInst::ICMP_NE: op = OP_NE; break; case CmpInst::ICMP_UGT: op = OP_UGT; break; case CmpInst::ICMP_UGE: op = OP_UGE; break; case CmpInst::ICMP_ULT: op = OP_ULT; break; case CmpInst::ICMP_ULE: op = OP_ULE; break; case CmpInst::ICMP_SGT: op = OP_SGT; break; case CmpInst::ICMP_SGE: op = OP_SGE; break; case CmpInst::ICMP_SLT: op = OP_SLT; break; default: op = OP_SLE; break; }
                r.push_back(B.CreateCall(fICmp, {c32(op), c32(kindW(ls[i])), a[i], b[i], bits(B, x), bits(B, y), z}));
            }
        }
        Sh[&c] = r;
    }
    void visitCast(CastInst& c) {
        auto a = sh(c.getOperand(0)); if (allZ(a)) return;
        auto sl = leaves(c.getSrcTy()), dl = leaves(c.getDestTy());
        IRBuilder<> B(after(&c));
        if (sl.size() != dl.size()) { for (unsigned i = 0; i < sl.size(); ++i) conc(B, a[i], lane(B, c.getOperand(0), i), "bitcast-shape"); return; }
        SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < sl.size(); ++i) {
            if (isZ(a[i])) { r.push_back(Z()); continue; }
            Value *x = lane(B, c.getOperand(0), i), *z = lane(B, &c, i);
            if (!scal(dl[i])) {
                if (c.getOpcode() == Instruction::IntToPtr) B.CreateCall(fPin, {a[i], bits(B, x), FnName});
                else conc(B, a[i], x, "cast");
                r.push_back(Z()); continue;
            }
            unsigned op = 0;
            switch (c.getOpcode()) { case Instruction::ZExt: op = OP_ZEXT; break; case Instruction::SExt: op = OP_SEXT; break; case Instruction::Trunc: op = OP_TRUNC; break;
            case Instruction::FPToSI: op = OP_FPTOSI; break; case Instruction::FPToUI: op = OP_FPTOUI; break; case Instruction::SIToFP: op = OP_SITOFP; break; case Instruction::UIToFP: op = OP_UITOFP; break;
            case Instruction::FPExt: op = OP_FPEXT; break; case Instruction::FPTrunc: op = OP_FPTRUNC; break;
            case Instruction::BitCast: op = sl[i]->isFloatingPointTy() == dl[i]->isFloatingPointTy() ? 0 : sl[i]->isFloatingPointTy() ? OP_BITS : OP_FBITS; break;
            default: op = 0; }
            if (op == 0) { r.push_back(a[i]); continue; }
            r.push_back(B.CreateCall(fCast, {c32(op), c32(kindW(sl[i])), c32(kindW(dl[i])), a[i], bits(B, z)}));
        }
        Sh[&c] = r;
    }
    void visitSelect(SelectInst& s) {
        auto c = sh(s.getCondition()), t = sh(s.getTrueValue()), f = sh(s.getFalseValue());
        if (allZ(c) && allZ(t) && allZ(f)) return;
        auto ls = leaves(s.getType()); IRBuilder<> B(after(&s)); SmallVector<Value*, 2> r;
        bool vecCond = s.getCondition()->getType()->isVectorTy();
        bool fork = false;
        for (auto* l : ls) if (!scal(l)) fork = true;
        if (!vecCond && fork && !isZ(c[0])) { B.CreateCall(fBranch, {c[0], B.CreateZExt(s.getCondition(), I32), FnName}); }
        for (unsigned i = 0; i < ls.size(); ++i) {
            Value* ci = vecCond ? c[i] : c[0]; Value* cv = vecCond ? lane(B, s.getCondition(), i) : s.getCondition();
            if (!scal(ls[i])) { r.push_back(Z()); continue; }
            if (isZ(ci) || (fork && !vecCond)) { r.push_back(B.CreateSelect(cv, t[i], f[i])); continue; }
            // leaf values for aggregates with symbolic condition would need extraction; only scalars/vectors get here
            if (s.getType()->isAggregateType()) { r.push_back(Z()); continue; }
            Value *tv = lane(B, s.getTrueValue(), i), *fv = lane(B, s.getFalseValue(), i);
            unsigned k = kindW(ls[i]) | (ls[i]->isFloatingPointTy() ? 0x100 : 0);
            r.push_back(B.CreateCall(fSelI, {c32(k), ci, t[i], f[i], B.CreateZExt(cv, I32), bits(B, tv), bits(B, fv)}));
        }
        if (s.getType()->isAggregateType() && !allZ(c) && !fork) { B.CreateCall(fBranch, {c[0], B.CreateZExt(s.getCondition(), I32), FnName}); r.clear(); for (unsigned i = 0; i < ls.size(); ++i) r.push_back(B.CreateSelect(s.getCondition(), t[i], f[i])); }
        Sh[&s] = r;
    }
    void memLeaves(Type* t, uint64_t off, SmallVectorImpl<std::pair<Type*, uint64_t>>& out) {
        if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) memLeaves(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements() && i <= MaxLeaves; ++i) memLeaves(a->getElementType(), off + i * sz, out); return; }
        if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL.getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) memLeaves(v->getElementType(), off + i * sz, out); return; }
        out.push_back({t, off});
    }
    Value* aggLeaf(IRBuilder<>& B, Value* v, unsigned i) { // native scalar of leaf i
        Type* t = v->getType();
        if (t->isVectorTy()) return lane(B, v, i);
        if (!t->isAggregateType()) return v;
        // walk
        unsigned k = i; Value* cur = v;
        while (cur->getType()->isAggregateType() || cur->getType()->isVectorTy()) {
            if (cur->getType()->isVectorTy()) return B.CreateExtractElement(cur, (uint64_t)k);
            unsigned n = isa<StructType>(cur->getType()) ? cast<StructType>(cur->getType())->getNumElements() : cast<ArrayType>(cur->getType())->getNumElements();
            unsigned e = 0;
            for (; e < n; ++e) {
                Type* et = isa<StructType>(cur->getType()) ? cast<StructType>(cur->getType())->getElementType(e) : cast<ArrayType>(cur->getType())->getElementType();
                SmallVector<Type*, 4> l; leavesRec(et, l);
                if (k < l.size()) break; k -= l.size();
            }
            cur = B.CreateExtractValue(cur, e);
        }
        return cur;
    }
    void visitLoad(LoadInst& l) {
        SmallVector<std::pair<Type*, uint64_t>, 4> ml; memLeaves(l.getType(), 0, ml);
        if (ml.size() > MaxLeaves) return;
        IRBuilder<> B(after(&l)); SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < ml.size(); ++i) {
            auto [t, off] = ml[i];
            if (t->isPointerTy() || !scal(t)) { r.push_back(Z()); continue; }
            Value* p = off ? B.CreateConstInBoundsGEP1_64(I8, l.getPointerOperand(), off) : l.getPointerOperand();
            unsigned sz = DL.getTypeStoreSize(t);
            unsigned k = t->isIntegerTy() ? t->getIntegerBitWidth() : (t->isDoubleTy() ? 0x140 : 0x120);
            r.push_back(B.CreateCall(fLoad, {p, c32(sz), c32(k), bits(B, aggLeaf(B, &l, i))}));
        }
        Sh[&l] = r;
    }
    void visitStore(StoreInst& s) {
        Value* v = s.getValueOperand(); SmallVector<std::pair<Type*, uint64_t>, 4> ml; memLeaves(v->getType(), 0, ml);
        IRBuilder<> B(after(&s));
        if (ml.size() > MaxLeaves) { B.CreateCall(fClear, {s.getPointerOperand(), c64(DL.getTypeStoreSize(v->getType()))}); return; }
        auto e = sh(v);
        for (unsigned i = 0; i < ml.size(); ++i) {
            auto [t, off] = ml[i];
            Value* p = off ? B.CreateConstInBoundsGEP1_64(I8, s.getPointerOperand(), off) : s.getPointerOperand();
            B.CreateCall(fStore, {p, c32(DL.getTypeStoreSize(t)), (scal(t) && i < e.size()) ? e[i] : (Value*)Z()});
        }
    }

    int libm(StringRef n, unsigned& nargs) {
        static const std::map<std::string, std::pair<int, int>> T = {
            {"sqrt", {FN_SQRT, 1}}, {"fabs", {FN_ABS, 1}}, {"floor", {FN_FLOOR, 1}}, {"ceil", {FN_CEIL, 1}}, {"trunc", {FN_TRUNC, 1}}, {"round", {FN_ROUND, 1}}, {"rint", {FN_RINT, 1}}, {"nearbyint", {FN_RINT, 1}},
            {"sin", {FN_SIN, 1}}, {"cos", {FN_COS, 1}}, {"tan", {FN_TAN, 1}}, {"asin", {FN_ASIN, 1}}, {"acos", {FN_ACOS, 1}}, {"atan", {FN_ATAN, 1}}, {"atan2", {FN_ATAN2, 2}}, {"exp", {FN_EXP, 1}}, {"log", {FN_LOG, 1}}, {"pow", {FN_POW, 2}},
            {"hypot", {FN_HYPOT, 2}}, {"fmod", {FN_FMOD, 2}}, {"fmin", {FN_MIN, 2}}, {"fmax", {FN_MAX, 2}}, {"copysign", {FN_COPYSIGN, 2}}, {"sinh", {FN_SINH, 1}}, {"cosh", {FN_COSH, 1}}, {"tanh", {FN_TANH, 1}}, {"log10", {FN_LOG10, 1}}, {"log2", {FN_LOG2, 1}}, {"asinh", {FN_ASINH, 1}}, {"exp2", {FN_EXP2, 1}}, {"cbrt", {FN_CBRT, 1}}};
        auto it = T.find(n.str()); if (it == T.end()) return -1; nargs = it->second.second; return it->second.first;
    }
    Value* fun(IRBuilder<>& B, int id, unsigned w, Value* ea, Value* eb, Value* a, Value* b, Value* res) {
        return B.CreateCall(fFun, {c32(id), c32(w), ea, eb, asF(B, a), b ? asF(B, b) : (Value*)ConstantFP::get(F64, 0.0), asF(B, res), c64(0)});
    }

    void visitIntrinsic(IntrinsicInst& I) {
        switch (I.getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            IRBuilder<> B(&I); auto* el = sh1(I.getArgOperand(2)); if (!isZ(el)) B.CreateCall(fPin, {el, bits(B, I.getArgOperand(2)), FnName});
            B.CreateCall(fMemcpy, {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)}); return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            IRBuilder<> B(&I); auto* el = sh1(I.getArgOperand(2)); if (!isZ(el)) B.CreateCall(fPin, {el, bits(B, I.getArgOperand(2)), FnName});
            B.CreateCall(fMemset, {I.getArgOperand(0), sh1(I.getArgOperand(1)), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)}); return; }
        case Intrinsic::lifetime_start: {
            IRBuilder<> B(after(&I)); auto* k = cast<ConstantInt>(I.getArgOperand(0)); if (k->getSExtValue() > 0) B.CreateCall(fClear, {I.getArgOperand(1), c64(k->getZExtValue())}); return; }
        case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::is_constant:
            return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: Sh[&I] = sh(I.getArgOperand(0)); return;
        default: break;
        }
        bool any = false; for (auto& a : I.args()) if (!allZ(sh(a))) any = true;
        if (!any) return;
        IRBuilder<> B(after(&I));
        auto ls = leaves(I.getType());
        unsigned nargs = 0; int id = -1;
        switch (I.getIntrinsicID()) {
        case Intrinsic::fabs: id = FN_ABS; nargs = 1; break; case Intrinsic::sqrt: id = FN_SQRT; nargs = 1; break; case Intrinsic::floor: id = FN_FLOOR; nargs = 1; break; case Intrinsic::ceil: id = FN_CEIL; nargs = 1; break;
        case Intrinsic::trunc: id = FN_TRUNC; nargs = 1; break; case Intrinsic::round: id = FN_ROUND; nargs = 1; break; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: id = FN_RINT; nargs = 1; break;
        case Intrinsic::sin: id = FN_SIN; nargs = 1; break; case Intrinsic::cos: id = FN_COS; nargs = 1; break; case Intrinsic::exp: id = FN_EXP; nargs = 1; break; case Intrinsic::log: id = FN_LOG; nargs = 1; break; case Intrinsic::log2: id = FN_LOG2; nargs = 1; break; case Intrinsic::log10: id = FN_LOG10; nargs = 1; break; case Intrinsic::exp2: id = FN_EXP2; nargs = 1; break; case Intrinsic::pow: id = FN_POW; nargs = 2; break;
        case Intrinsic::minnum: id = FN_MIN; nargs = 2; break; case Intrinsic::maxnum: id = FN_MAX; nargs = 2; break; case Intrinsic::copysign: id = FN_COPYSIGN; nargs = 2; break;
        default: break; }
        if (id >= 0) {
            SmallVector<Value*, 2> r; auto a = sh(I.getArgOperand(0)); auto b = nargs == 2 ? sh(I.getArgOperand(1)) : SmallVector<Value*, 2>(a.size(), Z());
            for (unsigned i = 0; i < ls.size(); ++i) {
                if ((isZ(a[i]) && isZ(b[i])) || !scal(ls[i])) { r.push_back(Z()); continue; }
                r.push_back(fun(B, id, kindW(ls[i]), a[i], b[i], lane(B, I.getArgOperand(0), i), nargs == 2 ? lane(B, I.getArgOperand(1), i) : nullptr, lane(B, &I, i)));
            }
            Sh[&I] = r; return;
        }
        if (I.getIntrinsicID() == Intrinsic::powi) {
            conc(B, sh1(I.getArgOperand(1)), I.getArgOperand(1), "powi");
            if (auto* k = dyn_cast<ConstantInt>(I.getArgOperand(1)); k && k->getSExtValue() == 2 && ls.size() == 1) {
                auto* a = sh1(I.getArgOperand(0)); Value* x = I.getArgOperand(0);
                Sh[&I] = {B.CreateCall(fFBin, {c32(OP_FMUL), c32(kindW(ls[0])), a, a, asF(B, x), asF(B, x), asF(B, &I)})}; return;
            }
            conc(B, sh1(I.getArgOperand(0)), I.getArgOperand(0), "powi"); return;
        }
        if (I.getIntrinsicID() == Intrinsic::is_fpclass && ls.size() == 1) {
            auto* a = sh1(I.getArgOperand(0)); Value* x = I.getArgOperand(0);
            auto mask = cast<ConstantInt>(I.getArgOperand(1))->getZExtValue();
            if (!isZ(a)) Sh[&I] = {B.CreateCall(fIntr, {c32(IN_FPCLASS), c32(kindW(x->getType())), a, Z(), Z(), bits(B, x), c64(mask), c64(0), bits(B, &I)})};
            return;
        }
        int op = -1;
        switch (I.getIntrinsicID()) {
        case Intrinsic::smin: op = IN_SMIN; break; case Intrinsic::smax: op = IN_SMAX; break; case Intrinsic::umin: op = IN_UMIN; break; case Intrinsic::umax: op = IN_UMAX; break; case Intrinsic::abs: op = IN_ABS; break;
        case Intrinsic::usub_sat: op = IN_USUBSAT; break; case Intrinsic::uadd_sat: op = IN_UADDSAT; break;
        default: break; }
        if (op >= 0 && scal(I.getType())) {
            Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
            Sh[&I] = {B.CreateCall(fIntr, {c32(op), c32(kindW(I.getType())), sh1(a), op == IN_ABS ? Z() : sh1(b), Z(), bits(B, a), op == IN_ABS ? (Value*)c64(0) : bits(B, b), c64(0), bits(B, &I)})};
            return;
        }
        int base = -1, ov = -1;
        switch (I.getIntrinsicID()) {
        case Intrinsic::uadd_with_overflow: base = OP_ADD; ov = IN_UADDO; break; case Intrinsic::usub_with_overflow: base = OP_SUB; ov = IN_USUBO; break; case Intrinsic::umul_with_overflow: base = OP_MUL; ov = IN_UMULO; break;
        case Intrinsic::sadd_with_overflow: base = OP_ADD; ov = IN_SADDO; break; case Intrinsic::ssub_with_overflow: base = OP_SUB; ov = IN_SSUBO; break; case Intrinsic::smul_with_overflow: base = OP_MUL; ov = IN_SMULO; break;
        default: break; }
        if (base >= 0 && scal(I.getArgOperand(0)->getType())) {
            Value *a = I.getArgOperand(0), *b = I.getArgOperand(1); unsigned w = kindW(a->getType());
            Value* v0 = B.CreateExtractValue(&I, 0); Value* v1 = B.CreateExtractValue(&I, 1);
            Value* r0 = B.CreateCall(fBin, {c32(base), c32(w), sh1(a), sh1(b), bits(B, a), bits(B, b), bits(B, v0)});
            Value* r1 = B.CreateCall(fIntr, {c32(ov), c32(w), sh1(a), sh1(b), Z(), bits(B, a), bits(B, b), c64(0), bits(B, v1)});
            Sh[&I] = {r0, r1}; return;
        }
        // everything else: concretise the operands
        IRBuilder<> B2(&I);
        for (auto& a : I.args()) { auto s = sh(a); for (unsigned i = 0; i < s.size(); ++i) if (!isZ(s[i])) conc(B2, s[i], aggLeaf(B2, a, i), "intrinsic"); }
    }

    void visitCall(CallBase& cb) {
        if (auto* ii = dyn_cast<IntrinsicInst>(&cb)) return visitIntrinsic(*ii);
        if (cb.isInlineAsm()) {
            IRBuilder<> B(&cb); for (auto& a : cb.args()) { auto s = sh(a); for (unsigned i = 0; i < s.size(); ++i) if (!isZ(s[i])) conc(B, s[i], aggLeaf(B, a, i), "asm"); }
            return;
        }
        Function* callee = cb.getCalledFunction();
        StringRef name = callee ? callee->getName() : "";
        if (callee && callee->isDeclaration()) {
            unsigned na; int id = libm(name, na);
            if (id >= 0 && cb.getType()->isDoubleTy()) {
                auto* a = sh1(cb.getArgOperand(0)); auto* b = na == 2 ? sh1(cb.getArgOperand(1)) : (Value*)Z();
                if (isZ(a) && isZ(b)) return;
                IRBuilder<> B(after(&cb));
                Sh[&cb] = {fun(B, id, 64, a, b, cb.getArgOperand(0), na == 2 ? cb.getArgOperand(1) : nullptr, &cb)};
                return;
            }
            if (name == "memcpy" || name == "memmove") { IRBuilder<> B(&cb); B.CreateCall(fMemcpy, {cb.getArgOperand(0), cb.getArgOperand(1), cb.getArgOperand(2)}); return; }
            if (name == "memset") { IRBuilder<> B(&cb); B.CreateCall(fMemset, {cb.getArgOperand(0), Z(), cb.getArgOperand(2)}); return; }
            if (name == "memcmp" || name == "bcmp") { IRBuilder<> B(&cb); auto* el = sh1(cb.getArgOperand(2)); if (!isZ(el)) B.CreateCall(fPin, {el, bits(B, cb.getArgOperand(2)), FnName}); B.CreateCall(fMemcmp, {cb.getArgOperand(0), cb.getArgOperand(1), cb.getArgOperand(2)}); return; }
            if (name == "_Znwm" || name == "_Znam" || name == "malloc" || name == "_ZnwmSt11align_val_t" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t") {
                IRBuilder<> B0(&cb); auto* el = sh1(cb.getArgOperand(0)); if (!isZ(el)) B0.CreateCall(fPin, {el, bits(B0, cb.getArgOperand(0)), FnName});
                IRBuilder<> B(after(&cb)); B.CreateCall(fClear, {&cb, cb.getArgOperand(0)}); return; }
            if (name == "calloc") { IRBuilder<> B(after(&cb)); B.CreateCall(fClear, {&cb, B.CreateMul(cb.getArgOperand(0), cb.getArgOperand(1))}); return; }
            if (name.starts_with("__cxa_") || name.starts_with("_ZdlPv") || name.starts_with("_ZdaPv") || name == "free" || name.starts_with("__ms_")) return;
        }
        if (isa<FunctionType>(cb.getFunctionType()) && cb.isMustTailCall()) return;
        // pass shadows
        IRBuilder<> B(&cb);
        bool any = false; unsigned n = 0; Value* orAll = nullptr;
        for (auto& a : cb.args()) {
            auto ls = leaves(a->getType()); auto s = sh(a);
            for (unsigned i = 0; i < ls.size(); ++i) {
                if (scal(ls[i]) && n < 250) {
                    B.CreateStore(s[i], B.CreateConstInBoundsGEP1_32(I32, Args, n)); any = true;
                    if (!isZ(s[i])) orAll = orAll ? B.CreateOr(orAll, s[i]) : s[i];
                }
                ++n;
            }
        }
        Value* cv = cb.getCalledOperand();
        for (unsigned i = 0; i < cb.arg_size() && i < 250; ++i) if (cb.isByValArgument(i)) B.CreateStore(cb.getArgOperand(i), B.CreateConstInBoundsGEP1_32(Ptr, ByVal, i));
        B.CreateStore(cv, Callee);
        auto rl = leaves(cb.getType());
        for (unsigned i = 0; i < rl.size() && i < 60; ++i) B.CreateStore(Z(), B.CreateConstInBoundsGEP1_32(I32, Ret, i));
        (void)any;
        if (cb.doesNotReturn() && !isa<InvokeInst>(cb)) return;
        if (cb.getNextNode() == nullptr && !isa<InvokeInst>(cb)) return;
        IRBuilder<> A(after(&cb));
        SmallVector<Value*, 2> r;
        for (unsigned i = 0; i < rl.size(); ++i) {
            if (scal(rl[i]) && i < 60) r.push_back(A.CreateLoad(I32, A.CreateConstInBoundsGEP1_32(I32, Ret, i))); else r.push_back(Z());
        }
        if (!r.empty()) Sh[&cb] = r;
        // a callee that did not take the shadows was not instrumented: the symbolic arguments were concretised
        if (orAll && (!callee || callee->isDeclaration())) A.CreateCall(fPost, {cv, orAll, callee ? str(name) : str("indirect"), c32(n < 250 ? n : 250)});
    }
};

struct MsPass : PassInfoMixin<MsPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        SmallVector<Function*, 64> fs;
        for (auto& f : M) if (!f.isDeclaration() && !f.getName().starts_with("__ms_") && !f.getName().starts_with("_GLOBAL__") && !f.getName().starts_with("__cxx_global") && !f.hasAvailableExternallyLinkage()) fs.push_back(&f);
        Inst in(M);
        for (auto* f : fs) in.run(*f);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "MsPass", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(MsPass()); });
            }};
}
