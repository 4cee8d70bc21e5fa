// Compiles an LLVM module into a compact register code for the symbolic executor.
#pragma once
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/DebugInfoMetadata.h>

struct Val { u64 c; X e; };
static inline Val V(u64 c) { return Val{c, nullptr}; }

enum Op : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FCONV, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_EXTRACTV, I_INSERTV, I_UNREACH, I_LPAD, I_RESUME, I_UNSUP, I_CMPXCHG, I_RMW };

struct Slot { u32 off; u8 w; };             // scalar leaf of a (possibly aggregate) type: byte offset, bit width
struct PhiCopy { int dst, src, n; };
struct Edge { u32 target; std::vector<PhiCopy> phis; };
struct GepIdx { int r; u8 w; i64 scale; };
struct Fn;
struct Inst {
  u8 op, sub, w, w2; int dst = -1, a = 0, b = 0, c = 0; u64 imm = 0; u32 n = 1;
  std::vector<Slot> *slots = nullptr; std::vector<GepIdx> *idx = nullptr; std::vector<int> *args = nullptr; std::vector<u8> *argn = nullptr;
  std::vector<std::pair<u64, u32>> *cases = nullptr; Fn *callee = nullptr; int e1 = -1, e2 = -1; // edges (invoke: normal/unwind)
  const llvm::Instruction *I = nullptr; std::vector<std::pair<int, u64>> *clauses = nullptr; // lpad: kind(0 catch,1 filter), ti addr
};
struct Engine; struct State;
typedef bool (*Native)(Engine &, State &, const Inst &, std::vector<Val> &, Val &);
struct Fn { std::string name; const llvm::Function *F = nullptr; bool def = false; u32 nregs = 0; std::vector<Inst> code; std::vector<Edge> edges; std::vector<int> params; std::vector<u8> paramn; Native nat = nullptr; u64 addr = 0; bool vararg = false; bool seen = false; u32 retn = 0; };

struct Program {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout *DL;
  std::unordered_map<const llvm::Function *, Fn *> fns; std::unordered_map<u64, Fn *> byAddr; std::unordered_map<std::string, Fn *> byName;
  std::vector<Val> consts; std::unordered_map<const llvm::Constant *, int> constIdx;
  std::unordered_map<const llvm::GlobalValue *, u64> gaddr; 
  u64 nextFnAddr = 0x7f0000000000ULL;

  unsigned width(llvm::Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; return 0;
  }
  bool flatten(llvm::Type *T, u64 off, std::vector<Slot> &o) {
    if (auto *S = llvm::dyn_cast<llvm::StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) if (!flatten(S->getElementType(i), off + L->getElementOffset(i), o)) return false; return true; }
    if (auto *A = llvm::dyn_cast<llvm::ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); if (A->getNumElements() > 64) return false; for (u64 i = 0; i < A->getNumElements(); i++) if (!flatten(A->getElementType(), off + i * es, o)) return false; return true; }
    if (auto *A = llvm::dyn_cast<llvm::FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) if (!flatten(A->getElementType(), off + i * es, o)) return false; return true; }
    unsigned w = width(T); if (!w || w > 64) return false; o.push_back({(u32)off, (u8)w}); return true;
  }
  u32 nslots(llvm::Type *T) { if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy()) return 0; std::vector<Slot> s; if (!flatten(T, 0, s)) return 0; return s.size(); }

  // constant -> bytes/scalars
  bool cval(const llvm::Constant *K, u64 &out) {
    using namespace llvm;
    if (auto *CI = dyn_cast<ConstantInt>(K)) { if (CI->getBitWidth() > 64) return false; out = CI->getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(K)) { out = 0; return true; }
    if (isa<UndefValue>(K)) { out = 0; return true; }
    if (auto *CF = dyn_cast<ConstantFP>(K)) { out = CF->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
    if (auto *GV = dyn_cast<GlobalValue>(K)) { auto it = gaddr.find(GV); if (it == gaddr.end()) { if (auto *GA = dyn_cast<GlobalAlias>(GV)) return cval(GA->getAliasee(), out); return false; } out = it->second; return true; }
    if (auto *CE = dyn_cast<ConstantExpr>(K)) {
      switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: { auto *G = cast<GEPOperator>(CE); APInt off(64, 0); u64 b; if (!G->accumulateConstantOffset(*DL, off) || !cval(cast<Constant>(G->getPointerOperand()), b)) return false; out = b + off.getSExtValue(); return true; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return cval(CE->getOperand(0), out);
        case Instruction::Trunc: { u64 v; if (!cval(CE->getOperand(0), v)) return false; out = v & maskw(width(CE->getType())); return true; }
        case Instruction::Add: case Instruction::Sub: { u64 a, b; if (!cval(CE->getOperand(0), a) || !cval(CE->getOperand(1), b)) return false; out = (CE->getOpcode() == Instruction::Add ? a + b : a - b) & maskw(width(CE->getType())); return true; }
        default: return false;
      }
    }
    return false;
  }
  bool cflat(const llvm::Constant *K, std::vector<u64> &o) {
    using namespace llvm; Type *T = K->getType();
    if (width(T)) { u64 v; if (!cval(K, v)) return false; o.push_back(v); return true; }
    if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { u32 n = nslots(T); for (u32 i = 0; i < n; i++) o.push_back(0); return true; }
    if (auto *A = dyn_cast<ConstantAggregate>(K)) { for (unsigned i = 0; i < A->getNumOperands(); i++) if (!cflat(A->getOperand(i), o)) return false; return true; }
    if (auto *D = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < D->getNumElements(); i++) if (!cflat(D->getElementAsConstant(i), o)) return false; return true; }
    return false;
  }
  void initBytes(const llvm::Constant *K, u8 *d, u64 off) {
    using namespace llvm; Type *T = K->getType();
    if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) return;
    if (auto *S = dyn_cast<ConstantStruct>(K)) { auto *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), d, off + L->getElementOffset(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(K)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), d, off + i * es); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(K)) { if (D->getElementType()->isIntegerTy(8)) { memcpy(d + off, D->getRawDataValues().data(), D->getNumElements()); return; } u64 es = D->getElementByteSize(); for (unsigned i = 0; i < D->getNumElements(); i++) initBytes(D->getElementAsConstant(i), d, off + i * es); return; }
    u64 v; if (!cval(K, v)) { std::string s; raw_string_ostream os(s); K->print(os); fprintf(stderr, "warning: unsupported global initialiser %s\n", os.str().substr(0, 200).c_str()); return; }
    memcpy(d + off, &v, (DL->getTypeStoreSize(T)));
  }

  Fn *getFn(const llvm::Function *F) {
    auto it = fns.find(F); if (it != fns.end()) return it->second;
    Fn *f = new Fn(); f->F = F; f->name = F->getName().str(); f->def = !F->isDeclaration(); f->vararg = F->isVarArg(); f->addr = nextFnAddr; nextFnAddr += 16; f->retn = nslots(F->getReturnType());
    fns[F] = f; byAddr[f->addr] = f; byName[f->name] = f; gaddr[F] = f->addr; return f;
  }
  int constOp(const llvm::Constant *K, bool &ok) {
    auto it = constIdx.find(K); if (it != constIdx.end()) return it->second;
    std::vector<u64> v; if (!cflat(K, v) || v.empty()) { ok = false; return 0; }
    int base = consts.size(); for (u64 x : v) consts.push_back(V(x)); int r = -base - 1; constIdx[K] = r; return r;
  }

  void compile(Fn *f) {
    using namespace llvm;
    const Function *F = f->F; std::unordered_map<const Value *, int> reg; u32 nr = 0; bool ok = true;
    for (auto &A : F->args()) { u32 n = nslots(A.getType()); reg[&A] = nr; f->params.push_back(nr); f->paramn.push_back(n); nr += n; }
    for (auto &B : *F) for (auto &I : B) { u32 n = nslots(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
    f->nregs = nr;
    auto opn = [&](const Value *v) -> int {
      if (auto *K = dyn_cast<Constant>(v)) return constOp(K, ok);
      auto it = reg.find(v); if (it == reg.end()) { ok = false; return 0; } return it->second; };
    std::unordered_map<const BasicBlock *, u32> start; std::vector<std::pair<u32, const BasicBlock *>> fix;
    auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> int {
      Edge e; for (auto &P : to->phis()) { bool o2 = ok; ok = true; int src = opn(P.getIncomingValueForBlock(from)); if (!ok) src = constOp(Constant::getNullValue(P.getType()), ok); ok = o2; e.phis.push_back({reg[&P], src, (int)nslots(P.getType())}); }
      fix.push_back({(u32)f->edges.size(), to}); f->edges.push_back(e); return f->edges.size() - 1; };
    for (auto &B : *F) {
      start[&B] = f->code.size();
      for (auto &I : B) {
        if (isa<PHINode>(I)) continue;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Inst in; in.I = &I; in.op = I_UNSUP; in.sub = 0; in.w = 0; in.w2 = 0; ok = true; in.n = std::max<u32>(1, nslots(I.getType()));
        auto it = reg.find(&I); if (it != reg.end()) in.dst = it->second;
        unsigned w = width(I.getType());
        if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
          unsigned wl = w; if (auto *VT = dyn_cast<FixedVectorType>(I.getType())) { wl = width(VT->getElementType()); }
          in.w = wl; in.a = opn(BO->getOperand(0)); in.b = opn(BO->getOperand(1)); in.op = I_BIN;
          switch (BO->getOpcode()) {
            case Instruction::Add: in.sub = E_ADD; break; case Instruction::Sub: in.sub = E_SUB; break; case Instruction::Mul: in.sub = E_MUL; break;
            case Instruction::UDiv: in.sub = E_UDIV; break; case Instruction::SDiv: in.sub = E_SDIV; break; case Instruction::URem: in.sub = E_UREM; break; case Instruction::SRem: in.sub = E_SREM; break;
            case Instruction::And: in.sub = E_AND; break; case Instruction::Or: in.sub = E_OR; break; case Instruction::Xor: in.sub = E_XOR; break;
            case Instruction::Shl: in.sub = E_SHL; break; case Instruction::LShr: in.sub = E_LSHR; break; case Instruction::AShr: in.sub = E_ASHR; break;
            case Instruction::FAdd: in.op = I_FBIN; in.sub = F_ADD; break; case Instruction::FSub: in.op = I_FBIN; in.sub = F_SUB; break; case Instruction::FMul: in.op = I_FBIN; in.sub = F_MUL; break; case Instruction::FDiv: in.op = I_FBIN; in.sub = F_DIV; break;
            default: ok = false; }
          if (!wl || wl > 64) ok = false;
        } else if (auto *CI = dyn_cast<ICmpInst>(&I)) {
          Type *OT = CI->getOperand(0)->getType(); if (auto *VT = dyn_cast<FixedVectorType>(OT)) OT = VT->getElementType();
          in.op = I_ICMP; in.w = width(OT); in.sub = CI->getPredicate(); in.a = opn(CI->getOperand(0)); in.b = opn(CI->getOperand(1)); if (!in.w) ok = false; if (width(OT) > 64) ok = false;
        } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
          // llvm: bit0 eq, bit1 gt, bit2 lt, bit3 uno
          in.op = I_FCMP; in.w = width(FC->getOperand(0)->getType()); in.sub = FC->getPredicate(); in.a = opn(FC->getOperand(0)); in.b = opn(FC->getOperand(1)); if (!in.w) ok = false;
        } else if (auto *CA = dyn_cast<CastInst>(&I)) {
          Type *ST = CA->getSrcTy(), *DT = CA->getDestTy(); if (auto *VT = dyn_cast<FixedVectorType>(ST)) if (!isa<BitCastInst>(CA)) ST = VT->getElementType(); if (auto *VT = dyn_cast<FixedVectorType>(DT)) if (!isa<BitCastInst>(CA)) DT = VT->getElementType();
          in.a = opn(CA->getOperand(0)); in.w = width(DT); in.w2 = width(ST); if (width(DT) > 64 || width(ST) > 64) ok = false;
          switch (CA->getOpcode()) {
            case Instruction::Trunc: in.op = I_TRUNC; break; case Instruction::ZExt: in.op = I_ZEXT; break; case Instruction::SExt: in.op = I_SEXT; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: in.op = in.w < in.w2 ? I_TRUNC : in.w > in.w2 ? I_ZEXT : I_COPY; break;
            case Instruction::BitCast: in.op = I_COPY; if (!in.w || in.w != in.w2) ok = false; break;
            case Instruction::FPToSI: in.op = I_FCONV; in.sub = F_TOSI; break; case Instruction::FPToUI: in.op = I_FCONV; in.sub = F_TOUI; break;
            case Instruction::SIToFP: in.op = I_FCONV; in.sub = F_FROMSI; break; case Instruction::UIToFP: in.op = I_FCONV; in.sub = F_FROMUI; break;
            case Instruction::FPExt: in.op = I_FCONV; in.sub = F_EXT; break; case Instruction::FPTrunc: in.op = I_FCONV; in.sub = F_TRUNC; break;
            default: ok = false; }
          if (!in.w || !in.w2) ok = false;
        } else if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
          if (UO->getOpcode() == Instruction::FNeg && w) { in.op = I_FNEG; in.w = w; in.a = opn(UO->getOperand(0)); } else ok = false;
        } else if (isa<FreezeInst>(I)) { in.op = I_COPY; in.a = opn(I.getOperand(0)); in.w = w;
        } else if (auto *L = dyn_cast<LoadInst>(&I)) {
          in.op = I_LOAD; in.a = opn(L->getPointerOperand()); in.w = w; in.slots = new std::vector<Slot>(); if (!flatten(L->getType(), 0, *in.slots)) ok = false; in.imm = DL->getTypeStoreSize(L->getType());
        } else if (auto *S = dyn_cast<StoreInst>(&I)) {
          in.op = I_STORE; in.a = opn(S->getPointerOperand()); in.b = opn(S->getValueOperand()); Type *T = S->getValueOperand()->getType(); in.slots = new std::vector<Slot>(); if (!flatten(T, 0, *in.slots)) ok = false; in.imm = DL->getTypeStoreSize(T);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          in.op = I_GEP; in.a = opn(G->getPointerOperand()); in.idx = new std::vector<GepIdx>(); i64 off = 0; if (I.getType()->isVectorTy()) ok = false;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { const Value *ix = gi.getOperand();
            if (StructType *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *K = dyn_cast<ConstantInt>(ix)) { off += K->getSExtValue() * (i64)es; continue; }
            in.idx->push_back({opn(ix), (u8)width(ix->getType()), (i64)es}); }
          in.imm = (u64)off;
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(A->getAllocatedType()); in.a = opn(A->getArraySize()); in.w = width(A->getArraySize()->getType());
        } else if (auto *SE = dyn_cast<SelectInst>(&I)) {
          in.op = I_SELECT; in.a = opn(SE->getCondition()); in.b = opn(SE->getTrueValue()); in.c = opn(SE->getFalseValue()); in.slots = new std::vector<Slot>(); flatten(SE->getType(), 0, *in.slots); in.w = in.slots->empty() ? 0 : (*in.slots)[0].w; if (SE->getCondition()->getType()->isVectorTy()) ok = false;
        } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
          if (BR->isUnconditional()) { in.op = I_BR; in.e1 = mkEdge(&B, BR->getSuccessor(0)); }
          else { in.op = I_CBR; in.a = opn(BR->getCondition()); in.e1 = mkEdge(&B, BR->getSuccessor(0)); in.e2 = mkEdge(&B, BR->getSuccessor(1)); }
        } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          in.op = I_SWITCH; in.a = opn(SW->getCondition()); in.w = width(SW->getCondition()->getType()); in.cases = new std::vector<std::pair<u64, u32>>(); in.e1 = mkEdge(&B, SW->getDefaultDest());
          for (auto &cs : SW->cases()) in.cases->push_back({cs.getCaseValue()->getZExtValue(), (u32)mkEdge(&B, cs.getCaseSuccessor())});
        } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
          in.op = I_RET; in.n = 0; if (R->getReturnValue()) { in.a = opn(R->getReturnValue()); in.n = nslots(R->getReturnValue()->getType()); }
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          in.op = I_CALL; in.args = new std::vector<int>(); in.argn = new std::vector<u8>(); in.n = nslots(I.getType()); in.callee = nullptr; bool skip = false;
          const Value *cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
          if (auto *CF = dyn_cast<Function>(cv)) { in.callee = getFn(CF); auto nm = CF->getName();
            if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") || nm == "llvm.donothing" || nm.starts_with("llvm.assume")) skip = true; }
          else if (isa<InlineAsm>(cv)) ok = false;
          else in.a = opn(CB->getCalledOperand());
          if (!skip) for (auto &arg : CB->args()) { if (arg->getType()->isMetadataTy()) { continue; } in.args->push_back(opn(arg)); in.argn->push_back(nslots(arg->getType())); }
          in.w = w;
          if (auto *IV = dyn_cast<InvokeInst>(&I)) { in.e1 = mkEdge(&B, IV->getNormalDest()); in.e2 = mkEdge(&B, IV->getUnwindDest()); }
          if (skip) continue;
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          in.op = I_EXTRACTV; in.a = opn(EV->getAggregateOperand()); Type *T = EV->getAggregateOperand()->getType(); u32 o = 0; for (unsigned ix : EV->indices()) { for (unsigned j = 0; j < ix; j++) o += nslots(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType()); T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType(); } in.imm = o;
        } else if (auto *IN = dyn_cast<InsertValueInst>(&I)) {
          in.op = I_INSERTV; in.a = opn(IN->getAggregateOperand()); in.b = opn(IN->getInsertedValueOperand()); in.w2 = nslots(IN->getInsertedValueOperand()->getType()); Type *T = IN->getType(); u32 o = 0; for (unsigned ix : IN->indices()) { for (unsigned j = 0; j < ix; j++) o += nslots(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType()); T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType(); } in.imm = o;
        } else if (isa<UnreachableInst>(I)) { in.op = I_UNREACH;
        } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
          in.op = I_LPAD; in.clauses = new std::vector<std::pair<int, u64>>(); in.sub = LP->isCleanup();
          for (unsigned i = 0; i < LP->getNumClauses(); i++) { if (LP->isCatch(i)) { u64 v = 0; cval(LP->getClause(i), v); in.clauses->push_back({0, v}); } else in.clauses->push_back({1, 0}); }
        } else if (auto *RS = dyn_cast<ResumeInst>(&I)) { in.op = I_RESUME; in.a = opn(RS->getValue());
        } else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) { in.op = I_RMW; in.a = opn(RM->getPointerOperand()); in.b = opn(RM->getValOperand()); in.w = w; in.sub = RM->getOperation() == AtomicRMWInst::Add ? E_ADD : RM->getOperation() == AtomicRMWInst::Sub ? E_SUB : RM->getOperation() == AtomicRMWInst::And ? E_AND : RM->getOperation() == AtomicRMWInst::Or ? E_OR : RM->getOperation() == AtomicRMWInst::Xor ? E_XOR : RM->getOperation() == AtomicRMWInst::Xchg ? 255 : 254; if (in.sub == 254) ok = false;
        } else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { in.op = I_CMPXCHG; in.a = opn(CX->getPointerOperand()); in.b = opn(CX->getCompareOperand()); in.c = opn(CX->getNewValOperand()); in.imm = DL->getTypeStoreSize(CX->getNewValOperand()->getType()) * 8;
        } else if (isa<FenceInst>(I)) continue;
        else ok = false;
        if (!ok) in.op = I_UNSUP;
        f->code.push_back(in);
      }
    }
    for (auto &p : fix) f->edges[p.first].target = start[p.second];
  }
};
