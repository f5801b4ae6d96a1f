// LLVM IR -> flat instruction arrays.
#include "interp.h"
#include "exec.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const llvm::Value*, uint64_t> gaddr;
static std::unordered_map<std::string, Func*> byName;
std::vector<Func*> g_funcs;
std::unordered_map<uint64_t, Func*> g_funcByAddr;
std::vector<::Value> g_consts;
static std::unordered_map<const Constant*, int> constSlot;
std::unordered_map<uint64_t, std::string> g_externGlobals;

static TyI tyOf(Type* T) {
  if (T->isDoubleTy()) return {TK_F64, 64};
  if (T->isFloatTy()) return {TK_F32, 32};
  if (T->isPointerTy()) return {TK_INT, 64};
  if (auto* I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(); return {w <= 64 ? TK_INT : TK_WIDE, (uint16_t)w}; }
  return {TK_WIDE, 0};
}
static void flat(Type* T, uint64_t off, std::vector<std::pair<uint64_t, TyI>>& out) {
  if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) flat(S->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) flat(A->getElementType(), off + i * s, out); }
  else if (auto* V = dyn_cast<FixedVectorType>(T)) { uint64_t s = DL->getTypeSizeInBits(V->getElementType()) / 8; for (unsigned i = 0; i < V->getNumElements(); ++i) flat(V->getElementType(), off + i * s, out); }
  else if (!T->isVoidTy()) out.push_back({off, tyOf(T)});
}
static unsigned nslots(Type* T) { std::vector<std::pair<uint64_t, TyI>> v; flat(T, 0, v); return v.size(); }
static bool isAgg(Type* T) { return T->isStructTy() || T->isArrayTy() || T->isVectorTy(); }

static uint64_t funcAddr(const Function* F) {
  auto it = byName.find(F->getName().str());
  return it->second->addr;
}
// concrete evaluation of a scalar constant
static bool cexpr(const Constant* C, uint64_t& out);
static uint64_t cval(const Constant* C) { uint64_t v = 0; if (!cexpr(C, v)) { std::string s; raw_string_ostream os(s); C->print(os); fatal("constant " + os.str()); } return v; }
static bool cexpr(const Constant* C, uint64_t& out) {
  if (auto* I = dyn_cast<ConstantInt>(C)) { out = I->getValue().getBitWidth() <= 64 ? I->getZExtValue() : I->getValue().extractBitsAsZExtValue(64, 0); return true; }
  if (auto* F = dyn_cast<ConstantFP>(C)) { APInt a = F->getValueAPF().bitcastToAPInt(); out = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0); return true; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { out = 0; return true; }
  if (auto* A = dyn_cast<GlobalAlias>(C)) return cexpr(A->getAliasee(), out);
  if (auto* F = dyn_cast<Function>(C)) { out = funcAddr(F); return true; }
  if (isa<GlobalVariable>(C)) { out = gaddr.at(C); return true; }
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(E); APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off)) return false;
        out = cval(cast<Constant>(G->getPointerOperand())) + off.getSExtValue(); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
        out = cval(E->getOperand(0)); TyI t = tyOf(E->getType()); if (t.k == TK_INT) out = mask(out, t.w); return true; }
      case Instruction::Add: out = cval(E->getOperand(0)) + cval(E->getOperand(1)); return true;
      case Instruction::Sub: out = mask(cval(E->getOperand(0)) - cval(E->getOperand(1)), tyOf(E->getType()).w); return true;
      case Instruction::Mul: out = cval(E->getOperand(0)) * cval(E->getOperand(1)); return true;
      case Instruction::Xor: out = cval(E->getOperand(0)) ^ cval(E->getOperand(1)); return true;
      case Instruction::ICmp: { uint64_t a = cval(E->getOperand(0)), b = cval(E->getOperand(1)); out = E->getPredicate() == CmpInst::ICMP_EQ ? a == b : E->getPredicate() == CmpInst::ICMP_NE ? a != b : a < b; return true; }
      default: return false;
    }
  }
  return false;
}
// Real mode reads a literal as the short rational it was written as (see DESIGN).
Expr* niceRational(double d) {
  if (d == 0 || !std::isfinite(d)) return nullptr;
  double m = std::fabs(d);
  if (m > 1e18 || m < 1e-17) return nullptr;
  mpq_class ex(d);
  if (mpz_sizeinbase(ex.get_den_mpz_t(), 2) <= 12) return nullptr;  // short dyadic: exact already
  char buf[40]; snprintf(buf, sizeof buf, "%.12g", d);
  if (strtod(buf, nullptr) == d) {
    std::string s(buf); long e10 = 0; size_t ep = s.find('e'); if (ep != std::string::npos) { e10 = atol(s.c_str() + ep + 1); s = s.substr(0, ep); }
    size_t dp = s.find('.'); if (dp != std::string::npos) { e10 -= s.size() - dp - 1; s.erase(dp, 1); }
    bool neg = s[0] == '-'; if (neg) s.erase(0, 1);
    s.erase(0, std::min(s.find_first_not_of('0'), s.size() - 1));
    mpz_class n(s, 10), p; mpz_ui_pow_ui(p.get_mpz_t(), 10, std::labs(e10));
    mpq_class q = e10 < 0 ? mpq_class(n, p) : mpq_class(n * p); q.canonicalize();
    return mkRat(neg ? mpq_class(-q) : q);
  }
  double x = m; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 12; ++i) {
    double fl = std::floor(x); if (fl > 1e6) break;
    long p2 = (long)fl * p1 + p0, q2 = (long)fl * q1 + q0; p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    if (q1 > 5000) break;
    if ((double)p1 / (double)q1 == m) return mkRat(mpq_class(d < 0 ? -p1 : p1, q1));
    if (x == fl) break; x = 1 / (x - fl);
  }
  return nullptr;
}
static void pushConst(const Constant* C, Type* T) {
  if (isAgg(T)) {
    unsigned n = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : isa<ArrayType>(T) ? cast<ArrayType>(T)->getNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i) {
      Type* ET = isa<StructType>(T) ? cast<StructType>(T)->getElementType(i) : isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<FixedVectorType>(T)->getElementType();
      Constant* E = C->getAggregateElement(i);
      if (!E) E = Constant::getNullValue(ET);
      pushConst(E, ET);
    }
    return;
  }
  ::Value v{0, nullptr};
  TyI t = tyOf(T);
  if (t.k == TK_WIDE) {
    if (auto* I = dyn_cast<ConstantInt>(C)) { uint64_t lo = I->getValue().extractBitsAsZExtValue(64, 0); unsigned rest = t.w - 64; uint64_t hi = I->getValue().extractBitsAsZExtValue(std::min(64u, rest), 64); v.e = mkConcat(mkBV(hi, rest), mkBV(lo, 64)); }
    else v.e = mkConcat(mkBV(0, t.w > 64 ? t.w - 64 : 64), mkBV(0, 64));
  } else {
    v.u = cval(C);
    if (t.k == TK_F64 && g_realMode && isa<ConstantFP>(C)) { double d; memcpy(&d, &v.u, 8); if (Expr* q = niceRational(d)) { v.e = q; v.u = 0; } }
  }
  g_consts.push_back(v);
}
static void initMem(const Constant* C, Type* T, uint64_t at) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy((void*)at, r.data(), r.size()); return; }
  if (isAgg(T)) {
    for (unsigned i = 0, n = C->getNumOperands(); i < n; ++i) {
      Type* ET = C->getOperand(i)->getType();
      uint64_t off = isa<StructType>(T) ? DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * DL->getTypeAllocSize(ET);
      initMem(cast<Constant>(C->getOperand(i)), ET, at + off);
    }
    return;
  }
  if (auto* I = dyn_cast<ConstantInt>(C)) { unsigned n = (I->getBitWidth() + 7) / 8; memcpy((void*)at, I->getValue().getRawData(), n); return; }
  if (T->isX86_FP80Ty()) { APInt a = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); memcpy((void*)at, a.getRawData(), 10); return; }
  uint64_t v = cval(C); memcpy((void*)at, &v, DL->getTypeStoreSize(T));
}

struct Decoder {
  Func& f; std::unordered_map<const llvm::Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbId;
  std::map<std::pair<const BasicBlock*, const BasicBlock*>, int> edge;
  Decoder(Func& f_) : f(f_) {}
  int op(const llvm::Value* V) {
    if (auto* C = dyn_cast<Constant>(V)) {
      auto it = constSlot.find(C); if (it != constSlot.end()) return it->second;
      int base = -(int)g_consts.size() - 1; size_t before = g_consts.size();
      pushConst(C, C->getType()); if (g_consts.size() == before) g_consts.push_back({0, nullptr});
      constSlot[C] = base; return base;
    }
    auto it = slot.find(V); if (it == slot.end()) return 0;
    return it->second;
  }
  int edgeCopies(const BasicBlock* P, const BasicBlock* S) {
    auto key = std::make_pair(P, S); auto it = edge.find(key); if (it != edge.end()) return it->second;
    std::vector<Copy> cs;
    for (auto& phi : S->phis()) { int n = nslots(phi.getType()), d = slot[&phi], s = op(phi.getIncomingValueForBlock(P)); for (int i = 0; i < n; ++i) cs.push_back({d + i, s >= 0 ? s + i : s - i}); }
    f.copies.push_back(cs); return edge[key] = f.copies.size() - 1;
  }
  static unsigned leafIndex(Type* T, ArrayRef<unsigned> idx) {
    unsigned s = 0;
    for (unsigned i : idx) {
      if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) s += nslots(S->getElementType(j)); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); s += i * nslots(A->getElementType()); T = A->getElementType(); }
    }
    return s;
  }
  void run() {
    Function& F = *f.F; int nr = 0;
    for (auto& A : F.args()) { slot[&A] = nr; nr += nslots(A.getType()); }
    f.nargs = nr;
    int bi = 0;
    for (auto& B : F) { bbId[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = nr; nr += std::max(1u, nslots(I.getType())); } }
    f.nregs = nr; f.bbStart.resize(bi);
    for (auto& B : F) { f.bbStart[bbId[&B]] = f.code.size(); for (auto& I : B) if (!isa<PHINode>(I)) one(I); }
    f.decoded = true;
  }
  void one(Instruction& I) {
    Inst x{}; x.I = &I; x.ty = {TK_INT, 64}; x.ty2 = x.ty;
    if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.ty = tyOf(I.getType()->getScalarType()); x.n = std::max(1u, nslots(I.getType())); }
    if (I.getNumOperands() > 0) x.ty2 = tyOf(I.getOperand(0)->getType()->getScalarType());
    auto A = [&](unsigned k) { return op(I.getOperand(k)); };
    switch (I.getOpcode()) {
#define BIN(L, X) case Instruction::L: x.op = X; x.a = A(0); x.b = A(1); break;
      BIN(Add, I_ADD) BIN(Sub, I_SUB) BIN(Mul, I_MUL) BIN(UDiv, I_UDIV) BIN(SDiv, I_SDIV) BIN(URem, I_UREM) BIN(SRem, I_SREM)
      BIN(And, I_AND) BIN(Or, I_OR) BIN(Xor, I_XOR) BIN(Shl, I_SHL) BIN(LShr, I_LSHR) BIN(AShr, I_ASHR)
      BIN(FAdd, I_FADD) BIN(FSub, I_FSUB) BIN(FMul, I_FMUL) BIN(FDiv, I_FDIV) BIN(FRem, I_FREM)
      case Instruction::FNeg: x.op = I_FNEG; x.a = A(0); break;
      case Instruction::ICmp: x.op = I_ICMP; x.sub = cast<CmpInst>(I).getPredicate(); x.a = A(0); x.b = A(1); break;
      case Instruction::FCmp: x.op = I_FCMP; x.sub = cast<CmpInst>(I).getPredicate(); x.a = A(0); x.b = A(1); break;
      case Instruction::Select: x.op = I_SELECT; x.a = A(0); x.b = A(1); x.c = A(2); x.imm = I.getOperand(0)->getType()->isVectorTy(); break;
      case Instruction::Load: {
        auto& L = cast<LoadInst>(I); x.op = I_LOAD; x.a = A(0); x.atomic = L.isAtomic();
        if (isAgg(L.getType())) { AggType g; flat(L.getType(), 0, g.leaves); f.aggs.push_back(g); x.ext = f.aggs.size() - 1; }
        x.imm = DL->getTypeStoreSize(L.getType()); break; }
      case Instruction::Store: {
        auto& S = cast<StoreInst>(I); x.op = I_STORE; x.a = op(S.getValueOperand()); x.b = op(S.getPointerOperand()); x.atomic = S.isAtomic();
        x.ty2 = tyOf(S.getValueOperand()->getType()->getScalarType());
        if (isAgg(S.getValueOperand()->getType())) { AggType g; flat(S.getValueOperand()->getType(), 0, g.leaves); f.aggs.push_back(g); x.ext = f.aggs.size() - 1; }
        x.imm = DL->getTypeStoreSize(S.getValueOperand()->getType()); break; }
      case Instruction::GetElementPtr: {
        x.op = I_GEP; x.a = A(0); GepInfo g; g.off = 0;
        if (I.getType()->isVectorTy()) { x.op = I_UNSUP; break; }
        for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
          llvm::Value* ix = it.getOperand();
          if (StructType* S = it.getStructTypeOrNull()) g.off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* c = dyn_cast<ConstantInt>(ix)) g.off += c->getSExtValue() * sz; else g.idx.push_back({op(ix), sz, (uint16_t)ix->getType()->getIntegerBitWidth()}); }
        }
        f.geps.push_back(g); x.ext = f.geps.size() - 1; break; }
      case Instruction::Alloca: { auto& L = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(L.getAllocatedType()); x.a = op(L.getArraySize()); x.sub = std::min<uint64_t>(64, L.getAlign().value()); break; }
      case Instruction::Ret: x.op = I_RET; if (I.getNumOperands()) { x.a = A(0); x.n = nslots(I.getOperand(0)->getType()); } else x.n = 0; break;
      case Instruction::Br: {
        auto& Br = cast<BranchInst>(I); const BasicBlock* P = I.getParent();
        if (Br.isUnconditional()) { x.op = I_BR; x.b = bbId[Br.getSuccessor(0)]; x.ext = edgeCopies(P, Br.getSuccessor(0)); }
        else { x.op = I_CONDBR; x.a = op(Br.getCondition()); SwitchInfo s; s.cases.push_back({1, {bbId[Br.getSuccessor(0)], edgeCopies(P, Br.getSuccessor(0))}}); s.def = {bbId[Br.getSuccessor(1)], edgeCopies(P, Br.getSuccessor(1))}; f.switches.push_back(s); x.ext = f.switches.size() - 1; }
        break; }
      case Instruction::Switch: {
        auto& S = cast<SwitchInst>(I); const BasicBlock* P = I.getParent(); x.op = I_SWITCH; x.a = op(S.getCondition()); SwitchInfo s;
        for (auto c : S.cases()) s.cases.push_back({c.getCaseValue()->getZExtValue(), {bbId[c.getCaseSuccessor()], edgeCopies(P, c.getCaseSuccessor())}});
        s.def = {bbId[S.getDefaultDest()], edgeCopies(P, S.getDefaultDest())}; f.switches.push_back(s); x.ext = f.switches.size() - 1; break; }
      case Instruction::Trunc: x.op = I_TRUNC; x.a = A(0); break;
      case Instruction::ZExt: x.op = I_ZEXT; x.a = A(0); break;
      case Instruction::SExt: x.op = I_SEXT; x.a = A(0); break;
      case Instruction::FPToSI: x.op = I_FPTOSI; x.a = A(0); break;
      case Instruction::FPToUI: x.op = I_FPTOUI; x.a = A(0); break;
      case Instruction::SIToFP: x.op = I_SITOFP; x.a = A(0); break;
      case Instruction::UIToFP: x.op = I_UITOFP; x.a = A(0); break;
      case Instruction::FPExt: x.op = I_FPEXT; x.a = A(0); break;
      case Instruction::FPTrunc: x.op = I_FPTRUNC; x.a = A(0); break;
      case Instruction::BitCast: x.op = nslots(I.getType()) == nslots(I.getOperand(0)->getType()) ? I_BITCAST : I_UNSUP; x.a = A(0); break;
      case Instruction::PtrToInt: x.op = x.ty.w < 64 ? I_TRUNC : I_MOVE; x.a = A(0); break;
      case Instruction::IntToPtr: x.op = x.ty2.w < 64 ? I_ZEXT : I_MOVE; x.a = A(0); break;
      case Instruction::Freeze: x.op = I_MOVE; x.a = A(0); break;
      case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); int s = A(0), k = leafIndex(E.getAggregateOperand()->getType(), E.getIndices()); x.op = I_MOVE; x.a = s >= 0 ? s + k : s - k; break; }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I); x.op = I_INSELT; x.a = A(0); x.b = A(1); x.imm = leafIndex(E.getType(), E.getIndices()); x.c = nslots(E.getInsertedValueOperand()->getType()); break; }
      case Instruction::ExtractElement: { x.op = I_EXTELT; x.a = A(0); x.b = A(1); x.imm = nslots(I.getOperand(0)->getType()); break; }
      case Instruction::InsertElement: { if (auto* c = dyn_cast<ConstantInt>(I.getOperand(2))) { x.op = I_INSELT; x.a = A(0); x.b = A(1); x.imm = c->getZExtValue(); x.c = 1; } else x.op = I_UNSUP; break; }
      case Instruction::ShuffleVector: {
        auto& S = cast<ShuffleVectorInst>(I); int a = A(0), b = A(1); int n0 = nslots(I.getOperand(0)->getType()); std::vector<Copy> cs; int i = 0;
        for (int m : S.getShuffleMask()) { int src; if (m < 0) src = op(Constant::getNullValue(Type::getInt64Ty(Ctx))); else if (m < n0) src = a >= 0 ? a + m : a - m; else { int k = m - n0; src = b >= 0 ? b + k : b - k; } cs.push_back({x.dst + i, src}); ++i; }
        f.copies.push_back(cs); x.op = I_MOVE; x.a = 0; x.ext = f.copies.size() - 1; x.imm = 1; break; }
      case Instruction::Unreachable: x.op = I_UNREACHABLE; break;
      case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); x.op = I_RMW; x.sub = R.getOperation(); x.a = op(R.getPointerOperand()); x.b = op(R.getValOperand()); x.atomic = true; x.ty2 = x.ty; break; }
      case Instruction::AtomicCmpXchg: { auto& R = cast<AtomicCmpXchgInst>(I); x.op = I_CMPXCHG; x.a = op(R.getPointerOperand()); x.b = op(R.getCompareOperand()); x.c = op(R.getNewValOperand()); x.ty = tyOf(R.getCompareOperand()->getType()); x.atomic = true; break; }
      case Instruction::Fence: x.op = I_FENCE; break;
      case Instruction::Call: {
        auto& Cl = cast<CallInst>(I); x.op = I_CALL; CallInfo ci;
        if (isa<DbgInfoIntrinsic>(I)) return;
        llvm::Value* cv = Cl.getCalledOperand()->stripPointerCasts();
        if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
        if (auto* CF = dyn_cast<Function>(cv)) {
          if (CF->getName().starts_with("llvm.lifetime") || CF->getName().starts_with("llvm.assume") || CF->getName().starts_with("llvm.experimental.noalias") || CF->getName().starts_with("llvm.invariant") || CF->getName().starts_with("llvm.donothing") || CF->getName().starts_with("llvm.prefetch")) return;
          ci.callee = byName.at(CF->getName().str());
          if (ci.callee->decl) ci.builtin = ci.callee->builtin;
        } else ci.fnOp = op(Cl.getCalledOperand());
        if (Cl.isInlineAsm()) { auto* IA = cast<InlineAsm>(Cl.getCalledOperand()); bool none = IA->getAsmString().empty() || IA->getAsmString()[0] == '#';
          if (none && x.dst < 0) return;
          if (none && Cl.arg_size() == 1 && Cl.getArgOperand(0)->getType() == Cl.getType()) { x.op = I_MOVE; x.a = op(Cl.getArgOperand(0)); x.ext = -1; x.imm = 0; break; }
          x.op = I_UNSUP; break; }
        for (unsigned k = 0; k < Cl.arg_size(); ++k) {
          llvm::Value* av = Cl.getArgOperand(k); int n = av->getType()->isMetadataTy() ? 0 : nslots(av->getType()); int s = n ? op(av) : 0;
          ci.args.push_back(s); ci.argTy.push_back(tyOf(av->getType()->getScalarType()));
          if (Cl.isByValArgument(k)) { ci.argTy.back().k = TK_WIDE; ci.argTy.back().w = 0; ci.flat.push_back(s); f.aggs.push_back({{{DL->getTypeAllocSize(Cl.getParamByValType(k)), TyI{TK_INT, 8}}}}); ci.argTy.back().w = f.aggs.size(); }
          else for (int i = 0; i < n; ++i) ci.flat.push_back(s >= 0 ? s + i : s - i);
        }
        if (x.dst < 0) x.n = 0;
        f.calls.push_back(ci); x.ext = f.calls.size() - 1; break; }
      default: x.op = I_UNSUP;
    }
    f.code.push_back(x);
  }
};
void decodeFunc(Func* f) { Decoder d(*f); d.run(); }
std::string instText(const Inst& x) { std::string s; raw_string_ostream os(s); if (x.I) x.I->print(os); return os.str(); }
std::string demangled(const std::string& s) { return llvm::demangle(s); }
Func* findFunc(const std::string& n) { auto it = byName.find(n); return it == byName.end() ? nullptr : it->second; }

// |x| compared with infinity is a classification of x (and needs no case split on its sign)
static void classifyFabs(Module& M) {
  std::vector<FCmpInst*> todo;
  for (auto& F : M) for (auto& B : F) for (auto& I : B) if (auto* C = dyn_cast<FCmpInst>(&I)) if (auto* K = dyn_cast<ConstantFP>(C->getOperand(1))) if (K->isInfinity() && !K->isNegative()) if (auto* F = dyn_cast<IntrinsicInst>(C->getOperand(0))) if (F->getIntrinsicID() == Intrinsic::fabs) todo.push_back(C);
  for (FCmpInst* C : todo) {
    unsigned m; switch (C->getPredicate()) { case FCmpInst::FCMP_UEQ: case FCmpInst::FCMP_UGE: m = 0x207; break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_OLT: m = 0x1f8; break; case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_OGE: m = 0x204; break; case FCmpInst::FCMP_UNE: case FCmpInst::FCMP_ULT: m = 0x1fb; break; default: continue; }
    auto* F = cast<IntrinsicInst>(C->getOperand(0)); auto* D = Intrinsic::getDeclaration(&M, Intrinsic::is_fpclass, {F->getArgOperand(0)->getType()});
    auto* N = CallInst::Create(D, {F->getArgOperand(0), ConstantInt::get(Type::getInt32Ty(Ctx), m)}, "", C); N->setDebugLoc(C->getDebugLoc()); C->replaceAllUsesWith(N); C->eraseFromParent(); if (F->use_empty()) F->eraseFromParent();
  }
}
void loadModule(const char* path) {
  SMDiagnostic err;
  M = parseIRFile(path, err, Ctx);
  if (!M) { err.print("ssx", errs()); exit(3); }
  classifyFabs(*M);
  DL = &M->getDataLayout();
  uint64_t fa = 0x7000000000ull;
  for (auto& F : *M) {
    Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->decl = F.isDeclaration() || F.getName() == "_ZNSt8__detail14__cyl_bessel_jIdEET_S1_S1_" || F.getName() == "_ZSt8__hypot3IdET_S0_S0_S0_"; f->id = g_funcs.size(); f->addr = fa; fa += 16;
    byName[f->name] = f; g_funcs.push_back(f); g_funcByAddr[f->addr] = f;
    if (f->decl) f->builtin = builtinFor(f->name);
  }
  for (auto& A : M->aliases()) if (auto* AF = dyn_cast<Function>(A.getAliaseeObject())) byName[A.getName().str()] = byName[AF->getName().str()];
  for (auto& G : M->globals()) {
    uint64_t n = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
    if (G.isDeclaration()) n = std::max<uint64_t>(n, 256);
    uint64_t a = g_mem.alloc(n, std::max<uint64_t>(16, G.getAlign().valueOrOne().value()), 0, SH_INIT);
    gaddr[&G] = a; if (G.isDeclaration()) g_externGlobals[a] = G.getName().str();
  }
  for (auto& G : M->globals()) if (G.hasInitializer()) initMem(G.getInitializer(), G.getValueType(), gaddr[&G]);
  // vtables of the standard type_info classes: opaque, distinct
}
std::vector<Func*> ctorList() {
  std::vector<std::pair<uint64_t, Func*>> v;
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer() && isa<ConstantArray>(G->getInitializer()))
    for (auto& o : cast<ConstantArray>(G->getInitializer())->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), byName[F->getName().str()]}); }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Func*> r; for (auto& p : v) r.push_back(p.second); return r;
}
