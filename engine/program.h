// Decoding of LLVM IR into a compact form for the symbolic interpreter.
#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>

namespace bsx {
using namespace llvm;

struct Val { u64 c; const Expr* e; };

enum DOp : uint8_t {
  D_BIN, D_ICMP, D_FBIN, D_FNEG, D_FCMP, D_LOAD, D_STORE, D_GEP, D_CAST, D_SELECT, D_ALLOCA, D_CALL,
  D_BR, D_CONDBR, D_SWITCH, D_RET, D_UNREACHABLE, D_EXTRACTV, D_INSERTV, D_LANDINGPAD, D_RESUME, D_FREEZE,
  D_EXTRACTEL, D_INSERTEL, D_SHUFFLE, D_ATOMICRMW, D_CMPXCHG, D_NOP, D_UNSUPPORTED
};
enum COp : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_FPTRUNC, C_FPEXT, C_COPY };

struct Field { uint32_t off; uint8_t bits; uint8_t bytes; bool fp; };
struct Edge { int target = -1; std::vector<std::pair<int, int>> moves; };
struct DFunc;
struct Extra {
  std::vector<Field> fields;                       // load/store of aggregates
  std::vector<std::pair<int, u64>> gep;            // (operand,scale)
  std::vector<uint8_t> gepw;
  Edge e0, e1; std::vector<std::pair<u64, Edge>> cases; // br/switch/invoke
  std::vector<int> args; std::vector<uint8_t> argslots;
  DFunc* callee = nullptr; int builtin = -1; int fptr = 0; bool indirect = false, isinvoke = false;
  std::vector<int> shuffle;
  std::vector<u64> clauses; std::vector<std::pair<bool, std::vector<u64>>> lp; bool cleanup = false; // landingpad: (isCatch, typeinfos)
  std::string name; unsigned nslots = 1; std::vector<unsigned> bytesz; std::vector<u64> byvalsz;
};
struct DI {
  DOp op; uint8_t sub; uint8_t w; uint8_t w2; uint16_t n; // n = slots
  int dst, a, b, c; u64 imm; Extra* x; uint32_t line;
};
struct DFunc {
  const Function* F = nullptr; std::string name, dem; std::vector<DI> code; unsigned nregs = 0; unsigned nargs = 0; bool decoded = false;
  std::vector<unsigned> argslot; u64 addr = 0; bool isdecl = false; int builtin = -1; std::string file; unsigned line0 = 0; unsigned retslots = 0;
  mutable volatile uint8_t executed = 0, symexec = 0; unsigned idx = 0;
};

struct Program {
  std::unique_ptr<LLVMContext> ctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr;
  std::vector<DFunc*> funcs; std::map<const Function*, DFunc*> fmap; std::unordered_map<std::string, DFunc*> byname;
  std::map<const GlobalVariable*, u64> gaddr; 
  std::vector<Val> K; std::unordered_map<const Constant*, int> kidx;
  struct GInit { u64 addr; u64 size; }; std::vector<GInit> globals; u64 gend = 0;
  std::vector<uint8_t> gmem, gst; // initial image of [GBASE,gend)
  static const u64 GBASE = 0x10000; static const u64 FBASE = 0x700000000000ull;
  std::unordered_map<u64, std::string> addrname;
  std::function<int(const std::string&)> builtinLookup;
  std::vector<uint8_t> covered; // by DI global line index (unused)

  unsigned slots(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto* E : S->elements()) n += slots(E); return n; }
    if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slots(A->getElementType());
    if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * slots(V->getElementType());
    if (T->isVoidTy()) return 0; return 1;
  }
  unsigned bits(Type* T) {
    if (T->isPointerTy()) return 64; if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); return w > 255 ? 255 : w; }
    if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (T->isX86_FP80Ty()) return 80;
    if (auto* V = dyn_cast<FixedVectorType>(T)) return bits(V->getElementType());
    return 0;
  }
  void fields(Type* T, u64 off, std::vector<Field>& out) {
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) fields(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) fields(A->getElementType(), off + i * es, out); return; }
    if (auto* V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) fields(V->getElementType(), off + i * es, out); return; }
    out.push_back(Field{(uint32_t)off, (uint8_t)bits(T), (uint8_t)DL->getTypeStoreSize(T), T->isFloatingPointTy()});
  }
  u64 constScalar(const Constant* C) {
    if (auto* I = dyn_cast<ConstantInt>(C)) return I->getValue().getBitWidth() > 64 ? I->getValue().trunc(64).getZExtValue() : I->getZExtValue();
    if (auto* F = dyn_cast<ConstantFP>(C)) { if (F->getType()->isX86_FP80Ty()) return 0; return F->getValueAPF().bitcastToAPInt().getZExtValue(); }
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
    if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) throw std::runtime_error("global without address"); return it->second; }
    if (auto* F = dyn_cast<Function>(C)) return fmap.at(F)->addr;
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constScalar(A->getAliasee());
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      switch (E->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* G = cast<GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, off)) throw std::runtime_error("gep constexpr"); return constScalar(cast<Constant>(G->getPointerOperand())) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(E->getOperand(0)) & maskw(bits(E->getType()));
      case Instruction::Trunc: return constScalar(E->getOperand(0)) & maskw(bits(E->getType()));
      case Instruction::Add: return (constScalar(E->getOperand(0)) + constScalar(E->getOperand(1))) & maskw(bits(E->getType()));
      case Instruction::Sub: return (constScalar(E->getOperand(0)) - constScalar(E->getOperand(1))) & maskw(bits(E->getType()));
      case Instruction::ICmp: { u64 a = constScalar(E->getOperand(0)), b = constScalar(E->getOperand(1)); switch (E->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
      default: break;
      }
    }
    std::string s; raw_string_ostream os(s); C->print(os); throw std::runtime_error("unsupported constant: " + s);
  }
  void flatConst(const Constant* C, std::vector<u64>& out) {
    Type* T = C->getType();
    if (slots(T) == 1 && !T->isAggregateType() && !T->isVectorTy()) { out.push_back(constScalar(C)); return; }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) flatConst(C->getAggregateElement(i), out);
  }
  void writeConst(const Constant* C, u64 addr) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // image is zero filled
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy(&gmem[addr - GBASE], r.data(), r.size()); return; }
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) writeConst(C->getAggregateElement(i), addr + L->getElementOffset(i)); return; }
    if (T->isArrayTy() || T->isVectorTy()) { Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType(); u64 es = DL->getTypeAllocSize(E); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); for (unsigned i = 0; i < n; i++) writeConst(C->getAggregateElement(i), addr + i * es); return; }
    if (T->isX86_FP80Ty()) { auto v = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); memcpy(&gmem[addr - GBASE], v.getRawData(), 10); return; }
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) { auto v = cast<ConstantInt>(C)->getValue(); memcpy(&gmem[addr - GBASE], v.getRawData(), T->getIntegerBitWidth() / 8); return; }
    u64 v = constScalar(C); memcpy(&gmem[addr - GBASE], &v, DL->getTypeStoreSize(T));
  }
  int konst(const Constant* C) { // index of first slot, as ~idx
    auto it = kidx.find(C); if (it != kidx.end()) return it->second;
    std::vector<u64> v; flatConst(C, v); int i = ~(int)K.size(); for (u64 x : v) K.push_back(Val{x, nullptr});
    if (v.empty()) K.push_back(Val{0, nullptr});
    kidx[C] = i; return i;
  }
  void load(const std::string& path) {
    ctx = std::make_unique<LLVMContext>(); SMDiagnostic err; M = parseIRFile(path, err, *ctx);
    if (!M) { err.print("bsx", errs()); throw std::runtime_error("cannot parse " + path); }
    DL = &M->getDataLayout();
    for (auto& F : *M) { auto* d = new DFunc; d->F = &F; d->name = F.getName().str(); d->idx = funcs.size(); d->addr = FBASE + 16 * (funcs.size() + 1); d->isdecl = F.isDeclaration(); funcs.push_back(d); fmap[&F] = d; byname[d->name] = d; addrname[d->addr] = d->name;
      if (auto* SP = F.getSubprogram()) { d->file = (SP->getFilename()).str(); d->line0 = SP->getLine(); } }
    u64 p = GBASE;
    for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64; if (G.isDeclaration() && sz < 64) sz = 64; p = (p + 31) & ~31ull; gaddr[&G] = p; globals.push_back({p, sz}); addrname[p] = G.getName().str(); p += sz + 32; }
    gend = (p + 4095) & ~4095ull; gmem.assign(gend - GBASE, 0); gst.assign(gend - GBASE, 0);
    for (auto& g : globals) memset(&gst[g.addr - GBASE], 2, g.size);
    for (auto& G : M->globals()) if (G.hasInitializer()) writeConst(G.getInitializer(), gaddr[&G]);
    for (auto* d : funcs) if (!d->isdecl) { d->argslot.clear(); } 
    for (auto* d : funcs) { if (builtinLookup) d->builtin = builtinLookup(d->name); }
    for (auto* d : funcs) if (!d->isdecl) decode(d);
  }
  // ---- decode ----
  void decode(DFunc* d) {
    const Function& F = *d->F; std::unordered_map<const Value*, int> reg; unsigned n = 0;
    for (auto& A : F.args()) { d->argslot.push_back(n); reg[&A] = n; n += slots(A.getType()); }
    d->nargs = n; d->retslots = slots(F.getReturnType());
    for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = n; n += slots(I.getType()); }
    d->nregs = n;
    auto opd = [&](const Value* V) -> int { if (auto* C = dyn_cast<Constant>(V)) return konst(C); auto it = reg.find(V); if (it == reg.end()) return konst(ConstantInt::get(Type::getInt64Ty(*ctx), 0)); return it->second; };
    std::unordered_map<const BasicBlock*, int> bpc; int pc = 0;
    for (auto& B : F) { bpc[&B] = pc; for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) { Edge e; e.target = bpc[to]; for (auto& P : to->phis()) { const Value* v = P.getIncomingValueForBlock(from); int s = opd(v), t = reg[&P]; unsigned k = slots(P.getType()); for (unsigned i = 0; i < k; i++) { int si = s >= 0 ? s + (int)i : s - (int)i; if (si != t + (int)i) e.moves.push_back({t + (int)i, si}); } } return e; };
    for (auto& B : F) for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DI x; memset((void*)&x, 0, sizeof x); x.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; x.n = std::min(65535u, slots(I.getType())); x.w = bits(I.getType());
      if (auto& L = I.getDebugLoc()) x.line = L.getLine();
      try { decodeI(I, x, opd, edge, d); } catch (std::exception& ex) { x.op = D_UNSUPPORTED; x.x = new Extra; x.x->name = ex.what(); }
      d->code.push_back(x);
    }
    d->decoded = true;
  }
  template <class O, class E> void decodeI(const Instruction& I, DI& x, O& opd, E& edge, DFunc* d) {
    const BasicBlock* BB = I.getParent();
    switch (I.getOpcode()) {
    case Instruction::Add: x.op = D_BIN; x.sub = E_ADD; break; case Instruction::Sub: x.op = D_BIN; x.sub = E_SUB; break;
    case Instruction::Mul: x.op = D_BIN; x.sub = E_MUL; break; case Instruction::UDiv: x.op = D_BIN; x.sub = E_UDIV; break;
    case Instruction::SDiv: x.op = D_BIN; x.sub = E_SDIV; break; case Instruction::URem: x.op = D_BIN; x.sub = E_UREM; break;
    case Instruction::SRem: x.op = D_BIN; x.sub = E_SREM; break; case Instruction::And: x.op = D_BIN; x.sub = E_AND; break;
    case Instruction::Or: x.op = D_BIN; x.sub = E_OR; break; case Instruction::Xor: x.op = D_BIN; x.sub = E_XOR; break;
    case Instruction::Shl: x.op = D_BIN; x.sub = E_SHL; break; case Instruction::LShr: x.op = D_BIN; x.sub = E_LSHR; break;
    case Instruction::AShr: x.op = D_BIN; x.sub = E_ASHR; break;
    case Instruction::FAdd: x.op = D_FBIN; x.sub = 0; break; case Instruction::FSub: x.op = D_FBIN; x.sub = 1; break;
    case Instruction::FMul: x.op = D_FBIN; x.sub = 2; break; case Instruction::FDiv: x.op = D_FBIN; x.sub = 3; break; case Instruction::FRem: x.op = D_FBIN; x.sub = 4; break;
    case Instruction::FNeg: x.op = D_FNEG; x.a = opd(I.getOperand(0)); return;
    case Instruction::ICmp: x.op = D_ICMP; x.sub = cast<ICmpInst>(I).getPredicate(); x.w2 = bits(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); return;
    case Instruction::FCmp: x.op = D_FCMP; x.sub = cast<FCmpInst>(I).getPredicate(); x.w2 = bits(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); return;
    case Instruction::Load: { auto& L = cast<LoadInst>(I); x.op = D_LOAD; x.a = opd(L.getPointerOperand()); Type* T = L.getType(); x.w2 = DL->getTypeStoreSize(T); if (x.n != 1 || T->isAggregateType() || T->isVectorTy()) { x.x = new Extra; fields(T, 0, x.x->fields); } if (x.w > 64) throw std::runtime_error("wide load"); return; }
    case Instruction::Store: { auto& S = cast<StoreInst>(I); x.op = D_STORE; x.a = opd(S.getPointerOperand()); x.b = opd(S.getValueOperand()); Type* T = S.getValueOperand()->getType(); x.n = slots(T); x.w = bits(T); x.w2 = DL->getTypeStoreSize(T); if (x.n != 1 || T->isAggregateType() || T->isVectorTy()) { x.x = new Extra; fields(T, 0, x.x->fields); } if (x.w > 64) throw std::runtime_error("wide store"); return; }
    case Instruction::GetElementPtr: { auto& G = cast<GetElementPtrInst>(I); x.op = D_GEP; x.a = opd(G.getPointerOperand()); u64 off = 0; Extra* ex = new Extra;
      if (G.getType()->isVectorTy()) throw std::runtime_error("vector gep");
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value* ix = it.getOperand();
        if (auto* ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* CI = dyn_cast<ConstantInt>(ix)) { off += CI->getSExtValue() * sc; continue; }
        ex->gep.push_back({opd(ix), sc}); ex->gepw.push_back(bits(ix->getType())); }
      x.imm = off; if (ex->gep.empty()) { delete ex; x.x = nullptr; } else x.x = ex; return; }
    case Instruction::Trunc: x.op = D_CAST; x.sub = C_TRUNC; goto cast_; case Instruction::ZExt: x.op = D_CAST; x.sub = C_ZEXT; goto cast_;
    case Instruction::SExt: x.op = D_CAST; x.sub = C_SEXT; goto cast_; case Instruction::FPToUI: x.op = D_CAST; x.sub = C_FPTOUI; goto cast_;
    case Instruction::FPToSI: x.op = D_CAST; x.sub = C_FPTOSI; goto cast_; case Instruction::UIToFP: x.op = D_CAST; x.sub = C_UITOFP; goto cast_;
    case Instruction::SIToFP: x.op = D_CAST; x.sub = C_SITOFP; goto cast_; case Instruction::FPTrunc: x.op = D_CAST; x.sub = C_FPTRUNC; goto cast_;
    case Instruction::FPExt: x.op = D_CAST; x.sub = C_FPEXT; goto cast_;
    case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = D_CAST; x.sub = x.w < bits(I.getOperand(0)->getType()) ? C_TRUNC : x.w > bits(I.getOperand(0)->getType()) ? C_ZEXT : C_COPY; goto cast_;
    case Instruction::BitCast: x.op = D_CAST; x.sub = C_COPY; if (x.n != slots(I.getOperand(0)->getType())) throw std::runtime_error("vector bitcast"); goto cast_;
    cast_: x.w2 = bits(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); if (x.w > 64 || x.w2 > 64) throw std::runtime_error("wide cast"); return;
    case Instruction::Select: { x.op = D_SELECT; x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); x.c = opd(I.getOperand(2)); x.sub = I.getOperand(0)->getType()->isVectorTy(); x.w2 = I.getType()->isDoubleTy(); return; }
    case Instruction::Freeze: x.op = D_FREEZE; x.a = opd(I.getOperand(0)); return;
    case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); x.op = D_ALLOCA; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opd(A.getArraySize()); x.w2 = std::min<u64>(128, A.getAlign().value()); return; }
    case Instruction::ExtractValue: { auto& E2 = cast<ExtractValueInst>(I); x.op = D_EXTRACTV; Type* T = E2.getAggregateOperand()->getType(); unsigned s = 0; for (unsigned ix : E2.indices()) { s += suboff(T, ix); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); } x.a = opd(E2.getAggregateOperand()); x.imm = s; return; }
    case Instruction::InsertValue: { auto& E2 = cast<InsertValueInst>(I); x.op = D_INSERTV; Type* T = E2.getAggregateOperand()->getType(); unsigned s = 0; for (unsigned ix : E2.indices()) { s += suboff(T, ix); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); } x.a = opd(E2.getAggregateOperand()); x.b = opd(E2.getInsertedValueOperand()); x.imm = s; x.c = slots(T); return; }
    case Instruction::ExtractElement: x.op = D_EXTRACTEL; x.a = opd(I.getOperand(0)); if (!isa<ConstantInt>(I.getOperand(1))) throw std::runtime_error("var extractelement"); x.imm = cast<ConstantInt>(I.getOperand(1))->getZExtValue(); return;
    case Instruction::InsertElement: x.op = D_INSERTEL; x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); if (!isa<ConstantInt>(I.getOperand(2))) throw std::runtime_error("var insertelement"); x.imm = cast<ConstantInt>(I.getOperand(2))->getZExtValue(); return;
    case Instruction::ShuffleVector: { x.op = D_SHUFFLE; x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); x.x = new Extra; for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) x.x->shuffle.push_back(m); x.imm = slots(I.getOperand(0)->getType()); return; }
    case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); x.op = D_LANDINGPAD; x.x = new Extra; lpinfo(L, x.x); return; }
    case Instruction::Resume: x.op = D_RESUME; x.a = opd(I.getOperand(0)); return;
    case Instruction::Ret: x.op = D_RET; if (I.getNumOperands()) { x.a = opd(I.getOperand(0)); x.n = slots(I.getOperand(0)->getType()); } else x.n = 0; return;
    case Instruction::Unreachable: x.op = D_UNREACHABLE; return;
    case Instruction::Br: { auto& Bq = cast<BranchInst>(I); x.x = new Extra; x.x->e0 = edge(BB, Bq.getSuccessor(0)); if (Bq.isConditional()) { x.op = D_CONDBR; x.a = opd(Bq.getCondition()); x.x->e1 = edge(BB, Bq.getSuccessor(1)); } else x.op = D_BR; return; }
    case Instruction::Switch: { auto& S = cast<SwitchInst>(I); x.op = D_SWITCH; x.x = new Extra; x.a = opd(S.getCondition()); x.w = bits(S.getCondition()->getType()); x.x->e0 = edge(BB, S.getDefaultDest()); for (auto& c : S.cases()) x.x->cases.push_back({c.getCaseValue()->getZExtValue(), edge(BB, c.getCaseSuccessor())}); return; }
    case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); x.op = D_ATOMICRMW; x.sub = A.getOperation(); x.a = opd(A.getPointerOperand()); x.b = opd(A.getValOperand()); x.w2 = DL->getTypeStoreSize(I.getType()); return; }
    case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); x.op = D_CMPXCHG; x.a = opd(A.getPointerOperand()); x.b = opd(A.getCompareOperand()); x.c = opd(A.getNewValOperand()); x.w = bits(A.getCompareOperand()->getType()); x.w2 = DL->getTypeStoreSize(A.getCompareOperand()->getType()); return; }
    case Instruction::Fence: x.op = D_NOP; return;
    case Instruction::Call: case Instruction::Invoke: { auto& C = cast<CallBase>(I); x.op = D_CALL; Extra* e = new Extra; x.x = e;
      if (auto* IV = dyn_cast<InvokeInst>(&C)) { e->isinvoke = true; e->e0 = edge(BB, IV->getNormalDest()); e->e1 = edge(BB, IV->getUnwindDest()); }
      if (C.isInlineAsm()) { e->builtin = -2; e->name = "asm"; x.op = D_NOP; return; }
      for (unsigned i = 0; i < C.arg_size(); i++) { Value* v = C.getArgOperand(i); if (v->getType()->isMetadataTy()) { e->args.push_back(0); e->argslots.push_back(0); e->byvalsz.push_back(0); continue; } e->args.push_back(opd(v)); e->argslots.push_back(slots(v->getType())); e->byvalsz.push_back(C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0); }
      if (C.arg_size()) x.w2 = bits(C.getArgOperand(0)->getType());
      const Function* F = C.getCalledFunction(); if (!F) if (auto* al = dyn_cast<GlobalAlias>(C.getCalledOperand())) F = dyn_cast<Function>(al->getAliasee());
      if (F) { e->callee = fmap.at(F); e->name = F->getName().str(); e->builtin = e->callee->builtin; x.imm = F->getIntrinsicID(); }
      else { e->indirect = true; e->fptr = opd(C.getCalledOperand()); }
      return; }
    default: throw std::runtime_error(std::string("opcode ") + I.getOpcodeName());
    }
    x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); if (x.w > 64 && x.op == D_BIN) throw std::runtime_error("wide arithmetic");
  }
  void lpinfo(const LandingPadInst& L, Extra* x) {
    x->cleanup = L.isCleanup();
    for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) { x->lp.push_back({true, {constScalar(L.getClause(i))}}); } else { std::vector<u64> f; const Constant* A = L.getClause(i); unsigned n = cast<ArrayType>(A->getType())->getNumElements(); for (unsigned k = 0; k < n; k++) f.push_back(constScalar(A->getAggregateElement(k))); x->lp.push_back({false, f}); } }
  }
  unsigned suboff(Type* T, unsigned ix) { unsigned s = 0; if (T->isStructTy()) { for (unsigned i = 0; i < ix; i++) s += slots(T->getStructElementType(i)); return s; } return ix * slots(T->getArrayElementType()); }
};
} // namespace bsx
