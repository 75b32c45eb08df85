#include <llvm/Analysis/CaptureTracking.h>
#include "ir.h"
#include "decode.h"
#include <llvm/IR/InlineAsm.h>
using namespace llvm;
Module* g_mod; const DataLayout* g_dl;
std::vector<DFunc*> g_funcs; static std::map<const Function*, DFunc*> fmap;
std::vector<GObj> g_cobjs, g_mobjs; static std::map<const GlobalVariable*, u64> gmap;
std::map<std::string, u64> g_symaddr;
std::map<std::string, int> g_builtins;
std::map<u64, u32> g_typeids;
std::string g_fatal_ctx;
[[noreturn]] void fatal(const std::string& m) { fprintf(stderr, "ENGINE-ERROR: %s %s\n", m.c_str(), g_fatal_ctx.c_str()); printf("ENGINE-ERROR %s %s\n", m.c_str(), g_fatal_ctx.c_str()); fflush(stdout); _Exit(3); }

DFunc* getFunc(const Function* F) {
  auto it = fmap.find(F); if (it != fmap.end()) return it->second;
  auto* d = new DFunc; d->name = F->getName().str(); d->F = F; d->id = g_funcs.size(); d->external = F->isDeclaration();
  d->norace = (F->hasFnAttribute("bsx-env") && !F->getName().contains("_List_node_base") && !F->getName().contains("_Rb_tree")) || F->getName().starts_with("gh_") || [&] { StringRef n = F->getName(); if (!n.consume_front("_ZL")) return false; n = n.drop_while([](char c) { return c >= '0' && c <= '9'; }); return n.starts_with("gh_"); }();
  d->varargs = F->isVarArg();
  auto b = g_builtins.find(d->name); if (b != g_builtins.end()) d->builtin = b->second;
  g_funcs.push_back(d); fmap[F] = d; return d;
}
u64 funcAddr(DFunc* f) { return mkaddr(R_FUNC, f->id, 0); }
DFunc* funcAt(u64 a) { if (aregion(a) != R_FUNC || aoff(a) != 0) return nullptr; u32 s = aslot(a); return s < g_funcs.size() ? g_funcs[s] : nullptr; }

bool flatTy(Type* T, std::vector<u8>& w, std::vector<u64>& off, u64 base) {
  if (T->isIntegerTy()) { unsigned b = T->getIntegerBitWidth(); if (b > 64) return false; w.push_back(b); off.push_back(base); return true; }
  if (T->isPointerTy()) { w.push_back(64); off.push_back(base); return true; }
  if (T->isFloatTy()) { w.push_back(32); off.push_back(base); return true; }
  if (T->isDoubleTy()) { w.push_back(64); off.push_back(base); return true; }
  if (auto* S = dyn_cast<StructType>(T)) { auto* L = g_dl->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) if (!flatTy(S->getElementType(i), w, off, base + L->getElementOffset(i))) return false; return true; }
  if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = g_dl->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) if (!flatTy(A->getElementType(), w, off, base + i * es)) return false; return true; }
  if (auto* A = dyn_cast<FixedVectorType>(T)) { u64 es = g_dl->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) if (!flatTy(A->getElementType(), w, off, base + i * es)) return false; return true; }
  return false;
}
u64 globalAddr(const GlobalVariable* G) {
  auto it = gmap.find(G); if (it != gmap.end()) return it->second;
  GObj o; o.name = G->getName().str(); o.G = G;
  bool c = G->isConstant() || G->isDeclaration();
  o.size = G->isDeclaration() ? 64 : g_dl->getTypeAllocSize(G->getValueType());
  if (o.size > 60000) fatal("global too large: " + o.name);
  o.by.assign(o.size, 0); o.wd.assign(o.size, 0);
  auto& v = c ? g_cobjs : g_mobjs; u64 a = mkaddr(c ? R_CONST : R_GLOB, v.size(), 0); u32 ix = v.size(); v.push_back(o);
  gmap[G] = a; g_symaddr[o.name] = a;
  if (!G->isDeclaration()) {
    std::vector<u8> by(o.size, 0), wd(o.size, 0);
    initConst(G->getInitializer(), by, wd, 0);
    auto& vv = c ? g_cobjs : g_mobjs; vv[ix].by = by; vv[ix].wd = wd;
  }
  return a;
}
static u64 ceEval(const Constant* C);
u64 constVal(const Constant* C) { return ceEval(C); }
static u64 gepOff(const GEPOperator* G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*g_dl, off)) fatal("gep const"); return off.getZExtValue(); }
static u64 ceEval(const Constant* C) {
  if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) fatal("wide const"); return I->getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto* F = dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto* A = dyn_cast<GlobalAlias>(C)) return ceEval(A->getAliasee());
  if (auto* F = dyn_cast<Function>(C)) return funcAddr(getFunc(F));
  if (auto* G = dyn_cast<GlobalVariable>(C)) return globalAddr(G);
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: return ceEval(E->getOperand(0)) + gepOff(cast<GEPOperator>(E));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return ceEval(E->getOperand(0));
    case Instruction::Trunc: return ceEval(E->getOperand(0)) & maskw(E->getType()->getIntegerBitWidth());
    case Instruction::Add: return ceEval(E->getOperand(0)) + ceEval(E->getOperand(1));
    case Instruction::Sub: return (ceEval(E->getOperand(0)) - ceEval(E->getOperand(1))) & maskw(E->getType()->getIntegerBitWidth());
    case Instruction::ICmp: { u64 a = ceEval(E->getOperand(0)), b = ceEval(E->getOperand(1)); return E->getPredicate() == CmpInst::ICMP_EQ ? a == b : E->getPredicate() == CmpInst::ICMP_NE ? a != b : (fatal("ce icmp"), 0); }
    default: break;
    }
  }
  if (auto* D = dyn_cast<DSOLocalEquivalent>(C)) return ceEval(D->getGlobalValue());
  std::string s; raw_string_ostream os(s); C->print(os); fatal("constant: " + s);
}
void initConst(const Constant* C, std::vector<u8>& by, std::vector<u8>& wd, u64 off) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || (isa<UndefValue>(C) && T->isAggregateType())) {
    std::vector<u8> w; std::vector<u64> o; if (T->isArrayTy() && g_dl->getTypeAllocSize(T) > 4096) return; if (flatTy(T, w, o, off)) for (size_t i = 0; i < w.size(); i++) wd[o[i]] = (w[i] + 7) / 8; return; }
  if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = g_dl->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initConst(S->getOperand(i), by, wd, off + L->getElementOffset(i)); return; }
  if (auto* A = dyn_cast<ConstantArray>(C)) { u64 es = g_dl->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(A->getOperand(i), by, wd, off + i * es); return; }
  if (auto* A = dyn_cast<ConstantVector>(C)) { u64 es = g_dl->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(A->getOperand(i), by, wd, off + i * es); return; }
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) { u64 es = g_dl->getTypeAllocSize(D->getElementType()); for (unsigned i = 0; i < D->getNumElements(); i++) { u64 v = D->getElementType()->isIntegerTy() ? D->getElementAsInteger(i) : D->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); wd[off + i * es] = es; for (u64 j = 0; j < es; j++) by[off + i * es + j] = v >> (8 * j); } return; }
  u64 n = g_dl->getTypeStoreSize(T); u64 v = ceEval(C); wd[off] = n; for (u64 j = 0; j < n; j++) by[off + j] = v >> (8 * j);
}
u32 typeId(u64 ti) { auto it = g_typeids.find(ti); if (it != g_typeids.end()) return it->second; u32 n = g_typeids.size() + 1; g_typeids[ti] = n; return n; }

struct Dec {
  DFunc* f; std::map<const Value*, u32> base; std::map<const Value*, std::vector<u8>> wid;
  std::map<const BasicBlock*, u32> bbix;
  u32 alloc(const Value* v, Type* T, bool& ok) {
    std::vector<u8> w; std::vector<u64> o; ok = flatTy(T, w, o, 0);
    u32 b = f->nregs; if (!ok) { w = {64}; } for (u8 x : w) f->rw.push_back(x); f->nregs += w.size(); base[v] = b; wid[v] = w; return b;
  }
  std::vector<Opnd> ops(const Value* v) {
    if (auto it = base.find(v); it != base.end()) { std::vector<Opnd> r; for (u32 i = 0; i < wid[v].size(); i++) r.push_back({true, it->second + i, 0}); return r; }
    if (auto* C = dyn_cast<Constant>(v)) {
      std::vector<u8> w; std::vector<u64> o;
      if (!flatTy(C->getType(), w, o, 0)) return {Opnd{false, 0, 0}};
      if (!C->getType()->isAggregateType() && !C->getType()->isVectorTy()) return {Opnd{false, 0, ceEval(C)}};
      std::vector<u8> by(g_dl->getTypeAllocSize(C->getType()) + 8, 0), wd(by.size(), 0); initConst(C, by, wd, 0);
      std::vector<Opnd> r; for (size_t i = 0; i < w.size(); i++) { u64 x = 0; for (int j = 0; j < (w[i] + 7) / 8; j++) x |= (u64)by[o[i] + j] << (8 * j); r.push_back({false, 0, x & maskw(w[i])}); } return r;
    }
    return {Opnd{false, 0, 0}};
  }
  Opnd op(const Value* v) { auto r = ops(v); return r.empty() ? Opnd{false, 0, 0} : r[0]; }
  u32 subIndex(Type* T, ArrayRef<unsigned> idx) {
    u32 n = 0;
    for (unsigned i : idx) { for (unsigned k = 0; k < i; k++) { Type* E = T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType(); std::vector<u8> w; std::vector<u64> o; flatTy(E, w, o, 0); n += w.size(); } T = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); }
    return n;
  }
  Edge edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.bb = bbix[to];
    for (auto& P : to->phis()) { auto s = ops(P.getIncomingValueForBlock(from)); for (u32 i = 0; i < wid[&P].size(); i++) e.moves.push_back({base[&P] + i, i < s.size() ? s[i] : Opnd{false, 0, 0}}); }
    return e;
  }
  void unsup(DInst& d, const std::string& why) { d.op = D_UNSUP; d.note = new std::string(why); }
  static u8 order(AtomicOrdering o) { return (u8)o; } // 2 monotonic 4 acquire 5 release 6 acq_rel 7 seq_cst
  void inst(const Instruction& I, DInst& d) {
    d.I = &I;
    auto it = base.find(&I); if (it != base.end()) { d.dst = it->second; d.ndst = wid[&I].size(); }
    std::vector<u8> fw; std::vector<u64> fo; bool fok = I.getType()->isVoidTy() || flatTy(I.getType(), fw, fo, 0);
    if (!fok) return unsup(d, "type");
    for (auto& O : I.operands()) if (!O->getType()->isVoidTy() && !O->getType()->isMetadataTy() && !O->getType()->isLabelTy() && !isa<Function>(O)) { std::vector<u8> w; std::vector<u64> o; if (O->getType()->isSized() && !flatTy(O->getType(), w, o, 0)) return unsup(d, "operand type"); }
    if (I.getType()->isVectorTy() && !isa<LoadInst>(I) && !isa<PHINode>(I) && !isa<SelectInst>(I) && !isa<FreezeInst>(I)) return unsup(d, "vector op");
    switch (I.getOpcode()) {
    case Instruction::Add: d.op = D_BIN; d.sub = O_ADD; break; case Instruction::Sub: d.op = D_BIN; d.sub = O_SUB; break; case Instruction::Mul: d.op = D_BIN; d.sub = O_MUL; break;
    case Instruction::UDiv: d.op = D_BIN; d.sub = O_UDIV; break; case Instruction::SDiv: d.op = D_BIN; d.sub = O_SDIV; break; case Instruction::URem: d.op = D_BIN; d.sub = O_UREM; break; case Instruction::SRem: d.op = D_BIN; d.sub = O_SREM; break;
    case Instruction::Shl: d.op = D_BIN; d.sub = O_SHL; break; case Instruction::LShr: d.op = D_BIN; d.sub = O_LSHR; break; case Instruction::AShr: d.op = D_BIN; d.sub = O_ASHR; break;
    case Instruction::And: d.op = D_BIN; d.sub = O_AND; break; case Instruction::Or: d.op = D_BIN; d.sub = O_OR; break; case Instruction::Xor: d.op = D_BIN; d.sub = O_XOR; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: d.op = D_FP; d.sub = I.getOpcode(); d.w = fw[0]; for (auto& O : I.operands()) d.a.push_back(op(O)); return;
    case Instruction::FCmp: d.op = D_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = I.getOperand(0)->getType()->isFloatTy() ? 32 : 64; d.a = {op(I.getOperand(0)), op(I.getOperand(1))}; return;
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: { d.op = D_FCONV; d.sub = I.getOpcode(); std::vector<u8> w; std::vector<u64> o; flatTy(I.getOperand(0)->getType(), w, o, 0); d.w = w[0]; d.w2 = fw[0]; d.a = {op(I.getOperand(0))}; return; }
    case Instruction::ICmp: { auto& C = cast<ICmpInst>(I); d.op = D_ICMP; d.sub = C.getPredicate(); if (C.getOperand(0)->getType()->isVectorTy()) return unsup(d, "vector icmp"); d.w = C.getOperand(0)->getType()->isPointerTy() ? 64 : C.getOperand(0)->getType()->getIntegerBitWidth(); d.a = {op(C.getOperand(0)), op(C.getOperand(1))}; return; }
    case Instruction::Select: { if (I.getOperand(0)->getType()->isVectorTy()) return unsup(d, "vector select"); d.op = D_SELECT; d.a = {op(I.getOperand(0))}; auto x = ops(I.getOperand(1)), y = ops(I.getOperand(2)); for (auto& o : x) d.a.push_back(o); for (auto& o : y) d.a.push_back(o); d.imm.assign(fw.begin(), fw.end()); return; }
    case Instruction::Trunc: d.op = D_TRUNC; d.w = I.getOperand(0)->getType()->getIntegerBitWidth(); d.w2 = fw[0]; d.a = {op(I.getOperand(0))}; return;
    case Instruction::ZExt: d.op = D_ZEXT; d.w = I.getOperand(0)->getType()->getIntegerBitWidth(); d.w2 = fw[0]; d.a = {op(I.getOperand(0))}; return;
    case Instruction::SExt: d.op = D_SEXT; d.w = I.getOperand(0)->getType()->getIntegerBitWidth(); d.w2 = fw[0]; d.a = {op(I.getOperand(0))}; return;
    case Instruction::PtrToInt: if (fw[0] < 64) { d.op = D_TRUNC; d.w = 64; d.w2 = fw[0]; d.a = {op(I.getOperand(0))}; return; } d.op = D_COPY; d.a = {op(I.getOperand(0))}; return;
    case Instruction::IntToPtr: { unsigned w = I.getOperand(0)->getType()->getIntegerBitWidth(); if (w < 64) { d.op = D_ZEXT; d.w = w; d.w2 = 64; d.a = {op(I.getOperand(0))}; return; } d.op = D_COPY; d.a = {op(I.getOperand(0))}; return; }
    case Instruction::BitCast: if (I.getType()->isVectorTy() || I.getOperand(0)->getType()->isVectorTy()) return unsup(d, "vector bitcast"); [[fallthrough]];
    case Instruction::Freeze: case Instruction::AddrSpaceCast: d.op = D_COPY; d.a = ops(I.getOperand(0)); return;
    case Instruction::Load: { auto& L = cast<LoadInst>(I); d.op = D_LOAD; d.a = {op(L.getPointerOperand())}; for (size_t i = 0; i < fw.size(); i++) { d.imm.push_back(fw[i]); d.imm.push_back(fo[i]); } d.atomic = L.isAtomic(); d.ord = order(L.getOrdering()); return; }
    case Instruction::Store: { auto& S = cast<StoreInst>(I); d.op = D_STORE; d.a = {op(S.getPointerOperand())}; std::vector<u8> w; std::vector<u64> o; flatTy(S.getValueOperand()->getType(), w, o, 0); auto v = ops(S.getValueOperand()); for (size_t i = 0; i < w.size(); i++) { d.a.push_back(v[i]); d.imm.push_back(w[i]); d.imm.push_back(o[i]); } d.atomic = S.isAtomic(); d.ord = order(S.getOrdering()); return; }
    case Instruction::GetElementPtr: {
      if (I.getType()->isVectorTy()) return unsup(d, "vector gep");
      auto& G = cast<GetElementPtrInst>(I); d.op = D_GEP; d.a = {op(G.getPointerOperand())}; u64 c = 0;
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        Value* ix = gi.getOperand();
        if (StructType* ST = gi.getStructTypeOrNull()) { c += g_dl->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sc = g_dl->getTypeAllocSize(gi.getIndexedType());
        if (auto* CI = dyn_cast<ConstantInt>(ix)) { c += sc * (u64)CI->getSExtValue(); continue; }
        d.a.push_back(op(ix)); d.imm.push_back(sc); d.imm.push_back(ix->getType()->getIntegerBitWidth());
      }
      d.imm.insert(d.imm.begin(), c); return; }
    case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); d.op = D_ALLOCA; u64 n = 1; if (auto* CI = dyn_cast<ConstantInt>(A.getArraySize())) n = CI->getZExtValue(); else return unsup(d, "dynamic alloca"); d.imm = {g_dl->getTypeAllocSize(A.getAllocatedType()) * n}; d.sub = !PointerMayBeCaptured(&A, true, true); return; }
    case Instruction::Br: { auto& B = cast<BranchInst>(I); if (B.isUnconditional()) { d.op = D_BR; d.e = {edge(I.getParent(), B.getSuccessor(0))}; } else { d.op = D_CBR; d.a = {op(B.getCondition())}; d.e = {edge(I.getParent(), B.getSuccessor(0)), edge(I.getParent(), B.getSuccessor(1))}; } return; }
    case Instruction::Switch: { auto& S = cast<SwitchInst>(I); d.op = D_SWITCH; d.w = S.getCondition()->getType()->getIntegerBitWidth(); d.a = {op(S.getCondition())}; d.e.push_back(edge(I.getParent(), S.getDefaultDest())); for (auto& c : S.cases()) { d.imm.push_back(c.getCaseValue()->getZExtValue()); d.e.push_back(edge(I.getParent(), c.getCaseSuccessor())); } return; }
    case Instruction::Ret: d.op = D_RET; if (I.getNumOperands()) d.a = ops(I.getOperand(0)); return;
    case Instruction::Unreachable: d.op = D_UNREACH; return;
    case Instruction::Resume: d.op = D_RESUME; d.a = ops(I.getOperand(0)); return;
    case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); d.op = D_LPAD; d.cleanup = L.isCleanup();
      for (unsigned i = 0; i < L.getNumClauses(); i++) { LClause c; c.isFilter = L.isFilter(i); if (!c.isFilter) c.ti = ceEval(L.getClause(i)); else { auto* A = dyn_cast<ConstantArray>(L.getClause(i)); if (A) for (auto& o : A->operands()) c.filt.push_back(ceEval(cast<Constant>(o))); c.ti = 0; } d.clauses.push_back(c); } return; }
    case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); d.op = D_COPY; auto s = ops(E.getAggregateOperand()); u32 k = subIndex(E.getAggregateOperand()->getType(), E.getIndices()); for (u32 i = 0; i < d.ndst; i++) d.a.push_back(s[k + i]); return; }
    case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); d.op = D_COPY; d.a = ops(E.getAggregateOperand()); d.a.resize(d.ndst, Opnd{false, 0, 0}); u32 k = subIndex(I.getType(), E.getIndices()); auto s = ops(E.getInsertedValueOperand()); for (u32 i = 0; i < s.size(); i++) d.a[k + i] = s[i]; return; }
    case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); d.op = D_RMW; d.sub = A.getOperation(); d.w = fw[0]; d.a = {op(A.getPointerOperand()), op(A.getValOperand())}; d.atomic = true; d.ord = order(A.getOrdering()); return; }
    case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); d.op = D_CMPXCHG; d.w = fw[0]; d.a = {op(A.getPointerOperand()), op(A.getCompareOperand()), op(A.getNewValOperand())}; d.atomic = true; d.ord = order(A.getSuccessOrdering()); d.ord2 = order(A.getFailureOrdering()); return; }
    case Instruction::Fence: d.op = D_FENCE; d.ord = order(cast<FenceInst>(I).getOrdering()); return;
    case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I), d);
    default: return unsup(d, std::string("opcode ") + I.getOpcodeName());
    }
    d.w = d.w2 = fw[0]; d.a = {op(I.getOperand(0)), op(I.getOperand(1))};
  }
  void call(const CallBase& C, DInst& d) {
    d.op = D_CALL;
    if (auto* IV = dyn_cast<InvokeInst>(&C)) { d.invoke = true; d.e = {edge(C.getParent(), IV->getNormalDest()), edge(C.getParent(), IV->getUnwindDest())}; }
    if (C.isInlineAsm()) { auto* IA = cast<InlineAsm>(C.getCalledOperand()); std::string s = IA->getAsmString(); if (s.empty() || s == "pause" || s == "rep; nop" || s == "rep;nop" || s.find("pause") != std::string::npos) { d.op = D_NOP; return; } return unsup(d, "asm " + s); }
    const Value* cv = C.getCalledOperand()->stripPointerCasts(); while (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
    const Function* F = dyn_cast<Function>(cv);
    if (F && F->isIntrinsic()) {
      auto A = [&](int i) { return C.getArgOperand(i); };
      switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: d.op = D_LIFE; d.sub = 1; d.a = {op(A(1))}; d.imm = {cast<ConstantInt>(A(0))->getZExtValue()}; return;
      case Intrinsic::lifetime_end: d.op = D_LIFE; d.sub = 0; d.a = {op(A(1))}; d.imm = {cast<ConstantInt>(A(0))->getZExtValue()}; return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: d.op = D_MEMCPY; d.sub = F->getIntrinsicID() == Intrinsic::memmove; d.a = {op(A(0)), op(A(1)), op(A(2))}; d.w = A(2)->getType()->getIntegerBitWidth(); return;
      case Intrinsic::memset: d.op = D_MEMSET; d.a = {op(A(0)), op(A(1)), op(A(2))}; d.w = A(2)->getType()->getIntegerBitWidth(); return;
      case Intrinsic::assume: case Intrinsic::vastart: d.op = D_NOP; return;
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::stackrestore: d.op = D_NOP; return;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: d.op = D_COPY; d.a = {op(A(0))}; return;
      case Intrinsic::is_constant: d.op = D_COPY; d.a = {Opnd{false, 0, 0}}; return;
      case Intrinsic::objectsize: d.op = D_COPY; d.a = {Opnd{false, 0, ~0ull}}; return;
      case Intrinsic::eh_typeid_for: d.op = D_COPY; d.a = {Opnd{false, 0, typeId(ceEval(cast<Constant>(A(0))))}}; return;
      case Intrinsic::trap: case Intrinsic::ubsantrap: d.op = D_UNREACH; d.sub = 1; return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: d.op = D_MINMAX; d.w = C.getType()->getIntegerBitWidth(); d.sub = F->getIntrinsicID() == Intrinsic::umin ? 0 : F->getIntrinsicID() == Intrinsic::umax ? 1 : F->getIntrinsicID() == Intrinsic::smin ? 2 : 3; d.a = {op(A(0)), op(A(1))}; return;
      case Intrinsic::abs: d.op = D_ABS; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0))}; return;
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        d.op = D_OVF; d.w = A(0)->getType()->getIntegerBitWidth(); d.a = {op(A(0)), op(A(1))};
        auto id = F->getIntrinsicID(); d.sub = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::uadd_with_overflow ? 1 : id == Intrinsic::ssub_with_overflow ? 2 : id == Intrinsic::usub_with_overflow ? 3 : id == Intrinsic::smul_with_overflow ? 4 : 5; return; }
      case Intrinsic::usub_sat: case Intrinsic::uadd_sat: d.op = D_MINMAX; d.sub = F->getIntrinsicID() == Intrinsic::usub_sat ? 4 : 5; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0)), op(A(1))}; return;
      case Intrinsic::fshl: case Intrinsic::fshr: d.op = D_FSHL; d.sub = F->getIntrinsicID() == Intrinsic::fshr; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0)), op(A(1)), op(A(2))}; return;
      case Intrinsic::ctpop: d.op = D_CTPOP; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0))}; return;
      case Intrinsic::cttz: d.op = D_CTZ; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0))}; return;
      case Intrinsic::ctlz: d.op = D_CTLZ; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0))}; return;
      case Intrinsic::bswap: d.op = D_BSWAP; d.w = C.getType()->getIntegerBitWidth(); d.a = {op(A(0))}; return;
      case Intrinsic::stacksave: d.op = D_COPY; d.a = {Opnd{false, 0, 0}}; return;
      default: return unsup(d, "intrinsic " + F->getName().str());
      }
    }
    if (F) { d.callee = getFunc(F); d.builtin = d.callee->builtin; }
    else d.a.push_back(op(C.getCalledOperand()));
    d.sub = F ? 0 : 1;
    for (unsigned i = 0; i < C.arg_size(); i++) {
      auto o = ops(C.getArgOperand(i)); u32 st = d.a.size(); for (auto& x : o) d.a.push_back(x); d.args.push_back({st, (u32)o.size()});
      d.imm.push_back(C.isByValArgument(i) ? (u64)g_dl->getTypeAllocSize(C.getParamByValType(i)) : 0);
    }
  }
};
static void liveStep(DFunc* f, const DInst& d, std::vector<u64>& L) {
  auto kill = [&](u32 r) { L[r >> 6] &= ~(1ull << (r & 63)); };
  auto gen = [&](const Opnd& o) { if (o.reg) L[o.r >> 6] |= 1ull << (o.r & 63); };
  for (u32 i = 0; i < d.ndst; i++) kill(d.dst + i);
  for (auto& o : d.a) gen(o);
}
static void edgeLive(DFunc* f, const Edge& e, std::vector<u64>& out) {
  std::vector<u64> t = f->livein[e.bb];
  for (auto& m : e.moves) t[m.dst >> 6] &= ~(1ull << (m.dst & 63));
  for (auto& m : e.moves) if (m.src.reg) t[m.src.r >> 6] |= 1ull << (m.src.r & 63);
  for (size_t i = 0; i < out.size(); i++) out[i] |= t[i];
}
static bool isTerm(const DInst& d) { return d.op == D_BR || d.op == D_CBR || d.op == D_SWITCH || d.op == D_RET || d.op == D_UNREACH && d.I->isTerminator() || d.op == D_RESUME || d.invoke; }
void decode(DFunc* f) {
  if (f->decoded) return; f->decoded = true;
  g_fatal_ctx = "decoding " + f->name;
  Dec D; D.f = f; bool ok;
  for (auto& A : f->F->args()) { u32 b = D.alloc(&A, A.getType(), ok); for (u32 i = 0; i < D.wid[&A].size(); i++) f->params.push_back(b + i); }
  u32 nb = 0; for (auto& B : *f->F) D.bbix[&B] = nb++;
  for (auto& B : *f->F) for (auto& I : B) if (!I.getType()->isVoidTy()) D.alloc(&I, I.getType(), ok);
  f->bbstart.resize(nb);
  for (auto& B : *f->F) {
    u32 bi = D.bbix[&B]; f->bbstart[bi] = f->ins.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst d; D.inst(I, d); d.idx = f->ins.size(); f->ins.push_back(d); f->bbof.push_back(bi);
    }
  }
  for (auto& d : f->ins) for (auto& e : d.e) e.target = f->bbstart[e.bb];
  // liveness
  u32 nw = (f->nregs + 63) / 64; f->livein.assign(nb, std::vector<u64>(nw, 0));
  bool ch = true;
  while (ch) { ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      u32 s = f->bbstart[b], e = b + 1 < (int)nb ? f->bbstart[b + 1] : f->ins.size();
      std::vector<u64> L(nw, 0);
      for (int i = (int)e - 1; i >= (int)s; i--) { for (auto& ed : f->ins[i].e) edgeLive(f, ed, L); liveStep(f, f->ins[i], L); }
      if (L != f->livein[b]) { f->livein[b] = L; ch = true; }
    } }
  g_fatal_ctx = "";
}
// registers live just before instruction ip
const std::vector<u64>& liveBefore(DFunc* f, u32 ip, bool afterCall) {
  u32 key = ip * 2 + afterCall; auto it = f->liveAt.find(key); if (it != f->liveAt.end()) return it->second;
  u32 b = f->bbof[ip], e = b + 1 < f->bbstart.size() ? f->bbstart[b + 1] : f->ins.size(); u32 nw = (f->nregs + 63) / 64;
  std::vector<u64> L(nw, 0);
  for (int i = (int)e - 1; i >= (int)ip; i--) {
    for (auto& ed : f->ins[i].e) edgeLive(f, ed, L);
    if (i == (int)ip && afterCall) { for (u32 k = 0; k < f->ins[i].ndst; k++) { u32 r = f->ins[i].dst + k; L[r >> 6] &= ~(1ull << (r & 63)); } break; }
    liveStep(f, f->ins[i], L);
  }
  return f->liveAt[key] = L;
}
std::string instLoc(const DInst* d) {
  std::string r; if (!d || !d->I) return "?";
  r = d->I->getFunction()->getName().str();
  if (auto& L = d->I->getDebugLoc()) { r += " " + L->getFilename().str() + ":" + std::to_string(L->getLine()); }
  return r;
}
