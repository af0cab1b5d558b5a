#include "prog.h"
#include "fp.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
using namespace llvm;

std::vector<Func> funcs;
std::vector<GlobalObj> gobjs;
std::vector<u128> cpool;
static std::unique_ptr<Module> M;
static LLVMContext C;
static const DataLayout *DL;
static DenseMap<const GlobalValue *, u64> gaddr;
static std::map<std::string, int> fidx;
static DenseMap<const Function *, int> fnum;

struct Leaf { unsigned w; u64 off; };
static bool leaves(Type *t, u64 off, std::vector<Leaf> &out) {
  if (t->isVoidTy()) return true;
  if (auto *it = dyn_cast<IntegerType>(t)) { if (it->getBitWidth() > 128) return false; out.push_back({it->getBitWidth(), off}); return true; }
  if (t->isPointerTy()) { out.push_back({64, off}); return true; }
  if (t->isFloatTy()) { out.push_back({32, off}); return true; }
  if (t->isDoubleTy()) { out.push_back({64, off}); return true; }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (!leaves(st->getElementType(i), off + sl->getElementOffset(i).getFixedValue(), out)) return false;
    return true;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 s = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) if (!leaves(at->getElementType(), off + i * s, out)) return false;
    return true;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 s = (DL->getTypeSizeInBits(vt->getElementType()) + 7) / 8;
    for (u64 i = 0; i < vt->getNumElements(); i++) if (!leaves(vt->getElementType(), off + i * s, out)) return false;
    return true;
  }
  return false;
}
static unsigned nleaves(Type *t) { std::vector<Leaf> l; if (!leaves(t, 0, l)) return 0; return l.size(); }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nleaves(st->getElementType(k)); t = st->getElementType(i); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { r += i * nleaves(at->getElementType()); t = at->getElementType(); }
  }
  return r;
}

static u128 apToU128(const APInt &a) { u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r & maskw(a.getBitWidth()); }

static bool constScalar(const Constant *c, u128 &out);
static bool constLeaves(const Constant *c, std::vector<u128> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back(0); return true; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < cds->getNumElements(); i++) if (!constLeaves(cds->getElementAsConstant(i), out)) return false;
      return true;
    }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) if (!constLeaves(cast<Constant>(c->getOperand(i)), out)) return false; return true; }
    return false;
  }
  u128 v; if (!constScalar(c, v)) return false; out.push_back(v); return true;
}
static bool constScalar(const Constant *c, u128 &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out = apToU128(ci->getValue()); return true; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { out = 0; return true; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out = apToU128(cf->getValueAPF().bitcastToAPInt()); return true; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee(), out);
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) return false; out = it->second; return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    u128 a, b;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *gep = cast<GEPOperator>(ce);
      if (!gep->accumulateConstantOffset(*DL, off)) return false;
      if (!constScalar(cast<Constant>(gep->getPointerOperand()), a)) return false;
      out = (a + apToU128(off)) & maskw(64); return true;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
      if (!constScalar(ce->getOperand(0), a)) return false;
      out = a & maskw(DL->getTypeSizeInBits(ce->getType())); return true;
    case Instruction::Sub: case Instruction::Add: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
      u128 m = maskw(DL->getTypeSizeInBits(ce->getType()));
      switch (ce->getOpcode()) { case Instruction::Sub: out = (a - b) & m; break; case Instruction::Add: out = (a + b) & m; break; case Instruction::And: out = a & b; break; case Instruction::Or: out = a | b; break; default: out = a ^ b; }
      return true;
    }
    case Instruction::ICmp: {
      if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: out = a == b; return true; case CmpInst::ICMP_NE: out = a != b; return true; case CmpInst::ICMP_ULT: out = a < b; return true; case CmpInst::ICMP_UGT: out = a > b; return true; default: return false; }
    }
    default: return false;
    }
  }
  return false;
}
static void writeBytes(std::vector<u8> &b, u64 off, u128 v, unsigned n) { for (unsigned i = 0; i < n && off + i < b.size(); i++) b[off + i] = (u8)(v >> (8 * i)); }
static bool initBytes(const Constant *c, u64 off, std::vector<u8> &b) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return true;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cds->getRawDataValues(); memcpy(b.data() + off, s.data(), s.size()); return true;
  }
  std::vector<Leaf> ls;
  Type *t = c->getType();
  if (isa<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < c->getNumOperands(); i++) if (!initBytes(cast<Constant>(c->getOperand(i)), off + sl->getElementOffset(i).getFixedValue(), b)) return false; return true; }
    u64 s = t->isArrayTy() ? (u64)DL->getTypeAllocSize(t->getArrayElementType()) : (u64)DL->getTypeAllocSize(cast<FixedVectorType>(t)->getElementType());
    for (unsigned i = 0; i < c->getNumOperands(); i++) if (!initBytes(cast<Constant>(c->getOperand(i)), off + i * s, b)) return false;
    return true;
  }
  u128 v; if (!constScalar(c, v)) return false;
  writeBytes(b, off, v, (unsigned)((DL->getTypeSizeInBits(t) + 7) / 8));
  return true;
}
void materialiseGlobal(u32 id) {
  GlobalObj &g = gobjs[id]; if (g.materialised) return; g.materialised = true;
  if (g.isFunc) return;
  auto *gv = (GlobalVariable *)g.llvm;
  g.bytes.assign(g.size, 0);
  if (gv->hasInitializer() && !initBytes(gv->getInitializer(), 0, g.bytes)) fprintf(stderr, "warning: initializer of %s not fully evaluated\n", g.name.c_str());
}

static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
static int classify(const std::string &n, Function &F) {
  static const std::map<std::string, int> ex = {
    {"__rust_alloc", H_ALLOC}, {"__rust_alloc_zeroed", H_ALLOC_ZEROED}, {"__rust_dealloc", H_DEALLOC}, {"__rust_realloc", H_REALLOC},
    {"__rdl_alloc", H_ALLOC}, {"__rdl_alloc_zeroed", H_ALLOC_ZEROED}, {"__rdl_dealloc", H_DEALLOC}, {"__rdl_realloc", H_REALLOC},
    {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"free", H_FREE}, {"realloc", H_LIBC_REALLOC},
    {"memcmp", H_MEMCMP}, {"bcmp", H_MEMCMP}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"strlen", H_STRLEN},
    {"rust_begin_unwind", H_PANIC}, {"rust_panic", H_PANIC}, {"abort", H_ABORT}, {"__rust_alloc_error_handler", H_PANIC}, {"rust_oom", H_PANIC},
    {"sx_assume", H_SX_ASSUME}, {"sx_assert", H_SX_ASSERT}, {"sx_reach", H_SX_REACH}, {"sx_observe", H_SX_OBSERVE},
    {"sx_u8", H_SX_VAR}, {"sx_u16", H_SX_VAR}, {"sx_u32", H_SX_VAR}, {"sx_u64", H_SX_VAR}, {"sx_bool", H_SX_VAR},
    {"sx_param", H_SX_PARAM}, {"sx_conc", H_SX_CONC}, {"sx_heap_peak", H_SX_HEAP}, {"sx_heap_reset", H_SX_HEAPRESET}, {"sx_heap_live", H_SX_LIVE},
  };
  auto it = ex.find(n); if (it != ex.end()) return it->second;
  if (has(n, "hashmap_random_keys")) return H_RANDKEYS;
  if (n.rfind("_ZN4core3fmt5write17h", 0) == 0) return H_FMT_WRITE;
  if (F.doesNotReturn() && (has(n, "core9panicking") || has(n, "3std9panicking") || has(n, "handle_alloc_error") || has(n, "capacity_overflow") || has(n, "unwrap_failed") || has(n, "expect_failed")
      || has(n, "_len_fail") || has(n, "_order_fail") || has(n, "_overflow_fail") || has(n, "slice_error_fail") || has(n, "len_mismatch_fail") || has(n, "rust_panic") || has(n, "begin_panic") || has(n, "panic_")
      || has(n, "assert_failed"))) return H_PANIC;
  if (has(n, "core9panicking") && has(n, "assert_failed")) return H_PANIC;
  return H_NONE;
}

void loadModule(const char *path) {
  // LLVM 18 upgrades the x86 data layout (i128 becomes 16-aligned); the producing compiler used 8. Keep its layout.
  SMDiagnostic err; M = parseIRFile(path, err, C);
  if (!M) { err.print("symx", errs()); exit(65); }
  if (Error e = M->materializeAll()) { errs() << "materialize: " << toString(std::move(e)) << "\n"; exit(65); }
  { std::string d = M->getDataLayoutStr(); size_t k = d.find("-i128:128"); if (k != std::string::npos) { d.erase(k, 9); M->setDataLayout(d); } }
  DL = &M->getDataLayout();
  gobjs.resize(1);
  for (Function &F : *M) {
    u32 id = gobjs.size(); GlobalObj g; g.name = F.getName().str(); g.isFunc = true; g.func = funcs.size(); g.constant = true; gobjs.push_back(g);
    gaddr[&F] = (u64)id << 32; Func fn; fn.name = g.name; fn.llvm = &F; fn.isDecl = F.isDeclaration(); fn.addr = (u64)id << 32;
    fn.hook = classify(fn.name, F); if (fn.isDecl && !fn.hook && !F.isIntrinsic()) fn.hook = H_EXTERN_UNKNOWN;
    fnum[&F] = funcs.size(); fidx[fn.name] = funcs.size(); funcs.push_back(fn);
  }
  for (GlobalVariable &G : M->globals()) {
    u32 id = gobjs.size(); GlobalObj g; g.name = G.getName().str(); g.constant = G.isConstant(); g.llvm = &G;
    g.size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; gobjs.push_back(g); gaddr[&G] = (u64)id << 32;
  }
  for (GlobalAlias &A : M->aliases()) { if (auto *f = dyn_cast<Function>(A.getAliaseeObject())) { fidx[A.getName().str()] = fnum[f]; } }
}
int findFunc(const std::string &n) { auto it = fidx.find(n); return it == fidx.end() ? -1 : it->second; }

struct Tr {
  Func &f; Function &F; DenseMap<const Value *, Opnd> vmap; std::map<u128, Opnd> cmap; u32 nregs = 0;
  std::vector<std::pair<u32, const BasicBlock *>> dummy; DenseMap<const BasicBlock *, u32> bpc;
  struct PendEdge { u32 edge; const BasicBlock *from, *to; }; std::vector<PendEdge> pend;
  Tr(Func &f) : f(f), F(*(Function *)f.llvm) {}
  Opnd konst(u128 v) { auto it = cmap.find(v); if (it != cmap.end()) return it->second; cpool.push_back(v); Opnd o = ~(Opnd)(cpool.size() - 1); cmap[v] = o; return o; }
  Opnd lane(Opnd b, unsigned i) { return b >= 0 ? b + (Opnd)i : ~(Opnd)((~b) + i); }
  bool bad = false;
  Opnd val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<u128> ls; if (!constLeaves(c, ls)) { bad = true; return konst(0); }
      if (ls.size() == 1) return konst(ls[0]);
      if (ls.empty()) return konst(0);
      u32 b = cpool.size(); for (u128 x : ls) cpool.push_back(x); return ~(Opnd)b;
    }
    auto it = vmap.find(v); if (it == vmap.end()) { bad = true; return konst(0); }
    return it->second;
  }
  int32_t alloc(unsigned n) { int32_t r = nregs; nregs += n; return r; }
  void emit(u8 op, u8 w, int32_t dst, Opnd a = 0, Opnd b = 0, Opnd c = 0, u64 imm = 0, u8 sub = 0, u32 ext = 0, u8 sub2 = 0) {
    Insn i; i.op = op; i.w = w; i.sub = sub; i.sub2 = sub2; i.dst = dst; i.a = a; i.b = b; i.c = c; i.imm = imm; i.ext = ext; f.code.push_back(i);
  }
  void unsupported(const Instruction &I) {
    std::string s; raw_string_ostream os(s); I.print(os); f.msgs.push_back(s);
    emit(OP_UNSUPPORTED, 0, 0, 0, 0, 0, 0, 0, f.msgs.size() - 1);
  }
  u32 edge(const BasicBlock *from, const BasicBlock *to) { u32 e = f.edges.size(); f.edges.push_back({}); pend.push_back({e, from, to}); return e; }
  // assign result slots for every instruction first (phis and forward refs), except aliases
  void assign() {
    for (Argument &A : F.args()) { unsigned n = nleaves(A.getType()); vmap[&A] = alloc(n); }
    f.nargs = nregs;
    // aliases need their operands assigned: iterate in RPO-insensitive way by resolving on demand
    for (Instruction &I : instructions(F)) {
      if (I.getType()->isVoidTy()) continue;
      if (isa<ExtractValueInst>(I)) continue;
      if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { if (isa<ConstantInt>(ee->getIndexOperand())) continue; }
      unsigned n = nleaves(I.getType()); vmap[&I] = alloc(n ? n : 1);
    }
    for (Instruction &I : instructions(F)) resolveAlias(&I);
  }
  void resolveAlias(const Value *v) {
    if (vmap.count(v)) return;
    if (auto *ev = dyn_cast<ExtractValueInst>(v)) {
      const Value *agg = ev->getAggregateOperand(); if (!isa<Constant>(agg)) resolveAlias(agg);
      vmap[v] = lane(val(agg), leafIndex(agg->getType(), ev->getIndices()));
    } else if (auto *ee = dyn_cast<ExtractElementInst>(v)) {
      if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { const Value *agg = ee->getVectorOperand(); if (!isa<Constant>(agg)) resolveAlias(agg); vmap[v] = lane(val(agg), ci->getZExtValue()); }
    }
  }
  void run() {
    assign();
    for (BasicBlock &B : F) { bpc[&B] = f.code.size(); for (Instruction &I : B) { if (isa<PHINode>(I)) continue; bad = false; size_t n0 = f.code.size(); tr(I); if (bad) { f.code.resize(n0); unsupported(I); } } }
    for (auto &p : pend) {
      Edge &e = f.edges[p.edge]; e.pc = bpc[p.to]; e.block = 0; e.parallel = false; std::vector<int32_t> dsts;
      for (const PHINode &P : p.to->phis()) {
        unsigned n = nleaves(P.getType()); Opnd s = val(P.getIncomingValueForBlock(p.from)); int32_t d = vmap[&P];
        for (unsigned i = 0; i < n; i++) e.moves.push_back({d + (int)i, lane(s, i)});
      }
      for (size_t i = 0; i < e.moves.size(); i++) for (size_t j = i + 1; j < e.moves.size(); j++) if (e.moves[j].second == e.moves[i].first) e.parallel = true;
    }
    f.nregs = nregs ? nregs : 1; f.translated = true;
  }
  void callLike(CallBase &I, int edgeIdx);
  void tr(Instruction &I);
  bool intrinsic(CallBase &I);
};
static Pred predOf(CmpInst::Predicate p) {
  switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE; case CmpInst::ICMP_UGT: return P_UGT; case CmpInst::ICMP_UGE: return P_UGE;
  case CmpInst::ICMP_SLT: return P_SLT; case CmpInst::ICMP_SLE: return P_SLE; case CmpInst::ICMP_SGT: return P_SGT; default: return P_SGE; }
}
static unsigned laneW(Type *t) { std::vector<Leaf> l; leaves(t, 0, l); return l.empty() ? 0 : l[0].w; }

void Tr::tr(Instruction &I) {
  Type *T = I.getType();
  std::vector<Leaf> L; if (!leaves(T, 0, L)) { unsupported(I); return; }
  if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
    EOp op;
    switch (bo->getOpcode()) {
    case Instruction::Add: op = E_ADD; break; case Instruction::Sub: op = E_SUB; break; case Instruction::Mul: op = E_MUL; break;
    case Instruction::UDiv: op = E_UDIV; break; case Instruction::SDiv: op = E_SDIV; break; case Instruction::URem: op = E_UREM; break; case Instruction::SRem: op = E_SREM; break;
    case Instruction::And: op = E_AND; break; case Instruction::Or: op = E_OR; break; case Instruction::Xor: op = E_XOR; break;
    case Instruction::Shl: op = E_SHL; break; case Instruction::LShr: op = E_LSHR; break; case Instruction::AShr: op = E_ASHR; break;
    default: unsupported(I); return;
    }
    Opnd a = val(I.getOperand(0)), b = val(I.getOperand(1)); int32_t d = vmap[&I];
    for (unsigned i = 0; i < L.size(); i++) emit(OP_BIN, L[i].w, d + i, lane(a, i), lane(b, i), 0, 0, op);
    return;
  }
  if (auto *ic = dyn_cast<ICmpInst>(&I)) {
    Opnd a = val(I.getOperand(0)), b = val(I.getOperand(1)); int32_t d = vmap[&I]; unsigned w = laneW(I.getOperand(0)->getType());
    for (unsigned i = 0; i < L.size(); i++) emit(OP_ICMP, w, d + i, lane(a, i), lane(b, i), 0, 0, predOf(ic->getPredicate()));
    return;
  }
  auto flt = [](Type *t) { t = t->getScalarType(); return t->isFloatTy() || t->isDoubleTy(); };
  auto fp = [&](u8 kind, u8 sub = 0) {
    Opnd a = val(I.getOperand(0)), b = kind == FP_CMP ? val(I.getOperand(1)) : 0; int32_t d = vmap[&I]; unsigned sw = laneW(I.getOperand(0)->getType());
    for (unsigned i = 0; i < L.size(); i++) emit(OP_FP, L[i].w, d + i, lane(a, i), kind == FP_CMP ? lane(b, i) : 0, 0, sw, kind, 0, sub);
  };
  switch (I.getOpcode()) {
  case Instruction::SIToFP: if (!flt(T)) { unsupported(I); return; } fp(FP_SI2F); return;
  case Instruction::UIToFP: if (!flt(T)) { unsupported(I); return; } fp(FP_UI2F); return;
  case Instruction::FPExt: if (!flt(T) || !flt(I.getOperand(0)->getType())) { unsupported(I); return; } fp(FP_EXT); return;
  case Instruction::FPTrunc: if (!flt(T) || !flt(I.getOperand(0)->getType())) { unsupported(I); return; } fp(FP_TRUNC); return;
  case Instruction::FPToSI: if (!flt(I.getOperand(0)->getType())) { unsupported(I); return; } fp(FP_F2SI); return;
  case Instruction::FPToUI: if (!flt(I.getOperand(0)->getType())) { unsupported(I); return; } fp(FP_F2UI); return;
  case Instruction::FNeg: if (!flt(T)) { unsupported(I); return; } fp(FP_NEG); return;
  case Instruction::FCmp: if (!flt(I.getOperand(0)->getType())) { unsupported(I); return; } fp(FP_CMP, cast<FCmpInst>(I).getPredicate()); return;
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Opnd a = val(I.getOperand(0)); int32_t d = vmap[&I]; unsigned sw = laneW(I.getOperand(0)->getType());
    for (unsigned i = 0; i < L.size(); i++) {
      u8 op = I.getOpcode() == Instruction::SExt ? OP_SEXT : L[i].w > sw ? OP_ZEXT : L[i].w < sw ? OP_TRUNC : OP_MOV;
      emit(op, L[i].w, d + i, lane(a, i), 0, 0, 0, sw);
    }
    return;
  }
  case Instruction::Freeze: { Opnd a = val(I.getOperand(0)); int32_t d = vmap[&I]; for (unsigned i = 0; i < L.size(); i++) emit(OP_MOV, L[i].w, d + i, lane(a, i)); return; }
  case Instruction::BitCast: {
    Opnd a = val(I.getOperand(0)); int32_t d = vmap[&I]; std::vector<Leaf> S; leaves(I.getOperand(0)->getType(), 0, S);
    if (S.size() == L.size()) { for (unsigned i = 0; i < L.size(); i++) emit(OP_MOV, L[i].w, d + i, lane(a, i)); return; }
    BitcastInfo bi; unsigned tot = 0; for (unsigned i = 0; i < S.size(); i++) { bi.src.push_back({lane(a, i), (u8)S[i].w}); tot += S[i].w; } for (auto &l : L) bi.dst.push_back(l.w);
    if (tot > 128) { unsupported(I); return; }
    f.bitcasts.push_back(bi); emit(OP_BITCAST, 0, d, 0, 0, 0, 0, 0, f.bitcasts.size() - 1); return;
  }
  case Instruction::Select: {
    Opnd c = val(I.getOperand(0)), a = val(I.getOperand(1)), b = val(I.getOperand(2)); int32_t d = vmap[&I]; bool vc = I.getOperand(0)->getType()->isVectorTy();
    for (unsigned i = 0; i < L.size(); i++) emit(OP_SELECT, L[i].w, d + i, lane(a, i), lane(b, i), vc ? lane(c, i) : c);
    return;
  }
  case Instruction::Load: {
    if (auto *vt = dyn_cast<FixedVectorType>(T)) if (DL->getTypeSizeInBits(vt->getElementType()) % 8) { unsupported(I); return; }
    Opnd p = val(I.getOperand(0)); int32_t d = vmap[&I];
    for (unsigned i = 0; i < L.size(); i++) emit(OP_LOAD, L[i].w, d + i, p, 0, 0, L[i].off);
    return;
  }
  case Instruction::Store: {
    Type *VT = I.getOperand(0)->getType(); std::vector<Leaf> S; if (!leaves(VT, 0, S)) { unsupported(I); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(VT)) if (DL->getTypeSizeInBits(vt->getElementType()) % 8) { unsupported(I); return; }
    if (isa<UndefValue>(I.getOperand(0))) { emit(OP_NOP, 0, 0); return; }
    Opnd p = val(I.getOperand(1)), v = val(I.getOperand(0));
    for (unsigned i = 0; i < S.size(); i++) emit(OP_STORE, S[i].w, 0, p, lane(v, i), 0, S[i].off);
    return;
  }
  case Instruction::GetElementPtr: {
    auto *gep = cast<GetElementPtrInst>(&I); if (T->isVectorTy()) { unsupported(I); return; }
    GepInfo gi; u64 imm = 0; Opnd base = val(gep->getPointerOperand());
    for (gep_type_iterator it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
      Value *op = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) { imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()).getFixedValue(); continue; }
      u64 s = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(op)) { imm += s * (u64)ci->getSExtValue(); continue; }
      gi.terms.push_back({val(op), s}); gi.widths.push_back(laneW(op->getType()));
    }
    if (gi.terms.empty()) { emit(OP_GEP, 64, vmap[&I], base, 0, 0, imm, 0, ~0u); return; }
    f.geps.push_back(gi); emit(OP_GEP, 64, vmap[&I], base, 0, 0, imm, 0, f.geps.size() - 1);
    return;
  }
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(&I); u64 s = DL->getTypeAllocSize(ai->getAllocatedType());
    if (auto *ci = dyn_cast<ConstantInt>(ai->getArraySize())) s *= ci->getZExtValue(); else { unsupported(I); return; }
    emit(OP_ALLOCA, 64, vmap[&I], 0, 0, 0, s); return;
  }
  case Instruction::Br: {
    auto *bi = cast<BranchInst>(&I);
    if (bi->isUnconditional()) { u32 e = edge(I.getParent(), bi->getSuccessor(0)); emit(OP_BR, 0, 0, 0, 0, 0, 0, 0, e); }
    else { Opnd c = val(bi->getCondition()); u32 e1 = edge(I.getParent(), bi->getSuccessor(0)), e2 = edge(I.getParent(), bi->getSuccessor(1)); emit(OP_CBR, 1, 0, c, 0, 0, e2, 0, e1); }
    return;
  }
  case Instruction::Switch: {
    auto *si = cast<SwitchInst>(&I); SwitchInfo s; std::map<const BasicBlock *, u32> em;
    auto ed = [&](const BasicBlock *b) { auto it = em.find(b); if (it != em.end()) return it->second; u32 e = edge(I.getParent(), b); em[b] = e; return e; };
    for (auto &c : si->cases()) s.cases.push_back({apToU128(c.getCaseValue()->getValue()), ed(c.getCaseSuccessor())});
    s.def = ed(si->getDefaultDest()); Opnd c = val(si->getCondition());
    f.switches.push_back(s); emit(OP_SWITCH, laneW(si->getCondition()->getType()), 0, c, 0, 0, 0, 0, f.switches.size() - 1); return;
  }
  case Instruction::Ret: {
    std::vector<Opnd> l; if (I.getNumOperands()) { unsigned n = nleaves(I.getOperand(0)->getType()); Opnd v = n ? val(I.getOperand(0)) : 0; for (unsigned i = 0; i < n; i++) l.push_back(lane(v, i)); }
    f.lists.push_back(l); emit(OP_RET, 0, 0, 0, 0, 0, 0, 0, f.lists.size() - 1); return;
  }
  case Instruction::Unreachable: emit(OP_UNREACHABLE, 0, 0); return;
  case Instruction::ExtractValue: return; // alias
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(&I); int32_t d = vmap[&I]; bool un = isa<UndefValue>(iv->getAggregateOperand()); Opnd a = un ? 0 : val(iv->getAggregateOperand()), v = val(iv->getInsertedValueOperand());
    unsigned at = leafIndex(T, iv->getIndices()), n = nleaves(iv->getInsertedValueOperand()->getType());
    for (unsigned i = 0; i < L.size(); i++) { if (i >= at && i < at + n) emit(OP_MOV, L[i].w, d + i, lane(v, i - at)); else if (!un) emit(OP_MOV, L[i].w, d + i, lane(a, i)); else emit(OP_MOV, L[i].w, d + i, konst(0)); }
    return;
  }
  case Instruction::ExtractElement: if (isa<ConstantInt>(I.getOperand(1))) return; unsupported(I); return;
  case Instruction::InsertElement: {
    auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsupported(I); return; }
    int32_t d = vmap[&I]; Opnd a = val(I.getOperand(0)), v = val(I.getOperand(1));
    for (unsigned i = 0; i < L.size(); i++) emit(OP_MOV, L[i].w, d + i, i == ci->getZExtValue() ? v : lane(a, i));
    return;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(&I); Opnd a = val(I.getOperand(0)), b = val(I.getOperand(1)); unsigned n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); int32_t d = vmap[&I];
    for (unsigned i = 0; i < L.size(); i++) { int m = sv->getMaskValue(i); emit(OP_MOV, L[i].w, d + i, m < 0 ? konst(0) : (unsigned)m < n ? lane(a, m) : lane(b, m - n)); }
    return;
  }
  case Instruction::Fence: emit(OP_NOP, 0, 0); return;
  case Instruction::AtomicCmpXchg: { auto *cx = cast<AtomicCmpXchgInst>(&I); emit(OP_CMPXCHG, laneW(cx->getNewValOperand()->getType()), vmap[&I], val(cx->getPointerOperand()), val(cx->getCompareOperand()), val(cx->getNewValOperand())); return; }
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(&I); u8 k;
    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: k = 0; break; case AtomicRMWInst::Add: k = 1; break; case AtomicRMWInst::Sub: k = 2; break; case AtomicRMWInst::And: k = 3; break; case AtomicRMWInst::Or: k = 4; break; case AtomicRMWInst::Xor: k = 5; break; case AtomicRMWInst::UMax: k = 6; break; case AtomicRMWInst::UMin: k = 7; break; default: unsupported(I); return; }
    emit(OP_ARMW, laneW(T), vmap[&I], val(rm->getPointerOperand()), val(rm->getValOperand()), 0, 0, k); return;
  }
  case Instruction::LandingPad: case Instruction::Resume: emit(OP_UNREACHABLE, 0, 0); return;
  case Instruction::Call: if (isa<IntrinsicInst>(I)) { if (!intrinsic(cast<CallBase>(I))) unsupported(I); return; } callLike(cast<CallBase>(I), -1); return;
  case Instruction::Invoke: { u32 e = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); callLike(cast<CallBase>(I), (int)e); return; }
  default: unsupported(I); return;
  }
}
void Tr::callLike(CallBase &I, int edgeIdx) {
  if (I.isInlineAsm()) { // empty asm is a compiler barrier
    auto *ia = cast<InlineAsm>(I.getCalledOperand()); if (ia->getAsmString().empty() && I.getType()->isVoidTy()) { emit(OP_NOP, 0, 0); if (edgeIdx >= 0) emit(OP_BR, 0, 0, 0, 0, 0, 0, 0, edgeIdx); return; }
    unsupported(I); return;
  }
  for (unsigned i = 0; i < I.arg_size(); i++) if (I.isByValArgument(i)) { unsupported(I); return; }
  CallInfo ci; ci.edge = edgeIdx; ci.callee = -1; ci.calleePtr = 0;
  Value *cv = I.getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  if (auto *cf = dyn_cast<Function>(cv)) ci.callee = fnum[cf]; else ci.calleePtr = val(cv);
  for (Value *a : I.args()) { unsigned n = nleaves(a->getType()); Opnd v = n ? val(a) : 0; for (unsigned i = 0; i < n; i++) ci.args.push_back(lane(v, i)); }
  std::vector<Leaf> L; leaves(I.getType(), 0, L); ci.nres = L.size(); for (auto &l : L) ci.resw.push_back(l.w);
  f.calls.push_back(ci); emit(OP_CALL, 0, L.empty() ? -1 : vmap[&I], 0, 0, 0, 0, 0, f.calls.size() - 1);
}
bool Tr::intrinsic(CallBase &I) {
  auto &II = cast<IntrinsicInst>(I); int32_t d = I.getType()->isVoidTy() ? -1 : vmap[&I];
  std::vector<Leaf> L; leaves(I.getType(), 0, L); unsigned w = L.empty() ? 0 : L[0].w;
  auto A = [&](unsigned i) { return val(I.getArgOperand(i)); };
  auto each = [&](u8 op, u8 sub, unsigned nargs, u8 sub2 = 0) { Opnd a = A(0), b = nargs > 1 ? A(1) : 0, c = nargs > 2 ? A(2) : 0; for (unsigned i = 0; i < L.size(); i++) emit(op, L[i].w, d + i, lane(a, i), nargs > 1 ? lane(b, i) : 0, nargs > 2 ? lane(c, i) : 0, 0, sub, 0, sub2); return true; };
  switch (II.getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
    emit(OP_NOP, 0, 0); return true;
  case Intrinsic::invariant_start: emit(OP_MOV, 64, d, konst(0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: emit(OP_MEMCPY, laneW(I.getArgOperand(2)->getType()), 0, A(0), A(1), A(2)); return true;
  case Intrinsic::memset: emit(OP_MEMSET, laneW(I.getArgOperand(2)->getType()), 0, A(0), A(1), A(2)); return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    if (L.size() != 2) return false; u8 k;
    switch (II.getIntrinsicID()) { case Intrinsic::uadd_with_overflow: k = OV_UADD; break; case Intrinsic::usub_with_overflow: k = OV_USUB; break; case Intrinsic::umul_with_overflow: k = OV_UMUL; break; case Intrinsic::sadd_with_overflow: k = OV_SADD; break; case Intrinsic::ssub_with_overflow: k = OV_SSUB; break; default: k = OV_SMUL; }
    emit(OP_ADDO, w, d, A(0), A(1), 0, 0, k); return true;
  }
  case Intrinsic::umin: return each(OP_MINMAX, 0, 2); case Intrinsic::umax: return each(OP_MINMAX, 1, 2); case Intrinsic::smin: return each(OP_MINMAX, 2, 2); case Intrinsic::smax: return each(OP_MINMAX, 3, 2);
  case Intrinsic::uadd_sat: return each(OP_SAT, 0, 2); case Intrinsic::usub_sat: return each(OP_SAT, 1, 2);
  case Intrinsic::ctlz: return each(OP_CTLZ, 0, 1); case Intrinsic::cttz: return each(OP_CTTZ, 0, 1); case Intrinsic::ctpop: return each(OP_CTPOP, 0, 1); case Intrinsic::bswap: return each(OP_BSWAP, 0, 1); case Intrinsic::bitreverse: return each(OP_BITREV, 0, 1); case Intrinsic::abs: return each(OP_ABS, 0, 1);
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: case Intrinsic::fabs: {
    Type *S = I.getArgOperand(0)->getType(); if (!S->isFloatTy() && !S->isDoubleTy()) return false;
    emit(OP_FP, w, d, A(0), 0, 0, laneW(S), II.getIntrinsicID() == Intrinsic::fabs ? FP_ABS : II.getIntrinsicID() == Intrinsic::fptosi_sat ? FP_F2SI : FP_F2UI); return true;
  }
  case Intrinsic::fshl: return each(OP_FSH, 0, 3); case Intrinsic::fshr: return each(OP_FSH, 1, 3);
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: emit(OP_MOV, w, d, A(0)); return true;
  case Intrinsic::ptrmask: emit(OP_BIN, 64, d, A(0), A(1), 0, 0, E_AND); return true;
  case Intrinsic::is_constant: emit(OP_MOV, 1, d, konst(0)); return true;
  case Intrinsic::objectsize: emit(OP_MOV, w, d, konst(maskw(w))); return true;
  case Intrinsic::load_relative: { // result = base + sext(load i32 (base+off))
    GepInfo g1; g1.terms.push_back({A(1), 1}); g1.widths.push_back(laneW(I.getArgOperand(1)->getType())); f.geps.push_back(g1);
    int32_t p = alloc(1), v = alloc(1), s = alloc(1); emit(OP_GEP, 64, p, A(0), 0, 0, 0, 0, f.geps.size() - 1); emit(OP_LOAD, 32, v, p); emit(OP_SEXT, 64, s, v, 0, 0, 0, 32); emit(OP_BIN, 64, d, A(0), s, 0, 0, E_ADD); return true;
  }
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: emit(OP_TRAP, 0, 0); return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
    EOp op; switch (II.getIntrinsicID()) { case Intrinsic::vector_reduce_add: op = E_ADD; break; case Intrinsic::vector_reduce_or: op = E_OR; break; case Intrinsic::vector_reduce_and: op = E_AND; break; case Intrinsic::vector_reduce_xor: op = E_XOR; break; default: op = E_MUL; }
    unsigned n = nleaves(I.getArgOperand(0)->getType()); Opnd a = A(0), acc = lane(a, 0);
    for (unsigned i = 1; i < n; i++) { int32_t t = i + 1 == n ? d : alloc(1); emit(OP_BIN, w, t, acc, lane(a, i), 0, 0, op); acc = t; }
    if (n == 1) emit(OP_MOV, w, d, acc);
    return true;
  }
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
    u8 k = II.getIntrinsicID() == Intrinsic::vector_reduce_umin ? 0 : II.getIntrinsicID() == Intrinsic::vector_reduce_umax ? 1 : II.getIntrinsicID() == Intrinsic::vector_reduce_smin ? 2 : 3;
    unsigned n = nleaves(I.getArgOperand(0)->getType()); Opnd a = A(0), acc = lane(a, 0);
    for (unsigned i = 1; i < n; i++) { int32_t t = i + 1 == n ? d : alloc(1); emit(OP_MINMAX, w, t, acc, lane(a, i), 0, 0, k); acc = t; }
    return true;
  }
  default:
    if (II.getCalledFunction()->getName() == "llvm.x86.sse2.pmovmskb.128") { BitcastInfo bi; Opnd a = A(0); int32_t t = alloc(16);
      for (int i = 0; i < 16; i++) { int32_t u = alloc(1); emit(OP_BIN, 8, u, lane(a, i), konst(7), 0, 0, E_LSHR); emit(OP_TRUNC, 1, t + i, u, 0, 0, 0, 8); bi.src.push_back({t + i, 1}); } bi.dst.push_back(16);
      int32_t r = alloc(1); f.bitcasts.push_back(bi); emit(OP_BITCAST, 0, r, 0, 0, 0, 0, 0, f.bitcasts.size() - 1); emit(OP_ZEXT, 32, d, r, 0, 0, 0, 16); return true; }
    return false;
  }
}
void translate(Func &f) { if (f.translated || f.isDecl) return; Tr t(f); t.run(); }
