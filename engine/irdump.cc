// irdump: translate linked LLVM bitcode (the real lttoolbox code + harness + environment
// models) into the flat program format interpreted symbolically by sx.
#include "prog.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <unordered_map>
using namespace llvm;

static const DataLayout* DL;
static Program P;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<const Function*, uint32_t> fidx;

static unsigned bits(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
struct Leaf { unsigned w; uint64_t off; };
static void leaves(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy()) return;
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i*es, out);
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i*es, out);
  } else out.push_back({bits(t), off});
}
static std::vector<Leaf> leaves(Type* t) { std::vector<Leaf> v; leaves(t, 0, v); return v; }
static unsigned nslots(Type* t) { return leaves(t).size(); }
static uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull<<w)-1); }

static uint64_t constScalar(const Constant* c);
static uint64_t addrOf(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constScalar(a->getAliasee());
  if (auto* f = dyn_cast<Function>(g)) {
    if (f->hasExternalWeakLinkage() && f->isDeclaration()) return 0;
    return FN_BASE + 16ull*fidx.at(f);
  }
  if (g->hasExternalWeakLinkage() && g->isDeclaration()) return 0;
  return gaddr.at(g);
}
static uint64_t constScalar(const Constant* c) {
  Type* t = c->getType(); unsigned w = bits(t);
  if (auto* i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().getLoBits(64).trunc(64).getZExtValue();
  if (auto* f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return addrOf(g);
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(e);
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; exit(3); }
      return constScalar(cast<Constant>(g->getPointerOperand())) + off.getZExtValue();
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::PtrToInt:
    case Instruction::Trunc: case Instruction::ZExt:
      return constScalar(e->getOperand(0)) & mask(w);
    case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & mask(w);
    case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & mask(w);
    case Instruction::And: return (constScalar(e->getOperand(0)) & constScalar(e->getOperand(1))) & mask(w);
    case Instruction::ICmp: {
      uint64_t a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1));
      switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b;
        case CmpInst::ICMP_ULT: return a<b; case CmpInst::ICMP_UGT: return a>b; default: break; }
    }
    default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n"; exit(3);
}
static void constLeaves(const Constant* c, std::vector<uint64_t>& out) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nslots(t); for (unsigned i=0;i<n;i++) out.push_back(0); return; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i=0;i<d->getNumElements();i++) constLeaves(d->getElementAsConstant(i), out); return; }
    for (unsigned i=0;i<c->getNumOperands();i++) constLeaves(cast<Constant>(c->getOperand(i)), out);
    return;
  }
  out.push_back(constScalar(c));
}
static void put(uint64_t addr, uint64_t v, unsigned nb) { memcpy(&P.image[addr-ARENA_BASE], &v, nb); }
static void initImg(uint64_t addr, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(&P.image[addr-ARENA_BASE], r.data(), r.size()); return; }
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) initImg(addr+L->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i=0;i<a->getNumElements();i++) initImg(addr+i*es, cast<Constant>(c->getOperand(i))); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(v->getElementType()); for (uint64_t i=0;i<v->getNumElements();i++) initImg(addr+i*es, cast<Constant>(c->getOperand(i))); return; }
  put(addr, constScalar(c), DL->getTypeStoreSize(t));
}

struct FnDec {
  const Function& F; Fn& fn;
  std::unordered_map<const Value*, int> base;
  std::unordered_map<const BasicBlock*, uint32_t> bstart;
  uint32_t curline = 0;
  FnDec(const Function& f, Fn& o) : F(f), fn(o) {}
  int newregs(unsigned n) { int r = fn.nregs; fn.nregs += n; return r; }
  std::vector<Opnd> ops(const Value* v) {
    std::vector<Opnd> r;
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<uint64_t> l; constLeaves(c, l);
      auto lv = leaves(v->getType());
      for (size_t i=0;i<l.size();i++) r.push_back({-1,0,l[i] & mask(lv[i].w)});
      return r;
    }
    auto it = base.find(v);
    if (it == base.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return r; errs() << "no reg for " << *v << "\n"; exit(3); }
    unsigned n = nslots(v->getType());
    for (unsigned i=0;i<n;i++) r.push_back({it->second+(int)i,0,0});
    return r;
  }
  Opnd op(const Value* v) { auto r = ops(v); if (r.empty()) return {-1,0,0}; return r[0]; }
  static Opnd imm(uint64_t v) { return {-1,0,v}; }
  Inst& emit(Op o, int dst=-1, unsigned w=0) {
    Inst i; memset(&i, 0, sizeof i); i.op = o; i.dst = dst; i.w = w; i.line = curline; i.a.reg = i.b.reg = i.c.reg = -1;
    fn.code.push_back(i); return fn.code.back();
  }
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0;
    for (auto& phi : to->phis()) {
      auto src = ops(phi.getIncomingValueForBlock(from));
      int d = base.at(&phi);
      for (size_t i=0;i<src.size();i++) e.copies.push_back({d+(int)i,0,src[i]});
    }
    fn.edges.push_back(e); edgeTo.push_back(to);
    return fn.edges.size()-1;
  }
  std::vector<const BasicBlock*> edgeTo;
  void pushOp(Opnd o) { fn.aux.push_back((uint64_t)(int64_t)o.reg); fn.aux.push_back(o.imm); }
  void unsupported(const Instruction& I, const char* why) {
    std::string s; raw_string_ostream os(s); os << I; 
    if (getenv("IRDUMP_V")) errs() << "unsupported (" << why << ") in " << F.getName() << ": " << s << "\n";
    emit(O_UNSUPPORTED);
  }
  void call(const CallBase& C);
  bool intrinsic(const CallBase& C, const Function* cf);
  void run();
  void inst(const Instruction& I);
};

static Pred predOf(CmpInst::Predicate p) {
  switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_UGT: return P_UGT;
   case CmpInst::ICMP_UGE: return P_UGE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE;
   case CmpInst::ICMP_SGT: return P_SGT; case CmpInst::ICMP_SGE: return P_SGE; case CmpInst::ICMP_SLT: return P_SLT; default: return P_SLE; }
}

bool FnDec::intrinsic(const CallBase& C, const Function* cf) {
  Intrinsic::ID id = cf->getIntrinsicID();
  if (id == Intrinsic::not_intrinsic) return false;
  int d = C.getType()->isVoidTy() ? -1 : base.at(&C);
  unsigned w = C.getType()->isVoidTy() || C.getType()->isStructTy() ? 0 : bits(C.getType()->getScalarType());
  auto lanes = [&](Op o, unsigned nops) {
    auto a = ops(C.getArgOperand(0));
    auto b = nops > 1 ? ops(C.getArgOperand(1)) : std::vector<Opnd>();
    auto c = nops > 2 ? ops(C.getArgOperand(2)) : std::vector<Opnd>();
    for (size_t i=0;i<a.size();i++) { auto& x = emit(o, d+i, w); x.a = a[i]; if (nops>1) x.b = b[i]; if (nops>2) x.c = c[i]; }
  };
  switch (id) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::donothing:
  case Intrinsic::vaend: case Intrinsic::stackrestore:
    return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: { auto& x = emit(O_COPY, d, 64); x.a = imm(0); return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: { auto& x = emit(O_COPY, d, w); x.a = op(C.getArgOperand(0)); return true; }
  case Intrinsic::umin: lanes(O_UMIN,2); return true;
  case Intrinsic::umax: lanes(O_UMAX,2); return true;
  case Intrinsic::smin: lanes(O_SMIN,2); return true;
  case Intrinsic::smax: lanes(O_SMAX,2); return true;
  case Intrinsic::abs: lanes(O_ABS,1); return true;
  case Intrinsic::ctlz: lanes(O_CTLZ,1); return true;
  case Intrinsic::cttz: lanes(O_CTTZ,1); return true;
  case Intrinsic::ctpop: lanes(O_CTPOP,1); return true;
  case Intrinsic::bswap: lanes(O_BSWAP,1); return true;
  case Intrinsic::fshl: lanes(O_FSHL,3); return true;
  case Intrinsic::fshr: lanes(O_FSHR,3); return true;
  case Intrinsic::fabs: lanes(O_FABS,1); return true;
  case Intrinsic::usub_sat: lanes(O_USUBSAT,2); return true;
  case Intrinsic::uadd_sat: lanes(O_UADDSAT,2); return true;
  case Intrinsic::is_constant: { auto& x = emit(O_COPY, d, 1); x.a = imm(0); return true; }
  case Intrinsic::objectsize: { auto& x = emit(O_COPY, d, 64); x.a = imm(~0ull); return true; }
  case Intrinsic::eh_typeid_for: { auto& x = emit(O_COPY, d, 32); uint64_t a = constScalar(cast<Constant>(C.getArgOperand(0))); x.a = imm((a-ARENA_BASE) & 0x7fffffff); return true; }
  case Intrinsic::vastart: { auto& x = emit(O_VASTART); x.a = op(C.getArgOperand(0)); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Op o = id==Intrinsic::uadd_with_overflow?O_UADDO: id==Intrinsic::usub_with_overflow?O_USUBO: id==Intrinsic::umul_with_overflow?O_UMULO:
      id==Intrinsic::sadd_with_overflow?O_SADDO: id==Intrinsic::ssub_with_overflow?O_SSUBO:O_SMULO;
    unsigned ww = bits(C.getArgOperand(0)->getType());
    if (ww > 64) return false;
    auto& x = emit(o, d, ww); x.a = op(C.getArgOperand(0)); x.b = op(C.getArgOperand(1)); return true; }
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
    auto a = ops(C.getArgOperand(0)); Op o = id==Intrinsic::vector_reduce_or?O_OR: id==Intrinsic::vector_reduce_and?O_AND: id==Intrinsic::vector_reduce_add?O_ADD:O_XOR;
    int acc = newregs(1); { auto& x = emit(O_COPY, acc, w); x.a = a[0]; }
    for (size_t i=1;i<a.size();i++) { auto& x = emit(o, acc, w); x.a = {acc,0,0}; x.b = a[i]; }
    auto& x = emit(O_COPY, d, w); x.a = {acc,0,0}; return true; }
  default: return false;   // handled by name in sx (memcpy, memset, trap, ...)
  }
}

void FnDec::call(const CallBase& C) {
  const Value* cv = C.getCalledOperand()->stripPointerCasts();
  if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
  const Function* cf = dyn_cast<Function>(cv);
  auto* inv = dyn_cast<InvokeInst>(&C);
  if (isa<InlineAsm>(C.getCalledOperand())) {
    // only empty compiler barriers are tolerated
    auto* ia = cast<InlineAsm>(C.getCalledOperand());
    if (!ia->getAsmString().empty()) { unsupported(C, "asm"); }
    if (inv) { auto& x = emit(O_BR); x.x = 0; }
    return;
  }
  if (cf && intrinsic(C, cf)) {
    if (inv) { uint32_t e = edge(C.getParent(), inv->getNormalDest()); auto& x = emit(O_BR); x.x = e; }
    return;
  }
  uint32_t auxi = fn.aux.size();
  unsigned rs = nslots(C.getType());
  // aux: calleeKind(1 direct/0 indirect), fnidx | (opnd), retslots, normalEdge, unwindEdge, nargslots, nfixed, args...
  std::vector<Opnd> args; unsigned nfixed = 0;
  for (unsigned i=0;i<C.arg_size();i++) {
    if (i == C.getFunctionType()->getNumParams()) nfixed = args.size();
    for (auto& o : ops(C.getArgOperand(i))) args.push_back(o);
  }
  if (C.arg_size() <= C.getFunctionType()->getNumParams()) nfixed = args.size();
  uint64_t ne = 0, ue = 0;
  if (inv) { ne = edge(C.getParent(), inv->getNormalDest()); ue = edge(C.getParent(), inv->getUnwindDest()); }
  if (cf) { fn.aux.push_back(1); fn.aux.push_back(fidx.at(cf)); fn.aux.push_back(0); }
  else { fn.aux.push_back(0); pushOp(op(C.getCalledOperand())); }
  fn.aux.push_back(rs); fn.aux.push_back(ne); fn.aux.push_back(ue); fn.aux.push_back(args.size()); fn.aux.push_back(nfixed);
  for (auto& o : args) pushOp(o);
  // byval args: callee gets a copy
  std::vector<uint64_t> bv; unsigned slot = 0;
  for (unsigned i=0;i<C.arg_size();i++) {
    if (C.isByValArgument(i)) { bv.push_back(slot); bv.push_back(DL->getTypeAllocSize(C.getParamByValType(i))); }
    slot += nslots(C.getArgOperand(i)->getType());
  }
  fn.aux.push_back(bv.size()/2); for (auto b : bv) fn.aux.push_back(b);
  auto& x = emit(inv ? O_INVOKE : O_CALL, rs ? base.at(&C) : -1, 0); x.x = auxi;
}

static std::map<std::string,uint32_t> fileNos; static std::string fileNames;
static uint32_t fileNo(const std::string& f) { auto it=fileNos.find(f); if (it!=fileNos.end()) return it->second; uint32_t n=fileNos.size(); fileNos[f]=n; fileNames+=f+"\n"; return n; }
void FnDec::inst(const Instruction& I) {
  if (auto dl = I.getDebugLoc()) curline = (dl.getLine()&0xffff) | fileNo(dl->getFilename().str())<<16;
  int d = I.getType()->isVoidTy() ? -1 : (base.count(&I) ? base.at(&I) : -1);
  Type* st = I.getType()->getScalarType();
  unsigned w = bits(st);
  if (w > 64) { unsupported(I, "wide"); return; }
  for (auto& o : I.operands()) if (o->getType()->isIntegerTy() && o->getType()->getIntegerBitWidth() > 64) { unsupported(I, "wide operand"); return; }
  auto bin = [&](Op o) {
    auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
    for (size_t i=0;i<a.size();i++) { auto& x = emit(o, d+i, w); x.a = a[i]; x.b = b[i]; }
  };
  auto cast1 = [&](Op o) {
    unsigned sw = bits(I.getOperand(0)->getType()->getScalarType());
    auto a = ops(I.getOperand(0));
    if (sw == w && (o == O_ZEXT || o == O_TRUNC)) o = O_COPY;
    for (size_t i=0;i<a.size();i++) { auto& x = emit(o, d+i, w); x.w2 = sw; x.a = a[i]; }
  };
  switch (I.getOpcode()) {
  case Instruction::Add: bin(O_ADD); break;
  case Instruction::Sub: bin(O_SUB); break;
  case Instruction::Mul: bin(O_MUL); break;
  case Instruction::UDiv: bin(O_UDIV); break;
  case Instruction::SDiv: bin(O_SDIV); break;
  case Instruction::URem: bin(O_UREM); break;
  case Instruction::SRem: bin(O_SREM); break;
  case Instruction::Shl: bin(O_SHL); break;
  case Instruction::LShr: bin(O_LSHR); break;
  case Instruction::AShr: bin(O_ASHR); break;
  case Instruction::And: bin(O_AND); break;
  case Instruction::Or: bin(O_OR); break;
  case Instruction::Xor: bin(O_XOR); break;
  case Instruction::FAdd: bin(O_FADD); break;
  case Instruction::FSub: bin(O_FSUB); break;
  case Instruction::FMul: bin(O_FMUL); break;
  case Instruction::FDiv: bin(O_FDIV); break;
  case Instruction::FRem: bin(O_FREM); break;
  case Instruction::FNeg: { auto a = ops(I.getOperand(0)); for (size_t i=0;i<a.size();i++) { auto& x = emit(O_FNEG, d+i, w); x.a = a[i]; } break; }
  case Instruction::ICmp: case Instruction::FCmp: {
    auto& ci = cast<CmpInst>(I);
    unsigned sw = bits(I.getOperand(0)->getType()->getScalarType());
    auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
    bool ic = isa<ICmpInst>(I);
    for (size_t i=0;i<a.size();i++) { auto& x = emit(ic?O_ICMP:O_FCMP, d+i, sw); x.w2 = ic ? predOf(ci.getPredicate()) : (unsigned)ci.getPredicate(); x.a = a[i]; x.b = b[i]; }
    break; }
  case Instruction::Trunc: cast1(O_TRUNC); break;
  case Instruction::ZExt: cast1(O_ZEXT); break;
  case Instruction::SExt: cast1(O_SEXT); break;
  case Instruction::FPTrunc: cast1(O_FPTRUNC); break;
  case Instruction::FPExt: cast1(O_FPEXT); break;
  case Instruction::FPToUI: cast1(O_FPTOUI); break;
  case Instruction::FPToSI: cast1(O_FPTOSI); break;
  case Instruction::UIToFP: cast1(O_UITOFP); break;
  case Instruction::SIToFP: cast1(O_SITOFP); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    unsigned sw = bits(I.getOperand(0)->getType()->getScalarType());
    cast1(sw > w ? O_TRUNC : O_ZEXT); break; }
  case Instruction::BitCast: {
    auto a = ops(I.getOperand(0)); auto sl = leaves(I.getOperand(0)->getType()), dlv = leaves(I.getType());
    if (sl.size() == dlv.size()) { for (size_t i=0;i<a.size();i++) { auto& x = emit(O_COPY, d+i, dlv[i].w); x.a = a[i]; } break; }
    if (dlv.size() == 1 && dlv[0].w <= 64) { // vector -> int : concat lanes
      int acc = -1; unsigned off = 0;
      for (size_t i=0;i<a.size();i++) {
        int t = newregs(1); { auto& x = emit(O_ZEXT, t, dlv[0].w); x.w2 = sl[i].w; x.a = a[i]; }
        int t2 = newregs(1); { auto& x = emit(O_SHL, t2, dlv[0].w); x.a = {t,0,0}; x.b = imm(off); }
        if (acc < 0) acc = t2; else { int t3 = newregs(1); auto& x = emit(O_OR, t3, dlv[0].w); x.a = {acc,0,0}; x.b = {t2,0,0}; acc = t3; }
        off += sl[i].w;
      }
      auto& x = emit(O_COPY, d, dlv[0].w); x.a = {acc,0,0}; break;
    }
    if (sl.size() == 1) { unsigned off = 0;
      for (size_t i=0;i<dlv.size();i++) { int t = newregs(1); { auto& x = emit(O_LSHR, t, sl[0].w); x.a = a[0]; x.b = imm(off); }
        auto& x = emit(O_TRUNC, d+i, dlv[i].w); x.w2 = sl[0].w; x.a = {t,0,0}; off += dlv[i].w; }
      break; }
    unsupported(I, "bitcast"); break; }
  case Instruction::Freeze: { auto a = ops(I.getOperand(0)); auto lv = leaves(I.getType()); for (size_t i=0;i<a.size();i++) { auto& x = emit(O_COPY, d+i, lv[i].w); x.a = a[i]; } break; }
  case Instruction::Select: {
    auto c = ops(I.getOperand(0)), a = ops(I.getOperand(1)), b = ops(I.getOperand(2)); auto lv = leaves(I.getType());
    for (size_t i=0;i<a.size();i++) { auto& x = emit(O_SELECT, d+i, lv[i].w); x.a = c.size()==1?c[0]:c[i]; x.b = a[i]; x.c = b[i]; x.w2 = I.getType()->isPointerTy(); }
    break; }
  case Instruction::Load: {
    auto p = op(I.getOperand(0)); 
    for (auto& l : leaves(I.getType())) { if (l.w > 64) { unsupported(I,"wide load"); return; } auto& x = emit(O_LOAD, d++, l.w); x.a = p; x.b = imm(l.off); x.w2 = cast<LoadInst>(I).isAtomic(); }
    break; }
  case Instruction::Store: {
    auto v = ops(I.getOperand(0)); auto p = op(I.getOperand(1)); auto lv = leaves(I.getOperand(0)->getType());
    for (size_t i=0;i<v.size();i++) { if (lv[i].w > 64) { unsupported(I,"wide store"); return; } auto& x = emit(O_STORE, -1, lv[i].w); x.a = v[i]; x.b = p; x.c = imm(lv[i].off); x.w2 = cast<StoreInst>(I).isAtomic(); }
    break; }
  case Instruction::GetElementPtr: {
    if (I.getType()->isVectorTy()) { unsupported(I, "vector gep"); break; }
    auto& g = cast<GetElementPtrInst>(I);
    MapVector<Value*, APInt> var; APInt off(64, 0);
    if (!g.collectOffset(*DL, 64, var, off)) { unsupported(I, "gep"); break; }
    uint32_t auxi = fn.aux.size(); fn.aux.push_back(var.size());
    for (auto& kv : var) { pushOp(op(kv.first)); fn.aux.push_back(bits(kv.first->getType())); fn.aux.push_back(kv.second.getZExtValue()); }
    auto& x = emit(O_GEP, d, 64); x.a = op(g.getPointerOperand()); x.b = imm(off.getZExtValue()); x.x = auxi; x.w2 = var.size();
    break; }
  case Instruction::Alloca: {
    auto& a = cast<AllocaInst>(I);
    auto& x = emit(O_ALLOCA, d, 64); x.a = op(a.getArraySize()); x.b = imm(DL->getTypeAllocSize(a.getAllocatedType())); x.c = imm(a.getAlign().value());
    break; }
  case Instruction::Br: {
    auto& b = cast<BranchInst>(I);
    if (b.isUnconditional()) { uint32_t e = edge(I.getParent(), b.getSuccessor(0)); auto& x = emit(O_BR); x.x = e; }
    else { uint32_t e = edge(I.getParent(), b.getSuccessor(0)); edge(I.getParent(), b.getSuccessor(1)); auto& x = emit(O_CONDBR); x.x = e; x.a = op(b.getCondition()); }
    break; }
  case Instruction::Switch: {
    auto& s = cast<SwitchInst>(I);
    uint32_t auxi = fn.aux.size();
    std::map<const BasicBlock*, uint32_t> em;
    auto E = [&](const BasicBlock* b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = edge(I.getParent(), b); };
    fn.aux.push_back(E(s.getDefaultDest())); fn.aux.push_back(s.getNumCases());
    for (auto& c : s.cases()) { fn.aux.push_back(c.getCaseValue()->getZExtValue()); fn.aux.push_back(E(c.getCaseSuccessor())); }
    auto& x = emit(O_SWITCH, -1, bits(s.getCondition()->getType())); x.a = op(s.getCondition()); x.x = auxi;
    break; }
  case Instruction::Ret: {
    uint32_t auxi = fn.aux.size(); std::vector<Opnd> v;
    if (auto* rv = cast<ReturnInst>(I).getReturnValue()) v = ops(rv);
    fn.aux.push_back(v.size()); for (auto& o : v) pushOp(o);
    auto& x = emit(O_RET); x.x = auxi; break; }
  case Instruction::Unreachable: emit(O_UNREACHABLE); break;
  case Instruction::Resume: { auto v = ops(I.getOperand(0)); auto& x = emit(O_RESUME); x.a = v[0]; break; }
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); break;
  case Instruction::LandingPad: {
    auto& l = cast<LandingPadInst>(I); uint32_t auxi = fn.aux.size();
    fn.aux.push_back(l.isCleanup()); fn.aux.push_back(l.getNumClauses());
    for (unsigned i=0;i<l.getNumClauses();i++) {
      if (l.isCatch(i)) { fn.aux.push_back(0); fn.aux.push_back(constScalar(l.getClause(i))); }
      else { fn.aux.push_back(1); fn.aux.push_back(0); }
    }
    auto& x = emit(O_LANDINGPAD, d); x.x = auxi; break; }
  case Instruction::ExtractValue: {
    auto& e = cast<ExtractValueInst>(I); auto a = ops(e.getAggregateOperand());
    Type* t = e.getAggregateOperand()->getType(); unsigned off = 0;
    for (unsigned idx : e.indices()) {
      for (unsigned k=0;k<idx;k++) off += nslots(GetElementPtrInst::getTypeAtIndex(t, (uint64_t)k));
      t = GetElementPtrInst::getTypeAtIndex(t, (uint64_t)idx);
    }
    unsigned n = nslots(t); for (unsigned i=0;i<n;i++) { auto& x = emit(O_COPY, d+i, 64); x.a = a[off+i]; }
    break; }
  case Instruction::InsertValue: {
    auto& e = cast<InsertValueInst>(I); auto a = ops(e.getAggregateOperand()), v = ops(e.getInsertedValueOperand());
    Type* t = e.getAggregateOperand()->getType(); unsigned off = 0;
    for (unsigned idx : e.indices()) {
      for (unsigned k=0;k<idx;k++) off += nslots(GetElementPtrInst::getTypeAtIndex(t, (uint64_t)k));
      t = GetElementPtrInst::getTypeAtIndex(t, (uint64_t)idx);
    }
    for (size_t i=0;i<a.size();i++) { auto& x = emit(O_COPY, d+i, 64); x.a = (i>=off && i<off+v.size()) ? v[i-off] : a[i]; }
    break; }
  case Instruction::ExtractElement: {
    auto a = ops(I.getOperand(0)); auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsupported(I,"ee"); break; }
    auto& x = emit(O_COPY, d, w); x.a = a[ci->getZExtValue()]; break; }
  case Instruction::InsertElement: {
    auto a = ops(I.getOperand(0)); auto v = op(I.getOperand(1)); auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsupported(I,"ie"); break; }
    for (size_t i=0;i<a.size();i++) { auto& x = emit(O_COPY, d+i, w); x.a = i==ci->getZExtValue() ? v : a[i]; }
    break; }
  case Instruction::ShuffleVector: {
    auto& s = cast<ShuffleVectorInst>(I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); int k=0;
    for (int m : s.getShuffleMask()) { auto& x = emit(O_COPY, d+k, w); x.a = m<0 ? imm(0) : (m < (int)a.size() ? a[m] : b[m-a.size()]); k++; }
    break; }
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); auto& x = emit(O_ATOMICRMW, d, w); x.w2 = r.getOperation(); x.a = op(r.getPointerOperand()); x.b = op(r.getValOperand()); break; }
  case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); auto& x = emit(O_CMPXCHG, d, bits(r.getCompareOperand()->getType())); x.a = op(r.getPointerOperand()); x.b = op(r.getCompareOperand()); x.c = op(r.getNewValOperand()); break; }
  default: unsupported(I, "opcode");
  }
}

void FnDec::run() {
  for (auto& a : F.args()) { unsigned n = nslots(a.getType()); base[&a] = newregs(n); }
  fn.nparamslots = fn.nregs;
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) base[&I] = newregs(nslots(I.getType()));
  for (auto& B : F) {
    bstart[&B] = fn.code.size();
    for (auto& I : B) if (!isa<PHINode>(I)) inst(I);
  }
  for (size_t i=0;i<fn.edges.size();i++) fn.edges[i].target = bstart.at(edgeTo[i]);
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 3; }
  DL = &M->getDataLayout();
  uint64_t cur = ARENA_BASE + 4096;
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = g.isDeclaration() ? 64 : (uint64_t)DL->getTypeAllocSize(g.getValueType());
    uint64_t al = std::max<uint64_t>(16, g.getAlign().valueOrOne().value());
    cur = (cur + 32 + al - 1) / al * al;
    gaddr[&g] = cur;
    P.globals.push_back({g.getName().str(), cur, sz, (uint8_t)g.isConstant(), (uint8_t)((!g.isDeclaration())|(g.isThreadLocal()?2:0))});
    cur += sz;
  }
  P.globals_end = (cur + 4096) & ~4095ull;
  P.image.resize(P.globals_end - ARENA_BASE);
  uint32_t k = 0;
  for (auto& f : *M) fidx[&f] = k++;
  P.fns.resize(k);
  for (auto& g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) initImg(gaddr[&g], g.getInitializer());
  for (auto& f : *M) {
    Fn& o = P.fns[fidx[&f]];
    o.name = f.getName().str(); o.varargs = f.isVarArg(); o.defined = !f.isDeclaration(); o.retslots = nslots(f.getReturnType());
    if (!f.isDeclaration()) { FnDec d(f, o); d.run(); }
  }
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t,uint32_t>> v;
    for (auto& e : ca->operands()) { auto* s = cast<ConstantStruct>(e); v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fidx.at(cast<Function>(s->getOperand(1)->stripPointerCasts()))}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) P.ctors.push_back(p.second);
  }
  FILE* f = fopen(argv[2], "wb"); if (!f) { perror(argv[2]); return 3; }
  P.files=fileNames; save(P, f); fclose(f);
  return 0;
}
