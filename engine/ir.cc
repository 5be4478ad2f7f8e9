#include "ir.h"
#include "exec.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>

using namespace llvm;
Program P;

[[noreturn]] static void die(const std::string& s, const Value* v = nullptr) {
  errs() << "engine: " << s;
  if (v) errs() << ": " << *v;
  errs() << "\n";
  exit(3);
}

void leaves(Type* t, std::vector<Leaf>& out, u32 off) {
  if (t->isVoidTy()) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = P.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), out, off + (u32)sl->getElementOffset(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = P.DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out, off + (u32)(i * es));
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = P.DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), out, off + (u32)(i * es));
    return;
  }
  Leaf l;
  l.off = off;
  l.ptr = t->isPointerTy();
  if (l.ptr) l.w = 64;
  else if (t->isIntegerTy()) l.w = t->getIntegerBitWidth();
  else if (t->isFloatTy()) l.w = 32;
  else if (t->isDoubleTy()) l.w = 64;
  else if (t->isX86_FP80Ty()) l.w = 80;
  else if (t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
  else { std::string s; raw_string_ostream os(s); t->print(os); die("unsupported type " + s); }
  if (l.w > 128) die("integer too wide");
  out.push_back(l);
}

static Val apVal(const APInt& a) {
  Val v;
  if (a.getBitWidth() <= 64) { v.c = a.getZExtValue(); return v; }
  u128 x = a.extractBitsAsZExtValue(64, 0);
  x |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
  v.e = mkConst(x, a.getBitWidth());
  return v;
}

u64 constAddr(const Constant* c, bool& ok) {
  ok = true;
  auto v = constLeaves(c);
  if (v.size() != 1 || v[0].e) { ok = false; return 0; }
  return v[0].c;
}

std::vector<Val> constLeaves(const Constant* c) {
  std::vector<Leaf> ls;
  leaves(c->getType(), ls);
  std::vector<Val> r;
  if (isa<UndefValue>(c)) {  // includes poison
    Val u;
    u.e = UNDEF_MARK;
    r.assign(ls.size(), u);
    return r;
  }
  if (c->isNullValue() && !isa<GlobalValue>(c)) {
    for (auto& l : ls) { Val v; if (l.w > 64) v.e = mkConst(0, l.w); r.push_back(v); }
    return r;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) return {apVal(ci->getValue())};
  if (auto* cf = dyn_cast<ConstantFP>(c)) return {apVal(cf->getValueAPF().bitcastToAPInt())};
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cds->getNumElements(); i++) {
      auto v = constLeaves(cds->getElementAsConstant(i));
      r.insert(r.end(), v.begin(), v.end());
    }
    return r;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      auto v = constLeaves(ca->getOperand(i));
      r.insert(r.end(), v.begin(), v.end());
    }
    return r;
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constLeaves(ga->getAliasee());
  if (isa<GlobalValue>(c)) {
    auto it = P.addrOf.find(c);
    if (it == P.addrOf.end()) die("unknown global", c);
    Val v;
    v.c = it->second;
    return {v};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op0 = constLeaves(ce->getOperand(0));
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        if (ce->getOpcode() == Instruction::PtrToInt && ce->getType()->getIntegerBitWidth() < 64)
          op0[0].c &= (u64)maskOf(ce->getType()->getIntegerBitWidth());
        return op0;
      }
      case Instruction::Trunc: op0[0].c &= (u64)maskOf(ce->getType()->getIntegerBitWidth()); return op0;
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*P.DL, off)) die("const gep", c);
        op0[0].c += off.getSExtValue();
        return op0;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        auto op1 = constLeaves(ce->getOperand(1));
        u64 a = op0[0].c, b = op1[0].c;
        Val v;
        switch (ce->getOpcode()) {
          case Instruction::Add: v.c = a + b; break;
          case Instruction::Sub: v.c = a - b; break;
          case Instruction::Mul: v.c = a * b; break;
          case Instruction::And: v.c = a & b; break;
          case Instruction::Or: v.c = a | b; break;
          default: v.c = a ^ b; break;
        }
        v.c &= (u64)maskOf(std::min(64u, ce->getType()->getIntegerBitWidth()));
        return {v};
      }
      case Instruction::ICmp: {
        auto op1 = constLeaves(ce->getOperand(1));
        Val v;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) v.c = op0[0].c == op1[0].c;
        else if (ce->getPredicate() == CmpInst::ICMP_NE) v.c = op0[0].c != op1[0].c;
        else die("const icmp", c);
        return {v};
      }
      default: die("const expr", c);
    }
  }
  die("constant", c);
}

static void writeConst(const Constant* c, Obj* o, u32 off) {
  if (isa<UndefValue>(c)) return;  // leave as zero
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cds->getRawDataValues();
    memcpy(o->data.data() + off, s.data(), s.size());
    return;
  }
  if (c->isNullValue() && !isa<GlobalValue>(c)) return;
  auto vs = constLeaves(c);
  std::vector<Leaf> ls;
  leaves(c->getType(), ls);
  for (size_t i = 0; i < vs.size(); i++) {
    if (vs[i].e == UNDEF_MARK) continue;
    u128 x = vs[i].e ? vs[i].e->val : vs[i].c;
    memcpy(o->data.data() + off + ls[i].off, &x, (ls[i].w + 7) / 8);
  }
}

void loadProgram(const std::vector<std::string>& files) {
  auto* ctx = new LLVMContext();
  SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (auto& f : files) {
    auto m = parseIRFile(f, err, *ctx);
    if (!m) { err.print("engine", errs()); exit(3); }
    if (!M) { M = std::move(m); continue; }
    if (Linker::linkModules(*M, std::move(m))) die("link " + f);
  }
  P.M = M.release();
  // A model function vm_X replaces the library function X.
  std::vector<std::pair<Function*, Function*>> rep;
  for (auto& f : *P.M)
    if (f.isDeclaration() && !f.isIntrinsic())
      if (auto* v = P.M->getFunction(("vm_" + f.getName()).str()))
        if (!v->isDeclaration()) rep.push_back({&f, v});
  for (auto& p : rep) p.first->replaceAllUsesWith(p.second);
  P.DL = new DataLayout(P.M);
  P.fns.assign(FN_BASE, nullptr);
  for (auto& f : *P.M) {
    if (f.isIntrinsic()) continue;
    auto* fn = new Fn();
    fn->name = f.getName().str();
    fn->f = &f;
    fn->id = (u32)P.fns.size();
    P.fns.push_back(fn);
    P.fnOf[&f] = fn;
    P.fnByName[fn->name] = fn;
    P.addrOf[&f] = (u64)fn->id << 32;
    fn->builtin = findBuiltin(fn->name);
  }
  u32 id = (u32)P.fns.size() + 16;
  g_firstGlobal = id;
  for (auto& g : P.M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    P.addrOf[&g] = (u64)id << 32;
    id++;
  }
  g_nextObj = id;
  for (auto& g : P.M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 size = P.DL->getTypeAllocSize(g.getValueType());
    u32 oid = (u32)(P.addrOf[&g] >> 32);
    if (g.isThreadLocal()) {
      P.tlsIndex[&g] = (u32)P.tlsVars.size();
      P.tlsVars.push_back(&g);
      continue;
    }
    Obj* o = new Obj(g.isDeclaration() ? (size ? size : 8) : size, OK_GLOBAL);
    o->name = strdup(g.getName().str().c_str());
    o->ro = g.isConstant();
    if (g.hasInitializer()) writeConst(g.getInitializer(), o, 0);
    else if (g.isDeclaration()) externalGlobal(o, g.getName().str());
    g_initialObjs.push_back({oid, o});
  }
}

Obj* makeTlsObj(u32 idx) {
  GlobalVariable* g = P.tlsVars[idx];
  Obj* o = new Obj(P.DL->getTypeAllocSize(g->getValueType()), OK_TLS);
  o->name = strdup(g->getName().str().c_str());
  if (g->hasInitializer()) writeConst(g->getInitializer(), o, 0);
  return o;
}

std::vector<Fn*> globalCtors() {
  std::vector<std::pair<int, Fn*>> v;
  if (auto* gv = P.M->getGlobalVariable("llvm.global_ctors"))
    if (gv->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer()))
        for (auto& op : ca->operands()) {
          auto* cs = cast<ConstantStruct>(op);
          auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
          if (f) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), P.fnOf[f]});
        }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Fn*> r;
  for (auto& p : v) r.push_back(p.second);
  return r;
}

// ---------------------------------------------------------------- lowering
namespace {
struct Lower {
  Fn* F;
  std::unordered_map<const Value*, u32> slot;
  std::unordered_map<const Value*, std::vector<Opnd>> constOps;
  std::unordered_map<const BasicBlock*, u32> bbStart;
  std::vector<std::pair<u32, std::pair<const BasicBlock*, const BasicBlock*>>> edgeFix;

  u32 newSlots(size_t n) { u32 s = F->nslots; F->nslots += (u32)n; return s; }
  static std::vector<Leaf> lv(Type* t) { std::vector<Leaf> l; leaves(t, l); return l; }
  Opnd pool(Val v) { F->pool.push_back(v); return -(Opnd)F->pool.size(); }

  std::vector<Opnd> ops(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = constOps.find(v);
      if (it != constOps.end()) return it->second;
      std::vector<Opnd> r;
      for (auto& x : constLeaves(c)) r.push_back(pool(x));
      constOps[v] = r;
      return r;
    }
    auto it = slot.find(v);
    if (it == slot.end()) die("no slot", v);
    std::vector<Opnd> r;
    size_t n = lv(v->getType()).size();
    for (size_t i = 0; i < n; i++) r.push_back((Opnd)(it->second + i));
    return r;
  }
  Inst& emit(const Instruction* I, IK k) {
    Inst x;
    x.k = k;
    if (const DebugLoc& dl = I->getDebugLoc()) {
      x.line = dl.getLine();
      if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) x.file = intern(sc->getFilename());
    }
    F->code.push_back(x);
    return F->code.back();
  }
  static const char* intern(StringRef s) {
    static std::map<std::string, char*> m;
    auto& p = m[s.str()];
    if (!p) p = strdup(s.str().c_str());
    return p;
  }
  u32 edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.target = 0;
    for (auto& phi : to->phis()) {
      auto s = ops(phi.getIncomingValueForBlock(from));
      auto l = lv(phi.getType());
      u32 d = slot[&phi];
      for (size_t i = 0; i < s.size(); i++) { e.copies.push_back({(int32_t)(d + i), s[i]}); e.widths.push_back(l[i].w); e.ptr.push_back(l[i].ptr); }
    }
    F->edges.push_back(e);
    edgeFix.push_back({(u32)F->edges.size() - 1, {from, to}});
    return (u32)F->edges.size() - 1;
  }

  void run() {
    const Function& f = *F->f;
    for (auto& a : f.args()) {
      auto l = lv(a.getType());
      slot[&a] = newSlots(l.size());
      if (a.hasByValAttr()) F->byvalParams.push_back({slot[&a], (u32)P.DL->getTypeAllocSize(a.getParamByValType())});
      for (auto& x : l) F->paramW.push_back(x.w);
    }
    for (auto& I : instructions(f)) slot[&I] = newSlots(lv(I.getType()).size());
    for (auto& bb : f) {
      bbStart[&bb] = (u32)F->code.size();
      for (auto& I : bb) lower(&I);
    }
    for (auto& e : edgeFix) F->edges[e.first].target = bbStart[e.second.second];
    F->rpo.assign(F->code.size(), ~0u);
    ReversePostOrderTraversal<const Function*> rpot(&f);
    std::vector<u32> starts;
    for (auto& b : bbStart) starts.push_back(b.second);
    std::sort(starts.begin(), starts.end());
    u32 n = 0;
    for (const BasicBlock* bb : rpot) {
      u32 st = bbStart[bb];
      auto it = std::upper_bound(starts.begin(), starts.end(), st);
      u32 en = it == starts.end() ? (u32)F->code.size() : *it;
      for (u32 i = st; i < en; i++) F->rpo[i] = n;
      n++;
    }
  }

  void copyTo(const Instruction* I, u32 d, const std::vector<Opnd>& src, const std::vector<Leaf>& l) {
    for (size_t i = 0; i < src.size(); i++) {
      Inst& x = emit(I, I_COPY);
      x.dst = (int32_t)(d + i); x.a = src[i]; x.w = l[i].w;
    }
  }

  static int binop(unsigned opc) {
    switch (opc) {
      case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL;
      case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV;
      case Instruction::URem: return E_UREM; case Instruction::SRem: return E_SREM;
      case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR;
      case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR;
      case Instruction::FAdd: return E_FADD; case Instruction::FSub: return E_FSUB; case Instruction::FMul: return E_FMUL;
      case Instruction::FDiv: return E_FDIV; case Instruction::FRem: return E_FREM;
      default: return -1;
    }
  }

  void lower(const Instruction* I) {
    // Thread-local variables used directly (not through llvm.threadlocal.address).
    std::vector<const Value*> tl;
    if (!isa<PHINode>(I))
      for (auto& u : I->operands())
        if (auto* gv = dyn_cast<GlobalVariable>(u.get()); gv && gv->isThreadLocal()) {
          if (auto* cb = dyn_cast<CallInst>(I); cb && cb->getCalledFunction() && cb->getCalledFunction()->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
          CallInfo ci;
          ci.name = "llvm.threadlocal.address";
          ci.builtin = findBuiltin(ci.name);
          Val v; v.c = P.tlsIndex[gv];
          ci.args.push_back(pool(v)); ci.argW.push_back(64); ci.retW.push_back(64);
          F->calls.push_back(ci);
          u32 sl = newSlots(1);
          Inst& x = emit(I, I_CALL); x.x = (u32)F->calls.size() - 1; x.dst = (int32_t)sl;
          constOps[gv] = {(Opnd)sl};
          tl.push_back(gv);
        }
    lower2(I);
    for (auto* v : tl) constOps.erase(v);
  }
  void lower2(const Instruction* I) {
    u32 d = slot[I];
    auto dl = lv(I->getType());
    switch (I->getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) {
          u32 e = edge(I->getParent(), b->getSuccessor(0));
          Inst& x = emit(I, I_BR); x.x = e;
        } else {
          auto c = ops(b->getCondition());
          u32 e1 = edge(I->getParent(), b->getSuccessor(0)), e2 = edge(I->getParent(), b->getSuccessor(1));
          Inst& x = emit(I, I_CONDBR); x.a = c[0]; x.x = e1; x.b = (Opnd)e2;
        }
        return;
      }
      case Instruction::Switch: {
        auto* s = cast<SwitchInst>(I);
        SwitchInfo si;
        for (auto& c : s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I->getParent(), c.getCaseSuccessor())});
        si.def = edge(I->getParent(), s->getDefaultDest());
        F->switches.push_back(si);
        auto c = ops(s->getCondition());
        Inst& x = emit(I, I_SWITCH);
        x.a = c[0]; x.w = s->getCondition()->getType()->getIntegerBitWidth(); x.x = (u32)F->switches.size() - 1;
        return;
      }
      case Instruction::Ret: {
        auto* r = cast<ReturnInst>(I);
        CallInfo ci;  // reuse args as return values
        if (r->getReturnValue()) {
          ci.args = ops(r->getReturnValue());
          for (auto& l : lv(r->getReturnValue()->getType())) ci.argW.push_back(l.w);
        }
        F->calls.push_back(ci);
        Inst& x = emit(I, I_RET); x.x = (u32)F->calls.size() - 1;
        return;
      }
      case Instruction::Unreachable: emit(I, I_UNREACHABLE); return;
      case Instruction::ICmp: case Instruction::FCmp: {
        auto a = ops(I->getOperand(0)), b = ops(I->getOperand(1));
        auto l = lv(I->getOperand(0)->getType());
        for (size_t i = 0; i < a.size(); i++) {
          Inst& x = emit(I, I->getOpcode() == Instruction::ICmp ? I_CMP : I_FCMP);
          x.sub = (u8)cast<CmpInst>(I)->getPredicate(); x.a = a[i]; x.b = b[i]; x.w = l[i].w; x.dst = (int32_t)(d + i);
        }
        return;
      }
      case Instruction::Select: {
        auto c = ops(I->getOperand(0)), a = ops(I->getOperand(1)), b = ops(I->getOperand(2));
        for (size_t i = 0; i < a.size(); i++) {
          Inst& x = emit(I, I_SELECT);
          x.a = c.size() > 1 ? c[i] : c[0]; x.b = a[i]; x.c = b[i]; x.w = dl[i].w; x.dst = (int32_t)(d + i);
        }
        return;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        auto a = ops(I->getOperand(0));
        auto l = lv(I->getOperand(0)->getType());
        for (size_t i = 0; i < a.size(); i++) {
          Inst& x = emit(I, I->getOpcode() == Instruction::ZExt ? I_ZEXT : I->getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC);
          x.a = a[i]; x.w = l[i].w; x.w2 = dl[i].w; x.dst = (int32_t)(d + i);
        }
        return;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      case Instruction::FPExt: case Instruction::FPTrunc: {
        auto a = ops(I->getOperand(0));
        auto l = lv(I->getOperand(0)->getType());
        for (size_t i = 0; i < a.size(); i++) {
          Inst& x = emit(I, I_FCAST);
          switch (I->getOpcode()) {
            case Instruction::FPToSI: x.sub = E_FTOSI; break;
            case Instruction::FPToUI: x.sub = E_FTOUI; break;
            case Instruction::SIToFP: x.sub = E_SITOF; break;
            case Instruction::UIToFP: x.sub = E_UITOF; break;
            default: x.sub = E_FCVT; break;
          }
          x.a = a[i]; x.w = l[i].w; x.w2 = dl[i].w; x.dst = (int32_t)(d + i);
        }
        return;
      }
      case Instruction::FNeg: {
        auto a = ops(I->getOperand(0));
        for (size_t i = 0; i < a.size(); i++) { Inst& x = emit(I, I_FNEG); x.a = a[i]; x.w = dl[i].w; x.dst = (int32_t)(d + i); }
        return;
      }
      case Instruction::BitCast: {
        auto a = ops(I->getOperand(0));
        auto l = lv(I->getOperand(0)->getType());
        if (a.size() == dl.size()) { copyTo(I, d, a, dl); return; }
        if (dl.size() == 1 && l.size() * l[0].w == dl[0].w && dl[0].w <= 64) {  // vector -> integer
          Inst* prev = nullptr; (void)prev;
          u32 acc = newSlots(1);
          Inst& z = emit(I, I_ZEXT); z.a = a[0]; z.w = l[0].w; z.w2 = dl[0].w; z.dst = (int32_t)acc;
          for (size_t i = 1; i < a.size(); i++) {
            u32 t1 = newSlots(1), t2 = newSlots(1), t3 = newSlots(1);
            Inst& z1 = emit(I, I_ZEXT); z1.a = a[i]; z1.w = l[i].w; z1.w2 = dl[0].w; z1.dst = (int32_t)t1;
            Val sh; sh.c = l[0].w * i;
            Opnd so = pool(sh);
            Inst& z2 = emit(I, I_BIN); z2.sub = E_SHL; z2.a = (Opnd)t1; z2.b = so; z2.w = dl[0].w; z2.dst = (int32_t)t2;
            Inst& z3 = emit(I, I_BIN); z3.sub = E_OR; z3.a = (Opnd)acc; z3.b = (Opnd)t2; z3.w = dl[0].w; z3.dst = (int32_t)t3;
            acc = t3;
          }
          Inst& x = emit(I, I_COPY); x.a = (Opnd)acc; x.w = dl[0].w; x.dst = (int32_t)d;
          return;
        }
        emit(I, I_UNSUPPORTED);
        return;
      }
      case Instruction::PtrToInt: {
        auto a = ops(I->getOperand(0));
        if (dl[0].w == 64) copyTo(I, d, a, dl);
        else { Inst& x = emit(I, dl[0].w < 64 ? I_TRUNC : I_ZEXT); x.a = a[0]; x.w = 64; x.w2 = dl[0].w; x.dst = (int32_t)d; }
        return;
      }
      case Instruction::IntToPtr: {
        auto a = ops(I->getOperand(0));
        unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth();
        if (w == 64) copyTo(I, d, a, dl);
        else { Inst& x = emit(I, w > 64 ? I_TRUNC : I_ZEXT); x.a = a[0]; x.w = w; x.w2 = 64; x.dst = (int32_t)d; }
        return;
      }
      case Instruction::Freeze: case Instruction::AddrSpaceCast: copyTo(I, d, ops(I->getOperand(0)), dl); return;
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(I);
        GepInfo gi;
        gi.off = 0;
        for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
          const Value* idx = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) {
            gi.off += (s64)P.DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
          } else {
            s64 sc = (s64)P.DL->getTypeAllocSize(it.getIndexedType());
            if (auto* c = dyn_cast<ConstantInt>(idx)) gi.off += c->getSExtValue() * sc;
            else gi.terms.push_back({ops(idx)[0], idx->getType()->getIntegerBitWidth(), sc});
          }
        }
        F->geps.push_back(gi);
        auto b = ops(g->getPointerOperand());
        Inst& x = emit(I, I_GEP); x.a = b[0]; x.x = (u32)F->geps.size() - 1; x.dst = (int32_t)d; x.w = 64;
        return;
      }
      case Instruction::Load: {
        auto* l = cast<LoadInst>(I);
        auto p = ops(l->getPointerOperand());
        for (size_t i = 0; i < dl.size(); i++) {
          Inst& x = emit(I, I_LOAD); x.a = p[0]; x.x = dl[i].off; x.w = dl[i].w; x.dst = (int32_t)(d + i);
          x.sub = l->isAtomic() ? (u8)l->getOrdering() : 0;
        }
        return;
      }
      case Instruction::Store: {
        auto* s = cast<StoreInst>(I);
        auto p = ops(s->getPointerOperand()), v = ops(s->getValueOperand());
        auto l = lv(s->getValueOperand()->getType());
        for (size_t i = 0; i < v.size(); i++) {
          Inst& x = emit(I, I_STORE); x.a = p[0]; x.b = v[i]; x.x = l[i].off; x.w = l[i].w;
          x.sub = s->isAtomic() ? (u8)s->getOrdering() : 0;
        }
        return;
      }
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        AllocaInfo ai;
        ai.size = P.DL->getTypeAllocSize(a->getAllocatedType());
        ai.hasCount = a->isArrayAllocation();
        if (ai.hasCount) ai.count = ops(a->getArraySize())[0];
        F->allocas.push_back(ai);
        Inst& x = emit(I, I_ALLOCA); x.x = (u32)F->allocas.size() - 1; x.dst = (int32_t)d;
        return;
      }
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I);
        auto a = ops(ev->getAggregateOperand());
        size_t o = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices());
        copyTo(I, d, std::vector<Opnd>(a.begin() + o, a.begin() + o + dl.size()), dl);
        return;
      }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I);
        auto a = ops(iv->getAggregateOperand()), v = ops(iv->getInsertedValueOperand());
        size_t o = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices());
        bool und = isa<UndefValue>(iv->getAggregateOperand());
        for (size_t i = 0; i < a.size(); i++) {
          bool ins = i >= o && i < o + v.size();
          if (!ins && und) { Val z; if (dl[i].w > 64) z.e = mkConst(0, dl[i].w); a[i] = pool(z); }
          Inst& x = emit(I, I_COPY); x.dst = (int32_t)(d + i); x.a = ins ? v[i - o] : a[i]; x.w = dl[i].w;
        }
        return;
      }
      case Instruction::ExtractElement: {
        auto a = ops(I->getOperand(0));
        auto* c = dyn_cast<ConstantInt>(I->getOperand(1));
        if (!c) { emit(I, I_UNSUPPORTED); return; }
        copyTo(I, d, {a[c->getZExtValue()]}, dl);
        return;
      }
      case Instruction::InsertElement: {
        auto a = ops(I->getOperand(0)), v = ops(I->getOperand(1));
        auto* c = dyn_cast<ConstantInt>(I->getOperand(2));
        if (!c) { emit(I, I_UNSUPPORTED); return; }
        bool und = isa<UndefValue>(I->getOperand(0));
        if (und) for (auto& o : a) o = pool(Val());
        a[c->getZExtValue()] = v[0];
        copyTo(I, d, a, dl);
        return;
      }
      case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I);
        auto a = ops(I->getOperand(0)), b = ops(I->getOperand(1));
        std::vector<Opnd> r;
        for (int m : sv->getShuffleMask()) {
          if (m < 0) r.push_back(pool(Val()));
          else r.push_back((size_t)m < a.size() ? a[m] : b[m - a.size()]);
        }
        copyTo(I, d, r, dl);
        return;
      }
      case Instruction::Fence: { Inst& x = emit(I, I_FENCE); x.sub = (u8)cast<FenceInst>(I)->getOrdering(); return; }
      case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(I);
        auto p = ops(r->getPointerOperand()), v = ops(r->getValOperand());
        Inst& x = emit(I, I_RMW); x.a = p[0]; x.b = v[0]; x.x = (u32)r->getOperation(); x.w = dl[0].w; x.dst = (int32_t)d;
        x.sub = (u8)r->getOrdering();
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(I);
        auto p = ops(r->getPointerOperand()), cm = ops(r->getCompareOperand()), v = ops(r->getNewValOperand());
        Inst& x = emit(I, I_CMPXCHG); x.a = p[0]; x.b = cm[0]; x.c = v[0]; x.w = dl[0].w; x.dst = (int32_t)d;
        x.sub = (u8)r->getSuccessOrdering();
        return;
      }
      case Instruction::Call: {
        auto* cb = cast<CallInst>(I);
        CallInfo ci;
        if (cb->isInlineAsm()) {
          ci.name = "inlineasm";
          ci.builtin = findBuiltin("inlineasm");
        }
        const Value* callee = cb->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto* f = dyn_cast<Function>(callee)) {
          ci.name = f->getName().str();
          if (f->isIntrinsic()) {
            if (isa<DbgInfoIntrinsic>(I)) return;
            switch (f->getIntrinsicID()) {
              case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
              case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
                return;
              case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
              case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
                copyTo(I, d, ops(cb->getArgOperand(0)), dl);
                return;
              case Intrinsic::is_constant: { Val z; z.c = isa<Constant>(cb->getArgOperand(0)); Inst x0; (void)x0; Opnd o = pool(z); Inst& x = emit(I, I_COPY); x.dst = (int32_t)d; x.a = o; x.w = 1; return; }
              default: break;
            }
            // strip type suffix by base name
            ci.name = Intrinsic::getBaseName(f->getIntrinsicID()).str();
            ci.builtin = findBuiltin(ci.name);
          } else {
            Fn* fn = P.fnOf[f];
            ci.direct = fn;
            ci.builtin = fn->builtin;
          }
        } else if (!cb->isInlineAsm()) {
          ci.callee = ops(cb->getCalledOperand())[0];
        }
        ci.noreturn = cb->doesNotReturn();
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          const Value* a = cb->getArgOperand(i);
          if (a->getType()->isMetadataTy()) continue;
          if (auto* gv = dyn_cast<GlobalVariable>(a); gv && gv->isThreadLocal() && ci.name == "llvm.threadlocal.address") {
            Val v; v.c = P.tlsIndex[gv];
            ci.args.push_back(pool(v)); ci.argW.push_back(64);
            continue;
          }
          auto o = ops(a);
          auto l = lv(a->getType());
          for (size_t j = 0; j < o.size(); j++) { ci.args.push_back(o[j]); ci.argW.push_back(l[j].w); }
        }
        for (auto& l : dl) ci.retW.push_back(l.w);
        // lane-wise expansion of vector intrinsics
        if (ci.name.rfind("llvm.", 0) == 0 && dl.size() > 1 && isa<FixedVectorType>(I->getType())) { emit(I, I_UNSUPPORTED); return; }
        F->calls.push_back(ci);
        Inst& x = emit(I, I_CALL); x.x = (u32)F->calls.size() - 1; x.dst = (int32_t)d;
        return;
      }
      default: {
        int b = binop(I->getOpcode());
        if (b >= 0) {
          auto a = ops(I->getOperand(0)), c = ops(I->getOperand(1));
          for (size_t i = 0; i < a.size(); i++) {
            Inst& x = emit(I, I_BIN); x.sub = (u8)b; x.a = a[i]; x.b = c[i]; x.w = dl[i].w; x.dst = (int32_t)(d + i);
          }
          return;
        }
        std::string s;
        raw_string_ostream os(s);
        I->print(os);
        Inst& x = emit(I, I_UNSUPPORTED);
        x.file = intern(os.str());
        return;
      }
    }
  }
  size_t aggOff(Type* t, ArrayRef<unsigned> idx) {
    size_t o = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned j = 0; j < i; j++) o += lv(st->getElementType(j)).size();
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        o += lv(at->getElementType()).size() * i;
        t = at->getElementType();
      }
    }
    return o;
  }
};
}  // namespace

void lowerFn(Fn* f) {
  if (f->lowered) return;
  f->lowered = true;
  if (f->f->isDeclaration()) return;
  Lower l;
  l.F = f;
  l.run();
}
