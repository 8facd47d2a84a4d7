// vsym: a bounded symbolic executor for LLVM IR.
// usage: vsym MODULE.bc --entry FN --out RESULT.json [--max-steps N] [--time S] [--max-viol N] [--cov]
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Module* M; static const DataLayout* DL; static LLVMContext C;
static uint64_t maxSteps = 30000000; static double timeLimit = 120, tStart; static int maxViol = 6; static bool wantCov = false; static double afterViol = 6;
static uint64_t totalSteps = 0, pathsDone = 0, pathsKilled = 0, pathsViol = 0, forksTotal = 0, maxPathSteps = 0; static size_t maxConstraints = 0;
static bool incomplete = false; static std::set<std::string> incompleteWhy;
static std::map<std::string, uint64_t> reached; static std::set<std::string> assertsSeen; static uint64_t assertsChecked = 0;
static std::map<std::string, uint64_t> unsupported;

// ---------------------------------------------------------------- compiled functions
enum IOp : uint16_t { I_BIN, I_ICMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_INVOKE, I_BR, I_JMP, I_SWITCH, I_RET, I_UNREACH,
  I_EXTRACTV, I_INSERTV, I_LANDING, I_RESUME, I_RMW, I_CMPX, I_FENCE, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_FREEZE, I_BAD, I_MOVE };
struct GepT { int32_t opnd; uint8_t w; int64_t scale; };
struct Leaf { uint32_t off; uint8_t w; uint8_t bytes; };
struct CallInfo { FnImpl* callee = nullptr; int32_t fnOp = 0; std::vector<int32_t> args; std::vector<uint8_t> nslots; std::vector<uint8_t> widths; std::vector<uint32_t> byval; int intr = 0; int retSlots = 0; uint8_t retW = 0; bool vararg = false; unsigned nfixed = 0; std::string name; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; };
struct LandInfo { bool cleanup; std::vector<std::pair<bool, std::vector<uint64_t>>> clauses; };  // (isFilter, types)
typedef std::function<void(State&, const Ins&, CallInfo&)> Builtin;
struct FnImpl {
  Function* F; std::string name; bool compiled = false; uint32_t nregs = 0; std::vector<Ins> code; std::vector<Edge> edges; std::vector<std::pair<int32_t, int32_t>> copies;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<std::vector<GepT>> geps; std::vector<std::vector<Leaf>> leaves; std::vector<LandInfo> lands;
  std::vector<int32_t> argBase; std::vector<uint8_t> argSlots; uint64_t addr = 0; Builtin* bi = nullptr; bool executed = false; uint64_t calls_ = 0;
};
static std::unordered_map<const Function*, FnImpl*> fnMap; static std::unordered_map<uint64_t, FnImpl*> fnByAddr;
static std::vector<V> cpool; static std::unordered_map<const Constant*, int32_t> cmap;
static std::unordered_map<const GlobalVariable*, uint64_t> gaddr; static std::unordered_map<std::string, Builtin> builtins;
static std::vector<std::string> sites; static std::map<std::string, uint32_t> siteIdx;

static unsigned slotsOf(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * slotsOf(v->getElementType());
  return 1;
}
static unsigned widthOf(Type* t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  return 0;
}
static void leavesOf(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) leavesOf(v->getElementType(), off + i * es, out); return; }
  unsigned w = widthOf(t); out.push_back({(uint32_t)off, (uint8_t)w, (uint8_t)((w + 7) / 8)});
}

// ---------------------------------------------------------------- addresses
static const uint64_t LOW = 0x10000000ull;
static uint64_t addrOf(uint32_t id, bool desc) { return ((uint64_t)(desc ? 0x7fff0000u - id : id) << 32) | LOW; }
static uint32_t idOf(uint64_t a) { uint32_t h = a >> 32; return h > 0x3fff0000u ? 0x7fff0000u - h : h; }
static int64_t offOf(uint64_t a) { return (int64_t)(a & 0xffffffffull) - (int64_t)LOW; }

static Object* getObj(State& s, uint32_t id) { if (id == 0 || id >= s.nobj) return nullptr; Chunk* c = s.mem[id / CH].p; return c ? c->o[id % CH].p : nullptr; }
static Object* wObj(State& s, uint32_t id) {
  ChunkP& cp = s.mem[id / CH];
  if (cp.p->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < CH; i++) n->o[i] = cp.p->o[i]; cp.p->rc--; cp.p = n; }
  ObjP& op = cp.p->o[id % CH];
  if (op.p->rc > 1) { Object* n = new Object(*op.p); n->rc = 1; op.p->rc--; op.p = n; }
  return op.p;
}
static void freeObj(State& s, uint32_t id) {
  ChunkP& cp = s.mem[id / CH];
  if (cp.p->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < CH; i++) n->o[i] = cp.p->o[i]; cp.p->rc--; cp.p = n; }
  cp.p->o[id % CH].rel();
}
static uint64_t newObj(State& s, uint64_t size, OKind k, bool uninit) {
  uint32_t id = s.nobj++; if (id / CH >= s.mem.size()) { s.mem.emplace_back(); }
  ChunkP& cp = s.mem[id / CH]; if (!cp.p) cp.p = new Chunk;
  else if (cp.p->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < CH; i++) n->o[i] = cp.p->o[i]; cp.p->rc--; cp.p = n; }
  Object* o = new Object; o->size = size; o->kind = k; o->data.assign(size, 0); o->allUninit = uninit && size > 0; cp.p->o[id % CH] = ObjP(o);
  bool desc = s.heapDesc && (k == KMalloc || k == KNew || k == KNewArr);
  return addrOf(id, desc);
}

// ---------------------------------------------------------------- constants
static int32_t constRef(const Constant* c);
static bool constVals(const Constant* c, std::vector<V>& out);
static FnImpl* getFn(const Function* f);
static uint64_t constAddr(const Constant* c, bool& ok) {
  if (auto* g = dyn_cast<GlobalVariable>(c)) return gaddr[g];
  if (auto* f = dyn_cast<Function>(c)) return getFn(f)->addr;
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee(), ok);
  if (isa<ConstantPointerNull>(c)) return 0;
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (isa<UndefValue>(c)) return 0;
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) { ok = false; return 0; } return constAddr(ce->getOperand(0), ok) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { uint64_t v = constAddr(ce->getOperand(0), ok); return v & maskw(widthOf(ce->getType())); }
    case Instruction::Trunc: return constAddr(ce->getOperand(0), ok) & maskw(widthOf(ce->getType()));
    case Instruction::Sub: return constAddr(ce->getOperand(0), ok) - constAddr(ce->getOperand(1), ok);
    case Instruction::Add: return constAddr(ce->getOperand(0), ok) + constAddr(ce->getOperand(1), ok);
    case Instruction::Mul: return constAddr(ce->getOperand(0), ok) * constAddr(ce->getOperand(1), ok);
    case Instruction::Xor: return constAddr(ce->getOperand(0), ok) ^ constAddr(ce->getOperand(1), ok);
    case Instruction::And: return constAddr(ce->getOperand(0), ok) & constAddr(ce->getOperand(1), ok);
    default: ok = false; return 0;
    }
  }
  ok = false; return 0;
}
static bool constVals(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    unsigned n = isa<StructType>(t) ? t->getStructNumElements() : isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); if (!e) return false; if (!constVals(e, out)) return false; }
    return true;
  }
  V v; 
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; v.c = ci->getZExtValue(); }
  else if (auto* cf = dyn_cast<ConstantFP>(c)) { if (!t->isFloatTy() && !t->isDoubleTy()) return false; v.c = cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  else if (isa<UndefValue>(c)) { v.c = 0; v.e = UNINIT; }
  else { bool ok = true; v.c = constAddr(c, ok); if (!ok) return false; }
  out.push_back(v); return true;
}
static int32_t constRef(const Constant* c) {
  auto it = cmap.find(c); if (it != cmap.end()) return it->second;
  std::vector<V> vs; if (!constVals(c, vs)) { return cmap[c] = INT32_MIN; }
  int32_t base = (int32_t)cpool.size(); for (auto& v : vs) cpool.push_back(v);
  return cmap[c] = -1 - base;
}
// operand slot i of reference r: register r+i or constant (-1-r)+i
static inline int32_t refAt(int32_t r, int i) { return r >= 0 ? r + i : r - i; }

static FnImpl* getFn(const Function* f) {
  auto it = fnMap.find(f); if (it != fnMap.end()) return it->second;
  FnImpl* n = new FnImpl; n->F = const_cast<Function*>(f); n->name = f->getName().str(); fnMap[f] = n;
  auto b = builtins.find(n->name); if (b != builtins.end()) n->bi = &b->second;
  return n;
}

// intrinsics handled inline
enum { IN_NONE, IN_NOP, IN_MEMCPY, IN_MEMSET, IN_UMULO, IN_UADDO, IN_USUBO, IN_SMULO, IN_SADDO, IN_SSUBO, IN_TYPEID, IN_VASTART, IN_VACOPY, IN_TRAP, IN_ABS, IN_SMAX, IN_SMIN, IN_UMAX, IN_UMIN, IN_BSWAP, IN_CTLZ, IN_CTTZ, IN_CTPOP, IN_EXPECT, IN_TLA, IN_ISCONST, IN_OBJSIZE, IN_FABS, IN_STACKSAVE, IN_ASSUME, IN_FSHL, IN_FSHR };
static int intrKind(StringRef n) {
  if (!n.starts_with("llvm.")) return IN_NONE;
  auto p = [&](const char* s) { return n.starts_with(s); };
  if (p("llvm.dbg.") || p("llvm.lifetime.") || p("llvm.va_end") || p("llvm.stackrestore") || p("llvm.experimental.noalias") || p("llvm.donothing") || p("llvm.prefetch")) return IN_NOP;
  if (p("llvm.assume")) return IN_NOP;
  if (p("llvm.memcpy.") || p("llvm.memmove.")) return IN_MEMCPY; if (p("llvm.memset.")) return IN_MEMSET;
  if (p("llvm.umul.with.overflow")) return IN_UMULO; if (p("llvm.uadd.with.overflow")) return IN_UADDO; if (p("llvm.usub.with.overflow")) return IN_USUBO;
  if (p("llvm.smul.with.overflow")) return IN_SMULO; if (p("llvm.sadd.with.overflow")) return IN_SADDO; if (p("llvm.ssub.with.overflow")) return IN_SSUBO;
  if (p("llvm.eh.typeid.for")) return IN_TYPEID; if (p("llvm.va_start")) return IN_VASTART; if (p("llvm.va_copy")) return IN_VACOPY; if (p("llvm.trap") || p("llvm.debugtrap") || p("llvm.ubsantrap")) return IN_TRAP;
  if (p("llvm.abs.")) return IN_ABS; if (p("llvm.smax.")) return IN_SMAX; if (p("llvm.smin.")) return IN_SMIN; if (p("llvm.umax.")) return IN_UMAX; if (p("llvm.umin.")) return IN_UMIN;
  if (p("llvm.bswap.")) return IN_BSWAP; if (p("llvm.ctlz.")) return IN_CTLZ; if (p("llvm.cttz.")) return IN_CTTZ; if (p("llvm.ctpop.")) return IN_CTPOP; if (p("llvm.expect.")) return IN_EXPECT;
  if (p("llvm.threadlocal.address")) return IN_TLA; if (p("llvm.is.constant")) return IN_ISCONST; if (p("llvm.objectsize")) return IN_OBJSIZE; if (p("llvm.fabs.")) return IN_FABS; if (p("llvm.stacksave")) return IN_STACKSAVE;
  if (p("llvm.fshl.")) return IN_FSHL; if (p("llvm.fshr.")) return IN_FSHR;
  return IN_NONE;
}

static std::string fileLine(const Instruction* I) {
  if (auto& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); return (sc->getFilename() + ":" + Twine(d.getLine())).str(); }
  return "";
}

static void compile(FnImpl* f) {
  f->compiled = true; Function& F = *f->F; std::unordered_map<const Value*, int32_t> reg; int32_t n = 0;
  auto alloc = [&](const Value* v) { unsigned k = slotsOf(v->getType()); reg[v] = n; n += k; };
  for (auto& a : F.args()) { f->argBase.push_back(n); f->argSlots.push_back(slotsOf(a.getType())); alloc(&a); }
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I);
  int32_t phiTmp = n; unsigned maxPhi = 0;
  for (auto& B : F) { unsigned k = 0; for (auto& P : B.phis()) k += slotsOf(P.getType()); maxPhi = std::max(maxPhi, k); }
  n += maxPhi; f->nregs = n;
  auto ref = [&](const Value* v) -> int32_t { if (auto* c = dyn_cast<Constant>(v)) { int32_t r = constRef(c); return r; } return reg[v]; };
  std::unordered_map<const BasicBlock*, int32_t> bpc; int32_t pc = 0;
  for (auto& B : F) { bpc[&B] = pc; for (auto& I : B) { if (isa<PHINode>(I)) continue; if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (intrKind(ii->getCalledFunction()->getName()) == IN_NOP) continue; pc++; } }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
    Edge e; e.target = bpc[to]; e.copyBase = f->copies.size(); e.ncopy = 0; std::vector<std::pair<int32_t, int32_t>> cp;
    for (auto& P : to->phis()) { const Value* v = P.getIncomingValueForBlock(from); int32_t r = ref(v), d = reg[&P]; for (unsigned i = 0; i < slotsOf(P.getType()); i++) cp.push_back({d + (int)i, refAt(r, i)}); }
    // parallel copy: go through temporaries when a destination is also a source
    bool overlap = false; for (auto& x : cp) for (auto& y : cp) if (&x != &y && x.first == y.second) overlap = true;
    if (overlap) { int i = 0; for (auto& x : cp) f->copies.push_back({phiTmp + i++, x.second}); i = 0; for (auto& x : cp) f->copies.push_back({x.first, phiTmp + i++}); }
    else for (auto& x : cp) f->copies.push_back(x);
    e.ncopy = f->copies.size() - e.copyBase; f->edges.push_back(e); return f->edges.size() - 1;
  };
  for (auto& B : F) for (auto& I : B) {
    if (isa<PHINode>(I)) continue;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (intrKind(ii->getCalledFunction()->getName()) == IN_NOP) continue;
    Ins o; memset(&o, 0, sizeof o); o.op = I_BAD; o.I = &I; o.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
    bool vec = I.getType()->isVectorTy(); for (auto& u : I.operands()) if (u->getType()->isVectorTy()) vec = true;
    bool wide = false; if (I.getType()->isIntegerTy() && I.getType()->getIntegerBitWidth() > 64) wide = true; for (auto& u : I.operands()) if (u->getType()->isIntegerTy() && u->getType()->getIntegerBitWidth() > 64) wide = true;
    if (wide || (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallBase>(I) && !isa<ReturnInst>(I))) { f->code.push_back(o); continue; }
    for (auto& u : I.operands()) if (auto* c = dyn_cast<Constant>(u.get())) if (!isa<BasicBlock>(c) && c->getType()->isFirstClassType() && !c->getType()->isMetadataTy() && !c->getType()->isLabelTy()) if (!isa<CallBase>(I) && !isa<LandingPadInst>(I) && !isa<SwitchInst>(I) && constRef(c) == INT32_MIN) goto bad;
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static const std::map<unsigned, Op> mp = {{Instruction::Add, OAdd}, {Instruction::Sub, OSub}, {Instruction::Mul, OMul}, {Instruction::UDiv, OUDiv}, {Instruction::SDiv, OSDiv}, {Instruction::URem, OURem}, {Instruction::SRem, OSRem}, {Instruction::And, OAnd}, {Instruction::Or, OOr}, {Instruction::Xor, OXor}, {Instruction::Shl, OShl}, {Instruction::LShr, OLShr}, {Instruction::AShr, OAShr}};
      o.op = I_BIN; o.x = mp.at(I.getOpcode()); o.w = widthOf(I.getType()); o.a = ref(I.getOperand(0)); o.b = ref(I.getOperand(1)); break; }
    case Instruction::ICmp: { auto& c = cast<ICmpInst>(I); o.op = I_ICMP; o.w = widthOf(c.getOperand(0)->getType()); o.a = ref(c.getOperand(0)); o.b = ref(c.getOperand(1)); o.x = c.getPredicate(); break; }
    case Instruction::FCmp: { auto& c = cast<FCmpInst>(I); o.op = I_FCMP; o.w = widthOf(c.getOperand(0)->getType()); o.a = ref(c.getOperand(0)); o.b = ref(c.getOperand(1)); o.x = c.getPredicate(); if (!o.w) goto bad; break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: o.op = I_FBIN; o.w = widthOf(I.getType()); o.x = I.getOpcode(); o.a = ref(I.getOperand(0)); o.b = ref(I.getOperand(1)); if (!o.w) goto bad; break;
    case Instruction::FNeg: o.op = I_FNEG; o.w = widthOf(I.getType()); o.a = ref(I.getOperand(0)); if (!o.w) goto bad; break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      o.op = I_CAST; o.w = widthOf(I.getType()); o.w2 = widthOf(I.getOperand(0)->getType()); o.a = ref(I.getOperand(0)); o.x = I.getOpcode() == Instruction::SExt; if (!o.w || !o.w2) goto bad; break;
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      o.op = I_FCAST; o.w = widthOf(I.getType()); o.w2 = widthOf(I.getOperand(0)->getType()); o.a = ref(I.getOperand(0)); o.x = I.getOpcode(); if (!o.w || !o.w2) goto bad; break;
    case Instruction::Freeze: o.op = I_FREEZE; o.a = ref(I.getOperand(0)); o.x = slotsOf(I.getType()); o.w = widthOf(I.getType()); break;
    case Instruction::Select: o.op = I_SELECT; o.w = widthOf(I.getType()); o.a = ref(I.getOperand(0)); o.b = ref(I.getOperand(1)); o.c = ref(I.getOperand(2)); if (slotsOf(I.getType()) != 1) goto bad; break;
    case Instruction::Load: { auto& l = cast<LoadInst>(I); o.op = I_LOAD; o.a = ref(l.getPointerOperand()); o.w2 = l.isAtomic() ? 1 + (int)l.getOrdering() : 0; std::vector<Leaf> lv; leavesOf(l.getType(), 0, lv); for (auto& x : lv) if (!x.w || x.w > 64) goto bad; o.x = f->leaves.size(); f->leaves.push_back(lv); o.y = DL->getTypeStoreSize(l.getType()); break; }
    case Instruction::Store: { auto& l = cast<StoreInst>(I); o.op = I_STORE; o.a = ref(l.getPointerOperand()); o.b = ref(l.getValueOperand()); o.w2 = l.isAtomic() ? 1 + (int)l.getOrdering() : 0; std::vector<Leaf> lv; leavesOf(l.getValueOperand()->getType(), 0, lv); for (auto& x : lv) if (!x.w || x.w > 64) goto bad; o.x = f->leaves.size(); f->leaves.push_back(lv); o.y = DL->getTypeStoreSize(l.getValueOperand()->getType()); break; }
    case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(I); o.op = I_GEP; o.a = ref(g.getPointerOperand()); int64_t base = 0; std::vector<GepT> ts;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value* ix = gi.getOperand();
        if (auto* st = gi.getStructTypeOrNull()) base += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) base += ci->getSExtValue() * sc; else ts.push_back({ref(ix), (uint8_t)widthOf(ix->getType()), sc}); }
      }
      o.x = f->geps.size(); f->geps.push_back(ts); o.b = (int32_t)base; o.c = (int32_t)(base >> 32); break; }
    case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); o.op = I_ALLOCA; o.x = DL->getTypeAllocSize(a.getAllocatedType()); o.a = ref(a.getArraySize()); o.w = widthOf(a.getArraySize()->getType()); break; }
    case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) { o.op = I_BR; o.a = ref(b.getCondition()); o.x = edge(&B, b.getSuccessor(0)); o.y = edge(&B, b.getSuccessor(1)); } else { o.op = I_JMP; o.x = edge(&B, b.getSuccessor(0)); } break; }
    case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); o.op = I_SWITCH; o.a = ref(sw.getCondition()); o.w = widthOf(sw.getCondition()->getType()); SwitchInfo si; si.def = edge(&B, sw.getDefaultDest()); for (auto& c : sw.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), (int)edge(&B, c.getCaseSuccessor())}); o.x = f->switches.size(); f->switches.push_back(si); break; }
    case Instruction::Ret: { auto& r = cast<ReturnInst>(I); o.op = I_RET; if (r.getReturnValue()) { o.a = ref(r.getReturnValue()); o.x = slotsOf(r.getReturnValue()->getType()); } break; }
    case Instruction::Unreachable: o.op = I_UNREACH; break;
    case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); Type* t = e.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } }
      o.op = I_EXTRACTV; o.a = refAt(ref(e.getAggregateOperand()), off); o.x = slotsOf(t); break; }
    case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); Type* t = e.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } }
      o.op = I_INSERTV; o.a = ref(e.getAggregateOperand()); o.b = ref(e.getInsertedValueOperand()); o.x = off; o.y = slotsOf(t); o.c = slotsOf(e.getType()); break; }
    case Instruction::LandingPad: { auto& l = cast<LandingPadInst>(I); LandInfo li; li.cleanup = l.isCleanup(); for (unsigned k = 0; k < l.getNumClauses(); k++) { std::vector<uint64_t> ts; bool ok = true; Constant* c = l.getClause(k); if (l.isCatch(k)) ts.push_back(constAddr(c, ok)); else { for (unsigned q = 0; q < cast<ArrayType>(c->getType())->getNumElements(); q++) ts.push_back(constAddr(c->getAggregateElement(q), ok)); } li.clauses.push_back({l.isFilter(k), ts}); }
      o.op = I_LANDING; o.x = f->lands.size(); f->lands.push_back(li); break; }
    case Instruction::Resume: o.op = I_RESUME; o.a = ref(I.getOperand(0)); break;
    case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); o.op = I_RMW; o.w = widthOf(r.getType()); o.a = ref(r.getPointerOperand()); o.b = ref(r.getValOperand()); o.x = r.getOperation(); o.w2 = 1 + (int)r.getOrdering(); break; }
    case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); o.op = I_CMPX; o.w = widthOf(r.getNewValOperand()->getType()); o.a = ref(r.getPointerOperand()); o.b = ref(r.getCompareOperand()); o.c = ref(r.getNewValOperand()); o.w2 = 1 + (int)r.getSuccessOrdering(); break; }
    case Instruction::Fence: o.op = I_FENCE; break;
    case Instruction::Call: case Instruction::Invoke: {
      auto& cb = cast<CallBase>(I); CallInfo ci; bool okc = true;
      if (cb.isInlineAsm()) goto bad;
      if (auto* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) { ci.name = cf->getName().str(); ci.intr = intrKind(cf->getName()); if (ci.intr == IN_NONE) ci.callee = getFn(cf); }
      else if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand())) { auto* cf2 = dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); if (!cf2) goto bad; ci.name = cf2->getName().str(); ci.callee = getFn(cf2); }
      else ci.fnOp = ref(cb.getCalledOperand());
      ci.vararg = cb.getFunctionType()->isVarArg(); ci.nfixed = cb.getFunctionType()->getNumParams();
      for (unsigned k = 0; k < cb.arg_size(); k++) { Value* a = cb.getArgOperand(k); if (a->getType()->isMetadataTy()) { ci.args.push_back(0); ci.nslots.push_back(0); ci.widths.push_back(0); ci.byval.push_back(0); continue; }
        int32_t r = ref(a); if (r == INT32_MIN) okc = false; ci.args.push_back(r); ci.nslots.push_back(slotsOf(a->getType())); ci.widths.push_back(widthOf(a->getType())); ci.byval.push_back(cb.isByValArgument(k) ? DL->getTypeAllocSize(cb.getParamByValType(k)) : 0); }
      if (!okc) goto bad;
      ci.retSlots = slotsOf(I.getType()); ci.retW = widthOf(I.getType()); 
      o.c = f->calls.size(); f->calls.push_back(ci); o.op = I_CALL;
      if (auto* iv = dyn_cast<InvokeInst>(&I)) { o.op = I_INVOKE; o.x = edge(&B, iv->getNormalDest()); o.y = edge(&B, iv->getUnwindDest()); }
      break; }
    default: break;
    }
    bad:
    f->code.push_back(o);
  }
}

// ---------------------------------------------------------------- execution helpers
struct PathEnd { int kind; std::string what, id; };   // kind 0: finished/killed silently, 1: violation, 2: incomplete
static std::vector<State*> work;
static inline Thread& thr(State& s) { return s.th[s.cur]; }
static inline Frame* top(State& s) {
  auto& fr = thr(s).frames.back();
  if (fr.p->rc > 1) { Frame* n = new Frame(*fr.p); n->rc = 1; fr.p->rc--; fr.p = n; }
  return fr.p;
}
static E freshUninit(State& s, unsigned w) { E v = mkVar(s.nvars++, w, true); return v; }
static inline V rd(Frame* f, int32_t r) { return r >= 0 ? f->regs[r] : cpool[-1 - r]; }
static V get(State& s, Frame* f, int32_t r, unsigned w) {
  V v = rd(f, r); if (v.e == UNINIT) { v.e = freshUninit(s, w); if (r >= 0) f->regs[r] = v; } return v;
}
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromE(E e) { V v; if (isC(e)) v.c = e->k; else v.e = e; return v; }
static inline void setR(Frame* f, int32_t d, const V& v) { f->regs[d] = v; }

static void addC(State& s, E c) {
  if (isC(c)) return;
  if (c->op == OAnd && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  for (E p : s.path) if (p == c) return;
  s.path.push_back(c); if (s.path.size() > maxConstraints) maxConstraints = s.path.size();
}
static bool uninitBranch = true;
// decide a condition on the current path: forks when both sides are feasible. returns the side taken by s.
static State* cloneState(State& s) { forksTotal++; s.forks++; return new State(s); }
static int checkSat(State& s, E c, AssignP& m) { int r = solve(s.path, c, s.model, m); if (r < 0) { incomplete = true; incompleteWhy.insert("solver-unknown"); } return r; }
static int knownSide(State& s, E c) { E n = mkNot(c); for (E p : s.path) { if (p == c) return 1; if (p == n) return 0; } return -1; }
static std::string whereStr(State& s, int depth = 6);

// --shard I/N: the paths are divided by their first decisions (selectors and two-way branches), enough of them to give every shard a dozen cells
static unsigned shardI = 0, shardN = 1;
static bool shardMine(State& s) { uint64_t h = s.shardAcc * 0x9E3779B97F4A7C15ull; return ((h >> 32) ^ h) % shardN == shardI; }
static bool shardDrop(State& s, uint64_t n, uint64_t i) { if (shardN == 1 || s.shardDone || n < 2) return false; s.shardAcc = (s.shardAcc + i + 1) * 6364136223846793005ull + n; s.shardProd *= n; if (s.shardProd < 16ull * shardN) return false; s.shardDone = true; return !shardMine(s); }
// returns side; if both feasible pushes a sibling with the other side; the sibling re-executes the same instruction.
static bool branch(State& s, E c) {
  if (isC(c)) return c->k; int k = knownSide(s, c); if (k >= 0) return k;
  bool side = evalE(c, *s.model); E n = mkNot(c); AssignP m; int r = checkSat(s, side ? n : c, m);
  if (r == 1) {
    if (c->uninit && uninitBranch) throw PathEnd{1, "uninitialised value decides a branch", "uninit"};
    State* t = cloneState(s); t->model = m; addC(*t, side ? n : c); if (shardDrop(*t, 2, !side)) delete t; else work.push_back(t);
    if (shardDrop(s, 2, side)) throw PathEnd{3, "", ""};
  }
  addC(s, side ? c : n); return side;
}
static uint64_t conc(State& s, V v, unsigned w) {
  if (!v.e) return v.c; if (isC(v.e)) return v.e->k;
  uint64_t x = evalE(v.e, *s.model); E eq = mkEq(v.e, mkConst(x, w)); if (isC(eq)) return x; if (knownSide(s, eq) == 1) return x;
  AssignP m; E n = mkNot(eq); int r = checkSat(s, n, m);
  if (r == 1) { State* t = cloneState(s); t->model = m; addC(*t, n); work.push_back(t); }
  addC(s, eq); return x;
}
static void viol(const std::string& what, const std::string& id) { throw PathEnd{1, what, id}; }

// ---- data races
static void raceAccess(State& s, uint32_t id, uint32_t off, uint32_t n, bool write, bool atomic) {
  if (s.th.size() < 2) return;
  Thread& t = thr(s);
  for (uint32_t k = 0; k < n; k++) {
    RaceInfo& ri = s.races[{id, off + k}];
    for (auto& p : ri.acc) if (p.first != s.cur && !(atomic)) {
      uint32_t seen = (size_t)p.first < t.vc.size() ? t.vc[p.first] : 0;
      uint32_t wclk = p.second.first & 0x7fffffff, rclk = p.second.second & 0x7fffffff;
      if (wclk > seen || (write && rclk > seen)) viol("data race: conflicting unsynchronised accesses by two threads", "race");
    } else if (p.first != s.cur && atomic) {
      uint32_t seen = (size_t)p.first < t.vc.size() ? t.vc[p.first] : 0;   // atomic vs earlier plain access
      bool wplain = !(p.second.first & 0x80000000u) , rplain = !(p.second.second & 0x80000000u);
      if ((wplain && (p.second.first) > seen) || (write && rplain && p.second.second > seen)) viol("data race: atomic access conflicts with unsynchronised plain access", "race");
    }
    auto& me = ri.acc[s.cur]; uint32_t clk = t.vc[s.cur] | (atomic ? 0x80000000u : 0);
    if (write) me.first = clk; else me.second = clk;
  }
}
static void joinVC(VC& a, const VC& b) { if (b.size() > a.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }

// resolve an address for an n-byte access; returns the object id and offset; raises a violation for any invalid access
static void resolve(State& s, V a, uint64_t n, bool write, uint32_t& id, uint32_t& off) {
  uint64_t addr;
  if (a.e && !isC(a.e)) {
    // out of bounds possible?
    uint64_t x = evalE(a.e, *s.model); uint32_t oid = idOf(x); Object* o = getObj(s, oid);
    if (o && offOf(x) >= 0 && (uint64_t)offOf(x) + n <= o->size) {
      uint64_t base = (x & 0xffffffff00000000ull) | LOW;
      E rel = mkBin(OSub, a.e, mkConst(base, 64)); E inb = mkBin(OUle, rel, mkConst(o->size - n, 64));
      if (!isC(inb) && knownSide(s, inb) != 1) { AssignP m; int r = checkSat(s, mkNot(inb), m); if (r == 1) { State* t = cloneState(s); t->model = m; addC(*t, mkNot(inb)); work.push_back(t); } addC(s, inb); }
    }
  }
  addr = conc(s, a, 64);
  id = idOf(addr); Object* o = getObj(s, id); int64_t of = offOf(addr);
  if (!o) { if (addr < 0x100000000ull) viol(std::string("null or wild pointer ") + (write ? "write" : "read"), "null-deref"); viol(std::string("use after free ") + (write ? "write" : "read"), "use-after-free"); }
  if (o->kind == KFunc) viol("access to code", "bad-pointer");
  if (of < 0 || (uint64_t)of + n > o->size) viol(std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(of) + " of a " + std::to_string(o->size) + "-byte object", "out-of-bounds");
  if (write && o->ro) viol("write to constant memory", "const-write");
  off = (uint32_t)of;
}
static void ensureSym(Object* o) {
  if (o->sym.empty()) { SymB z{o->allUninit ? UNINIT : nullptr, 0}; o->sym.assign(o->size, z); o->allUninit = false; }
}
static V loadScalar(State& s, uint32_t id, uint32_t off, unsigned w, unsigned n) {
  Object* o = getObj(s, id); V v;
  if (o->sym.empty() && !o->allUninit) { uint64_t x = 0; memcpy(&x, &o->data[off], n); v.c = x & maskw(w); return v; }
  bool anySym = false, anyUn = o->allUninit;
  if (!o->allUninit) for (unsigned i = 0; i < n; i++) { E e = o->sym[off + i].e; if (e == UNINIT) anyUn = true; else if (e) anySym = true; }
  if (!anySym && !anyUn) { uint64_t x = 0; memcpy(&x, &o->data[off], n); v.c = x & maskw(w); return v; }
  if (anyUn) { o = wObj(s, id); ensureSym(o); bool all = true; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e != UNINIT) all = false;
    if (all && n > 1) { E u = freshUninit(s, n * 8); for (unsigned i = 0; i < n; i++) o->sym[off + i] = {u, (uint8_t)i}; }
    else for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e == UNINIT) o->sym[off + i] = {freshUninit(s, 8), 0}; }
  // whole expression?
  E e0 = o->sym[off].e; if (e0 && o->sym[off].idx == 0 && e0->w <= n * 8 && e0->w > (n - 1) * 8) {
    bool ok = true; for (unsigned i = 1; i < n; i++) if (o->sym[off + i].e != e0 || o->sym[off + i].idx != i) ok = false;
    if (ok) { if (e0->w == w) return fromE(e0); if (e0->w > w) return fromE(mkExtract(e0, 0, w)); return fromE(mkZExt(e0, w)); } }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    E b; auto& sb = o->sym[off + i];
    if (!sb.e) b = mkConst(o->data[off + i], 8);
    else { E e = sb.e; unsigned lo = sb.idx * 8; if (lo + 8 > e->w) e = mkZExt(e, std::min(64u, (unsigned)((e->w + 7) / 8 * 8))); b = mkExtract(e, lo, 8); }
    r = r ? mkConcat(b, r) : b;
  }
  if (r->w > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeScalar(State& s, uint32_t id, uint32_t off, V v, unsigned w, unsigned n) {
  Object* o = wObj(s, id);
  if (v.e == UNINIT) { ensureSym(o); for (unsigned i = 0; i < n; i++) o->sym[off + i] = {UNINIT, 0}; return; }
  if (v.e && isC(v.e)) { v.c = v.e->k; v.e = nullptr; }
  if (!v.e) {
    if (o->allUninit) { if (off == 0 && n == o->size) o->allUninit = false; else ensureSym(o); }
    uint64_t x = v.c; memcpy(&o->data[off], &x, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr; return;
  }
  ensureSym(o);
  if (v.e->op == OConcat || (v.e->op == OZExt && n > 1)) { // keep byte structure
    for (unsigned i = 0; i < n; i++) { E e = v.e; if (e->w % 8) { o->sym[off + i] = {e, (uint8_t)i}; continue; } E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->sym[off + i].e = nullptr; o->data[off + i] = b->k; } else o->sym[off + i] = {e, (uint8_t)i}; }
    return;
  }
  for (unsigned i = 0; i < n; i++) o->sym[off + i] = {v.e, (uint8_t)i};
}
static void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return; uint32_t di, doff, si, soff; V a; a.c = src; resolve(s, a, n, false, si, soff); a.c = d; resolve(s, a, n, true, di, doff);
  raceAccess(s, si, soff, n, false, false); raceAccess(s, di, doff, n, true, false);
  Object* so = getObj(s, si); ObjP hold; if (si != di) { } 
  std::vector<uint8_t> buf(so->data.begin() + soff, so->data.begin() + soff + n); std::vector<SymB> sb; bool srcUn = so->allUninit;
  if (!so->sym.empty()) sb.assign(so->sym.begin() + soff, so->sym.begin() + soff + n);
  Object* o = wObj(s, di); memcpy(&o->data[doff], buf.data(), n);
  if (!sb.empty()) { bool any = false; for (auto& x : sb) if (x.e) any = true; if (!any) sb.clear(); }
  if (!sb.empty()) { ensureSym(o); std::copy(sb.begin(), sb.end(), o->sym.begin() + doff); }
  else if (srcUn) { if (!(o->allUninit)) { ensureSym(o); for (uint64_t i = 0; i < n; i++) o->sym[doff + i] = {UNINIT, 0}; } }
  else { if (o->allUninit) { if (n == o->size) o->allUninit = false; else ensureSym(o); } if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[doff + i].e = nullptr; }
}
static uint64_t rd64(State& s, uint64_t a) { uint32_t id, off; V v; v.c = a; resolve(s, v, 8, false, id, off); return conc(s, loadScalar(s, id, off, 64, 8), 64); }
static uint32_t rd32(State& s, uint64_t a) { uint32_t id, off; V v; v.c = a; resolve(s, v, 4, false, id, off); return conc(s, loadScalar(s, id, off, 32, 4), 32); }
static std::string rdStr(State& s, uint64_t a) { std::string r; if (!a) return r; Object* o = getObj(s, idOf(a)); if (!o) return r; for (int64_t i = offOf(a); i >= 0 && i < (int64_t)o->size && o->data[i]; i++) r += (char)o->data[i]; return r; }

static uint32_t siteOf(State& s) {
  std::string w = whereStr(s, 8); auto it = siteIdx.find(w); if (it != siteIdx.end()) return it->second; sites.push_back(w); return siteIdx[w] = sites.size() - 1;
}
static uint64_t doAlloc(State& s, uint64_t n, OKind k) {
  if (n > (1ull << 28)) viol("allocation of " + std::to_string(n) + " bytes", "huge-alloc");
  uint64_t a = newObj(s, n, k, true); s.live++; s.liveAll++; return a;
}
static void doFree(State& s, uint64_t a, OKind k, const char* what) {
  if (!a) return; uint32_t id = idOf(a); Object* o = getObj(s, id);
  if (!o) viol(std::string("double free or free of invalid pointer (") + what + ")", "double-free");
  if (o->kind != KMalloc && o->kind != KNew && o->kind != KNewArr) viol(std::string("free of non-heap memory (") + what + ")", "bad-free");
  if (offOf(a) != 0) viol(std::string("free of interior pointer (") + what + ")", "bad-free");
  if (o->kind != k) viol(std::string("mismatched deallocation (") + what + ")", "alloc-dealloc-mismatch");
  raceAccess(s, id, 0, std::min<uint32_t>(o->size, 64), true, false);
  freeObj(s, id); s.live--;
}

static std::string whereStr(State& s, int depth) {
  std::string r; if (s.th.empty()) return r; auto& fs = thr(s).frames; int k = 0;
  for (int i = (int)fs.size() - 1; i >= 0 && k < depth; i--, k++) {
    Frame* f = fs[i].p; const Instruction* I = f->pc < (int)f->fn->code.size() ? (const Instruction*)f->fn->code[f->pc].I : nullptr;
    if (!r.empty()) r += " <- "; std::string dn = demangle(f->fn->name); if (dn.size() > 110) dn = dn.substr(0, 107) + "..."; r += dn; if (I) { std::string fl = fileLine(I); if (!fl.empty()) r += "@" + fl; }
  }
  return r;
}

// ---------------------------------------------------------------- calls, returns, unwinding
static void takeEdge(State& s, Frame* f, const Edge& e) {
  auto* cp = f->fn->copies.data() + e.copyBase; for (uint32_t i = 0; i < e.ncopy; i++) { f->regs[cp[i].first] = rd(f, cp[i].second); } f->pc = e.target;
}
static Frame* pushFrame(State& s, FnImpl* fn) {
  if (!fn->compiled) compile(fn); fn->executed = true; fn->calls_++;
  if (thr(s).frames.size() > 3000) viol("call stack exhausted (unbounded recursion)", "stack-overflow");
  Frame* f = new Frame; f->fn = fn; f->regs.resize(fn->nregs); thr(s).frames.push_back(FrameP(f)); return f;
}
static void startThreadFn(State& s, int tid, uint64_t fn, uint64_t arg) {
  int c = s.cur; s.cur = tid; FnImpl* fi = fnByAddr[fn]; Frame* f = pushFrame(s, fi); if (fi->argBase.size() > 0) f->regs[fi->argBase[0]].c = arg; s.cur = c;
}
static void popFrame(State& s) {
  Frame* f = thr(s).frames.back().p; for (uint32_t id : f->allocas) freeObj(s, id); thr(s).frames.pop_back();
}
static void freeExc(State& s, uint64_t obj) { s.exc.erase(obj); if (getObj(s, idOf(obj))) freeObj(s, idOf(obj)); }

// typeinfo walking (Itanium ABI)
static std::unordered_map<uint64_t, int> tiKind;  // address of the external vtable object -> 0 class, 1 si, 2 vmi
static uint64_t vtClass, vtSi, vtVmi;
struct Sub { uint64_t ti; uint64_t addr; bool pub; std::vector<uint64_t> chain; };
static void subobjects(State& s, uint64_t ti, uint64_t addr, bool pub, uint64_t chainTop, std::vector<Sub>& out, std::vector<uint64_t> chain) {
  chain.push_back(ti ^ (addr * 31)); out.push_back({ti, addr, pub, chain});
  uint64_t vt = idOf(rd64(s, ti)); 
  if (vt == idOf(vtSi)) subobjects(s, rd64(s, ti + 16), addr, pub, chainTop, out, chain);
  else if (vt == idOf(vtVmi)) { uint32_t n = rd32(s, ti + 20); for (uint32_t i = 0; i < n; i++) { uint64_t b = rd64(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(s, ti + 32 + 16 * i); bool p = of & 2; bool virt = of & 1; int64_t o = of >> 8; uint64_t ba;
      if (virt) { if (!addr) ba = 0; else { uint64_t vp = rd64(s, addr); ba = addr + (int64_t)rd64(s, vp + o); } } else ba = addr + o; subobjects(s, b, ba, pub && p, chainTop, out, chain); } }
}
static bool excMatch(State& s, uint64_t thrown, uint64_t obj, uint64_t want, uint64_t& adj) {
  adj = obj; if (!want) return true; if (thrown == want) return true;
  Object* o = getObj(s, idOf(thrown)); if (!o || o->size < 16) return false;
  uint64_t vt = idOf(rd64(s, thrown)); if (vt != idOf(vtSi) && vt != idOf(vtVmi)) return false;
  std::vector<Sub> subs; subobjects(s, thrown, obj, true, 0, subs, {}); int cnt = 0; std::set<uint64_t> ad;
  for (auto& x : subs) if (x.ti == want && x.pub) { ad.insert(x.addr); adj = x.addr; cnt++; }
  return ad.size() == 1;
}
static int64_t selOf(uint64_t ti) { return ti ? (int64_t)((ti >> 32) & 0x7fffffff) : 0x7fffffff; }

static void unwind(State& s, uint64_t obj, bool search) {
  ExcInfo& ei = s.exc[obj]; auto& fs = thr(s).frames;
  // the current top frame is the one executing the throwing call (its pc is at a call/invoke)
  auto findIn = [&](Frame* f, int64_t& sel, uint64_t& adj, bool& isCleanup) -> const Ins* {
    const Ins& in = f->fn->code[f->pc]; if (in.op != I_INVOKE) return nullptr; const Edge& e = f->fn->edges[in.y]; const Ins& lp = f->fn->code[e.target];
    if (lp.op != I_LANDING) return nullptr; LandInfo& li = f->fn->lands[lp.x];
    for (auto& c : li.clauses) { if (!c.first) { uint64_t a; if (excMatch(s, ei.tinfo, obj, c.second[0], a)) { sel = selOf(c.second[0]); adj = a; isCleanup = false; return &in; } }
      else { bool any = false; for (uint64_t t : c.second) { uint64_t a; if (excMatch(s, ei.tinfo, obj, t, a)) any = true; } if (!any) { sel = -1; adj = obj; isCleanup = false; return &in; } } }
    if (li.cleanup) { sel = 0; isCleanup = true; return &in; }
    return nullptr;
  };
  if (search) { bool found = false; for (int i = (int)fs.size() - 1; i >= 0 && !found; i--) { int64_t sel; uint64_t adj; bool cl = false; if (findIn(fs[i].p, sel, adj, cl) && !cl) found = true; }
    if (!found) viol("exception escapes (std::terminate)", "uncaught"); }
  while (!fs.empty()) {
    int64_t sel; uint64_t adj = obj; bool cl = false; const Ins* in = findIn(fs.back().p, sel, adj, cl);
    if (in) { Frame* f = top(s); if (!cl) ei.adjusted = adj; int32_t lpPc = f->fn->edges[in->y].target; takeEdge(s, f, f->fn->edges[in->y]); const Ins& lp = f->fn->code[lpPc];
      if (lp.dst >= 0) { f->regs[lp.dst].c = obj; f->regs[lp.dst].e = nullptr; f->regs[lp.dst + 1].c = (uint64_t)sel & 0xffffffffull; f->regs[lp.dst + 1].e = nullptr; } f->pc = lpPc + 1; return; }
    popFrame(s);
  }
  viol("exception escapes (std::terminate)", "uncaught");
}

static void doCall(State& s, Frame* f, const Ins& in, CallInfo& ci, FnImpl* fn);
static void retVoid(State& s) { Frame* f = top(s); const Ins& in = f->fn->code[f->pc]; if (in.op == I_INVOKE) takeEdge(s, f, f->fn->edges[in.x]); else f->pc++; }
static void retV(State& s, V v) { Frame* f = top(s); const Ins& in = f->fn->code[f->pc]; if (in.dst >= 0) f->regs[in.dst] = v; retVoid(s); }
static void retC(State& s, uint64_t c) { V v; v.c = c; retV(s, v); }
static V arg(State& s, CallInfo& ci, unsigned i, unsigned w = 64) { Frame* f = top(s); return get(s, f, ci.args[i], w); }
static uint64_t argC(State& s, CallInfo& ci, unsigned i, unsigned w = 64) { return conc(s, arg(s, ci, i, w), w); }

static void enter(State& s, CallInfo& ci, FnImpl* fn) {
  Frame* cf = thr(s).frames.back().p; // caller (read only)
  std::vector<V> av; std::vector<uint8_t> aw;
  for (size_t k = 0; k < ci.args.size(); k++) for (int q = 0; q < ci.nslots[k]; q++) { av.push_back(rd(cf, refAt(ci.args[k], q))); }
  if (!fn->compiled) compile(fn);
  // byval copies
  size_t p = 0; std::vector<uint32_t> extra; uint64_t va = 0;
  for (size_t k = 0; k < ci.args.size(); k++) { if (ci.byval[k]) { uint64_t src = conc(s, av[p], 64); uint64_t d = newObj(s, ci.byval[k], KStack, true); copyMem(s, d, src, ci.byval[k]); if (k < ci.nfixed) av[p].c = d, av[p].e = nullptr; extra.push_back(idOf(d)); } p += ci.nslots[k]; }
  size_t fixedSlots = 0; for (size_t k = 0; k < ci.args.size() && k < fn->argBase.size(); k++) fixedSlots += ci.nslots[k];
  if (fn->F->isVarArg()) { size_t nv = av.size() - fixedSlots; va = newObj(s, std::max<size_t>(8, nv * 8), KStack, true); extra.push_back(idOf(va)); size_t sl = fixedSlots, o = 0;
    for (size_t k = fn->argBase.size(); k < ci.args.size(); k++) for (int q = 0; q < ci.nslots[k]; q++) { unsigned w = ci.widths[k] ? ci.widths[k] : 64; V v = av[sl++]; if (v.e == UNINIT) {} else if (v.e && w < 64) v.e = mkZExt(v.e, 64); storeScalar(s, idOf(va), o, v, 64, 8); o += 8; } }
  Frame* nf = pushFrame(s, fn); nf->vaArea = va; nf->allocas = extra;
  size_t sl = 0; for (size_t k = 0; k < fn->argBase.size() && k < ci.args.size(); k++) for (int q = 0; q < std::min<int>(ci.nslots[k], fn->argSlots[k]); q++) nf->regs[fn->argBase[k] + q] = av[sl++];
}
static void callAddr(State& s, uint64_t fn, uint64_t a, int onRet, uint64_t retArg) {
  auto it = fnByAddr.find(fn); if (it == fnByAddr.end()) viol("call through a bad function pointer", "bad-call");
  FnImpl* fi = it->second; Frame* nf = pushFrame(s, fi); nf->onRet = onRet; nf->retArg = retArg; if (fi->argBase.size()) nf->regs[fi->argBase[0]].c = a;
}

// ---------------------------------------------------------------- builtins
static E symVar(State& s, const std::string& name, unsigned w) { E v = mkVar(s.nvars++, w, false); s.inputs.push_back({name, v, 0, (uint8_t)w}); return v; }
static void setModel(State& s, E var, uint64_t val) { auto m = std::make_shared<Assign>(*s.model); m->set(var->k, val); s.model = m; }
#define BI(NAME) builtins[NAME] = [](State& s, const Ins& in, CallInfo& ci)
static void cmpBytes(State& s, CallInfo& ci, unsigned esz, bool stopNul, bool sgn) {
  uint64_t a = argC(s, ci, 0), b = argC(s, ci, 1); uint64_t n = stopNul && ci.args.size() < 3 ? ~0ull : argC(s, ci, 2);
  for (uint64_t i = 0; i < n; i++) { uint32_t i1, o1, i2, o2; V v; v.c = a + i * esz; resolve(s, v, esz, false, i1, o1); V x = loadScalar(s, i1, o1, esz * 8, esz); v.c = b + i * esz; resolve(s, v, esz, false, i2, o2); V y = loadScalar(s, i2, o2, esz * 8, esz);
    E ex = toE(x, esz * 8), ey = toE(y, esz * 8); if (!branch(s, mkEq(ex, ey))) { bool lt = branch(s, mkBin(sgn ? OSlt : OUlt, ex, ey)); retC(s, lt ? 0xffffffffull : 1); return; }
    if (stopNul && branch(s, mkEq(ex, mkConst(0, esz * 8)))) break; }
  retC(s, 0);
}
static bool schedule(State& s);

static void initBuiltins() {
  auto allocB = [](OKind k, bool nothrow) { return [k](State& s, const Ins&, CallInfo& ci) { retC(s, doAlloc(s, argC(s, ci, 0), k)); }; };
  builtins["malloc"] = allocB(KMalloc, false); builtins["_Znwm"] = allocB(KNew, false); builtins["_Znam"] = allocB(KNewArr, false);
  builtins["_ZnwmRKSt9nothrow_t"] = allocB(KNew, true); builtins["_ZnamRKSt9nothrow_t"] = allocB(KNewArr, true); builtins["_ZnwmSt11align_val_t"] = allocB(KNew, false); builtins["_ZnamSt11align_val_t"] = allocB(KNewArr, false);
  BI("calloc") { uint64_t n = argC(s, ci, 0) * argC(s, ci, 1); uint64_t a = doAlloc(s, n, KMalloc); Object* o = wObj(s, idOf(a)); o->allUninit = false; retC(s, a); };
  BI("realloc") { uint64_t a = argC(s, ci, 0), n = argC(s, ci, 1); uint64_t b = doAlloc(s, n, KMalloc); if (a) { Object* o = getObj(s, idOf(a)); if (!o || offOf(a)) viol("bad realloc", "bad-free"); copyMem(s, b, a, std::min<uint64_t>(o->size, n)); doFree(s, a, KMalloc, "realloc"); } retC(s, b); };
  auto freeB = [](OKind k, const char* n) { return [k, n](State& s, const Ins&, CallInfo& ci) { doFree(s, argC(s, ci, 0), k, n); retVoid(s); }; };
  builtins["free"] = freeB(KMalloc, "free");
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) builtins[n] = freeB(KNew, "delete");
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) builtins[n] = freeB(KNewArr, "delete[]");
  auto mc = [](State& s, const Ins&, CallInfo& ci) { uint64_t n = argC(s, ci, 2), d = argC(s, ci, 0), a = argC(s, ci, 1); copyMem(s, d, a, n); retC(s, d); };
  builtins["memcpy"] = mc; builtins["memmove"] = mc;
  BI("wmemcpy") { uint64_t n = argC(s, ci, 2), d = argC(s, ci, 0), a = argC(s, ci, 1); copyMem(s, d, a, n * 4); retC(s, d); };
  builtins["wmemmove"] = builtins["wmemcpy"];
  BI("memset") { uint64_t d = argC(s, ci, 0), n = argC(s, ci, 2); V v = arg(s, ci, 1, 32); V b = v.e ? fromE(mkExtract(v.e, 0, 8)) : V{v.c & 255, nullptr}; if (n) { uint32_t id, off; V a; a.c = d; resolve(s, a, n, true, id, off); raceAccess(s, id, off, n, true, false); for (uint64_t i = 0; i < n; i++) storeScalar(s, id, off + i, b, 8, 1); } retC(s, d); };
  BI("memcmp") { cmpBytes(s, ci, 1, false, false); }; BI("strcmp") { cmpBytes(s, ci, 1, true, false); }; BI("strncmp") { cmpBytes(s, ci, 1, true, false); };
  BI("wcscmp") { cmpBytes(s, ci, 4, true, true); }; BI("wmemcmp") { cmpBytes(s, ci, 4, false, true); };
  auto len = [](unsigned esz) { return [esz](State& s, const Ins&, CallInfo& ci) { uint64_t a = argC(s, ci, 0); uint64_t n = 0; for (;; n++) { uint32_t id, off; V v; v.c = a + n * esz; resolve(s, v, esz, false, id, off); V x = loadScalar(s, id, off, esz * 8, esz); if (branch(s, mkEq(toE(x, esz * 8), mkConst(0, esz * 8)))) break; } retC(s, n); }; };
  builtins["strlen"] = len(1); builtins["wcslen"] = len(4);
  // exceptions
  BI("__cxa_allocate_exception") { uint64_t n = argC(s, ci, 0); uint64_t a = newObj(s, n, KExc, true); s.exc[a] = ExcInfo(); retC(s, a); };
  BI("__cxa_free_exception") { freeExc(s, argC(s, ci, 0)); retVoid(s); };
  BI("__cxa_throw") { uint64_t o = argC(s, ci, 0); ExcInfo& e = s.exc[o]; e.tinfo = argC(s, ci, 1); e.dtor = argC(s, ci, 2); e.handlers = 0; unwind(s, o, true); };
  BI("__cxa_begin_catch") { uint64_t o = argC(s, ci, 0); ExcInfo& e = s.exc[o]; e.handlers = (e.handlers < 0 ? -e.handlers : e.handlers) + 1; if (thr(s).caught.empty() || thr(s).caught.back() != o) thr(s).caught.push_back(o); retC(s, e.adjusted); };
  BI("__cxa_get_exception_ptr") { uint64_t o = argC(s, ci, 0); retC(s, s.exc[o].adjusted); };
  BI("__cxa_end_catch") { auto& c = thr(s).caught; if (c.empty()) { retVoid(s); return; } uint64_t o = c.back(); ExcInfo& e = s.exc[o];
    if (e.handlers < 0) { if (++e.handlers == 0) c.pop_back(); retVoid(s); return; }
    if (--e.handlers == 0) { c.pop_back(); if (e.dtor) { uint64_t d = e.dtor; callAddr(s, d, o, 1, o); return; } freeExc(s, o); } retVoid(s); };
  BI("__cxa_rethrow") { auto& c = thr(s).caught; if (c.empty()) viol("rethrow without exception", "terminate"); uint64_t o = c.back(); ExcInfo& e = s.exc[o]; e.handlers = -e.handlers; unwind(s, o, true); };
  BI("__cxa_atexit") { s.atexitL.push_back({argC(s, ci, 0), argC(s, ci, 1)}); retC(s, 0); };
  BI("__cxa_guard_acquire") { uint64_t g = argC(s, ci, 0); uint32_t id, off; V a; a.c = g; resolve(s, a, 8, true, id, off); uint64_t v = conc(s, loadScalar(s, id, off, 8, 1), 8);
    if (s.th.size() > 1) { joinVC(thr(s).vc, s.atomVC[g]); } retC(s, v ? 0 : 1); };
  BI("__cxa_guard_release") { uint64_t g = argC(s, ci, 0); V one; one.c = 1; storeScalar(s, idOf(g), offOf(g), one, 8, 1); if (s.th.size() > 1) { joinVC(s.atomVC[g], thr(s).vc); thr(s).vc[s.cur]++; } retVoid(s); };
  BI("__cxa_guard_abort") { retVoid(s); };
  BI("__cxa_pure_virtual") { viol("pure virtual call", "pure-virtual"); };
  for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "__cxa_throw_bad_array_new_length", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_length_errorPKc", "__cxa_bad_cast", "__cxa_bad_typeid"}) { std::string nn = n; builtins[n] = [nn](State&, const Ins&, CallInfo&) { viol("program aborts via " + nn, "abort"); }; }
  BI("exit") { viol("program exits via exit()", "exit"); };
  BI("__dynamic_cast") { uint64_t p = argC(s, ci, 0), st = argC(s, ci, 1), dt = argC(s, ci, 2); if (!p) { retC(s, 0); return; }
    uint64_t vp = rd64(s, p); int64_t top_ = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8); uint64_t md = p + top_; std::vector<Sub> subs; subobjects(s, ti, md, true, 0, subs, {});
    // downcast: dst subobjects containing (st,p)
    std::set<uint64_t> down, cross; bool srcPub = false;
    for (auto& d : subs) if (d.ti == dt) { if (d.pub) cross.insert(d.addr); uint64_t key = dt ^ (d.addr * 31); for (auto& q : subs) if (q.ti == st && q.addr == p) { bool has = false; for (uint64_t c : q.chain) if (c == key) has = true; if (has) down.insert(d.addr); } }
    for (auto& q : subs) if (q.ti == st && q.addr == p && q.pub) srcPub = true;
    if (down.size() == 1) retC(s, *down.begin()); else if (down.empty() && srcPub && cross.size() == 1) retC(s, *cross.begin()); else retC(s, 0); };
  // harness interface
  for (auto wn : {std::pair<const char*, unsigned>{"vs_u64", 64}, {"vs_u32", 32}, {"vs_u16", 16}, {"vs_u8", 8}}) { unsigned w = wn.second; builtins[wn.first] = [w](State& s, const Ins&, CallInfo& ci) { E v = symVar(s, rdStr(s, argC(s, ci, 0)), w); retV(s, fromE(v)); }; }
  BI("vs_range") { uint64_t lo = argC(s, ci, 1), hi = argC(s, ci, 2); std::string nm = rdStr(s, argC(s, ci, 0)); if (lo == hi) { s.inputs.push_back({nm, nullptr, lo, 64}); retC(s, lo); return; } E v = symVar(s, nm, 64); setModel(s, v, lo); addC(s, mkBin(OSle, mkConst(lo, 64), v)); addC(s, mkBin(OSle, v, mkConst(hi, 64))); retV(s, fromE(v)); };
  BI("vs_choice") { // a symbolic selector in [0,n), resolved by forking: the returned value is concrete on each path
    uint64_t n = argC(s, ci, 1); std::string nm = rdStr(s, argC(s, ci, 0)); uint32_t o = s.nvars; E v = mkVar(o, 16, false);
    for (uint64_t i = n; i-- > 1;) { State* t = cloneState(s); t->nvars++; t->inputs.push_back({nm, v, 0, 16}); setModel(*t, v, i); addC(*t, mkEq(v, mkConst(i, 16))); retC(*t, i); if (shardDrop(*t, n, i)) delete t; else work.push_back(t); }
    s.nvars++; s.inputs.push_back({nm, v, 0, 16}); setModel(s, v, 0); addC(s, mkEq(v, mkConst(0, 16))); retC(s, 0); if (shardDrop(s, n, 0)) throw PathEnd{3, "", ""}; };
  BI("vs_concretize") { retC(s, argC(s, ci, 0)); };
  BI("vs_is_symbolic") { V v = arg(s, ci, 0); retC(s, v.e && !isC(v.e)); };
  BI("vs_assume") { V v = arg(s, ci, 0, 32); E c = mkNot(mkEq(toE(v, 32), mkConst(0, 32))); if (isC(c)) { if (!c->k) throw PathEnd{0, "", ""}; retVoid(s); return; }
    if (!evalE(c, *s.model)) { AssignP m; int r = checkSat(s, c, m); if (r != 1) throw PathEnd{0, "", ""}; s.model = m; } addC(s, c); retVoid(s); };
  BI("vs_assert") { V v = arg(s, ci, 0, 32); std::string id = rdStr(s, argC(s, ci, 1)); assertsSeen.insert(id); assertsChecked++; E c = mkNot(mkEq(toE(v, 32), mkConst(0, 32))); if (isC(c)) { if (!c->k) viol("assertion failed: " + id, "assert:" + id); retVoid(s); return; }
    int k = knownSide(s, c); if (k == 1) { retVoid(s); return; }
    if (!evalE(c, *s.model)) { // violated under the current model; the satisfied side continues if feasible
      AssignP m; int r = checkSat(s, c, m); if (r == 1) { State* t = cloneState(s); t->model = m; addC(*t, c); retVoid(*t); work.push_back(t); } addC(s, mkNot(c)); viol("assertion failed: " + id, "assert:" + id); }
    AssignP m; int r = checkSat(s, mkNot(c), m);
    if (r == 1) { State* t = cloneState(s); addC(*t, c); retVoid(*t); work.push_back(t); s.model = m; addC(s, mkNot(c)); viol("assertion failed: " + id, "assert:" + id); }
    addC(s, c); retVoid(s); };
  BI("vs_fail") { std::string id = rdStr(s, argC(s, ci, 0)); viol("assertion failed: " + id, "assert:" + id); };
  BI("vs_reach") { reached[rdStr(s, argC(s, ci, 0))]++; retVoid(s); };
  BI("vs_live") { retC(s, (uint64_t)s.live); };
  BI("vs_allocs") { retC(s, (uint64_t)s.liveAll); };
  BI("vs_heap_desc") { s.heapDesc = argC(s, ci, 0, 32) != 0; retVoid(s); };
  BI("vs_is_live") { uint64_t a = argC(s, ci, 0); retC(s, getObj(s, idOf(a)) ? 1 : 0); };
  BI("vs_native") { retC(s, 0); };
  BI("vs_path_end") { throw PathEnd{0, "end", ""}; };
  BI("vs_ite64") { V c = arg(s, ci, 0, 32), a = arg(s, ci, 1), b = arg(s, ci, 2); retV(s, fromE(mkIte(mkNot(mkEq(toE(c, 32), mkConst(0, 32))), toE(a, 64), toE(b, 64)))); };
  BI("vs_fresh64") { // internal nondeterminism of a model (not an input to replay)
    E v = mkVar(s.nvars++, 64, false); retV(s, fromE(v)); };
  BI("vs_hint64") { // fresh model-internal variable whose value in the current witness is that of the argument
    uint64_t h; V a = arg(s, ci, 0); h = a.e ? evalE(a.e, *s.model) : a.c; E v = mkVar(s.nvars++, 64, false); setModel(s, v, h); retV(s, fromE(v)); };
  BI("vs_digit") { // fresh model-internal decimal digit (4 bits), witness value as given
    V a = arg(s, ci, 0); uint64_t h = a.e ? evalE(a.e, *s.model) : a.c; E v = mkVar(s.nvars++, 4, false); setModel(s, v, h); retV(s, fromE(mkZExt(v, 64))); };
  BI("vs_same") { V a = arg(s, ci, 0), b = arg(s, ci, 1); retC(s, a.e ? a.e == b.e : (!b.e && a.c == b.c)); };
  BI("vs_print") { uint64_t a = argC(s, ci, 0), n = argC(s, ci, 1); for (uint64_t i = 0; i < n; i++) { uint32_t id, off; V v; v.c = a + i * 4; resolve(s, v, 4, false, id, off); V x = loadScalar(s, id, off, 32, 4); if (!x.e && x.c) fputc((int)(x.c < 128 ? x.c : '?'), stderr); } retVoid(s); };
  BI("vs_debug") { fprintf(stderr, "[dbg] %s = ", rdStr(s, argC(s, ci, 0)).c_str()); V v = arg(s, ci, 1); if (v.e) fprintf(stderr, "%s (model %lld)\n", exprStr(v.e).c_str(), (long long)evalE(v.e, *s.model)); else fprintf(stderr, "%lld\n", (long long)v.c); retVoid(s); };
  BI("vs_thread_create") { uint64_t fn = argC(s, ci, 0), a = argC(s, ci, 1); if (s.th.size() == 1 && s.th[0].vc.empty()) s.th[0].vc.assign(1, 1);
    int tid = s.th.size(); Thread t; s.th.push_back(t); Thread& me = s.th[s.cur]; Thread& nt = s.th[tid]; nt.vc = me.vc; nt.vc.resize(tid + 1, 0); nt.vc[tid] = 1; me.vc[s.cur]++; retC(s, tid); startThreadFn(s, tid, fn, a); };
  BI("vs_preemptions") { s.preemptLeft = (int)argC(s, ci, 0); retVoid(s); };
  BI("vs_join_all") { bool all = true; for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].done) all = false;
    if (!all) { thr(s).blocked = true; s.schedPoint = false; schedule(s); return; }
    for (size_t i = 1; i < s.th.size(); i++) joinVC(s.th[0].vc, s.th[i].vc); s.th.resize(1); s.schedPoint = false; s.th[0].blocked = false; s.races.clear(); s.atomVC.clear(); retVoid(s); };
}

static void atomicHook(State& s, uint32_t id, uint32_t off, unsigned n, int ord, bool rdd, bool wr) {
  if (s.th.size() < 2) return; raceAccess(s, id, off, n, wr, true);
  uint64_t key = ((uint64_t)id << 32) | off; AtomicOrdering o = (AtomicOrdering)(ord - 1); Thread& t = thr(s);
  bool acq = o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; bool rel = o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent;
  if (rdd && acq) joinVC(t.vc, s.atomVC[key]);
  if (wr) { if (rel) { if (rdd) joinVC(s.atomVC[key], t.vc); else s.atomVC[key] = t.vc; } else if (!rdd) s.atomVC[key].clear(); t.vc[s.cur]++; }
}
// scheduling decision before a visible (atomic) operation. returns true when the instruction must be re-executed by another thread
static bool schedule(State& s) {
  if (s.th.size() < 2 || !s.preempt) return false;
  if (s.schedPoint) { s.schedPoint = false; return false; }     // just scheduled here
  std::vector<int> run; for (size_t i = 0; i < s.th.size(); i++) { bool bl = s.th[i].blocked; if (bl) { bool all = true; for (size_t k = 1; k < s.th.size(); k++) if (!s.th[k].done) all = false; if (all) bl = false; } if (!s.th[i].done && !bl) run.push_back(i); }
  if (run.empty()) viol("deadlock", "deadlock");
  bool canStay = std::find(run.begin(), run.end(), s.cur) != run.end(); if (canStay && s.preemptLeft == 0) run.assign(1, s.cur); int from = s.cur; // bound on preemptive switches
  uint32_t o = s.nvars; E v = mkVar(o, 8, false); char nm[32]; snprintf(nm, 32, "sched");
  for (size_t k = run.size(); k-- > 0;) { State* t = &s; if (k) t = cloneState(s); t->nvars++; t->inputs.push_back({nm, v, 0, 8}); setModel(*t, v, run[k]); addC(*t, mkEq(v, mkConst(run[k], 8))); t->cur = run[k]; if (canStay && run[k] != from && t->preemptLeft > 0) t->preemptLeft--; t->schedPoint = true; t->th[run[k]].blocked = false; bool drop = shardDrop(*t, run.size(), k); if (k) { if (drop) delete t; else work.push_back(t); } else if (drop) throw PathEnd{3, "", ""}; }
  return true;
}

static double bitsToD(uint64_t b, unsigned w) { if (w == 32) { float f; uint32_t x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static uint64_t dToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t b; memcpy(&b, &d, 8); return b; }

static void intrinsic(State& s, Frame* f, const Ins& in, CallInfo& ci) {
  auto A = [&](unsigned i) { return get(s, f, ci.args[i], ci.widths[i]); };
  unsigned w = ci.args.empty() ? 0 : ci.widths[0];
  switch (ci.intr) {
  case IN_MEMCPY: { uint64_t n = conc(s, A(2), ci.widths[2]), d = conc(s, A(0), 64), a = conc(s, A(1), 64); copyMem(s, d, a, n); retVoid(s); return; }
  case IN_MEMSET: { uint64_t n = conc(s, A(2), ci.widths[2]), d = conc(s, A(0), 64); V b = A(1); if (n) { uint32_t id, off; V a; a.c = d; resolve(s, a, n, true, id, off); raceAccess(s, id, off, n, true, false);
      if (!b.e) { Object* o = wObj(s, id); memset(&o->data[off], b.c, n); if (o->allUninit) { if (n == o->size) o->allUninit = false; else ensureSym(o); } if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i].e = nullptr; } else for (uint64_t i = 0; i < n; i++) storeScalar(s, id, off + i, b, 8, 1); } retVoid(s); return; }
  case IN_UMULO: case IN_UADDO: case IN_USUBO: case IN_SMULO: case IN_SADDO: case IN_SSUBO: {
    V a = A(0), b = A(1); V r, ov;
    if (!a.e && !b.e) { __int128 x, y; bool sg = ci.intr >= IN_SMULO; if (sg) x = sx(a.c, w), y = sx(b.c, w); else x = (unsigned __int128)a.c, y = (unsigned __int128)b.c; __int128 z = (ci.intr == IN_UMULO || ci.intr == IN_SMULO) ? x * y : (ci.intr == IN_UADDO || ci.intr == IN_SADDO) ? x + y : x - y; r.c = (uint64_t)z & maskw(w); bool o; if (sg) o = z != (__int128)sx(r.c, w); else o = z < 0 || (unsigned __int128)z != (unsigned __int128)r.c; ov.c = o; }
    else { E x = toE(a, w), y = toE(b, w);
      if (ci.intr == IN_UMULO) { E k = isC(y) ? y : isC(x) ? x : nullptr; E v = isC(y) ? x : y; if (!k) throw PathEnd{2, "symbolic umul overflow", ""}; r = fromE(mkBin(OMul, x, y)); ov = k->k ? fromE(mkBin(OUlt, mkConst(maskw(w) / k->k, w), v)) : V(); }
      else if (ci.intr == IN_UADDO) { E z = mkBin(OAdd, x, y); r = fromE(z); ov = fromE(mkBin(OUlt, z, x)); }
      else if (ci.intr == IN_USUBO) { r = fromE(mkBin(OSub, x, y)); ov = fromE(mkBin(OUlt, x, y)); }
      else if (ci.intr == IN_SADDO) { E z = mkBin(OAdd, x, y); r = fromE(z); E zz = mkConst(0, w); ov = fromE(mkBin(OAnd, mkEq(mkBin(OSlt, x, zz), mkBin(OSlt, y, zz)), mkNot(mkEq(mkBin(OSlt, x, zz), mkBin(OSlt, z, zz))))); }
      else throw PathEnd{2, "symbolic overflow intrinsic", ""}; }
    Frame* g = top(s); g->regs[in.dst] = r; g->regs[in.dst + 1] = ov; retVoid(s); return; }
  case IN_TYPEID: retC(s, (uint64_t)selOf(conc(s, A(0), 64)) & 0xffffffffull); return;
  case IN_VASTART: { uint64_t p = conc(s, A(0), 64); uint32_t id, off; V a; a.c = p; resolve(s, a, 24, true, id, off); V v; v.c = 48 | (304ull << 32); storeScalar(s, id, off, v, 64, 8); v.c = f->vaArea; storeScalar(s, id, off + 8, v, 64, 8); v.c = 0; storeScalar(s, id, off + 16, v, 64, 8); retVoid(s); return; }
  case IN_VACOPY: copyMem(s, conc(s, A(0), 64), conc(s, A(1), 64), 24); retVoid(s); return;
  case IN_TRAP: viol("trap executed", "trap"); return;
  case IN_ABS: { E x = toE(A(0), w); retV(s, fromE(mkIte(mkBin(OSlt, x, mkConst(0, w)), mkBin(OSub, mkConst(0, w), x), x))); return; }
  case IN_SMAX: case IN_SMIN: case IN_UMAX: case IN_UMIN: { E x = toE(A(0), w), y = toE(A(1), w); E lt = mkBin(ci.intr == IN_SMAX || ci.intr == IN_SMIN ? OSlt : OUlt, x, y); bool mx = ci.intr == IN_SMAX || ci.intr == IN_UMAX; retV(s, fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y))); return; }
  case IN_BSWAP: { E x = toE(A(0), w); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } retV(s, fromE(r)); return; }
  case IN_CTLZ: case IN_CTTZ: case IN_CTPOP: { uint64_t x = conc(s, A(0), w); uint64_t r = 0; if (ci.intr == IN_CTPOP) r = __builtin_popcountll(x); else if (!x) r = w; else r = ci.intr == IN_CTLZ ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x); retC(s, r); return; }
  case IN_FSHL: case IN_FSHR: { E x = toE(A(0), w), y = toE(A(1), w), z = toE(A(2), w); E k = mkBin(OURem, z, mkConst(w, w)); E nk = mkBin(OSub, mkConst(w, w), k); E r = ci.intr == IN_FSHL ? mkBin(OOr, mkBin(OShl, x, k), mkBin(OLShr, y, nk)) : mkBin(OOr, mkBin(OShl, x, nk), mkBin(OLShr, y, k)); retV(s, fromE(r)); return; }
  case IN_EXPECT: case IN_TLA: retV(s, A(0)); return;
  case IN_ISCONST: retC(s, 0); return;
  case IN_OBJSIZE: retC(s, ~0ull & maskw(ci.retW)); return;
  case IN_STACKSAVE: retC(s, 0); return;
  case IN_FABS: retC(s, conc(s, A(0), w) & (maskw(w) >> 1)); return;
  }
  throw PathEnd{2, "unsupported intrinsic " + ci.name, ""};
}

static void runPending(State& s) { // start the next pending top-level call
  if (s.pendingPos >= s.pending.size()) throw PathEnd{0, "end", ""};
  auto p = s.pending[s.pendingPos++]; callAddr(s, p.first, p.second, 2, 0);
}

static void step(State& s) {
  Thread& t = thr(s);
  if (t.frames.empty()) {
    if (s.cur == 0 && s.th.size() == 1) { runPending(s); return; }
    t.done = true; if (s.cur == 0) throw PathEnd{2, "main thread ended with threads running", ""};
    s.schedPoint = false; schedule(s); s.schedPoint = true; return;
  }
  Frame* f = top(s); const Ins& in = f->fn->code[f->pc]; const_cast<Ins&>(in).cnt++;
  switch (in.op) {
  case I_BIN: {
    V a = get(s, f, in.a, in.w), b = get(s, f, in.b, in.w); Op op = (Op)in.x;
    if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
      if (!b.e) { if (!(b.c & maskw(in.w))) viol("division by zero", "div-zero"); }
      else { AssignP m; E z = mkEq(b.e, mkConst(0, in.w)); if (branch(s, z)) viol("division by zero", "div-zero"); f = top(s); } }
    if (!a.e && !b.e) { V r; r.c = foldBin(op, a.c, b.c, in.w); f->regs[in.dst] = r; } else f->regs[in.dst] = fromE(mkBin(op, toE(a, in.w), toE(b, in.w)));
    f->pc++; return; }
  case I_ICMP: {
    V a = get(s, f, in.a, in.w), b = get(s, f, in.b, in.w); Op op; bool sw = false, ng = false;
    switch ((CmpInst::Predicate)in.x) { case CmpInst::ICMP_EQ: op = OEq; break; case CmpInst::ICMP_NE: op = OEq; ng = true; break; case CmpInst::ICMP_UGT: op = OUlt; sw = true; break; case CmpInst::ICMP_UGE: op = OUle; sw = true; break; case CmpInst::ICMP_ULT: op = OUlt; break; case CmpInst::ICMP_ULE: op = OUle; break; case CmpInst::ICMP_SGT: op = OSlt; sw = true; break; case CmpInst::ICMP_SGE: op = OSle; sw = true; break; case CmpInst::ICMP_SLT: op = OSlt; break; default: op = OSle; }
    if (sw) std::swap(a, b);
    if (!a.e && !b.e) { V r; r.c = foldBin(op, a.c, b.c, in.w) ^ (ng ? 1 : 0); f->regs[in.dst] = r; } else { E e = mkBin(op, toE(a, in.w), toE(b, in.w)); if (ng) e = mkNot(e); f->regs[in.dst] = fromE(e); }
    f->pc++; return; }
  case I_CAST: {
    V a = get(s, f, in.a, in.w2); V r;
    if (!a.e) r.c = in.w > in.w2 ? (in.x ? (uint64_t)sx(a.c, in.w2) & maskw(in.w) : a.c) : a.c & maskw(in.w);
    else if (in.w > in.w2) r = fromE(in.x ? mkSExt(a.e, in.w) : mkZExt(a.e, in.w)); else r = fromE(mkExtract(a.e, 0, in.w));
    f->regs[in.dst] = r; f->pc++; return; }
  case I_SELECT: { V c = get(s, f, in.a, 1); V r; if (!c.e) r = rd(f, c.c & 1 ? in.b : in.c); else { V x = get(s, f, in.b, in.w), y = get(s, f, in.c, in.w); r = fromE(mkIte(c.e, toE(x, in.w), toE(y, in.w))); } f->regs[in.dst] = r; f->pc++; return; }
  case I_FREEZE: { for (uint32_t i = 0; i < in.x; i++) f->regs[in.dst + i] = get(s, f, refAt(in.a, i), in.w ? in.w : 64); f->pc++; return; }
  case I_LOAD: {
    V a = get(s, f, in.a, 64); if (in.w2) { if (schedule(s)) return; f = top(s); }
    uint32_t id, off; resolve(s, a, in.y, false, id, off); f = top(s); auto& lv = f->fn->leaves[in.x];
    if (in.w2) atomicHook(s, id, off, in.y, in.w2, true, false); else if (s.th.size() > 1) raceAccess(s, id, off, in.y, false, false);
    for (size_t i = 0; i < lv.size(); i++) {
      Object* o = getObj(s, id); bool un = o->allUninit; if (!un && !o->sym.empty()) { un = true; for (unsigned k = 0; k < lv[i].bytes; k++) if (o->sym[off + lv[i].off + k].e != UNINIT) un = false; }
      V v; if (un && lv.size() > 1) v.e = UNINIT; else v = loadScalar(s, id, off + lv[i].off, lv[i].w, lv[i].bytes); f->regs[in.dst + i] = v; }
    f->pc++; return; }
  case I_STORE: {
    V a = get(s, f, in.a, 64); if (in.w2) { if (schedule(s)) return; f = top(s); }
    uint32_t id, off; resolve(s, a, in.y, true, id, off); f = top(s); auto& lv = f->fn->leaves[in.x];
    if (in.w2) atomicHook(s, id, off, in.y, in.w2, false, true); else if (s.th.size() > 1) raceAccess(s, id, off, in.y, true, false);
    for (size_t i = 0; i < lv.size(); i++) { V v = rd(f, refAt(in.b, i)); storeScalar(s, id, off + lv[i].off, v, lv[i].w, lv[i].bytes); }
    f->pc++; return; }
  case I_GEP: {
    V a = get(s, f, in.a, 64); int64_t base = ((int64_t)in.c << 32) | (uint32_t)in.b; auto& ts = f->fn->geps[in.x];
    if (!a.e) { bool allc = true; uint64_t r = a.c + base; E sym = nullptr; for (auto& g : ts) { V i = get(s, f, g.opnd, g.w); if (!i.e) r += (uint64_t)sx(i.c, g.w) * g.scale; else { allc = false; E x = mkBin(OMul, mkSExt(i.e, 64), mkConst(g.scale, 64)); sym = sym ? mkBin(OAdd, sym, x) : x; } }
      if (allc) { V v; v.c = r; f->regs[in.dst] = v; } else f->regs[in.dst] = fromE(mkBin(OAdd, sym, mkConst(r, 64))); }
    else { E e = mkBin(OAdd, a.e, mkConst(base, 64)); for (auto& g : ts) { V i = get(s, f, g.opnd, g.w); e = mkBin(OAdd, e, i.e ? mkBin(OMul, mkSExt(i.e, 64), mkConst(g.scale, 64)) : mkConst((uint64_t)sx(i.c, g.w) * g.scale, 64)); } f->regs[in.dst] = fromE(e); }
    f->pc++; return; }
  case I_ALLOCA: { uint64_t n = conc(s, get(s, f, in.a, in.w), in.w); if (n * in.x > (1u << 26)) viol("huge alloca", "huge-alloc"); uint64_t ad = newObj(s, n * in.x, KStack, true); f = top(s); f->allocas.push_back(idOf(ad)); V v; v.c = ad; f->regs[in.dst] = v; f->pc++; return; }
  case I_JMP: takeEdge(s, f, f->fn->edges[in.x]); return;
  case I_BR: { V c = get(s, f, in.a, 1); bool b;
    if (!c.e) b = c.c & 1; else if (isC(c.e)) b = c.e->k; else b = branch(s, c.e);
    f = top(s); takeEdge(s, f, f->fn->edges[b ? in.x : in.y]); return; }
  case I_SWITCH: { V c = get(s, f, in.a, in.w); auto& si = f->fn->switches[in.x]; int tgt = si.def;
    if (!c.e) { for (auto& k : si.cases) if (k.first == c.c) { tgt = k.second; break; } }
    else for (auto& k : si.cases) if (branch(s, mkEq(c.e, mkConst(k.first, in.w)))) { tgt = k.second; break; }
    f = top(s); takeEdge(s, f, f->fn->edges[tgt]); return; }
  case I_CALL: case I_INVOKE: {
    CallInfo& ci = f->fn->calls[in.c];
    if (ci.intr) { intrinsic(s, f, in, ci); return; }
    FnImpl* fn = ci.callee;
    if (!fn) { uint64_t a = conc(s, get(s, f, ci.fnOp, 64), 64); auto it = fnByAddr.find(a); if (it == fnByAddr.end()) viol("call through a bad function pointer", "bad-call"); fn = it->second; }
    if (fn->bi) { (*fn->bi)(s, in, ci); return; }
    if (fn->F->isDeclaration()) { unsupported[fn->name]++; throw PathEnd{2, "call to undefined function " + demangle(fn->name), ""}; }
    enter(s, ci, fn); return; }
  case I_RET: {
    std::vector<V> rv; V one; if (in.x == 1) one = rd(f, in.a); else for (uint32_t i = 0; i < in.x; i++) rv.push_back(rd(f, refAt(in.a, i)));
    uint8_t onRet = f->onRet; uint64_t ra = f->retArg; popFrame(s);
    if (onRet == 1) { freeExc(s, ra); retVoid(s); return; }
    if (onRet == 2 || thr(s).frames.empty()) return;
    Frame* c = top(s); const Ins& ci = c->fn->code[c->pc]; if (ci.dst >= 0) { if (in.x == 1) c->regs[ci.dst] = one; else for (uint32_t i = 0; i < in.x; i++) c->regs[ci.dst + i] = rv[i]; }
    if (ci.op == I_INVOKE) takeEdge(s, c, c->fn->edges[ci.x]); else c->pc++;
    return; }
  case I_UNREACH: viol("reached code marked unreachable", "unreachable"); return;
  case I_EXTRACTV: for (uint32_t i = 0; i < in.x; i++) f->regs[in.dst + i] = rd(f, refAt(in.a, i)); f->pc++; return;
  case I_INSERTV: { std::vector<V> tmp; for (int i = 0; i < in.c; i++) tmp.push_back(rd(f, refAt(in.a, i))); for (uint32_t i = 0; i < in.y; i++) tmp[in.x + i] = rd(f, refAt(in.b, i)); for (int i = 0; i < in.c; i++) f->regs[in.dst + i] = tmp[i]; f->pc++; return; }
  case I_RESUME: { uint64_t o = conc(s, rd(f, in.a), 64); popFrame(s); if (thr(s).frames.empty()) viol("exception escapes", "uncaught"); unwind(s, o, false); return; }
  case I_RMW: {
    V a = get(s, f, in.a, 64); if (schedule(s)) return; f = top(s); unsigned n = in.w / 8; uint32_t id, off; resolve(s, a, n, true, id, off); atomicHook(s, id, off, n, in.w2, true, true);
    V old = loadScalar(s, id, off, in.w, n); V b = get(s, f, in.b, in.w); E x = toE(old, in.w), y = toE(b, in.w), r;
    switch ((AtomicRMWInst::BinOp)in.x) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(OAdd, x, y); break; case AtomicRMWInst::Sub: r = mkBin(OSub, x, y); break; case AtomicRMWInst::And: r = mkBin(OAnd, x, y); break; case AtomicRMWInst::Or: r = mkBin(OOr, x, y); break; case AtomicRMWInst::Xor: r = mkBin(OXor, x, y); break; default: throw PathEnd{2, "atomicrmw op", ""}; }
    storeScalar(s, id, off, fromE(r), in.w, n); f = top(s); f->regs[in.dst] = old; f->pc++; return; }
  case I_CMPX: {
    V a = get(s, f, in.a, 64); if (schedule(s)) return; f = top(s); unsigned n = in.w / 8; uint32_t id, off; resolve(s, a, n, true, id, off); 
    V old = loadScalar(s, id, off, in.w, n); bool eq = branch(s, mkEq(toE(old, in.w), toE(get(s, f, in.b, in.w), in.w))); atomicHook(s, id, off, n, in.w2, true, eq); f = top(s); if (eq) storeScalar(s, id, off, get(s, f, in.c, in.w), in.w, n); f = top(s); f->regs[in.dst] = old; V v; v.c = eq; f->regs[in.dst + 1] = v; f->pc++; return; }
  case I_FENCE: f->pc++; return;
  case I_FBIN: { double x = bitsToD(conc(s, get(s, f, in.a, in.w), in.w), in.w), y = bitsToD(conc(s, get(s, f, in.b, in.w), in.w), in.w), r; f = top(s); switch (in.x) { case Instruction::FAdd: r = in.w == 32 ? (float)x + (float)y : x + y; break; case Instruction::FSub: r = in.w == 32 ? (float)x - (float)y : x - y; break; case Instruction::FMul: r = in.w == 32 ? (float)x * (float)y : x * y; break; case Instruction::FDiv: r = in.w == 32 ? (float)x / (float)y : x / y; break; default: r = fmod(x, y); } V v; v.c = dToBits(r, in.w); f->regs[in.dst] = v; f->pc++; return; }
  case I_FNEG: { V v; v.c = dToBits(-bitsToD(conc(s, get(s, f, in.a, in.w), in.w), in.w), in.w); f = top(s); f->regs[in.dst] = v; f->pc++; return; }
  case I_FCMP: { double x = bitsToD(conc(s, get(s, f, in.a, in.w), in.w), in.w), y = bitsToD(conc(s, get(s, f, in.b, in.w), in.w), in.w); f = top(s); bool un = std::isnan(x) || std::isnan(y), r = false; unsigned p = in.x;
    if (p == CmpInst::FCMP_ORD) r = !un; else if (p == CmpInst::FCMP_UNO) r = un; else { bool base; switch (p & 7) { case 1: base = x == y; break; case 2: base = x > y; break; case 3: base = x >= y; break; case 4: base = x < y; break; case 5: base = x <= y; break; case 6: base = x != y && !un; break; case 7: base = !un; break; default: base = false; } r = (p & 8) ? (un || base) : (!un && base); }
    V v; v.c = r; f->regs[in.dst] = v; f->pc++; return; }
  case I_FCAST: { uint64_t a = conc(s, get(s, f, in.a, in.w2), in.w2); f = top(s); V v; switch (in.x) { case Instruction::FPTrunc: case Instruction::FPExt: v.c = dToBits(bitsToD(a, in.w2), in.w); break; case Instruction::FPToSI: v.c = (uint64_t)(int64_t)bitsToD(a, in.w2) & maskw(in.w); break; case Instruction::FPToUI: v.c = (uint64_t)bitsToD(a, in.w2) & maskw(in.w); break; case Instruction::SIToFP: v.c = dToBits((double)sx(a, in.w2), in.w); break; default: v.c = dToBits((double)a, in.w); } f->regs[in.dst] = v; f->pc++; return; }
  default: { std::string str; raw_string_ostream os(str); ((const Instruction*)in.I)->print(os); throw PathEnd{2, "unsupported instruction " + os.str(), ""}; }
  }
}

// ---------------------------------------------------------------- globals
static void initBytes(State& s, uint32_t id, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) return; // zero filled
  if (isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&getObj(s, id)->data[off], r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(s, id, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(s, id, off + i * es, c->getAggregateElement(i)); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { APInt v = ci->getValue(); unsigned nb = (ci->getBitWidth() + 7) / 8; for (unsigned i = 0; i < nb; i++) getObj(s, id)->data[off + i] = v.extractBitsAsZExtValue(8, i * 8); return; }
  std::vector<V> vs; if (!constVals(c, vs) || vs.size() != 1) { if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); for (unsigned i = 0; i < v.getBitWidth() / 8; i++) getObj(s, id)->data[off + i] = v.extractBitsAsZExtValue(8, i * 8); return; } std::string str; raw_string_ostream os(str); c->print(os); fprintf(stderr, "unsupported global initialiser: %s\n", os.str().c_str()); return; }
  uint64_t x = vs[0].c; memcpy(&getObj(s, id)->data[off], &x, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- main loop and reporting
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
struct Viol { std::string what, id, where; std::vector<Input> inputs; AssignP model; uint64_t steps; };
static std::vector<Viol> viols; static std::map<std::string, int> violIds;

int main(int argc, char** argv) {
  mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); mallopt(M_TOP_PAD, 16 << 20); // state copies must not go through mmap
  if (argc < 2) return 2; std::string entry, out; std::set<std::string> extra; bool dumpTests = false; int maxPer = 1;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--max-steps") maxSteps = atoll(argv[++i]); else if (a == "--time") timeLimit = atof(argv[++i]); else if (a == "--max-viol") maxViol = atoi(argv[++i]); else if (a == "--cov") wantCov = true; else if (a == "--no-uninit") uninitBranch = false; else if (a == "--query-timeout") queryTimeout = atof(argv[++i]); else if (a == "--max-per") maxPer = atoi(argv[++i]); else if (a == "--shard") { if (sscanf(argv[++i], "%u/%u", &shardI, &shardN) != 2) return 2; } else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
  (void)dumpTests; tStart = now(); SMDiagnostic err; auto mod = parseIRFile(argv[1], err, C); if (!mod) { err.print("vsym", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
  initBuiltins();
  State* s0 = new State; s0->model = std::make_shared<Assign>(); s0->mem.emplace_back(); s0->mem[0].p = new Chunk; s0->th.resize(1);
  for (auto& F : *M) { FnImpl* f = getFn(&F); f->addr = newObj(*s0, 1, KFunc, false); fnByAddr[f->addr] = f; }
  for (auto& G : M->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0; if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 256); gaddr[&G] = newObj(*s0, sz, KGlobal, false);
    if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = gaddr[&G]; if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = gaddr[&G]; if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = gaddr[&G]; }
  std::vector<std::string> externs;
  for (auto& G : M->globals()) { if (G.hasInitializer()) { initBytes(*s0, idOf(gaddr[&G]), 0, G.getInitializer()); } else externs.push_back(G.getName().str()); if (G.isConstant()) getObj(*s0, idOf(gaddr[&G]))->ro = true; }
  // constructors
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<int, Function*>> v; for (auto& o : ca->operands()) { auto* cs = dyn_cast<ConstantStruct>(o.get()); if (!cs) continue; if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) s0->pending.push_back({getFn(p.second)->addr, 0}); }
  Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "entry %s not found\n", entry.c_str()); return 2; }
  s0->pending.push_back({getFn(ef)->addr, 0});
  work.push_back(s0); bool timedOut = false; double firstViol = 0; uint64_t chk = 0;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back(); bool ended = false;
    try {
      while (true) { step(*s); totalSteps++; if (++s->steps > maxSteps) viol("no termination within " + std::to_string(maxSteps) + " steps", "hang"); if ((++chk & 0xfff) == 0) { double t = now() - tStart; if (t > timeLimit) { timedOut = true; break; } if (firstViol && t > firstViol + afterViol) break; } }
    } catch (PathEnd& e) {
      ended = true; if (s->steps > maxPathSteps) maxPathSteps = s->steps;
      if (e.kind != 1 && e.kind != 2 && !s->shardDone && shardN > 1 && !shardMine(*s)) ; else if (e.kind == 0) { if (e.what == "end") pathsDone++; else pathsKilled++; }
      else if (e.kind == 1) { pathsViol++; std::string w = whereStr(*s); std::string key = e.id; 
        if (key.rfind("assert:", 0) != 0) { size_t p = w.find(" <- "); key += "@" + w.substr(0, p); }
        if (violIds[key]++ < maxPer && (int)viols.size() < maxViol) { viols.push_back({e.what, key, w, s->inputs, s->model, s->steps}); if (!firstViol) firstViol = now() - tStart; } }
      else if (e.kind != 3) { incomplete = true; incompleteWhy.insert(e.what + " at " + whereStr(*s, 3)); pathsKilled++; }
    }
    delete s; if (!ended) break; if ((int)viols.size() >= maxViol) break; if (firstViol && now() - tStart > firstViol + afterViol) break; if (now() - tStart > timeLimit && !work.empty()) { timedOut = true; break; }
  }
  if (SS.disagree) { incomplete = true; incompleteWhy.insert("internal: preprocessing disagrees with the solver"); }
  if (timedOut) { incomplete = true; incompleteWhy.insert("time limit"); }
  if (!work.empty() && !viols.empty()) { incompleteWhy.insert("stopped after violation"); }
  FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fo, "{\n \"entry\":\"%s\",\"complete\":%s,\"wall\":%.3f,\n \"paths\":%llu,\"assumed_away\":%llu,\"viol_paths\":%llu,\"pending_states\":%zu,\"forks\":%llu,\"steps\":%llu,\"max_path_steps\":%llu,\"max_constraints\":%zu,\"exprs\":%zu,\n", entry.c_str(), incomplete || !work.empty() ? "false" : "true", now() - tStart, (unsigned long long)pathsDone, (unsigned long long)pathsKilled, (unsigned long long)pathsViol, work.size(), (unsigned long long)forksTotal, (unsigned long long)totalSteps, (unsigned long long)maxPathSteps, maxConstraints, exprCount());
  fprintf(fo, " \"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"core_hits\":%llu,\"range_hits\":%llu,\"order_hits\":%llu,\"lia\":%llu,\"lia_undecided\":%llu,\"cross_checked\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts_checked\":%llu,\n", (unsigned long long)SS.queries, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.unknown, (unsigned long long)SS.cacheHits, (unsigned long long)SS.modelHits, (unsigned long long)SS.coreHits, (unsigned long long)SS.rangeHits, (unsigned long long)SS.orderHits, (unsigned long long)SS.liaHits, (unsigned long long)SS.liaMiss, (unsigned long long)SS.crossChecked, SS.time, SS.maxTime, (unsigned long long)assertsChecked);
  auto list = [&](const char* n, auto& c, auto f) { fprintf(fo, " \"%s\":[", n); bool first = true; for (auto& x : c) { fprintf(fo, "%s%s", first ? "" : ",", f(x).c_str()); first = false; } fprintf(fo, "],\n"); };
  list("incomplete_why", incompleteWhy, [](const std::string& x) { return "\"" + jesc(x) + "\""; });
  list("asserts", assertsSeen, [](const std::string& x) { return "\"" + jesc(x) + "\""; });
  fprintf(fo, " \"reached\":{"); { bool first = true; for (auto& r : reached) { fprintf(fo, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; } } fprintf(fo, "},\n");
  std::vector<std::string> fns; for (auto& p : fnMap) if (p.second->executed) fns.push_back(demangle(p.second->name)); std::sort(fns.begin(), fns.end());
  list("functions", fns, [](const std::string& x) { return "\"" + jesc(x) + "\""; });
  if (wantCov) { std::map<std::string, std::map<unsigned, uint64_t>> cov; std::map<std::string, std::set<unsigned>> all;
    for (auto& p : fnMap) if (!p.second->F->isDeclaration()) { if (p.second->executed) for (auto& in : p.second->code) { auto* I = (const Instruction*)in.I; if (auto& d = I->getDebugLoc()) if (d.getLine()) { auto fl = cast<DIScope>(d.getScope())->getFilename().str(); auto& c = cov[fl][d.getLine()]; c = std::max<uint64_t>(c, in.cnt); } }
      else for (auto& B : *p.second->F) for (auto& I : B) if (auto& d = I.getDebugLoc()) if (d.getLine()) { cov[cast<DIScope>(d.getScope())->getFilename().str()][d.getLine()]; } }
    fprintf(fo, " \"cov\":{"); bool ff = true; for (auto& f : cov) { fprintf(fo, "%s\"%s\":{", ff ? "" : ",", jesc(f.first).c_str()); ff = false; bool lf = true; for (auto& l : f.second) { fprintf(fo, "%s\"%u\":%llu", lf ? "" : ",", l.first, (unsigned long long)l.second); lf = false; } fprintf(fo, "}"); } fprintf(fo, "},\n"); }
  fprintf(fo, " \"violations\":["); for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; fprintf(fo, "%s\n  {\"id\":\"%s\",\"what\":\"%s\",\"where\":\"%s\",\"steps\":%llu,\"inputs\":[", i ? "," : "", jesc(v.id).c_str(), jesc(v.what).c_str(), jesc(v.where).c_str(), (unsigned long long)v.steps); for (size_t k = 0; k < v.inputs.size(); k++) { auto& p = v.inputs[k]; uint64_t x = p.e ? evalE(p.e, *v.model) : p.c; fprintf(fo, "%s[\"%s\",%d,%llu]", k ? "," : "", jesc(p.name).c_str(), p.w, (unsigned long long)x); } fprintf(fo, "]}"); }
  fprintf(fo, "]\n}\n"); if (fo != stdout) fclose(fo);
  fflush(stdout); _exit(0);
}
