// A KLEE-class symbolic executor for LLVM 18 IR over Z3 bit-vectors.
// Usage: symex prog.bc --entry=F --out=FILE.json [--time=SEC] [--qtimeout=MS] [--max-steps=N] [--traces=N]
#include "expr.h"
#include "solver.h"
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <random>
#include <pthread.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>

using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ values
struct V {
  E e = nullptr;
  APInt c;
  std::shared_ptr<std::vector<V>> agg;
  V() {}
  explicit V(const APInt &x) : c(x) {}
  V(u64 v, unsigned w) : c(w, v) {}
  static V ofE(E x) { V r; if (x->isConst()) r.c = x->val; else r.e = x; return r; }
  static V ofAgg(std::vector<V> v) { V r; r.agg = std::make_shared<std::vector<V>>(std::move(v)); return r; }
  bool isC() const { return !e && !agg; }
  bool isAgg() const { return (bool)agg; }
  unsigned width() const { return e ? e->width : c.getBitWidth(); }
  E expr() const { return e ? e : mkConst(c); }
  u64 u() const { return c.getZExtValue(); }
};

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { KGlobal, KConstG, KStack, KHeap, KFuncObj, KExn };
struct MemObj {
  u64 base, size;
  Kind kind;
  bool freed = false;
  uint8_t allocFn = 0;             // 0 malloc 1 new 2 new[]
  std::vector<uint8_t> c;
  std::vector<E> s;                // empty when entirely concrete
  std::vector<bool> uninit;        // empty when entirely initialised
  std::string name;
};
using ObjP = std::shared_ptr<MemObj>;

struct KInst {
  Instruction *I;
  unsigned opc;
  int dest = -1;
  std::vector<int> ops;
  // GEP
  u64 gepOff = 0; std::vector<std::pair<int, u64>> gepIdx;
  int succ0 = -1, succ1 = -1;      // block ids
};
struct KBlock { unsigned first; unsigned id; BasicBlock *bb; };
struct KFunc {
  Function *F;
  std::vector<KInst> insts;
  std::vector<KBlock> blocks;
  DenseMap<BasicBlock *, int> bid;
  std::vector<bool> covered;       // per block
  unsigned nregs = 0;
  bool nounwind = false;
};

struct Frame {
  KFunc *kf;
  unsigned pc = 0;                 // index into insts
  int bb = 0, prevbb = -1;
  std::vector<V> regs;
  std::vector<u64> allocas;
  u64 freeOnReturn = 0;            // exception object to release when this frame returns
  bool discardRet = false;         // the return value/advance is not given to the caller
  std::vector<V> varargs;
};
struct ExnInfo { u64 tinfo, dtor; int handlers = 0; int refs = 0; u64 adjusted = 0; };
enum ThStatus : uint8_t { TRun, TMutex, TJoin, TCond, TSpin, TDone };
struct Thread {
  std::vector<Frame> st;
  std::vector<u64> caught;
  int uncaught = 0;
  ThStatus status = TRun;
  u64 waitOn = 0;
  u64 waitMutex = 0;
  bool timed = false;              // a timed condition wait
  bool timedOut = false;
  u64 own = 0, seen = 0; bool seenSet = false; int idle = 0, timeouts = 0;   // spinning: progress of the others since the first atomic load
  std::vector<uint32_t> vc, pend, rel;   // clock; clocks seen by relaxed loads; clock at the last release fence
};
struct Input { std::string name; V v; };
struct MutexSt { int owner = -1; int depth = 0; std::vector<uint32_t> vc; };
struct Shadow { int wt = -1; uint32_t wc = 0; std::vector<uint32_t> rc; };

struct State {
  std::vector<Thread> th;
  int cur = 0;
  std::map<u64, ObjP> mem;         // by base
  std::vector<E> pc;
  std::shared_ptr<Assignment> asg;
  std::vector<Input> inputs;
  std::vector<std::pair<std::string, V>> obs;
  std::map<u64, ExnInfo> exns;
  std::map<u64, MutexSt> mutexes;
  std::map<u64, std::vector<uint32_t>> avc;   // atomics' clocks
  std::map<u64, Shadow> shadow;
  u64 heapNext = 0x100000000ULL, stackNext = 0x7f0000000000ULL;
  u64 steps = 0;
  u64 liveHeap = 0, heapMark = 0;
  u64 allocCap = 1 << 16;
  int preempt = 0, preemptMax = 2;
  bool lastWasSched = false;
  u64 progress = 0;                // changes of atomics
  bool noFork = false;
  unsigned depth = 0;
  u64 shAcc = 0, shProd = 1; bool shDone = false;   // sharding of the choice tree
  std::map<std::string, u64> kv;
};

// ------------------------------------------------------------------ globals
static LLVMContext gCtx;
static std::unique_ptr<Module> gM;
static const DataLayout *gDL;
static DenseMap<const GlobalValue *, u64> gAddr;
static std::map<u64, Function *> gFuncAt;
static DenseMap<Function *, KFunc *> gKF;
static std::vector<V> gConsts;
static DenseMap<const Constant *, int> gConstIdx;
static std::vector<State *> gWork;
static u64 gMaxSteps = 20000000, gTotalSteps = 0, gPaths = 0, gForks = 0, gAssumeDead = 0, gAsserts = 0, gMaxPaths = ~0ull;
static double gTimeLimit = 600;
static std::chrono::steady_clock::time_point gT0;
static std::set<std::string> gReached, gUnsupported;
static std::string gInconclusive;
static int gMaxTraces = 12;
static bool gVerbose = false;
static u64 gShard = 0, gShards = 1;
static bool gRaceDetect = true;
static u64 gMaxMemMB = 6000;
static std::mt19937_64 gRng(1);

struct Trace { std::vector<std::pair<std::string, std::string>> in; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Trace> gTraces;
struct Cex { std::string kind, msg, where; Trace t; };
static std::vector<Cex> gCex;
static u64 gTracesSeen = 0;

static std::string hexOf(const APInt &v) { SmallString<40> s; v.toString(s, 16, false); return std::string(s.str()); }
static APInt evalV(State *s, const V &v) { if (!v.e) return v.c; newEvalEpoch(); return evalExpr(v.e, *s->asg); }

static Trace mkTrace(State *s) {
  Trace t;
  for (auto &i : s->inputs) t.in.push_back({i.name, hexOf(evalV(s, i.v))});
  for (auto &o : s->obs) t.obs.push_back({o.first, hexOf(evalV(s, o.second))});
  return t;
}
struct PathEnd { };                // thrown to end the current state
struct Stop { };

static std::string whereOf(State *s) {
  std::string r;
  auto &st = s->th[s->cur].st;
  int n = 0;
  for (auto it = st.rbegin(); it != st.rend() && n < 12; ++it, ++n) {
    r += demangle(it->kf->F->getName().str());
    if (it->pc < it->kf->insts.size()) if (auto &dl = it->kf->insts[it->pc].I->getDebugLoc()) r += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
    r += "\n";
  }
  return r;
}
static u64 gMaxCex = 1;
[[noreturn]] static void violation(State *s, const std::string &kind, const std::string &msg) {
  gCex.push_back({kind, msg, whereOf(s), mkTrace(s)});
  if (gCex.size() >= gMaxCex) throw Stop();
  throw PathEnd();
}
[[noreturn]] static void unsupported(State *s, const std::string &msg) {
  if (gInconclusive.empty()) gInconclusive = "unsupported: " + msg + " at " + whereOf(s);
  throw PathEnd();
}

// ------------------------------------------------------------------ constants
static unsigned widthOf(Type *t) {
  if (t->isPointerTy()) return 64;
  return (unsigned)gDL->getTypeSizeInBits(t).getFixedValue();
}
static V zeroOf(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<V> v; for (auto *e : st->elements()) v.push_back(zeroOf(e)); return V::ofAgg(std::move(v)); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<V> v(at->getNumElements(), zeroOf(at->getElementType())); return V::ofAgg(std::move(v)); }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<V> v(vt->getNumElements(), zeroOf(vt->getElementType())); return V::ofAgg(std::move(v)); }
  return V(0, widthOf(t));
}
static V constVal(const Constant *c);
static APInt constInt(const Constant *c) { V v = constVal(c); return v.c; }
static V constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return V(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return V(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return V(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it = gAddr.find(gv);
    if (it == gAddr.end()) { errs() << "no address for " << gv->getName() << "\n"; exit(3); }
    return V(it->second, 64);
  }
  if (auto *cs = dyn_cast<ConstantAggregate>(c)) { std::vector<V> v; for (auto &o : cs->operands()) v.push_back(constVal(cast<Constant>(o))); return V::ofAgg(std::move(v)); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<V> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i))); return V::ofAgg(std::move(v)); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      cast<GEPOperator>(ce)->accumulateConstantOffset(*gDL, off);
      return V(constInt(ce->getOperand(0)) + off);
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return V(constInt(ce->getOperand(0)).zextOrTrunc(widthOf(ce->getType())));
    case Instruction::Trunc: return V(constInt(ce->getOperand(0)).trunc(widthOf(ce->getType())));
    case Instruction::Add: return V(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)));
    case Instruction::Sub: return V(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)));
    case Instruction::Xor: return V(constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1)));
    case Instruction::ICmp: {
      APInt a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
      return V(ICmpInst::compare(a, b, (ICmpInst::Predicate)ce->getPredicate()) ? 1 : 0, 1);
    }
    default: break;
    }
  }
  if (isa<ConstantTokenNone>(c)) return V(0, 64);
  errs() << "unsupported constant: " << *c << "\n"; exit(3);
}

// ------------------------------------------------------------------ program preparation
static KFunc *getKF(Function *F) {
  auto it = gKF.find(F);
  if (it != gKF.end()) return it->second;
  auto *k = new KFunc(); k->F = F; gKF[F] = k;
  k->nounwind = F->doesNotThrow();
  DenseMap<const Value *, int> reg;
  unsigned n = 0;
  for (auto &a : F->args()) reg[&a] = n++;
  int id = 0;
  for (auto &bb : *F) { k->bid[&bb] = id++; for (auto &I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  k->nregs = n;
  k->covered.assign(id, false);
  auto opIdx = [&](Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto ci = gConstIdx.find(c);
      if (ci != gConstIdx.end()) return -(ci->second + 1);
      int i = gConsts.size(); gConsts.push_back(constVal(c)); gConstIdx[c] = i; return -(i + 1);
    }
    auto r = reg.find(v);
    if (r == reg.end()) return INT_MIN;   // metadata, blocks, inline asm
    return r->second;
  };
  for (auto &bb : *F) {
    k->blocks.push_back({(unsigned)k->insts.size(), (unsigned)k->blocks.size(), &bb});
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki; ki.I = &I; ki.opc = I.getOpcode();
      auto d = reg.find(&I); if (d != reg.end()) ki.dest = d->second;
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) ki.ops.push_back(isa<MetadataAsValue>(a) ? INT_MIN : opIdx(a));
        ki.ops.push_back(isa<InlineAsm>(cb->getCalledOperand()) ? INT_MIN : opIdx(cb->getCalledOperand()));
      } else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(opIdx(gep->getPointerOperand()));
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          if (auto *st = gi.getStructTypeOrNull()) {
            ki.gepOff += gDL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
          } else {
            u64 sz = gDL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) ki.gepOff += ci->getSExtValue() * sz;
            else ki.gepIdx.push_back({opIdx(gi.getOperand()), sz});
          }
        }
      } else {
        for (auto &o : I.operands()) ki.ops.push_back(isa<BasicBlock>(o) ? INT_MIN : opIdx(o));
      }
      k->insts.push_back(std::move(ki));
    }
  }
  for (auto &ki : k->insts) {
    if (auto *br = dyn_cast<BranchInst>(ki.I)) { ki.succ0 = k->bid[br->getSuccessor(0)]; if (br->isConditional()) ki.succ1 = k->bid[br->getSuccessor(1)]; }
    if (auto *iv = dyn_cast<InvokeInst>(ki.I)) { ki.succ0 = k->bid[iv->getNormalDest()]; ki.succ1 = k->bid[iv->getUnwindDest()]; }
  }
  return k;
}

static void initMem(MemObj &o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = gDL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initMem(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); u64 sz = gDL->getTypeAllocSize(et); for (unsigned i = 0; i < c->getNumOperands(); ++i) initMem(o, off + i * sz, cast<Constant>(c->getOperand(i))); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o.c[off], r.data(), r.size()); return; }
  APInt v = constVal(c).c;
  unsigned n = (gDL->getTypeStoreSize(t).getFixedValue());
  v = v.zextOrTrunc(n * 8);
  for (unsigned i = 0; i < n; ++i) o.c[off + i] = (uint8_t)v.extractBitsAsZExtValue(8, i * 8);
}

static void setupGlobals(State *s) {
  u64 fa = 0x1000000;
  for (auto &F : *gM) { gAddr[&F] = fa; gFuncAt[fa] = &F; fa += 16; }
  u64 ga = 0x10000000;
  for (auto &G : gM->globals()) {
    u64 sz = G.getValueType()->isSized() ? gDL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
    if (G.isDeclaration() && sz < 64) sz = 64;
    u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1);
    ga = (ga + al - 1) / al * al;
    gAddr[&G] = ga;
    ga += sz + 32;
  }
  for (auto &G : gM->globals()) {
    auto o = std::make_shared<MemObj>();
    o->base = gAddr[&G];
    u64 sz = G.getValueType()->isSized() ? gDL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
    if (G.isDeclaration() && sz < 64) sz = 64;
    o->size = sz; o->kind = G.isConstant() ? KConstG : KGlobal; o->name = G.getName().str();
    o->c.assign(sz, 0);
    if (G.hasInitializer()) initMem(*o, 0, G.getInitializer());
    s->mem[o->base] = o;
  }
}

// ------------------------------------------------------------------ memory operations
static MemObj *findObj(State *s, u64 a) {
  auto it = s->mem.upper_bound(a);
  if (it == s->mem.begin()) return nullptr;
  --it;
  MemObj *o = it->second.get();
  if (a >= o->base && (a < o->base + o->size || (o->size == 0 && a == o->base))) return o;
  return nullptr;
}
static MemObj *writable(State *s, MemObj *o) {
  auto &p = s->mem[o->base];
  if (p.use_count() > 1) p = std::make_shared<MemObj>(*p);
  return p.get();
}
static u64 allocObj(State *s, u64 size, Kind k, const char *name, u64 align = 16) {
  auto o = std::make_shared<MemObj>();
  u64 &nx = k == KStack ? s->stackNext : s->heapNext;
  if (align < 16) align = 16;
  nx = (nx + align - 1) / align * align;
  o->base = nx; o->size = size; o->kind = k; o->name = name;
  o->c.assign(size, 0);
  o->uninit.assign(size, true);
  nx += size + 32;
  nx = (nx + 15) / 16 * 16;
  s->mem[o->base] = o;
  if (k == KHeap) s->liveHeap++;
  return o->base;
}

static void addPC(State *s, E c) { if (!c->isConst()) s->pc.push_back(c); }
static State *cloneState(State *s) { gForks++; State *n = new State(*s); n->depth++; return n; }

static SatRes feasible(State *s, E c, Assignment &m) {
  if (c->isConst()) return c->val.isZero() ? SatRes::Unsat : SatRes::Sat;
  newEvalEpoch();
  if (!evalExpr(c, *s->asg).isZero()) { gSolverStats.modelHits++; m.clear(); return SatRes::Sat; }
  return solveSlice(s->pc, c, m);
}
static void mergeAsg(State *s, const Assignment &m) {
  if (m.empty()) return;
  auto n = std::make_shared<Assignment>(*s->asg);
  for (auto &p : m) (*n)[p.first] = p.second;
  s->asg = n;
}
static void inconcl(const std::string &m) { if (gInconclusive.empty()) gInconclusive = m; }

// Fork on a symbolic 1-bit condition. Returns the truth value taken by *s; the other state (if feasible) is returned in *other.
static bool forkCond(State *s, E c, State **other) {
  *other = nullptr;
  if (c->isConst()) return !c->val.isZero();
  newEvalEpoch();
  bool v = !evalExpr(c, *s->asg).isZero();
  E taken = v ? c : mkNot(c), nt = v ? mkNot(c) : c;
  Assignment m;
  SatRes r = solveSlice(s->pc, nt, m);
  if (r == SatRes::Unknown) { inconcl("solver gave no answer within the query budget at " + whereOf(s)); }
  if (r == SatRes::Sat) {
    State *o = cloneState(s);
    mergeAsg(o, m);
    addPC(o, nt);
    *other = o;
    addPC(s, taken);
  }
  return v;
}
// Make a value concrete, forking one state per feasible value (the clone re-executes the current instruction).
static APInt concretize(State *s, const V &v) {
  if (!v.e) return v.c;
  APInt k = evalV(s, v);
  State *o = nullptr;
  forkCond(s, mkEq(v.e, mkConst(k)), &o);
  if (o) gWork.push_back(o);
  return k;
}

static V freshByte() { static u64 n = 0; return V::ofE(mkVar("uninit" + std::to_string(n++), 8)); }
static E byteAt(State *s, MemObj *&o, u64 off) {
  if (!o->uninit.empty() && o->uninit[off]) {
    o = writable(s, o);
    V b = freshByte();
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[off] = b.e; o->uninit[off] = false;
    return b.e;
  }
  if (!o->s.empty() && o->s[off]) return o->s[off];
  return mkConst(o->c[off], 8);
}
static V readAt(State *s, MemObj *o, u64 off, unsigned n, unsigned bits) {
  bool conc = true;
  if (!o->uninit.empty()) for (unsigned i = 0; i < n && conc; ++i) if (o->uninit[off + i]) conc = false;
  if (conc && !o->s.empty()) for (unsigned i = 0; i < n && conc; ++i) if (o->s[off + i]) conc = false;
  if (conc) {
    if (n <= 8) { u64 x = 0; memcpy(&x, &o->c[off], n); if (bits < 64) x &= (bits == 64 ? ~0ull : ((1ull << bits) - 1)); return V(x, bits); }
    std::vector<u64> w((n + 7) / 8, 0); memcpy(w.data(), &o->c[off], n);
    return V(APInt(n * 8, w).trunc(bits));
  }
  E acc = nullptr;
  for (unsigned i = 0; i < n; ++i) { E b = byteAt(s, o, off + i); acc = acc ? mkConcat(b, acc) : b; }
  if (bits < n * 8) acc = mkExtract(acc, 0, bits);
  return V::ofE(acc);
}
static void writeAt(State *s, MemObj *o, u64 off, unsigned n, const V &v0) {
  o = writable(s, o);
  if (!o->uninit.empty()) for (unsigned i = 0; i < n; ++i) o->uninit[off + i] = false;
  if (v0.isC()) {
    if (v0.c.getBitWidth() <= 64) { u64 x = v0.c.getZExtValue(); memcpy(&o->c[off], &x, std::min(n, 8u)); if (n > 8) memset(&o->c[off + 8], 0, n - 8); }
    else { APInt x = v0.c.zextOrTrunc(n * 8); for (unsigned i = 0; i < n; ++i) o->c[off + i] = (uint8_t)x.extractBitsAsZExtValue(8, i * 8); }
    if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr;
    return;
  }
  E x = v0.e;
  if (x->width < n * 8) x = mkZExt(x, n * 8);
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; ++i) {
    E b = mkExtract(x, i * 8, 8);
    if (b->isConst()) { o->c[off + i] = (uint8_t)b->val.getZExtValue(); o->s[off + i] = nullptr; }
    else o->s[off + i] = b;
  }
}
static std::string objDesc(State *s, u64 a) {
  char b[64]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  std::string r = b;
  auto it = s->mem.upper_bound(a);
  if (it != s->mem.begin()) { --it; auto *o = it->second.get(); if (a < o->base + o->size + 64) r += " near object '" + o->name + "' size " + std::to_string(o->size) + " offset " + std::to_string((long long)(a - o->base)) + (o->freed ? " (freed)" : ""); }
  return r;
}

// --- data races
static void raceAccess(State *s, u64 a, unsigned n, bool wr) {
  if (s->th.size() < 2 || !gRaceDetect) return;
  int t = s->cur; auto &vc = s->th[t].vc;
  for (unsigned i = 0; i < n; ++i) {
    Shadow &sh = s->shadow[a + i];
    if (sh.wt >= 0 && sh.wt != t && vc[sh.wt] < sh.wc) violation(s, "data-race", std::string("data race: unsynchronised ") + (wr ? "write" : "read") + " after a write at " + objDesc(s, a));
    if (wr) {
      for (size_t k = 0; k < sh.rc.size(); ++k) if ((int)k != t && sh.rc[k] && vc[k] < sh.rc[k]) violation(s, "data-race", "data race: unsynchronised write after a read at " + objDesc(s, a));
      sh.wt = t; sh.wc = vc[t]; sh.rc.clear();
    } else { if (sh.rc.size() < s->th.size()) sh.rc.resize(s->th.size(), 0); sh.rc[t] = vc[t]; }
  }
}
static void raceClear(State *s, u64 a, u64 n) {
  if (s->th.size() < 2) return;
  s->shadow.erase(s->shadow.lower_bound(a), s->shadow.lower_bound(a + n));
}

// resolves the address to a live object of sufficient size; reports otherwise. off is symbolic or concrete.
static MemObj *resolve(State *s, const V &addr, u64 n, bool wr, V &off) {
  if (addr.isC()) {
    u64 a = addr.u();
    MemObj *o = findObj(s, a);
    if (!o || a + n > o->base + o->size || o->freed) {
      if (n == 0) { return nullptr; }
      violation(s, "memory", std::string(o && o->freed ? "use after free" : a < 4096 ? "null dereference" : "out of bounds") + (wr ? " write of " : " read of ") + std::to_string(n) + " bytes at " + objDesc(s, a));
    }
    if (wr && o->kind == KConstG) violation(s, "memory", "write to constant object " + objDesc(s, a));
    off = V(a - o->base, 64);
    return o;
  }
  u64 a = evalV(s, addr).getZExtValue();
  MemObj *o = findObj(s, a);
  if (!o || a + n > o->base + o->size || o->freed) {
    violation(s, "memory", std::string(o && o->freed ? "use after free" : a < 4096 ? "null dereference" : "out of bounds") + (wr ? " write of " : " read of ") + std::to_string(n) + " bytes at symbolic address, e.g. " + objDesc(s, a));
  }
  E d = mkBin(OSub, addr.e, mkConst(o->base, 64));
  E in = mkBin(OUle, d, mkConst(o->size - n, 64));
  State *other; forkCond(s, in, &other);
  if (other) gWork.push_back(other);
  if (wr && o->kind == KConstG) violation(s, "memory", "write to constant object " + objDesc(s, a));
  off = V::ofE(d);
  return o;
}

// table lookup at a symbolic offset
static E treeRead(std::vector<E> &leaf, E idx, unsigned bit, u64 lo) {
  // covers leaves [lo, lo + 2^bit)
  if (lo >= leaf.size()) return nullptr;
  if (bit == 0) return leaf[lo];
  E l = treeRead(leaf, idx, bit - 1, lo), h = treeRead(leaf, idx, bit - 1, lo + (1ull << (bit - 1)));
  if (!h || h == l) return l;
  return mkIte(mkExtract(idx, bit - 1, 1), h, l);
}
// an upper bound of the value (not above `cap`)
static u64 upperOf(E e, u64 cap = 1 << 16, int depth = 0) {
  u64 w = e->width >= 17 ? cap : std::min<u64>(cap, (1ull << e->width) - 1); if (depth > 8) return w;
  switch (e->op) {
  case OConst: return std::min<u64>(w, e->val.getLimitedValue(cap));
  case OZExt: return std::min(w, upperOf(e->a, cap, depth + 1));
  case OExtract: return e->aux == 0 ? std::min(w, upperOf(e->a, cap, depth + 1)) : w;
  case OURem: return e->b->isConst() && !e->b->val.isZero() ? std::min(w, std::min<u64>(e->b->val.getLimitedValue(cap + 1) - 1, upperOf(e->a, cap, depth + 1))) : w;
  case OUDiv: if (e->b->isConst() && !e->b->val.isZero()) { u64 u = upperOf(e->a, cap, depth + 1); return u < cap ? std::min(w, u / e->b->val.getLimitedValue(cap + 1)) : w; } return w;
  case OAnd: return std::min(w, std::min(upperOf(e->a, cap, depth + 1), upperOf(e->b, cap, depth + 1)));
  case OIte: return std::min(w, std::max(upperOf(e->b, cap, depth + 1), upperOf(e->c, cap, depth + 1)));
  default: return w;
  }
}
static V readSym(State *s, MemObj *o, E off, unsigned n, unsigned bits) {
  { // a small range of bytes: c + y with y <= u
    u64 c = 0; E y = off; if (off->op == OAdd && off->a->isConst()) { c = off->a->val.getZExtValue(); y = off->b; } u64 u = upperOf(y);
    if (u < 64 && c <= o->size && c + u + n <= o->size && u + 1 < o->size - n + 1) {
      std::vector<E> leaf(u + 1); bool affine = true;
      for (u64 i = 0; i <= u; ++i) { leaf[i] = readAt(s, o, c + i, n, bits).expr(); o = findObj(s, o->base); if (!leaf[i]->isConst() || leaf[i]->val != leaf[0]->val + i) affine = false; }
      if (affine) { E t = y->width >= bits ? mkExtract(y, 0, bits) : mkZExt(y, bits); return V::ofE(mkBin(OAdd, leaf[0], t)); }
      unsigned nb = 0; while ((1ull << nb) < leaf.size()) nb++;
      if (!nb) return V::ofE(leaf[0]);
      return V::ofE(treeRead(leaf, mkExtract(y, 0, nb), nb, 0));
    }
  }
  unsigned tz = 0;
  if (off->op == OConcat) { E l = off; while (l->op == OConcat) l = l->b; if (l->isConst()) tz = l->val.countr_zero(); }
  u64 stride = 1ull << tz;
  u64 cnt = (o->size - n) / stride + 1;
  if (cnt > 4096) unsupported(s, "symbolic read from a large object");
  E idx = mkExtract(off, tz, 64 - tz);
  std::vector<E> leaf(cnt);
  bool allc = true;
  for (u64 i = 0; i < cnt; ++i) { V v = readAt(s, o, i * stride, n, bits); o = findObj(s, o->base); leaf[i] = v.expr(); if (v.e) allc = false; }
  unsigned nb = 0; while ((1ull << nb) < cnt) nb++;
  if (allc && cnt == (1ull << nb) && nb >= 3) {
    // linear over GF(2)?  t[i] = t[0] ^ XOR_{b in i} (t[2^b]^t[0])
    bool lin = true;
    for (u64 i = 1; i < cnt && lin; ++i) { APInt x = leaf[0]->val; for (unsigned b = 0; b < nb; ++b) if (i >> b & 1) x ^= leaf[1ull << b]->val ^ leaf[0]->val; if (x != leaf[i]->val) lin = false; }
    if (lin) {
      E acc = leaf[0];
      for (unsigned b = 0; b < nb; ++b) acc = mkBin(OXor, acc, mkIte(mkExtract(idx, b, 1), mkConst(leaf[1ull << b]->val ^ leaf[0]->val), mkConst(0, bits)));
      return V::ofE(acc);
    }
  }
  E r = treeRead(leaf, idx, nb, 0);
  return V::ofE(r);
}
static void writeSym(State *s, MemObj *o, E off, unsigned n, const V &v) {
  unsigned tz = 0;
  if (off->op == OConcat) { E l = off; while (l->op == OConcat) l = l->b; if (l->isConst()) tz = l->val.countr_zero(); }
  u64 stride = 1ull << tz;
  u64 cnt = (o->size - n) / stride + 1;
  if (cnt > 1024) unsupported(s, "symbolic write to a large object");
  for (u64 i = 0; i < cnt; ++i) {
    E c = mkEq(off, mkConst(i * stride, 64));
    if (c->isConst() && c->val.isZero()) continue;
    V old = readAt(s, findObj(s, o->base), i * stride, n, n * 8);
    E nv = mkZExt(v.expr(), n * 8);
    writeAt(s, findObj(s, o->base), i * stride, n, V::ofE(mkIte(c, nv, old.expr())));
  }
}

static V loadTy(State *s, const V &addr, Type *t);
static void storeTy(State *s, const V &addr, Type *t, const V &v);
static V addOff(const V &a, u64 o) { if (o == 0) return a; if (a.isC()) return V(a.c + o); return V::ofE(mkBin(OAdd, a.e, mkConst(o, 64))); }

static V loadTy(State *s, const V &addr, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<V> r; auto *sl = gDL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) r.push_back(loadTy(s, addOff(addr, sl->getElementOffset(i)), st->getElementType(i))); return V::ofAgg(std::move(r)); }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    u64 cnt = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    if (t->isVectorTy() && widthOf(et) % 8) unsupported(s, "vector of sub-byte elements");
    u64 sz = gDL->getTypeAllocSize(et); std::vector<V> r;
    for (u64 i = 0; i < cnt; ++i) r.push_back(loadTy(s, addOff(addr, i * sz), et)); return V::ofAgg(std::move(r));
  }
  unsigned bits = widthOf(t), n = gDL->getTypeStoreSize(t).getFixedValue();
  V off; MemObj *o = resolve(s, addr, n, false, off);
  if (s->th.size() > 1 && addr.isC()) raceAccess(s, addr.u(), n, false);
  if (off.isC()) return readAt(s, o, off.u(), n, bits);
  return readSym(s, o, off.e, n, bits);
}
static void storeTy(State *s, const V &addr, Type *t, const V &v) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = gDL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, addOff(addr, sl->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]); return; }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    u64 sz = gDL->getTypeAllocSize(et);
    if (t->isVectorTy() && widthOf(et) % 8) unsupported(s, "vector of sub-byte elements");
    for (size_t i = 0; i < v.agg->size(); ++i) storeTy(s, addOff(addr, i * sz), et, (*v.agg)[i]); return;
  }
  unsigned n = gDL->getTypeStoreSize(t).getFixedValue();
  V off; MemObj *o = resolve(s, addr, n, true, off);
  if (s->th.size() > 1 && addr.isC()) raceAccess(s, addr.u(), n, true);
  if (off.isC()) writeAt(s, o, off.u(), n, v); else writeSym(s, o, off.e, n, v);
}
static u64 rdPtr(State *s, u64 a) { V v = loadTy(s, V(a, 64), PointerType::get(gCtx, 0)); if (v.e) return concretize(s, v).getZExtValue(); return v.u(); }

static void copyBytes(State *s, u64 dst, u64 src, u64 n) {
  if (n == 0) return;
  V o1, o2;
  MemObj *a = resolve(s, V(src, 64), n, false, o1);
  MemObj *b = resolve(s, V(dst, 64), n, true, o2);
  if (s->th.size() > 1) { raceAccess(s, src, n, false); raceAccess(s, dst, n, true); }
  u64 so = o1.u(), d = o2.u();
  std::vector<uint8_t> cb(a->c.begin() + so, a->c.begin() + so + n);
  std::vector<E> sb; std::vector<bool> ub;
  if (!a->s.empty()) sb.assign(a->s.begin() + so, a->s.begin() + so + n);
  if (!a->uninit.empty()) ub.assign(a->uninit.begin() + so, a->uninit.begin() + so + n);
  b = writable(s, b);
  memcpy(&b->c[d], cb.data(), n);
  bool anys = false; for (E e : sb) if (e) { anys = true; break; }
  if (anys || !b->s.empty()) {
    if (b->s.empty()) b->s.assign(b->size, nullptr);
    for (u64 i = 0; i < n; ++i) b->s[d + i] = sb.empty() ? nullptr : sb[i];
  }
  bool anyu = false; for (bool x : ub) if (x) { anyu = true; break; }
  if (anyu || !b->uninit.empty()) {
    if (b->uninit.empty()) b->uninit.assign(b->size, false);
    for (u64 i = 0; i < n; ++i) b->uninit[d + i] = ub.empty() ? false : (bool)ub[i];
  }
}
static void freeObj(State *s, u64 a, const char *what) {
  if (a == 0) return;
  auto it = s->mem.find(a);
  if (it == s->mem.end() || it->second->kind != KHeap) violation(s, "memory", std::string(what) + " of a pointer that is not a heap block: " + objDesc(s, a));
  if (it->second->freed) violation(s, "memory", std::string("double free (") + what + ") at " + objDesc(s, a));
  if (s->th.size() > 1) raceAccess(s, a, it->second->size, true);
  MemObj *o = writable(s, it->second.get());
  o->freed = true; o->c.clear(); o->s.clear(); o->uninit.clear(); o->c.shrink_to_fit();
  s->liveHeap--;
}
static std::string cstr(State *s, u64 a) {
  std::string r;
  for (;;) { MemObj *o = findObj(s, a); if (!o || o->freed) return r; u64 off = a - o->base; if (off >= o->size || (!o->s.empty() && o->s[off])) return r; char ch = o->c[off]; if (!ch) return r; r += ch; ++a; if (r.size() > 400) return r; }
}

// ------------------------------------------------------------------ execution helpers
static Frame &top(State *s) { return s->th[s->cur].st.back(); }
static const V &opv(State *s, const KInst &k, unsigned i) { int x = k.ops[i]; if (x >= 0) return top(s).regs[x]; return gConsts[-x - 1]; }
static void setReg(State *s, const KInst &k, V v) { if (k.dest >= 0) top(s).regs[k.dest] = std::move(v); }
static void jump(State *s, int bb) {
  Frame &f = top(s);
  f.prevbb = f.bb; f.bb = bb;
  f.pc = f.kf->blocks[bb].first;
  f.kf->covered[bb] = true;
  // phis
  std::vector<std::pair<int, V>> upd;
  BasicBlock *prev = f.kf->blocks[f.prevbb].bb;
  while (f.kf->insts[f.pc].opc == Instruction::PHI) {
    auto &k = f.kf->insts[f.pc];
    auto *phi = cast<PHINode>(k.I);
    int i = phi->getBasicBlockIndex(prev);
    upd.push_back({k.dest, opv(s, k, i)});
    f.pc++;
  }
  for (auto &u : upd) f.regs[u.first] = std::move(u.second);
}
static void pushFrame(State *s, Function *F, const std::vector<V> &args) {
  KFunc *kf = getKF(F);
  Frame f; f.kf = kf; f.regs.resize(kf->nregs);
  unsigned na = F->arg_size();
  for (unsigned i = 0; i < args.size(); ++i) { if (i < na) f.regs[i] = args[i]; else f.varargs.push_back(args[i]); }
  f.bb = 0; f.pc = 0; kf->covered[0] = true;
  if (s->th[s->cur].st.size() > 2000) violation(s, "stack", "stack overflow (recursion deeper than 2000 frames)");
  s->th[s->cur].st.push_back(std::move(f));
}
static void popFrame(State *s) {
  Frame &f = top(s);
  for (u64 a : f.allocas) { auto it = s->mem.find(a); if (it != s->mem.end()) { u64 sz = it->second->size; s->mem.erase(it); raceClear(s, a, sz); } }
  s->th[s->cur].st.pop_back();
}
static void advanceAfterCall(State *s) { // current frame's pc points at a call/invoke
  Frame &f = top(s);
  KInst &k = f.kf->insts[f.pc];
  if (k.opc == Instruction::Invoke) jump(s, k.succ0); else f.pc++;
}
static void callDone(State *s, V r) { Frame &f = top(s); KInst &k = f.kf->insts[f.pc]; if (k.dest >= 0) f.regs[k.dest] = std::move(r); advanceAfterCall(s); }

static Function *fn(const char *n) { Function *f = gM->getFunction(n); return f && !f->isDeclaration() ? f : nullptr; }

// ------------------------------------------------------------------ RTTI
static std::string tiKind(State *s, u64 ti) {
  u64 vp = rdPtr(s, ti);
  MemObj *o = findObj(s, vp >= 16 ? vp - 16 : vp);
  return o ? o->name : "";
}
static std::string tiName(State *s, u64 ti) { MemObj *o = findObj(s, ti); return o ? o->name : "?"; }
static bool tiSame(State *s, u64 a, u64 b) { return a == b || (tiName(s, a) == tiName(s, b)); }
// all (type, offset) subobjects
static void tiBases(State *s, u64 ti, u64 obj, std::vector<std::pair<u64, u64>> &out) {
  out.push_back({ti, obj});
  std::string k = tiKind(s, ti);
  if (k.find("__si_class_type_info") != std::string::npos) tiBases(s, rdPtr(s, ti + 16), obj, out);
  else if (k.find("__vmi_class_type_info") != std::string::npos) {
    u64 cnt = loadTy(s, V(ti + 20, 64), Type::getInt32Ty(gCtx)).u();
    for (u64 i = 0; i < cnt; ++i) {
      u64 b = rdPtr(s, ti + 24 + 16 * i); int64_t of = (int64_t)rdPtr(s, ti + 32 + 16 * i);
      int64_t off = of >> 8;
      if (of & 1) { if (!obj) { tiBases(s, b, 0, out); continue; } u64 vt = rdPtr(s, obj); off = (int64_t)rdPtr(s, vt + off); }
      tiBases(s, b, obj ? obj + off : 0, out);
    }
  }
}
static bool tiCatches(State *s, u64 thrown, u64 obj, u64 want, u64 &adj) {
  if (want == 0) { adj = obj; return true; }
  if (tiSame(s, thrown, want)) { adj = obj; return true; }
  std::vector<std::pair<u64, u64>> v; tiBases(s, thrown, obj, v);
  for (auto &p : v) if (tiSame(s, p.first, want)) { adj = p.second; return true; }
  return false;
}
static int typeId(u64 ti) { static std::map<u64, int> m; auto it = m.find(ti); if (it != m.end()) return it->second; int i = m.size() + 1; m[ti] = i; return i; }

static std::string exnName(State *s, u64 ex) { return demangle("_ZTS" + tiName(s, s->exns[ex].tinfo).substr(4)).c_str(); }

static void unwind(State *s, u64 ex) {
  Thread &t = s->th[s->cur];
  ExnInfo &xi = s->exns[ex];
  std::string here = whereOf(s);
  while (!t.st.empty()) {
    Frame &f = t.st.back();
    KInst &k = f.kf->insts[f.pc];
    if (k.opc == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(k.I)->getUnwindDest()->getLandingPadInst();
      bool hit = false; int sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !hit; ++i) {
        if (lp->isCatch(i)) {
          u64 want = constVal(lp->getClause(i)).u(), adj = 0;
          if (tiCatches(s, xi.tinfo, ex, want, adj)) { hit = true; sel = typeId(want); xi.adjusted = adj; }
        } else { hit = true; sel = -1; }
      }
      if (hit || lp->isCleanup()) {
        if (!hit) sel = 0;
        int ub = k.succ1;
        jump(s, ub);
        Frame &g = top(s);
        KInst &lk = g.kf->insts[g.pc];
        setReg(s, lk, V::ofAgg({V(ex, 64), V((u64)(int64_t)sel, 64).c.getBitWidth() == 64 ? V(APInt(32, (u64)(uint32_t)sel)) : V(0, 32)}));
        g.pc++;
        return;
      }
    }
    if (f.kf->nounwind) { violation(s, "terminate", "std::terminate: exception " + exnName(s, ex) + " leaves the noexcept function " + demangle(f.kf->F->getName().str())); }
    popFrame(s);
  }
  gCex.push_back({"uncaught", "uncaught exception " + exnName(s, ex), here, mkTrace(s)});
  if (gCex.size() >= gMaxCex) throw Stop();
  throw PathEnd();
}
static void releaseExn(State *s, u64 ex, bool viaCall) {
  // refs reached zero: destroy the exception object. Called while pc is at a call instruction when viaCall.
  auto &xi = s->exns[ex];
  u64 dt = xi.dtor;
  if (dt && gFuncAt.count(dt) && !gFuncAt[dt]->isDeclaration()) {
    if (viaCall) advanceAfterCall(s);
    pushFrame(s, gFuncAt[dt], {V(ex, 64)});
    top(s).freeOnReturn = ex; top(s).discardRet = true;
    return;
  }
  auto it = s->mem.find(ex); if (it != s->mem.end()) s->mem.erase(it);
  s->exns.erase(ex);
  if (viaCall) advanceAfterCall(s);
}

// ------------------------------------------------------------------ threads
static void vcJoin(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static bool runnable(State *s, int i) {
  Thread &t = s->th[i];
  switch (t.status) {
  case TRun: return true;
  case TMutex: { auto it = s->mutexes.find(t.waitOn); return it == s->mutexes.end() || it->second.owner < 0; }
  case TJoin: return s->th[t.waitOn].status == TDone;
  case TCond: return false;
  case TSpin: return !t.seenSet || s->progress - t.own > t.seen;
  default: return false;
  }
}
static void newInput(State *s, const std::string &n, const V &v) { s->inputs.push_back({n, v}); }
// Re-execution of a counterexample: the inputs and the schedule are those of a recorded trace, nothing is symbolic.
static std::vector<std::pair<std::string, std::string>> gFix;
static bool gFixed;
static APInt fixedNext(State *s, const std::string &n, unsigned w) {
  size_t k = s->inputs.size();
  if (k >= gFix.size() || gFix[k].first != n) { inconcl("the re-execution leaves the recorded trace"); throw PathEnd(); }
  return APInt(std::max<unsigned>(w, 4 * gFix[k].second.size()), gFix[k].second, 16).zextOrTrunc(w);
}
// A scheduling point: the choice of the next thread is a symbolic variable of the path.
// forced: the current thread cannot continue.
static void schedule(State *s, bool forced) {
  std::vector<int> r;
  for (int i = 0; i < (int)s->th.size(); ++i) if (runnable(s, i) && !(forced && i == s->cur && s->th[i].status != TRun && !runnable(s, i))) r.push_back(i);
  if (forced) { std::vector<int> q; for (int i : r) if (i != s->cur || runnable(s, i)) q.push_back(i); r = q; }
  // timed condition waiters may time out at any point
  for (int i = 0; i < (int)s->th.size(); ++i) if (s->th[i].status == TCond && s->th[i].timed) r.push_back(i);
  if (r.empty()) for (int i = 0; i < (int)s->th.size(); ++i) if (s->th[i].status == TSpin && ++s->th[i].idle < 40) r.push_back(i); // a busy wait that can only go on
  if (r.empty()) {
    bool alldone = true; for (auto &t : s->th) if (t.status != TDone) alldone = false;
    if (alldone) return;
    violation(s, "deadlock", "deadlock: every thread is blocked");
  }
  bool curOk = false; for (int i : r) if (i == s->cur) curOk = true;
  auto resume = [&](Thread &t) { if (t.status == TCond) { t.timedOut = true; t.status = TMutex; t.waitOn = t.waitMutex; } if (t.status == TSpin) { if (!t.seenSet || s->progress - t.own > t.seen) t.idle = 0; t.status = TRun; t.seenSet = false; } };
  if (curOk && s->preempt >= s->preemptMax && s->th[s->cur].status != TCond) { resume(s->th[s->cur]); return; }
  if (r.size() == 1) { if (r[0] != s->cur) { s->cur = r[0]; } }
  else if (gFixed) {
    int i = (int)fixedNext(s, "sched", 8).getZExtValue(), mine = curOk ? s->cur : r[0]; newInput(s, "sched", V(i, 8));
    bool in = false; for (int j : r) in |= j == i; if (!in) { inconcl("the re-execution leaves the recorded trace"); throw PathEnd(); }
    if (i != mine) { if (curOk) s->preempt++; s->lastWasSched = true; }
    s->cur = i;
  }
  else {
    int n = s->th.size();
    V v = V::ofE(mkVar("sched" + std::to_string(s->inputs.size()), 8));
    E ok = mkConst(0, 1);
    for (int i : r) ok = mkBin(OOr, ok, mkEq(v.e, mkConst(i, 8)));
    // satisfy in the current assignment
    auto na = std::make_shared<Assignment>(*s->asg); (*na)[v.e->aux] = APInt(8, curOk ? s->cur : r[0]); s->asg = na;
    addPC(s, ok);
    newInput(s, "sched", v);
    // one state per feasible choice
    int mine = curOk ? s->cur : r[0];
    for (int i : r) if (i != mine) {
      E c = mkEq(v.e, mkConst(i, 8));
      Assignment m; if (solveSlice(s->pc, c, m) != SatRes::Sat) continue;
      State *o = cloneState(s); mergeAsg(o, m); addPC(o, c);
      if (curOk) o->preempt++;
      o->cur = i; o->lastWasSched = true;
      Thread &t = o->th[i];
      resume(t);
      gWork.push_back(o);
    }
    addPC(s, mkEq(v.e, mkConst(mine, 8)));
    s->cur = mine;
    (void)n;
  }
  resume(s->th[s->cur]);
}
// returns true when the caller must return and re-execute (state switched)
static bool schedPoint(State *s) {
  if (s->th.size() < 2) return false;
  if (s->lastWasSched) { s->lastWasSched = false; return false; }
  int before = s->cur;
  s->lastWasSched = true;
  // the clone of the current thread must not re-schedule at the same point
  schedule(s, false);
  if (s->cur != before) { return true; }
  s->lastWasSched = false;
  return false;
}
static void vcTick(State *s) { auto &v = s->th[s->cur].vc; if (v.size() < s->th.size()) v.resize(s->th.size(), 0); v[s->cur]++; }
// The happens-before order that an atomic access establishes according to its memory order.
static void atomicSync(State *s, u64 a, bool ld, bool st, AtomicOrdering ord) {
  Thread &th = s->th[s->cur];
  if (ld && !th.seenSet) { th.seen = s->progress - th.own; th.seenSet = true; }
  if (st) { s->progress++; th.own++; }
  if (s->th.size() < 2) return;
  auto &v = s->avc[a]; auto &t = th.vc;
  if (ld) { if (isAcquireOrStronger(ord)) vcJoin(t, v); else vcJoin(th.pend, v); }
  if (st) {
    if (isReleaseOrStronger(ord)) { if (ld) vcJoin(v, t); else v = t; vcTick(s); }
    else { if (ld) vcJoin(v, th.rel); else v = th.rel; }
  }
}
static void atomicFence(State *s, AtomicOrdering ord) {
  Thread &th = s->th[s->cur];
  if (isAcquireOrStronger(ord)) vcJoin(th.vc, th.pend);
  if (isReleaseOrStronger(ord)) { th.rel = th.vc; vcTick(s); }
}

// ------------------------------------------------------------------ arithmetic
static V bin(Op op, const V &a, const V &b) {
  if (a.isC() && b.isC()) {
    switch (op) {
    case OAdd: return V(a.c + b.c);
    case OSub: return V(a.c - b.c);
    case OAnd: return V(a.c & b.c);
    case OOr: return V(a.c | b.c);
    case OXor: return V(a.c ^ b.c);
    case OMul: return V(a.c * b.c);
    case OEq: return V(a.c == b.c, 1);
    case OUlt: return V(a.c.ult(b.c), 1);
    case OUle: return V(a.c.ule(b.c), 1);
    case OSlt: return V(a.c.slt(b.c), 1);
    case OSle: return V(a.c.sle(b.c), 1);
    default: break;
    }
  }
  return V::ofE(mkBin(op, a.expr(), b.expr()));
}
static V notV(const V &a) { if (a.isC()) return V(a.c.isZero() ? 1 : 0, 1); return V::ofE(mkNot(a.e)); }
static V icmp(CmpInst::Predicate p, const V &a, const V &b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return bin(OEq, a, b);
  case CmpInst::ICMP_NE: return notV(bin(OEq, a, b));
  case CmpInst::ICMP_ULT: return bin(OUlt, a, b);
  case CmpInst::ICMP_ULE: return bin(OUle, a, b);
  case CmpInst::ICMP_UGT: return bin(OUlt, b, a);
  case CmpInst::ICMP_UGE: return bin(OUle, b, a);
  case CmpInst::ICMP_SLT: return bin(OSlt, a, b);
  case CmpInst::ICMP_SLE: return bin(OSle, a, b);
  case CmpInst::ICMP_SGT: return bin(OSlt, b, a);
  case CmpInst::ICMP_SGE: return bin(OSle, b, a);
  default: return V(0, 1);
  }
}
static E fcmpE(CmpInst::Predicate p, E a, E b, unsigned w, unsigned mant) {
  E m = mkConst(APInt::getLowBitsSet(w, w - 1));
  E inf = mkConst(APInt::getBitsSet(w, mant, w - 1));
  E aa = mkBin(OAnd, a, m), ab = mkBin(OAnd, b, m);
  E nan = mkBin(OOr, mkBin(OUlt, inf, aa), mkBin(OUlt, inf, ab));
  E z = mkConst(0, w);
  E bothz = mkBin(OAnd, mkEq(aa, z), mkEq(ab, z));
  E eq = mkBin(OOr, mkEq(a, b), bothz);
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E lt = mkBin(OAnd, mkNot(eq), mkIte(sa, mkIte(sb, mkBin(OUlt, ab, aa), mkConst(1, 1)), mkIte(sb, mkConst(0, 1), mkBin(OUlt, aa, ab))));
  E gt = mkBin(OAnd, mkNot(eq), mkNot(lt));
  E r;
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkConst(0, 1);
  case CmpInst::FCMP_TRUE: return mkConst(1, 1);
  case CmpInst::FCMP_ORD: return mkNot(nan);
  case CmpInst::FCMP_UNO: return nan;
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eq; break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(eq); break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = lt; break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkBin(OOr, lt, eq); break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = gt; break;
  default: r = mkBin(OOr, gt, eq); break;
  }
  bool ordered = p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_ONE || p == CmpInst::FCMP_OLT || p == CmpInst::FCMP_OLE || p == CmpInst::FCMP_OGT || p == CmpInst::FCMP_OGE;
  return ordered ? mkBin(OAnd, mkNot(nan), r) : mkBin(OOr, nan, r);
}
static APFloat toF(const V &v, Type *t) { return APFloat(t->getFltSemantics(), v.c); }

static std::function<void(State *, V)> gSpin;
#include "externals.inc"

static void doBranch(State *s, const V &c, int t, int f) {
  if (c.isC()) { jump(s, c.c.isZero() ? f : t); return; }
  State *o; bool v = forkCond(s, c.e, &o);
  if (o) { jump(o, v ? f : t); gWork.push_back(o); }
  jump(s, v ? t : f);
}

static V castOp(State *s, unsigned opc, const V &a, Type *st, Type *dt) {
  unsigned w = widthOf(dt);
  switch (opc) {
  case Instruction::ZExt: return a.isC() ? V(a.c.zext(w)) : V::ofE(mkZExt(a.e, w));
  case Instruction::SExt: return a.isC() ? V(a.c.sext(w)) : V::ofE(mkSExt(a.e, w));
  case Instruction::Trunc: return a.isC() ? V(a.c.trunc(w)) : V::ofE(mkExtract(a.e, 0, w));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (w == a.width()) return a;
    if (w < a.width()) return a.isC() ? V(a.c.trunc(w)) : V::ofE(mkExtract(a.e, 0, w));
    return a.isC() ? V(a.c.zext(w)) : V::ofE(mkZExt(a.e, w));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
  default: break;
  }
  if (!a.isC()) unsupported(s, "symbolic floating-point conversion");
  bool lossy;
  switch (opc) {
  case Instruction::FPExt: case Instruction::FPTrunc: { APFloat f = toF(a, st); f.convert(dt->getFltSemantics(), APFloat::rmNearestTiesToEven, &lossy); return V(f.bitcastToAPInt()); }
  case Instruction::UIToFP: case Instruction::SIToFP: { APFloat f(dt->getFltSemantics()); f.convertFromAPInt(a.c, opc == Instruction::SIToFP, APFloat::rmNearestTiesToEven); return V(f.bitcastToAPInt()); }
  case Instruction::FPToUI: case Instruction::FPToSI: { APFloat f = toF(a, st); APSInt r(w, opc == Instruction::FPToUI); f.convertToInteger(r, APFloat::rmTowardZero, &lossy); return V(APInt(r)); }
  }
  unsupported(s, "cast");
}

static V binInst(State *s, BinaryOperator *I, const V &a, const V &b) {
  unsigned w = a.width();
  auto guardDiv = [&]() {
    E z = mkEq(b.expr(), mkConst(0, w));
    State *o = nullptr; 
    if (z->isConst() ? !z->val.isZero() : forkCond(s, z, &o)) { if (o) gWork.push_back(o); violation(s, "division", "division by zero"); }
    if (o) { // o: b == 0
      State *sv = s; (void)sv; gCex.push_back({"division", "division by zero", whereOf(o), mkTrace(o)}); delete o; if (gCex.size() >= gMaxCex) throw Stop(); }
  };
  switch (I->getOpcode()) {
  case Instruction::Add: return bin(OAdd, a, b);
  case Instruction::Sub: return bin(OSub, a, b);
  case Instruction::Mul: return bin(OMul, a, b);
  case Instruction::UDiv: guardDiv(); return bin(OUDiv, a, b);
  case Instruction::SDiv: guardDiv(); return bin(OSDiv, a, b);
  case Instruction::URem: guardDiv(); return bin(OURem, a, b);
  case Instruction::SRem: guardDiv(); return bin(OSRem, a, b);
  case Instruction::And: return bin(OAnd, a, b);
  case Instruction::Or: return bin(OOr, a, b);
  case Instruction::Xor: return bin(OXor, a, b);
  case Instruction::Shl: return bin(OShl, a, b);
  case Instruction::LShr: return bin(OLShr, a, b);
  case Instruction::AShr: return bin(OAShr, a, b);
  default: break;
  }
  if (!a.isC() || !b.isC()) unsupported(s, "symbolic floating-point arithmetic");
  APFloat x = toF(a, I->getType()), y = toF(b, I->getType());
  switch (I->getOpcode()) {
  case Instruction::FAdd: x.add(y, APFloat::rmNearestTiesToEven); break;
  case Instruction::FSub: x.subtract(y, APFloat::rmNearestTiesToEven); break;
  case Instruction::FMul: x.multiply(y, APFloat::rmNearestTiesToEven); break;
  case Instruction::FDiv: x.divide(y, APFloat::rmNearestTiesToEven); break;
  default: unsupported(s, "frem");
  }
  return V(x.bitcastToAPInt());
}

static V mapVec(const V &a, const V &b, const std::function<V(const V &, const V &)> &f) {
  std::vector<V> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(f((*a.agg)[i], (*b.agg)[i])); return V::ofAgg(std::move(r));
}

static void step(State *s) {
  Frame &f = top(s);
  KInst &k = f.kf->insts[f.pc];
  s->steps++; gTotalSteps++;
  switch (k.opc) {
  case Instruction::Ret: {
    V rv; bool has = !k.ops.empty();
    if (has) rv = opv(s, k, 0);
    u64 fr = f.freeOnReturn; bool disc = f.discardRet;
    popFrame(s);
    if (fr) { auto it = s->mem.find(fr); if (it != s->mem.end()) s->mem.erase(it); s->exns.erase(fr); }
    Thread &t = s->th[s->cur];
    if (t.st.empty()) {
      t.status = TDone;
      if (s->cur == 0) { throw PathEnd(); }
      vcTick(s);
      schedule(s, true);
      return;
    }
    if (disc) return;
    Frame &c = top(s);
    KInst &ck = c.kf->insts[c.pc];
    if (ck.dest >= 0 && has) c.regs[ck.dest] = std::move(rv);
    advanceAfterCall(s);
    return;
  }
  case Instruction::Br: {
    if (k.succ1 < 0) { jump(s, k.succ0); return; }
    V c = opv(s, k, 0);
    doBranch(s, c, k.succ0, k.succ1);
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(k.I);
    V c = opv(s, k, 0);
    if (c.isC()) {
      int d = f.kf->bid[sw->getDefaultDest()];
      for (auto &cs : sw->cases()) if (cs.getCaseValue()->getValue() == c.c) { d = f.kf->bid[cs.getCaseSuccessor()]; break; }
      jump(s, d); return;
    }
    // group by successor
    std::map<int, E> g; E none = mkConst(1, 1);
    for (auto &cs : sw->cases()) {
      E q = mkEq(c.e, mkConst(cs.getCaseValue()->getValue()));
      int d = f.kf->bid[cs.getCaseSuccessor()];
      g[d] = g.count(d) ? mkBin(OOr, g[d], q) : q;
      none = mkBin(OAnd, none, mkNot(q));
    }
    int dd = f.kf->bid[sw->getDefaultDest()];
    g[dd] = g.count(dd) ? mkBin(OOr, g[dd], none) : none;
    std::vector<std::pair<int, E>> v(g.begin(), g.end());
    // find the one satisfied now, fork others
    newEvalEpoch();
    int mine = -1;
    for (size_t i = 0; i < v.size(); ++i) if (!evalExpr(v[i].second, *s->asg).isZero()) mine = i;
    for (size_t i = 0; i < v.size(); ++i) if ((int)i != mine) {
      Assignment m; SatRes r = solveSlice(s->pc, v[i].second, m);
      if (r == SatRes::Unknown) inconcl("solver gave no answer at switch " + whereOf(s));
      if (r == SatRes::Sat) { State *o = cloneState(s); mergeAsg(o, m); addPC(o, v[i].second); jump(o, v[i].first); gWork.push_back(o); }
    }
    addPC(s, v[mine].second); jump(s, v[mine].first);
    return;
  }
  case Instruction::Unreachable: violation(s, "unreachable", "execution reached an unreachable instruction (undefined behaviour)");
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(k.I);
    u64 n = concretize(s, opv(s, k, 0)).getZExtValue();
    u64 sz = gDL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue() * n;
    u64 a = allocObj(s, sz, KStack, "stack", ai->getAlign().value());
    s->mem[a]->name = "stack:" + ai->getName().str();
    top(s).allocas.push_back(a);
    setReg(s, k, V(a, 64));
    break;
  }
  case Instruction::Load: {
    auto *li = cast<LoadInst>(k.I);
    if (li->isAtomic()) { if (schedPoint(s)) return; V a = opv(s, k, 0); u64 ad = concretize(s, a).getZExtValue(); atomicSync(s, ad, true, false, li->getOrdering()); bool rd = gRaceDetect; gRaceDetect = false; V v; try { v = loadTy(s, V(ad, 64), li->getType()); } catch (...) { gRaceDetect = rd; throw; } gRaceDetect = rd; setReg(s, k, v); break; }
    V v = loadTy(s, opv(s, k, 0), li->getType());
    setReg(s, k, std::move(v));
    break;
  }
  case Instruction::Store: {
    auto *si = cast<StoreInst>(k.I);
    if (si->isAtomic()) { if (schedPoint(s)) return; u64 ad = concretize(s, opv(s, k, 1)).getZExtValue(); atomicSync(s, ad, false, true, si->getOrdering()); bool rd = gRaceDetect; gRaceDetect = false; try { storeTy(s, V(ad, 64), si->getValueOperand()->getType(), opv(s, k, 0)); } catch (...) { gRaceDetect = rd; throw; } gRaceDetect = rd; break; }
    storeTy(s, opv(s, k, 1), si->getValueOperand()->getType(), opv(s, k, 0));
    break;
  }
  case Instruction::Fence: if (schedPoint(s)) return; atomicFence(s, cast<FenceInst>(k.I)->getOrdering()); break;
  case Instruction::AtomicRMW: {
    if (schedPoint(s)) return;
    auto *rm = cast<AtomicRMWInst>(k.I);
    u64 ad = concretize(s, opv(s, k, 0)).getZExtValue();
    atomicSync(s, ad, true, true, rm->getOrdering());
    bool rd = gRaceDetect; gRaceDetect = false;
    V old = loadTy(s, V(ad, 64), rm->getType()), b = opv(s, k, 1), n;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg: n = b; break;
    case AtomicRMWInst::Add: n = bin(OAdd, old, b); break;
    case AtomicRMWInst::Sub: n = bin(OSub, old, b); break;
    case AtomicRMWInst::And: n = bin(OAnd, old, b); break;
    case AtomicRMWInst::Or: n = bin(OOr, old, b); break;
    case AtomicRMWInst::Xor: n = bin(OXor, old, b); break;
    default: gRaceDetect = rd; unsupported(s, "atomicrmw op");
    }
    storeTy(s, V(ad, 64), rm->getType(), n);
    gRaceDetect = rd;
    setReg(s, k, old);
    break;
  }
  case Instruction::AtomicCmpXchg: {
    if (schedPoint(s)) return;
    u64 ad = concretize(s, opv(s, k, 0)).getZExtValue();
    auto *cx = cast<AtomicCmpXchgInst>(k.I);
    bool rd = gRaceDetect; gRaceDetect = false;
    Type *t = cast<AtomicCmpXchgInst>(k.I)->getCompareOperand()->getType();
    V old = loadTy(s, V(ad, 64), t), eq = bin(OEq, old, opv(s, k, 1));
    if (eq.isC() && eq.c.isZero()) atomicSync(s, ad, true, false, cx->getFailureOrdering()); else atomicSync(s, ad, true, true, cx->getSuccessOrdering());
    V n = eq.isC() ? (eq.c.isZero() ? old : opv(s, k, 2)) : V::ofE(mkIte(eq.e, opv(s, k, 2).expr(), old.expr()));
    storeTy(s, V(ad, 64), t, n);
    gRaceDetect = rd;
    setReg(s, k, V::ofAgg({old, eq}));
    break;
  }
  case Instruction::GetElementPtr: {
    if (k.I->getType()->isVectorTy()) unsupported(s, "vector gep");
    V p = opv(s, k, 0);
    if (k.gepIdx.empty()) { setReg(s, k, addOff(p, k.gepOff)); break; }
    V acc = addOff(p, k.gepOff);
    for (auto &gi : k.gepIdx) {
      const V &ix = gi.first >= 0 ? f.regs[gi.first] : gConsts[-gi.first - 1];
      if (ix.isC()) { APInt m = ix.c.sextOrTrunc(64) * gi.second; acc = acc.isC() ? V(acc.c + m) : V::ofE(mkBin(OAdd, acc.e, mkConst(m))); }
      else { E x = ix.e->width < 64 ? mkSExt(ix.e, 64) : ix.e; E m = mkBin(OMul, mkConst(gi.second, 64), x); acc = V::ofE(mkBin(OAdd, acc.expr(), m)); }
    }
    setReg(s, k, acc);
    break;
  }
  case Instruction::ICmp: {
    auto p = cast<ICmpInst>(k.I)->getPredicate();
    const V &a = opv(s, k, 0), &b = opv(s, k, 1);
    if (a.isAgg()) { setReg(s, k, mapVec(a, b, [&](const V &x, const V &y) { return icmp(p, x, y); })); break; }
    setReg(s, k, icmp(p, a, b));
    break;
  }
  case Instruction::FCmp: {
    const V &a = opv(s, k, 0), &b = opv(s, k, 1);
    Type *t = k.I->getOperand(0)->getType();
    if (a.isAgg()) unsupported(s, "vector fcmp");
    unsigned mant = t->isFloatTy() ? 23 : t->isDoubleTy() ? 52 : 0;
    if (!mant) {
      if (a.isC() && b.isC()) { auto r = toF(a, t).compare(toF(b, t)); auto p = cast<FCmpInst>(k.I)->getPredicate(); bool lt = r == APFloat::cmpLessThan, eq = r == APFloat::cmpEqual, gt = r == APFloat::cmpGreaterThan, un = r == APFloat::cmpUnordered; bool v = ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un); setReg(s, k, V(v, 1)); break; }
      unsupported(s, "fcmp of wide type");
    }
    setReg(s, k, V::ofE(fcmpE(cast<FCmpInst>(k.I)->getPredicate(), a.expr(), b.expr(), a.width(), mant)));
    break;
  }
  case Instruction::FNeg: {
    const V &a = opv(s, k, 0); unsigned w = a.width();
    setReg(s, k, bin(OXor, a, V(APInt::getSignMask(w))));
    break;
  }
  case Instruction::Select: {
    V c = opv(s, k, 0);
    if (c.isAgg()) { std::vector<V> r; for (size_t i = 0; i < c.agg->size(); ++i) { V ci = (*c.agg)[i]; const V &x = (*opv(s, k, 1).agg)[i], &y = (*opv(s, k, 2).agg)[i]; r.push_back(ci.isC() ? (ci.c.isZero() ? y : x) : V::ofE(mkIte(ci.e, x.expr(), y.expr()))); } setReg(s, k, V::ofAgg(std::move(r))); break; }
    if (c.isC()) { setReg(s, k, opv(s, k, c.c.isZero() ? 2 : 1)); break; }
    const V &x = opv(s, k, 1), &y = opv(s, k, 2);
    if (x.isAgg() || k.I->getType()->isPointerTy()) {
      if (!x.isAgg() && x.isC() && y.isC() && x.c == y.c) { setReg(s, k, x); break; }
      State *o; bool v = forkCond(s, c.e, &o);
      if (o) { o->th[o->cur].st.back().regs[k.dest] = v ? y : x; o->th[o->cur].st.back().pc++; gWork.push_back(o); }
      setReg(s, k, v ? x : y);
      break;
    }
    setReg(s, k, V::ofE(mkIte(c.e, x.expr(), y.expr())));
    break;
  }
  case Instruction::PHI: unsupported(s, "phi in mid-block");
  case Instruction::ExtractValue: {
    auto *ev = cast<ExtractValueInst>(k.I);
    V v = opv(s, k, 0);
    for (unsigned i : ev->indices()) { V t = (*v.agg)[i]; v = t; }
    setReg(s, k, v);
    break;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(k.I);
    V v = opv(s, k, 0);
    std::function<V(V, unsigned)> ins = [&](V a, unsigned d) -> V {
      if (d == iv->getNumIndices()) return opv(s, k, 1);
      std::vector<V> w = *a.agg; unsigned i = iv->getIndices()[d]; w[i] = ins(w[i], d + 1); return V::ofAgg(std::move(w)); };
    setReg(s, k, ins(v, 0));
    break;
  }
  case Instruction::ExtractElement: { u64 i = concretize(s, opv(s, k, 1)).getZExtValue(); setReg(s, k, V((*opv(s, k, 0).agg)[i])); break; }
  case Instruction::InsertElement: { u64 i = concretize(s, opv(s, k, 2)).getZExtValue(); std::vector<V> w = *opv(s, k, 0).agg; w[i] = opv(s, k, 1); setReg(s, k, V::ofAgg(std::move(w))); break; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(k.I);
    const V &a = opv(s, k, 0), &b = opv(s, k, 1); std::vector<V> r; int n = a.agg->size();
    for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
    setReg(s, k, V::ofAgg(std::move(r)));
    break;
  }
  case Instruction::Freeze: setReg(s, k, opv(s, k, 0)); break;
  case Instruction::Call: case Instruction::Invoke: doCall(s, k); return;
  case Instruction::LandingPad: unsupported(s, "fallthrough to landingpad");
  case Instruction::Resume: {
    V v = opv(s, k, 0);
    u64 ex = (*v.agg)[0].u();
    // resume continues unwinding from this frame's caller
    if (top(s).kf->nounwind) violation(s, "terminate", "std::terminate: resume out of a noexcept function");
    popFrame(s);
    if (s->th[s->cur].st.empty()) { gCex.push_back({"uncaught", "uncaught exception " + exnName(s, ex), "", mkTrace(s)}); if (gCex.size() >= gMaxCex) throw Stop(); throw PathEnd(); }
    unwind(s, ex);
    return;
  }
  default:
    if (k.I->isCast()) {
      const V &a = opv(s, k, 0);
      Type *st = k.I->getOperand(0)->getType(), *dt = k.I->getType();
      if (st->isVectorTy() || dt->isVectorTy()) {
        if (k.opc == Instruction::BitCast) {
          // through a flat integer
          std::vector<V> el; if (a.isAgg()) el = *a.agg; else el = {a};
          E acc = nullptr; for (auto &x : el) acc = acc ? mkConcat(x.expr(), acc) : x.expr();
          if (auto *vt = dyn_cast<FixedVectorType>(dt)) { std::vector<V> r; unsigned w = widthOf(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(V::ofE(mkExtract(acc, i * w, w))); setReg(s, k, V::ofAgg(std::move(r))); }
          else setReg(s, k, V::ofE(acc));
          break;
        }
        std::vector<V> r; for (auto &x : *a.agg) r.push_back(castOp(s, k.opc, x, cast<VectorType>(st)->getElementType(), cast<VectorType>(dt)->getElementType())); setReg(s, k, V::ofAgg(std::move(r))); break;
      }
      setReg(s, k, castOp(s, k.opc, a, st, dt));
      break;
    }
    if (auto *bo = dyn_cast<BinaryOperator>(k.I)) {
      V a = opv(s, k, 0), b = opv(s, k, 1);
      if (a.isAgg()) { if (k.I->getType()->getScalarType()->isFloatingPointTy()) unsupported(s, "vector fp"); setReg(s, k, mapVec(a, b, [&](const V &x, const V &y) { return binInst(s, bo, x, y); })); break; }
      setReg(s, k, binInst(s, bo, a, b));
      break;
    }
    { std::string m; raw_string_ostream os(m); os << *k.I; unsupported(s, "instruction " + m); }
  }
  top(s).pc++;
}

static void finishPath(State *s) {
  gPaths++;
  gTracesSeen++;
  // reservoir sampling of completed paths for replay against the native build
  if ((int)gTraces.size() < gMaxTraces) gTraces.push_back(mkTrace(s));
  else { u64 j = gRng() % gTracesSeen; if (j < (u64)gMaxTraces) gTraces[j] = mkTrace(s); }
}

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string jt(const Trace &t) {
  std::string r = "{\"in\":[";
  for (size_t i = 0; i < t.in.size(); ++i) r += (i ? "," : "") + std::string("[") + js(t.in[i].first) + "," + js(t.in[i].second) + "]";
  r += "],\"obs\":[";
  for (size_t i = 0; i < t.obs.size(); ++i) r += (i ? "," : "") + std::string("[") + js(t.obs[i].first) + "," + js(t.obs[i].second) + "]";
  return r + "]}";
}

static int gArgc; static char **gArgv;
static std::string gEntry, gOut;

static void runAll(Function *entry) {
  State *s = new State();
  s->asg = std::make_shared<Assignment>();
  setupGlobals(s);
  s->th.resize(1);
  s->th[0].vc = {1};
  // static constructors
  std::vector<Function *> ctors;
  if (auto *gc = gM->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v;
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) ctors.push_back(p.second);
  }
  ctors.push_back(entry);
  for (size_t i = 0; i + 1 < ctors.size(); ++i) {
    pushFrame(s, ctors[i], {});
    try { while (true) { step(s); } } catch (PathEnd &) {}
    if (!gCex.empty() || !gInconclusive.empty()) { inconcl("static constructor failed"); return; }
    s->th[0].status = TRun;
  }
  s->steps = 0; s->heapMark = s->liveHeap;
  pushFrame(s, entry, {});
  gWork.push_back(s);
  u64 tick = 0;
  while (!gWork.empty()) {
    State *c = gWork.back(); gWork.pop_back();
    bool done = false;
    try {
      while (true) {
        step(c);
        if ((++tick & 0x3fff) == 0) {
          if (elapsed() > gTimeLimit) { inconcl("time limit"); throw Stop(); }
          struct rusage ru; getrusage(RUSAGE_SELF, &ru);
          if ((u64)ru.ru_maxrss / 1024 > gMaxMemMB) { inconcl("memory limit"); throw Stop(); }
        }
        if (c->steps > gMaxSteps) violation(c, "nontermination", "no termination within " + std::to_string(gMaxSteps) + " instructions on one path");
      }
    } catch (PathEnd &) {
      if (c->th[0].status == TDone) { done = true; }
    } catch (Stop &) { delete c; return; }
    if (done) finishPath(c);
    delete c;
    if (gPaths >= gMaxPaths) { inconcl("path limit"); return; }
    if (!gInconclusive.empty() && gInconclusive.rfind("unsupported", 0) == 0) return;
  }
}

static void *mainThread(void *) {
  SMDiagnostic err;
  gM = parseIRFile(gArgv[1], err, gCtx);
  if (!gM) { err.print("symex", errs()); exit(3); }
  gDL = &gM->getDataLayout();
  Function *entry = gM->getFunction(gEntry);
  if (!entry) { fprintf(stderr, "no entry %s\n", gEntry.c_str()); exit(3); }
  initExternals();
  gT0 = std::chrono::steady_clock::now();
  runAll(entry);
  double el = elapsed();
  // functions covered (by debug-info subprogram so that inlined functions are named)
  std::map<std::string, std::string> fns;
  u64 nblocks = 0;
  for (auto &p : gKF) {
    for (auto &b : p.second->blocks) if (p.second->covered[b.id]) {
      nblocks++;
      for (auto &I : *b.bb) for (const DILocation *dl = I.getDebugLoc(); dl; dl = dl->getInlinedAt()) {
        auto *sp = dl->getScope()->getSubprogram();
        if (sp) { std::string n = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str(); fns[n] = sp->getFilename().str(); }
      }
    }
  }
  std::ofstream o(gOut);
  o << "{\"entry\":" << js(gEntry) << ",\"paths\":" << gPaths << ",\"steps\":" << gTotalSteps << ",\"forks\":" << gForks << ",\"asserts\":" << gAsserts
    << ",\"assume_pruned\":" << gAssumeDead << ",\"blocks\":" << nblocks
    << ",\"queries\":" << gSolverStats.queries << ",\"sat\":" << gSolverStats.sat << ",\"unsat\":" << gSolverStats.unsat << ",\"unknown\":" << gSolverStats.unknown
    << ",\"z3_fallbacks\":" << gSolverStats.z3 << ",\"order_refuted\":" << gSolverStats.order << ",\"linear\":" << gSolverStats.linear << ",\"arith\":" << gSolverStats.arith << ",\"crosschecked\":" << gSolverStats.cross << ",\"disagreements\":" << gSolverStats.disagree << ",\"cache_hits\":" << gSolverStats.cacheHits << ",\"model_hits\":" << gSolverStats.modelHits
    << ",\"solver_s\":" << gSolverStats.seconds << ",\"max_query_s\":" << gSolverStats.maxQuery << ",\"wall_s\":" << el << ",\"exprs\":" << exprCount();
  o << ",\"inconclusive\":" << js(gInconclusive);
  o << ",\"reached\":["; { bool f = true; for (auto &r : gReached) { o << (f ? "" : ",") << js(r); f = false; } } o << "]";
  o << ",\"functions\":["; { bool f = true; for (auto &p : fns) if (p.second.find("/repo/") != std::string::npos) { o << (f ? "" : ",") << "[" << js(demangle(p.first)) << "," << js(p.second) << "]"; f = false; } } o << "]";
  o << ",\"cex\":["; for (size_t i = 0; i < gCex.size(); ++i) o << (i ? "," : "") << "{\"kind\":" << js(gCex[i].kind) << ",\"msg\":" << js(gCex[i].msg) << ",\"where\":" << js(gCex[i].where) << ",\"trace\":" << jt(gCex[i].t) << "}"; o << "]";
  o << ",\"traces\":["; for (size_t i = 0; i < gTraces.size(); ++i) o << (i ? "," : "") << jt(gTraces[i]); o << "]}";
  o.close();
  if (gVerbose) {
    printf("%s: paths %llu steps %llu forks %llu queries %llu (sat %llu unsat %llu unk %llu) solver %.1fs wall %.1fs cex %zu %s\n", gEntry.c_str(), (unsigned long long)gPaths, (unsigned long long)gTotalSteps, (unsigned long long)gForks, (unsigned long long)gSolverStats.queries, (unsigned long long)gSolverStats.sat, (unsigned long long)gSolverStats.unsat, (unsigned long long)gSolverStats.unknown, gSolverStats.seconds, el, gCex.size(), gInconclusive.c_str());
    for (auto &c : gCex) { printf("CEX [%s] %s\n%s", c.kind.c_str(), c.msg.c_str(), c.where.c_str()); for (auto &i : c.t.in) printf("  %s=%s", i.first.c_str(), i.second.c_str()); printf("\n"); }
    printf("reached:"); for (auto &r : gReached) printf(" %s", r.c_str()); printf("\n");
  }
  fflush(stdout);
  _exit(gCex.empty() ? (gInconclusive.empty() ? 0 : 2) : 1);
}

int main(int argc, char **argv) {
  intStart();
  gArgc = argc; gArgv = argv;
  unsigned qt = 120000;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return a.substr(a.find('=') + 1); };
    if (a.rfind("--entry=", 0) == 0) gEntry = val();
    else if (a.rfind("--out=", 0) == 0) gOut = val();
    else if (a.rfind("--time=", 0) == 0) gTimeLimit = atof(val().c_str());
    else if (a.rfind("--qtimeout=", 0) == 0) qt = atoi(val().c_str());
    else if (a.rfind("--max-steps=", 0) == 0) gMaxSteps = strtoull(val().c_str(), 0, 10);
    else if (a.rfind("--max-paths=", 0) == 0) gMaxPaths = strtoull(val().c_str(), 0, 10);
    else if (a.rfind("--max-mem=", 0) == 0) gMaxMemMB = strtoull(val().c_str(), 0, 10);
    else if (a.rfind("--traces=", 0) == 0) gMaxTraces = atoi(val().c_str());
    else if (a.rfind("--cex=", 0) == 0) gMaxCex = atoi(val().c_str());
    else if (a.rfind("--shard=", 0) == 0) { std::string v = val(); gShard = strtoull(v.c_str(), 0, 10); gShards = strtoull(v.c_str() + v.find('/') + 1, 0, 10); }
    else if (a.rfind("--seed=", 0) == 0) gRng.seed(strtoull(val().c_str(), 0, 10));
    else if (a.rfind("--fix=", 0) == 0) { gFixed = true; FILE *f = fopen(val().c_str(), "r"); if (!f) return 3; char l[4096]; while (fgets(l, sizeof l, f)) { if (l[0] == '#') continue; std::string x(l); while (!x.empty() && isspace(x.back())) x.pop_back(); size_t q = x.rfind(' '); if (q != std::string::npos) gFix.push_back({x.substr(0, q), x.substr(q + 1)}); } fclose(f); }
    else if (a == "-v") gVerbose = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  solverInit(qt, nullptr);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 31);
  pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("thread"); return 3; }
  pthread_join(t, nullptr);
  return 3;
}
