// symx: a bounded symbolic executor for LLVM bitcode, written for checking libsml.
// Every path of the program over its symbolic bytes is executed; the feasibility of each
// branch and the validity of each assertion is decided by an SMT solver.
#include "solver.h"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <cmath>
#include <csignal>
#include <sys/resource.h>
#include <thread>
#include <pthread.h>

using namespace symx;
namespace L = llvm;

typedef uint32_t u32t;

struct Val { u64t c = 0; E e = nullptr; };
static inline Val C(u64t v) { Val x; x.c = v; return x; }

// ---------------------------------------------------------------- memory
struct Obj {
  int rc = 1; u64t size = 0; bool alive = true; bool ro = false; uint8_t kind = 0; // 1 global 2 heap 3 stack
  u32t nUninit = 0, nSym = 0;
  std::vector<uint8_t> data; std::vector<E> sym; std::vector<uint8_t> uninit; const char *site = "";
  Obj(u64t n, bool init) : size(n), data(n, 0) { if (!init) { uninit.assign(n, 1); nUninit = n; } }
  Obj(const Obj &o) = default;
};
struct ORef {
  Obj *p = nullptr;
  ORef() {}
  explicit ORef(Obj *q) : p(q) {}
  ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
  ORef(ORef &&o) : p(o.p) { o.p = nullptr; }
  ORef &operator=(ORef o) { std::swap(p, o.p); return *this; }
  ~ORef() { if (p && --p->rc == 0) delete p; }
  Obj *rw() { if (p->rc > 1) { Obj *n = new Obj(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

enum { R_GLOBAL = 1, R_HEAP = 2, R_STACK = 3, R_FUNC = 4 };
static inline u64t addrOf(int region, u32t id) { return ((u64t)region << 60) | ((u64t)(id + 1) << 32) | 0x80000000ull; }
static inline int regionOf(u64t a) { return (int)(a >> 60); }
static inline u32t idOf(u64t a) { return (u32t)((a >> 32) & 0x0fffffff) - 1; }
static inline int64_t offOf(u64t a) { return (int64_t)(a & 0xffffffffull) - 0x80000000ll; }

// ---------------------------------------------------------------- lowered code
struct Opnd { int reg = -1; u64t c = 0; bool undef = false; };
enum Opc : uint8_t {
  O_BIN, O_ICMP, O_FCMP, O_CAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_SELECT, O_UNREACH, O_COPY, O_FNEG, O_UNSUP
};
struct Edge { int target; std::vector<std::pair<int, Opnd>> copies; u32t blk; };
struct GepIdx { Opnd o; int w; int64_t scale; };
struct Func;
struct Leaf { int off; int w; };
struct Op {
  Opc opc; uint8_t w = 0, w2 = 0; int sub = 0; int dst = -1;
  Opnd a, b, c;
  int e0 = -1, e1 = -1;
  std::vector<GepIdx> idx; int64_t k = 0;
  std::vector<std::pair<u64t, int>> cases; // switch value -> edge
  std::vector<std::vector<Opnd>> args; std::vector<std::vector<Leaf>> argLeaves; std::vector<u64t> byval;
  std::vector<Leaf> leaves; std::vector<Opnd> many; // aggregates
  Func *callee = nullptr; const L::Function *ext = nullptr; int builtin = 0;
  const char *file = ""; int line = 0; int covId = -1;
};
struct Func { std::string name; const L::Function *lf; std::vector<Op> ops; std::vector<Edge> edges; int nregs = 0; std::vector<int> argReg; std::vector<int> argN; bool lowered = false; u64t addr; bool covered = false; bool vararg = false; bool isLib = false; u64t calls = 0; };

struct Frame { Func *f; int pc; std::vector<Val> regs; u32t stackBase; int retDst; std::vector<Val> va; u64t used = 0; };

struct State {
  std::vector<Frame> fr;
  std::vector<ORef> glob, heap, stk;
  std::vector<E> cons;
  std::unordered_map<E, u64t> eqmap;
  std::unordered_map<u32t, Dom> dom;
  std::vector<uint8_t> model; std::unordered_map<u32t, bool> fixed;
  u32t nextSym = 0;
  std::vector<Val> notes;
  u64t steps = 0, stackUsed = 0; long heapLive = 0; u64t heapBytes = 0; int depthForks = 0;
  std::vector<const char *> marks;
  std::vector<std::pair<std::string, std::pair<u32t, u32t>>> symNames;
  u64t errnoAddr = 0;
};

struct PathEnd { };          // path finished normally
struct PathKill { std::string why; }; // infeasible
struct PathErr { std::string kind, msg; };
struct Refork { };           // the state was forked, re-execute the instruction
struct Unsupported { std::string what; };

struct ErrRec { std::string kind, msg, file; int line; std::string stack; std::vector<uint8_t> input; std::vector<std::pair<std::string, std::pair<u32t, u32t>>> names; u64t count; };

static L::LLVMContext LCtx;
struct Engine {
  std::unique_ptr<L::Module> M; const L::DataLayout *DL;
  ExprDB db; Solver sv{db};
  std::map<const L::Function *, Func *> funcs; std::vector<Func *> funcByIx;
  std::unordered_map<const L::GlobalVariable *, u64t> gaddr;
  std::vector<ORef> initGlob;
  std::vector<State *> work; State *cur = nullptr;
  std::vector<u32t> uninitVars; u32t nextUninit = UNINIT_BASE;
  // limits
  std::map<std::string, long long> params;
  int endless = 0; double maxTime = 600; u64t maxMemMB = 3000; bool memUp = false; u64t maxSteps = 20000000, maxPaths = ~0ull; int maxErrors = 3, nSamples = 50; u64t maxConcretize = 70000; u64t maxAlloc = 1ull << 28; int maxDepth = 300000;
  // stats
  u64t paths = 0, killed = 0, forks = 0, totalSteps = 0, asserts = 0, assertQ = 0, assertTrivial = 0, branchSym = 0, maxPathSteps = 0, concretized = 0, incomplete = 0; u32t maxSym = 0;
  std::map<std::string, u64t> marks; std::map<std::string, u64t> assertSites;
  std::map<std::string, ErrRec> errs; std::string unsupported; bool timeUp = false;
  std::vector<std::pair<std::vector<uint8_t>, std::vector<u64t>>> samples; u64t rng = 88172645463325252ull;
  std::chrono::steady_clock::time_point t0;
  std::string libPrefix;
  std::set<std::pair<const char*, int>> lineCov;
  u64t condSeen = 0; std::unordered_map<const Op *, int> brCov;

  double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ------------------------------------------------------------ lowering
  std::map<const L::Value *, int> *curRegs; Func *curF;
  static int widthOf(L::Type *t, const L::DataLayout &dl) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  void leavesOf(L::Type *t, int off, std::vector<Leaf> &out) {
    if (auto st = L::dyn_cast<L::StructType>(t)) {
      auto sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + (int)(uint64_t)sl->getElementOffset(i), out);
    } else if (auto at = L::dyn_cast<L::ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * DL->getTypeAllocSize(at->getElementType()), out);
    } else out.push_back({off, widthOf(t, *DL)});
  }
  u64t constInt(const L::Constant *c, bool &undef) {
    undef = false;
    if (auto ci = L::dyn_cast<L::ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide constant"}; return ci->getZExtValue(); }
    if (auto cf = L::dyn_cast<L::ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (L::isa<L::ConstantPointerNull>(c)) return 0;
    if (L::isa<L::UndefValue>(c)) { undef = true; return 0; }
    if (auto gv = L::dyn_cast<L::GlobalVariable>(c)) return globalAddr(gv);
    if (auto fn = L::dyn_cast<L::Function>(c)) return getFunc(fn)->addr;
    if (auto ga = L::dyn_cast<L::GlobalAlias>(c)) return constInt(ga->getAliasee(), undef);
    if (auto ce = L::dyn_cast<L::ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case L::Instruction::GetElementPtr: {
        auto g = L::cast<L::GEPOperator>(ce); L::APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return constInt(L::cast<L::Constant>(g->getPointerOperand()), undef) + off.getSExtValue();
      }
      case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::ZExt:
        return constInt(ce->getOperand(0), undef);
      case L::Instruction::Trunc: return constInt(ce->getOperand(0), undef) & ExprDB::mask(ce->getType()->getIntegerBitWidth());
      case L::Instruction::Add: { bool u; return constInt(ce->getOperand(0), undef) + constInt(ce->getOperand(1), u); }
      case L::Instruction::Sub: { bool u; return constInt(ce->getOperand(0), undef) - constInt(ce->getOperand(1), u); }
      default: throw Unsupported{"constant expression"};
      }
    }
    throw Unsupported{"constant"};
  }
  u64t globalAddr(const L::GlobalVariable *g) {
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    u64t sz = g->getValueType()->isSized() ? (u64t)DL->getTypeAllocSize(g->getValueType()) : 8;
    u32t id = initGlob.size(); u64t a = addrOf(R_GLOBAL, id); gaddr[g] = a;
    Obj *o = new Obj(sz, true); o->kind = R_GLOBAL; o->site = strdup(g->getName().str().c_str());
    initGlob.push_back(ORef(o));
    if (g->hasInitializer()) { writeConst(id, 0, g->getInitializer()); initGlob[id].p->ro = g->isConstant(); }
    return a;
  }
  void writeConst(u32t id, u64t off, const L::Constant *c) {
    auto put = [&](u64t v, int n) { auto &d = initGlob[id].p->data; for (int i = 0; i < n; i++) d[off + i] = v >> (8 * i); };
    if (L::isa<L::ConstantAggregateZero>(c) || L::isa<L::UndefValue>(c)) return;
    if (auto cd = L::dyn_cast<L::ConstantDataSequential>(c)) {
      auto s = cd->getRawDataValues(); memcpy(initGlob[id].p->data.data() + off, s.data(), s.size()); return;
    }
    if (auto ca = L::dyn_cast<L::ConstantArray>(c)) {
      u64t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(id, off + i * es, ca->getOperand(i));
      return;
    }
    if (auto cs = L::dyn_cast<L::ConstantStruct>(c)) {
      auto sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(id, off + (uint64_t)sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    bool u; u64t v = constInt(c, u); put(v, DL->getTypeStoreSize(c->getType()));
  }
  Func *getFunc(const L::Function *f) {
    auto it = funcs.find(f); if (it != funcs.end()) return it->second;
    Func *n = new Func(); n->name = f->getName().str(); n->lf = f; n->addr = addrOf(R_FUNC, funcByIx.size()); n->vararg = f->isVarArg();
    if (auto sp = f->getSubprogram()) n->isLib = !libPrefix.empty() && (sp->getDirectory().str() + "/" + sp->getFilename().str()).find(libPrefix) != std::string::npos;
    funcs[f] = n; funcByIx.push_back(n); return n;
  }
  Opnd opnd(const L::Value *v) {
    Opnd o;
    if (auto c = L::dyn_cast<L::Constant>(v)) { o.c = constInt(c, o.undef); int w = widthOf(v->getType(), *DL); if (w) o.c &= ExprDB::mask(w); return o; }
    auto it = curRegs->find(v); if (it == curRegs->end()) throw Unsupported{"operand"};
    o.reg = it->second; return o;
  }
  std::vector<Opnd> opnds(const L::Value *v, std::vector<Leaf> &lv) {
    lv.clear(); leavesOf(v->getType(), 0, lv);
    std::vector<Opnd> r;
    if (auto c = L::dyn_cast<L::Constant>(v)) {
      if (v->getType()->isAggregateType()) flattenConst(c, r);
      else r.push_back(opnd(v));
    } else { int b = curRegs->at(v); for (size_t i = 0; i < lv.size(); i++) { Opnd o; o.reg = b + (int)i; r.push_back(o); } }
    return r;
  }
  void flattenConst(const L::Constant *c, std::vector<Opnd> &r) {
    if (c->getType()->isAggregateType()) {
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) flattenConst(c->getAggregateElement(i), r);
    } else r.push_back(opnd(c));
  }
  std::set<std::string> pool;
  const char *intern(const std::string &s) { return pool.insert(s).first->c_str(); }

  enum Builtin { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STDIO, B_EXIT, B_ABORT, B_ERRNO, B_ASSERTFAIL,
    B_MKSYM, B_ASSUME, B_ASSERT, B_MARK, B_CONCR, B_HEAPLIVE, B_HEAPBYTES, B_NOTE, B_NOP, B_VASTART, B_VACOPY, B_STACKSAVE, B_STACKRESTORE, B_POW, B_BSWAP, B_EXPECT, B_MATH1, B_FAILED, B_PUTS, B_ABS, B_MINMAX, B_CTPOP, B_FSH, B_UADDSAT, B_NATIVE, B_PARAM, B_OVF, B_WRITABLE, B_CLZ, B_BITREV, B_FABS, B_SAT, B_OBJSIZE };
  int builtinOf(const std::string &n) {
    static const std::map<std::string, int> m = {
      {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
      {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"printf", B_STDIO}, {"fprintf", B_STDIO}, {"vfprintf", B_STDIO}, {"vprintf", B_STDIO}, {"puts", B_STDIO}, {"putchar", B_STDIO}, {"fputc", B_STDIO}, {"fputs", B_STDIO}, {"putc", B_STDIO},
      {"fflush", B_STDIO}, {"fwrite", B_STDIO}, {"perror", B_STDIO}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"abort", B_ABORT}, {"__errno_location", B_ERRNO}, {"__assert_fail", B_ASSERTFAIL},
      {"symx_make_symbolic", B_MKSYM}, {"symx_assume", B_ASSUME}, {"symx_assert", B_ASSERT}, {"symx_mark", B_MARK}, {"symx_concretize", B_CONCR}, {"symx_heap_live", B_HEAPLIVE}, {"symx_heap_bytes", B_HEAPBYTES},
      {"symx_note", B_NOTE}, {"symx_is_native", B_NATIVE}, {"symx_param", B_PARAM}, {"symx_path_end", B_EXIT}, {"pow", B_POW}};
    auto it = m.find(n); if (it != m.end()) return it->second;
    auto st = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (st("llvm.memcpy")) return B_MEMCPY;
    if (st("llvm.memmove")) return B_MEMMOVE;
    if (st("llvm.memset")) return B_MEMSET;
    if (st("llvm.lifetime") || st("llvm.dbg") || st("llvm.va_end") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.invariant")) return B_NOP;
    if (st("llvm.va_start")) return B_VASTART;
    if (st("llvm.va_copy")) return B_VACOPY;
    if (st("llvm.stacksave")) return B_STACKSAVE;
    if (st("llvm.stackrestore")) return B_STACKRESTORE;
    if (st("llvm.bswap")) return B_BSWAP;
    if (st("llvm.expect")) return B_EXPECT;
    if (st("llvm.abs")) return B_ABS;
    if (st("llvm.ctpop")) return B_CTPOP;
    if (st("llvm.fshl") || st("llvm.fshr")) return B_FSH;
    for (const char *x : {"llvm.uadd.with", "llvm.usub.with", "llvm.umul.with", "llvm.sadd.with", "llvm.ssub.with", "llvm.smul.with"}) if (st(x)) return B_OVF;
    if (st("llvm.ctlz") || st("llvm.cttz")) return B_CLZ;
    if (st("llvm.bitreverse")) return B_BITREV;
    if (st("llvm.fabs.f64")) return B_FABS;
    if (st("llvm.uadd.sat") || st("llvm.usub.sat")) return B_SAT;
    if (st("llvm.objectsize") || st("llvm.is.constant")) return B_OBJSIZE;
    if (st("llvm.prefetch") || st("llvm.donothing")) return B_NOP;
    if (st("llvm.umax") || st("llvm.umin") || st("llvm.smax") || st("llvm.smin")) return B_MINMAX;
    if (st("llvm.trap") || st("llvm.ubsantrap")) return B_ABORT;
    return B_NONE;
  }

  void lower(Func *F) {
    F->lowered = true;
    const L::Function &f = *F->lf;
    std::map<const L::Value *, int> regs; curRegs = &regs; curF = F; int n = 0;
    auto alloc = [&](const L::Value *v) { std::vector<Leaf> lv; leavesOf(v->getType(), 0, lv); regs[v] = n; n += (int)lv.size(); return (int)lv.size(); };
    for (auto &a : f.args()) { F->argReg.push_back(n); F->argN.push_back(alloc(&a)); }
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) alloc(&i);
    F->nregs = n;
    std::map<const L::BasicBlock *, int> start; std::vector<std::pair<int, std::pair<const L::BasicBlock *, const L::BasicBlock *>>> fix;
    auto edge = [&](const L::BasicBlock *from, const L::BasicBlock *to) { Edge e; e.target = -1; F->edges.push_back(e); fix.push_back({(int)F->edges.size() - 1, {from, to}}); return (int)F->edges.size() - 1; };
    for (auto &b : f) {
      start[&b] = F->ops.size();
      for (auto &i : b) {
        if (L::isa<L::PHINode>(i) || L::isa<L::DbgInfoIntrinsic>(i)) continue;
        Op o; o.opc = O_UNSUP;
        if (auto &dl = i.getDebugLoc()) { o.line = dl.getLine(); if (auto *sc = L::dyn_cast_or_null<L::DIScope>(dl.getScope())) o.file = intern(sc->getFilename().str()); }
        auto it = regs.find(&i); if (it != regs.end()) o.dst = it->second;
        try { lowerInst(i, o, edge); } catch (Unsupported &u) { o.opc = O_UNSUP; o.file = intern(u.what); }
        F->ops.push_back(std::move(o));
      }
    }
    for (auto &x : fix) {
      Edge &e = F->edges[x.first]; e.target = start[x.second.second];
      for (auto &i : *x.second.second) {
        auto ph = L::dyn_cast<L::PHINode>(&i); if (!ph) break;
        std::vector<Leaf> lv; auto os = opnds(ph->getIncomingValueForBlock(x.second.first), lv); int d = regs[ph];
        for (size_t k = 0; k < os.size(); k++) e.copies.push_back({d + (int)k, os[k]});
      }
    }
  }
  template <class EF> void lowerInst(const L::Instruction &i, Op &o, EF edge) {
    using I = L::Instruction;
    int w = widthOf(i.getType(), *DL);
    if (w > 64) throw Unsupported{"wide integer"};
    o.w = w;
    unsigned op = i.getOpcode();
    if (i.isBinaryOp()) { o.opc = O_BIN; o.sub = op; o.a = opnd(i.getOperand(0)); o.b = opnd(i.getOperand(1)); if (!w) throw Unsupported{"binop type"}; return; }
    if (auto ci = L::dyn_cast<L::ICmpInst>(&i)) { o.opc = O_ICMP; o.sub = ci->getPredicate(); o.w2 = widthOf(ci->getOperand(0)->getType(), *DL); if (!o.w2) throw Unsupported{"icmp"}; o.a = opnd(ci->getOperand(0)); o.b = opnd(ci->getOperand(1)); return; }
    if (auto ci = L::dyn_cast<L::FCmpInst>(&i)) { o.opc = O_FCMP; o.sub = ci->getPredicate(); if (!ci->getOperand(0)->getType()->isDoubleTy()) throw Unsupported{"fcmp"}; o.a = opnd(ci->getOperand(0)); o.b = opnd(ci->getOperand(1)); return; }
    if (i.isCast()) {
      o.opc = O_CAST; o.sub = op; o.w2 = widthOf(i.getOperand(0)->getType(), *DL); o.a = opnd(i.getOperand(0));
      if (!w || !o.w2) throw Unsupported{"cast type"};
      return;
    }
    switch (op) {
    case I::FNeg: o.opc = O_FNEG; o.a = opnd(i.getOperand(0)); return;
    case I::Freeze: o.opc = O_COPY; o.many = opnds(i.getOperand(0), o.leaves); return;
    case I::Load: {
      auto &l = L::cast<L::LoadInst>(i); o.opc = O_LOAD; o.a = opnd(l.getPointerOperand()); leavesOf(i.getType(), 0, o.leaves);
      for (auto &x : o.leaves) if (!x.w) throw Unsupported{"load type"};
      return;
    }
    case I::Store: {
      auto &s = L::cast<L::StoreInst>(i); o.opc = O_STORE; o.a = opnd(s.getPointerOperand()); o.many = opnds(s.getValueOperand(), o.leaves);
      for (auto &x : o.leaves) if (!x.w) throw Unsupported{"store type"};
      return;
    }
    case I::GetElementPtr: {
      auto &g = L::cast<L::GetElementPtrInst>(i); o.opc = O_GEP; o.a = opnd(g.getPointerOperand());
      for (auto gi = L::gep_type_begin(g), ge = L::gep_type_end(g); gi != ge; ++gi) {
        if (auto st = gi.getStructTypeOrNull()) { o.k += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
        int64_t sc = (int64_t)(uint64_t)DL->getTypeAllocSize(gi.getIndexedType());
        if (auto c = L::dyn_cast<L::ConstantInt>(gi.getOperand())) o.k += c->getSExtValue() * sc;
        else o.idx.push_back({opnd(gi.getOperand()), widthOf(gi.getOperand()->getType(), *DL), sc});
      }
      return;
    }
    case I::Alloca: {
      auto &a = L::cast<L::AllocaInst>(i); o.opc = O_ALLOCA; o.k = (int64_t)(uint64_t)DL->getTypeAllocSize(a.getAllocatedType()); o.a = opnd(a.getArraySize()); o.w2 = widthOf(a.getArraySize()->getType(), *DL); return;
    }
    case I::Br: {
      auto &b = L::cast<L::BranchInst>(i);
      if (b.isUnconditional()) { o.opc = O_BR; o.e0 = edge(i.getParent(), b.getSuccessor(0)); }
      else { o.opc = O_CBR; o.a = opnd(b.getCondition()); o.e0 = edge(i.getParent(), b.getSuccessor(0)); o.e1 = edge(i.getParent(), b.getSuccessor(1)); }
      return;
    }
    case I::Switch: {
      auto &s = L::cast<L::SwitchInst>(i); o.opc = O_SWITCH; o.a = opnd(s.getCondition()); o.w2 = widthOf(s.getCondition()->getType(), *DL);
      std::map<const L::BasicBlock *, int> em;
      auto ed = [&](const L::BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = edge(i.getParent(), t); };
      o.e0 = ed(s.getDefaultDest());
      for (auto &c : s.cases()) o.cases.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())});
      return;
    }
    case I::Ret: o.opc = O_RET; if (i.getNumOperands()) o.many = opnds(i.getOperand(0), o.leaves); return;
    case I::Unreachable: o.opc = O_UNREACH; return;
    case I::Select: {
      o.opc = O_SELECT; o.a = opnd(i.getOperand(0)); if (!w) throw Unsupported{"select type"}; o.b = opnd(i.getOperand(1)); o.c = opnd(i.getOperand(2)); o.sub = i.getType()->isPointerTy(); return;
    }
    case I::ExtractValue: {
      auto &x = L::cast<L::ExtractValueInst>(i); std::vector<Leaf> lv; auto os = opnds(x.getAggregateOperand(), lv);
      int first; leafIndex(x.getAggregateOperand()->getType(), x.getIndices(), first);
      leavesOf(i.getType(), 0, o.leaves); o.opc = O_COPY; for (size_t k = 0; k < o.leaves.size(); k++) o.many.push_back(os[first + k]);
      return;
    }
    case I::InsertValue: {
      auto &x = L::cast<L::InsertValueInst>(i); auto os = opnds(x.getAggregateOperand(), o.leaves); std::vector<Leaf> lv; auto vs = opnds(x.getInsertedValueOperand(), lv);
      int first; leafIndex(x.getType(), x.getIndices(), first); for (size_t k = 0; k < vs.size(); k++) os[first + k] = vs[k];
      o.opc = O_COPY; o.many = os; return;
    }
    case I::Call: {
      auto &c = L::cast<L::CallInst>(i); o.opc = O_CALL;
      if (c.isInlineAsm()) throw Unsupported{"inline asm"};
      leavesOf(i.getType()->isVoidTy() ? L::Type::getInt8Ty(LCtx) : i.getType(), 0, o.leaves); if (i.getType()->isVoidTy()) o.leaves.clear();
      for (unsigned k = 0; k < c.arg_size(); k++) {
        if (c.getArgOperand(k)->getType()->isMetadataTy()) { o.opc = O_COPY; return; }
        std::vector<Leaf> lv; o.args.push_back(opnds(c.getArgOperand(k), lv)); o.argLeaves.push_back(lv);
        o.byval.push_back(c.isByValArgument(k) ? (u64t)DL->getTypeAllocSize(c.getParamByValType(k)) : 0);
      }
      const L::Value *cv = c.getCalledOperand()->stripPointerCasts();
      if (auto ga = L::dyn_cast<L::GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
      if (auto fn = L::dyn_cast<L::Function>(cv)) {
        std::string nm = fn->getName().str();
        o.builtin = builtinOf(nm);
        auto has = [&](const char *x) { return nm.find(x) != std::string::npos; };
        if (o.builtin == B_OVF) o.sub = (has(".s") ? 3 : 0) + (has("add") ? 0 : has("sub") ? 1 : 2);
        else if (o.builtin == B_FSH) o.sub = has("fshr"); else if (o.builtin == B_CLZ) o.sub = has("cttz"); else if (o.builtin == B_SAT) o.sub = has("usub"); else if (o.builtin == B_OBJSIZE) o.sub = has("objectsize");
        else if (nm == "llvm.umax.i32" || nm.find("llvm.umax") == 0) o.sub = 0; else if (nm.find("llvm.umin") == 0) o.sub = 1; else if (nm.find("llvm.smax") == 0) o.sub = 2; else if (nm.find("llvm.smin") == 0) o.sub = 3;
        if (nm.find("llvm.") == 0 && !o.builtin) throw Unsupported{"intrinsic " + nm};
        if (!o.builtin || !fn->isDeclaration()) { o.builtin = 0; o.callee = getFunc(fn); o.ext = fn; }
        if (o.builtin && fn->isDeclaration()) o.ext = fn;
      } else o.a = opnd(c.getCalledOperand());
      return;
    }
    default: throw Unsupported{std::string("instruction ") + i.getOpcodeName()};
    }
  }
  void leafIndex(L::Type *t, L::ArrayRef<unsigned> ix, int &first) {
    first = 0;
    for (unsigned x : ix) {
      for (unsigned k = 0; k < x; k++) { std::vector<Leaf> lv; L::Type *e = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(); leavesOf(e, 0, lv); first += lv.size(); }
      t = t->isStructTy() ? t->getStructElementType(x) : t->getArrayElementType();
    }
  }

  // ------------------------------------------------------------ state helpers
  E ex(const Val &v, int w) { return v.e ? v.e : db.cst(w, v.c); }
  Val mk(E e) { if (ExprDB::isC(e)) return C(e->k); Val v; v.e = e; return v; }

  // a value that the path constraints determine becomes concrete
  Val norm(State &s, Val v) {
    if (!v.e) return v;
    if (!s.eqmap.empty()) { auto it = s.eqmap.find(v.e); if (it != s.eqmap.end()) return C(it->second); }
    if (s.fixed.empty()) return v;
    for (u32t x : v.e->vars->v) if (!s.fixed.count(x)) return v;
    return C(db.eval(v.e));
  }
  Val get(State &s, const Opnd &o) {
    if (o.reg < 0) { if (o.undef) return freshUninit(64); return C(o.c); }
    Val &r = s.fr.back().regs[o.reg];
    if (r.e) r = norm(s, r);
    return r;
  }
  Val getw(State &s, const Opnd &o, int w) {
    if (o.reg < 0 && o.undef) return freshUninit(w);
    return get(s, o);
  }
  Val freshUninit(int w) {
    E e = nullptr; int n = (w + 7) / 8;
    for (int i = 0; i < n; i++) { E v = db.var(nextUninit++); e = e ? db.concat(v, e) : v; }
    return mk(db.extract(e, 0, w));
  }
  void useModel(State &s) { db.setModel(&s.model); }
  bool uninitModelNeeded = false;

  // variables of model may be above its size
  void setModelVar(State &s, u32t id, uint8_t v) { if (id >= UNINIT_BASE) return; if (id >= s.model.size()) s.model.resize(id + 1, 0); s.model[id] = v; }

  std::vector<E> slice(State &s, E c) {
    std::vector<E> r;
    if (s.cons.empty()) return r;
    const VarSet *vs = c->vars;
    std::vector<char> in(s.cons.size(), 0); bool ch = true;
    auto overlap = [](const VarSet *x, const VarSet *y) {
      size_t i = 0, j = 0; const auto &a = x->v, &b = y->v;
      if (a.size() == 1) return std::binary_search(b.begin(), b.end(), a[0]);
      if (b.size() == 1) return std::binary_search(a.begin(), a.end(), b[0]);
      while (i < a.size() && j < b.size()) { if (a[i] < b[j]) i++; else if (b[j] < a[i]) j++; else return true; }
      return false;
    };
    while (ch) {
      ch = false;
      for (size_t i = 0; i < s.cons.size(); i++) if (!in[i] && overlap(s.cons[i]->vars, vs)) {
        in[i] = 1; r.push_back(s.cons[i]); const VarSet *n = db.uni(vs, s.cons[i]->vars); if (n != vs) { vs = n; ch = true; }
      }
    }
    return r;
  }
  Res check(State &s, E c, Model &m) { auto cs = slice(s, c); cs.push_back(c); return sv.solve(cs, m); }
  bool feasible(State &s, E c, Model &m) {
    Res r = check(s, c, m);
    if (r == UNKNOWN) { incomplete++; return false; }
    return r == SAT;
  }
  void recordEq(State &s, E e, u64t v) {
    if (ExprDB::isC(e)) return;
    s.eqmap[e] = v;
    switch (e->kind) {
    case K_ZEXT: case K_SEXT: recordEq(s, e->a, v & ExprDB::mask(e->a->w)); break;
    case K_CONCAT: recordEq(s, e->b, v & ExprDB::mask(e->b->w)); recordEq(s, e->a, v >> e->b->w); break;
    case K_ADD: if (ExprDB::isC(e->b)) recordEq(s, e->a, (v - e->b->k) & ExprDB::mask(e->w)); break;
    case K_XOR: if (ExprDB::isC(e->b)) recordEq(s, e->a, v ^ e->b->k); break;
    default: break;
    }
  }
  void addCons(State &s, E c) {
    if (ExprDB::isC(c)) return;
    if (c->kind == K_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    if (c->kind == K_NOT && c->a->kind == K_OR) { addCons(s, db.not1(c->a->a)); addCons(s, db.not1(c->a->b)); return; }
    s.cons.push_back(c);
    if (c->kind == K_EQ && ExprDB::isC(c->b)) recordEq(s, c->a, c->b->k);
    else if (c->kind == K_NOT) recordEq(s, c->a, 0);
    else recordEq(s, c, 1);
    if (c->vars->v.size() == 1) {
      u32t v = c->vars->v[0]; const Dom &d = db.domOf(c);
      auto it = s.dom.find(v); if (it == s.dom.end()) it = s.dom.emplace(v, d).first; else it->second &= d;
      if (it->second.count() == 1) s.fixed[v] = true;
    }
  }
  void applyModel(State &s, const Model &m) { for (auto &p : m.kv) setModelVar(s, p.first, p.second); if (&s == cur) useModel(s); }

  State *fork(State &s) { forks++; State *n = new State(s); n->depthForks++; return n; }

  // decide a 1-bit condition; forks when both sides are feasible
  bool decide(State &s, E c) {
    checkUninit(s, c, "branch depends on uninitialised memory");
    branchSym++;
    bool v = db.eval(c);
    E other = v ? db.not1(c) : c; Model m;
    if (feasible(s, other, m)) {
      State *n = fork(s); for (auto &p : m.kv) setModelVar(*n, p.first, p.second);
      addCons(*n, other); n->model.resize(std::max((size_t)n->nextSym, n->model.size()), 0);
      altStates.push_back(n); altTaken = true;
    }
    addCons(s, v ? c : other == c ? db.not1(c) : c);
    return v;
  }
  std::vector<State *> altStates; bool altTaken = false;

  void checkUninit(State &s, E e, const char *what) {
    if (e->flags & F_UNINIT) throw PathErr{"uninit", what};
  }
  // make a value concrete, forking over every feasible value; re-executes the instruction on the forks
  u64t concretize(State &s, Val v, int w) {
    v = norm(s, v);
    if (!v.e) return v.c;
    checkUninit(s, v.e, "size or address depends on uninitialised memory");
    concretized++;
    u64t v0 = db.eval(v.e); std::vector<E> excl; E ne = db.not1(db.eq(v.e, db.cst(w, v0)));
    auto cs = slice(s, v.e); cs.push_back(ne); u64t n = 0;
    for (;;) {
      Model m; Res r = sv.solve(cs, m);
      if (r == UNKNOWN) { incomplete++; break; }
      if (r == UNSAT) break;
      State *ns = fork(s); for (auto &p : m.kv) setModelVar(*ns, p.first, p.second);
      std::vector<uint8_t> tmp = ns->model; tmp.resize(std::max((size_t)ns->nextSym, tmp.size()), 0);
      auto saved = db.model; db.setModel(&tmp); u64t vi = db.eval(v.e); db.setModel(saved);
      ns->model = tmp;
      E eqi = db.eq(v.e, db.cst(w, vi)); addCons(*ns, eqi); ns->eqmap[v.e] = vi;
      work.push_back(ns);
      cs.push_back(db.not1(eqi));
      if (++n > maxConcretize || ((n & 63) == 0 && now() > maxTime)) { incomplete++; break; }
    }
    addCons(s, db.eq(v.e, db.cst(w, v0))); s.eqmap[v.e] = v0;
    return v0;
  }

  // ------------------------------------------------------------ memory access
  ORef *findRef(State &s, u64t a) {
    u32t id = idOf(a);
    switch (regionOf(a)) {
    case R_GLOBAL: return id < s.glob.size() ? &s.glob[id] : nullptr;
    case R_HEAP: return id < s.heap.size() ? &s.heap[id] : nullptr;
    case R_STACK: return id < s.stk.size() ? &s.stk[id] : nullptr;
    }
    return nullptr;
  }
  ORef &access(State &s, u64t a, u64t n, bool wr) {
    if (a < 0x10000) throw PathErr{"null-deref", wr ? "write through a null pointer" : "read through a null pointer"};
    ORef *r = findRef(s, a);
    if (!r || !r->p) {
      if (regionOf(a) == R_STACK) throw PathErr{"use-after-return", "access to a dead stack object"};
      throw PathErr{"wild-pointer", "access through an invalid pointer"};
    }
    Obj *o = r->p; int64_t off = offOf(a);
    if (!o->alive) throw PathErr{"use-after-free", std::string(wr ? "write to" : "read of") + " freed memory"};
    if (off < 0 || (u64t)off + n > o->size || n > o->size)
      throw PathErr{wr ? "oob-write" : "oob-read", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string(off) + " of a " + (o->kind == R_HEAP ? "heap" : o->kind == R_STACK ? "stack" : "global") + " object of " + std::to_string(o->size) + " byte(s)"};
    if (wr && o->ro) throw PathErr{"ro-write", "write to constant memory"};
    return *r;
  }
  E byteAt(State &s, ORef &r, u64t off) { // symbolic or constant byte expression
    Obj *o = r.p;
    if (o->nUninit && o->uninit[off]) {
      Obj *w = r.rw(); E v = db.var(nextUninit++); setByte(w, off, v); return v;
    }
    if (o->nSym && o->sym[off]) return o->sym[off];
    return db.cst(8, o->data[off]);
  }
  void setByte(Obj *o, u64t off, E e) {
    if (o->nUninit && o->uninit[off]) { o->uninit[off] = 0; o->nUninit--; }
    if (ExprDB::isC(e)) { o->data[off] = e->k; if (o->nSym && o->sym[off]) { o->sym[off] = nullptr; o->nSym--; } }
    else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); if (!o->sym[off]) o->nSym++; o->sym[off] = e; }
  }
  void setConc(Obj *o, u64t off, uint8_t v) {
    if (o->nUninit && o->uninit[off]) { o->uninit[off] = 0; o->nUninit--; }
    if (o->nSym && o->sym[off]) { o->sym[off] = nullptr; o->nSym--; }
    o->data[off] = v;
  }
  Val load(State &s, u64t a, int w) {
    int n = (w + 7) / 8; ORef &r = access(s, a, n, false); Obj *o = r.p; u64t off = offOf(a);
    bool plain = !o->nUninit && !o->nSym;
    if (!plain) { plain = true; for (int i = 0; i < n && plain; i++) if ((o->nUninit && o->uninit[off + i]) || (o->nSym && o->sym[off + i])) plain = false; }
    if (plain) { u64t v = 0; memcpy(&v, &o->data[off], n); return C(v & ExprDB::mask(w)); }
    E e = nullptr;
    for (int i = 0; i < n; i++) { E b = byteAt(s, r, off + i); e = e ? db.concat(b, e) : b; }
    return norm(s, mk(db.extract(e, 0, w)));
  }
  void store(State &s, u64t a, Val v, int w) {
    int n = (w + 7) / 8; ORef &r = access(s, a, n, true); Obj *o = r.rw(); u64t off = offOf(a);
    if (!v.e) {
      u64t c = v.c & ExprDB::mask(w);
      if (!o->nUninit && !o->nSym) memcpy(&o->data[off], &c, n);
      else for (int i = 0; i < n; i++) setConc(o, off + i, c >> (8 * i));
    } else {
      E e = db.zext(v.e, n * 8);
      for (int i = 0; i < n; i++) setByte(o, off + i, db.extract(e, 8 * i, 8));
    }
  }
  // resolve a possibly symbolic address to a concrete one by forking, or (loads) to a table read
  u64t resolve(State &s, Val av, u64t n, bool wr) {
    av = norm(s, av);
    if (!av.e) return av.c;
    checkUninit(s, av.e, "address depends on uninitialised memory");
    // within bounds of the object that the current model points into?
    u64t a0 = db.eval(av.e); access(s, a0, n, wr);
    u64t base = a0 - (u64t)offOf(a0); Obj *o = findRef(s, a0)->p;
    E off = db.sub(av.e, db.cst(64, base));
    E in = db.ule(off, db.cst(64, o->size - n)); Model m;
    if (!ExprDB::isC(in, 1) && feasible(s, db.not1(in), m)) {
      State *ns = fork(s); for (auto &p : m.kv) setModelVar(*ns, p.first, p.second); ns->model.resize(std::max((size_t)ns->nextSym, ns->model.size()), 0);
      addCons(*ns, db.not1(in)); work.push_back(ns);
      addCons(s, in);
    }
    return concretize(s, av, 64);
  }
  bool tableLoad(State &s, Val av, int w, Val &out) {
    // symbolic index into an object whose bytes are all concrete (a lookup table)
    if (!av.e) return false;
    u64t a0 = db.eval(av.e); int n = (w + 7) / 8; access(s, a0, n, false);
    Obj *o = findRef(s, a0)->p; u64t base = a0 - (u64t)offOf(a0);
    if (o->size > 65536) return false;
    E off = db.sub(av.e, db.cst(64, base));
    E in = db.ule(off, db.cst(64, o->size - n)); Model m;
    if (!ExprDB::isC(in, 1) && feasible(s, db.not1(in), m)) {
      State *ns = fork(s); for (auto &p : m.kv) setModelVar(*ns, p.first, p.second); ns->model.resize(std::max((size_t)ns->nextSym, ns->model.size()), 0);
      addCons(*ns, db.not1(in)); work.push_back(ns);
      addCons(s, in);
    }
    // off = k + stride * idx ?
    u64t k = 0; E x = off; if (x->kind == K_ADD && ExprDB::isC(x->b)) { k = x->b->k; x = x->a; }
    u64t stride = 1;
    // unwrap multiplication / shift / zero extension
    for (;;) {
      if (x->kind == K_ZEXT) { x = x->a; continue; }
      if (x->kind == K_CONCAT && ExprDB::isC(x->b, 0)) { stride <<= x->b->w; x = x->a; continue; }
      if (x->kind == K_MUL && ExprDB::isC(x->b)) { 
        // only sound when the product cannot wrap: x->a must be a zero extension of something small
        if (x->a->kind == K_ZEXT && x->a->a->w <= 16 && x->b->k < 65536 && x->w >= 40) { stride *= x->b->k; x = x->a; continue; }
      }
      break;
    }
    if (x->w > 12) return false;
    u64t cnt = 1ull << x->w; std::vector<u64t> tab(cnt, 0);
    for (u64t i = 0; i < cnt; i++) {
      u64t of = k + i * stride; if (of + n > o->size || of + n < of) continue; // excluded by the bounds constraint
      u64t v = 0;
      for (int j = 0; j < n; j++) { if ((o->nSym && o->sym[of + j]) || (o->nUninit && o->uninit[of + j])) return false; v |= (u64t)o->data[of + j] << (8 * j); }
      tab[i] = v & ExprDB::mask(w);
    }
    out = norm(s, mk(db.table(db.internTable(w, tab), x)));
    return true;
  }
  u64t newHeap(State &s, u64t n, bool init, const char *site) {
    Obj *o = new Obj(n, init); o->kind = R_HEAP; o->site = site; s.heap.push_back(ORef(o)); s.heapLive++; s.heapBytes += n;
    return addrOf(R_HEAP, s.heap.size() - 1);
  }
  void doFree(State &s, u64t a) {
    if (!a) return;
    if (regionOf(a) != R_HEAP || idOf(a) >= s.heap.size()) throw PathErr{"invalid-free", "free of a pointer that is not from the heap"};
    ORef &r = s.heap[idOf(a)];
    if (!r.p->alive) throw PathErr{"double-free", "memory freed twice"};
    if (offOf(a) != 0) throw PathErr{"invalid-free", "free of an interior pointer"};
    s.heapLive--; s.heapBytes -= r.p->size; Obj *o = r.rw(); o->alive = false; o->data.clear(); o->sym.clear(); o->uninit.clear(); o->data.shrink_to_fit(); o->sym.shrink_to_fit(); o->uninit.shrink_to_fit(); o->nSym = o->nUninit = 0;
  }
  void copyBytes(State &s, u64t d, u64t sr, u64t n) {
    if (!n) return;
    ORef &rs = access(s, sr, n, false); ORef &rd = access(s, d, n, true);
    Obj *so = rs.p; u64t sof = offOf(sr), dof = offOf(d);
    if (!so->nUninit && !so->nSym) {
      std::vector<uint8_t> tmp(so->data.begin() + sof, so->data.begin() + sof + n);
      Obj *o = rd.rw(); if (!o->nUninit && !o->nSym) memcpy(&o->data[dof], tmp.data(), n); else for (u64t i = 0; i < n; i++) setConc(o, dof + i, tmp[i]);
      return;
    }
    std::vector<E> tmp(n); for (u64t i = 0; i < n; i++) tmp[i] = byteAt(s, rs, sof + i);
    Obj *o = rd.rw(); for (u64t i = 0; i < n; i++) setByte(o, dof + i, tmp[i]);
  }
  std::string cstr(State &s, u64t a) {
    std::string r; if (!a) return "(null)";
    for (int i = 0; i < 4096; i++) { Val v = load(s, a + i, 8); if (v.e) { r += "?"; continue; } if (!v.c) break; r += (char)v.c; }
    return r;
  }

  // ------------------------------------------------------------ execution
  void jump(State &s, const Op &o, int e) {
    Frame &f = s.fr.back(); const Edge &ed = f.f->edges[e];
    if (!ed.copies.empty()) {
      if (ed.copies.size() == 1) { f.regs[ed.copies[0].first] = get(s, ed.copies[0].second); }
      else { std::vector<Val> t; t.reserve(ed.copies.size()); for (auto &c : ed.copies) t.push_back(get(s, c.second)); for (size_t i = 0; i < t.size(); i++) f.regs[ed.copies[i].first] = t[i]; }
    }
    f.pc = ed.target;
  }
  void setReg(State &s, int r, Val v) { s.fr.back().regs[r] = v; }

  void useStack(State &s, u64t n) { s.stackUsed += n; if (s.stackUsed > (8ull << 20)) throw PathErr{"stack-overflow", "more than 8 MB of stack are used"}; } // a frame counts 96 bytes and its objects
  void enter(State &s, Func *f, const std::vector<Val> &args, int retDst) {
    if (f->lf->isDeclaration()) throw Unsupported{"call to external function " + f->name};
    if (!f->lowered) lower(f);
    f->calls++;
    if ((int)s.fr.size() > maxDepth) throw PathErr{"stack-overflow", "call depth exceeds " + std::to_string(maxDepth)};
    Frame fr; fr.f = f; fr.pc = 0; fr.regs.resize(f->nregs); fr.stackBase = s.stk.size(); fr.retDst = retDst; fr.used = s.stackUsed; useStack(s, 96);
    size_t k = 0, nf = 0; for (int n : f->argN) nf += n;
    for (; k < args.size() && k < nf; k++) fr.regs[k] = args[k];
    for (; k < args.size(); k++) fr.va.push_back(args[k]);
    s.fr.push_back(std::move(fr));
  }
  Val binop(State &s, int op, Val a, Val b, int w) {
    using I = L::Instruction;
    u64t m = ExprDB::mask(w);
    if (!a.e && !b.e) {
      u64t x = a.c, y = b.c;
      switch (op) {
      case I::Add: return C((x + y) & m);
      case I::Sub: return C((x - y) & m);
      case I::Mul: return C((x * y) & m);
      case I::And: return C(x & y);
      case I::Or: return C(x | y);
      case I::Xor: return C(x ^ y);
      case I::Shl: if (y >= (u64t)w) throw PathErr{"ub-shift", "shift count out of range"}; return C((x << y) & m);
      case I::LShr: if (y >= (u64t)w) throw PathErr{"ub-shift", "shift count out of range"}; return C(x >> y);
      case I::AShr: if (y >= (u64t)w) throw PathErr{"ub-shift", "shift count out of range"}; return C((u64t)(ExprDB::sx(x, w) >> y) & m);
      case I::UDiv: case I::SDiv: case I::URem: case I::SRem: {
        if (!y) throw PathErr{"div-zero", "division by zero"};
        return C(db.divrem(op == I::UDiv ? K_UDIV : op == I::SDiv ? K_SDIV : op == I::URem ? K_UREM : K_SREM, db.cst(w, x), db.cst(w, y))->k);
      }
      case I::FAdd: return C(ExprDB::fromD(ExprDB::asD(x) + ExprDB::asD(y)));
      case I::FSub: return C(ExprDB::fromD(ExprDB::asD(x) - ExprDB::asD(y)));
      case I::FMul: return C(ExprDB::fromD(ExprDB::asD(x) * ExprDB::asD(y)));
      case I::FDiv: return C(ExprDB::fromD(ExprDB::asD(x) / ExprDB::asD(y)));
      }
      throw Unsupported{"binary operation"};
    }
    E x = ex(a, w), y = ex(b, w);
    switch (op) {
    case I::Add: return mk(db.add(x, y));
    case I::Sub: return mk(db.sub(x, y));
    case I::Mul: return mk(db.mul(x, y));
    case I::And: return mk(db.band(x, y));
    case I::Or: return mk(db.bor(x, y));
    case I::Xor: return mk(db.bxor(x, y));
    case I::Shl: case I::LShr: case I::AShr: {
      if (!ExprDB::isC(y)) assertHolds(s, db.ult(y, db.cst(w, w)), "ub-shift", "shift count out of range");
      else if (y->k >= (u64t)w) throw PathErr{"ub-shift", "shift count out of range"};
      return mk(op == I::Shl ? db.shl(x, y) : op == I::LShr ? db.lshr(x, y) : db.ashr(x, y));
    }
    case I::UDiv: case I::SDiv: case I::URem: case I::SRem:
      assertHolds(s, db.not1(db.eq(y, db.cst(w, 0))), "div-zero", "division by zero");
      return mk(db.divrem(op == I::UDiv ? K_UDIV : op == I::SDiv ? K_SDIV : op == I::URem ? K_UREM : K_SREM, x, y));
    case I::FAdd: return mk(db.bin(K_FADD, 64, x, y));
    case I::FSub: return mk(db.bin(K_FSUB, 64, x, y));
    case I::FMul: return mk(ExprDB::isC(y, ExprDB::fromD(1.0)) ? x : ExprDB::isC(x, ExprDB::fromD(1.0)) ? y : db.bin(K_FMUL, 64, x, y));
    case I::FDiv: return mk(ExprDB::isC(y, ExprDB::fromD(1.0)) ? x : db.bin(K_FDIV, 64, x, y));
    }
    throw Unsupported{"binary operation"};
  }
  // an implicit check: violated on some input -> error record, continue where it holds
  void assertHolds(State &s, E c, const char *kind, const std::string &msg) {
    if (ExprDB::isC(c)) { if (!c->k) throw PathErr{kind, msg}; return; }
    checkUninit(s, c, "check depends on uninitialised memory");
    assertQ++;
    E nc = db.not1(c); bool v = db.eval(c); Model m;
    if (!v) { // the current model violates it
      recordErr(s, kind, msg);
      if (!feasible(s, c, m)) throw PathKill{"violated on every input of the path"};
      applyModel(s, m); addCons(s, c); return;
    }
    if (feasible(s, nc, m)) {
      State t(s); for (auto &p : m.kv) setModelVar(t, p.first, p.second); t.model.resize(std::max((size_t)t.nextSym, t.model.size()), 0);
      recordErr(t, kind, msg);
    }
    addCons(s, c);
  }
  Val icmp(State &s, int pred, Val a, Val b, int w) {
    using P = L::CmpInst;
    if (!a.e && !b.e) {
      u64t x = a.c, y = b.c; int64_t sx = ExprDB::sx(x, w), sy = ExprDB::sx(y, w);
      switch (pred) {
      case P::ICMP_EQ: return C(x == y); case P::ICMP_NE: return C(x != y);
      case P::ICMP_ULT: return C(x < y); case P::ICMP_ULE: return C(x <= y); case P::ICMP_UGT: return C(x > y); case P::ICMP_UGE: return C(x >= y);
      case P::ICMP_SLT: return C(sx < sy); case P::ICMP_SLE: return C(sx <= sy); case P::ICMP_SGT: return C(sx > sy); case P::ICMP_SGE: return C(sx >= sy);
      }
    }
    E x = ex(a, w), y = ex(b, w), r = nullptr;
    switch (pred) {
    case P::ICMP_EQ: r = db.eq(x, y); break; case P::ICMP_NE: r = db.not1(db.eq(x, y)); break;
    case P::ICMP_ULT: r = db.ult(x, y); break; case P::ICMP_ULE: r = db.ule(x, y); break; case P::ICMP_UGT: r = db.ult(y, x); break; case P::ICMP_UGE: r = db.ule(y, x); break;
    case P::ICMP_SLT: r = db.slt(x, y); break; case P::ICMP_SLE: r = db.sle(x, y); break; case P::ICMP_SGT: r = db.slt(y, x); break; case P::ICMP_SGE: r = db.sle(y, x); break;
    }
    return mk(r);
  }
  Val fcmp(State &s, int pred, Val a, Val b) {
    using P = L::CmpInst;
    E x = ex(a, 64), y = ex(b, 64);
    // a converted integer is a number
    auto num = [&](E q) { while (q->kind == K_FNEG) q = q->a; return q->kind == K_SI2FP || q->kind == K_UI2FP || (ExprDB::isC(q) && !std::isnan(ExprDB::asD(q->k))); };
    auto un = [&] { return num(x) && num(y) ? db.cst(1, 0) : db.bin(K_FUNO, 1, x, y); };
    E r;
    if (x == y && num(x)) return C(pred == P::FCMP_OEQ || pred == P::FCMP_OLE || pred == P::FCMP_OGE || pred == P::FCMP_UGE || pred == P::FCMP_ULE || pred == P::FCMP_UEQ || pred == P::FCMP_ORD);
    switch (pred) {
    case P::FCMP_OEQ: r = db.bin(K_FOEQ, 1, x, y); break;
    case P::FCMP_UNE: r = db.not1(db.bin(K_FOEQ, 1, x, y)); break;
    case P::FCMP_OLT: r = db.bin(K_FOLT, 1, x, y); break;
    case P::FCMP_OLE: r = db.bin(K_FOLE, 1, x, y); break;
    case P::FCMP_OGT: r = db.bin(K_FOLT, 1, y, x); break;
    case P::FCMP_OGE: r = db.bin(K_FOLE, 1, y, x); break;
    case P::FCMP_UGE: r = db.not1(db.bin(K_FOLT, 1, x, y)); break;
    case P::FCMP_UGT: r = db.not1(db.bin(K_FOLE, 1, x, y)); break;
    case P::FCMP_ULE: r = db.not1(db.bin(K_FOLT, 1, y, x)); break;
    case P::FCMP_ULT: r = db.not1(db.bin(K_FOLE, 1, y, x)); break;
    case P::FCMP_UNO: r = un(); break;
    case P::FCMP_ORD: r = db.not1(un()); break;
    case P::FCMP_ONE: r = db.band(db.not1(db.bin(K_FOEQ, 1, x, y)), db.not1(un())); break;
    case P::FCMP_UEQ: r = db.bor(db.bin(K_FOEQ, 1, x, y), un()); break;
    default: throw Unsupported{"fcmp"};
    }
    if (!a.e && !b.e) return C(db.evalNode(r, [&](E q) { return db.eval(q); }, [](uint32_t) -> u64t { return 0; }));
    return mk(r);
  }
  Val cast(State &s, int op, Val a, int from, int to) {
    using I = L::Instruction;
    u64t m = ExprDB::mask(to);
    switch (op) {
    case I::Trunc: return a.e ? mk(db.extract(a.e, 0, to)) : C(a.c & m);
    case I::ZExt: return a.e ? mk(db.zext(a.e, to)) : a;
    case I::SExt: return a.e ? mk(db.sext(a.e, to)) : C((u64t)ExprDB::sx(a.c, from) & m);
    case I::PtrToInt: case I::IntToPtr: case I::BitCast:
      if (to < from) return a.e ? mk(db.extract(a.e, 0, to)) : C(a.c & m);
      return a.e ? mk(db.zext(a.e, to)) : a;
    case I::SIToFP: if (to != 64) throw Unsupported{"float"}; return a.e ? mk(db.un(K_SI2FP, 64, a.e)) : C(ExprDB::fromD((double)ExprDB::sx(a.c, from)));
    case I::UIToFP: return a.e ? mk(db.un(K_UI2FP, 64, a.e)) : C(ExprDB::fromD((double)a.c));
    case I::FPToSI: return a.e ? mk(db.un(K_FP2SI, to, a.e)) : C((u64t)(int64_t)ExprDB::asD(a.c) & m);
    case I::FPToUI: return a.e ? mk(db.un(K_FP2UI, to, a.e)) : C((u64t)ExprDB::asD(a.c) & m);
    }
    throw Unsupported{"cast"};
  }

  // returns false when the path is over
  void step(State &s) {
    Frame &f = s.fr.back(); const Op &o = f.f->ops[f.pc];
    switch (o.opc) {
    case O_BIN: { Val a = getw(s, o.a, o.w), b = getw(s, o.b, o.w); Val r = binop(s, o.sub, a, b, o.w); s.fr.back().regs[o.dst] = r; f.pc++; break; }
    case O_ICMP: { Val a = getw(s, o.a, o.w2), b = getw(s, o.b, o.w2); f.regs[o.dst] = icmp(s, o.sub, a, b, o.w2); f.pc++; break; }
    case O_FCMP: f.regs[o.dst] = fcmp(s, o.sub, get(s, o.a), get(s, o.b)); f.pc++; break;
    case O_CAST: f.regs[o.dst] = cast(s, o.sub, getw(s, o.a, o.w2), o.w2, o.w); f.pc++; break;
    case O_FNEG: { Val a = get(s, o.a); f.regs[o.dst] = a.e ? mk(db.un(K_FNEG, 64, a.e)) : C(a.c ^ (1ull << 63)); f.pc++; break; }
    case O_COPY: { if (o.dst >= 0) { std::vector<Val> t; for (size_t i = 0; i < o.many.size(); i++) t.push_back(getw(s, o.many[i], o.leaves[i].w)); for (size_t i = 0; i < t.size(); i++) f.regs[o.dst + i] = t[i]; } f.pc++; break; }
    case O_LOAD: {
      Val av = get(s, o.a);
      if (av.e && o.leaves.size() == 1) { Val r; checkUninit(s, av.e, "address depends on uninitialised memory"); if (tableLoad(s, av, o.leaves[0].w, r)) { s.fr.back().regs[o.dst] = r; s.fr.back().pc++; break; } }
      u64t sz = o.leaves.empty() ? 0 : o.leaves.back().off + (o.leaves.back().w + 7) / 8;
      u64t a = av.e ? resolve(s, av, sz, false) : av.c;
      for (size_t i = 0; i < o.leaves.size(); i++) f.regs[o.dst + i] = load(s, a + o.leaves[i].off, o.leaves[i].w);
      f.pc++; break;
    }
    case O_STORE: {
      Val av = get(s, o.a); u64t sz = o.leaves.empty() ? 0 : o.leaves.back().off + (o.leaves.back().w + 7) / 8;
      u64t a = av.e ? resolve(s, av, sz, true) : av.c;
      for (size_t i = 0; i < o.leaves.size(); i++) {
        Val v = getw(s, o.many[i], o.leaves[i].w);
        // the result of 64-bit arithmetic that goes to memory is a position or a size: split the path over its values now,
        // so that later comparisons and addresses are concrete (a heuristic for speed, every value is explored)
        if (v.e && o.leaves.size() == 1 && o.leaves[i].w == 64 && !(v.e->flags & F_UNINIT)) {
          E q = v.e; while (q->kind == K_ZEXT || q->kind == K_SEXT || (q->kind == K_CONCAT && q->b->kind != K_VAR && q->a->w >= 32)) q = q->kind == K_CONCAT ? q->b : q->a;
          if (q->kind == K_ADD || q->kind == K_SUB) v = C(concretize(s, v, 64));
        }
        store(s, a + o.leaves[i].off, v, o.leaves[i].w);
      }
      f.pc++; break;
    }
    case O_GEP: {
      Val a = get(s, o.a); u64t k = o.k; E acc = nullptr;
      for (auto &g : o.idx) {
        Val v = getw(s, g.o, g.w);
        if (!v.e) k += (u64t)(ExprDB::sx(v.c, g.w) * g.scale);
        else { E t = db.mul(db.sext(v.e, 64), db.cst(64, (u64t)g.scale)); acc = acc ? db.add(acc, t) : t; }
      }
      if (!a.e && !acc) f.regs[o.dst] = C(a.c + k);
      else { E b = db.add(ex(a, 64), db.cst(64, k)); if (acc) b = db.add(acc, b); f.regs[o.dst] = mk(b); }
      f.pc++; break;
    }
    case O_ALLOCA: {
      u64t n = concretize(s, get(s, o.a), o.w2) * (u64t)o.k;
      if (n > (1ull << 23)) throw PathErr{"stack-overflow", "stack object of " + std::to_string(n) + " bytes"};
      useStack(s, n); Obj *ob = new Obj(n, false); ob->kind = R_STACK; ob->site = f.f->name.c_str(); s.stk.push_back(ORef(ob)); f.regs[o.dst] = C(addrOf(R_STACK, s.stk.size() - 1)); f.pc++; break;
    }
    case O_BR: jump(s, o, o.e0); break;
    case O_CBR: {
      Val c = get(s, o.a);
      if (o.a.reg < 0 && o.a.undef) throw PathErr{"uninit", "branch on an undefined value"};
      if (!c.e) { if (f.f->isLib) brCov[&o] |= c.c ? 1 : 2; jump(s, o, c.c ? o.e0 : o.e1); break; }
      altTaken = false; altStates.clear();
      bool t = decide(s, c.e);
      if (f.f->isLib) brCov[&o] |= altTaken ? 3 : t ? 1 : 2;
      for (State *n : altStates) { cur = n; useModel(*n); jump(*n, o, t ? o.e1 : o.e0); work.push_back(n); }
      cur = &s; useModel(s); altStates.clear();
      jump(s, o, t ? o.e0 : o.e1); break;
    }
    case O_SWITCH: {
      Val c = getw(s, o.a, o.w2);
      if (!c.e) { int e = o.e0; for (auto &x : o.cases) if (x.first == c.c) { e = x.second; break; } jump(s, o, e); break; }
      checkUninit(s, c.e, "switch depends on uninitialised memory");
      std::vector<std::pair<int, E>> conds; E none = db.tru();
      for (auto &x : o.cases) {
        E q = db.eq(c.e, db.cst(o.w2, x.first)); none = db.band(none, db.not1(q));
        bool found = false; for (auto &y : conds) if (y.first == x.second) { y.second = db.bor(y.second, q); found = true; }
        if (!found) conds.push_back({x.second, q});
      }
      bool def = false; for (auto &y : conds) if (y.first == o.e0) { y.second = db.bor(y.second, none); def = true; }
      if (!def) conds.push_back({o.e0, none});
      int taken = -1; E tc = nullptr;
      for (auto &y : conds) {
        if (taken < 0 && db.eval(y.second)) { taken = y.first; tc = y.second; continue; }
        branchSym++; Model m;
        if (feasible(s, y.second, m)) {
          State *n = fork(s); for (auto &p : m.kv) setModelVar(*n, p.first, p.second); n->model.resize(std::max((size_t)n->nextSym, n->model.size()), 0);
          addCons(*n, y.second); cur = n; useModel(*n); jump(*n, o, y.first); work.push_back(n); cur = &s; useModel(s);
        }
      }
      addCons(s, tc); jump(s, o, taken); break;
    }
    case O_SELECT: {
      Val c = get(s, o.a);
      if (!c.e) { f.regs[o.dst] = getw(s, c.c ? o.b : o.c, o.w); f.pc++; break; }
      Val x = getw(s, o.b, o.w), y = getw(s, o.c, o.w);
      if (o.sub) { // pointers: fork
        altTaken = false; altStates.clear(); bool t = decide(s, c.e);
        for (State *n : altStates) { n->fr.back().regs[o.dst] = t ? y : x; n->fr.back().pc++; work.push_back(n); }
        altStates.clear(); f.regs[o.dst] = t ? x : y; f.pc++; break;
      }
      f.regs[o.dst] = mk(db.ite(c.e, ex(x, o.w), ex(y, o.w))); f.pc++; break;
    }
    case O_RET: {
      std::vector<Val> r; for (size_t i = 0; i < o.many.size(); i++) r.push_back(getw(s, o.many[i], o.leaves[i].w));
      s.stk.resize(f.stackBase); s.stackUsed = f.used; int d = f.retDst; s.fr.pop_back();
      if (s.fr.empty()) throw PathEnd{};
      if (d >= 0) for (size_t i = 0; i < r.size(); i++) s.fr.back().regs[d + i] = r[i];
      break;
    }
    case O_UNREACH: throw PathErr{"unreachable", "unreachable code reached"};
    case O_CALL: call(s, o); break;
    case O_UNSUP: throw Unsupported{std::string("in ") + f.f->name + ": " + o.file};
    }
  }

  void call(State &s, const Op &o) {
    Frame &f = s.fr.back();
    if (!o.builtin) {
      Func *cf = o.callee;
      if (!cf) {
        u64t a = concretize(s, get(s, o.a), 64);
        if (a < 0x10000) throw PathErr{"null-deref", "call through a null function pointer"};
        if (regionOf(a) != R_FUNC || idOf(a) >= funcByIx.size() || offOf(a)) throw PathErr{"wild-pointer", "call through an invalid function pointer"};
        cf = funcByIx[idOf(a)];
        int b = builtinOf(cf->name);
        if (b && cf->lf->isDeclaration()) { builtin(s, o, b); return; }
      }
      std::vector<Val> args;
      // by-value structs are copied into the callee's frame
      u32t base = s.stk.size();
      for (size_t i = 0; i < o.args.size(); i++) {
        if (o.byval[i]) {
          u64t src = concretize(s, get(s, o.args[i][0]), 64); Obj *ob = new Obj(o.byval[i], false); ob->kind = R_STACK; s.stk.push_back(ORef(ob)); u64t d = addrOf(R_STACK, s.stk.size() - 1);
          copyBytes(s, d, src, o.byval[i]); args.push_back(C(d));
        } else for (size_t k = 0; k < o.args[i].size(); k++) args.push_back(getw(s, o.args[i][k], o.argLeaves[i][k].w));
      }
      // narrow varargs keep their width in the upper slots: integers passed as variadic are at least 32 bits
      f.pc++; int d = o.leaves.empty() ? -1 : o.dst;
      enter(s, cf, args, d); s.fr.back().stackBase = base;
      return;
    }
    builtin(s, o, o.builtin);
  }
  Val arg(State &s, const Op &o, int i) { return getw(s, o.args[i][0], o.argLeaves[i][0].w ? o.argLeaves[i][0].w : 64); }
  u64t carg(State &s, const Op &o, int i) { return concretize(s, arg(s, o, i), o.argLeaves[i][0].w); }

  void builtin(State &s, const Op &o, int b) {
    Frame &f = s.fr.back(); Val ret; 
    switch (b) {
    case B_NOP: break;
    case B_STDIO: {
      // the arguments must not be uninitialised; %s arguments must be readable strings is not checked
      ret = C(0); break;
    }
    case B_MALLOC: { u64t n = carg(s, o, 0); ret = C(n > maxAlloc ? 0 : newHeap(s, n, false, f.f->name.c_str())); break; }
    case B_CALLOC: { u64t n = carg(s, o, 0) * carg(s, o, 1); ret = C(n > maxAlloc ? 0 : newHeap(s, n, true, f.f->name.c_str())); break; }
    case B_REALLOC: {
      u64t p = carg(s, o, 0), n = carg(s, o, 1);
      if (p && (regionOf(p) != R_HEAP || idOf(p) >= s.heap.size() || offOf(p))) throw PathErr{"invalid-free", "realloc of a pointer that is not from the heap"};
      if (p && !s.heap[idOf(p)].p->alive) throw PathErr{"double-free", "realloc of freed memory"};
      if (n > maxAlloc) { ret = C(0); break; }
      if (p && !n) { doFree(s, p); ret = C(0); break; }
      if (p && n && s.heap[idOf(p)].p->rc == 1) { // nobody else holds the old object: its bytes move to the new address
        u64t q = newHeap(s, 0, true, f.f->name.c_str()); Obj *a = s.heap[idOf(p)].p, *o = s.heap[idOf(q)].p; u64t m = std::min(n, a->size);
        o->data.swap(a->data); o->sym.swap(a->sym); o->uninit.swap(a->uninit); o->nSym = a->nSym; o->nUninit = a->nUninit; o->size = n; s.heapBytes += n;
        for (u64t i = m; i < a->size; i++) { if (o->nSym && o->sym[i]) o->nSym--; if (o->nUninit && o->uninit[i]) o->nUninit--; }
        o->data.resize(n, 0); if (!o->sym.empty()) o->sym.resize(n, nullptr);
        if (n > m) { if (o->uninit.empty()) o->uninit.assign(m, 0); o->nUninit += n - m; }
        if (!o->uninit.empty()) o->uninit.resize(n, 1);
        doFree(s, p); ret = C(q); break;
      }
      u64t q = newHeap(s, n, false, f.f->name.c_str());
      if (p) { copyBytes(s, q, p, std::min(n, s.heap[idOf(p)].p->size)); doFree(s, p); }
      ret = C(q); break;
    }
    case B_FREE: doFree(s, carg(s, o, 0)); break;
    case B_MEMCPY: case B_MEMMOVE: {
      u64t n = carg(s, o, 2); u64t d = carg(s, o, 0), sr = carg(s, o, 1);
      if (b == B_MEMCPY && n && d != sr && d < sr + n && sr < d + n) throw PathErr{"overlap", "memcpy of overlapping memory"};
      copyBytes(s, d, sr, n); ret = C(d); break;
    }
    case B_MEMSET: {
      u64t n = carg(s, o, 2), d = carg(s, o, 0); Val v = arg(s, o, 1);
      if (n) {
        ORef &r = access(s, d, n, true); Obj *ob = r.rw(); u64t off = offOf(d);
        if (v.e) { E x = db.extract(v.e, 0, 8); for (u64t i = 0; i < n; i++) setByte(ob, off + i, x); }
        else if (n == ob->size) { memset(ob->data.data(), (int)v.c, n); ob->sym.clear(); ob->uninit.clear(); ob->nSym = ob->nUninit = 0; }
        else for (u64t i = 0; i < n; i++) setConc(ob, off + i, v.c);
      }
      ret = C(d); break;
    }
    case B_MEMCMP: {
      u64t n = carg(s, o, 2), p = carg(s, o, 0), q = carg(s, o, 1);
      if (!n) { ret = C(0); break; }
      access(s, p, n, false); access(s, q, n, false);
      E r = db.cst(32, 0);
      for (u64t i = n; i-- > 0;) {
        Val x = load(s, p + i, 8), y = load(s, q + i, 8); E a = ex(x, 8), c = ex(y, 8);
        E eq = db.eq(a, c);
        if (ExprDB::isC(eq, 1)) continue;
        r = db.ite(eq, r, db.sub(db.zext(a, 32), db.zext(c, 32)));
      }
      if (!ExprDB::isC(r)) checkUninit(s, r, "comparison of uninitialised memory");
      ret = mk(r); break;
    }
    case B_EXIT: throw PathEnd{};
    case B_ABORT: throw PathErr{"abort", "abort called"};
    case B_ASSERTFAIL: throw PathErr{"abort", "assertion in the code failed"};
    case B_ERRNO: if (!s.errnoAddr) { Obj *ob = new Obj(4, true); ob->kind = R_GLOBAL; s.glob.push_back(ORef(ob)); s.errnoAddr = addrOf(R_GLOBAL, s.glob.size() - 1); } ret = C(s.errnoAddr); break;
    case B_MKSYM: {
      u64t p = carg(s, o, 0), n = carg(s, o, 1); std::string nm = cstr(s, carg(s, o, 2));
      if (n) { ORef &r = access(s, p, n, true); Obj *ob = r.rw(); u64t off = offOf(p); for (u64t i = 0; i < n; i++) setByte(ob, off + i, db.var(s.nextSym + i)); }
      s.symNames.push_back({nm, {s.nextSym, (u32t)n}}); s.nextSym += n; if (s.model.size() < s.nextSym) s.model.resize(s.nextSym, 0); useModel(s);
      if (s.nextSym > maxSym) maxSym = s.nextSym;
      break;
    }
    case B_ASSUME: {
      Val v = arg(s, o, 0); int w = o.argLeaves[0][0].w;
      if (!v.e) { if (!v.c) throw PathKill{"assume"}; break; }
      E c = db.not1(db.eq(v.e, db.cst(w, 0))); checkUninit(s, c, "assumption depends on uninitialised memory");
      if (!db.eval(c)) { Model m; if (!feasible(s, c, m)) throw PathKill{"assume"}; applyModel(s, m); }
      addCons(s, c); break;
    }
    case B_ASSERT: {
      Val v = arg(s, o, 0); int w = o.argLeaves[0][0].w; std::string msg = cstr(s, carg(s, o, 1)); asserts++; assertSites[msg]++;
      if (!v.e) { assertTrivial++; if (!v.c) throw PathErr{"assert", msg}; break; }
      assertHolds(s, db.not1(db.eq(v.e, db.cst(w, 0))), "assert", msg); break;
    }
    case B_MARK: s.marks.push_back(intern(cstr(s, carg(s, o, 0)))); break;
    case B_CONCR: { u64t v = carg(s, o, 0); ret = C(v); break; }
    case B_HEAPLIVE: ret = C(s.heapLive); break;
    case B_HEAPBYTES: ret = C(s.heapBytes); break;
    case B_NOTE: { Val v = arg(s, o, 0); if (v.e) checkUninit(s, v.e, "observed value depends on uninitialised memory"); s.notes.push_back(v); break; }
    case B_NATIVE: ret = C(0); break;
    case B_PARAM: { auto it = params.find(cstr(s, carg(s, o, 0))); ret = C(it == params.end() ? carg(s, o, 1) : (u64t)it->second); break; }
    case B_VASTART: {
      u64t ap = carg(s, o, 0); Frame &fr = s.fr.back(); u64t n = fr.va.size();
      Obj *ob = new Obj(std::max<u64t>(n * 8, 8), true); ob->kind = R_STACK; s.stk.push_back(ORef(ob)); u64t a = addrOf(R_STACK, s.stk.size() - 1);
      for (u64t i = 0; i < n; i++) { Val v = fr.va[i]; if (v.e && v.e->w < 64) v.e = db.zext(v.e, 64); store(s, a + 8 * i, v, 64); }
      store(s, ap, C(48), 32); store(s, ap + 4, C(176), 32); store(s, ap + 8, C(a), 64); store(s, ap + 16, C(0), 64); break;
    }
    case B_VACOPY: copyBytes(s, carg(s, o, 0), carg(s, o, 1), 24); break;
    case B_STACKSAVE: ret = C(s.stk.size()); break;
    case B_STACKRESTORE: { u64t n = carg(s, o, 0); while (n < s.stk.size()) { s.stackUsed -= s.stk.back().p->size; s.stk.pop_back(); } break; }
    case B_EXPECT: ret = arg(s, o, 0); break;
    case B_BSWAP: { Val v = arg(s, o, 0); int w = o.argLeaves[0][0].w; E e = ex(v, w), r = nullptr; for (int i = 0; i < w; i += 8) { E x = db.extract(e, i, 8); r = r ? db.concat(r, x) : x; } ret = mk(r); break; }
    case B_ABS: { Val v = arg(s, o, 0); int w = o.argLeaves[0][0].w; E e = ex(v, w); ret = mk(db.ite(db.slt(e, db.cst(w, 0)), db.sub(db.cst(w, 0), e), e)); break; }
    case B_CTPOP: { Val v = arg(s, o, 0); int w = o.argLeaves[0][0].w; E e = ex(v, w), r = db.cst(w, 0); for (int i = 0; i < w; i++) r = db.add(r, db.zext(db.extract(e, i, 1), w)); ret = mk(r); break; }
    case B_FSH: { int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), c = ex(arg(s, o, 1), w); u64t k = carg(s, o, 2) % w; if (o.sub) k = k ? w - k : 0; ret = mk(k ? db.bor(db.shl(a, db.cst(w, k)), db.lshr(c, db.cst(w, w - k))) : o.sub ? c : a); break; }
    case B_OVF: {
      int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), c = ex(arg(s, o, 1), w), z = db.cst(w, 0), r, ov; int k = o.sub % 3; bool sg = o.sub >= 3;
      r = k == 0 ? db.add(a, c) : k == 1 ? db.sub(a, c) : db.mul(a, c);
      if (k == 2) {
        if (2 * w <= 64) { E wide = sg ? db.mul(db.sext(a, 2 * w), db.sext(c, 2 * w)) : db.mul(db.zext(a, 2 * w), db.zext(c, 2 * w)); ov = db.not1(db.eq(wide, sg ? db.sext(r, 2 * w) : db.zext(r, 2 * w))); }
        else { // 64 bits: halves, of the absolute values if signed
          auto ab = [&](E x) { return sg ? db.ite(db.slt(x, z), db.sub(z, x), x) : x; }; E x = ab(a), y = ab(c), h32 = db.cst(w, 32), m32 = db.cst(w, 0xffffffffull);
          E xh = db.lshr(x, h32), xl = db.band(x, m32), yh = db.lshr(y, h32), yl = db.band(y, m32), mid = db.add(db.add(db.mul(xh, yl), db.mul(xl, yh)), db.lshr(db.mul(xl, yl), h32));
          ov = db.bor(db.band(db.not1(db.eq(xh, z)), db.not1(db.eq(yh, z))), db.not1(db.eq(db.lshr(mid, h32), z)));
          if (sg) { E mag = db.mul(x, y), neg = db.not1(db.eq(db.slt(a, z), db.slt(c, z))); ov = db.bor(ov, db.ult(db.add(db.cst(w, (1ull << (w - 1)) - 1), db.zext(neg, w)), mag)); }
        }
      } else if (!sg) ov = k == 0 ? db.ult(r, a) : db.ult(a, c);
      else { E sa = db.slt(a, z), sc = db.slt(c, z), sr = db.slt(r, z); E same = db.eq(sa, sc); ov = db.band(k == 0 ? same : db.not1(same), db.not1(db.eq(sr, sa))); }
      if (o.dst >= 0) { s.fr.back().regs[o.dst] = mk(r); s.fr.back().regs[o.dst + 1] = mk(ov); } s.fr.back().pc++; return;
    }
    case B_CLZ: { int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), r = db.cst(w, w); for (int i = 0; i < w; i++) { int bit = o.sub ? w - 1 - i : i; r = db.ite(db.eq(db.extract(a, bit, 1), db.cst(1, 1)), db.cst(w, o.sub ? bit : w - 1 - bit), r); } ret = mk(r); break; }
    case B_BITREV: { int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), r = nullptr; for (int i = 0; i < w; i++) { E x = db.extract(a, i, 1); r = r ? db.concat(r, x) : x; } ret = mk(r); break; }
    case B_FABS: ret = mk(db.band(ex(arg(s, o, 0), 64), db.cst(64, ~0ull >> 1))); break;
    case B_SAT: { int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), c = ex(arg(s, o, 1), w), r = o.sub ? db.sub(a, c) : db.add(a, c); ret = mk(o.sub ? db.ite(db.ult(a, c), db.cst(w, 0), r) : db.ite(db.ult(r, a), db.cst(w, ~0ull), r)); break; }
    case B_OBJSIZE: ret = C(o.sub ? ~0ull : 0); break;
    case B_MINMAX: { int w = o.argLeaves[0][0].w; E a = ex(arg(s, o, 0), w), c = ex(arg(s, o, 1), w); E lt = o.sub < 2 ? db.ult(a, c) : db.slt(a, c); bool mx = o.sub == 0 || o.sub == 2; ret = mk(db.ite(lt, mx ? c : a, mx ? a : c)); break; }
    case B_POW: {
      Val x = arg(s, o, 0), y = arg(s, o, 1);
      u64t xv = concretize(s, x, 64), yv = concretize(s, y, 64); ret = C(ExprDB::fromD(pow(ExprDB::asD(xv), ExprDB::asD(yv)))); break;
    }
    default: throw Unsupported{"builtin"};
    }
    if (o.dst >= 0 && !o.leaves.empty()) s.fr.back().regs[o.dst] = ret;
    s.fr.back().pc++;
  }

  std::vector<uint8_t> inputOf(State &s) { std::vector<uint8_t> v = s.model; v.resize(s.nextSym, 0); return v; }
  std::string where(State &s, std::string &file, int &line) {
    std::string st; file = ""; line = 0;
    for (size_t i = s.fr.size(); i-- > 0;) {
      Frame &f = s.fr[i]; int pc = f.pc; if (i + 1 < s.fr.size()) pc--; if (pc < 0 || pc >= (int)f.f->ops.size()) pc = 0;
      const Op &o = f.f->ops[pc]; if (i + 1 == s.fr.size()) { file = o.file; line = o.line; }
      if (st.size() < 1500) st += (st.empty() ? "" : " < ") + f.f->name + ":" + std::to_string(o.line);
    }
    return st;
  }
  void recordErr(State &s, const std::string &kind, const std::string &msg) {
    std::string file; int line; std::string st = where(s, file, line);
    std::string key = kind + "|" + file + "|" + std::to_string(line) + "|" + (kind == "assert" ? msg : "");
    auto it = errs.find(key); if (it != errs.end()) { it->second.count++; return; }
    errs[key] = ErrRec{kind, msg, file, line, st, inputOf(s), s.symNames, 1};
  }

  // samples: reservoir over finished paths
  void finish(State &s) {
    paths++;
    for (auto m : s.marks) marks[m]++;
    if (nSamples > 0) {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      size_t slot = ~0ull; if ((int)samples.size() < nSamples) slot = samples.size(); else { u64t k = rng % paths; if (k < (u64t)nSamples) slot = k; }
      if (slot != ~0ull) {
        std::vector<u64t> nv; useModel(s); for (auto &v : s.notes) nv.push_back(v.e ? db.eval(v.e) : v.c);
        if (slot == samples.size()) samples.push_back({inputOf(s), nv}); else samples[slot] = {inputOf(s), nv};
      }
    }
  }

  void run(const std::string &entry) {
    t0 = std::chrono::steady_clock::now();
    const L::Function *ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { unsupported = "no entry function " + entry; return; }
    // lower everything up front so that globals get stable addresses
    for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; globalAddr(&g); }
    for (auto &f : *M) if (!f.isDeclaration()) getFunc(&f);
    for (size_t i = 0; i < funcByIx.size(); i++) if (!funcByIx[i]->lf->isDeclaration() && !funcByIx[i]->lowered) lower(funcByIx[i]);
    State *s = new State(); s->glob = initGlob; cur = s; useModel(*s);
    try { enter(*s, getFunc(ef), {}, -1); } catch (Unsupported &u) { unsupported = u.what; return; }
    work.push_back(s);
    u64t tick = 0;
    auto rssMB = []() -> u64t { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a = 0, b = 0; int k = fscanf(f, "%lu %lu", &a, &b); fclose(f); return k == 2 ? b >> 8 : 0; };
    while (!work.empty()) {
      State *st = work.back(); work.pop_back(); cur = st; useModel(*st);
      try {
        for (;;) {
          if (++st->steps > maxSteps) throw PathErr{"nontermination", "path exceeds " + std::to_string(maxSteps) + " instructions"};
          totalSteps++;
          if ((++tick & 0xfff) == 0) {
            if (now() > maxTime) { timeUp = true; break; }
            if ((tick & 0xfffff) == 0 && rssMB() > maxMemMB) { timeUp = memUp = true; break; }
          }
          step(*st);
        }
      } catch (PathEnd &) { finish(*st); }
      catch (PathKill &) { killed++; }
      catch (PathErr &e) { if (e.kind == std::string("nontermination")) endless++; recordErr(*st, e.kind, e.msg); paths++; }
      catch (Unsupported &u) { std::string fl; int ln; if (unsupported.empty()) unsupported = u.what + " [" + where(*st, fl, ln) + "]"; }
      if (st->steps > maxPathSteps) maxPathSteps = st->steps;
      delete st; cur = nullptr;
      if (timeUp || paths >= maxPaths || (int)errs.size() >= maxErrors || endless >= 2 || !unsupported.empty()) break;
    }
  }
  // ------------------------------------------------------------ output
  static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
  static std::string hex(const std::vector<uint8_t> &v) { std::string r; char b[4]; for (auto x : v) { snprintf(b, sizeof b, "%02x", x); r += b; } return r; }
  void report(FILE *o) {
    fprintf(o, "{\n \"paths\": %llu, \"infeasible_ended\": %llu, \"forks\": %llu, \"steps\": %llu, \"max_path_steps\": %llu,\n", (unsigned long long)paths, (unsigned long long)killed, (unsigned long long)forks, (unsigned long long)totalSteps, (unsigned long long)maxPathSteps);
    fprintf(o, " \"branch_decisions\": %llu, \"concretisations\": %llu, \"asserts\": %llu, \"asserts_by_simplification\": %llu, \"assert_queries\": %llu,\n", (unsigned long long)branchSym, (unsigned long long)concretized, (unsigned long long)asserts, (unsigned long long)assertTrivial, (unsigned long long)assertQ);
    fprintf(o, " \"queries\": %llu, \"z3_queries\": %llu, \"witness_hits\": %llu, \"cache_hits\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"max_query_s\": %.3f,\n", (unsigned long long)sv.nQueries, (unsigned long long)sv.nZ3, (unsigned long long)sv.nWitness, (unsigned long long)sv.nCacheHit, (unsigned long long)sv.nSat, (unsigned long long)sv.nUnsat, (unsigned long long)sv.nUnknown, sv.z3Time, sv.maxZ3);
    fprintf(o, " \"max_symbolic_bytes\": %u, \"wall_s\": %.3f, \"memory_limit_hit\": %s, \"complete\": %s, \"incomplete_events\": %llu, \"pending\": %zu,\n", maxSym, now(), memUp ? "true" : "false", (work.empty() && !timeUp && unsupported.empty() && !incomplete) ? "true" : "false", (unsigned long long)incomplete, work.size());
    fprintf(o, " \"unsupported\": \"%s\",\n", esc(unsupported).c_str());
    fprintf(o, " \"functions\": {"); bool first = true;
    for (auto f : funcByIx) if (f->calls && f->isLib) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", esc(f->name).c_str(), (unsigned long long)f->calls); first = false; }
    u64t b1 = 0, b2 = 0; for (auto &x : brCov) { if (x.second == 3) b2++; else b1++; }
    fprintf(o, "},\n \"branches_both_ways\": %llu, \"branches_one_way\": %llu,\n \"marks\": {", (unsigned long long)b2, (unsigned long long)b1); first = true;
    for (auto &m : marks) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", esc(m.first).c_str(), (unsigned long long)m.second); first = false; }
    fprintf(o, "},\n \"assert_sites\": {"); first = true;
    for (auto &m : assertSites) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", esc(m.first).c_str(), (unsigned long long)m.second); first = false; }
    fprintf(o, "},\n \"errors\": ["); first = true;
    for (auto &e : errs) {
      fprintf(o, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"file\": \"%s\", \"line\": %d, \"stack\": \"%s\", \"count\": %llu, \"input\": \"%s\", \"objects\": [", first ? "" : ",", esc(e.second.kind).c_str(), esc(e.second.msg).c_str(), esc(e.second.file).c_str(), e.second.line, esc(e.second.stack).c_str(), (unsigned long long)e.second.count, hex(e.second.input).c_str());
      bool f2 = true; for (auto &n : e.second.names) { fprintf(o, "%s[\"%s\", %u, %u]", f2 ? "" : ", ", esc(n.first).c_str(), n.second.first, n.second.second); f2 = false; }
      fprintf(o, "]}"); first = false;
    }
    fprintf(o, "],\n \"samples\": ["); first = true;
    for (auto &x : samples) { fprintf(o, "%s\n  [\"%s\", [", first ? "" : ",", hex(x.first).c_str()); bool f2 = true; for (u64t v : x.second) { fprintf(o, "%s%llu", f2 ? "" : ",", (unsigned long long)v); f2 = false; } fprintf(o, "]]"); first = false; }
    fprintf(o, "]\n}\n");
  }
};

// random differential test of the simplifier against direct evaluation, and of the Z3 translation
static int selftest(unsigned seed) {
  ExprDB db; u64t r = seed * 2654435761u + 88172645463325252ull; auto rnd = [&](u64t n) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r % n; };
  std::vector<uint8_t> model(4); long n = 0;
  Solver sv(db);
  for (int it = 0; it < 3000; it++) {
    for (auto &m : model) { m = (uint8_t)rnd(256); if (!rnd(4)) m = (uint8_t)(rnd(3) * 127 + rnd(2)); }
    db.setModel(&model);
    struct P { E e; u64t v; }; std::vector<P> pool;
    for (int i = 0; i < 4; i++) pool.push_back({db.var(i), model[i]});
    for (int k = 0; k < 40; k++) {
      P a = pool[rnd(pool.size())], b = pool[rnd(pool.size())]; int w = a.e->w; u64t m = ExprDB::mask(w);
      if (b.e->w != w || !rnd(3)) { u64t c = rnd(3) ? rnd(4) : rnd(~0ull); if (!rnd(4)) c = m - rnd(3); if (!rnd(5)) c = 1ull << rnd(w); c &= m; b = {db.cst(w, c), c}; }
      P o; int64_t sa = ExprDB::sx(a.v, w), sb = ExprDB::sx(b.v, w);
      switch (rnd(21)) {
      case 0: o = {db.add(a.e, b.e), (a.v + b.v) & m}; break;
      case 1: o = {db.sub(a.e, b.e), (a.v - b.v) & m}; break;
      case 2: o = {db.mul(a.e, b.e), (a.v * b.v) & m}; break;
      case 3: o = {db.band(a.e, b.e), a.v & b.v}; break;
      case 4: o = {db.bor(a.e, b.e), a.v | b.v}; break;
      case 5: o = {db.bxor(a.e, b.e), a.v ^ b.v}; break;
      case 6: { u64t s = rnd(w + 1); o = {db.shl(a.e, db.cst(w, s)), s >= (u64t)w ? 0 : (a.v << s) & m}; if (!(ExprDB::mask(w) >= s)) continue; break; }
      case 7: { u64t s = rnd(w); o = {db.lshr(a.e, db.cst(w, s)), a.v >> s}; break; }
      case 8: { u64t s = rnd(w); o = {db.ashr(a.e, db.cst(w, s)), (u64t)(sa >> s) & m}; break; }
      case 9: o = {db.eq(a.e, b.e), a.v == b.v}; break;
      case 10: o = {db.ult(a.e, b.e), a.v < b.v}; break;
      case 11: o = {db.slt(a.e, b.e), sa < sb}; break;
      case 12: { int nw = w + rnd(65 - w); o = {db.zext(a.e, nw), a.v}; break; }
      case 13: { int nw = w + rnd(65 - w); o = {db.sext(a.e, nw), (u64t)sa & ExprDB::mask(nw)}; break; }
      case 14: { int lo = rnd(w), nw = 1 + rnd(w - lo); o = {db.extract(a.e, lo, nw), (a.v >> lo) & ExprDB::mask(nw)}; break; }
      case 15: { P c = pool[rnd(pool.size())]; if (c.e->w + w > 64) continue; o = {db.concat(a.e, c.e), (a.v << c.e->w) | c.v}; break; }
      case 16: { P c = pool[rnd(pool.size())]; if (c.e->w != 1) continue; o = {db.ite(c.e, a.e, b.e), c.v ? a.v : b.v}; break; }
      case 17: o = {db.bnot(a.e), ~a.v & m}; break;
      case 18: { if (!b.v || !ExprDB::isC(b.e)) continue; o = {db.divrem(K_UREM, a.e, b.e), a.v % b.v}; break; }
      case 19: { if (!b.v || !ExprDB::isC(b.e)) continue; o = {db.divrem(K_UDIV, a.e, b.e), a.v / b.v}; break; }
      case 20: o = {db.ule(a.e, b.e), a.v <= b.v}; break;
      }
      u64t ev = db.eval(o.e); n++;
      if (ev != o.v || o.e->w > 64) { printf("MISMATCH %s = %llx want %llx (a=%s b=%s)\n", db.str(o.e, 9).c_str(), (unsigned long long)ev, (unsigned long long)o.v, db.str(a.e).c_str(), db.str(b.e).c_str()); return 1; }
      if (const Lin *l = db.lin(o.e)) {
        u64t x = l->konst; for (int i = 0; i < o.e->w; i++) for (auto bit : l->rows[i]) if (model[bit / 8] >> (bit % 8) & 1) x ^= 1ull << i;
        if (x != o.v) { printf("LIN MISMATCH %s\n", db.str(o.e, 9).c_str()); return 1; }
      }
      pool.push_back(o);
    }
    // Z3 agrees with eval: value of last expr under the model is forced
    if (it % 10 == 0) {
      P a = pool.back(); std::vector<E> cs; for (int i = 0; i < 4; i++) cs.push_back(db.node(K_EQ, 1, 0, db.var(i), db.cst(8, model[i])));
      Model mo; auto c1 = cs; c1.push_back(db.node(K_EQ, 1, 0, a.e, db.cst(a.e->w, a.v))); if (ExprDB::isC(a.e)) continue;
      Model m2; std::vector<E> c2 = cs; c2.push_back(db.not1(c1.back()));
      if (sv.solve(c1, mo) != SAT || sv.solve(c2, m2) != UNSAT) { printf("Z3 MISMATCH %s\n", db.str(a.e, 9).c_str()); return 1; }
    }
  }
  printf("selftest ok: %ld simplified operations, %llu solver queries\n", n, (unsigned long long)sv.nZ3);
  return 0;
}

static int realMain(int argc, char **argv) {
  std::string in, entry = "harness", out; Engine *en = new Engine();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--selftest") return selftest(atoi(nx().c_str()));
    else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-mem") en->maxMemMB = strtoull(nx().c_str(), 0, 10); else if (a == "--max-time") en->maxTime = atof(nx().c_str());
    else if (a == "--max-steps") en->maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--max-paths") en->maxPaths = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-errors") en->maxErrors = atoi(nx().c_str()); else if (a == "--samples") en->nSamples = atoi(nx().c_str());
    else if (a == "--lib-prefix") en->libPrefix = nx(); else if (a == "--dump-dir") { en->sv.dumpDir = nx(); en->sv.dumpMax = 200; }
    else if (a == "--param") { std::string v = nx(); size_t e = v.find('='); en->params[v.substr(0, e)] = atoll(v.c_str() + e + 1); }
    else if (a == "--dump-max") en->sv.dumpMax = atoi(nx().c_str());
    else if (a == "--seed") en->rng ^= strtoull(nx().c_str(), 0, 0) * 0x9E3779B97F4A7C15ull; else if (a == "--max-depth") en->maxDepth = atoi(nx().c_str());
    else in = a;
  }
  L::SMDiagnostic err; en->M = L::parseIRFile(in, err, LCtx);
  if (!en->M) { err.print("symx", L::errs()); return 3; }
  en->DL = &en->M->getDataLayout();
  en->run(entry);
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w"); en->report(o); fflush(o); if (o != stdout) fclose(o);
  int rc = !en->errs.empty() ? 1 : (!en->unsupported.empty() ? 2 : 0);
  _exit(rc);
}
static int g_argc; static char **g_argv; static int g_rc;
static void *thr(void *) { g_rc = realMain(g_argc, g_argv); return nullptr; }
int main(int argc, char **argv) {
  // deep expression DAGs are walked recursively: run on a large stack
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t t; if (pthread_create(&t, &at, thr, nullptr)) { perror("pthread_create"); return 3; }
  pthread_join(t, nullptr); return g_rc;
}
