// symx: all-paths symbolic execution of LLVM IR for the nanostl harnesses.
#include "expr.h"
#include "solver.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <pthread.h>
#include <unordered_map>
#include <unistd.h>

using namespace llvm;

// ------------------------------------------------------------------ options
static std::string optEntry, optOut, optInputs, optSrcPrefix;
static std::vector<long> optParams;
static double optTime = 300;
static uint64_t optMaxSteps = 20000000000ull, optPathSteps = 20000000ull;
static unsigned optTests = 0, optMaxViol = 1, optSeed = 1;
static bool optTrace = false, optConcrete = false;
static std::map<std::string, uint64_t> optForce;

// ------------------------------------------------------------------ memory
enum class Kind : uint8_t { Global, Stack, Malloc, New, NewArr };
static const char *kindName(Kind k) {
  switch (k) { case Kind::Global: return "global"; case Kind::Stack: return "stack"; case Kind::Malloc: return "malloc"; case Kind::New: return "new"; default: return "new[]"; }
}
struct Obj {
  uint64_t base = 0, size = 0;
  Kind kind = Kind::Global;
  bool alive = true, ro = false;
  uint32_t seq = 0;
  std::vector<uint8_t> c;
  std::vector<Ex> s;          // empty when fully concrete
  std::vector<uint8_t> un;    // uninitialised flags; empty when fully initialised
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Reg {
  V v;
  std::shared_ptr<std::vector<Reg>> agg;
};

struct FInfo {
  const Function *f;
  DenseMap<const Value *, unsigned> slot;
  unsigned n = 0;
};

struct Frame {
  FInfo *fi = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::const_iterator it;
  std::vector<Reg> regs;
  std::vector<uint64_t> allocas;
  const CallBase *call = nullptr;   // in the caller
  std::vector<uint64_t> varargs;
};

struct NondetLog { unsigned w; Ex e; uint64_t c; };
struct UninitLog { uint32_t seq; Kind kind; uint32_t off; Ex e; };

// ------------------------------------------------------------------ threads
// Cooperative threads: a thread only stops at verif_sync/verif_await/verif_join.  Every choice of the next thread is
// explored; sleep sets leave out the interleavings that only swap independent steps.  Steps are independent when their
// sync objects are disjoint; this is justified for the plain accesses between them because a data race is a violation.
typedef std::vector<uint32_t> VC;
enum Pend { P_NONE, P_START, P_SYNC, P_AWAIT, P_JOIN };
struct Thr {
  std::vector<Frame> st;       // while not running
  int pend = P_NONE;
  bool done = false;
  uint64_t obj[2] = {0, 0}, word = 0, val = 0, hooked = 0;
  int join = 0;
  VC vc;
};
struct Shadow { int wT = -1; uint32_t wC = 0; VC rd; };
struct Threads {
  std::vector<Thr> t;
  unsigned cur = 0, sleep = 0;
  std::map<uint64_t, VC> sync;
  std::map<uint64_t, Shadow> sh;
  uint64_t heapTop0 = 0, stackTop0 = 0;
};

struct State {
  std::vector<Frame> st;
  std::shared_ptr<Threads> ts;
  std::map<uint64_t, ObjP> mem;
  std::vector<Ex> pc;
  std::shared_ptr<Model> model = std::make_shared<Model>();
  std::vector<NondetLog> nd;
  std::vector<UninitLog> un;
  std::vector<V> obs;
  uint64_t heapTop = 0x100000000000ull, stackTop = 0x700000000000ull;
  uint32_t allocSeq = 0, undefSeq = 0;
  uint64_t steps = 0;
  unsigned depth = 0;
  bool allowLeaks = false;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ results
struct Violation { std::string kind, msg, loc; std::vector<std::pair<unsigned, std::string>> nd; std::vector<std::string> uninit; };
static std::vector<Violation> gViol;
static std::vector<std::string> gInconc;
static std::set<std::string> gReach;
static std::map<std::string, uint64_t> gReachCount;
static uint64_t gPaths, gKilled, gSteps, gForks, gAsserts, gAssertQ, gMaxDepth, gMemChecks, gConcretised;
static std::set<const Function *> gFuncs;
struct PathTest { std::vector<std::pair<unsigned, std::string>> nd; std::vector<std::string> obs; std::vector<std::string> un; };
static std::vector<PathTest> gTests;
static uint64_t gTestSeen;
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static Module *M;
static const DataLayout *DL;
static std::map<const Function *, std::unique_ptr<FInfo>> gFI;
static DenseMap<const Value *, uint64_t> gGlobalAddr;
static std::map<uint64_t, const Function *> gFuncAddr;
static DenseMap<const Constant *, Reg> gConstCache;
static std::map<uint64_t, ObjP> gGlobals;
static std::vector<StateP> work;
static std::vector<std::pair<unsigned, std::string>> gInputs;
static bool gStop;

struct PathEnd {};     // thrown (C++ exception inside the engine) to end the current path
struct Fatal { std::string m; };

static std::string hexOf(const APInt &a) { SmallString<40> s; a.toStringUnsigned(s, 16); return std::string(s.str()); }
static std::string locOf(const State &S) {
  std::string r;
  int n = 0;
  for (auto it = S.st.rbegin(); it != S.st.rend() && n < 6; ++it) {
    const Frame &f = *it;
    const Instruction *I = nullptr;
    if (f.bb) {
      if (f.it != f.bb->begin()) I = &*std::prev(f.it);
      else if (f.it != f.bb->end()) I = &*f.it;
    }
    if (n) r += " <- ";
    r += demangle(f.fi->f->getName().str());
    if (I && I->getDebugLoc()) {
      r += " at " + std::string(cast<DIScope>(I->getDebugLoc().getScope())->getFilename()) + ":" + std::to_string(I->getDebugLoc().getLine());
    }
    n++;
  }
  return r;
}
static void fillLog(const State &S, const Model &m, std::vector<std::pair<unsigned, std::string>> &nd, std::vector<std::string> &un) {
  for (auto &l : S.nd) nd.push_back({l.w, l.e ? hexOf(m.eval(l.e)) : hexOf(APInt(l.w, l.c))});
  for (auto &u : S.un) {
    std::ostringstream o;
    o << kindName(u.kind) << " " << u.seq << " " << u.off << " " << hexOf(m.eval(u.e));
    un.push_back(o.str());
  }
}
static void violation(const State &S, const Model &m, const std::string &kind, const std::string &msg) {
  Violation v;
  v.kind = kind; v.msg = msg; v.loc = locOf(S);
  fillLog(S, m, v.nd, v.uninit);
  for (auto &o : gViol) if (o.kind == v.kind && o.msg == v.msg) return;
  gViol.push_back(v);
  // once a query had no answer the job cannot hold any more: report what was found
  if (gViol.size() >= optMaxViol || (kind != "termination" && !gInconc.empty())) gStop = true;
}
[[noreturn]] static void endViolation(const State &S, const std::string &kind, const std::string &msg) {
  violation(S, *S.model, kind, msg);
  throw PathEnd();
}
static void inconclusive(const std::string &m) {
  if (gInconc.size() < 20) gInconc.push_back(m);
  for (auto &v : gViol) if (v.kind != "termination") gStop = true;
}

// ------------------------------------------------------------------ solver glue
static std::vector<Ex> sliceFor(const State &S, Ex c) {
  std::set<uint32_t> vs(c->vars->begin(), c->vars->end());
  std::vector<Ex> r;
  std::vector<char> used(S.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S.pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *S.pc[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true;
      r.push_back(S.pc[i]);
      vs.insert(S.pc[i]->vars->begin(), S.pc[i]->vars->end());
    }
  }
  return r;
}
// is pc && c satisfiable?  On Sat *out is a model of pc && c.
static Res may(const State &S, Ex c, std::shared_ptr<Model> *out) {
  if (c->isC()) { if (c->cv.isZero()) return Res::Unsat; if (out) *out = S.model; return Res::Sat; }
  if (S.model->isTrue(c)) { if (out) *out = S.model; return Res::Sat; }
  std::vector<Ex> cs = sliceFor(S, c);
  // cheap syntactic checks
  for (Ex e : cs) { if (e == c) { fprintf(stderr, "symx: model out of sync\n"); break; } if (e == mkNot(c)) return Res::Unsat; }
  cs.push_back(c);
  auto m = std::make_shared<Model>(*S.model);
  Res r = solve(cs, m.get());
  if (r == Res::Sat && out) *out = m;
  return r;
}
static void addPC(State &S, Ex c) {
  if (c->isC()) return;
  if (c->op == Op::And && c->w == 1) { addPC(S, c->k[0]); addPC(S, c->k[1]); return; }
  for (Ex e : S.pc) if (e == c) return;
  S.pc.push_back(c);
}
static StateP forkOf(const State &S) {
  gForks++;
  StateP n(new State(S));
  if (S.ts) n->ts = std::make_shared<Threads>(*S.ts);
  n->depth++;
  gMaxDepth = std::max<uint64_t>(gMaxDepth, n->depth);
  return n;
}
// the state goes on where its model leads: that side is possible, the other one stays undecided
static void unkSide(const std::string &what) { inconclusive("solver gave no answer: " + what); }
[[noreturn]] static void unk(const std::string &what) {
  inconclusive("solver gave no answer: " + what);
  throw PathEnd();
}

// ------------------------------------------------------------------ memory access
static Obj *findObj(State &S, uint64_t addr, ObjP **slot = nullptr) {
  auto it = S.mem.upper_bound(addr);
  if (it == S.mem.begin()) return nullptr;
  --it;
  Obj *o = it->second.get();
  if (addr >= o->base && addr <= o->base + o->size) { if (slot) *slot = &it->second; return o; }
  return nullptr;
}
static Obj *wr(ObjP &p) {
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
static uint64_t newObj(State &S, uint64_t size, Kind k, const std::string &name, bool uninit = true) {
  auto o = std::make_shared<Obj>();
  uint64_t &top = k == Kind::Stack ? S.stackTop : S.heapTop;
  o->base = top;
  uint64_t gap = std::max<uint64_t>(0x10000, (size + 0xffff) & ~0xffffull);
  top += ((size + 0xffff) & ~0xffffull) + gap;
  o->size = size; o->kind = k; o->name = name;
  if (k != Kind::Stack) o->seq = S.allocSeq++;
  o->c.assign(size, 0);
  if (uninit) o->un.assign(size, 1);
  S.mem[o->base] = o;
  return o->base;
}
static void materialise(State &S, ObjP &p, uint64_t off) {
  Obj *o = wr(p);
  std::string nm = (o->kind == Kind::Stack ? "us" : "uh") + std::to_string(o->kind == Kind::Stack ? o->base >> 16 & 0xffffffff : o->seq) + "_" + std::to_string(off);
  Ex e = mkVar(nm, 8);
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  o->s[off] = e;
  o->un[off] = 0;
  S.un.push_back({o->seq, o->kind, (uint32_t)off, e});
}
static V readBytes(State &S, ObjP &p, uint64_t off, unsigned n) {
  Obj *o = p.get();
  if (!o->un.empty())
    for (unsigned i = 0; i < n; i++) if (o->un[off + i]) { materialise(S, p, off + i); o = p.get(); }
  if (o->s.empty()) {
    if (n <= 8) {
      uint64_t r = 0;
      for (unsigned i = 0; i < n; i++) r |= (uint64_t)o->c[off + i] << (8 * i);
      return V(r, n * 8);
    }
    APInt r(n * 8, 0);
    for (unsigned i = 0; i < n; i++) r |= APInt(n * 8, o->c[off + i]).shl(8 * i);
    return V(mkConst(r));
  }
  bool anyS = false;
  for (unsigned i = 0; i < n; i++) if (o->s[off + i]) anyS = true;
  if (!anyS && n <= 8) {
    uint64_t r = 0;
    for (unsigned i = 0; i < n; i++) r |= (uint64_t)o->c[off + i] << (8 * i);
    return V(r, n * 8);
  }
  V r;
  for (unsigned i = 0; i < n; i++) {
    V b = o->s[off + i] ? V(o->s[off + i]) : V(o->c[off + i], 8);
    r = i == 0 ? b : vConcat(b, r);
  }
  return r;
}
static void writeBytes(ObjP &p, uint64_t off, const V &v0, unsigned n) {
  Obj *o = wr(p);
  V v = v0;
  if (v.w != n * 8) v = v.w < n * 8 ? vZExt(v, n * 8) : vExtract(v, 0, n * 8);
  for (unsigned i = 0; i < n; i++) {
    V b = vExtract(v, 8 * i, 8);
    if (b.e && b.e->isC()) b = V(b.e->cv.getZExtValue(), 8);
    if (b.e) {
      if (o->s.empty()) o->s.assign(o->size, nullptr);
      o->s[off + i] = b.e;
    } else {
      o->c[off + i] = b.c;
      if (!o->s.empty()) o->s[off + i] = nullptr;
    }
  }
  if (!o->un.empty()) for (unsigned i = 0; i < n; i++) o->un[off + i] = 0;
}
static std::string descAddr(State &S, uint64_t a) {
  if (a < 4096) return "null pointer access";
  auto it = S.mem.upper_bound(a);
  if (it == S.mem.begin()) return "wild pointer";
  --it;
  Obj *o = it->second.get();
  if (!o->alive && a <= o->base + o->size + 4096) return std::string("use of ") + (o->kind == Kind::Stack ? "dead stack object" : "freed memory");
  if (a < o->base + o->size + 0x100000) return std::string("out-of-bounds of ") + kindName(o->kind) + " object of " + std::to_string(o->size) + " bytes (offset " + std::to_string(a - o->base) + ")";
  return "wild pointer";
}
static bool okRange(Obj *o, uint64_t a, uint64_t n) { return o && o->alive && a >= o->base && a + n <= o->base + o->size && a + n >= a; }

struct Engine;
static Reg &regOf(Frame &f, const Value *v) { return f.regs[f.fi->slot.find(v)->second]; }

// Values whose only symbolic parts are conditions (select chains, bool-to-int conversions): collect the conditions.
static bool boolAtoms(Ex e, std::vector<Ex> &atoms, std::set<Ex> &seen) {
  if (e->isC() || !seen.insert(e).second) return true;
  if (seen.size() > 60) return false;
  if (e->w == 1 && e->op != Op::Ite) {
    if (std::find(atoms.begin(), atoms.end(), e) == atoms.end()) atoms.push_back(e);
    return atoms.size() <= 6;
  }
  switch (e->op) {
  case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::Ite:
  case Op::Concat: case Op::ZExt: case Op::SExt: case Op::Extract: break;
  default: return false;
  }
  for (int i = 0; i < e->nk; i++) if (!boolAtoms(e->k[i], atoms, seen)) return false;
  return true;
}
static Ex substAtom(Ex e, Ex atom, Ex val, std::unordered_map<Ex, Ex> &memo) {
  if (e == atom) return val;
  if (e->isC() || e->op == Op::Var) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  if (e->w == 1 && e->op != Op::Ite) return memo[e] = e;   // other conditions stay
  Ex k[3] = {};
  for (int i = 0; i < e->nk; i++) k[i] = substAtom(e->k[i], atom, val, memo);
  Ex r;
  switch (e->op) {
  case Op::Ite: r = mkIte(k[0], k[1], k[2]); break;
  case Op::Concat: r = mkConcat(k[0], k[1]); break;
  case Op::ZExt: r = mkZExt(k[0], e->w); break;
  case Op::SExt: r = mkSExt(k[0], e->w); break;
  case Op::Extract: r = mkExtract(k[0], e->aux, e->w); break;
  default: r = mkBin(e->op, k[0], k[1]);
  }
  return memo[e] = r;
}
// Split such a value on its conditions until it is constant; `I` is re-executed in the forks.
static void boolSplit(State &S, V &v, const Instruction *I) {
  if (v.conc() || v.e->isC()) return;
  std::vector<Ex> atoms;
  std::set<Ex> seen;
  if (!boolAtoms(v.e, atoms, seen)) return;
  Ex e = v.e;
  for (int i = 0; i < 40 && !e->isC(); i++) {
    atoms.clear(); seen.clear();
    if (!boolAtoms(e, atoms, seen) || atoms.empty()) break;
    Ex a = atoms[0];
    bool cur = S.model->isTrue(a);
    Ex keep = cur ? a : mkNot(a), other = cur ? mkNot(a) : a;
    std::shared_ptr<Model> m;
    Res r = may(S, other, &m);
    if (r == Res::Unknown) { unkSide("branch"); addPC(S, keep); }
    if (r == Res::Sat) {
      StateP n = forkOf(S);
      n->model = m;
      addPC(*n, other);
      n->st.back().it = I->getIterator();
      work.push_back(std::move(n));
      addPC(S, keep);
    }
    std::unordered_map<Ex, Ex> memo;
    e = substAtom(e, a, mkConst(cur ? 1 : 0, 1), memo);
  }
  v = V(e);
}

// make a symbolic value concrete by forking; `I` is re-executed in the fork
static uint64_t concretize(State &S, const V &v0, const Value *src, const Instruction *I) {
  V v = v0;
  if (v.w > 1) boolSplit(S, v, I);
  if (v.conc()) return v.c;
  if (v.e->isC()) return v.e->cv.getZExtValue();
  gConcretised++;
  APInt val = S.model->eval(v.e);
  Ex eq = mkBin(Op::Eq, v.e, mkConst(val));
  std::shared_ptr<Model> m;
  Res r = may(S, mkNot(eq), &m);
  if (r == Res::Unknown) unk("concretisation");
  if (r == Res::Sat) {
    StateP n = forkOf(S);
    n->model = m;
    addPC(*n, mkNot(eq));
    n->st.back().it = I->getIterator();
    work.push_back(std::move(n));
    addPC(S, eq);
  }
  if (src && S.st.back().fi->slot.count(src)) regOf(S.st.back(), src).v = V(val.getZExtValue(), v.w);
  return val.getZExtValue();
}

// Resolve a (possibly symbolic) address to one object in which the access is in bounds.
static ObjP *resolve(State &S, V &a, uint64_t n, const Instruction *I, bool write) {
  gMemChecks++;
  boolSplit(S, a, I);
  ObjP *slot = nullptr;
  uint64_t va = a.conc() ? a.c : S.model->eval(a.e).getZExtValue();
  Obj *o = findObj(S, va, &slot);
  if (!okRange(o, va, n)) {
    // zero-size neighbour may shadow; report
    endViolation(S, "memory", std::string(write ? "write of " : "read of ") + std::to_string(n) + " bytes: " + descAddr(S, va));
  }
  if (write && o->ro) endViolation(S, "memory", "write to constant memory " + o->name);
  if (a.conc()) return slot;
  Ex in = mkBin(Op::Ule, mkBin(Op::Sub, a.e, mkConst(o->base, 64)), mkConst(o->size - n, 64));
  if (in->isC()) return slot;
  std::shared_ptr<Model> m;
  Res r = may(S, mkNot(in), &m);
  if (r == Res::Unknown) unk("pointer resolution");
  if (r == Res::Sat) {
    StateP f = forkOf(S);
    f->model = m;
    addPC(*f, mkNot(in));
    f->st.back().it = I->getIterator();
    work.push_back(std::move(f));
    addPC(S, in);
  }
  return slot;
}

static ObjP *resolve(State &S, V &&a, uint64_t n, const Instruction *I, bool write) { return resolve(S, a, n, I, write); }

static V iteTree(Ex off, const std::vector<std::pair<uint64_t, V>> &t, size_t lo, size_t hi) {
  if (hi - lo == 1) return t[lo].second;
  bool same = true;
  for (size_t i = lo + 1; i < hi && same; i++)
    same = (t[i].second.e == t[lo].second.e) && (t[i].second.e || t[i].second.c == t[lo].second.c);
  if (same) return t[lo].second;
  size_t mid = (lo + hi) / 2;
  V l = iteTree(off, t, lo, mid), r = iteTree(off, t, mid, hi);
  return vIte(V(mkBin(Op::Ult, off, mkConst(t[mid].first, 64))), l, r);
}

static V loadMem(State &S, const V &a0, const Value *asrc, unsigned n, const Instruction *I) {
  V a = a0;
  if (!a.conc() && a.e->isC()) a = V(a.e->cv.getZExtValue(), 64);
  ObjP *slot = resolve(S, a, n, I, false);
  Obj *o = slot->get();
  if (a.conc()) return readBytes(S, *slot, a.c - o->base, n);
  Ex off = mkBin(Op::Sub, a.e, mkConst(o->base, 64));
  unsigned tz = std::min(knownTrailingZeros(off), 12u);
  uint64_t step = 1ull << tz, cnt = (o->size - n) / step + 1;
  if (cnt > 6000) {
    uint64_t c = concretize(S, a, asrc, I);
    return readBytes(S, *slot, c - (*slot)->base, n);
  }
  std::vector<std::pair<uint64_t, V>> t;
  for (uint64_t i = 0; i < cnt; i++) t.push_back({i * step, readBytes(S, *slot, i * step, n)});
  return iteTree(off, t, 0, t.size());
}
static void storeMem(State &S, const V &a0, const Value *asrc, const V &v, unsigned n, const Instruction *I) {
  V a = a0;
  if (!a.conc() && a.e->isC()) a = V(a.e->cv.getZExtValue(), 64);
  ObjP *slot = resolve(S, a, n, I, true);
  Obj *o = slot->get();
  if (a.conc()) { writeBytes(*slot, a.c - o->base, v, n); return; }
  Ex off = mkBin(Op::Sub, a.e, mkConst(o->base, 64));
  unsigned tz = std::min(knownTrailingZeros(off), 12u);
  uint64_t step = 1ull << tz, cnt = (o->size - n) / step + 1;
  if (cnt > 256) {
    uint64_t c = concretize(S, a, asrc, I);
    writeBytes(*slot, c - (*slot)->base, v, n);
    return;
  }
  for (uint64_t i = 0; i < cnt; i++) {
    V old = readBytes(S, *slot, i * step, n);
    V nv = vIte(V(mkBin(Op::Eq, off, mkConst(i * step, 64))), v.w == old.w ? v : vZExt(v, old.w), old);
    writeBytes(*slot, i * step, nv, n);
  }
}

// ------------------------------------------------------------------ constants
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  return DL->getTypeSizeInBits(t).getFixedValue();
}
static unsigned bytesOf(Type *t) { return DL->getTypeStoreSize(t).getFixedValue(); }

static Reg undefReg(State *S, Type *t);
static Reg evalConst(State *S, const Constant *c);

static Reg constUncached(State *S, const Constant *c) {
  Reg r;
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { r.v = V(mkConst(ci->getValue())); return r; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { r.v = V(mkConst(cf->getValueAPF().bitcastToAPInt())); return r; }
  if (isa<ConstantPointerNull>(c)) { r.v = V(0, 64); return r; }
  if (auto *gv = dyn_cast<GlobalAlias>(c)) return evalConst(S, gv->getAliasee());
  if (isa<GlobalValue>(c)) {
    auto it = gGlobalAddr.find(c);
    if (it == gGlobalAddr.end()) throw Fatal{"address of unknown global " + c->getName().str()};
    r.v = V(it->second, 64);
    return r;
  }
  if (isa<ConstantAggregateZero>(c)) {
    if (t->isVectorTy()) { r.v = V(mkConst(APInt(bitsOf(t), 0))); return r; }
    r.agg = std::make_shared<std::vector<Reg>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(evalConst(S, c->getAggregateElement(i)));
    return r;
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    if (t->isVectorTy()) {
      unsigned n = cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) {
        V e = evalConst(S, c->getAggregateElement(i)).v;
        r.v = i ? vConcat(e, r.v) : e;
      }
      return r;
    }
    r.agg = std::make_shared<std::vector<Reg>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(evalConst(S, c->getAggregateElement(i)));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Fatal{"constant gep"};
      r.v = vBin(Op::Add, evalConst(S, ce->getOperand(0)).v, V(off.getZExtValue(), 64));
      return r;
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(S, ce->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      V v = evalConst(S, ce->getOperand(0)).v;
      unsigned w = bitsOf(t);
      r.v = w < v.w ? vExtract(v, 0, w) : vZExt(v, w);
      return r;
    }
    case Instruction::Trunc: r.v = vExtract(evalConst(S, ce->getOperand(0)).v, 0, bitsOf(t)); return r;
    case Instruction::Sub: r.v = vBin(Op::Sub, evalConst(S, ce->getOperand(0)).v, evalConst(S, ce->getOperand(1)).v); return r;
    case Instruction::Add: r.v = vBin(Op::Add, evalConst(S, ce->getOperand(0)).v, evalConst(S, ce->getOperand(1)).v); return r;
    default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  throw Fatal{"unsupported constant " + s};
}
static bool hasUndef(const Constant *c) {
  if (isa<UndefValue>(c)) return true;
  if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) if (hasUndef(cast<Constant>(o))) return true;
  return false;
}
static Reg evalConst(State *S, const Constant *c) {
  if (isa<UndefValue>(c)) return undefReg(S, c->getType());
  auto it = gConstCache.find(c);
  if (it != gConstCache.end()) return it->second;
  Reg r = constUncached(S, c);
  if (!hasUndef(c)) gConstCache[c] = r;
  return r;
}
static Reg undefReg(State *S, Type *t) {
  Reg r;
  if (t->isStructTy() || t->isArrayTy()) {
    r.agg = std::make_shared<std::vector<Reg>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      Reg z;  // lanes of undef aggregates are normally overwritten; use zero width-correct lazily
      if (et->isStructTy() || et->isArrayTy()) z = undefReg(S, et);
      else if (!S) z.v = V(mkConst(APInt(bitsOf(et), 0)));
      else z.v = V(mkVar("undef" + std::to_string(S->undefSeq++), bitsOf(et)));
      r.agg->push_back(z);
    }
    return r;
  }
  if (!S) r.v = V(mkConst(APInt(bitsOf(t), 0)));
  else r.v = V(mkVar("undef" + std::to_string(S->undefSeq++), bitsOf(t)));
  return r;
}
static void writeConst(ObjP &o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) return;  // object is zero filled
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      if (cds->isString() || cds->getElementByteSize() == es) {
        StringRef raw = cds->getRawDataValues();
        for (size_t i = 0; i < raw.size(); i++) o->c[off + i] = raw[i];
        return;
      }
    }
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) writeConst(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  Reg r = evalConst(nullptr, c);
  writeBytes(o, off, r.v, bytesOf(t));
}

static FInfo *finfo(const Function *f) {
  auto &p = gFI[f];
  if (!p) {
    p.reset(new FInfo);
    p->f = f;
    for (auto &a : f->args()) p->slot[&a] = p->n++;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
  }
  return p.get();
}

static Reg operand(State &S, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return evalConst(&S, c);
  Frame &f = S.st.back();
  auto it = f.fi->slot.find(v);
  if (it == f.fi->slot.end()) throw Fatal{"operand without slot"};
  return f.regs[it->second];
}
static V opv(State &S, const Value *v) { return operand(S, v).v; }

static void setReg(State &S, const Value *I, const Reg &r) {
  if (I->getType()->isVoidTy()) return;
  Frame &f = S.st.back();
  f.regs[f.fi->slot.find(I)->second] = r;
}
static void setV(State &S, const Value *I, const V &v) { Reg r; r.v = v; setReg(S, I, r); }

// typed load/store of possibly aggregate values
static Reg loadTyped(State &S, const V &a, const Value *asrc, Type *t, const Instruction *I) {
  Reg r;
  if (t->isStructTy() || t->isArrayTy()) {
    r.agg = std::make_shared<std::vector<Reg>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType());
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      r.agg->push_back(loadTyped(S, vBin(Op::Add, a, V(off, 64)), nullptr, et, I));
    }
    return r;
  }
  unsigned n = bytesOf(t), b = bitsOf(t);
  if (t->isPointerTy() && !a.conc() && !a.e->isC()) {   // a pointer read through a symbolic address: split on the address
    V pa = a;
    resolve(S, pa, n, I, false);
    r.v = loadMem(S, V(concretize(S, pa, asrc, I), 64), nullptr, n, I);
    return r;
  }
  r.v = loadMem(S, a, asrc, n, I);
  if (r.v.w != b) r.v = vExtract(r.v, 0, b);
  return r;
}
static void storeTyped(State &S, const V &a, const Value *asrc, const Reg &v, Type *t, const Instruction *I) {
  if (t->isStructTy() || t->isArrayTy()) {
    for (unsigned i = 0; i < v.agg->size(); i++) {
      uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType());
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      storeTyped(S, vBin(Op::Add, a, V(off, 64)), nullptr, (*v.agg)[i], et, I);
    }
    return;
  }
  storeMem(S, a, asrc, v.v, bytesOf(t), I);
}

// ------------------------------------------------------------------ branching
static void jump(State &S, const BasicBlock *to) {
  Frame &f = S.st.back();
  f.prev = f.bb;
  f.bb = to;
  f.it = to->begin();
  // phis in parallel
  std::vector<std::pair<const PHINode *, Reg>> vals;
  for (auto &ph : to->phis()) vals.push_back({&ph, operand(S, ph.getIncomingValueForBlock(f.prev))});
  for (auto &p : vals) setReg(S, p.first, p.second);
  if (!vals.empty()) f.it = to->getFirstNonPHIIt();
}
// decide a symbolic condition; forks when both ways are possible. `other` configures the forked state.
static bool decide(State &S, Ex c, const std::function<void(State &)> &other, const char *what) {
  bool cur = S.model->isTrue(c);
  Ex want = cur ? c : mkNot(c);
  std::shared_ptr<Model> m;
  Res r = may(S, mkNot(want), &m);
  if (r == Res::Unknown) { unkSide(what); addPC(S, want); }
  if (r == Res::Sat) {
    StateP n = forkOf(S);
    n->model = m;
    addPC(*n, mkNot(want));
    try { other(*n); work.push_back(std::move(n)); } catch (PathEnd &) { gPaths++; }
    addPC(S, want);
  }
  return cur;
}

// ------------------------------------------------------------------ library functions
static void freeObj(State &S, uint64_t p, Kind want, const char *how) {
  if (p == 0) return;
  ObjP *slot = nullptr;
  Obj *o = findObj(S, p, &slot);
  if (!o || o->base != p) endViolation(S, "memory", std::string(how) + " of a pointer that is not the start of an allocation: " + descAddr(S, p));
  if (!o->alive) endViolation(S, "memory", std::string("double free (") + how + ")");
  if (o->kind == Kind::Stack || o->kind == Kind::Global) endViolation(S, "memory", std::string(how) + " of a " + kindName(o->kind) + " object");
  if (o->kind != want) endViolation(S, "memory", std::string("memory from ") + kindName(o->kind) + " released with " + how);
  o = wr(*slot);
  o->alive = false;
  o->c.clear(); o->s.clear(); o->un.clear();
  o->c.shrink_to_fit();
}
static bool isPrefix(StringRef a, const char *b) { return a.starts_with(b); }

static V readConcBytesPtr(State &S, const V &a, unsigned n, const Instruction *I) { return loadMem(S, a, nullptr, n, I); }

static std::string cstr(State &S, const Value *v) {
  V a = opv(S, v);
  std::string r;
  if (!a.conc() || a.c == 0) return r;
  ObjP *slot;
  Obj *o = findObj(S, a.c, &slot);
  if (!o) return r;
  for (uint64_t i = a.c - o->base; i < o->size && o->c[i]; i++) r += (char)o->c[i];
  return r;
}

static void raceCheck(State &S, const V &a, unsigned n, bool write, bool atomic, const Instruction *I);
static void doMemcpy(State &S, const CallBase *I, bool move) {
  uint64_t n = concretize(S, opv(S, I->getArgOperand(2)), I->getArgOperand(2), I);
  if (n == 0) return;
  uint64_t d = concretize(S, opv(S, I->getArgOperand(0)), I->getArgOperand(0), I);
  uint64_t s = concretize(S, opv(S, I->getArgOperand(1)), I->getArgOperand(1), I);
  if (n > (1ull << 40)) endViolation(S, "memory", "memcpy with length " + std::to_string(n));
  if (S.ts) { raceCheck(S, V(s, 64), n, false, false, I); raceCheck(S, V(d, 64), n, true, false, I); }
  ObjP *ss = resolve(S, V(s, 64), n, I, false);
  if (!move && d != s && d < s + n && s < d + n) endViolation(S, "memory", "memcpy with overlapping ranges");
  std::vector<V> tmp;
  for (uint64_t i = 0; i < n; i++) tmp.push_back(readBytes(S, *ss, s - (*ss)->base + i, 1));
  ObjP *ds = resolve(S, V(d, 64), n, I, true);
  for (uint64_t i = 0; i < n; i++) writeBytes(*ds, d - (*ds)->base + i, tmp[i], 1);
}
static void doMemset(State &S, const CallBase *I) {
  uint64_t n = concretize(S, opv(S, I->getArgOperand(2)), I->getArgOperand(2), I);
  if (n == 0) return;
  uint64_t d = concretize(S, opv(S, I->getArgOperand(0)), I->getArgOperand(0), I);
  V v = vExtract(opv(S, I->getArgOperand(1)), 0, 8);
  ObjP *ds = resolve(S, V(d, 64), n, I, true);
  for (uint64_t i = 0; i < n; i++) writeBytes(*ds, d - (*ds)->base + i, v, 1);
}

static V nondet(State &S, unsigned w) {
  size_t i = S.nd.size();
  if (optConcrete) {
    uint64_t c = 0;
    if (i < gInputs.size()) c = strtoull(gInputs[i].second.c_str(), nullptr, 16);
    V v(c, w);
    S.nd.push_back({w, nullptr, v.c});
    return v;
  }
  Ex e = mkVar("n" + std::to_string(i), w);
  S.nd.push_back({w, e, 0});
  return V(e);
}

static void pushCall(State &S, const Function *f, const std::vector<Reg> &args, const CallBase *cb) {
  if (S.st.size() > 2000) {   // the replay decides: it must overflow the stack or never end
    inconclusive("call depth limit in " + f->getName().str());
    violation(S, *S.model, "termination", "the calls do not end: more than 2000 are active");
    throw PathEnd();
  }
  Frame fr;
  fr.fi = finfo(f);
  fr.bb = &f->getEntryBlock();
  fr.it = fr.bb->begin();
  fr.regs.resize(fr.fi->n);
  fr.call = cb;
  unsigned i = 0;
  for (auto &a : f->args()) {
    if (i < args.size()) {
      Reg r = args[i];
      if (a.hasByValAttr()) {
        Type *bt = a.getParamByValType();
        uint64_t n = DL->getTypeAllocSize(bt);
        uint64_t base = newObj(S, n, Kind::Stack, "byval");
        uint64_t src = r.v.conc() ? r.v.c : concretize(S, r.v, nullptr, cb);
        ObjP *ss = resolve(S, V(src, 64), n, cb, false);
        std::vector<V> tmp;
        uint64_t so = src - (*ss)->base;
        for (uint64_t k = 0; k < n; k++) tmp.push_back(readBytes(S, *ss, so + k, 1));
        ObjP &d = S.mem[base];
        for (uint64_t k = 0; k < n; k++) writeBytes(d, k, tmp[k], 1);
        fr.allocas.push_back(base);
        r = Reg(); r.v = V(base, 64);
      }
      fr.regs[fr.fi->slot[&a]] = r;
    }
    i++;
  }
  gFuncs.insert(f);
  S.st.push_back(std::move(fr));
}

static void finishPath(State &S) {
  if (!S.allowLeaks) {
    for (auto &kv : S.mem) {
      Obj *o = kv.second.get();
      if (o->alive && (o->kind == Kind::New || o->kind == Kind::NewArr || o->kind == Kind::Malloc))
        endViolation(S, "leak", std::string("memory from ") + kindName(o->kind) + " never released");
    }
  }
  gTestSeen++;
  if (optTests) {
    size_t pos;
    if (gTests.size() < optTests) { pos = gTests.size(); gTests.emplace_back(); }
    else { pos = rnd() % gTestSeen; if (pos >= optTests) return; gTests[pos] = PathTest(); }
    PathTest &t = gTests[pos];
    // uninitialised bytes that were only copied around (padding) do not influence the path
    std::set<uint32_t> used;
    for (Ex e : S.pc) used.insert(e->vars->begin(), e->vars->end());
    for (auto &o : S.obs) if (o.e) used.insert(o.e->vars->begin(), o.e->vars->end());
    auto dead = [&](const decltype(S.un)::value_type &u) { return !used.count(u.e->aux); };
    S.un.erase(std::remove_if(S.un.begin(), S.un.end(), dead), S.un.end());
    fillLog(S, *S.model, t.nd, t.un);
    for (auto &o : S.obs) t.obs.push_back(o.e ? hexOf(S.model->eval(o.e)) : hexOf(APInt(o.w, o.c)));
  }
}

static bool vcLe(const VC &v, unsigned t, uint32_t c) { return t < v.size() && c <= v[t]; }
static void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static uint64_t gRaceChecks, gSwitches, gSleepCut;
static void raceCheck(State &S, const V &a, unsigned n, bool write, bool atomic, const Instruction *I) {
  Threads &T = *S.ts;
  if (!a.conc() && !a.e->isC()) throw Fatal{"access through a symbolic address while threads run"};
  uint64_t p = a.conc() ? a.c : a.e->cv.getZExtValue();
  Thr &me = T.t[T.cur];
  if (atomic) {
    if (me.hooked != p) throw Fatal{"atomic access that the harness does not intercept"};
    me.hooked = 0;
    return;
  }
  if (p >= 0x700000000000ull ? p >= T.stackTop0 : p >= 0x100000000000ull ? p >= T.heapTop0 : false) return;
  gRaceChecks++;
  for (unsigned i = 0; i < n; i++) {
    Shadow &s = T.sh[p + i];
    bool bad = s.wT >= 0 && (unsigned)s.wT != T.cur && !vcLe(me.vc, s.wT, s.wC);
    if (write) for (unsigned r = 0; r < s.rd.size(); r++) if (r != T.cur && s.rd[r] && !vcLe(me.vc, r, s.rd[r])) bad = true;
    if (bad) endViolation(S, "race", "data race: two threads access the same memory without synchronisation, at least one writing");
    if (write) { s.wT = T.cur; s.wC = me.vc[T.cur]; s.rd.clear(); }
    else { if (s.rd.size() <= T.cur) s.rd.resize(T.cur + 1); s.rd[T.cur] = me.vc[T.cur]; }
  }
}
static bool thrEnabled(State &S, const Thr &t) {
  if (t.done || t.pend == P_NONE) return false;
  if (t.pend == P_JOIN) return S.ts->t[t.join].done;
  if (t.pend == P_AWAIT) {
    ObjP *slot = nullptr;
    Obj *o = findObj(S, t.word, &slot);
    if (!okRange(o, t.word, 4)) endViolation(S, "memory", "wait on dead memory: " + descAddr(S, t.word));
    V v = readBytes(S, *slot, t.word - o->base, 4);
    if (!v.conc()) throw Fatal{"symbolic word in verif_await"};
    return (uint32_t)v.c == (uint32_t)t.val;
  }
  return true;
}
static bool thrDependent(const Thr &a, const Thr &b) {
  for (uint64_t x : a.obj) if (x) for (uint64_t y : b.obj) if (x == y) return true;
  return false;
}
static void thrRun(State &S, unsigned k) {
  Threads &T = *S.ts;
  gSwitches++;
  if (k != T.cur) {
    T.t[T.cur].st = std::move(S.st);
    S.st = std::move(T.t[k].st);
    T.t[k].st.clear();
    T.cur = k;
  }
  Thr &t = T.t[k];
  for (uint64_t o : t.obj) if (o) vcJoin(t.vc, T.sync[o]);
  if (t.pend == P_JOIN) vcJoin(t.vc, T.t[t.join].vc);
  for (uint64_t o : t.obj) if (o) vcJoin(T.sync[o], t.vc);
  t.vc[k]++;
  t.hooked = t.pend == P_SYNC ? t.obj[0] : 0;
  t.pend = P_NONE;
  t.obj[0] = t.obj[1] = 0;
}
static void schedule(State &S) {
  Threads &T = *S.ts;
  std::vector<unsigned> en, cand;
  bool all = true;
  for (unsigned i = 0; i < T.t.size(); i++) {
    if (!T.t[i].done) all = false;
    if (thrEnabled(S, T.t[i])) { en.push_back(i); if (!(T.sleep >> i & 1)) cand.push_back(i); }
  }
  if (all) return;
  if (en.empty()) endViolation(S, "deadlock", "deadlock: every unfinished thread waits for ever");
  if (optConcrete) {
    unsigned k = en[0];
    if (en.size() > 1) {
      size_t i = S.nd.size();
      unsigned want = i < gInputs.size() ? (unsigned)strtoull(gInputs[i].second.c_str(), nullptr, 16) : en[0];
      for (unsigned e : en) if (e == want) k = e;
      S.nd.push_back({32, nullptr, k});
    }
    thrRun(S, k);
    return;
  }
  if (cand.empty()) { gSleepCut++; gKilled++; throw PathEnd(); }
  unsigned base = T.sleep, seen = 0;
  auto go = [&](State &X, unsigned k, unsigned sl) {
    unsigned ns = 0;
    for (unsigned i = 0; i < X.ts->t.size(); i++) if ((sl >> i & 1) && !thrDependent(X.ts->t[i], X.ts->t[k])) ns |= 1u << i;
    X.ts->sleep = ns;
    if (en.size() > 1) X.nd.push_back({32, nullptr, k});
    thrRun(X, k);
  };
  std::vector<StateP> later;
  for (size_t i = 0; i + 1 < cand.size(); i++) seen |= 1u << cand[i];
  // the last candidate sleeps on the earlier ones; explore it as a fork, the first one continues here
  unsigned acc = 0;
  for (size_t i = 0; i < cand.size(); i++) {
    if (i) {
      StateP n = forkOf(S);
      go(*n, cand[i], base | acc);
      later.push_back(std::move(n));
    }
    acc |= 1u << cand[i];
  }
  (void)seen;
  go(S, cand[0], base);
  while (!later.empty()) { work.push_back(std::move(later.back())); later.pop_back(); }
}
static void threadPoint(State &S, int pend, uint64_t o1, uint64_t o2, uint64_t word, uint64_t val, int join) {
  Thr &t = S.ts->t[S.ts->cur];
  t.pend = pend; t.obj[0] = o1; t.obj[1] = o2; t.word = word; t.val = val; t.join = join;
  schedule(S);
}

// returns true if handled
static bool external(State &S, const CallBase *I, const Function *f) {
  StringRef n = f->getName();
  auto A = [&](unsigned i) { return opv(S, I->getArgOperand(i)); };
  auto CA = [&](unsigned i) { return concretize(S, A(i), I->getArgOperand(i), I); };
  if (n.starts_with("verif_")) {
    if (n == "verif_u8") { setV(S, I, nondet(S, 8)); return true; }
    if (n == "verif_u16") { setV(S, I, nondet(S, 16)); return true; }
    if (n == "verif_u32") { setV(S, I, nondet(S, 32)); return true; }
    if (n == "verif_u64") { setV(S, I, nondet(S, 64)); return true; }
    if (n == "verif_assume") {
      V c = A(0);
      V b = vNot(vBin(Op::Eq, c, V(0, c.w)));
      if (b.conc()) { if (!b.c) { gKilled++; throw PathEnd(); } return true; }
      std::shared_ptr<Model> m;
      Res r = may(S, b.e, &m);
      if (r == Res::Unknown) unk("assume");
      if (r == Res::Unsat) { gKilled++; throw PathEnd(); }
      S.model = m;
      addPC(S, b.e);
      return true;
    }
    if (n == "verif_assert") {
      gAsserts++;
      V c = A(0);
      V b = vNot(vBin(Op::Eq, c, V(0, c.w)));
      std::string msg = cstr(S, I->getArgOperand(1));
      if (b.conc()) { if (!b.c) endViolation(S, "assert", msg); return true; }
      gAssertQ++;
      std::shared_ptr<Model> m;
      Ex nb = mkNot(b.e);
      Res r = may(S, nb, &m);
      if (r == Res::Unknown) { unkSide("assertion: " + msg); addPC(S, b.e); return true; }   // the state's own model satisfies it
      if (r == Res::Sat) { violation(S, *m, "assert", msg); 
        // continue on the satisfying side, if any
        Res r2 = may(S, b.e, &m);
        if (r2 != Res::Sat) throw PathEnd();
        S.model = m; addPC(S, b.e);
      }
      return true;
    }
    if (n == "verif_reach") { std::string s = cstr(S, I->getArgOperand(0)); gReach.insert(s); gReachCount[s]++; return true; }
    if (n == "verif_observe") { S.obs.push_back(A(0)); return true; }
    if (n == "verif_param") { uint64_t i = CA(0); setV(S, I, V(i < optParams.size() ? (uint64_t)optParams[i] : 0, 64)); return true; }
    if (n == "verif_allow_leaks") { S.allowLeaks = true; return true; }
    if (n == "verif_live_heap") {
      uint64_t k = 0;
      for (auto &kv : S.mem) { Obj *o = kv.second.get(); if (o->alive && o->kind != Kind::Global && o->kind != Kind::Stack) k++; }
      setV(S, I, V(k, 64));
      return true;
    }
    if (n == "verif_ref") { V x = A(1); uint64_t f = CA(0); setV(S, I, vF(Op::Ref, x, nullptr, nullptr, 64, f)); return true; }
    if (n == "verif_concretize") { uint64_t v = CA(0); setV(S, I, V(v, 64)); return true; }
    if (n == "verif_range") {
      int64_t lo = (int32_t)CA(0), hi = (int32_t)CA(1);
      if (optConcrete) {
        V v = nondet(S, 32);
        int64_t x = (int32_t)v.c;
        if (x < lo || x > hi) x = lo + (int64_t)((uint64_t)v.c % (uint64_t)(hi - lo + 1));
        S.nd.back().c = (uint32_t)x;
        setV(S, I, V((uint64_t)x, 32));
        return true;
      }
      if (lo > hi) { gKilled++; throw PathEnd(); }
      if (lo == hi) {
        S.nd.push_back({32, nullptr, (uint32_t)lo});
        setV(S, I, V((uint64_t)(uint32_t)lo, 32));
        return true;
      }
      uint64_t span = hi - lo;
      unsigned k = 1;
      while (k < 32 && (span >> k)) k++;
      Ex nv = mkVar("r" + std::to_string(k) + "_" + std::to_string(S.nd.size()), k);
      Ex full = k < 32 ? mkZExt(nv, 32) : nv;
      if (lo) full = mkBin(Op::Add, full, mkConst((uint32_t)lo, 32));
      S.nd.push_back({32, full, 0});
      Ex in = mkBin(Op::Ule, nv, mkConst(span, k));
      auto m = std::make_shared<Model>(*S.model);
      m->val.insert_or_assign(*nv->vars->begin(), APInt(k, 0));
      S.model = m;
      addPC(S, in);
      setV(S, I, V(full));
      return true;
    }
    if (n == "verif_choose") {
      int64_t lo = (int32_t)CA(0), hi = (int32_t)CA(1);
      if (optConcrete) {
        V v = nondet(S, 32);
        int64_t x = (int32_t)v.c;
        if (x < lo || x > hi) x = lo + (int64_t)((uint64_t)v.c % (uint64_t)(hi - lo + 1));
        S.nd.back().c = (uint32_t)x;
        setV(S, I, V((uint64_t)x, 32));
        return true;
      }
      V v = nondet(S, 32);
      for (int64_t x = hi; x > lo; x--) {
        StateP k = forkOf(S);
        k->nd.back().e = nullptr; k->nd.back().c = (uint32_t)x;
        setV(*k, I, V((uint64_t)x, 32));
        work.push_back(std::move(k));
      }
      S.nd.back().e = nullptr; S.nd.back().c = (uint32_t)lo;
      setV(S, I, V((uint64_t)lo, 32));
      return true;
    }
    if (n == "verif_tid") { setV(S, I, V(S.ts ? (uint64_t)S.ts->cur : 0, 32)); return true; }
    if (n == "verif_spawn") {
      uint64_t fa = CA(0), arg = CA(1);
      auto it = gFuncAddr.find(fa);
      if (it == gFuncAddr.end()) throw Fatal{"verif_spawn"};
      if (!S.ts) {
        S.ts = std::make_shared<Threads>();
        S.ts->t.emplace_back();
        S.ts->t[0].vc.assign(8, 0);
        S.ts->t[0].vc[0] = 1;
        S.ts->heapTop0 = S.heapTop; S.ts->stackTop0 = S.stackTop;
      }
      Threads &T = *S.ts;
      if (T.t.size() >= 8) throw Fatal{"too many threads"};
      unsigned k = T.t.size();
      setV(S, I, V((uint64_t)k, 32));
      T.t.emplace_back();
      Thr &c = T.t.back();
      c.vc = T.t[T.cur].vc;
      c.vc[k] = 1;
      T.t[T.cur].vc[T.cur]++;
      c.pend = P_START;
      std::vector<Frame> mine = std::move(S.st);
      S.st.clear();
      Reg r; r.v = V(arg, 64);
      pushCall(S, it->second, {r}, nullptr);
      c.st = std::move(S.st);
      S.st = std::move(mine);
      return true;
    }
    if (n == "verif_sync") { uint64_t a = CA(0), b = CA(1); if (S.ts) threadPoint(S, P_SYNC, a, b, 0, 0, 0); return true; }
    if (n == "verif_await") {
      uint64_t a = CA(0), w = CA(1), v = CA(2);
      if (S.ts) { threadPoint(S, P_AWAIT, a, 0, w, v, 0); return true; }
      V x = loadMem(S, V(w, 64), nullptr, 4, I);
      if (!x.conc()) throw Fatal{"symbolic word in verif_await"};
      if ((uint32_t)x.c != (uint32_t)v) endViolation(S, "deadlock", "deadlock: every unfinished thread waits for ever");
      return true;
    }
    if (n == "verif_wget") { V v = loadMem(S, V(CA(0), 64), nullptr, 8, I); setV(S, I, v); return true; }
    if (n == "verif_wset") { uint64_t p = CA(0); storeMem(S, V(p, 64), nullptr, A(1), 8, I); return true; }
    if (n == "verif_join") { uint64_t k = CA(0); if (!S.ts || k >= S.ts->t.size()) throw Fatal{"verif_join"}; threadPoint(S, P_JOIN, 0, 0, 0, 0, (int)k); return true; }
    throw Fatal{"unknown verif function " + n.str()};
  }
  auto alloc = [&](uint64_t sz, Kind k) {
    if (sz > (1ull << 28)) endViolation(S, "memory", "allocation of " + std::to_string(sz) + " bytes");
    setV(S, I, V(newObj(S, sz, k, ""), 64));
  };
  if (n == "_Znwm" || n == "_ZnwmRKSt9nothrow_t") { alloc(CA(0), Kind::New); return true; }
  if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") { alloc(CA(0), Kind::NewArr); return true; }
  if (n == "malloc") { alloc(CA(0), Kind::Malloc); return true; }
  if (n == "calloc") {
    uint64_t sz = CA(0) * CA(1);
    uint64_t b = newObj(S, sz, Kind::Malloc, "", false);
    setV(S, I, V(b, 64));
    return true;
  }
  if (isPrefix(n, "_ZdlPv")) { freeObj(S, CA(0), Kind::New, "delete"); return true; }
  if (isPrefix(n, "_ZdaPv")) { freeObj(S, CA(0), Kind::NewArr, "delete[]"); return true; }
  if (n == "free") { freeObj(S, CA(0), Kind::Malloc, "free"); return true; }
  if (n == "memcpy") { doMemcpy(S, I, false); setV(S, I, A(0)); return true; }
  if (n == "memmove") { doMemcpy(S, I, true); setV(S, I, A(0)); return true; }
  if (n == "memset") { doMemset(S, I); setV(S, I, A(0)); return true; }
  if (n == "__cxa_atexit" || n == "atexit") { setV(S, I, V(0, 32)); return true; }
  if (n == "__cxa_guard_acquire") {
    V g = loadMem(S, A(0), nullptr, 1, I);
    uint64_t v = concretize(S, g, nullptr, I);
    setV(S, I, V(v ? 0 : 1, 32));
    return true;
  }
  if (n == "__cxa_guard_release") { storeMem(S, A(0), nullptr, V(1, 8), 1, I); return true; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "exit" || n == "_exit" || n == "__cxa_throw_bad_array_new_length")
    endViolation(S, "abort", "program calls " + n.str());
  if (n == "__assert_fail" || n == "__assert") endViolation(S, "abort", "assert failed: " + cstr(S, I->getArgOperand(0)));
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fputc" || n == "putc") {
    if (!I->getType()->isVoidTy()) setV(S, I, V(0, bitsOf(I->getType())));
    return true;
  }
  auto un = [&](Op op, unsigned aux = 0) { V a = A(0); setV(S, I, vF(op, a, nullptr, nullptr, a.w, aux)); };
  if (n == "sqrtf" || n == "sqrt") { un(Op::FSqrt); return true; }
  if (n == "floorf" || n == "floor") { un(Op::FRound, 3); return true; }
  if (n == "ceilf" || n == "ceil") { un(Op::FRound, 2); return true; }
  if (n == "truncf" || n == "trunc") { un(Op::FRound, 4); return true; }
  if (n == "rintf" || n == "rint" || n == "nearbyintf" || n == "nearbyint") { un(Op::FRound, 0); return true; }
  if (n == "roundf" || n == "round") { un(Op::FRound, 1); return true; }
  if (n == "fabsf" || n == "fabs") { V a = A(0); setV(S, I, vBin(Op::And, a, V(~(1ull << (a.w - 1)), a.w))); return true; }
  if (n == "copysignf" || n == "copysign") {
    V a = A(0), b = A(1);
    setV(S, I, vConcat(vExtract(b, b.w - 1, 1), vExtract(a, 0, a.w - 1)));
    return true;
  }
  if (n == "fmodf" || n == "fmod") { V a = A(0), b = A(1); setV(S, I, vF(Op::FRem, a, &b)); return true; }
  return false;
}

static V popcnt(const V &a) {
  V r(0, a.w);
  for (unsigned i = 0; i < a.w; i++) r = vBin(Op::Add, r, vZExt(vExtract(a, i, 1), a.w));
  return r;
}
static V fminmax(const V &a, const V &b, bool mx) {
  V an = vF(Op::FIsNaN, a, nullptr), bn = vF(Op::FIsNaN, b, nullptr);
  V lt = mx ? vF(Op::FLt, b, &a) : vF(Op::FLt, a, &b);
  return vIte(an, b, vIte(bn, a, vIte(lt, a, b)));
}

static bool intrinsic(State &S, const IntrinsicInst *I) {
  auto A = [&](unsigned i) { return opv(S, I->getArgOperand(i)); };
  auto agg2 = [&](const V &a, const V &b) {
    Reg r; r.agg = std::make_shared<std::vector<Reg>>(2);
    (*r.agg)[0].v = a; (*r.agg)[1].v = b;
    setReg(S, I, r);
  };
  switch (I->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
  case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect:
    if (!I->getType()->isVoidTy()) setV(S, I, V(0, 64));
    return true;
  case Intrinsic::stacksave: setV(S, I, V(0, 64)); return true;
  case Intrinsic::ubsantrap: {
    static const std::map<int, const char *> names = {
      {0, "signed integer addition overflow"}, {3, "integer division by zero or overflow"}, {5, "float to integer cast out of range"},
      {10, "invalid builtin argument"}, {1, "builtin unreachable"}, {8, "reached the end of a value-returning function"}, {12, "signed integer multiplication overflow"},
      {13, "signed integer negation overflow"}, {18, "array index out of bounds"}, {20, "invalid shift amount or shift of a negative value"},
      {21, "signed integer subtraction overflow"}, {22, "null or misaligned pointer"}, {11, "load of invalid enum or bool value"}, {7, "function type mismatch"}};
    int k = cast<ConstantInt>(I->getArgOperand(0))->getZExtValue();
    auto it = names.find(k);
    endViolation(S, "ub", std::string("undefined behaviour: ") + (it == names.end() ? "kind " + std::to_string(k) : it->second));
  }
  case Intrinsic::trap: case Intrinsic::debugtrap: endViolation(S, "abort", "trap");
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: doMemcpy(S, I, false); return true;
  case Intrinsic::memmove: doMemcpy(S, I, true); return true;
  case Intrinsic::memset: doMemset(S, I); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence:
    setV(S, I, A(0)); return true;
  case Intrinsic::is_constant: setV(S, I, V(0, 1)); return true;
  case Intrinsic::objectsize: setV(S, I, V(cast<ConstantInt>(I->getArgOperand(1))->isZero() ? ~0ull : 0, bitsOf(I->getType()))); return true;
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
    V a = A(0), b = A(1);
    unsigned w = a.w;
    auto id = I->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
    Op op = mul ? Op::Mul : (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Op::Add : Op::Sub;
    V r = vBin(op, a, b);
    unsigned ww = mul ? 2 * w : w + 1;
    V wa = sg ? vSExt(a, ww) : vZExt(a, ww), wb = sg ? vSExt(b, ww) : vZExt(b, ww);
    V wr = vBin(op, wa, wb);
    V back = sg ? vSExt(r, ww) : vZExt(r, ww);
    V ov = vNot(vBin(Op::Eq, wr, back));
    agg2(r, ov);
    return true;
  }
  case Intrinsic::uadd_sat: { V a = A(0), b = A(1), r = vBin(Op::Add, a, b); setV(S, I, vIte(vBin(Op::Ult, r, a), V(mkConst(APInt::getAllOnes(a.w))), r)); return true; }
  case Intrinsic::usub_sat: { V a = A(0), b = A(1); setV(S, I, vIte(vBin(Op::Ult, a, b), V(mkConst(APInt(a.w, 0))), vBin(Op::Sub, a, b))); return true; }
  case Intrinsic::umin: { V a = A(0), b = A(1); setV(S, I, vIte(vBin(Op::Ult, a, b), a, b)); return true; }
  case Intrinsic::umax: { V a = A(0), b = A(1); setV(S, I, vIte(vBin(Op::Ult, a, b), b, a)); return true; }
  case Intrinsic::smin: { V a = A(0), b = A(1); setV(S, I, vIte(vBin(Op::Slt, a, b), a, b)); return true; }
  case Intrinsic::smax: { V a = A(0), b = A(1); setV(S, I, vIte(vBin(Op::Slt, a, b), b, a)); return true; }
  case Intrinsic::abs: { V a = A(0); setV(S, I, vIte(vBin(Op::Slt, a, V(mkConst(APInt(a.w, 0)))), vBin(Op::Sub, V(mkConst(APInt(a.w, 0))), a), a)); return true; }
  case Intrinsic::ctpop: setV(S, I, popcnt(A(0))); return true;
  case Intrinsic::ctlz: {
    V a = A(0), r(a.w, a.w);
    for (unsigned i = 0; i < a.w; i++) r = vIte(vBin(Op::Eq, vExtract(a, i, 1), V(1, 1)), V(a.w - 1 - i, a.w), r);
    setV(S, I, r);
    return true;
  }
  case Intrinsic::cttz: {
    V a = A(0), r(a.w, a.w);
    for (int i = a.w - 1; i >= 0; i--) r = vIte(vBin(Op::Eq, vExtract(a, i, 1), V(1, 1)), V(i, a.w), r);
    setV(S, I, r);
    return true;
  }
  case Intrinsic::bswap: {
    V a = A(0), r;
    for (unsigned i = 0; i < a.w / 8; i++) { V b = vExtract(a, a.w - 8 - 8 * i, 8); r = i ? vConcat(b, r) : b; }
    setV(S, I, r);
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    V a = A(0), b = A(1), c = A(2);
    unsigned w = a.w;
    V full = vConcat(a, b);
    V sh = vZExt(vBin(Op::URem, c, V(w, w)), 2 * w);
    V r = I->getIntrinsicID() == Intrinsic::fshl ? vExtract(vBin(Op::Shl, full, sh), w, w) : vExtract(vBin(Op::LShr, full, sh), 0, w);
    setV(S, I, r);
    return true;
  }
  case Intrinsic::fabs: { V a = A(0); setV(S, I, vBin(Op::And, a, V(~(1ull << (a.w - 1)), a.w))); return true; }
  case Intrinsic::copysign: { V a = A(0), b = A(1); setV(S, I, vConcat(vExtract(b, b.w - 1, 1), vExtract(a, 0, a.w - 1))); return true; }
  case Intrinsic::sqrt: { V a = A(0); setV(S, I, vF(Op::FSqrt, a, nullptr)); return true; }
  case Intrinsic::floor: { V a = A(0); setV(S, I, vF(Op::FRound, a, nullptr, nullptr, a.w, 3)); return true; }
  case Intrinsic::ceil: { V a = A(0); setV(S, I, vF(Op::FRound, a, nullptr, nullptr, a.w, 2)); return true; }
  case Intrinsic::trunc: { V a = A(0); setV(S, I, vF(Op::FRound, a, nullptr, nullptr, a.w, 4)); return true; }
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: { V a = A(0); setV(S, I, vF(Op::FRound, a, nullptr, nullptr, a.w, 0)); return true; }
  case Intrinsic::round: { V a = A(0); setV(S, I, vF(Op::FRound, a, nullptr, nullptr, a.w, 1)); return true; }
  case Intrinsic::fma: { V a = A(0), b = A(1), c = A(2); setV(S, I, vF(Op::FFma, a, &b, &c)); return true; }
  case Intrinsic::fmuladd: { V a = A(0), b = A(1), c = A(2); V m = vF(Op::FMul, a, &b); setV(S, I, vF(Op::FAdd, m, &c)); return true; }
  case Intrinsic::minnum: setV(S, I, fminmax(A(0), A(1), false)); return true;
  case Intrinsic::maxnum: setV(S, I, fminmax(A(0), A(1), true)); return true;
  case Intrinsic::is_fpclass: {
    V a = A(0);
    unsigned m = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
    unsigned w = a.w, mb = w == 32 ? 23 : 52, eb = w - 1 - mb;
    V sg = vExtract(a, w - 1, 1), ex_ = vExtract(a, mb, eb), mt = vExtract(a, 0, mb);
    V e1 = vBin(Op::Eq, ex_, V(mkConst(APInt::getAllOnes(eb)))), e0 = vBin(Op::Eq, ex_, V(0, eb)), m0 = vBin(Op::Eq, mt, V(0, mb));
    V q = vExtract(mt, mb - 1, 1);
    auto And = [](V x, V y) { return vBin(Op::And, x, y); };
    V nan = And(e1, vNot(m0)), inf = And(e1, m0), zero = And(e0, m0), sub = And(e0, vNot(m0)), nor = And(vNot(e1), vNot(e0));
    V r(0, 1);
    auto add = [&](unsigned bit, V c) { if (m & bit) r = vBin(Op::Or, r, c); };
    add(1, And(nan, vNot(q))); add(2, And(nan, q));
    add(4, And(inf, sg)); add(8, And(nor, sg)); add(16, And(sub, sg)); add(32, And(zero, sg));
    add(64, And(zero, vNot(sg))); add(128, And(sub, vNot(sg))); add(256, And(nor, vNot(sg))); add(512, And(inf, vNot(sg)));
    setV(S, I, r);
    return true;
  }
  case Intrinsic::threadlocal_address: setV(S, I, A(0)); return true;
  case Intrinsic::vastart: case Intrinsic::vaend: return true;
  default:
    throw Fatal{"unsupported intrinsic " + I->getCalledFunction()->getName().str()};
  }
}

// ------------------------------------------------------------------ instructions
static V icmp(CmpInst::Predicate p, const V &a, const V &b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return vBin(Op::Eq, a, b);
  case CmpInst::ICMP_NE: return vNot(vBin(Op::Eq, a, b));
  case CmpInst::ICMP_ULT: return vBin(Op::Ult, a, b);
  case CmpInst::ICMP_ULE: return vBin(Op::Ule, a, b);
  case CmpInst::ICMP_UGT: return vBin(Op::Ult, b, a);
  case CmpInst::ICMP_UGE: return vBin(Op::Ule, b, a);
  case CmpInst::ICMP_SLT: return vBin(Op::Slt, a, b);
  case CmpInst::ICMP_SLE: return vBin(Op::Sle, a, b);
  case CmpInst::ICMP_SGT: return vBin(Op::Slt, b, a);
  case CmpInst::ICMP_SGE: return vBin(Op::Sle, b, a);
  default: abort();
  }
}
static V fcmp(CmpInst::Predicate p, const V &a, const V &b) {
  auto nan = [&]() { return vBin(Op::Or, vF(Op::FIsNaN, a, nullptr), vF(Op::FIsNaN, b, nullptr)); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return V(0, 1);
  case CmpInst::FCMP_TRUE: return V(1, 1);
  case CmpInst::FCMP_OEQ: return vF(Op::FEq, a, &b);
  case CmpInst::FCMP_OGT: return vF(Op::FLt, b, &a);
  case CmpInst::FCMP_OGE: return vF(Op::FLe, b, &a);
  case CmpInst::FCMP_OLT: return vF(Op::FLt, a, &b);
  case CmpInst::FCMP_OLE: return vF(Op::FLe, a, &b);
  case CmpInst::FCMP_ONE: return vBin(Op::Or, vF(Op::FLt, a, &b), vF(Op::FLt, b, &a));
  case CmpInst::FCMP_ORD: return vNot(nan());
  case CmpInst::FCMP_UNO: return nan();
  case CmpInst::FCMP_UEQ: return vNot(vBin(Op::Or, vF(Op::FLt, a, &b), vF(Op::FLt, b, &a)));
  case CmpInst::FCMP_UGT: return vNot(vF(Op::FLe, a, &b));
  case CmpInst::FCMP_UGE: return vNot(vF(Op::FLt, a, &b));
  case CmpInst::FCMP_ULT: return vNot(vF(Op::FLe, b, &a));
  case CmpInst::FCMP_ULE: return vNot(vF(Op::FLt, b, &a));
  case CmpInst::FCMP_UNE: return vNot(vF(Op::FEq, a, &b));
  default: abort();
  }
}

static void doReturn(State &S, const Reg *rv) {
  Frame &f = S.st.back();
  for (auto b : f.allocas) {
    auto it = S.mem.find(b);
    if (it != S.mem.end()) S.mem.erase(it);  // stack addresses are never reused: later use is "wild/dead"
  }
  const CallBase *cb = f.call;
  S.st.pop_back();
  if (S.st.empty()) return;
  if (cb && rv) setReg(S, cb, *rv);
}

static void call(State &S, const CallBase *I) {
  if (auto *ii = dyn_cast<IntrinsicInst>(I)) { intrinsic(S, ii); return; }
  if (I->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(I->getCalledOperand());
    if (ia->getAsmString().empty()) return;   // compiler barrier
    throw Fatal{"inline assembly"};
  }
  const Value *cv = I->getCalledOperand()->stripPointerCasts();
  const Function *f = dyn_cast<Function>(cv);
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if (!f) {
    uint64_t a = concretize(S, opv(S, cv), cv, I);
    auto it = gFuncAddr.find(a);
    if (it == gFuncAddr.end()) endViolation(S, "memory", "call through an invalid function pointer");
    f = it->second;
  }
  if (f->isDeclaration() || f->getName().starts_with("verif_")) {
    if (f->isIntrinsic()) throw Fatal{"indirect intrinsic"};
    if (!external(S, I, f)) throw Fatal{"unsupported external function " + demangle(f->getName().str())};
    return;
  }
  std::vector<Reg> args;
  for (unsigned i = 0; i < I->arg_size(); i++) args.push_back(operand(S, I->getArgOperand(i)));
  pushCall(S, f, args, I);
}

static V vecLane(const V &v, unsigned i, unsigned w) { return vExtract(v, i * w, w); }
static V vecBuild(const std::vector<V> &l) { V r = l[0]; for (size_t i = 1; i < l.size(); i++) r = vConcat(l[i], r); return r; }

static V binop(unsigned opc, const V &a, const V &b) {
  switch (opc) {
  case Instruction::Add: return vBin(Op::Add, a, b);
  case Instruction::Sub: return vBin(Op::Sub, a, b);
  case Instruction::Mul: return vBin(Op::Mul, a, b);
  case Instruction::UDiv: return vBin(Op::UDiv, a, b);
  case Instruction::SDiv: return vBin(Op::SDiv, a, b);
  case Instruction::URem: return vBin(Op::URem, a, b);
  case Instruction::SRem: return vBin(Op::SRem, a, b);
  case Instruction::And: return vBin(Op::And, a, b);
  case Instruction::Or: return vBin(Op::Or, a, b);
  case Instruction::Xor: return vBin(Op::Xor, a, b);
  case Instruction::Shl: return vBin(Op::Shl, a, b);
  case Instruction::LShr: return vBin(Op::LShr, a, b);
  case Instruction::AShr: return vBin(Op::AShr, a, b);
  case Instruction::FAdd: return vF(Op::FAdd, a, &b);
  case Instruction::FSub: return vF(Op::FSub, a, &b);
  case Instruction::FMul: return vF(Op::FMul, a, &b);
  case Instruction::FDiv: return vF(Op::FDiv, a, &b);
  case Instruction::FRem: return vF(Op::FRem, a, &b);
  default: throw Fatal{"binop"};
  }
}

static void step(State &S) {
  Frame &f = S.st.back();
  const Instruction *I = &*f.it;
  ++f.it;
  S.steps++;
  gSteps++;
  if (optTrace) { std::string s; raw_string_ostream o(s); I->print(o); fprintf(stderr, "%s\n", s.c_str()); }
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *a = cast<AllocaInst>(I);
    uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
    n *= concretize(S, opv(S, a->getArraySize()), nullptr, I);
    uint64_t b = newObj(S, n, Kind::Stack, a->getName().str());
    S.st.back().allocas.push_back(b);
    setV(S, I, V(b, 64));
    return;
  }
  case Instruction::Load: {
    auto *l = cast<LoadInst>(I);
    V a = opv(S, l->getPointerOperand());
    if (S.ts) raceCheck(S, a, bytesOf(l->getType()), false, l->isAtomic(), I);
    Reg r = loadTyped(S, a, l->getPointerOperand(), l->getType(), I);
    setReg(S, I, r);
    return;
  }
  case Instruction::Store: {
    auto *s = cast<StoreInst>(I);
    Reg v = operand(S, s->getValueOperand());
    if (S.ts) raceCheck(S, opv(S, s->getPointerOperand()), bytesOf(s->getValueOperand()->getType()), true, s->isAtomic(), I);
    storeTyped(S, opv(S, s->getPointerOperand()), s->getPointerOperand(), v, s->getValueOperand()->getType(), I);
    return;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    if (g->getType()->isVectorTy()) throw Fatal{"vector gep"};
    V a = opv(S, g->getPointerOperand());
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      V idx = opv(S, gi.getOperand());
      if (StructType *st = gi.getStructTypeOrNull()) {
        a = vBin(Op::Add, a, V((uint64_t)DL->getStructLayout(st)->getElementOffset(idx.c), 64));
      } else {
        uint64_t es = gi.getSequentialElementStride(*DL).getFixedValue();
        V i64 = idx.w == 64 ? idx : idx.w < 64 ? vSExt(idx, 64) : vExtract(idx, 0, 64);
        a = vBin(Op::Add, a, vBin(Op::Mul, i64, V(es, 64)));
      }
    }
    setV(S, I, a);
    return;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { jump(S, b->getSuccessor(0)); return; }
    V c = opv(S, b->getCondition());
    if (c.isConstant()) { jump(S, b->getSuccessor((c.conc() ? c.c : !c.e->cv.isZero()) ? 0 : 1)); return; }
    bool cur = S.model->isTrue(c.e);
    decide(S, c.e, [&](State &n) { jump(n, b->getSuccessor(cur ? 1 : 0)); }, "branch");
    jump(S, b->getSuccessor(cur ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *s = cast<SwitchInst>(I);
    V c = opv(S, s->getCondition());
    if (c.isConstant()) {
      APInt v = c.conc() ? APInt(c.w, c.c) : c.e->cv;
      for (auto &cs : s->cases()) if (cs.getCaseValue()->getValue() == v) { jump(S, cs.getCaseSuccessor()); return; }
      jump(S, s->getDefaultDest());
      return;
    }
    // group by successor
    std::vector<std::pair<const BasicBlock *, Ex>> t;
    Ex def = mkConst(1, 1);
    for (auto &cs : s->cases()) {
      Ex eq = mkBin(Op::Eq, c.e, mkConst(cs.getCaseValue()->getValue()));
      def = mkBin(Op::And, def, mkNot(eq));
      bool hit = false;
      for (auto &p : t) if (p.first == cs.getCaseSuccessor()) { p.second = mkBin(Op::Or, p.second, eq); hit = true; }
      if (!hit) t.push_back({cs.getCaseSuccessor(), eq});
    }
    bool hit = false;
    for (auto &p : t) if (p.first == s->getDefaultDest()) { p.second = mkBin(Op::Or, p.second, def); hit = true; }
    if (!hit) t.push_back({s->getDefaultDest(), def});
    std::pair<const BasicBlock *, Ex> mine{nullptr, nullptr};
    for (auto &p : t) {
      if (S.model->isTrue(p.second)) { mine = p; continue; }
      std::shared_ptr<Model> m;
      Res r = may(S, p.second, &m);
      if (r == Res::Unknown) unkSide("switch");
      if (r == Res::Sat) {
        StateP n = forkOf(S);
        n->model = m;
        addPC(*n, p.second);
        jump(*n, p.first);
        work.push_back(std::move(n));
      }
    }
    addPC(S, mine.second);
    jump(S, mine.first);
    return;
  }
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(I);
    if (r->getReturnValue()) { Reg v = operand(S, r->getReturnValue()); doReturn(S, &v); }
    else doReturn(S, nullptr);
    return;
  }
  case Instruction::Unreachable: endViolation(S, "ub", "unreachable code reached");
  case Instruction::Call: call(S, cast<CallBase>(I)); return;
  case Instruction::Invoke: {
    call(S, cast<CallBase>(I));
    if (S.st.back().it == std::next(I->getIterator())) jump(S, cast<InvokeInst>(I)->getNormalDest());
    else throw Fatal{"invoke of defined function"};
    return;
  }
  case Instruction::PHI: throw Fatal{"phi reached"};
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(I);
    if (c->getType()->isVectorTy()) throw Fatal{"vector icmp"};
    setV(S, I, icmp(c->getPredicate(), opv(S, c->getOperand(0)), opv(S, c->getOperand(1))));
    return;
  }
  case Instruction::FCmp: {
    auto *c = cast<FCmpInst>(I);
    if (c->getType()->isVectorTy()) throw Fatal{"vector fcmp"};
    setV(S, I, fcmp(c->getPredicate(), opv(S, c->getOperand(0)), opv(S, c->getOperand(1))));
    return;
  }
  case Instruction::Select: {
    V c = opv(S, I->getOperand(0));
    Reg a = operand(S, I->getOperand(1)), b = operand(S, I->getOperand(2));
    if (c.w != 1) throw Fatal{"vector select"};
    if (c.isConstant()) { setReg(S, I, (c.conc() ? c.c : !c.e->cv.isZero()) ? a : b); return; }
    if (a.agg) {
      uint64_t v = concretize(S, c, I->getOperand(0), I);
      setReg(S, I, v ? a : b);
      return;
    }
    setV(S, I, vIte(c, a.v, b.v));
    return;
  }
  case Instruction::FNeg: {
    V a = opv(S, I->getOperand(0));
    if (I->getType()->isVectorTy()) throw Fatal{"vector fneg"};
    setV(S, I, vConcat(vNot(vExtract(a, a.w - 1, 1)), vExtract(a, 0, a.w - 1)));
    return;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    V a = opv(S, I->getOperand(0)), b = opv(S, I->getOperand(1));
    if (auto *vt = dyn_cast<FixedVectorType>(I->getType())) {
      unsigned n = vt->getNumElements(), w = bitsOf(vt->getElementType());
      std::vector<V> l;
      for (unsigned i = 0; i < n; i++) l.push_back(binop(I->getOpcode(), vecLane(a, i, w), vecLane(b, i, w)));
      setV(S, I, vecBuild(l));
      return;
    }
    if ((I->getType()->isX86_FP80Ty() || I->getType()->isFP128Ty())) throw Fatal{"long double arithmetic"};
    setV(S, I, binop(I->getOpcode(), a, b));
    return;
  }
  case Instruction::Trunc: setV(S, I, vExtract(opv(S, I->getOperand(0)), 0, bitsOf(I->getType()))); return;
  case Instruction::ZExt: setV(S, I, vZExt(opv(S, I->getOperand(0)), bitsOf(I->getType()))); return;
  case Instruction::SExt: setV(S, I, vSExt(opv(S, I->getOperand(0)), bitsOf(I->getType()))); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    V a = opv(S, I->getOperand(0));
    unsigned w = bitsOf(I->getType());
    setV(S, I, w < a.w ? vExtract(a, 0, w) : vZExt(a, w));
    return;
  }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: setReg(S, I, operand(S, I->getOperand(0))); return;
  case Instruction::FPToSI: { V a = opv(S, I->getOperand(0)); setV(S, I, vF(Op::FToSI, a, nullptr, nullptr, bitsOf(I->getType()))); return; }
  case Instruction::FPToUI: { V a = opv(S, I->getOperand(0)); setV(S, I, vF(Op::FToUI, a, nullptr, nullptr, bitsOf(I->getType()))); return; }
  case Instruction::SIToFP: { V a = opv(S, I->getOperand(0)); setV(S, I, vF(Op::SIToF, a, nullptr, nullptr, bitsOf(I->getType()))); return; }
  case Instruction::UIToFP: { V a = opv(S, I->getOperand(0)); setV(S, I, vF(Op::UIToF, a, nullptr, nullptr, bitsOf(I->getType()))); return; }
  case Instruction::FPExt: case Instruction::FPTrunc: {
    if (bitsOf(I->getType()) > 64 || bitsOf(I->getOperand(0)->getType()) > 64) throw Fatal{"long double conversion"};
    V a = opv(S, I->getOperand(0));
    setV(S, I, vF(Op::FToF, a, nullptr, nullptr, bitsOf(I->getType())));
    return;
  }
  case Instruction::ExtractValue: {
    auto *e = cast<ExtractValueInst>(I);
    Reg r = operand(S, e->getAggregateOperand());
    for (unsigned i : e->indices()) { Reg t = (*r.agg)[i]; r = t; }
    setReg(S, I, r);
    return;
  }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(I);
    Reg r = operand(S, e->getAggregateOperand());
    std::function<Reg(Reg, ArrayRef<unsigned>)> ins = [&](Reg a, ArrayRef<unsigned> ix) -> Reg {
      if (ix.empty()) return operand(S, e->getInsertedValueOperand());
      Reg n;
      n.agg = std::make_shared<std::vector<Reg>>(*a.agg);
      (*n.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1));
      return n;
    };
    setReg(S, I, ins(r, e->getIndices()));
    return;
  }
  case Instruction::ExtractElement: {
    V v = opv(S, I->getOperand(0));
    uint64_t i = concretize(S, opv(S, I->getOperand(1)), I->getOperand(1), I);
    setV(S, I, vecLane(v, i, bitsOf(I->getType())));
    return;
  }
  case Instruction::InsertElement: {
    V v = opv(S, I->getOperand(0)), e = opv(S, I->getOperand(1));
    uint64_t k = concretize(S, opv(S, I->getOperand(2)), I->getOperand(2), I);
    auto *vt = cast<FixedVectorType>(I->getType());
    unsigned w = bitsOf(vt->getElementType());
    std::vector<V> l;
    for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(i == k ? e : vecLane(v, i, w));
    setV(S, I, vecBuild(l));
    return;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I);
    V a = opv(S, sv->getOperand(0)), b = opv(S, sv->getOperand(1));
    auto *vt = cast<FixedVectorType>(sv->getOperand(0)->getType());
    unsigned w = bitsOf(vt->getElementType()), n = vt->getNumElements();
    std::vector<V> l;
    for (int m : sv->getShuffleMask()) l.push_back(m < 0 ? V(0, w) : (unsigned)m < n ? vecLane(a, m, w) : vecLane(b, m - n, w));
    setV(S, I, vecBuild(l));
    return;
  }
  case Instruction::Fence: return;
  case Instruction::AtomicRMW: {
    auto *r = cast<AtomicRMWInst>(I);
    unsigned n = bytesOf(r->getType());
    V a = opv(S, r->getPointerOperand());
    if (S.ts) raceCheck(S, a, n, true, true, I);
    V old = loadMem(S, a, r->getPointerOperand(), n, I), v = opv(S, r->getValOperand()), nv;
    switch (r->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Add: nv = vBin(Op::Add, old, v); break;
    case AtomicRMWInst::Sub: nv = vBin(Op::Sub, old, v); break;
    case AtomicRMWInst::And: nv = vBin(Op::And, old, v); break;
    case AtomicRMWInst::Or: nv = vBin(Op::Or, old, v); break;
    case AtomicRMWInst::Xor: nv = vBin(Op::Xor, old, v); break;
    default: throw Fatal{"atomicrmw"};
    }
    storeMem(S, a, r->getPointerOperand(), nv, n, I);
    setV(S, I, old);
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *r = cast<AtomicCmpXchgInst>(I);
    unsigned n = bytesOf(r->getCompareOperand()->getType());
    V a = opv(S, r->getPointerOperand());
    if (S.ts) raceCheck(S, a, n, true, true, I);
    V old = loadMem(S, a, r->getPointerOperand(), n, I);
    V eq = vBin(Op::Eq, old, opv(S, r->getCompareOperand()));
    storeMem(S, a, r->getPointerOperand(), vIte(eq, opv(S, r->getNewValOperand()), old), n, I);
    Reg rr; rr.agg = std::make_shared<std::vector<Reg>>(2);
    (*rr.agg)[0].v = old; (*rr.agg)[1].v = eq;
    setReg(S, I, rr);
    return;
  }
  default:
    throw Fatal{std::string("unsupported instruction ") + I->getOpcodeName()};
  }
}

static void runState(StateP S) {
  try {
    for (;;) {
      if (S->st.empty()) {
        if (!S->ts) break;
        Threads &T = *S->ts;
        T.t[T.cur].done = true;
        if (T.cur == 0) {
          for (auto &t : T.t) if (!t.done) throw Fatal{"the entry returned while a thread was running"};
          break;
        }
        schedule(*S);
        continue;
      }
      if (S->steps > optPathSteps) {
        inconclusive("path step limit at " + locOf(*S));
        violation(*S, *S->model, "termination", "does not end within " + std::to_string(optPathSteps) + " steps");
        gPaths++;
        return;
      }
      step(*S);
      if ((gSteps & 1023) == 0) {
        if (nowSec() > gDeadline) {
          inconclusive("time limit at " + locOf(*S));
          if (S->steps > 1000000) violation(*S, *S->model, "termination", "does not end within " + std::to_string(S->steps) + " steps");
          gStop = true;
          return;
        }
        if (gSteps > optMaxSteps) { inconclusive("step limit"); gStop = true; return; }
      }
      if (gStop) return;
    }
    finishPath(*S);
    gPaths++;
  } catch (PathEnd &) {
    gPaths++;
  } catch (Fatal &e) {
    inconclusive("unsupported: " + e.m + " at " + locOf(*S));
    gPaths++;
    gStop = true;
  }
}

static void setupGlobals() {
  uint64_t top = 0x10000000ull, fn = 0x400000ull;
  for (auto &f : *M) { gGlobalAddr[&f] = fn; gFuncAddr[fn] = &f; fn += 16; }
  std::vector<std::pair<ObjP, const GlobalVariable *>> todo;
  for (auto &g : M->globals()) {
    auto o = std::make_shared<Obj>();
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (!g.hasInitializer() && sz < 64) sz = 64;
    o->base = top; o->size = sz; o->kind = Kind::Global; o->name = g.getName().str();
    o->ro = g.isConstant();
    o->c.assign(sz, 0);
    top += ((sz + 0xfff) & ~0xfffull) + 0x10000;
    gGlobalAddr[&g] = o->base;
    gGlobals[o->base] = o;
    if (g.hasInitializer()) todo.push_back({o, &g});
  }
  for (auto &p : todo) {
    Obj *raw = p.first.get();
    ObjP alias(p.first.get(), [](Obj *) {});  // in-place write
    writeConst(alias, 0, p.second->getInitializer());
    (void)raw;
  }
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void jlist(std::ostream &o, const std::vector<std::string> &v) {
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "\"" << jesc(v[i]) << "\"";
  o << "]";
}
static void jnd(std::ostream &o, const std::vector<std::pair<unsigned, std::string>> &v) {
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[" << v[i].first << ",\"" << v[i].second << "\"]";
  o << "]";
}

static int realMain(int argc, char **argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    if (auto v = val("--entry=")) optEntry = v;
    else if (auto v = val("--out=")) optOut = v;
    else if (auto v = val("--time=")) optTime = atof(v);
    else if (auto v = val("--param=")) { std::stringstream ss(v); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) optParams.push_back(atol(t.c_str())); }
    else if (auto v = val("--tests=")) optTests = atoi(v);
    else if (auto v = val("--max-violations=")) optMaxViol = atoi(v);
    else if (auto v = val("--path-steps=")) optPathSteps = atoll(v);
    else if (auto v = val("--max-steps=")) optMaxSteps = atoll(v);
    else if (auto v = val("--fast-ms=")) gCfg.fastMs = atoi(v);
    else if (auto v = val("--ext-sec=")) gCfg.extSec = atoi(v);
    else if (auto v = val("--icp=")) gCfg.icpSec = atof(v);
    else if (auto v = val("--portfolio=")) gCfg.portfolio = v;
    else if (auto v = val("--work-dir=")) gCfg.workDir = v;
    else if (auto v = val("--seed=")) { optSeed = atoi(v); rng ^= (uint64_t)optSeed * 0x9e3779b97f4a7c15ull; }
    else if (auto v = val("--inputs=")) { optConcrete = true; optInputs = v; }
    else if (auto v = val("--src=")) optSrcPrefix = v;
    else if (a == "--trace") optTrace = true;
    else file = a;
  }
  LLVMContext C;
  SMDiagnostic err;
  auto m = parseIRFile(file, err, C);
  if (!m) { err.print("symx", errs()); return 3; }
  M = m.get();
  DL = &M->getDataLayout();
  if (optConcrete && optInputs != "-") {
    std::ifstream in(optInputs);
    std::string w, v;
    while (in >> w >> v) { if (w == "uninit") { std::getline(in, v); continue; } gInputs.push_back({(unsigned)atoi(w.c_str()), v}); }
  }
  double t0 = nowSec();
  gDeadline = t0 + optTime;
  std::string fatal;
  try {
    setupGlobals();
    Function *f = M->getFunction(optEntry);
    if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
    StateP S(new State);
    S->mem = gGlobals;
    // static constructors
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        for (auto &o : ca->operands()) {
          auto *cf = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts());
          if (!cf || cf->isDeclaration()) continue;
          pushCall(*S, cf, {}, nullptr);
          while (!S->st.empty()) step(*S);
        }
      }
    }
    gSteps = 0; S->steps = 0;
    pushCall(*S, f, {}, nullptr);
    work.push_back(std::move(S));
    while (!work.empty() && !gStop) {
      StateP s = std::move(work.back());
      work.pop_back();
      runState(std::move(s));
    }
    if (!work.empty() && gViol.empty() && gInconc.empty()) inconclusive("stopped with unexplored states");
  } catch (Fatal &e) {
    inconclusive("unsupported: " + e.m);
  } catch (PathEnd &) {
    inconclusive("path ended during static initialisation");
  }
  // ---------------------------------------------------------------- report
  std::ostringstream o;
  const char *status = !gViol.empty() ? "violation" : !gInconc.empty() ? "inconclusive" : "held";
  o << "{\"status\":\"" << status << "\",\"entry\":\"" << jesc(optEntry) << "\",\"params\":[";
  for (size_t i = 0; i < optParams.size(); i++) o << (i ? "," : "") << optParams[i];
  o << "],\"paths\":" << gPaths << ",\"killed_by_assume\":" << gKilled << ",\"steps\":" << gSteps << ",\"forks\":" << gForks
    << ",\"max_fork_depth\":" << gMaxDepth << ",\"asserts\":" << gAsserts << ",\"assert_queries\":" << gAssertQ
    << ",\"memory_checks\":" << gMemChecks << ",\"concretised\":" << gConcretised
    << ",\"queries\":" << gSS.queries << ",\"sat\":" << gSS.sat << ",\"unsat\":" << gSS.unsat << ",\"unknown\":" << gSS.unknown
    << ",\"cache_hits\":" << gSS.cacheHits << ",\"model_hits\":" << gSS.modelHits << ",\"portfolio\":" << gSS.external
    << ",\"icp_calls\":" << gIcp.calls << ",\"icp_boxes\":" << gIcp.boxes << ",\"icp_s\":" << gIcp.time
    << ",\"solver_s\":" << gSS.time << ",\"max_query_s\":" << gSS.maxTime << ",\"wall_s\":" << nowSec() - t0 << ",\"exprs\":" << exprCount();
  o << ",\"portfolio_winners\":"; jlist(o, gSS.externalWinners);
  o << ",\"inconclusive\":"; jlist(o, gInconc);
  o << ",\"reach\":{";
  { bool first = true; for (auto &kv : gReachCount) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; } }
  o << "},\"functions\":";
  {
    std::set<std::string> fs;
    for (auto *f : gFuncs) {
      DISubprogram *sp = f->getSubprogram();
      if (!sp) continue;
      std::string p = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str() : "";
      if (sp->getFile() && sp->getFile()->getFilename().starts_with("/")) p = sp->getFile()->getFilename().str();
      if (!optSrcPrefix.empty() && p.find(optSrcPrefix) == std::string::npos) continue;
      std::string d = demangle(f->getName().str());
      if (d.size() > 160) d = d.substr(0, 157) + "...";
      fs.insert(d);
    }
    jlist(o, std::vector<std::string>(fs.begin(), fs.end()));
  }
  o << ",\"violations\":[";
  for (size_t i = 0; i < gViol.size(); i++) {
    auto &v = gViol[i];
    o << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"inputs\":";
    jnd(o, v.nd);
    o << ",\"uninit\":"; jlist(o, v.uninit);
    o << "}";
  }
  o << "],\"tests\":[";
  for (size_t i = 0; i < gTests.size(); i++) {
    o << (i ? "," : "") << "{\"inputs\":";
    jnd(o, gTests[i].nd);
    o << ",\"obs\":"; jlist(o, gTests[i].obs);
    o << ",\"uninit\":"; jlist(o, gTests[i].un);
    o << "}";
  }
  o << "]}\n";
  if (optOut.empty()) fputs(o.str().c_str(), stdout);
  else { std::ofstream f(optOut); f << o.str(); }
  fflush(stdout);
  _exit(0);
}

struct MainArgs { int argc; char **argv; int rc; };
static void *mainThread(void *p) { auto *a = (MainArgs *)p; a->rc = realMain(a->argc, a->argv); return nullptr; }
int main(int argc, char **argv) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, (size_t)1 << 30);
  MainArgs a{argc, argv, 0};
  pthread_t t;
  if (pthread_create(&t, &at, mainThread, &a)) { mainThread(&a); return a.rc; }
  pthread_join(t, nullptr);
  return a.rc;
}
