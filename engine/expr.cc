#include "expr.h"
#include <algorithm>
#include <deque>
#include <set>
#include <unordered_set>
#include <map>
using namespace llvm;

std::vector<VarInfo> gVars;
static std::map<std::pair<std::string, unsigned>, Ex> gVarMap;

namespace {
struct HashEx { size_t operator()(Ex e) const { return e->h; } };
struct EqEx {
  bool operator()(Ex a, Ex b) const {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->nk != b->nk) return false;
    for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
    if (a->op == Op::Const) return a->cv == b->cv;
    return true;
  }
};
std::unordered_set<Ex, HashEx, EqEx> gTab;
std::deque<Expr> gArena;
std::set<std::vector<uint32_t>> gVarSets;
VarSet gEmpty = &*gVarSets.insert(std::vector<uint32_t>()).first;

VarSet unite(VarSet a, VarSet b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  std::vector<uint32_t> r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return &*gVarSets.insert(std::move(r)).first;
}

Ex intern(Expr &t) {
  uint64_t h = (uint64_t)t.op * 0x9e3779b97f4a7c15ull + t.w * 1315423911u + t.aux * 2654435761u;
  for (int i = 0; i < t.nk; i++) h = (h ^ (uint64_t)t.k[i]->id) * 0x100000001b3ull + (h >> 29);
  if (t.op == Op::Const) h ^= (uint64_t)llvm::hash_value(t.cv);
  t.h = h;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  t.id = gArena.size();
  VarSet vs = gEmpty;
  t.hasFP = t.op >= Op::FAdd;
  for (int i = 0; i < t.nk; i++) { vs = unite(vs, t.k[i]->vars); t.hasFP |= t.k[i]->hasFP; }
  if (t.op == Op::Var) vs = &*gVarSets.insert(std::vector<uint32_t>{t.aux}).first;
  t.vars = vs;
  gArena.push_back(t);
  gTab.insert(&gArena.back());
  return &gArena.back();
}
Ex node(Op op, unsigned w, Ex a, Ex b = nullptr, Ex c = nullptr, unsigned aux = 0) {
  Expr t;
  t.op = op; t.w = w; t.aux = aux;
  t.k[0] = a; t.k[1] = b; t.k[2] = c;
  t.nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  return intern(t);
}
bool isZero(Ex e) { return e->isC() && e->cv.isZero(); }
bool isOnes(Ex e) { return e->isC() && e->cv.isAllOnes(); }
bool commut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }

APInt foldBin(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  switch (op) {
  case Op::Add: return a + b;
  case Op::Sub: return a - b;
  case Op::Mul: return a * b;
  case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case Op::URem: return b.isZero() ? a : a.urem(b);
  case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case Op::SRem: return b.isZero() ? a : a.srem(b);
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case Op::AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
  case Op::Eq: return APInt(1, a == b);
  case Op::Ult: return APInt(1, a.ult(b));
  case Op::Ule: return APInt(1, a.ule(b));
  case Op::Slt: return APInt(1, a.slt(b));
  case Op::Sle: return APInt(1, a.sle(b));
  default: abort();
  }
}
bool isCmp(Op o) { return o == Op::Eq || o == Op::Ult || o == Op::Ule || o == Op::Slt || o == Op::Sle; }
// both arms of an ite (chain, bounded) are constants
bool constIte(Ex e, int depth = 3) {
  if (e->isC()) return true;
  if (e->op != Op::Ite || depth == 0) return false;
  return constIte(e->k[1], depth - 1) && constIte(e->k[2], depth - 1);
}
}  // namespace

uint64_t exprCount() { return gArena.size(); }

Ex mkConst(const APInt &v) {
  Expr t;
  t.op = Op::Const; t.w = v.getBitWidth(); t.aux = 0; t.nk = 0; t.cv = v;
  return intern(t);
}
Ex mkConst(uint64_t v, unsigned w) { return mkConst(APInt(w, v)); }
Ex mkVar(const std::string &name, unsigned w) {
  auto key = std::make_pair(name, w);
  auto it = gVarMap.find(key);
  if (it != gVarMap.end()) return it->second;
  Expr t;
  t.op = Op::Var; t.w = w; t.aux = gVars.size(); t.nk = 0;
  gVars.push_back({name + "_" + std::to_string(w), w});
  Ex e = intern(t);
  gVarMap[key] = e;
  return e;
}

Ex mkNot(Ex a) {
  if (a->isC()) return mkConst(~a->cv);
  if (a->op == Op::Not) return a->k[0];
  if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
  if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
  if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
  if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  if (a->op == Op::Ite && (a->k[1]->isC() || a->k[2]->isC()))
    return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  return node(Op::Not, 1, a);
}

Ex mkIte(Ex c, Ex a, Ex b) {
  if (c->isC()) return c->cv.isZero() ? b : a;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->cv.isZero() ? mkNot(c) : c;
    if (a->isC()) return a->cv.isZero() ? mkBin(Op::And, mkNot(c), b) : mkBin(Op::Or, c, b);
    if (b->isC()) return b->cv.isZero() ? mkBin(Op::And, c, a) : mkBin(Op::Or, mkNot(c), a);
  }
  if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return node(Op::Ite, a->w, c, a, b);
}

Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isC()) return mkConst(a->cv.extractBits(w, lo));
  switch (a->op) {
  case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
  case Op::Concat: {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case Op::ZExt: {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    if (lo >= kw) return mkConst(0, w);
    return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
  }
  case Op::SExt: {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
    return mkSExt(mkExtract(a->k[0], kw - 1, 1), w);
  }
  case Op::Ite:
    if (a->k[1]->isC() || a->k[2]->isC())
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  case Op::And: case Op::Or: case Op::Xor:
    if (a->k[1]->isC())
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    break;
  case Op::Add: case Op::Sub: case Op::Mul:
    if (lo == 0 && (a->k[0]->op == Op::ZExt || a->k[0]->op == Op::SExt || a->k[0]->op == Op::Concat ||
                    a->k[1]->op == Op::ZExt || a->k[1]->op == Op::SExt || a->k[1]->op == Op::Concat))
      return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  return node(Op::Extract, w, a, nullptr, nullptr, lo);
}

Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkConst(hi->cv.zext(w).shl(lo->w) | lo->cv.zext(w));
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->op == Op::Extract) {
    if (lo->op == Op::Extract && lo->k[0] == hi->k[0] && hi->aux == lo->aux + lo->w)
      return mkExtract(hi->k[0], lo->aux, w);
    // adjacent pieces of one value, the lower one narrowed to another form
    if (hi->aux >= lo->w && lo->op != Op::Extract && !lo->isC() && mkExtract(hi->k[0], hi->aux - lo->w, lo->w) == lo)
      return mkExtract(hi->k[0], hi->aux - lo->w, w);
    if (lo->op == Op::Concat && hi->aux >= lo->k[0]->w && lo->k[0]->op != Op::Extract && !lo->k[0]->isC() &&
        mkExtract(hi->k[0], hi->aux - lo->k[0]->w, lo->k[0]->w) == lo->k[0])
      return mkConcat(mkExtract(hi->k[0], hi->aux - lo->k[0]->w, hi->w + lo->k[0]->w), lo->k[1]);
    // x = zext(y); pieces of y that were narrowed to y itself
    if (lo == hi->k[0] && hi->aux == lo->w) return mkExtract(hi->k[0], 0, w);
    // (hi . (mid . rest)) with hi,mid adjacent
    if (lo->op == Op::Concat && lo->k[0]->op == Op::Extract && lo->k[0]->k[0] == hi->k[0] &&
        hi->aux == lo->k[0]->aux + lo->k[0]->w)
      return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  }
  if (hi->op == Op::ZExt) {
    return mkZExt(mkConcat(hi->k[0], lo), w);
  }
  if (hi->op == Op::Concat && hi->k[1]->op == Op::Extract && lo->op == Op::Extract &&
      hi->k[1]->k[0] == lo->k[0] && hi->k[1]->aux == lo->aux + lo->w)
    return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, hi->k[1]->w + lo->w));
  if (hi->op == Op::Concat && hi->k[1]->op == Op::Extract && lo->op != Op::Extract && !lo->isC() && hi->k[1]->aux >= lo->w &&
      mkExtract(hi->k[1]->k[0], hi->k[1]->aux - lo->w, lo->w) == lo)
    return mkConcat(hi->k[0], mkExtract(hi->k[1]->k[0], hi->k[1]->aux - lo->w, hi->k[1]->w + lo->w));
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return node(Op::Concat, w, hi, lo);
}

static APInt umaxOf(Ex e);
static Ex resize(Ex x, unsigned w);
Ex mkZExt(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkConst(a->cv.zext(w));
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (constIte(a)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  if (a->op == Op::Extract && a->aux == 0 && umaxOf(a->k[0]).getActiveBits() <= a->w) return resize(a->k[0], w);
  return node(Op::ZExt, w, a);
}
static APInt umaxOf(Ex e);
static Ex resize(Ex x, unsigned w);
Ex mkSExt(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkConst(a->cv.sext(w));
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (constIte(a)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  if (a->w > 1 && umaxOf(a).isNonNegative()) return mkZExt(a, w);
  return node(Op::SExt, w, a);
}

unsigned knownTrailingZeros(Ex e) {
  if (e->isC()) return e->cv.isZero() ? e->w : e->cv.countr_zero();
  switch (e->op) {
  case Op::Add: case Op::Sub: return std::min(knownTrailingZeros(e->k[0]), knownTrailingZeros(e->k[1]));
  case Op::Mul: return std::min<unsigned>(e->w, knownTrailingZeros(e->k[0]) + knownTrailingZeros(e->k[1]));
  case Op::Concat: { unsigned l = knownTrailingZeros(e->k[1]); return l < e->k[1]->w ? l : l + knownTrailingZeros(e->k[0]); }
  case Op::ZExt: case Op::SExt: { unsigned l = knownTrailingZeros(e->k[0]); return l < e->k[0]->w ? l : e->w; }
  case Op::Ite: return std::min(knownTrailingZeros(e->k[1]), knownTrailingZeros(e->k[2]));
  case Op::Shl: if (e->k[1]->isC()) return std::min<uint64_t>(e->w, knownTrailingZeros(e->k[0]) + e->k[1]->cv.getLimitedValue(4096)); return 0;
  case Op::And: return std::max(knownTrailingZeros(e->k[0]), knownTrailingZeros(e->k[1]));
  default: return 0;
  }
}
// number of leading bits known to be zero
static unsigned knownLeadingZeros(Ex e, int d = 6) {
  if (e->isC()) return e->cv.countl_zero();
  if (d == 0) return 0;
  switch (e->op) {
  case Op::ZExt: return e->w - e->k[0]->w + knownLeadingZeros(e->k[0], d - 1);
  case Op::Concat: { unsigned h = knownLeadingZeros(e->k[0], d - 1); return h < e->k[0]->w ? h : h + knownLeadingZeros(e->k[1], d - 1); }
  case Op::Ite: return std::min(knownLeadingZeros(e->k[1], d - 1), knownLeadingZeros(e->k[2], d - 1));
  case Op::And: return std::max(knownLeadingZeros(e->k[0], d - 1), knownLeadingZeros(e->k[1], d - 1));
  case Op::Or: case Op::Xor: return std::min(knownLeadingZeros(e->k[0], d - 1), knownLeadingZeros(e->k[1], d - 1));
  case Op::UDiv: {
    unsigned l = knownLeadingZeros(e->k[0], d - 1);
    if (e->k[1]->isC() && !e->k[1]->cv.isZero()) l += e->k[1]->cv.logBase2();
    return std::min<unsigned>(l, e->w);
  }
  case Op::URem:
    if (e->k[1]->isC() && !e->k[1]->cv.isZero()) {
      APInt m = e->k[1]->cv - 1;
      return std::max<unsigned>(m.countl_zero(), knownLeadingZeros(e->k[0], d - 1));
    }
    return 0;
  case Op::Add: {
    unsigned l = std::min(knownLeadingZeros(e->k[0], d - 1), knownLeadingZeros(e->k[1], d - 1));
    return l ? l - 1 : 0;
  }
  case Op::Mul: {
    unsigned la = knownLeadingZeros(e->k[0], d - 1), lb = knownLeadingZeros(e->k[1], d - 1);
    unsigned used = (e->w - la) + (e->w - lb);
    return used >= e->w ? 0 : e->w - used;
  }
  case Op::LShr: if (e->k[1]->isC()) return std::min<uint64_t>(e->w, knownLeadingZeros(e->k[0], d - 1) + e->k[1]->cv.getLimitedValue(4096)); return knownLeadingZeros(e->k[0], d - 1);
  case Op::Extract: {
    unsigned top = e->aux + e->w;
    unsigned l = knownLeadingZeros(e->k[0], d - 1), cut = e->k[0]->w - top;
    return l > cut ? std::min<unsigned>(l - cut, e->w) : 0;
  }
  default: return 0;
  }
}
// an upper bound of the unsigned value
static APInt umaxOf(Ex e) {
  static std::unordered_map<Ex, APInt> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  unsigned l = knownLeadingZeros(e), w = e->w;
  APInt r = l >= w ? APInt(w, 0) : APInt::getLowBitsSet(w, w - l);
  APInt t = r;
  bool ov = true;
  switch (e->op) {
  case Op::Const: t = e->cv; ov = false; break;
  case Op::Add: {
    // x + c with a wrapping c is a subtraction: only bounded when x is known large, so skip
    t = umaxOf(e->k[0]).uadd_ov(umaxOf(e->k[1]), ov);
    break;
  }
  case Op::Mul: t = umaxOf(e->k[0]).umul_ov(umaxOf(e->k[1]), ov); break;
  case Op::UDiv: if (e->k[1]->isC() && !e->k[1]->cv.isZero()) { t = umaxOf(e->k[0]).udiv(e->k[1]->cv); ov = false; } break;
  case Op::URem: if (e->k[1]->isC() && !e->k[1]->cv.isZero()) { t = e->k[1]->cv - 1; APInt u = umaxOf(e->k[0]); if (u.ult(t)) t = u; ov = false; } break;
  case Op::ZExt: t = umaxOf(e->k[0]).zext(w); ov = false; break;
  case Op::Extract: { APInt u = umaxOf(e->k[0]).lshr(e->aux); if (u.getActiveBits() <= w) { t = u.trunc(w); ov = false; } break; }
  case Op::Ite: { t = umaxOf(e->k[1]); APInt u = umaxOf(e->k[2]); if (t.ult(u)) t = u; ov = false; break; }
  case Op::Concat: t = umaxOf(e->k[0]).zext(w).shl(e->k[1]->w) | umaxOf(e->k[1]).zext(w); if (!umaxOf(e->k[0]).isZero()) t |= APInt::getLowBitsSet(w, e->k[1]->w); ov = false; break;
  default: break;
  }
  if (!ov && t.ult(r)) r = t;
  memo.emplace(e, r);
  return r;
}
static Ex resize(Ex x, unsigned w) { return w == x->w ? x : w > x->w ? mkZExt(x, w) : mkExtract(x, 0, w); }

// bit segments, low to high; null = known zero
static bool segments(Ex e, std::vector<std::pair<Ex, unsigned>> &out, int budget = 24) {
  if ((int)out.size() > budget) return false;
  if (e->op == Op::Concat) return segments(e->k[1], out, budget) && segments(e->k[0], out, budget);
  if (e->op == Op::ZExt) { if (!segments(e->k[0], out, budget)) return false; out.push_back({nullptr, e->w - e->k[0]->w}); return true; }
  if (e->isC() && e->cv.isZero()) { out.push_back({nullptr, e->w}); return true; }
  out.push_back({e, e->w});
  return true;
}
// a|b, a^b or a+b where no bit can be set in both: the concatenation of the parts; null if not of that form
static Ex disjoint(Ex a, Ex b) {
  auto composite = [](Ex e) { return e->op == Op::Concat || e->op == Op::ZExt; };
  if (!composite(a) || !(composite(b) || b->isC())) return nullptr;
  std::vector<std::pair<Ex, unsigned>> x, y;
  if (!segments(a, x)) return nullptr;
  if (b->isC()) {   // runs of zero bits
    unsigned i = 0;
    while (i < b->w) {
      unsigned j = i;
      bool one = b->cv[i];
      while (j < b->w && b->cv[j] == one) j++;
      y.push_back({one ? mkConst(APInt::getAllOnes(j - i)) : nullptr, j - i});
      i = j;
    }
  } else if (!segments(b, y)) return nullptr;
  std::vector<Ex> parts;   // low to high
  size_t i = 0, j = 0;
  unsigned io = 0, jo = 0;
  while (i < x.size()) {
    unsigned n = std::min(x[i].second - io, y[j].second - jo);
    Ex p = x[i].first, q = y[j].first;
    if (p && q) return nullptr;
    parts.push_back(p ? mkExtract(p, io, n) : q ? mkExtract(q, jo, n) : mkConst(0, n));
    io += n; jo += n;
    if (io == x[i].second) { i++; io = 0; }
    if (jo == y[j].second) { j++; jo = 0; }
  }
  Ex r = parts[0];
  for (size_t k = 1; k < parts.size(); k++) r = mkConcat(parts[k], r);
  return r;
}
static void addLeaves(Ex e, std::vector<Ex> &out, int &budget) {
  if (e->op == Op::Add && budget-- > 0) { addLeaves(e->k[0], out, budget); addLeaves(e->k[1], out, budget); return; }
  out.push_back(e);
}
static void xorLeaves(Ex e, std::vector<Ex> &out, int &budget) {
  if (e->op == Op::Xor && budget-- > 0) { xorLeaves(e->k[0], out, budget); xorLeaves(e->k[1], out, budget); return; }
  out.push_back(e);
}

Ex mkBin(Op op, Ex a, Ex b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op=%d %u %u\n", (int)op, a->w, b->w); abort(); }
  unsigned w = a->w;
  if (a->isC() && b->isC()) return mkConst(foldBin(op, a->cv, b->cv));
  if (commut(op)) {
    if (a->isC()) std::swap(a, b);
    else if (!b->isC() && a->id > b->id) std::swap(a, b);
  }
  // push into constant ites
  if (b->isC() && a->op == Op::Ite && (isCmp(op) || op == Op::Add || op == Op::And) && constIte(a))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isC() && b->op == Op::Ite && isCmp(op) && constIte(b))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
  case Op::Add:
    if (w == 1) return mkBin(Op::Xor, a, b);
    if (isZero(b)) return a;
    if (b->isC() && a->op == Op::Add && a->k[1]->isC()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->cv + b->cv));
    if (!b->isC() && a->op == Op::Add && a->k[1]->isC()) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
    if (!b->isC() && b->op == Op::Add && b->k[1]->isC()) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
    if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
    if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
    if (!b->isC() && (a->op == Op::Add || b->op == Op::Add)) {   // canonical order of a sum (constants were pulled out above)
      std::vector<Ex> l;
      int budget = 24;
      addLeaves(a, l, budget); addLeaves(b, l, budget);
      std::sort(l.begin(), l.end(), [](Ex p, Ex q) { return p->id < q->id; });
      APInt c(w, 0);
      Ex r = nullptr;
      for (Ex e : l) { if (e->isC()) c += e->cv; else r = r ? node(Op::Add, w, r, e) : e; }
      if (!r) return mkConst(c);
      return c.isZero() ? r : node(Op::Add, w, r, mkConst(c));
    }
    break;
  case Op::Sub:
    if (w == 1) return mkBin(Op::Xor, a, b);
    if (isZero(b)) return a;
    if (a == b) return mkConst(0, w);
    if (b->isC()) return mkBin(Op::Add, a, mkConst(-b->cv));
    if (b->op == Op::Add && b->k[1]->isC()) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(-b->k[1]->cv));
    if (a->op == Op::Add && a->k[1]->isC()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
    if (a->op == Op::Add && a->k[0] == b) return a->k[1];
    if (a->op == Op::Add && a->k[1] == b) return a->k[0];
    break;
  case Op::Mul:
    if (w == 1) return mkBin(Op::And, a, b);
    if (isZero(b)) return b;
    if (b->isC() && b->cv == 1) return a;
    if (b->isC() && b->cv.isPowerOf2()) return mkBin(Op::Shl, a, mkConst(b->cv.logBase2(), w));
    if (b->isC() && a->op == Op::Mul && a->k[1]->isC()) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->cv * b->cv));
    break;
  case Op::UDiv:
    if (b->isC() && b->cv.isPowerOf2()) return mkBin(Op::LShr, a, mkConst(b->cv.logBase2(), w));
    if (b->isC() && !b->cv.isZero() && umaxOf(a).ult(b->cv)) return mkConst(0, w);
    if (b->isC() && !b->cv.isZero()) {
      // (a / c1) / c2 = a / (c1*c2)
      if (a->op == Op::UDiv && a->k[1]->isC() && !a->k[1]->cv.isZero()) {
        bool ov; APInt m = a->k[1]->cv.umul_ov(b->cv, ov);
        return ov ? mkConst(0, w) : mkBin(Op::UDiv, a->k[0], mkConst(m));
      }
      if (w > 8 && !a->isC()) {
        unsigned lz = knownLeadingZeros(a);
        if (a->op == Op::ZExt && b->cv.getActiveBits() <= a->k[0]->w)
          return mkZExt(mkBin(Op::UDiv, a->k[0], mkConst(b->cv.trunc(a->k[0]->w))), w);
        (void)lz;
      }
    }
    break;
  case Op::URem:
    if (b->isC() && b->cv.isPowerOf2()) {
      unsigned n = b->cv.logBase2();
      return n == 0 ? mkConst(0, w) : mkZExt(mkExtract(a, 0, n), w);
    }
    if (b->isC() && !b->cv.isZero() && umaxOf(a).ult(b->cv)) return a;
    if (b->isC() && !b->cv.isZero() && a->op == Op::ZExt && b->cv.getActiveBits() <= a->k[0]->w)
      return mkZExt(mkBin(Op::URem, a->k[0], mkConst(b->cv.trunc(a->k[0]->w))), w);
    break;
  case Op::SDiv: case Op::SRem:
    if (b->isC() && b->cv == 1) return op == Op::SDiv ? a : mkConst(0, w);
    // both operands known non-negative: unsigned
    if (b->isC() && b->cv.isStrictlyPositive() && knownLeadingZeros(a) > 0)
      return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
    break;
  case Op::And:
    if (isZero(b)) return b;
    if (isOnes(b) || a == b) return a;
    if (w == 1) {
      if (a->op == Op::Not && a->k[0] == b) return mkConst(0, 1);
      if (b->op == Op::Not && b->k[0] == a) return mkConst(0, 1);
    }
    if (b->isC()) {
      if (a->op == Op::And && a->k[1]->isC()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->cv & b->cv));
      if (b->cv.isMask()) return mkZExt(mkExtract(a, 0, b->cv.countr_one()), w);
      if (b->cv.isShiftedMask()) {
        unsigned lo = b->cv.countr_zero(), n = b->cv.popcount();
        return mkZExt(mkConcat(mkExtract(a, lo, n), mkConst(0, lo)), w);
      }
    }
    break;
  case Op::Or:
    if (isZero(b) || a == b) return a;
    if (isOnes(b)) return b;
    if (w == 1) {
      if (a->op == Op::Not && a->k[0] == b) return mkConst(1, 1);
      if (b->op == Op::Not && b->k[0] == a) return mkConst(1, 1);
    }
    {
      // disjoint or -> concat
      unsigned tb = knownTrailingZeros(b), ta = knownTrailingZeros(a);
      if (tb > 0 && tb < w && w - knownLeadingZeros(a) <= tb)
        return mkConcat(mkExtract(b, tb, w - tb), mkExtract(a, 0, tb));
      if (ta > 0 && ta < w && w - knownLeadingZeros(b) <= ta)
        return mkConcat(mkExtract(a, ta, w - ta), mkExtract(b, 0, ta));
      if (w > 1) if (Ex r = disjoint(a, b)) return r;
    }
    break;
  case Op::Xor:
    if (w > 1 && !b->isC() && (a->op == Op::Xor || b->op == Op::Xor)) {
      // canonical order, equal operands cancel
      std::vector<Ex> l;
      int budget = 24;
      xorLeaves(a, l, budget); xorLeaves(b, l, budget);
      std::sort(l.begin(), l.end(), [](Ex p, Ex q) { return p->id < q->id; });
      APInt c(w, 0);
      std::vector<Ex> k;
      for (Ex e : l) {
        if (e->isC()) c ^= e->cv;
        else if (!k.empty() && k.back() == e) k.pop_back();
        else k.push_back(e);
      }
      if (k.empty()) return mkConst(c);
      Ex r = k[0];
      for (size_t i = 1; i < k.size(); i++) r = node(Op::Xor, w, r, k[i]);
      return c.isZero() ? r : node(Op::Xor, w, r, mkConst(c));
    }
    if (isZero(b)) return a;
    if (a == b) return mkConst(0, w);
    if (w == 1 && isOnes(b)) return mkNot(a);
    if (w == 1 && a->op == Op::Not) return mkNot(mkBin(Op::Xor, a->k[0], b));
    if (w == 1 && b->op == Op::Not) return mkNot(mkBin(Op::Xor, a, b->k[0]));
    if (b->isC() && a->op == Op::Xor && a->k[1]->isC()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->cv ^ b->cv));
    if (a->op == Op::Xor && (a->k[0] == b)) return a->k[1];
    if (a->op == Op::Xor && (a->k[1] == b)) return a->k[0];
    if (b->op == Op::Xor && (b->k[0] == a)) return b->k[1];
    if (b->op == Op::Xor && (b->k[1] == a)) return b->k[0];
    if (b->isC() && b->cv.isSignMask() && w > 1)
      return mkConcat(mkNot(mkExtract(a, w - 1, 1)), mkExtract(a, 0, w - 1));
    break;
  case Op::Shl:
    if (isZero(b)) return a;
    if (isZero(a)) return a;
    if (b->isC()) {
      uint64_t n = b->cv.getLimitedValue(w);
      if (n >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
    }
    break;
  case Op::LShr:
    if (isZero(b)) return a;
    if (isZero(a)) return a;
    if (b->isC()) {
      uint64_t n = b->cv.getLimitedValue(w);
      if (n >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, n, w - n), w);
    }
    break;
  case Op::AShr:
    if (isZero(b)) return a;
    if (b->isC()) {
      uint64_t n = b->cv.getLimitedValue(w - 1);
      return mkSExt(mkExtract(a, n, w - n), w);
    }
    break;
  case Op::Eq:
    if (a == b) return mkConst(1, 1);
    if (w == 1) {
      if (b->isC()) return b->cv.isZero() ? mkNot(a) : a;
      if (a->op == Op::Not && a->k[0] == b) return mkConst(0, 1);
      if (b->op == Op::Not && b->k[0] == a) return mkConst(0, 1);
      if (a->op == Op::Not && b->op == Op::Not) return mkBin(Op::Eq, a->k[0], b->k[0]);
    }
    if (b->isC()) {
      if (a->op == Op::ZExt) {
        unsigned kw = a->k[0]->w;
        if (b->cv.getActiveBits() > kw) return mkConst(0, 1);
        return mkBin(Op::Eq, a->k[0], mkConst(b->cv.trunc(kw)));
      }
      if (a->op == Op::SExt) {
        unsigned kw = a->k[0]->w;
        if (b->cv.trunc(kw).sext(w) != b->cv) return mkConst(0, 1);
        return mkBin(Op::Eq, a->k[0], mkConst(b->cv.trunc(kw)));
      }
      if (a->op == Op::Concat)
        return mkBin(Op::And, mkBin(Op::Eq, a->k[0], mkExtract(b, a->k[1]->w, a->k[0]->w)),
                     mkBin(Op::Eq, a->k[1], mkExtract(b, 0, a->k[1]->w)));
      if (a->op == Op::Add && a->k[1]->isC()) return mkBin(Op::Eq, a->k[0], mkConst(b->cv - a->k[1]->cv));
      if (a->op == Op::Sub && isZero(b)) return mkBin(Op::Eq, a->k[0], a->k[1]);
      if (a->op == Op::Xor && a->k[1]->isC()) return mkBin(Op::Eq, a->k[0], mkConst(b->cv ^ a->k[1]->cv));
    } else {
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
      if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
        return mkBin(Op::And, mkBin(Op::Eq, a->k[0], b->k[0]), mkBin(Op::Eq, a->k[1], b->k[1]));
      if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkBin(Op::Eq, a->k[0], b->k[0]);
      if (a->op == Op::Add && b->op == Op::Add && a->k[1]->isC() && b->k[1]->isC() && a->k[0] == b->k[0]) return mkConst(0, 1);
      if (a->op == Op::Add && a->k[1]->isC() && a->k[0] == b) return mkConst(0, 1);
      if (b->op == Op::Add && b->k[1]->isC() && b->k[0] == a) return mkConst(0, 1);
    }
    break;
  case Op::Ult:
    if (a == b || isZero(b)) return mkConst(0, 1);
    if (isOnes(a)) return mkConst(0, 1);
    if (b->isC() && b->cv == 1) return mkBin(Op::Eq, a, mkConst(0, w));
    if (isZero(a)) return mkNot(mkBin(Op::Eq, b, a));
    if (b->isC() && umaxOf(a).ult(b->cv)) return mkConst(1, 1);
    if (a->isC() && umaxOf(b).ule(a->cv)) return mkConst(0, 1);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == Op::ZExt && b->isC()) return mkBin(op, a->k[0], mkConst(b->cv.trunc(a->k[0]->w)));
    if (b->op == Op::ZExt && a->isC()) return mkBin(op, mkConst(a->cv.trunc(b->k[0]->w)), b->k[0]);
    break;
  case Op::Ule:
    if (a == b || isZero(a) || isOnes(b)) return mkConst(1, 1);
    if (isZero(b)) return mkBin(Op::Eq, a, b);
    if (b->isC() && umaxOf(a).ule(b->cv)) return mkConst(1, 1);
    if (a->isC() && umaxOf(b).ult(a->cv)) return mkConst(0, 1);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == Op::ZExt && b->isC()) return mkBin(op, a->k[0], mkConst(b->cv.trunc(a->k[0]->w)));
    if (b->op == Op::ZExt && a->isC()) return mkBin(op, mkConst(a->cv.trunc(b->k[0]->w)), b->k[0]);
    break;
  case Op::Slt: case Op::Sle:
    if (a == b) return mkConst(op == Op::Sle, 1);
    if (w > 1 && knownLeadingZeros(a) > 0 && knownLeadingZeros(b) > 0)
      return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (op == Op::Slt && isZero(b)) return mkExtract(a, w - 1, 1);               // a < 0
    if (op == Op::Sle && isZero(a)) return mkNot(mkExtract(b, w - 1, 1));        // 0 <= b
    if (op == Op::Sle && b->isC() && b->cv.isAllOnes()) return mkExtract(a, w - 1, 1);
    if (op == Op::Slt && a->isC() && a->cv.isAllOnes()) return mkNot(mkExtract(b, w - 1, 1));
    if (w > 1 && b->isC() && b->cv.isNonNegative() && knownLeadingZeros(b) > 0 && a->op == Op::SExt) {
      APInt t = b->cv.trunc(a->k[0]->w);
      if (t.sext(w) == b->cv) return mkBin(op, a->k[0], mkConst(t));
    }
    break;
  default: break;
  }
  return node(op, isCmp(op) ? 1 : w, a, b);
}

// ---------------------------------------------------------------- floating point
static const fltSemantics &sem(unsigned w) {
  return w == 32 ? APFloat::IEEEsingle() : w == 64 ? APFloat::IEEEdouble() : w == 16 ? APFloat::IEEEhalf() : APFloat::x87DoubleExtended();
}
static APInt canon(const APFloat &f, unsigned w) {
  if (f.isNaN()) return w == 32 ? APInt(32, 0x7fc00000) : APInt(64, 0x7ff8000000000000ull);
  return f.bitcastToAPInt();
}
double refFn(unsigned f, double x);
APInt foldF(Op op, const APInt *a, const APInt *b, const APInt *c, unsigned w, unsigned aux) {
  auto RM = APFloat::rmNearestTiesToEven;
  switch (op) {
  case Op::SIToF: case Op::UIToF: {
    APFloat r(sem(w));
    r.convertFromAPInt(*a, op == Op::SIToF, RM);
    return canon(r, w);
  }
  default: break;
  }
  APFloat x(sem(a->getBitWidth()), *a);
  switch (op) {
  case Op::Ref: return canon(APFloat(refFn(aux, x.convertToDouble())), 64);
  case Op::FIsNaN: return APInt(1, x.isNaN());
  case Op::FToSI: case Op::FToUI: {
    APSInt r(w, op == Op::FToUI);
    bool exact;
    auto st = x.convertToInteger(r, APFloat::rmTowardZero, &exact);
    if (st & APFloat::opInvalidOp) return APInt::getSignedMinValue(w);
    return r;
  }
  case Op::FToF: {
    bool li;
    APFloat r = x;
    r.convert(sem(w), RM, &li);
    return canon(r, w);
  }
  case Op::FRound: {
    static const APFloat::roundingMode m[] = {APFloat::rmNearestTiesToEven, APFloat::rmNearestTiesToAway, APFloat::rmTowardPositive, APFloat::rmTowardNegative, APFloat::rmTowardZero};
    APFloat r = x;
    r.roundToIntegral(m[aux]);
    return canon(r, a->getBitWidth());
  }
  case Op::FSqrt: {
    if (x.isNaN()) return canon(x, a->getBitWidth());
    if (a->getBitWidth() == 32) {
      float f = x.convertToFloat();
      volatile float r = __builtin_sqrtf(f);
      return canon(APFloat((float)r), 32);
    }
    double f = x.convertToDouble();
    volatile double r = __builtin_sqrt(f);
    return canon(APFloat((double)r), 64);
  }
  default: break;
  }
  APFloat y(sem(b->getBitWidth()), *b);
  unsigned ow = a->getBitWidth();
  switch (op) {
  case Op::FAdd: x.add(y, RM); return canon(x, ow);
  case Op::FSub: x.subtract(y, RM); return canon(x, ow);
  case Op::FMul: x.multiply(y, RM); return canon(x, ow);
  case Op::FDiv: x.divide(y, RM); return canon(x, ow);
  case Op::FRem: x.mod(y); return canon(x, ow);
  case Op::FFma: { APFloat z(sem(ow), *c); x.fusedMultiplyAdd(y, z, RM); return canon(x, ow); }
  case Op::FLt: return APInt(1, x.compare(y) == APFloat::cmpLessThan);
  case Op::FLe: { auto r = x.compare(y); return APInt(1, r == APFloat::cmpLessThan || r == APFloat::cmpEqual); }
  case Op::FEq: return APInt(1, x.compare(y) == APFloat::cmpEqual);
  default: abort();
  }
}
Ex mkF(Op op, Ex a, Ex b, Ex c, unsigned w, unsigned aux) {
  if (a->isC() && (!b || b->isC()) && (!c || c->isC()))
    return mkConst(foldF(op, &a->cv, b ? &b->cv : nullptr, c ? &c->cv : nullptr, w, aux));
  if (op == Op::FLt || op == Op::FLe || op == Op::FEq || op == Op::FIsNaN) w = 1;
  else if (w == 0) w = a->w;
  if (op == Op::FMul && (w == 32 || w == 64)) {   // a factor of 1 or -1 only makes a NaN canonical or flips the sign bit
    if (b->isC()) std::swap(a, b);
    if (a->isC()) {
      APFloat k(sem(w), a->cv);
      bool one = k.isExactlyValue(1.0), neg = k.isExactlyValue(-1.0);
      if (one || neg) {
        bool canonical = b->op == Op::FAdd || b->op == Op::FSub || b->op == Op::FMul || b->op == Op::FDiv || b->op == Op::FSqrt;
        if (one && canonical) return b;
        Ex v = one ? b : mkConcat(mkNot(mkExtract(b, w - 1, 1)), mkExtract(b, 0, w - 1));
        return mkIte(mkF(Op::FIsNaN, b, nullptr, nullptr, 1, 0), mkConst(w == 32 ? APInt(32, 0x7fc00000) : APInt(64, 0x7ff8000000000000ull)), v);
      }
    }
  }
  // commutative
  if ((op == Op::FAdd || op == Op::FMul || op == Op::FEq) && a->id > b->id) std::swap(a, b);
  return node(op, w, a, b, c, aux);
}

// ---------------------------------------------------------------- V level
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t c, unsigned w) { return w >= 64 ? (int64_t)c : (int64_t)(c << (64 - w)) >> (64 - w); }

V vBin(Op op, const V &a, const V &b) {
  if (!a.e && !b.e && a.w <= 64) {
    unsigned w = a.w;
    uint64_t x = a.c, y = b.c;
    switch (op) {
    case Op::Add: return V(x + y, w);
    case Op::Sub: return V(x - y, w);
    case Op::Mul: return V(x * y, w);
    case Op::UDiv: return V(y ? x / y : ~0ull, w);
    case Op::URem: return V(y ? x % y : x, w);
    case Op::And: return V(x & y, w);
    case Op::Or: return V(x | y, w);
    case Op::Xor: return V(x ^ y, w);
    case Op::Shl: return V(y >= w ? 0 : x << y, w);
    case Op::LShr: return V(y >= w ? 0 : x >> y, w);
    case Op::Eq: return V(x == y, 1);
    case Op::Ult: return V(x < y, 1);
    case Op::Ule: return V(x <= y, 1);
    case Op::Slt: return V(sx(x, w) < sx(y, w), 1);
    case Op::Sle: return V(sx(x, w) <= sx(y, w), 1);
    default: return V(mkConst(foldBin(op, APInt(w, x), APInt(w, y))));
    }
  }
  return V(mkBin(op, ex(a), ex(b)));
}
V vNot(const V &a) { return a.e ? V(mkNot(a.e)) : V(~a.c, a.w); }
V vIte(const V &c, const V &a, const V &b) {
  if (!c.e) return c.c ? a : b;
  return V(mkIte(c.e, ex(a), ex(b)));
}
V vExtract(const V &a, unsigned lo, unsigned w) {
  if (!a.e) return V(a.c >> lo, w);
  return V(mkExtract(a.e, lo, w));
}
V vConcat(const V &hi, const V &lo) {
  if (!hi.e && !lo.e && hi.w + lo.w <= 64) return V((hi.c << lo.w) | lo.c, hi.w + lo.w);
  return V(mkConcat(ex(hi), ex(lo)));
}
V vZExt(const V &a, unsigned w) {
  if (!a.e && w <= 64) return V(a.c, w);
  return V(mkZExt(ex(a), w));
}
V vSExt(const V &a, unsigned w) {
  if (!a.e && w <= 64) return V((uint64_t)sx(a.c, a.w), w);
  return V(mkSExt(ex(a), w));
}
V vF(Op op, const V &a, const V *b, const V *c, unsigned w, unsigned aux) {
  return V(mkF(op, ex(a), b ? ex(*b) : nullptr, c ? ex(*c) : nullptr, w, aux));
}

// ---------------------------------------------------------------- evaluation
const APInt &Model::eval(Ex e) const {
  if (e->isC()) return e->cv;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  APInt r(e->w, 0);
  switch (e->op) {
  case Op::Var: { auto v = val.find(e->aux); if (v != val.end()) r = v->second; break; }
  case Op::Not: r = ~eval(e->k[0]); break;
  case Op::Ite: r = eval(e->k[0]).isZero() ? eval(e->k[2]) : eval(e->k[1]); break;
  case Op::Concat: { const APInt a = eval(e->k[0]); const APInt &b = eval(e->k[1]); r = a.zext(e->w).shl(e->k[1]->w) | b.zext(e->w); break; }
  case Op::Extract: r = eval(e->k[0]).extractBits(e->w, e->aux); break;
  case Op::ZExt: r = eval(e->k[0]).zext(e->w); break;
  case Op::SExt: r = eval(e->k[0]).sext(e->w); break;
  default:
    if (e->op >= Op::FAdd) {
      APInt a = eval(e->k[0]), b(1, 0), c(1, 0);
      if (e->nk > 1) b = eval(e->k[1]);
      if (e->nk > 2) c = eval(e->k[2]);
      r = foldF(e->op, &a, e->nk > 1 ? &b : nullptr, e->nk > 2 ? &c : nullptr, e->w, e->aux);
    } else {
      APInt a = eval(e->k[0]);
      r = foldBin(e->op, a, eval(e->k[1]));
    }
  }
  return memo.emplace(e, r).first->second;
}
