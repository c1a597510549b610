// Interval branch-and-prune over bit patterns: decides conjunctions over few variables whose terms mix
// bit-vector, integer and floating-point operations, by recursive splitting of the variables' ranges.
// A box is discarded only when one constraint is false for every point of it; Sat is answered only with a
// point at which every constraint evaluates to true.
#include "solver.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

typedef unsigned __int128 u128;
typedef __int128 i128;
IcpStats gIcp;

double refFn(unsigned f, double x) {
  switch (f) {
  case 0: return ::exp(x); case 1: return ::log(x); case 2: return ::log10(x); case 3: return ::sin(x);
  case 4: return ::cos(x); case 5: return ::tan(x); case 6: return ::sinh(x); case 7: return ::cosh(x);
  case 8: return ::tanh(x); case 9: return ::erf(x); case 10: return ::erfc(x); case 11: return ::cbrt(x);
  default: return ::sqrt(x);
  }
}

namespace {
const double INF = HUGE_VAL;
inline uint64_t mskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
inline int64_t sxw(uint64_t c, unsigned w) { return w >= 64 ? (int64_t)c : (int64_t)(c << (64 - w)) >> (64 - w); }
inline double fromPat(uint64_t p, unsigned w) {
  if (w == 32) { uint32_t u = (uint32_t)p; float f; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &p, 8); return d;
}
inline uint64_t toPat(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t u; memcpy(&u, &d, 8); return u;
}
inline uint64_t canonNaN(unsigned w) { return w == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull; }
inline uint64_t resPat(double d, unsigned w) { return d != d ? canonNaN(w) : toPat(d, w); }
inline uint64_t infPat(unsigned w) { return w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; }
struct Iv { double l, h; };
inline double dn(double x) { return x - std::fabs(x) * 4e-16 - 1e-320; }
inline double up(double x) { return x + std::fabs(x) * 4e-16 + 1e-320; }
inline double mul0(double a, double b) { return a == 0 || b == 0 ? 0 : a * b; }
inline Iv imul(Iv a, Iv b) {
  double p = mul0(a.l, b.l), q = mul0(a.l, b.h), r = mul0(a.h, b.l), s = mul0(a.h, b.h);
  return {dn(std::min(std::min(p, q), std::min(r, s))), up(std::max(std::max(p, q), std::max(r, s)))};
}
inline Iv iadd(Iv a, Iv b) { return {dn(a.l + b.l), up(a.h + b.h)}; }
inline Iv isub(Iv a, Iv b) { return {dn(a.l - b.h), up(a.h - b.l)}; }
inline Iv idiv(Iv a, Iv b) {   // b does not contain 0
  double p = a.l / b.l, q = a.l / b.h, r = a.h / b.l, s = a.h / b.h;
  return {dn(std::min(std::min(p, q), std::min(r, s))), up(std::max(std::max(p, q), std::max(r, s)))};
}
inline double amax(Iv a) { return std::max(std::fabs(a.l), std::fabs(a.h)); }
inline double amin(Iv a) { return a.l > 0 ? a.l : a.h < 0 ? -a.h : 0; }
inline bool bad(double x) { return !(std::fabs(x) < 1e300); }

enum Kind : uint8_t { KPlain, KAbs, KNeg, KCopy };
struct Node {
  Op op; uint16_t w; uint8_t nk; Kind kind; uint32_t aux;
  int k[3]; int src;    // src: FP operand of KAbs/KNeg/KCopy
  int var;              // index of the variable or -1
  int wide;             // index into the wide stores or -1
  bool fpOp;
};
struct Dom {
  uint64_t lo, hi;
  double fl, fh;        // range of the non-NaN values
  double v, e;          // ideal value at the box centre, bound on |computed - ideal|
  Iv d[2];              // derivative of the ideal value
  double al, be, er;    // value = al * pattern(base) + be, within er
  int base;             // -1: no such form
  bool fp, nan, must, mz, aff;
};
struct Icp {
  std::vector<Node> nd;
  std::vector<Dom> dm;
  std::vector<APInt> wl, wh;
  std::vector<unsigned> st;
  unsigned cur = 0;
  std::vector<uint32_t> vars;      // global indices
  std::vector<int> vnode;
  std::unordered_map<Ex, int> at;
  std::vector<Ex> exs;
  std::vector<uint64_t> bl, bh;    // the current box
  double xl[2], xh[2];             // offsets of the box from its centre, as reals (FP variables)
  int affVars = 0;
  std::vector<int> roots;

  Ex cut = nullptr;                // a node that stands for any value
  int add(Ex e) {
    // iterative post-order
    std::vector<std::pair<Ex, int>> stk{{e, 0}};
    while (!stk.empty()) {
      Ex x = stk.back().first;
      int &i = stk.back().second;
      if (at.count(x)) { stk.pop_back(); continue; }
      if (x != cut && i < x->nk) { Ex c = x->k[i++]; if (!at.count(c)) stk.push_back({c, 0}); continue; }
      Node n;
      n.op = x->op; n.w = x->w; n.nk = x->nk; n.aux = x->aux;
      if (x == cut) { n.op = Op::Var; n.nk = 0; } n.kind = KPlain; n.var = -1; n.wide = -1; n.src = -1;
      for (int j = 0; j < n.nk; j++) n.k[j] = at[x->k[j]];
      n.fpOp = x != cut && x->op >= Op::FAdd && x->op != Op::FLt && x->op != Op::FLe && x->op != Op::FEq && x->op != Op::FIsNaN && x->op != Op::FToSI && x->op != Op::FToUI;
      if (x->w > 64) { n.wide = wl.size(); wl.emplace_back(x->w, 0); wh.emplace_back(x->w, 0); if (x->isC()) wl.back() = wh.back() = x->cv; }
      if (n.op == Op::Var) {
        n.var = vars.size();
        vars.push_back(x == cut ? ~0u : x->aux); vnode.push_back(nd.size());
      }
      if (x != cut && (x->w == 32 || x->w == 64)) {
        uint64_t sg = 1ull << (x->w - 1);
        auto low = [&](Ex y) { return y->op == Op::Extract && y->aux == 0 && y->w == x->w - 1u && y->k[0]->w == x->w ? y->k[0] : nullptr; };
        if (x->op == Op::ZExt && low(x->k[0])) { n.kind = KAbs; n.src = at[low(x->k[0])]; }
        else if (x->op == Op::And && x->k[1]->isC() && x->k[1]->cv == (sg - 1)) { n.kind = KAbs; n.src = n.k[0]; }
        else if (x->op == Op::And && x->k[0]->isC() && x->k[0]->cv == (sg - 1)) { n.kind = KAbs; n.src = n.k[1]; }
        else if (x->op == Op::Xor && x->k[1]->isC() && x->k[1]->cv == sg) { n.kind = KNeg; n.src = n.k[0]; }
        else if (x->op == Op::Xor && x->k[0]->isC() && x->k[0]->cv == sg) { n.kind = KNeg; n.src = n.k[1]; }
        else if (x->op == Op::Concat && x->k[0]->w == 1 && low(x->k[1])) {
          Ex y = low(x->k[1]), s = x->k[0];
          n.src = at[y];
          bool ng = s->op == Op::Not && s->k[0]->op == Op::Extract && s->k[0]->aux == x->w - 1u && s->k[0]->k[0] == y;
          n.kind = s->isC() && s->cv.isZero() ? KAbs : ng ? KNeg : KCopy;
        }
      }
      at[x] = nd.size();
      nd.push_back(n);
      Dom d;
      memset(&d, 0, sizeof d);
      if (x->isC() && x->w <= 64) d.lo = d.hi = x->cv.getZExtValue();
      dm.push_back(d);
      exs.push_back(x);
      stk.pop_back();
    }
    return at[e];
  }

  // ---- concrete evaluation of one operation (width <= 64) ----
  static uint64_t fold(const Node &n, uint64_t a, uint64_t b, uint64_t c, unsigned aw, unsigned bw) {
    unsigned w = n.w;
    uint64_t m = mskw(w);
    auto F2 = [&](auto f) -> uint64_t {
      if (aw == 32) { float x = (float)fromPat(a, 32), y = (float)fromPat(b, 32); volatile float r = f(x, y); return resPat(r, 32); }
      double x = fromPat(a, 64), y = fromPat(b, 64); volatile double r = f(x, y); return resPat(r, 64);
    };
    switch (n.op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: case Op::SRem: {
      int64_t x = sxw(a, w), y = sxw(b, w);
      if (n.op == Op::SDiv) { if (!y) return x < 0 ? 1 & m : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
      if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : a >> b;
    case Op::AShr: { int64_t x = sxw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case Op::Not: return !a;
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sxw(a, aw) < sxw(b, aw);
    case Op::Sle: return sxw(a, aw) <= sxw(b, aw);
    case Op::Ite: return a ? b : c;
    case Op::Concat: return (a << bw) | b;
    case Op::Extract: return (a >> n.aux) & m;
    case Op::ZExt: return a;
    case Op::SExt: return (uint64_t)sxw(a, aw) & m;
    case Op::FAdd: return F2([](auto x, auto y) { return x + y; });
    case Op::FSub: return F2([](auto x, auto y) { return x - y; });
    case Op::FMul: return F2([](auto x, auto y) { return x * y; });
    case Op::FDiv: return F2([](auto x, auto y) { return x / y; });
    case Op::FSqrt: return aw == 32 ? resPat((double)__builtin_sqrtf((float)fromPat(a, 32)), 32) : resPat(__builtin_sqrt(fromPat(a, 64)), 64);
    case Op::FLt: return fromPat(a, aw) < fromPat(b, aw);
    case Op::FLe: return fromPat(a, aw) <= fromPat(b, aw);
    case Op::FEq: return fromPat(a, aw) == fromPat(b, aw);
    case Op::FIsNaN: { double x = fromPat(a, aw); return x != x; }
    case Op::FToF: return resPat(fromPat(a, aw), w);
    case Op::Ref: return resPat(refFn(n.aux, fromPat(a, 64)), 64);
    default: {
      APInt x(aw, a), y(bw ? bw : 1, b), z(n.w, c);
      bool three = n.op == Op::FFma;
      if (three) { APInt zz(aw, c); return foldF(n.op, &x, &y, &zz, n.w, n.aux).getZExtValue(); }
      return foldF(n.op, &x, n.nk > 1 ? &y : nullptr, nullptr, n.w, n.aux).getZExtValue();
    }
    }
  }
  static APInt foldW(const Node &n, const APInt *a, const APInt *b, const APInt *c) {
    switch (n.op) {
    case Op::Add: return *a + *b;
    case Op::Sub: return *a - *b;
    case Op::Mul: return *a * *b;
    case Op::UDiv: return b->isZero() ? APInt::getAllOnes(n.w) : a->udiv(*b);
    case Op::URem: return b->isZero() ? *a : a->urem(*b);
    case Op::And: return *a & *b;
    case Op::Or: return *a | *b;
    case Op::Xor: return *a ^ *b;
    case Op::Shl: return b->uge(n.w) ? APInt(n.w, 0) : a->shl(b->getZExtValue());
    case Op::LShr: return b->uge(n.w) ? APInt(n.w, 0) : a->lshr(b->getZExtValue());
    case Op::AShr: return a->ashr(b->uge(n.w) ? n.w - 1 : b->getZExtValue());
    case Op::Eq: return APInt(1, *a == *b);
    case Op::Ult: return APInt(1, a->ult(*b));
    case Op::Ule: return APInt(1, a->ule(*b));
    case Op::Slt: return APInt(1, a->slt(*b));
    case Op::Sle: return APInt(1, a->sle(*b));
    case Op::Ite: return a->isZero() ? *c : *b;
    case Op::Concat: return a->zext(n.w).shl(b->getBitWidth()) | b->zext(n.w);
    case Op::Extract: return a->extractBits(n.w, n.aux);
    case Op::ZExt: return a->zext(n.w);
    case Op::SExt: return a->sext(n.w);
    default: { Ex x = mkBin(n.op, mkConst(*a), mkConst(*b)); return x->cv; }
    }
  }
  bool single(int i) const { return nd[i].wide >= 0 ? wl[nd[i].wide] == wh[nd[i].wide] : dm[i].lo == dm[i].hi; }
  APInt wlo(int i) const { return nd[i].wide >= 0 ? wl[nd[i].wide] : APInt(nd[i].w, dm[i].lo); }
  APInt whi(int i) const { return nd[i].wide >= 0 ? wh[nd[i].wide] : APInt(nd[i].w, dm[i].hi); }

  void setFull(int i) {
    if (nd[i].wide >= 0) { wl[nd[i].wide] = APInt(nd[i].w, 0); wh[nd[i].wide] = APInt::getAllOnes(nd[i].w); }
    else { dm[i].lo = 0; dm[i].hi = mskw(nd[i].w); }
  }
  void constAff(Dom &d, double x) {
    if (bad(x)) { d.aff = false; return; }
    d.aff = affVars > 0; d.v = x; d.e = 0; d.d[0] = d.d[1] = {0, 0};
  }
  // enclosure from the mean-value form
  bool meanRange(const Dom &d, double &l, double &h) const {
    if (!d.aff) return false;
    Iv r{d.v, d.v};
    for (int j = 0; j < affVars; j++) {
      Iv t = imul(d.d[j], Iv{xl[j], xh[j]});
      r = iadd(r, t);
    }
    l = dn(r.l - d.e); h = up(r.h + d.e);
    return l == l && h == h;
  }
  // FP view of a node that is not itself an FP operation
  void view(int i) {
    Dom &d = dm[i];
    if (d.fp) return;
    d.fp = true; d.aff = false; d.nan = d.must = d.mz = false;
    unsigned w = nd[i].w;
    uint64_t sg = 1ull << (w - 1), inf = infPat(w);
    if (d.hi < sg) {
      d.fl = d.lo > inf ? INF : fromPat(d.lo, w);
      d.fh = d.hi > inf ? INF : fromPat(d.hi, w);
      d.nan = d.hi > inf; d.must = d.lo > inf;
    } else if (d.lo >= sg) {
      uint64_t a = d.lo - sg, b = d.hi - sg;
      d.fh = a > inf ? -INF : -fromPat(a, w);
      d.fl = b > inf ? -INF : -fromPat(b, w);
      d.nan = b > inf; d.must = a > inf; d.mz = a == 0;
    } else { d.fl = -INF; d.fh = INF; d.nan = true; d.mz = true; }
    if (d.nan) return;
    if (d.lo == d.hi) { constAff(d, d.fl); return; }
    const Node &n = nd[i];
    if (n.var >= 0) {
      if (n.var < affVars && !bad(d.fl) && !bad(d.fh)) {
        int j = n.var;
        d.aff = true; d.v = fromPat(bl[j] + (bh[j] - bl[j]) / 2, w); d.e = 0;
        d.d[0] = d.d[1] = {0, 0}; d.d[j] = {1, 1};
      }
      return;
    }
    if (d.base >= 0 && d.base != i && w == 32 && nd[d.base].w == 32) {
      Dom &b = dm[d.base];
      if (!nd[d.base].fpOp) view(d.base);
      if (!b.fp || !b.aff || b.nan) return;
      uint64_t M = 0x7fffffff;
      bool nrm = (d.lo & M) >= 0x800000 && (d.hi & M) < inf && (b.lo & M) >= 0x800000 && (b.hi & M) < inf &&
                 (d.lo >> 31) == (d.hi >> 31) && (b.lo >> 31) == (b.hi >> 31);
      if (!nrm) return;
      // |ideal| of the base may leave its binade; the (linear) extension of the map is what counts
      if (d.al == 1 && d.er == 0 && d.be == std::floor(d.be) && std::fmod(d.be, 8388608.0) == 0) {
        double f = fromPat(d.lo, 32) / fromPat((uint64_t)((double)d.lo - d.be), 32);   // exact power of two, with sign
        d.aff = true; d.v = b.v * f; d.e = b.e * std::fabs(f);
        for (int j = 0; j < affVars; j++) d.d[j] = f > 0 ? Iv{b.d[j].l * f, b.d[j].h * f} : Iv{b.d[j].h * f, b.d[j].l * f};
        return;
      }
      if ((d.lo >> 23) != (d.hi >> 23) || (b.lo >> 23) != (b.hi >> 23)) return;
      int eb = (int)((b.lo >> 23) & 255) - 127, en = (int)((d.lo >> 23) & 255) - 127;
      double sb = b.lo >> 31 ? -1 : 1, sn = d.lo >> 31 ? -1 : 1;
      double pb = (double)(b.lo & ~0x7fffffull), pn = (double)(d.lo & ~0x7fffffull);   // patterns of the binades' starts
      double P = pb + (sb * b.v - std::ldexp(1.0, eb)) * std::ldexp(1.0, 23 - eb);
      double val = d.al * P + d.be;
      double f = sn * sb * d.al * std::ldexp(1.0, en - eb);
      d.aff = true;
      d.v = sn * (std::ldexp(1.0, en) + (val - pn) * std::ldexp(1.0, en - 23));
      d.e = std::fabs(f) * b.e + d.er * std::ldexp(1.0, en - 23) + std::ldexp(1.0, en - 45);
      for (int j = 0; j < affVars; j++) d.d[j] = imul(b.d[j], Iv{f, f});
    }
  }
  // after fl/fh/nan/mz/aff are set: tighten, and derive the pattern interval
  void finishF(int i) {
    Dom &d = dm[i];
    unsigned w = nd[i].w;
    uint64_t sg = 1ull << (w - 1);
    d.fp = true; d.base = -1;
    if (d.must) { d.lo = d.hi = canonNaN(w); d.nan = true; d.aff = false; if (nd[i].kind != KPlain) { d.lo = 0; d.hi = mskw(w); } return; }
    if (d.aff && (bad(d.v) || bad(d.e) || bad(d.d[0].l) || bad(d.d[0].h) || bad(d.d[1].l) || bad(d.d[1].h) || d.nan)) d.aff = false;
    double l, h;
    if (meanRange(d, l, h)) {
      if (w == 32) {
        if (l > d.fl) { float f = (float)l; if (f > l) f = std::nextafterf(f, -(float)INF); if (f > d.fl) d.fl = f; }
        if (h < d.fh) { float f = (float)h; if (f < h) f = std::nextafterf(f, (float)INF); if (f < d.fh) d.fh = f; }
      } else { if (l > d.fl) d.fl = l; if (h < d.fh) d.fh = h; }
      if (d.fl > d.fh) { d.fl = d.fh = d.fl; }   // cannot happen for a non-empty box; keep something valid
    }
    if (d.nan) { d.lo = 0; d.hi = mskw(w); return; }
    if (d.fl > 0) { d.lo = toPat(d.fl, w); d.hi = toPat(d.fh, w); }
    else if (d.fh < 0) { d.lo = toPat(d.fh, w); d.hi = toPat(d.fl, w); }
    else if (d.fl == 0 && !d.mz) { d.lo = 0; d.hi = d.fh == 0 ? 0 : toPat(d.fh, w); }
    else if (d.fl == 0) { d.lo = 0; d.hi = sg; }
    else { d.lo = 0; d.hi = mskw(w); }
    if (w == 32) { d.base = i; d.al = 1; d.be = 0; d.er = 0; }
    if (d.lo == d.hi) constAff(d, fromPat(d.lo, w));
  }
  Iv ideal(const Dom &d) const { double e = d.aff ? d.e : 0; return {dn(d.fl - e), up(d.fh + e)}; }
  double rnd(double x, unsigned w) { return w == 32 ? (double)(float)x : x; }

  void evalF(int i) {
    const Node &n = nd[i];
    Dom &d = dm[i];
    unsigned w = n.w;
    d.nan = d.must = d.mz = d.aff = false;
    if (n.kind == KAbs || n.kind == KNeg || n.kind == KCopy) {
      Dom &a = dm[n.src];
      if (!nd[n.src].fpOp && nd[n.src].kind == KPlain) view(n.src);
      d.nan = a.nan; d.must = a.must;
      auto neg = [&] {
        d.fl = -a.fh; d.fh = -a.fl; d.mz = a.fl <= 0 && a.fh >= 0;
        if (a.aff) { d.aff = true; d.v = -a.v; d.e = a.e; for (int j = 0; j < 2; j++) d.d[j] = {-a.d[j].h, -a.d[j].l}; }
      };
      auto pos = [&] { d.fl = a.fl; d.fh = a.fh; d.mz = a.mz; if (a.aff) { d.aff = true; d.v = a.v; d.e = a.e; d.d[0] = a.d[0]; d.d[1] = a.d[1]; } };
      auto abs = [&](bool sign) {
        if (a.fl >= 0) { if (sign) neg(); else pos(); }
        else if (a.fh <= 0) { if (sign) pos(); else neg(); }
        else { double m = std::max(-a.fl, a.fh); d.fl = sign ? -m : 0; d.fh = sign ? 0 : m; }
        d.mz = sign && a.fl <= 0 && a.fh >= 0;
      };
      if (n.kind == KNeg) neg();
      else if (n.kind == KAbs) abs(false);
      else {
        Dom &s = dm[n.k[0]];
        if (s.lo == s.hi) abs(s.lo != 0);
        else { double m = std::max(std::fabs(a.fl), std::fabs(a.fh)); d.fl = -m; d.fh = m; d.mz = true; }
      }
      if (d.must || d.nan) {   // payload and sign are bit manipulations: stay wide
        d.fp = true; d.base = -1; d.aff = false;
        if (n.kind == KAbs) { d.lo = 0; d.hi = mskw(w) >> 1; } else { d.lo = 0; d.hi = mskw(w); }
        return;
      }
      finishF(i);
      return;
    }
    Dom *a = &dm[n.k[0]], *b = n.nk > 1 ? &dm[n.k[1]] : nullptr, *c = n.nk > 2 ? &dm[n.k[2]] : nullptr;
    if (n.op == Op::SIToF || n.op == Op::UIToF) {
      unsigned aw = nd[n.k[0]].w;
      double l, h;
      if (n.op == Op::UIToF) { l = (double)a->lo; h = (double)a->hi; if (w == 32) { l = (float)a->lo; h = (float)a->hi; } }
      else {
        uint64_t sg = 1ull << (aw - 1);
        int64_t x, y;
        if (a->hi < sg || a->lo >= sg) { x = sxw(a->lo, aw); y = sxw(a->hi, aw); }
        else { x = sxw(sg, aw); y = (int64_t)(sg - 1); }
        if (w == 32) { l = (float)x; h = (float)y; } else { l = (double)x; h = (double)y; }
      }
      d.fl = l; d.fh = h;
      finishF(i);
      return;
    }
    for (int j = 0; j < n.nk; j++) if (!dm[n.k[j]].fp) view(n.k[j]);
    d.nan = a->nan || (b && b->nan) || (c && c->nan);
    if (a->must || (b && b->must) || (c && c->must)) { d.must = true; finishF(i); return; }
    double eps = w == 32 ? 5.9604644775390625e-08 : 1.1102230246251566e-16, tiny = w == 32 ? 7.1e-46 : 5e-324;
    double r;
    auto fin = [&](Dom *x) { return x->fl > -INF && x->fh < INF; };
    auto ariA = a->aff && (!b || b->aff) && (!c || c->aff);
    switch (n.op) {
    case Op::FAdd: case Op::FSub: {
      bool sub = n.op == Op::FSub;
      double b1 = sub ? -b->fh : b->fl, b2 = sub ? -b->fl : b->fh;
      if ((a->fl == -INF && b2 == INF) || (a->fh == INF && b1 == -INF)) d.nan = true;
      double l = a->fl + b1, h = a->fh + b2;
      if (l != l) l = -INF;
      if (h != h) h = INF;
      d.fl = rnd(l, w); d.fh = rnd(h, w);
      // rnd of a double sum of two floats: a double sum is exact or within 2^-53, so widen when it was inexact
      if (w == 32) { d.fl = (float)a->fl + (float)b1; d.fh = (float)a->fh + (float)b2; if (d.fl != d.fl) d.fl = -INF; if (d.fh != d.fh) d.fh = INF; }
      d.mz = sub ? (a->mz && b->fl <= 0 && b->fh >= 0) : (a->mz && b->mz);
      if (ariA && fin(a) && fin(b)) {
        d.aff = true;
        d.v = sub ? a->v - b->v : a->v + b->v;
        r = std::max(std::fabs(d.fl), std::fabs(d.fh)) * eps;
        double q1 = a->fl, q2 = a->fh;   // exactness (Sterbenz)
        if (b1 <= 0 && b2 <= 0 && q1 >= 0) { if (q2 <= -2 * b2 && -b1 <= 2 * q1) r = 0; }
        else if (b1 >= 0 && q2 <= 0) { if (-q1 <= 2 * b1 && b2 <= -2 * q2) r = 0; }
        if (b1 == 0 && b2 == 0) r = 0;
        d.e = a->e + b->e + r + (std::fabs(a->v) + std::fabs(b->v)) * 2.3e-16;
        for (int j = 0; j < affVars; j++) d.d[j] = sub ? isub(a->d[j], b->d[j]) : iadd(a->d[j], b->d[j]);
        d.e = up(d.e);
      }
      break;
    }
    case Op::FMul: {
      auto p = [&](double x, double y) { return w == 32 ? (double)((float)x * (float)y) : x * y; };
      bool az = a->fl <= 0 && a->fh >= 0, bz = b->fl <= 0 && b->fh >= 0;
      if ((az && !fin(b)) || (bz && !fin(a))) d.nan = true;
      double t[4] = {p(a->fl, b->fl), p(a->fl, b->fh), p(a->fh, b->fl), p(a->fh, b->fh)};
      d.fl = INF; d.fh = -INF;
      for (double x : t) { if (x != x) x = 0; d.fl = std::min(d.fl, x); d.fh = std::max(d.fh, x); }
      if (n.k[0] == n.k[1]) { d.fl = az ? 0 : std::min(p(a->fl, a->fl), p(a->fh, a->fh)); d.mz = false; }
      else d.mz = d.fl <= 0 && d.fh >= 0 && !(a->fl >= 0 && !a->mz && b->fl >= 0 && !b->mz);
      if (ariA && fin(a) && fin(b)) {
        d.aff = true; d.v = a->v * b->v;
        double M = std::max(std::fabs(d.fl), std::fabs(d.fh));
        r = M * eps + tiny;
        auto pow2 = [&](Dom *x) { if (x->lo != x->hi) return false; int ex; return std::fabs(std::frexp(x->fl, &ex)) == 0.5; };
        double mn = amin({d.fl, d.fh});
        if ((pow2(a) || pow2(b)) && (mn >= (w == 32 ? 1.2e-38 : 2.3e-308) || (std::fabs(pow2(a) ? a->fl : b->fl) >= 1))) r = 0;
        double A = std::max(std::fabs(a->fl), std::fabs(a->fh)), B = std::max(std::fabs(b->fl), std::fabs(b->fh));
        d.e = up(A * b->e + B * a->e + a->e * b->e + r + std::fabs(d.v) * 2.3e-16 + 1e-320);
        if (n.k[0] == n.k[1]) { Iv R = ideal(*a); for (int j = 0; j < affVars; j++) d.d[j] = imul(imul(R, a->d[j]), {2, 2}); }
        else { Iv RA = ideal(*a), RB = ideal(*b); for (int j = 0; j < affVars; j++) d.d[j] = iadd(imul(RB, a->d[j]), imul(RA, b->d[j])); }
      }
      break;
    }
    case Op::FDiv: {
      auto p = [&](double x, double y) { return w == 32 ? (double)((float)x / (float)y) : x / y; };
      bool bz = b->fl <= 0 && b->fh >= 0;
      if (bz || (!fin(a) && !fin(b))) {
        bool az = a->fl <= 0 && a->fh >= 0;
        if ((az && bz) || (!fin(a) && !fin(b))) d.nan = true;
        d.fl = -INF; d.fh = INF; d.mz = true;
        if (bz && b->fl >= 0 && !b->mz && a->fl >= 0 && !a->mz) { d.fl = 0; d.mz = false; }
        break;
      }
      double t[4] = {p(a->fl, b->fl), p(a->fl, b->fh), p(a->fh, b->fl), p(a->fh, b->fh)};
      d.fl = INF; d.fh = -INF;
      for (double x : t) { d.fl = std::min(d.fl, x); d.fh = std::max(d.fh, x); }
      d.mz = d.fl <= 0 && d.fh >= 0 && !(a->fl >= 0 && !a->mz && b->fl > 0);
      Iv RB = ideal(*b);
      if (ariA && fin(a) && fin(b) && (RB.l > 0 || RB.h < 0) && (b->v > 0) == (RB.l > 0)) {
        d.aff = true; d.v = a->v / b->v;
        r = std::max(std::fabs(d.fl), std::fabs(d.fh)) * eps + tiny;
        Iv RA = ideal(*a), q = idiv(RA, RB);
        d.e = up((a->e + amax(q) * b->e) / amin({b->fl, b->fh}) + r + std::fabs(d.v) * 2.3e-16 + 1e-320);
        for (int j = 0; j < affVars; j++) d.d[j] = idiv(isub(a->d[j], imul(q, b->d[j])), RB);
      }
      break;
    }
    case Op::FFma: {
      double t[4] = {mul0(a->fl, b->fl), mul0(a->fl, b->fh), mul0(a->fh, b->fl), mul0(a->fh, b->fh)};
      double l = INF, h = -INF;
      for (double x : t) { l = std::min(l, x); h = std::max(h, x); }
      l += c->fl; h += c->fh;
      if (!fin(a) || !fin(b) || !fin(c) || l != l || h != h) { d.nan = true; d.fl = -INF; d.fh = INF; d.mz = true; break; }
      d.fl = dn(l); d.fh = up(h);
      if (w == 32) { float f = (float)d.fl; if (f > d.fl) f = std::nextafterf(f, -(float)INF); d.fl = f; f = (float)d.fh; if (f < d.fh) f = std::nextafterf(f, (float)INF); d.fh = f; }
      else { d.fl = dn(d.fl); d.fh = up(d.fh); }
      d.mz = d.fl <= 0 && d.fh >= 0;
      if (ariA) {
        d.aff = true; d.v = a->v * b->v + c->v;
        r = std::max(std::fabs(d.fl), std::fabs(d.fh)) * eps + tiny;
        double A = std::max(std::fabs(a->fl), std::fabs(a->fh)), B = std::max(std::fabs(b->fl), std::fabs(b->fh));
        d.e = up(A * b->e + B * a->e + a->e * b->e + c->e + r + (std::fabs(a->v * b->v) + std::fabs(c->v)) * 4.6e-16);
        Iv RA = ideal(*a), RB = ideal(*b);
        for (int j = 0; j < affVars; j++) d.d[j] = iadd(iadd(imul(RB, a->d[j]), imul(RA, b->d[j])), c->d[j]);
      }
      break;
    }
    case Op::FSqrt: {
      if (a->fl < 0) d.nan = true;
      if (a->fh < 0) { d.must = true; break; }
      double l = std::max(0.0, a->fl);
      d.fl = w == 32 ? (double)__builtin_sqrtf((float)l) : __builtin_sqrt(l);
      d.fh = w == 32 ? (double)__builtin_sqrtf((float)a->fh) : __builtin_sqrt(a->fh);
      d.mz = a->mz;
      Iv R = ideal(*a);
      if (a->aff && R.l > 0 && fin(a) && a->v > 0) {
        d.aff = true; d.v = std::sqrt(a->v);
        d.e = up(a->e / (2 * std::sqrt(R.l)) + d.fh * eps + d.v * 2.3e-16);
        Iv g = idiv({1, 1}, {dn(2 * std::sqrt(R.l)), up(2 * std::sqrt(R.h))});
        for (int j = 0; j < affVars; j++) d.d[j] = imul(a->d[j], g);
      }
      break;
    }
    case Op::FRound: case Op::FToF: {
      if (n.op == Op::FToF) {
        d.fl = rnd(a->fl, w); d.fh = rnd(a->fh, w);
        if (a->aff) {
          d.aff = true; d.v = a->v; d.d[0] = a->d[0]; d.d[1] = a->d[1];
          r = nd[n.k[0]].w == 32 && w == 64 ? 0 : std::max(std::fabs(d.fl), std::fabs(d.fh)) * eps + tiny;
          d.e = up(a->e + r);
        }
      } else {
        auto f = [&](double x) {
          if (!(std::fabs(x) < 1e18)) return x;
          switch (n.aux) { case 0: return std::nearbyint(x); case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x); }
        };
        d.fl = f(a->fl); d.fh = f(a->fh);
      }
      d.mz = d.fl <= 0 && d.fh >= 0 && (a->mz || a->fl < 0);
      break;
    }
    case Op::Ref: {
      double l = a->fl, h = a->fh;
      d.fl = -INF; d.fh = INF; d.mz = true;
      auto mono = [&](double s) { double x = refFn(n.aux, l), y = refFn(n.aux, h); if (s < 0) std::swap(x, y); d.fl = x - std::fabs(x) * 1e-15 - 1e-320; d.fh = y + std::fabs(y) * 1e-15 + 1e-320; };
      Iv R = ideal(*a), g{-INF, INF};
      bool ok = fin(a);
      auto lip = [&](bool sine, Iv x) {   // enclosure of sin / cos on x
        double m = x.l / 2 + x.h / 2, q = (x.h - x.l) / 2 + 1e-15 * (1 + std::fabs(m)), y = sine ? std::sin(m) : std::cos(m);
        return Iv{std::max(-1.0, y - q - 1e-15), std::min(1.0, y + q + 1e-15)};
      };
      switch (n.aux) {
      case 0: mono(1); if (d.fl < 0) d.fl = 0; g = {dn(std::exp(R.l) * (1 - 1e-15)), up(std::exp(R.h) * (1 + 1e-15))}; break;
      case 1: case 2: {
        if (l < 0) { d.nan = true; ok = false; if (h < 0) d.must = true; break; }
        mono(1);
        if (!(R.l > 0)) { ok = false; break; }
        double k = n.aux == 1 ? 1 : 2.302585092994046; g = idiv({1, 1}, imul(R, {k, k})); break;
      }
      case 3: case 4: { if (!fin(a)) { d.nan = true; break; } Iv t = lip(n.aux == 3, {l, h}); d.fl = t.l; d.fh = t.h; g = lip(n.aux != 3, R); if (n.aux == 4) g = {-g.h, -g.l}; break; }
      case 5: {
        if (!fin(a)) { d.nan = true; break; }
        double k1 = std::floor(R.l / M_PI + 0.5 - 1e-9), k2 = std::floor(R.h / M_PI + 0.5 + 1e-9);
        if (k1 != k2 || std::fabs(R.l) > 1e6 || std::fabs(R.h) > 1e6) { ok = false; break; }
        mono(1); d.fl -= std::fabs(d.fl) * 1e-9; d.fh += std::fabs(d.fh) * 1e-9;
        double t1 = std::tan(R.l), t2 = std::tan(R.h), tm = std::max(std::fabs(t1), std::fabs(t2)), tn = t1 > 0 ? t1 : t2 < 0 ? -t2 : 0;
        g = {dn((1 + tn * tn) * (1 - 1e-12)), up((1 + tm * tm) * (1 + 1e-12))};
        break;
      }
      case 6: mono(1); { double m = amax(R), k = amin(R); g = {dn(std::cosh(k) * (1 - 1e-15)), up(std::cosh(m) * (1 + 1e-15))}; } break;
      case 7: { double m = std::max(std::fabs(l), std::fabs(h)), k = amin({l, h}); d.fl = std::cosh(k) * (1 - 1e-15); d.fh = std::cosh(m) * (1 + 1e-15); g = {dn(std::sinh(R.l) - std::fabs(std::sinh(R.l)) * 1e-15), up(std::sinh(R.h) + std::fabs(std::sinh(R.h)) * 1e-15)}; break; }
      case 8: mono(1); { double m = amax(R), k = amin(R), cm = std::cosh(std::min(m, 300.0)), ck = std::cosh(std::min(k, 300.0)); g = {0, up(1 / (ck * ck) * (1 + 1e-14))}; if (m < 300) g.l = 1 / (cm * cm) * (1 - 1e-14); } break;
      case 9: case 10: {
        mono(n.aux == 9 ? 1 : -1);
        double m = amax(R), k = amin(R), C = 1.1283791670955126;
        g = {C * std::exp(-m * m) * (1 - 1e-14), C * std::exp(-k * k) * (1 + 1e-14)};
        if (n.aux == 10) g = {-g.h, -g.l};
        break;
      }
      case 11: mono(1); if (R.l > 0 || R.h < 0) { double m = std::cbrt(amax(R)), k = std::cbrt(amin(R)); g = {1 / (3 * m * m) * (1 - 1e-14), 1 / (3 * k * k) * (1 + 1e-14)}; } else ok = false; break;
      default:
        if (l < 0) { d.nan = true; if (h < 0) d.must = true; ok = false; break; }
        mono(1);
        if (R.l > 0) g = {1 / (2 * std::sqrt(R.h)) * (1 - 1e-15), 1 / (2 * std::sqrt(R.l)) * (1 + 1e-15)}; else ok = false;
      }
      if (ok && a->aff && !d.nan) {
        d.aff = true; d.v = refFn(n.aux, a->v);
        d.e = up(a->e * amax(g) + 1e-15 * std::max(std::fabs(d.fl), std::fabs(d.fh)) + 1e-15 * std::fabs(d.v) + 1e-320);
        for (int j = 0; j < affVars; j++) d.d[j] = imul(a->d[j], g);
      }
      break;
    }
    default:   // FRem and anything else: no information
      d.nan = true; d.fl = -INF; d.fh = INF; d.mz = true;
    }
    finishF(i);
  }

  struct Sg { int64_t l, h; };
  Sg sgn(int i) const {
    unsigned w = nd[i].w;
    uint64_t sg = 1ull << (w - 1);
    const Dom &d = dm[i];
    if (d.hi < sg || d.lo >= sg) return {sxw(d.lo, w), sxw(d.hi, w)};
    return {sxw(sg, w), (int64_t)(sg - 1)};
  }
  void setSg(Dom &d, int64_t l, int64_t h, unsigned w) {
    if ((l < 0) == (h < 0)) { d.lo = (uint64_t)l & mskw(w); d.hi = (uint64_t)h & mskw(w); }
    else { d.lo = 0; d.hi = mskw(w); }
  }
  void form(int i, int k, double al, double be, double er) {
    Dom &d = dm[i], &a = dm[k];
    if (a.base < 0) return;
    d.base = a.base; d.al = a.al * al; d.be = a.be * al + be; d.er = a.er * std::fabs(al) + er;
  }
  // Is the wide sum (difference) Y the sign extension of the same one computed in x's width?  1 yes, 0 no, -1 not known
  int noOverflow(int Y, int x) {
    const Node &p = nd[Y], &q = nd[x];
    if (p.op != q.op || (p.op != Op::Add && p.op != Op::Sub) || p.w > 64 || q.w >= p.w || p.w < 3) return -1;
    i128 l[2], h[2];
    for (int j = 0; j < 2; j++) {
      int u = p.k[j], v = q.k[j];
      eval(u); eval(v);
      if (nd[u].op == Op::Const && nd[v].op == Op::Const) { if (sxw(dm[u].lo, p.w) != sxw(dm[v].lo, q.w)) return -1; }
      else {
        int su = u, sv = v;
        while (nd[su].op == Op::SExt) su = nd[su].k[0];
        while (nd[sv].op == Op::SExt) sv = nd[sv].k[0];
        if (su != sv || (nd[su].w >= p.w) || nd[su].w > q.w) return -1;
      }
      Sg g = sgn(u);
      l[j] = g.l; h[j] = g.h;
    }
    i128 lo = p.op == Op::Add ? l[0] + l[1] : l[0] - h[1], hi = p.op == Op::Add ? h[0] + h[1] : h[0] - l[1];
    i128 lim = (i128)1 << (q.w - 1), wlim = (i128)1 << (p.w - 1);
    if (lo >= -lim && hi < lim) return 1;
    if (lo >= -wlim && hi < wlim && (lo >= lim || hi < -lim)) return 0;
    return -1;
  }
  static bool low1(uint64_t m) { return (m & (m + 1)) == 0; }

  void eval(int i) {
    if (st[i] == cur) return;
    st[i] = cur;
    const Node &n = nd[i];
    Dom &d = dm[i];
    d.fp = false; d.base = -1; d.aff = false;
    if (n.op == Op::Const) { if (n.wide < 0) d.fp = false; return; }
    if (n.op == Op::Var) {
      d.lo = bl[n.var]; d.hi = bh[n.var];
      if (n.w == 32) { d.base = i; d.al = 1; d.be = d.er = 0; }
      return;
    }
    if (n.op == Op::Ite) {
      eval(n.k[0]);
      Dom &c = dm[n.k[0]];
      if (c.lo == c.hi) {
        int t = n.k[c.lo ? 1 : 2];
        eval(t);
        if (n.wide >= 0) { wl[n.wide] = wl[nd[t].wide]; wh[n.wide] = wh[nd[t].wide]; return; }
        d = dm[t];
        if (nd[t].fpOp || nd[t].kind != KPlain) ; // FP data copied as they are
        if (!d.fp && (n.w == 32 || n.w == 64) && n.w > 1) { view(t); d = dm[t]; }
        return;
      }
      eval(n.k[1]); eval(n.k[2]);
      int x = n.k[1], y = n.k[2];
      if (n.wide >= 0) {
        const APInt &l1 = wl[nd[x].wide], &l2 = wl[nd[y].wide], &h1 = wh[nd[x].wide], &h2 = wh[nd[y].wide];
        wl[n.wide] = l1.ult(l2) ? l1 : l2; wh[n.wide] = h1.ugt(h2) ? h1 : h2;
        return;
      }
      Dom &a = dm[x], &b = dm[y];
      d.lo = std::min(a.lo, b.lo); d.hi = std::max(a.hi, b.hi);
      if ((n.w == 32 || n.w == 64) && (nd[x].fpOp || nd[y].fpOp || nd[x].kind != KPlain || nd[y].kind != KPlain || a.fp || b.fp)) {
        view(x); view(y);
        d.fp = true; d.nan = a.nan || b.nan; d.must = a.must && b.must; d.mz = a.mz || b.mz;
        if (a.must) { d.fl = b.fl; d.fh = b.fh; } else if (b.must) { d.fl = a.fl; d.fh = a.fh; }
        else { d.fl = std::min(a.fl, b.fl); d.fh = std::max(a.fh, b.fh); }
      }
      return;
    }
    for (int j = 0; j < n.nk; j++) eval(n.k[j]);
    if (n.kind == KCopy || n.kind == KAbs || n.kind == KNeg) eval(n.src);
    bool wideKid = false, all1 = true;
    for (int j = 0; j < n.nk; j++) { if (nd[n.k[j]].wide >= 0) wideKid = true; if (!single(n.k[j])) all1 = false; }
    if (n.wide >= 0 || wideKid) { evalW(i, all1); return; }
    Dom &a = dm[n.k[0]];
    unsigned aw = nd[n.k[0]].w, bw = n.nk > 1 ? nd[n.k[1]].w : 0, w = n.w;
    if (all1) {
      uint64_t r = fold(n, a.lo, n.nk > 1 ? dm[n.k[1]].lo : 0, n.nk > 2 ? dm[n.k[2]].lo : 0, aw, bw);
      d.lo = d.hi = r;
      if (w == 32) { d.base = -1; }
      return;
    }
    if (n.kind != KPlain && (nd[n.src].fpOp || nd[n.src].kind != KPlain || (nd[n.src].op == Op::Ite && dm[n.src].fp))) { evalF(i); return; }
    if (n.fpOp) { evalF(i); return; }
    uint64_t m = mskw(w);
    auto full = [&] { d.lo = 0; d.hi = m; };
    if (n.nk == 1) {
      switch (n.op) {
      case Op::Not: full(); return;
      case Op::ZExt: d.lo = a.lo; d.hi = a.hi; if (w <= 32) form(i, n.k[0], 1, 0, 0); break;
      case Op::SExt: { Sg s = sgn(n.k[0]); setSg(d, s.l, s.h, w); break; }
      case Op::Extract: {
        uint64_t l = a.lo >> n.aux, h = a.hi >> n.aux;
        if (n.aux + w >= 64 || (l >> w) == (h >> w)) {
          d.lo = l & m; d.hi = h & m;
          double sc = std::ldexp(1.0, -(int)n.aux), off = (double)(l & ~m);
          if (aw <= 32) { if (n.aux) form(i, n.k[0], sc, -off - 0.5 * (1 - sc), 0.5 * (1 - sc)); else form(i, n.k[0], 1, -off, 0); }
        } else full();
        break;
      }
      case Op::FIsNaN: if (!a.fp) view(n.k[0]); if (a.must) d.lo = d.hi = 1; else if (!a.nan) d.lo = d.hi = 0; else full(); break;
      case Op::FToSI: case Op::FToUI: {
        if (!a.fp) view(n.k[0]);
        double lim = std::ldexp(1.0, n.op == Op::FToSI ? w - 1 : w), lowest = n.op == Op::FToSI ? -lim : 0;
        double l = std::trunc(a.fl), h = std::trunc(a.fh);
        if (a.nan || l < lowest || !(h < lim)) { full(); break; }
        if (n.op == Op::FToSI) setSg(d, (int64_t)l, (int64_t)h, w);
        else { d.lo = (uint64_t)l; d.hi = (uint64_t)h; }
        break;
      }
      default: full();
      }
      return;
    }
    int ka = n.k[0], kb = n.k[1];
    Dom &b = dm[kb];
    switch (n.op) {
    case Op::Add: {
      if (a.base >= 0 && a.base == b.base && a.al == -b.al && a.er == 0 && b.er == 0 && w == 32) {
        double s = a.be + b.be; if (s < 0) s += 4294967296.0; if (s >= 4294967296.0) s -= 4294967296.0; d.lo = d.hi = (uint64_t)s; break;
      }
      u128 l = (u128)a.lo + b.lo, h = (u128)a.hi + b.hi;
      if ((l >> w) == (h >> w)) {
        d.lo = (uint64_t)l & m; d.hi = (uint64_t)h & m;
        double wrap = (l >> w) ? std::ldexp(1.0, w) : 0;
        if (w <= 32) { if (b.lo == b.hi) form(i, ka, 1, (double)b.lo - wrap, 0); else if (a.lo == a.hi) form(i, kb, 1, (double)a.lo - wrap, 0); }
      } else full();
      break;
    }
    case Op::Sub: {
      if (a.base >= 0 && a.base == b.base && a.al == b.al && a.er == 0 && b.er == 0 && w == 32) {
        double s = a.be - b.be; if (s < 0) s += 4294967296.0; d.lo = d.hi = (uint64_t)s; break;
      }
      i128 l = (i128)a.lo - b.hi, h = (i128)a.hi - b.lo;
      if ((l < 0) == (h < 0)) {
        d.lo = (uint64_t)l & m; d.hi = (uint64_t)h & m;
        double wrap = l < 0 ? std::ldexp(1.0, w) : 0;
        if (w <= 32) { if (b.lo == b.hi) form(i, ka, 1, wrap - (double)b.lo, 0); else if (a.lo == a.hi) form(i, kb, -1, wrap + (double)a.lo, 0); }
      } else full();
      break;
    }
    case Op::Mul: {
      Dom *x = &a, *y = &b; int kx = ka;
      if (x->lo == x->hi) { std::swap(x, y); kx = kb; }
      if (y->lo == y->hi && y->lo > (m >> 1) && x->lo > 0) {   // negative constant
        u128 c = (u128)(m - y->lo) + 1, p = c * x->hi;
        if (p <= m) { d.lo = (0 - (uint64_t)p) & m; d.hi = (0 - (uint64_t)(c * x->lo)) & m; break; }
      }
      u128 l = (u128)x->lo * y->lo, h = (u128)x->hi * y->hi;
      if (y->lo == y->hi ? (l >> w) == (h >> w) : h <= m) {
        d.lo = (uint64_t)l & m; d.hi = (uint64_t)h & m;
        if (w <= 32 && y->lo == y->hi) form(i, kx, (double)y->lo, -std::ldexp((double)(uint64_t)(l >> w), w), 0);
      } else full();
      break;
    }
    case Op::UDiv:
      if (!b.lo) { full(); break; }
      d.lo = a.lo / b.hi; d.hi = a.hi / b.lo;
      if (w <= 32 && b.lo == b.hi) { double c = 1.0 / (double)b.lo; form(i, ka, c, -0.5 * (1 - c), 0.5 * (1 - c) + 1e-6); }
      break;
    case Op::URem:
      if (!b.lo) { full(); break; }
      if (a.hi < b.lo) { d.lo = a.lo; d.hi = a.hi; }
      else if (b.lo == b.hi && a.lo / b.lo == a.hi / b.lo) { d.lo = a.lo % b.lo; d.hi = a.hi % b.lo; if (w <= 32) form(i, ka, 1, -(double)(a.lo - d.lo), 0); }
      else { d.lo = 0; d.hi = std::min(a.hi, b.hi - 1); }
      break;
    case Op::SDiv: {
      Sg s = sgn(ka);
      if (b.lo == b.hi && sxw(b.lo, w) > 0) {
        int64_t c = sxw(b.lo, w); setSg(d, s.l / c, s.h / c, w);
        if (w <= 32 && s.l >= 0) { double q = 1.0 / (double)c; form(i, ka, q, -0.5 * (1 - q), 0.5 * (1 - q) + 1e-6); }
      }
      else full();
      break;
    }
    case Op::SRem: {
      Sg s = sgn(ka);
      if (b.lo == b.hi && sxw(b.lo, w) > 0 && s.l >= 0) { uint64_t c = b.lo; if (s.l / (int64_t)c == s.h / (int64_t)c) { d.lo = s.l % c; d.hi = s.h % c; } else { d.lo = 0; d.hi = std::min<uint64_t>(s.h, c - 1); } }
      else full();
      break;
    }
    case Op::And: case Op::Or: case Op::Xor: {
      int ks = ka; Dom *x = &a, *c = &b;
      if (x->lo == x->hi) { std::swap(x, c); ks = kb; }
      // bits that may vary in each operand
      auto vary = [](const Dom *q) { uint64_t t = q->lo ^ q->hi; return t ? (~0ull >> __builtin_clzll(t)) : 0ull; };
      uint64_t vx = vary(x), vc = vary(c);
      uint64_t ox = x->lo & ~vx, oc = c->lo & ~vc;   // known ones
      if (c->lo == c->hi) {
        uint64_t k = c->lo;
        if (n.op == Op::And) {
          if (low1(k)) {
            if ((x->lo & ~k) == (x->hi & ~k)) { d.lo = x->lo & k; d.hi = x->hi & k; if (w <= 32) form(i, ks, 1, -(double)(x->lo & ~k), 0); break; }
            d.lo = 0; d.hi = std::min(k, x->hi); break;
          }
          uint64_t lowz = k & (~k + 1);   // lowest set bit
          if ((k | (lowz - 1)) == m) { d.lo = x->lo & k; d.hi = x->hi & k; if (w <= 32) form(i, ks, 1, -(double)(lowz - 1) / 2, (double)(lowz - 1) / 2); break; }
          if ((k & vx) == vx) { d.lo = x->lo & k; d.hi = x->hi & k; if (w <= 32) form(i, ks, 1, -(double)(ox & ~k), 0); break; }
        } else {
          if ((k & vx) == 0) {
            if (n.op == Op::Or) { d.lo = x->lo | k; d.hi = x->hi | k; } else { d.lo = x->lo ^ k; d.hi = x->hi ^ k; }
            if (w <= 32) form(i, ks, 1, (double)d.lo - (double)x->lo, 0);
            break;
          }
          if (n.op == Op::Xor && k == m) { d.lo = m - x->hi; d.hi = m - x->lo; if (w <= 32) form(i, ks, -1, (double)m, 0); break; }
        }
      }
      uint64_t v = vx | vc;
      uint64_t mayx = ox | vx, mayc = oc | vc;
      if (n.op == Op::And) { d.lo = ox & oc; d.hi = std::min(mayx & mayc, std::min(x->hi, c->hi)); }
      else if (n.op == Op::Or) { d.lo = std::max(ox | oc, std::max(x->lo, c->lo)); d.hi = mayx | mayc; }
      else { d.lo = (ox ^ oc) & ~v; d.hi = d.lo | v; }
      if (d.lo > d.hi) full();
      break;
    }
    case Op::Shl:
      if (b.lo == b.hi && b.lo < w) {
        u128 l = (u128)a.lo << b.lo, h = (u128)a.hi << b.lo;
        if ((l >> w) == (h >> w)) { d.lo = (uint64_t)l & m; d.hi = (uint64_t)h & m; if (w <= 32) form(i, ka, std::ldexp(1.0, b.lo), -std::ldexp((double)(uint64_t)(l >> w), w), 0); }
        else full();
      } else if (b.hi < w && ((u128)a.hi << b.hi) <= m) { d.lo = a.lo << b.lo; d.hi = a.hi << b.hi; }
      else full();
      break;
    case Op::LShr:
      d.lo = b.hi >= w ? 0 : a.lo >> b.hi; d.hi = b.lo >= w ? 0 : a.hi >> b.lo;
      if (w <= 32 && b.lo == b.hi && b.lo < w) { double sc = std::ldexp(1.0, -(int)b.lo); form(i, ka, sc, -0.5 * (1 - sc), 0.5 * (1 - sc)); }
      break;
    case Op::AShr: {
      Sg s = sgn(ka);
      if (b.lo == b.hi) {
        int sh = b.lo >= w ? w - 1 : b.lo; setSg(d, s.l >> sh, s.h >> sh, w);
        if (w <= 32 && s.l >= 0) { double sc = std::ldexp(1.0, -sh); form(i, ka, sc, -0.5 * (1 - sc), 0.5 * (1 - sc)); }
      }
      else full();
      break;
    }
    case Op::Concat: {
      d.lo = (a.lo << bw) | b.lo; d.hi = (a.hi << bw) | b.hi;
      if (w <= 32 && a.lo == a.hi) form(i, kb, 1, (double)(a.lo << bw), 0);
      break;
    }
    case Op::Eq: case Op::Ult: case Op::Ule: {
      full();
      if (a.base >= 0 && a.base == b.base && a.al == b.al && a.er == 0 && b.er == 0) {
        d.lo = d.hi = n.op == Op::Eq ? a.be == b.be : n.op == Op::Ult ? a.be < b.be : a.be <= b.be;
        break;
      }
      if (ka == kb) { d.lo = d.hi = n.op != Op::Ult; break; }
      if (n.op == Op::Eq) {
        if (a.hi < b.lo || b.hi < a.lo) { d.hi = 0; break; }
        int t = nd[kb].op == Op::SExt ? noOverflow(ka, nd[kb].k[0]) : -1;
        if (t < 0 && nd[ka].op == Op::SExt) t = noOverflow(kb, nd[ka].k[0]);
        if (t >= 0) d.lo = d.hi = (uint64_t)t;
      }
      else if (n.op == Op::Ult) { if (a.hi < b.lo) d.lo = 1; else if (a.lo >= b.hi) d.hi = 0; }
      else { if (a.hi <= b.lo) d.lo = 1; else if (a.lo > b.hi) d.hi = 0; }
      break;
    }
    case Op::Slt: case Op::Sle: {
      full();
      Sg x = sgn(ka), y = sgn(kb);
      if (n.op == Op::Slt) { if (x.h < y.l) d.lo = 1; else if (x.l >= y.h) d.hi = 0; }
      else { if (x.h <= y.l) d.lo = 1; else if (x.l > y.h) d.hi = 0; }
      break;
    }
    case Op::FLt: case Op::FLe: case Op::FEq: {
      full();
      if (!a.fp) view(ka);
      if (!b.fp) view(kb);
      if (a.must || b.must) { d.hi = 0; break; }
      bool nan = a.nan || b.nan;
      double dl = -INF, dh = INF;   // enclosure of a - b
      if (a.aff && b.aff && !nan) {
        Iv r{a.v - b.v, a.v - b.v};
        for (int j = 0; j < affVars; j++) r = iadd(r, imul(isub(a.d[j], b.d[j]), Iv{xl[j], xh[j]}));
        double s = a.e + b.e + (std::fabs(a.v) + std::fabs(b.v)) * 2.3e-16;
        dl = dn(r.l - s); dh = up(r.h + s);
      }
      if (n.op == Op::FEq) { if (a.fh < b.fl || b.fh < a.fl || dl > 0 || dh < 0) d.hi = 0; else if (!nan && a.fl == a.fh && b.fl == b.fh && a.fl == b.fl) d.lo = 1; }
      else if (n.op == Op::FLt) { if (a.fl >= b.fh || dl > 0) d.hi = 0; else if (!nan && (a.fh < b.fl || dh < 0)) d.lo = 1; }
      else { if (a.fl > b.fh || dl > 0) d.hi = 0; else if (!nan && (a.fh <= b.fl || dh < 0)) d.lo = 1; }
      break;
    }
    default: full();
    }
  }
  void evalW(int i, bool all1) {
    const Node &n = nd[i];
    Dom &d = dm[i];
    auto put = [&](const APInt &l, const APInt &h) {
      if (n.wide >= 0) { wl[n.wide] = l; wh[n.wide] = h; } else { d.lo = l.getZExtValue(); d.hi = h.getZExtValue(); }
    };
    int ka = n.k[0], kb = n.nk > 1 ? n.k[1] : -1;
    APInt al = wlo(ka), ah = whi(ka);
    if (n.op >= Op::FAdd) { setFull(i); return; }
    if (all1) {
      APInt bl_(1, 0);
      if (kb >= 0) bl_ = wlo(kb);
      APInt r = foldW(n, &al, &bl_, nullptr);
      put(r, r);
      return;
    }
    setFull(i);
    switch (n.op) {
    case Op::ZExt: put(al.zext(n.w), ah.zext(n.w)); return;
    case Op::Extract: {
      APInt l = al.lshr(n.aux), h = ah.lshr(n.aux);
      if (l.lshr(n.w) == h.lshr(n.w)) put(l.trunc(n.w), h.trunc(n.w));
      return;
    }
    default: break;
    }
    if (kb < 0) return;
    APInt bl_ = wlo(kb), bh_ = whi(kb);
    bool o1, o2;
    switch (n.op) {
    case Op::Add: { APInt l = al.uadd_ov(bl_, o1), h = ah.uadd_ov(bh_, o2); if (o1 == o2) put(l, h); return; }
    case Op::Sub: { APInt l = al.usub_ov(bh_, o1), h = ah.usub_ov(bl_, o2); if (o1 == o2) put(l, h); return; }
    case Op::Mul: { APInt h = ah.umul_ov(bh_, o2); if (!o2) put(al * bl_, h); return; }
    case Op::Shl: if (bl_ == bh_ && bl_.ult(n.w)) { unsigned s = bl_.getZExtValue(); if (ah.getActiveBits() + s <= n.w) put(al.shl(s), ah.shl(s)); } return;
    case Op::LShr: if (bl_ == bh_ && bl_.ult(n.w)) { unsigned s = bl_.getZExtValue(); put(al.lshr(s), ah.lshr(s)); } return;
    case Op::Concat: put(al.zext(n.w).shl(nd[kb].w) | bl_.zext(n.w), ah.zext(n.w).shl(nd[kb].w) | bh_.zext(n.w)); return;
    case Op::UDiv: if (!bl_.isZero()) put(al.udiv(bh_), ah.udiv(bl_)); return;
    case Op::And: put(APInt(n.w, 0), ah.ult(bh_) ? ah : bh_); return;
    case Op::Eq: if (ah.ult(bl_) || bh_.ult(al)) d.hi = 0; return;
    case Op::Ult: if (ah.ult(bl_)) d.lo = 1; else if (al.uge(bh_)) d.hi = 0; return;
    case Op::Ule: if (ah.ule(bl_)) d.lo = 1; else if (al.ugt(bh_)) d.hi = 0; return;
    default: return;
    }
  }
  void enter() {
    cur++;
    affVars = 0;
    bool ok = vars.size() <= 2 && !vars.empty();
    for (size_t j = 0; ok && j < vars.size(); j++) {
      unsigned w = nd[vnode[j]].w;
      if (w != 32 && w != 64) { ok = false; break; }
      uint64_t sg = 1ull << (w - 1), inf = infPat(w);
      bool neg = bl[j] >= sg;
      if ((bh[j] >= sg) != neg || (bh[j] & (sg - 1)) >= inf) { ok = false; break; }
      uint64_t c = bl[j] + (bh[j] - bl[j]) / 2;
      double v = fromPat(c, w), x = fromPat(bl[j], w), y = fromPat(bh[j], w);
      xl[j] = dn(std::min(x, y) - v); xh[j] = up(std::max(x, y) - v);
      if (bad(v) || bad(xl[j]) || bad(xh[j])) { ok = false; break; }
    }
    if (ok) affVars = vars.size();
  }
};
}  // namespace

// A floating-point node through which the last constraint alone depends on the variables is replaced by one fresh variable;
// the constraints that see the variables only through it are refuted on their own, if they can be.
static bool seesVars(Ex e, Ex cut) {
  std::vector<Ex> st{e};
  std::set<Ex> seen;
  while (!st.empty()) {
    Ex x = st.back();
    st.pop_back();
    if (x == cut || x->vars->empty() || !seen.insert(x).second) continue;
    if (x->op == Op::Var) return true;
    for (int j = 0; j < x->nk; j++) st.push_back(x->k[j]);
  }
  return false;
}
bool cutRefutes(const std::vector<Ex> &cs, double budget) {
  double t0 = nowSec();
  std::set<Ex> tried;
  for (size_t q = cs.size(); q-- > 0;) {
    Ex last = cs[q];
    if (last->vars->size() < 2) continue;
    std::vector<Ex> st{last}, cand;
    std::set<Ex> seen;
    while (!st.empty()) {
      Ex x = st.back();
      st.pop_back();
      if (x->vars->size() != last->vars->size() || !seen.insert(x).second) continue;
      if (seen.size() > 4000) return false;
      if (x->w == 32 || x->w == 64)
        if (x->op >= Op::FAdd && x->op != Op::FLt && x->op != Op::FLe && x->op != Op::FEq && x->op != Op::FIsNaN && x->op != Op::FToSI && x->op != Op::FToUI) cand.push_back(x);
      for (int j = 0; j < x->nk; j++) st.push_back(x->k[j]);
    }
    std::sort(cand.begin(), cand.end(), [](Ex a, Ex b) { return a->id < b->id; });
    for (Ex t : cand) {
      if (seesVars(last, t)) continue;
      if (!tried.insert(t).second) break;   // the lowest such node is enough
      std::vector<Ex> sub;
      for (Ex e : cs) if (e->vars->size() == last->vars->size() && !seesVars(e, t)) sub.push_back(e);
      if (icpSolve(sub, budget, ~0ull, nullptr, t) == Res::Unsat) return true;
      if (tried.size() >= 3 || nowSec() - t0 > budget) return false;
      break;
    }
  }
  return false;
}

Res icpSolve(const std::vector<Ex> &cs, double budget, uint64_t maxBoxes, Model *out, Ex cut) {
  double t0 = nowSec();
  gIcp.calls++;
  Icp S;
  S.cut = cut;
  for (Ex e : cs) S.roots.push_back(S.add(e));
  size_t nv = S.vars.size();
  for (auto v : S.vnode) if (S.nd[v].w > 64) return Res::Unknown;
  if (nv == 0 || nv > 4) return Res::Unknown;
  S.st.assign(S.nd.size(), 0);
  S.bl.resize(nv); S.bh.resize(nv);
  struct Box { std::vector<uint64_t> l, h; };
  std::vector<Box> stk(1);
  for (size_t j = 0; j < nv; j++) { stk[0].l.push_back(0); stk[0].h.push_back(mskw(S.nd[S.vnode[j]].w)); }
  std::vector<int> ord = S.roots;
  uint64_t boxes = 0;
  auto point = [&](const std::vector<uint64_t> &p) {
    S.bl = p; S.bh = p;
    S.enter();
    for (int r : ord) { S.eval(r); if (!(S.dm[r].lo == 1 && S.dm[r].hi == 1)) return false; }
    if (cut) return true;
    Model m;
    for (size_t j = 0; j < nv; j++) m.val.insert_or_assign(S.vars[j], APInt(S.nd[S.vnode[j]].w, p[j]));
    for (Ex e : cs) if (!m.isTrue(e)) { fprintf(stderr, "symx: icp and evaluator disagree\n"); abort(); }
    for (auto &kv : m.val) out->val.insert_or_assign(kv.first, kv.second);
    return true;
  };
  Res res = Res::Unsat;
  // models are often plentiful in a region that the depth-first search reaches late: probe a coarse grid first
  {
    unsigned per = nv == 1 ? 512 : nv == 2 ? 24 : nv == 3 ? 8 : 4;
    std::vector<unsigned> ix(nv, 0);
    for (bool more = maxBoxes > 4096; more && nowSec() - t0 < budget / 4;) {
      std::vector<uint64_t> p(nv);
      for (size_t j = 0; j < nv; j++) {
        unsigned w = S.nd[S.vnode[j]].w;
        uint64_t m = mskw(w);
        p[j] = w < 16 ? (ix[j] * 2654435761u) & m : ((m / per) * ix[j] + (m / per) / 3 + (ix[j] * 40503u & 0xfff)) & m;
      }
      if (point(p)) { gIcp.boxes += boxes; gIcp.time += nowSec() - t0; gIcp.sat++; return Res::Sat; }
      size_t j = 0;
      for (; j < nv && ++ix[j] == per; j++) ix[j] = 0;
      more = j < nv;
    }
  }
  while (!stk.empty()) {
    if (++boxes > maxBoxes || ((boxes & 63) == 0 && nowSec() - t0 > budget)) { res = Res::Unknown; break; }
    Box b = std::move(stk.back());
    stk.pop_back();
    S.bl = b.l; S.bh = b.h;
    S.enter();
    bool pruned = false, allTrue = true, leaf = true;
    for (size_t j = 0; j < nv; j++) if (b.l[j] != b.h[j]) leaf = false;
    for (size_t q = 0; q < ord.size(); q++) {
      int r = ord[q];
      S.eval(r);
      if (S.dm[r].hi == 0) {
        pruned = true;
        if (q) { ord.erase(ord.begin() + q); ord.insert(ord.begin(), r); }
        break;
      }
      if (S.dm[r].lo == 0) allTrue = false;
    }
    if (pruned) continue;
    std::vector<uint64_t> mid(nv);
    for (size_t j = 0; j < nv; j++) mid[j] = b.l[j] + (b.h[j] - b.l[j]) / 2;
    if (allTrue || leaf) {
      if (point(mid)) { res = Res::Sat; break; }
      if (leaf) {
        if (getenv("SYMX_ICP")) for (int r : ord) if (!S.single(r)) fprintf(stderr, "icp: undecided leaf\n");
        // every node is a singleton at a leaf, so one constraint was false
        bool anyFalse = false;
        for (int r : ord) if (S.st[r] == S.cur && S.dm[r].hi == 0) anyFalse = true;
        if (!anyFalse) { res = Res::Unknown; break; }
        continue;
      }
    } else if (boxes < 64 || (boxes & 15) == 0) {
      if (point(mid)) { res = Res::Sat; break; }
    }
    // split the widest variable
    size_t bj = 0;
    int best = -1;
    for (size_t j = 0; j < nv; j++) {
      uint64_t d = b.h[j] - b.l[j];
      int lg = d ? 64 - __builtin_clzll(d) : -1;
      if (lg > best) { best = lg; bj = j; }
    }
    uint64_t l = b.l[bj], h = b.h[bj], at = 0;
    unsigned w = S.nd[S.vnode[bj]].w;
    uint64_t sg = w >= 1 ? 1ull << (w - 1) : 0;
    bool special = false;
    if (w == 32 || w == 64) {
      uint64_t inf = infPat(w), mn = w == 32 ? 0x800000ull : 0x10000000000000ull;
      uint64_t sp[] = {sg, inf, inf + 1, sg + inf, sg + inf + 1, mn, sg + mn, 1, sg + 1};
      for (uint64_t s : sp) if (l < s && s <= h) { at = s; special = true; break; }
    }
    if (!special) {
      // the roundest value in the middle half
      uint64_t q = (h - l) / 4, x = l + q + 1, y = h - q;
      if (x > y) x = y = l + (h - l) / 2 + 1;
      uint64_t t = (x - 1) ^ y;
      int k = 63 - __builtin_clzll(t);
      at = y & ~((1ull << k) - 1);
    }
    Box b2 = b;
    b.h[bj] = at - 1; b2.l[bj] = at;
    stk.push_back(std::move(b2)); stk.push_back(std::move(b));
  }
  gIcp.boxes += boxes;
  gIcp.time += nowSec() - t0;
  if (res == Res::Unsat) gIcp.unsat++;
  if (res == Res::Sat) gIcp.sat++;
  return res;
}
