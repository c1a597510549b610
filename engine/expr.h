// Hash-consed bit-vector / floating-point expressions.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;
using llvm::APFloat;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Not,                       // width 1 only
  Eq, Ult, Ule, Slt, Sle,    // width 1
  Ite, Concat, Extract, ZExt, SExt,
  // floating point (operands and results are IEEE bit patterns of width 32/64)
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FRound /*aux: 0 rne 1 rna 2 up 3 down 4 zero*/,
  FLt, FLe, FEq, FIsNaN,
  FToSI, FToUI, SIToF, UIToF, FToF,
  Ref   // aux: function; a mathematical reference function on binary64 (libm)
};

struct Expr;
typedef const Expr *Ex;
typedef const std::vector<uint32_t> *VarSet;

struct Expr {
  Op op;
  uint16_t w;
  uint8_t nk;
  bool hasFP;
  uint32_t id;
  uint32_t aux;  // Extract: low bit; Var: var index; FRound: mode
  Ex k[3];
  APInt cv;      // Const only
  VarSet vars;
  uint64_t h;
  Expr() : cv(1, 0) {}
  bool isC() const { return op == Op::Const; }
};

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;

// a value: concrete (e == null, width <= 64) or an expression
struct V {
  Ex e = nullptr;
  uint64_t c = 0;
  uint16_t w = 0;
  V() {}
  V(uint64_t c_, unsigned w_) : c(w_ >= 64 ? c_ : (c_ & ((1ull << w_) - 1))), w(w_) {}
  explicit V(Ex x) {
    w = x->w;
    if (x->isC() && x->w <= 64) c = x->cv.getZExtValue();
    else e = x;
  }
  bool conc() const { return !e; }
  bool isConstant() const { return !e || e->isC(); }
};

Ex mkConst(const APInt &v);
Ex mkConst(uint64_t v, unsigned w);
Ex mkVar(const std::string &name, unsigned w);  // one var per (name,w)
Ex mkBin(Op op, Ex a, Ex b);
Ex mkNot(Ex a);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkF(Op op, Ex a, Ex b = nullptr, Ex c = nullptr, unsigned w = 0, unsigned aux = 0);

inline Ex ex(const V &v) { return v.e ? v.e : mkConst(v.c, v.w); }
V vBin(Op op, const V &a, const V &b);
V vNot(const V &a);
V vIte(const V &c, const V &a, const V &b);
V vExtract(const V &a, unsigned lo, unsigned w);
V vConcat(const V &hi, const V &lo);
V vZExt(const V &a, unsigned w);
V vSExt(const V &a, unsigned w);
V vF(Op op, const V &a, const V *b = nullptr, const V *c = nullptr, unsigned w = 0, unsigned aux = 0);
APInt foldF(Op op, const APInt *a, const APInt *b, const APInt *c, unsigned w, unsigned aux);

unsigned knownTrailingZeros(Ex e);

// a total assignment: variables absent from the map are 0
struct Model {
  std::unordered_map<uint32_t, APInt> val;
  mutable std::unordered_map<Ex, APInt> memo;
  const APInt &eval(Ex e) const;
  bool isTrue(Ex e) const { return !eval(e).isZero(); }
  Model() {}
  Model(const Model &o) : val(o.val) {}
  Model &operator=(const Model &o) { val = o.val; memo.clear(); return *this; }
};
uint64_t exprCount();
