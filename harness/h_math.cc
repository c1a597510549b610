// special values, symmetry and range of the elementary functions, over every bit pattern
#include "verif.h"
#include "nanomath.h"
static const unsigned SGN = 0x80000000u, INF = 0x7f800000u;
static float any() { return f32_of(verif_u32()); }
ENTRY(sqrt_special) {
  unsigned u = verif_u32();
  unsigned r = bits_of(nanostl::sqrt(f32_of(u)));
  if (nan32(u)) verif_assert(nan32(r), "NaN stays NaN");
  else if ((u & ~SGN) == 0) verif_assert(r == u, "zeros keep their sign");
  else if (u & SGN) verif_assert(nan32(r), "negative arguments have no root");
  else if (u == INF) verif_assert(r == INF, "infinity");
  else verif_assert(r < INF, "finite and not negative");
  if (u == 0x3f800000u) verif_assert(r == u, "one");
  verif_reach("end");
}
ENTRY(cbrt_special) {
  unsigned u = verif_u32();
  unsigned r = bits_of(nanostl::cbrt(f32_of(u)));
  if (nan32(u)) verif_assert(nan32(r), "NaN stays NaN");
  else if ((u & ~SGN) == 0) verif_assert(r == u, "zeros keep their sign");
  else if ((u & ~SGN) == INF) verif_assert(r == u, "infinities stay");
  else verif_assert((r & SGN) == (u & SGN), "the sign of the argument");
  verif_reach("end");
}
ENTRY(pow_special) {
  unsigned u = verif_u32(), z = verif_choose(0, 1) ? SGN : 0;
  float x = f32_of(u);
  verif_assert(nanostl::pow(x, f32_of(z)) == 1.0f, "x^0 is 1");
  if (!nan32(u)) verif_assert(bits_of(nanostl::pow(x, 1.0f)) == u || (u == SGN && bits_of(nanostl::pow(x, 1.0f)) == 0), "x^1 is x");
  if (u < INF + 1 && u > 0) verif_assert(nanostl::pow(f32_of(z), x) == 0.0f, "0^y is 0 for positive y");
  verif_reach("end");
}
ENTRY(pow_square) {
  unsigned u = verif_u32();
  verif_assume(!nan32(u) && (u & ~SGN) != 0);
  float x = f32_of(u), q = x * x, r = nanostl::pow(x, 2.0f);
  if (q == f32_of(INF)) verif_assert(bits_of(r) == INF - 1, "clamped to the largest number");
  else verif_assert(bits_of(r) == bits_of(q), "the square");
  verif_reach("end");
}
// param: k: y in [2^k, 2^(k+1)), sign of y, kind: 0 even, 1 odd, 2 not whole
ENTRY(pow_negative) {
  unsigned u = verif_u32() & ~SGN;
  verif_assume(u > 0 && u <= INF);
  int k = (int)verif_param(0), kind = (int)verif_param(2);
  unsigned e = (unsigned)(k + 127) << 23, yb;
  if (k < 0 || (kind == 0 && k >= 24)) yb = e | (verif_u32() & 0x7fffffu);
  else if (kind == 2) {   // a fraction bit is set
    unsigned fr = 23 - (unsigned)k, lo = verif_u32() & ((1u << fr) - 1);
    verif_assume(lo != 0);
    yb = e | ((verif_u32() << fr) & 0x7fffffu) | lo;
  } else {                // whole: the units bit is the kind, everything below it is zero
    unsigned fr = 23 - (unsigned)k;
    yb = k == 0 ? e : e | ((verif_u32() << (fr + 1)) & 0x7fffffu) | (unsigned)kind << fr;
  }
  float x = f32_of(u), y = f32_of(yb | (unsigned)verif_param(1) << 31);
  verif_assume(bits_of(y) != 0x3f800000u && bits_of(y) != 0x40000000u);
  unsigned r = bits_of(nanostl::pow(-x, y));
  if (kind == 2) verif_assert(r == 0, "no real power: 0");
  else {
    unsigned p = bits_of(nanostl::pow(x, y));
    if (nan32(p)) verif_assert(nan32(r), "NaN either way");
    else if (kind == 1) verif_assert(r == (p ^ SGN), "odd power: the negated power of the magnitude");
    else verif_assert(r == p, "even power: the power of the magnitude");
  }
  verif_reach("end");
}
ENTRY(pow_positive) {
  unsigned u = verif_u32(), v = verif_u32();
  verif_assume(u > 0 && u < INF && (v & ~SGN) <= INF && v != 0x40000000u);
  float r = nanostl::pow(f32_of(u), f32_of(v));
  verif_assert(r > 0.0f, "a power of a positive number is positive");
  verif_assert(bits_of(r) < INF, "and finite");
  verif_reach("end");
}
static float fn(int f, float x) {
  switch (f) {
  case 0: return nanostl::sinh(x); case 1: return nanostl::tanh(x); case 2: return nanostl::erf(x);
  case 3: return nanostl::cbrt(x); case 4: return nanostl::ierf(x); case 5: return nanostl::cosh(x);
  case 6: return nanostl::sin(x); case 7: return nanostl::cos(x); case 8: return nanostl::tan(x);
  case 9: return nanostl::exp(x); case 10: return nanostl::log(x); case 11: return nanostl::log10(x);
  case 12: return nanostl::erfc(x); default: return nanostl::sqrt(x);
  }
}
ENTRY(odd) {   // param: 0..4
  unsigned u = verif_u32() & ~SGN;
  verif_assume(u <= INF);
  int f = (int)verif_param(0);
  verif_assert(bits_of(fn(f, f32_of(u | SGN))) == (bits_of(fn(f, f32_of(u))) ^ SGN), "f(-x) is -f(x), bit for bit");
  verif_reach("end");
}
ENTRY(even) {
  unsigned u = verif_u32() & ~SGN;
  verif_assume(u <= INF);
  verif_assert(bits_of(nanostl::cosh(f32_of(u | SGN))) == bits_of(nanostl::cosh(f32_of(u))), "cosh(-x) is cosh(x)");
  verif_reach("end");
}
ENTRY(range) {   // param: function, sign of the argument
  int f = (int)verif_param(0);
  unsigned u = verif_u32() & ~SGN;
  verif_assume(u <= INF);
  if (f == 6 || f == 7) verif_assume(u < INF);
  float r = fn(f, f32_of(u | (unsigned)verif_param(1) << 31));
  if (f == 1 || f == 2 || f == 6 || f == 7) verif_assert(r >= -1.0f && r <= 1.0f, "within [-1, 1]");
  if (f == 9) verif_assert(r > 0.0f && bits_of(r) < INF, "positive and finite");
  if (f == 5) verif_assert(r >= 1.0f, "at least 1");
  if (f == 12) verif_assert(r >= 0.0f && r <= 2.0f, "within [0, 2]");
  verif_reach("end");
}
ENTRY(complement) {
  unsigned u = verif_u32();
  verif_assume(!nan32(u));
  float x = f32_of(u);
  verif_assert(bits_of(nanostl::erfc(x)) == bits_of(1.0f - nanostl::erf(x)), "erfc(x) is 1 - erf(x)");
  verif_reach("end");
}
ENTRY(nan_in) {   // NaN gives NaN
  static const int F[7] = {0, 2, 3, 6, 7, 8, 12};
  unsigned u = verif_u32();
  verif_assume(nan32(u));
  verif_assert(nan32(bits_of(fn(F[verif_choose(0, 6)], f32_of(u)))), "NaN stays NaN");
  verif_reach("end");
}
ENTRY(constants) {
  float z = f32_of(verif_choose(0, 1) ? SGN : 0);
  verif_assert(nanostl::exp(z) == 1.0f && nanostl::cos(z) == 1.0f && nanostl::cosh(z) == 1.0f && nanostl::erfc(z) == 1.0f, "1 at zero");
  verif_assert(nanostl::sin(z) == 0.0f && nanostl::tan(z) == 0.0f && nanostl::sinh(z) == 0.0f && nanostl::tanh(z) == 0.0f && nanostl::erf(z) == 0.0f && nanostl::ierf(z) == 0.0f, "0 at zero");
  float i = f32_of(INF);
  verif_assert(nanostl::tanh(i) == 1.0f && nanostl::tanh(-i) == -1.0f && nanostl::erf(i) == 1.0f && nanostl::erf(-i) == -1.0f, "limits at infinity");
  verif_reach("end");
}
ENTRY(logs) {
  unsigned u = verif_u32();
  int f = verif_choose(10, 11);
  unsigned r = bits_of(fn(f, f32_of(u)));
  if ((u & ~SGN) == 0) verif_assert(r == (INF | SGN), "-infinity at zero");
  else if (nan32(u)) verif_assert(true, "no promise");
  else if (u & SGN) verif_assert(nan32(r), "NaN below zero");
  else if (u == 0x3f800000u) verif_assert(r == 0, "0 at one");
  else verif_assert(!nan32(r), "a number above zero");
  verif_reach("end");
}
ENTRY(any_argument) {   // no argument executes undefined behaviour; param: function
  fn((int)verif_param(0), any());
  verif_reach("end");
}
ENTRY(any_pair) {
  float x = any(), y = any();
  nanostl::pow(x, y);
  verif_reach("end");
}
