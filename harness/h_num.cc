#include "verif.h"
#include "nanolimits.h"
#include "nanomath.h"
using nanostl::numeric_limits;
template <class F> struct Bits;
template <> struct Bits<float> {
  typedef unsigned U; static U any() { return verif_u32(); } static float mk(U u) { return f32_of(u); }
  static const int P = 24; static U inf() { return 0x7f800000u; } static U sign() { return 0x80000000u; } static U minn() { return 0x00800000u; }
};
template <> struct Bits<double> {
  typedef unsigned long long U; static U any() { return verif_u64(); } static double mk(U u) { return f64_of(u); }
  static const int P = 53; static U inf() { return 0x7ff0000000000000ull; } static U sign() { return 0x8000000000000000ull; } static U minn() { return 0x0010000000000000ull; }
};
// ---- C11: classification, fabs, fmin, fmax, copysign
template <class F> static void classes() {
  typedef Bits<F> B; typedef typename B::U U;
  U u = B::any();
  F x = B::mk(u);
  U m = u & ~B::sign();
  bool nan = m > B::inf(), inf = m == B::inf(), zero = m == 0, sub = m != 0 && m < B::minn(), nor = m >= B::minn() && m < B::inf();
  verif_assert(nanostl::isnan(x) == nan, "isnan");
  verif_assert(nanostl::isinf(x) == inf, "isinf");
  verif_assert(nanostl::isfinite(x) == (m < B::inf()), "isfinite");
  verif_assert(nanostl::isnormal(x) == nor, "isnormal");
  verif_assert(int(nan) + int(inf) + int(zero) + int(sub) + int(nor) == 1, "exactly one class");
  F a = nanostl::fabs(x);
  if (nan) verif_assert((bits_of(a) & ~B::sign()) > B::inf(), "fabs(NaN) is NaN");
  else verif_assert(bits_of(a) == m, "fabs clears the sign");
  verif_observe(nan); verif_observe(inf);
  verif_reach("end");
}
ENTRY(classes32) { classes<float>(); }
ENTRY(classes64) { classes<double>(); }
ENTRY(copysign32) {
  unsigned a = verif_u32(), b = verif_u32();
  verif_assert(bits_of(nanostl::copysign(f32_of(a), f32_of(b))) == ((a & 0x7fffffffu) | (b & 0x80000000u)), "copysign combines magnitude and sign");
  verif_reach("end");
}
template <class F> static void minmax() {
  typedef Bits<F> B; typedef typename B::U U;
  U a = B::any(), b = B::any();
  F x = B::mk(a), y = B::mk(b), lo = nanostl::fmin(x, y), hi = nanostl::fmax(x, y);
  U l = bits_of(lo), h = bits_of(hi);
  bool na = (a & ~B::sign()) > B::inf(), nb = (b & ~B::sign()) > B::inf();
  if (na && nb) verif_assert((l & ~B::sign()) > B::inf() && (h & ~B::sign()) > B::inf(), "NaN when both are NaN");
  else if (na) verif_assert(l == b && h == b, "the number when the first is NaN");
  else if (nb) verif_assert(l == a && h == a, "the number when the second is NaN");
  else {
    verif_assert((l == a || l == b) && lo <= x && lo <= y, "fmin is the smaller argument");
    verif_assert((h == a || h == b) && hi >= x && hi >= y, "fmax is the larger argument");
  }
  verif_reach("end");
}
ENTRY(minmax32) { minmax<float>(); }
ENTRY(minmax64) { minmax<double>(); }
// ---- C12
template <class F> static void ceilfloor() {
  typedef Bits<F> B; typedef typename B::U U;
  U u = B::any();
  F x = B::mk(u), f = nanostl::floor(x), c = nanostl::ceil(x);
  U m = u & ~B::sign();
  const int bias = B::P == 24 ? 127 : 1023;
  int e = (int)(m >> (B::P - 1)) - bias;            // exponent of a normal number
  if (m > B::inf()) verif_assert((bits_of(f) & ~B::sign()) > B::inf() && (bits_of(c) & ~B::sign()) > B::inf(), "NaN stays NaN");
  else if (e >= B::P - 1) verif_assert(bits_of(f) == u && bits_of(c) == u, "large values and infinities are already integral");
  else {
    // truncation towards zero on the bit pattern
    U t = e < 0 ? (u & B::sign()) : (u & ~((((U)1) << (B::P - 1 - e)) - 1));
    F tr = B::mk(t);
    bool integral = (t == u) || m == 0, neg = (u & B::sign()) != 0;
    if (integral) verif_assert(bits_of(f) == u && bits_of(c) == u, "integral values map to themselves");
    else {
      verif_assert(neg ? f == tr - (F)1 : f == tr, "floor is the greatest integral value not above x");
      verif_assert(neg ? c == tr : c == tr + (F)1, "ceil is the least integral value not below x");
      verif_assert(f < x && x < c && c - f == (F)1, "floor and ceil enclose x");
    }
  }
  verif_reach("end");
}
ENTRY(ceilfloor32) { ceilfloor<float>(); }
ENTRY(ceilfloor64) { ceilfloor<double>(); }
// ---- C13
template <class I> static void ints(I v, I lo, I hi, int digits10) {
  typedef numeric_limits<I> L;
  verif_assert(L::min() <= v && v <= L::max(), "every value lies in [min(), max()]");
  verif_assert(L::min() == lo && L::max() == hi, "the bounds are attained");
  verif_assert(L::epsilon() == (I)0, "epsilon() is zero for integers");
  // digits10: every decimal text of that many digits fits, and one more digit does not
  unsigned long long p = 1, mx = (unsigned long long)L::max();
  for (int i = 0; i < L::digits10; i++) p *= 10;
  verif_assert(p - 1 <= mx, "every number of digits10 digits fits");
  verif_assert(mx / 10 < p - 1 + (mx % 10 == 9 ? 0 : 1) || p > mx / 10, "one digit more does not always fit");
  verif_assert(L::digits10 == digits10, "digits10");
}
ENTRY(intlimits) {
  ints<char>((char)verif_u8(), (char)0x80, (char)0x7f, 2);
  ints<unsigned char>(verif_u8(), 0, 0xff, 2);
  ints<short>((short)verif_u16(), (short)0x8000, 0x7fff, 4);
  ints<unsigned short>(verif_u16(), 0, 0xffff, 4);
  ints<int>((int)verif_u32(), (int)0x80000000u, 0x7fffffff, 9);
  ints<unsigned>(verif_u32(), 0, 0xffffffffu, 9);
  ints<long long>((long long)verif_u64(), (long long)0x8000000000000000ull, 0x7fffffffffffffffll, 18);
  ints<unsigned long long>(verif_u64(), 0, ~0ull, 19);
  bool b = (verif_u8() & 1) != 0;
  verif_assert(numeric_limits<bool>::min() <= b && b <= numeric_limits<bool>::max() && !numeric_limits<bool>::min() && numeric_limits<bool>::max() && !numeric_limits<bool>::epsilon() && numeric_limits<bool>::digits10 == 0, "bool limits");
  verif_reach("end");
}
template <class F> static void floats(int d10) {
  typedef Bits<F> B; typedef typename B::U U; typedef numeric_limits<F> L;
  U u = B::any(), m = u & ~B::sign();
  F x = B::mk(u);
  if (m < B::inf()) {                       // finite
    verif_assert(x <= L::max() && x >= -L::max(), "no finite value exceeds max()");
    verif_assert(L::infinity() > x && -L::infinity() < x, "infinity exceeds every finite value");
    if (x > (F)0) verif_assert(x >= L::denorm_min(), "denorm_min() is the smallest positive value");
    if (x > (F)0 && m >= B::minn()) verif_assert(x >= L::min(), "min() is the smallest positive normal value");
    if (x > (F)1) verif_assert(x >= (F)1 + L::epsilon() && x - (F)1 >= L::epsilon(), "no value lies between 1 and 1+epsilon()");
  }
  verif_assert(bits_of(L::max()) == B::inf() - 1, "max() is the largest finite value");
  verif_assert(bits_of(L::min()) == B::minn(), "min() is the smallest normal value");
  verif_assert(bits_of(L::denorm_min()) == 1, "denorm_min()");
  verif_assert((F)1 + L::epsilon() > (F)1 && ((F)1 + L::epsilon()) - (F)1 == L::epsilon() && bits_of((F)1 + L::epsilon()) == bits_of((F)1) + 1, "epsilon() is the gap after 1");
  verif_assert(bits_of(L::infinity()) == B::inf(), "infinity()");
  U q = bits_of(L::quiet_NaN()), s = bits_of(L::signaling_NaN()), quiet = ((U)1) << (B::P - 2);
  verif_assert((q & ~B::sign()) > B::inf() && (q & quiet), "quiet_NaN() is a quiet NaN");
  verif_assert((s & ~B::sign()) > B::inf() && !(s & quiet), "signaling_NaN() is a signalling NaN");
  verif_assert(!(L::quiet_NaN() == x) && !(L::quiet_NaN() < x) && !(L::quiet_NaN() > x), "NaN compares false with every value");
  verif_assert(L::digits10 == d10, "digits10");
  verif_reach("end");
}
ENTRY(floatlimits32) { floats<float>(6); }
ENTRY(floatlimits64) { floats<double>(15); }
