// to_string/stof/stod of float and double against exact integer arithmetic
#define NANOSTL_STRING_IMPLEMENTATION
#include "verif.h"
#ifdef OTHER_COMPILER   // the branches that compilers other than clang take
#include <cstring>
#include <cassert>
#include <iostream>
#undef __clang__
#endif
#include "nanostring.h"
#include "ryu_hard.h"
typedef nanostl::string S;
// Reads the text of a finite non-zero number: sign digit [. digits] E [-] digits, nothing else.
// D = its digits as an integer, n = how many, X = the written exponent.
struct Text { bool neg; unsigned long long D; int n, X, last; };
static Text parse(const char *p, int len, int maxn) {
  Text t; t.neg = false; t.D = 0; t.n = 0; t.X = 0; t.last = 0;
  int i = 0;
  if (p[0] == '-') { t.neg = true; i = 1; }
  verif_assert(p[i] >= '1' && p[i] <= '9', "the first digit is 1..9");
  t.D = t.last = p[i] - '0'; t.n = 1; i++;
  if (p[i] == '.') {
    i++;
    while (p[i] != 'E') {
      verif_assert(p[i] >= '0' && p[i] <= '9', "a digit after the point");
      t.last = p[i] - '0'; t.D = t.D * 10 + t.last; t.n++; i++;
      verif_assert(t.n <= maxn, "no more digits than ever needed");
    }
    verif_assert(t.n > 1, "at least one digit after the point");
  }
  verif_assert(p[i] == 'E', "the exponent letter"); i++;
  bool xneg = false;
  if (p[i] == '-') { xneg = true; i++; }
  int x0 = i;
  verif_assert(p[i] >= '0' && p[i] <= '9', "an exponent digit");
  while (i < len) {
    verif_assert(p[i] >= '0' && p[i] <= '9' && i - x0 < 3, "exponent digits");
    t.X = t.X * 10 + (p[i] - '0'); i++;
  }
  verif_assert((p[x0] != '0' || (i == x0 + 1 && !xneg)), "exponent without superfluous zero or sign");
  verif_assert(p[len] == 0, "NUL terminator");
  if (xneg) t.X = -t.X;
  return t;
}
// exact comparison of a * 10^E with b * 2^q
template <class W> struct Exact {
  W p5a, p5b; int sa, sb;
  Exact(int E, int q) : p5a(1), p5b(1), sa(0), sb(0) {
    for (int i = 0; i < E; i++) p5a *= 5;
    for (int i = 0; i < -E; i++) p5b *= 5;
    if (E - q >= 0) sa = E - q; else sb = q - E;
  }
  W dec(unsigned long long a) const { return (p5a * (W)a) << sa; }
  W bin(unsigned long long b) const { return (p5b * (W)b) << sb; }
};
// t must be the shortest text whose value lies in the rounding interval of m2 * 2^(q+2), and the closest of those
template <class W> static void judge(const Text &t, unsigned long long m2, bool lowgap, int q) {
  unsigned long long v = 4 * m2, hi = v + 2, lo = v - (lowgap ? 1 : 2);
  bool inc = (m2 & 1) == 0;
  int n = (int)verif_concretize(t.n), E = (int)verif_concretize((unsigned)(t.X + 1000)) - 1000 - (n - 1);
  Exact<W> x(E, q);
  W L = x.bin(lo), U = x.bin(hi), V2 = x.bin(2 * v), d = x.dec(t.D);
  verif_assert(inc ? (L <= d && d <= U) : (L < d && d < U), "the text rounds back to the very same number");
  if (n > 1) {
    W a = x.dec(t.D - t.last), b = x.dec(t.D - t.last + 10);
    verif_assert(inc ? a < L : a <= L, "no shorter text below");
    verif_assert(inc ? b > U : b >= U, "no shorter text above");
  }
  W dm = x.dec(t.D - 1), dp = x.dec(t.D + 1);
  verif_assert(V2 >= d + dm || (inc ? dm < L : dm <= L), "no closer text of the same length below");
  verif_assert(V2 <= d + dp || (inc ? dp > U : dp >= U), "no closer text of the same length above");
}
typedef unsigned _BitInt(320) W32;
typedef unsigned _BitInt(1280) W64;

// d of 1, 2, 3 or 5 times a power of ten that lies in [2^e, 2^(e+1)), as a mantissa scaled by 2^bits (rounded down)
template <class W> static unsigned long long roundMantissa(int e, int bits) {
  int top = (int)(8 * sizeof(W)) - 6;
  static const unsigned D[4] = {1, 2, 3, 5};
  for (int j = -330; j <= 310; j++) {
    double l = e * 0.30102999566398119521, g = j;       // a rough filter first
    if (g > l + 1.1 || g < l - 1.1) continue;
    for (int i = 0; i < 4; i++) {
      W n = D[i], d = 1;
      for (int k = 0; k < j; k++) n *= 5;
      for (int k = 0; k < -j; k++) d *= 5;
      int s = j - e;                                    // value / 2^e = n / d * 2^s
      if (s >= 0) n <<= s; else d <<= -s;
      if (n >= d && n < (d << 1)) return (unsigned long long)((n << bits) / d) - (1ull << bits);
    }
  }
  (void)top;
  return 0;
}
static void f_one(int ex, unsigned man, bool sign) {
  float f = f32_of((unsigned)sign << 31 | (unsigned)ex << 23 | man);
  S s = nanostl::to_string(f);
  int len = (int)verif_concretize(s.size());
  verif_assert(len <= 15, "length");
  Text t = parse(s.c_str(), len, 9);
  verif_assert(t.neg == sign, "sign");
  judge<W32>(t, ex ? man | 0x800000u : man, man == 0 && ex > 1, (ex ? ex : 1) - 127 - 23 - 2);
}
static void d_one(int ex, unsigned long long man, bool sign) {
  double f = f64_of((unsigned long long)sign << 63 | (unsigned long long)ex << 52 | man);
  S s = nanostl::to_string(f);
  int len = (int)verif_concretize(s.size());
  verif_assert(len <= 24, "length");
  Text t = parse(s.c_str(), len, 17);
  verif_assert(t.neg == sign, "sign");
  judge<W64>(t, ex ? man | 0x10000000000000ull : man, man == 0 && ex > 1, (ex ? ex : 1) - 1023 - 52 - 2);
}
// first mantissa and distance of the window chosen by mode, for `bits` mantissa bits and 2^lc mantissas
// mode 0: the lowest mantissas; 1: the highest; 2: spread over all; 3: around a round decimal; 4: multiples of 5^k
template <class W> static void window(int mode, int e, int bits, int lc, unsigned long long &base, unsigned long long &dist) {
  base = 0; dist = 1;
  if (mode == 1) base = (1ull << bits) - (1ull << lc);
  if (mode == 2) { dist = 1ull << (bits - lc); base = (0x9e3779b97f4a7c15ull * (unsigned)(e + 5000)) >> 12 & (dist - 1); }
  if (mode == 3) { base = roundMantissa<W>(e, bits) - (1ull << (lc - 1)); }
  if (mode == 4) { unsigned long long lim = (1ull << bits) >> lc; while (dist * 5 <= lim) dist *= 5; base = dist - (1ull << bits) % dist; }
}
// param: first exponent field, how many, distance between them, mode (-1: rotates with the exponent), log2 of the mantissas per window, sign
ENTRY(f_sweep) {
  int i = (int)verif_choose(0, (int)verif_param(1) - 1);
  int ex = (int)verif_param(0) + i * (int)verif_param(2), mode = (int)verif_param(3), lc = (int)verif_param(4);
  if (mode < 0) mode = ex % 5;
  unsigned long long base, dist;
  window<W32>(mode, ex - 127, 23, lc, base, dist);
  unsigned k = verif_u32();
  verif_assume(k < (1u << lc));
  unsigned man = ((unsigned)base + k * (unsigned)dist) & 0x7fffffu;
  if (ex == 0) verif_assume(man != 0);
  f_one(ex, man, verif_param(5) != 0);
  verif_reach("end");
}
ENTRY(d_sweep) {
  int i = (int)verif_choose(0, (int)verif_param(1) - 1);
  int ex = (int)verif_param(0) + i * (int)verif_param(2), mode = (int)verif_param(3), lc = (int)verif_param(4);
  if (mode < 0) mode = ex % 5;
  unsigned long long base, dist;
  window<W64>(mode, ex - 1023, 52, lc, base, dist);
  unsigned long long k = verif_u64();
  verif_assume(k < (1ull << lc));
  unsigned long long man = (base + k * dist) & 0xfffffffffffffull;
  if (ex == 0) verif_assume(man != 0);
  d_one(ex, man, verif_param(5) != 0);
  verif_reach("end");
}
// param: exponent field, first mantissa, log2 of the number of mantissas, log2 of their distance, sign
ENTRY(f_window) {
  int ex = (int)verif_param(0); unsigned base = (unsigned)verif_param(1);
  unsigned k = verif_u32();
  verif_assume(k < (1u << verif_param(2)));
  unsigned man = (base + (k << verif_param(3))) & 0x7fffffu;
  if (ex == 0) verif_assume(man != 0);
  f_one(ex, man, verif_param(4) != 0);
  verif_reach("end");
}
ENTRY(d_window) {
  int ex = (int)verif_param(0); unsigned long long base = (unsigned long long)verif_param(1);
  unsigned long long k = verif_u64();
  verif_assume(k < (1ull << verif_param(2)));
  unsigned long long man = (base + (k << verif_param(3))) & 0xfffffffffffffull;
  if (ex == 0) verif_assume(man != 0);
  d_one(ex, man, verif_param(4) != 0);
  verif_reach("end");
}

// windows around the mantissas whose scaled value comes nearest to an integer (ryu_hard.h)
// param: first exponent field, how many, distance between them, log2 of the mantissas per window, sign (double: how many of the four windows)
ENTRY(f_hard) {
  int ex = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1) * (int)verif_param(2), lc = (int)verif_param(3);
  int h = verif_choose(0, 3);
  unsigned k = verif_u32();
  verif_assume(k < (1u << lc));
  f_one(ex, (F_HARD[ex][h] - (1u << (lc - 1)) + k) & 0x7fffffu, verif_param(4) != 0);
  verif_reach("end");
}
ENTRY(d_hard) {
  int ex = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1) * (int)verif_param(2), lc = (int)verif_param(3);
  int h = (ex + verif_choose(0, (int)verif_param(5) - 1)) & 3;
  unsigned long long k = verif_u64();
  verif_assume(k < (1ull << lc));
  d_one(ex, (D_HARD[ex][h] - (1ull << (lc - 1)) + k) & 0xfffffffffffffull, verif_param(4) != 0);
  verif_reach("end");
}
// whole numbers of every length, and the same divided by a power of ten: their own digits are the shortest text
// param: digits, power of ten, log2 of the values per window, sign
template <class F, class U> static void shortText(int L, int e, int lc, bool sign) {
  static const unsigned long long P2[6] = {1ull << 31, 1ull << 32, 1ull << 33, 3ull << 32, 1ull << 40, 1ull << 50};
  unsigned long long lo = 1, k = verif_u64();
  for (int i = 1; i < L; i++) lo *= 10;
  unsigned long long hi = lo * 10, max = sizeof(F) == 8 ? 1ull << 53 : 1ull << 24, w = 1ull << lc;
  if (hi > max) hi = max;
  // where: the first of that length, the last, around a multiple of 10^8, of 10^4, spread, around a power of two
  int m = verif_choose(0, 10);
  unsigned long long base = lo, dist = 1;
  if (hi - lo <= w) { verif_assume(m == 0 && k < hi - lo); }
  else {
    verif_assume(k < w);
    if (m == 1) base = hi - w;
    if (m == 2) { verif_assume(hi > 200000000); base = (lo + (hi - lo) / 3) / 100000000 * 100000000 - w / 2; }
    if (m == 3) { verif_assume(hi > 20000); base = (lo + (hi - lo) / 7) / 10000 * 10000 - w / 2; }
    if (m == 4) dist = (hi - lo) / w;
    if (m >= 5) base = P2[m - 5] - w / 2;
    verif_assume(base >= lo && base + (w - 1) * dist < hi);
  }
  unsigned long long D = base + k * dist, p = 1;
  for (int i = 0; i < e; i++) p *= 10;
  F f = (F)(long long)D / (F)p;
  if (sign) f = -f;
  S s = nanostl::to_string(f);
  int len = (int)verif_concretize(s.size());
  verif_assert(len <= (sizeof(F) == 8 ? 24 : 15), "length");
  Text t = parse(s.c_str(), len, sizeof(F) == 8 ? 17 : 9);
  int n = (int)verif_concretize(t.n);
  verif_assert(t.neg == sign, "sign");
  verif_assert(n <= L && t.X == L - 1 - e, "the exponent");
  unsigned long long d = t.D;
  for (int i = n; i < L; i++) d *= 10;
  verif_assert(d == D && (n == 1 || t.last != 0), "the digits of the number, without zeros at the end");
}
ENTRY(f_text) { shortText<float, unsigned>((int)verif_param(0), (int)verif_param(1), (int)verif_param(2), verif_param(3) != 0); verif_reach("end"); }
ENTRY(d_text) { shortText<double, unsigned long long>((int)verif_param(0), (int)verif_param(1), (int)verif_param(2), verif_param(3) != 0); verif_reach("end"); }
// every zero, infinity and NaN
ENTRY(f_special) {
  unsigned man = verif_u32(), sg = verif_u32();
  verif_assume(man < 0x800000u && sg < 2);
  bool zero = verif_choose(0, 1) == 0;
  S s = nanostl::to_string(f32_of(sg << 31 | (zero ? 0 : 0x7f800000u | man)));
  const char *w = zero ? "0E0" : man ? "NaN" : "Infinity";
  const char *p = s.c_str();
  if (sg && (zero || !man)) { verif_assert(p[0] == '-', "the sign of zero and infinity is written"); p++; }
  int i = 0;
  while (w[i]) { verif_assert(p[i] == w[i], "the name of a special value"); i++; }
  verif_assert(p[i] == 0 && s.size() == (size_t)(p - s.c_str()) + i, "nothing after it");
  verif_reach("end");
}
ENTRY(d_special) {
  unsigned long long man = verif_u64(), sg = verif_u64();
  verif_assume(man < 0x10000000000000ull && sg < 2);
  bool zero = verif_choose(0, 1) == 0;
  S s = nanostl::to_string(f64_of(sg << 63 | (zero ? 0 : 0x7ff0000000000000ull | man)));
  const char *w = zero ? "0E0" : man ? "NaN" : "Infinity";
  const char *p = s.c_str();
  if (sg && (zero || !man)) { verif_assert(p[0] == '-', "the sign of zero and infinity is written"); p++; }
  int i = 0;
  while (w[i]) { verif_assert(p[i] == w[i], "the name of a special value"); i++; }
  verif_assert(p[i] == 0 && s.size() == (size_t)(p - s.c_str()) + i, "nothing after it");
  verif_reach("end");
}
