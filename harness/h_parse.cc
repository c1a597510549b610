// stof/stod against exact integer arithmetic
#define NANOSTL_STRING_IMPLEMENTATION
#include "verif.h"
#include "nanostring.h"
#include "parse_hard.h"
#include "parse_edge.h"
typedef nanostl::string S;
typedef unsigned long long u64;
typedef unsigned _BitInt(512) W32;
typedef unsigned _BitInt(1280) W64;
// Is `bits` (of a float: mb = 23, eb = 8; of a double: 52, 11) the number nearest to D * 10^E, ties to even?
template <class W> static void nearest(u64 bits, int mb, int eb, bool neg, u64 D, int E) {
  int emax = (1 << eb) - 1, bias = emax >> 1;
  verif_assert((bits >> (mb + eb)) == (neg ? 1u : 0u), "the sign of the text");
  u64 man = bits & ((1ull << mb) - 1);
  int ex = (int)verif_concretize(bits >> mb & (u64)emax);
  W five = 1;
  for (int i = 0; i < (E < 0 ? -E : E); i++) five *= 5;
  if (ex == emax) {
    verif_assert(man == 0, "not a NaN");
    // at least half way beyond the largest finite number: (2^(mb+2) - 1) * 2^(q-1), q = exponent of its last bit
    int q = emax - 1 - bias - mb - 1;
    W lim = (W)((1ull << (mb + 2)) - 1);
    if (E < 0) { verif_assert(E > -60, "no infinity for a small number"); return; }
    W d = five * (W)D;                                   // times 2^E against lim * 2^q
    if (q >= E) verif_assert(d >= (lim << (q - E)), "infinity only beyond the largest number");
    else verif_assert((d << (E - q)) >= lim, "infinity only beyond the largest number");
    return;
  }
  u64 m2 = ex ? man | 1ull << mb : man;
  int q = (ex ? ex : 1) - bias - mb - 2;                 // value = 4 * m2 * 2^q
  bool lowgap = man == 0 && ex > 1, even = (m2 & 1) == 0;
  int s = E - q;
  W d = (W)D, hi = (W)(4 * m2 + 2), lo = (W)(lowgap ? 4 * m2 - 1 : 4 * m2 - 2);
  if (E >= 0) d *= five; else { hi *= five; lo *= five; }
  if (s >= 0) d <<= s; else { hi <<= -s; lo <<= -s; }
  verif_assert(even ? d <= hi : d < hi, "no representable number above is nearer");
  if (m2 != 0) verif_assert(even ? d >= lo : d > lo, "no representable number below is nearer");
}
// writes D as n digits with a point after p of them (p > n: none), then an exponent so that the value is D * 10^E
// form: bit 0 'E' rather than 'e', bit 1 '+' sign, bit 2 a leading '-', bit 3 exponent padded with a zero, bit 4 a leading zero
static S text(u64 D, int n, int p, int E, int form) {
  char b[64]; int k = 0;
  char dig[24];
  for (int i = n; i-- > 0;) { dig[i] = (char)('0' + D % 10); D /= 10; }
  if (form & 4) b[k++] = '-';
  if (form & 16) b[k++] = '0';
  for (int i = 0; i < n; i++) { if (i == p) b[k++] = '.'; b[k++] = dig[i]; }
  if (p == n) b[k++] = '.';
  int X = E + (p <= n ? n - p : 0);
  if (X != 0 || (form & 3)) {
    b[k++] = form & 1 ? 'E' : 'e';
    if (X < 0) b[k++] = '-'; else if (form & 2) b[k++] = '+';
    int x = X < 0 ? -X : X;
    if (form & 8) b[k++] = '0';
    if (x >= 1000) b[k++] = (char)('0' + x / 1000);
    if (x >= 100) b[k++] = (char)('0' + x / 100 % 10);
    if (x >= 10) b[k++] = (char)('0' + x / 10 % 10);
    b[k++] = (char)('0' + x % 10);
  }
  return S(b, (nanostl::size_t)k);
}
static u64 pow10(int k) { u64 r = 1; while (k-- > 0) r *= 10; return r; }
// first D and distance of a window of 2^lc values of at most n digits
// mode 0: the smallest; 1: the largest n-digit ones; 2: spread over the n-digit ones; 3: around a power of two
static void window(int mode, int n, int E, int lc, u64 &base, u64 &dist) {
  base = 1; dist = 1;
  u64 lim = pow10(n);
  if (mode == 1) base = lim - (1ull << lc);
  if (mode == 2) { dist = (lim - lim / 10) >> lc; base = lim / 10 + (0x9e3779b97f4a7c15ull * (unsigned)(E + 5000)) % dist; }
  if (mode == 3) { u64 t = 1; while (t * 2 < lim) t *= 2; if ((unsigned)E & 1) t /= 2; base = t - (1ull << (lc - 1)); }
}
// param: first E, how many, mode, log2 of the values, digits
ENTRY(f_sweep) {
  int E = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1), mode = (int)verif_param(2), lc = (int)verif_param(3), n = (int)verif_param(4);
  if (mode < 0) mode = (E + 400) % 4;
  u64 base, dist, k = verif_u64();
  window(mode, n, E, lc, base, dist);
  verif_assume(k < (1ull << lc));
  u64 D = base + k * dist;
  int form = (E * 7 + mode * 3) & 31;
  {
    S s = text(D, n, (E + 700 + mode) % (n + 2), E, form);
    nearest<W32>(bits_of(nanostl::stof(s)), 23, 8, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
ENTRY(d_sweep) {
  int E = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1), mode = (int)verif_param(2), lc = (int)verif_param(3), n = (int)verif_param(4);
  if (mode < 0) mode = (E + 400) % 4;
  u64 base, dist, k = verif_u64();
  window(mode, n, E, lc, base, dist);
  verif_assume(k < (1ull << lc));
  u64 D = base + k * dist;
  int form = (E * 7 + mode * 3) & 31;
  {
    S s = text(D, n, (E + 700 + mode) % (n + 2), E, form);
    nearest<W64>(bits_of(nanostl::stod(s)), 52, 11, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
// windows around the 9- and 17-digit texts that come nearest to the middle between two numbers (parse_hard.h)
// param: first E, how many, log2 of the values
ENTRY(f_hard) {
  int E = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1), lc = (int)verif_param(2), h = verif_choose(0, 3);
  u64 k = verif_u64();
  verif_assume(k < (1ull << lc));
  u64 D = FP_HARD[E - FP_FIRST][h] - (1ull << (lc - 1)) + k;
  int form = (E * 5 + h) & 31;
  {
    S s = text(D, 9, (E + 700 + h) % 11, E, form);
    nearest<W32>(bits_of(nanostl::stof(s)), 23, 8, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
ENTRY(d_hard) {
  int E = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1), lc = (int)verif_param(2), h = verif_choose(0, 3);
  u64 k = verif_u64();
  verif_assume(k < (1ull << lc));
  u64 D = DP_HARD[E - DP_FIRST][h] - (1ull << (lc - 1)) + k;
  int form = (E * 5 + h) & 31;
  {
    S s = text(D, 17, (E + 700 + h) % 19, E, form);
    nearest<W64>(bits_of(nanostl::stod(s)), 52, 11, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
// windows around every power of two, where mantissas carry and exponents change; the smallest and largest numbers among them
// param: first exponent, how many, distance, log2 of the values
ENTRY(f_edge) {
  int b = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1) * (int)verif_param(2), lc = (int)verif_param(3);
  u64 k = verif_u64();
  verif_assume(k < (1ull << lc));
  u64 D = FP_EDGE[b - FE_FIRST].d - (1ull << (lc - 1)) + k;
  int E = FP_EDGE[b - FE_FIRST].e, form = (b * 5 + 700) & 31;
  {
    S s = text(D, 9, (b + 700) % 11, E, form);
    nearest<W32>(bits_of(nanostl::stof(s)), 23, 8, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
ENTRY(d_edge) {
  int b = (int)verif_param(0) + verif_choose(0, (int)verif_param(1) - 1) * (int)verif_param(2), lc = (int)verif_param(3);
  u64 k = verif_u64();
  verif_assume(k < (1ull << lc));
  u64 D = DP_EDGE[b - DE_FIRST].d - (1ull << (lc - 1)) + k;
  int E = DP_EDGE[b - DE_FIRST].e, form = (b * 5 + 7000) & 31;
  {
    S s = text(D, 17, (b + 7000) % 19, E, form);
    nearest<W64>(bits_of(nanostl::stod(s)), 52, 11, (form & 4) != 0, D, E);
  }
  verif_reach("end");
}
// the grammar: [-] digits with at most one point among or around them [e [+-] digits]
static bool valid(const char *b, int n) {
  int i = 0, dig = 0, dots = 0;
  if (i < n && b[i] == '-') i++;
  while (i < n && ((b[i] >= '0' && b[i] <= '9') || b[i] == '.')) { if (b[i] == '.') dots++; else dig++; i++; }
  if (dig == 0 || dots > 1) return false;
  if (i == n) return true;
  if (b[i] != 'e' && b[i] != 'E') return false;
  i++;
  if (i < n && (b[i] == '-' || b[i] == '+')) i++;
  if (i == n) return false;
  while (i < n) { if (b[i] < '0' || b[i] > '9') return false; i++; }
  return true;
}
// every text of the given length outside the grammar
ENTRY(f_garbage) {
  int n = (int)verif_param(0);
  char b[16];
  for (int i = 0; i < n; i++) b[i] = (char)verif_u8();
  verif_assume(!valid(b, n));
  { S s(b, (nanostl::size_t)n); verif_assert(nan32(bits_of(nanostl::stof(s))), "text that is no number gives NaN"); }
  verif_reach("end");
}
ENTRY(d_garbage) {
  int n = (int)verif_param(0);
  char b[16];
  for (int i = 0; i < n; i++) b[i] = (char)verif_u8();
  verif_assume(!valid(b, n));
  { S s(b, (nanostl::size_t)n); verif_assert(nan64(bits_of(nanostl::stod(s))), "text that is no number gives NaN"); }
  verif_reach("end");
}
// every text of the given length inside the grammar: before the exponent letter two arbitrary digits
// and then sevens or zeros, in the exponent 0, 2, 3 or 9
template <class W> static void shapes(int n, bool dbl) {
  char b[16], m[16];
  u64 D = 0; int E = 0, X = 0, nd = 0; bool neg = false, dot = false, ex = false, xneg = false;
  for (int i = 0; i < n; i++) {
    static const char C[5] = {'.', '-', 'e', 'E', '+'}, XC[4] = {'0', '2', '3', '9'};
    int c = verif_choose(0, ex ? 6 : 5);
    if (ex && c < 4) { m[i] = b[i] = XC[c]; X = X * 10 + (b[i] - '0'); }
    else if (ex) { m[i] = b[i] = c == 4 ? '-' : c == 5 ? '+' : '.'; if (c == 4) xneg = true; }
    else if (c == 0) {
      unsigned char d = 0;
      if (nd++ < 2) { d = verif_u8(); verif_assume(d < 10); } else d = i & 1 ? 7 : 0;
      m[i] = '0'; b[i] = (char)('0' + d); D = D * 10 + d; if (dot) E--;
    } else {
      m[i] = b[i] = C[c - 1];
      if (c == 1) dot = true; else if (c == 2) neg = true; else if (c < 5) ex = true;
    }
  }
  verif_assume(valid(m, n));
  E += xneg ? -X : X;
  S s(b, (nanostl::size_t)n);
  u64 r = dbl ? bits_of(nanostl::stod(s)) : (u64)bits_of(nanostl::stof(s));
  int mb = dbl ? 52 : 23, eb = dbl ? 11 : 8;
  if (D == 0 || E < -400) verif_assert(r == (neg ? 1ull << (mb + eb) : 0), "zero, with its sign");
  else if (E > 400) verif_assert(r == ((neg ? 1ull << (mb + eb) : 0) | ((1ull << eb) - 1) << mb), "infinity, with its sign");
  else nearest<W>(r, mb, eb, neg, D, E);
}
ENTRY(f_shapes) { shapes<W64>((int)verif_param(0), false); verif_reach("end"); }
ENTRY(d_shapes) { shapes<W64>((int)verif_param(0), true); verif_reach("end"); }
// more significant digits than the limit (9, 17; 4 in the exponent)
ENTRY(toolong) {
  int n = (int)verif_param(0), x = (int)verif_param(1);
  char b[40]; int k = 0;
  for (int i = 0; i < n; i++) { b[k] = (char)verif_u8(); verif_assume(b[k] >= (i ? '0' : '1') && b[k] <= '9'); k++; }
  if (x) b[k++] = 'e';
  for (int i = 0; i < x; i++) { b[k] = (char)verif_u8(); verif_assume(b[k] >= (i ? '0' : '1') && b[k] <= '9'); k++; }
  {
    S s(b, (nanostl::size_t)k);
    if (n > 9 || x > 4) verif_assert(nan32(bits_of(nanostl::stof(s))), "too long for a float");
    if (n > 17 || x > 4) verif_assert(nan64(bits_of(nanostl::stod(s))), "too long for a double");
  }
  verif_reach("end");
}
// what to_string writes, stof and stod read back: the very same number
// param: exponent field, first mantissa, log2 of the number of mantissas, log2 of their distance, sign
ENTRY(f_round) {
  unsigned k = verif_u32();
  verif_assume(k < (1u << verif_param(2)));
  unsigned man = ((unsigned)verif_param(1) + (k << verif_param(3))) & 0x7fffffu, u = (unsigned)verif_param(4) << 31 | (unsigned)verif_param(0) << 23 | man;
  { S s = nanostl::to_string(f32_of(u)); verif_assert(bits_of(nanostl::stof(s)) == u, "round trip"); }
  verif_reach("end");
}
ENTRY(d_round) {
  u64 k = verif_u64();
  verif_assume(k < (1ull << verif_param(2)));
  u64 man = ((u64)verif_param(1) + (k << verif_param(3))) & 0xfffffffffffffull, u = (u64)verif_param(4) << 63 | (u64)verif_param(0) << 52 | man;
  { S s = nanostl::to_string(f64_of(u)); verif_assert(bits_of(nanostl::stod(s)) == u, "round trip"); }
  verif_reach("end");
}
