#define NANOSTL_STRING_IMPLEMENTATION
#include "verif.h"
#include "nanostring.h"
typedef nanostl::string S;
// model text: bytes with explicit length
struct T {
  int n; char a[80];
  T() : n(0) {}
  T(const T &o) : n(o.n) { for (int i = 0; i < n; i++) a[i] = o.a[i]; }
  void operator=(const T &o) { n = o.n; for (int i = 0; i < n; i++) a[i] = o.a[i]; }
  void cat(const T &o) { int k = o.n; for (int i = 0; i < k; i++) a[n + i] = o.a[i]; n += k; }
  void erase(int i) { for (; i + 1 < n; i++) a[i] = a[i + 1]; n--; }
};
static void check(S &s, const T &t) {
  const S &c = s;
  verif_assert(c.size() == (unsigned long long)t.n, "size()");
  verif_assert(c.length() == (unsigned long long)t.n, "length()");
  verif_assert(c.empty() == (t.n == 0), "empty()");
  const char *p = c.c_str();
  for (int i = 0; i < t.n; i++) {
    verif_assert(p[i] == t.a[i], "character through c_str()");
    verif_assert(s[i] == t.a[i] && c[i] == t.a[i], "operator[]");
    verif_assert(s.at(i) == t.a[i] && c.at(i) == t.a[i], "at()");
  }
  verif_assert(p[t.n] == 0, "NUL terminator");
}
static char arb(bool nul) { char c = (char)verif_u8(); if (!nul) verif_assume(c != 0); return c; }
// arbitrary string built in one of the public ways
static S *make(T &t, int maxn, int how) {
  char buf[48];
  int n = verif_range(0, maxn);
  t.n = n;
  bool nul = how == 2 || how == 3;
  // exact-size heap buffer so that any read beyond the text is seen
  char *x = new char[nul ? n : n + 1];
  for (int i = 0; i < n; i++) { t.a[i] = arb(nul); x[i] = t.a[i]; }
  if (!nul) x[n] = 0;
  S *r;
  switch (how) {
  case 0: r = new S((const char *)x); break;
  case 1: { S tmp((const char *)x); r = new S(tmp); break; }
  case 2: r = new S((const char *)x, (unsigned long long)n); break;
  case 3: r = new S((const char *)x, (const char *)(x + n)); break;
  case 4: { r = new S("previous contents"); S tmp((const char *)x); *r = tmp; break; }
  default: { r = new S(); S tmp((const char *)x); *r += tmp; break; }
  }
  delete[] x;
  return r;
}
ENTRY(build) {
  T t;
  S *s = make(t, verif_param(1), verif_param(0));
  check(*s, t);
  delete s;
  { S e; T z; check(e, z); }
  { S e((const char *)0); T z; check(e, z); }
  verif_reach("end");
}
static void step(S &a, T &ta, S &b, T &tb) {
  switch (verif_choose(0, 13)) {
  case 0: a += b; ta.cat(tb); return;
  case 1: a += a; { T k = ta; ta.cat(k); } return;
  case 2: { S c = a + b; T k = ta; k.cat(tb); check(c, k); c += c; return; }
  case 3: { S c = a + a; T k = ta; k.cat(ta); check(c, k); return; }
  case 4: a = b; ta = tb; return;
  case 5: { S &self = a; a = self; return; }
  case 6: a.clear(); ta.n = 0; return;
  case 7: if (ta.n) {
    int i = verif_range(0, ta.n - 1);
    char *r = a.erase(&a[i]);
    ta.erase(i);
    verif_assert(r == &a[0] + i, "erase returns the position of the following character");
    return;
  } return;
  case 8: if (ta.n) { int i = verif_range(0, ta.n - 1); char c = arb(true); a[i] = c; ta.a[i] = c; } return;
  case 9: if (ta.n) { int i = verif_range(0, ta.n - 1); char c = arb(true); a.at(i) = c; ta.a[i] = c; } return;
  case 10: { S c(a); check(c, ta); c += b; if (ta.n) c[0] = 'Z'; return; }
  case 11: { a = a + b; ta.cat(tb); return; }
  case 12: { a = "xyz"; ta.n = 3; ta.a[0] = 'x'; ta.a[1] = 'y'; ta.a[2] = 'z'; return; }
  case 13: { a += "q"; ta.a[ta.n++] = 'q'; return; }
  }
}
ENTRY(ops) {
  {
    T ta, tb;
    S *a = make(ta, verif_param(0), verif_param(3)), *b = make(tb, verif_param(1), 2);
    for (int i = 0; i < verif_param(2); i++) step(*a, ta, *b, tb);
    check(*a, ta); check(*b, tb);
    verif_observe(a->size());
    delete a; delete b;
  }
  verif_reach("end");
}
ENTRY(longtext) {   // fixed length, arbitrary bytes
  int n = verif_param(0);
  char *x = new char[n];
  for (int i = 0; i < n; i++) x[i] = (char)verif_u8();
  S a(x, (unsigned long long)n), b(x, (const char *)(x + n)), c;
  for (int r = 0; r < 2; r++) c += a;
  verif_assert(a.size() == (unsigned)n && b.size() == (unsigned)n && c.size() == 2u * n, "sizes");
  for (int i = 0; i < n; i++) verif_assert(a[i] == x[i] && b[i] == x[i] && c[i] == x[i] && c[n + i] == x[i], "characters");
  verif_assert(a.c_str()[n] == 0 && b.c_str()[n] == 0 && c.c_str()[2 * n] == 0, "terminators");
  delete[] x;
  verif_reach("end");
}
ENTRY(hugetext) {   // beyond what 16 bits count: all but the last two characters fixed
  int n = verif_param(0);
  char *x = new char[n + 1];
  for (int i = 0; i < n; i++) x[i] = (char)(1 + i % 100);
  for (int i = n - 2; i < n; i++) { x[i] = (char)verif_u8(); verif_assume(x[i] != 0); }
  x[n] = 0;
  {
    S a(x), b(x, (unsigned long long)n - 1), c(a);
    verif_assert(a.size() == (unsigned)n && a.length() == (unsigned)n && b.size() == n - 1u && c.size() == (unsigned)n && !a.empty(), "sizes");
    verif_assert(a.c_str()[n] == 0 && b.c_str()[n - 1] == 0 && c.c_str()[n] == 0, "terminators");
    verif_assert(a[n - 1] == x[n - 1] && a[n - 2] == x[n - 2] && c[n - 1] == x[n - 1] && b[n - 2] == x[n - 2] && a[0] == 1 && c[n / 2] == x[n / 2], "characters");
    b += x[n - 1] == 'q' ? "q" : "r";
    verif_assert(b.size() == (unsigned)n && b[n - 1] == (x[n - 1] == 'q' ? 'q' : 'r') && b.c_str()[n] == 0, "appending");
    c.clear();
    verif_assert(c.empty() && c.size() == 0 && a.size() == (unsigned)n, "clear");
  }
  delete[] x;
  verif_reach("end");
}
// ---- comparison
// long texts with a fixed common part: the last two characters of each arbitrary, m extra characters on the second
ENTRY(cmp_long) {
  int n = verif_param(0), m = n + (int)verif_param(1);
  unsigned char *x = new unsigned char[n + 1], *y = new unsigned char[m + 1];
  for (int i = 0; i < m; i++) y[i] = (unsigned char)(1 + i % 250);
  for (int i = 0; i < n; i++) x[i] = y[i];
  for (int i = n - 2; i < n; i++) { x[i] = verif_u8(); verif_assume(x[i] != 0); y[i] = verif_u8(); verif_assume(y[i] != 0); }
  x[n] = y[m] = 0;
  {
    S a((const char *)x), b((const char *)y);
    int want = x[n - 2] != y[n - 2] ? (x[n - 2] < y[n - 2] ? -1 : 1) : x[n - 1] != y[n - 1] ? (x[n - 1] < y[n - 1] ? -1 : 1) : n < m ? -1 : 0;
    int c = a.compare(b), d = a.compare((const char *)y), e = b.compare(a), f = b.compare((const char *)x);
    verif_assert((c < 0) == (want < 0) && (c > 0) == (want > 0), "compare(string)");
    verif_assert((d < 0) == (want < 0) && (d > 0) == (want > 0), "compare(const char *)");
    verif_assert((e < 0) == (want > 0) && (e > 0) == (want < 0) && (f < 0) == (want > 0) && (f > 0) == (want < 0), "antisymmetric");
    verif_assert((a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0), "operators on strings");
  }
  delete[] x; delete[] y;
  verif_reach("end");
}
static int lex(const unsigned char *a, int n, const unsigned char *b, int m) {
  for (int i = 0; i < n && i < m; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return n < m ? -1 : n > m ? 1 : 0;
}
ENTRY(cmp) {
  int n = verif_param(0), m = verif_param(1);
  unsigned char *x = new unsigned char[n + 1], *y = new unsigned char[m + 1];
  for (int i = 0; i < n; i++) { x[i] = verif_u8(); verif_assume(x[i] != 0); }
  for (int i = 0; i < m; i++) { y[i] = verif_u8(); verif_assume(y[i] != 0); }
  x[n] = y[m] = 0;
  S a((const char *)x), b((const char *)y);
  int want = lex(x, n, y, m);
  int c = a.compare(b), d = a.compare((const char *)y), e = b.compare(a);
  verif_assert((c < 0) == (want < 0) && (c > 0) == (want > 0), "compare(string)");
  verif_assert((d < 0) == (want < 0) && (d > 0) == (want > 0), "compare(const char *)");
  verif_assert((e < 0) == (want > 0) && (e > 0) == (want < 0), "antisymmetric");
  verif_assert((a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0), "operators on strings");
  const char *q = (const char *)y;
  verif_assert((a == q) == (want == 0) && (a != q) == (want != 0) && (a < q) == (want < 0) && (a > q) == (want > 0), "operators on C strings");
  verif_assert(a.compare(a) == 0 && a == a && !(a != a) && !(a < a) && !(a > a), "reflexive");
  S p(a);
  verif_assert(p == a && p.compare(a) == 0, "copies are equal");
  verif_observe(want);
  delete[] x; delete[] y;
  verif_reach("end");
}
// ---- integer to text
// |v| has exactly k decimal digits (one job per k and sign): the text must be the sign and those k digits
template <class I> static void ints(I v, int k, bool neg) {
  unsigned long long m = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, lo = 1;
  verif_assume((v < 0) == neg);
  for (int i = 1; i < k; i++) lo *= 10;
  if (k > 1) verif_assume(m >= lo);
  if (k < 20) verif_assume(m < lo * 10);
  S s = nanostl::to_string(v);
  const char *p = s.c_str();
  verif_assert(s.size() == (unsigned long long)(k + (neg ? 1 : 0)), "length is the number of digits plus the sign");
  verif_assert(p[s.size()] == 0, "terminated");
  if (neg) { verif_assert(p[0] == '-', "minus sign exactly for negatives"); p++; }
  unsigned long long d = 1;
  for (int i = k - 1; i >= 0; i--) {
    verif_assert((unsigned char)p[i] == '0' + (m / d) % 10, "digit");
    if (i) d *= 10;
  }
  verif_observe(p[0]); verif_observe(p[k - 1]);
  verif_reach("end");
}
ENTRY(i32) { ints<int>((int)verif_u32(), verif_param(0), verif_param(1) != 0); }
ENTRY(u32) { ints<unsigned>(verif_u32(), verif_param(0), false); }
ENTRY(i64) { ints<nanostl::int64_t>((nanostl::int64_t)verif_u64(), verif_param(0), verif_param(1) != 0); }
ENTRY(u64) { ints<nanostl::uint64_t>(verif_u64(), verif_param(0), false); }
