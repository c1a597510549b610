#include "verif.h"
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanocstring.h"
#include "nanomath.h"
#include "nanovector.h"
#include "nanovalarray.h"
struct Rec { int key; int tag; };      // equal keys, distinguishable objects
static inline bool operator<(const Rec &a, const Rec &b) { return a.key < b.key; }
static inline bool operator>(const Rec &a, const Rec &b) { return a.key > b.key; }
template <class T> static void mm(T a, T b) {
  const T &lo = nanostl::min(a, b), &hi = nanostl::max(a, b);
  verif_assert(&lo == (b < a ? &b : &a), "min refers to the smaller argument, the first when equal");
  verif_assert(&hi == (a < b ? &b : &a), "max refers to the larger argument, the first when equal");
  verif_assert(&nanostl::min(a, a) == &a && &nanostl::max(a, a) == &a, "min/max of one object");
}
template <class T> static void cl(T x, T lo, T hi) {
  if (!(lo <= hi)) return;
  T r = nanostl::clamp(x, lo, hi);
  verif_assert(r == (x < lo ? lo : x > hi ? hi : x), "clamp forces the value into the range");
}
ENTRY(minmaxclamp) {
  switch (verif_param(0)) {
  case 0: mm<int>((int)verif_u32(), (int)verif_u32()); cl<int>((int)verif_u32(), (int)verif_u32(), (int)verif_u32()); break;
  case 1: mm<unsigned>(verif_u32(), verif_u32()); cl<unsigned>(verif_u32(), verif_u32(), verif_u32()); break;
  case 2: mm<long long>((long long)verif_u64(), (long long)verif_u64()); cl<long long>((long long)verif_u64(), (long long)verif_u64(), (long long)verif_u64()); break;
  case 3: mm<unsigned char>(verif_u8(), verif_u8()); cl<unsigned char>(verif_u8(), verif_u8(), verif_u8()); break;
  case 4: { float a = verif_f32(), b = verif_f32(); verif_assume(a == a && b == b); mm<float>(a, b); float x = verif_f32(); verif_assume(x == x); cl<float>(x, a, b); break; }
  case 5: { double a = verif_f64(), b = verif_f64(); verif_assume(a == a && b == b); mm<double>(a, b); double x = verif_f64(); verif_assume(x == x); cl<double>(x, a, b); break; }
  case 6: { Rec a = {(int)verif_u32(), 1}, b = {(int)verif_u32(), 2}; mm<Rec>(a, b); break; }
  }
  verif_reach("end");
}
// a forward iterator with nothing beyond what a forward iterator offers
template <class T> struct Fwd {
  T *p;
  explicit Fwd(T *q) : p(q) {}
  T &operator*() const { return *p; }
  Fwd &operator++() { ++p; return *this; }
  Fwd operator++(int) { Fwd r(p); ++p; return r; }
  bool operator==(const Fwd &o) const { return p == o.p; }
  bool operator!=(const Fwd &o) const { return p != o.p; }
};
template <class T> static void maxel(int maxn) {
  int n = verif_range(0, maxn);
  T *a = new T[n];
  for (int i = 0; i < n; i++) a[i] = (T)verif_u32();
  T *r = nanostl::max_element(a, a + n);
  Fwd<T> f = nanostl::max_element(Fwd<T>(a), Fwd<T>(a + n));
  verif_assert(f.p == r, "same for any forward iterator");
  verif_assert((r == a + n) == (n == 0), "end exactly for an empty range");
  if (n) {
    int k = (int)(r - a);
    verif_assert(k >= 0 && k < n, "inside the range");
    int i = verif_range(0, n - 1);
    verif_assert(!(a[k] < a[i]), "no element is greater");
    if (i < k) verif_assert(a[i] < a[k], "it is the first such position");
  }
  delete[] a;
  verif_reach("end");
}
ENTRY(maxelement) { if (verif_param(0) == 0) maxel<int>(verif_param(1)); else maxel<unsigned char>(verif_param(1)); }
ENTRY(fillrange) {   // writes exactly the range
  int n = verif_range(0, verif_param(0));
  int *a = new int[n + 2], *b = new int[n + 2];
  for (int i = 0; i < n + 2; i++) a[i] = b[i] = (int)verif_u32();
  int v = (int)verif_u32(), lo = verif_range(0, n), hi = verif_range(lo, n);
  nanostl::fill(a + 1 + lo, a + 1 + hi, v);
  for (int i = 0; i < n + 2; i++) verif_assert(a[i] == (i >= 1 + lo && i < 1 + hi ? v : b[i]), "fill writes exactly the range");
  unsigned char *c = new unsigned char[n]; unsigned char w = verif_u8();
  for (int i = 0; i < n; i++) c[i] = verif_u8();
  nanostl::fill(Fwd<unsigned char>(c), Fwd<unsigned char>(c + n), w);
  for (int i = 0; i < n; i++) verif_assert(c[i] == w, "fill through a forward iterator");
  delete[] a; delete[] b; delete[] c;
  verif_reach("end");
}
ENTRY(distances) {
  int n = verif_range(0, verif_param(0));
  int *a = new int[n]; short *s = new short[n];
  int i = verif_range(0, n), j = verif_range(0, n);
  verif_assert(nanostl::distance(a + i, a + j) == j - i, "distance of pointers is the signed element count");
  verif_assert(nanostl::distance((const short *)s + i, (const short *)s + j) == j - i, "distance of const pointers");
  nanostl::vector<int> v; v.resize(n);
  verif_assert(nanostl::distance(v.begin(), v.end()) == n, "distance over a vector");
  verif_assert(nanostl::distance(v.begin() + i, v.begin() + j) == j - i, "distance inside a vector");
  delete[] a; delete[] s;
  verif_reach("end");
}
ENTRY(copybytes) {
  int n = verif_range(0, verif_param(0)), k = verif_range(0, n);
  unsigned char *a = new unsigned char[n], *d = new unsigned char[n + 1], *o = new unsigned char[n + 1], *s = new unsigned char[n];
  for (int i = 0; i < n; i++) a[i] = s[i] = verif_u8();
  for (int i = 0; i < n + 1; i++) d[i] = o[i] = verif_u8();
  void *r = nanostl::memcpy(d, a, (unsigned long long)k);
  verif_assert(r == (void *)d, "memcpy returns the destination");
  for (int i = 0; i < n + 1; i++) verif_assert(d[i] == (i < k ? s[i] : o[i]), "memcpy copies exactly the given bytes");
  for (int i = 0; i < n; i++) verif_assert(a[i] == s[i], "the source is unchanged");
  delete[] a; delete[] d; delete[] o; delete[] s;
  verif_reach("end");
}
// fixed sizes, arbitrary contents
ENTRY(bigger) {
  int n = verif_param(0);
  unsigned char *a = new unsigned char[n], *d = new unsigned char[n + 8];
  for (int i = 0; i < n; i++) a[i] = verif_u8();
  for (int i = 0; i < n + 8; i++) d[i] = 0xA5;
  nanostl::memcpy(d, a, (unsigned long long)n);
  for (int i = 0; i < n; i++) verif_assert(d[i] == a[i], "memcpy");
  for (int i = n; i < n + 8; i++) verif_assert(d[i] == 0xA5, "memcpy writes nothing beyond");
  nanostl::fill(d, d + n, a[0]);
  for (int i = 0; i < n; i++) verif_assert(d[i] == a[0], "fill");
  verif_assert(d[n] == 0xA5, "fill writes nothing beyond");
  delete[] a; delete[] d;
  verif_reach("end");
}
