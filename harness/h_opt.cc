#include "verif.h"
#include <new>
#include "nanocstdint.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanooptional.h"
using nanostl::optional;
TRACKED_STATICS
// an element with moves: a moved-from object owns nothing
struct Mv {
  int *p;
  static int live;
  Mv() : p(new int(0)) { live++; }
  Mv(int v) : p(new int(v)) { live++; }
  Mv(int a, int b) : p(new int((int)((unsigned)a * 3u + (unsigned)b))) { live++; }
  Mv(const Mv &o) : p(o.p ? new int(*o.p) : 0) { live++; }
  Mv(Mv &&o) : p(o.p) { o.p = 0; live++; }
  Mv &operator=(const Mv &o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : 0; } return *this; }
  Mv &operator=(Mv &&o) { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~Mv() { delete p; live--; }
  int get() const { return *p; }
};
int Mv::live;
inline bool operator==(const Mv &a, const Mv &b) { return *a.p == *b.p; }
inline bool operator!=(const Mv &a, const Mv &b) { return *a.p != *b.p; }
inline bool operator<(const Mv &a, const Mv &b) { return *a.p < *b.p; }
inline bool operator>(const Mv &a, const Mv &b) { return *a.p > *b.p; }
inline bool operator<=(const Mv &a, const Mv &b) { return *a.p <= *b.p; }
inline bool operator>=(const Mv &a, const Mv &b) { return *a.p >= *b.p; }
template <class T> struct X { static int get(const T &t) { return t.get(); } static int live() { return T::live; } static void clear() { T::live = 0; } };
template <> struct X<int> { static int get(const int &t) { return t; } static int live() { return -1; } static void clear() {} };
template <class T> struct Hold {
  enum { N = 3 };
  optional<T> o[N];
  bool on[N]; int v[N];
  Hold() { for (int i = 0; i < N; i++) { on[i] = false; v[i] = 0; } }
  void check() {
    int n = 0;
    for (int i = 0; i < N; i++) {
      const optional<T> &c = o[i];
      verif_assert(c.has_value() == on[i] && (bool)c == on[i], "engaged exactly when a value was given last");
      verif_assert((c == nonstd::nullopt) == !on[i] && (nonstd::nullopt == c) == !on[i] && (c != nonstd::nullopt) == on[i] && (nonstd::nullopt != c) == on[i], "comparison with nullopt");
      if (on[i]) {
        n++;
        verif_assert(X<T>::get(*c) == v[i] && X<T>::get(c.value()) == v[i] && X<T>::get(*c.operator->()) == v[i] && X<T>::get(*o[i]) == v[i] && X<T>::get(o[i].value()) == v[i], "holds the value given last");
        verif_assert(&*c == &c.value() && &*c == c.operator->(), "one contained object");
        verif_assert((const char *)&*c >= (const char *)&c && (const char *)(&*c + 1) <= (const char *)(&c + 1), "the value lives inside the optional");
      }
    }
    if (X<T>::live() >= 0) verif_assert(X<T>::live() == n, "as many objects as engaged optionals");
  }
  void give(int i, int x) { on[i] = true; v[i] = x; }
  void step() {
    int op = verif_choose(0, 12), i = verif_choose(0, N - 1);
    int j = (op >= 3 && op <= 7) ? verif_choose(0, N - 1) : i;
    switch (op) {
    case 0: { int x = (int)verif_u32(); T t(x); o[i] = t; verif_assert(X<T>::get(t) == x, "copying leaves the source"); give(i, x); return; }
    case 1: { int x = (int)verif_u32(); o[i] = T(x); give(i, x); return; }
    case 2: if (verif_choose(0, 1)) o[i] = nonstd::nullopt; else o[i].reset(); on[i] = false; return;
    case 3: o[i] = o[j]; on[i] = on[j]; v[i] = v[j]; return;
    case 4: {
      o[i] = nanostl::move(o[j]);
      bool b = on[j]; int x = v[j];
      if (i != j) { verif_assert(o[j].has_value() == b, "a moved-from optional stays engaged"); o[j].reset(); on[j] = false; }
      on[i] = b; v[i] = x;
      return;
    }
    case 5: { o[i].swap(o[j]); bool b = on[i]; int x = v[i]; on[i] = on[j]; v[i] = v[j]; on[j] = b; v[j] = x; return; }
    case 6: { swap(o[i], o[j]); bool b = on[i]; int x = v[i]; on[i] = on[j]; v[i] = v[j]; on[j] = b; v[j] = x; return; }
    case 7: {   // copy and move construction
      optional<T> c(o[j]);
      verif_assert(c.has_value() == on[j] && (!on[j] || X<T>::get(*c) == v[j]), "copy construction");
      if (c) *c = T(5);
      verif_assert(!on[j] || X<T>::get(*o[j]) == v[j], "a copy is independent");
      if (c) c = o[j];
      optional<T> m(nanostl::move(c));
      verif_assert(m.has_value() == on[j] && (!on[j] || X<T>::get(*m) == v[j]) && c.has_value() == on[j], "move construction");
      o[i] = nanostl::move(m);
      on[i] = on[j]; v[i] = v[j];
      return;
    }
    case 8: if (verif_choose(0, 1)) { o[i].emplace(); give(i, 0); return; }
    { int x = (int)verif_u32(); T &r = o[i].emplace(x); verif_assert(&r == &*o[i], "emplace returns the value"); give(i, x); return; }
    case 9: { int x = (int)verif_u32(); optional<T> t(x); o[i] = t; give(i, x); return; }
    case 10: { int x = (int)verif_u32(); if (!on[i]) return; *o[i] = T(x); give(i, x); return; }
    case 11: {
      int d = (int)verif_u32();
      T r = static_cast<const optional<T> &>(o[i]).value_or(T(d));
      verif_assert(X<T>::get(r) == (on[i] ? v[i] : d), "value_or");
      optional<T> c(o[i]);
      T q = nanostl::move(c).value_or(T(d));
      verif_assert(X<T>::get(q) == (on[i] ? v[i] : d), "value_or of an rvalue");
      return;
    }
    case 12: { int x = (int)verif_u32(); o[i] = nonstd::make_optional(T(x)); give(i, x); return; }
    }
  }
};
template <class T> static void hist(int steps, bool preset) {
  X<T>::clear();
  {
    Hold<T> h;
    if (preset) for (int i = 0; i < 3; i++) if (verif_choose(0, 1)) { int x = (int)verif_u32(); h.o[i] = T(x); h.give(i, x); }
    h.check();
    for (int s = 0; s < steps; s++) { h.step(); h.check(); }
  }
  if (X<T>::live() >= 0) verif_assert(X<T>::live() == 0, "every value is destroyed");
  verif_reach("end");
}
ENTRY(histories) {
  int k = (int)verif_param(1); bool pre = verif_param(2) != 0;
  switch (verif_param(0)) { case 0: hist<int>(k, pre); break; case 1: hist<Tracked>(k, pre); break; case 2: hist<Mv>(k, pre); break; }
}
// order: empty before engaged, otherwise the values
template <class T> static void cmp() {
  bool a = verif_choose(0, 1), b = verif_choose(0, 1);
  int x = (int)verif_u32(), y = (int)verif_u32();
  optional<T> p, q;
  if (a) p = T(x);
  if (b) q = T(y);
  bool eq = a == b && (!a || x == y), lt = b && (!a || x < y), gt = a && (!b || x > y);
  verif_assert((p == q) == eq && (p != q) == !eq && (p < q) == lt && (p > q) == gt && (p <= q) == !gt && (p >= q) == !lt, "comparison of optionals");
  T t(y);
  bool eqv = a && x == y, ltv = !a || x < y, gtv = a && x > y;
  verif_assert((p == t) == eqv && (p != t) == !eqv && (p < t) == ltv && (p > t) == gtv && (p <= t) == !gtv && (p >= t) == !ltv, "comparison with a value");
  verif_assert((t == p) == eqv && (t != p) == !eqv && (t > p) == ltv && (t < p) == gtv && (t >= p) == !gtv && (t <= p) == !ltv, "comparison of a value");
  verif_assert((p < nonstd::nullopt) == false && (nonstd::nullopt < p) == a && (p <= nonstd::nullopt) == !a && (nonstd::nullopt <= p) && (p > nonstd::nullopt) == a && !(nonstd::nullopt > p) && (p >= nonstd::nullopt) && (nonstd::nullopt >= p) == !a, "order with nullopt");
  verif_reach("end");
}
ENTRY(comparisons) {
  switch (verif_param(0)) { case 0: cmp<int>(); break; case 1: cmp<Tracked>(); break; case 2: cmp<Mv>(); break; }
}
// several constructor arguments, conversions between optionals, floating values bit for bit, odd sizes
struct Odd { unsigned char b[3]; };
ENTRY(misc) {
  Mv::live = 0;
  {
    int a = (int)verif_u32(), b = (int)verif_u32();
    optional<Mv> o(nonstd::in_place, a, b);
    int w = (int)((unsigned)a * 3u + (unsigned)b);
    verif_assert(o.has_value() && o->get() == w, "in-place construction");
    o.emplace(b, a);
    verif_assert(o->get() == (int)((unsigned)b * 3u + (unsigned)a), "emplace with two arguments");
    verif_assert(Mv::live == 1, "emplace destroys the previous value");
    o.emplace();
    verif_assert(Mv::live == 1 && o->get() == 0, "emplace without arguments destroys the previous value");
    o.emplace(a);
    verif_assert(Mv::live == 1 && o->get() == a, "emplace with one argument destroys the previous value");
    o.reset(); o.reset();
    verif_assert(!o.has_value() && Mv::live == 0, "reset twice");
    o.emplace();
    verif_assert(o->get() == 0, "emplace without arguments");
    optional<int> oi; if (verif_choose(0, 1)) oi = a;
    optional<long long> ol(oi);
    verif_assert(ol.has_value() == oi.has_value() && (!ol || *ol == a), "converting construction");
    optional<long long> om; if (verif_choose(0, 1)) om = 7; om = oi;
    verif_assert(om.has_value() == oi.has_value() && (!om || *om == a), "converting assignment");
    optional<Mv> fm(oi);
    verif_assert(fm.has_value() == oi.has_value() && (!fm || fm->get() == a), "conversion to a class");
    double d = verif_f64(); optional<double> od(d), oe; oe = od;
    verif_assert(bits_of(*oe) == bits_of(d), "double kept bit for bit");
    double e = verif_f64();
    verif_assert(bits_of(optional<double>().value_or(e)) == bits_of(e), "default kept bit for bit");
    Odd x; for (int k = 0; k < 3; k++) x.b[k] = verif_u8();
    optional<Odd> oo(x), op; op = oo;
    for (int k = 0; k < 3; k++) verif_assert(op->b[k] == x.b[k], "record kept");
    verif_assert(((unsigned long)&*od % alignof(double)) == 0 && (!ol || (unsigned long)&*ol % alignof(long long) == 0), "aligned");
  }
  verif_assert(Mv::live == 0, "every value is destroyed");
  verif_reach("end");
}
