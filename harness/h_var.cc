#include "verif.h"
#include <new>
#include "nanocstdint.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanovariant.h"
TRACKED_STATICS
struct Mv {
  int *p;
  static int live;
  Mv() : p(new int(0)) { live++; }
  explicit Mv(int v) : p(new int(v)) { live++; }
  Mv(int a, int b) : p(new int((int)((unsigned)a * 3u + (unsigned)b))) { live++; }
  Mv(const Mv &o) : p(o.p ? new int(*o.p) : 0) { live++; }
  Mv(Mv &&o) : p(o.p) { o.p = 0; live++; }
  Mv &operator=(const Mv &o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : 0; } return *this; }
  Mv &operator=(Mv &&o) { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~Mv() { delete p; live--; }
  int get() const { return *p; }
};
int Mv::live;
inline bool operator==(const Mv &a, const Mv &b) { return *a.p == *b.p; }
inline bool operator<(const Mv &a, const Mv &b) { return *a.p < *b.p; }
struct Tr : Tracked { explicit Tr(int v) : Tracked(v) {} };   // no implicit conversion, no default construction
typedef nonstd::variant<int, double, Mv, Tr> V;
enum { NA = 4 };
struct Seen { int idx; unsigned long long bits; };
struct Vis {
  typedef int result_type;
  Seen *s;
  int operator()(int const &x) const { s->idx = 0; s->bits = (unsigned)x; return 10; }
  int operator()(double const &x) const { s->idx = 1; s->bits = bits_of(x); return 11; }
  int operator()(Mv const &x) const { s->idx = 2; s->bits = (unsigned)x.get(); return 12; }
  int operator()(Tr const &x) const { s->idx = 3; s->bits = (unsigned)x.get(); return 13; }
};
struct Vis2 {
  typedef int result_type;
  Seen *s;
  template <class A, class B> int operator()(A const &a, B const &b) const { Vis x = {s}, y = {s + 1}; return x(a) * 100 + y(b); }
};
static unsigned long long content(const V &v, int k) {
  switch (k) {
  case 0: return (unsigned)nonstd::get<int>(v);
  case 1: return bits_of(nonstd::get<double>(v));
  case 2: return (unsigned)nonstd::get<Mv>(v).get();
  default: return (unsigned)nonstd::get<Tr>(v).get();
  }
}
static unsigned long long contentK(V &v, int k) {
  switch (k) {
  case 0: return (unsigned)nonstd::get<0>(v);
  case 1: return bits_of(nonstd::get<1>(v));
  case 2: return (unsigned)nonstd::get<2>(v).get();
  default: return (unsigned)nonstd::get<3>(v).get();
  }
}
struct Hold {
  enum { N = 2 };
  V v[N]; int k[N]; unsigned long long b[N];
  Hold() { for (int i = 0; i < N; i++) { k[i] = 0; b[i] = 0; } }
  void check() {
    int mv = 0, tr = 0;
    for (int i = 0; i < N; i++) {
      const V &c = v[i];
      mv += k[i] == 2; tr += k[i] == 3;
      verif_assert((int)c.index() == k[i] && !c.valueless_by_exception(), "index of the last alternative");
      verif_assert(nonstd::holds_alternative<int>(c) == (k[i] == 0) && nonstd::holds_alternative<double>(c) == (k[i] == 1) && nonstd::holds_alternative<Mv>(c) == (k[i] == 2) && nonstd::holds_alternative<Tr>(c) == (k[i] == 3), "holds_alternative");
      verif_assert((nonstd::get_if<int>(&c) != 0) == (k[i] == 0) && (nonstd::get_if<double>(&c) != 0) == (k[i] == 1) && (nonstd::get_if<Mv>(&c) != 0) == (k[i] == 2) && (nonstd::get_if<Tr>(&c) != 0) == (k[i] == 3), "get_if by type");
      verif_assert((nonstd::get_if<0>(&v[i]) != 0) == (k[i] == 0) && (nonstd::get_if<1>(&v[i]) != 0) == (k[i] == 1) && (nonstd::get_if<2>(&v[i]) != 0) == (k[i] == 2) && (nonstd::get_if<3>(&v[i]) != 0) == (k[i] == 3), "get_if by index");
      verif_assert(content(c, k[i]) == b[i] && contentK(v[i], k[i]) == b[i], "the value given last");
      Seen s = {-1, 0}; Vis w = {&s};
      int r = nonstd::visit(w, c);
      verif_assert(r == 10 + k[i] && s.idx == k[i] && s.bits == b[i], "visit");
    }
    verif_assert(Mv::live == mv && Tracked::live == tr, "one live object per variant");
  }
  void set(int i, int kind, unsigned long long bits) { k[i] = kind; b[i] = kind == 1 ? bits : (unsigned)bits; }
  void step() {
    int op = verif_choose(0, 9), i = verif_choose(0, N - 1);
    if (op <= 3) {   // give an alternative: by copy, by move, by emplace, by construction
      int kind = verif_choose(0, NA - 1);
      unsigned long long u = verif_u64();
      int x = (int)(unsigned)u; double d = f64_of(u);
      switch (op * 4 + kind) {
      case 0: v[i] = x; break;
      case 1: v[i] = d; break;
      case 2: { Mv t(x); v[i] = t; verif_assert(t.get() == x, "copying leaves the source"); break; }
      case 3: { Tr t(x); v[i] = t; verif_assert(t.get() == x, "copying leaves the source"); break; }
      case 4: { int y = x; v[i] = nanostl::move(y); break; }
      case 5: { double e = d; v[i] = nanostl::move(e); break; }
      case 6: v[i] = Mv(x); break;
      case 7: v[i] = Tr(x); break;
      case 8: { int &r = v[i].emplace<int>(x); verif_assert(r == x, "emplace returns the value"); break; }
      case 9: v[i].emplace<1>(d); break;
      case 10: v[i].emplace<Mv>(x); break;
      case 11: v[i].emplace<3>(x); break;
      case 12: { V t(x); v[i] = t; break; }
      case 13: { V t(d); v[i] = nanostl::move(t); break; }
      case 14: { V t(Mv(x, 0)); u = (unsigned)x * 3u; v[i] = t; break; }
      case 15: { Tr q(x); V t(q); v[i] = nanostl::move(t); break; }
      }
      set(i, kind, u);
      return;
    }
    int j = verif_choose(0, N - 1);
    switch (op) {
    case 4: v[i] = v[j]; k[i] = k[j]; b[i] = b[j]; return;
    case 5: {
      v[i] = nanostl::move(v[j]);
      int kk = k[j]; unsigned long long bb = b[j];
      if (i != j) { verif_assert((int)v[j].index() == kk, "a moved-from variant keeps its alternative"); v[j] = 3; set(j, 0, 3); }
      k[i] = kk; b[i] = bb;
      return;
    }
    case 6: case 7: {
      if (op == 6) v[i].swap(v[j]); else swap(v[i], v[j]);
      int kk = k[i]; unsigned long long bb = b[i];
      k[i] = k[j]; b[i] = b[j]; k[j] = kk; b[j] = bb;
      return;
    }
    case 8: {
      V c(v[j]);
      verif_assert((int)c.index() == k[j] && content(c, k[j]) == b[j], "copy construction");
      c = 9;
      verif_assert(content(v[j], k[j]) == b[j], "a copy is independent");
      c = v[j];
      V m(nanostl::move(c));
      verif_assert((int)m.index() == k[j] && content(m, k[j]) == b[j] && (int)c.index() == k[j], "move construction");
      v[i] = m;
      k[i] = k[j]; b[i] = b[j];
      return;
    }
    case 9: {   // write through get
      unsigned x = verif_u32();
      switch (k[i]) {
      case 0: nonstd::get<0>(v[i]) = (int)x; b[i] = x; break;
      case 1: *nonstd::get_if<double>(&v[i]) = 0.5; b[i] = bits_of(0.5); break;
      case 2: nonstd::get<Mv>(v[i]) = Mv((int)x); b[i] = x; break;
      case 3: *nonstd::get<3>(v[i]).p = (int)x; b[i] = x; break;
      }
      return;
    }
    }
  }
};
static void give(Hold &h, int i) {
  int kind = verif_choose(0, NA - 1); unsigned long long u = verif_u64(); int x = (int)(unsigned)u;
  switch (kind) { case 0: h.v[i] = x; break; case 1: h.v[i] = f64_of(u); break; case 2: h.v[i] = Mv(x); break; case 3: h.v[i] = Tr(x); break; }
  h.set(i, kind, u);
}
ENTRY(histories) {
  Mv::live = 0; Tracked::live = 0;
  {
    Hold h;
    h.check();
    if (verif_param(1)) { for (int i = 0; i < Hold::N; i++) give(h, i); h.check(); }
    for (int s = 0; s < verif_param(0); s++) { h.step(); h.check(); }
  }
  verif_assert(Mv::live == 0 && Tracked::live == 0, "every value is destroyed");
  verif_reach("end");
}
// two variants visited together
ENTRY(visit2) {
  Mv::live = 0; Tracked::live = 0;
  {
    Hold h; give(h, 0); give(h, 1);
    Seen s[2]; Vis2 w = {s};
    int r = nonstd::visit(w, h.v[0], h.v[1]);
    verif_assert(r == (10 + h.k[0]) * 100 + 10 + h.k[1], "visited the two alternatives");
    for (int i = 0; i < 2; i++) verif_assert(s[i].idx == h.k[i] && s[i].bits == h.b[i], "with their values");
  }
  verif_assert(Mv::live == 0 && Tracked::live == 0, "every value is destroyed");
  verif_reach("end");
}
static bool lessV(const Hold &h, int a, int b) {
  if (h.k[a] != h.k[b]) return h.k[a] < h.k[b];
  if (h.k[a] == 1) return f64_of(h.b[a]) < f64_of(h.b[b]);
  return (int)(unsigned)h.b[a] < (int)(unsigned)h.b[b];
}
static bool eqV(const Hold &h, int a, int b) {
  if (h.k[a] != h.k[b]) return false;
  if (h.k[a] == 1) return f64_of(h.b[a]) == f64_of(h.b[b]);
  return h.b[a] == h.b[b];
}
ENTRY(comparisons) {
  Hold h; give(h, 0); give(h, 1);
  if (h.k[0] == 1) verif_assume(!nan64(h.b[0]));
  if (h.k[1] == 1) verif_assume(!nan64(h.b[1]));
  V &p = h.v[0], &q = h.v[1];
  bool lt = lessV(h, 0, 1), gt = lessV(h, 1, 0), eq = eqV(h, 0, 1);
  verif_assert((p == q) == eq && (p != q) == !eq && (p < q) == lt && (p > q) == gt && (p <= q) == !gt && (p >= q) == !lt, "index first, then the values");
  verif_reach("end");
}
// sixteen alternatives: every index is handled by construction, assignment, copy, swap, visit, comparison and destruction
static int g_wrong;   // operations applied to an object of another alternative
template <int K> struct A {
  int *p;
  int tag;
  static int live;
  void is() const { if (tag != K) g_wrong++; }
  explicit A(int v = 0) : p(new int(v)), tag(K) { live++; }
  A(const A &o) : p(new int(*o.p)), tag(K) { o.is(); live++; }
  A &operator=(const A &o) { is(); o.is(); *p = *o.p; return *this; }
  ~A() { is(); delete p; live--; }
};
template <int K> int A<K>::live = 0;
template <int K> inline bool operator==(const A<K> &a, const A<K> &b) { a.is(); b.is(); return *a.p == *b.p; }
template <int K> inline bool operator<(const A<K> &a, const A<K> &b) { a.is(); b.is(); return *a.p < *b.p; }
typedef nonstd::variant<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15> > W;
struct VisW { typedef int result_type; template <int K> int operator()(A<K> const &a) const { a.is(); return K * 1000 + *a.p; } };
template <int K> static void wide() {
  {
    int x = verif_range(0, 999), y = verif_range(0, 999);
    A<K> a(x), b(y);
    W v(a), w;
    verif_assert((int)v.index() == K && *nonstd::get<K>(v).p == x && nonstd::get_if<A<K> >(&v) != 0 && nonstd::get_if<K>(&v) != 0, "construction");
    verif_assert((nonstd::get_if<(K + 1) % 16>(&v) == 0) && !nonstd::holds_alternative<A<(K + 5) % 16> >(v), "no other alternative");
    w = v;
    verif_assert((int)w.index() == K && *nonstd::get<A<K> >(w).p == x && w == v && !(w < v), "copy assignment from another alternative");
    w = b;
    verif_assert((v == w) == (x == y) && (v < w) == (x < y), "comparison of equal indices");
    v.swap(w);
    verif_assert(*nonstd::get<K>(v).p == y && *nonstd::get<K>(w).p == x, "swap of equal indices");
    v = w;
    verif_assert(*nonstd::get<K>(v).p == x, "copy assignment of the same alternative");
    W c(v), d(nanostl::move(c));
    verif_assert((int)d.index() == K && *nonstd::get<K>(d).p == x, "copy and move construction");
    W e; e = nanostl::move(d);
    verif_assert((int)e.index() == K && *nonstd::get<K>(e).p == x, "move assignment");
    W f; f.emplace<K>(y); e = nanostl::move(f);
    verif_assert((int)e.index() == K && *nonstd::get<K>(e).p == y, "emplace and move assignment of the same alternative");
    VisW vw;
    verif_assert(nonstd::visit(vw, e) == K * 1000 + y, "visit");
    W g; g.swap(e);
    verif_assert((int)g.index() == K && *nonstd::get<K>(g).p == y && e.index() == 0 && ((g < e) == (K == 0 && y < *nonstd::get<0>(e).p)), "swap of different indices");
  }
  verif_assert(A<K>::live == 0 && A<0>::live == 0, "every value is destroyed");
  verif_assert(g_wrong == 0, "no operation takes an alternative for another");
  verif_reach("end");
}
ENTRY(alternatives) {
  switch (verif_param(0)) {
#define C(K) case K: wide<K>(); break;
    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15)
  }
}
