#include "verif.h"
#include <new>
#include "nanocstdint.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanosstream.h"
#include "nanotuple.h"
TRACKED_STATICS
// ---- stringstream ----
struct Txt { char c[1400]; int n; Txt() : n(0) { c[0] = 0; } };
static nanostl::string mk(Txt &t, int maxlen) {
  t.n = verif_choose(0, maxlen);
  for (int i = 0; i < t.n; i++) { t.c[i] = (char)verif_u8(); verif_assume(t.c[i] != 0); }
  t.c[t.n] = 0;
  return nanostl::string(t.c);
}
static bool same(const nanostl::string &s, const Txt &t) {
  if ((int)s.size() != t.n) return false;
  bool ok = true;
  for (int i = 0; i < t.n; i++) ok &= s[i] == t.c[i];
  return ok & (s.c_str()[t.n] == 0);
}
static void app(Txt &a, const Txt &b) { for (int i = 0; i < b.n; i++) a.c[a.n + i] = b.c[i]; a.n += b.n; a.c[a.n] = 0; }
ENTRY(sstream) {
  {
    int steps = (int)verif_param(0), len = (int)verif_param(1);
    nanostl::stringstream ss[2]; Txt m[2];
    for (int k = 0; k < steps; k++) {
      int op = verif_choose(0, 5), i = verif_choose(0, 1);
      Txt t;
      switch (op) {
      case 0: { nanostl::string s = mk(t, len); nanostl::stringstream &r = (ss[i] << s); verif_assert(&r == &ss[i], "<< returns the stream"); verif_assert(same(s, t), "inserting leaves the string"); app(m[i], t); break; }
      case 1: { Txt u; nanostl::string s = mk(t, len), q = mk(u, 1); ss[i] << s << q; verif_assert(same(s, t) && same(q, u), "inserting leaves the strings"); app(m[i], t); app(m[i], u); break; }
      case 2: ss[i].clear(); m[i] = Txt(); break;
      case 3: ss[i] = nanostl::move(ss[1 - i]); m[i] = m[1 - i]; m[1 - i] = Txt(); break;
      case 4: { nanostl::string s = mk(t, len); ss[i].str() = s; m[i] = t; break; }
      case 5: { Txt c = m[1 - i]; ss[i] << ss[1 - i].str(); app(m[i], c); break; }
      }
      for (int j = 0; j < 2; j++) verif_assert(same(ss[j].str(), m[j]), "str() is the concatenation of what was inserted");
    }
  }
  verif_reach("end");
}
// inserting its own text, and one long text
ENTRY(sstream_own) {
  {
    Txt t; nanostl::stringstream a;
    nanostl::string s = mk(t, (int)verif_param(0));
    a << s; a << a.str();
    Txt d = t; app(d, t);
    verif_assert(same(a.str(), d), "its own text is doubled");
    a << s; app(d, t);
    verif_assert(same(a.str(), d) && same(s, t), "and can be extended");
  }
  verif_reach("end");
}
// a run of many insertions of fixed lengths into one stream, arbitrary characters
ENTRY(sstream_long) {
  int n = (int)verif_param(0), len = (int)verif_param(1);
  {
    nanostl::stringstream a, b;
    Txt m;
    for (int k = 0; k < n; k++) {
      int l = (int)((k * 7 + len) % (len + 1));
      Txt t;
      for (int i = 0; i < l; i++) { t.c[i] = (char)verif_u8(); verif_assume(t.c[i] != 0); }
      t.n = l; t.c[l] = 0;
      nanostl::string s(t.c);
      a << s; app(m, t);
      verif_assert(same(s, t), "inserting leaves the string");
    }
    verif_assert(same(a.str(), m), "str() is the concatenation of what was inserted");
    b = nanostl::move(a);
    verif_assert(same(b.str(), m) && a.str().size() == 0, "move assignment transfers the text");
    b.clear();
    verif_assert(b.str().size() == 0, "clear empties the stream");
  }
  verif_reach("end");
}
// ---- pair ----
template <class T> struct G { static T mk(unsigned u) { return T((int)u); } static long long key(const T &t) { return t.get(); } };
template <> struct G<int> { static int mk(unsigned u) { return (int)u; } static long long key(const int &t) { return t; } };
template <> struct G<unsigned> { static unsigned mk(unsigned u) { return u; } static long long key(const unsigned &t) { return t; } };
template <> struct G<signed char> { static signed char mk(unsigned u) { return (signed char)u; } static long long key(const signed char &t) { return t; } };
template <class A, class B> static void pairs() {
  unsigned a = verif_u32(), b = verif_u32(), c = verif_u32(), d = verif_u32();
  {
    typedef nanostl::pair<A, B> P;
    A x = G<A>::mk(a), z = G<A>::mk(c); B y = G<B>::mk(b), w = G<B>::mk(d);
    P p(x, y), q = nanostl::make_pair(z, w), e;
    long long ka = G<A>::key(x), kb = G<B>::key(y), kc = G<A>::key(z), kd = G<B>::key(w);
    verif_assert(G<A>::key(p.first) == ka && G<B>::key(p.second) == kb && G<A>::key(q.first) == kc && G<B>::key(q.second) == kd, "the components given");
    verif_assert((p == q) == (ka == kc && kb == kd), "== exactly when all components are equal");
    bool lt = ka < kc || (ka == kc && kb < kd), gt = ka > kc || (ka == kc && kb > kd);
    verif_assert((p < q) == lt && (q < p) == gt, "< is lexicographic");
    verif_assert(!(p < p) && p == p, "irreflexive");
    e = p; P f(p);
    verif_assert(e == p && f == p, "copies are equal");
    e.first = z; e.second = w;
    verif_assert(e == q && G<A>::key(p.first) == ka && G<B>::key(p.second) == kb && f == p, "copies are independent");
    nanostl::swap(p, q);
    verif_assert(G<A>::key(p.first) == kc && G<B>::key(p.second) == kd && G<A>::key(q.first) == ka && G<B>::key(q.second) == kb, "swap exchanges the components");
    nanostl::swap(p, p);
    verif_assert(G<A>::key(p.first) == kc && G<B>::key(p.second) == kd, "swap with itself");
  }
  verif_reach("end");
}
ENTRY(pair) {
  switch (verif_param(0)) {
  case 0: pairs<int, int>(); break;
  case 1: pairs<unsigned, signed char>(); break;
  case 2: pairs<Tracked, int>(); break;
  case 3: pairs<signed char, Tracked>(); break;
  }
}
// the order laws for three pairs, with components that are only equivalent, not equal
struct Eqv { unsigned char k, extra; };
inline bool operator<(const Eqv &a, const Eqv &b) { return a.k < b.k; }
inline bool operator==(const Eqv &a, const Eqv &b) { return a.k == b.k; }
ENTRY(pairlaws) {
  typedef nanostl::pair<Eqv, int> P;
  P p[3];
  for (int i = 0; i < 3; i++) { p[i].first.k = verif_u8(); p[i].first.extra = verif_u8(); p[i].second = (int)verif_u32(); }
  verif_assert(!(p[0] < p[1] && p[1] < p[0]), "asymmetric");
  verif_assert(!(p[0] < p[1] && p[1] < p[2]) || p[0] < p[2], "transitive");
  bool e01 = !(p[0] < p[1]) && !(p[1] < p[0]), e12 = !(p[1] < p[2]) && !(p[2] < p[1]), e02 = !(p[0] < p[2]) && !(p[2] < p[0]);
  verif_assert(!(e01 && e12) || e02, "equivalence is transitive");
  verif_assert(e01 == (p[0] == p[1]), "equivalence is equality");
  verif_reach("end");
}
// swap of objects and of arrays
ENTRY(swaps) {
  {
    int a = (int)verif_u32(), b = (int)verif_u32(), x = a, y = b;
    nanostl::swap(x, y);
    verif_assert(x == b && y == a, "scalars");
    Tracked s(a), t(b);
    nanostl::swap(s, t);
    verif_assert(s.get() == b && t.get() == a, "objects");
    int u[3], v[3], cu[3], cv[3];
    for (int i = 0; i < 3; i++) { u[i] = cu[i] = (int)verif_u32(); v[i] = cv[i] = (int)verif_u32(); }
    nanostl::swap(u, v);
    for (int i = 0; i < 3; i++) verif_assert(u[i] == cv[i] && v[i] == cu[i], "arrays");
    Tracked p[2], q[2];
    p[0] = Tracked(a); q[1] = Tracked(b);
    nanostl::swap(p, q);
    verif_assert(p[0].get() == 0 && p[1].get() == b && q[0].get() == a && q[1].get() == 0, "arrays of objects");
  }
  verif_assert(Tracked::live == 0, "balanced");
  verif_reach("end");
}
// ---- tuple ----
struct Empty {};
inline bool operator==(const Empty &, const Empty &) { return true; }
inline bool operator<(const Empty &, const Empty &) { return false; }
template <class A, class B, class C> static void tuples() {
  unsigned r[6]; for (int i = 0; i < 6; i++) r[i] = verif_u32();
  {
    typedef tao::tuple<A, B, C> T;
    A a = G<A>::mk(r[0]), d = G<A>::mk(r[3]); B b = G<B>::mk(r[1]), e = G<B>::mk(r[4]); C c = G<C>::mk(r[2]), f = G<C>::mk(r[5]);
    long long k[6] = {G<A>::key(a), G<B>::key(b), G<C>::key(c), G<A>::key(d), G<B>::key(e), G<C>::key(f)};
    T s(a, b, c), t = tao::make_tuple(d, e, f);
#define KEYS(t) (G<A>::key(tao::get<0>(t)))
#define HAS(t, i) (G<A>::key(tao::get<0>(t)) == k[i] && G<B>::key(tao::get<1>(t)) == k[i + 1] && G<C>::key(tao::get<2>(t)) == k[i + 2])
    const T &cs = s;
    verif_assert(HAS(s, 0) && HAS(t, 3) && HAS(cs, 0), "the components given");
    bool eq = k[0] == k[3] && k[1] == k[4] && k[2] == k[5];
    bool lt = k[0] < k[3] || (k[0] == k[3] && (k[1] < k[4] || (k[1] == k[4] && k[2] < k[5])));
    bool gt = k[0] > k[3] || (k[0] == k[3] && (k[1] > k[4] || (k[1] == k[4] && k[2] > k[5])));
    verif_assert((s == t) == eq, "== exactly when all components are equal");
    verif_assert((s != t) == !eq, "!=");
    verif_assert((s < t) == lt, "< is lexicographic");
    verif_assert((s > t) == gt, ">");
    verif_assert((s <= t) == !gt, "<=");
    verif_assert((s >= t) == !lt, ">=");
    T u(s), v(nanostl::move(u));
    verif_assert(HAS(v, 0) && HAS(s, 0), "copy and move");
    v = t;
    verif_assert(HAS(v, 3) && HAS(s, 0), "assignment copies");
    v = nanostl::move(s); s = v;
    verif_assert(HAS(v, 0) && HAS(s, 0), "move assignment");
    s.swap(t);
    verif_assert(HAS(s, 3) && HAS(t, 0), "swap");
    swap(s, t);
    verif_assert(HAS(s, 0) && HAS(t, 3), "free swap");
    tao::get<0>(s) = d; tao::get<1>(s) = e; tao::get<2>(s) = f;
    verif_assert(HAS(s, 3) && HAS(v, 0), "writing through get");
    A x = G<A>::mk(0); B y = G<B>::mk(0); C z = G<C>::mk(0);
    tao::tie(x, y, z) = v;
    verif_assert(G<A>::key(x) == k[0] && G<B>::key(y) == k[1] && G<C>::key(z) == k[2], "tie");
    tao::tuple<A, B, C, A, B, C> w = tao::tuple_cat(v, t);
    verif_assert(HAS(w, 0) && G<A>::key(tao::get<3>(w)) == k[3] && G<B>::key(tao::get<4>(w)) == k[4] && G<C>::key(tao::get<5>(w)) == k[5], "tuple_cat");
    verif_assert(tao::tuple_size<T>::value == 3 && (tao::make_tuple() == tao::tuple<>()), "size");
  }
  verif_reach("end");
}
ENTRY(tuple) {
  switch (verif_param(0)) {
  case 0: tuples<int, int, int>(); break;
  case 1: tuples<unsigned, signed char, int>(); break;
  case 2: tuples<Tracked, int, Tracked>(); break;
  case 3: tuples<signed char, signed char, Tracked>(); break;
  }
  verif_assert(Tracked::live == 0, "balanced");
}
ENTRY(tuplelaws) {
  typedef tao::tuple<Eqv, signed char, Eqv> T;
  Eqv a[6]; signed char m[3];
  for (int i = 0; i < 6; i++) { a[i].k = verif_u8(); a[i].extra = verif_u8(); }
  for (int i = 0; i < 3; i++) m[i] = (signed char)verif_u8();
  T p(a[0], m[0], a[1]), q(a[2], m[1], a[3]), r(a[4], m[2], a[5]);
  verif_assert(!(p < q && q < p), "asymmetric");
  verif_assert(!(p < q && q < r) || p < r, "transitive");
  bool e01 = !(p < q) && !(q < p), e12 = !(q < r) && !(r < q), e02 = !(p < r) && !(r < p);
  verif_assert(!(e01 && e12) || e02, "equivalence is transitive");
  verif_assert(e01 == (p == q), "equivalence is equality");
  verif_reach("end");
}
// references, empty components, singletons and pairs of tuples
ENTRY(tuplemisc) {
  int a = (int)verif_u32(), b = (int)verif_u32();
  int x = a;
  tao::tuple<int &, Empty, int> t(x, Empty(), b);
  verif_assert(tao::get<0>(t) == a && tao::get<2>(t) == b && &tao::get<0>(t) == &x, "a reference component refers");
  tao::get<0>(t) = b;
  verif_assert(x == b, "writing through a reference component");
  tao::tuple<int> s(a), u(b);
  verif_assert((s < u) == (a < b) && (s == u) == (a == b) && (s >= u) == (a >= b), "single component");
  tao::tuple<Empty, int> e1(Empty(), a), e2(Empty(), b);
  verif_assert((e1 == e2) == (a == b) && (e1 < e2) == (a < b), "empty component");
  int p = 1, q = 2;
  tao::tie(p, q) = tao::make_tuple(a, b);
  verif_assert(p == a && q == b, "tie");
  tao::tuple<int, long long> d;
  verif_assert(tao::get<0>(d) == 0 && tao::get<1>(d) == 0, "default components are zero");
  verif_assert(tao::get<long long>(tao::make_tuple(a, (long long)b)) == b, "get by type");
  tao::tuple<int, tao::tuple<int, int> > n(a, tao::tuple<int, int>(b, a));
  verif_assert(tao::get<0>(tao::get<1>(n)) == b && tao::get<1>(tao::get<1>(n)) == a, "nested");
  verif_reach("end");
}
