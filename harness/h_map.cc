#define NANOSTL_STRING_IMPLEMENTATION
#include "verif.h"
#include "nanostring.h"
#include "nanomap.h"
TRACKED_STATICS
typedef nanostl::string S;
// model: association list, insertion order
template <class V> struct Model {
  int n; int k[16]; V v[16];
  Model() : n(0) {}
  int at(int key) const { for (int i = 0; i < n; i++) if (k[i] == key) return i; return -1; }
  // smallest key above q, or -1
  int above(int q) const { int r = -1; for (int i = 0; i < n; i++) if (k[i] > q && (r < 0 || k[i] < k[r])) r = i; return r; }
  int below_count(int q) const { int c = 0; for (int i = 0; i < n; i++) c += k[i] < q; return c; }
};
// key and value types, always backed by an int
template <class K> struct Conv { static K mk(int v) { return (K)v; } static int get(const K &k) { return (int)k; } static int arb() { return (int)verif_u32(); } };
template <> struct Conv<unsigned char> { static unsigned char mk(int v) { return (unsigned char)v; } static int get(unsigned char k) { return k; } static int arb() { return verif_u8(); } };
template <> struct Conv<long long> { static long long mk(int v) { return (long long)v * 4294967296ll; } static int get(long long k) { return (int)(k >> 32); } static int arb() { return (int)verif_u32(); } };
template <> struct Conv<Tracked> { static Tracked mk(int v) { return Tracked(v); } static int get(const Tracked &t) { return t.get(); } static int arb() { return (int)verif_u32(); } };
template <> struct Conv<S> {   // one-character strings
  static S mk(int v) { char b[2] = {(char)v, 0}; return S((const char *)b); }
  static int get(const S &s) { return (unsigned char)s[0]; }
  static int arb() { int v = verif_u8(); verif_assume(v != 0); return v; }
};
// other maps share the priority generator: advance it through the public interface
static void burn(int n) { nanostl::map<int, int> d; for (int i = 0; i < n; i++) d.insert(nanostl::map<int, int>::value_type(i, 0)); }

template <class K, class V> static void check(nanostl::map<K, V> &m, const Model<int> &t, int q) {
  typedef nanostl::map<K, V> M;
  const M &c = m;
  verif_assert(c.empty() == (t.n == 0), "empty()");
  for (int i = 0; i < t.n; i++) {
    typename M::iterator f = c.find(Conv<K>::mk(t.k[i]));
    verif_assert(!(f == c.end()) && f != c.end() && !f.isEnd(), "find() finds a present key");
    verif_assert(Conv<K>::get(f->first) == t.k[i] && Conv<V>::get((*f).second) == t.v[i], "find() gives the entry");
    verif_assert(&f->second == &m.find(Conv<K>::mk(t.k[i]))->second, "one entry per key");
  }
  int a = t.at(q);
  typename M::iterator f = m.find(Conv<K>::mk(q)), u = m.upper_bound(Conv<K>::mk(q));
  verif_assert((f == m.end()) == (a < 0) && (f != m.end()) == (a >= 0), "find() of an arbitrary key");
  int b = t.above(q);
  verif_assert((u == m.end()) == (b < 0), "upper_bound() is end exactly when no key is greater");
  if (b >= 0) verif_assert(Conv<K>::get(u->first) == t.k[b] && Conv<V>::get(u->second) == t.v[b], "upper_bound() is the first greater key");
  int cnt = 0; bool first = true; int prev = 0;
  for (typename M::iterator it = m.begin(); it != m.end(); ++it) {
    int k = Conv<K>::get(it->first), j = t.at(k);
    verif_assert(j >= 0, "iteration visits only present keys");
    verif_assert(Conv<V>::get(it->second) == t.v[j], "iteration gives the mapped value");
    verif_assert(first || prev < k, "iteration is in ascending key order");
    first = false; prev = k; cnt++;
    verif_assert(cnt <= t.n, "iteration ends");
  }
  verif_assert(cnt == t.n, "iteration visits every entry");
}
template <class K, class V> static void step(nanostl::map<K, V> &m, Model<int> &t) {
  typedef nanostl::map<K, V> M;
  int k = Conv<K>::arb(), v = Conv<V>::arb(), j = t.at(k);
  switch (verif_choose(0, 2)) {
  case 0: {
    typename M::pair_iterator_bool r = m.insert(typename M::value_type(Conv<K>::mk(k), Conv<V>::mk(v)));
    verif_assert(r.second == (j < 0), "insert reports whether it inserted");
    if (j < 0) { j = t.n++; t.k[j] = k; t.v[j] = v; }
    verif_assert(Conv<K>::get(r.first->first) == k && Conv<V>::get(r.first->second) == t.v[j], "insert returns the entry and never overwrites");
    break;
  }
  case 1: m[Conv<K>::mk(k)] = Conv<V>::mk(v); if (j < 0) { j = t.n++; t.k[j] = k; } t.v[j] = v; break;
  case 2: {
    V &r = m[Conv<K>::mk(k)];
    if (j < 0) { j = t.n++; t.k[j] = k; t.v[j] = 0; }
    verif_assert(Conv<V>::get(r) == t.v[j], "operator[] gives the mapped value, value-initialised if new");
    break;
  }
  }
}
template <class K, class V> static void hist() {
  burn(verif_param(1));
  {
    nanostl::map<K, V> m; Model<int> t;
    { int q = Conv<K>::arb(); check(m, t, q); }
    for (int i = 0; i < verif_param(2); i++) step(m, t);
    int q = Conv<K>::arb();
    check(m, t, q);
    verif_observe(t.n);
  }
  verif_reach("end");
}
ENTRY(history) {
  switch (verif_param(0)) {
  case 0: hist<int, int>(); break;
  case 1: hist<unsigned char, int>(); break;
  case 2: hist<long long, int>(); break;
  case 3: hist<S, int>(); break;
  case 4: hist<Tracked, Tracked>(); break;
  default: hist<int, Tracked>(); break;
  }
}
// only insert, so longer histories stay cheap
ENTRY(inserts) {
  burn(verif_param(0));
  {
    nanostl::map<int, int> m; Model<int> t;
    for (int i = 0; i < verif_param(1); i++) {
      int k = (int)verif_u32(), v = (int)verif_u32(), j = t.at(k);
      nanostl::map<int, int>::pair_iterator_bool r = m.insert(nanostl::map<int, int>::value_type(k, v));
      verif_assert(r.second == (j < 0), "insert reports whether it inserted");
      if (j < 0) { t.k[t.n] = k; t.v[t.n++] = v; }
    }
    check(m, t, (int)verif_u32());
  }
  verif_reach("end");
}
// many fixed keys in a given order, one arbitrary query and arbitrary values
ENTRY(longrun) {
  burn(verif_param(0));
  {
    int n = verif_param(1), order = verif_param(2);
    nanostl::map<int, int> m;
    int v[64];
    for (int i = 0; i < n; i++) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 37) % n;
      v[k] = (int)verif_u32();
      if (i & 1) m[10 * k] = v[k];
      else verif_assert(m.insert(nanostl::map<int, int>::value_type(10 * k, v[k])).second, "inserted");
    }
    int k = 0;
    for (nanostl::map<int, int>::iterator it = m.begin(); it != m.end(); ++it, ++k)
      verif_assert(k < n && it->first == 10 * k && it->second == v[k], "iteration in order");
    verif_assert(k == n, "iteration visits every entry");
    int q = (int)verif_u32();
    nanostl::map<int, int>::iterator f = m.find(q), u = m.upper_bound(q);
    bool present = q >= 0 && q < 10 * n && q % 10 == 0;
    verif_assert((f != m.end()) == present, "find()");
    if (present) verif_assert(f->first == q, "find() key");
    int w = q < 0 ? 0 : q >= 10 * (n - 1) ? n : q / 10 + 1;
    verif_assert((u == m.end()) == (w == n), "upper_bound() end");
    if (w < n) verif_assert(u->first == 10 * w, "upper_bound() key");
  }
  verif_reach("end");
}
// ---- ownership
template <class K, class V> static void own() {
  burn(verif_param(1));
  {
    typedef nanostl::map<K, V> M;
    M a; Model<int> ta;
    for (int i = 0; i < verif_param(2); i++) step(a, ta);
    int q = Conv<K>::arb();   // one arbitrary query key for all comparisons
    switch (verif_param(4)) {
    case 0: {          // copy, then change the copy
      M *b = new M(a); Model<int> tb = ta;
      check(*b, tb, q);
      for (int i = 0; i < verif_param(3); i++) step(*b, tb);
      check(*b, tb, q); check(a, ta, q);
      delete b;
      check(a, ta, q);
      break;
    }
    case 1: {          // copy, change and destroy the original
      M *c = new M(a); M b(*c); Model<int> tc = ta;
      for (int i = 0; i < verif_param(3); i++) step(*c, tc);
      check(*c, tc, q);
      delete c;
      check(b, ta, q);
      break;
    }
    case 2: {          // assign over other contents
      M b; Model<int> tb;
      for (int i = 0; i < verif_param(3); i++) step(b, tb);
      M &r = (b = a);
      verif_assert(&r == &b, "assignment returns the target");
      tb = ta;
      step(b, tb);
      check(b, tb, q); check(a, ta, q);
      break;
    }
    case 3: { M &self = a; a = self; check(a, ta, q); step(a, ta); check(a, ta, q); break; }
    case 4: {          // references stay valid across later insertions
      int k = Conv<K>::arb(), w = Conv<V>::arb();
      V &r = a[Conv<K>::mk(k)];
      int j = ta.at(k);
      if (j < 0) { j = ta.n++; ta.k[j] = k; }
      r = Conv<V>::mk(w); ta.v[j] = w;
      for (int i = 0; i < verif_param(3); i++) step(a, ta);
      verif_assert(Conv<V>::get(r) == ta.v[j], "reference still shows the entry");
      verif_assert(&r == &a.find(Conv<K>::mk(k))->second, "entry has not moved");
      r = Conv<V>::mk(7); ta.v[j] = 7;
      check(a, ta, q);
      break;
    }
    case 5: {          // chained copies, assignment of an empty map
      M b(a), c; c = b; b = M(); Model<int> e;
      check(b, e, q); check(c, ta, q);
      M d(b); check(d, e, q);
      break;
    }
    }
    verif_observe(ta.n);
  }
  verif_assert(Tracked::live == 0, "every key and value object destroyed exactly once");
  verif_reach("end");
}
ENTRY(ownership) {
  switch (verif_param(0)) {
  case 0: own<Tracked, Tracked>(); break;
  case 1: own<int, Tracked>(); break;
  case 2: own<S, Tracked>(); break;
  default: own<int, int>(); break;
  }
}
