// Sequence containers (vector, valarray) against a mathematical sequence.
// State space: a container is determined by (capacity, size, elements).  `build` reaches every
// (capacity, size <= capacity) with arbitrary elements through the public interface only; `step`
// applies an arbitrary operation with arbitrary arguments and compares with the model sequence.
#ifndef SEQ_H
#define SEQ_H
#include "verif.h"
enum { MAXM = 400, MAXBUF = 32 };
template <int C> struct ModelOf {
  int n;
  int a[C];
  ModelOf() : n(0) {}
  ModelOf(const ModelOf &o) : n(o.n) { for (int i = 0; i < n; i++) a[i] = o.a[i]; }
  void operator=(const ModelOf &o) { n = o.n; for (int i = 0; i < n; i++) a[i] = o.a[i]; }
  void push(int x) { a[n++] = x; }
  void erase(int i) { for (; i + 1 < n; i++) a[i] = a[i + 1]; n--; }
  void resize(int k) { for (int i = n; i < k; i++) a[i] = 0; n = k; }
};
typedef ModelOf<MAXM> Model;
typedef ModelOf<70000> LongModel;
// element adapters: E<T>::mk(int), E<T>::val(const T&)
template <class T> struct E { static T mk(int x) { return (T)x; } static int val(const T &t) { return (int)t; } static int norm(int x) { return (int)(T)x; } };
template <> struct E<Tracked> { static Tracked mk(int x) { return Tracked(x); } static int val(const Tracked &t) { return t.get(); } static int norm(int x) { return x; } };
struct Wide {   // 24 bytes, padding inside
  char tag; int v; double d; 
  Wide() : tag('w'), v(0), d(0) {}
  Wide(int x) : tag('w'), v(x), d(0) {}
};
template <> struct E<Wide> { static Wide mk(int x) { return Wide(x); } static int val(const Wide &t) { return t.v; } static int norm(int x) { return x; } };

template <class V, class T, class M> void check(V &v, const M &m) {
  verif_assert(v.size() == (unsigned long long)m.n, "size");
  verif_assert(v.empty() == (m.n == 0), "empty() iff size is 0");
  verif_assert(v.capacity() >= v.size(), "capacity >= size");
  typename V::iterator it = v.begin();
  for (int i = 0; i < m.n; i++, ++it) {
    verif_assert(it != v.end(), "iteration ends early");
    verif_assert(E<T>::val(*it) == m.a[i], "element through iterator");
    verif_assert(&v[i] == &*it, "operator[] and iterator name the same element");
    verif_assert(E<T>::val(v[i]) == m.a[i], "element");
  }
  verif_assert(it == v.end(), "iteration ends after size() elements");
  const V &c = v;
  for (int i = 0; i < m.n; i++) verif_assert(E<T>::val(c[i]) == m.a[i], "element through const reference");
  if (m.n) verif_assert(v.data() == &v[0], "data()");
}
template <class T> int arb() { return E<T>::norm((int)verif_u32()); }
// every reachable (capacity, size) shape up to maxcap, arbitrary elements
template <class V, class T> void build(V &v, Model &m, int maxcap) {
  int cap = verif_range(0, maxcap);
  v.resize(cap);
  int n = verif_range(0, cap);
  v.resize(n);
  m.n = n;
  for (int i = 0; i < n; i++) { m.a[i] = arb<T>(); v[i] = E<T>::mk(m.a[i]); }
}
#endif
