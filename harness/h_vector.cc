#include "seq.h"
#include "nanovector.h"
TRACKED_STATICS
template <class T> struct Vec {
  typedef nanostl::vector<T> V;
  // one arbitrary operation on a (b is the other container)
  static void step(V &a, Model &ma, V &b, Model &mb, int maxn) {
    int op = verif_choose(0, 15);
    switch (op) {
    case 0: { int x = arb<T>(); a.push_back(E<T>::mk(x)); ma.push(x); return; }
    case 1: if (ma.n) { a.pop_back(); ma.n--; } return;
    case 2: { int k = verif_range(0, maxn); bool fits = (unsigned long long)k <= a.capacity(); T *p = a.data(); a.resize(k); ma.resize(k); if (fits) verif_assert(a.data() == p, "no reallocation while the elements fit"); return; }
    case 3: a.clear(); ma.n = 0; return;
    case 4: if (ma.n) {
      int i = verif_range(0, ma.n - 1);
      typename V::iterator r = a.erase(a.begin() + i);
      ma.erase(i);
      verif_assert(r == a.begin() + i, "erase returns the position of the following element");
      return;
    } return;
    case 5: { T *p = b.data(); a = b; ma = mb; verif_assert(b.data() == p, "assigning from a container leaves its elements in place"); return; }
    case 6: { V &self = a; a = self; return; }
    case 7: { T *p = a.data(); V c(a); verif_assert(a.data() == p, "copying a container leaves its elements in place"); check<V, T>(c, ma); if (ma.n) { c[0] = E<T>::mk(77); c.push_back(E<T>::mk(5)); } return; }
    case 8: { Model t = ma; a.swap(b); ma = mb; mb = t; return; }
    case 9: a.swap(a); return;
    case 10: if (ma.n) { int i = verif_range(0, ma.n - 1); int x = arb<T>(); a[i] = E<T>::mk(x); ma.a[i] = x; } return;
    case 11: if (ma.n) { int i = verif_range(0, ma.n - 1); int x = arb<T>(); a.at(i) = E<T>::mk(x); ma.a[i] = x; verif_assert(E<T>::val(((const V &)a).at(i)) == x, "at const"); } return;
    case 12: {   // assign from a plain array
      int k = verif_range(0, maxn); T buf[MAXBUF];
      ma.n = 0;
      for (int i = 0; i < k; i++) { int x = arb<T>(); buf[i] = E<T>::mk(x); ma.push(x); }
      a.assign(buf, buf + k); return;
    }
    case 13: {   // assign from a part of the other container
      int i = verif_range(0, mb.n), j = verif_range(i, mb.n);
      a.assign(b.begin() + i, b.begin() + j);
      ma.n = 0;
      for (; i < j; i++) ma.push(mb.a[i]);
      return;
    }
    case 14: if (ma.n) { int i = verif_range(0, ma.n - 1); a.push_back(a[i]); ma.push(ma.a[i]); } return;   // own element
    case 15: if (ma.n) { int i = verif_range(0, ma.n - 1), j = verif_range(0, ma.n - 1); a[i] = a[j]; ma.a[i] = ma.a[j]; } return;
    }
  }
  static void run(int maxcap, int steps, int maxn) {
    {
      V a, b; Model ma, mb;
      check<V, T>(a, ma);
      build<V, T>(a, ma, maxcap);
      check<V, T>(a, ma);
      build<V, T>(b, mb, maxcap < 2 ? maxcap : 2);
      for (int s = 0; s < steps; s++) step(a, ma, b, mb, maxn);
      check<V, T>(a, ma);
      check<V, T>(b, mb);
      verif_observe(a.size());
    }
    verif_reach("end");
  }
  // histories from the empty vectors
  static void history(int steps, int maxn) {
    {
      V a, b; Model ma, mb;
      for (int s = 0; s < steps; s++) {
        step(a, ma, b, mb, maxn);
        verif_assert(a.size() == (unsigned long long)ma.n, "size");
      }
      check<V, T>(a, ma); check<V, T>(b, mb);
    }
    verif_reach("end");
  }
  static void lng(int n) {
    {
      V a; LongModel m;
      for (int i = 0; i < n; i++) {
        int x = arb<T>();
        a.push_back(E<T>::mk(x)); m.push(x);
        verif_assert(a.capacity() >= a.size(), "capacity");
      }
      check<V, T>(a, m);
      V c(a);
      check<V, T>(c, m);
      int k = verif_range(0, 1) ? n / 2 : 0;
      a.resize(k); m.resize(k);
      for (int i = 0; i < 3; i++) { int x = arb<T>(); a.push_back(E<T>::mk(x)); m.push(x); }
      a.erase(a.begin()); m.erase(0);
      a.resize(n + 7); m.resize(n + 7);
      check<V, T>(a, m);
    }
    verif_reach("end");
  }
  // sizes beyond what 16 bits count
  static void huge(int n) {
    {
      int x = arb<T>(), y = arb<T>(), z = arb<T>();
      V a;
      a.resize((nanostl::size_type)n);
      verif_assert(a.size() == (unsigned long long)n && a.capacity() >= a.size() && !a.empty(), "size");
      a[n - 1] = E<T>::mk(x); a[n / 2] = E<T>::mk(y);
      a.push_back(E<T>::mk(z));
      verif_assert(a.size() == (unsigned long long)n + 1 && E<T>::val(a[n]) == z && E<T>::val(a[n - 1]) == x && E<T>::val(a[n / 2]) == y, "push_back appends");
      a.pop_back();
      V c(a);
      a.clear();
      verif_assert(a.empty() && c.size() == (unsigned long long)n, "size");
      verif_assert(E<T>::val(c[n - 1]) == x && E<T>::val(c[n / 2]) == (n / 2 == n - 1 ? x : y) && E<T>::val(c[0]) == 0 && E<T>::val(c[n - 2]) == 0 + (n / 2 == n - 2 ? y : 0), "element");
      c.resize((nanostl::size_type)(n / 2 + 1));
      verif_assert(c.size() == (unsigned long long)(n / 2 + 1) && E<T>::val(c[n / 2]) == y, "resize keeps the first elements");
      verif_assert(c.end() - c.begin() == n / 2 + 1, "begin to end spans size()");
    }
    verif_reach("end");
  }
};
#define DISPATCH(call) \
  switch (verif_param(0)) { \
  case 0: Vec<int>::call; break; \
  case 1: Vec<unsigned char>::call; break; \
  case 2: Vec<Wide>::call; break; \
  case 3: Vec<Tracked>::call; break; \
  }
ENTRY(onestep) { DISPATCH(run(verif_param(1), verif_param(2), verif_param(3))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
ENTRY(history) { DISPATCH(history(verif_param(1), verif_param(2))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
ENTRY(longrun) { DISPATCH(lng(verif_param(1))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
ENTRY(huge) { DISPATCH(huge(verif_param(1))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
