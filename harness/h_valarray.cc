#include "seq.h"
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanovalarray.h"
#include "nanomath.h"
TRACKED_STATICS
template <class T> struct Val {
  typedef nanostl::valarray<T> V;
  static void step(V &a, Model &ma, V &b, Model &mb, int maxn) {
    int op = verif_choose(0, 12);
    switch (op) {
    case 0: { int k = verif_range(0, maxn); bool fits = (unsigned long long)k <= a.capacity(); T *p = a.data(); a.resize(k); ma.resize(k); if (fits) verif_assert(a.data() == p, "no reallocation while the elements fit"); return; }
    case 1: a.clear(); ma.n = 0; return;
    case 2: if (ma.n) {
      int i = verif_range(0, ma.n - 1);
      typename V::iterator r = a.erase(a.begin() + i);
      ma.erase(i);
      verif_assert(r == a.begin() + i, "erase returns the position of the following element");
      return;
    } return;
    case 3: { T *p = b.data(); a = b; ma = mb; verif_assert(b.data() == p, "assigning from a container leaves its elements in place"); return; }
    case 4: { V &self = a; a = self; return; }
    case 5: { T *p = a.data(); V c(a); verif_assert(a.data() == p, "copying a container leaves its elements in place"); check<V, T>(c, ma); if (ma.n) { c[0] = E<T>::mk(77); c.resize(ma.n + 1); } return; }
    case 6: { Model t = ma; a.swap(b); ma = mb; mb = t; return; }
    case 7: a.swap(a); return;
    case 8: if (ma.n) { int i = verif_range(0, ma.n - 1); int x = arb<T>(); a[i] = E<T>::mk(x); ma.a[i] = x; } return;
    case 9: {
      int k = verif_range(0, maxn); T buf[MAXBUF];
      ma.n = 0;
      for (int i = 0; i < k; i++) { int x = arb<T>(); buf[i] = E<T>::mk(x); ma.push(x); }
      a.assign(buf, buf + k); return;
    }
    case 10: {
      int i = verif_range(0, mb.n), j = verif_range(i, mb.n);
      a.assign(b.begin() + i, b.begin() + j);
      ma.n = 0;
      for (; i < j; i++) ma.push(mb.a[i]);
      return;
    }
    case 11: if (ma.n) { int i = verif_range(0, ma.n - 1), j = verif_range(0, ma.n - 1); a[i] = a[j]; ma.a[i] = ma.a[j]; } return;
    case 12: { int k = verif_range(0, maxn); V c((nanostl::size_type)k); Model mc; mc.resize(k); check<V, T>(c, mc); if (k) c[k - 1] = E<T>::mk(9); return; }
    }
  }
  static void run(int maxcap, int steps, int maxn) {
    {
      V a, b; Model ma, mb;
      check<V, T>(a, ma);
      build<V, T>(a, ma, maxcap);
      check<V, T>(a, ma);
      build<V, T>(b, mb, maxcap < 2 ? maxcap : 2);
      for (int s = 0; s < steps; s++) step(a, ma, b, mb, maxn);
      check<V, T>(a, ma);
      check<V, T>(b, mb);
      verif_observe(a.size());
    }
    verif_reach("end");
  }
  static void history(int steps, int maxn) {
    {
      V a, b; Model ma, mb;
      for (int s = 0; s < steps; s++) { step(a, ma, b, mb, maxn); verif_assert(a.size() == (unsigned long long)ma.n, "size"); }
      check<V, T>(a, ma); check<V, T>(b, mb);
    }
    verif_reach("end");
  }
  static void lng(int n) {
    {
      V a((nanostl::size_type)n); LongModel m; m.resize(n);
      check<V, T>(a, m);
      for (int i = 0; i < n; i++) { int x = arb<T>(); a[i] = E<T>::mk(x); m.a[i] = x; }
      V c(a);
      check<V, T>(c, m);
      V d; d.assign(c.begin(), c.end());   // grows step by step
      check<V, T>(d, m);
      d.resize(n + 5); m.resize(n + 5);
      check<V, T>(d, m);
      d.erase(d.begin() + n / 2); m.erase(n / 2);
      d.resize(n / 3); m.resize(n / 3);
      d.resize(2 * n); m.resize(2 * n);
      check<V, T>(d, m);
    }
    verif_reach("end");
  }
  // sizes beyond what 16 bits count
  static void huge(int n) {
    {
      int x = arb<T>(), y = arb<T>();
      V a((nanostl::size_type)n);
      verif_assert(a.size() == (unsigned long long)n && a.capacity() >= a.size() && !a.empty(), "size");
      a[n - 1] = E<T>::mk(x); a[n / 2] = E<T>::mk(y);
      V c(a);
      a.clear();
      verif_assert(a.empty() && c.size() == (unsigned long long)n, "size");
      verif_assert(E<T>::val(c[n - 1]) == x && E<T>::val(c[n / 2]) == (n / 2 == n - 1 ? x : y) && E<T>::val(c[0]) == 0 && E<T>::val(c[n - 2]) == 0 + (n / 2 == n - 2 ? y : 0), "element");
      c.resize((nanostl::size_type)(n / 2 + 1));
      verif_assert(c.size() == (unsigned long long)(n / 2 + 1) && E<T>::val(c[n / 2]) == y, "resize keeps the first elements");
      verif_assert(c.end() - c.begin() == n / 2 + 1, "begin to end spans size()");
    }
    verif_reach("end");
  }
};
#define DISPATCH(call) \
  switch (verif_param(0)) { \
  case 0: Val<int>::call; break; \
  case 1: Val<unsigned char>::call; break; \
  case 2: Val<Wide>::call; break; \
  case 3: Val<Tracked>::call; break; \
  }
ENTRY(onestep) { DISPATCH(run(verif_param(1), verif_param(2), verif_param(3))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
ENTRY(history) { DISPATCH(history(verif_param(1), verif_param(2))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
ENTRY(longrun) { DISPATCH(lng(verif_param(1))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }

// sin maps elementwise and leaves its argument alone
template <class F> static void sins(int n) {
  {
    nanostl::valarray<F> v((nanostl::size_type)n);
    F x[40];
    int at = n > 3 ? verif_choose(0, n - 1) : -1;
    for (int i = 0; i < n; i++) {
      // every element arbitrary within the range in which the scalar sin is defined behaviour; of more than three elements
      // an arbitrary one, the others fixed and distinct
      F f = (F)(i * 0.37 - 3.1);
      if (n <= 3 || i == at) {
        f = sizeof(F) == 4 ? (F)verif_f32() : (F)verif_f64();
        verif_assume(f > (F)-1.0e4 && f < (F)1.0e4);
      }
      x[i] = f;
      v[i] = f;
    }
    nanostl::valarray<F> r = nanostl::sin(v);
    verif_assert(r.size() == (unsigned)n, "sin keeps the length");
    verif_assert(v.size() == (unsigned)n, "argument length unchanged");
    for (int i = 0; i < n; i++) {
      verif_assert(bits_of(v[i]) == bits_of(x[i]), "argument unchanged");
      verif_assert(bits_of((F)r[i]) == bits_of((F)nanostl::sin(x[i])), "element i is sin of element i");
    }
    if (n) verif_assert(r.data() != v.data(), "result is independent");
  }
  verif_reach("end");
}
ENTRY(vsin) { if (verif_param(0) == 4) sins<float>(verif_param(1)); else sins<double>(verif_param(1)); }
ENTRY(huge) { DISPATCH(huge(verif_param(1))) verif_assert(Tracked::live == 0, "every element destroyed exactly once"); }
