// Harness interface shared by the symbolic engine and the native replay runtime.
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#ifndef NANOSTL__NULLPTR
#define NANOSTL__NULLPTR   // as in the project's own test build
#endif
typedef decltype(nullptr) nullptr_t;

extern "C" {
unsigned char verif_u8(void);            // an arbitrary value
unsigned short verif_u16(void);
unsigned int verif_u32(void);
unsigned long long verif_u64(void);
int verif_choose(int lo, int hi);        // arbitrary value in [lo,hi], case split at once
int verif_range(int lo, int hi);         // arbitrary value in [lo,hi], kept symbolic
void verif_assume(int c);
void verif_assert(int c, const char *msg);
void verif_reach(const char *what);      // vacuity witness
void verif_observe(unsigned long long v);// compared between engine and native runs
long verif_param(int i);                 // job parameter (splits one harness into jobs)
void verif_allow_leaks(void);
long verif_live_heap(void);              // number of live heap blocks
unsigned long long verif_concretize(unsigned long long v);
// Threads (at most 8, the entry is number 0).  A thread can be preempted only where it calls one of these.
int verif_tid(void);
int verif_spawn(void (*fn)(void *), void *arg);
void verif_join(int tid);
void verif_sync(void *o1, void *o2);     // the next step touches these synchronisation objects (0: none)
void verif_await(void *o, unsigned long long *word, unsigned long long val);  // wait until *word == val
unsigned long long verif_wget(unsigned long long *p);          // access to the words of stand-in
void verif_wset(unsigned long long *p, unsigned long long v);  // synchronisation objects
double verif_ref(int f, double x);       // C library reference: 0 exp 1 log 2 log10 3 sin 4 cos 5 tan 6 sinh 7 cosh 8 tanh 9 erf 10 erfc 11 cbrt 12 sqrt
}
static inline float verif_f32(void) { unsigned u = verif_u32(); float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline double verif_f64(void) { unsigned long long u = verif_u64(); double f; __builtin_memcpy(&f, &u, 8); return f; }
static inline unsigned bits_of(float f) { unsigned u; __builtin_memcpy(&u, &f, 4); return u; }
static inline unsigned long long bits_of(double f) { unsigned long long u; __builtin_memcpy(&u, &f, 8); return u; }
static inline float f32_of(unsigned u) { float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline double f64_of(unsigned long long u) { double f; __builtin_memcpy(&f, &u, 8); return f; }
// bit tests on patterns, independent of the code under test
static inline bool nan32(unsigned u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static inline bool nan64(unsigned long long u) { return (u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }

#define ENTRY(name) extern "C" void name(void)

// An element type that owns heap memory: a missing copy, a double destruction or a lost
// destructor call shows up as a memory error, a leak or a wrong value.
struct Tracked {
  int *p;
  static int live;
  Tracked() : p(new int(0)) { live++; }
  Tracked(int v) : p(new int(v)) { live++; }
  Tracked(const Tracked &o) : p(new int(*o.p)) { live++; }
  Tracked &operator=(const Tracked &o) { int v = *o.p; *p = v; return *this; }
  ~Tracked() { delete p; p = 0; live--; }
  int get() const { return *p; }
};
inline bool operator==(const Tracked &a, const Tracked &b) { return *a.p == *b.p; }
inline bool operator!=(const Tracked &a, const Tracked &b) { return *a.p != *b.p; }
inline bool operator<(const Tracked &a, const Tracked &b) { return *a.p < *b.p; }
inline bool operator>(const Tracked &a, const Tracked &b) { return *a.p > *b.p; }
inline bool operator<=(const Tracked &a, const Tracked &b) { return *a.p <= *b.p; }
inline bool operator>=(const Tracked &a, const Tracked &b) { return *a.p >= *b.p; }
#define TRACKED_STATICS int Tracked::live = 0;
#endif
