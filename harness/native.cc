// Native runtime: replays one sequence of inputs through the real code.
//   ./prog ENTRY INPUTS [param,param...]
// exit 0: ran to completion; 99: assertion failed; 98: leak or misuse of the heap; 77: assumption not met
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>

static std::vector<std::pair<unsigned, unsigned long long>> *in;
static size_t pos;
static std::vector<long> *params;
static bool armed, allowLeaks;
struct Blk { size_t n; char kind; };
struct Rec { void *p; size_t n; char kind; bool live; };
static Rec *recs; static size_t nrec, crec;
struct Fill { unsigned seq, off; unsigned char v; };
static Fill *fills; static size_t nfill;
static unsigned seqNo;
static int quiet;
static unsigned char fillByte = 0xAB;

static void fail(int code, const char *what, const char *msg) {
  fprintf(stderr, "%s: %s\n", what, msg);
  fflush(stdout); fflush(stderr);
  _exit(code);
}
static void *trackedAlloc(size_t n, char kind) {
  if (armed && n > (1ull << 28)) fail(98, "HEAP", "allocation request too large");
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  if (!armed) return p;
  memset(p, fillByte, n);
  for (size_t i = 0; i < nfill; i++) if (fills[i].seq == seqNo && fills[i].off < n) ((unsigned char *)p)[fills[i].off] = fills[i].v;
  seqNo++;
  if (nrec == crec) { crec = crec ? crec * 2 : 1024; recs = (Rec *)realloc(recs, crec * sizeof(Rec)); }
  recs[nrec++] = Rec{p, n, kind, true};
  return p;
}
static void trackedFree(void *p, char kind) {
  if (!p) return;
  if (!armed) { free(p); return; }
  for (size_t i = nrec; i-- > 0;) if (recs[i].p == p) {
    if (!recs[i].live) fail(98, "HEAP", "double free");
    if (recs[i].kind != kind) fail(98, "HEAP", "new/delete kind mismatch");
    recs[i].live = false;
    free(p);   // ASan keeps it in quarantine
    return;
  }
  fail(98, "HEAP", "release of a pointer that was never allocated");
}
#ifndef VERIF_TSAN   // ThreadSanitizer brings its own
void *operator new(size_t n) { return trackedAlloc(n, 'n'); }
void *operator new[](size_t n) { return trackedAlloc(n, 'a'); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return trackedAlloc(n, 'n'); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return trackedAlloc(n, 'a'); }
void operator delete(void *p) noexcept { trackedFree(p, 'n'); }
void operator delete[](void *p) noexcept { trackedFree(p, 'a'); }
void operator delete(void *p, size_t) noexcept { trackedFree(p, 'n'); }
void operator delete[](void *p, size_t) noexcept { trackedFree(p, 'a'); }
#endif

static unsigned long long next(unsigned w) {
  unsigned long long v = 0;
  if (pos < in->size()) v = (*in)[pos].second;
  pos++;
  if (w < 64) v &= (1ull << w) - 1;
  return v;
}
extern "C" {
unsigned char verif_u8(void) { return next(8); }
unsigned short verif_u16(void) { return next(16); }
unsigned int verif_u32(void) { return next(32); }
unsigned long long verif_u64(void) { return next(64); }
int verif_choose(int lo, int hi) {
  unsigned u = next(32);
  int x = (int)u;
  if (x < lo || x > hi) x = lo + (int)((unsigned long long)u % ((unsigned long long)((long long)hi - lo + 1)));
  return x;
}
int verif_range(int lo, int hi) { if (lo > hi) fail(77, "ASSUME", "empty range"); return verif_choose(lo, hi); }
void verif_assume(int c) { if (!c) fail(77, "ASSUME", "assumption not met"); }
void verif_assert(int c, const char *msg) { if (!c) fail(99, "ASSERT", msg); }
void verif_reach(const char *) {}
void verif_observe(unsigned long long v) { printf("O %llx\n", v); }
long verif_param(int i) { return (size_t)i < params->size() ? (*params)[i] : 0; }
void verif_allow_leaks(void) { allowLeaks = true; }
long verif_live_heap(void) { long k = 0; for (size_t i = 0; i < nrec; i++) k += recs[i].live; return k; }
unsigned long long verif_concretize(unsigned long long v) { return v; }
}

// Threads: real threads that run one at a time and follow the recorded schedule.  The baton is passed with relaxed
// atomics, so that under ThreadSanitizer it orders nothing.
#include <pthread.h>
#include <sched.h>
extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
}
namespace {
enum { T_NONE, T_START, T_SYNC, T_AWAIT, T_JOIN };
struct NThr { pthread_t th; int pend; void *o1, *o2; unsigned long long *word, val; int join; bool done; void (*fn)(void *); void *arg; };
NThr nt[8];
int ntn = 1, turn = 0;
thread_local int self = 0;
bool enabled(const NThr &t) {
  if (t.done || t.pend == T_NONE) return false;
  if (t.pend == T_JOIN) return nt[t.join].done;
  if (t.pend == T_AWAIT) return (unsigned)*t.word == (unsigned)t.val;
  return true;
}
void pickNext() {
  int en[8], n = 0;
  bool all = true;
  for (int i = 0; i < ntn; i++) { if (!nt[i].done) all = false; if (enabled(nt[i])) en[n++] = i; }
  if (all) return;
  if (!n) fail(99, "DEADLOCK", "every unfinished thread waits for ever");
  int k = en[0];
  if (n > 1) { unsigned w = (unsigned)next(32); for (int i = 0; i < n; i++) if (en[i] == (int)w) k = en[i]; }
  nt[k].pend = T_NONE;
  __atomic_store_n(&turn, k, __ATOMIC_RELAXED);
}
void waitTurn() { while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != self) sched_yield(); }
void point(int pend, void *o1, void *o2, unsigned long long *word, unsigned long long val, int join) {
  NThr &t = nt[self];
  t.pend = pend; t.o1 = o1; t.o2 = o2; t.word = word; t.val = val; t.join = join;
  pickNext();
  waitTurn();
  for (void *o : {o1, o2}) if (o) { if (__tsan_acquire) __tsan_acquire(o); if (__tsan_release) __tsan_release(o); }
  if (pend == T_JOIN) pthread_join(nt[join].th, 0);
}
void *threadMain(void *a) {
  self = (int)(long)a;
  waitTurn();
  nt[self].fn(nt[self].arg);
  nt[self].done = true;
  pickNext();
  return 0;
}
}
extern "C" {
int verif_tid(void) { return self; }
int verif_spawn(void (*fn)(void *), void *arg) {
  int k = ntn++;
  nt[k].pend = T_START; nt[k].fn = fn; nt[k].arg = arg;
  bool a = armed; armed = false;
  if (pthread_create(&nt[k].th, 0, threadMain, (void *)(long)k)) abort();
  armed = a;
  return k;
}
void verif_sync(void *o1, void *o2) { if (ntn > 1) point(T_SYNC, o1, o2, 0, 0, 0); }
void verif_await(void *o, unsigned long long *word, unsigned long long val) {
  if (ntn > 1) { point(T_AWAIT, o, 0, word, val, 0); return; }
  if ((unsigned)*word != (unsigned)val) fail(99, "DEADLOCK", "every unfinished thread waits for ever");
}
void verif_join(int k) { point(T_JOIN, 0, 0, 0, 0, k); }
unsigned long long verif_wget(unsigned long long *p) { return *p; }
void verif_wset(unsigned long long *p, unsigned long long v) { *p = v; }
}

static int runOne(const char *entry) {
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry);
  if (!f) { fprintf(stderr, "no entry %s\n", entry); return 3; }
  armed = true;
  f();
  armed = false;
  if (!allowLeaks) for (size_t i = 0; i < nrec; i++) if (recs[i].live) fail(98, "HEAP", "memory never released");
  return 0;
}
int main(int argc, char **argv) {
  in = new std::vector<std::pair<unsigned, unsigned long long>>;
  params = new std::vector<long>;
  if (getenv("VERIF_FILL")) fillByte = (unsigned char)strtoul(getenv("VERIF_FILL"), 0, 16);
  if (argc > 3) { char *s = strdup(argv[3]); for (char *t = strtok(s, ","); t; t = strtok(0, ",")) params->push_back(atol(t)); }
  FILE *f = fopen(argv[2], "r");
  if (!f) { perror(argv[2]); return 3; }
  char w[64], v[64];
  while (fscanf(f, "%63s", w) == 1) {
    if (!strcmp(w, "uninit")) {
      unsigned seq, off, val; char kind[32];
      if (fscanf(f, "%31s %u %u %x", kind, &seq, &off, &val) != 4) break;
      if (!strcmp(kind, "stack")) continue;
      fills = (Fill *)realloc(fills, (nfill + 1) * sizeof(Fill));
      fills[nfill++] = Fill{seq, off, (unsigned char)val};
      continue;
    }
    if (fscanf(f, "%63s", v) != 1) break;
    in->push_back({(unsigned)atoi(w), strtoull(v, 0, 16)});
  }
  fclose(f);
  int rc = runOne(argv[1]);
  if (rc == 0) printf("OK\n");
  fflush(stdout);
  _exit(rc);
}

#include <cmath>
extern "C" double verif_ref(int f, double x) {
  switch (f) {
  case 0: return ::exp(x); case 1: return ::log(x); case 2: return ::log10(x); case 3: return ::sin(x);
  case 4: return ::cos(x); case 5: return ::tan(x); case 6: return ::sinh(x); case 7: return ::cosh(x);
  case 8: return ::tanh(x); case 9: return ::erf(x); case 10: return ::erfc(x); case 11: return ::cbrt(x);
  default: return ::sqrt(x);
  }
}
