// Threads: src/libs_thread.h (atomics, signals, timers, queue) and nanostl::thread, as nanothread.cc builds them.
#include "threads.h"
#include "../src/nanothread.cc"
using nanostl::thread;

// ---------------------------------------------------------------- atomics, one thread: documented values
static int fresh(thread_atomic_int_t *a) {
  // start from any value, reached by a store or by adding to zero
  int v = (int)verif_u32();
  thread_atomic_int_store(a, v);
  return v;
}
ENTRY(atomic_int) {
  thread_atomic_int_t a;
  int v = fresh(&a);
  verif_assert(thread_atomic_int_load(&a) == v, "load returns what store stored");
  int n = (int)verif_param(0);
  for (int i = 0; i < n; i++) {
    int x = (int)verif_u32(), y = (int)verif_u32(), old = v, r = 0;
    int op = verif_choose(0, 6);
    switch (op) {
    case 0: r = thread_atomic_int_inc(&a); v = (int)((unsigned)v + 1u); break;
    case 1: r = thread_atomic_int_dec(&a); v = (int)((unsigned)v - 1u); break;
    case 2: r = thread_atomic_int_add(&a, x); v = (int)((unsigned)v + (unsigned)x); break;
    case 3: verif_assume(x != (int)0x80000000); r = thread_atomic_int_sub(&a, x); v = (int)((unsigned)v - (unsigned)x); break;
    case 4: r = thread_atomic_int_swap(&a, x); v = x; break;
    case 5: r = thread_atomic_int_compare_and_swap(&a, x, y); if (v == x) v = y; break;
    default: thread_atomic_int_store(&a, x); v = x; r = old; break;
    }
    verif_assert(r == old, "an atomic operation returns the value before it");
    verif_assert(thread_atomic_int_load(&a) == v, "an atomic operation leaves the documented value");
  }
  verif_observe((unsigned)v);
  verif_reach("end");
}
ENTRY(atomic_ptr) {
  thread_atomic_ptr_t a;
  void *v = (void *)verif_u64();
  thread_atomic_ptr_store(&a, v);
  verif_assert(thread_atomic_ptr_load(&a) == v, "load returns what store stored");
  int n = (int)verif_param(0);
  for (int i = 0; i < n; i++) {
    void *x = (void *)verif_u64(), *y = (void *)verif_u64(), *old = v, *r = old;
    switch (verif_choose(0, 2)) {
    case 0: r = thread_atomic_ptr_swap(&a, x); v = x; break;
    case 1: r = thread_atomic_ptr_compare_and_swap(&a, x, y); if (v == x) v = y; break;
    default: thread_atomic_ptr_store(&a, x); v = x; break;
    }
    verif_assert(r == old, "an atomic operation returns the value before it");
    verif_assert(thread_atomic_ptr_load(&a) == v, "an atomic operation leaves the documented value");
  }
  verif_observe((unsigned long long)v);
  verif_reach("end");
}

// ---------------------------------------------------------------- atomics, two threads: the results are those of some order
struct IntJob { thread_atomic_int_t *a; int op, x, y, r; };
static void doInt(IntJob *j) {
  switch (j->op) {
  case 0: j->r = thread_atomic_int_inc(j->a); break;
  case 1: j->r = thread_atomic_int_dec(j->a); break;
  case 2: j->r = thread_atomic_int_add(j->a, j->x); break;
  case 3: j->r = thread_atomic_int_sub(j->a, j->x); break;
  case 4: j->r = thread_atomic_int_swap(j->a, j->x); break;
  case 5: j->r = thread_atomic_int_compare_and_swap(j->a, j->x, j->y); break;
  case 6: thread_atomic_int_store(j->a, j->x); j->r = 0; break;
  default: j->r = thread_atomic_int_load(j->a); break;
  }
}
static int modelInt(const IntJob &j, int &v) {
  int old = v;
  switch (j.op) {
  case 0: v = (int)((unsigned)v + 1u); break;
  case 1: v = (int)((unsigned)v - 1u); break;
  case 2: v = (int)((unsigned)v + (unsigned)j.x); break;
  case 3: v = (int)((unsigned)v - (unsigned)j.x); break;
  case 4: v = j.x; break;
  case 5: if (v == j.x) v = j.y; break;
  case 6: v = j.x; return 0;
  default: break;
  }
  return old;
}
static void intThread(void *p) { doInt((IntJob *)p); }
ENTRY(atomic_int_par) {
  thread_atomic_int_t a;
  int v = fresh(&a);
  IntJob j[2];
  for (int i = 0; i < 2; i++) {
    j[i].a = &a; j[i].op = i ? verif_choose(0, 7) : (int)verif_param(0);
    j[i].x = (int)verif_u32(); j[i].y = (int)verif_u32(); j[i].r = 0;
    verif_assume(j[i].x != (int)0x80000000);
  }
  int k = verif_spawn(intThread, &j[1]);
  doInt(&j[0]);
  verif_join(k);
  int end = thread_atomic_int_load(&a);
  int v0 = v, v1 = v;
  int a0 = modelInt(j[0], v0), a1 = modelInt(j[1], v0);
  int b1 = modelInt(j[1], v1), b0 = modelInt(j[0], v1);
  verif_assert((j[0].r == a0 && j[1].r == a1 && end == v0) || (j[0].r == b0 && j[1].r == b1 && end == v1), "two concurrent atomic operations act as if one came first");
  verif_reach("end");
}
struct PtrJob { thread_atomic_ptr_t *a; int op; void *x, *y, *r; };
static void doPtr(PtrJob *j) {
  switch (j->op) {
  case 0: j->r = thread_atomic_ptr_swap(j->a, j->x); break;
  case 1: j->r = thread_atomic_ptr_compare_and_swap(j->a, j->x, j->y); break;
  case 2: thread_atomic_ptr_store(j->a, j->x); j->r = 0; break;
  default: j->r = thread_atomic_ptr_load(j->a); break;
  }
}
static void *modelPtr(const PtrJob &j, void *&v) {
  void *old = v;
  switch (j.op) {
  case 0: v = j.x; break;
  case 1: if (v == j.x) v = j.y; break;
  case 2: v = j.x; return 0;
  default: break;
  }
  return old;
}
static void ptrThread(void *p) { doPtr((PtrJob *)p); }
ENTRY(atomic_ptr_par) {
  thread_atomic_ptr_t a;
  void *v = (void *)verif_u64();
  thread_atomic_ptr_store(&a, v);
  PtrJob j[2];
  for (int i = 0; i < 2; i++) { j[i].a = &a; j[i].op = verif_choose(0, 3); j[i].x = (void *)verif_u64(); j[i].y = (void *)verif_u64(); j[i].r = 0; }
  int k = verif_spawn(ptrThread, &j[1]);
  doPtr(&j[0]);
  verif_join(k);
  void *end = thread_atomic_ptr_load(&a);
  void *v0 = v, *v1 = v;
  void *a0 = modelPtr(j[0], v0), *a1 = modelPtr(j[1], v0);
  void *b1 = modelPtr(j[1], v1), *b0 = modelPtr(j[0], v1);
  verif_assert((j[0].r == a0 && j[1].r == a1 && end == v0) || (j[0].r == b0 && j[1].r == b1 && end == v1), "two concurrent atomic operations act as if one came first");
  verif_reach("end");
}

// ---------------------------------------------------------------- signals
// Alone: every history of raises and waits.
ENTRY(signal_alone) {
  thread_signal_t s;
  memset(&s, 0x5a, sizeof(s));
  thread_signal_init(&s);
  int raised = 0, n = (int)verif_param(0);
  v_spurious = 1;
  for (int i = 0; i < n; i++) {
    if (verif_choose(0, 1)) { thread_signal_raise(&s); raised = 1; }
    else {
      // alone, an endless wait for a signal that is not raised would hang
      int ms = raised ? verif_choose(-1, 1) : verif_range(0, 3);
      int r = thread_signal_wait(&s, ms);
      verif_assert((r != 0) == (raised != 0), "a wait reports a raise exactly when there is one to consume");
      raised = 0;
    }
  }
  thread_signal_term(&s);
  verif_reach("end");
}
// What the calls hand to the system: deadlines and endless waits.
ENTRY(signal_deadline) {
  thread_signal_t s;
  thread_signal_init(&s);
  v_checkDeadline = 1; v_forever = 0;
  v_nowSec = verif_u32();
  v_nowUsec = verif_u32(); verif_assume(v_nowUsec < 1000000);
  v_secTick = verif_choose(0, 1);      // the second may change between two looks at the clock
  int ms = (int)verif_u32(); verif_assume(ms >= 0);
  v_wantMs = (vword)ms;
  int r = thread_signal_wait(&s, ms);
  verif_assert(r == 0, "a wait without a raise times out");
  verif_assert(v_timedWaits == 1, "the wait really waited");
  thread_signal_term(&s);
  verif_reach("end");
}
static thread_signal_t g_sig;
static int g_data;
struct WaitJob { int ms, r; };
static void raiser(void *p) {
  int n = *(int *)p;
  g_data = 42;
  for (int i = 0; i < n; i++) thread_signal_raise(&g_sig);
}
static void waiter(void *p) { WaitJob *w = (WaitJob *)p; w->r = thread_signal_wait(&g_sig, w->ms); if (w->r) w->ms = g_data; }
// One thread raises n times, the others wait with a time-out.
ENTRY(signal_par) {
  int raises = (int)verif_param(0), waiters = (int)verif_param(1);
  v_spurious = 1;
  thread_signal_init(&g_sig);
  WaitJob w[2] = {{1, 0}, {1, 0}};
  int k = verif_spawn(raiser, &raises), k2 = 0;
  if (waiters == 2) k2 = verif_spawn(waiter, &w[1]);
  waiter(&w[0]);
  verif_join(k);
  if (k2) verif_join(k2);
  int got = 0;
  for (int i = 0; i < waiters; i++) if (w[i].r) { got++; verif_assert(w[i].ms == 42, "what was written before the raise is seen after the wait"); }
  int last = thread_signal_wait(&g_sig, 0) != 0;
  verif_assert(got + last >= 1, "a raise that nobody consumed is still there");
  verif_assert(got + last <= raises, "one raise ends one wait");
  thread_signal_term(&g_sig);
  verif_reach("end");
}
// An endless wait ends once the signal is raised, and only then.
ENTRY(signal_forever) {
  int one = 1;
  v_spurious = (vword)verif_param(0);
  v_checkDeadline = 1; v_forever = 1;
  thread_signal_init(&g_sig);
  int k = verif_spawn(raiser, &one);
  int r = thread_signal_wait(&g_sig, THREAD_SIGNAL_WAIT_INFINITE);
  verif_assert(r != 0, "an endless wait does not time out");
  verif_assert(g_data == 42, "what was written before the raise is seen after the wait");
  verif_join(k);
  v_forever = 0; v_checkDeadline = 0;
  verif_assert(thread_signal_wait(&g_sig, 0) == 0, "the wait consumed the raise");
  thread_signal_term(&g_sig);
  verif_reach("end");
}
// Two threads pass a token to each other by signals.
static thread_signal_t g_ping, g_pong;
static void ponger(void *p) {
  int n = *(int *)p;
  for (int i = 0; i < n; i++) { verif_assert(thread_signal_wait(&g_ping, -1) != 0, "an endless wait does not time out"); g_data++; thread_signal_raise(&g_pong); }
}
ENTRY(signal_pingpong) {
  int n = (int)verif_param(0);
  thread_signal_init(&g_ping); thread_signal_init(&g_pong);
  int k = verif_spawn(ponger, &n);
  for (int i = 0; i < n; i++) {
    verif_assert(g_data == 2 * i, "turns alternate");
    g_data++;
    thread_signal_raise(&g_ping);
    verif_assert(thread_signal_wait(&g_pong, -1) != 0, "an endless wait does not time out");
  }
  verif_join(k);
  verif_assert(g_data == 2 * n, "turns alternate");
  thread_signal_term(&g_ping); thread_signal_term(&g_pong);
  verif_reach("end");
}

// ---------------------------------------------------------------- mutex
static thread_mutex_t g_mx;
static void adder(void *p) {
  int n = *(int *)p;
  for (int i = 0; i < n; i++) { thread_mutex_lock(&g_mx); int x = g_data; verif_sync(0, 0); g_data = x + 1; thread_mutex_unlock(&g_mx); }
}
ENTRY(mutex_par) {
  int n = (int)verif_param(0), threads = (int)verif_param(1);
  memset(&g_mx, 0x5a, sizeof(g_mx));
  thread_mutex_init(&g_mx);
  int k[3];
  for (int i = 0; i + 1 < threads; i++) k[i] = verif_spawn(adder, &n);
  adder(&n);
  for (int i = 0; i + 1 < threads; i++) verif_join(k[i]);
  verif_assert(g_data == n * threads, "a mutex lets one thread in at a time");
  thread_mutex_term(&g_mx);
  verif_reach("end");
}

// ---------------------------------------------------------------- timers, thread-local values, threads
ENTRY(timer) {
  thread_timer_t t;
  thread_timer_init(&t);
  v_interrupts = (int)verif_param(0);
  unsigned long long ns = verif_u64();
  verif_assume(ns >> 60 == 0);
  thread_timer_wait(&t, ns);
  verif_assert(v_slept >= ns, "a timer waits at least as long as asked, also when signals interrupt it");
  verif_assert(v_slept <= ns + 1000000ull, "a timer does not wait much longer than asked");
  thread_timer_term(&t);
  verif_reach("end");
}
static thread_tls_t g_tls[2];
static void tlsThread(void *p) {
  for (int i = 0; i < 2; i++) verif_assert(thread_tls_get(g_tls[i]) == 0, "a thread starts without a value");
  thread_tls_set(g_tls[0], p);
  verif_assert(thread_tls_get(g_tls[0]) == p && thread_tls_get(g_tls[1]) == 0, "the value is the one this thread stored");
}
ENTRY(tls) {
  v_keyBase = (unsigned)verif_param(0);
  g_tls[0] = thread_tls_create(); g_tls[1] = thread_tls_create();
  void *a = (void *)verif_u64(), *b = (void *)verif_u64();
  thread_tls_set(g_tls[0], a); thread_tls_set(g_tls[1], b);
  int k = verif_spawn(tlsThread, &k);
  verif_assert(thread_tls_get(g_tls[0]) == a && thread_tls_get(g_tls[1]) == b, "the value is the one this thread stored");
  verif_join(k);
  verif_assert(thread_tls_get(g_tls[0]) == a && thread_tls_get(g_tls[1]) == b, "the value is the one this thread stored");
  void *c = (void *)verif_u64();
  thread_tls_set(g_tls[0], c);
  verif_assert(thread_tls_get(g_tls[0]) == c && thread_tls_get(g_tls[1]) == b, "a value stored later replaces the earlier one");
  thread_tls_destroy(g_tls[0]); thread_tls_destroy(g_tls[1]);
  verif_reach("end");
}
static int g_arg;
static int proc(void *p) { *(int *)p += 1; return g_arg; }
ENTRY(threads) {
  int a = (int)verif_u32(); g_arg = a;
  int x[2] = {5, 7};
  v_createFails = verif_choose(0, 1);
  thread_ptr_t t = thread_create(proc, &x[0], verif_choose(0, 1) ? "name" : 0, THREAD_STACK_SIZE_DEFAULT);
  if (v_createFails) { verif_assert(t == 0, "a thread that cannot start is reported"); verif_reach("fails"); }
  else {
    verif_assert(t != 0, "a started thread has a handle");
    if (verif_choose(0, 1)) { int r = thread_join(t); verif_assert(r == a, "join returns what the thread returned"); }
    else thread_destroy(t);
    verif_assert(x[0] == 6, "the thread ran to its end before join returned");
  }
  // the C++ wrapper: a default constructed thread is no thread
  {
    thread th;
    verif_assert(!th.joinable() && th.native_handle() == 0, "a default constructed thread is not joinable");
    th.join();
    verif_assert(!th.joinable(), "joining no thread does nothing");
  }
  verif_reach("end");
}

// ---------------------------------------------------------------- queue
// Alone: every history against a list.
ENTRY(queue_alone) {
  int size = (int)verif_param(0), n = (int)verif_param(1), init = (int)verif_param(2);
  void *slots[4] = {0, 0, 0, 0};
  void *model[16];
  int front = 0, back = 0;
  thread_queue_t q;
  memset(&q, 0x5a, sizeof(q));
  v_spurious = 1;
  for (int i = 0; i < init && i < size; i++) { slots[i] = (void *)verif_u64(); model[back++] = slots[i]; }
  thread_queue_init(&q, size, slots, init);
  for (int i = 0; i < n; i++) {
    int held = back - front;
    verif_assert(thread_queue_count(&q) == held, "count is the number of queued values");
    if (verif_choose(0, 1)) {
      void *v = (void *)verif_u64();
      int ms = held < size ? verif_choose(-1, 1) : verif_choose(0, 1);
      int r = thread_queue_produce(&q, v, ms);
      verif_assert((r != 0) == (held < size), "produce succeeds exactly when there is room");
      if (held < size) model[back++] = v;
    } else {
      int ms = held ? verif_choose(-1, 1) : verif_choose(0, 1);
      void *r = thread_queue_consume(&q, ms);
      if (held) verif_assert(r == model[front++], "consume returns the oldest value");
      else verif_assert(r == 0, "consume returns NULL when nothing came");
    }
  }
  verif_assert(thread_queue_count(&q) == back - front, "count is the number of queued values");
  thread_queue_term(&q);
  for (int i = size; i < 4; i++) verif_assert(slots[i] == 0, "only the given slots are used");
  verif_reach("end");
}
// A queue that has handed over so many values before.  Where the positions only ever count up (seen after two rounds), they can
// have reached any value, so the history goes on from an arbitrary one; where they stay within the slots there is nothing to jump over.
template <class Q> static auto jump(Q &q, int size, int) -> decltype(thread_atomic_int_store(&q.head, 0), thread_atomic_int_store(&q.tail, 0), int()) {
  int h = thread_atomic_int_load(&q.head), t = thread_atomic_int_load(&q.tail);
  if (t <= size || h != t) return 0;
  int at = (int)verif_u32();
  verif_assume(at >= t);
  thread_atomic_int_store(&q.head, at); thread_atomic_int_store(&q.tail, at);
  return 1;
}
template <class Q> static int jump(Q &, int, long) { return 0; }
ENTRY(queue_aged) {
  int size = (int)verif_param(0), n = (int)verif_param(1);
  void **slots = new void *[size];
  void *model[16];
  int front = 0, back = 0;
  thread_queue_t q;
  memset(&q, 0x5a, sizeof(q));
  thread_queue_init(&q, size, slots, 0);
  for (int i = 0; i < 2 * size + 2; i++) {
    void *v = (void *)verif_u64();
    verif_assert(thread_queue_produce(&q, v, -1) != 0, "an endless produce does not time out");
    verif_assert(thread_queue_consume(&q, -1) == v, "consume returns the oldest value");
  }
  jump(q, size, 0);
  for (int i = 0; i < n; i++) {
    int held = back - front;
    if (held < size && (!held || verif_choose(0, 1))) {
      void *v = (void *)verif_u64();
      verif_assert(thread_queue_produce(&q, v, 0) != 0, "produce succeeds when there is room");
      model[back++] = v;
    } else {
      verif_assert(thread_queue_consume(&q, 0) == model[front++], "consume returns the oldest value");
    }
  }
  verif_assert(thread_queue_count(&q) == back - front, "count is the number of queued values");
  while (front < back) verif_assert(thread_queue_consume(&q, 0) == model[front++], "consume returns the oldest value");
  thread_queue_term(&q);
  delete[] slots;
  verif_reach("end");
}
static thread_queue_t g_q;
struct ProdJob { int n, ms; void *v[6]; int ok[6]; };
static void producer(void *p) { ProdJob *j = (ProdJob *)p; for (int i = 0; i < j->n; i++) j->ok[i] = thread_queue_produce(&g_q, j->v[i], j->ms); }
// One producer, one consumer.  Time-outs: bit 0 of the last parameter for the producer, bit 1 for the consumer; bit 2: no waiting at all.
ENTRY(queue_par) {
  int size = (int)verif_param(0), n = (int)verif_param(1), init = (int)verif_param(2), mode = (int)verif_param(3);
  v_spurious = (vword)verif_param(4);
  static void *slots[4];
  void *want[12], *got[12];
  int nw = 0, ng = 0;
  for (int i = 0; i < init; i++) { slots[i] = (void *)verif_u64(); verif_assume(slots[i] != 0); want[nw++] = slots[i]; }
  static ProdJob j;
  j.n = n;
  int tmo = mode & 4 ? 0 : 1;
  j.ms = mode & 1 ? tmo : -1;
  for (int i = 0; i < n; i++) { j.v[i] = (void *)verif_u64(); verif_assume(j.v[i] != 0); }
  thread_queue_init(&g_q, size, slots, init);
  int k = verif_spawn(producer, &j);
  int tries = n + init;
  if (!(mode & 2)) {
    // endless waits: consume exactly what is certain to come
    int sure = mode & 1 ? init : n + init;
    for (int i = 0; i < sure; i++) { void *r = thread_queue_consume(&g_q, -1); verif_assert(r != 0, "an endless consume does not time out"); got[ng++] = r; }
  } else
    for (int i = 0; i < tries; i++) {
      void *r = thread_queue_consume(&g_q, mode & 1 ? tmo : 1);
      if (r) got[ng++] = r;
    }
  if (!(mode & 2) || (mode & 1)) verif_join(k);
  else {
    // the producer waits for ever when the queue is full: keep consuming until it is done
    int left = n + init - ng;
    for (int i = 0; i < left; i++) { void *r = thread_queue_consume(&g_q, -1); verif_assert(r != 0, "an endless consume does not time out"); got[ng++] = r; }
    verif_join(k);
  }
  int c = thread_queue_count(&g_q);
  for (int i = 0; i < n; i++) {
    if (!(mode & 1)) verif_assert(j.ok[i] != 0, "an endless produce does not time out");
    if (j.ok[i]) want[nw++] = j.v[i];
  }
  verif_assert(c == nw - ng, "count is the number of queued values");
  for (int i = 0; i < c && ng < 12; i++) { void *r = thread_queue_consume(&g_q, 0); got[ng++] = r; }
  verif_assert(thread_queue_consume(&g_q, 0) == 0, "an empty queue yields nothing");
  verif_assert(ng == nw, "every value is consumed exactly once");
  for (int i = 0; i < ng; i++) verif_assert(got[i] == want[i], "values come out in the order they went in");
  thread_queue_term(&g_q);
  verif_reach("end");
}
