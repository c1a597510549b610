// Stand-ins for the POSIX calls that src/libs_thread.h makes, and interception of its atomic operations, so that every
// interleaving of them can be explored.  Included before the real code.
#ifndef VERIF_THREADS_H
#define VERIF_THREADS_H
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "verif.h"

typedef unsigned long long vword;
struct VMutex { vword magic, locked, owner; };
struct VCond { vword magic; };
static_assert(sizeof(VMutex) <= sizeof(pthread_mutex_t) && sizeof(VCond) <= sizeof(pthread_cond_t), "stand-in too big");
static const vword V_MUTEX = 0x6d757478, V_COND = 0x636f6e64;
static vword v_waiting[8], v_wake[8];      // per thread: the condition it waits for, and whether it was woken
static vword v_spurious;                   // how many wake-ups without reason may still happen
// virtual time
static vword v_nowSec = 1000, v_nowUsec = 999999, v_secTick;   // time() may already be in the next second
static vword v_checkDeadline, v_wantMs, v_forever, v_slept, v_timedWaits;

static VMutex *VM(pthread_mutex_t *m) { return (VMutex *)(void *)m; }
static VCond *VCo(pthread_cond_t *c) { return (VCond *)(void *)c; }
static void vm_check(pthread_mutex_t *m) { verif_assert(verif_wget(&VM(m)->magic) == V_MUTEX, "a mutex is used only between its initialisation and its destruction"); }
static void vc_check(pthread_cond_t *c) { verif_assert(verif_wget(&VCo(c)->magic) == V_COND, "a condition is used only between its initialisation and its destruction"); }
static int v_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { verif_wset(&VM(m)->magic, V_MUTEX); verif_wset(&VM(m)->locked, 0); return 0; }
static int v_mutex_destroy(pthread_mutex_t *m) { vm_check(m); verif_assert(verif_wget(&VM(m)->locked) == 0, "a locked mutex is not destroyed"); verif_wset(&VM(m)->magic, 0); return 0; }
static int v_mutex_lock(pthread_mutex_t *m) {
  vm_check(m);
  verif_await(m, &VM(m)->locked, 0);
  verif_wset(&VM(m)->locked, 1); verif_wset(&VM(m)->owner, verif_tid());
  return 0;
}
static int v_mutex_trylock(pthread_mutex_t *m) {
  vm_check(m);
  verif_sync(m, 0);
  if (verif_wget(&VM(m)->locked)) return EBUSY;
  verif_wset(&VM(m)->locked, 1); verif_wset(&VM(m)->owner, verif_tid());
  return 0;
}
static void vm_held(pthread_mutex_t *m) {
  vm_check(m);
  verif_assert(verif_wget(&VM(m)->locked) == 1 && verif_wget(&VM(m)->owner) == (vword)verif_tid(), "a mutex is released only by its holder");
}
static int v_mutex_unlock(pthread_mutex_t *m) {
  vm_held(m);
  verif_sync(m, 0);
  verif_wset(&VM(m)->locked, 0);
  return 0;
}
static int v_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { verif_wset(&VCo(c)->magic, V_COND); return 0; }
static int v_cond_destroy(pthread_cond_t *c) { vc_check(c); verif_wset(&VCo(c)->magic, 0); return 0; }
static int v_wait(pthread_cond_t *c, pthread_mutex_t *m, bool mayTimeOut) {
  vc_check(c);
  vm_held(m);
  int me = verif_tid(), r = 0;
  // how this wait ends: 0 when it is woken, 1 at any time without reason, 2 at any time, as a time-out unless it was woken
  int how = mayTimeOut ? 2 : 0;
  if (verif_wget(&v_spurious) && verif_choose(0, 1)) { how = 1; verif_wset(&v_spurious, verif_wget(&v_spurious) - 1); }
  verif_sync(m, c);
  verif_wset(&VM(m)->locked, 0);
  verif_wset(&v_wake[me], 0);
  verif_wset(&v_waiting[me], (vword)(uintptr_t)c);
  if (how == 0) verif_await(c, &v_wake[me], 1);
  else {
    verif_sync(c, 0);
    if (how == 2 && verif_wget(&v_waiting[me])) r = ETIMEDOUT;
  }
  verif_wset(&v_waiting[me], 0);
  verif_wset(&v_wake[me], 0);
  verif_await(m, &VM(m)->locked, 0);
  verif_wset(&VM(m)->locked, 1); verif_wset(&VM(m)->owner, me);
  return r;
}
static int v_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (verif_wget(&v_checkDeadline)) verif_assert(verif_wget(&v_forever) == 1, "a wait with a time-out is not endless");
  return v_wait(c, m, false);
}
static void v_deadline(const struct timespec *ts) {
  if (!verif_wget(&v_checkDeadline)) return;
  verif_assert(verif_wget(&v_forever) == 0, "an endless wait has no deadline");
  long long sec = ts->tv_sec, ns = ts->tv_nsec;
  verif_assert(ns >= 0 && ns < 1000000000, "the deadline is a valid time");
  // deadline >= now + timeout, compared in nanoseconds since the current second
  long long d = (sec - (long long)v_nowSec) * 1000000000ll + ns, want = (long long)v_nowUsec * 1000 + (long long)v_wantMs * 1000000ll;
  verif_assert(d >= want, "the deadline is not before now plus the time-out");
  verif_assert(d <= want + 1000000000ll, "the deadline is not more than a second late");
  v_timedWaits++;
}
static int v_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  v_deadline(ts);
  return v_wait(c, m, true);
}
static void v_wakeOne(pthread_cond_t *c, bool all) {
  vc_check(c);
  verif_sync(c, 0);
  int w[8], n = 0;
  for (int i = 0; i < 8; i++) if (verif_wget(&v_waiting[i]) == (vword)(uintptr_t)c) w[n++] = i;
  if (!n) return;
  int k = all || n == 1 ? 0 : verif_choose(0, n - 1);
  for (int i = 0; i < n; i++) if (all || i == k) { verif_wset(&v_waiting[w[i]], 0); verif_wset(&v_wake[w[i]], 1); }
}
static int v_cond_signal(pthread_cond_t *c) { v_wakeOne(c, false); return 0; }
static int v_cond_broadcast(pthread_cond_t *c) { v_wakeOne(c, true); return 0; }
static int v_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (long)v_nowSec; tv->tv_usec = (long)v_nowUsec; return 0; }
static time_t v_time(time_t *t) { time_t r = (time_t)(v_nowSec + v_secTick); if (t) *t = r; return r; }
static int v_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = (long)v_nowSec; ts->tv_nsec = (long)v_nowUsec * 1000; return 0; }
static int v_interrupts;
static int v_nanosleep(const struct timespec *rq, struct timespec *rem) {
  verif_assert(rq->tv_nsec >= 0 && rq->tv_nsec < 1000000000 && rq->tv_sec >= 0, "the sleep request is a valid time");
  vword total = (vword)rq->tv_sec * 1000000000ull + (vword)rq->tv_nsec;
  if (v_interrupts > 0 && verif_choose(0, 1)) {
    v_interrupts--;
    vword secs = verif_u32(), ns = verif_u32();     // what is left
    verif_assume(secs <= (vword)rq->tv_sec && ns < 1000000000u && (secs < (vword)rq->tv_sec || ns <= (vword)rq->tv_nsec));
    vword left = secs * 1000000000ull + ns;
    if (rem) { rem->tv_sec = (long)secs; rem->tv_nsec = (long)ns; }
    v_slept += total - left;
    errno = EINTR;
    return -1;
  }
  v_slept += total;
  return 0;
}
static pthread_t v_self(void) { return (pthread_t)(verif_tid() + 1); }
static int v_yield(void) { return 0; }
// threads: the id is the number of the thread + 1
static vword v_ret[8], v_started[8], v_joined[8];
struct VStart { void *(*fn)(void *); void *arg; int tid; };
static VStart v_starts[8];
static void v_run(void *p) { VStart *s = (VStart *)p; v_ret[verif_tid()] = (vword)(uintptr_t)s->fn(s->arg); }
static int v_startn;
static int v_createFails;
static int v_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  if (v_createFails) return EAGAIN;
  VStart *s = &v_starts[v_startn++];
  s->fn = fn; s->arg = arg;
  int k = verif_spawn(v_run, s);
  v_started[k] = 1;
  *t = (pthread_t)(k + 1);
  return 0;
}
static int v_pthread_join(pthread_t t, void **ret) {
  long k = (long)t - 1;
  verif_assert(k >= 1 && k < 8 && v_started[k] == 1, "only a started thread is joined");
  verif_assert(v_joined[k] == 0, "a thread is joined once");
  v_joined[k] = 1;
  verif_join((int)k);
  if (ret) *ret = (void *)(uintptr_t)v_ret[k];
  return 0;
}
static int v_pthread_detach(pthread_t) { return 0; }
static int v_setname(pthread_t, const char *) { return 0; }
// thread-specific data
static void *v_tls[4][8];
static unsigned v_keys, v_keyBase;
static int v_key_create(pthread_key_t *k, void (*)(void *)) { if (v_keys >= 4) return EAGAIN; *k = v_keyBase + v_keys++; return 0; }
static int v_key_delete(pthread_key_t) { return 0; }
static int v_setspecific(pthread_key_t k, const void *v) { verif_assert(k - v_keyBase < v_keys, "the key exists"); v_tls[k - v_keyBase][verif_tid()] = (void *)v; return 0; }
static void *v_getspecific(pthread_key_t k) { verif_assert(k - v_keyBase < v_keys, "the key exists"); return v_tls[k - v_keyBase][verif_tid()]; }

#define pthread_mutex_init v_mutex_init
#define pthread_mutex_destroy v_mutex_destroy
#define pthread_mutex_lock v_mutex_lock
#define pthread_mutex_trylock v_mutex_trylock
#define pthread_mutex_unlock v_mutex_unlock
#define pthread_cond_init v_cond_init
#define pthread_cond_destroy v_cond_destroy
#define pthread_cond_wait v_cond_wait
#define pthread_cond_timedwait v_cond_timedwait
#define pthread_cond_signal v_cond_signal
#define pthread_cond_broadcast v_cond_broadcast
#define gettimeofday v_gettimeofday
#define time v_time
#define clock_gettime v_clock_gettime
#define nanosleep v_nanosleep
#define pthread_self v_self
#define sched_yield v_yield
#define pthread_create v_pthread_create
#define pthread_join v_pthread_join
#define pthread_detach v_pthread_detach
#define pthread_setname_np v_setname
#define pthread_key_create v_key_create
#define pthread_key_delete v_key_delete
#define pthread_setspecific v_setspecific
#define pthread_getspecific v_getspecific

// the atomic operations: a step of the schedule each
#define V_AT(p, x) (verif_sync((void *)(p), 0), x)
#define __sync_fetch_and_add(p, ...) V_AT(p, __sync_fetch_and_add(p, __VA_ARGS__))
#define __sync_fetch_and_sub(p, ...) V_AT(p, __sync_fetch_and_sub(p, __VA_ARGS__))
#define __sync_fetch_and_or(p, ...) V_AT(p, __sync_fetch_and_or(p, __VA_ARGS__))
#define __sync_fetch_and_and(p, ...) V_AT(p, __sync_fetch_and_and(p, __VA_ARGS__))
#define __sync_fetch_and_xor(p, ...) V_AT(p, __sync_fetch_and_xor(p, __VA_ARGS__))
#define __sync_add_and_fetch(p, ...) V_AT(p, __sync_add_and_fetch(p, __VA_ARGS__))
#define __sync_sub_and_fetch(p, ...) V_AT(p, __sync_sub_and_fetch(p, __VA_ARGS__))
#define __sync_or_and_fetch(p, ...) V_AT(p, __sync_or_and_fetch(p, __VA_ARGS__))
#define __sync_and_and_fetch(p, ...) V_AT(p, __sync_and_and_fetch(p, __VA_ARGS__))
#define __sync_xor_and_fetch(p, ...) V_AT(p, __sync_xor_and_fetch(p, __VA_ARGS__))
#define __sync_val_compare_and_swap(p, ...) V_AT(p, __sync_val_compare_and_swap(p, __VA_ARGS__))
#define __sync_bool_compare_and_swap(p, ...) V_AT(p, __sync_bool_compare_and_swap(p, __VA_ARGS__))
#define __sync_lock_test_and_set(p, ...) V_AT(p, __sync_lock_test_and_set(p, __VA_ARGS__))
#define __sync_swap(p, ...) V_AT(p, __sync_swap(p, __VA_ARGS__))
#define __sync_lock_release(p) V_AT(p, __sync_lock_release(p))
#define __atomic_load_n(p, ...) V_AT(p, __atomic_load_n(p, __VA_ARGS__))
#define __atomic_load(p, ...) V_AT(p, __atomic_load(p, __VA_ARGS__))
#define __atomic_store_n(p, ...) V_AT(p, __atomic_store_n(p, __VA_ARGS__))
#define __atomic_store(p, ...) V_AT(p, __atomic_store(p, __VA_ARGS__))
#define __atomic_exchange_n(p, ...) V_AT(p, __atomic_exchange_n(p, __VA_ARGS__))
#define __atomic_exchange(p, ...) V_AT(p, __atomic_exchange(p, __VA_ARGS__))
#define __atomic_compare_exchange_n(p, ...) V_AT(p, __atomic_compare_exchange_n(p, __VA_ARGS__))
#define __atomic_compare_exchange(p, ...) V_AT(p, __atomic_compare_exchange(p, __VA_ARGS__))
#define __atomic_fetch_add(p, ...) V_AT(p, __atomic_fetch_add(p, __VA_ARGS__))
#define __atomic_fetch_sub(p, ...) V_AT(p, __atomic_fetch_sub(p, __VA_ARGS__))
#define __atomic_fetch_and(p, ...) V_AT(p, __atomic_fetch_and(p, __VA_ARGS__))
#define __atomic_fetch_or(p, ...) V_AT(p, __atomic_fetch_or(p, __VA_ARGS__))
#define __atomic_fetch_xor(p, ...) V_AT(p, __atomic_fetch_xor(p, __VA_ARGS__))
#define __atomic_add_fetch(p, ...) V_AT(p, __atomic_add_fetch(p, __VA_ARGS__))
#define __atomic_sub_fetch(p, ...) V_AT(p, __atomic_sub_fetch(p, __VA_ARGS__))
#endif
