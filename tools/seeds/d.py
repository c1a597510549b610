_S = "#include <errno.h>\n#include <pthread.h>\n#include <sched.h>\n#include <stdint.h>\n#include <sys/time.h>\n#include <time.h>\n#include <unistd.h>\n"
_I = "#define THREAD_IMPLEMENTATION\n#include \"../src/libs_thread.h\"\n"
# after every atomic operation another thread may get its turn: hook() stands for it
_A = """static void hook(void *p);
static void (*before)(void *);
template <class T, class V> static T fa(T *p, V v) { if (before && v) before((void *)p); T r = __sync_fetch_and_add(p, v); hook((void *)p); return r; }
template <class T> static T *fap(T **p, int) { return __sync_val_compare_and_swap(p, (T *)0, (T *)0); }
template <class V> static void *fa(void **p, V) { return __sync_val_compare_and_swap(p, (void *)0, (void *)0); }
template <class T, class V> static T fs(T *p, V v) { if (before) before((void *)p); hook((void *)p); T r = __sync_fetch_and_sub(p, v); hook((void *)p); return r; }
template <class T, class V> static T ts(T *p, V v) { hook((void *)p); T r = __sync_lock_test_and_set(p, v); hook((void *)p); return r; }
template <class T> static bool bcas(T *p, T a, T b) { bool r = __sync_bool_compare_and_swap(p, a, b); hook((void *)p); return r; }
#define __sync_fetch_and_add(p, v) fa(p, v)
#define __sync_fetch_and_sub(p, v) fs(p, v)
#define __sync_lock_test_and_set(p, v) ts(p, v)
#define __sync_bool_compare_and_swap(p, a, b) bcas(p, a, b)
"""
L = "src/libs_thread.h"
ND = "-DNDEBUG -pthread"
seed("queue-publish-early", "C25", L, "    queue->values[ tail ] = value;\n    thread_atomic_int_store( &queue->tail, ( tail + 1 ) % queue->size );\n    if( thread_atomic_int_inc( &queue->count ) == 0 )\n        thread_signal_raise( &queue->data_ready );\n    return 1;",
     "    int was = thread_atomic_int_inc( &queue->count );\n    queue->values[ tail ] = value;\n    thread_atomic_int_store( &queue->tail, ( tail + 1 ) % queue->size );\n    if( was == 0 )\n        thread_signal_raise( &queue->data_ready );\n    return 1;",
     "a consumer that runs between the producer's count and its write to the slot", "the consumer takes the slot's old contents instead of the value",
     "void *slots[2] = {0, 0}; thread_queue_init(&q, 2, slots, 0); int a = 1; armed = 1; thread_queue_produce(&q, &a, 0); CHECK(got == 0 || got == &a); if (!got) CHECK(thread_queue_consume(&q, 0) == &a);",
     pre=_S + _A + _I + "static thread_queue_t q; static void *got; static int armed;\nstatic void hook(void *p) { if (armed && p == (void *)&q.count.i) { armed = 0; if (thread_queue_count(&q)) got = thread_queue_consume(&q, 0); else armed = 1; } }\n", flags=ND)
seed("queue-wake-lost", "C25", L, "    if( thread_atomic_int_dec( &queue->count ) == queue->size )\n        thread_signal_raise( &queue->space_open );", "    int was = thread_atomic_int_load( &queue->count );\n    thread_atomic_int_dec( &queue->count );\n    if( was == queue->size )\n        thread_signal_raise( &queue->space_open );",
     "a producer that fills the queue between the consumer's look at the count and its decrement, and then waits for space", "the producer is never woken and waits for ever",
     "void *slots[2] = {0, 0}; thread_queue_init(&q, 2, slots, 0); int a = 1; thread_queue_produce(&q, &a, 0); before = turn; armed = 1; CHECK(thread_queue_consume(&q, 0) == &a); armed = 0; if (filled == 1) CHECK(thread_signal_wait(&q.space_open, 0) != 0);",
     pre=_S + _A + _I + "static thread_queue_t q; static int armed, filled, depth; static int v;\nstatic void hook(void *) {}\nstatic void turn(void *p) { if (!armed || depth || p != (void *)&q.count.i) return; depth = 1; if (thread_queue_produce(&q, &v, 0) && thread_queue_count(&q) == 2) { armed = 0; filled = 1; } depth = 0; }\n", flags=ND)
seed("queue-init-clamp", "C25", L, "    thread_atomic_int_store( &queue->count, count > size ? size : count );", "    thread_atomic_int_store( &queue->count, count > size ? size - 1 : count );",
     "a queue initialised with more values than it has slots", "one value is lost and the order is broken",
     "int a[3]; void *slots[2] = {&a[0], &a[1]}; thread_queue_t q; thread_queue_init(&q, 2, slots, 3); CHECK(thread_queue_count(&q) == 2); CHECK(thread_queue_consume(&q, 0) == &a[0]); CHECK(thread_queue_consume(&q, 0) == &a[1]);",
     pre=_S + _I, flags=ND)
seed("queue-raise-early", "C25", L, "    if( thread_atomic_int_inc( &queue->count ) == 0 )\n        thread_signal_raise( &queue->data_ready );", "    if( thread_atomic_int_load( &queue->count ) == 0 )\n        thread_signal_raise( &queue->data_ready );\n    thread_atomic_int_inc( &queue->count );",
     "a consumer that wakes between the raise and the count, finds the queue still empty and waits again", "the consumer waits for ever although a value is queued",
     "void *slots[1] = {0}; thread_queue_init(&q, 1, slots, 0); int a; before = turn; armed = 1; thread_queue_produce(&q, &a, 0); armed = 0; CHECK(thread_queue_count(&q) == 1); CHECK(!taken || thread_signal_wait(&q.data_ready, 0) != 0);",
     pre=_S + _A + _I + "static thread_queue_t q; static int armed, depth, taken;\nstatic void hook(void *) {}\nstatic void turn(void *p) { if (!armed || depth || p != (void *)&q.count.i) return; depth = 1; if (thread_queue_count(&q) == 0 && thread_signal_wait(&q.data_ready, 0)) taken = 1; depth = 0; }\n", flags=ND)
seed("signal-if", "C24", L, "        pthread_mutex_lock( &internal->mutex );\n        while( internal->value == 0 )\n            {\n            if( timeout_ms < 0 )", "        pthread_mutex_lock( &internal->mutex );\n        for( int i = 0; internal->value == 0 && i < 2; ++i )\n            {\n            if( timeout_ms < 0 )",
     "two wake-ups without reason in a row", "the wait returns as if the signal had been raised",
     "thread_signal_init(&s); CHECK(thread_signal_wait(&s, -1) != 0); CHECK(raised);",
     pre=_S + "static int cw(pthread_cond_t *, pthread_mutex_t *);\n#define pthread_cond_wait cw\n" + _I + "static thread_signal_t s; static int calls, raised;\nstatic int cw(pthread_cond_t *, pthread_mutex_t *m) { if (++calls > 4) { pthread_mutex_unlock(m); raised = 1; thread_signal_raise(&s); pthread_mutex_lock(m); } return 0; }\n", flags=ND)
seed("signal-timeout-clears", "C24", L, "        if( !timed_out ) internal->value = 0;\n        pthread_mutex_unlock( &internal->mutex );", "        internal->value = 0;\n        pthread_mutex_unlock( &internal->mutex );",
     "a raise that comes after the time-out struck but before the waiter has its mutex back", "the raise is lost: the wait reports a time-out and the next wait finds nothing",
     "thread_signal_init(&s); int r = thread_signal_wait(&s, 1); int r2 = thread_signal_wait(&s, 0); CHECK(r || r2);",
     pre=_S + "static int ctw(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);\n#define pthread_cond_timedwait ctw\n" + _I + "static thread_signal_t s; static int calls;\nstatic int ctw(pthread_cond_t *, pthread_mutex_t *m, const struct timespec *) { if (!calls++) { pthread_mutex_unlock(m); thread_signal_raise(&s); pthread_mutex_lock(m); } return ETIMEDOUT; }\n", flags=ND)
seed("signal-deadline", "C24", L, "        ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );\n            ts.tv_nsec %= ( 1000 * 1000 * 1000 );", "        if( ts.tv_nsec > 1000 * 1000 * 1000 )\n                {\n                ts.tv_sec += 1;\n                ts.tv_nsec -= 1000 * 1000 * 1000;\n                }",
     "a clock reading and a time-out whose fractions add up to exactly one second", "the deadline has 10^9 nanoseconds, which is invalid, so the wait spins without ever timing out",
     "thread_signal_t s; thread_signal_init(&s); CHECK(thread_signal_wait(&s, 500) == 0);",
     pre=_S + "static int gtod(struct timeval *t, void *) { t->tv_sec = 1000; t->tv_usec = 500000; return 0; }\nstatic int ctw(pthread_cond_t *, pthread_mutex_t *, const struct timespec *t) { CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000); return ETIMEDOUT; }\n#define gettimeofday gtod\n#define pthread_cond_timedwait ctw\n" + _I, flags=ND)
seed("signal-raise-unlocked", "C24", L, "        pthread_mutex_lock( &internal->mutex );\n        internal->value = 1;\n        pthread_mutex_unlock( &internal->mutex );\n        pthread_cond_signal", "        __atomic_store_n( &internal->value, 1, __ATOMIC_SEQ_CST );\n        pthread_cond_signal",
     "a raise between the waiter's look at the value and its going to sleep", "the wake-up is lost and the waiter sleeps for ever",
     "thread_signal_init(&s); CHECK(thread_signal_wait(&s, -1) != 0); CHECK(!late); pthread_join(t, 0);",
     pre=_S + "static int cw(pthread_cond_t *, pthread_mutex_t *);\nstatic int (*const realTimed)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = pthread_cond_timedwait;\n#define pthread_cond_wait cw\n" + _I + """static thread_signal_t s; static int late; static pthread_t t; static int started;
static void *go(void *) { thread_signal_raise(&s); return 0; }
static int cw(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!started++) pthread_create(&t, 0, go, 0);
  usleep(300000);
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 3;
  if (realTimed(c, m, &ts) == ETIMEDOUT) late = 1;
  return 0;
}
""", flags=ND)
seed("timer-eintr-twice", "C24", L, "        while( nanosleep( &req, &rem ) )\n            req = rem;", "        if( nanosleep( &req, &rem ) )\n            nanosleep( &rem, NULL );",
     "a sleep interrupted by two signals", "the timer returns before the time has passed",
     "thread_timer_t t; thread_timer_init(&t); thread_timer_wait(&t, 5000000000ULL); CHECK(slept >= 5000000000LL);",
     pre=_S + "static long long slept; static int calls;\nstatic int ns(const struct timespec *a, struct timespec *r) { long long n = a->tv_sec * 1000000000LL + a->tv_nsec; if (calls++ < 2) { slept += n / 2; n -= n / 2; if (r) { r->tv_sec = n / 1000000000; r->tv_nsec = n % 1000000000; } errno = EINTR; return -1; } slept += n; return 0; }\n#define nanosleep ns\n" + _I, flags=ND)
seed("atomic-dec-lost", "C24", L, "        return (int)__sync_fetch_and_sub( &atomic->i, 1 );", "        int old = thread_atomic_int_load( atomic );\n        if( !__sync_bool_compare_and_swap( &atomic->i, old, old - 1 ) )\n            (void)__sync_fetch_and_sub( &atomic->i, 1 );\n        return old;",
     "another thread changing the value between the load and the exchange", "the value is decremented, but what is returned was no longer the value before",
     "thread_atomic_int_store(&a, 5); armed = 1; int r = thread_atomic_int_dec(&a); CHECK(prev == 5 ? r == 105 : r == 5); CHECK(thread_atomic_int_load(&a) == 104);",
     pre=_S + _A + _I + "static thread_atomic_int_t a; static int armed, prev;\nstatic void hook(void *p) { if (armed) { armed = 0; prev = thread_atomic_int_add(&a, 100); } }\n", flags=ND)
seed("atomic-cas-return", "C24", L, "        return __sync_val_compare_and_swap( &atomic->ptr, expected, desired );", "        return __sync_bool_compare_and_swap( &atomic->ptr, expected, desired ) ? expected : thread_atomic_ptr_load( atomic );",
     "a second thread that stores the expected value just after the exchange failed", "the call reports success although nothing was exchanged",
     "thread_atomic_ptr_store(&a, &x); armed = 1; void *r = thread_atomic_ptr_compare_and_swap(&a, &y, &z); armed = 0; void *e = thread_atomic_ptr_load(&a); CHECK((r == &y) == (e == &z));",
     pre=_S + _A + "static int x, y, z;\n" + _I + "static thread_atomic_ptr_t a; static int armed;\nstatic void hook(void *p) { if (armed) { armed = 0; thread_atomic_ptr_store(&a, &y); } }\n", flags=ND)
seed("tls-destroy-zero", "C24", L, "        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );", "        if( value ) pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );",
     "storing NULL after something else", "the old value stays", "int x; thread_tls_t t = thread_tls_create(); thread_tls_set(t, &x); CHECK(thread_tls_get(t) == &x); thread_tls_set(t, 0); CHECK(thread_tls_get(t) == 0);",
     pre=_S + _I, flags=ND)
seed("join-trunc", "C24", L, "        void* retval;\n        pthread_join( (pthread_t) thread, &retval );\n        return (int)(uintptr_t) retval;", "        void* retval;\n        pthread_join( (pthread_t) thread, &retval );\n        return (short)(uintptr_t) retval;",
     "a thread that returns a value outside a short's range", "join returns something else", "CHECK(thread_join(thread_create(f, 0, 0, THREAD_STACK_SIZE_DEFAULT)) == 123456);",
     pre=_S + _I + "static int f(void *) { return 123456; }\n", flags=ND)
