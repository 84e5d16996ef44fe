// pthread synchronisation, clocks, sleeping, randomness, processor count:
// every one of them answered by the simulator while a simulated thread runs.
#include "core.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sched.h>
#include <dlfcn.h>

void rt_check_object(const void* p, size_t n);

struct Obj { // mutex / rwlock / semaphore / once / guard state by address
  uintptr_t key;
  int owner;      // thread id + 1
  int count;      // recursion / readers / semaphore value
  int clock;
  int kind;
};
#define OCAP (1u << 16)
static Obj* objs;
static uint32_t ocount;
static uint64_t cond_seq;
static uint64_t cseq[MAX_THREADS];

void pthread_init_run() { objs = (Obj*)rt_alloc(sizeof(Obj) * OCAP); ocount = 0; cond_seq = 0; }

static Obj* obj(const void* p) {
  uintptr_t k = (uintptr_t)p;
  uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 36;
  for (uint32_t i = h % OCAP;; i = (i + 1) % OCAP) {
    if (objs[i].key == k) return &objs[i];
    if (!objs[i].key) {
      if (++ocount > OCAP / 10 * 9) sim_internal_error("too many synchronisation objects");
      objs[i].key = k;
      return &objs[i];
    }
  }
}
// memory handed out again: whatever lived there before is gone
void sync_forget(uintptr_t a, size_t n) {
  if (!objs || !ocount) return;
  for (uintptr_t k = a; k < a + n; k += 4) {
    uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 36;
    for (uint32_t i = h % OCAP; objs[i].key; i = (i + 1) % OCAP)
      if (objs[i].key == k) { objs[i].owner = 0; objs[i].count = 0; break; }
  }
}
static void wake_blocked(const void* o) {
  for (int i = 0; i < S.nth; i++)
    if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == o) sched_wake(&S.th[i]);
}
#define REAL(name) static decltype(&name) r; if (!r) r = (decltype(&name))real_sym(#name)

static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static int m_lock(pthread_mutex_t* m) {
  Thread* t = tl_self;
  RtGuard g;
  rt_check_object(m, sizeof(int));
  sched_point(E_LOCK, 0);
  Obj* o = obj(m);
  if (o->owner == t->id + 1) {
    int k = mkind(m);
    if (k == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
    if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    sim_violation("self-deadlock", "thread %d locks a mutex it already holds", t->id);
  }
  while (o->owner) { sched_block("mutex", m); rt_check_object(m, sizeof(int)); }
  o->owner = t->id + 1; o->count = 1;
  race_acquire(t, m);
  return 0;
}
static int m_trylock(pthread_mutex_t* m) {
  Thread* t = tl_self;
  RtGuard g;
  rt_check_object(m, sizeof(int));
  sched_point(E_LOCK, 1);
  Obj* o = obj(m);
  if (o->owner == t->id + 1 && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
  if (o->owner) return EBUSY;
  o->owner = t->id + 1; o->count = 1;
  race_acquire(t, m);
  return 0;
}
static void m_release(pthread_mutex_t* m) { // no preemption point
  Obj* o = obj(m);
  o->owner = 0; o->count = 0;
  race_release(tl_self, m);
  wake_blocked(m);
}
static int m_unlock(pthread_mutex_t* m) {
  Thread* t = tl_self;
  RtGuard g;
  rt_check_object(m, sizeof(int));
  Obj* o = obj(m);
  if (o->owner != t->id + 1) {
    if (mkind(m) != PTHREAD_MUTEX_DEFAULT) return EPERM;
    sim_violation("bad-unlock", "thread %d unlocks a mutex it does not hold", t->id);
  }
  if (--o->count > 0) return 0;
  m_release(m);
  sched_point(E_UNLOCK, 0);
  return 0;
}
static uint64_t abs_to_virtual(const struct timespec* ts, int clock) {
  int64_t ns = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clock != CLOCK_MONOTONIC) ns -= S.wall_off + 1700000000000000000ll;
  return ns < 0 ? 0 : (uint64_t)ns;
}
static int m_timedlock(pthread_mutex_t* m, const struct timespec* ts, int clock) {
  Thread* t = tl_self;
  RtGuard g;
  sched_point(E_LOCK, 2);
  Obj* o = obj(m);
  uint64_t dl = abs_to_virtual(ts, clock);
  while (o->owner) {
    if (S.now >= dl) return ETIMEDOUT;
    t->wait_obj = m;
    sched_sleep(dl - S.now < 1000000 ? dl - S.now : 1000000);
  }
  o->owner = t->id + 1; o->count = 1;
  race_acquire(t, m);
  return 0;
}

extern "C" {
SIM_EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (!in_sim()) { REAL(pthread_mutex_lock); return r(m); } return m_lock(m); }
SIM_EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { if (!in_sim()) { REAL(pthread_mutex_trylock); return r(m); } return m_trylock(m); }
SIM_EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { if (!in_sim()) { REAL(pthread_mutex_unlock); return r(m); } return m_unlock(m); }
SIM_EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!in_sim()) { REAL(pthread_mutex_timedlock); return r(m, ts); } return m_timedlock(m, ts, CLOCK_REALTIME); }
SIM_EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!in_sim()) { REAL(pthread_mutex_clocklock); return r(m, c, ts); } return m_timedlock(m, ts, c); }
SIM_EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  REAL(pthread_mutex_init);
  int rc = r(m, a);
  if (in_sim()) { Obj* o = obj(m); o->owner = 0; o->count = 0; }
  return rc;
}
SIM_EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (in_sim()) {
    RtGuard g;
    rt_check_object(m, sizeof(int));
    sched_point(E_UNLOCK, 7);
    Obj* o = obj(m);
    if (o->owner) sim_violation("mutex-destroyed-locked", "thread %d destroys a mutex held by thread %d", tl_self->id, o->owner - 1);
    for (int i = 0; i < S.nth; i++)
      if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == (void*)m)
        sim_violation("mutex-destroyed-waited", "thread %d destroys a mutex that thread %d waits for", tl_self->id, i);
    return 0;
  }
  REAL(pthread_mutex_destroy); return r(m);
}

SIM_EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  REAL(pthread_cond_init);
  int rc = r(c, a);
  if (S.rep) {
    clockid_t ck = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &ck);
    if (objs) { Obj* o = obj(c); o->clock = ck; }
  }
  return rc;
}
SIM_EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (in_sim()) {
    RtGuard g;
    rt_check_object(c, sizeof(int));
    sched_point(E_SIGNAL, 7);
    for (int i = 0; i < S.nth; i++)
      if ((S.th[i].state == T_BLOCKED || S.th[i].state == T_SLEEPING) && S.th[i].wait_obj == (void*)c)
        sim_violation("cond-destroyed-waited", "thread %d destroys a condition variable that thread %d waits on", tl_self->id, i);
    return 0;
  }
  REAL(pthread_cond_destroy); return r(c);
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts, int clock) {
  Thread* t = tl_self;
  RtGuard g;
  rt_check_object(c, sizeof(int));
  rt_check_object(m, sizeof(int));
  sched_point(E_WAIT, ts ? 1 : 0);
  Obj* o = obj(m);
  if (o->owner != t->id + 1) sim_violation("bad-wait", "thread %d waits on a condition variable without holding the mutex", t->id);
  uint64_t spurious = fault_draw("spurious_wakeup", 2, S.p_spurious, false);
  int rc = 0;
  t->cond_signaled = false;
  cseq[t->id] = ++cond_seq;
  o->owner = 0; o->count = 0;
  race_release(t, m);
  wake_blocked(m);
  if (spurious) {
    sched_point(E_WAIT, 2);
  } else if (ts) {
    uint64_t dl = abs_to_virtual(ts, clock);
    t->wait_obj = c;
    t->wait_what = "timed condition wait";
    if (dl > S.now) {
      t->wait_obj = c;
      sched_sleep(dl - S.now);
    } else sched_point(E_WAIT, 3);
    t->wait_obj = nullptr;
    if (!t->cond_signaled) rc = ETIMEDOUT;
  } else {
    sched_block("condition wait", c);
    t->wait_obj = nullptr;
  }
  rt_check_object(c, sizeof(int));
  while (o->owner) { sched_block("mutex (after condition wait)", m); rt_check_object(m, sizeof(int)); }
  o->owner = t->id + 1; o->count = 1;
  race_acquire(t, m);
  return rc;
}
SIM_EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!in_sim()) { REAL(pthread_cond_wait); return r(c, m); } return c_wait(c, m, nullptr, 0); }
SIM_EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!in_sim()) { REAL(pthread_cond_timedwait); return r(c, m, ts); } return c_wait(c, m, ts, obj(c)->clock); }
SIM_EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) { if (!in_sim()) { REAL(pthread_cond_clockwait); return r(c, m, ck, ts); } return c_wait(c, m, ts, ck); }
static void c_signal(pthread_cond_t* c, bool all) {
  RtGuard g;
  rt_check_object(c, sizeof(int));
  sched_point(E_SIGNAL, all);
  Thread* w[MAX_THREADS];
  int n = 0;
  for (int i = 0; i < S.nth; i++) {
    Thread* x = &S.th[i];
    if ((x->state == T_BLOCKED || x->state == T_SLEEPING) && x->wait_obj == (void*)c && !x->cond_signaled) {
      int j = n++;
      while (j > 0 && cseq[w[j - 1]->id] > cseq[x->id]) { w[j] = w[j - 1]; j--; }
      w[j] = x;
    }
  }
  if (!n) return;
  if (all) { for (int i = 0; i < n; i++) { w[i]->cond_signaled = true; sched_wake(w[i]); } }
  else {
    uint64_t k = sched_choose("which waiter to notify", n);
    w[k]->cond_signaled = true;
    sched_wake(w[k]);
  }
}
SIM_EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (!in_sim()) { REAL(pthread_cond_signal); return r(c); } c_signal(c, false); return 0; }
SIM_EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (!in_sim()) { REAL(pthread_cond_broadcast); return r(c); } c_signal(c, true); return 0; }

// read-write locks
SIM_EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!in_sim()) { REAL(pthread_rwlock_rdlock); return r(l); }
  RtGuard g; rt_check_object(l, 4); sched_point(E_LOCK, 3);
  Obj* o = obj(l);
  while (o->owner) sched_block("rwlock", l);
  o->count++; race_acquire(tl_self, l); return 0;
}
SIM_EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!in_sim()) { REAL(pthread_rwlock_tryrdlock); return r(l); }
  RtGuard g; sched_point(E_LOCK, 3);
  Obj* o = obj(l);
  if (o->owner) return EBUSY;
  o->count++; race_acquire(tl_self, l); return 0;
}
SIM_EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!in_sim()) { REAL(pthread_rwlock_wrlock); return r(l); }
  RtGuard g; rt_check_object(l, 4); sched_point(E_LOCK, 4);
  Obj* o = obj(l);
  while (o->owner || o->count) sched_block("rwlock", l);
  o->owner = tl_self->id + 1; race_acquire(tl_self, l); return 0;
}
SIM_EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!in_sim()) { REAL(pthread_rwlock_trywrlock); return r(l); }
  RtGuard g; sched_point(E_LOCK, 4);
  Obj* o = obj(l);
  if (o->owner || o->count) return EBUSY;
  o->owner = tl_self->id + 1; race_acquire(tl_self, l); return 0;
}
SIM_EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!in_sim()) { REAL(pthread_rwlock_unlock); return r(l); }
  RtGuard g;
  Obj* o = obj(l);
  if (o->owner == tl_self->id + 1) o->owner = 0; else o->count--;
  race_release_merge(tl_self, l);
  wake_blocked(l);
  sched_point(E_UNLOCK, 4);
  return 0;
}
SIM_EXPORT int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!in_sim()) { REAL(pthread_spin_lock); return r(l); }
  RtGuard g; sched_point(E_LOCK, 5);
  Obj* o = obj((void*)l);
  while (o->owner) sched_block("spinlock", (void*)l);
  o->owner = tl_self->id + 1; race_acquire(tl_self, (void*)l); return 0;
}
SIM_EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!in_sim()) { REAL(pthread_spin_unlock); return r(l); }
  RtGuard g; Obj* o = obj((void*)l); o->owner = 0; race_release(tl_self, (void*)l); wake_blocked((void*)l); sched_point(E_UNLOCK, 5); return 0;
}
// semaphores
SIM_EXPORT int sem_init(sem_t* s, int sh, unsigned v) {
  if (!in_sim()) { REAL(sem_init); return r(s, sh, v); }
  obj(s)->count = (int)v; return 0;
}
SIM_EXPORT int sem_destroy(sem_t* s) { if (!in_sim()) { REAL(sem_destroy); return r(s); } return 0; }
SIM_EXPORT int sem_wait(sem_t* s) {
  if (!in_sim()) { REAL(sem_wait); return r(s); }
  RtGuard g; rt_check_object(s, 4); sched_point(E_WAIT, 9);
  Obj* o = obj(s);
  while (o->count <= 0) sched_block("semaphore", s);
  o->count--; race_acquire(tl_self, s); return 0;
}
SIM_EXPORT int sem_trywait(sem_t* s) {
  if (!in_sim()) { REAL(sem_trywait); return r(s); }
  RtGuard g; sched_point(E_WAIT, 10);
  Obj* o = obj(s);
  if (o->count <= 0) { errno = EAGAIN; return -1; }
  o->count--; race_acquire(tl_self, s); return 0;
}
SIM_EXPORT int sem_post(sem_t* s) {
  if (!in_sim()) { REAL(sem_post); return r(s); }
  RtGuard g; rt_check_object(s, 4);
  obj(s)->count++; race_release_merge(tl_self, s); wake_blocked(s); sched_point(E_SIGNAL, 9); return 0;
}
// barriers
SIM_EXPORT int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) {
  if (!in_sim()) { REAL(pthread_barrier_init); return r(b, a, n); }
  Obj* o = obj(b); o->kind = (int)n; o->count = 0; o->owner = 0; return 0;
}
SIM_EXPORT int pthread_barrier_destroy(pthread_barrier_t* b) { if (!in_sim()) { REAL(pthread_barrier_destroy); return r(b); } return 0; }
SIM_EXPORT int pthread_barrier_wait(pthread_barrier_t* b) {
  if (!in_sim()) { REAL(pthread_barrier_wait); return r(b); }
  RtGuard g; sched_point(E_WAIT, 11);
  Obj* o = obj(b);
  race_release_merge(tl_self, b);
  int gen = o->owner;
  if (++o->count >= o->kind) { o->count = 0; o->owner++; wake_blocked(b); race_acquire(tl_self, b); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (o->owner == gen) sched_block("barrier", b);
  race_acquire(tl_self, b);
  return 0;
}
SIM_EXPORT int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!in_sim()) { REAL(pthread_once); return r(c, fn); }
  volatile int* st = (volatile int*)c; // glibc: 2 = done; we use 0 new, 1 running, 2 done
  { RtGuard g; sched_point(E_ONCE, 0); }
  Thread* t = tl_self;
  for (;;) {
    if (*st & 2) { RtGuard g; race_acquire(t, (void*)c); return 0; }
    if (*st == 0) break;
    RtGuard g; sched_block("once", (void*)c);
  }
  *st = 1;
  try { fn(); } catch (...) { *st = 0; RtGuard g; wake_blocked((void*)c); throw; }
  RtGuard g;
  *st = 2;
  race_release(t, (void*)c);
  wake_blocked((void*)c);
  return 0;
}
// function-local statics
SIM_EXPORT int __cxa_guard_acquire(uint64_t* gd) {
  volatile uint8_t* b = (volatile uint8_t*)gd;
  if (!in_sim()) {
    if (b[0]) return 0;
    b[1] = 1; return 1;
  }
  RtGuard g;
  sched_point(E_ONCE, 1);
  for (;;) {
    if (b[0]) { race_acquire(tl_self, gd); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    sched_block("static initialisation", gd);
  }
}
SIM_EXPORT void __cxa_guard_release(uint64_t* gd) {
  volatile uint8_t* b = (volatile uint8_t*)gd;
  b[0] = 1; b[1] = 0;
  if (!in_sim()) return;
  RtGuard g;
  race_release(tl_self, gd);
  wake_blocked(gd);
  sched_point(E_ONCE, 2);
}
SIM_EXPORT void __cxa_guard_abort(uint64_t* gd) {
  volatile uint8_t* b = (volatile uint8_t*)gd;
  b[1] = 0;
  if (!in_sim()) return;
  RtGuard g;
  wake_blocked(gd);
}

// ------------------------------------------------------------------- time
SIM_EXPORT int sched_yield(void) { if (!in_sim()) { REAL(sched_yield); return r(); } sched_point(E_YIELD, 0); return 0; }
static int nap(uint64_t ns) { sched_sleep(ns); return 0; }
SIM_EXPORT int usleep(useconds_t us) { if (!in_sim()) { REAL(usleep); return r(us); } return nap((uint64_t)us * 1000); }
SIM_EXPORT unsigned sleep(unsigned s) { if (!in_sim()) { REAL(sleep); return r(s); } nap((uint64_t)s * 1000000000ull); return 0; }
SIM_EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!in_sim()) { REAL(nanosleep); return r(ts, rem); }
  if (rem) memset(rem, 0, sizeof *rem);
  return nap((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
SIM_EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem) {
  if (!in_sim()) { REAL(clock_nanosleep); return r(c, fl, ts, rem); }
  if (rem) memset(rem, 0, sizeof *rem);
  if (fl & TIMER_ABSTIME) { uint64_t v = abs_to_virtual(ts, c); return nap(v > S.now ? v - S.now : 0); }
  return nap((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
static uint64_t vnow(int clock) {
  uint64_t v = S.now + S.gstep; // one nanosecond per event keeps the clock moving
  if (clock != CLOCK_MONOTONIC && clock != CLOCK_MONOTONIC_RAW && clock != CLOCK_MONOTONIC_COARSE && clock != CLOCK_BOOTTIME)
    v += 1700000000000000000ull + (uint64_t)S.wall_off;
  return v;
}
SIM_EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!in_sim()) { REAL(clock_gettime); return r(c, ts); }
  uint64_t v = vnow(c);
  ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
SIM_EXPORT int gettimeofday(struct timeval* tv, void* tz) {
  if (!in_sim()) { static int (*r)(struct timeval*, void*); if (!r) r = (decltype(r))real_sym("gettimeofday"); return r(tv, tz); }
  uint64_t v = vnow(CLOCK_REALTIME);
  tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (long)(v % 1000000000ull / 1000);
  return 0;
}
SIM_EXPORT time_t time(time_t* out) {
  if (!in_sim()) { static time_t (*r)(time_t*); if (!r) r = (decltype(r))real_sym("time"); return r(out); }
  time_t v = (time_t)(vnow(CLOCK_REALTIME) / 1000000000ull);
  if (out) *out = v;
  return v;
}

// ------------------------------------------------------------- randomness
// One source per process, that is per simulated rank (and one for the driver).
struct RandSource { int mode; Rng rng; uint64_t n; uint64_t seed0; int compl_; };
static RandSource rand_sources[16]; static int srand_n;
static RandSource& rsrc() { return rand_sources[tl_self && tl_self->rank >= 0 ? (tl_self->rank + 1) & 15 : 0]; }
SIM_EXPORT void sim_rand_mode(int mode, uint64_t seed) { RandSource& r = rsrc(); r.mode = mode; r.rng.s = seed * 77 + 5; r.seed0 = seed; r.n = 0; r.compl_ = 0; }
SIM_EXPORT void sim_rand_complement(int on) { rsrc().compl_ = on; }
SIM_EXPORT uint64_t sim_rand_calls(void) { return rsrc().n; }
SIM_EXPORT int sim_rand_srand_calls(void) { return srand_n; }
static int rand_raw() {
  RandSource& r = rsrc();
  uint64_t k = r.n++;
  uint64_t u = r.rng.next() & 0x7fffffff;
  int mode = r.mode;
  if (mode == RAND_MIXED) mode = (int)((r.seed0 + k / 17) % 8);
  switch (mode) {
    case RAND_EXTREMES: return (u & 1) ? 0x7fffffff : 0;
    case RAND_CONST_ZERO: return 0;
    case RAND_CONST_MAX: return 0x7fffffff;
    case RAND_ALTERNATE: return (k & 1) ? 0x7fffffff : 0;
    case RAND_LOWBITS: return (int)(u & 3);
    case RAND_SMALL: return (int)(u % 1000);
    case RAND_LARGE: return 0x7fffffff - (int)(u % 1000);
    case RAND_RAMP: return (int)((k * 0x01000193) & 0x7fffffff);
    default: return (int)u;
  }
}
static int rand_next() { int v = rand_raw(); return rsrc().compl_ ? 0x7fffffff - v : v; }
SIM_EXPORT int rand(void) {
  if (!in_sim()) { REAL(rand); return r(); }
  return rand_next();
}
SIM_EXPORT void srand(unsigned s) { if (!in_sim()) { REAL(srand); return r(s); } srand_n++; }
SIM_EXPORT long random(void) { if (!in_sim()) { REAL(random); return r(); } return rand_next(); }
SIM_EXPORT void srandom(unsigned s) { if (!in_sim()) { REAL(srandom); return r(s); } srand_n++; }

// ---------------------------------------------------------------- machine
SIM_EXPORT long sysconf(int name) {
  static long (*r)(int); if (!r) r = (decltype(r))real_sym("sysconf");
  if (in_sim() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return S.cpus;
  return r(name);
}
SIM_EXPORT int get_nprocs(void) { static int (*r)(void); if (in_sim()) return S.cpus; if (!r) r = (decltype(r))real_sym("get_nprocs"); return r(); }
SIM_EXPORT int get_nprocs_conf(void) { static int (*r)(void); if (in_sim()) return S.cpus; if (!r) r = (decltype(r))real_sym("get_nprocs_conf"); return r(); }
SIM_EXPORT void exit(int code) {
  static void (*r)(int); if (!r) r = (decltype(r))real_sym("exit");
  if (in_sim()) {
    if (tl_self->rank >= 0) rank_exit(code);
    RtGuard g;
    sim_violation("unexpected-exit", "the library ended the process with exit(%d)", code);
  }
  r(code);
  __builtin_unreachable();
}
}
