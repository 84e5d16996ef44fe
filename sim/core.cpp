// Deterministic scheduler, choice streams, run loop, minimiser.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <dlfcn.h>
#include <sched.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <fcntl.h>

Sim S;
__thread Thread* tl_self __attribute__((tls_model("initial-exec")));

void* real_sym(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sim: no real %s\n", name); abort(); }
  return p;
}

void* rt_alloc(size_t n) {
  void* p = mmap(nullptr, (n + 4095) & ~size_t(4095), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

static void fwait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static inline uint64_t mix64(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
void sim_mix(uint64_t v) { S.h = mix64(S.h, v); }

// ---------------------------------------------------------------- reporting
static void fill_report(int outcome) {
  RunReport* r = S.rep;
  r->hash = S.h; r->sched_hash = S.hs; r->fault_hash = S.hf;
  r->steps = S.gstep; r->switches = S.switches; r->preemptions = S.preemptions;
  r->now_ns = S.now; r->threads = S.nth; r->syncs = S.nsync;
  r->outcome = outcome;
}
[[noreturn]] void end_run(int outcome) {
  S.active = false;
  fill_report(outcome);
  _exit(outcome == O_OK ? 0 : 10);
}
[[noreturn]] void die_violation(const char* kind, const char* msg) {
  snprintf(S.rep->kind, sizeof S.rep->kind, "%s", kind);
  snprintf(S.rep->msg, sizeof S.rep->msg, "%s", msg);
  if (S.plan.verbose) dprintf(S.log_fd, "VIOLATION kind=%s: %s\n", kind, msg);
  end_run(O_VIOLATION);
}
extern "C" SIM_EXPORT void sim_violation(const char* kind, const char* fmt, ...) {
  char buf[1800];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  die_violation(kind, buf);
}
extern "C" SIM_EXPORT void sim_internal_error(const char* fmt, ...) {
  char buf[1800];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  snprintf(S.rep->kind, sizeof S.rep->kind, "internal");
  snprintf(S.rep->msg, sizeof S.rep->msg, "%s", buf);
  if (S.plan.verbose) dprintf(S.log_fd, "INTERNAL: %s\n", buf);
  end_run(O_INTERNAL);
}
extern "C" SIM_EXPORT void sim_log(const char* fmt, ...) {
  if (!S.plan.verbose) return;
  char buf[1800];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  dprintf(S.log_fd, "[t%d e%llu %llums] %s\n", tl_self ? tl_self->id : -1,
          (unsigned long long)S.gstep, (unsigned long long)(S.now / 1000000), buf);
}
extern "C" SIM_EXPORT void sim_probe(const char* name, uint64_t add) {
  RunReport* r = S.rep;
  for (uint32_t i = 0; i < r->nprobes; i++)
    if (!strcmp(r->probe_name[i], name)) { r->probe[i] += add; return; }
  if (r->nprobes >= MAX_PROBES) return;
  snprintf(r->probe_name[r->nprobes], 48, "%s", name);
  r->probe[r->nprobes++] = add;
}
extern "C" SIM_EXPORT void sim_hash(uint64_t v) { sim_mix(v); }
extern "C" SIM_EXPORT void sim_state(uint64_t v) {
  RunReport* r = S.rep;
  for (uint32_t i = 0; i < r->nstates; i++) if (r->states[i] == v) return;
  if (r->nstates < MAX_STATES) r->states[r->nstates++] = v;
}
extern "C" SIM_EXPORT void sim_set_cpus(int n) { S.cpus = n; }
extern "C" SIM_EXPORT uint64_t sim_now_ns(void) { return S.now; }
extern "C" SIM_EXPORT uint64_t sim_steps(void) { return S.gstep; }
extern "C" SIM_EXPORT int sim_self(void) { return tl_self ? tl_self->id : -1; }
extern "C" SIM_EXPORT int sim_live_threads(void) { return S.nlive; }
extern "C" SIM_EXPORT void sim_clock_jump(int64_t ns) { S.wall_off += ns; }
extern "C" SIM_EXPORT void sim_thread_create_faults(double p) { S.p_thread_create = p; }
extern "C" SIM_EXPORT void sim_spurious_wakeups(double p) { S.p_spurious = p; }
extern "C" SIM_EXPORT void sim_faults_enable(int on) { S.faults_on = on; }
extern "C" SIM_EXPORT void sim_set_race_detection(int on) { S.race_on = on; }
extern "C" SIM_EXPORT void sim_deadline(uint64_t in_ns) { S.deadline_len = in_ns; S.deadline = in_ns ? S.now + in_ns : 0; S.deadline_fair = S.gstep >= S.fair_after; }
extern "C" SIM_EXPORT void sim_no_stalls(void) { S.p_advance = 0; }
extern "C" SIM_EXPORT void sim_alloc_faults(double main_thread, double others) { S.p_alloc[0] = main_thread; S.p_alloc[1] = others; S.alloc_site = main_thread >= 0; }
extern "C" SIM_EXPORT uint64_t sim_alloc_failures(void) { return S.alloc_failures; }

// ------------------------------------------------------------------ streams
extern "C" SIM_EXPORT uint64_t sim_draw(uint64_t n) {
  if (n <= 1) n = 1;
  RunReport* r = S.rep;
  uint64_t v;
  if (S.plan.replay) v = S.work_pos < S.plan.nwork ? S.plan.work[S.work_pos] % n : 0;
  else v = S.rw.below(n);
  if (S.work_pos < MAX_WORK) { r->work[S.work_pos] = v; r->nwork = S.work_pos + 1; }
  S.work_pos++;
  sim_mix(v);
  return v;
}
extern "C" SIM_EXPORT int sim_chance(int percent) {
  // 0 = the simple case
  uint64_t v = sim_draw(100);
  return v >= (uint64_t)(100 - percent);
}

static uint32_t site_index(const char* site) {
  RunReport* r = S.rep;
  for (uint32_t i = 0; i < r->nsites; i++)
    if (!strcmp(r->site_name[i], site)) return i;
  if (r->nsites >= MAX_SITES) return MAX_SITES - 1;
  if (strchr(site, ' ')) sim_internal_error("name of a fault with a space");
  snprintf(r->site_name[r->nsites], 32, "%s", site);
  return r->nsites++;
}
uint64_t fault_draw(const char* site, uint64_t n, double percent, bool need_window) {
  RunReport* r = S.rep;
  uint32_t si = site_index(site);
  uint64_t occ = r->site_draws[si]++;
  uint64_t v = 0;
  if (S.plan.replay) {
    for (uint32_t i = 0; i < S.plan.nfault; i++)
      if (S.plan.fault[i].occ == occ && S.plan.fault[i].site < S.plan.nsites &&
          !strcmp(S.plan.site_name[S.plan.fault[i].site], site)) { v = S.plan.fault[i].value % n; break; }
  } else if (percent > 0 && (!need_window || S.faults_on)) {
    if (S.rf.unit() * 100.0 < percent) v = n <= 2 ? 1 : 1 + S.rf.below(n - 1);
  }
  if (v) {
    r->site_fired[si]++;
    S.hf = mix64(mix64(S.hf, si), mix64(occ, v));
    sim_mix(0xFA000000u + v);
    if (r->nfault < MAX_FAULTS) {
      FaultDec* f = &r->fault[r->nfault++];
      f->site = si; f->value = (uint32_t)v; f->occ = occ;
    }
    sim_log("fault %s#%llu = %llu", site, (unsigned long long)occ, (unsigned long long)v);
  }
  return v;
}
extern "C" SIM_EXPORT uint64_t sim_fault(const char* site, uint64_t n, double percent) {
  return fault_draw(site, n, percent, true);
}

// ---------------------------------------------------------------- scheduler
static const char* ev_name[] = {"?", "mem", "lock", "unlock", "wait", "signal", "create", "join", "exit",
                                "atomic", "yield", "sleep", "once", "io", "user", "msg"};

static void record(Thread* t, uint32_t target) {
  RunReport* r = S.rep;
  r->nondefault++;
  if (r->ndec < MAX_DECS) {
    Dec* d = &r->dec[r->ndec++];
    d->tid = t->id; d->target = target; d->lstep = t->lstep;
  }
}
// replay: decision recorded for (t, t->lstep)?  returns -1 if none
static int64_t replay_lookup(Thread* t) {
  Dec* d = S.plan.dec;
  uint32_t n = S.plan.ndec;
  while (t->rp_pos < n && ((int)d[t->rp_pos].tid < t->id ||
                           ((int)d[t->rp_pos].tid == t->id && d[t->rp_pos].lstep < t->lstep)))
    t->rp_pos++;
  if (t->rp_pos < n && (int)d[t->rp_pos].tid == t->id && d[t->rp_pos].lstep == t->lstep)
    return d[t->rp_pos].target;
  return -1;
}
static void replay_arm(Thread* t) {
  Dec* d = S.plan.dec;
  uint32_t n = S.plan.ndec;
  uint32_t p = t->rp_pos;
  while (p < n && ((int)d[p].tid < t->id || ((int)d[p].tid == t->id && d[p].lstep <= t->lstep))) p++;
  t->next_check = (p < n && (int)d[p].tid == t->id) ? d[p].lstep : ~0ull;
}
static uint64_t draw_gap() {
  if (S.gap_mean <= 0) return 1u << 30;
  double u = S.rs.unit();
  double g = -S.gap_mean * log(1.0 - u) + 1;
  if (g > 1e9) g = 1e9;
  return (uint64_t)g;
}
#define FAIR_SLICE 3000
static void arm(Thread* t) {
  // the fair-phase rotation points are the same in generation and in replay
  uint64_t fair = (t->lstep / FAIR_SLICE + 1) * FAIR_SLICE;
  if (S.plan.replay) replay_arm(t);
  else t->next_check = t->lstep + draw_gap();
  if (t->next_check > fair) t->next_check = fair;
}

static Thread* next_cyclic(Thread* t) {
  for (int k = 1; k <= S.nth; k++) {
    Thread* c = &S.th[(t->id + k) % S.nth];
    if (c->state == T_RUNNABLE) return c;
  }
  return nullptr;
}
static Thread* earliest_sleeper() {
  Thread* b = nullptr;
  for (int i = 0; i < S.nth; i++) {
    Thread* c = &S.th[i];
    if (c->state == T_SLEEPING && (!b || c->wake_ns < b->wake_ns)) b = c;
  }
  return b;
}
static void dump_threads(char* b, size_t n);
static void advance_clock() {
  Thread* b = earliest_sleeper();
  if (!b) return;
  if (b->wake_ns > S.now) S.now = b->wake_ns;
  if (S.deadline && S.now > S.deadline && S.gstep >= S.fair_after) {
    // only time that passed under fair scheduling counts
    if (!S.deadline_fair) { S.deadline_fair = true; S.deadline = S.now + S.deadline_len; }
  }
  if (S.deadline && S.deadline_fair && S.now > S.deadline) {
    char d[1500]; dump_threads(d, sizeof d);
    char m[1800]; snprintf(m, sizeof m, "not ended by its deadline of %.1f simulated seconds: %s", S.deadline * 1e-9, d);
    die_violation("hang", m);
  }
  for (int i = 0; i < S.nth; i++) {
    Thread* c = &S.th[i];
    if (c->state == T_SLEEPING && c->wake_ns <= S.now) c->state = T_RUNNABLE;
  }
}

static void switch_to(Thread* t) {
  Thread* me = S.cur;
  if (t == me) return;
  S.switches++;
  S.last_switch_step = S.gstep;
  S.cur = t;
  me->go = 0;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  fwake(&t->go);
  if (me->state == T_FINISHED) return;
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) fwait(&me->go, 0);
}

static Thread* policy_pick(Thread* t, bool voluntary, Ev e, uint32_t* special) {
  *special = 0;
  Thread* cand[MAX_THREADS];
  int n = 0;
  bool sleepers = false;
  for (int i = 0; i < S.nth; i++) {
    if (S.th[i].state == T_RUNNABLE) cand[n++] = &S.th[i];
    else if (S.th[i].state == T_SLEEPING) sleepers = true;
  }
  if (n == 0) return nullptr;
  if (sleepers && S.p_advance > 0 && S.rs.unit() < S.p_advance) { *special = SIM_TARGET_ADVANCE; return nullptr; }
  if (n == 1) return cand[0];
  switch (S.policy) {
    case 1: // random walk at synchronisation points
    case 4: {
      if (voluntary && e != E_YIELD && e != E_MEM && S.rs.unit() >= S.p_sync) return t;
      if (S.policy == 4 && voluntary && e != E_YIELD && e != E_MEM) return t;
      return cand[S.rs.below(n)];
    }
    case 2: { // PCT
      if (voluntary && S.pct_left > 0 && (e == E_MEM || S.rs.unit() < 0.03)) {
        S.pct_left--;
        t->prio = -(double)(S.pct_left + 1) - S.rs.unit();
      }
      if (e == E_YIELD) t->prio = -100 + S.rs.unit();
      Thread* b = cand[0];
      for (int i = 1; i < n; i++) if (cand[i]->prio > b->prio) b = cand[i];
      return b;
    }
    case 3: { // starvation: weights
      if (voluntary && e != E_YIELD && e != E_MEM && S.rs.unit() >= S.p_sync) return t;
      double tot = 0;
      for (int i = 0; i < n; i++) tot += cand[i]->prio;
      double x = S.rs.unit() * tot;
      for (int i = 0; i < n; i++) { x -= cand[i]->prio; if (x <= 0) return cand[i]; }
      return cand[n - 1];
    }
    default:
      return nullptr;
  }
}

static void dump_threads(char* b, size_t n) {
  size_t o = 0;
  for (int i = 0; i < S.nth && o + 60 < n; i++) {
    Thread* c = &S.th[i];
    if (c->state == T_FINISHED) continue;
    o += snprintf(b + o, n - o, "%sthread %d: %s%s", o ? "; " : "", i,
                  c->state == T_BLOCKED ? "blocked in " : c->state == T_SLEEPING ? "sleeping" : "runnable",
                  c->state == T_BLOCKED ? c->wait_what : "");
    if (c->rank >= 0) o += snprintf(b + o, n - o, " (rank %d)", c->rank);
  }
}

// one scheduling decision; t->lstep identifies it
static void decide(Thread* t, bool voluntary, Ev e) {
  for (;;) {
    Thread* def = nullptr;
    if (voluntary) {
      def = t;
      bool slice = e == E_MEM ? t->lstep % FAIR_SLICE == 0 : S.gstep - S.last_switch_step >= FAIR_SLICE;
      if (e == E_YIELD || (S.gstep >= S.fair_after && slice)) {
        Thread* o = next_cyclic(t);
        if (o) def = o;
      }
    } else {
      def = next_cyclic(t);
    }
    if (!def) { // nobody can run: let time pass
      if (!earliest_sleeper()) {
        if (t->state == T_FINISHED) {
          int live = 0;
          for (int i = 0; i < S.nth; i++) if (S.th[i].state != T_FINISHED) live++;
          if (live == 0) return;
        }
        char b[1500];
        dump_threads(b, sizeof b);
        die_violation("deadlock", b);
      }
      advance_clock();
      t->lstep++;
      continue;
    }
    Thread* pick = def;
    uint32_t special = 0;
    if (S.plan.replay) {
      int64_t d = replay_lookup(t);
      if (d >= 0) {
        if (d == SIM_TARGET_ADVANCE) { if (earliest_sleeper()) special = SIM_TARGET_ADVANCE; }
        else if (d < S.nth && S.th[d].state == T_RUNNABLE) pick = &S.th[d];
      }
    } else if (S.gstep < S.fair_after) {
      Thread* p = policy_pick(t, voluntary, e, &special);
      if (p) pick = p;
    }
    if (special) {
      record(t, special);
      advance_clock();
      t->lstep++;
      continue;
    }
    if (pick != def) record(t, pick->id);
    if (pick != t) {
      if (voluntary) S.preemptions++;
      if (S.plan.verbose) sim_log("switch %d -> %d (%s)", t->id, pick->id, voluntary ? "preempt" : t->wait_what ? t->wait_what : "");
      S.hs = mix64(S.hs, (t->id << 16) ^ (pick->id << 8) ^ e);
      sim_mix(t->lstep * 64 + pick->id);
      switch_to(pick);
    }
    return;
  }
}

static void check_cap() {
  if (S.gstep > S.step_cap || S.nsync > S.sync_cap) {
    char b[1500];
    dump_threads(b, sizeof b);
    char m[1800];
    snprintf(m, sizeof m, "no progress within %llu events (%llu of them synchronisation) although scheduling is fair and faults have stopped: %s",
             (unsigned long long)S.gstep, (unsigned long long)S.nsync, b);
    die_violation("livelock", m);
  }
}

void mem_slow(Thread* t) {
  RtGuard g;
  check_cap();
  if (!t->preempt_off && S.nlive > 1) decide(t, true, E_MEM);
  arm(t);
}
void sched_point(Ev e, uint64_t info) {
  Thread* t = tl_self;
  RtGuard g;
  t->lstep++; S.gstep++; S.nsync++;
  S.hs = mix64(S.hs, (uint64_t)t->id * 32 + e);
  sim_mix(((uint64_t)t->id << 40) ^ ((uint64_t)e << 32) ^ info);
  if (S.plan.verbose) sim_log("%s %llx", ev_name[e], (unsigned long long)info);
  check_cap();
  if (!t->preempt_off && S.nlive > 1) decide(t, true, e);
  if (S.plan.replay && t->next_check <= t->lstep) arm(t);
}
void sched_block(const char* what, void* obj) {
  Thread* t = tl_self;
  RtGuard g;
  t->lstep++; S.gstep++; S.nsync++;
  t->state = T_BLOCKED;
  t->wait_what = what; t->wait_obj = obj;
  check_cap();
  sim_mix(0xB10C0000u + t->id);
  decide(t, false, E_LOCK);
  t->wait_what = nullptr;
  if (S.plan.replay && t->next_check <= t->lstep) arm(t);
}
void sched_wake(Thread* t) { if (t->state == T_BLOCKED || t->state == T_SLEEPING) t->state = T_RUNNABLE; }
void sched_sleep(uint64_t ns) {
  Thread* t = tl_self;
  RtGuard g;
  t->lstep++; S.gstep++; S.nsync++;
  t->state = T_SLEEPING;
  t->wake_ns = S.now + ns;
  check_cap();
  sim_mix(ns);
  decide(t, false, E_SLEEP);
  if (S.plan.replay && t->next_check <= t->lstep) arm(t);
}
uint64_t sched_choose(const char* what, uint64_t n) {
  if (n <= 1) return 0;
  Thread* t = tl_self;
  t->lstep++; S.gstep++;
  uint64_t v = 0;
  if (S.plan.replay) {
    int64_t d = replay_lookup(t);
    if (d >= 0) v = (uint64_t)d % n;
  } else if (S.gstep < S.fair_after && S.policy != 0) {
    v = S.rs.below(n);
  }
  if (v) record(t, (uint32_t)v);
  sim_mix(v);
  if (S.plan.verbose && v) sim_log("choose %s = %llu of %llu", what, (unsigned long long)v, (unsigned long long)n);
  if (S.plan.replay && t->next_check <= t->lstep) arm(t);
  return v;
}
extern "C" SIM_EXPORT void sim_yield(void) { if (in_sim()) sched_point(E_USER, 0); }
extern "C" SIM_EXPORT void sim_sleep_ns(uint64_t ns) { sched_sleep(ns); }

// ------------------------------------------------------------------ threads
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static pthread_key_t exit_key;
#define STACK_BASE 0x300000000000ull
#define STACK_SIZE (4ull << 20)

static void thread_finished(Thread* t) {
  RtGuard g;
  t->lstep++; S.gstep++;
  S.hs = mix64(S.hs, (uint64_t)t->id * 32 + E_EXIT);
  sim_mix(0xE817000 + t->id);
  t->state = T_FINISHED;
  S.nlive--;
  for (int i = 0; i < S.nth; i++)
    if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == (void*)t) sched_wake(&S.th[i]);
  if (S.plan.verbose) sim_log("thread %d finished", t->id);
  decide(t, false, E_EXIT);
}
static void exit_key_dtor(void* p) {
  Thread* t = (Thread*)p;
  if (!S.active) return;
  if (++t->key_rounds < 4) { // let the other keys' destructors run first
    pthread_setspecific(exit_key, t);
    return;
  }
  thread_finished(t);
}
static void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) fwait(&t->go, 0);
  tl_self = t;
  t->in_rt++;
  pthread_setspecific(exit_key, t);
  arm(t);
  t->in_rt--;
  t->retval = t->fn(t->arg);
  return t->retval;
}
Thread* thread_spawn(void* (*fn)(void*), void* arg, int rank) {
  RtGuard g;
  if (S.nth >= MAX_THREADS) {
    if (S.active) sim_internal_error("too many simulated threads");
    return nullptr;
  }
  Thread* t = &S.th[S.nth];
  memset(t, 0, sizeof *t);
  t->id = S.nth++;
  S.nlive++;
  t->fn = fn; t->arg = arg; t->rank = rank;
  t->state = T_RUNNABLE;
  if (S.policy == 3) t->prio = S.rs.unit() < 0.4 ? 0.02 : 1.0;
  else t->prio = S.rs.unit();
  t->stack_lo = (char*)(STACK_BASE + (uint64_t)t->id * (STACK_SIZE + (1 << 16)));
  t->stack_len = STACK_SIZE;
  void* m = mmap(t->stack_lo, STACK_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("stack"); _exit(3); }
  race_fork(tl_self, t);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stack_lo, STACK_SIZE);
  int rc = real_pthread_create(&t->real, &at, trampoline, t);
  pthread_attr_destroy(&at);
  if (rc) { fprintf(stderr, "sim: real pthread_create failed %d\n", rc); _exit(3); }
  return t;
}
void thread_join_sim(Thread* c) {
  Thread* t = tl_self;
  sched_point(E_JOIN, c->id);
  while (c->state != T_FINISHED) sched_block("join", c);
  race_join(t, c);
}
static Thread* by_real(pthread_t p) {
  for (int i = 0; i < S.nth; i++) if (S.th[i].real == p && !S.th[i].joined) return &S.th[i];
  return nullptr;
}
extern "C" SIM_EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))real_sym("pthread_create");
  if (!in_sim()) return real_pthread_create(out, attr, fn, arg);
  uint64_t f = fault_draw("thread_create", 3, S.p_thread_create, true);
  if (f) { sched_point(E_CREATE, 999); return f == 1 ? EAGAIN : ENOMEM; }
  Thread* t = thread_spawn(fn, arg, tl_self->rank);
  *out = t->real;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    if (ds == PTHREAD_CREATE_DETACHED) { t->detached = true; }
  }
  sched_point(E_CREATE, t->id);
  return 0;
}
extern "C" SIM_EXPORT int pthread_join(pthread_t p, void** ret) {
  if (!real_pthread_join) real_pthread_join = (decltype(real_pthread_join))real_sym("pthread_join");
  if (!in_sim()) return real_pthread_join(p, ret);
  Thread* c = by_real(p);
  if (!c) return ESRCH;
  if (c == tl_self) return EDEADLK;
  thread_join_sim(c);
  if (c->joined) return EINVAL;
  c->joined = true;
  RtGuard g;
  real_pthread_join(p, ret);
  return 0;
}
extern "C" SIM_EXPORT int pthread_detach(pthread_t p) {
  if (!real_pthread_detach) real_pthread_detach = (decltype(real_pthread_detach))real_sym("pthread_detach");
  if (!in_sim()) return real_pthread_detach(p);
  Thread* c = by_real(p);
  if (!c) return ESRCH;
  c->detached = true;
  sched_point(E_JOIN, 500 + c->id);
  return 0; // the real thread is simply never reaped: the process ends with the run
}

// ---------------------------------------------------------- the run (child)
typedef void (*scenario_fn)(void);
static scenario_fn g_scenario;
static const char* g_scenario_name;
static volatile int main_done;

static void* sim_main(void*) {
  g_scenario();
  if (S.active) end_run(O_OK);
  return nullptr;
}
extern "C" void rt_backtrace(Thread* t, char* b, size_t n);
static void on_signal(int sig, siginfo_t* si, void*) {
  signal(sig, SIG_DFL);
  if (!S.rep || !S.active) _exit(11);
  char bt[900]; bt[0] = 0;
  Thread* t = tl_self;
  if (t) rt_backtrace(t, bt, sizeof bt);
  const char* k = sig == SIGABRT ? "abort" : sig == SIGFPE ? "crash-SIGFPE" : sig == SIGILL ? "crash-SIGILL" : sig == SIGBUS ? "crash-SIGBUS" : "crash-SIGSEGV";
  char m[1500];
  snprintf(m, sizeof m, "signal %d%s in thread %d: %s", sig, sig == SIGABRT ? " (uncaught exception or failed assertion)" : "",
           t ? t->id : -1, bt);
  (void)si;
  die_violation(k, m);
}

static void choose_policy() {
  uint64_t r = S.rs.below(100);
  if (r < 6) S.policy = 0;
  else if (r < 40) S.policy = 1;
  else if (r < 66) S.policy = 2;
  else if (r < 84) S.policy = 3;
  else S.policy = 4;
  static const double ps[] = {0.02, 0.1, 0.25, 0.5, 0.9};
  S.p_sync = ps[S.rs.below(5)];
  static const double gaps[] = {0, 0, 10, 40, 200, 1000, 5000, 20000};
  S.gap_mean = gaps[S.rs.below(8)];
  if (S.policy == 4 && S.gap_mean == 0) S.gap_mean = 100;
  if (S.policy == 0) S.gap_mean = 0;
  S.pct_left = S.policy == 2 ? (int)S.rs.below(6) : 0;
  if (S.policy == 2 && S.gap_mean > 0) S.gap_mean *= 4;
  static const double adv[] = {0, 0, 0.005, 0.05};
  S.p_advance = S.policy == 0 ? 0 : adv[S.rs.below(4)];
}

static int g_stdout_fd = 1;

static void child_run(const RunPlan& plan, RunReport* rep) {
  S.plan = plan;
  S.rep = rep;
  S.log_fd = g_stdout_fd;
  S.rw.s = plan.seed * 0x9E3779B97F4A7C15ull + 11;
  S.rs.s = plan.seed * 0xD1B54A32D192ED03ull + 23;
  S.rf.s = plan.seed * 0x8CB92BA72F3D8DD7ull + 37;
  S.rr.s = plan.seed * 0xAEF17502108EF2D9ull + 53;
  S.rw.next(); S.rs.next(); S.rf.next(); S.rr.next();
  S.now = 1000000000ull;
  S.cpus = 4;
  S.faults_on = false;
  S.alloc_site = false; S.alloc_failures = 0;
  S.race_on = true;
  S.fair_after = 600000;
  S.step_cap = 400000000; S.sync_cap = 8000000;
  S.h = 1469598103934665603ull; S.hs = S.h; S.hf = S.h;
  if (!plan.replay) choose_policy();
  // the memory of this run: whether it is reused and what it is filled with (a function of the seed alone, so that it is the same in a replay)
  Rng rh; rh.s = plan.seed * 0xA24BAED4963EE407ull + 71; rh.next();
  static const uint8_t fills[] = {0, 0, 0xA5, 0xFF, 0x01};
  S.heap_reuse = rh.below(100) < 25; S.heap_fill = fills[rh.below(5)];
  arena_reset_marks(S.heap_reuse, S.heap_fill);
  if (S.heap_reuse) sim_probe("runs with memory reused", 1);
  if (S.heap_fill) sim_probe("runs with new memory filled with garbage", 1);
  race_init();
  disk_init_run();
  fftw_init_run();
  mpi_init_run();
  pthread_init_run();
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  if (!plan.verbose) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); if (!getenv("SIM_KEEP_STDERR")) dup2(dn, 2);
  } else {
    int dn = open("/dev/null", O_WRONLY);
    S.log_fd = dup(1);
    dup2(dn, 1); if (!getenv("SIM_KEEP_STDERR")) dup2(dn, 2);
  }
  pthread_key_create(&exit_key, exit_key_dtor);
  S.active = false;
  Thread* t = thread_spawn(sim_main, nullptr, -1);
  S.cur = t;
  S.active = true;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  fwake(&t->go);
  for (;;) pause();
}

// --------------------------------------------------------------- the parent
static RunReport* new_report() {
  return (RunReport*)mmap(nullptr, sizeof(RunReport), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void clear_report(RunReport* r) { memset(r, 0, offsetof(RunReport, dec)); }

static double wall() { struct timeval tv; static int (*rg)(struct timeval*, void*); if (!rg) rg = (decltype(rg))real_sym("gettimeofday"); rg(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

static volatile sig_atomic_t alarm_pid;
static void on_alarm(int) { if (alarm_pid > 0) kill(alarm_pid, SIGKILL); }

static int g_run_wall = 200, g_run_cpu = 40; // seconds of real time and of processor time per run
static void run_once(const RunPlan& plan, RunReport* rep) {
  clear_report(rep);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) { struct rlimit rl = {(rlim_t)g_run_cpu, (rlim_t)g_run_cpu + 5}; setrlimit(RLIMIT_CPU, &rl); child_run(plan, rep); _exit(3); }
  alarm_pid = pid;
  struct itimerval it = {{5, 0}, {g_run_wall, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  struct itimerval z = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &z, nullptr);
  alarm_pid = 0;
  if (rep->outcome == O_NONE) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
      // orders of magnitude more than any run needs: it goes round without an event
      rep->outcome = O_VIOLATION;
      snprintf(rep->kind, sizeof rep->kind, "no-progress");
      snprintf(rep->msg, sizeof rep->msg, "the run used more than %d s of processor time without ending", g_run_cpu);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      rep->outcome = O_INTERNAL;
      snprintf(rep->kind, sizeof rep->kind, "wall-timeout");
      snprintf(rep->msg, sizeof rep->msg, "the run used more than %d s of real time (or was killed)", g_run_wall);
    } else if (WIFSIGNALED(st)) {
      rep->outcome = O_VIOLATION;
      snprintf(rep->kind, sizeof rep->kind, "crash-signal-%d", WTERMSIG(st));
      snprintf(rep->msg, sizeof rep->msg, "the process was ended by signal %d", WTERMSIG(st));
    } else {
      rep->outcome = O_VIOLATION;
      snprintf(rep->kind, sizeof rep->kind, "process-exit-%d", WEXITSTATUS(st));
      snprintf(rep->msg, sizeof rep->msg, "the simulated process exited unexpectedly with status %d", WEXITSTATUS(st));
    }
  }
}

// plan storage (owned)
struct OwnPlan {
  RunPlan p;
  Dec* dec; FaultDec* fault; uint64_t* work; char (*names)[32];
  void init() {
    dec = (Dec*)rt_alloc(sizeof(Dec) * MAX_DECS);
    fault = (FaultDec*)rt_alloc(sizeof(FaultDec) * MAX_FAULTS);
    work = (uint64_t*)rt_alloc(sizeof(uint64_t) * MAX_WORK);
    names = (char (*)[32])rt_alloc(32 * MAX_SITES);
    memset(&p, 0, sizeof p);
    p.dec = dec; p.fault = fault; p.work = work; p.site_name = names; p.replay = true;
  }
  static int cmp(const void* a, const void* b) {
    const Dec* x = (const Dec*)a; const Dec* y = (const Dec*)b;
    if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1;
    return x->lstep < y->lstep ? -1 : x->lstep > y->lstep ? 1 : 0;
  }
  void from_report(const RunReport* r, uint64_t seed) {
    p.seed = seed; p.replay = true;
    p.ndec = r->ndec; p.nfault = r->nfault; p.nwork = r->nwork; p.nsites = r->nsites;
    memcpy(dec, r->dec, sizeof(Dec) * r->ndec);
    memcpy(fault, r->fault, sizeof(FaultDec) * r->nfault);
    memcpy(work, r->work, sizeof(uint64_t) * r->nwork);
    memcpy(names, r->site_name, 32 * r->nsites);
    qsort(dec, p.ndec, sizeof(Dec), cmp);
  }
  void copy(const OwnPlan& o) {
    Dec* d = dec; FaultDec* f = fault; uint64_t* w = work; char (*nm)[32] = names;
    p = o.p;
    p.dec = d; p.fault = f; p.work = w; p.site_name = nm;
    memcpy(dec, o.dec, sizeof(Dec) * p.ndec);
    memcpy(fault, o.fault, sizeof(FaultDec) * p.nfault);
    memcpy(work, o.work, sizeof(uint64_t) * p.nwork);
    memcpy(names, o.names, 32 * p.nsites);
  }
};

static const char* g_prop = "?";
static void write_replay(const char* path, const OwnPlan& o, const RunReport* r, uint64_t found_seed, const char* extra) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "# k52 deterministic simulation replay\nproperty %s\nscenario %s\nseed %llu\nkind %s\nhash %016llx\n", g_prop,
          g_scenario_name, (unsigned long long)found_seed, r->kind, (unsigned long long)r->hash);
  fprintf(f, "message %s\n", r->msg);
  if (extra) fprintf(f, "%s", extra);
  fprintf(f, "# workload choices in draw order (beyond the end: 0)\nwork %u", o.p.nwork);
  for (uint32_t i = 0; i < o.p.nwork; i++) fprintf(f, " %llu", (unsigned long long)o.work[i]);
  fprintf(f, "\n# non-default scheduling decisions: thread, its local event number, what to run (1000 = let time pass)\n");
  for (uint32_t i = 0; i < o.p.ndec; i++)
    fprintf(f, "sched %u %llu %u\n", o.dec[i].tid, (unsigned long long)o.dec[i].lstep, o.dec[i].target);
  fprintf(f, "# injected faults: site, occurrence, value\n");
  for (uint32_t i = 0; i < o.p.nfault; i++)
    fprintf(f, "fault %s %llu %u\n", o.names[o.fault[i].site], (unsigned long long)o.fault[i].occ, o.fault[i].value);
  fprintf(f, "end\n");
  fclose(f);
}
static bool read_replay(const char* path, OwnPlan& o, char* kind, size_t kn, uint64_t* hash) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return false; }
  static char line[1 << 20];
  kind[0] = 0; *hash = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    unsigned long long a, b; unsigned c;
    if (sscanf(line, "seed %llu", &a) == 1) o.p.seed = a;
    else if (!strncmp(line, "kind ", 5)) { snprintf(kind, kn, "%s", line + 5); kind[strcspn(kind, "\n")] = 0; }
    else if (sscanf(line, "hash %llx", &a) == 1) *hash = a;
    else if (!strncmp(line, "work ", 5)) {
      char* s = line + 5; char* e;
      o.p.nwork = strtoul(s, &e, 10); s = e;
      for (uint32_t i = 0; i < o.p.nwork && i < MAX_WORK; i++) { o.work[i] = strtoull(s, &e, 10); s = e; }
    } else if (sscanf(line, "sched %llu %llu %u", &a, &b, &c) == 3) {
      Dec* d = &o.dec[o.p.ndec++]; d->tid = a; d->lstep = b; d->target = c;
    } else if (!strncmp(line, "fault ", 6)) {
      char nm[32];
      if (sscanf(line, "fault %31s %llu %u", nm, &a, &c) == 3) {
        uint32_t i;
        for (i = 0; i < o.p.nsites; i++) if (!strcmp(o.names[i], nm)) break;
        if (i == o.p.nsites) { snprintf(o.names[i], 32, "%s", nm); o.p.nsites++; }
        FaultDec* d = &o.fault[o.p.nfault++]; d->site = i; d->occ = a; d->value = c;
      }
    }
  }
  fclose(f);
  qsort(o.dec, o.p.ndec, sizeof(Dec), OwnPlan::cmp);
  return true;
}

// --- minimisation: chunk deletion over decisions and faults, then shrinking
// of the workload values; keeps the violation kind.
static uint64_t g_min_attempts;
struct Minimiser {
  OwnPlan best, cand;
  RunReport* rep;
  char kind[96];
  double deadline;
  bool try_cand() {
    if (wall() > deadline) return false;
    g_min_attempts++;
    run_once(cand.p, rep);
    if (rep->outcome == O_VIOLATION && !strcmp(rep->kind, kind)) { best.copy(cand); return true; }
    return false;
  }
  template <class T> void ddmin(T* OwnPlan::*arr, uint32_t RunPlan::*cnt) {
    uint32_t chunk = (best.p.*cnt + 1) / 2;
    if (best.p.*cnt) { // all at once
      cand.copy(best);
      cand.p.*cnt = 0;
      if (try_cand()) return;
    }
    while (chunk >= 1 && best.p.*cnt > 0 && wall() < deadline) {
      bool any = false;
      for (uint32_t i = 0; i < best.p.*cnt && wall() < deadline;) {
        cand.copy(best);
        uint32_t n = best.p.*cnt, k = chunk < n - i ? chunk : n - i;
        memmove(cand.*arr + i, cand.*arr + i + k, sizeof(T) * (n - i - k));
        cand.p.*cnt = n - k;
        if (try_cand()) any = true; else i += chunk;
      }
      if (chunk == 1 && !any) break;
      if (!any || chunk > 1) chunk = chunk / 2;
      if (chunk == 0) { if (any) chunk = 1; else break; }
    }
  }
  void work() {
    // truncate
    for (uint32_t k = best.p.nwork / 2; k >= 1 && wall() < deadline; k /= 2)
      while (best.p.nwork >= k && wall() < deadline) {
        cand.copy(best); cand.p.nwork -= k;
        if (!try_cand()) break;
      }
    for (uint32_t i = 0; i < best.p.nwork && wall() < deadline; i++) {
      if (best.work[i] == 0) continue;
      cand.copy(best); cand.work[i] = 0;
      if (try_cand()) continue;
      uint64_t lo = 0;
      for (int r = 0; r < 12 && best.work[i] > lo + 1 && wall() < deadline; r++) {
        cand.copy(best); cand.work[i] = (lo + best.work[i]) / 2;
        if (!try_cand()) lo = cand.work[i];
      }
    }
  }
  void run() {
    uint64_t before;
    do {
      before = best.p.ndec + best.p.nfault + best.p.nwork;
      ddmin(&OwnPlan::dec, &RunPlan::ndec);
      ddmin(&OwnPlan::fault, &RunPlan::nfault);
      work();
    } while (best.p.ndec + best.p.nfault + best.p.nwork < before && wall() < deadline);
  }
};

// open addressing set of 64-bit hashes in shared memory (never copied by fork)
struct HSet {
  uint64_t* t; uint64_t cap, n;
  void init(uint64_t c) { cap = c; n = 0; t = (uint64_t*)mmap(nullptr, c * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  void add(uint64_t v) {
    if (!v) v = 1;
    if (n * 10 > cap * 7) return;
    for (uint64_t i = v % cap;; i = (i + 1) % cap) { if (t[i] == v) return; if (!t[i]) { t[i] = v; n++; return; } }
  }
  void dump(const char* path) {
    FILE* f = fopen(path, "wb");
    if (!f) return;
    for (uint64_t i = 0; i < cap; i++) if (t[i]) fwrite(&t[i], 8, 1, f);
    fclose(f);
  }
};

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); }
    else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
    else fputc(*s, f);
  }
  fputc('"', f);
}

extern void* g_rank_so[SIM_MAX_RANKS];
extern int g_nranks;
void* g_rank_so[SIM_MAX_RANKS];
int g_nranks;

int main(int argc, char** argv) {
  const char* mode = "run"; const char* so = nullptr; const char* out = nullptr; const char* file = nullptr;
  const char* known = ""; const char* replay_out = nullptr;
  uint64_t seed0 = 1, count = 100, stride = 1; double secs = 10, min_secs = 40;
  int ranks = 0, cpu = -1; bool verbose = false, selftest = false;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char* n) { return !strcmp(argv[i], n); };
    if (is("--mode")) mode = argv[++i];
    else if (is("--so")) so = argv[++i];
    else if (is("--scenario")) g_scenario_name = argv[++i];
    else if (is("--prop")) g_prop = argv[++i];
    else if (is("--seed0")) seed0 = strtoull(argv[++i], 0, 10);
    else if (is("--count")) count = strtoull(argv[++i], 0, 10);
    else if (is("--stride")) stride = strtoull(argv[++i], 0, 10);
    else if (is("--secs")) secs = atof(argv[++i]);
    else if (is("--min-secs")) min_secs = atof(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--replay")) file = argv[++i];
    else if (is("--replay-out")) replay_out = argv[++i];
    else if (is("--ranks")) ranks = atoi(argv[++i]);
    else if (is("--cpu")) cpu = atoi(argv[++i]);
    else if (is("--verbose")) verbose = true;
    else if (is("--selftest")) selftest = true;
    else if (is("--known")) known = argv[++i];
    else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
  }
  if (!so || !g_scenario_name) { fprintf(stderr, "need --so and --scenario\n"); return 3; }
  if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
  real_pthread_create = (decltype(real_pthread_create))real_sym("pthread_create");
  real_pthread_join = (decltype(real_pthread_join))real_sym("pthread_join");
  real_pthread_detach = (decltype(real_pthread_detach))real_sym("pthread_detach");
  arena_init();
  // the simulated program (one private copy per simulated MPI rank)
  if (ranks == 0) {
    void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
    g_rank_so[0] = h; g_nranks = 1;
  } else {
    for (int r = 0; r < ranks; r++) {
      char p[1024];
      snprintf(p, sizeof p, "%s.r%d", so, r);
      void* h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
      g_rank_so[r] = h;
    }
    g_nranks = ranks;
  }
  char sym[128];
  snprintf(sym, sizeof sym, "scenario_%s", g_scenario_name);
  g_scenario = (scenario_fn)dlsym(g_rank_so[0], sym);
  if (!g_scenario) { fprintf(stderr, "no scenario %s\n", sym); return 3; }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
  RunReport* rep = new_report();

  if (!strcmp(mode, "replay")) {
    OwnPlan o; o.init();
    char kind[96]; uint64_t hash;
    if (!read_replay(file, o, kind, sizeof kind, &hash)) return 3;
    o.p.verbose = verbose;
    run_once(o.p, rep);
    printf("outcome=%s kind=%s hash=%016llx\nmessage=%s\n", rep->outcome == O_OK ? "ok" : rep->outcome == O_VIOLATION ? "violation" : "internal",
           rep->kind, (unsigned long long)rep->hash, rep->msg);
    if (rep->outcome == O_VIOLATION) {
      bool same = !strcmp(kind, rep->kind) && hash == rep->hash;
      printf("reproduces=%s\n", same ? "exactly" : "differently");
      return same ? 1 : 4;
    }
    return rep->outcome == O_OK ? 0 : 3;
  }
  if (!strcmp(mode, "hashes")) { // determinism self-test: one hash per seed
    for (uint64_t k = 0; k < count; k++) {
      RunPlan p; memset(&p, 0, sizeof p); p.seed = seed0 + k * stride;
      run_once(p, rep);
      printf("%llu %d %s %016llx %016llx %llu\n", (unsigned long long)p.seed, rep->outcome, rep->kind[0] ? rep->kind : "-",
             (unsigned long long)rep->hash, (unsigned long long)rep->sched_hash, (unsigned long long)rep->steps);
    }
    return 0;
  }
  if (!strcmp(mode, "one")) {
    RunPlan p; memset(&p, 0, sizeof p); p.seed = seed0; p.verbose = verbose;
    run_once(p, rep);
    printf("outcome=%d kind=%s steps=%llu switches=%llu preempt=%llu threads=%llu dec=%u work=%u faults=%u hash=%016llx\n%s\n", rep->outcome, rep->kind,
           (unsigned long long)rep->steps, (unsigned long long)rep->switches, (unsigned long long)rep->preemptions,
           (unsigned long long)rep->threads, rep->ndec, rep->nwork, rep->nfault, (unsigned long long)rep->hash, rep->msg);
    for (uint32_t i = 0; i < rep->nprobes; i++) printf("  probe %s=%llu\n", rep->probe_name[i], (unsigned long long)rep->probe[i]);
    for (uint32_t i = 0; i < rep->nsites; i++) printf("  site %s draws=%llu fired=%llu\n", rep->site_name[i], (unsigned long long)rep->site_draws[i], (unsigned long long)rep->site_fired[i]);
    return rep->outcome == O_OK ? 0 : 1;
  }

  // ------------------------------------------------------------ search mode
  HSet hs, hf, hst, htr; hs.init(1 << 23); htr.init(1 << 23); hf.init(1 << 22); hst.init(1 << 22);
  struct Agg { char name[48]; uint64_t v, runs; };
  static Agg probes[MAX_PROBES * 2]; int np = 0;
  static Agg sites[MAX_SITES * 2]; int ns = 0;
  static uint64_t site_draws[MAX_SITES * 2];
  double t0 = wall();
  uint64_t runs = 0, steps = 0, sw = 0, pre = 0, simns = 0, threads = 0, knownhits = 0, faulted = 0, determ = 0, max_steps = 0, max_syncs = 0, max_seed = 0;
  uint64_t last_seed = seed0;
  int rc = 0;
  char vkind[96] = ""; char vmsg[2000] = ""; uint64_t vseed = 0;
  char rpath[1024] = "";
  static char knownlist[16][96]; static uint64_t knowncount[16]; int nknown = 0;
  for (const char* p = known; *p && nknown < 16;) {
    size_t l = strcspn(p, ",");
    snprintf(knownlist[nknown++], 96, "%.*s", (int)l, p);
    p += l; if (*p) p++;
  }
  uint64_t done = 0;
  static char sample[6000]; size_t sample_n = 0;
  RunReport* rep2 = new_report();
  for (; done < count && wall() - t0 < secs; done++) {
    RunPlan p; memset(&p, 0, sizeof p);
    p.seed = seed0 + done * stride; last_seed = p.seed;
    run_once(p, rep);
    runs++;
    if (!sample_n && runs >= 4 && (rep->ndec > 3 || runs > 12)) { // one actual case, written out
      size_t n = 0, c = sizeof sample - 100;
      n += snprintf(sample + n, c - n, "seed %llu; workload draws:", (unsigned long long)p.seed);
      for (uint32_t i = 0; i < rep->nwork && i < 40; i++) n += snprintf(sample + n, c - n, " %llu", (unsigned long long)rep->work[i]);
      n += snprintf(sample + n, c - n, "; schedule (thread@local event->run next) %u decisions:", rep->ndec);
      for (uint32_t i = 0; i < rep->ndec && i < 40; i++) n += snprintf(sample + n, c - n, " %u@%llu->%u", rep->dec[i].tid, (unsigned long long)rep->dec[i].lstep, rep->dec[i].target);
      n += snprintf(sample + n, c - n, "; faults %u:", rep->nfault);
      for (uint32_t i = 0; i < rep->nfault && i < 40; i++) n += snprintf(sample + n, c - n, " %s#%llu=%u", rep->site_name[rep->fault[i].site], (unsigned long long)rep->fault[i].occ, rep->fault[i].value);
      n += snprintf(sample + n, c - n, "; events %llu, trace hash %016llx", (unsigned long long)rep->steps, (unsigned long long)rep->hash);
      sample_n = n;
    }
    if (rep->syncs > max_syncs) max_syncs = rep->syncs;
    if (rep->steps > max_steps) { max_steps = rep->steps; max_seed = p.seed; }
    steps += rep->steps; sw += rep->switches; pre += rep->preemptions; simns += rep->now_ns > 1000000000ull ? rep->now_ns - 1000000000ull : 0; threads += rep->threads;
    hs.add(rep->sched_hash); htr.add(rep->hash); if (rep->nfault) { hf.add(rep->fault_hash); faulted++; }
    for (uint32_t i = 0; i < rep->nstates; i++) hst.add(rep->states[i]);
    for (uint32_t i = 0; i < rep->nprobes; i++) {
      int j; for (j = 0; j < np; j++) if (!strcmp(probes[j].name, rep->probe_name[i])) break;
      if (j == np) { if (np >= MAX_PROBES * 2) continue; snprintf(probes[np++].name, 48, "%s", rep->probe_name[i]); }
      probes[j].v += rep->probe[i]; probes[j].runs++;
    }
    for (uint32_t i = 0; i < rep->nsites; i++) {
      int j; for (j = 0; j < ns; j++) if (!strcmp(sites[j].name, rep->site_name[i])) break;
      if (j == ns) { if (ns >= MAX_SITES * 2) continue; snprintf(sites[ns++].name, 48, "%s", rep->site_name[i]); }
      sites[j].v += rep->site_fired[i]; site_draws[j] += rep->site_draws[i]; if (rep->site_fired[i]) sites[j].runs++;
    }
    if (rep->outcome == O_OK) {
      // sampled determinism check: the same seed must give the same trace
      if (selftest && (runs % 64) == 1) {
        run_once(p, rep2);
        determ++;
        if (rep2->hash != rep->hash || rep2->outcome != rep->outcome) {
          fprintf(stderr, "sim: seed %llu is not deterministic (%016llx %016llx)\n", (unsigned long long)p.seed,
                  (unsigned long long)rep->hash, (unsigned long long)rep2->hash);
          rc = 2; snprintf(vkind, sizeof vkind, "nondeterministic"); vseed = p.seed; break;
        }
      }
      continue;
    }
    if (rep->outcome == O_INTERNAL) {
      snprintf(vkind, sizeof vkind, "%s", rep->kind); snprintf(vmsg, sizeof vmsg, "%s", rep->msg); vseed = p.seed;
      rc = 2; break;
    }
    bool isknown = false;
    for (int i = 0; i < nknown; i++) if (!strcmp(knownlist[i], rep->kind)) { knowncount[i]++; isknown = true; }
    if (isknown) { knownhits++; continue; }
    // a violation: same seed again must agree
    vseed = p.seed;
    run_once(p, rep2);
    if (rep2->hash != rep->hash || strcmp(rep2->kind, rep->kind)) {
      fprintf(stderr, "sim: violation of seed %llu not reproduced (%s/%s)\n", (unsigned long long)p.seed, rep->kind, rep2->kind);
      rc = 2; snprintf(vkind, sizeof vkind, "nondeterministic-violation:%s", rep->kind);
      snprintf(vmsg, sizeof vmsg, "%s", rep->msg); break;
    }
    Minimiser m; m.best.init(); m.cand.init(); m.rep = rep2;
    snprintf(m.kind, sizeof m.kind, "%s", rep->kind);
    m.deadline = wall() + min_secs;
    uint32_t d0 = rep->ndec, f0 = rep->nfault, w0 = rep->nwork;
    m.best.from_report(rep, p.seed);
    // the explicit streams alone must reproduce it
    run_once(m.best.p, rep2);
    bool expl = rep2->outcome == O_VIOLATION && !strcmp(rep2->kind, rep->kind);
    if (!expl) {
      fprintf(stderr, "sim: explicit replay of seed %llu gave %s %s instead of %s\n", (unsigned long long)p.seed, rep2->kind, rep2->msg, rep->kind);
      rc = 2; snprintf(vkind, sizeof vkind, "replay-mismatch:%s", rep->kind); snprintf(vmsg, sizeof vmsg, "%s", rep->msg); break;
    }
    m.run();
    run_once(m.best.p, rep2);
    // canonical form: what was actually used
    m.best.from_report(rep2, p.seed);
    run_once(m.best.p, rep2);
    char extra[300];
    snprintf(extra, sizeof extra, "minimised decisions %u -> %u, faults %u -> %u, workload %u -> %u in %llu attempts\n", d0, m.best.p.ndec, f0,
             m.best.p.nfault, w0, m.best.p.nwork, (unsigned long long)g_min_attempts);
    snprintf(rpath, sizeof rpath, "%s", replay_out ? replay_out : "replay.txt");
    snprintf(vkind, sizeof vkind, "%s", rep2->kind); snprintf(vmsg, sizeof vmsg, "%s", rep2->msg);
    write_replay(rpath, m.best, rep2, p.seed, extra);
    rc = 1; break;
  }
  double dt = wall() - t0;
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"runs\":%llu,\"wall\":%.3f,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"sim_ns\":%llu,\"threads\":%llu,\"max_steps\":%llu,\"max_syncs\":%llu,\"max_steps_seed\":%llu,"
          "\"distinct_sched\":%llu,\"distinct_fault\":%llu,\"distinct_state\":%llu,\"faulted_runs\":%llu,\"determinism_checks\":%llu,\"first_seed\":%llu,\"last_seed\":%llu,\"stride\":%llu,",
          (unsigned long long)runs, dt, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)pre,
          (unsigned long long)simns, (unsigned long long)threads, (unsigned long long)max_steps, (unsigned long long)max_syncs, (unsigned long long)max_seed, (unsigned long long)hs.n, (unsigned long long)hf.n, (unsigned long long)hst.n,
          (unsigned long long)faulted, (unsigned long long)determ, (unsigned long long)seed0, (unsigned long long)last_seed, (unsigned long long)stride);
  fprintf(f, "\"probes\":{");
  for (int i = 0; i < np; i++) fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", probes[i].name, (unsigned long long)probes[i].v, (unsigned long long)probes[i].runs);
  fprintf(f, "},\"faults\":{");
  for (int i = 0; i < ns; i++) fprintf(f, "%s\"%s\":[%llu,%llu,%llu]", i ? "," : "", sites[i].name, (unsigned long long)sites[i].v, (unsigned long long)site_draws[i], (unsigned long long)sites[i].runs);
  fprintf(f, "},\"known\":{");
  for (int i = 0; i < nknown; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", knownlist[i], (unsigned long long)knowncount[i]);
  fprintf(f, "},\"rc\":%d,\"kind\":", rc); json_str(f, vkind);
  fprintf(f, ",\"message\":"); json_str(f, vmsg);
  fprintf(f, ",\"sample\":"); json_str(f, sample);
  fprintf(f, ",\"seed\":%llu,\"replay\":", (unsigned long long)vseed); json_str(f, rpath);
  fprintf(f, "}\n");
  if (out) {
    fclose(f);
    char b[1024];
    snprintf(b, sizeof b, "%s.sched", out); hs.dump(b);
    snprintf(b, sizeof b, "%s.trace", out); htr.dump(b);
    snprintf(b, sizeof b, "%s.fault", out); hf.dump(b);
    snprintf(b, sizeof b, "%s.state", out); hst.dump(b);
  }
  return rc;
}
