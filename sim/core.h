// Internals shared by the parts of the simulator executable.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <stddef.h>
#include <pthread.h>
#include <setjmp.h>
#include "sim_api.h"

#define SIM_EXPORT extern "C" __attribute__((visibility("default")))
#define MAX_THREADS 160
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum TState { T_FREE = 0, T_RUNNABLE, T_BLOCKED, T_SLEEPING, T_FINISHED };

typedef uint32_t clk_t;
struct VC { clk_t c[MAX_THREADS]; };

struct Thread {
  int id;
  int state;
  uint64_t lstep;        // thread-local event counter
  uint64_t next_check;   // lstep at which a memory access takes the slow path
  uint64_t wake_ns;      // for T_SLEEPING
  void* wait_obj;        // what it is blocked on (diagnostics)
  const char* wait_what;
  void* (*fn)(void*);
  void* arg;
  void* retval;
  bool detached, joined, key_armed;
  int key_rounds;
  pthread_t real;
  volatile int go;       // futex
  VC vc;
  double prio;           // PCT priority / weight
  // condition variable wait support
  bool cond_signaled;
  // choices (replay): sorted list of decisions for this thread
  uint32_t rp_pos;
  // allocation failure injection
  // rank emulation
  int rank;
  int in_rt;
  jmp_buf exit_jmp;
  bool exit_jmp_set;
  char* stack_lo;
  size_t stack_len;
  int preempt_off;
};

// recorded decision
struct Dec { uint32_t tid; uint32_t target; uint64_t lstep; };
struct FaultDec { uint32_t site; uint32_t value; uint64_t occ; };

#define MAX_DECS 400000
#define MAX_FAULTS 20000
#define MAX_WORK 60000
#define MAX_PROBES 96
#define MAX_SITES 48
#define MAX_STATES 64
#define SIM_TARGET_ADVANCE 1000u   // decision target: advance the clock to the next timer

enum Outcome { O_NONE = 0, O_OK, O_VIOLATION, O_INTERNAL };

// in shared memory: what one run did
struct RunReport {
  volatile int outcome;
  char kind[96];
  char msg[2000];
  uint64_t hash;          // full trace hash (determinism)
  uint64_t sched_hash;    // interleaving: sequence of (thread, sync event)
  uint64_t fault_hash;
  uint64_t steps, syncs, switches, preemptions, now_ns, threads, allocs;
  uint64_t nondefault;
  uint32_t ndec, nfault, nwork, nprobes, nsites, nstates;
  uint64_t site_draws[MAX_SITES], site_fired[MAX_SITES];
  char site_name[MAX_SITES][32];
  char probe_name[MAX_PROBES][48];
  uint64_t probe[MAX_PROBES];
  uint64_t states[MAX_STATES];
  Dec dec[MAX_DECS];
  FaultDec fault[MAX_FAULTS];
  uint64_t work[MAX_WORK];
};

// what one run is told to do
struct RunPlan {
  uint64_t seed;
  bool replay;            // explicit streams below, else generate from seed
  uint32_t ndec, nfault, nwork;
  Dec* dec;
  FaultDec* fault;
  char (*site_name)[32];
  uint32_t nsites;
  uint64_t* work;
  int policy_override;    // -1 none
  bool verbose;
};

#define SIM_MAX_RANKS 32
struct Sim {
  bool active;
  Thread th[MAX_THREADS];
  int nth;                 // threads ever created
  int nlive;
  Thread* cur;
  uint64_t gstep, switches, preemptions;
  uint64_t now;            // virtual monotonic ns
  int64_t wall_off;        // wall clock offset
  RunPlan plan;
  RunReport* rep;
  Rng rw, rs, rf, rr;      // workload, schedule, fault, random streams
  // policy
  int policy;
  double p_sync;           // preempt chance at sync points
  double gap_mean;         // mean gap of memory preemptions (0 = none)
  double p_advance;
  int pct_left;
  uint64_t fair_after;     // events after which scheduling becomes round robin
  uint64_t step_cap, sync_cap, nsync; uint64_t deadline, deadline_len; bool deadline_fair;
  uint64_t last_switch_step;
  bool faults_on;
  double p_thread_create, p_spurious;
  int cpus;
  bool race_on;
  uint32_t work_pos;
  uint64_t h, hs, hf;
  VC sc;                   // unused
  int log_fd;
  bool alloc_site; double p_alloc[2]; uint64_t alloc_failures; // failing allocations: main thread, other threads
  bool heap_reuse; uint8_t heap_fill; // the memory of this run
};
extern Sim S;
extern __thread Thread* tl_self;

static inline bool in_sim() { return tl_self != nullptr && S.active; }

void sim_mix(uint64_t v);
// scheduler
enum Ev { E_MEM = 1, E_LOCK, E_UNLOCK, E_WAIT, E_SIGNAL, E_CREATE, E_JOIN, E_EXIT, E_ATOMIC, E_YIELD, E_SLEEP, E_ONCE, E_IO, E_USER, E_MSG };
void sched_point(Ev e, uint64_t info);       // voluntary
void sched_block(const char* what, void* obj); // current thread blocks until made runnable
void sched_wake(Thread* t);
void sched_sleep(uint64_t ns);
uint64_t sched_choose(const char* what, uint64_t n); // recorded schedule choice (default 0)
void mem_slow(Thread* t);
[[noreturn]] void die_violation(const char* kind, const char* msg);
[[noreturn]] void end_run(int outcome);
uint64_t fault_draw(const char* site, uint64_t n, double percent, bool need_window);

// allocator
void arena_init();
void arena_reset_marks(bool reuse_memory, uint8_t fill_byte);
bool arena_contains(const void* p);
// race detector
void race_init();
void race_access(Thread* t, uintptr_t a, size_t n, bool write, void* pc, bool atomic);
void race_fork(Thread* parent, Thread* child);
void race_join(Thread* t, Thread* finished);
void race_acquire(Thread* t, const void* obj);
void race_release(Thread* t, const void* obj);
void race_release_merge(Thread* t, const void* obj);
void race_free(uintptr_t a, size_t n);
void race_alloc(uintptr_t a, size_t n);
void race_reuse(uintptr_t a, size_t n);
void sync_forget(uintptr_t a, size_t n);
void* real_sym(const char* name);
void disk_init_run();
void fftw_init_run();
void mpi_init_run();
void pthread_init_run();
[[noreturn]] void rank_exit(int code);
Thread* thread_spawn(void* (*fn)(void*), void* arg, int rank);
void thread_join_sim(Thread* t);
const char* symbolize(void* pc, char* buf, size_t n);
// run-time memory that is never seen by the simulated code
void* rt_alloc(size_t n);

struct RtGuard { // accesses made while inside the runtime are not simulated events
  Thread* t;
  RtGuard() : t(tl_self) { if (t) t->in_rt++; }
  ~RtGuard() { if (t) t->in_rt--; }
};
#endif
