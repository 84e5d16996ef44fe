// Interface between the simulator executable and the simulated code + harnesses
// (which live in a shared object loaded by the simulator).
#ifndef SIM_API_H
#define SIM_API_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- workload choices: value in [0,n); 0 is the simplest one --------------
uint64_t sim_draw(uint64_t n);
// ---- swarm knobs (part of the workload stream as well) --------------------
int sim_chance(int percent);
// ---- faults: returns 0 (no fault) or a value in [1,n) ---------------------
// percent = chance that a fault fires at this occurrence (generation only)
uint64_t sim_fault(const char* site, uint64_t n, double percent);
// faults are only generated while the fault window is open
void sim_faults_enable(int on);
// ---- verdicts -------------------------------------------------------------
void sim_violation(const char* kind, const char* fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
void sim_internal_error(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// named counters: reported in the evidence ("probes")
void sim_probe(const char* name, uint64_t add);
// contribution to the run's observable history hash
void sim_hash(uint64_t v);
void sim_state(uint64_t v);       // marks a distinct abstract state reached
// ---- environment ----------------------------------------------------------
// From now on the run must end within this much simulated time (0: no limit), not
// counting time before scheduling became fair.
void sim_deadline(uint64_t in_ns);
void sim_set_cpus(int n);         // what the machine reports as processors
uint64_t sim_now_ns(void);
uint64_t sim_steps(void);
void sim_yield(void);             // explicit preemption point
void sim_sleep_ns(uint64_t ns);   // virtual sleep
int  sim_self(void);              // id of the simulated thread
int  sim_live_threads(void);      // simulated threads not yet finished
uint64_t sim_heap_live(void);     // bytes currently allocated
void sim_clock_jump(int64_t ns);  // step the virtual wall clock
// make the next pthread_create calls subject to failure
void sim_thread_create_faults(double percent);
void sim_spurious_wakeups(double percent);
// from now on allocations of the first thread and of the others fail with these chances; (-1, -1): none does
void sim_alloc_faults(double main_thread_percent, double others_percent);
uint64_t sim_alloc_failures(void); // how many failed so far
void sim_set_race_detection(int on);
void sim_no_stalls(void);         // no thread is stalled while it could run: time passes only when all wait
void sim_note_range(const void* p, size_t n, int write); // memory access made by real, uninstrumented code
// ---- randomness -----------------------------------------------------------
enum { RAND_UNIFORM = 0, RAND_EXTREMES, RAND_CONST_ZERO, RAND_CONST_MAX, RAND_ALTERNATE,
       RAND_LOWBITS, RAND_SMALL, RAND_LARGE, RAND_MIXED, RAND_RAMP, RAND_MODES };
void sim_rand_mode(int mode, uint64_t seed);
void sim_rand_complement(int on); // every value v becomes RAND_MAX - v until the next sim_rand_mode
uint64_t sim_rand_calls(void);
int  sim_rand_srand_calls(void);
// ---- simulated disk -------------------------------------------------------
void   sim_disk_enable(int on);
void   sim_disk_reset(void);
int    sim_disk_exists(const char* path);
size_t sim_disk_read(const char* path, char* buf, size_t max);
size_t sim_disk_size(const char* path);
void   sim_disk_put(const char* path, const char* data, size_t n);
void   sim_disk_unlink(const char* path);
int    sim_disk_nfiles(void);
// fault chances in percent per operation
void   sim_disk_faults(double open_fail, double write_fail, double short_write,
                       double torn_then_fail, double read_fail, double short_read);
void   sim_disk_capacity(int64_t bytes);   // -1 unlimited: ENOSPC beyond it
void   sim_disk_crash_at(int64_t nth_write, uint64_t keep_bytes); // power cut in the nth write
int    sim_disk_crashed(void);
uint64_t sim_disk_faults_fired(void);
uint64_t sim_disk_writes(void);
int    sim_disk_open_fds(void);
int    sim_fftw_live(void);   // FFTW plans and buffers not released yet
// ---- MPI ------------------------------------------------------------------
struct SimMpiStatus { int source; int tag; };
int  sim_mpi_rank(void);
int  sim_mpi_size(void);
void sim_mpi_env_init(void);
void sim_mpi_env_fini(void);
int  sim_mpi_env_state(void);       // 0 not initialised, 1 initialised, 2 finalised
void sim_mpi_send(int dst, int tag, const char* type, const void* data, size_t n);
// returns a request handle; data is sent once matched
int  sim_mpi_isend(int dst, int tag, const char* type, const void* data, size_t n);
int  sim_mpi_irecv(int src, int tag);
// 0 not complete, 1 complete (payload ready)
int  sim_mpi_test(int req);
void sim_mpi_wait(int req);
void sim_mpi_cancel(int req);
const char* sim_mpi_payload(int req, const char** type, size_t* n, struct SimMpiStatus* st);
void sim_mpi_free(int req);
int  sim_mpi_probe(int src, int tag, int blocking, struct SimMpiStatus* st);
void sim_mpi_barrier(void);
void sim_mpi_abort(int code) __attribute__((noreturn));
// harness side of MPI
void* sim_shared(void);             // 1 MB shared by the driver scenario and all ranks
int sim_mpi_images(void); // how many ranks can be run
void sim_mpi_run(const char* entry, int ranks); // runs entry(rank) on every rank until all ended
int  sim_mpi_exit_code(int rank);   // -1 returned from entry, else exit() code
void sim_mpi_config(int ranks, double slow_percent, uint64_t max_delay_ns, double rendezvous_percent);
uint64_t sim_mpi_undelivered(void);

#ifdef __cplusplus
}
#endif
#endif
