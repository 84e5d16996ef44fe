// Simulated disk, FFTW seam and MPI transport.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fftw3.h>
#include <string>
#include <vector>
#include <deque>

// ------------------------------------------------------------------- disk
struct SimFile { char name[256]; int memfd; bool used; };
#define MAXF 64
static SimFile files[MAXF];
static int fdfile[4096]; // fd -> file index + 1
static bool fdshort[4096];
static bool fdtorn[4096]; // a torn write happened: the device is gone for this descriptor
static bool disk_on;
static double f_open, f_write, f_short, f_torn, f_read, f_shortread;
static int64_t capacity;
static int64_t crash_at; static uint64_t crash_keep; static bool crashed;
static uint64_t disk_fired, disk_writes;

void disk_init_run() {
  for (auto& f : files) { f.used = false; f.memfd = -1; }
  memset(fdfile, 0, sizeof fdfile); memset(fdtorn, 0, sizeof fdtorn); memset(fdshort, 0, sizeof fdshort);
  disk_on = false;
  f_open = f_write = f_short = f_torn = f_read = f_shortread = 0;
  capacity = -1; crash_at = -1; crashed = false; disk_fired = disk_writes = 0;
}
static const char* norm(const char* p) { while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; } return p; }
static bool ours(const char* p) {
  if (!disk_on || !in_sim()) return false;
  static const char* sys[] = {"/proc", "/sys", "/dev", "/etc", "/usr", "/lib", "/opt", "/var"};
  for (auto s : sys) if (!strncmp(p, s, strlen(s))) return false;
  return true;
}
static int find(const char* p) { p = norm(p); for (int i = 0; i < MAXF; i++) if (files[i].used && !strcmp(files[i].name, p)) return i; return -1; }
static int create_file(const char* p) {
  p = norm(p);
  for (int i = 0; i < MAXF; i++) if (!files[i].used) {
    files[i].used = true;
    snprintf(files[i].name, sizeof files[i].name, "%s", p);
    files[i].memfd = memfd_create("sim", 0);
    return i;
  }
  sim_internal_error("too many simulated files");
}
static int64_t total() { int64_t t = 0; for (auto& f : files) if (f.used) { struct stat st; if (!fstat(f.memfd, &st)) t += st.st_size; } return t; }
static ssize_t rread(int fd, void* b, size_t n) { static ssize_t (*r)(int, void*, size_t); if (!r) r = (decltype(r))real_sym("read"); return r(fd, b, n); }
static ssize_t rwrite(int fd, const void* b, size_t n) { static ssize_t (*r)(int, const void*, size_t); if (!r) r = (decltype(r))real_sym("write"); return r(fd, b, n); }
static int rclose(int fd) { static int (*r)(int); if (!r) r = (decltype(r))real_sym("close"); return r(fd); }
static int ropen(const char* p, int fl, int m) { static int (*r)(const char*, int, ...); if (!r) r = (decltype(r))real_sym("open"); return r(p, fl, m); }

static int sim_open(const char* path, int flags) {
  RtGuard g;
  sched_point(E_IO, 1);
  if (crashed && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { // the process is dead: nothing reaches the disk
    return ropen("/dev/null", flags & O_ACCMODE, 0);
  }
  uint64_t f = fault_draw("disk_open", 5, f_open, true);
  if (f) { disk_fired++; static const int e[] = {0, EACCES, EMFILE, ENOSPC, EIO}; errno = e[f]; return -1; }
  int i = find(path);
  if (i < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    i = create_file(path);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  char pr[64];
  snprintf(pr, sizeof pr, "/proc/self/fd/%d", files[i].memfd);
  int fd = ropen(pr, flags & ~(O_CREAT | O_EXCL), 0);
  if (fd < 0 || fd >= 4096) sim_internal_error("simulated open failed: %s", strerror(errno));
  fdfile[fd] = i + 1; fdtorn[fd] = fdshort[fd] = false;
  return fd;
}
static ssize_t do_write(int fd, const char* b, size_t n) {
  RtGuard g;
  sched_point(E_IO, 2);
  if (crashed) return (ssize_t)n;
  disk_writes++;
  if (crash_at >= 0 && crash_at-- == 0) {
    crashed = true; disk_fired++;
    sim_log("power cut: %llu of %zu bytes survive", (unsigned long long)(crash_keep < n ? crash_keep : n), n);
    fault_draw("disk_crash", 2, 100, false);
    size_t k = crash_keep < n ? crash_keep : n;
    if (k) { if (rwrite(fd, b, k) < 0) {} }
    return (ssize_t)n;
  }
  if (fd >= 0 && fd < 4096 && fdtorn[fd]) { errno = EIO; return -1; } // the device is gone
  uint64_t f = fault_draw("disk_write_error", 3, f_write, true);
  if (f) { disk_fired++; if (fd >= 0 && fd < 4096 && fdshort[fd]) fdtorn[fd] = true; errno = f == 1 ? EIO : ENOSPC; return -1; }
  f = fault_draw("disk_torn_write", 9, f_torn, true);
  if (f && n) { // part reaches the disk, then the device fails
    disk_fired++;
    if (rwrite(fd, b, n * (f - 1) / 8) < 0) {}
    if (fd >= 0 && fd < 4096) fdtorn[fd] = true;
    errno = EIO; return -1;
  }
  f = fault_draw("disk_short_write", 9, f_short, true);
  size_t want = n;
  if (f && n > 1) { disk_fired++; want = 1 + (n - 1) * (f - 1) / 8; }
  if (capacity >= 0) {
    int64_t room = capacity - total();
    if (room <= 0) { disk_fired++; fault_draw("disk_full", 2, 100, false); errno = ENOSPC; return -1; }
    if ((int64_t)want > room) { disk_fired++; want = (size_t)room; }
  }
  if (fd >= 0 && fd < 4096) fdshort[fd] = want < n; // an error after part of a request was written is a torn write
  return rwrite(fd, b, want);
}
static int mode_flags(const char* m) {
  bool plus = strchr(m, '+') != nullptr;
  int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : m[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC
                                                                  : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) fl |= O_EXCL;
  return fl;
}
extern "C" {
SIM_EXPORT FILE* fopen(const char* p, const char* m) {
  static FILE* (*r)(const char*, const char*); if (!r) r = (decltype(r))real_sym("fopen");
  if (!ours(p)) return r(p, m);
  int fd = sim_open(p, mode_flags(m));
  if (fd < 0) return nullptr;
  RtGuard g;
  return fdopen(fd, m[0] == 'r' ? (strchr(m, '+') ? "r+" : "r") : m[0] == 'w' ? (strchr(m, '+') ? "w+" : "w") : "a");
}
SIM_EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
SIM_EXPORT int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (!ours(p)) return ropen(p, fl, md);
  return sim_open(p, fl);
}
SIM_EXPORT int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (!ours(p)) return ropen(p, fl, md);
  return sim_open(p, fl);
}
SIM_EXPORT int creat(const char* p, mode_t m) { if (!ours(p)) return ropen(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
SIM_EXPORT int fclose(FILE* f) {
  static int (*r)(FILE*); if (!r) r = (decltype(r))real_sym("fclose");
  if (in_sim() && f) { int fd = fileno(f); if (fd >= 0 && fd < 4096) fdfile[fd] = 0; }
  RtGuard g;
  return r(f);
}
SIM_EXPORT int close(int fd) { if (in_sim() && fd >= 0 && fd < 4096) fdfile[fd] = 0; return rclose(fd); }
SIM_EXPORT ssize_t read(int fd, void* b, size_t n) {
  if (in_sim() && fd >= 0 && fd < 4096 && fdfile[fd]) {
    RtGuard g;
    sched_point(E_IO, 3);
    if (fault_draw("disk_read_error", 2, f_read, true)) { disk_fired++; errno = EIO; return -1; }
    uint64_t f = fault_draw("disk_short_read", 9, f_shortread, true);
    if (f && n > 1) { disk_fired++; n = 1 + (n > 64 ? 64 : n - 1) * (f - 1) / 8; }
    return rread(fd, b, n);
  }
  return rread(fd, b, n);
}
SIM_EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (in_sim() && fd >= 0 && fd < 4096 && fdfile[fd]) return do_write(fd, (const char*)b, n);
  return rwrite(fd, b, n);
}
SIM_EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
  static ssize_t (*r)(int, const struct iovec*, int); if (!r) r = (decltype(r))real_sym("writev");
  if (in_sim() && fd >= 0 && fd < 4096 && fdfile[fd]) {
    RtGuard g;
    std::string s;
    for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return do_write(fd, s.data(), s.size());
  }
  return r(fd, v, c);
}
SIM_EXPORT int fsync(int fd) { static int (*r)(int); if (in_sim() && fd >= 0 && fd < 4096 && fdfile[fd]) { sched_point(E_IO, 4); return 0; } if (!r) r = (decltype(r))real_sym("fsync"); return r(fd); }
SIM_EXPORT int rename(const char* a, const char* b) {
  static int (*r)(const char*, const char*); if (!r) r = (decltype(r))real_sym("rename");
  if (!ours(a)) return r(a, b);
  RtGuard g;
  sched_point(E_IO, 5);
  if (crashed) return 0;
  int i = find(a);
  if (i < 0) { errno = ENOENT; return -1; }
  int j = find(b);
  if (j >= 0 && j != i) { files[j].used = false; }
  snprintf(files[i].name, sizeof files[i].name, "%s", norm(b));
  return 0;
}
SIM_EXPORT int unlink(const char* a) {
  static int (*r)(const char*); if (!r) r = (decltype(r))real_sym("unlink");
  if (!ours(a)) return r(a);
  RtGuard g;
  sched_point(E_IO, 6);
  if (crashed) return 0;
  int i = find(a);
  if (i < 0) { errno = ENOENT; return -1; }
  files[i].used = false;
  return 0;
}
SIM_EXPORT int remove(const char* a) { static int (*r)(const char*); if (!r) r = (decltype(r))real_sym("remove"); if (!ours(a)) return r(a); return unlink(a); }
SIM_EXPORT int access(const char* a, int m) {
  static int (*r)(const char*, int); if (!r) r = (decltype(r))real_sym("access");
  if (!ours(a)) return r(a, m);
  if (find(a) >= 0) return 0;
  errno = ENOENT; return -1;
}
SIM_EXPORT void sim_disk_enable(int on) { disk_on = on; }
SIM_EXPORT void sim_disk_reset(void) { RtGuard g; for (auto& f : files) if (f.used) { f.used = false; rclose(f.memfd); } capacity = -1; crashed = false; crash_at = -1; }
SIM_EXPORT int sim_disk_exists(const char* p) { return find(p) >= 0; }
SIM_EXPORT size_t sim_disk_size(const char* p) { int i = find(p); if (i < 0) return 0; struct stat st; fstat(files[i].memfd, &st); return (size_t)st.st_size; }
SIM_EXPORT size_t sim_disk_read(const char* p, char* b, size_t max) {
  RtGuard g;
  int i = find(p); if (i < 0) return 0;
  ssize_t n = pread(files[i].memfd, b, max, 0);
  return n < 0 ? 0 : (size_t)n;
}
SIM_EXPORT void sim_disk_put(const char* p, const char* d, size_t n) {
  RtGuard g;
  int i = find(p); if (i < 0) i = create_file(p);
  if (ftruncate(files[i].memfd, 0)) {}
  if (n && pwrite(files[i].memfd, d, n, 0) < 0) sim_internal_error("pwrite");
}
SIM_EXPORT void sim_disk_unlink(const char* p) { int i = find(p); if (i >= 0) { files[i].used = false; } }
SIM_EXPORT int sim_disk_nfiles(void) { int n = 0; for (auto& f : files) n += f.used; return n; }
SIM_EXPORT void sim_disk_faults(double o, double w, double s, double t, double rd, double sr) { f_open = o; f_write = w; f_short = s; f_torn = t; f_read = rd; f_shortread = sr; }
SIM_EXPORT void sim_disk_capacity(int64_t b) { capacity = b; }
SIM_EXPORT void sim_disk_crash_at(int64_t n, uint64_t keep) { crash_at = n; crash_keep = keep; }
SIM_EXPORT int sim_disk_crashed(void) { return crashed; }
SIM_EXPORT uint64_t sim_disk_faults_fired(void) { return disk_fired; }
SIM_EXPORT uint64_t sim_disk_writes(void) { return disk_writes; }
SIM_EXPORT int sim_disk_open_fds(void) { int n = 0; for (int i = 0; i < 4096; i++) n += fdfile[i] != 0; return n; }
}

// ------------------------------------------------------------------- FFTW
// The real planner, except that planning is by estimate (PATIENT times real
// executions and would make a run unrepeatable).  Planner entry is watched:
// only fftw_execute* is thread-safe.
static int planner_users; static int planner_owner;
struct PlanInfo { fftw_plan p; void* in; void* out; int n; bool live; bool busy; };
static std::vector<PlanInfo>* plans;
static int64_t fftw_bufs;
void fftw_init_run() { planner_users = 0; plans = nullptr; fftw_bufs = 0; }
static void planner_enter(const char* what) {
  sched_point(E_USER, 11);
  if (planner_users) {
    char m[200]; snprintf(m, sizeof m, "thread %d enters the FFT planner (%s) while thread %d is inside it", tl_self->id, what, planner_owner);
    die_violation("planner-race", m);
  }
  planner_users++; planner_owner = tl_self->id;
  for (int i = 0; i < 3; i++) sched_point(E_USER, 12);
}
static void planner_leave() { sched_point(E_USER, 13); planner_users--; }
extern "C" {
SIM_EXPORT fftw_plan fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  static decltype(&fftw_plan_dft_1d) r; if (!r) r = (decltype(r))real_sym("fftw_plan_dft_1d");
  if (!in_sim()) return r(n, in, out, sign, flags);
  if (tl_self->in_rt) return r(n, in, out, sign, FFTW_ESTIMATE);
  planner_enter("plan");
  fftw_plan p;
  { RtGuard g; p = r(n, in, out, sign, FFTW_ESTIMATE); }
  if (!(flags & FFTW_ESTIMATE) && n > 0) { // measuring planners overwrite the arrays
    sim_note_range(in, sizeof(fftw_complex) * (size_t)n, 1);
    sim_note_range(out, sizeof(fftw_complex) * (size_t)n, 1);
    for (int i = 0; i < n; i++) { in[i][0] = in[i][1] = 0; out[i][0] = out[i][1] = 0; }
  }
  { RtGuard g; if (!plans) plans = new std::vector<PlanInfo>(); plans->push_back({p, in, out, n, true, false}); }
  planner_leave();
  return p;
}
SIM_EXPORT void fftw_destroy_plan(fftw_plan p) {
  static decltype(&fftw_destroy_plan) r; if (!r) r = (decltype(r))real_sym("fftw_destroy_plan");
  if (!in_sim() || tl_self->in_rt) return r(p);
  planner_enter("destroy");
  if (plans) for (auto& x : *plans) if (x.p == p && x.live) {
    if (x.busy) die_violation("plan-destroyed-busy", "an FFT plan is destroyed while it is being executed");
    x.live = false;
    { RtGuard g; r(p); }
    planner_leave();
    return;
  }
  if (p) die_violation("plan-double-destroy", "an FFT plan is destroyed twice");
  planner_leave();
}
static PlanInfo* plan_of(fftw_plan p) { if (plans) for (auto& x : *plans) if (x.p == p && x.live) return &x; return nullptr; }
SIM_EXPORT void fftw_execute(const fftw_plan p) {
  static decltype(&fftw_execute) r; if (!r) r = (decltype(r))real_sym("fftw_execute");
  if (!in_sim() || tl_self->in_rt) return r(p);
  PlanInfo* x = plan_of(p);
  if (!x) die_violation("plan-use-after-destroy", "an FFT plan is executed that does not exist (any more)");
  size_t idx = x - plans->data();
  x->busy = true;
  void *in = x->in, *out = x->out; size_t n = (size_t)x->n;
  sim_note_range(in, 16 * n, 0);
  sim_note_range(out, 16 * n, 1);
  sched_point(E_USER, 14);
  { RtGuard g; r(p); }
  sched_point(E_USER, 15);
  (*plans)[idx].busy = false;
}
SIM_EXPORT void fftw_execute_dft(const fftw_plan p, fftw_complex* in, fftw_complex* out) {
  static decltype(&fftw_execute_dft) r; if (!r) r = (decltype(r))real_sym("fftw_execute_dft");
  if (!in_sim() || tl_self->in_rt) return r(p, in, out);
  PlanInfo* x = plan_of(p);
  if (!x) die_violation("plan-use-after-destroy", "an FFT plan is executed that does not exist (any more)");
  sim_note_range(in, 16 * (size_t)x->n, 0);
  sim_note_range(out, 16 * (size_t)x->n, 1);
  sched_point(E_USER, 14);
  RtGuard g; r(p, in, out);
}
SIM_EXPORT void fftw_cleanup(void) {
  static decltype(&fftw_cleanup) r; if (!r) r = (decltype(r))real_sym("fftw_cleanup");
  if (!in_sim() || tl_self->in_rt) return r();
  planner_enter("cleanup");
  { RtGuard g; r(); }
  planner_leave();
}
SIM_EXPORT void* fftw_malloc(size_t n) {
  static decltype(&fftw_malloc) r; if (!r) r = (decltype(r))real_sym("fftw_malloc");
  if (!in_sim() || tl_self->in_rt) return r(n);
  if (S.alloc_site && fault_draw("fftw_malloc", 2, S.p_alloc[tl_self->id != 0], false)) { S.alloc_failures++; return nullptr; }
  RtGuard g;
  fftw_bufs++;
  return r(n);
}
SIM_EXPORT int sim_fftw_live(void) { int n = (int)fftw_bufs; if (plans) for (auto& x : *plans) n += x.live; return n; }
SIM_EXPORT void fftw_free(void* p) {
  static decltype(&fftw_free) r; if (!r) r = (decltype(r))real_sym("fftw_free");
  if (in_sim() && !tl_self->in_rt && plans)
    for (auto& x : *plans) if (x.live && x.busy && (x.in == p || x.out == p))
      die_violation("plan-buffer-freed-busy", "the buffer of an FFT being executed is freed");
  RtGuard g;
  if (p && in_sim()) fftw_bufs--;
  r(p);
}
}

// -------------------------------------------------------------------- MPI
struct Msg { int src, dst, tag; std::string type, data; uint64_t avail; uint64_t seq; bool rendezvous, taken; int sender_tid; };
struct Req { int rank, src, tag; bool done, cancelled, used; bool is_send; Msg* send_msg; std::string type, data; int st_src, st_tag; };
struct Mpi {
  int size;
  std::deque<Msg*> box[SIM_MAX_RANKS];
  std::deque<int> posted[SIM_MAX_RANKS];
  std::deque<Req> reqs;
  int env[SIM_MAX_RANKS]; bool exited[SIM_MAX_RANKS]; int exit_code[SIM_MAX_RANKS];
  uint64_t last_avail[SIM_MAX_RANKS][SIM_MAX_RANKS];
  uint64_t seq;
  double slow, rdv; uint64_t maxdelay;
  int barrier_n, barrier_gen;
  int slow_rank;
};
static Mpi* M;
static char* shared_mem;
extern uintptr_t g_shared_lo, g_shared_len;
void mpi_init_run() {
  M = new Mpi(); M->size = 0; M->seq = 0; M->slow = M->rdv = 0; M->maxdelay = 0; M->barrier_n = M->barrier_gen = 0; M->slow_rank = -1;
  memset(M->env, 0, sizeof M->env); memset(M->exited, 0, sizeof M->exited); memset(M->last_avail, 0, sizeof M->last_avail);
  for (int i = 0; i < SIM_MAX_RANKS; i++) M->exit_code[i] = -2;
  shared_mem = (char*)rt_alloc(1 << 20);
  g_shared_lo = (uintptr_t)shared_mem; g_shared_len = 1 << 20;
}
static int me() {
  if (!tl_self || tl_self->rank < 0) sim_internal_error("MPI call outside a rank");
  return tl_self->rank;
}
static void need_env(const char* what) {
  int r = me();
  if (M->env[r] != 1) sim_violation("mpi-not-initialised", "rank %d calls %s %s", r, what, M->env[r] ? "after MPI was finalised" : "before MPI was initialised");
}
static void wake_box(int r) {
  for (int i = 0; i < S.nth; i++)
    if ((S.th[i].state == T_BLOCKED) && S.th[i].wait_obj == (void*)&M->box[r]) sched_wake(&S.th[i]);
}
static bool matches(Msg* m, int src, int tag) { return !m->taken && (src < 0 || m->src == src) && (tag < 0 || m->tag == tag); }
// match posted receives in posting order with available messages in sending order
static void progress(int r) {
  for (size_t k = 0; k < M->posted[r].size();) {
    Req& q = M->reqs[M->posted[r][k]];
    if (q.cancelled) { M->posted[r].erase(M->posted[r].begin() + k); continue; }
    Msg* cand[SIM_MAX_RANKS]; int n = 0;
    bool seen[SIM_MAX_RANKS] = {};
    for (Msg* m : M->box[r]) {
      if (!matches(m, q.src, q.tag) || seen[m->src]) continue;
      seen[m->src] = true;              // only the first matching one of a source may be taken
      if (m->avail <= S.now) cand[n++] = m;
    }
    if (!n) { k++; continue; }
    Msg* m = cand[sched_choose("which source is received first", n)];
    q.done = true; q.type = m->type; q.data = m->data; q.st_src = m->src; q.st_tag = m->tag;
    m->taken = true;
    for (size_t i = 0; i < M->box[r].size(); i++) if (M->box[r][i] == m) { M->box[r].erase(M->box[r].begin() + i); break; }
    if (m->rendezvous) for (int i = 0; i < S.nth; i++) if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == (void*)m) sched_wake(&S.th[i]);
    M->posted[r].erase(M->posted[r].begin() + k);
  }
}
static uint64_t next_avail(int r) {
  uint64_t a = ~0ull;
  for (Msg* m : M->box[r]) if (!m->taken && m->avail > S.now && m->avail < a) a = m->avail;
  return a;
}
static void wait_box(int r, const char* what) {
  uint64_t a = next_avail(r);
  if (a != ~0ull) sched_sleep(a - S.now);
  else sched_block(what, &M->box[r]);
}
static Msg* post(int dst, int tag, const char* type, const void* data, size_t n, bool rdv) {
  int r = me();
  if (dst < 0 || dst >= M->size) sim_violation("mpi-bad-rank", "rank %d sends to rank %d of %d", r, dst, M->size);
  Msg* m = new Msg{r, dst, tag, type, std::string((const char*)data, n), 0, M->seq++, rdv, false, tl_self->id};
  uint64_t d = 0;
  uint64_t f = fault_draw("mpi_delay", 9, M->slow, true);
  if (f) d = M->maxdelay >> (8 - f);
  uint64_t a = S.now + d;
  if (a < M->last_avail[r][dst]) a = M->last_avail[r][dst]; // non-overtaking
  M->last_avail[r][dst] = a;
  m->avail = a;
  M->box[dst].push_back(m);
  S.rep->nstates += 0;
  sim_probe("mpi_messages", 1);
  wake_box(dst);
  return m;
}
extern "C" {
SIM_EXPORT void* sim_shared(void) { return shared_mem; }
SIM_EXPORT int sim_mpi_rank(void) { return me(); }
SIM_EXPORT int sim_mpi_size(void) { return M->size; }
SIM_EXPORT void sim_mpi_env_init(void) {
  RtGuard g; int r = me();
  if (M->env[r]) sim_violation("mpi-init-twice", "rank %d initialises MPI twice", r);
  M->env[r] = 1; sched_point(E_MSG, 1);
}
SIM_EXPORT void sim_mpi_env_fini(void) {
  RtGuard g; int r = me();
  if (M->env[r] != 1) sim_violation("mpi-finalize-twice", "rank %d finalises MPI %s", r, M->env[r] == 2 ? "twice" : "without initialising it");
  progress(r);
  for (int k : M->posted[r]) if (!M->reqs[k].cancelled) sim_violation("mpi-pending-request", "rank %d finalises MPI with a receive still pending", r);
  for (Msg* m : M->box[r]) if (!m->taken)
    sim_violation("mpi-undelivered", "rank %d finalises MPI with an unreceived message (%s from rank %d)", r, m->type.c_str(), m->src);
  sched_point(E_MSG, 2);
  M->env[r] = 2;
  // MPI_Finalize is collective: it returns when every rank has entered it
  M->barrier_n++;
  for (int i = 0; i < S.nth; i++) if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == (void*)M) sched_wake(&S.th[i]);
  while (M->barrier_n < M->size) sched_block("MPI finalisation of the other ranks", M);
}
SIM_EXPORT int sim_mpi_env_state(void) { return M->env[me()]; }
SIM_EXPORT void sim_mpi_send(int dst, int tag, const char* type, const void* data, size_t n) {
  RtGuard g; need_env("send");
  sched_point(E_MSG, 3);
  bool rdv = fault_draw("mpi_rendezvous", 2, M->rdv, false) != 0;
  Msg* m = post(dst, tag, type, data, n, rdv);
  if (S.plan.verbose) sim_log("mpi send -> %d %s (%zu bytes)%s", dst, type, n, rdv ? " rendezvous" : "");
  sched_point(E_MSG, 4);
  if (rdv) while (!m->taken) sched_block("blocking send", m);
}
SIM_EXPORT int sim_mpi_isend(int dst, int tag, const char* type, const void* data, size_t n) {
  RtGuard g; need_env("isend");
  sched_point(E_MSG, 3);
  bool rdv = fault_draw("mpi_rendezvous", 2, M->rdv, false) != 0;
  Msg* m = post(dst, tag, type, data, n, rdv);
  M->reqs.push_back(Req{me(), -1, tag, false, false, true, true, m, "", "", me(), tag});
  return (int)M->reqs.size() - 1;
}
SIM_EXPORT int sim_mpi_irecv(int src, int tag) {
  RtGuard g; need_env("receive");
  sched_point(E_MSG, 5);
  int r = me();
  M->reqs.push_back(Req{r, src, tag, false, false, true, false, nullptr, "", "", -1, -1});
  int id = (int)M->reqs.size() - 1;
  M->posted[r].push_back(id);
  return id;
}
SIM_EXPORT int sim_mpi_test(int id) {
  RtGuard g; need_env("test");
  sched_point(E_MSG, 6);
  Req& q = M->reqs[id];
  if (q.is_send) return !q.send_msg->rendezvous || q.send_msg->taken;
  if (!q.done) progress(q.rank);
  return M->reqs[id].done || M->reqs[id].cancelled;
}
SIM_EXPORT void sim_mpi_wait(int id) {
  RtGuard g; need_env("wait");
  sched_point(E_MSG, 7);
  int r = me();
  if (M->reqs[id].is_send) { Msg* m = M->reqs[id].send_msg; if (m->rendezvous) while (!m->taken) sched_block("send completion", m); return; }
  for (;;) {
    progress(r);
    if (M->reqs[id].done || M->reqs[id].cancelled) return;
    wait_box(r, "MPI receive");
  }
}
SIM_EXPORT void sim_mpi_cancel(int id) { RtGuard g; if (!M->reqs[id].done) M->reqs[id].cancelled = true; }
SIM_EXPORT const char* sim_mpi_payload(int id, const char** type, size_t* n, struct SimMpiStatus* st) {
  Req& q = M->reqs[id];
  *type = q.type.c_str(); *n = q.data.size();
  if (st) { st->source = q.st_src; st->tag = q.st_tag; }
  return q.data.data();
}
SIM_EXPORT void sim_mpi_free(int) {}
SIM_EXPORT int sim_mpi_probe(int src, int tag, int blocking, struct SimMpiStatus* st) {
  RtGuard g; need_env("probe");
  sched_point(E_MSG, 8);
  int r = me();
  for (;;) {
    progress(r);
    bool seen[SIM_MAX_RANKS] = {};
    for (Msg* m : M->box[r]) {
      if (!matches(m, src, tag) || seen[m->src]) continue;
      seen[m->src] = true;
      if (m->avail <= S.now) { if (st) { st->source = m->src; st->tag = m->tag; } return 1; }
    }
    if (!blocking) return 0;
    wait_box(r, "MPI probe");
  }
}
SIM_EXPORT void sim_mpi_barrier(void) {
  static int cnt, gen;
  RtGuard g; need_env("barrier");
  sched_point(E_MSG, 9);
  int my = gen;
  if (++cnt == M->size) { cnt = 0; gen++; for (int i = 0; i < S.nth; i++) if (S.th[i].state == T_BLOCKED && S.th[i].wait_obj == (void*)&cnt) sched_wake(&S.th[i]); return; }
  while (gen == my) sched_block("MPI barrier", &cnt);
}
SIM_EXPORT void sim_mpi_abort(int code) { RtGuard g; sim_violation("mpi-abort", "rank %d aborts the MPI job with code %d", me(), code); }
SIM_EXPORT void sim_mpi_config(int ranks, double slow, uint64_t maxdelay, double rdv) { M->size = ranks; M->slow = slow; M->maxdelay = maxdelay; M->rdv = rdv; }
SIM_EXPORT uint64_t sim_mpi_undelivered(void) { uint64_t n = 0; for (int i = 0; i < M->size; i++) for (Msg* m : M->box[i]) n += !m->taken; return n; }
SIM_EXPORT int sim_mpi_exit_code(int r) { return M->exit_code[r]; }
}
extern void* g_rank_so[SIM_MAX_RANKS];
extern int g_nranks;
#include <dlfcn.h>
struct RankArg { int rank; void (*fn)(int); };
static void* rank_main(void* p) {
  RankArg* a = (RankArg*)p;
  Thread* t = tl_self;
  int depth = t->in_rt;
  t->exit_jmp_set = true;
  if (setjmp(t->exit_jmp) == 0) {
    a->fn(a->rank);
    M->exit_code[a->rank] = -1;
    if (a->rank == 0) { S.deadline_len = 30000000000ull + 100 * M->maxdelay; S.deadline = S.now + S.deadline_len; S.deadline_fair = S.gstep >= S.fair_after; }
  }
  t = tl_self;
  t->in_rt = depth;
  t->exit_jmp_set = false;
  RtGuard g;
  if (M->env[a->rank] == 1) sim_violation("mpi-not-finalised", "rank %d ends without finalising MPI", a->rank);
  M->exited[a->rank] = true;
  return nullptr;
}
[[noreturn]] void rank_exit(int code) {
  Thread* t = tl_self;
  M->exit_code[t->rank] = code;
  if (!t->exit_jmp_set) sim_internal_error("exit outside a rank body");
  sim_log("rank %d calls exit(%d)", t->rank, code);
  longjmp(t->exit_jmp, 1);
}
extern "C" SIM_EXPORT int sim_mpi_images(void) { return g_nranks; }
extern "C" SIM_EXPORT void sim_mpi_run(const char* entry, int ranks) {
  RtGuard g;
  M->size = ranks;
  Thread* th[SIM_MAX_RANKS];
  for (int r = 0; r < ranks; r++) {
    if (r >= g_nranks) sim_internal_error("not enough rank images");
    RankArg* a = new RankArg;
    a->rank = r;
    a->fn = (void (*)(int))dlsym(g_rank_so[r], entry);
    if (!a->fn) sim_internal_error("no entry %s", entry);
    th[r] = thread_spawn(rank_main, a, r);
  }
  tl_self->in_rt--;
  for (int r = 0; r < ranks; r++) thread_join_sim(th[r]);
  tl_self->in_rt++;
}
