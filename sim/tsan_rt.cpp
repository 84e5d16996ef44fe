// Runtime for code compiled with -fsanitize=thread: every memory access is a
// simulated event (possible preemption), checked by a happens-before race
// detector and by an exact heap validity checker.  Not linked with libtsan.
#include "core.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <sys/mman.h>

#define ARENA_B 0x110000000000ull
#define ARENA_B_LEN (4ull << 30)
#define STACKS 0x300000000000ull
#define STACKS_LEN ((uint64_t)MAX_THREADS * ((4ull << 20) + (1 << 16)))

struct Cell { uint64_t e[4]; };
static Cell* sh_arena;   // one per 8 bytes
static Cell* sh_stack;
static uint8_t* valid;   // per 8 bytes of the arena: 0..8 valid bytes, 0xFD freed
struct GCell { uintptr_t key; uint64_t pad; Cell c; };
#define GCAP (1u << 17)
static GCell* sh_glob;
static uint32_t gcount;

struct SyncObj { uintptr_t key; VC vc; };
#define SCAP (1u << 20)
static SyncObj* syncs;
static uint32_t scount;
static uint32_t* stack_depth;
static void** shadow_stack; // MAX_THREADS x 128

static void* vmap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap shadow"); _Exit(3); }
  return p;
}
void race_init() {
  sh_arena = (Cell*)vmap(ARENA_B_LEN / 8 * sizeof(Cell));
  sh_stack = (Cell*)vmap(STACKS_LEN / 8 * sizeof(Cell));
  if (!valid) valid = (uint8_t*)vmap(ARENA_B_LEN / 8);
  sh_glob = (GCell*)vmap(GCAP * sizeof(GCell));
  syncs = (SyncObj*)vmap(SCAP * sizeof(SyncObj));
  shadow_stack = (void**)vmap(MAX_THREADS * 128 * sizeof(void*));
  stack_depth = (uint32_t*)vmap(4096);
}
void race_alloc(uintptr_t a, size_t n) {
  if (!valid) valid = (uint8_t*)vmap(ARENA_B_LEN / 8);
  size_t g = (a - ARENA_B) / 8;
  memset(valid + g, 8, n / 8);
  if (n & 7) valid[g + n / 8] = n & 7;
}
void race_reuse(uintptr_t a, size_t n) { memset(sh_arena + (a - ARENA_B) / 8, 0, n / 8 * sizeof(Cell)); }
void race_free(uintptr_t a, size_t n) {
  if (!valid) return;
  memset(valid + (a - ARENA_B) / 8, 0xFD, (n + 7) / 8);
}

const char* symbolize(void* pc, char* b, size_t n) {
  Dl_info di;
  if (pc && dladdr(pc, &di) && di.dli_fname) {
    const char* base = strrchr(di.dli_fname, '/');
    base = base ? base + 1 : di.dli_fname;
    if (di.dli_sname) snprintf(b, n, "%s", di.dli_sname);
    else snprintf(b, n, "%s+0x%lx", base, (unsigned long)((char*)pc - (char*)di.dli_fbase));
  } else snprintf(b, n, "?");
  return b;
}
extern "C" void rt_backtrace(Thread* t, char* out, size_t n) {
  size_t o = 0;
  out[0] = 0;
  uint32_t d = stack_depth[t->id];
  for (uint32_t k = 0; k < 12 && k < d && o + 100 < n; k++) {
    uint32_t i = d - 1 - k;
    if (i >= 128) continue;
    char s[160];
    symbolize((char*)shadow_stack[t->id * 128 + i] - 1, s, sizeof s);
    if (strlen(s) > 90) s[90] = 0;
    o += snprintf(out + o, n - o, "%s%s", o ? " < " : "", s);
  }
}

static Cell* glob_cell(uintptr_t g) {
  uint64_t h = (g * 0x9E3779B97F4A7C15ull) >> 40;
  for (uint32_t i = h % GCAP, k = 0; k < 64; i = (i + 1) % GCAP, k++) {
    if (sh_glob[i].key == g) return &sh_glob[i].c;
    if (!sh_glob[i].key) { sh_glob[i].key = g; gcount++; return &sh_glob[i].c; }
  }
  return nullptr;
}

[[noreturn]] static void bad_access(Thread* t, uintptr_t a, size_t n, bool write, int v, void* pc) {
  RtGuard g;
  char bt[900], s[200];
  rt_backtrace(t, bt, sizeof bt);
  if (v == 0xFD)
    sim_violation("use-after-free", "thread %d %s %zu bytes of memory that was already freed, in %s; stack: %s", t->id, write ? "writes" : "reads", n, symbolize(pc, s, 150), bt);
  sim_violation("heap-out-of-bounds", "thread %d %s %zu bytes outside any allocation, in %s; stack: %s", t->id, write ? "writes" : "reads", n, symbolize(pc, s, 150), bt);
}
static void check_valid(Thread* t, uintptr_t a, size_t n, bool write, void* pc) {
  uintptr_t e = a + n;
  if (a < ARENA_B || e > ARENA_B + ARENA_B_LEN) return;
  uintptr_t p = a;
  while (p < e) {
    uint8_t v = valid[(p - ARENA_B) >> 3];
    size_t off = p & 7, len = 8 - off;
    if (len > e - p) len = e - p;
    if (v != 8 && (v > 8 || off + len > v)) bad_access(t, a, n, write, v, pc);
    p += len;
  }
}
void rt_check_object(const void* p, size_t n) { if (in_sim() && arena_contains(p)) check_valid(tl_self, (uintptr_t)p, n, true, __builtin_return_address(0)); }

#define E_ID(x) ((x) & ~0xFFFFFFFFFF000000ull)
static inline uint64_t mk(uint32_t tid, uint64_t clk, uint8_t mask, bool w, bool at) {
  return (clk << 24) | ((uint64_t)w << 16) | ((uint64_t)at << 17) | ((uint64_t)(tid + 1) << 8) | mask;
}
void race_access(Thread* t, uintptr_t a, size_t n, bool write, void* pc, bool atomic) {
  uint64_t clk = t->vc.c[t->id];
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ull;
    size_t off = a & 7, len = 8 - off;
    if (len > e - a) len = e - a;
    uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
    Cell* c;
    if (a >= ARENA_B && a < ARENA_B + ARENA_B_LEN) c = &sh_arena[(a - ARENA_B) >> 3];
    else if (a >= STACKS && a < STACKS + STACKS_LEN) c = &sh_stack[(a - STACKS) >> 3];
    else c = glob_cell(g);
    a += len;
    if (!c) continue;
    uint64_t me = mk(t->id, clk, mask, write, atomic);
    int slot = -1;
    bool skip = false;
    for (int i = 0; i < 4; i++) {
      uint64_t x = c->e[i];
      if (!x) { if (slot < 0) slot = i; continue; }
      if (x == me) { skip = true; continue; }
      uint32_t xt = ((x >> 8) & 0xff) - 1;
      if (xt == (uint32_t)t->id) {
        if ((x & 0xff) == mask && ((x >> 17) & 1) == atomic && (write || !((x >> 16) & 1))) slot = i;
        continue;
      }
      if (!(x & mask & 0xff)) continue;
      bool xw = (x >> 16) & 1, xa = (x >> 17) & 1;
      if (!(xw || write)) continue;
      if (xa && atomic) continue;
      uint64_t xc = x >> 24;
      if (xc <= t->vc.c[xt]) continue;
      RtGuard gg;
      char bt[900], s[200];
      rt_backtrace(t, bt, sizeof bt);
      sim_violation("data-race", "thread %d %s memory that thread %u %s without synchronisation (%s), in %s; stack: %s", t->id,
                    write ? "writes" : "reads", xt, xw ? "wrote" : "read",
                    g >= ARENA_B && g < ARENA_B + ARENA_B_LEN ? "heap" : g >= STACKS && g < STACKS + STACKS_LEN ? "stack" : "static", symbolize(pc, s, 150), bt);
    }
    if (skip) continue;
    if (slot < 0) slot = (int)(t->lstep & 3);
    c->e[slot] = me;
  }
}
static inline SyncObj* sync_get(uintptr_t k, bool create) {
  uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 30;
  for (uint32_t i = h % SCAP;; i = (i + 1) % SCAP) {
    if (syncs[i].key == k) return &syncs[i];
    if (!syncs[i].key) {
      if (!create) return nullptr;
      if (scount > SCAP / 10 * 8) {
        if (S.race_on) { S.race_on = false; sim_probe("race_detector_table_full", 1); }
        return nullptr;
      }
      syncs[i].key = k; scount++;
      return &syncs[i];
    }
  }
}
static inline void join(VC* a, const VC* b) {
  for (int i = 0; i < S.nth; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
void race_fork(Thread* p, Thread* c) {
  memset(&c->vc, 0, sizeof c->vc);
  if (p) { c->vc = p->vc; p->vc.c[p->id]++; }
  c->vc.c[c->id] = 1;
}
void race_join(Thread* t, Thread* f) { join(&t->vc, &f->vc); }
void race_acquire(Thread* t, const void* o) { SyncObj* s = sync_get((uintptr_t)o, false); if (s) join(&t->vc, &s->vc); }
void race_release(Thread* t, const void* o) {
  SyncObj* s = sync_get((uintptr_t)o, true);
  if (s) { memcpy(s->vc.c, t->vc.c, sizeof(clk_t) * (size_t)S.nth); }
  t->vc.c[t->id]++;
}
void race_release_merge(Thread* t, const void* o) {
  SyncObj* s = sync_get((uintptr_t)o, true);
  if (s) join(&s->vc, &t->vc);
  t->vc.c[t->id]++;
}

// ---- entry points called by instrumented code --------------------------------
uintptr_t g_shared_lo, g_shared_len; // out-of-band observations of the harness
static inline void access(void* p, size_t n, bool w, void* pc) {
  Thread* t = tl_self;
  if (unlikely(!t || t->in_rt || !S.active)) return;
  S.gstep++;
  if (unlikely(++t->lstep >= t->next_check)) mem_slow(t);
  uintptr_t a = (uintptr_t)p;
  if (arena_contains(p)) check_valid(t, a, n, w, pc);
  else if (unlikely(a < 4096)) {
    RtGuard g; char bt[900]; rt_backtrace(t, bt, sizeof bt);
    sim_violation("null-dereference", "thread %d %s address %p; stack: %s", t->id, w ? "writes" : "reads", p, bt);
  }
  if (S.nlive > 1 && S.race_on && a - g_shared_lo >= g_shared_len) race_access(t, a, n, w, pc, false);
}
extern "C" SIM_EXPORT void sim_note_range(const void* p, size_t n, int w) {
  if (n) access((void*)p, n, w, __builtin_return_address(0));
}
extern "C" {
#define PC __builtin_return_address(0)
#define RW(n) \
  SIM_EXPORT void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  SIM_EXPORT void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  SIM_EXPORT void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  SIM_EXPORT void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  SIM_EXPORT void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  SIM_EXPORT void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
  SIM_EXPORT void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
  SIM_EXPORT void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); } \
  SIM_EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  SIM_EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_EXPORT void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, PC); }
SIM_EXPORT void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, PC); }
SIM_EXPORT void __tsan_vptr_update(void** p, void* v) { if (arena_contains(p) ? true : true) { if (*p != v) access(p, 8, true, PC); } }
SIM_EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
SIM_EXPORT void __tsan_init() {}
SIM_EXPORT void __tsan_func_entry(void* pc) {
  Thread* t = tl_self;
  if (unlikely(!t || !S.active)) return;
  uint32_t d = stack_depth[t->id]++;
  if (d < 128) shadow_stack[t->id * 128 + d] = pc ? __builtin_return_address(0) : nullptr;
}
SIM_EXPORT void __tsan_func_exit(void) {
  Thread* t = tl_self;
  if (unlikely(!t || !S.active)) return;
  if (stack_depth[t->id]) stack_depth[t->id]--;
}
SIM_EXPORT void __tsan_ignore_thread_begin() {}
SIM_EXPORT void __tsan_ignore_thread_end() {}

// memory functions reached from instrumented objects (--wrap at link time of the .so)
SIM_EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
SIM_EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
SIM_EXPORT void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }
SIM_EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { return __wrap_memcpy(d, s, n); }
SIM_EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { return __wrap_memmove(d, s, n); }
SIM_EXPORT void* __tsan_memset(void* d, int c, size_t n) { return __wrap_memset(d, c, n); }

static inline bool at_begin(void* p, size_t n, bool w, void* pc) {
  Thread* t = tl_self;
  if (unlikely(!t || t->in_rt || !S.active)) return false;
  if (S.nlive > 1) sched_point(E_ATOMIC, 0);
  else { S.gstep++; t->lstep++; if (t->lstep >= t->next_check) mem_slow(t); }
  if (arena_contains(p)) check_valid(t, (uintptr_t)p, n, w, pc);
  if (S.nlive > 1 && S.race_on) { race_access(t, (uintptr_t)p, n, w, pc, true); return true; }
  return false;
}
static inline void at_acq(void* p, int mo) { if (mo == 1 || mo == 2 || mo >= 4) race_acquire(tl_self, p); }
static inline void at_rel(void* p, int mo, bool rmw) {
  if (mo >= 3) { if (rmw) race_release_merge(tl_self, p); else race_release(tl_self, p); }
}
#define AT(T, N) \
  SIM_EXPORT T __tsan_atomic##N##_load(const volatile T* p, int mo) { bool b = at_begin((void*)p, sizeof(T), false, PC); T v = __atomic_load_n(p, 5); if (b) at_acq((void*)p, mo); return v; } \
  SIM_EXPORT void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) at_rel((void*)p, mo, false); __atomic_store_n(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_exchange_n(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_add(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_sub(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_and(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_or(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_xor(p, v, 5); } \
  SIM_EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { bool b = at_begin((void*)p, sizeof(T), true, PC); if (b) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); } return __atomic_fetch_nand(p, v, 5); } \
  SIM_EXPORT bool __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    bool b = at_begin((void*)p, sizeof(T), true, PC); (void)fmo; \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, 5, 5); \
    if (b) { at_acq((void*)p, ok ? mo : fmo); if (ok) at_rel((void*)p, mo, true); } return ok; } \
  SIM_EXPORT bool __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
    bool b = at_begin((void*)p, sizeof(T), true, PC); (void)fmo; \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, 5, 5); \
    if (b) { at_acq((void*)p, ok ? mo : fmo); if (ok) at_rel((void*)p, mo, true); } return ok; } \
  SIM_EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
    bool b = at_begin((void*)p, sizeof(T), true, PC); (void)fmo; \
    bool ok = __atomic_compare_exchange_n(p, &e, v, false, 5, 5); \
    if (b) { at_acq((void*)p, ok ? mo : fmo); if (ok) at_rel((void*)p, mo, true); } return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
SIM_EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
SIM_EXPORT void __tsan_atomic_signal_fence(int) {}
}
