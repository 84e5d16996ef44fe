// Deterministic allocator: fixed address, bump.  In most runs it never reuses
// memory, so that an access to freed memory is always recognisable; in the
// others it gives the block freed last to the next request of its size (what
// recognises things by their address meets another thing there).  New memory is
// filled with zeros or with garbage, chosen per run as well.
#include "core.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <stdio.h>

#define ARENA_A 0x100000000000ull        // parent / start-up
#define ARENA_A_LEN (1ull << 30)
#define ARENA_B 0x110000000000ull        // simulated run
#define ARENA_B_LEN (4ull << 30)
static bool inited;
static bool run_area;
static uintptr_t pos_a = ARENA_A, pos_b = ARENA_B;
static volatile int lk;
static uint64_t live;                    // bytes of the simulated program, not of the simulator

struct Hdr { uint64_t size; uint64_t magic; uint64_t next; uint64_t own; }; // own: allocated by the simulated program
#define MAGIC_LIVE 0x5A5A11FEA110Cull
#define MAGIC_DEAD 0xDEADDEADDEADull

void arena_init() {
  if (inited) return;
  inited = true;
  void* a = mmap((void*)ARENA_A, ARENA_A_LEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void* b = mmap((void*)ARENA_B, ARENA_B_LEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED) { const char m[] = "sim: no arena\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
}
#define NCLASS 256                       // blocks up to 4 kB are reused
static uintptr_t freed[NCLASS + 1];      // LIFO lists, linked through the headers
static bool reuse;
static uint8_t fill;
static size_t size_class(size_t n) { size_t c = (n + 15) / 16; return c ? c : 1; }
void arena_reset_marks(bool reuse_memory, uint8_t fill_byte) { run_area = true; pos_b = ARENA_B; live = 0; reuse = reuse_memory; fill = fill_byte; memset(freed, 0, sizeof freed); }
bool arena_contains(const void* p) { return (uintptr_t)p >= ARENA_B && (uintptr_t)p < ARENA_B + ARENA_B_LEN; }
extern "C" SIM_EXPORT uint64_t sim_heap_live(void) { return live; }

static void lock() { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }

static void* alloc(size_t n, size_t align, bool zero = false) {
  if (!inited) arena_init();
  Thread* t = tl_self;
  if (t && S.active && !t->in_rt && S.alloc_site && run_area) { // memory may be short
    RtGuard g;
    if (fault_draw(t->id ? "allocation_worker" : "allocation", 2, S.p_alloc[t->id != 0], false)) { S.alloc_failures++; errno = ENOMEM; return nullptr; }
  }
  if (align < 16) align = 16;
  bool own = t && S.active && !t->in_rt;
  if (run_area && reuse && align == 16 && size_class(n) <= NCLASS) {
    lock();
    uintptr_t p = freed[size_class(n)];
    if (p) {
      Hdr* h = (Hdr*)(p - sizeof(Hdr));
      freed[size_class(n)] = h->next;
      h->size = n; h->next = 0; h->magic = MAGIC_LIVE; h->own = own;
      if (own) live += n;
      unlock();
      if (own) S.rep->allocs++;
      sync_forget(p, size_class(n) * 16);
      race_reuse(p, size_class(n) * 16);
      race_alloc(p, n);
      memset((void*)p, zero ? 0 : fill, n);
      return (void*)p;
    }
    unlock();
  }
  lock();
  uintptr_t* pos = run_area ? &pos_b : &pos_a;
  uintptr_t end = run_area ? ARENA_B + ARENA_B_LEN : ARENA_A + ARENA_A_LEN;
  uintptr_t p = *pos + sizeof(Hdr);
  p = (p + align - 1) & ~(uintptr_t)(align - 1);
  if (n > (3ull << 30) || p + n + 32 > end) { unlock(); errno = ENOMEM; return nullptr; }
  *pos = (p + (n ? n : 1) + 16 + 15) & ~(uintptr_t)15;   // 16 bytes of red zone
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n; h->magic = MAGIC_LIVE; h->next = 0; h->own = own;
  if (own) live += n;
  unlock();
  if (own) S.rep->allocs++;
  if (run_area) { race_alloc(p, n); if (fill && !zero) memset((void*)p, fill, n); } // untouched memory is zero
  return (void*)p;
}
extern "C" {
SIM_EXPORT void* malloc(size_t n) { return alloc(n, 16); }
SIM_EXPORT void free(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if ((uintptr_t)p < ARENA_A || (uintptr_t)p >= ARENA_B + ARENA_B_LEN) {
    if (in_sim()) { RtGuard g; sim_violation("bad-free", "free of a pointer that was never allocated"); }
    return;
  }
  if (h->magic == MAGIC_DEAD && in_sim()) { RtGuard g; sim_violation("double-free", "memory freed twice"); }
  if (h->magic != MAGIC_LIVE && in_sim()) { RtGuard g; sim_violation("bad-free", "free of a pointer that was never allocated"); }
  if (h->magic == MAGIC_LIVE) {
    h->magic = MAGIC_DEAD;
    if (h->own) live -= h->size;
    if (arena_contains(p)) {
      race_free((uintptr_t)p, h->size);
      size_t c = size_class(h->size);
      if (run_area && reuse && c <= NCLASS && ((uintptr_t)p & 15) == 0) { lock(); h->next = freed[c]; freed[c] = (uintptr_t)p; unlock(); }
    }
  }
}
SIM_EXPORT void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return alloc(n, 16, true);
}
SIM_EXPORT void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  free(p);
  return q;
}
SIM_EXPORT void* memalign(size_t a, size_t n) { return alloc(n, a); }
SIM_EXPORT void* aligned_alloc(size_t a, size_t n) { return alloc(n, a); }
SIM_EXPORT int posix_memalign(void** out, size_t a, size_t n) {
  void* p = alloc(n, a);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
SIM_EXPORT void* valloc(size_t n) { return alloc(n, 4096); }
SIM_EXPORT void* pvalloc(size_t n) { return alloc((n + 4095) & ~size_t(4095), 4096); }
SIM_EXPORT size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
}
