// Simulated heap: never reuses memory within a run, red zones, shadow map,
// allocation failure; and the __tsan_* entry points that turn every memory
// access of the code under test into a scheduling point.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <sys/mman.h>
#include <algorithm>
#include <map>

namespace sim {
static const uintptr_t ABASE = 0x200000000000ull;
static const size_t ASIZE = 1ull << 30;
static const uintptr_t SBASE = 0x210000000000ull; // shadow: 1 byte per byte
static unsigned char *const shadow = (unsigned char *)SBASE;
static size_t brk_off = 64;
static size_t g_live = 0, g_live_bytes = 0; static uint64_t g_allocs = 0; static uint32_t g_alloc_faults = 0;
static unsigned char fillb = 0xa5;
struct Blk { size_t size; bool live; uint64_t serial; int fiber; };
static std::map<uintptr_t, Blk> *blks;

bool in_arena(const void *p) { return (uintptr_t)p - ABASE < ASIZE; }
void mem_init() {
  void *a = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap((void *)SBASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void *)ABASE || s != (void *)SBASE) { perror("arena mmap"); exit(2); }
}
void mem_child(uint64_t seed) { blks = new std::map<uintptr_t, Blk>; fillb = (unsigned char)(0x81 + (seed % 0x7e)); }
size_t live_allocs() { return g_live; }
size_t live_bytes() { return g_live_bytes; }
uint64_t alloc_count() { return g_allocs; }
std::string describe_live(size_t max) {
  Rt g; std::string s; size_t n = 0;
  for (auto &b : *blks) if (b.second.live) { if (n++ < max) { char t[80]; snprintf(t, sizeof t, "#%llu:%zu bytes ", (unsigned long long)b.second.serial, b.second.size); s += t; } }
  return s;
}
static void *arena_alloc(size_t n) {
  size_t need = (n + 15) / 16 * 16 + 32;
  if (need < n || need > ASIZE || brk_off + need > ASIZE) return nullptr;
  uintptr_t p = ABASE + brk_off + 16;
  brk_off += need;
  memset(shadow + (p - ABASE), 1, n);
  memset((void *)p, fillb, n);
  Blk b; b.size = n; b.live = true; b.serial = ++g_allocs; b.fiber = self();
  (*blks)[p] = b;
  g_live++; g_live_bytes += n;
  return (void *)p;
}
static void arena_free(void *q, const char *how) {
  uintptr_t p = (uintptr_t)q;
  auto it = blks->find(p);
  if (it == blks->end()) fail("bad-free", "%s of a pointer that was not allocated", how);
  if (!it->second.live) fail("double-free", "%s of a block of %zu bytes that is already free", how, it->second.size);
  it->second.live = false; g_live--; g_live_bytes -= it->second.size;
  forget_sync_objects(q, it->second.size);
  memset(shadow + (p - ABASE), 2, it->second.size);
  size_t k = std::min<size_t>(it->second.size, 4096);
  memset(q, 0xdd, k);
}
static const char *locate(uintptr_t a, char *b, size_t n) {
  auto it = blks->upper_bound(a);
  if (it == blks->begin()) { snprintf(b, n, "before the heap"); return b; }
  --it;
  snprintf(b, n, "%lld bytes into a %s block of %zu bytes", (long long)(a - it->first), it->second.live ? "live" : "freed", it->second.size);
  return b;
}
void check_mem(const void *p, size_t n, bool write, const char *what) {
  uintptr_t a = (uintptr_t)p - ABASE;
  if (a >= ASIZE) {
    int o;
    if (what && stack_dead(p, &o)) { Rt g; fail("dead-stack", "%s %s a dead stack frame of thread %d (%s)", what, write ? "writes" : "reads", o, fiber_name(o)); }
    return;
  }
  for (size_t i = 0; i < n; i++)
    if (__builtin_expect(shadow[a + i] != 1, 0)) {
      Rt g; char b[128];
      int s = shadow[a + i];
      fail(s == 2 ? "use-after-free" : "out-of-bounds", "%s%s of %zu bytes at %s", what ? what : "", what ? (write ? " write" : " read") : (write ? "write" : "read"), n, locate(ABASE + a + i, b, sizeof b));
    }
}
static bool alloc_fault() {
  if (!faults_on() || world().p_alloc <= 0 || g_alloc_faults >= world().max_alloc_faults) return false;
  if (!flip("alloc", world().p_alloc)) return false;
  g_alloc_faults++; fired(F_ALLOC); tracef("FAULT allocation fails");
  return true;
}
static void *user_new(size_t n, bool nothrow) {
  if (!active || rt) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
  if (alloc_fault()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void *p; { Rt g; p = arena_alloc(n ? n : 1); }
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
extern "C" void __real_free(void *);
static void user_delete(void *p) {
  if (!p) return;
  if (in_arena(p)) { Rt g; if (active) arena_free(p, "delete"); return; }
  __real_free(p);
}
} // namespace sim

void *operator new(size_t n) { return sim::user_new(n, false); }
void *operator new[](size_t n) { return sim::user_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::user_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::user_new(n, true); }
void operator delete(void *p) noexcept { sim::user_delete(p); }
void operator delete[](void *p) noexcept { sim::user_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::user_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::user_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::user_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::user_delete(p); }

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) {
  if (!sim::active || sim::rt) return __real_malloc(n);
  if (sim::alloc_fault()) return nullptr;
  sim::Rt g; return sim::arena_alloc(n ? n : 1);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!sim::active || sim::rt) return __real_calloc(a, b);
  if (sim::alloc_fault()) return nullptr;
  sim::Rt g; void *p = sim::arena_alloc(a * b ? a * b : 1); if (p) memset(p, 0, a * b); return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (sim::in_arena(p)) { sim::Rt g; if (sim::active) sim::arena_free(p, "free"); return; }
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (p && !sim::in_arena(p)) return __real_realloc(p, n);
  if (!sim::active || sim::rt) { if (!p) return __real_malloc(n); }
  if (sim::alloc_fault()) return nullptr;
  sim::Rt g; void *q = sim::arena_alloc(n ? n : 1);
  if (p && q) { size_t o = sim::blks->at((uintptr_t)p).size; memcpy(q, p, o < n ? o : n); sim::arena_free(p, "realloc"); }
  return q;
}

static void range(const void *p, size_t n, bool w, const char *what) {
  if (!sim::active || sim::rt || !n) return;
  sim::mem_access(p, 1, w);
  sim::check_mem(p, n, w, what);
}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (sim::active && !sim::rt && n) {
    range(s, n, false, "memcpy"); range(d, n, true, "memcpy");
    if (d != s && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n) sim::fail("memcpy-overlap", "memcpy of %zu bytes with overlapping source and destination", n);
  }
  if (sim::active && !sim::rt && n > 16) { // torn copies are visible to other threads
    size_t h = n / 2; __real_memcpy(d, s, h); sim::point("memcpy"); sim::check_mem((char *)d + h, n - h, true, "memcpy"); sim::check_mem((const char *)s + h, n - h, false, "memcpy");
    __real_memcpy((char *)d + h, (const char *)s + h, n - h); return d;
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, false, "memmove"); range(d, n, true, "memmove"); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range(d, n, true, "memset"); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { range(a, n, false, "memcmp"); range(b, n, false, "memcmp"); return __real_memcmp(a, b, n); }

// ------------------------------------------------------------ tsan callbacks
#define A(n) void __tsan_read##n(void *p) { sim::mem_access(p, n, false); } void __tsan_write##n(void *p) { sim::mem_access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { sim::mem_access(p, n, false); } void __tsan_unaligned_write##n(void *p) { sim::mem_access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { sim::mem_access(p, n, false); } void __tsan_volatile_write##n(void *p) { sim::mem_access(p, n, true); } \
  void __tsan_read_write##n(void *p) { sim::mem_access(p, n, true); } void __tsan_unaligned_volatile_read##n(void *p) { sim::mem_access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { sim::mem_access(p, n, true); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **p, void *) { sim::mem_access(p, 8, true); }
void __tsan_vptr_read(void **p) { sim::mem_access(p, 8, false); }
void __tsan_read_range(void *p, unsigned long n) { range(p, n, false, "range"); }
void __tsan_write_range(void *p, unsigned long n) { range(p, n, true, "range"); }
typedef __int128 a128;
#define ATOM(T, b) \
 T __tsan_atomic##b##_load(const volatile T *a, int) { sim::mem_access((const void *)a, b / 8, false); return *a; } \
 void __tsan_atomic##b##_store(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); *a = v; } \
 T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)(o + v); return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)(o - v); return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)(o & v); return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)(o | v); return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)(o ^ v); return o; } \
 T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; *a = (T)~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sim::mem_access((const void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sim::mem_access((const void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sim::mem_access((const void *)a, b / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(char, 8) ATOM(short, 16) ATOM(int, 32) ATOM(long, 64) ATOM(a128, 128)
void __tsan_atomic_thread_fence(int) { sim::point("fence"); }
void __tsan_atomic_signal_fence(int) {}
}
