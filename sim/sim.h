// Deterministic simulator: public interface used by scenarios and by the
// simulated operating system.  One OS thread, fibers, virtual time.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Fault { F_EIO, F_SHORT_READ, F_SHORT_WRITE, F_ENOSPC, F_OPEN, F_CLOSE, F_STAT, F_STALL_IO, F_REORDER,
             F_ALLOC, F_THREAD, F_SPURIOUS, F_CLOCK_JUMP, F_CLOCK_TICK, F_STALL_THREAD, F_PREEMPT, F_CRASH,
             F_DISK_FULL, F_SYSCALL, F_LOW_FD, F_MAX };
extern const char *const fault_names[F_MAX];

const uint64_t US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;

// ---- decisions ---------------------------------------------------------
// All return 0 by default (during minimisation / replay unless recorded).
uint32_t choose(const char *stream, uint32_t n);              // uniform over 0..n-1
uint32_t choose_p(const char *stream, uint32_t n, double p);  // 0 with 1-p, else uniform 1..n-1
bool     flip(const char *stream, double p);
uint64_t pick_u64(const char *stream);                        // full random word, recorded as value
uint32_t range(const char *stream, uint32_t lo, uint32_t hi); // lo by default

// ---- run control -------------------------------------------------------
struct Limits {
  uint64_t max_points = 24000000;
  uint64_t max_sim_ns = 300 * SEC;
};
Limits &limits();
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void crash_now();   // simulated process crash (only if scenario registered a post-crash check)
void on_crash(std::function<void()> f);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fired(Fault f, uint32_t n = 1);
void covered(uint64_t state_hash); // abstract state reached, for the coverage measure
bool tracing();

// ---- fibers ------------------------------------------------------------
int  go_impl(const char *name, std::function<void()> f);
void join(int id);
bool finished(int id);
int  self();
uint64_t now();                 // monotonic ns
void sleep(uint64_t ns);
void point(const char *what);   // explicit scheduling point

bool block(const char *why, uint64_t deadline, const void *obj = nullptr); // true: woken, false: deadline
void wake(int id);
bool is_blocked(int id);

// harness section: no scheduling points, no memory tracking, no faults
struct Quiet { Quiet(); ~Quiet(); };
// start a harness thread
template <class F> int go(const char *name, F f) { int id; { Quiet q; id = go_impl(name, std::function<void()>(f)); } point("go"); return id; }
// wait until predicate is true or timeout: polls with virtual sleeps
template <class P> bool wait_for(P pred, uint64_t timeout_ns, uint64_t step_ns = MS) {
  uint64_t end = now() + timeout_ns;
  for (;;) {
    { Quiet q; if (pred()) return true; }
    if (now() >= end) return false;
    sleep(step_ns < end - now() + 1 ? step_ns : end - now() + 1);
  }
}

// ---- configuration of the simulated world ---------------------------------
struct World {
  // scheduling
  bool   preempt = true;
  bool   stalls = true;           // long thread stalls at preemption points
  uint64_t max_stall = 50 * MS;
  bool   spurious = true;         // spurious condition wake-ups
  // storage
  double p_eio = 0, p_short_read = 0, p_short_write = 0, p_enospc = 0, p_open = 0, p_close = 0, p_stat = 0;
  double p_slow = 0.3;            // slow operation -> out-of-order completion
  uint64_t max_slow = 20 * MS;
  double p_stall = 0;             // very slow operation
  uint64_t stall_lo = 1 * SEC, stall_hi = 30 * SEC;
  uint64_t disk_capacity = ~0ull; // bytes
  uint32_t max_faults = 1000000;
  uint32_t pool = 0;              // 0: choose
  // allocation / threads
  double p_alloc = 0;
  double p_thread = 0;
  uint32_t max_alloc_faults = 1;
  double p_syscall = 0;           // mkdir/remove...
  // clocks
  double p_tick = 0;              // wall clock moves on inside calls
  double p_jump = 0;              // wall clock jumps
  bool   crash = false;           // allow crash points
};
World &world();
void enable_faults(bool on); // master switch for storage/alloc/thread/syscall faults

// wall clock
int64_t wall_ns();
void set_wall_ns(int64_t v);

// ---- memory ------------------------------------------------------------------
size_t live_allocs();
size_t live_bytes();
uint64_t alloc_count();
void check_mem(const void *p, size_t n, bool write, const char *what);
std::string describe_live(size_t max = 5);

// ---- disk -------------------------------------------------------------------
struct FsOp {                 // one executed storage operation
  int id; char type; int fd; int64_t off; uint64_t len; int64_t result; bool injected; uint64_t t_submit, t_done; std::string path;
};
std::vector<FsOp> &fs_log();
int  open_fds();
int  bad_fd_uses();          // operations on descriptors that are not open
int  uncleaned_reqs();
void disk_put(const char *path, const std::string &data);
void disk_put_sparse(const char *path, uint64_t size);
void disk_poke(const char *path, uint64_t off, const std::string &data);
bool disk_exists(const char *path);
bool disk_is_dir(const char *path);
uint64_t disk_size(const char *path);
std::string disk_get(const char *path, uint64_t off = 0, uint64_t len = ~0ull);
void stdin_put(const std::string &data); // descriptor 0 is open on /sim/stdin, for reading and writing
void stdin_closed(); // descriptor 0 is free: the next open gets it
void disk_mkdir(const char *path);
void disk_link(const char *path, const char *to); // a symbolic link
void disk_special(const char *path, unsigned kind); // S_IFIFO, S_IFCHR, S_IFSOCK...
int  fs_inflight();

// ---- registry ----------------------------------------------------------------
struct Scenario {
  const char *prop, *name;
  void (*run)();
  int weight;
  Scenario *next;
  Scenario(const char *p, const char *n, void (*r)(), int w = 1);
};
Scenario *scenarios();
#define SCENARIO(prop, name, ...)                                               \
  static void scen_##prop##_##name();                                           \
  static sim::Scenario reg_##prop##_##name(#prop, #name, scen_##prop##_##name, ##__VA_ARGS__); \
  static void scen_##prop##_##name()

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)

} // namespace sim
