// Core of the simulator: fibers, virtual time, decisions, result reporting.
#include "internal.h"
#include "result.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>

namespace sim {

const char *const fault_names[F_MAX] = {
  "io_error", "short_read", "short_write", "no_space", "open_error", "close_error", "stat_error", "io_stall", "io_reorder",
  "alloc_failure", "thread_create_failure", "spurious_wakeup", "clock_jump", "clock_tick", "thread_stall", "preemption", "crash",
  "disk_full", "syscall_error", "descriptor_zero"};

int rt = 1;
bool active = false;
uint64_t now_ns = 0;
static int64_t wall_off = 0;
static World g_world;
static Limits g_limits;
World &world() { return g_world; }
Limits &limits() { return g_limits; }
static bool g_faults = false;
static uint32_t g_fault_count = 0;
void enable_faults(bool on) { g_faults = on; }
bool faults_on() { return g_faults && g_fault_count < g_world.max_faults; }

Result *g_res = nullptr;           // shared with the parent
static uint64_t g_seed = 0;
static bool g_replay = false;
static bool g_trace = false;
bool tracing() { return g_trace; }

// ---------------------------------------------------------------- fibers
struct EhGlobals { void *caught; unsigned int uncaught; };
enum State { READY, BLOCKED, DONE };
const int MAXF = 64;
const size_t STACK = 512 * 1024;
const uintptr_t STACK_BASE = 0x300000000000ull;
struct Fiber {
  int id = 0; std::string name; void *rsp = nullptr; State st = READY; bool daemon = false;
  uint64_t deadline = NEVER; bool woken = false; const char *why = ""; const void *obj = nullptr;
  uint64_t lp = 0, next_pre = NEVER, switch_lp = 0, stop_at = 0;
  EhGlobals eh = {nullptr, 0}; int err = 0; int rtdepth = 0;
  std::function<void()> fn;
};
static Fiber *fibers[MAXF];
static int nfib = 0;
static Fiber *cur = nullptr;
static uint64_t total_points = 0, total_switches = 0;
static uint64_t thash = 1469598103934665603ull;
static uint64_t next_timer = NEVER;
static const uint64_t FAIR = 20000;
static const uint64_t POINT_NS = 20;
static std::function<void()> *crash_fn = nullptr;
static bool crashed = false;

void fold(uint64_t v) { thash ^= v; thash *= 1099511628211ull; thash ^= thash >> 29; }

extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.global sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

const char *fiber_name(int id) { return id >= 0 && id < nfib ? fibers[id]->name.c_str() : "?"; }
int self() { return cur ? cur->id : -1; }

// -------------------------------------------------------------- decisions
static inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint64_t hstr(const char *s) { uint64_t h = 14695981039346656037ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
struct StreamInfo { uint64_t n = 0; char name[24]; };
static std::unordered_map<uint64_t, StreamInfo> *streams;
struct KeyHash { size_t operator()(const std::pair<uint64_t, uint64_t> &k) const { return mix(k.first ^ mix(k.second)); } };
static std::unordered_map<std::pair<uint64_t, uint64_t>, uint64_t, KeyHash> *replay_map;
static std::unordered_map<int, std::vector<std::pair<uint64_t, uint64_t>>> *replay_pre; // fiber -> (lp,value) sorted
static std::unordered_map<int, size_t> *replay_pre_i;

static void record(const char *stream, uint64_t counter, uint64_t value) {
  if (!g_res) return;
  uint32_t i = g_res->nchoices;
  if (i >= MAX_CHOICES) { g_res->overflow = 1; return; }
  Choice &c = g_res->choices[i];
  snprintf(c.stream, sizeof c.stream, "%s", stream); c.counter = counter; c.value = value;
  g_res->nchoices = i + 1;
}
static uint64_t decide(const char *stream, std::function<uint64_t(uint64_t)> sample) {
  Rt g;
  uint64_t h = hstr(stream);
  StreamInfo &si = (*streams)[h];
  uint64_t c = si.n++;
  uint64_t v;
  if (g_replay) { auto it = replay_map->find(std::make_pair(h, c)); v = it == replay_map->end() ? 0 : it->second; }
  else v = sample(mix(g_seed ^ mix(h + c * 0x9e3779b97f4a7c15ull)));
  return v;
}
static uint64_t finish_choice(const char *stream, uint64_t v) {
  Rt g;
  if (v) { record(stream, (*streams)[hstr(stream)].n - 1, v); fold(v * 31 + 7); }
  return v;
}
static inline double u01(uint64_t x) { return (x >> 11) * (1.0 / 9007199254740992.0); }
uint32_t choose(const char *stream, uint32_t n) {
  if (n <= 1) return 0;
  uint64_t v = decide(stream, [n](uint64_t r) { return r % n; });
  if (v >= n) v %= n;
  return (uint32_t)finish_choice(stream, v);
}
uint32_t choose_p(const char *stream, uint32_t n, double p) {
  if (n <= 1) return 0;
  uint64_t v = decide(stream, [n, p](uint64_t r) -> uint64_t { return u01(r) < p ? 1 + mix(r) % (n - 1) : 0; });
  if (v >= n) v %= n;
  return (uint32_t)finish_choice(stream, v);
}
bool flip(const char *stream, double p) { return choose_p(stream, 2, p) != 0; }
uint64_t pick_u64(const char *stream) { return finish_choice(stream, decide(stream, [](uint64_t r) { return mix(r); })); }
uint32_t range(const char *stream, uint32_t lo, uint32_t hi) { return hi <= lo ? lo : lo + choose(stream, hi - lo + 1); }

void fired(Fault f, uint32_t n) { if (g_res) g_res->faults[f] += n; }
bool fault(const char *stream, double p, Fault f) {
  if (p <= 0 || !faults_on()) return false;
  if (!flip(stream, p)) return false;
  g_fault_count++; fired(f); fold(100 + f);
  tracef("FAULT %s", fault_names[f]);
  return true;
}
void covered(uint64_t h) {
  Rt g;
  if (g_res && g_res->nstates < MAX_STATES) g_res->states[g_res->nstates++] = h;
}

// ----------------------------------------------------------------- tracing
static void vtrace(const char *fmt, va_list ap) {
  if (!g_trace || !g_res) return;
  char b[512];
  int n = snprintf(b, sizeof b, "%12.6f ms [%d %s] ", now_ns / 1e6, cur ? cur->id : -1, cur ? cur->name.c_str() : "-");
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (g_res->tracelen + n < MAX_TRACE) { memcpy(g_res->trace + g_res->tracelen, b, n); g_res->tracelen += n; }
}
void tracef(const char *fmt, ...) { if (!g_trace) return; Rt g; va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); }
void note(const char *fmt, ...) { if (!g_trace) return; Rt g; va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); }

static void finish(int status) {
  if (g_res) {
    g_res->hash = thash; g_res->points = total_points; g_res->switches = total_switches; g_res->sim_ns = now_ns; g_res->nfib = nfib;
    g_res->status = status;
  }
  _exit(0);
}
[[noreturn]] void fail(const char *cls, const char *fmt, ...) {
  ++rt;
  active = false;
  if (g_res) {
    va_list ap; va_start(ap, fmt);
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    va_end(ap);
    for (char *c = g_res->msg; *c; c++) if (*c == '\n' || *c == '\r') *c = ' ';
    tracef("VIOLATION %s: %s", g_res->cls, g_res->msg);
  }
  fold(hstr(cls));
  finish(2);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduler
static double pre_mean = 0, pre_api = 0, pre_stallp = 0, sched_rand = 0.5;
static void set_stop(Fiber *f) { f->stop_at = std::min(f->next_pre, f->switch_lp + FAIR); }
static void next_preempt(Fiber *f) {
  if (g_replay) {
    auto it = replay_pre->find(f->id);
    f->next_pre = NEVER;
    if (it != replay_pre->end()) { size_t &i = (*replay_pre_i)[f->id]; if (i < it->second.size()) f->next_pre = it->second[i].first; }
  } else if (pre_mean > 0 && g_world.preempt) {
    double u = u01(mix(g_seed ^ mix(0x7177 + f->id * 1315423911ull) ^ mix(f->lp)));
    double gap = -log(1 - u) * pre_mean;
    f->next_pre = f->lp + 1 + (uint64_t)gap;
  } else f->next_pre = NEVER;
  set_stop(f);
}
static void wake_timers() {
  uint64_t nt = NEVER;
  for (int i = 0; i < nfib; i++) {
    Fiber *f = fibers[i];
    if (f->st == BLOCKED && f->deadline != NEVER) {
      if (f->deadline <= now_ns) { f->st = READY; f->woken = false; f->deadline = NEVER; }
      else nt = std::min(nt, f->deadline);
    }
  }
  next_timer = nt;
}
static void switch_to(Fiber *t) {
  if (t == cur) { cur->switch_lp = cur->lp; set_stop(cur); return; }
  Fiber *from = cur;
  total_switches++;
  fold((uint64_t)from->id * 64 + t->id); fold(from->lp);
  EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
  from->eh = *g; from->err = errno; from->rtdepth = rt;
  *g = t->eh; rt = t->rtdepth; 
  cur = t;
  t->switch_lp = t->lp; set_stop(t);
  int e = t->err;
  sim_switch(&from->rsp, t->rsp);
  // resumed: whoever switched to us restored cur/rt/eh
  (void)e;
  errno = cur->err;
}
static int ready_others(Fiber **out) {
  int n = 0;
  for (int k = 1; k <= nfib; k++) {
    Fiber *f = fibers[((cur ? cur->id : 0) + k) % nfib];
    if (f != cur && f->st == READY) out[n++] = f;
  }
  return n;
}
static std::string blocked_report() {
  std::string s;
  for (int i = 0; i < nfib; i++) if (fibers[i]->st == BLOCKED) { char b[160]; snprintf(b, sizeof b, "%s[%d %s: %s]", s.empty() ? "" : " ", i, fibers[i]->name.c_str(), fibers[i]->why); s += b; }
  return s;
}
// current fiber cannot continue: pick another
static void schedule_away() {
  Fiber *o[MAXF];
  for (;;) {
    if (now_ns >= next_timer) wake_timers();
    if (cur->st == READY) { // woken by timer meanwhile
      int n = ready_others(o);
      if (n == 0) return;
    }
    int n = ready_others(o);
    if (cur->st == READY) o[n++] = cur;
    if (n > 0) {
      uint32_t c = choose_p("sched", n, sched_rand);
      if (o[c] == cur) { cur->switch_lp = cur->lp; set_stop(cur); return; }
      switch_to(o[c]);
      return;
    }
    uint64_t nt = NEVER;
    for (int i = 0; i < nfib; i++) if (fibers[i]->st == BLOCKED) nt = std::min(nt, fibers[i]->deadline);
    if (nt == NEVER) fail("deadlock", "no thread can run: %s", blocked_report().c_str());
    if (nt > now_ns) now_ns = nt;
    if (now_ns > g_limits.max_sim_ns) fail("hang", "no end after %.1f simulated s: %s", now_ns / 1e9, blocked_report().c_str());
    wake_timers();
  }
}
bool block(const char *why, uint64_t deadline, const void *obj) {
  Rt g;
  cur->st = BLOCKED; cur->why = why; cur->obj = obj; cur->deadline = deadline; cur->woken = false;
  if (deadline < next_timer) next_timer = deadline;
  if (deadline <= now_ns) wake_timers();
  schedule_away();
  cur->why = ""; cur->obj = nullptr;
  return cur->woken;
}
void wake(int id) {
  Fiber *f = fibers[id];
  if (f->st != BLOCKED) return;
  f->st = READY; f->woken = true; f->deadline = NEVER;
}
int fibers_blocked_on(const void *o, int *out, int max) {
  int n = 0;
  for (int i = 0; i < nfib && n < max; i++) if (fibers[i]->st == BLOCKED && fibers[i]->obj == o) out[n++] = i;
  return n;
}
bool is_blocked(int id) { return fibers[id]->st == BLOCKED; }

static const uint64_t stall_tab[] = {1 * US, 10 * US, 100 * US, 1 * MS, 5 * MS, 15 * MS, 40 * MS, 150 * MS, 1 * SEC, 5 * SEC};
static void do_preempt(uint64_t v) {
  // v: 1+index, or 0x1000+stall code
  Fiber *o[MAXF];
  char st[24]; snprintf(st, sizeof st, "pre#%d", cur->id);
  if (v >= 0x1000) {
    uint64_t d = stall_tab[(v - 0x1000) % (sizeof stall_tab / sizeof *stall_tab)];
    record(st, cur->lp, v); fired(F_STALL_THREAD); fold(v);
    tracef("stalled for %.3f ms (at step %llu)", d / 1e6, (unsigned long long)cur->lp);
    block("stalled", now_ns + d);
    return;
  }
  int n = ready_others(o);
  if (n == 0) return;
  record(st, cur->lp, v); fired(F_PREEMPT);
  Fiber *t = o[(v - 1) % n];
  tracef("preempted at step %llu -> [%d %s]", (unsigned long long)cur->lp, t->id, t->name.c_str());
  switch_to(t);
}
static uint32_t stalls_drawn = 0; // code that takes many small steps is not to be stalled at every one of them
static uint64_t sample_preempt(uint64_t r) {
  if (g_world.stalls && u01(mix(r ^ 77)) < pre_stallp && stalls_drawn++ < 300) {
    int k = 0, m = 0; while (m < (int)(sizeof stall_tab / sizeof *stall_tab) && stall_tab[m] <= g_world.max_stall) m++;
    if (m > 0) { k = (int)(mix(r ^ 99) % m); return 0x1000 + k; }
  }
  return 1 + mix(r ^ 5) % 8;
}
static void maybe_crash();
static uint64_t crash_at = NEVER;
// slow path of every scheduling point
static void slow_point(bool isapi) {
  Rt g;
  if (total_points > g_limits.max_points) fail("livelock", "no end after %llu steps (simulated %.3f s)", (unsigned long long)total_points, now_ns / 1e9);
  if (now_ns > g_limits.max_sim_ns) fail("hang", "no end after %.1f simulated s: %s", now_ns / 1e9, blocked_report().c_str());
  if (total_points >= crash_at && !crashed) { crash_at = NEVER; maybe_crash(); }
  if (now_ns >= next_timer) wake_timers();
  if (cur->lp >= cur->next_pre) {
    if (g_replay) {
      auto &v = (*replay_pre)[cur->id]; size_t &i = (*replay_pre_i)[cur->id];
      uint64_t val = v[i].second; i++;
      next_preempt(cur);
      if (val >= 0x8000) maybe_crash(); else do_preempt(val);
    } else {
      uint64_t r = mix(g_seed ^ mix(0x991 + cur->id) ^ mix(cur->lp * 3 + 1));
      next_preempt(cur);
      do_preempt(sample_preempt(r));
    }
  } else if (isapi && !g_replay && g_world.preempt && pre_api > 0) {
    uint64_t r = mix(g_seed ^ mix(0x55aa + cur->id) ^ mix(cur->lp * 7 + 3));
    if (u01(r) < pre_api) do_preempt(sample_preempt(r));
  }
  if (cur->lp - cur->switch_lp >= FAIR) {
    Fiber *o[MAXF]; int n = ready_others(o);
    if (n) { tracef("time slice over"); switch_to(o[0]); } else { cur->switch_lp = cur->lp; set_stop(cur); }
  }
}
static void maybe_crash() {
  if (!crash_fn || crashed) return;
  char st[24]; snprintf(st, sizeof st, "pre#%d", cur->id);
  record(st, cur->lp, 0x8000);
  fired(F_CRASH);
  tracef("CRASH of the process");
  crash_now();
}
void crash_now() {
  crashed = true;
  g_faults = false;
  // everything volatile is gone: all other threads stop for good
  for (int i = 0; i < nfib; i++) if (fibers[i] != cur && fibers[i]->st != DONE) { fibers[i]->st = BLOCKED; fibers[i]->deadline = NEVER; fibers[i]->why = "crashed"; }
  rt = 0;
  (*crash_fn)();
  rt = 1;
  fold(4242);
  finish(1);
  __builtin_unreachable();
}
void on_crash(std::function<void()> f) {
  Rt g;
  crash_fn = new std::function<void()>(f);
  if (!g_replay && g_world.crash) {
    uint64_t r = mix(g_seed ^ 0xc4a5);
    double u = u01(r);
    static const double span[] = {300, 3000, 30000, 200000};
    crash_at = total_points + (uint64_t)(u * span[mix(r) % 4]);
  }
}

static inline void hot(bool isapi) {
  ++cur->lp; ++total_points; now_ns += POINT_NS;
  if (__builtin_expect(cur->lp >= cur->stop_at || now_ns >= next_timer || isapi || (total_points & 0x3ffff) == 0 || total_points >= crash_at, 0)) slow_point(isapi);
}
void api(const char *what) {
  if (!active || rt > 1) return;
  (void)what;
  hot(true);
}
void point(const char *what) { if (active && rt == 0) { hot(true); } }

void mem_access(const void *p, unsigned n, bool write) {
  if (__builtin_expect(rt || !active, 0)) return;
  hot(false);
  uintptr_t a = (uintptr_t)p;
  if (a - STACK_BASE < MAXF * STACK) {
    int f = (int)((a - STACK_BASE) / STACK);
    if (f != cur->id) {
      if (f >= nfib || fibers[f]->st == DONE || (fibers[f]->st != DONE && a < (uintptr_t)fibers[f]->rsp))
        fail("dead-stack", "%s of %u bytes in a dead stack frame of thread %d (%s)", write ? "write" : "read", n, f, fiber_name(f));
    }
  } else check_mem(p, n, write, nullptr);
}
bool stack_dead(const void *p, int *owner) {
  uintptr_t a = (uintptr_t)p;
  if (a - STACK_BASE >= MAXF * STACK) return false;
  int f = (int)((a - STACK_BASE) / STACK); *owner = f;
  if (f == cur->id) return false;
  return f >= nfib || fibers[f]->st == DONE || a < (uintptr_t)fibers[f]->rsp;
}

static void fiber_done() {
  ++rt;
  cur->st = DONE;
  // wake joiners
  for (int i = 0; i < nfib; i++) if (fibers[i]->st == BLOCKED && fibers[i]->obj == cur) wake(i);
  fold(cur->id * 1000003ull);
  schedule_away();
  abort();
}
static void fiber_main() {
  try {
    cur->fn();
  } catch (const std::exception &e) {
    ++rt; fail("terminate", "exception escaped thread '%s': %s", cur->name.c_str(), e.what());
  } catch (...) {
    ++rt;
    std::type_info *t = __cxxabiv1::__cxa_current_exception_type();
    fail("terminate", "exception escaped thread '%s' (type %s)", cur->name.c_str(), t ? t->name() : "?");
  }
  fiber_done();
}
extern "C" void sim_fiber_entry() { errno = 0; fiber_main(); }

int spawn(const char *name, std::function<void()> f, bool daemon) {
  Rt g;
  if (nfib >= MAXF) fail("harness", "too many threads");
  Fiber *x = new Fiber;
  x->id = nfib; x->name = name; x->daemon = daemon; x->fn = std::move(f);
  uintptr_t top = STACK_BASE + (uintptr_t)(nfib + 1) * STACK;
  uint64_t *sp = (uint64_t *)(top - 64);
  *--sp = 0;                          // fake return address for entry (alignment)
  *--sp = (uint64_t)(void *)sim_fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  x->rsp = sp; x->rtdepth = 0;
  fibers[nfib++] = x;
  next_preempt(x);
  return x->id;
}
int go_impl(const char *name, std::function<void()> f) {
  int id = spawn(name, std::move(f), false);
  tracef("started thread %d (%s)", id, name);
  return id;
}
void join(int id) {
  Rt g;
  while (fibers[id]->st != DONE) { cur->obj = fibers[id]; block("join", NEVER, fibers[id]); }
}
bool finished(int id) { return fibers[id]->st == DONE; }
uint64_t now() { return now_ns; }
int64_t wall_ns() { return (int64_t)now_ns + wall_off; }
void set_wall_ns(int64_t v) { wall_off = v - (int64_t)now_ns; }
void sleep(uint64_t ns) { Rt g; block("sleep", now_ns + (ns ? ns : 1)); }
Quiet::Quiet() { ++rt; }
Quiet::~Quiet() { --rt; }

// --------------------------------------------------------------- registry
static Scenario *head = nullptr;
Scenario::Scenario(const char *p, const char *n, void (*r)(), int w) : prop(p), name(n), run(r), weight(w), next(head) { head = this; }
Scenario *scenarios() { return head; }

// ---------------------------------------------------------------- child side
static void on_signal(int sig, siginfo_t *si, void *) {
  ++rt;
  if (sig == SIGALRM) { if (g_res) { snprintf(g_res->cls, sizeof g_res->cls, "watchdog"); snprintf(g_res->msg, sizeof g_res->msg, "real-time watchdog after %llu points", (unsigned long long)total_points); } finish(3); }
  fail(sig == SIGABRT ? "abort" : sig == SIGFPE ? "sigfpe" : "segv", "signal %d in thread '%s' (address %s)", sig, cur ? cur->name.c_str() : "?", sig == SIGABRT ? "-" : (si->si_addr ? "invalid" : "null"));
}
static void on_terminate() {
  ++rt;
  std::string w = "unknown";
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception &x) { w = x.what(); } catch (...) { std::type_info *t = __cxxabiv1::__cxa_current_exception_type(); w = t ? t->name() : "?"; }
  }
  for (auto &c : w) if (c == '\r' || c == '\n') c = ' ';
  fail("terminate", "std::terminate in thread '%s': %s", cur ? cur->name.c_str() : "?", w.c_str());
}
void child_init_once() {
  void *m = mmap((void *)STACK_BASE, MAXF * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void *)STACK_BASE) { perror("stack mmap"); exit(2); }
  mem_init();
}
void run_child(const Scenario *sc, uint64_t seed, bool replay, const Choice *ch, uint32_t nch, bool trace, Result *res) {
  g_res = res; g_seed = mix(seed); g_replay = replay; g_trace = trace;
  res->status = 0; res->nchoices = 0; res->tracelen = 0; res->cls[0] = res->msg[0] = 0; res->overflow = 0; res->nstates = 0;
  memset(res->faults, 0, sizeof res->faults);
  streams = new std::unordered_map<uint64_t, StreamInfo>;
  replay_map = new std::unordered_map<std::pair<uint64_t, uint64_t>, uint64_t, KeyHash>;
  replay_pre = new std::unordered_map<int, std::vector<std::pair<uint64_t, uint64_t>>>;
  replay_pre_i = new std::unordered_map<int, size_t>;
  if (replay) {
    for (uint32_t i = 0; i < nch; i++) {
      if (!strncmp(ch[i].stream, "pre#", 4)) (*replay_pre)[atoi(ch[i].stream + 4)].push_back(std::make_pair(ch[i].counter, ch[i].value));
      else (*replay_map)[std::make_pair(hstr(ch[i].stream), ch[i].counter)] = ch[i].value;
    }
    for (auto &p : *replay_pre) std::sort(p.second.begin(), p.second.end());
  } else {
    static const double means[] = {0, 25, 80, 250, 800, 2500, 10000, 40000};
    uint64_t r = mix(g_seed ^ 0xabc);
    pre_mean = means[r % 8];
    static const double apis[] = {0, 0.02, 0.1, 0.3};
    pre_api = apis[mix(r) % 4];
    static const double st[] = {0, 0.05, 0.3};
    pre_stallp = st[mix(r ^ 3) % 3];
    static const double sr[] = {0, 0.3, 0.8};
    sched_rand = sr[mix(r ^ 9) % 3];
  }
  static char alt[65536];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  alarm(40);
  mem_child(g_seed);
  os_child();
  uv_child();
  wall_off = 1500000000ll * 1000000000ll;
  active = true;
  spawn("main", [sc] { sc->run(); ++rt; if (g_res->status == 0) finish(1); }, false);
  Fiber osf; osf.id = 0; // switching away from the OS stack for good
  cur = fibers[0];
  set_stop(cur);
  rt = 0;
  sim_switch(&osf.rsp, fibers[0]->rsp);
  abort();
}
} // namespace sim
