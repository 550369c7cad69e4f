// C01 - C04: events, locks, threads
#include "common.h"
using namespace mg::core;

// ---------------------------------------------------------------- C01
// any number of waiters, signallers and pollers on one event that is not reset
SCENARIO(C01, release_all, 3) {
  sim::World &w = sim::world(); w.stalls = sim::flip("st", 0.4);
  struct S { signal_event ev; int begun = 0, done = 0, in_wait = 0, released = 0; uint64_t first_done = 0; };
  S *s = new S;
  int nw = 1 + sim::choose("nw", 4), ns = 1 + sim::choose("ns", 3), np = sim::choose("np", 3);
  std::vector<int> ids;
  { sim::Quiet q; ids.reserve(16); }
  bool stalls = w.stalls;
  for (int i = 0; i < nw; i++) {
    uint64_t delay; bool timed;
    { sim::Quiet q; delay = sim::choose("wd", 4) * sim::choose("wdu", 300) * US; timed = sim::flip("timed", 0.3); }
    int id = sim::go("waiter", [s, delay, timed, stalls] {
      if (delay) sim::sleep(delay);
      uint64_t t0; Q(s->in_wait++; t0 = sim::now());
      bool r = true;
      if (timed) r = s->ev.wait(200000); else s->ev.wait();
      sim::Quiet q;
      SIM_CHECK(r, "lost", "a wait of 200 s on an event that was signalled answered 'not signalled'");
      SIM_CHECK(s->begun > 0, "early", "a wait returned before anybody signalled the event");
      if (!stalls && s->done) {
        uint64_t ref = std::max(t0, s->first_done);
        SIM_CHECK(sim::now() - ref <= 5 * MS, "not-prompt", "wait returned %.3f ms after the event was signalled", (sim::now() - ref) / 1e6);
      }
      s->released++; sim::covered(hmix(s->in_wait, s->released * 16 + s->done));
    });
    Q(ids.push_back(id));
  }
  for (int i = 0; i < np; i++) {
    int id = sim::go("poller", [s] {
      for (int k = 0; k < 6; k++) {
        int d; Q(d = s->done);
        bool r = s->ev.is_signaled();
        { sim::Quiet q;
          SIM_CHECK(!d || r, "lost", "is_signaled says no after signal() returned");
          SIM_CHECK(!r || s->begun, "early", "is_signaled says yes before anybody signalled"); }
        sim::sleep(1 + sim::choose("pd", 200) * US);
      }
    });
    Q(ids.push_back(id));
  }
  for (int i = 0; i < ns; i++) {
    uint64_t delay; { sim::Quiet q; delay = sim::choose("sd", 3) * sim::choose("sdu", 500) * US; }
    int id = sim::go("signaller", [s, delay] {
      if (delay) sim::sleep(delay);
      Q(s->begun++);
      s->ev.signal();
      Q(if (!s->done++) s->first_done = sim::now());
    });
    Q(ids.push_back(id));
  }
  for (int id : ids) sim::join(id);
  // a late waiter
  s->ev.wait();
  SIM_CHECK(s->ev.wait(0) && s->ev.is_signaled(), "lost", "a signalled event does not stay signalled");
  SIM_CHECK(s->released == nw, "lost", "%d of %d waiters were released", s->released, nw);
  delete s;
}
// two events used as a hand-over, each reset by its only waiter before the next signal
SCENARIO(C01, ping_pong, 2) {
  sim::world().stalls = sim::flip("st", 0.3);
  struct S { signal_event a, b; int turn = 0; };
  S *s = new S; int rounds = 2 + sim::choose("r", 10);
  bool timed = sim::flip("timed", 0.3);
  int x = sim::go("ping", [s, rounds, timed] {
    for (int i = 0; i < rounds; i++) {
      Q(SIM_CHECK(s->turn == 2 * i, "order", "turn %d instead of %d", s->turn, 2 * i); s->turn++);
      s->a.signal();
      if (timed) { while (!s->b.wait(1000)) {} } else s->b.wait();
      s->b.reset();
    }
  });
  int y = sim::go("pong", [s, rounds] {
    for (int i = 0; i < rounds; i++) {
      s->a.wait(); s->a.reset();
      Q(SIM_CHECK(s->turn == 2 * i + 1, "order", "wait returned although the event was reset and not signalled again (turn %d instead of %d)", s->turn, 2 * i + 1); s->turn++);
      s->b.signal();
    }
  });
  sim::join(x); sim::join(y); delete s;
}
// reset: later waiters wait again, whoever waits with a time limit is told the truth
SCENARIO(C01, reset, 2) {
  sim::world().stalls = sim::flip("st", 0.3);
  struct S { signal_event ev; int epoch = 0; bool armed = false, signalling = false; };
  S *s = new S; int nw = 1 + sim::choose("nw", 3), rounds = 1 + sim::choose("r", 4);
  for (int r = 0; r < rounds; r++) {
    std::vector<int> ids;
    Q(s->signalling = false);
    for (int i = 0; i < nw; i++) {
      int how; { sim::Quiet q; how = sim::choose("how", 3); }
      int id = sim::go("waiter", [s, how] {
        if (how == 0) { bool a; bool got = s->ev.wait(2); Q(a = s->signalling); SIM_CHECK(!got || a, "stale", "a wait on a reset event answered 'signalled'"); }
        if (how == 1) { bool a; bool got = s->ev.is_signaled(); Q(a = s->signalling); SIM_CHECK(!got || a, "stale", "a reset event reports itself signalled"); }
        s->ev.wait();
        bool a; Q(a = s->signalling);
        SIM_CHECK(a, "stale", "wait returned although the event was reset and not signalled again");
      });
      Q(ids.push_back(id));
    }
    if (sim::flip("gap", 0.7)) sim::sleep(1 + sim::choose("gapt", 4000) * US);
    Q(s->signalling = true);
    s->ev.signal();
    for (int id : ids) sim::join(id);
    s->ev.reset();
    SIM_CHECK(!s->ev.is_signaled() && !s->ev.wait(0), "stale", "event still signalled after reset");
    Q(ids.clear(); ids.shrink_to_fit());
  }
  delete s;
}
// an event that lives on the waiter's stack and goes away as soon as the wait returns
SCENARIO(C01, short_lived, 1) {
  sim::world().stalls = false;
  for (int k = 0; k < 3; k++) {
    struct S { signal_event *ev; }; S *s = new S; s->ev = new signal_event;
    int id = sim::go("signaller", [s] { s->ev->signal(); });
    s->ev->wait();
    sim::join(id);
    delete s->ev; delete s;
  }
}

// ---------------------------------------------------------------- C02
static const uint32_t waits_ms[] = {0, 1, 2, 5, 20, 100, 1000, 4294, 4295, 5000, 10000, 60000};
SCENARIO(C02, timed, 3) {
  sim::World &w = sim::world(); w.stalls = sim::flip("st", 0.3); bool stalls = w.stalls;
  struct S { signal_event ev; int begun = 0; uint64_t done_at = ~0ull; bool stop = false; };
  S *s = new S; int nw = 1 + sim::choose("nw", 3); bool will_signal = sim::flip("sig", 0.7), untimed = will_signal && sim::flip("unt", 0.4);
  int ncont = sim::choose("nc", 3); bool jump = sim::flip("jump", 0.4);
  std::vector<int> ids;
  uint64_t longest = 0;
  for (int i = 0; i < nw; i++) {
    uint32_t ms; uint64_t delay; { sim::Quiet q; ms = waits_ms[sim::choose("ms", sizeof waits_ms / sizeof *waits_ms)]; delay = sim::choose("wd", 3) * sim::choose("wdu", 500) * US; longest = std::max<uint64_t>(longest, ms * MS + delay); }
    int id = sim::go("waiter", [s, ms, delay, stalls] {
      if (delay) sim::sleep(delay);
      uint64_t t0 = sim::now(), d0; Q(d0 = s->done_at);
      bool r = s->ev.wait(ms);
      sim::Quiet q; uint64_t t1 = sim::now(); uint64_t dl = t0 + ms * MS;
      sim::covered(hmix(ms, r * 8 + (s->begun > 0) * 2 + (s->done_at != ~0ull)));
      SIM_CHECK(!r || s->begun, "untrue", "wait(%u) answered 'signalled' although nobody signalled", ms);
      if (!r) {
        SIM_CHECK(d0 == ~0ull && !(s->done_at < dl), "untrue", "wait(%u) answered 'not signalled' although the event had been signalled %.6f ms before the deadline", ms, ((double)dl - s->done_at) / 1e6);
        SIM_CHECK(t1 >= dl, "too-early", "wait(%u) answered 'not signalled' after %.6f ms", ms, (t1 - t0) / 1e6);
      }
      if (!stalls) {
        uint64_t end = std::min(dl, std::max(t0, s->done_at));
        SIM_CHECK(t1 <= end + 5 * MS, "too-late", "wait(%u) returned %.3f ms after %s", ms, (t1 - end) / 1e6, end == dl ? "its deadline" : "the signal");
      }
    });
    Q(ids.push_back(id));
  }
  for (int i = 0; i < ncont; i++) {
    int id = sim::go("poller", [s] {
      for (int k = 0; k < 20; k++) { uint64_t d0; Q(d0 = s->done_at); bool r = s->ev.is_signaled(); int b; Q(b = s->begun); SIM_CHECK(r || d0 == ~0ull, "untrue", "is_signaled answered no after signal() returned"); SIM_CHECK(!r || b, "untrue", "is_signaled answered yes before any signal"); if (sim::flip("pz", 0.3)) sim::sleep(1 + sim::choose("pd", 300) * US); }
    });
    Q(ids.push_back(id));
  }
  if (untimed) { int id = sim::go("untimed", [s] { s->ev.wait(); int b; Q(b = s->begun); SIM_CHECK(b, "untrue", "wait returned before any signal"); }); Q(ids.push_back(id)); }
  if (jump) { int id = sim::go("clock", [s] { for (int k = 0; k < 4; k++) { sim::sleep(1 + sim::choose("jd", 3000) * US); Q(static const int64_t j[] = {-3600, 3600, -86400, 86400 * 365ll}; sim::set_wall_ns(sim::wall_ns() + j[sim::choose("jn", 4)] * 1000000000ll)); sim::fired(sim::F_CLOCK_JUMP); } }); Q(ids.push_back(id)); }
  if (will_signal) {
    uint64_t d; { sim::Quiet q; static const uint64_t u[] = {0, 1, 5, 100, 6000, 30000}; d = u[sim::choose("sdu", 6)] * sim::choose("sdn", 1200) * US; }
    int id = sim::go("signaller", [s, d] { if (d) sim::sleep(d); Q(s->begun++); s->ev.signal(); Q(s->done_at = std::min(s->done_at, sim::now())); });
    Q(ids.push_back(id));
  }
  for (int id : ids) sim::join(id);
  delete s;
}
// deadline and signal arrive at (nearly) the same moment
SCENARIO(C02, race_at_deadline, 2) {
  sim::world().stalls = false;
  struct S { signal_event ev; int begun = 0; uint64_t done_at = ~0ull; };
  for (int k = 0; k < 4; k++) {
    S *s = new S; uint32_t ms = 1 + sim::choose("ms", 3); int64_t off = (int64_t)sim::choose("off", 4000) - 2000; int n = 1 + sim::choose("n", 2);
    std::vector<int> ids;
    for (int i = 0; i < n; i++) { int id = sim::go("waiter", [s, ms] {
      uint64_t t0 = sim::now(); bool r = s->ev.wait(ms); sim::Quiet q; uint64_t t1 = sim::now();
      SIM_CHECK(!r || s->begun, "untrue", "wait(%u) answered 'signalled' although nobody signalled", ms);
      SIM_CHECK(r || !(s->done_at < t0 + ms * MS), "untrue", "wait(%u) answered 'not signalled' although the event was signalled %lld ns before the deadline", ms, (long long)(t0 + ms * MS - s->done_at));
      SIM_CHECK(r || t1 >= t0 + ms * MS, "too-early", "wait(%u) gave up after %.6f ms", ms, (t1 - t0) / 1e6);
      SIM_CHECK(t1 <= t0 + ms * MS + 5 * MS, "too-late", "wait(%u) took %.3f ms", ms, (t1 - t0) / 1e6);
    }); Q(ids.push_back(id)); }
    sim::sleep(ms * MS + off * 10);
    Q(s->begun++); s->ev.signal(); Q(s->done_at = sim::now());
    for (int id : ids) sim::join(id);
    Q(ids.clear(); ids.shrink_to_fit());
    delete s;
  }
}
// long limits: seconds to weeks, on a bare event and through a thread's stop and completion events
namespace {
struct LongBody : cthread {
  uint32_t ms = 0, body_ms = 0; int begun = 0; uint64_t told = ~0ull;
  void run() override {
    uint64_t t0 = sim::now(); bool r = should_stop(ms);
    { sim::Quiet q; uint64_t t1 = sim::now(), dl = t0 + ms * MS, end = std::min(dl, std::max(t0, told));
      SIM_CHECK(!r || begun, "untrue", "should_stop(%u) answered yes although nobody asked", ms);
      SIM_CHECK(r || t1 >= dl, "too-early", "should_stop(%u) answered no after %.3f ms", ms, (t1 - t0) / 1e6);
      SIM_CHECK(t1 <= end + 5 * MS, "too-late", "should_stop(%u) returned %.3f ms after %s", ms, (t1 - end) / 1e6, end == dl ? "its deadline" : "the request"); }
  }
  void request() { Q(begun++); stop(); Q(told = std::min(told, sim::now())); }
};
uint32_t long_ms() {
  static const uint32_t b[] = {4000, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 4294967, 4294968, 3600000, 16777216, 86400000, 2147483647u, 2147483648u, 4294967294u, 4294967295u};
  uint32_t k = sim::choose("lm", 24);
  return k < 17 ? b[k] : 3000 + sim::choose("lmr", 1u << (12 + (k - 17) * 3 > 31 ? 31 : 12 + (k - 17) * 3));
}
}
SCENARIO(C02, long_limits, 2) {
  sim::World &w = sim::world(); w.stalls = false; w.p_slow = 0; sim::limits().max_sim_ns = 400ull * 86400 * 1000000000ull;
  struct S { signal_event ev; int begun = 0; uint64_t done_at = ~0ull; };
  S *s = new S; int nw = 1 + sim::choose("nw", 3); std::vector<int> ids; uint64_t longest = 0;
  for (int i = 0; i < nw; i++) {
    uint32_t ms = long_ms(); longest = std::max<uint64_t>(longest, ms);
    int id = sim::go("waiter", [s, ms] {
      uint64_t t0 = sim::now(); bool r = s->ev.wait(ms);
      sim::Quiet q; uint64_t t1 = sim::now(), dl = t0 + ms * MS, end = std::min(dl, std::max(t0, s->done_at));
      sim::covered(hmix(ms, r));
      SIM_CHECK(!r || s->begun, "untrue", "wait(%u) answered 'signalled' although nobody signalled", ms);
      SIM_CHECK(r || t1 >= dl, "too-early", "wait(%u) answered 'not signalled' after %.3f ms", ms, (t1 - t0) / 1e6);
      SIM_CHECK(r || !(s->done_at < dl), "untrue", "wait(%u) answered 'not signalled' although the event had been signalled before the deadline", ms);
      SIM_CHECK(t1 <= end + 5 * MS, "too-late", "wait(%u) returned %.3f ms after %s", ms, (t1 - end) / 1e6, end == dl ? "its deadline" : "the signal");
    });
    Q(ids.push_back(id));
  }
  if (sim::flip("sig", 0.5)) {
    uint64_t d; Q(d = (uint64_t)((double)longest * 1e6 * (sim::choose("frac", 1200) / 1000.0)));
    int id = sim::go("signaller", [s, d] { if (d) sim::sleep(d); Q(s->begun++); s->ev.signal(); Q(s->done_at = std::min(s->done_at, sim::now())); });
    Q(ids.push_back(id));
  }
  for (int id : ids) sim::join(id);
  delete s;
  if (sim::flip("thr", 0.6)) {
    LongBody *b = new LongBody; Q(b->ms = long_ms()); uint64_t t0 = sim::now(); uint32_t dms = long_ms(); bool ask = sim::flip("ask", 0.4); uint64_t d = (uint64_t)sim::choose("af", 1500) * (b->ms / 1000 + 1) * MS;
    b->start();
    int id = ask ? sim::go("asker", [b, d] { sim::sleep(d); b->request(); }) : -1;
    bool r = b->is_done(dms);
    { sim::Quiet q; uint64_t dl = t0 + dms * MS, end = std::min<uint64_t>(std::min<uint64_t>(dl, t0 + b->ms * MS), b->told);
      SIM_CHECK(r || sim::now() >= dl, "too-early", "is_done(%u) answered no after %.3f ms", dms, (sim::now() - t0) / 1e6);
      SIM_CHECK(sim::now() <= end + 15 * MS, "too-late", "is_done(%u) returned %.3f ms late", dms, (sim::now() - end) / 1e6); }
    if (id >= 0) sim::join(id);
    b->join(); delete b;
  }
}
// repeated use by the same thread, with resets between
SCENARIO(C02, reset_rounds, 1) {
  sim::World &w = sim::world(); w.stalls = false;
  struct S { signal_event ev; int sig = 0; bool stop = false; };
  S *s = new S;
  for (int k = 0; k < 5; k++) {
    s->ev.reset(); Q(s->sig = 0);
    bool will = sim::flip("will", 0.5); uint64_t d = sim::choose("d", 20) * 200 * US;
    int id = sim::go("signaller", [s, will, d] { sim::sleep(d + 1); if (will) { Q(s->sig = 1); s->ev.signal(); Q(s->sig = 2); } });
    uint64_t t0 = sim::now(); bool r = s->ev.wait(3); uint64_t t1 = sim::now();
    { sim::Quiet q;
      SIM_CHECK(!r || s->sig, "untrue", "wait(3) answered 'signalled' after a reset and before a new signal");
      SIM_CHECK(r || t1 - t0 >= 3 * MS, "too-early", "wait(3) gave up after %.6f ms", (t1 - t0) / 1e6);
      SIM_CHECK(t1 - t0 <= 8 * MS, "too-late", "wait(3) took %.3f ms", (t1 - t0) / 1e6); }
    sim::join(id);
    SIM_CHECK(s->ev.is_signaled() == will, "untrue", "is_signaled is wrong once everything is quiet");
  }
  delete s;
}

// ---------------------------------------------------------------- C03
namespace {
struct LockModel { int owner = -1, depth = 0; std::map<int, int> maybe; uint64_t maybe_epoch = 0; };
struct LM {
  critical_section cs; LockModel m; int shared = 0;
  void enter_call() { Q(m.maybe[sim::self()]++; m.maybe_epoch++); }
  void leave_call() { Q(if (--m.maybe[sim::self()] == 0) m.maybe.erase(sim::self()); m.maybe_epoch++); }
  void entered(const char *how) {
    sim::Quiet q;
    SIM_CHECK(m.owner < 0 || m.owner == sim::self(), "exclusion", "%s succeeded in thread %d while thread %d owns the lock (depth %d)", how, sim::self(), m.owner, m.depth);
    m.owner = sim::self(); m.depth++; sim::covered(hmix(m.depth, m.maybe.size()));
  }
  void leaving() { Q(if (--m.depth == 0) m.owner = -1); }
  void lock() { enter_call(); cs.lock(); entered("lock"); }
  void unlock() { leaving(); cs.unLock(); leave_call(); }
  bool others(int me) { for (auto &p : m.maybe) if (p.first != me) return true; return false; }
  bool try_lock(bool stalls) {
    uint64_t t0, e0; bool oth; int own;
    Q(t0 = sim::now(); oth = others(sim::self()); e0 = m.maybe_epoch; own = m.owner);
    enter_call();
    bool r = cs.try_lock();
    { sim::Quiet q;
      if (!r) {
        SIM_CHECK(own != sim::self(), "trylock", "try_lock failed for the owner");
        SIM_CHECK(oth || m.maybe_epoch != e0 + 1 || others(sim::self()), "trylock", "try_lock failed although nobody held the lock");
      }
      SIM_CHECK(stalls || sim::now() - t0 <= 5 * MS, "trylock-blocks", "try_lock took %.3f ms", (sim::now() - t0) / 1e6); }
    if (r) entered("try_lock"); else leave_call();
    return r;
  }
  void work() { int v = shared; sim::point("work"); if (sim::flip("hold", 0.15)) sim::sleep(1 + sim::choose("ht", 10) * MS); shared = v + 1; }
};
struct Oops {};
}
SCENARIO(C03, mixed, 3) {
  bool stalls = sim::world().stalls = sim::flip("st", 0.3);
  LM *l = new LM; int n = 2 + sim::choose("n", 3); std::vector<int> ids; int *total = new int(0);
  for (int i = 0; i < n; i++) { int id = sim::go("locker", [l, stalls, total] {
    int ops = 2 + sim::choose("ops", 8);
    for (int k = 0; k < ops; k++) {
      uint32_t what = sim::choose("op", 5);
      if (what == 0) { l->lock(); l->work(); Q((*total)++); l->unlock(); }
      else if (what == 1) { int d = 1 + sim::choose("depth", 4); for (int j = 0; j < d; j++) { if (j && sim::flip("tr", 0.4)) SIM_CHECK(l->try_lock(stalls), "trylock", "try_lock failed for the owner"); else l->lock(); } l->work(); Q((*total)++); for (int j = 0; j < d; j++) { l->unlock(); if (j + 1 < d && sim::flip("mid", 0.5)) { l->work(); Q((*total)++); } } }
      else if (what == 2) { if (l->try_lock(stalls)) { l->work(); Q((*total)++); l->unlock(); } }
      else if (what == 3) {
        bool thr = sim::flip("throw", 0.5);
        l->enter_call();
        try { auto_lock g(l->cs); l->entered("auto_lock"); l->work(); Q((*total)++);
          struct Leave { LM *l; ~Leave() { l->leaving(); } } lv = {l};
          if (thr) throw Oops(); } catch (Oops &) {}
        l->leave_call();
      } else {
        l->enter_call(); { auto_lock g(l->cs); l->entered("auto_lock"); { l->enter_call(); auto_lock h(l->cs); l->entered("auto_lock"); l->work(); Q((*total)++); l->leaving(); } l->leave_call(); l->work(); Q((*total)++); l->leaving(); } l->leave_call();
      }
      if (sim::flip("pause", 0.2)) sim::sleep(1 + sim::choose("pt", 3) * MS);
    }
  }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id);
  SIM_CHECK(l->shared == *total, "exclusion", "%d updates of a guarded counter, %d expected", l->shared, *total);
  SIM_CHECK(l->cs.try_lock(), "trylock", "lock not free after every exit"); l->cs.unLock();
  delete total; delete l;
}
// the lock becomes free exactly with the last exit
SCENARIO(C03, depth, 2) {
  sim::world().stalls = false;
  struct S { critical_section cs; int depth = 0; bool in = false, go = false; }; S *s = new S;
  int d = 1 + sim::choose("d", 5); if (sim::flip("deep", 0.15)) d += 60 + sim::choose("deepd", 400); int *probe = new int(0);
  for (int i = 0; i < d; i++) s->cs.lock();
  auto probe_free = [s, probe] { int id = sim::go("probe", [s, probe] { bool r = s->cs.try_lock(); if (r) s->cs.unLock(); Q(*probe = r); }); sim::join(id); return *probe != 0; };
  for (int i = d; i > 0; i--) {
    if (i < 6 || sim::flip("look", 0.05)) SIM_CHECK(!probe_free(), "exclusion", "another thread got the lock while it was held %d deep", i);
    if (i < 6 && sim::flip("scope", 0.3)) { try { auto_lock a(s->cs); auto_lock b(s->cs); throw 1; } catch (int) {} SIM_CHECK(!probe_free(), "exclusion", "scope guards released more than they took"); }
    if (i == 1) { // somebody is already queued for the lock
      int id = sim::go("queued", [s] { s->cs.lock(); Q(s->in = true); s->cs.unLock(); });
      sim::sleep(2 * MS); bool in; Q(in = s->in); SIM_CHECK(!in, "exclusion", "a second thread entered a held lock");
      s->cs.unLock(); sim::join(id);
    } else s->cs.unLock();
  }
  SIM_CHECK(probe_free(), "trylock", "lock not free after as many exits as entries");
  delete probe; delete s;
}

// ---------------------------------------------------------------- C04
namespace {
struct Body : cthread {
  int runs = 0; bool finished = false, saw_stop = false; int mode; uint64_t work; int polls = 0; bool stop_called = false; uint32_t poll_ms; uint64_t stop_at = ~0ull, seen_at = 0; bool stalls;
  Body(int m, uint64_t w, uint32_t p, bool st) : mode(m), work(w), poll_ms(p), stalls(st) {}
  virtual void run() {
    Q(runs++);
    if (mode == 0) { if (work) sim::sleep(work); }
    else for (;;) {
      bool c; uint64_t t0 = sim::now(); Q(c = stop_called); uint64_t at; Q(at = stop_at);
      bool s = should_stop(poll_ms); bool c2; Q(c2 = stop_called); polls++;
      SIM_CHECK(!s || c2, "stop", "the body was told to stop although nobody asked");
      SIM_CHECK(s || at == ~0ull, "stop", "a stop request was not seen by the next check");
      SIM_CHECK(s || sim::now() - t0 >= poll_ms * MS, "stop", "should_stop(%u) gave up after %.3f ms", poll_ms, (sim::now() - t0) / 1e6);
      (void)c;
      if (s) { Q(saw_stop = true); break; }
      if (work) sim::sleep(work);
    }
    sim::point("end of body");
    Q(finished = true);
  }
};
}
SCENARIO(C04, lifecycle, 3) {
  sim::World &w = sim::world(); bool st = w.stalls = sim::flip("st", 0.3); w.p_thread = sim::flip("pt", 0.4) ? 0.5 : 0; sim::enable_faults(true);
  int mode = sim::choose("mode", 2); uint64_t work = sim::choose("work", 4) * sim::choose("worku", 2000) * US; static const uint32_t pm[] = {0, 1, 10, 50}; uint32_t poll = mode && !work ? 1 : pm[sim::choose("poll", 4)];
  Body *b = new Body(mode, work, poll, st);
  std::vector<int> ids;
  bool stop_first = sim::flip("sf", 0.2);
  if (stop_first) { Q(b->stop_called = true); b->stop(); Q(b->stop_at = sim::now()); }
  SIM_CHECK(!b->is_done(), "done", "a thread that was not started is reported done");
  bool started = false; int tries = 0;
  while (!started) { tries++; try { b->start(); started = true; } catch (const std::exception &e) {
      int r; Q(r = b->runs); const mgexceptionbase *m = dynamic_cast<const mgexceptionbase *>(&e); int code = m ? m->get_error_number() : -1; SIM_CHECK(code < 0 && !r, "start", "start failed with code %d, body ran %d times", code, r);
      SIM_CHECK(!b->is_done(), "done", "a thread that could not be started is reported done");
      if (sim::flip("giveup", 0.5)) break; } }
  if (!started) { b->join(); if (sim::flip("j2", 0.5)) b->join(); SIM_CHECK(!b->runs, "once", "the body ran although start failed"); delete b; return; }
  int watchers = sim::choose("nw", 3);
  for (int i = 0; i < watchers; i++) { int id = sim::go("watcher", [b] { for (;;) { bool f0; Q(f0 = b->finished); uint32_t ms = sim::choose("dm", 3); bool d = b->is_done(ms); bool f; Q(f = b->finished); SIM_CHECK(!d || f, "done", "thread reported done before its body finished"); (void)f0; if (d) break; sim::sleep(100 * US); } }); Q(ids.push_back(id)); }
  if (mode) { int id = sim::go("stopper", [b, work] { sim::sleep(1 + sim::choose("sd", 3) * sim::choose("sdu", 3000) * US); Q(b->stop_called = true); b->stop(); Q(if (b->stop_at == ~0ull) b->stop_at = sim::now()); if (sim::flip("again", 0.3)) b->stop(); }); Q(ids.push_back(id)); }
  bool wait_done = sim::flip("wd", 0.4);
  if (wait_done) { while (!b->is_done(5)) {} bool f; Q(f = b->finished); SIM_CHECK(f, "done", "thread reported done before its body finished"); }
  b->join();
  { sim::Quiet q; SIM_CHECK(b->finished, "join", "join returned before the body finished"); SIM_CHECK(b->runs == 1, "once", "the body ran %d times", b->runs); SIM_CHECK(!mode || b->saw_stop, "stop", "loop body ended without a stop"); }
  SIM_CHECK(b->is_done(), "done", "a joined thread is not reported done");
  b->join();
  SIM_CHECK(b->is_done(1), "done", "a joined thread is not reported done");
  for (int id : ids) sim::join(id);
  sim::covered(hmix(b->polls, mode * 100 + tries * 10 + watchers));
  delete b;
}
// start fails (or never happens) and the owner destroys the object
SCENARIO(C04, cannot_start, 2) {
  sim::World &w = sim::world(); w.p_thread = 0.6; sim::enable_faults(true);
  // dirty memory below the object, as a real heap or stack would have
  void *m = operator new(sizeof(Body)); memset(m, sim::choose("dirt", 255) + 1, sizeof(Body));
  Body *b = new (m) Body(0, 0, 0, false);
  bool never = sim::flip("never", 0.3), started = false;
  if (!never) try { b->start(); started = true; } catch (const std::exception &) {}
  b->join(); b->join();
  SIM_CHECK(b->runs == (started ? 1 : 0), "once", "the body ran %d times", b->runs);
  SIM_CHECK(b->is_done() == started, "done", "is_done is wrong");
  b->~Body(); operator delete(m);
  // the loop thread is a thread, too
  mg::uv::uvloopthread *t = new mg::uv::uvloopthread; started = false;
  if (!sim::flip("never2", 0.3)) try { t->start(); started = true; } catch (const std::exception &) {}
  if (sim::flip("end", 0.5)) t->end();
  delete t;
}
// the same object again
SCENARIO(C04, restart, 1) {
  sim::World &w = sim::world(); w.p_thread = sim::flip("pt", 0.3) ? 0.4 : 0; sim::enable_faults(true); Body *b = new Body(0, sim::choose("work", 3) * sim::choose("worku", 2000) * US, 0, false);
  for (int rep = 0, n = 2 + sim::choose("rep", 2), runs = 0; rep < n; rep++) {
    Q(b->finished = false); bool started = true; try { b->start(); } catch (const std::exception &) { started = false; }
    if (!started) { b->join(); SIM_CHECK(b->runs == runs, "once", "the body ran although start failed"); continue; }
    int id = sim::go("watcher", [b] { while (!b->is_done(sim::choose("dm", 3))) {} bool f; Q(f = b->finished); SIM_CHECK(f, "done", "thread reported done before its body finished"); }); if (sim::flip("w", 0.5)) { while (!b->is_done(5)) {} bool f; Q(f = b->finished); SIM_CHECK(f, "done", "thread reported done before its body finished"); }
    b->join(); runs++; SIM_CHECK(b->finished && b->runs == runs && b->is_done(), "join", "run %d: finished %d, ran %d times", runs, b->finished, b->runs); sim::join(id); sim::covered(rep * 2 + started); }
  delete b;
}
// many threads at once, each runs once, all joined
SCENARIO(C04, many, 1) {
  sim::World &w = sim::world(); w.stalls = false; w.p_thread = 0.1; sim::enable_faults(true);
  int n = 2 + sim::choose("n", 5); std::vector<Body *> v; std::vector<char> ok; { sim::Quiet q; v.resize(n); ok.assign(n, 0); }
  for (int i = 0; i < n; i++) { v[i] = new Body(0, sim::choose("w", 3) * MS, 0, false); try { v[i]->start(); Q(ok[i] = 1); } catch (const std::exception &) {} }
  for (int i = 0; i < n; i++) { v[i]->join(); sim::Quiet q; SIM_CHECK(v[i]->runs == ok[i] && v[i]->finished == (ok[i] != 0), "join", "thread %d: ran %d times, finished %d, started %d", i, v[i]->runs, v[i]->finished, ok[i]); }
  for (int i = 0; i < n; i++) delete v[i];
}
