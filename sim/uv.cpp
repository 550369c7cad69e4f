// Simulated libuv: event loop, thread pool, file system requests and the
// thread primitives, modelled on libuv 1.48 (unix).
#include "internal.h"
#include <uv.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

namespace sim {
extern int fibers_blocked_on(const void *o, int *out, int max);
struct Op { int kind; int fd = -1; std::vector<uv_buf_t> bufs; int64_t off = -1; std::string path; int flags = 0, mode = 0; std::string to; };
struct Work { uv_fs_t *req; uv_loop_t *loop; uv_fs_cb cb; Op op; uint64_t id, t0; };
typedef std::shared_ptr<Work> WorkP;
struct Loop {
  bool closed = false, stop = false; int active = 0; int runner = -1; int submitter = -1;
  std::vector<WorkP> done; std::vector<uv_async_t *> pending_async; std::set<uv_handle_t *> handles; std::vector<std::pair<uv_handle_t *, uv_close_cb>> closing;
  std::map<uv_timer_t *, std::pair<uint64_t, uint64_t>> timers; std::map<uv_timer_t *, uv_timer_cb> timer_cbs;
  uint64_t nrun = 0;
};
static std::unordered_map<const uv_loop_t *, Loop> *loops;
static std::deque<WorkP> *queue_;
static std::set<uint64_t> *pending_ids;
static std::set<const void *> *uncleaned;
static std::map<unsigned, std::map<int, void *>> *keys;
static int nworkers = 0, idle_workers = 0, inflight = 0; static uint64_t next_id = 1; static unsigned next_key = 1;
static char wq_tag;
static uv_loop_t default_loop; static bool default_init = false;
void uv_child() {
  loops = new std::unordered_map<const uv_loop_t *, Loop>; queue_ = new std::deque<WorkP>; pending_ids = new std::set<uint64_t>; uncleaned = new std::set<const void *>;
  keys = new std::map<unsigned, std::map<int, void *>>; nworkers = idle_workers = inflight = 0; next_id = 1; default_init = false;
}
int uncleaned_reqs() { return (int)uncleaned->size(); }
int fs_inflight() { return inflight; }

static Loop &L(const uv_loop_t *l, const char *what) {
  auto it = loops->find(l);
  if (it == loops->end() || it->second.closed) fail("bad-loop", "%s on a loop that is not open", what);
  return it->second;
}
static void wake_all(const void *o) { int w[64]; int n = fibers_blocked_on(o, w, 64); for (int i = 0; i < n; i++) wake(w[i]); }
// what Linux returns for each kind of operation (the real libuv retries EINTR of all but reads)
static const int rd_errs[] = {EIO, ENXIO, ESTALE, ENOMEM, EINTR, EAGAIN, ENOBUFS, EISDIR, ETIMEDOUT, EOVERFLOW};
static const int wr_errs[] = {EIO, ENXIO, ESTALE, ENOMEM, EDQUOT, EAGAIN, EFBIG, EPIPE, ETIMEDOUT, EPERM};

// perform the operation now; returns libuv result
static int64_t exec_op(Op &op, uv_fs_t *req, uint64_t t0) {
  uint64_t size = 0; unsigned mode = 0; int64_t r;
  switch (op.kind) {
  case UV_FS_OPEN: {
    if (fault("open", world().p_open, F_OPEN)) { static const int e[] = {EMFILE, EACCES, ENFILE, EIO, ENOENT, EBUSY, EAGAIN, ETXTBSY, EPERM, EROFS, ENOSPC, ENOMEM, ELOOP, EOVERFLOW, ENXIO, EDQUOT, ETIMEDOUT, EINTR}; r = -e[choose("openerr", 18)]; d_log('o', -1, 0, 0, r, true, t0, op.path.c_str()); return r; }
    r = d_open(op.path.c_str(), op.flags, op.mode); d_log('o', (int)r, 0, 0, r, false, t0, op.path.c_str()); return r;
  }
  case UV_FS_CLOSE: {
    r = d_close(op.fd); bool inj = false;
    if (r == 0 && fault("close", world().p_close, F_CLOSE)) { static const int e[] = {EIO, ENOSPC, EDQUOT, ESTALE}; r = -e[choose("closeerr", 4)]; inj = true; }
    d_log('c', op.fd, 0, 0, r, inj, t0); return r;
  }
  case UV_FS_READ: case UV_FS_WRITE: {
    bool wr = op.kind == UV_FS_WRITE; uint64_t n = 0; for (auto &b : op.bufs) n += b.len;
    for (auto &b : op.bufs) check_mem(b.base, b.len, !wr, wr ? "asynchronous write" : "asynchronous read");
    int64_t at = op.off < 0 ? d_lseek(op.fd, 0, SEEK_CUR) : op.off;
    if (wr && fault("nospc", world().p_enospc, F_ENOSPC)) { d_log('w', op.fd, at, n, -ENOSPC, true, t0); return -ENOSPC; }
    if (fault("eio", world().p_eio, F_EIO)) { r = -(wr ? wr_errs : rd_errs)[choose("ioerr", 10)]; d_log(wr ? 'w' : 'r', op.fd, at, n, r, true, t0); return r; }
    uint64_t k = n; bool inj = false;
    if (n > 1 && fault("short", wr ? world().p_short_write : world().p_short_read, wr ? F_SHORT_WRITE : F_SHORT_READ)) { k = 1 + pick_u64("shortn") % (n - 1); inj = true; }
    int64_t done = 0; r = 0;
    for (auto &b : op.bufs) {
      uint64_t m = std::min<uint64_t>(b.len, k - done); if (!m && done) break;
      int64_t x = wr ? d_write(op.fd, b.base, m, op.off < 0 ? -1 : op.off + done) : d_read(op.fd, b.base, m, op.off < 0 ? -1 : op.off + done);
      if (x < 0) { if (!done) r = x; break; }
      done += x; if ((uint64_t)x < m) break;
    }
    if (r == 0) r = done;
    d_log(wr ? 'w' : 'r', op.fd, at, n, r, inj, t0); return r;
  }
  case UV_FS_STAT: case UV_FS_LSTAT: case UV_FS_FSTAT: {
    if (fault("stat", world().p_stat, F_STAT)) { static const int e[] = {EACCES, EIO, ENOENT, ELOOP, ENOTDIR, EOVERFLOW, ENOMEM, ESTALE}; return -e[choose("staterr", 8)]; }
    r = op.kind == UV_FS_FSTAT ? d_fstat(op.fd, &size, &mode) : d_stat(op.path.c_str(), &size, &mode, op.kind != UV_FS_LSTAT);
    if (r == 0) { memset(&req->statbuf, 0, sizeof req->statbuf); req->statbuf.st_size = size; req->statbuf.st_mode = mode; req->ptr = &req->statbuf; }
    return r;
  }
  case UV_FS_FSYNC: case UV_FS_FDATASYNC: if (!(d_fstat(op.fd, &size, &mode) == 0)) return -EBADF; if (fault("eio", world().p_eio, F_EIO)) return -EIO; return 0;
  case UV_FS_FTRUNCATE: return d_ftruncate(op.fd, op.off);
  case UV_FS_UNLINK: r = d_unlink(op.path.c_str()); d_log('u', -1, 0, 0, r, false, t0, op.path.c_str()); return r;
  case UV_FS_MKDIR: r = d_mkdir(op.path.c_str()); d_log('m', -1, 0, 0, r, false, t0, op.path.c_str()); return r;
  case UV_FS_ACCESS: return d_stat(op.path.c_str(), &size, &mode);
  case UV_FS_RENAME: return d_rename(op.path.c_str(), op.to.c_str());
  case UV_FS_RMDIR: return d_rmdir(op.path.c_str());
  }
  return -ENOSYS;
}
static uint64_t op_time() {
  uint64_t d = (1 + pick_u64("optime") % 80) * US;
  if (flip("slow", world().p_slow)) d += pick_u64("slowt") % (world().max_slow + 1);
  if (faults_on() && world().p_stall > 0 && fault("iostall", world().p_stall, F_STALL_IO)) { uint64_t s = world().stall_lo + pick_u64("stallt") % (world().stall_hi - world().stall_lo + 1); tracef("storage operation stalls for %.3f s", s / 1e9); d += s; }
  return d;
}
static void worker() {
  Rt g;
  for (;;) {
    while (queue_->empty()) { idle_workers++; block("idle pool worker", NEVER, &wq_tag); idle_workers--; }
    WorkP w = queue_->front(); queue_->pop_front();
    uint64_t d = op_time(), d1 = d / 2;
    if (d1) block("storage", now_ns + d1);
    check_mem(w->req, sizeof(uv_fs_t), true, "request");
    int64_t r = exec_op(w->op, w->req, w->t0);
    if (d - d1) block("storage", now_ns + (d - d1));
    check_mem(w->req, sizeof(uv_fs_t), true, "request");
    w->req->result = r;
    if (*pending_ids->begin() != w->id) fired(F_REORDER);
    pending_ids->erase(w->id); fold(w->id * 77);
    auto it = loops->find(w->loop);
    if (it == loops->end() || it->second.closed) fail("bad-loop", "a request completes on a loop that was closed");
    it->second.done.push_back(w);
    tracef("request %llu finished -> %lld", (unsigned long long)w->id, (long long)r);
    wake_all(w->loop);
  }
}
// runs inside the caller's Rt
static int submit(uv_loop_t *loop, uv_fs_t *req, uv_fs_cb cb, Op op) {
  if (!loop && cb) fail("bad-loop", "asynchronous file request without a loop");
  check_mem(req, sizeof(uv_fs_t), true, "request");
  req->type = UV_FS; req->fs_type = (uv_fs_type)op.kind; req->result = 0; req->ptr = nullptr; req->loop = loop; req->path = nullptr; req->cb = cb; req->file = op.fd;
  uint64_t t0 = now_ns;
  if (!cb) {
    api("fs");
    if (flip("slow", world().p_slow * 0.3)) block("storage", now_ns + 1 + pick_u64("slowt") % (2 * MS));
    req->path = nullptr;
    int64_t r = exec_op(op, req, t0); req->result = r; fold(op.kind * 131 + r); return (int)r;
  }
  Loop &l = L(loop, "file request");
  if ((l.runner >= 0 && l.runner != self()) || (l.submitter >= 0 && l.submitter != self())) fail("loop-race", "request submitted by thread %d (%s) while thread %d (%s) uses the loop", self(), fiber_name(self()), l.runner >= 0 ? l.runner : l.submitter, fiber_name(l.runner >= 0 ? l.runner : l.submitter));
  l.submitter = self();
  api("fs submit");
  L(loop, "file request").submitter = -1;
  L(loop, "file request").active++;
  inflight++;
  if (!op.path.empty()) uncleaned->insert(req);
  WorkP w = std::make_shared<Work>(); w->req = req; w->loop = loop; w->cb = cb; w->op = std::move(op); w->id = next_id++; w->t0 = t0;
  pending_ids->insert(w->id);
  if (!nworkers) {
    static const uint32_t sz[] = {4, 1, 2, 8};
    uint32_t n = world().pool ? world().pool : sz[choose("pool", 4)];
    for (; nworkers < (int)n; nworkers++) spawn("uv-pool", worker, true);
  }
  queue_->push_back(w);
  tracef("request %llu submitted: kind %d fd %d off %lld", (unsigned long long)w->id, w->op.kind, w->op.fd, (long long)w->op.off);
  int f[64]; int n = fibers_blocked_on(&wq_tag, f, 64); if (n) wake(f[0]);
  api("fs submitted");
  return 0;
}
static bool alive(Loop &l) {
  if (l.active > 0 || !l.closing.empty() || !l.timers.empty()) return true;
  for (auto *h : l.handles) if (h->type == UV_ASYNC && (h->flags & 8)) return true;
  return false;
}
} // namespace sim
using namespace sim;
#define OFF (sim::rt > 0)
static void dec_on_throw(uv_loop_t *l) { Rt g; auto it = loops->find(l); if (it != loops->end()) it->second.runner = -1; }

extern "C" {
// ------------------------------------------------------------ thread primitives
int uv_mutex_init(uv_mutex_t *m) { api("mutex init"); return mtx_init(m, 0); }
int uv_mutex_init_recursive(uv_mutex_t *m) { api("mutex init"); return mtx_init(m, 1); }
void uv_mutex_destroy(uv_mutex_t *m) { if (OFF) return; if (mtx_destroy(m)) fail("abort", "uv_mutex_destroy of a locked mutex"); }
void uv_mutex_lock(uv_mutex_t *m) { if (OFF) return; if (mtx_lock(m)) fail("abort", "uv_mutex_lock failed"); }
int uv_mutex_trylock(uv_mutex_t *m) { if (OFF) return 0; int r = mtx_trylock(m); return r ? -r : 0; }
void uv_mutex_unlock(uv_mutex_t *m) { if (OFF) return; if (mtx_unlock(m)) fail("abort", "uv_mutex_unlock by a thread that does not own the mutex"); }
int uv_rwlock_init(uv_rwlock_t *l) { return -pthread_rwlock_init((pthread_rwlock_t *)l, nullptr); }
void uv_rwlock_destroy(uv_rwlock_t *l) { pthread_rwlock_destroy((pthread_rwlock_t *)l); }
void uv_rwlock_rdlock(uv_rwlock_t *l) { pthread_rwlock_rdlock((pthread_rwlock_t *)l); }
int uv_rwlock_tryrdlock(uv_rwlock_t *l) { return -pthread_rwlock_tryrdlock((pthread_rwlock_t *)l); }
void uv_rwlock_rdunlock(uv_rwlock_t *l) { pthread_rwlock_unlock((pthread_rwlock_t *)l); }
void uv_rwlock_wrlock(uv_rwlock_t *l) { pthread_rwlock_wrlock((pthread_rwlock_t *)l); }
int uv_rwlock_trywrlock(uv_rwlock_t *l) { return -pthread_rwlock_trywrlock((pthread_rwlock_t *)l); }
void uv_rwlock_wrunlock(uv_rwlock_t *l) { pthread_rwlock_unlock((pthread_rwlock_t *)l); }
int uv_cond_init(uv_cond_t *c) { api("cond init"); return cnd_init(c); }
void uv_cond_destroy(uv_cond_t *c) { if (OFF) return; cnd_destroy(c); }
void uv_cond_signal(uv_cond_t *c) { if (OFF) return; cnd_signal(c, false); }
void uv_cond_broadcast(uv_cond_t *c) { if (OFF) return; cnd_signal(c, true); }
void uv_cond_wait(uv_cond_t *c, uv_mutex_t *m) { if (OFF) return; cnd_wait(c, m, NEVER); }
int uv_cond_timedwait(uv_cond_t *c, uv_mutex_t *m, uint64_t ns) { if (OFF) return 0; uint64_t d = now_ns + ns; if (d < now_ns) d = NEVER - 1; return cnd_wait(c, m, d) ? UV_ETIMEDOUT : 0; }
int uv_sem_init(uv_sem_t *s, unsigned v) { return sem_init((sem_t *)s, 0, v); }
void uv_sem_destroy(uv_sem_t *s) { sem_destroy((sem_t *)s); }
void uv_sem_post(uv_sem_t *s) { sem_post((sem_t *)s); }
void uv_sem_wait(uv_sem_t *s) { sem_wait((sem_t *)s); }
int uv_sem_trywait(uv_sem_t *s) { return sem_trywait((sem_t *)s) ? UV_EAGAIN : 0; }
void uv_once(uv_once_t *o, void (*f)(void)) { pthread_once((pthread_once_t *)o, f); }
int uv_key_create(uv_key_t *k) { Rt g; *k = next_key++; return 0; }
void uv_key_delete(uv_key_t *k) { Rt g; keys->erase(*k); }
void *uv_key_get(uv_key_t *k) { Rt g; return (*keys)[*k][self()]; }
void uv_key_set(uv_key_t *k, void *v) { Rt g; (*keys)[*k][self()] = v; }
int uv_thread_create(uv_thread_t *t, uv_thread_cb f, void *arg) {
  Rt g; bool failed; uint64_t id = 0;
  int r = thr_create(&id, [f, arg] { f(arg); }, "uv-thread", &failed);
  if (r) return -r;
  *t = (uv_thread_t)id; return 0;
}
int uv_thread_create_ex(uv_thread_t *t, const uv_thread_options_t *, uv_thread_cb f, void *arg) { return uv_thread_create(t, f, arg); }
uv_thread_t uv_thread_self(void) { return (uv_thread_t)thr_self(); }
int uv_thread_equal(const uv_thread_t *a, const uv_thread_t *b) { return *a == *b; }
int uv_thread_join(uv_thread_t *t) { check_mem(t, sizeof *t, false, "thread id"); return -thr_join((uint64_t)*t); }
int uv_thread_detach(uv_thread_t *t) { return -thr_detach((uint64_t)*t); }

// ------------------------------------------------------------------------ loop
int uv_loop_init(uv_loop_t *l) {
  api("loop init");
  Rt g; check_mem(l, sizeof *l, true, "loop");
  void *d = l->data; memset(l, 0, sizeof *l); l->data = d; (*loops)[l] = Loop();
  return 0;
}
int uv_loop_close(uv_loop_t *l) {
  api("loop close");
  Rt g; Loop &x = L(l, "uv_loop_close");
  if (x.active > 0 || !x.closing.empty() || !x.handles.empty()) return UV_EBUSY;
  if (x.runner >= 0) fail("bad-loop", "loop closed while it is running");
  x.closed = true; return 0;
}
uv_loop_t *uv_default_loop(void) { { Rt g; if (default_init) return &default_loop; default_init = true; } uv_loop_init(&default_loop); return &default_loop; }
int uv_loop_alive(const uv_loop_t *l) { api("loop alive"); Rt g; return alive(L(l, "uv_loop_alive")); }
int uv_loop_configure(uv_loop_t *, uv_loop_option, ...) { return 0; }
void uv_stop(uv_loop_t *l) { api("uv_stop"); { Rt g; L(l, "uv_stop").stop = true; tracef("uv_stop"); } api("uv_stop done"); }
uint64_t uv_now(const uv_loop_t *) { return now_ns / MS; }
void uv_update_time(uv_loop_t *) {}
uint64_t uv_hrtime(void) { api("hrtime"); return now_ns; }
void uv_sleep(unsigned ms) { if (OFF) return; sim::sleep((uint64_t)ms * MS); }
static void run_timers(uv_loop_t *loop) {
  for (;;) {
    uv_timer_t *t = nullptr; uv_timer_cb cb = nullptr;
    { Rt g; Loop &l = L(loop, "uv_run"); uint64_t best = NEVER;
      for (auto &p : l.timers) if (p.second.first <= now_ns && p.second.first < best) { best = p.second.first; t = p.first; }
      if (t) { cb = l.timer_cbs[t]; uint64_t rep = l.timers[t].second; l.timers.erase(t); if (rep) l.timers[t] = std::make_pair(now_ns + rep * MS, rep); } }
    if (!t) return;
    cb(t);
  }
}
int uv_run(uv_loop_t *loop, uv_run_mode mode) {
  api("uv_run");
  bool r;
  { Rt g; Loop &l = L(loop, "uv_run");
    if ((l.runner >= 0 && l.runner != self()) || (l.submitter >= 0 && l.submitter != self())) fail("loop-race", "loop run by thread %d while thread %d uses it", self(), l.runner >= 0 ? l.runner : l.submitter);
    if (l.runner == self()) fail("loop-race", "uv_run is not reentrant");
    l.runner = self(); l.nrun++; r = alive(l); }
  try {
    bool stop; { Rt g; stop = L(loop, "uv_run").stop; }
    if (mode == UV_RUN_DEFAULT && r && !stop) run_timers(loop);
    while (r && !stop) {
      struct Batch { std::vector<WorkP> b; std::vector<uv_async_t *> as; std::vector<std::pair<uv_handle_t *, uv_close_cb>> cl; ~Batch() { Rt g; std::vector<WorkP>().swap(b); std::vector<uv_async_t *>().swap(as); std::vector<std::pair<uv_handle_t *, uv_close_cb>>().swap(cl); } } bt; auto &batch = bt.b; auto &as = bt.as; auto &cl = bt.cl;
      {
        Rt g; Loop *l = &L(loop, "uv_run");
        if (l->done.empty() && l->pending_async.empty() && l->closing.empty() && mode != UV_RUN_NOWAIT && !l->stop && (l->active > 0 || !l->timers.empty() || !l->handles.empty())) {
          uint64_t dl = NEVER; for (auto &t : l->timers) dl = std::min(dl, t.second.first);
          block("uv_run: polling", dl, loop); l = &L(loop, "uv_run");
        } else { api("uv_run poll"); l = &L(loop, "uv_run"); }
        batch.swap(l->done); as.swap(l->pending_async);
      }
      for (auto *a : as) { { Rt g; a->flags &= ~16u; } if (a->async_cb) a->async_cb(a); }
      for (size_t bi = 0; bi < batch.size(); bi++) {
        WorkP w;
        { Rt g; w = batch[bi]; batch[bi].reset(); L(loop, "uv_run").active--; inflight--; check_mem(w->req, sizeof(uv_fs_t), true, "request"); tracef("callback of request %llu (result %lld)", (unsigned long long)w->id, (long long)w->req->result); fold(w->id * 13 + 5);
          if (w->req->cb != w->cb) fail("bad-request", "request %llu was reused before its completion", (unsigned long long)w->id); }
        w->cb(w->req);
        { Rt g; w.reset(); }
      }
      { Rt g; cl.swap(L(loop, "uv_run").closing); }
      for (auto &c : cl) { { Rt g; Loop &l = L(loop, "uv_run"); l.handles.erase(c.first); } if (c.second) c.second(c.first); }
      run_timers(loop);
      api("uv_run iteration");
      { Rt g; Loop &l = L(loop, "uv_run"); r = alive(l); stop = l.stop; }
      if (mode == UV_RUN_ONCE || mode == UV_RUN_NOWAIT) break;
    }
  } catch (...) { dec_on_throw(loop); throw; }
  { Rt g; Loop &l = L(loop, "uv_run"); l.stop = false; l.runner = -1; }
  return r;
}
int uv_async_init(uv_loop_t *l, uv_async_t *a, uv_async_cb cb) { Rt g; void *d = a->data; memset(a, 0, sizeof *a); a->data = d; a->loop = l; a->type = UV_ASYNC; a->async_cb = cb; a->flags = 8; L(l, "uv_async_init").handles.insert((uv_handle_t *)a); return 0; }
int uv_async_send(uv_async_t *a) { api("async send"); Rt g; check_mem(a, sizeof *a, true, "async handle"); Loop &l = L(a->loop, "uv_async_send"); if (!(a->flags & 16)) { a->flags |= 16; l.pending_async.push_back(a); } wake_all(a->loop); return 0; }
void uv_close(uv_handle_t *h, uv_close_cb cb) { Rt g; Loop &l = L(h->loop, "uv_close"); if (h->type == UV_TIMER) l.timers.erase((uv_timer_t *)h); l.pending_async.erase(std::remove(l.pending_async.begin(), l.pending_async.end(), (uv_async_t *)h), l.pending_async.end()); l.closing.push_back(std::make_pair(h, cb)); wake_all(h->loop); }
int uv_is_closing(const uv_handle_t *h) { Rt g; for (auto &c : L(h->loop, "uv_is_closing").closing) if (c.first == h) return 1; return 0; }
void uv_unref(uv_handle_t *h) { h->flags &= ~8u; }
void uv_ref(uv_handle_t *h) { h->flags |= 8u; }
int uv_timer_init(uv_loop_t *l, uv_timer_t *t) { Rt g; void *d = t->data; memset(t, 0, sizeof *t); t->data = d; t->loop = l; t->type = UV_TIMER; t->flags = 8; L(l, "uv_timer_init").handles.insert((uv_handle_t *)t); return 0; }
int uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t to, uint64_t rep) { Rt g; Loop &l = L(t->loop, "uv_timer_start"); l.timers[t] = std::make_pair(now_ns + to * MS, rep); l.timer_cbs[t] = cb; return 0; }
int uv_timer_stop(uv_timer_t *t) { Rt g; L(t->loop, "uv_timer_stop").timers.erase(t); return 0; }
void uv_walk(uv_loop_t *l, uv_walk_cb cb, void *arg) { std::vector<uv_handle_t *> v; { Rt g; Loop &x = L(l, "uv_walk"); v.assign(x.handles.begin(), x.handles.end()); } for (auto *h : v) cb(h, arg); }

// --------------------------------------------------------------- file requests
static Op mk(int kind) { Op o; o.kind = kind; return o; }
#define BEGIN(k) Rt g; Op o = mk(k)
int uv_fs_open(uv_loop_t *l, uv_fs_t *r, const char *path, int flags, int mode, uv_fs_cb cb) { BEGIN(UV_FS_OPEN); check_mem(path, 1, false, "path"); o.path = path; o.flags = flags; o.mode = mode; return submit(l, r, cb, std::move(o)); }
int uv_fs_close(uv_loop_t *l, uv_fs_t *r, uv_file f, uv_fs_cb cb) { BEGIN(UV_FS_CLOSE); o.fd = f; return submit(l, r, cb, std::move(o)); }
static int rw(int kind, uv_loop_t *l, uv_fs_t *r, uv_file f, const uv_buf_t *b, unsigned n, int64_t off, uv_fs_cb cb) {
  if (!b || !n) return UV_EINVAL;
  BEGIN(kind); o.fd = f; check_mem(b, sizeof(uv_buf_t) * n, false, "buffer list"); o.bufs.assign(b, b + n); o.off = off; return submit(l, r, cb, std::move(o));
}
int uv_fs_read(uv_loop_t *l, uv_fs_t *r, uv_file f, const uv_buf_t *b, unsigned n, int64_t off, uv_fs_cb cb) { return rw(UV_FS_READ, l, r, f, b, n, off, cb); }
int uv_fs_write(uv_loop_t *l, uv_fs_t *r, uv_file f, const uv_buf_t *b, unsigned n, int64_t off, uv_fs_cb cb) { return rw(UV_FS_WRITE, l, r, f, b, n, off, cb); }
#define PATHFN(name, kind) int name(uv_loop_t *l, uv_fs_t *r, const char *path, uv_fs_cb cb) { BEGIN(kind); check_mem(path, 1, false, "path"); o.path = path; return submit(l, r, cb, std::move(o)); }
PATHFN(uv_fs_stat, UV_FS_STAT)
PATHFN(uv_fs_lstat, UV_FS_LSTAT)
PATHFN(uv_fs_unlink, UV_FS_UNLINK)
PATHFN(uv_fs_rmdir, UV_FS_RMDIR)
int uv_fs_mkdir(uv_loop_t *l, uv_fs_t *r, const char *path, int mode, uv_fs_cb cb) { BEGIN(UV_FS_MKDIR); o.path = path; o.mode = mode; return submit(l, r, cb, std::move(o)); }
#define FDFN(name, kind) int name(uv_loop_t *l, uv_fs_t *r, uv_file f, uv_fs_cb cb) { BEGIN(kind); o.fd = f; return submit(l, r, cb, std::move(o)); }
FDFN(uv_fs_fstat, UV_FS_FSTAT)
FDFN(uv_fs_fsync, UV_FS_FSYNC)
FDFN(uv_fs_fdatasync, UV_FS_FDATASYNC)
int uv_fs_ftruncate(uv_loop_t *l, uv_fs_t *r, uv_file f, int64_t n, uv_fs_cb cb) { BEGIN(UV_FS_FTRUNCATE); o.fd = f; o.off = n; return submit(l, r, cb, std::move(o)); }
int uv_fs_access(uv_loop_t *l, uv_fs_t *r, const char *path, int mode, uv_fs_cb cb) { BEGIN(UV_FS_ACCESS); o.path = path; o.mode = mode; return submit(l, r, cb, std::move(o)); }
int uv_fs_rename(uv_loop_t *l, uv_fs_t *r, const char *path, const char *to, uv_fs_cb cb) { BEGIN(UV_FS_RENAME); o.path = path; o.to = to; return submit(l, r, cb, std::move(o)); }
int uv_barrier_init(uv_barrier_t *b, unsigned n) { return -pthread_barrier_init((pthread_barrier_t *)b, nullptr, n); }
int uv_barrier_wait(uv_barrier_t *b) { return pthread_barrier_wait((pthread_barrier_t *)b) != 0; }
void uv_barrier_destroy(uv_barrier_t *b) { pthread_barrier_destroy((pthread_barrier_t *)b); }
uv_loop_t *uv_loop_new(void) { uv_loop_t *l = (uv_loop_t *)malloc(sizeof *l); if (l) uv_loop_init(l); return l; }
void uv_loop_delete(uv_loop_t *l) { uv_loop_close(l); free(l); }
void uv_fs_req_cleanup(uv_fs_t *r) { Rt g; check_mem(r, sizeof *r, true, "request cleanup"); uncleaned->erase(r); r->path = nullptr; r->ptr = nullptr; }
ssize_t uv_fs_get_result(const uv_fs_t *r) { return r->result; }
void *uv_fs_get_ptr(const uv_fs_t *r) { return r->ptr; }
uv_fs_type uv_fs_get_type(const uv_fs_t *r) { return r->fs_type; }
uv_stat_t *uv_fs_get_statbuf(uv_fs_t *r) { return &r->statbuf; }
void *uv_req_get_data(const uv_req_t *r) { return r->data; }
void uv_req_set_data(uv_req_t *r, void *d) { r->data = d; }
int uv_cancel(uv_req_t *) { return UV_EBUSY; }
uv_buf_t uv_buf_init(char *base, unsigned len) { uv_buf_t b; b.base = base; b.len = len; return b; }
const char *uv_err_name(int e) {
  switch (e) {
#define X(n, s) case UV_##n: return #n;
    UV_ERRNO_MAP(X)
#undef X
  }
  return "UNKNOWN";
}
const char *uv_strerror(int e) {
  switch (e) {
#define X(n, s) case UV_##n: return s;
    UV_ERRNO_MAP(X)
#undef X
  }
  return "unknown error";
}
int uv_translate_sys_error(int e) { return e <= 0 ? e : -e; }
const char *uv_version_string(void) { return "sim"; }
unsigned uv_version(void) { return UV_VERSION_HEX; }
}
