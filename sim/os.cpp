// Simulated operating system: threads and locks, clocks, disk, stdio.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <dirent.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>

namespace sim {
// =============================================================== primitives
struct Mtx { int owner = -1; int count = 0; int kind = 0; bool dead = false; };
struct Waiter { int fiber; bool signalled; };
struct Cnd { std::vector<int> waiters; bool dead = false; uint64_t gen = 0; };
struct Rw { int writer = -1; int readers = 0; };
struct Sem { long v = 0; };
struct Bar { unsigned n = 0, c = 0; uint64_t gen = 0; };
static std::unordered_map<const void *, Mtx> *mtxs;
static std::unordered_map<const void *, Cnd> *cnds;
static std::unordered_map<const void *, Rw> *rws;
static std::unordered_map<const void *, Sem> *sems;
static std::unordered_map<const void *, Bar> *bars;
static std::unordered_map<const void *, int> *onces;

template <class M> static void purge(M *m, uintptr_t a, uintptr_t b) {
  if (!m) return;
  for (auto it = m->begin(); it != m->end();) { uintptr_t k = (uintptr_t)it->first; if (k >= a && k < b) it = m->erase(it); else ++it; }
}
void forget_sync_objects(const void *p, size_t n) {
  uintptr_t a = (uintptr_t)p, b = a + n;
  if (mtxs) for (auto &m : *mtxs) { uintptr_t k = (uintptr_t)m.first; if (k >= a && k < b && m.second.owner >= 0) fail("free-locked", "memory of a locked mutex is freed (owner thread %d)", m.second.owner); }
  purge(mtxs, a, b); purge(cnds, a, b); purge(rws, a, b); purge(sems, a, b); purge(bars, a, b); purge(onces, a, b);
}
static void touch(const void *p, const char *what) { check_mem(p, 8, true, what); }
// a destroyed object keeps this pattern until something is constructed in its place (with a static initialiser nobody tells us)
enum { DEAD = 0xd5 };
static bool still_dead(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (c[i] != DEAD) return false; return true; }
static Mtx &mtx(const void *m, const char *what) {
  touch(m, what);
  Mtx &x = (*mtxs)[m];
  if (x.dead) { if (still_dead(m, sizeof(pthread_mutex_t))) fail("use-after-destroy", "%s on a destroyed mutex", what); x = Mtx(); }
  return x;
}
int mtx_init(void *m, int recursive) { Rt g; touch(m, "mutex init"); Mtx x; x.kind = recursive; (*mtxs)[m] = x; memset(m, 0, sizeof(pthread_mutex_t)); ((pthread_mutex_t *)m)->__data.__kind = recursive == 1 ? PTHREAD_MUTEX_RECURSIVE : recursive == 2 ? PTHREAD_MUTEX_ERRORCHECK : 0; return 0; }
int mtx_destroy(void *m) {
  Rt g; Mtx &x = mtx(m, "mutex destroy");
  if (x.owner >= 0) return EBUSY;
  x.dead = true; memset(m, DEAD, sizeof(pthread_mutex_t)); return 0;
}
static int mkind(void *m, Mtx &x) { x.kind = 0; { int k = ((pthread_mutex_t *)m)->__data.__kind & 3; if (k == PTHREAD_MUTEX_RECURSIVE) x.kind = 1; else if (k == PTHREAD_MUTEX_ERRORCHECK) x.kind = 2; } return x.kind; }
static int lock_until(void *m, uint64_t deadline) {
  api("lock");
  Rt g;
  for (;;) {
    Mtx &x = mtx(m, "lock");
    int k = mkind(m, x);
    if (x.owner < 0) { x.owner = self(); x.count = 1; fold(11); return 0; }
    if (x.owner == self()) {
      if (k == 1) { x.count++; return 0; }
      if (k == 2) return EDEADLK;
      if (deadline == NEVER) { block("self-deadlock on a non-recursive mutex", NEVER, m); continue; }
    }
    if (!block("lock", deadline, m) && deadline != NEVER && now() >= deadline) return ETIMEDOUT;
  }
}
int mtx_lock(void *m) { return lock_until(m, NEVER); }
int mtx_trylock(void *m) {
  api("trylock");
  Rt g; Mtx &x = mtx(m, "trylock"); int k = mkind(m, x);
  if (x.owner < 0) { x.owner = self(); x.count = 1; return 0; }
  if (x.owner == self() && k == 1) { x.count++; return 0; }
  return EBUSY;
}
extern int fibers_blocked_on(const void *o, int *out, int max);
static void wake_one_blocked_on(const void *o);
int mtx_unlock(void *m) {
  api("unlock");
  {
    Rt g; Mtx &x = mtx(m, "unlock");
    if (x.owner != self()) { if (mkind(m, x)) return EPERM; fail("bad-unlock", "unlock of a mutex by thread %d that does not own it (owner %d)", self(), x.owner); }
    if (--x.count > 0) return 0;
    x.owner = -1;
    wake_one_blocked_on(m);
  }
  api("unlocked");
  return 0;
}
// waiting lists for mutexes etc: any fiber blocked on obj
static void wake_one_blocked_on(const void *o) {
  int w[64]; int n = fibers_blocked_on(o, w, 64);
  for (int i = 0; i < n; i++) wake(w[i]); // all contend; scheduler decides who wins
}
int cnd_init(void *c) { Rt g; touch(c, "cond init"); (*cnds)[c] = Cnd(); memset(c, 0, sizeof(pthread_cond_t)); return 0; }
static Cnd &cnd(void *c, const char *what) { touch(c, what); Cnd &x = (*cnds)[c]; if (x.dead) { if (still_dead(c, sizeof(pthread_cond_t))) fail("use-after-destroy", "%s on a destroyed condition variable", what); x = Cnd(); } return x; }
int cnd_destroy(void *c) {
  Rt g;
  while (!cnd(c, "cond destroy").waiters.empty()) block("destroying a condition variable that still has waiters", NEVER, (char *)c + 1);
  cnd(c, "cond destroy").dead = true; memset(c, DEAD, sizeof(pthread_cond_t)); return 0;
}
int cnd_signal(void *c, bool all) {
  api("signal");
  {
    Rt g; Cnd &x = cnd(c, all ? "broadcast" : "signal");
    if (all) { std::vector<int> w; w.swap(x.waiters); for (int f : w) wake(f); }
    else if (!x.waiters.empty()) { uint32_t k = choose_p("condpick", x.waiters.size(), 0.3); int f = x.waiters[k]; x.waiters.erase(x.waiters.begin() + k); wake(f); }
    wake_one_blocked_on((char *)c + 1);
  }
  api("signalled");
  return 0;
}
int cnd_wait(void *c, void *m, uint64_t deadline) {
  api("wait");
  Rt g;
  Mtx &x = mtx(m, "cond wait");
  if (x.owner != self()) fail("cond-wait-unowned", "condition wait without owning the mutex");
  bool to = false;
  if (deadline != NEVER && deadline <= now()) { // still releases the mutex for a moment
    if (x.count == 1) { x.owner = -1; x.count = 0; wake_one_blocked_on(m); api("wait0"); lock_until(m, NEVER); }
    return ETIMEDOUT;
  }
  cnd(c, "wait").waiters.push_back(self());
  if (--x.count == 0) { x.owner = -1; wake_one_blocked_on(m); }
  bool spur = world().spurious && flip("spurious", 0.02);
  uint64_t dl = deadline;
  if (spur) { uint64_t d = 1 + choose("spurtime", 8) * 300 * US; if (deadline != NEVER && deadline - now() > 5 * MS && flip("spurlate", 0.5)) d = 1 + (deadline - now()) / 16 * (1 + choose("spurpart", 15)); dl = std::min(deadline, now() + d); }
  bool woken = block("condition wait", dl, c);
  if (!woken) {
    auto &w = cnd(c, "wait").waiters; auto it = std::find(w.begin(), w.end(), self());
    if (it != w.end()) w.erase(it);
    wake_one_blocked_on((char *)c + 1);
    if (deadline != NEVER && now() >= deadline) to = true;
    else if (spur) fired(F_SPURIOUS);
  }
  { Mtx &y = mtx(m, "cond wait"); if (y.owner == self()) { y.count++; return to ? ETIMEDOUT : 0; } }
  lock_until(m, NEVER);
  return to ? ETIMEDOUT : 0;
}
// threads
static std::map<uint64_t, int> *tids; static std::map<int, uint64_t> *rtids; static uint64_t next_tid;
static std::map<uint64_t, int> *tstate; // 1 joined, 2 detached
int thr_create(uint64_t *tid, std::function<void()> f, const char *name, bool *failed) {
  api("thread create");
  if (failed) *failed = false;
  if (fault("thread", world().p_thread, F_THREAD)) { if (failed) *failed = true; return EAGAIN; }
  Rt g;
  // the id is stored before the new thread runs
  uint64_t t = next_tid++;
  int id = spawn(name, f, true);
  (*tids)[t] = id; (*rtids)[id] = t; *tid = t;
  tracef("new thread %d (%s)", id, name);
  --rt; api("thread created"); ++rt;
  return 0;
}
int thr_join(uint64_t tid) {
  api("join");
  Rt g; auto it = tids->find(tid);
  if (it == tids->end()) fail("bad-join", "join of something that is not a thread");
  if ((*tstate)[tid]) fail("bad-join", "thread joined twice or detached");
  if (it->second == self()) return EDEADLK;
  (*tstate)[tid] = 1;
  join(it->second); return 0;
}
int thr_detach(uint64_t tid) { Rt g; (*tstate)[tid] = 2; return 0; }
uint64_t thr_self() { Rt g; auto it = rtids->find(self()); if (it != rtids->end()) return it->second; uint64_t t = next_tid++; (*tids)[t] = self(); (*rtids)[self()] = t; return t; }

// ====================================================================== disk
const uint64_t PG = 4096;
struct Inode { bool dir = false; unsigned kind = 0; std::string to; /* a symbolic link, a pipe, a device */ uint64_t size = 0; std::map<uint64_t, std::string> pages; int links = 1; };
struct Fd { std::shared_ptr<Inode> ino; int flags; uint64_t pos; std::string path; };
static std::map<std::string, std::shared_ptr<Inode>> *files;
static std::map<int, Fd> *fds;
static uint64_t disk_used; static int next_fd = 1000; static int g_badfd = 0; static bool low_fd = false; // descriptor 0 belongs to the simulated disk
static std::vector<FsOp> *g_log;
std::vector<FsOp> &fs_log() { return *g_log; }
int open_fds() { return (int)fds->size(); }
int bad_fd_uses() { return g_badfd; }
int d_log(char type, int fd, int64_t off, uint64_t len, int64_t res, bool inj, uint64_t t0, const char *path) {
  FsOp o; o.id = (int)g_log->size(); o.type = type; o.fd = fd; o.off = off; o.len = len; o.result = res; o.injected = inj; o.t_submit = t0; o.t_done = now(); o.path = path; g_log->push_back(o);
  if (type == 'o' && res == 0) fired(F_LOW_FD);
  tracef("disk %c fd=%d off=%lld len=%llu -> %lld%s %s", type, fd, (long long)off, (unsigned long long)len, (long long)res, inj ? " (injected)" : "", path);
  fold(type * 7 + res);
  return o.id;
}
static int g_links = 0; // symbolic links on the disk
static std::string norm1(const char *p) {
  std::string s(p ? p : ""), r;
  if (s.empty()) return s;
  if (s[0] != '/') s = "/cwd/" + s;
  for (char c : s) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c;
  if (r.size() > 1 && r.back() == '/') r.pop_back();
  size_t k; while ((k = r.find("/./")) != std::string::npos) r.erase(k, 2);
  return r;
}
// follows symbolic links on the way, and the last component too if asked
static std::string norm(const char *p, bool follow = false) {
  std::string s = norm1(p); if (!g_links || s.empty()) return s;
  for (int hops = 0; hops < 8; hops++) {
    size_t k = 0; bool again = false;
    while (k < s.size()) {
      k = s.find('/', k + 1); if (k == std::string::npos) k = s.size(); if (k == s.size() && !follow) break;
      auto it = files->find(s.substr(0, k)); if (it != files->end() && it->second->kind == S_IFLNK) { s = norm1((it->second->to + s.substr(k)).c_str()); again = true; break; }
    }
    if (!again) return s;
  }
  return "/sim/loop/of/links";
}
static std::string parent(const std::string &s) { size_t k = s.rfind('/'); return k == 0 || k == std::string::npos ? "/" : s.substr(0, k); }
static int64_t lookup_parent(const std::string &s) {
  std::string d = parent(s); auto it = files->find(d);
  if (it == files->end()) return -ENOENT;
  if (!it->second->dir) return -ENOTDIR;
  return 0;
}
bool d_isfd(int fd) { return fd >= 1000 || (fd == 0 && low_fd); }
int64_t d_open(const char *path, int flags, int mode) {
  (void)mode;
  std::string p = norm(path, !((flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL))));
  if (p.empty()) return -ENOENT;
  auto it = files->find(p);
  int acc = flags & O_ACCMODE;
  if (it == files->end()) {
    int64_t r = lookup_parent(p); if (r) return r;
    if (!(flags & O_CREAT)) return -ENOENT;
    (*files)[p] = std::make_shared<Inode>();
    it = files->find(p);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
    if (it->second->kind == S_IFLNK) return -ELOOP;
    if ((flags & O_DIRECTORY) && !it->second->dir) return -ENOTDIR;
    if (it->second->dir && acc != O_RDONLY) return -EISDIR;
    if ((flags & O_TRUNC) && acc != O_RDONLY && !it->second->dir) { disk_used -= it->second->pages.size() * PG; it->second->pages.clear(); it->second->size = 0; }
  }
  Fd f; f.ino = it->second; f.flags = flags; f.pos = 0; f.path = p;
  int fd = low_fd && !fds->count(0) ? 0 : next_fd++;
  (*fds)[fd] = f;
  return fd;
}
int64_t d_close(int fd) { auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; } fds->erase(it); return 0; }
static void iread(Inode &i, uint64_t off, char *b, uint64_t n) {
  while (n) {
    uint64_t pg = off / PG, o = off % PG, k = std::min(n, PG - o);
    auto it = i.pages.find(pg);
    if (it == i.pages.end()) memset(b, 0, k); else memcpy(b, it->second.data() + o, k);
    b += k; off += k; n -= k;
  }
}
int64_t d_read(int fd, void *b, uint64_t n, int64_t off) {
  auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; }
  Fd &f = it->second;
  if (f.ino->dir) return -EISDIR;
  if ((f.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  uint64_t p = off < 0 ? f.pos : off;
  uint64_t k = p >= f.ino->size ? 0 : std::min<uint64_t>(n, f.ino->size - p);
  iread(*f.ino, p, (char *)b, k);
  if (off < 0) f.pos += k;
  return k;
}
int64_t d_write(int fd, const void *b, uint64_t n, int64_t off) {
  auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; }
  Fd &f = it->second;
  if ((f.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  uint64_t p = off < 0 ? ((f.flags & O_APPEND) ? f.ino->size : f.pos) : off, done = 0;
  while (done < n) {
    uint64_t pg = (p + done) / PG, o = (p + done) % PG, k = std::min(n - done, PG - o);
    auto q = f.ino->pages.find(pg);
    if (q == f.ino->pages.end()) {
      if (disk_used + PG > world().disk_capacity) { fired(F_DISK_FULL); break; }
      disk_used += PG;
      q = f.ino->pages.insert(std::make_pair(pg, std::string(PG, 0))).first;
    }
    memcpy(&q->second[o], (const char *)b + done, k);
    done += k;
  }
  if (done && p + done > f.ino->size) f.ino->size = p + done;
  if (off < 0) f.pos = p + done;
  if (!done && n) return -ENOSPC;
  return done;
}
int64_t d_lseek(int fd, int64_t off, int whence) {
  auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; }
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)it->second.pos : (int64_t)it->second.ino->size;
  if (b + off < 0) return -EINVAL;
  it->second.pos = b + off; return b + off;
}
int64_t d_ftruncate(int fd, int64_t sz) {
  auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; }
  Inode &i = *it->second.ino;
  if ((uint64_t)sz < i.size) {
    auto q = i.pages.lower_bound((sz + PG - 1) / PG); disk_used -= std::distance(q, i.pages.end()) * PG; i.pages.erase(q, i.pages.end());
    if (sz % PG) { auto l = i.pages.find(sz / PG); if (l != i.pages.end()) memset(&l->second[sz % PG], 0, PG - sz % PG); }
  }
  i.size = sz; return 0;
}
int64_t d_unlink(const char *p) {
  std::string s = norm(p); auto it = files->find(s); if (it == files->end()) return -ENOENT;
  if (it->second->dir) return -EISDIR;
  if (it->second.use_count() == 1) disk_used -= it->second->pages.size() * PG;
  files->erase(it); return 0;
}
int64_t d_rmdir(const char *p) {
  std::string s = norm(p); auto it = files->find(s); if (it == files->end()) return -ENOENT;
  if (!it->second->dir) return -ENOTDIR;
  for (auto &f : *files) if (f.first.size() > s.size() && f.first.compare(0, s.size() + 1, s + "/") == 0) return -ENOTEMPTY;
  files->erase(it); return 0;
}
int64_t d_mkdir(const char *p) {
  std::string s = norm(p); if (s.empty()) return -ENOENT;
  if (files->count(s)) return -EEXIST;
  int64_t r = lookup_parent(s); if (r) return r;
  auto i = std::make_shared<Inode>(); i->dir = true; (*files)[s] = i; return 0;
}
int64_t d_rename(const char *a, const char *b) {
  std::string x = norm(a), y = norm(b); auto it = files->find(x); if (it == files->end()) return -ENOENT;
  int64_t r = lookup_parent(y); if (r) return r;
  auto i = it->second; files->erase(it); (*files)[y] = i; return 0;
}
static int64_t istat(Inode &i, uint64_t *size, unsigned *mode) { *size = i.dir ? 4096 : i.size; *mode = i.dir ? (S_IFDIR | 0755) : i.kind ? (i.kind | 0777) : (S_IFREG | 0644); return 0; }
int64_t d_stat(const char *p, uint64_t *size, unsigned *mode, bool follow) { auto it = files->find(norm(p, follow)); if (it == files->end()) return -ENOENT; return istat(*it->second, size, mode); }
int64_t d_fstat(int fd, uint64_t *size, unsigned *mode) { auto it = fds->find(fd); if (it == fds->end()) { g_badfd += fd >= 0; return -EBADF; } return istat(*it->second.ino, size, mode); }

void disk_put(const char *path, const std::string &data) {
  Rt g; uint64_t cap = world().disk_capacity; world().disk_capacity = ~0ull;
  int fd = (int)d_open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644); d_write(fd, data.data(), data.size(), 0); d_close(fd);
  world().disk_capacity = cap;
}
void disk_put_sparse(const char *path, uint64_t size) { Rt g; int fd = (int)d_open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644); d_ftruncate(fd, size); d_close(fd); }
void disk_poke(const char *path, uint64_t off, const std::string &data) { Rt g; int fd = (int)d_open(path, O_WRONLY, 0); d_write(fd, data.data(), data.size(), off); d_close(fd); }
bool disk_exists(const char *p) { Rt g; return files->count(norm(p)); }
void disk_link(const char *p, const char *to) { Rt g; auto i = std::make_shared<Inode>(); i->kind = S_IFLNK; i->to = to; (*files)[norm(p)] = i; g_links++; }
void disk_special(const char *p, unsigned kind) { Rt g; auto i = std::make_shared<Inode>(); i->kind = kind; (*files)[norm(p)] = i; }
bool disk_is_dir(const char *p) { Rt g; auto it = files->find(norm(p, true)); return it != files->end() && it->second->dir; }
uint64_t disk_size(const char *p) { Rt g; auto it = files->find(norm(p, true)); return it == files->end() ? ~0ull : it->second->size; }
std::string disk_get(const char *p, uint64_t off, uint64_t len) {
  Rt g; auto it = files->find(norm(p, true)); if (it == files->end()) return "";
  Inode &i = *it->second; if (off >= i.size) return "";
  len = std::min(len, i.size - off); std::string s(len, 0); iread(i, off, &s[0], len); return s;
}
void stdin_put(const std::string &data) { Rt g; disk_put("/sim/stdin", data); low_fd = true; int fd = (int)d_open("/sim/stdin", O_RDWR, 0); (void)fd; }
void stdin_closed() { Rt g; low_fd = true; }
void disk_mkdir(const char *p) { Rt g; d_mkdir(p); }

// a blocking system call takes time; returns true if an error is to be injected
static void syscall_time() { if (active && flip("slow", world().p_slow * 0.3)) { uint64_t d = 1 + pick_u64("slowt") % (2 * MS); sleep(d); } }

void os_child() {
  mtxs = new std::unordered_map<const void *, Mtx>; cnds = new std::unordered_map<const void *, Cnd>; rws = new std::unordered_map<const void *, Rw>;
  sems = new std::unordered_map<const void *, Sem>; bars = new std::unordered_map<const void *, Bar>; onces = new std::unordered_map<const void *, int>;
  tids = new std::map<uint64_t, int>; rtids = new std::map<int, uint64_t>; tstate = new std::map<uint64_t, int>; next_tid = 0x7000000001ull;
  files = new std::map<std::string, std::shared_ptr<Inode>>; fds = new std::map<int, Fd>; g_log = new std::vector<FsOp>;
  for (const char *d : {"/", "/sim", "/cwd", "/tmp"}) { auto i = std::make_shared<Inode>(); i->dir = true; (*files)[d] = i; }
}

// wall clock moves between calls
int64_t clock_read(const char *who) {
  api(who);
  if (faults_on() && world().p_tick > 0 && flip("tick", world().p_tick)) { fired(F_CLOCK_TICK); static const uint64_t t[] = {1, 100, 1000, 1 * MS, 300 * MS, 999 * MS}; uint64_t d = t[choose("tickn", 6)]; now_ns += d; tracef("clock moves on %.3f ms", d / 1e6); }
  if (faults_on() && world().p_jump > 0 && flip("jump", world().p_jump)) { fired(F_CLOCK_JUMP); static const int64_t t[] = {-1, 1, 60, -3600, 86400, -86400 * 40}; int64_t d = t[choose("jumpn", 6)]; if (wall_ns() + d * 1000000000ll < 0) d = 1; set_wall_ns(wall_ns() + d * 1000000000ll); tracef("clock jumps %lld s", (long long)d); }
  return wall_ns();
}
} // namespace sim

using namespace sim;
#define REAL(name) ((decltype(&name))real_sym(#name))
static void *real_sym(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return p; }
#define ON (sim::active && sim::rt == 0)
static inline int ret(int64_t r) { if (r < 0) { errno = (int)-r; return -1; } return (int)r; }

extern "C" {
// ------------------------------------------------------------------ pthread
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if (!ON) return REAL(pthread_mutex_init)(m, a);
  int k = 0; if (a) pthread_mutexattr_gettype(a, &k);
  return mtx_init(m, k == PTHREAD_MUTEX_RECURSIVE ? 1 : k == PTHREAD_MUTEX_ERRORCHECK ? 2 : 0);
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!ON) return REAL(pthread_mutex_destroy)(m); return mtx_destroy(m); }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!ON) { if (!sim::active) { static decltype(&pthread_mutex_lock) r = REAL(pthread_mutex_lock); return r(m); } return 0; } return mtx_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!ON) { if (!sim::active) return REAL(pthread_mutex_trylock)(m); return 0; } return mtx_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!ON) { if (!sim::active) { static decltype(&pthread_mutex_unlock) r = REAL(pthread_mutex_unlock); return r(m); } return 0; } return mtx_unlock(m); }
static uint64_t abs_deadline(clockid_t c, const struct timespec *t) {
  int64_t w = (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; int64_t n = c == CLOCK_MONOTONIC ? (int64_t)now_ns : wall_ns();
  return w <= n ? now_ns : now_ns + (uint64_t)(w - n);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!ON) return 0; return lock_until(m, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { if (!ON) return 0; return lock_until(m, abs_deadline(c, t)); }
static std::map<const void *, int> condclock;
int pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { *(int *)a = c << 1; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (!ON) { memset(c, 0, sizeof *c); return 0; } int r = cnd_init(c); Rt g; condclock[c] = a ? (*(const int *)a >> 1) & 1 : 0; return r; }
int pthread_cond_destroy(pthread_cond_t *c) { if (!ON) return 0; return cnd_destroy(c); }
int pthread_cond_signal(pthread_cond_t *c) { if (!ON) return 0; return cnd_signal(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!ON) return 0; return cnd_signal(c, true); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ON) return 0; return cnd_wait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!ON) return 0; int k; { Rt g; k = condclock[c]; } return cnd_wait(c, m, abs_deadline(k ? CLOCK_MONOTONIC : CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!ON) return 0; return cnd_wait(c, m, abs_deadline(k, t)); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!ON) return REAL(pthread_create)(t, a, f, arg);
  Rt g; bool failed; uint64_t id = 0; int r = thr_create(&id, [f, arg] { f(arg); }, "thread", &failed); if (!r) *t = (pthread_t)id; return r;
}
int pthread_join(pthread_t t, void **r) { if (!sim::active) return REAL(pthread_join)(t, r); if (r) *r = nullptr; return thr_join((uint64_t)t); }
int pthread_detach(pthread_t t) { if (!sim::active) return REAL(pthread_detach)(t); return thr_detach((uint64_t)t); }
pthread_t pthread_self(void) { if (!sim::active || sim::rt) { static decltype(&pthread_self) r = REAL(pthread_self); return r(); } return (pthread_t)thr_self(); }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!ON) { if (*o == 0) { *o = 2; f(); } return 0; }
  api("once");
  for (;;) {
    int st; { Rt g; st = (*onces)[o]; if (st == 0) (*onces)[o] = 1; }
    if (st == 2) return 0;
    if (st == 0) { f(); Rt g; (*onces)[o] = 2; wake_one_blocked_on(o); return 0; }
    Rt g; block("once", NEVER, o);
  }
}
// function-local statics
int __cxa_guard_acquire(long long *gd) {
  if (*(volatile char *)gd) return 0;
  if (!sim::active || !sim::onces) return *(char *)gd ? 0 : 1;
  if (sim::rt == 0) api("static init");
  Rt g;
  for (;;) {
    if (*(volatile char *)gd) return 0;
    if (!((volatile char *)gd)[1]) { ((char *)gd)[1] = 1; return 1; }
    block("static initialisation by another thread", NEVER, gd);
  }
}
void __cxa_guard_release(long long *gd) { *(char *)gd = 1; ((char *)gd)[1] = 0; if (sim::active && sim::onces) { Rt g; wake_one_blocked_on(gd); } }
void __cxa_guard_abort(long long *gd) { ((char *)gd)[1] = 0; if (sim::active && sim::onces) { Rt g; wake_one_blocked_on(gd); } }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { if (ON) { Rt g; (*rws)[l] = Rw(); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (ON) { Rt g; rws->erase(l); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!ON) return 0; api("rdlock"); Rt g; for (;;) { touch(l, "rdlock"); Rw &r = (*rws)[l]; if (r.writer < 0) { r.readers++; return 0; } block("rdlock", NEVER, l); } }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!ON) return 0; api("wrlock"); Rt g; for (;;) { touch(l, "wrlock"); Rw &r = (*rws)[l]; if (r.writer < 0 && !r.readers) { r.writer = self(); return 0; } block("wrlock", NEVER, l); } }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!ON) return 0; api("rdlock"); Rt g; Rw &r = (*rws)[l]; if (r.writer >= 0) return EBUSY; r.readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!ON) return 0; api("wrlock"); Rt g; Rw &r = (*rws)[l]; if (r.writer >= 0 || r.readers) return EBUSY; r.writer = self(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!ON) return 0; api("rwunlock"); Rt g; Rw &r = (*rws)[l]; if (r.writer == self()) r.writer = -1; else if (r.readers) r.readers--; wake_one_blocked_on(l); return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *(int *)l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!ON) return 0; return mtx_lock((void *)l); }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!ON) return 0; return mtx_unlock((void *)l); }
int sem_init(sem_t *s, int, unsigned v) { if (!sim::active) return 0; Rt g; (*sems)[s].v = v; return 0; }
int sem_destroy(sem_t *s) { if (!sim::active) return 0; Rt g; sems->erase(s); return 0; }
int sem_post(sem_t *s) { if (!sim::active) return 0; if (sim::rt == 0) api("sem"); Rt g; (*sems)[s].v++; wake_one_blocked_on(s); return 0; }
int sem_wait(sem_t *s) { if (!ON) return 0; api("sem"); Rt g; while ((*sems)[s].v <= 0) block("semaphore", NEVER, s); (*sems)[s].v--; return 0; }
int sem_trywait(sem_t *s) { if (!ON) return 0; api("sem"); Rt g; if ((*sems)[s].v <= 0) { errno = EAGAIN; return -1; } (*sems)[s].v--; return 0; }
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { if (!ON) return 0; Rt g; Bar x; x.n = n; (*bars)[b] = x; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *b) { if (!ON) return 0; Rt g; bars->erase(b); return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) {
  if (!ON) return 0;
  api("barrier"); Rt g; touch(b, "barrier"); Bar &x = (*bars)[b]; uint64_t gen = x.gen;
  if (++x.c >= x.n) { x.c = 0; x.gen++; wake_one_blocked_on(b); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while ((*bars)[b].gen == gen) block("barrier", NEVER, b);
  return 0;
}
int sched_yield(void) { if (!ON) return 0; api("yield"); Rt g; block("yield", now_ns + 1); return 0; }

// ------------------------------------------------------------------- clocks
static int64_t ts_ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!ON) return 0; sim::sleep(ts_ns(t)); (void)r; return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *) {
  if (!ON) return 0;
  uint64_t d = (fl & TIMER_ABSTIME) ? abs_deadline(c, t) : now_ns + ts_ns(t); Rt g; block("sleep", d); return 0;
}
int usleep(useconds_t u) { if (!ON) return 0; sim::sleep((uint64_t)u * US); return 0; }
unsigned sleep(unsigned s) { if (!ON) return 0; sim::sleep((uint64_t)s * SEC); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!ON) { static decltype(&clock_gettime) r = REAL(clock_gettime); return r(c, t); }
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    if (fault("clockfail", world().p_syscall, F_SYSCALL)) { errno = EINVAL; return -1; }
    int64_t w = clock_read("clock_gettime"); if (c == CLOCK_REALTIME_COARSE) w -= w % 4000000; t->tv_sec = w / 1000000000ll; t->tv_nsec = w % 1000000000ll; }
  else { api("clock_gettime"); t->tv_sec = now_ns / SEC; t->tv_nsec = now_ns % SEC; }
  return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) {
  if (!ON) return REAL(gettimeofday)(tv, tz);
  int64_t w = clock_read("gettimeofday"); tv->tv_sec = w / 1000000000ll; tv->tv_usec = w % 1000000000ll / 1000; return 0;
}
time_t time(time_t *t) { if (!ON) { static decltype(&time) r = REAL(time); return r(t); } time_t s = clock_read("time") / 1000000000ll; if (t) *t = s; return s; }
static struct tm shared_tm; // gmtime/localtime share one buffer, as libc does
struct tm *gmtime(const time_t *t) { if (!ON) return REAL(gmtime)(t); api("gmtime"); { Rt g; gmtime_r(t, &shared_tm); } api("gmtime done"); return &shared_tm; }
struct tm *localtime(const time_t *t) { if (!ON) return REAL(localtime)(t); api("localtime"); { Rt g; tzset(); localtime_r(t, &shared_tm); } api("localtime done"); return &shared_tm; }

// --------------------------------------------------------------- unix files
static int err_of(const char *s) { static const int e[] = {EIO, EINTR, ENOMEM, EDQUOT, ESTALE, ENXIO}; (void)s; return e[0]; }
static int open_err() { static const int e[] = {EMFILE, EACCES, ENFILE, EIO, EBUSY, EAGAIN, EPERM, EROFS, ENOMEM, EINTR}; return e[choose("openerr", 10)]; }
static bool simpath(const char *p) { (void)p; return ON; }
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (!simpath(path)) return REAL(open)(path, flags, mode);
  api("open"); check_mem(path, 1, false, "open"); Rt g; syscall_time();
  if (fault("open", world().p_open, F_OPEN)) { int e = open_err(); d_log('o', -1, 0, 0, -e, true, now(), path); errno = e; return -1; }
  int64_t r = d_open(path, flags, mode); d_log('o', (int)r, 0, 0, r < 0 ? r : 0, false, now(), path); return ret(r);
}
int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ON) return REAL(open64)(path, flags, mode); return open(path, flags, mode); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static ssize_t sim_rw(bool wr, int fd, void *b, size_t n, int64_t off) {
  api(wr ? "write" : "read"); Rt g; check_mem(b, n, !wr, wr ? "write()" : "read()"); syscall_time(); uint64_t t0 = now();
  int64_t o = off < 0 ? d_lseek(fd, 0, SEEK_CUR) : off;
  if (wr && fault("nospc", world().p_enospc, F_ENOSPC)) { d_log('w', fd, o, n, -ENOSPC, true, t0); errno = ENOSPC; return -1; }
  if (fault("eio", world().p_eio, F_EIO)) { d_log(wr ? 'w' : 'r', fd, o, n, -EIO, true, t0); errno = err_of(""); return -1; }
  bool inj = false; size_t k = n;
  if (n > 1 && fault("short", wr ? world().p_short_write : world().p_short_read, wr ? F_SHORT_WRITE : F_SHORT_READ)) { k = 1 + pick_u64("shortn") % (n - 1); inj = true; }
  int64_t r = wr ? d_write(fd, b, k, off) : d_read(fd, b, k, off);
  d_log(wr ? 'w' : 'r', fd, o, n, r, inj, t0); if (r < 0) { errno = (int)-r; return -1; } return r;
}
ssize_t read(int fd, void *b, size_t n) { if (!sim::active || !d_isfd(fd)) { static decltype(&read) r = REAL(read); return r(fd, b, n); } return sim_rw(false, fd, b, n, -1); }
ssize_t write(int fd, const void *b, size_t n) { if (!sim::active || !d_isfd(fd)) { static decltype(&write) r = REAL(write); return r(fd, b, n); } return sim_rw(true, fd, (void *)b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!sim::active || !d_isfd(fd)) return REAL(pread)(fd, b, n, o); return sim_rw(false, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!sim::active || !d_isfd(fd)) return REAL(pwrite)(fd, b, n, o); return sim_rw(true, fd, (void *)b, n, o); }
int close(int fd) {
  if (!sim::active || !d_isfd(fd)) { static decltype(&close) r = REAL(close); return r(fd); }
  api("close"); Rt g; int64_t r = d_close(fd);
  if (r == 0 && fault("close", world().p_close, F_CLOSE)) r = -EIO;
  d_log('c', fd, 0, 0, r, r == -EIO, now()); return ret(r);
}
off_t lseek(int fd, off_t o, int w) { if (!sim::active || !d_isfd(fd)) return REAL(lseek)(fd, o, w); Rt g; int64_t r = d_lseek(fd, o, w); if (r < 0) { errno = (int)-r; return -1; } return r; }
int fsync(int fd) { if (!sim::active || !d_isfd(fd)) return REAL(fsync)(fd); Rt g; if (fault("eio", world().p_eio, F_EIO)) { errno = EIO; return -1; } return 0; }
int fdatasync(int fd) { if (!sim::active || !d_isfd(fd)) return REAL(fdatasync)(fd); return fsync(fd); }
int ftruncate(int fd, off_t n) { if (!sim::active || !d_isfd(fd)) return REAL(ftruncate)(fd, n); Rt g; return ret(d_ftruncate(fd, n)); }
static void fillst(struct stat *st, uint64_t size, unsigned mode) { memset(st, 0, sizeof *st); st->st_size = size; st->st_mode = mode; st->st_blksize = 4096; st->st_nlink = 1; }
static int stat_of(const char *p, struct stat *st, bool follow) { api("stat"); Rt g; memset(st, 0x41, sizeof *st); /* on failure nothing useful is in there: looks like a directory */ if (fault("stat", world().p_stat, F_STAT)) { static const int e[] = {EIO, EACCES, ENOENT, ELOOP}; errno = e[choose("staterr", 4)]; return -1; } uint64_t s; unsigned m; int64_t r = d_stat(p, &s, &m, follow); if (!r) fillst(st, s, m); return ret(r); }
int stat(const char *__restrict p, struct stat *__restrict st) { if (!ON) return REAL(stat)(p, st); return stat_of(p, st, true); }
int lstat(const char *__restrict p, struct stat *__restrict st) { if (!ON) return REAL(lstat)(p, st); return stat_of(p, st, false); }
int fstat(int fd, struct stat *st) { if (!sim::active || !d_isfd(fd)) return REAL(fstat)(fd, st); Rt g; uint64_t s; unsigned m; int64_t r = d_fstat(fd, &s, &m); if (!r) fillst(st, s, m); return ret(r); }
int access(const char *p, int m) { if (!ON) return REAL(access)(p, m); api("access"); Rt g; uint64_t s; unsigned md; (void)m; return ret(d_stat(p, &s, &md)); }
static int64_t sys_fault(const char *what, const char *path) {
  static const int e[] = {EACCES, ENOSPC, EROFS, EIO, ENAMETOOLONG, EMLINK, EPERM, EBUSY};
  if (fault("syscall", world().p_syscall, F_SYSCALL)) { int k = e[choose("syserr", 8)]; d_log(what[0] == 'm' ? 'm' : 'u', -1, 0, 0, -k, true, now(), path); return -k; }
  return 0;
}
int mkdir(const char *p, mode_t) { if (!ON) return REAL(mkdir)(p, 0); api("mkdir"); Rt g; syscall_time(); int64_t f = sys_fault("mkdir", p); if (f) return ret(f); int64_t r = d_mkdir(p); d_log('m', -1, 0, 0, r, false, now(), p); return ret(r); }
int rmdir(const char *p) { if (!ON) return REAL(rmdir)(p); api("rmdir"); Rt g; int64_t f = sys_fault("u", p); if (f) return ret(f); return ret(d_rmdir(p)); }
int unlink(const char *p) { if (!ON) return REAL(unlink)(p); api("unlink"); Rt g; syscall_time(); int64_t f = sys_fault("u", p); if (f) return ret(f); int64_t r = d_unlink(p); d_log('u', -1, 0, 0, r, false, now(), p); return ret(r); }
int remove(const char *p) { if (!ON) return REAL(remove)(p); api("remove"); Rt g; syscall_time(); int64_t f = sys_fault("u", p); if (f) return ret(f); int64_t r = d_unlink(p); if (r == -EISDIR) r = d_rmdir(p); d_log('u', -1, 0, 0, r, false, now(), p); return ret(r); }
int rename(const char *a, const char *b) { if (!ON) return REAL(rename)(a, b); api("rename"); Rt g; return ret(d_rename(a, b)); }
// the same under their other names
int stat64(const char *__restrict p, struct stat64 *__restrict st) { return stat(p, (struct stat *)st); }
int lstat64(const char *__restrict p, struct stat64 *__restrict st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat(int d, const char *__restrict p, struct stat *__restrict st, int fl) { if (!ON) return REAL(fstatat)(d, p, st, fl); return stat_of(p, st, !(fl & AT_SYMLINK_NOFOLLOW)); }
int fstatat64(int d, const char *__restrict p, struct stat64 *__restrict st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) { if (!ON) return REAL(truncate)(p, n); api("truncate"); Rt g; int64_t fd = d_open(p, O_WRONLY, 0); if (fd < 0) return ret(fd); int64_t r = d_ftruncate((int)fd, n); d_close((int)fd); return ret(r); }
int mkdirat(int d, const char *p, mode_t m) { if (!ON) return REAL(mkdirat)(d, p, m); return mkdir(p, m); }
int unlinkat(int d, const char *p, int fl) { if (!ON) return REAL(unlinkat)(d, p, fl); return fl & AT_REMOVEDIR ? rmdir(p) : unlink(p); }
int faccessat(int d, const char *p, int m, int fl) { if (!ON) return REAL(faccessat)(d, p, m, fl); return access(p, m); }
int euidaccess(const char *p, int m) { return access(p, m); }
int openat(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ON) return REAL(openat)(d, path, flags, mode); return open(path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ON) return REAL(openat64)(d, path, flags, mode); return open(path, flags, mode); }
int chdir(const char *) { if (!ON) return 0; return 0; }

// -------------------------------------------------------------------- stdio
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) {
  int fd = ((Cookie *)c)->fd; Rt g; uint64_t t0 = now(); int64_t o = d_lseek(fd, 0, SEEK_CUR);
  if (fault("eio", world().p_eio, F_EIO)) { d_log('r', fd, o, n, -EIO, true, t0); errno = EIO; return -1; }
  size_t k = n; bool inj = false;
  if (n > 1 && fault("short", world().p_short_read, F_SHORT_READ)) { k = 1 + pick_u64("shortn") % (n - 1); inj = true; }
  int64_t r = d_read(fd, b, k, -1); d_log('r', fd, o, n, r, inj, t0); if (r < 0) { errno = (int)-r; return -1; } return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  int fd = ((Cookie *)c)->fd; Rt g; uint64_t t0 = now(); size_t done = 0;
  while (done < n) {
    int64_t o = d_lseek(fd, 0, SEEK_CUR);
    if (fault("nospc", world().p_enospc, F_ENOSPC)) { d_log('w', fd, o, n - done, -ENOSPC, true, t0); errno = ENOSPC; return done; }
    if (fault("eio", world().p_eio, F_EIO)) { d_log('w', fd, o, n - done, -EIO, true, t0); errno = EIO; return done; }
    size_t k = n - done; bool inj = false;
    if (k > 1 && fault("short", world().p_short_write, F_SHORT_WRITE)) { k = 1 + pick_u64("shortn") % (k - 1); inj = true; }
    int64_t r = d_write(fd, b + done, k, -1); d_log('w', fd, o, n - done, r, inj, t0);
    if (r <= 0) { errno = r ? (int)-r : ENOSPC; return done; }
    done += r;
  }
  return done;
}
static int ck_seek(void *c, off64_t *o, int w) { int fd = ((Cookie *)c)->fd; Rt g; int64_t r = d_lseek(fd, *o, w); if (r < 0) { errno = (int)-r; return -1; } *o = r; return 0; }
static std::map<FILE *, int> ffd;
static int ck_close(void *c) {
  int fd = ((Cookie *)c)->fd; Rt g; int64_t r = d_close(fd); if (r == 0 && fault("close", world().p_close, F_CLOSE)) r = -EIO;
  d_log('c', fd, 0, 0, r, r == -EIO, now()); delete (Cookie *)c; return ret(r) < 0 ? -1 : 0;
}
FILE *fopen(const char *__restrict path, const char *__restrict mode) {
  if (!ON) { static decltype(&fopen) r = REAL(fopen); return r(path, mode); }
  api("fopen"); check_mem(path, 1, false, "fopen"); Rt g; syscall_time();
  int fl = 0; bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (fault("open", world().p_open, F_OPEN)) { int e = open_err(); d_log('o', -1, 0, 0, -e, true, now(), path); errno = e; return nullptr; }
  int64_t r = d_open(path, fl, 0644); d_log('o', (int)r, 0, 0, r < 0 ? r : 0, false, now(), path);
  if (r < 0) { errno = (int)-r; return nullptr; }
  Cookie *c = new Cookie; c->fd = (int)r;
  cookie_io_functions_t f; f.read = ck_read; f.write = ck_write; f.seek = ck_seek; f.close = ck_close;
  FILE *x = fopencookie(c, mode, f); ffd[x] = (int)r; return x;
}
FILE *fopen64(const char *__restrict p, const char *__restrict m) { if (!ON) return REAL(fopen64)(p, m); return fopen(p, m); }
static int file_fd(FILE *f) { auto it = ffd.find(f); return it == ffd.end() ? -1 : it->second; }
int fileno(FILE *f) { int r = file_fd(f); if (r >= 0) return r; static decltype(&fileno) q = REAL(fileno); return q(f); }
static void pre(FILE *f, const char *what) { (void)f; if (ON) api(what); }
#define RT_CALL(expr) do { Rt g; return expr; } while (0)
size_t fread(void *__restrict b, size_t s, size_t n, FILE *__restrict f) { static decltype(&fread) r = REAL(fread); if (!ON) return r(b, s, n, f); pre(f, "fread"); check_mem(b, s * n, true, "fread"); RT_CALL(r(b, s, n, f)); }
size_t fwrite(const void *__restrict b, size_t s, size_t n, FILE *__restrict f) { static decltype(&fwrite) r = REAL(fwrite); if (!ON) return r(b, s, n, f); pre(f, "fwrite"); check_mem(b, s * n, false, "fwrite"); RT_CALL(r(b, s, n, f)); }
int fclose(FILE *f) { static decltype(&fclose) r = REAL(fclose); if (!ON) return r(f); pre(f, "fclose"); Rt g; ffd.erase(f); return r(f); }
}

