#pragma once
#include "sim.h"
#include <stdarg.h>
namespace sim {
const uint64_t NEVER = ~0ull;
extern int rt;              // >0: inside runtime / harness quiet section
extern bool active;         // a simulation is running in this process
extern uint64_t now_ns;
struct Rt { Rt() { ++rt; } ~Rt() { --rt; } };
void api(const char *what); // API-level scheduling point (charges a little time)
bool faults_on();
bool fault(const char *stream, double p, Fault f); // decides and counts an injected fault
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mem_init();
void mem_child(uint64_t seed);
bool in_arena(const void *p);
void fold(uint64_t v);
int  spawn(const char *name, std::function<void()> f, bool daemon);
void os_child();
void uv_child();
void forget_sync_objects(const void *p, size_t n); // memory freed: primitives inside are gone
const char *fiber_name(int id);
// called by tsan hooks
void mem_access(const void *p, unsigned n, bool write);
bool stack_dead(const void *p, int *owner);
// sync primitives shared by uv_* and pthread_*
int mtx_init(void *m, int recursive);
int mtx_destroy(void *m);
int mtx_lock(void *m);
int mtx_trylock(void *m);
int mtx_unlock(void *m);
int cnd_init(void *c);
int cnd_destroy(void *c);
int cnd_signal(void *c, bool all);
int cnd_wait(void *c, void *m, uint64_t deadline); // 0 or ETIMEDOUT
int thr_create(uint64_t *tid, std::function<void()> f, const char *name, bool *failed);
int thr_join(uint64_t tid);
int thr_detach(uint64_t tid);
uint64_t thr_self();
// disk primitives (no scheduling)
int64_t d_open(const char *path, int flags, int mode);
int64_t d_close(int fd);
int64_t d_read(int fd, void *b, uint64_t n, int64_t off);
int64_t d_write(int fd, const void *b, uint64_t n, int64_t off);
int64_t d_lseek(int fd, int64_t off, int whence);
int64_t d_ftruncate(int fd, int64_t sz);
int64_t d_unlink(const char *p);
int64_t d_rmdir(const char *p);
int64_t d_mkdir(const char *p);
int64_t d_rename(const char *a, const char *b);
int64_t d_stat(const char *p, uint64_t *size, unsigned *mode, bool follow = true);
int64_t d_fstat(int fd, uint64_t *size, unsigned *mode);
bool d_isfd(int fd);
int  d_log(char type, int fd, int64_t off, uint64_t len, int64_t res, bool injected, uint64_t t0, const char *path = "");
}
