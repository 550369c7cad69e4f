// shared by the scenarios that use the loop thread and files
#pragma once
#include "common.h"
#include <fcntl.h>
#include <mg/core/file.h>
using namespace mg::core;
typedef mg::uv::loopthread LT;
namespace {
// everything must be gone when a scenario ends
struct Clean {
  size_t base; int fds; 
  Clean() : base(sim::live_allocs()), fds(sim::open_fds()) {}
  void check(bool leaks = true) {
    SIM_CHECK(sim::open_fds() == fds, "fd-leak", "%d descriptors left open", sim::open_fds() - fds);
    SIM_CHECK(sim::bad_fd_uses() == 0, "bad-fd", "%d operations on descriptors that are not open", sim::bad_fd_uses());
    SIM_CHECK(sim::uncleaned_reqs() == 0, "req-leak", "%d requests never cleaned up", sim::uncleaned_reqs());
    SIM_CHECK(sim::fs_inflight() == 0, "lost", "%d operations still outstanding in the end", sim::fs_inflight());
    if (leaks) SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
  }
};
void mk_loop(LT &t, bool start = true) {
  t.Create(); static const uint32_t w[] = {100, 1, 10, 40}; uint32_t k = w[sim::choose("wait", 4)]; if (k != 100) t->set_wait_time(k);
  if (start) t->start();
}
void storage(bool faults) {
  sim::World &w = sim::world(); static const double ps[] = {0.3, 0.0, 0.7}; w.p_slow = ps[sim::choose("pslow", 3)]; static const uint64_t ms[] = {20 * MS, 500 * US, 200 * MS}; w.max_slow = ms[sim::choose("mslow", 3)];
  w.stalls = sim::flip("stalls", 0.3); if (sim::flip("stdin", 0.1)) sim::stdin_closed(); // a file gets descriptor 0
  if (faults) { static const double pf[] = {0.1, 0.02, 0.3}; double p = pf[sim::choose("pf", 3)]; uint32_t k = sim::choose("fk", 7); w.p_eio = k == 0 || k == 5 ? p : 0; w.p_short_read = k == 1 || k == 5 || k == 6 ? p : 0; w.p_short_write = k == 2 || k == 5 || k == 6 ? p : 0; w.p_enospc = k == 3 || k == 5 ? p : 0; if (k == 4) w.disk_capacity = 4096 * (1 + sim::choose("cap", 6)); static const uint32_t mf[] = {1, 2, 1000}; w.max_faults = mf[sim::choose("mf", 3)]; sim::enable_faults(true); }
}
}
