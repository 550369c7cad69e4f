#pragma once
#include "sim.h"
namespace sim {
struct Choice { char stream[24]; uint64_t counter; uint64_t value; };
const uint32_t MAX_CHOICES = 1 << 17, MAX_TRACE = 1 << 20, MAX_STATES = 4096;
struct Result {
  volatile int status; // 0 running/died, 1 ok, 2 violation, 3 watchdog
  int overflow, nfib;
  uint64_t hash, points, switches, sim_ns;
  uint32_t faults[F_MAX];
  uint32_t nchoices, tracelen, nstates;
  char cls[64]; char msg[2048];
  uint64_t states[MAX_STATES];
  Choice choices[MAX_CHOICES];
  char trace[MAX_TRACE];
};
void child_init_once();
void run_child(const Scenario *sc, uint64_t seed, bool replay, const Choice *ch, uint32_t nch, bool trace, Result *res);
}
