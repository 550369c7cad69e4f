// Runner: seeded search, determinism gate, minimisation, replay files.
#include "internal.h"
#include "result.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
using namespace sim;

// which blocks of the instrumented code have run (shared with all children); only called in a build with MG_COV=1
const size_t COVN = 1 << 24; static unsigned char *cov_map; static uintptr_t cov_base = 0x400000;
extern "C" void __sanitizer_cov_trace_pc() { if (!cov_map) return; uintptr_t o = (uintptr_t)__builtin_return_address(0) - cov_base; if (o < COVN) cov_map[o] = 1; }
static void cov_dump(const char *path) { FILE *f = fopen(path, "w"); if (!f) return; for (size_t i = 0; i < COVN; i++) if (cov_map[i]) fprintf(f, "%zx\n", i + cov_base); fclose(f); }

static double wall() { struct timespec t; syscall(228 /*clock_gettime*/, 1, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Result *new_result() { void *m = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); exit(2); } return (Result *)m; }

struct Outcome { int status = 0; std::string cls, msg; uint64_t hash = 0, points = 0, switches = 0, sim_ns = 0; };
static Outcome run_once(const Scenario *sc, uint64_t seed, bool replay, const std::vector<Choice> &ch, bool trace, Result *res) {
  res->status = 0; res->cls[0] = res->msg[0] = 0; res->hash = 0; res->nchoices = 0; res->tracelen = 0; res->nstates = 0; res->points = res->switches = res->sim_ns = 0; memset(res->faults, 0, sizeof res->faults);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { usleep(100000); p = fork(); if (p < 0) { perror("fork"); _exit(2); } }
  if (p == 0) { run_child(sc, seed, replay, ch.data(), ch.size(), trace, res); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Outcome o; o.status = res->status;
  if (o.status == 0) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.status = 3; o.cls = "killed"; }
    else { o.status = 2; o.cls = "exit"; char b[128]; snprintf(b, sizeof b, "the process ended on its own (wait status %x)", st); o.msg = b; snprintf(res->cls, sizeof res->cls, "exit"); }
  } else { o.cls = res->cls; o.msg = res->msg; }
  o.hash = res->hash; o.points = res->points; o.switches = res->switches; o.sim_ns = res->sim_ns;
  return o;
}
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

struct Known { std::string scen, cls, sub; };
static std::vector<Known> known;
static bool is_known(const Scenario *sc, const Outcome &o, int *which) {
  for (size_t i = 0; i < known.size(); i++) { const Known &k = known[i]; if ((k.scen == "*" || k.scen == sc->name) && k.cls == o.cls && o.msg.find(k.sub) != std::string::npos) { *which = (int)i; return true; } }
  return false;
}
const uint32_t MAXH = 1 << 21; const int MAXSC = 64, MAXK = 16;
struct WStat {
  uint64_t runs, points, switches, sim_ns, max_sim, faults[F_MAX], watchdog, scen_runs[MAXSC], known[MAXK], faulty; uint32_t nhash, nstates; int failed; uint64_t fail_index;
  char fcls[64], fmsg[2048], wmsg[256];
  uint64_t hashes[MAXH], states[MAXH];
};
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static std::vector<const Scenario *> sel; static std::vector<const Scenario *> wheel;
static const Scenario *scen_of(uint64_t base, uint64_t i) { (void)base; return wheel[i % wheel.size()]; }
static uint64_t seed_of(uint64_t base, uint64_t i) { return mix(mix(base) ^ (i * 0xd1342543de82ef95ull + 17)); }

static bool write_replay(const std::string &path, const Scenario *sc, uint64_t seed, bool seedmode, const std::vector<Choice> &ch, const Outcome &o, Result *res, const std::string &orig, size_t nfull) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
  fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nseed %llu\nmode %s\nclass %s\nmessage %s\nhash %016llx\n", sc->prop, sc->name, (unsigned long long)seed, seedmode ? "seed" : "choices", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
  fprintf(f, "first-message %s\nrecorded-decisions %zu\nchoices %zu\n", orig.c_str(), nfull, ch.size());
  for (auto &c : ch) fprintf(f, "%s %llu %llu\n", c.stream, (unsigned long long)c.counter, (unsigned long long)c.value);
  fprintf(f, "trace\n"); fwrite(res->trace, 1, res->tracelen, f); fclose(f); return true;
}
static int do_replay(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot read %s\n", path); return 2; }
  char line[8192]; std::string prop, scen, mode, cls, msg; uint64_t seed = 0, hash = 0; std::vector<Choice> ch; 
  while (fgets(line, sizeof line, f)) {
    std::string s(line); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    size_t sp = s.find(' '); std::string k = s.substr(0, sp), v = sp == std::string::npos ? "" : s.substr(sp + 1);
    if (k == "property") prop = v; else if (k == "scenario") scen = v; else if (k == "seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "mode") mode = v; else if (k == "class") cls = v; else if (k == "message") msg = v; else if (k == "hash") hash = strtoull(v.c_str(), 0, 16);
    else if (k == "choices") { size_t n = strtoull(v.c_str(), 0, 10); for (size_t i = 0; i < n && fgets(line, sizeof line, f); i++) { Choice c; unsigned long long a, b; memset(&c, 0, sizeof c); if (sscanf(line, "%23s %llu %llu", c.stream, &a, &b) == 3) { c.counter = a; c.value = b; ch.push_back(c); } } break; }
  }
  fclose(f);
  const Scenario *sc = nullptr; for (const Scenario *s = scenarios(); s; s = s->next) if (prop == s->prop && scen == s->name) sc = s;
  if (!sc) { fprintf(stderr, "unknown scenario %s/%s\n", prop.c_str(), scen.c_str()); return 2; }
  Result *res = new_result(); Outcome o = run_once(sc, seed, mode != "seed", ch, true, res);
  fwrite(res->trace, 1, res->tracelen, stdout);
  printf("replayed %s/%s: status %d class %s: %s\nhash %016llx (recorded %016llx)\n", prop.c_str(), scen.c_str(), o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)hash);
  bool same = o.status == 2 && o.cls == cls && o.hash == hash && o.msg == msg;
  printf("%s\n", same ? "REPRODUCED exactly" : o.status == 2 ? "DIFFERENT violation" : "NOT reproduced");
  if (o.status == 2) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path); return 1; }
  return 0;
}

int main(int argc, char **argv) {
  std::string prop, scen, out, rout, rep; uint64_t runs = 1000, base = 1; int workers = 8; double cap = 60; int gate = 6; double mincap = 20; bool list = false, one = false; uint64_t oneseed = 0; bool dump = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--prop") prop = nx(); else if (a == "--scen") scen = nx(); else if (a == "--runs") runs = strtoull(nx(), 0, 10); else if (a == "--seed") base = strtoull(nx(), 0, 10);
    else if (a == "--workers") workers = atoi(nx()); else if (a == "--wall") cap = atof(nx()); else if (a == "--min-wall") mincap = atof(nx()); else if (a == "--out") out = nx(); else if (a == "--replay-out") rout = nx();
    else if (a == "--replay") rep = nx(); else if (a == "--gate") gate = atoi(nx()); else if (a == "--list") list = true; else if (a == "--one") { one = true; oneseed = strtoull(nx(), 0, 10); } else if (a == "--trace") dump = true;
    else if (a == "--known") { std::string s = nx(); size_t x = s.find('|'), y = s.find('|', x + 1); if (y != std::string::npos && known.size() < MAXK) known.push_back({s.substr(0, x), s.substr(x + 1, y - x - 1), s.substr(y + 1)}); }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  setenv("TZ", "UTC", 1);
  std::string cov; if (const char *c = getenv("MG_COV_OUT")) { cov = c; void *m = mmap(nullptr, COVN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m != MAP_FAILED) cov_map = (unsigned char *)m; }
  child_init_once();
  if (list) { for (const Scenario *s = scenarios(); s; s = s->next) printf("%s %s %d\n", s->prop, s->name, s->weight); return 0; }
  int devnull = open("/dev/null", O_WRONLY);
  int real_out = dup(1);
  if (!rep.empty()) { FILE *o = fdopen(real_out, "w"); (void)o; dup2(devnull, 1); setvbuf(stdout, nullptr, _IOFBF, 1 << 16); int r; { // children write to /dev/null, the report to the real stdout
      fflush(stdout); stdout = o; r = do_replay(rep.c_str()); fflush(o); } return r; }
  for (const Scenario *s = scenarios(); s; s = s->next) if ((prop.empty() || prop == s->prop) && (scen.empty() || scen == s->name)) sel.push_back(s);
  std::reverse(sel.begin(), sel.end());
  if (sel.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
  { int mx = 0; for (auto *s : sel) mx = std::max(mx, s->weight); for (int k = 0; k < mx; k++) for (auto *s : sel) if (s->weight > k) wheel.push_back(s); }
  dup2(devnull, 1);
  Result *res = new_result();
  if (one) {
    const Scenario *sc = scen_of(base, oneseed); Outcome o = run_once(sc, seed_of(base, oneseed), false, {}, dump, res);
    if (dump && write(real_out, res->trace, res->tracelen) < 0) return 2;
    dprintf(real_out, "%s/%s status %d class %s: %s\nhash %016llx points %llu switches %llu sim %.6f s choices %u\n", sc->prop, sc->name, o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)o.points, (unsigned long long)o.switches, o.sim_ns / 1e9, res->nchoices);
    return o.status == 2;
  }
  double t0 = wall();
  // determinism gate: the same seed twice must give the identical execution
  int gate_bad = 0; std::string gate_msg;
  for (int i = 0; i < gate * (int)wheel.size() && i < 40; i++) {
    const Scenario *sc = scen_of(base, i);
    Outcome a = run_once(sc, seed_of(base, i), false, {}, false, res), b = run_once(sc, seed_of(base, i), false, {}, i % 2, res);
    if (a.status != 3 && b.status != 3 && (a.hash != b.hash || a.points != b.points || a.status != b.status || a.sim_ns != b.sim_ns)) { gate_bad++; gate_msg = std::string(sc->name) + " index " + std::to_string(i); }
  }
  size_t ssz = sizeof(WStat) * workers;
  WStat *ws = (WStat *)mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ws == MAP_FAILED) { perror("mmap"); return 2; }
  volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids; double ts = wall();
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      Result *r = new_result(); WStat &s = ws[w];
      for (uint64_t i = w; i < runs && !*stop && wall() - ts < cap; i += workers) {
        const Scenario *sc = scen_of(base, i); Outcome o = run_once(sc, seed_of(base, i), false, {}, false, r);
        s.runs++; s.points += o.points; s.switches += o.switches; s.sim_ns += o.sim_ns; s.max_sim = std::max(s.max_sim, o.sim_ns); uint64_t fs = 0;
        for (int k = 0; k < F_MAX; k++) { s.faults[k] += r->faults[k]; fs += r->faults[k]; }
        if (fs) s.faulty++;
        for (size_t k = 0; k < sel.size() && k < MAXSC; k++) if (sel[k] == sc) s.scen_runs[k]++;
        if (s.nhash < MAXH) s.hashes[s.nhash++] = o.hash;
        for (uint32_t k = 0; k < r->nstates && s.nstates < MAXH; k++) s.states[s.nstates++] = r->states[k];
        if (o.status == 3) { s.watchdog++; snprintf(s.wmsg, sizeof s.wmsg, "%s index %llu: %s", sc->name, (unsigned long long)i, o.msg.c_str()); }
        int kw; if (o.status == 2 && is_known(sc, o, &kw)) { s.known[kw]++; continue; }
        if (o.status == 2) { s.failed = 1; s.fail_index = i; snprintf(s.fcls, sizeof s.fcls, "%s", o.cls.c_str()); snprintf(s.fmsg, sizeof s.fmsg, "%s", o.msg.c_str()); *stop = 1; break; }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  double ssec = wall() - ts;
  uint64_t T_runs = 0, T_points = 0, T_sw = 0, T_wd = 0, T_faulty = 0, maxsim = 0; double T_sim = 0; uint64_t F[F_MAX] = {0}, K[MAXK] = {0}; std::vector<uint64_t> SR(sel.size()); std::unordered_set<uint64_t> H, S; std::string wmsg;
  for (int w = 0; w < workers; w++) {
    WStat &s = ws[w]; T_runs += s.runs; T_points += s.points; T_sw += s.switches; T_sim += s.sim_ns / 1e9; T_wd += s.watchdog; T_faulty += s.faulty; maxsim = std::max(maxsim, s.max_sim); if (s.watchdog) wmsg = s.wmsg;
    for (int k = 0; k < F_MAX; k++) F[k] += s.faults[k];
    for (int k = 0; k < MAXK; k++) K[k] += s.known[k];
    for (size_t k = 0; k < sel.size() && k < MAXSC; k++) SR[k] += s.scen_runs[k];
    for (uint32_t k = 0; k < s.nhash; k++) H.insert(s.hashes[k]);
    for (uint32_t k = 0; k < s.nstates; k++) S.insert(s.states[k]);
  }
  if (cov_map) cov_dump(cov.c_str());
  // a violation: reproduce, minimise, write the replay file
  bool failed = false; std::string fscen, fcls, fmsg, fmin; uint64_t findex = ~0ull; size_t full = 0, mini = 0; int mruns = 0; bool exact = false;
  for (int w = 0; w < workers; w++) if (ws[w].failed && ws[w].fail_index < findex) { failed = true; findex = ws[w].fail_index; fcls = ws[w].fcls; fmsg = ws[w].fmsg; }
  if (failed) {
    const Scenario *sc = scen_of(base, findex); uint64_t seed = seed_of(base, findex); fscen = sc->name;
    Outcome o = run_once(sc, seed, false, {}, false, res);
    std::vector<Choice> ch(res->choices, res->choices + res->nchoices); bool over = res->overflow; full = ch.size();
    Outcome r = run_once(sc, seed, true, ch, false, res);
    auto same = [&](const Outcome &x) { int kw; return x.status == 2 && x.cls == o.cls && !is_known(sc, x, &kw); };
    bool seedmode = over || o.status != 2 || !same(r);
    if (!seedmode) {
      double m0 = wall(); size_t chunk = std::max<size_t>(1, ch.size() / 2);
      auto attempt = [&](const std::vector<Choice> &c) { mruns++; return same(run_once(sc, seed, true, c, false, res)); };
      for (;;) {
        bool any = false;
        for (size_t i = 0; i < ch.size() && wall() - m0 < mincap;) {
          std::vector<Choice> c(ch.begin(), ch.begin() + i); c.insert(c.end(), ch.begin() + std::min(ch.size(), i + chunk), ch.end());
          if (attempt(c)) { ch = c; any = true; } else i += chunk;
        }
        if (wall() - m0 >= mincap) break;
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk = chunk / 2;
      }
      for (size_t i = 0; i < ch.size() && wall() - m0 < mincap * 1.5; i++) {
        if (!strncmp(ch[i].stream, "pre#", 4)) continue;
        for (uint64_t v : {(uint64_t)1, ch[i].value / 8, ch[i].value / 2}) if (v && v < ch[i].value) { auto c = ch; c[i].value = v; if (attempt(c)) { ch = c; break; } }
      }
    }
    mini = ch.size();
    Outcome f1 = seedmode ? run_once(sc, seed, false, {}, false, res) : run_once(sc, seed, true, ch, false, res);
    Outcome f2 = seedmode ? run_once(sc, seed, false, {}, true, res) : run_once(sc, seed, true, ch, true, res);
    exact = f1.status == 2 && f2.status == 2 && f1.hash == f2.hash && f1.cls == f2.cls && f1.msg == f2.msg; fmin = f2.msg;
    if (!rout.empty()) write_replay(rout, sc, seed, seedmode, ch, f2, res, fmsg, full);
  }
  std::string j = "{";
  char b[512];
  auto add = [&](const char *k, const std::string &v) { if (j.size() > 1) j += ","; j += std::string("\"") + k + "\":" + v; };
  auto num = [&](double v) { snprintf(b, sizeof b, "%.6f", v); return std::string(b); };
  add("runs", std::to_string(T_runs)); add("distinct", std::to_string(H.size())); add("states", std::to_string(S.size())); add("points", std::to_string(T_points)); add("switches", std::to_string(T_sw)); add("sim_seconds", num(T_sim)); add("longest_run_sim_seconds", num(maxsim / 1e9));
  add("wall_seconds", num(ssec)); add("total_wall_seconds", num(wall() - t0)); add("runs_with_faults", std::to_string(T_faulty)); add("watchdog", std::to_string(T_wd)); add("watchdog_msg", "\"" + jesc(wmsg) + "\""); add("gate_mismatch", std::to_string(gate_bad)); add("gate_msg", "\"" + jesc(gate_msg) + "\""); add("gate_runs", std::to_string(std::min(40, gate * (int)wheel.size())));
  { std::string f = "{"; for (int k = 0; k < F_MAX; k++) if (F[k]) { if (f.size() > 1) f += ","; f += std::string("\"") + fault_names[k] + "\":" + std::to_string(F[k]); } add("faults", f + "}"); }
  { std::string f = "{"; for (size_t k = 0; k < sel.size(); k++) { if (k) f += ","; f += std::string("\"") + sel[k]->name + "\":" + std::to_string(SR[k]); } add("scenarios", f + "}"); }
  { std::string f = "["; for (size_t k = 0; k < known.size(); k++) { if (k) f += ","; f += std::to_string(K[k]); } add("known", f + "]"); }
  { std::string f = "["; for (int k = 0; k < 5; k++) { if (k) f += ","; f += std::to_string(seed_of(base, k)); } add("sample_seeds", f + "]"); }
  add("base_seed", std::to_string(base)); add("failed", failed ? "true" : "false");
  if (failed) { add("scenario", "\"" + jesc(fscen) + "\""); add("class", "\"" + jesc(fcls) + "\""); add("message", "\"" + jesc(fmsg) + "\""); add("min_message", "\"" + jesc(fmin) + "\""); add("index", std::to_string(findex)); add("seed", std::to_string(seed_of(base, findex))); add("decisions", std::to_string(full)); add("minimised", std::to_string(mini)); add("min_runs", std::to_string(mruns)); add("exact", exact ? "true" : "false"); }
  j += "}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) { fwrite(j.data(), 1, j.size(), f); fclose(f); } }
  if (write(real_out, j.data(), j.size()) < 0) return 2;
  return failed ? 1 : 0;
}
