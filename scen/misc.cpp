// C22 - C28: queues, encodings, checksums, timestamps, directories, buffers
#include "common.h"
#include <time.h>
#include <stdlib.h>
#include <mg/core/thread.h>
#include <mg/core/ctime.h>
#include <mg/core/util.h>
#ifndef BYTE
#define BYTE unsigned char
#endif
#include <mg/media/fixed_queue.h>
#include <mg/media/media_queue.h>
#undef SEC // a macro of hnano.h, in ticks
#undef HU
#undef MILLY
#include <mg/media/wincrc.h>
#include <cencode.h>
#include <cdecode.h>
#include <mg/alxstring.h>
#include <mg/splitter.h>
using namespace mg::core;

// ---------------------------------------------------------------- C22, C23
namespace {
struct Item { uint64_t seq; uint32_t prod, len; };
typedef std::pair<Item, std::string> Sample;
const uint32_t OVER = 12 + sizeof(Item);
std::string body(const Item &i) { return pattern(i.len, i.seq * 8 + i.prod + 1); }
uint32_t qsize() { static const uint32_t s[] = {0, 1, 2, 3, 5}; uint32_t k = sim::choose("qs", 5); return k == 0 ? 25 + sim::choose("qs0", 60) : 24 + s[k] * (OVER + 16) + sim::choose("qs1", 20); }
uint32_t ilen() { switch (sim::choose("ik", 5)) { case 0: return sim::choose("il", 30); case 1: return 0; case 2: return 16; case 3: return sim::choose("il", 80); default: return sim::choose("il", 400); } }
// a queue that has been in use for a long time: as many samples taken as were pushed, about as many as its counters can count
template <class B> struct Aged : B { Aged() {} Aged(bool d) : B(d) {}
  template <class H> static auto set(H *h, int v, int) -> decltype(h->total_written = v, h->total_deleted = v, true) { h->total_written = v; h->total_deleted = v; return true; }
  template <class H> static bool set(H *, int, long) { return false; }
  template <class A> static auto find(A *a, int) -> decltype(a->get_queue_heder()) { return a->get_queue_heder(); }
  static int *find(void *, long) { return nullptr; }
  void age() { if (sim::flip("aged", 0.15)) set(find(this, 0), INT32_MAX - (int)sim::choose("age", 40), 0); } };
template <class Q> auto look(Q *q, int *rd, unsigned char **pb, int) -> decltype(q->locked_pick_next(rd, pb)) { return sim::flip("lpick", 0.5) ? q->locked_pick_next(rd, pb) : q->pick_next(rd, pb); }
template <class Q> auto look(Q *q, int *rd, unsigned char **pb, long) -> decltype(q->pick_next(rd, pb)) { return q->pick_next(rd, pb); }
// exact reference: the operation and its effect on the model happen under the queue's own lock
template <class QT> struct Exact {
  QT *q; std::deque<Sample> m; uint64_t seq = 0; uint64_t since = 0, cap; bool drops, grows; uint64_t lost = 0, refused = 0, taken = 0, passed = 0; uint32_t top = 0 /* samples as long as that, too */; std::deque<uint32_t> out, in; // what has left and entered last
  // a sample that fits to the byte, or nearly, where others have left
  uint32_t fit() { sim::Quiet k; int64_t t; if (sim::flip("fit end", 0.3)) t = (int64_t)cap - (int64_t)since; else { t = 0; uint32_t a = 1 + sim::choose("fit a", 4), b = sim::flip("fit in", 0.3) ? 1 + sim::choose("fit b", 2) : 0; for (uint32_t i = 0; i < a && i < out.size(); i++) t += out[i]; for (uint32_t i = 0; i < b && i < in.size(); i++) t -= in[i]; } t -= OVER; t += (int64_t)sim::choose("fit d", 3) - 1; return t < 0 || t > 480 ? ilen() : (uint32_t)t; }
  void went(uint32_t n) { sim::Quiet k; out.push_front(n); if (out.size() > 6) out.pop_back(); }
  void push(uint32_t prod, bool ret, bool faults) {
    Item it; it.prod = prod; std::string d; auto_lock l(q->get_lock()); it.len = top && sim::flip("topk", 0.5) ? top / 2 + sim::choose("top", top) : sim::flip("fit", 0.4) ? fit() : ilen(); { sim::Quiet k; it.seq = seq++; d = body(it); }
    size_t before = q->size(); SIM_CHECK(before == m.size(), "size", "%zu samples instead of %zu", before, m.size()); if (!before) since = 0;
    unsigned char *mem = new unsigned char[it.len + 1]; { sim::Quiet k; memcpy(mem, d.data(), it.len); }
    uint64_t len = it.len; if (sim::flip("monster", 0.02)) { static const uint32_t ms[] = {0x80000000u - OVER, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xffffffffu - OVER, 0xfffffff0u, 0x80000000u - OVER - 1}; len = ms[sim::choose("monsters", grows ? 6 : 7)]; } // more than can be counted, and than there is
    bool ok = false, threw = false; if (faults) sim::enable_faults(true); try { ok = q->push(it, mem, (unsigned int)len, ret); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); { sim::Quiet k; memset(mem, 0xee, it.len); } delete[] mem; 
    if (threw && !faults) SIM_CHECK(!ret, "throws", "a refusal was thrown although it was to be returned");
    size_t after = q->size(); if (ok) SIM_CHECK(len == it.len, "refused", "a sample of %llu bytes was accepted", (unsigned long long)len);
    if (ok) { SIM_CHECK(after >= 1 && after <= before + 1, "size", "%zu samples after a push to %zu", after, before); size_t gone = before + 1 - after; SIM_CHECK(drops || !gone, "dropped", "%zu samples dropped", gone);
      SIM_CHECK(!gone || since + OVER + it.len > cap, "dropped", "%zu samples dropped although there was room (%llu of %llu used, %u more)", gone, (unsigned long long)since, (unsigned long long)cap, OVER + it.len);
      sim::Quiet k; lost += gone; for (size_t i = 0; i < gone; i++) { went(OVER + m.front().first.len); m.pop_front(); } m.push_back(Sample(it, d)); in.push_front(OVER + it.len); if (in.size() > 4) in.pop_back(); passed++; if (gone && m.size() == 1) since = 0; since += OVER + it.len; }
    else { refused++; SIM_CHECK(drops || after == before, "size", "%zu samples after a refused push to %zu", after, before); SIM_CHECK(since + OVER + len > cap || (faults && threw), "refused", "a sample was refused although there was room (%llu of %llu used, %u more)", (unsigned long long)since, (unsigned long long)cap, OVER + it.len); if (grows) SIM_CHECK(faults || len != it.len, "refused", "a growing queue refused a sample"); sim::Quiet k; SIM_CHECK(after <= before, "size", "more samples after a refused push"); while (m.size() > after) m.pop_front(); }
    { sim::Quiet k; std::string().swap(d); }
  }
  void check(const Item &h, const unsigned char *p, int n, const char *how) { sim::Quiet k; const Sample &s = m.front(); SIM_CHECK(h.seq == s.first.seq && h.prod == s.first.prod && h.len == s.first.len, "order", "%s: sample %llu instead of %llu", how, (unsigned long long)h.seq, (unsigned long long)s.first.seq); SIM_CHECK((uint32_t)n == s.first.len, "content", "%s: %d bytes instead of %u", how, n, s.first.len); if (p) SIM_CHECK(!memcmp(p, s.second.data(), n), "content", "%s: the bytes of sample %llu changed", how, (unsigned long long)h.seq); }
  bool pop() {
    auto_lock l(q->get_lock()); size_t n = q->size(); SIM_CHECK(n == m.size(), "size", "%zu samples instead of %zu", n, m.size()); if (!n) return false;
    uint32_t how = sim::choose("popk", 5); int rd = -1;
    if (how == 1) { unsigned char *pb = nullptr; const Item *i = look(q, &rd, &pb, 0); Item c = *i; unsigned char *cp = new unsigned char[rd + 1]; memcpy(cp, pb, rd); check(c, cp, rd, "pick_next"); delete[] cp; if (sim::flip("del", 0.7)) { q->delete_item(); taken++; went(OVER + m.front().first.len); Q(m.pop_front()); } return true; }
    if (how == 2) { Item c = q->pop(nullptr, 0, &rd); check(c, nullptr, rd, "pop to find the size"); SIM_CHECK(q->size() == (int)n, "size", "a sample was removed although there was no buffer"); return true; }
    uint32_t need = m.front().first.len; uint32_t room = how == 3 && need ? need - 1 - sim::choose("small", need) : how == 4 ? need + sim::choose("more", 40) : need; unsigned char *mem = new unsigned char[room ? room : 1]; Item c = q->pop(mem, room, &rd); check(c, room >= need ? mem : nullptr, rd, "pop"); delete[] mem;
    size_t left = q->size(); if (room >= need) { SIM_CHECK(left == n - 1, "size", "%zu samples after taking one of %zu", left, n); taken++; went(OVER + m.front().first.len); Q(m.pop_front()); } else SIM_CHECK(left == n, "size", "a sample was removed although the buffer was too small"); return true;
  }
  void drain() { uint32_t k = 0; while (pop()) if (++k > 5000) sim::fail("livelock", "the queue never gets empty"); SIM_CHECK(m.empty(), "lost", "%zu samples lost", m.size()); }
  void bye() { sim::Quiet k; std::deque<Sample>().swap(m); std::deque<uint32_t>().swap(in); std::deque<uint32_t>().swap(out); }
};
template <class QT> void exact_threads(Exact<QT> &e, bool faults) {
  int np = 1 + sim::choose("np", 3); bool cons = sim::flip("cons", 0.7); uint32_t per = 1 + sim::choose("per", 12); std::vector<int> ids; bool stop = false; bool clr = sim::flip("clr", 0.1);
  for (int p = 0; p < np; p++) { int id = sim::go("producer", [&e, p, per, faults] { for (uint32_t i = 0; i < per; i++) { e.push(p, faults ? false : sim::flip("ret", 0.5), faults); if (sim::flip("own", 0.25)) e.pop(); if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 3000) * US); } }); Q(ids.push_back(id)); }
  int cid = -1; if (cons) cid = sim::go("consumer", [&] { while (!stop) { if (!e.pop()) sim::sleep(100 * US); else if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 3000) * US); } });
  for (int id : ids) sim::join(id); Q(stop = true); if (cid >= 0) sim::join(cid);
  if (clr) { auto_lock l(e.q->get_lock()); e.q->clear(); SIM_CHECK(e.q->size() == 0, "size", "samples in a cleared queue"); { sim::Quiet k; e.m.clear(); } e.since = 0; if (!faults) { e.push(0, true, false); } }
  e.drain(); sim::covered(hmix(e.lost * 64 + e.refused, e.passed * 1000 + e.cap)); Q(std::vector<int>().swap(ids));
}
// the same object with new memory
template <class QT, class QA> void again(Exact<QT> &e, QA &q) {
  if (!sim::flip("again", 0.2)) return; if (sim::flip("full", 0.5)) for (int i = 0; i < 3; i++) e.push(3, true, false);
  if (sim::flip("de", 0.5)) q.de_allocate(); uint32_t sz = qsize(); q.allocate(true, sz); e.cap = sz - 24; e.since = 0; Q(e.m.clear()); SIM_CHECK(q.size() == 0, "size", "samples in a queue with new memory"); for (int i = 0; i < 4; i++) e.push(3, true, false); e.drain();
}
}
SCENARIO(C22, exact, 3) {
  size_t base = sim::live_allocs(); { bool drops = sim::flip("drops", 0.6); Exact<cfixed_queue<Item>> e; uint32_t sz = qsize(); e.cap = sz - 24; e.drops = drops; e.grows = false; Aged<cfixed_queue<Item>> q(drops); q.allocate(true, sz); q.age(); e.q = &q; exact_threads(e, false); again(e, q); e.bye(); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
SCENARIO(C23, exact, 3) {
  size_t base = sim::live_allocs(); { bool f = sim::flip("faults", 0.6); sim::World &w = sim::world(); if (f) { static const double pf[] = {0.3, 0.1, 0.8}; w.p_alloc = pf[sim::choose("pf", 3)]; static const uint32_t mf[] = {1, 2, 3, 1000}; w.max_alloc_faults = mf[sim::choose("mf", 4)]; }
    Exact<grow_queue<Item>> e; uint32_t sz = qsize(); e.cap = sz - 24; e.drops = false; e.grows = true; Aged<grow_queue<Item>> q; q.allocate(true, sz); q.age(); e.q = &q; exact_threads(e, f);
    w.p_alloc = 0; for (int i = 0; i < 3; i++) e.push(9, false, false); e.drain(); again(e, q); e.bye(); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
namespace { // samples and numbers of samples which a small integer cannot count
const uint32_t tops[] = {40000, 33000, 66000, 140000}, rooms[] = {100000, 200000, 700000, 3000000};
template <class QT> void many(QT &q) { static const uint32_t ns[] = {300, 700, 33000, 66000}; uint32_t n = ns[sim::choose("n", sim::flip("many", 0.03) ? 4 : 2)] + sim::choose("nx", 600), keep = 1 + sim::choose("keep", 3), from = 0; uint32_t got = 0; unsigned char mem[8]; // the queue holds at least three of them
  for (uint32_t i = 0; i < n || from < n; i++) { if (i < n) { Item it; it.seq = i; it.prod = 0; it.len = 8; memcpy(mem, &it.seq, 8); bool ok = q.push(it, mem, 8, true); SIM_CHECK(ok, "refused", "sample %u was refused although there was room", i); }
    int sz = q.size(); SIM_CHECK(sz == (int)(std::min(i + 1, n) - from), "size", "%d samples instead of %u after %u were pushed", sz, std::min(i + 1, n) - from, std::min(i + 1, n));
    if (i >= n || i - from + 1 >= keep) { int rd = 0; uint64_t v = ~0ull; Item c = q.pop(mem, 8, &rd); memcpy(&v, mem, 8); SIM_CHECK(rd == 8 && c.seq == from && v == from, "order", "sample %llu (%d bytes) instead of %u", (unsigned long long)c.seq, rd, from); from++; got++; } }
  SIM_CHECK(q.size() == 0, "size", "%d samples in an empty queue", (int)q.size()); sim::covered(hmix(n, keep)); }
}
SCENARIO(C22, large, 1) {
  size_t base = sim::live_allocs(); if (sim::flip("manyk", 0.3)) { cfixed_queue<Item> q(sim::flip("drops", 0.5)); q.allocate(true, 24 + 3 * (OVER + 8) + sim::choose("room", 200)); many(q); }
  else { bool drops = sim::flip("drops", 0.6); Exact<cfixed_queue<Item>> e; e.top = sim::flip("rare", 0.15) ? tops[sim::choose("tops", 4)] : 700; uint32_t sz = rooms[sim::choose("rooms", 4)] + sim::choose("roomsd", 100); e.drops = drops; e.grows = false; cfixed_queue<Item> q(drops); if (sz > 3000000) { sz = 3000000; q.allocate(); } else q.allocate(true, sz); e.cap = sz - 24; e.q = &q; exact_threads(e, false); e.bye(); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
SCENARIO(C23, large, 1) {
  size_t base = sim::live_allocs(); if (sim::flip("manyk", 0.3)) { grow_queue<Item> q; q.allocate(true, 24 + OVER + 8 + sim::choose("room", 200)); many(q); }
  else { Exact<grow_queue<Item>> e; e.top = sim::flip("rare", 0.15) ? tops[sim::choose("tops", 4)] : 700; uint32_t sz = sim::flip("smallq", 0.5) ? qsize() : rooms[sim::choose("rooms", 2)]; e.drops = false; e.grows = true; grow_queue<Item> q; q.allocate(true, sz); e.cap = sz - 24; e.q = &q; exact_threads(e, false); e.bye(); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
namespace {
// nothing but the queue's own locking
struct Race { uint64_t passed[4] = {0, 0, 0, 0}, refused = 0, got = 0; int64_t last[4] = {-1, -1, -1, -1}; std::set<uint64_t> ok, seen; bool done = false; uint32_t clears = 0; std::map<uint64_t, uint32_t> barred; };
template <class QT> void race_threads(QT &q, bool keeps, bool faults, bool watch = false) {
  Race r; int np = 1 + sim::choose("np", 3); uint32_t per = 1 + sim::choose("per", 12); std::vector<int> ids;
  for (int p = 0; p < np; p++) { int id = sim::go("producer", [&, p] { for (uint32_t i = 0; i < per; i++) { Item it; it.prod = p; it.seq = i; it.len = ilen(); unsigned char mem[512]; { sim::Quiet k; std::string d = body(it); memcpy(mem, d.data(), it.len); } bool ok = false; if (faults) sim::enable_faults(true); try { ok = q.push(it, mem, it.len, sim::flip("ret", 0.5)); } catch (const std::exception &) {} { sim::Quiet k; if (ok) { r.passed[p]++; r.ok.insert(p * 1000 + i); } else r.refused++; memset(mem, 0xee, it.len); } if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 3000) * US); } }); Q(ids.push_back(id)); }
  int clid = -1; if (sim::flip("clear", 0.3)) { keeps = false; clid = sim::go("clearer", [&] { int n = 1 + sim::choose("clears", 4); for (int i = 0; i < n; i++) { sim::sleep(1 + sim::choose("clgap", 2000) * US); std::set<uint64_t> before; { sim::Quiet k; before = r.ok; } q.clear(); sim::Quiet k; r.clears++; for (uint64_t x : before) r.barred.insert(std::make_pair(x, r.clears)); std::set<uint64_t>().swap(before); } }); }
  auto take = [&]() -> bool { unsigned char mem[512]; Item c; int rd = 0; bool have = false; uint32_t clears = r.clears; if (keeps && sim::flip("direct", 0.4)) { if (q.size() > 0) { c = q.pop(mem, 512, &rd); have = true; } } // nobody else takes anything out
    else { auto_lock l(q.get_lock()); if (q.size() > 0) { c = q.pop(mem, 512, &rd); have = true; } }
    if (have) { sim::Quiet k; SIM_CHECK(c.prod < (uint32_t)np && c.seq < per && c.len <= 512, "content", "a sample nobody pushed came out"); SIM_CHECK((uint32_t)rd == c.len, "content", "%d bytes instead of %u", rd, c.len); std::string d = body(c); SIM_CHECK(!memcmp(d.data(), mem, c.len), "content", "the bytes of sample %llu of producer %u changed", (unsigned long long)c.seq, c.prod); SIM_CHECK((int64_t)c.seq > r.last[c.prod], "order", "sample %llu of producer %u after %lld", (unsigned long long)c.seq, c.prod, (long long)r.last[c.prod]); { auto b = r.barred.find(c.prod * 1000 + c.seq); SIM_CHECK(b == r.barred.end() || b->second > clears, "cleared", "sample %llu of producer %u came out after the queue was cleared", (unsigned long long)c.seq, c.prod); } r.last[c.prod] = c.seq; r.got++; r.seen.insert(c.prod * 1000 + c.seq); }
    return have; };
  int cid = sim::go("consumer", [&] { while (!r.done) { if (!take()) sim::sleep(100 * US); else if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 3000) * US); } });
  int oid = -1; if (watch && sim::flip("watch", 0.4)) oid = sim::go("observer", [&] { while (!r.done) { uint64_t most = np * per; int n = q.size(); SIM_CHECK(n >= 0 && (uint64_t)n <= most, "size", "%d samples in the queue, at most %llu were pushed", n, (unsigned long long)most); sim::sleep(1 + sim::choose("look", 300) * US); } });
  for (int id : ids) sim::join(id); if (clid >= 0) sim::join(clid); Q(r.done = true); sim::join(cid); if (oid >= 0) sim::join(oid); sim::enable_faults(false); sim::world().p_alloc = 0; uint32_t k = 0; while (take()) if (++k > 5000) sim::fail("livelock", "the queue never gets empty");
  { sim::Quiet q2; for (uint64_t x : r.seen) SIM_CHECK(r.ok.count(x), "refused", "a refused sample came out"); if (keeps) SIM_CHECK(r.seen == r.ok, "lost", "%zu samples came out of %zu accepted", r.seen.size(), r.ok.size()); r.seen.clear(); r.ok.clear(); r.barred.clear(); std::vector<int>().swap(ids); }
  sim::covered(hmix(r.refused, r.got));
}
}
SCENARIO(C22, race, 2) {
  size_t base = sim::live_allocs(); { bool drops = sim::flip("drops", 0.5); Aged<cfixed_queue<Item>> q(drops); q.allocate(true, qsize()); q.age(); race_threads(q, !drops, false); } SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
SCENARIO(C23, race, 2) {
  size_t base = sim::live_allocs(); { bool f = sim::flip("faults", 0.5); sim::World &w = sim::world(); if (f) { w.p_alloc = 0.2; w.max_alloc_faults = 1 + sim::choose("mf", 3); } Aged<grow_queue<Item>> q; q.allocate(true, qsize()); q.age(); race_threads(q, true, f, true); } SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
// ---------------------------------------------------------------- C24
namespace {
const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_b64(const std::string &s) { std::string o; size_t i = 0; for (; i + 3 <= s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63]; } size_t r = s.size() - i; if (r) { uint32_t v = (uint8_t)s[i] << 16 | (r > 1 ? (uint8_t)s[i + 1] << 8 : 0); o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += r > 1 ? B64[v >> 6 & 63] : '='; o += '='; } return o; }
size_t enc_len(size_t k) { static const size_t e[] = {0, 1, 2}; return k / 3 * 4 + e[k % 3]; }
uint32_t cut(uint32_t left) { static const uint32_t t[] = {5, 1, 3, 64, 1000}; if (left > 5000 && sim::flip("cutl", 0.7)) return 1 + sim::choose("cutn", left); uint32_t k = sim::choose("cut", t[sim::choose("cutk", 5)] + 1); return k > left ? left : k; }
struct B64Job { std::string data, text; };
void b64_encode(const std::string &data) {
  base64_encodestate *st = new base64_encodestate; base64_init_encodestate(st); std::string out; size_t at = 0; bool end = false;
  while (!end) { uint32_t n = cut((uint32_t)(data.size() - at)); size_t want = enc_len(at + n) - enc_len(at); char *in = new char[n + 1], *o = new char[want ? want : 1]; { sim::Quiet k; memcpy(in, data.data() + at, n); } int r = base64_encode_block(in, n, o, st); SIM_CHECK(r == (int)want, "length", "%d symbols for bytes %zu to %zu instead of %zu", r, at, at + n, want); Q(out.append(o, r)); delete[] in; delete[] o; at += n; if (at == data.size() && sim::flip("stop", 0.7)) end = true; if (sim::flip("gap", 0.1)) sim::sleep(1 + sim::choose("gapn", 500) * US); }
  size_t left = (data.size() % 3) ? 4 - enc_len(data.size() % 3) : 0; left += data.size() % 3 ? 1 - 0 : 0; left = data.size() % 3 == 1 ? 3 : data.size() % 3 == 2 ? 2 : 0; char *o = new char[left ? left : 1]; int r = base64_encode_blockend(o, st);
  { sim::Quiet k; SIM_CHECK(r == (int)(ref_b64(data).size() - out.size()) || r >= 0, "length", "end"); out.append(o, r); SIM_CHECK(out == ref_b64(data), "content", "the text of %zu bytes differs from the standard encoding", data.size()); }
  delete[] o; delete st; Q(std::string().swap(out));
}
void b64_decode(const std::string &data, const std::string &text) {
  base64_decodestate *st = new base64_decodestate; base64_init_decodestate(st); std::string out; size_t at = 0; bool end = false;
  while (!end) { uint32_t n = cut((uint32_t)(text.size() - at)); char *in = new char[n + 1], *o = new char[n + 1]; { sim::Quiet k; memcpy(in, text.data() + at, n); } size_t r = base64_decode_block(in, n, o, st); SIM_CHECK(r <= n, "length", "%zu bytes from %u symbols", r, n); Q(out.append(o, r)); delete[] in; delete[] o; at += n; if (at == text.size() && sim::flip("stop", 0.7)) end = true; if (sim::flip("gap", 0.1)) sim::sleep(1 + sim::choose("gapn", 500) * US); }
  { sim::Quiet k; size_t i = 0; while (i < out.size() && i < data.size() && out[i] == data[i]) i++; SIM_CHECK(out == data, "content", "%zu bytes instead of %zu, first difference at %zu", out.size(), data.size(), i); std::string().swap(out); }
  delete st;
}
// foreign characters between the symbols
std::string foreign(const std::string &t, uint64_t salt) { sim::Quiet k; std::string o; double p = sim::flip("foreign", 0.6) ? 0.3 : 0; if (t.size() > 5000) p = 0; uint32_t only = sim::flip("onlyk", 0.5) ? 1 + sim::choose("only", 255) : 0; for (size_t i = 0; i < t.size(); i++) { while (p > 0 && sim::flip("fc", p)) { unsigned char c = only ? only : (unsigned char)sim::choose("fch", 256); if (c == '=' || strchr(B64, c)) c = '\n'; o += (char)c; } o += t[i]; } return o; }
}
SCENARIO(C24, streams, 1) {
  size_t base = sim::live_allocs(); { int n = 1 + sim::choose("streams", 3); std::vector<int> ids; std::vector<B64Job> jobs; { sim::Quiet k; jobs.resize(n); for (int i = 0; i < n; i++) { static const uint32_t mx[] = {12, 4, 80, 600}; jobs[i].data = pattern(sim::choose("len", mx[sim::choose("lenk", 4)] + 1) + (!i && sim::flip("long", 0.02) ? 74990 + sim::choose("longn", 80000) : 0), i + 3); if (sim::flip("ff", 0.1)) jobs[i].data.assign(jobs[i].data.size(), (char)0xff); jobs[i].text = foreign(ref_b64(jobs[i].data), i); } }
    for (int i = 0; i < n; i++) { bool enc = sim::flip("enc", 0.4); int id = sim::go("stream", [&jobs, i, enc] { if (enc) b64_encode(jobs[i].data); else b64_decode(jobs[i].data, jobs[i].text); }); Q(ids.push_back(id)); sim::covered(hmix(jobs[i].data.size(), enc)); }
    for (int id : ids) sim::join(id); sim::Quiet k; std::vector<B64Job>().swap(jobs); std::vector<int>().swap(ids); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind");
}
// ---------------------------------------------------------------- C25
namespace {
uint32_t ref_crc(const unsigned char *p, size_t n) { uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) { c ^= (uint32_t)p[i] << 24; for (int k = 0; k < 8; k++) c = c & 0x80000000u ? (c << 1) ^ 0x04C11DB7u : c << 1; } return c; }
}
SCENARIO(C25, first_use, 1) {
  int n = 1 + sim::choose("threads", 3); std::vector<int> ids; bool shared = sim::flip("shared", 0.3), heavy = sim::flip("heavy", 0.4); CWinCrc *one = shared ? new CWinCrc : nullptr;
  for (int i = 0; i < n; i++) { int id = sim::go("crc", [i, one, heavy] { if (sim::flip("late", 0.3)) sim::sleep(1 + sim::choose("laten", 2000) * US); int k = 1 + sim::choose("k", 3); for (int j = 0; j < k; j++) { CWinCrc *c = one ? one : new CWinCrc; static const uint32_t mx[] = {9, 1, 4, 40, 600}; uint32_t len = sim::flip("long", 0.002) ? 33000 + sim::choose("longn", 150000) : heavy ? 200 + sim::choose("len", 500) : sim::choose("len", mx[sim::choose("lenk", 5)] + 1), off = sim::choose("off", 4); unsigned char *mem = new unsigned char[len + off + (len + off ? 0 : 1)]; { sim::Quiet q; std::string d = pattern(len, i * 10 + j + len); memcpy(mem + off, d.data(), len); } uint32_t got = c->crc_32(mem + off, len), want; { sim::Quiet q; want = ref_crc(mem + off, len); } SIM_CHECK(got == want, "crc", "%08x instead of %08x for %u bytes at alignment %u", got, want, len, off); sim::covered(hmix(len, off)); delete[] mem; if (!one) delete c; if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 300) * US); } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); if (one) delete one; Q(std::vector<int>().swap(ids));
}
// ---------------------------------------------------------------- C26
namespace {
const char *const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "BRT3", "<-0930>9:30", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45"};
void set_zone_and_clock() { sim::Quiet q; setenv("TZ", zones[sim::choose("zone", 8)], 1); tzset(); static const int64_t at[] = {1700000000, 1710054000 /* EST->EDT 2024-03-10 07:00Z */, 1730613600 /* EDT->EST */, 1711846800 /* CET->CEST */, 1729990800 /* CEST->CET */, 1, 951782400 /* 29 Feb 2000 */, 1735689600 /* new year */, 4102444800ll};
  int64_t s = at[sim::choose("at", 9)] + (int64_t)sim::choose("ats", 3) - 1; static const int64_t ns[] = {0, 999999999, 999999000, 1, 500000000, 999900000, 99}; if (s < 0) s = 0; if (sim::flip("rnd", 0.3)) s = sim::pick_u64("rnds") % 4000000000ull; sim::set_wall_ns(s * 1000000000ll + ns[sim::choose("ns", 7)]); }
struct Truth { tm t; long off; int64_t h; };
Truth truth(int64_t h, bool local) { Truth r; time_t s = h / 10000000; if (local) localtime_r(&s, &r.t); else gmtime_r(&s, &r.t); r.off = local ? r.t.tm_gmtoff / 60 : 0; r.h = h; return r; }
void check_stamp(const Ctime &c, bool local, int64_t lo, int64_t hi, bool bounded, const char *how) {
  int64_t h = c.TotalHNano(); const SYSTEMTIME s = c.get_Time(); int64_t off = c.GetUTCOffset(); Cstring x = c.ToXml(); Cstring d = c.ToDateString(), tt = c.ToTimeString();
  { sim::Quiet q; if (bounded) SIM_CHECK(h * 100 >= lo - 99 && h * 100 <= hi, "instant", "%s: %lld.%07lld is not between %lld and %lld ns", how, (long long)(h / 10000000), (long long)(h % 10000000), (long long)lo, (long long)hi);
    Truth t = truth(h, local); SIM_CHECK(s.wSecond == t.t.tm_sec && s.wMinute == t.t.tm_min && s.wHour == t.t.tm_hour && s.wDay == t.t.tm_mday && s.wMonth == t.t.tm_mon && s.wYear == t.t.tm_year && s.wDayOfWeek == t.t.tm_wday, "fields", "%s: the fields %02u:%02u:%02u %u/%u/%u do not belong to the instant %lld (%02d:%02d:%02d)", how, s.wHour, s.wMinute, s.wSecond, s.wDay, s.wMonth, s.wYear, (long long)h, t.t.tm_hour, t.t.tm_min, t.t.tm_sec);
    SIM_CHECK(off == t.off, "offset", "%s: %lld minutes from UTC instead of %ld in %s", how, (long long)off, t.off, getenv("TZ"));
    char b[160], z[24]; long o = t.off; if (!o) snprintf(z, sizeof z, "Z"); else snprintf(z, sizeof z, "%c%02ld:%02ld", o < 0 ? '-' : '+', labs(o) / 60, labs(o) % 60); snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03lld%s", t.t.tm_year + 1900, t.t.tm_mon + 1, t.t.tm_mday, t.t.tm_hour, t.t.tm_min, t.t.tm_sec, (long long)(h % 10000000 / 10000), z);
    SIM_CHECK(!strcmp(b, (const char *)x), "text", "%s: %s instead of %s", how, (const char *)x, b); 
    std::string full(b); SIM_CHECK(full.substr(0, 10) == (const char *)d && full.substr(11, 8) == (const char *)tt, "text", "%s: %s %s instead of %s", how, (const char *)d, (const char *)tt, b); }
}
void stamps(bool jumps) {
  for (int k = 0, n = 1 + sim::choose("stamps", 3); k < n; k++) { bool local = sim::flip("local", 0.6); int64_t lo = sim::wall_ns(); Ctime c(local); int64_t hi = sim::wall_ns(); check_stamp(c, local, lo, hi, !jumps, "now"); sim::covered(hmix(lo, local));
    if (sim::flip("wait", 0.5)) sim::sleep(1 + sim::choose("waitn", 5) * 700 * MS);
    switch (sim::choose("then", 5)) {
    case 0: { int64_t a = sim::wall_ns(); bool l2 = sim::flip("local2", 0.5); c.ResetToNow(l2); int64_t b = sim::wall_ns(); check_stamp(c, l2, a, b, !jumps, "reset"); break; }
    case 1: { Ctime e(local); int64_t d = e.TotalHNano() - c.TotalHNano(); SYSTEMTIME cs = c.get_Time(), es = e.get_Time(); SIM_CHECK(e.MilliSeconds(&cs) == d / 10000 && c.MilliSeconds(&es) == -d / 10000, "elapsed", "%lld and %lld ms between two stamps %lld apart", (long long)e.MilliSeconds(&cs), (long long)c.MilliSeconds(&es), (long long)d); SIM_CHECK(e.Seconds(&cs) == d / 10000000 && c.Seconds(&es) == -d / 10000000 && e.Minutes(&cs) == d / 600000000 && e.Hours(&cs) == d / 36000000000ll, "elapsed", "%lld s, %lld min between two stamps %lld apart", (long long)e.Seconds(&cs), (long long)e.Minutes(&cs), (long long)d); SIM_CHECK(e.TotalMilliseconds() == e.TotalHNano() / 10000 && e.AddMilliSeconds(5) == e.TotalHNano() / 10000 + 5, "elapsed", "milliseconds"); break; }
    case 2: { bool reset = sim::flip("reset", 0.5); Ctime e(false); int64_t eh = e.TotalHNano(); int64_t a = sim::wall_ns(); uint64_t d = clock_elapsed(e, reset); int64_t b = sim::wall_ns(); if (!jumps) SIM_CHECK((int64_t)d * 100 + eh * 100 >= a - 199 && (int64_t)d * 100 + eh * 100 <= b, "elapsed", "%llu elapsed", (unsigned long long)d); if (reset) check_stamp(e, false, a, b, !jumps, "elapsed"); else SIM_CHECK(e.TotalHNano() == eh, "elapsed", "the start changed"); break; }
    case 3: { int64_t a = sim::wall_ns(); int64_t off = Ctime::GetLocalOffset(); int64_t b = sim::wall_ns(); if (!jumps) { sim::Quiet q; long o1 = truth(a / 100, true).off, o2 = truth(b / 100, true).off; SIM_CHECK(off == o1 || off == o2, "offset", "local offset %lld instead of %ld in %s", (long long)off, o1, getenv("TZ")); } break; }
    } }
}
}
SCENARIO(C26, clock, 3) {
  set_zone_and_clock(); sim::World &w = sim::world(); w.p_tick = 0.5; bool jumps = sim::flip("jumps", 0.3); if (jumps) w.p_jump = 0.3; sim::enable_faults(true); stamps(jumps); sim::enable_faults(false);
}
SCENARIO(C26, dates, 1) { // a date is not a reading of the clock
  sim::limits().max_sim_ns = 100000 * SEC; set_zone_and_clock(); sim::World &w = sim::world(); w.p_tick = 0.3; sim::enable_faults(true);
  struct Date { int y, mo, d, h, mi, s, ms; bool text, local; int64_t ticks() const { tm t; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; return (int64_t)timegm(&t) * 10000000 + ms * 10000; }
    int64_t instant(long *off) const { tm t; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; t.tm_isdst = -1; time_t r = mktime(&t); *off = t.tm_gmtoff / 60; return (int64_t)r * 10000000 + ms * 10000; } } a[2];
  Ctime *c[2]; for (int i = 0; i < 2; i++) { Date &x = a[i]; char b[64], given[64]; { sim::Quiet q; static const int ys[] = {1904, 1970, 2000, 2024, 1969, 2038, 2100}; x.y = sim::flip("year", 0.6) ? ys[sim::choose("yearn", 7)] : 1902 + sim::choose("yearr", 300); x.mo = 1 + sim::choose("mon", 12); x.d = 1 + sim::choose("day", 28); if (sim::flip("leap", 0.1)) { x.y = 2024; x.mo = 2; x.d = 29; } x.text = sim::flip("text", 0.6); x.local = x.text && sim::flip("local", 0.5); if (x.text) { x.h = sim::choose("h", 24); x.mi = sim::choose("mi", 60); x.s = sim::choose("s", 60); x.ms = sim::choose("ms", 1000); } else x.h = x.mi = x.s = x.ms = 0; static const int ends[] = {4, 7, 10, 13, 16, 19, 23}; int k = x.text && sim::flip("short", 0.2) ? sim::choose("parts", 6) : 6; if (k < 6) x.ms = 0; if (k < 5) x.s = 0; if (k < 4) x.mi = 0; if (k < 3) x.h = 0; if (k < 2) x.d = 1; if (k < 1) x.mo = 1; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%03d", x.y, x.mo, x.d, x.h, x.mi, x.s, x.ms); memcpy(given, b, sizeof b); given[ends[k]] = 0; }
    c[i] = x.text ? new Ctime(given, x.local) : new Ctime(x.y, x.mo, x.d);
    Cstring d = c[i]->ToDateString(), t = c[i]->ToTimeString(), ms = c[i]->get_MillisecondsString(); int64_t h = c[i]->TotalHNano(), off = c[i]->GetUTCOffset(); SYSTEMTIME s = c[i]->get_Time();
    sim::Quiet q; std::string shown = std::string((const char *)d) + " " + (const char *)t + "." + (const char *)ms; SIM_CHECK(shown == b, "date", "the date %s is shown as %s", b, shown.c_str()); long o = 0; int64_t want = x.local ? x.instant(&o) : x.ticks(); tm back; if (x.local) { time_t e = want < 0 ? (want - 9999999) / 10000000 : want / 10000000; localtime_r(&e, &back); }
    bool gap = x.local && (back.tm_hour != x.h || back.tm_min != x.mi); bool fold = false; if (x.local) { time_t e = want / 10000000; tm u; for (int k = -2; k <= 2; k++) { time_t v = e + k * 1800; localtime_r(&v, &u); fold |= u.tm_gmtoff / 60 != o; } } // hours which do not exist, or twice, are anybody's guess
    if (!gap && !fold) { SIM_CHECK(h == want, "instant", "%s in %s has %lld ticks instead of %lld", b, x.local ? getenv("TZ") : "UTC", (long long)h, (long long)want); SIM_CHECK(off == o, "offset", "%s is %lld minutes from UTC instead of %ld in %s", b, (long long)off, o, getenv("TZ")); }
    time_t day = x.ticks() < 0 ? (x.ticks() - 9999999) / 10000000 : x.ticks() / 10000000; tm u; gmtime_r(&day, &u); SIM_CHECK(s.wDayOfWeek == u.tm_wday, "date", "day %u of the week instead of %d at %s", s.wDayOfWeek, u.tm_wday, b); }
  SYSTEMTIME s0 = c[0]->get_Time(), s1 = c[1]->get_Time(); int64_t diff = (a[1].ticks() - a[0].ticks()) / 10000; { int64_t m = c[1]->MilliSeconds(&s0); SIM_CHECK(m == diff && c[0]->MilliSeconds(&s1) == -diff, "elapsed", "%lld ms between two dates %lld apart in %s", (long long)m, (long long)diff, getenv("TZ")); SIM_CHECK(c[1]->Seconds(&s0) == diff / 1000 && c[1]->Minutes(&s0) == diff / 60000 && c[1]->Hours(&s0) == diff / 3600000 && c[1]->Days(&s0) == diff / 86400000, "elapsed", "%lld days between two dates %lld ms apart", (long long)c[1]->Days(&s0), (long long)diff); }
  { int64_t lo = sim::wall_ns() / 1000000; Ctime now(false); int64_t hi = sim::wall_ns() / 1000000, b = a[0].ticks() / 10000, m = now.MilliSeconds(&s0); SIM_CHECK(m >= lo - b - 1 && m <= hi - b + 1, "elapsed", "%lld ms from a date to now instead of %lld in %s", (long long)m, (long long)(lo - b), getenv("TZ")); }
  { Ctime was(false); sim::sleep(sim::choose("hours", 4) * 3600ull * SEC + 1); int64_t t0 = sim::wall_ns() / 100, h0 = was.TotalHNano(); int64_t hrs = was.Hours(), days = was.Days(); int64_t t1 = sim::wall_ns() / 100; SIM_CHECK(hrs >= (t0 - h0) / 36000000000ll && hrs <= (t1 - h0) / 36000000000ll && days >= (t0 - h0) / 864000000000ll && days <= (t1 - h0) / 864000000000ll, "elapsed", "%lld hours, %lld days since %lld ticks ago", (long long)hrs, (long long)days, (long long)(t1 - h0)); }
  { int64_t d = sim::flip("far", 0.5) ? (a[1].ticks() - a[0].ticks()) : (int64_t)sim::choose("ticks", 2000000000) * (1 + sim::choose("ticksm", 40)) * (sim::flip("ago", 0.3) ? -1 : 1); Cstring t = ALX::hns(d); sim::Quiet q; char b[64]; int64_t u = d < 0 ? -d : d; snprintf(b, sizeof b, "%s%02lld:%02d:%02d.%03d", d < 0 ? "-" : "", (long long)(u / 36000000000ll), (int)(u / 600000000 % 60), (int)(u / 10000000 % 60), (int)(u / 10000 % 1000)); SIM_CHECK(!strcmp(b, t), "duration", "%lld ticks are shown as %s instead of %s", (long long)d, (const char *)t, b); }
  sim::enable_faults(false); sim::covered(hmix(a[0].ticks(), a[1].ticks())); delete c[0]; delete c[1];
}
SCENARIO(C26, threads, 2) {
  set_zone_and_clock(); sim::World &w = sim::world(); w.p_tick = 0.3; w.max_stall = 3 * SEC; sim::enable_faults(true); int n = 2 + sim::choose("nt", 2); std::vector<int> ids; for (int i = 0; i < n; i++) { int id = sim::go("stamper", [] { stamps(false); }); Q(ids.push_back(id)); } for (int id : ids) sim::join(id); sim::enable_faults(false); Q(std::vector<int>().swap(ids));
}
SCENARIO(C26, laps, 1) { // no time is lost between the laps of a stopwatch
  set_zone_and_clock(); sim::World &w = sim::world(); w.p_tick = 0.5; bool jumps = sim::flip("jumps", 0.3); if (jumps) w.p_jump = 0.3; sim::enable_faults(true); { Ctime c(false); int64_t start = c.TotalHNano(); uint64_t sum = 0; int n = 1 + sim::choose("n", 6); uint32_t looks = 0;
    for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.5)) sim::sleep(1 + sim::choose("gapn", 2000) * MS); if (sim::flip("look", 0.3)) { int64_t was = c.TotalHNano(); clock_elapsed(c, false); looks++; SIM_CHECK(c.TotalHNano() == was, "lap", "looking at a stopwatch changed it"); } sum += clock_elapsed(c); SIM_CHECK(sum == (uint64_t)(c.TotalHNano() - start), "lap", "%d laps make %llu ticks, but the stopwatch has moved on by %lld", i + 1, (unsigned long long)sum, (long long)(c.TotalHNano() - start)); }
    sim::covered(hmix(sum, n * 8 + looks)); } sim::enable_faults(false);
}
// ---------------------------------------------------------------- C27
namespace {
const char *const paths[] = {"/sim/d1", "/sim/d1/d2", "/sim/file", "/sim/none/d", "/sim/d3", "/sim/file/d"};
uint64_t injected() { sim::Quiet q; uint64_t n = 0; for (auto &o : sim::fs_log()) n += o.injected; return n; }
}
SCENARIO(C27, directories, 3) {
  { sim::Quiet q; sim::disk_put("/sim/file", "x"); if (sim::flip("pre", 0.3)) sim::disk_mkdir("/sim/d1"); if (sim::flip("pre3", 0.3)) sim::disk_mkdir("/sim/d3"); } sim::World &w = sim::world(); bool faults = sim::flip("faults", 0.5); if (faults) { w.p_syscall = 0.3; w.p_stat = sim::flip("st", 0.3) ? 0.3 : 0; w.max_faults = 1 + sim::choose("mf", 3); } sim::enable_faults(faults);
  int n = 1 + sim::choose("nt", 3); uint32_t failed = 0; std::vector<int> ids;
  for (int i = 0; i < n; i++) { int id = sim::go("maker", [&failed, faults] { for (int k = 0, m = 1 + sim::choose("m", 4); k < m; k++) { const char *p = paths[sim::choose("path", 6)]; bool before, parent; { sim::Quiet q; before = sim::disk_is_dir(p); std::string par(p); par = par.substr(0, par.rfind('/')); parent = sim::disk_is_dir(par.c_str()); } bool file = !strcmp(p, "/sim/file"); bool ok = true; try { create_directory(p); } catch (const std::exception &) { ok = false; }
      bool dir; Q(dir = sim::disk_is_dir(p)); if (ok) SIM_CHECK(dir, "not-there", "%s was reported to exist but there is no such directory", p); if (!ok) { Q(failed++); if (!faults) SIM_CHECK(!before && (!parent || file), "refused", "%s was reported to fail although it %s", p, before ? "existed" : "could be created"); } } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); sim::enable_faults(false); sim::covered(hmix(failed, injected())); Q(std::vector<int>().swap(ids));
  // once the faults stop it works
  create_directory("/sim/d1"); create_directory("/sim/d1/d2"); SIM_CHECK(sim::disk_is_dir("/sim/d1/d2"), "not-there", "no directory");
}
SCENARIO(C27, existing, 2) { // an existing directory is a success, whoever made it
  sim::World &w = sim::world(); w.p_slow = 0.7; bool pre = sim::flip("pre", 0.4); if (pre) Q(sim::disk_mkdir("/sim/x")); int n = 1 + sim::choose("nt", 3); std::vector<int> ids; for (int i = 0; i < n; i++) { int id = sim::go("maker", [] { for (int k = 0, m = 1 + sim::choose("m", 2); k < m; k++) { try { create_directory("/sim/x"); } catch (const std::exception &x) { sim::fail("refused", "creating an existing directory failed: %s", x.what()); } SIM_CHECK(sim::disk_is_dir("/sim/x"), "not-there", "no directory"); } }); Q(ids.push_back(id)); } for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids));
}
SCENARIO(C27, links, 2) { // symbolic links, pipes and devices in the place of a directory or a file
  { sim::Quiet q; sim::disk_mkdir("/sim/dir"); sim::disk_put("/sim/dir/f", "3"); sim::disk_put("/sim/file", "x"); sim::disk_link("/sim/ldir", "/sim/dir"); sim::disk_link("/sim/lfile", "/sim/file"); sim::disk_link("/sim/dead", "/sim/nowhere"); sim::disk_special("/sim/pipe", S_IFIFO); sim::disk_special("/sim/dev", S_IFCHR); sim::disk_special("/sim/sock", S_IFSOCK); }
  static const char *const all[] = {"/sim/ldir", "/sim/lfile", "/sim/dead", "/sim/pipe", "/sim/dev", "/sim/sock", "/sim/ldir/sub", "/sim/dir", "/sim/lfile/sub"}; sim::World &w = sim::world(); w.p_slow = 0.2; int n = 1 + sim::choose("nt", 2); std::vector<int> ids; uint32_t gone[9] = {0}, made = 0; bool del = sim::flip("del", 0.5);
  for (int i = 0; i < n; i++) { int id = sim::go("maker", [&] { for (int k = 0, m = 1 + sim::choose("m", 5); k < m; k++) { uint32_t x = sim::choose("path", 9); bool ok = true; sim::covered(hmix(x, k));
      if (!del || sim::flip("make", 0.5)) { bool was; Q(was = sim::disk_exists(all[x])); try { create_directory(all[x]); } catch (const std::exception &) { ok = false; } sim::Quiet q; bool there = sim::disk_is_dir(all[x]); made += ok; if (ok) SIM_CHECK(there || del, "not-there", "%s was reported to be a directory", all[x]); else SIM_CHECK(!(x == 0 || x == 6 || x == 7) || (del && (!was || x != 7)), "refused", "%s was reported to fail although it is a directory, or could be", all[x]); }
      else if (x != 6 && x != 7 && x != 8) { bool d; Q(d = sim::disk_is_dir(all[x])); try { delete_file(all[x]); } catch (const std::exception &) { ok = false; } (void)d; sim::Quiet q; if (ok) gone[x]++; } } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids));
  SIM_CHECK(sim::disk_get("/sim/dir/f") == "3" && sim::disk_get("/sim/file") == "x", "deleted", "deleting a link deleted what it names"); if (!del) SIM_CHECK(!sim::disk_exists("/sim/nowhere"), "made", "another directory was made");
  if (!made) for (int x = 0; x < 6; x++) { bool there; Q(there = sim::disk_exists(all[x])); SIM_CHECK(gone[x] <= 1 && there == !gone[x], there ? "still-there" : "deleted", "%s was reported deleted %u times and %s", all[x], gone[x], there ? "is there" : "is not there"); }
}
SCENARIO(C27, deletion, 3) {
  static const char *const fs[] = {"/sim/a", "/sim/b", "/sim/dir", "/sim/gone"}; { sim::Quiet q; sim::disk_put("/sim/a", "1"); sim::disk_put("/sim/b", "2"); sim::disk_mkdir("/sim/dir"); sim::disk_put("/sim/dir/f", "3"); } sim::World &w = sim::world(); bool faults = sim::flip("faults", 0.5); if (faults) { w.p_syscall = 0.3; w.max_faults = 1 + sim::choose("mf", 3); } sim::enable_faults(faults);
  int n = 1 + sim::choose("nt", 3); std::vector<int> ids; uint32_t okn[4] = {0, 0, 0, 0}, bad[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) { int id = sim::go("deleter", [&] { for (int k = 0, m = 1 + sim::choose("m", 3); k < m; k++) { uint32_t x = sim::choose("path", 4); bool ok = true; try { delete_file(fs[x]); } catch (const std::exception &) { ok = false; } sim::Quiet q; if (ok) { okn[x]++; SIM_CHECK(!sim::disk_exists(fs[x]), "still-there", "%s was reported deleted but is still there", fs[x]); } else bad[x]++; } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); sim::enable_faults(false); for (int x = 0; x < 4; x++) { SIM_CHECK(okn[x] <= (x < 2 ? 1u : 0u), "refused-ok", "%s was reported deleted %u times", fs[x], okn[x]); if (!faults && x < 2 && (okn[x] + bad[x])) SIM_CHECK(okn[x] == 1, "failed", "%s could be deleted but that was reported to fail", fs[x]); if (!okn[x] && x < 3) SIM_CHECK(sim::disk_exists(fs[x]), "deleted", "%s was deleted but that was not reported", fs[x]); }
  SIM_CHECK(sim::disk_get("/sim/dir/f") == "3", "deleted", "another file was deleted"); sim::covered(hmix(okn[0] * 2 + okn[1], bad[0] * 8 + bad[1])); Q(std::vector<int>().swap(ids));
}
// ---------------------------------------------------------------- C28
namespace {
template <class T> void buffer_ops(bool faults) {
  size_t base = sim::live_allocs(); { std::vector<T> m, m2; uint32_t init = 1 + sim::choose("init", sim::flip("big", 0.2) ? 300 : 12); CBuffer<T> *b = new CBuffer<T>(init); CBuffer<T> *o = new CBuffer<T>(1 + sim::choose("oinit", 9)); uint64_t salt = 1; bool huge = sim::flip("huge", 0.02);
    auto gen = [&](uint32_t n, std::vector<T> &v) { for (uint32_t i = 0; i < n; i++) v.push_back((T)hmix(salt++, 5)); };
    int steps = 1 + sim::choose("steps", 25); uint32_t fails = 0;
    for (int s = 0; s < steps; s++) { uint32_t op = sim::choose("op", 9), n = 1 + sim::choose("n", sim::flip("nbig", 0.2) ? 200 : 14); if (huge && op < 4 && sim::flip("nhuge", 0.4)) n += 20000 + sim::choose("nhugen", 50000); std::vector<T> v; bool threw = false; T *ob = b->get(); 
      { sim::Quiet q; gen(n, v); } T *src = new T[n]; { sim::Quiet q; memcpy((void *)src, v.data(), n * sizeof(T)); }
      if (faults) sim::enable_faults(true);
      try { switch (op) {
        case 0: case 1: case 2: b->add(src, n); sim::enable_faults(false); Q(m.insert(m.end(), v.begin(), v.end())); break;
        case 3: if (sim::flip("monster", 0.15)) { sim::enable_faults(false); static const size_t ms[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 100, SIZE_MAX / 2, SIZE_MAX / 4, (size_t)1 << 62}; size_t big = ms[sim::choose("monsters", 6)] - sim::choose("monsterd", 40); bool told = false; try { b->prepare(big); } catch (const std::bad_alloc &) { told = true; } SIM_CHECK(told, "error", "room for %zu elements, it seems", big); break; } // more than there is
          { b->prepare(n); sim::enable_faults(false); SIM_CHECK(b->getFree() >= n, "room", "%zu free after preparing %u", (size_t)b->getFree(), n); uint32_t k = sim::choose("k", n + 1); memcpy((void *)b->getCurrent(), src, k * sizeof(T)); b->updatePosition(k); Q(m.insert(m.end(), v.begin(), v.begin() + k)); break; }
        case 4: sim::enable_faults(false); if (sim::flip("rs", 0.4)) { ResetBuffer<T> r(*b); r.Reset(); Q(m.clear()); for (size_t i = 0; i < b->getSize(); i++) if (b->get()[i] != 0) sim::fail("content", "element %zu of %zu is not zero after a reset", i, (size_t)b->getSize()); } break;
        case 5: { sim::enable_faults(false); ResetBuffer<T> r(b); uint32_t k = sim::choose("k", (uint32_t)m.size() + 1); bool zero = sim::flip("zero", 0.5); if (sim::flip("mb", 0.5)) r.MoveBack(k), zero = false; else r.Back(k, zero); if (zero) for (uint32_t i = 0; i < k; i++) SIM_CHECK(b->getCurrent()[i] == 0, "content", "not zeroed"); Q(m.resize(m.size() - k)); break; }
        case 6: { sim::enable_faults(false); o->add(src, n); Q(m2.insert(m2.end(), v.begin(), v.end())); if (faults) sim::enable_faults(true); *b += *o; sim::enable_faults(false); Q(m.insert(m.end(), m2.begin(), m2.end())); break; }
        case 7: if (!m.empty() && sim::flip("part", 0.5)) { uint32_t at = sim::choose("at", (uint32_t)m.size()), k = 1 + sim::choose("k", std::min<uint32_t>(200, (uint32_t)m.size() - at)); b->add(b->get() + at, k); sim::enable_faults(false); sim::Quiet q; std::vector<T> c(m.begin() + at, m.begin() + at + k); m.insert(m.end(), c.begin(), c.end()); } else if (m.size() < 4000) { *b += *b; sim::enable_faults(false); sim::Quiet q; std::vector<T> c(m); m.insert(m.end(), c.begin(), c.end()); } break;
        case 8: { sim::enable_faults(false); uint32_t at = sim::choose("at", (uint32_t)m.size() + 5), k = sim::choose("k", n + 1); T *dst = new T[k + 1]; unsigned long rd = 77; bool ok = b->ReadBuffer(dst, k, rd, at); uint32_t want = at < m.size() ? std::min<uint32_t>(k, (uint32_t)m.size() - at) : 0; if (ok) SIM_CHECK(rd == want, "read", "%lu elements read at %u of %zu instead of %u", rd, at, m.size(), want); else SIM_CHECK(at > m.size(), "read", "reading %u at %u of %zu refused", k, at, m.size()); if (ok) { sim::Quiet q; SIM_CHECK(!want || !memcmp((void *)dst, &m[at], want * sizeof(T)), "content", "read"); } delete[] dst; break; }
      } } catch (const std::bad_alloc &) { threw = true; } catch (const std::exception &) { threw = true; }
      sim::enable_faults(false); { sim::Quiet q; memset((void *)src, 0xee, n * sizeof(T)); } delete[] src; (void)ob;
      if (threw) { SIM_CHECK(faults, "error", "an append failed although there is memory"); fails++; }
      { sim::Quiet q; SIM_CHECK(b->getFull() == m.size() && b->size() == m.size(), "size", "%zu elements instead of %zu after operation %u%s", (size_t)b->getFull(), m.size(), op, threw ? ", which failed" : ""); SIM_CHECK(b->getSize() >= m.size() && b->getFree() == b->getSize() - m.size(), "size", "free"); std::vector<T>().swap(v); }
      T *p = b->get(); uint32_t step = m.size() > 20000 ? 97 : m.size() > 600 ? 7 : 1; for (uint32_t i = 0; i < m.size(); i += step) if (p[i] != m[i]) sim::fail("content", "element %u of %zu changed after operation %u%s", i, m.size(), op, threw ? ", which failed" : ""); }
    sim::world().p_alloc = 0; { T *x = new T[3]; { sim::Quiet q; x[0] = x[1] = x[2] = (T)7; } b->add(x, 3); delete[] x; SIM_CHECK(b->getFull() == m.size() + 3 && b->get()[m.size() + 2] == (T)7, "size", "unusable at the end"); }
    sim::covered(hmix(m.size(), fails)); delete b; delete o; sim::Quiet q; std::vector<T>().swap(m); std::vector<T>().swap(m2); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind");
}
}
SCENARIO(C28, bytes, 3) { bool f = sim::flip("faults", 0.6); if (f) { static const double pf[] = {0.3, 0.1, 0.9}; sim::world().p_alloc = pf[sim::choose("pf", 3)]; sim::world().max_alloc_faults = 1 + sim::choose("mf", 5); } buffer_ops<unsigned char>(f); }
SCENARIO(C28, words, 1) { bool f = sim::flip("faults", 0.6); if (f) { sim::world().p_alloc = 0.3; sim::world().max_alloc_faults = 1 + sim::choose("mf", 5); } buffer_ops<uint32_t>(f); }

// ---------------------------------------------------------------- C31
namespace {
typedef CstringT<char> Str;
const char *text_of(Str &s) { char *p = s.operator char *(); return p ? p : ""; }
std::string some_text(uint32_t max) { sim::Quiet q; static const char al[] = "ab,-_%0F9 <>"; uint32_t n = sim::choose("tl", max + 1); std::string r; for (uint32_t i = 0; i < n; i++) r += al[sim::choose("tc", 12)]; return r; }
struct Cpy { char *p; Cpy(const std::string &s) { p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); } ~Cpy() { delete[] p; } }; // an exactly sized copy, which goes away
void same(Str &s, const std::string &m, const char *after) { const char *p = text_of(s); size_t n = m.size(); for (size_t i = 0; i <= n; i++) { char c = p[i]; if (c != (i < n ? m[i] : 0)) { sim::Quiet q; sim::fail("content", "character %zu of %zu is wrong after %s", i, n, after); } } SIM_CHECK(s.size() == n && s.len() == n, "size", "size %u, length %zu instead of %zu after %s", (unsigned)s.size(), s.len(), n, after); }
std::vector<std::string> pieces(const std::string &t, const std::string &sep) { std::vector<std::string> r; size_t b = 0, e; while (!sep.empty() && (e = t.find(sep, b)) != std::string::npos) { r.push_back(t.substr(b, e - b)); b = e + sep.size(); } r.push_back(t.substr(b)); return r; }
}
SCENARIO(C31, building, 4) {
  bool faults = sim::flip("faults", 0.5); if (faults) { static const double pf[] = {0.2, 0.05, 0.6}; sim::world().p_alloc = pf[sim::choose("pf", 3)]; sim::world().max_alloc_faults = 1 + sim::choose("mf", 4); }
  size_t base = sim::live_allocs(); { std::string m, t; Q(m = some_text(20); t.reserve(64)); Str *s; { Cpy c(m); s = new Str(c.p); } same(*s, m, "the construction"); Csplitter *split = new Csplitter; uint32_t fails = 0;
    int steps = 1 + sim::choose("steps", 20);
    for (int k = 0; k < steps; k++) { uint32_t op = sim::choose("op", 22), v = sim::choose("v", 4); std::string before; Q(before = m; t = some_text(sim::flip("long", 0.2) ? 120 : 12)); Cpy c(t); bool threw = false; std::string want; char what[24]; snprintf(what, sizeof what, "operation %u", op);
      Str *r = nullptr; Str *other = new Str(c.p); std::vector<std::string> ws; uint64_t num; { sim::Quiet q; static const uint64_t ns[] = {0, 1, 7, 2147483647ull, 2147483648ull, 4294967295ull, 1ull << 40, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}; num = ns[sim::choose("num", 10)]; }
      if (faults) sim::enable_faults(true);
      try { switch (op) {
        case 0: case 1: if (v < 2) *s += (const char *)c.p; else if (v == 2) *s += *other; else s->append(c.p); sim::enable_faults(false); Q(m += t); break;
        case 2: if (v == 0) *s += (int64_t)num; else if (v == 1) *s += (uint64_t)num; else if (v == 2) *s += (int)num; else *s += (unsigned)num; sim::enable_faults(false); Q(m += v == 0 ? std::to_string((int64_t)num) : v == 1 ? std::to_string(num) : v == 2 ? std::to_string((int)num) : std::to_string((unsigned)num)); break;
        case 3: { wchar_t w[130]; { sim::Quiet q; for (size_t i = 0; i <= t.size(); i++) w[i] = t.c_str()[i]; }
          if (!t.empty() && sim::flip("foreign", 0.15)) { sim::enable_faults(false); w[sim::choose("foreignat", (uint32_t)t.size())] = 0x20ac; bool told = false; try { *s += (const wchar_t *)w; } catch (const std::exception &) { told = true; } SIM_CHECK(told, "error", "text which this string cannot hold was not refused"); break; }
          if (v == 0) { CstringT<wchar_t> ws(w); *s += ws; } else *s += (const wchar_t *)w; sim::enable_faults(false); Q(m += t); break; }
        case 4: { float f = (float)((int)sim::choose("fl", 2001) - 1000) / 8; *s += f; sim::enable_faults(false); sim::Quiet q; char b[64]; snprintf(b, sizeof b, "%.6f", f); m += b; break; }
        case 5: { std::string h; { sim::Quiet q; static const char H[] = "0123456789ABCDEF"; for (unsigned char ch : t) { h += H[ch >> 4]; h += H[ch & 15]; } } bool done = false; try { s->append_hex_buffer((unsigned char *)c.p, (uint32_t)t.size()); done = true; } catch (const std::exception &) { sim::enable_faults(false); sim::Quiet q; threw = true; size_t a = s->len(); if (a >= m.size() && a <= m.size() + h.size()) m += h.substr(0, a - m.size()); before = m; } sim::enable_faults(false); if (done) Q(m += h); sim::Quiet q; std::string().swap(h); break; }
        case 6: if (m.size() < 600) { if (v < 2) *s += *s; else { size_t at = m.empty() ? 0 : sim::choose("at", (uint32_t)m.size()); *s += (const char *)(text_of(*s) + at); sim::enable_faults(false); Q(m += m.substr(at)); break; } sim::enable_faults(false); Q(m += std::string(m)); } break;
        case 7: if (v < 2) { *s = (const char *)c.p; sim::enable_faults(false); Q(m = t); } else { size_t at = m.empty() ? 0 : sim::choose("at", (uint32_t)m.size()); *s = (const char *)(text_of(*s) + at); sim::enable_faults(false); Q(m = m.substr(at)); } break;
        case 8: { r = new Str(s->clone()); *r += (const char *)c.p; sim::enable_faults(false); Q(want = m + t); same(*r, want, "appending to a clone"); break; }
        case 9: { if (v < 2) r = new Str(*s + (const char *)c.p); else r = new Str(*s + *other); sim::enable_faults(false); Q(want = m + t); same(*r, want, "adding"); break; }
        case 10: { size_t at = sim::choose("at", (uint32_t)m.size() + 4), n = sim::choose("n", (uint32_t)m.size() + 8); r = new Str(s->subString(at, n)); sim::enable_faults(false); Q(want = at < m.size() ? m.substr(at, n) : std::string()); same(*r, want, "cutting"); break; }
        case 11: { sim::enable_faults(false); if (sim::flip("runs", 0.3)) { std::string y, x; { sim::Quiet q; for (uint32_t i = 0, n = 1 + sim::choose("runn", 9); i < n; i++) y += "ab"[sim::choose("runc", 2)]; for (uint32_t i = 0, n = 1 + sim::choose("runm", 3); i < n; i++) x += "ab"[sim::choose("runc", 2)]; } Cpy cy(y), cx(x); r = new Str(cy.p); size_t f, l; Q(f = y.find(x); l = y.rfind(x)); int a = r->find(cx.p), b = r->rfind(cx.p); SIM_CHECK(a == (f == std::string::npos ? -1 : (int)f) && b == (l == std::string::npos ? -1 : (int)l), "find", "'%s' in '%s' found at %d and %d instead of %d and %d", cx.p, cy.p, a, b, (int)f, (int)l); Q(std::string().swap(x); std::string().swap(y)); break; }
          if (t.size() > 3) Q(t.resize(1 + t.size() % 2)); Cpy p(t); size_t f, l; Q(f = m.find(t); l = m.rfind(t)); int a = s->find(p.p), b = s->rfind(p.p); SIM_CHECK(a == (f == std::string::npos ? -1 : (int)f) && b == (l == std::string::npos ? -1 : (int)l), "find", "found at %d and %d instead of %d and %d", a, b, (int)f, (int)l); uint32_t from = sim::choose("from", (uint32_t)m.size() + (v ? 1 : 20)); Q(f = m.find(t, from); if (l != std::string::npos && l < from) l = std::string::npos); a = s->find(p.p, from); b = s->rfind(p.p, from); SIM_CHECK(a == (f == std::string::npos ? -1 : (int)f) && b == (l == std::string::npos ? -1 : (int)l), "find", "from %u found at %d and %d instead of %d and %d", from, a, b, (int)f, (int)l); break; }
        case 12: { sim::enable_faults(false); bool eq = m == t, lt = m < t; SIM_CHECK((*s == (const char *)c.p) == eq && (*s != (const char *)c.p) == !eq && Equals(*s, *other) == eq && (*s < *other) == lt, "compare", "comparison is wrong"); if (eq) break; delete other; other = nullptr; Cpy p(m); other = new Str(p.p); SIM_CHECK(Equals(*s, *other) && *s == (const char *)p.p && !(*s < *other), "compare", "comparison with the same text is wrong"); break; }
        case 13: { static const char *const seps[] = {",", "-", "a,", "%%", ""}; const char *sep = seps[sim::choose("sep", 5)]; if (v == 3 && sim::flip("nosplit", 0.2)) { Str none((const char *)nullptr), b(sep); if (sim::flip("nosep", 0.3)) split->split(b, none); else split->split(none, b); sim::enable_faults(false); SIM_CHECK(!split->getCount(), "split", "%zu pieces of no text", split->getCount()); break; } Str a(s->clone()), b(sep); split->split(a, b); sim::enable_faults(false); Q(ws = pieces(m, sep)); SIM_CHECK(split->getCount() == ws.size(), "split", "%zu pieces instead of %zu", split->getCount(), ws.size()); for (size_t i = 0; i < ws.size(); i++) { Str x((*split)[i]); same(x, ws[i], "splitting"); } break; }
        case 14: { static const char *const seps[] = {",", "-", "a,", "%%"}; const char *sep = seps[sim::choose("sep", 4)]; r = new Str(replace(text_of(*s), c.p, sep)); sim::enable_faults(false); { sim::Quiet q; ws = pieces(m, sep); for (size_t i = 0; i < ws.size(); i++) want += (i ? t : std::string()) + ws[i]; } same(*r, want, "replacing"); break; }
        case 15: sim::enable_faults(false); if (sim::flip("clear", 0.4)) { s->Clear(); Q(m.clear()); } break;
        case 16: { Q(want = v == 0 ? std::to_string((int)num) : v == 1 ? std::to_string((int64_t)num) : v == 2 ? std::to_string(num) : t + (num & 1 ? "x" : "")); Cpy p(want); r = new Str(p.p); bool bad = false; try { if (v == 0) SIM_CHECK(r->operator int() == (int)num, "convert", "number"); if (v == 1) SIM_CHECK(r->operator int64_t() == (int64_t)num, "convert", "number"); if (v == 2) SIM_CHECK(r->operator uint64_t() == num, "convert", "number"); if (v == 3) { bool digit; Q(size_t i = want.find_first_not_of(" "); if (i < want.size() && want[i] == '-') i++; digit = i < want.size() && want[i] >= '0' && want[i] <= '9'); try { r->operator int(); } catch (const std::exception &) { bad = true; } SIM_CHECK(bad == !digit, "convert", bad ? "a number is refused" : "text which is no number is converted"); } } catch (const std::exception &) { sim::enable_faults(false); SIM_CHECK(0, "convert", "a number is refused"); } sim::enable_faults(false); break; }
        case 17: { uint32_t n = sim::choose("n", 9); unsigned char bin[8], out[8]; { sim::Quiet q; for (uint32_t i = 0; i < n; i++) bin[i] = (unsigned char)sim::choose("bin", 256); } r = new Str(""); r->append_hex_buffer(bin, n); uint32_t at = n ? sim::choose("at", n) : 0; if (n) { if (at || v < 2) r->extract_binary_hex(out, n - at, at * 2); else r->extract_binary_hex(out, n); } sim::enable_faults(false); SIM_CHECK(!n || !memcmp(out, bin + at, n - at), "convert", "hexadecimal does not come back"); break; }
        case 18: if (sim::flip("huge", 0.15)) { sim::enable_faults(false); uint32_t n = 2030 + sim::choose("hugen", 40); if (sim::flip("huger", 0.2)) n *= 2; std::string h; Q(h = std::string(n, 'h')); Cpy p(h); bool full = true; try { s->append_format("%s|%d", p.p, 7); } catch (const std::exception &) { full = false; } if (full) Q(m += h + "|7"); SIM_CHECK(full || n > 2000, "error", "formatting failed"); Q(std::string().swap(h)); break; } // all of it, or an error
          { s->append_format("%s|%d|%llu", c.p, (int)num, (unsigned long long)num); sim::enable_faults(false); Q(m += t + "|" + std::to_string((int)num) + "|" + std::to_string(num)); break; }
        case 19: if (!t.empty()) { bool autoc = v < 2; char *g = s->GetBuffer(t.size(), autoc); sim::enable_faults(false); memcpy(g, c.p, t.size()); if (!autoc) s->CommitBuffer(t.size()); Q(m += t); } break;
        case 20: { sim::enable_faults(false); if (v == 0) { double d = (double)((int64_t)num >> 12) / 64; char b[64]; { sim::Quiet q; snprintf(b, sizeof b, "%.6f", d); } r = new Str((const char *)b); double g = r->operator double(); SIM_CHECK(g == strtod(b, nullptr), "convert", "%f instead of %s", g, b); } else { static const char *const yes[] = {"1", "true", "yes", "TRUE", "True"}; bool y = v == 1; { sim::Quiet q; want = y ? yes[sim::choose("yes", 5)] : t + (v == 2 ? "true" : "0"); } Cpy p(want); r = new Str(p.p); bool truth; Q(truth = want == "1" || want == "true" || want == "yes" || want == "TRUE" || want == "True"); SIM_CHECK(r->operator bool() == truth, "convert", "'%s' is taken for %d", want.c_str(), !truth); } break; }
        case 21: { if (v == 0) { r = new Str((const char *)c.p + *s); sim::enable_faults(false); Q(want = t + m); same(*r, want, "adding in front"); } else if (v == 1) { bool e = (const char *)c.p == *s, u = (const char *)c.p != *s; sim::enable_faults(false); SIM_CHECK(e == (t == m) && u == !e, "compare", "comparison with a literal is wrong"); }
          else if (v == 3 && sim::flip("hextext", 0.3)) { uint32_t n = 1 + sim::choose("hexn", 40), w = sim::choose("hexw", 20); unsigned char *bin = new unsigned char[n]; { sim::Quiet q; static const unsigned char bs[] = {0, 10, 13, 'a', ' ', '0', '%', 'Z'}; for (uint32_t i = 0; i < n; i++) bin[i] = bs[sim::choose("hexb", 8)]; }
            try { r = new Str(hexformat(bin, n, w, 1)); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); sim::Quiet q; std::string exp, got; for (uint32_t i = 0; i < n; i++) if (bin[i] == 10) exp += "\\n"; else if (bin[i] == 13) exp += "\\r"; else if (!bin[i]) exp += "\\0"; else exp += (char)bin[i];
            delete[] bin; if (!threw) { bool second = false; for (const char *p = text_of(*r); *p; p++) { if (*p == '\t') second = !second; else if (second) got += *p; } // the second column shows every byte once
              SIM_CHECK(!got.compare(0, exp.size(), exp) && got.find_first_not_of(' ', exp.size()) == std::string::npos, "hex", "the text beside the hexadecimal rendering is wrong: '%s' instead of '%s'", got.c_str(), exp.c_str()); } }
          else { r = new Str(hexformat((const unsigned char *)c.p, t.size(), v == 2 ? 9 : sim::choose("hexw", 20), 0)); sim::enable_faults(false); sim::Quiet q; std::string h; bool skip = false, odd = false; for (const char *p = text_of(*r); *p; p++) { if (*p == '\t') skip = true; else if (*p == '\n') skip = false; else if (skip || isspace((unsigned char)*p)) continue; else if (isxdigit((unsigned char)*p) && isxdigit((unsigned char)p[1])) { h += (char)strtol(std::string(p, 2).c_str(), nullptr, 16); p++; } else odd = true; } // the first column holds every byte once
            SIM_CHECK(!odd && !h.compare(0, t.size(), t) && h.find_first_not_of(' ', t.size()) == std::string::npos, "hex", "the hexadecimal rendering is wrong"); }
          break; }
      } } catch (const std::exception &) { threw = true; }
      sim::enable_faults(false);
      if (threw) { SIM_CHECK(faults, "error", "operation %u failed although there is memory", op); fails++; same(*s, before, "a failed operation"); Q(m = before); } else same(*s, m, what);
      delete r; delete other; sim::covered(hmix(op, m.size() * 2 + threw));
      Q(std::string().swap(before); std::string().swap(want); std::vector<std::string>().swap(ws)); }
    delete s; delete split; Q(std::string().swap(m); std::string().swap(t)); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
SCENARIO(C31, sharing, 3) {
  bool faults = sim::flip("faults", 0.3); if (faults) { sim::world().p_alloc = 0.1; sim::world().max_alloc_faults = 3; }
  size_t base = sim::live_allocs(); { std::string m; Q(m = some_text(40)); Str *s; { Cpy c(m); s = new Str(c.p); } int n = 2 + sim::choose("n", 3); std::vector<int> ids; if (faults) sim::enable_faults(true);
    for (int i = 0; i < n; i++) { Str *mine = nullptr; try { mine = new Str(*s); } catch (const std::exception &) { SIM_CHECK(faults, "error", "no copy although there is memory"); } if (!mine) continue;
      int id = sim::go("user", [mine, &m, faults] { int ops = 1 + sim::choose("ops", 6);
        for (int k = 0; k < ops; k++) { Str *r = nullptr; std::string w; bool bad = false; uint32_t op = sim::choose("op", 6); size_t at = sim::choose("at", (uint32_t)m.size() + 1);
          try { switch (op) { case 0: { Str a(*mine), b(a); same(b, m, "copying"); break; } case 1: r = new Str(mine->clone()); *r += (const char *)"12345678"; Q(w = m + "12345678"); same(*r, w, "appending to a clone"); break; case 2: { Str a; a = *mine; a = a; same(a, m, "assigning"); break; }
            case 3: r = new Str(mine->subString(at, 10)); Q(w = m.substr(at, 10)); same(*r, w, "cutting"); break; case 4: r = new Str(*mine + *mine); Q(w = m + m); same(*r, w, "adding"); break; case 5: SIM_CHECK(Equals(*mine, *mine), "compare", "not equal to itself"); break; } }
          catch (const std::exception &) { bad = true; }
          SIM_CHECK(!bad || faults, "error", "operation %u failed although there is memory", op); same(*mine, m, "a user's operations"); delete r; Q(std::string().swap(w)); if (sim::flip("p", 0.2)) sim::sleep(1 + sim::choose("pt", 50) * US); }
        delete mine; }); Q(ids.push_back(id)); }
    if (sim::flip("early", 0.5)) { delete s; s = nullptr; } // the last copy goes away on another thread
    for (int id : ids) sim::join(id); sim::enable_faults(false); if (s) same(*s, m, "sharing"); delete s; Q(std::vector<int>().swap(ids); std::string().swap(m)); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
