// C14 - C18: the bit reader and writer on every kind of storage
#include "io.h"
#include <mg/media/TBitstream.h>
#ifndef BYTE
#define BYTE unsigned char
#endif
#include <mg/media/fixed_queue.h>
#include <mg/media/media_queue.h>
#undef SEC // a macro of hnano.h, in ticks
#undef HU
#undef MILLY

namespace {
// a storage that answers on its own thread, when it likes
struct SlowStore : Ibitstream_storage {
  struct J { Ibitstream_cb *cb; bool write; uint64_t at; std::string d; uint64_t due; bool fail; };
  std::string *data; bool reading; uint64_t pos = 0; std::deque<J> q; bool stop = false, ordered; int tid; uint64_t lo, hi; double pstall; uint64_t slo, shi; int fails; double pfail; int stalls = 0; bool told = false, stingy;
  SlowStore(std::string *d, bool rd) : data(d), reading(rd), lo(0), hi(0), pstall(0), slo(0), shi(0), fails(0), pfail(0) { static const uint64_t h[] = {2 * MS, 0, 100 * MS, 1500 * MS}; hi = h[sim::choose("slowhi", 4)]; ordered = rd || sim::flip("ordered", 0.5); stingy = rd && sim::flip("stingy", 0.3); tid = sim::go("storage", [this] { run(); }); }
  void run() { for (;;) { J j; bool have = false, end; { sim::Quiet k; end = stop && q.empty(); for (size_t i = 0; i < q.size() && (i < 1 || !ordered); i++) if (q[i].due <= sim::now()) { j = std::move(q[i]); q.erase(q.begin() + i); have = true; break; } } if (end) break;
      if (!have) { uint64_t nx = MS; { sim::Quiet k; if (!q.empty() && q[0].due > sim::now() && ordered) nx = std::min<uint64_t>(q[0].due - sim::now(), 50 * MS); } sim::sleep(nx); sim::Quiet k; std::string().swap(j.d); continue; }
      if (j.fail) { sim::fired(sim::F_EIO); std::exception_ptr e; Q(e = std::make_exception_ptr(mgexception(-5, "injected", __FILE__, __LINE__))); try { j.cb->err_cb(e); } catch (const std::exception &) { told = true; } }
      else if (j.write) { { sim::Quiet k; if (data->size() < j.at + j.d.size()) data->resize(j.at + j.d.size()); memcpy(&(*data)[j.at], j.d.data(), j.d.size()); } j.cb->write_cb((uint32_t)j.d.size()); }
      else { unsigned char *mem; while (!(mem = new (std::nothrow) unsigned char[j.d.size() + 1])) {} memcpy(mem, j.d.data(), j.d.size()); j.cb->read_cb(mem, (uint32_t)j.d.size()); delete[] mem; }
      { sim::Quiet k; std::string().swap(j.d); } } }
  void add(J &j) { sim::Quiet k; uint64_t d = lo + (hi > lo ? sim::range("slowd", 0, 1000) * (hi - lo) / 1000 : 0); if (pstall > 0 && sim::flip("slowstall", pstall)) { stalls++; sim::fired(sim::F_STALL_IO); d += slo + sim::range("stalld", 0, 1000) * (shi - slo) / 1000; } j.due = sim::now() + d; j.fail = fails > 0 && sim::flip("slowfail", pfail); if (j.fail) fails--; q.push_back(std::move(j)); }
  void need_memory() { std::unique_ptr<char[]> p(new char[8]); p[0] = 1; }
  void read(uint32_t n, Ibitstream_cb *cb) override { need_memory(); J j; { sim::Quiet k; uint64_t left = data->size() - std::min<uint64_t>(pos, data->size()); if (n > left) n = (uint32_t)left; if (n && fails > 0 && sim::flip("nothing", pfail * 0.4)) { fails--; n = 0; sim::fired(sim::F_SHORT_READ); } if (n && stingy && sim::flip("less", 0.7)) n = 1 + sim::choose("lessn", n > 8 && sim::flip("few", 0.5) ? 8 : n); j.cb = cb; j.write = false; j.at = pos; j.d = data->substr(pos < data->size() ? pos : data->size(), n); pos += n; } add(j); }
  void write(const unsigned char *b, uint32_t n, Ibitstream_cb *cb) override { need_memory(); J j; { sim::Quiet k; j.cb = cb; j.write = true; j.at = pos; j.d.assign((const char *)b, n); pos += n; } add(j); }
  bool eof() override { return !reading || pos >= data->size(); } void flush() override {} uint64_t get_position() const override { return pos; } void set_position(uint64_t r) override { pos = r; }
  uint64_t size() const { return data->size(); }
  bool quiet() { return q.empty(); }
  ~SlowStore() { Q(stop = true); sim::join(tid); sim::Quiet k; std::deque<J>().swap(q); }
};

struct Hold { IBitstream *_p_f = nullptr; virtual ~Hold() {} }; // what a media format is to the facades below
typedef file_media_bitstream<Hold> FileMedia; typedef sync_file_media_bitstream<Hold> SyncMedia; typedef file_media_bitstream<Hold, O_CREAT | O_WRONLY | O_TRUNC> FileMediaW; typedef sync_file_media_bitstream<Hold, false> SyncMediaW; typedef memory_write_media_bitstream<Hold> MemMediaW;
enum { MEM, SYNC, ASYNC, SLOW, FIXED, XASYNC, XSYNC, MASYNC, MSYNC, MEMW, KINDS };
const char *const kind_names[] = {"memory", "sync file", "async file", "slow storage", "fixed_memory_bitstream", "_file_bitstream", "_sync_file_bitstream", "file_media_bitstream", "sync_file_media_bitstream", "memory written before"};
uint32_t bufsize() { static const uint32_t t[] = {16, 8, 9, 13, 32, 64, 1000, 8192, 4, 1}; return t[sim::choose("buf", 10)]; }
uint32_t clen(uint32_t buf) { switch (sim::choose("lenk", 6)) { case 0: return 20 + sim::choose("len", 60); case 1: return sim::choose("len", 20); case 2: return buf * (1 + sim::choose("lenm", 5)); case 3: return buf * (1 + sim::choose("lenm", 5)) + 1 + sim::choose("lend", 4); case 4: { uint32_t k = buf * (1 + sim::choose("lenm", 4)), d = 1 + sim::choose("lend", 4); return k > d ? k - d : 1; } default: return sim::choose("len", 3000); } }

struct Model { const std::string *d; uint64_t p = 0, base = 0; uint64_t total() const { return (base + d->size()) * 8; } uint64_t left() const { return total() - p; }
  uint32_t bit(uint64_t i) const { return (i >> 3) < base ? 0 : ((unsigned char)(*d)[(i >> 3) - base] >> (7 - (i & 7))) & 1; } // a hole before the base
  uint32_t peek(int n) const { uint32_t x = 0; for (int i = 0; i < n; i++) x = (x << 1) | bit(p + i); return x; }
  uint32_t speek(int n) const { uint32_t x = peek(n); if (n > 1 && n < 32 && (x >> (n - 1))) x |= ~0u << n; return x; } };

struct Reader { // a reader of some kind and everything it stands on
  int kind; IBitstream *bs = nullptr; std::function<void()> del, close, quiet; SlowStore *slow = nullptr; LT *t; CResource<file_bitstream> fb; uint32_t buf; const char *path = "/sim/bits";
  void open(int k, LT *loop, std::string *data, uint32_t b, uint64_t base = 0) {
    kind = k; t = loop; buf = b; { sim::Quiet q; if (base) { sim::disk_put_sparse(path, base); sim::disk_poke(path, base, *data); } else sim::disk_put(path, *data); } bool two = sim::flip("create2", 0.3);
    switch (kind) {
    case MEM: { CResource<fixed_memory_read> r(new fixed_memory_read((const unsigned char *)data->data(), data->size())); bitstream<fixed_memory_read> *p; if (two) { p = new bitstream<fixed_memory_read>(); p->create(r, b); } else p = new bitstream<fixed_memory_read>(r, b); bs = p; Q(del = [p] { delete p; }); break; }
    case MEMW: { struct Put : Ibitstream_cb { void read_cb(const unsigned char *, uint32_t) override {} void write_cb(uint32_t) override {} void err_cb(std::exception_ptr) override {} } put; auto *m = new fixed_memory_write(1 + sim::choose("mwcap", 300)); CResource<fixed_memory_write> r(m); for (size_t at = 0; at < data->size();) { uint32_t k = 1 + sim::choose("mwpart", (uint32_t)data->size()); k = std::min<uint32_t>(k, data->size() - at); m->write((const unsigned char *)data->data() + at, k, &put); at += k; } m->set_position(0); auto *p = new bitstream<fixed_memory_write>(r, b); bs = p; Q(del = [p] { delete p; }); break; }
    case FIXED: { auto *p = new fixed_memory_bitstream((const unsigned char *)data->data(), data->size()); bs = p; buf = data->size(); Q(del = [p] { delete p; }); break; }
    case SYNC: { CResource<sync_file_bitstream> r(new sync_file_bitstream(path)); auto *p = new bitstream<sync_file_bitstream>(r, b); bs = p; Q(del = [p] { delete p; }); break; }
    case XSYNC: { auto *p = new _sync_file_bitstream(b); Q(del = [p] { delete p; }); try { p->open(path); } catch (...) { delete p; Q(del = nullptr); throw; } bs = p; Q(close = [p] { p->close(); }); break; }
    case ASYNC: { fb = CResource<file_bitstream>(new file_bitstream(*loop)); fb->open_sync(path); bitstream<file_bitstream> *p; if (two) { p = new bitstream<file_bitstream>(); try { p->create(fb, b); } catch (...) { delete p; throw; } } else p = new bitstream<file_bitstream>(fb, b); bs = p; file_bitstream *f = fb; Q(del = [p] { delete p; }; close = [f] { f->close(false); }; quiet = [f] { for (int i = 0; i < 2000 && f->outstanding(); i++) sim::sleep(50 * MS); }); break; }
    case XASYNC: { auto *p = new _file_bitstream(*loop, b); try { p->open(path); } catch (...) { delete p; throw; } bs = p; Q(del = [p] { delete p; }; close = [p] { p->close(); }); break; }
    case MASYNC: { auto *p = new FileMedia(*loop, b); try { if (two) p->open(path, O_RDONLY); else p->open(path); } catch (...) { delete p; throw; } bs = p->_p_f; Q(del = [p] { delete p; }; close = [p] { p->close(); }); break; }
    case MSYNC: { auto *p = new SyncMedia(b); Q(del = [p] { delete p; }); try { if (two) p->open(path, true); else p->open(path); } catch (...) { delete p; Q(del = nullptr); throw; } bs = p->_p_f; Q(close = [p] { p->close(); }); break; }
    case SLOW: { slow = new SlowStore(data, true); if (data->size() / (b < 8 ? 8 : b) > 50 && slow->hi > 20 * MS) slow->hi = 20 * MS; CResource<SlowStore> r(slow); auto *p = new bitstream<SlowStore>(r, b); bs = p; SlowStore *sl = slow; Q(del = [p] { delete p; }; quiet = [sl] { for (int i = 0; i < 2000 && !sl->quiet(); i++) sim::sleep(50 * MS); }); break; }
    }
  }
  void done(bool wait) { if (wait && quiet) { quiet(); sim::sleep(20 * MS); } if (close && sim::flip("closefirst", 0.4)) close(); if (del) del(); if (fb) { CResource<file_bitstream> none; fb = none; } sim::Quiet q; del = nullptr; close = nullptr; quiet = nullptr; }
};
// what a step may do besides being right
struct Allow { bool seek = false, past = false, errors = false, dead = false; };
const uint64_t STEP = 0;
struct Failed {};
const int aligns[] = {8, 16, 24, 32, 40, 48, 64, 120, 128, 256, 65536, 65544, 131072};
uint32_t nal(double p = 0.04) { return sim::flip("wide", p) ? 13 : 10; }
// one operation, compared with the model.  returns false when an allowed storage error was raised
bool reader_step(Reader &r, Model &m, const Allow &al, uint32_t op) {
  IBitstream &b = *r.bs; uint64_t t0 = sim::now(); const char *what = "?"; uint64_t before = m.p; uint32_t n = 0; bool eod = false, want_eod = false; int code = 0; bool threw = false; uint64_t touched = 0; int alen = 0;
  uint32_t got = 0, want = 0; std::string gb, wb; bool bulk = false, bits = false;
  try { try {
    switch (op) {
    case 0: case 1: case 2: case 3: { static const char *const nm[] = {"getbits", "nextbits", "sgetbits", "next"}; what = nm[op]; n = sim::choose("n", 33); if (sim::flip("n32", 0.2)) n = 32;
      int a = 0; if (op == 3) { a = sim::flip("al", 0.5) ? aligns[sim::choose("an", nal())] : 0; alen = a; if (a) { while (m.p % 8) m.p++; while (m.p % a && m.p < m.total()) m.p += 8; } }
      bool sg = op == 2 || (op == 3 && sim::flip("sg", 0.5));
      if (!al.past && n > m.left()) n = (uint32_t)m.left(); want_eod = n > m.left(); if (!want_eod) { want = sg ? m.speek(n) : m.peek(n); if (op == 0 || op == 2) m.p += n; } bits = true;
      got = op == 0 ? b.getbits(n) : op == 1 ? b.nextbits(n) : op == 2 ? b.sgetbits(n) : b.next(n, 1, sg, a); break; }
    case 4: { what = "little_getbits"; n = sim::choose("n", 33); if (!al.past && n > m.left()) n = (uint32_t)m.left(); want_eod = n > m.left(); if (!want_eod) { int i = 0; want = 0; uint32_t k = n; Model c = m; for (; k >= 8; k -= 8, i++) { want |= c.peek(8) << (8 * i); c.p += 8; } if (k) want |= c.peek(k) << (8 * i); m.p += n; } bits = true; got = b.little_getbits(n); break; }
    case 5: { what = "skipbits"; static const uint32_t mx[] = {40, 8, 300, 3000, 65536}; n = sim::choose("n", mx[sim::choose("nk", 5)]); if (!al.past && n > m.left()) n = (uint32_t)m.left(); m.p += std::min<uint64_t>(n, m.left()); b.skipbits((short)n); break; }
    case 6: { what = "align"; n = (uint32_t)aligns[sim::choose("n", nal())]; uint32_t s = 0; if (m.p % 8) { s = 8 - m.p % 8; m.p += s; } while (m.p % n && m.p < m.total()) { m.p += 8; s += 8; } want = s; bits = true; got = b.align(n); break; }
    case 7: { what = "read"; if (m.p % 8 && sim::flip("ra", 0.7)) { uint32_t k = 8 - m.p % 8; m.p += k; b.skipbits(k); } static const uint32_t mx[] = {20, 3, 200, 9000}; n = sim::choose("n", mx[sim::choose("nk", 4)]); if (!al.past && n > m.left() / 8) n = (uint32_t)(m.left() / 8); uint32_t w = (uint32_t)std::min<uint64_t>(n, m.left() / 8); { sim::Quiet q; Model c = m; for (uint32_t i = 0; i < w; i++) { wb.push_back((char)c.peek(8)); c.p += 8; } } m.p += w * 8ull; want = w; bulk = true; unsigned char *mem = new unsigned char[n ? n : 1]; uint32_t rd = 0xdeadbeef; try { b.read(mem, n, &rd); } catch (...) { delete[] mem; throw; } got = rd; if (rd <= n) Q(gb.assign((char *)mem, rd)); delete[] mem; break; }
    case 8: { what = "nextcode"; n = 1 + sim::choose("n", sim::flip("nl", 0.5) ? 6 : 32); alen = sim::flip("al", 0.5) ? aligns[sim::choose("an", nal())] : 0; uint32_t codev; uint64_t at = m.p + sim::choose("at", 200); if (alen) at = (at + alen - 1) / alen * alen; if (at + n > m.total()) { if (!al.past) return true; at = m.total() >= n ? m.total() - n : 0; codev = m.total() >= n ? 0 : 0; } { Model c = m; c.p = at; codev = m.total() >= n ? c.peek(n) : 0; } if (al.past && sim::flip("miss", 0.2)) codev ^= 1;
      { bool ok = false; Model c = m; uint32_t scan = 0; if (alen) { while (c.p % 8) c.p++; while (c.p % alen && c.p < c.total()) c.p += 8; } while (c.left() >= n && scan < 3000) { if (c.peek(n) == codev) { ok = true; break; } c.p += alen ? alen : 1; scan++; if (c.p > c.total()) break; } if (!ok && (!al.past || scan >= 3000)) return true; }
      uint32_t s = 0; if (alen) { if (m.p % 8) { uint32_t k = 8 - m.p % 8; m.p += k; s += k; } while (m.p % alen && m.p < m.total()) { m.p += 8; s += 8; } }
      for (;;) { if (m.left() < n) { want_eod = true; break; } if (m.peek(n) == codev) break; uint32_t k = alen ? alen : 1; s += k; m.p += std::min<uint64_t>(k, m.left()); } want = s; bits = !want_eod; got = b.nextcode(codev, n, alen); break; }
    case 9: { what = "set_position"; uint64_t len = m.base + m.d->size(), cur = m.p >> 3, to; switch (sim::choose("sk", 7)) { case 0: to = cur + sim::choose("d", r.buf + 3); break; case 1: to = cur - std::min<uint64_t>(cur, sim::choose("d", r.buf + 3)); break; case 2: to = m.base + sim::choose("to", (uint32_t)m.d->size() + 1); break; case 3: to = 0; break; case 4: to = len; break; case 5: to = len + sim::choose("to", 100); break; default: to = cur + r.buf + sim::choose("d", r.buf + 3); } if (to > len && !sim::flip("past", 0.5)) to = len; n = (uint32_t)to; uint64_t want_to = to; if (to > len) to = len; m.p = to * 8; b.set_position(want_to); break; }
    }
  } catch (const EndOfData &) { eod = true; } }
  catch (const mgexceptionbase &x) { threw = true; code = x.get_error_number(); }
  catch (const std::exception &x) { threw = true; code = 1; }
  touched = (m.p > before ? m.p - before : before - m.p) / 8 / (r.buf ? r.buf : 1);
  const char *on = kind_names[r.kind];
  bool ok = true;
  if (threw) { SIM_CHECK(al.errors || al.dead, "error", "%s(%u) at bit %llu of %llu on %s, buffer %u: error %d on a healthy storage", what, n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf, code);
    if (al.dead) SIM_CHECK(sim::now() - t0 < (touched + 3) * 12 * SEC, "slow", "%s took %llu ms to fail", what, (unsigned long long)((sim::now() - t0) / MS)); ok = false; }
  else if (eod || want_eod) SIM_CHECK(eod == want_eod, eod ? "false-end" : "no-end", "%s(%u) at bit %llu of %llu on %s, buffer %u: %s", what, n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf, eod ? "end of data although there are enough bits" : "no end-of-data error");
  else { if (bits) SIM_CHECK(got == want, "value", "%s(%u) at bit %llu of %llu on %s, buffer %u, alignment %d: %08x instead of %08x", what, n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf, alen, got, want);
    if (bulk) { sim::Quiet q; SIM_CHECK(got == want, "value", "read(%u) at bit %llu of %llu on %s, buffer %u: %u bytes instead of %u", n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf, got, want); SIM_CHECK(gb == wb, "value", "read(%u) at bit %llu of %llu on %s, buffer %u: wrong bytes", n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf); } }
  { sim::Quiet q; std::string().swap(gb); std::string().swap(wb); }
  if (ok) { SIM_CHECK(b.getpos() == m.p, "position", "after %s(%u) from bit %llu of %llu on %s, buffer %u: at bit %llu instead of %llu", what, n, (unsigned long long)before, (unsigned long long)m.total(), on, r.buf, (unsigned long long)b.getpos(), (unsigned long long)m.p);
    SIM_CHECK(b.get_position() == m.p / 8, "position", "after %s(%u): byte position %llu instead of %llu", what, n, (unsigned long long)b.get_position(), (unsigned long long)(m.p / 8)); }
  return ok;
}
// are there that many bits more?  asked of whatever stream it is; no wider than its buffer
template <class S> bool ask_bits(IBitstream *b, int n, bool *has) { auto *p = dynamic_cast<bitstream<S> *>(b); if (!p) return false; *has = p->has_bits(n); return true; }
bool check_eof(Reader &r, Model &m, const Allow &al) {
  if (sim::flip("has", 0.3)) { uint64_t left = m.left(); int n = sim::flip("near", 0.6) ? (int)std::min<uint64_t>(left, 1u << 20) + (int)sim::choose("neard", 5) - 2 : (int)sim::choose("hasn", 200), top = (int)std::min<uint32_t>(r.buf < 8 ? 8 : r.buf, 1u << 16) * 8; if (n > top) n = top; if (n < 0) n = 0; bool has = false, asked = false;
    try { asked = ask_bits<fixed_memory_read>(r.bs, n, &has) || ask_bits<fixed_memory_write>(r.bs, n, &has) || ask_bits<sync_file_bitstream>(r.bs, n, &has) || ask_bits<file_bitstream>(r.bs, n, &has) || ask_bits<SlowStore>(r.bs, n, &has); } catch (const std::exception &) { SIM_CHECK(al.errors || al.dead, "error", "has_bits(%d) raised an error on a healthy storage", n); return false; }
    if (asked) SIM_CHECK(has == (left >= (uint64_t)n), has ? "no-end" : "false-end", "has_bits(%d) is %d with %llu bits left at bit %llu of %llu on %s, buffer %u", n, (int)has, (unsigned long long)left, (unsigned long long)m.p, (unsigned long long)m.total(), kind_names[r.kind], r.buf); }
  bool e; try { e = r.bs->eof(); } catch (const mgexceptionbase &x) { SIM_CHECK(al.errors || al.dead, "error", "eof raised error %d on a healthy storage", x.get_error_number()); return false; } catch (const std::exception &) { SIM_CHECK(al.errors || al.dead, "error", "eof raised an error on a healthy storage"); return false; }
  SIM_CHECK(e == (m.p >= m.total()), e ? "false-end" : "no-end", "eof is %d at bit %llu of %llu on %s, buffer %u", (int)e, (unsigned long long)m.p, (unsigned long long)m.total(), kind_names[r.kind], r.buf); return true;
}
// a width or an alignment nobody can serve: refused, and nothing has changed
void refused(IBitstream &b, bool reading, uint64_t at, const char *on) {
  static const int wide[] = {33, 40, 64, -1, 32767}, odd[] = {12, 0, 1, 7, -8}; uint32_t k = sim::choose("badk", reading ? 6 : 3); int n = k == 2 ? odd[sim::choose("bado", 5)] : wide[sim::choose("badw", 5)]; bool told = false; static const char *const rn[] = {"getbits", "little_getbits", "align", "nextbits", "sgetbits", "next"};
  try { if (!reading) { if (k == 0) b.putbits(0xffffffffu, n); else if (k == 1) b.little_putbits(0xffffffffu, n); else b.align(n); } else switch (k) { case 0: b.getbits(n); break; case 1: b.little_getbits(n); break; case 2: b.align(n); break; case 3: b.nextbits(n); break; case 4: b.sgetbits(n); break; case 5: b.next(n, 1, 0, 0); break; } } catch (const EndOfData &) { sim::fail("refused", "end of data instead of a refusal"); } catch (const std::exception &) { told = true; }
  SIM_CHECK(told, "refused", "%s(%d) at bit %llu on %s was not refused", reading ? rn[k] : k == 0 ? "putbits" : k == 1 ? "little_putbits" : "align", n, (unsigned long long)at, on); SIM_CHECK(b.getpos() == at, "position", "a refused call moved from bit %llu to %llu", (unsigned long long)at, (unsigned long long)b.getpos());
}
const uint64_t far_places[] = {4294967296ull, 536870912ull, 268435456ull, 2147483648ull, 5000000000ull, 8589934592ull, 1099511627776ull};
uint64_t far_place() { uint64_t b = far_places[sim::choose("far", 7)]; switch (sim::choose("fark", 3)) { case 0: return b - sim::choose("farn", 3000); case 1: return b + sim::choose("farn", 3000); default: return b; } }
void timing() { storage(false); sim::limits().max_sim_ns = 3000 * SEC; }
struct World1 { // loop, if the storage needs one
  LT t; bool used; World1(int kind, bool lazy = false) : used(kind == ASYNC || kind == XASYNC || kind == MASYNC) { if (used) mk_loop(t); if (used && lazy && sim::flip("lazyloop", 0.15)) t->set_wait_time(sim::flip("lazier", 0.5) ? 20000 : 60000); } // a loop that looks at its work rarely unless it is told
  void end(bool errors) { if (!used) return; try { t->end(); } catch (const mgexceptionbase &x) { SIM_CHECK(errors, "error", "the owner of the loop was told of error %d on a healthy storage", x.get_error_number()); } catch (const std::exception &) { SIM_CHECK(errors, "error", "the owner of the loop was told of an error on a healthy storage"); } }
};
int pick_kind() { static const int ks[] = {ASYNC, SLOW, MEM, SYNC, ASYNC, SLOW, XASYNC, FIXED, XSYNC, MASYNC, MSYNC, MEMW}; return ks[sim::choose("kind", 12)]; }
std::string *mk_content(uint32_t len) { sim::Quiet q; std::string *s = new std::string(pattern(len, 5)); uint32_t z = sim::choose("zeros", 3); if (z == 1) for (uint32_t i = 0; i < len; i++) if (i % 7) (*s)[i] = 0; if (z == 2) for (uint32_t i = 0; i < len; i++) if (i % 11) (*s)[i] = (char)0xff; return s; }
void consume(Reader &r, Model &m, const Allow &al, int steps, const uint32_t *ops, uint32_t nops, double peof) {
  for (int i = 0; i < steps; i++) { if (sim::flip("gap", 0.15)) sim::sleep(sim::choose("gapn", 40) * MS + 1); uint32_t op = ops[sim::choose("op", nops)]; if (sim::flip("bad", 0.02)) refused(*r.bs, true, m.p, kind_names[r.kind]); reader_step(r, m, al, op); if (peof > 0 && sim::flip("eof", peof)) check_eof(r, m, al); }
}
}

// ---------------------------------------------------------------- C14
SCENARIO(C14, model, 4) {
  timing(); Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(clen(buf)); int kind = pick_kind(); World1 w(kind); { Reader r; r.open(kind, &w.t, data, buf); Model m; m.d = data; Allow al; static const uint32_t ops[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8}; 
  consume(r, m, al, 1 + sim::choose("steps", 40), ops, 12, 0.1); sim::covered(hmix(m.p, kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
}
// the same operations on two kinds of storage must agree bit for bit; readers share a loop
SCENARIO(C14, together, 2) {
  timing(); Clean c; { uint32_t len = clen(16); std::string *data = mk_content(len); LT t; mk_loop(t); int n = 2 + sim::choose("nr", 2); std::vector<int> ids; for (int i = 0; i < n; i++) { int id = sim::go("reader", [&] { Reader r; int kind = sim::flip("as", 0.8) ? ASYNC : SLOW; r.open(kind, &t, data, bufsize()); Model m; m.d = data; Allow al; al.seek = true; static const uint32_t ops[] = {0, 0, 1, 5, 7, 9}; consume(r, m, al, 1 + sim::choose("steps", 12), ops, 6, 0.1); r.done(false); }); Q(ids.push_back(id)); } for (int id : ids) sim::join(id); t->end(); Q(delete data; std::vector<int>().swap(ids)); }
  c.check();
}
// a stream that leaves its storage, perhaps still at work, for another one
namespace {
template <class S, class MK> void recreated(int kind, MK mk) {
  std::string *data[3]; uint32_t b[3]; int n = 2 + sim::choose("n", 2); for (int i = 0; i < n; i++) { b[i] = bufsize(); data[i] = mk_content(clen(b[i])); if (data[i]->size() / (b[i] < 8 ? 8 : b[i]) > 100) b[i] = 1000; }
  { bitstream<S> *p = nullptr; Reader r; r.kind = kind; { CResource<S> keep; for (int i = 0; i < n; i++) { CResource<S> st(mk(i, data[i])); if (sim::flip("keep", 0.3)) keep = st; if (!p) { p = new bitstream<S>(st, b[i]); r.bs = p; } else p->create(st, b[i]); st = CResource<S>(); r.buf = b[i]; Model m; m.d = data[i]; Allow al; al.seek = true; al.past = true; static const uint32_t ops[] = {0, 0, 1, 4, 5, 7, 9, 2}; consume(r, m, al, sim::choose("steps", 12), ops, 8, 0.2); sim::covered(hmix(m.p, i * 100 + kind)); } } delete p; }
  for (int i = 0; i < n; i++) Q(delete data[i]);
}
}
SCENARIO(C14, recreated, 1) {
  timing(); Clean c; { int kind = sim::flip("slow", 0.5) ? SLOW : sim::flip("async", 0.8) ? ASYNC : SYNC; World1 w(kind); static const char *const path[] = {"/sim/b0", "/sim/b1", "/sim/b2"};
    if (kind == SLOW) recreated<SlowStore>(kind, [](int, std::string *d) { auto *s = new SlowStore(d, true); if (s->hi > 20 * MS) s->hi = 20 * MS; return s; });
    else if (kind == SYNC) recreated<sync_file_bitstream>(kind, [&](int i, std::string *d) { Q(sim::disk_put(path[i], *d)); return new sync_file_bitstream(path[i]); });
    else recreated<file_bitstream>(kind, [&](int i, std::string *d) { Q(sim::disk_put(path[i], *d)); auto *f = new file_bitstream(w.t); f->open_sync(path[i]); return f; });
    w.end(false); }
  c.check();
}
// buffers, and pieces, longer than a small integer can count
namespace { void large_reader(double pseek) {
  timing(); Clean c; { static const uint32_t bs[] = {65535, 65536, 65537, 70000, 140000, 33000}; bool rare = sim::flip("rare", 0.15); uint32_t buf = bs[sim::choose("buf", 6)], len = rare ? 60000 + sim::choose("len", 250000) : sim::choose("len", 3000); std::string *data; Q(data = new std::string(pattern(len, 23))); int kind = pick_kind(); World1 w(kind); { Reader r; r.open(kind, &w.t, data, buf); Model m; m.d = data; Allow al; al.seek = true; al.past = true; static const uint32_t ops[] = {0, 0, 1, 5, 4, 7}; int n = 1 + sim::choose("steps", 12);
    for (int i = 0; i < n; i++) { uint64_t cur = m.p / 8;
      if (sim::flip("seekl", pseek)) { uint64_t to = sim::choose("tol", len + 1); r.bs->set_position(to); m.p = to * 8; SIM_CHECK(r.bs->getpos() == m.p, "position", "at bit %llu after moving to byte %llu of %u on %s, buffer %u", (unsigned long long)r.bs->getpos(), (unsigned long long)to, len, kind_names[kind], buf); continue; }
      if (sim::flip("bulk", 0.5)) { uint32_t k = sim::choose("bulkn", 160000), rd = 0xdeadbeef; while (m.p % 8) { uint32_t s = 8 - m.p % 8; r.bs->skipbits(s); m.p += s; } cur = m.p / 8; unsigned char *mem = new unsigned char[k ? k : 1]; bool eod = false; try { r.bs->read(mem, k, &rd); } catch (const EndOfData &) { eod = true; } uint32_t want = (uint32_t)std::min<uint64_t>(k, len - cur);
        SIM_CHECK(rd == want, "value", "read(%u) at byte %llu of %u on %s, buffer %u: %u bytes instead of %u", k, (unsigned long long)cur, len, kind_names[kind], buf, rd, want); Q(SIM_CHECK(!memcmp(mem, data->data() + cur, want), "value", "read(%u) at byte %llu of %u on %s, buffer %u: wrong bytes", k, (unsigned long long)cur, len, kind_names[kind], buf)); (void)eod; delete[] mem; m.p += want * 8ull; SIM_CHECK(r.bs->getpos() == m.p, "position", "at bit %llu after read(%u) from byte %llu of %u on %s, buffer %u", (unsigned long long)r.bs->getpos(), k, (unsigned long long)cur, len, kind_names[kind], buf); }
      else reader_step(r, m, al, ops[sim::choose("op", 6)]);
      if (sim::flip("eof", 0.2)) check_eof(r, m, al); if (sim::flip("gap", 0.15)) sim::sleep(sim::choose("gapn", 40) * MS + 1); }
    sim::covered(hmix(m.p, kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
} }
SCENARIO(C14, large, 1) { large_reader(0.1); }
SCENARIO(C15, large, 1) { large_reader(0.05); }
SCENARIO(C16, large, 1) { large_reader(0.5); }
// ---------------------------------------------------------------- C15
SCENARIO(C15, end, 4) {
  timing(); Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(clen(buf)); int kind = pick_kind(); World1 w(kind); { Reader r; r.open(kind, &w.t, data, buf); Model m; m.d = data; Allow al; al.past = true; static const uint32_t ops[] = {0, 0, 1, 2, 3, 4, 5, 7, 7, 8, 6};
    if (sim::flip("near", 0.6) && m.total() > 130) { uint64_t k = m.total() - 64 - sim::choose("nearn", 64); while (m.p < k) { uint32_t s = (uint32_t)std::min<uint64_t>(k - m.p, 60000); r.bs->skipbits((short)s); m.p += s; } }
    int n = 1 + sim::choose("steps", 25); for (int i = 0; i < n; i++) { check_eof(r, m, al); reader_step(r, m, al, ops[sim::choose("op", 11)]); if (sim::flip("gap", 0.1)) sim::sleep(sim::choose("gapn", 40) * MS + 1); }
    if (sim::flip("drain", 0.5)) { int k = 0; while (m.left() && k++ < 4000) { uint32_t s = (uint32_t)std::min<uint64_t>(m.left(), 1 + sim::choose("dn", 32)); uint32_t v = r.bs->getbits(s); SIM_CHECK(v == m.peek(s), "value", "the last bits differ"); m.p += s; check_eof(r, m, al); } bool e = false; if (!m.left()) { try { r.bs->getbits(1); } catch (const EndOfData &) { e = true; } SIM_CHECK(e, "no-end", "a bit after the end"); } }
    sim::covered(hmix(m.left(), kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
}
namespace {
void errors_run(double again) { // a failed read is not the end, and does not stay
  timing(); sim::World &w_ = sim::world(); static const double pf[] = {0.3, 0.1, 0.7}; double p = pf[sim::choose("pf", 3)]; w_.p_eio = p; w_.p_short_read = sim::flip("short", 0.3) ? p : 0; if (sim::flip("mem", 0.2)) { w_.p_alloc = p * 0.3; w_.max_alloc_faults = 1 + sim::choose("maxa", 4); } static const uint32_t mf[] = {1, 2, 1000}; w_.max_faults = mf[sim::choose("mf", 3)];
  Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(clen(buf)); static const int ks[] = {ASYNC, SLOW, SYNC, XASYNC, XSYNC, MASYNC, MSYNC}; int kind = ks[sim::choose("kind", 7)]; World1 w(kind); { Reader r; sim::enable_faults(false); bool early = sim::flip("early", 0.5); bool opened = true; if (kind != SLOW) sim::enable_faults(early);
    try { r.open(kind, &w.t, data, buf); } catch (const std::exception &) { opened = false; }
    sim::enable_faults(true); if (opened) { if (r.slow) { r.slow->fails = w_.max_faults; r.slow->pfail = p; }
    Model m; m.d = data; Allow al; al.past = true; al.errors = true; static const uint32_t ops[] = {0, 0, 1, 2, 4, 5, 7, 7}; int n = 1 + sim::choose("steps", 30); bool bad = false;
    for (int i = 0; i < n && !bad; i++) { bad = !check_eof(r, m, al); if (!bad) bad = !reader_step(r, m, al, ops[sim::choose("op", 8)]); }
    if (bad) { // still not the end, and no bits are invented
      for (int i = 0; i < 3; i++) { m.p = r.bs->getpos(); if (m.p > m.total()) sim::fail("position", "beyond the end after an error"); if (!check_eof(r, m, al)) continue; if (!m.left()) break; uint64_t was = m.p; if (reader_step(r, m, al, 0)) SIM_CHECK(m.p >= was, "value", "moved back"); }
      sim::enable_faults(false); if (r.slow) r.slow->fails = 0;
      // moving reads again
      if (sim::flip("again", again)) { for (int k = 0; k < 2; k++) { uint64_t to = sim::choose("againto", (uint32_t)data->size() + 1); try { r.bs->set_position(to); m.p = to * 8; uint32_t s = (uint32_t)std::min<uint64_t>(32, m.left()); uint32_t v = r.bs->nextbits(s); SIM_CHECK(v == m.peek(s), "value", "after an error and moving to %llu: %08x instead of %08x", (unsigned long long)to, v, m.peek(s)); } catch (const EndOfData &) { sim::fail("false-end", "end of data at byte %llu of %zu after an error", (unsigned long long)to, data->size()); } catch (const std::exception &) { sim::fail("error", "moving to byte %llu of %zu after an error, with a healthy storage, and reading there fails on %s, buffer %u", (unsigned long long)to, data->size(), kind_names[r.kind], r.buf); } } } }
    sim::covered(hmix(m.p, kind * 2 + bad)); r.done(false); } sim::enable_faults(false); } w.end(true); Q(delete data); }
  c.check();
}
}
SCENARIO(C15, errors, 3) { errors_run(0.2); }
SCENARIO(C16, recovering, 2) { errors_run(1); }
// ---------------------------------------------------------------- C16
SCENARIO(C16, seek, 4) {
  timing(); Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(clen(buf)); int kind = pick_kind(); World1 w(kind); { Reader r; r.open(kind, &w.t, data, buf); Model m; m.d = data; Allow al; al.seek = true; al.past = true; static const uint32_t ops[] = {9, 9, 9, 0, 0, 1, 5, 7, 4, 6}; 
  consume(r, m, al, 1 + sim::choose("steps", 30), ops, 10, 0.2); sim::covered(hmix(m.p, kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
}
namespace { void far_reader(const uint32_t *ops, uint32_t nops) { // where positions do not fit in 32 bits
  timing(); Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(1 + clen(buf)); static const int ks[] = {ASYNC, SYNC, XASYNC, XSYNC, MASYNC, MSYNC}; int kind = ks[sim::choose("kind", 6)]; World1 w(kind); { Reader r; uint64_t base = far_place(); r.open(kind, &w.t, data, buf, base); Model m; m.d = data; m.base = base; Allow al; al.seek = true; al.past = true;
    uint64_t to = base - sim::choose("before", 200); r.bs->set_position(to); m.p = to * 8; SIM_CHECK(r.bs->getpos() == m.p && r.bs->get_position() == to, "position", "at bit %llu after moving to byte %llu", (unsigned long long)r.bs->getpos(), (unsigned long long)to);
    consume(r, m, al, 1 + sim::choose("steps", 25), ops, nops, 0.2); sim::covered(hmix(m.p - base, kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
}
}
SCENARIO(C16, far, 2) { static const uint32_t ops[] = {9, 9, 0, 0, 1, 5, 7, 4, 6, 8}; far_reader(ops, 10); }
SCENARIO(C14, far, 1) { static const uint32_t ops[] = {0, 0, 1, 2, 3, 5, 7, 4, 6, 8}; far_reader(ops, 10); }
SCENARIO(C15, far, 1) { static const uint32_t ops[] = {0, 0, 1, 5, 7, 7, 4}; far_reader(ops, 7); }
// ---------------------------------------------------------------- C17
namespace {
struct WModel { std::string out; uint64_t p = 0, base = 0; unsigned char pend = 0; std::vector<bool> done; 
  void bit(int b) { if (!(p & 7)) pend = 0; if (b) pend |= 0x80 >> (p & 7); p++; if (!(p & 7)) { size_t i = (p >> 3) - 1 - base; if (out.size() <= i) { out.resize(i + 1); done.resize(i + 1); } out[i] = (char)pend; done[i] = true; } }
  void bits(uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) bit((v >> i) & 1); }
  void lbits(uint32_t v, int n) { int i = 0; for (; n >= 8; n -= 8, i++) bits((v >> (8 * i)) & 0xff, 8); if (n) bits((v >> (8 * i)) & ((1u << n) - 1), n); }
};
enum { W_MEM, W_SYNC, W_ASYNC, W_SLOW, W_XASYNC, W_XSYNC, W_MASYNC, W_MSYNC, W_MMEM };
const char *const wnames[] = {"memory", "sync file", "async file", "slow storage", "_file_bitstream", "_sync_file_bitstream", "file_media_bitstream", "sync_file_media_bitstream", "memory_write_media_bitstream"};
int w_loop(int k) { return k == W_ASYNC || k == W_XASYNC || k == W_MASYNC ? (int)ASYNC : (int)MEM; }
struct Writer {
  int kind; IBitstream *bs = nullptr; std::function<void()> del; SlowStore *slow = nullptr; CResource<file_bitstream> fb; CResource<sync_file_bitstream> sf; CResource<SlowStore> sr; write_memory_bitstream *mem = nullptr; _file_bitstream *xf = nullptr; _sync_file_bitstream *xs = nullptr; std::function<void()> mclose; MemMediaW *mm = nullptr; std::string store; uint32_t buf; uint64_t base = 0; const char *path = "/sim/out";
  void open(int k, LT *loop, uint32_t b) { kind = k; buf = b; if (sim::flip("old", 0.5)) Q(sim::disk_put(path, pattern(5000, 9)));
    switch (k) {
    case W_MEM: mem = new write_memory_bitstream(sim::choose("mcap", 3) * 40 + 1 + sim::choose("mcap1", 20), b); bs = mem; { auto *p = mem; Q(del = [p] { delete p; }); } break;
    case W_SYNC: { sf = CResource<sync_file_bitstream>(new sync_file_bitstream(path, false)); auto *p = new bitstream<sync_file_bitstream>(sf, false, b); bs = p; Q(del = [p] { delete p; }); break; }
    case W_XSYNC: { auto *p = new _sync_file_bitstream(b); Q(del = [p] { delete p; }); try { p->open(path, false); } catch (...) { delete p; Q(del = nullptr); throw; } xs = p; bs = p; break; }
    case W_ASYNC: { fb = CResource<file_bitstream>(new file_bitstream(*loop)); fb->open_write_sync(path); auto *p = new bitstream<file_bitstream>(fb, false, b); bs = p; Q(del = [p] { delete p; }); break; }
    case W_XASYNC: { auto *p = new _file_bitstream(*loop, b); try { p->open(path, O_CREAT | O_WRONLY | O_TRUNC); } catch (...) { delete p; throw; } xf = p; bs = p; Q(del = [p] { delete p; }); break; }
    case W_MASYNC: { auto *p = new FileMediaW(*loop, b); try { p->open(path); } catch (...) { delete p; throw; } bs = p->_p_f; Q(mclose = [p] { p->close(); }; del = [p] { delete p; }); break; }
    case W_MSYNC: { auto *p = new SyncMediaW(b); Q(del = [p] { delete p; }); try { if (sim::flip("two", 0.5)) p->open(path, false); else p->open(path); } catch (...) { delete p; Q(del = nullptr); throw; } bs = p->_p_f; Q(mclose = [p] { p->close(); }); break; }
    case W_MMEM: { mm = new MemMediaW; auto *p = mm; Q(del = [p] { delete p; }); if (sim::flip("twice", 0.3)) { p->open(10); p->_p_f->putbits(0x1234, 16); p->close(); } p->open(sim::choose("mcap", 3) * 40 + 1 + sim::choose("mcap1", 20)); bs = p->_p_f; break; }
    case W_SLOW: { slow = new SlowStore(&store, false); if (slow->hi > 100 * MS) slow->hi = 100 * MS; sr = CResource<SlowStore>(slow); auto *p = new bitstream<SlowStore>(sr, false, b); bs = p; Q(del = [p] { delete p; }); break; }
    } }
  bool can_seek_gap() const { return kind != W_MEM && kind != W_MMEM; }
  bool overwrite() const { return kind == W_MEM || kind == W_MMEM || kind == W_SYNC || kind == W_XSYNC || kind == W_MSYNC || (kind == W_SLOW && slow->ordered); }
  // the documented way to finish: flush, then what the storage needs, then destroy
  void finish() { if (mclose) mclose(); else if (mm) { if (sim::flip("mmf", 0.5)) mm->flush(); else bs->flush(); const MemMediaW *c = mm; sim::Quiet q; store.assign((const char *)c->get_buffer(), c->get_size()); SIM_CHECK(mm->storage().size() == store.size(), "content", "the storage holds %llu bytes, the size is said to be %zu", (unsigned long long)mm->storage().size(), store.size()); } else bs->flush(); if (mem) { sim::Quiet q; store.assign((const char *)mem->get_buffer(), mem->get_size()); }
    uint32_t how = sim::choose("finish", 3);
    if (kind == W_SYNC) { if (how == 0) sf->flush(); else if (how == 1) sf->close(); }
    if (kind == W_XSYNC && how) xs->close();
    if (kind == W_XASYNC && how) xf->close();
    if (kind == W_ASYNC && how == 1) fb->close(false);
    bool early = how == 0 && sim::flip("readearly", 0.3) && (kind == W_SYNC || kind == W_XSYNC); if (early) { sim::Quiet q; store = sim::disk_get(path, base); }
    drop(); if (kind != W_MEM && kind != W_MMEM && kind != W_SLOW) { if (!early) { sim::Quiet q; store = sim::disk_get(path, base); } } }
  void drop() { if (del) del(); { sim::Quiet q; del = nullptr; mclose = nullptr; } mm = nullptr; fb = CResource<file_bitstream>(); sf = CResource<sync_file_bitstream>(); sr = CResource<SlowStore>(); slow = nullptr; bs = nullptr; }
  ~Writer() { sim::Quiet q; std::string().swap(store); }
};
void writer_step(Writer &w, WModel &m) {
  IBitstream &b = *w.bs; uint32_t op = sim::choose("wop", 14); uint32_t n = 0; const char *what = ""; uint64_t before = m.p; uint32_t got = 0, want = 0; if (sim::flip("bad", 0.02)) refused(b, false, m.p, wnames[w.kind]);
  switch (op) {
  case 0: case 1: case 2: case 3: case 4: { what = "putbits"; n = sim::choose("n", 33); if (sim::flip("n32", 0.2)) n = 32; uint32_t v = (uint32_t)hmix(m.p, n) ; Q(m.bits(v, n)); b.putbits(v, n); break; }
  case 5: case 6: { what = "little_putbits"; n = sim::choose("n", 33); uint32_t v = (uint32_t)hmix(m.p, n + 50); Q(m.lbits(v, n)); b.little_putbits(v, n); break; }
  case 7: case 13: { what = op == 7 ? "align" : "nextcode"; n = (uint32_t)aligns[sim::choose("n", nal(0.005))]; uint32_t s = 0; sim::Quiet *q = new sim::Quiet; while (m.p % 8) { m.bit(0); s++; } while (m.p % n) { m.bits(0, 8); s += 8; } delete q; want = s; got = op == 7 ? b.align(n) : b.nextcode(1, 24, n); if (op == 13 && sim::flip("noal", 0.2)) { uint32_t z = b.nextcode(1, 24, 0); SIM_CHECK(!z, "value", "nextcode without alignment wrote %u bits", z); } break; }
  case 8: { what = "skipbits"; static const uint32_t mx[] = {40, 8, 300, 3000}; n = sim::choose("n", mx[sim::choose("nk", 4)]); Q(for (uint32_t i = 0; i < n; i++) m.bit(0)); b.skipbits((short)n); break; }
  case 9: case 10: { what = "write"; if (m.p % 8) { uint32_t k = 8 - m.p % 8; Q(m.bits(0x5a, k)); b.putbits(0x5a, k); } static const uint32_t mx[] = {20, 3, 200, 3000}; n = 1 + sim::choose("n", mx[sim::choose("nk", 4)]); unsigned char *mem = new unsigned char[n]; { sim::Quiet q; std::string s = pattern(n, m.p + 3); memcpy(mem, s.data(), n); for (unsigned char ch : s) m.bits(ch, 8); } try { b.write(mem, n); } catch (...) { delete[] mem; throw; } { sim::Quiet q; memset(mem, 0xee, n); } delete[] mem; break; }
  case 11: what = "flush"; b.flush(); break;
  case 12: { what = "set_position"; if (m.p % 8) { uint32_t k = 8 - m.p % 8; Q(m.bits(0x3c, k)); b.putbits(0x3c, k); } uint64_t to, end = m.base + m.out.size(); bool ow = w.overwrite();
    if (ow && sim::flip("back", 0.6)) to = m.base + sim::choose("to", (uint32_t)m.out.size() + 1); else if (w.can_seek_gap() && sim::flip("gap", 0.7)) to = end + sim::choose("to", 60); else to = end;
    n = (uint32_t)to; m.p = to * 8; b.set_position(to); break; }
  }
  SIM_CHECK(got == want, "value", "%s(%u) from bit %llu wrote %u bits instead of %u", what, n, (unsigned long long)before, got, want);
  SIM_CHECK(b.getpos() == m.p && b.get_position() == m.p / 8, "position", "after %s(%u) from bit %llu on %s, buffer %u: at bit %llu instead of %llu", what, n, (unsigned long long)before, wnames[w.kind], w.buf, (unsigned long long)b.getpos(), (unsigned long long)m.p);
}
void writer_result(Writer &w, WModel &m) {
  sim::Quiet q; size_t i = 0; while (i < m.out.size() && i < w.store.size() && m.out[i] == w.store[i]) i++;
  SIM_CHECK(w.store.size() == m.out.size(), "content", "%zu bytes on %s instead of %zu, buffer %u, first difference at %zu", w.store.size(), wnames[w.kind], m.out.size(), w.buf, i);
  SIM_CHECK(i == m.out.size(), "content", "byte %zu of %zu on %s, buffer %u: %02x instead of %02x", i, m.out.size(), wnames[w.kind], w.buf, (unsigned char)w.store[i], (unsigned char)m.out[i]);
}
}
SCENARIO(C17, write, 4) {
  timing(); Clean c; { static const int ks[] = {W_ASYNC, W_SLOW, W_MEM, W_SYNC, W_XASYNC, W_XSYNC, W_MASYNC, W_MSYNC, W_MMEM}; int kind = ks[sim::choose("kind", 9)]; World1 w(w_loop(kind)); { Writer wr; wr.open(kind, &w.t, bufsize()); WModel m; int n = sim::choose("steps", 40);
    for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.1)) sim::sleep(sim::choose("gapn", 40) * MS + 1); writer_step(wr, m); }
    wr.finish(); writer_result(wr, m); sim::covered(hmix(m.p, kind * 100000 + wr.buf)); sim::Quiet q; std::string().swap(m.out); std::vector<bool>().swap(m.done); } w.end(false); }
  c.check();
}
SCENARIO(C17, far, 1) {
  timing(); Clean c; { static const int ks[] = {W_ASYNC, W_SYNC, W_XASYNC, W_XSYNC, W_MASYNC, W_MSYNC}; int kind = ks[sim::choose("kind", 6)]; World1 w(w_loop(kind)); { Writer wr; wr.open(kind, &w.t, bufsize()); WModel m; m.base = wr.base = far_place(); m.p = m.base * 8; wr.bs->set_position(m.base); SIM_CHECK(wr.bs->getpos() == m.p && wr.bs->get_position() == m.base, "position", "at bit %llu after moving to byte %llu", (unsigned long long)wr.bs->getpos(), (unsigned long long)m.base); int n = sim::choose("steps", 30);
    for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.1)) sim::sleep(sim::choose("gapn", 40) * MS + 1); writer_step(wr, m); }
    wr.finish(); writer_result(wr, m); sim::covered(hmix(m.p - m.base * 8, kind * 100000 + wr.buf)); sim::Quiet q; std::string().swap(m.out); std::vector<bool>().swap(m.done); } w.end(false); }
  c.check();
}
SCENARIO(C17, large, 1) { // buffers and pieces longer than a small integer can count, and as many writes outstanding
  timing(); Clean c; { static const int ks[] = {W_ASYNC, W_SLOW, W_MEM, W_SYNC, W_XASYNC, W_XSYNC, W_MASYNC, W_MSYNC}; static const uint32_t bs[] = {65536, 70000, 140000, 33000}; int kind = ks[sim::choose("kind", 8)]; bool rare = sim::flip("rare", 0.15), small = sim::flip("smallbuf", 0.08); World1 w(w_loop(kind)); { Writer wr; wr.open(kind, &w.t, small ? 8 : bs[sim::choose("bs", 4)]); if (wr.slow && small) wr.slow->lo = wr.slow->hi = 100 * MS; std::string want; int n = 1 + sim::choose("steps", small ? 6 : 8); uint64_t p = 0;
    for (int i = 0; i < n; i++) { uint32_t k = 1 + sim::choose("k", small ? 4000 : rare ? 150000 : 3000); unsigned char *mem = new unsigned char[k]; { sim::Quiet q; std::string d = pattern(k, i + 7); memcpy(mem, d.data(), k); want += d; } if (sim::flip("bits", small ? 0.8 : 0.2)) { uint32_t nb = std::min<uint32_t>(k, 3000); for (uint32_t j = 0; j < nb; j++) wr.bs->putbits(mem[j], 8); Q(want.resize(want.size() - (k - nb))); k = nb; } else wr.bs->write(mem, k); { sim::Quiet q; memset(mem, 0xee, k); } delete[] mem; p += k; SIM_CHECK(wr.bs->get_position() == p && wr.bs->getpos() == p * 8, "position", "at byte %llu after writing %llu on %s, buffer %u", (unsigned long long)wr.bs->get_position(), (unsigned long long)p, wnames[kind], wr.buf); if (sim::flip("fl", 0.1)) wr.bs->flush(); }
    wr.finish(); { sim::Quiet q; size_t i = 0; while (i < want.size() && i < wr.store.size() && want[i] == wr.store[i]) i++; SIM_CHECK(wr.store.size() == want.size() && i == want.size(), "content", "%zu bytes on %s instead of %zu, buffer %u, first difference at %zu", wr.store.size(), wnames[kind], want.size(), wr.buf, i); } sim::covered(hmix(p, kind * 1000000 + wr.buf)); Q(std::string().swap(want)); } w.end(false); }
  c.check();
}
// several writers share a loop; each its own file
SCENARIO(C17, together, 2) {
  timing(); Clean c; { LT t; mk_loop(t); int n = 2 + sim::choose("nw", 2); std::vector<int> ids; for (int i = 0; i < n; i++) { int id = sim::go("writer", [&t, i] { char path[32]; snprintf(path, sizeof path, "/sim/out%d", i); { CResource<file_bitstream> f(new file_bitstream(t)); f->open_write_sync(path); uint32_t bs = bufsize(); { Writer w; w.kind = W_ASYNC; w.buf = bs; w.fb = f; auto *p = new bitstream<file_bitstream>(f, false, bs); w.bs = p; Q(w.del = [p] { delete p; }); WModel m; int k = 1 + sim::choose("steps", 15); for (int j = 0; j < k; j++) writer_step(w, m); p->flush(); w.drop(); f->close(false); { sim::Quiet q; w.store = sim::disk_get(path); } writer_result(w, m); sim::Quiet q; std::string().swap(m.out); std::vector<bool>().swap(m.done); } } }); Q(ids.push_back(id)); } for (int id : ids) sim::join(id); t->end(); Q(std::vector<int>().swap(ids)); }
  c.check();
}
// ---------------------------------------------------------------- C29
SCENARIO(C29, failing, 4) { // told, or the content is right
  timing(); sim::World &w_ = sim::world(); static const double pf[] = {0.2, 0.05, 0.7}; double p = pf[sim::choose("pf", 3)]; uint32_t fk = sim::choose("fk", 4); w_.p_eio = fk == 0 || fk == 3 ? p : 0; w_.p_short_write = fk == 1 || fk == 3 ? p : 0; if (fk == 2) w_.disk_capacity = 4096 * (1 + sim::choose("cap", 3)); static const uint32_t mf[] = {1, 2, 1000}; w_.max_faults = mf[sim::choose("mf", 3)]; if (sim::flip("mem", 0.2)) { w_.p_alloc = p * 0.3; w_.max_alloc_faults = 1 + sim::choose("maxa", 4); }
  Clean c; { static const int ks[] = {W_ASYNC, W_XASYNC, W_SYNC, W_XSYNC, W_SLOW, W_MASYNC, W_MSYNC}; int kind = ks[sim::choose("kind", 7)]; World1 w(w_loop(kind)); bool told = false, store_told = false; { Writer wr; WModel m; bool opened = false; bool early = sim::flip("early", 0.3); sim::enable_faults(early);
    try { wr.open(kind, &w.t, bufsize()); opened = true; } catch (const std::exception &) { told = true; }
    sim::enable_faults(true);
    if (opened) { if (wr.slow && !w_.disk_capacity) { wr.slow->fails = w_.max_faults; wr.slow->pfail = p; }
      try { int n = 1 + sim::choose("steps", 30); for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.1)) sim::sleep(sim::choose("gapn", 40) * MS + 1); writer_step(wr, m); } } catch (const std::exception &) { told = true; }
      // finish: with no reliance on the destructor
      if (!told) { try { if (wr.mclose) wr.mclose(); else wr.bs->flush(); if (kind == W_SYNC) { if (sim::flip("fl", 0.5)) wr.sf->flush(); wr.sf->close(); } if (kind == W_XSYNC) wr.xs->close(); if (kind == W_ASYNC) wr.fb->close(false); if (kind == W_XASYNC) wr.xf->close(); } catch (const std::exception &) { told = true; } }
      store_told = wr.slow && wr.slow->told; if (wr.slow) { SlowStore *s = wr.slow; for (int i = 0; i < 200 && !s->quiet(); i++) sim::sleep(50 * MS); sim::sleep(20 * MS); store_told = s->told; }
      wr.drop(); }
    sim::enable_faults(false);
    bool owner = false; try { if (w.used) w.t->end(); } catch (const std::exception &) { owner = true; }
    if (opened && !told && !owner && !store_told) { if (kind != W_SLOW) { sim::Quiet q; wr.store = sim::disk_get("/sim/out"); } writer_result(wr, m); }
    sim::covered(hmix(m.p, kind * 4 + told * 2 + owner)); sim::Quiet q; std::string().swap(m.out); std::vector<bool>().swap(m.done); } }
  c.check();
}
// ---------------------------------------------------------------- C33
namespace {
// readers on their threads -> a queue -> a writer on its thread -> a copy
struct Sample { uint32_t prod, seq, len, flags; };
struct Rec { uint32_t seq, len, flags; };
std::string payload(uint32_t prod, uint32_t seq, uint32_t len) { return pattern(len, prod * 5000 + seq + 3); }
void encode(WModel &m, uint32_t prod, const Rec &r, uint32_t al) { m.bits(prod, 8); m.lbits(r.seq, 16); m.bits(r.flags, 3); m.bits(r.len, 13); for (unsigned char c : payload(prod, r.seq, r.len)) m.bits(c, 8); if (al) while (m.p % al) m.bits(0, 8); }
template <class QT> struct Pipe {
  QT &q; bool faults, grows; uint32_t al; signal_event more, room; std::vector<Rec> recs[2]; std::string *data[2] = {nullptr, nullptr}; Reader r[2]; Writer w; WModel m; int nr, running; bool broken = false, wtold = false, rtold[2] = {false, false}, stopped[2] = {false, false}; uint32_t popped[2] = {0, 0}, total = 0, pushed[2] = {0, 0};
  Pipe(QT &qq, bool f, bool g) : q(qq), faults(f), grows(g), al(0), nr(1), running(0) {}
  struct ReadThread : cthread { Pipe *p; int i; virtual void run() { p->read(*this, i); } bool asked() { return should_stop(0); } };
  struct WriteThread : cthread { Pipe *p; virtual void run() { p->write(); } };
  ReadThread rt[2]; WriteThread wt;
  void read(ReadThread &self, int i) {
    IBitstream &b = *r[i].bs; const char *on = kind_names[r[i].kind];
    try { uint32_t n = b.getbits(32); SIM_CHECK(n == recs[i].size(), "content", "%u records instead of %zu said to come on %s", n, recs[i].size(), on); uint32_t k = 0;
      while (!b.eof() && !broken) { if (self.asked()) { stopped[i] = true; break; } SIM_CHECK(k < n, "content", "more than %u records on %s", n, on); const Rec &e = recs[i][k]; Sample s; if (sim::flip("peek", 0.2)) { uint32_t v = b.nextbits(8); SIM_CHECK(v == (uint32_t)i, "content", "the tag of record %u on %s is %u", k, on, v); } s.prod = b.getbits(8); s.seq = b.little_getbits(16); s.flags = b.getbits(3); s.len = b.getbits(13);
        SIM_CHECK(s.prod == (uint32_t)i && s.seq == e.seq && s.len == e.len && s.flags == e.flags, "content", "record %u on %s reads as tag %u, number %u, length %u", k, on, s.prod, s.seq, s.len);
        std::unique_ptr<unsigned char[]> mem(new unsigned char[s.len + 1]); if (s.len < 20 && sim::flip("bybyte", 0.3)) { for (uint32_t j = 0; j < s.len; j++) mem[j] = b.getbits(8); } else { uint32_t rd = 0; b.read(mem.get(), s.len, &rd); SIM_CHECK(rd == s.len, "content", "%u bytes of record %u instead of %u on %s", rd, k, s.len, on); } if (al) b.align(al);
        for (;;) { room.reset(); if (broken) break; if (q.push(s, mem.get(), s.len, true)) { Q(pushed[i]++); break; } room.wait(); }
        { sim::Quiet k2; memset(mem.get(), 0xee, s.len); } more.signal(); k++; if (sim::flip("gap", 0.1)) sim::sleep(sim::choose("gapn", 30) * MS + 1); }
      if (!broken && !stopped[i]) SIM_CHECK(k == n, "content", "the data ended after %u of %u records on %s", k, n, on);
    } catch (const mgexceptionbase &x) { rtold[i] = true; SIM_CHECK(faults, "error", "a reader got error %d on a healthy storage, %s", x.get_error_number(), on); } catch (const std::exception &) { rtold[i] = true; SIM_CHECK(faults, "error", "a reader got an error on a healthy storage, %s", on); }
    Q(running--); more.signal(); }
  void write() {
    try { for (;;) { more.reset(); Sample s; unsigned char *mem = nullptr; bool have = false, end = false; int rd = 0; if (grows && sim::flip("direct", 0.4)) { // nobody else takes anything out
          bool none = running == 0; if (q.size() > 0) { int room2 = 9000; if (sim::flip("ask", 0.3)) { s = q.pop(nullptr, 0, &rd); room2 = rd; SIM_CHECK(rd >= 0 && (uint32_t)rd == s.len, "content", "a sample of %u bytes is said to have %d", s.len, rd); } std::unique_ptr<unsigned char[]> own(new unsigned char[room2 + 1]); s = q.pop(own.get(), room2, &rd); mem = own.release(); have = true; } else end = none; }
        else { auto_lock l(q.get_lock()); if (q.size() > 0) { int room2 = 9000; if (sim::flip("ask", 0.3)) { s = q.pop(nullptr, 0, &rd); room2 = rd; SIM_CHECK(rd >= 0 && (uint32_t)rd == s.len, "content", "a sample of %u bytes is said to have %d", s.len, rd); } std::unique_ptr<unsigned char[]> own(new unsigned char[room2 + 1]); s = q.pop(own.get(), room2, &rd); mem = own.release(); have = true; } else end = running == 0; }
        if (!have) { if (end) break; more.wait(); continue; } std::unique_ptr<unsigned char[]> own(mem); room.signal();
        SIM_CHECK(s.prod < (uint32_t)nr && popped[s.prod] < recs[s.prod].size(), "content", "a sample nobody pushed came out of the queue"); { sim::Quiet k; const Rec &e = recs[s.prod][popped[s.prod]]; SIM_CHECK(s.seq == e.seq && s.len == e.len && s.flags == e.flags && (uint32_t)rd == e.len, "order", "number %u of %u bytes instead of %u of %u came out of the queue", s.seq, s.len, e.seq, e.len); std::string d = payload(s.prod, e.seq, e.len); SIM_CHECK(!memcmp(d.data(), mem, e.len), "content", "the bytes of record %u changed on their way", e.seq); popped[s.prod]++; encode(m, s.prod, e, al); }
        IBitstream &b = *w.bs; b.putbits(s.prod, 8); b.little_putbits(s.seq, 16); b.putbits(s.flags, 3); b.putbits(s.len, 13); if (s.len < 20 && sim::flip("bybyte", 0.3)) { for (uint32_t j = 0; j < s.len; j++) b.putbits(mem[j], 8); } else if (s.len) b.write(mem, s.len); { sim::Quiet k; memset(mem, 0xee, s.len); } if (al) b.align(al); if (sim::flip("wflush", 0.05)) b.flush(); if (sim::flip("wgap", 0.1)) sim::sleep(sim::choose("gapn", 30) * MS + 1); }
      finish(); } catch (const mgexceptionbase &x) { wtold = true; SIM_CHECK(faults, "error", "the writer got error %d on a healthy storage, %s", x.get_error_number(), wnames[w.kind]); } catch (const std::exception &) { wtold = true; SIM_CHECK(faults, "error", "the writer got an error on a healthy storage, %s", wnames[w.kind]); }
    if (wtold) { Q(broken = true); room.signal(); for (int i = 0; i < 200 && running; i++) { sim::sleep(50 * MS); room.signal(); } } }
  void finish() { // the number of records goes where it was left out
    IBitstream &b = *w.bs; if (w.overwrite()) { uint32_t n = popped[0] + popped[1]; uint64_t at = m.p; b.set_position(0); b.putbits(n, 32); b.set_position(at / 8); { sim::Quiet k; m.p = 0; m.bits(n, 32); m.p = at; } }
    if (!faults) { w.finish(); return; }
    if (w.mclose) w.mclose(); else b.flush(); if (w.kind == W_SYNC) { if (sim::flip("fl", 0.5)) w.sf->flush(); w.sf->close(); } if (w.kind == W_XSYNC) w.xs->close(); if (w.kind == W_ASYNC) w.fb->close(false); if (w.kind == W_XASYNC) w.xf->close(); }
  bool open(LT &t, int rk0, int rk1, int wk, int idx, bool early) { static const char *const in[2][2] = {{"/sim/in00", "/sim/in01"}, {"/sim/in10", "/sim/in11"}}, *const out[2] = {"/sim/out0", "/sim/out1"};
    { static const uint32_t as[] = {0, 0, 32, 16, 64}; al = as[sim::choose("al", 5)]; nr = 1 + sim::flip("two readers", 0.3); uint32_t per = 1 + sim::choose("per", 14); for (int i = 0; i < nr; i++) { sim::Quiet k; WModel e; e.bits(0, 32); uint32_t n = sim::flip("none", 0.03) ? 0 : per; for (uint32_t j = 0; j < n; j++) { Rec x; x.seq = j * 3 + 7; x.flags = sim::choose("fl", 8); switch (sim::choose("lk", 4)) { case 0: x.len = sim::choose("len", 40); break; case 1: x.len = sim::choose("len", 300); break; case 2: x.len = 0; break; default: x.len = sim::choose("len", sim::flip("big", 0.2) ? 8192 : 1000); } recs[i].push_back(x); encode(e, i, x, al); } uint64_t at = e.p; e.p = 0; e.bits(n, 32); e.p = at; total += n; data[i] = new std::string(e.out); } }
    int rk[2] = {rk0, rk1}; try { for (int i = 0; i < nr; i++) { r[i].path = in[idx][i]; sim::enable_faults(early && rk[i] != SLOW && rk[i] != MEM && rk[i] != FIXED && rk[i] != MEMW); bool ok = false; try { uint32_t bs = bufsize(); if (data[i]->size() / bs > 1000) bs = 8192; r[i].open(rk[i], &t, data[i], bs); ok = true; } catch (const std::exception &) { r[i].bs = nullptr; SIM_CHECK(faults, "error", "cannot open on a healthy disk"); } if (!ok) return false; }
      w.path = out[idx]; sim::enable_faults(early && wk != W_SLOW); uint32_t bs = bufsize(); if (total && (data[0]->size() + (nr > 1 ? data[1]->size() : 0)) / bs > 1000) bs = 8192; w.open(wk, &t, bs); w.bs->putbits(total, 32); Q(m.bits(total, 32)); return true; } catch (const std::exception &) { SIM_CHECK(faults, "error", "cannot open on a healthy disk"); } return false; }
  void run() { for (int i = 0; i < nr; i++) { rt[i].p = this; rt[i].i = i; } wt.p = this; Q(running = nr); if (sim::flip("wfirst", 0.5)) { wt.start(); for (int i = 0; i < nr; i++) rt[i].start(); } else { for (int i = 0; i < nr; i++) rt[i].start(); wt.start(); } }
  void wait() { if (sim::flip("cancel", 0.15)) { sim::sleep(sim::choose("cancelat", 300) * MS + 1); rt[0].stop(); } for (int i = 0; i < nr; i++) rt[i].join(); wt.join(); }
  bool store_told() { if (!w.slow) return false; SlowStore *s = w.slow; for (int i = 0; i < 200 && !s->quiet(); i++) sim::sleep(50 * MS); sim::sleep(20 * MS); return s->told; }
  void done() { for (int i = 0; i < nr; i++) if (r[i].bs) r[i].done(false); w.drop(); }
  void judge(bool opened, bool told_elsewhere) { if (opened) { for (int i = 0; i < nr; i++) { if (!broken) SIM_CHECK(popped[i] == pushed[i], "lost", "%u records of %u left the queue", popped[i], pushed[i]); if (!broken && !rtold[i] && !stopped[i]) SIM_CHECK(pushed[i] == recs[i].size(), "lost", "%u records of %zu came through", pushed[i], recs[i].size()); }
      if (!wtold && !told_elsewhere) { if (faults && w.kind != W_SLOW) Q(w.store = sim::disk_get(w.path)); writer_result(w, m); } } }
  ~Pipe() { sim::Quiet k; for (int i = 0; i < 2; i++) { std::vector<Rec>().swap(recs[i]); delete data[i]; } std::string().swap(m.out); std::vector<bool>().swap(m.done); }
};
void pipes(bool faults) {
  timing(); sim::World &w_ = sim::world(); static const int rks[] = {ASYNC, SYNC, XASYNC, XSYNC, MASYNC, MSYNC, SLOW, MEM, FIXED, MEMW}, wks[] = {W_ASYNC, W_SYNC, W_XASYNC, W_XSYNC, W_MASYNC, W_MSYNC, W_SLOW, W_MEM, W_MMEM};
  if (faults) { static const double pf[] = {0.1, 0.02, 0.5}; double p = pf[sim::choose("pf", 3)]; uint32_t fk = sim::choose("fk", 6); w_.p_eio = fk == 0 || fk == 3 ? p : 0; w_.p_short_write = fk == 1 || fk == 3 ? p : 0; w_.p_short_read = fk == 4 || fk == 3 ? p : 0; if (fk == 2) w_.disk_capacity = 4096 * (3 + sim::choose("cap", 20)); static const uint32_t mf[] = {1, 2, 1000}; w_.max_faults = mf[sim::choose("mf", 3)]; if (fk == 5 || sim::flip("mem", 0.2)) { w_.p_alloc = p * 0.3; w_.max_alloc_faults = 1 + sim::choose("maxa", 4); } }
  Clean c; { LT t; mk_loop(t); int np = sim::flip("two pipes", 0.2) ? 2 : 1; struct One { cfixed_queue<Sample> fq; grow_queue<Sample> gq; Pipe<cfixed_queue<Sample>> *pf = nullptr; Pipe<grow_queue<Sample>> *pg = nullptr; bool opened = false, st = false; One() : fq(false) {} } *one[2] = {nullptr, nullptr}; bool told = false;
    for (int i = 0; i < np; i++) { One *o = one[i] = new One; bool g = sim::flip("grow", 0.5); int a = rks[sim::choose("rk", 10)], b = rks[sim::choose("rk", 10)], k = wks[sim::choose("wk", faults ? 7 : 9)]; bool early = faults && sim::flip("early", 0.3); uint32_t over = 12 + sizeof(Sample) + 16; if (g) { o->gq.allocate(true, 24 + over + sim::choose("qs", 300)); o->pg = new Pipe<grow_queue<Sample>>(o->gq, faults, true); o->opened = o->pg->open(t, a, b, k, i, early); } else { o->fq.allocate(true, 24 + (over + 8192) * (1 + sim::choose("qsn", 3)) + sim::choose("qs", 300)); o->pf = new Pipe<cfixed_queue<Sample>>(o->fq, faults, false); o->opened = o->pf->open(t, a, b, k, i, early); }
      if (faults) { sim::Quiet q; SlowStore *ss[3]; if (o->pg) { ss[0] = o->pg->r[0].slow; ss[1] = o->pg->r[1].slow; ss[2] = o->pg->w.slow; } else { ss[0] = o->pf->r[0].slow; ss[1] = o->pf->r[1].slow; ss[2] = o->pf->w.slow; } for (SlowStore *s : ss) if (s && w_.p_eio > 0) { s->fails = w_.max_faults; s->pfail = w_.p_eio; } } sim::enable_faults(false); }
    for (int i = 0; i < np; i++) if (one[i]->opened) { if (one[i]->pg) one[i]->pg->run(); else one[i]->pf->run(); }
    sim::enable_faults(faults);
    for (int i = 0; i < np; i++) { One *o = one[i]; if (o->opened) { if (o->pg) o->pg->wait(); else o->pf->wait(); } }
    for (int i = 0; i < np; i++) { One *o = one[i]; if (o->pg) { if (o->opened) o->st = o->pg->store_told(); o->pg->done(); } else { if (o->opened) o->st = o->pf->store_told(); o->pf->done(); } }
    sim::enable_faults(false); w_.p_alloc = 0; w_.disk_capacity = ~0ull;
    for (int i = 0; i < np && !faults; i++) { One *o = one[i]; const char *from = o->pg ? o->pg->w.path : o->pf->w.path; int k = o->pg ? o->pg->w.kind : o->pf->w.kind; if (k == W_MEM || k == W_MMEM || k == W_SLOW || !sim::flip("copy", 0.4)) continue;
      { file_bitstream src(t), dst(t); src.open_sync(from); dst.open_sync("/sim/copied", O_CREAT | O_WRONLY | O_TRUNC); copy_stream(src, dst, 1 + sim::choose("chunk", 3) * 2000 + sim::choose("chunkn", 100) + 40); dst.close(false); } sim::Quiet q; SIM_CHECK(sim::disk_get("/sim/copied") == sim::disk_get(from), "content", "the copy of the output differs"); }
    try { t->end(); } catch (const std::exception &) { told = true; } SIM_CHECK(faults || !told, "error", "the owner of the loop was told of an error on a healthy storage");
    for (int i = 0; i < np; i++) { One *o = one[i]; if (o->pg) { o->pg->judge(o->opened, told || o->st); sim::covered(hmix(o->pg->m.p, o->pg->r[0].kind * 100 + o->pg->w.kind)); delete o->pg; } else { o->pf->judge(o->opened, told || o->st); sim::covered(hmix(o->pf->m.p, o->pf->r[0].kind * 100 + o->pf->w.kind + 50000)); delete o->pf; } delete o; } }
  c.check();
}
}
SCENARIO(C33, healthy, 4) { pipes(false); }
SCENARIO(C33, failing, 3) { pipes(true); }
// ---------------------------------------------------------------- C18
SCENARIO(C18, slow, 3) { // every read finishes within ten seconds
  timing(); sim::World &w_ = sim::world(); w_.p_stall = 0.4; w_.stall_lo = 1 * SEC; w_.stall_hi = 9 * SEC; w_.max_slow = 100 * MS; sim::limits().max_sim_ns = 3000 * SEC;
  Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(std::min<uint32_t>(clen(buf), 400)); static const int ks[] = {ASYNC, SLOW, XASYNC, MASYNC}; int kind = ks[sim::choose("kind", 4)]; World1 w(kind, true); { Reader r; if (buf < 8) buf = 8; r.open(kind, &w.t, data, buf); if (r.slow) { r.slow->pstall = 0.4; r.slow->slo = SEC; r.slow->shi = 8 * SEC; } Model m; m.d = data; Allow al; al.seek = true; al.past = true; static const uint32_t ops[] = {0, 1, 5, 7, 7, 9, 4, 8}; consume(r, m, al, 1 + sim::choose("steps", 12), ops, 8, 0.3); sim::covered(hmix(m.p, kind * 100000 + buf)); r.done(false); } w.end(false); Q(delete data); }
  c.check();
}
SCENARIO(C18, changing, 1) { // a file that loses its end, or gets more, under its reader
  timing(); sim::World &w_ = sim::world(); if (sim::flip("slowio", 0.5)) { w_.p_slow = 0.5; w_.max_slow = 50 * MS; } Clean c; { uint32_t buf = bufsize(), len, kept; std::string *data = mk_content(2 + clen(buf)), first, second; bool grow = sim::flip("grow", 0.3); { uint32_t full = (uint32_t)data->size(); kept = sim::choose("kept", full); len = grow ? kept : full; sim::Quiet q; first = data->substr(0, len); second = grow ? *data : data->substr(0, kept); }
    static const int ks[] = {ASYNC, SYNC, XASYNC, XSYNC, MASYNC, MSYNC}; int kind = ks[sim::choose("kind", 6)]; World1 w(kind); { Reader r; r.open(kind, &w.t, &first, buf); int tid = -1; if (sim::flip("before", 0.3)) Q(sim::disk_put(r.path, second)); else tid = sim::go("changer", [&] { sim::sleep(sim::choose("when", 400) * 300000 + 1); Q(sim::disk_put(r.path, second)); });
    Model m; m.d = data; int n = 1 + sim::choose("steps", 25), bad = 0, ends = 0; const char *on = kind_names[kind];
    for (int i = 0; i < n && bad < 5; i++) { if (sim::flip("gap", 0.3)) sim::sleep(sim::choose("gapn", 40) * MS + 1); uint64_t t0 = sim::now(), at = m.p, need = 0; bool end = false, threw = false; uint32_t k = 0, got = 0, op = sim::choose("op", 6);
      try { if (op < 2) { k = sim::choose("k", 33); need = k; got = r.bs->getbits(k); SIM_CHECK(got == m.peek(k), "value", "getbits(%u) at bit %llu on %s, buffer %u: %08x instead of %08x, while the file changed from %u to %zu bytes", k, (unsigned long long)at, on, r.buf, got, m.peek(k), len, second.size()); m.p += k; }
        else if (op < 4) { if (m.p % 8) { uint32_t z = 8 - m.p % 8; need = z; r.bs->skipbits((short)z); m.p = r.bs->getpos(); at = m.p; if (m.p % 8) continue; } k = 1 + sim::choose("kb", sim::flip("big", 0.3) ? 3000 : 60); need = 0; unsigned char *mem = new unsigned char[k]; try { r.bs->read(mem, k, &got); } catch (...) { delete[] mem; throw; } bool right = got <= k && at / 8 + got <= data->size() && !memcmp(mem, data->data() + at / 8, got); delete[] mem; SIM_CHECK(right, "value", "read(%u) at bit %llu on %s, buffer %u: %u bytes which are not the file's", k, (unsigned long long)at, on, r.buf, got); SIM_CHECK(got == k || at / 8 + got >= kept, "false-end", "read(%u) at byte %llu on %s, buffer %u: %u bytes, and %u have been there all the time", k, (unsigned long long)at / 8, on, r.buf, got, kept); m.p += got * 8ull; }
        else if (op == 4) { k = sim::choose("ks", 200); r.bs->skipbits((short)k); m.p = r.bs->getpos(); SIM_CHECK(m.p <= at + k && (m.p == at + k || m.p >= kept * 8ull), "position", "skipping %u bits from bit %llu led to bit %llu", k, (unsigned long long)at, (unsigned long long)m.p); }
        else { uint64_t to = sim::choose("to", (uint32_t)data->size() + 3); r.bs->set_position(to); m.p = r.bs->getpos(); SIM_CHECK(m.p == to * 8 || (m.p < to * 8 && m.p >= kept * 8ull), "position", "moving to byte %llu led to bit %llu on %s", (unsigned long long)to, (unsigned long long)m.p, on); }
      } catch (const EndOfData &) { end = true; ends++; } catch (const std::exception &) { threw = true; bad++; }
      SIM_CHECK(sim::now() - t0 < 60 * SEC, "slow", "a read took %llu ms", (unsigned long long)((sim::now() - t0) / MS));
      if (end) SIM_CHECK(at + need > kept * 8ull, "false-end", "end of data at bit %llu on %s, buffer %u, and %u bytes have been there all the time", (unsigned long long)at, on, r.buf, kept);
      if (end || threw) { m.p = r.bs->getpos(); if (ends > 4) break; } }
    if (tid >= 0) sim::join(tid); sim::covered(hmix(m.p, kind * 100 + bad * 10 + ends)); r.done(sim::flip("waitq", 0.5)); } w.end(true); sim::Quiet q; delete data; std::string().swap(first); std::string().swap(second); }
  c.check();
}
SCENARIO(C18, dead, 4) { // or not
  timing(); sim::World &w_ = sim::world(); w_.p_stall = 0.3; w_.stall_lo = 9 * SEC; w_.stall_hi = 45 * SEC; w_.max_slow = 100 * MS; sim::limits().max_sim_ns = 5000 * SEC; bool err = sim::flip("err", 0.4); if (err) { w_.p_eio = 0.2; w_.p_short_read = 0.1; if (sim::flip("mem", 0.3)) { w_.p_alloc = 0.05; w_.max_alloc_faults = 1 + sim::choose("maxa", 4); } }
  Clean c; { uint32_t buf = bufsize(); std::string *data = mk_content(std::min<uint32_t>(clen(buf), 400)); static const int ks[] = {ASYNC, SLOW, XASYNC, MASYNC}; int kind = ks[sim::choose("kind", 4)]; World1 w(kind, true); { Reader r; if (buf < 8) buf = 8; bool opened = true; uint64_t t0 = sim::now(); try { r.open(kind, &w.t, data, buf); } catch (const std::exception &) { opened = false; sim::fail("error", "cannot open"); } (void)t0; sim::enable_faults(err); if (opened) { if (r.slow) { r.slow->pstall = 0.3; r.slow->slo = 9 * SEC; r.slow->shi = 45 * SEC; if (err) { r.slow->fails = 2; r.slow->pfail = 0.2; } }
    Model m; m.d = data; Allow al; al.seek = true; al.past = true; al.dead = true; static const uint32_t ops[] = {0, 0, 1, 5, 7, 7, 9, 4}; int n = 1 + sim::choose("steps", 14); int bad = 0;
    for (int i = 0; i < n; i++) { bool ok = reader_step(r, m, al, ops[sim::choose("op", 8)]); if (ok && sim::flip("eof", 0.3)) check_eof(r, m, al); if (!ok) { bad++; m.p = r.bs->getpos(); SIM_CHECK(m.p <= m.total(), "position", "beyond the end after an error"); if (sim::flip("giveup", 0.4)) break; if (sim::flip("rest", 0.3)) sim::sleep(sim::choose("restn", 20) * SEC + 1); } }
    sim::covered(hmix(m.p, kind * 100 + bad)); sim::world().p_stall = 0; r.done(sim::flip("waitq", 0.6)); } sim::enable_faults(false); } w.end(true); Q(delete data); }
  c.check();
}
