// C08 - C13, C19 - C21: loop thread, asynchronous files, stream copy, synchronous files
#include "io.h"
#include <mg/media/TBitstream.h>

namespace {
struct Op {
  int id = 0; char kind = 'r'; uint64_t pos = 0; uint32_t size = 0; std::string data; int val = 0, er = 0, code = 0; bool short_ = false; bool in_cb = false, returned = false; uint64_t t_sub = 0, t_done = 0; int by = -1; std::string got;
  bool done() const { return val + er > 0; }
};
struct Ops { std::vector<Op *> v; std::vector<int> order; Op *add(char k, uint64_t pos, uint32_t size) { sim::Quiet q; Op *o = new Op; o->id = (int)v.size(); o->kind = k; o->pos = pos; o->size = size; o->t_sub = sim::now(); v.push_back(o); return o; } ~Ops() { sim::Quiet q; for (auto *o : v) delete o; std::vector<Op *>().swap(v); std::vector<int>().swap(order); } size_t done() { sim::Quiet q; size_t n = 0; for (auto *o : v) n += o->done(); return n; } };
void once(Ops *all, Op *o) { o->by = sim::self(); SIM_CHECK(!o->done(), "twice", "operation %d (%c) was delivered twice", o->id, o->kind); all->order.push_back(o->id); o->t_done = sim::now(); }
bool note_err(Ops *all, Op *o, std::exception_ptr e) { sim::Quiet q; once(all, o); o->er++; o->code = exc_code(e); return false; }
void on_read(CResource<CPromise<CBuffer<unsigned char> > > p, Ops *all, Op *o, std::function<void()> more = nullptr) {
  p->set_er([all, o, more](std::exception_ptr e) -> bool { note_err(all, o, e); if (more) more(); Q(o->returned = true); return false; })
   .set_cb([all, o, more](CResource<CBuffer<unsigned char> > &b) { { sim::Quiet q; once(all, o); o->got.assign((const char *)b->get(), b->size()); o->val++; } if (more) more(); Q(o->returned = true); });
}
void on_fs(CResource<CPromise<uv_fs_t> > p, Ops *all, Op *o, std::function<void(uv_fs_t *)> more = nullptr) {
  p->set_er([all, o](std::exception_ptr e) -> bool { note_err(all, o, e); Q(o->returned = true); return false; })
   .set_cb([all, o, more](CResource<uv_fs_t> &r) { { sim::Quiet q; once(all, o); o->val++; o->code = (int)r->result; } if (more) more(r); Q(o->returned = true); });
}
// raw operation on the loop, through its public interface
struct Raw { uv_fs_t req; Ops *all; Op *o; uv_loop_t *l; int chain; LT *t; std::vector<Raw *> *bag; };
void raw_submit(LT *t, Ops *all, int chain, std::vector<Raw *> *bag);
void raw_cb(uv_fs_t *r) {
  Raw *w = (Raw *)r->data; { sim::Quiet q; once(w->all, w->o); w->o->val++; }
  uv_fs_req_cleanup(r);
  if (w->chain) raw_submit(w->t, w->all, w->chain - 1, w->bag);
}
void raw_submit(LT *t, Ops *all, int chain, std::vector<Raw *> *bag) {
  Raw *w; { sim::Quiet q; w = new Raw; memset(&w->req, 0, sizeof w->req); w->all = all; w->chain = chain; w->t = t; w->bag = bag; w->req.data = w; bag->push_back(w); }
  auto_lock l((*t)->loop_lock());
  w->o = all->add('s', 0, 0);
  int r = uv_fs_stat((*t)->get_loop(), &w->req, "/cwd", raw_cb);
  SIM_CHECK(r == 0, "harness", "uv_fs_stat: %d", r);
  Q(w->o->returned = true);
}
}

// ---------------------------------------------------------------- C08
SCENARIO(C08, exactly_once, 4) {
  storage(false); sim::world().p_stat = 0; Clean c; Ops all; std::vector<Raw *> bag; std::vector<int> ids; bool stop_begun = false; size_t before_stop = 0;
  { LT t; mk_loop(t, false); bool late_start = sim::flip("late", 0.2); if (!late_start) t->start();
    int ns = 1 + sim::choose("ns", 3); bool nudge = sim::flip("nudge", 0.4);
    bool race_stop = sim::flip("race", 0.5); int nstop = 1 + sim::choose("nstop", 2);
    for (int s = 0; s < ns; s++) { int id = sim::go("submitter", [&, nudge] {
      int n = 1 + sim::choose("n", 4);
      for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.4)) sim::sleep(1 + sim::choose("gapn", 150) * MS); { sim::Quiet q; if (race_stop && stop_begun) break; } raw_submit(&t, &all, sim::choose("chain", 3), &bag); if (nudge) t->loop_now(); }
    }); Q(ids.push_back(id)); }
    if (late_start) { sim::sleep(sim::choose("ls", 30) * MS + 1); t->start(); }
    if (!race_stop) for (int id : ids) sim::join(id);
    if (sim::flip("pause", 0.5)) sim::sleep(1 + sim::choose("pn", 200) * MS);
    std::vector<int> st; size_t n0;
    { sim::Quiet q; stop_begun = true; n0 = all.v.size(); for (auto *o : all.v) o->in_cb = true; /* submitted before the stop */ }
    { auto_lock l(t->loop_lock()); Q(before_stop = 0; for (auto *o : all.v) before_stop += o->returned); n0 = before_stop; }
    for (int i = 1; i < nstop; i++) { int id = sim::go("stopper", [&] { sim::sleep(1 + sim::choose("sd", 50) * US * 20); t->stop(); }); Q(st.push_back(id)); }
    if (sim::flip("stop1", 0.5)) t->stop();
    t->end();
    { sim::Quiet q; size_t k = 0; for (auto *o : all.v) { if (!o->in_cb) continue; k++; if (race_stop && !o->done()) continue; SIM_CHECK(o->done(), "lost", "the loop thread ended, but operation %d submitted before the stop never completed", o->id); }
      if (race_stop) { size_t d = 0; for (size_t i = 0; i < all.v.size(); i++) d += all.v[i]->done(); SIM_CHECK(d >= n0, "lost", "the loop thread ended: %zu operations were submitted before the stop, %zu completed", n0, d); } }
    for (int id : st) sim::join(id); for (int id : ids) sim::join(id);
    // operations submitted after the stop may be left: run them before the loop goes away
    { auto_lock l(t->loop_lock()); while (uv_loop_alive(t->get_loop())) uv_run(t->get_loop(), UV_RUN_DEFAULT); }
    { sim::Quiet q; int by = -1; for (auto *o : all.v) { SIM_CHECK(o->done(), "lost", "operation %d never completed", o->id); if (o->in_cb && !race_stop) { SIM_CHECK(by < 0 || by == o->by, "thread", "completions on different threads"); by = o->by; for (int id : ids) SIM_CHECK(o->by != id, "thread", "completion on a submitter's thread"); } }
      for (auto *w : bag) delete w; std::vector<Raw *>().swap(bag); std::vector<int>().swap(ids); std::vector<int>().swap(st); sim::covered(hmix(all.v.size(), nstop * 8 + race_stop * 4 + nudge)); }
  }
  { sim::Quiet q; for (auto *o : all.v) delete o; std::vector<Op *>().swap(all.v); std::vector<int>().swap(all.order); }
  c.check();
}
// served in time
SCENARIO(C08, latency, 2) {
  sim::World &w = sim::world(); w.stalls = false; w.p_slow = 0; Ops all; std::vector<Raw *> bag;
  LT t; t.Create(); uint32_t wt = 20 + sim::choose("wt", 400); t->set_wait_time(wt); t->start();
  int n = 1 + sim::choose("n", 4);
  for (int i = 0; i < n; i++) {
    sim::sleep(1 + sim::choose("gap", 900) * MS + sim::choose("gapu", 999) * US);
    bool nudge = sim::flip("nudge", 0.5); uint64_t t0; int k = 1 + sim::choose("k", 3);
    Q(t0 = sim::now()); size_t first = all.v.size();
    for (int j = 0; j < k; j++) raw_submit(&t, &all, 0, &bag);
    if (nudge) { Q(t0 = sim::now()); t->loop_now(); }
    uint64_t lim = (nudge ? 0 : (uint64_t)wt * MS) + 5 * MS;
    sim::wait_for([&] { for (size_t j = first; j < all.v.size(); j++) if (!all.v[j]->done()) return false; return true; }, lim + 50 * MS, 100 * US);
    sim::Quiet q; for (size_t j = first; j < all.v.size(); j++) { SIM_CHECK(all.v[j]->done(), "late", "operation not served %.1f ms after %s (polling period %u ms)", (lim + 50 * MS) / 1e6, nudge ? "the nudge" : "submission", wt); SIM_CHECK(all.v[j]->t_done <= t0 + lim, "late", "operation served %.1f ms after %s (polling period %u ms)", (all.v[j]->t_done - t0) / 1e6, nudge ? "the nudge" : "submission", wt); }
  }
  uint64_t t1; Q(t1 = sim::now()); t->end(); Q(SIM_CHECK(sim::now() - t1 <= (uint64_t)wt * MS + 10 * MS, "late", "ending an idle loop took %.1f ms", (sim::now() - t1) / 1e6));
  Q(for (auto *x : bag) delete x);
}
// a nudge is never lost, wherever the loop thread is when it comes
SCENARIO(C08, nudge, 2) {
  sim::World &w = sim::world(); w.stalls = false; w.p_slow = 0; Ops all; std::vector<Raw *> bag; std::vector<int> ids;
  { LT t; t.Create(); t->set_wait_time(5000); t->start(); int ns = 2 + sim::choose("ns", 3);
  for (int s = 0; s < ns; s++) { int id = sim::go("submitter", [&] { int n = 1 + sim::choose("n", 4);
    for (int i = 0; i < n; i++) { if (sim::flip("gap", 0.2)) sim::sleep(1 + sim::choose("gapn", 200) * US);
      raw_submit(&t, &all, 0, &bag); std::vector<Op *> before; Q(for (auto *o : all.v) if (o->returned) before.push_back(o)); // submitted before the nudge
      t->loop_now();
      sim::wait_for([&] { for (auto *o : before) if (!o->done()) return false; return true; }, 30 * MS, 20 * US);
      sim::Quiet q; for (auto *o : before) SIM_CHECK(o->done(), "late", "operation %d not served 30 ms after a nudge which came after its submission (polling period 5000 ms)", o->id); std::vector<Op *>().swap(before); } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); t->end(); }
  Q(for (auto *x : bag) delete x; std::vector<Raw *>().swap(bag); std::vector<int>().swap(ids));
}
// through files: everything submitted to files before the stop is delivered when end returns
SCENARIO(C08, files, 2) {
  storage(false); Clean c; { Ops all; int nf = 1 + sim::choose("nf", 3); std::string body; Q(body = pattern(5000, 3); sim::disk_put("/sim/f", body));
  LT t; mk_loop(t); { std::vector<cfile *> fs; std::vector<int> ids; { sim::Quiet q; fs.reserve(4); ids.reserve(4); }
    for (int i = 0; i < nf; i++) { cfile *f = new cfile(t); f->open_sync("/sim/f"); Q(fs.push_back(f)); }
    for (int i = 0; i < nf; i++) { cfile *f = fs[i]; int id = sim::go("reader", [f, &all, &t] { int n = 1 + sim::choose("n", 4); for (int k = 0; k < n; k++) { Op *o = all.add('r', f->get_position(), 100); on_read(f->read(100), &all, o, [f, &all, o] { if (o->id % 3 == 0) { Op *p = all.add('r', f->get_position(), 10); on_read(f->read(10), &all, p); } }); if (sim::flip("now", 0.3)) t->loop_now(); if (sim::flip("g", 0.4)) sim::sleep(sim::choose("gn", 120) * MS + 1); } }); Q(ids.push_back(id)); }
    for (int id : ids) sim::join(id);
    bool ext = sim::flip("ext", 0.5); int sid = -1; if (ext) sid = sim::go("stopper", [&] { t->stop(); });
    t->end(); if (ext) sim::join(sid);
    { sim::Quiet q; for (auto *o : all.v) SIM_CHECK(o->done(), "lost", "the loop thread ended, but read %d never completed", o->id); }
    for (auto *f : fs) delete f; Q(std::vector<cfile *>().swap(fs); std::vector<int>().swap(ids)); }
  Q(std::string().swap(body)); }
  c.check();
}

// ---------------------------------------------------------------- C09
namespace { struct Unh { int code; uint64_t occ; int raised; uint64_t t_raise; }; }
SCENARIO(C09, unhandled, 4) {
  storage(false); Clean c; { Ops all; std::vector<Unh> un; { sim::Quiet q; un.reserve(64); sim::disk_put("/sim/f", pattern(9000, 5)); }
  sim::World &w = sim::world(); bool io = sim::flip("io", 0.5); if (io) { w.p_eio = 0.25; w.p_short_read = 0.1; sim::enable_faults(true); }
  LT t; mk_loop(t); int stray = 0; 
  auto look = [&](bool end) {
    try { if (end) t->end(); else t->check_exception(); }
    catch (const mgexceptionbase &x) { sim::Quiet q; int code = x.get_error_number(); Unh *u = nullptr; for (auto &k : un) if (k.code == code && !k.raised && !u) u = &k; if (!u) for (auto &k : un) if (k.code == code) u = &k;
      SIM_CHECK(u, "invented", "error %d was raised to the owner, but nothing left it unhandled", code); SIM_CHECK(!u->raised, "twice", "error %d was raised to the owner twice", code); u->raised = 1; u->t_raise = sim::now(); }
    catch (...) { stray++; } };
  { int nf = 1 + sim::choose("nf", 2); std::vector<cfile *> fs; { sim::Quiet q; fs.reserve(4); }
    for (int i = 0; i < nf; i++) { cfile *f = new cfile(t); f->open_sync("/sim/f"); Q(fs.push_back(f)); }
    int n = 1 + sim::choose("n", 8); int poller = -1; bool stop_poll = false;
    if (sim::flip("poll", 0.5)) poller = sim::go("owner", [&] { for (int k = 0; k < 20; k++) { { sim::Quiet q; if (stop_poll) break; } look(false); sim::sleep(1 + sim::choose("pl", 30) * MS); } });
    for (int i = 0; i < n; i++) {
      cfile *f = fs[sim::choose("f", nf)]; uint32_t mode = sim::choose("mode", 5); int code = -1000 - i; Op *o = all.add('r', f->get_position(), 50); {
      // 0: fine, absorbs  1: value listener throws, no error listener  2: value listener throws, error listener absorbs
      // 3: value listener throws, error listener rethrows  4: value listener fine, error listener throws its own
      auto_lock ll(t->loop_lock()); // listeners in place before the loop can complete it
      Q(o->t_sub = sim::now()); auto pr = f->read(50); Ops *al = &all; std::vector<Unh> *up = &un; 
      auto boom = [up, code] { { sim::Quiet q; up->push_back({code, sim::now(), 0, 0}); } throw mgexception(code, "file", 1); };
      if (mode == 0) pr->set_er([al, o](std::exception_ptr e) -> bool { return note_err(al, o, e); });
      else if (mode == 2) pr->set_er([al, o](std::exception_ptr e) -> bool { Q(if (!o->val) note_err(al, o, e)); return false; });
      else if (mode == 3) pr->set_er([al, o, up](std::exception_ptr e) -> bool { { sim::Quiet q; SIM_CHECK(!o->er, "twice", "the error listener of operation %d was called twice", o->id); o->er++; if (!o->val) { al->order.push_back(o->id); } up->push_back({exc_code(e), sim::now(), 0, 0}); } std::rethrow_exception(e); return false; });
      else if (mode == 4) pr->set_er([al, o, boom](std::exception_ptr e) -> bool { note_err(al, o, e); boom(); return false; });
      else if (io) pr->set_er([al, o, boom](std::exception_ptr e) -> bool { { sim::Quiet q; if (!o->val) note_err(al, o, e); } if (!o->val) boom(); std::rethrow_exception(e); return false; });
      pr->set_cb([al, o, mode, code, boom, up](CResource<CBuffer<unsigned char> > &b) { { sim::Quiet q; once(al, o); o->val++; } if (mode == 1) boom(); if (mode == 2 || mode == 3) throw mgexception(code, "file", 1); });
      }
      if (sim::flip("gap", 0.3)) sim::sleep(sim::choose("gn", 120) * MS + 1);
      if (sim::flip("chk", 0.2) && poller < 0) look(false);
    }
    bool close_first = sim::flip("cf", 0.5);
    // an unhandled error ends the loop thread once everything outstanding is done; what is asked for later is done when its file is closed
    if (close_first) for (auto *f : fs) f->close(false);
    if (poller >= 0) { Q(stop_poll = true); sim::join(poller); }
    look(true);
    { sim::Quiet q; uint64_t first = ~0ull; for (auto &u : un) first = std::min(first, u.occ);
      for (auto *o : all.v) SIM_CHECK(o->done() || (!close_first && o->t_sub >= first), "lost", "after an error elsewhere, operation %d was never delivered", o->id); }
    for (auto *f : fs) delete f; look(false); look(true);
    { sim::Quiet q; for (auto *o : all.v) SIM_CHECK(o->done(), "lost", "after an error elsewhere, operation %d was never delivered", o->id); }
    { sim::Quiet q; std::vector<cfile *>().swap(fs);
      SIM_CHECK(stray == 0, "invented", "an error nobody threw was raised to the owner");
      for (auto &u : un) if (!u.raised) { bool ok = false; for (auto &k : un) if (&k != &u && k.raised && k.occ <= u.occ && k.t_raise >= u.occ) ok = true; SIM_CHECK(ok, "unreported", "the unhandled error %d was never raised to the owner", u.code); }
      sim::covered(hmix(un.size(), n * 4 + nf)); } }
  Q(std::vector<Unh>().swap(un)); }
  c.check();
}
// storage errors nobody listens to
SCENARIO(C09, io_error, 2) {
  storage(false); Clean c; { Ops all; { sim::Quiet q; sim::disk_put("/sim/f", pattern(9000, 5)); }
  LT t; mk_loop(t); sim::World &w = sim::world(); w.p_eio = 0.3; static const uint32_t mf[] = {1, 3, 0}; w.max_faults = mf[sim::choose("mf", 3)]; if (w.max_faults) sim::enable_faults(true);
  int raised = 0; int codes[8]; int n = 1 + sim::choose("n", 8); bool hang_ok = false;
  { cfile f(t); f.open_sync("/sim/f", O_RDWR); Ops *al = &all;
    for (int i = 0; i < n; i++) { bool wr = sim::flip("wr", 0.3); f.set_position(i * 100); Op *o = all.add(wr ? 'w' : 'r', i * 100, 100);
      if (wr) { std::string d; Q(d = pattern(100, i)); f.write((const unsigned char *)d.data(), 100)->set_er().set_cb([al, o](CResource<uv_fs_t> &) { Q(once(al, o); o->val++); }); Q(std::string().swap(d)); }
      else f.read(100)->set_cb([al, o](CResource<CBuffer<unsigned char> > &) { Q(once(al, o); o->val++); }); }
    f.close(false); }
  try { t->end(); } catch (const mgexceptionbase &x) { raised = 1; codes[0] = x.get_error_number(); }
  { sim::Quiet q; std::vector<int> errs; for (auto &e : sim::fs_log()) if ((e.type == 'r' || e.type == 'w') && e.result < 0) errs.push_back((int)e.result);
    SIM_CHECK(raised == !errs.empty(), errs.empty() ? "invented" : "unreported", "%zu operations failed, %d errors raised to the owner", errs.size(), raised);
    if (raised) { bool f = false; for (int e : errs) f |= e == codes[0]; SIM_CHECK(f, "wrong-error", "error %d raised to the owner, the storage said %d", codes[0], errs[0]); }
    size_t v = 0; for (auto *o : all.v) v += o->val; SIM_CHECK(v + errs.size() == all.v.size(), "lost", "%zu operations: %zu delivered, %zu failed", all.v.size(), v, errs.size()); (void)hang_ok; }
  try { t->end(); t->check_exception(); } catch (...) { sim::fail("twice", "an error was raised to the owner twice"); } }
  c.check();
}

// one operation of each kind, with every combination of listeners: who is told, and how often
SCENARIO(C09, kinds, 2) {
  storage(false); Clean c; { sim::Quiet q; sim::disk_put("/sim/f", pattern(900, 5)); } { int n = 1 + sim::choose("n", 3);
  for (int i = 0; i < n; i++) { uint32_t kind = sim::choose("kind", 4), erm = sim::choose("erm", 4); bool thr = sim::flip("thr", 0.5), fail = sim::flip("fail", 0.3), er_first = sim::flip("erf", 0.5); static const char *const names[] = {"open", "close", "read", "write"};
    // erm: 0 absorbs, 1 rethrows, 2 throws its own, 3 there is none
    LT t; mk_loop(t); int cb = 0, er = 0, er_code = 0, told = 0, told_code = 0; const int mine = -3000 - i, other = -4000 - i; size_t l0;
    { cfile f(t); if (kind) f.open_sync("/sim/f", kind == 3 ? O_WRONLY : O_RDONLY); sim::World &w = sim::world(); w.p_open = w.p_close = w.p_eio = 0; if (fail) { (kind == 0 ? w.p_open : kind == 1 ? w.p_close : w.p_eio) = 1; w.max_faults = 1; sim::enable_faults(true); } Q(l0 = sim::fs_log().size());
      { auto_lock l(t->loop_lock()); CResource<CPromise<uv_fs_t> > pf; CResource<CPromise<CBuffer<unsigned char> > > pr; unsigned char buf[50]; memset(buf, 3, sizeof buf);
        if (kind == 0) pf = f.open("/sim/f"); else if (kind == 1) pf = f.close(); else if (kind == 2) pr = f.read(50); else pf = f.write(buf, 50);
        auto lerr = [&, erm](std::exception_ptr e) -> bool { Q(er++; er_code = exc_code(e)); if (erm == 1) std::rethrow_exception(e); if (erm == 2) throw mgexception(other, "file", 1); return false; };
        auto lval = [&, thr]() { Q(cb++); if (thr) throw mgexception(mine, "file", 1); };
        if (kind == 2) { if (erm != 3 && er_first) pr->set_er(lerr); pr->set_cb([&, lval](CResource<CBuffer<unsigned char> > &) { lval(); }); if (erm != 3 && !er_first) pr->set_er(lerr); }
        else { if (erm != 3 && er_first) pf->set_er(lerr); pf->set_cb([&, lval](CResource<uv_fs_t> &) { lval(); }); if (erm != 3 && !er_first) pf->set_er(lerr); } }
      SIM_CHECK(sim::wait_for([&] { return !f.outstanding(); }, 60 * SEC, 5 * MS), "lost", "the %s is not finished after 60 s", names[kind]); { auto_lock l(t->loop_lock()); } sim::enable_faults(false); f.close(false); }
    for (int k = 0; k < 3; k++) try { t->end(); } catch (const std::exception &) { Q(told++; told_code = exc_code(std::current_exception())); }
    sim::Quiet q; int64_t sys = 0; static const char ty[] = "ocrw"; for (size_t k = l0; k < sim::fs_log().size(); k++) if (sim::fs_log()[k].type == ty[kind]) { sys = sim::fs_log()[k].result; break; }
    bool bad = sys < 0, err = bad || thr; int code = bad ? (int)sys : mine;
    SIM_CHECK(cb == !bad, cb ? "false-success" : "lost", "the value listener of a %s which %s was called %d times", names[kind], bad ? "failed" : "succeeded", cb);
    if (erm != 3) { SIM_CHECK(er == err, er ? "twice" : "lost", "the error listener of a %s was called %d times instead of %d", names[kind], er, (int)err); if (er) SIM_CHECK(er_code == code, "wrong-error", "the error listener of a %s was given %d instead of %d", names[kind], er_code, code); }
    int want = err && erm; SIM_CHECK(told == want, told > want ? "invented" : "unreported", "the owner was told %d times instead of %d about a %s (listeners %d %d)", told, want, names[kind], thr, erm);
    if (want) SIM_CHECK(told_code == (erm == 2 ? other : code), "wrong-error", "the owner was told %d instead of %d", told_code, erm == 2 ? other : code); sim::covered(hmix(kind * 8 + erm, thr * 2 + bad)); } }
  c.check();
}

// ---------------------------------------------------------------- C10
static void check_reads(Ops &all, const std::string &body, bool faults, bool ordered = true) {
  sim::Quiet q; int last = -1;
  for (auto *o : all.v) { if (o->kind != 'r') continue;
    SIM_CHECK(o->done(), "lost", "read %d was never delivered", o->id);
    if (o->er) { SIM_CHECK(faults, "error", "read %d at %llu failed (%d) on a healthy disk", o->id, (unsigned long long)o->pos, o->code); continue; }
    std::string want = o->pos < body.size() ? body.substr(o->pos, o->size) : std::string();
    SIM_CHECK(o->got.size() == want.size(), o->got.size() < want.size() ? "short" : "long", "read %d of %u bytes at %llu of a file of %zu was delivered with %zu bytes instead of %zu", o->id, o->size, (unsigned long long)o->pos, body.size(), o->got.size(), want.size());
    SIM_CHECK(o->got == want, "content", "read %d at %llu was delivered with other bytes than the file's", o->id, (unsigned long long)o->pos); }
  if (ordered) for (int id : all.order) { if (all.v[id]->kind != 'r') continue; SIM_CHECK(id > last, "order", "read %d was delivered after read %d", id, last); last = id; }
}
static uint32_t rsize() { static const uint32_t s[] = {10, 1, 100, 1000, 4096, 10, 100, 1000, 33000, 70000, 65536, 300000}; uint32_t b = s[sim::choose("sz", sim::flip("big", 0.1) ? 12 : 8)]; return b + sim::choose("szx", b); }
SCENARIO(C10, order, 4) {
  bool faults = sim::flip("faults", 0.3); storage(faults); sim::World &w = sim::world(); w.p_short_write = w.p_enospc = 0; w.disk_capacity = ~0ull; if (faults && sim::flip("only_short", 0.5)) { w.p_eio = 0; w.p_short_read = 0.3; }
  Clean c; { Ops all; std::string body; { sim::Quiet q; static const uint32_t bs[] = {3000, 0, 1, 20000}; body = pattern(bs[sim::choose("bs", 4)] + sim::choose("bsx", 50), 11); sim::disk_put("/sim/f", body); }
  LT t; mk_loop(t, false); bool late = sim::flip("late", 0.2); if (!late) t->start();
  { cfile f(t); bool as = !late && sim::flip("as", 0.3); sim::enable_faults(false); if (as) { f.open("/sim/f"); SIM_CHECK(sim::wait_for([&] { return !f.outstanding(); }, 60 * SEC, 2 * MS), "lost", "the file is not open after 60 s"); } else f.open_sync("/sim/f"); sim::enable_faults(faults);
    SIM_CHECK(f.size() == body.size(), "size", "size() says %llu for a file of %zu", (unsigned long long)f.size(), body.size());
    int ns = 1 + sim::choose("ns", 2); std::vector<int> ids; { sim::Quiet q; ids.reserve(4); } cfile *pf = &f; Ops *al = &all; LT *pt = &t; const std::string *pb = &body;
    // one position, several submitters: the whole of "take the position, read" happens under the loop's lock
    std::function<void(int)> issue; std::function<void(int)> *pi = &issue;
    issue = [pf, al, pt, pb, pi](int chain) {
      auto_lock l((*pt)->loop_lock());
      if (sim::flip("seek", 0.3)) { uint64_t p = pb->size() ? sim::choose("sp", (uint32_t)pb->size() + 20) : sim::choose("sp", 20); pf->set_position(p); SIM_CHECK(pf->get_position() == p, "position", "set_position(%llu) gives position %llu", (unsigned long long)p, (unsigned long long)pf->get_position()); }
      uint32_t n = rsize(); uint64_t p = pf->get_position(); Op *o = al->add('r', p, n);
      std::function<void()> more; if (chain > 0) more = [pi, chain] { (*pi)(chain - 1); };
      on_read(pf->read(n), al, o, more);
      uint64_t want = p >= pb->size() ? p : std::min<uint64_t>(p + n, pb->size());
      SIM_CHECK(pf->get_position() == want, "position", "after a read of %u at %llu in a file of %zu the position is %llu", n, (unsigned long long)p, pb->size(), (unsigned long long)pf->get_position());
      SIM_CHECK(pf->eof() == (want >= pb->size()), "eof", "eof() is %d at %llu of %zu", pf->eof(), (unsigned long long)want, pb->size());
    };
    for (int s = 0; s < ns; s++) { int id = sim::go("reader", [&] { int n = 1 + sim::choose("n", 8); for (int k = 0; k < n; k++) { issue(sim::choose("chain", 4) == 3 ? 2 : 0); if (sim::flip("gap", 0.2)) sim::sleep(sim::choose("gn", 30) * MS + 1); } }); Q(ids.push_back(id)); }
    for (int id : ids) sim::join(id); if (late) t->start();
    if (sim::flip("cl", 0.5)) f.close(false); 
    t->end(); Q(std::vector<int>().swap(ids)); }
  check_reads(all, body, faults); Q(sim::covered(hmix(all.v.size(), all.done())); std::string().swap(body)); }
  c.check();
}
// reads among writes on the same file
SCENARIO(C10, mixed, 2) {
  storage(false); Clean c; { Ops all; std::string body; Q(body = pattern(3000, 21); sim::disk_put("/sim/f", body)); LT t; mk_loop(t);
  { cfile f(t); f.open_sync("/sim/f", O_RDWR); int n = 2 + sim::choose("n", 10); uint64_t rp = 0, wp = 5000; std::string d; Q(d = pattern(200, 9));
    for (int i = 0; i < n; i++) { bool wr = sim::flip("wr", 0.5); uint32_t k = 1 + sim::choose("k", 199);
      if (wr) { f.set_position(wp); Op *o = all.add('w', wp, k); on_fs(f.write((const unsigned char *)d.data(), k), &all, o); wp += k; }
      else { f.set_position(rp); Op *o = all.add('r', rp, k); on_read(f.read(k), &all, o); rp += k; }
      if (sim::flip("gap", 0.2)) sim::sleep(sim::choose("gn", 30) * MS + 1); }
    f.close(false); t->end(); Q(std::string().swap(d)); }
  check_reads(all, body, false); Q(std::string().swap(body)); }
  c.check();
}
// several threads read from one file: every byte goes to exactly one of them
SCENARIO(C10, sharers, 1) {
  storage(false); Clean c; { Ops *all; { sim::Quiet q; all = new Ops; } uint32_t words = sim::choose("words", 600); std::string body; { sim::Quiet q; for (uint32_t i = 0; i < words; i++) { char b[9]; snprintf(b, sizeof b, "%08u", i); body.append(b, 8); } sim::disk_put("/sim/r", body); } LT t; mk_loop(t); int nt = 2 + sim::choose("nt", 2); { cfile f(t); f.open_sync("/sim/r"); cfile *pf = &f; std::vector<int> ids;
    for (int i = 0; i < nt; i++) { int id = sim::go("sharer", [=] { int ops = 1 + sim::choose("ops", 6); for (int k = 0; k < ops && !pf->eof(); k++) { uint32_t n = 8 * (1 + sim::choose("rn", 60)); Op *o = all->add('r', 0, n); on_read(pf->read(n), all, o); if (sim::flip("gap", 0.3)) sim::sleep(1 + sim::choose("gn", 30) * MS); } }); Q(ids.push_back(id)); }
    for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids)); uint64_t at = f.get_position(); f.close(false); t->end();
    sim::Quiet q; uint64_t sum = 0; std::set<uint32_t> seen; for (auto *o : all->v) { SIM_CHECK(o->val == 1, "lost", "read %d was not called back", o->id); SIM_CHECK(o->got.size() <= o->size && o->got.size() % 8 == 0, "short", "read %d of %u bytes gave %zu", o->id, o->size, o->got.size()); sum += o->got.size(); for (size_t k = 0; k < o->got.size(); k += 8) { uint32_t w = (uint32_t)atoi(o->got.substr(k, 8).c_str()); SIM_CHECK(seen.insert(w).second, "content", "word %u of %u was given to two reads", w, words); SIM_CHECK(!k || w == (uint32_t)atoi(o->got.substr(k - 8, 8).c_str()) + 1, "content", "a read gave pieces from different places"); } }
    SIM_CHECK(sum == at && (seen.empty() || *seen.rbegin() == sum / 8 - 1), "position", "%llu bytes were read, the file stands at %llu", (unsigned long long)sum, (unsigned long long)at); sim::covered(hmix(sum, all->v.size())); delete all; std::string().swap(body); std::set<uint32_t>().swap(seen); } }
  c.check();
}
// a file that grows while it is read: what is delivered is what the position moves by, no byte twice
SCENARIO(C10, growing, 1) {
  storage(false); Clean c; { Ops all; std::string body; uint32_t n0 = sim::choose("n0", 400); std::vector<uint64_t> after; { sim::Quiet q; body = pattern(4000, 41); sim::disk_put("/sim/g", body.substr(0, n0)); after.reserve(64); } LT t; mk_loop(t); bool own = sim::flip("own", 0.4);
  { cfile f(t), g(t); f.open_sync("/sim/g", own ? O_RDWR : O_RDONLY); if (!own) { g.open_sync("/sim/g", O_WRONLY); g.set_position(n0); } uint64_t wp = n0, rp = 0; int n = 2 + sim::choose("n", 10);
    for (int i = 0; i < n; i++) { uint32_t k = 1 + sim::choose("k", 200);
      if (sim::flip("wr", 0.4)) { if (own) f.set_position(wp); Op *o = all.add('w', wp, k); std::string d; Q(d = body.substr(wp, k)); on_fs((own ? f : g).write((const unsigned char *)d.data(), k), &all, o); wp += k; Q(std::string().swap(d); after.push_back(0)); }
      else { if (own) f.set_position(rp); Op *o = all.add('r', rp, k); on_read(f.read(k), &all, o); rp = f.get_position(); Q(after.push_back(rp)); }
      if (sim::flip("gap", 0.5)) sim::sleep(sim::choose("gn", 60) * MS + 1); }
    f.close(false); g.close(false); t->end(); }
  sim::Quiet q; for (auto *o : all.v) { SIM_CHECK(o->val == 1, "lost", "operation %d (%c) was not delivered", o->id, o->kind); if (o->kind != 'r') continue; uint64_t moved = after[o->id] - o->pos; SIM_CHECK(moved <= o->size && o->got.size() == moved, "position", "read %d of %u bytes at %llu of a file which grows was delivered with %zu bytes, but moved the file by %llu", o->id, o->size, (unsigned long long)o->pos, o->got.size(), (unsigned long long)moved); SIM_CHECK(!body.compare(o->pos, moved, o->got), "content", "read %d at %llu was delivered with other bytes than the file's", o->id, (unsigned long long)o->pos); }
  std::string().swap(body); std::vector<uint64_t>().swap(after); }
  c.check();
}
// what a handle wrote, it can read
SCENARIO(C10, read_back, 1) {
  storage(false); Clean c; { Ops all; LT t; mk_loop(t); std::string want;
  bool pre = sim::flip("pre", 0.5); if (pre) Q(sim::disk_put("/sim/n", pattern(100 + sim::choose("prel", 5000), 77)));
  { cfile f(t); f.open_sync("/sim/n", O_RDWR | O_CREAT | O_TRUNC); SIM_CHECK(f.size() == 0 && f.get_position() == 0, "size", "a file opened to be replaced has %llu bytes and stands at %llu", (unsigned long long)f.size(), (unsigned long long)f.get_position()); int n = 1 + sim::choose("n", 5);
    for (int i = 0; i < n; i++) { uint32_t k = 1 + sim::choose("k", 300); std::string d; Q(d = pattern(k, i)); Op *o = all.add('w', f.get_position(), k); on_fs(f.write((const unsigned char *)d.data(), k), &all, o); Q(want += d; std::string().swap(d)); }
    SIM_CHECK(sim::wait_for([&] { return !f.outstanding(); }, 60 * SEC, 5 * MS), "lost", "writes not finished after 60 s");
    f.set_position(0); uint64_t p = 0; for (int i = 0; i < 20 && p < want.size(); i++) { uint32_t k = 1 + sim::choose("rk", 200); Op *o = all.add('r', p, k); on_read(f.read(k), &all, o); p += k; }
    f.close(false); t->end(); }
  check_reads(all, want, false); Q(std::string().swap(want)); }
  c.check();
}

// more operations on one file than a small integer can count
namespace {
void long_file(int mode) { // 0 reads, 1 writes, 2 both
  storage(false); sim::World &w = sim::world(); w.stalls = false; if (w.max_slow > MS) w.max_slow = MS; Clean c; static const uint32_t ns[] = {260, 600, 33000, 66000}; bool rare = sim::flip("rare", 0.025); uint32_t n = rare ? ns[sim::choose("n", sim::flip("many", 0.06) ? 4 : 2)] + sim::choose("nx", 500) : 1 + sim::choose("nx", 30), depth = 1 + sim::choose("depth", 12); if (n > 10000) { sim::limits().max_points = 200000000; w.p_slow = 0.05; w.max_slow = 100 * US; }
  struct S { cfile *f; uint32_t n, next = 0, done = 0, reads = 0; uint32_t want_read = 0; } s; s.n = n; { sim::Quiet q; std::string b(n * 4, 0); for (uint32_t i = 0; i < n; i++) memcpy(&b[i * 4], &i, 4); sim::disk_put("/sim/long", b); if (mode != 1) sim::disk_put("/sim/w", b); std::string().swap(b); }
  { LT t; mk_loop(t); { cfile f(t), g(t); s.f = &f; cfile *pw = mode == 1 ? &f : &g; if (mode != 1) f.open_sync("/sim/long"); if (mode) pw->open_write_sync("/sim/w"); static std::function<void()> step; S *ps = &s;
    { sim::Quiet q; step = [ps, pw, mode] { if (ps->next >= ps->n) return; uint32_t i = ps->next++; bool wr = mode == 1 || (mode == 2 && i % 5 == 3);
      if (wr) { uint32_t v = i ^ 0x5a5a5a5a; pw->set_position(i * 4ull); pw->write((const unsigned char *)&v, 4)->set_er([i](std::exception_ptr) -> bool { sim::fail("error", "write %u failed on a healthy disk", i); return false; }).set_cb([ps](CResource<uv_fs_t> &) { ps->done++; step(); }); }
      else { ps->f->set_position(i * 4ull); ps->f->read(4)->set_er([i](std::exception_ptr) -> bool { sim::fail("error", "read %u failed on a healthy disk", i); return false; }).set_cb([ps, i, mode](CResource<CBuffer<unsigned char>> &b) { uint32_t v = 0; SIM_CHECK(b->size() == 4, "short", "read %u of 4 bytes was delivered with %zu", i, (size_t)b->size()); memcpy(&v, b->get(), 4); SIM_CHECK(v == i, "content", "read %u was delivered with the bytes of read %u", i, v); while (mode == 2 && ps->want_read % 5 == 3) ps->want_read++; SIM_CHECK(ps->want_read == i, "order", "read %u was delivered when read %u was to come", i, ps->want_read); ps->want_read++; ps->done++; step(); }); } }; }
    for (uint32_t k = 0; k < depth; k++) { auto_lock l(t->loop_lock()); step(); }
    SIM_CHECK(sim::wait_for([&] { return s.done >= s.n; }, 2500 * SEC, 10 * MS), "lost", "%u of %u operations on one file were delivered", s.done, s.n);
    sim::wait_for([&] { return !f.outstanding() && !g.outstanding(); }, 5 * SEC, MS); SIM_CHECK(!f.outstanding() && !g.outstanding(), "lost", "%d operations are said to be outstanding after all %u were delivered", f.outstanding() + g.outstanding(), n);
    if (mode == 1 && sim::flip("more", 0.5)) { s.n += 3; for (int k = 0; k < 3; k++) { auto_lock l(t->loop_lock()); step(); } }
    uint64_t t0 = sim::now(); f.close(false); g.close(false); SIM_CHECK(s.done == s.n, "early-close", "the close returned when %u of %u operations were delivered", s.done, s.n); SIM_CHECK(sim::now() - t0 < 20 * SEC, "slow", "the close took %llu ms", (unsigned long long)((sim::now() - t0) / MS)); { sim::Quiet q; step = nullptr; } }
    t->end(); }
  if (mode) { sim::Quiet q; std::string b = sim::disk_get("/sim/w"); for (uint32_t i = 0; i < n; i++) if (mode == 1 || i % 5 == 3) { uint32_t v = 0; if (b.size() >= i * 4 + 4) memcpy(&v, &b[i * 4], 4); SIM_CHECK(v == (i ^ 0x5a5a5a5a), "content", "write %u of %u was acknowledged, but the file does not hold its bytes", i, n); } }
  sim::covered(hmix(n * 4 + mode, depth)); c.check();
}
}
SCENARIO(C08, long_file, 1) { long_file(2); }
SCENARIO(C10, long_file, 1) { long_file(sim::flip("rw", 0.3) ? 2 : 0); }
SCENARIO(C11, long_file, 1) { long_file(1); }
SCENARIO(C13, long_file, 1) { long_file(sim::choose("mode", 3)); }

// ---------------------------------------------------------------- C11
static void ack_check(const char *path, Op *o, uv_fs_t *r) {
  sim::Quiet q; std::string d = sim::disk_get(path, o->pos, o->size);
  SIM_CHECK(r->result == (ssize_t)o->size, "short", "a write of %u bytes was acknowledged with %lld", o->size, (long long)r->result);
  SIM_CHECK(d == o->data, "content", "write %d (%u bytes at %llu) was acknowledged, but the file does not hold its bytes", o->id, o->size, (unsigned long long)o->pos);
}
SCENARIO(C11, ack, 4) {
  bool faults = sim::flip("faults", 0.5); storage(faults); sim::World &w = sim::world(); w.p_short_read = 0; w.crash = sim::flip("crash", 0.4);
  Clean c; { Ops *all; { sim::Quiet q; all = new Ops; }
  LT t; mk_loop(t); { cfile f(t); bool fo = faults; sim::enable_faults(false); bool old = sim::flip("old", 0.3); if (old) { Q(sim::disk_put("/sim/w", pattern(6000, 1))); f.open_sync("/sim/w", O_WRONLY); } else f.open_write_sync("/sim/w"); sim::enable_faults(fo);
    sim::on_crash([all] { sim::Quiet q; for (auto *o : all->v) if (o->val) SIM_CHECK(sim::disk_get("/sim/w", o->pos, o->size) == o->data, "crash", "write %d was acknowledged before the crash, but its bytes are not in the file", o->id); });
    int n = 1 + sim::choose("n", 10); std::map<uint64_t, uint64_t> used; uint64_t pos = 0;
    cfile *pf = &f;
    auto issue = [all, pf](uint64_t pos, uint32_t k, bool set) {
      unsigned char *mem = new unsigned char[k]; Op *o = all->add('w', pos, k); Q(o->data = pattern(k, o->id + 100); memcpy(mem, o->data.data(), k));
      if (set) pf->set_position(pos);
      SIM_CHECK(pf->get_position() == pos, "position", "position %llu instead of %llu before a write", (unsigned long long)pf->get_position(), (unsigned long long)pos);
      auto pr = pf->write(mem, k);
      if (sim::flip("free", 0.5)) delete[] mem; else { memset(mem, 0xEE, k); delete[] mem; }
      SIM_CHECK(pf->get_position() == pos + k, "position", "position %llu after a write of %u at %llu", (unsigned long long)pf->get_position(), k, (unsigned long long)pos);
      on_fs(pr, all, o, [o](uv_fs_t *r) { ack_check("/sim/w", o, r); });
    };
    bool from_cb = sim::flip("from_cb", 0.2); 
    if (from_cb) { // writes issued by completions, as a copy does
      std::function<void(int)> *step; { sim::Quiet q; step = new std::function<void(int)>; }
      int left = n; uint64_t *p; Q(p = new uint64_t(0)); int *todo; Q(todo = new int(left));
      *step = [all, pf, p, todo, step](int) { if (*todo <= 0) return; (*todo)--; uint32_t k = rsize(); uint64_t at = *p; *p += k; unsigned char *mem = new unsigned char[k]; Op *o = all->add('w', at, k); Q(o->data = pattern(k, o->id + 100); memcpy(mem, o->data.data(), k)); auto pr = pf->write(mem, k); memset(mem, 0, k); delete[] mem;
        pr->set_er([all, o, step](std::exception_ptr e) -> bool { note_err(all, o, e); (*step)(0); return false; }).set_cb([all, o, step](CResource<uv_fs_t> &r) { ack_check("/sim/w", o, r); Q(once(all, o); o->val++); (*step)(0); }); };
      { auto_lock l(t->loop_lock()); (*step)(0); }
      SIM_CHECK(sim::wait_for([&] { return *todo == 0 && all->done() == all->v.size(); }, 100 * SEC, 10 * MS), "lost", "a chain of writes does not end");
      f.close(false);
      { *step = nullptr; sim::Quiet q; delete step; delete p; delete todo; }
    } else {
      for (int i = 0; i < n; i++) { uint32_t k = rsize(); bool set = sim::flip("set", 0.3); uint64_t at = pos; if (set) { at = 1000000ull * (i + 1) + sim::choose("at", 1000); if (sim::flip("far", 0.1)) at += 6000000000ull; } issue(at, k, set); pos = at + k; if (sim::flip("gap", 0.3)) sim::sleep(sim::choose("gn", 100) * MS + 1); }
      if (sim::flip("ac", 0.3)) f.close(); else f.close(false);
    }
    (void)used; }
  // an error that comes before its listener goes to the owner
  bool told = false; try { t->end(); } catch (const mgexceptionbase &x) { told = true; SIM_CHECK(faults, "error", "error %d on a healthy disk", x.get_error_number()); }
  { sim::Quiet q; for (auto *o : all->v) { SIM_CHECK(o->done() || told, "lost", "write %d was neither acknowledged nor failed", o->id); if (o->er) SIM_CHECK(faults, "error", "write %d failed (%d) on a healthy disk", o->id, o->code); if (o->val) SIM_CHECK(sim::disk_get("/sim/w", o->pos, o->size) == o->data, "content", "acknowledged write %d is not in the file in the end", o->id); } sim::covered(hmix(all->v.size(), all->done() * 3 + faults)); }
  sim::on_crash([] {}); { sim::Quiet q; delete all; } }
  c.check();
}

SCENARIO(C11, appenders, 1) { // several threads write to one file: everybody's bytes get a place of their own
  storage(false); Clean c; { Ops *all; { sim::Quiet q; all = new Ops; } LT t; mk_loop(t); uint64_t from = sim::flip("from", 0.3) ? 1 + sim::choose("fromn", 3000) : 0, total = 0; int nt = 2 + sim::choose("nt", 2), left[3] = {0, 0, 0}; { cfile f(t); f.open_write_sync("/sim/w"); if (from) f.set_position(from); cfile *pf = &f; std::vector<int> ids;
    for (int i = 0; i < nt; i++) { left[i] = 1 + sim::choose("ops", 5); int id = sim::go("appender", [=, &total] { for (int k = 0; k < left[i]; k++) { uint32_t n = 4 + sim::choose("an", 300); std::string d; { sim::Quiet q; d = pattern(n, i * 100 + k); d[0] = (char)i; d[1] = (char)k; d[2] = (char)(n & 255); d[3] = (char)(n >> 8); total += n; } unsigned char *mem = new unsigned char[n]; memcpy(mem, d.data(), n); Op *o = all->add('w', 0, n); auto pr = pf->write(mem, n); memset(mem, 0xee, n); delete[] mem; on_fs(pr, all, o, [n](uv_fs_t *r) { SIM_CHECK(r->result == (ssize_t)n, "short", "a write of %u bytes was acknowledged with %lld", n, (long long)r->result); }); Q(std::string().swap(d)); if (sim::flip("gap", 0.3)) sim::sleep(1 + sim::choose("gn", 30) * MS); } }); Q(ids.push_back(id)); }
    for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids)); SIM_CHECK(f.get_position() == from + total, "position", "the file stands at %llu after writing %llu bytes from %llu", (unsigned long long)f.get_position(), (unsigned long long)total, (unsigned long long)from); f.close(false); } t->end();
    { sim::Quiet q; for (auto *o : all->v) SIM_CHECK(o->val == 1, "lost", "write %d was not acknowledged", o->id); std::string got = sim::disk_get("/sim/w", from); SIM_CHECK(got.size() == total, "content", "the file holds %zu bytes of %llu", got.size(), (unsigned long long)total); int next[3] = {0, 0, 0}; size_t at = 0;
      while (at + 4 <= got.size()) { int i = (unsigned char)got[at], k = (unsigned char)got[at + 1]; uint32_t n = (unsigned char)got[at + 2] | (unsigned char)got[at + 3] << 8; SIM_CHECK(i < nt && k == next[i] && n >= 4 && at + n <= got.size(), "content", "at %zu of %zu: write %d of thread %d, expected its write %d", at, got.size(), k, i, i < 3 ? next[i] : -1); std::string d = pattern(n, i * 100 + k); SIM_CHECK(!d.compare(4, n - 4, got, at + 4, n - 4), "content", "write %d of thread %d was acknowledged, but its bytes are not there", k, i); next[i]++; at += n; }
      for (int i = 0; i < nt; i++) SIM_CHECK(next[i] == left[i], "content", "%d writes of thread %d are in the file, %d were acknowledged", next[i], i, left[i]); sim::covered(hmix(all->v.size(), nt)); delete all; } }
  c.check();
}

// ---------------------------------------------------------------- C12
static const sim::FsOp *find_log(char type, int fd, int64_t off) { const sim::FsOp *r = nullptr; for (auto &e : sim::fs_log()) if (e.type == type && (fd < 0 || e.fd == fd) && (off < 0 || e.off == off)) r = &e; return r; }
SCENARIO(C12, own_failure, 4) {
  storage(false); sim::World &w = sim::world(); static const double pf[] = {0.2, 0.5, 0.05}; double p = pf[sim::choose("pf", 3)]; w.p_eio = p; w.p_enospc = sim::flip("ns", 0.5) ? p : 0; w.p_short_read = sim::flip("sr", 0.3) ? p : 0; w.p_short_write = sim::flip("sw", 0.3) ? p : 0;
  Clean c; { Ops all; std::string body; uint32_t unit = sim::flip("bigger", 0.04) ? 36000 + sim::choose("biggerd", 60000) : 300; { sim::Quiet q; body = pattern(unit * 13 + 100, 31); sim::disk_put("/sim/r", body); sim::disk_put("/sim/w", body); } LT t; mk_loop(t);
  { cfile fr(t), fw(t); fr.open_sync("/sim/r"); fw.open_sync("/sim/w", O_WRONLY); sim::enable_faults(true); int n = 1 + sim::choose("n", 10);
    for (int i = 0; i < n; i++) { bool wr = sim::flip("wr", 0.5); uint64_t at = i * (uint64_t)unit; uint32_t k = 1 + sim::choose("k", unit - 1);
      if (wr) { Op *o = all.add('w', at, k); Q(o->data = pattern(k, i)); fw.set_position(at); unsigned char *mem = new unsigned char[k]; memcpy(mem, o->data.data(), k); auto pr = fw.write(mem, k); delete[] mem; on_fs(pr, &all, o); }
      else { Op *o = all.add('r', at, k); fr.set_position(at); on_read(fr.read(k), &all, o); }
      if (sim::flip("gap", 0.2)) sim::sleep(sim::choose("gn", 50) * MS + 1); }
    SIM_CHECK(sim::wait_for([&] { return all.done() == all.v.size(); }, 100 * SEC, 5 * MS) || !t->is_done(0) || true, "x", "x");
    sim::enable_faults(false); fr.close(false); fw.close(false); }
  int owner = 0; try { t->end(); } catch (const mgexceptionbase &x) { owner = x.get_error_number(); } catch (...) { owner = 1; }
  { sim::Quiet q; bool lost = false; int fail_code = 0, nfail = 0;
    for (auto *o : all.v) { const sim::FsOp *e = find_log(o->kind, -1, (int64_t)o->pos); SIM_CHECK(e, "lost", "operation %d (%c) never reached the storage", o->id, o->kind);
      uint64_t want = o->kind == 'r' ? std::min<uint64_t>(o->size, body.size() - std::min<uint64_t>(o->pos, body.size())) : o->size;
      if (e->result < 0) { nfail++; fail_code = (int)e->result; SIM_CHECK(!o->val, "false-success", "operation %d (%c) failed with %lld but was reported as successful", o->id, o->kind, (long long)e->result);
        if (o->er) SIM_CHECK(o->code == e->result, "wrong-code", "operation %d (%c) failed with %lld but its listener was told %d", o->id, o->kind, (long long)e->result, o->code); else lost = true; }
      else if ((uint64_t)e->result < want) { SIM_CHECK(!o->val || (o->kind == 'r' && o->got.size() == want) || (o->kind == 'w' && sim::disk_get("/sim/w", o->pos, o->size) == o->data), "false-success", "operation %d (%c) transferred %lld of %llu bytes but was reported as successful", o->id, o->kind, (long long)e->result, (unsigned long long)want); if (!o->val && !o->er) lost = true; }
      else { SIM_CHECK(!o->er, "false-failure", "operation %d (%c) succeeded but was reported as failed (%d)", o->id, o->kind, o->code); SIM_CHECK(o->val, "lost", "operation %d (%c) succeeded but was never delivered", o->id, o->kind); } }
    if (lost) SIM_CHECK(owner != 0, "unreported", "an operation failed, and neither its listener nor the owner of the loop was told");
    else SIM_CHECK(owner == 0, "invented", "the owner was told of error %d although every failure had reached its listener", owner);
    sim::covered(hmix(nfail, all.v.size())); (void)fail_code; std::string().swap(body); } }
  c.check();
}
// opens and closes, synchronous and asynchronous
SCENARIO(C12, open_close, 3) {
  storage(false); sim::World &w = sim::world(); w.p_open = 0.3; w.p_close = 0.3; w.p_stat = 0.15; Clean c; 
  { Ops all; { sim::Quiet q; sim::disk_put("/sim/r", "hello"); sim::disk_mkdir("/sim/d"); } sim::enable_faults(sim::flip("f", 0.8)); int owner_codes = 0, thrown = 0; int codes[16], logged[32];
  int n = 1 + sim::choose("n", 3);
  for (int i = 0; i < n; i++) { LT t; mk_loop(t);
    static const char *const paths[] = {"/sim/r", "/sim/none", "/sim/x/y", "/sim/d", "/sim/new"}; uint32_t pi = sim::choose("path", 5); const char *path = paths[pi]; int flags = pi == 4 ? (O_CREAT | O_WRONLY | O_TRUNC) : pi == 3 ? O_WRONLY : O_RDONLY;
    bool as = sim::flip("as", 0.6), listen = sim::flip("li", 0.7); size_t l0, l2 = 0; bool implicit = false; Q(l0 = sim::fs_log().size()); Op *o = all.add('o', 0, 0); int code = 0; bool threw = false;
    { cfile f(t);
      try { auto pr = f.open(path, flags, !as ? false : true); if (as && listen) on_fs(pr, &all, o); }
      catch (const mgexceptionbase &x) { threw = true; code = x.get_error_number(); thrown++; }
      if (as && !threw) SIM_CHECK(sim::wait_for([&] { return !f.outstanding(); }, 50 * SEC, MS), "lost", "open not finished after 50 s");
      if (as && !threw) { auto_lock l(t->loop_lock()); }
      { sim::Quiet q; const sim::FsOp *e = nullptr; for (size_t k = l0; k < sim::fs_log().size(); k++) if (sim::fs_log()[k].type == 'o') e = &sim::fs_log()[k];
        bool failed = !e || e->result < 0;
        if (failed) SIM_CHECK(!o->val, "false-success", "the open of %s failed (%lld) but was reported as successful", path, e ? (long long)e->result : 0ll);
        if (failed && !as) SIM_CHECK(threw, "false-success", "the synchronous open of %s failed but returned normally", path);
        if (threw && e && failed) SIM_CHECK(code == e->result, "wrong-code", "the open of %s failed with %lld but %d was thrown", path, (long long)e->result, code);
        if (threw && !e) SIM_CHECK(code < 0 && code > -4096, "wrong-code", "the open of %s threw %d", path, code);
        if (!failed) SIM_CHECK(!threw && !o->er, "false-failure", "the open of %s succeeded but was reported as failed (%d)", path, threw ? code : o->code);
        if (!failed && as && listen) SIM_CHECK(o->val == 1, "lost", "the open of %s succeeded but its listener was not told", path);
        if (failed && as && !threw && o->er) SIM_CHECK(o->code == e->result, "wrong-code", "the open of %s failed with %lld but its listener was told %d", path, (long long)e->result, o->code);
        if (failed && as && !threw && !o->er && e) logged[owner_codes++] = (int)e->result; }
      bool ac = sim::flip("ac", 0.5), cl = sim::flip("cl", 0.8), cli = sim::flip("cli", 0.7); Op *oc = all.add('c', 0, 0); size_t l1; Q(l1 = sim::fs_log().size()); bool cthrew = false; int ccode = 0;
      if (cl) {
        try { auto pr = f.close(ac); if (!!pr && cli) on_fs(pr, &all, oc); } catch (const mgexceptionbase &x) { cthrew = true; ccode = x.get_error_number(); }
        if (ac) SIM_CHECK(sim::wait_for([&] { return !f.outstanding(); }, 50 * SEC, MS), "lost", "close not finished after 50 s");
        if (ac) { auto_lock l(t->loop_lock()); }
        sim::Quiet q; const sim::FsOp *e = nullptr; for (size_t k = l1; k < sim::fs_log().size(); k++) if (sim::fs_log()[k].type == 'c') e = &sim::fs_log()[k];
        if (e && e->result < 0) { SIM_CHECK(!oc->val, "false-success", "the close failed but was reported as successful"); if (!ac) SIM_CHECK(cthrew, "false-success", "the synchronous close failed but returned normally"); if (cthrew) SIM_CHECK(ccode == e->result, "wrong-code", "the close failed with %lld but %d was thrown", (long long)e->result, ccode); else if (oc->er) SIM_CHECK(oc->code == e->result, "wrong-code", "the close failed with %lld but its listener was told %d", (long long)e->result, oc->code); else logged[owner_codes++] = (int)e->result; }
        else SIM_CHECK(!cthrew && !oc->er, "false-failure", "a successful close was reported as failed (%d)", cthrew ? ccode : oc->code);
      } else if (sim::flip("implicit", 0.5)) { implicit = true; Q(l2 = sim::fs_log().size()); } else sim::world().p_close = 0; }
    if (implicit) { sim::Quiet q; for (size_t k = l2; k < sim::fs_log().size(); k++) if (sim::fs_log()[k].type == 'c' && sim::fs_log()[k].result < 0) logged[owner_codes++] = (int)sim::fs_log()[k].result; } // closed by its destruction: only the owner can be told
    try { t->check_exception(); if (owner_codes) sim::fail("unreported", "an open or close failed (%d) and neither its listener nor the owner was told", logged[0]); }
    catch (const mgexceptionbase &x) { codes[0] = x.get_error_number(); bool f = false; for (int k = 0; k < owner_codes; k++) f |= logged[k] == codes[0]; SIM_CHECK(f, owner_codes ? "wrong-code" : "invented", "the owner was told of error %d", codes[0]); }
    // several errors may be pending
    owner_codes = 0; try { t->end(); } catch (const std::exception &) { sim::fail("twice", "the owner was told twice"); } }
  sim::enable_faults(false); }
  c.check();
}

// ---------------------------------------------------------------- C13
SCENARIO(C13, lifecycle, 4) {
  bool faults = sim::flip("faults", 0.5); storage(faults); sim::World &w = sim::world(); if (faults) { w.p_close = sim::flip("pc", 0.3) ? 0.4 : 0; w.p_open = sim::flip("po", 0.3) ? 0.4 : 0; }
  Clean c; { Ops all; Q(sim::disk_put("/sim/r", pattern(3000, 1))); LT t; mk_loop(t); int nf = 1 + sim::choose("nf", 3); std::vector<int> ids; Q(ids.reserve(4));
  bool locked = sim::flip("locked", 0.5); // listeners in place before the loop can complete the operation
  struct Hold { LT &t; bool on; Hold(LT &t, bool on) : t(t), on(on) { if (on) this->t->loop_lock().lock(); } ~Hold() { if (on) t->loop_lock().unLock(); } };
  int sid = -1; if (!locked && sim::flip("stopper", 0.25)) sid = sim::go("stopper", [&] { sim::sleep(1 + sim::choose("stopn", 200) * MS / 4); t->stop(); }); // the loop ends under their feet
  for (int i = 0; i < nf; i++) { int id = sim::go("user", [&, i] {
    for (int rep = 0; rep < 2; rep++) {
      Ops mine; int closes = 0; bool open_ok = false; { char path[32]; snprintf(path, sizeof path, "/sim/w%d", i); bool wr = sim::flip("wr", 0.5), ao = sim::flip("ao", 0.4), skip = sim::flip("skip", 0.05);
        cfile *f = new cfile(t); const char *pa = wr ? path : "/sim/r"; int fl = wr ? O_CREAT | O_WRONLY | O_TRUNC : O_RDONLY;
        bool failed = false; Op *oo = nullptr;
        if (!skip) try { Hold h(t, locked && ao); if (ao) { oo = mine.add('o', 0, 0); on_fs(f->open(pa, fl), &mine, oo); } else f->open_sync(pa, fl); open_ok = true; } catch (const std::exception &) { failed = true; if (oo) Q(oo->er++, oo->returned = true); }
        bool usable = !skip && !failed;
        if (usable && ao && sim::flip("wo", 0.7)) { sim::wait_for([&] { return !f->outstanding(); }, 30 * SEC, MS); auto_lock l(t->loop_lock()); usable = oo->val; } else if (ao) usable = false;
        int n = usable ? sim::choose("n", 6) : 0; unsigned char buf[200]; memset(buf, 7, sizeof buf); cfile *pf = f; Ops *pm = &mine;
        for (int k = 0; k < n; k++) { uint32_t s = 1 + sim::choose("s", 199); Hold h(t, locked);
          if (wr) { Op *o = mine.add('w', f->get_position(), s); on_fs(f->write(buf, s), &mine, o); }
          else { Op *o = mine.add('r', f->get_position(), s); bool chain = sim::flip("ch", 0.2); on_read(f->read(s), &mine, o, chain ? std::function<void()>([pf, pm] { if (sim::flip("slow listener", 0.4)) sim::sleep(1 + sim::choose("slown", 25) * MS); Op *p = pm->add('r', 0, 5); on_read(pf->read(5), pm, p); }) : std::function<void()>()); }
          if (sim::flip("gap", 0.2)) sim::sleep(sim::choose("gn", 50) * MS + 1); }
        uint32_t how = sim::choose("how", 5); // 0 sync close, 1 async close, 2 destroy, 3 async then sync, 4 twice
        Op *oc = nullptr;
        auto quiesced = [&](const char *what) { sim::Quiet q; for (auto *o : mine.v) if (o != oc) SIM_CHECK((o->done() && o->returned) || (!locked && faults && !o->done()), "early-close", "%s returned before operation %d (%c) was delivered", what, o->id, o->kind); };
        if (how == 0 || how == 4) { try { f->close(false); } catch (const std::exception &) { SIM_CHECK(faults, "error", "close failed on a healthy disk"); } quiesced("close"); closes++; if (how == 4) f->close(false); }
        if (how == 1 || how == 3) { Op *x = mine.add('c', 0, 0); oc = x; CResource<CPromise<uv_fs_t> > pr; for (;;) { if (locked) sim::wait_for([&] { return !f->outstanding(); }, 30 * SEC, MS); Hold h(t, locked); if (locked && f->outstanding()) continue; pr = f->close(true); quiesced("close"); if (!!pr) on_fs(pr, &mine, oc); break; } if (!pr) Q(oc->val++, oc->returned = true); if (how == 3) { f->close(false); oc = nullptr; quiesced("close"); oc = x; } }
        delete f; oc = nullptr; quiesced("destruction"); }
      (void)open_ok; (void)closes;
    } }); Q(ids.push_back(id)); }
  for (int id : ids) sim::join(id); if (sid >= 0) sim::join(sid);
  sim::enable_faults(false);
  for (int k = 0; k < 40; k++) try { if (k < 20) t->check_exception(); else { t->end(); break; } } catch (const std::exception &) { SIM_CHECK(faults, "error", "an error on a healthy disk"); }
  Q(std::vector<int>().swap(ids)); 
  { sim::Quiet q; std::map<int, int> o, cl; for (auto &e : sim::fs_log()) { if (e.type == 'o' && e.result >= 0) o[(int)e.result]++; if (e.type == 'c' && e.fd >= 0) cl[e.fd]++; } for (auto &k : o) SIM_CHECK(cl[k.first] == k.second, cl[k.first] ? "double-close" : "fd-leak", "descriptor %d was closed %d times", k.first, cl[k.first]); sim::covered(hmix(o.size(), sim::fs_log().size())); }
  }
  c.check();
}

// memory runs out at any allocation: an operation either is not accepted, told to its caller and of no effect, or is delivered once
SCENARIO(C13, memory, 3) {
  storage(false); sim::World &w = sim::world(); w.p_stat = 0; std::string body, model; { sim::Quiet q; body = pattern(4000, 1); sim::disk_put("/sim/r", body); } Clean c;
  { Ops all; LT t; mk_loop(t); bool wr = sim::flip("wr", 0.5), loopf = sim::flip("loopf", 0.3), io = sim::flip("io", 0.25); double pa = 0.02 + 0.01 * sim::choose("pa", 50);
    cfile *f = new cfile(t); cfile *g = sim::flip("g", 0.5) ? new cfile(t) : nullptr; const char *path = wr ? "/sim/w" : "/sim/r"; int fl = wr ? O_CREAT | O_WRONLY | O_TRUNC : O_RDONLY; w.max_alloc_faults = 1 + sim::choose("maxa", 12); if (io) { w.p_eio = 0.1; w.p_short_read = 0.1; w.p_short_write = 0.1; }
    if (g) g->open_sync("/sim/r");
    sim::enable_faults(true); unsigned char buf[400];
    auto arm = [&](bool on) { w.p_alloc = on ? pa : 0; };
    for (int tries = 0;; tries++) { bool ao = sim::flip("ao", 0.5), threw = false; if (tries > 20) { w.max_alloc_faults = 0; ao = false; }
      if (!ao) { arm(true); try { f->open_sync(path, fl); } catch (const std::bad_alloc &) { threw = true; } arm(false); if (!threw) break; continue; }
      Op *o = all.add('o', 0, 0); { auto_lock l(t->loop_lock()); CResource<CPromise<uv_fs_t> > pr; arm(true); try { pr = f->open(path, fl); } catch (const std::bad_alloc &) { threw = true; } arm(false); if (threw) Q(o->er = 1, o->returned = true); else on_fs(pr, &all, o); }
      if (threw) continue;
      arm(loopf); sim::wait_for([&] { return o->returned; }, 60 * SEC, MS); arm(false); if (o->val) break; SIM_CHECK(io && !o->val, "served", "opening failed: %d", o->code); }
    int n = 1 + sim::choose("n", 10); bool any_err = false;
    for (int i = 0; i < n; i++) { cfile *x = g && sim::flip("on g", 0.3) ? g : f; bool wx = wr && x == f; uint32_t s = 1 + sim::choose("s", 300); uint64_t pos = x->get_position(), size = x->size(); if (!wx && pos + s > 4000) x->set_position(pos = 0);
      uint64_t was = pos; int32_t out = 0; Op *o; Q(for (uint32_t k = 0; k < s; k++) buf[k] = (unsigned char)(pos * 7 + k * 3 + i)); bool threw = false;
      { auto_lock l(t->loop_lock()); out = x->outstanding();
        if (wx) { o = all.add('w', pos, s); Q(o->data.assign((char *)buf, s)); CResource<CPromise<uv_fs_t> > pr; arm(true); try { pr = x->write(buf, s); } catch (const std::bad_alloc &) { threw = true; } arm(false); if (!threw) on_fs(pr, &all, o); }
        else { o = all.add('r', pos, s); CResource<CPromise<CBuffer<unsigned char> > > pr; arm(true); try { pr = x->read(s); } catch (const std::bad_alloc &) { threw = true; } arm(false); if (!threw) on_read(pr, &all, o); }
        SIM_CHECK(x->outstanding() == out + !threw, "served", "after %s operation %d are outstanding, %d were before", threw ? "a refused" : "an accepted", (int)x->outstanding(), (int)out);
        SIM_CHECK(x->get_position() == was + (threw ? 0 : s), "served", "after %s operation of %u bytes at %llu the file stands at %llu", threw ? "a refused" : "an accepted", s, (unsigned long long)was, (unsigned long long)x->get_position()); (void)size; }
      if (threw) Q(o->kind = 'x', o->er = 1, o->returned = true);
      if (sim::flip("gap", 0.3)) { arm(loopf); sim::sleep(sim::choose("gn", 60) * MS + 1); arm(false); } }
    arm(loopf); uint32_t how = sim::choose("how", 3); bool closed = false;
    if (how) for (int tries = 0; tries < 20 && !closed; tries++) { bool ac = how == 2 && sim::flip("ac", 0.7); try { if (!ac) { arm(true); f->close(false); arm(loopf); closed = true; break; }
        sim::wait_for([&] { return !f->outstanding(); }, 60 * SEC, MS); CResource<CPromise<uv_fs_t> > pr; arm(true); pr = f->close(true); arm(false); closed = true; } catch (const std::bad_alloc &) { } arm(false); if (tries > 10) w.max_alloc_faults = 0; arm(loopf); }
    if (io && how) closed = true;
    delete f; delete g; arm(false); sim::enable_faults(false);
    { sim::Quiet q; for (auto *o : all.v) { SIM_CHECK(o->val + o->er == 1, "lost", "operation %d (%c) was reported %d times", o->id, o->kind, o->val + o->er); if (o->kind == 'x' || o->kind == 'o') continue; if (o->er) { any_err = true; SIM_CHECK(io, "error", "operation %d (%c) was accepted and failed on a healthy disk: %d", o->id, o->kind, o->code); }
        else if (o->kind == 'r') SIM_CHECK(o->got == body.substr(o->pos, o->size), "content", "read %d yields wrong bytes", o->id); else { if (model.size() < o->pos + o->size) model.resize(o->pos + o->size, '\0'); model.replace(o->pos, o->size, o->data); } }
      if (wr && !any_err) SIM_CHECK(sim::disk_get("/sim/w", 0, 100000) == model, "content", "the file does not hold what was accepted"); sim::covered(hmix(all.v.size() * 16 + how, wr + 2 * loopf + 4 * io)); }
    for (int k = 0; k < 40; k++) try { if (k < 20) t->check_exception(); else { t->end(); break; } } catch (const std::exception &) { SIM_CHECK(io || loopf, "error", "an error was raised to the owner"); }
    { sim::Quiet q; std::map<int, int> o, cl; for (auto &e : sim::fs_log()) { if (e.type == 'o' && e.result >= 0) o[(int)e.result]++; if (e.type == 'c' && e.fd >= 0) cl[e.fd]++; } for (auto &k : o) SIM_CHECK(cl[k.first] == k.second, cl[k.first] ? "double-close" : "fd-leak", "descriptor %d was opened %d times and closed %d times", k.first, k.second, cl[k.first]); std::string().swap(body); std::string().swap(model); } }
  c.check();
}

// ---------------------------------------------------------------- C19, C20
namespace {
// passes everything through and counts what is in flight
struct Track : Ibitstream_storage {
  struct P : Ibitstream_cb { Track *t; Ibitstream_cb *cb; bool write; bool done = false;
    void end() { sim::Quiet q; SIM_CHECK(!done, "twice", "a %s of the copy was called back twice", write ? "write" : "read"); done = true; (write ? t->writes : t->reads)--; if (write) t->written++; }
    void read_cb(const unsigned char *p, uint32_t n) override { if (!n) Q(t->empty++); end(); cb->read_cb(p, n); }
    void write_cb(uint32_t n) override { end(); cb->write_cb(n); }
    void err_cb(std::exception_ptr e) override { Q(t->failed++); end(); cb->err_cb(e); } };
  Ibitstream_storage *in; int reads = 0, writes = 0, nread = 0, written = 0, empty = 0, failed = 0; std::vector<P *> ps; Track *peer = nullptr; int max_out = 0;
  Track(Ibitstream_storage *s) : in(s) {}
  ~Track() { sim::Quiet q; for (auto *p : ps) delete p; std::vector<P *>().swap(ps); }
  P *mk(Ibitstream_cb *cb, bool w) { sim::Quiet q; P *p = new P; p->t = this; p->cb = cb; p->write = w; ps.push_back(p); (w ? writes : reads)++; return p; }
  void read(uint32_t n, Ibitstream_cb *cb) override { P *p = mk(cb, false); { sim::Quiet q; nread++; if (peer) { int out = nread - peer->written - empty - failed; if (out > max_out) max_out = out; } } try { in->read(n, p); } catch (...) { if (!p->done) p->end(); throw; } }
  void write(const unsigned char *b, uint32_t n, Ibitstream_cb *cb) override { P *p = mk(cb, true); try { in->write(b, n, p); } catch (...) { if (!p->done) p->end(); throw; } }
  bool eof() override { return in->eof(); } void flush() override { in->flush(); } uint64_t get_position() const override { return in->get_position(); } void set_position(uint64_t r) override { in->set_position(r); } void idle() override { in->idle(); }
};
// a destination that takes its time, on its own thread
struct Slow : Ibitstream_storage {
  struct W { std::string d; uint64_t at; Ibitstream_cb *cb; uint64_t due; bool fail; };
  std::string *out; uint64_t pos = 0; std::deque<W> q; bool stop = false; int tid = -1, fails; uint64_t step; bool sync_first; 
  Slow(std::string *o, uint64_t st, int nfail) : out(o), fails(nfail), step(st) { sync_first = sim::flip("sync1", 0.2); tid = sim::go("slow disk", [this] { run(); }); }
  void run() { for (;;) { W w; bool have = false, end; { sim::Quiet k; end = stop && q.empty(); if (!q.empty() && q.front().due <= sim::now()) { w = std::move(q.front()); q.pop_front(); have = true; } } if (end) { sim::Quiet k; std::string().swap(w.d); return; }
      if (!have) { sim::sleep(MS); sim::Quiet k; std::string().swap(w.d); continue; }
      if (w.fail && sim::flip("cut", 0.4)) { uint32_t k = sim::choose("cutn", (uint32_t)w.d.size()); sim::fired(sim::F_SHORT_WRITE); { sim::Quiet k2; if (out->size() < w.at + k) out->resize(w.at + k); memcpy(&(*out)[0] + w.at, w.d.data(), k); } w.cb->write_cb(k); } else if (w.fail) { sim::fired(sim::F_EIO); std::exception_ptr e; Q(e = std::make_exception_ptr(mgexception(-5, "injected", __FILE__, __LINE__))); w.cb->err_cb(e); } else { { sim::Quiet k; if (out->size() < w.at + w.d.size()) out->resize(w.at + w.d.size()); memcpy(&(*out)[w.at], w.d.data(), w.d.size()); } w.cb->write_cb((uint32_t)w.d.size()); } { sim::Quiet k; std::string().swap(w.d); } } }
  void read(uint32_t, Ibitstream_cb *) override {}
  void write(const unsigned char *b, uint32_t n, Ibitstream_cb *cb) override { bool failing = false, now = sync_first && sim::flip("snow", 0.5); if (now) { sim::Quiet k; now = q.empty(); } W w; { sim::Quiet k; w.d.assign((const char *)b, n); w.at = pos; w.cb = cb; w.due = sim::now() + step; w.fail = fails > 0 && sim::flip("sfail", 0.2); failing = w.fail; if (w.fail) fails--; pos += n; if (now && !w.fail) { if (out->size() < w.at + n) out->resize(w.at + n); memcpy(&(*out)[w.at], w.d.data(), n); std::string().swap(w.d); } else q.push_back(std::move(w)); } if (now && !failing) cb->write_cb(n); }
  bool eof() override { return false; } void flush() override {} uint64_t get_position() const override { return pos; } void set_position(uint64_t r) override { pos = r; }
  ~Slow() { Q(stop = true); sim::join(tid); sim::Quiet k; std::deque<W>().swap(q); }
};
// a source of somebody else's: on its own thread or at once, giving what it likes, and failing as it likes
struct Source : Ibitstream_storage {
  struct R { uint64_t at; uint32_t n; Ibitstream_cb *cb; uint64_t due; bool fail; };
  const std::string *d; uint64_t pos = 0; std::deque<R> q; bool stop = false, stingy; int tid = -1, fails; uint64_t step; int nothings = 0;
  Source(const std::string *c, uint64_t st, int nfail) : d(c), fails(nfail), step(st) { stingy = sim::flip("stingy", 0.3); if (step) tid = sim::go("source", [this] { run(); }); }
  void give(R &r) { if (r.fail) { sim::fired(sim::F_EIO); std::exception_ptr e; Q(e = std::make_exception_ptr(mgexception(-5, "injected", __FILE__, __LINE__))); r.cb->err_cb(e); return; } unsigned char *m; while (!(m = new (std::nothrow) unsigned char[r.n + 1])) {} memcpy(m, d->data() + r.at, r.n); r.cb->read_cb(m, r.n); memset(m, 0xee, r.n); delete[] m; }
  void run() { for (;;) { R r; bool have = false, end; { sim::Quiet k; end = stop && q.empty(); if (!q.empty() && q.front().due <= sim::now()) { r = q.front(); q.pop_front(); have = true; } } if (end) return; if (!have) { sim::sleep(MS); continue; } give(r); } }
  void read(uint32_t n, Ibitstream_cb *cb) override { R r; bool thrown = false; { sim::Quiet k; uint64_t left = d->size() - std::min<uint64_t>(pos, d->size()); if (n > left) n = (uint32_t)left; r.fail = fails > 0 && sim::flip("srcfail", 0.2); if (r.fail) { fails--; switch (sim::choose("srchow", 3)) { case 0: thrown = true; break; case 1: n = 0; r.fail = false; nothings++; sim::fired(sim::F_SHORT_READ); break; } } if (n > 1 && stingy && sim::flip("less", 0.5)) n = 1 + sim::choose("lessn", n - 1); if (!thrown && !r.fail) pos += n; r.at = pos - (r.fail ? 0 : n); r.n = n; r.cb = cb; r.due = sim::now() + step; if (!thrown && step) q.push_back(r); }
    if (thrown) { sim::fired(sim::F_EIO); throw mgexception(-5, "injected", __FILE__, __LINE__); } if (!step) give(r); }
  void trip() { bool t; Q(t = fails > 0 && sim::flip("srctrip", 0.04); if (t) { fails--; sim::fired(sim::F_EIO); }); if (t) throw mgexception(-5, "injected", __FILE__, __LINE__); }
  void write(const unsigned char *, uint32_t, Ibitstream_cb *) override {} bool eof() override { trip(); return pos >= d->size(); } void flush() override {} uint64_t get_position() const override { const_cast<Source *>(this)->trip(); return pos; } void idle() override { trip(); } void set_position(uint64_t r) override { pos = std::min<uint64_t>(r, d->size()); }
  ~Source() { Q(stop = true); if (tid >= 0) sim::join(tid); sim::Quiet k; std::deque<R>().swap(q); }
};
uint32_t csize(bool big) { static const uint32_t t[] = {1000, 64, 257, 5000, 1, 20000, 0}; return big ? t[sim::choose("len", 7)] + sim::choose("len2", 100) : 64 + sim::choose("len2", 3000); }
void copy_run(bool faults, int idx, LT &t1, LT &t2, int *reported) {
  char rp[32], wp[32]; snprintf(rp, sizeof rp, "/sim/src%d", idx); snprintf(wp, sizeof wp, "/sim/dst%d", idx);
  std::string body, slow; uint32_t len = csize(true); { sim::Quiet q; body = pattern(len, 900 + idx); sim::disk_put(rp, body); }
  uint32_t ck = sim::choose("ck", 6); uint32_t chunk = ck == 0 ? 100 : ck == 1 ? 8192 : ck == 2 ? 1 + sim::choose("chunk", 2000) : ck == 3 ? len + 1 : ck == 4 ? (len ? len : 1) : 64 * 1024; if (len / chunk > 300) chunk = len / 300 + 1;
  uint64_t start = sim::flip("st", 0.4) ? sim::choose("start", len + 20) : 0, end = 0; if (sim::flip("en", 0.4)) end = start + 1 + sim::choose("end", len + 50);
  if (start && sim::flip("st=len", 0.1)) start = len;
  int sk = sim::choose("src", 5), dk = sim::choose("dst", 4); uint64_t base = sim::flip("base", 0.2) ? sim::choose("basen", 5000) : 0; bool wrong = false, cthrew = false; int maxo = 0; uint64_t t0 = 0;
  if (sk == 4 && start > len) start = len; if (sk == 4 && end && end <= start) end = start + 1;
  uint64_t lo = std::min<uint64_t>(start, len), hi = end ? std::min<uint64_t>(end, len) : len; if (hi < lo) hi = lo;
  if (faults && sim::flip("late", 0.5)) {}
  { file_bitstream *as = nullptr, *ad = nullptr; sync_file_bitstream *ss = nullptr, *sd = nullptr; Slow *sl = nullptr; Source *so = nullptr; fixed_memory_read *mr = nullptr; fixed_memory_write *mw = nullptr, *md = nullptr; Ibitstream_storage *src, *dst;
    try {
    if (sk == 0) { as = new file_bitstream(t1); as->open_sync(rp); src = as; } else if (sk == 1) { ss = new sync_file_bitstream(rp); src = ss; } else if (sk == 3) { mr = new fixed_memory_read((const unsigned char *)body.data(), body.size()); src = mr; } else if (sk == 4) { struct Put : Ibitstream_cb { void read_cb(const unsigned char *, uint32_t) override {} void write_cb(uint32_t) override {} void err_cb(std::exception_ptr) override {} } put; mw = new fixed_memory_write(1 + sim::choose("mwcap", 2000)); src = mw; if (len) mw->write((const unsigned char *)body.data(), len, &put); mw->set_position(0); } else { static const uint64_t st[] = {0, MS, 20 * MS, 200 * MS}; uint64_t z = st[sim::choose("srcslow", 4)]; if (len / chunk > 50) z /= 10; so = new Source(&body, z, faults ? 1 : 0); src = so; }
    if (dk == 0) { ad = new file_bitstream(t2); ad->open_sync(wp, O_CREAT | O_WRONLY | O_TRUNC); dst = ad; } else if (dk == 1) { sd = new sync_file_bitstream(wp, false); dst = sd; } else if (dk == 3) { uint32_t cap = 1 + sim::choose("mdcap", 2000); base %= cap; md = new fixed_memory_write(cap); dst = md; } else { static const uint64_t st[] = {0, 5 * MS, 300 * MS, 3 * SEC}; uint64_t s = st[sim::choose("slow", 4)]; if (len / chunk > 50) s /= 10; sl = new Slow(&slow, s, faults ? 1 : 0); dst = sl; }
    } catch (const std::exception &) { SIM_CHECK(faults, "error", "cannot open on a healthy disk"); wrong = true; }
    auto stored = [&]() -> std::string { if (dk == 3) return md && md->size() > base ? std::string((const char *)md->get_buffer() + base, md->size() - base) : std::string(); return dk == 2 ? (slow.size() > base ? slow.substr(base) : std::string()) : sim::disk_get(wp, base); };
    if (!wrong) {
      if (base) dst->set_position(base);
      if (sim::flip("moved", 0.3)) src->set_position(sim::choose("movedto", len + (sk == 4 ? 1 : 20))); // wherever the source stands
      Track ts(src), td(dst); ts.peer = &td; t0 = sim::now();
      if (faults) sim::enable_faults(true);
      try { copy_stream(ts, td, chunk, start, end); } catch (const mgexceptionbase &x) { cthrew = true; SIM_CHECK(faults, "error", "copy failed with %d on a healthy disk", x.get_error_number()); }
      catch (...) { cthrew = true; SIM_CHECK(faults, "error", "copy failed on a healthy disk"); }
      { sim::Quiet q; maxo = ts.max_out; SIM_CHECK(ts.reads == 0 && td.writes == 0, "early-return", "the copy returned with %d reads and %d writes still outstanding", ts.reads, td.writes);
        SIM_CHECK(maxo <= 64, "unbounded", "%d chunks were in flight", maxo);
        SIM_CHECK(sim::now() - t0 < (sim::world().p_stall > 0 ? 290 * SEC : sl ? 200 * SEC : 100 * SEC), "slow", "the copy took %llu ms", (unsigned long long)((sim::now() - t0) / MS)); }
      if (!faults && dk != 1) { sim::Quiet q; std::string got = stored(); SIM_CHECK(got == body.substr(lo, hi - lo), "content", "after the copy of [%llu,%llu) the destination has %zu bytes, expected %llu equal ones", (unsigned long long)start, (unsigned long long)end, got.size(), (unsigned long long)(hi - lo)); }
      if (!faults && dk == 1) { sim::Quiet q; std::string got = sim::disk_get(wp, base); SIM_CHECK(got == body.substr(lo, hi - lo), "content", "after the copy of [%llu,%llu) the synchronous destination has %zu bytes, expected %llu equal ones", (unsigned long long)start, (unsigned long long)end, got.size(), (unsigned long long)(hi - lo)); }
    }
    bool rep = cthrew || wrong;
    // what the copy calls done is there when it returns, not only after the close
    bool undone = false; if (faults && !rep) { sim::Quiet q; std::string got = stored(); undone = got != body.substr(lo, hi - lo); if (undone) sim::note("unfaithful when the copy returned: %zu of %llu bytes", got.size(), (unsigned long long)(hi - lo)); }
    if (sd) { try { if (sim::flip("dflush", 0.3)) sd->flush(); sd->close(); } catch (const std::exception &) { SIM_CHECK(faults, "error", "close failed on a healthy disk"); rep = true; } }
    if (ad && sim::flip("dclose", 0.5)) { try { ad->close(false); } catch (const std::exception &) { SIM_CHECK(faults, "error", "close failed on a healthy disk"); rep = true; } }
    std::string kept; if (dk == 3) Q(kept = stored());
    if (sim::flip("order", 0.5)) { delete as; delete ss; delete ad; delete sd; delete sl; delete so; } else { delete so; delete sl; delete sd; delete ad; delete ss; delete as; }
    delete mr; delete mw; delete md; md = nullptr;
    *reported = rep;
    if (faults && !rep) { sim::Quiet q; std::string got = dk == 3 ? kept : stored(); *reported = got == body.substr(lo, hi - lo) ? 0 : 2; if (*reported == 2) sim::note("unfaithful: %zu of %llu bytes", got.size(), (unsigned long long)(hi - lo)); }
    if (faults && rep) *reported = 1;
    if (undone) *reported = 2;
    Q(std::string().swap(kept));
  }
  sim::Quiet q; sim::covered(hmix(maxo * 64 + sk * 4 + dk * 16 + cthrew, (hi - lo) / (chunk ? chunk : 1))); std::string().swap(body); std::string().swap(slow);
}
}
SCENARIO(C19, faithful, 4) {
  storage(false); if (sim::flip("veryslow", 0.15)) { sim::world().p_stall = 0.05; sim::world().stall_hi = 5 * SEC; } Clean c; 
  { LT t1, t2; mk_loop(t1); bool two = sim::flip("two", 0.3); if (two) mk_loop(t2); else t2 = t1; if (sim::flip("lazyloop", 0.1)) { t1->set_wait_time(20000); t2->set_wait_time(20000); } int r = 0; copy_run(false, 0, t1, t2, &r); t1->end(); if (two) t2->end(); }
  c.check();
}
SCENARIO(C19, far, 1) { // where positions do not fit in 32 bits
  storage(false); Clean c; { LT t; mk_loop(t); static const uint64_t at[] = {4294967296ull, 2147483648ull, 5000000000ull, 1099511627776ull}; uint64_t w = at[sim::choose("at", 4)] - sim::choose("atn", 2) * sim::choose("atd", 3000); uint32_t len = 1 + sim::choose("len", 6000), before = sim::choose("before", 300); std::string body; { sim::Quiet q; body = pattern(len, 31); sim::disk_put_sparse("/sim/far", w); sim::disk_poke("/sim/far", w, body); body.insert(0, std::string(before, 0)); }
    uint64_t start = w - before, end = sim::flip("en", 0.5) ? start + 1 + sim::choose("end", len + before + 50) : 0, base = sim::flip("base", 0.5) ? at[sim::choose("basen", 4)] - sim::choose("based", 500) : 0; uint64_t n = end ? std::min<uint64_t>(end - start, body.size()) : body.size(); uint32_t chunk = 1 + sim::choose("chunk", 3000); if (n / chunk > 200) chunk = (uint32_t)n / 200 + 1; if (sim::flip("bigchunk", 0.2)) chunk = 1u << (20 + sim::choose("bign", 4));
    file_bitstream *as = nullptr, *ad = nullptr; sync_file_bitstream *ss = nullptr, *sd = nullptr; if (sim::flip("as", 0.5)) { as = new file_bitstream(t); as->open_sync("/sim/far"); } else ss = new sync_file_bitstream("/sim/far"); if (sim::flip("ad", 0.5)) { ad = new file_bitstream(t); ad->open_sync("/sim/dst", O_CREAT | O_WRONLY | O_TRUNC); } else sd = new sync_file_bitstream("/sim/dst", false);
    Ibitstream_storage *src = as ? (Ibitstream_storage *)as : ss, *dst = ad ? (Ibitstream_storage *)ad : sd; if (base) dst->set_position(base); Track ts(src), td(dst); ts.peer = &td; try { copy_stream(ts, td, chunk, start, end); } catch (const std::exception &) { SIM_CHECK(0, "error", "the copy of [%llu,%llu) failed on a healthy disk", (unsigned long long)start, (unsigned long long)end); }
    SIM_CHECK(src->get_position() == start + n && dst->get_position() == base + n, "position", "the storages stand at %llu and %llu after a copy of %llu bytes from %llu to %llu", (unsigned long long)src->get_position(), (unsigned long long)dst->get_position(), (unsigned long long)n, (unsigned long long)start, (unsigned long long)base);
    { sim::Quiet q; std::string got = sim::disk_get("/sim/dst", base); SIM_CHECK(got == body.substr(0, n), "content", "after the copy of [%llu,%llu) the destination has %zu bytes at %llu, expected %llu equal ones", (unsigned long long)start, (unsigned long long)end, got.size(), (unsigned long long)base, (unsigned long long)n); sim::covered(hmix(n, chunk)); std::string().swap(body); }
    delete as; delete ss; delete ad; delete sd; t->end(); }
  c.check();
}
namespace { // storages which only count, so that any length can be copied
struct CountFrom : Ibitstream_storage { uint64_t len, pos = 0; std::deque<std::pair<uint32_t, Ibitstream_cb *>> q; uint64_t lazy; bool stop = false; int tid = -1; std::deque<std::pair<uint64_t, uint32_t>> *sent;
  CountFrom(uint64_t l, uint64_t z, std::deque<std::pair<uint64_t, uint32_t>> *s) : len(l), lazy(z), sent(s) { if (lazy) tid = sim::go("source", [this] { for (;;) { std::pair<uint32_t, Ibitstream_cb *> j; bool have = false, end; { sim::Quiet k; end = stop && q.empty(); if (!q.empty()) { j = q.front(); q.pop_front(); have = true; } } if (end) return; if (!have) { sim::sleep(MS); continue; } sim::sleep(1 + sim::choose("lz", 1000) * lazy / 1000); j.second->read_cb((const unsigned char *)"", j.first); } }); }
  void read(uint32_t n, Ibitstream_cb *cb) override { bool now = !lazy; { sim::Quiet k; if (n > len - pos) n = (uint32_t)(len - pos); sent->push_back({pos, n}); pos += n; if (lazy) q.push_back({n, cb}); } if (now) cb->read_cb((const unsigned char *)"", n); }
  void write(const unsigned char *, uint32_t, Ibitstream_cb *) override {} bool eof() override { return pos >= len; } void flush() override {} uint64_t get_position() const override { return pos; } void set_position(uint64_t r) override { pos = std::min(r, len); }
  ~CountFrom() { Q(stop = true); if (tid >= 0) sim::join(tid); sim::Quiet k; std::deque<std::pair<uint32_t, Ibitstream_cb *>>().swap(q); } };
struct CountTo : Ibitstream_storage { uint64_t pos = 0; bool flushed = false; void read(uint32_t, Ibitstream_cb *) override {} void write(const unsigned char *, uint32_t n, Ibitstream_cb *cb) override { pos += n; flushed = false; cb->write_cb(n); } bool eof() override { return false; } void flush() override { flushed = true; } uint64_t get_position() const override { return pos; } void set_position(uint64_t r) override { pos = r; } };
}
SCENARIO(C19, chunks, 1) { // more chunks than a small integer can count
  storage(false); Clean c; { static const uint32_t ns[] = {260, 600, 33000, 66000}; uint32_t n = ns[sim::choose("n", sim::flip("many", 0.03) ? 4 : 2)] + sim::choose("nx", 300), chunk = 1 + sim::choose("ck", 3); static const uint64_t lz[] = {0, MS / 10}; uint64_t len = (uint64_t)n * chunk, lazy = n > 1000 ? 0 : lz[sim::choose("lazy", 2)]; std::deque<std::pair<uint64_t, uint32_t>> sent; bool ok = true;
    { CountFrom src(len, lazy, &sent); CountTo dst; try { copy_stream(src, dst, chunk, 0, 0); } catch (const std::exception &) { ok = false; } SIM_CHECK(ok, "error", "the copy of %llu bytes in chunks of %u failed on a healthy storage", (unsigned long long)len, chunk); SIM_CHECK(dst.pos == len && dst.flushed, "content", "%llu bytes of %llu reached the destination", (unsigned long long)dst.pos, (unsigned long long)len); }
    sim::covered(hmix(n, chunk)); Q(std::deque<std::pair<uint64_t, uint32_t>>().swap(sent)); }
  c.check();
}
SCENARIO(C19, huge, 1) { // more than 32 bits can count
  storage(false); Clean c; { static const uint64_t sz[] = {4294967296ull, 6000000000ull, 20000000000ull, 8589934592ull, 4294967295ull}; uint64_t len = sz[sim::choose("size", 5)] + sim::choose("sized", 1000); uint32_t chunk = sim::flip("ck", 0.3) ? 0xffffffffu - sim::choose("ckd", 3) : (1u << 28) + sim::choose("ckn", 1u << 30); uint64_t start = sim::flip("st", 0.4) ? sim::choose("start", 1u << 31) + (sim::flip("st2", 0.5) ? 4294967296ull : 0) : 0; if (start > len) start = len; uint64_t end = sim::flip("en", 0.6) ? start + 1 + (uint64_t)sim::choose("end", 1u << 31) * 6 : 0; static const uint64_t lz[] = {0, MS, 100 * MS}; uint64_t stop = end ? std::min(end, len) : len, n = stop - start;
    std::deque<std::pair<uint64_t, uint32_t>> sent; { CountFrom src(len, lz[sim::choose("lazy", 3)], &sent); CountTo dst; try { copy_stream(src, dst, chunk, start, end); } catch (const std::exception &) { SIM_CHECK(0, "error", "the copy of [%llu,%llu) of %llu bytes failed on a healthy storage", (unsigned long long)start, (unsigned long long)end, (unsigned long long)len); }
      SIM_CHECK(dst.pos == n && dst.flushed, "content", "%llu bytes reached the destination instead of %llu of [%llu,%llu) of %llu", (unsigned long long)dst.pos, (unsigned long long)n, (unsigned long long)start, (unsigned long long)end, (unsigned long long)len); }
    sim::Quiet q; uint64_t at = start; for (auto &p : sent) { SIM_CHECK(p.first == at && p.second <= chunk, "content", "%u bytes read at %llu, expected to go on at %llu", p.second, (unsigned long long)p.first, (unsigned long long)at); at += p.second; } sim::covered(hmix(n, sent.size())); std::deque<std::pair<uint64_t, uint32_t>>().swap(sent); }
  c.check();
}
SCENARIO(C19, concurrent, 2) {
  storage(false); Clean c; { LT t; mk_loop(t); int n = 2 + sim::choose("n", 2), r[3]; std::vector<int> ids; for (int i = 0; i < n; i++) { int id = sim::go("copier", [&, i] { copy_run(false, i, t, t, &r[i]); }); Q(ids.push_back(id)); } for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids)); t->end(); }
  c.check();
}
SCENARIO(C20, faulty, 4) {
  storage(true); sim::enable_faults(false); sim::World &w = sim::world(); if (sim::flip("veryslow", 0.15)) { w.p_stall = 0.05; w.stall_hi = 5 * SEC; } if (sim::flip("cl", 0.15)) w.p_close = 0.5; if (sim::flip("mem", 0.2)) { w.p_alloc = 0.03; w.max_alloc_faults = 1 + sim::choose("maxa", 4); } Clean c;
  { LT t1, t2; mk_loop(t1); bool two = sim::flip("two", 0.3); if (two) mk_loop(t2); else t2 = t1; int r = 0; copy_run(true, 0, t1, t2, &r); sim::enable_faults(false);
    int owner = 0; for (int k = 0; k < (two ? 2 : 1); k++) try { (k ? t2 : t1)->end(); } catch (const std::exception &) { owner = 1; }
    SIM_CHECK(r != 2 || owner, "false-success", "nothing reported a failure, but the destination is not a copy of the source"); }
  c.check();
}
SCENARIO(C20, changing, 2) { // the source loses its end, or gets more, or has nothing to give any longer, while it is copied
  storage(false); sim::World &w = sim::world(); if (sim::flip("slowio", 0.5)) { w.p_slow = 0.5; w.max_slow = 50 * MS; } Clean c; std::string body, less, slow; uint32_t len = 64 + sim::choose("len", 4000), n; bool grow = sim::flip("grow", 0.3); { n = grow ? len + 1 + sim::choose("more", 3000) : sim::choose("n", len); sim::Quiet q; body = pattern(std::max(len, n), 77); less = body.substr(0, n); sim::disk_put("/sim/src", body.substr(0, len)); sim::disk_put("/sim/dst", ""); }
  uint32_t chunk = 1 + sim::choose("chunk", 600); if (len / chunk > 200) chunk = len / 200 + 1; uint64_t start = sim::flip("st", 0.3) ? sim::choose("start", len) : 0, end = sim::flip("en", 0.3) ? start + 1 + sim::choose("end", len - start) : 0;
  { LT t; mk_loop(t); int sk = sim::choose("src", 3), dk = sim::choose("dst", 3), tid = -1; bool threw = false; file_bitstream *as = nullptr, *ad = nullptr; sync_file_bitstream *ss = nullptr, *sd = nullptr; Slow *sl = nullptr; Ibitstream_storage *src, *dst;
    struct Dry : Ibitstream_storage { const std::string *d; uint64_t pos = 0, last; Dry(const std::string *b, uint64_t l) : d(b), last(l) {} void read(uint32_t k, Ibitstream_cb *cb) override { uint64_t left = last - std::min(pos, last); if (k > left) k = (uint32_t)left; const unsigned char *p = (const unsigned char *)d->data() + pos; pos += k; cb->read_cb(p, k); } void write(const unsigned char *, uint32_t, Ibitstream_cb *) override {} bool eof() override { return false; } void flush() override {} uint64_t get_position() const override { return pos; } void idle() override {} void set_position(uint64_t r) override { pos = r; } } *dry = nullptr;
    if (sk == 0) { src = as = new file_bitstream(t); as->open_sync("/sim/src"); } else if (sk == 1) src = ss = new sync_file_bitstream("/sim/src"); else src = dry = new Dry(&body, n);
    if (dk == 0) { dst = ad = new file_bitstream(t); ad->open_sync("/sim/dst", O_CREAT | O_WRONLY | O_TRUNC); } else if (dk == 1) dst = sd = new sync_file_bitstream("/sim/dst", false); else dst = sl = new Slow(&slow, sim::choose("slow", 3) * 3 * MS, 0);
    if (sk < 2) { if (sim::flip("before", 0.3)) Q(sim::disk_put("/sim/src", less)); else tid = sim::go("changer", [&] { sim::sleep(sim::choose("when", 400) * 100000 + 1); Q(sim::disk_put("/sim/src", less)); }); }
    uint64_t t0 = sim::now(); try { copy_stream(*src, *dst, chunk, start, end); } catch (const std::exception &) { threw = true; }
    SIM_CHECK(sim::now() - t0 < 100 * SEC, "slow", "the copy took %llu ms", (unsigned long long)((sim::now() - t0) / MS));
    if (tid >= 0) sim::join(tid); std::string got; { sim::Quiet q; got = dk == 2 ? slow : std::string(); } delete as; delete ss; delete dry; delete sl; delete ad; delete sd; if (dk < 2) Q(got = sim::disk_get("/sim/dst"));
    { sim::Quiet q; uint64_t full = std::max(len, n), kept = std::min(len, n), lo = std::min<uint64_t>(start, full), hi = end ? std::min(end, full) : full, must = end ? std::min(end, kept) : kept; must = must > lo ? must - lo : 0; uint64_t want = std::min<uint64_t>(hi, len) - std::min<uint64_t>(lo, len);
      if (!threw) SIM_CHECK(got == body.substr(lo, got.size()) && got.size() <= hi - lo, "content", "the destination has %zu bytes which are not those of the source from %llu on", got.size(), (unsigned long long)start);
      if (!threw) { SIM_CHECK(got.size() >= must, "false-success", "%zu bytes were copied, %llu were there all the time", got.size(), (unsigned long long)must); if (sk == 0) SIM_CHECK(got.size() >= want, "false-success", "%zu bytes were copied of the %llu the source claims to have", got.size(), (unsigned long long)want); if (sk == 2) SIM_CHECK(end && n >= end, "false-success", "a source which has no more to give, and is not at its end, was copied successfully"); if (sk == 1 && end && got.size() < end - start) SIM_CHECK(!grow || len < end, "false-success", "%zu bytes", got.size()); }
      sim::covered(hmix(threw * 16 + sk * 4 + dk, got.size() / chunk)); std::string().swap(got); }
    t->end();
  }
  c.check(); sim::Quiet q; std::string().swap(body); std::string().swap(less); std::string().swap(slow);
}
SCENARIO(C20, loop_ends, 1) { // the copy goes on, or fails, when somebody's unhandled error or a stop ends the loop thread
  storage(true); sim::enable_faults(false); sim::World &w = sim::world(); w.p_slow = 0.7; w.max_slow = 200 * MS; Clean c;
  { LT t; mk_loop(t); int r = 0; int id = sim::go("stopper", [&] { sim::sleep(sim::choose("sd", 300) * MS + 1); t->stop(); }); copy_run(true, 0, t, t, &r); sim::enable_faults(false); sim::join(id); int owner = 0; try { t->end(); } catch (const std::exception &) { owner = 1; }
    SIM_CHECK(r != 2 || owner, "false-success", "nothing reported a failure, but the destination is not a copy of the source"); }
  c.check();
}

// ---------------------------------------------------------------- C21
namespace {
const uint64_t regions[] = {0, 4294967296ull - 2000, 2147483648ull - 2000, 9000000000ull, 70000};
struct SyncCb : Ibitstream_cb { std::string *got = nullptr; int reads = 0, writes = 0; uint32_t n = 0; void read_cb(const unsigned char *p, uint32_t k) override { sim::Quiet q; reads++; n = k; got->assign((const char *)p, k); } void write_cb(uint32_t k) override { sim::Quiet q; writes++; n = k; } };
void sync_faults() { sim::World &w = sim::world(); static const double pf[] = {0.1, 0.02, 0.4}; double p = pf[sim::choose("pf", 3)]; uint32_t k = sim::choose("fk", 8); w.p_eio = k == 0 || k == 4 ? p : 0; w.p_short_read = k == 1 || k == 4 || k == 7 ? p : 0; w.p_short_write = k == 2 || k == 4 || k == 7 ? p : 0; w.p_enospc = k == 3 || k == 4 ? p : 0; if (k == 5) w.disk_capacity = 100 + sim::choose("cap", 20000); if (k == 6) { w.p_close = 0.5; w.p_open = 0.5; } static const uint32_t mf[] = {1, 2, 1000}; w.max_faults = mf[sim::choose("mf", 3)]; }
}
SCENARIO(C21, writing, 3) {
  bool faults = sim::flip("faults", 0.7); if (faults) sync_faults(); Clean c;
  { std::map<uint64_t, std::string> model; std::map<uint64_t, std::string> mask; { sim::Quiet q; for (uint64_t r : regions) { model[r] = std::string(4000, 0); } }
    bool told = false, opened = false; uint64_t reg = 0, pos = 0; SyncCb cb; bool early = sim::flip("early", 0.4); if (early && faults) sim::enable_faults(true);
    try { sync_file_bitstream *f = new sync_file_bitstream; struct Del { sync_file_bitstream *f; ~Del() { delete f; } } del{f};
      f->open("/sim/s", false); opened = true; if (faults) sim::enable_faults(true);
      int n = 1 + sim::choose("n", 14);
      try { for (int i = 0; i < n; i++) { uint32_t op = sim::choose("op", 6);
        if (op == 4) { f->flush(); continue; }
        if (op == 5 || pos >= 3900) { reg = regions[sim::choose("reg", 5)]; pos = sim::choose("pos", 3900); f->set_position(reg + pos); SIM_CHECK(f->get_position() == reg + pos, "position", "position %llu after moving to %llu", (unsigned long long)f->get_position(), (unsigned long long)(reg + pos)); if (op == 5) continue; }
        uint32_t k = 1 + sim::choose("k", (uint32_t)std::min<uint64_t>(4000 - pos, sim::flip("bigk", 0.2) ? 4000 : 60)); std::string d; { sim::Quiet q; d = pattern(k, i + 5); } unsigned char *mem = new unsigned char[k]; memcpy(mem, d.data(), k);
        if (op < 3) { cb.writes = 0; f->write(mem, k, &cb); SIM_CHECK(cb.writes == 1, "callback", "a write was called back %d times", cb.writes); SIM_CHECK(cb.n == k, "short", "a write of %u bytes reported %u and no error", k, cb.n); }
        else { size_t r = f->write(mem, k); if (r < k) told = true; }
        delete[] mem; Q(memcpy(&model[reg][pos], d.data(), k)); pos += k; { sim::Quiet q; std::string().swap(d); }
        if (!told) SIM_CHECK(f->get_position() == reg + pos, "position", "position %llu instead of %llu", (unsigned long long)f->get_position(), (unsigned long long)(reg + pos)); } }
      catch (const std::exception &) { told = true; SIM_CHECK(faults, "error", "an error on a healthy disk"); throw; }
      bool fl = sim::flip("fl", 0.5), fl_ok = false; if (fl) { f->flush(); fl_ok = true; }
      if (fl_ok && !told) { sim::Quiet q; for (auto &m : model) { std::string g = sim::disk_get("/sim/s", m.first, 4000); g.resize(4000); SIM_CHECK(g == m.second, "false-success", "flush reported no error but the bytes at %llu are not in the file", (unsigned long long)m.first); } }
      f->close();
    } catch (const std::exception &) { told = true; SIM_CHECK(faults, "error", "an error on a healthy disk"); }
    sim::enable_faults(false);
    if (!told) { sim::Quiet q; for (auto &m : model) { std::string g = sim::disk_get("/sim/s", m.first, 4000); g.resize(4000); SIM_CHECK(g == m.second, "false-success", "no error was reported but the bytes at %llu are not in the file", (unsigned long long)m.first); } }
    { sim::Quiet q; sim::covered(hmix(sim::fs_log().size(), told * 2 + opened)); model.clear(); }
  }
  c.check(false);
}
SCENARIO(C21, reading, 3) {
  bool faults = sim::flip("faults", 0.6); if (faults) sync_faults(); Clean c;
  { uint64_t size; static const uint64_t sizes[] = {5000, 9000004000ull, 4294967296ull + 500, 0, 70100}; size = sizes[sim::choose("size", 5)]; auto want = [&](uint64_t at, uint64_t n) { sim::Quiet q; return at >= size ? std::string() : sim::disk_get("/sim/s", at, std::min<uint64_t>(n, size - at)); };
    { sim::Quiet q; sim::disk_put_sparse("/sim/s", size); for (uint64_t r : regions) if (r < size) sim::disk_poke("/sim/s", r, pattern((uint32_t)std::min<uint64_t>(4000, size - r), r)); }
    SyncCb cb; std::string *buf; Q(buf = new std::string; buf->reserve(70000)); cb.got = buf; if (faults && sim::flip("early", 0.2)) sim::enable_faults(true);
    try { sync_file_bitstream f("/sim/s"); sim::enable_faults(faults); SIM_CHECK(f.size() == size, "size", "size %llu instead of %llu", (unsigned long long)f.size(), (unsigned long long)size);
      uint64_t pos = 0; int n = 1 + sim::choose("n", 12), errs = 0;
      for (int i = 0; i < n; i++) try {
        if (sim::flip("seek", 0.4)) { pos = regions[sim::choose("reg", 5)] + sim::choose("pos", 4500); f.set_position(pos); SIM_CHECK(f.get_position() == pos, "position", "position %llu after moving to %llu", (unsigned long long)f.get_position(), (unsigned long long)pos); }
        uint32_t k = 1 + sim::choose("k", sim::flip("bigk", 0.2) ? 66000 : 300); std::string w = want(pos, k); bool ok;
        if (sim::flip("cbr", 0.6)) { cb.reads = 0; f.read(k, &cb); SIM_CHECK(cb.reads == 1, "callback", "a read was called back %d times", cb.reads); }
        else { unsigned char *mem = new unsigned char[k]; size_t r = 0; try { r = f.read(k, mem); } catch (...) { delete[] mem; throw; } Q(buf->assign((char *)mem, r)); delete[] mem; }
        { sim::Quiet q; ok = *buf == w; if (!ok) SIM_CHECK(0, buf->size() < w.size() ? "false-eof" : "content", "a read of %u bytes at %llu gave %zu bytes without an error; the file has %zu there", k, (unsigned long long)pos, buf->size(), w.size()); pos += w.size(); if (w.size() < k) SIM_CHECK(f.eof(), "eof", "not at the end after a read up to it"); else SIM_CHECK(!f.eof(), "eof", "at the end although only %llu of %llu bytes were read", (unsigned long long)pos, (unsigned long long)size); std::string().swap(w); }
        SIM_CHECK(f.get_position() == pos, "position", "position %llu instead of %llu", (unsigned long long)f.get_position(), (unsigned long long)pos);
      } catch (const std::exception &) { SIM_CHECK(faults, "error", "an error on a healthy disk"); errs++; break; }
      sim::enable_faults(false); sim::covered(hmix(n, pos % 977 + errs));
    } catch (const std::exception &) { SIM_CHECK(faults, "error", "an error on a healthy disk"); }
    sim::enable_faults(false); Q(delete buf);
  }
  c.check(false);
}

// ---------------------------------------------------------------- C30
// what is not open refuses work and touches nothing, descriptor 0 included
SCENARIO(C30, async_file, 4) {
  storage(false); sim::World &w = sim::world(); bool taken = sim::flip("taken", 0.5); std::string body, other; { sim::Quiet q; body = pattern(4000, 1); other = pattern(3000, 2); sim::disk_put("/sim/f", body); sim::disk_put("/sim/g", other); if (taken) sim::stdin_put(other); else sim::stdin_closed(); } Clean c;
  { Ops all;
    { LT t; mk_loop(t); cfile *f = new cfile(t), *g = nullptr; uint32_t st = sim::choose("state", 8); bool wr = sim::flip("wr", 0.5);
      int fl = wr ? O_CREAT | O_WRONLY : O_RDONLY; bool threw = false; Op *oo = nullptr, *oc = nullptr;
      if (st == 1) { try { f->open_sync("/sim/none/x", fl); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "refusal", "opening a file in a missing directory reported no error"); }
      else if (st == 2) { w.p_open = 1; sim::enable_faults(true); try { f->open_sync("/sim/f", fl); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); SIM_CHECK(threw, "refusal", "a refused open reported no error"); }
      else if (st == 3) { oo = all.add('o', 0, 0); bool dir = sim::flip("dir", 0.4); if (!dir) { w.p_open = 1; sim::enable_faults(true); } { auto_lock l(t->loop_lock()); on_fs(f->open(dir ? "/sim" : "/sim/f", dir ? O_WRONLY : fl), &all, oo); } sim::wait_for([&] { return oo->returned; }, 30 * SEC, MS); sim::enable_faults(false); SIM_CHECK(oo->er == 1 && oo->val == 0, "refusal", "a refused open was reported as %s", oo->val ? "success" : "nothing"); }
      else if (st >= 4) {
        if (sim::flip("ao", 0.3)) { oo = all.add('o', 0, 0); { auto_lock l(t->loop_lock()); on_fs(f->open("/sim/f", fl), &all, oo); } sim::wait_for([&] { return oo->returned; }, 30 * SEC, MS); } else f->open_sync("/sim/f", fl);
        if (sim::flip("use", 0.5)) { unsigned char b[9] = {1}; if (wr) { Op *o = all.add('w', 3990, 9); f->set_position(3990); auto_lock l(t->loop_lock()); on_fs(f->write(b, 9), &all, o); } else { Op *o = all.add('r', 0, 9); auto_lock l(t->loop_lock()); on_read(f->read(9), &all, o); } }
        if (st == 4) f->close(false);
        if (st == 7) { w.p_close = 1; sim::enable_faults(true); try { f->close(false); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); SIM_CHECK(threw, "refusal", "a failed close reported no error"); }
        if (st == 5 || st == 6) { oc = all.add('c', 0, 0); sim::wait_for([&] { return !f->outstanding(); }, 30 * SEC, MS); { auto_lock l(t->loop_lock()); on_fs(f->close(true), &all, oc); } if (st == 5) sim::wait_for([&] { return oc->returned; }, 30 * SEC, MS); }
      }
      if (sim::flip("g", taken ? 0.3 : 0.9)) { g = new cfile(t); g->open_sync("/sim/g", O_RDWR); } // may be given a descriptor the file had
      size_t first = all.v.size(); int nt = sim::flip("two", 0.3) ? 2 : 1; std::vector<int> ids;
      for (int k = 0; k < nt; k++) { int id = sim::go("user", [&] { int n = 1 + sim::choose("n", 4); for (int i = 0; i < n; i++) { unsigned char b[64]; memset(b, 0xEE, sizeof b); uint32_t s = 1 + sim::choose("s", 63); auto_lock l(t->loop_lock()); if (sim::flip("sp", 0.5)) f->set_position(sim::choose("p", 2900));
        if (sim::flip("w", 0.5)) { Op *o = all.add('w', 0, s); on_fs(f->write(b, s), &all, o); } else { Op *o = all.add('r', 0, s); on_read(f->read(s), &all, o); } } }); Q(ids.push_back(id)); }
      for (int id : ids) sim::join(id); Q(std::vector<int>().swap(ids));
      sim::wait_for([&] { return all.done() == all.v.size(); }, 60 * SEC, MS);
      { sim::Quiet q; for (auto *o : all.v) { SIM_CHECK(o->done(), "lost", "operation %d (%c) was never reported", o->id, o->kind); if ((size_t)o->id >= first) SIM_CHECK(o->er == 1 && !o->val, "served", "a %s on a file that %s was reported as a success", o->kind == 'w' ? "write" : "read", st == 0 ? "was never opened" : st < 4 ? "could not be opened" : st == 6 ? "is being closed" : "was closed"); else if (o != oo || st >= 4) SIM_CHECK(o->val == 1, "error", "operation %d (%c) before the close failed", o->id, o->kind); }
        if (taken) SIM_CHECK(sim::disk_get("/sim/stdin", 0, 4000) == other, "foreign", "the standard input was written"); SIM_CHECK(sim::disk_get("/sim/g", 0, 4000) == other, "foreign", "another file was written"); }
      f->close(false);
      if (sim::flip("again", 0.5)) { if (sim::flip("aa", 0.5)) { Op *o = all.add('o', 0, 0); { auto_lock l(t->loop_lock()); on_fs(f->open("/sim/f"), &all, o); } sim::wait_for([&] { return o->returned; }, 30 * SEC, MS); SIM_CHECK(o->val == 1, "reopen", "a file could not be opened again"); } else f->open_sync("/sim/f"); SIM_CHECK(!f->get_position() && f->size() == 4000 && !f->eof(), "reopen", "a file opened again stands at %llu of %llu", (unsigned long long)f->get_position(), (unsigned long long)f->size()); Op *o = all.add('r', 0, 100); { auto_lock l(t->loop_lock()); on_read(f->read(100), &all, o); } f->close(false); sim::Quiet q; SIM_CHECK(o->val == 1 && o->got == body.substr(0, 100), "reopen", "the file opened again does not read right"); }
      if (g) { Op *o = all.add('r', 0, 100); { auto_lock l(t->loop_lock()); on_read(g->read(100), &all, o); } g->close(false); sim::Quiet q; SIM_CHECK(o->val == 1 && o->got == other.substr(0, 100), "foreign", "another open file does not read right"); }
      delete f; delete g;
      try { t->end(); } catch (const std::exception &) { SIM_CHECK(0, "error", "an absorbed error was raised to the owner"); }
      sim::covered(hmix(st * 4 + wr * 2 + taken, all.v.size())); }
  }
  c.check();
}
// the media files: opened in vain, closed without being open, opened again
struct MHold { IBitstream *_p_f = nullptr; virtual ~MHold() {} };
SCENARIO(C30, media, 3) {
  storage(false); sim::World &w = sim::world(); std::string body, other; { sim::Quiet q; body = pattern(4000, 1); other = pattern(3000, 2); sim::disk_put("/sim/f", body); sim::disk_put("/sim/g", other); sim::disk_put("/sim/o", ""); if (sim::flip("taken", 0.5)) sim::stdin_put(other); else if (sim::flip("c", 0.5)) sim::stdin_closed(); } Clean c;
  { LT t; mk_loop(t); uint32_t kind = sim::choose("kind", 6), buf = 8 << sim::choose("buf", 8); bool wr = kind & 1; const char *path = wr ? "/sim/o" : "/sim/f";
    std::function<void(const char *)> op; std::function<void()> cl, del; std::function<IBitstream *()> bs; IBitstream *cur = nullptr;
    if (kind == 0) { auto *p = new file_media_bitstream<MHold>(t, buf); Q(op = [p](const char *n) { p->open(n); }; cl = [p] { p->close(); }; del = [p] { delete p; }; bs = [p] { return p->_p_f; }); }
    if (kind == 1) { auto *p = new file_media_bitstream<MHold, O_CREAT | O_WRONLY | O_TRUNC>(t, buf); Q(op = [p](const char *n) { p->open(n); }; cl = [p] { p->close(); }; del = [p] { delete p; }; bs = [p] { return p->_p_f; }); }
    if (kind == 2) { auto *p = new sync_file_media_bitstream<MHold>(buf); Q(op = [p](const char *n) { p->open(n); }; cl = [p] { p->close(); }; del = [p] { delete p; }; bs = [p] { return p->_p_f; }); }
    if (kind == 3) { auto *p = new sync_file_media_bitstream<MHold, false>(buf); Q(op = [p](const char *n) { p->open(n); }; cl = [p] { p->close(); }; del = [p] { delete p; }; bs = [p] { return p->_p_f; }); }
    if (kind >= 4) { auto *p = new _file_bitstream(t, buf); Q(op = [p, wr](const char *n) { p->open(n, wr ? O_CREAT | O_WRONLY | O_TRUNC : O_RDONLY); }; cl = [p, wr] { if (wr) p->flush(); p->close(); }; del = [p] { delete p; }; bs = [p] { return p; }); }
    int n = 1 + sim::choose("steps", 5); bool open = false;
    for (int i = 0; i < n; i++) { bool threw = false; uint32_t st = sim::choose("step", 6);
      if (st == 0) { if (open) { cl(); open = false; } try { op("/sim/none/x"); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "refusal", "opening a file in a missing directory reported no error"); }
      if (st == 1) { if (open) { cl(); open = false; } w.p_open = 1; sim::enable_faults(true); try { op(path); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); w.p_open = 0; SIM_CHECK(threw, "refusal", "a refused open reported no error"); }
      if (st == 5) { if (open) { cl(); open = false; } w.p_alloc = 0.3; w.max_alloc_faults = 1; sim::enable_faults(true); try { op(path); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); w.p_alloc = 0; if (!threw) open = true; else try { cl(); } catch (const std::exception &) {} }
      if (st == 2) { try { cl(); } catch (const std::exception &) { threw = true; } SIM_CHECK(!open || !threw, "error", "closing an open file failed"); open = false; } // nothing to close: told or not, nothing else happens
      if (st == 3 || st == 4) { if (open) { cl(); open = false; } op(path); open = true; cur = bs(); uint32_t k = sim::choose("len", 200);
        if (wr) { std::string m; { sim::Quiet q; m.reserve(300); } for (uint32_t j = 0; j < k; j++) { unsigned char b = (unsigned char)sim::choose("b", 256); Q(m += (char)b); cur->putbits(b, 8); } cl(); open = false; sim::Quiet q; SIM_CHECK(sim::disk_get(path, 0, 1000) == m, "reopen", "the file opened again does not hold the %u bytes written", k); std::string().swap(m); }
        else for (uint32_t j = 0; j < k; j++) SIM_CHECK(cur->getbits(8) == (unsigned char)body[j], "reopen", "byte %u of the file opened again is wrong", j); }
      sim::covered(hmix(kind * 8 + st, open)); }
    if (open && sim::flip("cl", 0.6)) cl();
    del(); try { t->end(); } catch (const std::exception &) { SIM_CHECK(0, "error", "an error was raised to the owner"); }
    { sim::Quiet q; op = nullptr; cl = del = nullptr; bs = nullptr; SIM_CHECK(sim::disk_get("/sim/g", 0, 4000) == other, "foreign", "another file was written"); SIM_CHECK(sim::disk_get("/sim/f", 0, 5000) == body, "foreign", "the file was written"); }
  }
  c.check();
}
// nobody listens: the owner is told
SCENARIO(C30, unlistened, 1) {
  storage(false); { sim::Quiet q; sim::disk_put("/sim/f", pattern(4000, 1)); if (sim::flip("taken", 0.5)) sim::stdin_put(pattern(3000, 2)); } Clean c;
  { LT t; mk_loop(t); int told = 0; cfile *f = new cfile(t); if (sim::flip("opened", 0.5)) { f->open_sync("/sim/f", sim::flip("wr", 0.5) ? O_WRONLY : O_RDONLY); f->close(false); }
    { unsigned char b[40]; memset(b, 1, sizeof b); auto_lock l(t->loop_lock()); if (sim::flip("w", 0.5)) f->write(b, 40); else f->read(40)->set_cb([](CResource<CBuffer<unsigned char> > &) { SIM_CHECK(0, "served", "a read on a file that is not open was reported as a success"); }); }
    sim::wait_for([&] { return !f->outstanding(); }, 30 * SEC, MS);
    try { t->check_exception(); } catch (const std::exception &) { told++; }
    delete f; try { t->end(); } catch (const std::exception &) { told++; }
    SIM_CHECK(told == 1, "untold", "a failed operation nobody listened to was raised %d times to the owner", told); }
  c.check();
}
SCENARIO(C30, sync_storage, 2) {
  Clean c; sim::World &w = sim::world();
  { std::string body; { sim::Quiet q; body = pattern(4000, 1); sim::disk_put("/sim/f", body); } SyncCb cb; std::string *buf; Q(buf = new std::string; buf->reserve(5000)); cb.got = buf;
    { sync_file_bitstream *f = new sync_file_bitstream; struct Del { sync_file_bitstream *f; ~Del() { delete f; } } del{f}; uint32_t st = sim::choose("state", 5); bool threw = false;
      if (st == 1) { try { f->open("/sim/none/x", sim::flip("r", 0.5)); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "refusal", "opening a file in a missing directory reported no error"); }
      if (st == 2) { (sim::flip("stat", 0.5) ? w.p_stat : w.p_open) = 1; sim::enable_faults(true); try { f->open("/sim/f"); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); SIM_CHECK(threw, "refusal", "a refused open reported no error"); }
      if (st >= 3) { f->open("/sim/f", sim::flip("r", 0.5)); if (st == 4) { w.p_close = 1; sim::enable_faults(true); } try { f->close(); } catch (const std::exception &) { threw = true; } sim::enable_faults(false); SIM_CHECK(threw == (st == 4), "refusal", "a failed close reported no error"); if (sim::flip("cc", 0.3)) f->close(); { sim::Quiet q; sim::disk_put("/sim/f", body); } }
      int n = 1 + sim::choose("n", 6); unsigned char mem[80]; memset(mem, 3, sizeof mem); Ibitstream_storage *s = f;
      for (int i = 0; i < n; i++) { uint32_t op = sim::choose("op", 8), k = 1 + sim::choose("k", 79); cb.reads = cb.writes = 0; bool refused = false;
        try { switch (op) { case 0: f->read(k, mem); break; case 1: s->read(k, &cb); break; case 2: f->write(mem, k); break; case 3: s->write(mem, k, &cb); break; case 4: s->flush(); break; case 5: s->eof(); break; case 6: s->get_position(); break; case 7: s->set_position(k); break; } }
        catch (const std::exception &) { refused = true; }
        SIM_CHECK(refused && !cb.reads && !cb.writes, "served", "operation %u on a storage that is not open reported no error", op); sim::covered(hmix(st, op)); }
      if (sim::flip("again", 0.5)) { f->open("/sim/f"); cb.reads = 0; s->read(100, &cb); f->close(); sim::Quiet q; SIM_CHECK(cb.reads == 1 && *buf == body.substr(0, 100), "reopen", "the file opened again does not read right"); }
    }
    Q(delete buf; std::string().swap(body)); }
  c.check();
}
