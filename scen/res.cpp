// C05 - C07: shared handles and promises
#include "common.h"
using namespace mg::core;

// ---------------------------------------------------------------- C05
namespace {
struct Ledger { int live = 0, cleaned = 0, destroyed = 0; bool has_cleanup = false; const void *ptr = nullptr; int id = 0; };
struct Obj {
  static Ledger *next_ledger;
  Ledger *l; uint32_t magic = 0x600d;
  Obj() : l(next_ledger) { Q(if (l) l->ptr = this); }
  explicit Obj(Ledger *x) : l(x) { Q(l->ptr = this); }
  ~Obj() {
    sim::Quiet q; if (!l) return;
    SIM_CHECK(l->live == 0, "early", "object %d destroyed while %d handles to it exist", l->id, l->live);
    SIM_CHECK(!l->destroyed, "twice", "object %d destroyed twice", l->id);
    SIM_CHECK(l->cleaned == (l->has_cleanup ? 1 : 0), "cleanup", "object %d destroyed after %d cleanup calls", l->id, l->cleaned);
    l->destroyed++; magic = 0xdead;
  }
  void check() const { SIM_CHECK(magic == 0x600d, "early", "object used after its destruction"); }
};
Ledger *Obj::next_ledger = nullptr;
typedef CResource<Obj> H;
void cleanup(Obj *o) { sim::Quiet q; Ledger *l = o->l; SIM_CHECK(l->ptr == o, "cleanup", "cleanup called with the wrong object"); SIM_CHECK(l->live == 0, "early", "cleanup of object %d while %d handles exist", l->id, l->live); SIM_CHECK(!l->cleaned && !l->destroyed, "twice", "cleanup of object %d ran %d times, destroyed %d times", l->id, l->cleaned + 1, l->destroyed); l->cleaned++; }
void all_gone(Ledger *ls, int n, const char *when) {
  for (int i = 0; i < n; i++) { SIM_CHECK(ls[i].live == 0, "harness", "live count %d", ls[i].live); SIM_CHECK(ls[i].destroyed == 1, "leak", "object %d destroyed %d times %s", i, ls[i].destroyed, when); SIM_CHECK(ls[i].cleaned == (ls[i].has_cleanup ? 1 : 0), "cleanup", "cleanup of object %d ran %d times", i, ls[i].cleaned); }
}
// a handle variable together with the model's idea of what it refers to
struct Slot {
  H *h = nullptr; Ledger *l = nullptr;
  void drop() { Q(if (l) l->live--); delete h; h = nullptr; l = nullptr; }
  void copy_from(Slot &o) { h = new H(*o.h); Q(l = o.l; if (l) l->live++); }
  void assign_from(Slot &o) { if (&o != this) { Q(if (l) l->live--); } *h = *o.h; if (&o != this) Q(l = o.l; if (l) l->live++); }
  void check() { if (l) { SIM_CHECK(!!*h, "empty", "handle lost its object"); (*h)->check(); SIM_CHECK((*h)->l == l, "wrong", "handle refers to another object"); } else SIM_CHECK(!*h, "wrong", "empty handle refers to an object"); }
};
}
SCENARIO(C05, threads, 4) {
  sim::World &w = sim::world(); w.stalls = false;
  int no = 1 + sim::choose("no", 3), nt = 2 + sim::choose("nt", 3);
  size_t base = sim::live_allocs();
  Ledger ls[4]; std::vector<int> ids; std::vector<Slot> *start[4]; { sim::Quiet q; for (int i = 0; i < nt; i++) start[i] = new std::vector<Slot>(6); }
  Slot roots[4];
  for (int i = 0; i < no; i++) {
    ls[i].id = i; ls[i].has_cleanup = sim::flip("cl", 0.6);
    bool mk = sim::flip("create", 0.5);
    if (mk) { Q(Obj::next_ledger = &ls[i]); roots[i].h = new H; roots[i].h->Create(); } else roots[i].h = new H(new Obj(&ls[i]));
    Q(roots[i].l = &ls[i]; ls[i].live++);
    if (ls[i].has_cleanup) roots[i].h->add_cleanup_function(cleanup);
  }
  bool keep = sim::flip("keep", 0.5); // threads copy from the roots while they stay alive, or own copies made up front
  for (int t = 0; t < nt; t++) for (int i = 0; i < no; i++) (*start[t])[i].copy_from(roots[i]);
  for (int t = 0; t < nt; t++) { int id = sim::go("owner", [t, no, &start, &roots, keep] {
    std::vector<Slot> &v = *start[t]; int ops = 3 + sim::choose("ops", 12);
    for (int k = 0; k < ops; k++) {
      uint32_t a = sim::choose("a", 6), b = sim::choose("b", 6), op = sim::choose("op", 7);
      Slot &x = v[a], &y = v[b];
      if (op == 0) { if (!x.h && y.h) x.copy_from(y); else if (x.h) x.check(); }
      else if (op == 1) { if (x.h && y.h) x.assign_from(y); }
      else if (op == 2) { if (x.h) x.assign_from(x); }
      else if (op == 3) { if (x.h) x.drop(); }
      else if (op == 4) { if (x.h && y.h && x.h != y.h) { H tmp(*x.h); { Ledger *l = x.l; Q(if (l) l->live++); x.check(); Q(if (l) l->live--); } } }
      else if (op == 5) { if (!x.h) { x.h = new H; } else if (x.l) x.check(); }
      else if (keep) { Slot &r = roots[b % no]; if (!x.h) x.copy_from(r); else x.assign_from(r); }
    }
    for (auto &s : v) if (s.h) { s.check(); s.drop(); }
  }); Q(ids.push_back(id)); }
  if (!keep) for (int i = 0; i < no; i++) { roots[i].check(); roots[i].drop(); }
  for (int id : ids) sim::join(id);
  if (keep) for (int i = 0; i < no; i++) { { sim::Quiet q; SIM_CHECK(!ls[i].destroyed && !ls[i].cleaned, "early", "object %d destroyed while its owner still holds it", i); } roots[i].check(); SIM_CHECK(roots[i].h->count() == 1, "count", "%ld owners counted, 1 exists", roots[i].h->count()); roots[i].drop(); }
  { sim::Quiet q; all_gone(ls, no, "after the last handle went away"); for (int i = 0; i < nt; i++) delete start[i]; ids.clear(); ids.shrink_to_fit(); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
}
// one thread, long random histories (assignments in every aliasing, containers, arguments by value)
static void by_value(H h, Ledger *l) { Q(if (l) l->live++); H k = h; k = h; h = k; if (l) { k->check(); } Q(if (l) l->live--); }
SCENARIO(C05, history, 2) {
  size_t base = sim::live_allocs(); Ledger ls[8]; Slot v[6]; int made = 0; int ops = 10 + sim::choose("ops", 40);
  for (int k = 0; k < ops; k++) {
    uint32_t a = sim::choose("a", 6), b = sim::choose("b", 6), op = sim::choose("op", 8); Slot &x = v[a], &y = v[b];
    if (op == 0 && made < 8) { if (x.h) x.drop(); ls[made].id = made; ls[made].has_cleanup = sim::flip("cl", 0.5); x.h = new H(new Obj(&ls[made])); if (ls[made].has_cleanup) x.h->add_cleanup_function(cleanup); Q(x.l = &ls[made]; x.l->live++); made++; }
    else if (op == 1 && x.h && y.h) x.assign_from(y);
    else if (op == 2 && x.h) x.assign_from(x);
    else if (op == 3 && x.h) x.drop();
    else if (op == 4 && !x.h && y.h) x.copy_from(y);
    else if (op == 5 && x.h) by_value(*x.h, x.l);
    else if (op == 6 && !x.h) x.h = new H;
    else if (op == 7 && x.h) { const H &alias = *x.h; x.h->Assign(alias); x.check(); }
    for (auto &s : v) if (s.h) s.check();
    sim::Quiet q; for (int i = 0; i < made; i++) { SIM_CHECK((ls[i].live == 0) == (ls[i].destroyed == 1), ls[i].live ? "early" : "leak", "object %d: %d handles, destroyed %d times", i, ls[i].live, ls[i].destroyed); if (ls[i].live) for (auto &s : v) if (s.l == &ls[i]) { SIM_CHECK(s.h->count() == ls[i].live, "count", "object %d: %ld owners counted, %d exist", i, s.h->count(), ls[i].live); break; } }
  }
  for (auto &s : v) if (s.h) s.drop();
  { sim::Quiet q; all_gone(ls, made, "in the end"); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind", sim::live_allocs() - base);
}
// asking an empty handle for its object, or a full one to make another, is refused and changes nothing; so does memory running out
SCENARIO(C05, refused, 1) {
  size_t base = sim::live_allocs(); sim::world().p_alloc = 0.35; static const uint32_t mf[] = {2, 1, 1000}; sim::world().max_alloc_faults = mf[sim::choose("mf", 3)]; Ledger ls[12]; Slot v[4]; int made = 0; int ops = 6 + sim::choose("ops", 24);
  for (int k = 0; k < ops; k++) {
    uint32_t a = sim::choose("a", 4), b = sim::choose("b", 4), op = sim::choose("op", 8); Slot &x = v[a], &y = v[b]; bool threw = false;
    if (op == 0 || op == 1) { if (made >= 12) continue; Ledger *l = &ls[made]; l->id = made; if (op == 0 && x.l) { // a full handle is not made again
        try { Q(Obj::next_ledger = l); x.h->Create(); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "wrong", "Create on a handle that owns an object is not refused"); }
      else if (op == 0) { if (!x.h) x.h = new H; Q(Obj::next_ledger = l; l->live = 0; l->ptr = nullptr); sim::enable_faults(true); try { x.h->Create(); } catch (const std::bad_alloc &) { threw = true; } sim::enable_faults(false);
        Q(SIM_CHECK(threw ? (l->ptr == nullptr || l->destroyed == 1) : !l->destroyed, threw ? "leak" : "early", "object %d destroyed %d times after a creation that %s", l->id, l->destroyed, threw ? "failed" : "succeeded"); if (!threw) { x.l = l; l->live = 1; } if (l->ptr) made++); }
      else { if (x.h) x.drop(); Obj *o = new Obj(l); H *h = nullptr; void *mem = ::operator new(sizeof(H)); sim::enable_faults(true); try { h = new (mem) H(o); } catch (const std::bad_alloc &) { threw = true; } sim::enable_faults(false);
        if (threw) ::operator delete(mem); Q(SIM_CHECK(l->destroyed == (threw ? 1 : 0), threw ? "leak" : "early", "object %d destroyed %d times after it was handed over %s", l->id, l->destroyed, threw ? "in vain" : "well"); if (!threw) { x.h = h; x.l = l; l->live = 1; } made++); } }
    else if (op == 2) { if (!x.h) x.h = new H; if (!x.l) { try { x.h->GetRef(); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "wrong", "the object of an empty handle"); } else SIM_CHECK(x.h->GetRef().l == x.l, "wrong", "handle refers to another object"); }
    else if (op == 3) { if (!x.h) x.h = new H; if (!x.l) { try { x.h->add_cleanup_function(cleanup); } catch (const std::exception &) { threw = true; } SIM_CHECK(threw, "wrong", "a cleanup action for no object"); } else if (!x.l->has_cleanup) { Ledger *l = x.l; sim::enable_faults(true); try { std::function<void(Obj *)> f(cleanup); x.h->add_cleanup_function(f); } catch (const std::bad_alloc &) { threw = true; } sim::enable_faults(false); Q(if (!threw) l->has_cleanup = true); } }
    else if (op == 4) { if (x.h && y.h) x.assign_from(y); } else if (op == 5) { if (x.h) x.drop(); } else if (op == 6) { if (!x.h && y.h) x.copy_from(y); } else if (x.h) { if (x.l) SIM_CHECK((Obj *)*x.h == x.l->ptr, "wrong", "handle refers to another object"); x.assign_from(x); }
    for (auto &s : v) if (s.h) s.check();
  }
  for (auto &s : v) if (s.h) s.drop();
  { sim::Quiet q; for (int i = 0; i < made; i++) { SIM_CHECK(ls[i].destroyed == 1, "leak", "object %d destroyed %d times in the end", i, ls[i].destroyed); SIM_CHECK(ls[i].cleaned == (ls[i].has_cleanup ? 1 : 0), "cleanup", "cleanup of object %d ran %d times", i, ls[i].cleaned); } sim::covered(hmix(made, ops)); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
}
// the object's cleanup action and destructor look at the very handle it is leaving, and assign it anew
namespace { struct Self { CResource<Self> *where; int *gone, id; uint32_t magic = 0x600d; Self(CResource<Self> *w, int *g, int i) : where(w), gone(g), id(i) {} Self() : where(nullptr), gone(nullptr), id(0) {}
  ~Self() { Q(SIM_CHECK(magic == 0x600d, "twice", "object destroyed twice"); magic = 0xdead; if (gone) gone[id]++); if (where && sim::flip("look", 0.7)) { CResource<Self> k(*where); SIM_CHECK(!k || ((Self *)k != this && k->magic == 0x600d), "early", "the handle still refers to the object which is being destroyed"); } } }; }
SCENARIO(C05, inside, 1) {
  size_t base = sim::live_allocs(); int gone[24] = {0}, made = 0; typedef CResource<Self> S; { S *h = new S, *spare = new S; int n = 1 + sim::choose("n", 6);
    for (int i = 0; i < n && made < 20; i++) { S fresh(new Self(h, gone, made)); made++; uint32_t how = sim::choose("how", 4);
      if (how == 1) fresh.add_cleanup_function([h](Self *me) { S k(*h); SIM_CHECK(!k || (Self *)k != me, "early", "the handle still refers to the object which is being cleaned up"); });
      if (how == 2) { int id = made++; *spare = S(new Self(nullptr, gone, id)); fresh.add_cleanup_function([h, spare](Self *me) { *h = *spare; (void)me; }); }
      if (how == 3) { int id = made++; fresh.add_cleanup_function([h, id, &gone](Self *me) { *h = S(new Self(nullptr, gone, id)); (void)me; }); }
      *h = fresh; SIM_CHECK(!!*h && (*h)->magic == 0x600d, "early", "the handle's object is gone"); }
    // empty the handle until it stays empty
    for (int i = 0; i < 4; i++) { S none; *h = none; } SIM_CHECK(!*h, "wrong", "an emptied handle refers to an object"); delete spare; delete h; }
  for (int i = 0; i < made; i++) SIM_CHECK(gone[i] == 1, gone[i] ? "twice" : "leak", "object %d destroyed %d times", i, gone[i]);
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str()); sim::covered(hmix(made, 3));
}
// more owners than a small integer can count
SCENARIO(C05, many, 1) {
  size_t base = sim::live_allocs(); Ledger l; l.has_cleanup = sim::flip("cl", 0.5); static const uint32_t ns[] = {130, 260, 33000, 66000}; uint32_t n = ns[sim::choose("n", sim::flip("many", 0.1) ? 4 : 2)] + sim::choose("nx", 300), last = sim::choose("last", n);
  { H *first = new H(new Obj(&l)); Q(l.live = 1); if (l.has_cleanup) first->add_cleanup_function(cleanup); H *all = new H[n]; for (uint32_t i = 0; i < n; i++) { Q(l.live++); all[i] = *first; } SIM_CHECK(first->count() == (long)n + 1, "count", "%ld owners counted, %u exist", first->count(), n + 1); first = (delete first, nullptr); Q(l.live--);
    for (uint32_t i = 0; i < n; i++) if (i != last) { Q(l.live--); H none; all[i] = none; } SIM_CHECK(!l.destroyed && !l.cleaned, "early", "object destroyed while an owner is left"); all[last]->check(); SIM_CHECK(all[last].count() == 1, "count", "%ld owners counted, 1 exists", all[last].count()); Q(l.live--); delete[] all; }
  all_gone(&l, 1, "after the last of many handles went away"); sim::covered(hmix(n, 9)); SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
}
// handles inside shared objects: walking and dropping a list (assigning a handle that its own target owns)
namespace { struct Node { int *count; uint32_t magic = 0x600d; CResource<Node> next; explicit Node(int *c) : count(c) {} Node() : count(nullptr) {} ~Node() { Q(SIM_CHECK(magic == 0x600d, "twice", "node destroyed twice"); magic = 0xdead; if (count) (*count)++); } }; }
SCENARIO(C05, list, 1) {
  size_t base = sim::live_allocs(); int n = 2 + sim::choose("n", 6); int *gone = new int(0);
  { CResource<Node> head; for (int i = 0; i < n; i++) { CResource<Node> x(new Node(gone)); x->next = head; head = x; }
    bool two = sim::flip("two", 0.5); int id = -1;
    if (two) { CResource<Node> *other = new CResource<Node>(head); id = sim::go("walker", [other] { while (!!*other) { SIM_CHECK((*other)->magic == 0x600d, "early", "node used after its destruction"); *other = (*other)->next; } delete other; }); }
    int steps = 0; while (!!head) { SIM_CHECK(head->magic == 0x600d, "early", "node used after its destruction"); head = head->next; steps++; }
    SIM_CHECK(steps == n, "wrong", "walked %d of %d nodes", steps, n);
    if (two) sim::join(id); }
  SIM_CHECK(*gone == n, "leak", "%d of %d nodes destroyed", *gone, n); delete gone;
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind", sim::live_allocs() - base);
}

// ---------------------------------------------------------------- C06 / C07
namespace {
struct Box { int v; static int alive; Box() : v(0) { Q(alive++); } explicit Box(int x) : v(x) { Q(alive++); } ~Box() { Q(alive--); } };
int Box::alive = 0;
typedef CPromise<Box> P; typedef CResource<P> RP; typedef CResource<Box> RB;
struct Err { int code; };
int code_of(const std::exception_ptr &e) { if (!e) return -2; try { std::rethrow_exception(e); } catch (Err &x) { return x.code; } catch (...) { return -1; } }
struct Tally { int completed_begun = 0, cb[2] = {0, 0}, er[2] = {0, 0}; std::vector<int> order; };
void delay(const char *s) { uint32_t d = sim::choose(s, 4); if (d) sim::sleep(d * sim::choose(s, 200) * US + 1); }
}
SCENARIO(C06, deliver, 4) {
  sim::world().stalls = sim::flip("st", 0.3); size_t base = sim::live_allocs(); Box::alive = 0; Tally *t; { sim::Quiet q; t = new Tally; }
  RP *p = new RP; p->Create();
  bool fwd = sim::flip("fwd", 0.6), fwd_er = sim::flip("fer", 0.3), two_fwd = sim::flip("f2", 0.2); int val = 1 + sim::choose("val", 1000);
  bool er = sim::flip("er", 0.5); bool er_first = sim::flip("erf", 0.5);
  RP f, f3; if (fwd) { f = (*p)->forward(fwd_er); if (two_fwd) { f3 = f->forward(); RP again = (*p)->forward(); SIM_CHECK((P *)again == (P *)f, "forward", "forward() gives a different promise the second time"); } }
  auto attach = [](RP &pr, Tally *t, int k, int val, bool er, bool er_first) {
    if (er && er_first) pr->set_er([t](std::exception_ptr) -> bool { Q(SIM_CHECK(false, "error", "error listener called although nothing failed"); t->er[0]++); return false; });
    pr->set_cb([t, k, val](CResource<Box> &b) {
      sim::Quiet q; SIM_CHECK(t->completed_begun, "early", "listener %d called before the promise was completed", k);
      SIM_CHECK(!!b && b->v == val, "value", "listener %d got the wrong value", k);
      SIM_CHECK(t->cb[k] == 0, "twice", "listener %d called twice", k); SIM_CHECK(k == 0 || t->cb[0] == 1, "order", "forwarded listener called before the first one");
      t->cb[k]++; });
    if (er && !er_first) pr->set_er([t](std::exception_ptr) -> bool { Q(SIM_CHECK(false, "error", "error listener called although nothing failed"); t->er[0]++); return false; });
  };
  int where = sim::choose("where", 4); // 0: attach before anything starts
  if (where == 0) attach(*p, t, 0, val, er, er_first);
  bool f_before = sim::flip("fb", 0.4); if (fwd && f_before) attach(f, t, 1, val, false, false);
  int ids[4] = {-1, -1, -1, -1}; SIM_CHECK(!(*p)->has_value(), "early", "the promise says it has a value before it is completed");
  ids[0] = sim::go("completer", [p, t, val] { RP mine; { mine = *p; } delay("cd"); RB b(new Box(val)); Q(t->completed_begun = 1); mine->call_cb(b); });
  if (where == 1 || where == 2) ids[1] = sim::go("listener", [&, p] { RP mine; mine = *p; delay("ld"); attach(mine, t, 0, val, er, er_first); });
  if (fwd && !f_before) ids[2] = sim::go("forwarded", [&] { RP mine(f); delay("fd"); attach(mine, t, 1, val, false, false); });
  if (where == 3) { sim::join(ids[0]); SIM_CHECK((*p)->has_value(), "lost", "the completed promise says it has no value"); { sim::Quiet q; SIM_CHECK(t->cb[0] == 0 && t->cb[1] == 0, "early", "a listener behind an unattached first listener was called"); } attach(*p, t, 0, val, er, er_first); }
  for (int i = 0; i < 3; i++) if (ids[i] >= 0 && !(where == 3 && i == 0)) sim::join(ids[i]);
  { sim::Quiet q; SIM_CHECK(t->cb[0] == 1, "lost", "the listener was called %d times", t->cb[0]); if (fwd) SIM_CHECK(t->cb[1] == 1, "lost", "the forwarded listener was called %d times", t->cb[1]); sim::covered(hmix(where, fwd * 8 + f_before * 4 + er * 2 + er_first)); }
  { RP none; f = none; f3 = none; } delete p;
  { sim::Quiet q; SIM_CHECK(Box::alive == 0, "leak", "%d values still alive", Box::alive); delete t; }
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
}
// a chain of promises
SCENARIO(C06, chain, 2) {
  sim::world().stalls = false; Box::alive = 0; int n = 2 + sim::choose("n", 4); std::vector<int> *got; { sim::Quiet q; got = new std::vector<int>; }
  RP p; p.Create(); { RP c(p); std::vector<RP> ch; ch.push_back(p); for (int i = 1; i < n; i++) { RP x = ch.back()->forward(); ch.push_back(x); }
    uint32_t late = sim::choose("late", n + 1);
    std::vector<int> order; { sim::Quiet q; for (int i = 0; i < n; i++) order.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(order[i], order[sim::choose("perm", i + 1)]); }
    int id = -1;
    for (int i = 0; i <= n; i++) {
      if ((uint32_t)i == late) id = sim::go("completer", [&p] { RB b(new Box(7)); p->call_cb(b); });
      if (i < n) { int k = order[i]; ch[k]->set_cb([got, k](CResource<Box> &b) { sim::Quiet q; SIM_CHECK(b->v == 7, "value", "wrong value"); SIM_CHECK((int)got->size() == k, (int)got->size() > k ? "twice" : "order", "listener %d of the chain called as number %zu", k, got->size()); got->push_back(k); }); delay("gap"); }
    }
    sim::join(id); Q(SIM_CHECK((int)got->size() == n, "lost", "%zu of %d listeners called", got->size(), n)); }
  Q(delete got);
}
// several threads ask for the forwarded promise at once: it is one, and what each of them attaches to it is kept
SCENARIO(C06, forwarders, 1) {
  sim::world().stalls = sim::flip("st", 0.3); size_t base = sim::live_allocs(); Box::alive = 0; Tally *t; { sim::Quiet q; t = new Tally; } bool fails = sim::flip("fails", 0.4);
  { RP p; p.Create(); int n = 2 + sim::choose("n", 2), ids[3]; P *seen[3] = {nullptr, nullptr, nullptr}; 
    for (int i = 0; i < n; i++) ids[i] = sim::go("forwarder", [&, i] { delay("fd"); RP f(p->forward()); Q(seen[i] = (P *)f); if (i == 0) f->set_cb([t](CResource<Box> &) { Q(t->cb[1]++); }); if (i == 1) f->set_er([t](std::exception_ptr e) -> bool { Q(t->er[1] += code_of(e)); return false; }); if (i == 2) p->set_cb([t](CResource<Box> &) { Q(t->cb[0]++); }); });
    for (int i = 0; i < n; i++) sim::join(ids[i]); for (int i = 1; i < n; i++) SIM_CHECK(seen[i] == seen[0], "forward", "two threads were given different forwarded promises"); if (n < 3) p->set_cb([t](CResource<Box> &) { Q(t->cb[0]++); }); p->set_er([t](std::exception_ptr) -> bool { Q(t->er[0]++); return true; });
    if (fails) p->call_er(std::make_exception_ptr(Err{5})); else { RB b(new Box(1)); p->call_cb(b); }
    { sim::Quiet q; SIM_CHECK(t->cb[0] == !fails && t->cb[1] == !fails, "lost", "the listeners were called %d and %d times", t->cb[0], t->cb[1]); SIM_CHECK(t->er[0] == fails && t->er[1] == (fails ? 5 : 0), "lost", "the error listeners were not called rightly"); } }
  { sim::Quiet q; SIM_CHECK(Box::alive == 0, "leak", "%d values still alive", Box::alive); delete t; } SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind");
}
// the value may be completed with from inside another promise's listener, and listeners may attach there
SCENARIO(C06, nested, 1) {
  sim::world().stalls = false; Tally *t; { sim::Quiet q; t = new Tally; } RP a, b; a.Create(); b.Create();
  int order = sim::choose("o", 3);
  auto la = [t, &b](CResource<Box> &x) { Q(t->cb[0]++); b->call_cb(x); };
  auto lb = [t](CResource<Box> &x) { sim::Quiet q; SIM_CHECK(x->v == 5, "value", "wrong value"); t->cb[1]++; };
  if (order == 0) { a->set_cb(la); b->set_cb(lb); }
  int id = sim::go("completer", [&a] { RB x(new Box(5)); a->call_cb(x); });
  if (order == 1) { b->set_cb(lb); a->set_cb(la); }
  if (order == 2) { a->set_cb([t, &b, la, lb](CResource<Box> &x) { la(x); b->set_cb(lb); }); }
  sim::join(id);
  Q(SIM_CHECK(t->cb[0] == 1 && t->cb[1] == 1, "lost", "listeners called %d and %d times", t->cb[0], t->cb[1]); delete t);
}

SCENARIO(C07, fail, 4) {
  sim::world().stalls = sim::flip("st", 0.3); size_t base = sim::live_allocs(); Box::alive = 0; Tally *t; { sim::Quiet q; t = new Tally; }
  int code = 1 + sim::choose("code", 1000); bool by_throw = sim::flip("by_throw", 0.5), further = sim::flip("further", 0.5), fwd = sim::flip("fwd", 0.6), has_cb = by_throw || sim::flip("cb", 0.6);
  bool er_throws = !further && sim::flip("ert", 0.25);
  RP p; p.Create(); RP f; if (fwd) f = p->forward();
  auto er0 = [t, code, further, er_throws](std::exception_ptr e) -> bool { { sim::Quiet q; SIM_CHECK(t->completed_begun, "early", "error listener called before the failure"); SIM_CHECK(code_of(e) == code, "wrong-error", "error listener got error %d instead of %d", code_of(e), code); SIM_CHECK(t->er[0] == 0, "twice", "error listener called twice"); t->er[0]++; } if (er_throws) std::rethrow_exception(e); return further; };
  auto cb0 = [t, code, by_throw](CResource<Box> &) { Q(t->cb[0]++; SIM_CHECK(by_throw, "success", "value listener called although the promise failed"); SIM_CHECK(t->cb[0] == 1, "twice", "value listener called twice")); throw Err{code}; };
  auto er1 = [t, code](std::exception_ptr e) -> bool { sim::Quiet q; SIM_CHECK(code_of(e) == code, "wrong-error", "forwarded error listener got error %d instead of %d", code_of(e), code); SIM_CHECK(t->er[1] == 0 && t->er[0] == 1, "twice", "forwarded error listener out of turn"); t->er[1]++; return false; };
  auto cb1 = [](CResource<Box> &) { sim::fail("success", "forwarded value listener called although the promise failed"); };
  // who throws out to whom when the error listener itself throws
  int *escaped; { sim::Quiet q; escaped = new int(0); }
  auto guarded = [escaped, code](const std::function<void()> &g) { try { g(); } catch (Err &x) { Q(SIM_CHECK(x.code == code, "wrong-error", "error %d escaped instead of %d", x.code, code); (*escaped)++); } };
  int fa = sim::choose("fa", 2); // forwarded listeners attached before / concurrently
  int when = sim::choose("when", 4), order = sim::choose("ord", 2);
  auto attach = [&](RP &x) { if (order == 0) { guarded([&] { x->set_er(er0); }); if (has_cb) guarded([&] { x->set_cb(cb0); }); } else { if (has_cb) guarded([&] { x->set_cb(cb0); }); guarded([&] { x->set_er(er0); }); } };
  auto attachf = [&](RP &x) { x->set_er(er1); x->set_cb(cb1); };
  if (when == 0) attach(p); if (fwd && fa == 0) attachf(f);
  int a, b = -1, c = -1;
  a = sim::go("completer", [&] { RP m(p); delay("cd"); Q(t->completed_begun = 1); if (by_throw) { RB x(new Box(1)); guarded([&] { m->call_cb(x); }); } else { std::exception_ptr e = std::make_exception_ptr(Err{code}); guarded([&] { m->call_er(e); }); } });
  if (when == 1 || when == 2) b = sim::go("listener", [&] { RP m(p); delay("ld"); attach(m); });
  if (fwd && fa) c = sim::go("forwarded", [&] { RP m(f); delay("fd"); attachf(m); });
  sim::join(a); if (when == 3) attach(p); if (b >= 0) sim::join(b); if (c >= 0) sim::join(c);
  { sim::Quiet q;
    SIM_CHECK(t->er[0] == 1, "lost", "error listener called %d times", t->er[0]);
    SIM_CHECK(t->cb[0] == (by_throw ? 1 : 0), "success", "value listener called %d times", t->cb[0]);
    if (fwd) SIM_CHECK(t->er[1] == (further ? 1 : 0), further ? "lost" : "not-asked", "forwarded error listener called %d times, the first one %s for it", t->er[1], further ? "asked" : "did not ask");
    SIM_CHECK(*escaped == (er_throws ? 1 : 0), "escape", "%d errors escaped", *escaped); sim::covered(hmix(when * 64 + order * 32 + fwd * 16 + fa * 8 + by_throw * 4 + further * 2 + er_throws, has_cb)); }
  // the promise is still usable by other threads
  int u = sim::go("user", [&] { p->has_value(); p->forward(); }); sim::join(u);
  { RP none; p = none; f = none; }
  { sim::Quiet q; SIM_CHECK(Box::alive == 0, "leak", "%d values still alive", Box::alive); delete t; delete escaped; }
  SIM_CHECK(sim::live_allocs() == base, "leak", "%zu blocks left behind: %s", sim::live_allocs() - base, sim::describe_live().c_str());
}
// the error raised by a forwarded listener that nobody handles there comes back to the first promise's error listener
SCENARIO(C07, default_listener, 1) {
  sim::world().stalls = false; int seen = 0; RP p; p.Create(); RP f = p->forward(); bool early = sim::flip("early", 0.5), boom = sim::flip("boom", 0.7);
  p->set_er([&seen](std::exception_ptr e) -> bool { Q(seen++; SIM_CHECK(code_of(e) == 9, "wrong-error", "wrong error")); return false; });
  f->set_er(); f->set_cb([boom](CResource<Box> &) { if (boom) throw Err{9}; });
  auto first = [](CResource<Box> &) {};
  if (early) p->set_cb(first);
  int id = sim::go("completer", [&p] { RB x(new Box(1)); p->call_cb(x); });
  if (!early) p->set_cb(first);
  sim::join(id);
  SIM_CHECK(seen == (boom ? 1 : 0), "lost", "error listener called %d times", seen);
}
// ---------------------------------------------------------------- C32
namespace {
struct Told { int num; std::string msg, file; int line; };
std::string some_msg(uint32_t salt) { sim::Quiet q; static const char *const m[] = {"cannot open it", "", "x", "100%s of %d", "a longer message which goes on for a while, so that the text of the error has to grow beyond what it began with, and then on again for good measure"}; std::string s = m[sim::choose("msg", 5)]; if (sim::flip("grow", 0.1)) s += std::string(900 + sim::choose("grown", 400), 'g'); if (!s.empty()) s += std::to_string(salt); return s; }
void says(const mgexceptionbase &x, const Told &t, const char *where) {
  SIM_CHECK(x.get_error_number() == t.num, "number", "error %d instead of %d %s", x.get_error_number(), t.num, where);
  const char *w = x.what(); std::string text; { sim::Quiet q; } uint32_t n = 0; while (w[n]) n++; sim::Quiet q; text.assign(w, n); char num[24], line[24]; snprintf(num, sizeof num, "%d", t.num); snprintf(line, sizeof line, ":%d", t.line);
  SIM_CHECK(text.find(num) != std::string::npos, "text", "the text of error %d does not give its number %s: %s", t.num, where, text.c_str());
  SIM_CHECK(text.find(t.msg) != std::string::npos, "text", "the text of error %d does not give its message (%s) %s: %s", t.num, t.msg.c_str(), where, text.c_str());
  SIM_CHECK(text.find(t.file + line) != std::string::npos, "text", "the text of error %d does not give its place %s: %s", t.num, where, text.c_str());
}
void read_error(std::exception_ptr e, const Told &t, bool faults, const char *where) { // what a handler may do with an error
  try { std::rethrow_exception(e); } catch (const mgexception &x) { says(x, t, where); uint32_t op = sim::choose("op", 4); mgexception *c = nullptr;
    try { if (op == 1) { Cstring s = x.toString(); const char *p = s; Q(SIM_CHECK(!strcmp(p, x.what()), "text", "toString gives something else")); } else if (op >= 2) { c = new mgexception(x); says(*c, t, "in a copy"); if (op == 3) { Told t2; { sim::Quiet q; t2 = t; t2.msg = some_msg(77); } try { c->set_message(t2.msg.c_str()); says(*c, t2, "after a new message"); } catch (const std::exception &) { says(*c, t, "after a message that did not get in"); Q(std::string().swap(t2.msg); std::string().swap(t2.file)); delete c; throw; } Q(std::string().swap(t2.msg); std::string().swap(t2.file)); } } }
    catch (const std::exception &) { SIM_CHECK(faults, "error", "no copy although there is memory"); c = nullptr; }
    delete c; says(x, t, "after a handler copied it"); }
  catch (const std::exception &) { sim::fail("number", "another error came out %s", where); }
}
}
// another error from the same place, or nearly: each of them tells its own story
void another_error(const Told &t, bool faults) {
  Told o; { sim::Quiet q; o = t; switch (sim::choose("differ", 4)) { case 0: o.msg = some_msg(100 + sim::choose("salt2", 100)); break; case 1: o.num = t.num ^ 5; break; case 2: o.line = t.line + 1; break; default: o.file = "elsewhere.cpp"; } }
  try { throw mgexception(o.num, o.msg.c_str(), o.file.c_str(), o.line); } catch (const mgexception &x) { says(x, o, "in another error from the same place"); } catch (const std::exception &) { SIM_CHECK(faults, "error", "another error could not be raised although there is memory"); }
  sim::Quiet q; std::string().swap(o.msg); std::string().swap(o.file);
}
SCENARIO(C32, across, 1) {
  bool faults = sim::flip("faults", 0.4); if (faults) { sim::world().p_alloc = 0.1; sim::world().max_alloc_faults = 1 + sim::choose("mf", 3); } size_t base = sim::live_allocs();
  { Told t; static const int nums[] = {-2, -10001, -4095, 2147483647, -2147483647 - 1, 0, 1}; t.num = nums[sim::choose("num", 7)]; bool plain = sim::flip("plain", 0.3); { sim::Quiet q; if (!plain) t.msg = some_msg(sim::choose("salt", 100)); static const char *const f[] = {"here.cpp", "src/mg/core/file.cpp", "/a/rather/long/path/to/a/file/somewhere/in/the/tree.h"}; t.file = f[sim::choose("file", 3)]; } t.line = 1 + sim::choose("line", 5000);
    std::exception_ptr e; std::vector<int> ids; bool promise = sim::flip("promise", 0.5), made = true; if (sim::flip("before", 0.3)) another_error(t, false); auto raise = [&] { if (faults) sim::enable_faults(true); if (plain) throw mgexception(t.num, t.file.c_str(), t.line); throw mgexception(t.num, t.msg.c_str(), t.file.c_str(), t.line); };
    int n = 1 + sim::choose("n", 3);
    if (promise) { RP p; p.Create(); RP f = p->forward(); int *seen; bool *other; Q(seen = new int(0); other = new bool(false)); const Told *pt = &t; 
      auto er = [pt, faults, seen, other](std::exception_ptr x) -> bool { bool mine = false; try { std::rethrow_exception(x); } catch (const mgexception &) { mine = true; } catch (const std::exception &) { SIM_CHECK(faults, "number", "another error reached the listener"); Q(*other = true); } if (mine) read_error(x, *pt, faults, "at the listener"); Q(++*seen); return true; };
      p->set_er(er); f->set_er(er); std::function<void(CResource<Box> &)> cb; auto body = [&raise](CResource<Box> &) { raise(); }; cb = body; p->set_cb(cb); int id = sim::go("completer", [&p] { RB x(new Box(1)); p->call_cb(x); }); sim::join(id); sim::enable_faults(false); SIM_CHECK(*seen == 2, "lost", "%d listeners heard of the error instead of 2", *seen); Q(delete seen; delete other); }
    else { try { raise(); } catch (const mgexception &) { e = std::current_exception(); } catch (const std::exception &) { SIM_CHECK(faults, "error", "the error could not be raised although there is memory"); made = false; }
      if (made) { for (int i = 0; i < n; i++) { std::exception_ptr *mine; Q(mine = new std::exception_ptr(e)); int id = sim::go("handler", [mine, &t, faults] { int k = 1 + sim::choose("k", 3); for (int j = 0; j < k; j++) { read_error(*mine, t, faults, "on another thread"); if (sim::flip("another", 0.3)) another_error(t, faults); if (sim::flip("p", 0.3)) sim::sleep(1 + sim::choose("pt", 50) * US); } delete mine; }); Q(ids.push_back(id)); }
        if (sim::flip("early", 0.5)) e = nullptr; }
      for (int id : ids) sim::join(id); sim::enable_faults(false); if (sim::flip("after", 0.3)) another_error(t, false); if (e != nullptr) read_error(e, t, faults, "after all"); e = nullptr; }
    sim::covered(hmix(t.msg.size(), t.line * 8 + n * 2 + promise)); sim::Quiet q; std::vector<int>().swap(ids); std::string().swap(t.msg); std::string().swap(t.file); }
  SIM_CHECK(sim::live_allocs() == base, "leak", "memory left behind: %s", sim::describe_live().c_str());
}
