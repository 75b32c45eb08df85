// C16, C17, C18: promise, future, shared_future.
// FLAGS -DBOOST_THREAD_VERSION=4
// ENTRY vh_c16_deliver | props=C16 | weight=5 | reach=value;exception;ready;timed out | bound=1 setter (any int value, an exception, rvalue, lvalue, emplace), 1 waiter with 7 operations, time-outs at any moment
// ENTRY vh_c16_wake | props=C16 | weight=5 | reach=end | bound=2 waiters on a shared_future with 5 operations, 1 setter, no time-outs, one spurious wake-up
// ENTRY vh_c16_second | props=C16 | weight=5 | reach=value;exception | bound=2 threads setting concurrently (value or exception), 1 waiter
// ENTRY vh_c16_seq | props=C16,C17,C18 | weight=5 | reach=value;exception;broken;already satisfied;already retrieved;no state | bound=all histories of 4 operations on 2 promises of one thread: set value or exception, get_future, move construction and assignment, swap, destruction
// ENTRY vh_c16_types | props=C16 | reach=void;reference;move only;throwing copy | bound=results of type void, reference, move-only class, class whose copy throws
// ENTRY vh_c16_handles | props=C18 | weight=5 | reach=got;shared;invalid | bound=all histories of 5 operations on 2 futures and 1 shared_future of one thread, result set before or never
// ENTRY vh_c16_get_or | props=C18 | reach=value;default | bound=get_or, get_exception_ptr, has_value and has_exception on ready, exceptional and invalid futures
// ENTRY vh_c16_shared | props=C18 | weight=4 | reach=end | bound=2 threads each reading their own copy of a shared_future twice, destroyed in any order, result set concurrently
// ENTRY vh_c17_broken | props=C17 | weight=5 | reach=broken;delivered | bound=1 waiter with 4 operations, the promise is destroyed, assigned to, swapped and destroyed, moved and then destroyed, or its thread is interrupted, before or after setting a value
// ENTRY vh_c17_task | props=C17 | weight=5 | reach=broken;delivered | bound=1 waiter, a packaged_task is destroyed, assigned to or moved, run or not
// ENTRY vh_c16_race | props=C16,C40 | reach=end | bound=1 setter publishing data, 1 waiter
#include "vfh.h"
#include <boost/thread/future.hpp>
using namespace boost;
struct Err { int v; };
struct P { promise<int> p; future<int> f; shared_future<int> sf; int began, ended, v, exc, ok, twice, got; P() : began(0), ended(0), v(0), exc(0), ok(0), twice(0), got(0) { f = p.get_future(); } };
static void put(promise<int>& p, int v, bool exc) { if (exc) { Err e = {v}; if (vf_bool()) p.set_exception(e); else p.set_exception(boost::copy_exception(e)); } else switch (vf_choice(3)) { case 0: p.set_value(v); break; case 1: p.set_value(boost::move(v)); break; default: p.emplace(v); } }
static void setter(P* p) { gh_set(&p->began, 1); put(p->p, p->v, p->exc); gh_set(&p->ended, 1); }
template <class F> static void take(P* p, F& f) { bool e = false; int r = 0; try { r = f.get(); } catch (Err& x) { e = true; r = x.v; } catch (...) { vf_assert(false, "another exception than the stored one"); } vf_assert(gh_get(&p->began), "a result is delivered before it is set"); vf_assert(e == (p->exc != 0), "the stored kind of result is delivered"); vf_assert(r == p->v, "the stored value is delivered"); vf_reach_if(!e, "value"); vf_reach_if(e, "exception"); }
template <class F> static void waitop(P* p, F& f, int k) { bool r = true; long t = gh_ms(1), tr = gh_ms(0); int e0 = gh_get(&p->ended);
  switch (k) { case 0: break; case 1: f.wait(); break; case 2: r = f.wait_for(chrono::milliseconds(80)) == future_status::ready; vf_assert(r || gh_after(1, t + 80), "timed out early"); break; case 3: r = f.wait_until(chrono::system_clock::now() + chrono::milliseconds(80)) == future_status::ready; vf_assert(r || gh_after(0, tr + 80), "timed out early"); break;
    case 4: r = f.wait_until(chrono::steady_clock::now() + chrono::milliseconds(80)) == future_status::ready; break; case 5: r = f.is_ready(); break; default: r = f.has_value() || f.has_exception(); vf_assert(!f.has_value() || !p->exc, "has_value"); vf_assert(!f.has_exception() || p->exc, "has_exception"); }
  if (k) { vf_reach_if(r, "ready"); vf_reach_if(!r, "timed out"); } vf_assert(!e0 || r, "a stored result is not reported"); if (r && k) { vf_assert(gh_get(&p->began), "ready before the result is set"); vf_assert(f.is_ready() && f.get_state() == future_state::ready, "ready stays ready"); vf_assert(f.has_value() != f.has_exception() && f.has_exception() == (p->exc != 0), "has_value and has_exception"); } }
static void w_deliver(P* p) { vf_sched(); waitop(p, p->f, vf_choice(7)); vf_assert(p->f.valid(), "valid before get"); take(p, p->f); vf_assert(!p->f.valid(), "invalid after get"); gh_inc(&p->got); }
extern "C" void vh_c16_deliver() { P p; p.v = (int)vf_nondet(32); p.exc = vf_bool(); vf_go(setter, &p); w_deliver(&p); vf_joinall(); }
static void w_shared(P* p) { waitop(p, p->sf, vf_choice(4)); take(p, p->sf); vf_assert(p->sf.valid(), "still valid"); gh_inc(&p->got); }
extern "C" void vh_c16_wake() { vf_cfg_timeouts = 0; vf_cfg_spurious = 1; P p; p.sf = p.f.share(); vf_assert(!p.f.valid() && p.sf.valid(), "shared"); p.v = (int)vf_nondet(32); p.exc = vf_bool(); vf_go(w_shared, &p); vf_go(w_shared, &p); setter(&p); vf_joinall(); vf_assert(p.got == 2, "all waiters returned"); vf_reach("end"); }
static void second(P* p) { bool exc = vf_bool(); int v = vf_tid(); bool t = false; try { if (exc) { Err e = {v}; p->p.set_exception(e); } else p->p.set_value(v); } catch (promise_already_satisfied&) { t = true; } if (t) gh_inc(&p->twice); else { gh_inc(&p->ok); p->v = v; p->exc = exc; } }
extern "C" void vh_c16_second() { P p; vf_go(second, &p); vf_go(second, &p); vf_await(&p.ok, 1, 0, 0, 0, 0); p.began = 1; take(&p, p.f); vf_joinall(); vf_assert(p.ok == 1 && p.twice == 1, "exactly one setter succeeds, the other is told"); }
// ---- histories of one thread
struct St { int st, val, obtained; }; // state of a promise's result: 0 none, 1 value, 2 exception
extern "C" void vh_c16_seq() {
  promise<int>* q[2]; q[0] = new promise<int>; q[1] = 0; future<int> f[2]; int has[2] = {0, -1}; // index of the result each promise stands for; -1 none
  St r[2] = {{0, 0, 0}, {0, 0, 0}}; int nr = 1; future<int> dummy;
  for (int i = 0; i < 4; i++) { int k = vf_choice(6), a = 0; int h = has[a]; bool gone = q[0] == 0; if (gone) break;
    switch (k) {
      case 0: { int v = (int)vf_nondet(32); int want = h < 0 ? 3 : r[h].st ? 2 : 1, g = 0; try { q[a]->set_value(v); g = 1; } catch (promise_already_satisfied&) { g = 2; vf_reach("already satisfied"); } catch (promise_moved&) { g = 3; vf_reach("no state"); } vf_assert(g == want, "set_value succeeds exactly if the promise has a result that is not set"); if (g == 1) { r[h].st = 1; r[h].val = v; } break; }
      case 1: { Err e = {(int)vf_nondet(32)}; int want = h < 0 ? 3 : r[h].st ? 2 : 1, g = 0; try { q[a]->set_exception(e); g = 1; } catch (promise_already_satisfied&) { g = 2; vf_reach("already satisfied"); } catch (promise_moved&) { g = 3; vf_reach("no state"); } vf_assert(g == want, "set_exception succeeds exactly if the promise has a result that is not set"); if (g == 1) { r[h].st = 2; r[h].val = e.v; } break; }
      case 2: { int want = h < 0 ? 3 : r[h].obtained ? 2 : 1, g = 0; try { future<int> n = q[a]->get_future(); g = 1; if (h >= 0) f[h] = boost::move(n); } catch (future_already_retrieved&) { g = 2; vf_reach("already retrieved"); } catch (promise_moved&) { g = 3; vf_reach("no state"); } vf_assert(g == want, "get_future succeeds exactly once"); if (g == 1) r[h].obtained = 1; break; }
      case 3: if (!q[1]) { q[1] = new promise<int>(boost::move(*q[0])); has[1] = has[0]; has[0] = -1; } else { q[0]->swap(*q[1]); int t = has[0]; has[0] = has[1]; has[1] = t; } break;
      case 4: { if (!q[1]) { if (nr == 2) break; q[1] = new promise<int>; has[1] = nr++; } int o = has[1]; *q[1] = boost::move(*q[0]); if (o >= 0 && !r[o].st) r[o].st = 3; has[1] = has[0]; has[0] = -1; break; }
      default: delete q[0]; q[0] = q[1]; q[1] = 0; if (h >= 0 && !r[h].st) r[h].st = 3; has[0] = has[1]; has[1] = -1; } }
  for (int i = 0; i < nr; i++) { if (!r[i].obtained) { vf_assert(!f[i].valid(), "not valid"); continue; } vf_assert(f[i].valid(), "valid"); vf_assert(f[i].is_ready() == (r[i].st != 0), "ready exactly if a result is stored or can no longer be"); if (!r[i].st) continue; int g = 0, v = 0; try { v = f[i].get(); g = 1; } catch (Err& e) { g = 2; v = e.v; } catch (broken_promise&) { g = 3; v = r[i].val; } vf_assert(g == r[i].st && v == r[i].val, "the stored result is delivered"); vf_reach_if(g == 1, "value"); vf_reach_if(g == 2, "exception"); vf_reach_if(g == 3, "broken"); }
  delete q[0]; delete q[1]; }
// ---- other result types
struct MoveOnly { int v; BOOST_THREAD_MOVABLE_ONLY(MoveOnly) explicit MoveOnly(int a) : v(a) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = -1; } MoveOnly& operator=(MoveOnly&& o) noexcept { v = o.v; o.v = -1; return *this; } };
struct Thrower { int v; Thrower(int a) : v(a) {} Thrower(Thrower const& o) : v(o.v) { if (v < 0) { Err e = {v}; throw e; } } };
extern "C" void vh_c16_types() { int v = (int)vf_nondet(32); bool exc = vf_bool(); Err e = {v}; int k = vf_choice(4); bool t = false, e2 = false;
  switch (k) { case 0: { promise<void> p; future<void> f = p.get_future(); vf_assert(!f.is_ready(), "not ready"); if (exc) p.set_exception(e); else p.set_value(); vf_assert(f.is_ready(), "ready"); try { p.set_value(); } catch (promise_already_satisfied&) { e2 = true; } vf_assert(e2, "set once"); try { f.get(); } catch (Err& x) { t = true; vf_assert(x.v == v, "value"); } vf_assert(t == exc, "outcome"); vf_reach("void"); break; }
    case 1: { int x = v; promise<int&> p; future<int&> f = p.get_future(); if (exc) p.set_exception(e); else p.set_value(x); try { p.set_exception(e); } catch (promise_already_satisfied&) { e2 = true; } vf_assert(e2, "set once"); try { int& r = f.get(); vf_assert(&r == &x && r == v, "the same object"); } catch (Err& y) { t = true; vf_assert(y.v == v, "value"); } vf_assert(t == exc, "outcome"); vf_reach("reference"); break; }
    case 2: { promise<MoveOnly> p; future<MoveOnly> f = p.get_future(); if (exc) p.set_exception(e); else if (vf_bool()) p.set_value(MoveOnly(v)); else p.emplace(v); try { MoveOnly m(f.get()); vf_assert(m.v == v, "moved out"); } catch (Err& y) { t = true; vf_assert(y.v == v, "value"); } vf_assert(t == exc, "outcome"); vf_reach("move only"); break; }
    default: { promise<Thrower> p; future<Thrower> f = p.get_future(); Thrower x(v); bool fail = false; try { p.set_value(x); } catch (Err& y) { fail = true; vf_assert(y.v == v, "the exception of the copy"); } vf_assert(fail == (v < 0), "the exception of the copy reaches the caller"); if (fail) { vf_assert(!f.is_ready(), "a failed set_value changes nothing"); p.set_exception(e); } try { vf_assert(f.get().v == v, "value"); } catch (Err& y) { t = true; } vf_assert(t == fail, "outcome"); vf_reach("throwing copy"); } } }
// ---- handles of one result
extern "C" void vh_c16_handles() {
  promise<int> p; int v = (int)vf_nondet(32); bool set = vf_bool(); if (set) p.set_value(v); future<int> a = p.get_future(), b; shared_future<int> s; int oa = 1, ob = 0, os = 0; // which handles own the result
  for (int i = 0; i < 4; i++) switch (vf_choice(9)) {
    case 0: b = boost::move(a); ob = oa; oa = 0; break;
    case 1: a.swap(b); { int t = oa; oa = ob; ob = t; } break;
    case 2: if (oa) { s = a.share(); oa = 0; os = 1; vf_reach("shared"); } break;
    case 3: { shared_future<int> c(s); vf_assert(c.valid() == (os != 0), "a copy is as valid"); if (os) { s = boost::move(c); vf_assert(!c.valid(), "moved from"); } break; }
    case 4: if (set) { bool th = false; int g = 0; try { g = a.get(); } catch (future_uninitialized&) { th = true; } vf_assert(th == !oa, "get on an invalid future fails"); if (oa) { vf_assert(g == v, "the value"); oa = 0; vf_reach("got"); } } break;
    case 5: { bool th = false; int g = 0; if (set || !os) { try { g = s.get(); } catch (future_uninitialized&) { th = true; } vf_assert(th == !os, "get on an invalid shared_future fails"); if (os) vf_assert(g == v, "the value"); } break; }
    case 6: { future<int> c(boost::move(b)); vf_assert(c.valid() == (ob != 0) && !b.valid(), "moved"); b = boost::move(c); break; }
    case 7: { bool th = false; try { if (a.wait_for(chrono::milliseconds(-50)) == future_status::ready) vf_assert(set, "ready"); else vf_assert(!set, "not ready"); } catch (future_uninitialized&) { th = true; } vf_assert(th == (a.get_state() == future_state::uninitialized), "waiting for an invalid future fails"); vf_reach_if(th, "invalid"); break; }
    default: if (os) { shared_future<int> c; c = s; vf_assert(c.is_ready() == set && s.valid(), "copy assignment"); } }
  vf_assert(a.valid() == (oa != 0) && b.valid() == (ob != 0) && s.valid() == (os != 0), "valid tells the truth"); if (oa) vf_assert(a.is_ready() == set && a.has_value() == set && !a.has_exception(), "state"); if (os) vf_assert(s.is_ready() == set && s.has_value() == set, "state"); if (ob) vf_assert(b.get_state() == (set ? future_state::ready : future_state::waiting), "state"); }
extern "C" void vh_c16_get_or() { int v = (int)vf_nondet(32), d = (int)vf_nondet(32); int k = vf_choice(3); promise<int> p; future<int> f = p.get_future(); Err e = {v}; if (k == 0) p.set_value(v); else if (k == 1) p.set_exception(e); else f = future<int>();
  vf_assert(f.has_value() == (k == 0) && f.has_exception() == (k == 1), "state"); if (k < 2) vf_assert(!f.get_exception_ptr() == (k == 0), "get_exception_ptr"); if (k == 1) { try { rethrow_exception(f.get_exception_ptr()); } catch (Err& x) { vf_assert(x.v == v, "the stored exception"); } }
  bool th = false; int g = 0; try { if (vf_bool()) g = f.get_or(d); else { int c = d; g = f.get_or(boost::move(c)); } } catch (future_uninitialized&) { th = true; } vf_assert(th == (k == 2), "get_or on an invalid future fails"); if (k == 0) { vf_assert(g == v, "value"); vf_reach("value"); } if (k == 1) { vf_assert(g == d, "default"); vf_reach("default"); } vf_assert(!f.valid(), "invalid afterwards"); }
struct S2 { shared_future<int> c[2]; int v, n; };
static void s_read(S2* s) { int i = vf_tid() - 1; { shared_future<int> mine; mine = boost::move(s->c[i]); int a = mine.get(); int b = mine.get(); vf_assert(a == s->v && b == s->v, "every copy delivers the same result each time"); } gh_inc(&s->n); }
extern "C" void vh_c16_shared() { S2 s; s.v = (int)vf_nondet(32); s.n = 0; { promise<int> p; s.c[0] = shared_future<int>(p.get_future()); s.c[1] = s.c[0]; vf_go(s_read, &s); vf_go(s_read, &s); p.set_value(s.v); } vf_joinall(); vf_assert(s.n == 2, "both"); vf_reach("end"); }
// ---- abandoned
struct B { promise<int>* p; future<int> f; int v, set, k, done; };
static void w_broken(B* b) { switch (vf_choice(3)) { case 0: break; case 1: b->f.wait(); break; default: vf_assert(b->f.wait_for(chrono::milliseconds(80)) == future_status::ready, "released"); } bool br = false; int g = 0; try { g = b->f.get(); } catch (broken_promise&) { br = true; } vf_assert(br == !b->set, "broken_promise exactly if no result was produced"); if (!br) vf_assert(g == b->v, "value"); vf_reach_if(br, "broken"); vf_reach_if(!br, "delivered"); gh_set(&b->done, 1); }
static void holder(B* b) { promise<int> mine(boost::move(*b->p)); if (b->set) mine.set_value(b->v); this_thread::interruption_point(); }
extern "C" void vh_c17_broken() { vf_cfg_timeouts = 0; B b; b.p = new promise<int>; b.f = b.p->get_future(); b.v = (int)vf_nondet(32); b.set = vf_bool(); b.k = vf_choice(6); b.done = 0; vf_go(w_broken, &b); promise<int>* q = b.p;
  if (b.set && b.k != 5) q->set_value(b.v);
  switch (b.k) { case 0: delete q; break; case 1: { promise<int> o; *q = boost::move(o); vf_joinall(); delete q; break; } case 2: { promise<int> o; o.swap(*q); delete q; break; } case 3: { promise<int> o(boost::move(*q)); delete q; if (!b.set) { vf_assert(!gh_get(&b.done), "broken by destroying a moved-from promise"); o.set_value(b.v); b.set = 1; } break; } case 4: { promise<int> o; o = boost::move(*q); delete q; break; } default: { thread t(holder, &b); t.interrupt(); t.join(); delete q; } }
  vf_joinall(); }
struct T { packaged_task<int()>* t; future<int> f; int v, run, done; };
static int TV; static int body() { return TV; }
static void w_task(T* b) { bool br = false; int g = 0; try { g = b->f.get(); } catch (broken_promise&) { br = true; } vf_assert(br == !b->run, "broken_promise exactly if the task never ran"); if (!br) vf_assert(g == b->v, "value"); vf_reach_if(br, "broken"); vf_reach_if(!br, "delivered"); gh_set(&b->done, 1); }
extern "C" void vh_c17_task() { vf_cfg_timeouts = 0; T b; TV = b.v = (int)vf_nondet(32); b.t = new packaged_task<int()>(&body); b.f = b.t->get_future(); b.run = vf_bool(); b.done = 0; vf_go(w_task, &b); packaged_task<int()>* q = b.t; int k = vf_choice(4);
  if (b.run && k != 3) (*q)(); 
  switch (k) { case 0: delete q; break; case 1: { packaged_task<int()> o(&body); *q = boost::move(o); vf_joinall(); delete q; break; } case 2: { packaged_task<int()> o; o = boost::move(*q); delete q; break; } default: { packaged_task<int()> o(boost::move(*q)); delete q; vf_assert(!gh_get(&b.done), "broken by destroying a moved-from task"); b.run = 1; o(); } }
  vf_joinall(); }
struct R { promise<int> p; future<int> f; int d; R() : d(0) { f = p.get_future(); } };
static void r_set(R* r) { r->d = 5; r->p.set_value(7); } static void r_get(R* r) { vf_assert(r->f.get() == 7 && r->d == 5, "published"); }
extern "C" void vh_c16_race() { R r; vf_go(r_set, &r); vf_go(r_get, &r); vf_joinall(); vf_reach("end"); }
