// C11, C12, C09: interruption.
// ENTRY vh_c11_block | props=C11,C09 | weight=3 | reach=interrupted | bound=1 worker in one of 8 blocking interruption points (waits of both condition classes, plain, predicate, timed; sleeps; join; timed join) that would never end by themselves, interrupted once at any moment
// ENTRY vh_c11_point | props=C11 | weight=3 | reach=thrown in the first;thrown in the second;thrown at the end;not interrupted | bound=1 worker passing 2 of 5 kinds of interruption points and a last one, with or without 1 interrupt at any moment; the waits end by notification
// ENTRY vh_c11_timed | props=C11,C10,C09 | weight=3 | reach=thrown in the first;thrown at the end;not interrupted | bound=1 worker in a timed wait or sleep (condition_variable, condition_variable_any, sleep_for, sleep_until, no_interruption_point::sleep_for) with every time-out schedule, with or without 1 interrupt
// ENTRY vh_c11_two | props=C11 | weight=5 | reach=only the target | bound=2 workers waiting on one condition, one of them interrupted, then all notified
// ENTRY vh_c11_wake | props=C11,C08 | weight=5 | reach=woken | bound=2 or 3 workers waiting on one condition variable (condition_variable or condition_variable_any, plain or with predicate), one of them interrupted: it leaves although nobody notifies
// ENTRY vh_c11_twice | props=C11 | weight=5 | reach=once;twice | bound=1 worker, interrupted by 2 threads or twice; 3 interruption points
// ENTRY vh_c11_race | props=C11,C40 | reach=thrown;not interrupted | bound=1 worker in a predicate wait, interrupted or notified; all accesses checked for races
// ENTRY vh_c12_block | props=C12 | weight=3 | reach=delivered later | bound=1 worker with interruption disabled in 6 kinds of blocking calls, interrupted at any moment, notified afterwards; delivered at the next enabled point
// ENTRY vh_c12_nest | props=C12 | weight=3 | reach=thrown;nested;restored | bound=1 worker, all nestings of disable_interruption and restore_interruption up to depth 3 with an interruption point at every place, interrupted before it starts or not
// ENTRY vh_c12_none | props=C12 | weight=3 | reach=end | bound=1 worker with a pending request executes operations that are no interruption points: mutex, recursive_mutex, timed_mutex, shared_mutex locks (contended or not), notify, detach, yield, thread construction
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
using namespace boost;
struct X { mutex m; condition_variable cv; condition_variable_any cva; int go, thrown, done, intr, point, fin; thread* other; X() : go(0), thrown(0), done(0), intr(0), point(0), fin(0), other(0) {} };
struct Go { X* x; bool operator()() const { return x->go; } };
static void held(X* x, unique_lock<mutex>& lk) { vf_assert(lk.owns_lock() && vf_owned(x->m.native_handle()) == vf_tid() + 1, "the lock is owned again after the wait"); vf_assert(vf_held(vf_tid()) == 1, "no internal lock remains held"); }
static void expect(X* x) { vf_assert(gh_get(&x->intr), "thread_interrupted thrown in a thread that was not interrupted"); gh_inc(&x->thrown); }
// blocking interruption points; true if it threw
static bool point(X* x, int k, bool timed = false) {
  unique_lock<mutex> lk(x->m, defer_lock); Go p = {x}; bool t = false; long ms = timed ? 80 : 80;
  try { switch (k) {
    case 0: this_thread::interruption_point(); break;
    case 1: lk.lock(); x->cv.wait(lk, p); break;
    case 2: lk.lock(); x->cv.wait_for(lk, chrono::milliseconds(ms), p); break;
    case 3: lk.lock(); x->cva.wait(lk, p); break;
    case 4: lk.lock(); x->cva.wait_until(lk, chrono::system_clock::now() + chrono::milliseconds(ms), p); break;
    case 5: this_thread::sleep_for(chrono::milliseconds(ms)); break;
    case 6: x->other->join(); break;
    case 7: x->other->try_join_for(chrono::milliseconds(ms)); break;
    case 8: lk.lock(); x->cv.wait(lk); break;
    case 9: this_thread::sleep(posix_time::milliseconds(ms)); break;
    case 10: lk.lock(); x->cva.timed_wait(lk, posix_time::milliseconds(ms)); break;
    case 11: this_thread::no_interruption_point::sleep_for(chrono::milliseconds(ms)); break;
  } } catch (thread_interrupted&) { t = true; }
  if (lk.owns_lock()) held(x, lk); else vf_assert((k == 0 || (k >= 5 && k <= 7) || k == 9 || k == 11) && vf_held(vf_tid()) == 0, "the lock object owns its mutex after the wait");
  if (t) { expect(x); vf_assert(k != 11, "an operation that is no interruption point threw"); }
  return t; }
static void quiet(X* x) { try { this_thread::interruption_point(); } catch (thread_interrupted&) { expect(x); vf_assert(false, "one request was delivered twice"); } }
static void intr(X* x, thread& t) { gh_set(&x->intr, 1); t.interrupt(); }
static void notify(X* x) { { lock_guard<mutex> g(x->m); x->go = 1; } x->cv.notify_all(); x->cva.notify_all(); }
static void nothing() {}
// the point would block for ever
static void w_block(X* x) { bool t = point(x, x->point); vf_assert(t, "a blocking interruption point returned without a reason"); vf_assert(!this_thread::interruption_requested(), "the request is consumed"); quiet(x); }
static void w_other(X* x) { unique_lock<mutex> lk(x->m); while (!x->fin) x->cv.wait(lk); }
extern "C" void vh_c11_block() {
  vf_cfg_timeouts = 0; X x; static const int ks[] = {1, 2, 3, 4, 5, 8, 9, 10}; int k = vf_choice(8); x.point = ks[k];
  thread t(w_block, &x); intr(&x, t); t.join(); vf_assert(x.thrown == 1, "interrupted exactly once"); vf_reach("interrupted"); }
// two points and a last one; the request arrives at any time
static void w_point(X* x) { static const int ks[] = {0, 1, 3}; bool a = point(x, ks[vf_choice(3)]); if (a) vf_reach("thrown in the first"); bool b = point(x, vf_bool() ? 0 : 1); if (b) vf_reach("thrown in the second"); vf_await(&x->done, 1, 0, 0, 0, 0); bool c = point(x, 0); if (c) vf_reach("thrown at the end"); }
extern "C" void vh_c11_point() {
  vf_cfg_timeouts = 0; X x; thread t(w_point, &x); bool i = vf_bool(); if (i && vf_bool()) { intr(&x, t); notify(&x); } else { notify(&x); if (i) intr(&x, t); } gh_set(&x.done, 1);
  t.join(); vf_assert(x.thrown == (i ? 1 : 0), "each request is delivered exactly once"); if (!i) vf_reach("not interrupted"); }
static void w_timed(X* x) { static const int ks[] = {2, 4, 5, 9, 10, 11}; bool a = point(x, ks[vf_choice(6)], true); if (a) vf_reach("thrown in the first"); vf_await(&x->done, 1, 0, 0, 0, 0); bool c = point(x, 0); if (c) vf_reach("thrown at the end"); }
extern "C" void vh_c11_timed() { X x; thread t(w_timed, &x); bool i = vf_bool(); if (i) intr(&x, t); gh_set(&x.done, 1); t.join(); vf_assert(x.thrown == (i ? 1 : 0), "each request is delivered exactly once"); if (!i) vf_reach("not interrupted"); }
struct Y { X x; X* me; };
static void w_two(X* x) { bool t = point(x, 1); vf_assert(t || x->go, "returned"); if (!t) point(x, 0); quiet(x); }
static void w_two_b(X* x) { Go p = {x}; unique_lock<mutex> lk(x->m); try { x->cv.wait(lk, p); } catch (thread_interrupted&) { vf_assert(false, "a thread that was not interrupted threw"); } held(x, lk); lk.unlock(); try { this_thread::interruption_point(); } catch (thread_interrupted&) { vf_assert(false, "a thread that was not interrupted threw"); } }
extern "C" void vh_c11_two() { vf_cfg_timeouts = 0; X x; thread a(w_two, &x), b(w_two_b, &x); intr(&x, a); vf_assert(!b.interruption_requested(), "the request is for one thread"); notify(&x); b.join(); a.join(); vf_assert(x.thrown == 1, "exactly the target is interrupted"); vf_reach("only the target"); }
struct W { X x; int k; bool any; W() : k(0), any(false) {} };
static void w_wake_a(W* w) { bool t = point(&w->x, w->any ? 3 : w->k); vf_assert(t, "returned without a reason"); quiet(&w->x); }
static void w_wake_b(W* w) { Go p = {&w->x}; unique_lock<mutex> lk(w->x.m); try { if (w->any) w->x.cva.wait(lk, p); else w->x.cv.wait(lk, p); } catch (thread_interrupted&) { vf_assert(false, "a thread that was not interrupted threw"); } held(&w->x, lk); }
extern "C" void vh_c11_wake() { vf_cfg_timeouts = 0; W w; w.any = vf_bool(); w.k = !w.any && vf_bool() ? 8 : 1; thread b(w_wake_b, &w), a(w_wake_a, &w); intr(&w.x, a); a.join(); vf_assert(w.x.thrown == 1, "interrupted"); vf_reach("woken"); notify(&w.x); b.join(); }
static void w_twice(X* x) { static const int ks[] = {0, 1}; for (int i = 0; i < 2; i++) point(x, ks[vf_choice(2)]); vf_await(&x->done, 2, 0, 0, 0, 0); point(x, 0); vf_assert(!this_thread::interruption_requested(), "nothing remains pending"); }
static void again(X* x) { intr(x, *x->other); gh_inc(&x->done); }
extern "C" void vh_c11_twice() { vf_cfg_timeouts = 0; X x; x.go = 1; thread t(w_twice, &x); x.other = &t; vf_go(again, &x); again(&x); vf_joinall(); t.join(); vf_assert(x.thrown == 1 || x.thrown == 2, "two requests are delivered once or twice"); vf_reach_if(x.thrown == 1, "once"); vf_reach_if(x.thrown == 2, "twice"); }
static void w_race(X* x) { if (point(x, 1)) vf_reach("thrown"); else vf_reach("not interrupted"); }
extern "C" void vh_c11_race() { vf_cfg_timeouts = 0; X x; thread t(w_race, &x); if (vf_bool()) intr(&x, t); else notify(&x); t.join(); }
// interruption disabled
static void w_disabled(X* x) { { this_thread::disable_interruption di; vf_assert(!this_thread::interruption_enabled(), "disabled"); static const int ks[] = {1, 3, 0}; bool t = point(x, ks[vf_choice(3)]); vf_assert(!t, "an interruption point threw while interruption is disabled"); t = point(x, 0); vf_assert(!t, "an interruption point threw while interruption is disabled"); vf_await(&x->done, 1, 0, 0, 0, 0); vf_assert(this_thread::interruption_requested(), "the request stays pending"); }
  vf_assert(this_thread::interruption_enabled(), "enabled again"); bool t = point(x, vf_bool() ? 0 : 5); vf_assert(t, "the pending request is delivered after interruption is enabled again"); quiet(x); vf_reach("delivered later"); }
extern "C" void vh_c12_block() { vf_cfg_timeouts = 0; X x; thread t(w_disabled, &x); intr(&x, t); gh_set(&x.done, 1); notify(&x); t.join(); vf_assert(x.thrown == 1, "once"); }
static void look(X* x, bool on) { vf_assert(this_thread::interruption_enabled() == on, "interruption_enabled"); bool pend = x->fin; bool t = false; try { this_thread::interruption_point(); } catch (thread_interrupted&) { t = true; } vf_assert(t == (on && pend), "an interruption point throws exactly if enabled and requested"); if (t) { vf_reach("thrown"); x->fin = 0; } }
static void nest(X* x, this_thread::disable_interruption* d, bool on, int depth, bool can) {
  look(x, on); if (depth == 0 || vf_bool()) return;
  if (!d || on || vf_bool()) { this_thread::disable_interruption di; if (!on) vf_reach("nested"); nest(x, &di, false, depth - 1, on); }
  else { this_thread::restore_interruption ri(*d); if (can) vf_reach("restored"); nest(x, d, can, depth - 1, can); }
  look(x, on); }
static void w_nest(X* x) { vf_await(&x->done, 1, 0, 0, 0, 0); nest(x, 0, true, 3, false); }
extern "C" void vh_c12_nest() { X x; thread t(w_nest, &x); x.fin = vf_bool(); if (x.fin) t.interrupt(); gh_set(&x.done, 1); t.join(); }
struct Z { X x; recursive_mutex rm; timed_mutex tm; shared_mutex sm; int k, holds; Z() : k(0), holds(0) {} };
static void noop() {}
static void w_none(Z* z) { vf_await(&z->x.done, 1, 0, 0, 0, 0); bool t = false;
  try { switch (z->k) { case 0: z->x.m.lock(); z->x.m.unlock(); break; case 1: z->rm.lock(); z->rm.unlock(); break; case 2: if (z->tm.try_lock_for(chrono::milliseconds(80))) z->tm.unlock(); break; case 3: z->sm.lock(); z->sm.unlock(); break; case 4: z->sm.lock_shared(); z->sm.unlock_shared(); break; case 5: if (z->sm.try_lock_for(chrono::milliseconds(80))) z->sm.unlock(); break; case 6: if (z->sm.try_lock_shared_until(chrono::steady_clock::now() + chrono::milliseconds(80))) z->sm.unlock_shared(); break; case 7: z->x.cv.notify_one(); z->x.cva.notify_all(); this_thread::yield(); break; case 8: z->sm.lock_upgrade(); z->sm.unlock_upgrade_and_lock(); z->sm.unlock(); break; default: { thread n(noop); n.detach(); } } } catch (thread_interrupted&) { t = true; }
  vf_assert(!t, "an operation that is no interruption point threw thread_interrupted"); vf_assert(this_thread::interruption_requested(), "the request is still pending"); }
static void hold(Z* z) { switch (z->k) { case 0: z->x.m.lock(); gh_set(&z->holds, 1); z->x.m.unlock(); break; case 1: z->rm.lock(); gh_set(&z->holds, 1); z->rm.unlock(); break; case 2: z->tm.lock(); gh_set(&z->holds, 1); z->tm.unlock(); break; case 3: case 4: case 5: case 6: case 8: z->sm.lock(); gh_set(&z->holds, 1); z->sm.unlock(); break; default: break; } }
extern "C" void vh_c12_none() { Z z; z.k = vf_choice(10); thread t(w_none, &z); t.interrupt(); gh_set(&z.x.done, 1); hold(&z); t.join(); vf_reach("end"); }
