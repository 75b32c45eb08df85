// C08-C10: condition_variable and condition_variable_any.
// FLAGS -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
// ENTRY vh_c08_cv | props=C08 | weight=5 | reach=woken;no wait | bound=condition_variable; 2 consumers (predicate or explicit loop, untimed or with limits that never expire) and 1 producer of 2 tokens by notify_one twice or notify_all once, inside or outside the lock; 1 spurious wake-up
// ENTRY vh_c08_any | props=C08 | weight=5 | reach=woken;no wait | bound=condition_variable_any, as vh_c08_cv
// ENTRY vh_c08_plain | props=C08,C09 | reach=one woken;all woken | bound=condition_variable; 2 threads wait without predicate, the notifier knows that they wait; notify_one or notify_all, inside or outside the lock
// ENTRY vh_c08_plain_any | props=C08,C09 | reach=one woken;all woken | bound=condition_variable_any, as vh_c08_plain
// ENTRY vh_c08_race | props=C08,C40 | reach=woken | bound=condition_variable, 1 consumer and 1 producer, all accesses checked for races
// ENTRY vh_c08_race_any | props=C08,C40 | reach=woken | bound=condition_variable_any, 1 consumer and 1 producer, all accesses checked for races
// ENTRY vh_c10_pred | props=C10,C09 | weight=3 | reach=limit passed;predicate true;past limit;true although the limit passed | bound=condition_variable; 1 waiter with predicate (6 forms, limit in the past or future), 1 notifier; every time-out schedule, 1 spurious wake-up
// ENTRY vh_c10_pred_any | props=C10,C09 | weight=3 | reach=limit passed;predicate true;past limit;true although the limit passed | bound=condition_variable_any, as vh_c10_pred
// ENTRY vh_c10_plain | props=C10,C09 | weight=3 | reach=limit passed;notified | bound=condition_variable; 1 waiter without predicate (6 forms, limit in the past or future), 1 notifier; every time-out schedule, 1 spurious wake-up
// ENTRY vh_c10_plain_any | props=C10,C09 | weight=3 | reach=limit passed;notified | bound=condition_variable_any, as vh_c10_plain
// ENTRY vh_c10_jump | props=C10 | weight=3 | reach=limit passed | bound=one waiter (condition_variable or _any), 6 forms with or without predicate; the system clock may jump once by +2 h or -200 ms at any reading
// ENTRY vh_c10_alone | props=C10 | reach=end | bound=no notifier: every timed form of both classes ends
// ENTRY vh_c09_throw | props=C09 | reach=predicate threw;not owned;system error | bound=throwing predicate at the 1st or 2nd evaluation, lock not owned (condition_variable), failing pthread_cond_wait; all forms
// ENTRY vh_c08_cv_all | props=C08 | tier=thorough | weight=9 | reach=woken;no wait | bound=as vh_c08_cv with all six forms
// ENTRY vh_c08_any_all | props=C08 | tier=thorough | weight=9 | reach=woken;no wait | bound=as vh_c08_any with all six forms
#include "cv_common.h"
template <class CV> struct X { mutex m; CV cv; int tokens, waiting, woken, told; bool all; X() : tokens(0), waiting(0), woken(0), told(0), all(false) {} };
template <class CV> struct Pred { X<CV>* x; bool operator()() const { return x->tokens > 0; } };
template <class CV> static void held(X<CV>* x, unique_lock<mutex>& lk) { vf_assert(lk.owns_lock(), "the lock object owns the lock after the wait"); vf_assert(vf_owned(x->m.native_handle()) == vf_tid() + 1, "the mutex is owned by the caller after the wait"); vf_assert(vf_held(vf_tid()) == 1, "no internal lock remains held"); }
template <class CV> static void consume(X<CV>* x, bool loop, int f) {
  unique_lock<mutex> lk(x->m); int had = x->tokens;
  if (loop) { while (!x->tokens) wait_plain(x->cv, lk, f, 80); } else { Pred<CV> p = {x}; vf_assert(wait_pred(x->cv, lk, f, 80, p), "predicate wait returned without time-out and without the predicate"); }
  held(x, lk); vf_assert(x->tokens > 0, "a predicate wait returned although the predicate is false");
  if (had) vf_reach("no wait"); else vf_reach("woken");
  x->tokens--; }
template <class CV> static void th_consume(X<CV>* x) { static const int fs[] = {WAIT, UNTIL}; int f = x->all ? vf_choice(6) : fs[vf_choice(2)]; consume(x, vf_bool(), f); }
template <class CV> static void post(X<CV>* x, int n, bool all, bool in) { { lock_guard<mutex> g(x->m); x->tokens += n; if (in) { if (all) x->cv.notify_all(); else x->cv.notify_one(); } } if (!in) { if (all) x->cv.notify_all(); else x->cv.notify_one(); } }
template <class CV> static void tokens(bool all) { vf_cfg_timeouts = 0; vf_cfg_spurious = 1; X<CV> x; x.all = all; vf_go(th_consume<CV>, &x); vf_go(th_consume<CV>, &x); if (vf_bool()) post(&x, 2, true, vf_bool()); else { post(&x, 1, false, vf_bool()); post(&x, 1, false, vf_bool()); } vf_joinall(); vf_assert(x.tokens == 0, "each token consumed once"); }
template <class CV> static void th_plain(X<CV>* x) { unique_lock<mutex> lk(x->m); gh_inc(&x->waiting); wait_plain(x->cv, lk, vf_bool() ? UNTIL : WAIT, 80); held(x, lk); vf_assert(gh_get(&x->told), "woken without a notification"); gh_inc(&x->woken); }
template <class CV> static void plain() {
  vf_cfg_timeouts = 0; X<CV> x; vf_go(th_plain<CV>, &x); vf_go(th_plain<CV>, &x); vf_await(&x.waiting, 2, 0, 0, 0, 0);
  bool all = vf_bool(), in = vf_bool(); unique_lock<mutex> lk(x.m); if (!in) lk.unlock(); gh_inc(&x.told); if (all) x.cv.notify_all(); else x.cv.notify_one(); if (in) lk.unlock();
  if (all) { vf_reach("all woken"); } else { vf_await(&x.woken, 1, 0, 0, 0, 0); vf_reach("one woken"); x.cv.notify_one(); }
  vf_joinall(); }
template <class CV> static void th_one(X<CV>* x) { consume(x, false, WAIT); }
template <class CV> static void race() { vf_cfg_timeouts = 0; X<CV> x; vf_go(th_one<CV>, &x); post(&x, 1, vf_bool(), vf_bool()); vf_joinall(); }
template <class CV> static void th_post(X<CV>* x) { post(x, 1, vf_bool(), vf_bool()); }
template <class CV> static void timed_pred() {
  vf_cfg_spurious = 1; X<CV> x; vf_go(th_post<CV>, &x);
  { int f = vf_choice(6); long d = clk_of(f) >= 0 && vf_bool() ? -50 : 80; unique_lock<mutex> lk(x.m); long dl = clk_of(f) < 0 ? 0 : limit(f, d); Pred<CV> p = {&x};
    bool r = wait_pred(x.cv, lk, f, d, p); held(&x, lk); vf_assert(r == (x.tokens > 0), "a predicate wait returned something else than the value of the predicate");
    if (!r) { vf_assert(clk_of(f) >= 0, "an untimed wait gave up"); vf_assert(gh_after(clk_of(f), dl), "a predicate wait gave up before the limit"); vf_reach("limit passed"); if (d < 0) vf_reach("past limit"); } else { vf_reach("predicate true"); if (clk_of(f) >= 0 && d > 0 && gh_after(clk_of(f), dl)) vf_reach("true although the limit passed"); } }
  vf_joinall(); }
template <class CV> static void th_tell(X<CV>* x) { bool in = vf_bool(); unique_lock<mutex> lk(x->m); if (!in) lk.unlock(); gh_set(&x->told, 1); if (vf_bool()) x->cv.notify_all(); else x->cv.notify_one(); }
template <class CV> static void timed_plain() {
  X<CV> x; int f = vf_choice(6); 
  { unique_lock<mutex> lk(x.m); vf_go(th_tell<CV>, &x); long d = clk_of(f) >= 0 && vf_bool() ? -50 : 80; long dl = clk_of(f) < 0 ? 0 : limit(f, d);
    bool r = wait_plain(x.cv, lk, f, d); held(&x, lk);
    if (!r) { vf_assert(clk_of(f) >= 0, "an untimed wait reported a time-out"); vf_assert(gh_after(clk_of(f), dl), "a time-out was reported before the limit"); vf_reach("limit passed"); } else { vf_assert(gh_get(&x.told), "neither notified nor timed out"); vf_reach("notified"); } }
  vf_joinall(); }
template <class CV> static void jump(X<CV>* x) {
  vf_cfg_clockjump = 1; int f = 1 + vf_choice(5); bool pr = vf_bool(); unique_lock<mutex> lk(x->m); long dl = limit(f, 80); Pred<CV> p = {x};
  bool r = pr ? wait_pred(x->cv, lk, f, 80, p) : wait_plain(x->cv, lk, f, 80); held(x, lk);
  if (!r) { vf_assert(gh_after(clk_of(f), dl), "a time-out was reported before the limit on its own clock"); vf_reach("limit passed"); } else vf_assert(!pr, "the predicate is false"); }
template <class CV> static void alone(X<CV>* x, int f, long d) { unique_lock<mutex> lk(x->m); Pred<CV> p = {x}; long dl = limit(f, d); vf_assert(!wait_pred(x->cv, lk, f, d, p), "predicate"); vf_assert(gh_after(clk_of(f), dl), "early"); held(x, lk); dl = limit(f, d); vf_assert(!wait_plain(x->cv, lk, f, d), "a wait without notification reported no time-out"); vf_assert(gh_after(clk_of(f), dl), "early"); held(x, lk); }
struct Thrower { int* n; bool operator()() const { if (--*n == 0) throw 7; return false; } };
template <class CV> static void throws(X<CV>* x) {
  int f = vf_choice(6), k = vf_choice(2); unique_lock<mutex> lk(x->m); int n = 1; bool t = false;
  if (k == 0) { vf_cfg_spurious = 1; n = clk_of(f) >= 0 && vf_bool() ? 2 : 1; Thrower p = {&n}; try { wait_pred(x->cv, lk, f, 80, p); } catch (int v) { t = v == 7; } vf_assert(t, "the exception of the predicate arrives"); held(x, lk); vf_reach("predicate threw"); }
  else { vf_cfg_fail = 1; vf_cfg_failmask = 64 | (f == WAIT ? 512 : 0); try { wait_plain(x->cv, lk, f, 80); } catch (condition_error&) { t = true; } held(x, lk); vf_assert(t == (vf_env_failed == 1), "a failing system wait is reported"); if (t) vf_reach("system error"); } }
static void not_owned(X<condition_variable>* x) { int f = vf_choice(6); unique_lock<mutex> lk(x->m, defer_lock); bool t = false; try { wait_plain(x->cv, lk, f, 80); } catch (condition_error&) { t = true; } vf_assert(t, "waiting without the lock is reported"); vf_assert(!lk.owns_lock() && vf_held(0) == 0, "no lock is held"); vf_reach("not owned"); }
extern "C" {
void vh_c08_cv() { tokens<condition_variable>(false); }
void vh_c08_any() { tokens<condition_variable_any>(false); }
void vh_c08_cv_all() { tokens<condition_variable>(true); }
void vh_c08_any_all() { tokens<condition_variable_any>(true); }
void vh_c08_plain() { plain<condition_variable>(); }
void vh_c08_plain_any() { plain<condition_variable_any>(); }
void vh_c08_race() { race<condition_variable>(); }
void vh_c08_race_any() { race<condition_variable_any>(); }
void vh_c10_pred() { timed_pred<condition_variable>(); }
void vh_c10_pred_any() { timed_pred<condition_variable_any>(); }
void vh_c10_plain() { timed_plain<condition_variable>(); }
void vh_c10_plain_any() { timed_plain<condition_variable_any>(); }
void vh_c10_jump() { if (vf_bool()) { X<condition_variable> x; jump(&x); } else { X<condition_variable_any> x; jump(&x); } }
void vh_c10_alone() { int f = 1 + vf_choice(5); long d = vf_bool() ? -50 : 80; if (vf_bool()) { X<condition_variable> x; alone(&x, f, d); } else { X<condition_variable_any> x; alone(&x, f, d); } vf_reach("end"); }
void vh_c09_throw() { int k = vf_choice(3); if (k == 0) { X<condition_variable> x; throws(&x); } else if (k == 1) { X<condition_variable_any> x; throws(&x); } else { X<condition_variable> x; not_owned(&x); } }
}
