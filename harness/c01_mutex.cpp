// C01: mutex, timed_mutex under every mixture of blocking, try and timed acquisition.
// ENTRY vh_c01_mutex | props=C01,C40 | reach=try failed;try ok;contended | bound=3 threads x 2 operations chosen freely among lock, try_lock
// ENTRY vh_c01_timed | props=C01,C03,C40 | reach=try failed;timed failed;timed ok after waiting;past deadline ok | bound=2 threads x 1 operation among lock, try_lock, timed_lock(abs/rel), try_lock_for, try_lock_until(steady/system); deadlines in the past or future; every time-out schedule
// ENTRY vh_c01_timed3 | props=C01,C03 | reach=timed failed;timed ok after waiting | bound=3 threads x 1 operation among lock, try_lock_until(steady), try_lock_until(system); every time-out schedule
// ENTRY vh_c01_timed_wake | props=C01 | reach=waited | bound=3 threads, timed waits that never time out: they must be woken
// ENTRY vh_c01_try_seq | props=C01 | reach=end | bound=1 thread, 4 operations
#include "vfh.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/thread_time.hpp>
using namespace boost;
template <class M> struct X { M m; Act a; Own o; int data; int n; int waited; bool timeouts; X() : a(), o(), data(0), n(0), waited(0), timeouts(true) {} };
template <class M> static void got(X<M>* x) { gh_x(&x->o); int v = x->data; vf_sched(); x->data = v + 1; gh_rx(&x->o); x->m.unlock(); }
static void op_mutex(X<mutex>* x, int op) {
  gh_begin(&x->a);
  if (op == 0) { x->m.lock(); vf_reach_if(gh_seen(&x->a) != 0, "contended"); got(x); }
  else { if (x->m.try_lock()) { vf_reach("try ok"); got(x); } else { vf_assert(gh_seen(&x->a) != 0, "try_lock failed on a free mutex"); vf_reach("try failed"); } }
  gh_end(&x->a);
}
static void th_mutex(X<mutex>* x) { for (int i = 0; i < 2; i++) op_mutex(x, vf_choice(2)); }
extern "C" void vh_c01_mutex() {
  X<mutex> x; vf_go(th_mutex, &x); vf_go(th_mutex, &x); th_mutex(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "the mutex is free at the end"); x.m.unlock();
}
extern "C" void vh_c01_try_seq() {
  mutex m; int own = 0;
  for (int i = 0; i < 4; i++) { if (own) { if (vf_bool()) { m.unlock(); own = 0; } else vf_assert(!m.try_lock(), "try_lock of an owned mutex"); } else { vf_assert(m.try_lock(), "try_lock of a free mutex"); own = 1; } vf_assert(vf_owned(m.native_handle()) == own, "owner"); }
  if (own) m.unlock();
  timed_mutex t; vf_assert(t.try_lock(), "timed: free"); vf_assert(!t.try_lock(), "timed: owned"); vf_assert(!t.try_lock_for(chrono::seconds(-1)), "past"); vf_assert(!t.timed_lock(posix_time::milliseconds(5)), "timed"); t.unlock(); vf_assert(t.try_lock_for(chrono::seconds(-1)), "a free mutex is acquired although the deadline has passed"); t.unlock(); t.lock(); t.unlock();
  vf_reach("end");
}
// returns false if a timed attempt failed
static void op_timed(X<timed_mutex>* x, int op, bool past, long fut = 150) {
  long d = past ? -50 : fut, dl = (op == 3 ? 5000000 : op == 4 || op == 6 ? 1000000000L : gh_ms(1)) + d; gh_begin(&x->a); bool r; int clk = 1; // ms
  switch (op) {
  case 0: x->m.lock(); r = true; clk = -1; break;
  case 1: r = x->m.try_lock(); clk = -1; if (!r) vf_reach("try failed"); break;
  case 2: r = x->m.try_lock_for(chrono::milliseconds(d)); break;
  case 3: r = x->m.try_lock_until(chrono::steady_clock::time_point(chrono::milliseconds(5000000 + d))); break;
  case 4: r = x->m.try_lock_until(chrono::system_clock::time_point(chrono::milliseconds(1000000000L + d))); clk = 0; break;
  case 5: r = x->m.timed_lock(posix_time::milliseconds(d)); break;
  default: r = x->m.timed_lock(posix_time::from_time_t(1000000) + posix_time::milliseconds(d)); clk = 0; break;
  }
  if (r) { if (clk >= 0 && past) vf_reach("past deadline ok"); if (clk >= 0 && !past) vf_reach_if(gh_seen(&x->a) != 0 , "timed ok after waiting"); if (clk >= 0 && !x->timeouts) vf_reach_if(gh_seen(&x->a) != 0, "waited"); got(x); }
  else {
    vf_assert(gh_seen(&x->a) != 0, "a timed or try attempt failed on a free mutex");
    if (clk >= 0) { vf_reach("timed failed"); vf_assert(gh_after(clk, dl), "a timed attempt failed before its deadline"); } }
  gh_end(&x->a);
}
static void th_timed(X<timed_mutex>* x) { op_timed(x, vf_choice(7), vf_bool()); }
extern "C" void vh_c01_timed() {
  X<timed_mutex> x; vf_go(th_timed, &x); th_timed(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "the mutex is free at the end"); x.m.unlock();
}
static void th_timed_w(X<timed_mutex>* x) { static const int ops[] = {0, 2, 3, 4}; op_timed(x, ops[vf_choice(4)], false); }
extern "C" void vh_c01_timed_wake() {
  vf_cfg_timeouts = 0; X<timed_mutex> x; x.timeouts = false; vf_go(th_timed_w, &x); vf_go(th_timed_w, &x); th_timed_w(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "the mutex is free at the end"); x.m.unlock();
}
static void th_timed3(X<timed_mutex>* x) { static const int ops[] = {0, 3, 4}; op_timed(x, ops[vf_choice(3)], false, 80); }
extern "C" void vh_c01_timed3() {
  X<timed_mutex> x; vf_go(th_timed3, &x); vf_go(th_timed3, &x); th_timed3(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "the mutex is free at the end"); x.m.unlock();
}
