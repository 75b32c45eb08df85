// C02: recursive mutexes: ownership is counted.
// ENTRY vh_c02_rec | props=C02 | reach=try failed;nested;contended | bound=3 threads, recursive_mutex, 1 or 2 nested acquisitions each by lock or try_lock
// ENTRY vh_c02_rec3 | props=C02 | tier=thorough | reach=try failed;nested;contended | bound=3 threads, recursive_mutex, 1 to 3 nested acquisitions each by lock or try_lock
// ENTRY vh_c02_race | props=C02,C40 | reach=after waiting | bound=2 threads, recursive_timed_mutex, 1 acquisition each by any of the operations, all accesses checked for races
// ENTRY vh_c02_timed | props=C02,C03 | reach=timed failed;nested timed;after waiting | bound=2 threads, recursive_timed_mutex, up to 2 nested acquisitions each among lock, try_lock, try_lock_for, try_lock_until (steady, system), timed_lock; deadlines past or future; every time-out schedule
// ENTRY vh_c02_wake | props=C02 | reach=after waiting | bound=3 threads, recursive_timed_mutex, timed waits that never time out: they must be woken
// ENTRY vh_c02_seq | props=C02 | reach=end | bound=1 thread, 6 free operations, recursive_mutex and recursive_timed_mutex; another thread probes with try_lock after every operation
#include "vfh.h"
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/thread_time.hpp>
using namespace boost;
template <class M> struct X { M m; Act a; Own o; int data; X() : a(), o(), data(0) {} };
// the outermost acquisition has succeeded
template <class M> static void inside(X<M>* x) { gh_x(&x->o); int v = x->data; vf_sched(); x->data = v + 1; }
template <class M> static void leave(X<M>* x, int n) { for (int i = 0; i < n; i++) { if (i + 1 == n) gh_rx(&x->o); vf_sched(); x->m.unlock(); } }
template <int D> static void th_rec(X<recursive_mutex>* x) {
  gh_begin(&x->a); int depth = 1 + vf_choice(D), n = 0;
  for (int i = 0; i < depth; i++) {
    if (vf_bool()) { x->m.lock(); vf_reach_if(i == 0 && gh_seen(&x->a) != 0, "contended"); n++; }
    else if (x->m.try_lock()) n++;
    else { vf_assert(i == 0 || n == 0, "the owner's try_lock failed"); vf_assert(gh_seen(&x->a) != 0, "try_lock failed on a free mutex"); vf_reach("try failed"); continue; }
    if (n == 1) inside(x); else vf_reach("nested");
  }
  if (n) leave(x, n);
  gh_end(&x->a);
}
template <int D> static void rec() {
  X<recursive_mutex> x; vf_go(th_rec<D>, &x); vf_go(th_rec<D>, &x); th_rec<D>(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "free at the end"); x.m.unlock();
}
extern "C" void vh_c02_rec() { rec<2>(); }
extern "C" void vh_c02_rec3() { rec<3>(); }
template <class M> static bool timed(M& m, int op, long d, int* clk) {
  switch (op) {
  case 0: *clk = -1; m.lock(); return true;
  case 1: *clk = -1; return m.try_lock();
  case 2: *clk = 1; return m.try_lock_for(chrono::milliseconds(d));
  case 3: *clk = 1; return m.try_lock_until(chrono::steady_clock::time_point(chrono::milliseconds(5000000 + d)));
  case 4: *clk = 0; return m.try_lock_until(chrono::system_clock::time_point(chrono::milliseconds(1000000000L + d)));
  default: *clk = 1; return m.timed_lock(posix_time::milliseconds(d));
  }
}
static void op_timed(X<recursive_timed_mutex>* x, const int* ops, int nops, int depth, long fut, bool mayfail) {
  gh_begin(&x->a); int n = 0;
  for (int i = 0; i < depth; i++) {
    int op = ops[vf_choice(nops)], clk; long d = mayfail && vf_bool() ? -50 : fut, dl = (op == 3 ? 5000000 : op == 4 ? 1000000000L : gh_ms(1)) + d;
    bool r = timed(x->m, op, d, &clk);
    if (r) { n++; if (n == 1) { if (clk >= 0 && d > 0) vf_reach_if(gh_seen(&x->a) != 0, "after waiting"); inside(x); } else if (clk >= 0) vf_reach("nested timed"); }
    else { vf_assert(n == 0, "the owner's attempt failed"); vf_assert(gh_seen(&x->a) != 0, "an attempt failed on a free mutex"); if (clk >= 0) { vf_reach("timed failed"); vf_assert(gh_after(clk, dl), "a timed attempt failed before its deadline"); } }
  }
  if (n) leave(x, n);
  gh_end(&x->a);
}
static const int all[] = {0, 1, 2, 3, 4, 5}, some[] = {0, 3, 4};
static void th_timed(X<recursive_timed_mutex>* x) { op_timed(x, all, 6, 2, 80, true); }
extern "C" void vh_c02_timed() {
  X<recursive_timed_mutex> x; vf_go(th_timed, &x); th_timed(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "free at the end"); x.m.unlock();
}
static void th_race(X<recursive_timed_mutex>* x) { op_timed(x, all, 6, 1, 80, true); }
static void th_race_rec(X<recursive_mutex>* x) { x->m.lock(); if (!x->m.try_lock()) vf_assert(false, "owner"); inside(x); leave(x, 2); }
extern "C" void vh_c02_race() {
  if (vf_bool()) { X<recursive_mutex> y; vf_go(th_race_rec, &y); th_race_rec(&y); vf_joinall(); return; }
  X<recursive_timed_mutex> x; vf_go(th_race, &x); th_race(&x); vf_joinall();
}
static void th_wake(X<recursive_timed_mutex>* x) { op_timed(x, some, 3, 2, 80, false); }
extern "C" void vh_c02_wake() {
  vf_cfg_timeouts = 0; X<recursive_timed_mutex> x; vf_go(th_wake, &x); vf_go(th_wake, &x); th_wake(&x); vf_joinall();
  vf_assert(x.m.try_lock(), "free at the end"); x.m.unlock();
}
template <class M> struct P { M* m; int ok; };
template <class M> static void th_probe(P<M>* p) { bool r = p->m->try_lock(); if (r) p->m->unlock(); gh_set(&p->ok, r); }
template <class M> static void seq() {
  M m; int n = 0;
  for (int i = 0; i < 5; i++) {
    int op = vf_choice(3);
    if (op == 0) { if (n) { m.unlock(); n--; } } else if (op == 1) { m.lock(); n++; } else { vf_assert(m.try_lock(), "try_lock by the owner or of a free mutex"); n++; }
  }
  P<M> p = {&m, -1}; vf_go(th_probe<M>, &p); vf_joinall(); vf_assert(gh_get(&p.ok) == (n == 0), "another thread can lock exactly after as many unlocks as acquisitions");
  while (n) { m.unlock(); n--; if (n == 0 || n == 1) { vf_go(th_probe<M>, &p); vf_joinall(); vf_assert(gh_get(&p.ok) == (n == 0), "free exactly at the last unlock"); } }
}
extern "C" void vh_c02_seq() { if (vf_bool()) seq<recursive_mutex>(); else seq<recursive_timed_mutex>(); vf_reach("end"); }
