// C03: timed operations given infinite, undefined or very distant posix_time values.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
// ENTRY vh_c03_special | props=C03 | weight=3 | reach=refused;got after waiting | bound=1 thread attempting, 1 owning: timed_lock forms of timed_mutex, recursive_timed_mutex, shared_mutex (exclusive, shared, upgrade) with durations of plus and minus infinity, undefined, 1000 years either way, and times of plus and minus infinity, 1400, 9999
// ENTRY vh_c03_special_free | props=C03 | reach=end | bound=the same attempts on a mutex nobody owns
// ENTRY vh_c03_special_v2 | props=C03,C07 | cflags=-DBOOST_THREAD_V2_SHARED_MUTEX=1 | reach=refused;got after waiting | bound=the same with the v2 shared mutex (upgrade_mutex)
// ENTRY vh_c23_special | props=C23 | reach=finished;timed out | bound=timed_join with these values, thread running or finished
// ENTRY vh_c10_special | props=C10 | reach=notified;timed out | bound=timed_wait with predicate with these values, both condition variables, a notification or none
#include "vfh.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#if BOOST_THREAD_V2_SHARED_MUTEX
#include <boost/thread/v2/shared_mutex.hpp>
#else
#include <boost/thread/shared_mutex.hpp>
#endif
#include <boost/thread/thread.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread_time.hpp>
using namespace boost; namespace pt = boost::posix_time;
#if BOOST_THREAD_V2_SHARED_MUTEX
typedef thread_v2::upgrade_mutex SM;
#else
typedef shared_mutex SM;
#endif
enum { NT = 9 };
static bool far(int t) { return t < 4; } // in the future, as opposed to the past
// a model clock may run on for the 292 years that nanoseconds can count
static bool ages() { return gh_ms(1) > 200L * 365 * 86400 * 1000; }
// calls f with the value of kind t
template <class F> static bool with(int t, F f) {
  switch (t) {
  case 0: return f(pt::time_duration(pt::pos_infin)); case 1: return f(pt::time_duration(pt::hours(24L * 365 * 1000)));
  case 2: return f(system_time(pt::pos_infin)); case 3: return f(system_time(gregorian::date(9999, 12, 31)));
  case 4: return f(pt::time_duration(pt::neg_infin)); case 5: return f(pt::time_duration(pt::not_a_date_time)); case 6: return f(pt::time_duration(pt::hours(-24L * 365 * 1000)));
  case 7: return f(system_time(pt::neg_infin)); default: return f(system_time(gregorian::date(1400, 1, 1))); } }
struct Ms { timed_mutex a; recursive_timed_mutex b; SM c; };
static int first();
#if BOOST_THREAD_V2_SHARED_MUTEX
static int first() { return 2; }
#else
static int first() { return 0; }
#endif
template <class T> static bool att(Ms& m, int k, T const& v) { switch (k) { case 0: return m.a.timed_lock(v); case 1: return m.b.timed_lock(v); case 2: return m.c.timed_lock(v); case 3: return m.c.timed_lock_shared(v);
#if BOOST_THREAD_V2_SHARED_MUTEX
  default: return m.c.timed_lock_upgrade(v);
#else
  default: return m.c.timed_lock_upgrade(v);
#endif
 } }
static void give(Ms& m, int k) { switch (k) { case 0: m.a.unlock(); break; case 1: m.b.unlock(); break; case 2: m.c.unlock(); break; case 3: m.c.unlock_shared(); break; default: m.c.unlock_upgrade(); } }
static void own(Ms& m, int k) { switch (k) { case 0: m.a.lock(); break; case 1: m.b.lock(); break; default: m.c.lock(); } }
static void unown(Ms& m, int k) { give(m, k < 2 ? k : 2); }
// may another thread take it?
static bool taken(Ms& m, int k) { struct A { Ms* m; int k, r; static void f(A* a) { bool g = a->k == 0 ? a->m->a.try_lock() : a->k == 1 ? a->m->b.try_lock() : a->m->c.try_lock(); if (g) unown(*a->m, a->k); a->r = !g; } } a = {&m, k, 0}; vf_go(&A::f, &a); vf_joinall(); return a.r; }
struct S { Ms m; int k, t, rel, r; };
static void th(S* s) { bool r = with(s->t, [s](auto const& v) { return att(s->m, s->k, v); }); if (r) { vf_assert(gh_get(&s->rel), "acquired while another thread owns it"); vf_reach_if(far(s->t), "got after waiting"); give(s->m, s->k); } else { vf_assert(!far(s->t) || ages(), "a timed attempt failed before its deadline"); vf_reach("refused"); } }
static void contended() { vf_cfg_timeouts = 1; S s; s.rel = 0; s.k = first() + (int)vf_case(vf_choice(5 - first())); s.t = (int)vf_case(vf_choice(NT)); own(s.m, s.k); vf_go(th, &s); if (far(s.t) || vf_pick(2)) { vf_sched(); gh_set(&s.rel, 1); unown(s.m, s.k); vf_joinall(); } else { vf_joinall(); unown(s.m, s.k); } vf_assert(!taken(s.m, s.k), "nothing stays owned"); }
extern "C" void vh_c03_special() { contended(); }
extern "C" void vh_c03_special_v2() { contended(); }
extern "C" void vh_c03_special_free() { vf_cfg_timeouts = 1; S s; s.k = vf_pick(5); s.t = (int)vf_case(vf_choice(NT)); bool r = with(s.t, [&](auto const& v) { return att(s.m, s.k, v); }); vf_assert(r, "a free mutex is acquired whatever the deadline"); vf_assert(taken(s.m, s.k), "and owned"); give(s.m, s.k); vf_assert(!taken(s.m, s.k), "nothing stays owned"); vf_reach("end"); }
struct J { int stop, fin; }; static J gj; static void run_() { vf_await(&gj.stop, 1, 0, 0, 0, 0); gh_set(&gj.fin, 1); }
extern "C" void vh_c23_special() { vf_cfg_timeouts = 1; gj.stop = gj.fin = 0; int t = (int)vf_case(vf_choice(NT)); bool past = !far(t); int late = past && vf_pick(2); if (!late) gj.stop = 1; thread th(run_); bool r = with(t, [&](auto const& v) { return th.timed_join(v); });
  if (r) { vf_assert(gh_get(&gj.fin), "joined before the function has finished"); vf_assert(!th.joinable(), "joined"); vf_reach("finished"); } else { vf_assert(past || ages(), "a timed join failed before its deadline"); vf_assert(th.joinable(), "not joined"); vf_reach("timed out"); gj.stop = 1; th.join(); } }
template <class CV> struct W { mutex m; CV cv; bool b; W() : b(false) {} };
template <class CV> static void notif(W<CV>* w) { lock_guard<mutex> l(w->m); w->b = true; w->cv.notify_one(); }
template <class CV> static void waits() { vf_cfg_timeouts = 1; W<CV> w; int t = (int)vf_case(vf_choice(NT)); bool n = far(t) || vf_pick(2); if (n) vf_go(&notif<CV>, &w); { unique_lock<mutex> l(w.m); bool* b = &w.b; bool r = with(t, [&](auto const& v) { return w.cv.timed_wait(l, v, [b] { return *b; }); }); vf_assert(l.owns_lock() && vf_owned(w.m.native_handle()), "locked again"); vf_assert(r == w.b, "the value of the predicate"); if (!r) { vf_assert(!far(t) || ages(), "timed out before the deadline"); vf_reach("timed out"); } else vf_reach("notified"); } vf_joinall(); }
extern "C" void vh_c10_special() { if (vf_pick(2)) waits<condition_variable>(); else waits<condition_variable_any>(); }
