// C28: scoped lock helpers.
// ENTRY vh_c28_scope | props=C28 | weight=2 | reach=end;thrown;inner | bound=lock_guard, strict_lock, nested_strict_lock, shared_lock_guard, reverse_lock, with_lock_guard and all factories, every initial state of the lock, every answer of the mutex (at most 2 refusals), normal and exceptional exit
// ENTRY vh_c28_with | props=C28 | weight=2 | reach=end;thrown;inner | bound=with_lock_guard with 0 to 4 arguments, functors, function pointers and lambdas
// ENTRY vh_c28_pre | props=C28 | cflags=-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED | reach=end | bound=nested_strict_lock over a lock without a mutex
// ENTRY vh_c28_real | props=C28 | weight=2 | reach=end | bound=every helper over real mutexes against 1 other thread
// ENTRY vh_c28_race | props=C28,C40 | reach=end | bound=2 threads through lock_guard, strict_lock, reverse_lock, with_lock_guard
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/reverse_lock.hpp>
#ifdef VF_NV
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES
#endif
#include <boost/thread/with_lock_guard.hpp>
#ifdef VF_NV
#undef BOOST_NO_CXX11_VARIADIC_TEMPLATES
#endif
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/testable_mutex.hpp>
using namespace boost;
struct E {}; struct In {}; static int left;
struct M { int x, s, n, thr; bool can; M() : x(0), s(0), n(0), thr(0), can(true) {}
  void boom() { if (can && vf_bool()) { thr++; throw E(); } }
  void lock() { vf_assert(!x && !s, "locked while owned"); boom(); x = 1; n++; } bool try_lock() { vf_assert(!x && !s, "locked while owned"); boom(); if (left && vf_bool()) { left--; return false; } x = 1; n++; return true; }
  void unlock() { vf_assert(x == 1, "unlocked while not owned"); x = 0; }
  void lock_shared() { vf_assert(!x && !s, "locked while owned"); boom(); s = 1; n++; } void unlock_shared() { vf_assert(s == 1, "unlocked while not owned"); s = 0; } };
static void inner(M& m, int x, int s) { vf_assert(m.x == x && m.s == s, "the mutex is in the state the helper promises inside its scope"); vf_reach("inner"); if (vf_bool()) throw In(); }
extern "C" void vh_c28_scope() {
  left = 2; M m, o; int k = vf_pick(16), st = vf_pick(3), wx = 0, ws = 0, n = -1; bool in = false, ex = false; unique_lock<M> l; o.can = m.can = false; // st: no mutex, not owned, owned
  if (k >= 3 && k <= 6) { if (st == 1) l = unique_lock<M>(m, defer_lock); if (st == 2) l = unique_lock<M>(m); } else st = 0; m.n = 0; m.can = true;
  try { switch (k) {
    case 0: { n = 1; lock_guard<M> g(m); inner(m, 1, 0); break; }
    case 1: { m.x = 1; n = 0; lock_guard<M> g(m, adopt_lock); inner(m, 1, 0); break; }
    case 2: { n = 1; strict_lock<M> g(m); vf_assert(g.owns_lock() && g.mutex() == &m && g.owns_lock(&m) && !g.owns_lock(&o), "strict_lock"); inner(m, 1, 0); break; }
    case 3: { if (!st) return; n = st == 1; wx = 1; nested_strict_lock<unique_lock<M> > g(l); vf_assert(g.owns_lock() && g.mutex() == &m && g.owns_lock(&m) && !g.owns_lock(&o) && l.mutex() == 0 && !l.owns_lock(), "nested_strict_lock"); inner(m, 1, 0); break; }
    case 4: { if (!st) return; n = st == 1; wx = 1; auto&& g = make_nested_strict_lock(l); vf_assert(g.owns_lock(&m) && l.mutex() == 0 && !l.owns_lock(), "nested_strict_lock"); inner(m, 1, 0); break; }
    case 5: case 6: { m.can = false; n = st ? 1 : 0; wx = st ? 1 : 0; reverse_lock<unique_lock<M> > g(l); vf_assert(l.mutex() == 0 && !l.owns_lock(), "the lock cannot be used inside the scope"); if (k == 6 && vf_pick(2)) { lock_guard<M> h(m); n++; inner(m, 1, 0); } inner(m, 0, 0); break; }
    case 7: { n = 1; shared_lock_guard<M> g(m); inner(m, 0, 1); break; }
    case 8: { m.s = 1; n = 0; shared_lock_guard<M> g(m, adopt_lock); inner(m, 0, 1); break; }
    case 9: { n = 1; auto&& g = make_lock_guard(m); (void)g; inner(m, 1, 0); break; }
    case 10: { m.x = 1; n = 0; auto&& g = make_lock_guard(m, adopt_lock); (void)g; inner(m, 1, 0); break; }
    case 11: { n = 1; auto&& g = make_strict_lock(m); vf_assert(g.owns_lock(&m), "strict_lock"); inner(m, 1, 0); break; }
    case 12: { n = 1; unique_lock<M> g(make_unique_lock(m)); vf_assert(g.owns_lock() && g.mutex() == &m, "make_unique_lock"); inner(m, 1, 0); break; }
    case 13: { n = 0; if (vf_pick(2)) { m.x = 1; unique_lock<M> g(make_unique_lock(m, adopt_lock)); vf_assert(g.owns_lock() && g.mutex() == &m, "make_unique_lock"); inner(m, 1, 0); } else { unique_lock<M> g(make_unique_lock(m, defer_lock)); vf_assert(!g.owns_lock() && g.mutex() == &m, "make_unique_lock"); inner(m, 0, 0); } break; }
    case 14: { unique_lock<M> g(make_unique_lock(m, try_to_lock)); vf_assert(g.mutex() == &m && g.owns_lock() == (m.n == 1), "make_unique_lock"); n = m.n; inner(m, n, 0); break; }
    default: { o.can = true; std::tuple<unique_lock<M>, unique_lock<M> > g(make_unique_locks(m, o)); vf_assert(std::get<0>(g).mutex() == &m && std::get<1>(g).mutex() == &o && std::get<0>(g).owns_lock() && std::get<1>(g).owns_lock() && o.x == 1, "make_unique_locks"); n = m.n; inner(m, 1, 0); } } }
  catch (In&) { in = true; } catch (E&) { ex = true; }
  vf_assert(ex == (m.thr + o.thr != 0), "an exception of the mutex is passed on"); vf_assert(!o.x, "nothing else stays locked");
  if (ex) { vf_assert(m.x == 0 && m.s == 0 && l.mutex() == (st ? &m : 0), "a helper that could not lock changes nothing"); vf_reach("thrown"); return; }
  vf_assert(m.n == n && m.x == wx && m.s == ws, "the state of the mutex is restored exactly once"); vf_assert(l.owns_lock() == (wx == 1) && l.mutex() == (st ? &m : 0), "the lock handed in has its mutex back"); vf_reach("end"); }
static M* gm; static int f0() { inner(*gm, 1, 0); return 7; } static int f1(int a) { inner(*gm, 1, 0); return a; } static int f2(int a, int& b) { inner(*gm, 1, 0); b = a; return a; } static int f3(int a, int b, int c) { inner(*gm, 1, 0); return a + b + c; } static int f4(int a, int b, int c, int d) { inner(*gm, 1, 0); return a + b + c + d; }
struct Fo { typedef int result_type; int operator()() { return f0(); } int operator()(int a) { return f1(a); } int operator()(int a, int b) { return f3(a, b, 0); } };
#ifdef VF_NV
#define vh_c28_with vh_c28_with_nv
#endif
extern "C" void vh_c28_with() { M m; gm = &m; int k = vf_pick(9), r = 0, w = 7, b = 0; bool in = false, ex = false; Fo fo;
  try { switch (k) { case 0: r = with_lock_guard(m, f0); break; case 1: w = 5; r = with_lock_guard(m, f1, 5); break; case 2: w = 6; r = with_lock_guard(m, f2, 6, boost::ref(b)); vf_assert(b == 6, "by reference"); break; case 3: w = 6; r = with_lock_guard(m, f3, 1, 2, 3); break; case 4: w = 10; r = with_lock_guard(m, f4, 1, 2, 3, 4); break;
    case 5: r = with_lock_guard(m, fo); break; case 6: w = 4; r = with_lock_guard(m, Fo(), 4); break; case 7: w = 9; r = with_lock_guard(m, fo, 4, 5); break; default: w = 12; r = with_lock_guard(m, [&](int q) { inner(m, 1, 0); return q + 4; }, 8); } }
  catch (In&) { in = true; } catch (E&) { ex = true; }
  vf_assert(ex == (m.thr != 0), "an exception of the mutex is passed on"); vf_assert(m.x == 0 && m.n == (ex ? 0 : 1), "locked and unlocked exactly once"); if (ex) { vf_reach("thrown"); return; } if (!in) vf_assert(r == w, "the result is passed on"); vf_reach("end"); }
extern "C" void vh_c28_pre() {
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
  unique_lock<M> l; bool err = false; try { if (vf_pick(2)) { nested_strict_lock<unique_lock<M> > g(l); } else { auto&& g = make_nested_strict_lock(l); (void)g; } } catch (lock_error&) { err = true; } vf_assert(err, "lock_error"); vf_assert(!l.owns_lock() && l.mutex() == 0, "unchanged"); vf_reach("end");
#endif
}
struct X { mutex m; shared_mutex s; testable_mutex<mutex> t; Own o; int k, d; };
static void crit(X* x) { gh_x(&x->o); x->d++; vf_sched(); gh_rx(&x->o); }
static void use(X* x, bool thr) { try { switch (x->k) {
    case 0: { lock_guard<mutex> g(x->m); crit(x); if (thr) throw In(); break; }
    case 1: { x->m.lock(); lock_guard<mutex> g(x->m, adopt_lock); crit(x); break; }
    case 2: { strict_lock<mutex> g(x->m); crit(x); if (thr) throw In(); break; }
    case 3: { unique_lock<mutex> l(x->m, defer_lock); { nested_strict_lock<unique_lock<mutex> > g(l); crit(x); } vf_assert(l.owns_lock(), "owned"); crit(x); break; }
    case 4: { shared_lock_guard<shared_mutex> g(x->s); gh_s(&x->o); vf_sched(); gh_rs(&x->o); if (thr) throw In(); break; }
    case 5: { unique_lock<mutex> l(x->m); crit(x); try { reverse_lock<unique_lock<mutex> > g(l); vf_sched(); if (thr) throw In(); } catch (In&) {} vf_assert(l.owns_lock(), "owned"); crit(x); break; }
    case 6: with_lock_guard(x->m, [&]() { crit(x); if (thr) throw In(); return 0; }); break;
    default: { lock_guard<testable_mutex<mutex> > g(x->t); vf_assert(x->t.is_locked_by_this_thread(), "owner"); crit(x); } } } catch (In&) {} }
static void w_real(X* x) { if (x->k == 4) { lock_guard<shared_mutex> g(x->s); crit(x); } else use(x, false); }
extern "C" void vh_c28_real() { vf_cfg_timeouts = 0; X x; x.o.x = x.o.s = x.o.u = 0; x.k = vf_pick(8); thread th(w_real, &x); use(&x, vf_bool()); th.join(); vf_assert(vf_held(0) == 0, "everything is released"); vf_assert(x.m.try_lock() && x.s.try_lock() && x.t.try_lock(), "free"); x.m.unlock(); x.s.unlock(); x.t.unlock(); vf_reach("end"); }
static int data;
static void w_race(X* x) { switch (x->k) { case 0: { lock_guard<mutex> g(x->m); data++; break; } case 1: { strict_lock<mutex> g(x->m); data++; break; } case 2: { unique_lock<mutex> l(x->m); data++; { reverse_lock<unique_lock<mutex> > g(l); } data--; data++; break; } default: with_lock_guard(x->m, [&]() { return data++; }); } }
extern "C" void vh_c28_race() { vf_cfg_timeouts = 0; X x; x.k = vf_pick(4); data = 0; vf_go(w_race, &x); w_race(&x); vf_joinall(); vf_assert(data == 2, "both"); vf_reach("end"); }
