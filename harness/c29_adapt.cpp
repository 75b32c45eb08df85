// C29: lockable adapters.
// ENTRY vh_c29_poly | props=C29 | weight=2 | reach=end;thrown | bound=every operation of the polymorphic adapters through the base class, symbolic 64-bit deadline, every answer of the lockable
// ENTRY vh_c29_adapt | props=C29 | weight=2 | reach=end;thrown | bound=every operation of the lockable adapters, symbolic 64-bit deadline, every answer of the lockable
// ENTRY vh_c29_null | props=C29 | reach=end | bound=every operation of null_mutex, in any state
// ENTRY vh_c29_test | props=C29 | weight=2 | reach=end | bound=testable_mutex over a lockable with arbitrary answers, 3 operations
// ENTRY vh_c29_own | props=C29 | weight=2 | reach=end;mine;other | bound=testable_mutex<mutex> and <timed_mutex>, 2 threads with 2 operations each, the owner asked for at every step
// ENTRY vh_c29_own3 | props=C29 | weight=3 | tier=thorough | reach=end;mine;other | bound=the same with 3 threads
// ENTRY vh_c29_race | props=C29,C40 | reach=end | bound=2 threads through testable_mutex and lockable_adapter
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/poly_lockable.hpp>
#include <boost/thread/detail/delete.hpp>
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/is_locked_by_this_thread.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/null_mutex.hpp>
#include <boost/thread/lock_guard.hpp>
using namespace boost;
namespace boost { inline basic_poly_lockable::~basic_poly_lockable() {} inline poly_lockable::~poly_lockable() {} inline timed_poly_lockable::~timed_poly_lockable() {} inline shared_poly_lockable::~shared_poly_lockable() {} inline upgrade_poly_lockable::~upgrade_poly_lockable() {} }
struct E {};
enum { Lock, Unlock, Try, Until, UntilSys, For, LockS, UnlockS, TryS, UntilS, UntilSysS, ForS, LockU, UnlockU, TryU, UntilU, UntilSysU, ForU, SX, SXuntil, SXuntilSys, SXfor, XS, SU, SUuntil, SUuntilSys, SUfor, XU, UX, TryUX, UXuntil, UXuntilSys, UXfor, US, N };
struct Log { int n, op, thr; long arg; bool res, can; }; static Log G;
typedef chrono::steady_clock::time_point St; typedef chrono::system_clock::time_point Sy; typedef chrono::nanoseconds Ns;
static bool hit(int op, long a, bool b) { G.n++; G.op = op; G.arg = a; if (G.can && vf_bool()) { G.thr = 1; throw E(); } G.res = b ? vf_bool() : false; return G.res; }
struct M {
#define V(name, op) void name() { hit(op, 0, false); }
#define B(name, op) bool name() { return hit(op, 0, true); }
#define T(name, op) bool name##_until(St const& t) { return hit(op, (long)t.time_since_epoch().count(), true); } bool name##_until(Sy const& t) { return hit(op + 1, (long)t.time_since_epoch().count(), true); } bool name##_for(Ns const& d) { return hit(op + 2, (long)d.count(), true); }
  V(lock, Lock) V(unlock, Unlock) B(try_lock, Try) T(try_lock, Until) V(lock_shared, LockS) V(unlock_shared, UnlockS) B(try_lock_shared, TryS) T(try_lock_shared, UntilS) V(lock_upgrade, LockU) V(unlock_upgrade, UnlockU) B(try_lock_upgrade, TryU) T(try_lock_upgrade, UntilU)
  B(try_unlock_shared_and_lock, SX) T(try_unlock_shared_and_lock, SXuntil) V(unlock_and_lock_shared, XS) B(try_unlock_shared_and_lock_upgrade, SU) T(try_unlock_shared_and_lock_upgrade, SUuntil) V(unlock_and_lock_upgrade, XU) V(unlock_upgrade_and_lock, UX) B(try_unlock_upgrade_and_lock, TryUX) T(try_unlock_upgrade_and_lock, UXuntil) V(unlock_upgrade_and_lock_shared, US) };
static void clr() { G.n = G.op = G.thr = 0; G.arg = 0; G.res = false; G.can = true; }
template <class P> static bool call(P& p, int k, long a) { St st((St::duration(a))); Sy sy((Sy::duration(a))); Ns d(a);
  switch (k) {
#define T3(op, name) case op: return p.name##_until(st); case op + 1: return p.name##_until(sy); case op + 2: return p.name##_for(d);
    case Lock: p.lock(); return false; case Unlock: p.unlock(); return false; case Try: return p.try_lock(); T3(Until, try_lock) case LockS: p.lock_shared(); return false; case UnlockS: p.unlock_shared(); return false; case TryS: return p.try_lock_shared(); T3(UntilS, try_lock_shared)
    case LockU: p.lock_upgrade(); return false; case UnlockU: p.unlock_upgrade(); return false; case TryU: return p.try_lock_upgrade(); T3(UntilU, try_lock_upgrade) case SX: return p.try_unlock_shared_and_lock(); T3(SXuntil, try_unlock_shared_and_lock) case XS: p.unlock_and_lock_shared(); return false; case SU: return p.try_unlock_shared_and_lock_upgrade(); T3(SUuntil, try_unlock_shared_and_lock_upgrade)
    case XU: p.unlock_and_lock_upgrade(); return false; case UX: p.unlock_upgrade_and_lock(); return false; case TryUX: return p.try_unlock_upgrade_and_lock(); T3(UXuntil, try_unlock_upgrade_and_lock) default: p.unlock_upgrade_and_lock_shared(); return false; } }
static bool timed(int k) { return (k >= Until && k <= For) || (k >= UntilS && k <= ForS) || (k >= UntilU && k <= ForU) || (k >= SXuntil && k <= SXfor) || (k >= SUuntil && k <= SUfor) || (k >= UXuntil && k <= UXfor); }
template <class P> static void fwd(P& p) { int k = vf_pick(N); long a = (long)vf_nondet(64); clr(); bool r = false, ex = false; try { r = call(p, k, a); } catch (E&) { ex = true; } vf_assert(G.n == 1 && G.op == k, "the operation asked for, and only it, is performed on the lockable"); if (timed(k)) vf_assert(G.arg == a, "with the same deadline"); vf_assert(ex == (G.thr == 1), "its exception is passed on"); if (ex) { vf_reach("thrown"); return; } vf_assert(r == G.res, "its result is passed on"); vf_reach("end"); }
extern "C" void vh_c29_poly() { poly_upgrade_lockable_adapter<M, upgrade_poly_lockable> a; if (vf_pick(2)) { upgrade_poly_lockable& b = a; fwd(b); } else fwd(a); }
extern "C" void vh_c29_adapt() { upgrade_lockable_adapter<M> a; if (vf_pick(2)) { const upgrade_lockable_adapter<M>& b = a; fwd(b); } else fwd(a); }
extern "C" void vh_c29_null() { null_mutex m; for (int i = 0; i < 2; i++) { int k = vf_pick(N); long a = (long)vf_nondet(64); bool r = call(m, k, a); bool v = k == Lock || k == Unlock || k == LockS || k == UnlockS || k == LockU || k == UnlockU || k == XS || k == XU || k == UX || k == US; vf_assert(r == !v, "every attempt on a null_mutex succeeds"); } vf_reach("end"); }
struct F { int x; void lock() { if (vf_bool()) throw E(); x = 1; } bool try_lock() { if (vf_bool()) throw E(); if (vf_bool()) return false; x = 1; return true; } void unlock() { vf_assert(x == 1, "unlocked while not owned"); x = 0; } F() : x(0) {}
  bool try_lock_for(Ns const& d) { vf_assert(d.count() == 7777, "the deadline is passed on"); return try_lock(); } bool try_lock_until(St const& d) { vf_assert(d.time_since_epoch().count() == 9999, "the deadline is passed on"); return try_lock(); } };
struct TM : testable_mutex<F> {};
extern "C" void vh_c29_test() { testable_mutex<F> t; bool own = false; for (int i = 0; i < 3; i++) { bool r = true, ex = false; int k = vf_pick(4); if (own) { t.unlock(); own = false; } else { try { switch (k) { case 0: t.lock(); break; case 1: r = t.try_lock(); break; case 2: r = t.try_lock_for(Ns(7777)); break; default: r = t.try_lock_until(St(Ns(9999))); } } catch (E&) { ex = true; } own = r && !ex; }
    vf_assert(t.is_locked_by_this_thread() == own && t.is_locked() == own && is_locked_by_this_thread(t) == own, "owner exactly while it owns"); vf_assert((t.get_id() == this_thread::get_id()) == own && (t.get_id() == thread::id()) == !own, "get_id"); } vf_reach("end"); }
struct X { testable_mutex<mutex> m; testable_mutex<timed_mutex> t; Own o; int k; X() { o.x = o.s = o.u = 0; } };
template <class Mx> static void step(X* x, Mx& m, int how) { vf_assert(!m.is_locked_by_this_thread(), "not the owner"); bool r = true; if (how) r = m.try_lock(); else m.lock(); if (r) { gh_x(&x->o); vf_assert(m.is_locked_by_this_thread() && m.is_locked() && m.get_id() == this_thread::get_id(), "the owner"); vf_reach("mine"); vf_sched(); vf_assert(m.is_locked_by_this_thread(), "the owner"); gh_rx(&x->o); m.unlock(); } else { vf_assert(!m.is_locked_by_this_thread(), "not the owner"); vf_reach("other"); } vf_assert(!m.is_locked_by_this_thread(), "not the owner"); }
static void w_own(X* x) { for (int i = 0; i < 2; i++) if (x->k) step(x, x->t, i); else step(x, x->m, i); }
static void w_ask(X* x) { vf_assert(!x->m.is_locked_by_this_thread() && !x->t.is_locked_by_this_thread(), "not the owner"); }
extern "C" void vh_c29_own() { vf_cfg_timeouts = 0; X x; x.k = vf_pick(2); thread a(w_own, &x); w_own(&x); a.join(); vf_assert(!x.m.is_locked() && !x.t.is_locked(), "free"); vf_reach("end"); }
extern "C" void vh_c29_own3() { vf_cfg_timeouts = 0; X x; x.k = vf_pick(2); thread a(w_own, &x), b(w_ask, &x); w_own(&x); a.join(); b.join(); vf_reach("end"); }
static int data; struct R { testable_mutex<mutex> m; lockable_adapter<mutex> l; int k; };
static void w_race(R* x) { if (x->k) { lock_guard<testable_mutex<mutex> > g(x->m); data++; } else { lock_guard<lockable_adapter<mutex> > g(x->l); data++; } x->m.is_locked_by_this_thread(); }
extern "C" void vh_c29_race() { vf_cfg_timeouts = 0; R x; x.k = vf_pick(2); data = 0; thread t(w_race, &x); w_race(&x); t.join(); vf_assert(data == 2, "both"); vf_reach("end"); }
