// C26: unique_lock, shared_lock, upgrade_lock, upgrade_to_unique_lock over a mutex with arbitrary answers.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
// ENTRY vh_c26_unique | props=C26 | weight=3 | reach=end | bound=2 unique_locks over 2 mutexes in every state, 1 operation of 14 kinds (all constructors, lock, try, timed, unlock, release, moves, swaps), then destruction; every answer of the mutex, exceptions included
// ENTRY vh_c26_shared | props=C26 | weight=3 | reach=end | bound=the same for 2 shared_locks
// ENTRY vh_c26_upgrade | props=C26 | weight=3 | reach=end | bound=the same for 2 upgrade_locks
// ENTRY vh_c26_unique2 | props=C26 | tier=thorough | reach=end | bound=2 unique_locks, 2 operations in a row
// ENTRY vh_c26_shared2 | props=C26 | tier=thorough | reach=end | bound=2 shared_locks, 2 operations in a row
// ENTRY vh_c26_upgrade2 | props=C26 | tier=thorough | reach=end | bound=2 upgrade_locks, 2 operations in a row
// ENTRY vh_c26_conv | props=C26 | weight=3 | reach=end | bound=all 13 conversions between the three lock types (constructors and assignments, try, timed) from every state of the source, every answer of the mutex
// ENTRY vh_c26_up | props=C26 | reach=end | bound=upgrade_to_unique_lock over an upgrade_lock in every state: scope, move, swap; conversions of a lock whose mutex throws
// ENTRY vh_c26_real | props=C26 | reach=end | bound=unique_lock over mutex, timed_mutex, recursive_mutex and all three over shared_mutex, against 1 other thread
// ENTRY vh_c26_race | props=C26,C40 | reach=end | bound=2 threads locking one mutex with moved and swapped unique_locks
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
using namespace boost;
struct E {};
struct MM {
  int o[3]; long arg; bool thrown; // owners: exclusive, shared, upgrade
  MM() : arg(0), thrown(false) { o[0] = o[1] = o[2] = 0; }
  bool can(int k) { return o[0] == 0 && (k == 1 || o[2] == 0) && (k != 0 || o[1] == 0); }
  void get(int k) { vf_assume(can(k)); if (vf_bool()) { thrown = true; throw E(); } o[k]++; }
  bool tr(int k) { if (vf_bool()) { thrown = true; throw E(); } if (!can(k) || vf_bool()) return false; o[k]++; return true; }
  bool trt(int k, long a) { arg = a; return tr(k); }
  void rel(int k) { vf_assert(o[k] > 0, "ownership released that is not held"); o[k]--; }
  bool cv(int a, int b, bool must) { vf_assert(o[a] > 0, "conversion of ownership that is not held"); o[a]--; bool r = can(b) && (must || vf_bool()); if (must) vf_assume(r); o[r ? b : a]++; return r; }
  template <class D> static long ms(D d) { return (long)chrono::duration_cast<chrono::milliseconds>(d).count(); }
  static long pt(posix_time::time_duration d) { return (long)d.total_milliseconds(); }
  void lock() { get(0); } bool try_lock() { return tr(0); } void unlock() { rel(0); }
  bool timed_lock(posix_time::time_duration const& d) { return trt(0, pt(d)); } bool timed_lock(system_time const& t) { return trt(0, pt(t - base())); }
  template <class R, class P> bool try_lock_for(chrono::duration<R, P> const& d) { return trt(0, ms(d)); } template <class C, class D> bool try_lock_until(chrono::time_point<C, D> const& t) { return trt(0, ms(t.time_since_epoch())); }
  void lock_shared() { get(1); } bool try_lock_shared() { return tr(1); } void unlock_shared() { rel(1); }
  bool timed_lock_shared(posix_time::time_duration const& d) { return trt(1, pt(d)); } bool timed_lock_shared(system_time const& t) { return trt(1, pt(t - base())); }
  template <class R, class P> bool try_lock_shared_for(chrono::duration<R, P> const& d) { return trt(1, ms(d)); } template <class C, class D> bool try_lock_shared_until(chrono::time_point<C, D> const& t) { return trt(1, ms(t.time_since_epoch())); }
  void lock_upgrade() { get(2); } bool try_lock_upgrade() { return tr(2); } void unlock_upgrade() { rel(2); }
  bool timed_lock_upgrade(posix_time::time_duration const& d) { return trt(2, pt(d)); } bool timed_lock_upgrade(system_time const& t) { return trt(2, pt(t - base())); }
  template <class R, class P> bool try_lock_upgrade_for(chrono::duration<R, P> const& d) { return trt(2, ms(d)); } template <class C, class D> bool try_lock_upgrade_until(chrono::time_point<C, D> const& t) { return trt(2, ms(t.time_since_epoch())); }
  void unlock_and_lock_shared() { cv(0, 1, true); } void unlock_and_lock_upgrade() { cv(0, 2, true); } void unlock_upgrade_and_lock_shared() { cv(2, 1, true); } void unlock_upgrade_and_lock() { cv(2, 0, true); }
  bool try_unlock_upgrade_and_lock() { return cv(2, 0, false); } bool try_unlock_shared_and_lock() { return cv(1, 0, false); } bool try_unlock_shared_and_lock_upgrade() { return cv(1, 2, false); }
  template <class T> bool try_unlock_upgrade_and_lock_for(T const& d) { arg = ms(d); return cv(2, 0, false); } template <class T> bool try_unlock_upgrade_and_lock_until(T const& d) { arg = ms(d.time_since_epoch()); return cv(2, 0, false); }
  template <class T> bool try_unlock_shared_and_lock_for(T const& d) { arg = ms(d); return cv(1, 0, false); } template <class T> bool try_unlock_shared_and_lock_until(T const& d) { arg = ms(d.time_since_epoch()); return cv(1, 0, false); }
  template <class T> bool try_unlock_shared_and_lock_upgrade_for(T const& d) { arg = ms(d); return cv(1, 2, false); } template <class T> bool try_unlock_shared_and_lock_upgrade_until(T const& d) { arg = ms(d.time_since_epoch()); return cv(1, 2, false); }
  static system_time base() { return system_time(gregorian::date(2020, 1, 1)); }
};
static MM M[2];
struct Ob { int m; bool own; }; // what an object should say
template <class L> static void same(L& l, Ob e) { vf_assert(l.mutex() == (e.m < 0 ? 0 : &M[e.m]), "mutex() is the associated mutex"); vf_assert(l.owns_lock() == e.own, "owns_lock equals the ownership really held"); vf_assert(bool(l) == e.own && !l == !e.own, "bool equals owns_lock"); }
static chrono::time_point<chrono::steady_clock, chrono::milliseconds> tp() { return chrono::time_point<chrono::steady_clock, chrono::milliseconds>(chrono::milliseconds(777)); }
// the timed operations that take date-time arguments do not exist for upgrade_lock
template <class L> struct Dt { static L* mk(void* p, int i, int w) { return w == 7 ? new (p) L(M[i], posix_time::milliseconds(555)) : new (p) L(M[i], MM::base() + posix_time::milliseconds(888)); } static bool op(L& l, int w) { return w == 4 ? l.timed_lock(posix_time::milliseconds(555)) : l.timed_lock(MM::base() + posix_time::milliseconds(888)); } };
template <> struct Dt<shared_lock<MM> > { typedef shared_lock<MM> L; static L* mk(void* p, int i, int w) { return w == 7 ? new (p) L(M[i], chrono::milliseconds(555)) : new (p) L(M[i], MM::base() + posix_time::milliseconds(888)); } static bool op(L& l, int w) { return w == 4 ? l.timed_lock(posix_time::milliseconds(555)) : l.timed_lock(MM::base() + posix_time::milliseconds(888)); } };
template <> struct Dt<upgrade_lock<MM> > { typedef upgrade_lock<MM> L; static L* mk(void* p, int i, int w) { return w == 7 ? new (p) L(M[i], chrono::milliseconds(555)) : new (p) L(M[i], tp() + chrono::milliseconds(111)); } static bool op(L& l, int w) { return w == 4 ? l.try_lock_for(chrono::milliseconds(555)) : l.try_lock_until(tp() + chrono::milliseconds(111)); } };
template <class L> static L* mk(void* p, int i, int w) { switch (w) { case 0: return new (p) L(); case 1: return new (p) L(M[i], defer_lock); case 2: return new (p) L(M[i], adopt_lock); case 3: return new (p) L(M[i]); case 4: return new (p) L(M[i], try_to_lock); case 5: return new (p) L(M[i], chrono::milliseconds(555)); case 6: return new (p) L(M[i], tp()); default: return Dt<L>::mk(p, i, w); } }
template <class L> union Box { char c[sizeof(L)]; void* a; };
template <class L> struct Lk { L* l; Box<L> b; void* raw() { return b.c; } };
static void counts(int k, Ob* e) { for (int i = 0; i < 2; i++) { int n = (e[0].own && e[0].m == i) + (e[1].own && e[1].m == i); for (int q = 0; q < 3; q++) vf_assert(M[i].o[q] == (q == k ? n : 0), "the ownership of the mutex is that of its lock objects"); } }
static void want(int w, MM& m) { if (w == 5) vf_assert(m.arg == 555, "the duration is passed on"); if (w == 6) vf_assert(m.arg == 777, "the deadline is passed on"); if (w == 7) vf_assert(m.arg == 555, "the duration is passed on"); if (w == 8) vf_assert(m.arg == 888, "the deadline is passed on"); }
template <class L> static void build(L* l, Ob& e, int K, int st, int mi) { e.m = -1; e.own = false; if (st == 0) { mk<L>(l, 0, 0); return; } e.m = mi; if (st == 1) mk<L>(l, mi, 1); else { vf_assume(M[mi].can(K)); M[mi].o[K]++; mk<L>(l, mi, 2); e.own = true; } }
template <class L> static void op(L* l, Ob* e, int K) {
  int i = vf_pick(2), j = 1 - i; L& a = l[i]; L& b = l[j]; int w = vf_pick(14); bool err = false, ex = false; int code = 0; bool r = true;
  M[0].thrown = M[1].thrown = false;
  try { switch (w) {
    case 0: a.lock(); break; case 1: r = a.try_lock(); break; case 2: r = a.try_lock_for(chrono::milliseconds(555)); break; case 3: r = a.try_lock_until(tp()); break; case 4: case 5: r = Dt<L>::op(a, w); break;
    case 6: a.unlock(); break;
    case 7: { MM* m = a.release(); vf_assert(m == (e[i].m < 0 ? 0 : &M[e[i].m]), "release returns the mutex"); if (e[i].own) M[e[i].m].rel(K); e[i].m = -1; e[i].own = false; break; }
    case 8: { L t(boost::move(a)); same(t, e[i]); Ob z = {-1, false}; same(a, z); a = boost::move(t); same(t, z); break; }
    case 9: a = boost::move(b); e[i] = e[j]; e[j].m = -1; e[j].own = false; break;
    case 10: { if (vf_pick(2)) a.swap(b); else swap(a, b); Ob z = e[i]; e[i] = e[j]; e[j] = z; break; }
    case 11: { if (e[i].own) break; int c = vf_pick(9), mi = vf_pick(2); a.~L(); mk<L>(&a, 0, 0); e[i].m = -1; if (c == 2) { vf_assume(M[mi].can(K)); M[mi].o[K]++; }
      Box<L> q; int before = M[mi].o[K]; M[mi].arg = 0; L* t = 0; try { t = mk<L>(q.c, mi, c); } catch (E&) { vf_assert(M[mi].thrown && M[mi].o[K] == before, "a constructor that throws owns nothing"); break; } Ob z = {c ? mi : -1, c == 2 || c == 3 || (c >= 4 && M[mi].o[K] == before + 1)}; same(*t, z); if (c) want(c, M[mi]); a = boost::move(*t); e[i] = z; t->~L(); break; }
    case 12: { if (e[i].own) { a.~L(); vf_assert(M[e[i].m].o[K] == (e[j].own && e[j].m == e[i].m), "destruction releases the ownership once"); mk<L>(&a, 0, 0); e[i].m = -1; e[i].own = false; } break; }
    default: a = L(); e[i].m = -1; e[i].own = false; } }
  catch (lock_error& q) { err = true; code = q.native_error(); } catch (E&) { ex = true; }
  if (w < 7) { bool none = e[i].m < 0, lock = w < 6; int want_ = none ? (int)system::errc::operation_not_permitted : lock == e[i].own ? (int)(lock ? system::errc::resource_deadlock_would_occur : system::errc::operation_not_permitted) : 0;
    vf_assert(err == (want_ != 0) && code == want_, "an operation the state does not permit throws the documented lock_error, and no other does"); vf_assert(ex == (M[0].thrown || M[1].thrown), "exceptions of the mutex are passed on");
    if (!err && !ex) { if (lock) { e[i].own = r; if (w >= 2) vf_assert(M[e[i].m].arg == (w == 2 || w == 4 ? 555 : w == 3 ? 777 : 888), "the deadline is passed on"); } else e[i].own = false; } }
  else vf_assert(!err && !ex, "no exception"); 
  same(l[0], e[0]); same(l[1], e[1]); counts(K, e); }
template <class L> static void hist(int K, int ops) { for (int i = 0; i < 2; i++) M[i] = MM(); Ob e[2]; union { char c[2 * sizeof(L)]; void* a; } q; L* l = (L*)q.c; build(&l[0], e[0], K, vf_pick(3), 0); build(&l[1], e[1], K, vf_pick(3), vf_pick(2)); same(l[0], e[0]); same(l[1], e[1]); for (int n = 0; n < ops; n++) op(l, e, K);
  l[0].~L(); e[0].own = false; counts(K, e); l[1].~L(); e[1].own = false; counts(K, e); vf_reach("end"); }
extern "C" void vh_c26_unique() { hist<unique_lock<MM> >(0, 1); }
extern "C" void vh_c26_shared() { hist<shared_lock<MM> >(1, 1); }
extern "C" void vh_c26_upgrade() { hist<upgrade_lock<MM> >(2, 1); }
extern "C" void vh_c26_unique2() { hist<unique_lock<MM> >(0, 2); }
extern "C" void vh_c26_shared2() { hist<shared_lock<MM> >(1, 2); }
extern "C" void vh_c26_upgrade2() { hist<upgrade_lock<MM> >(2, 2); }
// conversions: kind a -> kind b. must: always converts
template <class A, class B> struct Cv { A a; B b; };
static void tot(int x, int s, int u) { vf_assert(M[0].o[0] == x && M[0].o[1] == s && M[0].o[2] == u, "the mutex is owned exactly as the lock objects say"); }
static void fin_(Ob a, int ka, Ob b, int kb) { int o[3] = {0, 0, 0}; if (a.own) o[ka]++; if (b.own) o[kb]++; tot(o[0], o[1], o[2]); }
template <class A, class B> static void after(A& a, Ob s, int ka, B& b, int kb, bool attempt, long arg) { // source in state s before
  Ob ea, eb; if (!attempt) { ea.m = -1; ea.own = false; eb = s; } else if (!s.own) { ea.m = -1; ea.own = false; eb = s; } else { bool ok = M[0].o[kb] == 1 && M[0].o[ka] == 0; if (ok) { ea.m = -1; ea.own = false; eb = s; } else { ea = s; eb.m = -1; eb.own = false; } }
  same(a, ea); same(b, eb); fin_(ea, ka, eb, kb); if (arg && s.own) vf_assert(M[0].arg == arg, "the deadline is passed on"); }
extern "C" void vh_c26_conv() {
  M[0] = MM(); Ob s; int st = vf_pick(3); chrono::milliseconds d(555);
  { unique_lock<MM> u; shared_lock<MM> sh; upgrade_lock<MM> up; u.~unique_lock<MM>(); sh.~shared_lock<MM>(); up.~upgrade_lock<MM>();
  int k = vf_pick(17); int src = k < 4 ? 0 : k < 10 ? 2 : 1;
  if (src == 0) { build(&u, s, 0, st, 0); new (&sh) shared_lock<MM>(); new (&up) upgrade_lock<MM>(); } else if (src == 2) { build(&up, s, 2, st, 0); new (&sh) shared_lock<MM>(); new (&u) unique_lock<MM>(); } else { build(&sh, s, 1, st, 0); new (&u) unique_lock<MM>(); new (&up) upgrade_lock<MM>(); }
  switch (k) {
    case 0: { shared_lock<MM> t(boost::move(u)); after(u, s, 0, t, 1, false, 0); break; }
    case 1: sh = boost::move(u); after(u, s, 0, sh, 1, false, 0); break;
    case 2: { upgrade_lock<MM> t(boost::move(u)); after(u, s, 0, t, 2, false, 0); break; }
    case 3: up = boost::move(u); after(u, s, 0, up, 2, false, 0); break;
    case 4: { unique_lock<MM> t(boost::move(up)); after(up, s, 2, t, 0, false, 0); break; }
    case 5: u = boost::move(up); after(up, s, 2, u, 0, false, 0); break;
    case 6: { shared_lock<MM> t(boost::move(up)); after(up, s, 2, t, 1, false, 0); break; }
    case 7: { unique_lock<MM> t(boost::move(up), try_to_lock); after(up, s, 2, t, 0, true, 0); break; }
    case 8: { unique_lock<MM> t(boost::move(up), d); after(up, s, 2, t, 0, true, 555); break; }
    case 9: { unique_lock<MM> t(boost::move(up), tp()); after(up, s, 2, t, 0, true, 777); break; }
    case 10: { unique_lock<MM> t(boost::move(sh), try_to_lock); after(sh, s, 1, t, 0, true, 0); break; }
    case 11: { unique_lock<MM> t(boost::move(sh), d); after(sh, s, 1, t, 0, true, 555); break; }
    case 12: { unique_lock<MM> t(boost::move(sh), tp()); after(sh, s, 1, t, 0, true, 777); break; }
    case 13: { upgrade_lock<MM> t(boost::move(sh), try_to_lock); after(sh, s, 1, t, 2, true, 0); break; }
    case 14: { upgrade_lock<MM> t(boost::move(sh), d); after(sh, s, 1, t, 2, true, 555); break; }
    case 15: { upgrade_lock<MM> t(boost::move(sh), tp()); after(sh, s, 1, t, 2, true, 777); break; }
    default: up.~upgrade_lock<MM>(); new (&up) upgrade_lock<MM>(); sh.release(); if (s.own) M[0].o[1]--; s.m = -1; build(&up, s, 2, st, 0); sh = boost::move(up); after(up, s, 2, sh, 1, false, 0); } }
  tot(0, 0, 0); vf_reach("end"); }
extern "C" void vh_c26_up() { M[0] = MM(); { upgrade_lock<MM> up(M[0], defer_lock); Ob s = {0, false}; if (vf_pick(2)) { M[0].o[2]++; up.~upgrade_lock<MM>(); new (&up) upgrade_lock<MM>(M[0], adopt_lock); s.own = true; }
  { upgrade_to_unique_lock<MM> x(up); vf_assert(x.owns_lock() == s.own && bool(x) == s.own && x.mutex() == &M[0] && !up.owns_lock() && up.mutex() == 0, "the exclusive lock"); tot(s.own, 0, 0); if (vf_pick(2)) { upgrade_to_unique_lock<MM> y(boost::move(x)); vf_assert(y.owns_lock() == s.own && !x.owns_lock() && x.mutex() == 0, "moved"); tot(s.own, 0, 0); if (vf_pick(2)) { x = boost::move(y); vf_assert(x.owns_lock() == s.own && !y.owns_lock(), "moved back"); tot(s.own, 0, 0); } } }
  same(up, s); tot(0, 0, s.own); } tot(0, 0, 0); vf_reach("end"); }
// the real mutexes
struct R { mutex m; timed_mutex t; recursive_mutex r; shared_mutex s; Own o; int k; };
static void enter(R* x) { gh_x(&x->o); vf_sched(); gh_rx(&x->o); }
template <class Mx> static void use(R* x, Mx& m, int how) { unique_lock<Mx> l(m, defer_lock); if (how == 0) l.lock(); else if (!l.try_lock()) { vf_assert(!l.owns_lock(), "not owned"); return; } vf_assert(l.owns_lock(), "owned"); unique_lock<Mx> q; q = boost::move(l); if (how == 2) swap(q, l); enter(x); }
static void w_real(R* x) { int how = vf_pick(3); switch (x->k) { case 0: use(x, x->m, how); break; case 1: use(x, x->t, how); break; case 2: use(x, x->r, how); break; default: { if (how == 0) { unique_lock<shared_mutex> l(x->s); enter(x); shared_lock<shared_mutex> q(boost::move(l)); gh_s(&x->o); gh_rs(&x->o); } else if (how == 1) { upgrade_lock<shared_mutex> l(x->s); unique_lock<shared_mutex> q(boost::move(l)); enter(x); upgrade_lock<shared_mutex> z(boost::move(q)); } else { shared_lock<shared_mutex> l(x->s, try_to_lock); if (l) { gh_s(&x->o); gh_rs(&x->o); } } } } }
extern "C" void vh_c26_real() { vf_cfg_timeouts = 0; R x; x.o.x = x.o.s = x.o.u = 0; x.k = vf_pick(4); vf_go(w_real, &x); w_real(&x); vf_joinall(); vf_assert(vf_held(0) == 0, "everything is released"); switch (x.k) { case 0: vf_assert(x.m.try_lock(), "free"); x.m.unlock(); break; case 1: vf_assert(x.t.try_lock(), "free"); x.t.unlock(); break; case 2: vf_assert(x.r.try_lock(), "free"); x.r.unlock(); break; default: vf_assert(x.s.try_lock(), "free"); x.s.unlock(); } vf_reach("end"); }
static int data; static mutex dm;
static void w_race(R*) { unique_lock<mutex> l(dm); unique_lock<mutex> q; swap(l, q); data++; }
extern "C" void vh_c26_race() { vf_cfg_timeouts = 0; R x; data = 0; vf_go(w_race, &x); w_race(&x); vf_joinall(); vf_assert(data == 2, "both"); vf_reach("end"); }
