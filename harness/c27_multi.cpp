// C27: lock and try_lock on several lockables and on ranges.
// ENTRY vh_c27_fake | props=C27 | weight=2 | reach=end;thrown;retried | bound=lock() of 2, 3, 4 or 5 lockables, every answer of every attempt (available, taken, exception), at most 3 refusals
// ENTRY vh_c27_try | props=C27 | weight=2 | reach=all;refused;thrown | bound=try_lock() of 2, 3, 4 or 5 lockables, every answer of every attempt
// ENTRY vh_c27_range | props=C27 | weight=2 | reach=end;thrown;retried | bound=lock() of a range of 0 to 4 lockables, every answer, at most 3 refusals
// ENTRY vh_c27_tryr | props=C27 | weight=2 | reach=all;refused;thrown | bound=try_lock() of a range of 0 to 4 lockables, every answer
// ENTRY vh_c27_two | props=C27 | reach=end | bound=2 threads, lock() of 2 mutexes in every pair of orders, also const and mixed lockables
// ENTRY vh_c27_two3 | props=C27 | weight=2 | reach=end | bound=2 threads, lock() of 3 mutexes in every pair of orders out of 4
// ENTRY vh_c27_big | props=C27 | weight=3 | reach=end | bound=2 threads, lock() of 4 or 5 mutexes in opposite orders
// ENTRY vh_c27_part | props=C27 | weight=2 | reach=end | bound=2 threads, lock() of 2 out of 3 mutexes, every choice and order; lock and try_lock mixed
// ENTRY vh_c27_three | props=C27 | weight=3 | reach=end | bound=3 threads, lock() of 2 out of 3 mutexes in a ring
// ENTRY vh_c27_rng2 | props=C27 | weight=3 | reach=end | bound=2 threads, lock() of a range of 2 or 3 unique_locks in opposite orders
// ENTRY vh_c27_race | props=C27,C40 | reach=end | bound=2 threads, lock() of 2 mutexes in opposite orders
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
using namespace boost;
struct E {};
struct Rig { int left, refused, thrown; }; static Rig R;
struct F { int held, no; F() : held(0), no(0) {}
  void boom() { if (vf_bool()) { R.thrown++; throw E(); } }
  void lock() { vf_assert(held == 0, "a lockable already locked is locked again"); boom(); held = 1; }
  bool try_lock() { vf_assert(held == 0, "a lockable already locked is locked again"); boom(); if (R.left && vf_bool()) { R.left--; R.refused++; no = R.refused; return false; } held = 1; return true; }
  void unlock() { vf_assert(held == 1, "a lockable that is not locked is unlocked"); held = 0; } };
static F f[5];
static void rig() { R.left = 3; R.refused = R.thrown = 0; for (int i = 0; i < 5; i++) f[i] = F(); }
static void all(int n, int v, const char*) { for (int i = 0; i < 5; i++) vf_assert(f[i].held == (i < n ? v : 0), "all of the lockables are locked, or none"); }
extern "C" void vh_c27_fake() { rig(); int n = vf_pick(4) + 2; bool ex = false;
  try { switch (n) { case 2: lock(f[0], f[1]); break; case 3: lock(f[0], f[1], f[2]); break; case 4: lock(f[0], f[1], f[2], f[3]); break; default: lock(f[0], f[1], f[2], f[3], f[4]); } } catch (E&) { ex = true; }
  vf_assert(ex == (R.thrown != 0), "an exception of a lockable is passed on"); all(n, !ex, ""); if (ex) vf_reach("thrown"); else { if (R.refused) vf_reach("retried"); vf_reach("end"); } }
extern "C" void vh_c27_try() { rig(); int n = vf_pick(4) + 2; bool ex = false; int r = -2;
  try { switch (n) { case 2: r = try_lock(f[0], f[1]); break; case 3: r = try_lock(f[0], f[1], f[2]); break; case 4: r = try_lock(f[0], f[1], f[2], f[3]); break; default: r = try_lock(f[0], f[1], f[2], f[3], f[4]); } } catch (E&) { ex = true; }
  vf_assert(ex == (R.thrown != 0), "an exception of a lockable is passed on"); all(n, !ex && r == -1, ""); if (ex) { vf_reach("thrown"); return; }
  vf_assert((r == -1) == (R.refused == 0), "try_lock fails exactly when a lockable is unavailable"); if (r == -1) { vf_reach("all"); return; } vf_assert(r >= 0 && r < n, "position"); for (int i = 0; i < 5; i++) if (i == r) vf_assert(f[i].no != 0, "the position is that of an unavailable lockable"); vf_reach("refused"); }
extern "C" void vh_c27_range() { rig(); int n = vf_pick(5); bool ex = false; try { lock(f, f + n); } catch (E&) { ex = true; }
  vf_assert(ex == (R.thrown != 0), "an exception of a lockable is passed on"); all(n, !ex, ""); if (ex) vf_reach("thrown"); else { if (R.refused) vf_reach("retried"); vf_reach("end"); } }
extern "C" void vh_c27_tryr() { rig(); int n = vf_pick(5); bool ex = false; F* r = 0; F *b = f, *e = f + n; try { r = try_lock(b, e); } catch (E&) { ex = true; }
  vf_assert(ex == (R.thrown != 0), "an exception of a lockable is passed on"); all(n, !ex && r == f + n, ""); if (ex) { vf_reach("thrown"); return; }
  vf_assert((r == f + n) == (R.refused == 0), "try_lock fails exactly when a lockable is unavailable"); if (r == f + n) { vf_reach("all"); return; } for (int i = 0; i < 5; i++) if (r == &f[i]) { vf_assert(i < n && f[i].no != 0, "the position is that of an unavailable lockable"); vf_reach("refused"); return; } vf_assert(0, "the position is in the range"); }
// real mutexes
struct X { mutex m[5]; recursive_mutex r; shared_mutex s; Own o[5]; int n, kind; X() { for (int i = 0; i < 5; i++) o[i].x = o[i].s = o[i].u = 0; } };
static void in(X* x, int i) { gh_x(&x->o[i]); } static void out(X* x, int i) { gh_rx(&x->o[i]); x->m[i].unlock(); }
static void L2(X* x, int a, int b) { lock(x->m[a], x->m[b]); in(x, a); in(x, b); vf_sched(); out(x, a); out(x, b); }
static void L3(X* x, int a, int b, int c) { lock(x->m[a], x->m[b], x->m[c]); in(x, a); in(x, b); in(x, c); vf_sched(); out(x, a); out(x, b); out(x, c); }
static void w_two(X* x) { int d = vf_pick(2); switch (x->kind) {
    case 0: L2(x, d, 1 - d); break;
    case 1: { unique_lock<mutex> a(x->m[d], defer_lock), b(x->m[1 - d], defer_lock); lock(a, b); vf_assert(a.owns_lock() && b.owns_lock(), "both locked"); in(x, 0); in(x, 1); vf_sched(); gh_rx(&x->o[0]); gh_rx(&x->o[1]); break; }
    case 2: { if (d) lock(x->r, x->s); else lock(x->s, x->r); in(x, 0); vf_sched(); gh_rx(&x->o[0]); x->r.unlock(); x->s.unlock(); break; }
    default: { std::tuple<unique_lock<mutex>, unique_lock<mutex> > t = make_unique_locks(x->m[d], x->m[1 - d]); vf_assert(std::get<0>(t).owns_lock() && std::get<1>(t).owns_lock() && std::get<0>(t).mutex() == &x->m[d], "both locked"); in(x, 0); in(x, 1); vf_sched(); gh_rx(&x->o[0]); gh_rx(&x->o[1]); } } }
static void fin(X* x, int n) { vf_joinall(); vf_assert(vf_held(0) == 0, "released"); for (int i = 0; i < n; i++) { vf_assert(x->m[i].try_lock(), "free"); x->m[i].unlock(); } vf_reach("end"); }
extern "C" void vh_c27_two() { vf_cfg_timeouts = 0; X x; x.kind = vf_pick(4); vf_go(w_two, &x); w_two(&x); fin(&x, 2); }
static void w_two3(X* x) { switch (vf_pick(4)) { case 0: L3(x, 0, 1, 2); break; case 1: L3(x, 2, 1, 0); break; case 2: L3(x, 1, 2, 0); break; default: L3(x, 2, 0, 1); } }
extern "C" void vh_c27_two3() { vf_cfg_timeouts = 0; X x; vf_go(w_two3, &x); L3(&x, 0, 1, 2); fin(&x, 3); }
static void w_big(X* x) { mutex* m = x->m; if (x->n == 4) lock(m[3], m[2], m[1], m[0]); else lock(m[4], m[3], m[2], m[1], m[0]); for (int i = 0; i < x->n; i++) in(x, i); vf_sched(); for (int i = 0; i < x->n; i++) out(x, i); }
extern "C" void vh_c27_big() { vf_cfg_timeouts = 0; X x; x.n = 4 + vf_pick(2); mutex* m = x.m; vf_go(w_big, &x); if (x.n == 4) lock(m[0], m[1], m[2], m[3]); else lock(m[0], m[1], m[2], m[3], m[4]); for (int i = 0; i < x.n; i++) in(&x, i); vf_sched(); for (int i = 0; i < x.n; i++) out(&x, i); fin(&x, x.n); }
static void w_part(X* x) { int a = vf_pick(3), b = (a + 1 + vf_pick(2)) % 3; if (vf_pick(2)) L2(x, a, b); else { int r = try_lock(x->m[a], x->m[b]); vf_assert(r >= -1 && r <= 1, "result"); if (r == -1) { in(x, a); in(x, b); vf_sched(); out(x, a); out(x, b); } else vf_assert(vf_held(1) == 0, "nothing stays locked"); } }
extern "C" void vh_c27_part() { vf_cfg_timeouts = 0; X x; vf_go(w_part, &x); if (vf_pick(2)) L2(&x, 0, 1); else L3(&x, 2, 1, 0); fin(&x, 3); }
static void w_r1(X* x) { L2(x, 1, 2); } static void w_r2(X* x) { L2(x, 2, 0); }
extern "C" void vh_c27_three() { vf_cfg_timeouts = 0; X x; vf_go(w_r1, &x); vf_go(w_r2, &x); L2(&x, 0, 1); fin(&x, 3); }
static void rng(X* x, bool rev) { int n = x->n; unique_lock<mutex> l[3]; for (int i = 0; i < n; i++) l[i] = unique_lock<mutex>(x->m[rev ? n - 1 - i : i], defer_lock); lock(l, l + n); for (int i = 0; i < n; i++) { vf_assert(l[i].owns_lock(), "all locked"); in(x, i); } vf_sched(); for (int i = 0; i < n; i++) gh_rx(&x->o[i]); }
static void w_rng(X* x) { rng(x, true); }
extern "C" void vh_c27_rng2() { vf_cfg_timeouts = 0; X x; x.n = 2 + vf_pick(2); vf_go(w_rng, &x); rng(&x, false); fin(&x, x.n); }
static int data;
static void w_race(X* x) { lock(x->m[1], x->m[0]); data++; x->m[0].unlock(); x->m[1].unlock(); }
extern "C" void vh_c27_race() { vf_cfg_timeouts = 0; X x; data = 0; vf_go(w_race, &x); lock(x.m[0], x.m[1]); data++; x.m[1].unlock(); x.m[0].unlock(); vf_joinall(); vf_assert(data == 2, "both"); vf_reach("end"); }
