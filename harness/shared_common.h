// Reader/writer/upgrade mutexes: common to boost::shared_mutex (C04-C06) and boost::thread_v2 (C07).
#pragma once
#include "vfh.h"
#include <boost/chrono/system_clocks.hpp>
#include <boost/thread/thread_time.hpp>
#include <boost/thread/detail/thread_interruption.hpp>
using namespace boost;
enum { S = 0, U = 1, W = 2 };
// which kinds of ownership other threads held or attempted during a call
struct Kin { int cat[6], seen[6]; };
extern "C" {
static __attribute__((noinline)) void gh_call(Kin* a, int c) { int t = vf_tid(), o = 8; a->cat[t] |= 1 << c; for (int i = 0; i < 4; i++) if (i != t) { o |= a->cat[i]; if (a->seen[i] & 8) a->seen[i] |= 1 << c; } a->seen[t] = o; }
static __attribute__((noinline)) int gh_ret(Kin* a) { int t = vf_tid(), r = a->seen[t] & 7; a->seen[t] = 0; return r; }
static __attribute__((noinline)) void gh_quit(Kin* a) { a->cat[vf_tid()] = 0; }
// downgrade: the weaker ownership is published before the call
static __attribute__((noinline)) void gh_xs(Own* o) { o->x = 0; o->s++; }
static __attribute__((noinline)) void gh_xu(Own* o) { o->x = 0; o->u = 1; }
static __attribute__((noinline)) void gh_us(Own* o) { o->u = 0; o->s++; }
static __attribute__((noinline)) void gh_ux(Own* o) { vf_assert(o->x == 0 && o->s == 0 && o->u == 1, "upgrade to exclusive granted while another thread owns the lock"); o->u = 0; o->x = 1; }
static __attribute__((noinline)) void gh_sx(Own* o) { vf_assert(o->x == 0 && o->s == 1 && o->u == 0, "shared to exclusive granted while another thread owns the lock"); o->s = 0; o->x = 1; }
static __attribute__((noinline)) void gh_su(Own* o) { vf_assert(o->x == 0 && o->s >= 1 && o->u == 0, "shared to upgrade granted while another thread owns the lock exclusively or for upgrade"); o->s--; o->u = 1; }
}
template <class M> struct X { M m; Kin k; Own o; int data; int kind[4]; X() : k(), o(), data(0) { this_thread::disable_interruption started; } }; // the thread library is initialised
// how an acquisition is attempted
enum { LOCK, TRY, FOR, UNTIL, UNTILSYS, REL, ABS };
static const long MONO = 5000000, REAL = 1000000000;
static long deadline(int v, long d) { return (v == UNTIL ? MONO : v == UNTILSYS || v == ABS ? REAL : gh_ms(1)) + d; }
static int clock_of(int v) { return v == LOCK || v == TRY ? -1 : v == UNTILSYS || v == ABS ? 0 : 1; }
#define TP(d) chrono::steady_clock::time_point(chrono::milliseconds(MONO + (d)))
#define SYS(d) chrono::system_clock::time_point(chrono::milliseconds(REAL + (d)))
#define PT(d) (posix_time::from_time_t(1000000) + posix_time::milliseconds(d))
template <class M> static bool acq_x(M& m, int v, long d) { switch (v) { case LOCK: m.lock(); return true; case TRY: return m.try_lock(); case FOR: return m.try_lock_for(chrono::milliseconds(d)); case UNTIL: return m.try_lock_until(TP(d)); case UNTILSYS: return m.try_lock_until(SYS(d)); case REL: return m.timed_lock(posix_time::milliseconds(d)); default: return m.timed_lock(PT(d)); } }
template <class M> static bool acq_s(M& m, int v, long d) { switch (v) { case LOCK: m.lock_shared(); return true; case TRY: return m.try_lock_shared(); case FOR: return m.try_lock_shared_for(chrono::milliseconds(d)); case UNTIL: return m.try_lock_shared_until(TP(d)); case UNTILSYS: return m.try_lock_shared_until(SYS(d)); case REL: return m.timed_lock_shared(posix_time::milliseconds(d)); default: return m.timed_lock_shared(PT(d)); } }
template <class M> static bool acq_u(M& m, int v, long d) { switch (v) { case LOCK: m.lock_upgrade(); return true; case TRY: return m.try_lock_upgrade(); case FOR: return m.try_lock_upgrade_for(chrono::milliseconds(d)); case UNTIL: return m.try_lock_upgrade_until(TP(d)); case UNTILSYS: return m.try_lock_upgrade_until(SYS(d)); case REL: return m.timed_lock_upgrade(posix_time::milliseconds(d)); default: return m.timed_lock_upgrade(PT(d)); } }
// use of the data under ownership of kind c
template <class M> static void use(X<M>* x, int c) { if (c == W) x->data = x->data + 1; else vf_assert(x->data >= 0, "data"); }
template <class M> static void release(X<M>* x, int c) {
  if (c == W) { gh_rx(&x->o); x->m.unlock(); } else if (c == S) { gh_rs(&x->o); x->m.unlock_shared(); } else { gh_ru(&x->o); x->m.unlock_upgrade(); }
  gh_quit(&x->k); }
static void failed(int seen, int mask, int v, long dl, const char* lbl) {
  vf_assert((seen & mask) != 0, "an attempt failed although no other thread stood in the way");
  if (clock_of(v) >= 0) { vf_assert(gh_after(clock_of(v), dl), "a timed attempt failed before its deadline"); vf_reach(lbl); } }
// one acquisition of kind c in manner v; true if granted
template <class M> static bool take(X<M>* x, int c, int v, long d) {
  gh_call(&x->k, c); long dl = clock_of(v) < 0 ? 0 : deadline(v, d); bool r;
  if (c == W) { r = acq_x(x->m, v, d); if (r) gh_x(&x->o); }
  else if (c == S) { r = acq_s(x->m, v, d); if (r) gh_s(&x->o); }
  else { r = acq_u(x->m, v, d); if (r) gh_u(&x->o); }
  int seen = gh_ret(&x->k);
  if (!r) { failed(seen, c == W ? 7 : c == S ? 1 << W : (1 << W | 1 << U), v, dl, c == W ? "exclusive timed out" : c == S ? "shared timed out" : "upgrade timed out"); gh_quit(&x->k); }
  else if (clock_of(v) >= 0 && d < 0) vf_reach("past deadline ok");
  else if (v != TRY) vf_reach_if(seen != 0, c == W ? "exclusive after waiting" : c == S ? "shared with others" : "upgrade with others");
  return r; }
// the lock is completely free
template <class M> static void all_free(X<M>* x) { vf_assert(x->m.try_lock(), "the lock is free at the end"); x->m.unlock(); vf_assert(x->m.try_lock_upgrade(), "the lock is free at the end (upgrade)"); vf_assert(x->m.try_lock_shared(), "shared ownership next to upgrade ownership"); vf_assert(!x->m.try_lock(), "exclusive ownership next to shared ownership"); x->m.unlock_upgrade(); x->m.unlock_shared(); }
// conversions from upgrade or shared to something stronger
enum { U_X, US_X, US_U, S_X, S_U };
template <class M> static bool conv_ux(M& m, int v, long d) { switch (v) { case LOCK: m.unlock_upgrade_and_lock(); return true; case TRY: return m.try_unlock_upgrade_and_lock(); case FOR: return m.try_unlock_upgrade_and_lock_for(chrono::milliseconds(d)); case UNTIL: return m.try_unlock_upgrade_and_lock_until(TP(d)); default: return m.try_unlock_upgrade_and_lock_until(SYS(d)); } }
template <class M> static bool conv_sx(M& m, int v, long d) { switch (v) { case TRY: return m.try_unlock_shared_and_lock(); case FOR: return m.try_unlock_shared_and_lock_for(chrono::milliseconds(d)); case UNTIL: return m.try_unlock_shared_and_lock_until(TP(d)); default: return m.try_unlock_shared_and_lock_until(SYS(d)); } }
template <class M> static bool conv_su(M& m, int v, long d) { switch (v) { case TRY: return m.try_unlock_shared_and_lock_upgrade(); case FOR: return m.try_unlock_shared_and_lock_upgrade_for(chrono::milliseconds(d)); case UNTIL: return m.try_unlock_shared_and_lock_upgrade_until(TP(d)); default: return m.try_unlock_shared_and_lock_upgrade_until(SYS(d)); } }
// strengthen ownership from kind c to kind t; returns the kind held afterwards
template <class M> static int strengthen(X<M>* x, int c, int t, int v, long d) {
  gh_call(&x->k, t); long dl = clock_of(v) < 0 ? 0 : deadline(v, d); int before = x->data; bool r;
  if (c == U) { r = conv_ux(x->m, v, d); if (r) gh_ux(&x->o); } else if (t == W) { r = conv_sx(x->m, v, d); if (r) gh_sx(&x->o); } else { r = conv_su(x->m, v, d); if (r) gh_su(&x->o); }
  int seen = gh_ret(&x->k);
  vf_assert(x->data == before, "another thread wrote between the two kinds of ownership");
  if (!r) { failed(seen, t == W ? 7 : (1 << W | 1 << U), v, dl, "conversion timed out"); return c; }
  vf_reach(t == W ? c == U ? "upgrade to exclusive" : "shared to exclusive" : "shared to upgrade"); return t; }
template <class M> static int weaken(X<M>* x, int c, int t) {
  int before;
  if (c == W) { before = x->data; if (t == U) { gh_xu(&x->o); x->m.unlock_and_lock_upgrade(); } else { gh_xs(&x->o); x->m.unlock_and_lock_shared(); } }
  else { before = x->data; gh_us(&x->o); x->m.unlock_upgrade_and_lock_shared(); }
  vf_assert(x->data == before, "another thread wrote between the two kinds of ownership"); vf_reach("downgrade"); return t; }
// ---- threads
template <class M> static void th_api(X<M>* x) { int c = vf_choice(3), v = vf_choice(7); long d = clock_of(v) >= 0 && vf_bool() ? -50 : 80; if (take(x, c, v, d)) { use(x, c); release(x, c); } }
template <class M> static void th_two(X<M>* x) { for (int i = 0; i < 2; i++) { int c = vf_choice(3); if (take(x, c, vf_choice(2), 0)) { use(x, c); release(x, c); } } }
template <class M> static void th_core(X<M>* x) { int c = vf_choice(3); if (take(x, c, vf_choice(2), 0)) { use(x, c); release(x, c); } }
template <class M> static void th_timed(X<M>* x) { int c = vf_choice(3); if (take(x, c, vf_bool() ? LOCK : UNTILSYS, 80)) { use(x, c); release(x, c); } }
template <class M> static void th_wake(X<M>* x) { static const int vs[] = {LOCK, UNTIL, ABS}; int c = vf_choice(3); if (take(x, c, vs[vf_choice(3)], 80)) { use(x, c); release(x, c); } }
// one acquisition, then one conversion, chosen freely (blocking and timed conversions may time out)
template <class M> static void converting(X<M>* x, int kinds, bool timed) {
  int c = kinds == 3 ? vf_choice(3) : kinds; if (!take(x, c, LOCK, 0)) return;
  if (c == W) { c = weaken(x, c, vf_bool() ? U : S); }
  else if (c == U) { int k = vf_choice(3); if (k == 0) c = weaken(x, U, S); else c = strengthen(x, U, W, k == 1 ? LOCK : timed ? FOR + vf_choice(3) : TRY, timed && vf_bool() ? -50 : 80); }
  else { c = strengthen(x, S, vf_bool() ? W : U, timed ? FOR + vf_choice(3) : TRY, timed && vf_bool() ? -50 : 80); }
  use(x, c); release(x, c); }
template <class M> static void th_conv(X<M>* x) { converting(x, 3, false); }
template <class M> static void th_convt(X<M>* x) { converting(x, 3, true); }
template <class M> static void th_mix(X<M>* x) { if (vf_bool()) th_conv(x); else th_core(x); }
// three equal threads: their kinds of ownership in ascending order
template <class M> static void sorted3(X<M>* x) { x->kind[1] = vf_choice(3); x->kind[2] = vf_choice(3); x->kind[0] = vf_choice(3); vf_assume(x->kind[1] <= x->kind[2] && x->kind[2] <= x->kind[0]); }
template <class M> static void th_core_s(X<M>* x) { int c = x->kind[vf_tid()]; if (take(x, c, vf_choice(2), 0)) { use(x, c); release(x, c); } }
template <class M> static void th_timed_s(X<M>* x) { int c = x->kind[vf_tid()]; if (take(x, c, vf_bool() ? LOCK : UNTILSYS, 80)) { use(x, c); release(x, c); } }
template <class M> static void th_wake_s(X<M>* x) { static const int vs[] = {LOCK, UNTIL, ABS}; int c = x->kind[vf_tid()]; if (take(x, c, vs[vf_choice(3)], 80)) { use(x, c); release(x, c); } }
template <class M> static void run3s(void (*f)(X<M>*)) { X<M> x; sorted3(&x); vf_go(f, &x); vf_go(f, &x); f(&x); vf_joinall(); all_free(&x); }
template <class M> static void run2(void (*f)(X<M>*), void (*g)(X<M>*)) { X<M> x; vf_go(f, &x); g(&x); vf_joinall(); all_free(&x); }
template <class M> static void run3(void (*f)(X<M>*), void (*g)(X<M>*), void (*h)(X<M>*)) { X<M> x; vf_go(f, &x); vf_go(g, &x); h(&x); vf_joinall(); all_free(&x); }
// one thread owns with kind c and waits for a stronger kind without a time-out; the others only take and give back
template <class M> static void th_up(X<M>* x) {
  int c = vf_bool() ? U : S, t = c == U || vf_bool() ? W : U; static const int vs[] = {UNTIL, UNTILSYS, LOCK}; int v = vs[vf_choice(c == U ? 3 : 2)];
  take(x, c, LOCK, 0); c = strengthen(x, c, t, v, 80); vf_assert(c == t, "no time-outs"); use(x, c); release(x, c); }
// takes shared or upgrade ownership and gives it back in two steps
template <class M> static void th_hold(X<M>* x) { int c = vf_choice(3); if (take(x, c, c == W ? TRY : LOCK, 0)) { if (c == U && vf_bool()) c = weaken(x, U, S); else if (c == W) c = weaken(x, W, vf_bool() ? U : S); release(x, c); } }

// the first thread keeps its ownership while another one gives up waiting for more: a thread held back by that one must be granted its ownership all the same
template <class M> static void th_giveup(X<M>* x) { int k = vf_pick(3), v = FOR + vf_choice(k == 0 ? 5 : 3); if (k == 0) { vf_assert(!take(x, W, v, 80), "another thread owns the lock"); vf_reach("exclusive gave up"); return; }
  int c = k == 1 ? U : S, t = k == 1 ? W : vf_bool() ? W : U; if (!take(x, c, k == 1 ? TRY : LOCK, 0)) return; c = strengthen(x, c, t, v, 80); vf_reach_if(c != t, "conversion gave up"); release(x, c); }
template <class M> static void th_behind(X<M>* x) { take(x, x->kind[3], LOCK, 0); release(x, x->kind[3]); vf_reach("granted next to the first owner"); }
template <class M> static void held() { X<M> x; int c = vf_pick(2) ? U : S; x.kind[3] = c == S && vf_bool() ? U : S; take(&x, c, TRY, 0); vf_go(th_giveup<M>, &x); vf_go(th_behind<M>, &x); vf_joinall(); release(&x, c); all_free(&x); }

// the first thread gives up ownership or weakens it and keeps the rest until two (three) other threads, whose kinds of ownership are compatible, own the lock with it: each of them must be woken by that one step
static int g_in;
template <class M, int N> static void th_meet(X<M>* x) { int c = x->kind[vf_tid()]; take(x, c, LOCK, 0); gh_inc(&g_in); vf_await(&g_in, N, 0, 0, 0, 0); release(x, c); }
template <class M, int N> static void together() { X<M> x; int c = vf_pick(2) ? W : U, k = vf_choice(3); // what is kept: S, U, nothing
  vf_assume(c == W || k != U); for (int i = 1; i < N; i++) x.kind[i] = S; x.kind[N] = k != U && vf_bool() ? U : S;
  take(&x, c, TRY, 0); for (int i = 0; i < N; i++) vf_go(th_meet<M, N>, &x); if (k == 2) release(&x, c); else weaken(&x, c, k);
  vf_await(&g_in, N, 0, 0, 0, 0); if (k != 2) { vf_reach("owners next to the first one"); release(&x, k); } vf_joinall(); vf_reach("owners let in at once"); all_free(&x); }
