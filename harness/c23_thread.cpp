// C23: boost::thread. C24: thread_group and scoped wrappers.
// ENTRY vh_c23_join | props=C23 | weight=3 | reach=end | bound=1 thread started with 0 to 3 arguments; join, timed_join, try_join_for, try_join_until of 3 clocks (retried until true), never timing out or with every time-out schedule
// ENTRY vh_c23_var | props=C23 | cflags=-DBOOST_THREAD_VERSION=4 | reach=end | bound=the variadic constructors with 0 to 3 arguments, move-only and reference_wrapper arguments
// ENTRY vh_c23_timed | props=C23 | weight=3 | reach=finished;timed out | bound=1 thread, 1 timed join of 5 kinds with past or future deadline, every time-out schedule
// ENTRY vh_c23_handle | props=C23 | weight=3 | reach=end | bound=all sequences of 2 operations (join, detach, move construction, move assignment, swap, get_id) over 2 handles and 2 threads
// ENTRY vh_c23_handle3 | props=C23 | tier=thorough | weight=3 | reach=end | bound=all sequences of 3 operations (join, detach, move construction, move assignment, swap, get_id) over 2 handles and 2 threads
// ENTRY vh_c23_err | props=C23 | cflags=-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED | reach=self join;not a thread | bound=join and timed joins on oneself or on a default constructed, joined, detached or moved-from handle
// ENTRY vh_c23_term | props=C23 | reach=terminated;interrupted | bound=1 thread function throwing thread_interrupted or another exception
// ENTRY vh_c23_two | props=C23 | weight=3 | reach=end | bound=2 threads, one joining the other, detach at any moment of the other's life
// ENTRY vh_c23_id | props=C23 | reach=end | bound=ids of 2 running threads, the creator and no thread: ==, !=, <, >, <=, >= and hash of every 2 of them; through the handle, a moved handle and this_thread::get_id
// ENTRY vh_c23_race | props=C23,C40 | reach=end | bound=arguments and results passed through the constructor and join
// ENTRY vh_c24_group | props=C24 | weight=3 | reach=end | bound=thread_group with 2 threads created or added, 1 removed or not; membership asked by members and by the creator; join_all; interrupt_all or not
// ENTRY vh_c24_life | props=C24 | reach=end | bound=every sequence of 3 of create_thread, add_thread, remove_thread, queries on one group; destruction with or without join_all
// ENTRY vh_c24_life4 | props=C24 | tier=thorough | reach=end | bound=every sequence of 4 of create_thread, add_thread, remove_thread, queries on one group; destruction with or without join_all
// ENTRY vh_c24_err | props=C24 | cflags=-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED | reach=end | bound=adding a thread twice, join_all by a member
// ENTRY vh_c24_scoped | props=C24 | weight=3 | reach=end | bound=scoped_thread, strict_scoped_thread, thread_guard with 4 functors over 1 thread; moved away, joined, detached, swapped or untouched before destruction
// ENTRY vh_c24_race | props=C24,C40 | reach=end | bound=group of 2 threads whose results are read after join_all
// ENTRY vh_c24_part | props=C24 | weight=2 | reach=end | bound=group of 2 threads of which either one is joined or detached by its creator before; interrupt_all or not, join_all
// ENTRY vh_c24_conc | props=C24 | weight=3 | opts=--race | time=120 | reach=end | bound=2 threads using a group of 1 thread that has finished: add, remove or create against size, membership or interrupt_all; races checked
#include "vfh.h"
#include <exception>
#include <boost/functional/hash.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
using namespace boost;
struct X { int runs, done, a[3], stop; X() : runs(0), done(0), stop(0) { a[0] = a[1] = a[2] = 0; } };
static X* gx;
struct Arg { int v; Arg(int x) : v(x) {} };
static void f0() { gh_inc(&gx->runs); vf_sched(); gh_set(&gx->done, 1); }
static void f1(int a) { vf_assert(a == 5, "first argument"); f0(); }
static void f2(int a, Arg b) { vf_assert(a == 5 && b.v == 6, "arguments"); f0(); }
static void f3(X* x, int& r, Arg b) { vf_assert(x == gx && b.v == 6, "arguments"); r = 9; f0(); }
struct Fn { int k; void operator()() { vf_assert(k == 4, "the functor's state"); k = 0; f0(); } };
static void dead(int* a, Arg* b) { *a = 0; b->v = 0; }
static void fin(X* x) { vf_assert(gh_get(&x->runs) == 1, "the function runs exactly once"); vf_assert(gh_get(&x->done), "joined before the function has finished"); }
static bool jn(thread& t, int how, bool past) {
  switch (how) { case 0: t.join(); return true;
#if BOOST_THREAD_VERSION < 4
 case 1: return t.timed_join(posix_time::milliseconds(past ? -50 : 80)); case 2: return t.timed_join(get_system_time() + posix_time::milliseconds(past ? -50 : 80)); 
#endif
 case 3: return t.try_join_for(chrono::milliseconds(past ? -50 : 80)); case 4: return t.try_join_until(chrono::steady_clock::now() + chrono::milliseconds(past ? -50 : 80)); default: return t.try_join_until(chrono::system_clock::now() + chrono::milliseconds(past ? -50 : 80)); } }
extern "C" void vh_c23_join() {
  vf_cfg_timeouts = vf_pick(2) ? 1 : 0; X x; gx = &x; int r = 0; thread t; { int a = 5; Arg b(6); Fn fn = {4}; switch (vf_pick(5)) { case 0: t = thread(f0); break; case 1: t = thread(f1, a); break; case 2: t = thread(f2, a, b); break; case 3: t = thread(f3, &x, boost::ref(r), b); break; default: t = thread(fn); vf_assert(fn.k == 4, "a copy of the functor"); } dead(&a, &b); fn.k = 0; }
  vf_assert(t.joinable() && t.get_id() != thread::id() && t.get_id() != this_thread::get_id(), "a handle of a running thread");
  int how = vf_pick(6); while (!jn(t, how, false)) vf_assert(t.joinable(), "still joinable"); fin(&x); vf_assert(!t.joinable() && t.get_id() == thread::id(), "no thread any more"); vf_assert(vf_env_joined == 1 && vf_env_threads == 0, "the thread is gone"); vf_reach("end"); }
#if BOOST_THREAD_VERSION >= 4
struct Mv { int v; Mv(int x) : v(x) {} Mv(Mv&& o) : v(o.v) { o.v = -1; } Mv(Mv const&) = delete; };
static void g1(Mv m) { vf_assert(m.v == 3, "moved argument"); f0(); }
static void g2(int& r, Arg b, int c) { vf_assert(b.v == 6 && c == 5, "arguments"); r = 9; f0(); }
struct Obj { int k; void mem(int a) { vf_assert(a == 5, "argument"); k = 9; f0(); } };
extern "C" void vh_c23_var() { vf_cfg_timeouts = 0; X x; gx = &x; int r = 0; Obj o = {1}; thread t; { int a = 5; Arg b(6); switch (vf_pick(4)) { case 0: t = thread(f1, a); r = 9; break; case 1: t = thread(g1, Mv(3)); r = 9; break; case 2: t = thread(g2, boost::ref(r), b, a); break; default: t = thread(&Obj::mem, &o, a); r = 9; } dead(&a, &b); } t.join(); fin(&x); vf_assert(r == 9, "reference"); vf_reach("end"); }
#else
extern "C" void vh_c23_var() {}
#endif
static void w_stop() { X* x = gx; vf_await(&x->stop, 1, 0, 0, 0, 0); f0(); }
extern "C" void vh_c23_timed() { vf_cfg_timeouts = 1; X x; gx = &x; bool run = vf_bool(); x.stop = run; thread t(w_stop); bool past = vf_pick(2); int how = 1 + vf_pick(5); long t0 = gh_ms(how == 2 || how == 5 ? 0 : 1); bool r = jn(t, how, past); if (r) { vf_assert(run, "a timed join returned true before the thread has finished"); fin(&x); vf_assert(!t.joinable(), "joined"); } else { vf_assert(t.joinable(), "a timed join that failed leaves the thread joinable"); vf_assert(gh_after(how == 2 || how == 5 ? 0 : 1, t0 + (past ? -50 : 80)), "timed out before the deadline"); } vf_reach_if(r, "finished"); vf_reach_if(!r, "timed out"); gh_set(&x.stop, 1); if (!r) { t.join(); fin(&x); } }
// which thread does each handle stand for
struct H { int runs[2], at[2], go[2], up; };
static H* gh;
static void h0() { gh_inc(&gh->up); vf_await(&gh->go[0], 1, 0, 0, 0, 0); gh_inc(&gh->runs[0]); }
static void h1() { gh_inc(&gh->up); vf_await(&gh->go[1], 1, 0, 0, 0, 0); gh_inc(&gh->runs[1]); }
static void same(thread* t, thread::id* id) { for (int i = 0; i < 2; i++) { int k = gh->at[i]; vf_assert(t[i].joinable() == (k >= 0), "joinable exactly if it stands for a thread"); vf_assert(t[i].get_id() == (k < 0 ? thread::id() : id[k]), "get_id is that of its thread"); } }
static void handle(int ops) {
  vf_cfg_timeouts = 0; H h = {}; gh = &h; thread t[2]; thread::id id[2]; t[0] = thread(h0); id[0] = t[0].get_id(); t[1] = thread(h1); id[1] = t[1].get_id(); vf_await(&h.up, 2, 0, 0, 0, 0); vf_assert(id[0] != id[1], "ids differ"); h.at[0] = 0; h.at[1] = 1; same(t, id);
  int joined = 0, detached = 0;
  for (int n = 0; n < ops; n++) { int i = vf_pick(2), k = h.at[i];
    switch (vf_pick(5)) {
      case 0: if (k < 0) break; gh_set(&h.go[k], 1); t[i].join(); vf_assert(gh_get(&h.runs[k]) == 1, "joined before it ran"); h.at[i] = -1; joined++; break;
      case 1: t[i].detach(); if (k >= 0) detached++; h.at[i] = -1; break;
      case 2: { thread u(boost::move(t[i])); vf_assert(!t[i].joinable(), "moved from"); t[i] = boost::move(u); vf_assert(!u.joinable(), "moved from"); break; }
      case 3: t[i] = boost::move(t[1 - i]); if (k >= 0) detached++; h.at[i] = h.at[1 - i]; h.at[1 - i] = -1; break;
      default: if (vf_pick(2)) t[0].swap(t[1]); else swap(t[0], t[1]); h.at[i] = h.at[1 - i]; h.at[1 - i] = k; }
    same(t, id); vf_assert(vf_env_joined == joined && vf_env_detached == detached, "each thread is joined or detached once"); }
  gh_set(&h.go[0], 1); gh_set(&h.go[1], 1); for (int i = 0; i < 2; i++) if (h.at[i] >= 0) { t[i].join(); joined++; } vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(h.runs[0] == 1 && h.runs[1] == 1 && joined + detached == 2, "each runs once"); vf_reach("end"); }
extern "C" void vh_c23_handle() { handle(2); }
extern "C" void vh_c23_handle3() { handle(3); }
static thread* gt;
static void w_self() { vf_await(&gx->stop, 1, 0, 0, 0, 0); bool e = false; try { jn(*gt, vf_pick(6), false); } catch (thread_resource_error& q) { e = q.code() == system::errc::resource_deadlock_would_occur; } vf_assert(e, "joining oneself fails with resource_deadlock_would_occur"); vf_assert(gt->joinable(), "still joinable"); vf_reach("self join"); }
extern "C" void vh_c23_err() { vf_cfg_timeouts = 0; X x; gx = &x; thread t; if (vf_pick(2)) { t = thread(w_self); gt = &t; gh_set(&x.stop, 1); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); t.join(); return; }
  thread u; switch (vf_pick(4)) { case 0: break; case 1: t = thread(f0); t.join(); break; case 2: t = thread(f0); t.detach(); break; default: t = thread(f0); u = boost::move(t); } bool e = false; try { jn(t, vf_pick(6), vf_pick(2)); } catch (thread_resource_error& q) { e = q.code() == system::errc::invalid_argument; } vf_assert(e, "joining a handle that stands for no thread fails with invalid_argument"); vf_reach("not a thread"); if (u.joinable()) u.join(); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); }
static void w_throw() { if (gx->stop) throw thread_interrupted(); throw 5; }
extern "C" void vh_c23_term() { vf_cfg_timeouts = 0; X x; gx = &x; vf_cfg_terminate = 1; x.stop = vf_pick(2); thread t(w_throw); t.join(); vf_assert(x.stop, "an exception that is not thread_interrupted terminates the program"); vf_reach("interrupted"); }
static void w_join() { gt->join(); vf_assert(gh_get(&gx->done) == 1, "joined before it finished"); }
extern "C" void vh_c23_two() { vf_cfg_timeouts = 0; X x; gx = &x; thread t(f0); bool d = vf_bool(); if (d) { t.detach(); vf_assert(!t.joinable(), "detached"); thread u(f0); u.join(); vf_assert(x.runs >= 1, "ran"); } else { gt = &t; thread u(w_join); u.join(); vf_assert(!t.joinable(), "joined by the other thread"); } vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(x.runs == 1 + d, "once each"); vf_reach("end"); }
static int rd, rr;
static void w_race(int* p) { rr = *p + 1; }
extern "C" void vh_c23_race() { vf_cfg_timeouts = 0; X x; gx = &x; rd = 4; thread t(w_race, &rd); if (vf_bool()) t.join(); else while (!t.try_join_for(chrono::milliseconds(80))) ; vf_assert(rr == 5, "result"); vf_reach("end"); }
// C24
struct G { thread_group g; int runs[3], in, go; thread_group* o; };
static G* gg;
static void g_member() { G* g = gg; vf_await(&g->go, 1, 0, 0, 0, 0); vf_assert(g->g.is_this_thread_in() == (g->in >> (vf_tid() - 1) & 1), "is_this_thread_in"); gh_inc(&g->runs[vf_tid() - 1]); }
extern "C" void vh_c24_group() { vf_cfg_timeouts = 0; G g; g.runs[0] = g.runs[1] = g.runs[2] = g.go = 0; g.in = 3; gg = &g; bool add = vf_pick(2); thread* a = g.g.create_thread(g_member); thread* b; if (add) { b = new thread(g_member); g.g.add_thread(b); } else b = g.g.create_thread(g_member); bool rem = vf_pick(2); if (rem) { g.g.remove_thread(b); g.in = 1; }
  vf_assert(g.g.size() == (rem ? 1u : 2u), "size"); vf_assert(g.g.is_thread_in(a) && g.g.is_thread_in(b) == !rem && !g.g.is_this_thread_in() && !g.g.is_thread_in(0), "membership"); gh_set(&g.go, 1); g.g.join_all(); vf_assert(gh_get(&g.runs[0]) == 1 && (rem || gh_get(&g.runs[1]) == 1), "join_all returned before all threads have finished"); if (rem) { b->join(); delete b; } vf_assert(g.runs[0] == 1 && g.runs[1] == 1, "each ran once"); vf_reach("end"); }
static void nop() { gh_inc(&gx->runs); vf_await(&gx->stop, 1, 0, 0, 0, 0); }
static void life(int ops) { vf_cfg_timeouts = 0; X x; gx = &x; thread* p[2] = {0, 0}; bool in[2] = {false, false}; int n = 0, up = 0; { thread_group g;
  for (int i = 0; i < ops; i++) { int k = vf_pick(2); switch (vf_pick(3)) {
    case 0: if (!p[k]) { p[k] = g.create_thread(nop); in[k] = true; n++; vf_await(&x.runs, ++up, 0, 0, 0, 0); } break;
    case 1: if (!in[k]) { if (!p[k]) { p[k] = new thread(nop); vf_await(&x.runs, ++up, 0, 0, 0, 0); } g.add_thread(p[k]); in[k] = true; n++; } break;
    default: g.remove_thread(p[k]); if (in[k]) n--; in[k] = false; }
    vf_assert(g.size() == (size_t)n, "size"); for (int j = 0; j < 2; j++) vf_assert(g.is_thread_in(p[j]) == in[j], "is_thread_in"); }
  gh_set(&x.stop, 1); if (vf_pick(2)) { g.join_all(); for (int j = 0; j < 2; j++) vf_assert(!in[j] || !p[j]->joinable(), "joined"); }
  for (int j = 0; j < 2; j++) if (p[j] && !in[j]) { p[j]->join(); delete p[j]; } }
  vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_reach("end"); }
extern "C" void vh_c24_life() { life(3); }
extern "C" void vh_c24_life4() { life(4); }
static void g_self() { bool e = false; try { gg->g.join_all(); } catch (thread_resource_error& q) { e = q.code() == system::errc::resource_deadlock_would_occur; } vf_assert(e, "a member that joins all would wait for itself"); gh_inc(&gg->runs[0]); }
extern "C" void vh_c24_err() { vf_cfg_timeouts = 0; G g; g.runs[0] = 0; gg = &g; thread* a = g.g.create_thread(g_self); bool e = false; try { g.g.add_thread(a); } catch (thread_resource_error& q) { e = q.code() == system::errc::resource_deadlock_would_occur; } vf_assert((e || !a->joinable()) && g.g.size() == 1, "a thread is added once"); g.g.join_all(); vf_assert(g.runs[0] == 1, "ran"); vf_reach("end"); }
static int applied;
struct Count { void operator()(thread& t) { applied++; if (t.joinable()) { t.interrupt(); t.join(); } } };
static void s_fn() { X* x = gx; if (x->stop) { try { mutex m; condition_variable c; unique_lock<mutex> l(m); for (;;) c.wait(l); } catch (thread_interrupted&) {} } gh_inc(&x->runs); vf_sched(); gh_set(&x->done, 1); }
template <class F> static void scoped(int how, bool joins) { X* x = gx; thread away; bool here = true;
  if (how == 0) { strict_scoped_thread<F> s(s_fn); }
  else if (how == 1) { thread t(s_fn); thread_guard<F> s(t); }
  else { scoped_thread<F> s(s_fn); vf_assert(s.joinable() && s.get_id() != thread::id(), "wraps its thread"); if (how == 2) { scoped_thread<F> u(boost::move(s)); vf_assert(!s.joinable() && u.joinable(), "moved"); } else if (how == 3) { if (x->stop) s.interrupt(); s.join(); vf_assert(!s.joinable() && gh_get(&x->done), "joined"); } else if (how == 4) { if (x->stop) s.interrupt(); s.detach(); vf_assert(!s.joinable(), "detached"); here = false; } else if (how == 5) { scoped_thread<F> u; u.swap(s); vf_assert(!s.joinable() && u.joinable(), "swapped"); } else if (how == 6) { scoped_thread<F> u; u = boost::move(s); vf_assert(!s.joinable() && u.joinable(), "moved"); s = scoped_thread<F>(); } }
  if (joins && here) vf_assert(gh_get(&x->done), "the destructor returned before the thread has finished"); }
extern "C" void vh_c24_scoped() { vf_cfg_timeouts = 0; X x; gx = &x; applied = 0; int f = vf_pick(4), how = vf_pick(7); if (f >= 2) x.stop = vf_pick(2);
  if (f == 0) scoped<join_if_joinable>(how, true); else if (f == 1) scoped<detach_if_joinable>(how, false); else if (f == 2) scoped<interrupt_and_join_if_joinable>(how, true); else { scoped<Count>(how, true); vf_assert(applied == (how == 6 ? 5 : how == 2 || how == 5 ? 2 : 1), "the functor is applied on every destruction"); }
  vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(x.runs == 1, "ran once"); vf_reach("end"); }
static int res[2];
static void r_w0() { res[0] = 1; } static void r_w1() { res[1] = 2; }
extern "C" void vh_c24_race() { vf_cfg_timeouts = 0; X x; gx = &x; thread_group g; g.create_thread(r_w0); g.create_thread(r_w1); g.join_all(); vf_assert(res[0] + res[1] == 3, "results"); vf_reach("end"); }
static void p_fn() { gh_inc(&gg->runs[vf_tid() - 1]); try { mutex m; condition_variable c; unique_lock<mutex> l(m); while (gg->o == 0) c.wait(l); } catch (thread_interrupted&) { gh_inc(&gg->in); } }
static void p_ret() { gh_inc(&gg->runs[vf_tid() - 1]); }
extern "C" void vh_c24_part() { vf_cfg_timeouts = 0; G g; g.runs[0] = g.runs[1] = g.runs[2] = g.go = g.in = 0; g.o = 0; gg = &g; int gone = vf_pick(2); bool intr = vf_pick(2); if (!intr) g.o = &g.g; thread* t[2]; for (int i = 0; i < 2; i++) { t[i] = g.g.create_thread(i == gone ? p_ret : p_fn); if (i == gone) { if (vf_pick(2)) t[i]->join(); else t[i]->detach(); } }
  if (intr) g.g.interrupt_all(); g.g.join_all(); vf_assert(!t[1 - gone]->joinable() && g.runs[1 - gone] == 1 && g.in == intr, "a member that is joined or detached already does not keep the others from being interrupted and joined"); vf_assert(g.g.size() == 2, "size"); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_reach("end"); }
static int cr; static void c_fn() { gh_inc(&cr); }
struct CG { thread_group g; thread *p, *q, *n; int k; };
static void w_conc(CG* x) { switch (x->k) { case 0: x->g.add_thread(x->q); break; case 1: x->g.remove_thread(x->p); break; default: x->n = x->g.create_thread(c_fn); } }
extern "C" void vh_c24_conc() { vf_cfg_timeouts = 0; cr = 0; { CG x; x.n = 0; x.p = x.g.create_thread(c_fn); x.q = new thread(c_fn); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); x.k = vf_pick(3); int before = 1, after = x.k == 1 ? 0 : 2; vf_go(w_conc, &x);
  switch (vf_pick(3)) { case 0: { int s = (int)x.g.size(); vf_assert(s == before || s == after, "size"); break; } case 1: { bool in = x.g.is_thread_in(x.p); vf_assert(in || x.k == 1, "membership"); break; } default: x.g.interrupt_all(); }
  vf_joinall(); vf_assert((int)x.g.size() == after, "size"); vf_assert((x.k == 1) == !x.g.is_thread_in(x.p) || !x.p->joinable(), "membership"); x.g.join_all(); if (x.k != 0) { x.q->join(); delete x.q; } if (x.k == 1) { if (x.p->joinable()) x.p->join(); delete x.p; } } vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(cr >= 1, "ran"); vf_reach("end"); }
struct Ids { thread::id i[6]; int in, go; Ids() : in(0), go(0) {} }; static Ids* gids;
static void idt(int k) { gids->i[k] = this_thread::get_id(); vf_assert(gids->i[k] == this_thread::get_id(), "the id of a thread stays the same"); vf_hb_release(&gids->in); gh_inc(&gids->in); vf_await(&gids->go, 1, 0, 0, 0, 0); }
static void ids() { vf_cfg_timeouts = 0; Ids g; gids = &g; { thread a(&idt, 0), b(&idt, 1); vf_await(&g.in, 2, 0, 0, 0, 0); vf_hb_acquire(&g.in); g.i[2] = this_thread::get_id(); thread::id ia = a.get_id(); vf_assert(ia == g.i[0] && b.get_id() == g.i[1], "the handle and the thread agree"); thread c(boost::move(a)); vf_assert(c.get_id() == ia && a.get_id() == thread::id() && a.get_id() == g.i[3], "the id moves with the handle"); g.i[4] = c.get_id(); g.i[5] = g.i[2];
    static const int who[] = {0, 1, 2, 3, 0, 2}; hash<thread::id> h;
    for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) { thread::id const &p = g.i[x], &q = g.i[y]; bool e = who[x] == who[y]; vf_assert((p == q) == e && (p != q) == !e, "equal ids are ids of the same thread"); vf_assert((p < q) + (p > q) + e == 1 && (p <= q) == !(q < p) && (p >= q) == !(p < q) && (p < q) == (q > p), "ids are totally ordered"); if (e) vf_assert(h(p) == h(q), "equal ids have equal hashes"); for (int z = 0; z < 6; z++) vf_assert(!(p < q && q < g.i[z]) || p < g.i[z], "the order is transitive"); }
    gh_set(&g.go, 1); c.join(); b.join(); vf_assert(c.get_id() == thread::id() && b.get_id() == thread::id(), "no thread after the join"); } vf_reach("end"); }
extern "C" void vh_c23_id() { ids(); }
