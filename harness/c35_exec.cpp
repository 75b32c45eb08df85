// C35: loop, inline, thread and serial executors and the polymorphic wrappers.
// FLAGS -DBOOST_THREAD_VERSION=5
// ENTRY vh_c35_forms | props=C35 | weight=3 | reach=end;refused | bound=loop_executor, inline_executor, thread_executor, generic_executor_ref and executor_adaptor of them, executor pointers: 1 or 2 closures in 5 forms, close before, between or after
// ENTRY vh_c35_loop | props=C35 | weight=3 | reach=accepted;refused | bound=loop_executor with 1 looping thread, 2 submissions in another and a close at any moment
// ENTRY vh_c35_loop2 | props=C35 | weight=3 | reach=end | bound=loop_executor, 2 looping threads, 2 closures and a close
// ENTRY vh_c35_help | props=C35 | weight=2 | reach=end | bound=loop_executor, 1 looping thread, another calling try_executing_one and run_queued_closures, 2 closures
// ENTRY vh_c35_nest | props=C35 | weight=2 | reach=end | bound=loop_executor, closures that submit, close or reschedule
// ENTRY vh_c35_queued | props=C35 | reach=end | bound=run_queued_closures with up to 2 closures, one of which submits another
// ENTRY vh_c35_inline | props=C35 | weight=2 | reach=accepted;refused | bound=inline_executor, 2 submitting threads and a close at any moment
// ENTRY vh_c35_thread | props=C35 | weight=3 | reach=accepted;refused | bound=thread_executor, 2 submitting threads and a close at any moment
// ENTRY vh_c35_serial | props=C35 | weight=4 | reach=end;refused | bound=serial_executor on an inline_executor, 2 closures, a close before or after them, destruction
// ENTRY vh_c35_serial_thr | props=C35 | weight=4 | reach=end | bound=serial_executor on a thread_executor, 2 closures, destruction
// ENTRY vh_c35_serial_loop | props=C35 | weight=4 | reach=end | bound=serial_executor on a loop_executor run by 1 thread, 1 closure, destruction, close of the loop
// ENTRY vh_c35_serial_sub | props=C35 | weight=4 | reach=accepted;refused | bound=serial_executor on an inline_executor, another thread submitting 2 closures while it is closed
// ENTRY vh_c35_serial_throw | props=C35 | weight=3 | reach=end | bound=serial_executor on an inline_executor, a closure that throws
// ENTRY vh_c35_serial_throw2 | props=C35 | tier=thorough | reach=end | bound=the same with 2 closures
// ENTRY vh_c35_cont | props=C35 | weight=4 | reach=end;refused | bound=serial_executor_cont on a loop_executor or an inline_executor, 2 closures from 1 thread, close before, between or after
// ENTRY vh_c35_cont2 | props=C35 | weight=4 | reach=end | bound=serial_executor_cont on a thread_executor, 2 threads submitting 1 closure each
// ENTRY vh_c35_throw | props=C35 | reach=terminated | bound=a closure that throws, given to a loop, inline or thread executor
// ENTRY vh_c35_race | props=C35,C40 | reach=end | bound=1 closure publishing data through a loop executor
// ENTRY vh_c35_race2 | props=C35,C40 | weight=2 | reach=end | bound=1 closure publishing data through a serial executor
// ENTRY vh_c35_race3 | props=C35 | opts=--race | weight=2 | reach=accepted;refused;closed first | bound=serial_executor_cont on an inline_executor, 1 submission while another thread closes it and asks whether it is closed, all accesses checked for races
// ENTRY vh_c35_user | props=C35 | weight=3 | reach=accepted;refused | bound=user_scheduler with 1 looping thread, 2 submissions in another and a close at any moment
// ENTRY vh_c35_user_seq | props=C35 | weight=2 | reach=end;refused | bound=user_scheduler: 1 or 2 closures in 5 forms, close before, between or after; run_queued_closures and reschedule_until with up to 2 closures; destruction
// ENTRY vh_c35_user_throw | props=C35 | reach=terminated | bound=a closure that throws, given to a user_scheduler
#include "vfh.h"
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/user_scheduler.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
using namespace boost;
struct X { int ran[4], who[4], n, in, acc[2], cl; X() : n(0), in(0), cl(0) { acc[0] = acc[1] = 0; for (int i = 0; i < 4; i++) { ran[i] = 0; who[i] = -1; } } }; static X* gx;
static void body(int i) { gh_inc(&gx->ran[i]); gh_set(&gx->who[i], vf_tid()); gh_inc(&gx->n); }
struct Fn { int i; void operator()() { body(i); } }; struct Mv { int i; Mv(int k) : i(k) {} Mv(Mv&& o) : i(o.i) { o.i = 3; } Mv(Mv const&) = delete; void operator()() { body(i); } };
static void f0() { body(0); } static void f1() { body(1); }
template <class E> static void give(E& p, int i, int form) { switch (form) { case 0: p.submit(i ? &f1 : &f0); break; case 1: { Fn f = {i}; p.submit(f); break; } case 2: { Mv m(i); p.submit(boost::move(m)); break; } case 3: { Fn f = {i}; executors::work w(f); p.submit(boost::move(w)); break; } default: { Fn f = {i}; p.submit(boost::move(f)); } } }
template <class E> static bool gave(E& p, int i, int form) { try { give(p, i, form); return true; } catch (sync_queue_is_closed&) { return false; } }
static void all(X& x, int m) { for (int i = 0; i < 4; i++) vf_assert(gh_get(&x.ran[i]) == (m >> i & 1), "every accepted closure runs exactly once, and no other"); }
struct NF { template <class E> void operator()(E&) const {} };
struct Drain { template <class E> void operator()(E& e) const { while (e.try_executing_one()) {} } };
// n closures, closed after c of them; fin runs what is queued
template <class E, class Fin> static void forms(E& e, Fin const& fin, int form, bool serial) { X& x = *gx; int c = vf_pick(3), m = 0; vf_assert(!e.closed(), "open"); for (int i = 0; i < 2; i++) { if (c == i) { e.close(); vf_assert(e.closed(), "closed"); } bool r = gave(e, i, i && form == 2 ? 1 : form); vf_assert(r == (i < c), "submissions are refused once closed"); if (r) m |= 1 << i; else vf_reach("refused"); vf_assert(e.closed() == (i >= c), "closed"); } fin(e); if (serial) all(x, m); x.cl = m; }
extern "C" void vh_c35_forms() { vf_cfg_timeouts = 0; X x; gx = &x; int form = vf_pick(5); switch (vf_pick(8)) { case 0: { loop_executor e; forms(e, Drain(), form, true); break; } case 1: { inline_executor e; forms(e, NF(), form, true); break; } case 2: { thread_executor e; forms(e, NF(), form, false); break; }
    case 3: { loop_executor l; generic_executor_ref e(l); forms(e, Drain(), form, true); vf_assert(l.closed() == e.closed(), "the same"); break; } case 4: { inline_executor l; generic_executor_ref g(l), e(g); forms(e, NF(), form, true); break; } case 5: { executor_adaptor<loop_executor> e; forms(e, Drain(), form, true); vf_assert(e.underlying_executor().closed() == e.closed(), "the same"); break; } case 6: { executor_adaptor<inline_executor> a; executor& e = a; forms(e, Drain(), form, true); break; } default: { loop_executor l; executor_ref<loop_executor> r(l); executor& e = r; forms(e, Drain(), form, true); } }
  all(x, x.cl); vf_reach("end"); }
struct LX : X { loop_executor e; }; static LX* gl;
static void w_sub(LX* x) { for (int i = 0; i < 2; i++) { bool r = gave(x->e, i, 1); vf_assert(r ? gh_get(&x->acc[0]) == i : true, "nothing is accepted after a refusal"); if (r) gh_inc(&x->acc[0]); } gh_set(&x->cl, 1); }
static void w_loop(LX* x) { x->e.loop(); vf_assert(x->e.closed() && !x->e.try_executing_one(), "the loop ends once closed and empty"); }
static int mask(int n) { return (1 << n) - 1; }
extern "C" void vh_c35_loop() { vf_cfg_timeouts = 0; LX x; gx = &x; vf_go(w_loop, &x); vf_go(w_sub, &x); x.e.close(); vf_assert(!gave(x.e, 2, 1), "refused once closed"); vf_joinall(); all(x, mask(x.acc[0])); for (int i = 0; i < x.acc[0]; i++) vf_assert(x.who[i] == 1, "in the looping thread"); if (x.acc[0]) vf_reach("accepted"); if (x.acc[0] < 2) vf_reach("refused"); }
extern "C" void vh_c35_loop2() { vf_cfg_timeouts = 0; LX x; gx = &x; vf_go(w_loop, &x); vf_go(w_loop, &x); give(x.e, 0, 1); give(x.e, 1, 1); x.e.close(); vf_joinall(); all(x, 3); vf_reach("end"); }
static void w_help(LX* x) { if (vf_pick(2)) { int b = gh_get(&x->n); if (x->e.try_executing_one()) vf_assert(x->who[0] == vf_tid() || x->who[1] == vf_tid(), "the helper ran one"); } else x->e.run_queued_closures(); }
extern "C" void vh_c35_help() { vf_cfg_timeouts = 0; LX x; gx = &x; vf_go(w_loop, &x); give(x.e, 0, 1); vf_go(w_help, &x); give(x.e, 1, 1); x.e.close(); vf_joinall(); all(x, 3); vf_reach("end"); }
struct P1 { bool operator()() const { return gh_get(&gx->ran[1]) != 0; } };
struct Nest { int k; void operator()() { body(0); if (k == 0) give(gl->e, 2, 1); else if (k == 1) gl->e.close(); else { bool r = gl->e.reschedule_until(P1()); vf_assert(r && gh_get(&gx->ran[1]), "runs others until the predicate holds"); } } };
extern "C" void vh_c35_nest() { vf_cfg_timeouts = 0; LX x; gx = &x; gl = &x; int k = vf_pick(3); Nest f = {k}; x.e.submit(f); give(x.e, 1, 1); if (k != 1) { if (k == 2) x.e.close(); vf_go(w_loop, &x); if (k == 0) { vf_await(&x.n, 3, 0, 0, 0, 0); x.e.close(); } vf_joinall(); } else x.e.loop(); all(x, k == 0 ? 7 : 3); vf_reach("end"); }
extern "C" void vh_c35_queued() { vf_cfg_timeouts = 0; LX x; gx = &x; gl = &x; int n = vf_pick(3); if (n) { Nest f = {0}; x.e.submit(f); } if (n > 1) give(x.e, 1, 1); x.e.run_queued_closures(); all(x, mask(n)); vf_assert(x.e.try_executing_one() == (n > 0), "what was submitted meanwhile is still there"); all(x, n == 0 ? 0 : n == 1 ? 5 : 7); x.e.run_queued_closures(); all(x, n == 0 ? 0 : n == 1 ? 5 : 7); vf_reach("end"); }
template <class E> struct SX : X { E e; }; template <class E> struct Sub { static void go(SX<E>* x) { if (gave(x->e, 0, 1)) gh_inc(&x->acc[0]); } };
template <class E> static void subs(bool inl) { vf_cfg_timeouts = 0; int a = 0, b = 0; { SX<E> x; gx = &x; vf_go(Sub<E>::go, &x); if (vf_pick(2)) { bool r = gave(x.e, 1, 1); vf_assert(r, "open"); b = r; if (inl) vf_assert(gh_get(&x.ran[1]) == 1 && x.who[1] == 0, "runs in the submitting thread, at once"); } x.e.close(); vf_assert(x.e.closed(), "closed"); vf_assert(!gave(x.e, 2, 1), "refused once closed"); vf_joinall(); a = x.acc[0]; if (inl) all(x, a + b * 2);
    vf_assert(x.e.closed(), "closed"); x.e.~E(); all(x, a + b * 2); new (&x.e) E; } vf_reach_if(a, "accepted"); vf_reach_if(!a, "refused"); }
extern "C" void vh_c35_inline() { subs<inline_executor>(true); }
extern "C" void vh_c35_thread() { subs<thread_executor>(false); }
// serial executors: one at a time, in order
struct Sr { int i; void operator()() { vf_assert(gh_get(&gx->in) == 0, "one closure at a time"); gh_set(&gx->in, 1); vf_assert(gh_get(&gx->n) == i, "in the order of submission"); gh_inc(&gx->ran[i]); vf_sched(); gh_inc(&gx->n); gh_set(&gx->in, 0); } };
template <class S> static bool srv(S& s, int i) { Sr f = {i}; try { s.submit(f); return true; } catch (sync_queue_is_closed&) { return false; } }
extern "C" void vh_c35_serial() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; X x; gx = &x; inline_executor u; int c = vf_pick(4); { serial_executor s(u); for (int i = 0; i < 2; i++) { if (c == i) s.close(); bool r = srv(s, i); vf_assert(r == (i < c), "submissions are refused once closed"); if (!r) vf_reach("refused"); } if (c == 2) s.close(); vf_assert(s.closed() == (c < 3), "closed"); } all(x, mask(c < 2 ? c : 2)); vf_reach("end"); }
extern "C" void vh_c35_serial_thr() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; X x; gx = &x; { thread_executor u; { serial_executor s(u); srv(s, 0); srv(s, 1); } all(x, 3); } vf_reach("end"); }
extern "C" void vh_c35_serial_loop() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; LX x; gx = &x; vf_go(w_loop, &x); { serial_executor s(x.e); srv(s, 0); } all(x, 1); x.e.close(); vf_joinall(); vf_reach("end"); }
struct SS : X { inline_executor u; serial_executor s; SS() : s(u) {} }; static void w_ss(SS* x) { for (int i = 0; i < 2; i++) if (srv(x->s, i)) gh_inc(&x->acc[0]); }
extern "C" void vh_c35_serial_sub() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; X y; int a; { SS x; gx = &x; vf_go(w_ss, &x); x.s.close(); vf_assert(!srv(x.s, 3), "refused once closed"); vf_joinall(); a = x.acc[0]; y.acc[1] = a; x.s.~serial_executor(); all(x, mask(a)); new (&x.s) serial_executor(x.u); } if (a) vf_reach("accepted"); if (a < 2) vf_reach("refused"); }
struct Bang { void operator()() { gh_inc(&gx->ran[3]); throw 5; } };
struct Sr1 { void operator()() { Sr f = {0}; f(); } };
static void sthrow(bool two) { vf_cfg_timeouts = 0; vf_cfg_yield = 1; X x; gx = &x; inline_executor u; { Bang b; serial_executor s(u); s.submit(b); if (two) s.submit(b); } vf_assert(x.ran[3] == (two ? 2 : 1), "every accepted closure runs exactly once, although they throw"); vf_reach("end"); }
extern "C" void vh_c35_serial_throw() { sthrow(false); }
extern "C" void vh_c35_serial_throw2() { sthrow(true); }
struct CX : X { loop_executor l; };
extern "C" void vh_c35_cont() { vf_cfg_timeouts = 0; CX x; gx = &x; int c = vf_pick(3); { inline_executor in; loop_executor& l = x.l; int k = vf_pick(2); generic_executor_ref u = k ? generic_executor_ref(l) : generic_executor_ref(in); serial_executor_cont s(u); vf_assert(!s.closed(), "open"); for (int i = 0; i < 2; i++) { if (c == i) s.close(); bool r = srv(s, i); vf_assert(r == (i < c), "submissions are refused once closed"); if (!r) vf_reach("refused"); } vf_assert(s.closed() == (c < 2), "closed"); if (k) while (l.try_executing_one()) {} all(x, mask(c)); } vf_reach("end"); }
struct C2 : X { thread_executor u; serial_executor_cont s; int nn; C2() : s(u), nn(0) {} }; struct Sa { int i; void operator()() { vf_assert(gh_get(&gx->in) == 0, "one closure at a time"); gh_set(&gx->in, 1); gh_inc(&gx->ran[i]); vf_sched(); gh_inc(&gx->n); gh_set(&gx->in, 0); if (i == 1) vf_assert(gh_get(&gx->ran[0]) == 1, "in the order of submission"); } };
static void w_c2(C2* x) { Sa f = {2}; x->s.submit(f); }
static void cont2(int n) { vf_cfg_timeouts = 0; C2 x; gx = &x; vf_go(w_c2, &x); for (int i = 0; i < n; i++) { Sa f = {i}; x.s.submit(f); } vf_joinall(); vf_await(&x.n, n + 1, 0, 0, 0, 0); x.u.~thread_executor(); all(x, 4 + mask(n)); new (&x.u) thread_executor; vf_reach("end"); }
extern "C" void vh_c35_cont2() { cont2(1); }
extern "C" void vh_c35_throw() { vf_cfg_timeouts = 0; vf_cfg_terminate = 1; X x; gx = &x; Bang b; switch (vf_pick(3)) { case 0: { loop_executor e; e.submit(b); e.try_executing_one(); break; } case 1: { inline_executor e; e.submit(b); break; } default: { thread_executor e; e.submit(b); } } vf_assert(0, "a closure that throws terminates the program"); }
static int data; struct Pub { void operator()() { data++; } };
static void w_rl(loop_executor* e) { e->loop(); }
extern "C" void vh_c35_race() { vf_cfg_timeouts = 0; data = 5; Pub f; loop_executor e; vf_go(w_rl, &e); e.submit(f); e.close(); vf_joinall(); vf_assert(data == 6, "published"); vf_reach("end"); }
extern "C" void vh_c35_race2() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; data = 5; Pub f; inline_executor u; { serial_executor s(u); s.submit(f); } vf_assert(data == 6, "published"); vf_reach("end"); }
struct C3 { inline_executor u; serial_executor_cont s; int acc; C3() : s(u), acc(0) {} }; static void w_c3(C3* x) { x->s.close(); vf_assert(x->s.closed(), "closed"); }
extern "C" void vh_c35_race3() { vf_cfg_timeouts = 0; data = 5; C3 x; Pub f; vf_go(w_c3, &x); if (x.s.closed()) vf_reach("closed first"); bool ok = true; try { x.s.submit(f); } catch (sync_queue_is_closed&) { ok = false; } vf_joinall(); vf_assert(data == (ok ? 6 : 5), "run if and only if accepted"); vf_reach(ok ? "accepted" : "refused"); }
struct UX : X { user_scheduler e; }; static void w_us(UX* x) { for (int i = 0; i < 2; i++) { bool r = gave(x->e, i, 1); vf_assert(r ? gh_get(&x->acc[0]) == i : true, "nothing is accepted after a refusal"); if (r) gh_inc(&x->acc[0]); } } static void w_ul(UX* x) { x->e.loop(); vf_assert(x->e.closed() && !x->e.try_executing_one(), "the loop ends once closed and empty"); }
extern "C" void vh_c35_user() { vf_cfg_timeouts = 0; vf_cfg_yield = 1; UX x; gx = &x; vf_go(w_ul, &x); vf_go(w_us, &x); x.e.close(); vf_assert(!gave(x.e, 2, 1), "refused once closed"); vf_joinall(); all(x, mask(x.acc[0])); for (int i = 0; i < x.acc[0]; i++) vf_assert(x.who[i] == 1, "in the looping thread"); if (x.acc[0]) vf_reach("accepted"); if (x.acc[0] < 2) vf_reach("refused"); }
extern "C" void vh_c35_user_seq() { vf_cfg_timeouts = 0; X x; gx = &x; { user_scheduler e; if (vf_pick(2)) forms(e, Drain(), vf_pick(5), true); else { int n = vf_pick(3); for (int i = 0; i < n; i++) give(e, i, 1); if (vf_pick(2)) e.run_queued_closures(); else vf_assert(e.reschedule_until(P1()) == (n == 2), "runs others until the predicate holds"); x.cl = mask(n); all(x, x.cl); vf_assert(!e.try_executing_one(), "nothing is left"); } } all(x, x.cl); vf_reach("end"); }
extern "C" void vh_c35_user_throw() { vf_cfg_timeouts = 0; vf_cfg_terminate = 1; X x; gx = &x; Bang b; user_scheduler e; e.submit(boost::move(b)); e.try_executing_one(); vf_assert(0, "a closure that throws terminates the program"); }
