// C36: scheduler, scheduling_adaptor, scheduled_thread_pool and the executors made from them.
// FLAGS -DBOOST_THREAD_VERSION=5
// ENTRY vh_c36_one | props=C36 | weight=3 | reach=end | bound=scheduler, scheduling_adaptor, scheduled_thread_pool of 1 thread: 1 closure in each of 8 ways, due -50, 80 or 150 ms, waited for, destruction
// ENTRY vh_c36_order | props=C36 | weight=4 | reach=end;in order | bound=scheduler, 2 closures due -50, 80 or 150 ms, waited for
// ENTRY vh_c36_order3 | props=C36 | tier=thorough | reach=end;in order | bound=the same with 3 closures
// ENTRY vh_c36_adaptor | props=C36 | weight=3 | reach=end | bound=scheduling_adaptor or scheduled_thread_pool of 1 thread, 2 closures
// ENTRY vh_c36_pool | props=C36 | weight=4 | reach=end | bound=scheduled_thread_pool of 2 threads, 1 closure due -50 or 80 ms
// ENTRY vh_c36_pool2 | props=C36 | tier=thorough | reach=end | bound=the same with 2 closures that are due
// ENTRY vh_c36_close | props=C36 | weight=3 | reach=end;refused;accepted | bound=a scheduler or a made executor closed at any moment while another thread submits
// ENTRY vh_c36_destroy | props=C36 | weight=3 | reach=end;dropped;run | bound=all three destroyed with up to 2 closures pending that are due or not, without waiting
// ENTRY vh_c36_swallow | props=C36 | weight=3 | reach=end;run;interrupted | bound=all three destroyed while a closure that is due (it catches an interruption) runs or waits, a second one pending
// ENTRY vh_c36_nest | props=C36 | weight=2 | reach=end | bound=a closure that submits another one, or closes the scheduler
// ENTRY vh_c36_system | props=C36 | weight=2 | reach=end | bound=scheduler<system_clock>, 1 closure in 3 ways, due -50, 80 or 150 ms
// ENTRY vh_c36_exec | props=C36 | weight=2 | reach=end;refused | bound=executors made by at, after and on: close of the executor, of the scheduler and of the underlying executor before or between 2 closures
// ENTRY vh_c36_throw | props=C36 | reach=terminated | bound=a closure that throws
// ENTRY vh_c36_fail | props=C36,C39 | weight=2 | reach=end;failed | bound=one resource request of a constructor fails (thread, memory, mutex, condition variable)
// ENTRY vh_c36_race | props=C36,C40 | weight=2 | reach=end | bound=1 closure publishing data
#include "vfh.h"
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <new>
using namespace boost; typedef chrono::steady_clock SC; typedef chrono::milliseconds ms;
struct X { int ran[4], acc[4], n; long due[4], at[4]; int sys, order; X() : n(0), sys(0), order(0) { for (int i = 0; i < 4; i++) { ran[i] = acc[i] = 0; due[i] = at[i] = 0; } } }; static X* gx;
extern "C" { static __attribute__((noinline)) int gh_before(X* x, int i) { for (int j = 0; j < 4; j++) if (x->acc[j] && !x->ran[j] && x->due[j] < x->due[i] && x->at[j] < x->due[i]) return j; return -1; } }
extern "C" { static __attribute__((noinline)) long gh_due(X* x, int i) { return x->due[i]; } static __attribute__((noinline)) void gh_acc(X* x, int i) { x->at[i] = gh_ms(x->sys ? 0 : 1); x->acc[i] = 1; } static __attribute__((noinline)) void gh_plan(X* x, int i, long d) { x->due[i] = gh_ms(x->sys ? 0 : 1) + d; } }
static void body(int i) { int c = gx->sys ? 0 : 1; vf_assert(gh_after(c, gh_due(gx, i)), "never before its time"); if (gx->order) { vf_assert(gh_before(gx, i) < 0, "in the order of the due times"); vf_reach("in order"); } gh_inc(&gx->ran[i]); gh_inc(&gx->n); }
struct Fn { int i; void operator()() { body(i); } };
static long pickd() { int d = vf_pick(3); return d == 0 ? -50 : d == 1 ? 80 : 150; }
template <class S> static void at_(S& s, int i, long d, int w) { typedef typename S::clock C; Fn f = {i}; gh_plan(gx, i, d); typename S::work k(f); if (w) s.submit_after(k, ms(d)); else s.submit_at(boost::move(k), C::now() + ms(d)); gh_acc(gx, i); }
template <class S, class U> static void made(S& s, U& u, int i, long d, int w) { typedef typename S::clock C; Fn f = {i}; gh_plan(gx, i, d); switch (w) { case 0: case 1: at_(s, i, d, w); return; case 2: s.at(C::now() + ms(d)).submit(f); break; case 3: s.after(ms(d)).submit(f); break; case 4: s.on(u).at(C::now() + ms(d)).submit(f); break; case 5: s.on(u).after(ms(d)).submit(boost::move(f)); break; case 6: s.at(C::now() + ms(d)).on(u).submit(f); break; default: s.after(ms(d)).on(u).submit(f); } gh_acc(gx, i); }
typedef scheduler<> S; typedef scheduling_adaptor<inline_executor> SA; typedef scheduled_thread_pool SP;
static void wait(X& x, int n) { vf_await(&x.n, n, 0, 0, 0, 0); }
static void all(X& x, int n) { for (int i = 0; i < 4; i++) vf_assert(gh_get(&x.ran[i]) == (i < n), "every closure whose time comes runs exactly once"); }
extern "C" void vh_c36_one() { X x; gx = &x; int th = vf_env_threads; long d = pickd(); inline_executor u; switch (vf_pick(3)) { case 0: { S s; vf_assert(!s.closed(), "open"); made(s, u, 0, d, vf_pick(8)); wait(x, 1); break; } case 1: { SA s(u); vf_assert(&s.underlying_executor() == &u, "the executor"); at_(s, 0, d, vf_pick(2)); wait(x, 1); break; } default: { SP s(1); at_(s, 0, d, vf_pick(2)); wait(x, 1); } } all(x, 1); vf_assert(vf_env_threads == th, "the threads are gone"); vf_reach("end"); }
static void order(int n) { X x; gx = &x; x.order = 1; { S s; for (int i = 0; i < n; i++) at_(s, i, pickd(), i & 1); wait(x, n); } all(x, n); vf_reach("end"); }
extern "C" void vh_c36_order() { order(2); }
extern "C" void vh_c36_order3() { order(3); }
extern "C" void vh_c36_adaptor() { X x; gx = &x; x.order = 1; inline_executor u; if (vf_pick(2)) { SA s(u); for (int i = 0; i < 2; i++) at_(s, i, pickd(), 1); wait(x, 2); } else { SP s(1); for (int i = 0; i < 2; i++) at_(s, i, pickd(), 1); wait(x, 2); } all(x, 2); vf_reach("end"); }
static void pool(int n) { X x; gx = &x; int th = vf_env_threads; { SP s(2); for (int i = 0; i < n; i++) at_(s, i, n == 1 && vf_pick(2) ? 80 : -50, 1); wait(x, n); } all(x, n); vf_assert(vf_env_threads == th, "the threads are gone"); vf_reach("end"); }
extern "C" void vh_c36_pool() { pool(1); }
extern "C" void vh_c36_pool2() { pool(2); }
template <class F> static bool ok(F f) { try { f(); return true; } catch (sync_queue_is_closed&) { return false; } }
struct SX : X { S s; int a; SX() : a(0) {} };
static void w_sub(SX* x) { for (int i = 0; i < 2; i++) { bool r = ok([&] { if (i) x->s.after(ms(-50)).submit(Fn{i}); else x->s.submit_after(S::work(Fn{i}), ms(-50)); }); if (r) { vf_assert(x->a == i, "nothing is accepted after a refusal"); gh_inc(&x->a); } } }
static void plan(X& x) { for (int i = 0; i < 4; i++) gh_plan(&x, i, -50); }
extern "C" void vh_c36_close() { vf_cfg_timeouts = 0; SX x; gx = &x; plan(x); vf_go(w_sub, &x); x.s.close(); vf_assert(x.s.closed(), "closed"); vf_assert(!ok([&] { x.s.submit_at(S::work(Fn{3}), SC::now()); }) && !ok([&] { x.s.at(SC::now()).submit(Fn{3}); }), "no new work is accepted after a close"); vf_joinall(); int a = x.a; wait(x, a); all(x, a); vf_reach_if(a > 0, "accepted"); vf_reach_if(a < 2, "refused"); vf_reach("end"); }
extern "C" void vh_c36_destroy() { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads, n = vf_pick(3); long d[2] = {vf_pick(2) ? 80 : -50, vf_pick(2) ? 80 : -50}; inline_executor u; switch (vf_pick(3)) { case 0: { S s; for (int i = 0; i < n; i++) at_(s, i, d[i], 1); break; } case 1: { SA s(u); for (int i = 0; i < n; i++) at_(s, i, d[i], 1); break; } default: { SP s(1); for (int i = 0; i < n; i++) at_(s, i, d[i], 1); } } vf_assert(vf_env_threads == th, "the threads are gone"); for (int i = 0; i < 4; i++) vf_assert(x.ran[i] <= (i < n && d[i] < 0), "at most once, and only what is due"); vf_reach_if(x.n < n, "dropped"); vf_reach_if(x.n > 0, "run"); vf_reach("end"); }
struct Ns { int k; void operator()() { body(0); SX* x = (SX*)gx; if (k) x->s.close(); else at_(x->s, 1, 80, 1); } };
struct Sw { int i; void operator()() { try { gh_inc(&gx->ran[i]); this_thread::interruption_point(); vf_sched(); this_thread::interruption_point(); } catch (thread_interrupted&) { vf_reach("interrupted"); } gh_inc(&gx->n); } };
template <class E> static void sw(E& e) { Sw f = {0}; e.submit_after(typename E::work(f), ms(-50)); if (vf_pick(2)) { Sw g = {1}; e.submit_after(typename E::work(g), ms(vf_pick(2) ? 80 : -50)); } }
extern "C" void vh_c36_swallow() { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads; inline_executor u; switch (vf_pick(3)) { case 0: { S s; sw(s); break; } case 1: { SA s(u); sw(s); break; } default: { SP s(1); sw(s); } } vf_assert(vf_env_threads == th, "the threads are gone"); vf_assert(x.ran[0] <= 1 && x.ran[1] <= 1 && x.n == x.ran[0] + x.ran[1], "at most once, and completely"); vf_reach_if(x.n > 0, "run"); vf_reach("end"); }
extern "C" void vh_c36_nest() { { SX x; gx = &x; plan(x); int k = vf_pick(2); Ns f = {k}; x.s.submit_after(S::work(f), ms(-50)); wait(x, k ? 1 : 2); all(x, k ? 1 : 2); } vf_reach("end"); }
extern "C" void vh_c36_system() { X x; gx = &x; x.sys = 1; inline_executor u; { scheduler<chrono::system_clock> s; int w = vf_pick(3); made(s, u, 0, pickd(), w == 2 ? 5 : w * 2); wait(x, 1); } all(x, 1); vf_reach("end"); }
extern "C" void vh_c36_exec() { vf_cfg_timeouts = 0; X x; gx = &x; plan(x); int n = 0; { S s; inline_executor l; int c = vf_pick(3), what = vf_pick(3); at_executor<S> a = s.at(SC::now() - ms(50)); resubmit_at_executor<S, inline_executor> r = vf_pick(2) ? s.on(l).after(ms(-50)) : a.on(l); bool re = vf_pick(2); vf_assert(&a.underlying_scheduler() == &s && &r.underlying_scheduler() == &s && &r.underlying_executor() == &l, "what they were made of"); for (int i = 0; i < 2; i++) { if (c == i) { switch (what) { case 0: s.close(); break; case 1: l.close(); break; default: a.close(); r.close(); } } bool shut = c <= i && (what != 1 || re); bool g = re ? ok([&] { r.submit(Fn{i}); }) : ok([&] { a.submit(Fn{i}); }); vf_assert(g == !shut, "refused once closed"); vf_assert((re ? r.closed() : a.closed()) == shut, "closed"); if (g) n++; else vf_reach("refused"); if (g) wait(x, n); } wait(x, n); } all(x, n); vf_reach("end"); }
struct Bang { void operator()() { throw 5; } };
extern "C" void vh_c36_throw() { vf_cfg_timeouts = 0; vf_cfg_terminate = 1; int never = 0; S s; s.submit_after(S::work(Bang()), ms(-50)); vf_await(&never, 1, 0, 0, 0, 0); }
extern "C" void vh_c36_fail() { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads; inline_executor u; vf_cfg_fail = 1; vf_cfg_failmask = 1 | 2 | 4 | 8; bool ex = false; try { switch (vf_pick(3)) { case 0: { S s; vf_cfg_fail = 0; break; } case 1: { SA s(u); vf_cfg_fail = 0; break; } default: { SP s(2); vf_cfg_fail = 0; } } } catch (thread_resource_error&) { ex = true; } catch (std::bad_alloc&) { ex = true; } vf_cfg_fail = 0; vf_assert(ex == (vf_env_failed > 0), "a failure is reported with an exception"); vf_assert(vf_env_threads == th, "the threads are gone"); if (ex) vf_reach("failed"); vf_reach("end"); }
static int data; struct Pub { int* n; void operator()() { vf_assert(data == 5, "published"); gh_inc(n); } };
extern "C" void vh_c36_race() { vf_cfg_timeouts = 0; X x; gx = &x; S s; data = 5; Pub f = {&x.n}; s.submit_after(S::work(f), ms(-50)); vf_assert(!s.closed(), "open"); wait(x, 1); vf_reach("end"); }
