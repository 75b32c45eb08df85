// C34: basic_thread_pool.
// FLAGS -DBOOST_THREAD_VERSION=5
// ENTRY vh_c34_run | props=C34 | weight=4 | reach=end;joined;destroyed | bound=pool of 1 thread, 1 or 2 closures submitted in 5 forms, destroyed at once, or closed and joined first, or helped by try_executing_one
// ENTRY vh_c34_two | props=C34 | weight=5 | reach=end | bound=pool of 2 threads, 2 closures, closed and joined
// ENTRY vh_c34_two_d | props=C34 | tier=thorough | reach=end | bound=pool of 2 threads, 2 closures, destroyed at once
// ENTRY vh_c34_close | props=C34 | weight=3 | reach=accepted;refused | bound=pool of 1 thread, another thread submitting 2 closures while the pool is closed
// ENTRY vh_c34_nest | props=C34 | weight=3 | reach=end;refused;accepted | bound=pool of 1 thread, a closure that submits another one while the pool is closed or destroyed
// ENTRY vh_c34_resched | props=C34 | weight=2 | reach=end | bound=pool of 1 thread, a closure that runs others with reschedule_until or schedule_one_or_yield
// ENTRY vh_c34_entry | props=C34 | weight=2 | reach=end | bound=pool of 1 or 2 threads with an entry function given as a pointer or as an object
// ENTRY vh_c34_entrymove | props=C34 | reach=end | bound=pool of 1 or 2 threads with an entry function given as a temporary whose state moves
// ENTRY vh_c34_nested | props=C34 | weight=3 | reach=end | bound=a closure that waits for a result which another closure of the same pool of 2 threads provides
// ENTRY vh_c34_interrupt | props=C34 | weight=3 | reach=end | bound=pool of 1 thread whose 1st closure reaches an interruption point, a 2nd closure, destruction at any moment
// ENTRY vh_c34_throw | props=C34 | reach=terminated | bound=a closure that throws, run by the pool or by a helper
// ENTRY vh_c34_fail | props=C34,C39 | weight=2 | reach=end;failed | bound=pool of 2 threads, one resource request of the constructor fails (thread, memory, mutex, condition variable)
// ENTRY vh_c34_race | props=C34,C40 | weight=2 | reach=end | bound=pool of 1 thread, 1 closure publishing data, joined
#include "vfh.h"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <new>
using namespace boost;
typedef basic_thread_pool Pool;
struct X { int ran[4], who[4], n, entered, acc; Pool* p; X() : n(0), entered(0), acc(0), p(0) { for (int i = 0; i < 4; i++) { ran[i] = 0; who[i] = -1; } } }; static X* gx;
static void body(int i) { gh_inc(&gx->ran[i]); gh_set(&gx->who[i], vf_tid()); }
struct Fn { int i; void operator()() { body(i); } }; struct Mv { int i; Mv(int k) : i(k) {} Mv(Mv&& o) : i(o.i) { o.i = 3; } Mv(Mv const&) = delete; void operator()() { body(i); } };
static void f0() { body(0); } static void f1() { body(1); }
static void give(Pool& p, int i, int form) { switch (form) { case 0: p.submit(i ? &f1 : &f0); break; case 1: { Fn f = {i}; p.submit(f); break; } case 2: { Mv m(i); p.submit(boost::move(m)); break; } case 3: { Fn f = {i}; Pool::work w(f); p.submit(boost::move(w)); break; } default: { const Fn f = {i}; p.submit(f); } } }
static bool gave(Pool& p, int i, int form) { try { give(p, i, form); return true; } catch (sync_queue_is_closed&) { return false; } }
static void all(X& x, int n, bool pool = true) { for (int i = 0; i < 4; i++) { vf_assert(gh_get(&x.ran[i]) == (i < n), "every accepted closure runs exactly once"); if (pool && i < n) vf_assert(x.who[i] != vf_tid(), "on a thread of the pool"); } }
extern "C" void vh_c34_run() { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads, n = 1 + vf_pick(2), how = vf_pick(4); { Pool p(1); vf_assert(!p.closed(), "open"); int form = vf_pick(5); for (int i = 0; i < n; i++) give(p, i, i ? 1 : form); bool helped = false;
    switch (how) { case 0: break; case 1: p.close(); vf_assert(p.closed(), "closed"); p.join(); all(x, n); vf_assert(!gave(p, 3, 0), "refused once closed"); vf_reach("joined"); break; case 2: helped = p.try_executing_one(); if (helped) vf_assert(gh_get(&x.ran[0]) + gh_get(&x.ran[1]) > 0 && (x.who[0] == vf_tid() || x.who[1] == vf_tid()), "the helper ran one"); break; default: p.close(); vf_assert(!gave(p, 3, form), "refused once closed"); vf_assert(p.closed(), "closed"); } }
  all(x, n, how != 2); vf_assert(vf_env_threads == th, "the threads are gone"); vf_reach("destroyed"); vf_reach("end"); }
static void two(bool j) { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads; { Pool p(2); give(p, 0, 1); give(p, 1, 1); if (j) { p.close(); p.join(); all(x, 2); } } all(x, 2); vf_assert(vf_env_threads == th, "the threads are gone"); vf_reach("end"); }
extern "C" void vh_c34_two() { two(true); }
extern "C" void vh_c34_two_d() { two(false); }
static void w_sub(X* x) { for (int i = 0; i < 2; i++) { bool r = gave(*x->p, i, 1); vf_assert(r ? x->acc == i : true, "nothing is accepted after a refusal"); if (r) gh_inc(&x->acc); } }
extern "C" void vh_c34_close() { vf_cfg_timeouts = 0; X x; gx = &x; { Pool p(1); x.p = &p; vf_go(w_sub, &x); p.close(); vf_assert(p.closed(), "closed"); vf_assert(!gave(p, 2, 1), "refused once closed"); vf_joinall(); if (vf_pick(2)) { p.join(); all(x, x.acc); } } all(x, x.acc); if (x.acc) vf_reach("accepted"); if (x.acc < 2) vf_reach("refused"); }
struct Nest { void operator()() { body(0); if (gave(*gx->p, 1, 1)) gh_inc(&gx->acc); } };
extern "C" void vh_c34_nest() { vf_cfg_timeouts = 0; X x; gx = &x; { Pool p(1); x.p = &p; Nest f; p.submit(f); if (vf_pick(2)) { p.close(); p.join(); all(x, 1 + x.acc); } } all(x, 1 + x.acc); if (x.acc) vf_reach("accepted"); else vf_reach("refused"); vf_reach("end"); }
struct Both { bool operator()() const { return gh_get(&gx->n) != 0; } }; struct Mark { void operator()() { body(1); gh_set(&gx->n, 1); } };
struct Res { void operator()() { body(0); if (vf_pick(2)) { bool r = gx->p->reschedule_until(Both()); vf_assert(r == (gh_get(&gx->n) != 0), "until the predicate holds, or nothing is left"); } else gx->p->schedule_one_or_yield(); body(2); } };
extern "C" void vh_c34_resched() { vf_cfg_timeouts = 0; X x; gx = &x; { Pool p(1); x.p = &p; Res f; p.submit(f); Mark m; p.submit(m); } all(x, 3); vf_reach("end"); }
static void entry(Pool& p) { vf_assert(&p == gx->p || gx->p == 0, "the pool"); gh_inc(&gx->entered); gh_set(&gx->n, vf_tid()); } struct Entry { void operator()(Pool& p) const { entry(p); } };
struct Aft { void operator()() { body(0); vf_assert(gh_get(&gx->entered) >= 1, "the entry function runs first"); } };
extern "C" void vh_c34_entry() { vf_cfg_timeouts = 0; X x; gx = &x; int n = 1 + vf_pick(2); Aft f; if (vf_pick(2)) { Pool p(n, &entry); p.submit(f); } else { Pool p(n, Entry()); p.submit(f); } all(x, 1); vf_assert(x.entered == n, "once on each thread"); vf_reach("end"); }
struct EM { int k; EM(int i) : k(i) {} EM(EM const& o) : k(o.k) {} EM(EM&& o) : k(o.k) { o.k = 0; } void operator()(Pool& p) const { vf_assert(k == 7, "the entry function arrives on each thread as it was given"); entry(p); } };
extern "C" void vh_c34_entrymove() { vf_cfg_timeouts = 0; X x; gx = &x; int n = 1 + vf_pick(2); { Pool p(n, EM(7)); } vf_assert(x.entered == n, "once on each thread"); vf_reach("end"); }
struct PX { promise<int> p; future<int> f; }; static PX* gp; struct Wt { void operator()() { vf_assert(gp->f.get() == 5, "delivered"); body(0); } }; struct St { void operator()() { gp->p.set_value(5); body(1); } };
extern "C" void vh_c34_nested() { vf_cfg_timeouts = 0; X x; gx = &x; PX px; gp = &px; px.f = px.p.get_future(); { Pool p(2); Wt w; p.submit(w); St s; p.submit(s); p.close(); p.join(); all(x, 2); } vf_reach("end"); }
struct Ip { void operator()() { gh_inc(&gx->ran[0]); gh_set(&gx->who[0], vf_tid()); this_thread::interruption_point(); } };
extern "C" void vh_c34_interrupt() { vf_cfg_timeouts = 0; X x; gx = &x; { Pool p(1); Ip f; p.submit(f); give(p, 1, 1); } all(x, 2); vf_reach("end"); }
struct Bang { void operator()() { body(0); throw 5; } };
extern "C" void vh_c34_throw() { vf_cfg_timeouts = 0; X x; gx = &x; vf_cfg_terminate = 1; { Pool p(1); Bang b; p.submit(b); if (vf_pick(2)) p.try_executing_one(); } vf_assert(0, "a closure that throws terminates the program"); }
extern "C" void vh_c34_fail() { vf_cfg_timeouts = 0; X x; gx = &x; int th = vf_env_threads, mu = vf_env_mutexes, co = vf_env_conds; vf_cfg_fail = 1; vf_cfg_failmask = 1 | 2 | 4 | 8; bool ex = false; try { Pool p(2); vf_cfg_fail = 0; give(p, 0, 1); } catch (thread_resource_error&) { ex = true; } catch (std::bad_alloc&) { ex = true; } vf_cfg_fail = 0; vf_assert(ex == (vf_env_failed > 0), "a failure is reported with an exception"); vf_assert(vf_env_threads == th, "the threads are gone"); all(x, !ex); if (ex) vf_reach("failed"); vf_reach("end"); }
static int data; struct Pub { void operator()() { data++; } };
extern "C" void vh_c34_race() { vf_cfg_timeouts = 0; data = 5; { Pool p(1); Pub f; p.submit(f); if (vf_pick(2)) { p.close(); p.join(); vf_assert(data == 6, "published"); } } vf_assert(data == 6, "published"); vf_reach("end"); }
