// C19: packaged_task and async.
// FLAGS -DBOOST_THREAD_VERSION=4
// ENTRY vh_c19_once | props=C19 | weight=5 | reach=value;exception | bound=2 threads invoking one packaged_task at once, 1 waiter with 4 operations, value or exception
// ENTRY vh_c19_kinds | props=C19 | reach=args;reference;void;move only;pointer | bound=tasks with arguments by value, by reference, move-only; results of type int, int&, void, move-only; functors, lambdas, function pointers, allocator constructor
// ENTRY vh_c19_seq | props=C19 | weight=5 | reach=ran;started;no task;retrieved | bound=all histories of 4 operations of one thread on 2 tasks: run, get_future, move, swap, assignment, reset of a task that has not run
// ENTRY vh_c19_reset | props=C19 | reach=end | bound=run, reset, run again; value and exception outcomes
// ENTRY vh_c19_async | props=C19 | weight=4 | reach=value;exception;timed out | bound=async with launch::async, default and any policies; results int, void, int&; 1 waiter with 4 operations
// ENTRY vh_c19_deferred | props=C19 | weight=5 | reach=value;exception | bound=async with launch::deferred, results int, void, int&; 2 waiters on a shared_future with 4 operations
// ENTRY vh_c19_deferred_self | props=C19 | reach=end | bound=a deferred function that queries its own shared_future; results int, void, int&
// ENTRY vh_c19_never | props=C19 | reach=end | bound=a deferred function nobody waits for
// ENTRY vh_c19_callback | props=C19 | reach=end | bound=wait callbacks of promise and packaged_task, 4 waiting operations
// ENTRY vh_c19_dtor | props=C19 | reach=end | bound=destruction of the only future of async(launch::async)
// ENTRY vh_c19_race | props=C19,C40 | reach=end | bound=async publishing data to 1 waiter
#include "vfh.h"
#include <boost/thread/future.hpp>
using namespace boost;
struct Err { int v; };
struct X { packaged_task<int()> t; future<int> f; int ran, v, exc, refused; X() : ran(0), v(0), exc(0), refused(0) {} };
static X* gx;
static int once_body() { gh_inc(&gx->ran); vf_sched(); if (gx->exc) { Err e = {gx->v}; throw e; } return gx->v; }
static void invoker(X* x) { try { x->t(); } catch (task_already_started&) { gh_inc(&x->refused); } }
extern "C" void vh_c19_once() { X x; gx = &x; x.v = (int)vf_nondet(32); x.exc = vf_bool(); x.t = packaged_task<int()>(&once_body); x.f = x.t.get_future(); vf_go(invoker, &x); vf_go(invoker, &x);
  switch (vf_choice(4)) { case 0: break; case 1: x.f.wait(); break; case 2: x.f.wait_for(chrono::milliseconds(80)); break; default: if (x.f.is_ready()) vf_assert(gh_get(&x.ran) == 1, "ready after the task ran"); }
  bool e = false; int g; try { g = x.f.get(); } catch (Err& q) { e = true; g = q.v; } vf_assert(gh_get(&x.ran) == 1, "run before the result is there"); vf_assert(g == x.v && e == (x.exc != 0), "the outcome of the function"); vf_joinall(); vf_assert(x.ran == 1 && x.refused == 1, "one invocation runs the function, the other is refused"); vf_reach_if(!e, "value"); vf_reach_if(e, "exception"); }
struct MoveOnly { int v; BOOST_THREAD_MOVABLE_ONLY(MoveOnly) explicit MoveOnly(int a) : v(a) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = -1; } MoveOnly& operator=(MoveOnly&& o) noexcept { v = o.v; o.v = -1; return *this; } };
struct Fn { int k; int* n; Fn(int a, int* b) : k(a), n(b) {} int operator()(int a, int b) { ++*n; return a - b + k; } };
struct MFn { MoveOnly m; explicit MFn(int a) : m(a) {} BOOST_THREAD_MOVABLE_ONLY(MFn) MFn(MFn&& o) noexcept : m(boost::move(o.m)) {} MFn& operator=(MFn&& o) noexcept { m = boost::move(o.m); return *this; } MoveOnly operator()(MoveOnly q) { return MoveOnly(m.v - q.v); } };
static int gi; static int& rfun(int* a) { if (*a < 0) { Err e = {*a}; throw e; } ++*a; return *a; } static void vfun(int a) { if (a < 0) { Err e = {a}; throw e; } gi = a; } static int pfun() { gi++; return 5; }
struct RF { int& operator()(int* a) { return rfun(a); } }; struct VF { void operator()(int a) { vfun(a); } }; static int& rpf() { return gi; } static void vpf() { gi++; }
extern "C" void vh_c19_kinds() { int a = (int)(short)vf_nondet(16), b = (int)(short)vf_nondet(16), n = 0; bool t = false; switch (vf_choice(7)) {
    case 4: { packaged_task<int&()> p(&rpf); future<int&> f = p.get_future(); p(); vf_assert(&f.get() == &gi, "the same object"); break; }
    case 5: { gi = 1; packaged_task<void()> p(&vpf); future<void> f = p.get_future(); p(); f.get(); vf_assert(gi == 2, "ran"); break; }
    case 0: { packaged_task<int(int, int)> p(Fn(3, &n)); future<int> f = p.get_future(); vf_assert(!f.is_ready() && n == 0, "not run yet"); p(a, b); vf_assert(f.get() == a - b + 3 && n == 1, "arguments"); try { p(a, b); } catch (task_already_started&) { t = true; } vf_assert(t && n == 1, "once"); vf_reach("args"); break; }
    case 1: { int x = a; packaged_task<int&(int*)> p((RF())); future<int&> f = p.get_future(); p(&x); try { int& r = f.get(); vf_assert(&r == &x && x == a + 1, "the same object"); } catch (Err& e) { t = true; vf_assert(e.v == a, "exception"); } vf_assert(t == (a < 0), "outcome"); vf_reach("reference"); break; }
    case 2: { gi = 0; packaged_task<void(int)> p((VF())); future<void> f = p.get_future(); p(a); try { f.get(); vf_assert(gi == a, "ran"); } catch (Err& e) { t = true; vf_assert(e.v == a, "exception"); } vf_assert(t == (a < 0), "outcome"); vf_reach("void"); break; }
    case 3: { MFn m(a); packaged_task<MoveOnly(MoveOnly)> p(boost::move(m)); future<MoveOnly> f = p.get_future(); p(MoveOnly(b)); MoveOnly r(f.get()); vf_assert(r.v == a - b, "moved through"); vf_reach("move only"); break; }
    default: { gi = 0; packaged_task<int()> p(boost::allocator_arg, std::allocator<int>(), &pfun); future<int> f = p.get_future(); p(); vf_assert(f.get() == 5 && gi == 1, "ran"); vf_reach("pointer"); } } }
static int runs[2], vals[2], excs[2]; template <int I> struct Body { int operator()() { runs[I]++; if (excs[I]) { Err e = {vals[I]}; throw e; } return vals[I]; } };
extern "C" void vh_c19_seq() { packaged_task<int()> q[2]; future<int> f[2]; int has[2] = {0, -1}, st[2] = {0, 0}, ob[2] = {0, 0}; for (int i = 0; i < 2; i++) { runs[i] = 0; vals[i] = 11 * i; excs[i] = vf_bool(); } q[0] = packaged_task<int()>(Body<0>()); if (vf_bool()) { q[1] = packaged_task<int()>(Body<1>()); has[1] = 1; }
  for (int i = 0; i < 4; i++) { int h = has[0], k = vf_choice(6), g = 0;
    switch (k) {
      case 0: try { q[0](); g = 1; } catch (task_already_started&) { g = 2; vf_reach("started"); } catch (task_moved&) { g = 3; vf_reach("no task"); } vf_assert(g == (h < 0 ? 3 : st[h] ? 2 : 1), "an invocation runs exactly if there is a task that has not run"); if (g == 1) { st[h] = 1; vf_reach("ran"); } break;
      case 1: try { future<int> n = q[0].get_future(); g = 1; if (h >= 0 && !ob[h]) f[h] = boost::move(n); } catch (future_already_retrieved&) { g = 2; vf_reach("retrieved"); } catch (task_moved&) { g = 3; vf_reach("no task"); } vf_assert(g == (h < 0 ? 3 : ob[h] ? 2 : 1), "get_future succeeds exactly once"); if (g == 1) ob[h] = 1; break;
      case 2: { packaged_task<int()> m(boost::move(q[0])); vf_assert(m.valid() == (h >= 0) && !q[0].valid(), "moved"); q[0] = boost::move(m); break; }
      case 3: { q[0].swap(q[1]); int t = has[0]; has[0] = has[1]; has[1] = t; break; }
      case 4: { int o = has[1]; q[1] = boost::move(q[0]); if (o >= 0 && !st[o]) st[o] = 2; has[1] = has[0]; has[0] = -1; break; }
      default: if (h < 0 || (!st[h] && !ob[h])) { try { q[0].reset(); g = 1; } catch (future_error& e) { g = 3; } catch (std::logic_error&) { g = 3; } vf_assert(g == (h < 0 ? 3 : 1), "reset needs a task"); } } }
  for (int i = 0; i < 2; i++) { vf_assert(runs[i] == (st[i] == 1), "the function runs once per invocation"); if (!ob[i]) continue; vf_assert(f[i].valid() && f[i].is_ready() == (st[i] != 0), "ready exactly if run or abandoned"); if (!st[i]) continue; int g = 0, v = vals[i]; try { v = f[i].get(); g = 1; } catch (Err& e) { g = 2; v = e.v; } catch (broken_promise&) { g = 3; } vf_assert(g == (st[i] == 2 ? 3 : excs[i] ? 2 : 1) && v == vals[i], "the outcome of the function"); } }
static int rr_n, rr_exc; static int rr_body() { rr_n++; if (rr_exc) { Err e = {1}; throw e; } return 10 + rr_n; }
extern "C" void vh_c19_reset() { rr_n = 0; bool e0 = vf_bool(), e1 = vf_bool(); packaged_task<int()> p(&rr_body); rr_exc = e0; int g = 0, s = 0; { future<int> f = p.get_future(); p(); try { g = f.get(); } catch (Err&) { g = -1; } vf_assert(g == (e0 ? -1 : 11), "the outcome of the first run"); } p.reset(); vf_assert(p.valid(), "valid"); bool early; { future<int> f = p.get_future(); early = f.is_ready(); rr_exc = e1; p(); vf_assert(rr_n == 2, "runs again"); vf_assert(f.is_ready(), "ready"); try { s = f.get(); } catch (Err&) { s = -1; } } vf_reach("end"); vf_assert(!early && s == (e1 ? -1 : 12), "a task that was run and reset delivers the outcome of its new run only"); }
// ---- async
static int as_n, as_tid, as_x; static int as_int(int a, int b) { gh_inc(&as_n); as_tid = vf_tid(); if (a < 0) { Err e = {b}; throw e; } return b; } static void as_void(int a, int b) { as_int(a, b); as_x = b; } static int& as_ref(int a, int b) { as_int(a, b); as_x = b; return as_x; }
struct AsF { int k; int operator()(int a, int b) const { return as_int(a, b) + k; } };
template <class F> static bool as_wait(F& f) { switch (vf_choice(4)) { case 0: return true; case 1: f.wait(); return true; case 2: { long t = gh_ms(1); bool r = f.wait_for(chrono::milliseconds(80)) == future_status::ready; vf_assert(r || gh_after(1, t + 80), "timed out early"); vf_reach_if(!r, "timed out"); if (r) vf_assert(gh_get(&as_n) == 1, "ready before it ran"); return r; } default: { bool r = f.is_ready(); if (r) vf_assert(gh_get(&as_n) == 1, "ready before it ran"); return r; } } }
extern "C" void vh_c19_async() { as_n = 0; as_tid = -1; int a = (int)(short)vf_nondet(16), b = (int)(short)vf_nondet(16); bool e = false; int g = 0; switch (vf_choice(5)) {
    case 0: { future<int> f = async(launch::async, &as_int, a, b); as_wait(f); try { g = f.get(); } catch (Err& x) { e = true; g = x.v; } break; }
    case 1: { future<void> f = async(launch::async, &as_void, a, b); as_wait(f); try { f.get(); g = as_x; } catch (Err& x) { e = true; g = x.v; } break; }
    case 2: { future<int&> f = async(launch::async, &as_ref, a, b); as_wait(f); try { int& r = f.get(); vf_assert(&r == &as_x, "the same object"); g = r; } catch (Err& x) { e = true; g = x.v; } break; }
    case 3: { AsF k = {0}; future<int> f = async(k, a, b); try { g = f.get(); } catch (Err& x) { e = true; g = x.v; } as_tid = 1; break; }
    default: { shared_future<int> f = async(launch::any, AsF(), a, b).share(); as_wait(f); try { g = f.get(); } catch (Err& x) { e = true; g = x.v; } as_tid = 1; } }
  vf_assert(as_n == 1, "run exactly once"); vf_assert(as_tid != 0, "run on another thread"); vf_assert(e == (a < 0) && g == b, "the outcome of the function with the given arguments"); vf_reach_if(!e, "value"); vf_reach_if(e, "exception"); }
struct D { shared_future<int> f; shared_future<void> v; shared_future<int&> r; int a, b, n, k; }; static int df_busy;
static void df_enter(D* d) { gh_inc(&d->n); vf_sched(); if (d->a < 0) { Err e = {d->b}; throw e; } }
static int df_int(D* d) { df_enter(d); return d->b; } static void df_void(D* d) { df_enter(d); } static int& df_ref(D* d) { df_enter(d); return d->b; }
template <class F> static void df_w(D* d, F const& f) { switch (vf_choice(4)) { case 0: break; case 1: f.wait(); vf_assert(gh_get(&d->n) == 1, "run by the first waiter"); break; case 2: { future_status s = f.wait_for(chrono::milliseconds(-50)); vf_assert(s != future_status::ready || gh_get(&d->n) == 1, "ready before it ran"); vf_assert(s != future_status::deferred || f.valid(), "deferred"); break; } default: if (f.is_ready()) vf_assert(gh_get(&d->n) == 1, "ready before it ran"); } }
static void df_waiter(D* d) { bool e = false; int g = d->b; try { switch (d->k) { case 0: df_w(d, d->f); g = d->f.get(); break; case 1: df_w(d, d->v); d->v.get(); break; default: df_w(d, d->r); vf_assert(&d->r.get() == &d->b, "the same object"); } } catch (Err& x) { e = true; g = x.v; } vf_assert(gh_get(&d->n) == 1, "the function runs exactly once"); vf_assert(e == (d->a < 0) && g == d->b, "the outcome of the function"); vf_reach_if(!e, "value"); vf_reach_if(e, "exception"); }
extern "C" void vh_c19_deferred() { vf_cfg_timeouts = 0; D d; d.n = 0; d.a = (int)vf_nondet(32); d.b = (int)vf_nondet(32); d.k = vf_choice(3); switch (d.k) { case 0: d.f = async(launch::deferred, &df_int, &d).share(); break; case 1: d.v = async(launch::deferred, &df_void, &d).share(); break; default: d.r = async(launch::deferred, &df_ref, &d).share(); } vf_go(df_waiter, &d); df_waiter(&d); vf_joinall(); vf_assert(d.n == 1, "once"); }
static int sf_int(D* d) { vf_assert(!d->f.is_ready() && !d->f.has_value(), "not ready while running"); d->n++; return 1; } static void sf_void(D* d) { vf_assert(!d->v.is_ready() && !d->v.has_exception(), "not ready while running"); d->n++; } static int& sf_ref(D* d) { vf_assert(!d->r.is_ready() && !d->r.has_value(), "not ready while running"); d->n++; return d->b; }
extern "C" void vh_c19_deferred_self() { D d; d.n = 0; switch (vf_choice(3)) { case 0: d.f = async(launch::deferred, &sf_int, &d).share(); d.f.get(); break; case 1: d.v = async(launch::deferred, &sf_void, &d).share(); d.v.get(); break; default: d.r = async(launch::deferred, &sf_ref, &d).share(); d.r.get(); } vf_assert(d.n == 1, "once"); vf_reach("end"); }
extern "C" void vh_c19_never() { D d; d.n = 0; { future<int> f = async(launch::deferred, &df_int, &d); vf_assert(!f.is_ready() && f.wait_for(chrono::milliseconds(80)) == future_status::deferred && d.n == 0, "a timed wait does not run a deferred function"); } vf_assert(d.n == 0, "a function nobody waited for does not run"); vf_reach("end"); }
static int cb_n; static void cb_promise(promise<int>& p) { if (!cb_n++) p.set_value(7); } static void cb_task(packaged_task<int()>& t) { if (!cb_n++) t(); } static int cb_body() { return 9; }
template <class F> static int cb_use(F& f) { vf_assert(cb_n == 0 && !f.is_ready(), "not before the wait"); switch (vf_choice(4)) { case 0: break; case 1: f.wait(); break; case 2: vf_assert(f.wait_for(chrono::milliseconds(80)) == future_status::ready, "ready"); break; default: vf_assert(f.wait_until(chrono::steady_clock::now() + chrono::milliseconds(-50)) == future_status::ready, "ready"); } return f.get(); }
extern "C" void vh_c19_callback() { cb_n = 0; if (vf_bool()) { promise<int> p; p.set_wait_callback(&cb_promise); future<int> f = p.get_future(); vf_assert(cb_use(f) == 7, "value"); } else { packaged_task<int()> t(&cb_body); t.set_wait_callback(&cb_task); future<int> f = t.get_future(); vf_assert(cb_use(f) == 9, "value"); } vf_assert(cb_n == 1, "called once"); vf_reach("end"); }
static int dt_n; static int dt_body() { vf_sched(); gh_inc(&dt_n); return 1; }
extern "C" void vh_c19_dtor() { dt_n = 0; { future<int> f = async(launch::async, &dt_body); } vf_reach("end"); vf_assert(gh_get(&dt_n) == 1, "the destructor of the future of an async task waits for it"); }
static int ra; static int ra_body() { ra = 5; return 6; }
extern "C" void vh_c19_race() { ra = 0; future<int> f = async(launch::async, &ra_body); vf_assert(f.get() == 6 && ra == 5, "published"); vf_reach("end"); }
