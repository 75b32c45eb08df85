// C20: continuations, fallback_to, unwrap.
// FLAGS -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_PROVIDES_EXECUTORS
// ENTRY vh_c20_then | props=C20 | weight=5 | reach=value;exception;thrown | bound=1 setter (value or exception), continuation attached before, during or after it with 6 policies, returning, throwing or void; 1 waiter
// ENTRY vh_c20_shared | props=C20 | weight=5 | reach=end | bound=a continuation attached before and another by a 2nd thread at any moment while the result is set, policies sync and deferred
// ENTRY vh_c20_chain | props=C20 | weight=4 | reach=value;exception | bound=a chain of 2 continuations with policies async-sync, sync-async, sync-sync or deferred-deferred, 1 setter
// ENTRY vh_c20_deferred | props=C20 | weight=4 | reach=end | bound=deferred continuations of deferred and promised antecedents; 2 waiters on the shared result
// ENTRY vh_c20_executor | props=C20 | weight=4 | reach=end | bound=continuations on a loop_executor run by another thread, and inherited executors
// ENTRY vh_c20_fallback | props=C20 | reach=value;default | bound=fallback_to with lvalue and rvalue defaults, set before or after
// ENTRY vh_c20_unwrap | props=C20 | weight=5 | reach=value;inner exception;outer exception;invalid | bound=outer and inner set by 2 threads in any order, results int and void, unwrap member and constructor
// ENTRY vh_c20_unwrap_deferred | props=C20 | reach=end | bound=a deferred inner or outer future
// ENTRY vh_c20_broken | props=C20 | reach=end | bound=abandoned promise, continuation with 2 policies
// ENTRY vh_c20_race | props=C20,C40 | reach=end | bound=1 setter, 1 attaching thread, data passed through a continuation
#include "vfh.h"
#include <boost/thread/future.hpp>
#include <boost/thread/executors/loop_executor.hpp>
using namespace boost;
struct Err { int v; };
struct X { promise<int> p; future<int> f; shared_future<int> sf; int began, v, exc, n, how, set_done; X() : began(0), v(0), exc(0), n(0), how(0), set_done(0) { f = p.get_future(); } };
static X* gx;
static void setter(X* x) { gh_set(&x->began, 1); if (x->exc) { Err e = {x->v}; x->p.set_exception(e); } else x->p.set_value(x->v); gh_set(&x->set_done, 1); }
template <class F> static int ante(F& f) { vf_assert(gh_get(&gx->began), "called before the antecedent has a result"); vf_assert(f.valid() && f.is_ready(), "the antecedent is ready"); bool e = false; int g = 0; try { g = f.get(); } catch (Err& q) { e = true; g = q.v; } vf_assert(e == (gx->exc != 0) && g == gx->v, "the antecedent's outcome"); return g; }
static int cont_i(future<int> f) { int g = ante(f); gh_inc(&gx->n); if (gx->how == 1) { Err e = {g + 1}; throw e; } return g + 2; }
static void cont_v(future<int> f) { int g = ante(f); gh_inc(&gx->n); if (gx->how == 1) { Err e = {g + 1}; throw e; } }
static int cont_s(shared_future<int> f) { int g = ante(f); gh_inc(&gx->n); return g; }
static launch pol(int k) { return k == 0 ? launch::async : k == 1 ? launch::sync : k == 2 ? launch::deferred : k == 3 ? launch::inherit : launch::none; }
extern "C" void vh_c20_then() { X x; gx = &x; x.v = (int)(short)vf_nondet(16); x.exc = vf_bool(); x.how = vf_pick(2); int k = vf_pick(6); bool vd = vf_pick(2); vf_go(setter, &x); vf_sched(); bool e = false; int g = 0;
  if (vd) { future<void> r = k == 5 ? x.f.then(&cont_v) : x.f.then(pol(k), &cont_v); vf_assert(r.valid() && !x.f.valid(), "the antecedent was moved into the continuation"); if (k != 2 && vf_bool()) { r.wait(); vf_assert(gh_get(&x.n) == 1, "called once, before the result is ready"); } try { r.get(); } catch (Err& q) { e = true; g = q.v; } }
  else { future<int> r = k == 5 ? x.f.then(&cont_i) : x.f.then(pol(k), &cont_i); vf_assert(r.valid() && !x.f.valid(), "the antecedent was moved into the continuation"); if (r.is_ready()) vf_assert(gh_get(&x.n) == 1, "ready only after the continuation"); try { g = r.get(); } catch (Err& q) { e = true; g = q.v; } }
  vf_assert(gh_get(&x.n) == 1, "called exactly once"); vf_assert(e == (x.how == 1) && g == (e ? x.v + 1 : vd ? 0 : x.v + 2), "the continuation's outcome is delivered"); vf_reach_if(!x.exc, "value"); vf_reach_if(x.exc, "exception"); vf_reach_if(e, "thrown"); vf_joinall(); vf_assert(x.n == 1, "called exactly once"); }
static int kk; static void attacher(X* x) { int k = vf_tid() == 1 ? kk : 1; future<int> r = x->sf.then(pol(k), &cont_s); vf_assert(x->sf.valid(), "still valid"); vf_assert(r.get() == x->v, "delivered"); }
extern "C" void vh_c20_shared() { X x; gx = &x; x.sf = x.f.share(); x.v = 5; kk = 1 + vf_choice(2); future<int> r = x.sf.then(pol(kk), &cont_s); vf_go(attacher, &x); setter(&x); vf_assert(r.get() == 5, "delivered"); vf_joinall(); vf_assert(x.n == 2, "each continuation is called exactly once"); vf_reach("end"); }
static int chain2(future<int> f) { vf_assert(gh_get(&gx->n) == 1 && f.is_ready(), "in order"); gh_inc(&gx->n); return f.get() + 1; }
extern "C" void vh_c20_chain() { X x; gx = &x; x.v = 5; x.how = vf_choice(2); vf_go(setter, &x); int c = vf_choice(4), a = c == 0 ? 0 : c == 3 ? 2 : 1, b = c == 3 ? 2 : c == 1 ? 0 : 1; bool e = false; int g; { future<int> r = x.f.then(pol(a), &cont_i).then(pol(b), &chain2); try { g = r.get(); } catch (Err& q) { e = true; g = q.v; } } vf_assert(e == (x.how == 1) && g == (e ? x.v + 1 : x.v + 3), "outcome"); vf_assert(gh_get(&x.n) == 2, "each once"); vf_reach_if(!e, "value"); vf_reach_if(e, "exception"); vf_joinall(); }
static int df() { gh_set(&gx->began, 1); return gx->v; }
struct W { shared_future<int> r; }; static void df_w(W* w) { vf_assert(w->r.get() == gx->v + 2, "delivered"); vf_assert(gh_get(&gx->n) == 1, "called exactly once"); }
extern "C" void vh_c20_deferred() { X x; gx = &x; x.v = (int)(short)vf_nondet(16); W w; bool s = vf_bool(); if (s) { x.f = async(launch::deferred, &df); if (vf_bool()) w.r = x.f.then(&cont_i).share(); else w.r = x.f.then(launch::inherit, &cont_i).share(); vf_assert(!gh_get(&x.began) && x.n == 0, "not before it is waited for"); } else { w.r = x.f.then(launch::deferred, &cont_i).share(); vf_go(setter, &x); } vf_go(df_w, &w); df_w(&w); vf_joinall(); vf_assert(x.n == 1, "once"); vf_reach("end"); }
struct L { executors::loop_executor* e; X* x; int tid; }; static L* gl; static int cont_ex(future<int> f) { vf_assert(vf_tid() == gl->tid, "on the executor's thread"); return cont_i(boost::move(f)); }
static void loop(L* l) { l->tid = vf_tid(); l->e->loop(); }
extern "C" void vh_c20_executor() { X x; gx = &x; x.v = (int)(short)vf_nondet(16); executors::loop_executor e; L l = {&e, &x, 0}; gl = &l; vf_go(loop, &l); { future<int> r; bool in = vf_bool(); if (in) { executor_ptr_type xp(new executor_ref<executors::loop_executor>(e)); x.p.set_executor(xp); r = x.f.then(launch::inherit, &cont_ex); } else r = x.f.then(e, &cont_ex); setter(&x); vf_assert(r.get() == x.v + 2, "delivered"); } vf_assert(x.n == 1, "once"); e.close(); vf_joinall(); vf_reach("end"); }
extern "C" void vh_c20_fallback() { X x; gx = &x; x.v = (int)vf_nondet(32); int d = (int)vf_nondet(32); x.exc = vf_bool(); bool before = vf_bool(); if (before) setter(&x); { future<int> r; if (vf_bool()) r = x.f.fallback_to(d); else { int c = d; r = x.f.fallback_to(boost::move(c)); } if (!before) vf_go(setter, &x); vf_assert(r.get() == (x.exc ? d : x.v), "the value or the fallback"); } vf_reach_if(!x.exc, "value"); vf_reach_if(x.exc, "default"); vf_joinall(); }
template <class T> struct U { promise<future<T> > o; promise<T> i; future<T> fi; int k, v; }; // k: 0 value 1 inner exception 2 outer exception 3 invalid inner
static void puti(promise<int>& p, int v) { p.set_value(v); } static void puti(promise<void>& p, int) { p.set_value(); } static int geti(future<int>& f) { return f.get(); } static int geti(future<void>& f) { f.get(); return 0; }
template <class T> static void u_outer(U<T>* u) { if (u->k == 2) { Err e = {u->v}; u->o.set_exception(e); } else if (u->k == 3) u->o.set_value(future<T>()); else u->o.set_value(boost::move(u->fi)); }
template <class T> static void u_inner(U<T>* u) { if (u->k == 1) { Err e = {u->v}; u->i.set_exception(e); } else puti(u->i, u->v); }
template <class T> static void u_run() { U<T> u; u.k = vf_choice(4); u.v = (int)vf_nondet(32); u.fi = u.i.get_future(); vf_go(&u_outer<T>, &u); vf_go(&u_inner<T>, &u); int g = 0, s = 0; { future<future<T> > ff = u.o.get_future(); future<T> r; if (vf_bool()) r = ff.unwrap(); else { future<T> c(boost::move(ff)); r = boost::move(c); } vf_assert(r.valid() && !ff.valid(), "the outer future was moved from"); try { s = geti(r); g = 0; } catch (Err& e) { g = 1; s = e.v; } catch (future_uninitialized&) { g = 3; } catch (broken_promise&) { g = 3; } } vf_assert(g == (u.k == 2 ? 1 : u.k), "the outcome is that of the inner future"); if (g == 1) vf_assert(s == u.v, "the exception"); else if (g == 0) vf_assert(sizeof(U<T>) == sizeof(U<void>) && s == 0 ? true : s == u.v, "the value"); vf_reach_if(u.k == 0, "value"); vf_reach_if(u.k == 1, "inner exception"); vf_reach_if(u.k == 2, "outer exception"); vf_reach_if(u.k == 3, "invalid"); vf_joinall(); }
extern "C" void vh_c20_unwrap() { if (vf_bool()) u_run<int>(); else u_run<void>(); }
static int seven() { return 7; } static future<int> mk() { promise<int> p; p.set_value(7); return p.get_future(); }
extern "C" void vh_c20_unwrap_deferred() { vf_reach("end"); future<int> r; if (vf_bool()) { promise<future<int> > o; o.set_value(async(launch::deferred, &seven)); r = o.get_future().unwrap(); } else r = async(launch::deferred, &mk).unwrap(); vf_assert(r.get() == 7, "delivered"); }
static int cont_b(future<int> f) { gh_inc(&gx->n); vf_assert(f.is_ready(), "ready"); try { f.get(); } catch (broken_promise&) { return 1; } return 0; }
static void dropper(X* x) { promise<int> q(boost::move(x->p)); }
extern "C" void vh_c20_broken() { X x; gx = &x; vf_go(dropper, &x); { future<int> r = x.f.then(pol(vf_choice(2)), &cont_b); vf_assert(r.get() == 1 && x.n == 1, "a continuation of an abandoned promise is called with broken_promise"); } vf_joinall(); vf_reach("end"); }
static int rd; static int cont_r(future<int> f) { vf_assert(rd == 5, "published"); return f.get(); } static void r_set(X* x) { rd = 5; x->p.set_value(6); }
extern "C" void vh_c20_race() { X x; rd = 0; vf_go(r_set, &x); { future<int> r = x.f.then(pol(vf_choice(2)), &cont_r); vf_assert(r.get() == 6 && rd == 5, "published"); } vf_joinall(); vf_reach("end"); }
