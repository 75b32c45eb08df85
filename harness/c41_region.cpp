// C41: task_region.
// FLAGS -DBOOST_THREAD_VERSION=5
// ENTRY vh_c41_inline | props=C41 | reach=end;threw;fine | bound=2 tasks each throwing or not, body throwing or not, executor running them at once
// ENTRY vh_c41_pool | props=C41 | weight=4 | reach=end;threw;fine | bound=2 tasks, pool of 1 thread: none, the 1st, or both throw
// ENTRY vh_c41_threads | props=C41 | weight=4 | reach=end;threw;fine | bound=2 tasks on a thread each: none, the 1st, or both throw
// ENTRY vh_c41_body | props=C41 | weight=4 | reach=end;threw | bound=1 task on a thread throwing or not, body throwing after it was handed over
// ENTRY vh_c41_threads_t | props=C41 | tier=thorough | reach=end;threw;fine | bound=2 tasks on a thread each, each throwing or not, body throwing or not
// ENTRY vh_c41_region_in | props=C41 | weight=3 | reach=end | bound=a task that opens a region of its own, whose tasks throw or not: the exceptions of both levels
// ENTRY vh_c41_wait | props=C41 | weight=3 | reach=end;waited;canceled;list | bound=wait() inside the body, 1 task before and 1 after it, throwing or not
// ENTRY vh_c41_default | props=C41 | tier=thorough | reach=end | bound=the region with its own pool (of 2 threads: 1 processor), 1 task
// ENTRY vh_c41_async | props=C41 | weight=2 | cflags=-DBOOST_THREAD_VERSION=4 | reach=end | bound=without executors: 1 task throwing or not, body throwing or not; or 2 tasks that do not throw
// ENTRY vh_c41_list | props=C41 | reach=end | bound=exceptions of up to 2 lists inside one another
// ENTRY vh_c41_race | props=C41,C40 | weight=3 | reach=end | bound=a task on a thread of its own writing data which the caller reads afterwards
#include "vfh.h"
#include <boost/thread/experimental/task_region.hpp>
#include <boost/thread/thread.hpp>
#if BOOST_THREAD_VERSION >= 5
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#endif
using namespace boost; namespace ep = boost::experimental::parallel; using ep::exception_list;
struct E { int i; };
struct X { int ran[4], fin[4], sub[4], thr[4]; X() { for (int i = 0; i < 4; i++) ran[i] = fin[i] = sub[i] = thr[i] = 0; } };
static void body(X& x, int i) { gh_inc(&x.ran[i]); gh_set(&x.fin[i], 1); if (x.thr[i]) { E e = {i}; throw e; } }
struct Fn { X* x; int i; void operator()() const { body(*x, i); } };
template <class R> static void run(R& r, X& x, int i) { Fn f = {&x, i}; r.run(boost::move(f)); gh_set(&x.sub[i], 1); }
// how often the list holds E{i}
static int has(exception_list const& l, int i) { int n = 0; for (exception_list::const_iterator it = l.begin(); it != l.end(); ++it) try { boost::rethrow_exception(*it); } catch (E const& e) { n += e.i == i; } return n; }
static void done(X& x) { for (int i = 0; i < 4; i++) { vf_assert(gh_get(&x.ran[i]) == x.sub[i], "every task handed over runs exactly once"); vf_assert(gh_get(&x.fin[i]) == gh_get(&x.ran[i]), "no task is still running when the region ends"); } }
static void listed(X& x, exception_list const& l, unsigned n) { for (int i = 0; i < 4; i++) if (x.ran[i]) vf_assert(has(l, i) == x.thr[i], "exactly the exceptions thrown are reported"); if (n) vf_assert(l.size() == n, "nothing else is reported"); }
template <class Fx> static void region(X& x, Fx f, bool& th) { th = false; try { f(); } catch (exception_list const& l) { th = true; done(x); int n = 0; for (int i = 0; i < 4; i++) n += x.ran[i] && x.thr[i]; vf_assert(n > 0, "an exception list only when something threw"); listed(x, l, n); }
  if (!th) { done(x); for (int i = 0; i < 4; i++) vf_assert(!(x.ran[i] && x.thr[i]), "a thrown exception is reported"); } }
struct Body { X* x; template <class R> void operator()(R& r) const { run(r, *x, 0); run(r, *x, 1); if (x->thr[2]) { gh_inc(&x->ran[2]); x->sub[2] = x->fin[2] = 1; E e = {2}; throw e; } } };
struct Body1 { X* x; template <class R> void operator()(R& r) const { run(r, *x, 0); if (x->thr[2]) { gh_inc(&x->ran[2]); x->sub[2] = x->fin[2] = 1; E e = {2}; throw e; } } };
#if BOOST_THREAD_VERSION >= 5
template <class Ex> static void tasks(X& x, Ex& ex) { bool t; region(x, [&] { ep::task_region(ex, Body{&x}); }, t); vf_reach_if(t, "threw"); vf_reach_if(!t, "fine"); }
template <class F> static void with(int k, F f) { switch (k) { case 0: { inline_executor e; f(e); break; } case 1: { thread_executor e; f(e); break; } default: { basic_thread_pool e(1); f(e); } } }
template <class F> static void go(int k, X& x, F f) { long live = vf_heap_live(); { with(k, [&](auto& e) { f(x, e); }); } vf_reach("end"); vf_assert(vf_heap_live() == live, "nothing stays allocated"); }
#define TASKS [](X& x, auto& e) { tasks(x, e); }
extern "C" void vh_c41_inline() { X x; for (int i = 0; i < 3; i++) x.thr[i] = vf_bool(); go(0, x, TASKS); }
extern "C" void vh_c41_pool() { vf_cfg_timeouts = 0; X x; int m = vf_pick(3); x.thr[0] = m > 0; x.thr[1] = m > 1; go(2, x, TASKS); }
extern "C" void vh_c41_threads() { vf_cfg_timeouts = 0; X x; int m = vf_pick(3); x.thr[0] = m > 0; x.thr[1] = m > 1; go(1, x, TASKS); }
extern "C" void vh_c41_threads_t() { vf_cfg_timeouts = 0; X x; for (int i = 0; i < 3; i++) x.thr[i] = vf_bool(); go(1, x, TASKS); }
extern "C" void vh_c41_body() { vf_cfg_timeouts = 0; X x; x.thr[0] = vf_bool(); x.thr[2] = 1; go(1, x, [](X& x, auto& e) { bool t; region(x, [&] { ep::task_region(e, Body1{&x}); }, t); vf_reach_if(t, "threw"); }); }
// a region inside a task of another: its exceptions arrive in the outer list one by one
struct Body2 { X* x; template <class R> void operator()(R& r) const { run(r, *x, 0); if (x->thr[3]) run(r, *x, 1); } };
template <class Ex> struct In { X* x; Ex* ex; void operator()() const { try { ep::task_region(*ex, Body2{x}); } catch (exception_list const& l) { vf_assert(gh_get(&x->fin[0]) == 1 && gh_get(&x->fin[1]) == gh_get(&x->sub[1]), "the inner region waited"); throw; } vf_assert(gh_get(&x->fin[0]) == 1 && gh_get(&x->fin[1]) == gh_get(&x->sub[1]), "the inner region waited"); } };
template <class Ex> struct Out { X* x; Ex* ex; template <class R> void operator()(R& r) const { In<Ex> f = {x, ex}; r.run(boost::move(f)); if (x->thr[2]) { x->sub[2] = x->fin[2] = x->ran[2] = 1; E e = {2}; throw e; } } };
template <class Ex> static void nest(X& x, Ex& e) { int t3 = x.thr[3]; bool t = false; try { ep::task_region(e, Out<Ex>{&x, &e}); } catch (exception_list const& l) { t = true; for (int i = 0; i < 3; i++) if (x.ran[i]) vf_assert(has(l, i) == x.thr[i], "exactly the exceptions thrown are reported"); vf_assert((int)l.size() == x.thr[0] + x.ran[1] * x.thr[1] + x.ran[2] * x.thr[2], "nothing else is reported"); }
  for (int i = 0; i < 3; i++) { vf_assert(x.ran[i] == x.sub[i] && x.fin[i] == x.ran[i], "every task handed over runs once and is over"); if (x.ran[i] && x.thr[i]) vf_assert(t, "a thrown exception is reported"); } (void)t3; }
#define NEST [](X& x, auto& e) { nest(x, e); }
extern "C" void vh_c41_region_in() { vf_cfg_timeouts = 0; X x; if (vf_pick(2)) { x.thr[3] = 1; for (int i = 0; i < 3; i++) x.thr[i] = vf_bool(); go(0, x, NEST); } else { x.thr[0] = vf_bool(); x.thr[2] = vf_bool(); go(1, x, NEST); } }
struct BodyW { X* x; template <class R> void operator()(R& r) const { run(r, *x, 0); try { r.wait(); vf_assert(gh_get(&x->fin[0]) == 1 && !x->thr[0], "wait() waits, and reports what was thrown"); vf_reach("waited"); } catch (ep::task_canceled_exception const&) { vf_assert(x->thr[0], "canceled only when a task threw"); vf_reach("canceled"); throw; } catch (exception_list const& l) { vf_assert(x->thr[0] && has(l, 0) == 1, "the exception of the task"); vf_reach("list"); throw; } run(r, *x, 1); } };
extern "C" void vh_c41_wait() { vf_cfg_timeouts = 0; X x; int m = vf_pick(3); x.thr[0] = m == 1; x.thr[1] = m == 2; go(vf_pick(2), x, [](X& x, auto& e) { bool t = false; try { ep::task_region(e, BodyW{&x}); } catch (exception_list const& l) { t = true; for (int i = 0; i < 2; i++) if (x.ran[i]) vf_assert((has(l, i) > 0) == (x.thr[i] > 0), "the exceptions thrown are reported"); } done(x); vf_assert(t == (x.thr[0] || (x.ran[1] && x.thr[1])), "reported exactly when something threw"); }); }
struct BodyD { X* x; template <class R> void operator()(R& r) const { run(r, *x, 0); } };
extern "C" void vh_c41_default() { vf_env_cpus = 1; vf_cfg_timeouts = 0; X x; bool t; region(x, [&] { ep::task_region(BodyD{&x}); }, t); vf_reach("end"); }
extern "C" void vh_c41_list() { int n[3]; int a = vf_choice(3), b = vf_choice(3); exception_list out; for (int i = 0; i < 3; i++) n[i] = 0;
  for (int k = 0; k < 2; k++) { try { exception_list l; int c = k ? b : a; for (int i = 0; i < c; i++) { try { E e = {i}; throw e; } catch (...) { l.add(boost::current_exception()); } n[i]++; } if (k) { exception_list o; try { throw l; } catch (...) { o.add(boost::current_exception()); } throw o; } throw l; } catch (...) { ep::detail::handle_task_region_exceptions(out); } }
  for (int i = 0; i < 3; i++) vf_assert(has(out, i) == n[i], "every exception of the inner lists, once"); vf_assert((int)out.size() == a + b, "nothing else"); vf_reach("end"); }
struct XR { int d[2]; }; struct FnR { XR* x; int i; void operator()() const { x->d[i] = i + 1; } };
struct BodyR { XR* x; template <class R> void operator()(R& r) const { x->d[1] = 2; FnR f = {x, 0}; r.run(boost::move(f)); } };
extern "C" void vh_c41_race() { vf_cfg_timeouts = 0; XR x; thread_executor e; ep::task_region(e, BodyR{&x}); vf_assert(x.d[0] == 1 && x.d[1] == 2, "published"); vf_reach("end"); }
#else
extern "C" void vh_c41_async() { vf_cfg_timeouts = 0; X x; bool t; if (vf_pick(2)) region(x, [&] { ep::task_region(Body{&x}); }, t); else { x.thr[0] = vf_bool(); x.thr[2] = vf_bool(); region(x, [&] { ep::task_region(Body1{&x}); }, t); } vf_reach("end"); }
#endif
