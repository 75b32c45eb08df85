// C22: actions at thread exit.
// FLAGS -DBOOST_THREAD_VERSION=4
// ENTRY vh_c22_value | props=C22 | weight=3 | reach=value;exception;task | bound=1 boost::thread (handle kept and joined afterwards, or detached) calling set_value_at_thread_exit, set_exception_at_thread_exit or make_ready_at_thread_exit; 1 thread-specific object, 1 exit function, 1 waiting thread
// ENTRY vh_c22_external | props=C22 | weight=2 | reach=value;exception | bound=1 thread not created by boost calling set_value_at_thread_exit or set_exception_at_thread_exit (with or without boost thread data before), 1 waiting thread
// ENTRY vh_c22_notify | props=C22 | weight=2 | reach=end | bound=1 boost::thread (handle kept or detached) or external thread calling notify_all_at_thread_exit, 1 waiter, 1 thread-specific object
// ENTRY vh_c22_func | props=C22 | weight=2 | reach=end;interrupted | bound=1 boost::thread or external thread registering 2 exit functions, one of which may register a third; ended by return or interruption
// ENTRY vh_c22_chain | props=C22,C25 | weight=2 | reach=end;function from cleanup;value from function | bound=1 boost::thread or external thread: the cleanup of a thread-specific object registers an exit function or not, that function stores another thread-specific value or not, a promise set at thread exit and a waiting thread
// ENTRY vh_c22_race | props=C22,C40 | reach=end | bound=set_value_at_thread_exit publishing data to 1 reader
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/condition_variable.hpp>
using namespace boost;
struct Err { int v; };
struct X { promise<int> p; future<int> f; packaged_task<int()> pt; int how, body, cleaned, exitf, n[3], more, intr, ext, go; bool keep, pre; mutex m; condition_variable cv; int state;
  X() : how(0), body(0), cleaned(0), exitf(0), more(0), intr(0), ext(0), go(0), keep(false), pre(false), state(0) { n[0] = n[1] = n[2] = 0; } };
static X* gx;
static void early() { vf_assert(!gx->f.valid() || !gx->f.is_ready(), "the future is ready before the thread has finished"); }
static void cleanup(int* p) { vf_assert(p == &gx->cleaned, "value"); early(); gh_inc(&gx->cleaned); }
static void on_exit_() { early(); vf_assert(gh_get(&gx->body), "exit function before the end of the thread function"); gh_inc(&gx->exitf); }
static thread_specific_ptr<int>* tss;
static int tbody() { return 7; }
static void ends(X* x) {
  try { if (x->how == 0) x->p.set_value_at_thread_exit(7); else if (x->how == 1) { Err e = {7}; x->p.set_exception_at_thread_exit(e); } else x->pt.make_ready_at_thread_exit(); } catch (...) { vf_assert(false, "setting the result failed"); }
  early(); bool again = false;
  try { if (x->how == 0) x->p.set_value(8); else if (x->how == 1) x->p.set_value_at_thread_exit(8); else x->pt(); } catch (promise_already_satisfied&) { again = true; } catch (task_already_started&) { again = true; }
  vf_assert(again, "the result can be set only once"); vf_sched(); early(); gh_set(&x->body, 1); }
static void w_value() { X* x = gx; tss->reset(&x->cleaned); this_thread::at_thread_exit(on_exit_); ends(x); }
static void result(X* x, bool all) { bool e = false; int v = 0; try { v = x->f.get(); } catch (Err& q) { e = true; v = q.v; } vf_assert(v == 7 && e == (x->how == 1), "the result"); vf_assert(gh_get(&x->body), "not before the thread function ended"); if (all) vf_assert(gh_get(&x->cleaned) == 1 && gh_get(&x->exitf) == 1, "after the thread-specific objects and exit functions"); }
extern "C" void vh_c22_value() { vf_cfg_timeouts = 0; X x; gx = &x; thread_specific_ptr<int> t(cleanup); tss = &t; x.how = vf_pick(3); if (x.how == 2) { x.pt = packaged_task<int()>(tbody); x.f = x.pt.get_future(); } else x.f = x.p.get_future(); x.keep = vf_pick(2);
  { thread th(w_value); if (!x.keep) th.detach(); result(&x, true); if (x.keep) th.join(); } vf_await(&vf_env_threads, 0, 0, 0, 0, 0);
  vf_assert(x.cleaned == 1 && x.exitf == 1, "once"); vf_reach_if(x.how == 0, "value"); vf_reach_if(x.how == 1, "exception"); vf_reach_if(x.how == 2, "task"); }
static void* ext_value(void*) { if (gx->pre) this_thread::at_thread_exit(on_exit_); ends(gx); return 0; }
extern "C" void vh_c22_external() { vf_cfg_timeouts = 0; X x; gx = &x; x.how = vf_pick(2); x.pre = vf_pick(2); x.f = x.p.get_future(); pthread_t th; pthread_create(&th, 0, ext_value, 0); result(&x, false); pthread_join(th, 0); vf_assert(x.exitf == x.pre, "once"); vf_reach_if(x.how == 0, "value"); vf_reach_if(x.how == 1, "exception"); }
static void w_notify() { X* x = gx; if (!x->ext) tss->reset(&x->cleaned); unique_lock<mutex> lk(x->m); notify_all_at_thread_exit(x->cv, boost::move(lk)); vf_assert(!lk.owns_lock() && vf_owned(x->m.native_handle()) == vf_tid() + 1, "the lock is kept until the thread ends"); gh_set(&x->body, 1); }
static void* ext_notify(void*) { w_notify(); return 0; }
extern "C" void vh_c22_notify() { vf_cfg_timeouts = 0; X x; gx = &x; thread_specific_ptr<int> t(cleanup); tss = &t; x.keep = vf_pick(2); x.ext = vf_pick(2); thread th; pthread_t pt;
  { unique_lock<mutex> lk(x.m); if (x.ext) pthread_create(&pt, 0, ext_notify, 0); else { th = thread(w_notify); if (!x.keep) th.detach(); }
    while (!gh_get(&x.body)) x.cv.wait(lk); vf_assert(x.ext || gh_get(&x.cleaned) == 1, "after the thread-specific objects"); vf_assert(vf_owned(x.m.native_handle()) == vf_tid() + 1, "lock"); }
  if (x.ext) pthread_join(pt, 0); else if (x.keep) th.join(); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(vf_owned(x.m.native_handle()) == 0, "released"); vf_reach("end"); }
static void f2() { gh_inc(&gx->n[2]); }
static void f0() { vf_assert(gx->body, "exit function before the end of the thread function"); gh_inc(&gx->n[0]); }
static void f1() { vf_assert(gx->body, "exit function before the end of the thread function"); gh_inc(&gx->n[1]); if (gx->more) this_thread::at_thread_exit(f2); }
static void w_func() { X* x = gx; struct S { X* x; ~S() { x->body = 1; } } s = {x}; this_thread::at_thread_exit(f0); this_thread::at_thread_exit(f1); if (x->intr) { unique_lock<mutex> lk(x->m); for (;;) x->cv.wait(lk); } }
static void* ext_func(void*) { w_func(); return 0; }
extern "C" void vh_c22_func() { vf_cfg_timeouts = 0; X x; gx = &x; x.more = vf_bool(); x.intr = vf_pick(2); x.ext = !x.intr && vf_pick(2); if (x.ext) { pthread_t pt; pthread_create(&pt, 0, ext_func, 0); pthread_join(pt, 0); } else { thread th(w_func); if (x.intr) th.interrupt(); th.join(); }
  vf_assert(x.n[0] == 1 && x.n[1] == 1 && x.n[2] == x.more, "each exit function runs exactly once"); vf_reach("end"); vf_reach_if(x.intr, "interrupted"); }
// actions that cause further actions
static thread_specific_ptr<int>* tss2;
struct CH { X x; int a, b, fn, c2; bool reg, store; CH() : a(0), b(0), fn(0), c2(0), reg(false), store(false) {} };
static CH* gc;
static void chain_fn() { early(); gh_inc(&gc->fn); if (gc->store) { tss2->reset(&gc->b); vf_reach("value from function"); } }
static void chain_clean(int* p) { vf_assert(p == &gc->a, "value"); early(); gh_inc(&gx->cleaned); if (gc->reg) { this_thread::at_thread_exit(chain_fn); vf_reach("function from cleanup"); } }
static void chain_clean2(int* p) { vf_assert(p == &gc->b, "value"); early(); gh_inc(&gc->c2); }
static void w_chain() { X* x = gx; tss->reset(&gc->a); x->p.set_value_at_thread_exit(7); gh_set(&x->body, 1); }
static void* ext_chain(void*) { w_chain(); return 0; }
extern "C" void vh_c22_chain() { vf_cfg_timeouts = 0; CH c; gc = &c; gx = &c.x; thread_specific_ptr<int> t(chain_clean), t2(chain_clean2); tss = &t; tss2 = &t2; c.reg = vf_bool(); c.store = vf_bool(); c.x.ext = vf_pick(2); c.x.f = c.x.p.get_future();
  pthread_t pt; thread th; if (c.x.ext) pthread_create(&pt, 0, ext_chain, 0); else th = thread(w_chain);
  vf_assert(c.x.f.get() == 7, "the result"); vf_assert(c.x.cleaned == 1 && c.fn == c.reg && c.c2 == (c.reg && c.store), "each action runs once, before the result is published");
  if (c.x.ext) pthread_join(pt, 0); else th.join(); vf_assert(c.x.cleaned == 1 && c.fn == c.reg && c.c2 == (c.reg && c.store), "each action runs once"); vf_reach("end"); }
static int data;
static void w_race() { data = 5; gx->p.set_value_at_thread_exit(7); }
extern "C" void vh_c22_race() { vf_cfg_timeouts = 0; X x; gx = &x; data = 0; x.f = x.p.get_future(); thread th(w_race); if (vf_bool()) { th.detach(); vf_assert(x.f.get() == 7 && data == 5, "published"); } else { vf_assert(x.f.get() == 7 && data == 5, "published"); th.join(); } vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_reach("end"); }
