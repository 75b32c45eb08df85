// C39: refused system resources, executors.
// FLAGS -DBOOST_THREAD_VERSION=5
// ENTRY vh_c39_submit | props=C39 | weight=3 | reach=end;failed;made | bound=a closure submitted to each of 7 executors, any one request refused from its construction on
// ENTRY vh_c39_asyncex | props=C39 | weight=2 | reach=end;failed;made | bound=async on a pool or an inline executor, any one request refused
// ENTRY vh_c39_thenex | props=C39 | weight=2 | reach=end;failed;made | bound=a continuation on an executor, any one request refused
// ENTRY vh_c39_region | props=C39,C41 | weight=3 | reach=end;failed;made | bound=a task region with 2 tasks on threads of their own, any one allocation or thread refused: no task outlives it
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/experimental/task_region.hpp>
#include <new>
using namespace boost; namespace ep = boost::experimental::parallel;
enum { OK, RES, MEM, OTHER };
template <class F> static int attempt(int mask, F f) { int th = vf_env_threads, mu = vf_env_mutexes, co = vf_env_conds; long live = vf_heap_live(); vf_cfg_fail = 1; vf_cfg_failmask = mask; vf_env_failed = 0; int k = OK;
  try { f(); } catch (thread_resource_error const&) { k = RES; } catch (std::bad_alloc const&) { k = MEM; } catch (...) { k = OTHER; } vf_cfg_fail = 0;
  vf_assert((k != OK) == (vf_env_failed > 0), "a refusal is reported, and nothing else is"); vf_assert(k == OK || k == (mask & 8 ? MEM : RES), "with the documented exception"); vf_assert(vf_held(vf_tid()) == 0, "no mutex stays locked");
  vf_await(&vf_env_threads, th, 0, 0, 0, 0); vf_assert(vf_env_mutexes == mu && vf_env_conds == co, "no system object stays allocated"); vf_assert(vf_heap_live() == live, "no memory is lost"); if (k) vf_reach("failed"); else vf_reach("made"); return k; }
static int kind() { static const int m[3] = {1 | 2, 8, 4}; return m[vf_pick(3)]; }
extern "C" { static __attribute__((noinline)) void gh_dec(int* p) { --*p; } }
struct Z { int live, ran; Z() : live(0), ran(0) {} }; static Z* gz;
struct Fn { Fn() { gh_inc(&gz->live); } Fn(Fn const&) { gh_inc(&gz->live); } ~Fn() { gh_dec(&gz->live); } void operator()() const { gh_inc(&gz->ran); } template <class F> int operator()(F) const { gh_inc(&gz->ran); return 4; } };
template <class E> static void give(E& e) { e.submit(Fn()); }
extern "C" void vh_c39_submit() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(7), mask = kind(); int k = attempt(mask, [&] { switch (w) { case 0: { basic_thread_pool e(1); give(e); break; } case 1: { loop_executor e; give(e); e.run_queued_closures(); break; } case 2: { inline_executor e; give(e); break; } case 3: { thread_executor e; give(e); break; }
    case 4: { executors::executor_adaptor<loop_executor> e; executors::executor& b = e; b.submit(executors::executor::work(Fn())); e.underlying_executor().run_queued_closures(); break; } case 5: { executors::executor_adaptor<thread_executor> e; give(e); break; } default: { inline_executor u; executors::generic_executor_ref r(u); executors::generic_executor_ref s(r); s.submit(Fn()); } } });
  vf_assert(gh_get(&z.ran) <= 1 && (k || gh_get(&z.ran) == 1), "run once if nothing was refused"); vf_assert(gh_get(&z.live) == 0, "no copy of the closure is left or destroyed twice"); vf_reach("end"); }
extern "C" void vh_c39_asyncex() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(2), mask = kind(); attempt(mask, [&] { if (w) { basic_thread_pool e(1); future<void> f = async(e, Fn()); f.get(); } else { inline_executor e; future<void> f = async(e, Fn()); f.get(); } }); vf_assert(gh_get(&z.live) == 0, "no copy of the function is left"); vf_reach("end"); }
extern "C" void vh_c39_thenex() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(2), mask = kind(); attempt(mask, [&] { promise<int> p; future<int> f = p.get_future(); if (w) { thread_executor e; future<int> g = f.then(e, Fn()); p.set_value(1); vf_assert(g.get() == 4, "result"); } else { inline_executor e; future<int> g = f.then(e, Fn()); p.set_value(1); vf_assert(g.get() == 4, "result"); } }); vf_assert(gh_get(&z.live) == 0, "no copy of the function is left"); vf_reach("end"); }
struct Ts { int* in; int* out; void operator()() const { gh_inc(in); gh_inc(out); } };
struct Body { int *in, *out; template <class R> void operator()(R& r) const { for (int i = 0; i < 2; i++) { Ts t = {in, out}; r.run(boost::move(t)); } } };
extern "C" void vh_c39_region() { vf_cfg_timeouts = 0; int mask = vf_pick(2) ? 8 : 4, in = 0, out = 0; { thread_executor e; vf_cfg_fail = 1; vf_cfg_failmask = mask; bool x = false; try { ep::task_region(e, Body{&in, &out}); } catch (...) { x = true; } vf_cfg_fail = 0; int i = gh_get(&in), o = gh_get(&out); vf_assert(x == (vf_env_failed > 0), "a refusal is reported"); vf_assert(i == o, "no task is running when the region ends"); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(gh_get(&in) == i, "no task starts after it"); if (x) vf_reach("failed"); else vf_reach("made"); vf_assert(x || i == 2, "all ran"); } vf_reach("end"); }
