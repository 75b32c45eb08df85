// C39: refused system resources.
// FLAGS -DBOOST_THREAD_VERSION=4
// ENTRY vh_c39_ctor | props=C39 | weight=2 | reach=end;failed;made | bound=15 kinds of objects made, used once and destroyed; any one request (mutex, condition variable, memory) refused
// ENTRY vh_c39_mutex | props=C39 | reach=end;failed | bound=a refused lock of the system's mutex; a refused wait of a condition variable, with and without deadline
// ENTRY vh_c39_thread | props=C39 | weight=3 | reach=end;failed;started | bound=a thread made in 5 forms, any one request (thread, mutex, condition variable, memory) refused
// ENTRY vh_c39_async | props=C39 | weight=3 | reach=end;failed;started | bound=async in 3 policies, any one request refused
// ENTRY vh_c39_future | props=C39 | weight=2 | reach=end;failed;made | bound=promise, packaged task and ready future made in 6 forms, the result stored, read and shared, any one request refused
// ENTRY vh_c39_then | props=C39 | weight=3 | reach=end;failed;made | bound=a continuation (then, 2 policies, also 2 of one shared future) or when_all/when_any over 2 futures, any one request refused
// ENTRY vh_c39_exit | props=C39 | weight=2 | reach=end;failed;made | bound=at_thread_exit, notify_all_at_thread_exit, set_value_at_thread_exit and thread_specific_ptr in a thread of the library, any one allocation refused
// ENTRY vh_c39_ext | props=C39 | weight=2 | reach=end;failed;made | bound=the same in a thread not started by the library
// ENTRY vh_c39_group | props=C39 | weight=2 | reach=end;failed | bound=a group making or adding 2 threads, any one request refused
// ENTRY vh_c39_queue | props=C39 | weight=2 | reach=end;failed | bound=2 pushes to each kind of queue, any one allocation refused
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/deque_views.hpp>
#include <new>
using namespace boost;
enum { OK, RES, MEM, SYS, OTHER };
// the operation with any one of the requests in mask refused: a refusal is reported with the documented exception, and nothing remains
template <class F> static int attempt(int mask, F f) { int th = vf_env_threads, mu = vf_env_mutexes, co = vf_env_conds, at = vf_env_attrs; long live = vf_heap_live(); vf_cfg_fail = 1; vf_cfg_failmask = mask; vf_env_failed = 0; int k = OK;
  try { f(); } catch (thread_resource_error const&) { k = RES; } catch (std::bad_alloc const&) { k = MEM; } catch (system::system_error const&) { k = SYS; } catch (...) { k = OTHER; } vf_cfg_fail = 0;
  vf_assert((k != OK) == (vf_env_failed > 0), "a refusal is reported, and nothing else is"); vf_assert(k == OK || k == (mask & 8 ? MEM : mask & (32 | 64) ? SYS : RES), "with the documented exception"); vf_assert(vf_held(vf_tid()) == 0, "no mutex stays locked");
  vf_await(&vf_env_threads, th, 0, 0, 0, 0); vf_assert(vf_env_mutexes == mu && vf_env_conds == co && vf_env_attrs == at, "no system object stays allocated"); vf_assert(vf_heap_live() == live, "no memory is lost"); if (k) vf_reach("failed"); else vf_reach("made"); return k; }
static int kind() { static const int m[3] = {1 | 2, 8, 4}; return m[vf_pick(3)]; }
template <class M> static void mx() { M m; m.lock(); m.unlock(); }
template <class M> static void sx() { M m; m.lock_shared(); m.unlock_shared(); m.lock(); m.unlock(); }
extern "C" void vh_c39_ctor() { vf_cfg_timeouts = 0; int w = vf_pick(15), mask = vf_pick(2) ? 8 : 3; attempt(mask, [&] { switch (w) { case 0: mx<mutex>(); break; case 1: mx<timed_mutex>(); break; case 2: mx<recursive_mutex>(); break; case 3: mx<recursive_timed_mutex>(); break; case 4: sx<shared_mutex>(); break; case 5: { shared_mutex m; m.lock_upgrade(); m.unlock_upgrade_and_lock(); m.unlock(); break; }
    case 6: { condition_variable c; c.notify_all(); break; } case 7: { condition_variable_any c; c.notify_all(); break; } case 8: { barrier b(1); b.wait(); break; } case 9: { latch l(1); l.count_down(); l.wait(); break; } case 10: { sync_queue<int> q; q.close(); break; } case 11: { sync_bounded_queue<int> q(2); q.close(); break; } case 12: { sync_priority_queue<int> q; q.close(); break; } case 13: { sync_timed_queue<int> q; q.close(); break; } default: { sync_deque<int> q; q.close(); } } }); vf_reach("end"); }
template <class M> static void lk() { M m; int k = attempt(32, [&] { m.lock(); m.unlock(); }); vf_assert(k == OK || k == SYS, "lock_error"); vf_assert(vf_held(vf_tid()) == 0, "not held"); { unique_lock<M> l(m, defer_lock); vf_cfg_fail = 1; bool ex = false; try { l.lock(); } catch (lock_error&) { ex = true; } vf_cfg_fail = 0; vf_assert(l.owns_lock() == !ex, "a lock that failed is not owned"); } { lock_guard<M> l(m); } }
extern "C" void vh_c39_mutex() { vf_cfg_timeouts = 0; switch (vf_pick(2)) { case 0: lk<mutex>(); break;
  default: { vf_cfg_timeouts = 1; bool tm = vf_pick(2); mutex m; condition_variable c; unique_lock<mutex> l(m); vf_cfg_fail = 1; vf_cfg_failmask = 64; vf_cfg_spurious = 1; bool ex = false; try { if (tm) c.wait_until(l, chrono::system_clock::now() + chrono::milliseconds(80)); else { vf_assume(1); vf_cfg_failmask = 64 | 512; c.wait(l); } } catch (condition_error&) { ex = true; } vf_cfg_fail = 0; vf_assert(ex == (vf_env_failed > 0), "a refused wait is reported"); vf_assert(l.owns_lock() && vf_held(vf_tid()) == 1, "and the mutex is held again"); if (ex) vf_reach("failed"); } } vf_reach("end"); }
// counted: how many copies exist, how many ran
extern "C" { static __attribute__((noinline)) void gh_dec(int* p) { --*p; } }
struct Z { int live, ran; Z() : live(0), ran(0) {} }; static Z* gz;
struct Fn { Fn() { gh_inc(&gz->live); } Fn(Fn const&) { gh_inc(&gz->live); } ~Fn() { gh_dec(&gz->live); } void operator()() const { gh_inc(&gz->ran); } int operator()(int) const { gh_inc(&gz->ran); return 4; } };
static void fin(int k, int runs) { vf_assert(gh_get(&gz->ran) == (k == OK ? runs : 0), "the function runs only if nothing was refused"); vf_assert(gh_get(&gz->live) == 0, "no copy of it is left or destroyed twice"); vf_reach("end"); }
static void free_fn(Fn const& f) { f(); }
extern "C" void vh_c39_thread() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(5), mask = kind(); int k = attempt(mask, [&] { Fn f; switch (w) { case 0: { thread t(f); t.join(); break; } case 1: { thread t((Fn())); t.join(); break; } case 2: { thread t(&free_fn, f); t.join(); break; } case 3: { thread::attributes a; thread t(static_cast<thread::attributes const&>(a), f); t.join(); break; } default: { thread t(f); t.detach(); } } }); if (!k) vf_reach("started"); fin(k, 1); }
extern "C" void vh_c39_async() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(3), mask = kind(); int k = attempt(mask, [&] { Fn f; future<void> r; if (w == 0) r = async(launch::async, f); else if (w == 1) r = async(launch::deferred, f); else r = async(f); r.get(); vf_assert(!r.valid(), "read"); }); if (!k) vf_reach("started"); fin(k, 1); }

// the result type counts its copies too
struct V { int v; V(int k = 0) : v(k) { gh_inc(&gz->live); } V(V const& o) : v(o.v) { gh_inc(&gz->live); } V& operator=(V const& o) { v = o.v; return *this; } ~V() { gh_dec(&gz->live); } };
struct FnV { V operator()() const { gh_inc(&gz->ran); return V(7); } };
extern "C" void vh_c39_future() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(6), mask = kind(); if (mask == 4) mask = 8; attempt(mask, [&] { switch (w) { case 0: { promise<V> p; future<V> f = p.get_future(); p.set_value(V(3)); vf_assert(f.get().v == 3, "value"); break; } case 1: { promise<V> p; shared_future<V> f = p.get_future().share(); V v(4); p.set_value(v); shared_future<V> g = f; vf_assert(g.get().v == 4, "value"); break; }
    case 2: { packaged_task<V()> t((FnV())); future<V> f = t.get_future(); t(); vf_assert(gh_get(&gz->ran) == 1, "ran"); int n = 0; try { n = f.get().v; } catch (std::bad_alloc&) { n = -1; throw; } vf_assert(n == 7, "value"); break; } case 3: { future<V> f = make_ready_future(V(5)); vf_assert(f.get().v == 5, "value"); break; } case 4: { promise<void> p; future<void> f = p.get_future(); p.set_value(); f.get(); break; } default: { promise<int> p; future<int> f = p.get_future(); p.set_exception(boost::copy_exception(std::runtime_error("x"))); bool ex = false; try { f.get(); } catch (std::runtime_error&) { ex = true; } catch (std::bad_alloc&) { if (vf_env_failed) throw; } vf_assert(ex, "exception"); } } });
  vf_assert(gh_get(&z.live) == 0, "no copy of the result is left or destroyed twice"); vf_reach("end"); }
struct Ct { int* ran; template <class F> int operator()(F f) const { gh_inc(ran); return 1; } };
extern "C" void vh_c39_then() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(5), mask = kind(); if (mask == 4 && w != 1 && w != 4) mask = 8; int k = attempt(mask, [&] { promise<int> p; future<int> f = p.get_future(); Ct c = {&gz->ran};
    switch (w) { case 0: { future<int> g = f.then(launch::sync, Ct(c)); p.set_value(3); vf_assert(g.get() == 1, "result"); break; } case 1: { future<int> g = f.then(launch::async, Ct(c)); p.set_value(3); vf_assert(g.get() == 1, "result"); break; }
    case 2: { future<int> e = make_ready_future(4); auto g = when_all(boost::move(f), boost::move(e)); p.set_value(3); auto r = g.get(); vf_assert(csbl::get<0>(r).get() + csbl::get<1>(r).get() == 7, "results"); break; }
    case 4: { shared_future<int> s = f.share(); future<int> a = s.then(launch::async, Ct(c)), b = s.then(launch::async, Ct(c)); bool x = false; int n = 0; p.set_value(3); try { n += a.get(); } catch (...) { x = true; n += b.get(); throw; } n += b.get(); vf_assert(n == 2, "results"); break; }
    default: { future<int> e = make_ready_future(4); auto g = when_any(boost::move(f), boost::move(e)); auto r = g.get(); vf_assert(csbl::get<1>(r).get() == 4, "result"); p.set_value(3); } } }); vf_assert(gh_get(&z.ran) <= (w == 4 ? 2 : 1), "at most once"); vf_reach("end"); (void)k; }
static mutex* gm; static condition_variable* gc; static thread_specific_ptr<V>* gt;
static void at_end() { gh_inc(&gz->ran); }
static void exits(int w, int* k, int* up) { vf_cfg_fail = 1; vf_cfg_failmask = 8; try { switch (w) { case 0: this_thread::at_thread_exit(&at_end); break; case 1: { unique_lock<mutex> l(*gm); notify_all_at_thread_exit(*gc, boost::move(l)); break; } case 2: { promise<int> p; future<int> f = p.get_future(); p.set_value_at_thread_exit(5); vf_assert(!f.is_ready(), "not before the end"); *up = 1; break; }
    case 3: { V* v = new V(1); try { gt->reset(v); } catch (...) { delete v; throw; } V* u = new V(2); try { gt->reset(u); } catch (...) { delete u; throw; } break; } default: { thread::id i = this_thread::get_id(); vf_assert(i == this_thread::get_id(), "id"); this_thread::disable_interruption d; this_thread::at_thread_exit(Fn()); } } } catch (std::bad_alloc&) { *k = 1; } vf_cfg_fail = 0; vf_assert((*k == 1) == (vf_env_failed > 0), "a refusal is reported"); }
static void at_exit(bool ext) { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(5), k = 0, up = 0; long live0 = vf_heap_live(); { mutex m; condition_variable c; thread_specific_ptr<V> tp; gm = &m; gc = &c; gt = &tp; struct A { int w, *k, *up; void go() { exits(w, k, up); } } a = {w, &k, &up}; if (ext) { pthread_t pt; pthread_create(&pt, 0, [](void* x) -> void* { ((A*)x)->go(); return 0; }, &a); pthread_join(pt, 0); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); } else { thread t([&a] { exits(a.w, a.k, a.up); }); t.join(); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); }
    vf_assert(m.try_lock(), "the mutex is free"); m.unlock(); vf_assert(gh_get(&z.ran) == (!k && (w == 0 || w == 4)), "called at the end of the thread exactly if it was registered"); }
  vf_assert(gh_get(&z.live) == 0, "every value destroyed once"); vf_assert(vf_heap_live() == live0, "no memory is lost"); if (k) vf_reach("failed"); else vf_reach("made"); vf_reach("end"); }
extern "C" void vh_c39_exit() { at_exit(false); }
extern "C" void vh_c39_ext() { at_exit(true); }
extern "C" void vh_c39_group() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(2), mask = kind(), made = 0; int k = attempt(mask, [&] { Fn f; thread_group g; try { for (int i = 0; i < 2; i++) { if (w) { g.create_thread(f); made++; } else { thread* t = new thread(f); made++; try { g.add_thread(t); } catch (...) { t->join(); delete t; throw; } } } } catch (...) { g.join_all(); throw; } g.join_all(); vf_assert(g.size() == 2, "both recorded"); });
  vf_assert(gh_get(&z.ran) == made || (k == MEM && w && gh_get(&z.ran) == made + 1), "exactly the threads made run"); vf_assert(gh_get(&z.live) == 0, "no copy of the function is left"); vf_reach("end"); }
template <class Q> static void q2() { Q q; int n = 0; try { q.push(V(1)); n++; q.push(V(2)); n++; } catch (std::bad_alloc&) { vf_cfg_fail = 0; vf_assert((int)q.size() == n, "a push that failed changed nothing"); int c = gh_get(&gz->live); for (; n; n--) { V v; q.pull(v); } vf_assert(q.empty(), "the rest can be taken out"); (void)c; throw; } V v; q.pull(v); q.pull(v); }
struct L { bool operator()(V const& a, V const& b) const { return a.v < b.v; } };
extern "C" void vh_c39_queue() { vf_cfg_timeouts = 0; Z z; gz = &z; int w = vf_pick(4); attempt(8, [&] { switch (w) { case 0: q2<sync_queue<V> >(); break; case 1: { sync_bounded_queue<V> q(2); q.push(V(1)); q.push(V(2)); V v; q.pull(v); q.pull(v); break; } case 2: q2<sync_priority_queue<V, csbl::vector<V>, L> >(); break; default: { sync_deque<V> q; int n = 0; try { q.push_back(V(1)); n++; q.push_back(V(2)); n++; } catch (std::bad_alloc&) { vf_assert((int)q.size() == n, "a push that failed changed nothing"); throw; } } } }); vf_assert(gh_get(&z.live) == 0, "every element destroyed once"); vf_reach("end"); }
