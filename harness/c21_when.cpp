// C21: when_all, when_any, wait_for_all, wait_for_any.
// FLAGS -DBOOST_THREAD_VERSION=4
// ENTRY vh_c21_any | props=C21 | opts=--race | weight=5 | reach=first;second | bound=wait_for_any on 2 futures, arguments or range, 1 thread setting either then (perhaps) the other, one ready before or none
// ENTRY vh_c21_any3 | props=C21 | opts=--race | weight=5 | reach=first;second;third | bound=wait_for_any on 3 futures, one of them set, before or during the wait; the others set after the wait
// ENTRY vh_c21_all | props=C21 | opts=--race | weight=4 | reach=end | bound=wait_for_all on 2 futures, arguments or range, values or exceptions, set by 2 threads
// ENTRY vh_c21_order | props=C21 | weight=4 | reach=end | bound=2 threads waiting with wait_for_any for the same 2 shared_futures in opposite order, 1 setter
// ENTRY vh_c21_same | props=C21 | opts=--race | reach=end | bound=wait_for_any and wait_for_all on 2 copies of one shared_future, ready or set by another thread
// ENTRY vh_c21_when_all | props=C21 | weight=4 | reach=end | bound=when_all of 2 futures, tuple or range, value or exception, set before, deferred or set by another thread
// ENTRY vh_c21_when_any | props=C21 | weight=4 | reach=first;second | bound=when_any of 2 futures (tuple), one or both set afterwards
// ENTRY vh_c21_when_any_v | props=C21 | weight=4 | reach=first;second | bound=when_any of a range of 2 futures, one or both set afterwards
// ENTRY vh_c21_when_any_2 | props=C21 | opts=--race | reach=first;second | bound=when_any of 2 futures (tuple or range), one or both set before
// ENTRY vh_c21_deferred | props=C21 | reach=end | bound=when_all and when_any of deferred futures mixed with ready ones
// ENTRY vh_c21_shared | props=C21 | reach=end | bound=when_all and when_any of shared_futures, empty ranges and no arguments
// ENTRY vh_c21_race | props=C21,C40 | reach=end | bound=wait_for_any and 1 setter publishing data
#include "vfh.h"
#include <boost/thread/future.hpp>
#include <vector>
using namespace boost;
struct Err { int v; };
struct X { promise<int> p[3]; future<int> f[3]; shared_future<int> s[3]; int first, both, began[3], n, exc; X() : first(0), both(0), n(0), exc(0) { for (int i = 0; i < 3; i++) { f[i] = p[i].get_future(); began[i] = 0; } } };
static void put(X* x, int i) { gh_set(&x->began[i], 1); if (x->exc >> i & 1) { Err e = {10 + i}; x->p[i].set_exception(e); } else x->p[i].set_value(10 + i); }
static void set_some(X* x) { put(x, x->first); if (x->both) put(x, 1 - x->first); }
static void chk(X* x, future<int>& f, int i) { vf_assert(f.valid(), "still valid"); vf_assert(gh_get(&x->began[i]) && f.is_ready(), "ready"); bool e = false; int g; try { g = f.get(); } catch (Err& q) { e = true; g = q.v; } vf_assert(g == 10 + i && e == ((x->exc >> i & 1) != 0), "its own outcome"); }
extern "C" void vh_c21_any() { vf_cfg_timeouts = 0; X x; x.first = vf_choice(2); x.both = vf_bool(); bool pre = vf_bool(); if (pre) set_some(&x); else vf_go(set_some, &x); unsigned k; if (vf_bool()) k = wait_for_any(x.f[0], x.f[1]); else k = wait_for_any(&x.f[0], &x.f[2]) - &x.f[0]; vf_assert(k < 2 && (k == (unsigned)x.first || x.both), "the position of a ready future"); if (k < 2) chk(&x, x.f[k], k); vf_reach_if(k == 0, "first"); vf_reach_if(k == 1, "second"); vf_joinall(); }
static void set1(X* x) { put(x, x->first); }
extern "C" void vh_c21_any3() { vf_cfg_timeouts = 0; X x; x.first = vf_choice(3); if (vf_bool()) put(&x, x.first); else vf_go(set1, &x); unsigned k = wait_for_any(x.f[0], x.f[1], x.f[2]); vf_assert(k == (unsigned)x.first, "the position of the ready future"); vf_joinall(); for (int i = 0; i < 3; i++) { if (i != x.first) put(&x, i); chk(&x, x.f[i], i); } vf_reach_if(k == 0, "first"); vf_reach_if(k == 1, "second"); vf_reach_if(k == 2, "third"); }
static void seta(X* x) { put(x, vf_tid() - 1); }
extern "C" void vh_c21_all() { vf_cfg_timeouts = 0; X x; x.exc = vf_choice(4); vf_go(seta, &x); vf_go(seta, &x); if (vf_bool()) wait_for_all(x.f[0], x.f[1]); else wait_for_all(&x.f[0], &x.f[2]); chk(&x, x.f[0], 0); chk(&x, x.f[1], 1); vf_reach("end"); vf_joinall(); }
static void or_w(X* x) { unsigned k = vf_tid() == 1 ? wait_for_any(x->s[0], x->s[1]) : 1 - wait_for_any(x->s[1], x->s[0]); vf_assert(k == (unsigned)x->first, "the ready one"); gh_inc(&x->n); }
extern "C" void vh_c21_order() { vf_cfg_timeouts = 0; X x; for (int i = 0; i < 2; i++) x.s[i] = x.f[i].share(); x.first = vf_pick(2); vf_go(or_w, &x); vf_go(or_w, &x); put(&x, x.first); vf_joinall(); vf_assert(x.n == 2, "both return"); vf_reach("end"); }
extern "C" void vh_c21_same() { vf_reach("end"); X x; x.s[0] = x.f[0].share(); x.s[1] = x.s[0]; if (vf_bool()) put(&x, 0); else vf_go(set1, &x); if (vf_bool()) { unsigned k = wait_for_any(x.s[0], x.s[1]); vf_assert(k < 2, "position"); } else wait_for_all(x.s[0], x.s[1]); vf_assert(x.s[0].is_ready(), "ready"); vf_joinall(); }
static int dfn0() { return 10; } static int dfn1() { return 11; }
extern "C" void vh_c21_when_all() { vf_cfg_timeouts = 0; X x; x.exc = vf_choice(4); int pre = vf_choice(3); if (pre == 2) { x.exc &= 1; x.f[1] = async(launch::deferred, &dfn1); x.began[1] = 1; put(&x, 0); } else if (pre) { put(&x, 0); x.first = 1; vf_go(set1, &x); } else { x.first = 1; x.both = 1; vf_go(set_some, &x); }
  if (vf_bool()) { typedef csbl::tuple<future<int>, future<int> > T; future<T> r = when_all(boost::move(x.f[0]), boost::move(x.f[1])); vf_assert(!x.f[0].valid() && !x.f[1].valid(), "moved in"); T t = r.get(); chk(&x, csbl::get<0>(t), 0); chk(&x, csbl::get<1>(t), 1); }
  else { typedef csbl::vector<future<int> > V; V v; v.push_back(boost::move(x.f[0])); v.push_back(boost::move(x.f[1])); future<V> r = when_all(v.begin(), v.end()); V t = r.get(); vf_assert(t.size() == 2, "all of them"); chk(&x, t[0], 0); chk(&x, t[1], 1); }
  vf_reach("end"); vf_joinall(); }
static bool wa_pre;
static void wa_tuple(X* x, bool& r0, bool& r1) { typedef csbl::tuple<future<int>, future<int> > T; future<T> r = when_any(boost::move(x->f[0]), boost::move(x->f[1])); if (!wa_pre) { vf_assert(!r.is_ready(), "nothing is ready"); set_some(x); } T t = r.get(); r0 = csbl::get<0>(t).is_ready(); r1 = csbl::get<1>(t).is_ready(); vf_assert(csbl::get<0>(t).valid() && csbl::get<1>(t).valid(), "holds all"); if (r0) chk(x, csbl::get<0>(t), 0); if (r1) chk(x, csbl::get<1>(t), 1); }
static void wa_vec(X* x, bool& r0, bool& r1) { typedef csbl::vector<future<int> > V; V v; v.push_back(boost::move(x->f[0])); v.push_back(boost::move(x->f[1])); future<V> r = when_any(v.begin(), v.end()); if (!wa_pre) { vf_assert(!r.is_ready(), "nothing is ready"); set_some(x); } V t = r.get(); vf_assert(t.size() == 2, "all of them"); r0 = t[0].is_ready(); r1 = t[1].is_ready(); if (r0) chk(x, t[0], 0); if (r1) chk(x, t[1], 1); }
static void wa(bool vec, bool pre, bool both) { vf_cfg_timeouts = 0; X x; x.first = vf_pick(2); x.both = both; wa_pre = pre; if (pre) set_some(&x); bool r0, r1; if (vec) wa_vec(&x, r0, r1); else wa_tuple(&x, r0, r1); vf_assert(r0 || r1, "at least one is ready"); vf_reach_if(r0, "first"); vf_reach_if(r1, "second"); vf_joinall(); }
extern "C" void vh_c21_when_any() { wa(false, false, vf_pick(2)); }
extern "C" void vh_c21_when_any_v() { wa(true, false, vf_pick(2)); }
extern "C" void vh_c21_when_any_2() { wa(vf_bool(), true, vf_bool()); }
extern "C" void vh_c21_deferred() { vf_cfg_timeouts = 0; X x; bool second = vf_bool(); x.f[0] = async(launch::deferred, &dfn0); x.began[0] = 1; if (second) { x.f[1] = async(launch::deferred, &dfn1); x.began[1] = 1; } else put(&x, 1); if (vf_bool()) boost::swap(x.f[0], x.f[1]); typedef csbl::tuple<future<int>, future<int> > T; bool all = vf_bool(); future<T> r = all ? when_all(boost::move(x.f[0]), boost::move(x.f[1])) : when_any(boost::move(x.f[0]), boost::move(x.f[1])); T t = r.get(); bool a = csbl::get<0>(t).is_ready(), b = csbl::get<1>(t).is_ready(); vf_assert(all ? a && b : a || b, "ready"); vf_assert(csbl::get<0>(t).get() + csbl::get<1>(t).get() == 21, "the outcomes"); vf_reach("end"); }
extern "C" void vh_c21_shared() { vf_cfg_timeouts = 0; X x; for (int i = 0; i < 2; i++) x.s[i] = x.f[i].share(); x.first = 0; x.both = 1; vf_go(set_some, &x); vf_assert(when_all().is_ready() && when_any().is_ready(), "nothing to wait for"); std::vector<future<int> > none; vf_assert(when_all(none.begin(), none.end()).get().empty() && when_any(none.begin(), none.end()).get().empty(), "nothing to wait for"); typedef csbl::tuple<shared_future<int>, shared_future<int> > T; if (vf_bool()) { T t = when_all(x.s[0], x.s[1]).get(); vf_assert(x.s[0].valid(), "copied"); vf_assert(csbl::get<0>(t).get() == 10 && csbl::get<1>(t).get() == 11 && x.s[1].is_ready(), "outcomes"); } else { T t = when_any(x.s[0], x.s[1]).get(); vf_assert(csbl::get<0>(t).is_ready() || csbl::get<1>(t).is_ready(), "one is ready"); vf_assert(csbl::get<0>(t).get() == 10 && csbl::get<1>(t).get() == 11, "outcomes"); } vf_reach("end"); vf_joinall(); }
static int rd; static void r_set(X* x) { rd = 5; x->p[0].set_value(1); }
extern "C" void vh_c21_race() { vf_cfg_timeouts = 0; X x; rd = 0; vf_go(r_set, &x); vf_assert(wait_for_any(x.f[0], x.f[1]) == 0 && rd == 5, "published"); vf_joinall(); vf_reach("end"); }
