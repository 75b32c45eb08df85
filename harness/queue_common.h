// Shared by the queue harnesses: values, a sequential model, histories and their linearisation.
#pragma once
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
using namespace boost;
extern "C" { static __attribute__((noinline)) void gh_dec(int* p) { --*p; } }
static int v_live, v_boom; struct Boom {};
struct V { int id; V(int i = 0) : id(i) { gh_inc(&v_live); } V(V const& o) : id(o.id) { if (v_boom) throw Boom(); gh_inc(&v_live); } V(V&& o) : id(o.id) { o.id = -1; gh_inc(&v_live); } V& operator=(V const& o) { if (v_boom) throw Boom(); id = o.id; return *this; } V& operator=(V&& o) { id = o.id; o.id = -1; return *this; } ~V() { gh_dec(&v_live); } bool operator<(V const& o) const { return id < o.id; } };
typedef queue_op_status St; enum { OK = 0, EMPTY = 1, FULL = 2, CLOSED = 3, BUSY = 4, THROWN = 10, NONE = 99 }; // THROWN + CLOSED: sync_queue_is_closed
static int sti(St s) { return s == St::success ? OK : s == St::empty ? EMPTY : s == St::full ? FULL : s == St::closed ? CLOSED : s == St::busy ? BUSY : 7; }
// queues seen through one interface. variants: 0 plain 1 try 2 nonblocking 3 wait 4 by value or operator
template <class Q> struct FrontBack { typedef Q queue;
  static int push(Q& q, int w, bool mv, typename Q::value_type& v) { switch (w) { case 1: return sti(mv ? q.try_push(boost::move(v)) : q.try_push((typename Q::value_type const&)v)); case 2: return sti(mv ? q.nonblocking_push(boost::move(v)) : q.nonblocking_push((typename Q::value_type const&)v)); case 3: return sti(mv ? q.wait_push(boost::move(v)) : q.wait_push((typename Q::value_type const&)v)); default: if (mv) q.push(boost::move(v)); else q.push((typename Q::value_type const&)v); return OK; } }
  static int pull(Q& q, int w, typename Q::value_type& v) { switch (w) { case 1: return sti(q.try_pull(v)); case 2: return sti(q.nonblocking_pull(v)); case 3: return sti(q.wait_pull(v)); case 4: v = q.pull(); return OK; default: q.pull(v); return OK; } } };
template <class Q> struct BackFront { typedef Q queue;
  static int push(Q& q, int w, bool mv, typename Q::value_type& v) { switch (w) { case 1: return sti(mv ? q.try_push_back(boost::move(v)) : q.try_push_back((typename Q::value_type const&)v)); case 2: return sti(mv ? q.nonblocking_push_back(boost::move(v)) : q.nonblocking_push_back((typename Q::value_type const&)v)); case 3: return sti(mv ? q.wait_push_back(boost::move(v)) : q.wait_push_back((typename Q::value_type const&)v)); default: if (mv) q.push_back(boost::move(v)); else q.push_back((typename Q::value_type const&)v); return OK; } }
  static int pull(Q& q, int w, typename Q::value_type& v) { switch (w) { case 1: return sti(q.try_pull_front(v)); case 2: return sti(q.nonblocking_pull_front(v)); case 3: return sti(q.wait_pull_front(v)); case 4: v = q.pull_front(); return OK; default: q.pull_front(v); return OK; } } };
template <class A> struct Ops { typedef typename A::queue Q;
  static int push(Q& q, int w, bool mv, int id) { V v(id); int r; try { r = A::push(q, w, mv, v); } catch (sync_queue_is_closed&) { r = THROWN + CLOSED; } vf_assert(mv && r == OK ? true : v.id == id, "a push that is refused, or that copies, leaves the argument alone"); return r; }
  static int pull(Q& q, int w, int& id) { V v(77); int r; try { r = A::pull(q, w, v); } catch (sync_queue_is_closed&) { r = THROWN + CLOSED; } vf_assert(r == OK || v.id == 77, "a pull that gives nothing leaves the argument alone"); id = v.id; return r; } };
// sequential model
struct Mo { int a[8], n, cap; bool closed, prio; };
static int mo_push(Mo& m, int w, int id) { if (m.closed) return w == 0 || w == 4 ? THROWN + CLOSED : CLOSED; if (m.cap && m.n == m.cap) return w == 1 || w == 2 ? FULL : NONE; m.a[m.n++] = id; return OK; }
static int mo_pull(Mo& m, int w, int& id) { if (!m.n) { if (m.closed) return w == 0 || w == 4 ? THROWN + CLOSED : CLOSED; return w == 1 || w == 2 ? EMPTY : NONE; } int k = 0; if (m.prio) for (int i = 1; i < m.n; i++) if (m.a[i] > m.a[k]) k = i; id = m.a[k]; for (int i = k; i + 1 < m.n; i++) m.a[i] = m.a[i + 1]; m.n--; return OK; }
template <class Q> static void observers(Q& q, Mo& m) { vf_assert((int)q.size() == m.n, "size agrees with the contents"); vf_assert(q.empty() == (m.n == 0), "empty agrees with the contents"); vf_assert(q.full() == (m.cap && m.n == m.cap), "full agrees with the contents"); vf_assert(q.closed() == m.closed, "closed agrees with the history"); }
// a history of n operations by one thread
template <class A> static void seq(typename A::queue& q, Mo& m, int n) { int id = 1; for (int i = 0; i < n; i++) { int k = vf_pick(11);
    if (k < 5) { bool mv = vf_pick(2); int w = k == 4 ? 0 : k; int e = mo_push(m, w, id); if (e == NONE) vf_stop(); int r = Ops<A>::push(q, w, mv, id); vf_assert(r == e, "the status of a push matches what it did"); id++; }
    else if (k < 10) { int w = k - 5, v = 0, g = 0; int e = mo_pull(m, w, v); if (e == NONE) vf_stop(); int r = Ops<A>::pull(q, w, g); vf_assert(r == e, "the status of a pull matches what it did"); if (r == OK) vf_assert(g == v, "the element is the one due"); }
    else { q.close(); m.closed = true; }
    observers(q, m); } }
template <class A> static void drain(typename A::queue& q, Mo& m) { if (!m.closed) { q.close(); m.closed = true; } for (int i = 0; i < 8; i++) { int v = 0, g = 0, e = mo_pull(m, 3, v), r = Ops<A>::pull(q, 3, g); vf_assert(r == e && (r != OK || g == v), "what is left after a close can be taken, in order"); if (e != OK) break; } observers(q, m); vf_reach("end"); }
template <class A> static void boom(typename A::queue& q, Mo& m) { for (int i = 0, n = vf_pick(2); i < n; i++) { mo_push(m, 0, i + 1); Ops<A>::push(q, 0, true, i + 1); } int w = vf_pick(4); V v(9); v_boom = 1; bool ex = false; try { A::push(q, w, false, v); } catch (Boom&) { ex = true; } v_boom = 0; vf_assert(ex, "an exception of the element's copy is passed on"); observers(q, m); vf_reach("boom"); }
// concurrent histories: each thread records what its operations returned and what of the other thread's was over before
struct Rec { int push, w, id, r, before, after; }; struct Hist { Rec r[2][4]; int started[2], done[2], n[2]; };
extern "C" { static __attribute__((noinline)) void gh_hb(Hist* h, int t, int i) { h->started[t] = i + 1; h->r[t][i].before = h->done[1 - t]; }
static __attribute__((noinline)) void gh_he(Hist* h, int t, int i) { h->done[t] = i + 1; h->n[t] = i + 1; h->r[t][i].after = h->started[1 - t]; } }
enum { PULL = 0, PUSH = 1, CLOSE = 2, SIZE = 3, FULLQ = 4 };
template <class A> static void act(typename A::queue& q, Hist& h, int t, int i, int kind, int w, bool mv, int id) { Rec& r = h.r[t][i]; r.push = kind; r.w = w; gh_hb(&h, t, i); int v = id, x = 0; switch (kind) { case PUSH: x = Ops<A>::push(q, w, mv, id); break; case PULL: x = Ops<A>::pull(q, w, v); break; case CLOSE: q.close(); break; case SIZE: x = (int)q.size(); break; default: x = w ? q.full() : q.empty(); } r.r = x; r.id = v; gh_he(&h, t, i); }
static bool fits(Mo& m, Rec& r) { int v = 0; switch (r.push) { case PUSH: if (r.r == BUSY && r.w == 2) return r.after > r.before; return mo_push(m, r.w, r.id) == r.r; case PULL: if (r.r == BUSY && r.w == 2) return r.after > r.before; return mo_pull(m, r.w, v) == r.r && (r.r != OK || v == r.id); case CLOSE: m.closed = true; return true; case SIZE: return r.r == m.n; default: return r.r == (r.w ? m.cap && m.n == m.cap : m.n == 0); } }
static bool lin(Hist& h, int i, int j, Mo m, Mo* out) { if (i == h.n[0] && j == h.n[1]) { if (out->n != m.n || out->closed != m.closed) return false; for (int k = 0; k < m.n; k++) if (out->a[k] != m.a[k]) return false; return true; }
  if (i < h.n[0] && h.r[0][i].before <= j) { Mo c = m; if (fits(c, h.r[0][i]) && lin(h, i + 1, j, c, out)) return true; } if (j < h.n[1] && h.r[1][j].before <= i) { Mo c = m; if (fits(c, h.r[1][j]) && lin(h, i, j + 1, c, out)) return true; } return false; }
// what is left in the queue, read at the end by closing it
template <class A> static void check(typename A::queue& q, Hist& h, Mo m) { Mo out = m; out.n = 0; out.closed = q.closed(); int n = (int)q.size(); if (!out.closed) q.close(); for (int i = 0; i < n; i++) { int v = 0; vf_assert(Ops<A>::pull(q, 3, v) == OK, "size agrees with the contents"); out.a[out.n++] = v; } vf_assert(q.empty() && q.size() == 0, "size agrees with the contents");
  if (m.prio) for (int i = 0; i < out.n; i++) for (int j = i + 1; j < out.n; j++) if (out.a[j] > out.a[i]) vf_assert(0, "greatest first");
  vf_assert(lin(h, 0, 0, m, &out), "the results are those of some order of the operations: no element lost, duplicated, out of order, no status that does not match"); vf_reach("end"); }
static void hist0(Hist& h) { for (int t = 0; t < 2; t++) { h.started[t] = h.done[t] = h.n[t] = 0; for (int i = 0; i < 4; i++) { Rec& r = h.r[t][i]; r.push = r.w = r.id = r.r = r.before = r.after = 0; } } }
static void mo0(Mo& m, int cap) { m.n = 0; m.cap = cap; m.closed = m.prio = false; for (int i = 0; i < 8; i++) m.a[i] = 0; }
// an operation that does not block against one that is in the middle of its work: copying an element takes time
struct S { int id; S(int i = 0) : id(i) {} S(S const& o) : id(o.id) { vf_sched(); } S& operator=(S const& o) { vf_sched(); id = o.id; return *this; } bool operator<(S const& o) const { return id < o.id; } };
template <class Q> struct BX { Q* q; Act a; int push, w, mv, r, id; };
template <class A> static void w_busy(BX<typename A::queue>* x) { gh_begin(&x->a); S v(1); if (x->push) x->r = A::push(*x->q, x->w, x->mv, v); else { v.id = 0; x->r = A::pull(*x->q, x->w, v); x->id = v.id; } gh_end(&x->a); }
template <class A> static void busy(typename A::queue& q, bool nbpush) {
  vf_cfg_timeouts = 0; BX<typename A::queue> x; x.q = &q; x.a = Act(); x.r = 99; x.id = 0; int pre = vf_pick(2); if (pre) { S p(3); A::push(q, 0, true, p); } x.push = vf_pick(2); x.w = x.push ? vf_pick(2) : 1; x.mv = vf_pick(2); vf_go(w_busy<A>, &x);
  int pu = nbpush && vf_pick(2); gh_begin(&x.a); S v(pu ? 2 : 0); int r = pu ? A::push(q, 2, vf_pick(2), v) : A::pull(q, 2, v); bool over = gh_seen(&x.a) != 0; gh_end(&x.a); vf_joinall();
  vf_assert(r == OK || r == BUSY || r == (pu ? FULL : EMPTY), "the status of an operation that does not block"); vf_assert(x.r == OK || x.r == (x.push ? FULL : EMPTY), "the other operation is not disturbed");
  vf_assert(r != BUSY || over, "busy only while another operation is going on"); vf_assert(r != EMPTY || over || (!pre && !(x.push && x.r == OK)) || (pre && !x.push && x.r == OK), "empty only when it was");
  int n = (int)q.size(), want = pre + (x.push && x.r == OK) - (!x.push && x.r == OK) + (pu && r == OK) - (!pu && r == OK); vf_assert(n == want, "no element lost or duplicated");
  int in = (pre ? 8 : 0) + (x.push && x.r == OK ? 2 : 0) + (pu && r == OK ? 4 : 0), out = (!x.push && x.r == OK ? 1 << x.id : 0); if (!pu && r == OK) { vf_assert(!(out >> v.id & 1), "taken once"); out |= 1 << v.id; }
  for (int i = 0; i < n; i++) { S e; vf_assert(A::pull(q, 1, e) == OK && !(out >> e.id & 1), "each element once"); out |= 1 << e.id; } vf_assert(in == out, "what was put in comes out");
  vf_reach_if(r == BUSY, "busy"); vf_reach_if(r == OK, "end"); }
