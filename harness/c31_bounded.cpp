// C31: sync_bounded_queue.
// ENTRY vh_c31_seq | props=C31 | weight=3 | reach=end | bound=capacity 1 or 2, any position in the ring, 1 thread, 3 operations of 11 kinds, observers after each, then everything left is taken; elements leak-checked
// ENTRY vh_c31_seq4 | props=C31 | tier=thorough | reach=end | bound=the same with 4 operations and capacity 1 to 3
// ENTRY vh_c31_ring | props=C31 | reach=end | bound=capacity 1 to 3, every contents, at every position in the ring; observers
// ENTRY vh_c31_old | props=C31 | weight=2 | reach=end | bound=capacity 1 or 2, the deprecated interface, 3 operations of 10 kinds
// ENTRY vh_c31_boom | props=C31 | reach=boom | bound=an element whose copy throws, every push variant
// ENTRY vh_c31_lin | props=C31 | opts=--race | weight=3 | reach=end | bound=capacity 1, 2 threads, 2 and 1 operations that cannot block, 0 or 1 elements before; linearisability of every result
// ENTRY vh_c31_lin22 | props=C31 | tier=thorough | reach=end | bound=the same with 2 operations each and capacity 1 or 2
// ENTRY vh_c31_pull | props=C31 | opts=--race | weight=3 | reach=end | bound=capacity 1 or 2, 1 thread taking twice with blocking pulls, the other pushing up to 2 (blocking) and closing
// ENTRY vh_c31_push | props=C31 | opts=--race | weight=3 | reach=end | bound=capacity 1, 1 thread pushing twice with blocking pushes, the other taking up to 2 and closing
// ENTRY vh_c31_close | props=C31 | opts=--race | weight=2 | reach=end;closed;room | bound=capacity 1 and full, 2 threads blocked in pushes, 1 element taken or not, then a close
// ENTRY vh_c31_cons2 | props=C31 | opts=--race | weight=3 | reach=end | bound=capacity 1, 2 consumers, 1 producer of 2 elements, no close
// ENTRY vh_c31_prod2 | props=C31 | opts=--race | weight=3 | reach=end | bound=capacity 1, 2 producers of 1 element each, 1 consumer of 2
// ENTRY vh_c31_both | props=C31 | weight=3 | tier=thorough | reach=end | bound=capacity 1, 2 producers, 2 consumers, 2 elements
// ENTRY vh_c31_race | props=C31,C40 | reach=end | bound=1 producer publishing data through the queue, 1 consumer
// ENTRY vh_c31_busy | props=C31 | opts=--race | reach=end;busy | bound=an operation that does not block at any point of a push or pull by another thread whose element copies take time, 0 or 1 elements before; races checked
#include "queue_common.h"
typedef sync_bounded_queue<V> Q; typedef BackFront<Q> A; typedef Ops<A> O;
static int wp() { return vf_pick(2) * 3; }
static void turn(Q& q, int n) { V v; for (int i = 0; i < n; i++) { q.push_back(V(1)); q.pull_front(v); } }
static void seqn(int n, int maxcap) { { int cap = 1 + vf_pick(maxcap); Q q(cap); Mo m; mo0(m, cap); turn(q, vf_pick(cap + 1)); observers(q, m); vf_assert((int)q.capacity() == cap, "capacity"); seq<A>(q, m, n); drain<A>(q, m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c31_seq() { seqn(3, 2); }
extern "C" void vh_c31_seq4() { seqn(4, 3); }
extern "C" void vh_c31_ring() { { int cap = 1 + vf_pick(3); Q q(cap); Mo m; mo0(m, cap); turn(q, vf_pick(cap + 1)); for (int i = 0, n = vf_pick(cap + 1); i < n; i++) { mo_push(m, 1, i + 1); vf_assert(O::push(q, 1, false, i + 1) == OK, "there is room"); observers(q, m); } vf_assert(O::push(q, 1, true, 9) == mo_push(m, 1, 9), "full or not"); observers(q, m); drain<A>(q, m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c31_boom() { { Q q(2); Mo m; mo0(m, 2); boom<A>(q, m); drain<A>(q, m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c31_old() { { int cap = 1 + vf_pick(2); Q q(cap); Mo m; mo0(m, cap); turn(q, vf_pick(2)); int id = 1; for (int i = 0; i < 3; i++) { int k = vf_pick(10), r = 0, e = 0, v = 0; V x(id), g(77);
    if (k < 4) e = mo_push(m, k < 2 ? 0 : 1, id++); else if (k < 9) e = mo_pull(m, k < 7 ? 0 : 1, v); if (e == NONE) vf_stop();
    try { switch (k) { case 0: q.push(x); break; case 1: q.push(boost::move(x)); break; case 2: r = vf_pick(2) ? q.try_push(x) : q.try_push(boost::move(x)); r = r ? OK : FULL; break; case 3: r = vf_pick(2) ? q.try_push(no_block, x) : q.try_push(no_block, boost::move(x)); r = r ? OK : FULL; break;
      case 4: q.pull(g); break; case 5: g = q.pull(); break; case 6: { shared_ptr<V> p = q.ptr_pull(); vf_assert(p.get() != 0, "an element"); g = *p; break; } case 7: r = (vf_pick(2) ? q.try_pull(g) : q.try_pull(no_block, g)) ? OK : EMPTY; break; case 8: { shared_ptr<V> p = q.try_pull(); r = p ? OK : EMPTY; if (p) g = *p; break; }
      default: q.close(); m.closed = true; } } catch (sync_queue_is_closed&) { r = CLOSED; }
    vf_assert(r == (e >= THROWN ? e - THROWN : e), "the result matches what was done"); if (k >= 4 && k < 9) vf_assert(g.id == (r == OK ? v : 77), "the element is the one due"); observers(q, m); } drain<A>(q, m); } vf_assert(v_live == 0, "every element is destroyed once"); }
struct X { Q q; Hist h; Mo m; int got[4], k; X(int cap) : q(cap), k(0) { hist0(h); mo0(m, cap); for (int i = 0; i < 4; i++) got[i] = 0; } };
static void any(X* x, int t, int i) { int k = vf_pick(7); switch (k) { case 0: case 1: act<A>(x->q, x->h, t, i, PULL, k + 1, false, 0); break; case 2: case 6: act<A>(x->q, x->h, t, i, PUSH, k == 2 ? 1 : 2, vf_pick(2), t * 10 + i + 1); break; case 3: act<A>(x->q, x->h, t, i, CLOSE, 0, false, 0); break; case 4: act<A>(x->q, x->h, t, i, SIZE, 0, false, 0); break; default: act<A>(x->q, x->h, t, i, FULLQ, vf_pick(2), false, 0); } }
static void w_any(X* x) { any(x, 0, 0); any(x, 0, 1); }
static void linn(int n, int cap) { vf_cfg_timeouts = 0; { X x(cap); turn(x.q, vf_pick(2)); if (vf_pick(2)) { V v(99); x.q.push_back(v); mo_push(x.m, 0, 99); } vf_go(w_any, &x); any(&x, 1, 0); if (n > 1) any(&x, 1, 1); vf_joinall(); check<A>(x.q, x.h, x.m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c31_lin() { linn(1, 1); }
extern "C" void vh_c31_lin22() { linn(2, 1 + vf_pick(2)); }
static void w_pull(X* x) { for (int i = 0; i < 2; i++) { int w = vf_pick(3); act<A>(x->q, x->h, 0, i, PULL, w == 0 ? 0 : w == 1 ? 3 : 4, false, 0); } }
extern "C" void vh_c31_pull() { vf_cfg_timeouts = 0; X x(1 + vf_pick(2)); vf_go(w_pull, &x); int n = vf_pick(3); for (int i = 0; i < n; i++) act<A>(x.q, x.h, 1, i, PUSH, wp(), vf_pick(2), i + 1); if (n < 2 || vf_pick(2)) act<A>(x.q, x.h, 1, n, CLOSE, 0, false, 0); vf_joinall(); check<A>(x.q, x.h, x.m); }
static void w_push(X* x) { for (int i = 0; i < 2; i++) act<A>(x->q, x->h, 0, i, PUSH, wp(), vf_pick(2), i + 1); }
extern "C" void vh_c31_push() { vf_cfg_timeouts = 0; X x(1); vf_go(w_push, &x); int n = vf_pick(3); for (int i = 0; i < n; i++) act<A>(x.q, x.h, 1, i, PULL, wp(), false, 0); if (n == 0 || vf_pick(2)) act<A>(x.q, x.h, 1, n, CLOSE, 0, false, 0); vf_joinall(); check<A>(x.q, x.h, x.m); }
static void w_cl(X* x) { int w = wp(), r = O::push(x->q, w, vf_pick(2), 2); if (r == OK) gh_inc(&x->got[1]); else { vf_assert(r == (w == 3 ? CLOSED : THROWN + CLOSED), "the documented way to say closed"); gh_inc(&x->got[0]); } }
extern "C" void vh_c31_close() { vf_cfg_timeouts = 0; X x(1); O::push(x.q, 0, true, 1); vf_go(w_cl, &x); vf_go(w_cl, &x); int n = vf_pick(2), v = 0; if (n) { O::pull(x.q, 0, v); vf_assert(v == 1, "first in, first out"); } x.q.close(); vf_assert(O::push(x.q, 1, vf_pick(2), 8) == CLOSED, "refused"); vf_joinall(); vf_assert(x.got[1] + x.got[0] == 2 && x.got[1] <= n && (int)x.q.size() == (n ? x.got[1] : 1), "what was accepted is in the queue"); if (x.got[1]) vf_reach("room"); else vf_reach("closed"); vf_reach("end"); }
static void w_take(X* x) { int v = 0, r = O::pull(x->q, wp(), v); vf_assert(r == OK && (v == 1 || v == 2), "an element arrives"); gh_inc(&x->got[v]); }
extern "C" void vh_c31_cons2() { vf_cfg_timeouts = 0; X x(1); vf_go(w_take, &x); vf_go(w_take, &x); O::push(x.q, wp(), true, 1); O::push(x.q, wp(), false, 2); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == 1 && x.q.empty(), "each exactly once"); vf_reach("end"); }
static void w_p1(X* x) { vf_assert(O::push(x->q, wp(), true, 1) == OK, "room comes"); } static void w_p2(X* x) { vf_assert(O::push(x->q, wp(), true, 2) == OK, "room comes"); }
extern "C" void vh_c31_prod2() { vf_cfg_timeouts = 0; X x(1); vf_go(w_p1, &x); vf_go(w_p2, &x); w_take(&x); w_take(&x); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == 1 && x.q.empty(), "each exactly once"); vf_reach("end"); }
extern "C" void vh_c31_both() { vf_cfg_timeouts = 0; X x(1); vf_go(w_p1, &x); vf_go(w_p2, &x); vf_go(w_take, &x); w_take(&x); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == 1 && x.q.empty(), "each exactly once"); vf_reach("end"); }
static int data; struct RX { sync_bounded_queue<int> q; int k; RX() : q(1) {} };
static void w_pub(RX* x) { data = 5; switch (x->k) { case 0: x->q.push_back(1); break; case 1: x->q.try_push_back(1); break; default: x->q.wait_push_back(1); } if (x->k == 2) { x->q.push_back(2); } }
extern "C" void vh_c31_race() { vf_cfg_timeouts = 0; RX x; x.k = vf_pick(3); data = 0; vf_go(w_pub, &x); int v = 0; x.q.empty(); x.q.size(); if (vf_pick(2)) x.q.pull_front(v); else x.q.wait_pull_front(v); vf_assert(data == 5 && v == 1, "published"); if (x.k == 2) x.q.pull_front(v); x.q.close(); vf_reach("end"); vf_joinall(); }
extern "C" void vh_c31_busy() { sync_bounded_queue<S> q(3); busy<BackFront<sync_bounded_queue<S> > >(q, true); }
