// C30: sync_queue.
// ENTRY vh_c30_seq | props=C30 | weight=3 | reach=end | bound=1 thread, 3 operations of 11 kinds (every push and pull variant, copying and moving, close), observers after each, then everything left is taken; elements leak-checked
// ENTRY vh_c30_seq4 | props=C30 | tier=thorough | reach=end | bound=the same with 4 operations
// ENTRY vh_c30_boom | props=C30 | reach=boom | bound=an element whose copy throws, every push variant, also operators and underlying_queue
// ENTRY vh_c30_lin | props=C30 | opts=--race | weight=3 | reach=end | bound=2 threads, 2 and 1 operations that cannot block (try, nonblocking, push, close, observers), 0 or 1 elements before; linearisability of every result
// ENTRY vh_c30_lin22 | props=C30 | tier=thorough | reach=end | bound=2 threads with 2 operations each that cannot block (try, nonblocking, push, close, observers), 0 or 1 elements before; linearisability of every result
// ENTRY vh_c30_wake | props=C30 | opts=--race | weight=3 | reach=end | bound=1 thread taking twice with blocking pulls, the other pushing up to 2 and closing; every variant
// ENTRY vh_c30_wake3 | props=C30 | opts=--race | weight=3 | reach=end | bound=2 consumers, 1 producer of 2 elements, no close
// ENTRY vh_c30_prod2 | props=C30 | opts=--race | weight=3 | reach=end | bound=2 producers of 2 and 1 elements, 1 consumer of 3
// ENTRY vh_c30_close | props=C30 | opts=--race | weight=2 | reach=end | bound=2 blocked consumers, 1 element and a close
// ENTRY vh_c30_race | props=C30,C40 | reach=end | bound=1 producer publishing data through the queue, 1 consumer
// ENTRY vh_c30_busy | props=C30 | opts=--race | reach=end;busy | bound=an operation that does not block at any point of a push or pull by another thread whose element copies take time, 0 or 1 elements before; races checked
#include "queue_common.h"
typedef sync_queue<V> Q; typedef FrontBack<Q> A; typedef Ops<A> O;
static int wp() { int w = vf_pick(3); return w == 2 ? 3 : w; } // a push that cannot be refused as busy
static void seqn(int n) { { Q q; Mo m; mo0(m, 0); observers(q, m); seq<A>(q, m, n); drain<A>(q, m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c30_seq() { seqn(3); }
extern "C" void vh_c30_seq4() { seqn(4); }
extern "C" void vh_c30_boom() { { Q q; Mo m; mo0(m, 0); boom<A>(q, m); V a(5), b(6), c; q << a; q << boost::move(b); mo_push(m, 0, 5); mo_push(m, 0, 6); int v = 0; mo_pull(m, 0, v); q >> c; vf_assert(c.id == v, "operator>>"); Q::underlying_queue_type u = q.underlying_queue(); vf_assert((int)u.size() == m.n, "underlying_queue"); for (int i = 0; i < m.n; i++) { vf_assert(u.front().id == m.a[i], "underlying_queue"); u.pop_front(); } } vf_assert(v_live == 0, "every element is destroyed once"); }
struct X { Q q; Hist h; Mo m; int got[4], k; X() : k(0) { hist0(h); mo0(m, 0); for (int i = 0; i < 4; i++) got[i] = 0; } };
static void any(X* x, int t, int i) { int k = vf_pick(7); switch (k) { case 0: case 1: act<A>(x->q, x->h, t, i, PULL, k + 1, false, 0); break; case 2: act<A>(x->q, x->h, t, i, PUSH, vf_pick(4), vf_pick(2), t * 10 + i + 1); break; case 3: act<A>(x->q, x->h, t, i, CLOSE, 0, false, 0); break; case 4: act<A>(x->q, x->h, t, i, SIZE, 0, false, 0); break; case 5: act<A>(x->q, x->h, t, i, FULLQ, vf_pick(2), false, 0); break; default: act<A>(x->q, x->h, t, i, PUSH, 0, false, t * 10 + i + 1); } }
static void w_any(X* x) { any(x, 0, 0); any(x, 0, 1); }
static void pre(X* x) { if (vf_pick(2)) { V v(99); x->q.push(v); mo_push(x->m, 0, 99); } }
static void linn(int n) { vf_cfg_timeouts = 0; { X x; pre(&x); vf_go(w_any, &x); any(&x, 1, 0); if (n > 1) any(&x, 1, 1); vf_joinall(); check<A>(x.q, x.h, x.m); } vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c30_lin() { linn(1); }
extern "C" void vh_c30_lin22() { linn(2); }
static void w_wake(X* x) { for (int i = 0; i < 2; i++) { int w = vf_pick(3); act<A>(x->q, x->h, 0, i, PULL, w == 0 ? 0 : w == 1 ? 3 : 4, false, 0); } }
extern "C" void vh_c30_wake() { vf_cfg_timeouts = 0; X x; vf_go(w_wake, &x); int n = vf_pick(3); for (int i = 0; i < n; i++) act<A>(x.q, x.h, 1, i, PUSH, wp(), vf_pick(2), i + 1); if (n < 2 || vf_pick(2)) act<A>(x.q, x.h, 1, n, CLOSE, 0, false, 0); vf_joinall(); check<A>(x.q, x.h, x.m); }
static void w_take(X* x) { int v = 0, w = vf_pick(2) * 3; int r = O::pull(x->q, w, v); vf_assert(r == OK, "an element arrives"); vf_assert(v == 1 || v == 2, "it is one that was pushed"); gh_inc(&x->got[v]); }
extern "C" void vh_c30_wake3() { vf_cfg_timeouts = 0; X x; vf_go(w_take, &x); vf_go(w_take, &x); O::push(x.q, wp(), true, 1); O::push(x.q, wp(), false, 2); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == 1 && x.q.empty(), "each exactly once"); vf_reach("end"); }
static void w_p2(X* x) { O::push(x->q, wp(), true, 1); O::push(x->q, 0, false, 2); } static void w_p1(X* x) { O::push(x->q, 0, true, 3); }
extern "C" void vh_c30_prod2() { vf_cfg_timeouts = 0; X x; vf_go(w_p2, &x); vf_go(w_p1, &x); int last = 0; for (int i = 0; i < 3; i++) { int v = 0; vf_assert(O::pull(x.q, vf_pick(2) * 3, v) == OK && v >= 1 && v <= 3, "an element arrives"); x.got[v]++; vf_assert(x.got[v] == 1, "exactly once"); if (v < 3) { vf_assert(v > last, "in the order of its producer"); last = v; } } vf_joinall(); vf_assert(x.q.empty(), "each exactly once"); vf_reach("end"); }
static void w_cl(X* x) { int v = 0, w = vf_pick(3); w = w == 2 ? 4 : w * 3; int r = O::pull(x->q, w, v); if (r == OK) { vf_assert(v == 1, "the element pushed"); gh_inc(&x->got[1]); } else { vf_assert(r == (w == 3 ? CLOSED : THROWN + CLOSED), "the documented way to say closed"); gh_inc(&x->got[0]); } }
extern "C" void vh_c30_close() { vf_cfg_timeouts = 0; X x; vf_go(w_cl, &x); vf_go(w_cl, &x); int n = vf_pick(2); if (n) O::push(x.q, 0, true, 1); x.q.close(); vf_assert(O::push(x.q, wp(), vf_pick(2), 8) % 10 == CLOSED, "refused"); vf_joinall(); vf_assert(x.got[1] == n && x.got[0] == 2 - n && x.q.empty(), "one consumer per element, the others are told the queue is closed"); vf_reach("end"); }
static int data; struct RX { sync_queue<int> q; int k; };
static void w_pub(RX* x) { data = 5; switch (x->k) { case 0: x->q.push(1); break; case 1: x->q.try_push(1); break; default: x->q.wait_push(1); } }
extern "C" void vh_c30_race() { vf_cfg_timeouts = 0; RX x; x.k = vf_pick(3); data = 0; vf_go(w_pub, &x); int v = 0; x.q.empty(); x.q.size(); if (vf_pick(2)) x.q.pull(v); else x.q.wait_pull(v); vf_assert(data == 5 && v == 1, "published"); x.q.close(); vf_reach("end"); vf_joinall(); }
extern "C" void vh_c30_busy() { sync_queue<S> q; busy<FrontBack<sync_queue<S> > >(q, true); }
