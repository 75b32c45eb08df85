// C32: sync_deque, queue and deque adaptors and views.
// ENTRY vh_c32_seq | props=C32 | weight=3 | reach=end | bound=sync_deque, 1 thread, 3 operations of 11 kinds, observers after each, then everything left is taken; elements leak-checked
// ENTRY vh_c32_facade | props=C32 | weight=3 | reach=end | bound=queue_adaptor, deque_adaptor through their base classes, queue and deque views of queues and of adaptors, 2 operations of 11 kinds each, then everything left is taken
// ENTRY vh_c32_facade3 | props=C32 | tier=thorough | reach=end | bound=the same with 3 operations
// ENTRY vh_c32_move | props=C32 | weight=2 | reach=end | bound=adaptors of queues whose elements can only be moved, 3 operations
// ENTRY vh_c32_boom | props=C32 | reach=boom | bound=an element whose copy throws, every push variant
// ENTRY vh_c32_lin | props=C32 | opts=--race | weight=3 | reach=end | bound=sync_deque, 2 threads, 2 and 1 operations that cannot block; linearisability of every result
// ENTRY vh_c32_wake | props=C32 | opts=--race | weight=3 | reach=end | bound=sync_deque or an adaptor, 1 thread taking twice with blocking pulls, the other pushing up to 2 and closing
// ENTRY vh_c32_wake3 | props=C32 | opts=--race | weight=2 | reach=end | bound=sync_deque, 2 consumers, 1 producer of 2 elements, no close
// ENTRY vh_c32_close | props=C32 | opts=--race | weight=2 | reach=end | bound=sync_deque, 2 blocked consumers, 1 element or none and a close
// ENTRY vh_c32_race | props=C32,C40 | reach=end | bound=1 producer publishing data through a deque or a view, 1 consumer
// ENTRY vh_c32_busy | props=C32 | opts=--race | reach=end;busy | bound=an operation that does not block at any point of a push or pull by another thread whose element copies take time, 0 or 1 elements before; races checked
#include "queue_common.h"
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#include <boost/thread/concurrent_queues/deque_views.hpp>
typedef sync_deque<V> Q; typedef BackFront<Q> A; typedef Ops<A> O;
static int wp() { return vf_pick(2) * 3; }
template <class AA> static void seqn(typename AA::queue& q, int n) { Mo m; mo0(m, 0); observers(q, m); seq<AA>(q, m, n); drain<AA>(q, m); }
static void gone() { vf_assert(v_live == 0, "every element is destroyed once"); }
extern "C" void vh_c32_seq() { { Q q; seqn<A>(q, 3); } gone(); }
// two views as one queue
template <class Bk, class Fr> struct Pair { Bk b; Fr f; template <class Z> Pair(Z& z) : b(z), f(z) {} size_t size() { vf_assert(b.size() == f.size(), "both views agree"); return f.size(); } bool empty() { vf_assert(b.empty() == f.empty(), "both views agree"); return b.empty(); } bool full() { vf_assert(b.full() == f.full(), "both views agree"); return f.full(); } bool closed() { vf_assert(b.closed() == f.closed(), "both views agree"); return b.closed(); } void close() { if (vf_pick(2)) b.close(); else f.close(); } };
template <class Bk, class Fr> struct QV { typedef Pair<Bk, Fr> queue; static int push(queue& q, int w, bool mv, V& v) { return FrontBack<Bk>::push(q.b, w, mv, v); } static int pull(queue& q, int w, V& v) { return FrontBack<Fr>::pull(q.f, w, v); } };
template <class Bk, class Fr> struct DV { typedef Pair<Bk, Fr> queue; static int push(queue& q, int w, bool mv, V& v) { return FrontBack<Bk>::push(q.b, w, mv, v); } static int pull(queue& q, int w, V& v) { return FrontBack<Fr>::pull(q.f, w, v); } };
template <class X> static void views(X& q, int n, bool dq);
static void facade(int n) { switch (vf_pick(7)) {
    case 0: { queue_adaptor<sync_queue<V> > a; seqn<FrontBack<queue_base<V> > >(a, n); break; }
    case 1: { deque_adaptor<sync_deque<V> > a; seqn<BackFront<deque_base<V> > >(a, n); break; }
    case 2: { sync_queue<V> s; typedef QV<queue_back_view<sync_queue<V> >, queue_front_view<sync_queue<V> > > Z; Z::queue q(s); seqn<Z>(q, n); break; }
    case 3: { sync_deque<V> s; typedef DV<deque_back_view<sync_deque<V> >, deque_front_view<sync_deque<V> > > Z; Z::queue q(s); seqn<Z>(q, n); break; }
    case 4: { queue_adaptor<sync_queue<V> > s; typedef QV<queue_back<V>, queue_front<V> > Z; Z::queue q((queue_base<V>&)s); seqn<Z>(q, n); break; }
    case 5: { deque_adaptor<sync_deque<V> > s; typedef DV<deque_back<V>, deque_front<V> > Z; Z::queue q((deque_base<V>&)s); seqn<Z>(q, n); break; }
    default: { queue_adaptor<sync_queue<V> > a; seqn<FrontBack<queue_adaptor<sync_queue<V> > > >(a, n); } } }
extern "C" void vh_c32_facade() { facade(2); gone(); }
extern "C" void vh_c32_facade3() { facade(3); gone(); }
struct N { int id; N(int i = 0) : id(i) { gh_inc(&v_live); } N(N&& o) : id(o.id) { o.id = -1; gh_inc(&v_live); } N& operator=(N&& o) { id = o.id; o.id = -1; return *this; } ~N() { gh_dec(&v_live); } N(N const&) = delete; N& operator=(N const&) = delete; };
template <class B> static int npush(B& b, int w, N& n, int) { switch (w) { case 1: return sti(b.try_push(boost::move(n))); case 2: return sti(b.nonblocking_push(boost::move(n))); case 3: return sti(b.wait_push(boost::move(n))); default: b.push(boost::move(n)); return OK; } }
template <class B> static int npush(B& b, int w, N& n, char) { switch (w) { case 1: return sti(b.try_push_back(boost::move(n))); case 2: return sti(b.nonblocking_push_back(boost::move(n))); case 3: return sti(b.wait_push_back(boost::move(n))); default: b.push_back(boost::move(n)); return OK; } }
template <class B> static int npull(B& b, int w, N& n, int) { switch (w) { case 1: return sti(b.try_pull(n)); case 2: return sti(b.nonblocking_pull(n)); case 3: return sti(b.wait_pull(n)); case 4: n = b.pull(); return OK; default: b.pull(n); return OK; } }
template <class B> static int npull(B& b, int w, N& n, char) { switch (w) { case 1: return sti(b.try_pull_front(n)); case 2: return sti(b.nonblocking_pull_front(n)); case 3: return sti(b.wait_pull_front(n)); case 4: n = b.pull_front(); return OK; default: b.pull_front(n); return OK; } }
template <class B, class T> static void nseq(B& b, T t) { Mo m; mo0(m, 0); for (int i = 0; i < 3; i++) { int k = vf_pick(10), r, e, v = 77; N x(i + 1), g(77); try { if (k < 4) { e = mo_push(m, k, i + 1); r = npush(b, k, x, t); if (r != OK) vf_assert(x.id == i + 1, "a push that is refused leaves the argument alone"); } else if (k < 9) { int w = k - 4; e = mo_pull(m, w, v); if (e == NONE) vf_stop(); r = npull(b, w, g, t); } else { e = r = OK; m.closed = true; b.close(); } } catch (sync_queue_is_closed&) { r = THROWN + CLOSED; } vf_assert(r == e, "the status matches what was done"); if (k >= 4 && k < 9) vf_assert(g.id == v, "the element due"); vf_assert((int)b.size() == m.n && b.empty() == (m.n == 0) && b.closed() == m.closed && !b.full(), "observers"); } vf_reach("end"); }
extern "C" void vh_c32_move() { if (vf_pick(2)) { queue_adaptor<sync_queue<N> > a; queue_base<N>& b = a; nseq(b, 0); } else { deque_adaptor<sync_deque<N> > a; deque_base<N>& b = a; nseq(b, 'c'); } gone(); }
extern "C" void vh_c32_boom() { { Q q; Mo m; mo0(m, 0); boom<A>(q, m); V a(5), b(6), c; q << a; q << boost::move(b); mo_push(m, 0, 5); mo_push(m, 0, 6); int v = 0; mo_pull(m, 0, v); q >> c; vf_assert(c.id == v, "operator>>"); drain<A>(q, m); } gone(); }
struct X { Q q; deque_adaptor<Q> d; Hist h; Mo m; int got[4], k; X() : k(0) { hist0(h); mo0(m, 0); for (int i = 0; i < 4; i++) got[i] = 0; } };
static void any(X* x, int t, int i) { int k = vf_pick(7); switch (k) { case 0: case 1: act<A>(x->q, x->h, t, i, PULL, k + 1, false, 0); break; case 2: act<A>(x->q, x->h, t, i, PUSH, vf_pick(4), vf_pick(2), t * 10 + i + 1); break; case 3: act<A>(x->q, x->h, t, i, CLOSE, 0, false, 0); break; case 4: act<A>(x->q, x->h, t, i, SIZE, 0, false, 0); break; case 5: act<A>(x->q, x->h, t, i, FULLQ, vf_pick(2), false, 0); break; default: act<A>(x->q, x->h, t, i, PUSH, 0, false, t * 10 + i + 1); } }
static void w_any(X* x) { any(x, 0, 0); any(x, 0, 1); }
extern "C" void vh_c32_lin() { vf_cfg_timeouts = 0; { X x; if (vf_pick(2)) { x.q.push_back(V(99)); mo_push(x.m, 0, 99); } vf_go(w_any, &x); any(&x, 1, 0); vf_joinall(); check<A>(x.q, x.h, x.m); } gone(); }
typedef BackFront<deque_base<V> > DA;
static void w_wake(X* x) { for (int i = 0; i < 2; i++) { int w = vf_pick(3); w = w == 0 ? 0 : w == 1 ? 3 : 4; if (x->k) act<DA>(x->d, x->h, 0, i, PULL, w, false, 0); else act<A>(x->q, x->h, 0, i, PULL, w, false, 0); } }
extern "C" void vh_c32_wake() { vf_cfg_timeouts = 0; X x; x.k = vf_pick(2); vf_go(w_wake, &x); int n = vf_pick(3); for (int i = 0; i < n; i++) if (x.k) act<DA>(x.d, x.h, 1, i, PUSH, wp(), vf_pick(2), i + 1); else act<A>(x.q, x.h, 1, i, PUSH, wp(), vf_pick(2), i + 1); if (n < 2 || vf_pick(2)) { if (x.k) act<DA>(x.d, x.h, 1, n, CLOSE, 0, false, 0); else act<A>(x.q, x.h, 1, n, CLOSE, 0, false, 0); } vf_joinall(); if (x.k) check<DA>(x.d, x.h, x.m); else check<A>(x.q, x.h, x.m); }
static void w_take(X* x) { int v = 0, r = O::pull(x->q, wp(), v); vf_assert(r == OK && (v == 1 || v == 2), "an element arrives"); gh_inc(&x->got[v]); }
extern "C" void vh_c32_wake3() { vf_cfg_timeouts = 0; X x; vf_go(w_take, &x); vf_go(w_take, &x); O::push(x.q, wp(), true, 1); O::push(x.q, wp(), false, 2); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == 1 && x.q.empty(), "each exactly once"); vf_reach("end"); }
static void w_cl(X* x) { int v = 0, w = vf_pick(3); w = w == 2 ? 4 : w * 3; int r = O::pull(x->q, w, v); if (r == OK) { vf_assert(v == 1, "the element pushed"); gh_inc(&x->got[1]); } else { vf_assert(r == (w == 3 ? CLOSED : THROWN + CLOSED), "the documented way to say closed"); gh_inc(&x->got[0]); } }
extern "C" void vh_c32_close() { vf_cfg_timeouts = 0; X x; vf_go(w_cl, &x); vf_go(w_cl, &x); int n = vf_pick(2); if (n) O::push(x.q, 0, true, 1); x.q.close(); vf_assert(O::push(x.q, wp(), vf_pick(2), 8) % 10 == CLOSED, "refused"); vf_joinall(); vf_assert(x.got[1] == n && x.got[0] == 2 - n && x.q.empty(), "one consumer per element, the others are told the queue is closed"); vf_reach("end"); }
static int data; struct RX { sync_deque<int> q; int k; };
static void w_pub(RX* x) { data = 5; switch (x->k) { case 0: x->q.push_back(1); break; case 1: x->q.try_push_back(1); break; default: { deque_back_view<sync_deque<int> > b(x->q); b.wait_push(1); } } }
extern "C" void vh_c32_race() { vf_cfg_timeouts = 0; RX x; x.k = vf_pick(3); data = 0; vf_go(w_pub, &x); int v = 0; x.q.empty(); x.q.size(); if (vf_pick(2)) x.q.pull_front(v); else x.q.wait_pull_front(v); vf_assert(data == 5 && v == 1, "published"); x.q.close(); vf_reach("end"); vf_joinall(); }
extern "C" void vh_c32_busy() { sync_deque<S> q; busy<BackFront<sync_deque<S> > >(q, true); }
