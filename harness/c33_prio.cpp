// C33: sync_priority_queue and sync_timed_queue.
// ENTRY vh_c33_seq | props=C33 | weight=3 | reach=end;equal | bound=sync_priority_queue, 1 thread, 3 operations of 8 kinds, 3 priorities, elements of equal priority told apart, observers after each, then everything left is taken
// ENTRY vh_c33_seq4 | props=C33 | tier=thorough | reach=end;equal | bound=the same with 4 operations
// ENTRY vh_c33_heap | props=C33 | weight=2 | reach=end | bound=sync_priority_queue, 5 elements pushed in every order, one taken in between at any point, then all taken
// ENTRY vh_c33_lin | props=C33 | opts=--race | weight=3 | reach=end | bound=sync_priority_queue with 0 or 1 elements, 2 threads, 2 and 1 operations that cannot block; linearisability of every result
// ENTRY vh_c33_wake | props=C33 | opts=--race | weight=2 | reach=end | bound=sync_priority_queue, 1 thread taking twice with blocking pulls (timed ones that never time out too), the other pushing up to 2 and closing
// ENTRY vh_c33_close | props=C33 | opts=--race | weight=2 | reach=end | bound=sync_priority_queue, 2 blocked consumers, 1 element or none and a close
// ENTRY vh_c33_limit | props=C33 | opts=--race | weight=2 | reach=end;timeout;element | bound=sync_priority_queue, pull_until and pull_for with limits -50 and 80 ms, an element or a close at any moment, 1 time-out
// ENTRY vh_c33_tseq | props=C33 | weight=3 | reach=end;taken;not ready;empty;timeout;waited;closed | bound=sync_timed_queue, 1 thread, 3 operations of 10 kinds, due times -50, 80 and 150 ms, limits -50 and 80 ms
// ENTRY vh_c33_tseqs | props=C33 | tier=thorough | reach=end | bound=the same with 2 operations on chrono::system_clock, which is set forward 2 h or back 200 ms once
// ENTRY vh_c33_torder | props=C33 | weight=2 | reach=end | bound=sync_timed_queue, 3 elements with any of 3 due times, 3 blocking pulls
// ENTRY vh_c33_twake | props=C33 | opts=--race | weight=2 | reach=end;earlier;closed | bound=sync_timed_queue, a consumer waiting for nothing or for an element due in 150 ms without a time-out, and an element that is due or a close at any moment
// ENTRY vh_c33_twake2 | props=C33 | opts=--race | weight=3 | reach=end | bound=sync_timed_queue, 2 blocked consumers, 2 elements that are due, or 1 and a close, beside a late one or none
// ENTRY vh_c33_tjump | props=C33 | weight=2 | reach=end;jump | bound=sync_timed_queue of chrono::system_clock, one timed or try pull of an element due -50, 80 or 150 ms or of none; the system time is set forward 2 h or back 200 ms once
// ENTRY vh_c33_ttwo | props=C33 | opts=--race | weight=3 | reach=end;taken | bound=sync_timed_queue, consumer with a limit of 80 ms or none, producer of an element due -50 or 80 ms, 2 time-outs
// ENTRY vh_c33_race | props=C33,C40 | reach=end | bound=1 producer publishing data through a priority or timed queue, 1 consumer
// ENTRY vh_c33_busy | props=C33 | opts=--race | reach=end;busy | bound=an operation that does not block at any point of a push or pull by another thread whose element copies take time, 0 or 1 elements before; races checked
// ENTRY vh_c33_tbusy | props=C33 | opts=--race | reach=end;busy | bound=the same for sync_timed_queue with elements that are due
#include "queue_common.h"
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
typedef chrono::steady_clock SC; typedef chrono::milliseconds ms;
enum { TIMEOUT = 5, NOTREADY = 6 };
static int st2(St s) { return s == St::timeout ? TIMEOUT : s == St::not_ready ? NOTREADY : sti(s); }
template <class QQ> struct PA { typedef QQ queue;
  static int push(QQ& q, int w, bool mv, typename QQ::value_type& v) { switch (w) { case 1: return sti(mv ? q.try_push(boost::move(v)) : q.try_push((typename QQ::value_type const&)v)); default: if (mv) q.push(boost::move(v)); else q.push((typename QQ::value_type const&)v); return OK; } }
  static int pull(QQ& q, int w, typename QQ::value_type& v) { switch (w) { case 1: return sti(q.try_pull(v)); case 2: return sti(q.nonblocking_pull(v)); case 3: return sti(q.wait_pull(v)); case 4: v = q.pull(); return OK; case 5: return st2(q.pull_until(SC::now() + ms(80), v)); case 6: return st2(q.pull_for(ms(80), v)); default: q.pull(v); return OK; } } };
struct Less10 { bool operator()(V const& a, V const& b) const { return a.id / 10 < b.id / 10; } };
typedef sync_priority_queue<V> Q; typedef PA<Q> A; typedef Ops<A> O; typedef sync_priority_queue<V, csbl::vector<V>, Less10> QE; typedef PA<QE> AE; typedef Ops<AE> OE;
static void gone() { vf_assert(v_live == 0, "every element is destroyed once"); }
// one pull, the model accepts any element of the greatest priority
static void takee(QE& q, Mo& m, int w) { int v = 0, g = 0; Mo c = m; int e = mo_pull(c, w, v); if (e == NONE) { if (w < 5) vf_stop(); e = TIMEOUT; } if (w >= 5 && e == THROWN + CLOSED) e = CLOSED; int r = OE::pull(q, w, g); vf_assert(r == e, "the status of a pull matches what it did"); if (r == OK) { int k = -1, eq = 0; for (int i = 0; i < m.n; i++) { if (m.a[i] == g) k = i; vf_assert(m.a[i] / 10 <= g / 10, "a greatest remaining element"); if (m.a[i] / 10 == g / 10) eq++; } vf_assert(k >= 0, "an element that was pushed and not yet taken"); for (int i = k; i + 1 < m.n; i++) m.a[i] = m.a[i + 1]; m.n--; if (eq > 1) vf_reach("equal"); } }
static void pseq(int n) { { QE q; Mo m; mo0(m, 0); m.prio = true; for (int i = 0; i < n; i++) { int k = vf_pick(7); if (k < 2) { int p = vf_pick(3), w = vf_pick(2), e = mo_push(m, w, p * 10 + i); vf_assert(OE::push(q, w, k, p * 10 + i) == e, "the status of a push matches what it did"); } else if (k < 6) { int w = k == 5 ? 3 + vf_pick(4) : k - 2; takee(q, m, w); } else { q.close(); m.closed = true; } observers(q, m); } q.close(); m.closed = true; while (m.n) takee(q, m, 3); takee(q, m, 3); vf_reach("end"); } gone(); }
extern "C" void vh_c33_seq() { pseq(3); }
extern "C" void vh_c33_seq4() { pseq(4); }
extern "C" void vh_c33_heap() { { QE q; Mo m; mo0(m, 0); m.prio = true; int used = 0, at = vf_pick(5); for (int i = 0; i < 5; i++) { int p = vf_pick(5); if (used >> p & 1) vf_stop(); used |= 1 << p; mo_push(m, 0, p * 10); OE::push(q, 0, true, p * 10); if (i == at) takee(q, m, 1); } while (m.n) takee(q, m, 1); vf_reach("end"); } gone(); }
struct X { Q q; Hist h; Mo m; int got[4], k; X() : k(0) { hist0(h); mo0(m, 0); m.prio = true; for (int i = 0; i < 4; i++) got[i] = 0; } };
static void any(X* x, int t, int i) { int k = vf_pick(6); switch (k) { case 0: case 1: act<A>(x->q, x->h, t, i, PULL, k + 1, false, 0); break; case 2: act<A>(x->q, x->h, t, i, PUSH, vf_pick(2), vf_pick(2), (vf_pick(2) ? 20 : 0) + t * 4 + i + 1); break; case 3: act<A>(x->q, x->h, t, i, CLOSE, 0, false, 0); break; case 4: act<A>(x->q, x->h, t, i, SIZE, 0, false, 0); break; default: act<A>(x->q, x->h, t, i, FULLQ, vf_pick(2), false, 0); } }
// check() compares what is left in order: the model's is sorted first
static void sorted(Mo& m) { for (int i = 0; i < m.n; i++) for (int j = i + 1; j < m.n; j++) if (m.a[j] > m.a[i]) { int t = m.a[i]; m.a[i] = m.a[j]; m.a[j] = t; } }
static bool plin(Hist& h, int i, int j, Mo m, Mo* out) { if (i == h.n[0] && j == h.n[1]) { sorted(m); if (out->n != m.n || out->closed != m.closed) return false; for (int k = 0; k < m.n; k++) if (out->a[k] != m.a[k]) return false; return true; }
  if (i < h.n[0] && h.r[0][i].before <= j) { Mo c = m; if (fits(c, h.r[0][i]) && plin(h, i + 1, j, c, out)) return true; } if (j < h.n[1] && h.r[1][j].before <= i) { Mo c = m; if (fits(c, h.r[1][j]) && plin(h, i, j + 1, c, out)) return true; } return false; }
static void pcheck(Q& q, Hist& h, Mo m) { Mo out = m; out.n = 0; out.closed = q.closed(); int n = (int)q.size(); if (!out.closed) q.close(); for (int i = 0; i < n; i++) { int v = 0; vf_assert(O::pull(q, 3, v) == OK, "size agrees with the contents"); out.a[out.n++] = v; } vf_assert(q.empty() && q.size() == 0, "size agrees with the contents");
  vf_assert(plin(h, 0, 0, m, &out), "the results are those of some order of the operations: no element lost, duplicated, not the greatest, no status that does not match"); vf_reach("end"); }
static void w_any(X* x) { any(x, 0, 0); any(x, 0, 1); }
extern "C" void vh_c33_lin() { vf_cfg_timeouts = 0; { X x; if (vf_pick(2)) { x.q.push(V(15)); mo_push(x.m, 0, 15); } vf_go(w_any, &x); any(&x, 1, 0); vf_joinall(); pcheck(x.q, x.h, x.m); } gone(); }
static int bp() { int w = vf_pick(5); return w ? w + 2 : 0; } // a blocking pull
static int asw(int r, int w) { return r == THROWN + CLOSED && w != 0 && w != 4 ? 7 : r % 10; }
struct Wk { Q q; int r[2], v[2]; };
static void w_wake(Wk* x) { for (int i = 0; i < 2; i++) { int w = bp(), v = 0, r = O::pull(x->q, w, v); gh_set(&x->r[i], asw(r, w)); gh_set(&x->v[i], v); } }
extern "C" void vh_c33_wake() { vf_cfg_timeouts = 0; { Wk x; vf_go(w_wake, &x); int n = vf_pick(3), up = vf_pick(2); for (int i = 0; i < n; i++) O::push(x.q, vf_pick(2), vf_pick(2), up ? i + 1 : 2 - i); bool cl = n < 2 || vf_pick(2); if (cl) x.q.close(); vf_joinall();
  int t = 0; for (int i = 0; i < 2; i++) if (x.r[i] == OK) t |= 1 << x.v[i]; else vf_assert(x.r[i] == CLOSED && cl && i >= n, "closed only once nothing is left"); vf_assert(t == (n == 0 ? 0 : n == 1 ? (up ? 2 : 4) : 6), "each element once"); vf_reach("end"); } gone(); }
static void w_cl(X* x) { int v = 0, w = bp(), r = O::pull(x->q, w, v); if (r == OK) { vf_assert(v == 1, "the element pushed"); gh_inc(&x->got[1]); } else { vf_assert(r == (w == 3 || w > 4 ? CLOSED : THROWN + CLOSED), "the documented way to say closed"); gh_inc(&x->got[0]); } }
extern "C" void vh_c33_close() { vf_cfg_timeouts = 0; X x; vf_go(w_cl, &x); vf_go(w_cl, &x); int n = vf_pick(2); if (n) O::push(x.q, 0, true, 1); x.q.close(); int w = vf_pick(2); vf_assert(O::push(x.q, w, vf_pick(2), 8) == (w ? CLOSED : THROWN + CLOSED), "refused"); vf_joinall(); vf_assert(x.got[1] == n && x.got[0] == 2 - n && x.q.empty(), "one consumer per element, the others are told the queue is closed"); vf_reach("end"); }
struct Lm { Q q; int done; }; static void w_lim(Lm* x) { if (vf_pick(2)) { gh_set(&x->done, 1); O::push(x->q, vf_pick(2), true, 5); } else { gh_set(&x->done, 2); x->q.close(); } }
extern "C" void vh_c33_limit() { vf_cfg_timeouts = 1; { Lm x; x.done = 0; vf_go(w_lim, &x); long d = vf_pick(2) ? 80 : -50, dl = gh_ms(1) + d; V v(77); int r = st2(vf_pick(2) ? x.q.pull_for(ms(d), v) : x.q.pull_until(SC::now() + ms(d), v)); int dn = gh_get(&x.done); switch (r) { case OK: vf_assert(dn == 1 && v.id == 5, "the element"); vf_reach("element"); break; case CLOSED: vf_assert(dn == 2 && v.id == 77, "closed"); break; default: vf_assert(r == TIMEOUT && gh_after(1, dl) && v.id == 77, "nothing came before the limit"); vf_reach("timeout"); } vf_joinall(); vf_assert((int)x.q.size() == (x.done == 1 && r != OK), "the element is taken once"); vf_reach("end"); } gone(); }
// timed queue. the model keeps due times in ms of its clock
template <class C> struct Clk { enum { id = 1 }; }; template <> struct Clk<chrono::system_clock> { enum { id = 0 }; };
struct TMo { int id[6], n; long due[6]; bool closed; };
template <class TQ> static int tpush(TQ& q, int w, bool mv, long d, V& v) { typedef typename TQ::clock C; switch (w) { case 0: if (mv) q.push(boost::move(v), ms(d)); else q.push((V const&)v, ms(d)); return OK; case 1: if (mv) q.push(boost::move(v), C::now() + ms(d)); else q.push((V const&)v, C::now() + ms(d)); return OK; case 2: return st2(mv ? q.try_push(boost::move(v), ms(d)) : q.try_push((V const&)v, ms(d))); default: return st2(mv ? q.try_push(boost::move(v), C::now() + ms(d)) : q.try_push((V const&)v, C::now() + ms(d))); } }
static int pickd() { int d = vf_pick(3); return d == 0 ? -50 : d == 1 ? 80 : 150; }
template <class TQ> static void t_push(TQ& q, TMo& m, int w, long d, int id, bool one = false) { V v(id); int r; bool mv = one || vf_pick(2); long due = gh_ms(Clk<typename TQ::clock>::id) + d; try { r = tpush(q, w, mv, d, v); } catch (sync_queue_is_closed&) { r = THROWN + CLOSED; } vf_assert(r == (m.closed ? w < 2 ? THROWN + CLOSED : CLOSED : OK), "the status of a push matches what it did"); if (r == OK) { m.due[m.n] = due; m.id[m.n++] = id; vf_assert(mv || v.id == id, "a copy"); } }
// kinds: 0 pull(v) 1 try 2 nonblocking 3 wait 4 pull() 5 until 6 for
template <class TQ> static int t_raw(TQ& q, int w, long d, V& v) { typedef typename TQ::clock C; try { switch (w) { case 0: q.pull(v); return OK; case 1: return st2(q.try_pull(v)); case 2: return st2(q.nonblocking_pull(v)); case 3: return st2(q.wait_pull(v)); case 4: v = q.pull(); return OK; case 5: return st2(q.pull_until(C::now() + ms(d), v)); default: return st2(q.pull_for(ms(d), v)); } } catch (sync_queue_is_closed&) { return THROWN + CLOSED; } }
template <class TQ> static void t_pull(TQ& q, TMo& m, int w, long d, bool jump) { enum { c = Clk<typename TQ::clock>::id }; V v(77); bool blk = w == 0 || w == 3 || w == 4; if (blk && !m.n && !m.closed) vf_stop(); int k = -1; for (int i = 0; i < m.n; i++) if (k < 0 || m.due[i] < m.due[k]) k = i; bool was = k >= 0 && gh_after(c, m.due[k]); long dl = gh_ms(w == 5 ? c : 1) + d; int r = t_raw(q, w, d, v);
  if (r == OK) { int f = -1; for (int i = 0; i < m.n; i++) if (m.id[i] == v.id) f = i; vf_assert(f >= 0, "an element that was pushed and not yet taken"); if (!jump) vf_assert(m.due[f] == m.due[k], "an element with the earliest due time"); if (!jump) vf_assert(gh_after(c, m.due[f]), "never before its time"); if (!was) vf_reach("waited"); for (int i = f; i + 1 < m.n; i++) { m.id[i] = m.id[i + 1]; m.due[i] = m.due[i + 1]; } m.n--; vf_reach("taken"); return; }
  if (!jump) vf_assert(!was, "an element that is due is handed out"); vf_assert(v.id == 77, "a pull that gives nothing leaves the argument alone"); if (r % 10 == CLOSED) { vf_assert(m.closed && r == (w == 0 || w == 4 ? THROWN + CLOSED : CLOSED), "closed as documented"); vf_reach("closed"); return; } vf_assert(!m.closed, "a closed queue says so"); vf_assert(!blk, "a blocking pull gives an element or says closed");
  if (w <= 2) { vf_assert(r == (m.n ? NOTREADY : EMPTY), "nothing to give"); if (m.n) vf_reach("not ready"); else vf_reach("empty"); } else { vf_assert(r == (m.n ? NOTREADY : TIMEOUT), "the status of a limit that passed"); if (!jump) vf_assert(gh_after(w == 5 ? c : 1, dl), "not before the limit"); vf_reach("timeout"); } }
template <class TQ> static void tobs(TQ& q, TMo& m) { vf_assert((int)q.size() == m.n && q.empty() == (m.n == 0) && !q.full() && q.closed() == m.closed, "observers"); }
static void tm0(TMo& m) { m.n = 0; m.closed = false; for (int i = 0; i < 6; i++) { m.id[i] = 0; m.due[i] = 0; } }
template <class TQ> static void tseq(int n, bool jump) { { TQ q; TMo m; tm0(m); for (int i = 0; i < n; i++) { int k = vf_pick(10); if (k < 2) t_push(q, m, k * 2 + vf_pick(2), pickd(), i + 1); else if (k < 9) t_pull(q, m, k - 2, k >= 7 && vf_pick(2) ? 80 : -50, jump); else { q.close(); m.closed = true; } tobs(q, m); } vf_reach("end"); } gone(); }
typedef sync_timed_queue<V> TQ; typedef sync_timed_queue<V, chrono::system_clock> TS;
extern "C" void vh_c33_tseq() { tseq<TQ>(3, false); }
extern "C" void vh_c33_tseqs() { vf_cfg_clockjump = 1; tseq<TS>(2, true); }
extern "C" void vh_c33_torder() { { TQ q; TMo m; tm0(m); for (int i = 0; i < 3; i++) t_push(q, m, 0, pickd(), i + 1, true); for (int i = 0; i < 3; i++) { t_pull(q, m, 3, 0, false); } vf_assert(q.empty(), "all taken"); vf_reach("end"); } gone(); }
struct TX { TQ q; int got[4], late, t; long due[4]; TX() : late(0), t(0) { for (int i = 0; i < 4; i++) { got[i] = 0; due[i] = 0; } } };
static int tb() { int w = vf_pick(5); return w ? w + 2 : 0; }
static void w_t(TX* x) { V v(77); int w = tb(), r = t_raw(x->q, w, 150, v); if (r == OK) { vf_assert(v.id == 1 || v.id == 2, "an element that is due"); gh_inc(&x->got[v.id]); } else { vf_assert(r == (w == 0 || w == 4 ? THROWN + CLOSED : CLOSED), "the documented way to say closed"); gh_inc(&x->got[0]); } }
extern "C" void vh_c33_twake() { vf_cfg_timeouts = 0; { TX x; int l = vf_pick(2); if (l) x.q.push(V(9), ms(150)); vf_go(w_t, &x); V v(1); int n = vf_pick(2); if (n) { vf_assert(tpush(x.q, vf_pick(4), vf_pick(2), -50, v) == OK, "accepted"); } else x.q.close(); vf_joinall(); vf_assert(x.got[1] == n && x.got[0] == !n && (int)x.q.size() == l, "woken"); if (n) vf_reach("earlier"); else vf_reach("closed"); vf_reach("end"); } gone(); }
extern "C" void vh_c33_twake2() { vf_cfg_timeouts = 0; { TX x; int l = vf_pick(2); if (l) x.q.push(V(9), ms(150)); vf_go(w_t, &x); vf_go(w_t, &x); V a(1), b(2); tpush(x.q, vf_pick(2) * 3, true, -50, a); int n = vf_pick(2); if (n) tpush(x.q, 0, true, -50, b); else x.q.close(); vf_joinall(); vf_assert(x.got[1] == 1 && x.got[2] == n && x.got[0] == !n, "each element once, the other consumer is told"); vf_reach("end"); } gone(); }
extern "C" void vh_c33_tjump() { vf_cfg_clockjump = 1; { TS q; TMo m; tm0(m); if (vf_pick(2)) t_push(q, m, 0, pickd(), 1); int w = vf_pick(4); t_pull(q, m, w == 0 ? 1 : w == 1 ? 3 : w + 3, vf_pick(2) ? 80 : -50, true); if (!vf_cfg_clockjump) vf_reach("jump"); tobs(q, m); vf_reach("end"); } gone(); }
static void w_tp(TX* x) { V v(1); long d = vf_pick(2) ? 80 : -50; gh_set(&x->t, 1); x->due[1] = gh_ms(1) + d; tpush(x->q, 0, true, d, v); }
extern "C" void vh_c33_ttwo() { vf_cfg_timeouts = 2; { TX x; vf_go(w_tp, &x); int w = vf_pick(4); w = w < 3 ? w + 3 : 6; if (w == 4) w = 0; V v(77); long dl = gh_ms(1) + 80; int r = t_raw(x.q, w, 80, v); if (r == OK) { vf_assert(v.id == 1 && gh_after(1, x.due[1]), "never before its time"); vf_reach("taken"); } else vf_assert(w >= 5 && (r == TIMEOUT || r == NOTREADY) && gh_after(1, dl), "the limit passed"); vf_joinall(); vf_assert((int)x.q.size() == (r != OK), "taken once"); vf_reach("end"); } gone(); }
static int data; struct RX { sync_priority_queue<int> q; sync_timed_queue<int> t; int k; };
static void w_pub(RX* x) { data = 5; switch (x->k) { case 0: x->q.push(1); break; case 1: x->q.try_push(1); break; default: x->t.push(1, ms(-50)); } }
extern "C" void vh_c33_race() { vf_cfg_timeouts = 0; RX x; x.k = vf_pick(3); data = 0; vf_go(w_pub, &x); int v = 0; x.q.empty(); x.t.size(); if (x.k == 2) { if (vf_pick(2)) x.t.pull(v); else x.t.pull_for(ms(150), v); x.t.close(); } else { if (vf_pick(2)) x.q.pull(v); else x.q.pull_for(ms(150), v); x.q.close(); } vf_assert(data == 5 && v == 1, "published"); vf_reach("end"); vf_joinall(); }
extern "C" void vh_c33_busy() { sync_priority_queue<S> q; busy<PA<sync_priority_queue<S> > >(q, false); }
template <class QQ> struct TA { typedef QQ queue; // elements that are due
  static int push(QQ& q, int w, bool mv, S& v) { SC::time_point t = SC::now() - ms(50); if (w == 1) return sti(mv ? q.try_push(boost::move(v), t) : q.try_push((S const&)v, t)); if (mv) q.push(boost::move(v), t); else q.push((S const&)v, t); return OK; }
  static int pull(QQ& q, int w, S& v) { return w == 1 ? sti(q.try_pull(v)) : sti(q.nonblocking_pull(v)); } };
extern "C" void vh_c33_tbusy() { sync_timed_queue<S> q; busy<TA<sync_timed_queue<S> > >(q, false); }
