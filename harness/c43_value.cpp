// C43: synchronized_value and externally_locked.
// ENTRY vh_c43_seq | props=C43 | weight=3 | reach=end | bound=1 thread, 2 synchronized_values, 2 operations of 31 kinds, every pair of contents
// ENTRY vh_c43_conc | props=C43,C40 | weight=4 | time=300 | reach=end;not owned | bound=2 threads, 2 synchronized_values, 1 operation of 26 kinds each, naming the values in opposite order; every result is that of one order of the two
// ENTRY vh_c43_three | props=C43 | tier=thorough | opts=--race | reach=end | bound=the same with a third thread that compares or assigns
// ENTRY vh_c43_hold | props=C43,C40 | weight=2 | reach=end;held | bound=2 threads, one keeps a guard of any of 9 kinds, the other tries or changes the value
// ENTRY vh_c43_boom | props=C43 | reach=thrown | bound=a value whose copying throws, every operation that copies it
// ENTRY vh_c43_ext | props=C43 | reach=end;refused | bound=externally_locked by value and by reference, all locks over the right or another mutex, copy, move and swap
// ENTRY vh_c43_stream | props=C43,C40 | weight=2 | reach=end | bound=externally_locked_stream, 2 threads, 2 items each by chaining, a held guard or a moved guard
// ENTRY vh_c43_sync | props=C43 | weight=2 | opts=--race | reach=end | bound=synchronize of 3 values by 2 threads in any of 3 orders
// FLAGS -DBOOST_THREAD_VERSION=4
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_factories.hpp>
#ifdef VF_NV
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES
#endif
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
using namespace boost;
static int me() { return vf_tid() + 1; }
static int solo, tries;
struct M { mutex m; int own, n; M() : own(0), n(0) {} void lock() { if (solo) vf_assert(++tries < 64, "an operation of the only thread ends"); m.lock(); gh_set(&own, me()); gh_inc(&n); } void unlock() { vf_assert(gh_get(&own) == me(), "unlocked by a thread that does not hold it"); gh_set(&own, 0); m.unlock(); } bool try_lock() { if (!m.try_lock()) return false; gh_set(&own, me()); gh_inc(&n); return true; } };
struct Reg { void const* v; M* m; }; static Reg reg[2]; struct E {}; static int boom;
static void guard(void const* p) { for (int k = 0; k < 2; k++) if (reg[k].v == p) vf_assert(gh_get(&reg[k].m->own) == me(), "the value is used without its mutex"); }
struct V { int a, b; V(int n = 0) : a(n), b(n) {}
  V(V const& o) { guard(&o); if (boom) throw E(); a = o.a; vf_sched(); b = o.b; vf_assert(a == b, "a value is seen half written"); }
  V& operator=(V const& o) { guard(this); guard(&o); if (boom) throw E(); a = o.a; vf_sched(); b = o.b; vf_assert(a == b, "a value is seen half written"); return *this; }
  int val() const { guard(this); int r = a; vf_sched(); vf_assert(r == b, "a value is seen half written"); return r; }
  void add(int t) { guard(this); a += t; vf_sched(); b += t; vf_assert(a == b, "a value is seen half written"); }
  friend bool operator==(V const& l, V const& r) { return l.val() == r.val(); } friend bool operator!=(V const& l, V const& r) { return l.val() != r.val(); } friend bool operator<(V const& l, V const& r) { return l.val() < r.val(); } friend bool operator>(V const& l, V const& r) { return l.val() > r.val(); } friend bool operator<=(V const& l, V const& r) { return l.val() <= r.val(); } friend bool operator>=(V const& l, V const& r) { return l.val() >= r.val(); } };
struct Out { int v; }; static Out& operator<<(Out& o, V const& v) { o.v = v.val(); return o; } static Out& operator>>(Out& o, V& v) { v = V(o.v); return o; }
typedef synchronized_value<V, M> SV; static void regs(SV& x, SV& y) { reg[0].v = &x.value(); reg[0].m = &const_cast<M&>(x.mutex()); reg[1].v = &y.value(); reg[1].m = &const_cast<M&>(y.mutex()); } static void noreg() { reg[0].v = reg[1].v = 0; }
static int held(SV const& s) { return gh_get(&const_cast<M&>(s.mutex()).own) == me(); }
struct F { typedef int result_type; int t; int operator()(V& v) { int r = v.val(); v.add(t); return r; } int operator()(V const& v) const { return v.val(); } };
struct FC { typedef int result_type; int operator()(V const& v) const { return v.val() + 20; } };
static const int NCONC = 26, NALL = 31;
// one operation on x (and y); its result
static int op(SV& x, SV& y, int k, int t) { SV const& cx = x; SV const& cy = y; V v(t);
  switch (k) {
    case 0: x = v; return 0;
    case 1: x = cy; return 0;
    case 2: if (t & 1) x.swap(y); else swap(x, y); return 0;
    case 3: if (t & 1) x.swap(v); else swap(x, v); return v.a;
    case 4: swap(v, x); return v.a;
    case 5: return cx.get().a;
    case 6: return static_cast<V>(cx).a;
    case 7: x->add(t); return 0;
    case 8: return cx->val();
    case 9: *x = v; return 0;
    case 10: { V w = *x; return w.a; }
    case 11: { V w = *cx; return w.a; }
    case 12: { F f = {t}; return x(boost::move(f)); }
    case 13: return cx(FC()) - 20;
    case 14: { auto g = x.synchronize(); vf_assert(held(x), "locked"); int r = g->val(); *g = v; return r; }
    case 15: { auto g = cx.synchronize(); vf_assert(held(x), "locked"); int r = g->val(); vf_assert((*g).val() == r, "unchanged while locked"); return r; }
    case 16: { auto g = x.unique_synchronize(); vf_assert(g.owns_lock() && held(x), "locked"); int r = g->val(); *g = v; g.unlock(); vf_assert(!held(x) && !g.owns_lock(), "unlocked"); return r; }
    case 17: { auto g = (t & 1) ? x.defer_synchronize() : x.unique_synchronize(defer_lock); vf_assert(!g.owns_lock() && !held(x), "not locked"); g.lock(); int r = g->val(); g->add(t); return r; }
    case 18: { auto g = x.try_to_synchronize(); vf_assert(g.owns_lock() == (held(x) != 0), "owns_lock"); if (!g.owns_lock()) return -1; int r = g->val(); g->add(t); return r; }
    case 19: { const_cast<M&>(x.mutex()).lock(); auto g = x.adopt_synchronize(); vf_assert(g.owns_lock(), "adopted"); int r = g->val(); g->add(t); return r; }
    case 20: { auto g = synchronize(x, y); vf_assert(held(x) && held(y), "both locked"); int r = std::get<0>(g)->val(), s = std::get<1>(g)->val(); *std::get<0>(g) = V(s); *std::get<1>(g) = V(r); return r * 8 + s; }
    case 21: { auto g = synchronize(cx, y); vf_assert(held(x) && held(y), "both locked"); int r = std::get<0>(g)->val(); std::get<1>(g)->add(r); return r; }
    case 22: switch (t) { case 0: return cx == cy; case 1: return cx < cy; case 2: return cx > cy; case 3: return cx <= cy; case 4: return cx >= cy; default: return cx != cy; }
    case 23: switch (t) { case 0: return cx == v; case 1: return v == cx; case 2: return cx != v; default: return v != cx; }
    case 24: switch (t) { case 0: return cx < v; case 1: return v > cx; case 2: return cx >= v; default: return v <= cx; }
    case 25: { Out o = {t}; if (t & 1) { o << cx; return o.v; } o >> x; return 0; }
    case 26: switch (t) { case 0: return cx > v; case 1: return v < cx; case 2: return cx <= v; default: return v >= cx; }
    case 27: { SV z(cx); vf_assert(&z.mutex() != &x.mutex(), "its own mutex"); return z.value().a; }
    case 28: { SV z(boost::move(x)); return z.value().a; }
    case 29: x = cx; x.swap(x); return cx.get().a;
    default: return (cx == cx) + 2 * (cx != cx) + 4 * (cx < cx) + 8 * (cx > cx) + 16 * (cx <= cx) + 32 * (cx >= cx); } }
static int gop(int& x, int& y, int k, int t, int r0) { int r = x, s = y;
  switch (k) {
    case 0: case 9: x = t; return 0; case 1: x = y; return 0; case 2: x = s; y = r; return 0; case 3: case 4: case 14: case 16: x = t; return r;
    case 5: case 6: case 8: case 10: case 11: case 13: case 15: case 27: case 28: return r; case 29: return r;
    case 7: x += t; return 0; case 12: case 17: case 19: x += t; return r; case 18: if (r0 == -1) return -1; x += t; return r;
    case 20: x = s; y = r; return r * 8 + s; case 21: y += r; return r;
    case 22: switch (t) { case 0: return r == s; case 1: return r < s; case 2: return r > s; case 3: return r <= s; case 4: return r >= s; default: return r != s; }
    case 23: return t < 2 ? r == t : r != t;
    case 24: return (t == 0 || t == 1) ? r < t : r >= t;
    case 25: if (t & 1) return r; x = t; return 0;
    case 26: return (t == 0 || t == 1) ? r > t : r <= t; default: return 1 + 16 + 32; } }
static int warg(int k) { return k == 22 ? vf_pick(6) : k == 23 || k == 24 || k == 26 ? vf_pick(4) : k == 2 || k == 3 || k == 17 || k == 25 ? 1 + vf_pick(2) : 2; }
static void freed(SV& x, SV& y) { vf_assert(!gh_get(&const_cast<M&>(x.mutex()).own) && !gh_get(&const_cast<M&>(y.mutex()).own), "no mutex stays locked"); }
extern "C" void vh_c43_seq() { int gx = vf_pick(3), gy = vf_pick(3); V vx(gx); SV x(vx), y; vf_assert(y.value().a == 0, "default"); y = V(gy); { SV z = SV(V(gx)); vf_assert(z.value().a == gx, "constructed from a value"); } regs(x, y);
  solo = 1; for (int i = 0; i < 2; i++) { tries = 0; int k = vf_pick(NALL), t = warg(k), o = vf_pick(2), r = o ? op(y, x, k, t) : op(x, y, k, t); vf_assert(k != 18 || r != -1, "a free value can be locked"); vf_assert(r == (o ? gop(gy, gx, k, t, r) : gop(gx, gy, k, t, r)), "the result of the operation"); freed(x, y); vf_assert(x.value().a == gx && x.value().b == gx && y.value().a == gy && y.value().b == gy, "the values afterwards"); }
  solo = 0; noreg(); vf_reach("end"); }
struct C { SV x, y; int k[3], t[3], r[3]; C() : x(V(1)), y(V(2)) {} };
static void w_op(C* c) { c->r[1] = op(c->y, c->x, c->k[1], c->t[1]); }
static void w_op2(C* c) { c->r[2] = op(c->x, c->y, c->k[2], c->t[2]); }
static bool ord(C& c, int n, int p) { static const int P[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int x = 1, y = 2; bool ok = true; for (int j = 0; j < 3; j++) { int i = P[p][j]; if (i >= n) continue; int r = i == 1 ? gop(y, x, c.k[i], c.t[i], c.r[i]) : gop(x, y, c.k[i], c.t[i], c.r[i]); if (r != c.r[i]) ok = false; } return ok && x == c.x.value().a && y == c.y.value().a; }
static void conc() { C c; regs(c.x, c.y); for (int i = 0; i < 2; i++) { c.k[i] = vf_pick(NCONC); c.t[i] = c.k[i] == 22 ? 0 : c.k[i] == 23 ? 1 + vf_pick(2) : c.k[i] == 24 ? 2 * vf_pick(2) : c.k[i] == 2 || c.k[i] == 3 || c.k[i] == 17 ? 1 : warg(c.k[i]); }
  vf_go(w_op, &c); c.r[0] = op(c.x, c.y, c.k[0], c.t[0]); vf_joinall(); freed(c.x, c.y); noreg(); vf_assert(ord(c, 2, 0) || ord(c, 2, 1), "the results are those of one order of the two operations"); vf_reach_if(c.k[0] == 18 && c.r[0] == -1, "not owned"); vf_reach("end"); }
extern "C" void vh_c43_conc() { conc(); } extern "C" void vh_c43_conc_nv() { conc(); }
extern "C" void vh_c43_three() { static const int K[] = {0, 1, 2, 7, 14, 20, 22}; C c; regs(c.x, c.y); for (int i = 0; i < 3; i++) { c.k[i] = K[vf_pick(7)]; c.t[i] = c.k[i] == 22 ? 0 : 2; } vf_go(w_op, &c); vf_go(w_op2, &c); c.r[0] = op(c.x, c.y, c.k[0], c.t[0]); vf_joinall(); freed(c.x, c.y); noreg(); bool ok = false; for (int p = 0; p < 6; p++) ok = ok || ord(c, 3, p); vf_assert(ok, "the results are those of one order of the operations"); vf_reach("end"); }
struct H { SV x, y; int k, in, go; H() : x(V(1)), in(0), go(0) {} };
static void stay(H* h) { vf_assert(held(h->x), "the guard holds the mutex"); gh_set(&h->in, 1); vf_sched(); vf_sched(); gh_set(&h->in, 0); }
static void w_hold(H* h) { SV const& c = h->x; switch (h->k) { case 0: { auto g = h->x.synchronize(); stay(h); g->add(2); break; } case 1: { auto g = c.synchronize(); auto g2 = boost::move(g); stay(h); break; } case 2: { auto g = h->x.unique_synchronize(); auto g2 = boost::move(g); vf_assert(!g.owns_lock() && g2.owns_lock(), "moved"); stay(h); g2->add(2); break; } case 3: { auto g = c.unique_synchronize(); stay(h); break; } case 4: { auto g = h->x.unique_synchronize(defer_lock); if (!g.try_lock()) break; stay(h); g.unlock(); break; } case 5: { auto g = c.try_to_synchronize(); if (g.owns_lock()) stay(h); break; } case 6: { auto g = synchronize(h->x, h->y); auto g2 = std::move(g); stay(h); std::get<0>(g2)->add(2); break; } case 7: { auto&& g = *h->x; stay(h); g = V(4); break; } default: { auto g = c.defer_synchronize(); vf_assert(!g.owns_lock(), "deferred"); g.lock(); stay(h); } } vf_assert(!held(h->x), "released"); }
extern "C" void vh_c43_hold() { H h; regs(h.x, h.x); h.k = vf_pick(9); vf_go(w_hold, &h); switch (vf_pick(3)) { case 0: { auto g = h.x.try_to_synchronize(); if (g.owns_lock()) { vf_assert(!gh_get(&h.in), "two guards at once"); g->add(4); } else vf_reach("held"); break; } case 1: h.x->add(4); break; default: { auto g = h.x.synchronize(); vf_assert(!gh_get(&h.in), "two guards at once"); g->add(4); } } vf_joinall(); vf_assert(!gh_get(&const_cast<M&>(h.x.mutex()).own), "released"); noreg(); vf_reach("end"); }
extern "C" void vh_c43_boom() { SV x(V(1)), y(V(2)); V v(3); SV const& cx = x; regs(x, y); int k = vf_pick(11); bool t = false; boom = 1; try { switch (k) { case 0: x = v; break; case 1: x = y; break; case 2: x.swap(y); break; case 3: x.swap(v); break; case 4: cx.get(); break; case 5: *x = v; break; case 6: { V w = *cx; break; } case 7: { SV z(cx); break; } case 8: { auto g = synchronize(x, y); *std::get<0>(g) = v; break; } case 9: { auto g = x.unique_synchronize(); *g = v; break; } default: { Out o = {1}; o >> x; } } } catch (E&) { t = true; } boom = 0; vf_assert(t, "passed on"); freed(x, y); { auto g = synchronize(x, y); vf_assert(std::get<0>(g)->val() == 1 && std::get<1>(g)->val() == 2, "unchanged"); } noreg(); vf_reach("thrown"); }
struct Y { SV s[3]; int k; };
static void three(SV& a, SV& b, SV& c) { auto g = synchronize(a, b, c); vf_assert(held(a) && held(b) && held(c), "all three are locked"); int t = std::get<0>(g)->val() + std::get<1>(g)->val() + std::get<2>(g)->val(); std::get<0>(g)->add(t); std::get<1>(g)->add(1); std::get<2>(g)->add(2); }
static void w_three(Y* y) { if (y->k == 0) three(y->s[0], y->s[1], y->s[2]); else if (y->k == 1) three(y->s[2], y->s[1], y->s[0]); else three(y->s[1], y->s[2], y->s[0]); }
static void sync3() { Y y; regs(y.s[0], y.s[2]); y.k = vf_pick(3); vf_go(w_three, &y); three(y.s[0], y.s[1], y.s[2]); vf_joinall(); noreg(); int t = 0; for (int i = 0; i < 3; i++) { t += y.s[i].value().a; vf_assert(!gh_get(&const_cast<M&>(y.s[i].mutex()).own), "released"); } vf_assert(t == 9, "both have their effect"); vf_reach("end"); }
extern "C" void vh_c43_sync() { sync3(); }
extern "C" void vh_c43_sync_nv() { sync3(); }
// externally_locked
template <class X, class L> static V const& cget(X const& e, L& l) { return e.get(l); } static V const& cget(externally_locked<V, M> const& e, struct SL& l); // the value form has no const access with other locks
struct SL : strict_lock<M> { explicit SL(M& m) : strict_lock<M>(m) {} }; namespace boost { template <> struct is_strict_lock_sur_parole<SL> : true_type {}; }
static V const& cget(externally_locked<V, M> const& e, SL& l) { return const_cast<externally_locked<V, M>&>(e).get(l); }
template <class L, class X> static bool ok(X& e, L& l, void const* want) { int n = 0; try { vf_assert(&e.get(l) == want, "the object itself"); n++; } catch (lock_error&) { vf_reach("refused"); } try { X const& ce = e; vf_assert(&cget(ce, l) == want, "the object itself"); n++; } catch (lock_error&) { } vf_assert(n != 1, "const access is checked like any other"); return n == 2; }
template <class X> static void acc(X& e, M& m, M& o, void const* want) { vf_assert(e.mutex() == &m, "mutex"); bool right = vf_pick(2); M& u = right ? m : o; bool r; switch (vf_pick(4)) { case 3: { SL l(u); r = ok(e, l, want); break; } case 0: { strict_lock<M> l(u); r = ok(e, l, want); break; } case 1: { unique_lock<M> q(u); nested_strict_lock<unique_lock<M> > l(q); r = ok(e, l, want); break; } default: { unique_lock<M> q(u, defer_lock); nested_strict_lock<unique_lock<M> > l(q); r = ok(e, l, want); } } vf_assert(r == right, "access exactly with a lock of its own mutex"); vf_assert(!m.own && !o.own, "released"); int n = m.n, on = o.n; e.lock(); vf_assert(m.own == me() && m.n == n + 1, "locked"); e.unlock(); vf_assert(e.try_lock() && m.own == me(), "locked"); e.unlock(); vf_assert(!m.own && o.n == on, "released"); }
extern "C" void vh_c43_ext() { M m, o; V a(3), b(4); typedef externally_locked<V, M> X; typedef externally_locked<V&, M> R;
  if (vf_pick(2)) { X e(m, a), f(o, V(4)), d(m); { strict_lock<M> l(m), lo(o); vf_assert(e.get(l).a == 3 && d.get(l).a == 0 && f.get(lo).a == 4, "constructed"); e.get(l).add(2); } a.a = a.b = 9;
    switch (vf_pick(6)) { case 0: { acc(e, m, o, &reinterpret_cast<char&>(e)); return; } case 1: { X c(e); strict_lock<M> l(m); vf_assert(c.mutex() == &m && c.get(l).a == 5, "copied"); break; } case 2: { X c(boost::move(e)); strict_lock<M> l(m); vf_assert(c.mutex() == &m && c.get(l).a == 5, "moved"); break; } case 3: e = f; break; case 4: e = boost::move(f); break; default: if (vf_pick(2)) e.swap(f); else swap(e, f); strict_lock<M> l(m); vf_assert(f.mutex() == &m && f.get(l).a == 5, "swapped"); strict_lock<M> k(o); vf_assert(e.mutex() == &o && e.get(k).a == 4, "swapped"); vf_reach("end"); return; }
    M* w = e.mutex(); if (w == &o) { strict_lock<M> l(o); vf_assert(e.get(l).a == 4, "assigned"); } else { strict_lock<M> l(m); vf_assert(w == &m && e.get(l).a == 5, "unchanged"); } vf_reach("end"); }
  else { R e(a, m), f(b, o); switch (vf_pick(6)) { case 0: acc(e, m, o, &a); return; case 1: { R c(e); acc(c, m, o, &a); break; } case 2: { R c(boost::move(e)); acc(c, m, o, &a); break; } case 3: e = f; acc(e, o, m, &b); break; case 4: e = boost::move(f); acc(e, o, m, &b); break; default: if (vf_pick(2)) e.swap(f); else swap(e, f); acc(e, o, m, &b); acc(f, m, o, &a); } vf_reach("end"); } }
struct S { int n, q[8]; S() : n(0) {} }; static S& operator<<(S& s, int v) { int i = s.n; vf_sched(); s.q[i] = v; s.n = i + 1; return s; } static S& operator>>(S& s, int& v) { v = s.q[--s.n]; return s; } static S& operator<<(S& s, S& (*f)(S&)) { return f(s); } static S& nl(S& s) { return s << 0; }
typedef externally_locked_stream<S, recursive_mutex> ES; struct T { S s; recursive_mutex m; ES e; int k[2]; T() : e(s, m) {} };
static void put(T* t, int i, int v) { switch (t->k[i]) { case 0: t->e << v << v + 1; break; case 1: { auto g = t->e.hold(); g << v; g << v + 1; break; } case 2: { auto g = t->e.hold(); auto h = boost::move(g); h << v << v + 1; bool e = false; try { g << 7; } catch (lock_error&) { e = true; } vf_assert(e, "a guard that was moved away gives no access"); break; } case 3: { t->m.lock(); stream_guard<S> g(t->e, adopt_lock); g << v; g.get() << v + 1; break; } case 4: { strict_lock<recursive_mutex> l(t->m); t->e.get(l) << v; t->e << v + 1; break; } default: { stream_guard<S> g(t->e); vf_assert(g.owns_lock(&t->m), "owns"); int x = 0; g << 9 << v; g >> x; vf_assert(x == v, "read back"); g >> x; vf_assert(x == 9, "read back"); g << v << v + 1; } } }
static void w_put(T* t) { put(t, 1, 20); }
extern "C" void vh_c43_stream() { T t; t.k[0] = vf_pick(6); t.k[1] = vf_pick(6); vf_go(w_put, &t); put(&t, 0, 10); vf_joinall(); vf_assert(t.s.n == 4 && t.s.q[1] == t.s.q[0] + 1 && t.s.q[3] == t.s.q[2] + 1 && t.s.q[0] + t.s.q[2] == 30, "what one thread writes under its guard is not interrupted"); vf_assert(t.m.try_lock(), "released"); t.m.unlock(); t.e << nl; vf_assert(t.s.n == 5 && t.s.q[4] == 0, "manipulator"); vf_reach("end"); }
