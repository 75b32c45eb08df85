// C13, C14, C15: barrier, latch, completion_latch, call_once.
// ENTRY vh_c13_gen | props=C13 | weight=4 | reach=elected;waited;completed | bound=2 threads meeting 3 times, 5 kinds of barrier (plain, function and functor returning nothing or the next count)
// ENTRY vh_c13_three | props=C13 | weight=6 | reach=elected;waited;completed | bound=3 threads meeting twice, 2 kinds of barrier, one spurious wake-up
// ENTRY vh_c13_change | props=C13 | weight=4 | reach=left;went on | bound=3 threads in the first generation, the completion function lets 2 go on; count_down_and_wait
// ENTRY vh_c13_ctor | props=C13 | reach=refused;accepted | bound=any initial count
// ENTRY vh_c13_race | props=C13,C40 | reach=end | bound=2 threads meeting twice, exchanging data, one spurious wake-up
// ENTRY vh_c14_latch | props=C14 | weight=5 | reach=wait;try false;try true;timed out;no timeout;counted;counted and waited | bound=latch with count 2, 1 waiter with 5 operations, 2 threads counting down in 3 ways, time-outs at any moment
// ENTRY vh_c14_wake | props=C14 | weight=5 | reach=wait;no timeout | bound=latch with count 1 to 2, 2 waiters, 2 counting threads, no time-outs, one spurious wake-up
// ENTRY vh_c14_seq | props=C14 | reach=zero;more | bound=any initial count up to 2^64-1 and up to 3 operations of one thread
// ENTRY vh_c14_reset | props=C14 | weight=4 | reach=end | bound=latch with count 2, used twice with a reset between, 2 threads
// ENTRY vh_c14_clatch | props=C14 | weight=5 | reach=wait;try true;no timeout;counted | bound=completion_latch with count 1 or 2, 1 waiter with 4 operations, 1 or 2 counting threads
// ENTRY vh_c14_clatch_all | props=C14 | weight=5 | reach=end | bound=completion_latch with count 2 to 3, all 2 to 3 threads count down and wait, or one of them only counts down and another only waits
// ENTRY vh_c14_clatch_gen | props=C14 | weight=5 | reach=end | bound=completion_latch reset by its completion function, 2 generations, 1 waiter that waits again at once or later, 1 counting thread
// ENTRY vh_c14_race | props=C14,C40 | reach=end | bound=latch and completion_latch, 1 counting thread publishing data, 1 waiter
// ENTRY vh_c15_once | props=C15 | weight=6 | reach=ran;threw;found done;all threw | bound=3 threads, each execution throws or not, one spurious wake-up
// ENTRY vh_c15_twice | props=C15 | weight=4 | reach=ran;threw;found done | bound=2 threads calling twice, each execution throws or not
// ENTRY vh_c15_two | props=C15 | weight=5 | reach=end | bound=2 flags, 3 threads, one execution nested in another
// ENTRY vh_c15_others | props=C15 | weight=5 | reach=end | bound=2 flags, 4 threads: the first execution for one flag throws, the one for the other flag goes on until the first flag is done
// ENTRY vh_c15_args | props=C15 | reach=function;member;functor;old | bound=up to 3 arguments of any value, functions, members, function objects, the old interface
// ENTRY vh_c15_race | props=C15,C40 | reach=end | bound=2 threads, the executed function writes data
#include "vfh.h"
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/thread.hpp>
using namespace boost;
// ---- barrier
struct Bar { barrier* b; int n, gens, arrived, passed, elected, done, kind; }; static Bar* B;
static void check_fn() { vf_assert(B->arrived == B->n * (B->done + 1), "the completion function runs when all threads have arrived"); vf_assert(B->passed <= B->n * B->done, "no waiter is released before the completion function ran"); gh_inc(&B->done); vf_reach("completed"); }
static void f_void() { check_fn(); } static unsigned f_count() { check_fn(); return B->n; }
struct FVoid { void operator()() const { check_fn(); } }; struct FCount { unsigned operator()() const { check_fn(); return B->n; } };
static void meet(Bar* b) { for (int g = 0; g < b->gens; g++) { gh_inc(&b->arrived); bool e = b->b->wait(); vf_assert(gh_get(&b->arrived) >= b->n * (g + 1), "a thread passed the barrier before all have arrived"); if (b->kind) vf_assert(gh_get(&b->done) == g + 1, "the completion function runs once per generation"); gh_inc(&b->passed); if (e) gh_inc(&b->elected); vf_reach_if(e, "elected"); vf_reach_if(!e, "waited"); } }
static void bar(int n, int gens, int kinds) {
  Bar b = {0, n, gens, 0, 0, 0, 0, 0}; B = &b; b.kind = vf_choice(kinds); if (kinds == 2 && b.kind) b.kind = 2; barrier* p; FVoid fv; FCount fc;
  switch (b.kind) { case 0: p = new barrier(n); break; case 1: p = new barrier(n, &f_void); break; case 2: p = new barrier(n, &f_count); break; case 3: p = new barrier(n, boost::move(fv)); break; default: p = new barrier(n, fc); }
  b.b = p; for (int i = 0; i < n; i++) vf_go(meet, &b); vf_joinall(); vf_assert(b.elected == gens, "exactly one thread per generation is elected"); vf_assert(b.passed == n * gens, "all passed"); if (b.kind) vf_assert(b.done == gens, "the completion function ran once per generation"); delete p; }
extern "C" void vh_c13_gen() { bar(2, 3, 5); }
extern "C" void vh_c13_three() { vf_cfg_spurious = 1; bar(3, 2, 2); }
// the number changes
struct Chg { barrier* b; int done, arrived; }; static Chg* C;
static unsigned f_two() { gh_inc(&C->done); return 2; }
static void c_stay(Chg* c) { gh_inc(&c->arrived); c->b->wait(); vf_assert(gh_get(&c->arrived) >= 3, "all arrived"); gh_inc(&c->arrived); c->b->count_down_and_wait(); vf_assert(c->done == 2, "two generations"); vf_assert(gh_get(&c->arrived) == 5, "both arrived"); vf_reach("went on"); }
static void c_leave(Chg* c) { gh_inc(&c->arrived); c->b->count_down_and_wait(); vf_assert(gh_get(&c->arrived) >= 3, "all arrived"); vf_reach("left"); }
extern "C" void vh_c13_change() { Chg c = {0, 0, 0}; C = &c; barrier b(3, &f_two); c.b = &b; vf_go(c_stay, &c); vf_go(c_stay, &c); vf_go(c_leave, &c); vf_joinall(); vf_assert(c.done == 2, "once per generation"); }
extern "C" void vh_c13_ctor() { unsigned n = vf_nondet(32); bool t = false; try { barrier b(n); if (n == 1) vf_assert(b.wait(), "a single thread is elected"); } catch (thread_exception&) { t = true; } vf_assert(t == (n == 0), "a count of zero is refused, others are accepted"); vf_reach_if(t, "refused"); vf_reach_if(!t, "accepted"); }
struct Ex { barrier b; int a[2], sum; Ex() : b(2), sum(0) { a[0] = a[1] = 0; } };
static void ex0(Ex* e) { e->a[0] = 7; e->b.wait(); vf_assert(e->a[1] == 8, "published"); e->b.wait(); e->sum = 1; }
static void ex1(Ex* e) { e->a[1] = 8; e->b.wait(); vf_assert(e->a[0] == 7, "published"); e->b.wait(); }
extern "C" void vh_c13_race() { vf_cfg_spurious = 1; Ex e; vf_go(ex0, &e); vf_go(ex1, &e); vf_joinall(); vf_reach("end"); }
// ---- latch
template <class L> struct La { L l; int began, n, fn, waited, data; La(int c) : l(c), began(0), n(c), fn(0), waited(0), data(0) {} };
typedef La<latch> LL;
static void zero(LL* l, bool z, const char*) { vf_assert(!z || gh_get(&l->began) == l->n, "released before the count reached zero"); }
static void l_down(LL* l) { int k = vf_choice(3); gh_inc(&l->began); switch (k) { case 0: l->l.count_down(); break; case 1: l->l.try_count_down(); break; default: l->l.count_down_and_wait(); vf_assert(gh_get(&l->began) == l->n, "released before the count reached zero"); vf_reach("counted and waited"); } vf_reach("counted"); }
static void l_wait(LL* l, int k) {
  long t = gh_ms(1), tr = gh_ms(0); bool z = false;
  switch (k) { case 0: l->l.wait(); z = true; vf_reach("wait"); break;
    case 1: z = l->l.try_wait(); vf_reach_if(z, "try true"); vf_reach_if(!z, "try false"); break;
    case 2: z = l->l.wait_for(chrono::milliseconds(80)) == cv_status::no_timeout; vf_assert(z || gh_after(1, t + 80), "timed out early"); break;
    case 3: z = l->l.wait_until(chrono::steady_clock::now() + chrono::milliseconds(80)) == cv_status::no_timeout; vf_assert(z || gh_after(1, t + 80), "timed out early"); break;
    default: z = l->l.wait_until(chrono::system_clock::now() + chrono::milliseconds(80)) == cv_status::no_timeout; vf_assert(z || gh_after(0, tr + 80), "timed out early"); }
  zero(l, z, ""); if (k >= 2) { vf_reach_if(z, "no timeout"); vf_reach_if(!z, "timed out"); } gh_inc(&l->waited); }
static void l_waiter(LL* l) { l_wait(l, vf_choice(5)); }
extern "C" void vh_c14_latch() { LL l(2); vf_go(l_waiter, &l); vf_go(l_down, &l); vf_go(l_down, &l); vf_joinall(); vf_assert(l.l.try_wait(), "the count is zero"); vf_assert(l.waited == 1, "returned"); l_wait(&l, 0); l_wait(&l, 2); }
static void l_blocker(LL* l) { static const int ks[] = {0, 2, 3}; int k = ks[vf_choice(3)]; l_wait(l, k); vf_assert(l->l.try_wait(), "stays zero"); }
static void l_go(LL* l) { gh_inc(&l->began); if (vf_bool()) l->l.count_down(); else l->l.count_down_and_wait(); }
extern "C" void vh_c14_wake() { vf_cfg_timeouts = 0; vf_cfg_spurious = 1; int n = 1 + vf_choice(2); n = (int)vf_concrete(n); LL l(n); vf_go(l_blocker, &l); vf_go(l_blocker, &l); for (int i = 0; i < n; i++) vf_go(l_go, &l); vf_joinall(); vf_assert(l.waited == 2, "all waiters returned"); }
extern "C" void vh_c14_seq() { unsigned long n = vf_nondet(64); latch l(n); unsigned long m = n;
  for (int i = 0; i < 3; i++) { switch (vf_choice(4)) {
    case 0: vf_assert(l.try_wait() == (m == 0), "try_wait tells whether the count is zero"); break;
    case 1: { bool z = l.try_count_down(); if (m) m--; vf_assert(z == (m == 0), "try_count_down tells whether the count is zero"); break; }
    case 2: if (m) { l.count_down(); m--; } else l.wait(); break;
    default: m = vf_nondet(64); l.reset(m); } }
  vf_assert(l.try_wait() == (m == 0), "the count is as expected"); if (m == 0) { l.wait(); vf_assert(l.wait_for(chrono::milliseconds(80)) == cv_status::no_timeout, "zero"); } else if (m == 1) l.count_down_and_wait(); else vf_assert(l.wait_for(chrono::milliseconds(-50)) == cv_status::timeout, "not zero"); vf_reach_if(m == 0, "zero"); vf_reach_if(m > 1, "more"); }
static void l_two(LL* l) { gh_inc(&l->began); l->l.count_down_and_wait(); vf_assert(gh_get(&l->began) == 2, "released before the count reached zero"); gh_inc(&l->waited); }
extern "C" void vh_c14_reset() { vf_cfg_timeouts = 0; LL l(2); for (int g = 0; g < 2; g++) { vf_go(l_two, &l); vf_go(l_two, &l); vf_joinall(); vf_assert(l.waited == 2 * (g + 1), "all released"); gh_set(&l.began, 0); l.l.reset(2); } vf_reach("end"); }
// ---- completion_latch: the last count_down is a rendezvous with the waiting threads
typedef La<completion_latch> CL; static CL* G;
static void cfun() { vf_assert(gh_get(&G->began) == G->n, "the completion function runs when the count is zero"); gh_inc(&G->fn); }
static void c_wait(CL* l) { static const int ks[] = {0, 1, 2, 3}; bool z = false; int k = ks[vf_choice(4)]; switch (k) { case 0: l->l.wait(); z = true; vf_reach("wait"); break; case 1: z = l->l.try_wait(); vf_reach_if(z, "try true"); break; case 2: z = l->l.wait_for(chrono::milliseconds(80)) == cv_status::no_timeout; break; default: z = l->l.wait_until(chrono::steady_clock::now() + chrono::milliseconds(80)) == cv_status::no_timeout; }
  vf_assert(!z || gh_get(&l->began) == l->n, "released before the count reached zero"); if (k >= 2) vf_reach_if(z, "no timeout"); gh_inc(&l->waited); }
static void c_down(CL* l) { gh_inc(&l->began); l->l.count_down(); vf_reach("counted"); }
extern "C" void vh_c14_clatch() { vf_cfg_timeouts = 0; int n = (int)vf_concrete(1 + vf_choice(2)); CL l(n); G = &l; l.l.then(&cfun); vf_go(c_wait, &l); for (int i = 0; i < n; i++) vf_go(c_down, &l); vf_joinall(); vf_assert(l.fn == 1, "the completion function runs exactly once"); vf_assert(l.waited == 1, "returned"); }
static void c_both(CL* l) { gh_inc(&l->began); l->l.count_down_and_wait(); vf_assert(gh_get(&l->began) == l->n, "released before the count reached zero"); gh_inc(&l->waited); }
static void c_only(CL* l) { l->l.wait(); vf_assert(gh_get(&l->began) == l->n, "released before the count reached zero"); gh_inc(&l->waited); }
extern "C" void vh_c14_clatch_all() { vf_cfg_timeouts = 0; int n = (int)vf_concrete(2 + vf_choice(2)); CL l(n); G = &l; l.l.then(&cfun); for (int i = 0; i < n; i++) vf_go(c_both, &l); vf_joinall(); vf_assert(l.fn == 1, "the completion function runs exactly once"); vf_assert(l.waited == n, "all returned"); vf_reach("end"); }
static void creset() { vf_assert(gh_get(&G->began) == G->n * (G->fn + 1), "the completion function runs when the count is zero"); gh_inc(&G->fn); G->l.reset(G->n); }
static void g_wait(CL* l) { bool at_once = vf_bool(); for (int g = 1; g <= 2; g++) { l->l.wait(); vf_assert(gh_get(&l->began) >= g, "released before the count reached zero"); if (!at_once) vf_await(&l->fn, g, 0, 0, 0, 0); gh_inc(&l->waited); } }
static void g_down(CL* l) { for (int g = 0; g < 2; g++) { gh_inc(&l->began); l->l.count_down(); vf_assert(gh_get(&l->fn) == g + 1, "count_down returns after the completion function"); } }
extern "C" void vh_c14_clatch_gen() { vf_cfg_timeouts = 0; CL l(1); G = &l; l.l.then(&creset); vf_go(g_wait, &l); vf_go(g_down, &l); vf_joinall(); vf_assert(l.fn == 2 && l.waited == 2, "two generations"); vf_reach("end"); }
struct LR { latch a; completion_latch b; int d, e, f; LR() : a(1), b(1), d(0), e(0), f(0) {} };
static void r_down(LR* l) { l->d = 5; l->a.count_down(); l->e = 6; l->b.count_down(); }
static void r_wait(LR* l) { l->a.wait(); vf_assert(l->d == 5, "published"); l->b.wait(); vf_assert(l->e == 6, "published"); }
extern "C" void vh_c14_race() { vf_cfg_timeouts = 0; LR l; vf_go(r_down, &l); vf_go(r_wait, &l); vf_joinall(); vf_reach("end"); }
// ---- call_once
struct On { once_flag f, g; int running, ok, threw, calls, returned, mustthrow, gok, x; On() : running(0), ok(0), threw(0), calls(0), returned(0), mustthrow(0), gok(0), x(0) { once_flag i = BOOST_ONCE_INIT; f = i; g = i; } };
struct Boom { int who; };
static void body(On* o, int who) { vf_assert(gh_get(&o->running) == 0, "two executions at the same time"); vf_assert(gh_get(&o->ok) == 0, "executed again after a successful execution"); gh_inc(&o->running); vf_sched(); gh_set(&o->running, 0); if (vf_bool()) { gh_inc(&o->threw); Boom b = {who}; throw b; } gh_inc(&o->ok); }
static bool once(On* o, int who) { vf_sched(); int ok0 = gh_get(&o->ok); try { call_once(o->f, &body, o, who); } catch (Boom& b) { vf_assert(b.who == who, "the exception reaches its caller"); vf_assert(!ok0, "a later caller does not execute"); vf_reach("threw"); gh_inc(&o->returned); return false; } vf_assert(gh_get(&o->ok) == 1, "call_once returned before the function completed"); vf_reach_if(ok0, "found done"); vf_reach_if(!ok0, "ran"); return true; }
static void o_one(On* o) { once(o, vf_tid()); }
static void o_two(On* o) { bool a = once(o, 40 + vf_tid()); bool b = once(o, vf_tid()); vf_assert(!a || b, "stays done"); }
extern "C" void vh_c15_once() { vf_cfg_spurious = 1; On o; for (int i = 0; i < 3; i++) vf_go(o_one, &o); vf_joinall(); vf_assert(o.ok == 1 || o.threw == 3, "exactly one successful execution unless all threw"); vf_assert(o.returned == o.threw, "each exception reaches one caller"); vf_reach_if(o.threw == 3, "all threw"); }
extern "C" void vh_c15_twice() { On o; vf_go(o_two, &o); vf_go(o_two, &o); vf_joinall(); vf_assert(o.ok == 1 || o.threw == 4, "exactly one successful execution unless all threw"); vf_assert(o.returned == o.threw, "each exception reaches one caller"); }
static void inner(On* o) { vf_sched(); gh_inc(&o->gok); }
static void outer(On* o) { vf_sched(); call_once(o->g, &inner, o); vf_assert(gh_get(&o->gok) == 1, "the inner function completed once"); gh_inc(&o->ok); }
static void o_outer(On* o) { call_once(o->f, &outer, o); vf_assert(gh_get(&o->ok) == 1 && gh_get(&o->gok) == 1, "returned before completion"); }
static void o_inner(On* o) { call_once(o->g, &inner, o); vf_assert(gh_get(&o->gok) == 1, "returned before completion"); }
extern "C" void vh_c15_two() { On o; vf_go(o_outer, &o); vf_go(o_outer, &o); vf_go(o_inner, &o); vf_joinall(); vf_assert(o.ok == 1 && o.gok == 1, "once each"); vf_reach("end"); }
static void f_once(On* o) { gh_inc(&o->calls); if (o->calls == 1 && o->mustthrow) throw Boom(); gh_inc(&o->ok); }
static void g_slow(On* o) { vf_await(&o->ok, 1, 0, 0, 0, 0); gh_inc(&o->gok); }
static void o_f(On* o) { try { call_once(o->f, &f_once, o); vf_assert(gh_get(&o->ok) == 1, "returned before completion"); } catch (Boom&) { gh_inc(&o->threw); } }
static void o_g(On* o) { call_once(o->g, &g_slow, o); vf_assert(gh_get(&o->gok) == 1, "returned before completion"); }
extern "C" void vh_c15_others() { On o; o.mustthrow = 1; vf_go(o_g, &o); vf_go(o_g, &o); vf_go(o_f, &o); o_f(&o); vf_joinall(); vf_assert(o.ok == 1 && o.gok == 1 && o.threw == 1, "once each, one exception"); vf_reach("end"); }
static int A3[3]; static void three(int a, int b, int c) { A3[0] = a; A3[1] = b; A3[2] = c; } static void none() { A3[0] = 99; }
struct Mem { int v; void set(int a) { v = a; } }; struct Fun { int k; void operator()(int a) const { A3[0] = a ^ k; } };
extern "C" void vh_c15_args() { int a = (int)vf_nondet(32), b = (int)vf_nondet(32), c = (int)vf_nondet(32); once_flag f = BOOST_ONCE_INIT;
  switch (vf_choice(4)) { case 0: call_once(f, three, a, b, c); vf_assert(A3[0] == a && A3[1] == b && A3[2] == c, "the arguments arrive"); call_once(f, three, b + 1, a, c); vf_assert(A3[0] == a && A3[1] == b && A3[2] == c, "executed once"); vf_reach("function"); break;
    case 1: { Mem m = {0}; call_once(f, &Mem::set, &m, a); vf_assert(m.v == a, "the argument arrives"); call_once(f, &Mem::set, &m, a + 1); vf_assert(m.v == a, "executed once"); vf_reach("member"); break; }
    case 2: { Fun g = {b}; call_once(f, g, a); vf_assert(A3[0] == (a ^ b), "the function object and the argument arrive"); call_once(f, g, a + 1); vf_assert(A3[0] == (a ^ b), "executed once"); vf_reach("functor"); break; }
    default: call_once(none, f); vf_assert(A3[0] == 99, "executed"); A3[0] = 0; call_once(none, f); vf_assert(A3[0] == 0, "executed once"); vf_reach("old"); } }
struct OR { once_flag f; int d; }; static void w5(OR* o) { o->d = 5; } static void r_once(OR* o) { call_once(o->f, &w5, o); vf_assert(o->d == 5, "published"); }
extern "C" void vh_c15_race() { OR o = {BOOST_ONCE_INIT, 0}; vf_go(r_once, &o); vf_go(r_once, &o); vf_joinall(); vf_reach("end"); }
