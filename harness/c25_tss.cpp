// C25: thread_specific_ptr.
// ENTRY vh_c25_seq | props=C25 | weight=3 | reach=end | bound=1 boost thread or external thread, every sequence of 3 of reset (new value, same value, null), release, get over 2 pointers (with cleanup, without cleanup function); then thread exit
// ENTRY vh_c25_seq4 | props=C25 | tier=thorough | weight=3 | reach=end | bound=1 boost thread or external thread, every sequence of 4 of reset (new value, same value, null), release, get over 2 pointers (with cleanup, without cleanup function); then thread exit
// ENTRY vh_c25_iso | props=C25 | weight=3 | reach=end | bound=2 boost threads and the main thread storing, reading, resetting or releasing in the same 2 pointers at any time
// ENTRY vh_c25_nest | props=C25 | reach=other;own;released;cleared | bound=1 thread whose cleanup function stores into another pointer or its own, releases or resets its own; 2 pointers
// ENTRY vh_c25_deleter | props=C25 | reach=end | bound=default deleter, reset, release, exit, destruction of the pointer by a thread that has a value; exit functions that store values
// ENTRY vh_c25_race | props=C25,C40 | reach=end | bound=2 threads using one pointer at once
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
using namespace boost;
struct V { int owner, cleaned, released; };
static V v[8]; static thread_specific_ptr<V>* P[2]; static int mode, nvals, dels, after;
static void clean(V* p) { vf_assert(p >= v && p < v + 8 && p->owner == vf_tid(), "cleanup runs in the thread that stored the value"); vf_assert(!p->released, "a released value was cleaned up"); vf_assert(p->cleaned == 0, "a value was cleaned up twice"); gh_inc(&p->cleaned);
  if (mode == 0) return; int m = mode; mode = 0; int own = p == &v[1];
  if (m < 3) { nvals++; v[6].owner = vf_tid(); P[m == 1 ? 1 - own : own]->reset(&v[6]); } else if (m == 3) vf_assert(P[own]->release() == 0, "a value being cleaned up is no longer stored"); else P[own]->reset(); }
// without a cleanup function nothing is called
static void gone(V* old, int k) { if (!old) return; vf_assert(old->cleaned == (k == 0), "the replaced value is cleaned up"); if (k) old->released = 1; }
static int ops;
static void w_seq() {
  V* cur[2] = {0, 0}; int used = 0;
  for (int i = 0; i < ops; i++) { int k = vf_pick(2); V* old = cur[k]; int c = old ? old->cleaned : 0;
    switch (vf_pick(4)) {
      case 0: { V* n = &v[used++]; n->owner = vf_tid(); P[k]->reset(n); cur[k] = n; gone(old, k); break; }
      case 1: P[k]->reset(old); if (old) vf_assert(old->cleaned == c, "reset to the same value does nothing"); break;
      case 2: P[k]->reset(); cur[k] = 0; gone(old, k); break;
      default: { V* r = P[k]->release(); vf_assert(r == old, "release returns the value"); if (r) r->released = 1; cur[k] = 0; } }
    for (int j = 0; j < 2; j++) { vf_assert(P[j]->get() == cur[j], "get returns the value stored last"); vf_assert(!cur[j] || !cur[j]->cleaned, "a stored value is not cleaned up"); } }
  for (int j = 0; j < 2; j++) if (cur[j]) { cur[j]->owner = vf_tid(); if (j == 1) cur[j]->released = 1; }
  nvals = used; }
static void* ext_seq(void*) { w_seq(); return 0; }
static void seq(int n) { ops = n; vf_cfg_timeouts = 0; thread_specific_ptr<V> a(clean), b(0); P[0] = &a; P[1] = &b; mode = 0; for (int i = 0; i < 8; i++) { v[i].owner = -1; v[i].cleaned = v[i].released = 0; }
  if (vf_pick(2)) { pthread_t t; pthread_create(&t, 0, ext_seq, 0); pthread_join(t, 0); } else { thread t(w_seq); t.join(); }
  for (int i = 0; i < nvals; i++) vf_assert(v[i].cleaned + v[i].released == 1, "every stored value is cleaned up exactly once or released");
  vf_assert(a.get() == 0 && b.get() == 0, "nothing stored here"); vf_reach("end"); }
extern "C" void vh_c25_seq() { seq(3); }
extern "C" void vh_c25_seq4() { seq(4); }
// every value of pointer 0 is cleaned exactly once or released
static int stored[8];
static void put(int i, int k) { v[i].owner = vf_tid(); P[k]->reset(&v[i]); vf_sched(); vf_assert(P[k]->get() == &v[i], "each thread sees its own value"); }
static void w_iso() { int t = vf_tid(); for (int k = 0; k < 2; k++) vf_assert(P[k]->get() == 0, "a new thread has no value"); put(t * 2, 0); if (t == 1) put(t * 2 + 1, 1); vf_sched(); vf_assert(P[0]->get() == &v[t * 2], "each thread sees its own value"); switch (vf_pick(3)) { case 0: break; case 1: P[0]->reset(); vf_assert(v[t * 2].cleaned == 1 && P[0]->get() == 0, "reset cleans up"); break; default: P[0]->release(); v[t * 2].released = 1; vf_assert(P[0]->get() == 0, "released"); } }
extern "C" void vh_c25_iso() { vf_cfg_timeouts = 0; thread_specific_ptr<V> a(clean), b(clean); P[0] = &a; P[1] = &b; mode = 0; for (int i = 0; i < 8; i++) { v[i].owner = -1; v[i].cleaned = v[i].released = 0; }
  { thread t1(w_iso), t2(w_iso); put(0, 0); t1.join(); t2.join(); } vf_assert(a.get() == &v[0] && v[0].cleaned == 0, "the value of this thread"); for (int i = 0; i < 6; i++) vf_assert(i == 0 || v[i].cleaned == (v[i].owner >= 0 && !v[i].released), "every stored value is cleaned up exactly once"); a.reset(); vf_assert(v[0].cleaned == 1, "cleaned"); vf_reach("end"); }
static void w_nest() { v[0].owner = vf_tid(); P[0]->reset(&v[0]); if (vf_bool()) { v[1].owner = vf_tid(); P[1]->reset(&v[1]); } mode = after; }
extern "C" void vh_c25_nest() { vf_cfg_timeouts = 0; thread_specific_ptr<V> p1(clean), p2(clean); bool sw = vf_pick(2); P[0] = sw ? &p2 : &p1; P[1] = sw ? &p1 : &p2; mode = 0; nvals = 0; after = 1 + vf_pick(4); for (int i = 0; i < 8; i++) { v[i].owner = -1; v[i].cleaned = v[i].released = 0; }
  { thread t(w_nest); t.join(); } for (int i = 0; i < 8; i++) vf_assert(v[i].cleaned == (v[i].owner >= 0), "every stored value is cleaned up exactly once"); vf_reach_if(after == 1, "other"); vf_reach_if(after == 2, "own"); vf_reach_if(after == 3, "released"); vf_reach_if(after == 4, "cleared"); }
struct D { int id; D(int i) : id(i) {} ~D() { gh_inc(&dels); } };
static thread_specific_ptr<D>* PD;
static void exitf() { PD->reset(new D(9)); }
static void w_del() { switch (vf_pick(5)) { case 0: PD->reset(new D(1)); PD->reset(new D(2)); vf_assert(dels == 1 && PD->get()->id == 2 && (*PD)->id == 2 && (**PD).id == 2, "replaced"); break; case 1: PD->reset(new D(1)); PD->reset(); vf_assert(dels == 1 && !PD->get(), "reset"); PD->reset(new D(3)); break; case 2: { PD->reset(new D(1)); D* d = PD->release(); vf_assert(dels == 0, "released"); delete d; PD->reset(new D(2)); break; } case 3: { thread_specific_ptr<D> q; q.reset(new D(1)); PD->reset(new D(2)); break; } default: this_thread::at_thread_exit(exitf); PD->reset(new D(1)); } }
extern "C" void vh_c25_deleter() { vf_cfg_timeouts = 0; thread_specific_ptr<D> d; PD = &d; dels = 0; { thread t(w_del); t.join(); } vf_assert(dels == 2, "each object is deleted exactly once"); vf_reach("end"); }
static void w_race() { static V r[4]; P[0]->reset(&v[vf_tid()]); v[vf_tid()].owner = vf_tid(); vf_assert(P[0]->get() == &v[vf_tid()], "own value"); }
extern "C" void vh_c25_race() { vf_cfg_timeouts = 0; thread_specific_ptr<V> a(clean); P[0] = &a; mode = 0; for (int i = 0; i < 8; i++) { v[i].owner = -1; v[i].cleaned = v[i].released = 0; } thread t(w_race), u(w_race); t.join(); u.join(); vf_assert(v[1].cleaned == 1 && v[2].cleaned == 1, "cleaned"); vf_reach("end"); }
