// Small helpers for harnesses.
#pragma once
#include "vf.h"
#include <pthread.h>
#include <boost/config.hpp>
extern "C" { static __attribute__((noinline)) void gh_inc(int* p) { ++*p; } }
struct VfGo { void (*fn)(void*); void* arg; };
static int vf_nth_, vf_ndone_; static VfGo vf_go_[10];
static void vf_go_main_(void* p) { VfGo* g = (VfGo*)p; g->fn(g->arg); vf_hb_release(&vf_ndone_); gh_inc(&vf_ndone_); }
template <class T> static void vf_go(void (*fn)(T*), T* arg) { VfGo* g = &vf_go_[vf_nth_++]; g->fn = (void (*)(void*))fn; g->arg = arg; vf_spawn(vf_go_main_, g); }
static void vf_joinall() { vf_await(&vf_ndone_, vf_nth_, 0, 0, 0, 0); vf_hb_acquire(&vf_ndone_); }
// what other threads were doing during a call: an attempt may only fail because of one of them
struct Act { unsigned act; unsigned acc[10]; };
extern "C" {
static __attribute__((noinline)) void gh_begin(Act* a) { int t = vf_tid(); unsigned o = a->act & ~(1u << t); a->act |= 1u << t; a->acc[t] = o; for (int i = 0; i < 6; i++) if (i != t && (a->act >> i & 1)) a->acc[i] |= 1u << t; }
static __attribute__((noinline)) void gh_end(Act* a) { a->act &= ~(1u << vf_tid()); a->acc[vf_tid()] = 0; }
static __attribute__((noinline)) unsigned gh_seen(Act* a) { return a->acc[vf_tid()]; }
// exclusive / shared / upgrade ownership
struct Own { int x, s, u; };
static __attribute__((noinline)) void gh_x(Own* o) { vf_assert(o->x == 0 && o->s == 0 && o->u == 0, "exclusive ownership granted while another thread owns the lock"); o->x = 1; }
static __attribute__((noinline)) void gh_s(Own* o) { vf_assert(o->x == 0, "shared ownership granted while another thread owns the lock exclusively"); o->s++; }
static __attribute__((noinline)) void gh_u(Own* o) { vf_assert(o->x == 0 && o->u == 0, "upgrade ownership granted while another thread holds exclusive or upgrade ownership"); o->u = 1; }
static __attribute__((noinline)) void gh_rx(Own* o) { o->x = 0; }
static __attribute__((noinline)) void gh_rs(Own* o) { o->s--; }
static __attribute__((noinline)) void gh_ru(Own* o) { o->u = 0; }
// model time
static __attribute__((noinline)) int gh_passed(int clk, long s, long ns) { return vf_now_s[clk] > s || (vf_now_s[clk] == s && vf_now_ns[clk] >= ns); }
// has the clock reached s:ns plus ms milliseconds
static __attribute__((noinline)) int gh_passed_ms(int clk, long s, long ns, long ms) { ns += (ms % 1000) * 1000000; s += ms / 1000; if (ns < 0) { ns += 1000000000; s--; } else if (ns >= 1000000000) { ns -= 1000000000; s++; } return vf_now_s[clk] > s || (vf_now_s[clk] == s && vf_now_ns[clk] >= ns); }
static __attribute__((noinline)) void gh_now(int clk, long* s, long* ns) { *s = vf_now_s[clk]; *ns = vf_now_ns[clk]; }
// model time in milliseconds, and: has the clock reached t milliseconds
static __attribute__((noinline)) long gh_ms(int clk) { return vf_now_s[clk] * 1000 + vf_now_ns[clk] / 1000000; }
static __attribute__((noinline)) int gh_after(int clk, long t) { long s = t / 1000, ns = t % 1000 * 1000000; return vf_now_s[clk] > s || (vf_now_s[clk] == s && vf_now_ns[clk] >= ns); }
static __attribute__((noinline)) void gh_set(int* p, int v) { *p = v; }
static __attribute__((noinline)) int gh_get(int* p) { return *p; }
}
