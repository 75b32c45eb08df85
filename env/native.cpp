#include <execinfo.h>
// Native replay runtime: runs the compiled code under a recorded schedule, one thread at a time.
#include "vf.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <map>
#include <vector>
enum { MT = 10 };
struct Step { int tid, mode; long end; };
struct Ev { char k; unsigned long v; };
static Step* steps; static int nsteps, cur = -1, nrun;
static Ev* evs[MT]; static int nev[MT], pev[MT];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static long evc[MT]; static int nth = 1, done[MT], daemon_[MT]; static bool started;
static __thread int me;
struct Aw { bool on; const int *a1; int v1; const int* a2; int v2, tmo, spur; }; static Aw aw[MT];
static long live; 
static void finish(const char* what, const char* l) { printf("REPLAY-%s %s\n", what, l); fflush(stdout); _exit(0); }
static bool en(int t, int mode) { if (t >= nth || done[t]) return false; Aw& w = aw[t]; if (!w.on) return mode == 0; bool c2 = !w.a2 || *w.a2 == w.v2; if (mode == 1) return c2 && w.tmo; if (mode == 2) return c2 && w.spur; return c2 && (!w.a1 || *w.a1 == w.v1); }
static void endOfTrace() {
  bool all = true; for (int t = 0; t < nth; t++) if (!done[t] && !daemon_[t]) all = false;
  if (all) finish("OK", "");
  bool any = false; for (int t = 0; t < nth; t++) if (en(t, 0) || en(t, 1)) any = true;
  if (!any) finish("VIOLATION", "deadlock");
  finish("END", "");
}
static void advance() { // called with the baton; picks the next step
  cur++;
  if (cur >= nsteps) endOfTrace();
  Step& s = steps[cur]; if (!en(s.tid, s.mode)) { bool any = false; for (int t = 0; t < nth; t++) if (en(t, 0) || en(t, 1)) any = true; if (!any) endOfTrace(); char b[64]; snprintf(b, 64, "step %d: thread %d is not enabled", cur, s.tid); finish("DIVERGED", b); }
  pthread_cond_broadcast(&cv);
}
static int turn() { while (cur < 0 || cur >= nsteps || steps[cur].tid != me) pthread_cond_wait(&cv, &mu); return steps[cur].mode; }
extern "C" {
int vf_tid(void) { return me; }
extern int vf_mov(int); static int yield_(void) {
  if (!started) return 0;
  if (getenv("VF_DEBUG")) { void* bt[12]; int n = backtrace(bt, 12); backtrace_symbols_fd(bt, n, 2); } if (getenv("VF_DEBUG")) fprintf(stderr, "event %ld of thread %d, step %d until %ld, await %d tmo %d a2 %d\n", evc[me] + 1, me, cur, steps[cur].end, aw[me].on, aw[me].tmo, aw[me].a2 ? *aw[me].a2 : -1);
  evc[me]++; if (steps[cur].end < 0 || evc[me] < steps[cur].end) { if (aw[me].on && !en(me, 0)) finish("DIVERGED", "blocked inside a step"); return 0; }
  vf_mov(8);
  pthread_mutex_lock(&mu); advance(); int m = turn(); pthread_mutex_unlock(&mu); return m; }
void vf_sched(void) { yield_(); }
int vf_await(const int* a1, int v1, const int* a2, int v2, int tmo, int spur) { aw[me] = Aw{true, a1, v1, a2, v2, tmo, spur}; int m = yield_(); aw[me].on = false; return m; }
struct Sp { void (*fn)(void*); void* arg; int t; };
static void* tstart(void* p) { Sp s = *(Sp*)p; free(p); me = s.t; pthread_mutex_lock(&mu); turn(); pthread_mutex_unlock(&mu); s.fn(s.arg); pthread_mutex_lock(&mu); done[me] = 1; advance(); pthread_mutex_unlock(&mu); return 0; }
int vf_spawn(void (*fn)(void*), void* arg) { Sp* s = (Sp*)malloc(sizeof(Sp)); s->fn = fn; s->arg = arg; s->t = nth++; int r = s->t; pthread_t th; if (pthread_create(&th, 0, tstart, s)) finish("DIVERGED", "cannot create a thread"); return r; }
unsigned long vf_nondet(int) { if (!started) return 0; while (pev[me] < nev[me] && evs[me][pev[me]].k != 'N') pev[me]++; if (pev[me] >= nev[me]) finish("END", "no more recorded values"); return evs[me][pev[me]++].v; }
void vf_assume(bool b) { if (!b) finish("END", "assumption"); }
void vf_assert(bool b, const char* m) { if (!b) { char s[400]; snprintf(s, 400, "assert: %s", m); finish("VIOLATION", s); } }
void vf_fail(const char* m) { char s[400]; snprintf(s, 400, "fail: %s", m); finish("VIOLATION", s); abort(); }
void vf_stop(void) { finish("END", "stop"); abort(); }
void vf_reach(const char*) {} void vf_reach_if(bool, const char*) {}
void vf_observe(long v) { if (!started) return; if (pev[me] >= nev[me]) return; if (evs[me][pev[me]].k != 'O') finish("DIVERGED", "observation order"); if ((long)evs[me][pev[me]].v != v) { char b[100]; snprintf(b, 100, "observed %ld instead of %ld", v, (long)evs[me][pev[me]].v); finish("DIVERGED", b); } pev[me]++; }
void* vf_malloc(size_t n) { live++; return malloc(n); } void vf_free(void* p) { if (p) live--; free(p); }
void vf_hb_release(const void*) {} void vf_hb_acquire(const void*) {} void vf_lk_release(const void*) {} void vf_lk_acquire(const void*) {}
int vf_is_native(void) { return 1; }
long vf_heap_live(void) { return live; }
int vf_alive(const void*) { return 1; }
unsigned long vf_concrete(unsigned long v) { return v; }
unsigned long vf_case(unsigned long v) { return v; }
void vf_daemon(int d) { daemon_[me] = d; }
static int reduce_ = 0, mov_[MT], rel_[MT];
int vf_mov(int k) { if (k == 6) return reduce_; if (k == 0) return reduce_ && mov_[me]; if (k == 1) mov_[me] = 1; else if (k == 2) { mov_[me] = 0; rel_[me] = 1; } else if (k == 7) return reduce_ && rel_[me]; else if (k == 8) mov_[me] = rel_[me] = 0; return 0; }
void vf_ghost(int) {}
void vf_print(const char* s, long v) { printf("[t%d] %s %ld\n", me, s, v); }
int __cxa_guard_acquire(long* g) { int* p = (int*)g; char* d = (char*)g; if (*d) return 0; while (p[1]) { vf_await(&p[1], 0, 0, 0, 0, 0); if (*d) return 0; } p[1] = 1; return 1; }
void __cxa_guard_release(long* g) { *(char*)g = 1; ((int*)g)[1] = 0; }
void __cxa_guard_abort(long* g) { ((int*)g)[1] = 0; }
const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
void __asan_on_error() { printf("REPLAY-VIOLATION memory (AddressSanitizer)\n"); fflush(stdout); }
}
static void term() { const char* n = "none"; if (std::type_info* t = abi::__cxa_current_exception_type()) n = t->name(); char b[300]; snprintf(b, 300, "uncaught %s", n); finish("VIOLATION", b); }
int main(int argc, char** argv) {
  if (argc < 3) return 2; FILE* f = fopen(argv[2], "r"); if (!f) return 2; char l[600]; std::vector<Step> st; std::vector<Ev> ev[MT];
  while (fgets(l, 600, f)) { int t, m; long e; unsigned long v; if (sscanf(l, "R %d", &t) == 1) reduce_ = t; else if (sscanf(l, "S %d %d %ld", &t, &m, &e) == 3) st.push_back({t, m, e}); else if (sscanf(l, "N %d %lu", &t, &v) == 2) ev[t].push_back({'N', v}); else if (sscanf(l, "O %d %lu", &t, &v) == 2) ev[t].push_back({'O', v}); }
  steps = st.data(); nsteps = st.size(); for (int i = 0; i < MT; i++) { evs[i] = ev[i].data(); nev[i] = ev[i].size(); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry\n"); return 2; }
  std::set_terminate(term); alarm(60);
  live = 0; started = true; cur = 0; if (!nsteps) return 2; if (steps[0].tid != 0) return 2;
  pthread_mutex_lock(&mu); pthread_mutex_unlock(&mu);
  fn();
  pthread_mutex_lock(&mu); done[0] = 1; advance(); for (;;) pthread_cond_wait(&cv, &mu);
}
