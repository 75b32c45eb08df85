// Model of the POSIX thread interface.  Compiled to bitcode for the engine, and natively for replay.
#include "vf.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <new>
extern "C" {
int vf_cfg_spurious = 0, vf_cfg_timeouts = -1, vf_cfg_clock = 0, vf_cfg_clockjump = 0, vf_cfg_fail = 0, vf_cfg_failmask = 0, vf_cfg_terminate = 0, vf_cfg_yield = 0, vf_env_cpus = 4;
// vf_cfg_yield: a yielding thread continues once another thread has released a mutex or ended since its last yield (fairness, for loops that only poll state under mutexes)
static int yidle[16]; static void poke(int t) { for (int i = 0; i < 16; i++) if (i != t) yidle[i] = 0; }
int vf_env_mutexes = 0, vf_env_conds = 0, vf_env_threads = 0, vf_env_failed = 0, vf_env_attrs = 0, vf_env_joined = 0, vf_env_detached = 0;
unsigned long vf_env_stacksize = 0; int vf_env_detachstate = 0;
long vf_now_s[2] = {1000000, 5000}, vf_now_ns[2] = {0, 0};
}
enum { MT = 10, MK = 16 };
struct M { int owner; int count; int type; int state; int wake; }; // state: 0 static/ok, 1 initialised, -1 destroyed
struct Cn { int state; int clock; int nwait; short loose, elid; M* mx; }; // mx: the mutex its waiters and notifiers hold
struct At { int detached; int init; unsigned long stack; };
static const void* w_cond[MT]; static int w_sig[MT], w_tmo[MT], w_out[MT]; static long w_s[MT], w_ns[MT]; static int w_clk[MT];
static M* last[MT]; static int th_done[MT], th_joined[MT], th_det[MT]; static int held[MT];
static void* tsd[MT][MK]; static void (*key_d[MK])(void*); static int key_used[MK];
struct Start { void* (*fn)(void*); void* arg; };
static int never_ = 0;
extern "C" {
static int fault(int bit) { if (vf_cfg_fail > 0 && (vf_cfg_failmask & bit) && ((vf_cfg_failmask & 512) || vf_bool())) { vf_cfg_fail--; vf_env_failed++; return 1; } return 0; }
void vf_time_pass(int c, long s, long ns) { if (vf_now_s[c] < s || (vf_now_s[c] == s && vf_now_ns[c] < ns)) {
    if (c == 1 || c == 0) { // both clocks run: keep their difference when only whole model time passes
      long ds = s - vf_now_s[c], dn = ns - vf_now_ns[c]; if (dn < 0) { dn += 1000000000; ds -= 1; }
      int o = 1 - c; vf_now_s[o] += ds; vf_now_ns[o] += dn; if (vf_now_ns[o] >= 1000000000) { vf_now_ns[o] -= 1000000000; vf_now_s[o]++; } }
    vf_now_s[c] = s; vf_now_ns[c] = ns; } }
int vf_owned(const void* m) { return ((const M*)m)->owner; }
int vf_held(int t) { return held[t]; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { *(int*)a = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t; return 0; }
int pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t* a) {
  M* m = (M*)p; if (fault(1)) return EAGAIN;
  m->owner = 0; m->count = 0; m->wake = 0; m->type = a ? *(const int*)a : 0; m->state = 1; vf_env_mutexes++; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* p) {
  M* m = (M*)p; if (m->state == -1) vf_fail("env: mutex destroyed twice"); if (m->owner) vf_fail("env: a locked mutex is destroyed");
  if (m->state == 1) vf_env_mutexes--; m->state = -1; return 0; }
int pthread_mutex_lock(pthread_mutex_t* p) {
  M* m = (M*)p; int me = vf_tid() + 1;
  if (m->state == -1) vf_fail("env: lock of a destroyed mutex");
  if (m->type == PTHREAD_MUTEX_RECURSIVE && m->owner == me) { m->count++; return 0; }
  if (fault(32)) return EINVAL;
  // A lock taken right after another one (nothing else visible in between) commutes with what other threads do, provided it is
  // given back before this thread's next scheduling point (the engine starts again without this reduction if it is not).
  if (vf_mov(0) && m->owner == 0) { m->owner = me; m->count = 1; m->wake = 1; held[me - 1]++; vf_lk_acquire(m); vf_mov(3); last[me - 1] = m; return 0; }
  vf_await(&m->owner, 0, 0, 0, 0, 0);
  if (m->state == -1) vf_fail("env: lock of a destroyed mutex");
  m->owner = me; m->count = 1; held[me - 1]++; vf_lk_acquire(m); vf_mov(1); last[me - 1] = m; return 0; }
static void given(M* m) { vf_mov(2); int t = vf_tid(); if (last[t] == m) last[t] = 0; if (m->wake) { m->wake = 0; vf_mov(4); } }
int pthread_mutex_trylock(pthread_mutex_t* p) {
  M* m = (M*)p; int me = vf_tid() + 1; vf_sched();
  if (m->state == -1) vf_fail("env: lock of a destroyed mutex");
  if (m->owner == me && m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
  if (m->owner) return EBUSY;
  m->owner = me; m->count = 1; held[me - 1]++; vf_lk_acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* p) {
  M* m = (M*)p; int me = vf_tid() + 1;
  if (m->state == -1) vf_fail("env: unlock of a destroyed mutex");
  if (m->owner != me) vf_fail("env: unlock of a mutex the thread does not own");
  if (--m->count) return 0;
  vf_lk_release(m); held[me - 1]--; m->owner = 0; if (vf_cfg_yield) poke(me - 1); given(m); return 0; }
static int later(long s, long ns, int c) { return s > vf_now_s[c] || (s == vf_now_s[c] && ns > vf_now_ns[c]); }
int pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec* ts) {
  M* m = (M*)p; int me = vf_tid() + 1;
  if (m->state == -1) vf_fail("env: lock of a destroyed mutex");
  if (m->type == PTHREAD_MUTEX_RECURSIVE && m->owner == me) { m->count++; return 0; }
  vf_sched();
  if (m->owner == 0) { m->owner = me; m->count = 1; held[me - 1]++; vf_lk_acquire(m); return 0; }
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  int r = vf_await(&m->owner, 0, 0, 0, vf_cfg_timeouts != 0, 0);
  if (r == 1) { if (vf_cfg_timeouts > 0) vf_cfg_timeouts--; vf_time_pass(0, ts->tv_sec, ts->tv_nsec); return ETIMEDOUT; }
  m->owner = me; m->count = 1; held[me - 1]++; vf_lk_acquire(m); return 0; }
int pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = 0; return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = c; return 0; }
int pthread_cond_init(pthread_cond_t* p, const pthread_condattr_t* a) { Cn* c = (Cn*)p; if (fault(2)) return EAGAIN; c->state = 1; c->clock = a && *(const int*)a == CLOCK_MONOTONIC ? 1 : 0; c->nwait = 0; c->loose = c->elid = 0; c->mx = 0; vf_env_conds++; return 0; }
int pthread_cond_destroy(pthread_cond_t* p) { Cn* c = (Cn*)p; if (c->state == -1) vf_fail("env: condition destroyed twice");
  for (int i = 0; i < MT; i++) if (w_cond[i] == p && !w_sig[i]) vf_fail("env: a condition with waiters is destroyed");
  if (c->state == 1) vf_env_conds--; c->state = -1; return 0; }
static int cwait(Cn* c, M* m, const struct timespec* ts) {
  int t = vf_tid(), me = t + 1;
  if (c->state == -1) vf_fail("env: wait on a destroyed condition");
  // A wait needs no scheduling point of its own if every notification is given under its mutex, or if this thread released no
  // lock since its last scheduling point (a notification in between could as well have come before it).
  if (!vf_mov(6)) vf_sched(); else if (c->mx && c->mx != m) vf_mov(5); else if (vf_mov(7)) { if (c->loose) vf_mov(5); c->elid = 1; }
  if (m->owner != me) vf_fail("env: condition wait without owning the mutex");
  if (m->count != 1) vf_fail("env: condition wait with a recursively locked mutex");
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
  if (fault(64)) return EINVAL;
  c->mx = m;
  vf_lk_release(m); m->owner = 0; m->count = 0; held[t]--; if (vf_cfg_yield) poke(t); given(m);
  w_sig[t] = 0; w_out[t] = 0; w_cond[t] = c; c->nwait++;
  w_tmo[t] = ts && vf_cfg_timeouts != 0; if (ts) { w_s[t] = ts->tv_sec; w_ns[t] = ts->tv_nsec; w_clk[t] = c->clock; }
  int r = vf_await(&w_sig[t], 1, &m->owner, 0, w_tmo[t], vf_cfg_spurious != 0);
  w_cond[t] = 0; c->nwait--; int sg = w_sig[t], out = w_out[t]; w_sig[t] = w_tmo[t] = w_out[t] = w_clk[t] = 0; w_s[t] = w_ns[t] = 0;
  if (m->state == -1) vf_fail("env: condition wait with a destroyed mutex");
  m->owner = me; m->count = 1; held[t]++; vf_lk_acquire(m);
  if (sg) r = 0;
  if (r == 1) { if (vf_cfg_timeouts > 0) vf_cfg_timeouts--; vf_time_pass(c->clock, ts->tv_sec, ts->tv_nsec); return ETIMEDOUT; }
  if (r == 2) { if (vf_cfg_spurious > 0) vf_cfg_spurious--; return 0; }
  return out; }
int pthread_cond_wait(pthread_cond_t* p, pthread_mutex_t* m) { return cwait((Cn*)p, (M*)m, 0); }
int pthread_cond_timedwait(pthread_cond_t* p, pthread_mutex_t* m, const struct timespec* ts) { return cwait((Cn*)p, (M*)m, ts); }
// a timed waiter may have timed out just before the notification: then it does not consume it
static int early(int i) { if (w_tmo[i] && vf_cfg_timeouts != 0 && vf_bool()) { w_sig[i] = 1; w_out[i] = ETIMEDOUT; if (vf_cfg_timeouts > 0) vf_cfg_timeouts--; vf_time_pass(w_clk[i], w_s[i], w_ns[i]); return 1; } return 0; }
// a notification under the mutex of the waiters needs no scheduling point of its own
static void point(Cn* c) { int t = vf_tid(); if (vf_mov(6)) { if (c->mx && c->mx->owner == t + 1) return; M* m = last[t]; if (!c->mx && m && m->owner == t + 1) { c->mx = m; return; } c->loose = 1; if (c->elid) vf_mov(5); } vf_sched(); }
int pthread_cond_signal(pthread_cond_t* p) {
  Cn* c = (Cn*)p; point(c); if (c->state == -1) vf_fail("env: signal of a destroyed condition");
  if (!c->nwait) return 0;
  int cand[MT], n = 0; for (int i = 0; i < MT; i++) if (w_cond[i] == p && !w_sig[i]) { if (!early(i)) cand[n++] = i; }
  if (n == 0) return 0;
  int k = 0; if (n > 1) { unsigned long v = vf_nondet(3); vf_assume(v < (unsigned long)n); k = (int)vf_concrete(v); }
  w_sig[cand[k]] = 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t* p) {
  Cn* c = (Cn*)p; point(c); if (c->state == -1) vf_fail("env: broadcast of a destroyed condition");
  if (!c->nwait) return 0;
  for (int i = 0; i < MT; i++) if (w_cond[i] == p && !w_sig[i]) { if (!early(i)) w_sig[i] = 1; }
  return 0; }
static void tmain(void* a) {
  Start* s = (Start*)a; int t = vf_tid(); void* (*fn)(void*) = s->fn; void* arg = s->arg; vf_free(s);
  fn(arg);
  for (int it = 0; it < 4; it++) { int any = 0; for (int k = 0; k < MK; k++) if (tsd[t][k]) { void* v = tsd[t][k]; tsd[t][k] = 0; if (key_d[k]) { any = 1; key_d[k](v); } } if (!any) break; }
  if (held[t]) vf_fail("env: a thread ends while it owns a mutex");
  vf_hb_release(&th_done[t]); vf_sched(); th_done[t] = 1; if (vf_cfg_yield) poke(t); vf_env_threads--; }
int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (fault(4)) return EAGAIN;
  Start* s = (Start*)vf_malloc(sizeof(Start)); s->fn = fn; s->arg = arg;
  int det = a ? ((const At*)a)->detached : 0; vf_env_detachstate = det; vf_env_stacksize = a ? ((const At*)a)->stack : 0;
  vf_env_threads++; int t = vf_spawn(tmain, s); th_det[t] = det; *th = (pthread_t)(t + 1); return 0; }
int pthread_join(pthread_t th, void** r) {
  int t = (int)th - 1; if (t < 0 || t >= MT) vf_fail("env: join of an invalid thread"); if (th_det[t]) vf_fail("env: join of a detached thread"); if (th_joined[t]) vf_fail("env: thread joined twice");
  if (t == vf_tid()) return EDEADLK;
  th_joined[t] = 1; vf_env_joined++; vf_await(&th_done[t], 1, 0, 0, 0, 0); vf_hb_acquire(&th_done[t]); if (r) *r = 0; return 0; }
int pthread_detach(pthread_t th) { int t = (int)th - 1; if (t < 0 || t >= MT) vf_fail("env: detach of an invalid thread"); if (th_det[t]) vf_fail("env: detach of a detached thread"); if (th_joined[t]) vf_fail("env: detach of a joined thread"); th_det[t] = 1; vf_env_detached++; return 0; }
pthread_t pthread_self(void) { return (pthread_t)(vf_tid() + 1); }
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (fault(16)) return EAGAIN; for (int i = 0; i < MK; i++) if (!key_used[i]) { key_used[i] = 1; key_d[i] = d; *k = i; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) { key_used[k] = 0; key_d[k] = 0; return 0; }
void* pthread_getspecific(pthread_key_t k) { return tsd[vf_tid()][k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { tsd[vf_tid()][k] = (void*)v; return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) { int* p = (int*)o; vf_sched(); if (*p == 2) { vf_hb_acquire(p); return 0; } if (*p == 1) { vf_await(p, 2, 0, 0, 0, 0); vf_hb_acquire(p); return 0; } *p = 1; f(); vf_hb_release(p); *p = 2; return 0; }
int pthread_attr_init(pthread_attr_t* a) { At* p = (At*)a; p->detached = 0; p->init = 1; p->stack = 8 << 20; vf_env_attrs++; return 0; }
int pthread_attr_destroy(pthread_attr_t* a) { At* p = (At*)a; if (p->init != 1) vf_fail("env: thread attributes destroyed twice"); p->init = 2; vf_env_attrs--; return 0; }
int pthread_attr_setdetachstate(pthread_attr_t* a, int d) { ((At*)a)->detached = d == PTHREAD_CREATE_DETACHED; return 0; }
int pthread_attr_getdetachstate(const pthread_attr_t* a, int* d) { if (fault(128)) return EINVAL; *d = ((const At*)a)->detached ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE; return 0; }
int pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { if (n < 16384) return EINVAL; ((At*)a)->stack = n; return 0; }
int pthread_attr_getstacksize(const pthread_attr_t* a, size_t* n) { *n = ((const At*)a)->stack; return 0; }
int sched_yield(void) noexcept { if (vf_cfg_yield) { int t = vf_tid(); vf_await(&yidle[t], 0, 0, 0, 0, 0); yidle[t] = 1; } else vf_sched(); return 0; }
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  int c = id == CLOCK_MONOTONIC ? 1 : 0;
  if (vf_cfg_clock == 1) { long d = (long)vf_nondet(20); long n = vf_now_ns[1] + d; long s = vf_now_s[1]; if (n >= 1000000000) { n -= 1000000000; s++; } vf_time_pass(1, s, n); }
  if (c == 0 && vf_cfg_clockjump > 0 && vf_pick(2)) { vf_cfg_clockjump--; if (vf_pick(2)) vf_now_s[0] += 7200; else { vf_now_ns[0] -= 200000000; if (vf_now_ns[0] < 0) { vf_now_ns[0] += 1000000000; vf_now_s[0]--; } } }
  ts->tv_sec = vf_now_s[c]; ts->tv_nsec = vf_now_ns[c]; return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int nanosleep(const struct timespec* d, struct timespec* rem) {
  if (d->tv_nsec < 0 || d->tv_nsec > 999999999 || d->tv_sec < 0) { errno = EINVAL; return -1; }
  long n = vf_now_ns[1] + d->tv_nsec, s = vf_now_s[1] + d->tv_sec; if (n >= 1000000000) { n -= 1000000000; s++; }
  if (vf_await(&never_, 1, 0, 0, 1, vf_cfg_spurious != 0) == 2) { // a signal handler ran: part of the time may have passed
    if (vf_cfg_spurious > 0) vf_cfg_spurious--;
    struct timespec r = *d; if ((r.tv_sec > 0 || r.tv_nsec > 10000000) && vf_pick(2)) { long pn = vf_now_ns[1] + 10000000, ps = vf_now_s[1]; if (pn >= 1000000000) { pn -= 1000000000; ps++; } vf_time_pass(1, ps, pn); r.tv_nsec -= 10000000; if (r.tv_nsec < 0) { r.tv_nsec += 1000000000; r.tv_sec--; } }
    if (rem) *rem = r; errno = EINTR; return -1; }
  vf_time_pass(1, s, n); return 0; }
int usleep(useconds_t u) { struct timespec t = {(long)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
struct tm* vf_gmtime(const time_t* tp, struct tm* r) {
  long t = *tp, days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; days--; }
  r->tm_hour = rem / 3600; r->tm_min = rem / 60 % 60; r->tm_sec = rem % 60;
  long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned long doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = (long)yoe + era * 400; unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  r->tm_mday = doy - (153 * mp + 2) / 5 + 1; r->tm_mon = (mp < 10 ? mp + 3 : mp - 9) - 1; r->tm_year = y + (r->tm_mon <= 1) - 1900; r->tm_wday = 0; r->tm_yday = 0; r->tm_isdst = 0; return r; }
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { return vf_gmtime(t, r); }
struct tm* gmtime(const time_t* t) noexcept { static struct tm x; return vf_gmtime(t, &x); }
long sysconf(int n) noexcept { return n == 30 /* _SC_PAGESIZE */ ? 4096 : n == 75 /* _SC_THREAD_STACK_MIN */ ? 16384 : n == 84 ? vf_env_cpus : -1; }
long __sysconf(int n) noexcept { return sysconf(n); }
int getpagesize(void) noexcept { return 4096; }
}
void* operator new(size_t n) { if (fault(8)) throw std::bad_alloc(); return vf_malloc(n); }
void* operator new[](size_t n) { if (fault(8)) throw std::bad_alloc(); return vf_malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (fault(8)) return 0; return vf_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (fault(8)) return 0; return vf_malloc(n); }
void operator delete(void* p) noexcept { vf_free(p); }
void operator delete[](void* p) noexcept { vf_free(p); }
void operator delete(void* p, size_t) noexcept { vf_free(p); }
void operator delete[](void* p, size_t) noexcept { vf_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf_free(p); }
