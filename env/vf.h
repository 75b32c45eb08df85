// Interface between harnesses / environment model and the engine (or the native replay runtime).
#pragma once
#include <stddef.h>
extern "C" {
int vf_tid(void);
int vf_spawn(void (*fn)(void*), void* arg);
void vf_sched(void);                         // scheduling point
// block until (*a1 == v1) && (*a2 == v2) -> 0; until (*a2 == v2), if tmo -> 1 (time-out) ; if spur -> 2 (spurious)
int vf_await(const int* a1, int v1, const int* a2, int v2, int tmo, int spur);
unsigned long vf_nondet(int bits);           // arbitrary value of that many bits
void vf_assume(bool);
void vf_assert(bool, const char*);
void vf_fail(const char*) __attribute__((noreturn));
void vf_stop(void) __attribute__((noreturn)); // end this path silently
void vf_reach(const char*);
void vf_reach_if(bool, const char*);
void vf_observe(long);
void* vf_malloc(size_t); void vf_free(void*);
void vf_hb_release(const void*); void vf_hb_acquire(const void*); void vf_lk_release(const void*); void vf_lk_acquire(const void*);
void vf_raise(void*) __attribute__((noreturn));
int vf_is_native(void);
long vf_heap_live(void);
int vf_alive(const void*);
unsigned long vf_concrete(unsigned long);
unsigned long vf_case(unsigned long); // splits into cases that are kept apart
void vf_daemon(int);
int vf_mov(int); // lock reduction, see model.cpp

void vf_ghost(int);
void vf_print(const char*, long);
// configuration of the environment model (set by the harness first)
extern int vf_cfg_spurious;      // budget of spurious wake-ups
extern int vf_cfg_timeouts;      // budget of time-outs (-1: unlimited)
extern int vf_cfg_clock;         // 0: time passes only by time-outs; 1: every reading may advance
extern int vf_cfg_clockjump;     // budget of changes of the system (real) time
extern int vf_cfg_terminate;    // std::terminate is an expected end
extern int vf_cfg_yield;         // see model.cpp
extern int vf_env_cpus;          // processors reported by sysconf
extern int vf_cfg_fail;          // budget of failing resource requests
extern int vf_cfg_failmask;      // which: 1 mutex_init 2 cond_init 4 create 8 new 16 key_create 32 mutex_lock 64 cond_wait 128 attr
extern int vf_env_mutexes, vf_env_conds, vf_env_threads, vf_env_failed, vf_env_attrs, vf_env_joined, vf_env_detached;
extern unsigned long vf_env_stacksize; extern int vf_env_detachstate;
extern long vf_now_s[2], vf_now_ns[2]; // 0 realtime 1 monotonic
void vf_time_pass(int which, long s, long ns);
int vf_owned(const void* pthread_mutex);  // 1+tid of the owner, 0 if free
int vf_held(int tid);                     // number of model mutexes a thread holds
}
static inline bool vf_bool(void) { return vf_nondet(1) != 0; }
static inline int vf_choice(int n) { unsigned long v = vf_nondet(n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : 8); vf_assume(v < (unsigned long)n); return (int)v; }
static inline int vf_pick(int n) { return (int)vf_case(vf_choice(n)); }
#define VF_ASSERT(c, m) vf_assert((c), m)
