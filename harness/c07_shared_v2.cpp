// C07: boost::thread_v2::shared_mutex and upgrade_mutex.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
// ENTRY vh_c07_together | props=C07 | weight=5 | reach=owners next to the first one;owners let in at once | bound=3 threads on upgrade_mutex: one holds exclusive or upgrade ownership and releases or weakens it (to upgrade or shared), two wait for compatible ownership (shared, or one shared and one upgrade) and must own the lock at the same time as each other and as the first thread
// ENTRY vh_c07_together3 | props=C07 | weight=5 | reach=owners next to the first one;owners let in at once | bound=4 threads on upgrade_mutex: one holds exclusive or upgrade ownership and releases or weakens it (to upgrade or shared), three wait for compatible ownership (shared, at most one upgrade) and must own the lock at the same time as one another and as the first thread
// ENTRY vh_c07_api | props=C07,C03 | reach=exclusive timed out;shared timed out;upgrade timed out;past deadline ok;exclusive after waiting;shared with others | bound=2 threads x 1 acquisition of upgrade_mutex: exclusive, shared or upgrade, each by lock, try, try_for, try_until (steady, system), timed (relative, absolute); deadlines in the past or future; every time-out schedule
// ENTRY vh_c07_core | props=C07 | weight=5 | reach=exclusive after waiting;shared with others;upgrade with others | bound=3 threads x 1 acquisition of upgrade_mutex of any kind by lock or try_lock
// ENTRY vh_c07_race | props=C07,C40 | reach=exclusive after waiting;shared with others | bound=2 threads x 1 acquisition of upgrade_mutex by lock or try_lock, all accesses checked for races
// ENTRY vh_c07_wake | props=C07 | weight=9 | reach=exclusive after waiting;shared with others;upgrade with others | bound=3 threads x 1 acquisition of upgrade_mutex by blocking or timed operations that never time out
// ENTRY vh_c07_timed | props=C07 | weight=9 | reach=exclusive timed out;exclusive after waiting | bound=3 threads x 1 acquisition of upgrade_mutex, blocking or timed; a waiter that gives up must not leave others asleep
// ENTRY vh_c07_held | props=C07,C03 | weight=6 | reach=exclusive gave up;conversion gave up;granted next to the first owner | bound=3 threads: one keeps shared or upgrade ownership, one gives up waiting for exclusive ownership or a conversion (every timed operation), one waits behind it and must be granted its ownership meanwhile
// ENTRY vh_c07_conv2 | props=C07 | weight=4 | reach=conversion timed out;upgrade to exclusive;shared to exclusive;shared to upgrade;downgrade | bound=2 threads, each 1 acquisition and 1 conversion of upgrade_mutex (weakening, blocking upgrade, timed for/until with past or future deadline)
// ENTRY vh_c07_conv3 | props=C07 | weight=9 | reach=upgrade to exclusive;shared to exclusive;shared to upgrade;downgrade | bound=3 threads on upgrade_mutex: one acquires and converts (blocking or try), two acquire by lock or try_lock
// ENTRY vh_c07_convt | props=C07 | weight=9 | reach=conversion timed out | bound=3 threads on upgrade_mutex: one converts with a time limit, one holds shared ownership, one waits for a lock
// ENTRY vh_c07_convwake | props=C07 | weight=9 | reach=upgrade to exclusive;shared to exclusive;shared to upgrade | bound=3 threads on upgrade_mutex: one waits for a stronger kind with operations that never time out, two take, weaken and give back ownership
// ENTRY vh_c07_rw | props=C07,C40 | reach=exclusive after waiting | bound=2 threads x 2 acquisitions of thread_v2::shared_mutex by lock or try_lock
// ENTRY vh_c07_rw_timed | props=C07 | weight=9 | reach=exclusive timed out;shared timed out;exclusive after waiting | bound=3 threads x 1 acquisition of thread_v2::shared_mutex by blocking or timed operations
// ENTRY vh_c07_conv3_mix | props=C07 | tier=thorough | weight=9 | reach=upgrade to exclusive | bound=3 threads on upgrade_mutex: one acquires and converts, two acquire, or acquire and convert
#include <boost/thread/v2/shared_mutex.hpp>
#include "shared_common.h"
typedef boost::thread_v2::upgrade_mutex M;
struct V : boost::thread_v2::shared_mutex { // shared and exclusive only
  void lock_upgrade() { vf_fail("n/a"); } bool try_lock_upgrade() { return false; } void unlock_upgrade() {} template <class T> bool try_lock_upgrade_for(T) { return false; } template <class T> bool try_lock_upgrade_until(T) { return false; } template <class T> bool timed_lock_upgrade(T) { return false; } };
static void free_v(X<V>* x) { vf_assert(x->m.try_lock(), "the lock is free at the end"); x->m.unlock(); vf_assert(x->m.try_lock_shared(), "shared at the end"); vf_assert(x->m.try_lock_shared(), "shared ownership next to shared ownership"); vf_assert(!x->m.try_lock(), "exclusive ownership next to shared ownership"); x->m.unlock_shared(); x->m.unlock_shared(); }
static void th_rw(X<V>* x) { for (int i = 0; i < 2; i++) { int c = vf_bool() ? W : S; if (take(x, c, vf_choice(2), 0)) { use(x, c); release(x, c); } } }
static void th_rwt(X<V>* x) { static const int vs[] = {LOCK, UNTIL, ABS}; int c = x->kind[vf_tid()]; if (take(x, c, vs[vf_choice(3)], 80)) { use(x, c); release(x, c); } }
// one converts with a time limit, one holds shared ownership for a while, one waits
static void th_climb(X<M>* x) { int c = vf_bool() ? U : S, t = c == U || vf_bool() ? W : U; take(x, c, LOCK, 0); c = strengthen(x, c, t, vf_bool() ? UNTIL : UNTILSYS, 80); use(x, c); release(x, c); }
static void th_read(X<M>* x) { if (take(x, S, LOCK, 0)) { use(x, S); release(x, S); } }
extern "C" {
void vh_c07_api() { run2<M>(th_api, th_api); }
void vh_c07_core() { run3s<M>(th_core_s); }
void vh_c07_race() { run2<M>(th_core, th_core); }
void vh_c07_wake() { vf_cfg_timeouts = 0; run3s<M>(th_wake_s); }
void vh_c07_held() { held<M>(); }
void vh_c07_together() { vf_cfg_timeouts = 0; together<M, 2>(); }
void vh_c07_together3() { vf_cfg_timeouts = 0; together<M, 3>(); }
void vh_c07_timed() { run3s<M>(th_timed_s); }
void vh_c07_conv2() { run2<M>(th_convt, th_convt); }
void vh_c07_conv3() { run3<M>(th_core, th_core, th_conv); }
void vh_c07_conv3_mix() { run3<M>(th_mix, th_mix, th_conv); }
void vh_c07_convt() { run3<M>(th_climb, th_read, th_wake); }
void vh_c07_convwake() { vf_cfg_timeouts = 0; run3<M>(th_hold, th_hold, th_up); }
void vh_c07_rw() { X<V> x; vf_go(th_rw, &x); th_rw(&x); vf_joinall(); free_v(&x); }
void vh_c07_rw_timed() { X<V> x; int a = vf_choice(4); for (int i = 0; i < 3; i++) x.kind[i] = i < a ? S : W; vf_go(th_rwt, &x); vf_go(th_rwt, &x); th_rwt(&x); vf_joinall(); free_v(&x); }
}
