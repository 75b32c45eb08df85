// C04-C06: boost::shared_mutex.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
// ENTRY vh_c05_together | props=C05,C06 | weight=5 | reach=owners next to the first one;owners let in at once | bound=3 threads on boost::shared_mutex: one holds exclusive or upgrade ownership and releases or weakens it (to upgrade or shared), two wait for compatible ownership (shared, or one shared and one upgrade) and must own the lock at the same time as each other and as the first thread
// ENTRY vh_c05_together3 | props=C05,C06 | weight=5 | reach=owners next to the first one;owners let in at once | bound=4 threads on boost::shared_mutex: one holds exclusive or upgrade ownership and releases or weakens it (to upgrade or shared), three wait for compatible ownership (shared, at most one upgrade) and must own the lock at the same time as one another and as the first thread
// ENTRY vh_c04_api | props=C04,C03 | reach=exclusive timed out;shared timed out;upgrade timed out;past deadline ok;exclusive after waiting;shared with others | bound=2 threads x 1 acquisition: exclusive, shared or upgrade, each by lock, try, try_for, try_until (steady, system), timed (relative, absolute); deadlines in the past or future; every time-out schedule
// ENTRY vh_c04_core | props=C04 | weight=5 | reach=exclusive after waiting;shared with others;upgrade with others | bound=3 threads x 1 acquisition: exclusive, shared, upgrade by lock or try_lock
// ENTRY vh_c04_race | props=C04,C40 | reach=exclusive after waiting;shared with others | bound=2 threads x 1 acquisition of any kind by lock or try_lock, all accesses checked for races
// ENTRY vh_c04_two | props=C04 | tier=thorough | reach=exclusive after waiting | bound=2 threads x 2 acquisitions: exclusive, shared, upgrade by lock or try_lock
// ENTRY vh_c05_wake | props=C05 | weight=9 | reach=exclusive after waiting;shared with others;upgrade with others | bound=3 threads x 1 acquisition of any kind by blocking or timed operations that never time out: a waiter that is not woken is a deadlock
// ENTRY vh_c05_timed | props=C05,C03 | weight=9 | reach=exclusive timed out;exclusive after waiting | bound=3 threads x 1 acquisition of any kind, blocking or timed; a waiter that gives up must not leave others asleep
// ENTRY vh_c05_held | props=C05,C06,C03 | weight=6 | reach=exclusive gave up;conversion gave up;granted next to the first owner | bound=3 threads: one keeps shared or upgrade ownership, one gives up waiting for exclusive ownership or a conversion (every timed operation), one waits behind it and must be granted its ownership meanwhile
// ENTRY vh_c06_two | props=C06,C03 | reach=conversion timed out;upgrade to exclusive;shared to exclusive;shared to upgrade;downgrade | bound=2 threads, each 1 acquisition and 1 conversion (weakening, blocking upgrade, timed for/until conversions with past or future deadline)
// ENTRY vh_c06_three | props=C06 | weight=9 | reach=upgrade to exclusive;shared to exclusive;shared to upgrade;downgrade | bound=3 threads: one acquires and converts (blocking or try), two acquire by lock or try_lock
// ENTRY vh_c06_mix | props=C06 | weight=9 | tier=thorough | reach=upgrade to exclusive;shared to exclusive;shared to upgrade;downgrade | bound=3 threads: one acquires and converts (blocking or try), two acquire, or acquire and convert
// ENTRY vh_c05_wake_all | props=C05 | weight=9 | tier=thorough | reach=exclusive after waiting | bound=as vh_c05_wake without the symmetry order on kinds
// ENTRY vh_c05_timed_all | props=C05 | weight=9 | tier=thorough | reach=exclusive after waiting | bound=as vh_c05_timed without the symmetry order on kinds
// ENTRY vh_c06_wake | props=C05,C06 | reach=upgrade to exclusive;shared to exclusive;shared to upgrade | bound=3 threads: one waits for a stronger kind of ownership with operations that never time out, two take, weaken and give back ownership
// ENTRY vh_c06_race | props=C06,C40 | reach=upgrade to exclusive | bound=2 threads, each 1 acquisition and 1 conversion, all accesses checked for races
#include <boost/thread/shared_mutex.hpp>
#include "shared_common.h"
typedef boost::shared_mutex M;
extern "C" {
void vh_c04_api() { run2<M>(th_api, th_api); }
void vh_c04_core() { run3s<M>(th_core_s); }
void vh_c04_race() { run2<M>(th_core, th_core); }
void vh_c04_two() { run2<M>(th_two, th_two); }
void vh_c05_wake() { vf_cfg_timeouts = 0; run3s<M>(th_wake_s); }
void vh_c05_wake_all() { vf_cfg_timeouts = 0; run3<M>(th_wake, th_wake, th_wake); }
void vh_c05_held() { held<M>(); }
void vh_c05_together() { vf_cfg_timeouts = 0; together<M, 2>(); }
void vh_c05_together3() { vf_cfg_timeouts = 0; together<M, 3>(); }
void vh_c05_timed() { run3s<M>(th_timed_s); }
void vh_c05_timed_all() { run3<M>(th_timed, th_timed, th_timed); }
void vh_c06_two() { run2<M>(th_convt, th_convt); }
void vh_c06_three() { run3<M>(th_core, th_core, th_conv); }
void vh_c06_mix() { run3<M>(th_mix, th_mix, th_conv); }
void vh_c06_wake() { vf_cfg_timeouts = 0; run3<M>(th_hold, th_hold, th_up); }
void vh_c06_race() { run2<M>(th_conv, th_conv); }
}
