// C12: locking boost::thread_v2::upgrade_mutex and shared_mutex is no interruption point.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS -DBOOST_THREAD_V2_SHARED_MUTEX=1
// ENTRY vh_c12_v2 | props=C12,C07 | weight=4 | reach=granted | bound=1 worker acquires thread_v2::upgrade_mutex (exclusive, shared or upgrade; lock, for, timed) and may convert it to something stronger while another thread holds and releases it and interrupts the worker at any moment
// ENTRY vh_c12_v2rw | props=C12,C07 | weight=3 | reach=granted | bound=1 worker acquires thread_v2::shared_mutex (exclusive or shared; lock, for, timed) while another thread holds and releases it and interrupts the worker at any moment
#include <boost/thread/v2/shared_mutex.hpp>
#include "c12_locks.h"
typedef boost::thread_v2::shared_mutex RW;
struct R { RW m; Own o; int done; R() : o(), done(0) {} };
static void w_rw(R* z) {
  bool t = false, got = false; int c = vf_bool() ? W : S, v = vf_choice(3);
  try { switch (v) { case 0: got = true; if (c == W) z->m.lock(); else z->m.lock_shared(); break;
    case 1: got = c == W ? z->m.try_lock_for(chrono::milliseconds(80)) : z->m.try_lock_shared_for(chrono::milliseconds(80)); break;
    default: got = c == W ? z->m.timed_lock(posix_time::milliseconds(80)) : z->m.timed_lock_shared(posix_time::milliseconds(80)); } }
  catch (thread_interrupted&) { t = true; }
  vf_assert(!t, "taking a lock threw thread_interrupted");
  vf_await(&z->done, 1, 0, 0, 0, 0); vf_assert(this_thread::interruption_requested(), "the request is still pending");
  if (got) { if (c == W) { gh_x(&z->o); gh_rx(&z->o); z->m.unlock(); } else { gh_s(&z->o); gh_rs(&z->o); z->m.unlock_shared(); } vf_reach("granted"); } }
extern "C" {
void vh_c12_v2() { locks<boost::thread_v2::upgrade_mutex>(); }
void vh_c12_v2rw() { R z; bool w = vf_bool(); if (w) z.m.lock(); else z.m.lock_shared(); if (w) gh_x(&z.o); else gh_s(&z.o); thread t(w_rw, &z); t.interrupt(); gh_set(&z.done, 1);
  if (w) { gh_rx(&z.o); z.m.unlock(); } else { gh_rs(&z.o); z.m.unlock_shared(); } t.join(); vf_assert(z.m.try_lock(), "the lock is free at the end"); z.m.unlock(); }
}
