// Condition variables: common to C08-C10.
#pragma once
#include "vfh.h"
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread_time.hpp>
using namespace boost;
static const long MONO = 5000000, REAL = 1000000000;
#define TP(d) chrono::steady_clock::time_point(chrono::milliseconds(MONO + (d)))
#define SYS(d) chrono::system_clock::time_point(chrono::milliseconds(REAL + (d)))
#define PT(d) (posix_time::from_time_t(1000000) + posix_time::milliseconds(d))
// manner of waiting: 0 wait; the others have a limit
enum { WAIT, FOR, UNTIL, UNTILSYS, REL, ABS };
static int clk_of(int f) { return f == WAIT ? -1 : f == UNTILSYS || f == ABS ? 0 : 1; }
static long limit(int f, long d) { return (f == UNTIL ? MONO : f == UNTILSYS || f == ABS ? REAL : gh_ms(1)) + d; }
template <class CV, class K, class P> static bool wait_pred(CV& cv, K& lk, int f, long d, P p) {
  switch (f) { case WAIT: cv.wait(lk, p); return true; case FOR: return cv.wait_for(lk, chrono::milliseconds(d), p); case UNTIL: return cv.wait_until(lk, TP(d), p); case UNTILSYS: return cv.wait_until(lk, SYS(d), p); case REL: return cv.timed_wait(lk, posix_time::milliseconds(d), p); default: return cv.timed_wait(lk, PT(d), p); } }
// true: no time-out reported
template <class CV, class K> static bool wait_plain(CV& cv, K& lk, int f, long d) {
  switch (f) { case WAIT: cv.wait(lk); return true; case FOR: return cv.wait_for(lk, chrono::milliseconds(d)) == cv_status::no_timeout; case UNTIL: return cv.wait_until(lk, TP(d)) == cv_status::no_timeout; case UNTILSYS: return cv.wait_until(lk, SYS(d)) == cv_status::no_timeout; case REL: return cv.timed_wait(lk, posix_time::milliseconds(d)); default: return cv.timed_wait(lk, PT(d)); } }
