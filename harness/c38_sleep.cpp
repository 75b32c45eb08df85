// C38: sleeping.
// ENTRY vh_c38_past | props=C38 | reach=end | bound=12 ways to sleep for or until any of 0 to 127 ms, 2^20 ms or a day ago: no wait
// ENTRY vh_c38_sleep | props=C38,C03 | weight=3 | reach=end | bound=12 ways to sleep for or until 1 to 16 (any), 150 or 1100 ms, with 150 and 1100 one spurious wake-up or signal
// ENTRY vh_c38_units | props=C38,C37 | weight=2 | reach=end | bound=periods of 1 ns, 1 us, 1/3 ms, 1/7 s, 1 s; 32- and 64-bit counts
// ENTRY vh_c38_jump | props=C38 | weight=3 | reach=end;jumped | bound=system clock set forward 2 h or back 200 ms once at any clock reading, 12 ways, 80 or 150 ms
// ENTRY vh_c38_intr | props=C38,C11,C12 | weight=3 | reach=end;interrupted;slept;pending | bound=12 ways, a second thread interrupts at any time, interruption enabled or disabled
// ENTRY vh_c38_race | props=C38,C40 | reach=end | bound=a thread sleeps, another interrupts it
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/xtime.hpp>
using namespace boost; typedef chrono::steady_clock SC; typedef chrono::system_clock YC; typedef chrono::milliseconds ms; namespace pt = boost::posix_time; namespace tt = boost::this_thread; namespace ni = boost::this_thread::no_interruption_point;
extern "C" { static __attribute__((noinline)) long gh_ns(int c) { return vf_now_s[c] * 1000000000L + vf_now_ns[c]; } }
enum { NW = 12 };
// the clock that decides, and whether the way can be interrupted
static bool sys(int w) { return w == 2 || w == 4 || w == 5 || w == 8 || w == 10; }
static bool intr(int w) { return w < 6; }
static void nap(int w, long d) { switch (w) {
  case 0: tt::sleep_for(ms(d)); break; case 1: tt::sleep_until(SC::now() + ms(d)); break; case 2: tt::sleep_until(YC::now() + ms(d)); break;
  case 3: tt::sleep(pt::milliseconds(d)); break; case 4: tt::sleep(get_system_time() + pt::milliseconds(d)); break; case 5: thread::sleep(get_system_time() + pt::milliseconds(d)); break;
  case 6: ni::sleep_for(ms(d)); break; case 7: ni::sleep_until(SC::now() + ms(d)); break; case 8: ni::sleep_until(YC::now() + ms(d)); break;
  case 9: ni::sleep(pt::milliseconds(d)); break; case 10: ni::sleep(get_system_time() + pt::milliseconds(d)); break; default: ni::sleep_for(chrono::duration<int, ratio<1, 2000> >((int)(2 * d))); } }
static void lasted(long t0, long t1, long ns) { vf_assert(t1 - t0 >= ns, "never returns early"); vf_assert(t1 - t0 <= ns + 1000, "returns when the time has come"); }
extern "C" void vh_c38_past() { int w = vf_pick(NW); int k = vf_pick(3); long d = k == 0 ? -(long)vf_nondet(7) : k == 1 ? -1048576 : -86400001; long t = gh_ns(1); nap(w, d); vf_assert(gh_ns(1) == t, "returns at once"); vf_reach("end"); }
extern "C" void vh_c38_sleep() { int w = vf_pick(NW), k = vf_pick(3); vf_cfg_spurious = k > 0; long d = k == 0 ? (long)vf_nondet(4) + 1 : k == 1 ? 150 : 1100; long t = gh_ns(1); nap(w, d); lasted(t, gh_ns(1), d * 1000000); vf_reach("end"); }
template <class D> static void units(long n, long ns) { int w = vf_pick(4); typedef typename D::rep R; D d((R)n); long t = gh_ns(1); switch (w) { case 0: tt::sleep_for(d); break; case 1: ni::sleep_for(d); break; case 2: tt::sleep_until(SC::now() + d); break; default: ni::sleep_until(YC::now() + d); } lasted(t, gh_ns(1), ns); }
extern "C" void vh_c38_units() { long n = (long)vf_nondet(4) + 1; switch (vf_pick(6)) { case 0: units<chrono::nanoseconds>(n, n); break; case 1: units<chrono::duration<int, micro> >(n, n * 1000); break; case 2: units<chrono::duration<long, ratio<1, 3000> > >(3 * n, n * 1000000); break; case 3: units<chrono::duration<int, ratio<1, 7> > >(1, 142857143); break; case 4: units<chrono::duration<long, ratio<1, 3000> > >(1, 333334); break; default: units<chrono::duration<int> >(1, 1000000000); } vf_reach("end"); }
extern "C" void vh_c38_jump() { vf_cfg_clockjump = 1; int w = vf_pick(NW); long d = vf_pick(2) ? 80 : 150; long t = gh_ns(1), y = gh_ns(0); nap(w, d); int j = 1 - vf_cfg_clockjump; if (!sys(w)) lasted(t, gh_ns(1), d * 1000000); else { vf_assert(gh_ns(0) - y >= (d - 200) * 1000000, "never before the clock reads the time asked for"); vf_assert(gh_ns(1) - t <= (d + 200 + 100) * 1000000, "at most one polling interval late"); } if (j) vf_reach("jumped"); vf_reach("end"); }
struct X { thread* t; int w, dis, done, threw, called; long from, to; };
static X* gx;
static void sleeper() { X& x = *gx; tt::disable_interruption* di = x.dis ? new tt::disable_interruption : 0; x.from = gh_ns(1); try { nap(x.w, 80); } catch (thread_interrupted&) { x.threw = 1; } x.to = gh_ns(1); vf_assert(!x.threw || (intr(x.w) && !x.dis), "not an interruption point"); vf_assert(!x.threw || gh_get(&x.called), "interrupted though nobody asked"); if (!x.threw) { vf_assert(x.to - x.from >= 80 * 1000000, "never returns early"); } vf_reach_if(x.threw, "interrupted"); vf_reach_if(!x.threw, "slept"); bool p = tt::interruption_requested(); vf_assert(!p || gh_get(&x.called), "pending though nobody asked"); vf_reach_if(p && !x.threw, "pending"); vf_assert(!(p && x.threw), "the request is used up"); delete di; }
extern "C" void vh_c38_intr() { X x = X(); gx = &x; x.w = vf_pick(NW); x.dis = vf_pick(2); thread t(sleeper); x.called = 1; t.interrupt(); t.join(); vf_reach("end"); }
static void plain() { try { tt::sleep_for(ms(80)); } catch (thread_interrupted&) {} }
extern "C" void vh_c38_race() { thread t(plain); t.interrupt(); t.join(); vf_reach("end"); }
