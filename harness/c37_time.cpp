// C37: conversions between time types.
// ENTRY vh_c37_ns | props=C37 | weight=3 | reach=end | bound=every 64-bit nanosecond count as a duration and as a time of either clock: the field is in range, the value exact, comparison agrees
// ENTRY vh_c37_ms | props=C37 | weight=2 | reach=end | bound=rounding to milliseconds away from zero, any nanosecond count of up to 62 bits
// ENTRY vh_c37_arith | props=C37 | weight=2 | reach=end | bound=sums, differences, comparisons of any seconds of up to 32 bits, negative ones too, and nanoseconds
// ENTRY vh_c37_chrono | props=C37 | weight=2 | reach=end | bound=chrono durations and times with 5 periods, any count of up to 33 bits (thirds of seconds 31, minutes 27), negative ones too
// ENTRY vh_c37_ptime | props=C37 | weight=2 | reach=end | bound=posix_time durations of any seconds of up to 31 and microseconds of up to 40 bits, negative ones too; as a duration and as a time around 1970
// ENTRY vh_c37_xtime | props=C37 | weight=2 | reach=end | bound=xtime and system_time both ways, any seconds of up to 31 bits, negative ones too, any nanosecond; xtime_cmp
// ENTRY vh_c37_now | props=C37 | reach=end | bound=the clocks read the time of the system
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/xtime.hpp>
#include <boost/thread/thread_time.hpp>
#include <boost/thread/detail/platform_time.hpp>
using namespace boost; using namespace boost::detail; namespace pt = boost::posix_time; typedef long L; static const L G = 1000000000;
static L any(int bits) { return (L)vf_nondet(bits); }
// -2^bits <= x < 2^bits
static L sgn(int bits) { return (L)vf_nondet(bits + 1) - (1l << bits); }
template <class T> static void good(T const& t, L ns) { timespec const& s = t.getTs(); vf_assert(s.tv_nsec >= 0 && s.tv_nsec < G, "nanoseconds in range"); vf_assert(t.getNs() == ns, "the same instant"); }
extern "C" void vh_c37_ns() { L n = any(64); switch (vf_pick(3)) { case 0: good(platform_duration(n), n); break; case 1: good(real_platform_timepoint(n), n); break; default: good(mono_platform_timepoint(n), n); } vf_reach("end"); }
extern "C" void vh_c37_ms() { L n = sgn(62); platform_duration d(n); L m = d.getMs(); vf_assert(n >= 0 ? m * 1000000 >= n && m * 1000000 - n < 1000000 : m * 1000000 <= n && n - m * 1000000 < 1000000, "rounded away from zero"); L k = sgn(40); vf_assert(platform_milliseconds((long)k).getNs() == k * 1000000, "milliseconds"); vf_reach("end"); }
static timespec ts(L s, L n) { timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }
template <class T> static void arith() { L a = sgn(32), b = sgn(32), x = any(30), y = any(30); vf_assume(x < G && y < G); T p(ts(a, x)), q(ts(b, y)); L m = a * G + x, n = b * G + y; vf_assert(p.getNs() == m, "value");
  vf_assert((p == q) == (m == n) && (p != q) == (m != n) && (p < q) == (m < n) && (p <= q) == (m <= n) && (p > q) == (m > n) && (p >= q) == (m >= n), "comparison of the exact values"); }
template <class T> static void sums() { L a = sgn(32), b = sgn(32), x = any(30), y = any(30); vf_assume(x < G && y < G); T p(ts(a, x)), q(ts(b, y)); L m = a * G + x, n = b * G + y; platform_duration d(ts(b, y)); vf_assert((p - q).getNs() == m - n, "difference"); vf_assert((p + d).getNs() == m + n && (d + p).getNs() == m + n, "sum"); }
extern "C" void vh_c37_arith() { switch (vf_pick(5)) { case 0: arith<platform_duration>(); break; case 1: arith<real_platform_timepoint>(); break; case 2: arith<mono_platform_timepoint>(); break; case 3: sums<real_platform_timepoint>(); break; default: sums<mono_platform_timepoint>(); } vf_reach("end"); }
// n ticks of num/den seconds: the smallest number of nanoseconds that is not less
template <class D> static void chr(int bits, L num, L den) { L n = sgn(bits); D d((typename D::rep)n); L t = n * G * num, ns = t / den; if (t > 0 && ns * den < t) ns++;
  switch (vf_pick(3)) { case 0: good(platform_duration(d), ns); break; case 1: good(real_platform_timepoint(chrono::time_point<chrono::system_clock, D>(d)), ns); break; default: good(mono_platform_timepoint(chrono::time_point<chrono::steady_clock, D>(d)), ns); } }
extern "C" void vh_c37_chrono() { switch (vf_pick(6)) { case 0: chr<chrono::nanoseconds>(33, 1, G); break; case 1: chr<chrono::microseconds>(33, 1, 1000000); break; case 2: chr<chrono::milliseconds>(33, 1, 1000); break; case 3: chr<chrono::seconds>(33, 1, 1); break; case 4: chr<chrono::duration<int, ratio<1, 3> > >(31, 1, 3); break; default: chr<chrono::minutes>(27, 60, 1); } vf_reach("end"); }
extern "C" void vh_c37_ptime() { L s = sgn(31), u = sgn(40); L ns = s * G + u * 1000; pt::time_duration d = pt::seconds(s) + pt::microseconds(u); if (vf_pick(2)) good(platform_duration(d), ns); else good(real_platform_timepoint(pt::from_time_t(0) + d), ns); vf_reach("end"); }
extern "C" void vh_c37_xtime() { L s = sgn(31), n = any(30); vf_assume(n < G); switch (vf_pick(3)) {
  case 0: { xtime x; x.sec = s; x.nsec = n; system_time t = x; pt::time_duration e = t - pt::from_time_t(0); vf_assert(e.ticks_per_second() == 1000000, "microseconds"); vf_assert(e.total_microseconds() == s * 1000000 + (n + 500) / 1000, "to the nearest microsecond"); break; }
  case 1: { system_time t = pt::from_time_t(0) + pt::seconds(s) + pt::microseconds(n / 1000); xtime x = get_xtime(t); vf_assert(x.sec * G + x.nsec == s * G + n / 1000 * 1000, "the same instant"); if (s >= 0) vf_assert(x.nsec >= 0 && x.nsec < G, "nanoseconds in range"); break; }
  default: { L a = sgn(31), m = any(30); vf_assume(m < G); xtime x, y; x.sec = s; x.nsec = n; y.sec = a; y.nsec = m; int c = xtime_cmp(x, y); L p = s * G + n, q = a * G + m; vf_assert((c < 0) == (p < q) && (c > 0) == (p > q), "comparison of the instants"); } } vf_reach("end"); }
extern "C" void vh_c37_now() { real_platform_timepoint r = real_platform_clock::now(); mono_platform_timepoint m = mono_platform_clock::now(); vf_assert(r.getNs() == vf_now_s[0] * G + vf_now_ns[0] && m.getNs() == vf_now_s[1] * G + vf_now_ns[1], "the system's time"); system_time t = get_system_time(); vf_assert((t - pt::from_time_t(0)).total_microseconds() == vf_now_s[0] * 1000000 + vf_now_ns[0] / 1000, "the system's time"); xtime x; vf_assert(xtime_get(&x, TIME_UTC_) == TIME_UTC_ && x.sec == vf_now_s[0], "xtime"); vf_assert(xtime_get(&x, 99) == 0, "another clock"); vf_reach("end"); }
