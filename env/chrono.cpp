// boost.chrono's clocks over the model's clock_gettime (boost.chrono itself is a dependency, not the subject)
#include <boost/chrono/system_clocks.hpp>
#include <time.h>
namespace boost { namespace chrono {
static inline long long rdclk(int id) { struct timespec ts; clock_gettime(id, &ts); return (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec; }
steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(duration(rdclk(CLOCK_MONOTONIC))); }
steady_clock::time_point steady_clock::now(system::error_code& ec) { ec.clear(); return now(); }
system_clock::time_point system_clock::now() BOOST_NOEXCEPT { return time_point(duration(rdclk(CLOCK_REALTIME))); }
system_clock::time_point system_clock::now(system::error_code& ec) { ec.clear(); return now(); }
std::time_t system_clock::to_time_t(const system_clock::time_point& t) BOOST_NOEXCEPT { return (std::time_t)(t.time_since_epoch().count() / 1000000000LL); }
system_clock::time_point system_clock::from_time_t(std::time_t t) BOOST_NOEXCEPT { return time_point(duration((long long)t * 1000000000LL)); }
} }
