// C42: thread attributes, the numbers of system tables.
// ENTRY vh_c42_stack | props=C42 | reach=end;min;whole;zero | bound=any requested size below 2^63, set once or twice
// ENTRY vh_c42_start | props=C42 | weight=2 | reach=end;detached;joined;default | bound=a thread started with any stack size below 2^40 and either detached state, attributes used for 1 or 2 threads
// ENTRY vh_c42_number | props=C42 | weight=3 | reach=number;refused;overflow | bound=any text of up to 11 characters without NUL
// ENTRY vh_c42_trim | props=C42 | weight=3 | reach=end;empty;inner | bound=any text of up to 8 characters
// ENTRY vh_c42_trim_t | props=C42 | tier=thorough | reach=end;empty;inner | bound=any text of up to 14 characters
// ENTRY vh_c42_cpus | props=C42 | reach=end | bound=any answer of the system about its processors
#include "vfh.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/detail/string_to_unsigned.hpp>
#include <boost/thread/detail/string_trim.hpp>
#include <climits>
using namespace boost; typedef unsigned long U;
static U want(U n, U before) { if (!n) return before; U m = n < 16384 ? 16384 : n; return (m + 4095) / 4096 * 4096; }
extern "C" void vh_c42_stack() { { thread::attributes a; U d = a.get_stack_size(); U n = vf_nondet(63); a.set_stack_size(n); vf_assert(a.get_stack_size() == want(n, d), "rounded up to whole pages, not below the minimum"); size_t s = 0; vf_assert(pthread_attr_getstacksize(a.native_handle(), &s) == 0 && s == want(n, d), "in the system's attributes"); vf_reach_if(n > 0 && n < 16384, "min"); vf_reach_if(n > 16384 && n % 4096, "whole"); vf_reach_if(!n, "zero");
    if (vf_pick(2)) { U m = vf_nondet(63); a.set_stack_size(m); vf_assert(a.get_stack_size() == want(m, want(n, d)), "the last size asked for"); } } vf_assert(vf_env_attrs == 0, "attributes released"); vf_reach("end"); }
static int ran[2]; static void body(int i); struct Run { int i; void operator()() const { body(i); } }; static void body(int i) { gh_inc(&ran[i]); }
extern "C" void vh_c42_start() { vf_cfg_timeouts = 0; ran[0] = ran[1] = 0; int det = vf_pick(2), two = vf_pick(2), set = vf_pick(2); U n = 0, d; { thread::attributes a; d = a.get_stack_size(); if (set) { n = vf_nondet(40); a.set_stack_size(n); } else vf_reach("default"); if (det) vf_assert(pthread_attr_setdetachstate(a.native_handle(), PTHREAD_CREATE_DETACHED) == 0, "set");
    for (int i = 0; i <= two; i++) { Run f = {i}; thread t(a, f); vf_assert(vf_env_stacksize == want(n, d), "the thread gets the stack size asked for"); vf_assert(vf_env_detachstate == det, "the thread gets the detached state asked for"); vf_assert(t.joinable() == !det, "joinable unless detached"); if (det) { vf_reach("detached"); vf_assert(t.get_id() == thread::id(), "no thread is represented"); } else { t.join(); vf_assert(gh_get(&ran[i]) == 1, "ran"); vf_reach("joined"); } } }
  vf_assert(vf_env_attrs == 0, "attributes released"); vf_await(&vf_env_threads, 0, 0, 0, 0, 0); vf_assert(vf_env_joined == (det ? 0 : 1 + two) && vf_env_detached == 0, "joined exactly when it was not detached"); vf_assert(ran[0] == 1 && ran[1] == two, "each thread runs its function once"); vf_reach("end"); }
extern "C" void vh_c42_number() { char b[12]; int n = vf_pick(12); bool all = n > 0; U v = 0; for (int i = 0; i < n; i++) { b[i] = (char)vf_nondet(8); vf_assume(b[i] != 0); } std::string s(b, n); unsigned r = 77; bool ok = thread_detail::string_to_unsigned(s, r);
  for (int i = 0; i < n; i++) { bool dig = b[i] >= '0' && b[i] <= '9'; all = all & dig; v = v * 10 + (U)(dig ? b[i] - '0' : 0); } bool w = all && v <= UINT_MAX; vf_assert(ok == w, "accepts exactly the decimal numbers that fit"); if (ok) { vf_assert(r == v, "the value"); vf_reach("number"); } else { vf_reach("refused"); vf_reach_if(all, "overflow"); } }
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static void trim(int max) { char b[16]; int n = vf_pick(max + 1); for (int i = 0; i < n; i++) b[i] = (char)vf_nondet(8); std::string s(b, n), r = thread_detail::string_trim(s); int lo = n, hi = 0; for (int i = n - 1; i >= 0; i--) lo = ws(b[i]) ? lo : i; for (int i = 0; i < n; i++) hi = ws(b[i]) ? hi : i + 1; int len = lo < hi ? hi - lo : 0;
  vf_assert((int)r.size() == len, "white space at both ends removed, nothing else"); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (k == i + lo) vf_assert(i >= len || r[i] == b[k], "the text between is kept"); vf_assert(s.size() == (size_t)n, "argument untouched"); vf_reach("end"); if (!len) vf_reach("empty"); for (int i = 1; i + 1 < n; i++) vf_reach_if((lo < i) & (hi > i + 1) & ws(b[i]), "inner"); }
extern "C" void vh_c42_trim() { trim(8); }
extern "C" void vh_c42_trim_t() { trim(14); }
extern "C" void vh_c42_cpus() { vf_env_cpus = (int)vf_nondet(32); unsigned c = thread::hardware_concurrency(); vf_assert(c == (vf_env_cpus > 0 ? (unsigned)vf_env_cpus : 0u), "the number the system gives, 0 when it gives none"); vf_reach("end"); }
