// C12: taking, converting and waiting for a reader/writer mutex is no interruption point, whenever the request arrives.
#pragma once
#include "shared_common.h"
#include <boost/thread/thread.hpp>
template <class M> struct IL { X<M> x; int done, other; IL() : done(0), other(0) {} };
template <class M> static void w_locks(IL<M>* z) {
  bool t = false; int c = vf_choice(3), v = vf_choice(3) * 2; v = v == 4 ? ABS : v; // LOCK, FOR, ABS
  bool got = false;
  try {
    got = take(&z->x, c, v, 80);
    if (got && c != W && vf_bool()) { int to = c == U ? W : vf_bool() ? W : U; c = strengthen(&z->x, c, to, c == U && vf_bool() ? LOCK : vf_bool() ? UNTIL : TRY, 80); }
  } catch (thread_interrupted&) { t = true; }
  vf_assert(!t, "taking or converting a lock threw thread_interrupted");
  vf_await(&z->done, 1, 0, 0, 0, 0);
  vf_assert(this_thread::interruption_requested(), "the request is still pending");
  if (got) { use(&z->x, c); release(&z->x, c); vf_reach("granted"); }
  try { this_thread::interruption_point(); } catch (thread_interrupted&) { t = true; }
  vf_assert(t, "the request is delivered at the next interruption point"); }
template <class M> static void locks() {
  IL<M> z; int c = vf_choice(3); bool held = c != U && take(&z.x, c, LOCK, 0); thread t(w_locks<M>, &z);
  t.interrupt(); gh_set(&z.done, 1); if (held) { use(&z.x, c); release(&z.x, c); }
  t.join(); all_free(&z.x); }
