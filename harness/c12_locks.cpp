// C12: locking boost::shared_mutex is no interruption point.
// FLAGS -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
// ENTRY vh_c12_shared | props=C12 | weight=4 | reach=granted | bound=1 worker acquires boost::shared_mutex (exclusive, shared or upgrade; lock, for, timed) and may convert it to something stronger while another thread holds and releases it and interrupts the worker at any moment
#include <boost/thread/shared_mutex.hpp>
#include "c12_locks.h"
extern "C" void vh_c12_shared() { locks<shared_mutex>(); }
