#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json,os
P=[]
I="include/boost/thread/"
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith("src") else I+f for f in files],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Exclusive mutexes: mutual exclusion and progress",
 "At most one thread owns a mutex, try_mutex or timed_mutex at any time, whichever of lock, try_lock and the timed lock calls acquired it. try_lock on an unowned mutex succeeds and on an owned one fails without blocking or changing ownership, and every thread blocked in lock proceeds once the owner unlocks.",
 ["schedules"],"every interleaving of concurrent lock/try_lock/timed lock/unlock callers",
 "mutex tests are single-threaded or rely on sleeps; they sample one interleaving per run",
 ["pthread/mutex.hpp"],[("mutex::lock/try_lock/unlock","pthread/mutex.hpp"),("timed_mutex::do_try_lock_until","pthread/mutex.hpp")],
 obs=["owners inside the critical section"])
p("C02","Recursive mutexes: counted ownership",
 "The owner of a recursive_mutex, recursive_try_mutex or recursive_timed_mutex can acquire it again without blocking, by lock, try_lock or a timed lock. The mutex becomes available to another thread only after exactly as many unlocks as successful acquisitions, and then it does become available.",
 ["schedules","histories"],"every interleaving and every sequence of acquire/release operations of bounded length",
 "tests use one nesting depth and one schedule",
 ["pthread/recursive_mutex.hpp"],[("recursive_mutex","pthread/recursive_mutex.hpp"),("recursive_timed_mutex::is_locked/owner/count","pthread/recursive_mutex.hpp")])
p("C03","Timed lock attempts: result matches ownership and deadline",
 "A timed lock attempt (timed_lock, try_lock_for, try_lock_until and their shared and upgrade forms) returns true exactly when it acquired ownership. It returns false only once its deadline has passed on the clock it was given in, leaves no ownership and no residue behind in that case, and an available lock is acquired even if the deadline has already passed.",
 ["schedules","inputs"],"every interleaving of timeouts with releases, and every deadline value",
 "tests sample a few deadlines with generous tolerances; the race between timeout and release is never exercised",
 ["pthread/mutex.hpp","pthread/recursive_mutex.hpp","pthread/shared_mutex.hpp","detail/platform_time.hpp"],
 [("do_try_lock_until","pthread/mutex.hpp"),("try_lock_until loops","pthread/recursive_mutex.hpp"),("wait_until with predicate","pthread/shared_mutex.hpp")])
p("C04","shared_mutex: reader/writer/upgrade exclusion",
 "While a thread owns a shared_mutex exclusively no other thread owns it in any mode; any number of threads may own it shared, and at most one of the non-exclusive owners holds upgrade ownership. This holds whichever of the blocking, try, timed and converting operations granted the ownership.",
 ["schedules"],"every interleaving of lock, try, timed and conversion operations by concurrent threads",
 "tests sample a few schedules with sleeps",
 ["pthread/shared_mutex.hpp"],[("state_data predicates","pthread/shared_mutex.hpp"),("shared_mutex lock/unlock families","pthread/shared_mutex.hpp")],
 state=[("state","shared count, exclusive, upgrade and exclusive_waiting_blocked flags","pthread/shared_mutex.hpp")])
p("C05","shared_mutex: every blocked acquisition is eventually granted",
 "A thread blocked acquiring a shared_mutex in any mode, or converting its ownership, is woken and granted it once the conflicting ownerships have been released; no release, downgrade, conversion or failed attempt leaves a waiter asleep while its request could be granted. Failed try and timed attempts leave the lock as usable as before.",
 ["schedules"],"every interleaving of releases, conversions, timeouts and waiters",
 "a lost wake-up shows only in one interleaving, and then as a hang",
 ["pthread/shared_mutex.hpp"],[("release_waiters","pthread/shared_mutex.hpp"),("shared_cond/upgrade_cond/exclusive_cond","pthread/shared_mutex.hpp")])
p("C06","shared_mutex: ownership conversions are atomic",
 "Converting between shared, upgrade and exclusive ownership never lets another thread acquire conflicting ownership in between: data read under upgrade ownership is unchanged when the upgrade to exclusive completes, and a downgrade lets no writer in before the weaker ownership is established. A try conversion that fails keeps the original ownership, and one that succeeds replaces it.",
 ["schedules"],"every interleaving of a conversion with other threads' acquisitions",
 "tests only check the return values of conversions on an uncontended lock",
 ["pthread/shared_mutex.hpp"],[("unlock_upgrade_and_lock, unlock_and_lock_upgrade, ...","pthread/shared_mutex.hpp")])
p("C07","v2 shared_mutex / upgrade_mutex: exclusion and progress",
 "The alternative boost::thread_v2 shared_mutex and upgrade_mutex never grant exclusive ownership together with any other ownership nor two upgrade ownerships, across blocking, try, timed and converting operations. Every blocked request is granted once the conflicting ownerships have been released, and failed attempts change nothing.",
 ["schedules","histories"],"every interleaving of concurrent operations and every bounded sequence of operations",
 "this implementation has only compile-level and single-schedule tests",
 ["v2/shared_mutex.hpp"],[("state_ bits, gate1_, gate2_","v2/shared_mutex.hpp")])
p("C08","condition variables: no lost notification",
 "Waiting on a condition_variable or condition_variable_any releases the lock and starts waiting atomically with respect to notifiers that hold the lock. notify_one wakes at least one thread that is waiting, notify_all wakes all of them, and a predicate wait returns only with the predicate true.",
 ["schedules"],"every interleaving of waiters and notifiers, with spurious wake-ups at any point",
 "lost wake-ups need a specific interleaving and show up as hangs; tests use sleeps",
 ["pthread/condition_variable.hpp","pthread/condition_variable_fwd.hpp"],
 [("interruption_checker / lock_on_exit","pthread/condition_variable.hpp"),("relocker","pthread/condition_variable_fwd.hpp")])
p("C09","condition variables: the lock is held again on every exit",
 "When any wait on a condition_variable or condition_variable_any ends, normally, by timeout, by interruption or by an exception, the caller's lock is owned by the caller again and no internal lock remains held. Calling wait without owning the lock is reported and does not wait.",
 ["schedules","fault_sequences"],"every way a wait can end, at every point where it can be interrupted or fail",
 "the interleavings of interruption, timeout and notification are not controlled by tests",
 ["pthread/condition_variable.hpp","pthread/thread_data.hpp"],
 [("lock_on_exit","pthread/condition_variable.hpp"),("interruption_checker","pthread/thread_data.hpp")])
p("C10","Timed condition waits: truthful result",
 "A timed wait on a condition variable reports timeout only once the deadline has passed on the clock it was expressed in, and it ends after the deadline even without a notification. The predicate forms return the predicate's value at the time of return, and a relative wait never waits on a different clock than it promises when the system time is changed.",
 ["schedules","inputs"],"every deadline value, clock change and interleaving of notification with timeout",
 "tests use a few durations on an unchanged clock with tolerances",
 ["pthread/condition_variable.hpp","pthread/condition_variable_fwd.hpp","detail/platform_time.hpp"],
 [("wait_until loops and do_wait_until","pthread/condition_variable_fwd.hpp")])
p("C11","Interruption: delivered exactly once, never lost or invented",
 "A call to thread::interrupt makes the target throw thread_interrupted from exactly one interruption point: the one it is blocked in, or the next one it executes with interruption enabled. No thread that was not interrupted throws it, and a request made while the target is entering a blocking interruption point still wakes it.",
 ["schedules"],"every interleaving of interrupt with the target's progress through interruption points",
 "the window between the check and the blocking wait is never hit on purpose",
 ["pthread/thread_data.hpp","detail/thread_interruption.hpp","pthread/condition_variable.hpp"],
 [("interruption_checker","pthread/thread_data.hpp"),("thread::interrupt, this_thread::interruption_point","src/pthread/thread.cpp")],
 state=[("interrupt_requested","pending request of a thread","pthread/thread_data.hpp"),("current_cond","condition the thread is blocked on","pthread/thread_data.hpp")])
p("C12","Interruption scopes: disable and restore nest correctly",
 "While a disable_interruption object is alive no interruption point of that thread throws, and a request made meanwhile stays pending and is delivered after interruption is enabled again. Nested disable_interruption and restore_interruption objects reinstate the previous state on destruction, and operations documented not to be interruption points never throw thread_interrupted.",
 ["histories","schedules"],"every nesting of the scopes and every placement of the request",
 "tests cover one nesting",
 ["detail/thread_interruption.hpp","pthread/thread_data.hpp"],[("disable_interruption/restore_interruption","src/pthread/thread.cpp")])
p("C13","barrier: full rendezvous per generation",
 "No thread passes a barrier before the configured number of threads has arrived in that generation, and then all of them pass. In every generation exactly one caller is told it is the elected one, a completion function runs exactly once before any waiter is released, and the barrier is immediately reusable even while earlier waiters are still leaving.",
 ["schedules"],"every interleaving of arrivals over several generations, with spurious wake-ups",
 "tests run one generation under the OS schedule",
 ["barrier.hpp"],[("m_count/m_generation","barrier.hpp")])
p("C14","latch and completion_latch: release exactly at zero",
 "A wait on a latch or completion_latch returns only after the count has reached zero and does return then; timed and try waits report truthfully whether it did. Counting down below zero never succeeds silently. The completion function of a completion_latch runs exactly once, in the thread whose count_down reaches zero and before any waiter is released; that count_down waits until at least one thread has come to wait, so that the latch can be reused.",
 ["schedules"],"every interleaving of count_down, waiters and resets within the bound",
 "tests sample one schedule",
 ["latch.hpp","completion_latch.hpp","detail/counter.hpp"],[("latch::count_down/wait","latch.hpp"),("completion_latch::count_down","completion_latch.hpp")])
p("C15","call_once: exactly one successful execution",
 "For each once_flag exactly one call_once caller completes the function normally and no other caller returns before it has completed. If an execution throws, its caller sees the exception and the function is run again by another waiting or later caller; the arguments reach the function unchanged.",
 ["schedules","fault_sequences"],"every interleaving of callers and every pattern of throwing executions",
 "the test races threads but cannot choose the interleaving, nor the order of failures",
 ["pthread/once_atomic.hpp","once.hpp","src/pthread/once_atomic.cpp"],[("enter_once_region/commit/rollback","src/pthread/once_atomic.cpp")])
p("C16","Futures: a result is set once and delivered unchanged",
 "The value or exception stored through a promise is what every associated future delivers, exactly once set: a second attempt to set a result, or to retrieve the future, fails with the documented error and changes nothing. Every thread blocked in get, wait or a timed wait is released when the result is stored, and none sees a result before.",
 ["schedules","histories"],"every interleaving of setters and waiters and every sequence of operations",
 "tests check sequential calls; the race between set and wait or of two setters is not controlled",
 ["future.hpp","futures/future_status.hpp"],[("shared_state::mark_finished_with_result_internal","future.hpp"),("shared_state_base::wait","future.hpp")],
 state=[("done","result available","future.hpp")])
p("C17","Abandoned results: broken_promise instead of a hang",
 "If a promise or a packaged_task is destroyed, reassigned or its thread ends without having produced a result, every waiter on the associated future is released and get throws broken_promise. A promise or task that has produced a result, or whose state was moved elsewhere, breaks nothing.",
 ["schedules","histories"],"every interleaving of the abandonment with waiters and every move history",
 "tests check only the sequential case",
 ["future.hpp"],[("~promise / ~packaged_task / owner_destroyed","future.hpp")])
p("C18","Future handles: validity, move, share and shared delivery",
 "valid(), is_ready, has_value, has_exception and get_state tell the truth after every sequence of moves, swaps, get, share and assignment. All copies of a shared_future deliver the same result to any number of threads any number of times, while a unique future hands its result out once.",
 ["histories","schedules"],"every operation sequence of bounded length and concurrent use of shared_future copies",
 "tests check a handful of sequences",
 ["future.hpp"],[("basic_future","future.hpp"),("shared_future","future.hpp")])
p("C19","packaged_task and async: run once, outcome captured",
 "A packaged_task runs its function once per invocation and stores its result or exception in its future; running it again without reset fails. async runs the function exactly once, on another thread for launch::async and in the first waiter for launch::deferred, with the given arguments, its outcome is what the future delivers, and the last future of an async task waits for it.",
 ["schedules","histories"],"every interleaving of task execution with waiters, and every outcome",
 "tests sample one schedule per call",
 ["future.hpp"],[("task_base_shared_state::run","future.hpp"),("future_async_shared_state, future_deferred_shared_state","future.hpp")])
p("C20","Continuations and unwrap: run once after readiness",
 "A continuation attached with then (or fallback_to) is called exactly once, after its antecedent is ready, whether that happens before, during or after attaching it, and receives the ready antecedent. Its result or exception is delivered by the returned future, and an unwrapped future delivers the inner outcome.",
 ["schedules"],"every interleaving of attaching a continuation with the completion of its antecedent",
 "the race between then and set_value is not controlled by the tests",
 ["future.hpp"],[("shared_state_base::continuations, do_continuation","future.hpp"),("future_sync_continuation_shared_state and siblings","future.hpp")])
p("C21","when_all, when_any, wait_for_all, wait_for_any",
 "when_all and wait_for_all complete exactly when all the given futures are ready, when_any and wait_for_any when at least one is, and they do complete then. The result holds all the given futures in order and delivers their outcomes, wait_for_any returns the position of a ready future, and no waiter list is left registered afterwards.",
 ["schedules"],"every order and interleaving of completions of the input futures",
 "tests complete the inputs in one order",
 ["future.hpp","futures/wait_for_all.hpp","futures/wait_for_any.hpp"],[("future_waiter","futures/wait_for_any.hpp"),("future_when_all_vector_shared_state","future.hpp")])
p("C22","Thread-exit actions run once, at thread exit",
 "set_value_at_thread_exit, set_exception_at_thread_exit, make_ready_at_thread_exit and notify_all_at_thread_exit take effect exactly once, after the thread's function and its thread-specific objects are finished with, and never before. Functions registered with at_thread_exit run exactly once each when the thread ends, whether it ends normally or by interruption.",
 ["schedules","histories"],"every interleaving of the exiting thread with observers",
 "tests observe after sleeping, one schedule",
 ["future.hpp","pthread/thread_data.hpp"],[("run_thread_exit_callbacks","src/pthread/thread.cpp"),("thread_data_base::~thread_data_base","src/pthread/thread.cpp")])
p("C23","thread: runs once, join means finished",
 "A successfully constructed thread runs its function exactly once with copies of its arguments; join returns only after it has finished and does return then, and a timed join returns true exactly in that case. joinable, get_id, detach, move and swap track the one thread a handle stands for; joining a handle that stands for none, or oneself, fails with the documented error, and an exception other than interruption terminates the program.",
 ["schedules","histories"],"every interleaving of the new thread with join, timed join, detach and destruction",
 "thread tests sample the schedule",
 ["detail/thread.hpp","pthread/thread_data.hpp","src/pthread/thread.cpp"],[("thread_proxy, start_thread_noexcept, join_noexcept, do_try_join_until_noexcept","src/pthread/thread.cpp")])
p("C24","thread_group and scoped thread wrappers",
 "thread_group creates, adds, removes and joins exactly the threads it was given and reports membership truthfully; join_all returns only after all of them have finished and interrupt_all requests the interruption of each; the group may be changed by one thread while another asks about it or interrupts it. scoped_thread, strict_scoped_thread and thread_guard apply their functor exactly once to a joinable thread on destruction, and before taking over another one, and nothing to one that was moved away or joined.",
 ["schedules","histories"],"every interleaving of members finishing with the group operations",
 "tests sample one schedule",
 ["detail/thread_group.hpp","scoped_thread.hpp","thread_guard.hpp","thread_functors.hpp"],[("thread_group","detail/thread_group.hpp"),("strict_scoped_thread/scoped_thread","scoped_thread.hpp")])
p("C25","thread_specific_ptr: per-thread isolation and cleanup",
 "Each thread sees only the value it stored itself in a thread_specific_ptr. The cleanup function runs exactly once, in the owning thread, for each non-null value replaced by reset or still stored at thread exit, never for a released value or for a value reset to itself, and values stored by cleanup functions are cleaned up as well.",
 ["schedules","histories"],"every operation sequence of bounded length over several pointers and threads",
 "tests cover a few fixed sequences",
 ["tss.hpp","src/pthread/thread.cpp"],[("set_tss_data, tls_destructor","src/pthread/thread.cpp")])
p("C26","Lock objects: ownership state is exact",
 "After every operation, owns_lock of a unique_lock, shared_lock or upgrade_lock equals the ownership it really holds, and destruction, move, swap, release and conversion release or pass on that ownership exactly once. Operations that the state does not permit throw the documented lock_error and change nothing.",
 ["histories"],"every bounded sequence of operations on lock objects, with any results of the underlying lock",
 "tests check single operations, not their compositions",
 ["lock_types.hpp"],[("unique_lock/shared_lock/upgrade_lock/upgrade_to_unique_lock","lock_types.hpp")])
p("C27","Multi-lock algorithms: all or nothing, no deadlock",
 "lock() on several lockables, or a range, returns with all of them locked and cannot deadlock whatever order other threads lock them in. try_lock returns -1 (or the end of the range) with all locked, or the position of one that was unavailable with none of them locked, and if a lock attempt throws none remains locked.",
 ["schedules","fault_sequences"],"every interleaving with competing threads, every pattern of availability and of throwing lock attempts",
 "tests use a few fixed availability patterns and one schedule",
 ["lock_algorithms.hpp","detail/lockable_wrapper.hpp"],[("lock_helper/try_lock_internal/range_lock_guard","lock_algorithms.hpp")])
p("C28","Scoped lock helpers pair lock and unlock",
 "lock_guard, strict_lock, nested_strict_lock, shared_lock_guard, reverse_lock, with_lock_guard and the lock factories acquire (or adopt) on entry and restore on exit exactly once, on normal and exceptional exit alike. Precondition violations are reported by lock_error without changing any ownership.",
 ["histories","fault_sequences"],"every exit path and option, with any behaviour of the underlying lockable",
 "tests only take the normal exit",
 ["lock_guard.hpp","strict_lock.hpp","shared_lock_guard.hpp","reverse_lock.hpp","with_lock_guard.hpp","lock_factories.hpp"],[("lock_guard","lock_guard.hpp"),("nested_strict_lock","strict_lock.hpp"),("reverse_lock","reverse_lock.hpp")])
p("C29","Lockable adapters forward faithfully",
 "poly_lockable, poly_shared_lockable, lockable_adapter, testable_mutex and null_mutex perform on the wrapped lock exactly the operation that was asked for, with the same deadline and the same result. testable_mutex reports the calling thread as owner exactly while it owns the mutex.",
 ["histories","inputs","schedules"],"every operation, result and deadline of the wrapped lock",
 "these adapters are mostly only compiled by the tests",
 ["poly_lockable.hpp","poly_lockable_adapter.hpp","poly_shared_lockable.hpp","poly_shared_lockable_adapter.hpp","lockable_adapter.hpp","testable_mutex.hpp","null_mutex.hpp"],[("poly_lockable_adapter","poly_lockable_adapter.hpp"),("testable_mutex","testable_mutex.hpp")])
p("C30","sync_queue: FIFO, nothing lost or duplicated, honest close",
 "Elements pushed by one producer into a sync_queue are taken exactly once, in order, by whichever consumers; blocked consumers are woken when elements or a close arrive. After close every push is refused and changes nothing, while remaining elements can still be taken, and each operation's status matches what it did.",
 ["schedules","histories"],"every interleaving of producers, consumers and close",
 "tests sample few schedules with one producer and consumer",
 ["concurrent_queues/sync_queue.hpp","concurrent_queues/detail/sync_queue_base.hpp"],[("sync_queue_base","concurrent_queues/detail/sync_queue_base.hpp")])
p("C31","sync_bounded_queue: capacity, FIFO and honest close",
 "A sync_bounded_queue of capacity n holds at most n elements, delivers them exactly once in FIFO order, and size, empty and full agree with its contents after any history. Blocked producers and consumers are woken when room, an element or a close arrives, and each operation's status matches what it did.",
 ["schedules","histories"],"every interleaving of producers, consumers and close, and every push/pop history including wrap-around",
 "tests do not wrap the ring and sample schedules",
 ["concurrent_queues/sync_bounded_queue.hpp"],[("inc, in_, out_, notify_* ","concurrent_queues/sync_bounded_queue.hpp")])
p("C32","sync_deque and queue/deque facades",
 "A sync_deque delivers each element exactly once from the end asked for, in the order that end implies, wakes blocked consumers when elements or a close arrive, and refuses pushes after close. The polymorphic queue and deque adaptors and the front/back views behave exactly as the container they wrap.",
 ["schedules","histories"],"every interleaving and every bounded operation sequence",
 "tests sample schedules; the adaptors are hardly run",
 ["concurrent_queues/sync_deque.hpp","concurrent_queues/detail/sync_deque_base.hpp","concurrent_queues/queue_adaptor.hpp","concurrent_queues/deque_adaptor.hpp","concurrent_queues/queue_views.hpp","concurrent_queues/deque_views.hpp"],[("sync_deque","concurrent_queues/sync_deque.hpp")])
p("C33","Priority and timed queues: order and due time",
 "sync_priority_queue always hands out a greatest remaining element and sync_timed_queue an element with the earliest due time, never before that time, each exactly once. Consumers blocked on either are woken by a new element (including one due earlier than the one waited for) and by close, and statuses match what happened.",
 ["schedules","histories","inputs"],"every interleaving, every set of priorities and of due times",
 "tests use increasing times and one schedule",
 ["concurrent_queues/sync_priority_queue.hpp","concurrent_queues/sync_timed_queue.hpp"],[("sync_timed_queue::wait_pull / wait_to_closed_or_not_empty_until","concurrent_queues/sync_timed_queue.hpp")])
p("C34","basic_thread_pool: every accepted task runs exactly once",
 "Every closure accepted by basic_thread_pool runs exactly once, on a pool thread, or on a caller that helps with try_executing_one; after close submissions are refused and are not run. Destroying or joining the pool returns only after its threads have finished all accepted tasks, and always returns.",
 ["schedules"],"every interleaving of submitters, workers, close and destruction",
 "tests sample one schedule",
 ["executors/basic_thread_pool.hpp","executors/work.hpp"],[("worker_thread, submit, close, join","executors/basic_thread_pool.hpp")])
p("C35","Other executors: exactly once, in the promised context",
 "loop_executor, user_scheduler, inline_executor, thread_executor, serial_executor and serial_executor_cont run each accepted closure exactly once and refuse submissions after close. Serial executors never run two closures at the same time and keep submission order, and the polymorphic wrappers behave like the executor they wrap.",
 ["schedules"],"every interleaving of submitters, workers and close",
 "tests sample one schedule",
 ["executors/loop_executor.hpp","user_scheduler.hpp","executors/inline_executor.hpp","executors/thread_executor.hpp","executors/serial_executor.hpp","executors/serial_executor_cont.hpp","executors/executor_adaptor.hpp","executors/generic_executor_ref.hpp"],[("loop_executor::loop","executors/loop_executor.hpp"),("serial_executor::try_executing_one","executors/serial_executor.hpp")])
p("C36","Schedulers: never early, exactly once",
 "Work submitted to scheduler, scheduling_adaptor or scheduled_thread_pool with a time or delay starts no earlier than that time, runs exactly once if its time comes before the scheduler is closed or destroyed and at most once otherwise, and in order of due time on a single worker. After close no new work is accepted, and destruction terminates with every worker thread joined.",
 ["schedules","inputs"],"every set of due times and every interleaving",
 "tests use one increasing pattern with real sleeps",
 ["executors/scheduler.hpp","executors/scheduling_adaptor.hpp","executors/detail/scheduled_executor_base.hpp","executors/detail/priority_executor_base.hpp","executors/scheduled_thread_pool.hpp"],[("scheduled_executor_base","executors/detail/scheduled_executor_base.hpp")])
p("C37","Time conversions are exact and well formed",
 "Converting durations and time points given as chrono, posix_time, xtime or timespec to the system representation preserves the instant to the documented resolution, always yields a nanosecond field in range, is monotone, and does not wrap for representable inputs. Differences, sums and comparisons of the internal time types agree with exact integer arithmetic.",
 ["inputs"],"every representable input value",
 "tests use a few literal durations",
 ["detail/platform_time.hpp","xtime.hpp","thread_time.hpp"],[("platform_duration/platform_timepoint arithmetic","detail/platform_time.hpp")])
p("C38","sleep: never early, not late in model time",
 "this_thread::sleep_for, sleep_until and sleep (in every clock and duration type, with and without interruption enabled) return only after the requested time has passed, and return at once for times in the past. A wake-up that is not the deadline does not end the sleep, while an interruption does.",
 ["schedules","inputs"],"every duration, clock jump and spurious wake-up",
 "tests measure a few sleeps with tolerances",
 ["detail/thread.hpp","pthread/thread_data.hpp","src/pthread/thread.cpp"],[("hidden::sleep_for_internal / sleep_until_internal, no_interruption_point","src/pthread/thread.cpp")])
p("C39","Failure of a system resource is reported and leaks nothing",
 "If the system refuses a mutex, condition, thread or memory while a library object is constructed or used, the documented exception or error is reported. No thread runs, no system object stays allocated or locked, and no memory is leaked or freed twice because of the failure.",
 ["fault_sequences"],"a failure at every individual system call or allocation of the operation",
 "the test environment never refuses resources",
 ["pthread/mutex.hpp","pthread/recursive_mutex.hpp","pthread/condition_variable_fwd.hpp","pthread/condition_variable.hpp","detail/thread.hpp","src/pthread/thread.cpp"],[("constructors and start_thread","src/pthread/thread.cpp")])
p("C40","Synchronisation publishes data: no data race in correct use",
 "Whatever a thread wrote before a releasing operation (unlock, notify under the lock, set of a result, completion of call_once, thread start or end, barrier or latch arrival, queue push) is visible, without a data race, after the matching acquiring operation in another thread. Correct use of the library involves no data race on its own internal state either.",
 ["schedules"],"every interleaving of the release and acquire sides, under the memory orders the code uses",
 "x86 and sampled schedules hide missing ordering",
 ["pthread/once_atomic.hpp","pthread/mutex.hpp","pthread/condition_variable.hpp","future.hpp","src/pthread/thread.cpp","src/pthread/once_atomic.cpp"],[("memory orders of once_flag","src/pthread/once_atomic.cpp"),("mutex protected state","pthread/thread_data.hpp")])
p("C41","task_region: waits for all tasks, collects exceptions",
 "task_region returns only after every task run in it has finished, and each task runs exactly once. If tasks or the body throw, task_region reports the thrown exceptions through an exception_list, loses none, and still waits for the remaining tasks.",
 ["schedules","fault_sequences"],"every interleaving of tasks and every pattern of throwing tasks",
 "tests sample one schedule and one pattern",
 ["experimental/parallel/v2/task_region.hpp","experimental/parallel/v1/exception_list.hpp"],[("task_region_handle_gen::wait_all/handle_task_region_exceptions","experimental/parallel/v2/task_region.hpp")])
p("C42","Thread attributes and parsed numbers",
 "A requested stack size is applied rounded up to whole pages and never below the system minimum, and the detached state asked for is the one the thread gets. The numeric parser used for system tables accepts exactly decimal numbers, computes their value and trims exactly the surrounding white space. hardware_concurrency is the number of processors the system reports, and 0 if it reports none.",
 ["inputs"],"every stack size and every input text up to a bounded length",
 "tests use one size; the parser is not tested",
 ["pthread/thread_data.hpp","detail/string_to_unsigned.hpp","detail/string_trim.hpp","src/pthread/thread.cpp"],[("thread_attributes::set_stack_size","pthread/thread_data.hpp"),("string_to_unsigned","detail/string_to_unsigned.hpp")])
p("C43","synchronized_value and externally_locked: guarded access only",
 "Every access to the value inside a synchronized_value or externally_locked object happens while its mutex is owned by the accessing thread. Operations on several synchronized values (assignment, swap, comparison, synchronize) lock all of them without deadlock, and concurrent operations have the results of one order of them. externally_locked gives access only through a lock of its own mutex, and throws lock_error otherwise.",
 ["schedules","histories"],"every interleaving of accesses from several threads",
 "tests run single-threaded",
 ["synchronized_value.hpp","externally_locked.hpp","externally_locked_stream.hpp"],[("synchronized_value::synchronize","synchronized_value.hpp")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["title"]
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",x["id"],f)
