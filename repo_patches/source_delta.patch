From 555354998e960a2786fd233a940a48c8aef1d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 01/41] fix: shared_mutex::unlock_shared wakes an owner waiting
 to be the last one

try_unlock_upgrade_and_lock_until/_for and try_unlock_shared_and_lock_until/_for
wait on shared_cond for shared_count to become 1, but unlock_shared only notified
when it became 0, so they slept until their deadline although they could proceed.
---
 include/boost/thread/pthread/shared_mutex.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..6ff8aa7 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -261,6 +261,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // wake the threads waiting to be the only remaining owner
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
-- 
2.43.0


From d9a9a5ebf8b1e54b7ae49a3b035e009cd3b295dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 02/41] fix: shared_mutex::try_unlock_shared_and_lock_until
 respects a pending upgrade

A thread waiting in unlock_upgrade_and_lock is not counted in shared_count, so the
predicate one_shared let a reader become exclusive, cleared the upgrade flag of the
waiting thread and made both own the mutex exclusively (or left one asleep).
---
 include/boost/thread/pthread/shared_mutex.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 6ff8aa7..8b2edfe 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,12 @@ namespace boost
                 return shared_count==1;
             }
 
+            // the only owner, and no thread waiting in unlock_upgrade_and_lock
+            bool can_convert_shared_to_exclusive () const
+            {
+                return one_shared() && ! upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -574,7 +580,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_convert_shared_to_exclusive, &state)))
           {
               return false;
           }
-- 
2.43.0


From 83b0551a2cd42bc121077c6e1b07cdd192f69bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 03/41] fix:
 shared_mutex::try_unlock_shared_and_lock_upgrade_until waits on shared_cond

It waited on exclusive_cond, which unlock_upgrade does not notify while readers
remain - and the waiting thread is itself such a reader - so it slept until its
deadline; it could also consume the notification meant for a writer.
---
 include/boost/thread/pthread/shared_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 8b2edfe..ec82a59 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -634,7 +634,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 3e79f9d6eebd9dbb84621697bb13900eb8b5f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 04/41] fix: v2 shared/upgrade_mutex: a timed-out writer wakes
 the threads it held back

A thread that set write_entered_ and then timed out waiting for the readers cleared
the flag again without notifying gate1_: readers and writers that had gone to sleep
because of it were never woken.
---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..a8fa492 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +329,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +687,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +709,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -911,6 +915,7 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1022,6 +1027,7 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From e5e5b24d0fd268be83451394f2511689f087f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 05/41] fix: v2 upgrade_mutex: restore the current number of
 readers after a time-out

try_unlock_upgrade_and_lock_until and try_unlock_shared_and_lock_until restored the
number of readers computed before waiting, so readers that left in the meantime were
counted again and the mutex stayed read-locked for ever.
---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index a8fa492..a077b8b 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -912,7 +912,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // readers may have left while this thread was waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
         gate1_.notify_all();
@@ -1024,7 +1025,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // readers may have left while this thread was waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
         gate1_.notify_all();
-- 
2.43.0


From b36e4d09104efaabde89e3ee45418f5f7b6425d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 06/41] fix: ns_to_timespec returns a valid timespec for
 negative values

A negative number of nanoseconds gave a negative tv_nsec. Timed waits whose deadline
lies before the epoch of the internal (monotonic) clock - e.g. wait_until with a
system_clock time long past, or a large negative wait_for - then failed with
condition_error (EINVAL) instead of reporting the time-out.
---
 include/boost/thread/detail/platform_time.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..7ac233c 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -120,6 +120,12 @@ inline FP init_steady_clock(kern_return_t & err)
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
       ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
+      if (ts.tv_nsec < 0)
+      {
+        // POSIX requires 0 <= tv_nsec < 1000000000, also before the epoch of the clock
+        --ts.tv_sec;
+        ts.tv_nsec += 1000000000l;
+      }
       return ts;
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
-- 
2.43.0


From 8522751091a8b7171815e5b02adb1b055bd79ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 07/41] fix: promise move assignment breaks the promise it
 replaces

---
 include/boost/thread/future.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..572ba4e 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2327,10 +2327,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destructor of tmp breaks the promise *this stood for
+            promise tmp(boost::move(rhs));
+            swap(tmp);
             return *this;
         }
 
@@ -2618,10 +2617,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destructor of tmp breaks the promise *this stood for
+            promise tmp(boost::move(rhs));
+            swap(tmp);
             return *this;
         }
 
@@ -2801,10 +2799,9 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destructor of tmp breaks the promise *this stood for
+            promise tmp(boost::move(rhs));
+            swap(tmp);
             return *this;
         }
 
-- 
2.43.0


From 3eaae88a45a1c7bcee1f2e8a8e9f56e89a341e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 08/41] fix: set_*_deferred and set_*_at_thread_exit refuse a
 result that is already set or deferred

---
 include/boost/thread/future.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 572ba4e..71c4986 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -669,7 +669,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +684,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +810,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +885,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
-- 
2.43.0


From 46f107fafa456ffccfe04dffe1cd26b4b0ea58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 09/41] fix: promise::set_value, set_exception and emplace
 report a promise without a shared state

---
 include/boost/thread/future.hpp | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 71c4986..4645bae 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2373,6 +2373,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2384,6 +2388,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2396,6 +2404,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2451,6 +2463,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2464,6 +2480,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2648,6 +2668,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2660,13 +2684,17 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2832,6 +2860,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2852,6 +2884,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
-- 
2.43.0


From f365118a684c301e1fae9415ed73b6a6e3bf21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 10/41] fix: a deferred function returning a reference runs
 without the lock of its state

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 4645bae..6a5f865 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1081,7 +1081,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From 922cc0be0b49cdd37ea2aa0bfea3754367dc10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 11/41] fix: wait_for_any locks each future's mutex once and in
 a global order

---
 include/boost/thread/future.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6a5f865..809195b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -89,6 +89,7 @@ struct shared_state_base {
 #endif
 
 #include <algorithm>
+#include <functional>
 #include <list>
 #include <vector>
 #include <utility>
@@ -1150,11 +1151,20 @@ namespace boost
                    boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
                 all_futures_lock(std::vector<registered_waiter>& futures):
-                    count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
+                    count(0),locks(new boost::unique_lock<boost::mutex>[futures.size()])
                 {
+                    // lock each mutex once, and in the same order in every thread
+                    std::vector<boost::mutex*> mutexes;
+                    for(count_type i=0;i<futures.size();++i)
+                    {
+                        mutexes.push_back(&futures[i].future_->mutex);
+                    }
+                    std::sort(mutexes.begin(),mutexes.end(),std::less<boost::mutex*>());
+                    count=static_cast<count_type_portable>(
+                        std::unique(mutexes.begin(),mutexes.end())-mutexes.begin());
                     for(count_type_portable i=0;i<count;++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(*mutexes[i]));
                     }
                 }
 
-- 
2.43.0


From 9402ef91626ef7b21363801ad3f34113695864bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 12/41] fix: promise::set_value, set_exception and emplace
 refuse a result that is already deferred

---
 include/boost/thread/future.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 809195b..c4f6ebf 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2392,7 +2392,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2407,7 +2407,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2423,7 +2423,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2482,7 +2482,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2499,7 +2499,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2687,7 +2687,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2710,7 +2710,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2879,7 +2879,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2903,7 +2903,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From 133979ebccb865ade001d90b8b106a9ecf0c6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 13/41] fix: actions deferred to thread exit happen when the
 thread ends, not when its last handle goes

---
 src/pthread/thread.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..4324696 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -46,21 +46,33 @@ namespace boost
 {
     namespace detail
     {
-        thread_data_base::~thread_data_base()
+        namespace
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
-                    i != e; ++i)
+            void notify_at_thread_exit(thread_data_base& thread_info)
             {
-                i->second->unlock();
-                i->first->notify_all();
-            }
+                thread_data_base::notify_list_t notify;
+                notify.swap(thread_info.notify);
+                for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
+                        i != e; ++i)
+                {
+                    i->second->unlock();
+                    i->first->notify_all();
+                }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
-                    i != e; ++i)
-            {
-                (*i)->notify_deferred();
-            }
+                thread_data_base::async_states_t async_states;
+                async_states.swap(thread_info.async_states_);
+                for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
+                        i != e; ++i)
+                {
+                    (*i)->notify_deferred();
+                }
 //#endif
+            }
+        }
+
+        thread_data_base::~thread_data_base()
+        {
+            notify_at_thread_exit(*this);
         }
 
         struct thread_exit_callback_node
@@ -92,7 +104,8 @@ namespace boost
 
                     if(thread_info)
                     {
-                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
+                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
+                              || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
 
                             while(thread_info->thread_exit_callbacks)
@@ -116,6 +129,10 @@ namespace boost
                                 }
                                 thread_info->tss_data.erase(current);
                             }
+                            if (!thread_info->thread_exit_callbacks)
+                            {
+                                notify_at_thread_exit(*thread_info);
+                            }
                         }
                         thread_info->self.reset();
                     }
-- 
2.43.0


From fb70c9c1c36662340c01dc73f223272bce8acc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 14/41] fix: notify_all_at_thread_exit and set_*_at_thread_exit
 work in threads boost did not start

---
 src/pthread/thread.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 4324696..0e5f0c9 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -241,8 +241,6 @@ namespace boost
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -806,7 +804,7 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
@@ -818,7 +816,7 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->make_ready_at_thread_exit(as);
-- 
2.43.0


From eaaa58af3d601a6e483535b509ff0ae2ad68d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 15/41] fix: a thread_specific_ptr cleanup at thread exit may
 use the same pointer

---
 src/pthread/thread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 0e5f0c9..dcfea9a 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -123,11 +123,13 @@ namespace boost
                             {
                                 std::map<void const*,detail::tss_data_node>::iterator current
                                     = thread_info->tss_data.begin();
-                                if(current->second.func && (current->second.value!=0))
+                                // out of the map before its cleanup, which may use the same pointer
+                                detail::tss_data_node const node = current->second;
+                                thread_info->tss_data.erase(current);
+                                if(node.func && (node.value!=0))
                                 {
-                                    (*current->second.caller)(current->second.func,current->second.value);
+                                    (*node.caller)(node.func,node.value);
                                 }
-                                thread_info->tss_data.erase(current);
                             }
                             if (!thread_info->thread_exit_callbacks)
                             {
-- 
2.43.0


From a6f5791f838ae4a578aa5777df0a183a0c4026dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 16/41] fix: sync_bounded_queue::size counts modulo the size of
 the ring

---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3dcc589 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 6fcba3f865872ca80bcec6ac625f7d25c085f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 17/41] fix: sync_bounded_queue::wait_push_back reports a close
 while it waits with its status

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3dcc589..b7905b1 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -542,8 +542,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -587,6 +589,21 @@ namespace concurrent
       not_full_.wait(lk);
     }
   }
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
 
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
@@ -647,8 +664,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 830cb51233d0f12cfe24ad226c16e78ac4b7796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 18/41] fix: deque_views.hpp has an include guard of its own

---
 include/boost/thread/concurrent_queues/deque_views.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/deque_views.hpp b/include/boost/thread/concurrent_queues/deque_views.hpp
index 5715fb8..230c9b9 100644
--- a/include/boost/thread/concurrent_queues/deque_views.hpp
+++ b/include/boost/thread/concurrent_queues/deque_views.hpp
@@ -1,5 +1,5 @@
-#ifndef BOOST_THREAD_QUEUE_VIEWS_HPP
-#define BOOST_THREAD_QUEUE_VIEWS_HPP
+#ifndef BOOST_THREAD_DEQUE_VIEWS_HPP
+#define BOOST_THREAD_DEQUE_VIEWS_HPP
 
 //////////////////////////////////////////////////////////////////////////////
 //
-- 
2.43.0


From 12c0ba2bff4a912695a8bc7d6848fc9e64355c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 19/41] fix: sync_timed_queue::pull_until survives a clock set
 back while it waits on an empty queue

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..d3f4fa2 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -289,6 +289,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return queue_op_status::success;
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
+      if (super::empty(lk)) continue; // the clock was set back after the wait timed out
 
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
-- 
2.43.0


From 58780ab1bd201f3db31bed57cfa910d04d0a8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 20/41] fix: basic_thread_pool runs every accepted closure
 although its destructor interrupts the threads

---
 include/boost/thread/executors/basic_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..30f1f43 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -98,7 +98,8 @@ namespace executors
           }
           catch (boost::thread_interrupted&)
           {
-            return;
+            // once the pool is closed, the closures accepted before that are still to be run
+            if (! closed()) return;
           }
         }
       }
-- 
2.43.0


From 6ee3aa3b91f24dd759ff6a6e0f338a53d6faf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 21/41] fix: a basic_thread_pool that was joined can be joined
 again and destroyed

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 30f1f43..cacf910 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -245,7 +245,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         //threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
@@ -268,7 +268,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
-- 
2.43.0


From 165d24072cdd5ae2f00702a6e9329802d6e16d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 22/41] fix: basic_thread_pool's constructors join the threads
 already started before they report a failure

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index cacf910..60090ea 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -183,6 +184,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -202,6 +204,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -221,6 +224,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
-- 
2.43.0


From c0f6d3568493f27b6302498e987619476836966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 23/41] fix: a devector that was moved from is empty

---
 include/boost/thread/csbl/devector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..4baf7aa 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +65,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From d6788dd8b4094a28956eacb5be14fb93a94a964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 24/41] fix: scheduled_thread_pool's constructor joins the
 threads already started before it reports a failure

---
 .../thread/executors/scheduled_thread_pool.hpp     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..c66bf0b 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,19 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        this->close();
+        _workers.interrupt_all();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From 9b8110d556f8be1353d351653c7cea57ba6d714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 25/41] fix: thread_group::create_thread does not lose the
 started thread when it cannot record it

---
 include/boost/thread/detail/thread_group.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..4a9e9f5 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,9 +76,17 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
-            boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
-            return new_thread.release();
+            threads.push_back(static_cast<thread*>(0));
+            try
+            {
+                threads.back() = new thread(threadfunc);
+            }
+            catch (...)
+            {
+                threads.pop_back();
+                throw;
+            }
+            return threads.back();
         }
 
         void add_thread(thread* thrd)
-- 
2.43.0


From 37c3602c70d716fb70b96cb19e69126c401f92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:34 +0000
Subject: [PATCH 26/41] fix: a signal does not end a sleep that is no
 interruption point

---
 src/pthread/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index dcfea9a..d1c2b53 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -40,6 +40,7 @@
 #include <string>
 #include <set>
 #include <vector>
+#include <errno.h> // EINTR.
 #include <string.h> // memcmp.
 
 namespace boost
@@ -473,7 +474,8 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        timespec remaining = ts.getTs();
+                        while (nanosleep(&remaining, &remaining) == -1 && errno == EINTR) {} // a signal does not end the sleep
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From 3ea4655dd236b1d5d5ef373208c3dfa4e9037b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:11 +0000
Subject: [PATCH 27/41] fix: a negative posix_time duration converts to a valid
 timespec

---
 include/boost/thread/detail/platform_time.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index 7ac233c..6c58bce 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -153,6 +153,12 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
+        if (ts_val.tv_nsec < 0)
+        {
+          // POSIX requires 0 <= tv_nsec < 1000000000, also for negative durations
+          --ts_val.tv_sec;
+          ts_val.tv_nsec += 1000000000l;
+        }
 #else
         ns_val = static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l;
         ns_val += rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second());
-- 
2.43.0


From 96713bfcbfa22fffd59a0f673fe9f9cdf75f080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 28/41] fix: async does not hang when its thread or shared
 state cannot be made

---
 include/boost/thread/future.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c4f6ebf..7e30d60 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -927,9 +927,21 @@ namespace boost
               }
               if (thr_.joinable()) thr_.join();
           }
+#elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
+          // whether a thread has been started that will make this ready
+          bool launched_;
+#endif
+          void set_launched()
+          {
+#if ! defined BOOST_THREAD_FUTURE_BLOCKING && defined BOOST_THREAD_ASYNC_FUTURE_WAITS
+            launched_ = true;
 #endif
+          }
         public:
           future_async_shared_state_base()
+#if ! defined BOOST_THREAD_FUTURE_BLOCKING && defined BOOST_THREAD_ASYNC_FUTURE_WAITS
+          : launched_(false)
+#endif
           {
             this->set_async();
           }
@@ -939,6 +951,7 @@ namespace boost
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
 #elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
+            if (!launched_) return;
             unique_lock<boost::mutex> lk(this->mutex);
             this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
 #endif
@@ -972,6 +985,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f)).detach();
+            this->set_launched();
 #endif
           }
 
@@ -997,6 +1011,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+            this->set_launched();
 #endif
           }
 
@@ -1023,6 +1038,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+            this->set_launched();
 #endif
           }
 
@@ -4663,6 +4679,7 @@ namespace detail
       this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
       boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      this->set_launched();
 #endif
     }
   };
@@ -4784,6 +4801,7 @@ namespace detail {
       this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
       boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      this->set_launched();
 #endif
     }
   };
-- 
2.43.0


From 08dcf2bec63e09e9ac3c9dccd193e86f72f3abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:32 +0000
Subject: [PATCH 29/41] fix: a refused allocation does not leave continuations
 unlaunched and leaked

---
 include/boost/thread/future.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7e30d60..ee627f5 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -286,8 +286,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock)
             {
                 if (! continuations.empty()) {
-                  continuations_type the_continuations = continuations;
-                  continuations.clear();
+                  continuations_type the_continuations;
+                  the_continuations.swap(continuations);
                   relocker rlk(lock);
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) {
                     (*it)->launch_continuation();
@@ -306,8 +306,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock) \
             { \
                 if (! this->continuations.empty()) { \
-                  continuations_type the_continuations = this->continuations; \
-                  this->continuations.clear(); \
+                  continuations_type the_continuations; \
+                  the_continuations.swap(this->continuations); \
                   relocker rlk(lock); \
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) { \
                     (*it)->launch_continuation(); \
-- 
2.43.0


From 72e26d25580bd804161d21e18f9f1f113704ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 30/41] fix: a refused thread of an asynchronous continuation
 is reported through its future

---
 include/boost/thread/future.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index ee627f5..4b16404 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4678,8 +4678,14 @@ namespace detail
       boost::lock_guard<boost::mutex> lk(this->mutex);
       this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
-      this->set_launched();
+      try {
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        this->set_launched();
+      } catch(...) {
+        // no thread will run the continuation: its future reports that
+        this->mark_exceptional_finish();
+        this->parent = F();
+      }
 #endif
     }
   };
@@ -4800,8 +4806,14 @@ namespace detail {
       boost::lock_guard<boost::mutex> lk(this->mutex);
       this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
-      this->set_launched();
+      try {
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        this->set_launched();
+      } catch(...) {
+        // no thread will run the continuation: its future reports that
+        this->mark_exceptional_finish();
+        this->parent = F();
+      }
 #endif
     }
   };
-- 
2.43.0


From 6cf9175a1dd39db4b02eef28c87661c5810995ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 31/41] fix: at_thread_exit frees the function when it cannot
 be recorded

---
 src/pthread/thread.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index d1c2b53..eb3290e 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -729,10 +729,22 @@ namespace boost
     {
         void add_thread_exit_function(thread_exit_function_base* func)
         {
-            detail::thread_data_base* const current_thread_data(get_or_make_current_thread_data());
-            thread_exit_callback_node* const new_node=
-                heap_new<thread_exit_callback_node>(func,current_thread_data->thread_exit_callbacks);
-            current_thread_data->thread_exit_callbacks=new_node;
+#ifndef BOOST_NO_EXCEPTIONS
+            try
+#endif
+            {
+                detail::thread_data_base* const current_thread_data(get_or_make_current_thread_data());
+                thread_exit_callback_node* const new_node=
+                    heap_new<thread_exit_callback_node>(func,current_thread_data->thread_exit_callbacks);
+                current_thread_data->thread_exit_callbacks=new_node;
+            }
+#ifndef BOOST_NO_EXCEPTIONS
+            catch(...)
+            {
+                heap_delete(func);
+                throw;
+            }
+#endif
         }
 
         tss_data_node* find_tss_data(void const* key)
-- 
2.43.0


From 81487ded84af78cb748fada0c19da8565b5c18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 32/41] fix: notify_all_at_thread_exit does not leave the mutex
 locked when it cannot record the request

---
 src/pthread/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index eb3290e..0c52b45 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -823,7 +823,8 @@ namespace boost
         detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
+            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+            lk.release();
         }
     }
 
-- 
2.43.0


From e16b7e668c3bd743bdfc9cdf215bf5acbce7156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 33/41] fix: task_region waits for every started task even when
 it runs out of memory

---
 .../experimental/parallel/v2/task_region.hpp   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..71243d7 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -215,17 +215,27 @@ protected:
         }
       }
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-      group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+      BOOST_THREAD_FUTURE<void> fut(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
 #else
-      group.push_back(async(detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+      BOOST_THREAD_FUTURE<void> fut(async(detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
 #endif
 #else
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-      group.push_back(async(*ex, forward<F>(f)));
+      BOOST_THREAD_FUTURE<void> fut(async(*ex, forward<F>(f)));
 #else
-      group.push_back(async(forward<F>(f)));
+      BOOST_THREAD_FUTURE<void> fut(async(forward<F>(f)));
 #endif
 #endif
+      try
+      {
+        group.push_back(boost::move(fut));
+      }
+      catch (...)
+      {
+        // a task that has been started must not be left behind
+        fut.wait();
+        throw;
+      }
     }
 
     void wait()
-- 
2.43.0


From 92f835750e0a277a8edf75320c39d10a733d454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 34/41] fix: timed_lock with a duration of minus infinity does
 not claim ownership it did not acquire

---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From d41a5f56da3bea0c9197302eec4661f5ecaabe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 35/41] fix: posix_time values beyond what nanoseconds can
 count are taken as the farthest time instead of wrapping

---
 include/boost/thread/detail/platform_time.hpp | 43 ++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index 6c58bce..1cf246a 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -130,10 +130,41 @@ inline FP init_steady_clock(kern_return_t & err)
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
     {
+      // times too far off to be counted in nanoseconds (posix_time has them, and infinite ones) are taken as the farthest
+      // ones that can be
+      const boost::time_max_t limit = (std::numeric_limits<boost::time_max_t>::max)() / 1000000000l;
+      if (ts.tv_sec >= limit)
+      {
+        if (ts.tv_sec > limit || ts.tv_nsec > (std::numeric_limits<boost::time_max_t>::max)() - limit * 1000000000l)
+        {
+          return (std::numeric_limits<boost::time_max_t>::max)();
+        }
+      }
+      else if (ts.tv_sec < -limit)
+      {
+        if (ts.tv_sec < -limit - 1 || ts.tv_nsec - 1000000000l < (std::numeric_limits<boost::time_max_t>::min)() + limit * 1000000000l)
+        {
+          return (std::numeric_limits<boost::time_max_t>::min)();
+        }
+        return static_cast<boost::time_max_t>(ts.tv_sec + 1) * 1000000000l + (ts.tv_nsec - 1000000000l);
+      }
       return static_cast<boost::time_max_t>(ts.tv_sec) * 1000000000l + ts.tv_nsec;
     }
 #endif
 
+    inline boost::time_max_t add_ns(boost::time_max_t lhs, boost::time_max_t rhs)
+    {
+      if (rhs > 0 && lhs > (std::numeric_limits<boost::time_max_t>::max)() - rhs) return (std::numeric_limits<boost::time_max_t>::max)();
+      if (rhs < 0 && lhs < (std::numeric_limits<boost::time_max_t>::min)() - rhs) return (std::numeric_limits<boost::time_max_t>::min)();
+      return lhs + rhs;
+    }
+    inline boost::time_max_t subtract_ns(boost::time_max_t lhs, boost::time_max_t rhs)
+    {
+      if (rhs < 0 && lhs > (std::numeric_limits<boost::time_max_t>::max)() + rhs) return (std::numeric_limits<boost::time_max_t>::max)();
+      if (rhs > 0 && lhs < (std::numeric_limits<boost::time_max_t>::min)() + rhs) return (std::numeric_limits<boost::time_max_t>::min)();
+      return lhs - rhs;
+    }
+
     struct platform_duration
     {
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
@@ -289,15 +320,15 @@ inline FP init_steady_clock(kern_return_t & err)
 
     inline real_platform_timepoint operator+(real_platform_timepoint const& lhs, platform_duration const& rhs)
     {
-      return real_platform_timepoint(lhs.getNs() + rhs.getNs());
+      return real_platform_timepoint(add_ns(lhs.getNs(), rhs.getNs()));
     }
     inline real_platform_timepoint operator+(platform_duration const& lhs, real_platform_timepoint const& rhs)
     {
-      return real_platform_timepoint(lhs.getNs() + rhs.getNs());
+      return real_platform_timepoint(add_ns(lhs.getNs(), rhs.getNs()));
     }
     inline platform_duration operator-(real_platform_timepoint const& lhs, real_platform_timepoint const& rhs)
     {
-      return platform_duration(lhs.getNs() - rhs.getNs());
+      return platform_duration(subtract_ns(lhs.getNs(), rhs.getNs()));
     }
 
     struct real_platform_clock
@@ -393,15 +424,15 @@ inline FP init_steady_clock(kern_return_t & err)
 
   inline mono_platform_timepoint operator+(mono_platform_timepoint const& lhs, platform_duration const& rhs)
   {
-    return mono_platform_timepoint(lhs.getNs() + rhs.getNs());
+    return mono_platform_timepoint(add_ns(lhs.getNs(), rhs.getNs()));
   }
   inline mono_platform_timepoint operator+(platform_duration const& lhs, mono_platform_timepoint const& rhs)
   {
-    return mono_platform_timepoint(lhs.getNs() + rhs.getNs());
+    return mono_platform_timepoint(add_ns(lhs.getNs(), rhs.getNs()));
   }
   inline platform_duration operator-(mono_platform_timepoint const& lhs, mono_platform_timepoint const& rhs)
   {
-    return platform_duration(lhs.getNs() - rhs.getNs());
+    return platform_duration(subtract_ns(lhs.getNs(), rhs.getNs()));
   }
 
   struct mono_platform_clock
-- 
2.43.0


From 182c32e058bc39e4fc559f6fafc1fd4e6b0b1ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 36/41] fix: v2 shared_mutex and upgrade_mutex: locking is no
 interruption point

---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index a077b8b..6981730 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -153,6 +153,9 @@ public:
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
 #include <boost/thread/mutex.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -274,6 +277,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +302,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -318,6 +327,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -351,6 +363,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -376,6 +391,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -393,6 +411,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -654,6 +675,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -676,6 +700,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -698,6 +725,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -732,6 +762,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -757,6 +790,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -774,6 +810,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -810,6 +849,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -835,6 +877,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -852,6 +897,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -899,6 +947,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -956,6 +1007,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -986,6 +1040,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1015,6 +1072,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From 1c6f8560ab27dc537eb2715f489640939d3b7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:12 +0000
Subject: [PATCH 37/41] fix: what a thread boost did not start runs at its exit
 sees that thread's own data

---
 src/pthread/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 0c52b45..323365a 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -105,6 +105,8 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // in a thread not started by boost the key is null by now: what runs below is still this thread
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,thread_info.get()));
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
                               || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
@@ -137,6 +139,7 @@ namespace boost
                                 notify_at_thread_exit(*thread_info);
                             }
                         }
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
                         thread_info->self.reset();
                     }
                 }
-- 
2.43.0


From 5ff2875e67d4175ae8e83a300b6803eae3f50601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:59 +0000
Subject: [PATCH 38/41] fix: comparing a synchronized_value with itself does
 not return

The comparisons lock both mutexes with boost::lock, which never succeeds if
both are the same one. Lock it once in that case, as assignment and swap do.
---
 include/boost/thread/synchronized_value.hpp | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..508cc33 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,11 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (this == &rhs)
+      {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ == rhs.value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +857,11 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (this == &rhs)
+      {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ < rhs.value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +874,11 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (this == &rhs)
+      {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ > rhs.value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +887,11 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (this == &rhs)
+      {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ <= rhs.value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +900,11 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (this == &rhs)
+      {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ >= rhs.value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From c49a7929b88480e243d75aed8d5f6ce2c672cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:59 +0000
Subject: [PATCH 39/41] fix: synchronize() of three values does not lock the
 third

Without variadic templates synchronize(sv1, sv2, sv3) locked the first two
mutexes only, but adopted all three.
---
 include/boost/thread/synchronized_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 508cc33..7b14cb8 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -1070,7 +1070,7 @@ namespace boost
   >
   synchronize(SV1& sv1, SV2& sv2, SV3& sv3)
   {
-    boost::lock(sv1.mtx_, sv2.mtx_);
+    boost::lock(sv1.mtx_, sv2.mtx_, sv3.mtx_);
     typedef std::tuple<
         typename synchronized_value_strict_lock_ptr<SV1>::type,
         typename synchronized_value_strict_lock_ptr<SV2>::type,
-- 
2.43.0


From 3a49127ee7a1b786be0f7a51918443515611589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 40/41] fix: user_scheduler::run_queued_closures runs the
 queued closures

The loop ran while the queue was empty: with closures queued it returned
without running any, leaving them lost, and with none it accessed the
front of an empty queue.
---
 include/boost/thread/user_scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 4d02658..02e201a 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -187,7 +187,7 @@ namespace boost
     void run_queued_closures()
     {
       sync_queue<work>::underlying_queue_type q = work_queue.underlying_queue();
-      while (q.empty())
+      while (! q.empty())
       {
         work task = q.front();
         q.pop_front();
-- 
2.43.0


From 3f696231a5fcbc3987231b89dfcd6062641664f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 41/41] fix: user_scheduler calls std::terminate when a closure
 throws

As documented, and as the other executors do. The exception was swallowed
and the closure counted as not executed: loop() then returned although
closures were still queued, and these were never run.
---
 include/boost/thread/user_scheduler.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 02e201a..0faf3e9 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -48,13 +48,10 @@ namespace boost
         }
         return false;
       }
-      catch (std::exception& )
-      {
-        return false;
-      }
       catch (...)
       {
-        return false;
+        std::terminate();
+        //return false;
       }
     }
   private:
-- 
2.43.0

