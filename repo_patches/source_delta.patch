From b31c0ac3b8d49d5182910fe803c513288f50d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/67] fix: scoped_lock move assignment releases the mutex it
 held

---
 include/coro/mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..6307a03 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,6 +99,7 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            unlock(); // release the mutex currently held, if any
             m_mutex = std::exchange(other.m_mutex, nullptr);
         }
         return *this;
-- 
2.43.0


From c482197805e7f3c47c7e7eeaa1d522f165c47518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 02/67] fix: latch::remaining() is zero once counted down past
 zero

---
 include/coro/latch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/coro/latch.hpp b/include/coro/latch.hpp
index ffd8b6a..951e573 100644
--- a/include/coro/latch.hpp
+++ b/include/coro/latch.hpp
@@ -40,7 +40,11 @@ public:
     /**
      * @return The number of tasks this latch is still waiting to complete.
      */
-    auto remaining() const noexcept -> std::size_t { return m_count.load(std::memory_order::acquire); }
+    auto remaining() const noexcept -> std::size_t
+    {
+        const auto count = m_count.load(std::memory_order::acquire);
+        return count > 0 ? static_cast<std::size_t>(count) : 0;
+    }
 
     /**
      * If the latch counter goes to zero then the task awaiting the latch is resumed.
-- 
2.43.0


From 28edbff211050a731b8716e65ace3d764bf05c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/67] fix: queue::shutdown() stops the queue when a drain
 starts concurrently

---
 include/coro/queue.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..6cf78ec 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -333,16 +333,15 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
-        // We use the lock to guarantee the m_running_state has propagated.
+        // We use the lock to guarantee the m_running_state has propagated. A concurrent shutdown_drain()
+        // might have moved the state from running to draining before the lock was acquired.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 96bbb11280177ddaf72b2bddd25afefe5f4ce874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 04/67] fix: queue::shutdown_drain() checks for remaining
 elements under the lock

---
 include/coro/queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 6cf78ec..e7643aa 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -376,12 +376,15 @@ public:
         {
             co_return;
         }
-        lk.unlock();
 
-        while (!empty() && m_running_state.load(std::memory_order::acquire) == running_state_t::draining)
+        // The elements are only examined under the lock, consumers are popping them concurrently.
+        while (!m_elements.empty() && m_running_state.load(std::memory_order::acquire) == running_state_t::draining)
         {
+            lk.unlock();
             co_await e->yield();
+            lk = co_await m_mutex.scoped_lock();
         }
+        lk.unlock();
 
         co_return co_await shutdown();
     }
-- 
2.43.0


From 92a674eac54214c073fc4e54aff9e97a81df33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 05/67] fix: ring_buffer::shutdown_drain() tells blocked
 producers that it stopped

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..4d69e2c 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From 5129e4f93c5035269fceaf8aac49b374f37c07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 06/67] fix: ring_buffer::shutdown() stops the buffer when a
 drain starts concurrently

---
 include/coro/ring_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 4d69e2c..a66eafd 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -320,15 +320,15 @@ public:
     auto shutdown() -> coro::task<void>
     {
         // Only wake up waiters once.
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         auto lk = co_await m_mutex.scoped_lock();
-        // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        // Only let one caller do the wake-ups, this can go from running or draining to stopped. A concurrent
+        // shutdown_drain() might have moved it from running to draining before the lock was acquired.
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 790d865fe7048fdea73de623d7c976d5c2c2047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:12 +0000
Subject: [PATCH 07/67] fix: condition_variable waiters that are not ready
 re-enqueue under the lock

---
 include/coro/condition_variable.hpp |  8 +++-----
 src/condition_variable.cpp          | 24 ++++++++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..9be9635 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -63,7 +63,8 @@ private:
         /// @brief The lock that the wait() was called with.
         coro::scoped_lock& m_lock;
 
-        /// @brief Each awaiter type defines its own notify behavior.
+        /// @brief Each awaiter type defines its own notify behavior. An awaiter that is not ready re-enqueues itself
+        ///        while it holds the lock, the awaiter must not be used by the notifier after this completes.
         /// @return The status of if the waiter's notify result.
         virtual auto on_notify() -> coro::task<notify_status_t> = 0;
     };
@@ -536,12 +537,9 @@ private:
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter re-enqueued itself since the predicate isn't ready.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
                 break;
         }
     }
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..127d206 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -74,7 +74,11 @@ auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before unlocking, otherwise a notify after the predicate becomes true could miss this waiter. The
+    // waiter can be resumed and destroyed by another notify as soon as the lock is released.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -119,7 +123,11 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before unlocking, otherwise a notify after the predicate becomes true could miss this waiter. The
+    // waiter can be resumed and destroyed by another notify as soon as the lock is released.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -190,6 +198,10 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before unlocking, otherwise a notify after the predicate becomes true could miss this waiter. The
+    // waiter can be resumed and destroyed by another notify as soon as the locks are released.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    event_lock.unlock();
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -213,8 +225,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -235,12 +246,9 @@ auto condition_variable::notify_all() -> coro::task<void>
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter re-enqueued itself since the predicate isn't ready.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
                 break;
         }
 
-- 
2.43.0


From 2dc8fdf1d3a8ce315ce6d9bbb41b6a55794a8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:12 +0000
Subject: [PATCH 08/67] fix: condition_variable notifiers pop waiters one at a
 time

---
 include/coro/condition_variable.hpp | 18 +++++++++++++++++-
 src/condition_variable.cpp          |  4 ++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 9be9635..4a99de6 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -388,7 +389,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = pop_all_awaiters();
 
         while (waiter != nullptr)
         {
@@ -531,6 +532,21 @@ public:
 private:
     /// @brief The list of waiters.
     std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief Only one notifier at a time can remove waiters from the list, popping a waiter reads its next pointer and
+    ///        another notifier could have already resumed and destroyed, or re-enqueued, that waiter.
+    std::mutex m_pop_mutex{};
+
+    auto pop_awaiter() -> awaiter_base*
+    {
+        std::scoped_lock lk{m_pop_mutex};
+        return detail::awaiter_list_pop(m_awaiters);
+    }
+
+    auto pop_all_awaiters() -> awaiter_base*
+    {
+        std::scoped_lock lk{m_pop_mutex};
+        return detail::awaiter_list_pop_all(m_awaiters);
+    }
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 127d206..5ed8a73 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -213,7 +213,7 @@ auto condition_variable::notify_one() -> coro::task<void>
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        auto* waiter = pop_awaiter();
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -236,7 +236,7 @@ auto condition_variable::notify_one() -> coro::task<void>
 
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = pop_all_awaiters();
 
     while (waiter != nullptr)
     {
-- 
2.43.0


From 255099f4b94fc8160d3b978d9ce8f07ec0dbd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 09/67] fix: condition_variable timed waits don't use the
 awaiter after it has been resumed

---
 include/coro/condition_variable.hpp | 17 ++++++++++++-----
 src/condition_variable.cpp          |  6 ++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 4a99de6..edc0e76 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -159,6 +159,8 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief Set before m_notify_callback if the awaiter completed via no_timeout, the awaiter is invalid otherwise.
+        bool m_notified{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -227,7 +229,7 @@ private:
             co_await data.m_notify_callback;
 
             // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            if (data.m_notified)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
@@ -242,11 +244,16 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param executor The executor to wait on, the awaiter might be notified and destroyed before this task starts.
+         * @param wait_for The amount of time to wait for.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        auto make_timeout_task(
+            controller_data&                   data,
+            std::unique_ptr<io_executor_type>& executor,
+            const std::chrono::nanoseconds     wait_for) -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
@@ -284,7 +291,7 @@ private:
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, m_executor, m_wait_for));
             co_return;
         }
 
@@ -310,7 +317,7 @@ private:
 
             // Make the background controller which proxies between the notify task and the timeout task.
             auto controller = make_controller_task();
-            controller.resume();
+            controller.handle().resume(); // It can complete and self delete before this returns.
             return true;
         }
 
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 5ed8a73..d688907 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -180,7 +180,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     if (!m_data.m_predicate.has_value())
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
-        m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_status   = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
@@ -192,7 +193,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     if (m_data.m_predicate_result || (m_data.m_stop_token.has_value() && m_data.m_stop_token.value().stop_requested()))
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
-        m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_status   = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
-- 
2.43.0


From ce3bb00ee3a23e03b45a90176cccfdff81bca9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 10/67] fix: condition_variable waits that time out leave the
 list of waiters

---
 include/coro/condition_variable.hpp | 39 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index edc0e76..b993f0c 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -180,8 +180,8 @@ private:
      * This class mimics the awaiter_base class so it can silently sit in the coro:condition_variable.m_awaiters to look
      * like its the actual awaiter, but just proxies to the real awaiter when appropriate.
      *
-     * If the wait_[for|until] does timeout, then this will do nothing except delete itself from the list on a
-     * notify_[one|all] call.
+     * If the wait_[for|until] does timeout, then this is removed from the list. If a notify_[one|all] call had already
+     * popped it then that call does nothing except let the controller complete.
      */
     struct awaiter_with_wait_hook : public awaiter_base
     {
@@ -244,12 +244,14 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param hook The hook awaiter that is in the condition variable's list of waiters.
          * @param executor The executor to wait on, the awaiter might be notified and destroyed before this task starts.
          * @param wait_for The amount of time to wait for.
          * @return coro::task<void>
          */
         auto make_timeout_task(
             controller_data&                   data,
+            awaiter_with_wait_hook&            hook,
             std::unique_ptr<io_executor_type>& executor,
             const std::chrono::nanoseconds     wait_for) -> coro::task<void>
         {
@@ -262,6 +264,13 @@ private:
                 m_status = {std::cv_status::timeout};
                 lock.unlock();
 
+                // Take the hook out of the list of waiters so it doesn't stay there until the next notify. If it's not
+                // in the list then a notify has already popped it and will set the callback.
+                if (m_condition_variable.remove_awaiter(&hook))
+                {
+                    data.m_notify_callback.set();
+                }
+
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
                 // must be re-acquired.
                 co_await m_lock.m_mutex->lock();
@@ -291,7 +300,7 @@ private:
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, m_executor, m_wait_for));
+            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, hook_task, m_executor, m_wait_for));
             co_return;
         }
 
@@ -555,6 +564,30 @@ private:
         return detail::awaiter_list_pop_all(m_awaiters);
     }
 
+    /**
+     * @return True if the awaiter was in the list of waiters and has been removed.
+     */
+    auto remove_awaiter(awaiter_base* awaiter) -> bool
+    {
+        std::scoped_lock lk{m_pop_mutex};
+        bool             found{false};
+        auto*            waiter = detail::awaiter_list_reverse(detail::awaiter_list_pop_all(m_awaiters));
+        while (waiter != nullptr)
+        {
+            auto* next = waiter->m_next;
+            if (waiter == awaiter)
+            {
+                found = true;
+            }
+            else
+            {
+                detail::awaiter_list_push(m_awaiters, waiter);
+            }
+            waiter = next;
+        }
+        return found;
+    }
+
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
         switch (co_await waiter->on_notify())
-- 
2.43.0


From 29364052ec7f1ae5cc9f4e265a13dcd0769ff293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 11/67] fix: condition_variable notifies after a stop request
 always reach the waiter

---
 src/condition_variable.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index d688907..fc697ee 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -127,6 +127,14 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
     // waiter can be resumed and destroyed by another notify as soon as the lock is released.
     auto* waiter_mutex = m_lock.m_mutex;
     coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+
+    // The stop isn't requested under the lock, its notify could have missed this waiter while it was being notified.
+    if (m_stop_token.stop_requested() && m_condition_variable.remove_awaiter(this))
+    {
+        m_awaiting_coroutine.resume();
+        co_return notify_status_t::ready;
+    }
+
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -189,8 +197,22 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
 
     m_data.m_predicate_result = m_data.m_predicate.value()();
 
+    const auto stop_requested = [this]()
+    { return m_data.m_stop_token.has_value() && m_data.m_stop_token.value().stop_requested(); };
+
+    bool is_ready = m_data.m_predicate_result || stop_requested();
+    if (!is_ready)
+    {
+        // Re-enqueue before unlocking, otherwise a notify after the predicate becomes true could miss this waiter. The
+        // waiter can be resumed and destroyed by another notify as soon as the locks are released.
+        coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+
+        // The stop isn't requested under the lock, its notify could have missed this waiter while it was being notified.
+        is_ready = stop_requested() && m_condition_variable.remove_awaiter(this);
+    }
+
     // If the predicate is ready or we've been requested to stop then we are ready.
-    if (m_data.m_predicate_result || (m_data.m_stop_token.has_value() && m_data.m_stop_token.value().stop_requested()))
+    if (is_ready)
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
         m_data.m_status   = {std::cv_status::no_timeout};
@@ -200,9 +222,6 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
-    // Re-enqueue before unlocking, otherwise a notify after the predicate becomes true could miss this waiter. The
-    // waiter can be resumed and destroyed by another notify as soon as the locks are released.
-    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     event_lock.unlock();
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
-- 
2.43.0


From 364a1f8e166d632f5fcad5dfe61775d675de9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 12/67] fix: timer_handle closes its timerfd

---
 include/coro/detail/timer_handle.hpp |  6 ++++++
 src/detail/timer_handle.cpp          | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..aed29de 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -16,6 +16,12 @@ class timer_handle
 
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
+    ~timer_handle();
+
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
 
     coro::fd_t get_fd() const { return m_fd; }
 
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..f5a3a45 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -16,6 +16,9 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+// The kqueue timer's fd is just an identifier, it isn't an open file descriptor.
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +28,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 7967c4f31929650642b4f430c8a32563b26b3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 13/67] fix: schedule_operation isn't used after it is pushed
 onto the scheduler

---
 include/coro/scheduler.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..050669a 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -148,17 +148,19 @@ public:
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                // Once this operation is pushed it can be resumed and destroyed by the event loop at any time.
+                auto& scheduler = m_scheduler;
+                scheduler.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = scheduler.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
-- 
2.43.0


From 2c63173e02bc979fa655834cd3c41ed2c5221be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 14/67] fix: thread_pool doesn't accept work once its threads
 can exit

---
 include/coro/thread_pool.hpp | 10 ++++++++--
 src/thread_pool.cpp          | 27 ++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..6297d44 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -57,7 +57,7 @@ public:
          * Suspending always returns to the caller (using void return of await_suspend()) and
          * stores the coroutine internally for the executing thread to resume from.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) -> void;
 
         /**
          * no-op as this is the function called first by the thread pool's executing thread.
@@ -184,6 +184,12 @@ public:
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                m_size.fetch_sub(std::size(handles), std::memory_order::release);
+                return 0;
+            }
+
             for (const auto& handle : handles)
             {
                 if (handle != nullptr) [[likely]]
@@ -279,7 +285,7 @@ private:
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..d942a07 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,14 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) -> void
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    if (!m_thread_pool.schedule_impl(awaiting_coroutine))
+    {
+        // The thread pool was shut down after schedule() returned this operation.
+        m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -90,7 +95,11 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
         return false;
     }
 
-    schedule_impl(handle);
+    if (!schedule_impl(handle))
+    {
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
     return true;
 }
 
@@ -169,18 +178,26 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
     {
         std::scoped_lock lk{m_wait_mutex};
+        // This must be checked while holding the lock, otherwise the executor threads could have already seen an empty
+        // queue and exited.
+        if (m_shutdown_requested.load(std::memory_order::acquire))
+        {
+            return false;
+        }
         m_queue.emplace_back(handle);
         m_wait_cv.notify_one();
     }
+
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From eb942e9dc8cd5f0abdbb2e842d4a50a85829d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 15/67] fix: thread_pool::spawn_detached() cleans up a task
 that is refused

---
 src/thread_pool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index d942a07..e16bd10 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -72,7 +72,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task will never run, so its final suspend cannot clean up.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From 63c104c8f7777ee09ac4818d094fd43eba6d7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 16/67] fix: thread_pool::queue_size() reads the queue under
 its lock

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 6297d44..c553728 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -256,7 +256,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -271,7 +271,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// FIFO queue of tasks waiting to be executed.
-- 
2.43.0


From 761d6a8110c268ec87c13fda72f4179c25db571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 17/67] fix: task_group decides that it is empty under a lock

The event could be set after another task was started, and it could be
set by a task that wasn't counted anymore while the group was destroyed.
---
 include/coro/task_group.hpp | 61 ++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..a453418 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -3,12 +3,14 @@
 #include "coro/concepts/executor.hpp"
 #include "coro/concepts/range_of.hpp"
 #include "coro/detail/task_self_deleting.hpp"
-#include "coro/event.hpp"
 #include "coro/task.hpp"
 
 #include <atomic>
+#include <coroutine>
 #include <memory>
+#include <mutex>
 #include <thread>
+#include <utility>
 
 namespace coro
 {
@@ -17,6 +19,34 @@ template<concepts::executor executor_type>
 class task_group
 {
 public:
+    struct awaiter
+    {
+        explicit awaiter(const task_group& group) noexcept : m_group(group) {}
+
+        auto await_ready() const noexcept -> bool { return m_group.empty(); }
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
+        {
+            std::scoped_lock lk{m_group.m_mutex};
+            if (m_group.empty())
+            {
+                return false;
+            }
+
+            m_awaiting_coroutine = awaiting_coroutine;
+            m_next               = m_group.m_awaiters;
+            m_group.m_awaiters   = this;
+            return true;
+        }
+        auto await_resume() const noexcept -> void {}
+
+        /// The task group being waited for.
+        const task_group& m_group;
+        /// The coroutine to resume once the group is empty.
+        std::coroutine_handle<> m_awaiting_coroutine{nullptr};
+        /// The next awaiter waiting for the group to be empty.
+        awaiter* m_next{nullptr};
+    };
+
     /**
      * Creates a task group to run the tasks on the given executor, use start(task) to add tasks to the group.
      * @param executor The executor to run the tasks on.
@@ -86,6 +116,9 @@ public:
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
         }
+
+        // The task that emptied the group might still be using it.
+        std::scoped_lock lk{m_mutex};
     }
 
     /**
@@ -96,8 +129,6 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
         m_size.fetch_add(1, std::memory_order::release);
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
@@ -127,20 +158,34 @@ public:
      * for the task count to drop to zero and then increase again. It is advisable to not
      * await this method on the task group until you know all tasks in the group have started.
      */
-    auto operator co_await() const noexcept -> event::awaiter { return m_on_empty_event.operator co_await(); }
+    auto operator co_await() const noexcept -> awaiter { return awaiter{*this}; }
 
 private:
     executor_type* m_executor{nullptr};
     /// The number of alive tasks.
     std::atomic<uint64_t> m_size{};
-    /// Event to trigger if m_size goes to zero.
-    coro::event m_on_empty_event{true};
+    /// Guards m_awaiters, and m_size going to zero.
+    mutable std::mutex m_mutex{};
+    /// The awaiters to resume when m_size goes to zero.
+    mutable awaiter* m_awaiters{nullptr};
 
     auto count_down() -> void
     {
-        if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+        awaiter* waiter{nullptr};
+        {
+            std::scoped_lock lk{m_mutex};
+            if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+            {
+                waiter = std::exchange(m_awaiters, nullptr);
+            }
+        }
+
+        // The group can be destroyed by a resumed awaiter, do not use it from here on.
+        while (waiter != nullptr)
         {
-            m_on_empty_event.set();
+            auto* next = waiter->m_next;
+            waiter->m_awaiting_coroutine.resume();
+            waiter = next;
         }
     }
 };
-- 
2.43.0


From 9f374610f2c09b0761e867e3778b179814a9cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 18/67] fix: task_group::start() cleans up a task that is
 refused

---
 include/coro/task_group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index a453418..f3f3253 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -136,6 +136,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // The task will never run, so its final suspend cannot clean up.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
-- 
2.43.0


From e897c6190c9c9c13109a9cda5c8c39f4bd2f3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:25 +0000
Subject: [PATCH 19/67] fix: when_any completes with an exception if every
 awaitable throws

---
 include/coro/when_any.hpp | 95 +++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 13 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index ba73d79..503f682 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -14,7 +14,9 @@
     #include <atomic>
     #include <cassert>
     #include <coroutine>
+    #include <exception>
     #include <optional>
+    #include <stdexcept>
     #include <stop_token>
     #include <utility>
     #include <vector>
@@ -37,6 +39,23 @@ struct when_any_variant_traits<void>
     using type = std::monostate;
 };
 
+/**
+ * If every awaitable throws there is no result, the awaiter of when_any is given the first awaitable's exception.
+ */
+template<typename task_type>
+static auto get_when_any_exception(task_type& task) noexcept -> std::exception_ptr
+{
+    try
+    {
+        (void)task.return_value();
+    }
+    catch (...)
+    {
+        return std::current_exception();
+    }
+    return nullptr;
+}
+
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
     std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
@@ -71,11 +90,17 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     std::index_sequence<indices...>,
     coro::event&                notify,
     std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
-    co_await coro::when_all(
+    auto              tasks = co_await coro::when_all(
         make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+    if (!first_completed.load(std::memory_order::acquire))
+    {
+        exception = get_when_any_exception(std::get<0>(tasks));
+        notify.set();
+    }
     co_return;
 }
 
@@ -111,8 +136,8 @@ static auto make_when_any_task(
 }
 
 template<std::ranges::range range_type, concepts::awaitable awaitable_type = std::ranges::range_value_t<range_type>>
-static auto make_when_any_controller_task_return_void(range_type awaitables, coro::event& notify)
-    -> coro::detail::task_self_deleting
+static auto make_when_any_controller_task_return_void(
+    range_type awaitables, coro::event& notify, std::exception_ptr& exception) -> coro::detail::task_self_deleting
 {
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
@@ -127,7 +152,13 @@ static auto make_when_any_controller_task_return_void(range_type awaitables, cor
         tasks.emplace_back(make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto completed = co_await coro::when_all(std::move(tasks));
+    if (!first_completed.load(std::memory_order::acquire))
+    {
+        exception = completed.empty() ? std::make_exception_ptr(std::runtime_error{"when_any() of zero awaitables."})
+                                      : get_when_any_exception(completed.front());
+        notify.set();
+    }
     co_return;
 }
 
@@ -137,8 +168,10 @@ template<
     typename return_type               = typename concepts::awaitable_traits<awaitable_type>::awaiter_return_type,
     typename return_type_base          = std::remove_reference_t<return_type>>
 static auto make_when_any_controller_task(
-    range_type awaitables, coro::event& notify, std::optional<return_type_base>& return_value)
-    -> coro::detail::task_self_deleting
+    range_type                       awaitables,
+    coro::event&                     notify,
+    std::optional<return_type_base>& return_value,
+    std::exception_ptr&              exception) -> coro::detail::task_self_deleting
 {
     // This must live for as long as the longest running when_any task since each task tries to see
     // if it was the first to complete. Only the very first task to complete will set the return_value
@@ -159,7 +192,13 @@ static auto make_when_any_controller_task(
             make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto completed = co_await coro::when_all(std::move(tasks));
+    if (!first_completed.load(std::memory_order::acquire))
+    {
+        exception = completed.empty() ? std::make_exception_ptr(std::runtime_error{"when_any() of zero awaitables."})
+                                      : get_when_any_exception(completed.front());
+        notify.set();
+    }
     co_return;
 }
 
@@ -175,16 +214,22 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
     stop_source.request_stop();
+    if (exception)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -198,15 +243,21 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
+    if (exception)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -217,16 +268,21 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(std::stop_source stop_source, range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -235,11 +291,15 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
@@ -251,15 +311,20 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -267,10 +332,14 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
-- 
2.43.0


From 33c8101ed71231b90eb2d4376de13978b53d8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 20/67] fix: awaiting invoke() waits for a coroutine that
 suspends

---
 include/coro/invoke.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 1111888..c4cb5f7 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <coroutine>
 #include <utility>
 
 namespace coro
@@ -12,6 +13,9 @@ template<typename functor_type, typename... args_types>
 auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(functor(std::forward<args_types>(args)...))
 {
     auto user_task = functor(std::forward<args_types>(args)...);
+    // The arguments are captured, wait to be awaited. Resuming any further here would start the user's task before
+    // this coroutine has a continuation, and awaiting this coroutine would resume it while the user's task is suspended.
+    co_await std::suspend_always{};
     co_return co_await user_task;
 }
 
-- 
2.43.0


From a0feae2665fa5fff728566a05afe657a0087f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 21/67] fix: a thread entering scheduler::process_events() is
 ordered after the one that left it

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..88e3779 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -236,7 +236,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acquire, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From 1f30f16e6be24020592658ae51397bc7d6a3bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 22/67] fix: the event loop is ordered after the suspension of
 the coroutine it resumes

---
 include/coro/detail/poll_info.hpp |  5 ++---
 src/scheduler.cpp                 | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..82ed730 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,7 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -73,7 +72,7 @@ struct poll_info
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
     /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{std::coroutine_handle<>{}};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 88e3779..bdff0bc 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -16,6 +16,17 @@ namespace coro
 
 namespace detail
 {
+/**
+ * An event or timeout can be seen by the event loop while the polling coroutine is still registering it, wait for the
+ * coroutine to be fully suspended.
+ */
+static auto wait_until_suspended(const poll_info& pi) noexcept -> std::coroutine_handle<>
+{
+    std::coroutine_handle<> handle{};
+    while ((handle = pi.m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr) {}
+    return handle;
+}
+
 static auto
     make_spawned_joinable_wait_task(std::unique_ptr<coro::task_group<coro::scheduler>> group_ptr) -> coro::task<void>
 {
@@ -386,7 +397,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 {
     if (!pi->m_processed)
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
@@ -405,12 +415,7 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
-        m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+        m_handles_to_resume.emplace_back(detail::wait_until_suspended(*pi));
     }
 }
 
@@ -452,12 +457,7 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
-            {
-                std::atomic_thread_fence(std::memory_order::acquire);
-            }
-
-            m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+            m_handles_to_resume.emplace_back(detail::wait_until_suspended(*pi));
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From 65f72dc53830f72f1623ae740b35e5ebb82ea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 23/67] fix: the event loop reads the pending timers under
 their lock when it re-arms the timer

---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index bdff0bc..0046e6a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -464,6 +464,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From 6979356ee896fb94d7e40a20673e83470ca3c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 24/67] fix: scheduler::yield_until() does not resume up to a
 millisecond early

---
 src/scheduler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0046e6a..ac6382d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -125,10 +125,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     {
         m_size.fetch_add(1, std::memory_order::release);
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From d4a00af143c6dfa8b42cf6ca9b2e3f02dfb10382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:46 +0000
Subject: [PATCH 25/67] fix: moved-from pipes own nothing and assigning to a
 pipe closes what it held

---
 include/coro/detail/pipe.hpp | 2 +-
 include/coro/poll.hpp        | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/include/coro/poll.hpp b/include/coro/poll.hpp
index 22aca81..116cfbe 100644
--- a/include/coro/poll.hpp
+++ b/include/coro/poll.hpp
@@ -88,7 +88,7 @@ public:
     poll_stop_source() = default;
 
     poll_stop_source(const poll_stop_source&) = delete;
-    poll_stop_source(poll_stop_source&& other) { *this = std::move(other); }
+    poll_stop_source(poll_stop_source&& other) noexcept : m_pipe(std::move(other.m_pipe)) {}
 
     poll_stop_source& operator=(const poll_stop_source&) = delete;
     poll_stop_source& operator=(poll_stop_source&& other)
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From 4bcefe918392ec2bb4ae19c3a097e04cb5ecfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 26/67] fix: a finished poll stays registered with neither its
 descriptor nor its stop token, and polls can share a stop token

---
 include/coro/detail/poll_info.hpp |  2 ++
 src/detail/io_notifier_epoll.cpp  | 44 ++++++++++++++++++++++---------
 src/scheduler.cpp                 | 11 +++++---
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 82ed730..551ead6 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -80,6 +80,8 @@ struct poll_info
     bool m_processed{false};
     /// Cancellation receiver of this poll operation.
     std::optional<poll_stop_token> m_cancel_trigger = std::nullopt;
+    /// This poll operation's own descriptor of the cancellation receiver, a stop token can be shared by many polls.
+    fd_t m_cancel_fd{-1};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..3c5c262 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -2,7 +2,9 @@
 
 #include <chrono>
 #include <cstdint>
+#include <fcntl.h>
 #include <stdexcept>
+#include <unistd.h>
 
 #include "coro/detail/poll_info.hpp"
 #include "coro/detail/timer_handle.hpp"
@@ -101,11 +103,28 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
-
     if (pi.m_cancel_trigger.has_value())
     {
-        watch(pi.m_cancel_trigger.value().native_handle(), poll_op::read, static_cast<void*>(&pi), false, true);
+        // epoll allows a descriptor to be registered only once, but a stop token can be used by many polls.
+        pi.m_cancel_fd = ::fcntl(pi.m_cancel_trigger.value().native_handle(), F_DUPFD_CLOEXEC, 0);
+        if (pi.m_cancel_fd == -1)
+        {
+            return false;
+        }
+    }
+
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        if (pi.m_cancel_fd != -1)
+        {
+            ::close(pi.m_cancel_fd);
+        }
+        return false;
+    }
+
+    if (pi.m_cancel_fd != -1)
+    {
+        watch(pi.m_cancel_fd, poll_op::read, static_cast<void*>(&pi), false, true);
     }
 
     return true;
@@ -118,6 +137,13 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    if (pi.m_cancel_fd != -1)
+    {
+        unwatch(pi.m_cancel_fd, poll_op::read);
+        ::close(pi.m_cancel_fd);
+        pi.m_cancel_fd = -1;
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
@@ -137,26 +163,18 @@ auto io_notifier_epoll::next_events(
     int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
     for (int i = 0; i < num_ready; ++i)
     {
-        auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
-        auto* pi                                       = static_cast<poll_info*>(udata);
+        [[maybe_unused]] auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
+        auto* pi                                                        = static_cast<poll_info*>(udata);
 
         // If the event issuing fd is the same as the fd of the cancellation trigger of the registered poll_info we
         // this operation was cancelled by the user.
         if (is_cancel_event)
         {
             ready_events.emplace_back(pi, poll_status::cancelled);
-            if (!keep_registered)
-            {
-                unwatch(*pi);
-            }
         }
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
-            {
-                unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
-            }
         }
     }
 }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ac6382d..a79177e 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -395,6 +395,9 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 {
     if (!pi->m_processed)
     {
+        // The registrations of the poll are only complete once its coroutine is suspended.
+        auto handle = detail::wait_until_suspended(*pi);
+
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
@@ -412,8 +415,7 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
         }
 
         pi->m_poll_status = status;
-
-        m_handles_to_resume.emplace_back(detail::wait_until_suspended(*pi));
+        m_handles_to_resume.emplace_back(handle);
     }
 }
 
@@ -445,6 +447,9 @@ auto scheduler::process_timeout_execute() -> void
     {
         if (!pi->m_processed)
         {
+            // The registrations of the poll are only complete once its coroutine is suspended.
+            auto handle = detail::wait_until_suspended(*pi);
+
             // Its possible the event and the timeout occurred in the same epoll, make sure only one
             // is ever processed, the other is discarded.
             pi->m_processed = true;
@@ -455,7 +460,7 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            m_handles_to_resume.emplace_back(detail::wait_until_suspended(*pi));
+            m_handles_to_resume.emplace_back(handle);
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From fc182d063c7329941ccb787433e6d51f03ab8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:30 +0000
Subject: [PATCH 27/67] fix: polling a descriptor that cannot be watched is an
 error instead of waiting for ever

---
 src/scheduler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index a79177e..bdb56d0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -150,14 +150,17 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        // No event will ever arrive for this file descriptor.
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+        m_size.fetch_sub(1, std::memory_order::release);
+        co_return poll_status::error;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
-- 
2.43.0


From 58d420a9d0f4de0d7c4fafd044924ff267c5573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 28/67] fix: scheduler accepted work its event loop was too far
 gone to run

Work offered while or after the event loop ended (schedule(), resume(),
yield_for(), poll(), ...) was put into lists nobody looks at anymore. It is
refused now: resume() returns false, poll() an error, the awaitables throw.
---
 include/coro/scheduler.hpp | 39 ++++++++++++++++++++++++-------
 src/scheduler.cpp          | 48 +++++++++++++++++++++++++++++++++-----
 2 files changed, 73 insertions(+), 14 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 050669a..6d342b1 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -141,16 +141,20 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing thread to resume from.
+         * @return True if the coroutine was scheduled, false if the scheduler is shut down and cannot run it anymore.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
                 // Once this operation is pushed it can be resumed and destroyed by the event loop at any time.
                 auto& scheduler = m_scheduler;
-                scheduler.m_size.fetch_add(1, std::memory_order::release);
+                if (!scheduler.acquire_work())
+                {
+                    m_refused = true;
+                    return false;
+                }
                 m_awaiting_coroutine = awaiting_coroutine;
                 detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
@@ -169,20 +173,30 @@ public:
                     }
                 }
             }
-            else
+            else if (!m_scheduler.m_thread_pool->resume(awaiting_coroutine))
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                m_refused = true;
+                return false;
             }
+            return true;
         }
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the executing thread.
+         * @throws std::runtime_error If the scheduler is shut down and could not schedule the coroutine.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void
+        {
+            if (m_refused)
+            {
+                throw std::runtime_error("coro::scheduler is shutting down, unable to schedule new tasks.");
+            }
+        }
 
         std::coroutine_handle<> m_awaiting_coroutine;
         schedule_operation*     m_next{nullptr};
         bool                    m_allocated{false};
+        bool                    m_refused{false};
 
     private:
         /// The thread pool that this operation will execute on.
@@ -479,6 +493,15 @@ private:
     /// The number of tasks executing or awaiting events in this io scheduler.
     std::atomic<std::size_t> m_size{0};
 
+    /// The dedicated event loop has ended, it will not process any more work.
+    std::atomic<bool> m_event_loop_ended{false};
+
+    /**
+     * Accounts for a new piece of work that the event loop has to finish.
+     * @return False if the event loop has ended and the work cannot be accepted.
+     */
+    auto acquire_work() noexcept -> bool;
+
     /// The background io worker threads.
     std::thread m_io_thread;
     /// Thread pool for executing tasks when not in inline mode.
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index bdb56d0..9db68bb 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -93,6 +93,18 @@ auto scheduler::process_events(std::chrono::milliseconds timeout) -> std::size_t
     return size();
 }
 
+auto scheduler::acquire_work() noexcept -> bool
+{
+    // The event loop sets its flag and then looks at the size, at least one of the two sides sees the other.
+    m_size.fetch_add(1, std::memory_order::seq_cst);
+    if (m_event_loop_ended.load(std::memory_order::seq_cst))
+    {
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
+}
+
 auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
 {
     m_size.fetch_add(1, std::memory_order::release);
@@ -123,7 +135,10 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     }
     else
     {
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!acquire_work())
+        {
+            throw std::runtime_error("coro::scheduler is shutting down, unable to schedule new tasks.");
+        }
 
         detail::poll_info pi{};
         add_timer_token(time, pi);
@@ -140,7 +155,10 @@ auto scheduler::poll(
 {
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
-    m_size.fetch_add(1, std::memory_order::release);
+    if (!acquire_work())
+    {
+        co_return poll_status::error;
+    }
 
     // Setup two events, a timeout event and the actual poll for op event.
     // Whichever triggers first will delete the other to guarantee only one wins.
@@ -186,7 +204,11 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
     {
         auto* schedule_op        = new schedule_operation{*this};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->await_suspend(handle))
+        {
+            delete schedule_op;
+            return false;
+        }
         return true;
     }
     else
@@ -232,7 +254,10 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
         // for the scheduled task there.
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!acquire_work())
+        {
+            throw std::runtime_error("coro::scheduler is shutting down, unable to schedule new tasks.");
+        }
 
         // Yielding does not require setting the timer position on the poll info since
         // it doesn't have a corresponding 'event' that can trigger, it always waits for
@@ -264,9 +289,20 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (true)
     {
-        process_events_execute(m_default_timeout);
+        while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+        {
+            process_events_execute(m_default_timeout);
+        }
+
+        // From here on new work is refused, unless some was accepted just before.
+        m_event_loop_ended.store(true, std::memory_order::seq_cst);
+        if (m_size.load(std::memory_order::seq_cst) == 0 && size() == 0)
+        {
+            break;
+        }
+        m_event_loop_ended.store(false, std::memory_order::seq_cst);
     }
     m_io_processing.exchange(false, std::memory_order::release);
 
-- 
2.43.0


From 12fe26067d38b32af9ea7e6140acf95c71e0dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 29/67] fix: scheduler::size() missed a task moving from the
 thread pool to the event loop

The event loop could end with a task left waiting for a timer or an event.
---
 include/coro/scheduler.hpp | 7 +++++--
 src/scheduler.cpp          | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 6d342b1..24b3de1 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -450,11 +450,14 @@ public:
     {
         if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
         {
-            return m_size.load(std::memory_order::acquire);
+            return m_size.load(std::memory_order::seq_cst);
         }
         else
         {
-            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();
+            // Tasks on the thread pool start to wait for events before they stop being counted by the thread pool,
+            // looking at the two in this order cannot miss a task on its way from one to the other.
+            const std::size_t executing = m_thread_pool->size();
+            return executing + m_size.load(std::memory_order::seq_cst);
         }
     }
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 9db68bb..e0bea30 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -298,7 +298,7 @@ auto scheduler::process_events_dedicated_thread() -> void
 
         // From here on new work is refused, unless some was accepted just before.
         m_event_loop_ended.store(true, std::memory_order::seq_cst);
-        if (m_size.load(std::memory_order::seq_cst) == 0 && size() == 0)
+        if (size() == 0)
         {
             break;
         }
-- 
2.43.0


From b1c2af624e22396bc0cf3a6e19978128793330da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 30/67] fix: scheduler::spawn_detached() leaked a refused task
 and counted it forever

---
 src/scheduler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index e0bea30..cca32e2 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -110,7 +110,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task will never run, so its final suspend cannot clean up.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
-- 
2.43.0


From ab1d1be8565293d795f11c0ead09c92474b4f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:34 +0000
Subject: [PATCH 31/67] fix: scheduler::size() could read zero while a task
 moves from the event loop to the thread pool

---
 include/coro/scheduler.hpp | 20 ++++++++++++++++----
 src/scheduler.cpp          |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 24b3de1..b36469f 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -454,10 +454,19 @@ public:
         }
         else
         {
-            // Tasks on the thread pool start to wait for events before they stop being counted by the thread pool,
-            // looking at the two in this order cannot miss a task on its way from one to the other.
-            const std::size_t executing = m_thread_pool->size();
-            return executing + m_size.load(std::memory_order::seq_cst);
+            while (true)
+            {
+                // Tasks on the thread pool start to wait for events before they stop being counted by the thread pool,
+                // looking at the two in this order cannot miss a task on its way from one to the other.  Start over
+                // if meanwhile the event loop moved tasks in the other direction.
+                const std::size_t moves     = m_moves_to_thread_pool.load(std::memory_order::seq_cst);
+                const std::size_t executing = m_thread_pool->size();
+                const std::size_t waiting   = m_size.load(std::memory_order::seq_cst);
+                if (moves == m_moves_to_thread_pool.load(std::memory_order::seq_cst))
+                {
+                    return executing + waiting;
+                }
+            }
         }
     }
 
@@ -496,6 +505,9 @@ private:
     /// The number of tasks executing or awaiting events in this io scheduler.
     std::atomic<std::size_t> m_size{0};
 
+    /// How often the event loop has handed tasks over to the thread pool.
+    std::atomic<std::size_t> m_moves_to_thread_pool{0};
+
     /// The dedicated event loop has ended, it will not process any more work.
     std::atomic<bool> m_event_loop_ended{false};
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index cca32e2..9424984 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -372,6 +372,7 @@ auto scheduler::process_events_execute(std::chrono::milliseconds timeout) -> voi
         else
         {
             m_thread_pool->resume(m_handles_to_resume);
+            m_moves_to_thread_pool.fetch_add(1, std::memory_order::seq_cst);
             m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);
         }
 
-- 
2.43.0


From 954401cadaae6e19fab6d539e0a1dd2b76e9334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 32/67] fix: assigning to a socket closes the descriptor it
 held, and only that one

Move assignment overwrote the descriptor without closing it; copy assignment of a socket to itself closed it.
---
 src/net/socket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..70e89f5 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,11 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
     return *this;
 }
 
@@ -28,6 +31,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From edf53990e54517cf5b2e665fbcd00de0bb5ae088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 33/67] fix: ip_address::from_string() reads no further than
 the end of the text

---
 include/coro/net/ip_address.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..79f556b 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -7,6 +7,7 @@
 #include <span>
 #include <stdexcept>
 #include <string>
+#include <string_view>
 
 namespace coro::net
 {
@@ -62,8 +63,10 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
-        if (success != 1)
+        // inet_pton() reads up to a terminating zero, which the view might not have, or have within.
+        const std::string text{address};
+        if (text.find('\0') != std::string::npos ||
+            inet_pton(static_cast<int>(addr.m_domain), text.c_str(), addr.m_data.data()) != 1)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
         }
-- 
2.43.0


From c920afc669daf7990f175f071d5be6feaad18c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 34/67] fix: writing to a closed tcp connection is reported
 instead of raising SIGPIPE

---
 include/coro/net/tcp/client.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..883b07e 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -398,7 +398,13 @@ private:
         typename element_type = typename concepts::const_buffer_traits<buffer_type>::element_type>
     auto send(const buffer_type& buffer) -> std::pair<io_status, std::span<element_type>>
     {
-        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), 0);
+#if defined(MSG_NOSIGNAL)
+        // Sending on a connection that was closed is reported by the status, it shouldn't raise SIGPIPE.
+        constexpr int flags{MSG_NOSIGNAL};
+#else
+        constexpr int flags{0};
+#endif
+        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), flags);
         if (bytes_sent >= 0)
         {
             // Some or all of the bytes were written.
-- 
2.43.0


From 24778c605ac35b204b2ec2a5befcccc70ddd317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 35/67] fix: a peer that has shut down its sending half can
 still be written to

---
 src/detail/io_notifier_epoll.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 3c5c262..3e2f497 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -84,9 +84,15 @@ auto io_notifier_epoll::watch_timer(const timer_handle& timer, std::chrono::nano
 auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool is_cancel_event) -> bool
 {
     auto event_data     = event_t{};
-    event_data.events   = static_cast<uint32_t>(op) | EPOLLRDHUP;
+    event_data.events   = static_cast<uint32_t>(op);
     event_data.data.u64 = encode_udata(keep, is_cancel_event, data);
 
+    if (op != poll_op::write)
+    {
+        // The peer having shut down its sending half only ends reading, writing to it is still possible.
+        event_data.events |= EPOLLRDHUP;
+    }
+
     if (!keep)
     {
         event_data.events |= EPOLLONESHOT;
-- 
2.43.0


From 474b6863544e642b6887be764d55aab62d7d0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 36/67] fix: tcp::client::connect() isn't connected if the
 result can't be retrieved

---
 src/net/tcp/client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/tcp/client.cpp b/src/net/tcp/client.cpp
index b0e0cef..94363de 100644
--- a/src/net/tcp/client.cpp
+++ b/src/net/tcp/client.cpp
@@ -111,6 +111,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connect_st
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connect_status::error);
                 }
 
                 if (result == 0)
-- 
2.43.0


From 1f53813d29487c5812fb5c3f481ece37501f73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 37/67] fix: tls::client::recv and send retry after polling for
 the opposite direction

When the library wants to write during a recv (or to read during a send) the client polled for
that direction, but went back to polling when it was ready instead of retrying the call, spinning
for ever.
---
 include/coro/net/tls/client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..ec514d4 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -108,9 +108,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    // The operation that was polled for is ready, retry.
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -204,9 +204,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::write:
-                    break;
                 case poll_status::read:
-                    continue;
+                    // The operation that was polled for is ready, retry.
+                    break;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From 8487079004bbe4b370b84f0c8954fef379e802b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 38/67] fix: tls::client::recv returns data that is already
 decrypted

When a record holds more than the buffer of one recv, the rest is kept by the library and the
socket doesn't become readable again for it: the next recv waited for unrelated data.
---
 include/coro/net/tls/client.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index ec514d4..51f2253 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -104,7 +104,12 @@ public:
                 start = std::chrono::steady_clock::now();
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            // Data that is already decrypted doesn't make the socket readable again, don't wait for it.
+            auto pstatus = poll_status::read;
+            if (SSL_pending(tls) <= 0)
+            {
+                pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            }
             switch (pstatus)
             {
                 case poll_status::read:
-- 
2.43.0


From ed6a0633e8741c5fd6d2d7f2b3713a62febeddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 39/67] fix: tls::client::recv and send time out although data
 keeps trickling in

The elapsed time was rounded down to milliseconds after each partial record, so an operation that
made some progress at least once a millisecond never timed out.
---
 include/coro/net/tls/client.hpp | 60 +++++++++++----------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 51f2253..3af132c 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -81,34 +81,28 @@ public:
 
         auto op = poll_op::read;
 
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto start             = std::chrono::steady_clock::now();
+        auto       first             = true;
+        auto       remaining_timeout = timeout.value_or(std::chrono::milliseconds{0});
 
         while (true)
         {
-            if (timeout.has_value())
+            if (timeout.has_value() && !first)
             {
-                auto& t = timeout.value();
-                if (!first)
+                remaining_timeout = timeout.value() - std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                          std::chrono::steady_clock::now() - start);
+                if (remaining_timeout <= std::chrono::milliseconds{0})
                 {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {recv_status::timeout, std::span<element_type>{}};
-                    }
+                    co_return {recv_status::timeout, std::span<element_type>{}};
                 }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
             }
+            first = false;
 
             // Data that is already decrypted doesn't make the socket readable again, don't wait for it.
             auto pstatus = poll_status::read;
             if (SSL_pending(tls) <= 0)
             {
-                pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+                pstatus = co_await poll(op, remaining_timeout);
             }
             switch (pstatus)
             {
@@ -129,10 +123,6 @@ public:
             size_t bytes_recv{0};
             ERR_clear_error();
             int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
             if (r <= 0)
             {
                 int err = SSL_get_error(tls, r);
@@ -182,30 +172,24 @@ public:
 
         auto op = poll_op::write;
 
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto start             = std::chrono::steady_clock::now();
+        auto       first             = true;
+        auto       remaining_timeout = timeout.value_or(std::chrono::milliseconds{0});
 
         while (true)
         {
-            if (timeout.has_value())
+            if (timeout.has_value() && !first)
             {
-                auto& t = timeout.value();
-                if (!first)
+                remaining_timeout = timeout.value() - std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                          std::chrono::steady_clock::now() - start);
+                if (remaining_timeout <= std::chrono::milliseconds{0})
                 {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {send_status::timeout, std::span<element_type>{}};
-                    }
+                    co_return {send_status::timeout, std::span<element_type>{}};
                 }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
             }
+            first = false;
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto pstatus = co_await poll(op, remaining_timeout);
             switch (pstatus)
             {
                 case poll_status::write:
@@ -225,10 +209,6 @@ public:
             size_t bytes_sent{0};
             ERR_clear_error();
             int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
             if (r <= 0)
             {
                 int err = SSL_get_error(tls, r);
-- 
2.43.0


From 0a5a83980d5ff9d420190c12f10f001fe6c5bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 40/67] fix: tls::server::accept keeps the result of the
 handshake

The result was dropped and the accepted client claimed to be connected whatever became of its handshake.
---
 src/net/tls/server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..390940a 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -58,8 +58,8 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
 
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
-    auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    // The user must check the result, tls_client.connect() returns it.
+    tls_client.m_connect_status = co_await tls_client.handshake(timeout);
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From 43b8c79f8800d4f626d49dad0d1fe654f321b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 41/67] fix: tls::client::connect doesn't go on when the
 connection's result is unknown

---
 src/net/tls/client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..34eb297 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -119,6 +119,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connection_status::error);
                 }
 
                 if (result == 0)
-- 
2.43.0


From 2de226cf3591f9501769ebbc8b1fede30205a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 42/67] fix: the timeout of a tls connect or accept covers the
 whole handshake

Every step of the handshake waited for up to the whole timeout again.
---
 src/net/tls/client.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 34eb297..66d69f1 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -98,6 +98,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
         return s;
     };
 
+    const auto start = std::chrono::steady_clock::now();
     auto [addr, len] = m_endpoint.data();
 
     auto cret = ::connect(m_socket.native_handle(), addr, len);
@@ -124,7 +125,16 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 
                 if (result == 0)
                 {
-                    // TODO: delta the already used time and remove from the handshake timeout.
+                    // The time connecting took isn't left for the handshake.
+                    if (timeout > 0ms)
+                    {
+                        timeout -= std::chrono::duration_cast<std::chrono::milliseconds>(
+                            std::chrono::steady_clock::now() - start);
+                        if (timeout <= 0ms)
+                        {
+                            co_return return_value(connection_status::timeout);
+                        }
+                    }
                     co_return return_value(co_await handshake(timeout));
                 }
             }
@@ -162,6 +172,9 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
+    const auto start             = std::chrono::steady_clock::now();
+    auto       remaining_timeout = timeout;
+
     int r{0};
     ERR_clear_error();
     while ((r = SSL_connect(tls)) != 1)
@@ -184,8 +197,17 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
             co_return connection_status::handshake_failed;
         }
 
-        // TODO: adjust timeout based on elapsed time so far.
-        auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
+        if (timeout > 0ms)
+        {
+            remaining_timeout = timeout - std::chrono::duration_cast<std::chrono::milliseconds>(
+                                              std::chrono::steady_clock::now() - start);
+            if (remaining_timeout <= 0ms)
+            {
+                co_return connection_status::timeout;
+            }
+        }
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, op, remaining_timeout);
         switch (pstatus)
         {
             case poll_status::timeout:
-- 
2.43.0


From fa5c01d34ea279ed5096761e73e6a4eef850d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 43/67] fix: tls::client::shutdown sends the closing
 notification although the socket's buffer is full

SSL_shutdown answers -1 with SSL_ERROR_WANT_WRITE then, which was taken for a failure, and the peer
saw a truncated connection.
---
 src/net/tls/client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 66d69f1..f04345b 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -271,6 +271,14 @@ auto client::tls_shutdown_and_free(std::chrono::milliseconds timeout) -> coro::t
         }
         else // r < 0 error
         {
+            // The closing notification doesn't fit into the socket's buffer yet.
+            if (SSL_get_error(tls_ptr, r) == SSL_ERROR_WANT_WRITE)
+            {
+                if (co_await m_scheduler->poll(m_socket, coro::poll_op::write, timeout) == poll_status::write)
+                {
+                    continue;
+                }
+            }
             co_return;
         }
     }
-- 
2.43.0


From e6990355910d188eb53cc86601219257707b2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 44/67] fix: moving a tls::client carries over whether it is
 shut down

A connection moved onto a client that was shut down was never shut down itself, its peer saw a
truncated connection.
---
 src/net/tls/client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index f04345b..1e25d12 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -49,7 +49,8 @@ client::client(client&& other) noexcept
       m_endpoint(std::move(other.m_endpoint)),
       m_socket(std::move(other.m_socket)),
       m_connect_status(std::exchange(other.m_connect_status, std::nullopt)),
-      m_tls_info(std::move(other.m_tls_info))
+      m_tls_info(std::move(other.m_tls_info)),
+      m_shutdown(other.m_shutdown.exchange(false, std::memory_order::acq_rel))
 {
 }
 
@@ -72,6 +73,8 @@ auto client::operator=(client&& other) noexcept -> client&
         m_socket         = std::move(other.m_socket);
         m_connect_status = std::exchange(other.m_connect_status, std::nullopt);
         m_tls_info       = std::move(other.m_tls_info);
+        m_shutdown.store(
+            other.m_shutdown.exchange(false, std::memory_order::acq_rel), std::memory_order::release);
     }
     return *this;
 }
-- 
2.43.0


From 1fac3271b9090db9597ca481917cca04c21487e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 45/67] fix: dns resolver's poll tasks don't race with it or
 outlive what they use

The poll tasks read the map of active sockets on the executor's threads while c-ares' callbacks modify it on others,
and look at it once more after a lookup's completion has let the user destruct the resolver.
---
 include/coro/net/dns/resolver.hpp | 148 +++++++++++++++++++++---------
 1 file changed, 105 insertions(+), 43 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..b9cebfc 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -79,10 +79,9 @@ class resolver
 {
 public:
     explicit resolver(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
-        : m_executor(executor),
-          m_timeout(timeout)
+        : m_state(std::make_shared<shared_state>(executor, timeout))
     {
-        if (m_executor == nullptr)
+        if (m_state->m_executor == nullptr)
         {
             throw std::runtime_error{"dns resolver cannot have nullptr executor"};
         }
@@ -102,9 +101,9 @@ public:
 
         ares_options options{};
         options.sock_state_cb      = resolver::ares_socket_state_callback;
-        options.sock_state_cb_data = this;
+        options.sock_state_cb_data = m_state.get();
 
-        auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
+        auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
             throw std::runtime_error{ares_strerror(channel_init_status)};
@@ -118,10 +117,15 @@ public:
 
     ~resolver()
     {
-        if (m_ares_channel != nullptr)
         {
-            ares_destroy(m_ares_channel);
-            m_ares_channel = nullptr;
+            // The poll tasks share the state, they notice that their sockets aren't active anymore.
+            std::scoped_lock lk{m_state->m_mutex};
+            if (m_state->m_ares_channel != nullptr)
+            {
+                ares_destroy(m_state->m_ares_channel);
+                m_state->m_ares_channel = nullptr;
+            }
+            m_state->m_active_sockets.clear();
         }
 
         {
@@ -140,18 +144,21 @@ public:
     auto host_by_name(const net::hostname& hn) -> coro::task<std::unique_ptr<result<executor_type>>>
     {
         coro::event resume_event{};
-        auto        result_ptr = std::make_unique<result<executor_type>>(m_executor, resume_event, 1);
+        auto        result_ptr = std::make_unique<result<executor_type>>(m_state->m_executor, resume_event, 1);
 
         ares_addrinfo_hints hints{};
         hints.ai_family = AF_UNSPEC; // Request both IPv4 and IPv6
 
-        ares_getaddrinfo(
-            m_ares_channel,
-            hn.data().data(),
-            nullptr, // service name (port number or NULL)
-            &hints,
-            ares_dns_callback,
-            result_ptr.get());
+        {
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_getaddrinfo(
+                m_state->m_ares_channel,
+                hn.data().data(),
+                nullptr, // service name (port number or NULL)
+                &hints,
+                ares_dns_callback,
+                result_ptr.get());
+        }
 
         // Suspend until this specific result is completed by ares.
         co_await resume_event;
@@ -159,59 +166,108 @@ public:
     }
 
 private:
-    /// The executor to drive the events for dns lookups.
-    std::unique_ptr<executor_type>& m_executor;
+    struct active_socket
+    {
+        /// The operations c-ares is currently interested in.
+        poll_op m_op;
+        /// Tells a socket from a previous one with the same file descriptor.
+        uint64_t m_id;
+    };
+
+    /// The poll tasks run on the executor's threads and can still be polling when the resolver is destructed.
+    struct shared_state : public std::enable_shared_from_this<shared_state>
+    {
+        shared_state(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
+            : m_executor(executor),
+              m_timeout(timeout)
+        {
+        }
+
+        /// The executor to drive the events for dns lookups.
+        std::unique_ptr<executor_type>& m_executor;
+
+        /// The global timeout per dns lookup request.
+        std::chrono::milliseconds m_timeout{0};
 
-    /// The global timeout per dns lookup request.
-    std::chrono::milliseconds m_timeout{0};
+        /// Critical section around the channel and the active sockets, held while c-ares calls back.
+        std::recursive_mutex m_mutex{};
 
-    /// The libc-ares channel for looking up dns entries.
-    ares_channel m_ares_channel{nullptr};
+        /// The libc-ares channel for looking up dns entries.
+        ares_channel m_ares_channel{nullptr};
 
-    /// This is the map of sockets that are currently being actively polled so multiple poll tasks
-    /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
+        /// This is the map of sockets that are currently being actively polled so multiple poll tasks
+        /// are not setup when socket state is changed.
+        std::unordered_map<fd_t, active_socket> m_active_sockets{};
 
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+        /// The id of the next active socket.
+        uint64_t m_next_id{0};
+    };
+
+    std::shared_ptr<shared_state> m_state;
+
+    static auto make_poll_task(std::shared_ptr<shared_state> state, fd_t fd, uint64_t id) -> coro::task<void>
     {
+        // The socket is active until it is closed by c-ares, its file descriptor might be in use again afterwards.
+        auto find_active = [&state, fd, id]() -> active_socket*
+        {
+            auto it = state->m_active_sockets.find(fd);
+            return (it != state->m_active_sockets.end() && it->second.m_id == id) ? &it->second : nullptr;
+        };
+
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (true)
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            poll_op op;
+            {
+                std::scoped_lock lk{state->m_mutex};
+                auto*            active = find_active();
+                if (active == nullptr)
+                {
+                    co_return;
+                }
+                op = active->m_op;
+            }
+
+            auto result = co_await state->m_executor->poll(fd, op, state->m_timeout);
+
+            std::scoped_lock lk{state->m_mutex};
+            if (find_active() == nullptr)
+            {
+                co_return;
+            }
+
             switch (result)
             {
                 case poll_status::read:
-                    ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);
+                    ares_process_fd(state->m_ares_channel, fd, ARES_SOCKET_BAD);
                     break;
                 case poll_status::write:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);
+                    ares_process_fd(state->m_ares_channel, ARES_SOCKET_BAD, fd);
                     break;
 
                 case poll_status::timeout:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    ares_process_fd(state->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
                     // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
+                    state->m_active_sockets.erase(fd);
                     break;
                 case poll_status::error:
                     // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
+                    state->m_active_sockets.erase(fd);
                     break;
                 case poll_status::cancelled:
-                    m_active_sockets.erase(fd);
+                    state->m_active_sockets.erase(fd);
                     break;
             }
         }
-
-        co_return;
     }
 
     static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void
     {
-        resolver* self = static_cast<resolver*>(data);
-        uint64_t  ops{0};
+        // The resolver's mutex is held, c-ares only calls back from within its functions.
+        auto*    state = static_cast<shared_state*>(data);
+        uint64_t ops{0};
 
         if (readable)
         {
@@ -226,15 +282,21 @@ private:
         auto poll_ops = static_cast<poll_op>(ops);
         if (ops != 0)
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            auto it = state->m_active_sockets.find(fd);
+            if (it != state->m_active_sockets.end())
+            {
+                it->second.m_op = poll_ops;
+            }
+            else
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                auto id = state->m_next_id++;
+                state->m_active_sockets.emplace(fd, active_socket{poll_ops, id});
+                state->m_executor->spawn_detached(make_poll_task(state->shared_from_this(), fd, id));
             }
         }
         else
         {
-            self->m_active_sockets.erase(fd);
+            state->m_active_sockets.erase(fd);
         }
     }
 
-- 
2.43.0


From 1c25f7f1d50d5f81517d3462f1c97a09f9d07f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 46/67] fix: dns lookups end if the name server's socket fails

The poll task stopped polling a socket with an error, or closed by the name server, without telling c-ares, which then
never completed the lookup: with a name server that refuses, host_by_name() didn't return.
---
 include/coro/net/dns/resolver.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index b9cebfc..1d066e6 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -18,6 +18,7 @@
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace coro::net::dns
@@ -214,6 +215,8 @@ private:
             return (it != state->m_active_sockets.end() && it->second.m_id == id) ? &it->second : nullptr;
         };
 
+        bool last_failed{false};
+
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
         while (true)
         {
@@ -236,6 +239,7 @@ private:
                 co_return;
             }
 
+            const auto failed = std::exchange(last_failed, result == poll_status::closed || result == poll_status::error);
             switch (result)
             {
                 case poll_status::read:
@@ -249,12 +253,15 @@ private:
                     ares_process_fd(state->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    state->m_active_sockets.erase(fd);
-                    break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    state->m_active_sockets.erase(fd);
+                    // c-ares learns what is wrong with the socket by reading from it.
+                    ares_process_fd(state->m_ares_channel, fd, ARES_SOCKET_BAD);
+                    if (failed && find_active() != nullptr)
+                    {
+                        // The socket can't be polled at all, nothing would ever complete the lookups.
+                        ares_cancel(state->m_ares_channel);
+                        state->m_active_sockets.erase(fd);
+                    }
                     break;
                 case poll_status::cancelled:
                     state->m_active_sockets.erase(fd);
-- 
2.43.0


From c1f440c1a70381c231a429e983393a1af6bd0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 47/67] fix: dns resolver's count of c-ares users is shared and
 is right after a failed construction

Every translation unit had a count and a mutex of its own, and a resolver whose channel can't be created left the library
initialised.
---
 include/coro/net/dns/resolver.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 1d066e6..82218ae 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -26,9 +26,9 @@ namespace coro::net::dns
 namespace detail
 {
 /// Global count to track if c-ares has been initialized or cleaned up.
-static uint64_t m_ares_count;
+inline uint64_t m_ares_count{0};
 /// Critical section around the c-ares global init/cleanup to prevent heap corruption.
-static std::mutex m_ares_mutex;
+inline std::mutex m_ares_mutex{};
 } // namespace detail
 
 template<concepts::io_executor executor_type>
@@ -107,6 +107,7 @@ public:
         auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
+            release_library();
             throw std::runtime_error{ares_strerror(channel_init_status)};
         }
     }
@@ -129,14 +130,7 @@ public:
             m_state->m_active_sockets.clear();
         }
 
-        {
-            std::scoped_lock g{detail::m_ares_mutex};
-            --detail::m_ares_count;
-            if (detail::m_ares_count == 0)
-            {
-                ares_library_cleanup();
-            }
-        }
+        release_library();
     }
 
     /**
@@ -167,6 +161,16 @@ public:
     }
 
 private:
+    static auto release_library() -> void
+    {
+        std::scoped_lock g{detail::m_ares_mutex};
+        --detail::m_ares_count;
+        if (detail::m_ares_count == 0)
+        {
+            ares_library_cleanup();
+        }
+    }
+
     struct active_socket
     {
         /// The operations c-ares is currently interested in.
-- 
2.43.0


From c6ce91da212d704546c6d2e4ea40cbdf631bbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 48/67] fix: dns resolver polls its sockets through descriptors
 of its own

C-ares closes a socket while it is polled (when a resolver is destructed, for example). The poll then stayed behind until
its time-out, or forever without one, and its end removed whatever socket had been given the same number from the
scheduler.
---
 include/coro/net/dns/resolver.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 82218ae..26b070a 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -5,12 +5,15 @@
 #include "coro/fd.hpp"
 #include "coro/net/hostname.hpp"
 #include "coro/net/ip_address.hpp"
+#include "coro/net/socket.hpp"
 #include "coro/poll.hpp"
 #include "coro/task.hpp"
 
 #include <ares.h>
 #include <arpa/inet.h>
 #include <netdb.h>
+#include <sys/socket.h>
+#include <unistd.h>
 
 #include <array>
 #include <chrono>
@@ -210,8 +213,11 @@ private:
 
     std::shared_ptr<shared_state> m_state;
 
-    static auto make_poll_task(std::shared_ptr<shared_state> state, fd_t fd, uint64_t id) -> coro::task<void>
+    static auto make_poll_task(std::shared_ptr<shared_state> state, fd_t fd, net::socket sock, uint64_t id)
+        -> coro::task<void>
     {
+        // The socket is polled through a file descriptor of its own (sock), c-ares closes fd at any time.
+
         // The socket is active until it is closed by c-ares, its file descriptor might be in use again afterwards.
         auto find_active = [&state, fd, id]() -> active_socket*
         {
@@ -235,7 +241,7 @@ private:
                 op = active->m_op;
             }
 
-            auto result = co_await state->m_executor->poll(fd, op, state->m_timeout);
+            auto result = co_await state->m_executor->poll(sock.native_handle(), op, state->m_timeout);
 
             std::scoped_lock lk{state->m_mutex};
             if (find_active() == nullptr)
@@ -302,11 +308,14 @@ private:
             {
                 auto id = state->m_next_id++;
                 state->m_active_sockets.emplace(fd, active_socket{poll_ops, id});
-                state->m_executor->spawn_detached(make_poll_task(state->shared_from_this(), fd, id));
+                state->m_executor->spawn_detached(
+                    make_poll_task(state->shared_from_this(), fd, net::socket{::dup(fd)}, id));
             }
         }
         else
         {
+            // C-ares is about to close the socket, this ends a poll that is waiting for it.
+            ::shutdown(fd, SHUT_RDWR);
             state->m_active_sockets.erase(fd);
         }
     }
-- 
2.43.0


From 5fd58c3a096b14eefff4f8a33193cbf4ed696ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 49/67] fix: queue keeps its waiter when pushing the element
 throws

---
 include/coro/queue.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index e7643aa..eab22b0 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -185,11 +185,12 @@ public:
         // assert(m_element.empty())
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Transfer the element directly to the awaiter, it keeps waiting if the element cannot be copied.
+            auto* waiter      = m_waiters;
+            waiter->m_element = element;
+            m_waiters         = waiter->m_next;
             lock.unlock();
 
-            // Transfer the element directly to the awaiter.
-            waiter->m_element = element;
             waiter->m_awaiting_coroutine.resume();
         }
         else
@@ -219,11 +220,12 @@ public:
 
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Transfer the element directly to the awaiter, it keeps waiting if the element cannot be moved.
+            auto* waiter      = m_waiters;
+            waiter->m_element = std::move(element);
+            m_waiters         = waiter->m_next;
             lock.unlock();
 
-            // Transfer the element directly to the awaiter.
-            waiter->m_element = std::move(element);
             waiter->m_awaiting_coroutine.resume();
         }
         else
@@ -253,10 +255,12 @@ public:
 
         if (m_waiters != nullptr)
         {
-            auto* waiter = std::exchange(m_waiters, m_waiters->m_next);
+            // Construct the element directly in the awaiter, it keeps waiting if that fails.
+            auto* waiter = m_waiters;
+            waiter->m_element.emplace(std::forward<args_type>(args)...);
+            m_waiters = waiter->m_next;
             lock.unlock();
 
-            waiter->m_element.emplace(std::forward<args_type>(args)...);
             waiter->m_awaiting_coroutine.resume();
         }
         else
-- 
2.43.0


From 23a87f7dcf8c27242ea69feb35c22e27881af9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 50/67] fix: queue::size() and empty() do not race with pushes
 and pops

---
 include/coro/queue.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index eab22b0..7927265 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -88,6 +88,7 @@ public:
                 }
 
                 m_queue.m_elements.pop();
+                m_queue.m_size.fetch_sub(1, std::memory_order::release);
                 m_queue.m_mutex.unlock();
                 return true;
             }
@@ -159,8 +160,7 @@ public:
      */
     auto size() const -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
-        return m_elements.size();
+        return m_size.load(std::memory_order::acquire);
     }
 
     /**
@@ -196,6 +196,7 @@ public:
         else
         {
             m_elements.push(element);
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -231,6 +232,7 @@ public:
         else
         {
             m_elements.push(std::move(element));
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -266,6 +268,7 @@ public:
         else
         {
             m_elements.emplace(std::forward<args_type>(args)...);
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -324,6 +327,7 @@ public:
             }
 
             m_elements.pop();
+            m_size.fetch_sub(1, std::memory_order::release);
             return value;
         }
 
@@ -407,6 +411,8 @@ private:
     coro::mutex m_mutex{};
     /// @brief The underlying queue data structure.
     std::queue<element_type> m_elements{};
+    /// @brief The number of elements, it can be read without holding the mutex.
+    std::atomic<std::size_t> m_size{0};
     /// @brief The current running state of the queue.
     std::atomic<running_state_t> m_running_state{running_state_t::running};
 };
-- 
2.43.0


From d14597c3ead3c6b7eb1b7b0a475ddd7f45084e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 51/67] fix: shared_mutex scoped locks are released when the
 scoped task throws

---
 include/coro/shared_mutex.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..336f33c 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,20 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock_shared();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +153,20 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From 386ecf07afcf62dca7cceac4aae93f194f7c9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:42 +0000
Subject: [PATCH 52/67] fix: semaphore::try_acquire() fails once the semaphore
 is shut down

---
 include/coro/semaphore.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/coro/semaphore.hpp b/include/coro/semaphore.hpp
index ee362e0..9a48932 100644
--- a/include/coro/semaphore.hpp
+++ b/include/coro/semaphore.hpp
@@ -142,6 +142,11 @@ public:
      */
     auto try_acquire() -> bool
     {
+        if (is_shutdown())
+        {
+            return false;
+        }
+
         auto expected = m_counter.load(std::memory_order::acquire);
         do
         {
-- 
2.43.0


From 9101914299984e0e3b9e69e18fcd664d24954b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:14 +0000
Subject: [PATCH 53/67] fix: condition_variable waits with a stop token end
 once stop is requested

A wait with a stop token only looked at the token when it was notified. A wait that began after, or at the same time as,
request_stop() and notify_all() was never notified again and waited for ever, or until its deadline.
---
 include/coro/condition_variable.hpp | 22 +++++++++++++++++-----
 src/condition_variable.cpp          |  9 ++++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index b993f0c..e71de3c 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -289,15 +289,25 @@ private:
          * access the true awaiter the awaiter_completed atomic bool must be acquired, if it is not acquired the calling
          * awaiter is invalid since it has already been resumed with the first event of timeout or no_timeout.
          *
+         * @param stopped Set if a stop is already requested, the wait is over then and the lock is still held.
          * @return coro::detail::task_self_deleting This task is self deleting since it has an indeterminate lifetime.
          */
-        auto make_controller_task() -> coro::detail::task_self_deleting
+        auto make_controller_task(bool& stopped) -> coro::detail::task_self_deleting
         {
             controller_data data{m_status, m_predicate_result, std::move(m_predicate), std::move(m_stop_token)};
             // We enqueue the hook_task since we can make it live until the notify occurs and will properly resume the
             // actual coroutine only once.
             awaiter_with_wait_hook hook_task{m_condition_variable, m_lock, data};
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
+
+            // The stop isn't requested under the lock, its notify could have missed the hook task.
+            if (data.m_stop_token.has_value() && data.m_stop_token.value().stop_requested() &&
+                m_condition_variable.remove_awaiter(&hook_task))
+            {
+                stopped = true;
+                co_return;
+            }
+
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
             co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, hook_task, m_executor, m_wait_for));
@@ -313,11 +323,12 @@ private:
             }
 
             m_predicate_result = m_predicate.value()();
-            if (m_predicate_result && m_stop_token.has_value() && m_stop_token.value().stop_requested())
+            const bool stopped = m_stop_token.has_value() && m_stop_token.value().stop_requested();
+            if (m_predicate_result && stopped)
             {
                 m_status = std::cv_status::no_timeout;
             }
-            return m_predicate_result;
+            return m_predicate_result || stopped;
         }
 
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
@@ -325,9 +336,10 @@ private:
             m_awaiting_coroutine = awaiting_coroutine; // This is the real coroutine to resume.
 
             // Make the background controller which proxies between the notify task and the timeout task.
-            auto controller = make_controller_task();
+            bool stopped{false};
+            auto controller = make_controller_task(stopped);
             controller.handle().resume(); // It can complete and self delete before this returns.
-            return true;
+            return !stopped;
         }
 
         auto await_resume() noexcept -> return_type
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index fc697ee..c43599b 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -100,13 +100,20 @@ condition_variable::awaiter_with_predicate_stop_token::awaiter_with_predicate_st
 auto condition_variable::awaiter_with_predicate_stop_token::await_ready() noexcept -> bool
 {
     m_predicate_result = m_predicate();
-    return m_predicate_result;
+    return m_predicate_result || m_stop_token.stop_requested();
 }
 
 auto condition_variable::awaiter_with_predicate_stop_token::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
     m_awaiting_coroutine = awaiting_coroutine;
     coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+
+    // The stop isn't requested under the lock, its notify could have missed this waiter.
+    if (m_stop_token.stop_requested() && m_condition_variable.remove_awaiter(this))
+    {
+        return false;
+    }
+
     m_lock.m_mutex->unlock();
     return true;
 }
-- 
2.43.0


From 15935a46c2c4e9a71618ad0dae32ed8dd18b735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:37 +0000
Subject: [PATCH 54/67] fix: awaiter lists do not miss an awaiter that was just
 pushed

Popping from a list that a load found empty returned nothing, but the load may be older than a push whose
owner relies on the notifier seeing it (semaphore, condition_variable, ...): the awaiter was stranded.
---
 include/coro/detail/awaiter_list.hpp | 31 +++++++++-------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/include/coro/detail/awaiter_list.hpp b/include/coro/detail/awaiter_list.hpp
index c5e8e2d..0f0b759 100644
--- a/include/coro/detail/awaiter_list.hpp
+++ b/include/coro/detail/awaiter_list.hpp
@@ -22,14 +22,14 @@ template<concepts::detail::awaiter_forward_list_entry awaiter_type>
 auto awaiter_list_pop(std::atomic<awaiter_type*>& list) -> awaiter_type*
 {
     awaiter_type* waiter = list.load(std::memory_order::acquire);
-    do
-    {
-        if (waiter == nullptr)
-        {
-            return nullptr;
-        }
-    } while (!list.compare_exchange_weak(
-        waiter, waiter->m_next, std::memory_order::acq_rel, std::memory_order::acquire));
+
+    // An empty list is also exchanged (with itself), a load alone could miss an awaiter that has just been pushed.
+    while (!list.compare_exchange_weak(
+        waiter,
+        (waiter != nullptr) ? waiter->m_next : nullptr,
+        std::memory_order::acq_rel,
+        std::memory_order::acquire))
+    {}
 
     return waiter;
 }
@@ -37,19 +37,8 @@ auto awaiter_list_pop(std::atomic<awaiter_type*>& list) -> awaiter_type*
 template<concepts::detail::awaiter_forward_list_entry awaiter_type>
 auto awaiter_list_pop_all(std::atomic<awaiter_type*>& list) -> awaiter_type*
 {
-    awaiter_type* head = list.load(std::memory_order::acquire);
-
-    do
-    {
-        // The list has become empty.
-        if (head == nullptr)
-        {
-            break;
-        }
-    } while (!list.compare_exchange_weak(
-        head, nullptr, std::memory_order::acq_rel, std::memory_order::acquire));
-
-    return head;
+    // Always exchanged even if the list is empty, a load could miss an awaiter that has just been pushed.
+    return list.exchange(nullptr, std::memory_order::acq_rel);
 }
 
 template<concepts::detail::awaiter_forward_list_entry awaiter_type>
-- 
2.43.0


From 1ecd0e7fa36ef51e6b001a63255e1f484fae0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:37 +0000
Subject: [PATCH 55/67] fix: thread_pool workers look at the queue before they
 end

The size that was loaded instead can be older than the last accepted task, which was then never resumed.
---
 src/thread_pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index e16bd10..cbb8294 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -160,11 +160,11 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 
     // Process until there are no ready tasks left.
-    while (m_size.load(std::memory_order::acquire) > 0)
+    while (true)
     {
         std::unique_lock<std::mutex> lk{m_wait_mutex};
-        // m_size will only drop to zero once all executing coroutines are finished
-        // but the queue could be empty for threads that finished early.
+        // Only the queue, under the lock, shows whether there are tasks left: m_size will only drop to zero once all
+        // executing coroutines are finished, and a load of it can be older than the last accepted task.
         if (m_queue.empty())
         {
             break;
-- 
2.43.0


From 11195da626dbac5d985d658c73b8bd3cd1fe7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:25 +0000
Subject: [PATCH 56/67] fix: schedule() with a timeout that isn't a whole
 number of milliseconds

The timeout was cut off to milliseconds, one below a millisecond was none at all.
---
 include/coro/scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index b36469f..9ce0d2a 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -262,7 +262,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -314,7 +314,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 10305b20e90385f7ba4587301561b047d4219620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:25 +0000
Subject: [PATCH 57/67] fix: tls::client::shutdown() with a timeout below a
 millisecond waited without limit

---
 include/coro/net/tls/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 3af132c..591bfc3 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -262,7 +262,7 @@ public:
         // If the client exists and it didn't have an error.
         if (m_tls_info.m_tls_ptr != nullptr && !m_tls_info.m_tls_error)
         {
-            co_await tls_shutdown_and_free(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+            co_await tls_shutdown_and_free(std::chrono::ceil<std::chrono::milliseconds>(timeout));
         }
     }
 
-- 
2.43.0


From 5b19c19e2f25cd107866322dc4a68d5c79e4ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:18 +0000
Subject: [PATCH 58/67] fix: tls::client recv() and send() with a zero timeout
 reported a timeout

The first poll waited without limit, as a timeout of zero does everywhere, but when the data that arrived wasn't a
whole record (or the operation had to be repeated for another reason) the call returned a timeout.
---
 include/coro/net/tls/client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 591bfc3..2c2f700 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -62,7 +62,7 @@ public:
     /**
      * Receives incoming data into the given buffer. This function will automatically poll for readability.
      * @param buffer Received bytes are written into this buffer up to the buffers size.
-     * @param timeout The amount of time to wait for data to arrive.
+     * @param timeout The amount of time to wait for data to arrive. Timeout of zero is indefinite.
      * @return The status of the recv call and a span of the bytes received (if any). The span of
      *         bytes will be a subspan or full span of the given input buffer.
      */
@@ -87,7 +87,7 @@ public:
 
         while (true)
         {
-            if (timeout.has_value() && !first)
+            if (timeout.has_value() && timeout.value() > std::chrono::milliseconds{0} && !first)
             {
                 remaining_timeout = timeout.value() - std::chrono::duration_cast<std::chrono::milliseconds>(
                                                           std::chrono::steady_clock::now() - start);
@@ -152,7 +152,7 @@ public:
      * Sends outgoing data from the given buffer. If a partial write occurs then the returned span will
      * contain a view into the unsent bytes. This function will automatically call for write-ability on the socket.
      * @param buffer The data to write on the tls socket.
-     * @param timeout The amount of time to send the data before timing out.
+     * @param timeout The amount of time to send the data before timing out. Timeout of zero is indefinite.
      * @return The status of the send call and a span of any remaining bytes not sent. If all bytes
      *         were successfully sent the status will be 'ok' and the remaining span will be empty.
      */
@@ -178,7 +178,7 @@ public:
 
         while (true)
         {
-            if (timeout.has_value() && !first)
+            if (timeout.has_value() && timeout.value() > std::chrono::milliseconds{0} && !first)
             {
                 remaining_timeout = timeout.value() - std::chrono::duration_cast<std::chrono::milliseconds>(
                                                           std::chrono::steady_clock::now() - start);
-- 
2.43.0


From 593c7c1f98a65bd2a6eb0c3e830657af4ec80ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:15 +0000
Subject: [PATCH 59/67] fix: default executors could never be had after their
 creation failed once

The flag of the first caller stayed set when make_unique() threw (no thread or descriptor was left), whoever called
afterwards waited forever for the executor.
---
 src/default_executor.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/default_executor.cpp b/src/default_executor.cpp
index acb1ca5..8131bf7 100644
--- a/src/default_executor.cpp
+++ b/src/default_executor.cpp
@@ -16,6 +16,21 @@ static std::atomic<coro::scheduler*>    s_default_io_executor_ptr{nullptr};
 static std::unique_ptr<coro::scheduler> s_default_io_executor;
 #endif
 
+template<typename executor_type, typename options_type>
+static auto create(const options_type& opts, std::atomic<bool>& init) -> std::unique_ptr<executor_type>
+{
+    try
+    {
+        return executor_type::make_unique(opts);
+    }
+    catch (...)
+    {
+        // It isn't there, whoever asks next tries again.
+        init.store(false);
+        throw;
+    }
+}
+
 void coro::default_executor::set_executor_options(thread_pool::options thread_pool_options)
 {
     s_default_executor_options = std::move(thread_pool_options);
@@ -26,13 +41,18 @@ std::unique_ptr<coro::thread_pool>& coro::default_executor::executor()
     // If we're the first one here create the default executor.
     if (s_default_executor_init.exchange(true) == false)
     {
-        s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);
+        s_default_executor = create<coro::thread_pool>(s_default_executor_options, s_default_executor_init);
         s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);
     }
 
     while (s_default_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
         std::this_thread::sleep_for(s_initialization_check_interval);
+        if (!s_default_executor_init.load())
+        {
+            // The first one failed.
+            return executor();
+        }
     }
 
     return s_default_executor;
@@ -49,13 +69,18 @@ std::unique_ptr<coro::scheduler>& coro::default_executor::io_executor()
     // If we're the first one here create the default executor.
     if (s_default_io_executor_init.exchange(true) == false)
     {
-        s_default_io_executor = coro::scheduler::make_unique(s_default_io_executor_options);
+        s_default_io_executor = create<coro::scheduler>(s_default_io_executor_options, s_default_io_executor_init);
         s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::release);
     }
 
     while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
         std::this_thread::sleep_for(s_initialization_check_interval);
+        if (!s_default_io_executor_init.load())
+        {
+            // The first one failed.
+            return io_executor();
+        }
     }
 
     return s_default_io_executor;
-- 
2.43.0


From 7d982ff48ed72828d55db62c2af516f9d3cc9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 60/67] fix: a scheduler that got no timer descriptor was made
 with timers that never fire

timer_handle didn't look at the results of timerfd_create() and watch().
---
 src/detail/timer_handle.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index f5a3a45..71936b7 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,8 @@
 
 #include "coro/io_notifier.hpp"
 
+#include <stdexcept>
+
 namespace coro::detail
 {
 
@@ -25,7 +27,16 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     : m_fd(::timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK | TFD_CLOEXEC)),
       m_timer_handle_ptr(timer_handle_ptr)
 {
-    notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
+    if (m_fd == -1)
+    {
+        throw std::runtime_error{"Failed to create the timer's file descriptor."};
+    }
+
+    if (!notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true))
+    {
+        ::close(m_fd);
+        throw std::runtime_error{"Failed to register the timer's file descriptor for read events."};
+    }
 }
 
 timer_handle::~timer_handle()
-- 
2.43.0


From 8099fc47b49cfafc24d54367e35d0b0ea03910a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:13 +0000
Subject: [PATCH 61/67] fix: to_string(poll_status::cancelled) was "unknown"

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From a93ca53bd0f6b36319265c2f53bcaf6efcedd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:54 +0000
Subject: [PATCH 62/67] fix: when_any waited forever when the first result
 could not be stored

---
 include/coro/when_any.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index 503f682..3c58cb2 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -58,8 +58,11 @@ static auto get_when_any_exception(task_type& task) noexcept -> std::exception_p
 
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
-    std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
-    -> coro::task<void>
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
+    awaitable                   a) -> coro::task<void>
 {
     auto expected = false;
     if constexpr (concepts::awaitable_void<awaitable>)
@@ -78,7 +81,14 @@ auto make_when_any_tuple_task(
         if (first_completed.compare_exchange_strong(
                 expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
         {
-            return_value.emplace(std::in_place_index<index>, std::move(result));
+            try
+            {
+                return_value.emplace(std::in_place_index<index>, std::move(result));
+            }
+            catch (...)
+            {
+                exception = std::current_exception();
+            }
             notify.set();
         }
     }
@@ -95,7 +105,7 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
 {
     std::atomic<bool> first_completed{false};
     auto              tasks = co_await coro::when_all(
-        make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+        make_when_any_tuple_task<indices>(first_completed, notify, return_value, exception, std::move(awaitables))...);
     if (!first_completed.load(std::memory_order::acquire))
     {
         exception = get_when_any_exception(std::get<0>(tasks));
@@ -119,8 +129,11 @@ static auto make_when_any_task_return_void(awaitable a, std::atomic<bool>& first
 
 template<concepts::awaitable awaitable, typename return_type>
 static auto make_when_any_task(
-    awaitable a, std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value)
-    -> coro::task<void>
+    awaitable                   a,
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception) -> coro::task<void>
 {
     auto expected = false;
     auto result   = co_await static_cast<awaitable&&>(a);
@@ -128,7 +141,14 @@ static auto make_when_any_task(
     // after being set and notified the first time.
     if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
-        return_value = std::move(result);
+        try
+        {
+            return_value = std::move(result);
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         notify.set();
     }
 
@@ -189,7 +209,8 @@ static auto make_when_any_controller_task(
     for (auto&& a : awaitables)
     {
         tasks.emplace_back(
-            make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
+            make_when_any_task<awaitable_type, return_type_base>(
+                std::move(a), first_completed, notify, return_value, exception));
     }
 
     auto completed = co_await coro::when_all(std::move(tasks));
-- 
2.43.0


From 635b0b074357b73ec7ad8543fefd1afd67f40cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:52 +0000
Subject: [PATCH 63/67] fix: the longest timeouts overflowed and were over at
 once

---
 include/coro/condition_variable.hpp | 13 ++++++------
 include/coro/scheduler.hpp          |  9 ++++----
 include/coro/time.hpp               | 32 +++++++++++++++++++++++++++++
 src/scheduler.cpp                   |  4 ++--
 4 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index e71de3c..e4b70f1 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -6,6 +6,7 @@
 #include "coro/event.hpp"
 #include "coro/mutex.hpp"
 #include "coro/task.hpp"
+#include "coro/time.hpp"
 #include "coro/when_any.hpp"
 
 #include <atomic>
@@ -472,7 +473,7 @@ public:
         -> awaiter_with_wait<io_executor_type, std::cv_status>
     {
         return awaiter_with_wait<io_executor_type, std::cv_status>{
-            executor, *this, lock, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for)};
+            executor, *this, lock, detail::to_nanoseconds(wait_for)};
     }
 
     template<concepts::io_executor io_executor_type, class rep_type, class period_type>
@@ -486,7 +487,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate)};
     }
 
@@ -502,7 +503,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate),
             std::move(stop_token)};
     }
@@ -517,7 +518,7 @@ public:
         auto now      = std::chrono::time_point<clock_type, duration_type>::clock::now();
         auto wait_for = (now < wait_until_time) ? (wait_until_time - now) : std::chrono::nanoseconds{1};
         return awaiter_with_wait<io_executor_type, std::cv_status>{
-            executor, *this, lock, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for)};
+            executor, *this, lock, detail::to_nanoseconds(wait_for)};
     }
 
     template<concepts::io_executor io_executor_type, class clock_type, class duration_type>
@@ -533,7 +534,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate)};
     }
 
@@ -551,7 +552,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate),
             std::move(stop_token)};
     }
diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 9ce0d2a..82e09cf 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -9,6 +9,7 @@
 #include "coro/io_notifier.hpp"
 #include "coro/poll.hpp"
 #include "coro/thread_pool.hpp"
+#include "coro/time.hpp"
 
 #ifdef LIBCORO_FEATURE_NETWORKING
     #include "coro/net/socket.hpp"
@@ -262,7 +263,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(detail::to_nanoseconds(timeout)), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -314,7 +315,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(detail::to_nanoseconds(timeout)), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -355,7 +356,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto schedule_after(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
@@ -378,7 +379,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto yield_for(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
diff --git a/include/coro/time.hpp b/include/coro/time.hpp
index 7411f3d..086631e 100644
--- a/include/coro/time.hpp
+++ b/include/coro/time.hpp
@@ -6,4 +6,36 @@ namespace coro
 {
 using clock      = std::chrono::steady_clock;
 using time_point = clock::time_point;
+
+namespace detail
+{
+/**
+ * @return The given duration in nanoseconds, or the closest there is if it is out of their range.
+ */
+template<typename rep_type, typename period_type>
+constexpr auto to_nanoseconds(std::chrono::duration<rep_type, period_type> amount) -> std::chrono::nanoseconds
+{
+    // The range is checked with floating point numbers since the conversion of integral ones can overflow.
+    using nanoseconds = std::chrono::nanoseconds;
+    using real        = std::chrono::duration<long double, std::nano>;
+    if (real{amount} >= real{nanoseconds::max()})
+    {
+        return nanoseconds::max();
+    }
+    if (real{amount} <= real{nanoseconds::min()})
+    {
+        return nanoseconds::min();
+    }
+    return std::chrono::duration_cast<nanoseconds>(amount);
+}
+
+/**
+ * @return The point in time the given amount from now, or the last there is if that is too far.
+ */
+inline auto time_after(std::chrono::nanoseconds amount) -> time_point
+{
+    const auto now = clock::now();
+    return (amount < time_point::max() - now) ? now + amount : time_point::max();
+}
+} // namespace detail
 } // namespace coro
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 9424984..4beac3a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -185,7 +185,7 @@ auto scheduler::poll(
 
     if (timeout_requested)
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        pi.m_timer_pos = add_timer_token(detail::time_after(detail::to_nanoseconds(timeout)), pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
@@ -271,7 +271,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // the timeout to occur before resuming.
 
         detail::poll_info pi{};
-        add_timer_token(clock::now() + amount, pi);
+        add_timer_token(detail::time_after(amount), pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From 3edd77582fe58500dfb95ef1400a596ac132442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:16 +0000
Subject: [PATCH 64/67] fix: a copied or moved tls::context freed its SSL_CTX
 twice

---
 include/coro/net/tls/context.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/coro/net/tls/context.hpp b/include/coro/net/tls/context.hpp
index e66d7fa..62e850d 100644
--- a/include/coro/net/tls/context.hpp
+++ b/include/coro/net/tls/context.hpp
@@ -56,6 +56,11 @@ public:
         verify_peer_t         verify_peer = verify_peer_t::yes);
     ~context();
 
+    context(const context&)                    = delete;
+    context(context&&)                         = delete;
+    auto operator=(const context&) -> context& = delete;
+    auto operator=(context&&) -> context&      = delete;
+
 private:
     SSL_CTX* m_ssl_ctx{nullptr};
 
-- 
2.43.0


From 1b60760770778418a7503dd4304e2c8684a1af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:30 +0000
Subject: [PATCH 65/67] fix: process_events() could run next to a dedicated
 event loop thread that had not started yet

---
 src/scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 4beac3a..1347d93 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -67,6 +67,8 @@ auto scheduler::make_unique(options opts) -> std::unique_ptr<scheduler>
     // so it has a full object to work with.
     if (s->m_opts.thread_strategy == thread_strategy_t::spawn)
     {
+        // Events are only processed by the dedicated thread, also before it has started.
+        s->m_io_processing.store(true, std::memory_order::release);
         s->m_io_thread = std::thread([s = s.get()]() { s->process_events_dedicated_thread(); });
     }
     // else manual mode, the user must call process_events.
@@ -294,7 +296,6 @@ auto scheduler::process_events_dedicated_thread() -> void
         m_opts.on_io_thread_start_functor();
     }
 
-    m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
     while (true)
     {
-- 
2.43.0


From b132649946caea1f9b5232e2bc1f63e96e5a2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 66/67] fix: a task_group on a null unique_ptr executor was
 made and crashed on its first task

---
 include/coro/task_group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index f3f3253..1e42f6e 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -88,7 +88,7 @@ public:
     }
 
     explicit task_group(std::unique_ptr<executor_type>& executor)
-        : m_executor(executor.get())
+        : task_group(executor.get())
     { }
 
     explicit task_group(std::unique_ptr<executor_type>& executor, coro::task<void>&& task)
-- 
2.43.0


From 6e4ed4c5ecf4e599cd56ba2a9112487f1064d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:33 +0000
Subject: [PATCH 67/67] fix: process_events() with a timeout beyond the range
 of int did not wait

---
 src/detail/io_notifier_epoll.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 3e2f497..ab4f0f8 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -1,8 +1,10 @@
 #include "coro/detail/io_notifier_epoll.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <cstdint>
 #include <fcntl.h>
+#include <limits>
 #include <stdexcept>
 #include <unistd.h>
 
@@ -166,7 +168,10 @@ auto io_notifier_epoll::next_events(
     std::vector<std::pair<poll_info*, poll_status>>& ready_events, std::chrono::milliseconds timeout) -> void
 {
     auto ready_set = std::array<event_t, m_max_events>{};
-    int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
+    // The longest timeouts are not representable in the int that epoll takes.
+    const auto timeout_ms = static_cast<int>(
+        std::clamp<std::chrono::milliseconds::rep>(timeout.count(), -1, std::numeric_limits<int>::max()));
+    int num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout_ms);
     for (int i = 0; i < num_ready; ++i)
     {
         [[maybe_unused]] auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
-- 
2.43.0

