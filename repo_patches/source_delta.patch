From 46dd46fad2f77130e83eb7ca4ae3661c91e608be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 01/32] fix: lightweight_barrier loses a completion when
 compare_exchange_weak fails spuriously

---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From 0a8da689a56daee056a5d299e3d698ad86994e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 02/32] fix: group waits return early when operations are added
 after all previous ones completed

---
 src/naive/naive_consumable.cpp | 11 +++++++++--
 src/naive/naive_consumable.h   |  5 ++++-
 src/naive/naive_group.cpp      | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..a30ab23 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -31,10 +31,17 @@ consumable::consumable(size_t resources, const consumable_ptr& preceeding)
   , m_resources(resources)
 {}
 
-void
+bool
 consumable::add_resource()
 {
-    m_resources.fetch_add(size_t(1));
+    auto resources = m_resources.load();
+    while (resources > 0) {
+        if (m_resources.compare_exchange_weak(resources, resources + 1)) {
+            return true;
+        }
+        // resources was updated with the actual value, try again
+    }
+    return false;
 }
 
 void
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..a8c26b4 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -61,8 +61,11 @@ public:
         If the consumable had already been fully consumed by the
         time this is called, this will have no effect and the
         consumable remain fully consumed.
+
+        @return true if the resource was added, false if the consumable
+                was fully consumed already and nothing was added
      */
-    void add_resource();
+    bool add_resource();
 
     /**
         @brief Consumes a resource removing it from the list of
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..917189b 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -39,16 +39,21 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(std::make_shared<consumable>(1))
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
+        // adding fails only if a wait(..) has just swapped the consumable and
+        // released its own resource, try again with the next consumable then
+        auto c = std::atomic_load(&m_consumable);
         XDISPATCH_ASSERT(c);
-        c->add_resource();
+        while (!c->add_resource()) {
+            c = std::atomic_load(&m_consumable);
+            XDISPATCH_ASSERT(c);
+        }
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
@@ -62,11 +67,15 @@ public:
         consumable_ptr new_c;
         do {
             old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
+            new_c = std::make_shared<consumable>(1, old_c);
         } while (
           !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
         XDISPATCH_ASSERT(old_c);
         XDISPATCH_ASSERT(new_c);
+        // every consumable starts with a resource owned by the group so that
+        // it is not fully consumed before nothing can be added anymore. As we
+        // are the one who swapped it, give that resource back
+        old_c->consume_resource();
         return old_c->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
-- 
2.43.0


From fa1428a79daeb472fbae77644cabf1093783dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 03/32] fix: group notifications fire immediately as their wait
 timeout overflows

---
 src/naive/naive_group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 917189b..62d6529 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -93,7 +93,7 @@ public:
             // note: wait(..) will already notify the threadpool that
             //       we are blocking one of its threads through our internal
             //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            this_ptr->wait(std::chrono::milliseconds(-1));
             q->async(op);
         });
 
-- 
2.43.0


From b64a9690f6221ffb1324c092be4d71c2627b0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 04/32] fix: repeated group waits get slower with every call
 until the stack overflows

---
 src/naive/naive_consumable.cpp | 9 ++++++---
 src/naive/naive_consumable.h   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index a30ab23..3e2c87b 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -63,9 +63,12 @@ bool
 consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
 {
     // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
+    const auto preceeding = std::atomic_load(&m_preceeding);
+    if (preceeding && preceeding.get() != this) {
+        if (preceeding->wait_for_consumed(timeout)) {
+            // satisfied and will remain so, continue with this and keep the
+            // chain from growing with every wait
+            std::atomic_store(&m_preceeding, consumable_ptr());
         } else {
             return false;
         }
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index a8c26b4..79203ac 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -86,7 +86,7 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
+    consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
-- 
2.43.0


From 6cf46cd41146115e5562d168734df8ed5d629e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 05/32] fix: huge wait timeouts overflow and expire immediately

---
 src/lightweight_barrier.cpp   |  3 ++-
 src/naive/naive_semaphore.cpp |  5 +++--
 src/xdispatch_internal.h      | 15 +++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..a43c0a5 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -53,7 +53,8 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
             if (std::chrono::milliseconds(-1) != timeout) {
-                return m_cond.wait_for(lock, timeout, predicate);
+                return m_cond.wait_for(
+                  lock, limit_timeout(timeout), predicate);
             }
             m_cond.wait(lock, predicate);
             return true;
diff --git a/src/naive/naive_semaphore.cpp b/src/naive/naive_semaphore.cpp
index c221336..3c06cb9 100644
--- a/src/naive/naive_semaphore.cpp
+++ b/src/naive/naive_semaphore.cpp
@@ -113,8 +113,9 @@ semaphore::wait_acquire(std::chrono::milliseconds timeout)
             };
 
             waiter_scope waiting(m_waiters);
-            return m_cond.wait_for(
-              lock, timeout, [this] { return try_acquire(); });
+            return m_cond.wait_for(lock, limit_timeout(timeout), [this] {
+                return try_acquire();
+            });
         }
     }
     return true;
diff --git a/src/xdispatch_internal.h b/src/xdispatch_internal.h
index a5f0769..7cfe600 100644
--- a/src/xdispatch_internal.h
+++ b/src/xdispatch_internal.h
@@ -23,6 +23,8 @@
 #define XDISPATCH_INTERNAL_H_
 
 #include <assert.h>
+#include <algorithm>
+#include <chrono>
 #include <string>
 #include <iostream>
 
@@ -79,6 +81,19 @@ execute_operation_on_this_thread(operation&);
 ibackend&
 backend_for_type(backend_type type);
 
+/**
+  Limits the given timeout to a range that will not overflow
+  when the standard library turns it into a point in time
+  */
+inline std::chrono::milliseconds
+limit_timeout(std::chrono::milliseconds timeout)
+{
+    constexpr std::chrono::milliseconds k_hundred_years =
+      std::chrono::hours(24 * 365 * 100);
+    return std::max(std::chrono::milliseconds(0),
+                    std::min(timeout, k_hundred_years));
+}
+
 __XDISPATCH_END_NAMESPACE
 
 #undef __XDISPATCH_INDIRECT__
-- 
2.43.0


From 67df90b476b57821c76f8afc9e5de234b1640e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 06/32] fix: disabling a cancelable a second time returns while
 it is running and concurrent calls are refused

---
 include/xdispatch/impl/cancelable.h | 25 ++++++++++-------
 src/cancelable.cpp                  | 43 ++++++++++++++++-------------
 2 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..d934268 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -49,12 +49,13 @@ class XDISPATCH_EXPORT cancelable
 public:
     enum active_state
     {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
+        /**< Entity is enabled and not executed right now */
+        active_enabled = 0,
+        /**< Flag set when the entity was disabled */
+        active_disabled = 1,
+        /**< Entity is actively being executed, multiples
+             of this value count concurrent executions */
+        active_running = 2
     };
 
     /**
@@ -65,6 +66,10 @@ public:
     /**
        Marks the entity as not to be queued anywhere,
        i.e. sets it to active_disabled
+
+       When the call has returned the entity is not being
+       executed anymore unless invoked recursively, i.e. from
+       within an active call, in which case that call will complete.
     */
     void disable();
 
@@ -73,26 +78,26 @@ protected:
 
     /**
         Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        i.e. counts it as active_running if the entity had been enabled
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
         Notifies the entity that the call is done,
         i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        been the last active_running call before
     */
     void leave();
 
 private:
     // the current state of the handler
-    std::atomic<active_state> m_active;
+    std::atomic<int> m_active;
     // barrier to ensure defined cancellation
     lightweight_barrier m_barrier;
 };
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..71f5632 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,7 +27,7 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+static thread_local std::multiset<cancelable*> current_c;
 
 cancelable::cancelable()
   : m_active(active_enabled)
@@ -36,37 +36,42 @@ cancelable::cancelable()
 void
 cancelable::disable()
 {
+    const auto previous = m_active.fetch_or(active_disabled);
     if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
+        // recursion, the barrier will be completed when leaving
+    } else if (active_enabled == previous) {
+        // nobody is active and never will be again
+        m_barrier.complete();
     } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+        // tried to disable while still running or while
+        // somebody else is in the process of disabling
+        m_barrier.wait();
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
-    }
-    // disabled
-    return false;
+    auto previous = m_active.load();
+    do {
+        if (previous & active_disabled) {
+            // disabled
+            return false;
+        }
+    } while (
+      !m_active.compare_exchange_weak(previous, previous + active_running));
+    current_c.insert(this);
+    return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
+    current_c.erase(current_c.find(this));
+
+    const auto previous = m_active.fetch_sub(active_running);
+    if ((active_disabled | active_running) == previous) {
+        // disabled in the meantime and the last one to leave
         m_barrier.complete();
     }
 }
-- 
2.43.0


From 94cbfd750b0e77788bc9da056ca81e5eeb0acbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 07/32] fix: deadlock when a handler disconnects while its
 signal or connection manager is being reset

Both waited for active handlers to complete while holding the lock these need.
---
 src/signals.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..dac4781 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,29 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    // disconnecting waits for active handlers, do not block these
+    std::vector<scoped_connection> disconnected;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        disconnected.swap(m_connections);
+    }
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    // disconnecting waits for active handlers, do not block these
+    std::vector<scoped_connection> disconnected;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        const auto last = std::partition(
+          m_connections.begin(),
+          m_connections.end(),
+          [&s](const scoped_connection& sc) { return !sc.is_connected_to(s); });
+        disconnected.assign(std::make_move_iterator(last),
+                            std::make_move_iterator(m_connections.end()));
+        m_connections.erase(last, m_connections.end());
+    }
 }
 
 connection_manager&
@@ -186,12 +197,16 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    // disabling waits for active handlers, do not block these
+    std::vector<connection_handler_ptr> handlers;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        handlers.swap(m_handlers);
+    }
 
-    for (const auto& handler : m_handlers) {
+    for (const auto& handler : handlers) {
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
-- 
2.43.0


From 29b6c9d4b54bbe1f040537a6ac0000344f8d543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 08/32] fix: signals stay silent after skip_all() and
 connections dangle while calls are queued

skip_all() disabled all handlers for good although new emits are documented to queue
new calls. Connections stayed 'connected' as long as a queued call kept the handler
alive so that disconnecting accessed the signal after its destruction.
---
 include/xdispatch/signals.h | 30 ++++++++++++++++++++++--------
 src/signals.cpp             | 17 +++++++++++++----
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..b1d0a84 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -31,6 +31,7 @@
 #include <vector>
 #include <mutex>
 #include <functional>
+#include <memory>
 
 #include "xdispatch/dispatch"
 #include "xdispatch/impl/cancelable.h"
@@ -238,6 +239,7 @@ protected:
 
     /// Private container class for holding a handler
     class XDISPATCH_EXPORT connection_handler
+      : public std::enable_shared_from_this<connection_handler>
     {
     public:
         /// Creates a handler for the given queue and notification mode
@@ -247,12 +249,21 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        // Counts the queued items until they get skipped
+        struct pending_items
+        {
+            // the number of items that have been queued
+            std::atomic<int> m_count{ 0 };
+            // set when the items are not to be executed anymore
+            std::atomic<bool> m_skipped{ false };
+        };
+
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the items queued since they have been skipped last
+        std::shared_ptr<pending_items> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -387,12 +398,15 @@ public:
         // FIXME(zwicker): Would this allow us to make cancelable private?
         std::lock_guard<std::mutex> lock(m_CS);
 
-        for (const connection_handler_ptr& handler : m_handlers) {
-            auto pending = handler->m_pending++;
+        for (const connection_handler_ptr& connected : m_handlers) {
+            // queued calls own the handler but not its connection
+            const auto handler = connected->shared_from_this();
+            const auto items = handler->m_pending;
+            auto pending = items->m_count++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
+                    items->m_count--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
@@ -400,8 +414,8 @@ public:
                        pending < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    if (cancel_scope && !items->m_skipped) {
+                        items->m_count--;
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -412,7 +426,7 @@ public:
                     handler->m_queue.async(std::move(invocation));
                 }
             } else {
-                handler->m_pending--;
+                items->m_count--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index dac4781..81fb907 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -177,7 +177,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
   , m_active()
-  , m_pending(0)
+  , m_pending(std::make_shared<pending_items>())
   , m_mode(m)
 {}
 
@@ -234,18 +234,27 @@ signal_p::skip_all()
     std::lock_guard<std::mutex> lock(m_CS);
 
     for (const auto& handler : m_handlers) {
-        handler->disable();
+        handler->m_pending->m_skipped = true;
+        handler->m_pending =
+          std::make_shared<connection_handler::pending_items>();
     }
 }
 
 connection
 signal_p::connect(const connection_handler_ptr& job)
 {
+    // connections refer to this pointer which only the signal keeps, i.e. other
+    // than the handler itself it is not kept alive by calls still queued
+    const connection_handler_ptr connected(
+      job.get(),
+      [handler = connection_handler_ptr(job)](connection_handler*) mutable {
+          handler.reset();
+      });
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        m_handlers.push_back(job);
+        m_handlers.push_back(connected);
     }
-    return connection(job, this);
+    return connection(connected, this);
 }
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 62b6d2cb16e58955fd50562932996f0a7ef6de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 09/32] fix: signal barrier races with construction,
 destruction and concurrent emits

The handler accessed members not yet constructed, disconnected itself so that the
destructor did not wait for it and overwrote the values when run concurrently.
---
 include/xdispatch/signals_barrier.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..c70da74 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -93,10 +93,14 @@ public:
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
       , m_barrier()
+      , m_raised(false)
+      , m_values()
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // only the first raise may touch the values
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -154,8 +158,10 @@ public:
 private:
     signal<void(Args...)>& m_signal;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
+    std::atomic<bool> m_raised;
     value_holder<0> m_values;
+    // needs to go last as the handler uses all other members
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 469903229ab6518bec87880298aa7c51ca88691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 10/32] fix: timers fire too often after a restart and overlap,
 keep firing when released or cancelled

Every helper was bound to the timer instead of to the start it had been
created for, the handler's cancelable was accessed after completing the
barrier and the helper kept the timer alive forever.
---
 src/naive/naive_timer.cpp | 105 +++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 31 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..1cc09d6 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -26,6 +26,9 @@
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
 
+#include <condition_variable>
+#include <mutex>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -44,15 +47,12 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_cancelled(false)
+      , m_firing(false)
+      , m_start(0)
       , m_cancelable()
     {}
 
-    ~timer_impl() override
-    {
-        std::lock_guard<std::mutex> lock(m_CS);
-        m_running = 0;
-    }
-
     void interval(std::chrono::milliseconds interval) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
@@ -78,46 +78,39 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_cancelled) {
+            // cannot be reused
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
-        const auto this_ptr = shared_from_this();
+        // tells apart the helpers of consecutive starts: the helper of a
+        // previous start might still be sleeping and must not carry on
+        // once woken up. No helper keeps the timer alive while sleeping
+        // so that releasing the timer will stop it as well
+        const auto start = ++m_start;
+        const std::weak_ptr<timer_impl> weak_this = shared_from_this();
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([weak_this, start, delay] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
-            std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
-                const auto handler = this_ptr->m_handler;
-                const auto interval = this_ptr->m_interval;
-                const auto queue = this_ptr->m_queue;
-                auto& cancelable = this_ptr->m_cancelable;
-
-                inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
-
-                lightweight_barrier barrier;
-                queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+            std::chrono::milliseconds interval(0);
+            for (;;) {
+                {
+                    const auto this_ptr = weak_this.lock();
+                    if (!this_ptr || !this_ptr->fire(start, interval)) {
+                        break;
                     }
-                    barrier.complete();
-                }));
-                barrier.wait();
-
-                if (interval.count() > 0) {
-                    std::this_thread::sleep_for(interval);
-                } else {
-                    // singleshot timer
-                    break;
                 }
+                std::this_thread::sleep_for(interval);
             }
         });
 
@@ -136,6 +129,7 @@ public:
         {
             std::lock_guard<std::mutex> lock(m_CS);
             m_running = 0;
+            m_cancelled = true;
         }
         m_cancelable.disable();
     }
@@ -143,6 +137,49 @@ public:
     backend_type backend() final { return m_backend; }
 
 private:
+    /**
+       @brief Queues the handler once and waits for its completion
+
+       @param start The start on whose behalf to fire
+       @param interval Assigned the interval to pass before firing again
+       @return false if there is nothing left to fire for the given start
+     */
+    bool fire(size_t start, std::chrono::milliseconds& interval)
+    {
+        std::unique_lock<std::mutex> lock(m_CS);
+        // a previous start might have a call in flight
+        m_idle.wait(lock, [this] { return !m_firing; });
+        if (m_running <= 0 || start != m_start) {
+            return false;
+        }
+        m_firing = true;
+        {
+            const auto handler = m_handler;
+            const auto queue = m_queue;
+            auto& cancelable = m_cancelable;
+            interval = m_interval;
+
+            inverse_lock_guard<std::mutex> unlock(m_CS);
+
+            lightweight_barrier barrier;
+            queue->async(make_operation([handler, &barrier, &cancelable] {
+                {
+                    cancelable_scope scope(cancelable);
+                    if (scope) {
+                        execute_operation_on_this_thread(*handler);
+                    }
+                }
+                barrier.complete();
+            }));
+            barrier.wait();
+        }
+        m_firing = false;
+        m_idle.notify_all();
+
+        // otherwise a singleshot timer
+        return interval.count() > 0;
+    }
+
     const backend_type m_backend;
     std::mutex m_CS;
     std::chrono::milliseconds m_interval;
@@ -150,6 +187,12 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    bool m_cancelled;
+    // set while the handler is queued or active
+    bool m_firing;
+    std::condition_variable m_idle;
+    // identifies the latest start of the timer
+    size_t m_start;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From 1bc94ab54300226d668a55f826774ac4ea943fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 11/32] fix: thread pool starves operations, exceeds its limit
 and aborts under concurrent submissions

The number of idle threads was used to decide on starting another one but
is updated too late: two operations could rely on the same idle thread,
inconsistent counters aborted the process, concurrent submissions exceeded
the limit and releasing a pool aborted as well.
---
 src/naive/naive_threadpool.cpp | 134 ++++++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 44 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..7c3bac0 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -77,12 +77,14 @@ public:
     data(threadpool* owner)
       : m_pool(owner)
       , m_operations_counter(0)
+      , m_unfinished_operations(0)
       , m_max_threads(0)
       , m_active_threads(0)
       , m_idle_threads(0)
       , m_operations()
       , m_cancelled(false)
     {
+        XDISPATCH_ASSERT(m_unfinished_operations.is_lock_free());
         XDISPATCH_ASSERT(m_max_threads.is_lock_free());
         XDISPATCH_ASSERT(m_active_threads.is_lock_free());
         XDISPATCH_ASSERT(m_idle_threads.is_lock_free());
@@ -92,6 +94,9 @@ public:
     threadpool* const m_pool;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     semaphore m_operations_counter;
+    // queued or being executed
+    // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
+    std::atomic<int> m_unfinished_operations;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     std::atomic<int> m_max_threads;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
@@ -102,6 +107,57 @@ public:
     std::array<concurrentqueue<operation_ptr>, bucket_count> m_operations;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     std::atomic<bool> m_cancelled;
+
+    /**
+       @brief Accounts for another active thread unless the limit was reached
+
+       @param active The number of active threads last seen
+       @return false if the limit was reached
+     */
+    bool try_add_active(int active)
+    {
+        while (active < m_max_threads) {
+            if (m_active_threads.compare_exchange_weak(active, active + 1)) {
+                return true;
+            }
+        }
+        return false;
+    }
+
+    /**
+       @brief To be called by an active thread when there is no work for it
+
+       @return false if the thread has to end, true if it is active again and
+               has acquired another operation
+     */
+    bool try_expire()
+    {
+        --m_active_threads;
+
+        // Opportunistic recovery:
+        // There is a chance that while we made the decision to
+        // end (as no work seems remaining) such work was
+        // actually added while we updated the counter
+        // above. In that case we must not end, because the
+        // entity adding work may have decided there is no need
+        // to trigger a new thread (as it still deemed us
+        // active). To recover we need to check a last time for
+        // pending work added since.
+        while (m_operations_counter.try_acquire()) {
+            if (try_add_active(m_active_threads)) {
+                // found another operation, go pick/execute that operation
+                return true;
+            }
+
+            // other threads were started in the meantime, leave the operation
+            // to these unless they ended again before it had been returned
+            m_operations_counter.release();
+            if (m_active_threads >= m_max_threads) {
+                break;
+            }
+        }
+        return false;
+    }
 };
 
 class threadpool::worker
@@ -109,13 +165,19 @@ class threadpool::worker
 public:
     explicit worker(const threadpool::data_ptr& data)
       : m_data(data)
-      , m_thread(&worker::run, this)
+      , m_thread()
     {}
 
+    /**
+       @brief Starts the thread, which will detach the worker when it ends
+     */
+    void start() { m_thread = std::thread(&worker::run, this); }
+
     ~worker()
     {
-        XDISPATCH_ASSERT(m_thread.joinable());
-        m_thread.join();
+        if (m_thread.joinable()) {
+            m_thread.join();
+        }
     }
 
     std::thread::id get_id() const { return m_thread.get_id(); }
@@ -169,26 +231,7 @@ public:
                         // end this thread it seems there is no work remaining
                         m_data->m_idle_threads.fetch_sub(
                           1, std::memory_order_release);
-                        m_data->m_active_threads.fetch_sub(
-                          1, std::memory_order_release);
-
-                        // Opportunistic recovery:
-                        // There is a chance that while we made the decision to
-                        // end (as no work seems remaining) such work was
-                        // actually added while we updated the two counters
-                        // above. In that case we must not end, because the
-                        // entity adding work may have decided there is no need
-                        // to trigger a new thread (as it still deemed us
-                        // active). To recover we need to check a last time for
-                        // pending work added since. Worst case this may cause
-                        // one excess thread to be created which would then
-                        // expire again eventually but not cause real harm.
-                        if (m_data->m_operations_counter.try_acquire()) {
-                            // found another operation, restore the active
-                            // counter and go pick/execute that operation
-                            m_data->m_active_threads.fetch_add(
-                              1, std::memory_order_release);
-                        } else {
+                        if (!m_data->try_expire()) {
                             break;
                         }
                     }
@@ -212,7 +255,7 @@ public:
                         break;
                     }
                 }
-                XDISPATCH_ASSERT(op);
+                XDISPATCH_ASSERT(op || m_data->m_cancelled);
             }
 
             if (op) {
@@ -224,6 +267,7 @@ public:
 
                 run_with_threadpool(*op, m_data->m_pool);
                 op.reset();
+                --m_data->m_unfinished_operations;
             }
         }
 
@@ -256,7 +300,10 @@ threadpool::threadpool()
 threadpool::~threadpool()
 {
     m_data->m_cancelled = true;
-    m_data->m_operations_counter.release(m_data->m_active_threads);
+    const int active_threads = m_data->m_active_threads;
+    if (active_threads > 0) {
+        m_data->m_operations_counter.release(active_threads);
+    }
 }
 
 void
@@ -280,6 +327,7 @@ threadpool::execute(const operation_ptr& work, const queue_priority priority)
     }
 
     XDISPATCH_ASSERT(index >= 0);
+    ++m_data->m_unfinished_operations;
     const auto enqueued = m_data->m_operations[index].enqueue(work);
     XDISPATCH_ASSERT(enqueued);
     if (enqueued) {
@@ -306,29 +354,27 @@ backend::global_threadpool()
 void
 threadpool::schedule()
 {
-    // lets check if there is an idle thread first
-    const int active_threads =
-      m_data->m_active_threads.load(std::memory_order_consume);
-    const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
-    XDISPATCH_ASSERT(idle_threads >= 0);
-    XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
-
-    if (idle_threads > 0) {
-        // idle count will be decremented by thread waking up again
-        XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
-          << "Woke an idle thread";
+    // lets check if there is a thread for every operation first, these
+    // are either about to look for another operation or idle in which
+    // case they will be woken up by the operations counter
+    const int active_threads = m_data->m_active_threads;
+    if (m_data->m_unfinished_operations <= active_threads) {
+        XDISPATCH_TP_TRACE(this, m_data->m_idle_threads, active_threads)
+          << "Enough threads available";
     }
     // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
+    else if (m_data->try_add_active(active_threads)) {
+        const auto thread = std::make_shared<worker>(m_data);
         operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
+        try {
+            thread->start();
+        } catch (...) {
+            operation_queue_manager::instance().detach(thread.get());
+            --m_data->m_active_threads;
+            throw;
+        }
 
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
+        XDISPATCH_TP_TRACE(this, m_data->m_idle_threads, active_threads + 1)
           << "Spawned thread " << thread->get_id()
           << " (max=" << m_data->m_max_threads << ")";
     }
-- 
2.43.0


From cec2c8462cdd8759a745fdcbcc38b3cd0f10d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 12/32] fix: pool without threads when the thread count is
 unknown or huge

---
 src/naive/naive_threadpool.cpp | 10 ++++++++--
 src/thread_utils.cpp           |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 7c3bac0..0837c53 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -25,6 +25,8 @@
 #include "naive_threadpool.h"
 #include "naive_operation_queue_manager.h"
 
+#include <limits>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -291,8 +293,12 @@ threadpool::threadpool()
 {
     // we are overcommitting by default so that it becomes less likely
     // that operations get starved due to threads blocking on resources
-    m_data->m_max_threads =
-      static_cast<int>(2 * thread_utils::system_thread_count());
+    // (limited so that neither this nor counting blocked threads overflows)
+    static constexpr size_t skMaxThreadCount =
+      std::numeric_limits<int>::max() / 4;
+    const size_t thread_count = thread_utils::system_thread_count();
+    m_data->m_max_threads = static_cast<int>(
+      2 * (thread_count < skMaxThreadCount ? thread_count : skMaxThreadCount));
     XDISPATCH_TRACE() << "threadpool with " << m_data->m_max_threads
                       << " system threads";
 }
diff --git a/src/thread_utils.cpp b/src/thread_utils.cpp
index 0009448..fdd2577 100644
--- a/src/thread_utils.cpp
+++ b/src/thread_utils.cpp
@@ -236,7 +236,7 @@ thread_utils::system_thread_count()
 #if (defined XDISPATCH2_HAVE_SYSCONF) &&                                       \
   (defined XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN)
     const auto nprocessors = sysconf(_SC_NPROCESSORS_ONLN);
-    if (nprocessors < 0) {
+    if (nprocessors < 1) {
         XDISPATCH_TRACE() << "system_thread_count failed: " << strerror(errno);
     } else {
         return nprocessors;
-- 
2.43.0


From ca6c64d91f07621e1ba27676c6716167afb51ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 13/32] fix: socket notifiers spin on closed sockets, overflow
 on large descriptors, overlap after a resume and are freed in use

---
 src/naive/naive_socket_notifier.cpp | 223 +++++++++++++++++-----------
 1 file changed, 139 insertions(+), 84 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..7e10ee9 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -30,12 +30,14 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
 #include <cerrno>
+#include <condition_variable>
 #include <cstring>
+#include <mutex>
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
@@ -59,6 +61,7 @@ public:
       , m_handler()
       , m_resume_counter(0)
       , m_worker_cookie(0)
+      , m_notifying(false)
     {}
 
     ~socket_notifier_impl() override { socket_notifier_impl::suspend(); }
@@ -87,96 +90,38 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
-
-        const auto this_ptr = shared_from_this();
+        // tells apart the workers of consecutive resumes: the worker of a
+        // previous resume might still be waiting for the socket and must not
+        // carry on once woken up. No worker keeps the notifier alive while
+        // waiting so that releasing the notifier will stop it as well
+        const std::weak_ptr<socket_notifier_impl> weak_this =
+          shared_from_this();
         const auto cookie = m_worker_cookie;
+        const auto socket = m_socket;
+        const auto type = m_type;
 
         // the notifier will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // notifier is blocking while it is active
-        auto socket_notifier_op = make_operation([this_ptr, cookie] {
-            ithreadpool::block_scope blocked;
-
-            std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (cookie == this_ptr->m_worker_cookie) {
-                const auto socket = this_ptr->m_socket;
-                const auto type = this_ptr->m_type;
-
-                int res = -1;
-                {
-                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
-
-                    struct timeval timeout;
-                    constexpr auto k5sec = 5;
-                    timeout.tv_sec = k5sec;
-                    timeout.tv_usec = 0;
-
-                    int nfds = static_cast<int>(socket) + 1;
-                    fd_set fds;
-                    memset(&fds, 0, sizeof(fds));
-                    FD_SET(static_cast<int>(socket), &fds);
-
-                    if (notifier_type::READ == type) {
-                        res = select(nfds, &fds, nullptr, nullptr, &timeout);
-                    } else {
-                        res = select(nfds, nullptr, &fds, nullptr, &timeout);
-                    }
-                }
-
-                if (cookie != this_ptr->m_worker_cookie) {
-                    // bail out if we were woken as a result of suspending
-                    break;
-                }
+        auto socket_notifier_op =
+          make_operation([weak_this, cookie, socket, type] {
+              ithreadpool::block_scope blocked;
 
-#if (defined XDISPATCH2_HAVE_WINSOCK2)
-                if (SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError()) {
-                    // not a socket anymore
-                    XDISPATCH_WARNING() << "socket_notifier: Socket " << socket
-                                        << " is not a socket";
-                    break;
-                }
-#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
-                    // socket was closed somewhere else
-                    XDISPATCH_WARNING()
-                      << "socket_notifier: Socket " << socket << " is invalid";
-                    break;
-                }
-#endif
-                if (res == 0) {
-                    // timeout, try again
-                } else if (res > 0) {
-                    XDISPATCH_TRACE() << "socket_notifier: select(" << socket
-                                      << ") returned " << res;
-
-                    const auto handler = this_ptr->m_handler;
-                    const auto queue = this_ptr->m_queue;
-                    auto& handler_cancelable = this_ptr->m_handler_cancelable;
-
-                    // no member access beyond this!
-                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
-
-                    lightweight_barrier barrier;
-                    queue->async(make_operation(
-                      [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
-                          }
-                          barrier.complete();
-                      }));
-                    barrier.wait();
-                } else {
-                    XDISPATCH_WARNING() << "socket_notifier: select(" << socket
-                                        << ") failed: " << strerror(errno);
-                }
-            }
-        });
+              bool ready = false;
+              for (;;) {
+                  {
+                      const auto this_ptr = weak_this.lock();
+                      if (!this_ptr || !this_ptr->notify(cookie, ready)) {
+                          break;
+                      }
+                  }
+                  if (!wait_ready(socket, type, ready)) {
+                      // not a (valid) socket anymore
+                      break;
+                  }
+              }
+          });
 
         // FIXME(zwicker): Add accessors to execute with the queue's priority
         m_pool->execute(socket_notifier_op, queue_priority::DEFAULT);
@@ -213,6 +158,113 @@ public:
     backend_type backend() final { return m_backend; }
 
 private:
+    /**
+       @brief Queues the handler once and waits for its completion if the
+              socket was found to be ready
+
+       @param cookie Identifies the resume on whose behalf to notify
+       @param ready If the socket is ready
+       @return false if there is nothing left to do for the given resume
+     */
+    bool notify(int cookie, bool ready)
+    {
+        std::unique_lock<std::mutex> lock(m_CS);
+        if (m_notifying) {
+            // the worker of a previous resume has a call in flight, which
+            // will likely change the readiness of the socket
+            m_idle.wait(lock, [this] { return !m_notifying; });
+            ready = false;
+        }
+        if (cookie != m_worker_cookie) {
+            // bail out if suspended in the meantime
+            return false;
+        }
+        if (!ready) {
+            return true;
+        }
+
+        XDISPATCH_TRACE() << "socket_notifier: Socket " << m_socket
+                          << " is ready";
+
+        m_notifying = true;
+        {
+            const auto handler = m_handler;
+            const auto queue = m_queue;
+            const auto socket = m_socket;
+            const auto type = m_type;
+            auto& handler_cancelable = m_handler_cancelable;
+
+            inverse_lock_guard<std::mutex> unlock(m_CS);
+
+            lightweight_barrier barrier;
+            queue->async(make_operation(
+              [handler, socket, type, &barrier, &handler_cancelable] {
+                  {
+                      cancelable_scope scope(handler_cancelable);
+                      if (scope) {
+                          execute_operation_on_this_thread(
+                            *handler, socket, type);
+                      }
+                  }
+                  barrier.complete();
+              }));
+            barrier.wait();
+        }
+        m_notifying = false;
+        m_idle.notify_all();
+        return true;
+    }
+
+    /**
+       @brief Waits until the socket is ready or a timeout passed
+
+       @param ready Assigned if the socket is ready
+       @return false if the socket is invalid
+     */
+    static bool wait_ready(socket_t socket, notifier_type type, bool& ready)
+    {
+        constexpr auto k5sec = 5;
+
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
+        struct timeval timeout;
+        timeout.tv_sec = k5sec;
+        timeout.tv_usec = 0;
+
+        const int nfds = static_cast<int>(socket) + 1;
+        fd_set fds;
+        FD_ZERO(&fds);
+        FD_SET(static_cast<int>(socket), &fds);
+
+        const int res =
+          (notifier_type::READ == type)
+            ? select(nfds, &fds, nullptr, nullptr, &timeout)
+            : select(nfds, nullptr, &fds, nullptr, &timeout);
+        const bool invalid =
+          (SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError());
+#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
+        // other than select() this handles descriptors of any value
+        struct pollfd fds;
+        fds.fd = static_cast<int>(socket);
+        fds.events = (notifier_type::READ == type) ? POLLIN : POLLOUT;
+        fds.revents = 0;
+
+        const int res = (socket < 0) ? 0 : poll(&fds, 1, k5sec * 1000);
+        const bool invalid =
+          (socket < 0) || (res > 0 && 0 != (fds.revents & POLLNVAL));
+#endif
+        const int error = errno;
+
+        ready = (res > 0) && !invalid;
+        if (invalid) {
+            XDISPATCH_WARNING()
+              << "socket_notifier: Socket " << socket << " is invalid";
+        } else if (res < 0) {
+            XDISPATCH_WARNING() << "socket_notifier: Waiting for socket "
+                                << socket << " failed: " << strerror(error);
+        }
+        return !invalid;
+    }
+
     const backend_type m_backend;
     std::mutex m_CS;
     const socket_t m_socket;
@@ -222,6 +274,9 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    // set while the handler is queued or active
+    bool m_notifying;
+    std::condition_variable m_idle;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From 5578957b9136d13c8a66a8e1dd3cb57a35b921c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/32] fix: manual threads lose a cancel requested right
 before they start to wait

---
 src/naive/naive_manual_thread.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_manual_thread.cpp b/src/naive/naive_manual_thread.cpp
index 4bf5778..44465b3 100644
--- a/src/naive/naive_manual_thread.cpp
+++ b/src/naive/naive_manual_thread.cpp
@@ -56,12 +56,16 @@ manual_thread::run()
 {
     thread_utils::set_current_thread_name(m_name);
     thread_utils::set_current_thread_priority(m_priority);
-    while (!m_cancelled) {
+    for (;;) {
         std::vector<operation_ptr> active_ops;
         {
             std::unique_lock<std::mutex> guard(m_CS);
-            if (m_queued_ops.empty()) {
-                m_cond.wait(guard);
+            m_cond.wait(guard, [this] {
+                return m_cancelled || !m_queued_ops.empty();
+            });
+            if (m_cancelled) {
+                m_cancelled = false;
+                break;
             }
             std::swap(m_queued_ops, active_ops);
         }
@@ -70,8 +74,6 @@ manual_thread::run()
             execute_operation_on_this_thread(*op);
         }
     }
-
-    m_cancelled = false;
 }
 
 void
-- 
2.43.0


From 8621932dcf36d7bd1671a10eb23e2bd288a3ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 15/32] fix: delayed operations of waitable queues are never
 released

---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..36aa872 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -159,11 +159,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From 7e1a04a78738a7d3d4a8093a722f8adab9699ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 16/32] fix: waitable_queue::wait_for_one returns early after
 operations were waited for by wait_for_all

---
 src/waitable_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 36aa872..6993097 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -109,6 +109,8 @@ public:
         while (m_active || !m_operations.empty()) {
             wait_for_one(lock);
         }
+        // everything completed so far has been waited for now
+        m_completed = 0;
     }
 
     void add_one(const operation_ptr& op)
-- 
2.43.0


From 17c2631e940d3babe8354d556fb6c03af1a57ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 17/32] fix: throw instead of terminating when backends are
 mixed

---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From fff42000252961bd99b5a13e3f7740104933b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 18/32] fix: give the slot of a blocked thread back to the Qt
 thread pool

---
 src/qt5/qt5_threadpool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..2850681 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // the blocked thread does not count against the limit of the pool
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From e9ea2e0e5c7c9e47d7205880bb33e90085b840aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 19/32] fix: unregister an object only once per registration

---
 src/naive/naive_operation_queue_manager.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..5da5685 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -19,6 +19,8 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+
 #include "naive_operation_queue_manager.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
@@ -39,12 +41,13 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
-            if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
-            }
+        // the same object may be attached more than once
+        const auto it = std::find_if(
+          m_queues.begin(), m_queues.end(), [q](const void_ptr& attached) {
+              return attached.get() == q;
+          });
+        if (it != m_queues.end()) {
+            m_queues.erase(it);
         }
     }));
 }
-- 
2.43.0


From 570b42858a9870c095fb8063db00901940f17209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 20/32] fix: never release the pool of a parallel queue on the
 releasing thread

---
 src/naive/naive_parallel_queue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_parallel_queue.cpp b/src/naive/naive_parallel_queue.cpp
index be99bed..de30a6c 100644
--- a/src/naive/naive_parallel_queue.cpp
+++ b/src/naive/naive_parallel_queue.cpp
@@ -47,7 +47,11 @@ public:
 
     ~parallel_queue_impl() override
     {
-        operation_queue_manager::instance().detach(m_pool.get());
+        // drop our own reference first, the pool must not be released on
+        // this thread as it may be one of the pool
+        const void* const pool = m_pool.get();
+        m_pool.reset();
+        operation_queue_manager::instance().detach(pool);
     }
 
     void async(const operation_ptr& op) final
-- 
2.43.0


From a27d43a90993bb7c79ac4b3945b0f1f992dd3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 21/32] fix: release the reference to a serial queue of
 libdispatch

The implementation retains the queue itself, the reference obtained by
creating it was never given up and every serial queue was leaked.
---
 src/libdispatch/libdispatch_backend_internal.h | 2 ++
 src/libdispatch/libdispatch_queue.cpp          | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libdispatch/libdispatch_backend_internal.h b/src/libdispatch/libdispatch_backend_internal.h
index c7f1bf8..c6f59fe 100644
--- a/src/libdispatch/libdispatch_backend_internal.h
+++ b/src/libdispatch/libdispatch_backend_internal.h
@@ -74,6 +74,8 @@ public:
         }
     }
 
+    T get() const { return m_object; }
+
     T take()
     {
         T tmp = nullptr;
diff --git a/src/libdispatch/libdispatch_queue.cpp b/src/libdispatch/libdispatch_queue.cpp
index d505ce2..47c0989 100644
--- a/src/libdispatch/libdispatch_queue.cpp
+++ b/src/libdispatch/libdispatch_queue.cpp
@@ -133,7 +133,7 @@ backend::create_serial_queue(const std::string& label, queue_priority priority)
       DISPATCH_QUEUE_SERIAL, priority_2_native(priority), 0);
     object_scope_T<dispatch_queue_t> native(
       dispatch_queue_create(label.c_str(), qos_attr));
-    return std::make_shared<queue_impl>(native.take());
+    return std::make_shared<queue_impl>(native.get());
 }
 
 iqueue_impl_ptr
-- 
2.43.0


From d551aa1a0530d32ef83243332b05a1800cfd2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 22/32] fix: keep the sign of the priorities of libdispatch

The priorities below the default are negative numbers, converted to an
unsigned class of service no global queue is found for them and creating
a parallel queue with such a priority fails.
---
 src/libdispatch/libdispatch_queue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libdispatch/libdispatch_queue.cpp b/src/libdispatch/libdispatch_queue.cpp
index 47c0989..6561d29 100644
--- a/src/libdispatch/libdispatch_queue.cpp
+++ b/src/libdispatch/libdispatch_queue.cpp
@@ -84,7 +84,9 @@ impl_2_native(const iqueue_impl_ptr& impl)
     return dispatch.m_native;
 }
 
-static dispatch_qos_class_t
+// note: the priorities of libdispatch are signed and must not be converted to
+//       the unsigned dispatch_qos_class_t, no global queue has that identifier
+static long // NOLINT(runtime/int)
 priority_2_native(queue_priority priority)
 {
 #if (defined XDISPATCH2_HAVE_PTHREAD_SET_QOS_CLASS_SELF_NP)
-- 
2.43.0


From beda4a1409f7c1668c1c7da87b99162fc32785da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 23/32] fix: do not overflow converting durations for
 libdispatch

Long durations overflowed when being converted to nanoseconds so that
delayed operations were run at once and waiting for a group gave up
early. Waiting without a timeout, i.e. for -1 ms, returned at once, too.
---
 src/libdispatch/libdispatch_backend_internal.h | 13 +++++++++++++
 src/libdispatch/libdispatch_group.cpp          |  7 +++----
 src/libdispatch/libdispatch_queue.cpp          |  3 +--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/libdispatch/libdispatch_backend_internal.h b/src/libdispatch/libdispatch_backend_internal.h
index c6f59fe..904d2e5 100644
--- a/src/libdispatch/libdispatch_backend_internal.h
+++ b/src/libdispatch/libdispatch_backend_internal.h
@@ -87,6 +87,19 @@ private:
     T m_object;
 };
 
+inline uint64_t
+duration_2_native(std::chrono::milliseconds duration)
+{
+    return limit_timeout(duration).count() * NSEC_PER_MSEC;
+}
+
+inline dispatch_time_t
+timeout_2_native(std::chrono::milliseconds timeout)
+{
+    return dispatch_time(DISPATCH_TIME_NOW,
+                         std::int64_t(duration_2_native(timeout)));
+}
+
 dispatch_queue_t
 impl_2_native(const iqueue_impl_ptr&);
 
diff --git a/src/libdispatch/libdispatch_group.cpp b/src/libdispatch/libdispatch_group.cpp
index 0e5bb7f..32382cb 100644
--- a/src/libdispatch/libdispatch_group.cpp
+++ b/src/libdispatch/libdispatch_group.cpp
@@ -55,16 +55,15 @@ public:
 
     bool wait(std::chrono::milliseconds timeout) final
     {
-        if (std::chrono::milliseconds::max() == timeout) {
+        if (std::chrono::milliseconds(-1) == timeout ||
+            std::chrono::milliseconds::max() == timeout) {
             return 0 == dispatch_group_wait(m_native, DISPATCH_TIME_FOREVER);
         }
         if (0 == timeout.count()) {
             return 0 == dispatch_group_wait(m_native, DISPATCH_TIME_NOW);
         }
 
-        const auto time = dispatch_time(
-          DISPATCH_TIME_NOW, std::int64_t(timeout.count() * NSEC_PER_MSEC));
-        return 0 == dispatch_group_wait(m_native, time);
+        return 0 == dispatch_group_wait(m_native, timeout_2_native(timeout));
     }
 
     void notify(const operation_ptr& op, const iqueue_impl_ptr& q) final
diff --git a/src/libdispatch/libdispatch_queue.cpp b/src/libdispatch/libdispatch_queue.cpp
index 6561d29..64740dc 100644
--- a/src/libdispatch/libdispatch_queue.cpp
+++ b/src/libdispatch/libdispatch_queue.cpp
@@ -61,8 +61,7 @@ public:
 
     void after(std::chrono::milliseconds delay, const operation_ptr& op) final
     {
-        const auto time = dispatch_time(
-          DISPATCH_TIME_NOW, std::int64_t(delay.count() * NSEC_PER_MSEC));
+        const auto time = timeout_2_native(delay);
         auto wrapper = std::make_unique<operation_wrap>(op);
         dispatch_after_f(
           time, m_native, wrapper.release(), _xdispatch2_run_wrap_delete);
-- 
2.43.0


From 0b5e0e8238043988341f7ad2dbd3bcc67e1f5971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 24/32] fix: keep the handler of a libdispatch timer valid
 while it is used

The operation was owned by the timer and destroyed while being executed
or queued when the timer was released or got another handler. Cancelling
did not wait for an active handler, a timer which was never started or
is suspended was released while suspended, its initial reference leaked
and a single shot timer fired continuously.
---
 .../libdispatch_backend_internal.h            | 74 +++++++++++++++++
 src/libdispatch/libdispatch_timer.cpp         | 81 +++++++++++++------
 2 files changed, 130 insertions(+), 25 deletions(-)

diff --git a/src/libdispatch/libdispatch_backend_internal.h b/src/libdispatch/libdispatch_backend_internal.h
index 904d2e5..46252a2 100644
--- a/src/libdispatch/libdispatch_backend_internal.h
+++ b/src/libdispatch/libdispatch_backend_internal.h
@@ -22,6 +22,9 @@
 #ifndef XDISPATCH_LIBDISPATCH_INTERNAL_H_
 #define XDISPATCH_LIBDISPATCH_INTERNAL_H_
 
+#include <memory>
+#include <mutex>
+
 #include "xdispatch/backend_libdispatch.h"
 #include "xdispatch/impl/ibackend.h"
 
@@ -87,6 +90,77 @@ private:
     T m_object;
 };
 
+/**
+    @brief Owns a dispatch source along with the context of its handlers
+
+    The context is shared with the source and stays valid until libdispatch
+    has released the source, i.e. even when a handler is active or queued
+    while the owner is destroyed.
+
+    A source can neither be resumed more often than it was suspended nor be
+    released while being suspended, hence calls are counted.
+ */
+template<typename T>
+class source_scope_T
+{
+public:
+    source_scope_T(dispatch_source_t native,
+                   const std::shared_ptr<T>& context,
+                   dispatch_function_t handler)
+      : m_native(native)
+      , m_running(0)
+    {
+        XDISPATCH_ASSERT(m_native);
+        dispatch_set_context(m_native, new std::shared_ptr<T>(context));
+        dispatch_set_finalizer_f(m_native, &delete_context);
+        dispatch_source_set_event_handler_f(m_native, handler);
+    }
+    source_scope_T(const source_scope_T& other) = delete;
+
+    ~source_scope_T()
+    {
+        dispatch_source_cancel(m_native);
+        if (m_running <= 0) {
+            dispatch_resume(m_native);
+        }
+        dispatch_release(m_native);
+        m_native = nullptr;
+    }
+
+    void resume()
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        if (1 == ++m_running) {
+            dispatch_resume(m_native);
+        }
+    }
+
+    void suspend()
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        if (0 == --m_running) {
+            dispatch_suspend(m_native);
+        }
+    }
+
+    dispatch_source_t get() const { return m_native; }
+
+    static T& context(void* context)
+    {
+        return **static_cast<std::shared_ptr<T>*>(context);
+    }
+
+private:
+    static void delete_context(void* context)
+    {
+        delete static_cast<std::shared_ptr<T>*>(context);
+    }
+
+    dispatch_source_t m_native;
+    std::mutex m_CS;
+    int m_running;
+};
+
 inline uint64_t
 duration_2_native(std::chrono::milliseconds duration)
 {
diff --git a/src/libdispatch/libdispatch_timer.cpp b/src/libdispatch/libdispatch_timer.cpp
index 814b54e..654de00 100644
--- a/src/libdispatch/libdispatch_timer.cpp
+++ b/src/libdispatch/libdispatch_timer.cpp
@@ -19,7 +19,10 @@
  * limitations under the License.
  */
 
+#include <atomic>
+
 #include "xdispatch/impl/itimer_impl.h"
+#include "xdispatch/impl/cancelable.h"
 
 #include "libdispatch_backend_internal.h"
 #include "libdispatch_execution.h"
@@ -27,39 +30,53 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace libdispatch {
 
+// what is needed to run the handler of a timer
+struct timer_context
+{
+    void run()
+    {
+        cancelable_scope scope(m_active);
+        const auto wrapper = std::atomic_load(&m_wrapper);
+        if (scope && wrapper) {
+            _xdispatch2_run_wrap(wrapper.get());
+        }
+    }
+
+    cancelable m_active;
+    std::shared_ptr<operation_wrap> m_wrapper;
+};
+
 class timer_impl : public itimer_impl
 {
 public:
     timer_impl(dispatch_source_t native)
       : itimer_impl()
-      , m_native(native)
+      , m_context(std::make_shared<timer_context>())
+      , m_native(native, m_context, &static_timer_callback)
       , m_interval(0)
       , m_latency(0)
       , m_delay(DISPATCH_TIME_NOW)
-    {
-        XDISPATCH_ASSERT(m_native);
-        dispatch_retain(m_native);
-    }
+    {}
 
-    ~timer_impl() override
+    static void static_timer_callback(void* context)
     {
-        dispatch_source_cancel(m_native);
-        dispatch_release(m_native);
-        m_native = nullptr;
+        source_scope_T<timer_context>::context(context).run();
     }
 
     void interval(std::chrono::milliseconds interval) final
     {
+        std::lock_guard<std::mutex> lock(m_CS);
         // changing the interval will also change the delay so that
         // the timer is not firing prematurely in case it is already
         // running and has its interval changed
-        m_interval = interval.count() * NSEC_PER_MSEC;
-        m_delay = dispatch_time(DISPATCH_TIME_NOW, std::int64_t(m_interval));
-        dispatch_source_set_timer(m_native, m_delay, m_interval, m_latency);
+        m_interval = duration_2_native(interval);
+        m_delay = timeout_2_native(interval);
+        set_timer();
     }
 
     void latency(timer_precision precision) final
     {
+        std::lock_guard<std::mutex> lock(m_CS);
         switch (precision) {
             case timer_precision::COARSE:
                 m_latency = NSEC_PER_SEC; // NOLINT(readability-magic-numbers)
@@ -73,46 +90,60 @@ public:
                 break;
         }
 
-        dispatch_source_set_timer(m_native, m_delay, m_interval, m_latency);
+        set_timer();
     }
 
     void handler(const operation_ptr& op) final
     {
-        m_wrapper = std::make_unique<operation_wrap>(op);
-        dispatch_set_context(m_native, m_wrapper.get());
-        dispatch_source_set_event_handler_f(m_native, _xdispatch2_run_wrap);
+        std::atomic_store(&m_context->m_wrapper,
+                          std::make_shared<operation_wrap>(op));
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
     {
-        dispatch_set_target_queue(m_native, impl_2_native(q));
+        dispatch_set_target_queue(m_native.get(), impl_2_native(q));
     }
 
     void resume(std::chrono::milliseconds delay) final
     {
+        std::lock_guard<std::mutex> lock(m_CS);
         if (0 == delay.count()) {
             m_delay = DISPATCH_TIME_NOW;
         } else {
-            m_delay = dispatch_time(
-              DISPATCH_TIME_NOW, std::int64_t(delay.count() * NSEC_PER_MSEC));
+            m_delay = timeout_2_native(delay);
         }
 
-        dispatch_source_set_timer(m_native, m_delay, m_interval, m_latency);
-        dispatch_resume(m_native);
+        set_timer();
+        m_native.resume();
     }
 
-    void suspend() final { dispatch_suspend(m_native); }
+    void suspend() final { m_native.suspend(); }
 
-    void cancel() final { dispatch_source_cancel(m_native); }
+    void cancel() final
+    {
+        dispatch_source_cancel(m_native.get());
+        m_context->m_active.disable();
+    }
 
     backend_type backend() final { return backend_type::libdispatch; }
 
 private:
-    dispatch_source_t m_native;
+    void set_timer()
+    {
+        // an interval of zero would fire as often as possible
+        dispatch_source_set_timer(m_native.get(),
+                                  m_delay,
+                                  m_interval > 0 ? m_interval
+                                                 : DISPATCH_TIME_FOREVER,
+                                  m_latency);
+    }
+
+    const std::shared_ptr<timer_context> m_context;
+    source_scope_T<timer_context> m_native;
+    std::mutex m_CS;
     uint64_t m_interval;
     uint64_t m_latency;
     uint64_t m_delay;
-    std::unique_ptr<operation_wrap> m_wrapper;
 };
 
 itimer_impl_ptr
-- 
2.43.0


From 3b93d66f82f96c1ad28df289e823e86629952791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 25/32] fix: keep a libdispatch notifier valid while its
 handler is used

The handler used the notifier itself which may have been released in
between. Releasing a started notifier resumed it once more than allowed.
---
 .../libdispatch_socket_notifier.cpp           | 104 +++++++++---------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/src/libdispatch/libdispatch_socket_notifier.cpp b/src/libdispatch/libdispatch_socket_notifier.cpp
index 2209ae9..157b163 100644
--- a/src/libdispatch/libdispatch_socket_notifier.cpp
+++ b/src/libdispatch/libdispatch_socket_notifier.cpp
@@ -33,42 +33,16 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace libdispatch {
 
-class socket_notifier_impl : public isocket_notifier_impl
+// what is needed to run the handler of a notifier
+struct socket_notifier_context
 {
-public:
-    socket_notifier_impl(const iqueue_impl_ptr& queue,
-                         socket_t socket,
-                         notifier_type type)
-      : isocket_notifier_impl()
-      , m_queue(queue)
-      , m_socket(socket)
+    socket_notifier_context(socket_t socket, notifier_type type)
+      : m_socket(socket)
       , m_type(type)
       , m_native(nullptr)
-    {
-        const auto* source = type == notifier_type::READ
-                               ? DISPATCH_SOURCE_TYPE_READ
-                               : DISPATCH_SOURCE_TYPE_WRITE;
-        m_native =
-          dispatch_source_create(source, m_socket, 0, impl_2_native(m_queue));
-    }
-
-    ~socket_notifier_impl() override
-    {
-        if (m_native) {
-            dispatch_resume(m_native);
-            dispatch_source_cancel(m_native);
-            dispatch_release(m_native);
-            m_native = nullptr;
-        }
-    }
-
-    static void static_notifier_callback(void* context)
-    {
-        auto* this_ptr = static_cast<socket_notifier_impl*>(context);
-        this_ptr->notifier_callback();
-    }
+    {}
 
-    void notifier_callback()
+    void run()
     {
         if (notifier_type::WRITE == m_type) {
             auto available = dispatch_source_get_data(m_native);
@@ -91,46 +65,63 @@ public:
         }
     }
 
+    const socket_t m_socket;
+    const notifier_type m_type;
+    // not owned, valid while a handler of the source is active
+    dispatch_source_t m_native;
+    cancelable m_active;
+    socket_notifier_operation_ptr m_notifier_operation;
+};
+
+class socket_notifier_impl : public isocket_notifier_impl
+{
+public:
+    socket_notifier_impl(dispatch_source_t native,
+                         socket_t socket,
+                         notifier_type type)
+      : isocket_notifier_impl()
+      , m_context(std::make_shared<socket_notifier_context>(socket, type))
+      , m_native(native, m_context, &static_notifier_callback)
+    {
+        m_context->m_native = native;
+    }
+
+    static void static_notifier_callback(void* context)
+    {
+        source_scope_T<socket_notifier_context>::context(context).run();
+    }
+
     void handler(const socket_notifier_operation_ptr& op) final
     {
-        // we won't read m_notifier_operation, just make sure it is stored
-        // before we update the handler and set the context
-        std::atomic_store_explicit(
-          &m_notifier_operation, op, std::memory_order_release);
-        dispatch_set_context(m_native, this);
-        dispatch_source_set_event_handler_f(m_native,
-                                            &static_notifier_callback);
+        std::atomic_store_explicit(&m_context->m_notifier_operation,
+                                   op,
+                                   std::memory_order_release);
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
     {
-        m_queue = q;
-        dispatch_set_target_queue(m_native, impl_2_native(q));
+        dispatch_set_target_queue(m_native.get(), impl_2_native(q));
     }
 
-    void resume() final { dispatch_resume(m_native); }
+    void resume() final { m_native.resume(); }
 
-    void suspend() final { dispatch_suspend(m_native); }
+    void suspend() final { m_native.suspend(); }
 
     void cancel() final
     {
-        dispatch_source_cancel(m_native);
-        m_active.disable();
+        dispatch_source_cancel(m_native.get());
+        m_context->m_active.disable();
     }
 
-    socket_t socket() const final { return m_socket; }
+    socket_t socket() const final { return m_context->m_socket; }
 
-    notifier_type type() const final { return m_type; }
+    notifier_type type() const final { return m_context->m_type; }
 
     backend_type backend() final { return backend_type::libdispatch; }
 
 private:
-    iqueue_impl_ptr m_queue;
-    const socket_t m_socket;
-    const notifier_type m_type;
-    dispatch_source_t m_native;
-    cancelable m_active;
-    socket_notifier_operation_ptr m_notifier_operation;
+    const std::shared_ptr<socket_notifier_context> m_context;
+    source_scope_T<socket_notifier_context> m_native;
 };
 
 isocket_notifier_impl_ptr
@@ -138,7 +129,12 @@ backend::create_socket_notifier(const iqueue_impl_ptr& queue,
                                 socket_t socket,
                                 notifier_type type)
 {
-    return std::make_shared<socket_notifier_impl>(queue, socket, type);
+    const auto* source = type == notifier_type::READ
+                           ? DISPATCH_SOURCE_TYPE_READ
+                           : DISPATCH_SOURCE_TYPE_WRITE;
+    object_scope_T<dispatch_source_t> native(
+      dispatch_source_create(source, socket, 0, impl_2_native(queue)));
+    return std::make_shared<socket_notifier_impl>(native.take(), socket, type);
 }
 
 } // namespace libdispatch
-- 
2.43.0


From 4b0dba49883f63cf00a626be4cf18ef27771c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 26/32] fix: socket notifiers keep counting when suspend()
 overtakes a concurrent resume()

---
 src/naive/naive_socket_notifier.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 7e10ee9..579c2a7 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -61,6 +61,7 @@ public:
       , m_handler()
       , m_resume_counter(0)
       , m_worker_cookie(0)
+      , m_cancelled(false)
       , m_notifying(false)
     {}
 
@@ -81,7 +82,7 @@ public:
     void resume() final
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        if (m_resume_counter < 0) {
+        if (m_cancelled) {
             // cancelled so do not proceed
             return;
         }
@@ -130,22 +131,21 @@ public:
     void suspend() final
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        if (m_resume_counter > 0) {
-            --m_resume_counter;
+        // calls made by several threads might get here ahead of the resume
+        // balancing them so that the counter is allowed to become negative
+        if (0 == --m_resume_counter) {
             // when we have just suspended increment the cookie
             // so any workers kicked off with the previous cookie
             // know they should end.
-            if (0 == m_resume_counter) {
-                ++m_worker_cookie;
-            }
-        };
+            ++m_worker_cookie;
+        }
     }
 
     void cancel() final
     {
         {
             std::lock_guard<std::mutex> lock(m_CS);
-            m_resume_counter = -1;
+            m_cancelled = true;
             ++m_worker_cookie;
         }
         m_handler_cancelable.disable();
@@ -274,6 +274,7 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    bool m_cancelled;
     // set while the handler is queued or active
     bool m_notifying;
     std::condition_variable m_idle;
-- 
2.43.0


From 964890deb4fc67dd90297ff4536d27d4f1645e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 27/32] fix: polling a group gets slower and takes more memory
 with every wait which gives up

---
 src/naive/naive_consumable.cpp | 26 +++++++++++++++-----------
 src/naive/naive_consumable.h   |  5 +++++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index 3e2c87b..3d14e8e 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -57,22 +57,26 @@ consumable::consume_resource()
     }
 }
 
-// Recursion is no risk because infinite recursion is guarded by checking
-// preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
 {
-    // make sure that the preceeding consumable is satisfied
-    const auto preceeding = std::atomic_load(&m_preceeding);
-    if (preceeding && preceeding.get() != this) {
-        if (preceeding->wait_for_consumed(timeout)) {
-            // satisfied and will remain so, continue with this and keep the
-            // chain from growing with every wait
-            std::atomic_store(&m_preceeding, consumable_ptr());
-        } else {
+    // the preceeding consumables have to be satisfied as well
+    auto preceeding = std::atomic_load(&m_preceeding);
+    while (preceeding) {
+        if (!preceeding->wait_for_resources(timeout)) {
             return false;
         }
+        // satisfied and will remain so, continue with the one before and keep
+        // the chain from growing with every wait
+        preceeding = std::atomic_load(&preceeding->m_preceeding);
+        std::atomic_store(&m_preceeding, preceeding);
     }
+    return wait_for_resources(timeout);
+}
+
+bool
+consumable::wait_for_resources(const std::chrono::milliseconds timeout)
+{
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
     // can be considered as fully satisfied still
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 79203ac..da85628 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -86,6 +86,11 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
+    /**
+        @brief As wait_for_consumed() but ignoring preceeding consumables
+     */
+    bool wait_for_resources(std::chrono::milliseconds timeout);
+
     consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
-- 
2.43.0


From ca29845f3e761693cdba01fae8a46761dbb0c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 28/32] fix: a timed wait on a group takes a multiple of its
 timeout after waits which gave up

---
 src/naive/naive_consumable.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index 3d14e8e..3672f78 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -23,6 +23,8 @@
 #include "naive_threadpool.h"
 #include "naive_backend_internal.h"
 
+#include <algorithm>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -60,10 +62,22 @@ consumable::consume_resource()
 bool
 consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
 {
+    // every consumable in the chain has to be satisfied within the time given
+    const auto start = std::chrono::steady_clock::now();
+    const auto remaining = [timeout, start] {
+        if (timeout < std::chrono::milliseconds(0)) {
+            return timeout;
+        }
+        const auto elapsed =
+          std::chrono::duration_cast<std::chrono::milliseconds>(
+            std::chrono::steady_clock::now() - start);
+        return std::max(std::chrono::milliseconds(0), timeout - elapsed);
+    };
+
     // the preceeding consumables have to be satisfied as well
     auto preceeding = std::atomic_load(&m_preceeding);
     while (preceeding) {
-        if (!preceeding->wait_for_resources(timeout)) {
+        if (!preceeding->wait_for_resources(remaining())) {
             return false;
         }
         // satisfied and will remain so, continue with the one before and keep
@@ -71,7 +85,7 @@ consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
         preceeding = std::atomic_load(&preceeding->m_preceeding);
         std::atomic_store(&m_preceeding, preceeding);
     }
-    return wait_for_resources(timeout);
+    return wait_for_resources(remaining());
 }
 
 bool
-- 
2.43.0


From e88f26e88644eef859e9ab47fca41102c45af3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 29/32] fix: a single shot timer given an interval by its
 handler stays single shot

The interval was taken before the call so that changes made by the handler
itself came too late, a single shot timer ended although it had been
converted to a periodic one.
---
 src/naive/naive_timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 1cc09d6..4317743 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -157,7 +157,6 @@ private:
             const auto handler = m_handler;
             const auto queue = m_queue;
             auto& cancelable = m_cancelable;
-            interval = m_interval;
 
             inverse_lock_guard<std::mutex> unlock(m_CS);
 
@@ -176,6 +175,8 @@ private:
         m_firing = false;
         m_idle.notify_all();
 
+        // the handler might have changed the interval
+        interval = m_interval;
         // otherwise a singleshot timer
         return interval.count() > 0;
     }
-- 
2.43.0


From 5b288c5235a4ef52c201132387ebdf2d84964f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 30/32] fix: operations of a waitable queue are released
 without its lock held

What an operation holds might use the queue while being released, which
deadlocked as the worker released the executed operation while locked.
---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 6993097..b151f77 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,9 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // not to be released while locked, releasing what is held by
+            // the operation might use the queue
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From 1f821ca76f0264a1511c052a4ff2366e219fc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 31/32] fix: replaced handlers of timers and socket notifiers
 are released unlocked

What a handler holds might use the timer or notifier while being released,
which deadlocked when the handler was replaced by another one.
---
 src/naive/naive_socket_notifier.cpp | 13 ++++++++++---
 src/naive/naive_timer.cpp           | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 579c2a7..c1bd140 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -69,8 +69,11 @@ public:
 
     void handler(const socket_notifier_operation_ptr& op) final
     {
+        // the previous handler is not to be released while locked, releasing
+        // what it holds might use the notifier
+        auto handler = op;
         std::lock_guard<std::mutex> lock(m_CS);
-        m_handler = op;
+        m_handler.swap(handler);
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
@@ -168,6 +171,10 @@ private:
      */
     bool notify(int cookie, bool ready)
     {
+        // not to be released while locked if replaced in the meantime
+        socket_notifier_operation_ptr handler;
+        iqueue_impl_ptr queue;
+
         std::unique_lock<std::mutex> lock(m_CS);
         if (m_notifying) {
             // the worker of a previous resume has a call in flight, which
@@ -188,8 +195,8 @@ private:
 
         m_notifying = true;
         {
-            const auto handler = m_handler;
-            const auto queue = m_queue;
+            handler = m_handler;
+            queue = m_queue;
             const auto socket = m_socket;
             const auto type = m_type;
             auto& handler_cancelable = m_handler_cancelable;
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 4317743..8772696 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -65,8 +65,11 @@ public:
 
     void handler(const operation_ptr& op) final
     {
+        // the previous handler is not to be released while locked, releasing
+        // what it holds might use the timer
+        auto handler = op;
         std::lock_guard<std::mutex> lock(m_CS);
-        m_handler = op;
+        m_handler.swap(handler);
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
@@ -146,6 +149,10 @@ private:
      */
     bool fire(size_t start, std::chrono::milliseconds& interval)
     {
+        // not to be released while locked if replaced in the meantime
+        operation_ptr handler;
+        iqueue_impl_ptr queue;
+
         std::unique_lock<std::mutex> lock(m_CS);
         // a previous start might have a call in flight
         m_idle.wait(lock, [this] { return !m_firing; });
@@ -154,8 +161,8 @@ private:
         }
         m_firing = true;
         {
-            const auto handler = m_handler;
-            const auto queue = m_queue;
+            handler = m_handler;
+            queue = m_queue;
             auto& cancelable = m_cancelable;
 
             inverse_lock_guard<std::mutex> unlock(m_CS);
-- 
2.43.0


From c94822a4ea8b7f8ea430b220defedc8e81a642f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 32/32] fix: waiting for one operation of a waitable queue
 returns after one completed

A wait woken up late found the queue busy with the next operation already
and went on waiting, a wait which found the queue idle could end up running
the next operation although the one waited for had completed meanwhile.
If the next operation depends on the wait to return this was a deadlock.
---
 src/waitable_queue.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index b151f77..8bc9302 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -43,11 +43,14 @@ public:
       , m_active(false)
     {}
 
-    void operator()() override { drain_one(); }
-
-    void drain_one()
+    void operator()() override
     {
         std::unique_lock<std::mutex> lock(m_CS);
+        drain_one(lock);
+    }
+
+    void drain_one(std::unique_lock<std::mutex>& lock)
+    {
         // wait for parallel executions to complete
         if (m_active) {
             m_cond.wait(lock, [this] { return !m_active; });
@@ -82,10 +85,12 @@ public:
     {
         while (0 == m_completed) {
             // when the queue is already active processing a queued operation
-            // we can just wait for it to complete and will not deadlock
+            // we can just wait for it to complete and will not deadlock. The
+            // queue might have started with the next one when we wake up
             if (m_active) {
                 XDISPATCH_TRACE() << "Waiting for active operation";
-                m_cond.wait(lock, [this] { return !m_active; });
+                m_cond.wait(
+                  lock, [this] { return !m_active || m_completed > 0; });
             }
             // there is some chance nothing was queued to begin with
             else if (m_operations.empty()) {
@@ -93,13 +98,12 @@ public:
                 return;
             }
             // when the queue is not active we can just take over and do the
-            // processing as the queue would need to get scheduled first
+            // processing as the queue would need to get scheduled first. Stay
+            // locked as the queue must not get active in between
             else {
-                lock.unlock();
                 XDISPATCH_TRACE()
                   << "Operation queue is starving, execute directly";
-                drain_one();
-                lock.lock();
+                drain_one(lock);
             }
         }
         // decrement the completion counter
-- 
2.43.0

