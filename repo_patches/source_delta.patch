From 57100043e0d6062bfd04d669f2ab0876bad839b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:23 +0000
Subject: [PATCH 01/18] fix: clear the thread's own context before
 unregistering it

unregister_this_thread destroyed the left-over tasks while the thread
local pointer still referred to the dying context, so a task destructor
calling into the library used a destroyed context.
---
 threadpp/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..987945c 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -590,8 +590,11 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    // the left over tasks are destroyed by unregister_thread_impl,
+    // by then the thread must not count as registered any more
+    auto id = get_id();
     set_local_context(nullptr);
+    unregister_thread_impl(id);
 }
 
 auto notified_for_exit() -> bool
-- 
2.43.0


From 2f40892149de5a82c31e062f3b900e8e778f6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:23 +0000
Subject: [PATCH 02/18] fix: do not accept tasks for a thread that is being
 unregistered

A task pushed between the registry lookup and the push could end up in a
context that had just been unregistered: invoke reported success, the task
never ran and it was destroyed by the invoking thread, possibly with
internal mutexes held.
---
 threadpp/thread.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 987945c..8aa1a34 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -26,6 +26,8 @@ struct thread_context
     std::string name;
     std::atomic<bool> wakeup{false};
     std::atomic<bool> exit{false};
+    // set when unregistered, no task is accepted afterwards
+    bool closed{false};
 };
 
 struct program_context
@@ -143,6 +145,10 @@ void unregister_thread_impl(thread::id id)
 {
     // unlock of global mutex must happen before
     // destructor of context
+    // tasks which will never run are destroyed after
+    // both mutexes are unlocked
+    std::vector<task> tasks;
+    std::vector<task> processing_tasks;
     std::shared_ptr<thread_context> context{};
     auto& global_context = get_global_context();
     std::lock_guard<std::mutex> lock(global_context.mutex);
@@ -155,6 +161,10 @@ void unregister_thread_impl(thread::id id)
     // get the context and lock it
     context = it->second;
     std::lock_guard<std::mutex> local_lock(context->tasks_mutex);
+    context->closed = true;
+    std::swap(tasks, context->tasks);
+    std::swap(processing_tasks, context->processing_tasks);
+    context->processing_idx = 0;
 
     global_context.id_map.erase(context->native_thread_id);
     // now we can safely remove the context
@@ -379,6 +389,11 @@ auto invoke_packaged_task(thread::id id, task& f) -> bool
 
     std::lock_guard<std::mutex> remote_lock(context->tasks_mutex);
 
+    if(context->closed)
+    {
+        return false;
+    }
+
     context->tasks.emplace_back(std::move(f));
     context->wakeup = true;
     context->wakeup_event.notify_all();
-- 
2.43.0


From d08afa85fbca2235ec29e0d163e6a823dec5416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:23 +0000
Subject: [PATCH 03/18] fix: do not run user callbacks under the registry mutex

init and shutdown called, copied and destroyed the user supplied callbacks
with the registry mutex locked. A log callback that used the library
deadlocked.
---
 threadpp/thread.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 8aa1a34..2903343 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -188,9 +188,13 @@ void init(const init_data& data)
     }
 
     this_thread::register_this_thread("Main Thread");
+    // user callbacks must not be copied, called or destroyed
+    // with the mutex locked
+    auto config = data;
     std::unique_lock<std::mutex> lock(global_context.mutex);
     global_context.main_thread_id = this_thread::get_id();
-    global_context.config = data;
+    std::swap(global_context.config, config);
+    lock.unlock();
     log_info_func("Successful.");
 }
 
@@ -225,18 +229,26 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
 
     auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);
 
+    const auto threads_left = static_cast<int>(global_context.contexts.size());
+    // user callbacks must not be called or destroyed
+    // with the mutex locked
+    lock.unlock();
+
     if(result)
     {
         log_info_func("Successful.");
-        global_context.config = {};
-        return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
-        global_context.config = {};
-        return static_cast<int>(global_context.contexts.size());
     }
+
+    init_data config{};
+    lock.lock();
+    std::swap(global_context.config, config);
+    lock.unlock();
+
+    return threads_left;
 }
 
 auto get_all_registered_threads() -> std::vector<thread::id>
-- 
2.43.0


From 297b0727edc7ee05d95667e65571c68333d33806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:23 +0000
Subject: [PATCH 04/18] fix: read the main thread id under the registry mutex

init writes it with the mutex locked, main_thread::get_id read it without.
---
 threadpp/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 2903343..e62723a 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -416,7 +416,8 @@ namespace main_thread
 {
 auto get_id() -> thread::id
 {
-    const auto& global_context = get_global_context();
+    auto& global_context = get_global_context();
+    std::lock_guard<std::mutex> lock(global_context.mutex);
     return global_context.main_thread_id;
 }
 } // namespace main_thread
-- 
2.43.0


From 7233d073f00ba101ce2fa8889da22ba5876f9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:36 +0000
Subject: [PATCH 05/18] fix: do not let concurrent shutdown calls wrap the init
 counter

---
 threadpp/thread.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index e62723a..ced1e42 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -201,13 +201,18 @@ void init(const init_data& data)
 auto shutdown(const std::chrono::seconds& timeout) -> int
 {
     auto& global_context = get_global_context();
-    if(global_context.init_count == 0)
+    // concurrent calls must not wrap the counter
+    auto init_count = global_context.init_count.load();
+    do
     {
-        log_error_func("Shutting down when not initted.");
-        return -1;
-    }
+        if(init_count == 0)
+        {
+            log_error_func("Shutting down when not initted.");
+            return -1;
+        }
+    } while(!global_context.init_count.compare_exchange_weak(init_count, init_count - 1));
 
-    if(--global_context.init_count != 0)
+    if(init_count != 1)
     {
         return -1;
     }
-- 
2.43.0


From 7b286c8bf53e88fe5fccfa329b23714015ab0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:35 +0000
Subject: [PATCH 06/18] fix: do not deregister the outer wait when a nested
 wait on the same object ends

---
 threadpp/detail/semaphore.cpp | 21 ++++++++++++++++-----
 threadpp/detail/semaphore.h   |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..95c4222 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -77,7 +77,8 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -99,7 +100,12 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
         }
     }
 
-    remove_waiter(id);
+    // a wait nested in another one shares its
+    // registration and must leave it alone
+    if(added)
+    {
+        remove_waiter(id);
+    }
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -116,7 +122,8 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -148,12 +155,15 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     }
 
     // remove waiter in case of timeout
-    remove_waiter(id);
+    if(added)
+    {
+        remove_waiter(id);
+    }
 
     return status;
 }
 
-auto semaphore::add_waiter(thread::id id) const -> interrupt_token
+auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -172,6 +182,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     info.id = id;
     info.token = interrupt_token{false};
     waiters_.emplace_back(std::move(info));
+    added = true;
     return waiters_.back().token;
 }
 
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..f9fd74f 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -98,7 +98,7 @@ protected:
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
-    auto add_waiter(thread::id id) const -> interrupt_token;
+    auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
     void remove_waiter(thread::id id) const;
 
-- 
2.43.0


From 68bf8d73df0c728966af75ad4c1b8b6a62b45316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:35 +0000
Subject: [PATCH 07/18] fix: report a notification that arrives while a timed
 wait gives up

---
 threadpp/detail/semaphore.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 95c4222..5346e70 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -34,6 +34,9 @@ void semaphore::notify_one() noexcept
             // here. We are fair and wake the oldest one
             auto waiter = std::move(waiters_.front());
             waiters_.erase(waiters_.begin());
+            // a waiter which is no longer registered
+            // must be able to see why
+            waiter.token.interrupt();
 
             return waiter;
         }
@@ -43,8 +46,6 @@ void semaphore::notify_one() noexcept
 
     if(waiter.id != invalid_id())
     {
-        waiter.token.interrupt();
-
         notify(waiter.id);
     }
 }
@@ -55,6 +56,13 @@ void semaphore::notify_all() noexcept
     {
         std::lock_guard<std::mutex> lock(mutex_);
 
+        // a waiter which is no longer registered
+        // must be able to see why
+        for(auto& waiter : waiters_)
+        {
+            waiter.token.interrupt();
+        }
+
         return std::move(waiters_);
     }();
 
@@ -62,8 +70,6 @@ void semaphore::notify_all() noexcept
     {
         if(waiter.id != invalid_id())
         {
-            waiter.token.interrupt();
-
             notify(waiter.id);
         }
     }
@@ -144,7 +150,7 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        this_thread::wait_for(time_left);
 
         if(after_wait)
         {
@@ -160,6 +166,12 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
         remove_waiter(id);
     }
 
+    // notified in the meantime
+    if(token.is_interrupted())
+    {
+        status = std::cv_status::no_timeout;
+    }
+
     return status;
 }
 
-- 
2.43.0


From ad4488987196c6907a08188857a2f94d0079b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:35 +0000
Subject: [PATCH 08/18] fix: do not let unregistered threads take notifications

---
 threadpp/detail/semaphore.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 5346e70..70b8dfd 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -177,6 +177,13 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
 
 auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
+    // a thread which is not registered cannot be woken
+    // and must not take a notification from one that can
+    if(id == invalid_id())
+    {
+        return interrupt_token{false};
+    }
+
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
     auto it = std::find_if(std::begin(waiters_),
-- 
2.43.0


From 91a565f6939bb356bffa6455572154416b16ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:52 +0000
Subject: [PATCH 09/18] fix: do not lose the wakeup of a thread that blocks in
 mutex::lock

---
 threadpp/mutex.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..6263e86 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -1,5 +1,5 @@
 #pragma once
-#include "detail/semaphore.h"
+#include "condition_variable.hpp"
 
 namespace tpp
 {
@@ -24,6 +24,7 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
+        std::unique_lock<std::mutex> guard(guard_);
         while(flag_.test_and_set())
         {
             // are we already owning it?
@@ -31,7 +32,15 @@ public:
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+            // these threads do not sleep, let the owner proceed
+            if(id == invalid_id() || this_thread::notified_for_exit())
+            {
+                guard.unlock();
+                std::this_thread::yield();
+                guard.lock();
+                continue;
+            }
+            sync_.wait(guard);
         }
 
         owner_ = id;
@@ -43,12 +52,14 @@ public:
     //-----------------------------------------------------------------------------
     auto try_lock() -> bool
     {
+        auto id = this_thread::get_id();
+        std::lock_guard<std::mutex> guard(guard_);
         if(flag_.test_and_set())
         {
             return false;
         }
 
-        owner_ = this_thread::get_id();
+        owner_ = id;
         return true;
     }
 
@@ -60,6 +71,7 @@ public:
     void unlock()
     {
         auto id = this_thread::get_id();
+        std::unique_lock<std::mutex> guard(guard_);
 
         // did we already release it.
         if(owner_ != id)
@@ -69,12 +81,17 @@ public:
 
         owner_ = invalid_id();
         flag_.clear();
+        guard.unlock();
         sync_.notify_all();
     }
 
 private:
-    /// Underlying semaphore that handles notifying.
-    detail::semaphore sync_;
+    /// Protects the owner and the flag so that a thread which
+    /// goes to sleep cannot miss the unlock.
+    std::mutex guard_;
+
+    /// Handles notifying.
+    condition_variable sync_;
 
     std::atomic<thread::id> owner_{invalid_id()};
     std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
-- 
2.43.0


From 4984d18cfa31054cba42eb511003ff67ee6dd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:14 +0000
Subject: [PATCH 10/18] fix: do not let get of a void future return without a
 result

A thread that is asked to exit, or is not registered, leaves wait() early.
get() of future<T> reports this with broken_promise, but get() of
future<void> returned as if the result were there, and looked at the
stored exception without the lock.
---
 threadpp/detail/future_state.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..3280938 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,7 +187,14 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        std::unique_lock<std::mutex> lock(guard);
+
         rethrow_any_exception();
+
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
     }
 };
 template<typename T>
-- 
2.43.0


From 4c8bab142ceed24ed619c090a545dd4405ace3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:14 +0000
Subject: [PATCH 11/18] fix: abandon the old state of a promise that is
 assigned over

The defaulted move assignment dropped an unsatisfied state without a
result, so its future never became ready.
---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..106b491 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the state we give up is abandoned when it goes out of scope
+        basic_promise other(std::move(rhs));
+        std::swap(state_, other.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From 65f9d47a3ca8656dbb38b9a823d7aed454575d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:14 +0000
Subject: [PATCH 12/18] fix: notify the waiters of a future without holding its
 lock

Notifying from a thread which is not registered calls the user's log
callback. It was called with the lock of the shared state held, so a
callback that uses the future deadlocked.
---
 threadpp/detail/future_state.hpp |  5 +++--
 threadpp/future.hpp              | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 3280938..b053aa8 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -58,10 +58,11 @@ struct basic_state
             status = s;
             continuations = std::move(callbacks);
             callbacks.clear();
-            cv.notify_all();
         }
 
         lock.unlock();
+        // this may call the log callback, so not with the lock held
+        cv.notify_all();
         for(const auto& continuation : continuations)
         {
             if(continuation)
@@ -115,7 +116,7 @@ struct basic_state
 
             if(cv.wait_for(lock, timeout_duration) == std::cv_status::timeout)
             {
-                return std::future_status::timeout;
+                return ready() ? std::future_status::ready : std::future_status::timeout;
             }
         }
 
diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 106b491..17b744e 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -209,7 +209,9 @@ public:
     void set_exception(std::exception_ptr p)
     {
         check_state(state_);
-        state_->set_exception(std::move(p));
+        // the one who waits for the result may destroy the promise
+        auto state = state_;
+        state->set_exception(std::move(p));
     }
 
     //-----------------------------------------------------------------------------
@@ -259,7 +261,9 @@ public:
     void set_value(T&& value)
     {
         check_state(this->state_);
-        this->state_->set_value(std::move(value));
+        // the one who waits for the result may destroy the promise
+        auto state = this->state_;
+        state->set_value(std::move(value));
     }
     //-----------------------------------------------------------------------------
     /// Sets the result to specific value
@@ -267,7 +271,9 @@ public:
     void set_value(const T& value)
     {
         check_state(this->state_);
-        this->state_->set_value(value);
+        // the one who waits for the result may destroy the promise
+        auto state = this->state_;
+        state->set_value(value);
     }
 };
 template<>
@@ -280,7 +286,9 @@ public:
     void set_value()
     {
         check_state(this->state_);
-        this->state_->set_value();
+        // the one who waits for the result may destroy the promise
+        auto state = this->state_;
+        state->set_value();
     }
 };
 
-- 
2.43.0


From 691837e1a412a6e4fb2cf9bad9acf290a7db7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:14 +0000
Subject: [PATCH 13/18] fix: do not log with the lock of a shared state held

wait and wait_for asked for the exit flag with the lock held. For a
thread that is not registered this calls the user's log callback.
---
 threadpp/detail/future_state.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index b053aa8..d2bb711 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -91,6 +91,12 @@ struct basic_state
 
     void wait()
     {
+        // this may call the log callback, so not with the lock held
+        if(ready() || this_thread::notified_for_exit())
+        {
+            return;
+        }
+
         std::unique_lock<std::mutex> lock(guard);
         while(!ready())
         {
@@ -105,6 +111,17 @@ struct basic_state
     template<typename Rep, typename Per>
     auto wait_for(const std::chrono::duration<Rep, Per>& timeout_duration) const -> std::future_status
     {
+        // this may call the log callback, so not with the lock held
+        if(ready())
+        {
+            return std::future_status::ready;
+        }
+
+        if(this_thread::notified_for_exit())
+        {
+            return std::future_status::deferred;
+        }
+
         std::unique_lock<std::mutex> lock(guard);
 
         while(!ready())
-- 
2.43.0


From c1ba3426bbea9224942a79aa66a0879d2effd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:32 +0000
Subject: [PATCH 14/18] fix: queue the request to look for jobs also when a
 worker schedules a job itself

---
 threadpp/thread_pool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..4db9c50 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -202,7 +202,9 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // always queue it, guard_ is locked here
+                    // even if this thread is one of the workers
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From 1505b8abb5bee8e2e67d7d76266aadab8c56fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:32 +0000
Subject: [PATCH 15/18] fix: destroy stopped jobs after the lock of the pool is
 released

---
 threadpp/thread_pool.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 4db9c50..4cd1179 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -117,6 +117,9 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // destroyed after the lock is released
+        job_info removed;
+
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
@@ -125,11 +128,13 @@ public:
             {
                 if(it->second.callable)
                 {
+                    removed = std::move(it->second);
                     jobs_.erase(id);
                 }
             }
             else
             {
+                removed = std::move(it->second);
                 jobs_.erase(id);
             }
         }
@@ -137,7 +142,14 @@ public:
 
     void clear_all()
     {
+        // destroyed after the lock is released
+        std::vector<job_info> removed;
+
         std::lock_guard<std::mutex> lock(guard_);
+        for(auto& kvp : jobs_)
+        {
+            removed.emplace_back(std::move(kvp.second));
+        }
         jobs_.clear();
         job_priority_queues_.clear();
     }
-- 
2.43.0


From 84c3238b9a544ad310c32923f3da003ae59f7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:32 +0000
Subject: [PATCH 16/18] fix: keep running jobs known to the pool when pending
 ones are stopped

---
 threadpp/thread_pool.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 4cd1179..042f46a 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -146,11 +146,19 @@ public:
         std::vector<job_info> removed;
 
         std::lock_guard<std::mutex> lock(guard_);
-        for(auto& kvp : jobs_)
+        for(auto it = jobs_.begin(); it != jobs_.end();)
         {
-            removed.emplace_back(std::move(kvp.second));
+            // jobs that are running stay until they are done
+            if(it->second.callable)
+            {
+                removed.emplace_back(std::move(it->second));
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
         }
-        jobs_.clear();
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From 25d56886a70a39ee4488b68347b6d8870d51545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:04 +0000
Subject: [PATCH 17/18] fix: let job futures follow their pool when it is moved

---
 threadpp/thread_pool.cpp | 41 ++++++++++++++++++++++++++++++----------
 threadpp/thread_pool.h   | 11 +++++------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 042f46a..ff76311 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -318,6 +318,31 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
+thread_pool::thread_pool(thread_pool&& rhs) noexcept
+    : impl_(std::move(rhs.impl_)), sentinel_(std::move(rhs.sentinel_))
+{
+    if(sentinel_)
+    {
+        *sentinel_ = this;
+    }
+}
+
+auto thread_pool::operator=(thread_pool&& rhs) noexcept -> thread_pool&
+{
+    if(this != &rhs)
+    {
+        // destroyed last, the futures of its jobs must not reach the new jobs
+        auto old = std::move(impl_);
+        impl_ = std::move(rhs.impl_);
+        sentinel_ = std::move(rhs.sentinel_);
+        if(sentinel_)
+        {
+            *sentinel_ = this;
+        }
+    }
+    return *this;
+}
+
 thread_pool::~thread_pool() = default;
 
 job_id thread_pool::add_job(task& job, priority::group group)
@@ -357,28 +382,24 @@ size_t thread_pool::get_jobs_count() const
 
 void job_future_storage::change_priority(priority::group group)
 {
-    if(sentinel_.expired())
+    auto owner = sentinel_.lock();
+    if(!owner)
     {
         return;
     }
 
-    if(owner_)
-    {
-        owner_->change_priority(id, group);
-    }
+    (*owner)->change_priority(id, group);
 }
 
 void job_future_storage::stop()
 {
-    if(sentinel_.expired())
+    auto owner = sentinel_.lock();
+    if(!owner)
     {
         return;
     }
 
-    if(owner_)
-    {
-        owner_->stop(id);
-    }
+    (*owner)->stop(id);
 }
 
 } // namespace tpp
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 7e55f0a..2319bca 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -69,8 +69,8 @@ struct job_future_storage
     void stop();
 
 private:
-    std::weak_ptr<int> sentinel_{};
-    thread_pool* owner_{};
+    // expires with the pool and points to where it was moved
+    std::weak_ptr<thread_pool*> sentinel_{};
 };
 
 template<typename T>
@@ -145,8 +145,8 @@ public:
     thread_pool(const std::map<priority::category, size_t>& workers_per_priority_level,
                 tasks_capacity_config config = {});
     thread_pool();
-    thread_pool(thread_pool&&) = default;
-    auto operator=(thread_pool&&) -> thread_pool& = default;
+    thread_pool(thread_pool&& rhs) noexcept;
+    auto operator=(thread_pool&& rhs) noexcept -> thread_pool&;
     ~thread_pool();
 
     thread_pool(const thread_pool&) = delete;
@@ -209,7 +209,7 @@ private:
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
 
-    std::shared_ptr<int> sentinel_ = std::make_shared<int>();
+    std::shared_ptr<thread_pool*> sentinel_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
@@ -219,7 +219,6 @@ auto thread_pool::schedule(priority::group group, F&& f, Args&&... args) -> job_
     job_future<async_ret_type<F, Args...>> fut(std::move(packaged_task.callable_future));
     fut.id = add_job(packaged_task.callable, group);
     fut.sentinel_ = sentinel_;
-    fut.owner_ = this;
     return fut;
 }
 
-- 
2.43.0


From 4c94db63c3ae60e03e61a5e54da35d59102fab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:21:12 +0000
Subject: [PATCH 18/18] fix: complete when_all and when_any without holding
 their lock

Setting the value starts continuations. A continuation that processed the
tasks of its thread could run another continuation of the same combination,
which locked the same mutex again.
---
 threadpp/when_all_any.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..2eb2948 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,10 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          // starts continuations
+                          lock.unlock();
+                          context->p.set_value(std::move(context->result));
                       }
                   }
               });
@@ -162,11 +164,13 @@ void when_inner_helper(Context context, Future&& f)
         .then(id,
               [context](auto f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   ++context->ready_futures;
                   std::get<I>(context->result) = std::move(f);
                   if(context->ready_futures == context->total_futures)
                   {
+                      // starts continuations
+                      lock.unlock();
                       context->p.set_value(std::move(context->result));
                   }
               });
@@ -242,11 +246,13 @@ auto when_all(InputIt first, InputIt last) -> future<std::vector<typename std::i
         shared_context->result[index].then(id,
                                            [shared_context, index](auto f)
                                            {
-                                               std::lock_guard<std::mutex> lock(shared_context->mutex);
+                                               std::unique_lock<std::mutex> lock(shared_context->mutex);
                                                shared_context->result[index] = std::move(f);
                                                ++shared_context->ready_futures;
                                                if(shared_context->ready_futures == shared_context->total_futures)
                                                {
+                                                   // starts continuations
+                                                   lock.unlock();
                                                    shared_context->p.set_value(std::move(shared_context->result));
                                                }
                                            });
@@ -335,7 +341,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +350,10 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        // starts continuations
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(shared_context->result));
                     }
                 }
             });
@@ -353,12 +361,14 @@ auto when_any(InputIt first, InputIt last)
     }
 
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->promise_set)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->promise_set = true;
+            // starts continuations
+            lock.unlock();
+            shared_context->p.set_value(std::move(shared_context->result));
         }
     }
 
@@ -402,12 +412,14 @@ auto when_any(Futures&&... futures) -> future<when_any_result<std::tuple<std::de
     detail::fill_result_helper<0>(shared_context, std::forward<Futures>(futures)...);
     detail::when_any_helper_struct<0, sz_futures>::apply(shared_context, shared_context->result.futures);
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->result_moved)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->result_moved = true;
+            // starts continuations
+            lock.unlock();
+            shared_context->p.set_value(std::move(shared_context->result));
         }
     }
     return shared_context->p.get_future();
-- 
2.43.0

