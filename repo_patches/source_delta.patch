From 4c7715c92e264abd920b0bc269233a859e38e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:15 +0000
Subject: [PATCH 01/30] fix: make co_recursive_timed_mutex usable

co_recursive_timed_mutex derives from co_recursive_mutex through
co_timed_addition, but co_recursive_mutex was declared final, so any use of
the timed recursive mutex failed to compile.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From 7ccba902c40b717dfee6e35cea0b21a01c7ca20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:59 +0000
Subject: [PATCH 02/30] fix: do not touch a woken coroutine after it may have
 been destroyed

leave_wait_resource_state() cleared the waiting flag and then went on reading
the coroutine (flag, env).  As soon as the flag is cleared the owning env can
run the coroutine to its end and free it.  Hold the env's schedule lock while
the flag is cleared and the env is woken up.
---
 source/cocpp/core/co_ctx.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..67cad85 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -191,6 +191,9 @@ void co_ctx::enter_wait_resource_state(void *rc)
 
 void co_ctx::leave_wait_resource_state(void *rc)
 {
+    // Once the flag is cleared the ctx may be scheduled and even destroyed by its env, so keep the env from scheduling until it is no longer accessed
+    auto env = env__;
+    scoped_lock schedule_lock(env->schedule_lock());
     {
         scoped_lock lock(wait_data__.mu);
         wait_data__.resource.erase(rc);
@@ -201,8 +204,8 @@ void co_ctx::leave_wait_resource_state(void *rc)
     }
     if (!test_flag(CO_CTX_FLAG_WAITING))
     {
-        env__->ctx_leave_wait_state(this);
-        env__->wake_up();
+        env->ctx_leave_wait_state(this);
+        env->wake_up();
     }
 }
 
-- 
2.43.0


From c622e4607d78c3a897721d3f060a32014c968a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:59 +0000
Subject: [PATCH 03/30] fix: clear references to a removed coroutine kept for
 stack shrinking

A coroutine remembers the one it was switched from in order to shrink that
stack later.  The remembered coroutine can be removed in between, e.g. when a
detached coroutine finishes and its successor yields, so the successor used
freed memory.  Shared stack coroutines must not be shrunk this way at all: the
saved stack pointer belongs to the env's shared stack.
---
 source/cocpp/core/co_ctx.cpp |  3 ++-
 source/cocpp/core/co_env.cpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 67cad85..42ca3a5 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -303,7 +303,8 @@ void co_ctx::clear_pre_ctx()
 
 void co_ctx::shrink_stack()
 {
-    if (nullptr == stack__->stack())
+    // The registers of a shared stack ctx point into the shared stack of the env, not into stack__
+    if (test_flag(CO_CTX_FLAG_SHARED_STACK) || nullptr == stack__->stack())
     {
         return;
     }
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..490390e 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -335,6 +335,18 @@ void co_env::remove_ctx(co_ctx *ctx)
         // 此处不能断言 curr__ != ctx，因为在最后清理所有的ctx的时候，可以删除当前ctx
         all_normal_ctx__[ctx->priority()].remove(ctx);
         --ctx_count__;
+        // Other ctx may remember this one as the ctx they were switched from
+        if (idle_ctx__->pre_ctx() == ctx)
+        {
+            idle_ctx__->clear_pre_ctx();
+        }
+        for (auto &&other : all_normal_ctx__ | views::join)
+        {
+            if (other->pre_ctx() == ctx)
+            {
+                other->clear_pre_ctx();
+            }
+        }
     }
     co_ctx_factory::destroy_ctx(ctx);
 }
-- 
2.43.0


From d6f3fca600db02723c52f25aeae3d984c35f9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:59 +0000
Subject: [PATCH 04/30] fix: keep the source coroutine alive until the shared
 stack switch is done

The switch away from a shared stack coroutine is completed by the idle
coroutine.  When the source had finished and was no longer referenced, it was
removed before its stack was saved, which read freed memory.  Complete the
pending switch first and do not save the stack of a finished coroutine.
---
 source/cocpp/core/co_env.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 490390e..327c30d 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -312,13 +312,13 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
-    remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
         switch_shared_stack_ctx__();
     }
     else
     {
+        remove_detached_ctx__();
         switch_normal_ctx__();
     }
     if (current_ctx()->pre_ctx() != nullptr)
@@ -381,7 +381,8 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
+    // The stack of a finished ctx is not needed any more
+    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && shared_stack_switch_info__.from->state() != co_state::finished)
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From 54cf19f5f601cbed4f354665d2ab9162875ce781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:46 +0000
Subject: [PATCH 05/30] fix: do not lose timers which expire at the same time

The timer queue is a set ordered by the expire time alone, so a second timer
with the same expire time was not inserted and stopping one of them could
remove the other one.  Order timers with equal expire time by their handle.
---
 source/cocpp/core/co_timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..d5b7251 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -135,7 +135,10 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    // Timers which expire at the same time are different timers
+    auto lhs_time = lhs->expire_time();
+    auto rhs_time = rhs->expire_time();
+    return lhs_time != rhs_time ? lhs_time < rhs_time : lhs->get_handle() < rhs->get_handle();
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From 3aa36033ed7010b46d55b7a75b5c69e71b9d053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:46 +0000
Subject: [PATCH 06/30] fix: check the timer queue again after waking up

The timer thread is also notified when a timer is removed.  If that made the
queue empty, the thread dereferenced the end of the queue.
---
 source/cocpp/core/co_manager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..84dcffe 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -355,10 +355,7 @@ void co_manager::timer_routine__()
         if (timer_queue__.empty())
         {
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue;
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
-- 
2.43.0


From ebfb01775217bfb42f68691e7c1e565cba72010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:46 +0000
Subject: [PATCH 07/30] fix: deadlock between the timer thread and users of
 timers

start() and stop() lock the timer and then the timer queue.  The timer thread
and the queue's comparison locked the queue first and the timer second.  The
timer thread also kept the queue locked while it created the coroutine for the
callback, which needs the schedule lock of an env, while a coroutine going to
sleep starts its timer with that schedule lock held.  The callback itself was
called with the timer locked.

Read the expire time without the lock, let the timer thread work on an expired
timer without the queue lock, and call the callback without any lock.  A timer
which is stopped before its callback was called does not call it any more.
---
 include/cocpp/core/co_timer.h    | 10 ++++++--
 source/cocpp/core/co_manager.cpp | 20 +++++++---------
 source/cocpp/core/co_timer.cpp   | 41 ++++++++++++++++++++++++++------
 3 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/include/cocpp/core/co_timer.h b/include/cocpp/core/co_timer.h
index 7dd569c..0bab203 100644
--- a/include/cocpp/core/co_timer.h
+++ b/include/cocpp/core/co_timer.h
@@ -4,6 +4,7 @@ _Pragma("once");
 #include "cocpp/core/co_type.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <memory>
@@ -39,13 +40,18 @@ private:
     const co_expire_type expire_type__;
     const co_timer_type timer_type__;
     const unsigned long long interval__;
-    std::chrono::steady_clock::time_point expire_time__;
+    // Read by the timer queue, which must not take the lock of a timer
+    std::atomic<std::chrono::steady_clock::time_point> expire_time__ {};
+    // Expirations whose callback has not been called yet
+    unsigned long long pending__ {0};
     co_timer_status status__;
     mutable std::recursive_mutex mutex__;
 
     void insert_to_timer_queue__();
     void remove_from_timer_queue__();
     void update_timeout_time__();
+    bool expire__();
+    friend class co_manager;
 
 public:
     co_timer(const std::function<void()> &func, co_expire_type type, unsigned long long interval_ms);
@@ -56,7 +62,7 @@ public:
     bool is_running() const;
     co_timer_handle get_handle() const;
     std::chrono::steady_clock::time_point expire_time() const;
-    void run() const;
+    void run();
     co_expire_type expire_type() const;
     co_timer_type timer_type() const;
     bool is_expired() const;
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 84dcffe..748ddde 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -360,19 +360,17 @@ void co_manager::timer_routine__()
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
-            if (front->expire_type() == co_expire_type::once)
+            // Timers lock themselves before the queue, and creating a ctx takes the locks of an env
+            lck.unlock();
+            if (front->expire__())
             {
-                front->stop();
-            }
-            else
-            {
-                front->reset();
+                create_and_schedule_ctx(
+                    {}, [front](co_any &) {
+                        front->run();
+                    },
+                    false);
             }
+            lck.lock();
         }
         else
         {
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index d5b7251..557d6bf 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -69,6 +69,7 @@ void co_timer::start()
 void co_timer::stop()
 {
     scoped_lock lock(mutex__);
+    pending__ = 0;
     if (status__ == co_timer_status::stopped)
     {
         return;
@@ -104,7 +105,6 @@ void co_timer::remove_from_timer_queue__()
 
 chrono::steady_clock::time_point co_timer::expire_time() const
 {
-    scoped_lock lock(mutex__);
     return expire_time__;
 }
 
@@ -115,16 +115,43 @@ co_timer_type co_timer::timer_type() const
 
 bool co_timer::is_expired() const
 {
-    scoped_lock lock(mutex__);
-    return chrono::steady_clock::now() >= expire_time__;
+    return chrono::steady_clock::now() >= expire_time();
 }
 
-void co_timer::run() const
+bool co_timer::expire__()
 {
     scoped_lock lock(mutex__);
-    if (callback__)
+    // The timer may have been stopped or restarted since it was found in the queue
+    if (status__ != co_timer_status::running || !is_expired())
+    {
+        return false;
+    }
+    status__ = co_timer_status::stopped;
+    remove_from_timer_queue__();
+    ++pending__;
+    if (expire_type__ == co_expire_type::loop)
+    {
+        start();
+    }
+    return true;
+}
+
+void co_timer::run()
+{
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        if (pending__ == 0)
+        {
+            return;
+        }
+        --pending__;
+        callback = callback__;
+    }
+    // Called without the lock, the callback may use timers and other locks
+    if (callback)
     {
-        callback__();
+        callback();
     }
 }
 
@@ -169,7 +196,7 @@ string co_timer::timer_info()
     ss << "interval: " << interval__ << endl;
 
     // expire time
-    ss << "expire time: " << expire_time__.time_since_epoch().count() << endl;
+    ss << "expire time: " << expire_time().time_since_epoch().count() << endl;
 
     // status
     ss << "status: " << (status__ == co_timer_status::running ? "running" : "stopped") << endl;
-- 
2.43.0


From 4c524329b8a22729e58cb90cf4ba1edd6fadf236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:34 +0000
Subject: [PATCH 08/30] fix: do not read a coroutine after handing it over to
 its env

A coroutine without a handle, such as the one which runs a timer callback, can
finish and be destroyed as soon as it is in the list of the env.  Its priority
was read once more after that.
---
 source/cocpp/core/co_env.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 327c30d..a4f4235 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -84,13 +84,15 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
 
     ctx->set_env(this);
 
+    // Once it is in the list the ctx may run to its end and be destroyed
+    auto priority = ctx->priority();
     {
         scoped_lock lock(mu_normal_ctx__);
-        all_normal_ctx__[ctx->priority()].push_back(ctx);
+        all_normal_ctx__[priority].push_back(ctx);
         ++ctx_count__;
     }
 
-    update_min_priority__(ctx->priority());
+    update_min_priority__(priority);
     set_state(co_env_state::busy);
 
     wake_up();
-- 
2.43.0


From 7880a557c0d8c8c8bf8319a861d8c819d869c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:48 +0000
Subject: [PATCH 09/30] fix: timed wait for a coroutine used the waiter after
 it had been woken up

The waiter is woken up by the end of the awaited coroutine or by a timer.  The
loser of the two could still access the waiter, and the awaited coroutine, when
both were long gone.  Only the first one wakes the waiter up now, and the
waiter itself cancels the other one.  The timeout is no longer truncated to
milliseconds, which let the wait end too early.
---
 source/cocpp/core/co_env.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index a4f4235..efd85c1 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -117,24 +117,25 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
     auto curr_ctx = current_ctx();
     if (ctx->state() != co_state::finished)
     {
-        auto timer = co_timer::create(
-            nullptr,
-            co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
-        auto timer_id = timer.get();
-        curr_ctx->enter_wait_resource_state(timer_id);
-        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
-            timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
-            ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
+        // Only the first of the two callbacks may touch the waiting ctx, it can be gone when the other one is called
+        auto woken = make_shared<atomic<bool> >(false);
+        auto wake_up_once = [curr_ctx, woken] {
+            if (!woken->exchange(true))
+            {
+                curr_ctx->leave_wait_resource_state(woken.get());
+            }
+        };
+        auto timer = co_timer::create(wake_up_once, chrono::steady_clock::now() + timeout);
+        curr_ctx->enter_wait_resource_state(woken.get());
+        auto handle = ctx->finished().sub(wake_up_once);
         timer->start();
 
         unlock_schedule();
         ctx->unlock_finished_state();
         schedule_switch();
+
+        timer->stop();
+        ctx->finished().unsub(handle);
     }
     else
     {
-- 
2.43.0


From 77d41005e1016ae5356b397b4e92114dda834706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:59 +0000
Subject: [PATCH 10/30] fix: do not wait for a condition which is already true

wait() with a predicate waited for a notification before it looked at the
predicate for the first time, so it blocked forever when the condition was
true and nobody notified again.
---
 include/cocpp/sync/co_condition_variable.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..3cbe99c 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -69,22 +69,10 @@ void co_condition_variable_impl::wait(Lock &lock)
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
-- 
2.43.0


From 3f671edd4094c51c77cc952673a404ed76e7d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:59 +0000
Subject: [PATCH 11/30] fix: timed waits on condition variables

The result of a timed wait was kept in the condition variable itself and never
reset.  After one timeout all later timed waits reported a timeout, also when
they were notified, and did not wait for their predicate.  The timer callback
used the condition variable and the coroutine after the wait had ended, and
could take a notification away or wake up an unrelated wait.  wait_until() also
unlocked the user's mutex with the schedule lock of the env held, which
deadlocked with an unlock in the opposite direction.

Give every wait its own state, which is finished exactly once, either by a
notification or by the timer.  The user's mutex is unlocked without holding the
internal spin lock: a coroutine which yields with that lock held could be kept
from running by one of higher priority spinning on it.
---
 include/cocpp/sync/co_condition_variable.h  | 91 ++++++++-------------
 source/cocpp/sync/co_condition_variable.cpp | 61 ++++++++++++--
 2 files changed, 89 insertions(+), 63 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index 3cbe99c..8435a65 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -9,8 +9,10 @@ _Pragma("once");
 #include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <atomic>
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -26,9 +28,23 @@ void notify_all_at_co_exit(co_condition_variable &cond);
 class co_condition_variable_impl final : private co_noncopyable
 {
 private:
+    struct waiter
+    {
+        enum class status
+        {
+            waiting,
+            notified,
+            timeout,
+        };
+        co_ctx *const ctx;
+        std::atomic<status> current_status {status::waiting};
+        bool finish(status new_status);
+    };
     mutable co_spinlock cv_lock__;
-    std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
+    std::list<std::shared_ptr<waiter> > waiters__;
+
+    std::shared_ptr<waiter> add_waiter__();
+    bool wait_notify__(const std::shared_ptr<waiter> &self, const std::shared_ptr<co_timer> &timer);
 
 public:
     template <typename Lock>
@@ -54,15 +70,9 @@ template <typename Lock>
 void co_condition_variable_impl::wait(Lock &lock)
 {
     CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-    {
-        std::scoped_lock lk(cv_lock__);
-
-        waiters__.push_back(ctx);
-        lock.unlock();
-        ctx->enter_wait_resource_state(this);
-    }
-    CoYield();
+    auto self = add_waiter__();
+    lock.unlock();
+    wait_notify__(self, nullptr);
     lock.lock();
 }
 
@@ -78,30 +88,17 @@ void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
+    CoPreemptGuard();
+    auto self = add_waiter__();
+    // The callback may be called after this wait has ended
+    auto timer = co_timer::create([self] {
+        self->finish(waiter::status::timeout);
     },
                                   abs_time);
-    timer->start();
-    {
-        std::scoped_lock lk(cv_lock__);
-
-        waiters__.push_back(ctx);
-        lock.unlock();
-        ctx->enter_wait_resource_state(this);
-    }
-    CoUnlockSchedule();
-    CoYield();
-    CoLockSchedule();
+    lock.unlock();
+    auto notified = wait_notify__(self, timer);
     lock.lock();
-    timer->stop();
-    return !timeout__;
+    return notified;
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -114,34 +111,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
diff --git a/source/cocpp/sync/co_condition_variable.cpp b/source/cocpp/sync/co_condition_variable.cpp
index 72a8e31..ed25fc5 100644
--- a/source/cocpp/sync/co_condition_variable.cpp
+++ b/source/cocpp/sync/co_condition_variable.cpp
@@ -19,9 +19,9 @@ void co_condition_variable_impl::notify_all()
 {
     CoPreemptGuard();
     scoped_lock lk(cv_lock__);
-    for (auto &&ctx : waiters__)
+    for (auto &&target : waiters__)
     {
-        ctx->leave_wait_resource_state(this);
+        target->finish(waiter::status::notified);
     }
     waiters__.clear();
 }
@@ -30,13 +30,62 @@ void co_condition_variable_impl::notify_one()
 {
     CoPreemptGuard();
     scoped_lock lk(cv_lock__);
-    if (waiters__.empty())
+    while (!waiters__.empty())
     {
-        return;
+        auto target = waiters__.front();
+        waiters__.pop_front();
+        // Skip those whose time is over
+        if (target->finish(waiter::status::notified))
+        {
+            return;
+        }
+    }
+}
+
+bool co_condition_variable_impl::waiter::finish(status new_status)
+{
+    auto expected = status::waiting;
+    if (!current_status.compare_exchange_strong(expected, new_status))
+    {
+        return false;
     }
-    auto ctx = waiters__.front();
-    waiters__.pop_front();
     ctx->leave_wait_resource_state(this);
+    return true;
+}
+
+shared_ptr<co_condition_variable_impl::waiter> co_condition_variable_impl::add_waiter__()
+{
+    auto self = shared_ptr<waiter>(new waiter {.ctx = CoCurrentCtx()});
+    scoped_lock lk(cv_lock__);
+    waiters__.push_back(self);
+    return self;
+}
+
+bool co_condition_variable_impl::wait_notify__(const shared_ptr<waiter> &self, const shared_ptr<co_timer> &timer)
+{
+    {
+        scoped_lock lk(cv_lock__);
+        // Notified before the wait has begun
+        if (self->current_status != waiter::status::waiting)
+        {
+            return true;
+        }
+        self->ctx->enter_wait_resource_state(self.get());
+    }
+    if (timer)
+    {
+        timer->start();
+    }
+    CoEnablePreempt();
+    CoYield();
+    CoDisablePreempt();
+    if (timer)
+    {
+        timer->stop();
+        scoped_lock lk(cv_lock__);
+        waiters__.remove(self);
+    }
+    return self->current_status == waiter::status::notified;
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From 64527442e739f892cd11c7fe08b56527202aab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:21 +0000
Subject: [PATCH 12/30] fix: wake up the right waiters of a shared mutex

When the lock was handed over to the waiting readers, the readers were removed
with remove_if() and taken from behind the returned position.  The elements
there are unspecified: readers were lost and writers became owners of a shared
lock while still waiting.
---
 source/cocpp/sync/co_shared_mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..ac2894a 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,8 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 4c6e23796ef06cc168cc19bac331a8b077f3b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:21 +0000
Subject: [PATCH 13/30] fix: channels without buffer with more than one
 producer

A producer which found a value in the channel waited until the channel was
closed, even if the value had been taken, so its push never returned.
---
 include/cocpp/event/co_chan.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..1107d56 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -58,6 +58,9 @@ private:
 
     class sync_chan final : public chan_base
     {
+    private:
+        size_t push_count__ {0};
+
     public:
         bool push(ValueType value) override;
         int max_size() const override;
@@ -211,7 +214,7 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     if (chan_base::data__->size() == static_cast<size_t>(max_size))
     {
         chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
+            return *chan_base::closed__ || chan_base::data__->empty();
         });
         if (*chan_base::closed__)
         {
@@ -220,10 +223,11 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     }
 
     chan_base::data__->push_back(value);
+    auto index = ++push_count__;
     chan_base::cv_empty__->notify_one();
 
-    chan_base::cv_full__->wait(lock, [this] {
-        return *chan_base::closed__ || chan_base::data__->empty();
+    chan_base::cv_full__->wait(lock, [this, index] {
+        return *chan_base::closed__ || chan_base::data__->empty() || push_count__ != index;
     });
 
     return true;
@@ -258,7 +262,8 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
-    cv_full__->notify_one();
+    // Those who wait for a free place and those who wait until their value is taken
+    cv_full__->notify_all();
     return ret;
 }
 
-- 
2.43.0


From c8f97474d12245da2d9b7a264607531715812736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:21 +0000
Subject: [PATCH 14/30] fix: barrier phases complete when all participants have
 arrived

A phase was completed by the calls of wait(), not by the arrivals.  arrive()
without wait() and arrive_and_drop() left the others waiting forever, the
dropped participant was still expected in all later phases, and a token became
invalid as soon as the phase was over.
---
 include/cocpp/sync/co_barrier.h  | 10 +++---
 source/cocpp/sync/co_barrier.cpp | 54 +++++++++++++++++---------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..95d7d8f 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -13,19 +13,19 @@ struct co_arrival_token
 {
     std::ptrdiff_t generation__;
     void *barrier__;
-    std::ptrdiff_t n__;
 };
 
 class co_barrier final : private co_noncopyable
 {
 private:
-    std::atomic<std::ptrdiff_t> expected__;
-    std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
-    const std::ptrdiff_t max__;
+    std::ptrdiff_t expected__;
+    std::ptrdiff_t generation__ {0};
+    std::ptrdiff_t max__;
     co_mutex mutex__;
     co_condition_variable cond__;
 
+    co_arrival_token arrive__(std::ptrdiff_t n);
+
 public:
     explicit co_barrier(std::ptrdiff_t expected);
     co_arrival_token arrive(std::ptrdiff_t n = 1);
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..e7f77a7 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,48 +6,45 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
     , max__(expected)
 {
 }
 
-co_arrival_token co_barrier::arrive(ptrdiff_t n)
+co_arrival_token co_barrier::arrive__(ptrdiff_t n)
 {
-    scoped_lock lock(mutex__);
     if (expected__ - n < 0)
     {
         throw logic_error("co_barrier::arrive: count < 0");
     }
-    expected__ -= n;
-    return co_arrival_token {
+    co_arrival_token token {
         .generation__ = generation__,
-        .barrier__ = this,
-        .n__ = n};
+        .barrier__ = this};
+    expected__ -= n;
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__;
+        cond__.notify_all();
+    }
+    return token;
+}
+
+co_arrival_token co_barrier::arrive(ptrdiff_t n)
+{
+    scoped_lock lock(mutex__);
+    return arrive__(n);
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    if (arrival.barrier__ != this)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
-    {
-        cond__.wait(lock);
-    }
+    cond__.wait(lock, [this, &arrival] {
+        return generation__ != arrival.generation__;
+    });
 }
 
 void co_barrier::arrive_and_wait()
@@ -57,7 +54,14 @@ void co_barrier::arrive_and_wait()
 
 void co_barrier::arrive_and_drop()
 {
-    arrive();
+    scoped_lock lock(mutex__);
+    if (max__ == 0)
+    {
+        throw logic_error("co_barrier::arrive_and_drop: no participants");
+    }
+    // Not expected in the next phases any more
+    --max__;
+    arrive__(1);
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From 1e362db5834d794bb559493e1d9c20c58c753f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:21 +0000
Subject: [PATCH 15/30] fix: co_call_once returned before the call was done

A concurrent caller returned while the first one was still running the
function, so it used what the function had not yet initialized.  A function
which threw an exception was never called again.
---
 include/cocpp/sync/co_call_once.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cocpp/sync/co_call_once.h b/include/cocpp/sync/co_call_once.h
index 92101d1..6941fac 100644
--- a/include/cocpp/sync/co_call_once.h
+++ b/include/cocpp/sync/co_call_once.h
@@ -2,9 +2,11 @@ _Pragma("once");
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <atomic>
 #include <functional>
+#include <mutex>
 
 CO_NAMESPACE_BEGIN
 
@@ -12,16 +14,21 @@ class co_once_flag : private co_noncopyable
 {
 public:
     std::atomic<bool> flag__ {false};
+    co_mutex mutex__;
 };
 
 template <class Callable, class... Args>
 void co_call_once(co_once_flag &flag, Callable &&f, Args &&...args)
 {
-    CoPreemptGuard();
-    bool key = false;
-    if (flag.flag__.compare_exchange_strong(key, true))
+    if (flag.flag__)
+    {
+        return;
+    }
+    std::scoped_lock lock(flag.mutex__);
+    if (!flag.flag__)
     {
         std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+        flag.flag__ = true;
     }
 }
 
-- 
2.43.0


From c8108063be778bb052f3e4c4f1b24fd60cefd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 16/30] fix: do not put coroutines into an idle exclusive env

An idle env was chosen before the check whether it is exclusive, so other
coroutines were scheduled in an env reserved for its own ones.
---
 source/cocpp/core/co_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 748ddde..4dfeb7e 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -33,10 +33,6 @@ co_env *co_manager::get_best_env__()
     size_t can_schedule_env_count = 0;
     for (auto &&env : env_set__.normal_set)
     {
-        if (env->state() == co_env_state::idle)
-        {
-            return env;
-        }
         if (!env->can_schedule_ctx())
         {
             continue;
@@ -46,6 +42,10 @@ co_env *co_manager::get_best_env__()
         {
             continue;
         }
+        if (env->state() == co_env_state::idle)
+        {
+            return env;
+        }
         // 统计可用于调度的env数量
         ++can_schedule_env_count;
         if (env->workload() < min_workload)
-- 
2.43.0


From 3a890a7f06e0e1ff16115954bafb9af7bbf6e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 17/30] fix: race between creating a coroutine and destroying
 idle envs

An idle env could be selected for destruction after it had been chosen for a
new coroutine.  The coroutine was never run, or its creation failed with an
exception.
---
 source/cocpp/core/co_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 4dfeb7e..e8bf5dc 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -428,6 +428,8 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
+        // Keep the chosen env from being destroyed as a redundant one before it gets the ctx
+        scoped_lock lock(env_set__.normal_lock);
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 229f9b1c95011cff6908691ca47f7a694c878a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 18/30] fix: lost notifications at the end of a coroutine

notify_all_at_co_exit() notifies when the coroutine is already finished.  If
the lock of the condition variable was held by another thread at this moment,
the coroutine yielded and was never resumed: neither the waiters of the
condition variable nor those waiting for the coroutine were woken up.
---
 source/cocpp/sync/co_spinlock.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/sync/co_spinlock.cpp b/source/cocpp/sync/co_spinlock.cpp
index 438f9a3..a69f4f5 100644
--- a/source/cocpp/sync/co_spinlock.cpp
+++ b/source/cocpp/sync/co_spinlock.cpp
@@ -1,4 +1,5 @@
 #include "cocpp/sync/co_spinlock.h"
+#include "cocpp/core/co_ctx.h"
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
@@ -13,7 +14,15 @@ void co_spinlock::lock()
 {
     while (locked__.test_and_set(memory_order::acq_rel))
     {
-        CoYield();
+        // A finished ctx would not be scheduled again
+        if (CoCurrentCtx()->state() == co_state::finished)
+        {
+            this_thread::yield();
+        }
+        else
+        {
+            CoYield();
+        }
     }
 }
 
-- 
2.43.0


From d523718c832f908685e4c2facaf18f671792c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 19/30] fix: result of co_net::connect

A connection which was established at once was reported as an error, and one
which failed later was reported as established.
---
 source/cocpp/io/co_net.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..7792dc8 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -59,7 +59,7 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
 
-    if (ret > 0)
+    if (ret == 0)
     {
         return ret;
     }
@@ -95,6 +95,19 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         {
             if (FD_ISSET(fd__, &write_fds))
             {
+                // The connection is either established or has failed
+                int error = 0;
+                socklen_t len = sizeof(error);
+                if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &error, &len) == -1)
+                {
+                    return -1;
+                }
+                if (error != 0)
+                {
+                    errno = error;
+                    CO_O_ERROR("connect error: %s", strerror(errno));
+                    return -1;
+                }
                 return 0;
             }
         }
-- 
2.43.0


From 97b3e2eff131e2eec3e7c03cc2a2fc908f30f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 20/30] fix: co_net::sendto waits like the other operations

It failed with EAGAIN when the socket was not ready, all other operations wait.
---
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 7792dc8..54de43b 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -136,7 +136,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From 9c21d8ce454e90e5396b24d90e825acd774dc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 21/30] fix: repeat interrupted reads and writes

The library interrupts its threads with signals to switch coroutines; network
operations already repeat interrupted calls.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..89f1f67 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -53,7 +53,7 @@ int co_io::read(void *buf, size_t count)
         int ret = ::read(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
@@ -75,7 +75,7 @@ int co_io::write(const void *buf, size_t count)
         int ret = ::write(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
-- 
2.43.0


From d508e19dabbb8a3cbad15f2648f05967fcf32906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 22/30] fix: pass the argument of fcntl and ioctl on

The va_list itself was passed instead of the argument.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 89f1f67..dd3f22b 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 47073beda221413ced17eb3410a29e679473f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:46 +0000
Subject: [PATCH 23/30] fix: co_client::read_n looped forever at the end of the
 stream

---
 source/cocpp/io/co_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..dc78d21 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "connection closed");
+        }
         remain -= ret;
     }
     return co_error();
-- 
2.43.0


From 597763133d4a59454acff96277c0a00936f5c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:55 +0000
Subject: [PATCH 24/30] fix: a pipeline over an initializer list read the list
 after its end

---
 include/cocpp/pipeline/co_pipeline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..b1c1b7b 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -234,7 +234,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
         for (const auto &t : col)
         {
             if (!ch.push(t))
-- 
2.43.0


From f230bd13eeedf00fd7d7d8b03ca84b33d2f55db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:06 +0000
Subject: [PATCH 25/30] fix: pipeline stages went on consuming their source
 after their consumer had gone

---
 include/cocpp/pipeline/co_pipeline.h | 37 ++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b1c1b7b..7016529 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -39,6 +39,13 @@ private:
     std::shared_ptr<co> co__;
     co_chan<ItemType> channel__;
 
+    template <typename>
+    friend class co_pipeline;
+
+    template <typename FuncType, typename OldType>
+    requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+    co_pipeline(co_chan<OldType> ch, FuncType func);
+
     template <typename FilterType>
     requires pipeline::FilterFunc<FilterType, ItemType>
     co_pipeline(co_chan<ItemType> ch, const pipeline::filter<FilterType> &filter);
@@ -251,14 +258,31 @@ template <typename ItemType>
 template <typename FuncType>
 requires pipeline::ReturnIsNotVoid<FuncType, ItemType> auto co_pipeline<ItemType>::operator|(FuncType func)
 {
-    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >([ch = channel__, func]() mutable -> std::optional<std::invoke_result_t<FuncType, ItemType> > {
-        auto item = ch.pop();
-        if (!item)
+    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >(channel__, func);
+}
+
+template <typename ItemType>
+template <typename FuncType, typename OldType>
+requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, FuncType func)
+{
+    co__ = std::make_shared<co>([this_ch = channel__, ch, func]() mutable {
+        for (;;)
         {
-            return std::nullopt;
+            auto item = ch.pop();
+            if (!item)
+            {
+                break;
+            }
+            if (!this_ch.push(func(*item)))
+            {
+                ch.close();
+                break;
+            }
         }
-        return func(*item);
+        this_ch.close();
     });
+    co__->detach();
 }
 
 template <typename ItemType>
@@ -280,6 +304,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::fork<Fun
                     }
                     if (!this_ch.push(fork.func__(*item)))
                     {
+                        ch.close();
                         break;
                     }
                 }
@@ -355,6 +380,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::filter<
             {
                 if (!this_ch.push(item))
                 {
+                    ch.close();
                     break;
                 }
             }
@@ -450,6 +476,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::skip &s
         {
             if (!this_ch.push(p))
             {
+                ch.close();
                 break;
             }
         }
-- 
2.43.0


From 652f5c951fd7bb45a409b3fcf8070d57a290213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:53 +0000
Subject: [PATCH 26/30] fix: co_net.h declared socket types of its own when it
 was included first

---
 include/cocpp/io/co_net.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cocpp/io/co_net.h b/include/cocpp/io/co_net.h
index 176d8d0..59cc5f4 100644
--- a/include/cocpp/io/co_net.h
+++ b/include/cocpp/io/co_net.h
@@ -4,6 +4,7 @@ _Pragma("once");
 #include "cocpp/io/co_io.h"
 
 #include <optional>
+#include <sys/socket.h>
 
 CO_NAMESPACE_BEGIN
 
-- 
2.43.0


From a52951a9192a48e65dc119a7eadad8b21a3edb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:53 +0000
Subject: [PATCH 27/30] fix: co_net::connect failed when a signal interrupted
 it

---
 source/cocpp/io/co_net.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 54de43b..63d0ee0 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -64,7 +64,7 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         return ret;
     }
 
-    if (errno != EINPROGRESS)
+    if (errno != EINPROGRESS && errno != EINTR)
     {
         CO_O_ERROR("connect error: %s", strerror(errno));
         return -1;
@@ -81,7 +81,12 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 
         int result = select(fd__ + 1, NULL, &write_fds, NULL, &timeout);
 
-        if (result < 0)
+        if (result < 0 && errno == EINTR)
+        {
+            CoYield();
+            continue;
+        }
+        else if (result < 0)
         {
             CO_O_ERROR("select error: %s", strerror(errno));
             return -1;
-- 
2.43.0


From 2ee7144913eb8a143197f3fcf78d7bdaad9a4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:36 +0000
Subject: [PATCH 28/30] fix: callbacks may unsubscribe while an event is
 published

A callback which unsubscribed itself freed the entry the publication was
standing on. Look up the next entry after each callback instead.
---
 include/cocpp/event/co_event.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..dffc4cc 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -46,9 +46,13 @@ template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    for (auto iter = cb_list__.begin(); iter != cb_list__.end();)
     {
+        // The callback may unsubscribe itself or others
+        auto handle = iter->first;
+        auto cb     = iter->second;
         cb(args...);
+        iter = cb_list__.upper_bound(handle);
     }
 }
 
-- 
2.43.0


From d84759692f33ae97fecb1d3959918d0d65fe776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:53:25 +0000
Subject: [PATCH 29/30] fix: waiting for a coroutine changed the priority of
 the waiter

---
 source/cocpp/core/co_env.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index efd85c1..2d922fb 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -105,11 +105,6 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
         throw std::runtime_error("can't wait self");
     }
 
-    // Priority inversion prevents high priorities from being kept waiting and low priorities from being executed
-    auto old_priority = current_ctx()->priority();
-    current_ctx()->set_priority(ctx->priority());
-    CoDefer(current_ctx()->set_priority(old_priority));
-
     optional<co_return_value> ret;
 
     ctx->lock_finished_state();
@@ -161,11 +156,6 @@ co_return_value co_env::wait_ctx(co_ctx *ctx)
         throw std::runtime_error("can't wait self");
     }
 
-    auto old_priority = current_ctx()->priority();
-    current_ctx()->set_priority(ctx->priority());
-
-    CoDefer(current_ctx()->set_priority(old_priority));
-
     ctx->lock_finished_state();
     lock_schedule();
     auto curr_ctx = current_ctx();
-- 
2.43.0


From 7059f512fc513d79bc0a3187561f05249301802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:58:38 +0000
Subject: [PATCH 30/30] fix: an exception was thrown in several of those who
 wait for a coroutine

---
 source/cocpp/core/co_ctx.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 42ca3a5..d7c7935 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -130,10 +130,13 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    // Several ctx may wait for this one
+    lock_finished_state();
+    swap(e, exception__); // 仅第一次抛出异常
+    unlock_finished_state();
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0

