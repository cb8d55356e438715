From 67065e033d6718e34f4c666bbac85fac18549bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 01/14] fix: reject INT64_MIN when building a Value from an
 integer

std::abs(INT64_MIN) is undefined and in practice negative, so the range
assertion accepted it.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..6cc14b7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(-kMaxSafeInteger <= value && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From f204e9c1519d9310119f2a78b71148c6ec90a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 02/14] fix: compare Value numbers exactly

The epsilon comparison was not transitive and disagreed with operator<, so
two values could be both equal and ordered.
---
 rst/value/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..f31005b 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -305,8 +305,10 @@ bool operator==(const Value& lhs, const Value& rhs) {
     case Value::Type::kBool:
       return lhs.get_bool() == rhs.get_bool();
     case Value::Type::kNumber:
-      return std::fabs(lhs.get_number() - rhs.get_number()) <
-             std::numeric_limits<double>::epsilon();
+#pragma clang diagnostic push
+#pragma clang diagnostic ignored "-Wfloat-equal"
+      return lhs.get_number() == rhs.get_number();
+#pragma clang diagnostic pop
     case Value::Type::kString:
       return lhs.get_string() == rhs.get_string();
     case Value::Type::kArray:
-- 
2.43.0


From d2935b194a53a4bfc94bf2d589cd3958ccd16e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 03/14] fix: allow assigning a nested value to the value that
 holds it

Move assignment destroyed the old contents, and |rhs| with them, before
moving from |rhs|.
---
 rst/value/value.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index f31005b..2248364 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| may be nested in this value, so it's moved out before the current
+  // contents are destroyed.
+  Value tmp(std::move(rhs));
+  if (type_ == tmp.type_) {
+    MoveAssign(std::move(tmp));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(tmp));
   }
 
   return *this;
-- 
2.43.0


From feb6d8323b9164dc47fa987463f66b5f85cb88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 04/14] fix: remove the temp file when an important write fails

---
 rst/files/file_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..c29e384 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,7 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
+#include "rst/rtti/rtti.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +112,13 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // Do not leave a partially written temp file behind.
+    if (dyn_cast<FileOpenError>(status.GetError()) == nullptr)
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From 5c64726705fae76b57a8659db7d2b1d497c1b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 05/14] fix: do not convert the pointer of a dead object in
 WeakPtr

---
 rst/memory/weak_ptr.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rst/memory/weak_ptr.h b/rst/memory/weak_ptr.h
index 2345127..f4c7ab1 100644
--- a/rst/memory/weak_ptr.h
+++ b/rst/memory/weak_ptr.h
@@ -140,20 +140,23 @@ class WeakPtr {
   WeakPtr(const WeakPtr&) = default;
 
   template <class U>
-  WeakPtr(const WeakPtr<U>& other) : flag_(other.flag_), ptr_(other.ptr_) {}
+  WeakPtr(const WeakPtr<U>& other)
+      // Converting a pointer to a virtual base reads the object, so it is only
+      // done while the object lives.
+      : flag_(other.flag_), ptr_(other.GetNullable()) {}
 
   WeakPtr(WeakPtr&&) noexcept = default;
 
   template <class U>
   WeakPtr(WeakPtr<U>&& other) noexcept
-      : flag_(std::move(other.flag_)), ptr_(other.ptr_) {}
+      : flag_(std::move(other.flag_)), ptr_(IsValid() ? other.ptr_ : nullptr) {}
 
   WeakPtr& operator=(const WeakPtr&) = default;
 
   template <class U>
   WeakPtr& operator=(const WeakPtr<U>& rhs) {
     flag_ = rhs.flag_;
-    ptr_ = rhs.ptr_;
+    ptr_ = rhs.GetNullable();
     return *this;
   }
 
@@ -162,7 +165,7 @@ class WeakPtr {
   template <class U>
   WeakPtr& operator=(WeakPtr<U>&& rhs) noexcept {
     flag_ = std::move(rhs.flag_);
-    ptr_ = rhs.ptr_;
+    ptr_ = IsValid() ? rhs.ptr_ : nullptr;
     return *this;
   }
 
-- 
2.43.0


From 5af7757f85394de7fbebe71dbeea431c7c38d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 06/14] fix: do not touch the timer after a manually fired task
 has run

The task may have restarted the timer, which then was marked as not running
and never fired, or destroyed it, which then was written after its end.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From f40b2ff22521d11038591efc39f0af8060abe93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 07/14] fix: clamp the due time of tasks with very large delays

The sum of the current time and the delay overflowed, which made the task due
at once.
---
 rst/task_runner/item.h                 | 11 +++++++++++
 rst/task_runner/polling_task_runner.cc |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rst/task_runner/item.h b/rst/task_runner/item.h
index 15587ed..1c7f3bd 100644
--- a/rst/task_runner/item.h
+++ b/rst/task_runner/item.h
@@ -39,6 +39,17 @@
 namespace rst {
 namespace internal {
 
+// Returns the time point that is |delay| after |now|. Too large delays are
+// clamped to the largest time point.
+inline std::chrono::nanoseconds GetFutureTimePoint(
+    const std::chrono::nanoseconds now, const std::chrono::nanoseconds delay) {
+  constexpr auto max = std::chrono::nanoseconds::max();
+  if (now.count() > 0 && delay > max - now)
+    return max;
+
+  return now + delay;
+}
+
 // Used in implementations of TaskRunner interface to maintain an ordered queue
 // of tasks.
 struct Item {
diff --git a/rst/task_runner/polling_task_runner.cc b/rst/task_runner/polling_task_runner.cc
index e74c607..1450ddc 100644
--- a/rst/task_runner/polling_task_runner.cc
+++ b/rst/task_runner/polling_task_runner.cc
@@ -48,7 +48,7 @@ void PollingTaskRunner::PostDelayedTaskWithIterations(
   RST_DCHECK(delay.count() >= 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   std::lock_guard lock(mutex_);
   queue_.emplace_back(std::move(task), future_time_point, task_id_++,
                       iterations);
-- 
2.43.0


From 8fc29108bd562cc3f452da59c546201d68de6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 08/14] fix: notify waiters of a barrier while holding its lock

The last CountDown() notified after unlocking, when a waiting thread may have
returned and destroyed the barrier already.
---
 rst/threading/barrier.cc | 42 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/rst/threading/barrier.cc b/rst/threading/barrier.cc
index c008454..8520d66 100644
--- a/rst/threading/barrier.cc
+++ b/rst/threading/barrier.cc
@@ -43,41 +43,33 @@ Barrier::~Barrier() {
 }
 
 void Barrier::CountDownAndWait() {
-  {
-    std::unique_lock lock(mutex_);
-    RST_DCHECK(counter_ > 0);
+  std::unique_lock lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-    counter_--;
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  // Notifies under the lock: the barrier can be destroyed as soon as the
+  // waiting threads have left it.
+  if (--counter_ == 0)
+    cv_.notify_all();
 
-  cv_.notify_one();
+  while (counter_ != 0)
+    cv_.wait(lock);
 }
 
 void Barrier::CountDown() {
-  size_t counter = 0;
-
-  {
-    std::lock_guard lock(mutex_);
-    RST_DCHECK(counter_ > 0);
-
-    counter = --counter_;
-  }
+  std::lock_guard lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-  if (counter == 0)
-    cv_.notify_one();
+  // Notifies under the lock: the barrier can be destroyed as soon as the
+  // waiting threads have left it.
+  if (--counter_ == 0)
+    cv_.notify_all();
 }
 
 void Barrier::Wait() {
-  {
-    std::unique_lock lock(mutex_);
-
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  std::unique_lock lock(mutex_);
 
-  cv_.notify_one();
+  while (counter_ != 0)
+    cv_.wait(lock);
 }
 
 }  // namespace rst
-- 
2.43.0


From 5a2950b6332f2dacd6513fe835699768d2922774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 09/14] fix: clamp very large delays and keep alive times of
 the thread pool

The due time and the deadlines of waits overflowed: a task with a very large
delay ran at once and threads with a very large keep alive time stopped at
once.
---
 rst/task_runner/thread_pool_task_runner.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..7effc68 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -27,6 +27,7 @@
 
 #include "rst/task_runner/thread_pool_task_runner.h"
 
+#include <algorithm>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -36,10 +37,18 @@
 namespace chrono = std::chrono;
 
 namespace rst {
+namespace {
+
+// Longer waits could overflow the clock of the condition variable.
+constexpr chrono::nanoseconds kMaxWaitDuration =
+    chrono::hours(24) * 365 * 100;
+
+}  // namespace
 
 ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
     const size_t max_threads_num, const chrono::nanoseconds keep_alive_time)
-    : max_threads_num_(max_threads_num), keep_alive_time_(keep_alive_time) {
+    : max_threads_num_(max_threads_num),
+      keep_alive_time_(std::min(keep_alive_time, kMaxWaitDuration)) {
   RST_DCHECK(max_threads_num > 0);
   RST_DCHECK(keep_alive_time.count() > 0);
 }
@@ -201,7 +210,8 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
         const auto& item = delayed_tasks_.front();
         const auto now = time_function_();
         if (now < item.time_point) {
-          const auto wait_duration = item.time_point - now;
+          const auto wait_duration =
+              std::min(item.time_point - now, kMaxWaitDuration);
           thread_cv_.wait_for(lock, wait_duration);
         }
       } else {
@@ -240,7 +250,7 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::PushTask(
   RST_DCHECK(delay.count() > 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   {
     std::lock_guard lock(thread_mutex_);
     delayed_tasks_.emplace_back(std::move(task), future_time_point, task_id_++,
-- 
2.43.0


From 1445e64960e0f68e211d6ab7c672c8cb9e0c4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 10/14] fix: do not strand tasks that arrive when a pool thread
 times out

A thread whose wait timed out stopped although a task had been queued for it,
and between the decision to stop and the removal from the map it was still
counted as a thread that can run tasks.
---
 rst/task_runner/thread_pool_task_runner.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 7effc68..0018326 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -64,16 +64,16 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
-  RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
+  // Called with the lock held, so that no task can be left to this thread
+  // between its decision to stop and its removal from the map.
+  const auto stop = [this]() {
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
     thread_id_to_thread_map_.erase(it);
 
     thread_cv_.notify_one();
-  });
+  };
 
   while (true) {
     auto had_items = false;
@@ -85,14 +85,16 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
         waiting_threads_num_++;
         RST_DEFER([this]() { waiting_threads_num_--; });
 
+        // A task can arrive at the same time as the timeout.
         if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
-          return;
+                std::cv_status::timeout &&
+            tasks_.empty()) {
+          return stop();
         }
       }
 
       if (should_exit_)
-        return;
+        return stop();
 
       RST_DCHECK(!tasks_.empty());
       auto& front = tasks_.front();
-- 
2.43.0


From f4397a83d06d4490e0849217baedc614e197c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 11/14] fix: create enough pool threads for all waiting tasks

Threads that were notified already were counted as able to take another task,
and threads were only created for the iterations of the newest task, so tasks
waiting for each other could block forever on a pool with free threads.
---
 rst/task_runner/thread_pool_task_runner.cc | 29 ++++++++++++----------
 rst/task_runner/thread_pool_task_runner.h  |  3 +++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 0018326..203b3a4 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -31,7 +31,6 @@
 #include <utility>
 
 #include "rst/check/check.h"
-#include "rst/defer/defer.h"
 #include "rst/stl/algorithm.h"
 
 namespace chrono = std::chrono;
@@ -71,6 +70,7 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
     thread_id_to_thread_map_.erase(it);
+    waiting_threads_num_--;
 
     thread_cv_.notify_one();
   };
@@ -82,9 +82,6 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
       std::unique_lock lock(thread_mutex_);
 
       while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
-
         // A task can arrive at the same time as the timeout.
         if (thread_cv_.wait_for(lock, keep_alive_time_) ==
                 std::cv_status::timeout &&
@@ -106,6 +103,8 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
         front.iterations--;
       }
 
+      waiting_threads_num_--;
+      pending_tasks_num_--;
       had_items = !tasks_.empty();
     }
 
@@ -114,6 +113,9 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
 
     task();
     task = nullptr;
+
+    std::lock_guard lock(thread_mutex_);
+    waiting_threads_num_++;
   }
 }
 
@@ -124,18 +126,18 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
   {
     std::lock_guard lock(thread_mutex_);
 
-    size_t tasks_num = 0;
     for (auto& task : *tasks) {
-      tasks_num += task.iterations + 1;
+      pending_tasks_num_ += task.iterations + 1;
       tasks_.emplace(std::move(task));
     }
 
     RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
     const auto max_threads_num_to_create =
         max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
+    const auto threads_num_to_create = std::min(
+        pending_tasks_num_ - std::min(pending_tasks_num_, waiting_threads_num_),
+        max_threads_num_to_create);
+    waiting_threads_num_ += threads_num_to_create;
 
     for (size_t i = 0; i < threads_num_to_create; i++) {
       std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
@@ -154,15 +156,16 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTask(
   {
     std::lock_guard lock(thread_mutex_);
 
-    const auto tasks_num = task.iterations + 1;
+    pending_tasks_num_ += task.iterations + 1;
     tasks_.emplace(std::move(task));
 
     RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
     const auto max_threads_num_to_create =
         max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
+    const auto threads_num_to_create = std::min(
+        pending_tasks_num_ - std::min(pending_tasks_num_, waiting_threads_num_),
+        max_threads_num_to_create);
+    waiting_threads_num_ += threads_num_to_create;
 
     for (size_t i = 0; i < threads_num_to_create; i++) {
       std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 87e6c03..775b6cc 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -109,6 +109,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
     std::unordered_map<std::thread::id, std::thread> thread_id_to_thread_map_;
     const size_t max_threads_num_;
     const std::chrono::nanoseconds keep_alive_time_;
+    // Number of runs of tasks in |tasks_| that are not taken by a thread yet.
+    size_t pending_tasks_num_ = 0;
+    // Number of threads that don't run a task, including just created ones.
     size_t waiting_threads_num_ = 0;
 
     bool should_exit_ = false;
-- 
2.43.0


From e780398d45e081cf84aeae1f7ed2ee60745d830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 12/14] fix: let tasks post delayed tasks while their pool is
 being destroyed

The queue of delayed tasks was destroyed before the threads that run tasks
were stopped, so such a task used freed memory or was leaked.
---
 rst/task_runner/thread_pool_task_runner.cc | 14 +++++++++++---
 rst/task_runner/thread_pool_task_runner.h  |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 203b3a4..082dff7 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -52,7 +52,9 @@ ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
   RST_DCHECK(keep_alive_time.count() > 0);
 }
 
-ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
+ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() = default;
+
+void ThreadPoolTaskRunner::DelayedTaskRunner::Stop() {
   std::unique_lock lock(thread_mutex_);
   should_exit_ = true;
   while (!thread_id_to_thread_map_.empty()) {
@@ -191,7 +193,9 @@ ThreadPoolTaskRunner::ServiceTaskRunner::ServiceTaskRunner(
 {
 }
 
-ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() {
+ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() = default;
+
+void ThreadPoolTaskRunner::ServiceTaskRunner::Stop() {
   {
     std::lock_guard lock(thread_mutex_);
     should_exit_ = true;
@@ -273,7 +277,11 @@ ThreadPoolTaskRunner::ThreadPoolTaskRunner(
     : delayed_task_runner_(max_threads_num, keep_alive_time),
       service_task_runner_(&delayed_task_runner_, std::move(time_function)) {}
 
-ThreadPoolTaskRunner::~ThreadPoolTaskRunner() = default;
+ThreadPoolTaskRunner::~ThreadPoolTaskRunner() {
+  // Running tasks can post tasks until all threads are stopped.
+  service_task_runner_.Stop();
+  delayed_task_runner_.Stop();
+}
 
 void ThreadPoolTaskRunner::PostDelayedTaskWithIterations(
     std::function<void()>&& task, const chrono::nanoseconds delay,
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 775b6cc..9054263 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -95,6 +95,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
                       std::chrono::nanoseconds keep_alive_time);
     ~DelayedTaskRunner();
 
+    // Waits for all threads to stop.
+    void Stop();
     void PushTasks(NotNull<std::vector<internal::IterationItem>*> items);
     void PushTask(internal::IterationItem item);
 
@@ -126,6 +128,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
         std::function<std::chrono::nanoseconds()>&& time_function);
     ~ServiceTaskRunner();
 
+    // Waits for the thread to stop.
+    void Stop();
     void PushTask(std::function<void()>&& task, std::chrono::nanoseconds delay,
                   size_t iterations);
 
-- 
2.43.0


From d5aebf1da26cf66f9cef09fb9115f96834ade659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 13/14] fix: write log messages with zero bytes in full

fprintf() stops at a zero byte, the rest of the message was lost.
---
 rst/logger/file_name_sink.cc | 12 ++++++++++--
 rst/logger/file_ptr_sink.cc  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..586ef89 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -56,9 +56,17 @@ void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
   RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
+  // The precision of %.*s doesn't make it go past a zero byte.
+  auto rest = message;
+  for (auto pos = rest.find('\0'); pos != std::string_view::npos;
+       pos = rest.find('\0')) {
+    RST_CHECK(std::fprintf(log_file_.get(), "%.*s%c", static_cast<int>(pos),
+                           rest.data(), '\0') >= 0);
+    rest.remove_prefix(pos + 1);
+  }
+
   RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+                         static_cast<int>(rest.size()), rest.data()) >= 0);
   RST_CHECK(std::fflush(log_file_.get()) == 0);
 }
 
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..2a6ea61 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -46,9 +46,17 @@ void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
   RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
+  // The precision of %.*s doesn't make it go past a zero byte.
+  auto rest = message;
+  for (auto pos = rest.find('\0'); pos != std::string_view::npos;
+       pos = rest.find('\0')) {
+    RST_CHECK(std::fprintf(file_.get(), "%.*s%c", static_cast<int>(pos),
+                           rest.data(), '\0') >= 0);
+    rest.remove_prefix(pos + 1);
+  }
+
   RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+                         static_cast<int>(rest.size()), rest.data()) >= 0);
   RST_CHECK(std::fflush(file_.get()) == 0);
 }
 
-- 
2.43.0


From 293cc6351f0fa227c8c706ec48c94bb03af9c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 14/14] fix: let what a replaced timer task holds restart or
 destroy the timer

Start() assigned the new task over the old one, whose release could destroy
the timer, which was then used, or start it, which was then undone in part.
---
 rst/timer/one_shot_timer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index ff696ae..a140a24 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -45,6 +45,9 @@ OneShotTimer::~OneShotTimer() = default;
 void OneShotTimer::Start(std::function<void()>&& task,
                          const chrono::nanoseconds delay) {
   RST_DCHECK(task != nullptr);
+  // What the replaced task holds can restart or destroy this timer when it's
+  // released, so it's released last.
+  const auto replaced_task = TakeFunction(std::move(task_));
   task_ = std::move(task);
   is_running_ = true;
   get_task_runner_fn_().PostDelayedTask(
-- 
2.43.0

