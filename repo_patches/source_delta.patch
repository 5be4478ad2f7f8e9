From cee39dac75852c01f8baa201e850601d6970867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 01/12] fix: do not write past the output buffer in Format()
 when there are too many arguments

---
 rst/strings/format.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..aae15ab 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -48,8 +48,6 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
     RST_DCHECK(values != nullptr);
     new_size += values[i].size();
   }
-  RST_DCHECK(new_size >= size * 2);
-  new_size -= size * 2;
 
   std::string output;
   StringResizeUninitialized(&output, new_size);
-- 
2.43.0


From 02c05a3f39adcdf0aac5f084fc37b7338b86a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 02/12] fix: reject the minimum int64_t in Value(int64_t)
 without overflowing std::abs()

---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..d24e2f7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(value >= -kMaxSafeInteger && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From a8746ca213e9a3f5cfaeb3d1a9f2a1a8a3560558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 03/12] fix: compare numbers exactly in Value's operator== to
 agree with operator<

---
 rst/value/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..f31005b 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -305,8 +305,10 @@ bool operator==(const Value& lhs, const Value& rhs) {
     case Value::Type::kBool:
       return lhs.get_bool() == rhs.get_bool();
     case Value::Type::kNumber:
-      return std::fabs(lhs.get_number() - rhs.get_number()) <
-             std::numeric_limits<double>::epsilon();
+#pragma clang diagnostic push
+#pragma clang diagnostic ignored "-Wfloat-equal"
+      return lhs.get_number() == rhs.get_number();
+#pragma clang diagnostic pop
     case Value::Type::kString:
       return lhs.get_string() == rhs.get_string();
     case Value::Type::kArray:
-- 
2.43.0


From 879506bb145ffc7afec30a939e6f1d1c22615670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 04/12] fix: take the right-hand side of Value's move
 assignment out before destroying the old content

---
 rst/value/value.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index f31005b..1926960 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| may be a part of this value, so it must be taken out before the
+  // current content is destroyed.
+  Value value(std::move(rhs));
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
-- 
2.43.0


From b85c089aa5d3c80822d9b798e77fb77697069c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 05/12] fix: do not touch OneShotTimer after its task has run
 in FireNow()

---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From e99bd6374931318a45f0a1c8727121785d23e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 06/12] fix: do not overflow the time point of tasks posted to
 PollingTaskRunner with huge delays

---
 rst/task_runner/item.h                 | 8 ++++++++
 rst/task_runner/polling_task_runner.cc | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/rst/task_runner/item.h b/rst/task_runner/item.h
index 15587ed..815fef1 100644
--- a/rst/task_runner/item.h
+++ b/rst/task_runner/item.h
@@ -39,6 +39,14 @@
 namespace rst {
 namespace internal {
 
+// Returns |now| + |delay|, or the maximum time point if the sum is not
+// representable. |delay| must not be negative.
+inline std::chrono::nanoseconds GetFutureTimePoint(
+    const std::chrono::nanoseconds now, const std::chrono::nanoseconds delay) {
+  constexpr auto max = std::chrono::nanoseconds::max();
+  return now > max - delay ? max : now + delay;
+}
+
 // Used in implementations of TaskRunner interface to maintain an ordered queue
 // of tasks.
 struct Item {
diff --git a/rst/task_runner/polling_task_runner.cc b/rst/task_runner/polling_task_runner.cc
index e74c607..1450ddc 100644
--- a/rst/task_runner/polling_task_runner.cc
+++ b/rst/task_runner/polling_task_runner.cc
@@ -48,7 +48,7 @@ void PollingTaskRunner::PostDelayedTaskWithIterations(
   RST_DCHECK(delay.count() >= 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   std::lock_guard lock(mutex_);
   queue_.emplace_back(std::move(task), future_time_point, task_id_++,
                       iterations);
-- 
2.43.0


From 834e8b6ed29630a3c9cecf0a19ba27b1f6bcfbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:09 +0000
Subject: [PATCH 07/12] fix: do not touch Barrier in CountDown() after a waiter
 may have destroyed it

---
 rst/threading/barrier.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rst/threading/barrier.cc b/rst/threading/barrier.cc
index c008454..685aa6d 100644
--- a/rst/threading/barrier.cc
+++ b/rst/threading/barrier.cc
@@ -56,16 +56,13 @@ void Barrier::CountDownAndWait() {
 }
 
 void Barrier::CountDown() {
-  size_t counter = 0;
-
-  {
-    std::lock_guard lock(mutex_);
-    RST_DCHECK(counter_ > 0);
-
-    counter = --counter_;
-  }
+  std::lock_guard lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-  if (counter == 0)
+  counter_--;
+  // Notifies under the lock since a waiter may destroy the barrier as soon as
+  // it can see that the counter is zero.
+  if (counter_ == 0)
     cv_.notify_one();
 }
 
-- 
2.43.0


From d55f128609bde867f9d66094e363fc4a0df026a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 08/12] fix: do not lose a task pushed to ThreadPoolTaskRunner
 while its worker is timing out

---
 rst/task_runner/thread_pool_task_runner.cc | 52 +++++++++++-----------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..e3c44cb 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,9 +55,10 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
+  std::unique_lock lock(thread_mutex_);
+  // Runs under the lock, so that a task that is pushed later doesn't rely on
+  // this thread.
   RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
@@ -67,42 +68,39 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   });
 
   while (true) {
-    auto had_items = false;
-
-    {
-      std::unique_lock lock(thread_mutex_);
+    while (tasks_.empty() && !should_exit_) {
+      waiting_threads_num_++;
+      RST_DEFER([this]() { waiting_threads_num_--; });
 
-      while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
-
-        if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
-          return;
-        }
-      }
-
-      if (should_exit_)
+      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+              std::cv_status::timeout &&
+          tasks_.empty()) {
         return;
-
-      RST_DCHECK(!tasks_.empty());
-      auto& front = tasks_.front();
-      if (front.iterations == 0) {
-        task = std::move(front.task);
-        tasks_.pop();
-      } else {
-        task = front.task;
-        front.iterations--;
       }
+    }
 
-      had_items = !tasks_.empty();
+    if (should_exit_)
+      return;
+
+    RST_DCHECK(!tasks_.empty());
+    auto& front = tasks_.front();
+    if (front.iterations == 0) {
+      task = std::move(front.task);
+      tasks_.pop();
+    } else {
+      task = front.task;
+      front.iterations--;
     }
 
+    const auto had_items = !tasks_.empty();
+    lock.unlock();
+
     if (had_items)
       thread_cv_.notify_one();
 
     task();
     task = nullptr;
+    lock.lock();
   }
 }
 
-- 
2.43.0


From ebcd395f4100c964bdf3279bb8efdbcdff7f1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 09/12] fix: do not overflow time points and waits of
 ThreadPoolTaskRunner with huge delays

---
 rst/task_runner/thread_pool_task_runner.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index e3c44cb..9b5b726 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -27,6 +27,7 @@
 
 #include "rst/task_runner/thread_pool_task_runner.h"
 
+#include <algorithm>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -37,6 +38,13 @@ namespace chrono = std::chrono;
 
 namespace rst {
 
+namespace {
+
+// Longer waits overflow inside of std::condition_variable::wait_for().
+constexpr chrono::nanoseconds kMaxWaitDuration = chrono::hours(24 * 365);
+
+}  // namespace
+
 ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
     const size_t max_threads_num, const chrono::nanoseconds keep_alive_time)
     : max_threads_num_(max_threads_num), keep_alive_time_(keep_alive_time) {
@@ -72,7 +80,8 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
       waiting_threads_num_++;
       RST_DEFER([this]() { waiting_threads_num_--; });
 
-      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+      if (thread_cv_.wait_for(lock,
+                              std::min(keep_alive_time_, kMaxWaitDuration)) ==
               std::cv_status::timeout &&
           tasks_.empty()) {
         return;
@@ -199,7 +208,10 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
         const auto& item = delayed_tasks_.front();
         const auto now = time_function_();
         if (now < item.time_point) {
-          const auto wait_duration = item.time_point - now;
+          const auto wait_duration =
+              std::min(item.time_point,
+                       internal::GetFutureTimePoint(now, kMaxWaitDuration)) -
+              now;
           thread_cv_.wait_for(lock, wait_duration);
         }
       } else {
@@ -238,7 +250,7 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::PushTask(
   RST_DCHECK(delay.count() > 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   {
     std::lock_guard lock(thread_mutex_);
     delayed_tasks_.emplace_back(std::move(task), future_time_point, task_id_++,
-- 
2.43.0


From 9dd2ef00caa2ba6742be1db9d1e58c7ec8b13f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 10/12] fix: remove the temporary file when writing it fails in
 WriteImportantFile

---
 rst/files/file_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..764f03c 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,6 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +111,14 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // The file has not been created by this call if it can't be opened.
+    if (!status.GetError()->IsA<FileOpenError>())
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From 0a2c086dce3558a2c94d0b412abb7cb09a760210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 11/12] fix: log null characters in FileNameSink and
 FilePtrSink

---
 rst/logger/file_name_sink.cc |  9 ++++-----
 rst/logger/file_ptr_sink.cc  | 11 +++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..03ede8a 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -27,7 +27,6 @@
 
 #include "rst/logger/file_name_sink.h"
 
-#include <limits>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -55,10 +54,10 @@ StatusOr<FileNameSink::Ptr> FileNameSink::Create(
 void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  // Not printf(), the |message| can contain null characters.
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), 1, line.size(), log_file_.get()) ==
+            line.size());
   RST_CHECK(std::fflush(log_file_.get()) == 0);
 }
 
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..1dec719 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -27,9 +27,8 @@
 
 #include "rst/logger/file_ptr_sink.h"
 
-#include <limits>
-
 #include "rst/check/check.h"
+#include "rst/strings/str_cat.h"
 
 namespace rst {
 
@@ -45,10 +44,10 @@ FilePtrSink::~FilePtrSink() = default;
 void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  // Not printf(), the |message| can contain null characters.
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), 1, line.size(), file_.get()) ==
+            line.size());
   RST_CHECK(std::fflush(file_.get()) == 0);
 }
 
-- 
2.43.0


From 2f47035ad69a71fdfc43fbd2b0b5693003bac724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 12/12] fix: start a thread for every queued task that no idle
 thread is left for

A push subtracted the threads that wait for tasks, and a waiting thread that had
been notified for an earlier task counted again until it woke up, so that tasks
that wait for each other deadlocked although the limit allowed more threads.
---
 rst/task_runner/thread_pool_task_runner.cc | 32 ++++++++++++++--------
 rst/task_runner/thread_pool_task_runner.h  |  4 ++-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 9b5b726..c8865fd 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -77,9 +77,6 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
 
   while (true) {
     while (tasks_.empty() && !should_exit_) {
-      waiting_threads_num_++;
-      RST_DEFER([this]() { waiting_threads_num_--; });
-
       if (thread_cv_.wait_for(lock,
                               std::min(keep_alive_time_, kMaxWaitDuration)) ==
               std::cv_status::timeout &&
@@ -101,6 +98,9 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
       front.iterations--;
     }
 
+    queued_tasks_num_--;
+    running_threads_num_++;
+
     const auto had_items = !tasks_.empty();
     lock.unlock();
 
@@ -110,6 +110,7 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     task();
     task = nullptr;
     lock.lock();
+    running_threads_num_--;
   }
 }
 
@@ -120,18 +121,21 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
   {
     std::lock_guard lock(thread_mutex_);
 
-    size_t tasks_num = 0;
     for (auto& task : *tasks) {
-      tasks_num += task.iterations + 1;
+      queued_tasks_num_ += task.iterations + 1;
       tasks_.emplace(std::move(task));
     }
 
     RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
     const auto max_threads_num_to_create =
         max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
+    // An idle thread may have been woken up for a task that is still queued.
+    const auto idle_threads_num =
+        thread_id_to_thread_map_.size() - running_threads_num_;
+    auto threads_num_to_create =
+        queued_tasks_num_ - std::min(queued_tasks_num_, idle_threads_num);
+    threads_num_to_create =
+        std::min(threads_num_to_create, max_threads_num_to_create);
 
     for (size_t i = 0; i < threads_num_to_create; i++) {
       std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
@@ -150,15 +154,19 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTask(
   {
     std::lock_guard lock(thread_mutex_);
 
-    const auto tasks_num = task.iterations + 1;
+    queued_tasks_num_ += task.iterations + 1;
     tasks_.emplace(std::move(task));
 
     RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
     const auto max_threads_num_to_create =
         max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
+    // An idle thread may have been woken up for a task that is still queued.
+    const auto idle_threads_num =
+        thread_id_to_thread_map_.size() - running_threads_num_;
+    auto threads_num_to_create =
+        queued_tasks_num_ - std::min(queued_tasks_num_, idle_threads_num);
+    threads_num_to_create =
+        std::min(threads_num_to_create, max_threads_num_to_create);
 
     for (size_t i = 0; i < threads_num_to_create; i++) {
       std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 87e6c03..8b20e33 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -109,7 +109,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
     std::unordered_map<std::thread::id, std::thread> thread_id_to_thread_map_;
     const size_t max_threads_num_;
     const std::chrono::nanoseconds keep_alive_time_;
-    size_t waiting_threads_num_ = 0;
+    // Tasks in the queue, counting every iteration.
+    size_t queued_tasks_num_ = 0;
+    size_t running_threads_num_ = 0;
 
     bool should_exit_ = false;
 
-- 
2.43.0

