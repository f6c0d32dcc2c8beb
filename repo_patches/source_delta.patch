From 6e26b0bfb379513a63bebad14274c280aa7deedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 01/43] fix: posting to the thread pool does not wait for other
 tasks

---
 .../thread_pool/thread_pool_executor.h        | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..6874596 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -52,6 +52,24 @@ public:
     {
     }
 
+    /**
+     * @brief Create a copy that refers to the same group of tasks.
+     *
+     * @param other executor to copy.
+     *
+     * @note `boost::asio::post` copies executors. Only the original executor waits for tasks when it is destroyed:
+     * otherwise posting a task would block until all tasks are completed.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other)
+        : context_(other.context_), task_count_(other.task_count_), wait_on_destroy_(false)
+    {
+    }
+
+    /**
+     * @brief Executor is not assignable because it contains a reference.
+     */
+    ThreadPoolExecutor &operator=(const ThreadPoolExecutor &) = delete;
+
     /**
      * @brief Get thread pool context.
      * 
@@ -93,8 +111,13 @@ public:
 
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
+     *
+     * @note Destructors of executor copies do not wait.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (wait_on_destroy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +171,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    bool wait_on_destroy_ = true;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From fa24cf6c7fff7498b275e10031c87901b07f2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/43] fix: exceptions of pooled tasks go to the thread that
 waits for them

---
 .../thread_pool/impl/thread_pool_context.cpp  | 25 +++++------
 .../thread_pool/thread_pool_context.h         | 18 ++++++--
 .../thread_pool/thread_pool_executor.h        | 41 +++++++++++++------
 3 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp b/knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp
index 1697fdf..7b2af82 100644
--- a/knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp
+++ b/knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp
@@ -58,17 +58,17 @@ ThreadPoolContext::~ThreadPoolContext()
 }
 
 
-void ThreadPoolContext::do_work_started(const std::shared_ptr<size_t> &task_count) noexcept
+void ThreadPoolContext::do_work_started(const std::shared_ptr<TaskGroup> &tasks) noexcept
 {
-    ++(*task_count);
+    ++tasks->count_;
     usage_state_ = Usage::WORKING;
 }
 
 
-void ThreadPoolContext::do_work_finished(const std::shared_ptr<size_t> &task_count)
+void ThreadPoolContext::do_work_finished(const std::shared_ptr<TaskGroup> &tasks)
 {
     // Check if this was the final task.
-    if (--(*task_count) == 0)
+    if (--tasks->count_ == 0)
     {
         usage_state_ = usage_state_ == Usage::STOPPING ? Usage::FINISHED : Usage::READY;
         condition_.notify_all();
@@ -78,19 +78,20 @@ void ThreadPoolContext::do_work_finished(const std::shared_ptr<size_t> &task_cou
 
 void ThreadPoolContext::execute(std::unique_lock<std::mutex> &lock, std::shared_ptr<Function> &work)
 {
-    std::shared_ptr<size_t> work_count(std::move(work->work_count_));
+    const std::shared_ptr<TaskGroup> tasks(std::move(work->tasks_));
+    std::exception_ptr error;
     try
     {
         work->execute_(work);
-        lock.lock();
-        do_work_finished(work_count);
     }
     catch (...)
     {
-        lock.lock();
-        do_work_finished(work_count);
-        throw;
+        // The exception goes to the thread that waits for the tasks.
+        error = std::current_exception();
     }
+    lock.lock();
+    if (error && !tasks->error_) tasks->error_ = error;
+    do_work_finished(tasks);
 }
 
 
@@ -113,11 +114,11 @@ void ThreadPoolContext::stop()
 }
 
 
-void ThreadPoolContext::post(const std::shared_ptr<Function> &task, const std::shared_ptr<size_t> &task_count)
+void ThreadPoolContext::post(const std::shared_ptr<Function> &task, const std::shared_ptr<TaskGroup> &tasks)
 {
     std::lock_guard lock(mutex_);
     work_queue_.push(task);
-    do_work_started(task_count);
+    do_work_started(tasks);
     condition_.notify_one();
 }
 }  // namespace knp::backends::cpu_executors
diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_context.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_context.h
index 16ba391..6566aee 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_context.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_context.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <condition_variable>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <queue>
@@ -72,16 +73,25 @@ private:
         STOPPING
     };
 
+    // Tasks that are waited for together.
+    struct TaskGroup
+    {
+        // Number of posted tasks that are not finished.
+        size_t count_ = 0;
+        // First exception thrown by a task since the last wait.
+        std::exception_ptr error_;
+    };
+
     struct Function
     {
-        std::shared_ptr<size_t> work_count_;
+        std::shared_ptr<TaskGroup> tasks_;
         // cppcheck-suppress unusedStructMember
         void (*execute_)(std::shared_ptr<Function> &p);
     };
 
-    void do_work_started(const std::shared_ptr<size_t> &task_count) noexcept;
+    void do_work_started(const std::shared_ptr<TaskGroup> &tasks) noexcept;
 
-    void do_work_finished(const std::shared_ptr<size_t> &task_count);
+    void do_work_finished(const std::shared_ptr<TaskGroup> &tasks);
 
     void execute(std::unique_lock<std::mutex> &lock, std::shared_ptr<Function> &work);
 
@@ -89,7 +99,7 @@ private:
 
     void stop();
 
-    void post(const std::shared_ptr<Function> &task, const std::shared_ptr<size_t> &task_count);
+    void post(const std::shared_ptr<Function> &task, const std::shared_ptr<TaskGroup> &tasks);
 
 private:
     /**
diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 6874596..c48e66a 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -20,6 +20,7 @@
  */
 #pragma once
 
+#include <exception>
 #include <memory>
 #include <utility>
 
@@ -48,7 +49,7 @@ public:
      * @note Lifetime of thread pool context should be at least as long as lifetime of this class object.
      */
     explicit ThreadPoolExecutor(ThreadPoolContext &context)
-        : context_(context), task_count_(std::make_shared<size_t>(0))
+        : context_(context), tasks_(std::make_shared<ThreadPoolContext::TaskGroup>())
     {
     }
 
@@ -61,7 +62,7 @@ public:
      * otherwise posting a task would block until all tasks are completed.
      */
     ThreadPoolExecutor(const ThreadPoolExecutor &other)
-        : context_(other.context_), task_count_(other.task_count_), wait_on_destroy_(false)
+        : context_(other.context_), tasks_(other.tasks_), wait_on_destroy_(false)
     {
     }
 
@@ -93,20 +94,20 @@ public:
     {
         auto new_task(std::allocate_shared<Task<Func>>(
             typename std::allocator_traits<Alloc>::template rebind_alloc<char>(allocator), std::move(function),
-            task_count_));
-        context_.post(new_task, task_count_);
+            tasks_));
+        context_.post(new_task, tasks_);
     }
 
     /**
      * @brief Wait for all tasks to finish.
      * 
      * @note The method does not join threads.
+     * @note If any of the tasks ended with an exception, the method rethrows the first of these exceptions after all
+     * tasks are finished.
      */
     void join() const
     {
-        std::unique_lock<std::mutex> lock(context_.mutex_);
-        while (*task_count_ > 0)
-            if (!context_.execute_next(lock)) context_.condition_.wait(lock);
+        if (auto error = wait()) std::rethrow_exception(error);
     }
 
     /**
@@ -116,16 +117,17 @@ public:
      */
     ~ThreadPoolExecutor()
     {
-        if (wait_on_destroy_) join();
+        if (wait_on_destroy_) wait();
     }
 
 private:
     template <class Func>
     struct Task : ThreadPoolContext::Function
     {
-        explicit Task(Func func, const std::shared_ptr<size_t> &task_count) : function(std::move(func))
+        explicit Task(Func func, const std::shared_ptr<ThreadPoolContext::TaskGroup> &tasks)
+            : function(std::move(func))
         {
-            work_count_ = task_count;
+            tasks_ = tasks;
             execute_ = [](std::shared_ptr<ThreadPoolContext::Function> &p)
             {
                 Func tmp(std::move(static_cast<Task *>(p.get())->function));
@@ -136,18 +138,31 @@ private:
         Func function;
     };
 
+    /**
+     * @brief Wait for all tasks to finish.
+     *
+     * @return the first exception thrown by one of the tasks, or null pointer if there were none.
+     */
+    std::exception_ptr wait() const
+    {
+        std::unique_lock<std::mutex> lock(context_.mutex_);
+        while (tasks_->count_ > 0)
+            if (!context_.execute_next(lock)) context_.condition_.wait(lock);
+        return std::exchange(tasks_->error_, nullptr);
+    }
+
     // cppcheck-suppress unusedPrivateFunction
     void on_work_started()
     {
         std::lock_guard lock(context_.mutex_);
-        context_.do_work_started(task_count_);
+        context_.do_work_started(tasks_);
     }
 
     // cppcheck-suppress unusedPrivateFunction
     void on_work_finished()
     {
         std::lock_guard lock(context_.mutex_);
-        context_.do_work_finished(task_count_);  // Locks.
+        context_.do_work_finished(tasks_);  // Locks.
     }
 
 
@@ -170,7 +185,7 @@ private:
     }
 
     ThreadPoolContext &context_;
-    std::shared_ptr<size_t> task_count_;
+    std::shared_ptr<ThreadPoolContext::TaskGroup> tasks_;
     bool wait_on_destroy_ = true;
 };
 
-- 
2.43.0


From 3fc3645b52f3bdcd35c98760e9205b26d102a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 03/43] fix: in-process bus and its endpoints share one lock

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp   |  8 ++++----
 .../message_bus_cpu_impl/message_bus_cpu_impl.h     |  3 ++-
 .../message_endpoint_cpu_impl.h                     | 13 ++++++++-----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 8c1fe76..e78309b 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -40,7 +40,7 @@ public:
 
 void MessageBusCPUImpl::update()
 {
-    std::lock_guard lock(mutex_);
+    std::lock_guard lock(*mutex_);
     // This function is called before routing messages.
     auto iter = endpoint_data_.begin();
     while (iter != endpoint_data_.end())
@@ -65,7 +65,7 @@ void MessageBusCPUImpl::update()
 
 size_t MessageBusCPUImpl::step()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
     auto message = std::move(messages_to_route_.back());
@@ -90,14 +90,14 @@ size_t MessageBusCPUImpl::step()
 
 core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
 
     using VT = std::vector<messaging::MessageVariant>;
 
     auto messages_to_send_v{std::make_shared<VT>()};
     auto recv_messages_v{std::make_shared<VT>()};
 
-    auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
+    auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v, mutex_));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
     return std::move(endpoint);
 }
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 9bd0299..65ac01f 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -63,6 +63,7 @@ private:
         std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
-    std::mutex mutex_;
+    // Endpoints access the same containers, so they share the mutex with the bus.
+    std::shared_ptr<std::mutex> mutex_ = std::make_shared<std::mutex>();
 };
 }  // namespace knp::core::messaging::impl
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 8ac94ea..1e16636 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -45,15 +45,17 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages)
-        : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
+        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
+        : messages_to_send_(std::move(messages_to_send)),
+          received_messages_(std::move(received_messages)),
+          mutex_(std::move(mutex))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
     }
 
     void send_message(const knp::core::messaging::MessageVariant &message) override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         messages_to_send_->push_back(message);
         SPDLOG_TRACE("Message with type index = {} was sent", message.index());
@@ -63,7 +65,7 @@ public:
 
     std::optional<knp::core::messaging::MessageVariant> receive_message() override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         if (received_messages_->empty())
         {
@@ -79,7 +81,8 @@ private:
     std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
     std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
-    std::mutex mutex_;
+    // This mutex belongs to the message bus.
+    std::shared_ptr<std::mutex> mutex_;
 };
 
 }  // namespace knp::core::messaging::impl
-- 
2.43.0


From ea9d20113f3c0276cee084d6b4e396488a278b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 04/43] fix: in-process bus delivers messages in the order they
 were sent

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp  |  6 +++---
 .../message_bus_cpu_impl/message_bus_cpu_impl.h    |  9 +++++----
 .../message_endpoint_cpu_impl.h                    | 14 +++++++-------
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index e78309b..c376714 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -68,9 +68,9 @@ size_t MessageBusCPUImpl::step()
     const std::lock_guard lock(*mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
-    auto message = std::move(messages_to_route_.back());
+    auto message = std::move(messages_to_route_.front());
     // Remove message from container.
-    messages_to_route_.pop_back();
+    messages_to_route_.pop_front();
     const knp::core::UID sender_uid = std::visit([](const auto &msg) { return msg.header_.sender_uid_; }, message);
     for (auto endpoint_data_containers : endpoint_data_)
     {
@@ -92,7 +92,7 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
     const std::lock_guard lock(*mutex_);
 
-    using VT = std::vector<messaging::MessageVariant>;
+    using VT = std::deque<messaging::MessageVariant>;
 
     auto messages_to_send_v{std::make_shared<VT>()};
     auto recv_messages_v{std::make_shared<VT>()};
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 65ac01f..1005113 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -26,6 +26,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <deque>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -53,14 +54,14 @@ public:
     [[nodiscard]] core::MessageEndpoint create_endpoint() override;
 
 private:
-    std::vector<knp::core::messaging::MessageVariant> messages_to_route_;
+    std::deque<knp::core::messaging::MessageVariant> messages_to_route_;
 
     // This is a list of endpoint data:
-    // First vector is a pointer to a set of messages the endpoint is sending.
-    // Second vector is a set of messages endpoint is receiving.
+    // First queue is a pointer to a set of messages the endpoint is sending.
+    // Second queue is a set of messages endpoint is receiving.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
     std::list<std::tuple<
-        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
+        std::weak_ptr<std::deque<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
     // Endpoints access the same containers, so they share the mutex with the bus.
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 1e16636..c4e7381 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -24,11 +24,11 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <deque>
 #include <memory>
 #include <mutex>
 #include <unordered_set>
 #include <utility>
-#include <vector>
 
 /**
  * @brief Namespace for implementations of message bus.
@@ -44,8 +44,8 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 {
 public:
     MessageEndpointCPUImpl(
-        std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
+        std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send,
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
         : messages_to_send_(std::move(messages_to_send)),
           received_messages_(std::move(received_messages)),
           mutex_(std::move(mutex))
@@ -72,14 +72,14 @@ public:
             return {};
         }
 
-        auto result = std::move(received_messages_->back());
-        received_messages_->pop_back();
+        auto result = std::move(received_messages_->front());
+        received_messages_->pop_front();
         return result;
     }
 
 private:
-    std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
-    std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
     // This mutex belongs to the message bus.
     std::shared_ptr<std::mutex> mutex_;
-- 
2.43.0


From d915c6ab4c51e5efe01723eb8b9955d5d9ef2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 05/43] fix: removed subscriptions no longer break the endpoint
 or attract messages

---
 knp/core-library/impl/message_endpoint.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..a7f2baf 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -118,9 +118,9 @@ bool MessageEndpoint::unsubscribe(const UID &receiver)
     if (iter != subscriptions_.end())
     {
         subscriptions_.erase(iter);
+        update_senders();
         return true;
     }
-    update_senders();
     return false;
 }
 
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
@@ -252,6 +256,8 @@ void MessageEndpoint::update_senders()
         auto sub_senders = std::visit([](auto &sub_var) { return sub_var.get_senders(); }, sub.second);
         new_senders.insert(sub_senders.begin(), sub_senders.end());
     }
+    // The message bus refers to this set, so it is updated in place.
+    senders_->swap(new_senders);
 }
 
 
-- 
2.43.0


From 4ce553810e18b03b598798bfa1bc2454ce981468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 06/43] fix: ZeroMQ bus queues any number of messages between
 routing cycles

---
 .../message_bus_zmq_impl.cpp                  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 72fad81..c85227a 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -43,6 +43,26 @@ using std::chrono_literals::operator""ms;
 #endif
 
 
+/**
+ * @brief Let a socket queue any number of messages between routing cycles.
+ * @details With the default limits a full queue makes sending endpoint wait forever and subscribers lose messages.
+ * @param socket socket that is not bound or connected yet.
+ */
+void remove_message_limits(zmq::socket_t &socket)
+{
+    const int no_limit = 0;
+#if defined(__GNUC__)
+#    pragma GCC diagnostic push
+#    pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+#endif
+    socket.setsockopt(ZMQ_SNDHWM, &no_limit, sizeof(no_limit));
+    socket.setsockopt(ZMQ_RCVHWM, &no_limit, sizeof(no_limit));
+#if defined(__GNUC__)
+#    pragma GCC diagnostic pop
+#endif
+}
+
+
 class MessageEndpointZMQ : public MessageEndpoint
 {
 public:
@@ -61,6 +81,8 @@ MessageBusZMQImpl::MessageBusZMQImpl()
       publish_socket_(context_, zmq::socket_type::pub)
 {
     SPDLOG_DEBUG("ZMQ message bus creating...");
+    remove_message_limits(router_socket_);
+    remove_message_limits(publish_socket_);
     SPDLOG_DEBUG("Router socket binding to {}...", router_sock_address_);
     router_socket_.bind(router_sock_address_);
     SPDLOG_DEBUG("Publish socket binding to {}...", publish_sock_address_);
@@ -148,6 +170,8 @@ MessageEndpoint MessageBusZMQImpl::create_endpoint()
 {
     zmq::socket_t sub_socket{context_, zmq::socket_type::sub};
     zmq::socket_t pub_socket{context_, zmq::socket_type::dealer};
+    remove_message_limits(sub_socket);
+    remove_message_limits(pub_socket);
 
 // #if (ZMQ_VERSION >= ZMQ_MAKE_VERSION(4, 3, 4))
 //         sub_socket_.set(zmq::sockopt::subscribe, "");
-- 
2.43.0


From d6c0d41c7949f812d9dd310bbfe26986f49a6ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 07/43] fix: multi-threaded projections process all spike
 messages of a step

---
 .../impl/backend.cpp                          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..4a3520f 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,19 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +267,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 8fe014cb1a47a3c9152f2884129194cdb1884b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 08/43] fix: multi-threaded projections emit one impact per
 spike

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..c52831a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -141,12 +141,13 @@ void calculate_projection_multithreaded_impl(
         }
 
         knp::core::messaging::SynapticImpact impact{
-            synapse_index, std::get<core::synapse_data>(synapse).weight_ * iter->second,
+            synapse_index, std::get<core::synapse_data>(synapse).weight_,
             std::get<core::synapse_data>(synapse).output_type_,
             static_cast<uint32_t>(std::get<core::source_neuron_id>(synapse)),
             static_cast<uint32_t>(std::get<core::target_neuron_id>(synapse))};
 
-        container.emplace_back(key, impact);
+        // Each spike causes an impact of its own.
+        container.insert(container.end(), iter->second, std::make_pair(key, impact));
     }
     // Add impacts to future messages queue, it is a shared resource.
     const std::lock_guard lock_guard(mutex);
-- 
2.43.0


From f3d3caf4614dc2a4befe1e564213ca1ce652916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 09/43] fix: impacts of multi-threaded projections name the
 right populations

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index c52831a..047eddf 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -166,8 +166,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From d7bff4c00f8924eb8af52491899959ec4f633761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 10/43] fix: multi-threaded backend delivers messages sent
 before a step to that step

---
 knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 4a3520f..9e829e3 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -313,6 +313,8 @@ std::vector<size_t> MultiThreadedCPUBackend::get_supported_population_indexes()
 void MultiThreadedCPUBackend::_step()
 {
     SPDLOG_DEBUG("Starting step #{}...", get_step());
+    get_message_bus().route_messages();
+    get_message_endpoint().receive_all_messages();
     calculate_populations();
     get_message_bus().route_messages();
     get_message_endpoint().receive_all_messages();
-- 
2.43.0


From c490483b537889ab825f0c0474f3a76f328f5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 11/43] fix: order of spikes and impacts of the multi-threaded
 backend does not depend on the schedule

---
 .../cpu/cpu-multi-threaded-backend/impl/backend.cpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 9e829e3..c88947e 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -31,6 +31,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <functional>
 #include <unordered_map>
 #include <vector>
@@ -160,6 +161,11 @@ std::vector<knp::core::messaging::SpikeMessage> MultiThreadedCPUBackend::calcula
         }
     }
     calc_pool_->join();
+    // Population parts append their spikes in the order they happen to finish.
+    for (auto &message : spike_container)
+    {
+        std::sort(message.neuron_indexes_.begin(), message.neuron_indexes_.end());
+    }
     for (size_t pop_id = 0; pop_id < populations_.size(); ++pop_id)
     {
         auto &message = spike_container[pop_id];
@@ -291,6 +297,11 @@ void MultiThreadedCPUBackend::calculate_projections()
         auto msg_iter = msg_queue.find(get_step());
         if (msg_iter != msg_queue.end())
         {
+            // Projection parts append their impacts in the order they happen to finish.
+            auto &impacts = msg_iter->second.impacts_;
+            std::stable_sort(
+                impacts.begin(), impacts.end(),
+                [](const auto &left, const auto &right) { return left.connection_index_ < right.connection_index_; });
             get_message_endpoint().send_message(std::move(msg_iter->second));
             msg_queue.erase(msg_iter);
         }
-- 
2.43.0


From ff390b9d609bde1925cd800293d1310b48773f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 12/43] fix: backend does not report running after a run has
 ended

---
 knp/core-library/impl/backend.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..0389015 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -89,6 +89,7 @@ void Backend::start()
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -109,6 +110,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -137,6 +139,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From c178791aecdc4f66e1eb728b7912394f493adace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 13/43] fix: model executor sends no inputs for a step that is
 not executed

---
 knp/base-framework/impl/model_executor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..ef4e78c 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,17 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate. Inputs are not sent for a step that is not going to be executed.
+            if (!run_predicate(step))
+            {
+                return false;
+            }
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From fbb021a0f128209cb68108c5e1b6dda428f7c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 14/43] fix: a step of the multi-threaded backend that fails
 waits for its tasks

---
 .../impl/backend.cpp                          | 54 +++++++++++++++++--
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index c88947e..90f5ab1 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -41,6 +41,46 @@
 namespace knp::backends::multi_threaded_cpu
 {
 
+namespace
+{
+/**
+ * @brief Waits for the posted tasks when a step fails halfway: the tasks use local variables of the failing function.
+ */
+class PendingTasks
+{
+public:
+    explicit PendingTasks(cpu_executors::ThreadPool &pool) : pool_(pool) {}
+    PendingTasks(const PendingTasks &) = delete;
+    PendingTasks &operator=(const PendingTasks &) = delete;
+
+    ~PendingTasks()
+    {
+        if (!pending_) return;
+        try
+        {
+            pool_.join();
+        }
+        catch (...)
+        {
+            // The first failure is the one to be reported.
+            SPDLOG_ERROR("A task failed after the step had failed.");
+        }
+    }
+
+    void join()
+    {
+        pending_ = false;
+        pool_.join();
+        pending_ = true;
+    }
+
+private:
+    cpu_executors::ThreadPool &pool_;
+    bool pending_ = true;
+};
+}  // namespace
+
+
 MultiThreadedCPUBackend::MultiThreadedCPUBackend(
     size_t thread_count, size_t population_part_size, size_t projection_part_size)
     : population_part_size_(population_part_size),
@@ -77,6 +117,7 @@ std::vector<std::string> MultiThreadedCPUBackend::get_supported_synapses() const
 
 void MultiThreadedCPUBackend::calculate_populations_pre_impact()
 {
+    PendingTasks tasks(*calc_pool_);
     for (auto &population : populations_)
     {
         auto pop_size = std::visit([](auto &pop) { return pop.size(); }, population);
@@ -95,12 +136,13 @@ void MultiThreadedCPUBackend::calculate_populations_pre_impact()
         }
     }
     // Wait for all threads to finish their work.
-    calc_pool_->join();
+    tasks.join();
 }
 
 
 void MultiThreadedCPUBackend::calculate_populations_impact()
 {
+    PendingTasks tasks(*calc_pool_);
     for (auto &population : populations_)
     {
         auto uid = std::visit([](auto &population) { return population.get_uid(); }, population);
@@ -115,13 +157,14 @@ void MultiThreadedCPUBackend::calculate_populations_impact()
             },
             population);
     }
-    calc_pool_->join();
+    tasks.join();
 }
 
 
 std::vector<knp::core::messaging::SpikeMessage> MultiThreadedCPUBackend::calculate_populations_post_impact()
 {
     std::vector<knp::core::messaging::SpikeMessage> spike_container(populations_.size());
+    PendingTasks tasks(*calc_pool_);
     for (size_t pop_index = 0; pop_index < populations_.size(); ++pop_index)
     {
         auto &population = populations_[pop_index];
@@ -160,7 +203,7 @@ std::vector<knp::core::messaging::SpikeMessage> MultiThreadedCPUBackend::calcula
                 population);
         }
     }
-    calc_pool_->join();
+    tasks.join();
     // Population parts append their spikes in the order they happen to finish.
     for (auto &message : spike_container)
     {
@@ -201,7 +244,7 @@ std::vector<knp::core::messaging::SpikeMessage> MultiThreadedCPUBackend::calcula
 #    pragma warning(pop)
 #endif
     }
-    calc_pool_->join();
+    tasks.join();
     return spike_container;
 }
 
@@ -261,6 +304,7 @@ void MultiThreadedCPUBackend::calculate_projections()
     SPDLOG_DEBUG("Calculating projections...");
     std::vector<std::unordered_map<uint64_t, size_t>> converted_message_buffer;
     converted_message_buffer.reserve(projections_.size());
+    PendingTasks tasks(*calc_pool_);
 
     for (auto &projection : projections_)
     {
@@ -289,7 +333,7 @@ void MultiThreadedCPUBackend::calculate_projections()
                 projection.arg_);
         }
     }
-    calc_pool_->join();
+    tasks.join();
     // Sending messages. It might be possible to parallelize this as well if we use more than one endpoint.
     for (auto &projection : projections_)
     {
-- 
2.43.0


From 83ea5ece40161a194ec916fb79170ecd922f52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 15/43] fix: equal minimum and maximum weights do not turn a
 trained weight into NaN

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..66e24c4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -48,7 +48,9 @@ void recalculate_synapse_weights(
         const auto &rule = synapse.get().rule_;
         const auto syn_w = std::max(rule.synaptic_resource_, 0.F);
         const auto weight_diff = rule.w_max_ - rule.w_min_;
-        synapse.get().weight_ = rule.w_min_ + weight_diff * syn_w / (weight_diff + syn_w);
+        // The only possible weight when minimum and maximum are the same.
+        synapse.get().weight_ =
+            weight_diff == 0.F ? rule.w_min_ : rule.w_min_ + weight_diff * syn_w / (weight_diff + syn_w);
     }
 }
 
-- 
2.43.0


From 315a56eaf435b9017d948081f6d52a6cc9470546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 16/43] fix: neuron without learning synapses keeps its free
 synaptic resource

---
 .../cpu-library/impl/populations/training/stdp.h       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index 66e24c4..a1f0cbc 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -173,9 +173,15 @@ inline void renormalize_resource(
 
         auto synapse_params = get_all_connected_synapses<Synapse>(working_projections, neuron_index);
 
+        const auto share_count = synapse_params.size() + neuron.resource_drain_coefficient_;
+        if (share_count == 0)
+        {
+            // Nothing to give the resource to, the neuron keeps it.
+            continue;
+        }
+
         // Divide free resource between all synapses.
-        auto add_resource_value =
-            neuron.free_synaptic_resource_ / (synapse_params.size() + neuron.resource_drain_coefficient_);
+        auto add_resource_value = neuron.free_synaptic_resource_ / share_count;
 
         for (auto &synapse : synapse_params)
         {
-- 
2.43.0


From 361a1c4bb1ceb4afa9bcca78b92a88960f6e73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 17/43] fix: channels whose identifiers share a hash bucket are
 not merged

---
 knp/base-framework/impl/model_loader.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..f6bf5f9 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,32 +34,31 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Entries with equal keys are adjacent, while a bucket may hold several keys.
+    for (auto channel_iter = channels.begin(); channel_iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
+        const auto channel_uid = channel_iter->first;
+        const auto channel_end = channels.equal_range(channel_uid).second;
 
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
 
         std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
+            channel_iter, channel_end, std::back_inserter(p_uids),
 #ifdef __clang__
 #    pragma clang diagnostic push
 #    pragma clang diagnostic ignored "-Wunused-lambda-capture"
 #endif
-            [&channel_uid](const auto &bucket)
+            [&channel_uid](const auto &peer)
             {
                 SPDLOG_TRACE(
-                    "Inserting channel {} peer bucket UID = {}...", std::string(channel_uid),
-                    std::string(bucket.second));
-                return bucket.second;
+                    "Inserting channel {} peer UID = {}...", std::string(channel_uid), std::string(peer.second));
+                return peer.second;
             });
 #ifdef __clang__
 #    pragma clang diagnostic pop
 #endif
         (this->*channel_gen)(model, channel_uid, p_uids);
+        channel_iter = channel_end;
     }
 }
 
-- 
2.43.0


From 1191259c415568077f0b858a281588b1a76b5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 18/43] fix: output channel reads step ranges with any bounds

---
 knp/base-framework/impl/output_channel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..647716a 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,16 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
+    if (starting_step > final_step)
+    {
+        return result;
+    }
+
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
-- 
2.43.0


From 5f3fca36dcce00104a80fee0e783091acb3c67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 19/43] fix: status logger counts messages over its logging
 period

---
 knp/base-framework/impl/monitoring/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7d9e255..a4bdbdc 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -231,10 +231,13 @@ void add_status_logger(
         std::visit([&populations_uids](auto const &neuron) { populations_uids.push_back(neuron.get_uid()); }, neuron);
     }
     model_executor.add_observer<knp::core::messaging::SpikeMessage>(
-        [&log_stream](const std::vector<knp::core::messaging::SpikeMessage> &messages)
+        [&log_stream, &model_executor, logging_period,
+         messages_count = size_t{0}](const std::vector<knp::core::messaging::SpikeMessage> &messages) mutable
         {
-            if (messages.empty()) return;
-            log_stream << messages.size() << std::endl;
+            messages_count += messages.size();
+            if (model_executor.get_backend()->get_step() % logging_period != 0 || messages_count == 0) return;
+            log_stream << messages_count << std::endl;
+            messages_count = 0;
         },
         populations_uids);
 }
-- 
2.43.0


From 2268d3059b09231eb9f7de6270babb5a2b63eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 20/43] fix: group winner-take-all with no winners passes
 nothing on

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..308ce04 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -69,7 +69,7 @@ knp::core::messaging::SpikeData KWtaRandomHandler::operator()(std::vector<knp::c
 knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     const std::vector<knp::core::messaging::SpikeMessage> &messages)
 {
-    if (messages.empty())
+    if (messages.empty() || num_winners_ == 0)
     {
         return {};
     }
-- 
2.43.0


From b477015d14e51f1d61d84731a58523631080ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 21/43] fix: stream converters return no spikes once the stream
 has failed

---
 knp/base-framework/impl/input_converter.cpp                   | 2 +-
 .../knp/framework/io/in_converters/sequence_converter.h       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/impl/input_converter.cpp b/knp/base-framework/impl/input_converter.cpp
index f873299..403ddf3 100644
--- a/knp/base-framework/impl/input_converter.cpp
+++ b/knp/base-framework/impl/input_converter.cpp
@@ -32,7 +32,7 @@ core::messaging::SpikeData IndexConverter::operator()(core::Step) const
     core::messaging::SpikeData result;
 
     std::string buffer_string;
-    std::getline(*stream_, buffer_string);
+    if (!std::getline(*stream_, buffer_string)) return result;
 
     auto iter_first = buffer_string.begin();
     auto iter_second = iter_first;
diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..582b380 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -80,8 +80,8 @@ public:
         core::messaging::SpikeData message_data;
         for (size_t i = 0; i < data_size_; ++i)
         {
-            ValueType value;
-            *stream_ >> value;
+            ValueType value{};
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From 57dd08b976548325e8021ac507e7295ad17b2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 22/43] fix: image dataset keeps complete images only and no
 more than requested

---
 .../impl/data_processing/classification/image.cpp           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..104af68 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -38,9 +38,9 @@ void Dataset::process_labels_and_images(
 
     dataset_.reserve(max_images_amount);
 
-    while (images_stream.good() && labels_stream.good())
+    while (dataset_.size() < max_images_amount && images_stream.good() && labels_stream.good())
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
@@ -49,8 +49,6 @@ void Dataset::process_labels_and_images(
 
         // Push to training data set because we dont know dataset size yet for a split
         dataset_.push_back({label, std::move(spikes_frame)});
-
-        if (dataset_.size() == max_images_amount) break;
     }
 }
 
-- 
2.43.0


From b0f7d24b37de387ece8b5362de99c3dfc303ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 23/43] fix: projection index is rebuilt after every edit

---
 knp/core-library/impl/projection.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..04dfdfd 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -193,11 +193,12 @@ size_t knp::core::Projection<SynapseType>::add_synapses(
     SynapseGenerator generator, size_t num_iterations)  //!OCLINT(Parameters used)
 {
     const size_t starting_size = parameters_.size();
-    is_index_updated_ = false;
     for (size_t i = 0; i < num_iterations; ++i)
     {
         if (auto data = generator(i))
         {
+            // The generator may have searched for synapses and so have updated the index.
+            is_index_updated_ = false;
             parameters_.emplace_back(std::move(data.value()));
         }
     }
@@ -225,8 +226,22 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_synapse_if(std::function<bool(const Synapse &)> predicate)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
+    // The predicate may throw or search for synapses, so nothing is changed until it has been asked about all of them.
+    std::vector<bool> to_keep(starting_size);
+    std::transform(
+        parameters_.begin(), parameters_.end(), to_keep.begin(),
+        [&predicate](const Synapse &synapse) { return !predicate(synapse); });
     is_index_updated_ = false;
-    parameters_.resize(std::remove_if(parameters_.begin(), parameters_.end(), predicate) - parameters_.begin());
+    size_t new_size = 0;
+    for (size_t i = 0; i < starting_size; ++i)
+    {
+        if (to_keep[i])
+        {
+            if (i != new_size) parameters_[new_size] = std::move(parameters_[i]);
+            ++new_size;
+        }
+    }
+    parameters_.resize(new_size);
     return starting_size - parameters_.size();
 }
 
@@ -235,16 +250,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
+    // Removal changes indexes of the synapses that follow the removed ones.
+    is_index_updated_ = false;
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From f57993dbde82e1cdff331e66cd849747dd576be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 24/43] fix: neurons are removed by index in any order

---
 knp/core-library/include/knp/core/population.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..99eb81b 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -27,6 +27,7 @@
 #include <knp/neuron-traits/all_traits.h>
 
 #include <functional>
+#include <set>
 #include <utility>
 #include <vector>
 
@@ -204,14 +205,15 @@ public:  // NOLINT
     /**
      * @brief Remove neurons with given indexes from the population.
      * 
-     * @param neuron_indexes indexes of neurons to remove.
+     * @param neuron_indexes indexes of neurons to remove, in any order.
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
-        size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        // Removal of a neuron changes indexes of the neurons that follow it, so start from the last one.
+        const std::set<size_t, std::greater<size_t>> indexes(neuron_indexes.begin(), neuron_indexes.end());
+        for (const auto &index : indexes)
         {
-            remove_neuron(index - index_shift++);
+            remove_neuron(index);
         }
     }
 
-- 
2.43.0


From 6623877da7f0a332cac8cb58f6159ac4252de241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 25/43] fix: a backend loader that ran out of memory while
 caching a creator kept an empty one

---
 knp/base-framework/impl/backend_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index 4d2f322..749d73f 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -48,7 +48,7 @@ std::function<BackendLoader::BackendCreateFunction> BackendLoader::make_creator(
 
     SPDLOG_DEBUG("Created backend creator.");
 
-    creators_[backend_path.string()] = creator;
+    creators_.emplace(backend_path.string(), creator);
 
     return creator;
 }
-- 
2.43.0


From e747229fcae2409b819fa7d8b79d3e431b26acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 26/43] fix: keep the identity of CPU devices

A device listed by a backend got a new random UID every time: the namespace of the name-based UID was a text taken
for the flag that asks for a random UID, and moving a device did not move its UID and tags (x86: socket number). So
select_devices() never found a device that get_devices() had listed.
---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 11 ++++++++---
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 13 ++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..9277c87 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,7 +32,8 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+// UID has no constructor from a string: a text would be taken for the flag that asks for a random UID.
+static const core::UID ns_uid{false};
 
 
 /**
@@ -49,11 +50,14 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)}
+{
+    base_ = std::move(other.base_);
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +65,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..32e224b 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,7 +44,8 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+// UID has no constructor from a string: a text would be taken for the flag that asks for a random UID.
+static const core::UID ns_uid{false};
 
 
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
@@ -55,11 +56,15 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : cpu_num_{other.cpu_num_}, cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)}
+{
+    base_ = std::move(other.base_);
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +72,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From a633bce079dcd067979e4a0dadc4200c3fb54f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 27/43] fix: select every requested device

Backend::select_devices() returned after the first match, so that of several requested devices one was selected and
missing ones went unreported; a repeated selection added to the previous one, and selecting no devices threw or not
depending on what was selected before. Now exactly the requested devices become current, or none changes.
---
 knp/core-library/impl/backend.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 0389015..f2bd03e 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -169,22 +169,26 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    std::vector<std::unique_ptr<Device>> selected;
+
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
         if (uids.find(device->get_uid()) != uids.end())
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
-            devices_.push_back(std::move(device));
-            return;
+            selected.push_back(std::move(device));
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
 
-    if (uids.size() != devices_.size())
+    if (uids.size() != selected.size())
     {
         throw std::logic_error("Not all devices were selected.");
     }
+
+    devices_.swap(selected);
 }
 
 void Backend::select_device(std::unique_ptr<Device>&& device)
-- 
2.43.0


From 21386a3bb75bc8a17563be87ff1e3dea241c623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:19 +0000
Subject: [PATCH 28/43] fix: backend library is not unloaded while its backends
 or endpoints are alive

---
 knp/base-framework/impl/backend_loader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index 749d73f..a331d4d 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -46,6 +46,11 @@ std::function<BackendLoader::BackendCreateFunction> BackendLoader::make_creator(
     auto creator = boost::dll::import_alias<BackendCreateFunction>(
         boost::filesystem::path(backend_path), "create_knp_backend", boost::dll::load_mode::append_decorations);
 
+    // Backends, and endpoints and messages obtained from them, can outlive the loader, and their code is in the library.
+    // That is why the library is never unloaded: this handle is deliberately not freed.
+    [[maybe_unused]] const auto *const library_keeper = new boost::dll::shared_library(
+        boost::filesystem::path(backend_path), boost::dll::load_mode::append_decorations);
+
     SPDLOG_DEBUG("Created backend creator.");
 
     creators_.emplace(backend_path.string(), creator);
-- 
2.43.0


From 0c21056b03a07d5dd1285bf86905879e9b3b9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:24 +0000
Subject: [PATCH 29/43] fix: Python objects of other types are not read as
 neuron or synapse parameters

The registered converter accepted any Python object and reinterpreted its memory as parameters.
Objects of the right classes are found by the converters that py::class_ registers.
---
 knp/python-framework/impl/core/cpp/common.h     | 11 -----------
 knp/python-framework/impl/core/cpp/population.h |  3 +--
 knp/python-framework/impl/core/cpp/projection.h |  3 +--
 3 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index 4db4b8a..189ce19 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -69,17 +69,6 @@ namespace core = knp::core;
 namespace detail
 {
 
-template <typename T>
-void register_direct_converter()
-{
-    // Need to register converter.
-    // Without this extract from the different module can't convert Python object to C++ object.
-    py::converter::registry::insert(
-        [](PyObject *p) { return static_cast<void *>(p); }, py::type_id<T>(),
-        &py::converter::registered_pytype_direct<T>::get_pytype);
-}
-
-
 template <typename F>
 struct function_traits : public function_traits<decltype(&F::operator())>
 {
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 583878f..1bb7661 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -83,8 +83,7 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 
 namespace nt = knp::neuron_traits;
 
-#define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type)                     \
-    detail::register_direct_converter<nt::neuron_parameters<knp::neuron_traits::neuron_type>>(); \
+#define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type) \
     py::implicitly_convertible<core::Population<nt::neuron_type>, core::AllPopulationsVariant>();
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 3c963a2..0c825f3 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -90,8 +90,7 @@ void projection_synapses_add_wrapper(
 
 namespace st = knp::synapse_traits;
 
-#define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type)                       \
-    detail::register_direct_converter<st::synapse_parameters<knp::synapse_traits::synapse_type>>(); \
+#define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type) \
     py::implicitly_convertible<core::Projection<st::synapse_type>, core::AllProjectionsVariant>();
 
 
-- 
2.43.0


From 88d61ad59ed36b069316b87834fe9c42186be8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:24 +0000
Subject: [PATCH 30/43] fix: Python population index is checked

---
 knp/python-framework/impl/core/cpp/population.cpp |  6 ++----
 knp/python-framework/impl/core/cpp/population.h   | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index 392fb4e..def8554 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -75,10 +75,8 @@
             .def("__iter__", py::iterator<core::Population<nt::neuron_type>>(), "Get an iterator of the population.") \
             .def("__len__", &core::Population<nt::neuron_type>::size, "Count number of neurons in the population.")   \
             .def(                                                                                                     \
-                "__getitem__",                                                                                        \
-                static_cast<core::Population<nt::neuron_type>::NeuronParameters &(                                    \
-                    core::Population<nt::neuron_type>::*)(size_t)>(&core::Population<nt::neuron_type>::operator[]),   \
-                py::return_internal_reference<>(), "Get parameter values of a neuron with the given index.")          \
+                "__getitem__", &population_getitem_wrapper<nt::neuron_type>, py::return_internal_reference<>(),       \
+                "Get parameter values of a neuron with the given index.")                                             \
             .add_property(                                                                                            \
                 "uid",                                                                                                \
                 make_handler([](core::Population<nt::neuron_type> &population) { return population.get_uid(); }),     \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 1bb7661..a6927c5 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -81,6 +81,20 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 };
 
 
+template <typename ElemType>
+typename core::Population<ElemType>::NeuronParameters &population_getitem_wrapper(
+    core::Population<ElemType> &population, size_t index)
+{
+    if (index >= population.size())
+    {
+        PyErr_SetString(PyExc_IndexError, "Neuron index is out of range.");
+        py::throw_error_already_set();
+    }
+
+    return population[index];
+}
+
+
 namespace nt = knp::neuron_traits;
 
 #define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type) \
-- 
2.43.0


From 2a5d2e95fa528a34791a9f91bf5ba4ff50e57356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 31/43] fix: Python projection returns a synapse by its index

A synapse is a tuple, which has no Python class to refer to: the call always raised.
---
 knp/python-framework/impl/core/cpp/projection.cpp |  5 +----
 knp/python-framework/impl/core/cpp/projection.h   | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/projection.cpp b/knp/python-framework/impl/core/cpp/projection.cpp
index a8add8d..ffaaf01 100644
--- a/knp/python-framework/impl/core/cpp/projection.cpp
+++ b/knp/python-framework/impl/core/cpp/projection.cpp
@@ -107,10 +107,7 @@ py::class_<core::Synapse>(
             .def("__iter__", py::iterator<core::Projection<st::synapse_type>>(), "Get an iterator of the projection.") \
             .def("__len__", &core::Projection<st::synapse_type>::size, "Count number of synapses in the projection.")  \
             .def(                                                                                                      \
-                "__getitem__",                                                                                         \
-                static_cast<core::Projection<st::synapse_type>::Synapse &(                                             \
-                    core::Projection<st::synapse_type>::*)(size_t)>(&core::Projection<st::synapse_type>::operator[]),  \
-                py::return_internal_reference<>(),                                                                     \
+                "__getitem__", &projection_getitem_wrapper<st::synapse_type>,                                          \
                 "Get parameter values of a synapse with the given index.");  // NOLINT
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 0c825f3..8da1b27 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -88,6 +88,20 @@ void projection_synapses_add_wrapper(
 };
 
 
+template <typename ElemType>
+typename core::Projection<ElemType>::Synapse projection_getitem_wrapper(
+    core::Projection<ElemType> &projection, size_t index)
+{
+    if (index >= projection.size())
+    {
+        PyErr_SetString(PyExc_IndexError, "Synapse index is out of range.");
+        py::throw_error_already_set();
+    }
+
+    return projection[index];
+}
+
+
 namespace st = knp::synapse_traits;
 
 #define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type) \
-- 
2.43.0


From f1d036867af439d12f71a4b8dcd6f65cf6479cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 32/43] fix: backend predicate result is extracted before the
 Python object is released

---
 knp/python-framework/impl/core/cpp/backend_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/backend_wrapper.h b/knp/python-framework/impl/core/cpp/backend_wrapper.h
index 857011e..b7d64a3 100644
--- a/knp/python-framework/impl/core/cpp/backend_wrapper.h
+++ b/knp/python-framework/impl/core/cpp/backend_wrapper.h
@@ -207,7 +207,7 @@ void export_backend()
                         [&run_predicate](core::Step step)
                         {
                             auto res = py::call<py::object>(run_predicate.ptr(), step);
-                            return py::extract<bool>(res);
+                            return static_cast<bool>(py::extract<bool>(res));
                         });
                 }),
             "Start network execution on the backend.")
@@ -220,12 +220,12 @@ void export_backend()
                         [&pre_step](core::Step step)
                         {
                             auto res = py::call<py::object>(pre_step.ptr(), step);
-                            return py::extract<bool>(res);
+                            return static_cast<bool>(py::extract<bool>(res));
                         },
                         [&post_step](core::Step step)
                         {
                             auto res = py::call<py::object>(post_step.ptr(), step);
-                            return py::extract<bool>(res);
+                            return static_cast<bool>(py::extract<bool>(res));
                         });
                 }),
             "Start network execution on the backend.")
-- 
2.43.0


From d95382356828ee1f9ca268a3368607da98c8e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 33/43] fix: Python network and output channel keep their owner
 alive

---
 knp/python-framework/impl/base_framework/cpp/model.cpp          | 2 +-
 knp/python-framework/impl/base_framework/cpp/model_executor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model.cpp b/knp/python-framework/impl/base_framework/cpp/model.cpp
index cbe1ab9..e7408c1 100644
--- a/knp/python-framework/impl/base_framework/cpp/model.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model.cpp
@@ -33,7 +33,7 @@ void export_model()
         // .add_property("tags", &knp::framework::Model::get_tags)
         .add_property(
             "network",
-            py::make_function(&get_network_from_model, py::return_value_policy<py::reference_existing_object>()),
+            py::make_function(&get_network_from_model, py::return_internal_reference<>()),
             &set_network_to_model, "Network associated with model.")
         .add_property("input_channels", &get_model_input_channels, "Return all input channels UIDs.")
         .add_property("output_channels", &get_model_output_channels, "Return all output channels UIDs.");
diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
index 1f049f7..eb4f330 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
@@ -39,6 +39,6 @@ void export_model_executor()
         .def("stop_learning", &knp::framework::ModelExecutor::stop_learning, "Lock synapse weights.")
         .def("get_backend", &knp::framework::ModelExecutor::get_backend, "Get reference of backend object.")
         .def(
-            "get_output_channel", &get_output_channel, py::return_value_policy<py::reference_existing_object>(),
+            "get_output_channel", &get_output_channel, py::return_internal_reference<>(),
             "Get output channel reference.");
 }
-- 
2.43.0


From 3bfd0ba00a78c63e03dc76dc7da039f9ff6655be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 34/43] fix: Python is_reset property reads its own field

---
 knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
index f263c62..1a85a10 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
@@ -34,7 +34,7 @@ void export_altai_lif()
             "neuron receives a spike, the `potential` parameter takes a value by which the potential threshold is "
             "exceeded.")
         .add_property(
-            "is_reset", &alif_params::is_diff_,
+            "is_reset", &alif_params::is_reset_,
             "If `is_reset` flag is set to `true` and neuron potential exceeds its threshold value after the neuron "
             "receives a spike, the `potential` parameter takes a value of the `potential_reset_value` parameter.")
         .add_property(
-- 
2.43.0


From 36cbed0ef2296da1f341773c5fea65542feb12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 35/43] fix: Python network returns its populations and
 projections

The variants had no conversion to Python: these calls always raised.
---
 .../impl/base_framework/cpp/network.cpp           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/knp/python-framework/impl/base_framework/cpp/network.cpp b/knp/python-framework/impl/base_framework/cpp/network.cpp
index 18cbfdc..34ccaf2 100644
--- a/knp/python-framework/impl/base_framework/cpp/network.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/network.cpp
@@ -20,12 +20,27 @@
  */
 
 
+#include <variant>
+
 #include "common.h"
 #include "network_utility.h"
 
 
+template <class Variant>
+struct VariantToPython
+{
+    static PyObject *convert(const Variant &value)
+    {
+        return std::visit([](const auto &entity) { return py::incref(py::object(entity).ptr()); }, value);
+    }
+};
+
+
 void export_network()
 {
+    py::to_python_converter<knp::core::AllPopulationsVariant, VariantToPython<knp::core::AllPopulationsVariant>>();
+    py::to_python_converter<knp::core::AllProjectionsVariant, VariantToPython<knp::core::AllProjectionsVariant>>();
+
     py::class_<knp::framework::Network>(
         "Network", "The Network class is a definition of a neural network that contains populations and projections.")
         .def(py::init<const knp::core::UID&>())
-- 
2.43.0


From e02663806f1681873dc5a3dcefa50eb5bbd00ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 36/43] fix: Python lists are accepted where a list of UIDs or
 indexes is expected

Nothing converts a Python list to std::vector: these calls always raised.
---
 .../impl/base_framework/cpp/model_executor_utility.h  | 11 +++++++----
 knp/python-framework/impl/core/cpp/backend_wrapper.h  |  8 ++++++--
 knp/python-framework/impl/core/cpp/population.cpp     |  2 +-
 knp/python-framework/impl/core/cpp/population.h       |  7 +++++++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
index ae87104..9dbaf79 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
@@ -112,19 +112,22 @@ void start_model_executor_predicate(knp::framework::ModelExecutor &self, const p
 
 
 void add_executor_spike_observer(
-    knp::framework::ModelExecutor &self, const py::object &message_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &message_proc, const py::list &senders)
 {
     self.add_observer(
-        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}}, senders);
+        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}},
+        std::vector<knp::core::UID>(
+            py::stl_input_iterator<knp::core::UID>(senders), py::stl_input_iterator<knp::core::UID>()));
 }
 
 
 void add_executor_impact_observer(
-    knp::framework::ModelExecutor &self, const py::object &impact_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &impact_proc, const py::list &senders)
 {
     self.add_observer(
         std::function{BinaryFunction<void, std::vector<knp::core::messaging::SynapticImpactMessage>>{impact_proc}},
-        senders);
+        std::vector<knp::core::UID>(
+            py::stl_input_iterator<knp::core::UID>(senders), py::stl_input_iterator<knp::core::UID>()));
 }
 
 
diff --git a/knp/python-framework/impl/core/cpp/backend_wrapper.h b/knp/python-framework/impl/core/cpp/backend_wrapper.h
index b7d64a3..4cfbfcf 100644
--- a/knp/python-framework/impl/core/cpp/backend_wrapper.h
+++ b/knp/python-framework/impl/core/cpp/backend_wrapper.h
@@ -174,10 +174,14 @@ void export_backend()
             "load_all_projections", py::pure_virtual(&core::Backend::load_all_projections),
             "Add projections to backend.")
         .def(
-            "remove_projections", py::pure_virtual(&core::Backend::remove_projections),
+            "remove_projections",
+            make_handler([](core::Backend &self, const py::list &uids)
+                         { self.remove_projections(py_iterable_to_vector<core::UID>(uids)); }),
             "Remove projections with given UIDs from the backend.")
         .def(
-            "remove_populations", py::pure_virtual(&core::Backend::remove_populations),
+            "remove_populations",
+            make_handler([](core::Backend &self, const py::list &uids)
+                         { self.remove_populations(py_iterable_to_vector<core::UID>(uids)); }),
             "Remove populations with given UIDs from the backend.")
         // .def("get_current_devices",
         // py::pure_virtual(static_cast<std::vector<std::unique_ptr<core::Device>>&(core::Backend::*)()>(&core::Backend::get_current_devices)),
diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index def8554..da7227d 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -67,7 +67,7 @@
                 "Construct a population by running a neuron generator.")                                              \
             .def("add_neurons", &population_neurons_add_wrapper<nt::neuron_type>, "Add neurons to the population.")   \
             .def(                                                                                                     \
-                "remove_neurons", &core::Population<nt::neuron_type>::remove_neurons,                                 \
+                "remove_neurons", &population_neurons_remove_wrapper<nt::neuron_type>,                                \
                 "Remove neurons with given indexes from the population.")                                             \
             .def(                                                                                                     \
                 "remove_neuron", &core::Population<nt::neuron_type>::remove_neuron,                                   \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index a6927c5..4d1098a 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -81,6 +81,13 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 };
 
 
+template <typename ElemType>
+void population_neurons_remove_wrapper(core::Population<ElemType> &population, const py::object &indexes)
+{
+    population.remove_neurons(py_iterable_to_vector<size_t>(indexes));
+}
+
+
 template <typename ElemType>
 typename core::Population<ElemType>::NeuronParameters &population_getitem_wrapper(
     core::Population<ElemType> &population, size_t index)
-- 
2.43.0


From 9a8fd381513d0541dfc83d6dbe2f8a6a0cdacce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:27 +0000
Subject: [PATCH 37/43] fix: Python reads impacts of an impact message

---
 .../impl/core/cpp/synaptic_impact_message.cpp                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
index 308a5bc..5b29e25 100644
--- a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
+++ b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
@@ -41,6 +41,10 @@ void export_synaptic_impact()
             "Index of the postsynaptic neuron connected to the synapse.");
 
 
+    py::class_<std::vector<msg::SynapticImpact>>("SynapticImpacts", "List of synaptic impacts.")
+        .def(py::vector_indexing_suite<std::vector<msg::SynapticImpact>>());
+
+
     py::class_<msg::SynapticImpactMessage>("SynapticImpactMessage", "Structure of the synaptic impact message.")
         .def_readwrite("header", &msg::SynapticImpactMessage::header_, "Message header.")
         .def_readwrite(
-- 
2.43.0


From d4f772df6d674b29ff886dcf1cf1d95cc9622f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 38/43] fix: Python removal of neurons checks indexes

---
 .../impl/core/cpp/population.cpp              |  2 +-
 .../impl/core/cpp/population.h                | 33 +++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index da7227d..96544c3 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -70,7 +70,7 @@
                 "remove_neurons", &population_neurons_remove_wrapper<nt::neuron_type>,                                \
                 "Remove neurons with given indexes from the population.")                                             \
             .def(                                                                                                     \
-                "remove_neuron", &core::Population<nt::neuron_type>::remove_neuron,                                   \
+                "remove_neuron", &population_neuron_remove_wrapper<nt::neuron_type>,                                  \
                 "Remove a specific neuron from the population.")                                                      \
             .def("__iter__", py::iterator<core::Population<nt::neuron_type>>(), "Get an iterator of the population.") \
             .def("__len__", &core::Population<nt::neuron_type>::size, "Count number of neurons in the population.")   \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 4d1098a..205223b 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -82,22 +82,41 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 
 
 template <typename ElemType>
-void population_neurons_remove_wrapper(core::Population<ElemType> &population, const py::object &indexes)
+void population_check_index(const core::Population<ElemType> &population, size_t index)
 {
-    population.remove_neurons(py_iterable_to_vector<size_t>(indexes));
+    if (index >= population.size())
+    {
+        PyErr_SetString(PyExc_IndexError, "Neuron index is out of range.");
+        py::throw_error_already_set();
+    }
 }
 
 
 template <typename ElemType>
-typename core::Population<ElemType>::NeuronParameters &population_getitem_wrapper(
-    core::Population<ElemType> &population, size_t index)
+void population_neuron_remove_wrapper(core::Population<ElemType> &population, size_t index)
 {
-    if (index >= population.size())
+    population_check_index(population, index);
+    population.remove_neuron(index);
+}
+
+
+template <typename ElemType>
+void population_neurons_remove_wrapper(core::Population<ElemType> &population, const py::object &indexes)
+{
+    const auto neuron_indexes = py_iterable_to_vector<size_t>(indexes);
+    for (const auto index : neuron_indexes)
     {
-        PyErr_SetString(PyExc_IndexError, "Neuron index is out of range.");
-        py::throw_error_already_set();
+        population_check_index(population, index);
     }
+    population.remove_neurons(neuron_indexes);
+}
 
+
+template <typename ElemType>
+typename core::Population<ElemType>::NeuronParameters &population_getitem_wrapper(
+    core::Population<ElemType> &population, size_t index)
+{
+    population_check_index(population, index);
     return population[index];
 }
 
-- 
2.43.0


From 5e32110f5b856ba14ee91c89f437f815a273af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:50 +0000
Subject: [PATCH 39/43] fix: aligned projections stay within populations of any
 sizes

---
 .../knp/framework/projection/synapse_generators.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..be9ada5 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -99,21 +99,20 @@ template <typename SynapseType>
     return [presynaptic_pop_size, postsynaptic_pop_size,
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
+        if (!presynaptic_pop_size || !postsynaptic_pop_size) return std::nullopt;
+
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From bd6f0fcad3de59f51980fa887707f8edffd210d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 40/43] fix: a message read without data has no data

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..4942916 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -82,8 +82,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
-
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
     {
-- 
2.43.0


From 4d6bcd2ff30b993b1440bbe3e0c3a305b067c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 41/43] fix: BLIFAT neurons burst once when the bursting period
 is over

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..6457c6c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,9 +37,8 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_)
     {
-        --neuron.bursting_phase_;
         neuron.potential_ += neuron.reflexive_weight_;
     }
 
@@ -59,7 +58,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 905e80d9fe500078a58a66452acefe720d0e43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 42/43] fix: spikes within the interspike interval continue the
 spiking period

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index a1f0cbc..7e6f398 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -107,13 +107,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From 53c7cdc709829f7ad32621c42da81bdb86ddf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 43/43] fix: the reward of stability counts steps before the
 maximum interval

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h   | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..9080a8c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,8 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference =
+                    std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0

