From 55245ae749b8ae303cfb56a98437c27c4c53004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 01/43] fix: do not finish WaitHandler::blocking_disable while
 a thread that was waiting still uses the handler

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..2610401 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,10 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         wait_condition_variable_.notify_all();
     }
+
+    // The last thread that stopped waiting may still hold the mutex: wait until it has released it, so this object
+    // is not used by any of these threads after this method finishes (e.g. it could be destroyed).
+    std::lock_guard<std::mutex> wait_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From 2d67a6454495937c899ddd1027ec1c2e5b15d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 02/43] fix: release the threads in
 CounterWaitHandler::wait_threshold_reached when it is disabled or destroyed

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp  | 14 ++++++++++++--
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp      | 10 ++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..85ca5d6 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -67,7 +67,11 @@ public:
             CounterType initial_value,
             bool enabled = true);
 
-    //! Default constructor
+    /**
+     * @brief Destroy the Counter Wait Handler object
+     *
+     * It disables and blocks until every thread has finished.
+     */
     CPP_UTILS_DllAPI ~CounterWaitHandler();
 
     /////
@@ -75,12 +79,18 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    /**
+     * @brief Override \c WaitHandler::disable
+     *
+     * It also awakes the threads waiting for the threshold to be reached.
+     */
+    CPP_UTILS_DllAPI void disable() noexcept override;
+
     /////
     // Wait methods
 
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..5252f6a 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,16 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Every thread must leave before destroying threshold_reached_cv_
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+
+    // Awake also the threads that wait for the threshold
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
-- 
2.43.0


From 6bb4be872b432a232cc8838f69a37f2d190c1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 03/43] fix: notify the threads in
 CounterWaitHandler::wait_threshold_reached when an increment reaches the
 threshold

---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 5252f6a..56eda4b 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -143,6 +143,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If the threshold is reached, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From 9076db09c70e4dafd8b66cdccf746992c779ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 04/43] fix: run again the tasks of a SlotThreadPool that is
 enabled after being disabled

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..5313263 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // Enable Task Queue, as it has been disabled if this object has been disabled before
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From fe79bd834b5fc884ddc85ad5b5b7a5b055c17644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 05/43] fix: do not destroy an event callback that is running
 when it sets or unsets the callback

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..0b76d5f 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -183,7 +183,9 @@ void EventHandler<Args...>::event_occurred_(
 
     if (is_callback_set_.load())
     {
-        callback_(args ...);
+        // Call a copy, so the callback is not destroyed while running if it sets or unsets the callback of this object
+        std::function<void(Args...)> callback = callback_;
+        callback(args ...);
 
         // TODO: decide if a disabled event should add number of events registered
         {
-- 
2.43.0


From e4f272beabdf1b0e227a98bf1ffeef25f19c8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 06/43] fix: handle a signal whose notification to the signal
 thread gets lost

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..dfcfaa2 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,11 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // The counter is incremented without taking the mutex (see signal_received_), so the notification of a signal
+        // may get lost. Waiting with a timeout guarantees that such signal is handled anyway.
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From 0089d731a90e3ffdf0830d103e9b5f5f9bb0fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 07/43] fix: do not move forward in an empty command history

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..cf4f93f 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,6 +45,11 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
+    if (command_history_.empty())
+    {
+        return "";
+    }
+
     if (current_index_ < command_history_.size() - 1)
     {
         ++current_index_;
-- 
2.43.0


From ce4a5bf0fa132fa77123a5d47c999f0fc35e7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 08/43] fix: do not divide by zero when the width of the
 terminal is unknown

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..e1642f1 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // Not a terminal, or a terminal whose size is unknown
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 09bfd5459461042a81f7cd0685a79229e07fd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 09/43] fix: stop reading the standard input when it ends
 instead of taking its end for a key

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index e1642f1..578fe22 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -273,6 +273,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
 {
     set_terminal_mode_(true);
 
+    bool end_of_input = false;
     auto awake_reason = activation_times_.wait_and_decrement();
     while (awake_reason == AwakeReason::condition_met)
     {
@@ -304,8 +305,14 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
+            if (c == EOF)
+            {
+                // There is no more input and there will not be
+                end_of_input = true;
+                break;
+            }
             if (c == '\033')
             {
                 getchar(); // Ignore next character '['
@@ -567,6 +574,11 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
         }
 
+        if (end_of_input)
+        {
+            break;
+        }
+
         awake_reason = activation_times_.wait_and_decrement();
     }
 
-- 
2.43.0


From 84c388f331592267556f9f9ded40878d597a2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 10/43] fix: consume log entries neither while a log event
 handler is being destroyed nor without its threshold

---
 .../cpp_utils/event/LogEventHandler.hpp        | 17 +++++++++++++++++
 .../cpp_utils/event/LogSevereEventHandler.hpp  |  3 +++
 .../src/cpp/event/logging/LogEventHandler.cpp  | 18 ++++++++++++++++--
 .../event/logging/LogSevereEventHandler.cpp    | 12 +++++++++++-
 4 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
index 88a29ed..eda08b1 100644
--- a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
@@ -76,6 +76,23 @@ public:
 
 protected:
 
+    //! Tag of the constructor that does not register the LogConsumer.
+    struct NotRegistered
+    {
+    };
+
+    /**
+     * Construct without callback and without registering the LogConsumer.
+     *
+     * For derived classes that override \c consume_ , which call \c register_consumer_ once they are constructed.
+     * They must also reset \c connection_callback_ when destroyed.
+     */
+    CPP_UTILS_DllAPI LogEventHandler(
+            const NotRegistered&);
+
+    //! Register in Log the LogConsumer that will call this object.
+    CPP_UTILS_DllAPI void register_consumer_();
+
     /**
      * @brief Consumes an \c Entry given from the \c LogConsumerConnection .
      *
diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..0c5888d 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,9 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    //! Destroy the LogSevereEventHandler object, so no more logs are consumed.
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..4a62452 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -28,6 +28,13 @@ namespace utils {
 namespace event {
 
 LogEventHandler::LogEventHandler()
+    : LogEventHandler(NotRegistered())
+{
+    register_consumer_();
+}
+
+LogEventHandler::LogEventHandler(
+        const NotRegistered&)
     : EventHandler<utils::Log::Entry>()
     , connection_callback_(
         new LogConsumerConnectionCallbackType(
@@ -37,8 +44,6 @@ LogEventHandler::LogEventHandler()
                 this->consume_(entry);
             }))
 {
-    // Create LogConsumer and register it
-    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
 }
 
 LogEventHandler::LogEventHandler(
@@ -51,9 +56,18 @@ LogEventHandler::LogEventHandler(
 
 LogEventHandler::~LogEventHandler()
 {
+    // Wait for the entry being consumed, and do not consume any other
+    connection_callback_.reset();
+
     unset_callback();
 }
 
+void LogEventHandler::register_consumer_()
+{
+    // Create LogConsumer and register it
+    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
 void LogEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..fa452ac 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,9 +26,13 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler(NotRegistered())
     , threshold_(threshold)
 {
+    // Registered now because the entries consumed before would not be filtered
+    register_consumer_();
+    set_callback(callback);
+
     // If threshold is lower than default log level (ERROR) set the filter lower
     if (threshold > utils::Log::Kind::Error)
     {
@@ -36,6 +40,12 @@ LogSevereEventHandler::LogSevereEventHandler(
     }
 }
 
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // The entries consumed from now on would not be filtered
+    connection_callback_.reset();
+}
+
 void LogSevereEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
-- 
2.43.0


From 8b4e97eef815f94c867f9cad43043d7f0a88301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 11/43] fix: do not lose the notification that ends the
 callback thread of FileWatch

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..756c954 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // The callback thread reads it to decide whether to wait: without the mutex it could miss the notification
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From 95d3cb00be3167ec681c8868ab44bd77b73be30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 12/43] fix: make the check of the validity of a LesseePtr free
 of data races

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..2e5f95d 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -125,8 +125,8 @@ protected:
     // INTERNAL VARIABLES
     ////////////////////////////
 
-    //! Pointer to the internal data
-    T* reference_;
+    //! Pointer to the internal data. Atomic because its validity is checked without taking the mutex.
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..a266ce8 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.exchange(nullptr))
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
@@ -79,7 +79,7 @@ T* InternalPtrData<T>::operator ->() const noexcept
 template<typename T>
 T& InternalPtrData<T>::operator *() const noexcept
 {
-    return *reference_;
+    return *reference_.load();
 }
 
 template<typename T>
-- 
2.43.0


From 05d9759731622e18f0a18d375c0e68a30c7a1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 13/43] fix: do not destroy the data of an OwnerPtr that is
 moved to itself

---
 cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp
index 10a8059..a028cd6 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp
@@ -56,11 +56,14 @@ template<typename T>
 OwnerPtr<T>& OwnerPtr<T>::operator =(
         OwnerPtr<T>&& other) noexcept
 {
-    // In case this Ptr had data inside, it must be deleted
-    reset();
+    if (this != &other)
+    {
+        // In case this Ptr had data inside, it must be deleted
+        reset();
 
-    this->data_reference_ = std::move(other.data_reference_);
-    // Move a shared ptr reset the internal ptr, so other points to null
+        this->data_reference_ = std::move(other.data_reference_);
+        // Move a shared ptr reset the internal ptr, so other points to null
+    }
 
     return *this;
 }
-- 
2.43.0


From 672e9c919b415f56989234d76e3669b05c198b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 14/43] fix: release the data guarded by a GuardedPtr when
 another one is moved to it

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp       |  2 +-
 .../cpp_utils/memory/impl/GuardedPtr.ipp       | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..339ad4c 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -65,7 +65,7 @@ public:
 
     //! Move operator not allowed
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..eaa0c93 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -41,6 +41,24 @@ GuardedPtr<T>::~GuardedPtr()
     }
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // The data guarded so far is no longer guarded by this object
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+
+        data_reference_ = std::move(other.data_reference_);
+    }
+
+    return *this;
+}
+
 template<typename T>
 T* GuardedPtr<T>::operator ->() const noexcept
 {
-- 
2.43.0


From fabee0fc4282842b993894572312f594106d23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 15/43] fix: keep the data locked while it is used by operator
 -> of a LesseePtr

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
index cc1141d..3231f77 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
@@ -115,11 +115,11 @@ public:
      * This operator will acces the internal data if this still exist, and lock it while using.
      * If the data do not further exist, it will raise an exception.
      *
-     * @return Internal data ptr
+     * @return Guard of the internal data, that lives until the end of the expression that uses it
      *
      * @throw ValueAccessException in case internal data no longer exists.
      */
-    T* operator ->() const;
+    GuardedPtr<T> operator ->() const;
 
     /**
      * @brief Access operator to internal ptr with exception calls in failure cases.
diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 7e61dca..6b1d119 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -39,9 +39,9 @@ LesseePtr<T>::LesseePtr(
 ///////////////////////
 
 template<typename T>
-T* LesseePtr<T>::operator ->() const
+GuardedPtr<T> LesseePtr<T>::operator ->() const
 {
-    return this->lock_with_exception().operator ->();
+    return this->lock_with_exception();
 }
 
 template<typename T>
-- 
2.43.0


From 32f9bcade87a7352047432bedd64944c24b1285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 16/43] fix: define the constructor of LesseePtr from an
 OwnerPtr

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 6b1d119..91b4af0 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -34,6 +34,17 @@ LesseePtr<T>::LesseePtr(
 {
 }
 
+///////////////////////
+// CONSTRUCTORS
+///////////////////////
+
+template<typename T>
+LesseePtr<T>::LesseePtr(
+        const OwnerPtr<T>& owner) noexcept
+    : LesseePtr<T>(owner.lease())
+{
+}
+
 ///////////////////////
 // ACCESS DATA METHODS
 ///////////////////////
-- 
2.43.0


From eca46fcfd704cb64b2aee5d63f78ed5f4bba4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 17/43] fix: get the first element of a SafeDatabase with the
 database locked

---
 .../include/cpp_utils/collection/database/impl/SafeDatabase.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..cb996c9 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -94,6 +94,8 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
-- 
2.43.0


From 654645d807923efbe16070a4fc1c952c42ab729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 18/43] fix: lock the database for every copy of a
 SafeDatabaseIterator

---
 .../cpp_utils/collection/database/SafeDatabase.hpp       | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..50c3a87 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! The copy keeps the database locked on its own account.
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index cb996c9..9c6ff99 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 311885f1f56298a93578b50825c223d356b585e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 19/43] fix: destroy the object of a Heritable as the class it
 was created with

---
 cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
index d017976..d22b3c9 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
@@ -40,7 +40,7 @@ template <typename T>
 template <typename U>
 Heritable<T>::Heritable(
         U* ptr)
-    : data_ptr_(static_cast<T*>(ptr))
+    : data_ptr_(std::static_pointer_cast<T>(std::shared_ptr<U>(ptr)))
 {
 }
 
-- 
2.43.0


From af6f2ea165d9917d7aaa087c6b15e3721453d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 20/43] fix: count the levels below a node in TreeNode::depth

depth() took the maximum of the depths of the branches without adding their level, so it was
always 0, and used a macro that it does not include.
---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..6cdfc7d 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -20,6 +20,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 namespace eprosima {
 namespace utils {
 
@@ -94,8 +96,8 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
-        max_value = MAX(max_value, child_value);
+        // The branch is one level below this node
+        max_value = std::max(max_value, b.depth() + 1);
     }
     return max_value;
 }
-- 
2.43.0


From a4f48dcf65cbddbc96f42b1a5f6ee58d75b41c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 21/43] fix: make UnboundedPool usable and destroyable by the
 IPool interface

UnboundedPool inherited IPool privately, so create_pool did not compile; IPool had no virtual
destructor, so destroying a pool by its interface was undefined; and the constructor of
PoolConfiguration was not defined anywhere.
---
 cpp_utils/include/cpp_utils/pool/IPool.hpp         | 10 +++++++++-
 cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index c3ef536..9bca9cf 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -31,7 +31,12 @@ struct PoolConfiguration
     PoolConfiguration(
             unsigned int initial_size,
             unsigned int maximum_size,
-            unsigned int batch_size) noexcept;
+            unsigned int batch_size) noexcept
+        : initial_size(initial_size)
+        , maximum_size(maximum_size)
+        , batch_size(batch_size)
+    {
+    }
 
     //! Initial number of elements when preallocating data.
     unsigned int initial_size = 0;
@@ -59,6 +64,9 @@ class IPool
 {
 public:
 
+    //! Virtual destructor, as pools are used (and destroyed) by this interface.
+    virtual ~IPool() = default;
+
     /**
      * @brief Get a new element from the pool.
      *
diff --git a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
index 0522a40..bf7311d 100644
--- a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
@@ -42,7 +42,7 @@ namespace utils {
  * @tparam T Type of the elements in the pool.
  */
 template <typename T>
-class UnboundedPool : IPool<T>
+class UnboundedPool : public IPool<T>
 {
 public:
 
-- 
2.43.0


From 8c82d54d473eb1e7db44e3a5e943be59761d4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 22/43] fix: do not overflow halfway in
 arithmetic_progression_sum

The double of the sum was calculated in 32 bits, so sums from 2^31 up were wrong even though they fit.
---
 cpp_utils/src/cpp/math/math_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..ef7bbc3 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,9 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // The double of the sum may not fit in 32 bits even when the sum does
+    const uint64_t double_mean = 2ull * lowest + static_cast<uint64_t>(steps - 1) * interval;
+    return static_cast<unsigned int>((double_mean * steps) / 2);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From 96c6013b6ffbea071e7a87ae877647883e4f6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 23/43] fix: make replace_all end for every argument

It replaced again in what it had already replaced, so it never ended when replace_by contains to_replace
or to_replace is empty.
---
 cpp_utils/src/cpp/utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..810380b 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -278,8 +278,18 @@ unsigned int replace_all(
         std::string const& replace_by)
 {
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+
+    if (to_replace.empty())
     {
+        return replacements;
+    }
+
+    // Look for the next one after what has been replaced, so it ends even when replace_by contains to_replace
+    std::size_t pos = 0;
+    while ((pos = st.find(to_replace, pos)) != std::string::npos)
+    {
+        st.replace(pos, to_replace.length(), replace_by);
+        pos += replace_by.length();
         replacements++;
     }
     return replacements;
-- 
2.43.0


From 1a4988bd761789a6487ecceabce9de9dc78ad393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 24/43] fix: make split_string end when the delimiter is empty

It found the empty delimiter in the same position forever, until the memory was exhausted.
---
 cpp_utils/src/cpp/utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 810380b..ca3f7b3 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -358,6 +358,14 @@ std::vector<std::string> split_string(
         const std::string& delimiter)
 {
     std::vector<std::string> result;
+
+    // An empty delimiter divides nothing
+    if (delimiter.empty())
+    {
+        result.push_back(source);
+        return result;
+    }
+
     int start = 0;
     int end = source.find(delimiter);
     while (end != -1)
-- 
2.43.0


From 74a7df5f37ece90d35d821d6f25f9b5982fa49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 25/43] fix: measure numbers by their length in
 number_trailing_zeros_format

It compared with 10^n_chars in 32 bits, which overflows from 10 chars on (throwing for numbers that fit, and
dividing by zero from 32 chars on), took negative numbers as huge ones, and put the zeros before the sign.
---
 cpp_utils/src/cpp/utils.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index ca3f7b3..3dc786b 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -313,19 +313,19 @@ std::string number_trailing_zeros_format(
         unsigned int n_chars,
         bool allow_more_chars /* = true */)
 {
-    if (!allow_more_chars)
+    // The zeros go between the sign and the digits
+    std::ostringstream os;
+    os << std::setw(n_chars) << std::setfill('0') << std::internal << value_to_print;
+    const std::string result = os.str();
+
+    if (!allow_more_chars && result.length() > n_chars)
     {
-        if (value_to_print / fast_exponential(10, n_chars) > 0)
-        {
-            throw PreconditionNotMet(STR_ENTRY
-                          << "Number <" << value_to_print << ">"
-                          << " has more than <" << n_chars << "> chars");
-        }
+        throw PreconditionNotMet(STR_ENTRY
+                      << "Number <" << value_to_print << ">"
+                      << " has more than <" << n_chars << "> chars");
     }
 
-    std::ostringstream os;
-    os << std::setw(n_chars) << std::setfill('0') << value_to_print;
-    return os.str();
+    return result;
 }
 
 std::vector<std::string> split_string(
-- 
2.43.0


From c3b8f4e4e515ded2d31a05b272aecb86a8a3e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 26/43] fix: convert exactly every quantity in to_bytes

The product was calculated in double, so it lost a byte in quantities as 2.01KB (2009); and the limit was an
integer division converted to double, so quantities over it were converted to 0 bytes (18446744073709551616B) and
others under it were rejected (16383.5PiB).
---
 cpp_utils/src/cpp/utils.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 3dc786b..e8569f5 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -150,9 +150,18 @@ std::uint64_t to_bytes(
                   "The quantity is not in the expected format. It should be a rational number followed by a unit (e.g. 10MB).");
     }
 
-    // Extract the number
-    std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
+    // Extract the number (its whole part and its decimals)
+    const std::string number_str = matches[1].str();
+    const std::size_t point = number_str.find('.');
+    std::uint64_t whole = 0;
+    try
+    {
+        whole = std::stoull(number_str.substr(0, point));
+    }
+    catch (const std::out_of_range&)
+    {
+        throw std::invalid_argument("The number is too large to be converted to bytes.");
+    }
 
     // Extract the unit
     std::string unit_str = matches[3].str();
@@ -166,17 +175,22 @@ std::uint64_t to_bytes(
 
     const auto unit = units.at(unit_str);
 
+    // Calculate the bytes of the decimals, from the last one, so they are not rounded
+    std::uint64_t decimals = 0;
+    for (std::size_t i = number_str.size(); point != std::string::npos && i > point + 1; --i)
+    {
+        decimals = ((number_str[i - 1] - '0') * unit + decimals) / 10;
+    }
+
     // Check whether the product of number * unit overflows
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    if (whole > ((std::numeric_limits<std::uint64_t>::max)() - decimals) / unit)
     {
         throw std::invalid_argument("The number is too large to be converted to bytes.");
     }
 
     // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
-
-    return bytes;
+    return whole * unit + decimals;
 }
 
 std::string from_bytes(
-- 
2.43.0


From 9165accb2c872e6852d5cb70bbcc396b4073285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 27/43] fix: do not overflow the accumulators of base64

Signed overflow, as the bits already used are never removed from them.
---
 cpp_utils/src/cpp/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index e8569f5..338469e 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -398,7 +398,8 @@ std::string base64_encode(
 {
     std::string out;
 
-    int val = 0, valb = -6;
+    unsigned int val = 0;
+    int valb = -6;
     for (unsigned char c : in)
     {
         val = (val << 8) + c;
@@ -432,7 +433,8 @@ std::string base64_decode(
         T[base64_alphabet[i]] = i;
     }
 
-    int val = 0, valb = -8;
+    unsigned int val = 0;
+    int valb = -8;
     for (unsigned char c : in)
     {
         if (T[c] == -1)
-- 
2.43.0


From 093a5e23520e26e409d4d088bb712b71cabc011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 28/43] fix: do not read before an empty string in
 demangle_if_ros_type

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..59bbb45 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string.back() != '_')
     {
         // not a ROS type
         return dds_type_string;
-- 
2.43.0


From c3b58addd073d9eb2469e98a2ec798fe067773a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 29/43] fix: reject service types with a suffix that is not at
 the end in demangle_service_type_only

The position of a _Request_ that is not at the end was taken as if it was the suffix.
---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 59bbb45..a073f1e 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -300,7 +300,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From d38d8d370651c3fea7ac0faec29d7143254a4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 30/43] fix: convert the second before the epoch in
 string_to_timestamp

Its value is the one that mktime and timegm return in case of error.
---
 cpp_utils/src/cpp/time/time_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..0aa644a 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -133,6 +133,9 @@ Timestamp string_to_timestamp(
                       ".");
     }
 
+    // mktime and timegm set the day of the week unless they fail
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -152,7 +155,8 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    // -1 alone is not an error, but the second before the epoch
+    if ((time_t)-1 == utc_time && tm.tm_wday == -1)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From 635a3ff4335cf980de4a6bd6cdd70e2356403adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 31/43] fix: let container_to_stream print elements that are
 not pointers

The branch that dereferences the element was compiled for every type, so no container of other elements compiled.
---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..3003c4e 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,25 +19,36 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+// One function for each kind of element, as only elements that are pointers can be dereferenced
+template <typename T>
+std::ostream& element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::true_type /* is a pointer */)
+{
+    return os << (*element);
+}
+
+template <typename T>
+std::ostream& element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::false_type /* is not a pointer */)
+{
+    return os << element;
+}
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
-
-    return os;
+    return element_to_stream_(os, element, std::integral_constant<bool, Ptr>());
 }
 
 template <typename T, bool Ptr /* = false */>
-- 
2.43.0


From ba3ce9d0af9b5aae55f6deee995af6e1106094ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 32/43] fix: mangle services in a namespace

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index a073f1e..1c46dc6 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,8 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
-    if (topic_name_position != 0)
+    if (topic_name.rfind("/", 0) != 0)
     {
         return "";
     }
-- 
2.43.0


From 9babdd2373b211cfb0bc70cae05ea79d11716659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 33/43] fix: keep what follows a null character in Formatter

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 45389ff39e1a2b8d6cf73a62e69183aec537b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 34/43] fix: keep the blanks after an opening quote in
 CommandReader

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..7824081 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -66,7 +66,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
 
             // Keep joining until we find a string ending with a quote
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() == 1 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
@@ -75,7 +75,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             // a closing quote (") or not. If it is a closing quote
             // remove it from the string (value = 2)
             // otherwise keep all the string (value = 1)
-            int tmp = joined[joined.size() - 1] == '"' ? 2 : 1;
+            int tmp = (joined.size() > 1 && joined.back() == '"') ? 2 : 1;
             result.push_back(joined.substr(1, joined.size() - tmp));
         }
         else
-- 
2.43.0


From a23524b5c7b48a4baf39c015d54f3094cd6bc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 35/43] fix: stop reading before the queue of commands is
 destroyed in CommandReader

---
 .../include/cpp_utils/user_interface/CommandReader.hpp      | 6 +++---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..0ba63c5 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,9 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    //! Event Handler used to read from stdin. It uses \c commands_read_ until it is destroyed.
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 7824081..fdc139b 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 229b103319ad00f1b3bf2c8f29e55374d09c3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 36/43] fix: include functional for the deleter of OwnerPtr

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index 2e5f95d..043fcf4 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <functional>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
-- 
2.43.0


From fdce671c9d87d6efbc25a18386ade255013e2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 37/43] fix: let refactor_values of Builder take a map from
 keys to values

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 78555ed43b3925acca19eff4d47eb2ee0fae0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 38/43] fix: include the macros Builder uses

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index 57e1c3b..7446e5a 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -20,7 +20,11 @@
 
 #pragma once
 
+#include <typeinfo>
+
 #include <cpp_utils/exception/ValueNotAllowedException.hpp>
+#include <cpp_utils/Formatter.hpp>
+#include <cpp_utils/macros/macros.hpp>
 
 namespace eprosima {
 namespace utils {
-- 
2.43.0


From 63bf48c2406c6d80d2068595a280e57a9a60d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 39/43] fix: parenthesise MAX and MIN

---
 cpp_utils/include/cpp_utils/macros/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/macros/macros.hpp b/cpp_utils/include/cpp_utils/macros/macros.hpp
index f0d0e96..949d297 100644
--- a/cpp_utils/include/cpp_utils/macros/macros.hpp
+++ b/cpp_utils/include/cpp_utils/macros/macros.hpp
@@ -75,8 +75,8 @@ namespace utils {
  */
 #define TYPE_NAME(x) typeid(x).name()
 
-#define MAX(x, y) x < y ? y : x
-#define MIN(x, y) x > y ? y : x
+#define MAX(x, y) ((x) < (y) ? (y) : (x))
+#define MIN(x, y) ((x) > (y) ? (y) : (x))
 
 /**
  * @brief Standarize a common way to check if the OS is windows.
-- 
2.43.0


From 07fde8cad544cf0bcb257e43835cb1f888ffe6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 40/43] fix: release the lock while blocking_disable waits for
 the threads waiting

---
 py_utils/py_utils/wait/WaitHandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..ccdf20b 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -136,6 +136,9 @@ class WaitHandler:
                 timeout)
 
             self._n_waiting_threads -= 1
+            if self._n_waiting_threads == 0:
+                # Awake those in blocking_disable
+                self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
@@ -159,8 +162,9 @@ class WaitHandler:
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
         self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._condition.notify_all()
+        # The lock is released while waiting, so the threads waiting can leave
+        self._condition.wait_for(lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 8843191cb7e39f3ecf846ca36abb1bb92c0ac28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 41/43] fix: replace the format of CustomLogger instead of
 adding another handler

---
 py_utils/py_utils/logging/log_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..c979a67 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,8 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        self._stream_handler = logging.StreamHandler()
+        self.addHandler(self._stream_handler)
         self.set_format()
         self.set_log_level(log_level)
 
@@ -47,10 +49,7 @@ class CustomLogger(logging.Logger):
             self,
             format: str = '[%(asctime)s][%(name)s][%(levelname)s] %(message)s'):
         """Modifies format for logger."""
-        l_format = logging.Formatter(format)
-        l_handler = logging.StreamHandler()
-        l_handler.setFormatter(l_format)
-        self.addHandler(l_handler)
+        self._stream_handler.setFormatter(logging.Formatter(format))
 
     def set_log_level(
             self,
-- 
2.43.0


From c894af52038cca07465cefc6b2221961a1fd6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 42/43] fix: let changes of level of CustomLogger take effect
 after it has been used

---
 py_utils/py_utils/logging/log_utils.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index c979a67..70100b8 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -57,6 +57,19 @@ class CustomLogger(logging.Logger):
         """Modifies logger level."""
         self.setLevel(log_level)
 
+    def isEnabledFor(
+            self,
+            level):
+        """
+        Whether a message of this level is logged.
+
+        The answer must not be cached (as the parent class does) because the logging module
+        only clears the cache of the loggers that it has created itself.
+        """
+        return (not self.disabled
+                and level > self.manager.disable
+                and level >= self.getEffectiveLevel())
+
     def activate_debug(self):
         """Modifies logger level so it accepts everything equalt or greater than DEBUG."""
         self.set_log_level(logging.DEBUG)
-- 
2.43.0


From 022532bce9b33c61983ad8874a799a13a37879bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 43/43] fix: include atomic for the reference of
 InternalPtrData

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index 043fcf4..e5442a2 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
-- 
2.43.0

