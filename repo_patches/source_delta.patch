From 6510ba158db1636ee4b2877a872c12d414e2cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 01/32] fix: make task_scheduler start/stop atomic with respect
 to the registry and the scheduler thread

stop() notified the scheduler thread without holding the mutex and cleared the
tasks only after the pool was stopped: the wakeup could be lost (stop hanging
until the next due time or forever), a task added concurrently could survive the
stop, and concurrent start/stop could terminate on a joinable thread.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  3 ++
 sdk/src/task_scheduler.cpp                  | 34 +++++++++++++--------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..70f5bc3 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -24,6 +24,7 @@
 #include <condition_variable>
 #include <future>
 #include <map>
+#include <mutex>
 #include <optional>
 #include <string>
 
@@ -425,6 +426,8 @@ public:
 
 private:
     tc::sdk::thread_pool _tp;
+    std::mutex _is_running_mtx;
+    bool _is_running{false};
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..8bc40fa 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,22 +29,27 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock running_lock(_is_running_mtx);
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        std::unique_lock lock(_update_tasks_mtx);
+        while (_is_running)
         {
-            std::unique_lock lock(_update_tasks_mtx);
-
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +62,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -71,20 +76,23 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
+    std::scoped_lock running_lock(_is_running_mtx);
 
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-    return true;
+    return _tp.stop();
 }
 
 size_t task_scheduler::tasks_size()
@@ -169,12 +177,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_running)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From dafcd9ae9a8b6de0d3d6bbfd65d3d129f83a8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 02/32] fix: refuse non-positive task intervals in
 task_scheduler

A recurring task with an interval <= 0 made the scheduler thread (or
update_interval) loop forever while holding the mutex.
---
 sdk/src/task_scheduler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 8bc40fa..3f6391e 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -153,6 +153,9 @@ std::optional<sdk::clock::duration> task_scheduler::get_interval(const std::stri
 
 bool task_scheduler::update_interval(const std::string& task_id, interval_t interval)
 {
+    if (interval <= interval_t::zero())
+        return false;
+
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
@@ -177,6 +180,9 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
+    if (st.interval().has_value() && st.interval().value() <= interval_t::zero())
+        return false;
+
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
-- 
2.43.0


From 706dd8e82424a10136c8d9c3ce73c7bc9e91f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 03/32] fix: identify events by exact name and ordered argument
 types

The key of an event was its name followed by the decimal sum of the type hash
codes: signatures with the same types in another order collided (a handler was
then called through a wrong type), and remove_event removed every event whose
name merely begins with the given one.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 21 ++++++++-----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..db6fce8 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,12 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -177,23 +179,18 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // An event is identified by its name and by the ordered list of its (decayed) argument types.
+    using event_key_t = std::pair<std::string, std::vector<std::type_index>>;
+
+    std::map<event_key_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     static unsigned long handler_id;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_key_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), {std::type_index(typeid(std::decay_t<Args>))...}};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..0aa6e62 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -50,7 +50,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [&event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 8ef6212e50472f063eb8b4f0796dd1b5783d6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 04/32] fix: number event handlers per event_dispatcher

The handler id counter was shared by all dispatchers without synchronisation and
reset by the destructor of any of them, so that ids could repeat within one
dispatcher.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 6 +++---
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index db6fce8..cdc7322 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -115,8 +115,8 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
-        return handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_last_handler_id, std::move(event_handler)));
+        return _last_handler_id;
     }
 
     /*!
@@ -185,7 +185,7 @@ private:
     std::map<event_key_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _last_handler_id{0};
 
     template <typename... Args>
     auto get_event_handler_id(std::string&& event_name) const -> event_key_t
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 0aa6e62..9918874 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From 9b5883acd9296f26bf67dd03603ba8e13cc413b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 05/32] fix: count timer ticks exactly when the callback ends
 on a tick

update_next_start_time() did not advance the next time point when the current
time was equal to it: the same tick fired again and the missed counter
underflowed. The missed counter was also incremented and decremented again on
every tick, so a concurrent reader could see it decrease.
---
 sdk/src/high_precision_timer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..7935f2f 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -98,15 +98,16 @@ void high_precision_timer::worker()
 
 void high_precision_timer::update_next_start_time()
 {
-    auto task_next_start_time = _next_task_timepoint;
+    // The next execution is the first one after the current one that is not in the past: those in between are missed.
+    auto task_next_start_time = _next_task_timepoint + _interval;
+    uint64_t missed_callbacks = 0;
     const auto now = clock::now();
     while (now > task_next_start_time)
     {
         task_next_start_time += _interval;
-        ++_missed_callback_count;
+        ++missed_callbacks;
     }
-    // Adjust _missed_callback_count removing the last execution from the counter.
-    --_missed_callback_count;
+    _missed_callback_count += missed_callbacks;
     _next_task_timepoint = task_next_start_time;
 }
 
-- 
2.43.0


From 06309a176876e61ea8198b417a2b18d84fa0534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 06/32] fix: refuse non-positive intervals in
 high_precision_timer::start

A zero or negative interval made the worker thread loop forever while holding
its mutex, so that stop() and the destructor never returned.
---
 sdk/include/teiacare/sdk/high_precision_timer.hpp | 2 +-
 sdk/src/high_precision_timer.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..bf7611e 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -56,7 +56,7 @@ public:
      * \param interval Rate at which the user callback is triggered
      * \return true if worker has been started, false otherwise
      *
-     * If a callback has already been set this function starts the worker thread and returns true.
+     * If a callback has already been set and the interval is positive this function starts the worker thread and returns true.
      * Otherwise returns false and does nothing (the worker thread is not started).
      * Note that this function blocks the caller therad until the worker thread has been started.
      */
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 7935f2f..44375b3 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,7 +32,7 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task)
+    if (!_task || interval <= clock::duration::zero())
         return false;
 
     stop();
-- 
2.43.0


From 15431608c739c1946d7420995013784f7fea7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 07/32] fix: never create the same uuid twice from concurrent
 calls or copies of uuid_generator

create() used the random engine without synchronisation, and copies of the
generator (instance() is copyable) continued the same random sequence.
---
 sdk/include/teiacare/sdk/uuid_generator.hpp |  2 +-
 sdk/src/uuid_generator.cpp                  | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/uuid_generator.hpp b/sdk/include/teiacare/sdk/uuid_generator.hpp
index 9354af1..38d24f3 100644
--- a/sdk/include/teiacare/sdk/uuid_generator.hpp
+++ b/sdk/include/teiacare/sdk/uuid_generator.hpp
@@ -36,7 +36,7 @@ public:
     static uuid_generator& instance();
 
     /*!
-     * \brief Create a random uuid V4.
+     * \brief Create a random uuid V4. Thread safe.
      */
     [[nodiscard]] tc::sdk::uuid create();
 
diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index 186114e..9cbe562 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -15,6 +15,7 @@
 #include <teiacare/sdk/uuid_generator.hpp>
 
 #include <limits>
+#include <mutex>
 #include <random>
 #include <stdexcept>
 
@@ -30,8 +31,16 @@ uuid_generator& uuid_generator::instance()
 {
     alignas(uint32_t) std::array<uint8_t, 16> bytes;
 
-    for (int i = 0; i < 16; i += 4)
-        *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    {
+        // All the uuids are drawn from the random engine of the unique instance, so that neither
+        // concurrent calls nor copies of the generator can produce the same uuid twice.
+        static std::mutex mutex;
+        std::scoped_lock lock(mutex);
+        auto& generator = instance();
+
+        for (int i = 0; i < 16; i += 4)
+            *reinterpret_cast<uint32_t*>(bytes.data() + i) = generator._distribution(generator._generator);
+    }
 
     // variant must be 10xxxxxx
     bytes[8] &= 0xBF;
-- 
2.43.0


From cfc2c3170408ad88fed8099566ed6605a7d52750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 08/32] fix: look up services implemented by classes with
 several bases

register_service() stored a pointer to the implementation as void*, which get()
cast to the interface: wrong (undefined behaviour) whenever the interface is not
the first base of the implementation.
---
 sdk/include/teiacare/sdk/service_locator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..bef3cf6 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,9 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        // The stored pointer must point to the ServiceInterfaceT subobject, since this is what get() casts it back to.
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 16ac2afc0a3e434d6ce9db40d41f15dbec0fa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 09/32] fix: report an invalid environment value as a parse
 error instead of terminating

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From 844f6d8d9039ef65e57dbbe28ea073b31bf47241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 10/32] fix: do not take a token without a name for an argument
 that has no short name

---
 sdk/src/argparse/argument_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..16d5062 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -244,6 +244,9 @@ void argument_parser::print_arguments() const
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
+    if (name.empty())
+        return nullptr;
+
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
         return name == arg->get_name_short() || name == arg->get_name_long();
     });
-- 
2.43.0


From 974a16649ea9c5e0fa97f86eb5cf93559f59bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 11/32] fix: report a validator that throws anything but a
 std::exception as a parse error

---
 sdk/src/argparse/argument_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 16d5062..d55b75a 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -44,6 +44,12 @@ parse_result argument_parser::parse(int argc, char* argv[]) const
         print_help();
         return parse_result::error;
     }
+    catch (...)
+    {
+        std::cerr << "Unknown error" << std::endl;
+        print_help();
+        return parse_result::error;
+    }
 }
 
 parse_result argument_parser::parse(std::vector<std::string>&& args) const
-- 
2.43.0


From 4bb95a8e1ff67eb6ca4bc30f6a00d0402826aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 12/32] fix: accept single characters as values of char
 arguments

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..59f1920 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,7 +270,7 @@ protected:
         T value;
         std::istringstream iss(str);
 
-        if (!(iss >> value) || !(iss.eof()))
+        if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
-- 
2.43.0


From 421f47d580aaa0491d17a7213c730eaa791f95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 13/32] fix: keep the text that a const char* argument points
 to

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 59f1920..223de9a 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <list>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -172,7 +173,8 @@ protected:
     typename std::enable_if_t<std::is_same_v<T, const char*>, T>
     convert(const std::string& str) const
     {
-        return str.c_str();
+        // The returned pointer must remain valid after the parsing
+        return _texts.emplace_back(str).c_str();
     }
 
     // Specialization for int
@@ -283,6 +285,7 @@ private:
     const std::string _name_short;
     const std::string _description;
     const std::string _env;
+    mutable std::list<std::string> _texts;
 };
 
 }
-- 
2.43.0


From e0e99463b66bc571f8c108bbf8c1f397736100b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 14/32] fix: require containment of rectangles to be strict on
 the right and bottom sides too

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..32f3f4f 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -254,8 +254,8 @@ public:
     {
         return _position.x() < other._position.x() &&
                _position.y() < other._position.y() &&
-               _position.x() + _width >= other._position.x() + other._width &&
-               _position.y() + _height >= other._position.y() + other._height;
+               _position.x() + _width > other._position.x() + other._width &&
+               _position.y() + _height > other._position.y() + other._height;
     }
 
     /*!
-- 
2.43.0


From 442afc0b0263cd267a6e60406fefe399143f2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 15/32] fix: return the empty rectangle as the intersection of
 rectangles that only touch

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 32f3f4f..751d08d 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -300,11 +300,11 @@ public:
         auto intersection_y = tc::sdk::max(_position.y(), other._position.y());
 
         auto intersection_width = tc::sdk::min(_position.x() + _width, other._position.x() + other._width) - intersection_x;
-        if (intersection_width < T())
+        if (intersection_width <= T())
             return tc::sdk::rectangle<T>{};
 
         auto intersection_height = tc::sdk::min(_position.y() + _height, other._position.y() + other._height) - intersection_y;
-        if (intersection_height < T())
+        if (intersection_height <= T())
             return tc::sdk::rectangle<T>{};
 
         tc::sdk::point<T> intersection_position(intersection_x, intersection_y);
-- 
2.43.0


From 3e5703e8f2e6c609165514308462defc589c9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 16/32] fix: make rectangle::translated compile

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 751d08d..6989d78 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From 88647cacf3336818576dd0de9df5f9b0d40c1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 17/32] fix: add durations to dates outside the range of the
 nanosecond clock

---
 sdk/include/teiacare/sdk/datetime/date.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/datetime/date.hpp b/sdk/include/teiacare/sdk/datetime/date.hpp
index e7ddd81..5532510 100644
--- a/sdk/include/teiacare/sdk/datetime/date.hpp
+++ b/sdk/include/teiacare/sdk/datetime/date.hpp
@@ -197,7 +197,7 @@ public:
      */
     constexpr tc::sdk::date operator+(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) + delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) + std::chrono::floor<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
@@ -207,7 +207,7 @@ public:
      */
     constexpr tc::sdk::date operator-(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) - delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) - std::chrono::ceil<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
-- 
2.43.0


From 681bd5f4877b7a54e561af92ce4be779196099d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 18/32] fix: parse dates outside the range of the nanosecond
 clock

---
 sdk/src/datetime/date.cpp | 97 +++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 49 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..7680763 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -1,49 +1,48 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include "date.h"
-
-#include <teiacare/sdk/datetime/date.hpp>
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
-{
-    return stream << d.to_string();
-}
-
-std::string date::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::sys_days(_ymd));
-}
-
-tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_days parsed_date;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_date);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
-}
-
-tc::sdk::date date::today() noexcept
-{
-    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
-    return tc::sdk::date{now};
-}
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include "date.h"
+
+#include <teiacare/sdk/datetime/date.hpp>
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
+{
+    return stream << d.to_string();
+}
+
+std::string date::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::sys_days(_ymd));
+}
+
+tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_days parsed_date;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_date);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
+}
+
+tc::sdk::date date::today() noexcept
+{
+    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
+    return tc::sdk::date{now};
+}
+
+}
-- 
2.43.0


From 6af229febc923456caf7751af002460d69c8d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 19/32] fix: truncate date-times before 1970 towards the past
 when printing them

---
 sdk/src/datetime/datetime.cpp | 132 +++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 66 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index ccaf9e0..1e2df92 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -1,66 +1,66 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include <teiacare/sdk/datetime/datetime.hpp>
-
-#include "date.h"
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const datetime& dt)
-{
-    return stream << dt.to_string();
-}
-
-template <class DurationT>
-std::string datetime::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::time_point_cast<DurationT>(_tp));
-}
-
-template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_time<DurationT> parsed_time;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::datetime(parsed_time);
-}
-
-template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime datetime::utc_now() noexcept
-{
-    const auto now = std::chrono::system_clock::now();
-    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
-}
-
-template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include <teiacare/sdk/datetime/datetime.hpp>
+
+#include "date.h"
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const datetime& dt)
+{
+    return stream << dt.to_string();
+}
+
+template <class DurationT>
+std::string datetime::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
+}
+
+template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_time<DurationT> parsed_time;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_time);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::datetime(parsed_time);
+}
+
+template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime datetime::utc_now() noexcept
+{
+    const auto now = std::chrono::system_clock::now();
+    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
+}
+
+template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
+
+}
-- 
2.43.0


From 6d1219869c200512f5c70464d6c10979658a700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 20/32] fix: refuse to parse date-times outside the range of
 the nanosecond clock

---
 sdk/src/datetime/datetime.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 1e2df92..148d19f 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -37,13 +37,25 @@ template std::string datetime::to_string<std::chrono::nanoseconds>(const std::st
 template <class DurationT>
 tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
 {
-    std::chrono::sys_time<DurationT> parsed_time;
+    ::date::fields<DurationT> fields{};
+    fields.has_tod = true;
+    std::chrono::minutes offset{};
     std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
+    ::date::from_stream(ss, format.c_str(), fields, static_cast<std::string*>(nullptr), &offset);
+    if (ss.fail() || !fields.ymd.ok() || !fields.tod.in_conventional_range())
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::datetime(parsed_time);
+    // The parsed instant must be one that a nanosecond clock can represent
+    const auto time_of_day = fields.tod.to_duration();
+    const auto whole_seconds = std::chrono::floor<std::chrono::seconds>(time_of_day);
+    const auto subseconds = time_of_day - whole_seconds;
+    const std::chrono::sys_seconds timepoint = ::date::sys_days(fields.ymd) - offset + whole_seconds;
+    constexpr auto first = std::chrono::ceil<std::chrono::seconds>(tc::sdk::sys_time_point::min());
+    constexpr auto last = std::chrono::floor<std::chrono::seconds>(tc::sdk::sys_time_point::max());
+    if (timepoint < first || timepoint > last || (timepoint == last && subseconds > tc::sdk::sys_time_point::max() - last))
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::datetime(tc::sdk::sys_time_point(timepoint) + subseconds);
 }
 
 template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From 0254f14adeb123db09a9c9bb330a973f78b32824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 21/32] fix: refuse to parse times of day that do not exist

---
 sdk/src/datetime/time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/src/datetime/time.cpp b/sdk/src/datetime/time.cpp
index f1cbef9..179e8db 100644
--- a/sdk/src/datetime/time.cpp
+++ b/sdk/src/datetime/time.cpp
@@ -39,13 +39,13 @@ template std::string time::to_string<std::chrono::nanoseconds>(const std::string
 template <class DurationT>
 tc::sdk::time time::from_string(const std::string& str, const std::string& format) noexcept(false)
 {
-    DurationT parsed_time;
+    ::date::fields<std::common_type_t<DurationT, std::chrono::seconds>> fields{};
     std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
+    ::date::from_stream(ss, format.c_str(), fields);
+    if (ss.fail() || !fields.has_tod || !fields.tod.in_conventional_range())
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::time(parsed_time);
+    return tc::sdk::time(std::chrono::round<DurationT>(fields.tod.to_duration()));
 }
 
 template tc::sdk::time time::from_string<std::chrono::hours>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From 2c8b95fa497128b8d8af49378e0a3b2f7233472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 22/32] fix: truncate parsed times of day instead of rounding
 them up

---
 sdk/src/datetime/time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/time.cpp b/sdk/src/datetime/time.cpp
index 179e8db..692b43f 100644
--- a/sdk/src/datetime/time.cpp
+++ b/sdk/src/datetime/time.cpp
@@ -45,7 +45,7 @@ tc::sdk::time time::from_string(const std::string& str, const std::string& forma
     if (ss.fail() || !fields.has_tod || !fields.tod.in_conventional_range())
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::time(std::chrono::round<DurationT>(fields.tod.to_duration()));
+    return tc::sdk::time(std::chrono::floor<DurationT>(fields.tod.to_duration()));
 }
 
 template tc::sdk::time time::from_string<std::chrono::hours>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From c29b716935f3072f3397da67e3b7abbf295be6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 23/32] fix: throw std::domain_error when a timedelta is
 divided by zero, as documented

---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..1ad4eed 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("Division of a timedelta by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From 00889680fd0b0db66f9f160902846d37549f62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 24/32] fix: refuse to parse times with too many digits of
 seconds instead of overflowing

---
 sdk/src/datetime/datetime.cpp | 3 ++-
 sdk/src/datetime/time.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 148d19f..037b639 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -42,7 +42,8 @@ tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const s
     std::chrono::minutes offset{};
     std::stringstream ss{str};
     ::date::from_stream(ss, format.c_str(), fields, static_cast<std::string*>(nullptr), &offset);
-    if (ss.fail() || !fields.ymd.ok() || !fields.tod.in_conventional_range())
+    // A number of seconds too large for DurationT ends up negative
+    if (ss.fail() || !fields.ymd.ok() || !fields.tod.in_conventional_range() || fields.tod.seconds() < std::chrono::seconds::zero())
         throw std::runtime_error("Failed to parse " + str);
 
     // The parsed instant must be one that a nanosecond clock can represent
diff --git a/sdk/src/datetime/time.cpp b/sdk/src/datetime/time.cpp
index 692b43f..a5f42e7 100644
--- a/sdk/src/datetime/time.cpp
+++ b/sdk/src/datetime/time.cpp
@@ -42,7 +42,8 @@ tc::sdk::time time::from_string(const std::string& str, const std::string& forma
     ::date::fields<std::common_type_t<DurationT, std::chrono::seconds>> fields{};
     std::stringstream ss{str};
     ::date::from_stream(ss, format.c_str(), fields);
-    if (ss.fail() || !fields.has_tod || !fields.tod.in_conventional_range())
+    // A number of seconds too large for DurationT ends up negative
+    if (ss.fail() || !fields.has_tod || !fields.tod.in_conventional_range() || fields.tod.seconds() < std::chrono::seconds::zero())
         throw std::runtime_error("Failed to parse " + str);
 
     return tc::sdk::time(std::chrono::floor<DurationT>(fields.tod.to_duration()));
-- 
2.43.0


From d5f9cf5c5cfda122a154f97f4c54286ef9417e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 25/32] fix: restore the CRLF line endings of date.cpp and
 datetime.cpp that earlier fixes changed

---
 sdk/src/datetime/date.cpp     |  96 ++++++++++-----------
 sdk/src/datetime/datetime.cpp | 158 +++++++++++++++++-----------------
 2 files changed, 127 insertions(+), 127 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 7680763..bb36cab 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -1,48 +1,48 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include "date.h"
-
-#include <teiacare/sdk/datetime/date.hpp>
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
-{
-    return stream << d.to_string();
-}
-
-std::string date::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::sys_days(_ymd));
-}
-
-tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_days parsed_date;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_date);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
-}
-
-tc::sdk::date date::today() noexcept
-{
-    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
-    return tc::sdk::date{now};
-}
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include "date.h"
+
+#include <teiacare/sdk/datetime/date.hpp>
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
+{
+    return stream << d.to_string();
+}
+
+std::string date::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::sys_days(_ymd));
+}
+
+tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_days parsed_date;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_date);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
+}
+
+tc::sdk::date date::today() noexcept
+{
+    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
+    return tc::sdk::date{now};
+}
+
+}
diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 037b639..2266122 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -1,79 +1,79 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include <teiacare/sdk/datetime/datetime.hpp>
-
-#include "date.h"
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const datetime& dt)
-{
-    return stream << dt.to_string();
-}
-
-template <class DurationT>
-std::string datetime::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
-}
-
-template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    ::date::fields<DurationT> fields{};
-    fields.has_tod = true;
-    std::chrono::minutes offset{};
-    std::stringstream ss{str};
-    ::date::from_stream(ss, format.c_str(), fields, static_cast<std::string*>(nullptr), &offset);
-    // A number of seconds too large for DurationT ends up negative
-    if (ss.fail() || !fields.ymd.ok() || !fields.tod.in_conventional_range() || fields.tod.seconds() < std::chrono::seconds::zero())
-        throw std::runtime_error("Failed to parse " + str);
-
-    // The parsed instant must be one that a nanosecond clock can represent
-    const auto time_of_day = fields.tod.to_duration();
-    const auto whole_seconds = std::chrono::floor<std::chrono::seconds>(time_of_day);
-    const auto subseconds = time_of_day - whole_seconds;
-    const std::chrono::sys_seconds timepoint = ::date::sys_days(fields.ymd) - offset + whole_seconds;
-    constexpr auto first = std::chrono::ceil<std::chrono::seconds>(tc::sdk::sys_time_point::min());
-    constexpr auto last = std::chrono::floor<std::chrono::seconds>(tc::sdk::sys_time_point::max());
-    if (timepoint < first || timepoint > last || (timepoint == last && subseconds > tc::sdk::sys_time_point::max() - last))
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::datetime(tc::sdk::sys_time_point(timepoint) + subseconds);
-}
-
-template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime datetime::utc_now() noexcept
-{
-    const auto now = std::chrono::system_clock::now();
-    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
-}
-
-template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include <teiacare/sdk/datetime/datetime.hpp>
+
+#include "date.h"
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const datetime& dt)
+{
+    return stream << dt.to_string();
+}
+
+template <class DurationT>
+std::string datetime::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
+}
+
+template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    ::date::fields<DurationT> fields{};
+    fields.has_tod = true;
+    std::chrono::minutes offset{};
+    std::stringstream ss{str};
+    ::date::from_stream(ss, format.c_str(), fields, static_cast<std::string*>(nullptr), &offset);
+    // A number of seconds too large for DurationT ends up negative
+    if (ss.fail() || !fields.ymd.ok() || !fields.tod.in_conventional_range() || fields.tod.seconds() < std::chrono::seconds::zero())
+        throw std::runtime_error("Failed to parse " + str);
+
+    // The parsed instant must be one that a nanosecond clock can represent
+    const auto time_of_day = fields.tod.to_duration();
+    const auto whole_seconds = std::chrono::floor<std::chrono::seconds>(time_of_day);
+    const auto subseconds = time_of_day - whole_seconds;
+    const std::chrono::sys_seconds timepoint = ::date::sys_days(fields.ymd) - offset + whole_seconds;
+    constexpr auto first = std::chrono::ceil<std::chrono::seconds>(tc::sdk::sys_time_point::min());
+    constexpr auto last = std::chrono::floor<std::chrono::seconds>(tc::sdk::sys_time_point::max());
+    if (timepoint < first || timepoint > last || (timepoint == last && subseconds > tc::sdk::sys_time_point::max() - last))
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::datetime(tc::sdk::sys_time_point(timepoint) + subseconds);
+}
+
+template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime datetime::utc_now() noexcept
+{
+    const auto now = std::chrono::system_clock::now();
+    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
+}
+
+template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
+
+}
-- 
2.43.0


From 36cf066e5fd08294861da44abd3edfad3f9335c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 26/32] fix: reading thread_pool::threads_count() while another
 thread starts or stops the pool is no data race

---
 sdk/include/teiacare/sdk/thread_pool.hpp | 1 +
 sdk/src/thread_pool.cpp                  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/thread_pool.hpp b/sdk/include/teiacare/sdk/thread_pool.hpp
index dda217e..d8738f4 100644
--- a/sdk/include/teiacare/sdk/thread_pool.hpp
+++ b/sdk/include/teiacare/sdk/thread_pool.hpp
@@ -115,6 +115,7 @@ protected:
 
 private:
     std::atomic_bool _is_running;
+    std::atomic_size_t _threads_count{0};
     std::mutex _is_running_mutex;
     std::vector<std::thread> _threads;
     std::queue<tc::sdk::task> _task_queue;
diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..4f042b4 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -45,6 +45,7 @@ bool thread_pool::start(const unsigned int num_threads)
         _threads.emplace_back([this] { worker(); });
     }
 
+    _threads_count = _threads.size();
     is_ready->arrive_and_wait();
     return true;
 }
@@ -71,13 +72,14 @@ bool thread_pool::stop()
     }
 
     _threads.clear();
+    _threads_count = 0;
 
     return true;
 }
 
 size_t thread_pool::threads_count() const
 {
-    return _threads.size();
+    return _threads_count;
 }
 
 bool thread_pool::is_running() const
-- 
2.43.0


From 60d0a839363cc2b306409afacc5ef08bfd5d4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 27/32] fix: help output keeps long names, descriptions and
 environment notes apart

---
 sdk/src/argparse/argument_parser.cpp | 29 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index d55b75a..9911e4e 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -194,14 +194,23 @@ void argument_parser::print_arguments() const
     constexpr const char* pad = "    ";
     constexpr int item_width = 30;
 
+    // A text that fills its column must not run into the next one
+    const auto print_item = [](const std::string& item) {
+        std::cout << std::setw(item_width) << item;
+        if (item.size() >= item_width)
+        {
+            std::cout << " ";
+        }
+    };
+
     std::cout << std::left;
     std::cout << "\nOptions: \n";
 
     for (const auto& pos : _positionals)
     {
         std::cout << pad;
-        std::cout << std::setw(item_width) << pos->get_name_long();
-        std::cout << std::setw(item_width) << pos->get_description();
+        print_item(pos->get_name_long());
+        print_item(pos->get_description());
         std::cout << "\n";
     }
 
@@ -210,17 +219,17 @@ void argument_parser::print_arguments() const
         std::cout << pad;
         if(opt->get_name_short().empty())
         {
-            std::cout << std::setw(item_width) << "--" + opt->get_name_long();
+            print_item("--" + opt->get_name_long());
         }
         else
         {
-            std::cout << std::setw(item_width) << "-" + opt->get_name_short() + ", --" + opt->get_name_long();
+            print_item("-" + opt->get_name_short() + ", --" + opt->get_name_long());
         }
 
-        std::cout << std::setw(item_width) << opt->get_description();
+        print_item(opt->get_description());
         if (const auto env = opt->get_env(); !env.empty())
         {
-            std::cout << std::setw(item_width) << "[env:" + env + "]";
+            print_item("[env:" + env + "]");
         }
         std::cout << "\n";
     }
@@ -230,17 +239,17 @@ void argument_parser::print_arguments() const
         std::cout << pad;
         if(flag->get_name_short().empty())
         {
-            std::cout << std::setw(item_width) << "--" + flag->get_name_long();
+            print_item("--" + flag->get_name_long());
         }
         else
         {
-            std::cout << std::setw(item_width) << "-" + flag->get_name_short() + ", --" + flag->get_name_long();
+            print_item("-" + flag->get_name_short() + ", --" + flag->get_name_long());
         }
 
-        std::cout << std::setw(item_width) << flag->get_description();
+        print_item(flag->get_description());
         if (const auto env = flag->get_env(); !env.empty())
         {
-            std::cout << std::setw(item_width) << "[env:" + env + "]";
+            print_item("[env:" + env + "]");
         }
         std::cout << "\n";
     }
-- 
2.43.0


From 78f304e15b7aeb4e7bca3411c608d569897fd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 28/32] fix: a task made from a const callable owns a copy
 instead of a reference

---
 sdk/include/teiacare/sdk/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/task.hpp b/sdk/include/teiacare/sdk/task.hpp
index ec67bc8..54afb36 100644
--- a/sdk/include/teiacare/sdk/task.hpp
+++ b/sdk/include/teiacare/sdk/task.hpp
@@ -41,7 +41,7 @@ public:
      */
     template <typename CallableType>
     explicit task(CallableType&& callable)
-        : _callable(std::make_unique<task_impl<CallableType>>(std::move(callable)))
+        : _callable(std::make_unique<task_impl<std::decay_t<CallableType>>>(std::forward<CallableType>(callable)))
     {
     }
 
-- 
2.43.0


From acf7137f83a034087c36087411f173ff747d9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:41 +0000
Subject: [PATCH 29/32] fix: distances of points whose squares are not
 representable, and of points with unsigned coordinates

---
 sdk/include/teiacare/sdk/geometry/point.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/point.hpp b/sdk/include/teiacare/sdk/geometry/point.hpp
index 39b1d01..5d9eb62 100644
--- a/sdk/include/teiacare/sdk/geometry/point.hpp
+++ b/sdk/include/teiacare/sdk/geometry/point.hpp
@@ -156,7 +156,9 @@ public:
      */
     constexpr T distance_from_origin() const noexcept
     {
-        return static_cast<T>(std::sqrt(_x * _x + _y * _y));
+        const double x = static_cast<double>(_x);
+        const double y = static_cast<double>(_y);
+        return static_cast<T>(std::sqrt(x * x + y * y));
     }
 
     /*!
@@ -166,8 +168,8 @@ public:
      */
     constexpr T distance(point other) const noexcept
     {
-        T dx = other._x - _x;
-        T dy = other._y - _y;
+        const double dx = static_cast<double>(_x < other._x ? other._x - _x : _x - other._x);
+        const double dy = static_cast<double>(_y < other._y ? other._y - _y : _y - other._y);
         return static_cast<T>(std::sqrt(dx * dx + dy * dy));
     }
 
-- 
2.43.0


From e9a4fdb0174569942570b448d4f7b9c0aaa835f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:41 +0000
Subject: [PATCH 30/32] fix: mapping to ranges whose length is not
 representable

---
 sdk/include/teiacare/sdk/geometry/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/range.hpp b/sdk/include/teiacare/sdk/geometry/range.hpp
index 2e3270d..84a655e 100644
--- a/sdk/include/teiacare/sdk/geometry/range.hpp
+++ b/sdk/include/teiacare/sdk/geometry/range.hpp
@@ -192,7 +192,7 @@ public:
     constexpr inline double map(double value) const
     {
         // static_assert(value >= T(0) && value <= T(1));
-        return _min + value * (_max - _min);
+        return _min + value * (static_cast<double>(_max) - static_cast<double>(_min));
     }
 
     /*!
-- 
2.43.0


From 100de449d26514a0fafeb2aa8a9f18f5c1296d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:41 +0000
Subject: [PATCH 31/32] fix: intersection of disjoint rectangles with unsigned
 coordinates

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 6989d78..069a699 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -293,7 +293,7 @@ public:
     */
     tc::sdk::rectangle<T> get_intersection(tc::sdk::rectangle<T> other) const noexcept
     {
-        if (is_null() || other.is_null())
+        if (!intersects(other))
             return tc::sdk::rectangle<T>{};
 
         auto intersection_x = tc::sdk::max(_position.x(), other._position.x());
-- 
2.43.0


From 654ddea7c6aecb39c64fc9b1a6d8f0fc0d2288a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:41 +0000
Subject: [PATCH 32/32] fix: a negative number given to an unsigned argument
 was taken as a large positive one

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 223de9a..80c3048 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <limits>
 #include <list>
 #include <sstream>
 #include <stdexcept>
@@ -269,6 +270,13 @@ protected:
         T>
     convert(const std::string& str) const
     {
+        // A stream would turn a negative number into a large positive one
+        if constexpr (std::is_unsigned_v<T> && std::numeric_limits<T>::digits > 8)
+        {
+            if (str.find('-') != std::string::npos)
+                throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
+        }
+
         T value;
         std::istringstream iss(str);
 
-- 
2.43.0

