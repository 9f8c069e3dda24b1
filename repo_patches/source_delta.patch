From e96c5886fda2fdb678213bc5c6d68f593d18f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 01/18] fix: start the scheduler thread under the pool lock in
 run_at

---
 include/pluto/thread_pool.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..a22098f 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,6 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From ac489529a59a627a8becf9b5a525392e3265ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 02/18] fix: wake wait_until_all_tasks_complete when the last
 active worker is being removed

---
 include/pluto/thread_pool.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index a22098f..8b77dc0 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -390,11 +390,6 @@ namespace pluto
             {
                 if (m_waitingTasks.empty())
                 {
-                    if (m_activeWorkersSize == 0)
-                    {
-                        m_tasksCompleteCondition.notify_all();
-                    }
-
                     m_workersCondition.wait(lock);
                 }
                 else
@@ -415,6 +410,11 @@ namespace pluto
 
                     lock.lock();
                     --m_activeWorkersSize;
+
+                    if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                    {
+                        m_tasksCompleteCondition.notify_all();
+                    }
                 }
             }
 
-- 
2.43.0


From 16cdc49fdc800f1e894d5aec94ae480bce7cc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 03/18] fix: complete queued tasks on destruction even if the
 pool was just shrunk

---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 8b77dc0..ac4f164 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -385,8 +385,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 882e6743138c7553aec17a1b2849f95152df9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 04/18] fix: destroy finished tasks without holding the pool
 lock

---
 include/pluto/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index ac4f164..1d2b65a 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -396,7 +396,7 @@ namespace pluto
                 else
                 {
                     const auto begin{ m_waitingTasks.begin() };
-                    const auto task { std::move(begin->second) };
+                    auto task       { std::move(begin->second) };
                     m_waitingTasks.erase(begin);
 
                     if (m_waitingTasks.empty())
@@ -408,6 +408,7 @@ namespace pluto
                     lock.unlock();
 
                     task();
+                    task = nullptr; // Don't destroy the task while locked
 
                     lock.lock();
                     --m_activeWorkersSize;
-- 
2.43.0


From abdc1e4eea52b017c4a6d3af9eeede8611b380b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 05/18] fix: stop the logging thread under its mutex so the
 wake-up can't be lost

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..778f5e7 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,11 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 3543477dfc098b63a8d5bbec0f28d97665588d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 06/18] fix: change the flush size under the logging mutex so
 the wake-up can't be lost

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 778f5e7..5b968f6 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -558,7 +558,11 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From ef02807899d08347ef80cf6fc4032903f1edfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 07/18] fix: log an empty message when printf-style formatting
 gives an empty text

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 5b968f6..fd00b5d 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -646,7 +646,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 15e231cd9dee4f5220cb8399e41205c2fa995a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 08/18] fix: give copies of an lru_cache iterators into their
 own list

---
 include/pluto/lru_cache.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..afe88de 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -10,6 +10,7 @@
 
 #include <map>
 #include <list>
+#include <utility>
 
 #include "version.hpp"
 
@@ -33,6 +34,32 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity  { other.m_capacity },
+            m_list      ( other.m_list )
+        {
+            // The iterators in the map must refer to the list of this cache
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.emplace(*itList, std::make_pair(other.m_map.find(*itList)->second.first, itList));
+            }
+        }
+
+        lru_cache(lru_cache&& other) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            if (this != &other)
+            {
+                lru_cache copy{ other };
+                *this = std::move(copy);
+            }
+
+            return *this;
+        }
+
+        lru_cache& operator=(lru_cache&& other) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From c3e69ac1b7525b316f294001a1f72a64a859ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 09/18] fix: keep lru_cache consistent if inserting throws

---
 include/pluto/lru_cache.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index afe88de..b0e8f27 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -156,7 +156,16 @@ namespace pluto
                     }
 
                     m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+
+                    try
+                    {
+                        m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    }
+                    catch (...)
+                    {
+                        m_list.pop_front();
+                        throw;
+                    }
                 }
 
                 result = true;
-- 
2.43.0


From 7d0a9e12ad17fb85e1b132686ebf3df24641ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 10/18] fix: keep lru_cache consistent if updating the usage
 order throws

---
 include/pluto/lru_cache.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index b0e8f27..a35ead2 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -186,10 +186,7 @@ namespace pluto
             auto itList{ itMap->second.second };
             if (itList != m_list.begin())
             {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
+                m_list.splice(m_list.begin(), m_list, itList);
             }
         }
 
-- 
2.43.0


From a599f5aade801710df1b33d79ddad69899045657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 11/18] fix: let scope guard tasks add tasks to the guard being
 destroyed

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..e37c2cd 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Remove the task first in case it adds another one
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +82,11 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove the task first in case it adds another one
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +134,11 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove the task first in case it adds another one
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From 2535a61ce5109f32fcebc76c51bd0b853474da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 12/18] fix: judge scope success and failure relative to the
 start of the scope

---
 include/pluto/scope.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index e37c2cd..289ea9c 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -65,6 +65,9 @@ namespace pluto
     class on_scope_success
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_success() = default;
@@ -77,7 +80,7 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_uncaughtExceptions)
 #else
             if (!std::uncaught_exception())
 #endif
@@ -117,6 +120,9 @@ namespace pluto
     class on_scope_fail
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_fail() = default;
@@ -129,7 +135,7 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (m_uncaughtExceptions < std::uncaught_exceptions())
 #else
             if (std::uncaught_exception())
 #endif
-- 
2.43.0


From 74586c3882c2df57a5e8b32673f8b761181dae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 13/18] fix: keep the locale of case-insensitive comparators
 alive

---
 include/pluto/compare.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..aad490e 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,12 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +63,12 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +79,12 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +95,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +111,12 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +127,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From fd6bb720667665e5f4fd4fba9f8cf15233c8cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 14/18] fix: include what platform.hpp uses

---
 include/pluto/platform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pluto/platform.hpp b/include/pluto/platform.hpp
index 202dda3..e44aab8 100644
--- a/include/pluto/platform.hpp
+++ b/include/pluto/platform.hpp
@@ -8,6 +8,10 @@
 #ifndef PLUTO_UTILS_PLATFORM_HPP
 #define PLUTO_UTILS_PLATFORM_HPP
 
+#include <ctime>
+#include <cstddef>
+#include <cstdint>
+
 #ifdef _WIN32
 #include <Windows.h>
 #elif defined(__APPLE__)
-- 
2.43.0


From d4055b1833f1e6751acdd42e1f3629414565c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 15/18] fix: let reverse searches work with pointers

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..5fda7f0 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -122,7 +122,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -158,7 +158,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -181,7 +181,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From 7c929cc0ae48aa4915764e8ec2104e0335016711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 16/18] fix: pass the left element first to the predicate of
 starts_with and ends_with

---
 include/pluto/iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index 5fda7f0..daf5cf2 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,7 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + (endR - beginR)), beginR, predicate));
         }
 #endif
 
@@ -75,7 +75,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From 3ea1d6482a4fef75e3224af6371c1c069965d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 17/18] fix: value-initialise the result of str_to and wstr_to

---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From cfa7bb5fa88991b36970bcb834d676d112ae7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 18/18] fix: don't require C++17 std::size in container.hpp

---
 include/pluto/container.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..88bf57f 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -195,7 +195,7 @@ namespace pluto
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(std::distance(std::begin(container), std::end(container))) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -222,7 +222,11 @@ namespace pluto
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
     {
+#if PLUTO_UTILS_HAS_CXX_17
         return std::size(container);
+#else
+        return static_cast<std::size_t>(std::distance(std::begin(container), std::end(container)));
+#endif
     }
 
     template<class Container, class Predicate = pluto::is_true>
-- 
2.43.0

