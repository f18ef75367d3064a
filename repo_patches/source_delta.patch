From 46192a5dbcd4a8e20f506b78cea220bf348f1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 01/70] fix: JobQueue::stop and join must not miss idle workers
 or require a started queue

stop() set killWorkers_ without holding the mutex and woke nobody: a worker
between its check of the flag and the wait on the condition slept forever and
join() hung. join() on a queue that was never started dereferenced null.
---
 sm_boost/src/JobQueue.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..c896eee 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -30,14 +30,21 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all(); // wake idle workers so that they can exit
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        boost::shared_ptr<boost::thread_group> work;
+        {
+            boost::mutex::scoped_lock lck(mutex_);
+            work = work_;
+        }
+        if(work) // there is nothing to join if the queue was never started
+            work->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 6dd0943ba99f13de09fb6d75c2cd41fce91dc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 02/70] fix: JobQueue's destructor must wait for worker threads
 that have not started yet

threadsInPool_ was incremented by each worker when it first ran, so a queue
destroyed right after start() was freed while its threads still entered
exec_loop and locked the destroyed mutex.
---
 sm_boost/src/JobQueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index c896eee..bc770d1 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -19,12 +19,16 @@ namespace sm {
     }
 
     void JobQueue::start(int nThreads) {
+        boost::mutex::scoped_lock lck(mutex_);
         if(!work_)
         {
             work_.reset(new boost::thread_group);
             for(int i = 0; i < nThreads; ++i)
             {
                 work_->create_thread(boost::bind(&JobQueue::exec_loop,this));
+                // counted here, not by the new thread: the destructor must wait
+                // also for a thread that has not reached exec_loop yet.
+                ++threadsInPool_;
             }
         }
     }
@@ -64,7 +68,6 @@ namespace sm {
 
     void JobQueue::exec_loop() {
         boost::mutex::scoped_lock lck(mutex_);
-        ++threadsInPool_;
         while (true) {
             while ((q_.empty()) && !killWorkers_)
                 condition_.wait(lck); // wait for a job to be added to queue
-- 
2.43.0


From 2f867898bdd5a59673063081dce4df93772eb1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 03/70] fix: sm_logging level and stream changes must neither
 deadlock nor be missed

enable/disableNamedStream locked the streams before the locations, the first
execution of a log statement the other way round. setLevel compared and wrote
the level without a lock, so a second setLevel of the same value could return
before any statement respected it, and two concurrent changes could leave
statements at the older one.
---
 .../include/sm/logging/LoggingGlobals.hpp       |  3 +++
 sm_logging/src/LoggingGlobals.cpp               | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index ea232f1..d2519e7 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -65,6 +65,9 @@ namespace sm {
              */
             void notifyLoggerLevelsChanged();
 
+            /// The same for a caller that already holds _locations_mutex.
+            void notifyLoggerLevelsChangedNoLock();
+
         
             bool isNamedStreamEnabled( const std::string & name );
 
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..2f7007c 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -86,7 +86,11 @@ namespace sm {
         void LoggingGlobals::notifyLoggerLevelsChanged()
         {
             boost::mutex::scoped_lock lock(_locations_mutex);
-                    
+            notifyLoggerLevelsChangedNoLock();
+        }
+
+        void LoggingGlobals::notifyLoggerLevelsChangedNoLock()
+        {
             V_LogLocation::iterator it = _log_locations.begin();
             V_LogLocation::iterator end = _log_locations.end();
             for ( ; it != end; ++it )
@@ -105,18 +109,21 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
+            // Always lock the locations before the streams, as initializeLogLocation does.
+            boost::mutex::scoped_lock locationsLock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             _namedStreamsEnabled.insert(name);
-            notifyLoggerLevelsChanged();
+            notifyLoggerLevelsChangedNoLock();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
+            boost::mutex::scoped_lock locationsLock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
             if(it != _namedStreamsEnabled.end())
             {
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
@@ -238,11 +245,11 @@ namespace sm {
 
         void LoggingGlobals::setLevel( sm::logging::levels::Level level )
         {
-            // \todo is this thread safe?
+            boost::mutex::scoped_lock lock(_locations_mutex);
             if(level != _level)
             {
                 _level = level;
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
-- 
2.43.0


From aa437e5133afd7910dd2a7a9d1a91bb644af6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 04/70] fix: sm_logging must keep logging after a statement
 failed with an exception

An exception that is not a std::exception, or a failing allocation while the
message is formatted, left _printing_thread_id set, and every later message of
that thread was thrown out as recursive.
---
 sm_logging/src/LoggingGlobals.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 2f7007c..fdd58ec 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -6,6 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
+        namespace {
+            /// Marks the current thread as the printing one until the end of the scope, however it is left.
+            struct PrintingThreadScope {
+                boost::thread::id & _id;
+                explicit PrintingThreadScope(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
+                ~PrintingThreadScope() { _id = boost::thread::id(); }
+            };
+        } // namespace
+
 
 
         LoggingGlobals::LoggingGlobals()
@@ -182,7 +191,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThreadScope printing(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -199,9 +208,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-
-            _printing_thread_id = boost::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -223,7 +229,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThreadScope printing(_printing_thread_id);
             try
             {
                 _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
@@ -232,8 +238,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = boost::thread::id();
         }
 
 
-- 
2.43.0


From 45b3c514fc53d54d2769b4e2ba4a5b4783d666fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 05/70] fix: sm_logging must not use a logger that setLogger is
 replacing

The logger pointer was read while another thread assigned it, and a logger that
was replaced while it delivered a message was destroyed under that delivery.
---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  1 +
 sm_logging/include/sm/logging/console.hpp        |  4 ++--
 sm_logging/src/LoggingGlobals.cpp                | 15 ++++++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index d2519e7..8a26949 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -92,6 +92,7 @@ namespace sm {
 
             Level _level;
             
+            boost::mutex _logger_mutex; ///< protects _logger
             boost::shared_ptr<Logger> _logger;
 
             bool _shutting_down;
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..bea4285 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index fdd58ec..b3a1e8e 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -189,7 +189,10 @@ namespace sm {
                 return;
             }
 
+            // Keeps the logger alive; destroyed after the lock is released.
+            boost::shared_ptr<Logger> logger;
             boost::mutex::scoped_lock lock(_print_mutex);
+            logger = getLogger();
 
             PrintingThreadScope printing(_printing_thread_id);
 
@@ -202,7 +205,7 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -227,12 +230,15 @@ namespace sm {
             // make sure the string is null terminated.
             str.push_back('\0');
             
+            // Keeps the logger alive; destroyed after the lock is released.
+            boost::shared_ptr<Logger> logger;
             boost::mutex::scoped_lock lock(_print_mutex);
+            logger = getLogger();
 
             PrintingThreadScope printing(_printing_thread_id);
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -261,11 +267,14 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                // The previous logger is released with the parameter, outside of the lock.
+                boost::mutex::scoped_lock lock(_logger_mutex);
+                _logger.swap(logger);
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
+            boost::mutex::scoped_lock lock(_logger_mutex);
             return _logger;
         }
 
-- 
2.43.0


From 1a2f6151417f29a58789293632ffc8175ce9e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 06/70] fix: SM_*_ONCE must print once also when several
 threads get there first

---
 sm_logging/include/sm/logging/console.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index bea4285..b76b33c 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -32,6 +32,7 @@
 #ifndef SMCONSOLE_SMCONSOLE_H
 #define SMCONSOLE_SMCONSOLE_H
 
+#include <atomic>
 #include <cstdio>
 #include <sstream>
 
@@ -139,10 +140,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +157,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
-- 
2.43.0


From 18243f6aaa1ed588aa91ed97fb17ce207c9e3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 07/70] fix: SM_*_THROTTLE must survive a clock that is set
 back and concurrent use

After the logger's clock was set back the statement stayed silent until the
clock reached its old value again, two threads could both print within one
period, and on a clock below the period the first execution did not print.
---
 sm_logging/include/sm/logging/console.hpp | 37 +++++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index b76b33c..9d47802 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -34,6 +34,7 @@
 
 #include <atomic>
 #include <cstdio>
+#include <limits>
 #include <sstream>
 
 #include <cstdarg>
@@ -55,9 +56,29 @@ namespace sm
 
     namespace logging
     {
+        /// The time of a throttled log statement's last hit.
+        class Throttle
+        {
+        public:
+            Throttle() : _lastHit(-std::numeric_limits<double>::infinity()) {}
 
-
-
+            /// \return true, and take the hit, if the statement has not been hit yet, the last hit is at least
+            ///         rate seconds ago or the logger's clock was set back since.
+            bool isDue(double rate)
+            {
+                double lastHit = _lastHit;
+                for (;;)
+                {
+                    const double now = g_logging_globals.getLogger()->currentTimeSecondsUtc();
+                    if (lastHit <= now && now < lastHit + rate)
+                        return false;
+                    if (_lastHit.compare_exchange_weak(lastHit, now))
+                        return true;
+                }
+            }
+        private:
+            std::atomic<double> _lastHit;
+        };
     } // namespace logging
 } // namespace sm
 
@@ -175,11 +196,9 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        static ::sm::logging::Throttle throttle;                        \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(throttle.isDue(rate)))  \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -195,11 +214,9 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        static ::sm::logging::Throttle throttle;                        \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(throttle.isDue(rate)))  \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
-- 
2.43.0


From bbada6a8f994530a0b662bac596065946465ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 08/70] fix: sm_timing getHandle must not register a tag it has
 no memory for

The tag was mapped to its handle before the timer was added. When the latter
failed the next tag got the same handle.
---
 sm_timing/src/Timer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..0e8abea 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -61,8 +61,14 @@ namespace timing {
     if(i == instance().m_tagMap.end()) {
       // If it is not there, create a tag.
       size_t handle =  instance().m_timers.size();
-      instance().m_tagMap[tag] = handle;
       instance().m_timers.push_back(TimerMapValue());
+      try {
+        instance().m_tagMap[tag] = handle;
+      } catch(...) {
+        // Out of memory: do not leave a handle without a tag behind.
+        instance().m_timers.pop_back();
+        throw;
+      }
       // Track the maximum tag length to help printing a table of timing values later.
       instance().m_maxTagLength = std::max(instance().m_maxTagLength,tag.size());
       return handle;
-- 
2.43.0


From 29c20c9a0f123c20696a45a30dd76e5a7c9ec8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 09/70] fix: sm_timing queries and reports must not race with
 new timers

The getters, getTag, print and the construction of a Timer from a handle read
the registry without the mutex while other threads let it grow. Reports are now
one consistent view.
---
 sm_timing/include/sm/timing/Timer.hpp |  4 ++--
 sm_timing/src/Timer.cpp               | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..34916cf 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -14,7 +14,7 @@
 #endif
 
 namespace boost {
- class mutex;
+ class recursive_mutex;
 }
 
 namespace sm {
@@ -113,7 +113,7 @@ namespace timing {
 #endif
     size_t m_maxTagLength;
     
-    static boost::mutex m_mutex;
+    static boost::recursive_mutex m_mutex; ///< protects m_timers, m_tagMap and m_maxTagLength
 
   }; // end class timer
   
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 0e8abea..4a4d7c8 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -2,7 +2,7 @@
 #include <sm/assert_macros.hpp>
 #include <stdio.h>
 
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics.hpp>
@@ -31,7 +31,7 @@ namespace timing {
 
 
 
-  boost::mutex Timing::m_mutex;
+  boost::recursive_mutex Timing::m_mutex;
   
   Timing & Timing::instance() {
     static Timing t;
@@ -56,7 +56,7 @@ namespace timing {
   // Static funcitons to query the timers:
   size_t Timing::getHandle(std::string const & tag){
     // Search for an existing tag.
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t::iterator i = instance().m_tagMap.find(tag);
     if(i == instance().m_tagMap.end()) {
       // If it is not there, create a tag.
@@ -79,6 +79,7 @@ namespace timing {
   
   
   std::string Timing::getTag(size_t handle){
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     std::string tag;
     bool found = false;
     
@@ -103,7 +104,10 @@ namespace timing {
     m_handle(handle)
     
   {
-    SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    {
+      boost::recursive_mutex::scoped_lock lock(Timing::m_mutex);
+      SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -155,11 +159,12 @@ namespace timing {
   
   
   void Timing::addTime(size_t handle, double seconds){
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     m_timers[handle].m_acc(seconds);
   }
   
   double Timing::getTotalSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -167,6 +172,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -174,6 +180,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -181,6 +188,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -188,6 +196,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -195,6 +204,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -204,6 +214,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -214,7 +225,7 @@ namespace timing {
   }
 
   void Timing::reset(size_t handle) {
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     instance().m_timers[handle] = TimerMapValue();
   }
@@ -282,10 +293,12 @@ namespace timing {
       }
     };
 
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     print(instance().m_tagMap, Accessor(), out);
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t & tagMap = instance().m_tagMap;
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
-- 
2.43.0


From fa51b24999774feed6fa066301778c1e779f1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 10/70] fix: sm_timing variance must not become negative

The difference of the mean square and the squared mean of equal samples could
round to a negative number; the reports then showed 'nan'.
---
 sm_timing/src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 4a4d7c8..73c2864 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -19,7 +19,7 @@ namespace timing {
     boost::accumulators::accumulator_set<
         double,
         boost::accumulators::features<
-          boost::accumulators::tag::lazy_variance,
+          boost::accumulators::tag::variance,
           boost::accumulators::tag::sum,
           boost::accumulators::tag::min,
           boost::accumulators::tag::max,
-- 
2.43.0


From 131771be9199de73b753aae1e0b72fba91aa68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 11/70] fix: sm_timing reset that runs out of memory must not
 reset half a timer

---
 sm_timing/src/Timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 73c2864..812730d 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -227,7 +227,10 @@ namespace timing {
   void Timing::reset(size_t handle) {
     boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
-    instance().m_timers[handle] = TimerMapValue();
+    // Assigning an accumulator is not atomic if memory runs out, swapping the list is.
+    list_t timers(instance().m_timers);
+    timers[handle] = TimerMapValue();
+    instance().m_timers.swap(timers);
   }
 
   void Timing::reset(std::string const & tag)
-- 
2.43.0


From d6bef133f9098c606a5412103cfe8bfd502df564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 12/70] fix: sm_timing Timer must measure elapsed time, not the
 difference of local times

Steps of the wall clock, daylight saving and time zone changes between start
and stop went into the recorded duration, also as negative times.
---
 sm_timing/include/sm/timing/Timer.hpp |  4 +++-
 sm_timing/src/Timer.cpp               | 10 +++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 34916cf..e596230 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -3,6 +3,8 @@
 
 #include <boost/date_time/posix_time/ptime.hpp>
 
+#include <chrono>
+
 #include <unordered_map>
 #include <vector>
 
@@ -54,7 +56,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     LARGE_INTEGER m_time;
 #else
-    boost::posix_time::ptime m_time;
+    std::chrono::steady_clock::time_point m_time;
 #endif
     bool m_timing;
     size_t m_handle;
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 812730d..de1f5f1 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -1,6 +1,7 @@
 #include <sm/timing/Timer.hpp>
 #include <sm/assert_macros.hpp>
 #include <stdio.h>
+#include <map>
 
 #include <boost/thread/recursive_mutex.hpp>
 
@@ -8,9 +9,6 @@
 #include <boost/accumulators/statistics.hpp>
 #include <boost/accumulators/statistics/rolling_mean.hpp>
 
-#define BOOST_DATE_TIME_NO_LOCALE
-#include <boost/date_time/posix_time/posix_time.hpp>
-
 namespace sm{
 namespace timing {
   struct TimerMapValue {
@@ -131,7 +129,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = std::chrono::steady_clock::now();
 #endif
   }
   
@@ -144,9 +142,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
-    boost::posix_time::time_duration t = now - m_time;
-    dt = ((double)t.total_nanoseconds() * 1e-9);
+    dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - m_time).count();
 #endif
     Timing::instance().addTime(m_handle,dt);
     m_timing = false;
-- 
2.43.0


From a06e0430b5e241afe3d978cbd48bc15f3bae7529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 13/70] fix: TimestampCorrector's hull test must not overflow
 for integer nanoseconds

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..c25b2be 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -160,9 +160,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // The products of integer nanoseconds overflow after seconds.
+  const long double determinant = static_cast<long double>(v1.x) * static_cast<long double>(v2.y)
+      - static_cast<long double>(v1.y) * static_cast<long double>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= 0.0L;
 }
 
 } // namespace timing
-- 
2.43.0


From 974ad2687a94a3e6a6c1a2b6baf679838ffd381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 14/70] fix: TimestampCorrector must not use a stale segment
 when the hull collapses to two points

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index c25b2be..42de2e9 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From 2ffea455f36cf515ba4cb1a01ef0ede10f401749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 15/70] fix: TimestampCorrector's midpoint must not be rounded
 out of the hull for integer nanoseconds

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 42de2e9..c9ae6f5 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    // Neither the sum of two stamps nor its conversion to double is exact for integer nanoseconds.
+    T midpoint = _convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2;
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
-- 
2.43.0


From 95299f2cb4e7fbdd3e6d17239d01b50364f6c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 16/70] fix: TimestampCorrector::reset must also drop the
 corrector to switch to

After a reset the corrector switched to one built from the stamps before it, and
threw TimeWentBackwardsException when the remote clock had restarted.
---
 sm_timing/include/sm/timing/TimestampCorrector.hpp            | 4 ++--
 .../include/sm/timing/implementation/TimestampCorrector.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index 6572044..f36f4d6 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -92,9 +92,9 @@ namespace sm {
       time_t span() const;
 
       /**
-       * Clear the points of the convex hull
+       * Clear the points of the convex hull, also those of the corrector to switch to next
        */
-      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; _pendingCorrector.reset(); }
 
       double getSlope() const;
       double getOffset() const;
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index c9ae6f5..3e1384a 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -76,7 +76,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    reset();
+    _convexHull.clear();
+    _midpointSegmentIndex = 0u;
     _pendingCorrector->_pendingCorrector = _pendingCorrector;
     std::swap(*_pendingCorrector, *this);
     _pendingCorrector->_pendingCorrector.reset();
-- 
2.43.0


From eab026c533a4d972d34d4c9c1c6bb7d598262258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 17/70] fix: randLU must not return its excluded upper bound

The sum can be rounded up to it when the range is narrow compared to its bounds.
---
 sm_random/src/random.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..01d6149 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -5,6 +5,7 @@
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/variate_generator.hpp>
 #include <boost/random/normal_distribution.hpp>
+#include <cmath>
 
 
 namespace sm {
@@ -77,7 +78,13 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  double r = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  if(r >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive)
+  {
+    // The sum was rounded up to the bound that is excluded.
+    r = std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  }
+  return r;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
-- 
2.43.0


From c1e91a1b657e4452807c20175c1327546d82b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 18/70] fix: randLUi must not overflow for ranges wider than an
 int

The difference of the bounds was computed as an int.
---
 sm_random/src/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 01d6149..efe106a 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -89,7 +89,8 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  // In double, as the difference of two ints may not fit into an int.
+  return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 1451a480d2662568599f334a6149025157755b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 19/70] fix: MatrixArchive::clear(name) must also remove
 strings

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..70e8a12 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 86e285d9cc4b6775c086d8b2215a28dcc5f0fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 20/70] fix: MatrixArchive must not hold a matrix and a string
 of one name

setVector, setScalar, createMatrix and load left a string of the same name
(and load a matrix) in place, setMatrix removed it even if the name turned
out to be invalid, and createMatrix accepted invalid names, which no file
can hold.
---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 5 ++---
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..d8872bb 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -121,11 +121,9 @@ namespace sm {
     template<typename Derived>
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
-      if(m_strings.count(matrixName) > 0){
-        m_strings.erase(matrixName);
-      }
       validateName(matrixName, SM_SOURCE_FILE_POS);
       m_values[matrixName] = matrix;
+      m_strings.erase(matrixName);
     }
   
     template<typename Derived>
@@ -134,6 +132,7 @@ namespace sm {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
       m_values[vectorName] = vector;
+      m_strings.erase(vectorName);
     }
 
   } // end namespace sm
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 70e8a12..940d18f 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -41,6 +41,7 @@ namespace sm
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
+    m_strings.erase(scalarName);
   }
   
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
@@ -65,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
@@ -75,6 +77,7 @@ namespace sm
 
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
+    m_strings.erase(matrixName);
     return val;
   }
 
@@ -425,9 +428,11 @@ namespace sm
         switch(blockType){
           case MATRIX:
             m_values[name] = matrix;
+            m_strings.erase(name);
             break;
           case STRING:
             m_strings[name] = valueString;
+            m_values.erase(name);
             break;
         }
       }
-- 
2.43.0


From 1f1313a8753e6a622e822b43c9cfbdb59d4befe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 21/70] fix: MatrixArchive::append must append the archive's
 entries

It opened the file and wrote nothing.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 940d18f..12be47a 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -441,10 +441,15 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while appending to file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 0bea758427f5ff08f4d36dee2775d4ddd080ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 22/70] fix: MatrixArchive::save must report a failing flush or
 close

Small archives are written by the flush in close(), whose result was ignored.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 12be47a..0c60942 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
-- 
2.43.0


From b14c26e921d3a339a670c64e424cf83e882db32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 23/70] fix: MatrixArchive::load must not accept truncated or
 damaged blocks

The state of the stream was never checked: a block that ended early was taken
with whatever its buffers held, read errors between blocks went unnoticed or
looped, sizes were multiplied in 32 bits, and a damaged size allocated up to
tens of gigabytes before anything was read.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 55 ++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 0c60942..00b8320 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,10 +1,39 @@
 #include <fstream>
+#include <algorithm>
 #include <cstdio>
+#include <cstring>
+#include <limits>
+#include <vector>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm/MatrixArchive.hpp>
 
 namespace sm 
 {
+  namespace {
+    // Reads exactly size bytes or throws. The buffer grows with what was really read, so that a damaged
+    // size does not make it ask for memory that the file cannot fill.
+    template <typename Buffer>
+    void readBytes(std::istream & fin, Buffer & buffer, boost::uint64_t size)
+    {
+      const boost::uint64_t chunkSize = 1 << 16;
+      buffer.clear();
+      while(buffer.size() < size)
+      {
+        const size_t have = buffer.size();
+        const size_t n = (size_t)std::min<boost::uint64_t>(size - have, std::max<boost::uint64_t>(have, chunkSize));
+        buffer.resize(have + n);
+        fin.read(&buffer[have], n);
+        SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended or could not be read within a block");
+      }
+    }
+
+    template <typename T>
+    void readValue(std::istream & fin, T & value)
+    {
+      fin.read(reinterpret_cast<char *>(&value), sizeof(value));
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended or could not be read within a block");
+    }
+  }
 
   const size_t MatrixArchive::s_fixedNameSize = 32;
   const char MatrixArchive::s_magicCharStartAMatrixBlock = 'A';
@@ -239,17 +268,21 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t rows;
-    fin.read(reinterpret_cast<char *>(&rows),4);
+    readValue(fin, rows);
     // 4 byte columns
     boost::uint32_t cols;
-    fin.read(reinterpret_cast<char *>(&cols),4);
+    readValue(fin, cols);
     
     // data
-
+    const boost::uint64_t entries = (boost::uint64_t)rows * cols;
+    SM_ASSERT_LE(MatrixArchiveException, entries, (boost::uint64_t)std::numeric_limits<std::streamsize>::max() / sizeof(double), "A matrix of " << rows << "x" << cols << " entries is too large");
+    std::vector<char> data;
+    readBytes(fin, data, entries * sizeof(double));
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
-    //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    if(!data.empty())
+    {
+      memcpy(matrix.data(), &data[0], data.size());
+    }
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -273,18 +306,17 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t stringSize;
-    fin.read(reinterpret_cast<char *>(&stringSize),4);
+    readValue(fin, stringSize);
 
     // data
-    stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    readBytes(fin, stringValue, stringSize);
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
   {
     char start, end;
     // start character
-    fin.read(&start,1);
+    readValue(fin, start);
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -298,6 +330,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended or could not be read within a block");
     name = nameBuffer;
     boost::trim(name);
 
@@ -311,7 +344,7 @@ namespace sm
     }
 
     // end character
-    fin.read(&end,1);
+    readValue(fin, end);
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 50cf8b4e236547b79b5a8305c8051e24ca2a53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 24/70] fix: MatrixArchive::save must not lose values of 4 GB
 and more

The number of bytes was cut to 32 bits: such a matrix was saved without its
data. A string that long has no place in the format, its save must fail.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 00b8320..34c9d5f 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -250,7 +250,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = (std::streamsize)rows * cols * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -292,7 +292,8 @@ namespace sm
 
     writeName(fout, name);
 
-    // 4 byte rows
+    // 4 byte size
+    SM_ASSERT_LE(MatrixArchiveException, stringValue.size(), std::numeric_limits<boost::uint32_t>::max(), "The string \"" << name << "\" is too long for the file format");
     boost::uint32_t stringSize = stringValue.size();
     fout.write(reinterpret_cast<const char *>(&stringSize), 4);
 
-- 
2.43.0


From 8b889eaed5b796f8608def57f355f33436653fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 25/70] fix: saving a property tree reports write errors of the
 final flush

The file writers of boost::property_tree check the stream before its buffer
is flushed by the destructor, so that a save onto a full or failing disk
returned normally and left a truncated file.
---
 .../src/BoostPropertyTreeImplementation.cpp   | 53 ++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..35f1ae6 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -1,6 +1,8 @@
 #include <sm/BoostPropertyTree.hpp>
 #include <sm/BoostPropertyTreeImplementation.hpp>
 
+#include <fstream>
+#include <locale>
 #include <sstream>
 #include <boost/make_shared.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -13,6 +15,25 @@ using boost::property_tree::json_parser::read_json;
 
 namespace sm {
 
+  namespace {
+    /// Writes a whole file and makes sure that all of it, including what the
+    /// stream buffers, was accepted by the file system.
+    template <typename Error, typename Writer>
+    void writeFile(const boost::filesystem::path & fileName, const Writer & write)
+    {
+      std::ofstream out(fileName.string().c_str());
+      if (!out) {
+        throw Error("cannot open file", fileName.string(), 0);
+      }
+      out.imbue(std::locale());
+      write(out);
+      out.close();
+      if (!out) {
+        throw Error("write error", fileName.string(), 0);
+      }
+    }
+  }
+
   BoostPropertyTreeImplementation::BoostPropertyTreeImplementation()
   {
 
@@ -105,7 +126,9 @@ namespace sm {
   }
 
   void BoostPropertyTreeImplementation::saveJson(const boost::filesystem::path& fileName) const {
-    boost::property_tree::write_json(fileName.string(), _ptree);
+    writeFile<boost::property_tree::json_parser_error>(fileName, [this](std::ostream & out) {
+      boost::property_tree::write_json(out, _ptree);
+    });
   }
 
 
@@ -123,18 +146,20 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveXml(const boost::filesystem::path & fileName) const
   {
-    if(BoostPropertyTree::isHumanReadableInputOutput()){
+    writeFile<boost::property_tree::xml_parser_error>(fileName, [this](std::ostream & out) {
+      if(BoostPropertyTree::isHumanReadableInputOutput()){
 #if BOOST_VERSION >= 105600
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(),
-                                      boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
+        boost::property_tree::write_xml(out, _ptree,
+                                        boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
 #else
-      boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(), settings);
+        boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
+        boost::property_tree::write_xml(out, _ptree, settings);
 #endif
-    }
-    else {
-      boost::property_tree::write_xml(fileName.string(), _ptree);
-    }
+      }
+      else {
+        boost::property_tree::write_xml(out, _ptree);
+      }
+    });
   }
 
   void BoostPropertyTreeImplementation::loadIni(const boost::filesystem::path & fileName)
@@ -144,7 +169,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveIni(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_ini(fileName.string(), _ptree);
+    writeFile<boost::property_tree::ini_parser_error>(fileName, [this](std::ostream & out) {
+      boost::property_tree::write_ini(out, _ptree);
+    });
   }
 
 
@@ -155,7 +182,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveInfo(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_info(fileName.string(), _ptree);
+    writeFile<boost::property_tree::info_parser_error>(fileName, [this](std::ostream & out) {
+      boost::property_tree::write_info(out, _ptree);
+    });
   }
 
   std::string BoostPropertyTreeImplementation::asInfoString() const {
-- 
2.43.0


From 0807d0a3dda03c04c10ff6c0e799596df403ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 26/70] fix: getChildren of a tree whose namespace is the root

The key is "/" then and nothing is left of it once the leading slash is
gone, so back() was called on an empty string.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 35f1ae6..9fce5db 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -292,7 +292,7 @@ namespace sm {
     std::string k;
     if(!key.empty()){
       k = key[0] == '/' ? key.substr(1) : key;
-      if (k.back() == '/'){
+      if (!k.empty() && k.back() == '/'){
         k.resize(k.size() - 1);
       }
     }
-- 
2.43.0


From 0c6bcc0aa75ff936f8601ffa1fcc72b145e3de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 27/70] fix: names relative to a configuration file without
 directory part

'./x' referred to from a file in the current directory was looked up as
'/./x', in the root of the file system.
---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..ab86e32 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -121,7 +121,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
       return path;
     } else {
       std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
-      std::string candidate = dir + '/' + path;
+      std::string candidate = dir.empty() ? path : dir + '/' + path;
       if (fileExists(candidate)) {
         return candidate;
       }
-- 
2.43.0


From 3108b01bf3f3d0f4bc1880cc439391e1654814f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 28/70] fix: the configuration loader asks fileExists along the
 search path too

It is a virtual function; only names relative to another file respected it.
---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index ab86e32..a9967ee 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -135,7 +135,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
   for( auto & bp : getSearchPaths()){
     for(auto & infix : getFileNameInfixes()){
       candidate = bp + "/" + (infix.empty() ? "" : infix + "/") + path;
-      if(boost::filesystem::exists(candidate)){
+      if(fileExists(candidate)){
         return candidate;
       }
     }
-- 
2.43.0


From aacca0f330d366915c5554c346ff8cb6b91f5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 29/70] fix: merging property trees whose keys contain dots

update() built the paths of the nodes with the default separator '.', so a
key like "k.2" became two nested ones and could not be read any more.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 9fce5db..242a581 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -318,7 +318,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -338,7 +338,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From 61cca253ac9a7a790fcb89940406eeeb432ee56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 30/70] fix: children of a tree whose path contains a dot

getChildren replaced '/' by '.', the separator of boost, which splits keys
that contain one.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 242a581..71b8b41 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -297,8 +297,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(boost::property_tree::ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 4b3ad8784f31db78837641c67e0bc8b2233aad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 31/70] fix: a refused property tree update changes nothing

update() without permission to create keys threw at the first missing key,
leaving the tree updated with whatever came before it.
---
 .../src/BoostPropertyTreeImplementation.cpp   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 71b8b41..cc11b91 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -322,13 +322,6 @@ namespace sm {
     }
   }
 
-  void updateOnly(boost::property_tree::ptree &dest, bool ignoreEmptyUpdates, const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child) {
-    if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \n\t\r") == std::string::npos)) return;
-    if(!dest.get_optional<std::string>(childPath)) {
-      throw PropertyTree::KeyNotFoundException(std::string("Could not find the destination '") + childPath.dump() + "' to update with '" + child.data() + "'.");
-    }
-    dest.put(childPath, child.data());
-  }
   void merge(boost::property_tree::ptree &dest, bool ignoreEmptyUpdates, const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child) {
     if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \n\t\r") == std::string::npos)) return;
     dest.put(childPath, child.data());
@@ -340,9 +333,19 @@ namespace sm {
     traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
+  void checkUpdateOnly(const boost::property_tree::ptree &dest, bool ignoreEmptyUpdates, const boost::property_tree::ptree::path_type &childPath, const boost::property_tree::ptree &child) {
+    if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \n\t\r") == std::string::npos)) return;
+    if(!dest.get_optional<std::string>(childPath)) {
+      throw PropertyTree::KeyNotFoundException(std::string("Could not find the destination '") + childPath.dump() + "' to update with '" + child.data() + "'.");
+    }
+  }
+
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
     using namespace boost;
-    traverse(with._ptree, createIfNecessary ? bind(merge, boost::ref(_ptree), ignoreEmptyUpdates, _1, _2) : bind(updateOnly, boost::ref(_ptree), ignoreEmptyUpdates, _1, _2));
+    if(!createIfNecessary) { // refuse before changing anything
+      traverse(with._ptree, bind(checkUpdateOnly, boost::cref(_ptree), ignoreEmptyUpdates, _1, _2));
+    }
+    traverse(with._ptree, bind(merge, boost::ref(_ptree), ignoreEmptyUpdates, _1, _2));
   }
 
   int BoostPropertyTreeImplementation::getXmlReadOptions() {
-- 
2.43.0


From d610870f74945ea620dd530f4a74087eda4b43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 32/70] fix: reading a value with a default does not overwrite
 it

The non-const getters store the default if there is no value yet. They also
did so when there was one of another type, destroying it.
---
 .../include/sm/BoostPropertyTreeImplementation.hpp         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
index 04e7bc2..3304b75 100644
--- a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
+++ b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
@@ -132,7 +132,12 @@ namespace sm {
       }
     else
       {
-	set(key,defaultValue);
+        // a value of another type is no missing one: leave it alone
+        boost::optional<const boost::property_tree::ptree &> node = const_cast<const boost::property_tree::ptree &>(_ptree).get_child_optional(boost::property_tree::ptree::path_type(key.substr(1),'/'));
+        if(!node || node->data().empty())
+          {
+            set(key,defaultValue);
+          }
 	return defaultValue;
       }
   }
-- 
2.43.0


From cd29059c91625208aa0c2c4d702716b8c0b5ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 33/70] fix: hasKey and getChild of prefixed stores that add
 read an uninitialised flag

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 2b08ac1449bbcf979fd2f86f40e1ead56b54b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 34/70] fix: children of stores that remove a prefix

A child below the prefix expected its own name as a prefix once more, and a
child on the way to a prefix of several parts was an empty store.
---
 sm_value_store/src/PrefixedValueStore.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..fb5a429 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -30,10 +30,15 @@ KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
   bool isPossible;
   auto && prefixedKey = applyPrefix(key, &isPossible);
   if(isPossible){
-    if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
-      return KeyValueStorePair(key, vs_);
+    if(PrefixMode::REMOVE == mode_){ // the prefix is consumed by the key
+      if(prefixedKey.empty() || prefixedKey == "/"){
+        return KeyValueStorePair(key, vs_);
+      }
+      return KeyValueStorePair(key, ValueStoreRef(vs_).getChild(prefixedKey));
     }
     return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
+  } else if(prefix_.compare(0, key.size() + 1, key + "/") == 0) { // the key is a part of the prefix
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefix_.substr(key.size() + 1, prefix_.size() - key.size() - 2)));
   } else {
     return KeyValueStorePair(key, ValueStoreRef());
   }
-- 
2.43.0


From 2f42cb4f6b5bdf68bec3071d1ff09c588b22f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 35/70] fix: verbose stores list each of several children with
 the same key

They looked every child up by its key, which found the first one again and
again (and the store itself for elements of JSON lists, whose key is empty).
---
 sm_value_store/src/VerboseValueStore.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/src/VerboseValueStore.cpp b/sm_value_store/src/VerboseValueStore.cpp
index 4ecb4d7..f33e515 100644
--- a/sm_value_store/src/VerboseValueStore.cpp
+++ b/sm_value_store/src/VerboseValueStore.cpp
@@ -79,8 +79,11 @@ template <typename Base>
 std::vector<KeyValueStorePair> VerboseValueStoreT<Base>::getChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<KeyValueStorePair> verboseChildren;
-  for (const auto& c : vs_->getChildren()){
-    verboseChildren.push_back(this->getChild(c.getKey()));
+  for (const auto& c : vs_->getChildren()){ // not getChild(key): several children may have the same key
+    log_("getChild(" + c.getKey() + ")");
+    auto log = log_;
+    auto key = c.getKey();
+    verboseChildren.emplace_back(key, std::make_shared<VerboseValueStore>(c, [log, key](const std::string &text){ log("child(" + key + "):" + text);}));
   }
   return verboseChildren;
 }
@@ -117,8 +120,10 @@ ExtendibleKeyValueStorePair VerboseExtendibleValueStore::getExtendibleChild(cons
 std::vector<ExtendibleKeyValueStorePair> VerboseExtendibleValueStore::getExtendibleChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<ExtendibleKeyValueStorePair> verboseChildren;
-  for (const auto& c : vs_->getExtendibleChildren()){
-    verboseChildren.push_back(this->getExtendibleChild(c.getKey()));
+  for (const auto& c : vs_->getExtendibleChildren()){ // not getExtendibleChild(key): several children may have the same key
+    log_("getExtendibleChild(" + c.getKey() + ")");
+    auto key = c.getKey();
+    verboseChildren.emplace_back(key, std::make_shared<VerboseExtendibleValueStore>(c, [log=log_, key](const std::string &text){ log("EC(" + key + "):" + text);}));
   }
   return verboseChildren;
 }
-- 
2.43.0


From b838bcdaeeee34c4b57a94d10c3b78cd07441679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 36/70] fix: layered stores without layers honour defaults

They returned a made up value instead of the default or an error.
---
 sm_value_store/src/ValueStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..99cdbf5 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,10 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ if(def) {
+   return *def;
+ }
+ SM_THROW(std::runtime_error, "There is no layer to get the value of '" << path << "' from");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From 303465beb880e30cb7b798c7f1081152e956678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 37/70] fix: alert messages are no path candidates

The message following an absent '!' path was tried as a path, against the
documentation of ValueStoreRef::get.
---
 sm_value_store/src/ValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index 99cdbf5..9ab68f8 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -131,8 +131,8 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // skip deprecation message in the input
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From d37d1ee569c3d80d671a568b15360fe34ea30830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 38/70] fix: stores that remove a prefix can read the key they
 report for it

hasKey of the prefix itself was true, but the getters refused it.
---
 sm_value_store/src/PrefixedValueStore.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index fb5a429..2556d66 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -60,9 +60,14 @@ std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPos
           *isPossiblePtr = true;
         }
         return path.substr(prefix_.size());
+      } else if (path + "/" == prefix_) {
+        if(isPossiblePtr) {
+          *isPossiblePtr = true;
+        }
+        return std::string();
       } else {
         if(isPossiblePtr) {
-          *isPossiblePtr = path.size() == prefix_.size() - 1 && path + "/" == prefix_;
+          *isPossiblePtr = false;
           return std::string();
         } else {
           SM_THROW(std::runtime_error, "path does not contain the prefix (" << prefix_ << "): " << path);
-- 
2.43.0


From 67e128de87d4048fff70994006dda396d9c83898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 39/70] fix: matrices with a dynamic number of columns load
 without columns

save() leaves out the data of empty matrices, this load() asked for it: xml
files could not be loaded, and M(0,0) does not exist.
---
 sm_eigen/include/sm/eigen/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..57986c4 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From 8a9157f320de027a948d9f101d785e2626e5f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 40/70] fix: saving through boost::serialization reports errors
 of the final writes

What the stream still buffered was written by its destructor, which swallows
every error: a full disk left a truncated file after a normal return.
---
 sm_boost/include/sm/boost/serialization.hpp | 27 ++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..d34e569 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,14 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+                ofs.flush(); // the archive's own flushing ignores errors
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -44,9 +49,14 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
+            {
+                ::boost::archive::text_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+                ofs.flush(); // the archive's own flushing ignores errors
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -67,13 +77,18 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+                ofs.flush(); // the archive's own flushing ignores errors
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
 
         }
 
-- 
2.43.0


From ad9c0978d7f9c1c44b8eb47980a4d7b368bbe9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 41/70] fix: load_txt notices that the file was cut off within
 the last number

---
 sm_boost/include/sm/boost/serialization.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index d34e569..cd3ec45 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -67,6 +67,8 @@ namespace sm { namespace boost_serialization {
             ::boost::archive::text_iarchive ia(ifs);
     
             ia >> object;
+            // text archives end with a newline: without it the last number may have lost digits
+            SM_ASSERT_TRUE(std::runtime_error,ifs.peek() != std::ifstream::traits_type::eof(), "The file " << filename << " is truncated");
 
         }
 
-- 
2.43.0


From f2e7c610cae9ac397e63f86b0c661eba343969d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 42/70] fix: loading a truncated or unreadable xml file throws
 instead of terminating the program

boost's xml_iarchive reads the closing tag in its destructor, which throws if
the file ends before it or cannot be read.
---
 sm_boost/include/sm/boost/serialization.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index cd3ec45..6d6efd7 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -2,6 +2,8 @@
 #define BOOST_SERIALIZATION_HPP
 
 #include <fstream>
+#include <sstream>
+#include <string>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/binary_oarchive.hpp>
@@ -100,7 +102,13 @@ namespace sm { namespace boost_serialization {
             std::ifstream ifs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ifs.good(), "Unable to open file " << filename << " for reading");
 
-            ::boost::archive::xml_iarchive ia(ifs);
+            // The archive's destructor reads the closing tag and would terminate the program if that failed
+            std::stringstream xml;
+            xml << ifs.rdbuf();
+            SM_ASSERT_TRUE(std::runtime_error,xml.good(), "Unable to read file " << filename);
+            SM_ASSERT_TRUE(std::runtime_error,xml.str().find("</boost_serialization>") != std::string::npos, "The file " << filename << " is truncated");
+
+            ::boost::archive::xml_iarchive ia(xml);
 
             if(topLevelXmlTag.size() == 0)
             {
-- 
2.43.0


From 6aa5ffd8a5191b0c9a46ed233d9aee7d4bd3a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 43/70] fix: loading a matrix that exceeds the maximum size of
 its type is refused

It was resized beyond its fixed storage. Negative sizes are refused as well.
---
 sm_eigen/include/sm/eigen/serialization.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index 57986c4..6480343 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -110,6 +110,7 @@ namespace boost { namespace serialization {
       ar >> BOOST_SERIALIZATION_NVP(rows);
       ar >> BOOST_SERIALIZATION_NVP(cols);
       SM_ASSERT_EQ(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");
+      SM_ASSERT_TRUE(sm::eigen::SerializationException,rows >= 0 && (D == Eigen::Dynamic || rows <= D),"Unexpected number of rows found: " << rows);
       
       M.resize(rows,Eigen::NoChange);
       if(rows > 0 && cols > 0)
@@ -140,6 +141,7 @@ namespace boost { namespace serialization {
       ar >> BOOST_SERIALIZATION_NVP(rows);
       ar >> BOOST_SERIALIZATION_NVP(cols);
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
+      SM_ASSERT_TRUE(sm::eigen::SerializationException,cols >= 0 && (E == Eigen::Dynamic || cols <= E),"Unexpected number of columns found: " << cols);
     
       M.resize(Eigen::NoChange,cols);
       if(rows > 0 && cols > 0)
@@ -169,6 +171,8 @@ namespace boost { namespace serialization {
       index_t rows, cols;
       ar >> BOOST_SERIALIZATION_NVP(rows);
       ar >> BOOST_SERIALIZATION_NVP(cols);    
+      SM_ASSERT_TRUE(sm::eigen::SerializationException,rows >= 0 && (D == Eigen::Dynamic || rows <= D),"Unexpected number of rows found: " << rows);
+      SM_ASSERT_TRUE(sm::eigen::SerializationException,cols >= 0 && (E == Eigen::Dynamic || cols <= E),"Unexpected number of columns found: " << cols);
       
       M.resize(rows,cols);
       if(rows > 0 && cols > 0)
-- 
2.43.0


From 9c898d78d7b601f190505522e130799badc285fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 44/70] fix: a log statement's run-time level is its own, not
 that of the thread that executed the location last

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  5 +++++
 sm_logging/include/sm/logging/console.hpp        | 16 +++++++---------
 sm_logging/src/LoggingGlobals.cpp                |  6 +++++-
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 8a26949..e8a5e26 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -53,6 +53,11 @@ namespace sm {
 
             void checkLogLocationEnabled(LogLocation* loc);
 
+            /**
+             * \brief Would a statement at this location be enabled if it had the given level?
+             */
+            bool isLogLocationEnabled(const LogLocation* loc, Level level);
+
 
 
             /**
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 9d47802..49f093c 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -88,19 +88,17 @@ namespace sm
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
     static ::sm::logging::LogLocation loc;                              \
+    const ::sm::logging::Level level___ = level;                        \
     if (SM_UNLIKELY(!loc._initialized))                                 \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level___); \
     }                                                                   \
-    if (SM_UNLIKELY(loc._level != level))                               \
-    {                                                                   \
-        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc, level);             \
-        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc);                \
-    }                                                                   \
-    bool enabled = loc._loggerEnabled && (cond);
+    /* loc is shared by all threads: it keeps its first level */        \
+    bool enabled = (SM_LIKELY(loc._level == level___) ? loc._loggerEnabled : \
+                    ::sm::logging::g_logging_globals.isLogLocationEnabled(&loc, level___)) && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -108,7 +106,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index b3a1e8e..3c3d1cd 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -82,7 +82,11 @@ namespace sm {
             checkLogLocationEnabledNoLock(loc);
         }
 
-
+        bool LoggingGlobals::isLogLocationEnabled(const LogLocation* loc, Level level)
+        {
+            boost::mutex::scoped_lock lock(_locations_mutex);
+            return level >= _level && (loc->_streamName.size() == 0 || isNamedStreamEnabled(loc->_streamName));
+        }
 
         /**
          * \brief Tells the system that a logger's level has changed
-- 
2.43.0


From 54b4dc15182c31ef7586b59b4c8ae3b40443da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 45/70] fix: isValid() called the invalid time stamp valid;
 getInvalidTime() could not be linked

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,12 +35,8 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From f122c08789d8ca98cff79c26b71519156b6e2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 46/70] fix: logging state that statements read without a lock
 is atomic (data races on first use, level changes and the re-entry guard)

---
 sm_logging/include/sm/logging/LogLocation.hpp    |  7 +++++--
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  6 ++++--
 sm_logging/include/sm/logging/console.hpp        |  2 +-
 sm_logging/src/LoggingGlobals.cpp                | 11 +++++------
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/sm_logging/include/sm/logging/LogLocation.hpp b/sm_logging/include/sm/logging/LogLocation.hpp
index 6ebb9f3..7f7f8a9 100644
--- a/sm_logging/include/sm/logging/LogLocation.hpp
+++ b/sm_logging/include/sm/logging/LogLocation.hpp
@@ -1,6 +1,8 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <atomic>
+
 namespace sm {
     namespace logging {
         struct LogLocation
@@ -8,8 +10,9 @@ namespace sm {
             LogLocation() : _initialized(false), _loggerEnabled(false),
                             _level(::sm::logging::levels::Count) {}
 
-            bool _initialized;
-            bool _loggerEnabled;
+            // Read without a lock by every log statement.
+            std::atomic<bool> _initialized;
+            std::atomic<bool> _loggerEnabled;
             ::sm::logging::Level _level;
             std::string _streamName;
         };
diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index e8a5e26..0ac83a5 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -5,6 +5,8 @@
 #include <boost/thread/mutex.hpp>
 
 #include <stdarg.h>
+#include <atomic>
+#include <thread>
 #include <vector>
 #include <set>
 
@@ -95,7 +97,7 @@ namespace sm {
             void print(const char * streamName,  Level level, 
                        vectorstream & ss, const char* file, int line, const char* function);
 
-            Level _level;
+            std::atomic<Level> _level;
             
             boost::mutex _logger_mutex; ///< protects _logger
             boost::shared_ptr<Logger> _logger;
@@ -113,7 +115,7 @@ namespace sm {
             
             std::vector<char> _globalCharBuffer;
             boost::mutex _print_mutex;
-            boost::thread::id _printing_thread_id;
+            std::atomic<std::thread::id> _printing_thread_id;
 
 
         };
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 49f093c..f752e65 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -94,7 +94,7 @@ namespace sm
         ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level___); \
     }                                                                   \
     /* loc is shared by all threads: it keeps its first level */        \
-    bool enabled = (SM_LIKELY(loc._level == level___) ? loc._loggerEnabled : \
+    bool enabled = (SM_LIKELY(loc._level == level___) ? loc._loggerEnabled.load() : \
                     ::sm::logging::g_logging_globals.isLogLocationEnabled(&loc, level___)) && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 3c3d1cd..89dd30c 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -9,9 +9,9 @@ namespace sm {
         namespace {
             /// Marks the current thread as the printing one until the end of the scope, however it is left.
             struct PrintingThreadScope {
-                boost::thread::id & _id;
-                explicit PrintingThreadScope(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
-                ~PrintingThreadScope() { _id = boost::thread::id(); }
+                std::atomic<std::thread::id> & _id;
+                explicit PrintingThreadScope(std::atomic<std::thread::id> & id) : _id(id) { _id = std::this_thread::get_id(); }
+                ~PrintingThreadScope() { _id = std::thread::id(); }
             };
         } // namespace
 
@@ -187,7 +187,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -223,7 +223,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -253,7 +253,6 @@ namespace sm {
 
         sm::logging::levels::Level LoggingGlobals::getLevel()
         {
-            // \todo is this thread safe?
             return _level;
         }
 
-- 
2.43.0


From eeaf69781f8726596d806695fe16ccaabc1154d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 47/70] fix: a copy of a TimestampCorrector shared its pending
 corrector with the original

---
 .../include/sm/timing/TimestampCorrector.hpp  |  7 ++++++
 .../implementation/TimestampCorrector.hpp     | 24 +++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index f36f4d6..2b4f3ec 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -35,6 +35,13 @@ namespace sm {
       TimestampCorrector();
       virtual ~TimestampCorrector();
 
+      /**
+       * A copy has a pending corrector of its own: it and the original do not
+       * influence each other.
+       */
+      TimestampCorrector(const TimestampCorrector & other);
+      TimestampCorrector & operator=(const TimestampCorrector & other);
+
       /** 
        * Get an estimate of the local time of a given measurement
        * from the remote timestamp, the local timestamp, and the 
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 3e1384a..86575d7 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -7,6 +7,21 @@ TimestampCorrector<T>::TimestampCorrector() : _midpointSegmentIndex(0u) {}
 template<typename T>
 TimestampCorrector<T>::~TimestampCorrector() {}
 
+template<typename T>
+TimestampCorrector<T>::TimestampCorrector(const TimestampCorrector & other) :
+    _convexHull(other._convexHull),
+    _pendingCorrector(other._pendingCorrector ? new TimestampCorrector<T>(*other._pendingCorrector) : NULL),
+    _midpointSegmentIndex(other._midpointSegmentIndex) {}
+
+template<typename T>
+TimestampCorrector<T> & TimestampCorrector<T>::operator=(const TimestampCorrector & other) {
+  TimestampCorrector<T> copy(other);
+  _convexHull.swap(copy._convexHull);
+  _pendingCorrector.swap(copy._pendingCorrector);
+  _midpointSegmentIndex = copy._midpointSegmentIndex;
+  return *this;
+}
+
 // Returns the local time
 template<typename T>
 typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
@@ -76,11 +91,10 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    _convexHull.clear();
-    _midpointSegmentIndex = 0u;
-    _pendingCorrector->_pendingCorrector = _pendingCorrector;
-    std::swap(*_pendingCorrector, *this);
-    _pendingCorrector->_pendingCorrector.reset();
+    // The pending corrector takes over, and an empty one becomes the pending one.
+    _convexHull.swap(_pendingCorrector->_convexHull);
+    _midpointSegmentIndex = _pendingCorrector->_midpointSegmentIndex;
+    _pendingCorrector->reset();
   }
 
   return correctedTime;
-- 
2.43.0


From 956586af918facdd3fe6b68795017ff4b8ceefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 48/70] fix: a JobQueue whose start() failed for lack of
 threads or memory could not be started, joined or destroyed

---
 sm_boost/src/JobQueue.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index bc770d1..fe68131 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -1,5 +1,7 @@
 #include <sm/boost/JobQueue.hpp>
 
+#include <memory>
+
 namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
@@ -23,12 +25,24 @@ namespace sm {
         if(!work_)
         {
             work_.reset(new boost::thread_group);
-            for(int i = 0; i < nThreads; ++i)
+            try
+            {
+                for(int i = 0; i < nThreads; ++i)
+                {
+                    std::unique_ptr<boost::thread> thread(new boost::thread(boost::bind(&JobQueue::exec_loop,this)));
+                    // counted here, not by the new thread: the destructor must wait
+                    // also for a thread that has not reached exec_loop yet. Counted before
+                    // it joins the group, which may fail and leave it running on its own.
+                    ++threadsInPool_;
+                    work_->add_thread(thread.get());
+                    thread.release();
+                }
+            }
+            catch(...)
             {
-                work_->create_thread(boost::bind(&JobQueue::exec_loop,this));
-                // counted here, not by the new thread: the destructor must wait
-                // also for a thread that has not reached exec_loop yet.
-                ++threadsInPool_;
+                if(!threadsInPool_) // no thread could be started: start() may be tried again
+                    work_.reset();
+                throw;
             }
         }
     }
@@ -49,6 +63,10 @@ namespace sm {
         }
         if(work) // there is nothing to join if the queue was never started
             work->join_all();
+        // threads that are not in the group
+        boost::mutex::scoped_lock lck(mutex_);
+        while (threadsInPool_)
+            condition_.wait(lck);
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 2e17029cf15379523bfda2c05d4498978b67b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 49/70] fix: running out of memory while taking a job from the
 queue ended the process

---
 sm_boost/src/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index fe68131..d034161 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -94,7 +94,8 @@ namespace sm {
                 condition_.notify_all();
                 return;
             }
-            boost::function<void ()> f = q_.front();
+            boost::function<void ()> f;
+            f.swap(q_.front()); // a copy could fail for lack of memory
             q_.pop_front();
             ++activeThreads_;
             // unlock the queue while we exec the job
-- 
2.43.0


From d8c7465c5d5ccab1229f8e361493a5fc96301af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 50/70] fix: JobQueue destroyed finished jobs under its lock
 (deadlock if their destructor uses the queue)

---
 sm_boost/src/JobQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index d034161..5605bd8 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -102,6 +102,7 @@ namespace sm {
             lck.unlock(); 
             // call the work function
             f(); 
+            f.clear(); // the destructor of the job may use the queue, too
             lck.lock();
             --activeThreads_;
             workCondition_.notify_all();
-- 
2.43.0


From b1adbc61b4a34b3911930f9a8b7767d80335bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 51/70] fix: MatrixArchive lost or damaged values when memory
 ran out or a matrix was set to an expression of itself

---
 .../include/sm/MatrixArchive.hpp              | 14 ++++--
 sm_matrix_archive/src/MatrixArchive.cpp       | 45 ++++++++++++-------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index d8872bb..eab360d 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -107,6 +107,11 @@ namespace sm {
       };
       BlockType readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const;
 
+      // Put a value under a name. If that fails, for lack of memory, nothing has changed;
+      // otherwise the argument is left with what was there before.
+      void storeMatrix(std::string const & matrixName, Eigen::MatrixXd & matrix);
+      void storeString(std::string const & stringName, std::string & value);
+
       void validateName(std::string const & name, sm::source_file_pos const & sfp) const;
       void writeName(std::ostream & fout, std::string const & name) const;
 
@@ -122,8 +127,9 @@ namespace sm {
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
       validateName(matrixName, SM_SOURCE_FILE_POS);
-      m_values[matrixName] = matrix;
-      m_strings.erase(matrixName);
+      // evaluated first: it may refer to the value that is replaced
+      Eigen::MatrixXd value(matrix);
+      storeMatrix(matrixName, value);
     }
   
     template<typename Derived>
@@ -131,8 +137,8 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
-      m_values[vectorName] = vector;
-      m_strings.erase(vectorName);
+      Eigen::MatrixXd value(vector);
+      storeMatrix(vectorName, value);
     }
 
   } // end namespace sm
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 34c9d5f..531df92 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -67,19 +67,28 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
-    Eigen::MatrixXd & M = m_values[scalarName];
-    M.resize(1,1);
+    Eigen::MatrixXd M(1,1);
     M(0,0) = scalar;
-    m_strings.erase(scalarName);
+    storeMatrix(scalarName, M);
   }
   
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
   {
     validateName(stringName, SM_SOURCE_FILE_POS);
-    if(m_values.count(stringName) > 0){
-      m_values.erase(stringName);
-    }
-    m_strings[stringName] = value;
+    std::string copy(value);
+    storeString(stringName, copy);
+  }
+
+  void MatrixArchive::storeMatrix(std::string const & matrixName, Eigen::MatrixXd & matrix)
+  {
+    m_values[matrixName].swap(matrix);
+    m_strings.erase(matrixName);
+  }
+
+  void MatrixArchive::storeString(std::string const & stringName, std::string & value)
+  {
+    m_strings[stringName].swap(value);
+    m_values.erase(stringName);
   }
 
   const MatrixArchive::string_map_t & MatrixArchive::getStrings() const
@@ -104,10 +113,13 @@ namespace sm
       }
     }
 
-    Eigen::MatrixXd & val = m_values[matrixName];
-    val.resize(rows, cols);
-    m_strings.erase(matrixName);
-    return val;
+    matrix_map_t::iterator existing = m_values.find(matrixName);
+    if(existing == m_values.end() || existing->second.rows() != rows || existing->second.cols() != cols)
+    {
+      Eigen::MatrixXd val(rows, cols);
+      storeMatrix(matrixName, val);
+    }
+    return m_values[matrixName];
   }
 
   const Eigen::MatrixXd & MatrixArchive::getMatrix(std::string const & matrixName) const
@@ -278,11 +290,12 @@ namespace sm
     SM_ASSERT_LE(MatrixArchiveException, entries, (boost::uint64_t)std::numeric_limits<std::streamsize>::max() / sizeof(double), "A matrix of " << rows << "x" << cols << " entries is too large");
     std::vector<char> data;
     readBytes(fin, data, entries * sizeof(double));
-    matrix.resize(rows,cols);
+    Eigen::MatrixXd M(rows,cols);
     if(!data.empty())
     {
-      memcpy(matrix.data(), &data[0], data.size());
+      memcpy(M.data(), &data[0], data.size());
     }
+    matrix.swap(M);
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -462,12 +475,10 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
-            m_values[name] = matrix;
-            m_strings.erase(name);
+            storeMatrix(name, matrix);
             break;
           case STRING:
-            m_strings[name] = valueString;
-            m_values.erase(name);
+            storeString(name, valueString);
             break;
         }
       }
-- 
2.43.0


From 99ccb2aa23a4c8fc35e201607d6fce38b9a599ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 52/70] fix: HashId::fromHexString accepted text that is not
 hexadecimal ("0x", signs, spaces) and threw halfway through other such text

---
 sm_common/include/sm/hash_id.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..7d3089e 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -74,7 +74,8 @@ class HashId {
    */
   inline bool fromHexString(const std::string& hexString) {
     // hexadecimal string takes 2 characters per byte
-    if (hexString.size() != 2*sizeof(val_)){
+    if (hexString.size() != 2*sizeof(val_) ||
+        hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
       return false;
     }
     for (size_t i = 0; i < sizeof(val_); ++i){
-- 
2.43.0


From b4f4e2bdb0b152471adceff3528a920e0b6112ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:01 +0000
Subject: [PATCH 53/70] fix: loading an Eigen matrix that runs out of memory
 left it with a pointer to freed memory

---
 sm_eigen/include/sm/eigen/serialization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index 6480343..e44889d 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -112,6 +112,7 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");
       SM_ASSERT_TRUE(sm::eigen::SerializationException,rows >= 0 && (D == Eigen::Dynamic || rows <= D),"Unexpected number of rows found: " << rows);
       
+      M.resize(0,Eigen::NoChange); // Eigen keeps a pointer to freed memory if resizing runs out of memory
       M.resize(rows,Eigen::NoChange);
       if(rows > 0 && cols > 0)
 	{
@@ -143,6 +144,7 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
       SM_ASSERT_TRUE(sm::eigen::SerializationException,cols >= 0 && (E == Eigen::Dynamic || cols <= E),"Unexpected number of columns found: " << cols);
     
+      M.resize(Eigen::NoChange,0); // Eigen keeps a pointer to freed memory if resizing runs out of memory
       M.resize(Eigen::NoChange,cols);
       if(rows > 0 && cols > 0)
 	{
@@ -174,6 +176,7 @@ namespace boost { namespace serialization {
       SM_ASSERT_TRUE(sm::eigen::SerializationException,rows >= 0 && (D == Eigen::Dynamic || rows <= D),"Unexpected number of rows found: " << rows);
       SM_ASSERT_TRUE(sm::eigen::SerializationException,cols >= 0 && (E == Eigen::Dynamic || cols <= E),"Unexpected number of columns found: " << cols);
       
+      M.resize(0,0); // Eigen keeps a pointer to freed memory if resizing runs out of memory
       M.resize(rows,cols);
       if(rows > 0 && cols > 0)
 	{
-- 
2.43.0


From 278822ee137ee91760d957983a0caf521c4b1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:27 +0000
Subject: [PATCH 54/70] fix: a pose with a zero, huge or tiny quaternion in a
 property tree was read as a transformation of NaNs or zeros

---
 sm_kinematics/include/sm/kinematics/property_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/include/sm/kinematics/property_tree.hpp b/sm_kinematics/include/sm/kinematics/property_tree.hpp
index 577cbff..82ae231 100644
--- a/sm_kinematics/include/sm/kinematics/property_tree.hpp
+++ b/sm_kinematics/include/sm/kinematics/property_tree.hpp
@@ -1,6 +1,8 @@
 #ifndef SM_KINEMATICS_PROPERTY_TREE_HPP
 #define SM_KINEMATICS_PROPERTY_TREE_HPP
 
+#include <limits>
+#include <sm/assert_macros.hpp>
 #include <sm/eigen/property_tree.hpp>
 #include <sm/kinematics/Transformation.hpp>
 
@@ -10,7 +12,9 @@ namespace sm {
         inline sm::kinematics::Transformation transformationFromPropertyTree(const sm::ConstPropertyTree & config)
         {
             Eigen::Vector4d q = sm::eigen::quaternionFromPropertyTree( sm::ConstPropertyTree(config, "q_a_b") );
-            q = q / q.norm();
+            double n = q.stableNorm();
+            SM_ASSERT_TRUE(std::runtime_error, n > 0.0 && n <= std::numeric_limits<double>::max(), "The quaternion q_a_b cannot be normalized: " << q.transpose());
+            q = q / n;
             Eigen::Vector3d t = sm::eigen::vector3FromPropertyTree( sm::ConstPropertyTree(config, "t_a_b_a" ) );
             return sm::kinematics::Transformation(q,t);
         }
-- 
2.43.0


From 7231e5a4cfc54511b7c1b5445facda98b02b1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:28 +0000
Subject: [PATCH 55/70] fix: ptimeToTimeval did not return the time it had
 computed

---
 sm_boost/include/sm/boost/ptime.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..d024383 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -14,9 +14,7 @@ namespace sm {
         timeval tv;
         tv.tv_sec = duration.total_seconds();
         tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        return tv;
     }
 
     
-- 
2.43.0


From a5772f4f7cc3f139421c9d4d6eb52e4c51bffa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:10 +0000
Subject: [PATCH 56/70] fix: StdOutLogger stayed silent for good after one
 failed write to std::cout

---
 sm_logging/src/StdOutLogger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_logging/src/StdOutLogger.cpp b/sm_logging/src/StdOutLogger.cpp
index a2dd2d9..90dbc70 100644
--- a/sm_logging/src/StdOutLogger.cpp
+++ b/sm_logging/src/StdOutLogger.cpp
@@ -17,8 +17,10 @@ namespace sm {
         
         void StdOutLogger::logImplementation(const LoggingEvent & event)
         {
+            // A write that failed earlier (a full disk, say) must not silence the console for good.
+            if (std::cout.bad())
+                std::cout.clear();
             formatter.print(event,std::cout);
-            
         }
 
 
-- 
2.43.0


From 5b70b49e2f5c1c54952f5d574cba40d194c6627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:18 +0000
Subject: [PATCH 57/70] fix: lsma reported success when its output could not be
 written

---
 sm_matrix_archive/src/lsma.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_matrix_archive/src/lsma.cpp b/sm_matrix_archive/src/lsma.cpp
index 0d44c3b..b61a22f 100644
--- a/sm_matrix_archive/src/lsma.cpp
+++ b/sm_matrix_archive/src/lsma.cpp
@@ -23,5 +23,9 @@ int main(int argc, char **argv) {
       std::cout << namePrefix << m.first << " :\n" << m.second << std::endl;
     }
   }
+  if(!std::cout.flush()){
+    std::cerr << argv[0] << ": the output could not be written" << std::endl;
+    return -1;
+  }
   return 0;
 }
-- 
2.43.0


From 322adb3569edc7455a5dcfdd83c1ba33b55b92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:00 +0000
Subject: [PATCH 58/70] fix: statements logged from Python reached the logger
 while another thread's event was in it

---
 sm_python/src/Logging.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/sm_python/src/Logging.cpp b/sm_python/src/Logging.cpp
index cbe65dd..315c0e6 100644
--- a/sm_python/src/Logging.cpp
+++ b/sm_python/src/Logging.cpp
@@ -1,6 +1,5 @@
 #include <numpy_eigen/boost_python_headers.hpp>
 #include <sm/logging.hpp>
-#include <sm/logging/LoggingEvent.hpp>
 
 
 void smLogNamed(const std::string & name, sm::logging::Level level, 
@@ -10,17 +9,8 @@ void smLogNamed(const std::string & name, sm::logging::Level level,
 
     if (!sm::logging::isNamedStreamEnabled(name)) return;
     
-    boost::shared_ptr<sm::logging::Logger> logger = sm::logging::getLogger();
-    sm::logging::LoggingEvent event(name.c_str(),
-                                    level,
-                                    file.c_str(), 
-                                    line, 
-                                    function.c_str(),
-                                    message.c_str(),
-                                    logger->currentTimeString());
-    
-    logger->log(event);
-
+    // As the C++ macros do: print() lets one event at a time reach the logger.
+    sm::logging::g_logging_globals.print(name.c_str(), level, file.c_str(), line, function.c_str(), "%s", message.c_str());
 }
 
 void smLog(sm::logging::Level level, const std::string & file, int line, const std::string & function, 
-- 
2.43.0


From 58d2868362b41214dcef39f140f770410dac5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:00 +0000
Subject: [PATCH 59/70] fix: LoggingGlobals::shutdown raced with statements of
 other threads

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 0ac83a5..dedc4b2 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -102,7 +102,7 @@ namespace sm {
             boost::mutex _logger_mutex; ///< protects _logger
             boost::shared_ptr<Logger> _logger;
 
-            bool _shutting_down;
+            std::atomic<bool> _shutting_down;
 
             boost::mutex _init_mutex;
 
-- 
2.43.0


From 740870990a078f6371db75c9bb2ea5775b4cf669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:17 +0000
Subject: [PATCH 60/70] fix: sm::matlab::Engine closed a handle it never had
 and ended the program if Matlab was gone

---
 sm_matlab/src/Engine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index dfbd21f..693cd9f 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -15,6 +15,7 @@ namespace sm {
 
 	Engine::Engine(bool startMatlabAtInitialization)
     {
+		_engine = NULL;
 		// make sure the output buffer is NULL terminated
         _outputBuffer[OUTPUT_BUFFER_SIZE] = '\0';
 
@@ -40,8 +41,8 @@ namespace sm {
     {
 		if (_engine!=NULL)
 		{
-			int success = engClose(_engine);
-			SM_ASSERT_EQ_DBG(EngineCloseException, success, 0, "Closing Matlab was not possible. Maybe already closed.");
+			// A destructor must not throw: that would end the program. stop() tells whether Matlab could be closed.
+			engClose(_engine);
 		}
     }
 
-- 
2.43.0


From c3888221dd2f2d9e8540f62c40d10ee9489b4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:18 +0000
Subject: [PATCH 61/70] fix: sm::matlab::Engine::exists used an engine that was
 not initialised

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 693cd9f..bd339e8 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -149,6 +149,7 @@ namespace sm {
 
 	  bool Engine::exists(const std::string& name)
 	  {
+		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
-- 
2.43.0


From ea6be2c7ce76d25f52fc88671eafd84cfbc627cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:18 +0000
Subject: [PATCH 62/70] fix: sm::matlab::Engine leaked the Matlab arrays of
 questions and failures and used arrays it did not get

---
 sm_matlab/include/sm/matlab/Engine.hpp | 22 +++++++++++++---
 sm_matlab/src/Engine.cpp               | 36 ++++++++++++--------------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index cef7ec3..702a461 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -36,6 +36,20 @@ namespace sm {
 	SM_DEFINE_EXCEPTION(EngineGetException, EngineException);
 	SM_DEFINE_EXCEPTION(EngineExecutionException, EngineException);
     
+    namespace detail {
+      /// Destroys a Matlab array at the end of the scope, however it is left.
+      class ArrayGuard
+      {
+      public:
+        explicit ArrayGuard(mxArray* array) : _array(array) {}
+        ~ArrayGuard() { if (_array) mxDestroyArray(_array); }
+      private:
+        ArrayGuard(const ArrayGuard&);
+        ArrayGuard& operator=(const ArrayGuard&);
+        mxArray* _array;
+      };
+    } // namespace detail
+
     ///
     /// @class Engine
     /// @brief a class that wraps the matlab C engine.
@@ -194,6 +208,8 @@ namespace sm {
 		Eigen::MatrixXd matrix = matrixBase.template cast<double>();
     
         mxArray* mxArray = mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL);
+        const detail::ArrayGuard guard(mxArray);
+        SM_ASSERT_TRUE(EnginePutException, mxArray != NULL, "Failed to create the Matlab variable");
         
         SM_ASSERT_EQ(InvalidSizeException, mxGetElementSize(mxArray), sizeof(double), "Data types do not match");
         
@@ -207,8 +223,6 @@ namespace sm {
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 	template <typename Scalar>
@@ -219,12 +233,12 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateDoubleScalar(static_cast<double>(value));
+        const detail::ArrayGuard guard(mxArray);
+        SM_ASSERT_TRUE(EnginePutException, mxArray != NULL, "Failed to create the Matlab variable");
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 
diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index bd339e8..0233b48 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -1,6 +1,7 @@
 #include <sm/matlab/Engine.hpp>
 #include <cctype>
 #include <stdio.h>
+#include <vector>
 
 namespace sm {
   namespace matlab {
@@ -153,6 +154,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 		// Check if variable exists
 		return (mxArray!=NULL);
 	  }
@@ -163,6 +165,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -175,6 +178,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -187,6 +191,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -199,6 +204,7 @@ namespace sm {
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 		// Check if variable exists
 		if(!mxArray)
 			return false;
@@ -220,12 +226,12 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateString(value.c_str());
+        const detail::ArrayGuard guard(mxArray);
+        SM_ASSERT_TRUE(EnginePutException, mxArray != NULL, "Failed to create the Matlab variable");
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 	
@@ -236,12 +242,12 @@ namespace sm {
     
         // Matlab stores all variables as doubles so we can just type cast here
         mxArray* mxArray = mxCreateLogicalScalar(value);
+        const detail::ArrayGuard guard(mxArray);
+        SM_ASSERT_TRUE(EnginePutException, mxArray != NULL, "Failed to create the Matlab variable");
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 
@@ -255,6 +261,7 @@ namespace sm {
     
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -267,9 +274,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxGetScalar(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -281,6 +285,7 @@ namespace sm {
     
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -293,12 +298,9 @@ namespace sm {
 		// read data
 		// lenght + 1 because of 0 terminated string
 		size_t lenght = mxGetNumberOfElements(mxArray)+1;
-		char* buffer = new char[lenght];
-		mxGetString(mxArray, buffer, lenght);
-		rValue = buffer;
-          
-		// delete array
-        mxDestroyArray(mxArray);
+		std::vector<char> buffer(lenght);
+		mxGetString(mxArray, &buffer[0], lenght);
+		rValue = &buffer[0];
 
 		return true;
     }
@@ -310,6 +312,7 @@ namespace sm {
     
         // Get variable from matlab
         mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -322,9 +325,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxIsLogicalScalarTrue(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -336,6 +336,7 @@ namespace sm {
 
 		// Get variable from matlab
         mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		const detail::ArrayGuard guard(mxArray);
 
 		// Check if variable exists
 		if (!mxArray)
@@ -355,9 +356,6 @@ namespace sm {
 		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray), "Datatype does not match");
 		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
 
-		// delete array
-        mxDestroyArray(mxArray);
-
 		return true;
 	}
 	
-- 
2.43.0


From 1a38352c1595638c9d811928dfa15e1608d82ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:18 +0000
Subject: [PATCH 63/70] fix: sm::matlab::Engine::getEigen returned the bits of
 64-bit integers and memory behind sparse matrices

---
 sm_matlab/src/Engine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 0233b48..abad6f3 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -342,18 +342,19 @@ namespace sm {
 		if (!mxArray)
 			return false;
 
-		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric");
+		SM_ASSERT_TRUE(InvalidTypeException, mxIsDouble(mxArray) && !mxIsSparse(mxArray), "Variable is not a full matrix of doubles");
 		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
 		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray), 2, "Variable is 2-dimensional");
 
 		size_t rows = mxGetM(mxArray);
 		size_t cols = mxGetN(mxArray);
 
+		SM_ASSERT_EQ(InvalidTypeException, sizeof(double), mxGetElementSize(mxArray), "Datatype does not match");
+
 		rValue.resize(rows, cols);
 
 		void* mxArrayData = mxGetData(mxArray);
 
-		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray), "Datatype does not match");
 		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
 
 		return true;
-- 
2.43.0


From b24f8ea7f050f9264b5bd538b76c031c6666a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:24 +0000
Subject: [PATCH 64/70] fix: the Matlab command line cut long commands into
 pieces and the last character off the last one

---
 sm_matlab/src/Engine.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index abad6f3..071d06f 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -126,15 +126,21 @@ namespace sm {
             // Prepare input line
             std::cout<<">> ";
             
-            // Read from console
-            if (!fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            // Read from console. A line may be longer than the buffer, and the last one may lack its line break.
+            std::string command;
+            bool complete = false;
+            while (!complete && fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            {
+                command += _inputBuffer;
+                complete = !command.empty() && command[command.size() - 1] == '\n';
+            }
+            if (command.empty())
                 break;
-            
-            // Convert to string
-            std::string command(_inputBuffer);
-			// remove line break
-			command.resize(command.size() - 1);
-			
+
+            // remove line break
+            if (complete)
+                command.resize(command.size() - 1);
+
             // Check if user wants to exit
             // this intentionally blocks the MATLAB commands "exit" and "quit"
             if (command == "quit" || command == "exit")
-- 
2.43.0


From 0a978b4bfd95cee2b5980aa9bd43af705a13bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:44 +0000
Subject: [PATCH 65/70] fix: sm::matlab::Engine::getEigen freed its result
 twice if there was no memory for it

---
 sm_matlab/src/Engine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 071d06f..0c31348 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -357,11 +357,13 @@ namespace sm {
 
 		SM_ASSERT_EQ(InvalidTypeException, sizeof(double), mxGetElementSize(mxArray), "Datatype does not match");
 
-		rValue.resize(rows, cols);
+		// Eigen's resize leaves a dangling matrix behind if there is no memory
+		Eigen::MatrixXd result(rows, cols);
 
 		void* mxArrayData = mxGetData(mxArray);
 
-		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
+		std::memcpy(result.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
+		rValue.swap(result);
 
 		return true;
 	}
-- 
2.43.0


From bcfd384a597060d2d3ad6df15863518e0b6cc301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:40 +0000
Subject: [PATCH 66/70] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME in an
 expression left out the comparisons behind the first

---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..aa1e56d 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From bbf8810fec7a9e1cf08da42952083a08f0dc33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:51 +0000
Subject: [PATCH 67/70] fix: serialising a row of a cv::Mat wrote the memory
 behind it

---
 sm_opencv/include/sm/opencv/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 9134e96..105dd1f 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize())); // the step of a single row is that of the matrix it is part of
     }
  
     template<class Archive>
-- 
2.43.0


From 699bdc1db394cb2af9a25af0d587431383f047d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:51 +0000
Subject: [PATCH 68/70] fix: loading a cv::Mat into part of another overwrote
 the rest of that one

---
 sm_opencv/include/sm/opencv/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 105dd1f..6fe7dfc 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -133,8 +133,10 @@ namespace boost
       ar & make_nvp("rows",rows);
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
-      mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      // a matrix of its own: create() keeps pixels that others share or that are part of a larger matrix
+      cv::Mat mat_(rows, cols, type);
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
+      mat = mat_;
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From f8d696bcd55cd905f67a1f7f23d0c1e0c0010fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:51 +0000
Subject: [PATCH 69/70] fix: serialising a cv::Mat of more than two dimensions
 read memory it does not own

---
 sm_opencv/include/sm/opencv/serialization.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 6fe7dfc..d8d3c31 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -7,6 +7,7 @@
 #include <boost/serialization/binary_object.hpp>
 #include <boost/serialization/split_free.hpp>
 #include <opencv2/features2d/features2d.hpp>
+#include <sm/assert_macros.hpp>
 #include <sm/serialization_macros.hpp>
 
 namespace sm {
@@ -113,6 +114,7 @@ namespace boost
     void save(Archive & ar, const cv::Mat& mat, const unsigned int /* version */)
     {
       using namespace boost::serialization;
+      SM_ASSERT_LE(std::runtime_error, mat.dims, 2, "Only two-dimensional matrices can be serialised");
       cv::Mat mat_;
       mat_ = mat;
       if (!mat.isContinuous()) {
-- 
2.43.0


From d9dd6fb12c87af2f2af868d8cbeb60d89e7fc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:44 +0000
Subject: [PATCH 70/70] fix: load_txt refused complete files whose last value
 is binary and never returned after some read errors

---
 sm_boost/include/sm/boost/serialization.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 6d6efd7..76b31bd 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -66,11 +66,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ifstream ifs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ifs.good(), "Unable to open file " << filename << " for reading");
-            ::boost::archive::text_iarchive ia(ifs);
+
+            // Reading binary objects from a stream that fails would never end
+            std::stringstream txt;
+            txt << ifs.rdbuf();
+            SM_ASSERT_TRUE(std::runtime_error,txt.good(), "Unable to read file " << filename);
+
+            ::boost::archive::text_iarchive ia(txt);
     
             ia >> object;
-            // text archives end with a newline: without it the last number may have lost digits
-            SM_ASSERT_TRUE(std::runtime_error,ifs.peek() != std::ifstream::traits_type::eof(), "The file " << filename << " is truncated");
+            // text archives end with a newline: without it the last value may have lost its end
+            SM_ASSERT_TRUE(std::runtime_error,txt.good(), "The file " << filename << " is truncated");
 
         }
 
-- 
2.43.0

