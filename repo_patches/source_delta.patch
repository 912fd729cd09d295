From 3bd4da190ace6034428717c463cb7e562752b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 01/58] fix: Semaphore grants permits atomically and wakes
 every waiter

Waiting without re-checking the counter under the condition mutex lost
wakeups, granted permits that did not exist and drove the counter
negative; a partial multi-permit acquire kept what it had taken; timed
attempts could fail early and never saw a permit released at the end.
---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 62 +++++++------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..48d8ca7 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -74,7 +74,7 @@ void Concurrent::Semaphore::release(int permits) {
     permitMutexObject.lock();
     permitCounter += permits;
     permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,47 +86,24 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
+    // Every check of the counter that may lead to a wait happens while
+    // conditionMutexObject is held, so that no release is missed.
+    std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
     if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
+        while (true) {
+            {
+                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
+                if (permits <= permitCounter) {
+                    permitCounter -= permits;
+                    return true;
+                }
             }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
+            conditionObject.wait(conditionLocker);
         }
-        return true;
     } else {
-        {
-            std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-            if (permits <= permitCounter) {
-                permitCounter -= permits;
-                return true;
-            }
-        }
-
-        long waitTime = timeout;
+        const long maximumWaitTime = 3600000;
+        const steady_clock::time_point startTime = steady_clock::now();
         while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
-                return false;
-            }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
-
             {
                 std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
                 if (permits <= permitCounter) {
@@ -134,7 +111,16 @@ boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
                     return true;
                 }
             }
+
+            const long elapsedTime = duration_cast<milliseconds>(
+                    steady_clock::now() - startTime).count();
+            if (elapsedTime >= timeout) {
+                return false;
+            }
+
+            long waitTime = std::min(timeout - elapsedTime, maximumWaitTime);
+            conditionObject.wait_for(
+                    conditionLocker, std::chrono::milliseconds(waitTime));
         }
     }
 }
-
-- 
2.43.0


From 0d8109bcd45a9c0da7c8369f29651043425ba353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 02/58] fix: Thread signals its end to every join and starts
 only once

---
 library/Java/Lang/Thread/Thread.cpp | 46 ++++++++++++++++++++++-------
 library/Java/Lang/Thread/Thread.hpp |  6 ++++
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..f252221 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -48,13 +48,16 @@ Thread::Thread(std::function<void()> func) {
 }
 
 Thread::~Thread() {
+    if (detached)
+        join();
     if (threadObject.joinable())
         threadObject.join();
     if (semaphoreObject.availablePermits() > 0)
         semaphoreObject.release(semaphoreObject.availablePermits());
 }
 
-void Thread::run() {
+void Thread::execute() {
+    mutexObject.lock();
     // set thread id
     this->tid = (unsigned long)pthread_self();
 
@@ -62,19 +65,22 @@ void Thread::run() {
     if (currentThreadPtr == nullptr) {
         currentThreadPtr = this;
     }
+    mutexObject.unlock();
+
+    this->run();
 
     mutexObject.lock();
-    alive = true;
+    alive = false;
     mutexObject.unlock();
 
+    // The last use of this object by a detached thread
+    semaphoreObject.release(1);
+}
+
+void Thread::run() {
     if (this->func) {
         this->func();
     }
-    semaphoreObject.release(1);
-
-    mutexObject.lock();
-    alive = false;
-    mutexObject.unlock();
 }
 
 void Thread::setName(String name) {
@@ -84,7 +90,9 @@ void Thread::setName(String name) {
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    }
 }
 
 String Thread::getName() {
@@ -97,12 +105,17 @@ boolean Thread::isAlive() {
 }
 
 unsigned long Thread::getId() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->tid;
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
-        threadObject = std::move(std::thread(&Thread::run, this));
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (!started) {
+        // The new thread waits for the lock, so it sees the object as alive
+        threadObject = std::move(std::thread(&Thread::execute, this));
+        started = true;
+        alive = true;
     }
 }
 
@@ -111,10 +124,21 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
+    mutexObject.lock();
+    const boolean waiting = started;
+    mutexObject.unlock();
+    if (!waiting) {
+        return;
+    }
+
+    // The permit is given back, every other join needs it too
     if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+        if (semaphoreObject.tryAcquire(1, millis)) {
+            semaphoreObject.release(1);
+        }
     } else {
         semaphoreObject.acquire();
+        semaphoreObject.release(1);
     }
 }
 
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 5dc85b7..d56f1f1 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -39,6 +39,7 @@ namespace Java {
             class Thread : public Object, public virtual Runnable {
                 private:
                     boolean alive = false;
+                    boolean started = false;
                     boolean detached = false;
                     String name;
                     unsigned long tid = 0;
@@ -59,6 +60,11 @@ namespace Java {
                      */
                     void init(Runnable *target, String name);
 
+                    /**
+                     * Runs the task in the new thread and signals its end.
+                     */
+                    void execute();
+
 				 public:
                     Thread();
                     Thread(Runnable* target);
-- 
2.43.0


From 0c43dce2a1c90750f295bbbe34844142e0ed3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 03/58] hook: NATIVE_SIM scales the initial concurrent map down

---
 .../ConcurrentHashMap/libcuckoo/cuckoohash_config.hh        | 6 ++++++
 .../ConcurrentHashMap/libcuckoo/cuckoohash_map.hh           | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
index 48aa0e9..62bb1e3 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
@@ -15,8 +15,14 @@ namespace libcuckoo {
     constexpr size_t DEFAULT_SLOT_PER_BUCKET = 4;
 
 //! The default number of elements in an empty hash table
+#ifdef NATIVE_SIM
+    // The simulator scales the initial table and the number of locks down alike
+    constexpr size_t DEFAULT_SIZE =
+            (1U << 2) * DEFAULT_SLOT_PER_BUCKET;
+#else
     constexpr size_t DEFAULT_SIZE =
             (1U << 16) * DEFAULT_SLOT_PER_BUCKET;
+#endif
 
 //! The default minimum load factor that the table allows for automatic
 //! expansion. It must be a number between 0.0 and 1.0. The table will throw
diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..b732856 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -2012,7 +2012,11 @@ namespace libcuckoo {
         // This class is a friend for unit testing
         friend class UnitTestInternalAccess;
 
+#ifdef NATIVE_SIM
+        static constexpr size_type kMaxNumLocks = 1UL << 2;
+#else
         static constexpr size_type kMaxNumLocks = 1UL << 16;
+#endif
 
         locks_t &get_current_locks() const { return all_locks_.back(); }
 
-- 
2.43.0


From a7bc825c48cf5b9ce065dcfd84a2cf23d9fbe8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 04/58] fix: ConcurrentHashMap removes and replaces atomically,
 clears under its locks

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 69 ++++++++-----------
 .../libcuckoo/cuckoohash_map.hh               | 18 ++---
 2 files changed, 40 insertions(+), 47 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..4d25295 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -340,7 +340,7 @@ namespace Java {
                         var value = original.find(key);
                         return value;
                     } catch (std::out_of_range &exception) {
-                        V v;
+                        V v = V();
                         return v;
                     }
                 }
@@ -401,12 +401,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.upsert(key, [&result](const V &current) {
+                        result = current;
+                    }, value);
+                    return result;
                 }
 
                 /**
@@ -420,13 +419,11 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
+                    V v = V();
+                    original.erase_fn(key, [&v](const V &current) {
+                        v = current;
+                        return true;
+                    });
                     return v;
                 }
 
@@ -441,16 +438,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&removed, &value](const V &v) {
+                        removed = v == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
@@ -467,13 +460,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&result, &value](V &current) {
+                        result = current;
+                        current = value;
+                    });
                     return result;
                 }
 
@@ -492,14 +483,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&](V &current) {
+                        if (current == oldValue) {
+                            current = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index b732856..5d12398 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -341,8 +341,9 @@ namespace libcuckoo {
             for (spinlock &lock : get_current_locks()) {
                 s += lock.elem_counter();
             }
-            assert(s >= 0);
-            return static_cast<size_type>(s);
+            // While other threads move and erase elements, the counters read one
+            // after the other may add up to less than nothing.
+            return s > 0 ? static_cast<size_type>(s) : 0;
         }
 
         /** Returns the current capacity of the table, that is, @ref bucket_count()
@@ -678,7 +679,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
@@ -805,13 +806,13 @@ namespace libcuckoo {
             spinlock() : elem_counter_(0), is_migrated_(true) { lock_.clear(); }
 
             spinlock(const spinlock &other) noexcept
-                    : elem_counter_(other.elem_counter()),
+                    : elem_counter_(other.elem_counter().load()),
                       is_migrated_(other.is_migrated()) {
                 lock_.clear();
             }
 
             spinlock &operator=(const spinlock &other) noexcept {
-                elem_counter() = other.elem_counter();
+                elem_counter() = other.elem_counter().load();
                 is_migrated() = other.is_migrated();
                 return *this;
             }
@@ -827,15 +828,16 @@ namespace libcuckoo {
                 return !lock_.test_and_set(std::memory_order_acq_rel);
             }
 
-            counter_type &elem_counter() noexcept { return elem_counter_; }
-            counter_type elem_counter() const noexcept { return elem_counter_; }
+            // Atomic because size() reads the counters without taking the locks
+            std::atomic<counter_type> &elem_counter() noexcept { return elem_counter_; }
+            const std::atomic<counter_type> &elem_counter() const noexcept { return elem_counter_; }
 
             bool &is_migrated() noexcept { return is_migrated_; }
             bool is_migrated() const noexcept { return is_migrated_; }
 
         protected:
             std::atomic_flag lock_;
-            counter_type elem_counter_;
+            std::atomic<counter_type> elem_counter_;
             bool is_migrated_;
         };
 
-- 
2.43.0


From 1870eb42b1975795654bed456c2e2dbb28170f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 05/58] hook: NATIVE_SIM scales queue blocks, index, producer
 table and spinning down

---
 .../ConcurrentLinkedQueue/concurrentqueue.hpp        | 12 ++++++++++++
 .../LinkedBlockingQueue/lightweightsemaphore.hpp     |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 1340b97..5b2f533 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -306,7 +306,11 @@ namespace moodycamel {
         // but many producers, a smaller block size should be favoured. For few producers
         // and/or many elements, a larger block size is preferred. A sane default
         // is provided. Must be a power of 2.
+#ifdef NATIVE_SIM
+        static const size_t BLOCK_SIZE = 2;
+#else
         static const size_t BLOCK_SIZE = 32;
+#endif
 
         // For explicit producers (i.e. when using a producer token), the block is
         // checked for being empty by iterating through a list of flags, one per element.
@@ -321,13 +325,21 @@ namespace moodycamel {
 
         // How many full blocks can be expected for a single implicit producer? This should
         // reflect that number's maximum for optimal performance. Must be a power of 2.
+#ifdef NATIVE_SIM
+        static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
+#else
         static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 32;
+#endif
 
         // The initial size of the hash table mapping thread IDs to implicit producers.
         // Note that the hash is resized every time it becomes half full.
         // Must be a power of two, and either 0 or at least 1. If 0, implicit production
         // (using the enqueue methods without an explicit producer token) is disabled.
+#ifdef NATIVE_SIM
+        static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
+#else
         static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 32;
+#endif
 
         // Controls the number of items that an explicit consumer (i.e. one with a token)
         // must consume before it causes all consumers to rotate and move on to the next
diff --git a/library/Java/Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp b/library/Java/Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp
index 85b915d..425ee04 100644
--- a/library/Java/Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp
+++ b/library/Java/Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp
@@ -264,7 +264,11 @@ public:
             // Is there a better way to set the initial spin count?
             // If we lower it to 1000, testBenaphore becomes 15x slower on my Core i7-5930K Windows PC,
             // as threads start hitting the kernel semaphore.
+#ifdef NATIVE_SIM
+            int spin = 2;
+#else
             int spin = 10000;
+#endif
             while (--spin >= 0)
             {
                 oldCount = m_count.load(std::memory_order_relaxed);
@@ -298,7 +302,11 @@ public:
         {
             assert(max > 0);
             ssize_t oldCount;
+#ifdef NATIVE_SIM
+            int spin = 2;
+#else
             int spin = 10000;
+#endif
             while (--spin >= 0)
             {
                 oldCount = m_count.load(std::memory_order_relaxed);
-- 
2.43.0


From 1e32a517a2df0211026f5c5855c8fb91669ec16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 06/58] fix: ConcurrentLinkedQueue offers, clears and polls
 what it holds

---
 .../ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..c990606 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -52,8 +52,7 @@ namespace Java {
                 }
 
                 boolean add(const E &e) {
-                    original.enqueue(e);
-                    return true;
+                    return original.enqueue(e);
                 }
 
                 E element() {
@@ -61,7 +60,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
-                    return true;
+                    return original.enqueue(e);
                 }
 
                 E peek() const {
@@ -69,7 +68,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
@@ -79,6 +78,9 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e;
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From 4d6d337bef221c54df1328f27738a450853d88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 07/58] fix: concurrentqueue orders every dequeue before its
 block is reused

---
 .../Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 5b2f533..43e5074 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -1556,7 +1556,7 @@ namespace moodycamel {
                 }
                 else {
                     // Increment counter
-                    auto prevVal = elementsCompletelyDequeued.fetch_add(1, std::memory_order_release);
+                    auto prevVal = elementsCompletelyDequeued.fetch_add(1, std::memory_order_acq_rel);
                     assert(prevVal < BLOCK_SIZE);
                     return prevVal == BLOCK_SIZE - 1;
                 }
@@ -1579,7 +1579,7 @@ namespace moodycamel {
                 }
                 else {
                     // Increment counter
-                    auto prevVal = elementsCompletelyDequeued.fetch_add(count, std::memory_order_release);
+                    auto prevVal = elementsCompletelyDequeued.fetch_add(count, std::memory_order_acq_rel);
                     assert(prevVal + count <= BLOCK_SIZE);
                     return prevVal + count == BLOCK_SIZE;
                 }
-- 
2.43.0


From 9192cba0ff603b1dcabee3e6d0933a7de289a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 08/58] fix: concurrentqueue's explicit producers survive a
 refused or throwing enqueue

---
 .../ConcurrentLinkedQueue/concurrentqueue.hpp | 114 +++++++++++-------
 1 file changed, 68 insertions(+), 46 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 43e5074..50696b7 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -1877,10 +1877,16 @@ private:
                             new ((*this->tailBlock)[currentTailIndex]) T(std::forward<U>(element));
                         }
                         MOODYCAMEL_CATCH (...) {
-                            // Revert change to the current block, but leave the new block available
+                            // Revert change to the current block, and leave the block available
                             // for next time
+                            if (pr_blockIndexSlotsUsed == originalBlockIndexSlotsUsed) {
+                                this->tailBlock->ConcurrentQueue::Block::template set_all_empty<explicit_context>();
+                            }
+                            else {
+                                return_blocks(startBlock, this->tailBlock);
+                            }
                             pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-                            this->tailBlock = startBlock == nullptr ? this->tailBlock : startBlock;
+                            this->tailBlock = startBlock;
                             MOODYCAMEL_RETHROW;
                         }
                     }
@@ -2017,10 +2023,10 @@ private:
                 // all the allocations succeeded).
                 index_t startTailIndex = this->tailIndex.load(std::memory_order_relaxed);
                 auto startBlock = this->tailBlock;
-                auto originalBlockIndexFront = pr_blockIndexFront;
-                auto originalBlockIndexSlotsUsed = pr_blockIndexSlotsUsed;
+                size_t newBlocks = 0;
 
                 Block* firstAllocatedBlock = nullptr;
+                Block* lastReusedBlock = startBlock;
 
                 // Figure out how many blocks we'll need to allocate, and do so
                 size_t blockBaseDiff = ((startTailIndex + count - 1) & ~static_cast<index_t>(BLOCK_SIZE - 1)) - ((startTailIndex - 1) & ~static_cast<index_t>(BLOCK_SIZE - 1));
@@ -2033,12 +2039,8 @@ private:
 
                         this->tailBlock = this->tailBlock->next;
                         firstAllocatedBlock = firstAllocatedBlock == nullptr ? this->tailBlock : firstAllocatedBlock;
-
-                        auto& entry = blockIndex.load(std::memory_order_relaxed)->entries[pr_blockIndexFront];
-                        entry.base = currentTailIndex;
-                        entry.block = this->tailBlock;
-                        pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
                     }
+                    lastReusedBlock = this->tailBlock;
 
                     // Now allocate as many blocks as necessary from the block pool
                     while (blockBaseDiff > 0) {
@@ -2048,34 +2050,26 @@ private:
                         auto head = this->headIndex.load(std::memory_order_relaxed);
                         assert(!details::circular_less_than<index_t>(currentTailIndex, head));
                         bool full = !details::circular_less_than<index_t>(head, currentTailIndex + BLOCK_SIZE) || (MAX_SUBQUEUE_SIZE != details::const_numeric_max<size_t>::value && (MAX_SUBQUEUE_SIZE == 0 || MAX_SUBQUEUE_SIZE - BLOCK_SIZE < currentTailIndex - head));
-                        if (pr_blockIndexRaw == nullptr || pr_blockIndexSlotsUsed == pr_blockIndexSize || full) {
+                        if (pr_blockIndexRaw == nullptr || pr_blockIndexSlotsUsed + newBlocks == pr_blockIndexSize || full) {
                             MOODYCAMEL_CONSTEXPR_IF (allocMode == CannotAlloc) {
-                                // Failed to allocate, undo changes (but keep injected blocks)
-                                pr_blockIndexFront = originalBlockIndexFront;
-                                pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-                                this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+                                // Failed to allocate, undo changes
+                                return_blocks(lastReusedBlock, this->tailBlock);
+                                this->tailBlock = startBlock;
                                 return false;
                             }
-                            else if (full || !new_block_index(originalBlockIndexSlotsUsed)) {
-                                // Failed to allocate, undo changes (but keep injected blocks)
-                                pr_blockIndexFront = originalBlockIndexFront;
-                                pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-                                this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+                            else if (full || !new_block_index(pr_blockIndexSlotsUsed)) {
+                                // Failed to allocate, undo changes
+                                return_blocks(lastReusedBlock, this->tailBlock);
+                                this->tailBlock = startBlock;
                                 return false;
                             }
-
-                            // pr_blockIndexFront is updated inside new_block_index, so we need to
-                            // update our fallback value too (since we keep the new index even if we
-                            // later fail)
-                            originalBlockIndexFront = originalBlockIndexSlotsUsed;
                         }
 
                         // Insert a new block in the circular linked list
                         auto newBlock = this->parent->ConcurrentQueue::template requisition_block<allocMode>();
                         if (newBlock == nullptr) {
-                            pr_blockIndexFront = originalBlockIndexFront;
-                            pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-                            this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+                            return_blocks(lastReusedBlock, this->tailBlock);
+                            this->tailBlock = startBlock;
                             return false;
                         }
 
@@ -2093,16 +2087,10 @@ private:
                         this->tailBlock = newBlock;
                         firstAllocatedBlock = firstAllocatedBlock == nullptr ? this->tailBlock : firstAllocatedBlock;
 
-                        ++pr_blockIndexSlotsUsed;
-
-                        auto& entry = blockIndex.load(std::memory_order_relaxed)->entries[pr_blockIndexFront];
-                        entry.base = currentTailIndex;
-                        entry.block = this->tailBlock;
-                        pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
+                        ++newBlocks;
                     }
 
-                    // Excellent, all allocations succeeded. Reset each block's emptiness before we fill them up, and
-                    // publish the new block index front
+                    // Excellent, all allocations succeeded. Reset each block's emptiness before we fill them up
                     auto block = firstAllocatedBlock;
                     while (true) {
                         block->ConcurrentQueue::Block::template reset_empty<explicit_context>();
@@ -2111,10 +2099,6 @@ private:
                         }
                         block = block->next;
                     }
-
-                    if (MOODYCAMEL_NOEXCEPT_CTOR(T, decltype(*itemFirst), new ((T*)nullptr) T(details::deref_noexcept(itemFirst)))) {
-                        blockIndex.load(std::memory_order_relaxed)->front.store((pr_blockIndexFront - 1) & (pr_blockIndexSize - 1), std::memory_order_release);
-                    }
                 }
 
                 // Enqueue, one block at a time
@@ -2153,15 +2137,10 @@ private:
                         }
                         MOODYCAMEL_CATCH (...) {
                             // Oh dear, an exception's been thrown -- destroy the elements that
-                            // were enqueued so far and revert the entire bulk operation (we'll keep
-                            // any allocated blocks in our linked list for later, though).
+                            // were enqueued so far and revert the entire bulk operation.
                             auto constructedStopIndex = currentTailIndex;
                             auto lastBlockEnqueued = this->tailBlock;
 
-                            pr_blockIndexFront = originalBlockIndexFront;
-                            pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-                            this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
-
                             if (!details::is_trivially_destructible<T>::value) {
                                 auto block = startBlock;
                                 if ((startTailIndex & static_cast<index_t>(BLOCK_SIZE - 1)) == 0) {
@@ -2182,6 +2161,13 @@ private:
                                     block = block->next;
                                 }
                             }
+
+                            for (auto block = startBlock; block != lastReusedBlock; ) {
+                                block = block->next;
+                                block->ConcurrentQueue::Block::template set_all_empty<explicit_context>();
+                            }
+                            return_blocks(lastReusedBlock, endBlock);
+                            this->tailBlock = startBlock;
                             MOODYCAMEL_RETHROW;
                         }
                     }
@@ -2193,7 +2179,22 @@ private:
                     this->tailBlock = this->tailBlock->next;
                 }
 
-                if (!MOODYCAMEL_NOEXCEPT_CTOR(T, decltype(*itemFirst), new ((T*)nullptr) T(details::deref_noexcept(itemFirst))) && firstAllocatedBlock != nullptr) {
+                // Add the blocks to the block index, and publish its new front
+                pr_blockIndexSlotsUsed += newBlocks;
+                if (firstAllocatedBlock != nullptr) {
+                    index_t blockBase = (startTailIndex - 1) & ~static_cast<index_t>(BLOCK_SIZE - 1);
+                    auto block = firstAllocatedBlock;
+                    while (true) {
+                        blockBase += static_cast<index_t>(BLOCK_SIZE);
+                        auto& entry = blockIndex.load(std::memory_order_relaxed)->entries[pr_blockIndexFront];
+                        entry.base = blockBase;
+                        entry.block = block;
+                        pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
+                        if (block == endBlock) {
+                            break;
+                        }
+                        block = block->next;
+                    }
                     blockIndex.load(std::memory_order_relaxed)->front.store((pr_blockIndexFront - 1) & (pr_blockIndexSize - 1), std::memory_order_release);
                 }
 
@@ -2310,6 +2311,27 @@ private:
             };
 
 
+            // Takes the blocks inserted after lastKept (nullptr: all of them), up to and including
+            // last, out of the circular linked list again
+            void return_blocks(Block* lastKept, Block* last)
+            {
+                if (last == lastKept) {
+                    return;
+                }
+                auto block = lastKept == nullptr ? last->next : lastKept->next;
+                if (lastKept != nullptr) {
+                    lastKept->next = last->next;
+                }
+                while (true) {
+                    auto next = block->next;
+                    this->parent->add_block_to_free_list(block);
+                    if (block == last) {
+                        break;
+                    }
+                    block = next;
+                }
+            }
+
             bool new_block_index(size_t numberOfFilledSlotsToExpose)
             {
                 auto prevBlockSizeMask = pr_blockIndexSize - 1;
-- 
2.43.0


From f920b8d790f64593579830a518e2771a8f58265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 09/58] fix: StringBuffer keeps its text terminated and inside
 its memory

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..e485f4d 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -103,7 +103,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -127,6 +127,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
     int memorySizeToMove = len * sizeof(char);
     memmove(appendPosition, startIndex, (size_t) memorySizeToMove);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -147,11 +148,12 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
     int memorySizeToInsert = len * sizeof(char);
     memmove(insertPosition, startIndex, (size_t) memorySizeToInsert);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -321,16 +323,17 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     if (end > this->currentLength) {
         fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
+        memorySizeToMove = 0;
         this->currentLength = start;
     } else {
         fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
+        memorySizeToMove = (this->currentLength - end) * sizeof(char);
         this->currentLength -= (end - start);
     }
 
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -515,16 +518,18 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
     this->ensureCapacity(newLength);
-    this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
-    int memorySizeToMove = stringToReplace.length() * sizeof(char);
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->currentLength = newLength;
+    this->original[this->currentLength] = '\0';
 
     string insertPosition = this->original + start;
+    int memorySizeToInsert = stringToReplace.length() * sizeof(char);
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-           (size_t) memorySizeToMove);
+           (size_t) memorySizeToInsert);
 
     return *this;
 }
@@ -641,15 +646,18 @@ void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -679,7 +687,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -973,7 +981,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From 43964de360f5366549df5cbc2cd41d0322d9f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 10/58] fix: StringBuffer locks its readers and the buffers it
 copies from

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 57 +++++++++++++++----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index e485f4d..38a5a54 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -121,7 +121,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -134,12 +134,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || (offset + len) > stringToInsert.length()) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -481,7 +481,7 @@ StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) c
     String reversedString = StringBuilder(stringToGetIndex).reverse();
     String reversedOriginalString = StringBuilder(this->original).reverse();
 
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
+    int substringIndex = this->currentLength - fromIndex - stringToGetIndex.length();
     reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
     int result = reversedOriginalString.indexOf(reversedString);
 
@@ -669,12 +669,21 @@ StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
 }
 
 
+// The text of a sequence at one moment: the sequence may be a buffer that
+// other threads change, or the buffer that is asked to take it
+static String textOf(const CharSequence &sequence) {
+    if (&sequence == nullptr) {
+        return "null";
+    }
+    return sequence.toString();
+}
+
 // StringBuffer
 StringBuffer::StringBuffer() : StringBufferUnSafe() {
 }
 
 StringBuffer::StringBuffer(const CharSequence &sequence) : StringBufferUnSafe(
-        sequence) {
+        textOf(sequence)) {
 }
 
 StringBuffer::StringBuffer(int capacity) : StringBufferUnSafe(capacity) {
@@ -685,7 +694,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -722,8 +731,9 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    const String text = textOf(sequence);
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -758,8 +768,15 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    const String text = textOf(sequence);
+    if (&sequence == nullptr) {
+        return this->append(text);
+    }
+    if (start < 0 || start > end || start > text.length()) {
+        throw IndexOutOfBoundsException();
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence, start, end);
+    StringBufferUnSafe::append(text, start, end - start);
     return *this;
 }
 
@@ -770,8 +787,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    const String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -807,10 +825,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -827,6 +847,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
@@ -886,8 +907,14 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    const String text = textOf(sequence);
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
+    if (&sequence == nullptr) {
+        StringBufferUnSafe::insert(destinationOffset, text);
+    } else {
+        StringBufferUnSafe::insert(
+                destinationOffset, (const CharSequence &) text, start, end);
+    }
     return *this;
 }
 
@@ -904,8 +931,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    const String text = textOf(charSequence);
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, text);
     return *this;
 }
 
@@ -979,7 +1007,12 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    if (this == &other) {
+        return *this;
+    }
+    std::lock(this->mutex, other.mutex);
+    std::lock_guard<std::mutex> guard(this->mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> otherGuard(other.mutex, std::adopt_lock);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
-- 
2.43.0


From 6923b6e9b8829502525d4033fa63e35b32178b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 11/58] fix: Random.nextGaussian is synchronised and nextString
 stays inside its buffer

---
 library/Java/Util/Random/Random.cpp | 4 +++-
 library/Java/Util/Random/Random.hpp | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..b0f856b 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -232,6 +232,7 @@ float Random::nextFloat() {
  * @return double
  */
 double Random::nextGaussian() {
+	std::lock_guard<std::mutex> guard(gaussianMutex);
 	if (haveNextGaussianNumber) {
 		haveNextGaussianNumber = false;
 		return nextGaussianNumber;
@@ -255,6 +256,7 @@ double Random::nextGaussian() {
  * @param seed
  */
 void Random::setSeed(long seed) {
+	std::lock_guard<std::mutex> guard(gaussianMutex);
 	this->seed.store(initialScramble(seed));
 	haveNextGaussianNumber = false;
 }
@@ -265,7 +267,7 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	char charArray[length + 1];
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 6a954d2..7ebf26f 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_UTIL_RANDOM_HPP
 #define NATIVE_JAVA_UTIL_RANDOM_HPP
 
+#include <mutex>
 #include "../../Lang.hpp"
 #define CHAR_LIST "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
@@ -45,6 +46,8 @@ namespace Java {
 						static constexpr double DOUBLE_UNIT = 1.0 / ( 1L << 53 );
 						boolean haveNextGaussianNumber = false;
 						double nextGaussianNumber;
+						// Guards the saved Gaussian number
+						std::mutex gaussianMutex;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From 8b296eb460dd3fa82c4d2aaeef7595ccf9fa141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 12/58] fix: UUID.variant shifts unsigned bits

leastSigBits is signed, so the shift count came out as 66 and the variant
of every ordinary identifier was wrong.
---
 library/Java/Util/UUID/UUID.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..915ad73 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,11 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	if (( bits >> 63 ) == 0) {
+		return 0;
+	}
+	return (int) ( bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From 7db8036cdd98ecc7fedf6b5dbf3cc4256e8769a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 13/58] fix: time-based UUIDs are not repeated

Threads shared the clock state without a lock, an eleventh identifier in one
microsecond equalled the first of the next one, a state file that lagged
behind (failed or torn write, unreadable) took the generator back, and a
failed file lock closed the descriptor twice.
---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 57 ++++++++++++++++++-----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..e425b27 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -54,6 +54,9 @@
 #include <fcntl.h>
 #include <errno.h>
 #include <limits.h>
+#ifndef _WIN32
+#include <pthread.h>
+#endif
 #include <sys/types.h>
 #include <sys/file.h>
 #ifdef HAVE_SYS_TIME_H
@@ -255,7 +258,7 @@ static int get_node_id(unsigned char *node_id)
 }
 
 /* Assume that the gettimeofday() has microsecond granularity */
-#define MAX_ADJUSTMENT 10
+#define MAX_ADJUSTMENT 9	/* ten 100 ns ticks, 0..9, per microsecond */
 
 /*
  * Get clock from global sequence clock counter.
@@ -297,8 +300,7 @@ static int get_clock(uint32_t *clock_high, uint32_t *clock_low,
 		while (flock(state_fd, LOCK_EX) < 0) {
 			if ((errno == EAGAIN) || (errno == EINTR))
 				continue;
-			fclose(state_f);
-			close(state_fd);
+			fclose(state_f);	/* closes state_fd as well */
 			state_fd = -1;
 			ret = -1;
 			break;
@@ -312,9 +314,20 @@ static int get_clock(uint32_t *clock_high, uint32_t *clock_low,
 		if (fscanf(state_f, "clock: %04x tv: %lu %lu adj: %d\n",
 			   &cl, &tv1, &tv2, &a) == 4) {
 			clock_seq = cl & 0x3FFF;
-			last.tv_sec = tv1;
-			last.tv_usec = tv2;
-			adjustment = a;
+			/* a file that lags behind must not take us back */
+			if ((last.tv_sec < (time_t) tv1) ||
+			    ((last.tv_sec == (time_t) tv1) &&
+			     ((last.tv_usec < (suseconds_t) tv2) ||
+			      ((last.tv_usec == (suseconds_t) tv2) &&
+			       (adjustment < a))))) {
+				last.tv_sec = tv1;
+				last.tv_usec = tv2;
+				adjustment = a;
+			}
+		} else if ((last.tv_sec != 0) || (last.tv_usec != 0)) {
+			/* what the others handed out is lost */
+			random_get_bytes(&clock_seq, sizeof(clock_seq));
+			clock_seq &= 0x3FFF;
 		}
 	}
 
@@ -360,13 +373,22 @@ try_again:
 		len = fprintf(state_f,
 			      "clock: %04x tv: %016lu %08d adj: %08d\n",
 			      clock_seq, last.tv_sec, (int) last.tv_usec, adjustment);
-		fflush(state_f);
-		if (ftruncate(state_fd, len) < 0) {
-			fprintf(state_f, "                   \n");
-			fflush(state_f);
+		if (fflush(state_f) != 0 || len < 0) {
+			/*
+			 * Not saved: the file is behind what was handed out,
+			 * so it must not be read back.  Go on without it.
+			 */
+			fclose(state_f);
+			state_fd = -1;
+			ret = -1;
+		} else {
+			if (ftruncate(state_fd, len) < 0) {
+				fprintf(state_f, "                   \n");
+				fflush(state_f);
+			}
+			rewind(state_f);
+			flock(state_fd, LOCK_UN);
 		}
-		rewind(state_f);
-		flock(state_fd, LOCK_UN);
 	}
 
 	*clock_high = clock_reg >> 32;
@@ -441,6 +463,11 @@ static int get_uuid_via_daemon(int op, uuid_t out, int *num)
 }
 #endif
 
+#ifndef _WIN32
+/* the clock state and the node id are shared by all threads */
+static pthread_mutex_t generator_lock = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
 int __uuid_generate_time(uuid_t out, int *num)
 {
 	static unsigned char node_id[6];
@@ -449,6 +476,9 @@ int __uuid_generate_time(uuid_t out, int *num)
 	uint32_t	clock_mid;
 	int ret;
 
+#ifndef _WIN32
+	pthread_mutex_lock(&generator_lock);
+#endif
 	if (!has_init) {
 		if (get_node_id(node_id) <= 0) {
 			random_get_bytes(node_id, 6);
@@ -466,6 +496,9 @@ int __uuid_generate_time(uuid_t out, int *num)
 	uu.time_mid = (uint16_t) clock_mid;
 	uu.time_hi_and_version = ((clock_mid >> 16) & 0x0FFF) | 0x1000;
 	memcpy(uu.node, node_id, 6);
+#ifndef _WIN32
+	pthread_mutex_unlock(&generator_lock);
+#endif
 	uuid_pack(&uu, out);
 	return ret;
 }
-- 
2.43.0


From fcc200d252ec8289f8317c437f3d563aec2eae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 14/58] fix: random UUIDs without an entropy device are not
 repeated

rand() was seeded again by every call, so calls within one microsecond gave
the same bytes; and unread bytes were taken from uninitialised memory.
---
 library/Java/Util/UUID/libuuid/randutils.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/libuuid/randutils.c b/library/Java/Util/UUID/libuuid/randutils.c
index 61c1056..1d8912e 100755
--- a/library/Java/Util/UUID/libuuid/randutils.c
+++ b/library/Java/Util/UUID/libuuid/randutils.c
@@ -9,6 +9,7 @@
 #include <stdio.h>
 #include <unistd.h>
 #include <fcntl.h>
+#include <pthread.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/time.h>
@@ -30,6 +31,9 @@
 THREAD_LOCAL unsigned short ul_jrand_seed[3];
 #endif
 
+static pthread_mutex_t seed_lock = PTHREAD_MUTEX_INITIALIZER;
+static pid_t seeded_pid;
+
 int random_get_fd(void)
 {
 	int i, fd;
@@ -44,7 +48,16 @@ int random_get_fd(void)
 		if (i >= 0)
 			fcntl(fd, F_SETFD, i | FD_CLOEXEC);
 	}
-	srand((getpid() << 16) ^ getuid() ^ tv.tv_sec ^ tv.tv_usec);
+	/*
+	 * Seed rand() once per process only: seeding it again within the
+	 * same microsecond would repeat the same bytes.
+	 */
+	pthread_mutex_lock(&seed_lock);
+	if (seeded_pid != getpid()) {
+		srand((getpid() << 16) ^ getuid() ^ tv.tv_sec ^ tv.tv_usec);
+		seeded_pid = getpid();
+	}
+	pthread_mutex_unlock(&seed_lock);
 
 #ifdef DO_JRAND_MIX
 	ul_jrand_seed[0] = getpid() ^ (tv.tv_sec & 0xFFFF);
@@ -71,6 +84,7 @@ void random_get_bytes(void *buf, size_t nbytes)
 	int lose_counter = 0;
 	unsigned char *cp = (unsigned char *) buf;
 
+	memset(buf, 0, nbytes);
 	if (fd >= 0) {
 		while (n > 0) {
 			ssize_t x = read(fd, cp, n);
-- 
2.43.0


From 55fb2ec3892870f8195b15b540803d3764921551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 15/58] fix: SimpleDateFormat leaves the process's time zone as
 it was

format put a pointer to a local String in the environment, removed a TZ
variable that was set before, and let formatting in several threads mix
their zones. TimeZone::getTimeZone handed out one shared object.
---
 .../SimpleDateFormat/SimpleDateFormat.cpp     | 39 +++++++++++++------
 library/Java/Util/TimeZone/TimeZone.cpp       |  9 ++++-
 library/Java/Util/TimeZone/TimeZone.hpp       | 10 ++++-
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..4cd046f 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -24,6 +24,8 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <mutex>
+#include <string>
 #include "SimpleDateFormat.hpp"
 
 using namespace Java::Text;
@@ -41,18 +43,31 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
-    String tz = String("TZ=") + this->timeZone.getID();
-    putenv(tz.toCharPointer());
-    std::time_t current_time;
-    std::time(&current_time);
-    struct std::tm *timeinfo = std::gmtime(&current_time);
-    long offset = timeinfo->tm_gmtoff;
-    size_t bufferLength = 80;
-    string buffer = (string) calloc(bufferLength, sizeof(char));
-    time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-    unsetenv("TZ");
+    String zoneID = this->timeZone.getID();
+    time_t timestamp = (time_t) (date.getTime() / 1000);
+    struct tm timeInfo = {0};
+    char buffer[80] = {0};
+
+    {
+        // The zone of the formatter becomes the zone of the process only here
+        std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
+        const char *processZone = getenv("TZ");
+        boolean hasProcessZone = processZone != nullptr;
+        std::string savedZone = hasProcessZone ? processZone : "";
+
+        setenv("TZ", zoneID.toCharPointer(), 1);
+        tzset();
+        localtime_r(&timestamp, &timeInfo);
+        std::strftime(buffer, sizeof(buffer), this->datePattern.toCharPointer(), &timeInfo);
+
+        if (hasProcessZone) {
+            setenv("TZ", savedZone.c_str(), 1);
+        } else {
+            unsetenv("TZ");
+        }
+        tzset();
+    }
+
     String formattedDate = buffer;
-    free(buffer);
     return formattedDate.trim();
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.cpp b/library/Java/Util/TimeZone/TimeZone.cpp
index 6f1ce11..f94a6ea 100755
--- a/library/Java/Util/TimeZone/TimeZone.cpp
+++ b/library/Java/Util/TimeZone/TimeZone.cpp
@@ -36,8 +36,13 @@ String TimeZone::getID() {
     return this->id;
 }
 
-TimeZone &TimeZone::getTimeZone(String id) {
-    static TimeZone timeZone;
+TimeZone TimeZone::getTimeZone(String id) {
+    TimeZone timeZone;
     timeZone.setID(id);
     return timeZone;
+}
+
+std::mutex &TimeZone::getProcessLock() {
+    static std::mutex processLock;
+    return processLock;
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.hpp b/library/Java/Util/TimeZone/TimeZone.hpp
index c919b37..b7c2e3f 100755
--- a/library/Java/Util/TimeZone/TimeZone.hpp
+++ b/library/Java/Util/TimeZone/TimeZone.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_UTIL_TIMEZONE_HPP
 #define NATIVE_JAVA_UTIL_TIMEZONE_HPP
 
+#include <mutex>
 #include "../../Lang/Object/Object.hpp"
 #include "../../Lang/String/String.hpp"
 
@@ -41,7 +42,14 @@ namespace Java {
         public:
             void setID(String ID);
             String getID();
-            static TimeZone &getTimeZone(String id);
+            static TimeZone getTimeZone(String id);
+
+            /**
+             * The time zone of the process (the environment variable TZ and
+             * what the C library made of it) is shared by all threads: held
+             * while it is changed or used.
+             */
+            static std::mutex &getProcessLock();
         };
     }
 }
-- 
2.43.0


From e4e2d943d871811a08e34fef61e7d5352e3df076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 16/58] fix: a Date owns its calendar fields

localTimer pointed to the static buffer of localtime(), so every later
calendar call in the process changed all Dates. Fields in summer time were
shifted by an hour, parsing two-digit years changed the buffer, and texts
with a zone were read with the offset of the current season.
---
 library/Java/Util/Date/Date.cpp | 116 ++++++++++++++++----------------
 library/Java/Util/Date/Date.hpp |  31 ++++++---
 2 files changed, 81 insertions(+), 66 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..81c5041 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -24,8 +24,9 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
-#include <chrono>
+#include <mutex>
 #include "Date.hpp"
+#include "../TimeZone/TimeZone.hpp"
 #include "../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 
 /**
@@ -67,27 +68,27 @@ Date::~Date() {
 }
 
 void Date::setDate(int date) {
-    this->localTimer->tm_mday = date;
+    this->localTimer.tm_mday = date;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
-    this->localTimer->tm_hour = hours;
+    this->localTimer.tm_hour = hours;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
-    this->localTimer->tm_min = minutes;
+    this->localTimer.tm_min = minutes;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
-    this->localTimer->tm_mon = month;
+    this->localTimer.tm_mon = month;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
-    this->localTimer->tm_sec = seconds;
+    this->localTimer.tm_sec = seconds;
     this->updateDateStatus();
 }
 
@@ -97,36 +98,36 @@ void Date::setTime(long time) {
 
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
-    this->localTimer->tm_year = year;
+    this->localTimer.tm_year = year;
     this->updateDateStatus();
 }
 
 int Date::getDate() const {
-    return this->localTimer->tm_mday;
+    return this->localTimer.tm_mday;
 }
 
 int Date::getDay() const {
-    return this->localTimer->tm_wday;
+    return this->localTimer.tm_wday;
 }
 
 int Date::getHours() const {
-    return this->localTimer->tm_hour;
+    return this->localTimer.tm_hour;
 }
 
 int Date::getMinutes() const {
-    return this->localTimer->tm_min;
+    return this->localTimer.tm_min;
 }
 
 int Date::getMonth() const {
-    return this->localTimer->tm_mon;
+    return this->localTimer.tm_mon;
 }
 
 int Date::getSeconds() const {
-    return this->localTimer->tm_sec;
+    return this->localTimer.tm_sec;
 }
 
 int Date::getYear() const {
-    return this->localTimer->tm_year;
+    return this->localTimer.tm_year;
 }
 
 long Date::getTime() const {
@@ -134,7 +135,7 @@ long Date::getTime() const {
 }
 
 int Date::getTimezoneOffset() const {
-    return (int) - (this->localTimer->tm_gmtoff / 60);
+    return (int) - (this->localTimer.tm_gmtoff / 60);
 }
 
 boolean Date::after(Date specifiedDate) const {
@@ -175,16 +176,16 @@ Date Date::clone() {
 
 String Date::toLocaleString() const {
     string pattern = (string) "%b %d, %Y %I:%M:%S %p";
-    return this->timeToString(pattern, this->localTimer);
+    return this->timeToString(pattern, &this->localTimer);
 }
 
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
-    long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
+    tm utcTimer = {0};
+    gmtime_r(&this->timer, &utcTimer);
 
-    return this->timeToString(pattern, utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
@@ -377,12 +378,8 @@ long Date::parse(String inputString) {
 
     // Parse 2-digit years within the correct default century.
     if (year < 100) {
-        auto now = std::chrono::system_clock::now();
-        std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
-
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        tm currentTime = Date::toLocalTime(time(nullptr));
+        int defaultCenturyStart = currentTime.tm_year + 1900 - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
@@ -413,30 +410,13 @@ long Date::parse(String inputString) {
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
 
-    long result = mktime(&localTimer);
-
-    // Add timeZoneOffset to result
     if (timeZoneOffset == -1) {
-        return result * 1000;
+        localTimer.tm_isdst = -1;
+        return Date::fromLocalTime(localTimer) * 1000;
     }
 
-    long offsetFromUTC = Date::getOffsetFromUTC();
-    result = (result + (timeZoneOffset * 60) - offsetFromUTC) ;
-    return result * 1000;
-}
-
-long Date::getOffsetFromUTC() {
-    long currentTime;
-    struct tm * timeInfo;
-    time(&currentTime);
-    timeInfo = gmtime (&currentTime);
-    time_t utc = mktime(timeInfo);
-    timeInfo = localtime(&currentTime);
-    time_t local = mktime(timeInfo);
-
-    // Get offset in hours from UTC
-    double offsetFromUTC = difftime(utc, local); // HOUR_IN_SECOND;
-    return (long) offsetFromUTC;
+    // The fields are in the given zone, whatever the local time zone is
+    return (timegm(&localTimer) + timeZoneOffset * 60) * 1000;
 }
 
 int Date::getSequenceNumber(const String &inputString, int &index) {
@@ -486,9 +466,13 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 }
 
 void Date::updateDateStatus() {
-    // Update changes
-    this->timer = mktime(this->localTimer);
+    // Update changes: whether summer time applies follows from the new fields
+    this->localTimer.tm_isdst = -1;
+    this->timer = Date::fromLocalTime(this->localTimer);
+    this->updateText();
+}
 
+void Date::updateText() {
     String pattern;
 
     if (this->backUp != nullptr) {
@@ -508,7 +492,7 @@ void Date::updateDateStatus() {
 #endif
 
     pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), this->localTimer);
+    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
     this->backUp = strdup(convertResult.toCharPointer());
 }
 
@@ -523,32 +507,48 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
 
-    this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    this->localTimer = localTimer;
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
-    time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
-    this->updateDateStatus();
+    this->timer = timestamp;
+    this->localTimer = Date::toLocalTime(timestamp);
+    this->updateText();
 }
 
-String Date::timeToString(String pattern, tm *timeManagement) const {
+String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
-    strftime(holdResult, size, pattern.toCharPointer(), timeManagement);
+    {
+        std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
+        strftime(holdResult, size, pattern.toCharPointer(), timeManagement);
+    }
 
     String result = holdResult;
     free(holdResult);
     return result;
 }
 
+long Date::fromLocalTime(tm &fields) {
+    std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
+    return mktime(&fields);
+}
+
+tm Date::toLocalTime(long timestamp) {
+    time_t ts = timestamp;
+    tm fields = {0};
+    std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
+    tzset();
+    localtime_r(&ts, &fields);
+    return fields;
+}
+
 long Date::getUTCTime(long timer) {
     tm tempTimer = {0};
-    tm *utcTimer = gmtime_r(&timer, &tempTimer);
-    return mktime(utcTimer);
+    gmtime_r(&timer, &tempTimer);
+    return Date::fromLocalTime(tempTimer);
 }
 
 boolean Date::equals(Date obj) const {
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..af196af 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,7 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
-						struct tm *localTimer;
+						struct tm localTimer;
 						string backUp = nullptr;
 				private:
 						/**
@@ -81,7 +81,28 @@ namespace Java {
 						 * @param timeManagement
 						 * @return String
 						 */
-						String timeToString(String pattern, tm *timeManagement) const;
+						/** Update the text given by toString */
+						void updateText();
+						
+						String timeToString(String pattern, const tm *timeManagement) const;
+						
+						/**
+						 * Get the timestamp of calendar fields in the local
+						 * time zone; the fields become normalized
+						 *
+						 * @param fields
+						 * @return long
+						 */
+						static long fromLocalTime(tm &fields);
+						
+						/**
+						 * Get the calendar fields of a timestamp in the local
+						 * time zone
+						 *
+						 * @param timestamp
+						 * @return tm
+						 */
+						static tm toLocalTime(long timestamp);
 						
 						/**
 						 * Get the UTC time
@@ -119,12 +140,6 @@ namespace Java {
 						 */
 						static String removeBracket(String inputString);
 						
-						/**
-						 * Get time offset in second from local time zone to UTC
-						 *
-						 * @return long time offset in seconds
-						 */
-						static long getOffsetFromUTC();
 				
 				public:
 						/**
-- 
2.43.0


From c9ac52b8bbe73cfb3629ace77d355813a4a1f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 17/58] fix: Long::toString(long) no longer answers with the
 first number ever asked for

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..c8c2bca 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -539,7 +539,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
-- 
2.43.0


From ec2b404d2eda90a1d2d15d47880def9e10fcd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 18/58] fix: the cache of Bytes is made once and stays

getInstance raced in multi-threaded programs, and valueOf deleted the
cache that the next call then used.
---
 library/Java/Lang/Bytes/Bytes.cpp |  5 +----
 library/Java/Lang/Bytes/Bytes.hpp | 10 +++-------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..e8cc251 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -30,7 +30,6 @@
 
 using namespace Java::Lang;
 
-ByteCache *ByteCache::instance = nullptr;
 
 Bytes::Bytes(byte byteValue) {
     this->original = byteValue;
@@ -145,9 +144,7 @@ long Bytes::toUnsignedLong(byte byteValue) {
 
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
-    auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
-    return value;
+    return byteInstance->getByteAtIndex((int) byteValue);
 }
 
 Bytes Bytes::valueOf(String stringValue) {
diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index d913df0..1dc1d90 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -426,8 +426,6 @@ namespace Java {
          */
         class ByteCache {
         private:
-            static ByteCache *instance;
-
             ByteCache() {
                 cache = this->cacheInit();
             };
@@ -446,10 +444,8 @@ namespace Java {
 
         public:
             static ByteCache *getInstance() {
-                if (instance == nullptr) {
-                    instance = new ByteCache();
-                }
-                return instance;
+                static ByteCache instance;
+                return &instance;
             }
 
             Bytes getByteAtIndex(int index) {
@@ -468,4 +464,4 @@ namespace std {
     };
 }
 
-#endif // NATIVE_JAVA_LANG_BYTES_HPP
\ No newline at end of file
+#endif // NATIVE_JAVA_LANG_BYTES_HPP
\ No newline at end of file
-- 
2.43.0


From 22c7ee25dd05b111078d2d0cca591a9cc6e73e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 19/58] fix: changing the case of a String leaves the locale of
 the process alone

setlocale() is not safe while other threads use the locale.
---
 library/Java/Lang/String/String.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..47c8a93 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -32,8 +32,23 @@
 
 using namespace Java::Lang;
 
+// The character rules of the user's locale, without making it the locale of the process
+static locale_t userLocale() {
+    static locale_t locale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
+    return locale;
+}
+
+static wchar_t toUpperCharacter(wchar_t character) {
+    locale_t locale = userLocale();
+    return (wchar_t) (locale ? towupper_l(character, locale) : towupper(character));
+}
+
+static wchar_t toLowerCharacter(wchar_t character) {
+    locale_t locale = userLocale();
+    return (wchar_t) (locale ? towlower_l(character, locale) : towlower(character));
+}
+
 std::wstring multiByteStringToWideString(const std::string &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
         return convertToWstring.from_bytes(input.c_str());
@@ -44,7 +59,6 @@ std::wstring multiByteStringToWideString(const std::string &input) {
 }
 
 std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
         return convertToString.to_bytes(input.c_str());
@@ -56,13 +70,13 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
 
 std::string toUpper(const std::string &input) {
 	std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), toUpperCharacter);
 	return wideStringToMultiByteString(wideString);
 }
 
 std::string toLower(const std::string &input) {
     std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), toLowerCharacter);
     return wideStringToMultiByteString(wideString);
 }
 
-- 
2.43.0


From b5b21688f0b233702e2bc9577fc9ce28a894b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 20/58] fix: a URL made from text has no port of uninitialised
 memory

---
 library/Java/Net/URL/URL.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Net/URL/URL.hpp b/library/Java/Net/URL/URL.hpp
index 8021364..599d2de 100755
--- a/library/Java/Net/URL/URL.hpp
+++ b/library/Java/Net/URL/URL.hpp
@@ -45,7 +45,7 @@ namespace Java {
 				private:
 						String protocol;
 						String host;
-						int port;
+						int port = -1;
 						String path;
 						String query;
 				public:
-- 
2.43.0


From 0b0ed5c24252b9a2f1a00ab3328d256bbd243bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 21/58] fix: a line printed by System::out stays in one piece

println inserted the text and the end of line into the shared stream one
after the other, so that lines of different threads were mixed, and after
one failed write nothing was ever printed again.
---
 library/Java/Lang/System/System.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/System/System.hpp b/library/Java/Lang/System/System.hpp
index 2a33fb5..8fe6f8f 100755
--- a/library/Java/Lang/System/System.hpp
+++ b/library/Java/Lang/System/System.hpp
@@ -30,6 +30,7 @@
 #include "../Object/Object.hpp"
 #include "../String/String.hpp"
 #include <iostream>
+#include <mutex>
 
 namespace Java {
 		namespace Lang {
@@ -39,15 +40,37 @@ namespace Java {
 						};
 						
 						class out {
+						private:
+								/**
+								 * Text of one call is written while holding this lock, so that
+								 * texts of different threads are never mixed.
+								 */
+								static std::recursive_mutex &getLock() {
+									static std::recursive_mutex lock;
+									return lock;
+								}
+
+								/**
+								 * A write that failed must not silence the console for ever.
+								 */
+								static std::ostream &getStream() {
+									if (!std::cout) {
+										std::cout.clear();
+									}
+									return std::cout;
+								}
+
 						public:
 								template <typename T>
 								static void print(const T &target) {
-									std::cout << target << std::flush;
+									std::lock_guard<std::recursive_mutex> guard(getLock());
+									getStream() << target << std::flush;
 								}
 								
 								template <typename T>
 								static void println(const T &target) {
-									std::cout << target << std::endl << std::flush;
+									std::lock_guard<std::recursive_mutex> guard(getLock());
+									getStream() << target << std::endl << std::flush;
 								}
 						};
 						
-- 
2.43.0


From 5fa14a966fd38043579598ac9b5c724aa2cf08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 22/58] fix: text buffers report that memory ran out and keep
 their content

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 50 +++++--------
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 56 +++++----------
 .../Java/Lang/StringBuilder/StringBuilder.hpp |  8 +++
 library/Kernel/Common.hpp                     | 70 ++++++++++++++++++-
 4 files changed, 111 insertions(+), 73 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 38a5a54..736c17e 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -38,27 +38,18 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
         throw NegativeArraySizeException("Capacity must be non-negative");
     }
 
+    this->original = (string) allocateZeroedMemory((size_t) capacity + 1);
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity + 1,
-                                     sizeof(char));
 }
 
-StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
-    this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity + 1,
-                                     sizeof(char));
+StringBufferUnSafe::StringBufferUnSafe(const String &originalString)
+        : StringBufferUnSafe(originalString.length() + DEFAULT_CAPACITY) {
     this->append(originalString);
 }
 
-StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
-    if (&sequence == nullptr) {
-        this->currentCapacity = DEFAULT_CAPACITY + 4;
-    } else {
-        this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
-    }
-
-    this->original = (string) calloc((size_t) this->currentCapacity + 1,
-                                     sizeof(char));
+StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence)
+        : StringBufferUnSafe((&sequence == nullptr ? 4 : sequence.length())
+                             + DEFAULT_CAPACITY) {
     this->append(sequence);
 }
 
@@ -97,14 +88,14 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         return;
     }
 
-    int newCapacity = 0;
+    int newCapacity = capacity();
     do {
-        newCapacity = capacity() * 2 + 2;
-        this->currentCapacity = newCapacity;
+        newCapacity = newCapacity * 2 + 2;
     } while (newCapacity < minimumCapacity);
 
     int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
+    this->currentCapacity = newCapacity;
 }
 
 StringBufferUnSafe &StringBufferUnSafe::append(const String &stringToAppend) {
@@ -153,8 +144,7 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
+    this->original = (string) allocateZeroedMemory((size_t) other.currentCapacity + 1);
     int index;
     for (index = 0; index < other.currentLength; index++) {
         this->original[index] = other.original[index];
@@ -629,13 +619,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
     }
 
     int resultStringLength = end - start;
-    string resultString = (string) calloc((size_t) resultStringLength + 1,
-                                          sizeof(char));
-    int memorySizeToCopy = resultStringLength * sizeof(char);
-    memcpy(resultString, this->original + start, (size_t) memorySizeToCopy);
-    String result = String(resultString);
-    free(resultString);
-    return result;
+    return String(std::string(this->original + start, (size_t) resultStringLength).c_str());
 }
 
 String StringBufferUnSafe::toString() const {
@@ -656,9 +640,9 @@ StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     if (this == &other) {
         return *this;
     }
+    string copyOfOther = (string) allocateZeroedMemory((size_t) other.currentCapacity + 1);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
+    this->original = copyOfOther;
     int index;
     for (index = 0; index < other.currentLength; index++) {
         this->original[index] = other.original[index];
@@ -695,9 +679,9 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(other.mutex);
+    string copyOfOther = (string) allocateZeroedMemory((size_t) other.currentCapacity + 1);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
+    this->original = copyOfOther;
     int index;
     for (index = 0; index < other.currentLength; index++) {
         this->original[index] = other.original[index];
@@ -1013,9 +997,9 @@ StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock(this->mutex, other.mutex);
     std::lock_guard<std::mutex> guard(this->mutex, std::adopt_lock);
     std::lock_guard<std::mutex> otherGuard(other.mutex, std::adopt_lock);
+    string copyOfOther = (string) allocateZeroedMemory((size_t) other.currentCapacity + 1);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
+    this->original = copyOfOther;
     int index;
     for (index = 0; index < other.currentLength; index++) {
         this->original[index] = other.original[index];
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..156548d 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -40,31 +40,27 @@ StringBuilder::StringBuilder(int capacity) {
 		throw NegativeArraySizeException("Capacity is negative");
 	}
 	
-	this->original = (string)calloc((size_t)capacity, sizeof(char));
+	this->original = (string) allocateZeroedMemory((size_t) capacity);
 	this->currentLength = 0;
 	this->currentCapacity = capacity;
 }
 
-StringBuilder::StringBuilder(String target) {
-	int newCapacity = defaultCapacity + target.length();
-	this->ensureCapacity(newCapacity);
+StringBuilder::StringBuilder(String target) : StringBuilder(defaultCapacity + target.length()) {
 	this->append(target);
 }
 
-StringBuilder::StringBuilder(const std::initializer_list<char> target) {
-	int newCapacity = defaultCapacity + (int) target.size();
-	this->ensureCapacity(newCapacity);
+StringBuilder::StringBuilder(const std::initializer_list<char> target)
+		: StringBuilder(defaultCapacity + (int) target.size()) {
 	this->append(target);
 }
 
-StringBuilder::StringBuilder(const CharSequence &charSequence) {
-	int newCapacity = defaultCapacity + charSequence.length();
-	this->ensureCapacity(newCapacity);
+StringBuilder::StringBuilder(const CharSequence &charSequence)
+		: StringBuilder(defaultCapacity + charSequence.length()) {
 	this->append(charSequence);
 }
 
 StringBuilder::StringBuilder(const StringBuilder &target) {
-	this->original = (string) calloc((size_t) target.currentCapacity, sizeof(char));
+	this->original = (string) allocateZeroedMemory((size_t) target.currentCapacity);
 	int index;
 	for (index = 0; index < target.currentLength; index++) {
 		this->original[ index ] = target.original[ index ];
@@ -73,6 +69,14 @@ StringBuilder::StringBuilder(const StringBuilder &target) {
 	this->currentCapacity = target.currentCapacity;
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	StringBuilder copyOfTarget(target);
+	std::swap(this->original, copyOfTarget.original);
+	this->currentLength = target.currentLength;
+	this->currentCapacity = target.currentCapacity;
+	return *this;
+}
+
 StringBuilder::~StringBuilder() {
 	free(original);
 }
@@ -639,30 +643,12 @@ String StringBuilder::substring(int start, int end) const {
 		throw StringIndexOutOfBoundsException(end - start);
 	}
 	
-	int lengthOfSubString = end - start + 1;
-	auto copyOfSubString = (string) calloc((size_t) lengthOfSubString, sizeof(char));
-	int indexOfOriginal;
-	int indexOfSubString = 0;
-	for (indexOfOriginal = start; indexOfOriginal < end; indexOfOriginal++) {
-		copyOfSubString[ indexOfSubString ] = this->original[ indexOfOriginal ];
-		indexOfSubString = indexOfSubString + 1;
-	}
-	copyOfSubString[ indexOfSubString ] = '\0';
-	String result(copyOfSubString);
-	free(copyOfSubString);
-	return result;
+	return String(std::string(this->original + start, (size_t) (end - start)).c_str());
 }
 
 String StringBuilder::toString() const {
-	int numberOfElementIncludeNullTerminator = this->currentLength + 1;
-	string content = (string)calloc((size_t)numberOfElementIncludeNullTerminator, sizeof(char));
-	int index;
-	for (index = 0; index < this->currentLength; index++) {
-		content[index] = this->original[index];
-	}
-	content[this->currentLength] = '\0';
-	this->backupOriginalForToString = content;
-	free(content);
+	std::string content(this->original, (size_t) this->currentLength);
+	this->backupOriginalForToString = content.c_str();
 	return this->backupOriginalForToString;
 }
 
@@ -680,11 +666,7 @@ int *StringBuilder::initializeNextTable(const String pattern) const {
 		return nullptr;
 	}
 	
-	int *nextTable = (int *) calloc((size_t) lengthOfPattern, sizeof(int));
-	
-	if (nextTable == nullptr) {
-		return nullptr;
-	}
+	int *nextTable = (int *) allocateZeroedMemory((size_t) lengthOfPattern * sizeof(int));
 	
 	nextTable[ 0 ] = -1;
 	if (lengthOfPattern == 1) {
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..0aaa6fc 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -98,6 +98,14 @@ namespace Java {
 						 */
                         StringBuilder(const StringBuilder &target);
                         
+                        /**
+						 * Makes this string builder contain the same characters as the specified StringBuilder.
+						 *
+						 * @param target
+						 * @return a reference to this StringBuilder
+						 */
+                        StringBuilder &operator=(const StringBuilder &target);
+                        
                         /**
 						 * StringBuilder Destructor
 						 */
diff --git a/library/Kernel/Common.hpp b/library/Kernel/Common.hpp
index 4ac27ad..8fb71cb 100644
--- a/library/Kernel/Common.hpp
+++ b/library/Kernel/Common.hpp
@@ -67,6 +67,7 @@
 #include <thread>
 #include <mutex>
 #include <memory>
+#include <new>
 #include <algorithm>
 #include <stack>
 #include <queue>
@@ -97,9 +98,29 @@
  *
  * @param size
  * @return void pointer
+ * @throw std::bad_alloc if there is no memory left
  */
 inline void *allocateMemory(size_t size) {
-    return malloc(size);
+    void *pointer = malloc(size);
+    if (pointer == nullptr && size > 0) {
+        throw std::bad_alloc();
+    }
+    return pointer;
+}
+
+/**
+ * Allocate new memory with specific size, filled with zeros
+ *
+ * @param size
+ * @return void pointer
+ * @throw std::bad_alloc if there is no memory left
+ */
+inline void *allocateZeroedMemory(size_t size) {
+    void *pointer = calloc(size, 1);
+    if (pointer == nullptr && size > 0) {
+        throw std::bad_alloc();
+    }
+    return pointer;
 }
 
 /**
@@ -108,9 +129,14 @@ inline void *allocateMemory(size_t size) {
  * @param currentPointer
  * @param newCapacity
  * @return void*
+ * @throw std::bad_alloc if there is no memory left; the current memory is kept
  */
 inline void *allocateMemory(void *currentPointer, size_t newCapacity) {
-    return realloc(currentPointer, newCapacity);
+    void *pointer = realloc(currentPointer, newCapacity);
+    if (pointer == nullptr && newCapacity > 0) {
+        throw std::bad_alloc();
+    }
+    return pointer;
 }
 
 /**
@@ -120,7 +146,45 @@ inline void *allocateMemory(void *currentPointer, size_t newCapacity) {
  * @return string
  */
 inline string stringCopy(const_string target) {
-    return strdup(target);
+    string pointer = strdup(target);
+    if (pointer == nullptr) {
+        throw std::bad_alloc();
+    }
+    return pointer;
+}
+
+/**
+ * The text of a number, in memory to be given back with free
+ *
+ * @param format
+ * @param value
+ * @return string
+ * @throw std::bad_alloc if there is no memory left
+ */
+template <typename T>
+inline string numberText(const_string format, T value) {
+    string pointer = nullptr;
+    if (asprintf(&pointer, format, value) < 0) {
+        throw std::bad_alloc();
+    }
+    return pointer;
+}
+
+/**
+ * Replace a number and its text; both stay as they are if there is no memory left
+ *
+ * @param number
+ * @param text
+ * @param format
+ * @param value
+ * @throw std::bad_alloc if there is no memory left
+ */
+template <typename T>
+inline void replaceNumber(T &number, string &text, const_string format, T value) {
+    string newText = numberText(format, value);
+    free(text);
+    text = newText;
+    number = value;
 }
 
 /**
-- 
2.43.0


From a994bf4b6f424bdaccc827f0cc34b58fe2e1e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 23/58] fix: String operations report that memory ran out and
 leak nothing; long formatted values are not cut

---
 library/Java/Lang/String/String.cpp | 176 +++++++++-------------------
 library/Java/Lang/String/String.hpp |  33 ++++--
 2 files changed, 83 insertions(+), 126 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 47c8a93..383ecd3 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -34,7 +34,15 @@ using namespace Java::Lang;
 
 // The character rules of the user's locale, without making it the locale of the process
 static locale_t userLocale() {
-    static locale_t locale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
+    static std::mutex mutex;
+    static locale_t locale = (locale_t) 0;
+    std::lock_guard<std::mutex> guard(mutex);
+    if (locale == (locale_t) 0) {
+        locale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
+        if (locale == (locale_t) 0 && errno == ENOMEM) {
+            throw std::bad_alloc();
+        }
+    }
     return locale;
 }
 
@@ -52,6 +60,8 @@ std::wstring multiByteStringToWideString(const std::string &input) {
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
         return convertToWstring.from_bytes(input.c_str());
+    } catch (std::bad_alloc &exception) {
+        throw;
     } catch (std::exception &exception) {
         std::wstring emptyString;
         return emptyString;
@@ -62,6 +72,8 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
         return convertToString.to_bytes(input.c_str());
+    } catch (std::bad_alloc &exception) {
+        throw;
     } catch (std::exception &exception) {
         std::string emptyString;
         return emptyString;
@@ -114,6 +126,10 @@ String::String(const String &target) {
 	this->original = target.original;
 }
 
+String::String(String &&target) noexcept
+		: original(std::move(target.original)) {
+}
+
 String::String(const StringBuilder &stringBuilder) {
 	this->original = std::string(stringBuilder.toString().toCharPointer());
 }
@@ -241,18 +257,8 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	char target[2] = {(char) character, '\0'};
+	std::size_t found = this->original.find(target);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
@@ -499,17 +505,8 @@ String String::valueOf(boolean target) {
 }
 
 String String::valueOf(char charValue) {
-	string pointerHolder;
-	if (charValue == '\0') {
-		pointerHolder = stringCopy("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = charValue;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
+	char pointerHolder[2] = {charValue, '\0'};
 	String output = pointerHolder;
-	free(pointerHolder);
 	return output;
 }
 
@@ -541,23 +538,21 @@ String String::valueOf(long long longValue) {
 }
 
 String String::valueOf(float floatValue) {
-	string pointerHolder;
-	asprintf(&pointerHolder, "%g", floatValue);
+	char pointerHolder[32];
+	snprintf(pointerHolder, sizeof(pointerHolder), "%g", floatValue);
 	String result = pointerHolder;
-	free(pointerHolder);
 	return result;
 }
 
 String String::valueOf(double doubleValue) {
 	int precision = 15;
-	string pointerHolder = (string) calloc(1079, sizeof(char));
+	char pointerHolder[1079];
 	if (doubleValue == 0.0f && doubleValue < 0) {
 		sprintf(pointerHolder, "-%.*f", precision, doubleValue);
 	} else {
 		sprintf(pointerHolder, "%.*f", precision, doubleValue);
 	}
 	String result = pointerHolder;
-	free(pointerHolder);
 	return result;
 }
 
@@ -710,6 +705,22 @@ Array<String> String::split(const String &regex, int limit) const {
 	return strings;
 }
 
+// The text of one value, however long it is
+template <typename T>
+static String printValue(const_string format, T value) {
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format, value);
+	if (length <= 0) {
+		return "";
+	}
+	if ((size_t) length < sizeof(buffer)) {
+		return String(buffer, length);
+	}
+	std::string longBuffer((size_t) length + 1, '\0');
+	snprintf(&longBuffer[0], longBuffer.length(), format, value);
+	return String(longBuffer.c_str(), length);
+}
+
 String String::print(const String &format, bool value) {
 	if (format.original == "%b") {
 		return (value ? "true" : "false");
@@ -721,125 +732,47 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, Boolean value) {
@@ -880,9 +813,16 @@ String String::format(const String &format) {
 	int errorCode = 0;
 	regex_t regex;
 	errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
+	if (errorCode == REG_ESPACE) {
+		throw std::bad_alloc();
+	}
+	std::unique_ptr<regex_t, void (*)(regex_t *)> regexHolder(errorCode == 0 ? &regex : nullptr, regfree);
 	while (errorCode == 0 && inputStringOffset < format.getSize()) {
 		regmatch_t matchedResult[16] = {0}; // max 16 groups
 		errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
+		if (errorCode == REG_ESPACE) {
+			throw std::bad_alloc();
+		}
 		if (errorCode != 0) {
 			result += String(inputStringPtr, inputStringLength);
 			break;
@@ -895,7 +835,6 @@ String String::format(const String &format) {
 		if (matchedStringLength > 0) {
 			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
 			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
-				regfree(&regex);
 				throw InterruptedException("Missing arguments.");
 			} else {
 				result += "%";
@@ -905,7 +844,6 @@ String String::format(const String &format) {
 		inputStringOffset += matchedResult[0].rm_eo;
 		inputStringLength -= matchedResult[0].rm_eo;
 	}
-	regfree(&regex);
 	return result;
 }
 
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..2309e66 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -113,6 +113,13 @@ namespace Java {
              */
 			String(const String &target);
 
+            /**
+             * Initializes a newly created String object with the content of a String that is not needed any more.
+             *
+             * @param target
+             */
+            String(String &&target) noexcept;
+
 			/**
              * Constructs a new String by decoding the specified array of bytes.
              *
@@ -1078,6 +1085,17 @@ namespace Java {
                 return *this;
             }
 
+            /**
+            * Move value from target to this String
+            *
+            * @param target
+            * @return a reference to this String
+            */
+            inline String &operator=(String &&target) noexcept {
+                this->original = std::move(target.original);
+                return *this;
+            }
+
             /**
             * Determine if two String is not equal
             *
@@ -1172,9 +1190,16 @@ namespace Java {
                 regex_t regex;
 
                 errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
+                if (errorCode == REG_ESPACE) {
+                    throw std::bad_alloc();
+                }
+                std::unique_ptr<regex_t, void (*)(regex_t *)> regexHolder(errorCode == 0 ? &regex : nullptr, regfree);
                 while (errorCode == 0 && inputStringOffset < format.getSize()) {
                     regmatch_t matchedResult[16] = {0}; // max 16 groups
                     errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
+                    if (errorCode == REG_ESPACE) {
+                        throw std::bad_alloc();
+                    }
                     if (errorCode != 0) {
                         result += String(inputStringPtr, inputStringLength);
                         break;
@@ -1194,12 +1219,7 @@ namespace Java {
                         if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
                             String remainString(inputStringPtr + matchedResult[0].rm_eo,
                                                 inputStringLength - matchedResult[0].rm_eo);
-                            try {
-                                result += String::format(remainString, args...);
-                            } catch (...) {
-                                regfree(&regex);
-                                throw;
-                            }
+                            result += String::format(remainString, args...);
                             break;
                         }
                     }
@@ -1209,7 +1229,6 @@ namespace Java {
                     inputStringLength -= matchedResult[0].rm_eo;
                 }
 
-                regfree(&regex);
                 return result;
             }
 
-- 
2.43.0


From 76cced36da7946d50c21836a9ace32f84892e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 24/58] fix: LinkedList keeps its elements when memory runs out
 and can be copied

---
 library/Java/Util/LinkedList/LinkedList.hpp | 62 ++++++++++++++++-----
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..d64c05c 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_UTIL_LINKED_LIST_HPP
 #define NATIVE_JAVA_UTIL_LINKED_LIST_HPP
 
+#include <memory>
 #include "../../Lang.hpp"
 #include "../AbstractSequentialList/AbstractSequentialList.hpp"
 #include "../Collection/Collection.hpp"
@@ -69,14 +70,36 @@ namespace Java {
 
                     LinkedList() = default;
 
+                    LinkedList(const LinkedList &target) {
+                        try {
+                            for (const Node<E> *node : target.original) {
+                                this->add(node->element);
+                            }
+                        } catch (...) {
+                            this->clear();
+                            throw;
+                        }
+                    }
+
+                    LinkedList &operator=(const LinkedList &target) {
+                        LinkedList copy(target);
+                        this->original.swap(copy.original);
+                        return *this;
+                    }
+
                     /**
                      * LinkedList with std::initializer_list
                      *
                      * @param target
                      */
                     LinkedList(const std::initializer_list<E> &target) {
-                        for (const E &item : target) {
-                            this->add(item);
+                        try {
+                            for (const E &item : target) {
+                                this->add(item);
+                            }
+                        } catch (...) {
+                            this->clear();
+                            throw;
                         }
                     }
 
@@ -108,7 +131,9 @@ namespace Java {
                      * @return boolean
                      */
                     boolean add(const E &element) {
-                        this->original.push_back(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_back(node.get());
+                        node.release();
                         return true;
                     }
 
@@ -118,7 +143,9 @@ namespace Java {
                      * @param element
                      */
                     void addFirst(const E &element) {
-                        this->original.push_front(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_front(node.get());
+                        node.release();
                     }
 
                     /**
@@ -127,17 +154,18 @@ namespace Java {
                      * @param element
                      */
                     void addLast(const E &element) {
-                        this->original.push_back(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_back(node.get());
+                        node.release();
                     }
 
                     /**
                      * Removes all of the elements from this list.
                      */
                     void clear() {
-                        forEach([](Node<E> *node) {
+                        for (Node<E> *node : this->original) {
                             delete node;
-                            return true;
-                        });
+                        }
                         this->original.clear();
                     }
 
@@ -219,7 +247,9 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offerFirst(const E &element) {
-                        this->original.push_front(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_front(node.get());
+                        node.release();
                         return true;
                     }
 
@@ -230,7 +260,9 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offerLast(const E &element) {
-                        this->original.push_back(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_back(node.get());
+                        node.release();
                         return true;
                     }
 
@@ -276,8 +308,8 @@ namespace Java {
                      */
                     E pollFirst() {
                         var  node = this->original.front();
+                        E element = node->element;
                         this->original.pop_front();
-                        var element = node->element;
                         delete node;
                         return element;
                     }
@@ -289,8 +321,8 @@ namespace Java {
                      */
                     E pollLast() {
                         var node = this->original.back();
+                        E element = node->element;
                         this->original.pop_back();
-                        var element = node->element;
                         delete node;
                         return element;
                     }
@@ -310,7 +342,9 @@ namespace Java {
                      * @param element
                      */
                     void push(const E &element) {
-                        this->original.push_front(new Node<E>(element));
+                        std::unique_ptr<Node<E>> node(new Node<E>(element));
+                        this->original.push_front(node.get());
+                        node.release();
                     }
 
                     /**
@@ -362,8 +396,8 @@ namespace Java {
 
                     E removeLast() {
                         var node = this->original.back();
+                         E element = node->element;
                          this->original.pop_back();
-                         var element = node->element;
                          delete node;
                          return element;
                     }
-- 
2.43.0


From 570b057bcb9605bc56e5a186dc790edd146df13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 25/58] fix: BitSet text needs no cache that an assignment
 frees twice

---
 library/Java/Util/BitSet/BitSet.cpp | 16 ++--------------
 library/Java/Util/BitSet/BitSet.hpp |  8 --------
 2 files changed, 2 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..0de4e3f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -111,12 +111,6 @@ void BitSet::trimToSize() {
     }
 }
 
-void BitSet::cleanUp() {
-    if (this->backupForToString != nullptr) {
-        free(this->backupForToString);
-    }
-}
-
 BitSet::BitSet() {
     this->initializeWords(BITS_PER_WORD);
     this->sizeIsSticky = false;
@@ -142,9 +136,7 @@ BitSet::BitSet(const BitSet &bitSet){
     this->sizeIsSticky = bitSet.sizeIsSticky;
 }
 
-BitSet::~BitSet() {
-    this->cleanUp();
-}
+BitSet::~BitSet() = default;
 
 void BitSet::bitAnd(const BitSet &set) {
     if (*this == set) {
@@ -727,10 +719,7 @@ String BitSet::toString() const {
     }
     stringBuilder.append('}');
 
-    free(this->backupForToString);
-    this->backupForToString = stringCopy(stringBuilder.toString().toCharPointer());
-
-    return this->backupForToString;
+    return stringBuilder.toString();
 }
 
 BitSet BitSet::valueOf(const Array<byte> &bytes) {
@@ -771,7 +760,6 @@ boolean BitSet::operator==(const BitSet &target) const {
 }
 
 BitSet& BitSet::operator=(const BitSet &target) {
-    this->cleanUp();
     this->words = Arrays::copyOf(target.words, target.words.length);
     this->wordsInUse = target.wordsInUse;
     this->sizeIsSticky = target.sizeIsSticky;
diff --git a/library/Java/Util/BitSet/BitSet.hpp b/library/Java/Util/BitSet/BitSet.hpp
index d5bf326..67f69bd 100755
--- a/library/Java/Util/BitSet/BitSet.hpp
+++ b/library/Java/Util/BitSet/BitSet.hpp
@@ -139,14 +139,6 @@ namespace Java {
              */
             void trimToSize();
 
-            /**
-             * Free resources.
-             */
-            void cleanUp();
-
-        private:
-            mutable string backupForToString = nullptr;
-
         public:
 
             /**
-- 
2.43.0


From 5a7db97375855b902e0d04699428480584addfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 26/58] fix: a queue producer recovers from an allocation that
 failed when it was made

---
 .../Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 50696b7..831eec7 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -2873,7 +2873,14 @@ private:
             {
                 auto localBlockIndex = blockIndex.load(std::memory_order_relaxed);		// We're the only writer thread, relaxed is OK
                 if (localBlockIndex == nullptr) {
-                    return false;  // this can happen if new_block_index failed in the constructor
+                    // this can happen if new_block_index failed in the constructor
+                    MOODYCAMEL_CONSTEXPR_IF (allocMode == CannotAlloc) {
+                        return false;
+                    }
+                    else if (!new_block_index()) {
+                        return false;
+                    }
+                    localBlockIndex = blockIndex.load(std::memory_order_relaxed);
                 }
                 auto newTail = (localBlockIndex->tail.load(std::memory_order_relaxed) + 1) & (localBlockIndex->capacity - 1);
                 idxEntry = localBlockIndex->index[newTail];
-- 
2.43.0


From def323150af69f1e19dbcafd5f86c497ee7e7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 27/58] fix: Date keeps its text inside of the object

---
 library/Java/Util/Date/Date.cpp | 34 +++++++++++----------------------
 library/Java/Util/Date/Date.hpp |  2 +-
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 81c5041..6805a61 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -61,11 +61,7 @@ Date::Date(String inputString) {
     this->initializeDate(timer);
 }
 
-Date::~Date() {
-    if (this->backUp != nullptr) {
-        free(this->backUp);
-    }
-}
+Date::~Date() = default;
 
 void Date::setDate(int date) {
     this->localTimer.tm_mday = date;
@@ -161,7 +157,7 @@ int Date::compareTo(const Date &anotherDate) const {
 }
 
 String Date::toString() const{
-    return this->backUp;
+    return (const_string) this->backUp;
 }
 
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
@@ -473,27 +469,23 @@ void Date::updateDateStatus() {
 }
 
 void Date::updateText() {
-    String pattern;
-
-    if (this->backUp != nullptr) {
-        free(this->backUp);
-    }
+    const_string pattern;
 
 #ifdef LINUX
     if (this->getTimezoneOffset() == 0) {
-        pattern = (string) "%a %b %d %T UTC %Y";
+        pattern = "%a %b %d %T UTC %Y";
     }
 #endif
 
 #ifdef WINDOWS
     if (this->getTimezoneOffset() == 0) {
-        pattern = (string) "%a %b %d %T GMT %Y";
+        pattern = "%a %b %d %T GMT %Y";
     }
 #endif
 
-    pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
-    this->backUp = strdup(convertResult.toCharPointer());
+    pattern = "%a %b %d %T %Z %Y";
+    std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
+    strftime(this->backUp, sizeof(this->backUp), pattern, &this->localTimer);
 }
 
 void Date::initializeDate(int year, int month, int date,
@@ -518,17 +510,13 @@ void Date::initializeDate(long timestamp) {
 }
 
 String Date::timeToString(String pattern, const tm *timeManagement) const {
-    size_t size = 100;
-
-    string holdResult = static_cast<string> (calloc(size, sizeof(char)));
+    char holdResult[100] = {0};
     {
         std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
-        strftime(holdResult, size, pattern.toCharPointer(), timeManagement);
+        strftime(holdResult, sizeof(holdResult), pattern.toCharPointer(), timeManagement);
     }
 
-    String result = holdResult;
-    free(holdResult);
-    return result;
+    return holdResult;
 }
 
 long Date::fromLocalTime(tm &fields) {
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index af196af..1091cd4 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -42,7 +42,7 @@ namespace Java {
 				private:
 						long timer;
 						struct tm localTimer;
-						string backUp = nullptr;
+						char backUp[100] = {0};
 				private:
 						/**
 						 * Update Date status
-- 
2.43.0


From 80c435017d95d096005c1c7bf1a84654788b67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 28/58] fix: number objects keep value and text together when
 memory runs out

---
 library/Java/Lang/Bytes/Bytes.cpp     | 32 +++++++---------------
 library/Java/Lang/Double/Double.cpp   | 38 +++++----------------------
 library/Java/Lang/Float/Float.cpp     | 16 +++++------
 library/Java/Lang/Integer/Integer.cpp | 34 ++++++++----------------
 library/Java/Lang/Long/Long.cpp       | 12 +++------
 library/Java/Lang/Short/Short.cpp     | 12 ++++-----
 6 files changed, 42 insertions(+), 102 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index e8cc251..5fac9be 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -33,17 +33,17 @@ using namespace Java::Lang;
 
 Bytes::Bytes(byte byteValue) {
     this->original = byteValue;
-    asprintf(&this->originalString, "%d", this->original);
+    this->originalString = numberText("%d", this->original);
 }
 
 Bytes::Bytes(String inputString) {
     this->original = parseBytes(inputString, 10);
-    asprintf(&this->originalString, "%d", this->original);
+    this->originalString = numberText("%d", this->original);
 }
 
 Bytes::Bytes() {
     this->original = 0;
-    this->originalString = strdup("0");
+    this->originalString = stringCopy("0");
 }
 
 Bytes::~Bytes() {
@@ -206,23 +206,17 @@ boolean Bytes::operator>=(const Bytes &target) {
 }
 
 Bytes &Bytes::operator-=(const Bytes &target) {
-    free((this->originalString));
-    this->original -= target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", (byte) (this->original - target.original));
     return *this;
 }
 
 Bytes &Bytes::operator+=(const Bytes &target) {
-    free((this->originalString));
-    this->original += target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", (byte) (this->original + target.original));
     return *this;
 }
 
 Bytes &Bytes::operator*=(const Bytes &target) {
-    free((this->originalString));
-    this->original *= target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", (byte) (this->original * target.original));
     return *this;
 }
 
@@ -230,9 +224,7 @@ Bytes &Bytes::operator/=(const Bytes &target) {
     if (target.intValue() == 0) {
         throw ArithmeticException("Divide by zero");
     }
-    free((this->originalString));
-    this->original /= target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", (byte) (this->original / target.original));
     return *this;
 }
 
@@ -240,20 +232,16 @@ Bytes &Bytes::operator%=(const Bytes &target) {
     if (target.intValue() == 0) {
         throw ArithmeticException("Divide by zero");
     }
-    free((this->originalString));
-    this->original %= target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", (byte) (this->original % target.original));
     return *this;
 }
 
 Bytes &Bytes::operator=(const Bytes &target) {
-    free((this->originalString));
-    this->original = target.original;
-    asprintf(&this->originalString, "%d", this->original);
+    replaceNumber(this->original, this->originalString, "%d", target.original);
     return *this;
 }
 
 Bytes::Bytes(const Bytes &anotherByte) {
     this->original = anotherByte.original;
-    asprintf(&this->originalString, "%d", this->original);
+    this->originalString = numberText("%d", this->original);
 }
diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..7b1a30b 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -30,30 +30,17 @@ using namespace Java::Lang;
 
 Double::Double() {
     this->original = 0;
-    asprintf(&this->originalString, "%lg", this->original);
+    this->originalString = numberText("%lg", this->original);
 }
 
 Double::Double(double original) {
     this->original = original;
-    int precision = 15;
-    this->originalString = (string) calloc(1079, sizeof(char));
-    if (original == 0.0f && original < 0) {
-        sprintf(this->originalString, "-%.*f", precision, original);
-    } else {
-        sprintf(this->originalString, "%.*f", precision, original);
-    }
+    this->originalString = numberText("%.15f", this->original);
 }
 
 Double::Double(const Double &doubleNumber) {
     this->original = doubleNumber.original;
-    this->original = original;
-    int precision = 15;
-    this->originalString = (string) calloc(1079, sizeof(char));
-    if (original == 0.0f && original < 0) {
-        sprintf(this->originalString, "-%.*f", precision, this->original);
-    } else {
-        sprintf(this->originalString, "%.*f", precision, this->original);
-    }
+    this->originalString = numberText("%.15f", this->original);
 }
 
 Double::~Double() {
@@ -79,19 +66,14 @@ String Double::toString() const {
 
 char Double::charValue() const {
     int precision = 15;
-    string result = (string) calloc(1079, sizeof(char));
+    char result[1079];
     if (this->original == 0.0f && this->original < 0) {
         sprintf(result, "-%.*f", precision, this->original);
     } else {
         sprintf(result, "%.*f", precision, this->original);
     }
     char charValueResult;
-    if (result == "") {
-        charValueResult = '\0';
-    } else {
-        charValueResult = result[0];
-    }
-    free(result);
+    charValueResult = result[0];
     return charValueResult;
 }
 
@@ -172,15 +154,7 @@ boolean Double::operator||(const Double &target) const {
 }
 
 Double &Double::operator=(const Double &target) {
-    this->original = target.original;
-    free(this->originalString);
-    int precision = 15;
-    this->originalString = (string) calloc(1079, sizeof(char));
-    if (this->original == 0.0f && this->original < 0) {
-        sprintf(this->originalString, "-%.*f", precision, this->original);
-    } else {
-        sprintf(this->originalString, "%.*f", precision, this->original);
-    }
+    replaceNumber(this->original, this->originalString, "%.15f", target.original);
     return *this;
 }
 
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..c78dd9e 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -31,22 +31,22 @@ using namespace Java::Lang;
 
 Float::Float() {
     this->original = 0;
-    asprintf(&this->originalString, "%g", this->original);
+    this->originalString = numberText("%g", this->original);
 }
 
 Float::Float(float original) {
     this->original = original;
-    asprintf(&this->originalString, "%g", this->original);
+    this->originalString = numberText("%g", this->original);
 }
 
 Float::Float(const Float &floatNumber) {
     this->original = floatNumber.original;
-    asprintf(&this->originalString, "%g", this->original);
+    this->originalString = numberText("%g", this->original);
 }
 
 Float::Float(String inputString) {
     this->original = this->parseFloat(inputString).floatValue();
-    asprintf(&this->originalString, "%g", this->original);
+    this->originalString = numberText("%g", this->original);
 }
 
 Float::~Float() {
@@ -110,9 +110,7 @@ boolean Float::operator||(const Float &target) const {
 }
 
 Float& Float::operator=(const Float &target) {
-    this->original = target.original;
-    free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    replaceNumber(this->original, this->originalString, "%f", target.original);
     return *this;
 }
 
@@ -518,8 +516,7 @@ int Float::floatToIntBits(float inputFloat) {
 }
 
 String Float::intBitsToBinary32StringType(int intBitsInput) {
-    string resultIntBitsToBinary32StringType
-            = (string) calloc(33, sizeof (char));
+    char resultIntBitsToBinary32StringType[33] = {0};
     int index;
     int indexOfFor;
 
@@ -550,7 +547,6 @@ String Float::intBitsToBinary32StringType(int intBitsInput) {
     }
 
     String result = resultIntBitsToBinary32StringType;
-    free(resultIntBitsToBinary32StringType);
 
     return result;
 }
diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..8f01d8d 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -36,22 +36,22 @@ using namespace Java::Lang;
 
 Integer::Integer() {
 	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 Integer::Integer(int original) {
 	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 Integer::Integer(String inputString) {
 	this->original = Integer::parseInt(inputString);
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 Integer::Integer(const Integer &integer) {
 	this->original = integer.original;
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 Integer::~Integer() {
@@ -62,7 +62,7 @@ Integer::~Integer() {
 
 char Integer::charValue() const {
 	string convertResult;
-    asprintf(&convertResult, "%d", this->original);
+    convertResult = numberText("%d", this->original);
 	char result;
     if (convertResult == "") {
         result = '\0';
@@ -98,9 +98,7 @@ double Integer::doubleValue() const {
 }
 
 Integer &Integer::operator=(const Integer &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", target.original);
 	return *this;
 }
 
@@ -155,16 +153,12 @@ Integer Integer::operator%(const Integer &target) {
 }
 
 Integer &Integer::operator+=(const Integer &target) {
-	this->original += target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", (int) (this->original + target.original));
 	return *this;
 }
 
 Integer &Integer::operator-=(const Integer &target) {
-	this->original -= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", (int) (this->original - target.original));
 	return *this;
 }
 
@@ -172,16 +166,12 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", (int) (this->original / target.original));
 	return *this;
 }
 
 Integer &Integer::operator*=(const Integer &target) {
-	this->original *= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", (int) (this->original * target.original));
 	return *this;
 }
 
@@ -189,9 +179,7 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", (int) (this->original % target.original));
 	return *this;
 }
 
diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index c8c2bca..87daa7f 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -37,7 +37,7 @@ using namespace Java::Lang;
  */
 Long::Long() {
 	this->original = 0;
-	asprintf(&this->originalString, "%ld", this->original);
+	this->originalString = numberText("%ld", this->original);
 }
 
 /**
@@ -48,7 +48,7 @@ Long::Long() {
  */
 Long::Long(long value) {
 	this->original = value;
-	asprintf(&this->originalString, "%ld", this->original);
+	this->originalString = numberText("%ld", this->original);
 }
 
 /**
@@ -59,7 +59,7 @@ Long::Long(long value) {
  */
 Long::Long(const Long &target) {
 	this->original = target.original;
-	asprintf(&this->originalString, "%ld", this->original);
+	this->originalString = numberText("%ld", this->original);
 }
 
 /**
@@ -643,11 +643,7 @@ String Long::toUnsignedString0(long val, int shift) {
  * @return Long
  */
 Long Long::operator=(const Long &target) {
-	this->original = target.original;
-	if (this->originalString != nullptr) {
-		free(this->originalString);
-	}
-	asprintf(&this->originalString, "%ld", this->original);
+	replaceNumber(this->original, this->originalString, "%ld", target.original);
 	return *this;
 }
 
diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..e5d9562 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -35,7 +35,7 @@ using namespace Java::Lang;
  */
 Short::Short() {
 	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 /**
@@ -45,7 +45,7 @@ Short::Short() {
  */
 Short::Short(short original) {
 	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
+	this->originalString = numberText("%d", this->original);
 }
 
 /**
@@ -55,7 +55,7 @@ Short::Short(short original) {
  */
 Short::Short(const Short &shortNumber) {
 	this->original = shortNumber.original;
-    asprintf(&this->originalString, "%d", this->original);
+    this->originalString = numberText("%d", this->original);
 }
 
 Short::~Short() {
@@ -93,7 +93,7 @@ String Short::toString() const {
 char Short::charValue() const {
     string stringFromShort;
     char result;
-    asprintf(&stringFromShort, "%d", this->original);
+    stringFromShort = numberText("%d", this->original);
     if (stringFromShort == "") {
         result = '\0';
     } else {
@@ -155,9 +155,7 @@ double Short::doubleValue() const {
  * @return Short
  */
 Short Short::operator=(const Short &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
+	replaceNumber(this->original, this->originalString, "%d", target.original);
 	return *this;
 }
 
-- 
2.43.0


From 1c4fcda46d9d25c9621a6ca1ea95246ae04b46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 29/58] fix: HashMap adds no entry without its value when
 memory runs out

---
 library/Java/Util/HashMap/HashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..6c22a16 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -433,7 +433,7 @@ namespace Java {
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
-					this->original[key] = value;
+					this->original.insert(std::pair<K, V>(key, value));
 					return result;
 				} else {
 					result = iteratorFind->second;
@@ -511,7 +511,7 @@ namespace Java {
 				}
 
 				result = iteratorToString->second;
-				this->original[key] = value;
+				iteratorToString->second = value;
 
 				return result;
 			}
@@ -539,7 +539,7 @@ namespace Java {
 					return false;
 				}
 
-				this->original[key] = newValue;
+				iteratorToString->second = newValue;
 
 				return true;
 			}
-- 
2.43.0


From d0f7f8f4d20cb70dba084ef8b932366f2bcb1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 30/58] fix: an unusable locale is told apart from a failed
 allocation

---
 library/Java/Lang/String/String.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 383ecd3..96588a1 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -38,6 +38,7 @@ static locale_t userLocale() {
     static locale_t locale = (locale_t) 0;
     std::lock_guard<std::mutex> guard(mutex);
     if (locale == (locale_t) 0) {
+        errno = 0;
         locale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
         if (locale == (locale_t) 0 && errno == ENOMEM) {
             throw std::bad_alloc();
-- 
2.43.0


From 33483a7c5a3f6a0af2c487506b67819715bf368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 31/58] fix: a map keeps its entries and its locks when a move,
 copy or allocation fails while it makes room

---
 .../libcuckoo/bucket_container.hh             | 15 +++++++++
 .../libcuckoo/cuckoohash_map.hh               | 32 ++++++++++++++-----
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
index ec82613..c8c94cb 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
@@ -214,6 +214,15 @@ namespace libcuckoo {
             b.occupied(slot) = true;
         }
 
+        // Constructs live data in a bucket from the data of a slot in a bucket of
+        // any container. The source is moved from only if that cannot throw half
+        // way, with its key already gone; otherwise it is copied, and unchanged if
+        // that throws.
+        void transferKV(size_type ind, size_type slot, bucket &src,
+                        size_type src_slot) {
+            move_or_copy(ind, slot, src, src_slot, safely_movable());
+        }
+
         // Destroys live data in a bucket
         void eraseKV(size_type ind, size_type slot) {
             bucket &b = buckets_[ind];
@@ -304,6 +313,12 @@ namespace libcuckoo {
             buckets_ = nullptr;
         }
 
+        using safely_movable = std::integral_constant<bool,
+                (std::is_nothrow_move_constructible<Key>::value &&
+                 std::is_nothrow_move_constructible<T>::value) ||
+                !std::is_copy_constructible<Key>::value ||
+                !std::is_copy_constructible<T>::value>;
+
         // `true` here refers to whether or not we should move
         void move_or_copy(size_type dst_ind, size_type dst_slot, bucket &src,
                           size_type src_slot, std::true_type) {
diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 5d12398..a4072cf 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -1514,8 +1514,7 @@ namespace libcuckoo {
                     return false;
                 }
 
-                buckets_.setKV(to.bucket, ts, fb.partial(fs), fb.movable_key(fs),
-                               std::move(fb.mapped(fs)));
+                buckets_.transferKV(to.bucket, ts, fb, fs);
                 buckets_.eraseKV(from.bucket, fs);
                 if (depth == 1) {
                     // Hold onto the locks contained in twob
@@ -1692,17 +1691,19 @@ namespace libcuckoo {
                 num_remaining_lazy_rehash_locks(0);
             }
 
+            // Create a new empty buckets container, which will become the new current
+            // one. This is done before anything is changed, since it can throw.
+            buckets_t new_buckets(new_hp, get_allocator());
+
             // Resize the locks array if necessary. This is done before we update the
             // hashpower so that other threads don't grab the new hashpower and the old
             // locks.
             maybe_resize_locks(size_type(1) << new_hp);
             locks_t &current_locks = get_current_locks();
 
-            // Move the current buckets into old_buckets_, and create a new empty
-            // buckets container, which will become the new current one. The
-            // old_buckets_ data will be destroyed when move-assigning to buckets_.
+            // Move the current buckets into old_buckets_, which holds no data here.
             old_buckets_.swap(buckets_);
-            buckets_ = buckets_t(new_hp, get_allocator());
+            buckets_.swap(new_buckets);
 
             // If we have less than kMaxNumLocks buckets, we do a full rehash in the
             // current thread. On-demand rehashing wouldn't be very easy with less than
@@ -1869,8 +1870,7 @@ namespace libcuckoo {
                                 auto &bucket = buckets_[i];
                                 for (size_type j = 0; j < slot_per_bucket(); ++j) {
                                     if (bucket.occupied(j)) {
-                                        new_map.insert(bucket.movable_key(j),
-                                                       std::move(bucket.mapped(j)));
+                                        insert_from(new_map, bucket, j, can_move_data());
                                     }
                                 }
                             }
@@ -1891,6 +1891,22 @@ namespace libcuckoo {
             return ok;
         }
 
+        // Inserts the data of a slot into another map. Inserting may throw, so data
+        // that can be copied stays behind as it is.
+        using can_move_data = std::integral_constant<bool,
+                !std::is_copy_constructible<key_type>::value ||
+                !std::is_copy_constructible<mapped_type>::value>;
+
+        static void insert_from(cuckoohash_map &map, bucket &b, size_type slot,
+                                std::true_type) {
+            map.insert(b.movable_key(slot), std::move(b.mapped(slot)));
+        }
+
+        static void insert_from(cuckoohash_map &map, bucket &b, size_type slot,
+                                std::false_type) {
+            map.insert(b.key(slot), b.mapped(slot));
+        }
+
         // Executes the function over the given range, splitting the work between the
         // current thread and any available worker threads.
         //
-- 
2.43.0


From 5c6c35b8cfd9a066850d0058a185f1b17288d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 32/58] fix: a bulk enqueue that throws leaves every block it
 had reused empty

---
 .../Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 831eec7..3da606e 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -2023,6 +2023,7 @@ private:
                 // all the allocations succeeded).
                 index_t startTailIndex = this->tailIndex.load(std::memory_order_relaxed);
                 auto startBlock = this->tailBlock;
+                size_t reusedBlocks = 0;
                 size_t newBlocks = 0;
 
                 Block* firstAllocatedBlock = nullptr;
@@ -2039,6 +2040,7 @@ private:
 
                         this->tailBlock = this->tailBlock->next;
                         firstAllocatedBlock = firstAllocatedBlock == nullptr ? this->tailBlock : firstAllocatedBlock;
+                        ++reusedBlocks;
                     }
                     lastReusedBlock = this->tailBlock;
 
@@ -2162,11 +2164,12 @@ private:
                                 }
                             }
 
-                            for (auto block = startBlock; block != lastReusedBlock; ) {
+                            return_blocks(lastReusedBlock, endBlock);
+                            // Note that the last block reused may well be the start block
+                            for (auto block = startBlock; reusedBlocks != 0; --reusedBlocks) {
                                 block = block->next;
                                 block->ConcurrentQueue::Block::template set_all_empty<explicit_context>();
                             }
-                            return_blocks(lastReusedBlock, endBlock);
                             this->tailBlock = startBlock;
                             MOODYCAMEL_RETHROW;
                         }
-- 
2.43.0


From 13f014847293fb8ca98c55f2bcef366983c6aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 33/58] fix: String::hashCode keeps no hidden state, so strings
 may be read by several threads and hash equal after a change

---
 library/Java/Lang/String/String.cpp | 9 +++------
 library/Java/Lang/String/String.hpp | 1 -
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 96588a1..e4e0573 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -595,12 +595,9 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	int hashCode = 0;
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
 	return hashCode;
 }
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2309e66..7a74926 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From 46718ebd5dbb29231f11342e6deb080293487278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 34/58] fix: toString of StringBuilder, ArrayList, HashMap and
 MediaType, and BitSet::clone, leave the object unchanged

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp |  3 +--
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  1 -
 library/Java/Util/ArrayList/ArrayList.hpp         | 12 +++++-------
 library/Java/Util/BitSet/BitSet.cpp               |  5 +++--
 library/Java/Util/HashMap/HashMap.hpp             | 12 +++++-------
 library/Javax/Ws/Rs/Core/MediaType.cpp            |  4 +++-
 6 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 156548d..0ee2adb 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -648,8 +648,7 @@ String StringBuilder::substring(int start, int end) const {
 
 String StringBuilder::toString() const {
 	std::string content(this->original, (size_t) this->currentLength);
-	this->backupOriginalForToString = content.c_str();
-	return this->backupOriginalForToString;
+	return content.c_str();
 }
 
 void StringBuilder::trimToSize() {
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 0aaa6fc..d41f46b 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -41,7 +41,6 @@ namespace Java {
                 {
                 private:
                         string original = nullptr;
-                        mutable String backupOriginalForToString;
                         int currentLength = 0;
                         int currentCapacity = 0;
                 
diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..baafee0 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -63,7 +63,6 @@ namespace Java {
 
 		private:
 			std::vector<E> original;
-			String backup;
 			typedef E *_iterator;
 			typedef const E *_const_iterator;
 
@@ -519,12 +518,11 @@ namespace Java {
 			 */
 			String toString() {
 				if (this->size() == 0) {
-					this->backup = "[]";
-					return this->backup;
+					return "[]";
 				}
 
 				boolean valueIsString = false;
-				this->backup = "[";
+				String backup = "[";
 				String commaAndSpace = ", ";
 				String endArrayList = "]";
 				String appendString;
@@ -551,11 +549,11 @@ namespace Java {
 					if (index != this->size() - 1) {
 						appendString += commaAndSpace;
 					}
-					this->backup += appendString;
+					backup += appendString;
 				}
 
-				this->backup += endArrayList;
-				return this->backup;
+				backup += endArrayList;
+				return backup;
 			}
 
 			/**
diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 0de4e3f..ddf460e 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -300,10 +300,11 @@ void BitSet::clear(int fromIndex, int toIndex) {
 }
 
 BitSet BitSet::clone() {
+    BitSet copy(*this);
     if (!sizeIsSticky) {
-        this->trimToSize();
+        copy.trimToSize();
     }
-    return *this;
+    return copy;
 }
 
 void BitSet::flip(int bitIndex) {
diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 6c22a16..e1e8df1 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -44,7 +44,6 @@ namespace Java {
 
 		private:
 			std::unordered_map<K, V> original;
-			String backup;
 			typedef typename std::unordered_map<K, V>::iterator IteratorType;
 			typedef typename std::unordered_map<K, V>::const_iterator ConstIteratorType;
 
@@ -560,11 +559,10 @@ namespace Java {
 			 */
 			String toString() {
 				if (this->size() == 0) {
-					this->backup = "{}";
-					return this->backup;
+					return "{}";
 				}
 
-				backup = "{";
+				String backup = "{";
 				String commaAndSpace = ", ";
 				String colonAndSpace = ": ";
 				String endString = "}";
@@ -611,11 +609,11 @@ namespace Java {
 						appendValueString += commaAndSpace;
 					}
 
-					this->backup += appendKString + colonAndSpace + appendValueString;
+					backup += appendKString + colonAndSpace + appendValueString;
 				}
 
-				this->backup += endString;
-				return this->backup;
+				backup += endString;
+				return backup;
 			}
 		};
 	}  // namespace Util
diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..b45de11 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -62,6 +62,7 @@ const MediaType WILDCARD_TYPE                         = MediaType();
 MediaType::MediaType() {
     this->type = MEDIA_TYPE_WILDCARD;
     this->subtype = MEDIA_TYPE_WILDCARD;
+    this->backupForToString = this->type + String("/") + this->subtype;
 }
 
 MediaType::MediaType(String type, String subtype) {
@@ -79,6 +80,7 @@ MediaType::MediaType(String type, String subtype) {
 
     this->type = type;
     this->subtype = subtype;
+    this->backupForToString = this->type + String("/") + this->subtype;
 }
 
 MediaType::MediaType(String type, String subtype, HashMap<String, String> parameters) {
@@ -98,6 +100,7 @@ MediaType::MediaType(String type, String subtype, HashMap<String, String> parame
     this->type = String(type);
     this->subtype = String(subtype);
     this->parameters = parameters;
+    this->backupForToString = this->type + String("/") + this->subtype;
 }
 
 const HashMap<String, String> &MediaType::getParameters() const {
@@ -151,7 +154,6 @@ boolean MediaType::isCompatible(MediaType other) {
 }
 
 string MediaType::toString() {
-   this->backupForToString = this->type + String("/") + this->subtype;
     return backupForToString.toCharPointer();
 }
 
-- 
2.43.0


From 0be55c37eeb1f4c8caecef82144b81e737d5a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 35/58] fix: a copied or listed Vector knows its capacity
 increment

---
 library/Java/Util/Vector/Vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..2354ddd 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -47,7 +47,7 @@ namespace Java {
         {
         protected:
             std::vector<E> original;
-            int capacityIncrement;
+            int capacityIncrement = 0;
 
         public:
             /**
@@ -105,6 +105,7 @@ namespace Java {
              * @param target
              */
             Vector(const Vector<E> &target) {
+                this->capacityIncrement = target.capacityIncrement;
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
-- 
2.43.0


From b3982d5ecee497d3b984a04a820771692077bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 36/58] fix: index checks hold for empty strings and lists

---
 library/Java/Lang/String/String.cpp       | 8 ++++----
 library/Java/Util/ArrayList/ArrayList.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index e4e0573..11a9cd3 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -186,7 +186,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -232,7 +232,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
@@ -330,7 +330,7 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(character);
 	}
 
@@ -360,7 +360,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(subString);
 	}
 	std::string thisStringReversed = this->original;
diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index baafee0..761abde 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -153,7 +153,7 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
+				if (index < 0 || index > this->size()) {
 					return;
 				}
 				this->original.insert(this->original.begin() + index, element);
-- 
2.43.0


From 40dbbc1dbad8bd2d7ab6f75ce29192fcc24732ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 37/58] fix: an empty LinkedList or PriorityQueue answers with
 the default value or an exception

---
 library/Java/Util/LinkedList/LinkedList.hpp   | 29 +++++++++++++++++--
 .../Java/Util/PriorityQueue/PriorityQueue.hpp |  7 +++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index d64c05c..c29cdbc 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -66,6 +66,12 @@ namespace Java {
                     std::list<Node<E>*> original;
                     typedef typename std::list<Node<E>*>::iterator IteratorType;
                     typedef typename std::list<Node<E>*>::const_iterator ConstIteratorType;
+
+                    void requireElement() const {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("The list is empty");
+                        }
+                    }
                 public:
 
                     LinkedList() = default;
@@ -193,7 +199,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -203,7 +209,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= this->size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
@@ -216,6 +222,7 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        this->requireElement();
                         return original.front()->element;
                     }
 
@@ -225,6 +232,7 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        this->requireElement();
                         var node = this->original.back();
                         return node->element;
                     }
@@ -272,7 +280,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -280,6 +288,9 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getFirst();
                     }
 
@@ -289,6 +300,9 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getLast();
                     }
 
@@ -307,6 +321,9 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         var  node = this->original.front();
                         E element = node->element;
                         this->original.pop_front();
@@ -320,6 +337,9 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         var node = this->original.back();
                         E element = node->element;
                         this->original.pop_back();
@@ -333,6 +353,7 @@ namespace Java {
                      * @return E
                      */
                     E pop() {
+                        this->requireElement();
                         return pollFirst();
                     }
 
@@ -353,6 +374,7 @@ namespace Java {
                      * @return E
                      */
                     E remove() {
+                        this->requireElement();
                         return pollFirst();
                     }
 
@@ -395,6 +417,7 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        this->requireElement();
                         var node = this->original.back();
                          E element = node->element;
                          this->original.pop_back();
diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..43341d5 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -210,6 +210,9 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+							if (this->original.empty()) {
+								return result;
+							}
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
@@ -284,7 +287,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From a274cf3c8e562113230fe7f7fa8c33ee82a26265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 38/58] fix: URLConnection and HttpURLConnection start with
 their documented settings

---
 .../Java/Net/HttpURLConnection/HttpURLConnection.hpp   |  2 +-
 library/Java/Net/URL/URL.hpp                           | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
index eeaf7dc..c032788 100755
--- a/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
+++ b/library/Java/Net/HttpURLConnection/HttpURLConnection.hpp
@@ -214,7 +214,7 @@ namespace Java {
 						static const int HTTP_VERSION = 505;
 				protected:
 					String method = "GET";
-					int responseCode;
+					int responseCode = -1;
 					String responseMessage;
 
 					HttpURLConnection(URL url);
diff --git a/library/Java/Net/URL/URL.hpp b/library/Java/Net/URL/URL.hpp
index 599d2de..9877a71 100755
--- a/library/Java/Net/URL/URL.hpp
+++ b/library/Java/Net/URL/URL.hpp
@@ -66,16 +66,16 @@ namespace Java {
 				
 				class URLConnection : public Object {
 				private:
-						int connectTimeout;
-						int readTimeout;
+						int connectTimeout = 0;
+						int readTimeout = 0;
 				protected:
 						URL url;
 						boolean doInput = true;
 						boolean doOutput = false;
 						boolean connected = false;
-						long ifModifiedSince;
-						boolean allowUserInteraction;
-						boolean useCaches;
+						long ifModifiedSince = 0;
+						boolean allowUserInteraction = false;
+						boolean useCaches = true;
 				public:
 						URLConnection();
 						URLConnection(URL url);
-- 
2.43.0


From 6f29be10f1920203ef8cb947d678dfcf856f8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 39/58] fix: BitSet::clone trims the set it copies again (its
 documented effect)

---
 library/Java/Util/BitSet/BitSet.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index ddf460e..0de4e3f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -300,11 +300,10 @@ void BitSet::clear(int fromIndex, int toIndex) {
 }
 
 BitSet BitSet::clone() {
-    BitSet copy(*this);
     if (!sizeIsSticky) {
-        copy.trimToSize();
+        this->trimToSize();
     }
-    return copy;
+    return *this;
 }
 
 void BitSet::flip(int bitIndex) {
-- 
2.43.0


From 72fc7dcba06fc3da04a6ffcc20ef286d20ba752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 40/58] fix: URL::toString leaks no copy of its text

---
 library/Java/Net/URL/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Net/URL/URL.cpp b/library/Java/Net/URL/URL.cpp
index d51ffaf..3c2d8b7 100755
--- a/library/Java/Net/URL/URL.cpp
+++ b/library/Java/Net/URL/URL.cpp
@@ -113,6 +113,6 @@ String URL::toString() const {
 	
 	url += query;
 
-	return stringCopy(url.toCharPointer());
+	return url;
 }
 
-- 
2.43.0


From 08cfb6cd8ddb8158ee601c1a920071763c68e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 41/58] fix: HashMap and Map returned an indeterminate value
 for a missing key

---
 library/Java/Util/HashMap/HashMap.hpp | 10 +++++-----
 library/Java/Util/Map/Map.hpp         |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index e1e8df1..f2f8c8b 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -350,7 +350,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
+					V value = V();
 				    return value;
 				}
 				return iteratorToString->second;
@@ -369,7 +369,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -428,7 +428,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -452,7 +452,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -502,7 +502,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..25b078b 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -206,7 +206,7 @@ namespace Java {
 						 * @return V
 						 */
 						V get(const K &key) {
-							V v;
+							V v = V();
 							return v;
 						}
 						
-- 
2.43.0


From 55868a3a95070e8ff63c47621fb04154bf1f5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 42/58] fix: hashCode of Boolean and Date was the address of
 the object

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 library/Java/Util/Date/Date.cpp       | 8 ++++++--
 library/Java/Util/Date/Date.hpp       | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 7f01107..075098c 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -118,7 +118,7 @@ boolean Boolean::getBoolean(const_string target) {
  * @return long
  */
 int Boolean::hashCode() const {
-	return Object::hashCode();
+	return this->original ? 1231 : 1237;
 }
 
 /**
diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 6805a61..ee5e87c 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -185,8 +185,7 @@ String Date::toGMTString() const {
 }
 
 int Date::hashCode() const {
-    // TODO - Not implement yet
-    return Object::hashCode();
+    return (int) (this->timer ^ (this->timer >> 32));
 }
 
 String Date::removeBracket(String inputString) {
@@ -539,6 +538,11 @@ long Date::getUTCTime(long timer) {
     return Date::fromLocalTime(tempTimer);
 }
 
+boolean Date::equals(const Object &obj) const {
+    const Date *date = dynamic_cast<const Date *>(&obj);
+    return date != nullptr && this->getTime() == date->getTime();
+}
+
 boolean Date::equals(Date obj) const {
     return this->getTime() == obj.getTime();
 }
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 1091cd4..55cbf55 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -247,6 +247,7 @@ namespace Java {
 						 */
 						// TODO (anhnt) need instanceof, use Date instead of Object
 						boolean equals(Date obj) const;
+						boolean equals(const Object &obj) const override;
 						
 						/**
 						 * Get day of month
-- 
2.43.0


From 76ad4ca63dcbe29640c8ba9c2ac70ab1cab0bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 43/58] fix: SimpleDateFormat::format lost texts of 80
 characters and more

---
 .../Java/Text/SimpleDateFormat/SimpleDateFormat.cpp  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 4cd046f..6ecfb60 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -46,9 +46,14 @@ String SimpleDateFormat::format(const Date &date) {
     String zoneID = this->timeZone.getID();
     time_t timestamp = (time_t) (date.getTime() / 1000);
     struct tm timeInfo = {0};
-    char buffer[80] = {0};
+    // The space, trimmed below, makes every text longer than nothing, which is
+    // what strftime returns when the buffer is too small
+    std::string pattern = std::string(this->datePattern.toCharPointer()) + " ";
+    std::string buffer;
+    size_t length = 0;
 
-    {
+    while (length == 0 && buffer.size() < 1048576) {
+        buffer.assign(buffer.empty() ? 80 : buffer.size() * 2, 0);
         // The zone of the formatter becomes the zone of the process only here
         std::lock_guard<std::mutex> guard(TimeZone::getProcessLock());
         const char *processZone = getenv("TZ");
@@ -58,7 +63,7 @@ String SimpleDateFormat::format(const Date &date) {
         setenv("TZ", zoneID.toCharPointer(), 1);
         tzset();
         localtime_r(&timestamp, &timeInfo);
-        std::strftime(buffer, sizeof(buffer), this->datePattern.toCharPointer(), &timeInfo);
+        length = std::strftime(&buffer[0], buffer.size(), pattern.c_str(), &timeInfo);
 
         if (hasProcessZone) {
             setenv("TZ", savedZone.c_str(), 1);
@@ -68,6 +73,7 @@ String SimpleDateFormat::format(const Date &date) {
         tzset();
     }
 
+    buffer.resize(length);
     String formattedDate = buffer;
     return formattedDate.trim();
 }
\ No newline at end of file
-- 
2.43.0


From e1c51d930ffe639cce108a7f5684db0e0397cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 44/58] fix: a forked process repeated the time identifiers of
 its parent

---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index e425b27..209ba40 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -274,12 +274,24 @@ static int get_clock(uint32_t *clock_high, uint32_t *clock_low,
 	THREAD_LOCAL int		state_fd = -2;
 	THREAD_LOCAL FILE		*state_f;
 	THREAD_LOCAL uint16_t		clock_seq;
+	THREAD_LOCAL pid_t		state_pid = 0;
 	struct timeval			tv;
 	uint64_t			clock_reg;
 	mode_t				save_umask;
 	int				len;
 	int				ret = 0;
 
+	if (state_pid != getpid()) {
+		/*
+		 * After fork() the file is shared with the parent, which makes
+		 * its lock useless between the two and its position common: do
+		 * not use it (nor fclose(), which may move the position).
+		 */
+		if (state_fd >= 0)
+			close(state_fd);
+		state_fd = -2;
+		state_pid = getpid();
+	}
 	if (state_fd == -2) {
 		save_umask = umask(0);
 		state_fd = open(LIBUUID_CLOCK_FILE, O_RDWR|O_CREAT|O_CLOEXEC, 0660);
@@ -471,7 +483,7 @@ static pthread_mutex_t generator_lock = PTHREAD_MUTEX_INITIALIZER;
 int __uuid_generate_time(uuid_t out, int *num)
 {
 	static unsigned char node_id[6];
-	static int has_init = 0;
+	static pid_t init_pid = 0;
 	struct uuid uu;
 	uint32_t	clock_mid;
 	int ret;
@@ -479,7 +491,8 @@ int __uuid_generate_time(uuid_t out, int *num)
 #ifndef _WIN32
 	pthread_mutex_lock(&generator_lock);
 #endif
-	if (!has_init) {
+	/* a forked process must not go on as its parent does */
+	if (init_pid != getpid()) {
 		if (get_node_id(node_id) <= 0) {
 			random_get_bytes(node_id, 6);
 			/*
@@ -489,7 +502,7 @@ int __uuid_generate_time(uuid_t out, int *num)
 			 */
 			node_id[0] |= 0x01;
 		}
-		has_init = 1;
+		init_pid = getpid();
 	}
 	ret = get_clock(&clock_mid, &uu.time_low, &uu.clock_seq, num);
 	uu.clock_seq |= 0x8000;
-- 
2.43.0


From 1136ede89c09c641cf6d4de6d57d6d245742a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 45/58] fix: String and System::getenv read the environment
 while format changes it

---
 library/Java/Lang/String/String.cpp | 5 +++--
 library/Java/Lang/System/System.cpp | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 11a9cd3..9ffe28d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -29,14 +29,15 @@
 #include "../StringBuilder/StringBuilder.hpp"
 #include "../StringBuffer/StringBuffer.hpp"
 #include "../IllegalArgumentException/IllegalArgumentException.hpp"
+#include "../../Util/TimeZone/TimeZone.hpp"
 
 using namespace Java::Lang;
 
 // The character rules of the user's locale, without making it the locale of the process
 static locale_t userLocale() {
-    static std::mutex mutex;
     static locale_t locale = (locale_t) 0;
-    std::lock_guard<std::mutex> guard(mutex);
+    // The locale is named by the environment, which SimpleDateFormat::format changes
+    std::lock_guard<std::mutex> guard(Java::Util::TimeZone::getProcessLock());
     if (locale == (locale_t) 0) {
         errno = 0;
         locale = newlocale(LC_CTYPE_MASK, "", (locale_t) 0);
diff --git a/library/Java/Lang/System/System.cpp b/library/Java/Lang/System/System.cpp
index 27dad04..0b008ed 100755
--- a/library/Java/Lang/System/System.cpp
+++ b/library/Java/Lang/System/System.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "System.hpp"
+#include "../../Util/TimeZone/TimeZone.hpp"
 
 using namespace Java::Lang;
 
@@ -40,5 +41,7 @@ void System::gc() {
 }
 
 String System::getenv(String name) {
+	// SimpleDateFormat::format changes the environment while it holds this lock
+	std::lock_guard<std::mutex> guard(Java::Util::TimeZone::getProcessLock());
 	return std::getenv(name.toCharPointer());
 }
-- 
2.43.0


From 386acac2e4fe802b79cf975ad8d6a63416e046af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 46/58] fix: moving a number object needs no memory

---
 library/Java/Lang/Bytes/Bytes.hpp     | 22 ++++++++++++++++++++++
 library/Java/Lang/Double/Double.hpp   | 22 ++++++++++++++++++++++
 library/Java/Lang/Float/Float.hpp     | 22 ++++++++++++++++++++++
 library/Java/Lang/Integer/Integer.hpp | 22 ++++++++++++++++++++++
 library/Java/Lang/Long/Long.hpp       | 22 ++++++++++++++++++++++
 library/Java/Lang/Short/Short.hpp     | 22 ++++++++++++++++++++++
 6 files changed, 132 insertions(+)

diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index 1dc1d90..2cab111 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -90,6 +90,16 @@ namespace Java {
              */
             Bytes(const Bytes &anotherBytes);
 
+            /**
+             * Takes over the number and the text of an object that is not needed any more
+             *
+             * @param target
+             */
+            Bytes(Bytes &&target) noexcept
+                : original(target.original), originalString(target.originalString) {
+                target.originalString = nullptr;
+            }
+
             /**
              * Destructor, free memory allocated for originalString.
              */
@@ -415,6 +425,18 @@ namespace Java {
              */
             Bytes &operator=(const Bytes &target);
 
+            /**
+             * Exchanges the number and the text with an object that is not needed any more
+             *
+             * @param target
+             * @return Bytes
+             */
+            Bytes &operator=(Bytes &&target) noexcept {
+                std::swap(this->original, target.original);
+                std::swap(this->originalString, target.originalString);
+                return *this;
+            }
+
             inline size_t operator()(const Bytes &target) const {
                 return std::hash<std::string>{}(
                         target.toString().toCharPointer());
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 2291882..206572d 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -115,6 +115,16 @@ namespace Java {
 
             Double(const Double &target);
 
+            /**
+             * Takes over the number and the text of an object that is not needed any more
+             *
+             * @param target
+             */
+            Double(Double &&target) noexcept
+                : original(target.original), originalString(target.originalString) {
+                target.originalString = nullptr;
+            }
+
             ~Double();
 
         public:
@@ -220,6 +230,18 @@ namespace Java {
              */
             Double &operator=(const Double &target);
 
+            /**
+             * Exchanges the number and the text with an object that is not needed any more
+             *
+             * @param target
+             * @return Double
+             */
+            Double &operator=(Double &&target) noexcept {
+                std::swap(this->original, target.original);
+                std::swap(this->originalString, target.originalString);
+                return *this;
+            }
+
             /**
              * Add AND assignment operator,
              * It adds right operand to the left operand
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e1cc7ec..db4ffaa 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -146,6 +146,16 @@ namespace Java {
 						 * @param target - Float
 						 */
 						Float(const Float &target);
+
+						/**
+						 * Takes over the number and the text of an object that is not needed any more
+						 *
+						 * @param target
+						 */
+						Float(Float &&target) noexcept
+							: original(target.original), originalString(target.originalString) {
+							target.originalString = nullptr;
+						}
 						
 						/**
 						 * Float initialization
@@ -262,6 +272,18 @@ namespace Java {
 						 * @return  Float
 						 */
 						Float &operator=(const Float &target);
+
+						/**
+						 * Exchanges the number and the text with an object that is not needed any more
+						 *
+						 * @param target
+						 * @return Float
+						 */
+						Float &operator=(Float &&target) noexcept {
+							std::swap(this->original, target.original);
+							std::swap(this->originalString, target.originalString);
+							return *this;
+						}
 						
 						/**
 						 * Add AND assignment operator,
diff --git a/library/Java/Lang/Integer/Integer.hpp b/library/Java/Lang/Integer/Integer.hpp
index 2e2a454..24642cb 100755
--- a/library/Java/Lang/Integer/Integer.hpp
+++ b/library/Java/Lang/Integer/Integer.hpp
@@ -103,6 +103,16 @@ namespace Java {
 						 * @param Integer &target
 						 */
 						Integer(const Integer &target);
+
+						/**
+						 * Takes over the number and the text of an object that is not needed any more
+						 *
+						 * @param target
+						 */
+						Integer(Integer &&target) noexcept
+							: original(target.original), originalString(target.originalString) {
+							target.originalString = nullptr;
+						}
 						
 						/**
 						 * Integer Destructor
@@ -139,6 +149,18 @@ namespace Java {
 						 * @return Integer
 						 */
 						Integer &operator=(const Integer &target);
+
+						/**
+						 * Exchanges the number and the text with an object that is not needed any more
+						 *
+						 * @param target
+						 * @return Integer
+						 */
+						Integer &operator=(Integer &&target) noexcept {
+							std::swap(this->original, target.original);
+							std::swap(this->originalString, target.originalString);
+							return *this;
+						}
 						
 						/**
 						 * Compares two Integer objects numerically.
diff --git a/library/Java/Lang/Long/Long.hpp b/library/Java/Lang/Long/Long.hpp
index a4f041a..9f7dd91 100755
--- a/library/Java/Lang/Long/Long.hpp
+++ b/library/Java/Lang/Long/Long.hpp
@@ -78,6 +78,16 @@ namespace Java {
 						 * @return Long
 						 */
 						Long(const Long &target);
+
+						/**
+						 * Takes over the number and the text of an object that is not needed any more
+						 *
+						 * @param target
+						 */
+						Long(Long &&target) noexcept
+							: original(target.original), originalString(target.originalString) {
+							target.originalString = nullptr;
+						}
 						
 						/**
 						 * Default destructor
@@ -398,6 +408,18 @@ namespace Java {
 						 * @return Long
 						 */
 						Long operator=(const Long &target);
+
+						/**
+						 * Exchanges the number and the text with an object that is not needed any more
+						 *
+						 * @param target
+						 * @return Long
+						 */
+						Long &operator=(Long &&target) noexcept {
+							std::swap(this->original, target.original);
+							std::swap(this->originalString, target.originalString);
+							return *this;
+						}
 						
 						/**
 						 * Sum two Long
diff --git a/library/Java/Lang/Short/Short.hpp b/library/Java/Lang/Short/Short.hpp
index 7cf6c4f..aaa3f0a 100755
--- a/library/Java/Lang/Short/Short.hpp
+++ b/library/Java/Lang/Short/Short.hpp
@@ -41,6 +41,16 @@ namespace Java {
 						Short();
 						Short(short original);
 						Short(const Short &target);
+
+						/**
+						 * Takes over the number and the text of an object that is not needed any more
+						 *
+						 * @param target
+						 */
+						Short(Short &&target) noexcept
+							: original(target.original), originalString(target.originalString) {
+							target.originalString = nullptr;
+						}
 						~Short();
 				
 				public:
@@ -56,6 +66,18 @@ namespace Java {
 				
 				public:
 						Short operator=(const Short &target);
+
+						/**
+						 * Exchanges the number and the text with an object that is not needed any more
+						 *
+						 * @param target
+						 * @return Short
+						 */
+						Short &operator=(Short &&target) noexcept {
+							std::swap(this->original, target.original);
+							std::swap(this->originalString, target.originalString);
+							return *this;
+						}
 						Short operator+(const Short &target);
 						Short operator-(const Short &target);
 						Short operator/(const Short &target);
-- 
2.43.0


From 211571d86ddff593407286768097333d45ad6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 47/58] fix: assigning a collection keeps the old content when
 memory runs out

---
 library/Java/Util/ArrayList/ArrayList.hpp     | 11 ++++++++++
 library/Java/Util/HashMap/HashMap.hpp         | 11 ++++++++++
 .../Java/Util/PriorityQueue/PriorityQueue.hpp | 11 ++++++++++
 library/Java/Util/Vector/Vector.hpp           | 22 +++++++------------
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 761abde..795e384 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -133,6 +133,17 @@ namespace Java {
 
 			}
 
+			/**
+			 * Takes over the elements of the specified list; keeps its own ones if that fails
+			 *
+			 * @param target
+			 */
+			ArrayList &operator=(const ArrayList<E> &target) {
+				std::vector<E> copy(target.original);
+				this->original.swap(copy);
+				return *this;
+			}
+
 		public:
 
 			/**
diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index f2f8c8b..13af76b 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -78,6 +78,17 @@ namespace Java {
 			 */
 			~HashMap() = default;
 
+			/**
+			 * Takes over the mappings of the specified map; keeps its own ones if that fails
+			 *
+			 * @param target
+			 */
+			HashMap &operator=(const HashMap<K, V> &target) {
+				std::unordered_map<K, V> copy(target.original);
+				this->original.swap(copy);
+				return *this;
+			}
+
 		public:
 			/**
 			 * @return begin iterator of this object
diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 43341d5..a944743 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -106,6 +106,17 @@ namespace Java {
 							}
 						};
 						
+						/**
+						 * Takes over the elements of the specified priority queue; keeps its own ones if that fails.
+						 *
+						 * @param target
+						 */
+						PriorityQueue &operator=(const PriorityQueue<E> &target) {
+							std::vector<E> copy(target.original);
+							this->original.swap(copy);
+							return *this;
+						}
+						
 						/**
 						 * Constructor
 						 * Creates a PriorityQueue containing the elements in the specified sorted set.
diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 2354ddd..62c0723 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -888,13 +888,10 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
-                this->clear();
-                this->ensureCapacity(target.size());
-                const E *targetData = target.original.data();
-                int index;
-                for (index = 0; index < target.size(); index++) {
-                    this->original.push_back(targetData[index]);
-                }
+                Vector<E> copy(this->capacity(), this->capacityIncrement);
+                copy.ensureCapacity(target.size());
+                copy.original.insert(copy.original.end(), target.original.begin(), target.original.end());
+                this->original.swap(copy.original);
                 return *this;
             }
 
@@ -906,13 +903,10 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const std::initializer_list<E> &list) {
-                this->clear();
-                this->ensureCapacity((int) list.size());
-                typename std::initializer_list<E>::iterator listIterator;
-                for (listIterator = list.begin();
-                     listIterator != list.end(); listIterator++) {
-                    this->original.push_back(*listIterator);
-                }
+                Vector<E> copy(this->capacity(), this->capacityIncrement);
+                copy.ensureCapacity((int) list.size());
+                copy.original.insert(copy.original.end(), list.begin(), list.end());
+                this->original.swap(copy.original);
                 return *this;
             }
         };
-- 
2.43.0


From df0ca00d75683151c10a79ded55e97387707157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 48/58] fix: assigning and extending an Array keeps it whole
 when memory runs out

---
 library/Kernel/Java.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/library/Kernel/Java.hpp b/library/Kernel/Java.hpp
index 628d895..b39120c 100644
--- a/library/Kernel/Java.hpp
+++ b/library/Kernel/Java.hpp
@@ -107,11 +107,30 @@ public:
 			this->length = containerSize;
 		}
 		
+		/**
+		 * Array copy constructor
+		 *
+		 * @param target
+		 */
+		Array(const Array &target) = default;
+		
 		/**
 		 * Array destructor
 		 */
 		~Array() = default;
 		
+		/**
+		 * Takes over the elements of another array; keeps its own ones if that fails
+		 *
+		 * @param target
+		 */
+		Array &operator=(const Array &target) {
+			std::vector<E> copy(target.original);
+			original.swap(copy);
+			this->length = target.length;
+			return *this;
+		}
+		
 		/**
 		 * Property length of Array
 		 *
@@ -190,9 +209,8 @@ public:
 		Array<E> operator+=(const std::initializer_list<E> &list) {
 			typename std::initializer_list<E>::iterator it;
 			for (it = list.begin(); it != list.end(); ++it) {
-				original.push_back(*it);
+				this->push(*it);
 			}
-			this->length = original.size();
 			return *this;
 		}
 };
-- 
2.43.0


From 6217f98bb20bad179ac97bd13e689d9b3cfd4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 49/58] fix: String::replace and split with an empty text never
 ended

---
 library/Java/Lang/String/String.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 9ffe28d..62f8801 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -408,6 +408,13 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty()) {
+		// Nothing is between all characters
+		for (; pre < this->original.size() || pre == 0; pre++) {
+			strings.push(this->original.substr(pre, 1));
+		}
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
@@ -658,6 +665,15 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		// Nothing is before, between and behind all characters
+		result = replaceString;
+		for (; pre < this->original.size(); pre++) {
+			result += this->original[pre];
+			result += replaceString;
+		}
+		return result;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From 8fd98b7945746e8bf947e4beb964462062a98a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 50/58] fix: copies of a MessageDigest shared and freed one
 engine

---
 .../Security/MessageDigest/MD5MessageDigest.cpp   |  4 ++++
 .../Security/MessageDigest/MD5MessageDigest.hpp   |  2 ++
 .../Java/Security/MessageDigest/MessageDigest.cpp | 11 +++++++++++
 .../Java/Security/MessageDigest/MessageDigest.hpp | 15 +++++++++++++++
 .../Security/MessageDigest/MessageDigestSpi.hpp   | 11 +++++++++++
 .../Security/MessageDigest/SHA1MessageDigest.cpp  |  4 ++++
 .../Security/MessageDigest/SHA1MessageDigest.hpp  |  2 ++
 7 files changed, 49 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..2304f88 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -62,3 +62,7 @@ void MD5MessageDigest::engineReset() {
 void MD5MessageDigest::engineUpdate(const byte *input, int len) {
     md5_append(&this->state, (const md5_byte_t*)input, len);
 }
+
+MessageDigestSpi *MD5MessageDigest::engineClone() const {
+    return new MD5MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
index 18ab9e7..007eae1 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
@@ -46,6 +46,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[16];
             md5_state_t state;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..3f1f59b 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -44,6 +44,17 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
     throw NoSuchAlgorithmException(algorithm + (string) " not found");
 }
 
+MessageDigest::MessageDigest(const MessageDigest &target) : algorithm(target.algorithm) {
+    this->spi = target.spi ? target.spi->engineClone() : nullptr;
+}
+
+MessageDigest &MessageDigest::operator=(const MessageDigest &target) {
+    MessageDigest copy(target);
+    std::swap(this->spi, copy.spi);
+    this->algorithm = std::move(copy.algorithm);
+    return *this;
+}
+
 MessageDigest::~MessageDigest() {
     if (spi) {
         delete spi;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..637bb2b 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -38,8 +38,23 @@ namespace Java {
         public:
             static MessageDigest getInstance(const String &algorithm);
 
+            /**
+             * A copy continues on its own from what was digested so far
+             *
+             * @param target
+             */
+            MessageDigest(const MessageDigest &target);
+
             ~MessageDigest();
 
+            /**
+             * Continue from what another message digest has digested so far
+             *
+             * @param target
+             * @return reference to this object
+             */
+            MessageDigest &operator=(const MessageDigest &target);
+
             String getAlgorithm();
 
             int getDigestLength();
diff --git a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
index 635345f..eb79418 100644
--- a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
@@ -28,6 +28,7 @@
 #define NATIVE_JAVA_SECURITY_MESSAGE_DIGEST_SPI_HPP_
 
 #include "../../Lang.hpp"
+#include "../../Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
 
 namespace Java {
     namespace Security {
@@ -38,6 +39,16 @@ namespace Java {
             virtual void engineReset() = 0;
             virtual void engineUpdate(const byte input[], int len)
             = 0;
+
+            /**
+             * Make an engine of its own for a copy of the message digest
+             *
+             * @return engine in the same state
+             * @throw CloneNotSupportedException if the engine cannot be copied
+             */
+            virtual MessageDigestSpi *engineClone() const {
+                throw CloneNotSupportedException("The message digest cannot be copied");
+            }
         };
     } // namespace Security
 } // namespace Java
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 1c2f41c..bc6bca2 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -40,3 +40,7 @@ void SHA1MessageDigest::engineReset() {
 void SHA1MessageDigest::engineUpdate(const byte *input, int len) {
     SHA1_Update(&this->state, input, len);
 }
+
+MessageDigestSpi *SHA1MessageDigest::engineClone() const {
+    return new SHA1MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
index df94783..fa0bfe2 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
@@ -45,6 +45,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[20];
             SHA_CTX state;
-- 
2.43.0


From bdde312e4b8f9d415497b0ab388b82147c48009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 51/58] fix: Vector and Stack used an element of their own
 after growing; Vector::remove of a foreign object

---
 library/Java/Util/Stack/Stack.hpp   | 5 +++--
 library/Java/Util/Vector/Vector.hpp | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Stack/Stack.hpp b/library/Java/Util/Stack/Stack.hpp
index 5daaeef..fc9f77b 100755
--- a/library/Java/Util/Stack/Stack.hpp
+++ b/library/Java/Util/Stack/Stack.hpp
@@ -87,8 +87,9 @@ namespace Java {
 						 * @return E
 						 */
 						E push(const E &element) {
-							this->addElement(element);
-							return element;
+							E copy(element); // the element may be one of this stack, which moves when it grows
+							this->addElement(copy);
+							return copy;
 						}
 						
 						/**
diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 62c0723..4ff0ebb 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -128,8 +128,9 @@ namespace Java {
              */
             boolean add(const E &element) {
                 int oldSize = (int) this->original.size();
+                E copy(element); // the element may be one of this vector, which moves when it grows
                 this->ensureCapacity(oldSize + 1);
-                this->original.push_back(element);
+                this->original.push_back(std::move(copy));
                 return (oldSize != this->original.size());
             }
 
@@ -144,8 +145,9 @@ namespace Java {
                 if (index < 0 || index > size) {
                     throw IllegalArgumentException("index is out of range");
                 }
+                E copy(element); // the element may be one of this vector, which moves when it grows
                 this->ensureCapacity(size + 1);
-                this->original.insert(this->original.begin() + index, element);
+                this->original.insert(this->original.begin() + index, std::move(copy));
             }
 
             /**
@@ -512,6 +514,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
-- 
2.43.0


From 85226776a7968aff748e028cde3e4f30658aad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 52/58] fix: an exception made without a cause has no cause
 (getCause returned an uninitialised pointer)

---
 library/Java/Lang/Throwable/Throwable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Throwable/Throwable.hpp b/library/Java/Lang/Throwable/Throwable.hpp
index 3254dd0..3a675d9 100755
--- a/library/Java/Lang/Throwable/Throwable.hpp
+++ b/library/Java/Lang/Throwable/Throwable.hpp
@@ -33,7 +33,7 @@ namespace Java {
 		namespace Lang {
 				class Throwable : std::exception {
 				private:
-						Throwable *cause;
+						Throwable *cause = nullptr;
 						String message;
 				
 				public:
-- 
2.43.0


From fa17accc2c5aa45714ddbd9ad231c3cce74d09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 53/58] fix: the empty UUID has a defined timestamp

---
 library/Java/Util/UUID/UUID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 915ad73..5e9341a 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -34,6 +34,7 @@
 UUID::UUID() {
 	this->mostSigBits = 0;
 	this->leastSigBits = 0;
+	this->timestamp = 0;
 }
 
 /**
-- 
2.43.0


From c47bb6c4fe88dfb78b1f3bf83711aa3d7c24e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:18 +0000
Subject: [PATCH 54/58] fix: bits of float and double numbers beyond the range
 of int (Double::compare(1e10, 1) wrote outside its buffer and did not end)
 and of the smallest integers

---
 library/Java/Lang/Double/Double.cpp | 233 +++-------------------------
 library/Java/Lang/Float/Float.cpp   | 224 +++-----------------------
 2 files changed, 38 insertions(+), 419 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 7b1a30b..c340f5d 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -347,226 +347,28 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
-    int i;
+    char resultDoubleToBinary64StringType[65];
+    unsigned long bits;
     int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
 
     if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
+        return "0111111111111111111111111111111111111111111111111111111111111111";
     }
 
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
+    if (doubleInput == 0) {
+        doubleInput = 0.0;
     }
 
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
+    memcpy(&bits, &doubleInput, sizeof(bits));
 
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
+    for (index = 63; index >= 0; index--) {
+        resultDoubleToBinary64StringType[index] = (bits & 1) == 1 ? '1' : '0';
+        bits = bits >> 1;
     }
 
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
+    resultDoubleToBinary64StringType[64] = '\0';
 
-    return result;
+    return resultDoubleToBinary64StringType;
 }
 
 double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
@@ -645,23 +447,26 @@ String Double::longBitsToBinary64StringType(long longBitsInput) {
 
     resultLongBitsToBinary64StringType[64] = '\0';
 
+    // Without a sign, as the smallest value has no positive counterpart
+    unsigned long magnitude = longBitsInput;
+
     if (longBitsInput < 0) {
         resultLongBitsToBinary64StringType[0] = '1';
-        longBitsInput = -longBitsInput;
+        magnitude = -magnitude;
     }
 
     index = 63;
-    while ((longBitsInput != 0) || (index > 1)) {
-        if ((longBitsInput & 1) == 1) {
+    while ((magnitude != 0) || (index > 1)) {
+        if ((magnitude & 1) == 1) {
             resultLongBitsToBinary64StringType[index] = '1';
         }
 
-        if ((longBitsInput & 1) == 0) {
+        if ((magnitude & 1) == 0) {
             resultLongBitsToBinary64StringType[index] = '0';
         }
 
         index--;
-        longBitsInput = longBitsInput >> 1;
+        magnitude = magnitude >> 1;
     }
 
     String result = resultLongBitsToBinary64StringType;
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index c78dd9e..5e41522 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -195,217 +195,28 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
-    int indexOfFor;
+    char resultFloatToBinary32StringType[33];
+    unsigned int bits;
     int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
 
     if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
+        return "01111111111111111111111111111111";
     }
 
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
+    if (floatInput == 0) {
+        floatInput = 0.0f;
     }
 
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
+    memcpy(&bits, &floatInput, sizeof(bits));
 
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
+    for (index = 31; index >= 0; index--) {
+        resultFloatToBinary32StringType[index] = (bits & 1) == 1 ? '1' : '0';
+        bits = bits >> 1;
     }
 
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
+    resultFloatToBinary32StringType[32] = '\0';
 
-    return  result;
+    return resultFloatToBinary32StringType;
 }
 
 float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
@@ -526,24 +337,27 @@ String Float::intBitsToBinary32StringType(int intBitsInput) {
 
     resultIntBitsToBinary32StringType[32] = '\0';
 
+    // Without a sign, as the smallest value has no positive counterpart
+    unsigned int magnitude = intBitsInput;
+
     if (intBitsInput < 0) {
         resultIntBitsToBinary32StringType[0] = '1';
-        intBitsInput = -intBitsInput;
+        magnitude = -magnitude;
     }
 
     index = 31;
-    while ((intBitsInput != 0) || (index > 1)) {
+    while ((magnitude != 0) || (index > 1)) {
 
-        if ( (intBitsInput & 1) ==1 ) {
+        if ( (magnitude & 1) ==1 ) {
             resultIntBitsToBinary32StringType[index] = '1';
         }
 
-        if ( (intBitsInput & 1) == 0 ) {
+        if ( (magnitude & 1) == 0 ) {
             resultIntBitsToBinary32StringType[index] = '0';
         }
 
         index--;
-        intBitsInput = intBitsInput >> 1;
+        magnitude = magnitude >> 1;
     }
 
     String result = resultIntBitsToBinary32StringType;
-- 
2.43.0


From 5c7483ff466122ba27f8e3b5c2bb94f568e81f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:53 +0000
Subject: [PATCH 55/58] fix: copying a ConcurrentHashMap that had been cleared
 or had grown dereferenced a null pointer

---
 .../ConcurrentHashMap/libcuckoo/bucket_container.hh           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
index c8c94cb..0f6aa20 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
@@ -339,6 +339,10 @@ namespace libcuckoo {
                         const bucket_container &>::type src,
                 std::integral_constant<bool, B> move) {
             assert(dst_hp >= src.hashpower());
+            // Buckets already given back (see clear_and_deallocate) have no copy
+            if (src.buckets_ == nullptr) {
+                return nullptr;
+            }
             bucket_container dst(dst_hp, get_allocator());
             // Move/copy all occupied slots of the source buckets
             for (size_t i = 0; i < src.size(); ++i) {
-- 
2.43.0


From 9d76bac5e5fe5e4080b44aad38d0c4bceb280cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 56/58] fix: a copy of a Double or a Float has the text of its
 original

---
 library/Java/Lang/Double/Double.cpp | 7 +++++--
 library/Java/Lang/Float/Float.cpp   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index c340f5d..404288a 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -40,7 +40,7 @@ Double::Double(double original) {
 
 Double::Double(const Double &doubleNumber) {
     this->original = doubleNumber.original;
-    this->originalString = numberText("%.15f", this->original);
+    this->originalString = stringCopy(doubleNumber.originalString);
 }
 
 Double::~Double() {
@@ -154,7 +154,10 @@ boolean Double::operator||(const Double &target) const {
 }
 
 Double &Double::operator=(const Double &target) {
-    replaceNumber(this->original, this->originalString, "%.15f", target.original);
+    string newText = stringCopy(target.originalString);
+    free(this->originalString);
+    this->originalString = newText;
+    this->original = target.original;
     return *this;
 }
 
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 5e41522..2046559 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -110,7 +110,7 @@ boolean Float::operator||(const Float &target) const {
 }
 
 Float& Float::operator=(const Float &target) {
-    replaceNumber(this->original, this->originalString, "%f", target.original);
+    replaceNumber(this->original, this->originalString, "%g", target.original);
     return *this;
 }
 
-- 
2.43.0


From a5e9d64a2312a5585430f5a6f9d92cd6312f8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 57/58] fix: a copy of a Random goes on with the Gaussian
 number that its original would give

---
 library/Java/Util/Random/Random.cpp | 5 +++++
 library/Java/Util/Random/Random.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index b0f856b..38f3ab5 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -114,7 +114,12 @@ void Random::resetSeed(long seedVal) {
  * @param other
  */
 Random::Random(const Random &other) {
+	std::lock_guard<std::mutex> guard(other.gaussianMutex);
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	if (this->haveNextGaussianNumber) {
+		this->nextGaussianNumber = other.nextGaussianNumber;
+	}
 }
 
 /**
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 7ebf26f..2ebdc8a 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -47,7 +47,7 @@ namespace Java {
 						boolean haveNextGaussianNumber = false;
 						double nextGaussianNumber;
 						// Guards the saved Gaussian number
-						std::mutex gaussianMutex;
+						mutable std::mutex gaussianMutex;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From dc619efde597cb78eea933f8c82f6ec0d51ed69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 58/58] fix: StringBuilder::lastIndexOf read past its text when
 told to start beyond it or when the text has a NUL

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 0ee2adb..59e0f68 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -752,6 +752,10 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
+	if (startIndex > lengthOfTarget) {
+		startIndex = lengthOfTarget;
+	}
+	
 	int rightIndex = lengthOfTarget - lengthOfPattern;
 	if (startIndex < rightIndex) {
 		startIndex = rightIndex;
-- 
2.43.0

