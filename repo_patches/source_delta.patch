From dd1cbc89b4691129def8325b7a722cb4266d48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 01/16] fix: make the LRU cache usable: lifetime as a duration,
 hits return the entry, update, priority and eviction

---
 include/xitren/cache/lru.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..8adc625 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -16,6 +16,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <mutex>
 #include <optional>
 #include <string>
+#include <tuple>
 #include <unordered_map>
 
 namespace xitren::cache {
@@ -23,13 +24,14 @@ namespace xitren::cache {
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
     using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using duration           = std::chrono::system_clock::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
     using hash_map           = std::unordered_map<Key, data_item>;
     using return_type        = std::optional<data_item>;
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
@@ -38,10 +40,9 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
-            auto it     = std::find_if(list_.begin(), list_.end(), is_key);
+            auto it = find(key);
             if (it != list_.end()) {
-                auto obj = *it;
+                auto obj = data_item{key, value, get_time()};
                 list_.erase(it);
                 list_.push_front(obj);
                 map_[key] = obj;
@@ -52,6 +53,7 @@ public:
             }
         } else {
             if (list_.size() >= Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
             auto obj = data_item{key, value, get_time()};
@@ -67,13 +69,15 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+            auto const& time = std::get<2>(map_[key]);
+            if ((get_time() - time) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            list_.splice(list_.begin(), list_, find(key));
+            return list_.front();
         } else {
             return std::nullopt;
         }
@@ -86,13 +90,20 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
     std::mutex access_{};
 #endif
 
+    auto
+    find(Key const& key)
+    {
+        auto is_key = [&key](data_item const& item) { return std::get<0>(item) == key; };
+        return std::find_if(list_.begin(), list_.end(), is_key);
+    }
+
     inline timestamp
     get_time()
     {
-- 
2.43.0


From 3e80ac6632e3775cd85ba84ffa1eda78fde89035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 02/16] fix: keep mediator registration inside the module array

---
 include/xitren/comm/mediator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..9411c19 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        modules_cnt_++;
     }
 
     /**
@@ -293,8 +294,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = 0;
                 return;
             }
         }
-- 
2.43.0


From 1c74c2d00d6c06867d0674079332e69386979d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/16] fix: observable values notify the new value on ++ and
 --, and prefix -- returns it

---
 include/xitren/comm/values/observable.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From 502db9c83f5d4bd345d073f3b85d59a83ed6f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 04/16] fix: removing an observer from a dynamic observable
 value erases it

---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From 1ae52328f05d3d0da23873f86a1712045e985056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 05/16] fix: give the pipeline pool one queue per worker

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..55c9477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -46,7 +46,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                    tail;
         atomic_cnt_type                    head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From 96e3d5b5f6cdc91ae7216146f0debac5adbf17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/16] fix: pipeline stages hand over items through per-slot
 flags and wait when the buffer is full

---
 include/xitren/comm/pipeline_stage.hpp      | 32 ++++++++++++-----
 include/xitren/comm/pipeline_stage_pool.hpp | 38 +++++++++++++++------
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..38f29ad 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -37,8 +37,9 @@ class pipeline_stage {
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        atomic_cnt_type                    tail;
+        std::array<ready_type, BufferSize>        array;
+        std::array<std::atomic<bool>, BufferSize> ready;
+        atomic_cnt_type                           tail;
     };
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_type)>;
 
@@ -56,8 +57,10 @@ public:
     void
     push(Type const&& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i = queue_.tail++;
+        wait_for_place(i);
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -66,8 +69,10 @@ public:
     void
     push(Type const& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i = queue_.tail++;
+        wait_for_place(i);
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -100,6 +105,15 @@ private:
     function_type      func_{};
     statistics_type    stat_{};
 
+    void
+    wait_for_place(std::size_t const i)
+    {
+        using namespace std::chrono_literals;
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::sleep_for(0ms);
+        }
+    }
+
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
 #ifdef DEBUG
@@ -107,19 +121,21 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                if (!(queue_.ready[(tail_) % queue_.array.size()])) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
 #endif
                     continue;
                 }
-                auto const i = tail_++;
+                auto const i    = tail_.load();
+                auto const data = std::exchange(queue_.array[i % queue_.array.size()], std::nullopt);
+                queue_.ready[i % queue_.array.size()] = false;
+                tail_++;
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 55c9477..fd84b1d 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -41,10 +41,11 @@ class pipeline_stage_pool {
     using ready_type         = std::optional<Type>;
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        statistics_type                    stat;
-        atomic_cnt_type                    tail;
-        atomic_cnt_type                    head;
+        std::array<ready_type, BufferSize>        array;
+        std::array<std::atomic<bool>, BufferSize> ready;
+        statistics_type                           stat;
+        atomic_cnt_type                           tail;
+        atomic_cnt_type                           head;
     };
     using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
@@ -58,23 +59,25 @@ public:
 #ifdef DEBUG
             Log::debug() << "Started thread " << pool_thread_n << "... \n";
 #endif
-            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
+            auto& [array_l, ready_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    if (!(ready_l[(head_l) % array_l.size()])) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    auto const i    = head_l.load();
+                    auto const data = std::exchange(array_l[i % array_l.size()], std::nullopt);
+                    ready_l[i % array_l.size()] = false;
+                    head_l++;
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -112,8 +115,10 @@ public:
     push(Type const&& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i = pool_[min_id].tail++;
+        wait_for_place(pool_[min_id], i);
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -123,8 +128,10 @@ public:
     push(Type const& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i = pool_[min_id].tail++;
+        wait_for_place(pool_[min_id], i);
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -158,6 +165,15 @@ private:
     pool_type          pool_{};
     thread_type        pool_threads_{};
 
+    static void
+    wait_for_place(queue_type& queue, std::size_t const i)
+    {
+        using namespace std::chrono_literals;
+        while ((i - queue.head) >= queue.array.size()) {
+            std::this_thread::sleep_for(0ms);
+        }
+    }
+
     int
     min_thread()
     {
-- 
2.43.0


From 26e2d15568d12e6284882d1b97c17a0505d93f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/16] fix: start the interval event's thread after its
 settings and join it in stop

---
 include/xitren/func/interval_event.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..5f9333b 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -51,13 +53,8 @@ public:
                   }
                   std::this_thread::sleep_for(period_between_checks_);
               }
-              keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
-    {
-        thread_.detach();
-    }
+          }}
+    {}
 
     /**
      * Destroys the interval_event object.
@@ -72,7 +69,7 @@ public:
     {
         if (!stop_) {
             keep_running_.clear();
-            keep_running_.wait(false);
+            thread_.join();
             stop_ = true;
         }
     }
@@ -129,10 +126,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 7d19653e9e34afd204ca2af053f262461ad44d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/16] fix: let the interval event's settings be changed while
 its thread runs

---
 include/xitren/func/interval_event.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 5f9333b..3315acd 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,11 +47,11 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.load().count()) {
+                      last_time += period_.load();
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(period_between_checks_.load());
               }
           }}
     {}
@@ -86,19 +86,19 @@ public:
     /**
      * Returns the interval at which the function is called, in milliseconds.
      */
-    auto&
+    time_type
     period() const noexcept
     {
-        return period_;
+        return period_.load();
     }
 
     /**
      * Returns the interval between checks for whether the function should be called, in milliseconds.
      */
-    auto&
+    time_type
     period_between_checks() const noexcept
     {
-        return period_between_checks_;
+        return period_between_checks_.load();
     }
 
     /**
@@ -126,8 +126,8 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    time_type                 period_{};
-    time_type                 period_between_checks_{};
+    std::atomic<time_type>    period_{};
+    std::atomic<time_type>    period_between_checks_{};
     bool                      stop_{false};
     std::thread               thread_;
 };
-- 
2.43.0


From a1cb55be0d477789d3381d97bde046bca89bf2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 09/16] fix: string options take their argument verbatim

---
 include/xitren/func/argv_parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..e2a40d9 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -73,6 +73,10 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
+                            if constexpr (std::is_same_v<std::decay_t<decltype(arg)>, std::string Opts::*>) {
+                                this->*arg = argv[idx + 1];
+                                return;
+                            }
                             std::stringstream value;
                             value << argv[idx + 1];
                             value >> this->*arg;
-- 
2.43.0


From 475d6ee4f25d3e99a8cd8981b70f37c6967f5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 10/16] fix: heap allocators compare by heap and reject sizes
 that overflow

---
 include/xitren/allocators/static_heap_allocator.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..78e21f8 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -13,6 +13,8 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <functional>
+#include <limits>
+#include <new>
 
 namespace xitren::allocators {
 
@@ -42,6 +44,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > std::numeric_limits<size_t>::max() / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
@@ -57,14 +62,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From df6262d9c8075934f36faa82e1d91dd279dc64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 11/16] fix: heap statistics use the existing pointer
 protection helper

---
 include/xitren/allocators/static_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..33877bd 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -489,7 +489,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +509,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From 893af37f4c037b20f0ac67cb70d995e7a9b993a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 12/16] fix: detect the CPU's byte order instead of always
 answering little endian

---
 include/xitren/func/data.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index eab868b..f79cb17 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -7,18 +7,19 @@ __ _(_) |_ _ _ ___ _ _
 */
 #pragma once
 
+#include <algorithm>
 #include <array>
+#include <bit>
 #include <concepts>
 #include <cstdint>
+#include <iterator>
+#include <utility>
 
 namespace xitren::func {
 
 /// Returns true if the current CPU is little endian, false otherwise.
 ///
-/// This function uses a compile-time constant expression to determine if the current CPU is little endian. It does so
-/// by creating a 16-bit integer value with the least and most significant bytes swapped, and then checking if the least
-/// significant byte is equal to 0x22. If the check passes, the current CPU is little endian, and the function returns
-/// true. Otherwise, it is big endian, and the function returns false.
+/// This function uses a compile-time constant expression to determine if the current CPU is little endian.
 ///
 /// This function can be used to optimize code for different endianness architectures, by allowing the compiler to make
 /// decisions at compile time based on the endianness of the CPU. This can lead to improved performance and reduced code
@@ -28,10 +29,7 @@ namespace xitren::func {
 static constexpr bool
 is_lsb()
 {
-    std::uint16_t               test{0x3322};
-    std::array<std::uint8_t, 2> arr{};
-    std::copy(&test, (&test) + 1, arr.begin());
-    return arr[0] == 0x22;
+    return std::endian::native == std::endian::little;
 }
 
 template <class Type>
-- 
2.43.0


From 15ed330256cac7187102c0fba7036aa40366de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/16] fix: compare constant LSB and MSB values

---
 include/xitren/func/data.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index f79cb17..296f433 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -229,7 +229,7 @@ public:
      * @return True if the two lsb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(lsb_t const& other)
+    operator==(lsb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -241,7 +241,7 @@ public:
      * @return True if the value of this lsb_t is less than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<(lsb_t const& other)
+    operator<(lsb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -253,7 +253,7 @@ public:
      * @return True if the value of this lsb_t is greater than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator>(lsb_t const& other)
+    operator>(lsb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -265,7 +265,7 @@ public:
      * @return True if the value of this lsb_t is less than or equal to the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<=(lsb_t const& other)
+    operator<=(lsb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -278,7 +278,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(lsb_t const& other)
+    operator>=(lsb_t const& other) const
     {
         return this->get() >= other.get();
     }
@@ -382,7 +382,7 @@ public:
      * @return True if the two msb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(msb_t const& other)
+    operator==(msb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -394,7 +394,7 @@ public:
      * @return True if the value of this msb_t is less than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<(msb_t const& other)
+    operator<(msb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -406,7 +406,7 @@ public:
      * @return True if the value of this msb_t is greater than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator>(msb_t const& other)
+    operator>(msb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -418,7 +418,7 @@ public:
      * @return True if the value of this msb_t is less than or equal to the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<=(msb_t const& other)
+    operator<=(msb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -431,7 +431,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(msb_t const& other)
+    operator>=(msb_t const& other) const
     {
         return this->get() >= other.get();
     }
-- 
2.43.0


From e142f175ddb0f52091650a1c439e73d1c1d9c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 14/16] fix: packet accessors and array deserialization compile
 and check the checksum

---
 include/xitren/func/packet.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..12ca04d 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -12,6 +12,7 @@ __ _(_) |_ _ _ ___ _ _
 
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -61,13 +62,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +80,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
@@ -115,10 +116,10 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size >= length);
+        auto const packed   = data<struct_type>::deserialize(array.begin());
+        auto const calc_crc = Crc::calculate(array.begin(), array.begin() + sizeof(struct_nocrc_type));
+        return {packed.crc == calc_crc, Header{packed.header}, Fields{packed.fields}};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From 12c09ec2c23e420bb646aeedf2d235a0f555d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 15/16] fix: packet accessor rejects sizes outside its storage

---
 include/xitren/func/packet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 12ca04d..17e26ac 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -200,7 +200,7 @@ public:
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
         size_type const variable_part = (size_ - length) / sizeof(Type);
-        if (((size_ - length) % sizeof(Type))) {
+        if ((size_ < length) || (size_ > Max) || ((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
         }
         auto header_conv = data<Header>::deserialize(storage_.begin());
@@ -220,7 +220,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > ((Max - length) / sizeof(Type))) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From f01c96fa3b1ba3f8e10ebafc607d355f7c3ead93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 16/16] fix: fast_pimpl judges exceptions of the constructor it
 calls, not of a braced one

---
 include/xitren/func/fast_pimpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..a09b280 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,7 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
-    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
+    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type(std::declval<Args>()...)))
     {
         new (get()) type(std::forward<Args>(args)...);
     }
@@ -60,14 +60,14 @@ public:
      *
      * @param rhs The fast_pimpl instance to be moved.
      */
-    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}
+    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type(std::declval<type>()))) : fast_pimpl{std::move(*rhs)} {}
 
     /**
      * @brief Copy-constructs a fast_pimpl instance that manages an object of type T.
      *
      * @param rhs The fast_pimpl instance to be copied.
      */
-    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type{std::declval<const_reference>()})) : fast_pimpl{*rhs} {}
+    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type(std::declval<const_reference>()))) : fast_pimpl{*rhs} {}
 
     /**
      * @brief Destroys the fast_pimpl instance and the object it manages.
-- 
2.43.0

