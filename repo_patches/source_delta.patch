From 47ef06ed520e2fc9aa5224fc5a5187d648e2ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 01/37] fix: unsafe::reverse_append linked `end` to itself, so
 forest::reverse lost the nodes

---
 include/stlab/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8b68749 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -32,7 +32,7 @@ namespace unsafe {
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
         stlab::unsafe::set_next(prior, end);
         end = prior;
-- 
2.43.0


From 72dcc8e733f65f0c42fd788f67d432b35869922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 02/37] fix: equal_shape accepted a proper prefix when a size
 was not cached

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From cfffb5b3db393b4297213b7290533ae9a97ebc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 03/37] fix: forest copy constructor leaked its nodes when
 copying an element threw

---
 include/stlab/forest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..37e7700 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -795,7 +795,7 @@ public:
     forest() = default;
     ~forest() { clear(); }
 
-    forest(const forest& x) {
+    forest(const forest& x) : forest() {
         insert(end(), const_child_iterator(x.begin()), const_child_iterator(x.end()));
     }
     forest(forest&& x) noexcept : forest() { splice(end(), x); }
-- 
2.43.0


From 9defb956359f71c9e007c8240f79d45d1a5b8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 04/37] fix: blocking_get_for did not return its result

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From fa6484f6d9658b97aaad5e0aab08cc2e8e8afeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 05/37] fix: a delayed executor could only be used once

---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From d338ea43feef2d5e3e79d52cf3e1394b53396a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 06/37] fix: when_any moved an rvalue executor into the first
 of several continuations

---
 include/stlab/concurrency/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..b42ddf1 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1233,7 +1233,7 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
 template <class E, class P, class... Ts, std::size_t... I>
 void attach_when_args_(std::index_sequence<I...>, E&& executor, std::shared_ptr<P>& p, Ts... a) {
     (void)std::initializer_list<int>{
-        (attach_when_arg_<I>(std::forward<E>(executor), p, std::move(a)), 0)...};
+        (attach_when_arg_<I>(executor, p, std::move(a)), 0)...};
 }
 
 template <class E, class P, class... Ts>
-- 
2.43.0


From 9cc04f7a9f3e3697c08c022106f28540e5592727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 07/37] fix: overwriting a packaged_task left its future
 pending forever

---
 include/stlab/concurrency/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index b42ddf1..dd4d0f1 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -665,7 +665,11 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        packaged_task tmp{std::move(x)};
+        std::swap(_p, tmp._p); // an overwritten task breaks its promise
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 02db84978119eab4544921748878dc0fb1e326d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 08/37] fix: when_all and when_any released the other futures
 while holding their lock

---
 include/stlab/concurrency/future.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index dd4d0f1..74f5d75 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1091,10 +1091,10 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            decltype(_holds) holds; // released outside of the lock
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                std::swap(holds, _holds);
                 _exception = error;
                 run = true;
             }
@@ -1429,10 +1429,12 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            // released outside of the lock
+            std::vector<future<void>> holds(context._holds.size());
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) std::swap(holds[i], context._holds[i]);
                 }
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
-- 
2.43.0


From 3568374ce05d066f18d464e414d9c01b42da97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 09/37] fix: when_any of future<void> ran its continuation
 while holding its lock

---
 include/stlab/concurrency/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 74f5d75..43d798e 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1160,8 +1160,8 @@ struct when_any_shared<S, void> {
 
     void failure(const std::exception_ptr& error) {
         auto run{false};
-        std::unique_lock<std::mutex> lock{_guard};
         {
+            std::unique_lock<std::mutex> lock{_guard};
             if (--_remaining == 0) {
                 _exception = error;
                 run = true;
-- 
2.43.0


From 25d839e68c9497e421cc18e12a754941130169f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 10/37] fix: pre_exit did not join a pool thread added while it
 was draining

---
 include/stlab/concurrency/default_executor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..f4fa2eb 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -384,8 +384,16 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
+        // a running task can add a thread (see `await`) until the last thread is done
+        for (std::size_t n = 0;; ++n) {
+            std::thread thread;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                std::swap(thread, _threads[n]);
+            }
+            thread.join();
+        }
 
         _q.clear();
     }
-- 
2.43.0


From f15ebe54d880baeea903f2f4b4e1d27c19943731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 11/37] fix: the second annotation of a process was dropped

---
 include/stlab/concurrency/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..ea4ccaf 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From 78e87c2836ab87d755134251e71a7c611917d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 12/37] fix: overwriting a sender or receiver did not release
 it

---
 include/stlab/concurrency/channel.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ea4ccaf..d2e15f4 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1487,7 +1487,12 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver tmp{std::move(x)};
+        std::swap(_p, tmp._p); // an overwritten receiver is released
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
@@ -1585,7 +1590,11 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp{std::move(x)};
+        std::swap(_p, tmp._p); // an overwritten sender is released
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1643,7 +1652,11 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp{std::move(x)};
+        std::swap(_p, tmp._p); // an overwritten sender is released
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From d940339966a0ff374cfa8046618b3004541525db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 13/37] fix: copying a receiver that is ready stalled its
 process

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index d2e15f4..ab9183a 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1476,7 +1476,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
-- 
2.43.0


From 35e274d3e3769bb83d542703b3476fe30bdea0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 14/37] fix: set_error was not called on a process held by
 reference

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ab9183a..ba8b2c4 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -887,7 +887,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-- 
2.43.0


From 54e711172eab65f086662f7ac7242395d7c953cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 15/37] fix: a process waited for a consumer that does not
 exist

---
 include/stlab/concurrency/channel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ba8b2c4..1c84424 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -678,7 +678,7 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         return std::accumulate(_data.cbegin(), _data.cend(),
                                std::numeric_limits<std::size_t>::max(),
                                [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
+                                   return std::min(val, e.free_buffer().value_or(val));
                                });
     }
 };
@@ -695,7 +695,7 @@ struct downstream<R,
 
     void clear() { _data = std::nullopt; }
 
-    [[nodiscard]] auto size() const -> std::size_t { return 1; }
+    [[nodiscard]] auto size() const -> std::size_t { return _data ? 1 : 0; }
 
     template <typename... Args>
     void send(std::size_t, Args&&... args) {
@@ -703,8 +703,8 @@ struct downstream<R,
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+        if (!_data) return 0;
+        return _data->free_buffer().value_or(std::numeric_limits<std::size_t>::max());
     }
 };
 
-- 
2.43.0


From 5480e7af0e2fa751b615898fa86349195267382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 16/37] fix: close() of a process was called whenever its queue
 drained

close() signals that no more data is coming; it must only be called when
the last sender is gone and the queue is empty.
---
 include/stlab/concurrency/channel.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 1c84424..47e4e6f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -893,8 +893,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From f298f07273d2c7c5042e91f8e9f538c243f78c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 17/37] fix: a process could run concurrently with itself

A consumer that took a value resumed its upstream process even if that
process was already scheduled or running, and a timer of a timed await
called yield() although it had been cancelled. Only the holder of the
turn runs the process now; after a value is sent it is given up until
there is room downstream.
---
 include/stlab/concurrency/channel.hpp | 270 +++++++++++++-------------
 1 file changed, 138 insertions(+), 132 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 47e4e6f..3ab4b7f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -583,6 +583,18 @@ struct unordered_queue_strategy {
 
 /**************************************************************************************************/
 
+/*
+    Who may run a process. There is only one turn; a process is never run by two threads at once.
+*/
+enum class process_turn : std::uint8_t {
+    none,        // there is nothing to do
+    scheduled,   // the next task on the executor takes the turn
+    running,     // the process is executing, or broadcasting its result
+    suspended,   // a value was sent and there might be no room for another one downstream
+    timed_await, // the turn goes to whoever is first, a value or the timer
+    timed_yield  // the timer takes the turn
+};
+
 template <typename Q, typename T, typename R, typename... Args>
 struct shared_process;
 
@@ -602,8 +614,9 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             {
                 std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                 _shared_process._process_close_queue = true;
-                do_run = !_shared_process._receiver_count && !_shared_process._process_running;
-                _shared_process._process_running = _shared_process._process_running || do_run;
+                do_run = !_shared_process._receiver_count &&
+                         _shared_process._process_turn == process_turn::none;
+                if (do_run) _shared_process._process_turn = process_turn::scheduled;
             }
             if (do_run) _shared_process.run();
         }
@@ -616,10 +629,11 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
-            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
-                                                          _shared_process._timeout_function_active);
-
-            _shared_process._process_running = _shared_process._process_running || do_run;
+            // a value that arrives while the process awaits with a timeout cancels the timeout
+            do_run = !_shared_process._receiver_count &&
+                     (_shared_process._process_turn == process_turn::none ||
+                      _shared_process._process_turn == process_turn::timed_await);
+            if (do_run) _shared_process._process_turn = process_turn::scheduled;
         }
         if (do_run) _shared_process.run();
     }
@@ -630,10 +644,11 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t capacity = _shared_process._process_buffer_size;
+        if (capacity == 0) return std::numeric_limits<std::size_t>::max();
+        // nothing prevents a sender from sending more than fits into the buffer
+        const std::size_t size = _shared_process._queue.template queue_size<I>();
+        return size < capacity ? capacity - size : 0;
     }
 };
 
@@ -672,15 +687,7 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
-        // std::reduce with C++17
-        return std::accumulate(_data.cbegin(), _data.cend(),
-                               std::numeric_limits<std::size_t>::max(),
-                               [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer().value_or(val));
-                               });
-    }
+    [[nodiscard]] auto consumer(std::size_t i) const { return _data[i]._p.lock(); }
 };
 
 template <typename R>
@@ -702,10 +709,7 @@ struct downstream<R,
         if (_data) (*_data)(std::forward<Args>(args)...);
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (!_data) return 0;
-        return _data->free_buffer().value_or(std::numeric_limits<std::size_t>::max());
-    }
+    [[nodiscard]] auto consumer(std::size_t) const { return _data->_p.lock(); }
 };
 
 /**************************************************************************************************/
@@ -740,15 +744,13 @@ struct shared_process
 
     std::mutex _process_mutex;
 
-    bool _process_running = false;
-    std::atomic_size_t _process_suspend_count{0};
+    process_turn _process_turn = process_turn::none;
+    std::size_t _process_runs = 0;     // tasks with the executor
+    std::size_t _process_timer_id = 0; // identifies the most recent timed await or yield
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
-
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
 
@@ -794,8 +796,8 @@ struct shared_process
                 std::unique_lock<std::mutex> lock(_process_mutex);
                 do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                           _process_close_queue) &&
-                         !_process_running;
-                _process_running = _process_running || do_run;
+                         _process_turn == process_turn::none;
+                if (do_run) _process_turn = process_turn::scheduled;
             }
             if (do_run) run();
         }
@@ -809,7 +811,7 @@ struct shared_process
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
             do_run = !_queue.empty() || _process_close_queue;
-            _process_running = do_run;
+            _process_turn = do_run ? process_turn::scheduled : process_turn::none;
             do_final = _process_final;
         }
         // The mutual exclusiveness of this assert implies too many variables. Should have a single
@@ -824,28 +826,55 @@ struct shared_process
         }
     }
 
+    /*
+        True if every consumer has room for another value. A consumer that is gone never has to be
+        waited for.
+
+        The reference to the consumer may be the last one, it is not released under a lock.
+    */
+    [[nodiscard]] auto has_room_downstream() -> bool {
+        for (std::size_t i = 0;; ++i) {
+            std::shared_ptr<shared_process_sender<result_t>> consumer;
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                if (i == _downstream.size()) return true;
+                consumer = _downstream.consumer(i);
+            }
+            if (consumer && consumer->free_buffer() == 0) return false;
+        }
+    }
+
+    /*
+        Called after a value is sent and by the consumers whenever one of them has taken a value.
+        A process which is already scheduled gets one additional task on the executor, so it can
+        refill the buffers of its consumers.
+    */
     void clear_to_send() override {
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
+            if (_process_turn == process_turn::scheduled && _process_runs == 1) {
+                lock.unlock();
+                run();
                 return;
             }
+            if (_process_turn != process_turn::suspended) return;
         }
 
-        bool do_run = false;
+        if (!has_room_downstream()) return;
+
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            if (_process_turn != process_turn::suspended) return;
+            _process_turn = process_turn::running;
+        }
+
+        bool do_run;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            do_run = !_process_final &&
+                     (ps.first == process_state::yield || !_queue.empty() || _process_close_queue);
+            _process_turn = do_run ? process_turn::scheduled : process_turn::none;
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
@@ -908,15 +937,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -938,12 +958,7 @@ struct shared_process
                     std::chrono::nanoseconds::min())
                     broadcast(unwrap(*_process).yield());
                 else
-                    execute_at(duration, _executor)(
-                        [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                            auto _this = _weak_this.lock();
-                            if (!_this) return;
-                            _this->try_broadcast();
-                        });
+                    yield_after(duration, process_turn::timed_yield);
             }
 
             /*
@@ -960,27 +975,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                yield_after(duration, process_turn::timed_await);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -990,15 +985,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1022,12 +1008,7 @@ struct shared_process
                     std::chrono::nanoseconds::min())
                     broadcast(unwrap(*_process).yield());
                 else
-                    execute_at(duration, _executor)(
-                        [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                            auto _this = _weak_this.lock();
-                            if (!_this) return;
-                            _this->try_broadcast();
-                        });
+                    yield_after(duration, process_turn::timed_yield);
             }
 
             /*
@@ -1044,33 +1025,47 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                yield_after(duration, process_turn::timed_await);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    /*
+        Gives up the turn until the timer expires. If there is something to await in the meantime
+        then there is no need to wait for the timer.
+    */
+    void yield_after(std::chrono::nanoseconds duration, process_turn turn) {
+        bool do_run;
+        std::size_t id;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            do_run = turn == process_turn::timed_await && !_queue.empty();
+            _process_turn = do_run ? process_turn::scheduled : turn;
+            id = ++_process_timer_id;
+        }
+
+        if (do_run) {
+            run();
+            return;
+        }
+
+        execute_at(duration, _executor)(
+            [_weak_this = make_weak_ptr(this->shared_from_this()), turn, id]() noexcept {
+                auto _this = _weak_this.lock();
+                // It may be that the complete channel is gone in the meanwhile
+                if (!_this) return;
+                {
+                    std::unique_lock<std::mutex> lock(_this->_process_mutex);
+                    // we were cancelled
+                    if (_this->_process_turn != turn || _this->_process_timer_id != id) return;
+                    _this->_process_turn = process_turn::running;
+                }
+                _this->try_broadcast();
+            });
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
@@ -1119,9 +1114,20 @@ struct shared_process
     }
 
     void run() {
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            ++_process_runs;
+        }
         _executor([_p = make_weak_ptr(this->shared_from_this())]() noexcept {
             auto p = _p.lock();
-            if (p) p->template step<T>();
+            if (!p) return;
+            {
+                std::unique_lock<std::mutex> lock(p->_process_mutex);
+                --p->_process_runs;
+                if (p->_process_turn != process_turn::scheduled) return;
+                p->_process_turn = process_turn::running;
+            }
+            p->template step<T>();
         });
     }
 
@@ -1132,23 +1138,9 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
-        }
-
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
         }
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
@@ -1157,8 +1149,16 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        /*
+            The process is suspended until there is room downstream. It is not suspended before all
+            values are sent, so the consumers cannot resume it while it is still broadcasting.
+        */
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_turn = process_turn::suspended;
+        }
+
+        clear_to_send(); // resume right away if there is room
     }
 
     void map(sender<result_t> f) override {
@@ -1564,6 +1564,9 @@ class sender<T, enable_if_copyable<T>> {
     template <typename U, typename V>
     friend struct detail::channel_;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     friend struct detail::channel_combiner;
 
     sender(ptr_t p) : _p(std::move(p)) {}
@@ -1635,6 +1638,9 @@ class sender<T, enable_if_not_copyable<T>> {
     template <typename U, typename V>
     friend struct detail::channel_;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     friend struct detail::channel_combiner;
 
     sender(ptr_t p) : _p(std::move(p)) {}
-- 
2.43.0


From 4e645287c7d0a51373a3cf86dc250450577d0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 18/37] fix: the close was lost if a process yielded in
 response to it

A process which switches to yield in close() was neither yielding more
than once nor closing its consumers.
---
 include/stlab/concurrency/channel.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 3ab4b7f..da1129a 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -872,8 +872,8 @@ struct shared_process
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            do_run = !_process_final &&
-                     (ps.first == process_state::yield || !_queue.empty() || _process_close_queue);
+            do_run = ps.first == process_state::yield || !_queue.empty() ||
+                     _process_close_queue || _process_final;
             _process_turn = do_run ? process_turn::scheduled : process_turn::none;
         }
         // Somebody told me that his name was Bill
@@ -888,7 +888,7 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            _process_final = do_close; // unravel after any yield
+            _process_final = _process_final || do_close; // unravel after any yield
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
@@ -964,12 +964,13 @@ struct shared_process
             /*
                 We are in an await state and the queue is empty.
 
-                If we await forever then task_done() leaving us in an await state.
+                If we await forever, or there is nothing left to await, then task_done() leaving us
+                in an await state.
                 else if we await with an expired timeout then go ahead and yield now.
                 else schedule a timeout when we will yield if not canceled by intervening await.
             */
-            else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
-                     std::chrono::nanoseconds::max()) {
+            else if (_process_final || std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                           duration) == std::chrono::nanoseconds::max()) {
                 task_done();
             } else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) <=
                        std::chrono::nanoseconds::min()) {
@@ -1014,12 +1015,13 @@ struct shared_process
             /*
                 We are in an await state and the queue is empty.
 
-                If we await forever then task_done() leaving us in an await state.
+                If we await forever, or there is nothing left to await, then task_done() leaving us
+                in an await state.
                 else if we await with an expired timeout then go ahead and yield now.
                 else schedule a timeout when we will yield if not canceled by intervening await.
             */
-            else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
-                     std::chrono::nanoseconds::max()) {
+            else if (_process_final || std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                           duration) == std::chrono::nanoseconds::max()) {
                 task_done();
             } else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) <=
                        std::chrono::nanoseconds::min()) {
-- 
2.43.0


From 4118ad02a42e4b8766c5601037f51df8fe00ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 19/37] fix: dropping a consumer with a full buffer stalled its
 siblings

---
 include/stlab/concurrency/channel.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index da1129a..6108809 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -777,6 +777,13 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() {
+        // the upstream might be waiting for room in a buffer that is now gone
+        tuple_for_each(_upstream, [](const auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
-- 
2.43.0


From 98ba2c6665231cc780e9466bfba31b6034dc544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 20/37] fix: an error stalled a function process forever

A function process that receives an error is closed and so are its
consumers; it used to keep the turn and everything sent later was queued
without ever being executed.
---
 include/stlab/concurrency/channel.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 6108809..731ae5e 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -826,11 +826,13 @@ struct shared_process
         assert(!(do_run && do_final) && "ERROR (sparent) : can't run and close at the same time.");
         // I met him on a Monday and my heart stood still
         if (do_run) run();
-        if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
-            _process = std::nullopt;
-        }
+        if (do_final) close_downstream();
+    }
+
+    void close_downstream() {
+        std::unique_lock<std::mutex> lock(_downstream_mutex);
+        _downstream.clear(); // This will propagate the close to anything downstream
+        _process = std::nullopt;
     }
 
     /*
@@ -1095,9 +1097,7 @@ struct shared_process
         using queue_t = typename Q::value_type;
         std::optional<queue_t> message;
         std::array<bool, sizeof...(Args)> do_cts;
-        bool do_close = false;
-
-        std::tie(message, do_cts, do_close) = pop_from_queue();
+        std::tie(message, do_cts, std::ignore) = pop_from_queue();
 
         std::size_t i = 0;
         tuple_for_each(_upstream, [do_cts, &i](auto& u) {
@@ -1106,9 +1106,10 @@ struct shared_process
         });
 
         if (message) {
-            auto error = find_argument_error(*message);
-            if (error) {
-                do_close = true;
+            if (!_process || find_argument_error(*message)) {
+                // An error closes this process; anything that still arrives is discarded.
+                close_downstream();
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 7a72a28b2a4939c9bbe246786bf83be84c589d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 21/37] fix: moving the value out of a future raced with a
 released copy

---
 include/stlab/concurrency/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 43d798e..c651d58 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -219,7 +219,11 @@ struct result_of_when_any_t {
 
 template <class T>
 auto unique_usage(const std::shared_ptr<T>& p) -> bool {
-    return p.use_count() == 1;
+    if (p.use_count() != 1) return false;
+    // use_count() is a relaxed load. Order the reads of the holders that are gone before what the
+    // only holder left does with the value.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    return true;
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 32c2d15153b3b8866d2f4ee660e550225d3e20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 22/37] fix: a continuation undid detach() of a move-only
 future

---
 include/stlab/concurrency/future.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index c651d58..7434a35 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -468,6 +468,15 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
 
     explicit shared_base(executor_t s) : _executor(std::move(s)) {}
 
+    // requires _mutex is locked. A hold placed by detach() is kept until the future is ready
+    void attach(then_t then) {
+        if (_then.second) {
+            then.second = [_detached = std::move(_then.second),
+                           _task = std::move(then.second)]() mutable noexcept { _task(); };
+        }
+        _then = std::move(then);
+    }
+
     template <class F>
     auto recover(future<T>&& p, F&& f) {
         return recover(std::move(p), _executor, std::forward<F>(f));
@@ -491,7 +500,7 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
         {
             std::unique_lock<std::mutex> lock(_mutex);
             ready = _ready;
-            if (!ready) _then = {std::move(executor), std::move(pro)};
+            if (!ready) attach({std::move(executor), std::move(pro)});
         }
         if (ready) executor(std::move(pro)); // cannot reference this after here
 
@@ -508,7 +517,7 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
         {
             std::unique_lock<std::mutex> lock(_mutex);
             ready = _ready;
-            if (!ready) _then = {immediate_executor, std::move(pro)};
+            if (!ready) attach({immediate_executor, std::move(pro)});
         }
 
         if (ready) std::move(pro)(); // cannot reference this after here
-- 
2.43.0


From 4f53cd4ccc8d25086a55836170a616d92fcffaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 23/37] fix: pre_exit hung when a task awaited while the pool
 was draining

The worker threads left as soon as they were idle, and each further await added
a thread which left as well, until the thread limit was reached and nothing ran
the awaited task. The pool now drains before its threads are told to leave.
---
 .../stlab/concurrency/default_executor.hpp    | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index f4fa2eb..5df691e 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -291,11 +291,12 @@ public:
     }
 
     template <typename F>
-    bool try_push(F&& f, std::size_t priority) {
+    bool try_push(F&& f, std::size_t priority, std::atomic<std::size_t>& pending) {
         {
             lock_t lock{_mutex, std::try_to_lock};
             if (!lock) return false;
             _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
+            ++pending;
             std::push_heap(begin(_q), end(_q), element_t::greater());
         }
         _ready.notify_one();
@@ -303,10 +304,11 @@ public:
     }
 
     template <typename F>
-    void push(F&& f, std::size_t priority) {
+    void push(F&& f, std::size_t priority, std::atomic<std::size_t>& pending) {
         {
             lock_t lock{_mutex};
             _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
+            ++pending;
             std::push_heap(begin(_q), end(_q), element_t::greater());
         }
         _ready.notify_one();
@@ -337,12 +339,24 @@ class priority_task_system {
 
     std::vector<notification_queue> _q{_count};
     std::atomic<unsigned> _index{0};
+    std::atomic<std::size_t> _pending{0}; // tasks which are not yet finished
 
     std::mutex _mutex;
     using lock_t = std::unique_lock<std::mutex>;
+    std::condition_variable _finished;
     std::vector<std::thread> _threads;
     std::vector<waiter> _waiters{_thread_limit - _count};
 
+    // Invoke and destroy the task, either can execute further tasks.
+    void invoke(task<void() noexcept>& f) {
+        f();
+        f = nullptr;
+        if (--_pending == 0) {
+            lock_t lock{_mutex};
+            _finished.notify_all();
+        }
+    }
+
     void run(unsigned i) {
         stlab::set_current_thread_name("cc.stlab.default_executor");
         while (true) {
@@ -356,7 +370,7 @@ class priority_task_system {
                 std::tie(done, f) = _q[i].pop();
                 if (done) break;
             }
-            if (f) f(); // we can wake with no task.
+            if (f) invoke(f); // we can wake with no task.
         }
     }
 
@@ -380,6 +394,11 @@ public:
     priority_task_system(std::nullptr_t) : priority_task_system() {}
 
     void join() {
+        // a task can wait for another one (see `await`) so the threads are needed until all are done
+        {
+            lock_t lock{_mutex};
+            _finished.wait(lock, [&] { return _pending == 0; });
+        }
         for (auto& e : _q)
             e.done();
         for (auto& e : _waiters)
@@ -408,10 +427,10 @@ public:
         auto i = _index++;
 
         for (unsigned n = 0; n != _count; ++n) {
-            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;
+            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P, _pending)) return;
         }
 
-        _q[i % _count].push(std::forward<F>(f), P);
+        _q[i % _count].push(std::forward<F>(f), P, _pending);
     }
 
     void add_thread() {
@@ -428,7 +447,7 @@ public:
                 }
 
                 if (f) {
-                    f(); // we can wake with no task.
+                    invoke(f); // we can wake with no task.
                     continue;
                 }
                 if (_waiters[i - _count].wait()) break;
-- 
2.43.0


From d121a87879f33dfbacce554c0d64a71c8097f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 24/37] fix: a task could wait forever for a worker that is
 blocked in await

A task executed from outside the pool can be queued to a worker that is blocked
in await (possibly on that very task) while all other workers sleep. Such a push
now wakes or adds a thread as await does, and a wakeup is remembered by a thread
that is just about to wait.
---
 include/stlab/concurrency/await.hpp           |  6 +-
 .../stlab/concurrency/default_executor.hpp    | 66 ++++++++++++++++---
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 7aba406..a7083b9 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -40,10 +40,10 @@ inline namespace STLAB_VERSION_NAMESPACE() {
 template <class F>
 auto invoke_waiting(F&& f) {
 #if STLAB_TASK_SYSTEM(PORTABLE)
-    if (!detail::pts().wake()) detail::pts().add_thread();
-#endif
-
+    return detail::pts().invoke_waiting(std::forward<F>(f));
+#else
     return std::forward<F>(f)();
+#endif
 }
 
 /**************************************************************************************************/
diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 5df691e..af43f64 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -185,6 +185,7 @@ class waiter {
     std::condition_variable _ready;
 
     bool _waiting{false};
+    bool _woken{false};
     bool _done{false};
 
 public:
@@ -196,11 +197,15 @@ public:
         _ready.notify_one();
     }
 
-    // If wait() is waiting, wake and return true, otherwise return false
+    // If wait() is waiting, wake and return true, otherwise the next wait() will not wait and
+    // return false
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            lock_t lock{_mutex};
+            if (!_waiting) {
+                _woken = true;
+                return false;
+            }
             _waiting = false;
         }
         _ready.notify_one();
@@ -210,10 +215,11 @@ public:
     // Will wait until `wake()` or `done()` returns true if done
     bool wait() {
         lock_t lock{_mutex};
-        _waiting = true;
+        _waiting = !_woken;
         while (_waiting && !_done)
             _ready.wait(lock);
         _waiting = false;
+        _woken = false;
         return _done;
     }
 };
@@ -240,6 +246,7 @@ class notification_queue {
     std::size_t _count{0};
     bool _done{false};
     bool _waiting{false};
+    bool _woken{false};
 
     static constexpr std::size_t merge_priority_count(std::size_t priority, std::size_t count) {
         assert((priority < 4) && "Priority must be in the range [0, 4).");
@@ -261,11 +268,15 @@ public:
         return pop_not_empty();
     }
 
-    // If waiting in `pop()`, wakes and returns true. Otherwise returns false.
+    // If waiting in `pop()`, wakes and returns true. Otherwise the next `pop()` will not wait and
+    // returns false.
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            lock_t lock{_mutex};
+            if (!_waiting) {
+                _woken = true;
+                return false;
+            }
             _waiting = false; // triggers wake
         }
         _ready.notify_one();
@@ -274,10 +285,11 @@ public:
 
     auto pop() -> std::pair<bool, task<void() noexcept>> {
         lock_t lock{_mutex};
-        _waiting = true;
+        _waiting = !_woken;
         while (_q.empty() && !_done && _waiting)
             _ready.wait(lock);
         _waiting = false;
+        _woken = false;
         if (_q.empty()) return {_done, nullptr};
         return {false, pop_not_empty()};
     }
@@ -340,6 +352,7 @@ class priority_task_system {
     std::vector<notification_queue> _q{_count};
     std::atomic<unsigned> _index{0};
     std::atomic<std::size_t> _pending{0}; // tasks which are not yet finished
+    std::atomic<std::size_t> _blocked{0}; // threads of the pool in `invoke_waiting`
 
     std::mutex _mutex;
     using lock_t = std::unique_lock<std::mutex>;
@@ -347,6 +360,17 @@ class priority_task_system {
     std::vector<std::thread> _threads;
     std::vector<waiter> _waiters{_thread_limit - _count};
 
+    // True on the threads of the pool. They look for tasks in all queues after the current task.
+    static bool& in_pool() {
+        thread_local bool result{false};
+        return result;
+    }
+
+    // The owner of the queue might be blocked and the other threads asleep
+    void executed() {
+        if (!in_pool() && _blocked != 0 && !wake()) add_thread();
+    }
+
     // Invoke and destroy the task, either can execute further tasks.
     void invoke(task<void() noexcept>& f) {
         f();
@@ -359,6 +383,7 @@ class priority_task_system {
 
     void run(unsigned i) {
         stlab::set_current_thread_name("cc.stlab.default_executor");
+        in_pool() = true;
         while (true) {
             task<void() noexcept> f;
 
@@ -427,10 +452,14 @@ public:
         auto i = _index++;
 
         for (unsigned n = 0; n != _count; ++n) {
-            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P, _pending)) return;
+            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P, _pending)) {
+                executed();
+                return;
+            }
         }
 
         _q[i % _count].push(std::forward<F>(f), P, _pending);
+        executed();
     }
 
     void add_thread() {
@@ -438,6 +467,7 @@ public:
         if (_threads.size() == _thread_limit) return; // log with cerr
         _threads.emplace_back([&, i = _threads.size()] {
             stlab::set_current_thread_name("cc.stlab.default_executor.expansion");
+            in_pool() = true;
 
             while (true) {
                 task<void() noexcept> f;
@@ -465,6 +495,24 @@ public:
         }
         return false;
     }
+
+    // Wakes or adds a thread and invokes `f` which is assumed to block.
+    template <class F>
+    auto invoke_waiting(F&& f) {
+        struct guard {
+            std::atomic<std::size_t>* _blocked;
+            explicit guard(std::atomic<std::size_t>* blocked) : _blocked{blocked} {
+                if (_blocked) ++*_blocked;
+            }
+            guard(const guard&) = delete;
+            ~guard() {
+                if (_blocked) --*_blocked;
+            }
+        } blocked{in_pool() ? &_blocked : nullptr};
+
+        if (!wake()) add_thread();
+        return std::forward<F>(f)();
+    }
 };
 
 /// Returns an instance of the task system singleton. An immediately executed lambda is used
-- 
2.43.0


From 090948e5cfad02e9a22a8101d34775c5cf25c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 25/37] fix: assigning a tracked function did not drop the task
 it replaced

---
 include/stlab/concurrency/progress.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..14de4bd 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -12,6 +12,7 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <utility>
 
 namespace stlab {
 namespace detail {
@@ -52,15 +53,16 @@ struct tracker_client {
     }
 
     tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
-        auto p = _p.lock();
-        if (p) p->add_task();
-        return *this;
+        return *this = tracker_client(x);
     }
 
     tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        _f = std::move(x._f);
+        auto replaced = std::exchange(_p, std::move(x._p)).lock();
+        if (replaced) replaced->drop_task();
+        return *this;
+    }
 
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
-- 
2.43.0


From 0bc854b8598bbd1419292e36bb5c489c081e9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 26/37] fix: the call operator of a task returned a copy of a
 reference

---
 include/stlab/concurrency/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..2410554 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -262,7 +262,7 @@ public:
     }
 
     template <class... Brgs>
-    auto operator()(Brgs&&... brgs) noexcept(NoExcept) {
+    auto operator()(Brgs&&... brgs) noexcept(NoExcept) -> R {
         return _invoke(&_model, std::forward<Brgs>(brgs)...);
     }
 
-- 
2.43.0


From 774cca359fda7864394c85332d27582c21e65666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 27/37] fix: forest::reverse lost nodes if siblings follow the
 range

---
 include/stlab/algorithm/reverse.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index 8b68749..06271d5 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -31,13 +31,20 @@ namespace unsafe {
 
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
+    if (first == last) return end;
+
+    I back(first);
+    I result(first);
+    ++first;
     while (first != last) {
         I prior(first);
         ++first;
-        stlab::unsafe::set_next(prior, end);
-        end = prior;
+        stlab::unsafe::set_next(prior, result);
+        result = prior;
     }
-    return end;
+    // `end` may be `last`, it must not be relinked while the range is traversed
+    stlab::unsafe::set_next(back, end);
+    return result;
 }
 
 /// Reverses `range` and appends `end`.  Returns the beginning of the reversed range such that
-- 
2.43.0


From 3da449b174e19c2ac4c062dc5e524cd3c8887cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 28/37] fix: the edge of a reverse fullorder iterator was
 ignored by base() and ==

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 37e7700..0448957 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -361,7 +361,11 @@ struct reverse_fullorder_iterator {
     reverse_fullorder_iterator(const reverse_fullorder_iterator<U>& x) :
         _base(--x.base()), _edge(pivot(_base.edge())) {}
 
-    [[nodiscard]] auto base() const -> iterator_type { return std::next(_base); }
+    [[nodiscard]] auto base() const -> iterator_type {
+        iterator_type result(_base);
+        result.edge() = pivot(_edge); // `_edge` could have been set
+        return std::next(result);
+    }
 
     [[nodiscard]] auto edge() const -> forest_edge { return _edge; }
     auto edge() -> forest_edge& { return _edge; }
@@ -417,7 +421,7 @@ private:
     [[nodiscard]] auto dereference() const -> reference { return *_base; }
 
     [[nodiscard]] auto equal(const reverse_fullorder_iterator& y) const -> bool {
-        return (_base == y._base) && (_edge == y._edge);
+        return _base.equal_node(y._base) && (_edge == y._edge);
     }
 };
 
-- 
2.43.0


From 5f3fde630673c15b318afc61390e72901fcb6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 29/37] fix: decrementing the end of a filtered fullorder range
 visited excluded elements

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 0448957..8e072a9 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -243,6 +243,10 @@ struct filter_fullorder_iterator {
     filter_fullorder_iterator(I f, I l, P p) :
         _x(skip_forward(f, l, p)), _inside(true), _first(f), _last(l), _predicate(p) {}
 
+    // At position x of [f, l)
+    filter_fullorder_iterator(I x, I f, I l, P p) :
+        _x(skip_forward(x, l, p)), _inside(true), _first(f), _last(l), _predicate(p) {}
+
     filter_fullorder_iterator(I f, I l) :
         _x(skip_forward(f, l, P())), _inside(true), _first(f), _last(l) {}
 
@@ -1174,7 +1178,7 @@ auto filter_fullorder_range(R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 template <class R, typename P> // R models FullorderRange
@@ -1182,7 +1186,7 @@ auto filter_fullorder_range(const R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::const_iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 78f2112793b8e8c2b720bd5879ecb09974f20527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 30/37] fix: a producer could look for room at consumers that
 were removed meanwhile

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 731ae5e..26a78fd 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -846,7 +846,7 @@ struct shared_process
             std::shared_ptr<shared_process_sender<result_t>> consumer;
             {
                 std::unique_lock<std::mutex> lock(_downstream_mutex);
-                if (i == _downstream.size()) return true;
+                if (i >= _downstream.size()) return true; // closed in the meantime
                 consumer = _downstream.consumer(i);
             }
             if (consumer && consumer->free_buffer() == 0) return false;
-- 
2.43.0


From a378c831ce7fd2c119f53fcd908f412f181a8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 31/37] fix: an executor task pair could not be combined with a
 buffer_size

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 26a78fd..e20c7a6 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1380,7 +1380,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
-- 
2.43.0


From eb2775cc7a0876c36fc6cc31a3c9665585f85488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 32/37] fix: a producer could be resumed twice for the same
 room in the buffers of its consumers

---
 include/stlab/concurrency/channel.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index e20c7a6..91e5230 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -747,6 +747,7 @@ struct shared_process
     process_turn _process_turn = process_turn::none;
     std::size_t _process_runs = 0;     // tasks with the executor
     std::size_t _process_timer_id = 0; // identifies the most recent timed await or yield
+    std::size_t _process_suspends = 0; // identifies the most recent suspension
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
@@ -859,6 +860,7 @@ struct shared_process
         refill the buffers of its consumers.
     */
     void clear_to_send() override {
+        std::size_t suspends;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
             if (_process_turn == process_turn::scheduled && _process_runs == 1) {
@@ -867,13 +869,15 @@ struct shared_process
                 return;
             }
             if (_process_turn != process_turn::suspended) return;
+            suspends = _process_suspends;
         }
 
         if (!has_room_downstream()) return;
 
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_turn != process_turn::suspended) return;
+            // if another value was sent meanwhile, there was room before it
+            if (_process_turn != process_turn::suspended || _process_suspends != suspends) return;
             _process_turn = process_turn::running;
         }
 
@@ -1166,6 +1170,7 @@ struct shared_process
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
             _process_turn = process_turn::suspended;
+            ++_process_suspends;
         }
 
         clear_to_send(); // resume right away if there is room
-- 
2.43.0


From 228768e5d9566a4c657df831f4134108c10f59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 33/37] fix: a process behind a merge awaits the values of its
 inputs

---
 include/stlab/concurrency/channel.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 91e5230..605ad7c 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -362,6 +362,11 @@ using process_await_t = decltype(std::declval<T&>().await(std::declval<Args>()..
 template <typename T, typename... Args>
 constexpr bool has_process_await_v = is_detected_v<process_await_t, T, Args...>;
 
+// The inputs of a merge are awaited one at a time.
+template <std::size_t S, typename T, typename... Args>
+constexpr bool has_process_await_n_v =
+    S == 1 ? has_process_await_v<T, first_t<Args...>> : has_process_await_v<T, Args...>;
+
 /**************************************************************************************************/
 
 template <typename P, typename... T, std::size_t... I>
@@ -933,7 +938,9 @@ struct shared_process
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-            } else
+            } else if constexpr (queue_strategy_t::arguments_size == 1)
+                await_variant_args<process_t, first_t<Args...>>(*_process, *message);
+            else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
@@ -949,7 +956,8 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    !has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    !has_process_await_n_v<Q::arguments_size, unwrap_reference_t<T>,
+                                                           Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -998,7 +1006,8 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    has_process_await_n_v<Q::arguments_size, unwrap_reference_t<T>,
+                                                           Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
-- 
2.43.0


From b611d8ac8d0506fe40def3645ad9c5e03cdcaac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 34/37] fix: a join closed by an error does not keep its other
 inputs waiting

---
 include/stlab/concurrency/channel.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 605ad7c..748d731 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -632,6 +632,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         bool do_run;
         {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
+            if (_shared_process._process_discards) return;
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
             // a value that arrives while the process awaits with a timeout cancels the timeout
@@ -650,7 +651,8 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
         const std::size_t capacity = _shared_process._process_buffer_size;
-        if (capacity == 0) return std::numeric_limits<std::size_t>::max();
+        if (capacity == 0 || _shared_process._process_discards)
+            return std::numeric_limits<std::size_t>::max();
         // nothing prevents a sender from sending more than fits into the buffer
         const std::size_t size = _shared_process._queue.template queue_size<I>();
         return size < capacity ? capacity - size : 0;
@@ -756,6 +758,7 @@ struct shared_process
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
+    bool _process_discards = false; // closed by an error, anything that is sent is discarded
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -841,6 +844,18 @@ struct shared_process
         _process = std::nullopt;
     }
 
+    // Values which are left without a partner must not keep their senders waiting.
+    void discard_input() {
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            if (_process_discards) return;
+            _process_discards = true;
+        }
+        tuple_for_each(_upstream, [](const auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     /*
         True if every consumer has room for another value. A consumer that is gone never has to be
         waited for.
@@ -1122,6 +1137,7 @@ struct shared_process
             if (!_process || find_argument_error(*message)) {
                 // An error closes this process; anything that still arrives is discarded.
                 close_downstream();
+                discard_input();
                 task_done();
             } else {
                 try {
-- 
2.43.0


From 78a23c14fc4ccd46d1cc2a8a67c700e4c7ec6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 35/37] fix: when_all and when_any stayed pending if copying a
 result threw

---
 include/stlab/concurrency/future.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 7434a35..6378234 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1240,7 +1240,11 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex));
             } else {
-                p->template done<i>(std::move(x));
+                try {
+                    p->template done<i>(std::move(x));
+                } catch (...) { // copying a result which others share failed
+                    p->failure(std::current_exception());
+                }
             }
         });
     std::unique_lock<std::mutex> lock{shared->_guard};
@@ -1446,11 +1450,11 @@ struct single_trigger {
             std::vector<future<void>> holds(context._holds.size());
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
+                context.apply(std::forward<F>(f), index);
                 for (auto i = 0u; i < context._holds.size(); ++i) {
                     if (i != index) std::swap(holds[i], context._holds[i]);
                 }
                 context._single_event = true;
-                context.apply(std::forward<F>(f), index);
                 run = true;
             }
         }
@@ -1528,7 +1532,11 @@ void attach_tasks(size_t index, E&& executor, const std::shared_ptr<C>& context,
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex), _i);
             } else {
-                p->done(std::move(x), _i);
+                try {
+                    p->done(std::move(x), _i);
+                } catch (...) { // copying a result which others share failed
+                    p->failure(std::current_exception(), _i);
+                }
             }
         });
 
-- 
2.43.0


From f172217378c89709ebea56c06d5b0e4044e6b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 36/37] fix: reducing a future terminated if copying the inner
 result threw

---
 include/stlab/concurrency/future.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 6378234..d17e73c 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1014,8 +1014,12 @@ auto package(E executor, F&& f)
                                 if (auto e = f.exception()) {
                                     std::move(_p).set_exception(std::move(e));
                                 } else {
-                                    std::move(_p).set_value(invoke_void_to_monostate_result(
-                                        [&] { return std::move(f).get_ready(); }));
+                                    try {
+                                        std::move(_p).set_value(invoke_void_to_monostate_result(
+                                            [&] { return std::move(f).get_ready(); }));
+                                    } catch (...) { // copying a result which others share failed
+                                        std::move(_p).set_exception(std::current_exception());
+                                    }
                                 }
                             });
                     } catch (...) {
-- 
2.43.0


From e1251a2e2bff6ece7ed8a0431cc22b6bdbf7e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 37/37] fix: co_return terminated if creating the result threw

---
 include/stlab/concurrency/future.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index d17e73c..0916153 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1749,7 +1749,8 @@ struct std::coroutine_traits<stlab::future<T>, Args...> {
 
         template <class U>
         void return_value(U&& val) {
-            _promise.first(std::forward<U>(val));
+            T result = std::forward<U>(val); // can throw, completing the promise cannot
+            _promise.first(std::move(result));
         }
 
         void unhandled_exception() { _promise.first.set_exception(std::current_exception()); }
-- 
2.43.0

