From 96d69d52be67981727de8e3851373cc2625c7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 01/24] fix: timer_manager::update survives handlers that clear
 the manager

A handler may call clear() (e.g. through request_stop_all). update() kept
iterating over the map that clear() had just emptied.
---
 source/timer.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..fd743f4 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -92,9 +92,12 @@ namespace librf
 					if (sptr->st == timer_target::State::Added)
 					{
 						sptr->st = timer_target::State::Runing;
-						_runing_timers.insert({ sptr->tp, sptr });
+						_runing_timers.insert({ sptr->tp, std::move(sptr) });
 					}
-					else
+				}
+				for (auto& sptr : _atimer)
+				{
+					if (sptr)
 					{
 						assert(sptr->st == timer_target::State::Invalid);
 						call_target_(sptr, true);
@@ -107,17 +110,17 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//回调函数里可能会调用clear()等函数，故每次先将定时器移除后再调用
+			while (!_runing_timers.empty())
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
+				auto iter = _runing_timers.begin();
+				if (iter->first > now_)
 					break;
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
 			}
-
-			_runing_timers.erase(_runing_timers.begin(), iter);
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From fac4060dd22acde054dad3cc31676ba3218ae20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 02/24] fix: stop_state is freed exactly when the last source,
 token and callback is gone

Dropping one of several tokens without a source, or destroying a
registered callback while a source is alive, deleted the shared state
that was still in use.
---
 include/librf/src/stop_token.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..dfc0ddb 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,8 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kTokenZeroRef = kTokenRefIncrement + kTokenRefIncrement;
+    static constexpr uint64_t kLockedAndZeroRef = kLockedFlag + kTokenZeroRef;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -138,7 +139,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kTokenZeroRef)
         {
             delete this;
         }
-- 
2.43.0


From 96dd76e0eb35f6e1fb43060df713203c78fb8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 03/24] fix: an exception set on an awaitable_t<void> before it
 is awaited is delivered

state_t<void>::set_exception did not mark the state as ready, so that a
coroutine awaiting it afterwards was never resumed.
---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..873095b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From b22cf271d7b3f455aa0e3abb437bf1dfd1dc3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 04/24] fix: a task started on a future that already has its
 result ends

Such a task stayed in the scheduler for ever: empty() never became true
and run_until_notask() never returned.
---
 include/librf/src/state.h | 9 +++++++++
 source/scheduler.cpp      | 3 ++-
 source/state.cpp          | 4 ++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..5d19550 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -37,6 +37,11 @@ namespace librf
 		LIBRF_API virtual void resume();
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
+		//是否已经有了结果。
+		virtual bool has_result() const noexcept
+		{
+			return false;
+		}
 
 		void set_scheduler(scheduler_t* sch) noexcept
 		{
@@ -137,6 +142,10 @@ namespace librf
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
+		virtual bool has_result() const noexcept override
+		{
+			return future_await_ready();
+		}
 
 		inline bool is_ready() const noexcept
 		{
diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..761709c 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -105,7 +105,8 @@ namespace librf
 		}
 
 		//如果是单独的future，没有被co_await过，则handler是nullptr。
-		if (sptr->has_handler())
+		//如果此future已经有了结果，则需要通过resume()来结束此任务。
+		if (sptr->has_handler() || sptr->has_result())
 		{
 			add_generator(sptr);
 		}
diff --git a/source/state.cpp b/source/state.cpp
index 873095b..0b3ebc0 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -156,6 +156,10 @@ namespace librf
 			handler.destroy();
 			return;
 		}
+
+		//没有协程可以恢复，但已经有了结果，则任务结束
+		if (_scheduler != nullptr && future_await_ready())
+			_scheduler->del_final(this);
 	}
 
 	LIBRF_API bool state_future_t::has_handler() const noexcept
-- 
2.43.0


From b4ffd4130d394bf72f3cb25a917f6d3d963fdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 05/24] fix: a named const function object used to start a task
 is copied into the task

task_ctx_impl_t kept a reference to it, although the task documents that
it holds a copy; a non-const one did not compile.
---
 include/librf/src/scheduler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..28e07c3 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -69,7 +69,7 @@ namespace librf
 		task_t* operator + (_Ty&& coro)
 		{
 			if constexpr (traits::is_callable_v<_Ty>)
-				return new_task(new task_ctx_impl_t<_Ty>(coro));
+				return new_task(new task_ctx_impl_t<std::decay_t<_Ty>>(std::forward<_Ty>(coro)));
 			else
 				return new_task(new task_impl_t<_Ty>(coro));
 		}
-- 
2.43.0


From 11687f57af6d07e28d39426ac202a1e891611794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 06/24] fix: a generator keeps the value it returns

---
 include/librf/src/generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..9f7e103 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -145,9 +145,11 @@ namespace librf
 			}
 
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			//返回值可能是临时对象或者协程的局部变量，在协程结束后仍然需要访问，因此需要保存下来
+			template<class _Uty = _Ty>
+			void return_value(_Uty&& _Value)
 			{
-				_CurrentValue = std::addressof(_Value);
+				_CurrentValue = std::addressof(_ReturnedValue.emplace(std::forward<_Uty>(_Value)));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -215,6 +217,7 @@ namespace librf
 				return _Al.deallocate(reinterpret_cast<char *>(_Ptr), _Size);
 			}
 		private:
+			std::optional<value_type> _ReturnedValue;
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
-- 
2.43.0


From 7ad87a66d48459efa5f13f911aeab14a33dcf028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 07/24] fix: move-assigning a generator destroys the coroutine
 it held

---
 include/librf/src/generator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 9f7e103..f725dfb 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -259,6 +259,9 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro) {
+					_Coro.destroy();
+				}
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From 101b37ddf2916fa9ce649cd9ccb3e234c49e147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 08/24] fix: mutex_t::try_lock_until for plain owners compiles

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..e4ab69d 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -429,7 +429,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From fd87a909eadf31389f849523bb91b9226dede8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 09/24] fix: move-assigning a lock guard releases what it held

---
 include/librf/src/mutex_v2.inl | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index e4ab69d..b2fa39c 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != std::addressof(_Right))
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != std::addressof(_Right))
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+				_Right._MAA._owner = nullptr;
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From c4dda0c58d166060946a1267b9b49af620c11e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 10/24] fix: unlocking a mutex does not touch the ended task of
 a timed-out waiter

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..baeefb3 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//已经超时的state，它的root可能已经被销毁，故这里只能取root的地址，不能访问root
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From cfa27f3de0cabfd481330bc7af9078588367ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 11/24] fix: wait_all on signaled events keeps its state until
 its lock is released

---
 include/librf/src/event_v2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..6013e7c 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -459,6 +459,7 @@ namespace librf
 			}
 
 			_state = new detail::state_event_all_t(count, _value);
+			counted_ptr<detail::state_event_all_t> keep_state(_state);		//lock_析构时，_state->_lock必须仍然有效
 			lockes.push_back(_state->_lock);
 			(void)_state->on_await_suspend(handler);
 
-- 
2.43.0


From 822700a58099936ec1c3135bac19c34e204eab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 12/24] fix: expiry of a wait for all events does not take
 event locks under its own lock

---
 source/event_v2.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..c288d3c 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -110,26 +110,33 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			//signal()持有事件的锁后，再获取本对象的锁。故不能在持有本对象的锁时，去获取事件的锁
+			std::vector<sub_state_t> waiting;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
 
-			for (sub_state_t& sub : _values)
-			{
-				if (sub.first != nullptr)
+				for (sub_state_t& sub : _values)
 				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
+					if (sub.first != nullptr)
+					{
+						waiting.push_back(sub);
+						sub.second = nullptr;
+					}
 				}
 			}
 
+			for (sub_state_t& sub : waiting)
+			{
+				if (sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first.get());
+			}
+
 			assert(this->_scheduler != nullptr);
 			if (this->_coro)
 				this->_scheduler->add_generator(this);
-- 
2.43.0


From cd1eba917e7d40eee02cebb951e8b190585ad5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 13/24] fix: a signal completing a wait for all events keeps
 its state alive until unlocked

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index c288d3c..c37fdfd 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -59,6 +59,7 @@ namespace librf
 
 		LIBRF_API void state_event_all_t::on_cancel(intptr_t idx)
 		{
+			counted_ptr<state_event_all_t> keep_this(this);		//协程可能在别的线程里恢复运行并释放本对象，但_lock还需要解锁
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 			
 			if (_counter <= 0) return ;
@@ -78,6 +79,7 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			counted_ptr<state_event_all_t> keep_this(this);		//协程可能在别的线程里恢复运行并释放本对象，但_lock还需要解锁
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
-- 
2.43.0


From 5ee137f086ef2083ad3e730645810ad4c38da41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 14/24] fix: resetting an event while another thread tests it
 leaves no phantom signal

---
 source/event_v2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index c37fdfd..fc95b35 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -212,6 +212,7 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From 53d71de0ee820426a981ae82798d82dfc43188f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 15/24] fix: waiting for all or any of tasks that ended before
 the await does not hang

---
 include/librf/src/when_v2.h | 11 +++++++++--
 source/when_v2.cpp          |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..48cbaec 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -70,13 +70,20 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
+				scoped_lock<lock_type> lock_(_state->_lock);
+
+				//在await_ready()之后，最后一个任务可能已经完成，此后不会再有通知
+				if (_state->_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				_state->on_await_suspend(handler);
+				return true;
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..80d4b62 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -35,13 +35,18 @@ namespace librf
 
 		LIBRF_API bool state_when_t::on_notify_one()
 		{
+			//等待者恢复后可能先于解锁释放自己
+			counted_ptr<state_when_t> keep_this(this);
 			scoped_lock<lock_type> lock_(_lock);
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
+				//没有等待者，表示还没有(或者不再需要)等待
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From a63e869060b219449dd9c5d9bc87bb0f93da18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 16/24] fix: stop every task of a scheduler without holding its
 lock, and without multi-thread support

---
 source/scheduler.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index 761709c..504769b 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -134,11 +134,21 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//在锁外才能回调，因为回调里可能会启动新的协程，或者再次访问调度器
+		std::vector<stop_source> stops;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					stops.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
-		//this->_ready_task.clear();
+		for (auto& stop : stops)
+			stop.request_stop();
 		this->_timer->clear();
 	}
 
-- 
2.43.0


From c8f98868e116696233725c0a06734c33448dc7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 17/24] fix: keep the function object of a task until its
 coroutine has ended

---
 include/librf/src/state.inl | 4 ++--
 source/state.cpp            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 23a7376..dc69315 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -167,7 +167,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的任务，在final_suspend时才结束，此前局部变量还可能使用任务持有的函数对象
 				sch->del_final(this);
 		}
 	}
@@ -274,7 +274,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的任务，在final_suspend时才结束，此前局部变量还可能使用任务持有的函数对象
 				sch->del_final(this);
 		}
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 0b3ebc0..7bba7c2 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -214,7 +214,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的任务，在final_suspend时才结束，此前局部变量还可能使用任务持有的函数对象
 				sch->del_final(this);
 		}
 	}
-- 
2.43.0


From ecbf034e8ab0a7e3f170f8504ce435670cc4892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 18/24] fix: destroy the task's function object outside of the
 scheduler's lock

---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 28e07c3..e1ace4c 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//task持有的函数对象，其析构可能会再次访问调度器，故在锁外析构
+		(void)del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 8cef9d7b15550bc866babb3d322cdcea2db187ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 19/24] fix: keep the channel alive until its lock is released

---
 include/librf/src/channel_v2.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..697e7a0 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,11 +359,12 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> keep_channel;		//lock_析构时，channel必须仍然有效
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_read_nolock(_value))
 				{
-					_channel = nullptr;
+					keep_channel = std::move(_channel);
 					return true;
 				}
 			}
@@ -373,11 +374,12 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			std::shared_ptr<channel_type> keep_channel;		//lock_析构时，channel必须仍然有效
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_read_nolock(_value))
 			{
-				_channel = nullptr;
+				keep_channel = std::move(_channel);
 				return false;
 			}
 
@@ -430,11 +432,12 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> keep_channel;		//lock_析构时，channel必须仍然有效
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_write_nolock(_value))
 				{
-					_channel = nullptr;
+					keep_channel = std::move(_channel);
 					return true;
 				}
 			}
@@ -444,11 +447,12 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			std::shared_ptr<channel_type> keep_channel;		//lock_析构时，channel必须仍然有效
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_write_nolock(_value))
 			{
-				_channel = nullptr;
+				keep_channel = std::move(_channel);
 				return false;
 			}
 
-- 
2.43.0


From 34f1e6e841d6cd07493f631337fe750bef32da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 20/24] fix: when_any must not move from the object that a task
 returns a reference to

---
 include/librf/src/when_v2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 48cbaec..5bcff0d 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -224,7 +224,8 @@ namespace librf
 				intptr_t oldValue = -1;
 				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
 				{
-					value->second = std::move(result);
+					//返回引用的任务，不能移走被引用的对象
+					value->second = std::forward<decltype(result)>(result);
 
 					state->on_notify_one();
 				}
-- 
2.43.0


From f5cb6b4222c8f23a7347ce4ea65def8a6a7bbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 21/24] fix: results of when_all over a range of bool tasks
 that end on several threads must not overwrite each other

---
 include/librf/src/when_v2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 5bcff0d..fcd6fb5 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -166,6 +166,14 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr(std::is_same_v<_Ty, bool>)
+			{
+				bool result = co_await awaitor;
+
+				//std::vector<bool>的多个元素共用一个字，而任务可能在不同的线程里结束
+				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+				value = result;
+			}
 			else
 				value = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0


From 54507b7956ea695247306e9add95d0439805f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:10 +0000
Subject: [PATCH 22/24] fix: stopping a timer from another thread must not be
 lost when the timer becomes due at the same time

---
 include/librf/src/timer.h |  2 +-
 source/timer.cpp          | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..db83b5f 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -27,7 +27,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st = State::Invalid;	//其他线程可以停止定时器
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
diff --git a/source/timer.cpp b/source/timer.cpp
index fd743f4..5542a0b 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -65,11 +65,11 @@ namespace librf
 		if (!sptr || sptr->st == timer_target::State::Invalid) 
 			return false;
 #if _DEBUG
-		assert(sptr->_manager == this);
+		assert(sptr->_manager == this || sptr->st == timer_target::State::Invalid);
 #endif
-		sptr->st = timer_target::State::Invalid;
 
-		return true;
+		//其他线程可能正在update()，故停止和触发只能有一个成功
+		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -89,9 +89,9 @@ namespace librf
 
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto added_ = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(added_, timer_target::State::Runing))
 					{
-						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, std::move(sptr) });
 					}
 				}
@@ -119,7 +119,7 @@ namespace librf
 
 				auto sptr = std::move(iter->second);
 				_runing_timers.erase(iter);
-				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+				call_target_(sptr, sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid);
 			}
 		}
 	}
-- 
2.43.0


From db589a6ba08420a833259180543a47716cb85b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:10 +0000
Subject: [PATCH 23/24] fix: take the lock of a state when its scheduler is
 set, which another thread reads when it sets the result

---
 include/librf/src/state.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index 5d19550..a7ca3e4 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -43,7 +43,7 @@ namespace librf
 			return false;
 		}
 
-		void set_scheduler(scheduler_t* sch) noexcept
+		virtual void set_scheduler(scheduler_t* sch) noexcept
 		{
 			_scheduler = sch;
 		}
@@ -141,6 +141,11 @@ namespace librf
 		LIBRF_API virtual void destroy_deallocate() override;
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
+		virtual void set_scheduler(scheduler_t* sch) noexcept override
+		{
+			scoped_lock<lock_type> __guard(this->_mtx);		//其他线程可能正在设置结果
+			_scheduler = sch;
+		}
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
 		virtual bool has_result() const noexcept override
 		{
-- 
2.43.0


From dc1296b23a0a34c5a88811fd451fac0db4617b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:40 +0000
Subject: [PATCH 24/24] fix: look at the newly added timers under their lock
 when a timer manager is asked whether it is empty

---
 include/librf/src/timer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index db83b5f..7e67619 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -123,6 +123,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __lock(_added_mtx);		//其他线程可能正在添加定时器
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +144,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _added_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
-- 
2.43.0

