From 1b34d0aa320b775d7221495e85365262ffa60b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 01/40] fix: group_by uses the key comparator it was given

The map of groups was default-constructing the comparator, so a stateful comparator
(std::function, function pointer, lambda with captures) was ignored or crashed.
---
 src/rpp/rpp/operators/group_by.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/group_by.hpp b/src/rpp/rpp/operators/group_by.hpp
index 1e6cccb..6e2e105 100644
--- a/src/rpp/rpp/operators/group_by.hpp
+++ b/src/rpp/rpp/operators/group_by.hpp
@@ -73,7 +73,7 @@ namespace rpp::operators::details
 
         using subject_observer = decltype(std::declval<subjects::publish_subject<Type>>().get_observer());
 
-        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{};
+        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{comparator};
         std::shared_ptr<refcount_disposable>                    disposable = [&] {
             auto ptr = disposable_wrapper_impl<refcount_disposable>::make().lock();
             observer.set_upstream(ptr->add_ref());
-- 
2.43.0


From b479b457a121e5d2ee7e818af4d7aaa498b7b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 02/40] fix: concat delivers an exception thrown while
 subscribing to a queued observable

The next observable is subscribed from the noexcept on_completed of the previous one,
so an exception there terminated the program. It is forwarded to on_error now.
---
 src/rpp/rpp/operators/concat.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..6e7562e 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -84,7 +84,16 @@ namespace rpp::operators::details
         {
             stage().store(ConcatStage::Draining, std::memory_order::relaxed);
             refcounted.clear();
-            observable.subscribe(concat_inner_observer_strategy<TObservable, TObserver>{this->shared_from_this(), std::move(refcounted)});
+            try
+            {
+                observable.subscribe(concat_inner_observer_strategy<TObservable, TObserver>{this->shared_from_this(), std::move(refcounted)});
+            }
+            catch (...)
+            {
+                // can be reached from noexcept on_completed of previous inner observable
+                get_observer()->on_error(std::current_exception());
+                return true;
+            }
 
             ConcatStage current = ConcatStage::Draining;
             return stage().compare_exchange_strong(current, ConcatStage::Processing, std::memory_order::seq_cst);
-- 
2.43.0


From 8703c828073fdacbe8a3312a8a64bde09205c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 03/40] fix: defer forwards an exception of its factory to
 on_error

---
 src/rpp/rpp/sources/defer.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/sources/defer.hpp b/src/rpp/rpp/sources/defer.hpp
index d9578a0..0ce5822 100644
--- a/src/rpp/rpp/sources/defer.hpp
+++ b/src/rpp/rpp/sources/defer.hpp
@@ -14,6 +14,9 @@
 #include <rpp/defs.hpp>
 #include <rpp/observables/observable.hpp>
 
+#include <exception>
+#include <optional>
+
 namespace rpp::details
 {
     template<typename Factory>
@@ -27,7 +30,17 @@ namespace rpp::details
         template<rpp::constraint::observer_of_type<value_type> TObs>
         void subscribe(TObs&& obs) const
         {
-            observable_factory().subscribe(std::forward<TObs>(obs));
+            std::optional<std::decay_t<std::invoke_result_t<Factory>>> observable{};
+            try
+            {
+                observable.emplace(observable_factory());
+            }
+            catch (...)
+            {
+                obs.on_error(std::current_exception());
+                return;
+            }
+            observable->subscribe(std::forward<TObs>(obs));
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From 3b69f48f8b8457e8cf24e9db163699df7445df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 04/40] fix: retry_when releases and silences the failed
 attempt before waiting for the notifier

---
 src/rpp/rpp/operators/retry_when.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index ef9f28a..bcccfc7 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -92,6 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
+        mutable bool                                                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -101,6 +102,10 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            // failed attempt is over: it must be released and silenced even if we are still waiting for notifier
+            locally_disposed = true;
+            state->disposable.clear();
+
             try
             {
                 state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
@@ -113,12 +118,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
+            locally_disposed = true;
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
-- 
2.43.0


From f60aa210cf8e63efc5e68255e3d1ff650e45bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 05/40] fix: on_error_resume_next releases and silences the
 failed observable before switching

---
 .../rpp/operators/on_error_resume_next.hpp    | 49 +++++++++++++------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 4426cc2..5c17efd 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -17,32 +17,45 @@
 
 namespace rpp::operators::details
 {
+    template<rpp::constraint::observer TObserver>
+    struct on_error_resume_next_state final
+    {
+        explicit on_error_resume_next_state(TObserver&& in_observer)
+            : observer(std::move(in_observer))
+        {
+            observer.set_upstream(disposable);
+        }
+
+        RPP_NO_UNIQUE_ADDRESS TObserver   observer;
+        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
+    };
+
     template<rpp::constraint::observer TObserver>
     struct on_error_resume_next_inner_observer_strategy
     {
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
-        std::shared_ptr<TObserver> observer;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
 
         template<typename T>
         void on_next(T&& v) const
         {
-            observer->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            observer->on_error(err);
+            state->observer.on_error(err);
         }
 
         void on_completed() const
         {
-            observer->on_completed();
+            state->observer.on_completed();
         }
 
-        void set_upstream(const disposable_wrapper& d) { observer->set_upstream(d); }
+        void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return observer->is_disposed(); }
+        bool is_disposed() const { return state->disposable.is_disposed(); }
     };
 
 
@@ -52,43 +65,49 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         on_error_resume_next_observer_strategy(TObserver&& observer, const Selector& selector)
-            : state{std::make_shared<TObserver>(std::move(observer))}
+            : state{std::make_shared<on_error_resume_next_state<TObserver>>(std::move(observer))}
             , selector{selector}
         {
         }
 
-        std::shared_ptr<TObserver>     state;
-        RPP_NO_UNIQUE_ADDRESS Selector selector;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
+        RPP_NO_UNIQUE_ADDRESS Selector                         selector;
+        mutable bool                                           locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
         {
-            state->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
+            // failed observable is over: it must be released and silenced before switching to the new one
+            locally_disposed = true;
+            state->disposable.clear();
+
             try
             {
                 selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
             }
             catch (...)
             {
-                state->on_error(std::current_exception());
+                state->observer.on_error(std::current_exception());
             }
         }
 
         void on_completed() const
         {
-            state->on_completed();
+            locally_disposed = true;
+            state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            state->set_upstream(d);
+            state->disposable.add(d);
         }
 
-        bool is_disposed() const { return state->is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
@@ -113,7 +132,7 @@ namespace rpp::operators::details
         };
 
         template<rpp::details::observables::constraint::disposable_strategy Prev>
-        using updated_disposable_strategy = rpp::details::observables::default_disposable_strategy_selector;
+        using updated_disposable_strategy = rpp::details::observables::fixed_disposable_strategy_selector<1>;
     };
 } // namespace rpp::operators::details
 
-- 
2.43.0


From 76f30eea44915846b1259b08cff1154242c4f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 06/40] fix: window_toggle stops openings that emit during
 subscription once it is over

Disposable of openings was registered only after subscription.
---
 src/rpp/rpp/operators/window_toggle.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..6177a72 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -151,7 +151,11 @@ namespace rpp::operators::details
             : m_state{std::make_shared<TState>(std::move(observer), closings)}
         {
             m_state->get_state_under_lock()->observer.set_upstream(m_disposable->add_ref());
-            m_disposable->add(openings.subscribe_with_disposable(window_toggle_opening_observer_strategy<TState>{m_disposable, m_state}));
+
+            // has to be added before subscription: openings can emit during subscription and lead to disposing
+            const auto openings_disposable = composite_disposable_wrapper::make();
+            m_disposable->add(openings_disposable);
+            openings.subscribe(openings_disposable, window_toggle_opening_observer_strategy<TState>{m_disposable, m_state});
         }
 
         void on_next(const auto& v) const
-- 
2.43.0


From 215f38405eddf1f6f571b644fcae40840d3d7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 07/40] fix: subject does not call or destroy observers while
 holding its mutex

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..94ce876 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,9 +55,12 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    // dropping of observers can lead to destroying of them (and disposing of something related to this subject too), so, it should happen without lock
+                    shared_observers previous{};
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
+                                             previous        = observers;
                                              shared->m_state = cleanup_observers(observers, this);
                                          });
                 }
@@ -165,7 +168,7 @@ namespace rpp::subjects::details
                              current_subs->cend(),
                              std::back_inserter(*subs),
                              [&to_delete](const observer& obs) {
-                                 return to_delete != obs.get() && !obs->is_disposed();
+                                 return to_delete != obs.get();
                              });
             }
             return subs;
-- 
2.43.0


From 571cbfcea3fed49fb64276b4197d4c28bdf827fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 08/40] fix: subscribing to a subject does not modify the list
 of observers on_next iterates over

---
 .../rpp/subjects/details/subject_state.hpp    | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 94ce876..6494edb 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -88,16 +88,11 @@ namespace rpp::subjects::details
                 [&](const shared_observers& observers) {
                     auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
                     auto ptr = d.lock();
-                    if (!observers)
-                    {
-                        auto new_observers = std::make_shared<subject_state::observers>();
-                        new_observers->emplace_back(ptr);
-                        m_state = std::move(new_observers);
-                    }
-                    else
-                    {
-                        observers->emplace_back(ptr);
-                    }
+
+                    // on_next can iterate over current deque right now, so, it can't be modified in place
+                    auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
+                    new_observers->emplace_back(ptr);
+                    m_state = std::move(new_observers);
 
                     lock.unlock();
                     ptr->set_upstream(d.as_weak());
@@ -119,18 +114,15 @@ namespace rpp::subjects::details
             if (!std::holds_alternative<shared_observers>(m_state))
                 return;
 
-            // we are getting copy of curent deque and obtaining CURRENT begin/end of in case of some new observer would be added during on_next call
+            // we are getting copy of pointer to current deque, it is never modified in case of some new observer would be added or removed during on_next call
             const auto observers = std::get<shared_observers>(m_state);
             if (!observers)
                 return;
 
-            const auto begin = observers->cbegin();
-            const auto end   = observers->cend();
-
             observers_lock.unlock();
 
             std::lock_guard lock{m_serialized_mutex};
-            std::for_each(begin, end, [&](const observer& obs) { obs->on_next(v); });
+            rpp::utils::for_each(*observers, [&](const observer& obs) { obs->on_next(v); });
         }
 
         void on_error(const std::exception_ptr& err)
-- 
2.43.0


From 3073857aa8c5ae0e0d487a498554de0e368a8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 09/40] fix: replay_subject with zero duration limit no longer
 keeps values forever

---
 src/rpp/rpp/subjects/replay_subject.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index a4a549d..1553f04 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -27,7 +27,7 @@ namespace rpp::subjects::details
     {
         struct replay_state final : public subject_state<Type, Serialized>
         {
-            replay_state(size_t limit = std::numeric_limits<size_t>::max(), rpp::schedulers::duration duration_limit = std::numeric_limits<rpp::schedulers::duration>::max())
+            replay_state(size_t limit = std::numeric_limits<size_t>::max(), rpp::schedulers::duration duration_limit = rpp::schedulers::duration::max())
                 : m_limit(limit)
                 , m_duration_limit(duration_limit)
             {
@@ -65,7 +65,7 @@ namespace rpp::subjects::details
         private:
             rpp::schedulers::clock_type::time_point deduce_timepoint()
             {
-                if (std::numeric_limits<rpp::schedulers::duration>::max() == m_duration_limit)
+                if (rpp::schedulers::duration::max() == m_duration_limit)
                     return rpp::schedulers::clock_type::time_point{};
 
                 auto now = rpp::schedulers::clock_type::now();
-- 
2.43.0


From a1d0e563b9a1e9043e69b534f7024f5b5c92fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 10/40] fix: buffer keeps values emitted from inside its own
 on_next apart from the delivered bucket

---
 src/rpp/rpp/operators/buffer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/buffer.hpp b/src/rpp/rpp/operators/buffer.hpp
index b82286f..24d9ea5 100644
--- a/src/rpp/rpp/operators/buffer.hpp
+++ b/src/rpp/rpp/operators/buffer.hpp
@@ -41,11 +41,11 @@ namespace rpp::operators::details
             m_bucket.push_back(std::forward<T>(v));
             if (m_bucket.size() == m_bucket.capacity())
             {
-                const auto capacity = m_bucket.capacity();
-                m_observer.on_next(std::move(m_bucket));
-
-                m_bucket.clear();
-                m_bucket.reserve(capacity);
+                // observer can emit new values from inside of on_next
+                auto bucket = std::move(m_bucket);
+                m_bucket    = {};
+                m_bucket.reserve(bucket.capacity());
+                m_observer.on_next(std::move(bucket));
             }
         }
 
-- 
2.43.0


From c61a0473a2a236846b10f650e60e8807e52fec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 11/40] fix: current_thread: keep timepoint of a task repeated
 in place

drain_queue repeats a task in place while the queue is empty, but didn't store
the timepoint the task was waiting for: next delay_from_this_timepoint was
calculated from the timepoint of the very first execution.
---
 src/rpp/rpp/schedulers/current_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..f4d5ca2 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -126,7 +126,8 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    top->set_timepoint(top->handle_advanced_call(res.value()));
+                                    details::sleep_until(top->get_timepoint());
                                 }
                                 continue;
                             }
-- 
2.43.0


From db867cc024dc4f41c96968071eb71cef04db2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 12/40] fix: current_thread: don't run a task disposed while
 the queue waited for it

drain_queue checked disposal only before sleeping till timepoint of the task;
immediate_scheduling_while_condition (the first task) checks it after sleeping too.
---
 src/rpp/rpp/schedulers/current_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index f4d5ca2..1f0c9d8 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -112,7 +112,7 @@ namespace rpp::schedulers
 
                 details::sleep_until(top->get_timepoint());
 
-                while (true)
+                while (!top->is_disposed())
                 {
                     if (const auto res = top->make_advanced_call())
                     {
-- 
2.43.0


From 057df09f1a6b0e77775a6a1e26ee662078f482f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 13/40] fix: composite_disposable: clear() disposes children
 outside of the Edit state

Disposing a child in the Edit state made any add/remove/clear/dispose of the same
composite called from the child's disposal (refcount_disposable's references do
it themselves) spin for ever.
---
 src/rpp/rpp/disposables/composite_disposable.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..e002fdd 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -130,18 +130,14 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    // disposing (and destroying) disposables can cause call of any method of this disposable, so, it is not allowed to do it inside Edit state
+                    Container disposables{std::move(m_disposables)};
+                    m_disposables.clear();
+
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    disposables.dispose();
                     return;
                 }
 
-- 
2.43.0


From c6b8e0771b82f2d10b69323c86549d2243531690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 14/40] fix: composite_disposable: remove() doesn't destroy the
 removed disposable in the Edit state

Removing the last strong reference disposed it while the composite was in the
Edit state: disposal calling any method of the same composite spun for ever.
---
 src/rpp/rpp/disposables/composite_disposable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index e002fdd..bbb4c28 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -97,6 +97,9 @@ namespace rpp
 
         void remove(const disposable_wrapper& disposable) override
         {
+            // removing of last strong reference would destroy (and dispose) disposable inside Edit state, where it can't call any method of this disposable
+            const auto locked = disposable.lock();
+
             while (true)
             {
                 State expected{State::None};
-- 
2.43.0


From 0224a10a7f1522e0cb043a2e4ab850dcce8db2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 15/40] fix: debounce schedules emission without holding of its
 mutex (immediate execution of schedulable led to self-deadlock)

---
 src/rpp/rpp/operators/debounce.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..6f1de23 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,13 +47,16 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
+            std::unique_lock lock{m_mutex};
             m_value_to_be_emitted.emplace(std::forward<TT>(v));
             const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
+            const auto time_point               = m_worker.now() + m_period;
+            m_time_when_value_should_be_emitted = time_point;
             if (need_to_scheduled)
             {
-                schedule();
+                // schedulable can be executed inside "schedule" (e.g. by the immediate scheduler), so, mutex can't be locked there
+                lock.unlock();
+                schedule(time_point);
             }
         }
 
@@ -66,10 +69,10 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(schedulers::time_point time_point)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                time_point,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
                     auto value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
-- 
2.43.0


From f66c0cdc41855cf3301ddc227e688a815d067524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 16/40] fix: comparison of disposable_wrappers doesn't lock
 weak_ptr (could become the last owner and dispose it inside edit state of
 composite_disposable)

---
 .../rpp/disposables/disposable_wrapper.hpp    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..265b577 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -56,7 +56,14 @@ namespace rpp::details
     public:
         bool operator==(const disposable_wrapper_base& other) const
         {
-            return get().first == other.get().first;
+            // can't lock weak_ptr there: comparison could become the last owner of disposable and dispose it
+            return std::visit([](const auto& lhs, const auto& rhs) {
+                const bool lhs_empty = is_empty(lhs);
+                const bool rhs_empty = is_empty(rhs);
+                return lhs_empty || rhs_empty ? lhs_empty == rhs_empty : is_same_owner(lhs, rhs);
+            },
+                              m_disposable,
+                              other.m_disposable);
         }
 
         bool is_disposed() const noexcept
@@ -96,6 +103,20 @@ namespace rpp::details
             return {nullptr, true};
         }
 
+    private:
+        static bool is_empty(const std::monostate&) noexcept { return true; }
+        static bool is_empty(const std::shared_ptr<interface_disposable>& ptr) noexcept { return !ptr; }
+        static bool is_empty(const std::weak_ptr<interface_disposable>& ptr) noexcept { return ptr.expired(); }
+
+        template<typename L, typename R>
+        static bool is_same_owner(const L& lhs, const R& rhs) noexcept
+        {
+            if constexpr (std::same_as<L, std::monostate> || std::same_as<R, std::monostate>)
+                return false;
+            else
+                return !lhs.owner_before(rhs) && !rhs.owner_before(lhs);
+        }
+
     private:
         std::variant<std::monostate, std::shared_ptr<interface_disposable>, std::weak_ptr<interface_disposable>> m_disposable;
     };
-- 
2.43.0


From 81d45356e4c006be93b5144c785641044562bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 17/40] fix: thread_pool's index of next worker is atomic
 (create_worker can be called from different threads)

---
 src/rpp/rpp/schedulers/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..3d9edd4 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -84,7 +85,7 @@ namespace rpp::schedulers
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{};
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0


From 8e2ff27164c484377df78f9f76a256393b7cfe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 18/40] fix: run_loop's dispatch sleeps till timepoint of
 schedulable instead of busy waiting

---
 src/rpp/rpp/schedulers/run_loop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/run_loop.hpp b/src/rpp/rpp/schedulers/run_loop.hpp
index b8fa1ff..361bd66 100644
--- a/src/rpp/rpp/schedulers/run_loop.hpp
+++ b/src/rpp/rpp/schedulers/run_loop.hpp
@@ -66,7 +66,7 @@ namespace rpp::schedulers
                     if (!wait)
                         break;
 
-                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now, [&]() { return is_disposed() || !m_queue.is_empty() || m_queue.top()->get_timepoint() <= worker_strategy::now(); });
+                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now);
                 }
                 return {};
             }
-- 
2.43.0


From 5216e743f42c2ec5a90f7f5357ac9868b438f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 19/40] fix: schedulable emplaced via current_thread to
 new_thread's queue isn't starved by zero-delay rescheduling

---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..596e039 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -259,6 +261,9 @@ namespace rpp::schedulers::details
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
             std::lock_guard                      lock{mutex};
 
+            if (s)
+                s->has_fresh_data.store(true);
+
             if (!m_head || schedulable->get_timepoint() < m_head->get_timepoint())
             {
                 schedulable->set_next(std::move(m_head));
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..d454a48 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From dd6ec4394d5c459be4e03f3bb65f6ad8fbf03dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 20/40] fix: new_thread handles schedulable with earlier
 timepoint emplaced while thread waits for the later one

---
 src/rpp/rpp/schedulers/new_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index d454a48..f2b6ec0 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -85,7 +85,8 @@ namespace rpp::schedulers
                     {
                         if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            // no predicate: new schedulable with earlier timepoint has to be considered immediately
+                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now);
                             continue;
                         }
                     }
-- 
2.43.0


From 099efb6a61f3657314b6f84df80f27bceccd2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 21/40] fix: subjects take the list of observers and update
 kept value inside of serialized emission (not before waiting for another
 emission)

---
 src/rpp/rpp/subjects/behavior_subject.hpp     |  3 +-
 .../rpp/subjects/details/subject_state.hpp    | 41 ++++++++++++++-----
 src/rpp/rpp/subjects/replay_subject.hpp       |  3 +-
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 3ab5dc9..9dbb28f 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -54,8 +54,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                *state->get_value() = v;
-                state->on_next(v);
+                state->on_next_with(v, [&] { *state->get_value() = v; });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 6494edb..a7955f0 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -109,20 +109,41 @@ namespace rpp::subjects::details
 
         void on_next(const Type& v)
         {
-            std::unique_lock observers_lock{m_mutex};
+            on_next_with(v, rpp::utils::empty_function_t<>{});
+        }
 
-            if (!std::holds_alternative<shared_observers>(m_state))
-                return;
+        /**
+         * @brief Emits value to current observers, but before that invokes provided function as part of the same (serialized) emission. Function is not invoked if there is nothing to do due to subject is ended/disposed
+         */
+        template<std::invocable Fn>
+        void on_next_with(const Type& v, Fn&& before_emission)
+        {
+            // dropping of observers can lead to destroying of them, so, it should happen without locks
+            shared_observers observers{};
 
-            // we are getting copy of pointer to current deque, it is never modified in case of some new observer would be added or removed during on_next call
-            const auto observers = std::get<shared_observers>(m_state);
-            if (!observers)
-                return;
+            // list of observers should be obtained only when emission really started: concurrent emission can wait for another one for a while
+            std::lock_guard lock{m_serialized_mutex};
+            {
+                std::lock_guard observers_lock{m_mutex};
 
-            observers_lock.unlock();
+                if (!std::holds_alternative<shared_observers>(m_state))
+                    return;
+            }
 
-            std::lock_guard lock{m_serialized_mutex};
-            rpp::utils::for_each(*observers, [&](const observer& obs) { obs->on_next(v); });
+            std::forward<Fn>(before_emission)();
+
+            {
+                std::lock_guard observers_lock{m_mutex};
+
+                if (!std::holds_alternative<shared_observers>(m_state))
+                    return;
+
+                // we are getting copy of pointer to current deque, it is never modified in case of some new observer would be added or removed during on_next call
+                observers = std::get<shared_observers>(m_state);
+            }
+
+            if (observers)
+                rpp::utils::for_each(*observers, [&](const observer& obs) { obs->on_next(v); });
         }
 
         void on_error(const std::exception_ptr& err)
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index 1553f04..d85fdff 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -94,8 +94,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                state->add_value(v);
-                state->on_next(v);
+                state->on_next_with(v, [&] { state->add_value(v); });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
-- 
2.43.0


From 529914b1a6ef233e24f1635c5c6ae41f7bb0e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 22/40] fix: window_toggle doesn't complete window from closing
 while source sends something to it from another thread

---
 src/rpp/rpp/operators/window_toggle.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index 6177a72..f533114 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -66,6 +66,14 @@ namespace rpp::operators::details
             return itr;
         }
 
+        auto extract_observer(typename decltype(state_t::observers)::const_iterator itr)
+        {
+            auto                         locked_state = get_state_under_lock();
+            decltype(state_t::observers) extracted{};
+            extracted.splice(extracted.cend(), locked_state->observers, itr);
+            return extracted;
+        }
+
     private:
         rpp::utils::value_with_mutex<state_t>     m_state{};
         RPP_NO_UNIQUE_ADDRESS TClosingsSelectorFn m_closings;
@@ -98,11 +106,9 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
-            itr->on_completed();
+            // observer has to be extracted before on_completed: source can send something to it from another thread at the same time
+            state->extract_observer(itr).front().on_completed();
             this_disposable.dispose();
-
-            auto locked_state = state->get_state_under_lock();
-            locked_state->observers.erase(itr);
         }
 
         void set_upstream(const disposable_wrapper& d) const { this_disposable.add(d); }
-- 
2.43.0


From 547aa5aec954f37999ce1fcd466c9a79a6b1c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 23/40] fix: concat doesn't lose/reorder observable obtained
 while another thread finishes draining of queue

---
 src/rpp/rpp/operators/concat.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 6e7562e..d8abe6f 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -51,6 +51,22 @@ namespace rpp::operators::details
 
         std::atomic<ConcatStage>& stage() { return m_stage; }
 
+        /**
+         * @brief Pushes observable to queue if some another observable is in process right now
+         * @return true if pushed, false if there is no any active observable and caller becomes responsible for handling of this observable
+         */
+        bool push_if_busy(const TObservable& observable)
+        {
+            // stage is None only when queue is empty and would be changed to None only under lock. So, pushed observable can't be missed by drain
+            auto        queue   = get_queue();
+            ConcatStage current = ConcatStage::None;
+            if (stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                return false;
+
+            queue->push(observable);
+            return true;
+        }
+
         void drain(rpp::composite_disposable_wrapper refcounted)
         {
             while (!m_disposable->is_disposed())
@@ -58,7 +74,6 @@ namespace rpp::operators::details
                 const auto observable = get_observable();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -104,7 +119,11 @@ namespace rpp::operators::details
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                // has to be changed under lock: see push_if_busy
+                stage().store(ConcatStage::None, std::memory_order::seq_cst);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -183,11 +202,8 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+            if (!base::state->push_if_busy(v))
                 base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
         }
 
         void on_completed() const
-- 
2.43.0


From c55e54d09e02881ee2b3c332caeb8e14cc5e10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 24/40] fix: switch_on_next doesn't forward emission of
 previous observable if switch happened in another thread while it was waiting
 for lock

---
 src/rpp/rpp/operators/switch_on_next.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..4efc52c 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,17 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            // switch to another observable could happen in another thread while this one was waiting for the lock
+            auto observer = m_state->get_observer();
+            if (!is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            auto observer = m_state->get_observer();
+            if (!is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
-- 
2.43.0


From 351cafc58a5e887600b02aa44a6993cb25f7e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 25/40] fix: observe_on doesn't deliver error while worker is
 inside of observer's callback (and doesn't hold mutex during delivery)

---
 src/rpp/rpp/operators/delay.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..b3e6fee 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -112,10 +113,17 @@ namespace rpp::operators::details
         template<typename TT>
         std::optional<rpp::schedulers::time_point> emplace_safe(TT&& item) const
         {
-            std::lock_guard lock{state->mutex};
+            std::unique_lock lock{state->mutex};
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
+                // worker is inside of observer now, so, it has to deliver error right after
+                if (state->is_emitting)
+                {
+                    state->queue.emplace(std::forward<TT>(item), rpp::schedulers::time_point::min());
+                    return std::nullopt;
+                }
+                lock.unlock();
                 state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
@@ -137,6 +145,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +158,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From bb49199bc40c647183d53e91490d1b7fae1dad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 26/40] fix: timeout doesn't use observer moved to fallback
 when value was waiting for lock

---
 src/rpp/rpp/operators/timeout.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..e5b0579 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,9 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            // timeout could be reached (and observer moved to fallback) while waiting for lock
+            if (disposable->is_disposed())
+                return;
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From f38284a41bf61eeb6a66f82bcba16cbd93de4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 27/40] fix: debounce doesn't lose value when on_completed
 overtakes its emission from another thread

---
 src/rpp/rpp/operators/debounce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 6f1de23..a9c7ebf 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -74,12 +74,14 @@ namespace rpp::operators::details
             m_worker.schedule(
                 time_point,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
-                    auto value_or_duration = handler.state->extract_value_or_time();
+                    // observer is locked before extracting of value: on_completed in another thread can't overtake this value
+                    const auto observer          = handler.state->get_observer_under_lock();
+                    auto       value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From 12c3d2d47a2e006a3da97d3b780bf8813a3c1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 28/40] fix: ref_count: subscriber that comes while the last
 reference is released by another thread gets new connection

---
 .../observables/connectable_observable.hpp    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..e748d94 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -51,12 +51,23 @@ namespace rpp::details
     private:
         std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> on_subscribe() const
         {
-            std::unique_lock lock(m_state->mutex);
-            if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
-
-            m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
-            return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+            while (true)
+            {
+                std::unique_lock lock(m_state->mutex);
+                const auto       current = m_state->disposable;
+                if (current.is_disposed())
+                {
+                    m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
+                    return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+                }
+
+                if (rpp::disposable_wrapper ref = current.lock()->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+
+                // the last reference is being released by another thread, this connection can't be used anymore
+                lock.unlock();
+                current.dispose();
+            }
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From a36bfeed7921b70f9a933548df423272b625b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:30 +0000
Subject: [PATCH 29/40] fix: asio strand forwards exception of schedulable to
 its handler instead of io_context::run

---
 .../rppasio/rppasio/schedulers/strand.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index feb6ad8..9b7e3e4 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -52,7 +52,7 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
+                    if (const auto new_duration = invoke(fn, handler, args...))
                         self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
@@ -69,12 +69,26 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
+                    if (const auto new_duration = invoke(fn, handler, args...))
                         self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
         private:
+            template<typename Fn, typename Handler, typename... Args>
+            static auto invoke(Fn& fn, Handler& handler, Args&... args) -> std::decay_t<decltype(fn(handler, args...))>
+            {
+                try
+                {
+                    return fn(handler, args...);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                    return std::nullopt;
+                }
+            }
+
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
             {
-- 
2.43.0


From 22c31aaefdc722628e8040149fda6b7727508e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 30/40] fix: asio strand: delay_from_this_timepoint is counted
 from timepoint of schedulable instead of now

---
 .../rppasio/rppasio/schedulers/strand.hpp         | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index 9b7e3e4..7aff84a 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -47,13 +47,13 @@ namespace rppasio::schedulers
                 if (handler.is_disposed())
                     return;
 
-                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), timepoint = rpp::schedulers::clock_type::now(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
                     current_thread_queue_guard guard{*self};
                     if (const auto new_duration = invoke(fn, handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                        self->defer_with_time(get_next_time(*new_duration, timepoint), std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
@@ -70,7 +70,7 @@ namespace rppasio::schedulers
 
                     current_thread_queue_guard guard{*self};
                     if (const auto new_duration = invoke(fn, handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                        self->defer_with_time(get_next_time(*new_duration, timer->expiry()), std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
@@ -89,6 +89,15 @@ namespace rppasio::schedulers
                 }
             }
 
+            template<typename Delay>
+            static auto get_next_time(const Delay& delay, [[maybe_unused]] rpp::schedulers::time_point current)
+            {
+                if constexpr (std::same_as<Delay, rpp::schedulers::delay_from_this_timepoint>)
+                    return current + delay.value;
+                else
+                    return delay.value;
+            }
+
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
             {
-- 
2.43.0


From dbad52232b40b547a05381677f381728072f2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:08 +0000
Subject: [PATCH 31/40] fix: qt main_thread_scheduler doesn't run schedulable
 before its time (delay is rounded up to milliseconds)

---
 src/extensions/rppqt/rppqt/schedulers/main_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..7c1707f 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -44,7 +44,7 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
                 });
-- 
2.43.0


From 6fa1868a5912b7c77f7986b33753c3c0c3d5a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 32/40] fix: qt main_thread_scheduler: delayed schedulable from
 thread without QT's event dispatcher was lost

---
 .../rppqt/rppqt/schedulers/main_thread.hpp         | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 7c1707f..fd50bc2 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -18,6 +18,7 @@
 #include "rpp/schedulers/fwd.hpp"
 
 #include <QCoreApplication>
+#include <QThread>
 #include <QTimer>
 #include <chrono>
 #include <concepts>
@@ -44,6 +45,19 @@ namespace rppqt::schedulers
                     return;
                 }
 
+                // thread without event dispatcher of QT can't start timers: let thread of application do it
+                if (duration > rpp::schedulers::duration::zero() && QThread::currentThread() != application->thread())
+                {
+                    QMetaObject::invokeMethod(
+                        application,
+                        [timepoint = now() + duration, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                            if (!handler.is_disposed())
+                                defer_for(timepoint - now(), std::move(fn), std::move(handler), std::move(args)...);
+                        },
+                        Qt::QueuedConnection);
+                    return;
+                }
+
                 QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
-- 
2.43.0


From 7455a923d03f505f1d83834fd1bf03b9221ab083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 33/40] fix: qt main_thread_scheduler forwards exception of
 schedulable to its handler instead of event loop of QT

---
 .../rppqt/rppqt/schedulers/main_thread.hpp    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index fd50bc2..a15dd2d 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -67,10 +67,24 @@ namespace rppqt::schedulers
             static rpp::schedulers::time_point now() { return rpp::schedulers::clock_type::now(); }
 
         private:
+            template<typename Fn, typename Handler, typename... Args>
+            static auto call(Fn& fn, Handler& handler, Args&... args) -> std::decay_t<decltype(fn(handler, args...))>
+            {
+                try
+                {
+                    return fn(handler, args...);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                    return std::nullopt;
+                }
+            }
+
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
-                if (const auto new_duration = fn(handler, args...))
+                if (const auto new_duration = call(fn, handler, args...))
                     defer_for(new_duration->value, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
@@ -78,14 +92,14 @@ namespace rppqt::schedulers
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
                 const auto now = rpp::schedulers::clock_type::now();
-                if (const auto new_duration = fn(handler, args...))
+                if (const auto new_duration = call(fn, handler, args...))
                     defer_for(now + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_to_fn<Handler, Args...> Fn>
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
-                if (const auto new_tp = fn(handler, args...))
+                if (const auto new_tp = call(fn, handler, args...))
                     defer_for(new_tp->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
         };
-- 
2.43.0


From b66ea95f40936c7e6c5abeedbdf653a25a544cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:42 +0000
Subject: [PATCH 34/40] fix: qt main_thread_scheduler:
 delay_from_this_timepoint is counted from timepoint of schedulable instead of
 moment of its start

---
 .../rppqt/rppqt/schedulers/main_thread.hpp          | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index a15dd2d..b8a60b5 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -58,9 +58,9 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [timepoint = now() + duration, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
-                        invoke(std::move(fn), std::move(handler), std::move(args)...);
+                        invoke(timepoint, std::move(fn), std::move(handler), std::move(args)...);
                 });
             }
 
@@ -82,22 +82,21 @@ namespace rppqt::schedulers
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke([[maybe_unused]] rpp::schedulers::time_point timepoint, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 if (const auto new_duration = call(fn, handler, args...))
                     defer_for(new_duration->value, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_this_timepoint_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke([[maybe_unused]] rpp::schedulers::time_point timepoint, Fn&& fn, Handler&& handler, Args&&... args)
             {
-                const auto now = rpp::schedulers::clock_type::now();
                 if (const auto new_duration = call(fn, handler, args...))
-                    defer_for(now + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                    defer_for(timepoint + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_to_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke([[maybe_unused]] rpp::schedulers::time_point timepoint, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 if (const auto new_tp = call(fn, handler, args...))
                     defer_for(new_tp->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-- 
2.43.0


From d926f54b0a7906f9c283f689fd412a22ac74daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 35/40] fix: grpc: observable of reactor doesn't get OnCancel's
 error while it is inside of on_next

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..243ce5d 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -136,8 +136,8 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        rpp::subjects::serialized_publish_subject<TData> m_observer; // OnCancel can be called concurrently with OnReadDone
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From da984d91b56e37c691f1c7089a002a5934e97532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 36/40] fix: grpc: status of failed stream is not lost when
 some writes are pending

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 243ce5d..a609a85 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -20,6 +20,7 @@
 
 #include <deque>
 #include <mutex>
+#include <optional>
 
 namespace rppgrpc::details
 {
@@ -57,9 +58,9 @@ namespace rppgrpc::details
             {
                 start_write(m_write.front());
             }
-            else if (m_finished)
+            else if (m_status)
             {
-                finish_writes(grpc::Status::OK);
+                finish_writes(m_status.value());
             }
         }
 
@@ -79,18 +80,18 @@ namespace rppgrpc::details
             void on_error(const std::exception_ptr&) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                    owner.get().finish_writes(owner.get().m_status.value());
             }
             void on_completed() const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_status = grpc::Status::OK;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                    owner.get().finish_writes(owner.get().m_status.value());
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -100,9 +101,9 @@ namespace rppgrpc::details
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex        m_write_mutex{};
-        std::deque<TData> m_write{};
-        bool              m_finished{};
+        std::mutex                  m_write_mutex{};
+        std::deque<TData>           m_write{};
+        std::optional<grpc::Status> m_status{};
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From a0b57b9aab8886f75801fae4a8ecbd990132cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 37/40] fix: grpc: reactor doesn't finish its call twice and
 doesn't use it after its end when values are emitted from another thread

---
 .../rppgrpc/rppgrpc/client_reactor.hpp        |  4 +
 .../rppgrpc/rppgrpc/details/base.hpp          | 92 ++++++++++++++-----
 .../rppgrpc/rppgrpc/server_reactor.hpp        | 10 +-
 3 files changed, 74 insertions(+), 32 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..5f18220 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -73,7 +73,11 @@ namespace rppgrpc
         void OnReadDone(bool ok) override
         {
             if (!ok)
+            {
+                // call can be destroyed after it, so no new writes (while read is outstanding call is alive)
+                details::base_writer<Request>::handle_on_done();
                 return;
+            }
 
             details::base_reader<Response>::handle_read_done();
         }
diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index a609a85..ea86ce4 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -19,6 +19,7 @@
 #include "rpp/subjects/publish_subject.hpp"
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <optional>
 
@@ -30,7 +31,7 @@ namespace rppgrpc::details
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{m_state});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -44,54 +45,98 @@ namespace rppgrpc::details
         virtual void start_write(const TData& v)               = 0;
         virtual void finish_writes(const grpc::Status& status) = 0;
 
+        // no any new operations would be started after it
         void handle_on_done()
         {
             m_subject.get_disposable().dispose();
+
+            std::lock_guard lock{m_state->mutex};
+            m_state->owner = nullptr;
         }
 
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
-            m_write.pop_front();
+            std::lock_guard lock{m_state->mutex};
+            m_state->write.pop_front();
+
+            if (!m_state->owner)
+                return;
 
-            if (!m_write.empty())
+            if (!m_state->write.empty())
             {
-                start_write(m_write.front());
+                start_write(m_state->write.front());
             }
-            else if (m_status)
+            else if (m_state->status)
             {
-                finish_writes(m_status.value());
+                m_state->finish();
             }
         }
 
+        // finish right now without waiting for pending writes
+        void handle_finish(const grpc::Status& status)
+        {
+            m_subject.get_disposable().dispose();
+
+            std::lock_guard lock{m_state->mutex};
+            m_state->status = status;
+            m_state->finish();
+        }
+
+    private:
+        // outlives reactor: emission from another thread can be in progress when reactor is destroyed
+        struct state_t
+        {
+            explicit state_t(base_writer* owner)
+                : owner{owner}
+            {
+            }
+
+            // finish_writes have to be called only once and no any writes are expected after it
+            void finish()
+            {
+                if (const auto v = std::exchange(owner, nullptr))
+                    v->finish_writes(status.value());
+            }
+
+            std::mutex                  mutex{};
+            base_writer*                owner;
+            std::deque<TData>           write{};
+            std::optional<grpc::Status> status{};
+        };
+
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<state_t> state;
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
-                    owner.get().start_write(owner.get().m_write.front());
+                std::lock_guard lock{state->mutex};
+                if (!state->owner)
+                    return;
+
+                state->write.push_back(std::forward<T>(message));
+                if (state->write.size() == 1)
+                    state->owner->start_write(state->write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_status.value());
+                finish(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
             }
+
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_status = grpc::Status::OK;
+                finish(grpc::Status::OK);
+            }
+
+            void finish(const grpc::Status& status) const
+            {
+                std::lock_guard lock{state->mutex};
+                state->status = status;
 
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_status.value());
+                if (state->write.empty())
+                    state->finish();
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -100,10 +145,7 @@ namespace rppgrpc::details
 
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
-
-        std::mutex                  m_write_mutex{};
-        std::deque<TData>           m_write{};
-        std::optional<grpc::Status> m_status{};
+        std::shared_ptr<state_t>                         m_state = std::make_shared<state_t>(this);
     };
 
     template<rpp::constraint::decayed_type TData>
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..0be02dc 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -92,10 +92,8 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_finish(grpc::Status::CANCELLED);
         }
     };
 
@@ -144,7 +142,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::handle_finish(grpc::Status::OK);
                 return;
             }
 
@@ -161,10 +159,8 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_finish(grpc::Status::CANCELLED);
         }
     };
 
-- 
2.43.0


From 2ab3faf5279a53a908e500132ada5a34c85ff58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 38/40] fix: grpc client reactors start first read before call:
 call can be over before it

---
 src/extensions/rppgrpc/rppgrpc/client_reactor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 5f18220..706b538 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -44,8 +44,8 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_writer<Request>::get_observer;
@@ -186,8 +186,8 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_reader<Response>::get_observable;
-- 
2.43.0


From 8a3cb47dc0fc589c57bb62e52478ebf2d2835bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 39/40] fix: disposable_wrapper_impl: inner disposables of
 refcount_disposable get weak reference to themself and are removed from
 parent when disposed

---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 265b577..1936309 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -155,9 +155,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From d191ac222b43f0d9954ef31c43c9c494c041667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 40/40] fix: throttle: value emitted while observer handles
 previous one is throttled too

---
 src/rpp/rpp/operators/throttle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/throttle.hpp b/src/rpp/rpp/operators/throttle.hpp
index bd52d99..db86ed5 100644
--- a/src/rpp/rpp/operators/throttle.hpp
+++ b/src/rpp/rpp/operators/throttle.hpp
@@ -36,8 +36,8 @@ namespace rpp::operators::details
             const auto now = rpp::schedulers::utils::get_worker_t<Scheduler>::now();
             if (!last_emission_time_point || now >= last_emission_time_point.value() + duration)
             {
-                observer.on_next(std::forward<T>(v));
                 last_emission_time_point = now;
+                observer.on_next(std::forward<T>(v));
             }
         }
 
-- 
2.43.0

