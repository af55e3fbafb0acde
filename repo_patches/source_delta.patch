From 104f9a31ac65dcf045e874b1c4fb1386d547c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 01/49] fix: group locks could be granted twice, never, or
 block unrelated tasks

- A task which belongs to several groups took their locks one at a time and
  kept those it had, which deadlocks with a task that waits for one of them
  while having been given another.
- A task at the head of a pool's queue whose lock was not available kept the
  tasks behind it from being tried, even if they could run.
- A waiter that was notified, but lost the race for the token, was never
  notified again.
- The token accounting of the fast path could hand the same place of a group
  to two tasks (GroupLock::lock didn't check the token it took, undoing a
  phantom reservation drained a waiter which didn't have a place).
- Multi-group tasks that were running were counted as waiting, so that the
  free places in groups with a concurrency of two or more were withheld.
---
 docs/explanation/scheduler.md            |  15 +-
 src/threading/scheduler/CombinedLock.cpp |  20 ++
 src/threading/scheduler/CombinedLock.hpp |  12 +
 src/threading/scheduler/Group.cpp        | 321 ++++++++---------------
 src/threading/scheduler/Group.hpp        |  56 ++--
 src/threading/scheduler/Lock.cpp         |   6 +
 src/threading/scheduler/Lock.hpp         |  16 ++
 src/threading/scheduler/Pool.cpp         |  63 +++--
 src/threading/scheduler/Pool.hpp         |  13 +-
 src/threading/scheduler/Scheduler.cpp    |   3 +
 10 files changed, 266 insertions(+), 259 deletions(-)

diff --git a/docs/explanation/scheduler.md b/docs/explanation/scheduler.md
index 3d14a8e..f4d2391 100644
--- a/docs/explanation/scheduler.md
+++ b/docs/explanation/scheduler.md
@@ -221,19 +221,17 @@ For these, `Group::try_submit()`:
 
 1. Tries to decrement `tokens` with a compare-exchange.
 1. On success, submits to the pool immediately with a `RunningLock` that calls `release_token()` on destruction.
-1. On failure, **parks** the task in priority-ordered waiter buckets via `park_publish()` / `park_reconcile()`.
+1. On failure, **parks** the task in priority-ordered waiter buckets, which are protected by the group's mutex, and looks for a token once more.
 
-The token counter can go **negative** when waiters reserve slots they have not yet consumed.
-This signed counter, combined with per-waiter **arbiter slots** (`atomic<bool>`), ensures no lost wakeups and exact accounting when multiple waiters race with draining threads.
-
-When a running task finishes, `release_token()` increments `tokens` and drains at most one parked waiter into the pool — keeping running count bounded by the group's concurrency.
+When a running task finishes, `release_token()` increments `tokens` and, if there is anything waiting, hands the free tokens to parked waiters by submitting them to their pools.
 
 ### Multi-group slow path
 
 Tasks bound to multiple groups (`Sync<A>` and `Sync<B>`, etc.) use `CombinedLock`: each group gets a `GroupLock` backed by a mutex-protected sorted queue.
-`slow_pending` on each group prevents fast-path submitters from jumping ahead of older multi-group waiters.
+`slow_pending` counts the multi-group tasks which are still waiting for a token of the group.
+That many tokens are kept back from the fast path, so that single-group tasks can't jump ahead of older multi-group waiters.
 
-When a `GroupLock` is released, the group may drain a fast-path waiter even if slow-path waiters exist, if the pre-release token count indicates a committed fast waiter is owed a slot — avoiding deadlocks between fast and slow paths.
+A multi-group task only takes tokens when all of its groups have one available, as keeping some of them while waiting for the others can deadlock.
 
 ### External waiters
 
@@ -244,7 +242,8 @@ If idle reactions are registered for that pool (or globally), a `pending_idle` l
 
 ### Slow-path locks in the pool
 
-Tasks submitted with a `GroupLock` (slow path) or dequeued before their lock is acquirable are re-enqueued and the worker waits on the condition variable until `notify()` runs from lock release.
+Tasks submitted with a `GroupLock` (slow path) whose locks can't be acquired when they are dequeued are set aside, so that they don't hold up the tasks behind them.
+They are tried again, before newer tasks of the same priority, when `notify()` runs from lock release.
 
 ## Idle tasks and shutdown
 
diff --git a/src/threading/scheduler/CombinedLock.cpp b/src/threading/scheduler/CombinedLock.cpp
index 263195b..66035b2 100644
--- a/src/threading/scheduler/CombinedLock.cpp
+++ b/src/threading/scheduler/CombinedLock.cpp
@@ -35,6 +35,11 @@ namespace threading {
         }
 
         bool CombinedLock::lock() {
+            // Don't take any of the locks unless all of them are available. Keeping some of them while waiting for
+            // another one can deadlock, as the holder of that one may be waiting for the locks that we would keep.
+            if (!available()) {
+                return false;
+            }
             for (auto& lock : locks) {
                 if (!lock->lock()) {
                     return false;
@@ -43,6 +48,21 @@ namespace threading {
             return true;
         }
 
+        bool CombinedLock::available() {
+            for (auto& lock : locks) {
+                if (!lock->available()) {
+                    return false;
+                }
+            }
+            return true;
+        }
+
+        void CombinedLock::unlock() {
+            for (auto& lock : locks) {
+                lock->unlock();
+            }
+        }
+
         void CombinedLock::add(std::unique_ptr<Lock>&& lock) {
             locks.push_back(std::move(lock));
         }
diff --git a/src/threading/scheduler/CombinedLock.hpp b/src/threading/scheduler/CombinedLock.hpp
index b1ed515..d7042b9 100644
--- a/src/threading/scheduler/CombinedLock.hpp
+++ b/src/threading/scheduler/CombinedLock.hpp
@@ -54,6 +54,18 @@ namespace threading {
              */
             bool lock() override;
 
+            /**
+             * Returns if all of the component locks are available.
+             *
+             * @return true if all of the component locks are available, false otherwise.
+             */
+            bool available() override;
+
+            /**
+             * Gives back those component locks that were acquired.
+             */
+            void unlock() override;
+
             /**
              * Adds a new lock to the combined lock.
              *
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..a66bdb6 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -59,99 +59,68 @@ namespace threading {
             : group(group), handle(std::move(handle)) {}
 
         Group::GroupLock::~GroupLock() {
-            std::vector<std::shared_ptr<LockHandle>> to_notify;
-            bool removed_from_queue = false;
-            bool was_locked         = false;
-            int prev_tokens         = 0;
-
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(group.mutex);
                 if (handle->locked) {
                     handle->locked = false;
-                    prev_tokens    = group.tokens.fetch_add(1, std::memory_order_acq_rel);
-                    was_locked     = true;
+                    group.tokens.fetch_add(1);
+                }
+                else {
+                    // This waiter never got its token, so the one kept back for it is free for others
+                    group.slow_pending.fetch_sub(1);
                 }
 
                 auto it = std::find(group.queue.begin(), group.queue.end(), handle);
                 if (it != group.queue.end()) {
                     group.queue.erase(it);
-                    removed_from_queue = true;
-                }
-
-                int free_tokens = group.tokens.load(std::memory_order_relaxed);
-                for (const auto& h : group.queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
-                    }
-                }
-            }
-
-            if (removed_from_queue) {
-                group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
-            }
-
-            for (const auto& h : to_notify) {
-                h->notify();
-            }
-
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
-            if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
                 }
-                return;
             }
+            group.dispatch();
+        }
 
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-            }
+        bool Group::GroupLock::available() {
+            const std::lock_guard<std::mutex> lock(group.mutex);
+            return handle->locked || group.is_available(handle);
         }
 
         bool Group::GroupLock::lock() {
+            const std::lock_guard<std::mutex> lock(group.mutex);
+
             if (handle->locked) {
                 return true;
             }
+            if (!group.is_available(handle)) {
+                return false;
+            }
 
-            const std::lock_guard<std::mutex> lock(group.mutex);
-
-            int free = group.tokens.load(std::memory_order_relaxed);
-            for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
-
-                if (free < 0) {
-                    return false;
-                }
-                if (h == handle) {
+            // The fast path does not use the mutex, so it may still take the token before we do
+            int expected = group.tokens.load();
+            while (expected > 0) {
+                if (group.tokens.compare_exchange_weak(expected, expected - 1)) {
                     handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
+                    group.slow_pending.fetch_sub(1);
                     return true;
                 }
             }
 
+            // When the token that was taken is released we need to be notified again
+            handle->notified = false;
             return false;
         }
 
+        void Group::GroupLock::unlock() {
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(group.mutex);
+                if (!handle->locked) {
+                    return;
+                }
+                handle->locked = false;
+                group.slow_pending.fetch_add(1);
+                group.tokens.fetch_add(1);
+            }
+            group.dispatch();
+        }
+
         Group::Group(std::shared_ptr<const util::GroupDescriptor> descriptor)
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
@@ -166,177 +135,114 @@ namespace threading {
             }
         }
 
-        std::unique_ptr<Lock> Group::try_acquire_running_lock() {
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                return nullptr;
-            }
-            int expected = tokens.load(std::memory_order_acquire);
-            while (expected > 0) {
-                if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        // A multi-group waiter slipped in; restore the token and back off.
-                        release_token();
-                        return nullptr;
-                    }
-                    return make_running_lock();
-                }
-            }
-            return nullptr;
-        }
-
-        bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
-                    }
+        bool Group::take_token() noexcept {
+            int expected = tokens.load();
+            // Don't jump ahead of multi-group waiters, the tokens they are waiting for are kept back for them
+            while (expected > slow_pending.load()) {
+                if (tokens.compare_exchange_weak(expected, expected - 1)) {
+                    return true;
                 }
             }
-
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
             return false;
         }
 
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
-            const std::size_t bucket = queue::priority_index(task->priority);
-            ExternalWaiterRegistration external_waiter;
-            if (pool != nullptr) {
-                external_waiter = pool->register_external_waiter();
-            }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
+        std::unique_ptr<Lock> Group::try_acquire_running_lock() {
+            return take_token() ? make_running_lock() : nullptr;
         }
 
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
+        bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
+            // Don't jump ahead of tasks that are already waiting
+            if (parked.load() == 0 && take_token()) {
+                pool->submit({std::move(task), make_running_lock()}, clear_idle);
+                return true;
             }
 
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
+            const std::size_t bucket = queue::priority_index(task->priority);
+            WaitEntry entry{std::move(task), pool, clear_idle, ExternalWaiterRegistration{}};
+            if (pool != nullptr) {
+                // The destination pool's "pending idle" latch is set by this, it also notifies one waiting worker so a
+                // pool that is parked on its condition variable can act on the latch immediately.
+                // See Pool::register_external_waiter and Pool::get_task for the full mechanism (it preserves the
+                // invariant that a parked waiter always triggers exactly one idle fire on its destination pool, even
+                // when the worker is preempted past the natural idle window).
+                entry.external_waiter = pool->register_external_waiter();
             }
-
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                wait_buckets[bucket].enqueue(std::move(entry));
+                parked.fetch_add(1);
             }
 
-            // The destination pool's "pending idle" latch was set by register_external_waiter
-            // above; that path also notifies one waiting worker so a pool that is parked on its
-            // condition variable can act on the latch immediately. See Pool::register_external_waiter
-            // and Pool::get_task for the full mechanism (it preserves the OLD scheduler's invariant
-            // that a parked waiter always triggered exactly one idle fire on its destination pool,
-            // even when the worker is preempted past the natural idle window).
+            // A token may have been released before we were counted as parked, in which case nobody else will do this
+            dispatch();
+            return false;
         }
 
         void Group::release_token() noexcept {
-            const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
-
-            // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
-            // That waiter committed before any slow waiter and now owns the slot we just freed, so it
-            // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
-            if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
+            tokens.fetch_add(1);
 
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                notify_slow_path();
-                return;
-            }
-
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
+            // Both a parking task and a slow-path waiter count themselves before they look for a token, so either we
+            // see them here or they see the token that was just released.
+            if (parked.load() > 0 || slow_pending.load() > 0) {
+                dispatch();
             }
         }
 
-        void Group::notify_slow_path() noexcept {
+        void Group::dispatch() noexcept {
+            std::vector<WaitEntry> runnable;
             std::vector<std::shared_ptr<LockHandle>> to_notify;
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(mutex);
-                int free_tokens = tokens.load(std::memory_order_relaxed);
-                for (const auto& h : queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
+                to_notify = collect_slow_path();
+                while (parked.load() > 0 && take_token()) {
+                    WaitEntry entry;
+                    for (auto& bucket : wait_buckets) {
+                        if (bucket.try_dequeue(entry)) {
+                            break;
+                        }
                     }
+                    parked.fetch_sub(1);
+                    runnable.push_back(std::move(entry));
                 }
             }
+
+            // These use the mutexes of the pools, which are held when locks are locked
             for (const auto& h : to_notify) {
                 h->notify();
             }
+            for (auto& entry : runnable) {
+                entry.pool->submit({std::move(entry.task), make_running_lock()}, entry.clear_idle, /*force=*/true);
+            }
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
-            WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
-                    Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
+        bool Group::is_available(const std::shared_ptr<LockHandle>& handle) const {
+            int free = tokens.load();
+            for (const auto& h : queue) {
+                free -= h->locked ? 0 : 1;
+                if (free < 0) {
+                    break;
+                }
+                if (h == handle) {
+                    return true;
+                }
+            }
+
+            // We have to be notified (again) when this changes
+            handle->notified = false;
+            return false;
+        }
+
+        std::vector<std::shared_ptr<Group::LockHandle>> Group::collect_slow_path() const {
+            std::vector<std::shared_ptr<LockHandle>> to_notify;
+            int free_tokens = tokens.load();
+            for (const auto& h : queue) {
+                free_tokens -= h->locked ? 0 : 1;
+                if (free_tokens >= 0 && !h->locked && !h->notified) {
+                    h->notified = true;
+                    to_notify.push_back(h);
                 }
             }
-            return {};
+            return to_notify;
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
@@ -349,12 +255,11 @@ namespace threading {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
-            slow_pending.fetch_add(1, std::memory_order_acq_rel);
-
             const std::lock_guard<std::mutex> lock(mutex);
+            slow_pending.fetch_add(1);
             queue.insert(std::lower_bound(queue.begin(), queue.end(), handle), handle);
 
-            int free = tokens.load(std::memory_order_relaxed);
+            int free = tokens.load();
             for (const auto& h : queue) {
                 free -= h->locked ? 0 : 1;
                 if (free < 0) {
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..e5e505a 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -50,7 +50,8 @@ namespace threading {
          * They are identified by having a common group id along with a maximum concurrency.
          * This class holds the structures that manage the group.
          *
-         * Tasks submitted through the scheduler fast path use lock-free waiter buckets.
+         * Tasks submitted through the scheduler fast path take a token without locking if one is free, and wait in buckets
+         * ordered by priority otherwise.
          * The lock() API uses a mutex-protected sorted queue for multi-group and unit-test use.
          */
         class Group : public std::enable_shared_from_this<Group> {
@@ -63,26 +64,10 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -183,6 +168,20 @@ namespace threading {
                  */
                 bool lock() override;
 
+                /**
+                 * Check if the group could be locked for this task, without changing anything if it can.
+                 *
+                 * If it cannot, this task will be notified when that changes.
+                 *
+                 * @return true if the lock could be obtained at the moment
+                 */
+                bool available() override;
+
+                /**
+                 * Give back the lock on the group, but keep waiting for it.
+                 */
+                void unlock() override;
+
             private:
                 /// The group this lock is for
                 Group& group;
@@ -255,23 +254,28 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
+            /// Take a token if there are more than the slow-path waiters need
+            bool take_token() noexcept;
             void release_token() noexcept;
-            void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+            /// Notify slow-path waiters that can lock and submit parked tasks for which there are tokens.
+            /// Must be called, without holding any mutexes, after making tokens available.
+            void dispatch() noexcept;
+            /// Check if a slow-path waiter could take a token. Must be called with the mutex held
+            bool is_available(const std::shared_ptr<LockHandle>& handle) const;
+            /// Mark and return the slow-path waiters that need to be notified. Must be called with the mutex held
+            std::vector<std::shared_ptr<LockHandle>> collect_slow_path() const;
             std::unique_ptr<Lock> make_running_lock();
 
-            /// Available group tokens (signed when waiters are queued on the fast path)
+            /// Available group tokens
             std::atomic<int> tokens;
             /// Number of unsatisfied slow-path waiters
             std::atomic<int> slow_pending{0};
-            /// Lock-free wait queues keyed by priority
+            /// Number of waiters in the wait queues
+            std::atomic<int> parked{0};
+            /// Wait queues keyed by priority, protected by the mutex
             std::array<queue::TaskQueue<WaitEntry>, queue::PRIORITY_BUCKETS> wait_buckets;
 
-            /// The mutex which protects the slow-path queue
+            /// The mutex which protects the wait queues and the slow-path queue
             std::mutex mutex;
             /// The queue of tasks for the slow path
             std::vector<std::shared_ptr<LockHandle>> queue;
diff --git a/src/threading/scheduler/Lock.cpp b/src/threading/scheduler/Lock.cpp
index 0edb857..56d2b40 100644
--- a/src/threading/scheduler/Lock.cpp
+++ b/src/threading/scheduler/Lock.cpp
@@ -29,6 +29,12 @@ namespace threading {
             return true;
         }
 
+        bool Lock::available() {
+            return true;
+        }
+
+        void Lock::unlock() {}
+
     }  // namespace scheduler
 }  // namespace threading
 }  // namespace NUClear
diff --git a/src/threading/scheduler/Lock.hpp b/src/threading/scheduler/Lock.hpp
index 5f73765..6583aa8 100644
--- a/src/threading/scheduler/Lock.hpp
+++ b/src/threading/scheduler/Lock.hpp
@@ -48,9 +48,25 @@ namespace threading {
              * Returns the current status of the lock, potentially attempting to acquire it.
              * This function must be non blocking.
              *
+             * If this fails then unlock must be called before waiting to try again, as part of the lock may be held.
+             *
              * @return True if the lock was successfully acquired, false otherwise.
              */
             virtual bool lock();
+
+            /**
+             * Returns if the lock could be acquired at the moment, without acquiring it.
+             * This function must be non blocking.
+             *
+             * @return True if the lock is available, false otherwise.
+             */
+            virtual bool available();
+
+            /**
+             * Gives back what was acquired by lock, keeping the place in line for it.
+             * As this may notify others that are waiting, no mutex that they need may be held when calling this.
+             */
+            virtual void unlock();
         };
 
     }  // namespace scheduler
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 697fc64..8645c27 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -24,6 +24,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cstddef>
+#include <iterator>
 #include <memory>
 #include <mutex>
 #include <set>
@@ -302,15 +303,45 @@ namespace threading {
 
         bool Pool::try_dequeue_task(Task& out) {
             for (std::size_t i = 0; i < queue::PRIORITY_BUCKETS; ++i) {
-                if (buckets[i]->try_dequeue(out)) {
+                // Tasks that were found to be blocked before come first as they are older
+                auto& waiting = blocked[i];
+                auto it       = std::find_if(waiting.begin(), waiting.end(), [](const Task& task) {
+                    return task.lock->available();
+                });
+                if (it != waiting.end()) {
+                    out = std::move(*it);
+                    waiting.erase(it);
                     pending_tasks.fetch_sub(1, std::memory_order_release);
                     return true;
                 }
+
+                while (buckets[i]->try_dequeue(out)) {
+                    if (out.lock == nullptr || out.lock->available()) {
+                        pending_tasks.fetch_sub(1, std::memory_order_release);
+                        return true;
+                    }
+                    // Tasks which can't run yet must not hold up the tasks behind them
+                    waiting.push_back(std::move(out));
+                }
             }
             return false;
         }
 
-        void Pool::drain_queues(std::vector<Task>& out) const {
+        void Pool::update_blocked_active() {
+            const bool any = std::any_of(blocked.begin(), blocked.end(), [](const auto& b) { return !b.empty(); });
+            if (!any || !descriptor->counts_for_idle) {
+                blocked_active = nullptr;
+            }
+            else if (blocked_active == nullptr) {
+                blocked_active = std::make_unique<CountingLock>(active, 1);
+            }
+        }
+
+        void Pool::drain_queues(std::vector<Task>& out) {
+            for (auto& waiting : blocked) {
+                std::move(waiting.begin(), waiting.end(), std::back_inserter(out));
+                waiting.clear();
+            }
             Task task;
             for (const auto& bucket : buckets) {
                 while (bucket->try_dequeue(task)) {
@@ -398,32 +429,34 @@ namespace threading {
                     }
                 }
 
-                bool got = false;
                 if (live) {
                     Task task;
-                    got = try_dequeue_task(task);
-                    if (got) {
+                    if (try_dequeue_task(task)) {
                         if (task.lock == nullptr || task.lock->lock()) {
                             thread_idle[std::this_thread::get_id()] = nullptr;
                             pool_idle                               = nullptr;
+                            update_blocked_active();
                             return task;
                         }
-                        // The task was dequeued but its lock isn't acquirable. Re-enqueue and
-                        // wait for someone to notify us when the lock state changes.
+
+                        // Another task took the lock in the meantime. Give back what was acquired, as that can hand
+                        // tasks to pools (including this one) the mutex must not be held, and try again.
+                        lock.unlock();
+                        task.lock->unlock();
+                        lock.lock();
                         const std::size_t bucket = queue::priority_index(task.task->priority);
                         pending_tasks.fetch_add(1, std::memory_order_release);
-                        buckets[bucket]->enqueue(std::move(task));
+                        blocked[bucket].push_back(std::move(task));
+                        continue;
                     }
                 }
                 live = false;
 
-                // Only account for idle when we genuinely found nothing; threads whose locks
-                // fail are not idle, they are blocked waiting for the lock state to change.
-                if (!got) {
-                    auto idle_task = get_idle_task();
-                    if (idle_task.task != nullptr) {
-                        return idle_task;
-                    }
+                // The pool isn't idle while it has tasks which are blocked waiting for the state of their locks to change.
+                update_blocked_active();
+                auto idle_task = get_idle_task();
+                if (idle_task.task != nullptr) {
+                    return idle_task;
                 }
 
                 condition.wait(lock, [this] {
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index b2004fb..728f88a 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -241,7 +241,12 @@ namespace threading {
              *
              * @param out the drained tasks (destruction deferred by the caller)
              */
-            void drain_queues(std::vector<Task>& out) const;
+            void drain_queues(std::vector<Task>& out);
+
+            /**
+             * Make the pool count as active while there are tasks whose locks can't be acquired at the moment.
+             */
+            void update_blocked_active();
 
             /**
              * Get an idle task to execute or hold.
@@ -314,7 +319,9 @@ namespace threading {
             /// known to be single-consumer, e.g. MainThread or the Trace pool). The choice
             /// is made at construction based on `descriptor->concurrency`.
             std::array<std::unique_ptr<queue::Queue<Task>>, queue::PRIORITY_BUCKETS> buckets;
-            /// Number of tasks submitted but not yet dequeued
+            /// Tasks which have been taken from the queues but whose locks could not be acquired yet, protected by the mutex
+            std::array<std::vector<Task>, queue::PRIORITY_BUCKETS> blocked;
+            /// Number of tasks submitted but not yet dequeued (including those that are blocked)
             std::atomic<std::size_t> pending_tasks{0};
             /// Number of tasks parked outside the pool (e.g. waiting on a Group token) that point at this pool
             std::atomic<std::size_t> external_waiters{0};
@@ -362,6 +369,8 @@ namespace threading {
 
             /// The number of active threads in this pool
             std::atomic<int> active{0};
+            /// Counts as an active thread for as long as there are blocked tasks
+            std::unique_ptr<Lock> blocked_active;
             /// The idle tasks for this pool
             std::vector<std::shared_ptr<Reaction>> idle_tasks;
 
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 1419dfe..aca2d45 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -271,6 +271,9 @@ namespace threading {
                 task->run();
             }
             else {
+                if (group_lock != nullptr) {
+                    group_lock->unlock();
+                }
                 pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
             }
         }
-- 
2.43.0


From 5459c964fc0f58d4020137a0da6f73a392c11620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 02/49] fix: binding and unbinding reactions raced with emits
 of their type

The list of reactions for a type was changed by on<...>() and unbind() (which
Once does on a pool thread) while other threads were going through it to emit,
and an inline reaction could change it under the emit which runs it. Emits now
use a snapshot of the list, which is replaced when it changes.
---
 docs/explanation/message-flow.md         |  5 +-
 docs/reference/extensions/data-stores.md |  3 +-
 src/dsl/operation/TypeBind.hpp           | 15 +-----
 src/dsl/word/emit/Inline.hpp             |  3 +-
 src/dsl/word/emit/Local.hpp              |  3 +-
 src/util/TypeList.hpp                    | 58 ++++++++++++++++++++++--
 6 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/docs/explanation/message-flow.md b/docs/explanation/message-flow.md
index 5e276c3..0c014fd 100644
--- a/docs/explanation/message-flow.md
+++ b/docs/explanation/message-flow.md
@@ -38,11 +38,12 @@ Here's what happens inside `Local::emit`:
 ### 1. Iterate Registered Reactions
 
 ```cpp
-for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+const auto reactions = store::TypeCallbackStore<DataType>::get();
+for (const auto& reaction : *reactions) {
 ```
 
 The `TypeCallbackStore<T>` holds every reaction that was registered with [`Trigger`](../reference/dsl/trigger.md)`<T>` (or a related word).
-This lookup is O(1) — it's a static vector per type.
+This lookup is O(1) — it's a static list per type, of which the emit uses a snapshot so that reactions can be bound and unbound meanwhile.
 
 ### 2. Set ThreadStore (Thread-Local Pointer)
 
diff --git a/docs/reference/extensions/data-stores.md b/docs/reference/extensions/data-stores.md
index 0104219..d1e2750 100644
--- a/docs/reference/extensions/data-stores.md
+++ b/docs/reference/extensions/data-stores.md
@@ -117,7 +117,8 @@ When data of that type is emitted, the emit handler iterates this store and crea
 TypeCallbackStore<T>::add(reaction);
 
 // During emit
-for (auto& reaction : TypeCallbackStore<T>::get()) {
+const auto reactions = TypeCallbackStore<T>::get();
+for (const auto& reaction : *reactions) {
     // Create and submit a task for this reaction
 }
 ```
diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..f2f42a0 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -23,8 +23,6 @@
 #ifndef NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 #define NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 
-#include <algorithm>
-
 #include "../store/TypeCallbackStore.hpp"
 
 namespace NUClear {
@@ -68,21 +66,12 @@ namespace dsl {
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
+                    store::TypeCallbackStore<DataType>::remove_if(
                         [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
-                    // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::add(reaction);
             }
         };
 
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..a9cd1ec 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -58,7 +58,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
                         // Set our thread local store data each time (as during inline it can be overwritten)
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
                         powerplant.submit(reaction->get_task(true));
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..862c368 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -53,7 +53,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
 
                         // Set our thread local store data
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
diff --git a/src/util/TypeList.hpp b/src/util/TypeList.hpp
index 8473c55..6e3e4ae 100644
--- a/src/util/TypeList.hpp
+++ b/src/util/TypeList.hpp
@@ -25,6 +25,10 @@
 
 #include <memory>
 #include <mutex>
+#include <algorithm>
+#include <memory>
+#include <mutex>
+#include <utility>
 #include <vector>
 
 namespace NUClear {
@@ -43,22 +47,68 @@ namespace util {
 
     private:
         /// The data variable where the data is stored for this map key
-        static std::vector<Value> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        static std::shared_ptr<const std::vector<Value>>
+            data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// The mutex that protects the data variable
+        static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     public:
         /**
          * Gets the list that is stored in this type location.
          *
-         * @return A reference to the vector stored in this location
+         * The list that is returned is a snapshot, adding and removing elements does not change it.
+         * It is therefore safe to go through it while other threads (or the code called for its elements) do so.
+         *
+         * @return A pointer to the vector stored in this location
          */
-        static std::vector<Value>& get() {
+        static std::shared_ptr<const std::vector<Value>> get() {
+            const std::lock_guard<std::mutex> lock(mutex);
+            if (data == nullptr) {
+                data = std::make_shared<const std::vector<Value>>();
+            }
             return data;
         }
+
+        /**
+         * Adds an element to the end of the list that is stored in this type location.
+         *
+         * @param value The element to add
+         */
+        static void add(const Value& value) {
+            const std::lock_guard<std::mutex> lock(mutex);
+            auto copy = data == nullptr ? std::make_shared<std::vector<Value>>()
+                                        : std::make_shared<std::vector<Value>>(*data);
+            copy->push_back(value);
+            data = std::move(copy);
+        }
+
+        /**
+         * Removes the elements for which the predicate holds from the list that is stored in this type location.
+         *
+         * @param predicate The predicate that is called for each of the elements
+         */
+        template <typename Predicate>
+        static void remove_if(const Predicate& predicate) {
+            // Make sure that the elements are destroyed without the mutex
+            std::shared_ptr<const std::vector<Value>> old;
+            const std::lock_guard<std::mutex> lock(mutex);
+            if (data == nullptr) {
+                return;
+            }
+            auto copy = std::make_shared<std::vector<Value>>(*data);
+            copy->erase(std::remove_if(copy->begin(), copy->end(), predicate), copy->end());
+            old  = std::move(data);
+            data = std::move(copy);
+        }
     };
 
     /// Initialize our type list data
     template <typename MapID, typename Key, typename Value>
-    std::vector<Value> TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+    std::shared_ptr<const std::vector<Value>> TypeList<MapID, Key, Value>::data;
+    template <typename MapID, typename Key, typename Value>
+    // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+    std::mutex TypeList<MapID, Key, Value>::mutex;
 
 }  // namespace util
 }  // namespace NUClear
-- 
2.43.0


From 10f93db253657674df491caf591731e8118d2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 03/49] fix: reactions bound from several threads corrupted
 their reactor's list of handles

---
 src/Reactor.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index f90a464..c68fca0 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string>
 #include <tuple>
@@ -185,7 +186,10 @@ public:
     }
 
 private:
+    /// The handles of the reactions that have been bound by this reactor
     std::vector<threading::ReactionHandle> reaction_handles;
+    /// Protects the reaction handles
+    std::mutex reaction_handles_mutex;
 
 public:
     /// The powerplant that this reactor is running in
@@ -381,7 +385,11 @@ public:
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
             auto handle = threading::ReactionHandle(reaction);
-            reactor.reaction_handles.push_back(handle);
+            /* Mutex Scope */ {
+                // Reactions can be bound from any thread
+                const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
+                reactor.reaction_handles.push_back(handle);
+            }
 
             // Return the arguments to the user (if there is only 1 we unwrap it for them since this is the most common
             // case)
-- 
2.43.0


From 1f83beba7482b8fd5dbb542ff52b1075a07581ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 04/49] fix: Buffer, Single and Once counted tasks that were
 being rejected and could run Once twice

---
 src/dsl/word/Buffer.hpp        |  4 ++--
 src/dsl/word/Once.hpp          |  7 +++++++
 src/threading/Reaction.cpp     |  7 +++++--
 src/threading/Reaction.hpp     |  3 +++
 src/threading/ReactionTask.cpp | 22 +++++++++++++++++++++-
 src/threading/ReactionTask.hpp | 21 +++++++++++++++------
 src/util/CallbackGenerator.hpp |  3 +++
 7 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/src/dsl/word/Buffer.hpp b/src/dsl/word/Buffer.hpp
index 8cf395a..d979170 100644
--- a/src/dsl/word/Buffer.hpp
+++ b/src/dsl/word/Buffer.hpp
@@ -47,9 +47,9 @@ namespace dsl {
         struct Buffer {
 
             template <typename DSL>
-            static bool precondition(const threading::ReactionTask& task) {
+            static bool precondition(threading::ReactionTask& task) {
                 // We only run if there are less than the target number of active tasks
-                return task.parent->active_tasks.load(std::memory_order_acquire) < (n + 1);
+                return task.activate(n);
             }
         };
 
diff --git a/src/dsl/word/Once.hpp b/src/dsl/word/Once.hpp
index 7699971..7ac0f57 100644
--- a/src/dsl/word/Once.hpp
+++ b/src/dsl/word/Once.hpp
@@ -39,6 +39,13 @@ namespace dsl {
          */
         struct Once : Single {
 
+            // This must only run if it has not run before, which may have happened since it was triggered
+            template <typename DSL>
+            static bool precondition(threading::ReactionTask& task) {
+                // Check this last, the task that ran before is active until after it has unbound the reaction
+                return Single::template precondition<DSL>(task) && !task.parent->unbound;
+            }
+
             // Post condition to unbind this reaction.
             template <typename DSL>
             static void post_run(threading::ReactionTask& task) {
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..0984510 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -41,8 +41,8 @@ namespace threading {
     Reaction::~Reaction() = default;
 
     std::unique_ptr<ReactionTask> Reaction::get_task(const bool& request_inline) {
-        // If we are not enabled, don't run
-        if (!enabled) {
+        // If we are not enabled (any more), don't run
+        if (!enabled || unbound) {
             return nullptr;
         }
 
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // Nothing that is triggered from here on may run
+        unbound = true;
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fc8eec2..0f9a3f1 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -122,6 +122,9 @@ namespace threading {
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
+        /// if this reaction has been unbound, which cannot be reversed
+        std::atomic<bool> unbound{false};
+
         /// list of functions to use to unbind the reaction and clean
         std::vector<std::function<void(Reaction&)>> unbinders;
 
diff --git a/src/threading/ReactionTask.cpp b/src/threading/ReactionTask.cpp
index 5e3eddf..db13d3b 100644
--- a/src/threading/ReactionTask.cpp
+++ b/src/threading/ReactionTask.cpp
@@ -40,11 +40,31 @@ namespace threading {
 
     ReactionTask::~ReactionTask() {
         // Decrement the number of active tasks
-        if (parent != nullptr) {
+        if (active) {
             parent->active_tasks.fetch_sub(1, std::memory_order_release);
         }
     }
 
+    bool ReactionTask::activate(const int& limit) {
+        if (parent == nullptr) {
+            return true;
+        }
+
+        int count = parent->active_tasks.load(std::memory_order_acquire);
+        if (active) {
+            return count <= limit;
+        }
+        // Checking the limit and counting must be a single step, otherwise tasks that are being created at the same time
+        // could all be rejected (or accepted) because of each other
+        while (count < limit) {
+            if (parent->active_tasks.compare_exchange_weak(count, count + 1, std::memory_order_acq_rel)) {
+                active = true;
+                return true;
+            }
+        }
+        return false;
+    }
+
     void ReactionTask::run() noexcept {
         // Update the current task
         auto* t = std::exchange(current_task, this);
diff --git a/src/threading/ReactionTask.hpp b/src/threading/ReactionTask.hpp
index b559d0c..a016459 100644
--- a/src/threading/ReactionTask.hpp
+++ b/src/threading/ReactionTask.hpp
@@ -24,6 +24,7 @@
 #define NUCLEAR_THREADING_REACTION_TASK_HPP
 
 #include <functional>
+#include <limits>
 #include <memory>
 #include <set>
 
@@ -89,11 +90,6 @@ namespace threading {
             , pool_descriptor(thread_pool_fn(*this))
             , group_descriptors(groups_fn(*this))
             , statistics(make_statistics()) {
-            // Increment the number of active tasks
-            if (parent != nullptr) {
-                parent->active_tasks.fetch_add(1, std::memory_order_release);
-            }
-
             // Calculate inline running
             switch (should_inline) {
                 case util::Inline::NEVER: run_inline = false; break;
@@ -111,10 +107,21 @@ namespace threading {
         /**
          * Destructor for the ReactionTask object.
          *
-         * This will decrement the active_tasks counter on the parent Reaction object.
+         * This will decrement the active_tasks counter on the parent Reaction object if this task was counted by it.
          */
         ~ReactionTask();
 
+        /**
+         * Count this task as one of the active tasks of its reaction, unless that has reached its limit.
+         *
+         * A task that has already been counted takes part in the count that is compared to the limit.
+         *
+         * @param limit the number of active tasks that the reaction may have, including this one
+         *
+         * @return true if this task is now counted and the limit has not been exceeded
+         */
+        bool activate(const int& limit = std::numeric_limits<int>::max());
+
         /**
          * Runs the internal data bound task.
          */
@@ -133,6 +140,8 @@ namespace threading {
         NUClear::id_t id;
         /// If the task should execute inline
         bool run_inline{false};
+        /// If the task is counted in the active_tasks of its parent
+        bool active{false};
 
         /// The priority to run this task at
         int priority;
diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 93ada18..97e65d9 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -93,6 +93,9 @@ namespace util {
                 return nullptr;
             }
 
+            // From here on this is one of the active tasks of the reaction
+            task->activate();
+
             // Bind our data to a variable (this will run in the dispatching thread)
             auto data = DSL::get(*task);
 
-- 
2.43.0


From 8d1a30403dceecd3463c599c438a209a7f9b87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 05/49] fix: IO events were not masked while they were
 processed for descriptors lower than the notifier's

---
 src/extension/IOController_Posix.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index b53910d..5ca9770 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -113,6 +113,9 @@ namespace extension {
             }
         }
 
+        // Events are masked by searching this list, our notify fd is not always the lowest
+        std::sort(watches.begin(), watches.end(), [](const pollfd& a, const pollfd& b) { return a.fd < b.fd; });
+
         // We just cleaned the list!
         dirty.store(false, std::memory_order_release);
     }
-- 
2.43.0


From a1eb671d33afcf449406f9c1bdd0717ab41a9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 06/49] fix: IO events that were polled before a descriptor was
 reused or processed were delivered again

---
 src/extension/IOController_Posix.ipp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 5ca9770..5db73e2 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -198,10 +198,16 @@ namespace extension {
             else {
                 // Loop through our values
                 for (auto it = range.first; it != range.second; ++it) {
+                    // The events that remain once it has finished processing will be polled for again all together
+                    // Otherwise it could be told of a close without the data that it still has to read before that
+                    if (it->processing_events != 0) {
+                        continue;
+                    }
+
                     // Load in the relevant events that happened into the waiting events
                     it->waiting_events = event_t(it->waiting_events | (it->listening_events & event.revents));
 
-                    if (maybe_eof && (it->processing_events & IO::READ) == 0) {
+                    if (maybe_eof) {
                         it->waiting_events |= IO::CLOSE;
                     }
 
@@ -287,6 +293,8 @@ namespace extension {
                                                [&](const pollfd& w, const fd_t& fd) { return w.fd < fd; });
                     if (it != watches.end() && it->fd == task->fd) {
                         it->events = event_t(it->events | task->processing_events);
+                        // What was polled while they were masked is incomplete, poll again
+                        it->revents = 0;
                     }
 
                     // No longer processing events
@@ -351,11 +359,15 @@ namespace extension {
 
                 // Get the lock so we don't concurrently modify the list
                 const std::lock_guard<std::mutex> lock(tasks_mutex);
+
+                // If the tasks have changed since we polled these events may not belong to the tasks that are there now
+                // as file descriptors are reused, in that case poll again for those that still apply
+                const bool stale = dirty.load(std::memory_order_acquire);
                 for (auto& fd : watches) {
 
                     // Collect the events that happened into the tasks list
                     // Something happened
-                    if (fd.revents != 0) {
+                    if (fd.revents != 0 && (!stale || fd.fd == notifier.recv)) {
                         process_event(fd);
                     }
                 }
-- 
2.43.0


From a6d8bebaccf1c210e70561b48377fe297c04345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 07/49] fix: an empty datagram was taken for the end of its
 socket

---
 src/extension/IOController_Posix.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 5db73e2..8c1c0ea 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -180,7 +180,10 @@ namespace extension {
                 int bytes_available = 0;
                 const bool valid    = ::ioctl(event.fd, FIONREAD, &bytes_available) == 0;
                 if (valid && bytes_available == 0) {
-                    maybe_eof = true;
+                    // A datagram can be empty, only streams end
+                    int type      = 0;
+                    socklen_t len = sizeof(type);
+                    maybe_eof     = ::getsockopt(event.fd, SOL_SOCKET, SO_TYPE, &type, &len) != 0 || type != SOCK_DGRAM;
                 }
             }
 
-- 
2.43.0


From 7f750a02ea26dbadddc4c061113b77e2cee4c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 08/49] fix: IO reactions that run inline deadlocked and
 disabled ones kept events that had passed

---
 src/extension/IOController.hpp       | 13 +++++++++++++
 src/extension/IOController_Posix.ipp | 25 ++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/extension/IOController.hpp b/src/extension/IOController.hpp
index 69c0d68..20fd7f8 100644
--- a/src/extension/IOController.hpp
+++ b/src/extension/IOController.hpp
@@ -115,6 +115,15 @@ namespace extension {
          */
         void process_event(watcher_t& event);
 
+#ifndef _WIN32
+        /**
+         * Releases the tasks mutex and submits the tasks of the events that have been fired while it was held.
+         *
+         * @param lock The lock that is held on the tasks mutex
+         */
+        void submit_ready(std::unique_lock<std::mutex>& lock);
+#endif
+
         /**
          * Bumps the notification pipe to wake up the poll command.
          *
@@ -141,6 +150,10 @@ namespace extension {
         std::vector<watcher_t> watches;
         /// The list of tasks that are waiting for IO events
         tasks_t tasks;
+#ifndef _WIN32
+        /// The tasks of the events that have been fired but are not submitted yet, protected by the tasks mutex
+        std::vector<std::unique_ptr<threading::ReactionTask>> ready;
+#endif
     };
 
 }  // namespace extension
diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 8c1c0ea..0fd19d0 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -147,11 +147,12 @@ namespace extension {
                     it->events = event_t(it->events & ~task.processing_events);
                 }
 
-                powerplant.submit(std::move(r));
+                // It can only be submitted once we let go of the mutex, as it may run inline
+                ready.push_back(std::move(r));
             }
             else {
-                task.waiting_events    = event_t(task.waiting_events | task.processing_events);
-                task.processing_events = 0;
+                // It can't run now, poll again for the events that still apply by then
+                task.waiting_events = 0;
             }
         }
     }
@@ -223,6 +224,16 @@ namespace extension {
         event.revents = 0;
     }
 
+    void IOController::submit_ready(std::unique_lock<std::mutex>& lock) {
+        std::vector<std::unique_ptr<threading::ReactionTask>> to_submit;
+        std::swap(to_submit, ready);
+        lock.unlock();
+
+        for (auto& r : to_submit) {
+            powerplant.submit(std::move(r));
+        }
+    }
+
     void IOController::bump() {
         NotifierWakeGuard wake(notifier);
         wake.signal();
@@ -264,7 +275,7 @@ namespace extension {
 
         on<Trigger<dsl::word::IOFinished>>().then("IO Finished", [this](const dsl::word::IOFinished& event) {
             // Get the lock so we don't concurrently modify the list
-            const std::lock_guard<std::mutex> lock(tasks_mutex);
+            std::unique_lock<std::mutex> lock(tasks_mutex);
 
             // Find the reaction that finished processing
             auto task = std::find_if(tasks.begin(), tasks.end(), [&event](const Task& t) {
@@ -307,6 +318,8 @@ namespace extension {
                     fire_event(*task);
                 }
             }
+
+            submit_ready(lock);
         });
 
         on<Trigger<dsl::operation::Unbind<IO>>>().then(
@@ -361,7 +374,7 @@ namespace extension {
                 }
 
                 // Get the lock so we don't concurrently modify the list
-                const std::lock_guard<std::mutex> lock(tasks_mutex);
+                std::unique_lock<std::mutex> lock(tasks_mutex);
 
                 // If the tasks have changed since we polled these events may not belong to the tasks that are there now
                 // as file descriptors are reused, in that case poll again for those that still apply
@@ -374,6 +387,8 @@ namespace extension {
                         process_event(fd);
                     }
                 }
+
+                submit_ready(lock);
             }
         });
     }
-- 
2.43.0


From 3a5453f17c8b2767b47a05ac987d14ed5b02f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 09/49] fix: IO and Once stopped working after an exception as
 post_run did not run

---
 docs/reference/extensions/points/post-run.md |  2 ++
 src/util/CallbackGenerator.hpp               | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/docs/reference/extensions/points/post-run.md b/docs/reference/extensions/points/post-run.md
index a9ab939..1067979 100644
--- a/docs/reference/extensions/points/post-run.md
+++ b/docs/reference/extensions/points/post-run.md
@@ -41,5 +41,7 @@ struct MyTracing {
 
 ## Built-in Words Using post_run
 
+`post_run` also runs after a callback that has thrown an exception.
+
 No built-in DSL words currently use `post_run`.
 It is available for custom extensions that need per-execution teardown on the executor thread.
diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 97e65d9..40181e6 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -135,11 +135,19 @@ namespace util {
 
                 // We have to catch any exceptions
                 try {
-                    auto scope = DSL::scope(task);             // Acquire the scope
-                    DSL::pre_run(task);                        // Pre run tasks
-                    util::apply_relevant(c, std::move(data));  // Run the callback
-                    DSL::post_run(task);                       // Post run tasks
-                    std::ignore = scope;                       // Ignore unused variable warning
+                    auto scope = DSL::scope(task);  // Acquire the scope
+                    DSL::pre_run(task);             // Pre run tasks
+                    try {
+                        util::apply_relevant(c, std::move(data));  // Run the callback
+                    }
+                    catch (...) {
+                        // The post run tasks are needed for a callback that throws as much as for one that returns
+                        if (task.statistics != nullptr) {
+                            task.statistics->exception = std::current_exception();
+                        }
+                    }
+                    DSL::post_run(task);  // Post run tasks
+                    std::ignore = scope;  // Ignore unused variable warning
                 }
                 catch (...) {
                     // Catch our exception if it happens
-- 
2.43.0


From 60b0926efc34235bd1c7489fd0bfe679716a959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:59 +0000
Subject: [PATCH 10/49] fix: tasks were lost when a queue block filled up while
 its consumer checked that it was empty

The consumer of a block compares the number of slots that it has read with the number that were claimed before it
looks at the next block. If the rest of the block is claimed and the next block is linked in between, it moved to the
next block and the tasks in the slots it had not seen were never run, and their pool could never shut down.
---
 src/threading/scheduler/queue/MPSCQueue.hpp |  4 +++-
 src/threading/scheduler/queue/TaskQueue.hpp | 11 +++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..a61683d 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -171,7 +171,9 @@ namespace threading {
                                 return false;
                             }
                         }
-                        else {
+                        // The next block is only linked once this one is full. If it wasn't when we looked, there are
+                        // now slots in it that we have not seen.
+                        else if (published == BLOCK_SIZE) {
                             // We're the sole consumer so advancing head_block is a plain store. The old
                             // block goes to the graveyard so any producer that still holds a pointer to
                             // it (e.g. one mid-way through link_next_block) doesn't touch freed memory.
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..a715a82 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -169,10 +169,13 @@ namespace threading {
                                         return false;
                                     }
                                 }
-                                else if (head.compare_exchange_strong(block,
-                                                                      next,
-                                                                      std::memory_order_release,
-                                                                      std::memory_order_relaxed)) {
+                                // The next block is only linked once this one is full. If it wasn't when we looked, there
+                                // are now slots in it that we have not seen.
+                                else if (published == BLOCK_SIZE
+                                         && head.compare_exchange_strong(block,
+                                                                         next,
+                                                                         std::memory_order_release,
+                                                                         std::memory_order_relaxed)) {
                                     // We won the race to advance head past a fully-drained block, so
                                     // we own its retirement. try_reclaim_block() only retires when it
                                     // wins this same head CAS; without retiring here the block would
-- 
2.43.0


From d47b22f3c53bd2edbf249e55f0a90ea4c760a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 11/49] fix: services of a watchdog could be undone by an
 earlier one, and unbinding one watchdog broke the others of its key

---
 src/dsl/word/Watchdog.hpp      | 51 +++++++++++++++++++++-------------
 src/dsl/word/emit/Watchdog.hpp |  9 ++----
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index f2b2ac7..c8a1bf9 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -23,6 +23,8 @@
 #ifndef NUCLEAR_DSL_WORD_WATCHDOG_HPP
 #define NUCLEAR_DSL_WORD_WATCHDOG_HPP
 
+#include <cstddef>
+#include <map>
 #include <mutex>
 #include <stdexcept>
 
@@ -50,8 +52,14 @@ namespace dsl {
          */
         template <typename WatchdogGroup, typename RuntimeType = void>
         struct WatchdogDataStore {
-            using MapType       = std::remove_cv_t<RuntimeType>;
-            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, NUClear::clock::time_point>>;
+            using MapType = std::remove_cv_t<RuntimeType>;
+
+            /// The service time for an instance of data, and how many watchdogs are using it
+            struct Entry {
+                NUClear::clock::time_point time;
+                std::size_t users{0};
+            };
+            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, Entry>>;
 
             /**
              * Mutex protecting structural and value updates to the underlying map for this
@@ -73,10 +81,11 @@ namespace dsl {
             static void init(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<std::map<MapType, NUClear::clock::time_point>>());
+                    WatchdogStore::set(std::make_shared<std::map<MapType, Entry>>());
                 }
-                if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, NUClear::clock::now()});
+                Entry& entry = (*WatchdogStore::get())[data];
+                if (entry.users++ == 0) {
+                    entry.time = NUClear::clock::now();
                 }
             }
 
@@ -95,34 +104,38 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data);
+                return WatchdogStore::get()->at(data).time;
             }
 
             /**
-             * Atomically updates the service time for the WatchdogGroup/RuntimeType/data watchdog.
+             * Atomically updates the service time for the WatchdogGroup/RuntimeType/data watchdog to now.
              *
              * Called by @ref emit::WatchdogServicer::service to keep the write under the same
-             * mutex that @ref get uses for reads.
+             * mutex that @ref get uses for reads. The time is taken under the mutex too, so that of several threads that
+             * service at once the last one to write has the latest time.
              */
-            static void service(const RuntimeType& data, const NUClear::clock::time_point& when) {
+            static void service(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr || WatchdogStore::get()->count(data) == 0) {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name()) + ", "
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data) = when;
+                WatchdogStore::get()->at(data).time = NUClear::clock::now();
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog
+             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog once nobody uses it any more
              *
              * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
              */
             static void unbind(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get()->erase(data);
+                    auto it = WatchdogStore::get()->find(data);
+                    if (it != WatchdogStore::get()->end() && --it->second.users == 0) {
+                        WatchdogStore::get()->erase(it);
+                    }
                 }
             }
         };
@@ -172,15 +185,15 @@ namespace dsl {
             }
 
             /**
-             * Atomically updates the service time for the WatchdogGroup watchdog.
+             * Atomically updates the service time for the WatchdogGroup watchdog to now.
              */
-            static void service(const NUClear::clock::time_point& when) {
+            static void service() {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                *WatchdogStore::get() = when;
+                *WatchdogStore::get() = NUClear::clock::now();
             }
 
             /**
@@ -270,9 +283,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([data](const threading::Reaction& r) {
+                    r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
                     // Remove the active service time from the data store
                     WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
-                    r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
                 });
 
                 // Send our configuration out
@@ -327,11 +340,11 @@ namespace dsl {
 
                 // Check if our watchdog has timed out
                 if (NUClear::clock::now() > (service_time + period(ticks))) {
+                    // Automatically service the watchdog first, submitting can run the reaction inline
+                    time += period(ticks);
+
                     // Submit the reaction to the thread pool
                     reaction->reactor.powerplant.submit(reaction->get_task());
-
-                    // Now automatically service the watchdog
-                    time += period(ticks);
                 }
                 // Change our wait time to our new watchdog time
                 else {
diff --git a/src/dsl/word/emit/Watchdog.hpp b/src/dsl/word/emit/Watchdog.hpp
index f6c37c2..b21f9b8 100644
--- a/src/dsl/word/emit/Watchdog.hpp
+++ b/src/dsl/word/emit/Watchdog.hpp
@@ -65,12 +65,10 @@ namespace dsl {
                  * would be torn-read / torn-written across threads.
                  */
                 void service() {
-                    word::WatchdogDataStore<WatchdogGroup, RuntimeType>::service(data, when);
+                    word::WatchdogDataStore<WatchdogGroup, RuntimeType>::service(data);
                 }
 
             private:
-                /// The time when the watchdog was serviced
-                NUClear::clock::time_point when{NUClear::clock::now()};
                 /// The runtime argument that was passed to on<Watchdog<>>()
                 RuntimeType data{};
             };
@@ -93,11 +91,8 @@ namespace dsl {
                  * same mutex that guards reads in the chrono controller.
                  */
                 void service() {
-                    word::WatchdogDataStore<WatchdogGroup, void>::service(when);
+                    word::WatchdogDataStore<WatchdogGroup, void>::service();
                 }
-
-            private:
-                NUClear::clock::time_point when{NUClear::clock::now()};
             };
 
             /**
-- 
2.43.0


From 8bf8eb5f12e1d79fb7c2f6a5e476d6a97948454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 12/49] fix: Last's history was changed from several threads at
 once and took missing data for an item

---
 src/dsl/word/Last.hpp          | 16 ++++++++++++----
 src/util/CallbackGenerator.hpp | 10 ++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/dsl/word/Last.hpp b/src/dsl/word/Last.hpp
index 49fdaab..93e4240 100644
--- a/src/dsl/word/Last.hpp
+++ b/src/dsl/word/Last.hpp
@@ -50,15 +50,23 @@ namespace dsl {
             /**
              * Constructs a LastItemStorage object with the given data.
              *
-             * @param data The data to store.
+             * @param data The data to store, if there is no data then nothing is stored.
              */
-            explicit LastItemStorage(T&& data) : list({std::move(data)}) {}
+            explicit LastItemStorage(T&& data) {
+                if (data) {
+                    list.push_back(std::move(data));
+                }
+            }
             /**
              * Constructs a LastItemStorage object with the given data.
              *
-             * @param data The data to store.
+             * @param data The data to store, if there is no data then nothing is stored.
              */
-            explicit LastItemStorage(const T& data) : list({data}) {}
+            explicit LastItemStorage(const T& data) {
+                if (data) {
+                    list.push_back(data);
+                }
+            }
 
             /**
              * Converts the stored list to a list of the given type.
diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 40181e6..3cd81e3 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -23,6 +23,8 @@
 #ifndef NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 #define NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 
+#include <memory>
+#include <mutex>
 #include <type_traits>
 
 #include "../dsl/word/emit/Inline.hpp"
@@ -62,6 +64,12 @@ namespace util {
                               const Sequence<DIndex...>& /*d*/,
                               const Sequence<Index...>& /*i*/) {
 
+            // Several threads can be making tasks at the same time
+            std::unique_lock<std::mutex> lock(*transients_mutex, std::defer_lock);
+            if (sizeof...(Index) > 0) {
+                lock.lock();
+            }
+
             // Merge our transient data
             unpack(MergeTransients<std::remove_reference_t<decltype(std::get<DIndex>(data))>>::merge(
                 std::get<Index>(*transients),
@@ -169,6 +177,8 @@ namespace util {
         Function callback;
         std::shared_ptr<typename TransientDataElements<DSL>::type> transients{
             std::make_shared<typename TransientDataElements<DSL>::type>()};
+        /// Protects the transient data
+        std::shared_ptr<std::mutex> transients_mutex{std::make_shared<std::mutex>()};
     };
 
 }  // namespace util
-- 
2.43.0


From cc0b5dcc87f5f3314a80f972bceafd4c24d4325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 13/49] fix: reactions that timers run inline deadlocked on the
 chrono controller, and a shutdown while paused was not noticed

---
 src/dsl/word/Every.hpp             |  5 +-
 src/extension/ChronoController.cpp | 81 +++++++++++++++++++++++-------
 src/extension/ChronoController.hpp | 27 ++++++++++
 3 files changed, 92 insertions(+), 21 deletions(-)

diff --git a/src/dsl/word/Every.hpp b/src/dsl/word/Every.hpp
index 4227f23..27cec1d 100644
--- a/src/dsl/word/Every.hpp
+++ b/src/dsl/word/Every.hpp
@@ -91,11 +91,12 @@ namespace dsl {
                 // Send our configuration out
                 reaction->reactor.emit<emit::Inline>(std::make_unique<operation::ChronoTask>(
                     [reaction, jump](NUClear::clock::time_point& time) {
+                        // schedule the next one first, submitting can run the reaction inline
+                        time += jump;
+
                         // submit the reaction to the thread pool
                         reaction->reactor.powerplant.submit(reaction->get_task());
 
-                        time += jump;
-
                         return true;
                     },
                     NUClear::clock::now() + jump,
diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b42859b..740fd96 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -25,8 +25,11 @@
 #include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <exception>
+#include <functional>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <utility>
 
 #include "../Reactor.hpp"
@@ -91,6 +94,10 @@ namespace extension {
                     tasks.erase(it);
                     std::make_heap(tasks.begin(), tasks.end(), std::greater<>());
                 }
+                else if (executing && executing_id == unbind.id) {
+                    // It is being executed at the moment, don't let it back into the list
+                    cancelled = true;
+                }
 
                 // Poke the system to make sure it's not waiting on something that's gone
                 wait.notify_all();
@@ -104,7 +111,10 @@ namespace extension {
         });
 
         on<Trigger<message::TimeTravel>>().then("Time Travel", [this](const message::TimeTravel& travel) {
-            const std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            // A task that is being executed is not in the list, wait for it unless it is the one that is time travelling
+            wait.wait(lock, [this] { return !executing || executing_thread == std::this_thread::get_id(); });
 
             // Adjust clock to target time and leave chrono tasks where they are
             switch (travel.type) {
@@ -115,7 +125,7 @@ namespace extension {
                     for (auto& task : tasks) {
                         task.time += adjustment;
                     }
-
+                    shift += adjustment;
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
                     const clock::time_point nearest =
@@ -136,6 +146,11 @@ namespace extension {
                 // Acquire the mutex lock so we can wait on it
                 std::unique_lock<std::mutex> lock(mutex);
 
+                // If we were told to stop before we had the lock, nobody is going to notify us any more
+                if (!running.load(std::memory_order_acquire)) {
+                    break;
+                }
+
                 // If we have no chrono tasks wait until we are notified
                 if (tasks.empty()) {
                     wait.wait(lock, [this] { return !running.load(std::memory_order_acquire) || !tasks.empty(); });
@@ -145,20 +160,7 @@ namespace extension {
                     auto target = tasks.front().time;
 
                     if (target <= start) {
-                        // Run our task and if it returns false remove it
-                        const bool renew = tasks.front()();
-
-                        // Move this to the back of the list
-                        std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
-
-                        if (renew) {
-                            // Put the item back in the list
-                            std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
-                        }
-                        else {
-                            // Remove the item from the list
-                            tasks.pop_back();
-                        }
+                        execute_front(lock);
                     }
                     else {
                         const NUClear::clock::duration time_until_task =
@@ -192,9 +194,9 @@ namespace extension {
                             }
                         }
                         else {
-                            while (NUClear::clock::now() < tasks.front().time) {
-                                // Spinlock until we get to the time
-                            }
+                            // Spinlock until we get to the time, letting others have the mutex
+                            lock.unlock();
+                            std::this_thread::yield();
                         }
                     }
                 }
@@ -202,5 +204,46 @@ namespace extension {
         });
     }
 
+    void ChronoController::execute_front(std::unique_lock<std::mutex>& lock) {
+        // Move the task out of the list
+        std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
+        ChronoTask task = std::move(tasks.back());
+        tasks.pop_back();
+
+        executing        = true;
+        executing_id     = task.id;
+        executing_thread = std::this_thread::get_id();
+        cancelled        = false;
+        shift            = NUClear::clock::duration(0);
+
+        // Executing the task can run reactions inline. They can do anything, including adding tasks and unbinding this one
+        lock.unlock();
+        const auto scheduled = task.time;
+        bool renew           = false;
+        std::exception_ptr exception;
+        try {
+            renew = task();
+        }
+        catch (...) {
+            // What was triggered failed, that is no reason to not trigger it when it is due next
+            exception = std::current_exception();
+            renew     = task.time != scheduled;
+        }
+        lock.lock();
+
+        executing = false;
+        if (renew && !cancelled) {
+            // Put the task back in the list
+            task.time += shift;
+            tasks.push_back(std::move(task));
+            std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
+        }
+        wait.notify_all();
+
+        if (exception != nullptr) {
+            std::rethrow_exception(exception);
+        }
+    }
+
 }  // namespace extension
 }  // namespace NUClear
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index e3954f6..f097b33 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -23,7 +23,16 @@
 #ifndef NUCLEAR_EXTENSION_CHRONO_CONTROLLER_HPP
 #define NUCLEAR_EXTENSION_CHRONO_CONTROLLER_HPP
 
+#include <atomic>
+#include <condition_variable>
+#include <memory>
+#include <mutex>
+#include <thread>
+#include <vector>
+
 #include "../Reactor.hpp"
+#include "../clock.hpp"
+#include "../id.hpp"
 #include "../message/TimeTravel.hpp"
 
 namespace NUClear {
@@ -37,6 +46,13 @@ namespace extension {
         explicit ChronoController(std::unique_ptr<NUClear::Environment> environment);
 
     private:
+        /**
+         * Executes the task that is at the front of the list, without the mutex, and puts it back if it is to run again.
+         *
+         * @param lock The lock on the mutex
+         */
+        void execute_front(std::unique_lock<std::mutex>& lock);
+
         /// The list of tasks we need to process
         std::vector<dsl::operation::ChronoTask> tasks;
         /// The mutex we use to lock the task list
@@ -46,6 +62,17 @@ namespace extension {
         /// If we are running or not
         std::atomic<bool> running{true};
 
+        /// If there is a task that is being executed at the moment, it is not in the list
+        bool executing{false};
+        /// The id of the task that is being executed
+        NUClear::id_t executing_id{0};
+        /// The thread that the task is being executed on
+        std::thread::id executing_thread;
+        /// If the task that is being executed was unbound
+        bool cancelled{false};
+        /// How far the tasks have been moved in time since the task started to execute
+        NUClear::clock::duration shift{0};
+
         /// The temporal accuracy when waiting on a condition variable
         NUClear::clock::duration cv_accuracy{0};
         /// The temporal accuracy when waiting on nanosleep
-- 
2.43.0


From d12a029851ae008a0e03d6deda51b8552eb142ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 14/49] fix: tasks submitted while their pool was stopping were
 lost together with their group's place, and forced shutdowns could wait for
 each other

A task that passed the check of accept just before the pool stopped, or that waited for its group, could be put in the queue of
a pool whose threads had already ended. It never ran and kept its place in the group, so other pools waited for it forever.
A forced stop waited for the pool's thread to discard the queue, which deadlocks when that thread waits for the caller.
Tasks left when the scheduler is destroyed released their groups into pools that were already gone.
Submitting to a pool that was never used terminated the program once the shutdown had started.
---
 src/threading/scheduler/Group.cpp     |  14 ++-
 src/threading/scheduler/Group.hpp     |   7 ++
 src/threading/scheduler/Pool.cpp      | 147 +++++++++++++-------------
 src/threading/scheduler/Pool.hpp      |  29 ++++-
 src/threading/scheduler/Scheduler.cpp |  62 +++++++----
 src/threading/scheduler/Scheduler.hpp |   9 ++
 6 files changed, 170 insertions(+), 98 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index a66bdb6..e09fec3 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -125,12 +125,19 @@ namespace threading {
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
         Group::~Group() {
+            discard_waiters();
+        }
+
+        void Group::discard_waiters() {
             // Drain any waiters still parked in the fast-path buckets. WaitEntry holds an
             // ExternalWaiterRegistration that unregisters from the pool on destruction.
+            std::vector<WaitEntry> discarded;
+            const std::lock_guard<std::mutex> lock(mutex);
             WaitEntry entry;
             for (auto& bucket : wait_buckets) {
                 while (bucket.try_dequeue(entry)) {
-                    entry = WaitEntry{};
+                    parked.fetch_sub(1);
+                    discarded.push_back(std::move(entry));
                 }
             }
         }
@@ -166,6 +173,11 @@ namespace threading {
                 // invariant that a parked waiter always triggers exactly one idle fire on its destination pool, even
                 // when the worker is preempted past the natural idle window).
                 entry.external_waiter = pool->register_external_waiter();
+
+                // If it still accepts tasks now then its threads will wait for this one
+                if (!pool->accepting()) {
+                    return false;
+                }
             }
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(mutex);
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index e5e505a..a74befb 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -226,6 +226,8 @@ namespace threading {
              * @param pool       the pool to submit to when runnable (non-owning; must outlive the call)
              * @param clear_idle if true, clear idle state on submission
              *
+             * If it would have to be queued and the pool does not accept tasks any more, the task is discarded.
+             *
              * @return true if the task was submitted immediately
              */
             bool try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle);
@@ -250,6 +252,11 @@ namespace threading {
                                        const int& priority,
                                        const std::function<void()>& notify);
 
+            /**
+             * Discards the tasks that are waiting in the fast path.
+             */
+            void discard_waiters();
+
             /// The descriptor for this group
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 8645c27..6309d26 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -75,13 +75,8 @@ namespace threading {
             // Force stop the pool threads and wait for them to finish
             try {
                 stop(Pool::StopType::FORCE);
-            }
-            catch (...) {  // NOLINT(bugprone-empty-catch)
-                // Draining queued tasks during forced shutdown can throw if a Task's lock
-                // destructors re-enter the pool; swallow here rather than std::terminate.
-            }
-            try {
                 join();
+                discard();
             }
             catch (...) {  // NOLINT(bugprone-empty-catch)
                 // std::thread::join() may throw std::system_error on failure.
@@ -97,10 +92,15 @@ namespace threading {
             active = descriptor->counts_for_idle ? n_threads : 0;
 
             if (descriptor == dsl::word::MainThread::descriptor()) {
+                /*mutex scope*/ {
+                    const std::lock_guard<std::mutex> lock(mutex);
+                    consumers = 1;
+                }
                 run();
             }
             else {
                 const std::lock_guard<std::mutex> lock(mutex);
+                consumers = n_threads;
                 for (int i = 0; i < n_threads; ++i) {
                     threads.emplace_back(std::make_unique<std::thread>(&Pool::run, this));
                 }
@@ -108,53 +108,31 @@ namespace threading {
         }
 
         void Pool::stop(const StopType& type) {
-            // Drained tasks may hold group locks whose destructors can re-enter the pool; defer
-            // their destruction until after the mutex is released.
-            std::vector<Task> drained;
-            {
-                std::unique_lock<std::mutex> lock(mutex);
-
-                live = true;
-                accept.store(descriptor->persistent, std::memory_order_release);
-
-                switch (type) {
-                    case StopType::NORMAL: {
-                        running = descriptor->persistent;
-                    } break;
-                    case StopType::FINAL: {
-                        running = false;
-                    } break;
-                    case StopType::FORCE: {
-                        // A force stop is terminal even for persistent pools: stop accepting new work so
-                        // nothing can repopulate the queues after we drain them and wind the threads down.
-                        accept.store(false, std::memory_order_release);
-                        running = false;
-
-                        // MPSC buckets permit only one consumer. A cross-thread FORCE stop (e.g.
-                        // PowerPlant::shutdown(true) from TestBase's timeout thread against a
-                        // MainThread or concurrency-1 pool) must delegate queue draining to that
-                        // worker instead of calling try_dequeue here.
-                        const bool mpsc_consumer_alive =
-                            single_consumer && consumer_thread_id != std::thread::id{};
-                        const bool on_mpsc_consumer =
-                            mpsc_consumer_alive && std::this_thread::get_id() == consumer_thread_id;
-
-                        if (mpsc_consumer_alive && !on_mpsc_consumer) {
-                            discard_queues_requested.store(true, std::memory_order_release);
-                            condition.notify_all();
-                            condition.wait(lock, [this] {
-                                return !discard_queues_requested.load(std::memory_order_acquire);
-                            });
-                            pending_tasks.store(0, std::memory_order_relaxed);
-                        }
-                        else {
-                            drain_queues(drained);
-                            pending_tasks.store(0, std::memory_order_relaxed);
-                        }
-                    } break;
-                }
-                condition.notify_all();
+            const std::lock_guard<std::mutex> lock(mutex);
+
+            live = true;
+
+            switch (type) {
+                case StopType::NORMAL: {
+                    running = running && descriptor->persistent;
+                } break;
+                case StopType::FINAL: {
+                    running = false;
+                } break;
+                case StopType::FORCE: {
+                    // The threads of the pool discard what is in the queue when they end. It isn't done here as queues
+                    // with a single consumer can't be used by another thread, and waiting for that consumer could wait
+                    // for this thread (another force stop, or whoever joins it).
+                    running           = false;
+                    discard_requested = true;
+                } break;
+            }
+
+            // Pools that are persistent accept tasks until their last thread ends
+            if (!descriptor->persistent || type == StopType::FORCE) {
+                accept.store(false);
             }
+            condition.notify_all();
         }
 
         void Pool::notify(bool clear_idle) {
@@ -179,8 +157,17 @@ namespace threading {
                 return;
             }
 
+            // The threads of the pool end when it has stopped accepting and they count no tasks. Counting the task before
+            // checking (again) means that either they see that there is a task, or we see that they won't.
+            pending_tasks.fetch_add(1);
+            if (!force && !accept.load()) {
+                pending_tasks.fetch_sub(1);
+                const std::lock_guard<std::mutex> lock(mutex);
+                condition.notify_all();
+                return;
+            }
+
             const std::size_t bucket = queue::priority_index(task.task->priority);
-            pending_tasks.fetch_add(1, std::memory_order_release);
             buckets[bucket]->enqueue(std::move(task));
 
             const std::lock_guard<std::mutex> lock(mutex);
@@ -216,8 +203,12 @@ namespace threading {
             }
         }
 
+        bool Pool::accepting() const {
+            return accept.load();
+        }
+
         ExternalWaiterRegistration Pool::register_external_waiter() {
-            external_waiters.fetch_add(1, std::memory_order_acq_rel);
+            external_waiters.fetch_add(1);
 
             // Fast exit when no idle reaction could ever fire on this pool. This is the common
             // case on a hot Sync-contended chain (the tasks being parked are real work, not idle
@@ -286,7 +277,6 @@ namespace threading {
         }
 
         void Pool::run() {
-            consumer_thread_id = std::this_thread::get_id();
             Pool::current_pool = this;
             try {
                 while (true) {
@@ -296,7 +286,6 @@ namespace threading {
             }
             catch (const ShutdownThreadException&) {
                 Pool::current_pool = nullptr;
-                consumer_thread_id = std::thread::id{};
                 return;
             }
         }
@@ -350,21 +339,30 @@ namespace threading {
             }
         }
 
+        void Pool::discard() {
+            // Destroying tasks releases their locks, which can use this pool, and their data, which can do anything
+            std::vector<Task> discarded;
+            const std::lock_guard<std::mutex> lock(mutex);
+            drain_queues(discarded);
+        }
+
+        bool Pool::finished() const {
+            return !running && pending_tasks.load() == 0 && external_waiters.load() == 0;
+        }
+
         Pool::Task Pool::get_task() {
             std::unique_lock<std::mutex> lock(mutex);
-            while (running || pending_tasks.load(std::memory_order_acquire) > 0
-                   || external_waiters.load(std::memory_order_acquire) > 0
-                   || discard_queues_requested.load(std::memory_order_acquire)) {
-                if (discard_queues_requested.load(std::memory_order_acquire)) {
-                    std::vector<Task> discarded;
-                    drain_queues(discarded);
-                    pending_tasks.store(0, std::memory_order_relaxed);
-                    discard_queues_requested.store(false, std::memory_order_release);
-                    condition.notify_all();
-                    lock.unlock();
-                    discarded.clear();
-                    lock.lock();
-                    continue;
+            while (!discard_requested) {
+
+                if (finished()) {
+                    if (consumers > 1) {
+                        break;
+                    }
+                    // This is the last thread, so from here on nobody would execute what is submitted
+                    accept.store(false);
+                    if (finished()) {
+                        break;
+                    }
                 }
 
                 // A waiter was parked for this pool since the last time this worker looked, so it
@@ -460,14 +458,17 @@ namespace threading {
                 }
 
                 condition.wait(lock, [this] {
-                    return live || pending_idle.load(std::memory_order_acquire)
-                           || discard_queues_requested.load(std::memory_order_acquire)
-                           || (!running && pending_tasks.load(std::memory_order_acquire) == 0
-                               && external_waiters.load(std::memory_order_acquire) == 0);
+                    return live || discard_requested || pending_idle.load(std::memory_order_acquire) || finished();
                 });
             }
 
+            --consumers;
             condition.notify_all();
+            if (discard_requested) {
+                std::vector<Task> discarded;
+                drain_queues(discarded);
+                lock.unlock();
+            }
             throw ShutdownThreadException();
         }
 
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index 728f88a..a6d290a 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -78,7 +78,7 @@ namespace threading {
                 /// Final stop request, pools which ignore shutdown will finish when all tasks are done
                 /// However they will continue to accept tasks
                 FINAL,
-                /// Force stop, the queue will be cleared and all threads will be woken
+                /// Force stop, all threads will be woken and end without executing what is in the queue
                 FORCE
             };
 
@@ -160,6 +160,13 @@ namespace threading {
              */
             void submit(Task&& task, bool clear_idle, bool force = false);
 
+            /**
+             * Check if this pool accepts tasks.
+             *
+             * @return true if tasks that are submitted (without force) will be executed
+             */
+            bool accepting() const;
+
             /**
              * Register that a task is in flight outside the pool but will eventually be submitted to it.
              *
@@ -170,6 +177,11 @@ namespace threading {
              */
             ExternalWaiterRegistration register_external_waiter();
 
+            /**
+             * Discards the tasks that are in the queues, once the threads of the pool have ended.
+             */
+            void discard();
+
             /**
              * Add an idle task to this pool.
              *
@@ -243,6 +255,13 @@ namespace threading {
              */
             void drain_queues(std::vector<Task>& out);
 
+            /**
+             * Check if the pool was told to stop and there are no tasks left to execute. Must be called with the mutex held.
+             *
+             * @return true if the threads of this pool can end
+             */
+            bool finished() const;
+
             /**
              * Make the pool count as active while there are tasks whose locks can't be acquired at the moment.
              */
@@ -357,10 +376,10 @@ namespace threading {
             bool live = true;
             /// True when this pool's buckets use MPSCQueue (single consumer).
             bool single_consumer = false;
-            /// Worker thread that owns MPSC dequeue; default until run() sets it.
-            std::thread::id consumer_thread_id;
-            /// Set by a non-consumer FORCE stop to request the worker discard queued tasks.
-            std::atomic<bool> discard_queues_requested{false};
+            /// The number of threads which are executing tasks from the queues
+            int consumers = 0;
+            /// Set by a FORCE stop to have the threads end and discard what is in the queues
+            bool discard_requested = false;
 
             /// The mutex which protects idle tasks and the live flag
             mutable std::mutex mutex;
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index aca2d45..4ad5f7c 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -54,12 +54,27 @@ namespace threading {
             // any later Pool::current() call on this thread (shared_from_this() on a destroyed pool is undefined
             // behaviour, in practice observed as a bad_weak_ptr or a crash). Only clear it if it still refers to
             // one of our pools, so we never disturb an unrelated Scheduler that may share this thread.
-            const std::lock_guard<std::mutex> lock(pools_mutex);
-            const auto owning_pool = std::find_if(pools.begin(), pools.end(), [](const auto& pool) {
-                return Pool::current_pool == pool.second.get();
-            });
-            if (owning_pool != pools.end()) {
-                Pool::current_pool = nullptr;
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(pools_mutex);
+                const auto owning_pool = std::find_if(pools.begin(), pools.end(), [](const auto& pool) {
+                    return Pool::current_pool == pool.second.get();
+                });
+                if (owning_pool != pools.end()) {
+                    Pool::current_pool = nullptr;
+                }
+            }
+
+            // Tasks that were never executed hold locks of the groups, which submit tasks to the pools when they are released.
+            // Discard all of them while all the groups and pools are still there.
+            stop(true);
+            for (const auto& pool : pools) {
+                pool.second->join();
+            }
+            for (const auto& group : groups) {
+                group.second->discard_waiters();
+            }
+            for (const auto& pool : pools) {
+                pool.second->discard();
             }
         }
 
@@ -104,9 +119,7 @@ namespace threading {
         void Scheduler::stop(bool force) {
             running.store(false, std::memory_order_release);
 
-            // Copy pool pointers under the mutex, then stop outside it. Pool::stop(FORCE) on
-            // single-consumer (MPSC) pools may block until that pool's worker drains the queue;
-            // workers can call get_pool() during that drain, which needs pools_mutex.
+            // Copy pool pointers under the mutex, then stop outside it.
             std::vector<std::shared_ptr<Pool>> pools_to_stop;
             {
                 const std::lock_guard<std::mutex> lock(pools_mutex);
@@ -154,14 +167,13 @@ namespace threading {
             }
         }
 
-        std::shared_ptr<Pool> Scheduler::get_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc) {
+        std::shared_ptr<Pool> Scheduler::find_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc) {
             const std::lock_guard<std::mutex> lock(pools_mutex);
             // If the pool does not exist, create it
             if (pools.count(desc) == 0) {
                 // Don't make new pools if we are shutting down
                 if (!running.load(std::memory_order_acquire)) {
-                    throw std::invalid_argument(
-                        "Cannot create new pools after the scheduler has started shutting down");
+                    return nullptr;
                 }
 
                 // Create the pool
@@ -178,6 +190,14 @@ namespace threading {
             return pools.at(desc);
         }
 
+        std::shared_ptr<Pool> Scheduler::get_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc) {
+            auto pool = find_pool(desc);
+            if (pool == nullptr) {
+                throw std::invalid_argument("Cannot create new pools after the scheduler has started shutting down");
+            }
+            return pool;
+        }
+
         std::shared_ptr<Group> Scheduler::get_group(const std::shared_ptr<const util::GroupDescriptor>& desc) {
             const std::lock_guard<std::mutex> lock(groups_mutex);
             // If the group does not exist, create it
@@ -234,17 +254,21 @@ namespace threading {
             // The cache update is benign-racing: two submitters that miss simultaneously will
             // both call `get_pool()` and store the same pointer; last writer wins, identical
             // value.
-            Pool* pool = nullptr;
-            if (task->parent) {
-                pool = task->parent->scheduler_data.load(std::memory_order_acquire);
+            Pool* pool = task->parent ? task->parent->scheduler_data.load(std::memory_order_acquire) : nullptr;
+            if (pool == nullptr) {
+                pool = find_pool(task->pool_descriptor).get();
                 if (pool == nullptr) {
-                    pool = get_pool(task->pool_descriptor).get();
+                    // Nothing ever used this pool and it is too late to make it, so nothing can be executed on it. What runs
+                    // inline doesn't need it, and waits (if it has to) on the main thread's.
+                    if (!task->run_inline) {
+                        return;
+                    }
+                    pool = find_pool(dsl::word::MainThread::descriptor()).get();
+                }
+                else if (task->parent) {
                     task->parent->scheduler_data.store(pool, std::memory_order_release);
                 }
             }
-            else {
-                pool = get_pool(task->pool_descriptor).get();
-            }
 
             const auto current_pool = Pool::current();
             const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
diff --git a/src/threading/scheduler/Scheduler.hpp b/src/threading/scheduler/Scheduler.hpp
index 3df15af..3470359 100644
--- a/src/threading/scheduler/Scheduler.hpp
+++ b/src/threading/scheduler/Scheduler.hpp
@@ -124,6 +124,15 @@ namespace threading {
              */
             std::shared_ptr<Pool> get_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc);
 
+            /**
+             * Gets a pointer to a specific pool, or creates a new one if it does not exist and it is not too late for that.
+             *
+             * @param desc the descriptor for the pool to get
+             *
+             * @return a shared pointer to the pool, or nullptr if there is none and the scheduler is shutting down
+             */
+            std::shared_ptr<Pool> find_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc);
+
             /**
              * Gets a pointer to a specific group, or creates a new one if it does not exist.
              *
-- 
2.43.0


From 5647345074695e2d5bd99d8f6e4d24e902e84a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 15/49] fix: shutting down from two threads at once ran the
 Shutdown reactions twice or not at all

---
 src/PowerPlant.cpp | 15 +++++++++++----
 src/PowerPlant.hpp |  5 +++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/PowerPlant.cpp b/src/PowerPlant.cpp
index 790eb89..ef828af 100644
--- a/src/PowerPlant.cpp
+++ b/src/PowerPlant.cpp
@@ -104,11 +104,18 @@ void PowerPlant::submit(std::unique_ptr<threading::ReactionTask>&& task) noexcep
 
 void PowerPlant::shutdown(bool force) {
 
-    // Emit our shutdown event
-    emit(std::make_unique<dsl::word::Shutdown>());
+    // Only the first request emits the shutdown event, and stops the scheduler once it has
+    if (!shutdown_requested.exchange(true)) {
+        // Emit our shutdown event
+        emit(std::make_unique<dsl::word::Shutdown>());
 
-    // Shutdown the scheduler
-    scheduler.stop(force);
+        // Shutdown the scheduler
+        scheduler.stop(force);
+    }
+    else if (force) {
+        // A shutdown that is in progress can still be forced
+        scheduler.stop(true);
+    }
 }
 
 }  // namespace NUClear
diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index afcf9d9..46c817b 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_POWER_PLANT_HPP
 #define NUCLEAR_POWER_PLANT_HPP
 
+#include <atomic>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -120,6 +121,8 @@ public:
     /**
      * Shuts down the PowerPlant, tells all component threads to terminate and waits for them to finish.
      *
+     * If this is called again it does nothing, unless the shutdown that is in progress is now to be forced.
+     *
      * @param force If true, the PowerPlant will shutdown immediately without waiting for tasks to finish
      */
     void shutdown(bool force = false);
@@ -313,6 +316,8 @@ public:
 
     /// Our TaskScheduler that handles distributing task to the pool threads
     threading::scheduler::Scheduler scheduler;
+    /// If a shutdown has been requested
+    std::atomic<bool> shutdown_requested{false};
     /// Our vector of Reactors, will get destructed when this vector is
     std::vector<std::unique_ptr<NUClear::Reactor>> reactors;
     /// Our logger that handles logging messages
-- 
2.43.0


From be3407ddfc76ba54cc8851a9b6dbc2972b1cae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 16/49] fix: a forced shutdown discarded the tasks that stop
 the chrono and IO controllers and so never ended

---
 src/extension/ChronoController.cpp     | 3 ++-
 src/extension/IOController_Posix.ipp   | 3 ++-
 src/extension/IOController_Windows.ipp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index 740fd96..73ff1fe 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -104,7 +104,8 @@ namespace extension {
             });
 
         // When we shutdown we notify so we quit now
-        on<Shutdown>().then("Shutdown Chrono Controller", [this] {
+        // This is inline as a forced shutdown discards the tasks that are in the queues
+        on<Shutdown, Inline::ALWAYS>().then("Shutdown Chrono Controller", [this] {
             running.store(false, std::memory_order_release);
             const std::lock_guard<std::mutex> lock(mutex);
             wait.notify_all();
diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 0fd19d0..2fc1418 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -342,7 +342,8 @@ namespace extension {
                 bump();
             });
 
-        on<Shutdown>().then("Shutdown IO Controller", [this] {
+        // This is inline as a forced shutdown discards the tasks that are in the queues
+        on<Shutdown, Inline::ALWAYS>().then("Shutdown IO Controller", [this] {
             running.store(false, std::memory_order_release);
             bump();
         });
diff --git a/src/extension/IOController_Windows.ipp b/src/extension/IOController_Windows.ipp
index 5217891..d3c7378 100644
--- a/src/extension/IOController_Windows.ipp
+++ b/src/extension/IOController_Windows.ipp
@@ -224,7 +224,8 @@ namespace extension {
                 bump();
             });
 
-        on<Shutdown>().then("Shutdown IO Controller", [this] {
+        // This is inline as a forced shutdown discards the tasks that are in the queues
+        on<Shutdown, Inline::ALWAYS>().then("Shutdown IO Controller", [this] {
             running.store(false, std::memory_order_release);
             bump();
         });
-- 
2.43.0


From abf13cc07f78fe016fbddf0e3ab0e46645fa5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 17/49] fix: a persistent pool whose last thread found another
 task as it ended executed it but rejected what it submitted

---
 src/threading/scheduler/Pool.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 6309d26..a6c7492 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -363,6 +363,8 @@ namespace threading {
                     if (finished()) {
                         break;
                     }
+                    // A task was submitted in the meantime, and it may submit more
+                    accept.store(descriptor->persistent);
                 }
 
                 // A waiter was parked for this pool since the last time this worker looked, so it
-- 
2.43.0


From b72e28585fde1e7964e6189612f5d9fac8fab7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 18/49] fix: a pool looked idle while one of its threads gave
 back a task whose lock was taken

---
 src/threading/scheduler/Pool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index a6c7492..e6e38ec 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -440,7 +440,9 @@ namespace threading {
                         }
 
                         // Another task took the lock in the meantime. Give back what was acquired, as that can hand
-                        // tasks to pools (including this one) the mutex must not be held, and try again.
+                        // tasks to pools (including this one) the mutex must not be held, and try again. The pool isn't idle
+                        // meanwhile.
+                        thread_idle[std::this_thread::get_id()] = nullptr;
                         lock.unlock();
                         task.lock->unlock();
                         lock.lock();
-- 
2.43.0


From 1cd3cc73627c2d915d9da3620e37b8951623e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:06 +0000
Subject: [PATCH 19/49] fix: what was submitted before the start didn't keep
 its pool from counting as idle

---
 src/threading/scheduler/Scheduler.cpp | 19 +++++++++++--------
 src/threading/scheduler/Scheduler.hpp |  9 +++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 4ad5f7c..643a68a 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -208,6 +208,12 @@ namespace threading {
             return groups.at(desc);
         }
 
+        bool Scheduler::current_pool_idle() const {
+            // Before the start pools only count as idle because they had no chance to do anything yet
+            const auto current_pool = Pool::current();
+            return started.load(std::memory_order_acquire) && current_pool != nullptr && current_pool->is_idle();
+        }
+
         std::unique_ptr<Lock> Scheduler::get_groups_lock(
             const NUClear::id_t& task_id,
             const int& priority,
@@ -222,10 +228,8 @@ namespace threading {
             // Make a lock which waits for all the groups to be unlocked
             auto lock = std::make_unique<CombinedLock>();
             for (const auto& desc : descs) {
-                lock->add(get_group(desc)->lock(task_id, priority, [pool] {
-                    const auto current_pool = Pool::current();
-                    const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
-                    pool->notify(!current_pool_idle);
+                lock->add(get_group(desc)->lock(task_id, priority, [this, pool] {
+                    pool->notify(!current_pool_idle());
                 }));
             }
 
@@ -270,8 +274,7 @@ namespace threading {
                 }
             }
 
-            const auto current_pool = Pool::current();
-            const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
+            const bool clear_idle = !current_pool_idle();
 
             // Fast path for a single group: lock-free token acquisition and waiter buckets
             if (task->group_descriptors.size() == 1) {
@@ -284,7 +287,7 @@ namespace threading {
                     }
                 }
 
-                group->try_submit(std::move(task), pool, !current_pool_idle);
+                group->try_submit(std::move(task), pool, clear_idle);
                 return;
             }
 
@@ -298,7 +301,7 @@ namespace threading {
                 if (group_lock != nullptr) {
                     group_lock->unlock();
                 }
-                pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
+                pool->submit({std::move(task), std::move(group_lock)}, clear_idle);
             }
         }
 
diff --git a/src/threading/scheduler/Scheduler.hpp b/src/threading/scheduler/Scheduler.hpp
index 3470359..36d54f9 100644
--- a/src/threading/scheduler/Scheduler.hpp
+++ b/src/threading/scheduler/Scheduler.hpp
@@ -142,6 +142,15 @@ namespace threading {
              */
             std::shared_ptr<Group> get_group(const std::shared_ptr<const util::GroupDescriptor>& desc);
 
+            /**
+             * Check if the current thread belongs to a pool that is idle.
+             *
+             * What such a thread submits are idle reactions, which don't end the idle period of the pools they run on.
+             *
+             * @return true if the current thread belongs to a pool of a started scheduler that is idle
+             */
+            bool current_pool_idle() const;
+
             /**
              * Gets a lock object for all the groups listed in the descriptors.
              *
-- 
2.43.0


From 2cd18e2541d032cb489d27624fea9a0baf39ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 20/49] fix: a task whose lock was taken while it was dequeued
 could wait forever, as its release was announced before it was back

---
 src/threading/scheduler/Pool.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index e6e38ec..591a802 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -449,6 +449,8 @@ namespace threading {
                         const std::size_t bucket = queue::priority_index(task.task->priority);
                         pending_tasks.fetch_add(1, std::memory_order_release);
                         blocked[bucket].push_back(std::move(task));
+                        // Whoever was told that it can be locked meanwhile looked for it before it was back
+                        live = true;
                         continue;
                     }
                 }
-- 
2.43.0


From 97601097b341be51235e203cfc08a0ca1aec1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 21/49] fix: one wait of the chrono controller that took long,
 or time travelling, made it hold its mutex almost all the time

---
 src/extension/ChronoController.cpp | 72 ++++++++++++++++++------------
 src/extension/ChronoController.hpp | 14 +++++-
 2 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index 73ff1fe..c62b7c4 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -40,6 +40,13 @@
 namespace NUClear {
 namespace extension {
 
+    namespace {
+        /// The longest we sleep without looking if there is something else to do
+        constexpr std::chrono::nanoseconds MAX_SLEEP = std::chrono::milliseconds(1);
+        /// The worst accuracy that we will believe a wait to have
+        constexpr std::chrono::nanoseconds MAX_ACCURACY = std::chrono::milliseconds(20);
+    }  // namespace
+
     ChronoController::ChronoController(std::unique_ptr<NUClear::Environment> environment)
         : Reactor(std::move(environment)) {
 
@@ -48,20 +55,15 @@ namespace extension {
             // Estimate the accuracy of our cv wait
             std::mutex test;
             std::unique_lock<std::mutex> lock(test);
-            const auto cv_s = NUClear::clock::now();
-            wait.wait_for(lock, std::chrono::milliseconds(1));
-            const auto cv_e = NUClear::clock::now();
-            const auto cv_a = NUClear::clock::duration(cv_e - cv_s - std::chrono::milliseconds(1));
+            const auto cv_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
+            if (wait.wait_until(lock, cv_end) == std::cv_status::timeout) {
+                learn_accuracy(cv_accuracy, cv_end);
+            }
 
             // Estimate the accuracy of our precise sleep
-            const auto ns_s = NUClear::clock::now();
+            const auto ns_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
             util::precise_sleep(std::chrono::milliseconds(1));
-            const auto ns_e = NUClear::clock::now();
-            const auto ns_a = NUClear::clock::duration(ns_e - ns_s - std::chrono::milliseconds(1));
-
-            // Use the largest time we have seen
-            cv_accuracy = cv_a > cv_accuracy ? cv_a : cv_accuracy;
-            ns_accuracy = ns_a > ns_accuracy ? ns_a : ns_accuracy;
+            learn_accuracy(ns_accuracy, ns_end);
         }
 
         on<Trigger<ChronoTask>>().then("Add Chrono task", [this](const std::shared_ptr<const ChronoTask>& task) {
@@ -164,35 +166,37 @@ namespace extension {
                         execute_front(lock);
                     }
                     else {
-                        const NUClear::clock::duration time_until_task =
-                            std::chrono::duration_cast<NUClear::clock::duration>((target - start) / clock::rtf());
+                        const double rtf = clock::rtf();
 
-                        if (clock::rtf() == 0.0) {
+                        if (rtf == 0.0) {
                             // If we are paused then just wait until we are unpaused
                             wait.wait(lock);
+                            continue;
                         }
-                        else if (time_until_task > cv_accuracy) {  // A long time in the future
-                            // Wait on the cv
-                            wait.wait_for(lock, time_until_task - cv_accuracy);
 
-                            // Update the accuracy of our cv wait
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
-                            if (error.count() > 0) {                          // only if we were late
-                                cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
+                        // Look again after a while if it is very far away, what that takes may not fit in a duration
+                        const auto time_until_task = std::chrono::duration_cast<std::chrono::nanoseconds>(
+                            std::min(std::chrono::duration<double, std::nano>(target - start) / rtf,
+                                     std::chrono::duration<double, std::nano>(std::chrono::hours(1))));
+
+                        if (time_until_task > cv_accuracy) {  // A long time in the future
+                            // Wait on the cv
+                            const auto end = std::chrono::steady_clock::now() + (time_until_task - cv_accuracy);
+                            if (wait.wait_until(lock, end) == std::cv_status::timeout) {
+                                // Update the accuracy of our cv wait
+                                learn_accuracy(cv_accuracy, end);
                             }
                         }
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
-                            // Wait on nanosleep
-                            const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            // Wait on nanosleep, letting others have the mutex and looking for what they did in between
+                            const auto sleep_time =
+                                std::min<std::chrono::nanoseconds>(time_until_task - ns_accuracy, MAX_SLEEP);
+                            lock.unlock();
+                            const auto end = std::chrono::steady_clock::now() + sleep_time;
                             util::precise_sleep(sleep_time);
 
                             // Update the accuracy of our precise sleep
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - ns_accuracy);  // when ended - when wanted to end
-                            if (error.count() > 0) {                          // only if we were late
-                                ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
-                            }
+                            learn_accuracy(ns_accuracy, end);
                         }
                         else {
                             // Spinlock until we get to the time, letting others have the mutex
@@ -205,6 +209,16 @@ namespace extension {
         });
     }
 
+    void ChronoController::learn_accuracy(std::chrono::nanoseconds& accuracy,
+                                          const std::chrono::steady_clock::time_point& end) {
+        // How late are we? This uses the steady clock as the others can be adjusted while we wait. A single wait that was
+        // held up for very long says nothing about those to come.
+        const auto error = std::min<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - end, MAX_ACCURACY);
+        if (error.count() > 0) {  // only if we were late
+            accuracy = error > accuracy ? error : ((accuracy * 99 + error) / 100);
+        }
+    }
+
     void ChronoController::execute_front(std::unique_lock<std::mutex>& lock) {
         // Move the task out of the list
         std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index f097b33..bb7c3d9 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -24,6 +24,7 @@
 #define NUCLEAR_EXTENSION_CHRONO_CONTROLLER_HPP
 
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <memory>
 #include <mutex>
@@ -73,10 +74,19 @@ namespace extension {
         /// How far the tasks have been moved in time since the task started to execute
         NUClear::clock::duration shift{0};
 
+        /**
+         * Updates the estimated accuracy of a kind of wait after such a wait.
+         *
+         * @param accuracy The estimated accuracy
+         * @param end      The time the wait should have ended
+         */
+        static void learn_accuracy(std::chrono::nanoseconds& accuracy,
+                                   const std::chrono::steady_clock::time_point& end);
+
         /// The temporal accuracy when waiting on a condition variable
-        NUClear::clock::duration cv_accuracy{0};
+        std::chrono::nanoseconds cv_accuracy{0};
         /// The temporal accuracy when waiting on nanosleep
-        NUClear::clock::duration ns_accuracy{0};
+        std::chrono::nanoseconds ns_accuracy{0};
     };
 
 }  // namespace extension
-- 
2.43.0


From bccea4a212001724f435375c3d1ce1f1d282b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 22/49] fix: unbinding a watchdog without a key left its
 service time behind, servicing it afterwards looked like it worked

---
 src/dsl/word/Watchdog.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index c8a1bf9..08665a4 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -151,7 +151,12 @@ namespace dsl {
          */
         template <typename WatchdogGroup>
         struct WatchdogDataStore<WatchdogGroup, void> {
-            using WatchdogStore = util::TypeMap<WatchdogGroup, void, NUClear::clock::time_point>;
+            /// The service time, and how many watchdogs are using it
+            struct Entry {
+                NUClear::clock::time_point time;
+                std::size_t users{0};
+            };
+            using WatchdogStore = util::TypeMap<WatchdogGroup, void, Entry>;
 
             /// See the documentation on the runtime-arg specialisation.
             static std::mutex& mutex() {
@@ -165,8 +170,11 @@ namespace dsl {
             static void init() {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<NUClear::clock::time_point>(NUClear::clock::now()));
+                    auto entry  = std::make_shared<Entry>();
+                    entry->time = NUClear::clock::now();
+                    WatchdogStore::set(entry);
                 }
+                ++WatchdogStore::get()->users;
             }
 
             /**
@@ -181,7 +189,7 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return *WatchdogStore::get();
+                return WatchdogStore::get()->time;
             }
 
             /**
@@ -193,16 +201,17 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                *WatchdogStore::get() = NUClear::clock::now();
+                WatchdogStore::get()->time = NUClear::clock::now();
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup watchdog.
+             * Cleans up any allocated storage for the WatchdogGroup watchdog once nobody uses it any more
              */
             static void unbind() {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get().reset();
+                const auto entry = WatchdogStore::get();
+                if (entry != nullptr && --entry->users == 0) {
+                    WatchdogStore::set(nullptr);
                 }
             }
         };
@@ -310,9 +319,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
+                    r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
                     // Remove the active service time from the data store
                     WatchdogDataStore<WatchdogGroup>::unbind();
-                    r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
                 });
 
                 // Send our configuration out
-- 
2.43.0


From cd5e0c01a4887bb9bb8bd17a2d3563c2be316399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 23/49] fix: a watchdog that was checked late fired for the
 time before its last service as well

---
 src/dsl/word/Watchdog.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index 08665a4..41626f4 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_DSL_WORD_WATCHDOG_HPP
 #define NUCLEAR_DSL_WORD_WATCHDOG_HPP
 
+#include <algorithm>
 #include <cstddef>
 #include <map>
 #include <mutex>
@@ -350,7 +351,8 @@ namespace dsl {
                 // Check if our watchdog has timed out
                 if (NUClear::clock::now() > (service_time + period(ticks))) {
                     // Automatically service the watchdog first, submitting can run the reaction inline
-                    time += period(ticks);
+                    // If it was serviced since the time we were meant to check, the time before that doesn't count
+                    time = std::max(time, NUClear::clock::time_point(service_time + period(ticks))) + period(ticks);
 
                     // Submit the reaction to the thread pool
                     reaction->reactor.powerplant.submit(reaction->get_task());
-- 
2.43.0


From 4fa518dd1fd3d667270f4f8ea0f80bb807b74be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:25 +0000
Subject: [PATCH 24/49] fix: a watchdog fired although it was serviced in time
 if the check was held up half way

---
 src/dsl/word/Watchdog.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index 41626f4..4d3eb3a 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -301,7 +301,10 @@ namespace dsl {
                 // Send our configuration out
                 reaction->reactor.emit<emit::Inline>(std::make_unique<operation::ChronoTask>(
                     [reaction, data](NUClear::clock::time_point& time) {
+                        // The time comes first, who services the watchdog while we are held up here is not too late
+                        const auto now = NUClear::clock::now();
                         return Watchdog::chrono_task(reaction,
+                                                     now,
                                                      WatchdogDataStore<WatchdogGroup, RuntimeType>::get(data),
                                                      time);
                     },
@@ -328,7 +331,9 @@ namespace dsl {
                 // Send our configuration out
                 reaction->reactor.emit<emit::Inline>(std::make_unique<operation::ChronoTask>(
                     [reaction](NUClear::clock::time_point& time) {
-                        return Watchdog::chrono_task(reaction, WatchdogDataStore<WatchdogGroup>::get(), time);
+                        // The time comes first, who services the watchdog while we are held up here is not too late
+                        const auto now = NUClear::clock::now();
+                        return Watchdog::chrono_task(reaction, now, WatchdogDataStore<WatchdogGroup>::get(), time);
                     },
                     NUClear::clock::now() + period(ticks),
                     reaction->id));
@@ -339,17 +344,19 @@ namespace dsl {
              * updates the service time for the current reaction.
              *
              * @param reaction     The reaction we are servicing
+             * @param now          The time when the service time was looked up
              * @param service_time The last service time of the watchdog
              * @param time         The time when this watchdog should be checked next
              *
              * @return `true` if the chrono task should run again
              */
             static bool chrono_task(const std::shared_ptr<threading::Reaction>& reaction,
+                                    const NUClear::clock::time_point& now,
                                     const NUClear::clock::time_point& service_time,
                                     NUClear::clock::time_point& time) {
 
                 // Check if our watchdog has timed out
-                if (NUClear::clock::now() > (service_time + period(ticks))) {
+                if (now > (service_time + period(ticks))) {
                     // Automatically service the watchdog first, submitting can run the reaction inline
                     // If it was serviced since the time we were meant to check, the time before that doesn't count
                     time = std::max(time, NUClear::clock::time_point(service_time + period(ticks))) + period(ticks);
-- 
2.43.0


From ce47a01b1be15ff32736012028925b2adb10da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:36 +0000
Subject: [PATCH 25/49] fix: reading the clock while it was adjusted several
 times mixed these adjustments

---
 src/clock.cpp | 58 +++++++++++++++++++++++++++++++++++++--------------
 src/clock.hpp | 36 ++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/src/clock.cpp b/src/clock.cpp
index 3e5831b..80937c8 100644
--- a/src/clock.cpp
+++ b/src/clock.cpp
@@ -35,51 +35,77 @@ namespace {
     }
 }  // namespace
 
+clock::ClockSlot::ClockSlot() : base_from(base_clock::now().time_since_epoch().count()), epoch(base_from.load()), rtf(1.0) {}
+
+clock::ClockData clock::load() {
+    while (true) {
+        const std::uint64_t version = active.load(std::memory_order_acquire);
+        const auto& slot            = data[version % data.size()];
+
+        ClockData current;
+        current.base_from = time_point(duration(slot.base_from.load(std::memory_order_relaxed)));
+        current.epoch     = time_point(duration(slot.epoch.load(std::memory_order_relaxed)));
+        current.rtf       = slot.rtf.load(std::memory_order_relaxed);
+
+        // If there were so many adjustments while we were reading that this place may have been reused, try again
+        std::atomic_thread_fence(std::memory_order_acquire);
+        if (active.load(std::memory_order_relaxed) - version < data.size() - 1) {
+            return current;
+        }
+    }
+}
+
+void clock::store(const ClockData& next) {
+    const std::uint64_t version = active.load(std::memory_order_relaxed) + 1;
+    auto& slot                  = data[version % data.size()];
+
+    // Who reads something of what follows sees that the previous adjustment is complete
+    std::atomic_thread_fence(std::memory_order_release);
+    slot.base_from.store(next.base_from.time_since_epoch().count(), std::memory_order_relaxed);
+    slot.epoch.store(next.epoch.time_since_epoch().count(), std::memory_order_relaxed);
+    slot.rtf.store(next.rtf, std::memory_order_relaxed);
+    active.store(version, std::memory_order_release);
+}
+
 clock::time_point clock::now() {
-    const ClockData current = data[active.load(std::memory_order_acquire)];  // Take a copy in case it changes
+    const ClockData current = load();
     return current.epoch + dc((base_clock::now() - current.base_from) * current.rtf);
 }
 
 void clock::adjust_clock(const duration& adjustment, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
     // Load the current state
-    const int c         = active.load(std::memory_order_relaxed);
-    const auto& current = data[c];
-    const auto n        = int((c + 1) % data.size());
-    auto& next          = data[n];
+    const ClockData current = load();
 
     // Perform the update
+    ClockData next;
     auto base      = base_clock::now();
     next.epoch     = current.epoch + adjustment + dc((base - current.base_from) * current.rtf);
     next.base_from = base;
     next.rtf       = rtf;
-    active.store(n, std::memory_order_release);
+    store(next);
 }
 
 void clock::set_clock(const time_point& time, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
-    // Load the next state
-    const int c = active.load(std::memory_order_acquire);
-    const int n = int((c + 1) % data.size());
-    auto& next  = data[n];
 
     // Perform the update
-    auto base      = base_clock::now();
+    ClockData next;
     next.epoch     = time;
-    next.base_from = base;
+    next.base_from = base_clock::now();
     next.rtf       = rtf;
-    active         = n;
+    store(next);
 }
 
 double clock::rtf() {
-    return data[active.load(std::memory_order_acquire)].rtf;
+    return load().rtf;
 }
 
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
 std::mutex clock::mutex;
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::array<clock::ClockData, 3> clock::data = std::array<typename clock::ClockData, 3>{};
+std::array<clock::ClockSlot, 3> clock::data;
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::atomic<int> clock::active{0};
+std::atomic<std::uint64_t> clock::active{0};
 
 }  // namespace NUClear
diff --git a/src/clock.hpp b/src/clock.hpp
index 75fbc99..289d5f6 100644
--- a/src/clock.hpp
+++ b/src/clock.hpp
@@ -26,6 +26,7 @@
 #include <array>
 #include <atomic>
 #include <chrono>
+#include <cstdint>
 #include <mutex>
 
 namespace NUClear {
@@ -79,23 +80,46 @@ private:
      */
     struct ClockData {
         /// When the clock was last updated under the true time
-        time_point base_from = base_clock::now();
+        time_point base_from;
         /// Our calculated time when the clock was last updated in simulated time
-        time_point epoch = base_from;
+        time_point epoch;
         /// The real time factor of the simulated clock
         double rtf = 1.0;
+    };
+
+    /**
+     * A place for clock information that can be read while it is replaced.
+     */
+    struct ClockSlot {
+        std::atomic<rep> base_from;
+        std::atomic<rep> epoch;
+        std::atomic<double> rtf;
 
-        ClockData() = default;
+        ClockSlot();
     };
 
+    /**
+     * Get the clock information as the latest complete adjustment left it.
+     *
+     * @return a consistent copy of the clock information
+     */
+    static ClockData load();
+
+    /**
+     * Replace the clock information, the mutex must be held.
+     *
+     * @param next the clock information to use from now on
+     */
+    static void store(const ClockData& next);
+
     /// The mutex to protect the clock data
     static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     /// The clock data for the system
-    static std::array<ClockData, 3> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    static std::array<ClockSlot, 3> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
-    /// The active clock data index
-    static std::atomic<int> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    /// How many times the clock was adjusted, which determines the active clock data
+    static std::atomic<std::uint64_t> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 };
 
 }  // namespace NUClear
-- 
2.43.0


From 77d7da95648cdca93d2a565f99e7d3cdef33e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:02 +0000
Subject: [PATCH 26/49] fix: Always reactions with Priority::IDLE (or waiting
 for a group) multiplied without bound

---
 src/dsl/word/Always.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsl/word/Always.hpp b/src/dsl/word/Always.hpp
index b522ae0..9690129 100644
--- a/src/dsl/word/Always.hpp
+++ b/src/dsl/word/Always.hpp
@@ -138,7 +138,10 @@ namespace dsl {
 
                 idle_task->callback = [](threading::ReactionTask& task) {
                     // Submit the always and idle tasks to the scheduler
-                    PowerPlant::powerplant->submit(task.parent->get_task());
+                    // A task that is waiting (for its group, or as its priority is no higher than ours) goes on by itself
+                    if (task.parent->active_tasks == 0) {
+                        PowerPlant::powerplant->submit(task.parent->get_task());
+                    }
                     PowerPlant::powerplant->submit(make_idle_task<DSL>(task.parent));
                 };
 
-- 
2.43.0


From 3826fe348ce57b5150a85cac7cc023549fbd2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:41 +0000
Subject: [PATCH 27/49] fix: a UDP reaction ran again with its previous packet
 when a packet was not for it or could not be received

---
 src/dsl/word/UDP.hpp | 48 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 04206ec..c215f1d 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -28,6 +28,7 @@
 
 #include "../../threading/Reaction.hpp"
 #include "../../util/FileDescriptor.hpp"
+#include "../../util/MergeTransient.hpp"
 #include "../../util/network/get_interfaces.hpp"
 #include "../../util/network/if_number_from_address.hpp"
 #include "../../util/network/resolve.hpp"
@@ -87,6 +88,8 @@ namespace dsl {
             struct RecvResult {
                 /// If the packet is valid
                 bool valid{false};
+                /// If there was an event on our socket
+                bool event{false};
                 /// The data that was received
                 std::vector<uint8_t> payload;
                 /// The local address that the packet was received on
@@ -101,6 +104,8 @@ namespace dsl {
 
                 /// If the packet is valid (it contains data)
                 bool valid{false};
+                /// If our socket had an event but that was no packet for us, then there is no data (not even an earlier packet)
+                bool rejected{false};
 
                 /// The information about this packets destination
                 util::network::sock_t local{};
@@ -319,10 +324,13 @@ namespace dsl {
                 // Get our file descriptor from the magic cache
                 auto event = IO::get<DSL>(task);
 
+                RecvResult result{};
+                result.event = event;
+
                 // If our get is being run without an fd (something else triggered)
                 // Or if the event is not a read event then short circuit
                 if (!event || (event.events & IO::READ) != IO::READ) {
-                    return {};
+                    return result;
                 }
 
                 // Allocate max size for a UDP packet
@@ -347,7 +355,7 @@ namespace dsl {
                 // Receive our message
                 const ssize_t received = recvmsg(event.fd, &mh, MSG_DONTWAIT);
                 if (received < 0) {
-                    return {};
+                    return result;
                 }
 
                 buffer.resize(received);
@@ -390,7 +398,11 @@ namespace dsl {
                     }
                 }
 
-                return RecvResult{true, buffer, local, remote};
+                result.valid   = true;
+                result.payload = std::move(buffer);
+                result.local   = local;
+                result.remote  = remote;
+                return result;
             }
 
             template <typename DSL>
@@ -430,7 +442,9 @@ namespace dsl {
                     }
                 }
 
-                return {};
+                Packet none{};
+                none.rejected = result.event;
+                return none;
             }
 
             struct Broadcast : IO {
@@ -472,7 +486,9 @@ namespace dsl {
                         }
                     }
 
-                    return {};
+                    Packet none{};
+                    none.rejected = result.event;
+                    return none;
                 }
             };
 
@@ -507,7 +523,9 @@ namespace dsl {
                         return p;
                     }
 
-                    return {};
+                    Packet none{};
+                    none.rejected = result.event;
+                    return none;
                 }
             };
         };
@@ -521,6 +539,24 @@ namespace dsl {
 
     }  // namespace trait
 }  // namespace dsl
+
+namespace util {
+
+    // The last packet is only used again if it was something else that triggered the reaction
+    template <>
+    struct MergeTransients<dsl::word::UDP::Packet> {
+        static bool merge(dsl::word::UDP::Packet& t, dsl::word::UDP::Packet& d) {
+            if (d.valid) {
+                t = d;
+            }
+            else if (!d.rejected) {
+                d = t;
+            }
+            return true;
+        }
+    };
+
+}  // namespace util
 }  // namespace NUClear
 
 #endif  // NUCLEAR_DSL_WORD_UDP_HPP
-- 
2.43.0


From 5a5e50a63304e1969ba529d60fce141978464899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:41 +0000
Subject: [PATCH 28/49] fix: a TCP reaction got descriptor 0 as a valid
 connection when accept failed

---
 src/dsl/word/TCP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 12c2ae9..1cfb216 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -72,7 +72,7 @@ namespace dsl {
                 util::network::sock_t remote;
 
                 /// The file descriptor for the connection
-                fd_t fd;
+                fd_t fd{INVALID_SOCKET};
 
                 /**
                  * Casts this packet to a boolean to check if it is valid
-- 
2.43.0


From f615ace464c65de41e96b863b52adc84b1e168f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:41 +0000
Subject: [PATCH 29/49] fix: a connection that was aborted before it was
 accepted blocked the IO system until the next one

---
 src/dsl/word/TCP.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 1cfb216..287ff20 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -63,7 +63,17 @@ namespace dsl {
          *  Bind
          */
         struct TCP : IO {
+        private:
+            static bool set_blocking(const fd_t& fd, const bool& blocking) {
+#ifdef _WIN32
+                u_long value = blocking ? 0 : 1;
+#else
+                int value = blocking ? 0 : 1;
+#endif
+                return ::ioctl(fd, FIONBIO, &value) == 0;
+            }
 
+        public:
             struct Connection {
 
                 /// The local address of the connection
@@ -123,6 +133,13 @@ namespace dsl {
                                             "Unable to listen on the TCP socket");
                 }
 
+                // A connection can be gone by the time we accept it, and we must not wait for the next one then
+                if (!set_blocking(fd, false)) {
+                    throw std::system_error(network_errno,
+                                            std::system_category(),
+                                            "Unable to make the TCP socket non-blocking");
+                }
+
                 // Get the port we ended up listening on
                 socklen_t len = sizeof(address);
                 if (::getsockname(fd, &address.sock, &len) == -1) {
@@ -180,6 +197,9 @@ namespace dsl {
                     return Connection{};
                 }
 
+                // On some platforms it gets this from the listening socket
+                set_blocking(fd, true);
+
                 return Connection{local, remote, fd.release()};
             }
         };
-- 
2.43.0


From 6c56ab50a3db51f6c0c8b776e4646cd14573d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 30/49] fix: reading from the network cut off datagrams above
 1500 bytes, could block the thread, and stopped at empty datagrams and errors

---
 src/extension/network/NUClearNetwork.cpp | 65 +++++++++++++-----------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 11839da..f4645c1 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <functional>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <mutex>
 #include <stdexcept>
@@ -53,20 +54,21 @@ namespace extension {
             /**
              * Read a single packet from the given udp file descriptor.
              *
-             * @param fd The file descriptor to read from
+             * @param fd     The file descriptor to read from
+             * @param buffer A buffer that is large enough for any datagram
+             * @param from   Who the packet was sent from
+             * @param data   The data that was received
              *
-             * @return The data and who it was sent from
+             * @return true if there was a packet and it was read, false otherwise
              */
-            std::pair<util::network::sock_t, std::vector<uint8_t>> read_socket(fd_t fd) {
+            bool read_socket(fd_t fd,
+                             std::vector<uint8_t>& buffer,
+                             util::network::sock_t& from,
+                             std::vector<uint8_t>& data) {
 
-                // Allocate a vector that can hold a datagram
-                std::vector<uint8_t> payload(1500);
                 iovec iov{};
-                iov.iov_base = reinterpret_cast<char*>(payload.data());
-                iov.iov_len  = static_cast<decltype(iov.iov_len)>(payload.size());
-
-                // Who we are receiving from
-                util::network::sock_t from{};
+                iov.iov_base = reinterpret_cast<char*>(buffer.data());
+                iov.iov_len  = static_cast<decltype(iov.iov_len)>(buffer.size());
 
                 // Setup our message header to receive
                 msghdr mh{};
@@ -75,11 +77,20 @@ namespace extension {
                 mh.msg_iov     = &iov;
                 mh.msg_iovlen  = 1;
 
-                // Now read the data for real
-                const ssize_t received = recvmsg(fd, &mh, 0);
-                payload.resize(received);
+                // Now read the data for real, without ever waiting for it
+#ifdef MSG_DONTWAIT
+                const ssize_t received = recvmsg(fd, &mh, MSG_DONTWAIT);
+#else
+                unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
+                ioctl(fd, FIONREAD, &count);
+                const ssize_t received = count > 0 ? recvmsg(fd, &mh, 0) : -1;
+#endif
+                if (received < 0) {
+                    return false;
+                }
+                data.assign(buffer.begin(), std::next(buffer.begin(), received));
 
-                return {from, std::move(payload)};
+                return true;
             }
 
         }  // namespace
@@ -464,23 +475,15 @@ namespace extension {
                 retransmit();
             }
 
-            // Used for storing how many bytes are available on a socket
-            unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
-
-            // Read packets from the multicast socket while there is data available
-            ioctl(announce_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(announce_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(announce_fd, FIONREAD, &(count = 0));
-            }
-
-            // Check if we have a packet available on the data socket
-            ioctl(data_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(data_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(data_fd, FIONREAD, &(count = 0));
+            // Read packets from the multicast socket and then the data socket while there are any available
+            // NOTE: the number of available bytes can't be used to find out, a datagram can be empty
+            std::vector<uint8_t> buffer(std::numeric_limits<uint16_t>::max());
+            for (const auto& fd : {announce_fd, data_fd}) {
+                sock_t from{};
+                std::vector<uint8_t> data;
+                while (read_socket(fd, buffer, from, data)) {
+                    process_packet(from, std::move(data));
+                }
             }
         }
 
-- 
2.43.0


From 2fd88c47f178c3b2ba8890496f6fd1dbb9d4520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 31/49] fix: a node stopped announcing itself for good when an
 event came early or an announcement failed

---
 src/extension/network/NUClearNetwork.cpp | 36 +++++++++++++++---------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index f4645c1..2a80509 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -429,18 +429,9 @@ namespace extension {
             auto now = std::chrono::steady_clock::now();
 
             // Check if we should announce now
-            if (now - last_announce > std::chrono::milliseconds(500)) {
+            const bool announce_due = now - last_announce >= std::chrono::milliseconds(500);
+            if (announce_due) {
                 last_announce = now;
-                announce();
-
-                // Update our event timer
-                auto next_announce = now + std::chrono::milliseconds(500);
-                if (next_announce > next_event) {
-                    next_event = next_announce;
-
-                    // Let the system know when we need attention again
-                    next_event_callback(next_event);
-                }
             }
 
             // We need to make this list outside mutex scope in case the callback needs the mutex
@@ -471,9 +462,7 @@ namespace extension {
             }
 
             // Check if we have packets to resend and if so resend
-            if (!send_queue.empty()) {
-                retransmit();
-            }
+            retransmit();
 
             // Read packets from the multicast socket and then the data socket while there are any available
             // NOTE: the number of available bytes can't be used to find out, a datagram can be empty
@@ -485,6 +474,25 @@ namespace extension {
                     process_packet(from, std::move(data));
                 }
             }
+
+            // Whatever comes next, the next announce must not be missed
+            /* Mutex Scope */ {
+                const std::lock_guard<std::mutex> lock(send_queue_mutex);
+                auto next_announce = last_announce + std::chrono::milliseconds(500);
+
+                // Events that have already happened don't count, even if they happened too early for the next announce
+                if (next_event <= now || announce_due) {
+                    next_event = next_announce;
+
+                    // Let the system know when we need attention again
+                    next_event_callback(next_event);
+                }
+            }
+
+            // This is last so if it fails everything else was still done, and it will be tried again
+            if (announce_due) {
+                announce();
+            }
         }
 
         void NUClearNetwork::retransmit() {
-- 
2.43.0


From 485b0c0cdec7efa640de9057b855471262b07d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:57 +0000
Subject: [PATCH 32/49] fix: a node that was held up reported all of its peers
 as left although their packets were waiting to be read

---
 src/extension/network/NUClearNetwork.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 2a80509..932a1b7 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -434,10 +434,22 @@ namespace extension {
                 last_announce = now;
             }
 
+            // Read packets from the multicast socket and then the data socket while there are any available
+            // NOTE: the number of available bytes can't be used to find out, a datagram can be empty
+            std::vector<uint8_t> buffer(std::numeric_limits<uint16_t>::max());
+            for (const auto& fd : {announce_fd, data_fd}) {
+                sock_t from{};
+                std::vector<uint8_t> data;
+                while (read_socket(fd, buffer, from, data)) {
+                    process_packet(from, std::move(data));
+                }
+            }
+
             // We need to make this list outside mutex scope in case the callback needs the mutex
             std::vector<std::shared_ptr<NetworkTarget>> leavers;
 
             // Check if any of our existing connections have timed out
+            // This must be after reading, as what a connection sent might have been waiting for us (if we were held up)
             /* Mutex Scope */ {
                 const std::lock_guard<std::mutex> lock(target_mutex);
 
@@ -464,17 +476,6 @@ namespace extension {
             // Check if we have packets to resend and if so resend
             retransmit();
 
-            // Read packets from the multicast socket and then the data socket while there are any available
-            // NOTE: the number of available bytes can't be used to find out, a datagram can be empty
-            std::vector<uint8_t> buffer(std::numeric_limits<uint16_t>::max());
-            for (const auto& fd : {announce_fd, data_fd}) {
-                sock_t from{};
-                std::vector<uint8_t> data;
-                while (read_socket(fd, buffer, from, data)) {
-                    process_packet(from, std::move(data));
-                }
-            }
-
             // Whatever comes next, the next announce must not be missed
             /* Mutex Scope */ {
                 const std::lock_guard<std::mutex> lock(send_queue_mutex);
-- 
2.43.0


From 94595b3f93a254fa0de0c8fe5bf01def6c03d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 33/49] fix: reliable messages were delivered twice when the
 network duplicated them or 256 others came in between

---
 src/extension/network/NUClearNetwork.cpp | 34 +++++++++++-------------
 src/extension/network/NUClearNetwork.hpp | 32 +++++++++++++++-------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 932a1b7..c0d0ccc 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -684,18 +684,20 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
-                            // Check if this packet is a retransmission of data
-                            if (header.type == DATA_RETRANSMISSION) {
+                            // See if we recently processed this packet
+                            bool received = false;
+                            /* Mutex scope */ {
+                                const std::lock_guard<std::mutex> lock(remote->assemblers_mutex);
+                                remote->update_recent_packets(packet.packet_id);
+                                received = remote->recent_packets.test(packet.packet_id);
+                            }
 
-                                // See if we recently processed this packet
-                                // NOLINTNEXTLINE(readability-qualified-auto) MSVC disagrees
-                                auto it = std::find(remote->recent_packets.begin(),
-                                                    remote->recent_packets.end(),
-                                                    packet.packet_id);
+                            // Check if this packet is a retransmission of data or was duplicated by the network
+                            if (packet.reliable) {
 
                                 // We recently processed this packet, this is just a failed ack
                                 // Send the ack again if it was reliable
-                                if (it != remote->recent_packets.end() && packet.reliable) {
+                                if (received) {
 
                                     // Allocate room for the whole ack packet
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -753,9 +755,8 @@ namespace extension {
                                              to.size());
 
                                     // Set this packet to have been recently received
-                                    remote->recent_packets[remote->recent_packets_index
-                                                               .fetch_add(1, std::memory_order_relaxed)] =
-                                        packet.packet_id;
+                                    const std::lock_guard<std::mutex> lock(remote->assemblers_mutex);
+                                    remote->recent_packets.set(packet.packet_id);
                                 }
 
                                 packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
@@ -863,17 +864,14 @@ namespace extension {
                                                    &part.data + p.second.size() - sizeof(DataPacket) + 1);
                                     }
 
-                                    // Send our assembled data packet
-                                    packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
-
                                     // If the packet was reliable add that it was recently received
                                     if (packet.reliable) {
-                                        // Set this packet to have been recently received
-                                        remote->recent_packets[remote->recent_packets_index
-                                                                   .fetch_add(1, std::memory_order_relaxed)] =
-                                            packet.packet_id;
+                                        remote->recent_packets.set(packet.packet_id);
                                     }
 
+                                    // Send our assembled data packet
+                                    packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
+
                                     // We have completed this packet, discard the data
                                     assemblers.erase(assemblers.find(packet.packet_id));
                                 }
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e2277af..99bc8af 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -24,8 +24,9 @@
 #define NUCLEAR_EXTENSION_NETWORK_NUCLEAR_NETWORK_HPP
 
 #include <array>
-#include <atomic>
+#include <bitset>
 #include <chrono>
+#include <cstddef>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -56,11 +57,7 @@ namespace extension {
                     std::string name,
                     const sock_t& target,
                     const std::chrono::steady_clock::time_point& last_update = std::chrono::steady_clock::now())
-                    : name(std::move(name)), target(target), last_update(last_update) {
-
-                    // Set our recent packets to an invalid value
-                    recent_packets.fill(-1);
-                }
+                    : name(std::move(name)), target(target), last_update(last_update) {}
 
                 /// The name of the remote target
                 std::string name;
@@ -68,10 +65,10 @@ namespace extension {
                 sock_t target{};
                 /// When we last received data from the remote target
                 std::chrono::steady_clock::time_point last_update;
-                /// A list of the last n packet groups to be received
-                std::array<int, std::numeric_limits<uint8_t>::max()> recent_packets{};
-                /// An index for the recent_packets (circular buffer)
-                std::atomic<uint8_t> recent_packets_index{0};
+                /// The reliable packet groups that have been received, out of the last half of all packet ids
+                std::bitset<size_t(std::numeric_limits<uint16_t>::max()) + 1> recent_packets{};
+                /// The newest packet id that was received
+                uint16_t newest_packet_id{0};
                 /// Mutex to protect the fragmented packet storage
                 std::mutex assemblers_mutex;
                 /// Storage for fragmented packets while we build them
@@ -79,6 +76,21 @@ namespace extension {
                          std::pair<std::chrono::steady_clock::time_point, std::map<uint16_t, std::vector<uint8_t>>>>
                     assemblers;
 
+                /**
+                 * Forget the packet ids that are so old that they will be used again next.
+                 *
+                 * @param packet_id A packet id that was received from this target
+                 */
+                void update_recent_packets(uint16_t packet_id) {
+                    constexpr uint16_t half = 1 << 15;
+                    if (uint16_t(packet_id - newest_packet_id) < half) {
+                        while (newest_packet_id != packet_id) {
+                            ++newest_packet_id;
+                            recent_packets.reset(uint16_t(newest_packet_id + half));
+                        }
+                    }
+                }
+
                 /// Struct storing the kalman filter for round trip time
                 struct RoundTripKF {
                     float process_noise     = 1e-6f;
-- 
2.43.0


From 92b4dfb76cc2893656c6763cae9f829b0bb98e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:25 +0000
Subject: [PATCH 34/49] fix: fragments of a reliable message that had been
 acknowledged were discarded, it could never be completed then

---
 src/extension/network/NUClearNetwork.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index c0d0ccc..680e08e 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -879,9 +879,16 @@ namespace extension {
                                 // Check for and delete any timed out packets
                                 for (auto it = assemblers.begin(); it != assemblers.end();) {
                                     const auto now              = std::chrono::steady_clock::now();
-                                    const auto timeout          = remote->round_trip_time * 10.0;
                                     const auto& last_chunk_time = it->second.first;
 
+                                    // The parts of a reliable packet we have acknowledged won't be sent again, so these
+                                    // must be kept while the other parts could still be retransmitted
+                                    const auto& part = it->second.second.begin()->second;
+                                    const bool keep  = reinterpret_cast<const DataPacket*>(part.data())->reliable;
+                                    const std::chrono::steady_clock::duration minimum = std::chrono::seconds(keep ? 10 : 0);
+                                    const std::chrono::steady_clock::duration timeout =
+                                        std::max(minimum, remote->round_trip_time * 10);
+
                                     it = now > last_chunk_time + timeout ? assemblers.erase(it) : std::next(it);
                                 }
                             }
-- 
2.43.0


From 9cea06d32910a5735f84021f2d207ff3cbaeea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 35/49] fix: messages of 65535 and more fragments were lost or
 delivered cut off

---
 src/extension/network/NUClearNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 680e08e..b939bf3 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -1083,6 +1083,11 @@ namespace extension {
                 throw std::runtime_error("Cannot send messages as the network is not connected");
             }
 
+            // The packets of a message are numbered using 16 bits
+            if (payload.size() / packet_data_mtu >= std::numeric_limits<uint16_t>::max()) {
+                throw std::length_error("Cannot send a message this large with the MTU of the network");
+            }
+
             // The header for our packet
             DataPacket header;
 
-- 
2.43.0


From 8542ca082e349d593241796bfb18b02ab7bb771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:21 +0000
Subject: [PATCH 36/49] fix: nodes that were connected before the network was
 reconfigured were never reported as left, then joined twice

---
 src/extension/network/NUClearNetwork.cpp | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index b939bf3..a20ca74 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -355,17 +355,31 @@ namespace extension {
             // Close our existing FDs if they exist
             shutdown();
 
+            // Clear all our data structures
+            std::list<std::shared_ptr<NetworkTarget>> leavers;
+            /* Mutex Scope */ {
+                std::lock(target_mutex, send_queue_mutex);
+                const std::lock_guard<std::mutex> target_lock(target_mutex, std::adopt_lock);
+                const std::lock_guard<std::mutex> send_lock(send_queue_mutex, std::adopt_lock);
+
+                send_queue.clear();
+                name_target.clear();
+                leavers.swap(targets);
+                udp_target.clear();
+            }
+
+            // Run the callback for everyone we were connected to (all but the announce target which has no name)
+            for (const auto& l : leavers) {
+                if (!l->name.empty()) {
+                    leave_callback(*l);
+                }
+            }
+
             // Lock all mutexes
             std::lock(target_mutex, send_queue_mutex);
             const std::lock_guard<std::mutex> target_lock(target_mutex, std::adopt_lock);
             const std::lock_guard<std::mutex> send_lock(send_queue_mutex, std::adopt_lock);
 
-            // Clear all our data structures
-            send_queue.clear();
-            name_target.clear();
-            targets.clear();
-            udp_target.clear();
-
             // Resolve the announce address and port into a sockaddr
             const util::network::sock_t announce_target = util::network::resolve(address, port);
 
-- 
2.43.0


From d3dbf31912c28ee657d468b8a3ec11627efd299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:56 +0000
Subject: [PATCH 37/49] fix: sending while nodes join or leave read the list of
 nodes without its lock

---
 src/extension/network/NUClearNetwork.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index a20ca74..5806f67 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -1093,8 +1093,11 @@ namespace extension {
                                   bool reliable) {
 
             // If we are not connected throw an error
-            if (targets.empty()) {
-                throw std::runtime_error("Cannot send messages as the network is not connected");
+            /* Mutex Scope */ {
+                const std::lock_guard<std::mutex> lock(target_mutex);
+                if (targets.empty()) {
+                    throw std::runtime_error("Cannot send messages as the network is not connected");
+                }
             }
 
             // The packets of a message are numbered using 16 bits
-- 
2.43.0


From 89e29d6b92d678a290991b819d05a5ee659c18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 38/49] fix: truncated datagrams and fragments beyond the end
 of their message were read out of bounds

---
 src/extension/network/NUClearNetwork.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 5806f67..c4c1981 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -612,6 +612,11 @@ namespace extension {
 
                     // A packet announcing that a user is on the network
                     case ANNOUNCE: {
+                        // If the packet is too short to be an announce packet, ignore it
+                        if (payload.size() < sizeof(AnnouncePacket)) {
+                            return;
+                        }
+
                         // This is an announce packet!
                         const AnnouncePacket& announce = *reinterpret_cast<const AnnouncePacket*>(payload.data());
 
@@ -683,12 +688,17 @@ namespace extension {
                     case DATA_RETRANSMISSION:
                     case DATA: {
 
+                        // If the packet is too short to be a data packet (the data itself may be empty), ignore it
+                        if (payload.size() < sizeof(DataPacket) - 1) {
+                            return;
+                        }
+
                         // It's a data packet
                         const DataPacket& packet = *reinterpret_cast<const DataPacket*>(payload.data());
 
                         // If the packet is obviously corrupt, drop it and since we didn't ack it it'll be resent if
                         // it's important
-                        if (packet.packet_no > packet.packet_count) {
+                        if (packet.packet_no >= packet.packet_count) {
                             return;
                         }
 
@@ -912,6 +922,11 @@ namespace extension {
                     // Packet acknowledging the receipt of a packet of data
                     case ACK: {
 
+                        // If the packet is too short to be an ack packet, ignore it
+                        if (payload.size() < sizeof(ACKPacket)) {
+                            return;
+                        }
+
                         // It's an ack packet
                         const ACKPacket& packet = *reinterpret_cast<const ACKPacket*>(payload.data());
 
@@ -984,6 +999,11 @@ namespace extension {
 
                     // Packet requesting a retransmission of some corrupt data
                     case NACK: {
+                        // If the packet is too short to be a nack packet, ignore it
+                        if (payload.size() < sizeof(NACKPacket)) {
+                            return;
+                        }
+
                         // It's a nack packet
                         const NACKPacket& packet = *reinterpret_cast<const NACKPacket*>(payload.data());
 
-- 
2.43.0


From afe144e3ea174d2d604999f508c1f42c21fb5660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 39/49] fix: a fragment that disagreed with the others about
 their number made the answer overflow its buffer

---
 src/extension/network/NUClearNetwork.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index c4c1981..ac56711 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -813,7 +813,9 @@ namespace extension {
 
                                         // Set the bits for the packets we thought we received
                                         for (const auto& p : assembler.second) {
-                                            (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            if (p.first < packet.packet_count) {
+                                                (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            }
                                         }
 
                                         // Ensure the bit for this packet isn't NACKed
-- 
2.43.0


From 709e225213cec28de1581b0e9fc41847242be3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 40/49] fix: a NACK was answered by reading beyond its end and
 sending packets that don't exist, without the lock of the send queue

---
 src/extension/network/NUClearNetwork.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index ac56711..01947ae 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -1015,6 +1015,9 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
+                            // lock the send queue mutex
+                            const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
+
                             // Check for our packet id in the send queue
                             if (send_queue.count(packet.packet_id) > 0) {
 
@@ -1054,11 +1057,11 @@ namespace extension {
                                     }
 
                                     // Now we have to retransmit the nacked packets
-                                    for (uint16_t i = 0; i < packet.packet_count * 8; ++i) {
+                                    for (uint16_t i = 0; i < packet.packet_count; ++i) {
 
                                         // Check if this packet needs to be sent
                                         const uint8_t bit = 1 << (i % 8);
-                                        if (((&packet.packets)[i] & bit) == bit) {
+                                        if (((&packet.packets)[i / 8] & bit) == bit) {
                                             send_packet(remote->target, queue.header, i, queue.payload, true);
                                         }
                                     }
-- 
2.43.0


From 86bef600995da6e143a00fe0809966ff8238c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 41/49] fix: a datagram that came from the announce address was
 taken as one of a node, a LEAVE from there stopped all announcements

---
 src/extension/network/NUClearNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 01947ae..9d15534 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -606,6 +606,9 @@ namespace extension {
                     const std::lock_guard<std::mutex> lock(target_mutex);
                     auto r = udp_target.find(key);
                     remote = r == udp_target.end() ? nullptr : r->second;
+
+                    // The targets without a name are where we announce to, nobody sends from there
+                    remote = remote && remote->name.empty() ? nullptr : remote;
                 }
 
                 switch (header.type) {
-- 
2.43.0


From 3540bb5da34072a044b58880fdde18b9823ff018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:44 +0000
Subject: [PATCH 42/49] fix: reliable messages of a multiple of 8 fragments
 were kept for good after they had been acknowledged

---
 src/extension/network/NUClearNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 9d15534..f4b6336 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -981,7 +981,7 @@ namespace extension {
                                         s->acked[i] |= (&packet.packets)[i];
 
                                         // Work out what a "fully acked" packet would look like
-                                        const uint8_t expected = i + 1 < s->acked.size() || packet.packet_count % 8 == 0
+                                        const uint8_t expected = i + 1 < s->acked.size()
                                                                      ? 0xFF
                                                                      : 0xFF >> (8 - (packet.packet_count % 8));
 
-- 
2.43.0


From 7f28580175ebed2707eb38520436a860c7fc7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:55 +0000
Subject: [PATCH 43/49] fix: an inline Network reaction that bound or unbound a
 Network reaction locked up its thread

---
 src/extension/NetworkController.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 56158ee..7a72d3f 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -62,25 +62,31 @@ namespace extension {
             // Move the payload in as we are stealing it
             const std::vector<uint8_t> p(std::move(payload));
 
+            // Find interested reactions
+            std::vector<std::shared_ptr<threading::Reaction>> interested;
             /* Mutex Scope */ {
                 // Lock our reaction mutex
                 const std::lock_guard<std::mutex> lock(reaction_mutex);
 
-                // Find interested reactions
                 auto rs = reactions.equal_range(hash);
-
-                // Execute on our interested reactions
                 for (auto it = rs.first; it != rs.second; ++it) {
-                    // Store in our thread local cache
-                    dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
-                    dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
-
-                    powerplant.submit(it->second->get_task());
+                    interested.push_back(it->second);
                 }
+            }
+
+            // Execute on our interested reactions, without the lock as an inline reaction may bind and unbind others
+            for (const auto& reaction : interested) {
+                // Store in our thread local cache
+                dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
+                dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
+
+                auto task = reaction->get_task();
 
                 // Clear our cache
                 dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = nullptr;
                 dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = nullptr;
+
+                powerplant.submit(std::move(task));
             }
         });
 
-- 
2.43.0


From 8307d2d71fb67fbb57318fca2844d728f77055a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:55 +0000
Subject: [PATCH 44/49] fix: a message that couldn't be deserialised stopped
 the processing of the network

---
 src/extension/NetworkController.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 7a72d3f..3434ffc 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -80,7 +80,13 @@ namespace extension {
                 dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
                 dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
 
-                auto task = reaction->get_task();
+                std::unique_ptr<threading::ReactionTask> task;
+                try {
+                    task = reaction->get_task();
+                }
+                catch (const std::exception& e) {
+                    log<LogLevel::ERROR>("Could not deserialise a message from", remote.name, e.what());
+                }
 
                 // Clear our cache
                 dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = nullptr;
-- 
2.43.0


From fa8a631d3e7038350463466537897dcf0a08df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:55 +0000
Subject: [PATCH 45/49] fix: a node didn't announce itself until it had
 received something from the network

---
 src/extension/NetworkController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 3434ffc..e906fb1 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -175,6 +175,9 @@ namespace extension {
             for (auto& fd : network.listen_fds()) {
                 listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
             }
+
+            // Start announcing
+            emit(std::make_unique<ProcessNetwork>());
         });
     }
 
-- 
2.43.0


From b858a9f42bb04d8a8973c55f5107186bd916392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 46/49] fix: the network was processed and reconfigured by
 several threads at once

---
 src/extension/NetworkController.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index e906fb1..24e9fdb 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -25,6 +25,7 @@
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <utility>
@@ -146,10 +147,10 @@ namespace extension {
             network.send(emit.hash, emit.payload, emit.target, emit.reliable);
         });
 
-        on<Shutdown>().then("Shutdown Network", [this] { network.shutdown(); });
+        on<Shutdown, Sync<NetworkController>>().then("Shutdown Network", [this] { network.shutdown(); });
 
         // Configure the NUClearNetwork options
-        on<Trigger<NetworkConfiguration>>().then([this](const NetworkConfiguration& config) {
+        on<Trigger<NetworkConfiguration>, Sync<NetworkController>>().then([this](const NetworkConfiguration& config) {
             // Unbind our announce handle
             if (process_handle) {
                 process_handle.unbind();
@@ -170,10 +171,13 @@ namespace extension {
             network.reset(name, config.announce_address, config.announce_port, config.bind_address, config.mtu);
 
             // Execution handle
-            process_handle = on<Trigger<ProcessNetwork>>().then("Network processing", [this] { network.process(); });
+            process_handle = on<Trigger<ProcessNetwork>, Sync<NetworkController>>().then("Network processing",
+                                                                                         [this] { network.process(); });
 
             for (auto& fd : network.listen_fds()) {
-                listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
+                listen_handles.push_back(on<IO, Sync<NetworkController>>(fd, IO::READ).then("Packet", [this] {
+                    network.process();
+                }));
             }
 
             // Start announcing
-- 
2.43.0


From 8a7ec038dc9bc26c7df596f96ca46ad8ecbdcd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:33 +0000
Subject: [PATCH 47/49] fix: a message that was sent while the network was
 reconfigured or shut down used closed sockets and mixed-up settings

---
 src/extension/network/NUClearNetwork.cpp | 42 ++++++++++--------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index f4b6336..1075f6e 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -317,6 +317,9 @@ namespace extension {
 
         void NUClearNetwork::shutdown() {
 
+            // Others might be sending
+            const std::lock_guard<std::mutex> lock(target_mutex);
+
             // If we have an fd, send a shutdown message
             if (data_fd > 0) {
                 // Make a leave packet from our announce packet
@@ -1121,11 +1124,13 @@ namespace extension {
                                   bool reliable) {
 
             // If we are not connected throw an error
-            /* Mutex Scope */ {
-                const std::lock_guard<std::mutex> lock(target_mutex);
-                if (targets.empty()) {
-                    throw std::runtime_error("Cannot send messages as the network is not connected");
-                }
+            // Locked throughout so the network isn't reconfigured or shut down halfway through the message
+            std::lock(target_mutex, send_queue_mutex);
+            const std::lock_guard<std::mutex> lock_target(target_mutex, std::adopt_lock);
+            const std::lock_guard<std::mutex> lock_send(send_queue_mutex, std::adopt_lock);
+
+            if (targets.empty()) {
+                throw std::runtime_error("Cannot send messages as the network is not connected");
             }
 
             // The packets of a message are numbered using 16 bits
@@ -1136,14 +1141,11 @@ namespace extension {
             // The header for our packet
             DataPacket header;
 
-            /* Mutex Scope */ {
-                const std::lock_guard<std::mutex> lock(send_queue_mutex);
-                // For the packet id we ensure that it's not currently used for retransmission
-                while (send_queue.count(++packet_id_source) > 0) {
-                }
-                header.packet_id = packet_id_source;
+            // For the packet id we ensure that it's not currently used for retransmission
+            while (send_queue.count(++packet_id_source) > 0) {
             }
 
+            header.packet_id    = packet_id_source;
             header.packet_no    = 0;
             header.packet_count = uint16_t((payload.size() / packet_data_mtu) + 1);
             header.reliable     = reliable;
@@ -1151,10 +1153,6 @@ namespace extension {
 
             // If this was a reliable packet we need to cache it in case it needs to be resent
             if (reliable) {
-                std::lock(target_mutex, send_queue_mutex);
-                const std::lock_guard<std::mutex> lock_target(target_mutex, std::adopt_lock);
-                const std::lock_guard<std::mutex> lock_send(send_queue_mutex, std::adopt_lock);
-
                 auto& queue = send_queue[header.packet_id];
 
                 // Store the header, but update it's type to be a retransmission so it can be ignored if
@@ -1184,15 +1182,11 @@ namespace extension {
                 }
             }
 
-            /* Mutex Scope */ {
-                const std::lock_guard<std::mutex> lock(target_mutex);
-
-                // Now send all our packets to our targets
-                auto send_to = name_target.equal_range(target);
-                for (uint16_t i = 0; i < header.packet_count; ++i) {
-                    for (auto s = send_to.first; s != send_to.second; ++s) {
-                        send_packet(s->second->target, header, i, payload, reliable);
-                    }
+            // Now send all our packets to our targets
+            auto send_to = name_target.equal_range(target);
+            for (uint16_t i = 0; i < header.packet_count; ++i) {
+                for (auto s = send_to.first; s != send_to.second; ++s) {
+                    send_packet(s->second->target, header, i, payload, reliable);
                 }
             }
         }
-- 
2.43.0


From d1da49125e56dfffbfaa49d3ef43cc18c2c7a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:51 +0000
Subject: [PATCH 48/49] fix: the descriptor of a TCP or UDP reaction was closed
 while the IO system could still read from it

---
 src/threading/Reaction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 0984510..7c989f7 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -54,9 +54,9 @@ namespace threading {
         // Nothing that is triggered from here on may run
         unbound = true;
 
-        // Unbind
-        for (const auto& u : unbinders) {
-            u(*this);
+        // Unbind in the reverse order, as what was bound later may still be using what was bound before it
+        for (auto it = unbinders.rbegin(); it != unbinders.rend(); ++it) {
+            (*it)(*this);
         }
     }
 
-- 
2.43.0


From da4085984748fa371dc2839bb283c095ee1976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:36 +0000
Subject: [PATCH 49/49] fix: a pool thread that was woken for one task and took
 another one that had become available left the first one waiting

---
 src/threading/scheduler/Pool.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 591a802..e331a52 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -301,6 +301,8 @@ namespace threading {
                     out = std::move(*it);
                     waiting.erase(it);
                     pending_tasks.fetch_sub(1, std::memory_order_release);
+                    // We may have been woken for another task, and once this one has its lock nobody is told about it
+                    condition.notify_one();
                     return true;
                 }
 
-- 
2.43.0

