From 80aee794a9089dd2fdd4987da6b0b8082401e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 01/47] fix: AsyncWaiter loses wake-ups to stale queue entries
 and to a concurrent unlock

A request polled more than once while waiting was queued once per poll; after it
took its turn the left-over entries absorbed later unlocks, so a waiting request
was never woken. A failed exchange followed by a separate push also missed an
unlock on another thread in between.
---
 src/async_waiter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..2820bff 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -45,23 +45,36 @@ impl AsyncWaiter {
     /// Uses `compare_exchange` for correctness even though current callers are
     /// single-threaded (all on the same LocalSet).
     pub fn try_lock(&self, cx: &mut Context<'_>) -> bool {
+        // Decide under the queue lock: between a failed exchange and the push, an
+        // `unlock()` on another thread would find the queue empty and this waker
+        // would never be woken.
+        let mut queue = self.queue.lock().unwrap();
+
         if self
             .locked
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
+            // A request may have been polled (and queued) several times while it
+            // waited. Left behind, those entries would each absorb an `unlock()`
+            // meant for a request that is still waiting.
+            queue.retain(|waker| !waker.will_wake(cx.waker()));
             true
         } else {
-            self.queue.lock().unwrap().push_back(cx.waker().clone());
+            queue.push_back(cx.waker().clone());
             false
         }
     }
 
     /// Release the turn. Wakes the next waiter in FIFO order.
     pub fn unlock(&self) {
-        self.locked.store(false, Ordering::Release);
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            self.locked.store(false, Ordering::Release);
+            queue.pop_front()
+        };
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From 2b0c7359097cb6b447ce52e38c913c439297424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 02/47] fix: a cancelled waiting request keeps the isolate turn
 from the others

unlock() wakes exactly one queued request. If that request had been dropped
while it waited, the wake-up went nowhere and everyone behind it was stuck.
---
 src/async_waiter.rs      | 51 ++++++++++++++++++++++++++++++++++++++++
 src/execution_context.rs | 32 ++++++++++++++++---------
 2 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 2820bff..17fede2 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -79,6 +79,27 @@ impl AsyncWaiter {
         }
     }
 
+    /// Give up a place in the queue (the waiting request was cancelled).
+    ///
+    /// If the turn is free, the wake-up for it may have gone to the cancelled
+    /// request, so it is passed on to the next one.
+    pub fn cancel(&self, waker: &Waker) {
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            queue.retain(|queued| !queued.will_wake(waker));
+
+            if self.is_free() {
+                queue.pop_front()
+            } else {
+                None
+            }
+        };
+
+        if let Some(waker) = next {
+            waker.wake();
+        }
+    }
+
     /// Returns true if no request currently holds the lock.
     pub fn is_free(&self) -> bool {
         !self.locked.load(Ordering::Acquire)
@@ -90,6 +111,36 @@ impl AsyncWaiter {
     }
 }
 
+/// One request's wait for its turn. Dropping it while it waits cancels the wait.
+pub struct TurnWait<'a> {
+    waiter: &'a AsyncWaiter,
+    queued: Option<Waker>,
+}
+
+impl<'a> TurnWait<'a> {
+    pub fn new(waiter: &'a AsyncWaiter) -> Self {
+        Self {
+            waiter,
+            queued: None,
+        }
+    }
+
+    /// Same as [`AsyncWaiter::try_lock`].
+    pub fn try_lock(&mut self, cx: &mut Context<'_>) -> bool {
+        let acquired = self.waiter.try_lock(cx);
+        self.queued = (!acquired).then(|| cx.waker().clone());
+        acquired
+    }
+}
+
+impl Drop for TurnWait<'_> {
+    fn drop(&mut self) {
+        if let Some(waker) = self.queued.take() {
+            self.waiter.cancel(&waker);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..6f38623 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -16,7 +16,7 @@ use tokio_util::sync::CancellationToken;
 use v8;
 
 use crate::LockerManagedIsolate;
-use crate::async_waiter::AsyncWaiter;
+use crate::async_waiter::{AsyncWaiter, TurnWait};
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
     read_response_object, signal_client_disconnect, trigger_fetch_handler,
@@ -1012,12 +1012,14 @@ impl ExecutionContext {
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
 
+        let mut turn = async_waiter.as_deref().map(TurnWait::new);
+
         std::future::poll_fn(|cx| {
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
-            if let Some(ref waiter) = async_waiter
-                && !waiter.try_lock(cx)
+            if let Some(ref mut turn) = turn
+                && !turn.try_lock(cx)
             {
                 return Poll::Pending; // Not our turn, will be woken in FIFO order
             }
@@ -1129,9 +1131,11 @@ impl ExecutionContext {
             let lmi_ptr = self.lmi_ptr;
             let async_waiter = self.async_waiter.clone();
 
+            let mut turn = async_waiter.as_deref().map(TurnWait::new);
+
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
+                if let Some(ref mut turn) = turn
+                    && !turn.try_lock(cx)
                 {
                     return std::task::Poll::Pending;
                 }
@@ -1175,9 +1179,11 @@ impl ExecutionContext {
             let lmi_ptr = self.lmi_ptr;
             let async_waiter = self.async_waiter.clone();
 
+            let mut turn = async_waiter.as_deref().map(TurnWait::new);
+
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
+                if let Some(ref mut turn) = turn
+                    && !turn.try_lock(cx)
                 {
                     return std::task::Poll::Pending;
                 }
@@ -1246,9 +1252,11 @@ impl ExecutionContext {
             let lmi_ptr = self.lmi_ptr;
             let async_waiter = self.async_waiter.clone();
 
+            let mut turn = async_waiter.as_deref().map(TurnWait::new);
+
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
+                if let Some(ref mut turn) = turn
+                    && !turn.try_lock(cx)
                 {
                     return std::task::Poll::Pending;
                 }
@@ -1354,9 +1362,11 @@ impl ExecutionContext {
             let lmi_ptr = self.lmi_ptr;
             let async_waiter = self.async_waiter.clone();
 
+            let mut turn = async_waiter.as_deref().map(TurnWait::new);
+
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
+                if let Some(ref mut turn) = turn
+                    && !turn.try_lock(cx)
                 {
                     return std::task::Poll::Pending;
                 }
-- 
2.43.0


From 452d31f39e140545b2c3b3218370efb9121dc462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 03/47] fix: request body stream ended twice after an upstream
 error

The pump wrote Done after Error, so a consumer holding the receiver saw a failed
body end successfully.
---
 src/runtime/stream_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..67cb412 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -219,7 +219,7 @@ impl StreamManager {
                         let _ = stream_manager
                             .write_chunk(stream_id, StreamChunk::Error(e))
                             .await;
-                        break;
+                        return;
                     }
                 }
             }
-- 
2.43.0


From d3b9efded8c27fd577c69523063bcd7bdfe20eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 04/47] fix: stream IDs were reused across requests

clear() restarted the IDs at 1, so an upstream still writing for the previous
request wrote into (or closed) a stream of the next one.
---
 src/runtime/stream_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 67cb412..ac2d613 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -174,8 +174,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id keeps counting: writers and readers left over from the previous
+        // request still hold old IDs, which must not name the next one's streams.
     }
 
     /// Count active streams
-- 
2.43.0


From 6bf44428bf1920282cbd52ed84b4ebd54d6dbc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 05/47] fix: an abandoned stream read lost the stream, and a
 read in flight revived a closed one

read_chunk takes the receiver out of the map. A read that was dropped while it
waited never put it back; one that completed after close_stream()/clear() put it
back into a stream that no longer existed.
---
 src/runtime/stream_manager.rs | 59 ++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index ac2d613..f1030e9 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -127,19 +127,22 @@ impl StreamManager {
             receivers.remove(&stream_id)
         };
 
-        if let Some(mut rx) = rx {
-            let result = rx.recv().await;
-
-            // Put it back for next read (unless stream is done/errored)
-            if let Some(ref chunk) = result {
-                match chunk {
-                    StreamChunk::Done | StreamChunk::Error(_) => {
-                        // Don't put back - stream is finished
-                    }
-                    StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
-                    }
-                }
+        if let Some(rx) = rx {
+            // Puts the receiver back when dropped, also if this read is abandoned
+            let mut taken = TakenReceiver {
+                manager: self,
+                stream_id,
+                rx: Some(rx),
+            };
+
+            let result = match taken.rx.as_mut() {
+                Some(rx) => rx.recv().await,
+                None => None,
+            };
+
+            // Don't put it back once the stream is done/errored
+            if !matches!(result, Some(StreamChunk::Data(_))) {
+                taken.rx = None;
             }
 
             result.ok_or_else(|| "Stream closed unexpectedly".to_string())
@@ -151,6 +154,15 @@ impl StreamManager {
         }
     }
 
+    /// Return a receiver after a read, unless the stream was closed meanwhile
+    fn put_back(&self, stream_id: StreamId, rx: mpsc::Receiver<StreamChunk>) {
+        let metadata = self.metadata.lock().unwrap();
+
+        if metadata.contains_key(&stream_id) {
+            self.receivers.lock().unwrap().insert(stream_id, rx);
+        }
+    }
+
     /// Take the receiver from a stream (for passing to HttpBody::Stream)
     /// The sender remains active for writing chunks
     pub fn take_receiver(&self, stream_id: StreamId) -> Option<mpsc::Receiver<StreamChunk>> {
@@ -159,9 +171,10 @@ impl StreamManager {
 
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
+        // metadata first: see put_back
+        self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
-        self.metadata.lock().unwrap().remove(&stream_id);
     }
 
     /// Get information about a stream (for debugging)
@@ -171,9 +184,10 @@ impl StreamManager {
 
     /// Clear all streams (used for context reuse between requests)
     pub fn clear(&self) {
+        // metadata first: see put_back
+        self.metadata.lock().unwrap().clear();
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
-        self.metadata.lock().unwrap().clear();
         // next_id keeps counting: writers and readers left over from the previous
         // request still hold old IDs, which must not name the next one's streams.
     }
@@ -234,6 +248,21 @@ impl StreamManager {
     }
 }
 
+/// A receiver that is out of the map for the duration of a read
+struct TakenReceiver<'a> {
+    manager: &'a StreamManager,
+    stream_id: StreamId,
+    rx: Option<mpsc::Receiver<StreamChunk>>,
+}
+
+impl Drop for TakenReceiver<'_> {
+    fn drop(&mut self) {
+        if let Some(rx) = self.rx.take() {
+            self.manager.put_back(self.stream_id, rx);
+        }
+    }
+}
+
 impl Default for StreamManager {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 7d1c29e72533f3cd706133bd49e2060656abef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 06/47] fix: external memory was reported to whichever isolate
 was locked, not to the guard's own

---
 src/gc/external_memory.rs | 40 ++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..c8462f4 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -88,14 +88,34 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
-
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
+            if self.pending_delta.is_none() {
+                // First use under a lock: this isolate has not been told about
+                // any of the memory yet, so report the whole amount.
+                if let Some(lock) = JsLock::try_current() {
+                    lock.adjust_external_memory(self.amount);
                     self.pending_delta = Some(lock.pending_delta());
                 }
-            } else if let Some(ref pending) = self.pending_delta {
+            } else {
+                self.report(delta);
+            }
+        }
+    }
+
+    /// Report `delta` bytes to the isolate this guard was captured for:
+    /// immediately if that isolate is the locked one, deferred otherwise.
+    ///
+    /// Does nothing for a guard that was never used under a lock, because no
+    /// isolate was told about its memory.
+    fn report(&self, delta: i64) {
+        let Some(ref pending) = self.pending_delta else {
+            return;
+        };
+
+        match JsLock::try_current() {
+            Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                lock.adjust_external_memory(delta);
+            }
+            _ => {
                 pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
@@ -118,13 +138,7 @@ impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
         if self.amount != 0 {
             // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+            self.report(-self.amount);
         }
     }
 }
-- 
2.43.0


From fdd81ee729bbf18bd84c53bbb8bb8c1f2afe4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 07/47] fix: pending counter of the deferred destruction queue
 wrapped below zero

---
 src/gc/deferred_destruction.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..75f3b4b 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,18 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
-        self.queue
-            .lock()
-            .expect("deferred destruction queue poisoned")
-            .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
+
+        {
+            let mut queue = self
+                .queue
+                .lock()
+                .expect("deferred destruction queue poisoned");
+
+            // Count the handle before process_all() can take it (and subtract
+            // it again), otherwise the counter wraps below zero.
+            self.pending_count.fetch_add(1, Ordering::Release);
+            queue.push_back(deferred);
+        }
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From 4f582a76c5ec6ada450ba1970e8fc7b5951727d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 08/47] fix: a denied ArrayBuffer allocation could deny a
 concurrent one that fits

---
 src/security/array_buffer_allocator.rs | 57 ++++++++++++--------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/security/array_buffer_allocator.rs b/src/security/array_buffer_allocator.rs
index 9571eac..c382dab 100644
--- a/src/security/array_buffer_allocator.rs
+++ b/src/security/array_buffer_allocator.rs
@@ -74,30 +74,38 @@ impl CustomAllocator {
     pub fn current_usage(&self) -> usize {
         self.count.load(Ordering::SeqCst)
     }
+
+    /// Count `n` more bytes if they fit in the limit.
+    ///
+    /// Otherwise nothing is counted (a denied request never takes room from a
+    /// concurrent one), the memory limit flag is set and `false` is returned.
+    fn reserve(&self, n: usize) -> bool {
+        let reserved = self
+            .count
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |used| {
+                used.checked_add(n).filter(|total| *total <= self.max)
+            });
+
+        if let Err(used) = reserved {
+            eprintln!(
+                "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
+                used.saturating_add(n) / 1024 / 1024,
+                self.max / 1024 / 1024
+            );
+            // Set flag so the runtime knows why we failed
+            self.memory_limit_hit.store(true, Ordering::SeqCst);
+        }
+
+        reserved.is_ok()
+    }
 }
 
 /// Called by V8 when JS code does `new ArrayBuffer(n)` or `new Uint8Array(n)`.
 /// Returns a pointer to zeroed memory, or NULL if the limit is exceeded.
 #[allow(clippy::unnecessary_cast)]
 unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    // Optimistically add n bytes to our running total (atomic, thread-safe)
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    // Read the new total to check against the limit
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    // If we've exceeded the limit, reject the allocation
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        // Set flag so the runtime knows why we failed
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        // IMPORTANT: rollback the count since we're not actually allocating
-        // Without this, failed allocations would permanently "use up" the quota
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    // Check the limit and count the bytes in one atomic step
+    if !allocator.reserve(n) {
         // Return NULL - V8 will throw RangeError: Array buffer allocation failed
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
@@ -115,18 +123,7 @@ unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_v
 #[allow(clippy::unnecessary_cast)]
 #[allow(clippy::uninit_vec)]
 unsafe extern "C" fn allocate_uninitialized(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    if !allocator.reserve(n) {
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
 
-- 
2.43.0


From 1bea8c926f02674fcaa7d9cf9f9dffc8b77ca29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 09/47] fix: SIGALRM could end the process before its handler
 was installed

---
 src/security/cpu_enforcer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..03fa1cb 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -202,14 +202,22 @@ mod linux {
         static SIGNAL_THREAD_SPAWNED: Once = Once::new();
 
         SIGNAL_THREAD_SPAWNED.call_once(|| {
+            let (ready_tx, ready_rx) = std::sync::mpsc::channel();
+
             std::thread::Builder::new()
                 .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
+                .spawn(move || signal_handler_thread(ready_tx))
                 .expect("Failed to spawn CPU enforcer signal handler thread");
+
+            // No timer may be armed before the SIGALRM handler is installed:
+            // the default action of SIGALRM ends the whole process.
+            ready_rx
+                .recv()
+                .expect("CPU enforcer signal handler thread failed to start");
         });
     }
 
-    fn signal_handler_thread() {
+    fn signal_handler_thread(ready: std::sync::mpsc::Sender<()>) {
         use futures::StreamExt;
         use signal_hook::consts::signal;
         use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
@@ -226,6 +234,8 @@ mod linux {
             let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
                 .expect("Failed to register SIGALRM handler");
 
+            let _ = ready.send(());
+
             while let Some(siginfo) = signals.next().await {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
-- 
2.43.0


From 2b9692b85240e9c13bae185372be60d7b5da9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 10/47] fix: CPU limit of a dropped enforcer could terminate
 the next request

---
 src/security/cpu_enforcer.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 03fa1cb..a4a5192 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -163,15 +163,6 @@ mod linux {
         terminated: Arc<AtomicBool>,
     }
 
-    impl Clone for EnforcerData {
-        fn clone(&self) -> Self {
-            Self {
-                isolate_handle: self.isolate_handle.clone(),
-                terminated: self.terminated.clone(),
-            }
-        }
-    }
-
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
         std::sync::LazyLock::new(|| {
             spawn_signal_handler_thread();
@@ -240,13 +231,12 @@ mod linux {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
 
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
-                    let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
-                };
+                // Lookup ONLY this specific enforcer in registry. The registry stays
+                // locked until the isolate is terminated: an enforcer dropped in the
+                // meantime must not terminate the next user of the isolate.
+                let map = ENFORCER_REGISTRY.lock().unwrap();
 
-                if let Some(enforcer_data) = data {
+                if let Some(enforcer_data) = map.get(&enforcer_id) {
                     if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
-- 
2.43.0


From c004443d8657b6c136042e9c8b25b16a82484fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 11/47] fix: CPU limits were lost to a full signal queue and to
 signals left over from before a reset

---
 src/security/cpu_enforcer.rs | 127 +++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 57 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index a4a5192..862182f 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -86,27 +86,15 @@ mod linux {
 
             let terminated = Arc::new(AtomicBool::new(false));
 
-            // Register in global registry
-            register_enforcer(enforcer_id, isolate_handle, terminated.clone());
+            // Register in global registry (before arming: a signal that finds no
+            // enforcer is ignored)
+            register_enforcer(enforcer_id, timer_id, isolate_handle, terminated.clone());
 
             // Arm the timer
-            let timeout_secs = timeout_ms / 1000;
-            let timeout_nsecs = (timeout_ms % 1000) * 1_000_000;
-
-            let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
-            timer_spec.it_value.tv_sec = timeout_secs as i64;
-            timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
-
-            let ret =
-                unsafe { libc::timer_settime(timer_id, 0, &timer_spec, std::ptr::null_mut()) };
-
-            if ret != 0 {
-                eprintln!(
-                    "[openworkers-runtime-v8] Failed to arm CPU timer: {}",
-                    std::io::Error::last_os_error()
-                );
-                unsafe { libc::timer_delete(timer_id) };
+            if let Err(e) = arm_enforcer(enforcer_id, timeout_ms) {
+                eprintln!("[openworkers-runtime-v8] Failed to arm CPU timer: {}", e);
                 unregister_enforcer(enforcer_id);
+                unsafe { libc::timer_delete(timer_id) };
                 return None;
             }
 
@@ -127,38 +115,25 @@ mod linux {
         /// This rearms the CPU timer with the given timeout, allowing the same
         /// worker to handle multiple requests with fresh CPU budgets.
         pub fn reset(&self, timeout_ms: u64) -> Result<(), std::io::Error> {
-            // Reset terminated flag
-            self.terminated.store(false, Ordering::SeqCst);
-
-            // Rearm the timer
-            let timeout_secs = timeout_ms / 1000;
-            let timeout_nsecs = (timeout_ms % 1000) * 1_000_000;
-
-            let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
-            timer_spec.it_value.tv_sec = timeout_secs as i64;
-            timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
-            // it_interval stays 0 = one-shot timer
-
-            let ret =
-                unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
-
-            if ret != 0 {
-                return Err(std::io::Error::last_os_error());
-            }
-
-            Ok(())
+            arm_enforcer(self.enforcer_id, timeout_ms)
         }
     }
 
     impl Drop for CpuEnforcer {
         fn drop(&mut self) {
-            unsafe { libc::timer_delete(self.timer_id) };
+            // Unregister first: the signal thread asks registered timers for their
+            // remaining time, so they must exist.
             unregister_enforcer(self.enforcer_id);
+            unsafe { libc::timer_delete(self.timer_id) };
         }
     }
 
     // Global registry for signal handler
     struct EnforcerData {
+        /// `libc::timer_t` as an integer (raw pointers are not Send)
+        timer: usize,
+        /// A limit is set and has not been enforced yet
+        armed: bool,
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
     }
@@ -171,6 +146,7 @@ mod linux {
 
     fn register_enforcer(
         enforcer_id: usize,
+        timer_id: libc::timer_t,
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
     ) {
@@ -178,12 +154,54 @@ mod linux {
         map.insert(
             enforcer_id,
             EnforcerData {
+                timer: timer_id as usize,
+                armed: false,
                 isolate_handle,
                 terminated,
             },
         );
     }
 
+    /// Start a fresh CPU budget (0 = no limit).
+    ///
+    /// Runs under the registry lock, so that a signal of the previous budget is
+    /// either handled before or recognized as outdated afterwards.
+    fn arm_enforcer(enforcer_id: usize, timeout_ms: u64) -> Result<(), std::io::Error> {
+        let mut map = ENFORCER_REGISTRY.lock().unwrap();
+        let data = map.get_mut(&enforcer_id).expect("enforcer is registered");
+
+        let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
+        timer_spec.it_value.tv_sec = (timeout_ms / 1000) as i64;
+        timer_spec.it_value.tv_nsec = ((timeout_ms % 1000) * 1_000_000) as i64;
+        // it_interval stays 0 = one-shot timer
+
+        let ret = unsafe {
+            libc::timer_settime(
+                data.timer as libc::timer_t,
+                0,
+                &timer_spec,
+                std::ptr::null_mut(),
+            )
+        };
+
+        if ret != 0 {
+            return Err(std::io::Error::last_os_error());
+        }
+
+        data.terminated.store(false, Ordering::SeqCst);
+        data.armed = timeout_ms != 0;
+
+        Ok(())
+    }
+
+    /// A one-shot timer has expired once it is no longer armed.
+    fn has_expired(timer_id: libc::timer_t) -> bool {
+        let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
+        let ret = unsafe { libc::timer_gettime(timer_id, &mut left) };
+
+        ret == 0 && left.it_value.tv_sec == 0 && left.it_value.tv_nsec == 0
+    }
+
     fn unregister_enforcer(enforcer_id: usize) {
         let mut map = ENFORCER_REGISTRY.lock().unwrap();
         map.remove(&enforcer_id);
@@ -227,29 +245,24 @@ mod linux {
 
             let _ = ready.send(());
 
-            while let Some(siginfo) = signals.next().await {
-                // Extract enforcer_id from signal value (set in timer_create)
-                let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
-
-                // Lookup ONLY this specific enforcer in registry. The registry stays
-                // locked until the isolate is terminated: an enforcer dropped in the
-                // meantime must not terminate the next user of the isolate.
-                let map = ENFORCER_REGISTRY.lock().unwrap();
-
-                if let Some(enforcer_data) = map.get(&enforcer_id) {
-                    if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
+            while signals.next().await.is_some() {
+                // A signal only says that some timer has expired: it may be left over
+                // from before a reset, and signals arriving faster than they are read
+                // are dropped. So look at every timer. The registry stays locked until
+                // the isolates are terminated: an enforcer dropped in the meantime must
+                // not terminate the next user of the isolate.
+                let mut map = ENFORCER_REGISTRY.lock().unwrap();
+
+                for (enforcer_id, data) in map.iter_mut() {
+                    if data.armed && has_expired(data.timer as libc::timer_t) {
+                        data.armed = false;
+                        data.terminated.store(true, Ordering::SeqCst);
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                             enforcer_id
                         );
-                        enforcer_data.isolate_handle.terminate_execution();
+                        data.isolate_handle.terminate_execution();
                     }
-                } else {
-                    // Timer fired but enforcer was already dropped (normal race condition)
-                    eprintln!(
-                        "[openworkers-runtime-v8] SIGALRM for unknown enforcer #{} (already dropped?)",
-                        enforcer_id
-                    );
                 }
             }
         });
-- 
2.43.0


From 0c8a19cd1edff00816e108bcf71dfd15cf5b5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 12/47] fix: a cleared timer could keep the event loop from
 ending after shutdown

---
 src/runtime/scheduler.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..95e577d 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -434,10 +434,7 @@ pub async fn run_event_loop(
             Some(result) = timers.next() => {
                 if cancelled.remove(&result.id) {
                     // Timer was cancelled, don't fire callback
-                    continue;
-                }
-
-                if result.is_interval {
+                } else if result.is_interval {
                     // Send interval callback and reschedule
                     let _ = callback_tx.send(CallbackMessage::ExecuteInterval(result.id));
                     timers.push(create_timer(result.id, result.interval_ms, true));
-- 
2.43.0


From 12e118fdb80163f5df5e48c970cb048f4bcac53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 13/47] fix: a response body cut short by the end of its
 request looked complete, or lingered unread

---
 src/runtime/scheduler.rs | 55 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 95e577d..2779f4d 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -461,36 +461,39 @@ fn spawn_stream_reader(
     cancel: CancellationToken,
 ) {
     tokio::spawn(async move {
-        loop {
-            let chunk = tokio::select! {
-                biased;
-                _ = cancel.cancelled() => break,
-                r = rx.recv() => r,
-            };
-
-            match chunk {
-                Some(Ok(bytes)) => {
-                    if manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
-                        .await
-                        .is_err()
-                    {
-                        break;
+        let forward = async {
+            while let Some(result) = rx.recv().await {
+                match result {
+                    Ok(bytes) => {
+                        if manager
+                            .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
+                            .await
+                            .is_err()
+                        {
+                            return;
+                        }
+                    }
+                    Err(e) => {
+                        let _ = manager
+                            .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
+                            .await;
+                        return;
                     }
                 }
-                Some(Err(e)) => {
-                    let _ = manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
-                        .await;
-                    return;
-                }
-                None => break,
             }
-        }
 
-        let _ = manager
-            .write_chunk(stream_id, stream_manager::StreamChunk::Done)
-            .await;
+            let _ = manager
+                .write_chunk(stream_id, stream_manager::StreamChunk::Done)
+                .await;
+        };
+
+        tokio::select! {
+            biased;
+            // No Done here: the body was cut short. Closing the stream also
+            // releases its buffer, which nobody may be left to read.
+            _ = cancel.cancelled() => manager.close_stream(stream_id),
+            _ = forward => {}
+        }
     });
 }
 
-- 
2.43.0


From 7a4fb66b135cc88a5bd0bd107b68a0c64ae29be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 14/47] fix: keep callback ids unique across the requests of a
 reused context

reset() put the counter back to 1 while fetches and binding calls of the
previous request were still in flight, so their late results were delivered to
the next request's promises with the same id.
---
 src/execution_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 6f38623..ddd7e12 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1448,7 +1448,8 @@ impl ExecutionContext {
     ///
     /// Cancels any lingering `terminate_execution` flag before evaluating JS.
     /// Does NOT touch the event loop (it persists across requests).
-    /// Does NOT reset `__nextTimerId` (monotonically increasing to avoid ID collisions).
+    /// Does NOT reset `__nextTimerId` or `next_callback_id` (monotonically increasing:
+    /// a late result of the previous request must not find a callback of the next one).
     pub fn reset(&mut self) -> Result<(), String> {
         // Acquire lock if pooled isolate (evaluate accesses V8 directly)
         let lmi_ptr = self.lmi_ptr;
@@ -1492,7 +1493,6 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
 
         Ok(())
     }
-- 
2.43.0


From c041c330068f71492c7d2ba2fa1031c1529a2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 15/47] fix: fetch and binding calls the native side could not
 read never settled

A string body given to an assets or worker binding, or parameters that do not
deserialize, made the native function return without a word: the script's
promise stayed pending until the wall-clock limit. String bodies are now encoded
as for fetch(), and anything else unreadable rejects.
---
 src/runtime/bindings/fetch.rs   | 16 ++++++++++++++++
 src/runtime/bindings/web_api.rs |  8 ++++++--
 src/worker.rs                   | 32 +++++++++++++++++++-------------
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 044321a..9fac4a4 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -83,6 +83,18 @@ fn parse_http_request(
     })
 }
 
+/// Reject a call whose arguments cannot be read: its promise would never settle
+fn reject_call(scope: &mut v8::PinScope, reject: v8::Local<v8::Value>, message: &str) {
+    let Ok(reject) = v8::Local::<v8::Function>::try_from(reject) else {
+        return;
+    };
+
+    let message = v8::String::new(scope, message).unwrap();
+    let error = v8::Exception::type_error(scope, message);
+    let recv = v8::undefined(scope);
+    reject.call(scope, recv.into(), &[error]);
+}
+
 /// Register success callback and return callback ID
 fn register_callback(
     state: &FetchState,
@@ -147,6 +159,7 @@ where
             };
 
             let Some(request) = parse_http_request(scope, args.get(1)) else {
+                reject_call(scope, args.get(3), "Unsupported fetch options or body");
                 return;
             };
 
@@ -204,6 +217,7 @@ pub fn setup_fetch(
             }
 
             let Some(request) = parse_http_request(scope, args.get(0)) else {
+                reject_call(scope, args.get(2), "Unsupported fetch options or body");
                 return;
             };
 
@@ -258,6 +272,7 @@ pub fn setup_fetch(
             };
 
             let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
+                reject_call(scope, args.get(4), "Unsupported storage parameters");
                 return;
             };
 
@@ -325,6 +340,7 @@ pub fn setup_fetch(
             };
 
             let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
+                reject_call(scope, args.get(4), "Unsupported KV parameters");
                 return;
             };
 
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..8cb4172 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1387,7 +1387,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 ///
 /// Provides:
 /// - `__normalizeFetchInput(input, options)` - normalizes Request/URL/string to fetch options
-/// - `__bufferBody(body)` - buffers ReadableStream body to Uint8Array
+/// - `__bufferBody(body)` - buffers a ReadableStream or string body to Uint8Array
 ///
 /// __normalizeFetchInput handles:
 /// - Request objects (clones properties, respects options override)
@@ -1398,8 +1398,12 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 /// Returns: { url, method, headers, body }
 pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
     let code = r#"
-        // Buffer a ReadableStream body to Uint8Array
+        // Buffer a ReadableStream body to Uint8Array (and encode a string body)
         globalThis.__bufferBody = async function(body) {
+            if (body !== null && body !== undefined && typeof body !== 'object') {
+                return new TextEncoder().encode(String(body));
+            }
+
             if (!body || !(body instanceof ReadableStream)) {
                 return body;
             }
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..b16a08d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1175,18 +1175,24 @@ pub(crate) fn setup_env(
                         r#"{name}: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
-                                    const {{ url, method, headers, body }} = __normalizeFetchInput(input, options);
-                                    const fetchOptions = {{ url, method, headers, body }};
-                                    __nativeBindingFetch({name}, fetchOptions, (meta) => {{
-                                        const stream = __createNativeStream(meta.streamId);
-                                        const response = new Response(stream, {{
-                                            status: meta.status,
-                                            headers: meta.headers
-                                        }});
-                                        response.ok = meta.status >= 200 && meta.status < 300;
-                                        response.statusText = meta.statusText;
-                                        resolve(response);
-                                    }}, reject);
+                                    const processRequest = async () => {{
+                                        const normalized = __normalizeFetchInput(input, options);
+                                        normalized.body = await __bufferBody(normalized.body);
+                                        return normalized;
+                                    }};
+
+                                    processRequest().then((fetchOptions) => {{
+                                        __nativeBindingFetch({name}, fetchOptions, (meta) => {{
+                                            const stream = __createNativeStream(meta.streamId);
+                                            const response = new Response(stream, {{
+                                                status: meta.status,
+                                                headers: meta.headers
+                                            }});
+                                            response.ok = meta.status >= 200 && meta.status < 300;
+                                            response.statusText = meta.statusText;
+                                            resolve(response);
+                                        }}, reject);
+                                    }}).catch(reject);
                                 }});
                             }}
                         }}"#,
@@ -1266,7 +1272,7 @@ pub(crate) fn setup_env(
                                 return new Promise((resolve, reject) => {{
                                     const processRequest = async () => {{
                                         const normalized = __normalizeFetchInput(input, options);
-                                        // Buffer ReadableStream body for serialization
+                                        // Buffer a ReadableStream or string body for serialization
                                         normalized.body = await __bufferBody(normalized.body);
                                         return normalized;
                                     }};
-- 
2.43.0


From 192463a525b101caa5590bfa55d81266edd3bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 16/47] fix: the end of a response body was lost when the
 buffer was full

__responseStreamEnd() wrote the end marker with try_write and ignored the
result: with a slow client and more than a buffer of chunks outstanding the
client never learnt that the body was complete.
---
 docs/streams.md                 |  2 +-
 src/runtime/bindings/streams.rs | 13 +++++++++----
 src/worker.rs                   |  6 +++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/docs/streams.md b/docs/streams.md
index 6ec0ba6..a87665f 100644
--- a/docs/streams.md
+++ b/docs/streams.md
@@ -82,7 +82,7 @@ const stream = __createNativeStream(streamId); // → ReadableStream
 // Writing streams (streaming response)
 const id = __responseStreamCreate();
 __responseStreamWrite(id, uint8Array); // → bool (false if full)
-__responseStreamEnd(id);
+__responseStreamEnd(id); // → bool (false if full)
 __responseStreamIsClosed(id); // → bool
 ```
 
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..af1a0be 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,13 +134,18 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream - returns true if written, false if full/closed
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+) -> bool {
     let _ = scope;
-    let _ = state
+    state
         .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done)
+        .is_ok()
 }
 
 /// Check if a response stream is closed
diff --git a/src/worker.rs b/src/worker.rs
index b16a08d..27c6b94 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1439,7 +1439,11 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
+                    // The buffer may still be full: wait, or the end would be lost
+                    while (!__responseStreamEnd(streamId) && !__responseStreamIsClosed(streamId)) {
+                        await new Promise(resolve => setTimeout(resolve, 1));
+                    }
+
                     // Decrement counter when stream is fully consumed
                     globalThis.__activeResponseStreams--;
                 }
-- 
2.43.0


From 1e9c4b5f12ea09474e82bf553234142b1434f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 17/47] fix: a response body that failed at its source looked
 complete to the client

---
 docs/streams.md                 |  1 +
 src/execution_helpers.rs        |  3 +++
 src/runtime/bindings/streams.rs | 19 +++++++++++++++++++
 src/worker.rs                   |  5 ++++-
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/docs/streams.md b/docs/streams.md
index a87665f..fdd4b0a 100644
--- a/docs/streams.md
+++ b/docs/streams.md
@@ -83,6 +83,7 @@ const stream = __createNativeStream(streamId); // → ReadableStream
 const id = __responseStreamCreate();
 __responseStreamWrite(id, uint8Array); // → bool (false if full)
 __responseStreamEnd(id); // → bool (false if full)
+__responseStreamError(id, message); // → bool (false if full)
 __responseStreamIsClosed(id); // → bool
 ```
 
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..b63f589 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -440,6 +440,9 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    // Closed before its end: the body was cut short
+                                    let e = "Response body ended early".to_string();
+                                    let _ = tx.send(Err(e)).await;
                                     break;
                                 }
                             }
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index af1a0be..60ed5f6 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -148,6 +148,21 @@ fn response_stream_end(
         .is_ok()
 }
 
+/// Fail a response stream - returns true if written, false if full/closed
+#[glue_v8::method(state = Rc<ResponseStreamState>)]
+fn response_stream_error(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+    message: String,
+) -> bool {
+    let _ = scope;
+    state
+        .manager
+        .try_write_chunk(stream_id, stream_manager::StreamChunk::Error(message))
+        .is_ok()
+}
+
 /// Check if a response stream is closed
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
 fn response_stream_is_closed(
@@ -181,6 +196,9 @@ pub fn setup_response_stream_ops(
     let end_fn = response_stream_end_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
+    let error_fn = response_stream_error_v8_template(scope, &state)
+        .get_function(scope)
+        .unwrap();
     let is_closed_fn = response_stream_is_closed_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
@@ -188,5 +206,6 @@ pub fn setup_response_stream_ops(
     register_fn!(scope, "__responseStreamCreate", create_fn);
     register_fn!(scope, "__responseStreamWrite", write_fn);
     register_fn!(scope, "__responseStreamEnd", end_fn);
+    register_fn!(scope, "__responseStreamError", error_fn);
     register_fn!(scope, "__responseStreamIsClosed", is_closed_fn);
 }
diff --git a/src/worker.rs b/src/worker.rs
index 27c6b94..915cc17 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1399,6 +1399,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let end = () => __responseStreamEnd(streamId);
 
                 try {
                     reader = response.body.getReader();
@@ -1429,6 +1430,8 @@ pub(crate) fn setup_event_listener(
                     }
                 } catch (error) {
                     console.error('[streamResponseBody] Error:', error);
+                    // The body is cut short: that must not look like its end
+                    end = () => __responseStreamError(streamId, String((error && error.message) || error));
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1440,7 +1443,7 @@ pub(crate) fn setup_event_listener(
                     }
 
                     // The buffer may still be full: wait, or the end would be lost
-                    while (!__responseStreamEnd(streamId) && !__responseStreamIsClosed(streamId)) {
+                    while (!end() && !__responseStreamIsClosed(streamId)) {
                         await new Promise(resolve => setTimeout(resolve, 1));
                     }
 
-- 
2.43.0


From 5a50315025682e0c871c3e045f52b8f55da347f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 18/47] fix: a request that forwarded an upstream body ended
 before the body did

---
 docs/streams.md                 |  1 +
 src/execution_helpers.rs        |  4 ++++
 src/runtime/bindings/streams.rs | 42 +++++++++++++++++++++++++--------
 src/runtime/scheduler.rs        | 21 +++++++++++++++++
 src/runtime/stream_manager.rs   | 38 +++++++++++++++++++++++++++++
 src/worker.rs                   |  6 ++++-
 6 files changed, 101 insertions(+), 11 deletions(-)

diff --git a/docs/streams.md b/docs/streams.md
index fdd4b0a..2b61b95 100644
--- a/docs/streams.md
+++ b/docs/streams.md
@@ -77,6 +77,7 @@ CallbackMessage::StreamChunk(callback_id, StreamChunk)
 // Reading streams (fetch response, request body)
 __nativeStreamRead(streamId, callback);
 __nativeStreamCancel(streamId);
+__nativeStreamReaderClosed(streamId, callback);
 const stream = __createNativeStream(streamId); // → ReadableStream
 
 // Writing streams (streaming response)
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index b63f589..c01990a 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -454,10 +454,14 @@ pub fn read_response_object(
                         }
                     }
                 }
+
+                // Wakes whoever waits for the body to be through
+                stream_manager.reader_gone(stream_id);
             });
 
             ResponseBody::Stream(rx)
         } else {
+            stream_manager.reader_gone(stream_id);
             ResponseBody::None
         }
     } else {
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 60ed5f6..819d28b 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -16,8 +16,33 @@ fn native_stream_read(
     resolve: v8::Local<v8::Function>,
 ) {
     let resolve_global = v8::Global::new(scope.as_ref(), resolve);
+    let callback_id = register_stream_callback(state, resolve_global);
 
-    // Generate callback ID
+    // Send StreamRead message to scheduler
+    let _ = state
+        .scheduler_tx
+        .send(SchedulerMessage::StreamRead(callback_id, stream_id));
+}
+
+/// Native stream closed - calls back once nobody reads a native stream any more
+/// (its body went through to the client, or the client is gone)
+#[glue_v8::method(state = Rc<StreamState>)]
+fn native_stream_reader_closed(
+    scope: &mut v8::PinScope,
+    state: &Rc<StreamState>,
+    stream_id: u64,
+    callback: v8::Local<v8::Function>,
+) {
+    let callback_global = v8::Global::new(scope.as_ref(), callback);
+    let callback_id = register_stream_callback(state, callback_global);
+
+    let _ = state
+        .scheduler_tx
+        .send(SchedulerMessage::StreamReaderClosed(callback_id, stream_id));
+}
+
+/// Store a stream callback under a new ID
+fn register_stream_callback(state: &StreamState, callback: v8::Global<v8::Function>) -> CallbackId {
     let callback_id = {
         let mut next_id = state.next_id.borrow_mut();
         let id = *next_id;
@@ -25,16 +50,9 @@ fn native_stream_read(
         id
     };
 
-    // Store callback
-    state
-        .callbacks
-        .borrow_mut()
-        .insert(callback_id, resolve_global);
+    state.callbacks.borrow_mut().insert(callback_id, callback);
 
-    // Send StreamRead message to scheduler
-    let _ = state
-        .scheduler_tx
-        .send(SchedulerMessage::StreamRead(callback_id, stream_id));
+    callback_id
 }
 
 /// Native stream cancel - cancels a native stream
@@ -66,11 +84,15 @@ pub fn setup_stream_ops(
     let stream_read_fn = native_stream_read_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
+    let stream_reader_closed_fn = native_stream_reader_closed_v8_template(scope, &state)
+        .get_function(scope)
+        .unwrap();
     let stream_cancel_fn = native_stream_cancel_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
 
     register_fn!(scope, "__nativeStreamRead", stream_read_fn);
+    register_fn!(scope, "__nativeStreamReaderClosed", stream_reader_closed_fn);
     register_fn!(scope, "__nativeStreamCancel", stream_cancel_fn);
 
     // JavaScript helper: createNativeStream(streamId) -> ReadableStream
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 2779f4d..2bb373f 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -63,6 +63,8 @@ pub enum SchedulerMessage {
     BindingWorker(CallbackId, String, HttpRequest),
     StreamRead(CallbackId, stream_manager::StreamId),
     StreamCancel(stream_manager::StreamId),
+    /// Call back once nobody reads the stream any more
+    StreamReaderClosed(CallbackId, stream_manager::StreamId),
     WebSocketConnect(CallbackId, String, HashMap<String, String>),
     WebSocketAccept(WebSocketId),
     WebSocketSend(WebSocketId, WebSocketOutgoing),
@@ -424,6 +426,25 @@ pub async fn run_event_loop(
                         stream_manager.close_stream(stream_id);
                     }
 
+                    SchedulerMessage::StreamReaderClosed(callback_id, stream_id) => {
+                        let callback_tx = callback_tx.clone();
+                        let manager = stream_manager.clone();
+                        let cancel = cancel.clone();
+
+                        tokio::spawn(async move {
+                            tokio::select! {
+                                biased;
+                                _ = cancel.cancelled() => return,
+                                _ = manager.reader_closed(stream_id) => {}
+                            }
+
+                            let _ = callback_tx.send(CallbackMessage::StreamChunk(
+                                callback_id,
+                                stream_manager::StreamChunk::Done,
+                            ));
+                        });
+                    }
+
                     SchedulerMessage::Shutdown => {
                         shutdown = true;
                     }
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index f1030e9..abfa1f1 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -2,6 +2,7 @@ use bytes::Bytes;
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use tokio::sync::mpsc;
+use tokio_util::sync::CancellationToken;
 
 pub type StreamId = u64;
 
@@ -31,6 +32,8 @@ pub struct StreamManager {
     receivers: Arc<Mutex<HashMap<StreamId, mpsc::Receiver<StreamChunk>>>>,
     /// Stream metadata (URL for debugging)
     metadata: Arc<Mutex<HashMap<StreamId, String>>>,
+    /// Cancelled when nobody reads the stream any more
+    readers_gone: Arc<Mutex<HashMap<StreamId, CancellationToken>>>,
     /// Next stream ID to allocate
     next_id: Arc<Mutex<StreamId>>,
     /// High water mark for new streams
@@ -48,6 +51,7 @@ impl StreamManager {
             senders: Arc::new(Mutex::new(HashMap::new())),
             receivers: Arc::new(Mutex::new(HashMap::new())),
             metadata: Arc::new(Mutex::new(HashMap::new())),
+            readers_gone: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
             high_water_mark,
         }
@@ -66,6 +70,10 @@ impl StreamManager {
         self.senders.lock().unwrap().insert(id, tx);
         self.receivers.lock().unwrap().insert(id, rx);
         self.metadata.lock().unwrap().insert(id, url);
+        self.readers_gone
+            .lock()
+            .unwrap()
+            .insert(id, CancellationToken::new());
 
         id
     }
@@ -169,12 +177,35 @@ impl StreamManager {
         self.receivers.lock().unwrap().remove(&stream_id)
     }
 
+    /// Wait until nobody reads the stream any more: it was closed, or its taken
+    /// receiver is done with (see `reader_gone`)
+    pub async fn reader_closed(&self, stream_id: StreamId) {
+        let gone = self.readers_gone.lock().unwrap().get(&stream_id).cloned();
+
+        if let Some(gone) = gone {
+            gone.cancelled().await;
+        }
+    }
+
+    /// The taken receiver of a stream is done with (read to its end, or dropped)
+    pub fn reader_gone(&self, stream_id: StreamId) {
+        if let Some(gone) = self.readers_gone.lock().unwrap().get(&stream_id) {
+            gone.cancel();
+        }
+    }
+
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
         // metadata first: see put_back
         self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
+
+        let gone = self.readers_gone.lock().unwrap().remove(&stream_id);
+
+        if let Some(gone) = gone {
+            gone.cancel();
+        }
     }
 
     /// Get information about a stream (for debugging)
@@ -188,6 +219,13 @@ impl StreamManager {
         self.metadata.lock().unwrap().clear();
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
+
+        let gone = std::mem::take(&mut *self.readers_gone.lock().unwrap());
+
+        for token in gone.into_values() {
+            token.cancel();
+        }
+
         // next_id keeps counting: writers and readers left over from the previous
         // request still hold old IDs, which must not name the next one's streams.
     }
diff --git a/src/worker.rs b/src/worker.rs
index 915cc17..4bca50f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1345,10 +1345,14 @@ pub(crate) fn setup_event_listener(
             }
 
             // If it's a native stream (fetch forward), just mark it
-            // Native streams are managed by Rust, no need to track here
+            // Rust forwards its chunks; the request lasts until they are through
             if (response.body._nativeStreamId !== undefined) {
                 response._responseStreamId = response.body._nativeStreamId;
                 globalThis.__lastResponseStreamId = response.body._nativeStreamId;
+                globalThis.__activeResponseStreams++;
+                __nativeStreamReaderClosed(response.body._nativeStreamId, () => {
+                    globalThis.__activeResponseStreams--;
+                });
                 return response;
             }
 
-- 
2.43.0


From c78d55a810d663ee0c0b0bf17500a62545ff19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 19/47] fix: the client of a request that was cut short waited
 for its body forever

---
 src/request_context.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/request_context.rs b/src/request_context.rs
index c32e598..116f542 100644
--- a/src/request_context.rs
+++ b/src/request_context.rs
@@ -105,3 +105,11 @@ impl RequestContext {
         }
     }
 }
+
+impl Drop for RequestContext {
+    fn drop(&mut self) {
+        // The task that forwards a response body to the client owns a handle to
+        // the streams: without this it would wait for the rest of a body forever
+        self.stream_manager.clear();
+    }
+}
-- 
2.43.0


From c1da9cc0bac616684bc524c77f3c63458cb3174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 20/47] fix: one rejected or late waitUntil promise ended the
 wait for the others

---
 src/worker.rs | 128 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 44 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4bca50f..6caad76 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1459,6 +1459,20 @@ pub(crate) fn setup_event_listener(
             return response;
         }
 
+        // Wait for all the promises passed to waitUntil, also for those passed while
+        // waiting. A rejection does not end the wait; the first one is thrown after it.
+        globalThis.__settleWaitUntil = async function(promises) {
+            const errors = [];
+
+            for (let i = 0; i < promises.length; i++) {
+                await promises[i].catch(error => errors.push(error));
+            }
+
+            if (errors.length > 0) {
+                throw errors[0];
+            }
+        };
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1496,6 +1510,15 @@ pub(crate) fn setup_event_listener(
                         }
                     };
 
+                    const failed = (error) => {
+                        console.error('[addEventListener] Error in fetch handler:', error);
+                        // Only set a 500 response if no response was already produced.
+                        // A rejected waitUntil promise must NOT overwrite a valid response.
+                        if (!globalThis.__lastResponse) {
+                            globalThis.__lastResponse = new Response('Handler exception: ' + ((error && error.message) || error), { status: 500 });
+                        }
+                    };
+
                     // Run async to track completion
                     (async () => {
                         try {
@@ -1534,18 +1557,15 @@ pub(crate) fn setup_event_listener(
                             if (responsePromise) {
                                 await responsePromise;
                             }
+                        } catch (error) {
+                            failed(error);
+                        }
 
+                        try {
                             // Then wait for all waitUntil promises to complete
-                            if (waitUntilPromises.length > 0) {
-                                await Promise.all(waitUntilPromises);
-                            }
+                            await __settleWaitUntil(waitUntilPromises);
                         } catch (error) {
-                            console.error('[addEventListener] Error in fetch handler:', error);
-                            // Only set a 500 response if no response was already produced.
-                            // A rejected waitUntil promise must NOT overwrite a valid response.
-                            if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
-                            }
+                            failed(error);
                         } finally {
                             globalThis.__requestComplete = true;
                         }
@@ -1561,11 +1581,11 @@ pub(crate) fn setup_event_listener(
                     };
 
                     try {
-                        await handler(event);
-
-                        // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                        try {
+                            await handler(event);
+                        } finally {
+                            // Wait for all waitUntil promises to complete
+                            await __settleWaitUntil(waitUntilPromises);
                         }
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1595,6 +1615,14 @@ pub(crate) fn setup_event_listener(
                         }
                     };
 
+                    const failed = (error) => {
+                        console.error('[task] Handler error:', error);
+                        globalThis.__taskResult = {
+                            success: false,
+                            error: (error && error.message) || String(error)
+                        };
+                    };
+
                     try {
                         const result = await handler(event);
 
@@ -1611,16 +1639,15 @@ pub(crate) fn setup_event_listener(
                             }
                         }
 
+                    } catch (error) {
+                        failed(error);
+                    }
+
+                    try {
                         // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        await __settleWaitUntil(waitUntilPromises);
                     } catch (error) {
-                        console.error('[task] Handler error:', error);
-                        globalThis.__taskResult = {
-                            success: false,
-                            error: error.message || String(error)
-                        };
+                        failed(error);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1660,6 +1687,16 @@ pub(crate) fn setup_es_modules_handler(
                     passThroughOnException: () => {}
                 };
 
+                const failed = (error) => {
+                    console.error('[ES Modules] Error in fetch handler:', error);
+                    if (!globalThis.__lastResponse) {
+                        globalThis.__lastResponse = new Response(
+                            'Handler exception: ' + ((error && error.message) || error),
+                            { status: 500 }
+                        );
+                    }
+                };
+
                 // Run async and track completion separately from response
                 (async () => {
                     try {
@@ -1669,19 +1706,15 @@ pub(crate) fn setup_es_modules_handler(
                         // Process response body for streaming
                         const processed = await __streamResponseBody(response);
                         globalThis.__lastResponse = processed;
+                    } catch (error) {
+                        failed(error);
+                    }
 
+                    try {
                         // Wait for all waitUntil promises to complete (after response is set)
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        await __settleWaitUntil(waitUntilPromises);
                     } catch (error) {
-                        console.error('[ES Modules] Error in fetch handler:', error);
-                        if (!globalThis.__lastResponse) {
-                            globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
-                                { status: 500 }
-                            );
-                        }
+                        failed(error);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1713,11 +1746,11 @@ pub(crate) fn setup_es_modules_handler(
                 };
 
                 try {
-                    await moduleScheduled(event, globalThis.env, ctx);
-
-                    // Wait for all waitUntil promises to complete
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
+                    try {
+                        await moduleScheduled(event, globalThis.env, ctx);
+                    } finally {
+                        // Wait for all waitUntil promises to complete
+                        await __settleWaitUntil(waitUntilPromises);
                     }
                 } finally {
                     globalThis.__requestComplete = true;
@@ -1761,6 +1794,13 @@ pub(crate) fn setup_es_modules_handler(
                     waitUntil: event.waitUntil
                 };
 
+                const failed = (e) => {
+                    globalThis.__taskResult = {
+                        success: false,
+                        error: (e && e.message) || String(e)
+                    };
+                };
+
                 try {
                     const result = await moduleTask(event, globalThis.env, ctx);
 
@@ -1777,15 +1817,15 @@ pub(crate) fn setup_es_modules_handler(
                         }
                     }
 
+                } catch (e) {
+                    failed(e);
+                }
+
+                try {
                     // Wait for all waitUntil promises
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
-                    }
+                    await __settleWaitUntil(waitUntilPromises);
                 } catch (e) {
-                    globalThis.__taskResult = {
-                        success: false,
-                        error: e.message || String(e)
-                    };
+                    failed(e);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
-- 
2.43.0


From 3cad8b3cbd2d5f342f281b2ca55629614256fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 21/47] fix: limits of one request could end, or never end,
 another one's execution

Requests take turns on isolates and threads. The wall-clock watchdog terminated
whatever ran on the isolate, the CPU budget was used up by other requests of the
thread, a pending termination hit the next request, and a request waiting for an
event that never came was not woken by its wall-clock limit.
---
 src/execution_context.rs      | 167 +++++++++++++++++++++++-----------
 src/security/cpu_enforcer.rs  |  62 +++++++++++++
 src/security/timeout_guard.rs |  77 ++++++++++++++--
 src/worker.rs                 |   8 ++
 src/worker_future.rs          |   8 ++
 5 files changed, 265 insertions(+), 57 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index ddd7e12..95c7aaf 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -11,6 +11,7 @@ use std::collections::HashMap;
 use std::rc::Rc;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
+use std::task::{Context, Poll};
 use tokio::sync::{Notify, mpsc};
 use tokio_util::sync::CancellationToken;
 use v8;
@@ -51,6 +52,55 @@ unsafe fn try_lock_v8(
     Some(lmi.lock())
 }
 
+/// Time during which one request's code runs on its isolate (under the V8 lock).
+///
+/// Requests take turns on isolates and threads, but have their own limits: a limit may
+/// only terminate the isolate, and the CPU budget is only used up, while its request runs.
+struct Running<'a> {
+    isolate: *mut v8::OwnedIsolate,
+    wall_guard: &'a TimeoutGuard,
+    cpu_guard: &'a Option<CpuEnforcer>,
+}
+
+impl<'a> Running<'a> {
+    /// The limits of a request that is not running yet.
+    fn not_yet(wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) {
+        if let Some(cpu_guard) = cpu_guard {
+            cpu_guard.pause();
+        }
+
+        wall_guard.suspend();
+    }
+
+    fn enter(
+        isolate: *mut v8::OwnedIsolate,
+        wall_guard: &'a TimeoutGuard,
+        cpu_guard: &'a Option<CpuEnforcer>,
+    ) -> Self {
+        wall_guard.resume();
+
+        if let Some(cpu_guard) = cpu_guard {
+            cpu_guard.resume();
+        }
+
+        Self {
+            isolate,
+            wall_guard,
+            cpu_guard,
+        }
+    }
+}
+
+impl Drop for Running<'_> {
+    fn drop(&mut self) {
+        Self::not_yet(self.wall_guard, self.cpu_guard);
+
+        // The guards remember that they terminated this request. A termination that
+        // is still pending would hit the next request that runs on the isolate.
+        unsafe { (*self.isolate).cancel_terminate_execution() };
+    }
+}
+
 /// A disposable execution context for running a worker script
 ///
 /// This includes:
@@ -855,6 +905,7 @@ impl ExecutionContext {
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        Running::not_yet(&wall_guard, &cpu_guard);
 
         // Execute the task
         let result = match task {
@@ -906,6 +957,7 @@ impl ExecutionContext {
         let wall_guard =
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        Running::not_yet(&wall_guard, &cpu_guard);
 
         let result = self
             .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None)
@@ -1004,9 +1056,6 @@ impl ExecutionContext {
         exit_condition: EventLoopExit,
         abort_config: Option<AbortConfig>,
     ) -> Result<(), String> {
-        use crate::event_loop::drain_and_process;
-        use std::task::Poll;
-
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
@@ -1015,6 +1064,9 @@ impl ExecutionContext {
         let mut turn = async_waiter.as_deref().map(TurnWait::new);
 
         std::future::poll_fn(|cx| {
+            // The wall-clock limit ends the wait for events that never come
+            wall_guard.register(cx.waker());
+
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
@@ -1031,68 +1083,77 @@ impl ExecutionContext {
             // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
             let _lock_guard = unsafe { try_lock_v8(lmi_ptr) };
 
-            // 1. Check termination (CPU/wall-clock guards)
-            if self.is_terminated(wall_guard, cpu_guard) {
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
-
-                return Poll::Ready(Err("Execution terminated".to_string()));
-            }
-
-            // 2-5. Coalesced event loop: process callbacks in a loop while
-            // more work arrives during processing. This avoids releasing and
-            // re-acquiring the V8 lock between bursts of callbacks.
-            // Cap iterations to prevent starving other requests on the same isolate.
-            const MAX_COALESCE_ROUNDS: usize = 4;
-
-            for round in 0..MAX_COALESCE_ROUNDS {
-                let count = match drain_and_process(cx, self, &mut pending_callbacks) {
-                    Ok(c) => c,
-                    Err(e) => {
-                        if let Some(ref waiter) = async_waiter {
-                            waiter.unlock();
-                        }
+            let running = Running::enter(self.isolate, wall_guard, cpu_guard);
 
-                        return Poll::Ready(Err(e));
-                    }
-                };
-
-                // Check exit condition after each round
-                let should_exit = self.check_exit_with_abort(
+            let result = if self.is_terminated(wall_guard, cpu_guard) {
+                Poll::Ready(Err("Execution terminated".to_string()))
+            } else {
+                self.poll_event_loop(
+                    cx,
                     exit_condition,
                     &abort_config,
                     &mut abort_signaled_at,
-                );
-
-                if should_exit {
-                    if let Some(ref waiter) = async_waiter {
-                        waiter.unlock();
-                    }
-
-                    return Poll::Ready(Ok(()));
-                }
-
-                // No callbacks processed in this round — no more work pending
-                if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
-                    break;
-                }
+                    &mut pending_callbacks,
+                )
+            };
 
-                // Callbacks were processed — loop to check if more arrived
-                // during processing (e.g., promise chains, microtasks)
-            }
+            drop(running);
 
-            // 6. Not done yet — release fair queue and V8 lock.
-            //    V8 mutex released, other requests can run on this isolate.
+            // Release fair queue and V8 lock: other requests can run on this isolate.
             if let Some(ref waiter) = async_waiter {
                 waiter.unlock();
             }
 
-            Poll::Pending
+            // Terminated in the middle of its work: nothing may be left to wait for
+            if result.is_pending() && self.is_terminated(wall_guard, cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
+            result
         })
         .await
     }
 
+    /// One turn of `await_event_loop`, with the V8 lock held.
+    ///
+    /// Coalesced event loop: process callbacks in a loop while more work arrives during
+    /// processing. This avoids releasing and re-acquiring the V8 lock between bursts of
+    /// callbacks. Cap iterations to prevent starving other requests on the same isolate.
+    fn poll_event_loop(
+        &mut self,
+        cx: &mut Context<'_>,
+        exit_condition: EventLoopExit,
+        abort_config: &Option<AbortConfig>,
+        abort_signaled_at: &mut Option<tokio::time::Instant>,
+        pending_callbacks: &mut Vec<crate::runtime::CallbackMessage>,
+    ) -> Poll<Result<(), String>> {
+        use crate::event_loop::drain_and_process;
+
+        const MAX_COALESCE_ROUNDS: usize = 4;
+
+        for round in 0..MAX_COALESCE_ROUNDS {
+            let count = match drain_and_process(cx, self, pending_callbacks) {
+                Ok(c) => c,
+                Err(e) => return Poll::Ready(Err(e)),
+            };
+
+            // Check exit condition after each round
+            if self.check_exit_with_abort(exit_condition, abort_config, abort_signaled_at) {
+                return Poll::Ready(Ok(()));
+            }
+
+            // No callbacks processed in this round — no more work pending
+            if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
+                break;
+            }
+
+            // Callbacks were processed — loop to check if more arrived
+            // during processing (e.g., promise chains, microtasks)
+        }
+
+        Poll::Pending
+    }
+
     /// Trigger a fetch event
     ///
     /// Split into per-phase V8 locks to release the V8 mutex during I/O waits.
@@ -1142,6 +1203,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1190,6 +1252,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1263,6 +1326,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result: Result<(), String> = unsafe {
@@ -1373,6 +1437,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 862182f..81f80d4 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -117,6 +117,18 @@ mod linux {
         pub fn reset(&self, timeout_ms: u64) -> Result<(), std::io::Error> {
             arm_enforcer(self.enforcer_id, timeout_ms)
         }
+
+        /// Stop counting CPU time: the thread is about to do other work.
+        ///
+        /// Must be called on the thread that created the enforcer.
+        pub fn pause(&self) {
+            pause_enforcer(self.enforcer_id);
+        }
+
+        /// Go on counting CPU time after `pause()`.
+        pub fn resume(&self) {
+            resume_enforcer(self.enforcer_id);
+        }
     }
 
     impl Drop for CpuEnforcer {
@@ -134,6 +146,8 @@ mod linux {
         timer: usize,
         /// A limit is set and has not been enforced yet
         armed: bool,
+        /// What is left of the limit while paused
+        left: Option<libc::itimerspec>,
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
     }
@@ -156,6 +170,7 @@ mod linux {
             EnforcerData {
                 timer: timer_id as usize,
                 armed: false,
+                left: None,
                 isolate_handle,
                 terminated,
             },
@@ -190,10 +205,51 @@ mod linux {
 
         data.terminated.store(false, Ordering::SeqCst);
         data.armed = timeout_ms != 0;
+        data.left = None;
 
         Ok(())
     }
 
+    fn pause_enforcer(enforcer_id: usize) {
+        let mut map = ENFORCER_REGISTRY.lock().unwrap();
+        let data = map.get_mut(&enforcer_id).expect("enforcer is registered");
+
+        if !data.armed {
+            return;
+        }
+
+        let disarm: libc::itimerspec = unsafe { std::mem::zeroed() };
+        let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
+        let ret =
+            unsafe { libc::timer_settime(data.timer as libc::timer_t, 0, &disarm, &mut left) };
+
+        if ret != 0 {
+            return;
+        }
+
+        data.armed = false;
+
+        if left.it_value.tv_sec == 0 && left.it_value.tv_nsec == 0 {
+            // Expired, but its signal has not been handled yet
+            data.terminated.store(true, Ordering::SeqCst);
+        } else {
+            data.left = Some(left);
+        }
+    }
+
+    fn resume_enforcer(enforcer_id: usize) {
+        let mut map = ENFORCER_REGISTRY.lock().unwrap();
+        let data = map.get_mut(&enforcer_id).expect("enforcer is registered");
+
+        if let Some(left) = data.left.take() {
+            let ret = unsafe {
+                libc::timer_settime(data.timer as libc::timer_t, 0, &left, std::ptr::null_mut())
+            };
+
+            data.armed = ret == 0;
+        }
+    }
+
     /// A one-shot timer has expired once it is no longer armed.
     fn has_expired(timer_id: libc::timer_t) -> bool {
         let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
@@ -295,6 +351,12 @@ impl CpuEnforcer {
         false
     }
 
+    /// No-op on non-Linux platforms.
+    pub fn pause(&self) {}
+
+    /// No-op on non-Linux platforms.
+    pub fn resume(&self) {}
+
     /// No-op on non-Linux platforms.
     pub fn reset(&self, _timeout_ms: u64) -> Result<(), std::io::Error> {
         Ok(())
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..51a8ba4 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -22,13 +22,19 @@
 //!
 //! The `IsolateHandle` is thread-safe and can be used from the watchdog thread
 //! to terminate execution in the main thread.
+//!
+//! Requests that share an isolate take turns on it. A guard is suspended while its
+//! request is not the one running, so that it cannot terminate another request.
 
-use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc;
+use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use std::thread;
 use std::time::Duration;
 
+use futures::task::AtomicWaker;
+
 /// RAII guard that spawns a watchdog thread to terminate V8 execution on timeout.
 ///
 /// The watchdog thread monitors execution time and calls `isolate.terminate_execution()`
@@ -49,14 +55,28 @@ use std::time::Duration;
 /// }
 /// ```
 pub struct TimeoutGuard {
-    /// Channel to send cancellation signal to watchdog
-    cancel_tx: Option<mpsc::Sender<()>>,
+    /// Cancellation channel and state shared with the watchdog (None = disabled)
+    cancel_tx: Option<Watchdog>,
     /// Handle to join the watchdog thread
     thread_handle: Option<thread::JoinHandle<()>>,
     /// Flag set when timeout is triggered
     triggered: Arc<AtomicBool>,
 }
 
+/// The guard's side of its watchdog thread.
+struct Watchdog {
+    /// Channel to send cancellation signal to watchdog
+    tx: mpsc::Sender<()>,
+    shared: Arc<Shared>,
+}
+
+struct Shared {
+    /// Whether the isolate is running code of the guarded request
+    running: Mutex<bool>,
+    /// Wakes the guarded request when it waits for something else
+    waker: AtomicWaker,
+}
+
 impl TimeoutGuard {
     /// Create a new timeout guard with the given V8 isolate handle and timeout.
     ///
@@ -83,6 +103,11 @@ impl TimeoutGuard {
 
         let (cancel_tx, cancel_rx) = mpsc::channel::<()>();
         let triggered_clone = triggered.clone();
+        let shared = Arc::new(Shared {
+            running: Mutex::new(true),
+            waker: AtomicWaker::new(),
+        });
+        let shared_clone = shared.clone();
 
         let thread_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
@@ -102,7 +127,15 @@ impl TimeoutGuard {
                             timeout_ms
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
-                        isolate_handle.terminate_execution();
+
+                        let running = shared_clone.running.lock().unwrap();
+                        if *running {
+                            isolate_handle.terminate_execution();
+                        }
+                        drop(running);
+
+                        // The request may be waiting for an event that never comes
+                        shared_clone.waker.wake();
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -113,7 +146,10 @@ impl TimeoutGuard {
             .expect("Failed to spawn timeout watchdog thread");
 
         Self {
-            cancel_tx: Some(cancel_tx),
+            cancel_tx: Some(Watchdog {
+                tx: cancel_tx,
+                shared,
+            }),
             thread_handle: Some(thread_handle),
             triggered,
         }
@@ -125,6 +161,35 @@ impl TimeoutGuard {
     pub fn was_triggered(&self) -> bool {
         self.triggered.load(Ordering::SeqCst)
     }
+
+    /// Have `waker` woken when the timeout is triggered.
+    ///
+    /// Register before checking `was_triggered()`.
+    pub fn register(&self, waker: &Waker) {
+        if let Some(watchdog) = &self.cancel_tx {
+            watchdog.shared.waker.register(waker);
+        }
+    }
+
+    /// The guarded request stops running on the isolate for now.
+    ///
+    /// The time keeps counting, but the isolate is not terminated any more.
+    pub fn suspend(&self) {
+        self.set_running(false);
+    }
+
+    /// The guarded request runs on the isolate again.
+    ///
+    /// A timeout triggered in the meantime shows in `was_triggered()` only.
+    pub fn resume(&self) {
+        self.set_running(true);
+    }
+
+    fn set_running(&self, running: bool) {
+        if let Some(watchdog) = &self.cancel_tx {
+            *watchdog.shared.running.lock().unwrap() = running;
+        }
+    }
 }
 
 impl Drop for TimeoutGuard {
@@ -132,7 +197,7 @@ impl Drop for TimeoutGuard {
         // Send cancellation signal to watchdog thread
         if let Some(cancel_tx) = self.cancel_tx.take() {
             // Ignore error if thread already exited
-            let _ = cancel_tx.send(());
+            let _ = cancel_tx.tx.send(());
         }
 
         // Wait for watchdog thread to finish
diff --git a/src/worker.rs b/src/worker.rs
index 6caad76..c371010 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -750,6 +750,9 @@ impl Worker {
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
+            // The wall-clock limit ends the wait for events that never come
+            wall_guard.register(cx.waker());
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -814,6 +817,11 @@ impl Worker {
                 }
             }
 
+            // Terminated in the middle of its work: nothing may be left to wait for
+            if self.is_terminated(wall_guard, cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             // 6. Not done yet - waker registered via poll_recv
             Poll::Pending
         })
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4c2dbcd..c256a81 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -61,6 +61,9 @@ impl Future for WorkerFuture<'_> {
 
         let this = self.get_mut();
 
+        // The wall-clock limit ends the wait for events that never come
+        this.wall_guard.register(cx.waker());
+
         // 1. Check termination (CPU/wall-clock guards)
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
@@ -91,6 +94,11 @@ impl Future for WorkerFuture<'_> {
             }
         }
 
+        // Terminated in the middle of its work: nothing may be left to wait for
+        if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
+            return Poll::Ready(Err("Execution terminated".to_string()));
+        }
+
         // 6. Not done yet - waker registered via poll_recv
         Poll::Pending
     }
-- 
2.43.0


From ba39fe2e1213ed26adfba2bbb654a5d6f1e510d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 22/47] fix: a request whose caller gave up held its isolate
 forever

The slot was only released, and the context only dropped under the V8 lock, when
the future of execute_pinned ran to its end.
---
 src/pool.rs | 111 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..6ae204d 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -523,7 +523,8 @@ fn release_to_local_pool(isolate: &TaggedIsolate) {
     isolate.release();
 
     // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
+    // (the pool itself may be gone when its thread ends)
+    let _ = LOCAL_POOL.try_with(|pool_cell| {
         let mut pool_opt = pool_cell.borrow_mut();
 
         if let Some(pool) = pool_opt.as_mut() {
@@ -532,6 +533,24 @@ fn release_to_local_pool(isolate: &TaggedIsolate) {
     });
 }
 
+/// An acquired isolate, released on drop: when its request is done, or when the
+/// caller dropped the future of `execute_pinned`.
+struct AcquiredIsolate(Arc<TaggedIsolate>);
+
+impl std::ops::Deref for AcquiredIsolate {
+    type Target = TaggedIsolate;
+
+    fn deref(&self) -> &TaggedIsolate {
+        &self.0
+    }
+}
+
+impl Drop for AcquiredIsolate {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
 // ============================================================================
 // Statistics
 // ============================================================================
@@ -586,6 +605,37 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// A context in use, dropped under V8 Locker unless taken apart for the cache.
+struct ActiveContext {
+    ec: Option<ExecutionContext>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl ActiveContext {
+    fn new(ec: ExecutionContext, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            ec: Some(ec),
+            lmi_ptr,
+        }
+    }
+
+    fn get(&mut self) -> &mut ExecutionContext {
+        self.ec.as_mut().expect("context not taken")
+    }
+
+    fn into_parts(mut self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        self.ec.take().expect("context not taken").into_parts()
+    }
+}
+
+impl Drop for ActiveContext {
+    fn drop(&mut self) {
+        if let Some(ec) = self.ec.take() {
+            drop_under_lock(ec, self.lmi_ptr);
+        }
+    }
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -620,6 +670,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // Fail-fast: try to acquire an isolate, return error if at capacity
     let (isolate_arc, is_hit) = acquire_from_local_pool(&owner_id)
         .ok_or_else(|| TerminationReason::Other("Pool at capacity".to_string()))?;
+    let isolate_arc = AcquiredIsolate(isolate_arc);
 
     if is_hit {
         CACHE_HITS.fetch_add(1, Ordering::Relaxed);
@@ -705,7 +756,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -714,15 +765,16 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut ec = ActiveContext::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
         }
 
         // reset() acquires its own V8 lock internally
-        match ec.reset() {
+        match ec.get().reset() {
             Ok(()) => {
-                let result = ec.exec(task).await;
+                let result = ec.get().exec(task).await;
 
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
@@ -731,7 +783,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         result.as_ref().err(),
                     );
                     false
-                } else if let Err(reason) = ec.drain_waituntil().await {
+                } else if let Err(reason) = ec.get().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
                         &worker_id[..8.min(worker_id.len())],
@@ -774,11 +826,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     if let Some(evicted) = evicted {
                         drop_under_lock(evicted, lmi_ptr);
                     }
-                } else {
-                    drop_under_lock(ec, lmi_ptr);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -787,7 +836,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
+                drop(ec);
                 // Fall through to cold path
             }
         }
@@ -821,33 +870,18 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (result, new_cached_context) = match ctx_result {
         Ok(mut ctx) => {
             ctx.async_waiter = async_waiter;
-            let result = ctx.exec(task).await;
+            let mut ctx = ActiveContext::new(ctx, lmi_ptr);
+            let result = ctx.get().exec(task).await;
 
             if result.is_ok() {
-                match ctx.drain_waituntil().await {
-                    Ok(()) => {
-                        let (request, isolate_ptr) = ctx.into_parts();
-                        (
-                            result,
-                            Some(CachedContext {
-                                request,
-                                isolate_ptr,
-                                worker_id: worker_id.to_string(),
-                                version,
-                                reuse_count: 1,
-                                last_used: Instant::now(),
-                                ops,
-                                env_updated_at,
-                            }),
-                        )
-                    }
+                match ctx.get().drain_waituntil().await {
+                    Ok(()) => (result, Some(ctx)),
                     Err(reason) => {
                         tracing::debug!(
                             "context NOT CACHED: worker={}, reason=drain_waituntil: {:?}",
                             &worker_id[..8.min(worker_id.len())],
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
                         (Ok(()), None)
                     }
                 }
@@ -857,15 +891,14 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
                 (result, None)
             }
         }
         Err(e) => (Err(e), None),
     };
 
-    // Return cached context to pool
-    if let Some(cached) = new_cached_context {
+    // Return context to the pool's cache
+    if let Some(ctx) = new_cached_context {
         let mut inner = isolate_arc.inner.lock().await;
 
         let evicted = if inner.cached_contexts.len() >= inner.max_cached {
@@ -881,7 +914,17 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             None
         };
 
-        inner.cached_contexts.push(cached);
+        let (request, isolate_ptr) = ctx.into_parts();
+        inner.cached_contexts.push(CachedContext {
+            request,
+            isolate_ptr,
+            worker_id: worker_id.to_string(),
+            version,
+            reuse_count: 1,
+            last_used: Instant::now(),
+            ops,
+            env_updated_at,
+        });
         drop(inner);
 
         if let Some(evicted) = evicted {
@@ -889,9 +932,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
+    // The isolate goes back to the pool here
     result
 }
 
-- 
2.43.0


From 8584f38d9aca29f8f7dea2d56bf4bb0114d967bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 23/47] fix: a body nobody reads any more kept its source open
 until the next chunk

---
 src/runtime/callback_handlers.rs |  2 +-
 src/runtime/scheduler.rs         |  2 +-
 src/runtime/stream_manager.rs    | 16 +++++++++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/runtime/callback_handlers.rs b/src/runtime/callback_handlers.rs
index 15008c3..c120415 100644
--- a/src/runtime/callback_handlers.rs
+++ b/src/runtime/callback_handlers.rs
@@ -222,7 +222,7 @@ pub fn populate_storage_result(
                         use super::stream_manager::StreamChunk;
                         let mut rx = rx;
 
-                        while let Some(result) = rx.recv().await {
+                        while let Some(result) = manager.next_part(stream_id, &mut rx).await {
                             match result {
                                 Ok(bytes) => {
                                     if manager
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 2bb373f..308b0f5 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -483,7 +483,7 @@ fn spawn_stream_reader(
 ) {
     tokio::spawn(async move {
         let forward = async {
-            while let Some(result) = rx.recv().await {
+            while let Some(result) = manager.next_part(stream_id, &mut rx).await {
                 match result {
                     Ok(bytes) => {
                         if manager
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index abfa1f1..a66a0d0 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -187,6 +187,20 @@ impl StreamManager {
         }
     }
 
+    /// Receive the next part of a body that is written to a stream
+    /// None at its end, or once nobody reads the stream any more
+    pub async fn next_part<T>(
+        &self,
+        stream_id: StreamId,
+        body: &mut mpsc::Receiver<T>,
+    ) -> Option<T> {
+        tokio::select! {
+            biased;
+            _ = self.reader_closed(stream_id) => None,
+            part = body.recv() => part,
+        }
+    }
+
     /// The taken receiver of a stream is done with (read to its end, or dropped)
     pub fn reader_gone(&self, stream_id: StreamId) {
         if let Some(gone) = self.readers_gone.lock().unwrap().get(&stream_id) {
@@ -255,7 +269,7 @@ impl StreamManager {
         tokio::spawn(async move {
             let mut rx = rx;
 
-            while let Some(result) = rx.recv().await {
+            while let Some(result) = stream_manager.next_part(stream_id, &mut rx).await {
                 match result {
                     Ok(bytes) => {
                         if stream_manager
-- 
2.43.0


From dd9630dd6c1b8bae60fc7afcb21a40710fd597f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 24/47] fix: timers and WebSockets of a finished request went
 on in its cached context

---
 src/execution_context.rs | 9 +++++++++
 src/runtime/scheduler.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 95c7aaf..9a50e33 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -330,7 +330,16 @@ impl ExecutionContext {
     /// Used by `execute_pinned` to save the RequestContext back to the cache
     /// without aborting the event loop. The remaining EC fields (raw pointers,
     /// static refs, Arcs) are dropped normally.
+    ///
+    /// Nothing of the finished request goes on while the context waits in the cache:
+    /// nobody would receive its timers, events and bodies.
     pub(crate) fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        let _ = self
+            .request
+            .scheduler_tx
+            .send(crate::runtime::SchedulerMessage::EndRequest);
+        self.request.stream_manager.clear();
+
         (self.request, self.isolate)
     }
 
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 308b0f5..311e5b9 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -69,6 +69,9 @@ pub enum SchedulerMessage {
     WebSocketAccept(WebSocketId),
     WebSocketSend(WebSocketId, WebSocketOutgoing),
     WebSocketClose(WebSocketId, u16, String),
+    /// The request is over (its context may serve another one): drop its timers and
+    /// close its WebSockets
+    EndRequest,
     Shutdown,
 }
 
@@ -445,6 +448,12 @@ pub async fn run_event_loop(
                         });
                     }
 
+                    SchedulerMessage::EndRequest => {
+                        timers.clear();
+                        cancelled.clear();
+                        ws_commands.clear();
+                    }
+
                     SchedulerMessage::Shutdown => {
                         shutdown = true;
                     }
-- 
2.43.0


From 01094ec4932fa1b94664ffb3daea3b8322d0db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 25/47] fix: the source of a body was not told that its client
 left, and its request went on

A source that was idle (or whose pull() failed to enqueue) left its reader waiting
for a part that never came, so that the request lasted until its wall-clock limit.
The reader is cancelled as soon as nobody reads the response, and cancelling a
reader ends its pending reads.
---
 src/runtime/streams.rs |  4 +++-
 src/worker.rs          | 30 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..42ac2e0 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -49,8 +49,10 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._controller._abortController.abort(reason || 'Stream cancelled');
                 }
 
-                // Clear reader
+                // Clear reader: what it still waits for will not come
                 if (this._reader) {
+                    this._controller._queue = [];
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
diff --git a/src/worker.rs b/src/worker.rs
index c371010..2d1a34d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1410,12 +1410,25 @@ pub(crate) fn setup_event_listener(
             // Read and forward asynchronously
             (async () => {
                 let reader = null;
-                let cancelled = false;
+                let finished = false;
+                let cancelling = null;
                 let end = () => __responseStreamEnd(streamId);
 
+                // Cancel the reader to trigger the source's cancel() callback
+                const cancel = () => {
+                    if (!cancelling && !finished) {
+                        console.log('[streamResponseBody] Client disconnected, cancelling stream');
+                        // Ignore cancel errors
+                        cancelling = (async () => reader.cancel('Client disconnected'))().catch(() => {});
+                    }
+                };
+
                 try {
                     reader = response.body.getReader();
 
+                    // The source may be idle when the client goes: it is told all the same
+                    __nativeStreamReaderClosed(streamId, cancel);
+
                     while (true) {
                         const { value, done } = await reader.read();
 
@@ -1428,8 +1441,7 @@ pub(crate) fn setup_event_listener(
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
                                 if (__responseStreamIsClosed(streamId)) {
-                                    console.log('[streamResponseBody] Client disconnected, cancelling stream');
-                                    cancelled = true;
+                                    cancel();
                                     break;
                                 }
 
@@ -1437,7 +1449,7 @@ pub(crate) fn setup_event_listener(
                                 await new Promise(resolve => setTimeout(resolve, 1));
                             }
 
-                            if (cancelled) break;
+                            if (cancelling) break;
                         }
                     }
                 } catch (error) {
@@ -1445,14 +1457,8 @@ pub(crate) fn setup_event_listener(
                     // The body is cut short: that must not look like its end
                     end = () => __responseStreamError(streamId, String((error && error.message) || error));
                 } finally {
-                    // Cancel the reader to trigger the source's cancel() callback
-                    if (reader && cancelled) {
-                        try {
-                            await reader.cancel('Client disconnected');
-                        } catch (e) {
-                            // Ignore cancel errors
-                        }
-                    }
+                    finished = true;
+                    await cancelling;
 
                     // The buffer may still be full: wait, or the end would be lost
                     while (!end() && !__responseStreamIsClosed(streamId)) {
-- 
2.43.0


From f1bc6935d89b34d734f5088f76670c86ce3b5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 26/47] fix: operations of a finished request went on in its
 cached context

They held up services that nobody waited for, and one that had not been handed
over yet would have been under the next request's name.
---
 src/runtime/scheduler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 311e5b9..ee380d1 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -69,8 +69,8 @@ pub enum SchedulerMessage {
     WebSocketAccept(WebSocketId),
     WebSocketSend(WebSocketId, WebSocketOutgoing),
     WebSocketClose(WebSocketId, u16, String),
-    /// The request is over (its context may serve another one): drop its timers and
-    /// close its WebSockets
+    /// The request is over (its context may serve another one): cancel its operations,
+    /// drop its timers and close its WebSockets
     EndRequest,
     Shutdown,
 }
@@ -140,6 +140,10 @@ pub async fn run_event_loop(
 ) {
     let callback_tx = CallbackSender::new(callback_tx, callback_notify);
 
+    // What one request starts is cancelled at its end, or together with its context
+    let context_cancel = cancel;
+    let mut cancel = context_cancel.child_token();
+
     let mut timers: FuturesUnordered<Timer> = FuturesUnordered::new();
     let mut cancelled: HashSet<CallbackId> = HashSet::new();
     let mut shutdown = false;
@@ -449,6 +453,8 @@ pub async fn run_event_loop(
                     }
 
                     SchedulerMessage::EndRequest => {
+                        cancel.cancel();
+                        cancel = context_cancel.child_token();
                         timers.clear();
                         cancelled.clear();
                         ws_commands.clear();
-- 
2.43.0


From d3505b70040d3736b6b8c3fa3b9f9ad4d6f8ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 27/47] fix: failing scheduled handlers were reported as
 success, tasks without a handler hung

A scheduled handler that throws is the failed result of its task. A task for a
worker that has no handler for it fails at once instead of waiting for its limit.
---
 src/worker.rs | 69 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 2d1a34d..d6c3a04 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1487,6 +1487,35 @@ pub(crate) fn setup_event_listener(
             }
         };
 
+        // Run a scheduled handler and what it passes to waitUntil. A failure is the
+        // result of the task: it must neither be lost nor keep the task from ending.
+        globalThis.__runScheduled = async function(run, waitUntilPromises) {
+            globalThis.__taskResult = { success: true };
+
+            const failed = (error) => {
+                console.error('[scheduled] Handler error:', error);
+                globalThis.__taskResult = {
+                    success: false,
+                    error: (error && error.message) || String(error)
+                };
+            };
+
+            try {
+                await run();
+            } catch (error) {
+                failed(error);
+            }
+
+            try {
+                // Wait for all waitUntil promises to complete
+                await __settleWaitUntil(waitUntilPromises);
+            } catch (error) {
+                failed(error);
+            } finally {
+                globalThis.__requestComplete = true;
+            }
+        };
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1586,7 +1615,7 @@ pub(crate) fn setup_event_listener(
                     })();
                 };
             } else if (type === 'scheduled') {
-                globalThis.__scheduledHandler = async function(event) {
+                globalThis.__scheduledHandler = function(event) {
                     // Collect promises passed to waitUntil
                     const waitUntilPromises = [];
 
@@ -1594,16 +1623,7 @@ pub(crate) fn setup_event_listener(
                         waitUntilPromises.push(Promise.resolve(promise));
                     };
 
-                    try {
-                        try {
-                            await handler(event);
-                        } finally {
-                            // Wait for all waitUntil promises to complete
-                            await __settleWaitUntil(waitUntilPromises);
-                        }
-                    } finally {
-                        globalThis.__requestComplete = true;
-                    }
+                    return __runScheduled(() => handler(event), waitUntilPromises);
                 };
             } else if (type === 'task') {
                 globalThis.__taskHandler = async function(event) {
@@ -1749,7 +1769,7 @@ pub(crate) fn setup_es_modules_handler(
             const moduleScheduled = globalThis.default.scheduled;
 
             // Wrap to pass env and ctx
-            globalThis.__scheduledHandler = async function(event) {
+            globalThis.__scheduledHandler = function(event) {
                 // Collect promises passed to waitUntil
                 const waitUntilPromises = [];
 
@@ -1759,23 +1779,16 @@ pub(crate) fn setup_es_modules_handler(
                     }
                 };
 
-                try {
-                    try {
-                        await moduleScheduled(event, globalThis.env, ctx);
-                    } finally {
-                        // Wait for all waitUntil promises to complete
-                        await __settleWaitUntil(waitUntilPromises);
-                    }
-                } finally {
-                    globalThis.__requestComplete = true;
-                }
+                return __runScheduled(() => moduleScheduled(event, globalThis.env, ctx), waitUntilPromises);
             };
         }
 
         // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
-            globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+            globalThis.__scheduledHandler = function(event) {
+                return __runScheduled(() => {
+                    throw new Error('Worker does not implement scheduled handler');
+                }, []);
             };
         }
 
@@ -1854,6 +1867,14 @@ pub(crate) fn setup_es_modules_handler(
             }
         }
 
+        // No handler for tasks at all: a task fails, rather than being waited for
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__taskHandler = function(event) {
+                globalThis.__taskResult = { success: false, error: 'Worker does not implement task handler' };
+                globalThis.__requestComplete = true;
+            };
+        }
+
         // Final fallback: if __triggerFetch is still not defined (no addEventListener, no valid export default),
         // create a 501 handler. This handles cases like:
         // - globalThis.default = null
-- 
2.43.0


From 925d229465cde4c9f92843b7d760e694f11690e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 28/47] fix: one request's memory limit was reported for others
 on its isolate, and its own was not noticed in callbacks

---
 src/execution_context.rs      | 71 ++++++++++++++++++++++++++++++-----
 src/locker_managed_isolate.rs |  5 +++
 src/pool.rs                   |  3 --
 src/runtime/mod.rs            |  5 +++
 src/security/heap_limit.rs    |  5 +++
 src/worker.rs                 |  2 +
 6 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 9a50e33..44ea1f2 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -6,7 +6,7 @@
 //!
 //! The context is cheap to create (tens of us) compared to an isolate (few ms without snapshot).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 use std::collections::HashMap;
 use std::rc::Rc;
 use std::sync::Arc;
@@ -52,12 +52,27 @@ unsafe fn try_lock_v8(
     Some(lmi.lock())
 }
 
+/// What became of one request's memory limit.
+///
+/// The limit belongs to the isolate, which requests share and take turns on.
+#[derive(Default)]
+struct MemoryLimit {
+    /// The request's code reached the limit
+    hit: Cell<bool>,
+    /// The request's code was terminated for it
+    terminated: Cell<bool>,
+}
+
 /// Time during which one request's code runs on its isolate (under the V8 lock).
 ///
 /// Requests take turns on isolates and threads, but have their own limits: a limit may
 /// only terminate the isolate, and the CPU budget is only used up, while its request runs.
 struct Running<'a> {
     isolate: *mut v8::OwnedIsolate,
+    lmi_ptr: *mut LockerManagedIsolate,
+    heap_terminations: u32,
+    isolate_memory_limit_hit: Arc<AtomicBool>,
+    memory_limit: Rc<MemoryLimit>,
     wall_guard: &'a TimeoutGuard,
     cpu_guard: &'a Option<CpuEnforcer>,
 }
@@ -73,10 +88,13 @@ impl<'a> Running<'a> {
     }
 
     fn enter(
-        isolate: *mut v8::OwnedIsolate,
+        ctx: &ExecutionContext,
         wall_guard: &'a TimeoutGuard,
         cpu_guard: &'a Option<CpuEnforcer>,
     ) -> Self {
+        // What other requests (and the upkeep of their contexts) have left behind
+        ctx.memory_limit_hit.store(false, Ordering::SeqCst);
+
         wall_guard.resume();
 
         if let Some(cpu_guard) = cpu_guard {
@@ -84,7 +102,11 @@ impl<'a> Running<'a> {
         }
 
         Self {
-            isolate,
+            isolate: ctx.isolate,
+            lmi_ptr: ctx.lmi_ptr,
+            heap_terminations: unsafe { heap_terminations(ctx.lmi_ptr) },
+            isolate_memory_limit_hit: ctx.memory_limit_hit.clone(),
+            memory_limit: ctx.memory_limit.clone(),
             wall_guard,
             cpu_guard,
         }
@@ -95,12 +117,34 @@ impl Drop for Running<'_> {
     fn drop(&mut self) {
         Self::not_yet(self.wall_guard, self.cpu_guard);
 
-        // The guards remember that they terminated this request. A termination that
+        if self.isolate_memory_limit_hit.swap(false, Ordering::SeqCst) {
+            self.memory_limit.hit.set(true);
+        }
+
+        if unsafe { heap_terminations(self.lmi_ptr) } != self.heap_terminations {
+            self.memory_limit.terminated.set(true);
+        }
+
+        // The limits remember that they terminated this request. A termination that
         // is still pending would hit the next request that runs on the isolate.
         unsafe { (*self.isolate).cancel_terminate_execution() };
     }
 }
 
+/// How often code on the isolate was terminated at its heap limit.
+///
+/// # Safety
+///
+/// When non-null, `lmi_ptr` must point to a valid `LockerManagedIsolate`.
+unsafe fn heap_terminations(lmi_ptr: *mut LockerManagedIsolate) -> u32 {
+    if lmi_ptr.is_null() {
+        return 0;
+    }
+
+    // SAFETY: caller guarantees lmi_ptr is valid when non-null
+    unsafe { (*lmi_ptr).heap_terminations() }
+}
+
 /// A disposable execution context for running a worker script
 ///
 /// This includes:
@@ -126,6 +170,9 @@ pub struct ExecutionContext {
     /// Memory limit flag (shared with isolate)
     pub memory_limit_hit: Arc<AtomicBool>,
 
+    /// This request's share in it
+    memory_limit: Rc<MemoryLimit>,
+
     /// Per-request state (V8 context, channels, callbacks, streams)
     pub request: RequestContext,
 
@@ -296,6 +343,7 @@ impl ExecutionContext {
             platform,
             limits,
             memory_limit_hit,
+            memory_limit: Rc::default(),
             request,
             async_waiter: None,
         })
@@ -320,6 +368,7 @@ impl ExecutionContext {
             platform,
             limits,
             memory_limit_hit,
+            memory_limit: Rc::default(),
             request,
             async_waiter,
         }
@@ -1003,7 +1052,7 @@ impl ExecutionContext {
         }
 
         // Check memory limit flag
-        if self.memory_limit_hit.load(Ordering::SeqCst) {
+        if self.memory_limit.hit.get() {
             return Err(TerminationReason::MemoryLimit);
         }
 
@@ -1028,6 +1077,7 @@ impl ExecutionContext {
     /// - V8 execution terminating
     /// - Wall-clock timeout triggered
     /// - CPU time limit exceeded (Linux only)
+    /// - Heap limit reached
     #[inline]
     pub fn is_terminated(
         &self,
@@ -1036,6 +1086,7 @@ impl ExecutionContext {
     ) -> bool {
         unsafe {
             (*self.isolate).is_execution_terminating()
+                || self.memory_limit.terminated.get()
                 || wall_guard.was_triggered()
                 || cpu_guard
                     .as_ref()
@@ -1092,7 +1143,7 @@ impl ExecutionContext {
             // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
             let _lock_guard = unsafe { try_lock_v8(lmi_ptr) };
 
-            let running = Running::enter(self.isolate, wall_guard, cpu_guard);
+            let running = Running::enter(self, wall_guard, cpu_guard);
 
             let result = if self.is_terminated(wall_guard, cpu_guard) {
                 Poll::Ready(Err("Execution terminated".to_string()))
@@ -1212,7 +1263,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
-                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
+                let _running = Running::enter(self, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1261,7 +1312,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
-                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
+                let _running = Running::enter(self, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1335,7 +1386,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
-                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
+                let _running = Running::enter(self, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result: Result<(), String> = unsafe {
@@ -1446,7 +1497,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
-                let _running = Running::enter(self.isolate, wall_guard, cpu_guard);
+                let _running = Running::enter(self, wall_guard, cpu_guard);
 
                 use std::pin::pin;
                 let result = unsafe {
diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index f413be5..e71fdeb 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -140,6 +140,11 @@ impl LockerManagedIsolate {
         self.memory_limit_hit
             .load(std::sync::atomic::Ordering::Relaxed)
     }
+
+    /// How often code on this isolate was terminated at the heap limit
+    pub(crate) fn heap_terminations(&self) -> u32 {
+        self._heap_limit_state.invocations()
+    }
 }
 
 #[cfg(test)]
diff --git a/src/pool.rs b/src/pool.rs
index 6ae204d..4e772c2 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -730,9 +730,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
     let warm_hit = cached_context.is_some();
 
-    // Reset memory limit flag
-    memory_limit_hit.store(false, Ordering::SeqCst);
-
     // ── Warm hit path ──────────────────────────────────────────────────
     if warm_hit {
         let CachedContext {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..f208601 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -351,6 +351,11 @@ impl Runtime {
         (runtime, scheduler_rx, callback_tx, callback_notify)
     }
 
+    /// Whether code on this isolate was terminated at the heap limit
+    pub(crate) fn heap_limit_reached(&self) -> bool {
+        self._heap_limit_state.invocations() > 0
+    }
+
     pub fn process_callbacks(&mut self) {
         use std::pin::pin;
         let scope = pin!(v8::HandleScope::new(&mut self.isolate));
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index acaad8c..792eef9 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -54,6 +54,11 @@ impl HeapLimitState {
             max_heap_bytes,
         }
     }
+
+    /// How often V8 has reported that the heap is near its limit (and was terminated).
+    pub fn invocations(&self) -> u32 {
+        self.invocation_count.load(Ordering::SeqCst)
+    }
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
diff --git a/src/worker.rs b/src/worker.rs
index d6c3a04..bb8119b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -716,9 +716,11 @@ impl Worker {
     /// - V8 isolate is terminating (e.g., from terminate_execution())
     /// - Wall-clock timeout was triggered
     /// - CPU time limit was exceeded (Linux only)
+    /// - Heap limit was reached
     #[inline]
     fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
         self.runtime.isolate.is_execution_terminating()
+            || self.runtime.heap_limit_reached()
             || wall_guard.was_triggered()
             || cpu_guard
                 .as_ref()
-- 
2.43.0


From e7768fed484e7602e184c7b74427b0e833b4a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 29/47] fix: a script that never finishes loading was not
 stopped by any limit

---
 src/execution_context.rs | 54 +++++++++++++++++++++++++++++-----------
 src/worker.rs            | 31 ++++++++++++++++++++---
 2 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 44ea1f2..f578e73 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -280,18 +280,6 @@ impl ExecutionContext {
             v8::Global::new(scope.as_ref(), context)
         };
 
-        // Setup addEventListener (placeholder - actual setup done during context creation)
-        Self::setup_event_listener(isolate, &context)?;
-
-        // Setup environment variables and bindings (placeholder)
-        Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
-
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
-
-        // Setup ES Modules handler (placeholder)
-        Self::setup_es_modules_handler(isolate, &context)?;
-
         // Start event loop in background (with optional Operations handle)
         // Use tokio::spawn (not spawn_local) so the event loop survives LocalSet drops.
         // This is critical for warm context reuse: the LocalSet is dropped between
@@ -337,7 +325,7 @@ impl ExecutionContext {
             cancel,
         );
 
-        Ok(Self {
+        let ctx = Self {
             isolate: isolate_ptr,
             lmi_ptr,
             platform,
@@ -346,7 +334,45 @@ impl ExecutionContext {
             memory_limit: Rc::default(),
             request,
             async_waiter: None,
-        })
+        };
+        ctx.load(isolate, &script)?;
+
+        Ok(ctx)
+    }
+
+    /// Load the worker's script into the new context, within the limits of a request.
+    fn load(&self, isolate: &mut v8::Isolate, script: &Script) -> Result<(), TerminationReason> {
+        let isolate_handle = isolate.thread_safe_handle();
+        let wall_guard =
+            TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        let context = &self.request.context;
+
+        let result = {
+            let _running = Running::enter(self, &wall_guard, &cpu_guard);
+
+            Self::setup_event_listener(isolate, context)
+                .and_then(|_| Self::setup_env(isolate, context, &script.env, &script.bindings))
+                .and_then(|_| Self::evaluate_script(isolate, context, &script.code))
+                .and_then(|_| Self::setup_es_modules_handler(isolate, context))
+        };
+
+        if result.is_ok() && !self.is_terminated(&wall_guard, &cpu_guard) {
+            return Ok(());
+        }
+
+        // The limit that was reached, or else the script's own failure
+        match self.check_termination_reason(
+            Err(String::new()),
+            cpu_guard
+                .as_ref()
+                .map(|g| g.was_terminated())
+                .unwrap_or(false),
+            wall_guard.was_triggered(),
+        ) {
+            Ok(()) | Err(TerminationReason::Exception(_)) => result,
+            limit => limit,
+        }
     }
 
     /// Reconstruct an ExecutionContext from a cached RequestContext (warm hit path).
diff --git a/src/worker.rs b/src/worker.rs
index bb8119b..8ffbb41 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -534,6 +534,14 @@ impl Worker {
             worker_snapshot,
         );
 
+        // The script is loaded within the limits of a request
+        let isolate_handle = runtime.isolate.thread_safe_handle();
+        let wall_guard = TimeoutGuard::new(
+            isolate_handle.clone(),
+            runtime.limits.max_wall_clock_time_ms,
+        );
+        let cpu_guard = CpuEnforcer::new(isolate_handle, runtime.limits.max_cpu_time_ms);
+
         // Setup addEventListener
         setup_event_listener(&mut runtime.isolate, &runtime.context).map_err(|e| {
             TerminationReason::InitializationError(format!(
@@ -554,9 +562,26 @@ impl Worker {
         })?;
 
         // Evaluate user script
-        runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-        })?;
+        let evaluated = runtime
+            .evaluate(&script.code)
+            .map_err(|e| TerminationReason::Exception(format!("Script evaluation failed: {}", e)));
+        let cpu_limit_hit = cpu_guard.as_ref().is_some_and(|g| g.was_terminated());
+        drop(cpu_guard);
+
+        if cpu_limit_hit {
+            return Err(TerminationReason::CpuTimeLimit);
+        }
+
+        if wall_guard.was_triggered() {
+            return Err(TerminationReason::WallClockTimeout);
+        }
+
+        if runtime.heap_limit_reached() {
+            return Err(TerminationReason::MemoryLimit);
+        }
+
+        drop(wall_guard);
+        evaluated?;
 
         // Setup ES Modules handler if `export default { fetch }` is used
         // This takes priority over addEventListener('fetch', ...)
-- 
2.43.0


From 50230f45ff4040ddb2ec9b3a211376bd4aade10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 30/47] fix: bodies of a dropped worker's requests were never
 ended

The tasks that forward a response body to its client, or a request body to the
script, own a handle to the streams: when the worker went away in the middle of
a body (at a limit, or dropped) the client waited for the rest forever.
---
 src/runtime/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index f208601..8c68deb 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -879,6 +879,10 @@ impl Runtime {
 impl Drop for Runtime {
     fn drop(&mut self) {
         let _ = self.scheduler_tx.send(SchedulerMessage::Shutdown);
+
+        // The tasks that forward bodies own a handle to the streams: without this
+        // they would wait for the rest of a body, or for a reader, forever
+        self.stream_manager.clear();
     }
 }
 
-- 
2.43.0


From a192ea2efa72243649eb9a27f70552a0e0d6e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 31/47] fix: a worker id outside ASCII made requests panic when
 debug logging was on

---
 src/pool.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 4e772c2..b8fa611 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -636,6 +636,12 @@ impl Drop for ActiveContext {
     }
 }
 
+/// The first characters of an id, for log lines.
+fn short_id(id: &str) -> &str {
+    let end = id.char_indices().nth(8).map_or(id.len(), |(i, _)| i);
+    &id[..end]
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -747,7 +753,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
         tracing::debug!(
             "context WARM: worker={}, version={}, reuse_count={}",
-            &worker_id[..8.min(worker_id.len())],
+            short_id(&worker_id),
             version,
             reuse_cnt,
         );
@@ -776,14 +782,14 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason={:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         result.as_ref().err(),
                     );
                     false
                 } else if let Err(reason) = ec.get().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         reason,
                     );
                     false
@@ -830,7 +836,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             Err(e) => {
                 tracing::debug!(
                     "context DISCARDED: worker={}, reason=reset_failed: {}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     e,
                 );
                 drop(ec);
@@ -842,7 +848,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // ── Cold path ──────────────────────────────────────────────────────
     tracing::debug!(
         "context COLD: worker={}, creating new context",
-        &worker_id[..8.min(worker_id.len())],
+        short_id(&worker_id),
     );
 
     // Acquire Locker to enter the unentered isolate, create context
@@ -876,7 +882,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     Err(reason) => {
                         tracing::debug!(
                             "context NOT CACHED: worker={}, reason=drain_waituntil: {:?}",
-                            &worker_id[..8.min(worker_id.len())],
+                            short_id(&worker_id),
                             reason,
                         );
                         (Ok(()), None)
@@ -885,7 +891,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             } else {
                 tracing::debug!(
                     "context NOT CACHED: worker={}, reason={:?}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     result.as_ref().err(),
                 );
                 (result, None)
-- 
2.43.0


From 6ce9c5374be21cf16b03db5c50aecc109bf4c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 32/47] fix: a body that is a DataView or another typed array
 arrived as its description

---
 src/runtime/bindings/web_api.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 8cb4172..71a9ab5 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -850,8 +850,10 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
+                    const bytes = ArrayBuffer.isView(body)
+                        ? new Uint8Array(body.buffer, body.byteOffset, body.byteLength)
+                        : new Uint8Array(body);
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1100,8 +1102,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     if (body._nativeStreamId !== undefined) {
                         this._nativeStreamId = body._nativeStreamId;
                     }
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
+                    const bytes = ArrayBuffer.isView(body)
+                        ? new Uint8Array(body.buffer, body.byteOffset, body.byteLength)
+                        : new Uint8Array(body);
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
-- 
2.43.0


From 4e7635c326cf85d4b316889fb6d9b3c94d1c3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 33/47] fix: pieces of a streamed body that were a DataView or
 an ArrayBuffer got lost

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 8ffbb41..28be792 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1430,6 +1430,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1461,9 +1465,9 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        const chunk = toUint8Array(value ?? '');
 
+                        if (chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From e4e7433744ef76a68ae48b0094e08ad73aa32fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 34/47] fix: a response that was cloned was sent without its
 body

---
 src/runtime/bindings/web_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 71a9ab5..ff971b4 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1333,6 +1333,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 if (this.body) {
                     const [stream1, stream2] = this.body.tee();
                     this.body = stream1;
+                    // What is left is a branch of the stream: no longer at hand
+                    this._isBuffered = false;
                     clonedBody = stream2;
                 }
 
-- 
2.43.0


From 97242be75372586c21144819455c991bdade718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 35/47] fix: reading a response without a body failed

---
 src/runtime/bindings/web_api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ff971b4..891ba4c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1135,6 +1135,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return '';
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
@@ -1166,6 +1170,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return new ArrayBuffer(0);
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
-- 
2.43.0


From d8f0783e0ed2b65bde86e3215dd99ee7979e8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 36/47] fix: a copy of a response broke off when the client of
 the response left

---
 src/runtime/streams.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 42ac2e0..ac124bb 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -122,12 +122,13 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                         return;
                     }
 
+                    // A branch whose client has gone does not take it: the other one does
                     if (!canceled1) {
-                        controller1.enqueue(value);
+                        try { controller1.enqueue(value); } catch (e) {}
                     }
 
                     if (!canceled2) {
-                        controller2.enqueue(cloneValue(value));
+                        try { controller2.enqueue(cloneValue(value)); } catch (e) {}
                     }
                 }).catch(e => {
                     readPromise = null;
-- 
2.43.0


From 39de5fe31db98339e7315f9663fe83cb854d6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 37/47] fix: two reads at once of a streamed body lost its end
 or failed

---
 src/runtime/streams.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index ac124bb..3ec7315 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -190,6 +190,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._stream = stream;
                 this._queue = [];
                 this._closeRequested = false;
+                this._pulling = false;
+                this._pullAgain = false;
                 // AbortController for signaling cancellation to user code
                 this._abortController = new AbortController();
             }
@@ -220,6 +222,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 this._queue.push({ type: 'chunk', value: chunk });
                 this._processQueue();
+                this._callPullIfAwaited();
             }
 
             close() {
@@ -254,6 +257,38 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._queue = [];
             }
 
+            _callPullIfAwaited() {
+                const reader = this._stream._reader;
+
+                if (reader && reader._readRequests.length > 0 && this._stream._underlyingSource.pull) {
+                    this._callPull();
+                }
+            }
+
+            // A pull at a time: a read that comes during one is served after it
+            _callPull() {
+                if (this._pulling) {
+                    this._pullAgain = true;
+                    return;
+                }
+
+                this._pulling = true;
+
+                const pulled = () => {
+                    this._pulling = false;
+
+                    if (this._pullAgain) {
+                        this._pullAgain = false;
+                        this._callPullIfAwaited();
+                    }
+                };
+
+                (async () => this._stream._underlyingSource.pull(this))().then(pulled, e => {
+                    this.error(e);
+                    pulled();
+                });
+            }
+
             _processQueue() {
                 if (this._stream._reader) {
                     this._stream._reader._processQueue();
@@ -330,12 +365,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                         // Call pull to request more data
                         // pull() should enqueue data or close/error the stream
-                        const pullPromise = underlyingSource.pull(controller);
-                        if (pullPromise && typeof pullPromise.then === 'function') {
-                            pullPromise.catch(e => {
-                                controller.error(e);
-                            });
-                        }
+                        controller._callPull();
                     });
                 }
 
-- 
2.43.0


From a085e3d96576cd5de74d953e458d202359f3a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 38/47] fix: a WebSocket that broke off was reported as closed
 cleanly

---
 src/runtime/bindings/websocket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..1ea0775 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -303,7 +303,7 @@ pub fn setup_websocket(
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: true });
+                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: arg1 !== 1006 });
                     } else if (eventType === 'error') {
                         self._dispatch('error', { type: 'error', message: arg1 });
                     }
-- 
2.43.0


From f5438094db740e530ba935a94178d07f454cec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 39/47] fix: a script was not told that its WebSocket had ended

---
 src/runtime/scheduler.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index ee380d1..39eedc9 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -663,14 +663,14 @@ async fn run_websocket(
     let mut accepted = false;
 
     // Phase 2: Command loop — handle sends, receives, and accept
-    loop {
+    let closed = loop {
         tokio::select! {
             biased;
 
-            _ = cancel.cancelled() => break,
+            _ = cancel.cancelled() => return,
 
             cmd = cmd_rx.recv() => {
-                let Some(cmd) = cmd else { break };
+                let Some(cmd) = cmd else { return };
 
                 match cmd {
                     WebSocketCommand::Accept => {
@@ -680,14 +680,18 @@ async fn run_websocket(
                         let _ = send_tx.send(msg);
                     }
                     WebSocketCommand::Close(code, reason) => {
-                        let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
-                        break;
+                        let _ = send_tx.send(WebSocketOutgoing::Close {
+                            code,
+                            reason: reason.clone(),
+                        });
+                        break WebSocketIncoming::Closed { code, reason };
                     }
                 }
             }
 
             msg = recv_rx.recv(), if accepted => {
                 match msg {
+                    Some(closed @ WebSocketIncoming::Closed { .. }) => break closed,
                     Some(incoming) => {
                         let _ = callback_tx.send(
                             CallbackMessage::WebSocketEvent(ws_id, incoming),
@@ -695,11 +699,19 @@ async fn run_websocket(
                     }
                     None => {
                         // Runner dropped the sender — connection is done
-                        break;
+                        break WebSocketIncoming::Closed {
+                            code: 1006,
+                            reason: String::new(),
+                        };
                     }
                 }
             }
         }
+    };
+
+    // However it ended, the script is told
+    if accepted {
+        let _ = callback_tx.send(CallbackMessage::WebSocketEvent(ws_id, closed));
     }
 }
 
-- 
2.43.0


From c7c1df4df00a1f1c6bc79ae6a0b8e9929b32a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 40/47] fix: what a task returned replaced what it had
 responded with

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 28be792..b28f602 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1663,12 +1663,14 @@ pub(crate) fn setup_event_listener(
 
                     // Default result (success with no data)
                     globalThis.__taskResult = { success: true };
+                    let responded = false;
 
                     event.waitUntil = function(promise) {
                         waitUntilPromises.push(Promise.resolve(promise));
                     };
 
                     event.respondWith = function(result) {
+                        responded = true;
                         if (result && typeof result === 'object') {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1692,7 +1694,7 @@ pub(crate) fn setup_event_listener(
                         const result = await handler(event);
 
                         // If handler returns a value and respondWith wasn't called, use it
-                        if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                        if (result !== undefined && !responded) {
                             if (result && typeof result === 'object' && 'success' in result) {
                                 globalThis.__taskResult = {
                                     success: result.success !== false,
@@ -1831,12 +1833,14 @@ pub(crate) fn setup_es_modules_handler(
             globalThis.__taskHandler = async function(event) {
                 const waitUntilPromises = [];
                 globalThis.__taskResult = { success: true };
+                let responded = false;
 
                 event.waitUntil = function(promise) {
                     waitUntilPromises.push(Promise.resolve(promise));
                 };
 
                 event.respondWith = function(result) {
+                    responded = true;
                     if (result && typeof result === 'object') {
                         globalThis.__taskResult = {
                             success: result.success !== false,
@@ -1863,7 +1867,7 @@ pub(crate) fn setup_es_modules_handler(
                     const result = await moduleTask(event, globalThis.env, ctx);
 
                     // If handler returns a value and respondWith wasn't called, use it
-                    if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                    if (result !== undefined && !responded) {
                         if (result && typeof result === 'object' && 'success' in result) {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
-- 
2.43.0


From 955bc56c30979b8976fa64b5ac3ca09bc5d817b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 41/47] fix: pieces of a stream other than bytes were garbled
 when a script read or sent them

---
 src/runtime/bindings/web_api.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 891ba4c..877eebc 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -804,6 +804,23 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
 
 pub fn setup_request(scope: &mut v8::PinScope) {
     let code = r#"
+        // The bytes of a piece of a body, in whichever form its stream gave it
+        globalThis.__bodyBytes = function(piece) {
+            if (piece instanceof Uint8Array) {
+                return piece;
+            }
+
+            if (ArrayBuffer.isView(piece)) {
+                return new Uint8Array(piece.buffer, piece.byteOffset, piece.byteLength);
+            }
+
+            if (piece instanceof ArrayBuffer) {
+                return new Uint8Array(piece);
+            }
+
+            return new TextEncoder().encode(String(piece ?? ''));
+        };
+
         globalThis.Request = class Request {
             constructor(input, init) {
                 init = init || {};
@@ -892,7 +909,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__bodyBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1021,7 +1038,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__bodyBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1146,7 +1163,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__bodyBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1181,7 +1198,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__bodyBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1428,7 +1445,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             while (true) {
                 const { done, value } = await reader.read();
                 if (done) break;
-                chunks.push(value);
+                chunks.push(__bodyBytes(value));
             }
 
             // Concatenate all chunks
-- 
2.43.0


From 0c5698282226e044555afd0506691883f399dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 42/47] fix: a Blob or FormData given as a body was sent as its
 description

---
 src/runtime/bindings/fetch.rs   | 11 ++-------
 src/runtime/bindings/web_api.rs | 41 +++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 9fac4a4..30c6e6f 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -501,7 +501,7 @@ pub fn setup_fetch(
     // JavaScript fetch implementation using Promises with streaming support
     let code = r#"
         // Serialize FormData to multipart/form-data
-        async function __serializeFormData(formData) {
+        function __serializeFormData(formData) {
             const boundary = '----OpenWorkersBoundary' + Math.random().toString(36).slice(2);
             const CRLF = '\r\n';
             const parts = [];
@@ -555,13 +555,6 @@ pub fn setup_fetch(
                 body = await __bufferBody(body);
             }
 
-            // Handle FormData body - serialize to multipart/form-data
-            if (body instanceof FormData) {
-                const serialized = await __serializeFormData(body);
-                body = serialized.body;
-                contentType = 'multipart/form-data; boundary=' + serialized.boundary;
-            }
-
             // Handle URLSearchParams body - serialize to form-encoded string
             if (body instanceof URLSearchParams) {
                 body = new TextEncoder().encode(body.toString());
@@ -573,7 +566,7 @@ pub fn setup_fetch(
                 body = new TextEncoder().encode(String(body));
             }
 
-            // Set Content-Type if not already set (FormData or URLSearchParams)
+            // Set Content-Type if not already set (URLSearchParams)
             if (contentType && !headers['Content-Type'] && !headers['content-type']) {
                 headers['Content-Type'] = contentType;
             }
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 877eebc..b64b08d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -198,6 +198,23 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 return this.entries();
             }
         };
+
+        // What a Blob or FormData stands for as a body, and its content type
+        globalThis.__plainBody = function(body) {
+            if (body instanceof Blob) {
+                return { body: body._getBytes(), type: body.type };
+            }
+
+            if (body instanceof FormData) {
+                const serialized = __serializeFormData(body);
+                return {
+                    body: serialized.body,
+                    type: 'multipart/form-data; boundary=' + serialized.boundary
+                };
+            }
+
+            return { body, type: '' };
+        };
     "#;
 
     let code_str = v8::String::new(scope, code).unwrap();
@@ -864,7 +881,13 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                 this.integrity = init.integrity || '';
             }
 
-            _initBody(body) {
+            _initBody(given) {
+                const { body, type } = __plainBody(given);
+
+                if (type && !this.headers.has('content-type')) {
+                    this.headers.set('content-type', type);
+                }
+
                 if (body instanceof ReadableStream) {
                     this.body = body;
                 } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
@@ -1110,6 +1133,14 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     this.headers = new Headers(init.headers);
                 }
 
+                const plain = __plainBody(body);
+                body = plain.body;
+
+                if (plain.type && !this.headers.has('content-type')) {
+                    this.headers = new Headers(this.headers);
+                    this.headers.set('content-type', plain.type);
+                }
+
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
                 // (created from string/Uint8Array/ArrayBuffer, not a user-provided stream)
@@ -1510,7 +1541,13 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 headers = obj;
             }
 
-            return { url, method, headers, body };
+            const plain = __plainBody(body);
+
+            if (plain.type && !Object.keys(headers).some(k => k.toLowerCase() === 'content-type')) {
+                headers = { ...headers, 'Content-Type': plain.type };
+            }
+
+            return { url, method, headers, body: plain.body };
         };
     "#;
 
-- 
2.43.0


From a02d9e7aee15e194d00b27d242c17a4cbfc8f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 43/47] fix: contexts of a worker of its own kept
 SharedArrayBuffer and Atomics

---
 src/runtime/mod.rs | 4 ++++
 src/worker.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 8c68deb..8009564 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -323,6 +323,10 @@ impl Runtime {
                     bindings::setup_response(scope);
                 }
 
+                // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+                // Must be done at context creation, not in snapshot (breaks V8 bootstrapping)
+                bindings::setup_security_restrictions(scope);
+
                 v8::Global::new(scope.as_ref(), context)
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index b28f602..e293d2a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -217,6 +217,10 @@ impl WorkerBuilder {
                 bindings::setup_response(scope);
             }
 
+            // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+            // Must be done at context creation, not in snapshot (breaks V8 bootstrapping)
+            bindings::setup_security_restrictions(scope);
+
             v8::Global::new(scope.as_ref(), context)
         };
 
-- 
2.43.0


From eb93ee082b4b9718de76428799b345a09a74d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 44/47] fix: a value that cannot be read, passed to a host
 call, ended the process

---
 src/runtime/bindings/args.rs      | 91 +++++++++++++++++++++++++++++++
 src/runtime/bindings/fetch.rs     | 23 ++++----
 src/runtime/bindings/mod.rs       |  1 +
 src/runtime/bindings/websocket.rs |  4 +-
 4 files changed, 106 insertions(+), 13 deletions(-)
 create mode 100644 src/runtime/bindings/args.rs

diff --git a/src/runtime/bindings/args.rs b/src/runtime/bindings/args.rs
new file mode 100644
index 0000000..dce75a3
--- /dev/null
+++ b/src/runtime/bindings/args.rs
@@ -0,0 +1,91 @@
+//! Reading the values that scripts pass to native functions.
+
+use serde::Deserialize;
+use v8;
+
+/// How deep a value may nest, and how many values it may consist of
+const MAX_DEPTH: usize = 128;
+const MAX_VALUES: usize = 1 << 20;
+
+/// Deserialize a value passed by a script.
+///
+/// serde_v8 panics when a getter or a proxy trap throws and on symbols, and does not
+/// end on cyclic values. None of this may take the process down, so it reads a copy
+/// in which only plain values are left.
+pub fn read_arg<'de, T: Deserialize<'de>>(
+    scope: &mut v8::PinScope,
+    value: v8::Local<v8::Value>,
+) -> Result<T, String> {
+    use std::pin::pin;
+
+    let scope = pin!(v8::TryCatch::new(scope));
+    let scope = &mut scope.init();
+    let value = v8::Local::new(scope, value);
+    let mut values = 0;
+
+    let plain = copy_plain(scope, value, 0, &mut values)
+        .ok_or_else(|| "value cannot be read".to_string())?;
+
+    // No argument is a list or a buffer by itself. Read as a struct, it would be asked for
+    // what it inherits.
+    if plain.is_array() || plain.is_array_buffer() || plain.is_array_buffer_view() {
+        return Err("unexpected list or buffer".to_string());
+    }
+
+    serde_v8::from_v8_any(scope, plain).map_err(|e| e.to_string())
+}
+
+/// None if reading the value throws, or there is too much of it
+fn copy_plain<'s>(
+    scope: &mut v8::PinScope<'s, '_>,
+    value: v8::Local<'s, v8::Value>,
+    depth: usize,
+    values: &mut usize,
+) -> Option<v8::Local<'s, v8::Value>> {
+    *values += 1;
+
+    if value.is_symbol() || depth > MAX_DEPTH || *values > MAX_VALUES {
+        return None;
+    }
+
+    if !value.is_object() || value.is_array_buffer() || value.is_array_buffer_view() {
+        return Some(value);
+    }
+
+    if value.is_string_object() {
+        return value.to_string(scope).map(Into::into);
+    }
+
+    if let Ok(array) = v8::Local::<v8::Array>::try_from(value) {
+        let mut items = Vec::new();
+
+        for index in 0..array.length() {
+            let item = array.get_index(scope, index)?;
+            items.push(copy_plain(scope, item, depth + 1, values)?);
+        }
+
+        return Some(v8::Array::new_with_elements(scope, &items).into());
+    }
+
+    let object = v8::Local::<v8::Object>::try_from(value).ok()?;
+    let names = object.get_own_property_names(
+        scope,
+        v8::GetPropertyNamesArgsBuilder::new()
+            .key_conversion(v8::KeyConversionMode::ConvertToString)
+            .build(),
+    )?;
+    let mut keys: Vec<v8::Local<v8::Name>> = Vec::new();
+    let mut items = Vec::new();
+
+    for index in 0..names.length() {
+        let key = names.get_index(scope, index)?;
+        let item = object.get(scope, key)?;
+        items.push(copy_plain(scope, item, depth + 1, values)?);
+        keys.push(key.try_into().ok()?);
+    }
+
+    // Without a prototype: what a script has put on Object.prototype is not read
+    let no_prototype = v8::null(scope).into();
+    let copy = v8::Object::with_prototype_and_properties(scope, no_prototype, &keys, &items);
+    Some(copy.into())
+}
diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 30c6e6f..b73bb4a 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -1,4 +1,5 @@
 use super::super::{CallbackId, SchedulerMessage};
+use super::args::read_arg;
 use super::state::FetchState;
 use openworkers_core::{
     DatabaseOp, HttpMethod, HttpRequest, KvOp, RequestBody, SqlParam, StorageOp,
@@ -68,7 +69,7 @@ fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
 ) -> Option<HttpRequest> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options).ok()?;
+    let opts: FetchOptions = read_arg(scope, options).ok()?;
     let method = opts.method.parse().unwrap_or(HttpMethod::Get);
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
@@ -154,7 +155,7 @@ where
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = read_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
@@ -263,15 +264,15 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = read_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Ok(operation) = read_arg::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
+            let Ok(params) = read_arg::<StorageParams>(scope, args.get(2)) else {
                 reject_call(scope, args.get(4), "Unsupported storage parameters");
                 return;
             };
@@ -331,15 +332,15 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = read_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Ok(operation) = read_arg::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
+            let Ok(params) = read_arg::<KvParams>(scope, args.get(2)) else {
                 reject_call(scope, args.get(4), "Unsupported KV parameters");
                 return;
             };
@@ -423,7 +424,7 @@ pub fn setup_fetch(
 
             let error_fn: v8::Local<v8::Function> = error_cb.try_into().unwrap();
 
-            let binding_name = match serde_v8::from_v8_any::<String>(scope, args.get(0)) {
+            let binding_name = match read_arg::<String>(scope, args.get(0)) {
                 Ok(name) => name,
                 Err(e) => {
                     let msg = format!("Failed to parse binding_name: {}", e);
@@ -433,7 +434,7 @@ pub fn setup_fetch(
                 }
             };
 
-            let operation = match serde_v8::from_v8_any::<String>(scope, args.get(1)) {
+            let operation = match read_arg::<String>(scope, args.get(1)) {
                 Ok(op) => op,
                 Err(e) => {
                     let msg = format!("Failed to parse operation: {}", e);
@@ -443,7 +444,7 @@ pub fn setup_fetch(
                 }
             };
 
-            let params = match serde_v8::from_v8_any::<DatabaseParams>(scope, args.get(2)) {
+            let params = match read_arg::<DatabaseParams>(scope, args.get(2)) {
                 Ok(p) => p,
                 Err(e) => {
                     let msg = format!("Failed to parse params: {}", e);
diff --git a/src/runtime/bindings/mod.rs b/src/runtime/bindings/mod.rs
index 5ddb461..085c8d9 100644
--- a/src/runtime/bindings/mod.rs
+++ b/src/runtime/bindings/mod.rs
@@ -1,6 +1,7 @@
 #[macro_use]
 mod macros;
 
+mod args;
 mod console;
 mod fetch;
 mod state;
diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 1ea0775..85d21f1 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -9,6 +9,7 @@
 //! Connect resolve/reject callbacks reuse FetchState (same CallbackId pattern).
 //! Event dispatchers (message/close/error) use WebSocketEventState (keyed by WebSocketId).
 
+use super::args::read_arg;
 use super::state::{FetchState, WebSocketEventState};
 use openworkers_core::WebSocketOutgoing;
 use std::cell::RefCell;
@@ -45,8 +46,7 @@ pub fn setup_websocket(
 
             // Parse headers object
             let headers = if args.get(1).is_object() {
-                serde_v8::from_v8_any::<HashMap<String, String>>(scope, args.get(1))
-                    .unwrap_or_default()
+                read_arg::<HashMap<String, String>>(scope, args.get(1)).unwrap_or_default()
             } else {
                 HashMap::new()
             };
-- 
2.43.0


From 182ef258b59d2b0fa6486ef79a12b5fec29e7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 45/47] fix: getRandomValues of an empty array ended the
 process

---
 src/runtime/crypto/random.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..7cc35aa 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -26,12 +26,15 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                         let backing_store = buffer.get_backing_store();
                         let offset = uint8_array.byte_offset();
 
-                        unsafe {
-                            std::ptr::copy_nonoverlapping(
-                                bytes.as_ptr(),
-                                (backing_store.data().unwrap().as_ptr() as *mut u8).add(offset),
-                                len,
-                            );
+                        // An empty buffer has no data to point to
+                        if let Some(data) = backing_store.data() {
+                            unsafe {
+                                std::ptr::copy_nonoverlapping(
+                                    bytes.as_ptr(),
+                                    (data.as_ptr() as *mut u8).add(offset),
+                                    len,
+                                );
+                            }
                         }
                     }
                 }
-- 
2.43.0


From e255cfd9198c8db50d19c686e95fcb38952d1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:34 +0000
Subject: [PATCH 46/47] fix: a String object passed to an internal function
 ended the process

---
 src/runtime/bindings/console.rs | 9 +++++++--
 src/runtime/bindings/streams.rs | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/console.rs b/src/runtime/bindings/console.rs
index 5ce6798..8cc38a0 100644
--- a/src/runtime/bindings/console.rs
+++ b/src/runtime/bindings/console.rs
@@ -25,7 +25,12 @@ pub fn log_callback_from_ops(ops: &OperationsHandle) -> LogCallback {
 /// worker terminates. By calling the callback directly, logs are guaranteed
 /// to be sent before the worker completes.
 #[glue_v8::method(state = Rc<ConsoleState>)]
-fn console_log(_scope: &mut v8::PinScope, state: &Rc<ConsoleState>, level: i32, message: String) {
+fn console_log(
+    scope: &mut v8::PinScope,
+    state: &Rc<ConsoleState>,
+    level: i32,
+    message: v8::Local<v8::String>,
+) {
     let log_level = match level {
         0 => LogLevel::Error,
         1 => LogLevel::Warn,
@@ -36,7 +41,7 @@ fn console_log(_scope: &mut v8::PinScope, state: &Rc<ConsoleState>, level: i32,
     };
 
     // Call log callback directly - bypasses scheduler for guaranteed delivery
-    (state.log_callback)(log_level, message);
+    (state.log_callback)(log_level, message.to_rust_string_lossy(scope));
 }
 
 pub fn setup_console(scope: &mut v8::PinScope, log_callback: LogCallback) {
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 819d28b..74b0b09 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -176,9 +176,9 @@ fn response_stream_error(
     scope: &mut v8::PinScope,
     state: &Rc<ResponseStreamState>,
     stream_id: u64,
-    message: String,
+    message: v8::Local<v8::String>,
 ) -> bool {
-    let _ = scope;
+    let message = message.to_rust_string_lossy(scope);
     state
         .manager
         .try_write_chunk(stream_id, stream_manager::StreamChunk::Error(message))
-- 
2.43.0


From e0b732175890ac4e0a5a1f7000582de3dbe0b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:43 +0000
Subject: [PATCH 47/47] fix: deriveBits of an enormous key ended the process,
 or ran on past every limit

---
 src/runtime/crypto/pbkdf2.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..88db43d 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -1,6 +1,9 @@
 use ring::pbkdf2;
 use v8;
 
+/// How many rounds (iterations, for each block of the result) one derivation may take
+const MAX_ROUNDS: u64 = 10_000_000;
+
 pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native PBKDF2: __nativePbkdf2DeriveBits(hashAlgo, password, salt, iterations, lengthBits) -> ArrayBuffer
     let derive_fn = v8::Function::new(
@@ -57,11 +60,11 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
             let length_bytes = length_bits / 8;
 
-            let algorithm = match hash_algo.to_uppercase().as_str() {
-                "SHA-1" => pbkdf2::PBKDF2_HMAC_SHA1,
-                "SHA-256" => pbkdf2::PBKDF2_HMAC_SHA256,
-                "SHA-384" => pbkdf2::PBKDF2_HMAC_SHA384,
-                "SHA-512" => pbkdf2::PBKDF2_HMAC_SHA512,
+            let (algorithm, hash_bytes) = match hash_algo.to_uppercase().as_str() {
+                "SHA-1" => (pbkdf2::PBKDF2_HMAC_SHA1, 20),
+                "SHA-256" => (pbkdf2::PBKDF2_HMAC_SHA256, 32),
+                "SHA-384" => (pbkdf2::PBKDF2_HMAC_SHA384, 48),
+                "SHA-512" => (pbkdf2::PBKDF2_HMAC_SHA512, 64),
                 _ => {
                     retval.set(v8::undefined(scope).into());
                     return;
@@ -71,6 +74,14 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
             let iterations = std::num::NonZeroU32::new(iterations)
                 .unwrap_or(std::num::NonZeroU32::new(1).unwrap());
 
+            // No limit of the request can stop the derivation once it runs
+            let blocks = length_bytes.div_ceil(hash_bytes) as u64;
+
+            if blocks.saturating_mul(iterations.get() as u64) > MAX_ROUNDS {
+                retval.set(v8::undefined(scope).into());
+                return;
+            }
+
             let mut out = vec![0u8; length_bytes];
             pbkdf2::derive(algorithm, iterations, &salt, &password, &mut out);
 
-- 
2.43.0

