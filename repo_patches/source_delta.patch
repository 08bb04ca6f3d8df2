From f05705658ce66ec7da99a7d06469dae7869ddce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:15 +0000
Subject: [PATCH 01/22] verif hooks: schedule points behind cfg(futures_verif)

---
 futures-channel/src/lib.rs                    |   1 +
 futures-channel/src/lock.rs                   |   6 +-
 futures-channel/src/mpsc/mod.rs               |  14 +-
 futures-channel/src/mpsc/queue.rs             |  14 +-
 futures-channel/src/oneshot.rs                |  10 +-
 futures-core/src/__verif.rs                   | 519 ++++++++++++++++++
 futures-core/src/lib.rs                       |   5 +
 .../src/task/__internal/atomic_waker.rs       |   5 +-
 futures-executor/src/lib.rs                   |   1 +
 futures-executor/src/local_pool.rs            |   8 +-
 futures-executor/src/thread_pool.rs           |  17 +-
 futures-executor/src/unpark_mutex.rs          |  10 +-
 futures-util/src/abortable.rs                 |  10 +-
 .../src/future/future/remote_handle.rs        |  12 +-
 futures-util/src/future/future/shared.rs      |  24 +-
 futures-util/src/lib.rs                       |   1 +
 futures-util/src/lock/bilock.rs               |   5 +-
 futures-util/src/lock/mutex.rs                |   8 +-
 .../src/stream/futures_unordered/mod.rs       |   4 +-
 .../src/stream/stream/flatten_unordered.rs    |  12 +-
 20 files changed, 625 insertions(+), 61 deletions(-)
 create mode 100644 futures-core/src/__verif.rs

diff --git a/futures-channel/src/lib.rs b/futures-channel/src/lib.rs
index c0def17..c41ca5a 100644
--- a/futures-channel/src/lib.rs
+++ b/futures-channel/src/lib.rs
@@ -11,6 +11,7 @@
 //! All items are only available when the `std` or `alloc` feature of this
 //! library is activated, and it is activated by default.
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-channel/src/lock.rs b/futures-channel/src/lock.rs
index 081d149..a9773aa 100644
--- a/futures-channel/src/lock.rs
+++ b/futures-channel/src/lock.rs
@@ -4,12 +4,16 @@
 //! thing that ever blocks, so this is assisted with a fast user-space
 //! implementation of a lock that can only have a `try_lock` operation.
 
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
 use core::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
+
 /// A "mutex" around a value, similar to `std::sync::Mutex<T>`.
 ///
 /// This lock only supports the `try_lock` operation, however, and does not
diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..8e20ac4 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -79,14 +79,16 @@
 // by the queue structure.
 
 use alloc::sync::Arc;
-use core::{
-    fmt,
-    future::Future,
-    pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
-};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+use core::{fmt, future::Future, pin::Pin};
+#[cfg(not(futures_verif))]
 use std::{sync::Mutex, thread};
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::{sync::Mutex, thread};
 use futures_core::{
     FusedFuture,
     stream::{FusedStream, Stream},
diff --git a/futures-channel/src/mpsc/queue.rs b/futures-channel/src/mpsc/queue.rs
index c217513..cc1fdbc 100644
--- a/futures-channel/src/mpsc/queue.rs
+++ b/futures-channel/src/mpsc/queue.rs
@@ -42,13 +42,17 @@
 //       slightly modified
 
 use alloc::boxed::Box;
-use core::{
-    cell::UnsafeCell,
-    ptr,
-    sync::atomic::{AtomicPtr, Ordering},
-};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering};
+use core::{cell::UnsafeCell, ptr};
+#[cfg(not(futures_verif))]
 use std::thread;
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicPtr, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::thread;
+
 pub(super) use self::PopResult::*;
 
 /// A result of the `pop` function.
diff --git a/futures-channel/src/oneshot.rs b/futures-channel/src/oneshot.rs
index f2eb059..07eafe3 100644
--- a/futures-channel/src/oneshot.rs
+++ b/futures-channel/src/oneshot.rs
@@ -3,12 +3,12 @@
 //! This is a single-producer, single-consumer channel.
 
 use alloc::sync::Arc;
-use core::{
-    fmt,
-    pin::Pin,
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
-};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
+use core::{fmt, pin::Pin};
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
 use futures_core::{
     future::{FusedFuture, Future},
     task::{Context, Poll, Waker},
diff --git a/futures-core/src/__verif.rs b/futures-core/src/__verif.rs
new file mode 100644
index 0000000..8563746
--- /dev/null
+++ b/futures-core/src/__verif.rs
@@ -0,0 +1,519 @@
+//! Schedule hooks for the verification harness.
+//!
+//! Compiled only with `--cfg futures_verif`. Without that flag nothing in the
+//! workspace refers to this module. The types below have the API of the
+//! `core`/`std` types they stand in for; on a thread which a harness scheduler
+//! controls, each operation first passes through that scheduler, and on any
+//! other thread they behave exactly as the originals.
+
+#![allow(missing_docs, missing_debug_implementations, unreachable_pub)]
+
+use std::{boxed::Box, sync::OnceLock};
+
+/// What a harness has to provide in order to own the schedule.
+pub trait Scheduler: Sync {
+    /// Whether the calling thread is controlled by the scheduler.
+    fn active(&self) -> bool;
+    /// A preemption point, passed before a shared-memory operation.
+    fn point(&self);
+    /// The calling thread lets others run (it is spinning).
+    fn yield_now(&self);
+    /// The calling thread cannot continue before `unblock(key)`.
+    fn block(&self, key: usize);
+    /// Whatever `key` stands for may have become available.
+    fn unblock(&self, key: usize);
+    /// `std::thread::park`.
+    fn park(&self);
+    /// `std::thread::Thread::unpark`; false if `thread` is not controlled.
+    fn unpark(&self, thread: &std::thread::Thread) -> bool;
+    /// Starts another controlled thread.
+    fn spawn(&self, name: Option<std::string::String>, f: Box<dyn FnOnce() + Send>);
+}
+
+static SCHEDULER: OnceLock<&'static dyn Scheduler> = OnceLock::new();
+
+/// Installs the scheduler of this process.
+pub fn install(s: &'static dyn Scheduler) {
+    let _ = SCHEDULER.set(s);
+}
+
+fn active() -> Option<&'static dyn Scheduler> {
+    match SCHEDULER.get() {
+        Some(s) if s.active() => Some(*s),
+        _ => None,
+    }
+}
+
+fn point() {
+    if let Some(s) = active() {
+        s.point()
+    }
+}
+
+pub mod atomic {
+    use core::sync::atomic as real;
+    pub use core::sync::atomic::Ordering;
+
+    use super::point;
+
+    pub fn fence(order: Ordering) {
+        point();
+        real::fence(order)
+    }
+
+    macro_rules! common {
+        ($ty:ident $(<$t:ident>)?, $val:ty) => {
+            impl $(<$t>)? $ty $(<$t>)? {
+                pub const fn new(v: $val) -> Self {
+                    Self(real::$ty::new(v))
+                }
+                pub fn get_mut(&mut self) -> &mut $val {
+                    self.0.get_mut()
+                }
+                pub fn into_inner(self) -> $val {
+                    self.0.into_inner()
+                }
+                #[track_caller]
+                pub fn load(&self, o: Ordering) -> $val {
+                    point();
+                    self.0.load(o)
+                }
+                #[track_caller]
+                pub fn store(&self, v: $val, o: Ordering) {
+                    point();
+                    self.0.store(v, o)
+                }
+                #[track_caller]
+                pub fn swap(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.swap(v, o)
+                }
+                #[track_caller]
+                pub fn compare_exchange(
+                    &self,
+                    cur: $val,
+                    new: $val,
+                    s: Ordering,
+                    f: Ordering,
+                ) -> Result<$val, $val> {
+                    point();
+                    self.0.compare_exchange(cur, new, s, f)
+                }
+                #[track_caller]
+                pub fn compare_exchange_weak(
+                    &self,
+                    cur: $val,
+                    new: $val,
+                    s: Ordering,
+                    f: Ordering,
+                ) -> Result<$val, $val> {
+                    point();
+                    self.0.compare_exchange_weak(cur, new, s, f)
+                }
+                pub fn fetch_update<F: FnMut($val) -> Option<$val>>(
+                    &self,
+                    s: Ordering,
+                    f: Ordering,
+                    mut g: F,
+                ) -> Result<$val, $val> {
+                    let mut prev = self.load(f);
+                    while let Some(next) = g(prev) {
+                        match self.compare_exchange(prev, next, s, f) {
+                            x @ Ok(_) => return x,
+                            Err(p) => prev = p,
+                        }
+                    }
+                    Err(prev)
+                }
+            }
+            impl $(<$t>)? core::fmt::Debug for $ty $(<$t>)? {
+                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+        };
+    }
+
+    macro_rules! int {
+        ($ty:ident, $val:ty) => {
+            #[derive(Default)]
+            pub struct $ty(real::$ty);
+            common!($ty, $val);
+            impl $ty {
+                pub fn fetch_add(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_add(v, o)
+                }
+                pub fn fetch_sub(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_sub(v, o)
+                }
+                pub fn fetch_and(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_and(v, o)
+                }
+                pub fn fetch_or(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_or(v, o)
+                }
+                pub fn fetch_xor(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_xor(v, o)
+                }
+                pub fn fetch_max(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_max(v, o)
+                }
+                pub fn fetch_min(&self, v: $val, o: Ordering) -> $val {
+                    point();
+                    self.0.fetch_min(v, o)
+                }
+            }
+        };
+    }
+
+    int!(AtomicU8, u8);
+    int!(AtomicU32, u32);
+    int!(AtomicU64, u64);
+    int!(AtomicUsize, usize);
+    int!(AtomicIsize, isize);
+
+    #[derive(Default)]
+    pub struct AtomicBool(real::AtomicBool);
+    common!(AtomicBool, bool);
+    impl AtomicBool {
+        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
+            point();
+            self.0.fetch_and(v, o)
+        }
+        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
+            point();
+            self.0.fetch_or(v, o)
+        }
+        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
+            point();
+            self.0.fetch_xor(v, o)
+        }
+    }
+
+    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
+    common!(AtomicPtr<T>, *mut T);
+    impl<T> Default for AtomicPtr<T> {
+        fn default() -> Self {
+            Self::new(core::ptr::null_mut())
+        }
+    }
+}
+
+pub mod sync {
+    use core::{
+        fmt,
+        ops::{Deref, DerefMut},
+    };
+    use std::sync as real;
+    pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
+
+    use super::active;
+
+    pub mod mpsc {
+        pub use super::super::mpsc::*;
+    }
+
+    #[derive(Default)]
+    pub struct Mutex<T: ?Sized>(real::Mutex<T>);
+
+    pub struct MutexGuard<'a, T: ?Sized> {
+        guard: Option<real::MutexGuard<'a, T>>,
+        key: usize,
+    }
+
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Self {
+            Self(real::Mutex::new(t))
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        fn key(&self) -> usize {
+            self as *const Self as *const u8 as usize
+        }
+        fn wrap<'a>(&self, guard: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+            MutexGuard { guard: Some(guard), key: self.key() }
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            if let Some(s) = active() {
+                s.point();
+                loop {
+                    match self.0.try_lock() {
+                        Ok(g) => return Ok(self.wrap(g)),
+                        Err(TryLockError::Poisoned(e)) => {
+                            return Err(PoisonError::new(self.wrap(e.into_inner())));
+                        }
+                        Err(TryLockError::WouldBlock) => s.block(self.key()),
+                    }
+                }
+            }
+            match self.0.lock() {
+                Ok(g) => Ok(self.wrap(g)),
+                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
+            }
+        }
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            if let Some(s) = active() {
+                s.point();
+            }
+            match self.0.try_lock() {
+                Ok(g) => Ok(self.wrap(g)),
+                Err(TryLockError::Poisoned(e)) => {
+                    Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner()))))
+                }
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            }
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+        pub fn clear_poison(&self) {
+            self.0.clear_poison()
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.0.fmt(f)
+        }
+    }
+
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.guard.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+
+    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            drop(self.guard.take());
+            if let Some(s) = active() {
+                s.unblock(self.key);
+                if !std::thread::panicking() {
+                    s.point();
+                }
+            }
+        }
+    }
+}
+
+/// The subset of `std::sync::mpsc` which the workspace uses.
+pub mod mpsc {
+    pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
+    use std::{
+        collections::VecDeque,
+        sync::{Arc, Condvar, Mutex},
+    };
+
+    use super::active;
+
+    struct Chan<T> {
+        state: Mutex<State<T>>,
+        cond: Condvar,
+    }
+
+    struct State<T> {
+        queue: VecDeque<T>,
+        senders: usize,
+        receiver: bool,
+    }
+
+    pub struct Sender<T>(Arc<Chan<T>>);
+    pub struct Receiver<T>(Arc<Chan<T>>);
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let c = Arc::new(Chan {
+            state: Mutex::new(State { queue: VecDeque::new(), senders: 1, receiver: true }),
+            cond: Condvar::new(),
+        });
+        (Sender(c.clone()), Receiver(c))
+    }
+
+    impl<T> Chan<T> {
+        fn key(self: &Arc<Self>) -> usize {
+            Arc::as_ptr(self) as usize
+        }
+        fn notify(self: &Arc<Self>) {
+            self.cond.notify_all();
+            if let Some(s) = active() {
+                s.unblock(self.key());
+            }
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
+            if let Some(s) = active() {
+                s.point();
+            }
+            {
+                let mut st = self.0.state.lock().unwrap();
+                if !st.receiver {
+                    return Err(SendError(t));
+                }
+                st.queue.push_back(t);
+            }
+            self.0.notify();
+            Ok(())
+        }
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            self.0.state.lock().unwrap().senders += 1;
+            Self(self.0.clone())
+        }
+    }
+
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            self.0.state.lock().unwrap().senders -= 1;
+            self.0.notify();
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn recv(&self) -> Result<T, RecvError> {
+            if let Some(s) = active() {
+                s.point();
+            }
+            let mut st = self.0.state.lock().unwrap();
+            loop {
+                if let Some(t) = st.queue.pop_front() {
+                    return Ok(t);
+                }
+                if st.senders == 0 {
+                    return Err(RecvError);
+                }
+                if let Some(s) = active() {
+                    drop(st);
+                    s.block(self.0.key());
+                    st = self.0.state.lock().unwrap();
+                } else {
+                    st = self.0.cond.wait(st).unwrap();
+                }
+            }
+        }
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            if let Some(s) = active() {
+                s.point();
+            }
+            let mut st = self.0.state.lock().unwrap();
+            match st.queue.pop_front() {
+                Some(t) => Ok(t),
+                None if st.senders == 0 => Err(TryRecvError::Disconnected),
+                None => Err(TryRecvError::Empty),
+            }
+        }
+    }
+
+    impl<T> Drop for Receiver<T> {
+        fn drop(&mut self) {
+            let queue = {
+                let mut st = self.0.state.lock().unwrap();
+                st.receiver = false;
+                core::mem::take(&mut st.queue)
+            };
+            drop(queue);
+        }
+    }
+}
+
+pub mod thread {
+    pub use std::thread::{available_parallelism, panicking, sleep};
+    use std::{boxed::Box, io, string::String, thread as real};
+
+    use super::active;
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(real::Thread);
+
+    impl Thread {
+        pub fn unpark(&self) {
+            if let Some(s) = active() {
+                s.point();
+                if s.unpark(&self.0) {
+                    return;
+                }
+            }
+            self.0.unpark()
+        }
+        pub fn id(&self) -> real::ThreadId {
+            self.0.id()
+        }
+        pub fn name(&self) -> Option<&str> {
+            self.0.name()
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(real::current())
+    }
+
+    pub fn park() {
+        match active() {
+            Some(s) => s.park(),
+            None => real::park(),
+        }
+    }
+
+    pub fn yield_now() {
+        match active() {
+            Some(s) => s.yield_now(),
+            None => real::yield_now(),
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct Builder {
+        inner: real::Builder,
+        name: Option<String>,
+    }
+
+    impl Builder {
+        pub fn new() -> Self {
+            Self { inner: real::Builder::new(), name: None }
+        }
+        pub fn name(self, name: String) -> Self {
+            Self { inner: self.inner.name(name.clone()), name: Some(name) }
+        }
+        pub fn stack_size(self, n: usize) -> Self {
+            Self { inner: self.inner.stack_size(n), ..self }
+        }
+        /// Unlike the original, gives no join handle back: no caller keeps it.
+        pub fn spawn<F: FnOnce() + Send + 'static>(self, f: F) -> io::Result<()> {
+            match active() {
+                Some(s) => {
+                    s.spawn(self.name, Box::new(f));
+                    Ok(())
+                }
+                None => self.inner.spawn(f).map(drop),
+            }
+        }
+    }
+}
diff --git a/futures-core/src/lib.rs b/futures-core/src/lib.rs
index e881764..c6e316b 100644
--- a/futures-core/src/lib.rs
+++ b/futures-core/src/lib.rs
@@ -1,6 +1,7 @@
 //! Core traits and types for asynchronous operations in Rust.
 
 #![no_std]
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
     missing_docs,
@@ -25,3 +26,7 @@ pub use self::stream::{FusedStream, Stream, TryStream};
 
 #[macro_use]
 pub mod task;
+
+#[cfg(futures_verif)]
+#[doc(hidden)]
+pub mod __verif;
diff --git a/futures-core/src/task/__internal/atomic_waker.rs b/futures-core/src/task/__internal/atomic_waker.rs
index 4bc72e3..5981e6c 100644
--- a/futures-core/src/task/__internal/atomic_waker.rs
+++ b/futures-core/src/task/__internal/atomic_waker.rs
@@ -1,4 +1,4 @@
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(all(not(feature = "portable-atomic"), not(futures_verif)))]
 use core::sync::atomic;
 use core::{cell::UnsafeCell, fmt, task::Waker};
 
@@ -9,6 +9,9 @@ use atomic::{
 #[cfg(feature = "portable-atomic")]
 use portable_atomic as atomic;
 
+#[cfg(futures_verif)]
+use crate::__verif::atomic;
+
 /// A synchronization primitive for task wakeup.
 ///
 /// Sometimes the task interested in a given event will change over time.
diff --git a/futures-executor/src/lib.rs b/futures-executor/src/lib.rs
index 159e977..76491de 100644
--- a/futures-executor/src/lib.rs
+++ b/futures-executor/src/lib.rs
@@ -36,6 +36,7 @@
 //! [`spawn_obj`]: https://docs.rs/futures/0.3/futures/task/trait.Spawn.html#tymethod.spawn_obj
 //! [`spawn_local_obj`]: https://docs.rs/futures/0.3/futures/task/trait.LocalSpawn.html#tymethod.spawn_local_obj
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-executor/src/local_pool.rs b/futures-executor/src/local_pool.rs
index 37494a6..693f2eb 100644
--- a/futures-executor/src/local_pool.rs
+++ b/futures-executor/src/local_pool.rs
@@ -3,14 +3,20 @@ use alloc::{
     sync::Arc,
     vec::Vec,
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
 use core::{
     cell::RefCell,
     ops::{Deref, DerefMut},
     pin::pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
+#[cfg(not(futures_verif))]
 use std::thread::{self, Thread};
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::thread::{self, Thread};
 use futures_core::{
     future::Future,
     stream::Stream,
diff --git a/futures-executor/src/thread_pool.rs b/futures-executor/src/thread_pool.rs
index b9cfd92..95840ee 100644
--- a/futures-executor/src/thread_pool.rs
+++ b/futures-executor/src/thread_pool.rs
@@ -1,14 +1,21 @@
 use alloc::{boxed::Box, format, string::String, sync::Arc};
-use core::{
-    fmt,
-    sync::atomic::{AtomicUsize, Ordering},
-};
+use core::fmt;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+use std::io;
+#[cfg(not(futures_verif))]
 use std::{
-    io,
     sync::{Mutex, mpsc},
     thread,
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::{
+    sync::{Mutex, mpsc},
+    thread,
+};
 use futures_core::{
     future::Future,
     task::{Context, Poll},
diff --git a/futures-executor/src/unpark_mutex.rs b/futures-executor/src/unpark_mutex.rs
index ffe79d2..474b0e2 100644
--- a/futures-executor/src/unpark_mutex.rs
+++ b/futures-executor/src/unpark_mutex.rs
@@ -1,7 +1,9 @@
-use core::{
-    cell::UnsafeCell,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
-};
+use core::cell::UnsafeCell;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
 
 /// A "lock" around data `D`, which employs a *helping* strategy.
 ///
diff --git a/futures-util/src/abortable.rs b/futures-util/src/abortable.rs
index 315df04..23f6b87 100644
--- a/futures-util/src/abortable.rs
+++ b/futures-util/src/abortable.rs
@@ -1,10 +1,10 @@
 use alloc::sync::Arc;
-use core::{
-    fmt,
-    pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
-};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+use core::{fmt, pin::Pin};
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 use futures_core::{
     Stream,
     future::Future,
diff --git a/futures-util/src/future/future/remote_handle.rs b/futures-util/src/future/future/remote_handle.rs
index 85b1f72..2c62bbc 100644
--- a/futures-util/src/future/future/remote_handle.rs
+++ b/futures-util/src/future/future/remote_handle.rs
@@ -1,14 +1,12 @@
 use alloc::{boxed::Box, sync::Arc};
-use core::{
-    any::Any,
-    fmt,
-    panic::AssertUnwindSafe,
-    pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
-};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+use core::{any::Any, fmt, panic::AssertUnwindSafe, pin::Pin};
 use std::{panic, thread};
 
 use futures_channel::oneshot::{self, Receiver, Sender};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 use futures_core::{
     future::Future,
     ready,
diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..4315112 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -1,16 +1,16 @@
 use alloc::sync::{Arc, Weak};
-use core::{
-    cell::UnsafeCell,
-    fmt,
-    hash::Hasher,
-    pin::Pin,
-    ptr,
-    sync::atomic::{
-        AtomicUsize,
-        Ordering::{Acquire, SeqCst},
-    },
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
 };
+use core::{cell::UnsafeCell, fmt, hash::Hasher, pin::Pin, ptr};
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
+};
 use futures_core::{
     future::{FusedFuture, Future},
     task::{Context, Poll, Waker},
@@ -19,8 +19,10 @@ use slab::Slab;
 
 use crate::task::{ArcWake, waker_ref};
 
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", not(futures_verif)))]
 type Mutex<T> = std::sync::Mutex<T>;
+#[cfg(all(feature = "std", futures_verif))]
+type Mutex<T> = futures_core::__verif::sync::Mutex<T>;
 #[cfg(not(feature = "std"))]
 type Mutex<T> = spin::Mutex<T>;
 
diff --git a/futures-util/src/lib.rs b/futures-util/src/lib.rs
index bc48863..6f822dc 100644
--- a/futures-util/src/lib.rs
+++ b/futures-util/src/lib.rs
@@ -1,6 +1,7 @@
 //! Combinators and utilities for working with `Future`s, `Stream`s, `Sink`s,
 //! and the `AsyncRead` and `AsyncWrite` traits.
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-util/src/lock/bilock.rs b/futures-util/src/lock/bilock.rs
index 1af0613..a9973a3 100644
--- a/futures-util/src/lock/bilock.rs
+++ b/futures-util/src/lock/bilock.rs
@@ -1,15 +1,18 @@
 //! Futures-powered synchronization primitives.
 
 use alloc::{boxed::Box, sync::Arc};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering::SeqCst};
 use core::{
     cell::UnsafeCell,
     fmt,
     ops::{Deref, DerefMut},
     pin::Pin,
     ptr,
-    sync::atomic::{AtomicPtr, Ordering::SeqCst},
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicPtr, Ordering::SeqCst};
 #[cfg(feature = "bilock")]
 use futures_core::future::Future;
 use futures_core::task::{Context, Poll, Waker};
diff --git a/futures-util/src/lock/mutex.rs b/futures-util/src/lock/mutex.rs
index 9b1ccfa..f4e593f 100644
--- a/futures-util/src/lock/mutex.rs
+++ b/futures-util/src/lock/mutex.rs
@@ -1,4 +1,6 @@
 use alloc::sync::Arc;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
 use core::{
     cell::UnsafeCell,
     fmt,
@@ -6,10 +8,14 @@ use core::{
     mem,
     ops::{Deref, DerefMut},
     pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering},
 };
+#[cfg(not(futures_verif))]
 use std::sync::Mutex as StdMutex;
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::sync::Mutex as StdMutex;
 use futures_core::{
     future::{FusedFuture, Future},
     task::{Context, Poll, Waker},
diff --git a/futures-util/src/stream/futures_unordered/mod.rs b/futures-util/src/stream/futures_unordered/mod.rs
index b40b894..04991c1 100644
--- a/futures-util/src/stream/futures_unordered/mod.rs
+++ b/futures-util/src/stream/futures_unordered/mod.rs
@@ -5,7 +5,7 @@
 
 #[cfg(not(feature = "portable-atomic-alloc"))]
 use alloc::sync::{Arc, Weak};
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(all(not(feature = "portable-atomic"), not(futures_verif)))]
 use core::sync::atomic;
 use core::{
     cell::UnsafeCell,
@@ -21,6 +21,8 @@ use atomic::{
     AtomicBool, AtomicPtr,
     Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst},
 };
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic;
 use futures_core::{
     future::Future,
     stream::{FusedStream, Stream},
diff --git a/futures-util/src/stream/stream/flatten_unordered.rs b/futures-util/src/stream/stream/flatten_unordered.rs
index f15cf69..fafe44d 100644
--- a/futures-util/src/stream/stream/flatten_unordered.rs
+++ b/futures-util/src/stream/stream/flatten_unordered.rs
@@ -1,14 +1,12 @@
 use alloc::sync::Arc;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicU8, Ordering};
 use core::{
-    cell::UnsafeCell,
-    convert::identity,
-    fmt,
-    marker::PhantomData,
-    num::NonZeroUsize,
-    pin::Pin,
-    sync::atomic::{AtomicU8, Ordering},
+    cell::UnsafeCell, convert::identity, fmt, marker::PhantomData, num::NonZeroUsize, pin::Pin,
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicU8, Ordering};
 use futures_core::{
     future::Future,
     ready,
-- 
2.43.0


From 57cc0182a75d4347d9d65e3260a464eeeecb01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:43 +0000
Subject: [PATCH 02/22] fix: mpsc try_send on a full channel must not drop the
 waker registered by poll_ready

A bounded sender whose poll_ready returned Pending has its task registered to
be woken when a slot frees. A following try_send on the same sender, failing
with Full, replaced that registration with nothing, so the task was never
woken.
---
 futures-channel/src/mpsc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index 8e20ac4..a07dbec 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -706,8 +706,11 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a task context (`try_send`) a task registered by
+            // an earlier `poll_ready` is still waiting and must be kept.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From ec8c556bdad42cbc59757c94274e8b968e31788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:02 +0000
Subject: [PATCH 03/22] fix: stream_select! must not poll a stream again after
 it ended

When one stream ended and another one yielded an item in the same call, the
end was forgotten and the finished stream was polled again.
---
 futures-macro/src/stream_select.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..3600535 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut ready = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -64,7 +65,8 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
                                     r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                        ready = Some(r);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if let Some(r) = ready {
+                        r
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From 3509970b1a68a96fb9bda9b8bb70a89eacceb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:02 +0000
Subject: [PATCH 04/22] fix: try_join_all must return an error at once also for
 more than 30 futures

The variant for large inputs collected a FuturesOrdered, which hands out an
error only after all futures before it completed (never, if one of them does
not complete). Collect a FuturesUnordered of indexed futures instead.
---
 futures-util/src/future/try_join_all.rs | 46 +++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..370bf3e 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -11,10 +11,34 @@ use core::{
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use pin_project_lite::pin_project;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::{FuturesUnordered, TryCollect, TryStreamExt};
+
+#[cfg(target_has_atomic = "ptr")]
+pin_project! {
+    // A future together with its position in the list of results.
+    struct Indexed<F> {
+        index: usize,
+        #[pin]
+        fut: IntoFuture<F>,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<F: TryFuture> Future for Indexed<F> {
+    type Output = Result<(usize, F::Ok), F::Error>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.project();
+        let index = *this.index;
+        this.fut.poll(cx).map_ok(|output| (index, output))
+    }
+}
 
 enum FinalState<E = ()> {
     Pending,
@@ -40,7 +64,8 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        // Not ordered: an error has to be returned at once, whatever its position.
+        fut: TryCollect<FuturesUnordered<Indexed<F>>, Vec<(usize, F::Ok)>>,
     },
 }
 
@@ -79,9 +104,9 @@ where
 ///
 /// # See Also
 ///
-/// `try_join_all` will switch to the more powerful [`FuturesOrdered`] for performance
+/// `try_join_all` will switch to the more powerful [`FuturesUnordered`] for performance
 /// reasons if the number of futures is large. You may want to look into using it or
-/// it's counterpart [`FuturesUnordered`][crate::stream::FuturesUnordered] directly.
+/// it's counterpart [`FuturesOrdered`][crate::stream::FuturesOrdered] directly.
 ///
 /// Some examples for additional functionality provided by these are:
 ///
@@ -138,7 +163,13 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => TryJoinAllKind::Big {
+                fut: iter
+                    .enumerate()
+                    .map(|(index, fut)| Indexed { index, fut })
+                    .collect::<FuturesUnordered<_>>()
+                    .try_collect(),
+            },
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +216,10 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx).map_ok(|mut results| {
+                results.sort_unstable_by_key(|(index, _)| *index);
+                results.into_iter().map(|(_, output)| output).collect()
+            }),
         }
     }
 }
-- 
2.43.0


From fc68f2c256c88ccd29ed5f1bb963522e319bec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 05/22] fix: take_until ends for good once the inner stream
 ended after take_future

After take_future() the end of the inner stream was not remembered:
is_terminated() stayed false and another poll polled the ended stream.
---
 futures-util/src/stream/stream/take_until.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..754ecb9 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -135,6 +135,7 @@ where
             let item = ready!(this.stream.poll_next(cx));
             if item.is_none() {
                 this.fut.set(None);
+                *this.free = false;
             }
             Poll::Ready(item)
         }
-- 
2.43.0


From 205105f893edcbf9135295f9b10efe69cd1cb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 06/22] fix: take_until size_hint lower bound ignored the
 stopping future

---
 futures-util/src/stream/stream/take_until.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 754ecb9..1cfaa01 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -146,7 +146,9 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // The stopping future may end the stream at any time.
+        (if self.free { lower } else { 0 }, upper)
     }
 }
 
-- 
2.43.0


From 9e08ba829845bca9ecb2ce9ee1343e7fd76d7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 07/22] fix: zip is terminated as soon as either stream has
 ended

After zip returned None because one stream ended, is_terminated() stayed
false until the other one ended too, so select loops kept polling it.
---
 futures-util/src/stream/stream/zip.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..e32e5bf 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,9 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        // A pair needs an item of both streams, so the end of either ends the
+        // zip (a stream that has ended never has an item queued).
+        self.stream1.is_terminated() || self.stream2.is_terminated()
     }
 }
 
-- 
2.43.0


From e4e56676864989c8dfd24f7ff23a603acb4ac5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 08/22] fix: try_take_while and try_skip_while drop the item
 whose predicate failed

The item was kept, so is_terminated() never became true afterwards.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From 03d18103e4aa25b1ff483a39e7af58791d6bae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 09/22] fix: scan size_hint ignored the closure ending the
 stream and the pending item

---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..f084042 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 0315ed7fa3da310f4767dd64688080c5ac4e629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 10/22] fix: stream_select! size_hint overflowed on large
 bounds

---
 futures-macro/src/stream_select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index 3600535..a8400d1 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -101,9 +101,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                     let mut s = (0, Some(0));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = usize::saturating_add(s.0, new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a| new_hint.1.and_then(|b| usize::checked_add(a, b)));
                         }
                     )*
                     s
-- 
2.43.0


From 44c01d18e593f700710e27ad1d28afd859b2cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:16 +0000
Subject: [PATCH 11/22] fix: shared: a wakeup during a poll must not be lost
 when the poller is dropped

A handle that was woken while another one was polling the future was
turned away, and if the polling handle was then dropped instead of being
polled again, nobody ever polled the future again.
---
 futures-util/src/future/future/shared.rs | 37 +++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 4315112..a1cb8c2 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -96,6 +96,8 @@ const IDLE: usize = 0;
 const POLLING: usize = 1;
 const COMPLETE: usize = 2;
 const POISONED: usize = 3;
+/// Like `POLLING`, and the future was woken since that poll started.
+const REPOLL: usize = 4;
 
 const NULL_WAKER_KEY: usize = usize::MAX;
 
@@ -297,7 +299,7 @@ where
             IDLE => {
                 // Lock acquired, fall through
             }
-            POLLING => {
+            POLLING | REPOLL => {
                 // Another task is currently polling, at this point we just want
                 // to ensure that the waker for this task is registered
                 this.inner = Some(inner);
@@ -342,15 +344,17 @@ where
 
             match poll_result {
                 Poll::Pending => {
-                    if inner.notifier.state.compare_exchange(POLLING, IDLE, SeqCst, SeqCst).is_ok()
-                    {
-                        // Success
-                        drop(reset);
-                        this.inner = Some(inner);
-                        return Poll::Pending;
-                    } else {
-                        unreachable!()
+                    match inner.notifier.state.swap(IDLE, SeqCst) {
+                        POLLING => {}
+                        // A task that was woken during this poll may have been
+                        // turned away because of it: let it try again, as this
+                        // handle may be dropped without being polled again.
+                        REPOLL => inner.notifier.wake_all(),
+                        _ => unreachable!(),
                     }
+                    drop(reset);
+                    this.inner = Some(inner);
+                    return Poll::Pending;
                 }
                 Poll::Ready(output) => output,
             }
@@ -412,12 +416,12 @@ where
     }
 }
 
-impl ArcWake for Notifier {
-    fn wake_by_ref(arc_self: &Arc<Self>) {
+impl Notifier {
+    fn wake_all(&self) {
         #[cfg(feature = "std")]
-        let wakers = &mut *arc_self.wakers.lock().unwrap();
+        let wakers = &mut *self.wakers.lock().unwrap();
         #[cfg(not(feature = "std"))]
-        let wakers = &mut *arc_self.wakers.lock();
+        let wakers = &mut *self.wakers.lock();
 
         if let Some(wakers) = wakers.as_mut() {
             for (_key, opt_waker) in wakers {
@@ -429,6 +433,13 @@ impl ArcWake for Notifier {
     }
 }
 
+impl ArcWake for Notifier {
+    fn wake_by_ref(arc_self: &Arc<Self>) {
+        let _ = arc_self.state.compare_exchange(POLLING, REPOLL, SeqCst, SeqCst);
+        arc_self.wake_all();
+    }
+}
+
 impl<Fut: Future> WeakShared<Fut> {
     /// Attempts to upgrade this [`WeakShared`] into a [`Shared`].
     ///
-- 
2.43.0


From 79185e93d3912c5623dd0a85bfbbfea8afa8420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:17 +0000
Subject: [PATCH 12/22] fix: shared: wake the other handles when the future
 panics

They stayed pending forever instead of reporting the panic.
---
 futures-util/src/future/future/shared.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index a1cb8c2..9771517 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -317,19 +317,21 @@ where
         let mut cx = Context::from_waker(&waker);
 
         struct Reset<'a> {
-            state: &'a AtomicUsize,
+            notifier: &'a Notifier,
             did_not_panic: bool,
         }
 
         impl Drop for Reset<'_> {
             fn drop(&mut self) {
                 if !self.did_not_panic {
-                    self.state.store(POISONED, SeqCst);
+                    self.notifier.state.store(POISONED, SeqCst);
+                    // The other handles would wait forever.
+                    self.notifier.wake_all();
                 }
             }
         }
 
-        let mut reset = Reset { state: &inner.notifier.state, did_not_panic: false };
+        let mut reset = Reset { notifier: &inner.notifier, did_not_panic: false };
 
         let output = {
             let future = unsafe {
-- 
2.43.0


From a26d1872f4279203865d275f2c5bf7c2ce491c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:17 +0000
Subject: [PATCH 13/22] fix: split: a refused reunite must hand back the sink
 with its pending item

---
 futures-util/src/stream/stream/split.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/split.rs b/futures-util/src/stream/stream/split.rs
index 3c784ac..1e35010 100644
--- a/futures-util/src/stream/stream/split.rs
+++ b/futures-util/src/stream/stream/split.rs
@@ -65,7 +65,9 @@ impl<S: Sink<Item> + Unpin, Item> SplitSink<S, Item> {
     /// together. Succeeds only if the `SplitStream<S>` and `SplitSink<S>` are
     /// a matching pair originating from the same call to `StreamExt::split`.
     pub fn reunite(self, other: SplitStream<S>) -> Result<S, ReuniteError<S, Item>> {
-        self.lock.reunite(other.0).map_err(|err| ReuniteError(SplitSink(err.0), SplitStream(err.1)))
+        let Self { lock, slot } = self;
+        lock.reunite(other.0)
+            .map_err(|err| ReuniteError(Self { lock: err.0, slot }, SplitStream(err.1)))
     }
 }
 
-- 
2.43.0


From 68d68071ea123b13884204d77569c67149ba4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 14/22] fix: BufReader::poll_seek_relative must not overflow on
 i64::MIN

---
 futures-util/src/io/buf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_reader.rs b/futures-util/src/io/buf_reader.rs
index 117eb98..a3b2924 100644
--- a/futures-util/src/io/buf_reader.rs
+++ b/futures-util/src/io/buf_reader.rs
@@ -95,7 +95,7 @@ impl<R: AsyncRead + AsyncSeek> BufReader<R> {
     ) -> Poll<io::Result<()>> {
         let pos = self.pos as u64;
         if offset < 0 {
-            if let Some(new_pos) = pos.checked_sub((-offset) as u64) {
+            if let Some(new_pos) = pos.checked_sub(offset.unsigned_abs()) {
                 *self.project().pos = new_pos as usize;
                 return Poll::Ready(Ok(()));
             }
-- 
2.43.0


From ef09b5cde088fa9c1d7704c6f6d131d877cf362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 15/22] fix: IntoSink reports a writer that accepts nothing
 instead of spinning

---
 futures-util/src/io/into_sink.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..e0d1218 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -45,11 +45,14 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
         if let Some(buffer) = this.buffer {
             loop {
                 let bytes = buffer.bytes.as_ref();
-                let written = ready!(this.writer.as_mut().poll_write(cx, &bytes[buffer.offset..]))?;
-                buffer.offset += written;
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                let written = ready!(this.writer.as_mut().poll_write(cx, &bytes[buffer.offset..]))?;
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
+                buffer.offset += written;
             }
         }
         *this.buffer = None;
-- 
2.43.0


From 70eb0c3ce75d4323c33554595b81a297da6c2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 16/22] fix: Lines must not mix a line cut by an error into a
 later line

---
 futures-util/src/io/lines.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..5e1df3a 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,15 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read)) {
+            Ok(n) => n,
+            Err(e) => {
+                // Like `std::io::Lines`, drop what was read of the line, rather
+                // than putting it in front of a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From 2cc49001767ebf63f32a7e14206440030a5c7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:56 +0000
Subject: [PATCH 17/22] fix: With must not poll its future again after it
 failed

---
 futures-util/src/sink/with.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/sink/with.rs b/futures-util/src/sink/with.rs
index 8ec9e44..5658ba5 100644
--- a/futures-util/src/sink/with.rs
+++ b/futures-util/src/sink/with.rs
@@ -99,12 +99,13 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
         let mut this = self.project();
 
-        let item = match this.state.as_mut().as_pin_mut() {
+        let res = match this.state.as_mut().as_pin_mut() {
             None => return Poll::Ready(Ok(())),
-            Some(fut) => ready!(fut.poll(cx))?,
+            Some(fut) => ready!(fut.poll(cx)),
         };
+        // The future has completed (also if it failed) and must not be polled again.
         this.state.set(None);
-        this.sink.start_send(item)?;
+        this.sink.start_send(res?)?;
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 3b0ad79b55c51c71c94e59b8f883583815a573b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:56 +0000
Subject: [PATCH 18/22] fix: Buffer must not ask a closing sink to get ready

---
 futures-util/src/sink/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/sink/buffer.rs b/futures-util/src/sink/buffer.rs
index d022c23..c4b5a92 100644
--- a/futures-util/src/sink/buffer.rs
+++ b/futures-util/src/sink/buffer.rs
@@ -97,7 +97,11 @@ impl<Si: Sink<Item>, Item> Sink<Item> for Buffer<Si, Item> {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        // Once the buffer is empty, the inner sink may already be closing, and
+        // must not be asked to get ready for another item.
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_close(cx)
     }
-- 
2.43.0


From 2799738bcece202f52c1e05dbefeb3347f40403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:39 +0000
Subject: [PATCH 19/22] hooks: a scheduling point while a std mutex is held
 (cfg futures_verif)

---
 futures-core/src/__verif.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/futures-core/src/__verif.rs b/futures-core/src/__verif.rs
index 8563746..e88d7ab 100644
--- a/futures-core/src/__verif.rs
+++ b/futures-core/src/__verif.rs
@@ -311,6 +311,12 @@ pub mod sync {
 
     impl<T: ?Sized> Drop for MutexGuard<'_, T> {
         fn drop(&mut self) {
+            // Others may also run while the lock is held.
+            if let Some(s) = active() {
+                if !std::thread::panicking() {
+                    s.point();
+                }
+            }
             drop(self.guard.take());
             if let Some(s) = active() {
                 s.unblock(self.key);
-- 
2.43.0


From 3ec703c275e7a1771de99a47cb1b04f981ba6d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:25 +0000
Subject: [PATCH 20/22] fix: a wake of a pool task already to be repolled can
 be lost

A waker that found the status REPOLL only read it, and a poll cleared it with
a plain store. Nothing ordered what the waker's thread did before the wake
before the poll that followed, which could return Pending without seeing it,
and no other poll came.
---
 futures-executor/src/unpark_mutex.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/futures-executor/src/unpark_mutex.rs b/futures-executor/src/unpark_mutex.rs
index 474b0e2..123d5bb 100644
--- a/futures-executor/src/unpark_mutex.rs
+++ b/futures-executor/src/unpark_mutex.rs
@@ -86,8 +86,15 @@ impl<D> UnparkMutex<D> {
                     Err(cur) => status = cur,
                 },
 
-                // The task is already scheduled for polling, or is complete, so
-                // we've got nothing to do.
+                // The task is already scheduled for polling. Write the status
+                // nevertheless: the poll that clears it must observe everything
+                // that happened before this call.
+                REPOLL => match self.status.compare_exchange(REPOLL, REPOLL, SeqCst, SeqCst) {
+                    Ok(_) => return Err(()),
+                    Err(cur) => status = cur,
+                },
+
+                // The task is complete, so we've got nothing to do.
                 _ => return Err(()),
             }
         }
@@ -101,7 +108,9 @@ impl<D> UnparkMutex<D> {
     /// Callable only from the `POLLING`/`REPOLL` states, i.e. between
     /// successful calls to `notify` and `wait`/`complete`.
     pub(crate) unsafe fn start_poll(&self) {
-        self.status.store(POLLING, SeqCst);
+        // Not a `store`, which would not synchronize with the `notify` calls
+        // whose re-poll requests it clears.
+        self.status.swap(POLLING, SeqCst);
     }
 
     /// Alert the mutex that polling completed with `Pending`.
@@ -121,7 +130,7 @@ impl<D> UnparkMutex<D> {
             // state and run again.
             Err(status) => {
                 assert_eq!(status, REPOLL);
-                self.status.store(POLLING, SeqCst);
+                self.status.swap(POLLING, SeqCst);
                 Err(unsafe { (*self.inner.get()).take().unwrap() })
             }
         }
-- 
2.43.0


From 837a45827a27b27694c4954e84dcba0225fa1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 21/22] fix: a repeated wake of the stream in flatten_unordered
 can be lost

A wake that found the stream already marked to be polled only read the state.
Nothing ordered what happened before it before the poll that followed, which
could return Pending without seeing it, and no other poll came.
---
 futures-util/src/stream/stream/flatten_unordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/flatten_unordered.rs b/futures-util/src/stream/stream/flatten_unordered.rs
index fafe44d..32b4450 100644
--- a/futures-util/src/stream/stream/flatten_unordered.rs
+++ b/futures-util/src/stream/stream/flatten_unordered.rs
@@ -89,7 +89,9 @@ impl SharedPollState {
                     next_value |= WAKING;
                 }
 
-                if next_value != value { Some(next_value) } else { None }
+                // Write the state even if nothing changes: the poll that clears
+                // it must observe everything that happened before this call.
+                Some(next_value)
             })
             .ok()?;
 
-- 
2.43.0


From 1392d5e562abc7fd088dd71d872e0f631857f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:24 +0000
Subject: [PATCH 22/22] fix: upper size bound of stream::poll_immediate leaves
 out its pending items

---
 futures-util/src/stream/poll_immediate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..2866bd4 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        // Any number of `Poll::Pending` items may come between those of the stream.
+        self.stream.as_ref().map_or((0, Some(0)), |stream| (stream.size_hint().0, None))
     }
 }
 
-- 
2.43.0

