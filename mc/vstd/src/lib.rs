//! The standard library with `sync` and `thread` under the control of the
//! shuttle scheduler. The code under test is compiled with this crate under
//! the name `std`.
pub use ::std::*;

::std::thread_local! {
    /// How many more timed waits may still expire in this execution.
    pub static TIMEOUTS: ::std::cell::Cell<usize> = const { ::std::cell::Cell::new(0) };
}

/// How often a timed wait lets the other threads go first before it expires
/// in any case.
const PATIENCE: usize = 50;

/// A timed wait expires when the explorer decides so (shuttle's own never do),
/// for a limited number of times per execution; it always expires at last.
fn expires() -> bool {
    let left = TIMEOUTS.with(|c| c.get());
    if left > 0 && shuttle::rand::RngCore::next_u64(&mut shuttle::rand::thread_rng()) == 1 {
        TIMEOUTS.with(|c| c.set(left - 1));
        return true;
    }
    false
}

pub mod hint {
    pub use ::std::hint::*;
    pub use shuttle::hint::spin_loop;
}

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Barrier, BarrierWaitResult, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard};

    /// A mutex whose guards know it (for timed waits).
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(shuttle::sync::Mutex<T>);

    pub struct MutexGuard<'a, T: ?Sized + 'a> {
        inner: shuttle::sync::MutexGuard<'a, T>,
        mutex: &'a Mutex<T>,
    }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(shuttle::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }

    impl<T: ?Sized> Mutex<T> {
        fn guard<'a>(&'a self, r: LockResult<shuttle::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(inner) => Ok(MutexGuard { inner, mutex: self }),
                Err(e) => Err(PoisonError::new(MutexGuard { inner: e.into_inner(), mutex: self })),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.guard(self.0.lock())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            match self.0.try_lock() {
                Ok(inner) => Ok(MutexGuard { inner, mutex: self }),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: e.into_inner(), mutex: self }))),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }

    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    impl<T: ?Sized> ::std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.inner
        }
    }

    impl<T: ?Sized> ::std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.inner
        }
    }

    impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            (**self).fmt(f)
        }
    }

    #[derive(Debug, Default)]
    pub struct Condvar(shuttle::sync::Condvar);

    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
    pub struct WaitTimeoutResult(bool);

    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }

    impl Condvar {
        pub const fn new() -> Self {
            Condvar(shuttle::sync::Condvar::new())
        }
        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = guard.mutex;
            m.guard(self.0.wait(guard.inner))
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        /// Lets the other threads go first, then expires.
        pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, _dur: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let m = guard.mutex;
            drop(guard);
            shuttle::thread::yield_now();
            match m.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            }
        }
        pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, dur: ::std::time::Duration, mut condition: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            for _ in 0..super::PATIENCE {
                if !condition(&mut *guard) {
                    return Ok((guard, WaitTimeoutResult(false)));
                }
                if super::expires() {
                    return Ok((guard, WaitTimeoutResult(true)));
                }
                guard = self.wait_timeout(guard, dur)?.0;
            }
            let still = condition(&mut *guard);
            Ok((guard, WaitTimeoutResult(still)))
        }
        pub fn notify_one(&self) {
            self.0.notify_one()
        }
        pub fn notify_all(&self) {
            self.0.notify_all()
        }
    }

    pub mod mpsc {
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        pub use shuttle::sync::mpsc::{Sender, SyncSender};

        #[derive(Debug)]
        pub struct Receiver<T>(shuttle::sync::mpsc::Receiver<T>);

        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (s, r) = shuttle::sync::mpsc::channel();
            (s, Receiver(r))
        }

        pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
            let (s, r) = shuttle::sync::mpsc::sync_channel(bound);
            (s, Receiver(r))
        }

        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                self.0.recv()
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                self.0.try_recv()
            }
            pub fn recv_timeout(&self, _timeout: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
                for _ in 0..super::super::PATIENCE {
                    match self.0.try_recv() {
                        Ok(t) => return Ok(t),
                        Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                        Err(TryRecvError::Empty) => {}
                    }
                    if super::super::expires() {
                        break;
                    }
                    shuttle::thread::yield_now();
                }
                Err(RecvTimeoutError::Timeout)
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter(self)
            }
            pub fn try_iter(&self) -> TryIter<'_, T> {
                TryIter(self)
            }
        }

        #[derive(Debug)]
        pub struct Iter<'a, T: 'a>(&'a Receiver<T>);
        #[derive(Debug)]
        pub struct TryIter<'a, T: 'a>(&'a Receiver<T>);
        #[derive(Debug)]
        pub struct IntoIter<T>(Receiver<T>);

        impl<T> Iterator for Iter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> Iterator for TryIter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.try_recv().ok()
            }
        }
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<'a, T> IntoIterator for &'a Receiver<T> {
            type Item = T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                self.iter()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
    }
    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;
        pub use shuttle::sync::atomic::*;
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{current, park, scope, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle, Thread, ThreadId};

    ::std::thread_local! {
        /// The number of processors the code under test is told about.
        pub static CPUS: ::std::cell::Cell<usize> = const { ::std::cell::Cell::new(1) };
    }

    /// Time passes when the others had their turn.
    pub fn sleep(_dur: ::std::time::Duration) {
        shuttle::thread::yield_now()
    }

    /// Returns early, as it may.
    pub fn park_timeout(_dur: ::std::time::Duration) {
        shuttle::thread::yield_now()
    }

    pub fn available_parallelism() -> ::std::io::Result<::std::num::NonZeroUsize> {
        Ok(::std::num::NonZeroUsize::new(CPUS.with(|c| c.get())).unwrap())
    }
}
