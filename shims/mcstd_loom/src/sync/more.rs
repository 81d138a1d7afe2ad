//! Channels and OnceLock over loom's mutex, condition variable and atomics.
pub mod once {
    use loom::sync::atomic::{AtomicUsize, Ordering::*};
    use std::cell::UnsafeCell;
    /// `std::sync::OnceLock` for values set at most once per model execution.
    pub struct OnceLock<T> {
        state: AtomicUsize,
        val: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    unsafe impl<T: Send> Send for OnceLock<T> {}
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> OnceLock<T> {
        pub fn new() -> Self {
            OnceLock { state: AtomicUsize::new(0), val: UnsafeCell::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.state.load(Acquire) == 2 { unsafe { (*self.val.get()).as_ref() } } else { None }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.val.get_mut().as_mut()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            if self.state.compare_exchange(0, 1, Acquire, Acquire).is_err() {
                // std blocks until a concurrent initialisation is complete
                while self.state.load(Acquire) != 2 {
                    loom::thread::yield_now();
                }
                return Err(v);
            }
            unsafe { *self.val.get() = Some(v) };
            self.state.store(2, Release);
            Ok(())
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            if self.get().is_none() {
                let _ = self.set(f());
            }
            self.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.val.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            let v = self.val.get_mut().take();
            if v.is_some() {
                self.state = AtomicUsize::new(0);
            }
            v
        }
    }
}

pub mod mpsc {
    use loom::sync::{Condvar, Mutex};
    use std::collections::VecDeque;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::sync::Arc;

    struct Q<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
    }
    struct Chan<T> {
        m: Mutex<Q<T>>,
        cv: Condvar,
        cap: Option<usize>,
    }
    impl<T> Chan<T> {
        fn send(&self, v: T) -> Result<(), SendError<T>> {
            let mut g = self.m.lock().unwrap();
            loop {
                if !g.receiver {
                    return Err(SendError(v));
                }
                if self.cap.is_none_or(|c| g.q.len() < c) {
                    break;
                }
                g = self.cv.wait(g).unwrap();
            }
            g.q.push_back(v);
            drop(g);
            self.cv.notify_all();
            Ok(())
        }
    }
    macro_rules! sender {
        ($n:ident) => {
            pub struct $n<T>(Arc<Chan<T>>);
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.m.lock().unwrap().senders += 1;
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    if std::thread::panicking() {
                        return;
                    }
                    let mut g = self.0.m.lock().unwrap();
                    g.senders -= 1;
                    let last = g.senders == 0;
                    drop(g);
                    if last {
                        self.0.cv.notify_all();
                    }
                }
            }
            impl<T> $n<T> {
                pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                    self.0.send(v)
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);
    pub struct Receiver<T>(Arc<Chan<T>>);
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            self.0.m.lock().unwrap().receiver = false;
            self.0.cv.notify_all();
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(v) = g.q.pop_front() {
                    drop(g);
                    if self.0.cap.is_some() {
                        self.0.cv.notify_all();
                    }
                    return Ok(v);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
                g = self.0.cv.wait(g).unwrap();
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap();
            match g.q.pop_front() {
                Some(v) => {
                    drop(g);
                    if self.0.cap.is_some() {
                        self.0.cv.notify_all();
                    }
                    Ok(v)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(|| self.try_recv().ok())
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(|| self.recv().ok())
        }
    }
    fn make<T>(cap: Option<usize>) -> (Arc<Chan<T>>, Receiver<T>) {
        let c = Arc::new(Chan { m: Mutex::new(Q { q: VecDeque::new(), senders: 1, receiver: true }), cv: Condvar::new(), cap });
        (c.clone(), Receiver(c))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (c, r) = make(None);
        (Sender(c), r)
    }
    /// A capacity of zero (rendezvous) is not modelled.
    pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
        let (c, r) = make(Some(cap.max(1)));
        (SyncSender(c), r)
    }
}
