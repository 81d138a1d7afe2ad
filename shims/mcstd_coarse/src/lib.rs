//! `std` whose channels are scheduling points of the pool in `rayon_coarse`.
pub use std::*;
pub use std as real;

pub mod sync {
    pub use std::sync::*;

    /// One-OS-thread channels. An unbounded channel lets the explorer complete circuits before
    /// every receive; a bounded one (flow control) only when it is empty. A receive that nothing
    /// can ever satisfy is a deadlock and panics.
    pub mod mpsc {
        use std::collections::VecDeque;
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::{Arc, Mutex};
        pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};

        struct Q<T> {
            q: Mutex<VecDeque<T>>,
            senders: AtomicUsize,
            free: bool,
        }
        pub struct Receiver<T>(Arc<Q<T>>);
        pub struct Sender<T>(Arc<Q<T>>);
        pub struct SyncSender<T>(Arc<Q<T>>);

        macro_rules! sender {
            ($n:ident) => {
                impl<T> $n<T> {
                    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                        self.0.q.lock().unwrap().push_back(v);
                        Ok(())
                    }
                }
                impl<T> Clone for $n<T> {
                    fn clone(&self) -> Self {
                        self.0.senders.fetch_add(1, Ordering::SeqCst);
                        Self(self.0.clone())
                    }
                }
                impl<T> Drop for $n<T> {
                    fn drop(&mut self) {
                        self.0.senders.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            };
        }
        sender!(Sender);
        sender!(SyncSender);

        impl<T> Receiver<T> {
            fn pop(&self) -> Option<T> {
                self.0.q.lock().unwrap().pop_front()
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                if self.0.free {
                    rayon::mc::point(false);
                }
                self.pop().ok_or(TryRecvError::Empty)
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                if self.0.free {
                    let empty = self.0.q.lock().unwrap().is_empty();
                    rayon::mc::point(empty);
                }
                loop {
                    if let Some(v) = self.pop() {
                        return Ok(v);
                    }
                    let ran = if self.0.free { rayon::mc::point(true) } else { rayon::mc::step() };
                    if !ran && self.0.q.lock().unwrap().is_empty() {
                        panic!("deadlock: a receive that nothing can satisfy");
                    }
                }
            }
        }

        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let q = Arc::new(Q { q: Mutex::default(), senders: AtomicUsize::new(1), free: true });
            (Sender(q.clone()), Receiver(q))
        }
        pub fn sync_channel<T>(_n: usize) -> (SyncSender<T>, Receiver<T>) {
            let q = Arc::new(Q { q: Mutex::default(), senders: AtomicUsize::new(1), free: false });
            (SyncSender(q.clone()), Receiver(q))
        }
    }
}
