//! A thread pool of loom threads with rayon's `spawn` interface. Jobs are taken by any idle worker
//! in the order given (rayon promises none; both orders are explored).
use loom::sync::{Condvar, Mutex};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::Arc;

type Job = Box<dyn FnOnce() + Send>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Fifo,
    Lifo,
}

struct Inner {
    q: Mutex<(VecDeque<Job>, bool)>,
    cv: Condvar,
    order: Order,
    spawned: std::sync::atomic::AtomicUsize,
    /// Workers that ran a job.
    busy: std::sync::atomic::AtomicUsize,
}

pub struct ThreadPool {
    i: Arc<Inner>,
    threads: usize,
}

impl std::fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ThreadPool({})", self.threads)
    }
}

impl ThreadPool {
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.i.spawned.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.i.q.lock().unwrap().0.push_back(Box::new(f));
        self.i.cv.notify_one();
    }
    pub fn current_num_threads(&self) -> usize {
        self.threads
    }
}

thread_local! {
    // Every thread of a loom model runs on one OS thread.
    static GLOBAL: RefCell<Option<Arc<ThreadPool>>> = const { RefCell::new(None) };
}

/// Control for the harness.
pub mod mc {
    use super::*;
    pub struct Workers {
        pub pool: Arc<ThreadPool>,
        handles: Vec<loom::thread::JoinHandle<()>>,
    }
    /// The pool of the running model.
    pub fn global() -> Arc<ThreadPool> {
        GLOBAL.with(|g| g.borrow().clone()).expect("no pool in this model")
    }
    /// Start a pool; it becomes the global one.
    pub fn start(threads: usize, order: Order, stack: usize) -> Workers {
        let i = Arc::new(Inner {
            q: Mutex::new((VecDeque::new(), false)),
            cv: Condvar::new(),
            order,
            spawned: Default::default(),
            busy: Default::default(),
        });
        let handles = (0..threads)
            .map(|_| {
                let i = i.clone();
                loom::thread::Builder::new().stack_size(stack / 8).spawn(move || work(&i)).unwrap()
            })
            .collect();
        let pool = Arc::new(ThreadPool { i, threads });
        GLOBAL.with(|g| *g.borrow_mut() = Some(pool.clone()));
        Workers { pool, handles }
    }
    impl Workers {
        /// Let the workers finish what is queued, then stop them. Returns how many jobs there were
        /// and how many workers had one.
        pub fn finish(self) -> (usize, usize) {
            self.pool.i.q.lock().unwrap().1 = true;
            self.pool.i.cv.notify_all();
            for h in self.handles {
                h.join().unwrap();
            }
            GLOBAL.with(|g| *g.borrow_mut() = None);
            let get = |x: &std::sync::atomic::AtomicUsize| x.load(std::sync::atomic::Ordering::Relaxed);
            (get(&self.pool.i.spawned), get(&self.pool.i.busy))
        }
    }
    fn work(i: &Inner) {
        let mut first = true;
        loop {
            let mut g = i.q.lock().unwrap();
            let job = loop {
                let j = match i.order {
                    Order::Fifo => g.0.pop_front(),
                    Order::Lifo => g.0.pop_back(),
                };
                match j {
                    Some(j) => break j,
                    None if g.1 => return,
                    None => g = i.cv.wait(g).unwrap(),
                }
            };
            drop(g);
            if std::mem::take(&mut first) {
                i.busy.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            job();
        }
    }
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let p = GLOBAL.with(|g| g.borrow().clone()).expect("no pool in this model");
    p.spawn(f)
}

#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no pool in this model")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Err(ThreadPoolBuildError)
    }
}
