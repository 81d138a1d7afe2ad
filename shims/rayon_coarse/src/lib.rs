//! A thread pool without threads. Jobs are queued; the explorer decides when they run.
//!
//! The code under test runs on one OS thread. A job belongs to a *circuit*: the circuit of the job
//! that spawned it or, when the main thread spawned it, the one the main thread is working on
//! since its last scheduling point. At every scheduling point (a look at a channel, see `mcstd`)
//! the explorer is offered the circuits that have jobs left and completes those it picks.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::Arc;

type Job = Box<dyn FnOnce() + Send>;

#[derive(Default)]
struct State {
    jobs: VecDeque<(u64, Job)>,
    epoch: u64,
    running: Option<u64>,
    done: u64,
}

thread_local! {
    static S: RefCell<State> = RefCell::default();
    static PICK: RefCell<Option<Box<dyn FnMut(usize, bool) -> usize>>> = const { RefCell::new(None) };
}

fn push(j: Job) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let g = s.running.unwrap_or(s.epoch);
        s.jobs.push_back((g, j));
    });
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    push(Box::new(f));
}

pub struct ThreadPool(());
impl ThreadPool {
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        push(Box::new(f));
    }
    pub fn current_num_threads(&self) -> usize {
        1
    }
}
impl std::fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ThreadPool")
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
}

/// Control for the harness and the channel shim.
pub mod mc {
    use super::*;

    /// Forget every queued job.
    pub fn reset() {
        let old = S.with(|s| std::mem::take(&mut *s.borrow_mut()));
        drop(old);
    }
    /// `pick(n, must)` is asked at every scheduling point with `n` unfinished circuits; it returns the
    /// circuit to complete, or `n` to go on (not allowed when `must`). Without a picker everything
    /// is completed at once.
    pub fn set_picker(f: Option<Box<dyn FnMut(usize, bool) -> usize>>) {
        PICK.with(|p| *p.borrow_mut() = f);
    }
    /// Circuits with jobs left, oldest first.
    pub fn pending() -> Vec<u64> {
        S.with(|s| {
            let s = s.borrow();
            let mut v: Vec<u64> = s.jobs.iter().map(|j| j.0).collect();
            v.sort();
            v.dedup();
            v
        })
    }
    /// Circuits completed so far.
    pub fn completed() -> u64 {
        S.with(|s| s.borrow().done)
    }
    fn complete(g: u64) {
        while let Some(j) = S.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.jobs.iter().position(|j| j.0 == g)?;
            s.jobs.remove(i)
        }) {
            S.with(|s| s.borrow_mut().running = Some(g));
            (j.1)();
            S.with(|s| s.borrow_mut().running = None);
        }
        S.with(|s| s.borrow_mut().done += 1);
    }
    /// A scheduling point of the main thread. `must`: it cannot go on before something completes.
    /// Returns whether anything ran.
    pub fn point(must: bool) -> bool {
        if S.with(|s| s.borrow().running.is_some()) {
            return false;
        }
        S.with(|s| s.borrow_mut().epoch += 1);
        let mut ran = false;
        loop {
            let p = pending();
            if p.is_empty() {
                return ran;
            }
            let c = PICK.with(|f| match &mut *f.borrow_mut() {
                Some(f) => f(p.len(), must && !ran),
                None => 0,
            });
            if c >= p.len() {
                return ran;
            }
            complete(p[c]);
            ran = true;
        }
    }
    /// Run the oldest job, for a main thread stuck in the middle of issuing a circuit.
    pub fn step() -> bool {
        let j = S.with(|s| s.borrow_mut().jobs.pop_front());
        match j {
            Some((g, j)) => {
                S.with(|s| s.borrow_mut().running = Some(g));
                j();
                S.with(|s| s.borrow_mut().running = None);
                true
            }
            None => false,
        }
    }
}

/// Keep `Arc` in the interface the way rayon's users spell it.
pub type SharedPool = Arc<ThreadPool>;
