//! Driving loom, and judging histories.
use mcstd::control;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// The protected value: loom reports any access that is not ordered by happens-before.
pub struct Payload(loom::cell::UnsafeCell<u64>);
impl Payload {
    pub fn new(v: u64) -> Self {
        Payload(loom::cell::UnsafeCell::new(v))
    }
    pub fn read(&self) -> u64 {
        self.0.with(|p| unsafe { *p })
    }
    pub fn write(&mut self, v: u64) {
        self.0.with_mut(|p| unsafe { *p = v })
    }
}
impl Clone for Payload {
    fn clone(&self) -> Self {
        Payload::new(self.read())
    }
}
unsafe impl Sync for Payload {}
unsafe impl Send for Payload {}

/// One observed step of one thread.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ev {
    /// Exclusive acquisition that succeeded, and the value seen under it.
    Ex(u64),
    /// Exclusive acquisition refused.
    ExNo,
    /// Exclusive release, and the value left.
    ExEnd(u64),
    /// Shared acquisition that succeeded, and the value seen.
    Sh(u64),
    ShNo,
    ShEnd,
}

/// Is there an interleaving of the threads' histories that the reference cell allows?
/// (program order per thread; the reference is: n readers or one writer, and a value)
pub fn consistent(h: &[Vec<Ev>], init: u64) -> bool {
    fn go(h: &[Vec<Ev>], pos: &mut Vec<usize>, sh: u32, ex: bool, val: u64, seen: &mut HashSet<(Vec<usize>, u32, bool, u64)>) -> bool {
        if pos.iter().zip(h).all(|(p, t)| *p == t.len()) {
            return true;
        }
        if !seen.insert((pos.clone(), sh, ex, val)) {
            return false;
        }
        for t in 0..h.len() {
            if pos[t] == h[t].len() {
                continue;
            }
            let nx = match h[t][pos[t]] {
                Ev::Ex(v) if !ex && sh == 0 && v == val => (sh, true, val),
                Ev::ExNo if ex || sh > 0 => (sh, ex, val),
                Ev::ExEnd(v) if ex => (sh, false, v),
                Ev::Sh(v) if !ex && v == val => (sh + 1, false, val),
                Ev::ShNo if ex => (sh, ex, val),
                Ev::ShEnd if sh > 0 => (sh - 1, ex, val),
                _ => continue,
            };
            pos[t] += 1;
            let r = go(h, pos, nx.0, nx.1, nx.2, seen);
            pos[t] -= 1;
            if r {
                return true;
            }
        }
        false
    }
    go(h, &mut vec![0; h.len()], 0, false, init, &mut HashSet::new())
}

thread_local! {
    static HIST: RefCell<Vec<Vec<Ev>>> = const { RefCell::new(Vec::new()) };
}
pub fn log(t: usize, e: Ev) {
    control::note(format!("    thread {t}: {e:?}"));
    HIST.with(|h| h.borrow_mut()[t].push(e));
}
pub fn history() -> Vec<Vec<Ev>> {
    HIST.with(|h| h.borrow().clone())
}

pub struct Stats {
    pub executions: u64,
    /// Executions in which an acquisition was refused or repeated.
    pub contended: u64,
    pub outcomes: usize,
}

/// Explore every execution of `body` (run as loom's main thread) and judge each with `judge`.
/// Runs on a thread of its own so that a failed model leaves nothing behind.
pub fn model(
    threads: usize,
    preemptions: Option<usize>,
    weak_fail: Option<u32>,
    body: impl Fn() + Send + Sync + 'static,
    judge: impl Fn(&[Vec<Ev>]) -> Result<(), String> + Send + Sync + 'static,
) -> Result<Stats, String> {
    let n = Arc::new(AtomicU64::new(0));
    let cont = Arc::new(AtomicU64::new(0));
    let outcomes: Arc<Mutex<BTreeSet<Vec<Vec<Ev>>>>> = Default::default();
    let (n2, c2, o2) = (n.clone(), cont.clone(), outcomes.clone());
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let r = mc::catch(|| {
            let mut b = loom::model::Builder::new();
            b.max_threads = 5.max(threads + 1).min(5);
            b.max_branches = 20_000;
            b.preemption_bound = preemptions;
            b.log = false;
            control::fail_weak(weak_fail);
            control::patience(if threads > 3 { 1 } else { 2 });
            b.check(move || {
                control::start_execution();
                HIST.with(|h| *h.borrow_mut() = vec![vec![]; threads]);
                n2.fetch_add(1, Relaxed);
                body();
                let h = history();
                if h.iter().flatten().any(|e| matches!(e, Ev::ExNo | Ev::ShNo))
                    || control::trace().iter().any(|t| t.contains("cas failed")) {
                    c2.fetch_add(1, Relaxed);
                }
                if let Err(e) = judge(&h) {
                    panic!("{e}");
                }
                let mut o = o2.lock().unwrap();
                if o.len() < 10_000 {
                    o.insert(h);
                }
            });
        });
        r.map_err(|e| format!("{e}\n  execution #{}:\n  {}", n.load(Relaxed), control::trace().join("\n  ")))
            .map(|_| n.load(Relaxed))
    });
    let executions = h.unwrap().join().map_err(|e| format!("explorer died: {}", mc::panic_msg(&*e)))??;
    let k = outcomes.lock().unwrap().len();
    Ok(Stats { executions, contended: cont.load(Relaxed), outcomes: k })
}

pub fn spawn(f: impl FnOnce() + Send + 'static) -> loom::thread::JoinHandle<()> {
    loom::thread::Builder::new().stack_size(0x4000).spawn(f).unwrap()
}
