//! Driving loom: every preemption-bounded execution of a scenario.
use mcstd::control;
use rayon::Order;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub type After = Box<dyn FnOnce(usize, usize) -> Result<bool, String>>;
pub struct Stats {
    pub executions: u64,
    /// Executions of the interesting kind, by the scenario's own account.
    pub marked: u64,
}

/// Explore every execution of `body`, which runs in a thread of its own beside `workers` pool threads.
/// It returns a check that runs after the workers have stopped (given the number of jobs they were
/// given and how many of them had one), and says whether the execution was of the interesting kind.
pub fn model(
    workers: usize,
    order: Order,
    preemptions: usize,
    body: impl Fn() -> Result<After, String> + Send + Sync + 'static,
) -> Result<Stats, String> {
    let n = Arc::new(AtomicU64::new(0));
    let marked = Arc::new(AtomicU64::new(0));
    let body = Arc::new(body);
    let (n2, m2) = (n.clone(), marked.clone());
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let r = mc::catch(|| {
            let mut b = loom::model::Builder::new();
            b.max_threads = workers + 2;
            b.max_branches = 50_000;
            b.preemption_bound = Some(preemptions);
            b.log = false;
            control::fail_weak(None);
            control::patience(1);
            b.check(move || {
                control::start_execution();
                n2.fetch_add(1, Relaxed);
                let body = body.clone();
                let m3 = m2.clone();
                loom::thread::Builder::new()
                    .stack_size((1 << 20) / 8)
                    .spawn(move || {
                        let w = rayon::mc::start(workers, order, 1 << 20);
                        let r = body();
                        let (jobs, busy) = w.finish();
                        match r.and_then(|f| f(jobs, busy)) {
                            Ok(x) => {
                                m3.fetch_add(x as u64, Relaxed);
                            }
                            Err(e) => panic!("{e}"),
                        }
                    })
                    .unwrap()
                    .join()
                    .unwrap();
            });
        });
        r.map_err(|e| format!("{e}\n  execution #{}:\n  {}", n.load(Relaxed), control::trace().join("\n  ")))
            .map(|_| n.load(Relaxed))
    });
    let executions = h.unwrap().join().map_err(|e| format!("explorer died: {}", mc::panic_msg(&*e)))??;
    Ok(Stats { executions, marked: marked.load(Relaxed) })
}
