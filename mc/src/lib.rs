//! Small exhaustive-exploration runtime shared by all harnesses.
//!
//! A check is a list of *groups*; a group is a list of *cases*; a case enumerates a finite
//! space completely and counts what it did through its `Cx`. Panics inside a case are caught and
//! reported as violations of the case (cases that expect a panic use `must_panic`). A watchdog
//! reports a case that makes no progress.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod choose;

/// Per-case counters.
#[derive(Default, Clone)]
pub struct Cx {
    /// Property evaluations (oracle comparisons, or complete executions).
    pub evals: u64,
    /// Evaluations that were distinct and non-trivial by the check's rule.
    pub nt: u64,
    /// Model states visited.
    pub states: u64,
    /// Transitions taken.
    pub transitions: u64,
    /// Model traces replayed against the implementation.
    pub traces: u64,
    sample: Option<String>,
}

impl Cx {
    #[inline(always)]
    pub fn ev(&mut self, nontrivial: bool) {
        self.evals += 1;
        self.nt += nontrivial as u64;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn add(&mut self, o: &Cx) {
        self.evals += o.evals;
        self.nt += o.nt;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        if self.sample.is_none() {
            self.sample = o.sample.clone();
        }
    }
}

pub type R = Result<(), String>;

/// `ensure!(cond, "fmt", args)`: early-return an error description from a case.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// `same!(cx, got, want, "fmt", args)`: count one evaluation and compare.
#[macro_export]
macro_rules! same {
    ($cx:expr, $got:expr, $want:expr, $($t:tt)*) => {{
        $cx.ev(true);
        let (g, w) = (&$got, &$want);
        if g != w { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), g, w)); }
    }};
}

struct Running {
    since: Instant,
    label: String,
}

struct GroupStat {
    cx: Cx,
    cases: u64,
    secs: f64,
}

pub struct Ck {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    level: &'static str,
    rule: String,
    dir: PathBuf,
    only: Option<String>,
    group_only: Option<String>,
    start: Instant,
    groups: Mutex<BTreeMap<String, GroupStat>>,
    viol: Mutex<Vec<(String, String)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    assumptions: Mutex<Vec<String>>,
    running: Mutex<BTreeMap<usize, Running>>,
    case_limit: AtomicUsize,
    stop: AtomicBool,
    exhaustive: AtomicBool,
    wrap: fn(&mut dyn FnMut()),
}

thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_msg(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

/// Install a hook that keeps expected panics off stderr but remembers where they came from.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if DEPTH.try_with(|d| d.get()).unwrap_or(0) == 0 {
            eprintln!("panic outside a case: {i}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = loc);
    }));
}

pub fn last_panic_location() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, returning its value or the panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|e| panic_msg(&*e))
}

fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

/// True if `f` panics.
pub fn must_panic<T>(f: impl FnOnce() -> T) -> bool {
    catch(f).is_err()
}

fn no_wrap(f: &mut dyn FnMut()) {
    f()
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ck {
    /// `level`: exploration | model_checking. `rule`: how cases are made and what is non-trivial.
    pub fn new(id: &str, level: &'static str, rule: &str) -> Self {
        quiet_panics();
        let dir = PathBuf::from(std::env::var("MC_VERIF").unwrap_or("/verif".into()));
        let mut known = vec![];
        // "known<TAB>property<TAB>group::label<TAB>what fails" lines; everything else is ignored.
        if let Ok(s) = std::fs::read_to_string(dir.join("known_findings.txt")) {
            for l in s.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() >= 4 && f[0] == "known" && f[1] == id {
                    known.push((f[2].to_string(), f[3].to_string()));
                }
            }
        }
        Ck {
            id: id.into(),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level,
            rule: rule.into(),
            dir,
            only: std::env::var("MC_ONLY").ok(),
            group_only: std::env::var("MC_GROUP").ok(),
            start: Instant::now(),
            groups: Default::default(),
            viol: Default::default(),
            known_hit: Default::default(),
            known,
            assumptions: Default::default(),
            running: Default::default(),
            case_limit: AtomicUsize::new(150),
            stop: AtomicBool::new(false),
            exhaustive: AtomicBool::new(true),
            wrap: no_wrap,
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::SeqCst);
    }
    /// Wrapper each worker thread runs its work in (e.g. a private rayon pool).
    pub fn set_wrap(&mut self, w: fn(&mut dyn FnMut())) {
        self.wrap = w;
    }
    /// Seconds without finishing a case after which that case is reported as a hang.
    pub fn set_case_limit(&self, s: usize) {
        self.case_limit.store(s, Ordering::SeqCst);
    }
    /// quick or thorough bound.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    fn violation(&self, key: &str, detail: &str) {
        for (k, what) in &self.known {
            if k == key {
                self.known_hit.lock().unwrap().insert(key.into(), what.clone());
                return;
            }
        }
        let mut v = self.viol.lock().unwrap();
        v.push((key.into(), detail.into()));
        if v.len() >= 12 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    fn run_one(&self, slot: usize, group: &str, label: &str, f: impl FnOnce(&mut Cx) -> R) {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let key = format!("{group}::{label}");
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        self.running
            .lock()
            .unwrap()
            .insert(slot, Running { since: Instant::now(), label: key.clone() });
        let t0 = Instant::now();
        let mut cx = Cx::default();
        let r = guarded(|| f(&mut cx));
        self.running.lock().unwrap().remove(&slot);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(d)) => self.violation(&key, &d),
            Err(e) => self.violation(
                &key,
                &format!("unexpected panic: {} at {}", panic_msg(&*e), last_panic_location()),
            ),
        }
        if cx.sample.is_none() {
            cx.sample = Some(key.clone());
        }
        let mut g = self.groups.lock().unwrap();
        let e = g.entry(group.into()).or_insert(GroupStat { cx: Cx::default(), cases: 0, secs: 0. });
        e.cx.add(&cx);
        e.cases += 1;
        e.secs += t0.elapsed().as_secs_f64();
    }

    fn skip_group(&self, group: &str) -> bool {
        if let Some(g) = &self.group_only {
            if !group.starts_with(g.as_str()) {
                return true;
            }
        }
        if let Some(o) = &self.only {
            if !o.starts_with(&format!("{group}::")) {
                return true;
            }
        }
        false
    }

    /// One sequential case.
    pub fn case(&self, group: &str, label: impl Into<String>, f: impl FnOnce(&mut Cx) -> R) {
        if self.skip_group(group) {
            return;
        }
        let label = label.into();
        std::thread::scope(|s| {
            self.watch(s, |done| {
                let mut f = Some(f);
                (self.wrap)(&mut || {
                    if let Some(f) = f.take() {
                        self.run_one(usize::MAX, group, &label, f)
                    }
                });
                done.store(true, Ordering::SeqCst);
            })
        });
    }

    fn watch<'s>(
        &'s self,
        s: &'s std::thread::Scope<'s, '_>,
        body: impl FnOnce(&AtomicBool),
    ) {
        let done = std::sync::Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let h = s.spawn(move || {
            while !d2.load(Ordering::SeqCst) {
                std::thread::park_timeout(Duration::from_millis(500));
                let lim = self.case_limit.load(Ordering::SeqCst) as u64;
                let hung = {
                    let r = self.running.lock().unwrap();
                    r.values().find(|r| r.since.elapsed().as_secs() >= lim).map(|r| r.label.clone())
                };
                if let Some(l) = hung {
                    if !d2.load(Ordering::SeqCst) {
                        self.violation(&l, &format!("no progress: case still running after {lim} s"));
                        std::process::exit(self.report());
                    }
                }
            }
        });
        let t = h.thread().clone();
        body(&done);
        done.store(true, Ordering::SeqCst);
        t.unpark();
    }

    /// Run one case per item on all cores. Order of reporting is by item.
    pub fn par<T: Sync>(
        &self,
        group: &str,
        items: &[T],
        label: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T, &mut Cx) -> R + Sync,
    ) {
        if self.skip_group(group) {
            return;
        }
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(items.len().max(1));
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            self.watch(s, |_| {
                std::thread::scope(|s2| {
                    for slot in 0..n {
                        let (next, label, f) = (&next, &label, &f);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s2, move || {
                                (self.wrap)(&mut || loop {
                                    let i = next.fetch_add(1, Ordering::SeqCst);
                                    if i >= items.len() {
                                        break;
                                    }
                                    self.run_one(slot, group, &label(&items[i]), |cx| f(&items[i], cx));
                                })
                            })
                            .unwrap();
                    }
                });
            })
        });
    }

    fn report(&self) -> i32 {
        let g = self.groups.lock().unwrap();
        let mut tot = Cx::default();
        for v in g.values() {
            tot.add(&v.cx);
        }
        let viol = self.viol.lock().unwrap();
        let out = std::io::stdout();
        let mut o = out.lock();
        for (k, v) in g.iter() {
            let _ = writeln!(
                o,
                "  {:<44} cases {:>6}  evaluations {:>10}  states {:>9}  transitions {:>9}  {:.1}s",
                k, v.cases, v.cx.evals, v.cx.states, v.cx.transitions, v.secs
            );
        }
        for (k, w) in self.known_hit.lock().unwrap().iter() {
            let _ = writeln!(o, "KNOWN-FINDING: property={} {} [{}]", self.id, w, k);
        }
        let rdir = self.dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (k, d)) in viol.iter().enumerate() {
            let p = rdir.join(format!("{}-{}.txt", self.id, i));
            let _ = std::fs::write(
                &p,
                format!(
                    "property {}\ncase {}\nobserved {}\nreplay: cd {} && MC_ONLY='{}' ./check {}\n",
                    self.id, k, d, self.dir.display(), k, self.id
                ),
            );
            let mut d = d.clone();
            if d.len() > 1500 {
                d = d.chars().take(1500).collect();
            }
            let _ = writeln!(o, "case {k}: {d}");
            let _ = writeln!(o, "VIOLATION property={} replay={}", self.id, p.display());
        }
        // evidence
        let mut cov = vec![];
        cov.push(format!("\"evaluations\": {}", tot.evals));
        cov.push(format!("\"distinct_nontrivial\": {}", tot.nt));
        if self.level == "model_checking" || tot.states > 0 {
            cov.push(format!("\"states\": {}", tot.states));
            cov.push(format!("\"transitions\": {}", tot.transitions));
            cov.push(format!("\"traces_validated_against_impl\": {}", tot.traces));
        }
        cov.push(format!("\"rule\": {}", esc(&self.rule)));
        let samples: Vec<String> =
            g.iter().filter_map(|(k, v)| v.cx.sample.as_ref().map(|s| esc(&format!("{k}: {s}")))).collect();
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        cov.push(format!("\"exhaustive\": {}", self.exhaustive.load(Ordering::SeqCst) && viol.is_empty()));
        let groups: Vec<String> = g
            .iter()
            .map(|(k, v)| {
                format!(
                    "{}: {{\"cases\": {}, \"evaluations\": {}, \"states\": {}, \"transitions\": {}}}",
                    esc(k), v.cases, v.cx.evals, v.cx.states, v.cx.transitions
                )
            })
            .collect();
        cov.push(format!("\"groups\": {{{}}}", groups.join(", ")));
        let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| esc(s)).collect();
        let ev = format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            esc(&self.id),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.level,
            cov.join(", "),
            ass.join(", "),
            self.start.elapsed().as_secs_f64(),
            viol.len()
        );
        if self.only.is_none() && self.group_only.is_none() {
            let _ = std::fs::create_dir_all(self.dir.join("evidence"));
            let _ = std::fs::write(self.dir.join("evidence").join(format!("{}.json", self.id)), ev);
        }
        let _ = writeln!(
            o,
            "{}: {} groups, {} evaluations, {} violations, {:.1}s",
            self.id, g.len(), tot.evals, viol.len(), self.start.elapsed().as_secs_f64()
        );
        let _ = o.flush();
        (!viol.is_empty()) as i32
    }

    /// Write evidence, print the verdict and exit.
    pub fn finish(self) -> ! {
        std::process::exit(self.report())
    }
}
