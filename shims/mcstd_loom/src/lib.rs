//! `std` with its synchronisation primitives replaced by loom's.
//!
//! A thread that repeats the same operation on the same atomic and keeps seeing the same value is
//! spinning: from the second repetition on it yields to the explorer (a failed
//! compare-exchange counts as the first repetition of itself), which is what makes spin
//! loops explorable. This changes scheduling only, never results.
pub use std::*;
pub use std as real;

mod stacks;

thread_local! {
    static TRACE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static LAST: std::cell::RefCell<std::collections::HashMap<String, (usize, &'static str, u64, u32)>> = Default::default();
    static WEAK_FAIL: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
    static PATIENCE: std::cell::Cell<u32> = const { std::cell::Cell::new(1) };
    static WEAK_SEEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Control and observation for the harness.
pub mod control {
    use super::*;
    pub fn start_execution() {
        TRACE.with(|t| t.borrow_mut().clear());
        LAST.with(|t| t.borrow_mut().clear());
        WEAK_SEEN.with(|t| t.set(0));
    }
    /// The n-th weak compare-exchange of every execution fails spuriously.
    pub fn fail_weak(n: Option<u32>) {
        WEAK_FAIL.with(|w| w.set(n));
    }
    /// Repetitions of an operation after which a thread counts as spinning.
    pub fn patience(n: u32) {
        PATIENCE.with(|p| p.set(n));
    }
    pub fn trace() -> Vec<String> {
        TRACE.with(|t| t.borrow().clone())
    }
    pub fn note(s: String) {
        TRACE.with(|t| t.borrow_mut().push(s));
    }
}

fn weak_fails() -> bool {
    let n = WEAK_SEEN.with(|w| { let n = w.get(); w.set(n + 1); n });
    WEAK_FAIL.with(|w| w.get()) == Some(n)
}

fn did(addr: usize, op: &'static str, val: u64) {
    let me = format!("{:?}", loom::thread::current().id());
    TRACE.with(|t| t.borrow_mut().push(format!("{me} {op} -> {val:#x}")));
    let rep = LAST.with(|l| {
        let mut l = l.borrow_mut();
        let e = l.entry(me).or_insert((0, "", 0, 0));
        if e.0 == addr && e.1 == op && e.2 == val { e.3 += 1 } else { *e = (addr, op, val, u32::from(op == "cas failed")) }
        e.3
    });
    if rep >= PATIENCE.with(|p| p.get()) && op != "store" {
        loom::thread::yield_now();
    }
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        loom::thread::yield_now();
    }
}

pub mod thread {
    pub use loom::thread::*;
}

pub mod sync {
    pub use std::sync::*;
    mod more;
    pub use more::{mpsc, once::OnceLock};
    pub use loom::sync::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};

    pub mod atomic {
        pub use std::sync::atomic::Ordering;
        pub use loom::sync::atomic::{fence, AtomicPtr};
        use crate::{did, weak_fails};

        macro_rules! common {
            ($name:ident, $t:ty) => {
                pub struct $name(loom::sync::atomic::$name);
                impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
                impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
                impl core::fmt::Debug for $name {
                    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{:?}", self.load(Ordering::Relaxed)) }
                }
                impl $name {
                    pub fn new(v: $t) -> Self { Self(loom::sync::atomic::$name::new(v)) }
                    fn a(&self) -> usize { self as *const _ as usize }
                    pub fn load(&self, o: Ordering) -> $t { let v = self.0.load(o); did(self.a(), "load", v as u64); v }
                    pub fn store(&self, v: $t, o: Ordering) { self.0.store(v, o); did(self.a(), "store", v as u64) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { let r = self.0.swap(v, o); did(self.a(), "swap", r as u64); r }
                    pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        let r = self.0.compare_exchange(c, n, s, f);
                        match r { Ok(v) => did(self.a(), "cas ok", v as u64), Err(v) => did(self.a(), "cas failed", v as u64) }
                        r
                    }
                    pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        if weak_fails() { return Err(self.load(f)); }
                        self.compare_exchange(c, n, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) { x @ Ok(_) => return x, Err(p) => prev = p }
                        }
                        Err(prev)
                    }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn get_mut(&mut self) -> &mut $t { unimplemented!() }
                }
            };
        }
        macro_rules! int {
            ($name:ident, $t:ty) => {
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_add(v, o); did(self.a(), "fetch_add", r as u64); r }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_sub(v, o); did(self.a(), "fetch_sub", r as u64); r }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_and(v, o); did(self.a(), "fetch_and", r as u64); r }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_or(v, o); did(self.a(), "fetch_or", r as u64); r }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_xor(v, o); did(self.a(), "fetch_xor", r as u64); r }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_max(v, o); did(self.a(), "fetch_max", r as u64); r }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { let r = self.0.fetch_min(v, o); did(self.a(), "fetch_min", r as u64); r }
                }
            };
        }
        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { let r = self.0.fetch_and(v, o); did(self.a(), "fetch_and", r as u64); r }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { let r = self.0.fetch_or(v, o); did(self.a(), "fetch_or", r as u64); r }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { let r = self.0.fetch_xor(v, o); did(self.a(), "fetch_xor", r as u64); r }
        }
        int!(AtomicUsize, usize);
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicIsize, isize);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
    }
}
