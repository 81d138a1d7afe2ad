//! C01: Spinlock under every interleaving.
use crate::explore::*;
use loom::sync::Arc;
use mc::{ensure, same, Ck, Cx};
use parasol_concurrency::Spinlock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// lock, read, write, drop
    L,
    /// try_lock; when it succeeds read, write, drop
    T,
    /// lock and, while holding, try_lock (must fail), then write, drop
    N,
    /// try_lock and keep locked
    K,
    /// try_lock and forget the guard
    F,
}
use Op::*;

fn hold(t: usize, g: &mut parasol_concurrency::SpinlockHandle<'_, Payload>) -> u64 {
    let v = g.read();
    log(t, Ev::Ex(v));
    g.write(v + 1);
    v + 1
}

fn perform(t: usize, op: Op, l: &Spinlock<Payload>) {
    match op {
        L => {
            let mut g = l.lock();
            let v = hold(t, &mut g);
            drop(g);
            log(t, Ev::ExEnd(v));
        }
        N => {
            let mut g = l.lock();
            let v = hold(t, &mut g);
            if l.try_lock().is_some() {
                panic!("try_lock succeeded while the same thread holds the lock");
            }
            log(t, Ev::ExNo);
            drop(g);
            log(t, Ev::ExEnd(v));
        }
        T => match l.try_lock() {
            Some(mut g) => {
                let v = hold(t, &mut g);
                drop(g);
                log(t, Ev::ExEnd(v));
            }
            None => log(t, Ev::ExNo),
        },
        K | F => match l.try_lock() {
            Some(mut g) => {
                hold(t, &mut g);
                if op == K { g.keep_locked() } else { std::mem::forget(g) }
            }
            None => log(t, Ev::ExNo),
        },
    }
}

fn run_program(p: Vec<Vec<Op>>, bound: Option<usize>, weak: Option<u32>, cx: &mut Cx) -> mc::R {
    let n = p.len();
    let p2 = p.clone();
    let st = model(
        n + 1,
        bound,
        weak,
        move || {
            let l = Arc::new(Spinlock::new(Payload::new(0)));
            let mut hs = vec![];
            for (t, ops) in p.iter().enumerate().skip(1) {
                let (l, ops) = (l.clone(), ops.clone());
                hs.push(spawn(move || {
                    for o in ops {
                        perform(t, o, &l);
                    }
                }));
            }
            for o in &p[0] {
                perform(0, *o, &l);
            }
            for h in hs {
                h.join().unwrap();
            }
            // everybody is done: the lock is free unless somebody kept it
            let kept = history().iter().any(|h| {
                h.iter().filter(|e| matches!(e, Ev::Ex(_))).count() > h.iter().filter(|e| matches!(e, Ev::ExEnd(_))).count()
            });
            for _ in 0..2 {
                match l.try_lock() {
                    Some(g) => {
                        if kept {
                            panic!("a lock that was kept locked was acquired");
                        }
                        log(n, Ev::Ex(g.read()));
                        let v = g.read();
                        drop(g);
                        log(n, Ev::ExEnd(v));
                    }
                    None => {
                        if !kept {
                            panic!("the lock is still held although every guard was dropped");
                        }
                    }
                }
            }
            if !kept {
                let g = l.lock();
                let v = g.read();
                log(n, Ev::Ex(v));
                drop(g);
                log(n, Ev::ExEnd(v));
            }
        },
        move |h| {
            let total: usize = h[..n].iter().flatten().filter(|e| matches!(e, Ev::Ex(_))).count();
            for e in &h[n] {
                if let Ev::Ex(v) = e {
                    if *v != total as u64 {
                        return Err(format!("the last holder sees {v} updates of {total}: {h:?}"));
                    }
                }
            }
            let l = p2.iter().flatten().filter(|o| matches!(o, L | N)).count();
            let got = h[..n].iter().flatten().filter(|e| matches!(e, Ev::ExEnd(_))).count();
            if got < l {
                return Err(format!("{got} completed sections of at least {l}: {h:?}"));
            }
            if !consistent(h, 0) {
                return Err(format!("no order of the operations explains the history {h:?}"));
            }
            Ok(())
        },
    )?;
    cx.evals += st.executions;
    cx.nt += st.contended;
    cx.sample(|| format!("{} executions, {} contended, {} distinct histories", st.executions, st.contended, st.outcomes));
    Ok(())
}

fn seqs(alpha: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![];
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for c in &cur {
            for a in alpha {
                let mut d = c.clone();
                d.push(*a);
                nx.push(d);
            }
        }
        out.extend(nx.clone());
        cur = nx;
    }
    out
}

pub fn run() -> ! {
    let ck = Ck::new("C01", "exploration",
        "every interleaving (and every weak-memory outcome loom models) of each thread program; programs: all pairs of 1-2 operation threads and all triples of 1-operation threads over {lock, try_lock, nested try_lock, keep_locked, forget}; one evaluation is one complete execution, non-trivial when an acquisition was contended; plus all single-thread operation sequences against a reference");
    ck.assume("loom's model of the C11 memory model (SeqCst treated as AcqRel, no load buffering)");
    ck.assume("the transformed copy differs from the source only in where atomics and thread primitives come from");
    let deep = ck.thorough;
    // two threads
    let len = ck.tier(2, 3);
    let s = seqs(&[L, T, N], len);
    let mut progs = vec![];
    for (i, a) in s.iter().enumerate() {
        for b in &s[i..] {
            progs.push(vec![a.clone(), b.clone()]);
        }
    }
    let ks = seqs(&[T, K, F], len);
    for a in &ks {
        for b in seqs(&[T], 2) {
            progs.push(vec![a.clone(), b.clone()]);
        }
        for b in &ks { progs.push(vec![a.clone(), b.clone()]); }
    }
    let bound = if deep { Some(5) } else { None };
    ck.par("two threads", &progs, |p| format!("{p:?}"), |p, cx| run_program(p.clone(), bound, None, cx));
    // three threads
    let mut progs = vec![];
    for a in [L, T, N] { for b in [L, T, N] { for c in [L, T, N] {
        // two threads spinning at once make loom unroll their spin loops against each other; those
        // programs are explored by the sequentially consistent explorer instead
        if [a, b, c].iter().filter(|o| **o != T).count() > 1 { continue; }
        progs.push(vec![vec![a], vec![b], vec![c]]);
        progs.push(vec![vec![a, T], vec![b], vec![c]]);
        if deep { progs.push(vec![vec![a, T], vec![b, T], vec![c]]); progs.push(vec![vec![T, a], vec![b], vec![c]]); progs.push(vec![vec![a, T, T], vec![b], vec![c]]); }
    } } }
    for a in [K, F] { for b in [T, K] { progs.push(vec![vec![a], vec![b], vec![T]]); } }
    let bound = ck.tier(Some(4), Some(5));
    ck.par("three threads", &progs, |p| format!("{p:?}"), |p, cx| run_program(p.clone(), bound, None, cx));
    // a spurious failure of a weak compare-exchange must not be visible
    let mut wk = vec![];
    for k in 0..6 { for p in [vec![vec![T, T]], vec![vec![T]], vec![vec![L, T]], vec![vec![L], vec![L]], vec![vec![N, T]]] { wk.push((k, p)); } }
    ck.par("spurious weak failures", &wk, |w| format!("{w:?}"), |(k, p), cx| {
        run_program(p.clone(), Some(3), Some(*k), cx)
    });
    // single-thread sequences on the unmodified crate
    let depth = ck.tier(8, 9);
    ck.case("operation sequences", format!("depth {depth}"), |cx| {
        // operations: 0 try_lock, 1 lock (only when free), 2 drop, 3 keep_locked, 4 write, 5 forget
        let mut path = vec![];
        fn all(path: &mut Vec<u8>, left: usize, cx: &mut Cx) -> mc::R {
            replay(path, cx)?;
            if left == 0 { return Ok(()); }
            for o in 0..6u8 {
                path.push(o);
                all(path, left - 1, cx)?;
                path.pop();
            }
            Ok(())
        }
        fn replay(path: &[u8], cx: &mut Cx) -> mc::R {
            let l = plain::Spinlock::new(0u64);
            let mut held: Option<plain::SpinlockHandle<'_, u64>> = None;
            let (mut locked, mut val) = (false, 0u64);
            for (i, o) in path.iter().enumerate() {
                match o {
                    0 => {
                        let g = l.try_lock();
                        ensure!(g.is_some() == !locked, "{path:?} step {i}: try_lock {} on a lock that is {}", g.is_some(), if locked { "held" } else { "free" });
                        if let Some(g) = g { ensure!(*g == val, "{path:?} step {i}: value {} expected {val}", *g); held = Some(g); locked = true; }
                    }
                    1 => if !locked { let g = l.lock(); ensure!(*g == val, "{path:?} step {i}: value"); held = Some(g); locked = true; },
                    2 => if held.take().is_some() { locked = false; },
                    3 => if let Some(g) = held.take() { g.keep_locked(); },
                    4 => if let Some(g) = &mut held { val += 1; **g = val; },
                    _ => if let Some(g) = held.take() { std::mem::forget(g); },
                }
            }
            cx.ev(!path.is_empty());
            Ok(())
        }
        all(&mut path, depth, cx)
    });
    ck.case("unwinding", "a panicking holder releases", |cx| {
        let l = plain::Spinlock::new(3u64);
        let r = mc::catch(|| { let mut g = l.lock(); *g = 9; panic!("x") });
        ensure!(r.is_err(), "no panic");
        let v = l.try_lock().map(|g| *g);
        same!(cx, v, Some(9), "lock after a panicking holder");
        Ok(())
    });
    ck.finish()
}
