//! C02: AtomicRefCell under every interleaving.
use crate::explore::*;
use loom::sync::Arc;
use mc::{ensure, same, Ck, Cx};
use parasol_concurrency::AtomicRefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// borrow, read, drop
    B,
    /// borrow_mut, read, write, drop
    M,
    /// two overlapping borrows, dropped in order of creation
    BB,
    /// while borrowed, ask for a mutable borrow (refused)
    BM,
    /// while mutably borrowed, ask for a borrow and a mutable borrow (both refused)
    MX,
    /// clone the cell and use the clone
    C,
}
use Op::*;

type Cell = AtomicRefCell<Payload>;

fn sh<'a>(t: usize, c: &'a Cell) -> Option<parasol_concurrency::Ref<'a, Payload>> {
    match mc::catch(|| c.borrow()) {
        Ok(r) => {
            let v = r.read();
            log(t, Ev::Sh(v));
            Some(r)
        }
        Err(_) => {
            log(t, Ev::ShNo);
            None
        }
    }
}
fn ex<'a>(t: usize, c: &'a Cell) -> Option<(parasol_concurrency::RefMut<'a, Payload>, u64)> {
    match mc::catch(|| c.borrow_mut()) {
        Ok(mut r) => {
            let v = r.read();
            log(t, Ev::Ex(v));
            r.write(v + 1);
            Some((r, v + 1))
        }
        Err(_) => {
            log(t, Ev::ExNo);
            None
        }
    }
}
fn end_sh(t: usize, r: parasol_concurrency::Ref<'_, Payload>) {
    drop(r);
    log(t, Ev::ShEnd);
}
fn end_ex(t: usize, r: (parasol_concurrency::RefMut<'_, Payload>, u64)) {
    let v = r.1;
    drop(r.0);
    log(t, Ev::ExEnd(v));
}

fn perform(t: usize, op: Op, c: &Cell) {
    match op {
        B => {
            if let Some(r) = sh(t, c) {
                end_sh(t, r)
            }
        }
        M => {
            if let Some(r) = ex(t, c) {
                end_ex(t, r)
            }
        }
        BB => {
            let a = sh(t, c);
            let b = sh(t, c);
            if let Some(a) = a {
                end_sh(t, a)
            }
            if let Some(b) = b {
                b.read();
                end_sh(t, b)
            }
        }
        BM => {
            if let Some(a) = sh(t, c) {
                if let Some(r) = ex(t, c) {
                    end_ex(t, r)
                }
                a.read();
                end_sh(t, a);
            }
        }
        MX => {
            if let Some(mut a) = ex(t, c) {
                if let Some(r) = sh(t, c) {
                    end_sh(t, r)
                }
                if let Some(r) = ex(t, c) {
                    end_ex(t, r)
                }
                let v = a.0.read();
                a.0.write(v);
                end_ex(t, a);
            }
        }
        C => match mc::catch(|| c.clone()) {
            Ok(d) => {
                let v = d.borrow().read();
                d.borrow_mut().write(v + 100);
                log(t, Ev::Sh(v));
                log(t, Ev::ShEnd);
            }
            Err(_) => log(t, Ev::ShNo),
        },
    }
}

fn run_program(p: Vec<Vec<Op>>, bound: Option<usize>, weak: Option<u32>, cx: &mut Cx) -> mc::R {
    let n = p.len();
    let st = model(
        n + 1,
        bound,
        weak,
        move || {
            let c = Arc::new(AtomicRefCell::new(Payload::new(0)));
            let mut hs = vec![];
            for (t, ops) in p.iter().enumerate().skip(1) {
                let (c, ops) = (c.clone(), ops.clone());
                hs.push(spawn(move || {
                    for o in ops {
                        perform(t, o, &c);
                    }
                }));
            }
            for o in &p[0] {
                perform(0, *o, &c);
            }
            for h in hs {
                h.join().unwrap();
            }
            // all borrows have ended: both modes must be available again
            for o in [BB, M, B, M] {
                perform(n, o, &c);
            }
        },
        move |h| {
            if h[n].iter().any(|e| matches!(e, Ev::ExNo | Ev::ShNo)) {
                return Err(format!("a borrow is refused although no borrow is in force: {h:?}"));
            }
            let total = h[..n].iter().flatten().filter(|e| matches!(e, Ev::Ex(_))).count() as u64;
            if h[n].first() != Some(&Ev::Sh(total)) {
                return Err(format!("{total} exclusive writes, but the value is {:?}: {h:?}", h[n].first()));
            }
            if !consistent(h, 0) {
                return Err(format!("no order of the operations explains the history {h:?}"));
            }
            Ok(())
        },
    )?;
    cx.evals += st.executions;
    cx.nt += st.contended;
    cx.sample(|| format!("{} executions, {} contended, {} distinct histories", st.executions, st.contended, st.outcomes));
    Ok(())
}

/// Single-thread sequences on the unmodified crate, against a reference.
fn sequence(path: &[u8], cx: &mut Cx) -> mc::R {
    let c = plain::AtomicRefCell::new(0u64);
    let mut sh: Vec<plain::Ref<'_, u64>> = vec![];
    let mut ex: Option<plain::RefMut<'_, u64>> = None;
    let (mut nsh, mut isex, mut val) = (0, false, 0u64);
    for (i, o) in path.iter().enumerate() {
        match o {
            0 => {
                let r = mc::catch(|| c.borrow());
                ensure!(r.is_ok() != isex, "{path:?} step {i}: borrow {}", if isex { "granted during a mutable borrow" } else { "refused" });
                if let Ok(r) = r { ensure!(*r == val, "{path:?} step {i}: read {} expected {val}", *r); sh.push(r); nsh += 1; }
            }
            1 => {
                let free = !isex && nsh == 0;
                let r = mc::catch(|| c.borrow_mut());
                ensure!(r.is_ok() == free, "{path:?} step {i}: borrow_mut {} with {nsh} borrows, mutable: {isex}", if free { "refused" } else { "granted" });
                if let Ok(mut r) = r { ensure!(*r == val, "{path:?} step {i}: read {} expected {val}", *r); val += 1; *r = val; ex = Some(r); isex = true; }
            }
            2 => if !sh.is_empty() { sh.remove(0); nsh -= 1; },
            3 => if sh.pop().is_some() { nsh -= 1; },
            4 => if ex.take().is_some() { isex = false; },
            5 => if let Some(r) = sh.pop() { std::mem::forget(r); },
            _ => {
                let d = mc::catch(|| c.clone());
                ensure!(d.is_ok() != isex, "{path:?} step {i}: clone");
                if let Ok(d) = d {
                    ensure!(*d.borrow() == val, "{path:?} step {i}: clone holds {}", *d.borrow());
                    *d.borrow_mut() = 99;
                    ensure!(*d.borrow() == 99, "{path:?} step {i}: clone is not usable");
                    let b = bincode::serialize(&c).map_err(|e| e.to_string())?;
                    ensure!(b == bincode::serialize(&val).unwrap(), "{path:?} step {i}: serialised form");
                    let e: plain::AtomicRefCell<u64> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                    ensure!(*e.borrow() == val, "{path:?} step {i}: deserialised value");
                    *e.borrow_mut() = 7;
                }
            }
        }
    }
    cx.ev(!path.is_empty());
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("C02", "exploration",
        "every interleaving (and every weak-memory outcome loom models) of each thread program; programs: all pairs of 1-2 operation threads and triples of 1-operation threads over {borrow, borrow_mut, overlapping borrows, refused borrows in both modes, clone}; one evaluation is one complete execution, non-trivial when a borrow was refused or retried; plus all single-thread operation sequences against a reference");
    ck.assume("loom's model of the C11 memory model (SeqCst treated as AcqRel, no load buffering)");
    ck.assume("the transformed copy differs from the source only in where atomics come from");
    let deep = ck.thorough;
    let all = [B, M, BB, BM, MX, C];
    let mut s: Vec<Vec<Op>> = all.iter().map(|o| vec![*o]).collect();
    let two: Vec<Vec<Op>> = all.iter().flat_map(|a| all.iter().map(move |b| vec![*a, *b])).collect();
    
    s.extend(two);
    let mut progs = vec![];
    for (i, a) in s.iter().enumerate() {
        for b in &s[i..] {
            progs.push(vec![a.clone(), b.clone()]);
        }
    }
    let bound = if deep { Some(6) } else { Some(4) };
    ck.par("two threads", &progs, |p| format!("{p:?}"), |p, cx| run_program(p.clone(), bound, None, cx));
    let mut progs = vec![];
    let trio = if deep { vec![B, M, BB, MX, C] } else { vec![B, M, BB, C] };
    for a in &trio { for b in &trio { for c in &trio { progs.push(vec![vec![*a], vec![*b], vec![*c]]); } } }
    let bound = ck.tier(Some(3), Some(4));
    ck.par("three threads", &progs, |p| format!("{p:?}"), |p, cx| run_program(p.clone(), bound, None, cx));
    let mut wk = vec![];
    for k in 0..6 { for p in [vec![vec![B, M]], vec![vec![M, B]], vec![vec![BB]], vec![vec![M, M]], vec![vec![MX]], vec![vec![M], vec![B]]] { wk.push((k, p)); } }
    ck.par("spurious weak failures", &wk, |w| format!("{w:?}"), |(k, p), cx| run_program(p.clone(), Some(3), Some(*k), cx));
    let depth = ck.tier(7, 8);
    let heads: Vec<[u8; 2]> = (0..7u8).flat_map(|a| (0..7u8).map(move |b| [a, b])).collect();
    ck.par("operation sequences", &heads, |h| format!("{h:?}.. depth {depth}"), |h, cx| {
        fn all(path: &mut Vec<u8>, left: usize, cx: &mut Cx) -> mc::R {
            sequence(path, cx)?;
            if left == 0 { return Ok(()); }
            for o in 0..7u8 {
                path.push(o);
                all(path, left - 1, cx)?;
                path.pop();
            }
            Ok(())
        }
        all(&mut h.to_vec(), depth - 2, cx)
    });
    ck.case("many borrows", "4096 shared", |cx| {
        let c = plain::AtomicRefCell::new(5u64);
        let v: Vec<_> = (0..4096).map(|_| c.borrow()).collect();
        same!(cx, mc::must_panic(|| c.borrow_mut()), true, "borrow_mut with 4096 borrows");
        drop(v);
        same!(cx, *c.borrow_mut(), 5, "borrow_mut after 4096 borrows ended");
        Ok(())
    });
    ck.finish()
}
