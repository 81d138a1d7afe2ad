//! C04 and P05: whole programs on the real out-of-order processor under every order in which the
//! encrypted operations can complete relative to the dispatcher, against the sequential reference.
use crate::isa::*;
use crate::rig::*;
use mc::choose::Chooser;
use mc::*;
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

thread_local! {
    static CH: RefCell<Chooser> = RefCell::new(Chooser::new());
    static TAIL: Cell<bool> = const { Cell::new(false) };
}

const T0: usize = 20; // encrypted byte
const T1: usize = 21; // plain byte
const T2: usize = 22; // encrypted byte
const C: usize = 23; // encrypted bit
const X1: usize = 24; // pointer to the data
const ONE: usize = 25;
const WINDOW: usize = 0x30;

type Body = Vec<IsaOp>;

/// Instructions whose hazards are explored; the first `ck.tier(..)` of them in the deepest programs.
fn alphabet() -> Vec<IsaOp> {
    use IsaOp::*;
    let (t0, t1, t2, c, p, one) = (x(T0), x(T1), x(T2), x(C), x(X1), x(ONE));
    vec![
        Xor(t0, t0, t2),
        Store(p, t0, 8, 0),
        Load(t2, p, 8, 0),
        BranchNonZero(t1, 16),
        Move(t1, t0),
        Cmux(t0, c, t0, t2),
        LoadI(t0, 0x77, 8),
        CmpEq(c, t0, t2),
        Load(p, p, 32, 4),
        Store(p, t1, 8, 0),
        Load(t1, p, 8, 0),
        Xor(t2, t0, t1),
        Store(p, p, 32, 4),
        Load(t0, p, 16, 0),
        // from here on only in the shorter programs
        Move(t0, t2),
        Move(t2, t1),
        Xor(t1, t0, t0),
        Store(p, t2, 8, 1),
        Store(p, t0, 16, 0),
        BranchZero(t1, 16),
        BranchNonZero(c, 16),
        AddC(t0, c, t0, t2, c),
        AddC(t0, t0, t0, t2, c),
        Cmux(c, c, c, c),
        Sub(t1, t1, one),
        Load(t0, p, 16, 1),
        Load(t2, t1, 8, 0),
        Branch(16),
        Ret(),
        Not(c, c),
        Shl(t0, t0, t1),
        Trunc(t1, t2, 8),
    ]
}

fn prelude(data: u32) -> Vec<IsaOp> {
    use IsaOp::*;
    vec![
        LoadI(x(X1), data, 32),
        Load(x(T0), x(X1), 8, 0),
        Load(x(T2), x(X1), 8, 1),
        Load(x(T1), x(X1), 8, 2),
        Trunc(x(C), x(T0), 1),
        LoadI(x(ONE), 1, 8),
    ]
}

/// The whole program: a second instruction after the body so that it can be skipped into, then a
/// mark, then reports of every register.
fn whole(data: u32, body: &[IsaOp], readout: bool) -> Vec<IsaOp> {
    let mut v = prelude(data);
    v.extend_from_slice(body);
    v.push(IsaOp::Move(x(40), x(40)));
    if readout {
        v.push(IsaOp::Dbg(x(40), 7));
        v.extend([T0, T1, T2, C, X1].iter().enumerate().map(|(i, r)| IsaOp::Dbg(x(*r), i as u32)));
    }
    v.push(IsaOp::Ret());
    v
}

/// What the data page holds when a program starts.
fn initial(data: u32) -> Vec<B> {
    let mut v: Vec<B> = (0..WINDOW).map(|i| B::P(0x40 + i as u8)).collect();
    for (at, to) in [(0x4, 0x10), (0x14, 0x20), (0x24, 0)] {
        for (i, b) in (data + to).to_le_bytes().iter().enumerate() {
            v[at + i] = B::P(*b);
        }
    }
    v[0] = B::C(0x35);
    v[1] = B::C(0x0e);
    v[2] = B::P(2);
    v[0x10] = B::C(0x99);
    v[0x20] = B::P(0x11);
    v[0x21] = B::P(0);
    v
}

pub struct Bench {
    rig: Rig,
    opts: BTreeMap<Option<u32>, RunProgramOptions>,
}

type Seen = Vec<(u32, Val)>;

impl Bench {
    pub fn new() -> Bench {
        Bench { rig: Rig::new(), opts: BTreeMap::new() }
    }

    fn options(&mut self, gas: Option<u32>) -> RunProgramOptions {
        if !self.opts.contains_key(&gas) {
            let o = self.rig.options_with(gas, |h| {
                if h == 7 {
                    TAIL.set(true);
                }
            });
            self.opts.insert(gas, o);
        }
        self.opts[&gas].clone()
    }

    /// Run the loaded program once; the chooser decides what completes when. In the readout only
    /// what must complete does, in every order.
    fn once(&mut self, gas: Option<u32>, free: bool) -> std::result::Result<(std::result::Result<u32, Error>, Seen, Vec<B>), String> {
        let data = self.rig.data;
        self.rig.poke(data, &initial(data));
        let o = self.options(gas);
        rayon::mc::reset();
        TAIL.set(false);
        if free {
            rayon::mc::set_picker(Some(Box::new(|n, must| {
                if TAIL.get() && !must {
                    return n;
                }
                CH.with(|c| c.borrow_mut().choose(if must { n } else { n + 1 }))
            })));
        } else {
            rayon::mc::set_picker(None);
        }
        let r = catch(|| self.rig.run(&o));
        rayon::mc::set_picker(None);
        let (r, seen) = match r {
            Ok(r) => r,
            Err(e) => {
                rayon::mc::reset();
                *self = Bench::new();
                return Err(e);
            }
        };
        ensure!(rayon::mc::pending().is_empty(), "the run ended with work in flight");
        Ok((r, seen, self.rig.peek(data, WINDOW)))
    }

    fn reference(&self, prog: &[IsaOp], gas: Option<u64>) -> (Machine, Option<Stop>) {
        let mut m = Machine::new();
        m.limit = gas;
        m.m = initial(self.rig.data).into_iter().enumerate().map(|(i, b)| (self.rig.data + i as u32, b)).collect();
        // registers the calling convention sets are not used
        let s = m.run(prog, self.rig.code, 4000);
        (m, s)
    }
}

/// Every schedule of `f`; returns how many there were.
fn schedules(cap: u64, mut f: impl FnMut() -> R) -> std::result::Result<u64, String> {
    CH.with(|c| *c.borrow_mut() = Chooser::new());
    let mut n = 0;
    loop {
        n += 1;
        ensure!(n <= cap, "more than {cap} schedules");
        f().map_err(|e| format!("completions {:?}: {e}", CH.with(|c| c.borrow().trail())))?;
        if !CH.with(|c| c.borrow_mut().advance()) {
            return Ok(n);
        }
    }
}

const CAP: u64 = 2_000_000;

/// C04 on one program.
fn equivalent(b: &mut Bench, body: &[IsaOp], cx: &mut Cx) -> R {
    let prog = whole(b.rig.data, body, true);
    let (m, stop) = b.reference(&prog, None);
    let Some(stop) = stop else { return Ok(()) };
    b.rig.load(&prog);
    let data = b.rig.data;
    let mem: Vec<B> = (0..WINDOW).map(|i| m.m[&(data + i as u32)]).collect();
    let mut check = |b: &mut Bench, free: bool, cx: &mut Cx| {
        let (r, mut seen, after) = b.once(None, free)?;
        cx.ev(true);
        match (stop, r) {
            (Stop::Halt, Err(e)) => Err(format!("fails with {e:?}, sequential execution succeeds")),
            (Stop::Halt, Ok(_)) => {
                // the reports come in the order their registers become known
                let mut want = m.dbg.clone();
                want.sort();
                seen.sort();
                ensure!(seen == want, "registers {seen:?}, sequential execution gives {want:?}");
                ensure!(after == mem, "memory {after:?}, sequential execution gives {mem:?}");
                Ok(())
            }
            (_, Ok(_)) => Err("succeeds, sequential execution fails".into()),
            (_, Err(_)) => Ok(()),
        }
    };
    let n = schedules(CAP, || check(b, true, cx))?;
    cx.traces += n;
    // and the processor is as good as new
    check(b, false, cx).map_err(|e| format!("run again afterwards: {e}"))
}

/// P05 on one program: `None` when the program does not end by itself.
fn metered(b: &mut Bench, body: &[IsaOp], all_limits: bool, cx: &mut Cx) -> R {
    let prog = whole(b.rig.data, body, false);
    let (m, stop) = b.reference(&prog, None);
    b.rig.load(&prog);
    match stop {
        Some(Stop::Halt) => {
            let total = m.gas as u32;
            let mut limits = vec![None, Some(total), Some(total - 1)];
            if all_limits {
                limits.extend([Some(total + 1), Some(u32::MAX), Some(0), Some(total / 2)]);
            }
            for l in limits {
                let n = schedules(CAP, || {
                    let (r, ..) = b.once(l, true)?;
                    cx.ev(true);
                    match r {
                        Ok(g) => {
                            ensure!(l.is_none_or(|l| total <= l), "limit {l:?}: succeeds although it takes {total}");
                            ensure!(g == total, "limit {l:?}: {g} gas reported, the instructions cost {total}");
                        }
                        Err(Error::OutOfGas(used, lim)) => {
                            ensure!(l.is_some_and(|l| total > l), "limit {l:?}: out of gas although it takes {total}");
                            ensure!(Some(lim) == l && used > lim, "limit {l:?}: reported as {used} over {lim}");
                        }
                        Err(e) => return Err(format!("limit {l:?}: fails with {e:?}")),
                    }
                    Ok(())
                })?;
                cx.traces += n;
            }
        }
        Some(_) => {
            for l in [None, Some(u32::MAX), Some(3)] {
                cx.traces += schedules(CAP, || {
                    let (r, ..) = b.once(l, true)?;
                    cx.ev(true);
                    ensure!(r.is_err(), "limit {l:?}: succeeds, sequential execution fails");
                    ensure!(l == Some(3) || !matches!(r, Err(Error::OutOfGas(..))), "limit {l:?}: {r:?}");
                    Ok(())
                })?;
            }
        }
        None => {}
    }
    Ok(())
}

/// A program that need not end by itself, under limits: it must stop, having executed no more than
/// the limit allows. `marks`: what one report in the loop stands for at least.
fn endless(b: &mut Bench, body: &[IsaOp], limits: &[u32], cx: &mut Cx) -> R {
    let prog = whole(b.rig.data, body, false);
    b.rig.load(&prog);
    for &l in limits {
        let (m, stop) = b.reference(&prog, Some(l as u64));
        let Some(stop) = stop else { return Err("the reference did not stop".into()) };
        cx.traces += schedules(CAP, || {
            let (r, seen, _) = b.once(Some(l), true)?;
            cx.ev(true);
            match stop {
                Stop::OutOfGas => {
                    ensure!(matches!(r, Err(Error::OutOfGas(_, lim)) if lim == l), "limit {l}: {r:?}, it should run out of gas");
                    ensure!(seen.len() <= l as usize, "limit {l}: {} instructions were executed", seen.len());
                    // without anything encrypted in flight execution is in program order
                    if rayon::mc::completed() == 0 {
                        ensure!(seen == m.dbg, "limit {l}: executed {seen:?}, the limit allows {:?}", m.dbg);
                    }
                }
                Stop::Fault => ensure!(r.is_err(), "limit {l}: succeeds, sequential execution fails"),
                Stop::Halt => ensure!(r.as_ref().ok() == Some(&(m.gas as u32)), "limit {l}: {r:?}, expected {} gas", m.gas),
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn bodies(n: usize, alpha: &[IsaOp]) -> Vec<Body> {
    (0..n).fold(vec![vec![]], |a, _| a.iter().flat_map(|p: &Body| alpha.iter().map(|o| [p.clone(), vec![*o]].concat()).collect::<Vec<_>>()).collect())
}

/// Longer programs for one hazard each.
fn stories() -> Vec<(&'static str, Body)> {
    use IsaOp::*;
    let (t0, t1, t2, c, p) = (x(T0), x(T1), x(T2), x(C), x(X1));
    vec![
        (
            "branch on a value behind an encrypted store",
            vec![Xor(t0, t0, t2), Store(p, t0, 8, 0), Store(p, t1, 8, 0), Load(t1, p, 8, 0), BranchNonZero(t1, 16), Xor(t2, t2, t0)],
        ),
        (
            "pointer behind an encrypted store",
            vec![Xor(t0, t0, t2), Store(p, t0, 8, 4), Store(p, p, 32, 4), Load(p, p, 32, 4), Store(p, t2, 8, 0), Load(t0, p, 8, 0)],
        ),
        (
            "renamed destination",
            vec![Xor(t0, t0, t2), Xor(t2, t0, t2), Xor(t0, t2, t0), LoadI(t2, 9, 8), Xor(t0, t0, t2)],
        ),
        (
            "two memory cells",
            vec![Xor(t0, t0, t2), Store(p, t0, 8, 0), Xor(t0, t0, t2), Store(p, t0, 8, 1), Load(t2, p, 16, 0), Trunc(t2, t2, 8)],
        ),
        (
            "fault behind work in flight",
            vec![Xor(t0, t0, t2), Xor(t2, t2, t2), Store(p, t0, 8, 0), Load(t1, p, 16, 1), Xor(t0, t0, t2)],
        ),
        (
            "fault that depends on work in flight",
            vec![Xor(t0, t0, t2), Store(p, t0, 8, 0), Load(t0, p, 8, 0), Cmux(t0, t0, t0, t2), Xor(t2, t2, t2), Store(p, t2, 8, 1)],
        ),
        (
            "counted loop",
            vec![Xor(t0, t0, t2), Sub(t1, t1, x(ONE)), BranchNonZero(t1, -16), Store(p, t0, 8, 0)],
        ),
        ("select chain", vec![Cmux(t0, c, t0, t2), Cmux(t2, c, t2, t0), CmpEq(c, t0, t2), Cmux(t0, c, t2, t0)]),
    ]
}

pub fn run() {
    let ck = Ck::new(
        "C04",
        "model-checking",
        "every program over the hazard alphabet, run on the real processor once per order in which encrypted operations can complete between dispatches; registers, memory and outcome compared with sequential execution",
    );
    ck.assume("a circuit completes as a whole between two looks of the dispatcher at its channel (C03 explores the circuit engine's own interleavings); programs do not modify themselves");
    ck.assume("after a fault only the failure of the run is compared, not memory");
    let alpha = alphabet();
    ck.par("short", &(0..=2).flat_map(|n| bodies(n, &alpha)).collect::<Vec<_>>().chunks(16).map(|c| c.to_vec()).collect::<Vec<_>>(), |c| format!("from {:?}", c[0]), chunk(equivalent));
    let n3 = ck.tier(24, alpha.len());
    ck.par("three", &bodies(2, &alpha[..n3]), |b| format!("{b:?}"), tails(equivalent, alpha[..n3].to_vec()));
    ck.par("stories", &stories(), |(n, _)| n.to_string(), |(_, b), cx| equivalent(&mut Bench::new(), b, cx).map(|_| cx.states += 1));
    if ck.thorough {
        ck.par("four", &bodies(3, &alpha[..14]), |b| format!("{b:?}"), tails(equivalent, alpha[..14].to_vec()));
    }
    ck.finish();
}

type One = fn(&mut Bench, &[IsaOp], &mut Cx) -> R;

fn chunk(f: One) -> impl Fn(&Vec<Body>, &mut Cx) -> R + Sync {
    move |c, cx| {
        let mut b = Bench::new();
        for p in c {
            f(&mut b, p, cx).map_err(|e| format!("{p:?}: {e}"))?;
            cx.states += 1;
        }
        Ok(())
    }
}
fn tails(f: One, alpha: Vec<IsaOp>) -> impl Fn(&Body, &mut Cx) -> R + Sync {
    move |head, cx| {
        let mut b = Bench::new();
        for o in &alpha {
            let p = [head.clone(), vec![*o]].concat();
            f(&mut b, &p, cx).map_err(|e| format!("{p:?}: {e}"))?;
            cx.states += 1;
        }
        Ok(())
    }
}

pub fn run_gas() {
    let ck = Ck::new(
        "P05",
        "model-checking",
        "every program over the hazard alphabet under every completion order and the limits around its cost, and endless programs under every small limit; gas compared with the sum of the documented instruction costs",
    );
    ck.assume("cost table: as documented for the instruction set, by operand encryption; a circuit completes as a whole");
    let alpha = alphabet();
    ck.par(
        "limits",
        &(0..=2).flat_map(|n| bodies(n, &alpha)).collect::<Vec<_>>().chunks(8).map(|c| c.to_vec()).collect::<Vec<_>>(),
        |c| format!("from {:?}", c[0]),
        chunk(|b, p, cx| metered(b, p, true, cx)),
    );
    let n3 = ck.tier(14, alpha.len());
    ck.par("three", &bodies(2, &alpha[..n3]), |b| format!("{b:?}"), tails(|b, p, cx| metered(b, p, false, cx), alpha[..n3].to_vec()));
    ck.par("stories", &stories(), |(n, _)| n.to_string(), |(_, b), cx| metered(&mut Bench::new(), b, true, cx).map(|_| cx.states += 1));
    let (t0, t1, t2, p) = (x(T0), x(T1), x(T2), x(X1));
    use IsaOp::*;
    let small: Vec<u32> = (0..ck.tier(60, 300)).collect();
    let enc: Vec<u32> = [0, 1, 5, 7, 8, 99_999].into_iter().chain(100_000..100_000 + ck.tier(24, 40)).collect();
    let loops: Vec<(&str, Body, Vec<u32>)> = vec![
        ("jump to itself", vec![Branch(0)], small.clone()),
        ("report and jump", vec![Dbg(t1, 0), Branch(-8)], small.clone()),
        ("count down", vec![Sub(t1, t1, x(ONE)), Dbg(t1, 1), BranchNonZero(t1, -16)], small.clone()),
        ("count up forever", vec![Add(t1, t1, x(ONE)), Dbg(t1, 1), Store(p, t1, 8, 3), Branch(-24)], small.clone()),
        ("straight line", vec![Dbg(t1, 0), Dbg(t1, 1), Dbg(t1, 2), Dbg(t1, 3), Dbg(t1, 4)], small.clone()),
        ("into the void", vec![Dbg(t1, 0), Branch(0x10_0000)], small),
        ("encrypted loop", vec![Xor(t0, t0, t2), Dbg(t1, 0), Branch(-16)], enc.clone()),
        ("encrypted straight line", vec![Xor(t0, t0, t2), Dbg(t1, 0), Dbg(t0, 1), Dbg(t1, 2)], enc.clone()),
        ("branch behind encrypted work", vec![Xor(t0, t0, t2), Store(p, t0, 8, 2), Store(p, t1, 8, 2), Load(t1, p, 8, 2), BranchNonZero(t1, -32)], enc),
    ];
    ck.par("endless", &loops, |l| l.0.to_string(), |(_, b, l), cx| endless(&mut Bench::new(), b, l, cx).map(|_| cx.states += 1));
    ck.finish();
}
