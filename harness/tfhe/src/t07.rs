//! T07: scratch allocator histories, and independence of every operation from scratch contents.
use mc::{ensure, must_panic, same, Ck, Cx, R};
use num::Complex;
use crate::{ops::World, u::{one_thread, poison}};
use std::{num::Wrapping, ops::{Add, Mul, Sub}, sync::{mpsc::channel, Mutex}};
use sunscreen_tfhe::{mc_hooks::*, Torus, TorusOps};

/// What the allocator is asked for: element kinds with different sizes, and counts around growth.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { B(usize), W(usize), T(usize), C(usize), Q(usize), E }

enum Buf {
    B(ScratchBuffer<'static, u8>),
    W(ScratchBuffer<'static, u32>),
    T(ScratchBuffer<'static, Torus<u64>>),
    C(ScratchBuffer<'static, Complex<f64>>),
    Q(ScratchBuffer<'static, u128>),
}
struct Live { b: Buf, pat: u8, addr: usize, bytes: usize }

impl Buf {
    fn new(w: Want) -> (Buf, usize, usize) {
        match w {
            Want::B(n) => (Buf::B(allocate_scratch(n)), n, 1),
            Want::W(n) => (Buf::W(allocate_scratch(n)), n * 4, 4),
            Want::T(n) => (Buf::T(allocate_scratch(n)), n * 8, 8),
            Want::C(n) => (Buf::C(allocate_scratch(n)), n * 16, 16),
            Want::Q(n) => (Buf::Q(allocate_scratch(n)), n * 16, 16),
            Want::E => (Buf::W(allocate_scratch(0)), 0, 4),
        }
    }
    fn span(&mut self) -> (usize, usize, bool) {
        macro_rules! s { ($b:expr) => {{
            let r = ($b.as_slice().as_ptr() as usize, std::mem::size_of_val($b.as_slice()));
            let m = ($b.as_mut_slice().as_ptr() as usize, std::mem::size_of_val($b.as_mut_slice()));
            (r.0, r.1, r == m)
        }} }
        match self { Buf::B(b) => s!(b), Buf::W(b) => s!(b), Buf::T(b) => s!(b), Buf::C(b) => s!(b), Buf::Q(b) => s!(b) }
    }
}
unsafe fn bytes<'a>(l: &Live) -> &'a mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(l.addr as *mut u8, l.bytes) }
}

fn alloc(w: Want, pat: u8, live: &mut Vec<Live>, cx: &mut Cx) -> R {
    let (mut b, n, al) = Buf::new(w);
    let (addr, len, agree) = b.span();
    same!(cx, len, n, "bytes handed out for {w:?}");
    ensure!(agree, "shared and mutable views of {w:?} differ");
    if n > 0 {
        same!(cx, addr % al.max(SIMD_ALIGN), 0, "alignment of {w:?} at {addr:#x}");
        for o in live.iter() {
            ensure!(addr + n <= o.addr || o.addr + o.bytes <= addr || o.bytes == 0, "{w:?} at {addr:#x} overlaps a live buffer at {:#x}+{}", o.addr, o.bytes);
        }
    }
    let l = Live { b, pat, addr, bytes: n };
    unsafe { bytes(&l) }.fill(pat);
    live.push(l);
    Ok(())
}
fn intact(live: &[Live], cx: &mut Cx) -> R {
    for l in live {
        cx.ev(true);
        ensure!(unsafe { bytes(l) }.iter().all(|x| *x == l.pat), "a live buffer at {:#x}+{} was overwritten", l.addr, l.bytes);
    }
    Ok(())
}

const WANTS: &[Want] = &[Want::B(1), Want::B(100), Want::W(33), Want::T(16), Want::C(64), Want::Q(5), Want::E, Want::C(4)];

/// History number `h` over the first `k` requests; even digits allocate, others release.
fn history(h: usize, depth: usize, k: usize, cx: &mut Cx) -> R {
    let mut live: Vec<Live> = vec![];
    let mut x = h;
    let mut trace = vec![];
    let mut pat = 0u8;
    let mut go = || -> R {
        for _ in 0..depth {
            let op = x % (k + 3);
            x /= k + 3;
            if op < k {
                pat = pat.wrapping_add(37) | 1;
                trace.push(format!("{:?}", WANTS[op]));
                alloc(WANTS[op], pat, &mut live, cx)?;
            } else if !live.is_empty() {
                // release the newest, the oldest or the second oldest
                let i = match op - k { 0 => live.len() - 1, 1 => 0, _ => 1 % live.len() };
                trace.push(format!("release {i}"));
                drop(live.remove(i).b);
            }
            cx.transitions += 1;
            intact(&live, cx)?;
        }
        Ok(())
    };
    let r = go();
    cx.states += 1;
    r.map_err(|e| format!("{}: {e}", trace.join(", ")))
}

/// Two threads, each with its own short history, in the interleaving given by `order`.
fn threads(ha: usize, hb: usize, order: u32, n: usize, cx: &mut Cx) -> R {
    // every worker reports its live spans after each step; spans of different threads stay disjoint
    type Spans = Result<Vec<(usize, usize)>, String>;
    let mut handles = vec![];
    let mut chans = vec![];
    for h in [ha, hb] {
        let (tx, rx) = channel::<()>();
        let (tx2, rx2) = channel::<Spans>();
        handles.push(std::thread::spawn(move || {
            let mut live: Vec<Live> = vec![];
            let mut x = h;
            let mut cx = Cx::default();
            for step in 0.. {
                if rx.recv().is_err() { return; }
                let op = x % 4;
                x /= 4;
                let r = if op < 3 { alloc(WANTS[[2, 3, 4][op]], (step * 2 + 1) as u8 ^ ((h as u8) << 4), &mut live, &mut cx) } else { live.pop(); Ok(()) };
                let r = r.and_then(|_| intact(&live, &mut cx));
                if tx2.send(r.map(|_| live.iter().map(|l| (l.addr, l.bytes)).collect())).is_err() { return; }
            }
        }));
        chans.push((tx, rx2));
    }
    let mut spans: [Vec<(usize, usize)>; 2] = [vec![], vec![]];
    let mut res = Ok(());
    for i in 0..2 * n {
        let t = (order >> i & 1) as usize;
        chans[t].0.send(()).unwrap();
        match chans[t].1.recv().unwrap() {
            Ok(s) => spans[t] = s,
            Err(e) => { res = Err(e); break }
        }
        cx.ev(true);
        for a in &spans[0] {
            for b in &spans[1] {
                if a.0 < b.0 + b.1 && b.0 < a.0 + a.1 { res = Err(format!("buffers of two threads overlap: {a:x?} {b:x?} (histories {ha} {hb}, order {order:b})")); }
            }
        }
        if res.is_err() { break }
    }
    drop(chans);
    for h in handles { h.join().map_err(|_| "worker died".to_string())?; }
    res
}

// ---- operations and the contents of scratch memory ----

type Run<'a> = (String, Box<dyn Fn(u8) -> Vec<u8> + Sync + Send + 'a>);

fn catalogue<'a, S: TorusOps>(w: &'a World<S>, what: &str) -> Vec<Run<'a>>
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    World::<S>::names().into_iter().enumerate().map(|(i, n)| -> Run<'a> { (format!("{n} ({what})"), Box::new(move |kind| w.run(i, kind))) }).collect()
}
/// Run `f` on a thread that has never used scratch memory.
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let mut out = None;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one_thread(&mut { let mut f = Some(f); let o = &mut out; move || *o = Some((f.take().unwrap())()) }))).map_err(|e| mc::panic_msg(&*e))?;
    Ok(out.unwrap())
}

fn operations(ck: &Ck) {
    let (a, b, c) = (Mutex::new(None), Mutex::new(None), Mutex::new(None));
    std::thread::scope(|s| {
        s.spawn(|| one_thread(&mut || *a.lock().unwrap() = mc::catch(|| World::<u64>::new(16, 1, 4)).ok()));
        s.spawn(|| one_thread(&mut || *b.lock().unwrap() = mc::catch(|| World::<u64>::new(32, 2, 3)).ok()));
        s.spawn(|| one_thread(&mut || *c.lock().unwrap() = mc::catch(|| World::<u32>::new(16, 1, 5)).ok()));
    });
    let (a, b, c) = (a.into_inner().unwrap(), b.into_inner().unwrap(), c.into_inner().unwrap());
    ck.case("operations", "keys and operands can be made", |cx| {
        cx.ev(true);
        ensure!(a.is_some() && b.is_some() && c.is_some(), "making keys and operands panics");
        Ok(())
    });
    let (Some(a), Some(b), Some(c)) = (a, b, c) else { return };
    let mut runs = catalogue(&a, "u64 N=16 k=1");
    runs.extend(catalogue(&b, "u64 N=32 k=2"));
    runs.extend(catalogue(&c, "u32 N=16 k=1"));
    // what each operation gives on untouched memory
    let alone: Vec<Mutex<Vec<u8>>> = runs.iter().map(|_| Mutex::new(vec![])).collect();
    let ids: Vec<usize> = (0..runs.len()).collect();
    ck.par("operations", &ids, |i| format!("{} on its own", runs[*i].0), |&i, cx| {
        let want = fresh(|| runs[i].1(0))?;
        for kind in 0..4u8 {
            for rubbish in 0..4u8 {
                let got = fresh(|| { if kind > 0 { poison(kind) } runs[i].1(rubbish) })?;
                cx.ev(kind > 0);
                ensure!(got == want, "result depends on what is in scratch memory ({kind}) or in the output ({rubbish}): first difference at byte {}", got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len()));
            }
        }
        // three times in a row on one thread
        let again = fresh(|| (runs[i].1(0), runs[i].1(1), runs[i].1(2)))?;
        ensure!(again.0 == want && again.1 == want && again.2 == want, "result changes when repeated");
        cx.ev(true);
        let grown = fresh(|| {
            for _ in 0..4 { runs[i].1(0); }
            let warm = crate::allocated().0;
            for _ in 0..4 { runs[i].1(0); }
            crate::allocated().0 - warm
        })?;
        cx.ev(true);
        ensure!(grown == 0, "four more runs leave {grown} more bytes allocated");
        *alone[i].lock().unwrap() = want;
        Ok(())
    });
    ck.par("operation after operation", &ids, |i| format!("after {}", runs[*i].0), |&i, cx| {
        for j in 0..runs.len() {
            let want = alone[j].lock().unwrap();
            let got = fresh(|| { runs[i].1(1); runs[j].1(0) })?;
            cx.ev(true);
            cx.transitions += 1;
            ensure!(got == *want, "{} gives another result: first difference at byte {} of {}", runs[j].0, got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len()), want.len());
        }
        cx.states += 1;
        Ok(())
    });
}

pub fn run() -> ! {
    let ck = Ck::new("T07", "model_checking",
        "every history of allocations (several element types and sizes, including empty) and releases (newest, oldest, second oldest) up to the depth bound, each in a fresh thread; every interleaving of two threads' histories; then every public operation run after every other, with scratch memory of several contents; oracle: disjointness, alignment, size and untouched contents of live buffers, and equality with the operation run on its own");
    let (k, d) = ck.tier((5, 5), (8, 6));
    let tot = (k + 3usize).pow(d as u32);
    let chunk = 512;
    let chunks: Vec<usize> = (0..tot.div_ceil(chunk)).collect();
    ck.par("allocation histories", &chunks, |c| format!("histories {}..", c * chunk), |c, cx| {
        for h in c * chunk..((c + 1) * chunk).min(tot) {
            let mut l = Cx::default();
            std::thread::scope(|s| std::thread::Builder::new().spawn_scoped(s, || history(h, d, k, &mut l)).unwrap().join()).map_err(|e| mc::panic_msg(&*e))?.map_err(|e| format!("history {h}: {e}"))?;
            cx.add(&l);
        }
        Ok(())
    });
    // longer histories on a small request alphabet: one small, one large
    let d2 = ck.tier(9, 11);
    let tot2 = 5usize.pow(d2 as u32);
    let chunk2 = 20000;
    let chunks2: Vec<usize> = (0..tot2.div_ceil(chunk2)).collect();
    ck.par("long allocation histories", &chunks2, |c| format!("histories {}..", c * chunk2), |c, cx| {
        for h in c * chunk2..((c + 1) * chunk2).min(tot2) {
            history(h, d2, 2, cx).map_err(|e| format!("history {h}: {e}"))?;
        }
        Ok(())
    });
    let n = 3;
    let orders: Vec<u32> = (0..1u32 << (2 * n)).filter(|o| o.count_ones() as usize == n).collect();
    ck.par("two threads", &orders, |o| format!("order {o:06b}"), |o, cx| {
        let m = 4usize.pow(n as u32);
        for ha in 0..m {
            for hb in (ha % 7..m).step_by(ck.tier(7, 1)) {
                threads(ha, hb, *o, n, cx)?;
            }
        }
        Ok(())
    });
    // histories repeated: once warm, released buffers serve every further request
    let (k3, d3) = ck.tier((5, 4), (8, 5));
    let tot3 = (k3 + 3usize).pow(d3 as u32);
    let chunks3: Vec<usize> = (0..tot3.div_ceil(chunk)).collect();
    ck.par("released buffers are reused", &chunks3, |c| format!("histories {}..", c * chunk), |c, cx| {
        for h in c * chunk..((c + 1) * chunk).min(tot3) {
            let mut l = Cx::default();
            std::thread::scope(|s| std::thread::Builder::new().spawn_scoped(s, || -> R {
                for _ in 0..24 { history(h, d3, k3, &mut l)? }
                let warm = crate::allocated();
                for _ in 0..8 { history(h, d3, k3, &mut l)? }
                let now = crate::allocated();
                ensure!(now.0 == warm.0, "eight more runs leave {} more bytes allocated", now.0 - warm.0);
                ensure!(now.1 == warm.1, "eight more runs after 24 make {} new buffers", now.1 - warm.1);
                Ok(())
            }).unwrap().join()).map_err(|e| mc::panic_msg(&*e))?.map_err(|e| format!("history {h}: {e}"))?;
            cx.add(&l);
        }
        Ok(())
    });
    operations(&ck);
    ck.case("refusals", "zero-sized elements", |cx| {
        #[derive(Clone, Copy)]
        struct Z;
        unsafe impl Pod for Z {}
        cx.ev(true);
        ensure!(must_panic(|| { allocate_scratch::<Z>(3); }), "a zero-sized element type was accepted");
        Ok(())
    });
    ck.finish()
}
