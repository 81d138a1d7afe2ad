//! T05: every vector kernel against its scalar definition, once per CPU feature configuration.
//!
//! The crate caches the detected features for the life of the process, so each configuration runs
//! in a child process of its own whose CPU detection crate reports the configured feature set.
use crate::u::*;
use mc::{catch, ensure, must_panic, same, Ck, Cx, R};
use num::{BigInt, Complex, ToPrimitive};
use std::fmt::Debug;
use std::sync::atomic::Ordering::SeqCst;
use sunscreen_tfhe::{
    mc_hooks::{complex_mad, complex_twist, complex_untwist, VectorOps},
    FromU64, ToU64, Torus, TorusOps,
};

const G: usize = 24; // guard words either side

/// A word-slice placed at word offset `off` of a 64-byte aligned block with guards around it.
struct Guarded<T> {
    buf: aligned_vec::AVec<T, aligned_vec::ConstAlign<64>>,
    at: usize,
    len: usize,
    guard: T,
}
impl<T: Copy + PartialEq + Debug> Guarded<T> {
    fn new(v: &[T], off: usize, guard: T) -> Self {
        let mut b = aligned_vec::AVec::<T, aligned_vec::ConstAlign<64>>::from_iter(64, (0..v.len() + 2 * G + 8).map(|_| guard));
        b[G + off..G + off + v.len()].copy_from_slice(v);
        Guarded { buf: b, at: G + off, len: v.len(), guard }
    }
    fn get(&self) -> &[T] {
        &self.buf[self.at..self.at + self.len]
    }
    fn get_mut(&mut self) -> &mut [T] {
        &mut self.buf[self.at..self.at + self.len]
    }
    fn guards(&self) -> bool {
        self.buf[..self.at].iter().all(|x| *x == self.guard) && self.buf[self.at + self.len..].iter().all(|x| *x == self.guard)
    }
}

trait Word: Copy + PartialEq + Debug + VectorOps {
    const W: u32;
    fn mk(x: u64) -> Self;
    fn ge(self) -> u64;
}
impl Word for u32 {
    const W: u32 = 32;
    fn mk(x: u64) -> Self { x as u32 }
    fn ge(self) -> u64 { self as u64 }
}
impl Word for u64 {
    const W: u32 = 64;
    fn mk(x: u64) -> Self { x }
    fn ge(self) -> u64 { self }
}
impl<S: TorusOps> Word for Torus<S> where Torus<S>: VectorOps {
    const W: u32 = S::BITS;
    fn mk(x: u64) -> Self { Torus::from(S::from_u64(x)) }
    fn ge(self) -> u64 { self.inner().to_u64() }
}

/// Operand streams: rotate through the boundary values so every lane sees every pair of them.
fn streams(w: u32, len: usize, k: usize) -> (Vec<u64>, Vec<u64>, Vec<u64>) {
    let e = edge(w);
    let n = e.len();
    (
        (0..len).map(|i| e[(i + k) % n]).collect(),
        (0..len).map(|i| e[(i * 5 + k * 7 + k / n) % n]).collect(),
        (0..len).map(|i| e[(i * 3 + k * 4 + 1) % n]).collect(),
    )
}

fn arith<T: Word>(max: usize, cx: &mut Cx) -> R {
    let m = mask(T::W);
    let g = T::mk(0xA5A5_5A5A_A5A5_5A5A);
    for len in (0..=max).chain([127, 128, 129, 255, 256, 257, 509, 512, 1000, 1024, 2048]) {
        for off in [0usize, 1, 2, 3, 4, 7] {
            for k in 0..13 * 13 {
                if len > max.max(70) && (off > 1 || k % 13 != 0 && (k % 5 != 0 || len > 300)) { continue; }
                if k % 13 != 0 && off > 1 && len % 5 != 0 { continue; }
                let (a, b, c) = streams(T::W, len, k);
                let ga = Guarded::new(&a.iter().map(|x| T::mk(*x)).collect::<Vec<_>>(), off, g);
                let gb = Guarded::new(&b.iter().map(|x| T::mk(*x)).collect::<Vec<_>>(), (off * 3) % 8, g);
                let c: Vec<T> = c.iter().map(|x| T::mk(*x)).collect();
                let s = b.first().copied().unwrap_or(3).wrapping_add(k as u64) & m;
                let run = |name: &str, cx: &mut Cx, f: &dyn Fn(&mut [T], &[T], &[T]), want: &dyn Fn(u64, u64, u64) -> u64| -> R {
                    let mut gc = Guarded::new(&c, (off * 5 + 1) % 8, g);
                    f(gc.get_mut(), ga.get(), gb.get());
                    let got: Vec<u64> = gc.get().iter().map(|x| x.ge()).collect();
                    let w: Vec<u64> = c.iter().zip(a.iter().zip(&b)).map(|(c, (a, b))| want(c.ge(), *a, *b) & m).collect();
                    same!(cx, got, w, "{name} of {len} words at offset {off} (stream {k})");
                    ensure!(gc.guards(), "{name} of {len} words at offset {off} wrote outside its output");
                    Ok(())
                };
                run("vector_add", cx, &|c, a, b| T::vector_add(c, a, b), &|_, a, b| a.wrapping_add(b))?;
                run("vector_sub", cx, &|c, a, b| T::vector_sub(c, a, b), &|_, a, b| a.wrapping_sub(b))?;
                run("vector_scalar_mad", cx, &|c, a, _| T::vector_scalar_mad(c, a, T::mk(s)), &|c, a, _| c.wrapping_add(a.wrapping_mul(s)))?;
                let n = k as u32 % T::W;
                run("vector_shr_round", cx, &|c, a, _| T::vector_shr_round(c, a, n), &|_, a, _| {
                    ((a as u128 + if n == 0 { 0 } else { 1u128 << (n - 1) }) >> n) as u64
                })?;
                ensure!(ga.guards() && gb.guards(), "inputs disturbed");
            }
        }
    }
    // unequal lengths: the common prefix is processed (or the call refused); nothing else is touched
    for la in 0..=40usize {
        for lc in 0..=40usize {
            let (a, b, c) = streams(T::W, 40, la + lc);
            let (a, b, c): (Vec<T>, Vec<T>, Vec<T>) = (a.iter().map(|x| T::mk(*x)).collect(), b.iter().map(|x| T::mk(*x)).collect(), c.iter().map(|x| T::mk(*x)).collect());
            let ga = Guarded::new(&a[..la], 1, g);
            let gb = Guarded::new(&b[..la.min(lc + 1)], 2, g);
            for which in 0..4 {
                let mut gc = Guarded::new(&c[..lc], 3, g);
                let r = catch(|| match which {
                    0 => T::vector_add(gc.get_mut(), ga.get(), gb.get()),
                    1 => T::vector_sub(gc.get_mut(), ga.get(), gb.get()),
                    2 => T::vector_scalar_mad(gc.get_mut(), ga.get(), T::mk(77)),
                    _ => T::vector_shr_round(gc.get_mut(), ga.get(), 5),
                });
                cx.ev(true);
                ensure!(gc.guards(), "kernel {which} on lengths {la} -> {lc} wrote outside its output");
                let n = if which < 2 { la.min(lc).min(gb.len) } else { la.min(lc) };
                if r.is_ok() {
                    ensure!(gc.get()[n..] == c[n..lc], "kernel {which} on lengths {la} -> {lc} changed words past the common prefix");
                    for i in 0..n {
                        let (x, y, z) = (a[i].ge(), b[i].ge(), c[i].ge());
                        let w = match which { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), 2 => z.wrapping_add(x.wrapping_mul(77)), _ => ((x as u128 + 16) >> 5) as u64 } & m;
                        ensure!(gc.get()[i].ge() == w, "kernel {which} on lengths {la} -> {lc}, word {i}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn decomp<T: Word>(cx: &mut Cx) -> R {
    let g = T::mk(0x1111_2222_3333_4444);
    let m = mask(T::W);
    let pats = patterns(T::W);
    for log in 1..T::W as usize {
        for (len, off) in [(pats.len(), 0usize), (pats.len() - 1, 1), (1, 0), (7, 3), (16, 2), (17, 5), (0, 0)] {
            let v: Vec<T> = pats.iter().rev().take(len).map(|x| T::mk(*x)).collect();
            let mut s = Guarded::new(&v, off, g);
            let mut r = Guarded::new(&vec![T::mk(99); v.len()], (off + 3) % 8, g);
            T::vector_next_decomp(s.get_mut(), r.get_mut(), log);
            ensure!(s.guards() && r.guards(), "radix 2^{log}: wrote outside its output");
            for i in 0..v.len() {
                let x = v[i].ge();
                let digit = x & mask(log as u32);
                let up = digit >> (log - 1);
                let want_s = ((x >> log) + up) & m;
                let want_r = digit.wrapping_sub(((up as u128) << log) as u64) & m;
                cx.ev(true);
                ensure!(s.get()[i].ge() == want_s && r.get()[i].ge() == want_r,
                    "radix 2^{log}, {x:#x}: rest {:#x} digit {:#x}, expected {want_s:#x} {want_r:#x}", s.get()[i].ge(), r.get()[i].ge());
            }
        }
    }
    Ok(())
}

fn modq<T: Word>(cx: &mut Cx) -> R {
    // f64 operands: sign x mantissa pattern x exponent, integers and fractions
    let mut ops: Vec<f64> = vec![0.0, -0.0, 0.5, -0.5, 1.5, 0.75, -1.25];
    let mants: Vec<u64> = vec![0, 1, (1 << 52) - 1, 1 << 51, (1 << 51) + 1, 0x5555555555555 & ((1 << 52) - 1), (1 << 52) - 2, 1 << 20, 0xF0F0F0F0F0F0F];
    for e in 0..130u64 {
        for mt in &mants {
            let x = f64::from_bits(((1023 + e) << 52) | mt);
            ops.push(x);
            ops.push(-x);
        }
    }
    let g = T::mk(0x77);
    let big = |x: f64| -> BigInt { num::FromPrimitive::from_f64(x.trunc()).unwrap() };
    for log in 1..=T::W as u64 {
        let q = BigInt::from(1) << log;
        for (take, off) in [(ops.len(), 0usize), (9, 1), (1, 2), (0, 0), (33, 3)] {
            let ga = Guarded::new(&ops[..take], off, 0.25);
            let mut gc = Guarded::new(&vec![T::mk(5); take], (off + 1) % 8, g);
            T::vector_mod_pow2_q_f64(gc.get_mut(), ga.get(), log);
            ensure!(gc.guards() && ga.guards(), "2^{log}: wrote outside its output");
            for (x, y) in ops.iter().zip(gc.get()) {
                let frac = x.fract() != 0.0;
                if frac && log < 3 { continue; }
                // centred representative, as a signed value in the word
                let mut r = ((big(*x) % &q) + &q) % &q;
                if frac {
                    // reduce exactly (the float remainder is exact), then truncate toward zero
                    let half = f64::from_bits((1023 + log - 1) << 52);
                    let qf = half * 2.0;
                    let mut v = x % qf;
                    if v >= half { v -= qf } else if v < -half { v += qf }
                    r = big(v);
                    r = ((r % &q) + &q) % &q;
                }
                if r >= (&q >> 1) { r -= &q; }
                let want = (r.to_i128().unwrap() as u64) & mask(T::W);
                cx.ev(true);
                ensure!(y.ge() == want, "{x:e} modulo 2^{log}: got {:#x}, expected {want:#x}", y.ge());
            }
        }
    }
    Ok(())
}

fn cplx(cx: &mut Cx) -> R {
    let c = |a: f64, b: f64| Complex::new(a, b);
    let al: Vec<Complex<f64>> = [(0., 0.), (1., 0.), (0., 1.), (-1., 0.), (0., -1.), (3., -5.), (-7., 2.), (1048575., -1048576.), (-33554432., 33554431.)].iter().map(|x| c(x.0, x.1)).collect();
    let n = al.len();
    let irr = |i: usize, k: usize| c((i as f64 * 1.2345 + k as f64).sin() * 1e6, (i as f64 * 0.777 - k as f64).cos() * 1e6);
    for blocks in 0..=40usize {
        let len = blocks * 8;
        for k in 0..n * n + 3 {
            let exact = k < n * n;
            let a: Vec<_> = (0..len).map(|i| if exact { al[(i + k) % n] } else { irr(i, k) }).collect();
            let b: Vec<_> = (0..len).map(|i| if exact { al[(2 * i + k + k / n) % n] } else { irr(i * 3, k + 9) }).collect();
            let d: Vec<_> = (0..len).map(|i| if exact { al[(4 * i + k) % n] } else { irr(i * 5, k + 5) }).collect();
            let (ga, gb) = (Guarded::new(&a, 0, c(9., 9.)), Guarded::new(&b, 0, c(9., 9.)));
            let mut gc = Guarded::new(&d, 0, c(8., 8.));
            ensure!(gc.get().as_ptr() as usize % 64 == 0 && ga.get().as_ptr() as usize % 64 == 0, "test placement");
            complex_mad(gc.get_mut(), ga.get(), gb.get());
            ensure!(gc.guards(), "complex_mad of {len} wrote outside its output");
            for i in 0..len {
                let w = d[i] + a[i] * b[i];
                let e = if exact { 0.0 } else { 8.0 * f64::EPSILON * (d[i].norm() + 2.0 * a[i].norm() * b[i].norm()) };
                cx.ev(true);
                ensure!((gc.get()[i] - w).norm() <= e, "complex_mad of {len}, element {i} (stream {k}): {} + {} * {} gave {}", d[i], a[i], b[i], gc.get()[i]);
            }
        }
    }
    // documented refusals
    for len in 0..=34usize {
        let v = vec![c(1., 2.); len];
        for (oa, ob, oc) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 2, 2), (3, 0, 0)] {
            for (da, db) in [(0usize, 0usize), (8, 0), (0, 8), (8, 8), (1, 1)] {
                let (ga, gb) = (Guarded::new(&vec![c(1., 2.); len + da], oa, c(9., 9.)), Guarded::new(&vec![c(1., 2.); len + db], ob, c(9., 9.)));
                let mut gc = Guarded::new(&v, oc, c(8., 8.));
                let ok = len % 8 == 0 && [oa, ob, oc].iter().all(|o| o % 4 == 0) && da == 0 && db == 0;
                let p = must_panic(|| complex_mad(gc.get_mut(), ga.get(), gb.get()));
                same!(cx, !p, ok, "complex_mad lengths {len}+{da},{}+{db},{len} at offsets {oa},{ob},{oc} accepted", len);
            }
        }
    }
    for len in 0..=66usize {
        for k in 0..n * n {
            let a: Vec<_> = (0..len).map(|i| al[(i + k) % n]).collect();
            let t: Vec<_> = (0..len).map(|i| al[(2 * i + k + k / n) % n]).collect();
            let (re, im): (Vec<f64>, Vec<f64>) = a.iter().map(|x| (x.re, x.im)).unzip();
            let mut out = Guarded::new(&vec![c(5., 5.); len], 1, c(8., 8.));
            complex_twist(out.get_mut(), &re, &im, &t);
            ensure!(out.guards(), "complex_twist of {len} wrote outside its output");
            for i in 0..len {
                cx.ev(true);
                ensure!(out.get()[i] == a[i] * t[i], "complex_twist of {len}, element {i}: {} * {} gave {}", a[i], t[i], out.get()[i]);
            }
            // f32 too
            let (re, im): (Vec<f32>, Vec<f32>) = a.iter().map(|x| (x.re as f32 % 97., x.im as f32 % 89.)).unzip();
            let t32: Vec<Complex<f32>> = t.iter().map(|x| Complex::new(x.re as f32 % 17., x.im as f32 % 13.)).collect();
            let mut out = vec![Complex::new(5f32, 5.); len];
            complex_twist(&mut out, &re, &im, &t32);
            for i in 0..len {
                cx.ev(true);
                ensure!(out[i] == Complex::new(re[i], im[i]) * t32[i], "f32 complex_twist of {len}, element {i}");
            }
            if len > 0 {
                // scale so that the exact result is an integer plus a quarter: rounding must not matter
                let x: Vec<_> = a.iter().map(|x| (x + c(0.25, -0.25)) * len as f64).collect();
                let u: Vec<_> = (0..len).map(|i| al[1 + (i + k) % 4]).collect();
                let mut o = Guarded::new(&vec![7.0f64; 2 * len], 1, 3.5);
                complex_untwist(o.get_mut(), &x, &u);
                ensure!(o.guards(), "complex_untwist of {len} wrote outside its output");
                for i in 0..len {
                    let w = (a[i] + c(0.25, -0.25)) * u[i];
                    cx.ev(true);
                    ensure!(o.get()[i] == w.re.round() && o.get()[i + len] == w.im.round(), "complex_untwist of {len}, element {i}: {} * {} gave {} {}", a[i], u[i], o.get()[i], o.get()[i + len]);
                }
            }
        }
    }
    Ok(())
}

const KERNELS: &[&str] = &["u32 word kernels", "u64 word kernels", "torus32 word kernels", "torus64 word kernels",
    "u32 digits", "u64 digits", "torus32 digits", "torus64 digits", "u32 reduction", "u64 reduction", "torus32 reduction", "torus64 reduction",
    "complex kernels", "ring operations", "transforms"];

pub fn child(a: &[String]) -> ! {
    let p: Vec<u32> = a.iter().take(2).map(|x| x.parse().unwrap()).collect();
    raw_cpuid::native_cpuid::HIDE_LEAF7_EBX.store(p[0], SeqCst);
    raw_cpuid::native_cpuid::HIDE_LEAF1_ECX.store(p[1], SeqCst);
    let max = a[3].parse().unwrap();
    mc::quiet_panics();
    let mut cx = Cx::default();
    let r = catch(|| match a[2].as_str() {
        "u32 word kernels" => arith::<u32>(max, &mut cx),
        "u64 word kernels" => arith::<u64>(max, &mut cx),
        "torus32 word kernels" => arith::<Torus<u32>>(max / 2, &mut cx),
        "torus64 word kernels" => arith::<Torus<u64>>(max / 2, &mut cx),
        "u32 digits" => decomp::<u32>(&mut cx),
        "u64 digits" => decomp::<u64>(&mut cx),
        "torus32 digits" => decomp::<Torus<u32>>(&mut cx),
        "torus64 digits" => decomp::<Torus<u64>>(&mut cx),
        "u32 reduction" => modq::<u32>(&mut cx),
        "u64 reduction" => modq::<u64>(&mut cx),
        "torus32 reduction" => modq::<Torus<u32>>(&mut cx),
        "torus64 reduction" => modq::<Torus<u64>>(&mut cx),
        "complex kernels" => cplx(&mut cx),
        "ring operations" => crate::t04::ring_all(&mut cx),
        "transforms" => crate::t04::fft_all(&mut cx),
        o => Err(format!("unknown kernel {o}")),
    });
    match r {
        Ok(Ok(())) => println!("OK {}", cx.evals),
        Ok(Err(e)) => println!("ERR {e}"),
        Err(e) => println!("ERR unexpected panic: {e} at {}", mc::last_panic_location()),
    }
    std::process::exit(0)
}

pub fn run() -> ! {
    let ck = Ck::new("T05", "exploration",
        "every vector kernel, for every length up to the bound at aligned and unaligned placements with guard words, all boundary operand pairings, every digit width, every power-of-two modulus, and the public polynomial and transform operations, in one process per CPU feature configuration (every subset of AVX2, FMA, AVX-512F and AVX-512DQ that dispatch can distinguish); oracle: the scalar definition on integers");
    let have512 = std::is_x86_feature_detected!("avx512f") && std::is_x86_feature_detected!("avx512dq");
    if !have512 {
        ck.assume("this machine lacks AVX-512, so the AVX-512 kernels were not run");
    }
    let mut items = vec![];
    for m in 0..16u32 {
        // bit set = feature hidden
        let ebx = ((m & 1) << 5) | (((m >> 1) & 1) << 16) | (((m >> 2) & 1) << 17);
        let ecx = ((m >> 3) & 1) << 12;
        if (m >> 1) & 1 == 1 && (m >> 2) & 1 == 0 { continue; } // DQ without F does not exist
        let n = [(1, "AVX2"), (2, "AVX-512F"), (4, "AVX-512DQ"), (8, "FMA")].iter().filter(|(b, _)| m & b != 0).map(|x| x.1).collect::<Vec<_>>().join(",");
        let n = if n.is_empty() { "all features".to_string() } else { format!("without {n}") };
        for k in KERNELS {
            items.push((n.clone(), ebx, ecx, *k));
        }
    }
    let max = ck.tier(70, 300).to_string();
    let exe = std::env::current_exe().unwrap();
    ck.par("kernel against definition", &items, |x| format!("{}: {}", x.0, x.3), |(_, ebx, ecx, k), cx| {
        let o = std::process::Command::new(&exe).args(["T05-child", &ebx.to_string(), &ecx.to_string(), k, &max]).output().map_err(|e| e.to_string())?;
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let l = s.lines().last().unwrap_or("").to_string();
        if let Some(n) = l.strip_prefix("OK ") {
            let n: u64 = n.trim().parse().unwrap();
            cx.evals += n;
            cx.nt += n;
            return Ok(());
        }
        match l.strip_prefix("ERR ") {
            Some(e) => Err(e.to_string()),
            None => Err(format!("the process running the kernel died: {:?}", o.status)),
        }
    });
    ck.finish()
}
