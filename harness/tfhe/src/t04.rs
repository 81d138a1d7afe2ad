//! T04: negacyclic polynomial arithmetic against exact schoolbook arithmetic.
use crate::u::*;
use mc::{ensure, same, must_panic, Ck, Cx, R};
use num::Complex;
use sunscreen_tfhe::{
    entities::{Polynomial, PolynomialFft, PolynomialRef},
    fft::cyclic::RealFft,
    fft::negacyclic::TwistedFft,
    ops::polynomial::{polynomial_pow_k, polynomial_shr_round},
    polynomial::*,
    FrequencyTransform, ToU64, Torus, TorusOps,
};
use std::num::Wrapping;

type V = Vec<u64>;

/// a * b mod X^n + 1 mod 2^64 (callers mask).
pub fn negmul(a: &[u64], b: &[u64]) -> V {
    let n = a.len();
    let mut c = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = a[i].wrapping_mul(b[j]);
            let k = i + j;
            if k < n { c[k] = c[k].wrapping_add(p) } else { c[k - n] = c[k - n].wrapping_sub(p) }
        }
    }
    c
}

/// a * X^e mod X^n + 1 for any integer e.
pub fn monomial(a: &[u64], e: i128) -> V {
    let n = a.len() as i128;
    let mut c = vec![0u64; a.len()];
    for (i, x) in a.iter().enumerate() {
        let k = (i as i128 + e).rem_euclid(2 * n);
        if k < n { c[k as usize] = c[k as usize].wrapping_add(*x) } else { c[(k - n) as usize] = c[(k - n) as usize].wrapping_sub(*x) }
    }
    c
}

fn ts<S: TorusOps>(v: &[u64]) -> Polynomial<Torus<S>> {
    Polynomial::new(&v.iter().map(|x| t(*x)).collect::<Vec<_>>())
}
fn ints<S: TorusOps>(v: &[u64]) -> Polynomial<S> {
    Polynomial::new(&v.iter().map(|x| S::from_u64(*x)).collect::<Vec<_>>())
}
fn back<S: TorusOps>(p: &PolynomialRef<Torus<S>>) -> V {
    p.coeffs().iter().map(|x| un(*x)).collect()
}
fn backi<S: TorusOps>(p: &PolynomialRef<S>) -> V {
    p.coeffs().iter().map(|x| x.to_u64()).collect()
}
fn backw<S: TorusOps>(p: &PolynomialRef<Wrapping<S>>) -> V {
    p.coeffs().iter().map(|x| x.0.to_u64()).collect()
}
fn m(v: V, bits: u32) -> V {
    v.into_iter().map(|x| x & mask(bits)).collect()
}

/// Every ring operation on one triple (c, a, b).
fn ring<S: TorusOps>(c: &[u64], a: &[u64], b: &[u64], cx: &mut Cx) -> R
where
    Wrapping<S>: std::ops::Sub<Output = Wrapping<S>> + std::ops::Add<Output = Wrapping<S>> + std::ops::Mul<Output = Wrapping<S>>,
{
    let w = S::BITS;
    let z = |f: &dyn Fn(u64, u64) -> u64| -> V { m(a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect(), w) };
    let (ta, tb) = (ts::<S>(a), ts::<S>(b));
    let (pa, pb) = (ints::<S>(a), ints::<S>(b));
    let sum = z(&|x, y| x.wrapping_add(y));
    let dif = z(&|x, y| x.wrapping_sub(y));
    let prod = negmul(a, b);
    let acc = m(c.iter().zip(&prod).map(|(x, y)| x.wrapping_add(*y)).collect(), w);

    let mut r = ts::<S>(c);
    polynomial_add(&mut r, &ta, &tb);
    same!(cx, back(&r), sum, "polynomial_add {a:x?} {b:x?}");
    let mut r = ts::<S>(c);
    polynomial_sub(&mut r, &ta, &tb);
    same!(cx, back(&r), dif, "polynomial_sub {a:x?} {b:x?}");
    let mut r = ta.clone();
    polynomial_add_assign(&mut r, &tb);
    same!(cx, back(&r), sum, "polynomial_add_assign {a:x?} {b:x?}");
    let mut r = ta.clone();
    polynomial_sub_assign(&mut r, &tb);
    same!(cx, back(&r), dif, "polynomial_sub_assign {a:x?} {b:x?}");
    let mut r = ta.clone();
    *r += tb.as_ref();
    same!(cx, back(&r), sum, "+= {a:x?} {b:x?}");
    let mut r = ta.clone();
    *r -= tb.as_ref();
    same!(cx, back(&r), dif, "-= {a:x?} {b:x?}");
    same!(cx, back(&(ta.as_ref() + tb.as_ref())), sum, "+ {a:x?} {b:x?}");
    same!(cx, back(&(ta.as_ref() - tb.as_ref())), dif, "- {a:x?} {b:x?}");
    same!(cx, back(&(ta.clone() + tb.clone())), sum, "owned + {a:x?} {b:x?}");
    same!(cx, back(&(ta.clone() - tb.clone())), dif, "owned - {a:x?} {b:x?}");
    let mut r = ints::<S>(c);
    polynomial_add(&mut r, &pa, &pb);
    same!(cx, backi(&r), sum, "polynomial_add on integers {a:x?} {b:x?}");
    let mut r = ints::<S>(c);
    polynomial_sub(&mut r, &pa, &pb);
    same!(cx, backi(&r), dif, "polynomial_sub on integers {a:x?} {b:x?}");
    let mut r = ta.clone();
    polynomial_negate(&mut r);
    same!(cx, back(&r), m(a.iter().map(|x| x.wrapping_neg()).collect(), w), "polynomial_negate {a:x?}");
    for s in b.iter().copied().take(2) {
        let sc = S::from_u64(s);
        let mul = m(a.iter().map(|x| x.wrapping_mul(s)).collect(), w);
        let mad = m(c.iter().zip(a).map(|(c, x)| c.wrapping_add(x.wrapping_mul(s))).collect(), w);
        let mut r = ts::<S>(c);
        polynomial_scalar_mul(&mut r, &ta, sc);
        same!(cx, back(&r), mul, "polynomial_scalar_mul {a:x?} * {s:x}");
        let mut r = ts::<S>(c);
        polynomial_scalar_mad(&mut r, &ta, sc);
        same!(cx, back(&r), mad, "polynomial_scalar_mad {c:x?} + {a:x?} * {s:x}");
        let mut r = ts::<S>(c);
        polynomial_small_scalar_mad(&mut r, &ta, Torus::from(sc));
        same!(cx, back(&r), mad, "polynomial_small_scalar_mad {c:x?} + {a:x?} * {s:x}");
        let mut r = ints::<S>(c);
        polynomial_small_scalar_mad(&mut r, &pa, sc);
        same!(cx, backi(&r), mad, "polynomial_small_scalar_mad on integers {c:x?} + {a:x?} * {s:x}");
    }
    let mut r = ts::<S>(c);
    polynomial_external_mad(&mut r, &ta, &pb);
    same!(cx, back(&r), acc, "polynomial_external_mad {c:x?} + {a:x?} * {b:x?}");
    same!(cx, back(&(ta.as_ref() * pb.as_ref())), m(prod.clone(), w), "* {a:x?} {b:x?}");
    let mut r = ints::<S>(c);
    polynomial_mad_by_wrap(&mut r, &pa, &pb);
    same!(cx, backi(&r), acc, "polynomial_mad_by_wrap {c:x?} + {a:x?} * {b:x?}");
    let mut r = ints::<S>(c);
    polynomial_mad(r.as_wrapping_mut(), pa.as_wrapping(), pb.as_wrapping());
    same!(cx, backw(r.as_wrapping()), acc, "polynomial_mad {c:x?} + {a:x?} * {b:x?}");
    // operands untouched
    same!(cx, (back(&ta), back(&tb), backi(&pa), backi(&pb)), (m(a.to_vec(), w), m(b.to_vec(), w), m(a.to_vec(), w), m(b.to_vec(), w)), "operands changed");
    Ok(())
}

fn ring_dense<S: TorusOps>(n: usize, alpha: &[u64], cx: &mut Cx) -> R
where
    Wrapping<S>: std::ops::Sub<Output = Wrapping<S>> + std::ops::Add<Output = Wrapping<S>> + std::ops::Mul<Output = Wrapping<S>>,
{
    let k = alpha.len();
    let tot = k.pow(n as u32);
    let poly = |mut i: usize| -> V { (0..n).map(|_| { let d = alpha[i % k]; i /= k; d }).collect() };
    let cs: Vec<V> = vec![vec![0; n], (0..n).map(|i| mask(S::BITS) - i as u64).collect()];
    for i in 0..tot {
        for j in 0..tot {
            ring::<S>(&cs[(i + j) & 1], &poly(i), &poly(j), cx)?;
        }
    }
    Ok(())
}

fn ring_basis<S: TorusOps>(n: usize, cx: &mut Cx) -> R
where
    Wrapping<S>: std::ops::Sub<Output = Wrapping<S>> + std::ops::Add<Output = Wrapping<S>> + std::ops::Mul<Output = Wrapping<S>>,
{
    let w = mask(S::BITS);
    let mut f = Fill(n as u64);
    for i in 0..n {
        for j in 0..n {
            let e = [(1u64, 1u64), (w, 3), (w / 2 + 1, w)];
            let (x, y) = e[(i + j) % 3];
            let mut a = vec![0; n];
            let mut b = vec![0; n];
            a[i] = x;
            b[j] = y;
            let c: V = (0..n).map(|_| f.next() & w).collect();
            ring::<S>(&c, &a, &b, cx)?;
            // dense against a basis element: every cross term
            if i == 0 {
                let a: V = (0..n).map(|_| f.next() & w).collect();
                ring::<S>(&c, &a, &b, cx)?;
                ring::<S>(&c, &b, &a, cx)?;
            }
        }
    }
    Ok(())
}

fn monos<S: TorusOps>(n: usize, cx: &mut Cx) -> R {
    let w = S::BITS;
    let a: V = (0..n as u64).map(|i| (i * 0x0123_4567_89AB_CDEF + 1) & mask(w)).collect();
    let mut es: Vec<i128> = (-(4 * n as i128) - 3..=4 * n as i128 + 3).collect();
    for base in [isize::MAX as i128, isize::MIN as i128, 1 << 40, -(1 << 40), (1i128 << 62) + 5] {
        es.extend((-2..=2).map(|d| base + d).filter(|e| *e >= isize::MIN as i128 && *e <= isize::MAX as i128));
    }
    for e in es {
        let want = m(monomial(&a, e), w);
        let mut p = ts::<S>(&a);
        p.mul_by_monomial_negacyclic(e as isize);
        same!(cx, back(&p), want, "N={n}: times X^{e}");
        if e >= 0 {
            let mut p = ts::<S>(&a);
            p.mul_by_positive_monomial_negacyclic(e as usize);
            same!(cx, back(&p), want, "N={n}: times X^+{e}");
        } else {
            let mut p = ts::<S>(&a);
            p.mul_by_negative_monomial_negacyclic(e.unsigned_abs() as usize);
            same!(cx, back(&p), want, "N={n}: times X^-{}", -e);
        }
    }
    for e in [usize::MAX, usize::MAX - 1, 1 << 63] {
        let mut p = ts::<S>(&a);
        p.mul_by_positive_monomial_negacyclic(e);
        same!(cx, back(&p), m(monomial(&a, e as i128), w), "N={n}: times X^+{e}");
        let mut p = ts::<S>(&a);
        p.mul_by_negative_monomial_negacyclic(e);
        same!(cx, back(&p), m(monomial(&a, -(e as i128)), w), "N={n}: times X^-{e}");
    }
    if n.is_power_of_two() {
        let mut ks: Vec<usize> = (0..=4 * n + 3).collect();
        ks.extend([usize::MAX, usize::MAX - 1, 1 << 62, (1 << 40) + 1]);
        for k in ks {
            let mut want = vec![0u64; n];
            for (i, x) in a.iter().enumerate() {
                let e = (i as u128 * k as u128) % (2 * n as u128);
                if e < n as u128 { want[e as usize] = want[e as usize].wrapping_add(*x) } else { want[e as usize - n] = want[e as usize - n].wrapping_sub(*x) }
            }
            let want = m(want, w);
            let mut out = ts::<S>(&vec![0x77; n]);
            polynomial_pow_k::<_, S>(&mut out, &ts::<S>(&a), k);
            same!(cx, back(&out), want, "N={n}: P(X^{k})");
            let mut out = ints::<S>(&vec![0x77; n]);
            polynomial_pow_k::<_, S>(&mut out, &ints::<S>(&a), k);
            same!(cx, backi(&out), want, "N={n}: integer P(X^{k})");
        }
    }
    Ok(())
}

fn shr<S: TorusOps>(n: u32, cx: &mut Cx) -> R {
    let w = S::BITS;
    let mut v = patterns(w);
    for lo in 0..64u64 {
        v.push((lo << n.saturating_sub(3)) & mask(w));
    }
    let mut out = ts::<S>(&vec![9; v.len()]);
    polynomial_shr_round(&mut out, &ts::<S>(&v), n);
    for (x, y) in v.iter().zip(out.coeffs()) {
        let half = if n == 0 { 0 } else { 1u128 << (n - 1) };
        same!(cx, un(*y), ((*x as u128 + half) >> n) as u64 & mask(w), "{x:#x} >> {n} rounded");
    }
    Ok(())
}

/// Frequency-domain product of small integers is exact; large ones are near.
fn fft<S: TorusOps>(log: usize, dense: bool, cx: &mut Cx) -> R {
    let n = 1usize << log;
    let w = S::BITS;
    let mut f = Fill(n as u64);
    let sgn = |x: u64| -> i128 { if x >> (w - 1) & 1 == 1 { x as i128 - (1i128 << w) } else { x as i128 } };
    // round trips
    let mut ps: Vec<V> = vec![];
    let step = (n / 64).max(1);
    for i in (0..n).step_by(step) {
        for x in edge(w) {
            let mut p = vec![0; n];
            p[i] = x;
            ps.push(p);
        }
    }
    for b in [1, 8, 20, 40, w] {
        ps.push((0..n).map(|_| f.next() & mask(b.min(w))).collect());
        ps.push((0..n).map(|_| (f.next() & mask(b.min(w))).wrapping_neg() & mask(w)).collect());
    }
    ps.push(vec![mask(w) / 2; n]);
    ps.push(vec![mask(w) / 2 + 1; n]);
    for p in &ps {
        let mut fr = PolynomialFft::new(&vec![Complex::new(3.0, 4.0); n / 2]);
        ts::<S>(p).fft(&mut fr);
        let mut out = ts::<S>(&vec![5; n]);
        fr.ifft(&mut out);
        let big = p.iter().map(|x| sgn(*x).unsigned_abs()).max().unwrap();
        // error relative to the largest coefficient: 2^-45 is far above rounding at these sizes
        let tol = (big >> 45) as i128;
        for (i, (g, x)) in back(&out).iter().zip(p).enumerate() {
            let d = sgn(g.wrapping_sub(*x) & mask(w)).abs();
            cx.ev(true);
            ensure!(d <= tol, "N={n}: coefficient {i} of the round trip of {x:#x} is {g:#x}");
        }
        // the integer view transforms identically
        let mut fi = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
        ints::<S>(p).fft(&mut fi);
        same!(cx, fi.coeffs(), fr.coeffs(), "N={n}: integer and torus transforms");
    }
    if n / 2 % 8 != 0 {
        let one = PolynomialFft::new(&vec![Complex::new(1.0, 0.0); n / 2]);
        let mut c = PolynomialFft::new(&vec![Complex::new(1.0, 0.0); n / 2]);
        cx.ev(true);
        ensure!(must_panic(|| c.multiply_add(&one, &one)), "N={n}: a length below the kernel width was not refused");
        return Ok(());
    }
    // products: basis x basis, then dense x basis, accumulated on a base
    let tr = |v: &[u64]| {
        let mut o = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
        ts::<S>(v).fft(&mut o);
        o
    };
    let step = if dense { 1 } else { (n / 32).max(1) };
    let idx: Vec<usize> = (0..n).filter(|i| i % step == 0 || *i == n - 1 || *i == n / 2 || *i == 1).collect();
    let base: V = (0..n as u64).map(|i| i & mask(w)).collect();
    let fb = tr(&base);
    let b1: V = (0..n).map(|_| f.next() & 0xFFF).collect();
    let fb1 = tr(&b1);
    let vals = [(1u64, 1u64), (mask(w), 1000), (0xFFFFF & mask(w), 0x3FF), (mask(w) - 77, mask(w) - 3)];
    for &i in &idx {
        let mut a = vec![0; n];
        a[i] = vals[i % 4].0;
        let fa = tr(&a);
        for &j in &idx {
            let mut b = vec![0; n];
            b[j] = vals[(i + j) % 4].1;
            let mut acc = fb.clone();
            acc.multiply_add(&fa, &tr(&b));
            let mut out = ts::<S>(&vec![5; n]);
            acc.ifft(&mut out);
            let mut want = base.clone();
            for (x, y) in want.iter_mut().zip(negmul(&a, &b)) {
                *x = x.wrapping_add(y);
            }
            same!(cx, back(&out), m(want, w), "N={n}: base + {:#x} X^{i} * {:#x} X^{j}", a[i], b[j]);
        }
        let mut acc = fb.clone();
        acc.multiply_add(&fb1, &fa);
        let mut out = ts::<S>(&vec![5; n]);
        acc.ifft(&mut out);
        let mut want = base.clone();
        for (x, y) in want.iter_mut().zip(negmul(&a, &b1)) {
            *x = x.wrapping_add(y);
        }
        same!(cx, back(&out), m(want, w), "N={n}: base + dense * {:#x} X^{i}", a[i]);
    }
    Ok(())
}

/// The small ring cases, for T05.
pub fn ring_all(cx: &mut Cx) -> R {
    for n in [1usize, 2, 8, 16, 32] {
        ring_basis::<u32>(n, cx)?;
        ring_basis::<u64>(n, cx)?;
    }
    ring_dense::<u32>(2, &edge(32)[..5], cx)?;
    ring_dense::<u64>(2, &edge(64)[..5], cx)?;
    for n in [0, 1, 7, 31] {
        shr::<u32>(n, cx)?;
        shr::<u64>(2 * n, cx)?;
    }
    Ok(())
}
/// The small transform cases, for T05.
pub fn fft_all(cx: &mut Cx) -> R {
    for l in 1..=7 {
        fft::<u32>(l, l <= 5, cx)?;
        fft::<u64>(l, l <= 5, cx)?;
    }
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("T04", "exploration",
        "ring operations on every pair of polynomials over a boundary alphabet (degree 1, 2, 4) and on every pair of basis monomials with boundary coefficients plus dense operands (degree up to 64), in both word sizes; every exponent -4N-3..4N+3 and the extremes of the exponent type for monomial products and power substitution; every shift amount; transform round trips and products on basis elements for every supported degree; oracle: schoolbook arithmetic on integers");
    ck.assume("bilinear operations are decided on bases: every pair of monomials at every position, with boundary coefficients");
    macro_rules! both { ($f:ident, $($a:expr),*) => { |w: &u32, cx: &mut Cx| if *w == 32 { $f::<u32>($($a),*, cx) } else { $f::<u64>($($a),*, cx) } } }
    let full: Vec<(u32, usize, usize)> = [32u32, 64].iter().flat_map(|w| vec![(*w, 1, 12), (*w, 2, 5), (*w, 4, ck.tier(3, 4))]).collect();
    ck.par("ring operations, all small polynomials", &full, |x| format!("u{} N={} alphabet {}", x.0, x.1, x.2), |&(w, n, k), cx| {
        let mk = mask(w);
        let mut al = vec![0, 1, mk, mk / 2 + 1, 3];
        if k > 5 { al = edge(w); }
        al.truncate(k.max(3));
        both!(ring_dense, n, &al)(&w, cx)
    });
    let ns: Vec<(u32, usize)> = [32u32, 64].iter().flat_map(|w| (0..=ck.tier(6, 8)).map(move |l| (*w, 1usize << l))).collect();
    ck.par("ring operations on bases", &ns, |x| format!("u{} N={}", x.0, x.1), |&(w, n), cx| both!(ring_basis, n)(&w, cx));
    let ns: Vec<(u32, usize)> = [32u32, 64].iter().flat_map(|w| (1..=ck.tier(33, 129)).chain([64, 128, 256, 1024]).map(move |n| (*w, n))).collect();
    ck.par("monomials and powers", &ns, |x| format!("u{} N={}", x.0, x.1), |&(w, n), cx| both!(monos, n)(&w, cx));
    let sh: Vec<(u32, u32)> = (0..32).map(|n| (32, n)).chain((0..64).map(|n| (64, n))).collect();
    ck.par("rounded shift", &sh, |x| format!("u{} by {}", x.0, x.1), |&(w, n), cx| both!(shr, n)(&w, cx));
    let fs: Vec<(u32, usize)> = [32u32, 64].iter().flat_map(|w| (1..=12).map(move |l| (*w, l))).collect();
    let lim = ck.tier(6, 8);
    ck.par("transforms", &fs, |x| format!("u{} N=2^{}", x.0, x.1), |&(w, l), cx| both!(fft, l, l <= lim)(&w, cx));
    ck.case("transforms", "real and twisted transforms of reals", |cx| {
        for log in 1..=10 {
            let n = 1usize << log;
            for i in 0..n.min(64) {
                let mut x = vec![0.0f64; n];
                x[i] = 1.0;
                x[n - 1 - i] += -3.5;
                let tw = TwistedFft::<f64>::new(n);
                let mut y = vec![Complex::new(1.0, 1.0); n / 2];
                let mut o = vec![7.0; n];
                let xi: Vec<f64> = x.iter().map(|x| x * 2.0).collect();
                tw.forward(&xi, &mut y);
                tw.reverse(&y, &mut o);
                same!(cx, o, xi, "twisted round trip N={n} at {i}");
                let rf = RealFft::<f64>::new(n);
                let mut y = vec![Complex::new(0.0, 0.0); n / 2 + 1];
                let mut o = vec![7.0; n];
                rf.forward(&x, &mut y);
                rf.reverse(&y, &mut o);
                cx.ev(true);
                ensure!(o.iter().zip(&x).all(|(a, b)| (a - b).abs() < 1e-9), "real round trip N={n} at {i}: {o:?}");
            }
        }
        Ok(())
    });
    ck.case("mismatched lengths", "refused", |cx| {
        for (a, b, c) in [(4usize, 8usize, 8usize), (8, 4, 8), (8, 8, 4), (3, 3, 3)] {
            let (ta, tb) = (ts::<u64>(&vec![1; a]), ints::<u64>(&vec![1; b]));
            let mut tc = ts::<u64>(&vec![1; c]);
            cx.ev(true);
            ensure!(must_panic(|| polynomial_external_mad(&mut tc, &ta, &tb)), "external product of lengths {a} {b} into {c}");
            if a == b && b == c { continue; }
            let (pa, pb, mut pc) = (ts::<u64>(&vec![1; a]), ts::<u64>(&vec![1; b]), ts::<u64>(&vec![1; c]));
            cx.ev(true);
            ensure!(must_panic(|| polynomial_add(&mut pc, &pa, &pb)), "addition of lengths {a} {b} into {c}");
            ensure!(must_panic(|| polynomial_sub(&mut pc, &pa, &pb)), "subtraction of lengths {a} {b} into {c}");
        }
        Ok(())
    });
    ck.finish()
}
