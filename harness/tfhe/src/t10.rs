//! T10: programmable bootstrapping evaluates the lookup table.
use crate::t04::monomial;
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::Complex;
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption as hl, evaluation, fft, keygen},
    ops::bootstrapping::{generalized_programmable_bootstrap, generate_bootstrap_key, programmable_bootstrap_bivariate, programmable_bootstrap_univariate},
    CarryBits, GlweDef, LweDef, PlaintextBits, RadixDecomposition, TorusOps,
};

pub fn width<S>() -> u32 {
    size_of::<S>() as u32 * 8
}
/// Largest phase error of one product with an encrypted bit: rounding of the decomposition and of the transforms.
pub fn select_room(r: &RadixDecomposition, g: &GlweDef, bits: u32) -> u64 {
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let used = (r.count.0 * r.radix_log.0) as u32;
    let half = if used >= bits { 0 } else { 1u64 << (bits - used - 1) };
    let terms = n * (k + 1) * r.count.0;
    let e = bits as i32 - 1 + r.radix_log.0 as i32 + (usize::BITS - terms.leading_zeros()) as i32 + 3 - 53;
    let fft = if e < 0 { 0 } else { 1u64 << e };
    half.saturating_add(fft).saturating_mul(1 + (n * k) as u64)
}
pub fn near(x: u64, y: u64, room: u64, bits: u32) -> bool {
    dist(x, y, bits).unsigned_abs() <= room
}

struct Boot<S: TorusOps> {
    d: LweDef,
    g: GlweDef,
    r: RadixDecomposition,
    lk: V,
    gk: Vec<V>,
    bsk: BootstrapKeyFft<Complex<f64>>,
    /// Error of a whole bootstrap.
    room: u64,
    _s: std::marker::PhantomData<S>,
}
fn boot<S: TorusOps>(lk: &[u64], g: &GlweDef, r: &RadixDecomposition, seed: u64) -> Boot<S> {
    let d = ldef(lk.len());
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    rand::mc::seed(seed);
    let pat = [0x9E37_79B9_7F4A_7C15u64, 0xF0F0_5A5A_1234_FFFF, 1, 0x8000_0000_0000_0001][seed as usize % 4];
    let (sl, sg) = (lwe_key::<S>(&d, lk), glwe_key::<S>(g, &(0..n * k).map(|i| pat >> (i * 11 % 64) & 1).collect::<V>()));
    let mut key = BootstrapKey::<S>::new(&d, g, r);
    dirty(&mut *key, (seed % 3) as u8);
    poison(seed as u8);
    generate_bootstrap_key(&mut key, &sl, &sg, &d, g, r);
    let mut bsk = BootstrapKeyFft::new(&d, g, r);
    dirty(&mut *bsk, 3 * (seed % 2) as u8);
    key.fft(&mut bsk, &d, g, r);
    let room = select_room(r, g, width::<S>()).saturating_mul(lk.len() as u64);
    Boot { lk: lwe_words(&sl), gk: glwe_words(&sg, g), d, g: g.clone(), r: r.clone(), bsk, room, _s: std::marker::PhantomData }
}
fn lwe_ct<S: TorusOps>(d: &LweDef, a: &[u64], b: u64) -> LweCiphertext<S> {
    let mut c = LweCiphertext::<S>::new(d);
    let (x, y) = c.a_b_mut(d);
    for (x, w) in x.iter_mut().zip(a) { *x = t(*w) }
    *y = t(b);
    c
}
/// Phase of an LWE ciphertext under the key extracted from the ring key.
fn extracted_phase<S: TorusOps>(c: &LweCiphertextRef<S>, b: &Boot<S>) -> u64 {
    lwe_phase(c, &b.gk.concat(), &b.g.as_lwe_def())
}

/// What the table must hold: function `h = i mod v` of the message whose interval contains `i - h`.
fn table(fs: &[V], p: u32, n: usize, bits: u32) -> V {
    let v = fs.len().next_power_of_two();
    let stride = n >> p;
    let half = stride / 2 / v * v;
    (0..n).map(|i| {
        let (h, base) = (i % v, i - i % v);
        if h >= fs.len() { return 0 }
        let m = (base + half) / stride;
        if m == 1 << p { enc(fs[h][0], p, bits).wrapping_neg() & mask(bits) } else { enc(fs[h][m], p, bits) }
    }).collect()
}
/// Functions on p bits as value lists: all of them up to two bits, then constants, one-hot, affine and bit tricks.
fn functions(p: u32, all: bool) -> Vec<V> {
    let q = 1u64 << p;
    if p == 1 || (p == 2 && all) {
        return (0..q.pow(q as u32)).map(|x| (0..q).map(|m| x / q.pow(m as u32) % q).collect()).collect();
    }
    let mut v: Vec<V> = vec![];
    for a in 0..q { for b in 0..q { v.push((0..q).map(|m| (a * m + b) % q).collect()) } }
    for i in 0..q { for y in [1, q / 2, q - 1] { v.push((0..q).map(|m| if m == i { y } else { 0 }).collect()) } }
    for y in 1..q { v.push((0..q).map(|m| m ^ y).collect()) }
    v.push((0..q).map(|m| m.count_ones() as u64 % q).collect());
    v.push((0..q).map(|m| (m * m) % q).collect());
    v.sort();
    v.dedup();
    v
}

fn tables<S: TorusOps>(p: u32, g: &GlweDef, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let pb = PlaintextBits(p);
    let fs = functions(p, true);
    let check = |cx: &mut Cx, lut: &UnivariateLookupTableRef<S>, fs: &[V]| -> R {
        let mut want = vec![0; n * k];
        want.extend(table(fs, p, n, bits));
        same!(cx, glwe_flat(lut.glwe(), g), want, "table of {fs:?} on {p} bits, N {n} k {k}");
        Ok(())
    };
    for (i, f) in fs.iter().enumerate() {
        poison(i as u8);
        let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|m| f[m as usize], g, pb);
        check(cx, &lut, std::slice::from_ref(f))?;
        dirty(&mut *lut, (i % 3) as u8);
        lut.fill_trivial_from_fns(&[|m: u64| f[m as usize]], g, pb);
        check(cx, &lut, std::slice::from_ref(f))?;
    }
    for v in 2usize..=8 {
        if n >> p < v.next_power_of_two() { break }
        for s in 0..fs.len().min(200) {
            let tuple: Vec<V> = (0..v).map(|h| fs[(s * (2 * h + 1) + h * 3) % fs.len()].clone()).collect();
            let maps: Vec<_> = tuple.iter().map(|f| move |m: u64| f[m as usize]).collect();
            poison(s as u8);
            let mut lut = UnivariateLookupTable::<S>::trivivial_multifunctional(&maps, g, pb);
            check(cx, &lut, &tuple)?;
            dirty(&mut *lut, (s % 3) as u8);
            lut.fill_trivial_from_fns(&maps, g, pb);
            check(cx, &lut, &tuple)?;
        }
    }
    for x in 0..1u64 << p {
        for kind in 0..3 {
            let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, g, pb);
            dirty(&mut *lut, kind);
            lut.fill_with_constant(S::from_u64(x), g, pb);
            let mut want = vec![0; n * k];
            want.extend(vec![enc(x, p, bits); n]);
            same!(cx, glwe_flat(lut.glwe(), g), want, "constant table {x} of {p} bits");
            if n < 4 { continue }
            let mut two = BivariateLookupTable::<S>::trivial_from_fn(|_, _| 0, g, PlaintextBits(1), CarryBits(1));
            dirty(&mut *two, kind);
            two.fill_with_constant(S::from_u64(x), g, pb);
            same!(cx, glwe_flat(two.glwe(), g), want, "constant bivariate table {x} of {p} bits");
        }
    }
    Ok(())
}

/// Two-argument functions on p bits.
fn functions2(p: u32) -> Vec<V> {
    let q = 1u64 << p;
    if p == 1 { return (0..16).map(|x| (0..4).map(|i| x >> i & 1).collect()).collect() }
    let mut v: Vec<V> = vec![];
    let ops: [fn(u64, u64, u64) -> u64; 9] = [|a, _, _| a, |_, b, _| b, |a, b, q| (a + b) % q, |a, b, q| (a + q - b) % q, |a, b, q| a * b % q, |a, b, _| a & b, |a, b, _| a ^ b, |a, b, _| (a < b) as u64, |a, b, q| (3 * a + 2 * b * b + 1) % q];
    for f in ops { v.push((0..q * q).map(|i| f(i / q, i % q, q)).collect()) }
    for i in 0..q * q { v.push((0..q * q).map(|j| if i == j { q - 1 } else { 0 }).collect()) }
    v
}
/// What a two-argument table must hold for the packed input m: the high and low p bits below the carry.
fn packed(f: &[u64], p: u32, carry: u32) -> V {
    (0..1u64 << (p + carry)).map(|m| f[(m & mask(2 * p)) as usize]).collect()
}
fn tables2<S: TorusOps>(p: u32, carry: u32, g: &GlweDef, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    for (i, f) in functions2(p).iter().enumerate() {
        poison(i as u8);
        let map = |a: u64, b: u64| f[(a << p | b) as usize];
        let mut lut = BivariateLookupTable::<S>::trivial_from_fn(map, g, PlaintextBits(p), CarryBits(carry));
        let mut want = vec![0; n * k];
        want.extend(table(&[packed(f, p, carry)], p + carry, n, bits));
        same!(cx, glwe_flat(lut.glwe(), g), want, "bivariate table of {f:?} on {p}+{carry} bits, N {n} k {k}");
        dirty(&mut *lut, (i % 3) as u8);
        lut.fill_trivial_from_fn(map, g, PlaintextBits(p), CarryBits(carry));
        same!(cx, glwe_flat(lut.as_univariate().glwe(), g), want, "refilled bivariate table of {f:?} on {p}+{carry} bits");
    }
    Ok(())
}

/// Nearest multiple of 2N/2^log_v in units of the 2N circle (words never sit exactly between two).
fn switched(x: u64, log_chi: u32, log_v: u32, two_n: u32, bits: u32) -> i128 {
    let x = x << log_chi & mask(bits);
    let keep = two_n - log_v;
    (((x >> (bits - keep)) + (x >> (bits - keep - 1) & 1)) as i128) << log_v
}

fn rotation<S: TorusOps>(lk: &[u64], g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let b = boot::<S>(lk, g, r, lk.iter().sum::<u64>() + g.dim.size.0 as u64);
    let (n, k, d) = (g.dim.polynomial_degree.0, g.dim.size.0, lk.len());
    let two_n = n.ilog2() + 1;
    if b.room >= 1 << (bits - 3) { return Ok(()) }
    let unit = 1u64 << (bits - two_n);
    // tables of arbitrary content: trivial ones, and ones with a mask (real ciphertexts)
    for content in 0..2u64 {
        let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, g, PlaintextBits(1));
        let w = arb(content + 3, n * (k + 1));
        let gl = lut.glwe_mut();
        {
            let (a, body) = gl.a_b_mut(g);
            for (i, p) in a.enumerate() {
                for (c, x) in p.coeffs_mut().iter_mut().enumerate() { *x = t(if content == 0 { 0 } else { w[i * n + c] & mask(bits) }) }
            }
            for (c, x) in body.coeffs_mut().iter_mut().enumerate() { *x = t(w[n * k + c] & mask(bits)) }
        }
        let plain = glwe_phase(lut.glwe(), &b.gk, g);
        for (log_chi, log_v) in [(0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (1, 2), (0, 3)] {
            if log_v > two_n - 1 { continue }
            let whole = content == 0 && log_chi == 0 && log_v == 0;
            let grid: Vec<u64> = if d == 1 && whole { (0..2 * n as u64).collect() } else { vec![0, 1, 2, n as u64 / 2, n as u64 - 1, n as u64, n as u64 + 1, 2 * n as u64 - 1] };
            // words on the grid, and words just short of half way to the neighbours
            let step = unit << log_v >> log_chi;
            let mut words: V = grid.iter().map(|x| x.wrapping_mul(unit) & mask(bits)).collect();
            if !whole || d > 1 { for x in grid.iter().step_by(3) { for o in [step / 2 - 1, (step / 2 - 1).wrapping_neg(), 1] { words.push(x.wrapping_mul(step).wrapping_add(o) & mask(bits)) } } }
            words.retain(|x| { let y = x << log_chi & mask(bits); (y << (two_n - log_v)) & mask(bits) != 1 << (bits - 1) });
            let bodies: V = if d == 1 && whole { words.clone() } else { words.iter().copied().step_by(2).collect() };
            let mut idx = 0usize;
            for (i, &x) in words.iter().enumerate() {
                for &body in &bodies {
                    idx += 1;
                    let a: V = (0..d).map(|j| words[(i + j * (1 + idx % 5)) % words.len()]).map(|w| if d == 1 { x } else { w }).collect();
                    let ct = lwe_ct::<S>(&b.d, &a, body);
                    let mut out = GlweCiphertext::<S>::new(g);
                    dirty(&mut *out, (idx % 3) as u8);
                    if idx % 7 == 0 { poison(idx as u8) }
                    generalized_programmable_bootstrap(&mut out, &ct, &lut, &b.bsk, log_chi, log_v, &b.d, g, r);
                    let mut rot = switched(body, log_chi, log_v, two_n, bits);
                    for (a, s) in a.iter().zip(&b.lk) { rot -= switched(*a, log_chi, log_v, two_n, bits) * *s as i128 }
                    let want = monomial(&plain, -rot);
                    let got = glwe_phase(&out, &b.gk, g);
                    cx.ev(true);
                    for c in 0..n {
                        ensure!(near(got[c], want[c], b.room, bits), "coefficient {c}: {:#x} instead of {:#x} (room {:#x}) after rotating table {content} by {rot}; mask {a:x?} body {body:#x} key {:?} chi {log_chi} v {log_v} N {n} k {k} {r:?}", got[c], want[c] & mask(bits), b.room, b.lk);
                    }
                }
            }
        }
    }
    Ok(())
}

fn univariate<S: TorusOps>(p: u32, lk: &[u64], g: &GlweDef, r: &RadixDecomposition, all: bool, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let b = boot::<S>(lk, g, r, lk.iter().sum::<u64>() * 3 + p as u64);
    let (n, d) = (g.dim.polynomial_degree.0, lk.len());
    let stride = n >> p;
    if b.room >= 1 << (bits - p - 2) || stride == 0 { return Ok(()) }
    let unit = 1u64 << (bits - n.ilog2() - 1);
    let masks: Vec<V> = [0, 1, n as u64 - 1, n as u64, 2 * n as u64 - 3].iter().enumerate().map(|(i, x)| (0..d as u64).map(|j| x.wrapping_add(j * (i as u64 + 3)).wrapping_mul(unit) & mask(bits)).collect()).collect();
    for (fi, f) in functions(p, all).iter().enumerate() {
        let lut = UnivariateLookupTable::<S>::trivial_from_fn(|m| f[m as usize], g, PlaintextBits(p));
        for m in 0..1i64 << p {
            for off in -(stride as i64 / 2)..(stride as i64 + 1) / 2 {
                // below the padding bit, and above it (where the answer is negated)
                for pad in [0, 1] {
                    let pos = m * stride as i64 + off + pad * n as i64;
                    let a = &masks[(fi + m as usize + off.unsigned_abs() as usize + pad as usize) % masks.len()];
                    let body = a.iter().zip(&b.lk).fold((pos as u64).wrapping_mul(unit), |x, (a, s)| x.wrapping_add(a.wrapping_mul(*s))) & mask(bits);
                    let ct = lwe_ct::<S>(&b.d, a, body);
                    let mut out = LweCiphertext::<S>::new(&g.as_lwe_def());
                    dirty(&mut *out, (fi % 3) as u8);
                    programmable_bootstrap_univariate(&mut out, &ct, &lut, &b.bsk, &b.d, g, r);
                    let want = enc(f[m as usize], p, bits);
                    let want = if pad == 1 { want.wrapping_neg() & mask(bits) } else { want };
                    let got = extracted_phase(&out, &b);
                    cx.ev(true);
                    ensure!(near(got, want, b.room, bits), "function {f:?} of message {m} at offset {off} of {stride} (padding bit {pad}): {got:#x} instead of {want:#x}, key {:?}, N {n}, {r:?}", b.lk);
                }
            }
        }
    }
    Ok(())
}

fn several<S: TorusOps>(p: u32, v: usize, lk: &[u64], g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let b = boot::<S>(lk, g, r, lk.iter().sum::<u64>() * 5 + p as u64);
    let (n, d) = (g.dim.polynomial_degree.0, lk.len());
    let (stride, cv) = (n >> p, v.next_power_of_two());
    if b.room >= 1 << (bits - p - 2) || stride < cv { return Ok(()) }
    let unit = (cv as u64) << (bits - n.ilog2() - 1);
    let fs = functions(p, true);
    for s in 0..fs.len().min(60) {
        let tuple: Vec<V> = (0..v).map(|h| fs[(s * (2 * h + 1) + h * 3) % fs.len()].clone()).collect();
        let maps: Vec<_> = tuple.iter().map(|f| move |m: u64| f[m as usize]).collect();
        let lut = UnivariateLookupTable::<S>::trivivial_multifunctional(&maps, g, PlaintextBits(p));
        let slots = (stride / cv) as i64;
        for m in 0..1i64 << p {
            for off in -(slots / 2)..(slots + 1) / 2 {
                for pad in [0, 1] {
                    let pos = m * slots + off + pad * (n / cv) as i64;
                    let a: V = (0..d as u64).map(|j| (s as u64 + j * 3 + m as u64).wrapping_mul(unit) & mask(bits)).collect();
                    let body = a.iter().zip(&b.lk).fold((pos as u64).wrapping_mul(unit), |x, (a, s)| x.wrapping_add(a.wrapping_mul(*s))) & mask(bits);
                    let ct = lwe_ct::<S>(&b.d, &a, body);
                    let mut out = GlweCiphertext::<S>::new(g);
                    dirty(&mut *out, (s % 3) as u8);
                    generalized_programmable_bootstrap(&mut out, &ct, &lut, &b.bsk, 0, cv.ilog2(), &b.d, g, r);
                    let got = glwe_phase(&out, &b.gk, g);
                    cx.ev(true);
                    for h in 0..v {
                        let want = enc(tuple[h][m as usize], p, bits);
                        let want = if pad == 1 { want.wrapping_neg() & mask(bits) } else { want };
                        ensure!(near(got[h], want, b.room, bits), "function {h} of {tuple:?} of message {m} at offset {off} of {slots} (padding bit {pad}): {:#x} instead of {want:#x}, key {:?}, N {n}, {r:?}", got[h], b.lk);
                    }
                }
            }
        }
    }
    Ok(())
}

fn bivariate<S: TorusOps>(p: u32, carry: u32, lk: &[u64], g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let b = boot::<S>(lk, g, r, lk.iter().sum::<u64>() * 7 + p as u64);
    let (n, d) = (g.dim.polynomial_degree.0, lk.len());
    let total = p + carry;
    let stride = n >> total;
    if b.room >= 1 << (bits - total - 2) || stride == 0 { return Ok(()) }
    let unit = 1u64 << (bits - n.ilog2() - 1);
    for (fi, f) in functions2(p).iter().enumerate() {
        let lut = BivariateLookupTable::<S>::trivial_from_fn(|x, y| f[(x << p | y) as usize], g, PlaintextBits(p), CarryBits(carry));
        for x in 0..1u64 << p {
            for y in 0..1u64 << p {
                // the right operand's offset moves the packed phase by itself, the left operand's by 2^p as much
                for off in -(stride as i64 / 2)..(stride as i64 + 1) / 2 {
                    let ct = |m: u64, off: i64, salt: u64| {
                        let a: V = (0..d as u64).map(|j| (salt + j * 5 + fi as u64).wrapping_mul(unit) & mask(bits)).collect();
                        let pos = m as i64 * stride as i64 + off;
                        let body = a.iter().zip(&b.lk).fold((pos as u64).wrapping_mul(unit), |x, (a, s)| x.wrapping_add(a.wrapping_mul(*s))) & mask(bits);
                        lwe_ct::<S>(&b.d, &a, body)
                    };
                    let (l, rt) = (ct(x, 0, 3), ct(y, off, 11));
                    let mut out = LweCiphertext::<S>::new(&g.as_lwe_def());
                    dirty(&mut *out, (fi % 3) as u8);
                    if fi % 5 == 0 { poison(fi as u8) }
                    programmable_bootstrap_bivariate(&mut out, &l, &rt, &lut, &b.bsk, &b.d, g, PlaintextBits(p), r);
                    let want = enc(f[(x << p | y) as usize], total, bits);
                    let got = extracted_phase(&out, &b);
                    cx.ev(true);
                    ensure!(near(got, want, b.room, bits), "f({x},{y}) of {f:?} on {p}+{carry} bits, offset {off}: {got:#x} instead of {want:#x}, key {:?}, N {n}, {r:?}", b.lk);
                }
            }
        }
    }
    Ok(())
}

/// Encrypt, bootstrap and decrypt through the high-level interface, masks arbitrary.
fn whole(p: u32, d: usize, n: usize, noisy: Option<(LweDef, GlweDef)>, rounds: usize, cx: &mut Cx) -> R {
    rand::mc::seed(p as u64 * 31 + d as u64);
    let (l, g) = noisy.unwrap_or((ldef(d), gdef(n, 1)));
    let n = g.dim.polynomial_degree.0;
    let r = rad(2, 16);
    let (sl, sg) = (keygen::generate_binary_lwe_sk(&l), keygen::generate_binary_glwe_sk(&g));
    let bsk = fft::fft_bootstrap_key(&keygen::generate_bootstrapping_key(&sl, &sg, &l, &g, &r), &l, &g, &r);
    let fs = functions(p, false);
    for i in 0..rounds {
        let f = &fs[i * 37 % fs.len()];
        let lut = UnivariateLookupTable::<u64>::trivial_from_fn(|m| f[m as usize], &g, PlaintextBits(p));
        for m in 0..1u64 << p {
            let ct = hl::encrypt_lwe_secret(m, &sl, &l, PlaintextBits(p + 1));
            let out = evaluation::univariate_programmable_bootstrap(&ct, &lut, &bsk, &l, &g, &r);
            let got = hl::decrypt_lwe(&out, sg.to_lwe_secret_key(), &g.as_lwe_def(), PlaintextBits(p));
            same!(cx, got, f[m as usize], "function {f:?} of {m}, dimension {}, N {n}", l.dim.0);
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T10", "exploration",
        "every function on 1 and 2 bits (constants, one-hot, affine and bitwise functions on 3 and 4) as a table, alone and in tuples of 2 to 8, over a grid of ring sizes, in fresh and used tables; every rotation of tables of arbitrary content by every pair of mask and body on the 2N circle and by words just short of half way; every function at every message and every position of its interval, below and above the padding bit, for every binary key of dimension 1 to 3; every pair of messages of two-argument functions; oracle: the table's definition and plain polynomial rotation, within the computed rounding room");
    ck.set_wrap(one_thread);
    let mut ts = vec![];
    for p in 1..=4u32 {
        for n in [2usize, 4, 8, 16, 32, 64, 128, 256] {
            if n >> p == 0 { continue }
            for k in [1, 3] { ts.push((p, n, k)) }
        }
    }
    ck.par("tables", &ts, |(p, n, k)| format!("{p} bits N {n} k {k}"), |(p, n, k), cx| { tables::<u64>(*p, &gdef(*n, *k), cx)?; tables::<u32>(*p, &gdef(*n, *k), cx) });
    let mut t2 = vec![];
    for (p, c) in [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)] {
        for n in [4usize, 16, 64, 256] { if n >> (p + c) > 0 { for k in [1, 2] { t2.push((p, c, n, k)) } } }
    }
    ck.par("two-argument tables", &t2, |(p, c, n, k)| format!("{p}+{c} bits N {n} k {k}"), |(p, c, n, k), cx| { tables2::<u64>(*p, *c, &gdef(*n, *k), cx)?; tables2::<u32>(*p, *c, &gdef(*n, *k), cx) });

    let r64 = [rad(2, 16), rad(3, 8), rad(6, 4), rad(1, 20)];
    let r32 = [rad(3, 8), rad(2, 10), rad(6, 4)];
    let keys: Vec<V> = (1..=ck.tier(3, 4)).flat_map(|d| (0..1u64 << d).map(move |x| bits(x, d))).chain([vec![1, 0, 1, 1], vec![1, 1, 0, 0, 1]]).collect();
    let mut rs = vec![];
    for lk in &keys { for (n, k) in ck.tier(vec![(16, 1), (16, 2), (16, 3), (32, 1), (64, 1)], vec![(16, 1), (16, 2), (16, 3), (32, 1), (32, 2), (64, 1), (64, 3), (128, 1), (256, 1)]) { rs.push((lk.clone(), n, k)) } }
    ck.par("rotation", &rs, |(lk, n, k)| format!("key {lk:?} N {n} k {k}"), |(lk, n, k), cx| {
        let g = gdef(*n, *k);
        for r in &r64 { rotation::<u64>(lk, &g, r, cx)? }
        for r in &r32 { rotation::<u32>(lk, &g, r, cx)? }
        Ok(())
    });
    let mut us = vec![];
    for p in 1..=3u32 { for lk in &keys { for (n, k) in ck.tier(vec![(16, 1), (16, 2), (32, 1), (64, 1)], vec![(16, 1), (16, 2), (16, 3), (32, 1), (32, 2), (64, 1), (128, 1)]) { us.push((p, lk.clone(), n, k)) } } }
    ck.par("one function", &us, |(p, lk, n, k)| format!("{p} bits key {lk:?} N {n} k {k}"), |(p, lk, n, k), cx| {
        let g = gdef(*n, *k);
        let all = ck.thorough || (*n == 16 && *k == 1 && lk.len() <= 2);
        univariate::<u64>(*p, lk, &g, &r64[*p as usize % 2], all, cx)?;
        univariate::<u32>(*p, lk, &g, &r32[*p as usize % 2], all && ck.thorough, cx)
    });
    let mut ss = vec![];
    for p in 1..=2u32 { for v in 2..=8usize { for lk in &keys[..ck.tier(6, keys.len())] { for n in [16, 32, 64] { ss.push((p, v, lk.clone(), n)) } } } }
    ck.par("several functions", &ss, |(p, v, lk, n)| format!("{v} functions of {p} bits key {lk:?} N {n}"), |(p, v, lk, n), cx| {
        let g = gdef(*n, 1 + v % 2);
        several::<u64>(*p, *v, lk, &g, &r64[0], cx)?;
        several::<u32>(*p, *v, lk, &g, &r32[0], cx)
    });
    let mut bs = vec![];
    for (p, c) in [(1, 1), (1, 2), (2, 2)] { for lk in &keys { for n in [16, 32] { bs.push((p, c, lk.clone(), n)) } } }
    ck.par("two arguments", &bs, |(p, c, lk, n)| format!("{p}+{c} bits key {lk:?} N {n}"), |(p, c, lk, n), cx| {
        let g = gdef(*n, 1);
        bivariate::<u64>(*p, *c, lk, &g, &r64[0], cx)?;
        bivariate::<u32>(*p, *c, lk, &g, &r32[0], cx)
    });
    let mut ws = vec![];
    for p in 1..=3u32 { for (d, n) in [(1, 64), (4, 128), (9, 256)] { ws.push((p, d, n)) } }
    ck.par("whole interface", &ws, |(p, d, n)| format!("{p} bits dimension {d} N {n}"), |(p, d, n), cx| whole(*p, *d, *n, None, 40, cx));
    {
        ck.par("shipped parameters", if ck.thorough { &[1u32, 2, 3][..] } else { &[2] }, |p| format!("{p} bits"), |p, cx| whole(*p, 637, 2048, Some((sunscreen_tfhe::LWE_637_128, sunscreen_tfhe::GLWE_1_2048_128)), 12, cx));
    }
    ck.finish()
}
