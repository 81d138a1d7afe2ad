//! T12: ring automorphisms and the homomorphic trace.
use crate::t10::{near, width};
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::Complex;
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption as hl, fft as hfft, keygen},
    ops::{automorphisms::*, ciphertext::glwe_add_assign, fft_ops::keyswitch_glwe_to_glwe, polynomial::polynomial_pow_k},
    GlweDef, PlaintextBits, RadixDecomposition, Torus, TorusOps,
};

type C = Complex<f64>;

/// p(X^k) modulo X^N + 1, straight from the definition.
fn substitute(p: &[u64], k: usize, bits: u32) -> V {
    let n = p.len();
    let mut o = vec![0u64; n];
    for (i, c) in p.iter().enumerate() {
        let e = (i as u128 * k as u128 % (2 * n as u128)) as usize;
        if e < n { o[e] = o[e].wrapping_add(*c) } else { o[e - n] = o[e - n].wrapping_sub(*c) }
    }
    o.iter().map(|x| x & mask(bits)).collect()
}

fn half(r: &RadixDecomposition, bits: u32) -> u64 { 1 << (bits - (r.count.0 * r.radix_log.0) as u32 - 1) }
fn fft_room(r: &RadixDecomposition, terms: usize, bits: u32) -> u64 {
    let e = bits as i32 - 1 + r.radix_log.0 as i32 + (usize::BITS - terms.leading_zeros()) as i32 + 3 - 53;
    if e < 0 { 0 } else { 1 << e }
}

fn ct<S: TorusOps>(g: &GlweDef, w: &[u64]) -> GlweCiphertext<S> {
    let n = g.dim.polynomial_degree.0;
    let mut c = GlweCiphertext::<S>::new(g);
    let (a, b) = c.a_b_mut(g);
    for (i, p) in a.chain([b]).enumerate() {
        for (x, w) in p.coeffs_mut().iter_mut().zip(&w[i * n..]) { *x = t(*w) }
    }
    c
}
/// A ciphertext of phase `m` with the given mask words.
fn hiding<S: TorusOps>(g: &GlweDef, s: &[V], m: &[u64], masks: &[u64]) -> GlweCiphertext<S> {
    let n = g.dim.polynomial_degree.0;
    let mut w = masks[..n * g.dim.size.0].to_vec();
    w.extend(vec![0; n]);
    let c = ct::<S>(g, &w);
    let zero = glwe_phase(&c, s, g);
    let at = w.len() - n;
    for i in 0..n { w[at + i] = m[i].wrapping_sub(zero[i]) & mask(width::<S>()) }
    ct::<S>(g, &w)
}

fn near_all(cx: &mut Cx, got: &[u64], want: &[u64], room: u64, bits: u32, what: &dyn Fn() -> String) -> R {
    cx.ev(true);
    for c in 0..want.len() {
        ensure!(near(got[c], want[c], room, bits), "{}: coefficient {c} is {:#x} instead of {:#x} (room {room:#x})", what(), got[c], want[c]);
    }
    Ok(())
}

/// The homomorphic substitution for the exponent of step `i`, as the library composes it.
fn apply<S: TorusOps>(x: &GlweCiphertext<S>, exp: usize, key: &GlweKeyswitchKeyFftRef<C>, g: &GlweDef, r: &RadixDecomposition, kind: u8) -> GlweCiphertext<S> {
    let mut moved = GlweCiphertext::<S>::new(g);
    dirty(&mut *moved, kind);
    {
        let (a, b) = moved.a_b_mut(g);
        for (o, p) in a.chain([b]).zip(x.a(g).chain([x.b(g)])) { polynomial_pow_k::<Torus<S>, S>(o, p, exp) }
    }
    let mut out = GlweCiphertext::<S>::new(g);
    dirty(&mut *out, kind);
    poison(kind);
    keyswitch_glwe_to_glwe(&mut out, &moved, key, g, r);
    out
}

fn keys(g: &GlweDef, seed: u64) -> V {
    let len = g.dim.polynomial_degree.0 * g.dim.size.0;
    match seed {
        0 => (0..len).map(|i| 0x9E37_79B9_7F4A_7C15u64 >> (i * 11 % 64) & 1).collect(),
        1 => vec![1; len],
        2 => vec![0; len],
        3 => (0..len).map(|i| (i + 1 == len) as u64).collect(),
        4 => (0..len).map(|i| (i == 0) as u64).collect(),
        _ => (0..len).map(|i| 0xF0F0_5A5A_1234_FFFFu64 >> (i * 5 % 64) & 1).collect(),
    }
}

fn traces<S: TorusOps>(g: &GlweDef, r: &RadixDecomposition, seeds: u64, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let steps = n.ilog2() as usize;
    let exps: Vec<usize> = (0..steps).map(|i| n / (1 << i) + 1).collect();
    let step_room = half(r, bits).saturating_mul((n * k) as u64).saturating_add(fft_room(r, n * k * r.count.0, bits).saturating_mul(1 + (n * k) as u64)) + 1;
    let full_room = step_room.saturating_mul(n as u64 - 1);
    for seed in 0..seeds {
        rand::mc::seed(seed);
        let sk = glwe_key::<S>(g, &keys(g, seed));
        let s = glwe_words(&sk, g);
        let mut ak = AutomorphismKey::<S>::new(g, r);
        dirty(&mut *ak, (seed % 3) as u8);
        poison(seed as u8);
        generate_automorphism_key(&mut ak, &sk, g, r);
        let mut count = 0;
        for (i, key) in ak.keyswitch_keys(g, r).enumerate() {
            count += 1;
            for (row, glev) in key.rows(g, r).enumerate() {
                let moved = substitute(&s[row], exps[i], bits);
                for (l, c) in glev.glwe_ciphertexts(g).enumerate() {
                    let f = 1u64 << (bits as usize - r.radix_log.0 * (l + 1));
                    let want: V = moved.iter().map(|x| x.wrapping_mul(f) & mask(bits)).collect();
                    same!(cx, glwe_phase(c, &s, g), want, "automorphism key for X^{}: row {row} level {l}, key {seed}, N {n} k {k} {r:?}", exps[i]);
                }
            }
        }
        same!(cx, count, steps, "number of automorphism keys");
        let mut af = AutomorphismKeyFft::<C>::new(g, r);
        dirty(&mut *af, if seed % 2 == 0 { 0 } else { 3 });
        ak.fft(&mut af, g, r);

        // messages: every monomial (of 1, a boundary word, the largest word), boundary and arbitrary words everywhere
        let e = edge(bits);
        let mut ms: Vec<V> = vec![vec![0; n], vec![1; n], vec![mask(bits); n], vec![1 << (bits - 1); n]];
        for i in 0..n {
            for w in [1u64 << (bits - 2), 1 << (bits - 1), mask(bits)] { ms.push((0..n).map(|j| if i == j { w } else { 0 }).collect()) }
        }
        for a in 0..6 { ms.push((0..n).map(|i| e[(a * 3 + i * 7) % e.len()]).collect()) }
        for a in 0..3 { ms.push(arb(a + seed, n).iter().map(|x| x & mask(bits)).collect()) }
        for (mi, m) in ms.iter().enumerate() {
            let masks: V = match mi % 4 {
                0 => vec![0; n * k],
                1 => arb(mi as u64, n * k).iter().map(|x| x & mask(bits)).collect(),
                2 => (0..n * k).map(|i| e[(i + mi) % e.len()]).collect(),
                _ => vec![mask(bits); n * k],
            };
            let x = hiding::<S>(g, &s, m, &masks);
            same!(cx, glwe_phase(&x, &s, g), m.clone(), "fixture phase");
            let kind = (mi % 3) as u8;
            for (i, key) in af.keyswitch_keys(g, r).enumerate() {
                let got = apply(&x, exps[i], key, g, r, kind);
                near_all(cx, &glwe_phase(&got, &s, g), &substitute(m, exps[i], bits), step_room, bits, &|| format!("X to X^{} of {m:x?}, key {seed}, N {n} k {k} {r:?}", exps[i]))?;
            }
            if full_room >= 1 << (bits - 2) { continue }
            let mut out = GlweCiphertext::<S>::new(g);
            dirty(&mut *out, kind);
            poison(kind + 1);
            trace(&mut out, &x, &af, g, r);
            let mut want = vec![0u64; n];
            want[0] = m[0].wrapping_mul(n as u64) & mask(bits);
            near_all(cx, &glwe_phase(&out, &s, g), &want, full_room, bits, &|| format!("trace of {m:x?}, mask variant {}, key {seed}, N {n} k {k} {r:?}", mi % 4))?;
            // the trace is the composition of the substitutions
            if mi % 5 == 0 {
                let mut y = x.clone();
                for (i, key) in af.keyswitch_keys(g, r).enumerate() {
                    let z = apply(&y, exps[i], key, g, r, kind);
                    glwe_add_assign(&mut y, &z, g);
                }
                same!(cx, glwe_flat(&y, g), glwe_flat(&out, g), "step-by-step trace of {m:x?}");
            }
        }
    }
    Ok(())
}

/// Through the high-level interface with encoded messages: a message divided by N first is recovered exactly.
fn messages(g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let n = g.dim.polynomial_degree.0;
    let room = (half(r, 64).saturating_mul((n * g.dim.size.0) as u64) + fft_room(r, n * g.dim.size.0 * r.count.0, 64).saturating_mul(1 + (n * g.dim.size.0) as u64)).saturating_mul(n as u64);
    for seed in 0..2 {
        rand::mc::seed(seed);
        let sk = keygen::generate_binary_glwe_sk(g);
        let ak = keygen::generate_automorphism_key(&sk, g, r);
        let af = hfft::fft_automorphism_key(&ak, g, r);
        let p = n.ilog2() + 3;
        if room >= 1 << (63 - p) { continue }
        for m0 in 0..8u64 {
            for rest in [0, 1, 7, mask(p)] {
                let m: V = (0..n).map(|i| if i == 0 { m0 } else { (rest * i as u64) & mask(p) }).collect();
                let x = hl::encrypt_glwe(&ip::<u64>(&m), &sk, g, PlaintextBits(p));
                let mut out = GlweCiphertext::<u64>::new(g);
                dirty(&mut *out, (m0 % 3) as u8);
                trace(&mut out, &x, &af, g, r);
                let mut want = vec![0; n];
                want[0] = m0 * n as u64 & mask(p);
                same!(cx, iv(&hl::decrypt_glwe(&out, &sk, g, PlaintextBits(p))), want, "trace of encrypted {m:?} of {p} bits, N {n}");
            }
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T12", "exploration",
        "every automorphism exponent N/2^i+1 of every ring size, on every monomial with boundary words, on polynomials of boundary and arbitrary words, under masks of zero, boundary, extreme and arbitrary words, six key shapes, used buffers and poisoned scratch memory; every component of every automorphism key; the trace of all of them, and its step-by-step composition; ring sizes and decompositions of a grid, two word widths; oracle: the substitution X -> X^k on plain integers, within the computed rounding room");
    ck.set_wrap(one_thread);
    let mut shapes = vec![(16, 1), (16, 2), (16, 3), (32, 1), (32, 2), (64, 1)];
    shapes.extend([(64, 3), (256, 1)]);
    if ck.thorough { shapes.extend([(64, 2), (128, 1), (512, 1), (1024, 1)]) }
    let r64 = [rad(4, 8), rad(6, 7), rad(2, 15), rad(10, 4), rad(1, 25), rad(20, 2)];
    let r32 = [rad(4, 6), rad(3, 9), rad(9, 3)];
    let mut jobs = vec![];
    for s in &shapes { for (i, r) in r64.iter().enumerate() { jobs.push((*s, *r, true)); if i < 3 { jobs.push((*s, r32[i], false)) } } }
    ck.par("substitutions and traces", &jobs, |(s, r, wide)| format!("N {} k {} {r:?} {} bits", s.0, s.1, if *wide { 64 } else { 32 }), |(s, r, wide), cx| {
        let g = gdef(s.0, s.1);
        let seeds = if s.0 > 64 { 2 } else { 6 };
        if *wide { traces::<u64>(&g, r, seeds, cx) } else { traces::<u32>(&g, r, seeds, cx) }
    });
    ck.par("messages", &shapes, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        for r in &r64 { messages(&gdef(*n, *k), r, cx)? }
        Ok(())
    });
    ck.finish()
}
