//! T11: selection by an encrypted bit, circuit bootstrapping, scheme switching and blind rotation.
use crate::t04::{monomial, negmul};
use crate::t10::{near, select_room, width};
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::Complex;
use std::{num::Wrapping, ops::{Add, Mul, Sub}};
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption as hl, evaluation, fft as hfft, keygen},
    ops::{bootstrapping::*, ciphertext as nofft, encryption::*, fft_ops, keyswitch::private_functional_keyswitch::generate_circuit_bootstrapping_pfks_keys},
    GlweDef, PlaintextBits, RadixDecomposition, TorusOps,
};

type C = Complex<f64>;

fn half(r: &RadixDecomposition, bits: u32) -> u64 {
    let used = (r.count.0 * r.radix_log.0) as u32;
    if used >= bits { 0 } else { 1 << (bits - used - 1) }
}
fn fft_room(r: &RadixDecomposition, terms: usize, bits: u32) -> u64 {
    let e = bits as i32 - 1 + r.radix_log.0 as i32 + (usize::BITS - terms.leading_zeros()) as i32 + 3 - 53;
    if e < 0 { 0 } else { 1 << e }
}
fn glwe_ct<S: TorusOps>(g: &GlweDef, w: &[u64]) -> GlweCiphertext<S> {
    let mut c = GlweCiphertext::<S>::new(g);
    let n = g.dim.polynomial_degree.0;
    let (a, b) = c.a_b_mut(g);
    for (i, p) in a.chain([b]).enumerate() {
        for (x, w) in p.coeffs_mut().iter_mut().zip(&w[i * n..]) { *x = t(*w) }
    }
    c
}
fn key<S: TorusOps>(g: &GlweDef, seed: u64) -> (GlweSecretKey<S>, Vec<V>) {
    let len = g.dim.polynomial_degree.0 * g.dim.size.0;
    let w: V = match seed % 4 {
        0 => (0..len).map(|i| 0x9E37_79B9_7F4A_7C15u64 >> (i * 11 % 64) & 1).collect(),
        1 => vec![1; len],
        2 => (0..len).map(|i| (i + 1 == len) as u64).collect(),
        _ => (0..len).map(|i| 0xF0F0_5A5A_1234_FFFFu64 >> (i * 5 % 64) & 1).collect(),
    };
    let sk = glwe_key::<S>(g, &w);
    let s = glwe_words(&sk, g);
    (sk, s)
}
fn close(cx: &mut Cx, got: &[u64], want: &[u64], room: u64, bits: u32, what: impl Fn() -> String) -> R {
    cx.ev(true);
    for c in 0..want.len() {
        ensure!(near(got[c], want[c], room, bits), "{}: coefficient {c} is {:#x} instead of {:#x} (room {room:#x})", what(), got[c], want[c] & mask(bits));
    }
    Ok(())
}
/// Words to put in operands: boundary words in rotation, and arbitrary ones.
fn operands(len: usize, bits: u32, many: bool) -> Vec<V> {
    let e = edge(bits);
    let mut v: Vec<V> = (0..e.len()).step_by(if many { 1 } else { 4 }).map(|s| (0..len).map(|i| e[(s + i * 5) % e.len()]).collect()).collect();
    for s in 0..2 { v.push(arb(s + len as u64, len).iter().map(|x| x & mask(bits)).collect()) }
    v
}

/// Phases of every row and level of a selector: -m*s_j/B^(l+1) and m/B^(l+1).
fn selector<S: TorusOps>(cx: &mut Cx, got: &GgswCiphertextRef<S>, m: &[u64], s: &[V], g: &GlweDef, r: &RadixDecomposition, room: &dyn Fn(usize) -> u64, what: &dyn Fn() -> String) -> R {
    let bits = width::<S>();
    let k = g.dim.size.0;
    for (j, row) in got.rows(g, r).enumerate() {
        for (l, c) in row.glwe_ciphertexts(g).enumerate() {
            let f = 1u64 << (bits as usize - r.radix_log.0 * (l + 1));
            let want: V = if j < k { negmul(&s[j], m).iter().map(|x| x.wrapping_mul(f).wrapping_neg() & mask(bits)).collect() } else { m.iter().map(|x| x.wrapping_mul(f) & mask(bits)).collect() };
            close(cx, &glwe_phase(c, s, g), &want, room(j), bits, || format!("{}: row {j} level {l}", what()))?;
        }
    }
    Ok(())
}

fn products<S: TorusOps>(g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let fft_ok = n >= 16;
    for seed in 0..4u64 {
        rand::mc::seed(seed);
        let (sk, s) = key::<S>(g, seed);
        let mut ms: Vec<V> = vec![vec![0; n], (0..n).map(|i| (i == 0) as u64).collect()];
        if seed < 2 {
            ms.push((0..n).map(|i| (i + 1 == n) as u64).collect());
            ms.push(vec![1; n]);
            ms.push((0..n).map(|i| (i as u64 * 3 + 1) % 4).collect());
        }
        for (mi, m) in ms.iter().enumerate() {
            let norm: u64 = m.iter().sum();
            let mut ggsw = GgswCiphertext::<S>::new(g, r);
            dirty(&mut *ggsw, (mi % 3) as u8);
            encrypt_ggsw_ciphertext(&mut ggsw, &ip::<S>(m), &sk, g, r, PlaintextBits(2));
            selector(cx, &ggsw, m, &s, g, r, &|_| 0, &|| format!("selector of {m:?} under {r:?}"))?;
            let mut gf = GgswCiphertextFft::new(g, r);
            if fft_ok {
                dirty(&mut *gf, 3);
                ggsw.fft(&mut gf, g, r);
            }
            let exact_room = half(r, bits).saturating_mul(norm * (1 + (n * k) as u64));
            let froom = exact_room.saturating_add(fft_room(r, n * (k + 1) * r.count.0, bits).saturating_mul(norm.max(1) * (1 + (n * k) as u64)));
            let ops = operands(n * (k + 1), bits, true);
            for (i, w) in ops.iter().enumerate() {
                let d0 = glwe_ct::<S>(g, w);
                let p0 = glwe_phase(&d0, &s, g);
                let want = negmul(m, &p0);
                if i % 3 == 0 { poison(i as u8) }
                let what = || format!("selector {m:?} times {w:x?}, key {seed}, N {n} k {k} {r:?}");
                close(cx, &glwe_phase(&nofft::external_product_ggsw_glwe(&ggsw, &d0, g, r), &s, g), &want, exact_room, bits, what)?;
                close(cx, &glwe_phase(&ggsw.external_product(&d0, g, r), &s, g), &want, exact_room, bits, what)?;
                // accumulates into the output
                let base = &ops[(i + 1) % ops.len()];
                let mut acc = glwe_ct::<S>(g, base);
                let before = glwe_phase(&acc, &s, g);
                nofft::glwe_ggsw_mad(&mut acc, &d0, &ggsw, g, r);
                let sum: V = want.iter().zip(&before).map(|(x, y)| x.wrapping_add(*y)).collect();
                close(cx, &glwe_phase(&acc, &s, g), &sum, exact_room, bits, what)?;
                if !fft_ok { continue }
                let mut accf = GlweCiphertextFft::new(g);
                if i % 2 == 0 { glwe_ct::<S>(g, base).fft(&mut accf, g) }
                fft_ops::glwe_ggsw_mad(&mut accf, &d0, &gf, g, r);
                let mut out = GlweCiphertext::<S>::new(g);
                dirty(&mut *out, (i % 3) as u8);
                accf.ifft(&mut out, g);
                close(cx, &glwe_phase(&out, &s, g), if i % 2 == 0 { &sum } else { &want }, froom, bits, what)?;
            }
        }
    }
    Ok(())
}

fn muxes<S: TorusOps>(g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let room = select_room(r, g, bits);
    if room >= 1 << (bits - 2) { return Ok(()) }
    for seed in 0..4u64 {
        rand::mc::seed(seed);
        let (sk, s) = key::<S>(g, seed);
        for bit in 0..2u64 {
            let mut ggsw = GgswCiphertext::<S>::new(g, r);
            encrypt_ggsw_ciphertext_scalar(&mut ggsw, S::from_u64(bit), &sk, g, r, PlaintextBits(1));
            let mut gf = GgswCiphertextFft::new(g, r);
            ggsw.fft(&mut gf, g, r);
            let ops = operands(n * (k + 1), bits, true);
            for (i, w0) in ops.iter().enumerate() {
                for (j, w1) in ops.iter().enumerate() {
                    let (d0, d1) = (glwe_ct::<S>(g, w0), glwe_ct::<S>(g, w1));
                    let mut out = GlweCiphertext::<S>::new(g);
                    dirty(&mut *out, ((i + j) % 3) as u8);
                    if (i + j) % 4 == 0 { poison(i as u8) }
                    fft_ops::cmux(&mut out, &d0, &d1, &gf, g, r);
                    let want = glwe_phase(if bit == 0 { &d0 } else { &d1 }, &s, g);
                    close(cx, &glwe_phase(&out, &s, g), &want, room, bits, || format!("select {bit} of {w0:x?} and {w1:x?}, key {seed}, N {n} k {k} {r:?}"))?;
                }
                // lev inputs: every level selected
                let (l0, l1) = (&ops[i], &ops[(i + 3) % ops.len()]);
                let lev = |a: &V, count: usize| {
                    let mut c = GlevCiphertext::<S>::new(g, &rad(count, 1));
                    for (l, x) in c.glwe_ciphertexts_mut(g).enumerate() {
                        let w: V = a.iter().map(|v| v.rotate_left(7 * l as u32) & mask(bits)).collect();
                        x.clone_from_ref(&glwe_ct::<S>(g, &w));
                    }
                    c
                };
                for count in 1..=3 {
                    let (x0, x1) = (lev(l0, count), lev(l1, count));
                    let mut out = GlevCiphertext::<S>::new(g, &rad(count, 1));
                    dirty(&mut *out, (i % 3) as u8);
                    fft_ops::glev_cmux(&mut out, &x0, &x1, &gf, g, r);
                    for (l, c) in out.glwe_ciphertexts(g).enumerate() {
                        let want = glwe_phase(if bit == 0 { &x0 } else { &x1 }.glwe_ciphertexts(g).nth(l).unwrap(), &s, g);
                        close(cx, &glwe_phase(c, &s, g), &want, room, bits, || format!("lev select {bit}, level {l} of {count}, N {n} k {k} {r:?}"))?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn messages(p: u32, g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let n = g.dim.polynomial_degree.0;
    if select_room(r, g, 64) >= 1 << (62 - p) { return Ok(()) }
    rand::mc::seed(p as u64);
    let sk = keygen::generate_binary_glwe_sk(g);
    for bit in 0..2u64 {
        let sel = hfft::fft_ggsw(&hl::encrypt_ggsw(bit, &sk, g, r, PlaintextBits(1)), g, r);
        // GLEVs have a level count of their own, whatever the selector's.
        for count in 1..=3usize {
            let lr = rad(count, 4);
            if p > 1 || select_room(r, g, 64) >= 1 << (62 - 4 * count) { continue }
            let m = |o: u64| -> V { (0..n as u64).map(|i| ((i * i + o * i + o) >> 1) & 1).collect() };
            let e = |o: u64| hl::encrypt_binary_msg_secret_glev(&ip::<u64>(&m(o)), &sk, g, &lr);
            let out = evaluation::glev_cmux(&sel, &e(1), &e(2), g, r);
            let levels: Vec<V> = out.glwe_ciphertexts(g).enumerate()
                .map(|(l, c)| iv(&hl::decrypt_glwe(c, &sk, g, PlaintextBits(4 * (l as u32 + 1))))).collect();
            same!(cx, levels, vec![m(1 + bit); count], "select {bit} of GLEVs with {count} levels, selector {r:?}");
        }
        for x in 0..1u64 << p {
            for y in 0..1u64 << p {
                let (a, b): (V, V) = ((0..n as u64).map(|i| (x + i * 3) & mask(p)).collect(), (0..n as u64).map(|i| (y * (i + 1)) & mask(p)).collect());
                let e = |m: &V| hl::encrypt_glwe(&ip::<u64>(m), &sk, g, PlaintextBits(p));
                let out = evaluation::cmux(&sel, &e(&a), &e(&b), g, r);
                same!(cx, iv(&hl::decrypt_glwe(&out, &sk, g, PlaintextBits(p))), if bit == 0 { a } else { b }, "select {bit} of messages {x}, {y} of {p} bits");
            }
        }
    }
    Ok(())
}

fn rotations<S: TorusOps>(g: &GlweDef, r: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let room = select_room(r, g, bits).saturating_mul(n.ilog2() as u64);
    if room >= 1 << (bits - 2) { return Ok(()) }
    for seed in 0..4u64 {
        rand::mc::seed(seed);
        let (sk, s) = key::<S>(g, seed);
        for amount in 0..n {
            let mut shift = BlindRotationShiftFft::new(g, r);
            dirty(&mut *shift, 3 * (amount % 2) as u8);
            generate_blind_rotation_shift(&mut shift, amount, &sk, g, r, PlaintextBits(1 + amount as u32 % 3));
            for (i, w) in operands(n * (k + 1), bits, false).iter().enumerate() {
                let ct = glwe_ct::<S>(g, w);
                let mut out = GlweCiphertext::<S>::new(g);
                dirty(&mut *out, (i % 3) as u8);
                if amount % 4 == 0 { poison(i as u8) }
                blind_rotation(&mut out, &shift, &ct, g, r);
                let want = monomial(&glwe_phase(&ct, &s, g), -(amount as i128));
                close(cx, &glwe_phase(&out, &s, g), &want, room, bits, || format!("rotation by {amount} of {w:x?}, key {seed}, N {n} k {k} {r:?}"))?;
            }
        }
    }
    Ok(())
}

fn switching<S: TorusOps>(g: &GlweDef, rg: &RadixDecomposition, rs: &RadixDecomposition, cx: &mut Cx) -> R
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    for seed in 0..4u64 {
        rand::mc::seed(seed);
        let (sk, s) = key::<S>(g, seed);
        let mut ssk = SchemeSwitchKey::<S>::new(g, rs);
        dirty(&mut *ssk, (seed % 3) as u8);
        generate_scheme_switch_key(&mut ssk, &sk, g, rs);
        // the key holds the product of every pair of key polynomials, found in either order
        for i in 0..k {
            for j in 0..k {
                let prod = negmul(&s[i], &s[j]);
                for (l, c) in ssk.get_glev_at_index(i, j, g, rs).glwe_ciphertexts(g).enumerate() {
                    let f = 1u64 << (bits as usize - rs.radix_log.0 * (l + 1));
                    let want: V = prod.iter().map(|x| x.wrapping_mul(f) & mask(bits)).collect();
                    same!(cx, glwe_phase(c, &s, g), want, "scheme switch key entry {i},{j} level {l}, key {seed}, N {n} k {k} {rs:?}");
                }
            }
        }
        let mut sf = SchemeSwitchKeyFft::new(g, rs);
        dirty(&mut *sf, 3 * (seed % 2) as u8);
        ssk.fft(&mut sf, g, rs);
        // rounding of the mask times products of two key polynomials
        let er = half(rs, bits).saturating_mul((k * n * n) as u64);
        let ef = er.saturating_add(fft_room(rs, n * k * rs.count.0 + n, bits).saturating_mul(1 + (n * k) as u64));
        let ef_last = fft_room(&rad(1, 1), n, bits).saturating_mul(1 + (n * k) as u64);
        let mut ms: Vec<V> = vec![vec![0; n], (0..n).map(|i| (i == 0) as u64).collect(), (0..n).map(|i| (i + 1 == n) as u64).collect(), (0..n).map(|i| (i as u64 * 3 + 1) % 2).collect()];
        if k == 1 { ms.push(vec![1; n]) }
        for (mi, m) in ms.iter().enumerate() {
            let mut glev = GlevCiphertext::<S>::new(g, rg);
            encrypt_secret_glev_ciphertext(&mut glev, ip::<S>(m).as_torus(), &sk, g, rg);
            for kind in 0..3u8 {
                let mut out = GgswCiphertext::<S>::new(g, rg);
                dirty(&mut *out, kind);
                poison(kind);
                scheme_switch(&mut out, &glev, &ssk, g, rg, rs);
                selector(cx, &out, m, &s, g, rg, &|j| if j < k { er } else { 0 }, &|| format!("scheme switch of {m:?}, output buffer kind {kind}, key {seed}, N {n} k {k} {rg:?} {rs:?}"))?;
                if n < 16 { continue }
                let mut of = GgswCiphertextFft::new(g, rg);
                dirty(&mut *of, if kind == 0 { 0 } else { 3 });
                poison(kind + 1);
                fft_ops::scheme_switch_fft(&mut of, &glev, &sf, g, rg, rs);
                let mut back = GgswCiphertext::<S>::new(g, rg);
                dirty(&mut *back, kind);
                of.ifft(&mut back, g, rg);
                selector(cx, &back, m, &s, g, rg, &|j| if j < k { ef } else { ef_last }, &|| format!("transformed scheme switch of {m:?}, output buffer kind {kind}, key {seed}, N {n} k {k} {rg:?} {rs:?}"))?;
            }
            let _ = mi;
        }
    }
    Ok(())
}

/// Select between words with a converted bit; `err` is the largest error of the selector's rows.
fn use_selector<S: TorusOps>(cx: &mut Cx, f: &GgswCiphertextFft<C>, bit: u64, s: &[V], g: &GlweDef, r: &RadixDecomposition, err: u64, what: &dyn Fn() -> String) -> R {
    let bits = width::<S>();
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let room = select_room(r, g, bits).saturating_add(err.saturating_mul((n * (k + 1) * r.count.0) as u64) << (r.radix_log.0 - 1));
    if room >= 1 << (bits - 3) { return Ok(()) }
    let ops = operands(n * (k + 1), bits, false);
    for i in 0..ops.len() {
        let (d0, d1) = (glwe_ct::<S>(g, &ops[i]), glwe_ct::<S>(g, &ops[(i + 1) % ops.len()]));
        let mut out = GlweCiphertext::<S>::new(g);
        fft_ops::cmux(&mut out, &d0, &d1, f, g, r);
        let want = glwe_phase(if bit == 0 { &d0 } else { &d1 }, s, g);
        close(cx, &glwe_phase(&out, s, g), &want, room, bits, || format!("{} used to select", what()))?;
    }
    Ok(())
}

/// An input in the given position. Ways 0 to 2: at the position's centre and at both ends of the range that
/// rounds to it, under masks that need no rounding. Way 3: arbitrary mask words; None where they could round
/// into the other half.
fn lwe_input<S: TorusOps>(lk: &[u64], pos: u64, unit: u64, way: u64) -> Option<LweCiphertext<S>> {
    let bits = width::<S>();
    let d = ldef(lk.len());
    let phase = pos.wrapping_mul(unit).wrapping_sub(1 << (bits - 2));
    let phase = match way { 1 => phase.wrapping_add(unit / 2 - 1), 2 => phase.wrapping_sub(unit / 2), _ => phase };
    let a: V = (0..lk.len() as u64).map(|j| if way < 3 { (pos * 3 + j * 5).wrapping_mul(unit) } else { arb(pos + 7, lk.len())[j as usize] } & mask(bits)).collect();
    if way == 3 {
        let slots = if unit == 0 { 0 } else { (mask(bits) / unit) + 1 };
        let reach = (lk.iter().sum::<u64>() + 2) / 2;
        let half = slots / 2;
        let at = pos % half;
        if at < reach || at + reach >= half { return None }
    }
    let body = a.iter().zip(lk).fold(phase, |x, (a, s)| x.wrapping_add(a.wrapping_mul(*s)));
    let mut c = LweCiphertext::<S>::new(&d);
    let (x, y) = c.a_b_mut(&d);
    for (x, w) in x.iter_mut().zip(&a) { *x = t(*w) }
    *y = t(body & mask(bits));
    Some(c)
}

/// Circuit bootstrapping by trace and scheme switching: every input position of both bits.
fn circuit(lk: &[u64], g: &GlweDef, rc: &RadixDecomposition, cx: &mut Cx) -> R {
    type S = u64;
    let bits = 64;
    let (n, k) = (g.dim.polynomial_degree.0, g.dim.size.0);
    let (rp, rt, rs) = (rad(2, 16), rad(7, 8), rad(4, 12));
    let d = ldef(lk.len());
    rand::mc::seed(lk.iter().sum::<u64>() + k as u64);
    let sl = lwe_key::<S>(&d, lk);
    let (sk, s) = key::<S>(g, lk.iter().sum::<u64>());
    let bsk = hfft::fft_bootstrap_key(&keygen::generate_bootstrapping_key(&sl, &sk, &d, g, &rp), &d, g, &rp);
    let ak = hfft::fft_automorphism_key(&keygen::generate_automorphism_key(&sk, g, &rt), g, &rt);
    let ssk = hfft::fft_scheme_switch_key(&keygen::generate_scheme_switch_key(&sk, g, &rs), g, &rs);
    let pbs = select_room(&rp, g, bits) * lk.len() as u64;
    let nk = (n * k) as u64;
    let ks = half(&rt, bits) * nk + fft_room(&rt, n * k * rt.count.0, bits) * (1 + nk);
    let e = pbs + n as u64 * (1 + nk) + n as u64 * ks;
    let ej = n as u64 * e + half(&rs, bits) * (k * n * n) as u64 + fft_room(&rs, n * k * rs.count.0 + n, bits) * (1 + nk);
    let ek = e + fft_room(&rad(1, 1), n, bits) * (1 + nk);
    let last = 1u64 << (bits as usize - rc.count.0 * rc.radix_log.0);
    if ej >= last / 4 { return Ok(()) }
    let cv = rc.count.0.next_power_of_two() as u64;
    let unit = cv << (bits - n.ilog2() - 1);
    let slots = 2 * n as u64 / cv;
    for pos in 0..slots {
        let m = (pos >= slots / 2) as u64;
        // position 0 is the lowest phase of message 0: a quarter turn below its centre
        for way in 0..4 {
        let Some(input) = lwe_input::<S>(lk, pos, unit, way) else { continue };
        for kind in [0u8, 3] {
            let mut out = GgswCiphertextFft::new(g, rc);
            dirty(&mut *out, kind);
            if pos % 4 == 1 { poison(kind) }
            circuit_bootstrap_via_trace_and_scheme_switch(&mut out, &input, &bsk, &ak, &ssk, &d, g, &rp, &rt, &rs, rc);
            let what = || format!("circuit bootstrap of bit {m} at position {pos} of {slots} (way {way}), key {lk:?}, output buffer kind {kind}, N {n} k {k} {rc:?}");
            let mut back = GgswCiphertext::<S>::new(g, rc);
            out.ifft(&mut back, g, rc);
            let mut mp = vec![0; n];
            mp[0] = m;
            selector(cx, &back, &mp, &s, g, rc, &|j| if j < k { ej } else { ek }, &what)?;
            use_selector::<S>(cx, &out, m, &s, g, rc, ej, &what)?;
        }
        if pos % 5 == way {
            let out = evaluation::circuit_bootstrap(&input, &bsk, &ak, &ssk, &d, g, &rp, &rt, &rs, rc);
            use_selector::<S>(cx, &out, m, &s, g, rc, ej, &|| format!("high-level circuit bootstrap of bit {m} at position {pos}"))?;
        }
        }
    }
    Ok(())
}

/// Circuit bootstrapping by private functional keyswitching.
fn circuit_pfks<S: TorusOps>(lk: &[u64], g1: &GlweDef, g2: &GlweDef, rc: &RadixDecomposition, rp: &RadixDecomposition, rf: &RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (n2, k2) = (g2.dim.polynomial_degree.0, g2.dim.size.0);
    let (n1, k1) = (g1.dim.polynomial_degree.0, g1.dim.size.0);
    let d = ldef(lk.len());
    rand::mc::seed(lk.iter().sum::<u64>() + k1 as u64);
    let sl = lwe_key::<S>(&d, lk);
    let (sk1, s1) = key::<S>(g1, lk.iter().sum::<u64>());
    let (sk2, _) = key::<S>(g2, lk.iter().sum::<u64>() + 3);
    let pbs = select_room(rp, g2, bits).saturating_mul(lk.len() as u64);
    let err = pbs.saturating_add(half(rf, bits).saturating_mul((n2 * k2 + 1) as u64));
    let last = 1u64 << (bits as usize - rc.count.0 * rc.radix_log.0);
    if err >= last / 4 { return Ok(()) }
    let mut bk = BootstrapKey::<S>::new(&d, g2, rp);
    generate_bootstrap_key(&mut bk, &sl, &sk2, &d, g2, rp);
    let mut bsk = BootstrapKeyFft::new(&d, g2, rp);
    bk.fft(&mut bsk, &d, g2, rp);
    let from = g2.as_lwe_def();
    let mut ksk = CircuitBootstrappingKeyswitchKeys::<S>::new(&from, g1, rf);
    dirty(&mut *ksk, 1);
    poison(1);
    generate_circuit_bootstrapping_pfks_keys(&mut ksk, sk2.to_lwe_secret_key(), &sk1, &from, g1, rf);
    let cv = rc.count.0.next_power_of_two() as u64;
    let unit = cv << (bits - n2.ilog2() - 1);
    let slots = 2 * n2 as u64 / cv;
    for pos in 0..slots {
        let m = (pos >= slots / 2) as u64;
        for way in 0..4 {
        let Some(input) = lwe_input::<S>(lk, pos, unit, way) else { continue };
        for kind in 0..3u8 {
            let mut out = GgswCiphertext::<S>::new(g1, rc);
            dirty(&mut *out, kind);
            if pos % 4 == 1 { poison(kind) }
            #[allow(deprecated)]
            circuit_bootstrap_via_pfks(&mut out, &input, &bsk, &ksk, &d, g1, g2, rp, rc, rf);
            let what = || format!("circuit bootstrap (private keyswitch) of bit {m} at position {pos} of {slots} (way {way}), key {lk:?}, output buffer kind {kind}, N {n2} to {n1} k {k2} to {k1} {rc:?} {rp:?} {rf:?}");
            let mut mp = vec![0; n1];
            mp[0] = m;
            selector(cx, &out, &mp, &s1, g1, rc, &|_| err, &what)?;
            if kind == 0 && n1 >= 16 {
                let mut f = GgswCiphertextFft::new(g1, rc);
                out.fft(&mut f, g1, rc);
                use_selector::<S>(cx, &f, m, &s1, g1, rc, err, &what)?;
            }
        }
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T11", "exploration",
        "selectors of 0, 1 and small polynomials with operands whose every word takes boundary values, through the exact and the transformed products; every pair of operands and both bits for the multiplexer; every rotation amount; every entry of scheme-switch keys, and scheme switching in both representations; both circuit-bootstrapping routes at every input position of both bits, at its centre, at both ends of its rounding range and under arbitrary masks, for every binary key of dimension 1 to 3; used output buffers and poisoned scratch memory throughout; ring sizes and decompositions of a grid; oracle: phases of every row and level computed with plain integers, within the computed rounding room");
    ck.set_wrap(one_thread);
    let r64 = [rad(1, 8), rad(3, 4), rad(2, 16), rad(3, 8), rad(6, 4), rad(1, 20)];
    let r32 = [rad(1, 8), rad(3, 8), rad(2, 10), rad(6, 4)];
    let mut shapes = vec![(1, 1), (2, 2), (4, 1), (16, 1), (16, 2), (16, 3), (32, 1)];
    shapes.push((64, 1));
    if ck.thorough { shapes.extend([(8, 3), (32, 2), (128, 2), (256, 1)]) }
    ck.par("products", &shapes, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        let g = gdef(*n, *k);
        for r in &r64 { products::<u64>(&g, r, cx)? }
        for r in &r32 { products::<u32>(&g, r, cx)? }
        Ok(())
    });
    let mut fs = vec![(16, 1), (16, 2), (16, 3), (32, 1), (64, 1)];
    fs.extend([(128, 1), (1024, 1)]);
    if ck.thorough { fs.extend([(32, 3), (64, 2), (256, 2), (2048, 1)]) }
    ck.par("multiplexers", &fs, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        let g = gdef(*n, *k);
        for r in &r64 { muxes::<u64>(&g, r, cx)? }
        for r in &r32 { muxes::<u32>(&g, r, cx)? }
        Ok(())
    });
    let ps: Vec<u32> = (1..=ck.tier(4, 6)).collect();
    ck.par("messages", &ps, |p| format!("{p} bits"), |p, cx| {
        for (n, k) in [(16, 1), (16, 2), (64, 1)] { for r in &r64[1..] { messages(*p, &gdef(n, k), r, cx)? } }
        Ok(())
    });
    ck.par("blind rotation", &fs, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        let g = gdef(*n, *k);
        if *n > 256 { return Ok(()) }
        for r in &r64[1..ck.tier(4, 6)] { rotations::<u64>(&g, r, cx)? }
        rotations::<u32>(&g, &r32[1], cx)
    });
    let mut ws: Vec<(usize, usize)> = vec![(16, 1), (16, 2), (16, 3), (32, 2)];
    ws.push((64, 1));
    if ck.thorough { ws.extend([(16, 4), (32, 3), (128, 2)]) }
    ck.par("scheme switching", &ws, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        let g = gdef(*n, *k);
        for rg in [rad(1, 8), rad(2, 6), rad(4, 3), rad(3, 4)] {
            for rs in [rad(4, 12), rad(7, 8), rad(2, 15)] { switching::<u64>(&g, &rg, &rs, cx)? }
            switching::<u32>(&g, &rg, &rad(3, 10), cx)?;
        }
        Ok(())
    });
    let keys: Vec<V> = (1..=ck.tier(2, 3)).flat_map(|d| (0..1u64 << d).map(move |x| bits(x, d))).chain([vec![1, 0, 1]]).collect();
    let mut cs = vec![];
    for lk in &keys {
        for (n, k) in ck.tier(vec![(16, 1), (16, 2), (32, 1)], vec![(16, 1), (16, 2), (16, 3), (32, 1), (64, 2), (128, 1)]) {
            for rc in [rad(1, 4), rad(2, 4), rad(2, 2), rad(3, 3), rad(4, 3), rad(5, 2), rad(7, 2), rad(6, 1)] { cs.push((lk.clone(), n, k, rc)) }
        }
    }
    ck.par("circuit bootstrap", &cs, |(lk, n, k, rc)| format!("key {lk:?} N {n} k {k} {rc:?}"), |(lk, n, k, rc), cx| circuit(lk, &gdef(*n, *k), rc, cx));
    let mut ds = vec![];
    for lk in &keys {
        for (a, b) in [((16, 1), (16, 1)), ((16, 2), (32, 1)), ((4, 1), (16, 2)), ((32, 1), (16, 1))] {
            for rc in [rad(1, 4), rad(2, 4), rad(3, 3), rad(5, 2), rad(7, 2)] { ds.push((lk.clone(), a, b, rc)) }
        }
    }
    ck.par("circuit bootstrap by private keyswitch", &ds, |(lk, a, b, rc)| format!("key {lk:?} {b:?} to {a:?} {rc:?}"), |(lk, a, b, rc), cx| {
        let (g1, g2) = (gdef(a.0, a.1), gdef(b.0, b.1));
        circuit_pfks::<u64>(lk, &g1, &g2, rc, &rad(2, 16), &rad(5, 6), cx)?;
        circuit_pfks::<u32>(lk, &g1, &g2, rc, &rad(3, 8), &rad(7, 4), cx)
    });
    ck.finish()
}
