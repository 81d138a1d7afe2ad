//! T09: keyswitching changes the key and nothing else.
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::Complex;
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption as hl, evaluation, keygen},
    ops::{
        fft_ops,
        keyswitch::{glwe_keyswitch, glwe_keyswitch_key, lwe_keyswitch, lwe_keyswitch_key, private_functional_keyswitch as pf, public_functional_keyswitch as pu},
    },
    GlweDef, LweDef, PlaintextBits, PrivateFunctionalKeyswitchLweCount, RadixDecomposition, Torus, TorusOps,
};

fn width<S>() -> u32 {
    size_of::<S>() as u32 * 8
}
fn used(r: &RadixDecomposition) -> u32 {
    (r.count.0 * r.radix_log.0) as u32
}
/// An LWE ciphertext with exactly these words.
fn lwe_ct<S: TorusOps>(d: &LweDef, w: &[u64]) -> LweCiphertext<S> {
    let mut c = LweCiphertext::<S>::new(d);
    let (a, b) = c.a_b_mut(d);
    for (x, w) in a.iter_mut().zip(w) { *x = t(*w) }
    *b = t(w[d.dim.0]);
    c
}
fn glwe_ct<S: TorusOps>(g: &GlweDef, w: &[u64]) -> GlweCiphertext<S> {
    let mut c = GlweCiphertext::<S>::new(g);
    let n = g.dim.polynomial_degree.0;
    let (a, b) = c.a_b_mut(g);
    for (i, p) in a.chain([b]).enumerate() {
        for (x, w) in p.coeffs_mut().iter_mut().zip(&w[i * n..]) { *x = t(*w) }
    }
    c
}
/// Rounding room of a decomposition: half a unit of its last place (nothing for words it represents exactly).
fn half_unit(r: &RadixDecomposition, bits: u32) -> u64 {
    if used(r) >= bits { 0 } else { 1 << (bits - used(r) - 1) }
}
/// Keep the bits a decomposition represents.
fn trunc(x: u64, r: &RadixDecomposition, bits: u32) -> u64 {
    if used(r) >= bits { x & mask(bits) } else { ((x & mask(bits)) >> (bits - used(r))) << (bits - used(r)) }
}
/// Largest error of a transform-based sum of `terms` products of digits and words.
fn fft_room(r: &RadixDecomposition, terms: usize, bits: u32) -> u64 {
    let e = bits as i32 - 1 + r.radix_log.0 as i32 + (usize::BITS - terms.leading_zeros()) as i32 + 3 - 53;
    if e < 0 { 0 } else { 1 << e }
}
fn near(x: u64, y: u64, room: u64, bits: u32) -> bool {
    dist(x, y, bits).unsigned_abs() <= room
}

/// Boundary words for a mask: the edges, and words around the rounding position of the decomposition.
fn words(r: &RadixDecomposition, bits: u32) -> V {
    let mut v = edge(bits);
    if used(r) < bits {
        let h = 1u64 << (bits - used(r) - 1);
        for x in [h, h.wrapping_sub(1), h + 1, h.wrapping_neg(), h.wrapping_neg().wrapping_sub(1), h.wrapping_neg().wrapping_add(1), 3u64.wrapping_mul(h)] { v.push(x & mask(bits)) }
    }
    v.sort();
    v.dedup();
    v
}

fn lwe<S: TorusOps>(from: usize, to: usize, r: RadixDecomposition, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (df, dt) = (ldef(from), ldef(to));
    rand::mc::seed((from * 100 + to) as u64);
    let ws = words(&r, bits);
    let mut keys: Vec<(V, V)> = vec![];
    if from + to <= 4 {
        for x in 0..1u64 << from { for y in 0..1u64 << to { keys.push((self::bits(x, from), self::bits(y, to))) } }
    } else {
        for x in [mask(from as u32), 0x5555_5555_5555_5555 & mask(from as u32), 0x9E37_79B9_7F4A_7C15 & mask(from as u32), 1 << (from.min(64) - 1)] {
            let f = (0..from).map(|i| x >> (i % 64) & 1).collect();
            keys.push((f, (0..to).map(|i| 0x9E37_79B9_7F4A_7C15u64 >> (i % 64) & 1).collect()));
        }
    }
    let binary = keys.len();
    for s in 0..3 { keys.push((arb(s, from), arb(s + 9, to))) }
    for (ki, (kf, kt)) in keys.iter().enumerate() {
        let (sf, st) = (lwe_key::<S>(&df, kf), lwe_key::<S>(&dt, kt));
        let (wf, wt) = (lwe_words(&sf), lwe_words(&st));
        let mut ksk = LweKeyswitchKey::<S>::new(&df, &dt, &r);
        dirty(&mut *ksk, (ki % 3) as u8);
        lwe_keyswitch_key::generate_keyswitch_key_lwe(&mut ksk, &sf, &st, &df, &dt, &r);
        for (i, &a) in ws.iter().enumerate() {
            for exact in [true, false] {
                if !exact && ki >= binary { continue }
                // one position at the boundary word, and all positions at different boundary words
                let mut cts = vec![(0..=from).map(|j| ws[(i + j * 3) % ws.len()]).collect::<V>()];
                for j in 0..from.min(6) {
                    let mut v = vec![0; from + 1];
                    v[j] = a;
                    v[from] = ws[(i * 7 + j) % ws.len()];
                    cts.push(v);
                }
                for mut v in cts {
                    if exact { for x in &mut v[..from] { *x = trunc(*x, &r, bits) } }
                    let ct = lwe_ct::<S>(&df, &v);
                    let mut out = LweCiphertext::<S>::new(&dt);
                    dirty(&mut *out, (i % 3) as u8);
                    lwe_keyswitch::keyswitch_lwe_to_lwe(&mut out, &ct, &ksk, &df, &dt, &r);
                    let (before, after) = (lwe_phase(&ct, &wf, &df), lwe_phase(&out, &wt, &dt));
                    if exact {
                        same!(cx, after, before, "phase after switching {v:x?} from key {wf:x?} to {wt:x?} under {r:?}");
                    } else {
                        cx.ev(true);
                        let room = half_unit(&r, bits).saturating_mul(wf.iter().sum::<u64>());
                        ensure!(near(after, before, room, bits), "switching {v:x?} from key {wf:x?} to {wt:x?} under {r:?}: phase {before:#x} became {after:#x}, room {room:#x}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn lwe_messages(p: u32, cx: &mut Cx) -> R {
    for (from, to) in [(1, 3), (4, 2), (9, 5), (33, 64)] {
        let (df, dt) = (ldef(from), ldef(to));
        for r in [rad(1, p as usize + 8), rad(2, 8), rad(5, 4), rad(16, 1)] {
            if used(&r) < p + 8 { continue }
            rand::mc::seed(p as u64 + from as u64);
            let (a, b) = (keygen::generate_binary_lwe_sk(&df), keygen::generate_binary_lwe_sk(&dt));
            let ksk = keygen::generate_ksk(&a, &b, &df, &dt, &r);
            for m in 0..1u64 << p {
                let ct = hl::encrypt_lwe_secret(m, &a, &df, PlaintextBits(p));
                let out = evaluation::keyswitch_lwe_to_lwe(&ct, &ksk, &df, &dt, &r);
                same!(cx, hl::decrypt_lwe(&out, &b, &dt, PlaintextBits(p)), m, "message of {p} bits from dimension {from} to {to} under {r:?}");
            }
        }
    }
    Ok(())
}

/// Key polynomials: unit vectors, sparse, dense binary and (exact route only) uniform words.
fn ring_keys(n: usize, k: usize, wide: bool) -> Vec<V> {
    let mut v = vec![];
    for i in 0..(n * k).min(5) { v.push((0..n * k).map(|j| (i == j) as u64).collect()) }
    v.push(vec![1; n * k]);
    v.push((0..n * k).map(|i| 0x9E37_79B9_7F4A_7C15u64 >> (i * 7 % 64) & 1).collect());
    if n * k <= 4 { for x in 0..1u64 << (n * k) { v.push(bits(x, n * k)) } }
    if wide { v.push(arb(n as u64, n * k)) }
    v
}

fn ring<S: TorusOps>(n: usize, k: usize, r: RadixDecomposition, fft: bool, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let g = gdef(n, k);
    rand::mc::seed((n * 10 + k) as u64);
    let ws = words(&r, bits);
    let keys = ring_keys(n, k, !fft);
    for (ki, kf) in keys.iter().enumerate() {
        let kt = &keys[(ki * 3 + 1) % keys.len()];
        let (sf, st) = (glwe_key::<S>(&g, kf), glwe_key::<S>(&g, kt));
        let (wf, wt) = (glwe_words(&sf, &g), glwe_words(&st, &g));
        let weight = wf.concat().iter().fold(0u64, |a, x| a.saturating_add(*x));
        let mut ksk = GlweKeyswitchKey::<S>::new(&g, &r);
        dirty(&mut *ksk, (ki % 3) as u8);
        glwe_keyswitch_key::generate_keyswitch_key_glwe(&mut ksk, &sf, &st, &g, &r);
        let mut kfft = GlweKeyswitchKeyFft::<Complex<f64>>::new(&g, &r);
        if fft {
            dirty(&mut *kfft, 3 * (ki % 2) as u8);
            ksk.fft(&mut kfft, &g, &r);
        }
        let len = n * (k + 1);
        for i in 0..ws.len() + 4 {
            let v: V = if i < ws.len() { (0..len).map(|j| ws[(i + j * 5) % ws.len()]).collect() } else { arb((i * n) as u64, len).iter().map(|x| x & mask(bits)).collect() };
            for exact in [true, false] {
                if !exact && weight > (n * k) as u64 { continue }
                let mut v = v.clone();
                if exact { for x in &mut v[..n * k] { *x = trunc(*x, &r, bits) } }
                let ct = glwe_ct::<S>(&g, &v);
                let mut out = GlweCiphertext::<S>::new(&g);
                dirty(&mut *out, (i % 3) as u8);
                if fft {
                    fft_ops::keyswitch_glwe_to_glwe(&mut out, &ct, &kfft, &g, &r);
                } else {
                    glwe_keyswitch::keyswitch_glwe_to_glwe(&mut out, &ct, &ksk, &g, &r);
                }
                let (before, after) = (glwe_phase(&ct, &wf, &g), glwe_phase(&out, &wt, &g));
                let mut room = if exact { 0 } else { half_unit(&r, bits).saturating_mul(weight) };
                // the error of every output component passes through the target key
                if fft { room = room.saturating_add(fft_room(&r, n * k * r.count.0, bits).saturating_mul(1 + wt.concat().iter().sum::<u64>())) }
                cx.ev(true);
                for c in 0..n {
                    ensure!(near(after[c], before[c], room, bits), "coefficient {c}: phase {:#x} became {:#x} (room {room:#x}) switching {v:x?} from key {wf:x?} to {wt:x?} under {r:?}", before[c], after[c]);
                }
            }
        }
    }
    Ok(())
}

/// A linear map from `count` torus values to a polynomial: row z holds the polynomial value z is multiplied by.
type M = Vec<Vec<i64>>;
fn maps(count: usize, n: usize) -> Vec<M> {
    let z = || vec![vec![0i64; n]; count];
    let mut v = vec![];
    // value z to coefficient z
    let mut m = z();
    for i in 0..count { m[i][i % n] = 1 }
    v.push(m);
    // reversed, with signs
    let mut m = z();
    for i in 0..count { m[i][n - 1 - i % n] = if i % 2 == 0 { -1 } else { 1 } }
    v.push(m);
    // all added into the constant coefficient
    let mut m = z();
    for r in &mut m { r[0] = 1 }
    v.push(m);
    // only the last value counts
    let mut m = z();
    m[count - 1][0] = 1;
    v.push(m);
    // small weights everywhere
    v.push((0..count).map(|i| (0..n).map(|c| ((i * 7 + c * 3) % 5) as i64 - 2).collect()).collect());
    // multiply by a fixed binary polynomial
    v.push((0..count).map(|i| (0..n).map(|c| (0x2b5u64 >> ((c + i) % 10) & 1) as i64).collect()).collect());
    v
}
fn weigh<S: TorusOps>(out: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>], m: &M, style: u8) {
    let bits = width::<S>();
    let n = out.coeffs().len();
    for c in 0..n {
        let sum = x.iter().zip(m).fold(0u64, |a, (x, r)| a.wrapping_add(un(*x).wrapping_mul(r[c] as u64))) & mask(bits);
        match style {
            // overwrite every coefficient
            0 => out.coeffs_mut()[c] = t(sum),
            // add to what the caller initialised to zero
            1 => out.coeffs_mut()[c] = t(un(out.coeffs()[c]).wrapping_add(sum) & mask(bits)),
            // write the coefficients the map reaches and leave the others alone
            _ => if m.iter().any(|r| r[c] != 0) { out.coeffs_mut()[c] = t(sum) },
        }
    }
}
fn apply(phases: &[u64], m: &M, n: usize, bits: u32) -> V {
    (0..n).map(|c| phases.iter().zip(m).fold(0u64, |a, (x, r)| a.wrapping_add(x.wrapping_mul(r[c] as u64))) & mask(bits)).collect()
}
fn functional<S: TorusOps>(d: usize, n: usize, k: usize, count: usize, r: RadixDecomposition, private: bool, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (dl, g) = (ldef(d), gdef(n, k));
    rand::mc::seed((n * 10 + k + d * 100) as u64);
    let ws = words(&r, bits);
    let pc = PrivateFunctionalKeyswitchLweCount(count);
    let lkeys: Vec<V> = if d <= 2 { (0..1u64 << d).map(|x| self::bits(x, d)).collect() } else { vec![vec![1; d], (0..d).map(|i| (i as u64 + 1) & 1).collect(), (0..d).map(|i| (i / 2) as u64 & 1).collect()] };
    let gkeys = ring_keys(n, k, false);
    for (ki, kl) in lkeys.iter().enumerate() {
        let (sl, sg) = (lwe_key::<S>(&dl, kl), glwe_key::<S>(&g, &gkeys[(ki * 5 + 6) % gkeys.len()]));
        let (wl, wg) = (lwe_words(&sl), glwe_words(&sg, &g));
        let mut pk = PublicFunctionalKeyswitchKey::<S>::new(&dl, &g, &r);
        if !private {
            dirty(&mut *pk, (ki % 3) as u8);
            poison(ki as u8);
            pu::generate_public_functional_keyswitch_key(&mut pk, &sl, &sg, &dl, &g, &r);
        }
        for (mi, m) in maps(count, n).iter().enumerate() {
            let size: u64 = (0..n).map(|c| m.iter().map(|r| r[c].unsigned_abs()).sum()).max().unwrap();
            for style in 0..3 {
                let f = |out: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| weigh(out, x, m, style);
                let mut fk = PrivateFunctionalKeyswitchKey::<S>::new(&dl, &g, &r, &pc);
                if private {
                    dirty(&mut *fk, (mi % 3) as u8);
                    poison(mi as u8);
                    pf::generate_private_functional_keyswitch_key(&mut fk, &sl, &sg, f, &dl, &g, &r, &pc);
                }
                for i in 0..ws.len() {
                    for exact in [true, false] {
                        let cts: Vec<_> = (0..count).map(|z| {
                            let mut v: V = (0..=d).map(|j| ws[(i + z * 7 + j * 3) % ws.len()]).collect();
                            // the private form decomposes the body as well
                            if exact { for x in &mut v[..d + private as usize] { *x = trunc(*x, &r, bits) } }
                            lwe_ct::<S>(&dl, &v)
                        }).collect();
                        let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|c| &**c).collect();
                        let mut out = GlweCiphertext::<S>::new(&g);
                        dirty(&mut *out, (i % 3) as u8);
                        if mi % 2 == 0 { poison(i as u8) }
                        if private {
                            pf::private_functional_keyswitch(&mut out, &refs, &fk, &dl, &g, &r, &pc);
                        } else {
                            pu::public_functional_keyswitch(&mut out, &refs, &pk, f, &dl, &g, &r);
                        }
                        let phases: V = cts.iter().map(|c| lwe_phase(c, &wl, &dl)).collect();
                        let want = apply(&phases, m, n, bits);
                        let got = glwe_phase(&out, &wg, &g);
                        let mut room = if exact { 0 } else if private { half_unit(&r, bits).saturating_mul(size * (d as u64 + 1)) } else { half_unit(&r, bits).saturating_mul(d as u64) };
                        if !private { room = room.saturating_add(fft_room(&r, n * d * r.count.0, bits).saturating_mul(1 + wg.concat().iter().sum::<u64>())) }
                        cx.ev(true);
                        for c in 0..n {
                            ensure!(near(got[c], want[c], room, bits), "coefficient {c}: {:#x} instead of {:#x} (room {room:#x}) for map {m:?} of {count} ciphertexts, style {style}, key {wl:?} to {wg:?}, {r:?}, inputs {:x?}, output buffer kind {}", got[c], want[c], cts.iter().map(|c| lwe_words_of(c, &dl)).collect::<Vec<_>>(), i % 3);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T09", "exploration",
        "every binary key pair with up to four bits in all (and structured and uniform keys beyond), every mask position at every boundary word (word edges and the neighbours of the decomposition's rounding position), exact words and words that round, used key and output buffers and poisoned scratch memory; dimension pairs, ring shapes and decompositions of a grid; six linear maps in three writing styles for the functional switches; oracle: phases computed with plain integers, exact where the decomposition represents the mask exactly and within half a unit of its last place otherwise");
    ck.set_wrap(one_thread);
    let radices = [rad(1, 1), rad(1, 8), rad(3, 4), rad(2, 15), rad(5, 6), rad(1, 31), rad(15, 2), rad(31, 1)];
    let wide = [rad(7, 9), rad(3, 21), rad(2, 31), rad(63, 1), rad(1, 63), rad(9, 7)];
    let full32 = [rad(3, 10), rad(6, 5)];
    let mut dims: Vec<(usize, usize)> = (1..=4).flat_map(|a| (1..=4).map(move |b| (a, b))).collect();
    dims.extend([(7, 1), (1, 9), (17, 16), (63, 5)]);
    dims.extend([(5, 5), (8, 3), (65, 64), (200, 31)]);
    if ck.thorough { dims.extend([(637, 637), (31, 200), (1024, 17)]) }
    ck.par("LWE to LWE", &dims, |(a, b)| format!("dimension {a} to {b}"), |(a, b), cx| {
        for r in radices { lwe::<u64>(*a, *b, r, cx)?; lwe::<u32>(*a, *b, r, cx)? }
        for r in wide { if a * b < 2000 { lwe::<u64>(*a, *b, r, cx)? } }
        for r in full32 { lwe::<u32>(*a, *b, r, cx)? }
        Ok(())
    });
    let ps: Vec<u32> = (1..=ck.tier(6, 10)).collect();
    ck.par("LWE messages", &ps, |p| format!("{p} plaintext bits"), |p, cx| lwe_messages(*p, cx));
    let mut shapes = vec![(1, 1), (1, 3), (2, 1), (2, 2), (4, 1), (4, 3), (8, 2), (16, 1)];
    shapes.push((64, 1));
    if ck.thorough { shapes.extend([(16, 3), (32, 2), (1, 7), (128, 1)]) }
    ck.par("ring to ring", &shapes, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        for r in radices { ring::<u64>(*n, *k, r, false, cx)?; ring::<u32>(*n, *k, r, false, cx)? }
        for r in &wide[..5] { ring::<u64>(*n, *k, *r, false, cx)? }
        Ok(())
    });
    let mut fshapes = vec![(16, 1), (16, 2), (16, 3), (32, 1), (64, 2)];
    fshapes.extend([(128, 1), (1024, 1)]);
    if ck.thorough { fshapes.extend([(256, 2), (512, 3), (2048, 1)]) }
    let fr = [rad(1, 1), rad(1, 8), rad(3, 4), rad(2, 15), rad(5, 6), rad(15, 2), rad(2, 8)];
    ck.par("ring to ring, transformed key", &fshapes, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        for r in fr { ring::<u64>(*n, *k, r, true, cx)?; ring::<u32>(*n, *k, r, true, cx)? }
        Ok(())
    });
    let mut fs = vec![];
    for d in [1, 2, 3, 5] {
        for (n, k) in [(1, 1), (2, 2), (4, 1), (16, 1)] {
            for count in 1..=3 { fs.push((d, n, k, count)) }
        }
    }
    ck.par("private functional", &fs, |(d, n, k, c)| format!("dimension {d} N {n} k {k} inputs {c}"), |(d, n, k, c), cx| {
        for r in [rad(1, 8), rad(3, 4), rad(5, 6), rad(2, 15)] { functional::<u64>(*d, *n, *k, *c, r, true, cx)?; functional::<u32>(*d, *n, *k, *c, r, true, cx)? }
        functional::<u64>(*d, *n, *k, *c, rad(3, 21), true, cx)
    });
    let mut us = vec![];
    for d in [1, 2, 3, 5] {
        for (n, k) in [(16, 1), (16, 2), (32, 1)] {
            for count in [1, 2, 3, n - 1, n] { us.push((d, n, k, count)) }
        }
    }
    ck.par("public functional", &us, |(d, n, k, c)| format!("dimension {d} N {n} k {k} inputs {c}"), |(d, n, k, c), cx| {
        for r in [rad(1, 8), rad(3, 4), rad(5, 6), rad(2, 15)] { functional::<u64>(*d, *n, *k, *c, r, false, cx)?; functional::<u32>(*d, *n, *k, *c, r, false, cx)? }
        Ok(())
    });
    ck.finish()
}
