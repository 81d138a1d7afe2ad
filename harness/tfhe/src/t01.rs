//! T01: every encryption scheme decrypts to what was encrypted.
use crate::u::*;
use mc::{ensure, must_panic, same, Ck, Cx, R};
use sunscreen_tfhe::{
    entities::*, high_level::encryption as hl, high_level::keygen as kg, ops::encryption::*, rand::Stddev, CarryBits, GlweDef,
    LweDef, PlaintextBits, RadixDecomposition, Torus, TorusOps,
};

const MASKS: &[u64] = &[0, 1, u64::MAX, 1 << 63, 0x9E3779B97F4A7C15, 0x80000000];

/// All mixed-radix digit vectors of length n.
fn digits(mut x: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n).map(|_| { let d = x % base; x /= base; d }).collect()
}

fn lwe_small<S: TorusOps>(dim: usize, key: &[u64], cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let d = ldef(dim);
    let sk = lwe_key::<S>(&d, key);
    let s = lwe_words(&sk);
    let m = mask(bits);
    for mi in 0..MASKS.len().pow(dim as u32) {
        let script: Vec<u64> = digits(mi, MASKS.len(), dim).iter().map(|i| MASKS[*i]).collect();
        for p in [1, 2, 3, bits / 2, bits - 1] {
            let pb = PlaintextBits(p);
            let msgs: Vec<u64> = if p <= 3 { (0..1 << p).collect() } else { vec![0, 1, mask(p), 1 << (p - 1), (1 << (p - 1)) - 1] };
            for msg in msgs {
                rand::mc::script(script.iter().copied());
                let (ct, e) = sk.encrypt(S::from_u64(msg), &d, pb);
                same!(cx, un(e), 0, "reported noise of a noiseless encryption");
                same!(cx, lwe_phase(&ct, &s, &d), enc(msg, p, bits), "phase of {msg} in {p} bits, key {key:x?}, mask {script:x?}");
                same!(cx, sk.decrypt(&ct, &d, pb).to_u64(), msg, "decrypt {msg} in {p} bits, key {key:x?}, mask {script:x?}");
                same!(cx, un(sk.decrypt_without_decode(&ct, &d)), enc(msg, p, bits), "raw decrypt {msg}");
                // the receiving buffer's past does not matter
                for k in 1..3 {
                    let mut c2 = LweCiphertext::<S>::new(&d);
                    dirty(&mut *c2, k);
                    rand::mc::script(script.iter().copied());
                    let raw_msg = MASKS[(msg as usize + mi) % MASKS.len()] & m;
                    let e = encrypt_lwe_ciphertext(&mut c2, &sk, t(raw_msg), &d);
                    same!(cx, (un(e), lwe_phase(&c2, &s, &d)), (0, raw_msg), "phase after encrypting into a used buffer, key {key:x?}, mask {script:x?}");
                    dirty(&mut *c2, k);
                    rand::mc::script(script.iter().copied());
                    encode_and_encrypt_lwe_ciphertext(&mut c2, &sk, S::from_u64(msg), &d, pb);
                    same!(cx, lwe_phase(&c2, &s, &d), enc(msg, p, bits), "encode and encrypt {msg} into a used buffer");
                    dirty(&mut *c2, k);
                    trivially_encrypt_lwe_ciphertext(&mut c2, &t(raw_msg), &d);
                    let mut want = vec![0; dim];
                    want.push(raw_msg);
                    same!(cx, lwe_words_of(&c2, &d), want, "trivial encryption into a used buffer");
                }
            }
        }
    }
    rand::mc::script([]);
    Ok(())
}

/// Decryption tolerates exactly the noise the encoding leaves room for.
fn lwe_noise<S: TorusOps>(p: u32, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let d = ldef(3);
    let half = 1i64 << (bits - p - 1);
    let mut es = vec![-half, -half + 1, -half / 2, -1, 0, 1, half / 2, half - 1];
    for i in 0..bits - p - 1 { es.push(1 << i); es.push(-(1 << i)); }
    let msgs: Vec<u64> = if p <= 8 { (0..1 << p).collect() } else { vec![0, 1, 2, mask(p), mask(p) - 1, 1 << (p - 1), (1 << (p - 1)) - 1, 0xAAAAAAAAAAAAAAAA & mask(p)] };
    for seed in 0..3 {
        rand::mc::seed(seed + 900);
        let sk = lwe_key::<S>(&d, &if seed == 0 { bits_(5, 3) } else { arb(seed, 3) });
        for &msg in &msgs {
            for &e in &es {
                let (mut ct, _) = sk.encrypt(S::from_u64(msg), &d, PlaintextBits(p));
                *ct.b_mut(&d) += t::<S>(e as u64);
                same!(cx, sk.decrypt(&ct, &d, PlaintextBits(p)).to_u64(), msg, "message {msg} of {p} bits with noise {e}");
            }
        }
    }
    Ok(())
}
fn bits_(x: u64, n: usize) -> Vec<u64> { bits(x, n) }

fn carry(p: u32, cx: &mut Cx) -> R {
    let d = ldef(2);
    rand::mc::seed(3);
    let sk = kg::generate_binary_lwe_sk(&d);
    for c in 0..64 - p {
        let w = p + c;
        let half = 1u64 << (63 - w);
        let vals: Vec<u64> = if w <= 8 { (0..1 << w).collect() } else { vec![0, 1, mask(p), mask(w), 1 << p.min(w - 1), mask(w) - 1, 1 << (w - 1), 0x5555555555555555 & mask(w)] };
        for v in vals {
            for e in [0, 1, half - 1, half.wrapping_neg(), 1u64.wrapping_neg()] {
                if half == 1 && e != 0 && e != half.wrapping_neg() { continue }
                let mut ct = hl::encrypt_lwe_secret(v, &sk, &d, PlaintextBits(w));
                *ct.b_mut(&d) += Torus::from(e);
                same!(cx, hl::decrypt_lwe_with_carry(&ct, &sk, &d, PlaintextBits(p), CarryBits(c)), v & mask(p), "value {v} in {p}+{c} bits, noise {}", e as i64);
            }
        }
    }
    Ok(())
}

fn lwe_public<S: TorusOps>(dim: usize, key: &[u64], std: f64, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let d = LweDef { std: Stddev(std), ..ldef(dim) };
    rand::mc::seed(key.iter().fold(1, |a, b| a * 31 + b));
    let sk = lwe_key::<S>(&d, key);
    let s = lwe_words(&sk);
    let pk = LwePublicKey::<S>::generate(&sk, &d);
    let es: Vec<u64> = pk.enc_zeros(&d).map(|z| lwe_phase(z, &s, &d)).collect();
    same!(cx, es.len(), dim, "zero encryptions in the public key");
    let bound = (std * 2f64.powi(bits as i32) * 10.) as i64;
    for (i, e) in es.iter().enumerate() {
        ensure!(dist(*e, 0, bits).abs() <= bound, "zero encryption {i} carries {}", dist(*e, 0, bits));
    }
    for r in 0..1u64 << dim {
        for p in [1u32, 3, 8] {
            for msg in 0..1u64 << p.min(4) {
                let msg = msg << p.saturating_sub(4);
                rand::mc::script(bits_(r, dim));
                let (ct, rnd) = pk.encrypt(S::from_u64(msg), &d, PlaintextBits(p));
                // phase = message + <r, key noise> + e_b - <e_a, s>
                let mut want = enc(msg, p, bits);
                same!(cx, rnd.r.len(), dim, "length of the reported selection");
                for (r, e) in rnd.r.iter().zip(&es) { want = want.wrapping_add(r.to_u64().wrapping_mul(*e)) }
                ensure!(rnd.r.iter().all(|r| r.to_u64() < 2), "reported selection is not binary: {:?}", rnd.r);
                want = want.wrapping_add(lwe_phase(&rnd.e, &s, &d));
                same!(cx, lwe_phase(&ct, &s, &d), want & mask(bits), "phase of public encryption of {msg}/{p} from its reported randomness, key {key:x?}, selection {r:b}");
                if std == 0. || key.iter().all(|x| *x < 2) {
                    same!(cx, sk.decrypt(&ct, &d, PlaintextBits(p)).to_u64(), msg, "public encryption of {msg} in {p} bits");
                }
                if std > 0. {
                    let (a, b) = rnd.e.a_b(&d);
                    for x in a.iter().chain([b]) { ensure!(dist(un(*x), 0, bits).abs() <= bound, "noise term {} outside its distribution", un(*x)) }
                }
            }
        }
    }
    Ok(())
}

/// Noise drawn by every scheme: its spread is the requested one, fresh for each use.
fn noise_stats(es: &[i64], std: f64, bits: u32, what: &str, cx: &mut Cx) -> R {
    let w = std * 2f64.powi(bits as i32);
    let var = es.iter().map(|e| (*e as f64 / w).powi(2)).sum::<f64>() / es.len() as f64;
    let mean = es.iter().map(|e| *e as f64 / w).sum::<f64>() / es.len() as f64;
    let tol = 8. / (2. * es.len() as f64).sqrt();
    cx.ev(true);
    ensure!((var.sqrt() - 1.).abs() < tol && mean.abs() < 2. * tol, "{what}: noise of {} draws has spread {} and mean {} of the requested deviation", es.len(), var.sqrt(), mean);
    let mut v: Vec<i64> = es.to_vec();
    v.sort();
    v.dedup();
    ensure!(v.len() * 20 > es.len() * 19, "{what}: noise repeats ({} distinct of {})", v.len(), es.len());
    ensure!(es.iter().all(|e| (e.abs() as f64) < 12. * w), "{what}: noise beyond 12 deviations");
    Ok(())
}

fn messages(n: usize, p: u32, dense: bool) -> Vec<V> {
    let b = 1usize << p;
    if (b as f64).powi(n as i32) <= 256. && dense {
        return (0..b.pow(n as u32)).map(|x| digits(x, b, n).iter().map(|d| *d as u64).collect()).collect();
    }
    let mut v = vec![vec![0; n], vec![mask(p); n], (0..n).map(|i| i as u64 & mask(p)).collect(), arb(n as u64, n).iter().map(|x| x & mask(p)).collect()];
    for i in 0..n.min(16) { let mut x = vec![0; n]; x[if n > 16 { i * n / 16 } else { i }] = mask(p); v.push(x) }
    v
}

fn shapes(quick: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3), (4, 1), (4, 2), (8, 1), (8, 3), (16, 1), (16, 2), (16, 3), (32, 1), (64, 2), (128, 2), (256, 1), (512, 2), (1024, 1), (2048, 1)];
    if !quick { v.extend([(1, 6), (2, 4), (4, 3), (8, 2), (32, 3), (128, 5), (256, 4)]) }
    v
}
/// All binary keys while there are few, then a few of every kind.
fn keys(n: usize, limit: usize) -> Vec<V> {
    let mut v: Vec<V> = if n <= limit { (0..1u64 << n).map(|x| bits(x, n)).collect() } else {
        [0u64, u64::MAX, 1, 1 << 63, 0x9E3779B97F4A7C15].iter().map(|x| (0..n).map(|i| if n > 64 && i >= 64 { arb(*x, n)[i] & 1 } else { x >> (i % 64) & 1 }).collect()).collect()
    };
    v.push(arb(77, n));
    v.push(vec![u64::MAX; n]);
    v
}

fn glwe<S: TorusOps>(n: usize, k: usize, key: &[u64], full: bool, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = gdef(n, k);
    rand::mc::seed(n as u64 * 100 + k as u64);
    let sk = glwe_key::<S>(&g, key);
    let s = glwe_words(&sk, &g);
    for p in [1, 2, 5, bits - 1] {
        for m in messages(n, p, full) {
            let want: V = m.iter().map(|x| enc(*x, p, bits)).collect();
            let ct = sk.encode_encrypt_glwe(&ip::<S>(&m), &g, PlaintextBits(p));
            same!(cx, glwe_phase(&ct, &s, &g), want, "phase of {m:?} in {p} bits, key {key:x?}");
            same!(cx, iv(&sk.decrypt_decode_glwe(&ct, &g, PlaintextBits(p))), m, "decryption of {m:?} in {p} bits, key {key:x?}");
            for kind in [1, 2] {
                let mut c2 = GlweCiphertext::<S>::new(&g);
                dirty(&mut *c2, kind);
                encrypt_glwe_ciphertext_secret(&mut c2, &tp::<S>(&want), &sk, &g);
                same!(cx, glwe_phase(&c2, &s, &g), want, "phase of an encryption into a used buffer ({kind})");
                let mut out = tp::<S>(&vec![0; n]);
                dirty(&mut *out, kind);
                decrypt_glwe_ciphertext(&mut out, &c2, &sk, &g);
                same!(cx, tv(&out), want, "decryption into a used buffer ({kind})");
                dirty(&mut *c2, kind);
                trivially_encrypt_glwe_ciphertext(&mut c2, &tp::<S>(&want), &g);
                let mut flat = vec![0; n * k];
                flat.extend(&want);
                same!(cx, glwe_flat(&c2, &g), flat, "trivial encryption into a used buffer ({kind})");
            }
        }
        // noise within the bound is removed
        let half = 1i64 << (bits - p - 1);
        for e in [-half, -half + 1, -1, 1, half - 1, half / 2] {
            for pos in [0, n - 1, n / 2] {
                let m: V = arb(pos as u64 + p as u64, n).iter().map(|x| x & mask(p)).collect();
                let mut ct = sk.encode_encrypt_glwe(&ip::<S>(&m), &g, PlaintextBits(p));
                let b = ct.b_mut(&g).coeffs_mut();
                if half == 1 && e > 0 { continue }
                b[pos] += t::<S>(e as u64);
                same!(cx, iv(&sk.decrypt_decode_glwe(&ct, &g, PlaintextBits(p))), m, "decryption of {m:?} in {p} bits with noise {e} at {pos}");
            }
        }
    }
    Ok(())
}

fn rlwe<S: TorusOps>(n: usize, key: &[u64], std: f64, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = GlweDef { std: Stddev(std), ..gdef(n, 1) };
    rand::mc::seed(n as u64 * 17 + key[0]);
    let sk = glwe_key::<S>(&g, key);
    let s = glwe_words(&sk, &g);
    let mut pk = RlwePublicKey::<S>::new(&g);
    for kind in 0..3 {
        dirty(&mut *pk, kind);
        rlwe_generate_public_key(&mut pk, &sk, &g);
        let ez = glwe_phase(pk.zero_encryption(), &s, &g);
        let bound = (std * 2f64.powi(bits as i32) * 10.) as i64;
        ensure!(ez.iter().all(|e| dist(*e, 0, bits).abs() <= bound), "public key is no encryption of zero (buffer kind {kind}): {ez:x?}");
        for p in [1, 2, 6] {
            for m in messages(n, p, n <= 4) {
                let mut ct = GlweCiphertext::<S>::new(&g);
                dirty(&mut *ct, kind);
                let r = rlwe_encode_encrypt_public(&mut ct, &ip::<S>(&m), &pk, &PlaintextBits(p), &g);
                let u = iv(&r.u);
                ensure!(u.iter().all(|x| *x < 2), "reported selection not binary {u:?}");
                // b - a s = m + e1 - e0 s + u e_pk
                let (e0, e1) = (tv(&r.e0), tv(&r.e1));
                let us = crate::t04::negmul(&u, &ez);
                let e0s = crate::t04::negmul(&e0, &s[0]);
                let want: V = (0..n).map(|i| enc(m[i], p, bits).wrapping_add(e1[i]).wrapping_add(us[i]).wrapping_sub(e0s[i]) & mask(bits)).collect();
                same!(cx, glwe_phase(&ct, &s, &g), want, "phase of public encryption of {m:?}/{p} from its reported randomness, key {key:x?}, buffer kind {kind}");
                if std == 0. || key.iter().all(|x| *x < 2) {
                    same!(cx, iv(&sk.decrypt_decode_glwe(&ct, &g, PlaintextBits(p))), m, "decryption of public encryption of {m:?} in {p} bits");
                }
                if std > 0. {
                    ensure!(e0.iter().chain(&e1).all(|e| *e != 0 && dist(*e, 0, bits).abs() <= bound), "public encryption noise outside its distribution");
                    ensure!(e0 != e1, "both noise polynomials are the same draw");
                }
            }
        }
    }
    Ok(())
}

fn gadget(m: &[u64], r: &RadixDecomposition, j: usize, bits: u32) -> V {
    m.iter().map(|x| x.wrapping_shl(bits - (r.radix_log.0 * (j + 1)) as u32) & mask(bits)).collect()
}

/// The largest errors either way that the top digit of a gadget still absorbs.
fn tilts(rl: u32, bits: u32) -> [u64; 4] {
    let half = 1u64 << (bits - rl - 1);
    [1, half - 1, 1u64.wrapping_neg() & mask(bits), half.wrapping_neg() & mask(bits)]
}
/// Shift the whole body of a ciphertext.
fn tilt<S: TorusOps>(c: &mut GlweCiphertextRef<S>, e: u64, g: &GlweDef) {
    for x in c.b_mut(g).coeffs_mut() { *x = t(un(*x).wrapping_add(e)) }
}

fn glev<S: TorusOps>(n: usize, k: usize, r: RadixDecomposition, key: &[u64], cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = gdef(n, k);
    rand::mc::seed(n as u64 * 31 + k as u64);
    let sk = glwe_key::<S>(&g, key);
    let s = glwe_words(&sk, &g);
    let rl = r.radix_log.0 as u32;
    for m in messages(n, rl.min(3), n <= 2) {
        for kind in 0..3 {
            let mut gl = GlevCiphertext::<S>::new(&g, &r);
            dirty(&mut *gl, kind);
            encrypt_secret_glev_ciphertext(&mut gl, ip::<S>(&m).as_torus(), &sk, &g, &r);
            for (j, row) in gl.glwe_ciphertexts(&g).enumerate() {
                same!(cx, glwe_phase(row, &s, &g), gadget(&m, &r, j, bits), "phase of level {j} of {r:?}, {m:?}, buffer kind {kind}");
            }
            same!(cx, gl.glwe_ciphertexts(&g).count(), r.count.0, "levels");
            let mut out = tp::<S>(&vec![0; n]);
            dirty(&mut *out, kind);
            if rl < bits {
                decrypt_glev_ciphertext(&mut out, &gl, &sk, &g, &r);
                same!(cx, tv(&out), m, "decryption of lev {m:?} {r:?}");
                if rl + 1 < bits {
                    for e in tilts(rl, bits) {
                        tilt(gl.glwe_ciphertexts_mut(&g).next().unwrap(), e, &g);
                        decrypt_glev_ciphertext(&mut out, &gl, &sk, &g, &r);
                        same!(cx, tv(&out), m, "decryption of lev {m:?} {r:?} with noise {e:#x}");
                        tilt(gl.glwe_ciphertexts_mut(&g).next().unwrap(), e.wrapping_neg() & mask(bits), &g);
                    }
                }
            }
            dirty(&mut *gl, kind);
            trivially_encrypt_glev_ciphertext(&mut gl, ip::<S>(&m).as_torus(), &g, &r);
            for (j, row) in gl.glwe_ciphertexts(&g).enumerate() {
                let mut want = vec![0; n * k];
                want.extend(gadget(&m, &r, j, bits));
                same!(cx, glwe_flat(row, &g), want, "trivial level {j} of {r:?}, buffer kind {kind}");
            }
            if k == 1 {
                let mut pk = RlwePublicKey::<S>::new(&g);
                rlwe_generate_public_key(&mut pk, &sk, &g);
                dirty(&mut *gl, kind);
                encrypt_rlev_ciphertext(&mut gl, ip::<S>(&m).as_torus(), &pk, &g, &r);
                for (j, row) in gl.glwe_ciphertexts(&g).enumerate() {
                    same!(cx, glwe_phase(row, &s, &g), gadget(&m, &r, j, bits), "phase of public level {j} of {r:?}, {m:?}, buffer kind {kind}");
                }
            }
        }
    }
    Ok(())
}

fn ggsw<S: TorusOps>(n: usize, k: usize, r: RadixDecomposition, key: &[u64], cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = gdef(n, k);
    rand::mc::seed(n as u64 * 37 + k as u64);
    let sk = glwe_key::<S>(&g, key);
    let s = glwe_words(&sk, &g);
    let rl = r.radix_log.0 as u32;
    let p = rl.min(3);
    let check = |gg: &GgswCiphertextRef<S>, m: &[u64], s: &[V], what: &str, cx: &mut Cx| -> R {
        same!(cx, gg.rows(&g, &r).count(), k + 1, "rows");
        for (i, row) in gg.rows(&g, &r).enumerate() {
            let body: V = if i < k { crate::t04::negmul(m, &s[i]).iter().map(|x| x.wrapping_neg()).collect() } else { m.to_vec() };
            for (j, c) in row.glwe_ciphertexts(&g).enumerate() {
                same!(cx, glwe_phase(c, s, &g), gadget(&body, &r, j, bits), "{what}: phase of row {i} level {j} for {m:?}, {r:?}, key {key:x?}");
            }
        }
        Ok(())
    };
    for m in messages(n, p, n <= 2) {
        for kind in 0..3 {
            let mut gg = GgswCiphertext::<S>::new(&g, &r);
            dirty(&mut *gg, kind);
            encrypt_ggsw_ciphertext(&mut gg, &ip::<S>(&m), &sk, &g, &r, PlaintextBits(p));
            check(&gg, &m, &s, &format!("encryption into buffer kind {kind}"), cx)?;
            if rl < bits {
                let mut out = tp::<S>(&vec![0; n]);
                dirty(&mut *out, kind);
                decrypt_ggsw_ciphertext(&mut out, &gg, &sk, &g, &r);
                same!(cx, tv(&out), m, "decryption of {m:?} {r:?}");
                if rl + 1 < bits {
                    for e in tilts(rl, bits) {
                        for sign in [e, e.wrapping_neg() & mask(bits)] {
                            for row in gg.rows_mut(&g, &r) { tilt(row.glwe_ciphertexts_mut(&g).next().unwrap(), sign, &g) }
                            if sign != e { break }
                            decrypt_ggsw_ciphertext(&mut out, &gg, &sk, &g, &r);
                            same!(cx, tv(&out), m, "decryption of {m:?} {r:?} with noise {e:#x}");
                        }
                    }
                }
            }
            let sc = m[0];
            dirty(&mut *gg, kind);
            encrypt_ggsw_ciphertext_scalar(&mut gg, S::from_u64(sc), &sk, &g, &r, PlaintextBits(p));
            let mut ms = vec![0; n];
            ms[0] = sc;
            check(&gg, &ms, &s, &format!("scalar encryption into buffer kind {kind}"), cx)?;
            dirty(&mut *gg, kind);
            trivially_encrypt_ggsw_ciphertext(&mut gg, &ip::<S>(&m), &g, &r, PlaintextBits(p));
            check(&gg, &m, &vec![vec![0; n]; k], &format!("trivial encryption into buffer kind {kind}"), cx)?;
            ensure!(gg.rows(&g, &r).all(|row| row.glwe_ciphertexts(&g).all(|c| c.a(&g).all(|a| tv(a).iter().all(|x| *x == 0)))), "trivial encryption has a mask");
        }
        let gg = sk.encode_encrypt_ggsw(&ip::<S>(&m), &g, &r, PlaintextBits(p));
        check(&gg, &m, &s, "method", cx)?;
    }
    cx.ev(true);
    ensure!(must_panic(|| { sk.encode_encrypt_ggsw(&ip::<S>(&vec![1 << p; n]), &g, &r, PlaintextBits(p)); }), "a message too wide for its {p} bits was accepted");
    Ok(())
}

/// Masks and noise are drawn afresh for every row, level, coefficient and call.
fn fresh<S: TorusOps>(n: usize, k: usize, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let std = 2f64.powi(-(bits as i32) / 3);
    let g = GlweDef { std: Stddev(std), ..gdef(n, k) };
    let r = rad(3, 5);
    rand::mc::seed(4242);
    let sk = GlweSecretKey::<S>::generate_binary(&g);
    let s = glwe_words(&sk, &g);
    let mut masks = vec![];
    let mut noise = vec![];
    let mut take = |c: &GlweCiphertextRef<S>, want: &V| {
        for a in c.a(&g) { masks.extend(tv(a)) }
        for (x, w) in glwe_phase(c, &s, &g).iter().zip(want) { noise.push(dist(*x, *w, bits)) }
    };
    let z = vec![0; n];
    let m: V = (0..n as u64).map(|x| x & 3).collect();
    for _ in 0..6 {
        let c = sk.encode_encrypt_glwe(&ip::<S>(&z), &g, PlaintextBits(2));
        take(&c, &z);
    }
    let gg = sk.encode_encrypt_ggsw(&ip::<S>(&m), &g, &r, PlaintextBits(2));
    for (i, row) in gg.rows(&g, &r).enumerate() {
        let body: V = if i < k { crate::t04::negmul(&m, &s[i]).iter().map(|x| x.wrapping_neg()).collect() } else { m.clone() };
        for (j, c) in row.glwe_ciphertexts(&g).enumerate() { take(c, &gadget(&body, &r, j, bits)) }
    }
    let mut gl = GlevCiphertext::<S>::new(&g, &r);
    encrypt_secret_glev_ciphertext(&mut gl, ip::<S>(&m).as_torus(), &sk, &g, &r);
    for (j, c) in gl.glwe_ciphertexts(&g).enumerate() { take(c, &gadget(&m, &r, j, bits)) }
    noise_stats(&noise, std, bits, "ring encryptions", cx)?;
    let tot = masks.len();
    let zeros = masks.iter().filter(|x| **x == 0).count();
    masks.sort();
    masks.dedup();
    cx.ev(true);
    // 64-bit draws of the checker's stream never repeat; 32-bit ones hardly ever
    ensure!(zeros == 0 && masks.len() + (if bits == 64 { 0 } else { 2 }) >= tot, "mask coefficients repeat: {} distinct of {tot} ({zeros} zero)", masks.len());
    Ok(())
}

fn fresh_lwe<S: TorusOps>(dim: usize, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let std = 2f64.powi(-(bits as i32) / 3);
    let d = LweDef { std: Stddev(std), ..ldef(dim) };
    rand::mc::seed(4243);
    let sk = LweSecretKey::<S>::generate_binary(&d);
    let s = lwe_words(&sk);
    let (mut masks, mut noise) = (vec![], vec![]);
    for i in 0..1024u64 {
        let m = i & 7;
        let (ct, e) = sk.encrypt(S::from_u64(m), &d, PlaintextBits(3));
        let x = dist(lwe_phase(&ct, &s, &d), enc(m, 3, bits), bits);
        same!(cx, dist(un(e), 0, bits), x, "reported against actual noise");
        same!(cx, sk.decrypt(&ct, &d, PlaintextBits(3)).to_u64(), m, "decryption under noise");
        masks.extend(ct.a(&d).iter().map(|x| un(*x)));
        noise.push(x);
    }
    noise_stats(&noise, std, bits, "LWE encryptions", cx)?;
    let pk = LwePublicKey::<S>::generate(&sk, &d);
    let mut pn = vec![];
    for z in pk.enc_zeros(&d) {
        masks.extend(z.a(&d).iter().map(|x| un(*x)));
        pn.push(dist(lwe_phase(z, &s, &d), 0, bits));
    }
    noise_stats(&pn, std, bits, "LWE public key", cx)?;
    let mut en = vec![];
    for i in 0..64u64 {
        let (_, r) = pk.encrypt(S::from_u64(i & 1), &d, PlaintextBits(1));
        let (a, b) = r.e.a_b(&d);
        en.extend(a.iter().chain([b]).map(|x| dist(un(*x), 0, bits)));
    }
    noise_stats(&en, std, bits, "LWE public encryption", cx)?;
    let tot = masks.len();
    masks.sort();
    masks.dedup();
    ensure!(masks.len() + if bits == 64 { 0 } else { 64 } >= tot, "mask coefficients repeat: {} distinct of {tot}", masks.len());
    Ok(())
}

fn high_level(cx: &mut Cx) -> R {
    rand::mc::seed(8);
    for dim in 1..6 {
        let d = ldef(dim);
        for uni in [false, true] {
            let sk = if uni { kg::generate_uniform_lwe_sk(&d) } else { kg::generate_binary_lwe_sk(&d) };
            let pk = kg::generate_lwe_pk(&sk, &d);
            for p in [1, 4, 7] {
                let pb = PlaintextBits(p);
                for m in 0..1u64 << p {
                    for ct in [
                        hl::encrypt_lwe_secret(m, &sk, &d, pb),
                        hl::encrypt_lwe_secret_and_return_randomness(m, &sk, &d, pb).0,
                        hl::encrypt_lwe(m, &pk, &d, pb),
                        hl::encrypt_lwe_and_return_randomness(m, &pk, &d, pb).0,
                        hl::trivial_lwe(m, &d, pb),
                    ] {
                        same!(cx, hl::decrypt_lwe(&ct, &sk, &d, pb), m, "lwe {m} in {p} bits");
                    }
                }
            }
        }
    }
    for (n, k) in [(1, 1), (2, 1), (4, 2), (16, 1), (16, 3)] {
        let g = gdef(n, k);
        let r = rad(2, 6);
        for uni in [false, true] {
            let sk = if uni { kg::generate_uniform_glwe_sk(&g) } else { kg::generate_binary_glwe_sk(&g) };
            for p in [1u32, 3, 6] {
                let pb = PlaintextBits(p);
                for m in messages(n, p, n <= 2) {
                    let pt = ip::<u64>(&m);
                    for ct in [hl::encrypt_glwe(&pt, &sk, &g, pb), hl::trivial_glwe(&pt, &g, pb)] {
                        same!(cx, iv(&hl::decrypt_glwe(&ct, &sk, &g, pb)), m, "glwe {m:?} in {p} bits");
                    }
                    let gg = hl::encrypt_ggsw(m[0], &sk, &g, &r, pb);
                    let mut want = vec![0; n];
                    want[0] = m[0];
                    same!(cx, iv(&hl::decrypt_ggsw(&gg, &sk, &g, &r, pb)), want, "ggsw {} in {p} bits", m[0]);
                    let bin: V = m.iter().map(|x| x & 1).collect();
                    let mut levs = vec![hl::encrypt_binary_msg_secret_glev(&ip::<u64>(&bin), &sk, &g, &r), hl::trivial_binary_glev(&ip::<u64>(&bin), &g, &r)];
                    if k == 1 {
                        let pk = kg::generate_rlwe_public_key(&sk, &g);
                        levs.push(hl::encrypt_binary_msg_rlev(&ip::<u64>(&bin), &pk, &g, &r));
                    }
                    for (i, l) in levs.iter().enumerate() {
                        let mut out = tp::<u64>(&vec![0; n]);
                        decrypt_glev_ciphertext(&mut out, l, &sk, &g, &r);
                        same!(cx, tv(&out), bin, "glev {bin:?} form {i}");
                    }
                }
            }
        }
    }
    Ok(())
}

/// The checks of shape and range the schemes document.
fn refusals(cx: &mut Cx) -> R {
    let d = ldef(3);
    let sk = kg::generate_binary_lwe_sk(&d);
    let g = gdef(4, 2);
    let gsk = kg::generate_binary_glwe_sk(&g);
    let ct = hl::trivial_lwe(0, &d, PlaintextBits(1));
    let gct = hl::trivial_glwe(&ip::<u64>(&[0; 4]), &g, PlaintextBits(1));
    let mut n = 0;
    let mut no = |what: &str, f: &mut dyn FnMut()| -> R {
        n += 1;
        ensure!(must_panic(|| f()), "{what} was accepted");
        Ok(())
    };
    no("decrypting LWE of another dimension", &mut || { hl::decrypt_lwe(&ct, &sk, &ldef(4), PlaintextBits(1)); })?;
    no("decrypting LWE of a smaller dimension", &mut || { hl::decrypt_lwe(&ct, &sk, &ldef(2), PlaintextBits(1)); })?;
    no("64 plaintext bits (encrypt)", &mut || { hl::encrypt_lwe_secret(0, &sk, &d, PlaintextBits(64)); })?;
    no("64 plaintext bits (decrypt)", &mut || { hl::decrypt_lwe(&ct, &sk, &d, PlaintextBits(64)); })?;
    no("64 plaintext and carry bits", &mut || { hl::decrypt_lwe_with_carry(&ct, &sk, &d, PlaintextBits(60), CarryBits(4)); })?;
    no("64 plaintext bits (ring)", &mut || { hl::decrypt_glwe(&gct, &gsk, &g, PlaintextBits(64)); })?;
    no("decrypting a ring ciphertext of another shape", &mut || { hl::decrypt_glwe(&gct, &gsk, &gdef(4, 3), PlaintextBits(1)); })?;
    no("a degree that is no power of two", &mut || { kg::generate_binary_glwe_sk(&gdef(3, 1)); })?;
    no("a degree of zero", &mut || { kg::generate_binary_glwe_sk(&gdef(0, 1)); })?;
    no("a ring key with no polynomial", &mut || { kg::generate_binary_glwe_sk(&gdef(4, 0)); })?;
    no("a public ring key for two polynomials", &mut || { kg::generate_rlwe_public_key(&gsk, &g); })?;
    no("a trivial ring encryption of the wrong length", &mut || { hl::trivial_glwe(&ip::<u64>(&[0; 8]), &g, PlaintextBits(1)); })?;
    no("a decomposition of more bits than the word", &mut || { hl::encrypt_binary_msg_secret_glev(&ip::<u64>(&[0; 4]), &gsk, &g, &rad(9, 8)); })?;
    cx.evals += n;
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T01", "exploration",
        "every binary key and boundary/arbitrary key x every mask over a boundary alphabet x every message of the small shapes (dimension <= 3 (thorough 4) for LWE; N*k <= 6 bits of ring key), every plaintext width class, boundary noise values, used receiving buffers of several contents; larger shapes with pattern messages; public-key schemes over every selection vector, with phases recomputed from the reported randomness; noise and mask freshness over the schemes' whole streams; oracle: plain integer evaluation of b - <a, s>");
    ck.set_wrap(one_thread);
    let q = !ck.thorough;
    let mut items = vec![];
    for dim in 1..=ck.tier(3usize, 4) {
        for key in keys(dim, 4) { items.push((dim, key)) }
    }
    ck.par("LWE, secret key", &items, |(d, k)| format!("dimension {d} key {k:x?}"), |(d, k), cx| {
        rand::mc::seed(1);
        lwe_small::<u64>(*d, k, cx)?;
        lwe_small::<u32>(*d, k, cx)
    });
    let ps: Vec<u32> = (1..=63).collect();
    ck.par("LWE, noise at the bound", &ps, |p| format!("{p} plaintext bits"), |p, cx| {
        if *p < 63 { lwe_noise::<u64>(*p, cx)?; }
        if *p < 31 { lwe_noise::<u32>(*p, cx)?; }
        carry(*p, cx)
    });
    let mut items = vec![];
    for dim in 1..=ck.tier(4usize, 6) {
        for key in keys(dim, 6) { for std in [0., 2f64.powi(-20)] { items.push((dim, key.clone(), std)) } }
    }
    ck.par("LWE, public key", &items, |(d, k, s)| format!("dimension {d} key {k:x?} deviation {s}"), |(d, k, s), cx| {
        lwe_public::<u64>(*d, k, *s, cx)?;
        lwe_public::<u32>(*d, k, *s, cx)
    });
    let mut items = vec![];
    for (n, k) in shapes(q) {
        for key in keys(n * k, ck.tier(5, 8)) { items.push((n, k, key)) }
    }
    ck.par("ring encryption", &items, |(n, k, key)| format!("N {n} k {k} key {key:x?}"), |(n, k, key), cx| {
        glwe::<u64>(*n, *k, key, n * k <= 4, cx)?;
        glwe::<u32>(*n, *k, key, n * k <= 4, cx)
    });
    let mut ritems = vec![];
    for n in [1usize, 2, 4, 8, 32, 256] {
        for key in keys(n, ck.tier(4, 8)) { for std in [0., 2f64.powi(-18)] { ritems.push((n, key.clone(), std)) } }
    }
    ck.par("ring public key", &ritems, |(n, key, s)| format!("N {n} key {key:x?} deviation {s}"), |(n, key, s), cx| {
        rlwe::<u64>(*n, key, *s, cx)?;
        if *s == 0. { rlwe::<u32>(*n, key, *s, cx)?; }
        Ok(())
    });
    let rads = [rad(1, 1), rad(1, 8), rad(3, 4), rad(2, 16), rad(8, 4), rad(5, 6), rad(1, 31), rad(16, 2), rad(7, 3), rad(32, 1)];
    let mut gitems = vec![];
    for (n, k, key) in &items {
        if *n > ck.tier(16, 64) { continue }
        for r in rads { gitems.push((*n, *k, key.clone(), r)) }
    }
    ck.par("lev encryption", &gitems, |(n, k, key, r)| format!("N {n} k {k} {r:?} key {key:x?}"), |(n, k, key, r), cx| {
        glev::<u64>(*n, *k, *r, key, cx)?;
        glev::<u32>(*n, *k, *r, key, cx)
    });
    let rads64 = [rad(8, 8), rad(2, 32), rad(64, 1), rad(1, 63), rad(3, 20)];
    let mut gitems64 = vec![];
    for (n, k) in [(1, 1), (2, 2), (4, 1), (16, 2)] { for r in rads64 { for key in keys(n * k, 2) { gitems64.push((n, k, key, r)) } } }
    ck.par("lev and GGSW encryption, wide gadgets", &gitems64, |(n, k, key, r)| format!("N {n} k {k} {r:?} key {key:x?}"), |(n, k, key, r), cx| {
        glev::<u64>(*n, *k, *r, key, cx)?;
        ggsw::<u64>(*n, *k, *r, key, cx)
    });
    ck.par("GGSW encryption", &gitems, |(n, k, key, r)| format!("N {n} k {k} {r:?} key {key:x?}"), |(n, k, key, r), cx| {
        ggsw::<u64>(*n, *k, *r, key, cx)?;
        ggsw::<u32>(*n, *k, *r, key, cx)
    });
    ck.par("fresh randomness", &[(16usize, 1usize), (16, 3), (64, 2), (256, 1)], |(n, k)| format!("N {n} k {k}"), |(n, k), cx| {
        fresh::<u64>(*n, *k, cx)?;
        fresh::<u32>(*n, *k, cx)?;
        fresh_lwe::<u64>(n * k, cx)?;
        fresh_lwe::<u32>(n * k, cx)
    });
    ck.case("high-level API", "every scheme", high_level);
    ck.case("refusals", "shapes and widths", refusals);
    ck.finish()
}
