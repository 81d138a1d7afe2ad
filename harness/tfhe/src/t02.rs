//! T02: linear homomorphic operations act as their plain counterparts.
use crate::t04::{monomial, negmul};
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::traits::{WrappingAdd, WrappingNeg, WrappingSub};
use sunscreen_tfhe::{
    entities::*,
    high_level::encryption as hl,
    ops::bootstrapping::{rotate_glwe_monomial_negacyclic, rotate_glwe_negative_monomial_negacyclic, rotate_glwe_positive_monomial_negacyclic},
    ops::ciphertext::*,
    ops::encryption::*,
    ops::homomorphisms::lwe_rotate,
    radix::{PolynomialRadixIterator, ScalarRadixIterator},
    GlweDef, LweDef, PlaintextBits, PolynomialDegree, RadixDecomposition, TorusOps,
};

/// Ciphertexts whose words (mask and body alike) are boundary values, so that every carry and wrap occurs.
fn lwe_ct<S: TorusOps>(d: &LweDef, w: &[u64]) -> LweCiphertext<S> {
    let mut c = LweCiphertext::<S>::new(d);
    let (a, b) = c.a_b_mut(d);
    for (x, w) in a.iter_mut().zip(w) { *x = t(*w) }
    *b = t(w[d.dim.0]);
    c
}
fn glwe_ct<S: TorusOps>(g: &GlweDef, w: &[u64]) -> GlweCiphertext<S> {
    let mut c = GlweCiphertext::<S>::new(g);
    let n = g.dim.polynomial_degree.0;
    let (a, b) = c.a_b_mut(g);
    for (i, p) in a.chain([b]).enumerate() {
        for (x, w) in p.coeffs_mut().iter_mut().zip(&w[i * n..]) { *x = t(*w) }
    }
    c
}
fn zip2(a: &[u64], b: &[u64], bits: u32, f: impl Fn(u64, u64) -> u64) -> V {
    a.iter().zip(b).map(|(a, b)| f(*a, *b) & mask(bits)).collect()
}
/// Word vectors: constant boundary vectors, rotations of the boundary list, arbitrary words.
fn vecs(n: usize, bits: u32, many: bool) -> Vec<V> {
    let e = edge(bits);
    let mut v: Vec<V> = vec![];
    for s in 0..e.len() { v.push((0..n).map(|i| e[(s + i * 5) % e.len()]).collect()) }
    if many { for s in 0..e.len() { v.push(vec![e[s]; n]) } }
    for s in 0..if many { 4 } else { 2 } { v.push(arb(s + n as u64, n).iter().map(|x| x & mask(bits)).collect()) }
    v
}

macro_rules! operator_forms {
    ($cx:expr, $get:expr, $a:expr, $b:expr, $wa:expr, $wb:expr, $bits:expr, $what:expr) => {{
        let (a, b, get) = ($a, $b, $get);
        let add = zip2($wa, $wb, $bits, u64::wrapping_add);
        let sub = zip2($wa, $wb, $bits, u64::wrapping_sub);
        let neg = zip2($wa, $wa, $bits, |x, _| x.wrapping_neg());
        let mut c = a.clone();
        c += b.clone();
        let mut d = a.clone();
        d -= b.clone();
        for (i, (x, w)) in [
            (get(&(&*a + &*b)), &add), (get(&(a.clone() + b.clone())), &add), (get(&WrappingAdd::wrapping_add(&a, &b)), &add), (get(&c), &add),
            (get(&(&*a - &*b)), &sub), (get(&(a.clone() - b.clone())), &sub), (get(&WrappingSub::wrapping_sub(&a, &b)), &sub), (get(&d), &sub),
            (get(&-&*a), &neg), (get(&-a.clone()), &neg), (get(&WrappingNeg::wrapping_neg(&a)), &neg),
        ].into_iter().enumerate() {
            same!($cx, &x, w, "{}: operator form {i} on {:x?} and {:x?}", $what, $wa, $wb);
        }
    }};
}

fn lwe<S: TorusOps>(dim: usize, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let d = ldef(dim);
    let vs = vecs(dim + 1, bits, true);
    let keys: Vec<V> = vec![bits_(0b1011, dim), arb(5, dim)];
    for wa in &vs {
        let a = lwe_ct::<S>(&d, wa);
        for wb in &vs {
            let b = lwe_ct::<S>(&d, wb);
            operator_forms!(cx, |c: &LweCiphertext<S>| lwe_words_of(c, &d), a.clone(), b.clone(), wa, wb, bits, "LWE ciphertext");
            let (ka, kb) = (lwe_key::<S>(&d, wa), lwe_key::<S>(&d, wb));
            operator_forms!(cx, |c: &LweSecretKey<S>| lwe_words(c), ka.clone(), kb.clone(), &wa[..dim].to_vec(), &wb[..dim].to_vec(), bits, "LWE key");
            let mut c = b.clone();
            add_lwe_inplace(&mut c, &a, &d);
            same!(cx, lwe_words_of(&c, &d), zip2(wa, wb, bits, u64::wrapping_add), "add_lwe_inplace");
            // adding the same ciphertext's phases
            for k in &keys {
                same!(cx, lwe_phase(&c, k, &d), lwe_phase(&a, k, &d).wrapping_add(lwe_phase(&b, k, &d)) & mask(bits), "phase of a sum");
            }
        }
        for r in edge(bits) {
            for kind in 0..3 {
                let mut c = LweCiphertext::<S>::new(&d);
                dirty(&mut *c, kind);
                lwe_rotate(&mut c, &a, t(r), &d);
                let mut want = wa.clone();
                want[dim] = want[dim].wrapping_add(r) & mask(bits);
                same!(cx, lwe_words_of(&c, &d), want, "lwe_rotate by {r:#x}");
            }
        }
    }
    Ok(())
}
fn bits_(x: u64, n: usize) -> V { bits(x, n) }

/// Modulus switching rounds every component to the requested grid of the smaller modulus.
fn lwe_switch<S: TorusOps>(log_mod: u32, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let d = ldef(2);
    let pats = patterns(bits);
    for log_v in 0..log_mod.min(5) {
        for chi in 0..4 {
            let keep = log_mod - log_v;
            for c in pats.chunks(3) {
                let mut w = c.to_vec();
                w.resize(3, 1 << (bits - keep - 1));
                let mut ct = lwe_ct::<S>(&d, &w);
                lwe_ciphertext_modulus_switch(&mut ct, chi, log_v, log_mod, &d);
                for (x, y) in w.iter().zip(lwe_words_of(&ct, &d)) {
                    let z = ((*x as u128) << chi) & mask(bits) as u128;
                    let q = (z + (1u128 << (bits - keep - 1))) >> (bits - keep);
                    let want = ((q << log_v) & mask(log_mod) as u128) as u64;
                    cx.ev(true);
                    // a full turn may be reported as 0 or as the modulus itself
                    ensure!(y & mask(log_mod) == want && y <= 1 << log_mod, "{x:#x} switched to 2^{log_mod} (chi {chi}, v {log_v}): {y:#x}, expected {want:#x}");
                }
            }
        }
    }
    Ok(())
}

fn glwe<S: TorusOps>(n: usize, k: usize, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = gdef(n, k);
    let len = n * (k + 1);
    let vs = vecs(len, bits, n * k <= 8);
    let polys = |v: &[u64]| -> Vec<V> { v.chunks(n).map(|c| c.to_vec()).collect() };
    for wa in &vs {
        let a = glwe_ct::<S>(&g, wa);
        for wb in &vs {
            let b = glwe_ct::<S>(&g, wb);
            let (add, sub) = (zip2(wa, wb, bits, u64::wrapping_add), zip2(wa, wb, bits, u64::wrapping_sub));
            operator_forms!(cx, |c: &GlweCiphertext<S>| glwe_flat(c, &g), a.clone(), b.clone(), wa, wb, bits, "GLWE ciphertext");
            let (ka, kb) = (glwe_key::<S>(&g, &wa[..n * k]), glwe_key::<S>(&g, &wb[..n * k]));
            operator_forms!(cx, |c: &GlweSecretKey<S>| glwe_words(c, &g).concat(), ka.clone(), kb.clone(), &wa[..n * k].to_vec(), &wb[..n * k].to_vec(), bits, "GLWE key");
            for kind in 0..3 {
                let mut c = GlweCiphertext::<S>::new(&g);
                dirty(&mut *c, kind);
                add_glwe_ciphertexts(&mut c, &a, &b, &g);
                same!(cx, glwe_flat(&c, &g), add, "add_glwe_ciphertexts N {n} k {k}");
                dirty(&mut *c, kind);
                sub_glwe_ciphertexts(&mut c, &a, &b, &g);
                same!(cx, glwe_flat(&c, &g), sub, "sub_glwe_ciphertexts N {n} k {k}");
            }
            let mut c = a.clone();
            glwe_add_assign(&mut c, &b, &g);
            same!(cx, glwe_flat(&c, &g), add, "glwe_add_assign N {n} k {k}");
            // multiply-accumulate with a polynomial taken from the boundary vectors
            let p = &wb[..n];
            let mut c = b.clone();
            glwe_polynomial_mad(&mut c, &a, &ip::<S>(p), &g);
            let want: V = polys(wa).iter().zip(polys(wb)).flat_map(|(a, c)| negmul(p, a).iter().zip(c).map(|(x, y)| u64::wrapping_add(*x, y) & mask(bits)).collect::<V>()).collect();
            same!(cx, glwe_flat(&c, &g), want, "glwe_polynomial_mad by {p:x?}");
        }
        for s in edge(bits) {
            let b = glwe_ct::<S>(&g, &vs[1]);
            let mut c = b.clone();
            glwe_scalar_mad(&mut c, &a, S::from_u64(s), &g);
            same!(cx, glwe_flat(&c, &g), zip2(wa, &vs[1], bits, |x, y| y.wrapping_add(x.wrapping_mul(s))), "glwe_scalar_mad by {s:#x}");
            for kind in 0..3 {
                let mut c = GlweCiphertext::<S>::new(&g);
                dirty(&mut *c, kind);
                glwe_rotate(&mut c, &a, t(s), &g);
                let mut want = wa.clone();
                for x in &mut want[n * k..] { *x = x.wrapping_add(s) & mask(bits) }
                same!(cx, glwe_flat(&c, &g), want, "glwe_rotate by {s:#x}");
            }
        }
        let mut c = a.clone();
        glwe_negate_inplace(&mut c, &g);
        same!(cx, glwe_flat(&c, &g), zip2(wa, wa, bits, |x, _| x.wrapping_neg()), "glwe_negate_inplace");
        // dividing by a power of two
        for sh in 0..bits.min(20) {
            let mut c = GlweCiphertext::<S>::new(&g);
            dirty(&mut *c, (sh % 3) as u8);
            glwe_mod_switch_and_expand_pow_2(&mut c, &a, &g, sh);
            let want: V = wa.iter().map(|x| ((*x as u128 + if sh == 0 { 0 } else { 1u128 << (sh - 1) }) >> sh) as u64).collect();
            same!(cx, glwe_flat(&c, &g), want, "glwe_mod_switch_and_expand_pow_2 by {sh}");
        }
    }
    Ok(())
}

fn rotations<S: TorusOps>(n: usize, k: usize, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let g = gdef(n, k);
    let mut exps: Vec<i64> = if n <= 64 { (-4 * n as i64..=4 * n as i64).collect() } else { vec![] };
    for m in -4i64..=4 { for o in -1..=1 { exps.push(m * n as i64 + o) } }
    for w in vecs(n * (k + 1), bits, false) {
        let a = glwe_ct::<S>(&g, &w);
        for e in &exps {
            let want: V = w.chunks(n).flat_map(|p| monomial(p, *e as i128)).map(|x| x & mask(bits)).collect();
            let mut c = GlweCiphertext::<S>::new(&g);
            dirty(&mut *c, (e.rem_euclid(3)) as u8);
            rotate_glwe_monomial_negacyclic(&mut c, &a, *e as isize, &g);
            same!(cx, glwe_flat(&c, &g), want, "multiplication by X^{e}, N {n}");
            dirty(&mut *c, 1);
            if *e >= 0 { rotate_glwe_positive_monomial_negacyclic(&mut c, &a, *e as usize, &g) } else { rotate_glwe_negative_monomial_negacyclic(&mut c, &a, -*e as usize, &g) }
            same!(cx, glwe_flat(&c, &g), want, "multiplication by X^{e} (signed form), N {n}");
        }
        // coefficient extraction
        for h in (0..n).step_by((n / 64).max(1)) {
            for kind in 0..3 {
                let mut l = LweCiphertext::<S>::new(&g.as_lwe_def());
                dirty(&mut *l, kind);
                sample_extract(&mut l, &a, h, &g);
                for key in [bits_(0x9E3779B97F4A7C15, n.min(64)).repeat(n.div_ceil(64) * k)[..n * k].to_vec(), arb(3, n * k).iter().map(|x| x & mask(bits)).collect()] {
                    let sk = glwe_key::<S>(&g, &key);
                    let s = glwe_words(&sk, &g);
                    let lw = lwe_words(sk.to_lwe_secret_key());
                    let want = glwe_phase_at(&w, &s, n, k, h, bits);
                    same!(cx, lwe_phase(&l, &lw, &g.as_lwe_def()), want, "coefficient {h} of N {n} k {k}, buffer kind {kind}");
                }
            }
        }
    }
    Ok(())
}
fn glwe_phase_at(w: &[u64], s: &[V], n: usize, k: usize, h: usize, bits: u32) -> u64 {
    let mut x = w[n * k + h];
    for i in 0..k {
        for j in 0..n {
            // coefficient h of a_i * s_i
            let p = s[i][j].wrapping_mul(w[i * n + (h + n - j) % n]);
            x = if j <= h { x.wrapping_sub(p) } else { x.wrapping_add(p) };
        }
    }
    x & mask(bits)
}

/// <decomposition of a, lev(m)> adds a*m, for every exactly decomposable a.
fn levs<S: TorusOps>(n: usize, k: usize, r: RadixDecomposition, cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let used = (r.count.0 * r.radix_log.0) as u32;
    let g = gdef(n, k);
    rand::mc::seed(12);
    let sk = glwe_key::<S>(&g, &(0..n * k).map(|i| 0x9E3779B97F4A7C15u64 >> (i % 64) & 1).collect::<V>());
    let s = glwe_words(&sk, &g);
    let base: V = (0..n * (k + 1)).map(|i| arb(i as u64, 1)[0] & mask(bits)).collect();
    for m in [vec![0; n], vec![1; n], (0..n as u64).map(|i| (i == 0) as u64).collect(), (0..n as u64).map(|i| i & 3).collect::<V>()] {
        let mut gl = GlevCiphertext::<S>::new(&g, &r);
        encrypt_secret_glev_ciphertext(&mut gl, ip::<S>(&m).as_torus(), &sk, &g, &r);
        for w in vecs(n, bits, true) {
            // keep only the bits the decomposition represents
            let a: V = w.iter().map(|x| (x >> (bits - used)) << (bits - used)).collect();
            for kind in 0..3 {
                let mut c = glwe_ct::<S>(&g, &base);
                let before = glwe_phase(&c, &s, &g);
                let mut scratch = ip::<S>(&vec![0; n]);
                dirty(&mut *scratch, kind);
                let pa = tp::<S>(&a);
                decomposed_polynomial_glev_mad(&mut c, PolynomialRadixIterator::new(&pa, &mut scratch, &r), &gl, &g);
                let want = zip2(&before, &negmul(&m, &a), bits, u64::wrapping_add);
                same!(cx, glwe_phase(&c, &s, &g), want, "polynomial {a:x?} times lev of {m:?} under {r:?}");
            }
            for &x in a.iter().take(3) {
                let mut c = glwe_ct::<S>(&g, &base);
                let before = glwe_phase(&c, &s, &g);
                decomposed_scalar_glev_mad(&mut c, ScalarRadixIterator::new(t::<S>(x), &r), &gl, &g);
                let want = zip2(&before, &m, bits, |y, m| y.wrapping_add(m.wrapping_mul(x)));
                same!(cx, glwe_phase(&c, &s, &g), want, "scalar {x:#x} times lev of {m:?} under {r:?}");
            }
        }
    }
    Ok(())
}

/// Messages through encryption, operation and decryption, modulo the plaintext modulus.
fn plain(p: u32, cx: &mut Cx) -> R {
    rand::mc::seed(p as u64);
    let pb = PlaintextBits(p);
    let d = ldef(3);
    let sk = LweSecretKey::<u64>::generate_binary(&d);
    for x in 0..1u64 << p {
        for y in 0..1u64 << p {
            let (a, b) = (hl::encrypt_lwe_secret(x, &sk, &d, pb), hl::encrypt_lwe_secret(y, &sk, &d, pb));
            let dec = |c: &LweCiphertextRef<u64>| hl::decrypt_lwe(c, &sk, &d, pb);
            same!(cx, (dec(&(&*a + &*b)), dec(&(&*a - &*b)), dec(&-&*a)), (x.wrapping_add(y) & mask(p), x.wrapping_sub(y) & mask(p), x.wrapping_neg() & mask(p)), "{x} and {y} modulo 2^{p}");
            let mut r = a.clone();
            lwe_rotate(&mut r, &a, sunscreen_tfhe::Torus::encode(y, pb), &d);
            same!(cx, dec(&r), x.wrapping_add(y) & mask(p), "{x} rotated by {y}");
        }
    }
    for (n, k) in [(1, 1), (2, 1), (4, 2), (16, 1)] {
        let g = gdef(n, k);
        let sk = GlweSecretKey::<u64>::generate_binary(&g);
        let e = |m: &V| hl::encrypt_glwe(&ip::<u64>(m), &sk, &g, pb);
        let dec = |c: &GlweCiphertextRef<u64>| iv(&hl::decrypt_glwe(c, &sk, &g, pb));
        for s in 0..40u64 {
            let x: V = arb(s, n).iter().map(|v| v & mask(p)).collect();
            let y: V = arb(s + 50, n).iter().map(|v| v & mask(p)).collect();
            let (a, b) = (e(&x), e(&y));
            same!(cx, dec(&(&*a + &*b)), zip2(&x, &y, p, u64::wrapping_add), "sum");
            same!(cx, dec(&(&*a - &*b)), zip2(&x, &y, p, u64::wrapping_sub), "difference");
            let mut c = GlweCiphertext::<u64>::new(&g);
            glwe_polynomial_mad(&mut c, &a, &ip::<u64>(&y), &g);
            same!(cx, dec(&c), negmul(&x, &y).iter().map(|v| v & mask(p)).collect::<V>(), "product with a plaintext polynomial");
            for h in 0..n {
                let l = sunscreen_tfhe::high_level::evaluation::sample_extract(&a, &g, h);
                same!(cx, hl::decrypt_lwe(&l, sk.to_lwe_secret_key(), &g.as_lwe_def(), pb), x[h], "extraction of {h}");
            }
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T02", "exploration",
        "every pair of boundary and arbitrary ciphertexts (every word of mask and body at a boundary value in some case) through every operator form and named operation, with used output buffers; every rotation from -4N to 4N and every extracted coefficient for N <= 64; every target modulus, scale and offset of modulus switching over all two-bit patterns; every radix shape of the lev products; every pair of messages of the small plaintext widths through encrypt-operate-decrypt; oracle: plain integer and schoolbook polynomial arithmetic on the phases");
    ck.set_wrap(one_thread);
    let dims: Vec<usize> = (1..=ck.tier(17, 40)).chain([32, 63]).collect();
    ck.par("LWE arithmetic", &dims, |d| format!("dimension {d}"), |d, cx| { lwe::<u64>(*d, cx)?; lwe::<u32>(*d, cx) });
    let mods: Vec<u32> = (1..=14).collect();
    ck.par("LWE modulus switching", &mods, |m| format!("to 2^{m}"), |m, cx| { lwe_switch::<u64>(*m, cx)?; lwe_switch::<u32>(*m, cx) });
    let mut shapes = vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (4, 1), (4, 3), (8, 1), (8, 2), (16, 1), (16, 3), (32, 2)];
    shapes.extend([(64, 1), (64, 3), (128, 2), (256, 1), (512, 1), (1024, 1), (2, 7), (1, 9)]);
    if ck.thorough { shapes.extend([(2048, 1), (512, 4), (16, 8), (4, 15)]) }
    ck.par("GLWE arithmetic", &shapes, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| { glwe::<u64>(*n, *k, cx)?; glwe::<u32>(*n, *k, cx) });
    let mut rs = shapes.clone();
    rs.extend([(64, 1), (256, 1)]);
    rs.extend([(512, 2), (1024, 1), (2048, 1)]);
    rs.sort();
    rs.dedup();
    ck.par("rotation and extraction", &rs, |(n, k)| format!("N {n} k {k}"), |(n, k), cx| { rotations::<u64>(*n, *k, cx)?; rotations::<u32>(*n, *k, cx) });
    let mut ls = vec![];
    for (n, k) in [(1, 1), (1, 2), (2, 1), (4, 2), (16, 1)] {
        for r in [rad(1, 1), rad(1, 8), rad(3, 4), rad(2, 15), rad(7, 4), rad(5, 6), rad(1, 31), rad(15, 2), rad(31, 1)] { ls.push((n, k, r)) }
    }
    ck.par("lev products", &ls, |(n, k, r)| format!("N {n} k {k} {r:?}"), |(n, k, r), cx| { levs::<u64>(*n, *k, *r, cx)?; levs::<u32>(*n, *k, *r, cx) });
    let lw: Vec<_> = [(1, 1), (4, 2), (16, 1)].into_iter().flat_map(|(n, k)| [rad(7, 9), rad(3, 21), rad(63, 1), rad(2, 31), rad(1, 63)].map(|r| (n, k, r))).collect();
    ck.par("lev products, wide gadgets", &lw, |(n, k, r)| format!("N {n} k {k} {r:?}"), |(n, k, r), cx| levs::<u64>(*n, *k, *r, cx));
    let ps: Vec<u32> = (1..=ck.tier(5, 7)).collect();
    ck.par("through encryption", &ps, |p| format!("{p} plaintext bits"), |p, cx| plain(*p, cx));
    let _ = PolynomialDegree(1);
    ck.finish()
}
