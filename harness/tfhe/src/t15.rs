//! T15: every mask, noise term and secret key word comes from its own fresh random draw.
//!
//! The random source is scripted. Every randomised operation is run once on a base stream and once more for every
//! single draw replaced by another value. A mask coefficient, noise term or key word must change with at least one
//! draw of its own, no draw may reach two of them, and a noise term must move exactly as a normal sample of the
//! standard deviation of the parameters it is encrypted under.
use crate::{t04::negmul, u::*};
use mc::{ensure, same, Ck, Cx, R};
use std::{
    num::Wrapping,
    ops::{Add, Mul, Sub},
};
use sunscreen_tfhe::{
    entities::*,
    ops::{
        automorphisms::generate_automorphism_key,
        bootstrapping::{generate_bootstrap_key, generate_scheme_switch_key},
        encryption::*,
        keyswitch::{
            glwe_keyswitch_key::generate_keyswitch_key_glwe, lwe_keyswitch_key::generate_keyswitch_key_lwe, private_functional_keyswitch as pf,
            public_functional_keyswitch as pu,
        },
    },
    rand::{binary, normal_torus, uniform_torus, Stddev},
    GlweDef, LweDef, PlaintextBits, PrivateFunctionalKeyswitchLweCount, RadixDecomposition, Torus, TorusOps,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// any word
    Word,
    /// zero or one
    Bit,
    /// a normal sample
    Noise(f64),
}
/// A randomised part of a result.
struct Slot {
    at: String,
    kind: Kind,
    value: u64,
}

fn stream(seed: u64) -> impl FnMut() -> u64 {
    let mut f = Fill(seed);
    move || f.next()
}
/// Draws that a normal sample is made of alone.
fn pool(n: usize) -> V {
    let mut next = stream(15);
    let mut v = vec![];
    while v.len() < n {
        let x = next();
        rand::mc::seed(0);
        rand::mc::script([x]);
        let _ = normal_torus::<u64>(Stddev(1e-3));
        if rand::mc::draws() == 1 { v.push(x) }
    }
    v
}
fn sample<S: TorusOps>(kind: Kind, draws: &[u64]) -> u64 {
    rand::mc::seed(0);
    rand::mc::script(draws.iter().copied());
    match kind {
        Kind::Word => un(uniform_torus::<S>()),
        Kind::Bit => binary::<S>().to_u64(),
        Kind::Noise(std) => un(normal_torus::<S>(Stddev(std))),
    }
}

struct Out {
    slots: Vec<Slot>,
}
impl Out {
    fn put(&mut self, at: String, kind: Kind, v: V) {
        for (i, value) in v.into_iter().enumerate() { self.slots.push(Slot { at: format!("{at}[{i}]"), kind, value }) }
    }
    fn lwe<S: TorusOps>(&mut self, at: String, c: &LweCiphertextRef<S>, key: &[u64], l: &LweDef) {
        self.put(format!("{at} mask"), Kind::Word, c.a(l).iter().map(|x| un(*x)).collect());
        self.put(format!("{at} noise"), Kind::Noise(l.std.0), vec![lwe_phase(c, key, l)]);
    }
    fn glwe<S: TorusOps>(&mut self, at: String, c: &GlweCiphertextRef<S>, key: &[V], g: &GlweDef) {
        self.put(format!("{at} mask"), Kind::Word, c.a(g).flat_map(tv).collect());
        self.put(format!("{at} noise"), Kind::Noise(g.std.0), glwe_phase(c, key, g));
    }
    fn glev<S: TorusOps>(&mut self, at: String, c: &GlevCiphertextRef<S>, key: &[V], g: &GlweDef) {
        for (i, c) in c.glwe_ciphertexts(g).enumerate() { self.glwe(format!("{at} level {i}"), c, key, g) }
    }
}

fn trace<S: TorusOps>(what: &str, pool: &[u64], want: usize, run: &mut dyn FnMut(&mut Out), cx: &mut Cx) -> R {
    let bits = size_of::<S>() as u32 * 8;
    let mut go = |draws: &[u64]| {
        rand::mc::seed(1);
        rand::mc::script(draws.iter().copied());
        let mut o = Out { slots: vec![] };
        run(&mut o);
        (o.slots, rand::mc::draws() as usize)
    };
    let (base, used) = go(&pool[..pool.len() / 2]);
    ensure!(used < pool.len() / 2, "{what}: {used} draws, more than the checker's pool");
    same!(cx, base.len(), want, "{what}: random parts");
    let mut owners: Vec<V> = vec![vec![]; base.len()];
    let mut script = pool[..used + 8].to_vec();
    for i in 0..used {
        let old = script[i];
        // another value of the other parity
        let new = *pool[pool.len() / 2 + i..].iter().find(|x| (**x ^ old) & 1 == 1).unwrap();
        script[i] = new;
        let (got, n) = go(&script);
        script[i] = old;
        cx.ev(true);
        cx.states += 1;
        ensure!(n == used && got.len() == base.len(), "{what}: the number of draws or parts depends on a draw");
        let mut hit = None;
        for (j, (a, b)) in base.iter().zip(&got).enumerate() {
            if a.value == b.value { continue }
            if let Some(k) = hit { ensure!(false, "{what}: {} and {} come from the same draw {i}", base[k as usize].at, a.at) }
            hit = Some(j as u64);
            owners[j].push(i as u64);
            if let Kind::Noise(std) = a.kind {
                let moved = dist(b.value, a.value, bits);
                let should = dist(sample::<S>(a.kind, &[new]), sample::<S>(a.kind, &[old]), bits);
                ensure!(moved == should || moved == -should, "{what}: {} moves by {moved} with draw {i}, a sample of standard deviation {std} by {should}", a.at);
            }
        }
    }
    for (s, o) in base.iter().zip(&owners) {
        ensure!(!o.is_empty(), "{what}: {} is not random", s.at);
        let v: V = o.iter().map(|i| pool[*i as usize]).collect();
        match s.kind {
            Kind::Noise(_) => {}
            _ => ensure!(s.value == sample::<S>(s.kind, &v), "{what}: {} is {:#x}, its draw gives {:#x}", s.at, s.value, sample::<S>(s.kind, &v)),
        }
    }
    Ok(())
}

fn word_bits<S>() -> u32 { size_of::<S>() as u32 * 8 }
fn stds<S>() -> (Stddev, Stddev, Stddev) {
    let b = word_bits::<S>() as i32;
    (Stddev(2f64.powi(-b / 4)), Stddev(2f64.powi(-b / 4 - 2)), Stddev(2f64.powi(-b / 4 - 4)))
}
fn key_bits(seed: u64, n: usize) -> V { arb(seed, n).iter().map(|x| x & 1).collect() }

fn defs<S>(n: usize, k: usize, d: usize) -> (GlweDef, LweDef, LweDef) {
    let (a, b, c) = stds::<S>();
    (GlweDef { std: a, ..gdef(n, k) }, LweDef { std: b, ..ldef(d) }, LweDef { std: c, ..ldef(d + 1) })
}

fn ciphertexts<S: TorusOps>(n: usize, k: usize, d: usize, r: &RadixDecomposition, pool: &[u64], cx: &mut Cx) -> R {
    let (g, l, _) = defs::<S>(n, k, d);
    let (sg, sl) = (glwe_key::<S>(&g, &key_bits(3, n * k)), lwe_key::<S>(&l, &key_bits(5, d)));
    let (s, lw) = (glwe_words(&sg, &g), lwe_words(&sl));
    let m: V = (0..n as u64).map(|x| x & 3).collect();
    let count = r.count.0;
    let say = |w: &str| format!("{w}, u{} N={n} k={k} n={d} {r:?}", word_bits::<S>());
    let ring = (k + 1) * n;
    trace::<S>(&say("binary LWE key"), pool, d, &mut |o| o.put("word".into(), Kind::Bit, lwe_words(&LweSecretKey::<S>::generate_binary(&l))), cx)?;
    trace::<S>(&say("uniform LWE key"), pool, d, &mut |o| o.put("word".into(), Kind::Word, lwe_words(&LweSecretKey::<S>::generate_uniform(&l))), cx)?;
    trace::<S>(&say("binary GLWE key"), pool, n * k, &mut |o| o.put("word".into(), Kind::Bit, glwe_words(&GlweSecretKey::<S>::generate_binary(&g), &g).concat()), cx)?;
    trace::<S>(&say("uniform GLWE key"), pool, n * k, &mut |o| o.put("word".into(), Kind::Word, glwe_words(&GlweSecretKey::<S>::generate_uniform(&g), &g).concat()), cx)?;
    trace::<S>(&say("LWE encryption"), pool, d + 1, &mut |o| {
        let (c, e) = sl.encrypt(S::from_u64(1), &l, PlaintextBits(2));
        let p = lwe_phase(&c, &lw, &l);
        o.lwe("ciphertext".into(), &c, &lw, &l);
        assert_eq!(un(e), p.wrapping_sub(enc(1, 2, word_bits::<S>())) & mask(word_bits::<S>()), "reported noise");
    }, cx)?;
    trace::<S>(&say("GLWE encryption"), pool, ring, &mut |o| o.glwe("ciphertext".into(), &sg.encode_encrypt_glwe(&ip::<S>(&m), &g, PlaintextBits(2)), &s, &g), cx)?;
    trace::<S>(&say("GLEV encryption"), pool, count * ring, &mut |o| {
        let mut c = GlevCiphertext::<S>::new(&g, r);
        encrypt_secret_glev_ciphertext(&mut c, ip::<S>(&m).as_torus(), &sg, &g, r);
        o.glev("ciphertext".into(), &c, &s, &g)
    }, cx)?;
    trace::<S>(&say("GGSW encryption"), pool, (k + 1) * count * ring, &mut |o| {
        let c = sg.encode_encrypt_ggsw(&ip::<S>(&m), &g, r, PlaintextBits(2));
        for (i, row) in c.rows(&g, r).enumerate() { o.glev(format!("row {i}"), row, &s, &g) }
    }, cx)?;
    trace::<S>(&say("LWE public key"), pool, d * (d + 1), &mut |o| {
        let c = LwePublicKey::<S>::generate(&sl, &l);
        for (i, c) in c.enc_zeros(&l).enumerate() { o.lwe(format!("zero {i}"), c, &lw, &l) }
    }, cx)?;
    // public encryption: the reported randomness is what the ciphertext is made of
    rand::mc::seed(7);
    let pk = LwePublicKey::<S>::generate(&sl, &l);
    let bits = word_bits::<S>();
    trace::<S>(&say("LWE public encryption"), pool, 2 * d + 1, &mut |o| {
        let (c, rnd) = pk.encrypt(S::from_u64(1), &l, PlaintextBits(2));
        let sel: V = rnd.r.iter().map(|x| x.to_u64()).collect();
        let mut e = lwe_words_of(&rnd.e, &l);
        o.put("selection".into(), Kind::Bit, sel.clone());
        o.put("noise".into(), Kind::Noise(l.std.0), e.clone());
        e[d] = e[d].wrapping_add(enc(1, 2, bits));
        for (z, s) in pk.enc_zeros(&l).zip(&sel) {
            for (x, y) in e.iter_mut().zip(lwe_words_of(z, &l)) { *x = x.wrapping_add(y.wrapping_mul(*s)) & mask(bits) }
        }
        e[d] &= mask(bits);
        assert_eq!(lwe_words_of(&c, &l), e, "public LWE ciphertext from its randomness");
    }, cx)?;
    if k > 1 { return Ok(()) }
    trace::<S>(&say("RLWE public key"), pool, ring, &mut |o| {
        let mut c = RlwePublicKey::<S>::new(&g);
        rlwe_generate_public_key(&mut c, &sg, &g);
        o.glwe("zero".into(), c.zero_encryption(), &s, &g)
    }, cx)?;
    let mut pk = RlwePublicKey::<S>::new(&g);
    rlwe_generate_public_key(&mut pk, &sg, &g);
    let zero = glwe_flat(pk.zero_encryption(), &g);
    trace::<S>(&say("RLWE public encryption"), pool, 3 * n, &mut |o| {
        let mut c = GlweCiphertext::<S>::new(&g);
        let rnd = rlwe_encode_encrypt_public(&mut c, &ip::<S>(&m), &pk, &PlaintextBits(2), &g);
        let u = iv(&rnd.u);
        let (e0, e1) = (tv(&rnd.e0), tv(&rnd.e1));
        o.put("selection".into(), Kind::Bit, u.clone());
        o.put("mask noise".into(), Kind::Noise(g.std.0), e0.clone());
        o.put("noise".into(), Kind::Noise(g.std.0), e1.clone());
        let (a, b) = (negmul(&u, &zero[..n]), negmul(&u, &zero[n..]));
        let want: V = (0..n).map(|i| a[i].wrapping_add(e0[i]) & mask(bits))
            .chain((0..n).map(|i| b[i].wrapping_add(e1[i]).wrapping_add(enc(m[i], 2, bits)) & mask(bits))).collect();
        assert_eq!(glwe_flat(&c, &g), want, "public GLWE ciphertext from its randomness");
    }, cx)?;
    // public GLEV encryption reports nothing: under a zero key the noise terms stand alone, under X^0 without noise the selection does
    let nil = RlwePublicKey::<S>::new(&g);
    let quiet = GlweDef { std: Stddev(0.0), ..g };
    trace::<S>(&say("public GLEV encryption, noise"), pool, count * 2 * n, &mut |o| {
        let mut c = GlevCiphertext::<S>::new(&g, r);
        encrypt_rlev_ciphertext(&mut c, ip::<S>(&m).as_torus(), &nil, &g, r);
        for (i, c) in c.glwe_ciphertexts(&g).enumerate() { o.put(format!("level {i}"), Kind::Noise(g.std.0), glwe_flat(c, &g)) }
    }, cx)?;
    let mut plain = RlwePublicKey::<S>::new(&g);
    plain.zero_encryption_mut().b_mut(&g).coeffs_mut()[0] = t(1);
    trace::<S>(&say("public GLEV encryption, selection"), pool, count * n, &mut |o| {
        let mut c = GlevCiphertext::<S>::new(&g, r);
        encrypt_rlev_ciphertext(&mut c, tp::<S>(&vec![0; n]).as_ref(), &plain, &quiet, r);
        for (i, c) in c.glwe_ciphertexts(&g).enumerate() { o.put(format!("level {i}"), Kind::Bit, tv(c.b(&g))) }
    }, cx)
}

fn keys<S: TorusOps>(n: usize, k: usize, d: usize, r: &RadixDecomposition, pool: &[u64], cx: &mut Cx) -> R
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let (g, l, from) = defs::<S>(n, k, d);
    let (sg, sl, sf) = (glwe_key::<S>(&g, &key_bits(3, n * k)), lwe_key::<S>(&l, &key_bits(5, d)), lwe_key::<S>(&from, &key_bits(6, d + 1)));
    let (s, lw) = (glwe_words(&sg, &g), lwe_words(&sl));
    let count = r.count.0;
    let say = |w: &str| format!("{w}, u{} N={n} k={k} n={d} {r:?}", word_bits::<S>());
    let glev = count * (k + 1) * n;
    trace::<S>(&say("LWE keyswitch key"), pool, (d + 1) * count * (d + 1), &mut |o| {
        let mut x = LweKeyswitchKey::<S>::new(&from, &l, r);
        generate_keyswitch_key_lwe(&mut x, &sf, &sl, &from, &l, r);
        for (i, row) in x.rows(&l, r).enumerate() {
            for (j, c) in row.lwe_ciphertexts(&l).enumerate() { o.lwe(format!("row {i} level {j}"), c, &lw, &l) }
        }
    }, cx)?;
    trace::<S>(&say("bootstrap key"), pool, d * (k + 1) * glev, &mut |o| {
        let mut x = BootstrapKey::<S>::new(&l, &g, r);
        generate_bootstrap_key(&mut x, &sl, &sg, &l, &g, r);
        for (b, gg) in x.rows(&g, r).enumerate() {
            for (i, row) in gg.rows(&g, r).enumerate() { o.glev(format!("bit {b} row {i}"), row, &s, &g) }
        }
    }, cx)?;
    let other = glwe_key::<S>(&g, &key_bits(8, n * k));
    trace::<S>(&say("GLWE keyswitch key"), pool, k * glev, &mut |o| {
        let mut x = GlweKeyswitchKey::<S>::new(&g, r);
        generate_keyswitch_key_glwe(&mut x, &other, &sg, &g, r);
        for (i, row) in x.rows(&g, r).enumerate() { o.glev(format!("row {i}"), row, &s, &g) }
    }, cx)?;
    if n > 1 {
        trace::<S>(&say("automorphism key"), pool, n.ilog2() as usize * k * glev, &mut |o| {
            let mut x = AutomorphismKey::<S>::new(&g, r);
            generate_automorphism_key(&mut x, &sg, &g, r);
            for (i, key) in x.keyswitch_keys(&g, r).enumerate() {
                for (j, row) in key.rows(&g, r).enumerate() { o.glev(format!("key {i} row {j}"), row, &s, &g) }
            }
        }, cx)?;
    }
    if n >= 16 {
        trace::<S>(&say("scheme switch key"), pool, k * (k + 1) / 2 * glev, &mut |o| {
            let mut x = SchemeSwitchKey::<S>::new(&g, r);
            generate_scheme_switch_key(&mut x, &sg, &g, r);
            for (i, c) in x.glev_ciphertexts(&g, r).enumerate() { o.glev(format!("entry {i}"), c, &s, &g) }
        }, cx)?;
    }
    trace::<S>(&say("circuit bootstrapping keys"), pool, (k + 1) * (d + 2) * glev, &mut |o| {
        let mut x = CircuitBootstrappingKeyswitchKeys::<S>::new(&from, &g, r);
        pf::generate_circuit_bootstrapping_pfks_keys(&mut x, &sf, &sg, &from, &g, r);
        for (i, key) in x.keys(&from, &g, r).enumerate() {
            for (j, c) in key.glevs(&g, r).enumerate() { o.glev(format!("key {i} row {j}"), c, &s, &g) }
        }
    }, cx)?;
    let p = PrivateFunctionalKeyswitchLweCount(n.min(2));
    trace::<S>(&say("private functional keyswitch key"), pool, p.0 * (d + 2) * glev, &mut |o| {
        let mut x = PrivateFunctionalKeyswitchKey::<S>::new(&from, &g, r, &p);
        let map = |o: &mut PolynomialRef<Torus<S>>, v: &[Torus<S>]| for (z, v) in v.iter().enumerate() { o.coeffs_mut()[z] = *v };
        pf::generate_private_functional_keyswitch_key(&mut x, &sf, &sg, map, &from, &g, r, &p);
        for (i, c) in x.glevs(&g, r).enumerate() { o.glev(format!("row {i}"), c, &s, &g) }
    }, cx)?;
    trace::<S>(&say("public functional keyswitch key"), pool, (d + 1) * glev, &mut |o| {
        let mut x = PublicFunctionalKeyswitchKey::<S>::new(&from, &g, r);
        pu::generate_public_functional_keyswitch_key(&mut x, &sf, &sg, &from, &g, r);
        for (i, c) in x.glevs(&g, r).enumerate() { o.glev(format!("row {i}"), c, &s, &g) }
    }, cx)
}

/// The samplers themselves: uniform words use all their bits, bits are fair, normal samples have the moments asked for.
fn samplers<S: TorusOps>(cx: &mut Cx) -> R {
    let bits = word_bits::<S>();
    let mut next = stream(99);
    let n = 1 << 16;
    rand::mc::seed(0);
    let v: V = (0..n).map(|_| next()).collect();
    let fair = |ones: usize| (ones as f64 - n as f64 / 2.).abs() < 3.5 * (n as f64 / 4.).sqrt();
    for b in 0..bits {
        cx.ev(true);
        let ones = v.iter().filter(|x| sample::<S>(Kind::Word, &[**x]) >> b & 1 == 1).count();
        ensure!(fair(ones), "bit {b} of a uniform word is one in {ones} of {n}");
        // and no bit follows another
        for c in 0..b {
            let same = v.iter().step_by(16).filter(|x| { let w = sample::<S>(Kind::Word, &[**x]); (w >> b ^ w >> c) & 1 == 1 }).count();
            ensure!((same as f64 - n as f64 / 32.).abs() < 5. * (n as f64 / 64.).sqrt(), "bits {b} and {c} of a uniform word agree in all but {same} of {}", n / 16);
        }
    }
    let ones: usize = v.iter().map(|x| sample::<S>(Kind::Bit, &[*x])).map(|x| { assert!(x < 2, "a bit of {x}"); x as usize }).sum();
    ensure!(fair(ones), "a random bit is one in {ones} of {n}");
    for std in [2f64.powi(-4), 2f64.powi(-9), 2f64.powi(-15), 2f64.powi(-(bits as i32) + 4)] {
        cx.ev(true);
        let z: Vec<f64> = v.iter().map(|x| dist(sample::<S>(Kind::Noise(std), &[*x]), 0, bits) as f64 / (bits as f64).exp2() / std).collect();
        let moment = |k: i32| z.iter().map(|x| x.powi(k)).sum::<f64>() / n as f64;
        let near = |x: f64, y: f64, t: f64| (x - y).abs() < t;
        ensure!(near(moment(1), 0., 0.02) && near(moment(2), 1., 0.03) && near(moment(3), 0., 0.08) && near(moment(4), 3., 0.25),
            "moments of a normal sample of standard deviation {std}: {} {} {} {}", moment(1), moment(2), moment(3), moment(4));
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T15", "exhaustive-bounded",
        "every randomised operation, once per random draw with that draw replaced: each mask coefficient, noise term and key word has a draw of its own, noise of the right width");
    ck.assume("the operating system's random source is replaced by a script; its quality is not judged");
    ck.set_wrap(one_thread);
    let pool = pool(ck.tier(1 << 14, 1 << 15));
    let shapes: &[(usize, usize, usize)] = if ck.thorough { &[(1, 1, 1), (2, 1, 2), (2, 3, 2), (4, 2, 3), (8, 1, 4), (8, 2, 2), (16, 1, 3), (16, 2, 2), (16, 3, 1), (32, 1, 2), (64, 1, 1)] }
        else { &[(1, 1, 1), (2, 2, 2), (4, 1, 3), (4, 3, 1), (16, 1, 2), (16, 2, 1)] };
    let mut items = vec![];
    for (n, k, d) in shapes {
        for (c, log) in [(1usize, 4usize), (2, 5), (3, 3)] { items.push((*n, *k, *d, rad(c, log))) }
    }
    // past any block size: 64 lanes, words of packed bits
    let large: &[(usize, usize, usize)] = if ck.thorough { &[(128, 1, 80), (256, 1, 90), (64, 2, 70), (512, 1, 100)] } else { &[(128, 1, 70), (256, 1, 66)] };
    let large: Vec<_> = large.iter().map(|(n, k, d)| (*n, *k, *d, rad(1, 6))).collect();
    let label = |(n, k, d, r): &(usize, usize, usize, RadixDecomposition)| format!("N={n} k={k} n={d} levels={}", r.count.0);
    ck.par("keys and ciphertexts, u64", &items, label, |(n, k, d, r), cx| ciphertexts::<u64>(*n, *k, *d, r, &pool, cx));
    ck.par("keys and ciphertexts, u32", &items, label, |(n, k, d, r), cx| ciphertexts::<u32>(*n, *k, *d, r, &pool, cx));
    ck.par("evaluation keys, u64", &items, label, |(n, k, d, r), cx| keys::<u64>(*n, *k, *d, r, &pool, cx));
    ck.par("evaluation keys, u32", &items, label, |(n, k, d, r), cx| keys::<u32>(*n, *k, *d, r, &pool, cx));
    ck.par("large, u64", &large, label, |(n, k, d, r), cx| ciphertexts::<u64>(*n, *k, *d, r, &pool, cx));
    ck.par("large, u32", &large, label, |(n, k, d, r), cx| ciphertexts::<u32>(*n, *k, *d, r, &pool, cx));
    let wide: Vec<_> = [(16usize, 1usize, 66usize), (128, 1, 2)].iter().map(|(n, k, d)| (*n, *k, *d, rad(1, 6))).collect();
    ck.par("large evaluation keys, u64", &wide, label, |(n, k, d, r), cx| keys::<u64>(*n, *k, *d, r, &pool, cx));
    ck.par("large evaluation keys, u32", &wide, label, |(n, k, d, r), cx| keys::<u32>(*n, *k, *d, r, &pool, cx));
    ck.case("samplers", "u64", samplers::<u64>);
    ck.case("samplers", "u32", samplers::<u32>);
    ck.finish()
}
