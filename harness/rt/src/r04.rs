//! R04: keys, encryptions and one-time pads made by the runtime use fresh randomness of their own.
//!
//! The random source is scripted. Every randomised operation of the runtime is run once on a base stream and once more
//! for every single draw replaced by another value. Each key bit, pad bit, mask coefficient and noise term must change
//! with at least one draw of its own; noise must move as a normal sample of the parameters it belongs to.
use crate::fx::{params, rad};
use mc::{Ck, Cx, R, ensure, same};
use parasol_runtime::{
    ComputeKey, ComputeKeyNonFft, DEFAULT_128, Encryption, KeylessEvaluation, L0LweCiphertext, L1GgswCiphertext, L1GlevCiphertext, L1GlweCiphertext,
    L1LweCiphertext, Params, PublicKey, SecretKey, decrypt_one_time_pad, fluent::*, generate_one_time_pad, recrypt_one_time_pad,
};
use sunscreen_tfhe::{
    GlweDef, LweDef, Torus,
    entities::*,
    rand::{Stddev, binary, normal_torus, uniform_torus},
};

type V = Vec<u64>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// a uniform word
    Word,
    /// zero or one
    Bit,
    /// a normal sample of this standard deviation
    Noise(f64),
}
struct Slot {
    at: String,
    kind: Kind,
    value: u64,
}

fn un(x: Torus<u64>) -> u64 {
    x.inner()
}
fn tv(p: &PolynomialRef<Torus<u64>>) -> V {
    p.coeffs().iter().map(|x| un(*x)).collect()
}
fn stream(mut s: u64) -> impl FnMut() -> u64 {
    move || {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
/// Draws that a normal sample is made of alone.
fn pool(n: usize) -> V {
    let mut next = stream(4);
    let mut v = vec![];
    while v.len() < n {
        let x = next();
        rand::mc::seed(0);
        rand::mc::script([x]);
        let _ = normal_torus::<u64>(Stddev(1e-3));
        if rand::mc::draws() == 1 {
            v.push(x)
        }
    }
    v
}
fn sample(kind: Kind, draw: u64) -> u64 {
    rand::mc::seed(0);
    rand::mc::script([draw]);
    match kind {
        Kind::Word => un(uniform_torus::<u64>()),
        Kind::Bit => binary::<u64>(),
        Kind::Noise(std) => un(normal_torus::<u64>(Stddev(std))),
    }
}

fn lwe_phase(ct: &LweCiphertextRef<u64>, s: &[u64], d: &LweDef) -> u64 {
    let (a, b) = ct.a_b(d);
    a.iter().zip(s).fold(un(*b), |x, (a, s)| x.wrapping_sub(un(*a).wrapping_mul(*s)))
}
fn glwe_phase(ct: &GlweCiphertextRef<u64>, s: &[V], g: &GlweDef) -> V {
    let (a, b) = ct.a_b(g);
    let mut x = tv(b);
    let n = x.len();
    for (a, s) in a.zip(s) {
        let a = tv(a);
        for i in (0..n).filter(|i| s[*i] == 1) {
            for j in 0..n {
                let k = i + j;
                if k < n { x[k] = x[k].wrapping_sub(a[j]) } else { x[k - n] = x[k - n].wrapping_add(a[j]) }
            }
        }
    }
    x
}

struct Out<'a> {
    w: &'a World,
    slots: Vec<Slot>,
}
impl Out<'_> {
    fn put(&mut self, at: impl Into<String>, kind: Kind, v: V) {
        let at = at.into();
        for (i, value) in v.into_iter().enumerate() {
            self.slots.push(Slot { at: format!("{at}[{i}]"), kind, value })
        }
    }
    fn lwe(&mut self, at: &str, c: &LweCiphertextRef<u64>, key: &[u64], l: &LweDef) {
        self.put(format!("{at} mask"), Kind::Word, c.a(l).iter().map(|x| un(*x)).collect());
        self.put(format!("{at} noise"), Kind::Noise(l.std.0), vec![lwe_phase(c, key, l)]);
    }
    fn l0(&mut self, at: &str, c: &LweCiphertextRef<u64>) {
        let w = self.w;
        self.lwe(at, c, &w.l0, &w.p.l0_params)
    }
    fn l1(&mut self, at: &str, c: &LweCiphertextRef<u64>) {
        let w = self.w;
        self.lwe(at, c, &w.l1.concat(), &w.p.l1_params.as_lwe_def())
    }
    fn glwe(&mut self, at: &str, c: &GlweCiphertextRef<u64>) {
        let g = &self.w.p.l1_params;
        let noise = glwe_phase(c, &self.w.l1, g);
        self.put(format!("{at} mask"), Kind::Word, c.a(g).flat_map(tv).collect());
        self.put(format!("{at} noise"), Kind::Noise(g.std.0), noise);
    }
    fn glev(&mut self, at: &str, c: &GlevCiphertextRef<u64>) {
        for (i, c) in c.glwe_ciphertexts(&self.w.p.l1_params).enumerate() {
            self.glwe(&format!("{at} level {i}"), c)
        }
    }
    fn ggsw(&mut self, at: &str, c: &L1GgswCiphertext) {
        let (g, r) = (&self.w.p.l1_params, &self.w.p.cbs_radix);
        let mut x = GgswCiphertext::<u64>::new(g, r);
        c.0.ifft(&mut x, g, r);
        for (i, row) in x.rows(g, r).enumerate() {
            self.glev(&format!("{at} row {i}"), row)
        }
    }
}

struct World {
    label: String,
    p: Params,
    enc: Encryption,
    sk: SecretKey,
    l0: V,
    l1: Vec<V>,
    msg: Polynomial<u64>,
}
impl World {
    fn new(d: usize, n: usize, k: usize, cbs: (usize, usize)) -> World {
        let mut p = params(d, n, k, rad(cbs.0, cbs.1));
        p.l0_params.std = Stddev(2f64.powi(-15));
        p.l1_params.std = Stddev(2f64.powi(-19));
        if k > 1 {
            (p.ks_radix, p.ss_radix, p.tr_radix) = (rad(3, 3), rad(4, 5), rad(5, 6))
        }
        rand::mc::seed(n as u64);
        let sk = SecretKey::generate(&p);
        let l0 = sk.lwe_0.s().to_vec();
        let l1 = sk.glwe_1.s(&p.l1_params).map(|x| x.coeffs().to_vec()).collect();
        let msg = Polynomial::new(&(0..n).map(|i| (i * 5 + 1).count_ones() as u64 % 2).collect::<V>());
        World { label: format!("d={d} N={n} k={k} levels={}", cbs.0), enc: Encryption::new(&p), p, sk, l0, l1, msg }
    }
    fn ring(&self) -> usize {
        let d = &self.p.l1_params.dim;
        (d.size.0 + 1) * d.polynomial_degree.0
    }
    fn n(&self) -> usize {
        self.p.l1_poly_degree().0
    }
    fn k(&self) -> usize {
        self.p.l1_params.dim.size.0
    }
    /// A public key without content: ciphertexts made with it are their noise and message.
    fn nil(&self) -> PublicKey {
        PublicKey { rlwe_1: RlwePublicKey::new(&self.p.l1_params) }
    }
    /// A public key (0, 1) for a world without noise: ciphertexts made with it are their selection and message.
    fn unit(&self) -> (Encryption, PublicKey) {
        let mut pk = self.nil();
        pk.rlwe_1.zero_encryption_mut().b_mut(&self.p.l1_params).coeffs_mut()[0] = Torus::from(1u64);
        let mut q = self.p.clone();
        q.l1_params.std = Stddev(0.0);
        (Encryption::new(&q), pk)
    }
    fn b_less(&self, c: &GlweCiphertextRef<u64>, m: &[u64]) -> V {
        tv(c.b(&self.p.l1_params)).iter().zip(m).map(|(x, m)| x.wrapping_sub(m << 63)).collect()
    }
}

/// How far two words may be apart and still be the same (Fourier transforms round).
const SLACK: u64 = 1 << 22;
fn gap(a: u64, b: u64) -> u64 {
    (a.wrapping_sub(b) as i64).unsigned_abs()
}

/// `loose`: the values went through a Fourier transform.
fn trace(w: &World, what: &str, pool: &[u64], want: usize, loose: bool, run: &dyn Fn(&mut Out), cx: &mut Cx) -> R {
    let slack = if loose { SLACK } else { 0 };
    let go = |draws: &[u64]| {
        rand::mc::seed(1);
        rand::mc::script(draws.iter().copied());
        let mut o = Out { w, slots: vec![] };
        run(&mut o);
        (o.slots, rand::mc::draws() as usize)
    };
    let half = pool.len() / 2;
    let (base, used) = go(&pool[..half]);
    ensure!(used < half, "{what}: {used} draws, more than the checker's pool");
    same!(cx, base.len(), want, "{what}: random parts");
    let mut owners: Vec<V> = vec![vec![]; base.len()];
    let mut script = pool[..used + 8].to_vec();
    for i in 0..used {
        let old = script[i];
        let new = *pool[half + i..].iter().find(|x| (**x ^ old) & 1 == 1).unwrap();
        script[i] = new;
        let (got, n) = go(&script);
        script[i] = old;
        cx.ev(true);
        cx.states += 1;
        ensure!(n == used && got.len() == base.len(), "{what}: the number of draws or parts depends on a draw");
        let mut hit: Option<usize> = None;
        for (j, (a, b)) in base.iter().zip(&got).enumerate() {
            if gap(a.value, b.value) <= slack {
                continue;
            }
            if let Some(k) = hit {
                ensure!(false, "{what}: {} and {} come from the same draw {i}", base[k].at, a.at)
            }
            hit = Some(j);
            owners[j].push(pool[i]);
            if let Kind::Noise(std) = a.kind {
                let moved = b.value.wrapping_sub(a.value);
                let should = sample(a.kind, new).wrapping_sub(sample(a.kind, old));
                ensure!(
                    gap(moved, should) <= slack || gap(moved, should.wrapping_neg()) <= slack,
                    "{what}: {} moves by {} with draw {i}, a sample of standard deviation {std} by {}", a.at, moved as i64, should as i64
                );
            }
        }
    }
    for (s, o) in base.iter().zip(&owners) {
        ensure!(!o.is_empty(), "{what}: {} is not random", s.at);
        if s.kind == Kind::Noise(0.0) || matches!(s.kind, Kind::Noise(_)) {
            continue;
        }
        if let [d] = o[..] {
            ensure!(gap(s.value, sample(s.kind, d)) <= slack, "{what}: {} is {:#x}, its draw gives {:#x}", s.at, s.value, sample(s.kind, d));
        }
    }
    Ok(())
}

fn user_keys(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let p = &w.p;
    let l1 = &p.l1_params;
    let (d, n, k, ring) = (p.l0_params.dim.0, w.n(), w.k(), w.ring());
    trace(w, "secret key", pool, d + n * k, false, &|o| {
        let sk = SecretKey::generate(p);
        o.put("level 0", Kind::Bit, sk.lwe_0.s().to_vec());
        o.put("level 1", Kind::Bit, sk.glwe_1.s(l1).flat_map(|x| x.coeffs().to_vec()).collect());
    }, cx)?;
    if k == 1 {
        trace(w, "public key", pool, ring, false, &|o| o.glwe("zero", PublicKey::generate(p, &w.sk).rlwe_1.zero_encryption()), cx)?;
    }
    Ok(())
}
fn keys(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let p = &w.p;
    let (l0, l1) = (&p.l0_params, &p.l1_params);
    let (d, n, k, ring) = (l0.dim.0, w.n(), w.k(), w.ring());
    user_keys(w, pool, cx)?;
    let want = d * (k + 1) * p.pbs_radix.count.0 * ring
        + n * k * p.ks_radix.count.0 * (d + 1)
        + k * (k + 1) / 2 * p.ss_radix.count.0 * ring
        + n.ilog2() as usize * k * p.tr_radix.count.0 * ring;
    trace(w, "compute key", pool, want, false, &|o| {
        let ck = ComputeKeyNonFft::generate(&w.sk, p);
        for (b, gg) in ck.bs_key.rows(l1, &p.pbs_radix).enumerate() {
            for (i, row) in gg.rows(l1, &p.pbs_radix).enumerate() {
                o.glev(&format!("bootstrap bit {b} row {i}"), row)
            }
        }
        for (i, row) in ck.ks_key.rows(l0, &p.ks_radix).enumerate() {
            for (j, c) in row.lwe_ciphertexts(l0).enumerate() {
                o.l0(&format!("keyswitch row {i} level {j}"), c)
            }
        }
        for (i, c) in ck.ss_key.glev_ciphertexts(l1, &p.ss_radix).enumerate() {
            o.glev(&format!("scheme switch entry {i}"), c)
        }
        for (i, key) in ck.auto_key.keyswitch_keys(l1, &p.tr_radix).enumerate() {
            for (j, row) in key.rows(l1, &p.tr_radix).enumerate() {
                o.glev(&format!("automorphism {i} row {j}"), row)
            }
        }
    }, cx)
}

/// Compute keys generated in Fourier form: as many draws as the plain form, each of them with an effect.
fn fft_keys(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let go = |draws: &[u64]| {
        rand::mc::seed(1);
        rand::mc::script(draws.iter().copied());
        let k = ComputeKey::generate(&w.sk, &w.p);
        (bincode::serialize(&k).unwrap(), rand::mc::draws() as usize)
    };
    rand::mc::seed(1);
    rand::mc::script(pool.iter().copied());
    ComputeKeyNonFft::generate(&w.sk, &w.p);
    let plain = rand::mc::draws() as usize;
    let (base, used) = go(pool);
    ensure!(used >= plain, "Fourier compute key: {used} draws, {plain} in the plain form");
    let mut script = pool[..used + 8].to_vec();
    for i in 0..used {
        let old = script[i];
        script[i] = *pool[used + i..].iter().find(|x| (**x ^ old) & 1 == 1).unwrap();
        let (got, n) = go(&script);
        script[i] = old;
        cx.ev(true);
        cx.states += 1;
        ensure!(n == used && got.len() == base.len(), "Fourier compute key: the number of draws depends on a draw");
        ensure!(got != base, "Fourier compute key: draw {i} has no effect");
    }
    Ok(())
}

fn secret(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let (e, sk, p) = (&w.enc, &w.sk, &w.p);
    let (d, ring, levels) = (p.l0_params.dim.0, w.ring(), p.cbs_radix.count.0);
    let (big, ggsw) = (w.n() * w.k() + 1, (w.k() + 1) * levels * ring);
    for b in [false, true] {
        trace(w, "level-0 LWE", pool, d + 1, false, &|o| o.l0("ciphertext", &e.encrypt_lwe_l0_secret(b, sk).0), cx)?;
        trace(w, "level-1 LWE", pool, big, false, &|o| o.l1("ciphertext", &e.encrypt_lwe_l1_secret(b, sk).0), cx)?;
        trace(w, "GGSW", pool, ggsw, true, &|o| o.ggsw("ciphertext", &e.encrypt_ggsw_l1_secret(b, sk)), cx)?;
        trace(w, "bit, level-0 LWE", pool, d + 1, false, &|o| o.l0("ciphertext", &<L0LweCiphertext as CiphertextOps>::encrypt_secret(b, e, sk).0), cx)?;
        trace(w, "bit, level-1 LWE", pool, big, false, &|o| o.l1("ciphertext", &<L1LweCiphertext as CiphertextOps>::encrypt_secret(b, e, sk).0), cx)?;
        trace(w, "bit, GLWE", pool, ring, false, &|o| o.glwe("ciphertext", &<L1GlweCiphertext as CiphertextOps>::encrypt_secret(b, e, sk).0), cx)?;
        trace(w, "bit, GLEV", pool, levels * ring, false, &|o| o.glev("ciphertext", &<L1GlevCiphertext as CiphertextOps>::encrypt_secret(b, e, sk).0), cx)?;
        trace(w, "bit, GGSW", pool, ggsw, true, &|o| o.ggsw("ciphertext", &<L1GgswCiphertext as CiphertextOps>::encrypt_secret(b, e, sk)), cx)?;
    }
    trace(w, "GLWE", pool, ring, false, &|o| o.glwe("ciphertext", &e.encrypt_glwe_l1_secret(&w.msg, sk).0), cx)?;
    trace(w, "GLWE polynomial", pool, ring, false, &|o| o.glwe("ciphertext", &<L1GlweCiphertext as PolynomialCiphertextOps>::encrypt_secret(&w.msg, e, sk).0), cx)?;
    trace(w, "GLEV", pool, levels * ring, false, &|o| o.glev("ciphertext", &e.encrypt_glev_l1_secret(&w.msg, sk).0), cx)
}

fn integers(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let (e, sk, p) = (&w.enc, &w.sk, &w.p);
    let (d, ring, levels) = (p.l0_params.dim.0, w.ring(), p.cbs_radix.count.0);
    macro_rules! int {
        ($t:ty, $one:expr, $loose:expr, $put:expr) => {
            for v in [0u128, 5, 7] {
                let put: &dyn Fn(&mut Out, &str, &$t) = &$put;
                trace(w, concat!("3-bit unsigned ", stringify!($t)), pool, 3 * $one, $loose, &|o| {
                    for (i, b) in UInt::<3, $t>::encrypt_secret(v, e, sk).bits.iter().enumerate() { put(o, &format!("bit {i}"), &b.borrow()) }
                }, cx)?;
                trace(w, concat!("3-bit signed ", stringify!($t)), pool, 3 * $one, $loose, &|o| {
                    for (i, b) in Int::<3, $t>::encrypt_secret(v as i128 - 4, e, sk).bits.iter().enumerate() { put(o, &format!("bit {i}"), &b.borrow()) }
                }, cx)?;
                trace(w, concat!("2-bit dynamic unsigned ", stringify!($t)), pool, 2 * $one, $loose, &|o| {
                    for (i, b) in DynamicUInt::<$t>::encrypt_secret(v & 3, e, sk, 2).bits.iter().enumerate() { put(o, &format!("bit {i}"), &b.borrow()) }
                }, cx)?;
            }
        };
    }
    int!(L0LweCiphertext, d + 1, false, |o: &mut Out, at: &str, c: &L0LweCiphertext| o.l0(at, &c.0));
    int!(L1LweCiphertext, w.n() * w.k() + 1, false, |o: &mut Out, at: &str, c: &L1LweCiphertext| o.l1(at, &c.0));
    int!(L1GlweCiphertext, ring, false, |o: &mut Out, at: &str, c: &L1GlweCiphertext| o.glwe(at, &c.0));
    int!(L1GlevCiphertext, levels * ring, false, |o: &mut Out, at: &str, c: &L1GlevCiphertext| o.glev(at, &c.0));
    int!(L1GgswCiphertext, (w.k() + 1) * levels * ring, true, |o: &mut Out, at: &str, c: &L1GgswCiphertext| o.ggsw(at, c));
    Ok(())
}

/// The noise of a public encryption stands alone under a key without content, its selection under the key (0, 1) without noise.
fn public(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let (e, g, n, levels) = (&w.enc, &w.p.l1_params, w.n(), w.p.cbs_radix.count.0);
    let std = Kind::Noise(g.std.0);
    let nil = w.nil();
    let (quiet, unit) = w.unit();
    let m = w.msg.coeffs().to_vec();
    let noise = |o: &mut Out, at: &str, c: &GlweCiphertextRef<u64>, m: &[u64]| {
        o.put(format!("{at} mask noise"), std, c.a(g).flat_map(tv).collect());
        o.put(format!("{at} noise"), std, w.b_less(c, m));
    };
    let select = |o: &mut Out, at: &str, c: &GlweCiphertextRef<u64>, m: &[u64]| o.put(format!("{at} selection"), Kind::Bit, w.b_less(c, m));
    trace(w, "public encryption, noise", pool, 2 * n, false, &|o| noise(o, "ciphertext", &e.encrypt_rlwe_l1(&w.msg, &nil).0, &m), cx)?;
    trace(w, "public encryption, selection", pool, n, false, &|o| select(o, "ciphertext", &quiet.encrypt_rlwe_l1(&w.msg, &unit).0, &m), cx)?;
    trace(w, "polynomial, noise", pool, 2 * n, false, &|o| noise(o, "ciphertext", &<L1GlweCiphertext as PolynomialCiphertextOps>::encrypt(&w.msg, e, &nil).0, &m), cx)?;
    trace(w, "polynomial, selection", pool, n, false, &|o| select(o, "ciphertext", &<L1GlweCiphertext as PolynomialCiphertextOps>::encrypt(&w.msg, &quiet, &unit).0, &m), cx)?;
    trace(w, "public GLEV, noise", pool, levels * 2 * n, false, &|o| {
        let c = e.encrypt_rlev_l1(&w.msg, &nil);
        for (i, c) in c.0.glwe_ciphertexts(g).enumerate() {
            o.put(format!("level {i}"), std, c.a(g).flat_map(tv).chain(tv(c.b(g))).collect())
        }
    }, cx)?;
    let zero = Polynomial::new(&vec![0u64; n]);
    trace(w, "public GLEV, selection", pool, levels * n, false, &|o| {
        let c = quiet.encrypt_rlev_l1(&zero, &unit);
        for (i, c) in c.0.glwe_ciphertexts(g).enumerate() {
            o.put(format!("level {i}"), Kind::Bit, tv(c.b(g)))
        }
    }, cx)?;
    let bit = |v: u128, i: usize| (0..n).map(|j| if j == 0 { v as u64 >> i & 1 } else { 0 }).collect::<V>();
    let packed = |v: u128| (0..n).map(|j| v as u64 >> j & 1).collect::<V>();
    for v in [0u128, 5, 7] {
        trace(w, "3-bit integer, noise", pool, 6 * n, false, &|o| {
            for (i, b) in UInt::<3, L1GlweCiphertext>::encrypt(v, e, &nil).bits.iter().enumerate() { noise(o, &format!("bit {i}"), &b.borrow().0, &bit(v, i)) }
        }, cx)?;
        trace(w, "3-bit integer, selection", pool, 3 * n, false, &|o| {
            for (i, b) in UInt::<3, L1GlweCiphertext>::encrypt(v, &quiet, &unit).bits.iter().enumerate() { select(o, &format!("bit {i}"), &b.borrow().0, &bit(v, i)) }
        }, cx)?;
        trace(w, "3-bit signed integer, noise", pool, 6 * n, false, &|o| {
            for (i, b) in Int::<3, L1GlweCiphertext>::encrypt(v as i128 - 4, e, &nil).bits.iter().enumerate() { noise(o, &format!("bit {i}"), &b.borrow().0, &bit(v ^ 4, i)) }
        }, cx)?;
        trace(w, "packed integer, noise", pool, 2 * n, false, &|o| noise(o, "ciphertext", &PackedUInt::<3, L1GlweCiphertext>::encrypt(v, e, &nil).inner().0, &packed(v)), cx)?;
        trace(w, "packed integer, selection", pool, n, false, &|o| select(o, "ciphertext", &PackedUInt::<3, L1GlweCiphertext>::encrypt(v, &quiet, &unit).inner().0, &packed(v)), cx)?;
        trace(w, "packed dynamic integer, noise", pool, 2 * n, false, &|o| noise(o, "ciphertext", &PackedDynamicUInt::<L1GlweCiphertext>::encrypt(v, e, &nil, 4).inner().0, &packed(v)), cx)?;
    }
    Ok(())
}

/// Pads: every pad bit is random, fair and independent of the others and of the encryption of the pad.
fn pads(w: &World, pool: &[u64], cx: &mut Cx) -> R {
    let (g, n) = (&w.p.l1_params, w.n());
    let ev = KeylessEvaluation::new(&w.p, &w.enc);
    let (quiet, unit) = w.unit();
    let nil = w.nil();
    let zero = Polynomial::new(&vec![0u64; n]);
    // pad bits, then (noise) mask, body or (selection) body of the encrypted pad
    let make = |noisy: bool| -> (V, V) {
        let (e, pk) = if noisy { (&w.enc, &nil) } else { (&quiet, &unit) };
        let (public, secret) = generate_one_time_pad(&e.params, e, pk);
        let key = decrypt_one_time_pad(&zero, &secret).coeffs().to_vec();
        let c = recrypt_one_time_pad(&e.trivial_glwe_l1_zero(), &public, &ev, e);
        let b = w.b_less(&c.0, &key);
        (key, if noisy { c.0.a(g).flat_map(tv).chain(b).collect() } else { b })
    };
    // the pad may be drawn in any manner: replace each draw by several values, no two parts may respond alike
    for (noisy, what) in [(true, "pad and its noise"), (false, "pad and its selection")] {
        let go = |draws: &[u64]| {
            rand::mc::seed(1);
            rand::mc::script(draws.iter().copied());
            let (k, c) = make(noisy);
            (k.into_iter().chain(c).collect::<V>(), rand::mc::draws() as usize)
        };
        let (base, used) = go(pool);
        let mut script = pool[..used + 8].to_vec();
        let mut sources = vec![0; base.len()];
        for i in 0..used {
            let old = script[i];
            // values that differ in the bits a coin is usually taken from, then any
            let rest = &pool[used + i % (pool.len() / 4)..];
            let mut alts: V = [0, 63, 31, 32].iter().map(|b| *rest.iter().find(|x| (**x ^ old) >> b & 1 == 1).unwrap()).collect();
            alts.extend(&rest[..28]);
            let mut reply: Vec<Vec<u64>> = vec![vec![]; base.len()];
            for (q, x) in alts.clone().iter().enumerate() {
                // four replacements do unless two parts depend on the draw
                if q == 4 && reply.iter().filter(|r| r.contains(&1)).count() < 2 {
                    alts.truncate(4);
                    break;
                }
                script[i] = *x;
                let (got, m) = go(&script);
                cx.ev(true);
                cx.states += 1;
                ensure!(m == used && got.len() == base.len(), "{what}: the number of draws depends on a draw");
                for (r, (a, b)) in reply.iter_mut().zip(base.iter().zip(&got)) {
                    r.push((a != b) as u64)
                }
            }
            script[i] = old;
            let live: Vec<usize> = (0..base.len()).filter(|j| reply[*j].contains(&1)).collect();
            for (x, j) in live.iter().enumerate() {
                sources[*j] += 1;
                for k in &live[..x] {
                    ensure!(reply[*j] != reply[*k], "{what}: parts {k} and {j} come from the same draw {i}")
                }
                // noise and key never share a draw
                if *j >= n {
                    ensure!(live.len() == 1, "{what}: part {j} shares draw {i} with parts {live:?}")
                }
                if noisy && *j >= n {
                    let std = Kind::Noise(g.std.0);
                    for x in &alts[..2] {
                        script[i] = *x;
                        let (got, _) = go(&script);
                        let moved = got[*j].wrapping_sub(base[*j]);
                        let should = sample(std, *x).wrapping_sub(sample(std, old));
                        ensure!(moved == should || moved == should.wrapping_neg(), "{what}: part {j} moves by {}, a sample by {}", moved as i64, should as i64);
                    }
                    script[i] = old;
                }
            }
        }
        for (j, s) in sources.iter().enumerate() {
            ensure!(*s > 0, "{what}: part {j} is not random")
        }
    }
    if n > 64 {
        return Ok(());
    }
    // fair and pairwise independent over a fixed set of streams
    let runs = 1 << 12;
    let all: Vec<V> = (0..runs)
        .map(|s| {
            rand::mc::seed(s * 77 + 5);
            make(true).0
        })
        .collect();
    let off = |ones: usize| (ones as f64 - runs as f64 / 2.).abs() / (runs as f64 / 4.).sqrt();
    for i in 0..n {
        cx.ev(true);
        ensure!(all.iter().all(|k| k[i] < 2), "pad bit {i} is not a bit");
        let ones = all.iter().filter(|k| k[i] == 1).count();
        ensure!(off(ones) < 5., "pad bit {i} is one in {ones} of {runs} pads");
        for j in 0..i {
            let same = all.iter().filter(|k| k[i] == k[j]).count();
            ensure!(off(same) < 5., "pad bits {j} and {i} agree in {same} of {runs} pads");
        }
    }
    Ok(())
}

/// Long integers: one ciphertext of its own for each of up to 128 bits.
fn wide_int(w: &World, pool: &[u64], part: usize, cx: &mut Cx) -> R {
    let (e, sk, n) = (&w.enc, &w.sk, w.n());
    let v = 0xf3a9_5c17_88ff_0123_4567_89ab_cdef_0f1eu128;
    let ones = w.p.l0_params.dim.0 + 1;
    match part {
        0 => trace(w, "128-bit integer", pool, 128 * ones, false, &|o| {
            for (i, b) in UInt::<128, L0LweCiphertext>::encrypt_secret(v, e, sk).bits.iter().enumerate() { o.l0(&format!("bit {i}"), &b.borrow().0) }
        }, cx),
        1 => trace(w, "70-bit dynamic integer", pool, 70 * ones, false, &|o| {
            for (i, b) in DynamicInt::<L0LweCiphertext>::encrypt_secret(v as i128 >> 64, e, sk, 70).bits.iter().enumerate() { o.l0(&format!("bit {i}"), &b.borrow().0) }
        }, cx),
        _ => {
            let nil = w.nil();
            let std = Kind::Noise(w.p.l1_params.std.0);
            trace(w, "20-bit integer, public", pool, 20 * 2 * n, false, &|o| {
                for (i, b) in UInt::<20, L1GlweCiphertext>::encrypt(v & 0xfffff, e, &nil).bits.iter().enumerate() {
                    let c = &b.borrow().0;
                    let m: V = (0..n).map(|j| if j == 0 { (v >> i) as u64 & 1 } else { 0 }).collect();
                    o.put(format!("bit {i} mask noise"), std, c.a(&w.p.l1_params).flat_map(tv).collect());
                    o.put(format!("bit {i} noise"), std, w.b_less(c, &m));
                }
            }, cx)
        }
    }
}

/// The sizes of the default parameters.
fn large(w: &World, pad: &World, pool: &[u64], part: usize, cx: &mut Cx) -> R {
    let (e, sk) = (&w.enc, &w.sk);
    let (d, n, g) = (w.p.l0_params.dim.0, w.n(), &w.p.l1_params);
    let std = Kind::Noise(g.std.0);
    let m = w.msg.coeffs();
    match part {
        0 => user_keys(w, pool, cx),
        1 => {
            trace(w, "level-0 LWE", pool, d + 1, false, &|o| o.l0("ciphertext", &e.encrypt_lwe_l0_secret(true, sk).0), cx)?;
            trace(w, "level-1 LWE", pool, n + 1, false, &|o| o.l1("ciphertext", &e.encrypt_lwe_l1_secret(true, sk).0), cx)
        }
        2 => trace(w, "GLWE", pool, 2 * n, false, &|o| o.glwe("ciphertext", &e.encrypt_glwe_l1_secret(&w.msg, sk).0), cx),
        3 => {
            let nil = w.nil();
            trace(w, "public encryption, noise", pool, 2 * n, false, &|o| {
                let c = e.encrypt_rlwe_l1(&w.msg, &nil).0;
                o.put("mask noise", std, c.a(g).flat_map(tv).collect());
                o.put("noise", std, w.b_less(&c, m));
            }, cx)?;
            let (quiet, unit) = w.unit();
            trace(w, "public encryption, selection", pool, n, false, &|o| o.put("selection", Kind::Bit, w.b_less(&quiet.encrypt_rlwe_l1(&w.msg, &unit).0, m)), cx)
        }
        4 => pads(pad, pool, cx),
        _ => {
            let nil = w.nil();
            let bits = |v: u128| (0..n).map(|j| if j < 100 { (v >> j) as u64 & 1 } else { 0 }).collect::<V>();
            let v = 0x9_a5c3_0f17_88ff_0123_4567_89abu128;
            trace(w, "100-bit packed integer, noise", pool, 2 * n, false, &|o| {
                let c = PackedUInt::<100, L1GlweCiphertext>::encrypt(v, e, &nil).inner().0;
                o.put("mask noise", std, c.a(g).flat_map(tv).collect());
                o.put("noise", std, w.b_less(&c, &bits(v)));
            }, cx)
        }
    }
}

/// The functions with default parameters do what the ones given those parameters do.
fn defaults(cx: &mut Cx) -> R {
    let with = |f: &dyn Fn() -> Vec<u8>| {
        rand::mc::seed(9);
        let b = f();
        (b, rand::mc::draws())
    };
    let bytes = |x: &SecretKey| bincode::serialize(x).unwrap();
    let a = with(&|| bytes(&SecretKey::generate_with_default_params()));
    same!(cx, a, with(&|| bytes(&SecretKey::generate(&DEFAULT_128))), "default secret key");
    let sk = SecretKey::generate(&DEFAULT_128);
    let a = with(&|| bincode::serialize(&PublicKey::generate_with_default_params(&sk)).unwrap());
    same!(cx, a, with(&|| bincode::serialize(&PublicKey::generate(&DEFAULT_128, &sk)).unwrap()), "default public key");
    for (g, n) in [(a.1, 2 * 2048u64)] {
        ensure!(g >= n, "a default public key of {g} draws")
    }
    Ok(())
}

fn one_thread(f: &mut dyn FnMut()) {
    struct P<'a>(&'a mut dyn FnMut());
    unsafe impl Send for P<'_> {}
    let p = P(f);
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap().install(move || {
        let p = p;
        (p.0)()
    })
}

pub fn run() -> ! {
    let mut ck = Ck::new("R04", "exhaustive-bounded",
        "every randomised operation of the runtime, once per random draw with that draw replaced: each key bit, pad bit, mask coefficient and noise term has a draw of its own, noise of the right width");
    ck.assume("the operating system's random source is replaced by a script; its quality is not judged");
    ck.assume("parameters are small (the code is generic in them); noise of the Fourier-form GGSW is compared up to the rounding of the transform");
    ck.set_wrap(one_thread);
    let pool = pool(ck.tier(1 << 14, 1 << 15));
    let shapes: &[(usize, usize, usize, (usize, usize))] = if ck.thorough { &[(2, 16, 1, (2, 8)), (1, 32, 1, (1, 6)), (3, 16, 2, (2, 5)), (5, 64, 1, (3, 4)), (4, 16, 3, (1, 7))] }
        else { &[(2, 16, 1, (2, 8)), (1, 32, 1, (1, 6)), (3, 16, 2, (2, 5))] };
    let worlds: Vec<World> = shapes.iter().map(|(d, n, k, c)| World::new(*d, *n, *k, *c)).collect();
    let label = |w: &World| w.label.clone();
    let single: Vec<World> = shapes.iter().filter(|s| s.2 == 1).map(|(d, n, k, c)| World::new(*d, *n, *k, *c)).collect();
    ck.par("keys", &worlds, label, |w, cx| keys(w, &pool, cx));
    ck.par("Fourier keys", &worlds[..2], label, |w, cx| fft_keys(w, &pool, cx));
    ck.par("secret encryption", &worlds, label, |w, cx| secret(w, &pool, cx));
    ck.par("integers", &worlds, label, |w, cx| integers(w, &pool, cx));
    ck.par("public encryption", &single, label, |w, cx| public(w, &pool, cx));
    ck.par("one-time pads", &single, label, |w, cx| pads(w, &pool, cx));
    let big = World::new(637, if ck.thorough { 2048 } else { 512 }, 1, (1, 8));
    let pad = World::new(2, if ck.thorough { 1024 } else { 256 }, 1, (1, 8));
    ck.par("large sizes", &[0usize, 1, 2, 3, 4, 5], |x| format!("{} part {x}", big.label), |x, cx| large(&big, &pad, &pool, *x, cx));
    let wide = World::new(9, 128, 1, (1, 8));
    ck.par("128-bit integers", &[0usize, 1, 2], |x| format!("part {x}"), |x, cx| wide_int(&wide, &pool, *x, cx));
    ck.case("defaults", "default parameters", defaults);
    ck.finish()
}
