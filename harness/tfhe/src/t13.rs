//! T13: entities survive serialisation and transforms; generated keys contain what they claim.
use crate::t04::negmul;
use crate::t10::{near, width};
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::Complex;
use serde::{de::DeserializeOwned, Serialize};
use std::{num::Wrapping, ops::{Add, DerefMut, Mul, Sub}};
use sunscreen_tfhe::{
    entities::*,
    high_level::{fft as hfft, keygen},
    ops::{
        automorphisms::generate_automorphism_key,
        bootstrapping::{generate_blind_rotation_shift, generate_bootstrap_key, generate_scheme_switch_key},
        encryption::rlwe_generate_public_key,
        keyswitch::{
            glwe_keyswitch_key::generate_keyswitch_key_glwe, lwe_keyswitch_key::generate_keyswitch_key_lwe,
            private_functional_keyswitch as pf, public_functional_keyswitch as pu,
        },
    },
    rand::Stddev,
    CarryBits, GlweDef, LweDef, PlaintextBits, PolynomialDegree, PrivateFunctionalKeyswitchLweCount, RadixDecomposition, Torus, TorusOps,
};

type C = Complex<f64>;

// ---- serialisation ----

fn fill<T: ?Sized>(x: &mut T, class: u8, float: bool) {
    let b = unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut u8, std::mem::size_of_val(x)) };
    let mut f = Fill(class as u64 * 1001 + 17);
    // doubles: everything but NaN
    let odd = [0.0f64, -0.0, f64::MIN_POSITIVE / 8.0, -1.5, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON];
    for (i, c) in b.chunks_mut(8).enumerate() {
        let w = match (class, float) {
            (0, _) => 0,
            (1, false) => f.next(),
            (1, true) => ((f.next() >> 12) as f64 - 1e15).to_bits(),
            (2, false) => u64::MAX,
            (2, true) => odd[i % odd.len()].to_bits(),
            (_, false) => (i as u64 + 1) | (i as u64 + 1) << 33,
            (_, true) => (i as f64 + 0.25).to_bits(),
        };
        c.copy_from_slice(&w.to_le_bytes()[..c.len()]);
    }
}

fn through<T>(what: &str, mk: impl Fn() -> T, words: usize, float: bool, cx: &mut Cx) -> R
where
    T: DerefMut + Clone + Serialize + DeserializeOwned,
{
    for class in 0..4u8 {
        let mut x = mk();
        fill(&mut *x, class, float);
        let want = raw(&*x).to_vec();
        same!(cx, want.len(), words, "{what}: bytes of the entity");
        let e = |e: bincode::Error| format!("{what}, words of class {class}: {e}");
        let wire = bincode::serialize(&x).map_err(e)?;
        let y: T = bincode::deserialize(&wire).map_err(e)?;
        ensure!(raw(&*y) == want, "{what}, words of class {class}: not the same after deserialising");
        ensure!(raw(&*y).as_ptr() as usize % 64 == 0, "{what}: deserialised entity is not aligned");
        cx.ev(class != 0);
        let again = bincode::serialize(&y).map_err(e)?;
        ensure!(again == wire, "{what}, words of class {class}: serialises differently the second time");
        let z: T = bincode::deserialize_from(&wire[..]).map_err(e)?;
        ensure!(raw(&*z) == want, "{what}, words of class {class}: not the same after deserialising from a stream");
        ensure!(raw(&*x) == want, "{what}: changed by serialising");
        ensure!(raw(&*y.clone()) == want, "{what}: clone differs");
        // a list of entities: one must not eat into the next
        let pair: (T, u8, T) = bincode::deserialize(&bincode::serialize(&(&x, 0xA5u8, &y)).map_err(e)?).map_err(e)?;
        ensure!(raw(&*pair.0) == want && pair.1 == 0xA5 && raw(&*pair.2) == want, "{what}: not the same inside a tuple");
        for cut in 0..wire.len().min(40) {
            let at = if cut < 20 { cut } else { wire.len() - (cut - 19).min(wire.len()) };
            ensure!(at == wire.len() || bincode::deserialize::<T>(&wire[..at]).is_err(), "{what}: {at} of {} bytes were accepted", wire.len());
            cx.ev(true);
        }
    }
    Ok(())
}

fn wire<S: TorusOps + Serialize + DeserializeOwned>(n: usize, k: usize, d: usize, count: usize, cx: &mut Cx) -> R
where
    Torus<S>: Serialize + DeserializeOwned,
{
    let (g, l, r) = (gdef(n, k), ldef(d), rad(count, 3));
    let p = &PrivateFunctionalKeyswitchLweCount(2);
    let w = width::<S>() as usize / 8;
    let glwe = n * (k + 1);
    let lwe = d + 1;
    let ggsw = glwe * (k + 1) * count;
    let tri = k * (k + 1) / 2;
    let logn = n.ilog2() as usize;
    macro_rules! go { ($t:ty, $mk:expr, $words:expr) => { through(stringify!($t), || -> $t { $mk }, $words * w, false, cx)? } }
    macro_rules! fl { ($t:ty, $mk:expr, $words:expr) => { if n > 1 { through(stringify!($t), || -> $t { $mk }, $words * 8, true, cx)? } } }
    go!(Polynomial<S>, Polynomial::zero(n), n);
    go!(Polynomial<Torus<S>>, Polynomial::zero(n), n);
    go!(LweCiphertext<S>, LweCiphertext::new(&l), lwe);
    go!(LweCiphertextList<S>, LweCiphertextList::new(&l, count), lwe * count);
    go!(LweSecretKey<S>, LweSecretKey::generate_binary(&l), d);
    go!(LwePublicKey<S>, LwePublicKey::generate(&LweSecretKey::generate_binary(&l), &l), lwe * d);
    go!(LweKeyswitchKey<S>, LweKeyswitchKey::new(&ldef(d + 1), &l, &r), (d + 1) * count * lwe);
    go!(GlweCiphertext<S>, GlweCiphertext::new(&g), glwe);
    go!(GlweCiphertextList<S>, GlweCiphertextList::new(&g, d), glwe * d);
    go!(GlweSecretKey<S>, GlweSecretKey::generate_binary(&g), n * k);
    go!(GlevCiphertext<S>, GlevCiphertext::new(&g, &r), glwe * count);
    go!(GgswCiphertext<S>, GgswCiphertext::new(&g, &r), ggsw);
    go!(GlweKeyswitchKey<S>, GlweKeyswitchKey::new(&g, &r), glwe * count * k);
    go!(SchemeSwitchKey<S>, SchemeSwitchKey::new(&g, &r), glwe * count * tri);
    go!(BootstrapKey<S>, BootstrapKey::new(&l, &g, &r), ggsw * d);
    go!(CircuitBootstrappingKeyswitchKeys<S>, CircuitBootstrappingKeyswitchKeys::new(&l, &g, &r), lwe * glwe * count * (k + 1));
    go!(PrivateFunctionalKeyswitchKey<S>, PrivateFunctionalKeyswitchKey::new(&l, &g, &r, p), lwe * p.0 * glwe * count);
    go!(PublicFunctionalKeyswitchKey<S>, PublicFunctionalKeyswitchKey::new(&l, &g, &r), d * glwe * count);
    if k == 1 { go!(RlwePublicKey<S>, RlwePublicKey::new(&g), 2 * n) }
    if n > 1 {
        go!(AutomorphismKey<S>, AutomorphismKey::new(&g, &r), logn * glwe * count * k);
        go!(BlindRotationShift<S>, BlindRotationShift::new(&g, &r), ggsw * logn);
        go!(UnivariateLookupTable<S>, UnivariateLookupTable::trivial_from_fn(|x| x, &g, PlaintextBits(1)), glwe);
        if n > 3 { go!(BivariateLookupTable<S>, BivariateLookupTable::trivial_from_fn(|x, y| x ^ y, &g, PlaintextBits(1), CarryBits(1)), glwe) }
    }
    fl!(GlweCiphertextFft<C>, GlweCiphertextFft::new(&g), glwe);
    fl!(GgswCiphertextFft<C>, GgswCiphertextFft::new(&g, &r), ggsw);
    fl!(GlweKeyswitchKeyFft<C>, GlweKeyswitchKeyFft::new(&g, &r), glwe * count * k);
    fl!(SchemeSwitchKeyFft<C>, SchemeSwitchKeyFft::new(&g, &r), glwe * count * tri);
    fl!(BootstrapKeyFft<C>, BootstrapKeyFft::new(&l, &g, &r), ggsw * d);
    fl!(AutomorphismKeyFft<C>, AutomorphismKeyFft::new(&g, &r), logn * glwe * count * k);
    fl!(BlindRotationShiftFft<C>, BlindRotationShiftFft::new(&g, &r), ggsw * logn);
    Ok(())
}

fn parameters(cx: &mut Cx) -> R {
    macro_rules! back { ($($x:expr),* $(,)?) => { $({
        let x = $x;
        fn go<T: Serialize + DeserializeOwned>(x: &T) -> T { bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap() }
        same!(cx, format!("{:?}", go(&x)), format!("{x:?}"), "{}", stringify!($x));
    })* } }
    for a in [0usize, 1, 2, 7, 255, 256, 65535, 65536, 1 << 31, 1 << 32, usize::MAX] {
        for f in [0.0, 1e-300, 0.000_448_516_698_238_696_5, 1.0] {
            back!(gdef(a, a ^ 1), ldef(a), rad(a, !a), PlaintextBits(a as u32), CarryBits(a as u32), Stddev(f), PrivateFunctionalKeyswitchLweCount(a),
                GlweDef { std: Stddev(f), ..gdef(a, 3) }, LweDef { std: Stddev(f), ..ldef(a) }, PolynomialDegree(a));
            cx.ev(a != 0);
        }
    }
    for p in patterns(64) {
        back!(t::<u64>(p), t::<u32>(p & mask(32)));
    }
    Ok(())
}

// ---- transforms ----

/// Words of an array of `Torus<S>`.
fn words<S: TorusOps, T: ?Sized>(x: &T) -> V {
    raw(x).chunks(width::<S>() as usize / 8).map(|c| {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        u64::from_le_bytes(b)
    }).collect()
}
/// Each polynomial of a transformed entity, transformed back on its own.
fn back<S: TorusOps, T: ?Sized>(x: &T, n: usize) -> V {
    let d: Vec<f64> = raw(x).chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    d.chunks(n).flat_map(|c| {
        let f = PolynomialFft::new(&c.chunks(2).map(|z| C::new(z[0], z[1])).collect::<Vec<_>>());
        let mut p = Polynomial::<Torus<S>>::zero(n);
        f.ifft(&mut *p);
        tv(&p)
    }).collect()
}
/// Content classes: 0..2 small signed numbers (every product exact), 3 boundary words, 4 arbitrary words.
fn content<T: ?Sized>(x: &mut T, class: u8, bits: u32) -> bool {
    let b = unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut u8, std::mem::size_of_val(x)) };
    let (mut f, e) = (Fill(class as u64 + 3), edge(bits));
    for (i, c) in b.chunks_mut(bits as usize / 8).enumerate() {
        let w = match class {
            0 => i as u64 + 1,
            1 => (i as u64 % 5).wrapping_sub(2),
            2 => (f.next() >> 36).wrapping_sub(1 << 27),
            3 => e[(i * 5 + i / 7) % e.len()],
            _ => f.next(),
        };
        c.copy_from_slice(&w.to_le_bytes()[..c.len()]);
    }
    class < 3 || bits == 32
}
fn alike(got: &[u64], want: &[u64], exact: bool, n: usize, bits: u32, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let room = if exact { 0 } else { 1u64 << (12 + n.ilog2()) };
    cx.ev(true);
    ensure!(got.len() == want.len(), "{}: {} words instead of {}", what(), got.len(), want.len());
    for i in 0..want.len() {
        ensure!(near(got[i], want[i], room, bits), "{}: polynomial {} coefficient {} is {:#x} instead of {:#x}", what(), i / n, i % n, got[i], want[i]);
    }
    Ok(())
}

fn transforms<S: TorusOps>(n: usize, k: usize, d: usize, count: usize, cx: &mut Cx) -> R {
    let (g, l, r) = (gdef(n, k), ldef(d), rad(count, 3));
    let bits = width::<S>();
    macro_rules! go {
        ($name:literal, $plain:expr, $fft:expr, |$x:ident, $y:ident| $fwd:expr, $inv:expr) => {{
            for class in 0..5u8 {
                let mut $x = $plain;
                let exact = content(&mut *$x, class, bits);
                let before = words::<S, _>(&*$x);
                let mut $y = $fft;
                dirty(&mut *$y, if class % 2 == 0 { 3 } else { 0 });
                poison(class);
                $fwd;
                alike(&back::<S, _>(&*$y, n), &before, exact, n, bits, &|| format!("{} transformed, class {class}", $name), cx)?;
                same!(cx, words::<S, _>(&*$x), before, "{}: the transform changed its input", $name);
                let mut z = $plain;
                dirty(&mut *z, class % 3);
                #[allow(clippy::redundant_closure_call)]
                if ($inv)(&$y, &mut z) {
                    alike(&words::<S, _>(&*z), &before, exact, n, bits, &|| format!("{} there and back, class {class}", $name), cx)?;
                }
            }
        }};
    }
    go!("polynomial", Polynomial::<Torus<S>>::zero(n), PolynomialFft::new(&vec![C::default(); n / 2]), |x, y| x.fft(&mut y),
        |y: &PolynomialFft<C>, z: &mut Polynomial<Torus<S>>| { y.ifft(&mut **z); true });
    go!("GLWE ciphertext", GlweCiphertext::<S>::new(&g), GlweCiphertextFft::<C>::new(&g), |x, y| x.fft(&mut y, &g),
        |y: &GlweCiphertextFft<C>, z: &mut GlweCiphertext<S>| { y.ifft(z, &g); true });
    go!("GGSW ciphertext", GgswCiphertext::<S>::new(&g, &r), GgswCiphertextFft::<C>::new(&g, &r), |x, y| x.fft(&mut y, &g, &r),
        |y: &GgswCiphertextFft<C>, z: &mut GgswCiphertext<S>| { y.ifft(z, &g, &r); true });
    go!("GLWE keyswitch key", GlweKeyswitchKey::<S>::new(&g, &r), GlweKeyswitchKeyFft::<C>::new(&g, &r), |x, y| x.fft(&mut y, &g, &r),
        |y: &GlweKeyswitchKeyFft<C>, z: &mut GlweKeyswitchKey<S>| {
            y.ifft(z, &g, &r);
            // and row by row: rows are GLEV ciphertexts
            let mut w = GlweKeyswitchKey::<S>::new(&g, &r);
            for (a, b) in y.rows(&g, &r).zip(w.rows_mut(&g, &r)) { a.ifft(b, &g) }
            if raw(&**z) != raw(&*w) { dirty(&mut **z, 2) }
            true
        });
    go!("scheme switch key", SchemeSwitchKey::<S>::new(&g, &r), SchemeSwitchKeyFft::<C>::new(&g, &r), |x, y| x.fft(&mut y, &g, &r),
        |y: &SchemeSwitchKeyFft<C>, z: &mut SchemeSwitchKey<S>| { y.ifft(z, &g, &r); true });
    go!("automorphism key", AutomorphismKey::<S>::new(&g, &r), AutomorphismKeyFft::<C>::new(&g, &r), |x, y| x.fft(&mut y, &g, &r),
        |_: &AutomorphismKeyFft<C>, _: &mut AutomorphismKey<S>| false);
    go!("bootstrap key", BootstrapKey::<S>::new(&l, &g, &r), BootstrapKeyFft::<C>::new(&l, &g, &r), |x, y| x.fft(&mut y, &l, &g, &r),
        |y: &BootstrapKeyFft<C>, z: &mut BootstrapKey<S>| { y.ifft(z, &g, &r); true });
    // no forward transform of its own: row by row
    go!("blind rotation shift", BlindRotationShift::<S>::new(&g, &r), BlindRotationShiftFft::<C>::new(&g, &r),
        |x, y| for (a, b) in x.rows(&g, &r).zip(y.rows_mut(&g, &r)) { a.fft(b, &g, &r) },
        |y: &BlindRotationShiftFft<C>, z: &mut BlindRotationShift<S>| { y.ifft(z, &g, &r); true });
    // the GLEV rows of a GGSW, each on its own
    go!("GLEV rows", GgswCiphertext::<S>::new(&g, &r), GgswCiphertextFft::<C>::new(&g, &r),
        |x, y| for (a, b) in x.rows(&g, &r).zip(y.rows_mut(&g, &r)) { a.fft(b, &g) },
        |y: &GgswCiphertextFft<C>, z: &mut GgswCiphertext<S>| {
            for (a, b) in y.rows(&g, &r).zip(z.rows_mut(&g, &r)) { a.ifft(b, &g) }
            true
        });
    Ok(())
}

fn helpers(n: usize, k: usize, d: usize, count: usize, cx: &mut Cx) -> R {
    let (g, l, r) = (gdef(n, k), ldef(d), rad(count, 3));
    for class in 0..5u8 {
        macro_rules! go { ($name:literal, $new:expr, |$x:ident| $f:expr) => {{
            let mut $x = $new;
            let exact = content(&mut *$x, class, 64);
            let before = words::<u64, _>(&*$x);
            poison(class);
            let y = $f;
            alike(&back::<u64, _>(&*y, n), &before, exact, n, 64, &|| format!("{}, class {class}", $name), cx)?;
        }} }
        go!("fft_glwe", GlweCiphertext::<u64>::new(&g), |x| hfft::fft_glwe(&x, &g));
        go!("fft_ggsw", GgswCiphertext::<u64>::new(&g, &r), |x| hfft::fft_ggsw(&x, &g, &r));
        go!("fft_bootstrap_key", BootstrapKey::<u64>::new(&l, &g, &r), |x| hfft::fft_bootstrap_key(&x, &l, &g, &r));
        go!("fft_scheme_switch_key", SchemeSwitchKey::<u64>::new(&g, &r), |x| hfft::fft_scheme_switch_key(&x, &g, &r));
        go!("fft_automorphism_key", AutomorphismKey::<u64>::new(&g, &r), |x| hfft::fft_automorphism_key(&x, &g, &r));
    }
    Ok(())
}

// ---- contents of generated keys ----

/// What a component should decrypt to, and how it is encrypted.
struct Book {
    bits: u32,
    std: f64,
    masks: Vec<V>,
    errors: Vec<i64>,
}
impl Book {
    fn new(bits: u32, std: f64) -> Self {
        Book { bits, std, masks: vec![], errors: vec![] }
    }
    fn put(&mut self, masks: V, got: &[u64], want: &[u64], what: &dyn Fn() -> String, cx: &mut Cx) -> R {
        cx.ev(true);
        ensure!(got.len() == want.len(), "{}: {} coefficients", what(), got.len());
        // noise-free keys are exact; otherwise no further than ten standard deviations
        let room = (self.std * 10.0 * (self.bits as f64).exp2()).ceil() as i64;
        for i in 0..got.len() {
            let e = dist(got[i], want[i] & mask(self.bits), self.bits);
            ensure!(e.abs() <= room, "{}: coefficient {i} is {:#x} instead of {:#x} (room {room})", what(), got[i], want[i] & mask(self.bits));
            self.errors.push(e);
        }
        self.masks.push(masks);
        Ok(())
    }
    /// Every component is masked afresh, and noisy when noise was asked for.
    fn close(mut self, what: &str, cx: &mut Cx) -> R {
        cx.ev(true);
        let total = self.masks.len();
        // a mask of few bits can repeat by chance
        if self.masks[0].len() as u32 * self.bits >= 64 {
            self.masks.sort();
            self.masks.dedup();
            ensure!(self.masks.len() == total, "{what}: {} of {total} components share their mask with another", total - self.masks.len());
            ensure!(self.masks.iter().all(|m| m.iter().any(|x| *x != 0)), "{what}: a component without a mask");
        }
        if self.std > 0.0 {
            let zeros = self.errors.iter().filter(|e| **e == 0).count();
            ensure!(zeros * 4 <= self.errors.len() + 8, "{what}: {zeros} of {} coefficients carry no noise", self.errors.len());
            let mut e = self.errors.clone();
            e.sort();
            e.dedup();
            ensure!(e.len() * 2 + 8 >= self.errors.len(), "{what}: only {} different errors in {} coefficients", e.len(), self.errors.len());
            let unit = self.std * (self.bits as f64).exp2();
            let rms = (self.errors.iter().map(|x| (*x as f64 / unit).powi(2)).sum::<f64>() / self.errors.len() as f64).sqrt();
            if self.errors.len() >= 64 { ensure!(rms > 0.5 && rms < 2.0, "{what}: noise is {rms} times what was asked for") }
        }
        Ok(())
    }
}
fn level(bits: u32, r: &RadixDecomposition, l: usize) -> u64 {
    1 << (bits as usize - r.radix_log.0 * (l + 1))
}
fn scale(p: &[u64], f: u64, bits: u32) -> V {
    p.iter().map(|x| x.wrapping_mul(f) & mask(bits)).collect()
}
fn glwe_mask<S: TorusOps>(c: &GlweCiphertextRef<S>, g: &GlweDef) -> V {
    c.a(g).flat_map(tv).collect()
}
fn lwe_mask<S: TorusOps>(c: &LweCiphertextRef<S>, l: &LweDef) -> V {
    c.a(l).iter().map(|x| un(*x)).collect()
}
fn unit(n: usize, c: u64) -> V {
    (0..n).map(|i| if i == 0 { c } else { 0 }).collect()
}

/// A GGSW ciphertext of `m`.
#[allow(clippy::too_many_arguments)]
fn ggsw_is<S: TorusOps>(x: &GgswCiphertextRef<S>, m: &[u64], s: &[V], g: &GlweDef, r: &RadixDecomposition, b: &mut Book, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let k = g.dim.size.0;
    let mut rows = 0;
    for (j, row) in x.rows(g, r).enumerate() {
        rows += 1;
        let f = if j < k { scale(&negmul(&s[j], m), u64::MAX, 64) } else { m.to_vec() };
        let mut levels = 0;
        for (l, c) in row.glwe_ciphertexts(g).enumerate() {
            levels += 1;
            b.put(glwe_mask(c, g), &glwe_phase(c, s, g), &scale(&f, level(b.bits, r, l), b.bits), &|| format!("{}: row {j} level {l}", what()), cx)?;
        }
        same!(cx, levels, r.count.0, "levels of {}", what());
    }
    same!(cx, rows, k + 1, "rows of {}", what());
    Ok(())
}

/// Key words: 0 binary, 1 all zero, 2 all one, 3 one bit, 4 arbitrary, 5 boundary.
fn key_words(kind: u8, n: usize, bits: u32) -> V {
    let e = edge(bits);
    match kind {
        0 => arb(9, n).iter().map(|x| x & 1).collect(),
        1 => vec![0; n],
        2 => vec![1; n],
        3 => (0..n).map(|i| (i == n / 2) as u64).collect(),
        4 => arb(7, n).iter().map(|x| x & mask(bits)).collect(),
        _ => (0..n).map(|i| e[i * 7 % e.len()]).collect(),
    }
}

fn contents<S: TorusOps>(n: usize, k: usize, d: usize, r: &RadixDecomposition, kind: u8, std: f64, cx: &mut Cx) -> R
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let bits = width::<S>();
    let (mut g, mut l) = (gdef(n, k), ldef(d));
    g.std = Stddev(std);
    l.std = Stddev(std);
    let from = LweDef { std: Stddev(std), ..ldef(d + 1) };
    rand::mc::seed(kind as u64 + 100);
    let (sg, sl, sf) = (glwe_key::<S>(&g, &key_words(kind, n * k, bits)), lwe_key::<S>(&l, &key_words(kind, d, bits)), lwe_key::<S>(&from, &key_words(kind, d + 1, bits)));
    let (s, lw, fw) = (glwe_words(&sg, &g), lwe_words(&sl), lwe_words(&sf));
    let say = |w: &str| format!("{w}, u{bits} N={n} k={k} n={d} {r:?} keys of kind {kind}, noise {std}");
    let book = || Book::new(bits, std);

    // LWE keyswitch key
    {
        let mut x = LweKeyswitchKey::<S>::new(&from, &l, r);
        dirty(&mut *x, 1);
        generate_keyswitch_key_lwe(&mut x, &sf, &sl, &from, &l, r);
        let mut b = book();
        let mut rows = 0;
        for (i, row) in x.rows(&l, r).enumerate() {
            rows += 1;
            for (j, c) in row.lwe_ciphertexts(&l).enumerate() {
                b.put(lwe_mask(c, &l), &[lwe_phase(c, &lw, &l)], &scale(&[fw[i]], level(bits, r, j), bits), &|| say(&format!("LWE keyswitch key row {i} level {j}")), cx)?;
            }
        }
        same!(cx, rows, d + 1, "{}", say("rows of the LWE keyswitch key"));
        b.close(&say("LWE keyswitch key"), cx)?;
    }
    // LWE public key
    {
        let x = LwePublicKey::<S>::generate(&sl, &l);
        let mut b = book();
        for (i, c) in x.enc_zeros(&l).enumerate() {
            b.put(lwe_mask(c, &l), &[lwe_phase(c, &lw, &l)], &[0], &|| say(&format!("LWE public key, zero {i}")), cx)?;
        }
        same!(cx, b.masks.len(), d, "{}", say("zeros in the LWE public key"));
        b.close(&say("LWE public key"), cx)?;
    }
    // RLWE public key
    if k == 1 {
        let mut x = RlwePublicKey::<S>::new(&g);
        dirty(&mut *x, 1);
        poison(kind);
        rlwe_generate_public_key(&mut x, &sg, &g);
        let mut b = book();
        let c = x.zero_encryption();
        b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &vec![0; n], &|| say("RLWE public key"), cx)?;
        b.close(&say("RLWE public key"), cx)?;
    }
    // GLWE keyswitch key
    {
        let other = glwe_key::<S>(&g, &key_words((kind + 3) % 6, n * k, bits));
        let o = glwe_words(&other, &g);
        let mut x = GlweKeyswitchKey::<S>::new(&g, r);
        dirty(&mut *x, 1);
        poison(kind);
        generate_keyswitch_key_glwe(&mut x, &other, &sg, &g, r);
        let mut b = book();
        for (i, row) in x.rows(&g, r).enumerate() {
            for (j, c) in row.glwe_ciphertexts(&g).enumerate() {
                b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&o[i], level(bits, r, j), bits), &|| say(&format!("GLWE keyswitch key row {i} level {j}")), cx)?;
            }
        }
        same!(cx, b.masks.len(), k * r.count.0, "{}", say("components of the GLWE keyswitch key"));
        b.close(&say("GLWE keyswitch key"), cx)?;
    }
    // bootstrap key (a binary key, one bit encoded under q)
    if kind < 4 {
        let mut x = BootstrapKey::<S>::new(&l, &g, r);
        dirty(&mut *x, 1);
        poison(kind);
        generate_bootstrap_key(&mut x, &sl, &sg, &l, &g, r);
        let mut b = book();
        for (i, row) in x.rows(&g, r).enumerate() {
            ggsw_is(row, &unit(n, lw[i]), &s, &g, r, &mut b, &|| say(&format!("bootstrap key bit {i}")), cx)?;
        }
        same!(cx, b.masks.len(), d * (k + 1) * r.count.0, "{}", say("components of the bootstrap key"));
        b.close(&say("bootstrap key"), cx)?;
    }
    // scheme switch key: products of key polynomials go through the transform
    if kind < 4 && n >= 16 {
        let mut x = SchemeSwitchKey::<S>::new(&g, r);
        dirty(&mut *x, 1);
        poison(kind);
        generate_scheme_switch_key(&mut x, &sg, &g, r);
        let mut b = book();
        for i in 0..k {
            for j in 0..k {
                let want = negmul(&s[i], &s[j]);
                for (l, c) in x.get_glev_at_index(i, j, &g, r).glwe_ciphertexts(&g).enumerate() {
                    let mut spare = book();
                    (if j < i { &mut spare } else { &mut b }).put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&want, level(bits, r, l), bits),
                        &|| say(&format!("scheme switch key ({i},{j}) level {l}")), cx)?;
                }
            }
        }
        same!(cx, x.glev_ciphertexts(&g, r).count(), k * (k + 1) / 2, "{}", say("entries of the scheme switch key"));
        b.close(&say("scheme switch key"), cx)?;
    }
    // automorphism key
    if n > 1 {
        let mut x = AutomorphismKey::<S>::new(&g, r);
        dirty(&mut *x, 1);
        poison(kind);
        generate_automorphism_key(&mut x, &sg, &g, r);
        let mut b = book();
        for (i, key) in x.keyswitch_keys(&g, r).enumerate() {
            let e = n / (1 << i) + 1;
            for (row, glev) in key.rows(&g, r).enumerate() {
                let mut moved = vec![0u64; n];
                for c in 0..n {
                    let at = c * e % (2 * n);
                    if at < n { moved[at] = s[row][c] } else { moved[at - n] = s[row][c].wrapping_neg() }
                }
                for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                    b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&moved, level(bits, r, l), bits), &|| say(&format!("automorphism key X^{e} row {row} level {l}")), cx)?;
                }
            }
        }
        same!(cx, b.masks.len(), n.ilog2() as usize * k * r.count.0, "{}", say("components of the automorphism key"));
        b.close(&say("automorphism key"), cx)?;
    }
    // keys for circuit bootstrapping: row i multiplies by minus key polynomial i, the last one by one
    {
        let mut x = CircuitBootstrappingKeyswitchKeys::<S>::new(&from, &g, r);
        dirty(&mut *x, 1);
        poison(kind);
        pf::generate_circuit_bootstrapping_pfks_keys(&mut x, &sf, &sg, &from, &g, r);
        let mut b = book();
        for (i, key) in x.keys(&from, &g, r).enumerate() {
            for (j, glev) in key.glevs(&g, r).enumerate() {
                let bit = if j <= d { fw[j] } else { u64::MAX };
                let f = if i < k { scale(&s[i], bit.wrapping_neg(), bits) } else { unit(n, bit) };
                for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                    b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&f, level(bits, r, l), bits), &|| say(&format!("circuit bootstrapping key {i} row {j} level {l}")), cx)?;
                }
            }
        }
        same!(cx, b.masks.len(), (k + 1) * (d + 2) * r.count.0, "{}", say("components of the circuit bootstrapping keys"));
        b.close(&say("circuit bootstrapping keys"), cx)?;
    }
    // private functional keyswitch key of several inputs: input z goes to coefficient z, times (z + 2)
    {
        let p = PrivateFunctionalKeyswitchLweCount(1 + n.min(3) - (n > 2) as usize);
        let p = PrivateFunctionalKeyswitchLweCount(p.0.min(n));
        let mut x = PrivateFunctionalKeyswitchKey::<S>::new(&from, &g, r, &p);
        dirty(&mut *x, 1);
        poison(kind);
        let map = |o: &mut PolynomialRef<Torus<S>>, v: &[Torus<S>]| for (z, v) in v.iter().enumerate() { o.coeffs_mut()[z] = t(un(*v).wrapping_mul(z as u64 + 2)) };
        pf::generate_private_functional_keyswitch_key(&mut x, &sf, &sg, map, &from, &g, r, &p);
        let mut b = book();
        for (at, glev) in x.glevs(&g, r).enumerate() {
            let (z, j) = (at / (d + 2), at % (d + 2));
            let bit = if j <= d { fw[j] } else { u64::MAX };
            let f: V = (0..n).map(|c| if c == z { bit.wrapping_mul(z as u64 + 2) } else { 0 }).collect();
            for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&f, level(bits, r, l), bits), &|| say(&format!("private functional key input {z} row {j} level {l}")), cx)?;
            }
        }
        same!(cx, b.masks.len(), p.0 * (d + 2) * r.count.0, "{}", say("components of the private functional key"));
        b.close(&say("private functional key"), cx)?;
    }
    // public functional keyswitch key
    {
        let mut x = PublicFunctionalKeyswitchKey::<S>::new(&from, &g, r);
        dirty(&mut *x, 1);
        poison(kind);
        pu::generate_public_functional_keyswitch_key(&mut x, &sf, &sg, &from, &g, r);
        let mut b = book();
        for (j, glev) in x.glevs(&g, r).enumerate() {
            for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&unit(n, fw[j]), level(bits, r, l), bits), &|| say(&format!("public functional key row {j} level {l}")), cx)?;
            }
        }
        same!(cx, b.masks.len(), (d + 1) * r.count.0, "{}", say("components of the public functional key"));
        b.close(&say("public functional key"), cx)?;
    }
    // every amount of a blind rotation shift (straight to the transformed form)
    if kind < 4 && n >= 4 && std == 0.0 {
        for amount in 0..n {
            let mut y = BlindRotationShiftFft::<C>::new(&g, r);
            dirty(&mut *y, 3);
            generate_blind_rotation_shift::<S>(&mut y, amount, &sg, &g, r, PlaintextBits(1));
            let mut x = BlindRotationShift::<S>::new(&g, r);
            y.ifft(&mut x, &g, r);
            for (i, row) in x.rows(&g, r).enumerate() {
                for (j, glev) in row.rows(&g, r).enumerate() {
                    let m = unit(n, amount as u64 >> i & 1);
                    let f = if j < k { scale(&negmul(&s[j], &m), u64::MAX, 64) } else { m };
                    for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                        // each coefficient off by the room of a transform, times the weight of the key
                        alike(&glwe_phase(c, &s, &g), &scale(&f, level(bits, r, l), bits), bits == 32, 2 * n * n * k, bits, &|| say(&format!("rotation by {amount}: bit {i} row {j} level {l}")), cx)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// The convenience functions make the same keys as the operations they stand for.
fn helper_keys(n: usize, k: usize, d: usize, seed: u64, cx: &mut Cx) -> R {
    let (g, l, r) = (gdef(n, k), ldef(d), rad(2, 5));
    let from = ldef(d + 2);
    rand::mc::seed(seed);
    let (sl, sf, sg) = (keygen::generate_binary_lwe_sk(&l), keygen::generate_uniform_lwe_sk(&from), keygen::generate_binary_glwe_sk(&g));
    let (lw, fw, s) = (lwe_words(&sl), lwe_words(&sf), glwe_words(&sg, &g));
    same!(cx, (lw.len(), fw.len(), s.len(), s[0].len()), (d, d + 2, k, n), "key sizes");
    let mut b = Book::new(64, 0.0);
    let bk = keygen::generate_bootstrapping_key(&sl, &sg, &l, &g, &r);
    for (i, row) in bk.rows(&g, &r).enumerate() {
        ggsw_is(row, &unit(n, lw[i]), &s, &g, &r, &mut b, &|| format!("bootstrap key bit {i}"), cx)?;
    }
    let ksk = keygen::generate_ksk(&sf, &sl, &from, &l, &r);
    for (i, row) in ksk.rows(&l, &r).enumerate() {
        for (j, c) in row.lwe_ciphertexts(&l).enumerate() {
            same!(cx, lwe_phase(c, &lw, &l), fw[i].wrapping_mul(level(64, &r, j)), "keyswitch key row {i} level {j}");
        }
    }
    let cbs = keygen::generate_cbs_ksk(&sf, &sg, &from, &g, &r);
    for (i, key) in cbs.keys(&from, &g, &r).enumerate() {
        for (j, glev) in key.glevs(&g, &r).enumerate() {
            let bit = if j < d + 2 { fw[j] } else { u64::MAX };
            let f = if i < k { scale(&s[i], bit.wrapping_neg(), 64) } else { unit(n, bit) };
            for (l, c) in glev.glwe_ciphertexts(&g).enumerate() {
                b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&f, level(64, &r, l), 64), &|| format!("circuit bootstrapping key {i} row {j} level {l}"), cx)?;
            }
        }
    }
    let ssk = keygen::generate_scheme_switch_key(&sg, &g, &r);
    for i in 0..k {
        for j in i..k {
            for (l, c) in ssk.get_glev_at_index(i, j, &g, &r).glwe_ciphertexts(&g).enumerate() {
                b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &scale(&negmul(&s[i], &s[j]), level(64, &r, l), 64), &|| format!("scheme switch key ({i},{j}) level {l}"), cx)?;
            }
        }
    }
    let ak = keygen::generate_automorphism_key(&sg, &g, &r);
    same!(cx, ak.keyswitch_keys(&g, &r).count(), n.ilog2() as usize, "automorphism keys");
    let pk = keygen::generate_lwe_pk(&sl, &l);
    for (i, c) in pk.enc_zeros(&l).enumerate() { same!(cx, lwe_phase(c, &lw, &l), 0, "public key zero {i}"); }
    if k == 1 {
        let pk = keygen::generate_rlwe_public_key(&sg, &g);
        let c = pk.zero_encryption();
        b.put(glwe_mask(c, &g), &glwe_phase(c, &s, &g), &vec![0; n], &|| "RLWE public key".into(), cx)?;
    }
    b.close("keys made by the convenience functions", cx)
}

// ---- distribution of secret keys ----

/// The number of ones among independent fair bits stays within eight standard deviations.
fn fair(ones: usize, of: usize) -> bool {
    (ones as f64 - of as f64 / 2.0).abs() <= 8.0 * (of as f64).sqrt() / 2.0
}
fn secret<S: TorusOps>(seed: u64, cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (l, g) = (ldef(4096), gdef(1024, 4));
    rand::mc::seed(seed);
    let draws: Vec<(&str, bool, V)> = vec![
        ("LWE binary", true, lwe_words(&LweSecretKey::<S>::generate_binary(&l))),
        ("LWE binary again", true, lwe_words(&LweSecretKey::<S>::generate_binary(&l))),
        ("GLWE binary", true, glwe_words(&GlweSecretKey::<S>::generate_binary(&g), &g).concat()),
        ("GLWE binary again", true, glwe_words(&GlweSecretKey::<S>::generate_binary(&g), &g).concat()),
        ("LWE uniform", false, lwe_words(&LweSecretKey::<S>::generate_uniform(&l))),
        ("LWE uniform again", false, lwe_words(&LweSecretKey::<S>::generate_uniform(&l))),
        ("GLWE uniform", false, glwe_words(&GlweSecretKey::<S>::generate_uniform(&g), &g).concat()),
        ("GLWE uniform again", false, glwe_words(&GlweSecretKey::<S>::generate_uniform(&g), &g).concat()),
    ];
    for (i, (what, binary, v)) in draws.iter().enumerate() {
        same!(cx, v.len(), 4096, "length of {what} key");
        if *binary { ensure!(v.iter().all(|x| *x < 2), "{what} key has a word other than 0 and 1: {:#x}", v.iter().find(|x| **x > 1).unwrap()) }
        for bit in 0..if *binary { 1 } else { bits } {
            let b: Vec<u64> = v.iter().map(|x| x >> bit & 1).collect();
            ensure!(fair(b.iter().sum::<u64>() as usize, 4096), "{what} key, bit {bit}: {} ones of 4096", b.iter().sum::<u64>());
            // neighbours at every power-of-two distance are independent
            for gap in (0..12).map(|s| 1usize << s).filter(|g| *g < 2049) {
                let c = b.iter().zip(&b[gap..]).filter(|(x, y)| x != y).count();
                ensure!(fair(c, 4096 - gap), "{what} key, bit {bit}: words {gap} apart differ {c} times of {}", 4096 - gap);
            }
            for (other, ob, w) in draws[i + 1..].iter() {
                if ob == binary {
                    let c = b.iter().zip(w).filter(|(x, y)| **x != *y >> bit & 1).count();
                    ensure!(fair(c, 4096), "{what} and {other} keys, bit {bit}, differ in {c} words of 4096");
                }
            }
            cx.ev(true);
        }
    }
    Ok(())
}
/// Whatever the generator is handed, a binary key is binary, and a one-word change moves at most that word.
fn any_draw<S: TorusOps>(cx: &mut Cx) -> R {
    let bits = width::<S>();
    let d = ldef(3);
    let (mut zero, mut one, mut seen) = (0, 0, std::collections::BTreeSet::new());
    for p in patterns(64) {
        rand::mc::script([p, p, p]);
        let k = lwe_words(&LweSecretKey::<S>::generate_binary(&d));
        ensure!(k.iter().all(|x| *x < 2), "draws {p:#x} give the binary key {k:x?}");
        if k[0] == 0 { zero += 1 } else { one += 1 }
        rand::mc::script([p, p, p]);
        let k = glwe_words(&GlweSecretKey::<S>::generate_binary(&gdef(1, 3)), &gdef(1, 3));
        ensure!(k.concat().iter().all(|x| *x < 2), "draws {p:#x} give the binary key {k:x?}");
        rand::mc::script([p, p, p]);
        let k = lwe_words(&LweSecretKey::<S>::generate_uniform(&d));
        seen.insert(k[0]);
        cx.ev(true);
    }
    rand::mc::script([]);
    ensure!(zero > 0 && one > 0, "binary keys have {zero} zeros and {one} ones over all patterns");
    let want = patterns(64).iter().map(|x| x & mask(bits)).collect::<std::collections::BTreeSet<_>>().len();
    ensure!(seen.len() * 4 >= want, "uniform keys take {} values over {want} different draws", seen.len());
    Ok(())
}
/// Key arithmetic used for sharing keys is word by word.
fn arithmetic<S: TorusOps>(cx: &mut Cx) -> R {
    let bits = width::<S>();
    let (d, e) = (ldef(2), edge(bits));
    let g = gdef(2, 2);
    for &a in &e {
        for &b in &e {
            let (x, y) = (lwe_key::<S>(&d, &[a, b]), lwe_key::<S>(&d, &[b, b ^ 1]));
            let (xw, yw) = (lwe_words(&x), lwe_words(&y));
            let w = |f: &dyn Fn(u64, u64) -> u64| -> V { xw.iter().zip(&yw).map(|(x, y)| f(*x, *y) & mask(bits)).collect() };
            same!(cx, lwe_words(&(x.as_ref() + y.as_ref())), w(&|x, y| x.wrapping_add(y)), "{a:#x}+{b:#x}");
            same!(cx, lwe_words(&(x.as_ref() - y.as_ref())), w(&|x, y| x.wrapping_sub(y)), "{a:#x}-{b:#x}");
            same!(cx, lwe_words(&-x.as_ref()), w(&|x, _| x.wrapping_neg()), "-{a:#x}");
            let (x, y) = (glwe_key::<S>(&g, &[a, b, a ^ 1, 3]), glwe_key::<S>(&g, &[b, 5, b ^ 1, a]));
            let (xw, yw) = (glwe_words(&x, &g).concat(), glwe_words(&y, &g).concat());
            let w = |f: &dyn Fn(u64, u64) -> u64| -> V { xw.iter().zip(&yw).map(|(x, y)| f(*x, *y) & mask(bits)).collect() };
            same!(cx, glwe_words(&(x.as_ref() + y.as_ref()), &g).concat(), w(&|x, y| x.wrapping_add(y)), "GLWE {a:#x}+{b:#x}");
            same!(cx, glwe_words(&(x.as_ref() - y.as_ref()), &g).concat(), w(&|x, y| x.wrapping_sub(y)), "GLWE {a:#x}-{b:#x}");
            same!(cx, glwe_words(&-x.as_ref(), &g).concat(), w(&|x, _| x.wrapping_neg()), "GLWE -{a:#x}");
            // the LWE view of a GLWE key is its coefficients in order
            same!(cx, lwe_words(x.to_lwe_secret_key()), xw, "LWE view");
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let mut ck = Ck::new("T13", "exploration",
        "every entity kind over a grid of shapes, filled with zero, boundary, arbitrary and position-numbered words, through serialisation (alone, streamed, in a tuple, every short prefix and the longest truncations) and through its transform and back; every component of every generated key for a grid of shapes, decompositions and secret keys (binary, zero, ones, one bit, arbitrary, boundary), decrypted with plain integer arithmetic; distribution of secret keys over every bit position, neighbour distance and pair of keys, and over every two-bit pattern of the random source");
    ck.set_wrap(one_thread);
    ck.assume("the random source is replaced by a counter-based stream or a script; fairness of a secret key is judged at eight standard deviations on a fixed stream");
    let mut shapes = vec![];
    for n in [1usize, 2, 4, 8] { for k in 1..=3usize { for d in [1usize, 2, 5] { for c in [1usize, 3] { for w in [32, 64] { shapes.push((w, n, k, d, c)) } } } } }
    if ck.thorough { for n in [16usize, 32, 64] { for k in 1..=4usize { for d in [1usize, 3, 8] { for c in 1..=4usize { for w in [32, 64] { shapes.push((w, n, k, d, c)) } } } } } }
    ck.par("serialisation", &shapes, |x| format!("u{} N={} k={} n={} levels {}", x.0, x.1, x.2, x.3, x.4), |&(w, n, k, d, c), cx| {
        if w == 32 { wire::<u32>(n, k, d, c, cx) } else { wire::<u64>(n, k, d, c, cx) }
    });
    ck.case("serialisation", "parameters and words", parameters);
    let mut tr = vec![];
    for n in [4usize, 8, 16, 64] { for k in 1..=3usize { for d in [1usize, 3] { for c in [1usize, 2] { for w in [32, 64] { tr.push((w, n, k, d, c)) } } } } }
    { for n in [32usize, 128, 512, 2048] { for k in 1..=3usize { for c in [1usize, 3] { for w in [32, 64] { tr.push((w, n, k, 2, c)) } } } } }
    ck.par("transforms", &tr, |x| format!("u{} N={} k={} n={} levels {}", x.0, x.1, x.2, x.3, x.4), |&(w, n, k, d, c), cx| {
        if w == 32 { return transforms::<u32>(n, k, d, c, cx) }
        transforms::<u64>(n, k, d, c, cx)?;
        helpers(n, k, d, c, cx)
    });
    let mut keys = vec![];
    for n in [1usize, 2, 4, 16] { for k in 1..=3usize { for d in [1usize, 4] { for rr in [(1, 1), (1, 7), (3, 4), (2, 15), (7, 4)] { for kind in 0..6u8 { for w in [32u32, 64] { for noisy in [false, true] {
        if (!noisy || (kind == 0 || kind == 4)) && (ck.thorough || k < 3 || rr.0 == 3) { keys.push((w, n, k, d, rr, kind, noisy)) }
    } } } } } } }
    if ck.thorough { for n in [8usize, 32] { for k in 1..=2usize { for rr in [(2, 8), (31, 1), (5, 6)] { for kind in 0..6u8 { for w in [32u32, 64] { keys.push((w, n, k, 3, rr, kind, kind == 0)) } } } } } }
    ck.par("key contents", &keys, |x| format!("u{} N={} k={} n={} radix {:?} keys {} {}", x.0, x.1, x.2, x.3, x.4, x.5, if x.6 { "noisy" } else { "exact" }), |&(w, n, k, d, (c, b), kind, noisy), cx| {
        let std = if !noisy { 0.0 } else if w == 32 { (2f64).powi(-20) } else { (2f64).powi(-40) };
        if w == 32 { contents::<u32>(n, k, d, &rad(c, b), kind, std, cx) } else { contents::<u64>(n, k, d, &rad(c, b), kind, std, cx) }
    });
    let hk: Vec<(usize, usize, usize, u64)> = [16usize, 32].iter().flat_map(|n| (1..=3usize).flat_map(move |k| [1usize, 5].into_iter().flat_map(move |d| (0..3u64).map(move |s| (*n, k, d, s))))).collect();
    ck.par("convenience functions", &hk, |x| format!("N={} k={} n={} seed {}", x.0, x.1, x.2, x.3), |&(n, k, d, s), cx| helper_keys(n, k, d, s, cx));
    let seeds: Vec<(u64, u32)> = (0..ck.tier(4, 64)).flat_map(|s| [(s as u64, 32), (s as u64, 64)]).collect();
    ck.par("secret keys", &seeds, |x| format!("u{} stream {}", x.1, x.0), |&(s, w), cx| if w == 32 { secret::<u32>(s, cx) } else { secret::<u64>(s, cx) });
    ck.case("secret keys", "every pattern of the random source", |cx| { any_draw::<u32>(cx)?; any_draw::<u64>(cx) });
    ck.case("secret keys", "sums, differences and views", |cx| { arithmetic::<u32>(cx)?; arithmetic::<u64>(cx) });
    ck.finish()
}
