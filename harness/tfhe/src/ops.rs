//! Every public operation that takes scratch memory or writes into a caller's buffer, on fixed inputs.
use crate::u::*;
use num::Complex;
use std::{num::Wrapping, ops::{Add, Mul, Sub}};
use sunscreen_tfhe::{
    entities::*,
    math::radix::{PolynomialRadixIterator, ScalarRadixIterator},
    ops::{
        automorphisms::*, bootstrapping::*, ciphertext as nofft, encryption::*, fft_ops,
        homomorphisms as hom,
        keyswitch::{glwe_keyswitch, glwe_keyswitch_key::*, lwe_keyswitch, lwe_keyswitch_key::*, private_functional_keyswitch as pf, public_functional_keyswitch as pu},
        polynomial as poly,
    },
    polynomial as mpoly,
    CarryBits, GlweDef, LweDef, PlaintextBits, PrivateFunctionalKeyswitchLweCount, RadixDecomposition, Torus, TorusOps,
};

type C = Complex<f64>;

/// Keys and operands every operation works on.
pub struct World<S: TorusOps> {
    pub g: GlweDef,
    pub l: LweDef,
    pub big: LweDef,
    pub r: RadixDecomposition,
    pub r2: RadixDecomposition,
    sg: GlweSecretKey<S>,
    sg2: GlweSecretKey<S>,
    sl: LweSecretKey<S>,
    big_sk: LweSecretKey<S>,
    x: GlweCiphertext<S>,
    y: GlweCiphertext<S>,
    glev: GlevCiphertext<S>,
    glev2: GlevCiphertext<S>,
    ggsw: GgswCiphertext<S>,
    ggsw_fft: GgswCiphertextFft<C>,
    lwe: LweCiphertext<S>,
    lwe2: LweCiphertext<S>,
    big_lwe: LweCiphertext<S>,
    p: Polynomial<S>,
    q: Polynomial<Torus<S>>,
    bits: Polynomial<S>,
    bsk: BootstrapKeyFft<C>,
    ksk: LweKeyswitchKey<S>,
    gksk: GlweKeyswitchKey<S>,
    gksk_fft: GlweKeyswitchKeyFft<C>,
    ssk: SchemeSwitchKey<S>,
    ssk_fft: SchemeSwitchKeyFft<C>,
    ak: AutomorphismKey<S>,
    ak_fft: AutomorphismKeyFft<C>,
    cbs: CircuitBootstrappingKeyswitchKeys<S>,
    pfk: PrivateFunctionalKeyswitchKey<S>,
    puk: PublicFunctionalKeyswitchKey<S>,
    shift: BlindRotationShiftFft<C>,
    rpk: Option<RlwePublicKey<S>>,
    lut: UnivariateLookupTable<S>,
    lut2: BivariateLookupTable<S>,
    lpk: LwePublicKey<S>,
}

const P1: PlaintextBits = PlaintextBits(1);
const TWO: PrivateFunctionalKeyswitchLweCount = PrivateFunctionalKeyswitchLweCount(2);

pub trait W: TorusOps {}
impl<S: TorusOps> W for S {}

fn pmap<S: TorusOps>(o: &mut PolynomialRef<Torus<S>>, v: &[Torus<S>]) {
    for (i, x) in v.iter().enumerate() { o.coeffs_mut()[i + 1] = *x }
}

impl<S: TorusOps> World<S>
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    pub fn new(n: usize, k: usize, d: usize) -> Self {
        rand::mc::seed(n as u64 * 7 + k as u64);
        let (g, l, r, r2) = (gdef(n, k), ldef(d), rad(2, 4), rad(3, 5));
        let big = ldef(n * k);
        let sg = GlweSecretKey::<S>::generate_binary(&g);
        let sg2 = GlweSecretKey::<S>::generate_binary(&g);
        let sl = LweSecretKey::<S>::generate_binary(&l);
        let big_sk = LweSecretKey::<S>::generate_binary(&big);
        let p = ip::<S>(&arb(1, n).iter().map(|x| x & 7).collect::<V>());
        let bits = ip::<S>(&arb(2, n).iter().map(|x| x & 1).collect::<V>());
        let q = tp::<S>(&arb(3, n));
        let (mut x, mut y) = (GlweCiphertext::<S>::new(&g), GlweCiphertext::<S>::new(&g));
        encrypt_glwe_ciphertext_secret(&mut x, &q, &sg, &g);
        encrypt_glwe_ciphertext_secret(&mut y, &tp::<S>(&arb(4, n)), &sg, &g);
        let (mut glev, mut glev2) = (GlevCiphertext::<S>::new(&g, &r), GlevCiphertext::<S>::new(&g, &r));
        encrypt_secret_glev_ciphertext(&mut glev, bits.as_torus(), &sg, &g, &r);
        encrypt_secret_glev_ciphertext(&mut glev2, p.as_torus(), &sg, &g, &r);
        let mut ggsw = GgswCiphertext::<S>::new(&g, &r);
        encrypt_ggsw_ciphertext_scalar(&mut ggsw, S::from_u64(1), &sg, &g, &r, P1);
        let mut ggsw_fft = GgswCiphertextFft::<C>::new(&g, &r);
        ggsw.fft(&mut ggsw_fft, &g, &r);
        let lwe = sl.encrypt(S::from_u64(1), &l, PlaintextBits(3)).0;
        let lwe2 = sl.encrypt(S::from_u64(0), &l, PlaintextBits(3)).0;
        let big_lwe = big_sk.encrypt(S::from_u64(1), &big, PlaintextBits(2)).0;
        let mut bk = BootstrapKey::<S>::new(&l, &g, &r);
        generate_bootstrap_key(&mut bk, &sl, &sg, &l, &g, &r);
        let mut bsk = BootstrapKeyFft::<C>::new(&l, &g, &r);
        bk.fft(&mut bsk, &l, &g, &r);
        let mut ksk = LweKeyswitchKey::<S>::new(&big, &l, &r);
        generate_keyswitch_key_lwe(&mut ksk, &big_sk, &sl, &big, &l, &r);
        let mut gksk = GlweKeyswitchKey::<S>::new(&g, &r);
        generate_keyswitch_key_glwe(&mut gksk, &sg, &sg2, &g, &r);
        let mut gksk_fft = GlweKeyswitchKeyFft::<C>::new(&g, &r);
        gksk.fft(&mut gksk_fft, &g, &r);
        let mut ssk = SchemeSwitchKey::<S>::new(&g, &r2);
        generate_scheme_switch_key(&mut ssk, &sg, &g, &r2);
        let mut ssk_fft = SchemeSwitchKeyFft::<C>::new(&g, &r2);
        ssk.fft(&mut ssk_fft, &g, &r2);
        let mut ak = AutomorphismKey::<S>::new(&g, &r2);
        generate_automorphism_key(&mut ak, &sg, &g, &r2);
        let mut ak_fft = AutomorphismKeyFft::<C>::new(&g, &r2);
        ak.fft(&mut ak_fft, &g, &r2);
        let mut cbs = CircuitBootstrappingKeyswitchKeys::<S>::new(&big, &g, &r2);
        pf::generate_circuit_bootstrapping_pfks_keys(&mut cbs, sg.to_lwe_secret_key(), &sg2, &big, &g, &r2);
        let mut pfk = PrivateFunctionalKeyswitchKey::<S>::new(&l, &g, &r, &TWO);
        pf::generate_private_functional_keyswitch_key(&mut pfk, &sl, &sg, pmap, &l, &g, &r, &TWO);
        let mut puk = PublicFunctionalKeyswitchKey::<S>::new(&l, &g, &r);
        pu::generate_public_functional_keyswitch_key(&mut puk, &sl, &sg, &l, &g, &r);
        let mut shift = BlindRotationShiftFft::<C>::new(&g, &r);
        generate_blind_rotation_shift::<S>(&mut shift, 5, &sg, &g, &r, P1);
        let rpk = (k == 1).then(|| {
            let mut k = RlwePublicKey::<S>::new(&g);
            rlwe_generate_public_key(&mut k, &sg, &g);
            k
        });
        let lut = UnivariateLookupTable::<S>::trivial_from_fn(|x| x ^ 1, &g, PlaintextBits(2));
        let lut2 = BivariateLookupTable::<S>::trivial_from_fn(|x, y| x & y, &g, P1, CarryBits(1));
        let lpk = LwePublicKey::<S>::generate(&sl, &l);
        World { g, l, big, r, r2, sg, sg2, sl, big_sk, x, y, glev, glev2, ggsw, ggsw_fft, lwe, lwe2, big_lwe, p, q, bits, bsk, ksk, gksk, gksk_fft, ssk, ssk_fft, ak, ak_fft, cbs, pfk, puk, shift, rpk, lut, lut2, lpk }
    }

    /// The names of the operations.
    pub fn names() -> Vec<&'static str> {
        let mut v = vec![];
        Self::each(None, 0, usize::MAX, &mut |n, _| v.push(n));
        v
    }
    /// Run operation `i`; outputs it must overwrite start as rubbish of the given kind.
    pub fn run(&self, i: usize, kind: u8) -> Vec<u8> {
        rand::mc::seed(i as u64 + 1000);
        let mut o = None;
        Self::each(Some(self), kind, i, &mut |_, r| o = Some(r));
        o.unwrap_or_default()
    }

    fn each(w: Option<&Self>, kind: u8, only: usize, out: &mut dyn FnMut(&'static str, Vec<u8>)) {
        let mut at = 0;
        // float outputs get a finite double so that they can only be read, never trap
        let fk = if kind == 0 { 0 } else { 3 };
        macro_rules! op {
            ($name:literal, |$w:ident| $body:block) => {{
                if only == usize::MAX { out($name, vec![]) }
                else if only == at { let $w = w.unwrap(); #[allow(unused_mut)] let mut r: Vec<u8> = $body; out($name, std::mem::take(&mut r)) }
                at += 1;
            }};
        }
        macro_rules! into { ($w:ident, $new:expr, |$o:ident| $f:expr) => {{ let mut $o = $new; dirty(&mut *$o, kind); $f; raw(&*$o).to_vec() }} }
        macro_rules! intof { ($w:ident, $new:expr, |$o:ident| $f:expr) => {{ let mut $o = $new; dirty(&mut *$o, fk); $f; raw(&*$o).to_vec() }} }
        // accumulators start from a fixed value instead
        macro_rules! acc { ($w:ident, $new:expr, |$o:ident| $f:expr) => {{ let mut $o = $new; $f; raw(&*$o).to_vec() }} }

        // encryption
        op!("encrypt_glwe_ciphertext_secret", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| encrypt_glwe_ciphertext_secret(&mut o, &w.q, &w.sg, &w.g)) });
        op!("trivially_encrypt_glwe_ciphertext", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| trivially_encrypt_glwe_ciphertext(&mut o, &w.q, &w.g)) });
        op!("decrypt_glwe_ciphertext", |w| { into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| decrypt_glwe_ciphertext(&mut o, &w.x, &w.sg, &w.g)) });
        op!("encrypt_secret_glev_ciphertext", |w| { into!(w, GlevCiphertext::<S>::new(&w.g, &w.r), |o| encrypt_secret_glev_ciphertext(&mut o, w.p.as_torus(), &w.sg, &w.g, &w.r)) });
        op!("trivially_encrypt_glev_ciphertext", |w| { into!(w, GlevCiphertext::<S>::new(&w.g, &w.r), |o| trivially_encrypt_glev_ciphertext(&mut o, w.p.as_torus(), &w.g, &w.r)) });
        op!("encrypt_rlev_ciphertext", |w| {
            match &w.rpk { None => vec![], Some(pk) => into!(w, GlevCiphertext::<S>::new(&w.g, &w.r), |o| encrypt_rlev_ciphertext(&mut o, w.p.as_torus(), pk, &w.g, &w.r)) }
        });
        op!("decrypt_glev_ciphertext", |w| { into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| decrypt_glev_ciphertext(&mut o, &w.glev, &w.sg, &w.g, &w.r)) });
        op!("encrypt_lwe_ciphertext", |w| { into!(w, LweCiphertext::<S>::new(&w.l), |o| { encrypt_lwe_ciphertext(&mut o, &w.sl, t(12345), &w.l); }) });
        op!("encode_and_encrypt_lwe_ciphertext", |w| { into!(w, LweCiphertext::<S>::new(&w.l), |o| { encode_and_encrypt_lwe_ciphertext(&mut o, &w.sl, S::from_u64(3), &w.l, PlaintextBits(3)); }) });
        op!("trivially_encrypt_lwe_ciphertext", |w| { into!(w, LweCiphertext::<S>::new(&w.l), |o| trivially_encrypt_lwe_ciphertext(&mut o, &t(12345), &w.l)) });
        op!("LWE secret key encrypt and decrypt", |w| {
            let c = w.sl.encrypt(S::from_u64(5), &w.l, PlaintextBits(3)).0;
            let mut v = raw(&*c).to_vec();
            v.extend(w.sl.decrypt(&c, &w.l, PlaintextBits(3)).to_u64().to_le_bytes());
            v.extend(un(w.sl.decrypt_without_decode(&w.lwe, &w.l)).to_le_bytes());
            v
        });
        op!("LWE public key", |w| { raw(&*LwePublicKey::<S>::generate(&w.sl, &w.l)).to_vec() });
        op!("LWE public key encrypt", |w| { raw(&*w.lpk.encrypt(S::from_u64(2), &w.l, PlaintextBits(3)).0).to_vec() });
        op!("rlwe_generate_public_key", |w| { if w.rpk.is_none() { vec![] } else { into!(w, RlwePublicKey::<S>::new(&w.g), |o| rlwe_generate_public_key(&mut o, &w.sg, &w.g)) } });
        op!("rlwe_encode_encrypt_public", |w| { match &w.rpk { None => vec![], Some(pk) => into!(w, GlweCiphertext::<S>::new(&w.g), |o| { rlwe_encode_encrypt_public(&mut o, &w.p, pk, &PlaintextBits(3), &w.g); }) } });
        op!("rlwe_encrypt_public", |w| { match &w.rpk { None => vec![], Some(pk) => into!(w, GlweCiphertext::<S>::new(&w.g), |o| { rlwe_encrypt_public(&mut o, &w.q, pk, &w.g); }) } });
        op!("encrypt_ggsw_ciphertext", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| encrypt_ggsw_ciphertext(&mut o, &w.bits, &w.sg, &w.g, &w.r, P1)) });
        op!("encrypt_ggsw_ciphertext_scalar", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| encrypt_ggsw_ciphertext_scalar(&mut o, S::from_u64(1), &w.sg, &w.g, &w.r, P1)) });
        op!("trivially_encrypt_ggsw_ciphertext", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| trivially_encrypt_ggsw_ciphertext(&mut o, &w.bits, &w.g, &w.r, P1)) });
        op!("decrypt_ggsw_ciphertext", |w| { into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| decrypt_ggsw_ciphertext(&mut o, &w.ggsw, &w.sg, &w.g, &w.r)) });
        op!("GLWE secret key encrypt and decrypt", |w| {
            let c = w.sg.encode_encrypt_glwe(&w.p, &w.g, PlaintextBits(3));
            let mut v = raw(&*c).to_vec();
            v.extend(raw(&*w.sg.decrypt_decode_glwe(&c, &w.g, PlaintextBits(3))));
            v.extend(raw(&*w.sg.encode_encrypt_ggsw(&w.bits, &w.g, &w.r, P1)));
            v
        });
        // keys
        op!("generate_bootstrap_key", |w| { into!(w, BootstrapKey::<S>::new(&w.l, &w.g, &w.r), |o| generate_bootstrap_key(&mut o, &w.sl, &w.sg, &w.l, &w.g, &w.r)) });
        op!("generate_keyswitch_key_lwe", |w| { into!(w, LweKeyswitchKey::<S>::new(&w.big, &w.l, &w.r), |o| generate_keyswitch_key_lwe(&mut o, &w.big_sk, &w.sl, &w.big, &w.l, &w.r)) });
        op!("generate_keyswitch_key_glwe", |w| { into!(w, GlweKeyswitchKey::<S>::new(&w.g, &w.r), |o| generate_keyswitch_key_glwe(&mut o, &w.sg, &w.sg2, &w.g, &w.r)) });
        op!("generate_scheme_switch_key", |w| { into!(w, SchemeSwitchKey::<S>::new(&w.g, &w.r2), |o| generate_scheme_switch_key(&mut o, &w.sg, &w.g, &w.r2)) });
        op!("generate_automorphism_key", |w| { into!(w, AutomorphismKey::<S>::new(&w.g, &w.r2), |o| generate_automorphism_key(&mut o, &w.sg, &w.g, &w.r2)) });
        op!("generate_circuit_bootstrapping_pfks_keys", |w| { into!(w, CircuitBootstrappingKeyswitchKeys::<S>::new(&w.l, &w.g, &w.r), |o| pf::generate_circuit_bootstrapping_pfks_keys(&mut o, &w.sl, &w.sg, &w.l, &w.g, &w.r)) });
        op!("generate_private_functional_keyswitch_key", |w| { into!(w, PrivateFunctionalKeyswitchKey::<S>::new(&w.l, &w.g, &w.r, &TWO), |o| pf::generate_private_functional_keyswitch_key(&mut o, &w.sl, &w.sg, pmap, &w.l, &w.g, &w.r, &TWO)) });
        op!("generate_public_functional_keyswitch_key", |w| { into!(w, PublicFunctionalKeyswitchKey::<S>::new(&w.l, &w.g, &w.r), |o| pu::generate_public_functional_keyswitch_key(&mut o, &w.sl, &w.sg, &w.l, &w.g, &w.r)) });
        op!("generate_blind_rotation_shift", |w| { intof!(w, BlindRotationShiftFft::<C>::new(&w.g, &w.r), |o| generate_blind_rotation_shift::<S>(&mut o, 6, &w.sg, &w.g, &w.r, P1)) });
        // transforms
        op!("polynomial fft", |w| { intof!(w, PolynomialFft::new(&vec![C::default(); w.p.len() / 2]), |o| w.q.fft(&mut o)) });
        op!("polynomial ifft", |w| {
            let f = PolynomialFft::new(&w.ggsw_fft.rows(&w.g, &w.r).next().unwrap().glwe_ciphertexts(&w.g).next().unwrap().b(&w.g).coeffs().to_vec());
            into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| f.ifft(&mut *o))
        });
        op!("GLWE fft", |w| { intof!(w, GlweCiphertextFft::<C>::new(&w.g), |o| w.x.fft(&mut o, &w.g)) });
        op!("GGSW fft", |w| { intof!(w, GgswCiphertextFft::<C>::new(&w.g, &w.r), |o| w.ggsw.fft(&mut o, &w.g, &w.r)) });
        op!("GGSW ifft", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| w.ggsw_fft.ifft(&mut o, &w.g, &w.r)) });
        op!("bootstrap key ifft", |w| { into!(w, BootstrapKey::<S>::new(&w.l, &w.g, &w.r), |o| w.bsk.ifft(&mut o, &w.g, &w.r)) });
        op!("GLWE keyswitch key fft", |w| { intof!(w, GlweKeyswitchKeyFft::<C>::new(&w.g, &w.r), |o| w.gksk.fft(&mut o, &w.g, &w.r)) });
        op!("scheme switch key fft", |w| { intof!(w, SchemeSwitchKeyFft::<C>::new(&w.g, &w.r2), |o| w.ssk.fft(&mut o, &w.g, &w.r2)) });
        op!("automorphism key fft", |w| { intof!(w, AutomorphismKeyFft::<C>::new(&w.g, &w.r2), |o| w.ak.fft(&mut o, &w.g, &w.r2)) });
        // ciphertext arithmetic, exact
        op!("sample_extract", |w| { into!(w, LweCiphertext::<S>::new(&w.big), |o| nofft::sample_extract(&mut o, &w.x, 3, &w.g)) });
        op!("add_glwe_ciphertexts", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| nofft::add_glwe_ciphertexts(&mut o, &w.x, &w.y, &w.g)) });
        op!("sub_glwe_ciphertexts", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| nofft::sub_glwe_ciphertexts(&mut o, &w.x, &w.y, &w.g)) });
        op!("glwe_add_assign and glwe_negate_inplace", |w| { acc!(w, w.x.clone(), |o| { nofft::glwe_add_assign(&mut o, &w.y, &w.g); nofft::glwe_negate_inplace(&mut o, &w.g) }) });
        op!("glwe_polynomial_mad", |w| { acc!(w, w.x.clone(), |o| nofft::glwe_polynomial_mad(&mut o, &w.y, &w.p, &w.g)) });
        op!("glwe_scalar_mad", |w| { acc!(w, w.x.clone(), |o| nofft::glwe_scalar_mad(&mut o, &w.y, S::from_u64(77), &w.g)) });
        op!("glwe_ggsw_mad", |w| { acc!(w, w.x.clone(), |o| nofft::glwe_ggsw_mad(&mut o, &w.y, &w.ggsw, &w.g, &w.r)) });
        op!("external_product_ggsw_glwe", |w| { raw(&*nofft::external_product_ggsw_glwe(&w.ggsw, &w.y, &w.g, &w.r)).to_vec() });
        op!("glwe_mod_switch_and_expand_pow_2", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| nofft::glwe_mod_switch_and_expand_pow_2(&mut o, &w.x, &w.g, 20)) });
        op!("glwe_rotate", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| nofft::glwe_rotate(&mut o, &w.x, t(0x1234567), &w.g)) });
        op!("decomposed_polynomial_glev_mad", |w| {
            let mut scratch = Polynomial::<S>::zero(w.p.len());
            let it = PolynomialRadixIterator::new(&w.q, &mut scratch, &w.r);
            acc!(w, w.x.clone(), |o| nofft::decomposed_polynomial_glev_mad(&mut o, it, &w.glev, &w.g))
        });
        op!("decomposed_scalar_glev_mad", |w| { acc!(w, w.x.clone(), |o| nofft::decomposed_scalar_glev_mad(&mut o, ScalarRadixIterator::new(t(0x89ABCDEF12345678), &w.r), &w.glev, &w.g)) });
        op!("decomposed_scalar_lev_mad", |w| {
            let mut scratch = Polynomial::<S>::zero(1);
            let a = tp::<S>(&[0x89ABCDEF12345678 & mask(std::mem::size_of::<S>() as u32 * 8)]);
            let it = PolynomialRadixIterator::new(&a, &mut scratch, &w.r);
            acc!(w, w.lwe.clone(), |o| nofft::decomposed_scalar_lev_mad(&mut o, it, w.ksk.rows(&w.l, &w.r).next().unwrap(), &w.l))
        });
        op!("add_lwe_inplace", |w| { acc!(w, w.lwe.clone(), |o| nofft::add_lwe_inplace(&mut o, &w.lwe2, &w.l)) });
        op!("lwe_ciphertext_modulus_switch", |w| { acc!(w, w.lwe.clone(), |o| nofft::lwe_ciphertext_modulus_switch(&mut o, 0, 0, 5, &w.l)) });
        op!("lwe_rotate", |w| { into!(w, LweCiphertext::<S>::new(&w.l), |o| hom::lwe_rotate(&mut o, &w.lwe, t(99), &w.l)) });
        // polynomials
        op!("encode and decode polynomial", |w| {
            let mut v = into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| poly::encode_polynomial(&mut o, &w.p, PlaintextBits(3)));
            v.extend(into!(w, Polynomial::<S>::zero(w.p.len()), |o| poly::decode_polynomial(&mut o, &w.q, PlaintextBits(3))));
            v
        });
        op!("polynomial_pow_k and polynomial_shr_round", |w| {
            let mut v = into!(w, Polynomial::<S>::zero(w.p.len()), |o| poly::polynomial_pow_k::<S, S>(&mut o, &w.p, 5));
            v.extend(into!(w, Polynomial::<S>::zero(w.p.len()), |o| poly::polynomial_shr_round(&mut o, &w.p, 2)));
            v
        });
        op!("polynomial arithmetic", |w| {
            let mut v = acc!(w, w.q.clone(), |o| mpoly::polynomial_external_mad(&mut o, &w.q, &w.p));
            v.extend(into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| mpoly::polynomial_add(&mut o, &w.q, &w.q)));
            v.extend(into!(w, Polynomial::<Torus<S>>::zero(w.p.len()), |o| mpoly::polynomial_sub(&mut o, &w.q, &w.q)));
            v
        });
        // through the transform
        op!("fft cmux", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| fft_ops::cmux(&mut o, &w.x, &w.y, &w.ggsw_fft, &w.g, &w.r)) });
        op!("fft glev_cmux", |w| { into!(w, GlevCiphertext::<S>::new(&w.g, &w.r), |o| fft_ops::glev_cmux(&mut o, &w.glev, &w.glev2, &w.ggsw_fft, &w.g, &w.r)) });
        op!("fft glwe_ggsw_mad", |w| { acc!(w, GlweCiphertextFft::<C>::new(&w.g), |o| fft_ops::glwe_ggsw_mad(&mut o, &w.x, &w.ggsw_fft, &w.g, &w.r)) });
        op!("fft glwe_polynomial_mad", |w| {
            let (mut a, mut b) = (GlweCiphertextFft::<C>::new(&w.g), PolynomialFft::new(&vec![C::default(); w.p.len() / 2]));
            w.x.fft(&mut a, &w.g);
            w.p.fft(&mut b);
            acc!(w, GlweCiphertextFft::<C>::new(&w.g), |o| fft_ops::glwe_polynomial_mad(&mut o, &a, &b, &w.g))
        });
        op!("fft decomposed_polynomial_glev_mad", |w| {
            let mut scratch = Polynomial::<S>::zero(w.p.len());
            let it = PolynomialRadixIterator::new(&w.q, &mut scratch, &w.r);
            acc!(w, GlweCiphertextFft::<C>::new(&w.g), |o| fft_ops::decomposed_polynomial_glev_mad(&mut o, it, w.ggsw_fft.rows(&w.g, &w.r).next().unwrap(), &w.g))
        });
        op!("scheme_switch", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| scheme_switch(&mut o, &w.glev, &w.ssk, &w.g, &w.r, &w.r2)) });
        op!("scheme_switch_fft", |w| { intof!(w, GgswCiphertextFft::<C>::new(&w.g, &w.r), |o| fft_ops::scheme_switch_fft(&mut o, &w.glev, &w.ssk_fft, &w.g, &w.r, &w.r2)) });
        op!("fft keyswitch_glwe_to_glwe", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| fft_ops::keyswitch_glwe_to_glwe(&mut o, &w.x, &w.gksk_fft, &w.g, &w.r)) });
        op!("keyswitch_glwe_to_glwe", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| glwe_keyswitch::keyswitch_glwe_to_glwe(&mut o, &w.x, &w.gksk, &w.g, &w.r)) });
        op!("keyswitch_lwe_to_lwe", |w| { into!(w, LweCiphertext::<S>::new(&w.l), |o| lwe_keyswitch::keyswitch_lwe_to_lwe(&mut o, &w.big_lwe, &w.ksk, &w.big, &w.l, &w.r)) });
        op!("private_functional_keyswitch", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| pf::private_functional_keyswitch(&mut o, &[&*w.lwe, &*w.lwe2], &w.pfk, &w.l, &w.g, &w.r, &TWO)) });
        op!("public_functional_keyswitch", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| pu::public_functional_keyswitch(&mut o, &[&*w.lwe, &*w.lwe2], &w.puk, pmap, &w.l, &w.g, &w.r)) });
        op!("trace", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| trace(&mut o, &w.x, &w.ak_fft, &w.g, &w.r2)) });
        op!("rotate_glwe_monomial_negacyclic", |w| {
            let mut v = into!(w, GlweCiphertext::<S>::new(&w.g), |o| rotate_glwe_monomial_negacyclic(&mut o, &w.x, -3, &w.g));
            v.extend(into!(w, GlweCiphertext::<S>::new(&w.g), |o| rotate_glwe_negative_monomial_negacyclic(&mut o, &w.x, 21, &w.g)));
            v.extend(into!(w, GlweCiphertext::<S>::new(&w.g), |o| rotate_glwe_positive_monomial_negacyclic(&mut o, &w.x, 7, &w.g)));
            v
        });
        op!("blind_rotation", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| blind_rotation(&mut o, &w.shift, &w.x, &w.g, &w.r)) });
        // bootstrapping
        op!("univariate lookup table", |w| {
            let mut v = into!(w, UnivariateLookupTable::<S>::trivial_from_fn(|x| x, &w.g, P1), |o| o.fill_trivial_from_fns(&[|x: u64| x ^ 1, |x: u64| (x + 1) & 3], &w.g, PlaintextBits(2)));
            v.extend(into!(w, UnivariateLookupTable::<S>::trivial_from_fn(|x| x, &w.g, P1), |o| o.fill_with_constant(S::from_u64(1), &w.g, PlaintextBits(2))));
            v.extend(raw(&*UnivariateLookupTable::<S>::trivivial_multifunctional(&[|x: u64| x, |x: u64| x ^ 1], &w.g, PlaintextBits(2))));
            v
        });
        op!("bivariate lookup table", |w| {
            let mut v = into!(w, BivariateLookupTable::<S>::trivial_from_fn(|x, _| x, &w.g, P1, CarryBits(1)), |o| o.fill_trivial_from_fn(|x, y| x ^ y, &w.g, P1, CarryBits(1)));
            v.extend(into!(w, BivariateLookupTable::<S>::trivial_from_fn(|x, _| x, &w.g, P1, CarryBits(1)), |o| o.fill_with_constant(S::from_u64(1), &w.g, PlaintextBits(2))));
            v
        });
        op!("programmable_bootstrap_univariate", |w| { into!(w, LweCiphertext::<S>::new(&w.big), |o| programmable_bootstrap_univariate(&mut o, &w.lwe, &w.lut, &w.bsk, &w.l, &w.g, &w.r)) });
        op!("generalized_programmable_bootstrap", |w| { into!(w, GlweCiphertext::<S>::new(&w.g), |o| generalized_programmable_bootstrap(&mut o, &w.lwe, &w.lut, &w.bsk, 0, 1, &w.l, &w.g, &w.r)) });
        op!("programmable_bootstrap_bivariate", |w| { into!(w, LweCiphertext::<S>::new(&w.big), |o| programmable_bootstrap_bivariate(&mut o, &w.lwe, &w.lwe2, &w.lut2, &w.bsk, &w.l, &w.g, P1, &w.r)) });
        op!("circuit_bootstrap_via_pfks", |w| { into!(w, GgswCiphertext::<S>::new(&w.g, &w.r), |o| circuit_bootstrap_via_pfks(&mut o, &w.lwe, &w.bsk, &w.cbs, &w.l, &w.g, &w.g, &w.r, &w.r, &w.r2)) });
        op!("circuit_bootstrap_via_trace_and_scheme_switch", |w| { intof!(w, GgswCiphertextFft::<C>::new(&w.g, &w.r), |o| circuit_bootstrap_via_trace_and_scheme_switch(&mut o, &w.lwe, &w.bsk, &w.ak_fft, &w.ssk_fft, &w.l, &w.g, &w.r, &w.r2, &w.r2, &w.r)) });
        let _ = at;
    }
}
