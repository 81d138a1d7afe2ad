//! T14: operands that do not fit the stated parameters are refused, never used.
//!
//! Every function is described by the parameters it takes (LWE, GLWE, radix) and its operands, each with the
//! size the parameters prescribe. All parameter assignments that differ from a valid base in at most two
//! places (valid and invalid alternatives) are combined with all operand sizes that differ from the
//! prescribed ones in at most one place (thorough: two). A call must return exactly when the parameters are
//! valid and every operand has the prescribed size; otherwise it must panic.
use crate::u::*;
use mc::{ensure, Ck, Cx, R};
use num::Complex;
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption as he, evaluation as ev, fft as hf, keygen as hk},
    ops::{
        automorphisms as oa, bootstrapping as ob, ciphertext as oc, encryption as oe, fft_ops as of, homomorphisms as oh,
        keyswitch::{
            glwe_keyswitch as ogk, glwe_keyswitch_key as ogkk, lwe_keyswitch as olk, lwe_keyswitch_key as olkk,
            private_functional_keyswitch as opr, public_functional_keyswitch as opu,
        },
        polynomial as op,
    },
    CarryBits, GlweDef, LweDef, LweDimension, OverlaySize, PlaintextBits, PolynomialDegree, PrivateFunctionalKeyswitchLweCount,
    RadixDecomposition, Torus,
};

type C = Complex<f64>;

#[derive(Clone)]
struct P {
    l: Vec<LweDef>,
    g: Vec<GlweDef>,
    r: Vec<RadixDecomposition>,
}

/// An operand: zeroed memory of a chosen number of elements, aligned as the library aligns its own.
struct Buf {
    mem: Vec<[u64; 8]>,
    len: usize,
}
impl Buf {
    fn new(len: usize) -> Self {
        Buf { mem: vec![[0u64; 8]; len / 4 + 2], len }
    }
    fn base(&self) -> *mut u64 {
        let p = self.mem.as_ptr() as usize;
        ((p + 63) & !63) as *mut u64
    }
}
// The entities are transparent wrappers of slices of words or of complex numbers.
macro_rules! w { ($t:ident, $b:expr) => { unsafe { &mut *(std::ptr::slice_from_raw_parts_mut($b.base(), $b.len) as *mut $t<u64>) } }; }
macro_rules! tw { ($t:ident, $b:expr) => { unsafe { &mut *(std::ptr::slice_from_raw_parts_mut($b.base() as *mut Torus<u64>, $b.len) as *mut $t<Torus<u64>>) } }; }
macro_rules! c { ($t:ident, $b:expr) => { unsafe { &mut *(std::ptr::slice_from_raw_parts_mut($b.base() as *mut C, $b.len) as *mut $t<C>) } }; }
macro_rules! sz { ($t:ident, $x:expr) => { <$t<u64> as OverlaySize>::size($x) }; }
macro_rules! szc { ($t:ident, $x:expr) => { <$t<C> as OverlaySize>::size($x) }; }

struct Row {
    name: &'static str,
    n: (usize, usize, usize),
    /// Only size-one GLWE parameters are valid.
    one: bool,
    ents: Vec<(&'static str, fn(&P) -> usize)>,
    run: fn(&P, &[Buf]),
}

fn sk(p: &P, i: usize) -> usize { sz!(GlweSecretKeyRef, p.g[i].dim) }
fn ls(p: &P, i: usize) -> usize { sz!(LweSecretKeyRef, p.l[i].dim) }
fn lc(p: &P, i: usize) -> usize { sz!(LweCiphertextRef, p.l[i].dim) }
fn gc(p: &P, i: usize) -> usize { sz!(GlweCiphertextRef, p.g[i].dim) }
fn gf(p: &P, i: usize) -> usize { szc!(GlweCiphertextFftRef, p.g[i].dim) }
fn po(p: &P, i: usize) -> usize { p.g[i].dim.polynomial_degree.0 }
fn gv(p: &P, g: usize, r: usize) -> usize { sz!(GlevCiphertextRef, (p.g[g].dim, p.r[r].count)) }
fn gw(p: &P, g: usize, r: usize) -> usize { sz!(GgswCiphertextRef, (p.g[g].dim, p.r[r].count)) }
fn gwf(p: &P, g: usize, r: usize) -> usize { szc!(GgswCiphertextFftRef, (p.g[g].dim, p.r[r].count)) }
fn flat(g: &GlweDef) -> LweDimension { LweDimension(g.dim.polynomial_degree.0 * g.dim.size.0) }
fn as_lwe(g: &GlweDef) -> LweDef { LweDef { dim: flat(g), std: g.std } }
fn bsk(p: &P, l: usize, g: usize, r: usize) -> usize { sz!(BootstrapKeyRef, (p.l[l].dim, p.g[g].dim, p.r[r].count)) }
fn bskf(p: &P, l: usize, g: usize, r: usize) -> usize { szc!(BootstrapKeyFftRef, (p.l[l].dim, p.g[g].dim, p.r[r].count)) }
fn ssk(p: &P, g: usize, r: usize) -> usize { sz!(SchemeSwitchKeyRef, (p.g[g].dim, p.r[r].count)) }
fn sskf(p: &P, g: usize, r: usize) -> usize { szc!(SchemeSwitchKeyFftRef, (p.g[g].dim, p.r[r].count)) }
fn log2(p: &P, g: usize) -> usize { p.g[g].dim.polynomial_degree.0.max(1).ilog2() as usize }
fn gk(p: &P, g: usize, r: usize) -> usize { sz!(GlweKeyswitchKeyRef, (p.g[g].dim, p.r[r].count)) }
fn gkf(p: &P, g: usize, r: usize) -> usize { szc!(GlweKeyswitchKeyFftRef, (p.g[g].dim, p.r[r].count)) }
fn ak(p: &P, g: usize, r: usize) -> usize { gk(p, g, r) * log2(p, g) }
fn akf(p: &P, g: usize, r: usize) -> usize { gkf(p, g, r) * log2(p, g) }
fn ksk(p: &P, a: usize, b: usize, r: usize) -> usize { sz!(LweKeyswitchKeyRef, (p.l[a].dim, p.l[b].dim, p.r[r].count)) }
fn pufk(p: &P) -> usize { sz!(PublicFunctionalKeyswitchKeyRef, (p.l[0].dim, p.g[0].dim, p.r[0].count)) }
fn prfk(p: &P) -> usize { sz!(PrivateFunctionalKeyswitchKeyRef, (p.l[0].dim, p.g[0].dim, p.r[0].count, PrivateFunctionalKeyswitchLweCount(1))) }
fn cbk(p: &P) -> usize { sz!(CircuitBootstrappingKeyswitchKeysRef, (p.l[0].dim, p.g[0].dim, p.r[0].count)) }
const B: PlaintextBits = PlaintextBits(2);

/// Every bit of every operand is irrelevant here, so results are dropped.
fn d<T>(_: T) {}

macro_rules! rows {
    ($($name:literal ($nl:expr, $ng:expr, $nr:expr) $one:expr, [$($e:literal $f:expr),* $(,)?], |$p:pat_param, $b:pat_param| $run:expr;)*) => {
        vec![$(Row { name: $name, n: ($nl, $ng, $nr), one: $one, ents: vec![$(($e, $f)),*], run: |$p, $b| $run }),*]
    };
}

fn table() -> Vec<Row> {
    let mut v = rows! {
        // keys
        "keygen::generate_binary_lwe_sk" (1,0,0) false, [], |p, _| d(hk::generate_binary_lwe_sk(&p.l[0]));
        "keygen::generate_uniform_lwe_sk" (1,0,0) false, [], |p, _| d(hk::generate_uniform_lwe_sk(&p.l[0]));
        "keygen::generate_lwe_pk" (1,0,0) false, ["sk" |p| ls(p,0)], |p, b| d(hk::generate_lwe_pk(w!(LweSecretKeyRef, b[0]), &p.l[0]));
        "keygen::generate_binary_glwe_sk" (0,1,0) false, [], |p, _| d(hk::generate_binary_glwe_sk(&p.g[0]));
        "keygen::generate_uniform_glwe_sk" (0,1,0) false, [], |p, _| d(hk::generate_uniform_glwe_sk(&p.g[0]));
        "keygen::generate_bootstrapping_key" (1,1,1) false, ["sk" |p| ls(p,0), "glwe_key" |p| sk(p,0)],
            |p, b| d(hk::generate_bootstrapping_key(w!(LweSecretKeyRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.l[0], &p.g[0], &p.r[0]));
        "keygen::generate_ksk" (2,0,1) false, ["from_sk" |p| ls(p,0), "to_sk" |p| ls(p,1)],
            |p, b| d(hk::generate_ksk(w!(LweSecretKeyRef, b[0]), w!(LweSecretKeyRef, b[1]), &p.l[0], &p.l[1], &p.r[0]));
        "keygen::generate_cbs_ksk" (1,1,1) false, ["from_sk" |p| ls(p,0), "to_sk" |p| sk(p,0)],
            |p, b| d(hk::generate_cbs_ksk(w!(LweSecretKeyRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.l[0], &p.g[0], &p.r[0]));
        "keygen::generate_scheme_switch_key" (0,1,1) false, ["sk" |p| sk(p,0)],
            |p, b| d(hk::generate_scheme_switch_key(w!(GlweSecretKeyRef, b[0]), &p.g[0], &p.r[0]));
        "keygen::generate_automorphism_key" (0,1,1) false, ["sk" |p| sk(p,0)],
            |p, b| d(hk::generate_automorphism_key(w!(GlweSecretKeyRef, b[0]), &p.g[0], &p.r[0]));
        // encryption
        "encryption::encrypt_lwe_secret" (1,0,0) false, ["sk" |p| ls(p,0)], |p, b| d(he::encrypt_lwe_secret(1, w!(LweSecretKeyRef, b[0]), &p.l[0], B));
        "encryption::encrypt_lwe_secret_and_return_randomness" (1,0,0) false, ["sk" |p| ls(p,0)],
            |p, b| d(he::encrypt_lwe_secret_and_return_randomness(1, w!(LweSecretKeyRef, b[0]), &p.l[0], B));
        "encryption::encrypt_lwe" (1,0,0) false, ["pk" |p| sz!(LwePublicKeyRef, p.l[0].dim)], |p, b| d(he::encrypt_lwe(1, w!(LwePublicKeyRef, b[0]), &p.l[0], B));
        "encryption::encrypt_lwe_and_return_randomness" (1,0,0) false, ["pk" |p| sz!(LwePublicKeyRef, p.l[0].dim)],
            |p, b| d(he::encrypt_lwe_and_return_randomness(1, w!(LwePublicKeyRef, b[0]), &p.l[0], B));
        "encryption::encrypt_glwe" (0,1,0) false, ["pt" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| d(he::encrypt_glwe(w!(PolynomialRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], B));
        "encryption::trivial_lwe" (1,0,0) false, [], |p, _| d(he::trivial_lwe(1, &p.l[0], B));
        "encryption::decrypt_lwe" (1,0,0) false, ["ct" |p| lc(p,0), "sk" |p| ls(p,0)],
            |p, b| d(he::decrypt_lwe(w!(LweCiphertextRef, b[0]), w!(LweSecretKeyRef, b[1]), &p.l[0], B));
        "encryption::decrypt_lwe_with_carry" (1,0,0) false, ["ct" |p| lc(p,0), "sk" |p| ls(p,0)],
            |p, b| d(he::decrypt_lwe_with_carry(w!(LweCiphertextRef, b[0]), w!(LweSecretKeyRef, b[1]), &p.l[0], B, CarryBits(1)));
        "encryption::decrypt_glwe" (0,1,0) false, ["ct" |p| gc(p,0), "sk" |p| sk(p,0)],
            |p, b| d(he::decrypt_glwe(w!(GlweCiphertextRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], B));
        "encryption::trivial_glwe" (0,1,0) false, ["pt" |p| po(p,0)], |p, b| d(he::trivial_glwe(w!(PolynomialRef, b[0]), &p.g[0], B));
        "encryption::encrypt_ggsw" (0,1,1) false, ["sk" |p| sk(p,0)], |p, b| d(he::encrypt_ggsw(1, w!(GlweSecretKeyRef, b[0]), &p.g[0], &p.r[0], PlaintextBits(1)));
        "encryption::decrypt_ggsw" (0,1,1) false, ["ct" |p| gw(p,0,0), "sk" |p| sk(p,0)],
            |p, b| d(he::decrypt_ggsw(w!(GgswCiphertextRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], &p.r[0], PlaintextBits(1)));
        "encryption::encrypt_binary_msg_secret_glev" (0,1,1) false, ["msg" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| d(he::encrypt_binary_msg_secret_glev(w!(PolynomialRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], &p.r[0]));
        "encryption::trivial_binary_glev" (0,1,1) false, ["msg" |p| po(p,0)], |p, b| d(he::trivial_binary_glev(w!(PolynomialRef, b[0]), &p.g[0], &p.r[0]));
        "encryption::encrypt_binary_msg_rlev" (0,1,1) true, ["msg" |p| po(p,0), "pk" |p| sz!(RlwePublicKeyRef, p.g[0].dim)],
            |p, b| d(he::encrypt_binary_msg_rlev(w!(PolynomialRef, b[0]), w!(RlwePublicKeyRef, b[1]), &p.g[0], &p.r[0]));
        // transforms
        "fft::fft_glwe" (0,1,0) false, ["ct" |p| gc(p,0)], |p, b| d(hf::fft_glwe(w!(GlweCiphertextRef, b[0]), &p.g[0]));
        "fft::fft_ggsw" (0,1,1) false, ["ggsw" |p| gw(p,0,0)], |p, b| d(hf::fft_ggsw(w!(GgswCiphertextRef, b[0]), &p.g[0], &p.r[0]));
        "fft::fft_bootstrap_key" (1,1,1) false, ["bsk" |p| bsk(p,0,0,0)], |p, b| d(hf::fft_bootstrap_key(w!(BootstrapKeyRef, b[0]), &p.l[0], &p.g[0], &p.r[0]));
        "fft::fft_scheme_switch_key" (0,1,1) false, ["ssk" |p| ssk(p,0,0)], |p, b| d(hf::fft_scheme_switch_key(w!(SchemeSwitchKeyRef, b[0]), &p.g[0], &p.r[0]));
        "fft::fft_automorphism_key" (0,1,1) false, ["ak" |p| ak(p,0,0)], |p, b| d(hf::fft_automorphism_key(w!(AutomorphismKeyRef, b[0]), &p.g[0], &p.r[0]));
        // evaluation
        "evaluation::cmux" (0,1,1) false, ["b_fft" |p| gwf(p,0,0), "d_0" |p| gc(p,0), "d_1" |p| gc(p,0)],
            |p, b| d(ev::cmux(c!(GgswCiphertextFftRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(GlweCiphertextRef, b[2]), &p.g[0], &p.r[0]));
        "evaluation::glev_cmux" (0,1,1) false, ["b_fft" |p| gwf(p,0,0), "d_0" |p| gv(p,0,0), "d_1" |p| gv(p,0,0)],
            |p, b| d(ev::glev_cmux(c!(GgswCiphertextFftRef, b[0]), w!(GlevCiphertextRef, b[1]), w!(GlevCiphertextRef, b[2]), &p.g[0], &p.r[0]));
        "evaluation::keyswitch_lwe_to_lwe" (2,0,1) false, ["ct" |p| lc(p,0), "ksk" |p| ksk(p,0,1,0)],
            |p, b| d(ev::keyswitch_lwe_to_lwe(w!(LweCiphertextRef, b[0]), w!(LweKeyswitchKeyRef, b[1]), &p.l[0], &p.l[1], &p.r[0]));
        "evaluation::sample_extract" (0,1,0) false, ["ct" |p| gc(p,0)], |p, b| d(ev::sample_extract(w!(GlweCiphertextRef, b[0]), &p.g[0], 0));
        // operations: keys
        "generate_bootstrap_key" (1,1,1) false, ["out" |p| bsk(p,0,0,0), "sk_to_encrypt" |p| ls(p,0), "sk" |p| sk(p,0)],
            |p, b| ob::generate_bootstrap_key(w!(BootstrapKeyRef, b[0]), w!(LweSecretKeyRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.l[0], &p.g[0], &p.r[0]);
        "generate_scheme_switch_key" (0,1,1) false, ["out" |p| ssk(p,0,0), "sk" |p| sk(p,0)],
            |p, b| ob::generate_scheme_switch_key(w!(SchemeSwitchKeyRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], &p.r[0]);
        "generate_automorphism_key" (0,1,1) false, ["out" |p| ak(p,0,0), "sk" |p| sk(p,0)],
            |p, b| oa::generate_automorphism_key(w!(AutomorphismKeyRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0], &p.r[0]);
        "generate_keyswitch_key_lwe" (2,0,1) false, ["out" |p| ksk(p,0,1,0), "from" |p| ls(p,0), "to" |p| ls(p,1)],
            |p, b| olkk::generate_keyswitch_key_lwe(w!(LweKeyswitchKeyRef, b[0]), w!(LweSecretKeyRef, b[1]), w!(LweSecretKeyRef, b[2]), &p.l[0], &p.l[1], &p.r[0]);
        "generate_public_functional_keyswitch_key" (1,1,1) false, ["out" |p| pufk(p), "from" |p| ls(p,0), "to" |p| sk(p,0)],
            |p, b| opu::generate_public_functional_keyswitch_key(w!(PublicFunctionalKeyswitchKeyRef, b[0]), w!(LweSecretKeyRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.l[0], &p.g[0], &p.r[0]);
        "generate_private_functional_keyswitch_key" (1,1,1) false, ["out" |p| prfk(p), "from" |p| ls(p,0), "to" |p| sk(p,0)],
            |p, b| opr::generate_private_functional_keyswitch_key(w!(PrivateFunctionalKeyswitchKeyRef, b[0]), w!(LweSecretKeyRef, b[1]), w!(GlweSecretKeyRef, b[2]), |_, _| {}, &p.l[0], &p.g[0], &p.r[0], &PrivateFunctionalKeyswitchLweCount(1));
        "generate_circuit_bootstrapping_pfks_keys" (1,1,1) false, ["out" |p| cbk(p), "from" |p| ls(p,0), "to" |p| sk(p,0)],
            |p, b| opr::generate_circuit_bootstrapping_pfks_keys(w!(CircuitBootstrappingKeyswitchKeysRef, b[0]), w!(LweSecretKeyRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.l[0], &p.g[0], &p.r[0]);
        "rlwe_generate_public_key" (0,1,0) true, ["out" |p| sz!(RlwePublicKeyRef, p.g[0].dim), "sk" |p| sk(p,0)],
            |p, b| oe::rlwe_generate_public_key(w!(RlwePublicKeyRef, b[0]), w!(GlweSecretKeyRef, b[1]), &p.g[0]);
        // operations: encryption
        "encrypt_glwe_ciphertext_secret" (0,1,0) false, ["c" |p| gc(p,0), "msg" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| oe::encrypt_glwe_ciphertext_secret(w!(GlweCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0]);
        "trivially_encrypt_glwe_ciphertext" (0,1,0) false, ["c" |p| gc(p,0), "msg" |p| po(p,0)],
            |p, b| oe::trivially_encrypt_glwe_ciphertext(w!(GlweCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), &p.g[0]);
        "decrypt_glwe_ciphertext" (0,1,0) false, ["msg" |p| po(p,0), "ct" |p| gc(p,0), "sk" |p| sk(p,0)],
            |p, b| oe::decrypt_glwe_ciphertext(tw!(PolynomialRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0]);
        "encrypt_secret_glev_ciphertext" (0,1,1) false, ["ct" |p| gv(p,0,0), "msg" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| oe::encrypt_secret_glev_ciphertext(w!(GlevCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0], &p.r[0]);
        "trivially_encrypt_glev_ciphertext" (0,1,1) false, ["ct" |p| gv(p,0,0), "msg" |p| po(p,0)],
            |p, b| oe::trivially_encrypt_glev_ciphertext(w!(GlevCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), &p.g[0], &p.r[0]);
        "encrypt_rlev_ciphertext" (0,1,1) true, ["ct" |p| gv(p,0,0), "msg" |p| po(p,0), "pk" |p| sz!(RlwePublicKeyRef, p.g[0].dim)],
            |p, b| oe::encrypt_rlev_ciphertext(w!(GlevCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), w!(RlwePublicKeyRef, b[2]), &p.g[0], &p.r[0]);
        "decrypt_glev_ciphertext" (0,1,1) false, ["msg" |p| po(p,0), "ct" |p| gv(p,0,0), "sk" |p| sk(p,0)],
            |p, b| oe::decrypt_glev_ciphertext(tw!(PolynomialRef, b[0]), w!(GlevCiphertextRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0], &p.r[0]);
        "trivially_encrypt_lwe_ciphertext" (1,0,0) false, ["c" |p| lc(p,0)], |p, b| oe::trivially_encrypt_lwe_ciphertext(w!(LweCiphertextRef, b[0]), &Torus::from(1u64), &p.l[0]);
        "encrypt_lwe_ciphertext" (1,0,0) false, ["ct" |p| lc(p,0), "sk" |p| ls(p,0)],
            |p, b| d(oe::encrypt_lwe_ciphertext(w!(LweCiphertextRef, b[0]), w!(LweSecretKeyRef, b[1]), Torus::from(1u64), &p.l[0]));
        "encode_and_encrypt_lwe_ciphertext" (1,0,0) false, ["ct" |p| lc(p,0), "sk" |p| ls(p,0)],
            |p, b| d(oe::encode_and_encrypt_lwe_ciphertext(w!(LweCiphertextRef, b[0]), w!(LweSecretKeyRef, b[1]), 1u64, &p.l[0], B));
        "rlwe_encrypt_public" (0,1,0) true, ["ct" |p| gc(p,0), "msg" |p| po(p,0), "pk" |p| sz!(RlwePublicKeyRef, p.g[0].dim)],
            |p, b| d(oe::rlwe_encrypt_public(w!(GlweCiphertextRef, b[0]), tw!(PolynomialRef, b[1]), w!(RlwePublicKeyRef, b[2]), &p.g[0]));
        "encrypt_ggsw_ciphertext" (0,1,1) false, ["out" |p| gw(p,0,0), "msg" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| oe::encrypt_ggsw_ciphertext(w!(GgswCiphertextRef, b[0]), w!(PolynomialRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0], &p.r[0], PlaintextBits(1));
        "trivially_encrypt_ggsw_ciphertext" (0,1,1) false, ["out" |p| gw(p,0,0), "msg" |p| po(p,0)],
            |p, b| oe::trivially_encrypt_ggsw_ciphertext(w!(GgswCiphertextRef, b[0]), w!(PolynomialRef, b[1]), &p.g[0], &p.r[0], PlaintextBits(1));
        "encrypt_ggsw_ciphertext_scalar" (0,1,1) false, ["out" |p| gw(p,0,0), "sk" |p| sk(p,0)],
            |p, b| oe::encrypt_ggsw_ciphertext_scalar(w!(GgswCiphertextRef, b[0]), 1u64, w!(GlweSecretKeyRef, b[1]), &p.g[0], &p.r[0], PlaintextBits(1));
        "decrypt_ggsw_ciphertext" (0,1,1) false, ["msg" |p| po(p,0), "ggsw" |p| gw(p,0,0), "sk" |p| sk(p,0)],
            |p, b| oe::decrypt_ggsw_ciphertext(tw!(PolynomialRef, b[0]), w!(GgswCiphertextRef, b[1]), w!(GlweSecretKeyRef, b[2]), &p.g[0], &p.r[0]);
        // operations: linear
        "sample_extract" (0,1,0) false, ["out" |p| sz!(LweCiphertextRef, flat(&p.g[0])), "glwe" |p| gc(p,0)],
            |p, b| oc::sample_extract(w!(LweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), 0, &p.g[0]);
        "add_glwe_ciphertexts" (0,1,0) false, ["c" |p| gc(p,0), "a" |p| gc(p,0), "b" |p| gc(p,0)],
            |p, b| oc::add_glwe_ciphertexts(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(GlweCiphertextRef, b[2]), &p.g[0]);
        "glwe_add_assign" (0,1,0) false, ["c" |p| gc(p,0), "a" |p| gc(p,0)], |p, b| oc::glwe_add_assign(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), &p.g[0]);
        "sub_glwe_ciphertexts" (0,1,0) false, ["c" |p| gc(p,0), "a" |p| gc(p,0), "b" |p| gc(p,0)],
            |p, b| oc::sub_glwe_ciphertexts(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(GlweCiphertextRef, b[2]), &p.g[0]);
        "glwe_polynomial_mad" (0,1,0) false, ["c" |p| gc(p,0), "a" |p| gc(p,0), "b" |p| po(p,0)],
            |p, b| oc::glwe_polynomial_mad(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(PolynomialRef, b[2]), &p.g[0]);
        "lwe_rotate" (1,0,0) false, ["out" |p| lc(p,0), "in" |p| lc(p,0)],
            |p, b| oh::lwe_rotate(w!(LweCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), Torus::from(5u64), &p.l[0]);
        // operations: switching and bootstrapping
        "keyswitch_lwe_to_lwe" (2,0,1) false, ["out" |p| lc(p,1), "ct" |p| lc(p,0), "ksk" |p| ksk(p,0,1,0)],
            |p, b| olk::keyswitch_lwe_to_lwe(w!(LweCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), w!(LweKeyswitchKeyRef, b[2]), &p.l[0], &p.l[1], &p.r[0]);
        "private_functional_keyswitch" (1,1,1) false, ["out" |p| gc(p,0), "in" |p| lc(p,0), "key" |p| prfk(p)],
            |p, b| opr::private_functional_keyswitch(w!(GlweCiphertextRef, b[0]), &[w!(LweCiphertextRef, b[1])], w!(PrivateFunctionalKeyswitchKeyRef, b[2]), &p.l[0], &p.g[0], &p.r[0], &PrivateFunctionalKeyswitchLweCount(1));
        "public_functional_keyswitch" (1,1,1) false, ["out" |p| gc(p,0), "in" |p| lc(p,0), "key" |p| pufk(p)],
            |p, b| opu::public_functional_keyswitch(w!(GlweCiphertextRef, b[0]), &[w!(LweCiphertextRef, b[1])], w!(PublicFunctionalKeyswitchKeyRef, b[2]), |_, _| {}, &p.l[0], &p.g[0], &p.r[0]);
        "fft_ops::cmux" (0,1,1) false, ["c" |p| gc(p,0), "d_0" |p| gc(p,0), "d_1" |p| gc(p,0), "b_fft" |p| gwf(p,0,0)],
            |p, b| of::cmux(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), w!(GlweCiphertextRef, b[2]), c!(GgswCiphertextFftRef, b[3]), &p.g[0], &p.r[0]);
        "fft_ops::scheme_switch_fft" (0,1,2) false, ["out" |p| gwf(p,0,0), "glev" |p| gv(p,0,0), "ssk" |p| sskf(p,0,1)],
            |p, b| of::scheme_switch_fft(c!(GgswCiphertextFftRef, b[0]), w!(GlevCiphertextRef, b[1]), c!(SchemeSwitchKeyFftRef, b[2]), &p.g[0], &p.r[0], &p.r[1]);
        "scheme_switch" (0,1,2) false, ["out" |p| gw(p,0,0), "glev" |p| gv(p,0,0), "ssk" |p| ssk(p,0,1)],
            |p, b| ob::scheme_switch(w!(GgswCiphertextRef, b[0]), w!(GlevCiphertextRef, b[1]), w!(SchemeSwitchKeyRef, b[2]), &p.g[0], &p.r[0], &p.r[1]);
        "trace" (0,1,1) false, ["out" |p| gc(p,0), "x" |p| gc(p,0), "ak" |p| akf(p,0,0)],
            |p, b| oa::trace(w!(GlweCiphertextRef, b[0]), w!(GlweCiphertextRef, b[1]), c!(AutomorphismKeyFftRef, b[2]), &p.g[0], &p.r[0]);
        "programmable_bootstrap_univariate" (1,1,1) false,
            ["out" |p| sz!(LweCiphertextRef, flat(&p.g[0])), "in" |p| lc(p,0), "lut" |p| gc(p,0), "bsk" |p| bskf(p,0,0,0)],
            |p, b| ob::programmable_bootstrap_univariate(w!(LweCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), w!(UnivariateLookupTableRef, b[2]), c!(BootstrapKeyFftRef, b[3]), &p.l[0], &p.g[0], &p.r[0]);
        "generalized_programmable_bootstrap" (1,1,1) false,
            ["out" |p| gc(p,0), "in" |p| lc(p,0), "lut" |p| gc(p,0), "bsk" |p| bskf(p,0,0,0)],
            |p, b| ob::generalized_programmable_bootstrap(w!(GlweCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), w!(UnivariateLookupTableRef, b[2]), c!(BootstrapKeyFftRef, b[3]), 0, 0, &p.l[0], &p.g[0], &p.r[0]);
        "programmable_bootstrap_bivariate" (1,1,1) false,
            ["out" |p| sz!(LweCiphertextRef, flat(&p.g[0])), "left" |p| lc(p,0), "right" |p| lc(p,0), "lut" |p| gc(p,0), "bsk" |p| bskf(p,0,0,0)],
            |p, b| ob::programmable_bootstrap_bivariate(w!(LweCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), w!(LweCiphertextRef, b[2]), w!(BivariateLookupTableRef, b[3]), c!(BootstrapKeyFftRef, b[4]), &p.l[0], &p.g[0], B, &p.r[0]);
        "circuit_bootstrap_via_pfks" (1,2,3) false,
            ["out" |p| gw(p,0,1), "in" |p| lc(p,0), "bsk" |p| bskf(p,0,1,0), "cbsksk" |p| sz!(CircuitBootstrappingKeyswitchKeysRef, (flat(&p.g[1]), p.g[0].dim, p.r[2].count))],
            |p, b| ob::circuit_bootstrap_via_pfks(w!(GgswCiphertextRef, b[0]), w!(LweCiphertextRef, b[1]), c!(BootstrapKeyFftRef, b[2]), w!(CircuitBootstrappingKeyswitchKeysRef, b[3]), &p.l[0], &p.g[0], &p.g[1], &p.r[0], &p.r[1], &p.r[2]);
        "circuit_bootstrap_via_trace_and_scheme_switch" (1,1,4) false,
            ["out" |p| gwf(p,0,3), "in" |p| lc(p,0), "bsk" |p| bskf(p,0,0,0), "ak" |p| akf(p,0,1), "ssk" |p| sskf(p,0,2)],
            |p, b| ob::circuit_bootstrap_via_trace_and_scheme_switch(c!(GgswCiphertextFftRef, b[0]), w!(LweCiphertextRef, b[1]), c!(BootstrapKeyFftRef, b[2]), c!(AutomorphismKeyFftRef, b[3]), c!(SchemeSwitchKeyFftRef, b[4]), &p.l[0], &p.g[0], &p.r[0], &p.r[1], &p.r[2], &p.r[3]);
        // entities
        "LweSecretKey::decrypt_without_decode" (1,0,0) false, ["ct" |p| lc(p,0), "sk" |p| ls(p,0)],
            |p, b| d(w!(LweSecretKeyRef, b[1]).decrypt_without_decode(w!(LweCiphertextRef, b[0]), &p.l[0]));
        "GlweSecretKey::encode_encrypt_ggsw" (0,1,1) false, ["msg" |p| po(p,0), "sk" |p| sk(p,0)],
            |p, b| d(w!(GlweSecretKeyRef, b[1]).encode_encrypt_ggsw(w!(PolynomialRef, b[0]), &p.g[0], &p.r[0], PlaintextBits(1)));
        "GlweCiphertext::fft" (0,1,0) false, ["ct" |p| gc(p,0), "out" |p| gf(p,0)], |p, b| w!(GlweCiphertextRef, b[0]).fft(c!(GlweCiphertextFftRef, b[1]), &p.g[0]);
        "GgswCiphertext::fft" (0,1,1) false, ["ct" |p| gw(p,0,0), "out" |p| gwf(p,0,0)],
            |p, b| w!(GgswCiphertextRef, b[0]).fft(c!(GgswCiphertextFftRef, b[1]), &p.g[0], &p.r[0]);
        "BootstrapKey::fft" (1,1,1) false, ["key" |p| bsk(p,0,0,0), "out" |p| bskf(p,0,0,0)],
            |p, b| w!(BootstrapKeyRef, b[0]).fft(c!(BootstrapKeyFftRef, b[1]), &p.l[0], &p.g[0], &p.r[0]);
        "SchemeSwitchKey::fft" (0,1,1) false, ["key" |p| ssk(p,0,0), "out" |p| sskf(p,0,0)],
            |p, b| w!(SchemeSwitchKeyRef, b[0]).fft(c!(SchemeSwitchKeyFftRef, b[1]), &p.g[0], &p.r[0]);
    };
    // Owned operands: built by their own constructors, which take any valid parameters.
    v.extend(rows! {
        "keygen::generate_rlwe_public_key" (0,1,0) true, ["sk" |p| sk(p,0)], |p, b| {
            let k = owned_sk(b[0].len);
            d(hk::generate_rlwe_public_key(&k, &p.g[0]))
        };
        "evaluation::univariate_programmable_bootstrap" (1,1,1) false, ["in" |p| lc(p,0), "lut" |p| gc(p,0), "bsk" |p| bskf(p,0,0,0)], |p, b| {
            let k = owned_bsk(b[2].len);
            d(ev::univariate_programmable_bootstrap(w!(LweCiphertextRef, b[0]), w!(UnivariateLookupTableRef, b[1]), &k, &p.l[0], &p.g[0], &p.r[0]))
        };
        "evaluation::circuit_bootstrap" (1,1,4) false, ["in" |p| lc(p,0), "bsk" |p| bskf(p,0,0,0), "ak" |p| akf(p,0,1), "ssk" |p| sskf(p,0,2)], |p, b| {
            let k = owned_ssk(b[3].len);
            d(ev::circuit_bootstrap(w!(LweCiphertextRef, b[0]), c!(BootstrapKeyFftRef, b[1]), c!(AutomorphismKeyFftRef, b[2]), &k, &p.l[0], &p.g[0], &p.r[0], &p.r[1], &p.r[2], &p.r[3]))
        };
    });
    v
}
fn owned_sk(len: usize) -> GlweSecretKey<u64> { c64(len, |b| w!(GlweSecretKeyRef, b).to_owned()) }
fn owned_bsk(len: usize) -> BootstrapKeyFft<C> { c64(len, |b| c!(BootstrapKeyFftRef, b).to_owned()) }
fn owned_ssk(len: usize) -> SchemeSwitchKeyFft<C> { c64(len, |b| c!(SchemeSwitchKeyFftRef, b).to_owned()) }
fn c64<T>(len: usize, f: impl Fn(&Buf) -> T) -> T { f(&Buf::new(len)) }

/// (value, valid) alternatives; the first is the base.
fn lwes() -> Vec<(LweDef, bool)> { vec![(ldef(5), true), (ldef(6), true), (ldef(3), true), (ldef(0), false)] }
fn glwes(one: bool) -> Vec<(GlweDef, bool)> {
    let k = !one;
    let mut v = vec![(gdef(32, 1), true), (gdef(16, 1), true), (gdef(64, 1), true), (gdef(32, 2), k), (gdef(16, 3), k)];
    v.extend([(gdef(0, 1), false), (gdef(24, 1), false), (gdef(32, 0), false)]);
    v
}
fn rads() -> Vec<(RadixDecomposition, bool)> {
    vec![(rad(2, 4), true), (rad(1, 4), true), (rad(3, 5), true), (rad(0, 4), false), (rad(2, 0), false), (rad(2, 33), false)]
}

fn one_row(row: &Row, per: usize, cx: &mut Cx) -> R {
    let (nl, ng, nr) = row.n;
    let (la, ga, ra) = (lwes(), glwes(row.one), rads());
    let slots = nl + ng + nr;
    let alts = |s: usize| if s < nl { la.len() } else if s < nl + ng { ga.len() } else { ra.len() };
    // every choice differing from the base in at most two parameters
    let mut picks = vec![vec![0usize; slots]];
    for a in 0..slots {
        for x in 1..alts(a) {
            let mut v = vec![0; slots];
            v[a] = x;
            picks.push(v.clone());
            for b in a + 1..slots {
                for y in 1..alts(b) {
                    let mut u = v.clone();
                    u[b] = y;
                    picks.push(u);
                }
            }
        }
    }
    let params = |v: &[usize]| P {
        l: (0..nl).map(|i| la[v[i]].0).collect(),
        g: (0..ng).map(|i| ga[v[nl + i]].0).collect(),
        r: (0..nr).map(|i| ra[v[nl + ng + i]].0).collect(),
    };
    let size = |f: fn(&P) -> usize, p: &P| mc::catch(|| f(p)).unwrap_or(7);
    // the sizes each operand has under any of the choices, and their neighbours
    let mut sizes: Vec<Vec<usize>> = vec![vec![]; row.ents.len()];
    for v in &picks {
        if v.iter().filter(|x| **x != 0).count() > 1 { continue }
        let p = params(v);
        for (i, e) in row.ents.iter().enumerate() {
            let n = size(e.1, &p);
            sizes[i].extend([n, n + 1, n.saturating_sub(1)]);
        }
    }
    sizes.iter_mut().for_each(|s| { s.sort(); s.dedup() });
    // Homomorphisms that only compare sizes.
    let sizes_only = ["add_glwe_ciphertexts", "sub_glwe_ciphertexts", "glwe_polynomial_mad", "lwe_rotate"].contains(&row.name);
    for v in &picks {
        let p = params(v);
        let valid = (0..nl).all(|i| la[v[i]].1) && (0..ng).all(|i| ga[v[nl + i]].1) && (0..nr).all(|i| ra[v[nl + ng + i]].1);
        if sizes_only && !valid { continue }
        let right: Vec<usize> = row.ents.iter().map(|e| size(e.1, &p)).collect();
        let mut tries = vec![right.clone()];
        for i in 0..right.len() {
            for s in sizes[i].iter().filter(|s| **s != right[i]) {
                let mut t = right.clone();
                t[i] = *s;
                tries.push(t.clone());
                if per < 2 { continue }
                for j in i + 1..right.len() {
                    for s in sizes[j].iter().filter(|s| **s != right[j]) {
                        let mut u = t.clone();
                        u[j] = *s;
                        tries.push(u);
                    }
                }
            }
        }
        for t in tries {
            let bufs: Vec<Buf> = t.iter().map(|n| Buf::new(*n)).collect();
            let fits = valid && t == right;
            // The levels of the multiplexed GLEVs are theirs to choose.
            if row.name == "evaluation::glev_cmux" && t[1] == t[2] && t != right { continue }
            let got = mc::catch(|| (row.run)(&p, &bufs));
            cx.ev(!fits);
            cx.states += 1;
            let text = || {
                let ps: Vec<String> = p.l.iter().map(|l| format!("n={}", l.dim.0))
                    .chain(p.g.iter().map(|g| format!("N={},k={}", g.dim.polynomial_degree.0, g.dim.size.0)))
                    .chain(p.r.iter().map(|r| format!("levels={},log={}", r.count.0, r.radix_log.0))).collect();
                let es: Vec<String> = row.ents.iter().zip(&t).zip(&right).map(|((e, t), r)| if t == r { format!("{} of {t}", e.0) } else { format!("{} of {t} instead of {r}", e.0) }).collect();
                format!("{} [{}] with {}", row.name, ps.join(" "), es.join(", "))
            };
            cx.sample(text);
            match (fits, got) {
                (true, Err(e)) => ensure!(false, "{} was refused: {e}", text()),
                (false, Ok(())) => ensure!(false, "{} was accepted", text()),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn run() {
    let mut ck = Ck::new("T14", "exhaustive-bounded",
        "every function x every parameter choice differing from a valid base in at most two places x every operand size differing from the prescribed in one (thorough: two): accepted exactly when all fit");
    ck.assume("entities carry no parameters, so an operand made for other parameters that happens to have the prescribed size cannot be told apart and is not expected to be refused");
    ck.set_wrap(one_thread);
    let per = ck.tier(1, 2);
    let t = table();
    ck.par("operands and parameters must fit", &t, |r| r.name.to_string(), |r, cx| one_row(r, per, cx));

    ck.case("limits", "plaintext bits", |cx| {
        let l = ldef(5);
        let g = gdef(32, 1);
        let r = rad(2, 4);
        let k = hk::generate_binary_glwe_sk(&g);
        let pt = ip::<u64>(&[0; 32]);
        for bits in (0..130).chain([255, 256, u32::MAX]) {
            let b = PlaintextBits(bits);
            let ok = bits < 64;
            cx.ev(!ok);
            ensure!(mc::catch(|| he::trivial_lwe(0, &l, b)).is_ok() == ok, "trivial_lwe with {bits} plaintext bits: expected {}", if ok { "a ciphertext" } else { "a refusal" });
            ensure!(mc::catch(|| he::trivial_glwe(&pt, &g, b)).is_ok() == ok, "trivial_glwe with {bits} plaintext bits: expected {}", if ok { "a ciphertext" } else { "a refusal" });
            ensure!(mc::catch(|| he::encrypt_ggsw(0, &k, &g, &r, b)).is_ok() == ok, "encrypt_ggsw with {bits} plaintext bits: expected {}", if ok { "a ciphertext" } else { "a refusal" });
        }
        Ok(())
    });
    ck.case("limits", "coefficient index", |cx| {
        for n in [1usize, 2, 8, 32] {
            for k in 1..3 {
                let g = gdef(n, k);
                let ct = GlweCiphertext::<u64>::new(&g);
                for i in (0..3 * n).chain([usize::MAX, usize::MAX - n + 1]) {
                    cx.ev(i >= n);
                    ensure!(mc::catch(|| ev::sample_extract(&ct, &g, i)).is_ok() == (i < n), "sample_extract of coefficient {i} at N={n}, k={k}");
                }
            }
        }
        Ok(())
    });
    ck.case("limits", "radix decompositions", |cx| {
        let mut v: Vec<usize> = (0..70).collect();
        for i in 0..64 { v.extend([1usize << i, (1usize << i) + 1, (1usize << i) - 1, usize::MAX >> i]) }
        v.sort();
        v.dedup();
        for a in &v {
            for b in &v {
                for bits in [32u128, 64] {
                    let ok = *a > 0 && *b > 0 && *a as u128 * *b as u128 <= bits;
                    let r = rad(*a, *b);
                    cx.ev(!ok);
                    let got = mc::catch(|| if bits == 32 { r.assert_valid::<u32>() } else { r.assert_valid::<u64>() }).is_ok();
                    ensure!(got == ok, "a radix decomposition of {a} levels of {b} bits in a {bits} bit word is {}", if got { "accepted" } else { "refused" });
                }
            }
        }
        Ok(())
    });
    ck.case("limits", "dimensions", |cx| {
        let mut v: Vec<usize> = (0..70).collect();
        for i in 0..64 { v.extend([1usize << i, (1usize << i) + 1, (1usize << i) - 1]) }
        for n in &v {
            for k in [0usize, 1, 2, usize::MAX] {
                cx.ev(true);
                let ok = *n > 0 && n.is_power_of_two() && k > 0;
                ensure!(mc::catch(|| gdef(*n, k).assert_valid()).is_ok() == ok, "GLWE parameters N={n} k={k} judged wrongly");
            }
            ensure!(mc::catch(|| ldef(*n).assert_valid()).is_ok() == (*n > 0), "LWE dimension {n} judged wrongly");
        }
        Ok(())
    });
    ck.case("limits", "polynomial lengths", |cx| {
        for a in 0..20usize {
            for b in 0..20usize {
                cx.ev(a != b);
                let x = ip::<u64>(&vec![0; a]);
                let mut y = tp::<u64>(&vec![0; b]);
                ensure!(mc::catch(|| op::encode_polynomial(&mut y, &x, B)).is_ok() == (a == b), "encode_polynomial of {a} coefficients into {b}");
                let ok = a == b && a.is_power_of_two();
                let mut z = ip::<u64>(&vec![0; b]);
                ensure!(mc::catch(|| op::polynomial_pow_k::<u64, u64>(&mut z, &x, 3)).is_ok() == ok, "polynomial_pow_k of {a} coefficients into {b}");
                let mut s = x.clone();
                ensure!(mc::catch(|| x.map_into(&mut z, |v| *v)).is_ok() == (a == b), "map_into of {a} coefficients into {b}");
                d(&mut s);
            }
        }
        Ok(())
    });
    // Keyswitches of several ciphertexts at once: as many inputs as the key was made for, each of the right dimension.
    ck.case("lists and tables", "private functional keyswitch", |cx| {
        for (n, k) in [(8usize, 1usize), (16, 2)] {
            let (l, g, r) = (ldef(3), gdef(n, k), rad(2, 4));
            let (ls, gs) = (hk::generate_binary_lwe_sk(&l), hk::generate_binary_glwe_sk(&g));
            let good = he::trivial_lwe(1, &l, B);
            let others: Vec<_> = [1usize, 2, 4, 6].iter().map(|n| (*n, he::trivial_lwe(1, &ldef(*n), B))).collect();
            for made in 1..4usize {
                let c = |c| PrivateFunctionalKeyswitchLweCount(c);
                let mut key = PrivateFunctionalKeyswitchKey::<u64>::new(&l, &g, &r, &c(made));
                opr::generate_private_functional_keyswitch_key(&mut key, &ls, &gs, |_, _| {}, &l, &g, &r, &c(made));
                for said in 0..5usize {
                    let made_ok = mc::catch(|| opr::generate_private_functional_keyswitch_key(&mut key, &ls, &gs, |_, _| {}, &l, &g, &r, &c(said))).is_ok();
                    cx.ev(said != made);
                    ensure!(made_ok == (said == made), "key for {made} inputs generated for {said}: {}", if made_ok { "accepted" } else { "refused" });
                    for given in 0..6usize {
                        for bad in 0..=given {
                            for (dim, o) in if bad == given { &others[..1] } else { &others[..] } {
                                let ins: Vec<&LweCiphertextRef<u64>> = (0..given).map(|i| if i == bad { o.as_ref() } else { good.as_ref() }).collect();
                                let ok = said == made && given == said && bad == given;
                                let mut out = GlweCiphertext::<u64>::new(&g);
                                let got = mc::catch(|| opr::private_functional_keyswitch(&mut out, &ins, &key, &l, &g, &r, &c(said))).is_ok();
                                cx.ev(!ok);
                                ensure!(got == ok, "private functional keyswitch N={n} k={k}: key for {made}, count {said}, {given} inputs, {}: {}",
                                    if bad == given { "all of the right dimension".into() } else { format!("the one at {bad} of dimension {dim}") }, if got { "accepted" } else { "refused" });
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    });
    ck.case("lists and tables", "public functional keyswitch", |cx| {
        for (n, k) in [(16usize, 1usize), (32, 1), (16, 2)] {
            let (l, g, r) = (ldef(3), gdef(n, k), rad(2, 4));
            let (ls, gs) = (hk::generate_binary_lwe_sk(&l), hk::generate_binary_glwe_sk(&g));
            let mut key = PublicFunctionalKeyswitchKey::<u64>::new(&l, &g, &r);
            opu::generate_public_functional_keyswitch_key(&mut key, &ls, &gs, &l, &g, &r);
            let good = he::trivial_lwe(1, &l, B);
            let others: Vec<_> = [1usize, 2, 4, 6].iter().map(|n| (*n, he::trivial_lwe(1, &ldef(*n), B))).collect();
            for given in 1..n + 4 {
                for bad in 0..=given {
                    for (dim, o) in if bad == given { &others[..1] } else { &others[..] } {
                        let ins: Vec<&LweCiphertextRef<u64>> = (0..given).map(|i| if i == bad { o.as_ref() } else { good.as_ref() }).collect();
                        let ok = given <= n && bad == given;
                        let mut out = GlweCiphertext::<u64>::new(&g);
                        let pack = |p: &mut PolynomialRef<Torus<u64>>, v: &[Torus<u64>]| p.coeffs_mut().iter_mut().zip(v).for_each(|(p, v)| *p = *v);
                        let got = mc::catch(|| opu::public_functional_keyswitch(&mut out, &ins, &key, pack, &l, &g, &r)).is_ok();
                        cx.ev(!ok);
                        ensure!(got == ok, "public functional keyswitch N={n} k={k}: {given} inputs, {}: {}",
                            if bad == given { "all of the right dimension".into() } else { format!("the one at {bad} of dimension {dim}") }, if got { "accepted" } else { "refused" });
                    }
                }
            }
        }
        Ok(())
    });
    // Lookup tables: every message needs a coefficient, every function a coefficient of its own within each
    // message's interval, and every value must be a message.
    ck.case("lists and tables", "lookup tables", |cx| {
        for n in [2usize, 4, 8, 16, 32] {
            let g = gdef(n, 1);
            for bits in 1..8u32 {
                let p = 1u64 << bits;
                for v in 0..10usize {
                    // all values in range, or one function too large at one message
                    let spots = std::iter::once(None).chain((0..v).flat_map(|f| [0, p / 2, p - 1].map(|m| Some((f, m)))));
                    for spot in spots {
                        for too in [p, p + 1, u64::MAX] {
                            if spot.is_none() && too != p { continue }
                            let maps: Vec<_> = (0..v).map(|f| move |m: u64| if spot == Some((f, m)) { too } else { m }).collect();
                            let fits = p as usize * v.next_power_of_two() <= n;
                            let ok = v > 0 && fits && spot.is_none();
                            let text = || format!("a table of {v} functions of {bits} bit messages in {n} coefficients{}", spot.map_or(String::new(), |(f, m)| format!(", number {f} giving {too} at {m}")));
                            let mut t = UnivariateLookupTable::<u64>::trivial_from_fn(|_| 0, &g, PlaintextBits(1));
                            cx.ev(!ok);
                            let got = mc::catch(|| t.fill_trivial_from_fns(&maps, &g, PlaintextBits(bits))).is_ok();
                            ensure!(got == ok, "{}: {}", text(), if got { "accepted" } else { "refused" });
                            let got = mc::catch(|| d(UnivariateLookupTable::<u64>::trivivial_multifunctional(&maps, &g, PlaintextBits(bits)))).is_ok();
                            ensure!(got == (ok && v > 1), "multi-function constructor, {}: {}", text(), if got { "accepted" } else { "refused" });
                            if v == 1 {
                                let got = mc::catch(|| d(UnivariateLookupTable::<u64>::trivial_from_fn(&maps[0], &g, PlaintextBits(bits)))).is_ok();
                                ensure!(got == ok, "constructor, {}: {}", text(), if got { "accepted" } else { "refused" });
                            }
                        }
                    }
                }
                for carry in 0..8u32 {
                    for spot in [None, Some((0, 0)), Some((p - 1, 0)), Some((0, p - 1)), Some((p - 1, p - 1))] {
                        let map = |a: u64, b: u64| if spot == Some((a, b)) { p } else { a };
                        let ok = carry >= bits && p << carry <= n as u64 && spot.is_none();
                        cx.ev(!ok);
                        let got = mc::catch(|| d(BivariateLookupTable::<u64>::trivial_from_fn(map, &g, PlaintextBits(bits), CarryBits(carry)))).is_ok();
                        ensure!(got == ok, "a bivariate table of {bits} bit messages and {carry} bits of carry in {n} coefficients, too large at {spot:?}: {}", if got { "accepted" } else { "refused" });
                    }
                }
            }
        }
        Ok(())
    });
    ck.case("lists and tables", "messages and amounts", |cx| {
        for (n, k) in [(8usize, 1usize), (16, 2)] {
            let (g, r) = (gdef(n, k), rad(2, 4));
            let sk = hk::generate_binary_glwe_sk(&g);
            for bits in 1..8u32 {
                for m in (0..300).chain([1 << 32, u64::MAX, 1 << 63]) {
                    let ok = m < 1 << bits;
                    cx.ev(!ok);
                    let got = mc::catch(|| d(he::encrypt_ggsw(m, &sk, &g, &r, PlaintextBits(bits)))).is_ok();
                    ensure!(got == ok, "encrypt_ggsw of {m} in {bits} bits at N={n}, k={k}: {}", if got { "accepted" } else { "refused" });
                }
            }
            for amount in (0..3 * n).chain([usize::MAX, usize::MAX - n + 1]) {
                let mut out = BlindRotationShiftFft::<C>::new(&g, &r);
                let got = mc::catch(|| ob::generate_blind_rotation_shift::<u64>(&mut out, amount, &sk, &g, &r, PlaintextBits(1))).is_ok();
                cx.ev(amount >= n);
                ensure!(got == (amount < n), "a rotation by {amount} at N={n}, k={k}: {}", if got { "accepted" } else { "refused" });
            }
        }
        let l = ldef(3);
        let (sk, ct) = (hk::generate_binary_lwe_sk(&l), he::trivial_lwe(0, &l, B));
        for bits in 1..70u32 {
            for carry in 0..70u32 {
                let ok = bits + carry < 64;
                cx.ev(!ok);
                let got = mc::catch(|| d(he::decrypt_lwe_with_carry(&ct, &sk, &l, PlaintextBits(bits), CarryBits(carry)))).is_ok();
                ensure!(got == ok, "decryption of {bits} bits and {carry} bits of carry: {}", if got { "accepted" } else { "refused" });
            }
        }
        Ok(())
    });
    ck.case("lists and tables", "ciphertexts from words", |cx| {
        for (n, k) in [(1usize, 1usize), (4, 1), (4, 2), (8, 3)] {
            for lv in 1..4 {
                let (g, r) = (gdef(n, k), rad(lv, 2));
                for len in 0..n * (k + 1) * (k + 1) * lv + 3 {
                    cx.ev(true);
                    let got = mc::catch(|| d(GlweCiphertext::<u64>::from_slice(&vec![0; len], &g))).is_ok();
                    ensure!(got == (len == n * (k + 1)), "a GLWE ciphertext of {len} words at N={n}, k={k}: {}", if got { "accepted" } else { "refused" });
                    let got = mc::catch(|| d(GgswCiphertext::<u64>::from_slice(&vec![Torus::from(0); len], &g, &r))).is_ok();
                    ensure!(got == (len == n * (k + 1) * (k + 1) * lv), "a GGSW ciphertext of {len} words at N={n}, k={k}, {lv} levels: {}", if got { "accepted" } else { "refused" });
                }
            }
        }
        Ok(())
    });
    let dims: Vec<usize> = vec![368, 512, 637, 757, 1024, 1280, 1536, 2048];
    ck.par("security levels", &dims, |d| format!("dimension {d}"), |d, cx| {
        use sunscreen_math::security::{lwe_security_level_to_std, lwe_std_to_security_level};
        use sunscreen_tfhe::{rand::Stddev, SecurityLevel};
        let shapes: Vec<(usize, usize)> = (0..12).map(|i| (1usize << i, d >> i)).filter(|(n, k)| n * k == *d && *k > 0).collect();
        for i in 0..=480 {
            let level = 80. + i as f64 / 10. + 0.013;
            let Ok(std) = lwe_security_level_to_std(*d, level) else { continue };
            let Ok(real) = lwe_std_to_security_level(*d, std) else { continue };
            let l = LweDef { std: Stddev(std), ..ldef(*d) };
            ensure!(l.security_level() == real, "an LWE problem of dimension {d} and deviation {std:e} has level {}, not {real}", l.security_level());
            for (n, k) in &shapes {
                let g = GlweDef { std: Stddev(std), ..gdef(*n, *k) };
                ensure!(g.security_level() == real, "a GLWE problem N={n} k={k} deviation {std:e} has level {}, not {real}", g.security_level());
            }
            for want in (real as usize - 3)..(real as usize + 4) {
                let ok = (real - want as f64).abs() <= 0.25;
                cx.ev(!ok);
                ensure!(mc::catch(|| l.assert_security_level(want)).is_ok() == ok, "LWE dimension {d} of level {real} asserted to have level {want}: expected {}", if ok { "acceptance" } else { "a refusal" });
                for (n, k) in &shapes {
                    let g = GlweDef { std: Stddev(std), ..gdef(*n, *k) };
                    ensure!(mc::catch(|| g.assert_security_level(want)).is_ok() == ok, "GLWE N={n} k={k} of level {real} asserted to have level {want}: expected {}", if ok { "acceptance" } else { "a refusal" });
                }
            }
        }
        Ok(())
    });
    let _ = (PolynomialDegree(0), as_lwe(&gdef(1, 1)));
    ck.finish()
}
