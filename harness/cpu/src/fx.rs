//! Noise-free miniature parameters and keys, so that the real processor runs in microseconds.
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{ComputeKey, Encryption, Evaluation, L1GlweCiphertext, Params, SecretKey};
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::entities::Polynomial;
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, rand::Stddev,
};

pub fn rad(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}

pub fn params(d: usize, n: usize, k: usize, cbs: RadixDecomposition) -> Params {
    Params {
        l0_params: LweDef { dim: LweDimension(d), std: Stddev(0.0) },
        l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: Stddev(0.0) },
        cbs_radix: cbs,
        pbs_radix: rad(2, 16),
        ks_radix: rad(8, 2),
        pfks_radix: rad(2, 17),
        ss_radix: rad(15, 3),
        tr_radix: rad(6, 7),
    }
}

pub type Bit = Arc<AtomicRefCell<L1GlweCiphertext>>;

pub struct Fx {
    pub sk: SecretKey,
    pub enc: Encryption,
    pub eval: Evaluation,
    bits: [L1GlweCiphertext; 2],
}

impl Fx {
    pub fn get() -> &'static Fx {
        static F: OnceLock<Fx> = OnceLock::new();
        F.get_or_init(|| {
            let p = params(2, 16, 1, rad(2, 8));
            let sk = SecretKey::generate(&p);
            let ck = Arc::new(ComputeKey::generate(&sk, &p));
            let enc = Encryption::new(&p);
            let eval = Evaluation::new(ck, &p, &enc);
            let bits = [0, 1].map(|b| {
                let mut m = Polynomial::<u64>::zero(p.l1_poly_degree().0);
                m.coeffs_mut()[0] = b;
                enc.encrypt_glwe_l1_secret(&m, &sk)
            });
            Fx { sk, enc, eval, bits }
        })
    }
    pub fn bit(&self, b: bool) -> Bit {
        Arc::new(AtomicRefCell::new(self.bits[b as usize].clone()))
    }
    pub fn bits(&self, v: u128, w: u32) -> Vec<Bit> {
        (0..w).map(|i| self.bit(v >> i & 1 == 1)).collect()
    }
    pub fn open(&self, b: &[Bit]) -> u128 {
        b.iter().enumerate().fold(0, |a, (i, c)| {
            let m = self.enc.decrypt_glwe_l1(&AtomicRefCell::borrow(c), &self.sk);
            a | (m.coeffs()[0] as u128) << i
        })
    }
}
