//! Noise-free miniature parameter sets and keys for them, so that the real runtime runs in microseconds.
use parasol_runtime::{CircuitProcessor, ComputeKey, Encryption, Evaluation, Params, PublicKey, SecretKey};
use std::sync::{Arc, Mutex, mpsc::Receiver};
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, rand::Stddev,
};

pub fn rad(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}

/// Parameters with no noise: `d` is the level-0 dimension, `n`,`k` the level-1 degree and size.
pub fn params(d: usize, n: usize, k: usize, cbs: RadixDecomposition) -> Params {
    Params {
        l0_params: LweDef { dim: LweDimension(d), std: Stddev(0.0) },
        l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: Stddev(0.0) },
        cbs_radix: cbs,
        pbs_radix: rad(2, 16),
        ks_radix: rad(8, 2),
        pfks_radix: rad(2, 17),
        ss_radix: rad(15, 3),
        tr_radix: rad(6, 7),
    }
}

pub struct Fx {
    pub p: Params,
    pub sk: SecretKey,
    pub pk: Option<PublicKey>,
    pub enc: Encryption,
    pub eval: Evaluation,
    pub proc: Mutex<(CircuitProcessor, Receiver<()>)>,
}

impl Fx {
    pub fn new(p: Params) -> Fx {
        let sk = SecretKey::generate(&p);
        let pk = (p.l1_params.dim.size.0 == 1).then(|| PublicKey::generate(&p, &sk));
        let ck = Arc::new(ComputeKey::generate(&sk, &p));
        let enc = Encryption::new(&p);
        let eval = Evaluation::new(ck, &p, &enc);
        let (pr, fc) = CircuitProcessor::new(4096, None, &eval, &enc);
        Fx { p, sk, pk, enc, eval, proc: Mutex::new((pr, fc)) }
    }
    pub fn n(&self) -> usize {
        self.p.l1_poly_degree().0
    }
    pub fn run(&self, c: &parasol_runtime::FheCircuit) -> Result<(), String> {
        let mut g = self.proc.lock().unwrap_or_else(|e| e.into_inner());
        let (p, f) = &mut *g;
        p.run_graph_blocking(c, f).map_err(|e| e.0)
    }
}
