//! Shared enumeration helpers.
use sunscreen_tfhe::{FromU64, ToU64, Torus, TorusOps};

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}

/// Every value with at most two set or at most two clear bits, and their neighbours, in `bits` bits.
pub fn patterns(bits: u32) -> Vec<u64> {
    let m = mask(bits);
    let mut v = vec![];
    for i in 0..bits {
        for j in i..bits {
            let x = (1u64 << i) | (1u64 << j);
            for y in [x, x.wrapping_sub(1), x.wrapping_add(1), !x, (!x).wrapping_add(1), (1u64 << j).wrapping_sub(1u64 << i)] {
                v.push(y & m);
            }
        }
    }
    v.extend([0, 1, m, m >> 1, (m >> 1) + 1, 0x5555555555555555 & m, 0xAAAAAAAAAAAAAAAA & m, 0xDEADBEEFFEEDF00D & m]);
    v.sort();
    v.dedup();
    v
}

/// A small set of boundary values of a word of `bits` bits.
pub fn edge(bits: u32) -> Vec<u64> {
    let m = mask(bits);
    let mut v = vec![0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, m / 3, m / 3 * 2, 0x9E3779B97F4A7C15 & m, 1 << (bits / 2)];
    v.sort();
    v.dedup();
    v
}

pub fn t<S: TorusOps>(x: u64) -> Torus<S> {
    Torus::from(S::from_u64(x))
}
pub fn un<S: TorusOps>(x: Torus<S>) -> u64 {
    x.inner().to_u64()
}

/// Deterministic filler stream (operands whose value does not matter to the case).
pub struct Fill(pub u64);
impl Fill {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

// ---- fixtures shared by the scheme-level properties ----
use sunscreen_tfhe::{
    entities::*, rand::Stddev, GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount,
    RadixDecomposition, RadixLog,
};

pub type V = Vec<u64>;

pub fn gdef(n: usize, k: usize) -> GlweDef {
    GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: Stddev(0.0) }
}
pub fn ldef(d: usize) -> LweDef {
    LweDef { dim: LweDimension(d), std: Stddev(0.0) }
}
pub fn rad(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}
pub fn tp<S: TorusOps>(v: &[u64]) -> Polynomial<Torus<S>> {
    Polynomial::new(&v.iter().map(|x| t(*x)).collect::<Vec<_>>())
}
pub fn ip<S: TorusOps>(v: &[u64]) -> Polynomial<S> {
    Polynomial::new(&v.iter().map(|x| S::from_u64(*x)).collect::<Vec<_>>())
}
pub fn tv<S: TorusOps>(p: &PolynomialRef<Torus<S>>) -> V {
    p.coeffs().iter().map(|x| un(*x)).collect()
}
pub fn iv<S: TorusOps>(p: &PolynomialRef<S>) -> V {
    p.coeffs().iter().map(|x| x.to_u64()).collect()
}

/// The raw bytes of an entity (all entities are plain arrays of words).
pub fn raw<T: ?Sized>(x: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of_val(x)) }
}
/// Overwrite an entity with recognisable rubbish; kind 0 leaves it as it is.
pub fn dirty<T: ?Sized>(x: &mut T, kind: u8) {
    let b = unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut u8, std::mem::size_of_val(x)) };
    let mut f = Fill(kind as u64 * 77 + 5);
    match kind {
        0 => {}
        1 => for c in b.chunks_mut(8) { c.copy_from_slice(&f.next().to_le_bytes()[..c.len()]) },
        2 => b.fill(0xFF),
        // doubles: a large finite value; words: an arbitrary value
        _ => for c in b.chunks_mut(8) { c.copy_from_slice(&1e17f64.to_bits().to_le_bytes()[..c.len()]) },
    }
}

/// Keys whose words are chosen by the checker (in whatever order the generator draws them).
pub fn lwe_key<S: TorusOps>(d: &LweDef, words: &[u64]) -> LweSecretKey<S> {
    rand::mc::script(words.iter().copied());
    let sk = LweSecretKey::<S>::generate_uniform(d);
    rand::mc::script([]);
    sk
}
pub fn glwe_key<S: TorusOps>(g: &GlweDef, words: &[u64]) -> GlweSecretKey<S> {
    rand::mc::script(words.iter().copied());
    let sk = GlweSecretKey::<S>::generate_uniform(g);
    rand::mc::script([]);
    sk
}
/// Run the cases of a worker on one private single-threaded pool, so that everything the code under
/// test spawns through rayon runs on the same thread (random stream and scratch memory are per thread).
pub fn one_thread(f: &mut dyn FnMut()) {
    struct P<'a>(&'a mut dyn FnMut());
    unsafe impl Send for P<'_> {}
    let p = P(f);
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap().install(move || {
        let p = p;
        (p.0)()
    })
}
/// The words whose bits are those of `x`.
pub fn bits(x: u64, n: usize) -> V {
    (0..n).map(|i| x >> i & 1).collect()
}
/// `n` arbitrary words.
pub fn arb(seed: u64, n: usize) -> V {
    let mut f = Fill(seed.wrapping_mul(0x5851F42D4C957F2D));
    (0..n).map(|_| f.next()).collect()
}
pub fn lwe_words<S: TorusOps>(sk: &LweSecretKeyRef<S>) -> V {
    sk.s().iter().map(|x| x.to_u64()).collect()
}
pub fn glwe_words<S: TorusOps>(sk: &GlweSecretKeyRef<S>, g: &GlweDef) -> Vec<V> {
    sk.s(g).map(iv).collect()
}
fn bits_of<S>() -> u32 {
    std::mem::size_of::<S>() as u32 * 8
}

/// b - <a, s>, computed with plain integers.
pub fn lwe_phase<S: TorusOps>(ct: &LweCiphertextRef<S>, s: &[u64], d: &LweDef) -> u64 {
    let (a, b) = ct.a_b(d);
    let mut x = un(*b);
    for (a, s) in a.iter().zip(s) { x = x.wrapping_sub(un(*a).wrapping_mul(*s)) }
    x & mask(bits_of::<S>())
}
/// b - sum a_i s_i mod X^n + 1, computed with plain integers.
pub fn glwe_phase<S: TorusOps>(ct: &GlweCiphertextRef<S>, s: &[V], g: &GlweDef) -> V {
    let (a, b) = ct.a_b(g);
    let mut x = tv(b);
    for (a, s) in a.zip(s) {
        // key first: keys are mostly sparse
        for (x, y) in x.iter_mut().zip(crate::t04::negmul(s, &tv(a))) { *x = x.wrapping_sub(y) }
    }
    for x in &mut x { *x &= mask(bits_of::<S>()) }
    x
}
pub fn lwe_words_of<S: TorusOps>(ct: &LweCiphertextRef<S>, d: &LweDef) -> V {
    let (a, b) = ct.a_b(d);
    a.iter().map(|x| un(*x)).chain([un(*b)]).collect()
}
/// All coefficients, mask polynomials first.
pub fn glwe_flat<S: TorusOps>(ct: &GlweCiphertextRef<S>, g: &GlweDef) -> V {
    let (a, b) = ct.a_b(g);
    a.flat_map(tv).chain(tv(b)).collect()
}
/// Signed distance on the circle of `bits`-bit words.
pub fn dist(a: u64, b: u64, bits: u32) -> i64 {
    (a.wrapping_sub(b) << (64 - bits)) as i64 >> (64 - bits)
}
/// Top-aligned encoding of `m` in `p` bits of a `bits`-bit word.
pub fn enc(m: u64, p: u32, bits: u32) -> u64 {
    if p == 0 { 0 } else { (m << (bits - p)) & mask(bits) }
}
/// Nearest message (ties up) of a phase.
pub fn dec(x: u64, p: u32, bits: u32) -> u64 {
    ((x >> (bits - p)).wrapping_add(x >> (bits - p - 1) & 1)) & mask(p)
}

/// Leave rubbish in the scratch memory of this thread (which operations must not read).
pub fn poison(kind: u8) {
    let mut held: Vec<_> = (0..8).map(|_| sunscreen_tfhe::mc_hooks::allocate_scratch::<u8>(1 << 14)).collect();
    for (i, b) in held.iter_mut().enumerate() { dirty(b.as_mut_slice(), (kind as usize + i) as u8 % 3 + 1) }
}
