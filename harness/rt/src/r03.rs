//! R03: serialisation round trips, and malformed bytes are refused before anything large is allocated.
use crate::fx::*;
use mc::*;
use parasol_runtime::{
    ComputeKey, ComputeKeyNonFft, DEFAULT_128, Encryption, Evaluation, KeylessEvaluation, L0LweCiphertext, L1GlevCiphertext,
    L1GlweCiphertext, L1LweCiphertext, Params, PublicKey, PublicOneTimePad, SecretKey, SecretOneTimePad, decrypt_one_time_pad, fluent::*,
    generate_one_time_pad, recrypt_one_time_pad,
    safe_bincode::{GetSize, deserialize},
};
use serde::{Serialize, de::DeserializeOwned};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::{Arc, OnceLock},
};
use sunscreen_tfhe::entities::Polynomial;

// ---- an allocator that knows how much a piece of code had allocated at once ----

pub struct Meter;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}
/// The largest amount of memory `f` held at once, beyond what was held before.
fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let b = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(b));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - b).max(0) as usize)
}

// ---- the layout of a serialised object ----

#[derive(Clone)]
enum Tok {
    /// A length, then that many elements of this many bytes.
    Seq(usize),
    U32,
    /// A length, then that many of these.
    Vec(Box<Tok>),
}
/// The structural fields of an object: (offset, bytes, value, bytes per counted element).
type Field = (usize, usize, u64, usize);
fn rd(b: &[u8], at: usize, w: usize) -> u64 {
    let mut v = [0; 8];
    v[..w].copy_from_slice(&b[at..at + w]);
    u64::from_le_bytes(v)
}
fn walk(b: &[u8], at: &mut usize, t: &Tok, out: &mut Vec<Field>) {
    match t {
        Tok::Seq(e) => {
            let n = rd(b, *at, 8);
            out.push((*at, 8, n, *e));
            *at += 8 + n as usize * e;
        }
        Tok::U32 => {
            out.push((*at, 4, rd(b, *at, 4), 0));
            *at += 4;
        }
        Tok::Vec(t) => {
            let n = rd(b, *at, 8);
            let i = out.len();
            out.push((*at, 8, n, 0));
            *at += 8;
            let s = *at;
            for _ in 0..n {
                walk(b, at, t, out);
            }
            out[i].3 = if n == 0 { 0 } else { (*at - s) / n as usize };
        }
    }
}
fn fields(b: &[u8], toks: &[Tok]) -> Vec<Field> {
    let (mut at, mut out) = (0, vec![]);
    for t in toks {
        walk(b, &mut at, t, &mut out);
    }
    assert_eq!(at, b.len(), "the layout of the serialised object is not the expected one");
    out
}

// ---- subjects ----

/// The fixed data each subject is exercised against.
struct World {
    label: String,
    fx: Fx,
}

fn worlds(thorough: bool) -> Vec<World> {
    let base = params(2, 16, 1, rad(2, 8));
    let mut v = vec![("base", base.clone())];
    let mut add = |n: &'static str, f: &dyn Fn(&mut Params)| {
        let mut p = base.clone();
        f(&mut p);
        v.push((n, p));
    };
    add("level-0 dimension 3", &|p| p.l0_params.dim.0 = 3);
    add("degree 32", &|p| p.l1_params.dim.polynomial_degree.0 = 32);
    add("two polynomials", &|p| p.l1_params.dim.size.0 = 2);
    add("three cbs levels", &|p| p.cbs_radix = rad(3, 4));
    add("three pbs levels", &|p| p.pbs_radix = rad(3, 10));
    add("seven keyswitch levels", &|p| p.ks_radix = rad(7, 2));
    add("fourteen scheme-switch levels", &|p| p.ss_radix = rad(14, 3));
    add("five trace levels", &|p| p.tr_radix = rad(5, 8));
    if thorough {
        add("degree 64, dimension 5", &|p| {
            p.l1_params.dim.polynomial_degree.0 = 64;
            p.l0_params.dim.0 = 5
        });
        add("three polynomials", &|p| p.l1_params.dim.size.0 = 3);
        // same GLWE size as degree 16 with one polynomial... but another key structure
        add("dimension 1", &|p| p.l0_params.dim.0 = 1);
    }
    v.into_iter().map(|(l, p)| World { label: l.into(), fx: Fx::new(p) }).collect()
}

fn bytes<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).unwrap()
}

/// A serialisable type: how to make one, what its layout is, and what using it shows.
trait Subject: Sync {
    fn name(&self) -> String;
    fn toks(&self, p: &Params) -> Vec<Tok>;
    fn has(&self, _w: &World) -> bool {
        true
    }
    /// Serialised samples.
    fn samples(&self, w: &World) -> Vec<Vec<u8>>;
    /// Deserialise; on success, serialise again and use the object (both must succeed).
    fn read(&self, b: &[u8], p: &Params) -> Option<Box<dyn Thing>>;
    /// Is an object whose structural fields are these acceptable under the same parameters as the sample's?
    fn accepts(&self, _w: &World, got: &[u64], sample: &[u64]) -> bool {
        got == sample
    }
    fn limit(&self, p: &Params) -> usize;
}
trait Thing {
    fn again(&self) -> Vec<u8>;
    fn observe(&self, w: &World) -> Vec<u8>;
}
struct Got<T, F>(T, F);
impl<T: Serialize, F: Fn(&T, &World) -> Vec<u8>> Thing for Got<T, F> {
    fn again(&self) -> Vec<u8> {
        bytes(&self.0)
    }
    fn observe(&self, w: &World) -> Vec<u8> {
        (self.1)(&self.0, w)
    }
}

struct Of<T, M, F> {
    name: String,
    toks: Vec<Tok>,
    make: M,
    observe: F,
    need_public: bool,
    /// structural field 0 is a bit count that may be anything the parameters can hold
    free_bits: bool,
    _t: std::marker::PhantomData<fn(T)>,
}
impl<T, M, F> Subject for Of<T, M, F>
where
    T: GetSize + Serialize + DeserializeOwned + 'static,
    M: Fn(&World) -> Vec<T> + Sync,
    F: Fn(&T, &World) -> Vec<u8> + Sync + Copy + 'static,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn toks(&self, _: &Params) -> Vec<Tok> {
        self.toks.clone()
    }
    fn has(&self, w: &World) -> bool {
        !self.need_public || w.fx.pk.is_some()
    }
    fn samples(&self, w: &World) -> Vec<Vec<u8>> {
        (self.make)(w).iter().map(bytes).collect()
    }
    fn read(&self, b: &[u8], p: &Params) -> Option<Box<dyn Thing>> {
        deserialize::<T>(b, p).ok().map(|x| Box::new(Got(x, self.observe)) as Box<dyn Thing>)
    }
    fn accepts(&self, w: &World, got: &[u64], sample: &[u64]) -> bool {
        if self.free_bits { got.len() == sample.len() && got[1..] == sample[1..] && got[0] < w.fx.n() as u64 } else { got == sample }
    }
    fn limit(&self, p: &Params) -> usize {
        T::get_size(p)
    }
}
fn of<T, M, F>(name: impl Into<String>, toks: Vec<Tok>, make: M, observe: F) -> Of<T, M, F>
where
    T: GetSize + Serialize + DeserializeOwned + 'static,
    M: Fn(&World) -> Vec<T> + Sync,
    F: Fn(&T, &World) -> Vec<u8> + Sync + Copy + 'static,
{
    Of { name: name.into(), toks, make, observe, need_public: false, free_bits: false, _t: std::marker::PhantomData }
}

fn pattern(n: usize, k: usize) -> Polynomial<u64> {
    Polynomial::new(&(0..n).map(|i| (i * 5 + k).count_ones() as u64 % 2).collect::<Vec<_>>())
}
fn coeffs(p: &Polynomial<u64>) -> Vec<u8> {
    p.coeffs().iter().map(|x| *x as u8).collect()
}

fn l0(w: &World) -> Vec<L0LweCiphertext> {
    [false, true].iter().map(|b| w.fx.enc.encrypt_lwe_l0_secret(*b, &w.fx.sk)).collect()
}
fn l1(w: &World) -> Vec<L1LweCiphertext> {
    [false, true].iter().map(|b| w.fx.enc.encrypt_lwe_l1_secret(*b, &w.fx.sk)).collect()
}
fn glwe(w: &World) -> Vec<L1GlweCiphertext> {
    (0..3).map(|k| w.fx.enc.encrypt_glwe_l1_secret(&pattern(w.fx.n(), k), &w.fx.sk)).collect()
}
fn glev(w: &World) -> Vec<L1GlevCiphertext> {
    (0..3).map(|k| w.fx.enc.encrypt_glev_l1_secret(&pattern(w.fx.n(), k), &w.fx.sk)).collect()
}
fn obs_int<T: CiphertextOps, U: Sign, const N: usize>(x: &GenericInt<N, T, U>, w: &World) -> Vec<u8>
where
    U::PlaintextType: std::fmt::Debug,
{
    assert_eq!(x.bits.len(), N, "an accepted {N}-bit integer has {} bits", x.bits.len());
    format!("{:?}", x.decrypt(&w.fx.enc, &w.fx.sk)).into_bytes()
}
fn obs_packed<U: Sign>(x: &PackedDynamicGenericInt<L1GlweCiphertext, U>, w: &World) -> Vec<u8>
where
    U::PlaintextType: std::fmt::Debug,
{
    format!("{:?}", x.decrypt(&w.fx.enc, &w.fx.sk)).into_bytes()
}

/// Everything a set of compute keys is used for.
fn with_keys(ck: ComputeKey, w: &World) -> Vec<u8> {
    let ev = Evaluation::new(Arc::new(ck), &w.fx.p, &w.fx.enc);
    let mut out = vec![];
    for x in l0_fixed(w) {
        let mut g = w.fx.enc.allocate_ggsw_l1();
        ev.circuit_bootstrap(&mut g, x);
        out.extend(bytes(&g.0));
    }
    let (a, b) = l1_glev_fixed(w);
    let mut s = w.fx.enc.allocate_lwe_l0();
    ev.keyswitch_lwe_l1_lwe_l0(&mut s, a);
    out.extend(bytes(&s));
    let mut g = w.fx.enc.allocate_ggsw_l1();
    ev.scheme_switch(&mut g, b);
    out.extend(bytes(&g.0));
    out
}
// Fixed inputs must be the same before and after, so they are trivial encryptions.
fn l0_fixed(w: &World) -> Vec<&'static L0LweCiphertext> {
    let e = &w.fx.enc;
    vec![Box::leak(Box::new(e.trivial_lwe_l0_zero())), Box::leak(Box::new(e.trivial_lwe_l0_one()))]
}
fn l1_glev_fixed(w: &World) -> (&'static L1LweCiphertext, &'static L1GlevCiphertext) {
    let e = &w.fx.enc;
    (Box::leak(Box::new(e.trivial_lwe_l1_one())), Box::leak(Box::new(e.trivial_glev_l1_one())))
}

fn subjects() -> Vec<Box<dyn Subject>> {
    use Tok::*;
    let s8 = || vec![Seq(8)];
    let ints = |t: Tok| vec![Vec(Box::new(t))];
    let mut v: std::vec::Vec<Box<dyn Subject>> = vec![];
    v.push(Box::new(of("L0LweCiphertext", s8(), l0, |x: &L0LweCiphertext, w| vec![w.fx.enc.decrypt_lwe_l0(x, &w.fx.sk) as u8])));
    v.push(Box::new(of("L1LweCiphertext", s8(), l1, |x: &L1LweCiphertext, w| vec![w.fx.enc.decrypt_lwe_l1(x, &w.fx.sk) as u8])));
    v.push(Box::new(of("L1GlweCiphertext", s8(), glwe, |x: &L1GlweCiphertext, w| coeffs(&w.fx.enc.decrypt_glwe_l1(x, &w.fx.sk)))));
    v.push(Box::new(of("L1GlevCiphertext", s8(), glev, |x: &L1GlevCiphertext, w| coeffs(&w.fx.enc.decrypt_glev_l1(x, &w.fx.sk)))));

    macro_rules! unpacked {
        ($t:ty, $e:expr, $($n:literal),*) => {{
            v.push(Box::new(of(format!("Bit<{}>", stringify!($t)), vec![Seq($e)],
                |w: &World| [false, true].iter().map(|b| Bit::<$t>::encrypt_secret(*b, &w.fx.enc, &w.fx.sk)).collect(),
                |x: &Bit<$t>, w| vec![x.decrypt(&w.fx.enc, &w.fx.sk) as u8])));
            $(
            v.push(Box::new(of(format!("UInt<{}, {}>", $n, stringify!($t)), ints(Seq($e)),
                |w: &World| [0u128, 1, (1 << $n) - 1].iter().map(|b| UInt::<$n, $t>::encrypt_secret(*b & ((1 << $n) - 1), &w.fx.enc, &w.fx.sk)).collect(),
                obs_int::<$t, Unsigned, $n>)));
            v.push(Box::new(of(format!("Int<{}, {}>", $n, stringify!($t)), ints(Seq($e)),
                |w: &World| [0i128, -1].iter().map(|b| Int::<$n, $t>::encrypt_secret(*b, &w.fx.enc, &w.fx.sk)).collect(),
                obs_int::<$t, Signed, $n>)));
            )*
        }};
    }
    unpacked!(L0LweCiphertext, 8, 1, 2, 3);
    unpacked!(L1LweCiphertext, 8, 2);
    unpacked!(L1GlweCiphertext, 8, 1, 3);
    unpacked!(L1GlevCiphertext, 8, 2);

    macro_rules! packed {
        ($($n:literal),*) => {$(
            v.push(Box::new(of(format!("PackedUInt<{}>", $n), vec![U32, Seq(8)],
                |w: &World| [0u128, 1, (1 << $n) - 1].iter().map(|b| PackedUInt::<$n, L1GlweCiphertext>::trivial_encrypt(*b, &w.fx.enc)).collect(),
                |x: &PackedUInt<$n, L1GlweCiphertext>, w| obs_packed(&**x, w))));
            v.push(Box::new(of(format!("PackedInt<{}>", $n), vec![U32, Seq(8)],
                |w: &World| [0i128, -1].iter().map(|b| PackedInt::<$n, L1GlweCiphertext>::trivial_encrypt(*b, &w.fx.enc)).collect(),
                |x: &PackedInt<$n, L1GlweCiphertext>, w| obs_packed(&**x, w))));
        )*};
    }
    packed!(1, 3, 7);
    let mut d = of("PackedDynamicUInt", vec![U32, Seq(8)],
        |w: &World| (1..w.fx.n()).map(|n| PackedDynamicUInt::<L1GlweCiphertext>::trivial_encrypt((1 << n) - 1, &w.fx.enc, n)).collect(),
        |x: &PackedDynamicUInt<L1GlweCiphertext>, w| obs_packed(x, w));
    d.free_bits = true;
    v.push(Box::new(d));
    let mut d = of("PackedDynamicInt", vec![U32, Seq(8)],
        |w: &World| (1..w.fx.n()).map(|n| PackedDynamicInt::<L1GlweCiphertext>::trivial_encrypt(-1, &w.fx.enc, n)).collect(),
        |x: &PackedDynamicInt<L1GlweCiphertext>, w| obs_packed(x, w));
    d.free_bits = true;
    v.push(Box::new(d));

    v.push(Box::new(of("SecretKey", vec![Seq(8), Seq(8)], |w: &World| vec![w.fx.sk.clone()], |k: &SecretKey, w| {
        let mut o = vec![];
        for x in l0_fixed(w) {
            o.push(w.fx.enc.decrypt_lwe_l0(x, k) as u8);
        }
        o.extend(coeffs(&w.fx.enc.decrypt_glwe_l1(&w.fx.enc.trivial_glwe_l1(&pattern(w.fx.n(), 1)), k)));
        o
    })));
    let mut d = of("PublicKey", vec![Seq(8)], |w: &World| vec![w.fx.pk.clone().unwrap()], |k: &PublicKey, w| {
        rand::mc::seed(77);
        bytes(&w.fx.enc.encrypt_rlwe_l1(&pattern(w.fx.n(), 1), k))
    });
    d.need_public = true;
    v.push(Box::new(d));
    v.push(Box::new(of("ComputeKeyNonFft", vec![Seq(8); 4], |w: &World| vec![ComputeKeyNonFft::generate(&w.fx.sk, &w.fx.p)], |k: &ComputeKeyNonFft, w| with_keys(k.fft(&w.fx.p), w))));
    v.push(Box::new(of("ComputeKey", vec![Seq(16), Seq(8), Seq(16), Seq(16)], |w: &World| vec![ComputeKey::generate(&w.fx.sk, &w.fx.p)], |k: &ComputeKey, w| with_keys(k.clone(), w))));
    let mut d = of("PublicOneTimePad", s8(), |w: &World| vec![generate_one_time_pad(&w.fx.p, &w.fx.enc, w.fx.pk.as_ref().unwrap()).0], |k: &PublicOneTimePad, w| {
        let ev = KeylessEvaluation::new(&w.fx.p, &w.fx.enc);
        bytes(&recrypt_one_time_pad(&w.fx.enc.trivial_glwe_l1(&pattern(w.fx.n(), 2)), k, &ev, &w.fx.enc))
    });
    d.need_public = true;
    v.push(Box::new(d));
    let mut d = of("SecretOneTimePad", s8(), |w: &World| vec![generate_one_time_pad(&w.fx.p, &w.fx.enc, w.fx.pk.as_ref().unwrap()).1], |k: &SecretOneTimePad, w| coeffs(&decrypt_one_time_pad(&pattern(w.fx.n(), 2), k)));
    d.need_public = true;
    v.push(Box::new(d));
    v
}

/// Deserialise `b`: it must not crash nor hold more memory than a fixed preallocation plus a
/// multiple of what an object of this type needs.
fn attempt(s: &dyn Subject, b: &[u8], p: &Params, what: &str) -> Result<Option<Box<dyn Thing>>, String> {
    let (r, mem) = peak(|| catch(|| s.read(b, p)));
    let r = r.map_err(|m| format!("{what}: deserialising crashed: {m}"))?;
    let cap = (3 << 20) + 6 * s.limit(p);
    ensure!(mem <= cap, "{what}: deserialising held {mem} bytes at once, an object needs {}", s.limit(p));
    Ok(r)
}
/// `b` must be refused.
fn refuse(s: &dyn Subject, b: &[u8], p: &Params, what: &str) -> R {
    ensure!(attempt(s, b, p, what)?.is_none(), "{what}: accepted");
    Ok(())
}
/// `b` may be refused; if accepted, it must be the object the bytes describe and usable.
fn sane(s: &dyn Subject, b: &[u8], w: &World, what: &str) -> R {
    if let Some(t) = attempt(s, b, &w.fx.p, what)? {
        let again = t.again();
        ensure!(again.len() <= b.len() && again == b[..again.len()], "{what}: the accepted object is not the one the bytes describe");
        catch(|| t.observe(w)).map_err(|m| format!("{what}: accepted, then using it crashed: {m}"))?;
    }
    Ok(())
}
fn put(b: &[u8], f: &Field, v: u64) -> Vec<u8> {
    let mut o = b.to_vec();
    o[f.0..f.0 + f.1].copy_from_slice(&v.to_le_bytes()[..f.1]);
    o
}

fn struct_values(f: &Field) -> Vec<u64> {
    let n = f.2;
    let mut v: Vec<u64> = (0..64).map(|i| 1u64 << i).chain((0..64).map(|i| (1u64 << i).wrapping_sub(1))).collect();
    v.extend((0..40).chain([n.wrapping_sub(1), n + 1, n * 2, n / 2, n * 8, n * 16, u64::MAX, u64::MAX - 7, u64::MAX / 8, u64::MAX / 8 + 1, u64::MAX / 16 + 1]));
    v.retain(|x| *x != n && (f.1 == 8 || *x <= u32::MAX as u64));
    v.sort();
    v.dedup();
    v
}

/// Does this field count serialised objects (rather than plain elements)?
fn nested(fs: &[Field], k: usize) -> bool {
    let f = &fs[k];
    f.1 == 8 && fs.iter().any(|g| g.0 >= f.0 + 8 && g.0 < f.0 + 8 + f.2 as usize * f.3)
}
/// Set the counts given by `chg`, with content to match.
fn reshape(b: &[u8], fs: &[Field], chg: &[(usize, u64)]) -> Vec<u8> {
    let mut o = b.to_vec();
    let mut chg = chg.to_vec();
    chg.sort_by_key(|c| std::cmp::Reverse(fs[c.0].0));
    for (k, n) in chg {
        let f = &fs[k];
        let body = f.0 + f.1;
        let have = f.2 as usize * f.3;
        let unit = if nested(fs, k) { b[body..body + f.3].to_vec() } else { vec![0; f.3] };
        let mut c: Vec<u8> = b[body..body + have.min(n as usize * f.3)].to_vec();
        while c.len() < n as usize * f.3 {
            c.extend_from_slice(&unit);
        }
        o.splice(body..body + have, c);
        o[f.0..body].copy_from_slice(&n.to_le_bytes()[..f.1]);
    }
    o
}

pub fn run() {
    let ck = Ck::new("R03", "exploration", "an evaluation is one byte string given to the safe deserialiser under one parameter set; non-trivial when it differs from a valid serialisation of that type and set");
    ck.assume("serialised objects carry no parameter-set identifier: bytes of another parameter set can only be told apart when a component's size differs");
    ck.assume("trailing bytes after a complete object are accepted by design (allow_trailing_bytes)");
    ck.assume("a fixed preallocation of up to 1 MiB per sequence (serde's cautious hint) does not count as oversized");
    rand::mc::seed(20261119);
    let ws = worlds(ck.thorough);
    let subs = subjects();
    let mut items = vec![];
    for (i, s) in subs.iter().enumerate() {
        for (j, w) in ws.iter().enumerate() {
            if s.has(w) {
                items.push((i, j));
            }
        }
    }
    let label = |x: &(usize, usize)| format!("{}, {}", subs[x.0].name(), ws[x.1].label);

    ck.par("round trip", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(5);
        for b in s.samples(w) {
            fields(&b, &s.toks(&w.fx.p));
            let plain = attempt(s, &b, &w.fx.p, "the valid object")?;
            let Some(t) = plain else { return Err("the serialised object was refused".into()) };
            cx.ev(true);
            same!(cx, t.again(), b, "serialising again gave other bytes");
            // behaviour: against the object as the plain deserialiser gives it and against itself
            let a = catch(|| t.observe(w)).map_err(|m| format!("using the object crashed: {m}"))?;
            let Some(u) = s.read(&t.again(), &w.fx.p) else { return Err("the object was refused the second time".into()) };
            same!(cx, u.observe(w), a, "the object behaves differently after a second trip");
        }
        Ok(())
    });

    ck.case("behaviour", "the deserialised keys and ciphertexts behave as the originals", |cx| {
        for w in &ws {
            let f = &w.fx;
            let sk: SecretKey = deserialize(&bytes(&f.sk), &f.p).map_err(|e| e.to_string())?;
            let nf = ComputeKeyNonFft::generate(&f.sk, &f.p);
            let nf2: ComputeKeyNonFft = deserialize(&bytes(&nf), &f.p).map_err(|e| e.to_string())?;
            let ffted = nf.fft(&f.p);
            let ffted2: ComputeKey = deserialize(&bytes(&ffted), &f.p).map_err(|e| e.to_string())?;
            let want = with_keys(ffted.clone(), w);
            same!(cx, with_keys(nf2.fft(&f.p), w), want, "{}: non-FFT compute keys", w.label);
            same!(cx, with_keys(ffted2, w), want, "{}: compute keys", w.label);
            for k in 0..8 {
                let m = pattern(f.n(), k);
                let c = f.enc.encrypt_glwe_l1_secret(&m, &f.sk);
                let c2: L1GlweCiphertext = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                same!(cx, f.enc.decrypt_glwe_l1(&c2, &sk), m, "{}: GLWE message {k}", w.label);
                let c = f.enc.encrypt_glev_l1_secret(&m, &f.sk);
                let c2: L1GlevCiphertext = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                same!(cx, f.enc.decrypt_glev_l1(&c2, &sk), m, "{}: GLEV message {k}", w.label);
                if let Some(pk) = &f.pk {
                    let pk2: PublicKey = deserialize(&bytes(pk), &f.p).map_err(|e| e.to_string())?;
                    let c = f.enc.encrypt_rlwe_l1(&m, &pk2);
                    same!(cx, f.enc.decrypt_glwe_l1(&c, &sk), m, "{}: public-key message {k}", w.label);
                    let (po, so) = generate_one_time_pad(&f.p, &f.enc, &pk2);
                    let po: PublicOneTimePad = deserialize(&bytes(&po), &f.p).map_err(|e| e.to_string())?;
                    let so: SecretOneTimePad = deserialize(&bytes(&so), &f.p).map_err(|e| e.to_string())?;
                    let ev = KeylessEvaluation::new(&f.p, &f.enc);
                    let r = f.enc.decrypt_glwe_l1(&recrypt_one_time_pad(&c, &po, &ev, &f.enc), &sk);
                    same!(cx, decrypt_one_time_pad(&r, &so), m, "{}: recrypted message {k}", w.label);
                }
            }
            for v in 0..8u128 {
                macro_rules! int {
                    ($($t:ty),*) => {$(
                        let c = UInt::<3, $t>::encrypt_secret(v, &f.enc, &f.sk);
                        let c: UInt<3, $t> = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                        same!(cx, c.decrypt(&f.enc, &sk), v, "{}: unsigned {}", w.label, stringify!($t));
                        let x = v as i128 - 4;
                        let c = Int::<3, $t>::encrypt_secret(x, &f.enc, &f.sk);
                        let c: Int<3, $t> = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                        same!(cx, c.decrypt(&f.enc, &sk), x, "{}: signed {}", w.label, stringify!($t));
                    )*};
                }
                int!(L0LweCiphertext, L1LweCiphertext, L1GlweCiphertext, L1GlevCiphertext);
                if let Some(pk) = &f.pk {
                    let c = PackedUInt::<3, L1GlweCiphertext>::encrypt(v, &f.enc, pk);
                    let c: PackedUInt<3, L1GlweCiphertext> = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                    same!(cx, c.decrypt(&f.enc, &sk), v, "{}: packed unsigned", w.label);
                    let x = v as i128 - 4;
                    let c = PackedInt::<3, L1GlweCiphertext>::encrypt(x, &f.enc, pk);
                    let c: PackedInt<3, L1GlweCiphertext> = deserialize(&bytes(&c), &f.p).map_err(|e| e.to_string())?;
                    same!(cx, c.decrypt(&f.enc, &sk), x, "{}: packed signed", w.label);
                }
            }
        }
        Ok(())
    });

    ck.par("truncation", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(6);
        for b in s.samples(w) {
            for n in 0..b.len() {
                cx.ev(true);
                refuse(s, &b[..n], &w.fx.p, &format!("truncated to {n} of {} bytes", b.len()))?;
            }
            if !ck.thorough {
                break;
            }
        }
        Ok(())
    });

    // Every value of every byte (of small objects), every bit of every byte (of larger ones).
    ck.par("one corrupted byte", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(7);
        let b = s.samples(w).pop().unwrap();
        let fs = fields(&b, &s.toks(&w.fx.p));
        let shape: Vec<u64> = fs.iter().map(|f| f.2).collect();
        let heavy = s.name().starts_with("Compute");
        if heavy && j > 0 && !ck.thorough {
            return Ok(());
        }
        for at in 0..b.len() {
            let st = fs.iter().position(|f| at >= f.0 && at < f.0 + f.1);
            let all = st.is_some() || b.len() < ck.tier(400, 4000);
            for x in if all { (1..=255u8).collect::<Vec<_>>() } else { (0..8).map(|k| 1 << k).collect() } {
                let mut c = b.clone();
                c[at] ^= x;
                cx.ev(true);
                let what = || format!("byte {at} of {} changed from {:#x} to {:#x}", b.len(), b[at], c[at]);
                match st {
                    Some(k) => {
                        let mut got = shape.clone();
                        got[k] = rd(&c, fs[k].0, fs[k].1);
                        if s.accepts(w, &got, &shape) {
                            sane(s, &c, w, &what())?;
                        } else {
                            refuse(s, &c, &w.fx.p, &what())?;
                        }
                    }
                    None if heavy && at % ck.tier(29, 1) != 0 => {
                        attempt(s, &c, &w.fx.p, &what())?;
                    }
                    None => sane(s, &c, w, &what())?,
                }
            }
        }
        Ok(())
    });

    // Structural fields with every tempting value, with and without matching content.
    ck.par("wrong lengths", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(8);
        for b in s.samples(w) {
            let fs = fields(&b, &s.toks(&w.fx.p));
            let shape: Vec<u64> = fs.iter().map(|f| f.2).collect();
            let judge = |bytes: &[u8], chg: &[(usize, u64)], what: &str| -> R {
                let mut got = shape.clone();
                for (k, v) in chg {
                    got[*k] = *v;
                }
                if s.accepts(w, &got, &shape) { sane(s, bytes, w, what) } else { refuse(s, bytes, &w.fx.p, what) }
            };
            for (k, f) in fs.iter().enumerate() {
                for v in struct_values(f) {
                    let what = format!("length field at {} set to {v} (is {})", f.0, f.2);
                    cx.ev(true);
                    judge(&put(&b, f, v), &[(k, v)], &what)?;
                    let mut c = put(&b, f, v);
                    c.extend(std::iter::repeat(0).take(4096));
                    cx.ev(true);
                    judge(&c, &[(k, v)], &format!("{what}, more bytes following"))?;
                    if f.1 == 8 && f.3 > 0 && v.saturating_mul(f.3 as u64) < 1 << 16 {
                        cx.ev(true);
                        refuse(s, &reshape(&b, &fs, &[(k, v)]), &w.fx.p, &format!("{what}, with matching content"))?;
                    }
                }
            }
            // moving elements from one sequence to another keeps the total
            for a in 0..fs.len() {
                for c in 0..fs.len() {
                    if a == c || fs[a].1 != 8 || fs[c].1 != 8 || fs[a].3 == 0 || fs[c].3 == 0 || nested(&fs, a) || nested(&fs, c) {
                        continue;
                    }
                    for d in 1..=fs[a].2.min(ck.tier(12, 64)) {
                        let moved = d as usize * fs[a].3;
                        if moved % fs[c].3 != 0 {
                            continue;
                        }
                        let e = (moved / fs[c].3) as u64;
                        cx.ev(true);
                        let chg = [(a, fs[a].2 - d), (c, fs[c].2 + e)];
                        refuse(s, &reshape(&b, &fs, &chg), &w.fx.p, &format!("{d} elements moved from sequence {a} to {c}"))?;
                    }
                }
            }
            if !ck.thorough {
                break;
            }
        }
        Ok(())
    });

    // Content that really is there, and is enormous.
    ck.case("oversized content", "eight million elements in every sequence", |cx| {
        let w = &ws[0];
        let big = vec![0u8; 72 << 20];
        for s in &subs {
            let b = s.samples(w).pop().unwrap();
            for f in fields(&b, &s.toks(&w.fx.p)) {
                if f.1 != 8 {
                    continue;
                }
                for n in [1u64 << 17, 1 << 20, 1 << 22] {
                    let mut c = b[..f.0].to_vec();
                    c.extend(n.to_le_bytes());
                    c.extend_from_slice(&big[..(n as usize * f.3.clamp(8, 16)).min(big.len())]);
                    cx.ev(true);
                    refuse(&**s, &c, &w.fx.p, &format!("{}: {n} elements", s.name()))?;
                }
            }
        }
        Ok(())
    });

    // Bytes of another parameter set, or of another type.
    ck.par("another parameter set", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(9);
        for b in s.samples(w) {
            let shape: Vec<u64> = fields(&b, &s.toks(&w.fx.p)).iter().map(|f| f.2).collect();
            for v in &ws {
                if !s.has(v) {
                    continue;
                }
                for o in s.samples(v).iter().take(1) {
                    let other: Vec<u64> = fields(o, &s.toks(&v.fx.p)).iter().map(|f| f.2).collect();
                    cx.ev(v.label != w.label);
                    let what = format!("an object made under '{}' read under '{}'", w.label, v.label);
                    if s.accepts(v, &shape, &other) {
                        sane(s, &b, v, &what)?;
                    } else {
                        refuse(s, &b, &v.fx.p, &what)?;
                    }
                }
            }
        }
        Ok(())
    });
    ck.par("another type", &items, label, |&(i, j), cx| {
        let (s, w) = (&*subs[i], &ws[j]);
        rand::mc::seed(10);
        let mine = s.samples(w).pop().unwrap();
        let my: Vec<Field> = fields(&mine, &s.toks(&w.fx.p));
        for o in &subs {
            if !o.has(w) {
                continue;
            }
            for b in o.samples(w) {
                cx.ev(o.name() != s.name());
                // acceptable exactly when the bytes have this type's structure
                let fits = my.iter().all(|f| f.0 + f.1 <= b.len() && (rd(&b, f.0, f.1) == f.2));
                let what = format!("a {} read as {}", o.name(), s.name());
                if fits && b.len() >= mine.len() {
                    sane(s, &b, w, &what)?;
                } else if my[0].1 == 4 {
                    sane(s, &b, w, &what)?;
                } else {
                    refuse(s, &b, &w.fx.p, &what)?;
                }
            }
        }
        Ok(())
    });

    // The production parameter set: round trip and every corruption of a length field.
    ck.case("production parameters", "ciphertexts under DEFAULT_128", |cx| {
        static ENC: OnceLock<Encryption> = OnceLock::new();
        let p = DEFAULT_128;
        let e = ENC.get_or_init(|| Encryption::new(&DEFAULT_128));
        fn one<T: GetSize + DeserializeOwned + Serialize>(cx: &mut Cx, p: &Params, n: &str, x: &T, elem: usize, nest: bool) -> R {
            let b = bytes(x);
            let y: T = deserialize(&b, p).map_err(|e| format!("{n}: refused: {e}"))?;
            same!(cx, bytes(&y) == b, true, "{n}: another object came back");
            let fs = fields(&b, &if nest { vec![Tok::Vec(Box::new(Tok::Seq(elem)))] } else { vec![Tok::Seq(elem)] });
            for f in &fs {
                for at in f.0..f.0 + 8 {
                    for x in 1..=255u8 {
                        let mut c = b.clone();
                        c[at] ^= x;
                        cx.ev(true);
                        let (r, mem) = peak(|| catch(|| deserialize::<T>(&c, p).is_ok()));
                        ensure!(r == Ok(false), "{n}: length byte {at} changed to {:#x}: {r:?}", c[at]);
                        ensure!(mem < (2 << 20) + 4 * T::get_size(p), "{n}: {mem} bytes held at once");
                    }
                }
            }
            for d in [0, 1, 7, 8, 9, b.len() / 2, b.len() - 8, b.len() - 1] {
                cx.ev(true);
                ensure!(deserialize::<T>(&b[..d], p).is_err(), "{n}: truncation to {d} accepted");
            }
            Ok(())
        }
        one(cx, &p, "L0LweCiphertext", &e.trivial_lwe_l0_one(), 8, false)?;
        one(cx, &p, "L1LweCiphertext", &e.trivial_lwe_l1_one(), 8, false)?;
        one(cx, &p, "L1GlweCiphertext", &e.trivial_glwe_l1_one(), 8, false)?;
        one(cx, &p, "L1GlevCiphertext", &e.trivial_glev_l1_one(), 8, false)?;
        one(cx, &p, "UInt8", &UInt::<8, L0LweCiphertext>::new(e), 8, true)?;
        Ok(())
    });

    ck.finish()
}
