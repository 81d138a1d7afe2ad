//! S02: polynomials over rings against schoolbook definitions on integer vectors.
use mc::{catch, ensure, same, Ck, Cx, R};
use std::fmt::Debug;
use sunscreen_math::poly::Polynomial;
use sunscreen_math::ring::{BarrettBackend, Ring, ZInt, Zq};
use sunscreen_math::{BarrettConfig, One, Zero};

macro_rules! cfgs { ($($n:ident $m:literal;)*) => { $(#[derive(BarrettConfig)] #[barrett_config(modulus = $m, num_limbs = 1)] struct $n; )* } }
cfgs! { C2 "2"; C3 "3"; C4 "4"; C5 "5"; C6 "6"; C7 "7"; C8 "8"; }

trait El: Ring + Copy {
    const Q: u64;
    fn enc(v: u64) -> Self;
    fn dec(&self) -> u64;
}
macro_rules! el { ($($c:ident $q:literal;)*) => { $(impl El for Zq<1, BarrettBackend<1, $c>> {
    const Q: u64 = $q;
    fn enc(v: u64) -> Self { Self::from(v) }
    fn dec(&self) -> u64 { self.into_bigint().as_words()[0] }
})* } }
el! { C2 2; C3 3; C4 4; C5 5; C6 6; C7 7; C8 8; }
impl El for ZInt<u8> {
    const Q: u64 = 256;
    fn enc(v: u64) -> Self { ZInt(v as u8) }
    fn dec(&self) -> u64 { self.0 as u64 }
}

type V = Vec<u64>;
fn trim(v: &[u64]) -> V {
    let mut v = v.to_vec();
    while v.last() == Some(&0) { v.pop(); }
    v
}
fn add(a: &[u64], b: &[u64], q: u64) -> V {
    (0..a.len().max(b.len())).map(|i| (a.get(i).unwrap_or(&0) + b.get(i).unwrap_or(&0)) % q).collect()
}
fn sub(a: &[u64], b: &[u64], q: u64) -> V {
    (0..a.len().max(b.len())).map(|i| (a.get(i).unwrap_or(&0) + q - b.get(i).unwrap_or(&0)) % q).collect()
}
fn mul(a: &[u64], b: &[u64], q: u64) -> V {
    let mut o = vec![0; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] = (o[i + j] + x * y) % q;
        }
    }
    o
}
fn eval(a: &[u64], x: u64, q: u64) -> u64 {
    a.iter().rev().fold(0, |s, c| (s * x + c) % q)
}

fn p<T: El>(v: &[u64]) -> Polynomial<T> {
    Polynomial { coeffs: v.iter().map(|x| T::enc(*x)).collect() }
}
fn u<T: El>(p: &Polynomial<T>) -> V {
    p.coeffs.iter().map(|x| x.dec()).collect()
}

fn all(alphabet: &[u64], max_len: usize) -> Vec<V> {
    let mut out = vec![vec![]];
    let mut cur = vec![vec![]];
    for _ in 0..max_len {
        let mut nx = vec![];
        for v in &cur {
            for a in alphabet {
                let mut w: V = v.clone();
                w.push(*a);
                nx.push(w);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

fn one_poly<T: El + Debug>(a: &V, cx: &mut Cx) -> R {
    let q = T::Q;
    let pa = p::<T>(a);
    same!(cx, u(&Polynomial::<T>::new(&pa.coeffs)), *a, "new({a:?})");
    let t = trim(a);
    same!(cx, pa.vartime_is_zero(), t.is_empty(), "is_zero({a:?}) mod {q}");
    if t.is_empty() {
        cx.ev(true);
        ensure!(catch(|| pa.vartime_degree()).is_err(), "degree of the zero polynomial {a:?} reported");
    } else {
        same!(cx, pa.vartime_degree(), t.len() - 1, "degree of {a:?} mod {q}");
    }
    same!(cx, trim(&u(&-pa.clone())), trim(&sub(&[], a, q)), "-{a:?} mod {q}");
    for x in 0..q.min(9) {
        same!(cx, pa.evaluate(&T::enc(x)).dec(), eval(a, x, q), "{a:?} at {x} mod {q}");
        let s: V = a.iter().map(|c| c * x % q).collect();
        let k = T::enc(x);
        for g in [&pa * &k, pa.clone() * &k, &pa * k, pa.clone() * k] {
            same!(cx, trim(&u(&g)), trim(&s), "{a:?} * scalar {x} mod {q}");
        }
    }
    for i in 0..a.len() {
        same!(cx, pa[i].dec(), a[i], "coefficient {i} of {a:?}");
        let mut m = pa.clone();
        m[i] = T::enc(1);
        let mut w = a.clone();
        w[i] = 1;
        same!(cx, u(&m), w, "assigning coefficient {i} of {a:?}");
    }
    Ok(())
}

fn two_poly<T: El + Debug>(a: &V, b: &V, cx: &mut Cx) -> R {
    let q = T::Q;
    let (pa, pb) = (p::<T>(a), p::<T>(b));
    let (ta, tb) = (trim(a), trim(b));
    same!(cx, pa == pb, ta == tb, "{a:?} == {b:?} mod {q}");
    same!(cx, trim(&u(&(&pa + &pb))), trim(&add(a, b, q)), "{a:?} + {b:?} mod {q}");
    same!(cx, trim(&u(&(&pa - &pb))), trim(&sub(a, b, q)), "{a:?} - {b:?} mod {q}");
    same!(cx, trim(&u(&(&pa * &pb))), trim(&mul(a, b, q)), "{a:?} * {b:?} mod {q}");
    // owned/borrowed forms
    for g in [pa.clone() + &pb, &pa + pb.clone(), pa.clone() + pb.clone()] {
        same!(cx, trim(&u(&g)), trim(&add(a, b, q)), "{a:?} + {b:?} mod {q}, owned forms");
    }
    for g in [pa.clone() - &pb, &pa - pb.clone(), pa.clone() - pb.clone()] {
        same!(cx, trim(&u(&g)), trim(&sub(a, b, q)), "{a:?} - {b:?} mod {q}, owned forms");
    }
    for g in [pa.clone() * &pb, &pa * pb.clone(), pa.clone() * pb.clone()] {
        same!(cx, trim(&u(&g)), trim(&mul(a, b, q)), "{a:?} * {b:?} mod {q}, owned forms");
    }
    // division
    cx.ev(true);
    let r = catch(|| pa.vartime_div_rem_restricted_rhs(&pb));
    if tb.last() == Some(&1) {
        let (qq, rr) = match r {
            Ok(x) => x,
            Err(e) => return Err(format!("{a:?} / {b:?} mod {q} by a monic divisor panics: {e}")),
        };
        let (qq, rr) = (u(&qq), u(&rr));
        ensure!(trim(&add(&mul(&qq, b, q), &rr, q)) == ta, "{a:?} / {b:?} mod {q}: q={qq:?} r={rr:?} do not recompose");
        ensure!(trim(&rr).len() < tb.len(), "{a:?} / {b:?} mod {q}: remainder {rr:?} not smaller than the divisor");
    } else {
        ensure!(r.is_err(), "{a:?} / {b:?} mod {q}: a divisor whose leading coefficient is not one is documented to panic, got {:?}", r.map(|x| (u(&x.0), u(&x.1))));
    }
    Ok(())
}

fn ring<T: El + Debug>(ck: &Ck, name: &str, alphabet: &[u64], len: usize) {
    let polys = all(alphabet, len);
    ck.case("constants", name, |cx| {
        same!(cx, u(&Polynomial::<T>::zero()).iter().all(|x| *x == 0), true, "zero");
        same!(cx, trim(&u(&Polynomial::<T>::one())), vec![1], "one");
        Ok(())
    });
    ck.par(&format!("{name}, single, up to {len} coefficients"), &polys, |a| format!("{a:?}"), |a, cx| one_poly::<T>(a, cx));
    ck.par(&format!("{name}, pairs, up to {len} coefficients"), &polys, |a| format!("{a:?}"), |a, cx| {
        for b in &polys {
            two_poly::<T>(a, b, cx)?;
        }
        Ok(())
    });
}

pub fn run() -> ! {
    let ck = Ck::new("S02", "exploration",
        "all ordered pairs of polynomials with up to L coefficients (leading zeros included) over Z_2..Z_8 and Z_256 (boundary coefficients), checked against schoolbook integer-vector definitions; each comparison is one evaluation");
    ring::<Zq<1, BarrettBackend<1, C2>>>(&ck, "Z_2", &[0, 1], ck.tier(7, 9));
    ring::<Zq<1, BarrettBackend<1, C3>>>(&ck, "Z_3", &[0, 1, 2], ck.tier(5, 6));
    ring::<Zq<1, BarrettBackend<1, C4>>>(&ck, "Z_4", &[0, 1, 2, 3], ck.tier(4, 5));
    ring::<Zq<1, BarrettBackend<1, C5>>>(&ck, "Z_5", &[0, 1, 2, 3, 4], ck.tier(3, 4));
    ring::<Zq<1, BarrettBackend<1, C6>>>(&ck, "Z_6", &[0, 1, 2, 3, 4, 5], ck.tier(3, 4));
    ring::<Zq<1, BarrettBackend<1, C7>>>(&ck, "Z_7", &[0, 1, 2, 3, 4, 5, 6], 3);
    ring::<Zq<1, BarrettBackend<1, C8>>>(&ck, "Z_8", &[0, 1, 2, 3, 4, 5, 6, 7], 3);
    ring::<ZInt<u8>>(&ck, "Z_256", &[0, 1, 2, 127, 128, 255], ck.tier(3, 4));
    // polynomials as coefficients of polynomials
    let inner = all(&[0, 1, 2], 2);
    ck.par("polynomials over Z_3[x]", &inner, |a| format!("{a:?}"), |a, cx| {
        type T = Zq<1, BarrettBackend<1, C3>>;
        for b in &inner { for c in &inner { for d in &inner {
            let l = Polynomial::<Polynomial<T>> { coeffs: vec![p(a), p(b)] };
            let r = Polynomial::<Polynomial<T>> { coeffs: vec![p(c), p(d)] };
            let g = &l * &r;
            let want = [mul(a, c, 3), add(&mul(a, d, 3), &mul(b, c, 3), 3), mul(b, d, 3)];
            for i in 0..3 { same!(cx, trim(&u(&g.coeffs[i])), trim(&want[i]), "coefficient {i} of ({a:?} + {b:?} y)({c:?} + {d:?} y)"); }
            let same_poly = trim(a) == trim(c) && trim(b) == trim(d);
            same!(cx, l == r, same_poly, "({a:?} + {b:?} y) == ({c:?} + {d:?} y)");
        } } }
        Ok(())
    });
    ck.finish()
}
