//! T03: torus encoding, radix decomposition, modulus switching, rounded division.
use crate::u::*;
use mc::{ensure, same, Ck, Cx, R};
use num::ToPrimitive;
use sunscreen_tfhe::{
    entities::{LweCiphertext, Polynomial, PolynomialList},
    normalized_torus_distance,
    ops::ciphertext::lwe_ciphertext_modulus_switch,
    ops::polynomial::{decode_polynomial, encode_polynomial},
    radix::{recompose_and_add, scale_by_decomposition_factor, PolynomialRadixIterator, ScalarRadixIterator},
    rand::Stddev,
    LweDef, LweDimension, PlaintextBits, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, RoundedDiv, FromF64, ToF64, ToU64, Torus, TorusOps,
};

/// Nearest multiple of 2^(bits-p), as an integer modulo 2^p, ties up.
fn nearest(x: u64, bits: u32, p: u32) -> u64 {
    let half = 1u128 << (bits - p - 1);
    (((x as u128 + half) >> (bits - p)) as u64) & mask(p)
}

fn messages(p: u32) -> Vec<u64> {
    if p <= 12 { (0..1u64 << p).collect() } else { patterns(p) }
}

fn coding<S: TorusOps>(p: u32, cx: &mut Cx) -> R {
    let bits = S::BITS;
    let pb = PlaintextBits(p);
    let gap = 1u64 << (bits - p);
    let half = gap / 2;
    let mut offs: Vec<u64> = vec![0, 1, half.wrapping_sub(1), half, half + 1, gap - 1, half / 2, gap - half / 2];
    offs.retain(|o| *o < gap);
    offs.sort();
    offs.dedup();
    let ms = messages(p);
    for &m in &ms {
        let e = Torus::<S>::encode(S::from_u64(m), pb);
        same!(cx, un(e), m << (bits - p), "encode {m} on {p} bits");
        same!(cx, e.decode(pb).to_u64(), m, "decode(encode {m}) on {p} bits");
        for &o in &offs {
            let x = (m << (bits - p)).wrapping_add(o) & mask(bits);
            same!(cx, t::<S>(x).decode(pb).to_u64(), nearest(x, bits, p), "decode {x:#x} on {p} bits");
            let d = t::<S>(x).normalized_torus_distance(&e);
            ensure!(d.abs() <= 0.5, "torus distance {d}");
            let back = o as f64 / (bits as f64).exp2();
            let back = if back > 0.5 { back - 1.0 } else { back };
            ensure!((d + back).abs() < 1e-9 || (d.abs() == 0.5), "distance from {x:#x} to the encoding is {d}, expected {}", -back);
            same!(cx, normalized_torus_distance(&e, &t::<S>(x)), -d, "distance is antisymmetric") ;
        }
    }
    for x in patterns(bits) {
        same!(cx, t::<S>(x).decode(pb).to_u64(), nearest(x, bits, p), "decode {x:#x} on {p} bits");
    }
    // whole polynomials
    let msg = Polynomial::new(&ms.iter().map(|m| S::from_u64(*m)).collect::<Vec<_>>());
    let mut enc = Polynomial::new(&vec![t::<S>(0x1234567); ms.len()]);
    encode_polynomial(&mut enc, &msg, pb);
    let mut dec = Polynomial::new(&vec![S::from_u64(0x7654321); ms.len()]);
    decode_polynomial(&mut dec, &enc, pb);
    for (i, m) in ms.iter().enumerate() {
        same!(cx, un(enc.coeffs()[i]), m << (bits - p), "coefficient {i}");
        same!(cx, dec.coeffs()[i].to_u64(), *m, "coefficient {i}");
    }
    Ok(())
}

/// x rounded to the top `l` bits, as an integer modulo 2^bits (ties up).
fn rounded(x: u64, bits: u32, l: u32) -> u64 {
    if l == bits {
        return x;
    }
    let half = 1u128 << (bits - l - 1);
    ((((x as u128 + half) >> (bits - l)) << (bits - l)) as u64) & mask(bits)
}

fn radix_case<S: TorusOps>(log: usize, count: usize, cx: &mut Cx) -> R {
    let bits = S::BITS;
    let r = RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    r.assert_valid::<S>();
    let l = (log * count) as u32;
    let mut vals = patterns(bits);
    if l <= 12 {
        // every leading pattern with every rounding situation
        let k = (l + 2).min(bits);
        for top in 0..1u64 << k {
            let x = top << (bits - k);
            vals.push(x);
            vals.push(x | (mask(bits - k)));
        }
    } else {
        // boundary digits in every pair of neighbouring positions
        let b = 1u64 << log;
        let ds = [0, 1, b / 2 - (b > 2) as u64, b / 2, (b / 2 + 1) & (b - 1), b - 1];
        for pos in 0..count {
            for &d0 in &ds {
                for &d1 in &ds {
                    for &fill in &[0, b / 2, b - 1] {
                        let mut x = 0u64;
                        for p in 0..count {
                            let d = if p == pos { d0 } else if p == (pos + 1) % count { d1 } else { fill };
                            x |= d << (bits as usize - log * (p + 1));
                        }
                        vals.push(x);
                        if l < bits {
                            vals.push(x | (1 << (bits - l - 1)));
                        }
                    }
                }
            }
        }
    }
    let b = 1i128 << log;
    let check = |x: u64, digits: &[u64], cx: &mut Cx| -> R {
        let mut sum = 0u64;
        for (i, d) in digits.iter().enumerate() {
            // digits run from least to most significant
            let sd = if *d > mask(bits) >> 1 { *d as i128 - (1i128 << bits) } else { *d as i128 };
            ensure!(-b / 2 <= sd && sd < b / 2 || (log == bits as usize), "{x:#x}: digit {i} is {sd}, outside [-{0}, {0})", b / 2);
            let j = count - 1 - i;
            sum = sum.wrapping_add(d.wrapping_mul(1u64 << (bits as usize - log * (j + 1)))) & mask(bits);
            let f = scale_by_decomposition_factor(S::from_u64(*d), j, &r).to_u64();
            same!(cx, f, d.wrapping_mul(1u64 << (bits as usize - log * (j + 1))) & mask(bits), "factor of digit {j}");
        }
        same!(cx, sum, rounded(x, bits, l), "recomposition of {x:#x}");
        Ok(())
    };
    for &x in &vals {
        let it = ScalarRadixIterator::new(t::<S>(x), &r);
        let d: Vec<u64> = it.take(count + 3).map(|x| x.to_u64()).collect();
        same!(cx, d.len(), count, "number of digits");
        check(x, &d, cx)?;
    }
    if l < bits {
        // the polynomial form, on the same values
        let n = vals.len();
        let p = Polynomial::new(&vals.iter().map(|x| t::<S>(*x)).collect::<Vec<_>>());
        let mut scratch = Polynomial::new(&vec![S::from_u64(0xA5A5A5A5); n]);
        let mut digs: Vec<Vec<u64>> = vec![];
        let mut list = PolynomialList::<S>::new(PolynomialDegree(n), count);
        {
            let mut it = PolynomialRadixIterator::new(&p, &mut scratch, &r);
            for dst in list.iter_mut(PolynomialDegree(n)) {
                ensure!(it.write_next(dst).is_some(), "digit missing");
                digs.push(dst.coeffs().iter().map(|x| x.to_u64()).collect());
            }
            let mut extra = Polynomial::new(&vec![S::from_u64(3); n]);
            ensure!(it.write_next(&mut extra).is_none(), "one digit too many");
            ensure!(extra.coeffs().iter().all(|x| x.to_u64() == 3), "output written after the last digit");
        }
        for i in 0..n {
            let d: Vec<u64> = digs.iter().map(|v| v[i]).collect();
            check(vals[i], &d, cx)?;
        }
        for base in [0u64, 0x1234_5678_9ABC_DEF1] {
            let mut out = Polynomial::new(&vec![t::<S>(base); n]);
            recompose_and_add(&mut out, &mut list.iter(PolynomialDegree(n)), RadixLog(log), RadixCount(count));
            for i in 0..n {
                same!(cx, un(out.coeffs()[i]), rounded(vals[i], bits, l).wrapping_add(base) & mask(bits), "recompose_and_add of {:#x}", vals[i]);
            }
        }
    }
    Ok(())
}

fn modswitch<S: TorusOps>(chi: u32, v: u32, lm: u32, cx: &mut Cx) -> R {
    let bits = S::BITS;
    let keep = lm - v;
    let mut vals = patterns(bits);
    let k = (keep + chi + 2).min(12);
    for top in 0..1u64 << k {
        let x = top << (bits - k);
        vals.extend([x, x | mask(bits - k)]);
    }
    // one ciphertext holding everything
    let params = LweDef { dim: LweDimension(vals.len() - 1), std: Stddev(0.0) };
    let mut ct = LweCiphertext::<S>::new(&params);
    {
        let (a, b) = ct.a_b_mut(&params);
        for (a, x) in a.iter_mut().zip(vals.iter()) {
            *a = t(*x);
        }
        *b = t(*vals.last().unwrap());
    }
    lwe_ciphertext_modulus_switch(&mut ct, chi, v, lm, &params);
    let (a, b) = ct.a_b(&params);
    for (i, x) in vals.iter().enumerate() {
        let y = (x << chi) & mask(bits);
        let want = (nearest(y, bits, keep) << v) & mask(lm);
        let got = un(if i + 1 == vals.len() { *b } else { a[i] }) & mask(lm);
        same!(cx, got, want, "switch of {x:#x} (skip {chi}, pad {v}, modulus 2^{lm})");
    }
    Ok(())
}

macro_rules! div_all {
    ($ck:expr, $t:ty, $it:expr) => {
        $ck.case("rounded division", format!("all pairs of {}", stringify!($t)), |cx| {
            for d in $it {
                if d == 0 {
                    continue;
                }
                for n in $it {
                    let (n, d): ($t, $t) = (n, d);
                    div_one(n.to_i128().unwrap(), d.to_i128().unwrap(), <$t>::MIN.to_i128().unwrap(), <$t>::MAX.to_i128().unwrap(),
                        || n.div_rounded(d).to_i128().unwrap(), cx)?;
                }
            }
            Ok(())
        });
    };
}

/// The exact quotient n/d must be within one half of the result; on a tie either neighbour that the
/// convention "half rounds away from zero" gives.
fn div_one(n: i128, d: i128, lo: i128, hi: i128, f: impl FnOnce() -> i128, cx: &mut Cx) -> R {
    let (an, ad) = (n.unsigned_abs(), d.unsigned_abs());
    let mut q = an / ad;
    let r = an % ad;
    if r >= ad - r {
        q += 1;
    }
    let want = if (n < 0) != (d < 0) { -(q as i128) } else { q as i128 };
    if want < lo || want > hi {
        return Ok(());
    }
    let got = mc::catch(f);
    same!(cx, got, Ok(want), "{n} / {d} rounded");
    Ok(())
}

/// Every operator on a pair of torus words, in every reference form.
fn torus_pairs<S: TorusOps>(x: u64, vals: &[u64], cx: &mut Cx) -> R {
    let (bits, m) = (S::BITS, mask(S::BITS));
    let a = t::<S>(x);
    let modulus = (bits as f64).exp2();
    same!(cx, un(-a), x.wrapping_neg() & m, "-{x:#x}");
    same!(cx, un(num::traits::WrappingNeg::wrapping_neg(&a)), x.wrapping_neg() & m, "wrapping -{x:#x}");
    same!(cx, a.inner().to_u64(), x, "inner of {x:#x}");
    same!(cx, a.to_u64(), x, "to_u64 of {x:#x}");
    same!(cx, num::Zero::is_zero(&a), x == 0, "is_zero of {x:#x}");
    same!(cx, sunscreen_tfhe::Zero::vartime_is_zero(&a), x == 0, "vartime_is_zero of {x:#x}");
    // 24 or 53 bits survive; the value may round up to a whole turn
    let want = if bits == 32 { x as u32 as f64 } else { x as f64 };
    same!(cx, a.to_f64(), want, "{x:#x} as a double");
    same!(cx, a.normalized_torus(), want / modulus, "position of {x:#x}");
    let signed = if bits == 32 { x as u32 as i32 as f64 } else { x as i64 as f64 };
    if signed.abs() < modulus / 2.0 {
        let back = if bits == 32 { (signed as i32) as u32 as u64 } else { (signed as i64) as u64 };
        same!(cx, un(<Torus<S> as FromF64>::from_f64(signed)), back, "from the double {signed}");
        same!(cx, S::from_f64(signed).to_u64(), back, "from the double {signed}");
    }
    for k in 0..bits as usize {
        same!(cx, un(a << k), (x << k) & m, "{x:#x} << {k}");
        same!(cx, un(&a << &k), (x << k) & m, "{x:#x} << {k}");
        same!(cx, un(a >> k), x >> k, "{x:#x} >> {k}");
        same!(cx, un(&a >> &k), x >> k, "{x:#x} >> {k}");
    }
    for &y in vals {
        let b = t::<S>(y);
        let s = S::from_u64(y);
        for (f, g) in [a + b, &a + b, a + &b, &a + &b, num::traits::WrappingAdd::wrapping_add(&a, &b)].into_iter().enumerate() { same!(cx, un(g), x.wrapping_add(y) & m, "{x:#x} + {y:#x} (form {f})") }
        for (f, g) in [a - b, &a - b, a - &b, &a - &b, num::traits::WrappingSub::wrapping_sub(&a, &b)].into_iter().enumerate() { same!(cx, un(g), x.wrapping_sub(y) & m, "{x:#x} - {y:#x} (form {f})") }
        for (f, g) in [a * s, &a * s, a * &s, &a * &s].into_iter().enumerate() { same!(cx, un(g), x.wrapping_mul(y) & m, "{x:#x} * {y:#x} (form {f})") }
        for (f, g) in [a & b, &a & b, a & &b, &a & &b].into_iter().enumerate() { same!(cx, un(g), x & y, "{x:#x} & {y:#x} (form {f})") }
        let (mut c, mut d, mut e, mut f) = (a, a, a, a);
        c += b;
        d += &b;
        e -= b;
        f -= &b;
        same!(cx, (un(c), un(d)), (x.wrapping_add(y) & m, x.wrapping_add(y) & m), "{x:#x} += {y:#x}");
        same!(cx, (un(e), un(f)), (x.wrapping_sub(y) & m, x.wrapping_sub(y) & m), "{x:#x} -= {y:#x}");
        same!(cx, un(num::traits::MulAdd::mul_add(a, s, b)), x.wrapping_mul(y).wrapping_add(y) & m, "{x:#x} * {y:#x} + {y:#x}");
        same!(cx, un([a, b, a, b, b].into_iter().sum::<Torus<S>>()), x.wrapping_mul(2).wrapping_add(y.wrapping_mul(3)) & m, "sum of {x:#x} and {y:#x}");
        same!(cx, a == b, x == y, "{x:#x} == {y:#x}");
        same!(cx, a.partial_cmp(&b), x.partial_cmp(&y), "order of {x:#x} and {y:#x}");
    }
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("T03", "exploration",
        "for every plaintext width: every message up to 12 bits (above: every message with at most two set or clear bits and neighbours) at every rounding position; for every valid radix (log, count): every leading pattern up to 12 digits bits and every boundary digit pair, scalar and polynomial; every modulus-switch shape; rounded division over all pairs of 8-bit values; each comparison with exact integer arithmetic is one evaluation");
    let ps: Vec<u32> = (1..32).collect();
    ck.par("coding u32", &ps, |p| format!("{p} bits"), |&p, cx| coding::<u32>(p, cx));
    let ps: Vec<u32> = (1..64).collect();
    ck.par("coding u64", &ps, |p| format!("{p} bits"), |&p, cx| coding::<u64>(p, cx));
    if ck.thorough {
        let ps: Vec<(u32, u64)> = [1u32, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 24, 30, 31].iter().flat_map(|p| (0..16u64).map(move |c| (*p, c))).collect();
        ck.set_case_limit(2000);
        ck.par("coding u32, all 2^32 torus values", &ps, |p| format!("{} bits, part {}", p.0, p.1), |&(p, c), cx| {
            for x in c << 28..(c + 1) << 28 {
                let g = t::<u32>(x).decode(PlaintextBits(p)) as u64;
                if g != nearest(x, 32, p) {
                    return Err(format!("decode {x:#x}: {g}"));
                }
            }
            cx.evals += 1 << 28;
            cx.nt += 1 << 28;
            Ok(())
        });
    }
    let shapes = |bits: usize| -> Vec<(usize, usize)> { (1..=bits).flat_map(|l| (1..=bits / l).map(move |c| (l, c))).collect() };
    ck.par("radix u32", &shapes(32), |r| format!("log {} count {}", r.0, r.1), |&(l, c), cx| radix_case::<u32>(l, c, cx));
    ck.par("radix u64", &shapes(64), |r| format!("log {} count {}", r.0, r.1), |&(l, c), cx| radix_case::<u64>(l, c, cx));
    let mut ms = vec![];
    for lm in 1..=14u32 {
        for v in 0..lm {
            for chi in 0..=4 {
                ms.push((chi, v, lm));
            }
        }
    }
    ck.par("modulus switch u32", &ms, |m| format!("{m:?}"), |&(c, v, l), cx| modswitch::<u32>(c, v, l, cx));
    ck.par("modulus switch u64", &ms, |m| format!("{m:?}"), |&(c, v, l), cx| modswitch::<u64>(c, v, l, cx));
    div_all!(ck, u8, 0..=u8::MAX);
    div_all!(ck, i8, i8::MIN..=i8::MAX);
    macro_rules! div_edges {
        ($($t:ty),*) => {$(
            ck.case("rounded division", format!("edges of {}", stringify!($t)), |cx| {
                let b = (std::mem::size_of::<$t>() * 8) as u32;
                let mut v: Vec<$t> = vec![];
                for i in 0..b {
                    let x = (1 as $t).wrapping_shl(i);
                    for d in 0..4 as $t { v.extend([x.wrapping_add(d), x.wrapping_sub(d), (0 as $t).wrapping_sub(x).wrapping_add(d), (x as $t).wrapping_mul(3).wrapping_add(d)]); }
                }
                v.sort(); v.dedup();
                for &n in &v { for &d in &v {
                    if d == 0 { continue; }
                    if let (Some(ni), Some(di)) = (n.to_i128(), d.to_i128()) {
                        if ni == i128::MIN || di == i128::MIN { continue; }
                        div_one(ni, di, <$t>::MIN.to_i128().unwrap(), <$t>::MAX.to_i128().unwrap_or(i128::MAX), || n.div_rounded(d).to_i128().unwrap(), cx)?;
                    }
                }}
                Ok(())
            });
        )*};
    }
    div_edges!(u16, u32, u64, u128, usize, i16, i32, i64, i128, isize);
    let tv: Vec<u64> = if ck.thorough { patterns(64) } else { patterns(64).into_iter().step_by(7).chain(edge(64)).collect() };
    ck.par("torus words", &tv, |x| format!("u64 {x:#x}"), |x, cx| torus_pairs::<u64>(*x, &tv, cx));
    let tv: Vec<u64> = if ck.thorough { patterns(32) } else { patterns(32).into_iter().step_by(3).chain(edge(32)).collect() };
    ck.par("torus words", &tv, |x| format!("u32 {x:#x}"), |x, cx| torus_pairs::<u32>(*x, &tv, cx));
    ck.case("switch to a smaller word", "u64 to u32", |cx| {
        for x in patterns(64) {
            let got: Torus<u32> = t::<u64>(x).switch_modulus_smaller();
            let want = nearest(x, 64, 32);
            cx.ev(true);
            let d = un(got).wrapping_sub(want) as u32 as i32;
            // the nearest or (for a value lying between two points) the truncated neighbour
            ensure!(d == 0 || (d == -1 && (x >> 31) & 1 == 1), "{x:#x} -> {:#x}, nearest is {want:#x}", un(got));
        }
        Ok(())
    });
    ck.finish()
}
