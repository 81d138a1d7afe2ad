//! T08: the 64-bit prime field 2^64 - 2^32 + 1 against exact arithmetic.
use crate::u::*;
use mc::{ensure, must_panic, same, Ck, Cx, R};
use sunscreen_tfhe::{mc_hooks::*, Inverse, Pow, RootOfUnity};
use num::traits::{WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};
use sunscreen_math::{One, Zero};

const P: u64 = 0xFFFF_FFFF_0000_0001;

fn raw(x: Fg) -> u64 {
    // Fg is a transparent wrapper of one word
    unsafe { std::mem::transmute::<Fg, u64>(x) }
}
fn mulp(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % P as u128) as u64
}
fn powp(a: u64, mut e: u128) -> u64 {
    let (mut r, mut s) = (1u64, a % P);
    while e > 0 {
        if e & 1 == 1 { r = mulp(r, s) }
        s = mulp(s, s);
        e >>= 1;
    }
    r
}

/// Values around every boundary of the word, of the prime and of its halves.
pub fn values(full: bool) -> Vec<u64> {
    let mut v = vec![];
    for c in [0u64, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 63, P, P / 2, P - (1 << 32), u64::MAX, 0xFFFF_FFFF, P / 3, 0x1_0000_0001] {
        for d in 0..=3u64 {
            v.push(c.wrapping_add(d));
            v.push(c.wrapping_sub(d));
        }
    }
    if full { v.extend(patterns(64)) } else {
        for i in 0..64 { v.push(1 << i); v.push((1u64 << i).wrapping_neg()); v.push(P.wrapping_sub(1 << i)); v.push((1u64 << i) - 1); v.push(P.wrapping_add(1 << i)) }
        let mut f = Fill(3);
        for _ in 0..64 { v.push(f.next()) }
    }
    v.sort();
    v.dedup();
    v
}

fn one(a: u64, others: &[u64], cx: &mut Cx) -> R {
    let fa = Fg::new(a);
    let ra = a % P;
    same!(cx, raw(fa), ra, "new({a:#x})");
    same!(cx, raw(Fg::from(a)), ra, "from({a:#x})");
    same!(cx, raw(-fa), (P - ra) % P, "-{a:#x}");
    same!(cx, raw(fa.wrapping_neg()), (P - ra) % P, "wrapping_neg {a:#x}");
    same!(cx, fa.vartime_is_zero(), ra == 0, "is_zero {a:#x}");
    same!(cx, fa + -fa, Fg::zero(), "{a:#x} plus its negation");
    if ra != 0 {
        let i = fa.inverse();
        same!(cx, raw(fa * i), 1, "{a:#x} times its inverse {:#x}", raw(i));
        same!(cx, raw(i), powp(ra, P as u128 - 2), "inverse of {a:#x}");
    }
    for &b in others {
        let fb = Fg::new(b);
        let rb = b % P;
        let sum = ((ra as u128 + rb as u128) % P as u128) as u64;
        let dif = ((ra as u128 + (P - rb) as u128) % P as u128) as u64;
        let prod = mulp(ra, rb);
        cx.ev(true);
        let got = [raw(fa + fb), raw(&fa + &fb), raw(fa.wrapping_add(&fb)), raw(fa.unreduced_add(fb).reduce())];
        ensure!(got == [sum; 4], "{a:#x} + {b:#x}: {got:x?}, expected {sum:#x}");
        let got = [raw(fa - fb), raw(&fa - &fb), raw(fa.wrapping_sub(&fb)), raw(fa.unreduced_sub(fb).reduce())];
        ensure!(got == [dif; 4], "{a:#x} - {b:#x}: {got:x?}, expected {dif:#x}");
        let got = [raw(fa * fb), raw(&fa * &fb), raw(fa.wrapping_mul(&fb)), raw(fa.unreduced_mul(fb).reduce())];
        ensure!(got == [prod; 4], "{a:#x} * {b:#x}: {got:x?}, expected {prod:#x}");
        ensure!((fa == fb) == (ra == rb), "{a:#x} == {b:#x}");
        let c = others[(rb ^ ra) as usize % others.len()];
        for c in [c, 0, P - 1, u64::MAX] {
            let fc = Fg::new(c);
            let want = ((prod as u128 + (c % P) as u128) % P as u128) as u64;
            cx.ev(true);
            ensure!(raw(fa.mad(fb, fc)) == want && raw(fa.unreduced_mad(fb, fc).reduce()) == want, "{a:#x} * {b:#x} + {c:#x}: {:#x}, expected {want:#x}", raw(fa.mad(fb, fc)));
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("T08", "exploration",
        "every pair of boundary values (neighbourhoods of 0, 2^31..2^33, 2^48, 2^63, the prime, its half and third, 2^64, every power of two and its negation, thorough: every word with at most two set or clear bits) through every operation and operator form, including operands at and above the prime; every 128-bit product pattern through reduction; powers for boundary bases and exponents of every exponent width; roots of unity of every order 1..2^32; oracle: 128-bit integer remainder");
    let v = values(false);
    ck.par("operand pairs", &v, |a| format!("{a:#x}"), |a, cx| one(*a, &v, cx));
    if ck.thorough {
        let f = values(true);
        ck.par("operand pairs, dense", &f, |a| format!("{a:#x}"), |a, cx| one(*a, &f, cx));
    }
    let hi: Vec<u64> = values(ck.thorough);
    ck.par("reduction of 128-bit values", &hi, |a| format!("high word {a:#x}"), |h, cx| {
        for l in &v {
            let x = (*h as u128) << 64 | *l as u128;
            same!(cx, raw(Fg159::from(x).reduce()), (x % P as u128) as u64, "{x:#x} reduced");
        }
        Ok(())
    });
    ck.par("powers", &v, |a| format!("{a:#x}"), |&a, cx| {
        let f = Fg::new(a);
        for e in v.iter().copied().chain(0..70) {
            same!(cx, raw(<Fg as Pow<u64>>::pow(&f, e)), powp(a, e as u128), "{a:#x} ^ {e} (u64)");
            same!(cx, raw(<Fg as Pow<u32>>::pow(&f, e as u32)), powp(a, e as u32 as u128), "{a:#x} ^ {} (u32)", e as u32);
            same!(cx, raw(<Fg as Pow<u16>>::pow(&f, e as u16)), powp(a, e as u16 as u128), "{a:#x} ^ {} (u16)", e as u16);
            same!(cx, raw(<Fg as Pow<u8>>::pow(&f, e as u8)), powp(a, e as u8 as u128), "{a:#x} ^ {} (u8)", e as u8);
        }
        Ok(())
    });
    ck.case("roots of unity", "orders 1..2^32", |cx| {
        for i in 0..=32u32 {
            let n = 1u64 << i;
            let w = raw(Fg::nth_root_of_unity(n));
            same!(cx, powp(w, n as u128), 1, "root of order 2^{i} to its order");
            if i > 0 {
                same!(cx, powp(w, n as u128 / 2), P - 1, "root of order 2^{i} to half its order");
            }
            if i > 1 {
                let prev = raw(Fg::nth_root_of_unity(n / 2));
                same!(cx, mulp(w, w), prev, "square of the root of order 2^{i}");
            }
        }
        for n in [0u64, 3, 5, 6, 7, 12, (1 << 32) - 1, (1 << 31) + 1, P] {
            cx.ev(true);
            ensure!(must_panic(|| Fg::nth_root_of_unity(n)), "root of order {n} was not refused");
        }
        same!(cx, (raw(Fg::zero()), raw(Fg::one()), GOLDILOCKS_PRIME), (0, 1, P), "constants");
        Ok(())
    });
    ck.finish()
}
