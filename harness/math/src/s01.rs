//! S01: Zq / ZInt against exact integer arithmetic.
use crypto_bigint::Uint;
use mc::{catch, ensure, same, Ck, Cx, R};
use num::traits::ToBytes;
use num::{BigInt, BigUint, Integer, Num, One as _, Signed, Zero as _};
use sunscreen_math::field::{Field, FieldConfig};
use sunscreen_math::ring::{
    extend_bigint, ArithmeticBackend, BarrettBackend, BarrettConfig, FieldBackend, RingModulus, ZInt, Zq,
};
use sunscreen_math::{BarrettConfig, One, Zero};

/// Every modulus that fits the loop, with the precomputed constants taken from their definition.
struct Cfg<const M: u64>;
impl<const M: u64> BarrettConfig<1> for Cfg<M> {
    const MODULUS: Uint<1> = Uint::from_words([M]);
    const MODULUS_DIV_2: Uint<1> = Uint::from_words([M / 2]);
    const R: Uint<1> = Uint::from_words([((1u128 << 64) / M as u128) as u64]);
    const S: Uint<1> = Uint::from_words([{
        // floor(2^128/M) - 2^64*R, by long division
        let t = ((1u128 << 64) % M as u128) << 64;
        (t / M as u128) as u64
    }]);
    const T: Uint<1> = Uint::from_words([((1u128 << 64) % M as u128) as u64]);
}
impl<const M: u64> FieldConfig for Cfg<M> {}

macro_rules! derived {
    ($( $name:ident, $m:literal, $n:literal, $f:literal; )*) => {
        $(
            #[derive(BarrettConfig)]
            #[barrett_config(modulus = $m, num_limbs = $n, is_field = $f)]
            struct $name;
        )*
    };
}
derived! {
    D2, "2", 1, false;
    D16, "16", 1, false;
    D97, "97", 1, true;
    D257, "257", 1, true;
    D65537, "0x10001", 1, true;
    DDead, "0xDEADBEEF", 1, false;
    D32, "0x100000000", 1, false;
    DM31, "2147483647", 1, true;
    DM61, "2305843009213693951", 1, true;
    DMax1, "0x7FFFFFFFFFFFFFFF", 1, false;
    DTop1, "0x8000000000000000", 1, false;
    DPrime63, "9223372036854775783", 1, true;
    DTwo, "0xFFFFFFFFFFFFFFFF", 2, false;
    DSmall2, "0x10001", 2, true;
    DM127, "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", 2, true;
    DTop2, "0x80000000000000000000000000000000", 2, false;
    DFour, "421249101157150430150591791601812858371395928330411389778873040897", 4, false;
    DRist, "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 4, true;
    DThree, "0x7fffffffffffffffffffffffffffffffffffffffffffffe7", 3, false;
    DEight, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff0000000000000000000000000000002b", 8, false;
    L5, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdffffffffff5", 5, false;
    L6, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbffffffffff3", 6, false;
    L7, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7ffffffffff1", 7, false;
    L9, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdffffffffffed", 9, false;
    L10, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbffffffffffeb", 10, false;
    L11, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7ffffffffffe9", 11, false;
    L12, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffffffffe7", 12, false;
    L13, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdfffffffffffe5", 13, false;
    L14, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbfffffffffffe3", 14, false;
    L15, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7fffffffffffe1", 15, false;
    L16, "0x3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffdf", 16, false;
    L9s, "97", 9, true;
}

fn big<const N: usize>(x: &Uint<N>) -> BigUint {
    let mut b = vec![];
    for w in x.as_words() {
        b.extend_from_slice(&w.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
fn uint<const N: usize>(x: &BigUint) -> Uint<N> {
    let d = x.to_u64_digits();
    let mut w = [0u64; N];
    w[..d.len()].copy_from_slice(&d);
    Uint::from_words(w)
}

type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

fn mk<const N: usize, C: BarrettConfig<N>>(v: &BigUint) -> Z<N, C> {
    Z::<N, C>::try_from(uint::<N>(v)).expect("value below the modulus must be accepted")
}
fn out<const N: usize, C: BarrettConfig<N>>(z: Z<N, C>) -> BigUint {
    big(&z.into_bigint())
}

/// All operators on one pair, every reference form.
fn pair<const N: usize, C: BarrettConfig<N>>(m: &BigUint, a: &BigUint, b: &BigUint, za: Z<N, C>, zb: Z<N, C>, cx: &mut Cx) -> R {
    let s = (a + b) % m;
    let d = (a + m - b) % m;
    let p = (a * b) % m;
    for (i, g) in [za + zb, za + &zb, &za + zb, &za + &zb].into_iter().enumerate() {
        same!(cx, out(g), s, "{a} + {b} mod {m} (form {i})");
    }
    for (i, g) in [za - zb, za - &zb, &za - zb, &za - &zb].into_iter().enumerate() {
        same!(cx, out(g), d, "{a} - {b} mod {m} (form {i})");
    }
    for (i, g) in [za * zb, za * &zb, &za * zb, &za * &zb].into_iter().enumerate() {
        same!(cx, out(g), p, "{a} * {b} mod {m} (form {i})");
    }
    same!(cx, za == zb, a == b, "equality of {a} and {b} mod {m}");
    same!(cx, za.cmp(&zb), a.cmp(b), "ordering of {a} and {b} mod {m}");
    same!(cx, za.partial_cmp(&zb), Some(a.cmp(b)), "partial ordering of {a} and {b} mod {m}");
    // equality must agree with the value of computed results as well
    ensure!((za + zb == mk::<N, C>(&s)) && (za - zb == mk::<N, C>(&d)) && (za * zb == mk::<N, C>(&p)),
        "computed results compare unequal to their value: {a}, {b} mod {m}");
    Ok(())
}

fn single<const N: usize, C: BarrettConfig<N>>(m: &BigUint, a: &BigUint, cx: &mut Cx) -> R {
    let z = mk::<N, C>(a);
    same!(cx, out(z), *a, "round trip of {a} mod {m}");
    let n = (m - a) % m;
    same!(cx, out(-z), n, "-{a} mod {m}");
    same!(cx, out(-&z), n, "-&{a} mod {m}");
    same!(cx, z.vartime_is_zero(), a.is_zero(), "is_zero({a}) mod {m}");
    let bytes = bincode::serialize(&z).map_err(|e| format!("serialise {a} mod {m}: {e}"))?;
    let back: Z<N, C> = bincode::deserialize(&bytes).map_err(|e| format!("deserialise {a} mod {m}: {e}"))?;
    same!(cx, out(back), *a, "serialisation of {a} mod {m}");
    Ok(())
}

fn refuse<const N: usize, C: BarrettConfig<N>>(m: &BigUint, v: &BigUint, good: &BigUint, cx: &mut Cx) -> R {
    // v >= m: conversion and deserialisation refuse it
    cx.ev(true);
    ensure!(Z::<N, C>::try_from(uint::<N>(v)).is_err(), "try_from accepts {v} mod {m}");
    let mut bytes = bincode::serialize(&mk::<N, C>(good)).unwrap();
    let l = bytes.len();
    let mut raw = vec![];
    for w in uint::<N>(v).as_words() {
        raw.extend_from_slice(&w.to_le_bytes());
    }
    // the value is the trailing N*8 bytes, or all of it
    if l >= raw.len() {
        bytes[l - raw.len()..].copy_from_slice(&raw);
        let r = bincode::deserialize::<Z<N, C>>(&bytes);
        if let Ok(z) = r {
            ensure!(out(z) < *m, "deserialising {v} mod {m} gives the non-canonical {}", out(z));
        }
    }
    Ok(())
}

fn from_ints<const N: usize, C: BarrettConfig<N>>(m: &BigUint, v: u64, cx: &mut Cx) -> R {
    let want = BigUint::from(v) % m;
    same!(cx, out(Z::<N, C>::from(v)), want, "from u64 {v} mod {m}");
    if let Ok(w) = u32::try_from(v) {
        same!(cx, out(Z::<N, C>::from(w)), want, "from u32 {v} mod {m}");
    }
    let half = m / 2u8;
    let im = BigInt::from(m.clone());
    for s in [v as i64, (v as i64).wrapping_neg()] {
        if s == i64::MIN || BigInt::from(s).abs() > BigInt::from(half.clone()) {
            continue;
        }
        let want = BigInt::from(s).mod_floor(&im).to_biguint().unwrap();
        same!(cx, out(Z::<N, C>::from(s)), want, "from i64 {s} mod {m}");
        if let Ok(w) = i32::try_from(s) {
            same!(cx, out(Z::<N, C>::from(w)), want, "from i32 {s} mod {m}");
        }
    }
    Ok(())
}

fn consts<const N: usize, C: BarrettConfig<N>>(m: &BigUint, cx: &mut Cx) -> R {
    same!(cx, big(&<Z<N, C> as RingModulus<N>>::field_modulus()), *m, "field_modulus");
    same!(cx, big(&<Z<N, C> as RingModulus<16>>::field_modulus()), *m, "field_modulus widened");
    same!(cx, big(&<Z<N, C> as RingModulus<N>>::field_modulus_div_2()), m / 2u8, "field_modulus_div_2");
    same!(cx, big(&<Z<N, C> as RingModulus<16>>::field_modulus_div_2()), m / 2u8, "field_modulus_div_2 widened");
    same!(cx, out(<Z<N, C> as Zero>::zero()), BigUint::zero(), "zero mod {m}");
    same!(cx, out(<Z<N, C> as One>::one()), BigUint::one() % m, "one mod {m}");
    ensure!(big(&<BarrettBackend<N, C> as ArithmeticBackend<N>>::MODULUS) == *m, "MODULUS");
    Ok(())
}

fn inverses<const N: usize, C: BarrettConfig<N>>(m: &BigUint, a: &BigUint, cx: &mut Cx) -> R
where
    BarrettBackend<N, C>: FieldBackend,
{
    if a.is_zero() {
        return Ok(());
    }
    let z = mk::<N, C>(a);
    let i = z.inverse();
    same!(cx, out(i * z), BigUint::one(), "{a} * {a}^-1 mod {m}");
    ensure!(out(i) < *m, "inverse of {a} mod {m} not canonical");
    same!(cx, (a * out(i)) % m, BigUint::one(), "exact {a} * inverse mod {m}");
    Ok(())
}

fn is_prime(m: u64) -> bool {
    m >= 2 && (2..).take_while(|d| d * d <= m).all(|d| m % d != 0)
}

fn small<const M: u64>(ck: &Ck) {
    let m = BigUint::from(M);
    ck.case("small moduli, all pairs", format!("m={M}"), |cx| {
        consts::<1, Cfg<M>>(&m, cx)?;
        let lim = if ck.thorough || M <= 40 || M % 16 < 2 || M > 250 { M } else { 24.min(M) };
        let vals: Vec<BigUint> = (0..M).filter(|x| *x < lim || M - x <= 4).map(BigUint::from).collect();
        let zs: Vec<Z<1, Cfg<M>>> = vals.iter().map(|v| mk(v)).collect();
        for (a, za) in vals.iter().zip(&zs) {
            single::<1, Cfg<M>>(&m, a, cx)?;
            for (b, zb) in vals.iter().zip(&zs) {
                pair::<1, Cfg<M>>(&m, a, b, *za, *zb, cx)?;
            }
            if M > 2 && is_prime(M) {
                inverses::<1, Cfg<M>>(&m, a, cx)?;
            }
        }
        for v in 0..3 * M + 3 {
            from_ints::<1, Cfg<M>>(&m, v, cx)?;
            if v >= M {
                refuse::<1, Cfg<M>>(&m, &BigUint::from(v), &BigUint::zero(), cx)?;
            }
        }
        for k in 0..64 {
            for d in [0u64, 1, u64::MAX] {
                from_ints::<1, Cfg<M>>(&m, (1u64 << k).wrapping_add(d), cx)?;
            }
        }
        cx.sample(|| format!("all {} pairs modulo {M}", vals.len() * vals.len()));
        Ok(())
    });
}

/// Structured operand set: boundary values of the modulus and of every bit position.
fn points(m: &BigUint, dense: bool) -> Vec<BigUint> {
    let mut v = vec![];
    let one = BigUint::one();
    for d in 0u32..4 {
        v.push(BigUint::from(d));
        if *m > BigUint::from(2 * d + 2) {
            v.push(m - (d + 1u32));
            v.push(m / 2u8 - d);
        }
        v.push(m / 2u8 + d);
        v.push(m / 3u8 + d);
        v.push((m * 2u8) / 3u8 + d);
    }
    let step = if dense { 1 } else { (m.bits() / 40).max(1) };
    let mut k = 0;
    while k < m.bits() {
        let p = &one << k;
        v.push(p.clone());
        v.push(&p + &one);
        v.push(&p - &one);
        v.push(m - &p);
        k += step;
    }
    // limb patterns
    let mut k = 64;
    while k <= m.bits() + 64 {
        let p = (&one << k) - &one;
        v.push(&p % m);
        v.push((&p << 32u8) % m);
        k += 64;
    }
    let mut v: Vec<BigUint> = v.into_iter().filter(|x| x < m).collect();
    v.sort();
    v.dedup();
    v
}

fn derived<const N: usize, C: BarrettConfig<N>>(ck: &Ck, modulus: &str, inv: Option<fn(&BigUint, &BigUint, &mut Cx) -> R>) {
    let m = if let Some(h) = modulus.strip_prefix("0x") {
        BigUint::from_str_radix(h, 16).unwrap()
    } else {
        BigUint::from_str_radix(modulus, 10).unwrap()
    };
    let vals = points(&m, ck.thorough);
    ck.case("derived moduli, constants and conversions", format!("m={modulus} limbs={N}"), |cx| {
        consts::<N, C>(&m, cx)?;
        for k in 0..64 {
            for d in [0u64, 1, 2, u64::MAX, u64::MAX - 1] {
                from_ints::<N, C>(&m, (1u64 << k).wrapping_add(d), cx)?;
            }
        }
        if let Some(w) = m.to_u64_digits().first() {
            for d in 0..4u64 {
                for v in [w.wrapping_add(d), w.wrapping_sub(d), w / 2 + d, w / 2 - d.min(w / 2), w.wrapping_mul(2).wrapping_add(d)] {
                    from_ints::<N, C>(&m, v, cx)?;
                }
            }
        }
        let lim = BigUint::one() << (64 * N);
        for k in 0..64 * N {
            for v in [&m + (BigUint::one() << k) - 1u8, (BigUint::one() << k) + &m] {
                if v < lim {
                    refuse::<N, C>(&m, &v, &BigUint::one(), cx)?;
                }
            }
        }
        refuse::<N, C>(&m, &(&lim - 1u8), &BigUint::one(), cx)?;
        Ok(())
    });
    ck.par("derived moduli, boundary pairs", &vals, |a| format!("m={modulus} limbs={N} a={a}"), |a, cx| {
        single::<N, C>(&m, a, cx)?;
        let za = mk::<N, C>(a);
        for b in &vals {
            pair::<N, C>(&m, a, b, za, mk::<N, C>(b), cx)?;
        }
        if let Some(f) = inv {
            f(&m, a, cx)?;
        }
        Ok(())
    });
}

macro_rules! zint {
    ($ck:expr, $t:ty, $vals:expr) => {{
        let vals: Vec<$t> = $vals;
        $ck.case("ZInt", stringify!($t), |cx| {
            same!(cx, <ZInt<$t> as Zero>::zero().0, 0, "zero");
            same!(cx, <ZInt<$t> as One>::one().0, 1, "one");
            for &a in &vals {
                let x = ZInt::<$t>::new(a);
                same!(cx, (-x).0, a.wrapping_neg(), "-{a}");
                same!(cx, (-&x).0, a.wrapping_neg(), "-&{a}");
                same!(cx, ZInt::<$t>::from(a).0, a, "from {a}");
                same!(cx, x.vartime_is_zero(), a == 0, "is_zero {a}");
                same!(cx, x.to_le_bytes().as_ref().to_vec(), a.to_le_bytes().to_vec(), "little-endian bytes of {a}");
                same!(cx, x.to_be_bytes().as_ref().to_vec(), a.to_be_bytes().to_vec(), "big-endian bytes of {a}");
                same!(cx, x.to_ne_bytes().as_ref().to_vec(), a.to_ne_bytes().to_vec(), "native bytes of {a}");
                for &b in &vals {
                    let y = ZInt::<$t>::new(b);
                    for g in [x + y, &x + y, x + &y, &x + &y] { same!(cx, g.0, a.wrapping_add(b), "{a} + {b}"); }
                    for g in [x - y, &x - y, x - &y, &x - &y] { same!(cx, g.0, a.wrapping_sub(b), "{a} - {b}"); }
                    for g in [x * y, &x * y, x * &y, &x * &y] { same!(cx, g.0, a.wrapping_mul(b), "{a} * {b}"); }
                    same!(cx, x == y, a == b, "{a} == {b}");
                    same!(cx, x.cmp(&y), a.cmp(&b), "cmp {a} {b}");
                    same!(cx, x.partial_cmp(&y), Some(a.cmp(&b)), "partial cmp {a} {b}");
                }
            }
            Ok(())
        });
    }};
}
macro_rules! bpts {
    ($t:ty) => {{
        let mut v: Vec<$t> = vec![];
        for k in 0..<$t>::BITS { for d in [0, 1, 2, <$t>::MAX, <$t>::MAX - 1] { v.push(((1 as $t) << k).wrapping_add(d)); v.push(!((1 as $t) << k).wrapping_add(d)); } }
        v.sort(); v.dedup(); v
    }};
}

pub fn run() -> ! {
    let ck = Ck::new("S01", "exploration",
        "all residue pairs of every modulus 2..=256 (quick: 24+boundary residues for some), and all pairs of boundary residues (0, +-1.., m/2, m/3, 2^k, 2^k+-1, m-2^k, limb patterns) of 32 derived moduli with 1..16 limbs up to 2^(64N-1); every operator in every reference form against exact big integers; every evaluation compares one result");
    ck.assume("num::BigUint arithmetic is exact");
    macro_rules! all_small { ($($m:literal)*) => { $( small::<$m>(&ck); )* } }
    all_small!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256);
    macro_rules! d { ($c:ident, $m:literal, $n:literal, true) => { derived::<$n, $c>(&ck, $m, Some(inverses::<$n, $c>)) };
                     ($c:ident, $m:literal, $n:literal, false) => { derived::<$n, $c>(&ck, $m, None) }; }
    d!(D2, "2", 1, false);
    d!(D16, "16", 1, false);
    d!(D97, "97", 1, true);
    d!(D257, "257", 1, true);
    d!(D65537, "0x10001", 1, true);
    d!(DDead, "0xDEADBEEF", 1, false);
    d!(D32, "0x100000000", 1, false);
    d!(DM31, "2147483647", 1, true);
    d!(DM61, "2305843009213693951", 1, true);
    d!(DMax1, "0x7FFFFFFFFFFFFFFF", 1, false);
    d!(DTop1, "0x8000000000000000", 1, false);
    d!(DPrime63, "9223372036854775783", 1, true);
    d!(DTwo, "0xFFFFFFFFFFFFFFFF", 2, false);
    d!(DSmall2, "0x10001", 2, true);
    d!(DM127, "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", 2, true);
    d!(DTop2, "0x80000000000000000000000000000000", 2, false);
    d!(DFour, "421249101157150430150591791601812858371395928330411389778873040897", 4, false);
    d!(DRist, "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 4, true);
    d!(DThree, "0x7fffffffffffffffffffffffffffffffffffffffffffffe7", 3, false);
    d!(DEight, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff0000000000000000000000000000002b", 8, false);
    d!(L5, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdffffffffff5", 5, false);
    d!(L6, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbffffffffff3", 6, false);
    d!(L7, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7ffffffffff1", 7, false);
    d!(L9, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdffffffffffed", 9, false);
    d!(L10, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbffffffffffeb", 10, false);
    d!(L11, "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7ffffffffffe9", 11, false);
    d!(L12, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffffffffe7", 12, false);
    d!(L13, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdfffffffffffe5", 13, false);
    d!(L14, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffbfffffffffffe3", 14, false);
    d!(L15, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7fffffffffffe1", 15, false);
    d!(L16, "0x3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffdf", 16, false);
    d!(L9s, "97", 9, true);
    zint!(ck, u8, (0..=255).collect());
    zint!(ck, u16, bpts!(u16));
    zint!(ck, u32, bpts!(u32));
    zint!(ck, u64, bpts!(u64));
    zint!(ck, u128, bpts!(u128));
    ck.case("extend_bigint", "1..4 limbs into 4", |cx| {
        for k in 0..64 {
            for d in 0..3u64 {
                let v = BigUint::from((1u64 << k).wrapping_sub(d));
                same!(cx, big(&extend_bigint::<4, 1>(&uint::<1>(&v))), v, "extend 1->4");
                let w = &v << 64u8;
                same!(cx, big(&extend_bigint::<4, 2>(&uint::<2>(&w))), w, "extend 2->4");
                same!(cx, big(&extend_bigint::<2, 2>(&uint::<2>(&w))), w, "extend 2->2");
            }
        }
        cx.ev(true);
        ensure!(catch(|| extend_bigint::<1, 2>(&uint::<2>(&BigUint::one()))).is_err(), "narrowing extend accepted");
        Ok(())
    });
    ck.finish()
}
