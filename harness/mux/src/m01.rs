//! M01: every library circuit computes its integer operation.
use crate::prog::*;
use mc::*;
use mux_circuits::bitshift::{bitshift, ShiftDirection, ShiftMode};
use mux_circuits::mul::*;
use mux_circuits::*;
use std::cmp::Ordering;

const LANES: [u64; 6] = [
    0xaaaa_aaaa_aaaa_aaaa,
    0xcccc_cccc_cccc_cccc,
    0xf0f0_f0f0_f0f0_f0f0,
    0xff00_ff00_ff00_ff00,
    0xffff_0000_ffff_0000,
    0xffff_ffff_0000_0000,
];

/// Run the circuit on all 2^inputs assignments, 64 at a time; `want(x)` gives the outputs, input
/// and output i being bit i.
fn all(cx: &mut Cx, p: &Prog, inputs: usize, outs: usize, want: impl Fn(u64) -> u128) -> R {
    ensure!(p.inputs == inputs, "{} inputs, expected {inputs}", p.inputs);
    ensure!(p.outs.len() == outs, "{} outputs, expected {outs}", p.outs.len());
    let mut buf = vec![];
    let chunks = 1u64 << inputs.saturating_sub(6);
    for c in 0..chunks {
        let inp: Vec<[u64; 1]> =
            (0..inputs).map(|i| [if i < 6 { LANES[i] } else if c >> (i - 6) & 1 == 1 { !0 } else { 0 }]).collect();
        p.eval::<1>(&inp, &mut buf);
        let lanes = if inputs < 6 { 1 << inputs } else { 64 };
        for l in 0..lanes {
            let x = c << 6 | l;
            let w = want(x);
            let mut g = 0u128;
            for (i, o) in p.outs.iter().enumerate() {
                g |= ((buf[*o as usize][0] >> l & 1) as u128) << i;
            }
            cx.ev(x != 0);
            ensure!(g == w, "inputs {x:#b} (input 0 lowest): outputs {g:#b}, expected {w:#b}");
        }
    }
    Ok(())
}

/// The same through the repository's own evaluator.
fn own(cx: &mut Cx, c: &MuxCircuit, x: &[bool], want: &[bool]) -> R {
    let inp: Vec<Bit> = x.iter().map(|b| Bit(*b)).collect();
    let got: Vec<bool> = test_mux_circuit(c, &inp).iter().map(|b| b.0).collect();
    cx.ev(true);
    ensure!(got == want, "test_mux_circuit({}): {} expected {}", show(x), show(&got), show(want));
    Ok(())
}

fn word(x: &[bool]) -> u128 {
    x.iter().enumerate().map(|(i, b)| (*b as u128) << i).sum()
}

fn bits(v: u128, n: usize) -> Vec<bool> {
    (0..n).map(|i| i < 128 && v >> i & 1 == 1).collect()
}

fn mask(n: usize) -> u128 {
    if n >= 128 { !0 } else { (1 << n) - 1 }
}

/// Boundary operands of a width.
fn vals(n: usize) -> Vec<u128> {
    let m = mask(n);
    let mut v = vec![0, 1, 2, 3, m, m - 1.min(m), m >> 1, (m >> 1) + 1, m / 3, m / 3 * 2, m / 5, m / 17 * 3 + 1];
    for i in 0..n {
        v.push(1 << i);
        v.push((1u128 << i).wrapping_sub(1));
        v.push(m ^ (1 << i));
        v.push(m << i);
    }
    for x in v.iter_mut() {
        *x &= m;
    }
    v.sort();
    v.dedup();
    v
}

/// a and b interleaved, the longer one's tail at the end.
fn interleave<T: Copy>(a: &[T], b: &[T]) -> Vec<T> {
    let k = a.len().min(b.len());
    let mut r = vec![];
    for i in 0..k {
        r.push(a[i]);
        r.push(b[i]);
    }
    r.extend_from_slice(&a[k..]);
    r.extend_from_slice(&b[k..]);
    r
}

/// Undo `interleave` for a packed assignment.
fn split(x: &[bool], n: usize, m: usize) -> (u128, u128) {
    let k = n.min(m);
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..k {
        a.push(x[2 * i]);
        b.push(x[2 * i + 1]);
    }
    for t in &x[2 * k..] {
        if n > m { a.push(*t) } else { b.push(*t) }
    }
    (word(&a), word(&b))
}

/// Boundary assignments of two-operand circuits through both evaluators.
fn corners(cx: &mut Cx, c: &MuxCircuit, p: &Prog, n: usize, m: usize, cin: bool, outs: usize, want: &dyn Fn(u128, u128, bool) -> Vec<bool>, step: usize) -> R {
    let (mut va, mut vb) = (vals(n), vals(m));
    for v in [&mut va, &mut vb] {
        let st = v.len().div_ceil(if v.len() > 128 { 24 } else { 48 });
        let l = v.len();
        *v = v.iter().enumerate().filter(|(i, _)| i % st == 0 || *i < 2 || i + 2 >= l).map(|x| *x.1).collect();
    }
    let mut k = 0usize;
    for &a in &va {
        for &b in &vb {
            for ci in [false, true] {
                if ci && !cin {
                    continue;
                }
                k += 1;
                let mut x = if cin { vec![ci] } else { vec![] };
                x.extend(interleave(&bits(a, n), &bits(b, m)));
                let w = want(a, b, ci);
                ensure!(w.len() == outs, "oracle");
                cx.ev(true);
                let g = p.one(&x);
                ensure!(g == w, "{a:#x}, {b:#x}, carry {ci}: {} expected {}", show(&g), show(&w));
                if k % step == 0 {
                    own(cx, c, &x, &w)?;
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op2 {
    Add(bool),
    Sub(bool),
    And,
    Or,
    Eq,
    Ne,
    /// greater, or-equal
    Cmp(bool, bool),
    CmpS(bool, bool),
}

fn op2s() -> Vec<Op2> {
    use Op2::*;
    let mut v = vec![Add(false), Add(true), Sub(false), Sub(true), And, Or, Eq, Ne];
    for g in [false, true] {
        for e in [false, true] {
            v.push(Cmp(g, e));
            v.push(CmpS(g, e));
        }
    }
    v
}

impl Op2 {
    fn build(self, n: usize, m: usize) -> MuxCircuit {
        match self {
            Op2::Add(c) => add::ripple_carry_adder(n, m, c),
            Op2::Sub(c) => sub::full_subtractor(n, c),
            Op2::And => and::make_and_circuit(n as u16),
            Op2::Or => or::make_or_circuit(n as u16),
            Op2::Eq => comparisons::compare_equal(n),
            Op2::Ne => comparisons::compare_not_equal(n),
            Op2::Cmp(g, e) => comparisons::compare_or_maybe_equal(n, g, e),
            Op2::CmpS(g, e) => comparisons::compare_or_maybe_equal_signed(n, g, e),
        }
    }
    fn cin(self) -> bool {
        matches!(self, Op2::Add(true) | Op2::Sub(true))
    }
    fn outs(self, n: usize, m: usize) -> usize {
        match self {
            Op2::Add(_) => n.max(m) + 1,
            Op2::Sub(_) => n + 1,
            Op2::And | Op2::Or => n,
            _ => 1,
        }
    }
    /// Outputs, lowest first, from the integer definition. Widths up to 128.
    fn want(self, a: u128, b: u128, c: bool, n: usize, m: usize) -> Vec<bool> {
        let w = n.max(m);
        match self {
            Op2::Add(_) => {
                let (s, o1) = a.overflowing_add(b);
                let (s, o2) = s.overflowing_add(c as u128);
                let mut r = bits(s, w);
                r.push(if w == 128 { o1 || o2 } else { s >> w & 1 == 1 });
                r
            }
            Op2::Sub(_) => {
                let d = a.wrapping_sub(b).wrapping_sub(c as u128);
                let mut r = bits(d & mask(n), n);
                r.push(a < b || (a == b && c));
                r
            }
            Op2::And => bits(a & b, n),
            Op2::Or => bits(a | b, n),
            Op2::Eq => vec![a == b],
            Op2::Ne => vec![a != b],
            Op2::Cmp(g, e) => vec![ord(a.cmp(&b), g, e)],
            Op2::CmpS(g, e) => {
                let s = |x: u128| (x << (128 - n)) as i128;
                vec![ord(s(a).cmp(&s(b)), g, e)]
            }
        }
    }
    /// The specification automaton over the documented input order.
    fn product(self, p: &Prog, n: usize, m: usize) -> Result<Option<(u64, u64)>, String> {
        let order: Vec<u32> = (0..p.inputs as u32).collect();
        let off = self.cin() as usize;
        let k = n.min(m);
        let w = n.max(m);
        // position -> (bit index, is second operand, completes the digit)
        let digit = move |q: usize| if q < 2 * k { (q / 2, q % 2 == 1, q % 2 == 1) } else { (q - k, m > n, true) };
        // state: (carry or comparison so far, first operand's bit of the open digit)
        let step = move |s: &(u8, bool), at: usize, b: bool, o: &mut Vec<(usize, bool)>| -> (u8, bool) {
            if at < off {
                return (b as u8, false);
            }
            let (i, second, done) = digit(at - off);
            if !done {
                return (s.0, b);
            }
            let (x, y) = if at - off < 2 * k { (s.1, b) } else if second { (false, b) } else { (b, false) };
            match self {
                Op2::Add(_) => {
                    let t = s.0 + x as u8 + y as u8;
                    o.push((i, t & 1 == 1));
                    if i + 1 == w {
                        o.push((w, t > 1));
                    }
                    (t >> 1, false)
                }
                Op2::Sub(_) => {
                    let t = x as i8 - y as i8 - s.0 as i8;
                    o.push((i, t & 1 != 0));
                    if i + 1 == w {
                        o.push((w, t < 0));
                    }
                    ((t < 0) as u8, false)
                }
                Op2::And => {
                    o.push((i, x && y));
                    *s
                }
                Op2::Or => {
                    o.push((i, x || y));
                    *s
                }
                // 0 equal so far, 1 less, 2 greater; later digits weigh more
                _ => {
                    let flip = matches!(self, Op2::CmpS(..)) && i + 1 == w;
                    let c = match (x, y) {
                        (false, true) => if flip { 2 } else { 1 },
                        (true, false) => if flip { 1 } else { 2 },
                        _ => s.0,
                    };
                    if i + 1 == w {
                        let c = [Ordering::Equal, Ordering::Less, Ordering::Greater][c as usize];
                        o.push((0, match self {
                            Op2::Eq => c == Ordering::Equal,
                            Op2::Ne => c != Ordering::Equal,
                            Op2::Cmp(g, e) | Op2::CmpS(g, e) => ord(c, g, e),
                            _ => unreachable!(),
                        }));
                    }
                    (c, false)
                }
            }
        };
        p.product(&order, (0u8, false), &[], step)
    }
}

fn ord(o: Ordering, greater: bool, or_eq: bool) -> bool {
    match o {
        Ordering::Equal => or_eq,
        Ordering::Less => !greater,
        Ordering::Greater => greater,
    }
}

fn two_operand(cx: &mut Cx, op: Op2, n: usize, m: usize) -> R {
    let c = op.build(n, m);
    let p = Prog::new(&c)?;
    let (cin, outs) = (op.cin(), op.outs(n, m));
    let inputs = n + m + cin as usize;
    ensure!(p.inputs == inputs, "{} inputs, expected {inputs}", p.inputs);
    ensure!(p.outs.len() == outs, "{} outputs, expected {outs}", p.outs.len());
    let f = |a: u128, b: u128, ci: bool| op.want(a, b, ci, n, m);
    if inputs <= 17 {
        all(cx, &p, inputs, outs, |x| {
            let xb = bits(x as u128, inputs);
            let (a, b) = split(&xb[cin as usize..], n, m);
            word(&f(a, b, cin && xb[0]))
        })?;
    }
    match op.product(&p, n, m)? {
        Some((s, t)) => {
            cx.states += s;
            cx.transitions += t;
            cx.ev(true);
        }
        // the circuit does not follow the documented order bit by bit: boundary operands only
        None => {}
    }
    if inputs > 17 || inputs < 6 {
        corners(cx, &c, &p, n, m, cin, outs, &f, (inputs / 4).max(1) * (inputs / 8).max(1))?;
    }
    Ok(())
}

fn negators(cx: &mut Cx, n: usize) -> R {
    let c = neg::negator(n);
    let p = Prog::new(&c)?;
    ensure!(p.inputs == n && p.outs.len() == n, "{} inputs, {} outputs", p.inputs, p.outs.len());
    if n <= 16 {
        all(cx, &p, n, n, |x| (x as u128).wrapping_neg() & mask(n))?;
    }
    let order: Vec<u32> = (0..n as u32).collect();
    if let Some((s, t)) = p.product(&order, false, &[], |s, i, b, o| {
        o.push((i, b ^ *s));
        *s | b
    })? {
        cx.states += s;
        cx.transitions += t;
    }
    for v in vals(n) {
        let w = bits(v.wrapping_neg() & mask(n), n);
        cx.ev(true);
        ensure!(p.one(&bits(v, n)) == w, "negate {v:#x}");
        own(cx, &c, &bits(v, n), &w)?;
    }
    Ok(())
}

fn shifts(cx: &mut Cx, w: usize, sw: usize, dir: ShiftDirection, mode: ShiftMode) -> R {
    let need = (0..).find(|k| (1usize << k) >= w).unwrap().max(1);
    let legal = sw >= need
        && !(mode == ShiftMode::Rotation && !w.is_power_of_two())
        && !(mode == ShiftMode::Arithmetic && dir == ShiftDirection::Left);
    if !legal {
        cx.ev(true);
        ensure!(must_panic(|| { bitshift(w as u16, sw as u16, dir, mode); }), "unsupported combination accepted");
        return Ok(());
    }
    let c = bitshift(w as u16, sw as u16, dir, mode);
    let p = Prog::new(&c)?;
    // both operands arrive and leave most significant bit first
    let rev = |x: u128, n: usize| word(&bits(x, n).into_iter().rev().collect::<Vec<_>>());
    let f = |x: u128| {
        let v = rev(x & mask(w), w);
        let s = rev(x >> w & mask(sw), sw);
        let r = shift(v, s, w, dir, mode);
        rev(r, w)
    };
    ensure!(p.inputs == w + sw && p.outs.len() == w, "{} inputs, {} outputs", p.inputs, p.outs.len());
    if w + sw <= 18 {
        all(cx, &p, w + sw, w, |x| f(x as u128))?;
    }
    let mut k = 0;
    for v in vals(w) {
        for s in vals(sw).into_iter().chain(0..(2 * w as u128).min(mask(sw))) {
            let x = rev(v, w) | rev(s, sw) << w;
            let want = bits(f(x), w);
            cx.ev(true);
            let xb = bits(x, w + sw);
            ensure!(p.one(&xb) == want, "{v:#x} by {s}");
            k += 1;
            if k % (w * w) == 0 {
                own(cx, &c, &xb, &want)?;
            }
        }
    }
    Ok(())
}

/// The integer shift by any amount.
fn shift(v: u128, s: u128, w: usize, dir: ShiftDirection, mode: ShiftMode) -> u128 {
    let m = mask(w);
    let big = s >= w as u128;
    let left = dir == ShiftDirection::Left;
    match mode {
        ShiftMode::Rotation => {
            let s = (s % w as u128) as usize;
            let s = if left { s } else { (w - s) % w };
            (0..w).fold(0, |r, i| r | (v >> i & 1) << ((i + s) % w))
        }
        ShiftMode::Logical if left => if big { 0 } else { v << s & m },
        ShiftMode::Logical => if big { 0 } else { v >> s },
        ShiftMode::Arithmetic => {
            let neg = v >> (w - 1) & 1 == 1;
            let s = if big { w } else { s as usize };
            let fill = if neg { m & !(mask(w - s)) } else { 0 };
            (if s == w { 0 } else { v >> s }) | fill
        }
    }
}

/// All products of n x m bits.
fn multiplier(cx: &mut Cx, c: &MuxCircuit, n: usize, m: usize) -> R {
    let p = Prog::new(c)?;
    ensure!(n + m <= 24, "too wide");
    all(cx, &p, n + m, n + m, |x| {
        let x = x as u128;
        (x & mask(n)) * (x >> n)
    })?;
    let mut k = 0;
    for a in vals(n) {
        for b in vals(m) {
            k += 1;
            if k % (n + m) == 0 || n + m < 6 {
                let mut x = bits(a, n);
                x.extend(bits(b, m));
                own(cx, c, &x, &bits(a * b, n + m))?;
            }
        }
    }
    Ok(())
}

/// 16 x 16 bits: for each left operand, every right operand. The circuit is specialised to the
/// left operand (constants folded, dead gates dropped) and evaluated on all 2^16 right operands.
fn mul16(cx: &mut Cx, p: &Prog, lefts: impl Iterator<Item = u64>) -> R {
    const W: usize = 8;
    let mut buf = vec![];
    for a in lefts {
        let q = p.specialise(|i| (i < 16).then(|| a >> i & 1 == 1));
        for bh in 0..1u64 << 7 {
            let mut inp = [[0u64; W]; 32];
            for j in 0..16 {
                for (k, r) in inp[16 + j].iter_mut().enumerate() {
                    *r = match j {
                        0..=5 => LANES[j],
                        6..=8 => if k >> (j - 6) & 1 == 1 { !0 } else { 0 },
                        _ => if bh >> (j - 9) & 1 == 1 { !0 } else { 0 },
                    };
                }
            }
            q.eval::<W>(&inp, &mut buf);
            // reference by bit-parallel shift-and-add
            let mut acc = [[0u64; W]; 32];
            for i in 0..16 {
                if a >> i & 1 == 0 {
                    continue;
                }
                let mut c = [0u64; W];
                for q in i..32 {
                    let y = if q - i < 16 { inp[16 + q - i] } else { [0; W] };
                    for l in 0..W {
                        let (s, t) = (acc[q][l], y[l]);
                        acc[q][l] = s ^ t ^ c[l];
                        c[l] = (s & t) | (c[l] & (s ^ t));
                    }
                }
            }
            cx.evals += 64 * W as u64;
            cx.nt += if a != 0 { 64 * W as u64 } else { 0 };
            for (i, o) in q.outs.iter().enumerate() {
                if buf[*o as usize] != acc[i] {
                    for l in 0..64 * W {
                        let b = bh << 9 | l as u64;
                        let bit = |v: &[u64; W]| v[l / 64] >> (l % 64) & 1;
                        if bit(&buf[*o as usize]) != bit(&acc[i]) {
                            return Err(format!("{a} x {b}: product bit {i} is wrong"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// The reduction of four partial products, over every input whatsoever: the positional sum.
fn reduction(cx: &mut Cx, n: usize, m: usize) -> R {
    let c = gradeschool_reduce(n, m);
    let p = Prog::new(&c)?;
    ensure!(p.inputs == 2 * (n + m) && p.outs.len() == n + m, "{} inputs, {} outputs", p.inputs, p.outs.len());
    let (nl, nh) = partition_integer(n);
    let (ml, mh) = partition_integer(m);
    // which value bit does each circuit input carry? Tagged: (product, bit)
    let tag = |w: usize, len: usize| (0..len).map(|i| (w, i)).collect::<Vec<_>>();
    let order = encode_gradeschool_reduction(n, m, &tag(0, nl + ml), &tag(1, nl + mh), &tag(2, nh + ml), &tag(3, nh + mh));
    ensure!(order.len() == 2 * (n + m), "encoding has {} entries", order.len());
    let shift = [0, ml, nl, nl + ml];
    let place: Vec<usize> = order.iter().map(|(w, i)| shift[*w] + i).collect();
    cx.ev(true);
    let mut seen = order.clone();
    seen.sort();
    seen.dedup();
    ensure!(seen.len() == order.len(), "encoding repeats a bit");
    ensure!(place.windows(2).all(|w| w[0] <= w[1]), "encoding is not ordered by place");
    let last = place.len() - 1;
    let ord: Vec<u32> = (0..p.inputs as u32).collect();
    let step = |s: &u32, k: usize, b: bool, o: &mut Vec<(usize, bool)>| {
        let mut s = s + b as u32;
        let to = if k == last { n + m } else { place[k + 1] };
        for q in place[k]..to {
            o.push((q, s & 1 == 1));
            s >>= 1;
        }
        s
    };
    match p.product(&ord, 0u32, &[], step)? {
        Some((s, t)) => {
            cx.states += s;
            cx.transitions += t;
        }
        None => {}
    }
    // and on true partial products of boundary operands
    let (va, vb) = (vals(n), vals(m));
    let st = ((va.len() * vb.len()) / 3000).max(1);
    for (k, (a, b)) in va.iter().flat_map(|a| vb.iter().map(move |b| (*a, *b))).enumerate() {
        if k % st != 0 {
            continue;
        }
        let (al, ah) = (a & mask(nl), a >> nl);
        let (bl, bh) = (b & mask(ml), b >> ml);
        let x = encode_gradeschool_reduction(
            n, m,
            &bits(al * bl, nl + ml), &bits(al * bh, nl + mh),
            &bits(ah * bl, nh + ml), &bits(ah * bh, nh + mh),
        );
        cx.ev(true);
        let g = p.one(&x);
        ensure!(g == bits(a * b, n + m), "{a:#x} x {b:#x}");
    }
    Ok(())
}

fn partitions(cx: &mut Cx) -> R {
    for n in 0..=4096usize {
        let (lo, hi) = partition_integer(n);
        cx.ev(n > 16);
        ensure!(lo + hi == n && lo >= hi && lo - hi <= if n <= 16 { 16 } else { 1 }, "partition of {n}: {lo}, {hi}");
        ensure!((hi == 0) == (n <= 16), "partition of {n}: {lo}, {hi}");
    }
    Ok(())
}

fn helpers(cx: &mut Cx) -> R {
    use mux_circuits::util::*;
    for n in 1..=128usize {
        let mut vs = vals(n);
        if vs.len() > 60 {
            vs = vs.into_iter().enumerate().filter(|(i, _)| i % 7 == 0).map(|x| x.1).chain([0, 1, mask(n), mask(n) >> 1, (mask(n) >> 1) + 1]).collect();
        }
        for &a in &vs {
            same!(cx, convert_value_to_bits(a, n as u32), bits(a, n), "bits of {a:#x}, width {n}");
            for &b in &vs {
                for c in [0u128, 1] {
                    let d = a.wrapping_sub(b).wrapping_sub(c) & mask(n);
                    let o = (a < b || (a == b && c == 1)) as u128;
                    same!(cx, arbitrary_width_borrowing_sub(a, b, c, n as u32), (d, o), "{a:#x} - {b:#x} - {c}, width {n}");
                    same!(cx, borrowing_sub(a, b, c == 1), (a.wrapping_sub(b).wrapping_sub(c), o == 1), "{a:#x} - {b:#x} - {c}");
                }
            }
        }
    }
    for n in 1..=70usize {
        for v in vals(n.min(64)).into_iter().chain(vals((n + 1).min(64))) {
            let fits = n >= 64 || v < 1 << n;
            let got = try_to_bits(v as u64, n).ok().map(|b| b.iter().map(|b| b.0).collect::<Vec<_>>());
            same!(cx, got, fits.then(|| bits(v, n)), "{v:#x} in {n} bits");
        }
    }
    Ok(())
}

pub fn run() {
    let ck = Ck::new("M01", "model_checking", "an evaluation with a non-zero input assignment, or a completed product exploration of a circuit with its specification automaton");
    ck.assume("inputs and outputs are in the order the documentation and the callers in parasol_runtime/parasol_cpu use; multipliers take operand a then operand b, as their callers pass them");
    ck.assume("the repository ships no multiplier-n32-m32 file and cannot be built without one; that one circuit is not covered (nothing in the repository uses it: operands wider than 16 bits are split)");
    let wide: Vec<usize> = ck.tier(vec![7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128], (7..=128).collect());
    let mut jobs = vec![];
    for op in op2s() {
        for n in 1..=6 {
            jobs.push((op, n, n));
        }
        for &n in &wide {
            jobs.push((op, n, n));
        }
        if let Op2::Add(_) = op {
            for n in 1..=ck.tier(7, 9) {
                for m in 1..=ck.tier(7, 9) {
                    if n != m {
                        jobs.push((op, n, m));
                    }
                }
            }
            for &(n, m) in &[(1, 32), (32, 1), (8, 24), (16, 32), (32, 16), (31, 33), (64, 1), (1, 64), (48, 64), (100, 28), (128, 1), (2, 128)] {
                jobs.push((op, n, m));
            }
        }
    }
    ck.par("operand pairs", &jobs, |j| format!("{:?} {}x{}", j.0, j.1, j.2), |j, cx| two_operand(cx, j.0, j.1, j.2));
    let ns: Vec<usize> = (1..=64).chain([96, 127, 128]).collect();
    ck.par("negation", &ns, |n| format!("width {n}"), |n, cx| negators(cx, *n));
    let mut sh = vec![];
    for w in 1..=ck.tier(9usize, 12) {
        for sw in 1..=ck.tier(8usize, 9) {
            for d in [ShiftDirection::Left, ShiftDirection::Right] {
                for m in [ShiftMode::Logical, ShiftMode::Rotation, ShiftMode::Arithmetic] {
                    sh.push((w, sw, d, m));
                }
            }
        }
    }
    if ck.thorough {
        for sw in [4, 5, 8] {
            for d in [ShiftDirection::Left, ShiftDirection::Right] {
                for m in [ShiftMode::Logical, ShiftMode::Rotation, ShiftMode::Arithmetic] {
                    sh.push((16, sw, d, m));
                }
            }
        }
    }
    ck.par("shifts", &sh, |s| format!("{:?}", s), |s, cx| shifts(cx, s.0, s.1, s.2, s.3));
    let mut mu = vec![];
    for n in 1..=ck.tier(8usize, 11) {
        for m in 1..=ck.tier(8usize, 11) {
            mu.push((n, m));
        }
    }
    ck.par("multipliers", &mu, |s| format!("{}x{}", s.0, s.1), |s, cx| {
        multiplier(cx, &unsigned_multiplier(s.0, s.1), s.0, s.1)?;
        if *s == (8, 8) {
            multiplier(cx, &multiplier_impl(MultiplierParams { n: 8, m: 8 }), 8, 8)?;
        }
        Ok(())
    });
    let p16 = std::sync::OnceLock::new();
    let get = || p16.get_or_init(|| Prog::new(&unsigned_multiplier(16, 16)).and_then(|p| if p.inputs == 32 && p.outs.len() == 32 { Ok(p) } else { Err(format!("{} inputs, {} outputs", p.inputs, p.outs.len())) }));
    let blocks: Vec<u64> = (0..256).collect();
    ck.par("16x16 multiplier", &blocks, |b| format!("left operands {}..", b * 256), |b, cx| {
        let p = get().as_ref().map_err(|e| e.clone())?;
        mul16(cx, p, b * 256..b * 256 + 256)
    });
    let mut re = vec![];
    for n in 17..=ck.tier(33usize, 64) {
        for m in 17..=n {
            if ck.thorough || (n + m) % 3 == 0 || n == m {
                re.push((n, m));
            }
        }
    }
    re.push((64, 64));
    re.push((64, 32));
    re.push((64, 17));
    ck.par("reduction", &re, |s| format!("{}x{}", s.0, s.1), |s, cx| reduction(cx, s.0, s.1));
    ck.case("reduction", "partition", partitions);
    ck.case("helpers", "bit and borrow helpers", helpers);
    ck.finish();
}
