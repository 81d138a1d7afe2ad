//! P02: every instruction on plain, encrypted and mixed operands.
use crate::isa::*;
use crate::rig::*;
use mc::*;
use parasol_cpu::assembly::IsaOp;
use IsaOp::*;

/// Registers: X1 data pointer, X10.. operands, X20 and X21 results.
const D: usize = 20;
const D2: usize = 21;
const A: usize = 10;
const Bq: usize = 11;
const C: usize = 12;

fn load_width(w: u32) -> u32 {
    w.next_power_of_two().max(8)
}

/// Load operands of the given widths, run `op`, report the results and the operands.
fn program(data: u32, widths: &[u32], op: IsaOp) -> Vec<IsaOp> {
    let mut p = vec![LoadI(x(1), data, 32)];
    for (i, &w) in widths.iter().enumerate() {
        let lw = load_width(w);
        p.push(Load(x(A + i), x(1), lw, 16 * i as i32));
        if lw != w {
            p.push(Trunc(x(A + i), x(A + i), w));
        }
    }
    p.push(op);
    p.push(Dbg(x(D), 0));
    p.push(Dbg(x(D2), 1));
    for i in 0..widths.len() {
        p.push(Dbg(x(A + i), 2 + i as u32));
    }
    p.push(Ret());
    p
}

struct Case {
    name: String,
    op: IsaOp,
    widths: Vec<u32>,
    /// Operand values.
    vals: Vec<Vec<u128>>,
    /// Encrypted-ness masks to try.
    mixes: Vec<u32>,
}

fn put(rig: &Rig, i: usize, v: Val) {
    let mut b = bytes_of(Val { w: load_width(v.w), ..v });
    b.resize(16, B::P(0));
    rig.poke(rig.data + 16 * i as u32, &b);
}

fn check(rig: &mut Rig, c: &Case, cx: &mut Cx) -> R {
    let prog = program(rig.data, &c.widths, c.op);
    rig.load(&prog);
    let o = rig.options(None);
    for &mix in &c.mixes {
        for vals in &c.vals {
            let args: Vec<Val> = c.widths.iter().zip(vals).enumerate().map(|(i, (&w, &v))| Val { enc: mix >> i & 1 == 1, ..plain(v, w) }).collect();
            one(rig, &prog, &args, &o, cx).map_err(|e| format!("{:?} on {args:?}: {e}", c.op))?;
        }
    }
    Ok(())
}

fn one(rig: &mut Rig, prog: &[IsaOp], args: &[Val], o: &parasol_cpu::RunProgramOptions, cx: &mut Cx) -> R {
    let mut m = Machine::new();
    for (i, a) in args.iter().enumerate() {
        put(rig, i, *a);
        for (j, b) in bytes_of(Val { w: load_width(a.w), ..*a }).into_iter().enumerate() {
            m.m.insert(rig.data + (16 * i + j) as u32, b);
        }
    }
    let want = m.run(prog, rig.code, 1000).unwrap();
    let (got, mut seen) = rig.run(o);
    cx.ev(args.iter().any(|a| a.v != 0));
    match (want, got) {
        (Stop::Halt, Ok(_)) => {
            seen.sort();
            let mut exp = m.dbg;
            exp.sort();
            ensure!(seen == exp, "registers (0,1: results, 2..: operands) {seen:?}, expected {exp:?}");
        }
        (Stop::Fault, Err(_)) => {}
        (w, g) => return Err(format!("ended with {g:?}, expected {w:?}")),
    }
    Ok(())
}

fn product(ws: &[u32]) -> Vec<Vec<u128>> {
    let mut v = vec![vec![]];
    for &w in ws {
        v = v.iter().flat_map(|p| (0..1u128 << w).map(move |x| p.iter().copied().chain([x]).collect())).collect();
    }
    v
}

pub fn corners(w: u32, few: bool) -> Vec<u128> {
    let m = mask(w);
    let s = 1u128 << (w - 1);
    let pat = 0xC3A5_5A3C_0F1E_2D4B_8796_A5B4_D3E2_F101u128;
    let mut v = if few { vec![0, m, s, pat & m] } else { vec![0, 1, 2, m, m - 1, s, s - 1, s | 1, pat & m, !pat & m] };
    v.iter_mut().for_each(|x| *x &= m);
    v.sort();
    v.dedup();
    v
}

fn corner_product(ws: &[u32], few: bool) -> Vec<Vec<u128>> {
    let mut v: Vec<Vec<u128>> = vec![vec![]];
    for &w in ws {
        let c = corners(w, few);
        v = v.iter().flat_map(|p| c.iter().map(move |x| p.iter().copied().chain([*x]).collect())).collect();
    }
    v
}

pub fn run() {
    let ck = Ck::new("P02", "exploration", "an evaluation is one instruction executed by the real processor on one combination of operands; non-trivial when an operand is non-zero");
    type Bin = fn(Reg, Reg, Reg) -> IsaOp;
    let same: Vec<(&str, Bin)> = vec![
        ("And", And), ("Or", Or), ("Xor", Xor), ("Add", Add), ("Sub", Sub), ("Mul", Mul),
        ("CmpEq", CmpEq), ("CmpGt", CmpGt), ("CmpGtS", CmpGtS), ("CmpGe", CmpGe), ("CmpGeS", CmpGeS),
        ("CmpLt", CmpLt), ("CmpLtS", CmpLtS), ("CmpLe", CmpLe), ("CmpLeS", CmpLeS),
    ];
    let shifts: Vec<(&str, Bin)> = vec![("Shl", Shl), ("Shr", Shr), ("Shra", Shra), ("Rotl", Rotl), ("Rotr", Rotr)];
    let (a, b, c, d, d2) = (x(A), x(Bq), x(C), x(D), x(D2));
    let mut small = vec![];
    let mut wide = vec![];
    let mut push = |list: &mut Vec<Case>, name: &str, op: IsaOp, widths: Vec<u32>, vals: Vec<Vec<u128>>, mixes: Vec<u32>| {
        list.push(Case { name: format!("{name} {widths:?} mixes {mixes:?}"), op, widths, vals, mixes });
    };
    let small_w: Vec<u32> = ck.tier(vec![1, 2, 3], vec![1, 2, 3, 4]);
    let wide_w = [5u32, 8, 13, 16, 31, 32, 33, 63, 64, 65, 127, 128];
    for (n, f) in &same {
        for &w in &small_w {
            push(&mut small, n, f(d, a, b), vec![w; 2], product(&[w; 2]), (0..4).collect());
        }
        for &w in &wide_w {
            push(&mut wide, n, f(d, a, b), vec![w; 2], corner_product(&[w; 2], false), vec![0]);
            // encrypted multipliers are built per width; large ones take long
            if *n == "Mul" && ![5, 8, 16, 32].contains(&w) && !(ck.thorough && [13, 64].contains(&w)) {
                continue;
            }
            if *n == "Mul" && w >= 32 && !ck.thorough {
                push(&mut wide, n, f(d, a, b), vec![w; 2], vec![vec![mask(w), mask(w) - 6], vec![0xC3A5_5A3C, 0x9B4F_21E3]], vec![1, 3]);
                continue;
            }
            let few = !ck.thorough || w > 64;
            push(&mut wide, n, f(d, a, b), vec![w; 2], corner_product(&[w; 2], few), vec![1, 2, 3]);
        }
    }
    for (n, f) in &shifts {
        for &w in small_w.iter().chain([5, 8].iter()) {
            for sw in 1..=4u32 {
                let vals = if w <= 4 { product(&[w, sw]) } else { corners(w, false).into_iter().flat_map(|v| (0..1 << sw).map(move |s| vec![v, s])).collect() };
                push(&mut small, n, f(d, a, b), vec![w, sw], vals, (0..4).collect());
            }
        }
        for &w in &wide_w {
            for sw in [8u32, 32, 128] {
                let mut s: Vec<u128> = vec![0, 1, 2, w as u128 / 2, w as u128 - 1, w as u128, w as u128 + 1, 2 * w as u128, 127, 128, 129, mask(sw), 1 << (sw - 1), 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 64];
                s.iter_mut().for_each(|x| *x &= mask(sw));
                s.sort();
                s.dedup();
                let vals = |few| -> Vec<Vec<u128>> { corners(w, few).into_iter().flat_map(|v| s.iter().map(move |s| vec![v, *s])).collect() };
                push(&mut wide, n, f(d, a, b), vec![w, sw], vals(false), vec![0, 1]);
                // the circuit for an encrypted amount takes time and memory exponential in the
                // operand width (about 2^width decision diagram nodes)
                let power = w.is_power_of_two() || !n.starts_with("Rot");
                if sw == 8 && w <= 8 {
                    push(&mut wide, n, f(d, a, b), vec![w, sw], vals(true), vec![2, 3]);
                } else if sw == 8 && w <= 16 && (w < 16 || ck.thorough) && power {
                    let m = mask(w);
                    let v = vec![vec![0xA5C3 & m, 5], vec![0x9B4F & m, w as u128 - 1], vec![m, w as u128]];
                    push(&mut wide, n, f(d, a, b), vec![w, sw], v[..ck.tier(2, 3)].to_vec(), vec![3]);
                } else if !power {
                    push(&mut wide, n, f(d, a, b), vec![w, sw], vec![vec![1, 1]], vec![2, 3]);
                }
            }
        }
    }
    for (n, f) in [("Not", Not as fn(Reg, Reg) -> IsaOp), ("Neg", Neg), ("Move", Move)] {
        for w in 1..=4 {
            push(&mut small, n, f(d, a), vec![w], product(&[w]), vec![0, 1]);
        }
        for &w in &wide_w {
            push(&mut wide, n, f(d, a), vec![w], corner_product(&[w], false), vec![0, 1]);
        }
    }
    for (n, f) in [("Trunc", Trunc as fn(Reg, Reg, u32) -> IsaOp), ("Zext", Zext), ("Sext", Sext)] {
        for from in [1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 127, 128] {
            for to in [1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 127, 128] {
                let v = if from <= 4 { product(&[from]) } else { corner_product(&[from], false) };
                push(&mut small, &format!("{n} to {to}"), f(d, a, to), vec![from], v, vec![0, 1]);
            }
        }
    }
    type Car = fn(Reg, Reg, Reg, Reg, Reg) -> IsaOp;
    for (n, f) in [("AddC", AddC as Car), ("SubB", SubB)] {
        for &w in &small_w {
            push(&mut small, n, f(d, d2, a, b, c), vec![w, w, 1], product(&[w, w, 1]), (0..8).collect());
        }
        for &w in &wide_w {
            push(&mut wide, n, f(d, d2, a, b, c), vec![w, w, 1], corner_product(&[w, w, 1], false), vec![0]);
            push(&mut wide, n, f(d, d2, a, b, c), vec![w, w, 1], corner_product(&[w, w, 1], true), vec![1, 4, 7]);
        }
        for w in [[2, 2, 2], [1, 1, 8], [2, 3, 1], [3, 2, 1], [8, 16, 1], [64, 128, 1]] {
            push(&mut small, n, f(d, d2, a, b, c), w.to_vec(), corner_product(&w, true), (0..8).collect());
        }
    }
    for &w in &small_w {
        push(&mut small, "Cmux", Cmux(d, c, a, b), vec![w, w, 1], product(&[w, w, 1]), (0..8).collect());
    }
    for &w in &wide_w {
        push(&mut wide, "Cmux", Cmux(d, c, a, b), vec![w, w, 1], corner_product(&[w, w, 1], true), (0..8).collect());
    }
    for w in [[2, 2, 2], [1, 1, 8], [2, 3, 1], [3, 2, 1], [8, 16, 1], [64, 128, 1]] {
        push(&mut small, "Cmux", Cmux(d, c, a, b), w.to_vec(), corner_product(&w, true), (0..8).collect());
    }
    // widths that differ
    for (n, f) in &same {
        for w in [[1, 2], [2, 1], [3, 8], [8, 16], [32, 31], [128, 64], [64, 128]] {
            push(&mut small, n, f(d, a, b), w.to_vec(), corner_product(&w, true), (0..4).collect());
        }
    }
    // immediates
    for w in 1..=128u32 {
        let mut imms: Vec<u32> = vec![0, 1, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0xDEAD_BEEF];
        for i in [w.saturating_sub(2), w - 1, w, w + 1] {
            if i < 32 {
                imms.extend([1 << i, (1u32 << i) - 1, (1u32 << i) + 1, (1u32 << i).wrapping_neg(), (1u32 << i).wrapping_neg().wrapping_sub(1)]);
            }
        }
        imms.sort();
        imms.dedup();
        for i in imms {
            push(&mut small, &format!("LoadI {i:#x} {w}"), LoadI(d, i, w), vec![], vec![vec![]], vec![0]);
        }
    }
    // branches on plain and encrypted conditions (the target skips the first report)
    for (n, f) in [("BranchNonZero", BranchNonZero as fn(Reg, i32) -> IsaOp), ("BranchZero", BranchZero)] {
        for w in [1, 2, 8, 32, 64, 128] {
            push(&mut small, n, f(a, 16), vec![w], if w < 3 { product(&[w]) } else { corner_product(&[w], false) }, vec![0, 1]);
        }
    }
    push(&mut small, "Branch", Branch(16), vec![8], vec![vec![3]], vec![0, 1]);

    ck.par("small widths, all values", &small, |c| c.name.clone(), |c, cx| check(&mut Rig::new(), c, cx));
    ck.par("wide, corner values", &wide, |c| c.name.clone(), |c, cx| check(&mut Rig::new(), c, cx));

    // loads and stores: any width field, register widths, encrypted or not, offsets
    let mut ls = vec![];
    for w in 1..=128u32 {
        for rw in [1u32, 7, 8, 16, 24, 32, 64, 128] {
            ls.push((w, rw));
        }
    }
    ck.par("memory access", &ls, |c| format!("width {} register {}", c.0, c.1), |&(w, rw), cx| {
        let mut rig = Rig::new();
        let o = rig.options(None);
        for enc in [false, true] {
            for off in [0i32, 16, 24, 1, 4, -4096, -8, i32::MIN, i32::MAX] {
                let v = Val { enc, ..plain(corners(rw, true)[corners(rw, true).len() - 1], rw) };
                // the operand sits at +0; the target area at +2048 starts out as known bytes
                for (k, ptr) in [(0, rig.data + 2048), (1, rig.data + 2052), (2, 0x40)] {
                    let fill: Vec<B> = (0..64u32).map(|i| if i & 32 == 0 { B::P(i as u8 ^ 0x5A) } else { B::C(i as u8 ^ 0xC3) }).collect();
                    for op in [Store(x(2), x(A), w, off), Load(x(D), x(2), w, off), Store(x(A), x(2), w, off), Load(x(D), x(A), w, off)] {
                        if k > 0 && matches!(op, Store(p, ..) | Load(_, p, ..) if p.name == A) {
                            continue;
                        }
                        // a register used as a pointer holds the area's address, encrypted or not
                        let v = if matches!(op, Store(p, ..) | Load(_, p, ..) if p.name == A) { Val { enc, ..plain(ptr as u128, rw) } } else { v };
                        let prog = [
                            LoadI(x(1), rig.data, 32), LoadI(x(2), ptr, 32),
                            Load(x(A), x(1), load_width(rw), 0), Trunc(x(A), x(A), rw),
                            op,
                            Dbg(x(D), 0), Dbg(x(A), 1), Dbg(x(2), 2), Ret(),
                        ];
                        rig.load(&prog);
                        rig.poke(rig.data + 2048, &fill);
                        rig.poke(rig.data + 2032, &[B::P(0); 16]);
                        let mut m = Machine::new();
                        for i in 0..4096 {
                            m.m.insert(rig.data + i, B::P(0));
                        }
                        for (i, b) in fill.iter().enumerate() {
                            m.m.insert(rig.data + 2048 + i as u32, *b);
                        }
                        put(&rig, 0, v);
                        let mut vb = bytes_of(Val { w: load_width(v.w), ..v });
                        vb.resize(16, B::P(0));
                        for (i, b) in vb.into_iter().enumerate() {
                            m.m.insert(rig.data + i as u32, b);
                        }
                        // accesses outside the page are only judged when they surely are unmapped
                        let want = m.run(&prog, rig.code, 100).unwrap();
                        let base = if let Store(p, ..) | Load(_, p, ..) = op { if p.name == A { v.v as u32 } else { ptr } } else { 0 };
                        let t = base.wrapping_add_signed(off);
                        if want == Stop::Fault && ((0x1000..0x4000).contains(&t) || (0x8000_0000..0x8000_2000).contains(&t)) && !(rig.data..rig.data + 4096).contains(&t) {
                            continue;
                        }
                        let (got, mut seen) = rig.run(&o);
                        cx.ev(true);
                        if w % 8 != 0 {
                            // no meaning is documented for such a width: it only has to end
                            continue;
                        }
                        let ctx = || format!("{op:?} X2={ptr:#x} XA={v:?}");
                        match (want, &got) {
                            (Stop::Halt, Ok(_)) => {
                                seen.sort();
                                m.dbg.sort();
                                ensure!(seen == m.dbg, "{}: registers {seen:?}, expected {:?}", ctx(), m.dbg);
                            }
                            (Stop::Fault, Err(_)) => {}
                            (w, g) => return Err(format!("{}: ended with {g:?}, expected {w:?}", ctx())),
                        }
                        let after = rig.peek(rig.data + 2048, 64);
                        let exp: Vec<B> = (0..64).map(|i| m.m[&(rig.data + 2048 + i)]).collect();
                        ensure!(after == exp, "{}: memory {after:?}, expected {exp:?}", ctx());
                    }
                }
            }
        }
        Ok(())
    });
    ck.assume("Small noise-free parameters: a wrong result is never noise.");
    ck.finish();
}
