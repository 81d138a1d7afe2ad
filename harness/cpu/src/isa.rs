//! Reference semantics of the instruction set: a sequential interpreter over plain integers that
//! remember whether they are encrypted. Written from the documentation of the instructions, not from
//! the processor.
use parasol_cpu::assembly::IsaOp;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val {
    pub enc: bool,
    pub v: u128,
    pub w: u32,
}
pub fn plain(v: u128, w: u32) -> Val {
    Val { enc: false, v: v & mask(w), w }
}
pub fn cipher(v: u128, w: u32) -> Val {
    Val { enc: true, v: v & mask(w), w }
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1 << w) - 1 }
}
pub fn signed(v: u128, w: u32) -> i128 {
    if w < 128 && v >> (w - 1) & 1 == 1 { (v | !mask(w)) as i128 } else { v as i128 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum B {
    P(u8),
    C(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The program returned.
    Halt,
    /// The instruction is illegal with these operands, or accesses memory it must not.
    Fault,
    /// Continuing would exceed the gas limit.
    OutOfGas,
}

#[derive(Clone)]
pub struct Machine {
    pub r: Vec<Val>,
    pub m: BTreeMap<u32, B>,
    pub pc: u32,
    pub gas: u64,
    pub limit: Option<u64>,
    pub dbg: Vec<(u32, Val)>,
}

fn shl(v: u128, s: u128) -> u128 {
    if s >= 128 { 0 } else { v << s }
}
fn shr(v: u128, s: u128) -> u128 {
    if s >= 128 { 0 } else { v >> s }
}

impl Machine {
    pub fn new() -> Machine {
        Machine { r: vec![plain(0, 32); 64], m: BTreeMap::new(), pc: 0, gas: 0, limit: None, dbg: vec![] }
    }

    /// What an instruction costs with the operands at hand.
    pub fn cost(&self, op: &IsaOp) -> u64 {
        use IsaOp::*;
        macro_rules! enc { ($($r:expr),*) => { false $(|| self.r[$r.name].enc)* } }
        let (e, c) = match *op {
            Not(_, a) | Neg(_, a) => (enc!(a), 100_000),
            And(_, a, b) | Or(_, a, b) | Xor(_, a, b) | Add(_, a, b) | Sub(_, a, b) | CmpEq(_, a, b) | CmpGt(_, a, b) | CmpGe(_, a, b)
            | CmpLt(_, a, b) | CmpLe(_, a, b) | CmpGtS(_, a, b) | CmpGeS(_, a, b) | CmpLtS(_, a, b) | CmpLeS(_, a, b) => (enc!(a, b), 100_000),
            Mul(_, a, b) => (enc!(a, b), 500_000),
            Shr(_, _, s) | Shra(_, _, s) | Shl(_, _, s) | Rotr(_, _, s) | Rotl(_, _, s) => (enc!(s), 100_000),
            AddC(_, _, a, b, c) | SubB(_, _, a, b, c) | Cmux(_, c, a, b) => (enc!(a, b, c), 100_000),
            Ret() => return 0,
            _ => (false, 0),
        };
        if e { c } else { 1 }
    }

    fn addr(&self, p: Val, off: i32, w: u32) -> Result<u32, Stop> {
        if p.enc || ![8, 16, 32, 64, 128].contains(&w) {
            return Err(Stop::Fault);
        }
        let a = (p.v as u32).checked_add_signed(off).ok_or(Stop::Fault)?;
        if a % (w / 8) != 0 { Err(Stop::Fault) } else { Ok(a) }
    }

    /// Execute one instruction.
    pub fn step(&mut self, op: &IsaOp) -> Result<(), Stop> {
        use IsaOp::*;
        let cost = self.cost(op);
        if self.limit.is_some_and(|l| self.gas + cost > l) {
            return Err(Stop::OutOfGas);
        }
        self.gas += cost;
        let mut next = self.pc.wrapping_add(8);
        macro_rules! g { ($r:expr) => { self.r[$r.name] } }
        macro_rules! same { ($a:expr, $b:expr) => { if $a.w != $b.w { return Err(Stop::Fault); } } }
        let res = |e: bool, v: u128, w: u32| Val { enc: e, v: v & mask(w), w };
        macro_rules! bin { ($d:expr, $a:expr, $b:expr, $f:expr) => {{
            let (a, b) = (g!($a), g!($b));
            same!(a, b);
            self.r[$d.name] = res(a.enc || b.enc, $f(a.v, b.v), a.w);
        }} }
        macro_rules! cmp { ($d:expr, $a:expr, $b:expr, $f:expr) => {{
            let (a, b) = (g!($a), g!($b));
            same!(a, b);
            self.r[$d.name] = res(a.enc || b.enc, $f(a.v, b.v) as u128, 1);
        }} }
        macro_rules! cmps { ($d:expr, $a:expr, $b:expr, $f:expr) => {{
            let (a, b) = (g!($a), g!($b));
            same!(a, b);
            self.r[$d.name] = res(a.enc || b.enc, $f(signed(a.v, a.w), signed(b.v, b.w)) as u128, 1);
        }} }
        macro_rules! sh { ($d:expr, $a:expr, $s:expr, $f:expr) => {{
            let (a, s) = (g!($a), g!($s));
            self.r[$d.name] = res(a.enc || s.enc, $f(a.v, s.v, a.w), a.w);
        }} }
        match *op {
            Load(d, p, w, off) => {
                let a = self.addr(g!(p), off, w)?;
                let b: Vec<B> = (0..w / 8).map(|i| self.m.get(&(a + i)).copied().ok_or(Stop::Fault)).collect::<Result<_, _>>()?;
                let e = matches!(b[0], B::C(_));
                let mut v = 0;
                for (i, x) in b.iter().enumerate() {
                    let (xe, xv) = match *x {
                        B::P(x) => (false, x),
                        B::C(x) => (true, x),
                    };
                    if xe != e {
                        return Err(Stop::Fault);
                    }
                    v |= (xv as u128) << (8 * i);
                }
                self.r[d.name] = res(e, v, w);
            }
            Store(p, s, w, off) => {
                let a = self.addr(g!(p), off, w)?;
                if (0..w / 8).any(|i| !self.m.contains_key(&(a + i))) {
                    return Err(Stop::Fault);
                }
                let s = g!(s);
                for i in 0..w / 8 {
                    let x = (s.v >> (8 * i)) as u8;
                    self.m.insert(a + i, if s.enc { B::C(x) } else { B::P(x) });
                }
            }
            LoadI(d, imm, w) => {
                let fits = w >= 32 || imm >> w == 0 || {
                    let s = imm as i32 as i64;
                    s < 0 && s >= -(1i64 << (w - 1))
                };
                if !fits {
                    return Err(Stop::Fault);
                }
                self.r[d.name] = res(false, imm as u128, w);
            }
            Trunc(d, s, w) => {
                let s = g!(s);
                if w > s.w {
                    return Err(Stop::Fault);
                }
                self.r[d.name] = res(s.enc, s.v, w);
            }
            Zext(d, s, w) => {
                let s = g!(s);
                if w < s.w {
                    return Err(Stop::Fault);
                }
                self.r[d.name] = res(s.enc, s.v, w);
            }
            Sext(d, s, w) => {
                let s = g!(s);
                if w < s.w {
                    return Err(Stop::Fault);
                }
                self.r[d.name] = res(s.enc, signed(s.v, s.w) as u128, w);
            }
            Move(d, s) => self.r[d.name] = g!(s),
            Not(d, s) => {
                let s = g!(s);
                self.r[d.name] = res(s.enc, !s.v, s.w);
            }
            Neg(d, s) => {
                let s = g!(s);
                self.r[d.name] = res(s.enc, 0u128.wrapping_sub(s.v), s.w);
            }
            And(d, a, b) => bin!(d, a, b, |a, b| a & b),
            Or(d, a, b) => bin!(d, a, b, |a, b| a | b),
            Xor(d, a, b) => bin!(d, a, b, |a, b| a ^ b),
            Add(d, a, b) => bin!(d, a, b, u128::wrapping_add),
            Sub(d, a, b) => bin!(d, a, b, u128::wrapping_sub),
            Mul(d, a, b) => bin!(d, a, b, u128::wrapping_mul),
            AddC(d, co, a, b, c) => {
                let (a, b, c) = (g!(a), g!(b), g!(c));
                same!(a, b);
                if c.w != 1 {
                    return Err(Stop::Fault);
                }
                let e = a.enc || b.enc || c.enc;
                let (s, c1) = a.v.overflowing_add(b.v);
                let (s, c2) = s.overflowing_add(c.v);
                let carry = if a.w == 128 { c1 || c2 } else { s >> a.w & 1 == 1 };
                self.r[d.name] = res(e, s, a.w);
                self.r[co.name] = res(e, carry as u128, 1);
            }
            SubB(d, bo, a, b, c) => {
                let (a, b, c) = (g!(a), g!(b), g!(c));
                same!(a, b);
                if c.w != 1 {
                    return Err(Stop::Fault);
                }
                let e = a.enc || b.enc || c.enc;
                let borrow = a.v < b.v || (a.v == b.v && c.v == 1);
                self.r[d.name] = res(e, a.v.wrapping_sub(b.v).wrapping_sub(c.v), a.w);
                self.r[bo.name] = res(e, borrow as u128, 1);
            }
            Shl(d, a, s) => sh!(d, a, s, |v, s, _| shl(v, s)),
            Shr(d, a, s) => sh!(d, a, s, |v, s, _| shr(v, s)),
            Shra(d, a, s) => sh!(d, a, s, |v, s: u128, w| (signed(v, w) >> s.min(127)) as u128),
            Rotl(d, a, s) | Rotr(d, a, s) => {
                let (x, s) = (g!(a), g!(s));
                // rotating by an encrypted amount needs the amount modulo the width
                if s.enc && !x.w.is_power_of_two() {
                    return Err(Stop::Fault);
                }
                let k = s.v % x.w as u128;
                let k = if matches!(op, Rotl(..)) { k } else { (x.w as u128 - k) % x.w as u128 };
                self.r[d.name] = res(x.enc || s.enc, shl(x.v, k) | shr(x.v, x.w as u128 - k), x.w);
            }
            CmpEq(d, a, b) => cmp!(d, a, b, |a, b| a == b),
            CmpGt(d, a, b) => cmp!(d, a, b, |a, b| a > b),
            CmpGe(d, a, b) => cmp!(d, a, b, |a, b| a >= b),
            CmpLt(d, a, b) => cmp!(d, a, b, |a, b| a < b),
            CmpLe(d, a, b) => cmp!(d, a, b, |a, b| a <= b),
            CmpGtS(d, a, b) => cmps!(d, a, b, |a, b| a > b),
            CmpGeS(d, a, b) => cmps!(d, a, b, |a, b| a >= b),
            CmpLtS(d, a, b) => cmps!(d, a, b, |a, b| a < b),
            CmpLeS(d, a, b) => cmps!(d, a, b, |a, b| a <= b),
            BranchNonZero(c, off) | BranchZero(c, off) => {
                let c = g!(c);
                if c.enc {
                    return Err(Stop::Fault);
                }
                if (c.v != 0) == matches!(op, BranchNonZero(..)) {
                    next = self.pc.wrapping_add_signed(off);
                }
            }
            Branch(off) => next = self.pc.wrapping_add_signed(off),
            Ret() => return Err(Stop::Halt),
            Cmux(d, s, a, b) => {
                let (s, a, b) = (g!(s), g!(a), g!(b));
                same!(a, b);
                if s.w != 1 {
                    return Err(Stop::Fault);
                }
                self.r[d.name] = res(s.enc || a.enc || b.enc, if s.v == 1 { a.v } else { b.v }, a.w);
            }
            Dbg(s, id) => {
                let s = g!(s);
                self.dbg.push((id, s));
            }
        }
        self.pc = next;
        Ok(())
    }

    /// Run `prog`, loaded at address `base`, for at most `fuel` instructions. `None`: it did not stop.
    pub fn run(&mut self, prog: &[IsaOp], base: u32, fuel: usize) -> Option<Stop> {
        self.pc = base;
        for _ in 0..fuel {
            let i = self.pc.wrapping_sub(base);
            let Some(op) = (i % 8 == 0).then(|| prog.get((i / 8) as usize)).flatten() else { return Some(Stop::Fault) };
            if let Err(s) = self.step(op) {
                return Some(s);
            }
        }
        None
    }
}
