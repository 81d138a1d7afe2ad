//! P01: instruction words.
use crate::rig::*;
use mc::*;
use parasol_cpu::assembly::IsaOp;
use std::collections::{BTreeSet, HashMap};

const REGS: [usize; 9] = [0, 1, 2, 5, 10, 31, 32, 62, 63];
const IMMS: [u32; 10] = [0, 1, 2, 8, 0x7F, 0x80, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];

/// Every instruction with every choice of operands from the corner sets.
pub fn all(f: &mut dyn FnMut(IsaOp)) {
    use IsaOp::*;
    let ws: Vec<u32> = (1..=128).collect();
    let imms: Vec<u32> = IMMS.iter().copied().chain((0..32).map(|i| 1 << i)).collect::<BTreeSet<_>>().into_iter().collect();
    for &a in &REGS {
        let a = x(a);
        for &imm in &imms {
            f(BranchNonZero(a, imm as i32));
            f(BranchZero(a, imm as i32));
            f(Dbg(a, imm));
            for &w in &ws {
                f(LoadI(a, imm, w));
            }
        }
        for &b in &REGS {
            let b = x(b);
            f(Move(a, b));
            f(Not(a, b));
            f(Neg(a, b));
            for &w in &ws {
                f(Trunc(a, b, w));
                f(Zext(a, b, w));
                f(Sext(a, b, w));
                for &imm in &imms {
                    f(Load(a, b, w, imm as i32));
                    f(Store(a, b, w, imm as i32));
                }
            }
            for &c in &REGS {
                let c = x(c);
                for m in [And, Or, Xor, Add, Sub, Mul, Rotl, Rotr, Shl, Shr, Shra, CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS] {
                    f(m(a, b, c));
                }
                for &d in &REGS {
                    let d = x(d);
                    f(Cmux(a, b, c, d));
                    for &e in &REGS {
                        let e = x(e);
                        f(AddC(a, b, c, d, e));
                        f(SubB(a, b, c, d, e));
                    }
                }
            }
        }
    }
    for &imm in &imms {
        f(Branch(imm as i32));
    }
    f(Ret());
}

pub fn run() {
    let ck = Ck::new("P01", "exploration", "an evaluation is one instruction word decoded, or one instruction taken through encode and decode");
    ck.case("round trip", "every instruction, corner operands, every width", |cx| {
        let mut words: HashMap<u64, IsaOp> = HashMap::new();
        let mut bad = None;
        all(&mut |op| {
            if bad.is_some() {
                return;
            }
            let w = u64::from(op);
            cx.ev(true);
            match catch(|| IsaOp::try_from(w)) {
                Ok(Ok(o)) if o == op => {}
                o => bad = Some(format!("{op:?} encodes to {w:#x}, which decodes to {o:?}")),
            }
            if let Some(o) = words.insert(w, op).filter(|o| *o != op) {
                bad = Some(format!("{o:?} and {op:?} both encode to {w:#x}"));
            }
        });
        cx.states = words.len() as u64;
        bad.map_or(Ok(()), Err)
    });
    // Widths no instruction has: refused, not encoded as another instruction.
    ck.case("out of range", "every wrong width", |cx| {
        use IsaOp::*;
        let ws: BTreeSet<u32> = (129..=1024).chain([0, u32::MAX]).chain((8..32).flat_map(|i| [1 << i, (1u32 << i) + 1, (1 << i) - 1, (1 << i) + 128])).collect();
        for w in ws {
            let (a, b) = (x(3), x(4));
            for op in [Store(a, b, w, 0), Load(a, b, w, 0), LoadI(a, 5, w), Trunc(a, b, w), Zext(a, b, w), Sext(a, b, w)] {
                cx.ev(true);
                if let Ok(e) = catch(|| u64::from(op)) {
                    return Err(format!("{op:?} is encoded as {e:#x}, which is {:?}", catch(|| IsaOp::try_from(e))));
                }
            }
        }
        Ok(())
    });
    // Every opcode byte with every pattern of one or two further bits, and solid fills.
    let ops: Vec<u64> = (0..256).collect();
    ck.par("decoding", &ops, |o| format!("opcode {o:#x}"), |&o, cx| {
        let known = known(o as u8);
        let mut pats: Vec<u64> = vec![0, !0 << 8];
        for i in 8..64 {
            pats.push(1 << i);
            pats.push(!0 << i);
            pats.push((!0 >> (63 - i)) & !0xFF);
            for j in i + 1..64 {
                pats.push(1 << i | 1 << j);
            }
        }
        for p in pats {
            let w = o | p;
            cx.ev(true);
            match catch(|| IsaOp::try_from(w)) {
                Err(e) => return Err(format!("decoding {w:#x} panicked: {e}")),
                Ok(Ok(op)) => {
                    ensure!(known.is_some(), "{w:#x} decodes to {op:?}, but there is no such opcode");
                    // The bits the instruction leaves unused are ignored; all others must come back.
                    let back = u64::from(op);
                    let unused = known.unwrap();
                    ensure!(back & !unused == w & !unused, "{w:#x} decodes to {op:?}, which is {back:#x}");
                }
                Ok(Err(parasol_cpu::Error::IllegalInstruction(_))) => {
                    if let Some(unused) = known {
                        // an instruction's word with nothing outside its fields must decode
                        ensure!(w & !fields(o as u8) & !unused != 0, "{w:#x} is an instruction's encoding but is reported as illegal");
                    }
                }
                Ok(Err(e)) => return Err(format!("decoding {w:#x}: {e:?}")),
            }
        }
        Ok(())
    });
    ck.finish();
}

/// The bits an opcode's instruction ignores, if there is such an instruction.
fn known(o: u8) -> Option<u64> {
    let bits = |from: u32, n: u32| ((1u128 << (from + n)) - (1u128 << from)) as u64;
    Some(match o {
        0x01 | 0x09 | 0x0A | 0x21 | 0x31..=0x34 | 0x41 | 0x42 | 0x45 | 0x46 | 0x49 | 0x51 | 0x81 | 0x82 | 0x85 | 0x86 | 0x87 | 0x91 | 0x95..=0x9C
        | 0xB1 | 0xB2 | 0xB5 | 0xC1 | 0xF0 => 0,
        0x11 | 0x15 | 0x16 => bits(8 + 12 + 7, 7),
        0xBA => bits(8, 44),
        _ => return None,
    })
}

/// The bits an instruction's fields occupy.
fn fields(o: u8) -> u64 {
    let n = match o {
        0x01 | 0x09 => 12 + 7 + 32,
        0x0A => 6 + 32 + 7,
        0x11 | 0x15 | 0x16 => 12 + 7,
        0x21 | 0x31 | 0x49 => 12,
        0x42 | 0x46 => 30,
        0xC1 => 24,
        0xB1 | 0xB2 | 0xF0 => 38,
        0xB5 => 32,
        0xBA => 0,
        _ => 18,
    };
    ((1u128 << (8 + n)) - 1) as u64
}
