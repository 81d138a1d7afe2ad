//! P03: program memory against a byte map.
use crate::fx::*;
use mc::*;
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::*;
use std::collections::BTreeMap;
use std::sync::Arc;

macro_rules! agree {
    ($got:expr, $want:expr, $($t:tt)*) => {{
        let (g, w) = (&$got, &$want);
        ensure!(g == w, "{}: got {g:?}, expected {w:?}", format!($($t)*));
    }};
}

const PG: u64 = PAGE_SIZE as u64;
const TOP: u64 = 1 << 32;

/// A byte as the model knows it: a plain value, or which of the shared encrypted bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Cell {
    P(u8),
    C(u8),
}

thread_local! {
    static ENC: Vec<Byte> = (0..3u128).map(|v| Byte::Ciphertext(Fx::get().bits(v, 8))).collect();
}

fn byte(c: Cell) -> Byte {
    match c {
        Cell::P(v) => Byte::Plaintext(v),
        Cell::C(i) => ENC.with(|e| e[i as usize].clone()),
    }
}

fn same_byte(a: &Byte, c: Cell) -> bool {
    match (a, c) {
        (Byte::Plaintext(v), Cell::P(w)) => *v == w,
        (Byte::Ciphertext(v), Cell::C(i)) => ENC.with(|e| match &e[i as usize] {
            Byte::Ciphertext(w) => v.len() == 8 && v.iter().zip(w).all(|(a, b)| Arc::ptr_eq(a, b)),
            _ => false,
        }),
        _ => false,
    }
}

/// Raw bytes with any alignment.
struct Raw(Vec<Byte>, usize);
impl DynamicToArg for Raw {
    fn alignment(&self) -> usize {
        self.1
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        Ok(Raw(d, 1))
    }
}

struct Model {
    pages: BTreeMap<u64, Vec<Cell>>,
    sp: u64,
}

impl Model {
    fn mapped(&self, a: u64, len: u64) -> bool {
        len == 0 || a + len <= TOP && (a / PG..=(a + len.max(1) - 1) / PG).all(|p| self.pages.contains_key(&p))
    }
    fn map(&mut self, a: u64, len: u64) {
        for p in a / PG..=(a + len - 1) / PG {
            self.pages.entry(p).or_insert_with(|| vec![Cell::P(0); PG as usize]);
        }
    }
    fn get(&self, a: u64) -> Cell {
        self.pages[&(a / PG)][(a % PG) as usize]
    }
    fn set(&mut self, a: u64, c: Cell) {
        self.pages.get_mut(&(a / PG)).unwrap()[(a % PG) as usize] = c;
    }
    /// Runs of mapped addresses.
    fn runs(&self) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = vec![];
        for &p in self.pages.keys() {
            match v.last_mut() {
                Some(r) if r.1 == p * PG => r.1 += PG,
                _ => v.push((p * PG, (p + 1) * PG)),
            }
        }
        v
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Alloc(u32),
    /// Through the coalescing allocator: length, alignment.
    Part(u32, u32),
    Program(usize),
    Push(usize, usize),
    /// Run of mapped memory (counted from its end when negative), offset, length, alignment.
    WriteLo(usize, i64, usize, usize),
    WriteHi(usize, i64, usize, usize),
    WriteTyped(usize, i64),
}

struct World {
    mem: Memory,
    model: Model,
    part: Option<Allocation>,
    /// Model of the coalescing allocator: base, free offset, size.
    part_m: Option<(u64, u64, u64)>,
    stamp: u8,
}

fn content(stamp: &mut u8, n: usize) -> Vec<Cell> {
    *stamp += 1;
    (0..n).map(|i| if i % 5 == 3 { Cell::C((i % 3) as u8) } else { Cell::P(*stamp ^ (i as u8).wrapping_mul(37)) }).collect()
}

impl World {
    fn new() -> World {
        let mem = Memory::new_default_stack();
        let mut model = Model { pages: BTreeMap::new(), sp: 0x8000_1000 };
        model.map(0x8000_0000, 0x1000);
        World { mem, model, part: None, part_m: None, stamp: 0 }
    }

    fn fresh(&mut self, got: u64, len: u64, align: u64) -> R {
        ensure!(got != 0 && got % align == 0, "allocation at {got:#x} is null or not aligned to {align}");
        ensure!(got + len <= TOP, "allocation {got:#x}+{len:#x} wraps");
        let end = (got + len).next_multiple_of(PG);
        for p in got / PG..end / PG {
            ensure!(!self.model.pages.contains_key(&p), "allocation {got:#x}+{len:#x} overlaps the mapped page {:#x}", p * PG);
        }
        self.model.map(got, len);
        Ok(())
    }

    fn write(&mut self, a: u64, len: usize, align: usize) -> R {
        if a >= TOP {
            return Ok(());
        }
        let c = content(&mut self.stamp, len);
        let r = self.mem.try_write_type_dyn(Ptr32::from(a as u32), &Raw(c.iter().map(|c| byte(*c)).collect(), align));
        let ok = a % align as u64 == 0 && self.model.mapped(a, len as u64);
        agree!(r.is_ok(), ok, "writing {len} bytes aligned to {align} at {a:#x}: {r:?}");
        if ok {
            c.iter().enumerate().for_each(|(i, c)| self.model.set(a + i as u64, *c));
        }
        Ok(())
    }

    fn apply(&mut self, op: Op) -> R {
        match op {
            Op::Alloc(len) => {
                let r = self.mem.try_allocate(len);
                let got = match r {
                    Ok(p) => u32::from(p) as u64,
                    Err(e) => {
                        ensure!(len == 0 || len > 0x7FFF_0000, "allocating {len:#x} bytes failed: {e:?}");
                        return Ok(());
                    }
                };
                ensure!(len > 0 && (len as u64) < 0x8000_0000, "allocating {len:#x} bytes cannot succeed, got {got:#x}");
                ensure!(got % PG == 0, "allocation not on a page");
                self.fresh(got, len as u64, PG)
            }
            Op::Part(len, align) => {
                let (p, got) = Allocation::try_allocate(self.part.take(), &self.mem, len, align).map_err(|e| format!("{e:?}"))?;
                self.part = Some(p);
                let got = u32::from(got) as u64;
                let (len, align) = (len as u64, align as u64);
                match self.part_m {
                    Some((base, free, size)) if free.next_multiple_of(align) + len <= size => {
                        let at = base + free.next_multiple_of(align);
                        agree!(got, at, "placing {len} bytes aligned to {align} after {free} of {size} used");
                        self.part_m = Some((base, at - base + len, size));
                    }
                    _ => {
                        self.fresh(got, len, PG)?;
                        self.part_m = Some((got, len, len.next_multiple_of(PG)));
                    }
                }
                Ok(())
            }
            Op::Program(n) => {
                let prog: Vec<IsaOp> = (0..n).map(|i| IsaOp::Branch(i as i32 * 8 - 1000)).collect();
                let got = u32::from(self.mem.allocate_program(&prog)) as u64;
                self.fresh(got, 8 * n as u64, 8)?;
                for (i, op) in prog.iter().enumerate() {
                    for (j, b) in u64::from(*op).to_le_bytes().into_iter().enumerate() {
                        self.model.set(got + 8 * i as u64 + j as u64, Cell::P(b));
                    }
                }
                Ok(())
            }
            Op::Push(len, align) => {
                let c = content(&mut self.stamp, len);
                let arg = Raw(c.iter().map(|c| byte(*c)).collect(), align).to_arg();
                let r = self.mem.try_push_arg_onto_stack(&arg);
                let old = self.model.sp;
                let want = old.checked_sub(len as u64).map(|a| a / align as u64 * align as u64).filter(|a| self.model.mapped(*a, len as u64));
                match (r, want) {
                    (Ok(p), Some(w)) => {
                        agree!(u32::from(p) as u64, w, "pushing {len} bytes aligned to {align} at stack pointer {old:#x}");
                        c.iter().enumerate().for_each(|(i, c)| self.model.set(w + i as u64, *c));
                        // what lies in the gap is not specified
                        let end = w + len as u64;
                        let gap: Vec<Byte> = if end < old { self.mem.try_load_type_dyn::<Raw>(Ptr32::from(end as u32), 1, (old - end) as usize).unwrap().0 } else { vec![] };
                        for (i, b) in gap.iter().enumerate() {
                            if let Byte::Plaintext(0) = b {
                                self.model.set(end + i as u64, Cell::P(0));
                            }
                        }
                        self.model.sp = w;
                    }
                    (Err(_), None) => {}
                    (r, w) => return Err(format!("pushing {len} bytes aligned to {align} at {old:#x}: {r:?}, expected {w:x?}")),
                }
                Ok(())
            }
            Op::WriteLo(run, off, len, align) => {
                let Some(&r) = self.model.runs().get(run) else { return Ok(()) };
                self.write((r.0 as i64 + off) as u64, len, align)
            }
            Op::WriteHi(run, off, len, align) => {
                let Some(&r) = self.model.runs().get(run) else { return Ok(()) };
                self.write((r.1 as i64 + off) as u64, len, align)
            }
            Op::WriteTyped(run, off) => {
                let Some(&r) = self.model.runs().get(run) else { return Ok(()) };
                let a = (r.1 as i64 + off) as u64;
                let v = 0x0123_4567_89AB_CDEF_1122_3344_5566_7788u128.wrapping_add(self.stamp as u128);
                self.stamp += 1;
                let r = self.mem.try_write_type(Ptr32::from(a as u32), &v);
                agree!(r.is_ok(), a % 16 == 0 && self.model.mapped(a, 16), "writing a u128 at {a:#x}: {r:?}");
                if r.is_ok() {
                    v.to_le_bytes().into_iter().enumerate().for_each(|(i, b)| self.model.set(a + i as u64, Cell::P(b)));
                }
                Ok(())
            }
        }
    }

    /// Everything a user can observe, plus every operation that must fail.
    fn observe(&mut self, cx: &mut Cx) -> R {
        agree!(u32::from(self.mem.stack_ptr()) as u64, self.model.sp, "stack pointer");
        self.contents()?;
        let mut marks = vec![0, PG, 0x7FFF_F000, 0x8000_1000, 0x8000_2000, TOP - PG, TOP];
        for (a, b) in self.model.runs() {
            marks.extend([a, b]);
        }
        marks.sort();
        marks.dedup();
        for m in marks {
            for off in [-16i64, -8, -4, -2, -1, 0, 1] {
                let a = m as i64 + off;
                if a < 0 || a as u64 >= TOP {
                    continue;
                }
                let a = a as u64;
                let p = Ptr32::from(a as u32);
                for len in [1u64, 2, 16, 17, PG - 1, PG, PG + 1, 2 * PG + 1, TOP - a, TOP - a - 1, TOP - a + 1, 0x8000_0000, 0xFFFF_FFFF] {
                    if len == 0 || len >= TOP {
                        continue;
                    }
                    let ok = self.model.mapped(a, len);
                    let r = self.mem.check_range_is_mapped(p, len as u32);
                    cx.ev(ok);
                    agree!(r.is_ok(), ok, "{a:#x}+{len:#x} mapped: {r:?}");
                    // small ranges are read, larger ones only when that must fail
                    if len <= 17 || !ok {
                        for align in [1u64, 2, 16] {
                            let r = self.mem.try_load_type_dyn::<Raw>(p, align as usize, len as usize);
                            agree!(r.is_ok(), ok && a % align == 0, "loading {len} bytes aligned to {align} at {a:#x}");
                            if let Ok(r) = r {
                                for (i, b) in r.0.iter().enumerate() {
                                    ensure!(same_byte(b, self.model.get(a + i as u64)), "byte {:#x} differs", a + i as u64);
                                }
                            }
                        }
                    }
                }
                self.typed::<u8>(a)?;
                self.typed::<u16>(a)?;
                self.typed::<u32>(a)?;
                self.typed::<u64>(a)?;
                self.typed::<u128>(a)?;
                // writes outside must fail
                for len in [1usize, 16] {
                    if !self.model.mapped(a, len as u64) {
                        self.write(a, len, 1)?;
                    }
                }
            }
        }
        for len in [0, 0x8000_0000u32, 0xFFFF_F000, 0xFFFF_F001, 0xFFFF_FFFF] {
            self.apply(Op::Alloc(len))?;
        }
        let sp = self.model.sp;
        self.apply(Op::Push((sp - 0x8000_0000) as usize + 1, 1))?;
        agree!(u32::from(self.mem.stack_ptr()) as u64, sp, "stack pointer after a push that does not fit");
        self.contents()
    }

    fn typed<T: ToArg + TryInto<u128>>(&self, a: u64) -> R {
        let n = T::size() as u64;
        let cells: Option<Vec<Cell>> = (a % n == 0 && self.model.mapped(a, n)).then(|| (0..n).map(|i| self.model.get(a + i)).collect());
        let want = cells.and_then(|c| c.iter().rev().try_fold(0u128, |v, c| if let Cell::P(b) = c { Some(v << 8 | *b as u128) } else { None }));
        let got = self.mem.try_load_type::<T>(Ptr32::from(a as u32)).ok().and_then(|v| v.try_into().ok());
        agree!(got, want, "loading a {n}-byte integer at {a:#x}");
        Ok(())
    }

    fn contents(&self) -> R {
        for (p, c) in &self.model.pages {
            let got = self.mem.try_load_type_dyn::<Raw>(Ptr32::from((p * PG) as u32), 1, PG as usize).map_err(|e| format!("page {:#x}: {e:?}", p * PG))?;
            for (i, (b, c)) in got.0.iter().zip(c).enumerate() {
                ensure!(same_byte(b, *c), "byte {:#x} is not {c:?}", p * PG + i as u64);
            }
        }
        Ok(())
    }
}

fn ops(thorough: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![
        Alloc(1), Alloc(4096), Alloc(4097), Alloc(12288),
        Part(8, 8), Part(100, 16), Part(3988, 1), Part(1, 4096), Part(5000, 16),
        Program(1), Program(512), Program(513),
        Push(1, 1), Push(16, 16), Push(5, 8), Push(0, 16), Push(40, 32), Push(2000, 4),
        WriteLo(0, 0, 1, 1), WriteLo(0, -1, 2, 1), WriteHi(0, -1, 1, 1), WriteHi(0, -16, 16, 16), WriteHi(0, -1, 2, 1), WriteHi(0, -4100, 4100, 4),
        WriteLo(1, 0, 17, 1), WriteTyped(0, -16), WriteTyped(1, -16), WriteTyped(0, -8), WriteTyped(0, 0),
    ];
    if thorough {
        v.extend([Alloc(8192), Part(4096, 1), Part(96, 1), Push(3, 4096), Push(4096, 1), WriteHi(1, -4096, 4096, 2), WriteLo(0, 4095, 2, 1), WriteHi(0, -8, 8, 16)]);
    }
    v
}

// ---- program files

struct Seg {
    addr: u32,
    memsz: u32,
    data: Vec<u8>,
    kind: u32,
}

/// A minimal 32-bit program file: header, program headers, section headers, segment data, symbols.
fn elf(abi: u8, segs: &[Seg], syms: &[(&str, u32, u8)]) -> Vec<u8> {
    let mut f = vec![0u8; 52 + 32 * segs.len()];
    let mut strtab = vec![0u8];
    let mut symtab = vec![0u8; 16];
    for (n, v, t) in syms {
        let at = strtab.len() as u32;
        strtab.extend(n.bytes().chain([0]));
        symtab.extend(at.to_le_bytes());
        symtab.extend(v.to_le_bytes());
        symtab.extend([0u8; 4]);
        symtab.extend([0x10 | t, 0, 1, 0]);
    }
    for (i, s) in segs.iter().enumerate() {
        let off = f.len() as u32;
        f.extend(&s.data);
        let h = 52 + 32 * i;
        for (j, w) in [s.kind, off, s.addr, s.addr, s.data.len() as u32, s.memsz, 5, 4096].into_iter().enumerate() {
            f[h + 4 * j..h + 4 * j + 4].copy_from_slice(&w.to_le_bytes());
        }
    }
    let shname = b"\0.symtab\0.strtab\0.shstrtab\0";
    let (so, no, ho) = (f.len() as u32, (f.len() + symtab.len()) as u32, (f.len() + symtab.len() + strtab.len()) as u32);
    f.extend(&symtab);
    f.extend(&strtab);
    f.extend(shname);
    let shoff = f.len() as u32;
    for s in [
        [0u32; 10],
        [1, 2, 0, 0, so, symtab.len() as u32, 2, 1, 4, 16],
        [9, 3, 0, 0, no, strtab.len() as u32, 0, 0, 1, 0],
        [17, 3, 0, 0, ho, shname.len() as u32, 0, 0, 1, 0],
    ] {
        s.iter().for_each(|w| f.extend(w.to_le_bytes()));
    }
    f[..7].copy_from_slice(&[0x7F, b'E', b'L', b'F', 1, 1, 1]);
    f[8] = abi;
    let mut w16 = |o: usize, v: u16| f[o..o + 2].copy_from_slice(&v.to_le_bytes());
    w16(16, 2);
    w16(18, 243);
    w16(40, 52);
    w16(42, 32);
    w16(44, segs.len() as u16);
    w16(46, 40);
    w16(48, 4);
    w16(50, 3);
    let mut w32 = |o: usize, v: u32| f[o..o + 4].copy_from_slice(&v.to_le_bytes());
    w32(20, 1);
    w32(28, 52);
    w32(32, shoff);
    f
}

fn stack(top: u32, size: u32) -> MemoryConfig {
    MemoryConfigBuilder::new().stack_top(Ptr32::from(top)).stack_size(size).build()
}

fn load_ok(f: &[u8], c: &MemoryConfig, segs: &[Seg], cx: &mut Cx) -> R {
    let end = c.stack_size as u64 + u32::from(c.stack_top) as u64;
    let bad_stack = c.stack_size == 0 || end >= TOP;
    let wraps = segs.iter().any(|s| s.kind == 1 && s.memsz > 0 && s.addr as u64 + s.memsz as u64 > TOP);
    // a region that ends exactly at the end of the address space may be refused
    let edge = segs.iter().any(|s| s.kind == 1 && s.memsz > 0 && s.addr as u64 + s.memsz as u64 == TOP);
    let r = Memory::new_from_elf_with_config(f, c);
    cx.ev(r.is_ok());
    let mem = match r {
        Ok(m) => m,
        Err(e) => {
            ensure!(bad_stack || wraps || edge, "loading failed: {e:?}");
            return Ok(());
        }
    };
    ensure!(!wraps && (!bad_stack || end == TOP), "a stack or segment that wraps was accepted");
    let mut m = Model { pages: BTreeMap::new(), sp: end };
    m.map(u32::from(c.stack_top) as u64, c.stack_size as u64);
    for s in segs.iter().filter(|s| s.kind == 1 && s.memsz > 0) {
        m.map(s.addr as u64, s.memsz as u64);
        s.data.iter().take(s.memsz as usize).enumerate().for_each(|(i, b)| m.set(s.addr as u64 + i as u64, Cell::P(*b)));
    }
    let mut w = World { mem, model: m, part: None, part_m: None, stamp: 0 };
    agree!(u32::from(w.mem.stack_ptr()) as u64, w.model.sp, "stack pointer");
    w.contents()?;
    for (a, b) in w.model.runs() {
        for p in [a.checked_sub(1), Some(a), Some(b - 1), Some(b)].into_iter().flatten().filter(|p| *p < TOP) {
            agree!(w.mem.check_range_is_mapped(Ptr32::from(p as u32), 1).is_ok(), w.model.mapped(p, 1), "{p:#x} mapped");
        }
    }
    w.apply(Op::Alloc(4096))?;
    w.contents()
}

pub fn run() {
    let ck = Ck::new("P03", "exploration", "an evaluation is one range queried or accessed in one reached memory state; non-trivial when the range is mapped");
    let ops = ops(ck.thorough);
    let depth = 3;
    let firsts: Vec<(usize, usize)> = (0..ops.len()).flat_map(|a| (0..=ops.len()).map(move |b| (a, b))).collect();
    ck.par("histories", &firsts, |&(a, b)| format!("{:?}, {:?}", ops[a], ops.get(b)), |&(a, b), cx| {
        // every history that starts with a, b; b = none stands for the history of a alone
        let mut pre = vec![ops[a]];
        if let Some(b) = ops.get(b) {
            pre.push(*b);
        }
        let mut go = |h: &[Op], cx: &mut Cx| -> R {
            let mut w = World::new();
            for (i, op) in h.iter().enumerate() {
                w.apply(*op).map_err(|e| format!("step {i} of {h:?}: {e}"))?;
                cx.transitions += 1;
            }
            cx.states += 1;
            w.observe(cx).map_err(|e| format!("after {h:?}: {e}"))
        };
        go(&pre, cx)?;
        if pre.len() == 2 && depth > 2 {
            for c in &ops {
                let mut h = pre.clone();
                h.push(*c);
                go(&h, cx)?;
            }
        }
        Ok(())
    });
    ck.case("histories", "empty", |cx| World::new().observe(cx));

    // loading programs
    let bytes = |n: usize, s: u8| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(29) ^ s).collect() };
    let mut files: Vec<(String, Vec<Seg>)> = vec![];
    for addr in [0x1000u32, 0x1001, 0x1FFF, 0x1FF8, 0x8000_0FFF, 0xFFFF_EFF0, 0xFFFF_F000, 0xFFFF_FFF0] {
        for memsz in [0u32, 1, 8, 15, 16, 17, 4095, 4096, 4097, 8192] {
            for filesz in [0usize, 1, 8, 16, 4096] {
                if filesz <= memsz as usize {
                    files.push((format!("{addr:#x} file {filesz} memory {memsz}"), vec![Seg { addr, memsz, data: bytes(filesz, 0x51), kind: 1 }]));
                }
            }
        }
    }
    for (a, b) in [(0x1000u32, 0x1010u32), (0x1FF0, 0x2000), (0x1000, 0x3000), (0x3000, 0x1000), (0x1FFF, 0x2FFF)] {
        for kinds in [(1, 1), (1, 2), (6, 1)] {
            files.push((
                format!("{a:#x} and {b:#x} kinds {kinds:?}"),
                vec![Seg { addr: a, memsz: 16, data: bytes(16, 0x11), kind: kinds.0 }, Seg { addr: b, memsz: 5000, data: bytes(20, 0x77), kind: kinds.1 }],
            ));
        }
    }
    ck.par("program files", &files, |f| f.0.clone(), |(_, segs), cx| {
        let syms = [("alpha", 0x1000u32, 2u8), ("beta", 0x1008, 2), ("data", 0x1010, 1), ("", 7, 2)];
        let f = elf(3, segs, &syms);
        for c in [stack(0xFFFF_8000, 0x4000), stack(0x8000_0000, 0x1000)] {
            load_ok(&f, &c, segs, cx)?;
        }
        let Ok(m) = Memory::new_from_elf(&f) else { return Ok(()) };
        for (n, v, t) in syms {
            let want = (t == 2).then_some(v);
            agree!(m.get_function_entry(n).map(u32::from), want, "symbol {n:?}");
        }
        agree!(m.get_function_entry("gamma").map(u32::from), None, "missing symbol");
        Ok(())
    });
    let stacks: Vec<(u32, u32)> = [0x1000u32, 0x1800, 0x8000_0000, 0xFFFF_8000, 0xFFFF_F000, 0xFFFF_FFFF]
        .into_iter()
        .flat_map(|t| [0u32, 1, 16, 0x800, 0xFFF, 0x1000, 0x1001, 0x4000, 0x8000, 0xFFFF_FFFF].map(|s| (t, s)))
        // keeps the mapped part small
        .filter(|(t, s)| *s < 0x10000 || *t as u64 + *s as u64 >= TOP)
        .collect();
    ck.par("stack placement", &stacks, |s| format!("{s:x?}"), |&(t, s), cx| {
        let segs = [Seg { addr: 0x10_0000, memsz: 16, data: bytes(16, 3), kind: 1 }];
        load_ok(&elf(3, &segs, &[("f", 0x10_0000, 2)]), &stack(t, s), &segs, cx)
    });
    // allocating around holes: every set of mapped pages among the first few, every pair of sizes
    let n = ck.tier(5u32, 8);
    ck.par("holes", &(0..1u32 << n).collect::<Vec<_>>(), |s| format!("mapped pages {s:#b}"), |&set, cx| {
        let segs: Vec<Seg> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| Seg { addr: (i + 1) * 4096, memsz: 4096, data: bytes(4096, i as u8 ^ 0xA5), kind: 1 }).collect();
        let f = elf(3, &segs, &[("f", 0x1000, 2)]);
        let c = stack(0x8000_0000, 0x1000);
        for (i, first) in (1..=n + 2).enumerate() {
            for second in 1..=n + 2 {
                let mem = Memory::new_from_elf_with_config(&f, &c).map_err(|e| format!("loading failed: {e:?}"))?;
                let mut m = Model { pages: BTreeMap::new(), sp: 0x8000_1000 };
                m.map(0x8000_0000, 0x1000);
                for s in &segs {
                    m.map(s.addr as u64, s.memsz as u64);
                    s.data.iter().enumerate().for_each(|(i, b)| m.set(s.addr as u64 + i as u64, Cell::P(*b)));
                }
                let mut w = World { mem, model: m, part: None, part_m: None, stamp: 0 };
                for (k, pages) in [first, second].into_iter().enumerate() {
                    w.apply(Op::Alloc(pages * 4096 - (i as u32 + k as u32) % 2 * 4095)).map_err(|e| format!("{first} then {second} pages: {e}"))?;
                    cx.transitions += 1;
                    cx.ev(true);
                }
                w.contents().map_err(|e| format!("{first} then {second} pages: {e}"))?;
                cx.states += 1;
            }
        }
        Ok(())
    });
    // damaged files: an error or a memory, never a crash
    let segs = [Seg { addr: 0x1000, memsz: 24, data: bytes(24, 9), kind: 1 }];
    let good = elf(3, &segs, &[("f", 0x1000, 2)]);
    let at: Vec<usize> = (0..good.len()).collect();
    ck.par("damaged files", &at, |i| format!("offset {i}"), |&i, cx| {
        let c = stack(0x8000_0000, 0x1000);
        cx.ev(true);
        let _ = Memory::new_from_elf_with_config(&good[..i], &c);
        for v in ck.tier(vec![0u8, 1, 2, 0x7F, 0x80, 0xFF, good[i] ^ 1], (0..=255).collect()) {
            // a segment of gigabytes is legal and costs gigabytes
            if (74..76).contains(&i) && v > 0 {
                continue;
            }
            let mut f = good.clone();
            f[i] = v;
            cx.ev(true);
            let _ = Memory::new_from_elf_with_config(&f, &c);
        }
        Ok(())
    });
    ck.case("damaged files", "versions", |cx| {
        for abi in 0..=255u8 {
            cx.ev(true);
            let r = Memory::new_from_elf(&elf(abi, &segs, &[("f", 0x1000, 2)]));
            agree!(r.is_ok(), abi == 3, "ABI version {abi}");
        }
        Ok(())
    });
    ck.assume("Exhaustion of the address space is reached only through requests too large to fit, because mapping gigabytes costs more memory than the machine has.");
    ck.finish();
}
