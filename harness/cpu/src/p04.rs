//! P04: the calling convention on the real processor, against a layout computed from the documented
//! rules: arguments in order from the stack pointer up, each at the next multiple of its alignment,
//! then the return value.
use crate::fx::*;
use crate::isa::*;
use crate::rig::{Rig, byte, unbyte, x};
use mc::*;
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::*;
use parasol_runtime::L1GlweCiphertext;
use parasol_runtime::fluent::{DynamicInt, DynamicUInt, Int, UInt};
use std::sync::Arc;

const SP: usize = 2;
const RP: usize = 10;

/// Any bytes with any alignment, as an argument.
struct Raw(Vec<Byte>, usize);
impl DynamicToArg for Raw {
    fn alignment(&self) -> usize {
        self.1
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        Ok(Raw(d, 1))
    }
}

/// Any `S` bytes with alignment `A`, as a return value.
#[derive(Clone)]
struct Ret<const S: usize, const A: usize>(Vec<Byte>);
impl<const S: usize, const A: usize> ToArg for Ret<S, A> {
    fn alignment() -> usize {
        A
    }
    fn size() -> usize {
        S
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(data: Vec<Byte>) -> Result<Self> {
        if data.len() != S { Err(Error::TypeSizeMismatch) } else { Ok(Ret(data)) }
    }
}

/// Which bytes of an argument are encrypted.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    Plain,
    All,
    Odd,
}

#[derive(Clone, Copy, Debug)]
struct Spec {
    size: usize,
    align: usize,
    enc: Enc,
}

const SPECS: [Spec; 13] = {
    const fn s(size: usize, align: usize, enc: Enc) -> Spec {
        Spec { size, align, enc }
    }
    [
        s(1, 1, Enc::Plain),
        s(1, 1, Enc::All),
        s(2, 2, Enc::Plain),
        s(4, 4, Enc::All),
        s(8, 8, Enc::Plain),
        s(16, 16, Enc::All),
        s(3, 1, Enc::Odd),
        s(3, 2, Enc::Plain),
        s(6, 4, Enc::All),
        s(0, 1, Enc::Plain),
        s(20, 4, Enc::Plain),
        s(32, 32, Enc::All),
        s(0, 8, Enc::Plain),
    ]
};
/// The alphabet of the longest lists.
const SHORT: [usize; 6] = [0, 2, 4, 5, 6, 11];

macro_rules! rets {
    ($m:ident) => {
        $m! { (0, 1) (1, 1) (2, 2) (3, 1) (3, 2) (4, 4) (6, 4) (8, 8) (16, 16) (24, 8) (32, 32) (64, 64) }
    };
}
const RETS: [(usize, usize); 12] = {
    macro_rules! list { ($(($s:literal, $a:literal))*) => { [$(($s, $a)),*] } }
    rets!(list)
};

fn values(spec: Spec, seed: usize) -> Vec<B> {
    (0..spec.size)
        .map(|i| {
            let v = (1 + seed * 59 + i * 37) as u8;
            match spec.enc {
                Enc::Plain => B::P(v),
                Enc::All => B::C(v),
                Enc::Odd if i % 2 == 1 => B::C(v),
                Enc::Odd => B::P(v),
            }
        })
        .collect()
}

struct Layout {
    at: Vec<usize>,
    ret: usize,
    end: usize,
    align: usize,
}

fn layout(args: &[(usize, usize)], ret: (usize, usize)) -> Layout {
    let up = |o: usize, a: usize| o.div_ceil(a) * a;
    let (mut o, mut at, mut align) = (0, vec![], 16);
    for &(s, a) in args {
        o = up(o, a);
        at.push(o);
        o += s;
        align = align.max(a);
    }
    let mut r = 0;
    if ret.0 > 0 {
        o = up(o, ret.1);
        r = o;
        o += ret.0;
        align = align.max(ret.1);
    }
    Layout { at, ret: r, end: o, align }
}

type Out = std::result::Result<Vec<Byte>, Error>;

fn call(rig: &mut Rig, b: ArgsBuilder, ret: (usize, usize), o: &RunProgramOptions) -> (usize, Out) {
    macro_rules! go {
        ($(($s:literal, $a:literal))*) => {
            match ret {
                $(($s, $a) => {
                    let d = b.return_value::<Ret<$s, $a>>();
                    let n = d.alloc_size();
                    (n, rig.comp.run_program_with_options(rig.code.into(), &rig.mem, d, o).map(|r| r.1.0))
                })*
                _ => unreachable!(),
            }
        };
    }
    rets!(go)
}

/// A program that reports SP and RP and fills the return value with the argument bytes, cyclically.
/// `idx`: argument bytes as offsets from SP.
fn copier(idx: &[usize], n: usize, shift: usize) -> Vec<IsaOp> {
    let mut p = vec![IsaOp::Dbg(x(SP), 0), IsaOp::Dbg(x(RP), 1)];
    if idx.is_empty() && n > 0 {
        p.push(IsaOp::LoadI(x(20), 0x5a, 8));
    }
    for i in 0..n.max(idx.len()) {
        if !idx.is_empty() {
            p.push(IsaOp::Load(x(20), x(SP), 8, idx[(i + shift) % idx.len()] as i32));
        }
        if i < n {
            p.push(IsaOp::Store(x(RP), x(20), 8, i as i32));
        } else {
            // read every argument byte even when the return value is shorter
            p.push(IsaOp::Dbg(x(20), 2));
        }
    }
    p.push(IsaOp::Ret());
    p
}

const STACK: u32 = 0x8000_0000;

fn stack(rig: &Rig) -> Vec<B> {
    rig.peek(STACK, 4096)
}

/// One call: the layout, what the program sees, what comes back and what is left behind.
fn one_call(rig: &mut Rig, o: &RunProgramOptions, args: &[Spec], ret: (usize, usize), cx: &mut Cx, seed: usize) -> R {
    let vals: Vec<Vec<B>> = args.iter().enumerate().map(|(i, s)| values(*s, seed + i)).collect();
    let lay = layout(&args.iter().map(|s| (s.size, s.align)).collect::<Vec<_>>(), ret);
    let idx: Vec<usize> = lay.at.iter().zip(args).flat_map(|(o, s)| *o..*o + s.size).collect();
    let flat: Vec<B> = vals.concat();
    rig.load(&copier(&idx, ret.0, seed));
    let top = u32::from(rig.mem.stack_ptr());
    let before = stack(rig);
    let mut b = ArgsBuilder::new();
    for (v, s) in vals.iter().zip(args) {
        b = b.arg_dyn(Raw(v.iter().map(|b| byte(*b)).collect(), s.align));
    }
    let (alloc, out) = call(rig, b, ret, o);
    let seen = rig.seen();
    let fits = lay.end as u32 + lay.align as u32 <= top - STACK;
    let out = match out {
        Err(e) if fits => return Err(format!("call failed with {e:?}")),
        Err(_) => {
            same!(cx, u32::from(rig.mem.stack_ptr()), top, "stack pointer after a refused call");
            return Ok(());
        }
        Ok(v) => v,
    };
    let sp = seen.iter().find(|s| s.0 == 0).ok_or("SP was not reported")?.1;
    let rp = seen.iter().find(|s| s.0 == 1).ok_or("RP was not reported")?.1;
    ensure!(!sp.enc && sp.w == 32 && !rp.enc && rp.w == 32, "SP {sp:?}, RP {rp:?}");
    let sp = sp.v as u32;
    ensure!(sp as usize % lay.align == 0, "SP {sp:#x} is not aligned to {}", lay.align);
    ensure!(sp >= STACK && sp as usize + lay.end <= top as usize, "the call data {sp:#x}+{} is not below the stack pointer {top:#x}", lay.end);
    ensure!(alloc >= lay.end, "alloc_size {alloc} is less than the {} bytes the call data takes", lay.end);
    ensure!(alloc % 16 == 0, "alloc_size {alloc} is not a multiple of 16");
    if ret.0 > 0 {
        same!(cx, rp.v as u32, sp + lay.ret as u32, "return pointer");
    }
    // what comes back
    let got: Vec<B> = out.iter().map(unbyte).collect();
    let want: Vec<B> = (0..ret.0).map(|i| if flat.is_empty() { B::P(0x5a) } else { flat[(i + seed) % flat.len()] }).collect();
    same!(cx, got, want, "returned bytes");
    let extra: Vec<B> = seen.iter().filter(|s| s.0 == 2).map(|s| if s.1.enc { B::C(s.1.v as u8) } else { B::P(s.1.v as u8) }).collect();
    let wext: Vec<B> = (ret.0..ret.0.max(flat.len())).map(|i| flat[(i + seed) % flat.len()]).collect();
    same!(cx, extra, wext, "argument bytes read by the program");
    // what is left behind
    let mut after = before.clone();
    let base = (sp - STACK) as usize;
    for (o, v) in lay.at.iter().zip(&vals) {
        after[base + o..base + o + v.len()].copy_from_slice(v);
    }
    after[base + lay.ret..base + lay.ret + ret.0].copy_from_slice(&want);
    let now = stack(rig);
    for i in 0..4096 {
        let inside = i >= base && i < base + lay.end.next_multiple_of(16).max(alloc);
        let named = lay.at.iter().zip(&vals).any(|(o, v)| i >= base + o && i < base + o + v.len()) || ret.0 > 0 && i >= base + lay.ret && i < base + lay.ret + ret.0;
        // padding between the arguments may hold anything
        if named || !inside || i >= (top - STACK) as usize {
            ensure!(now[i] == after[i], "stack byte {i:#x} (SP at {base:#x}) is {:?}, expected {:?}", now[i], after[i]);
        }
    }
    same!(cx, u32::from(rig.mem.stack_ptr()), top, "stack pointer after the call");
    cx.transitions += 1;
    Ok(())
}

fn fresh(skew: usize) -> Rig {
    let rig = Rig::new();
    // recognisable bytes everywhere on the stack
    let mark: Vec<B> = (0..4096usize).map(|i| B::P((i * 7 + 3) as u8)).collect();
    rig.poke(STACK, &mark);
    if skew > 0 {
        let bytes = (0..skew).map(|i| Byte::Plaintext(i as u8 ^ 0xff)).collect();
        rig.mem.try_push_arg_onto_stack(&Arg { alignment: 1, bytes }).unwrap();
    }
    rig
}

fn lists(n: usize, alphabet: &[usize]) -> Vec<Vec<usize>> {
    (0..n).fold(vec![vec![]], |a, _| a.iter().flat_map(|p: &Vec<usize>| alphabet.iter().map(|x| [p.clone(), vec![*x]].concat()).collect::<Vec<_>>()).collect())
}

// ---------------------------------------------------------------- types

/// Ways to look at a typed value: its bytes as the model knows them.
trait Model: Sized {
    fn make(v: u128) -> Self;
    fn bytes(v: u128) -> Vec<B>;
}
macro_rules! plain_model {
    ($($t:ty)*) => { $(impl Model for $t {
        fn make(v: u128) -> Self { v as $t }
        fn bytes(v: u128) -> Vec<B> { (0..size_of::<$t>()).map(|i| B::P((v >> (8 * i)) as u8)).collect() }
    })* };
}
plain_model!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
fn spread(v: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| (v >> (8 * (i % 16))) as u8).collect()
}
macro_rules! enc_model {
    ($($t:ident)*) => { $(impl<const N: usize> Model for $t<N, L1GlweCiphertext> {
        fn make(v: u128) -> Self {
            let fx = Fx::get();
            $t::from_bits_shallow(spread(v, N / 8).iter().flat_map(|b| fx.bits(*b as u128, 8)).collect())
        }
        fn bytes(v: u128) -> Vec<B> { spread(v, N / 8).iter().map(|b| B::C(*b)).collect() }
    })* };
}
enc_model!(UInt Int);
impl Model for () {
    fn make(_: u128) {}
    fn bytes(_: u128) -> Vec<B> {
        vec![]
    }
}
impl<T: Model, const N: usize> Model for [T; N]
where
    T: ToArg,
{
    fn make(v: u128) -> Self {
        std::array::from_fn(|i| T::make(v.rotate_left(8 * i as u32 + 3)))
    }
    /// Without the padding.
    fn bytes(v: u128) -> Vec<B> {
        (0..N).flat_map(|i| T::bytes(v.rotate_left(8 * i as u32 + 3))).collect()
    }
}
/// A type whose size is no multiple of its alignment, with an encrypted last byte.
struct Odd(u8, u8, Byte);
impl ToArg for Odd {
    fn alignment() -> usize {
        2
    }
    fn size() -> usize {
        3
    }
    fn to_bytes(&self) -> Vec<Byte> {
        vec![Byte::Plaintext(self.0), Byte::Plaintext(self.1), self.2.clone()]
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        match &d[..] {
            [Byte::Plaintext(a), Byte::Plaintext(b), Byte::Ciphertext(c)] => Ok(Odd(*a, *b, Byte::Ciphertext(c.clone()))),
            [_, _, _] => Err(Error::EncryptionMismatch),
            _ => Err(Error::TypeSizeMismatch),
        }
    }
}
impl Model for Odd {
    fn make(v: u128) -> Self {
        Odd(v as u8, (v >> 8) as u8, byte(B::C((v >> 16) as u8)))
    }
    fn bytes(v: u128) -> Vec<B> {
        vec![B::P(v as u8), B::P((v >> 8) as u8), B::C((v >> 16) as u8)]
    }
}

const CORNERS: [u128; 6] = [0, u128::MAX, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210, 0x80, 0x8000_0000_0000_0000_8000_0000_8000_ff7f, 1 << 127 | 1];

/// Positions in the encoding of an array of the bytes that are no padding.
fn named(size: usize, elem: usize, stride: usize) -> Vec<usize> {
    if elem == 0 { vec![] } else { (0..size).filter(|i| i % stride < elem).collect() }
}

fn types<T: ToArg + Model>(cx: &mut Cx, want: (usize, usize), elem: usize, stride: usize) -> R {
    same!(cx, (T::size(), T::alignment()), want, "size and alignment");
    let keep = named(T::size(), elem, stride);
    for v in CORNERS {
        let val = T::make(v);
        let bytes = val.to_bytes();
        same!(cx, bytes.len(), T::size(), "bytes of {v:#x}");
        let model = T::bytes(v);
        let got: Vec<B> = keep.iter().map(|i| unbyte(&bytes[*i])).collect();
        same!(cx, got, model, "bytes of {v:#x}");
        let arg = val.to_arg();
        same!(cx, (arg.alignment, arg.bytes.len()), (want.1, want.0), "argument of {v:#x}");
        same!(cx, arg.bytes.iter().map(unbyte).collect::<Vec<_>>(), bytes.iter().map(unbyte).collect::<Vec<_>>(), "argument of {v:#x}");
        let back = T::try_from_bytes(bytes.clone()).map_err(|e| format!("{v:#x} does not survive: {e:?}"))?;
        let again: Vec<B> = keep.iter().map(|i| unbyte(&back.to_bytes()[*i])).collect();
        same!(cx, again, model, "{v:#x} after a round trip");
        // other lengths
        for n in [0, 1, T::size().wrapping_sub(1), T::size() + 1, T::size() + stride, T::size() * 2] {
            if n == T::size() || n > 4 * T::size() + 64 {
                continue;
            }
            let d: Vec<Byte> = bytes.iter().cloned().chain(std::iter::repeat_n(Byte::Plaintext(0), n)).take(n).collect();
            let d = if d.len() == n { d } else { (0..n).map(|_| Byte::Plaintext(0)).collect() };
            cx.ev(true);
            ensure!(catch(|| T::try_from_bytes(d).is_err())?, "{n} bytes were taken for {} bytes", T::size());
        }
        // the wrong kind of byte, at every position that is no padding
        for &i in &keep {
            let mut d = bytes.clone();
            d[i] = if d[i].is_plaintext() { byte(B::C(1)) } else { Byte::Plaintext(1) };
            cx.ev(true);
            ensure!(catch(|| T::try_from_bytes(d).is_err())?, "byte {i} of the wrong kind was accepted");
        }
        // through memory, which allocates nothing for empty types
        if T::size() == 0 {
            continue;
        }
        let mem = &thread_rig().mem;
        let p = mem.try_allocate_type(&val).map_err(|e| format!("{e:?}"))?;
        let again = mem.try_load_type::<T>(p).map_err(|e| format!("loading {v:#x}: {e:?}"))?.to_bytes();
        let again: Vec<B> = keep.iter().map(|i| unbyte(&again[*i])).collect();
        same!(cx, again, model, "{v:#x} through memory");
    }
    Ok(())
}

thread_local! {
    static RIG: std::cell::OnceCell<&'static Rig> = const { std::cell::OnceCell::new() };
}
fn thread_rig() -> &'static Rig {
    RIG.with(|r| *r.get_or_init(|| Box::leak(Box::new(Rig::new()))))
}

/// Identity function on a type, plain and preceded and followed by other arguments.
fn identity<T: ToArg + Model>(cx: &mut Cx, elem: usize, stride: usize) -> R {
    let keep = named(T::size(), elem, stride);
    let mut rig = fresh(0);
    let o = rig.options(None);
    for v in CORNERS {
        for lead in [false, true] {
            let lay = layout(&if lead { vec![(1, 1), (T::size(), T::alignment())] } else { vec![(T::size(), T::alignment())] }, (T::size(), T::alignment()));
            let at = lay.at[lead as usize];
            rig.load(&copier(&(at..at + T::size()).collect::<Vec<_>>(), T::size(), 0));
            let mut b = ArgsBuilder::new();
            if lead {
                b = b.arg(0xa5u8);
            }
            let d = b.arg(T::make(v)).arg(7u16).return_value::<T>();
            // the trailing argument comes before the return value, so recompute where that is: the
            // program only uses RP
            let r = rig.comp.run_program_with_options(rig.code.into(), &rig.mem, d, &o).map_err(|e| format!("{v:#x}: {e:?}"))?.1;
            let got = r.to_bytes();
            let got: Vec<B> = keep.iter().map(|i| unbyte(&got[*i])).collect();
            same!(cx, got, T::bytes(v), "identity of {v:#x}");
            rig.seen();
        }
    }
    Ok(())
}

macro_rules! all_types {
    ($m:ident) => {
        $m! {
            (u8, 1, 1, 1, 1) (u16, 2, 2, 2, 2) (u32, 4, 4, 4, 4) (u64, 8, 8, 8, 8) (u128, 16, 16, 16, 16)
            (i8, 1, 1, 1, 1) (i16, 2, 2, 2, 2) (i32, 4, 4, 4, 4) (i64, 8, 8, 8, 8) (i128, 16, 16, 16, 16)
            ((), 0, 1, 0, 1)
            (UInt<8, L1GlweCiphertext>, 1, 1, 1, 1) (UInt<16, L1GlweCiphertext>, 2, 2, 2, 2) (UInt<32, L1GlweCiphertext>, 4, 4, 4, 4)
            (UInt<64, L1GlweCiphertext>, 8, 8, 8, 8) (UInt<128, L1GlweCiphertext>, 16, 16, 16, 16) (UInt<256, L1GlweCiphertext>, 32, 32, 32, 32)
            (Int<8, L1GlweCiphertext>, 1, 1, 1, 1) (Int<16, L1GlweCiphertext>, 2, 2, 2, 2) (Int<32, L1GlweCiphertext>, 4, 4, 4, 4)
            (Int<64, L1GlweCiphertext>, 8, 8, 8, 8) (Int<256, L1GlweCiphertext>, 32, 32, 32, 32)
            ([u8; 0], 0, 1, 0, 1) ([u8; 5], 5, 1, 5, 5) ([u16; 3], 6, 2, 6, 6) ([u64; 2], 16, 8, 16, 16) ([[u16; 2]; 3], 12, 2, 12, 12)
            ([(); 3], 0, 1, 0, 1) ([UInt<8, L1GlweCiphertext>; 4], 4, 1, 4, 4) ([UInt<16, L1GlweCiphertext>; 2], 4, 2, 4, 4)
            ([[Int<8, L1GlweCiphertext>; 2]; 2], 4, 1, 4, 4) (Odd, 3, 2, 3, 3) ([Odd; 1], 4, 2, 3, 4) ([Odd; 3], 12, 2, 3, 4) ([[Odd; 2]; 2], 16, 2, 3, 4)
        }
    };
}

fn dynamic(cx: &mut Cx) -> R {
    let fx = Fx::get();
    macro_rules! go {
        ($t:ident, $w:expr, $v:expr) => {{
            let bytes = spread($v, $w / 8);
            let val = $t::<L1GlweCiphertext>::from_bits_shallow(bytes.iter().flat_map(|b| fx.bits(*b as u128, 8)).collect());
            let want: Vec<B> = bytes.iter().map(|b| B::C(*b)).collect();
            same!(cx, (val.size(), val.alignment()), ($w / 8, $w / 8), "size and alignment at {} bits", $w);
            let a = val.to_arg();
            same!(cx, a.alignment, $w / 8, "alignment of the argument at {} bits", $w);
            same!(cx, a.bytes.iter().map(unbyte).collect::<Vec<_>>(), want, "bytes at {} bits", $w);
            let back = $t::<L1GlweCiphertext>::try_from_bytes(a.bytes.clone()).map_err(|e| format!("{e:?}"))?;
            same!(cx, back.to_bytes().iter().map(unbyte).collect::<Vec<_>>(), want, "round trip at {} bits", $w);
            let mut mixed = a.bytes;
            mixed[0] = Byte::Plaintext(0);
            ensure!($t::<L1GlweCiphertext>::try_from_bytes(mixed).is_err(), "a plain byte was taken for an encrypted one");
            let mem = &thread_rig().mem;
            let p = mem.try_allocate_type_dyn(&val).map_err(|e| format!("{e:?}"))?;
            let again = mem.try_load_type_dyn::<$t<L1GlweCiphertext>>(p, $w / 8, $w / 8).map_err(|e| format!("{e:?}"))?;
            same!(cx, again.to_bytes().iter().map(unbyte).collect::<Vec<_>>(), want, "through memory at {} bits", $w);
        }};
    }
    for w in [8usize, 16, 32, 64, 128, 256] {
        for v in CORNERS {
            go!(DynamicUInt, w, v);
            go!(DynamicInt, w, v);
        }
    }
    Ok(())
}

/// Words: all lengths, kinds and extensions.
fn words(cx: &mut Cx) -> R {
    let fx = Fx::get();
    for n in 0..=6usize {
        for kinds in 0..1u32 << n {
            for top in [0x7fu8, 0x80, 0xff, 0x00] {
                let b: Vec<B> = (0..n)
                    .map(|i| {
                        let v = if i == n - 1 { top } else { 0x80 | i as u8 };
                        if kinds >> i & 1 == 1 { B::C(v) } else { B::P(v) }
                    })
                    .collect();
                let d: Vec<Byte> = b.iter().map(|b| byte(*b)).collect();
                for signed in [false, true] {
                    cx.ev(true);
                    let r = catch(|| Word::try_from_bytes(&d, if signed { Extend::Signed } else { Extend::Zero }, &fx.enc))?;
                    let mixed = kinds != 0 && kinds != (1 << n) - 1;
                    if n > 4 || mixed {
                        ensure!(r.is_err(), "a word was made of {b:?}");
                        continue;
                    }
                    let fill = if signed && n > 0 && top >> 7 == 1 { 0xff } else { 0 };
                    let want: Vec<B> = (0..4).map(|i| b.get(i).copied().unwrap_or(if kinds != 0 { B::C(fill) } else { B::P(fill) })).collect();
                    let got: Vec<B> = r.map_err(|e| format!("{b:?}: {e:?}"))?.0.iter().map(unbyte).collect();
                    same!(cx, got, want, "{b:?} extended, signed {signed}");
                }
                let r = Word::try_from(&d[..]);
                if n > 4 {
                    ensure!(r.is_err(), "a word was made of {b:?}");
                } else {
                    let want: Vec<B> = (0..4).map(|i| b.get(i).copied().unwrap_or(B::P(0))).collect();
                    same!(cx, r.map_err(|e| format!("{e:?}"))?.0.iter().map(unbyte).collect::<Vec<_>>(), want, "{b:?} as a word");
                }
            }
        }
    }
    for v in [0u32, 1, 0x80, 0xff, 0x8001, 0xffff, 0x89ab_cdef, u32::MAX] {
        let le = |v: u32| v.to_le_bytes().map(B::P).to_vec();
        same!(cx, Word::from(v).0.iter().map(unbyte).collect::<Vec<_>>(), le(v), "word of {v:#x}");
        same!(cx, Word::from(v as u16).0.iter().map(unbyte).collect::<Vec<_>>(), le(v as u16 as u32), "word of the u16 {v:#x}");
        same!(cx, Word::from(v as u8).0.iter().map(unbyte).collect::<Vec<_>>(), le(v as u8 as u32), "word of the u8 {v:#x}");
    }
    Ok(())
}

/// Bytes made of something other than eight bits are refused.
fn byte_sizes(cx: &mut Cx) -> R {
    for n in 0..=17usize {
        let bits: Vec<Bit> = Fx::get().bits(0x5a5a, n as u32);
        cx.ev(true);
        let r = Byte::try_from(bits.clone());
        ensure!(r.is_ok() == (n == 8), "{n} bits as a byte: {}", if r.is_ok() { "accepted" } else { "refused" });
        if let Ok(Byte::Ciphertext(c)) = r {
            ensure!(c.iter().zip(&bits).all(|(a, b)| Arc::ptr_eq(a, b)), "the bits of a byte changed");
        }
    }
    Ok(())
}

/// A program whose return slot holds the wrong kind of bytes: an error, never a panic or a value.
fn wrong_returns(cx: &mut Cx) -> R {
    let mut rig = fresh(0);
    let o = rig.options(None);
    let prog = |n: usize, enc: bool| {
        let mut p = vec![];
        p.push(IsaOp::LoadI(x(20), 0x5a, 8));
        if enc {
            p.push(IsaOp::Load(x(20), x(SP), 8, 0));
        }
        for i in 0..n {
            p.push(IsaOp::Store(x(RP), x(20), 8, i as i32));
        }
        p.push(IsaOp::Ret());
        p
    };
    macro_rules! go {
        ($t:ty, $wants:expr) => {
            for enc in [false, true] {
                rig.load(&prog(<$t as ToArg>::size(), enc));
                cx.ev(true);
                let d = ArgsBuilder::new().arg(UInt::<8, L1GlweCiphertext>::make(0x33)).return_value::<$t>();
                let r = catch(|| rig.comp.run_program_with_options(rig.code.into(), &rig.mem, d, &o))?;
                ensure!(r.is_ok() == (enc == $wants), "{} filled with {} bytes: {}", stringify!($t), if enc { "encrypted" } else { "plain" }, if r.is_ok() { "a value" } else { "an error" });
                rig.seen();
            }
        };
    }
    go!(u8, false);
    go!(u32, false);
    go!(i64, false);
    go!([u16; 2], false);
    go!(UInt<8, L1GlweCiphertext>, true);
    go!(UInt<32, L1GlweCiphertext>, true);
    go!(Int<16, L1GlweCiphertext>, true);
    go!([UInt<8, L1GlweCiphertext>; 2], true);
    Ok(())
}

/// The same computer and memory serve any number of calls.
fn endurance(cx: &mut Cx, n: usize) -> R {
    let mut rig = fresh(5);
    let o = rig.options(None);
    let lists = [vec![0], vec![4, 1], vec![5, 6, 2], vec![], vec![11]];
    for i in 0..n {
        let l: Vec<Spec> = lists[i % lists.len()].iter().map(|k| SPECS[*k]).collect();
        one_call(&mut rig, &o, &l, RETS[i % RETS.len()], cx, i).map_err(|e| format!("call {i}: {e}"))?;
        // failing calls leave nothing behind either
        if i % 3 == 0 {
            rig.load(&[IsaOp::LoadI(x(20), 3, 8), IsaOp::Load(x(21), x(20), 8, 0), IsaOp::Ret()]);
            let top = u32::from(rig.mem.stack_ptr());
            let r = rig.comp.run_program_with_options(rig.code.into(), &rig.mem, ArgsBuilder::new().arg(1u64).return_value::<u64>(), &o);
            ensure!(r.is_err(), "an access to unmapped memory went unnoticed");
            same!(cx, u32::from(rig.mem.stack_ptr()), top, "stack pointer after a failing program");
        }
    }
    Ok(())
}

/// Calls whose data does not fit on the stack are refused; those that just fit are not.
fn oversize(cx: &mut Cx) -> R {
    let mut rig = fresh(0);
    let o = rig.options(None);
    for n in [4064usize, 4079, 4080, 4081, 4095, 4096, 4097, 4112, 8192, 70000] {
        for ret in [(0, 1), (16, 16)] {
            rig.load(&[IsaOp::Ret()]);
            let top = u32::from(rig.mem.stack_ptr());
            let bytes: Vec<Byte> = (0..n).map(|i| Byte::Plaintext(i as u8)).collect();
            let (_, r) = call(&mut rig, ArgsBuilder::new().arg_dyn(Raw(bytes, 1)), ret, &o);
            rig.seen();
            let need = layout(&[(n, 1)], ret).end.next_multiple_of(16);
            ensure!(r.is_ok() == (need <= 4096), "{n} bytes of arguments and {} of return value: {}", ret.0, if r.is_ok() { "accepted" } else { "refused" });
            same!(cx, u32::from(rig.mem.stack_ptr()), top, "stack pointer afterwards");
        }
    }
    Ok(())
}

pub fn run() {
    let ck = Ck::new(
        "P04",
        "exhaustive-bounded",
        "every list of arguments over the sizes, alignments and encryption patterns, with every return type, called on the real processor and compared with the documented layout",
    );
    ck.assume("noise-free miniature parameters; one thread; every argument byte is read with an 8-bit load");
    ck.assume("padding bytes inside the call data may hold anything");

    let mut ls: Vec<Vec<usize>> = vec![];
    let all: Vec<usize> = (0..SPECS.len()).collect();
    for n in 0..=3 {
        ls.extend(lists(n, &all));
    }
    ls.extend(lists(4, if ck.thorough { &SHORT } else { &SHORT[..4] }));
    if ck.thorough {
        ls.extend(lists(5, &SHORT[..4]));
    }
    let skews: &[usize] = if ck.thorough { &[0, 1, 7, 16, 24] } else { &[0, 7] };
    let groups: Vec<(usize, Vec<Vec<usize>>)> = skews.iter().flat_map(|s| ls.chunks(24).map(move |c| (*s, c.to_vec()))).collect();
    ck.par(
        "layout",
        &groups,
        |(s, c)| format!("skew {s}, from {:?}", c[0]),
        |(skew, chunk), cx| {
            let mut rig = fresh(*skew);
            let o = rig.options(None);
            for (i, l) in chunk.iter().enumerate() {
                let specs: Vec<Spec> = l.iter().map(|k| SPECS[*k]).collect();
                for (j, ret) in RETS.iter().enumerate() {
                    if !ck.thorough && l.len() >= 3 && (i + j) % 3 != 0 && ret.1 != 32 {
                        continue;
                    }
                    one_call(&mut rig, &o, &specs, *ret, cx, i + j).map_err(|e| format!("arguments {specs:?} returning {ret:?}: {e}"))?;
                    cx.states += 1;
                }
            }
            Ok(())
        },
    );
    macro_rules! each {
        ($(($t:ty, $s:literal, $a:literal, $e:literal, $st:literal))*) => { $(
            ck.case("types", stringify!($t), |cx| types::<$t>(cx, ($s, $a), $e, $st));
            ck.case("identity", stringify!($t), |cx| identity::<$t>(cx, $e, $st));
        )* };
    }
    all_types!(each);
    ck.case("types", "dynamic integers", dynamic);
    ck.case("types", "words", words);
    ck.case("types", "byte sizes", byte_sizes);
    ck.case("calls", "wrong kind of return value", wrong_returns);
    ck.case("calls", "many calls", |cx| endurance(cx, ck.tier(300, 1200)));
    ck.case("calls", "oversize", oversize);
    ck.finish();
}
