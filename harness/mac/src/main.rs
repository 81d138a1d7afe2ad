//! P06: structures that derive `IntoBytes`. The derive names its trait `tfhe_cpu::IntoBytes`, which no crate of the
//! repository provides any more; this crate stands in for it with leaf types that record and check what they are given.
extern crate self as tfhe_cpu;
use mc::{catch, ensure, same, Ck, Cx, R};
use parasol_cpu_macros::IntoBytes;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Size,
    /// A leaf refused its value.
    Refused(u64),
    /// A leaf was given a slice that is not its own size.
    Slice(usize, usize),
}
impl Error {
    pub fn buffer_size_mismatch() -> Self {
        Error::Size
    }
}
pub type Result<T> = std::result::Result<T, Error>;
pub trait IntoBytes: Sized {
    fn alignment() -> usize;
    fn size() -> usize;
    fn try_into_bytes(&self, data: &mut [u8]) -> Result<()>;
    fn try_from_bytes(data: &[u8]) -> Result<Self>;
}

/// A leaf of size S and alignment A; the value REFUSE can neither be written nor read.
#[derive(Debug, PartialEq)]
pub struct L<const S: usize, const A: usize>(u64);
const REFUSE: u64 = 0xee;
fn pattern(v: u64, i: usize) -> u8 {
    if v == REFUSE { 0xee } else { (v as u8).wrapping_add((i as u8).wrapping_mul(37)) }
}
impl<const S: usize, const A: usize> IntoBytes for L<S, A> {
    fn alignment() -> usize {
        A
    }
    fn size() -> usize {
        S
    }
    fn try_into_bytes(&self, data: &mut [u8]) -> Result<()> {
        if data.len() != S {
            return Err(Error::Slice(data.len(), S));
        }
        if self.0 == REFUSE {
            return Err(Error::Refused(self.0));
        }
        data.iter_mut().enumerate().for_each(|(i, d)| *d = pattern(self.0, i));
        Ok(())
    }
    fn try_from_bytes(data: &[u8]) -> Result<Self> {
        if data.len() != S {
            return Err(Error::Slice(data.len(), S));
        }
        let v = data.first().map_or(0, |x| *x as u64);
        if v == REFUSE {
            return Err(Error::Refused(v));
        }
        for (i, d) in data.iter().enumerate() {
            if *d != pattern(v, i) {
                return Err(Error::Slice(i, *d as usize));
            }
        }
        Ok(L(v))
    }
}

/// What the harness needs to know of a field's type.
pub trait Field: IntoBytes {
    const LAYOUT: (usize, usize);
    fn make(v: u64) -> Self;
    fn value(&self) -> u64;
    fn bytes(v: u64) -> Vec<Option<u8>>;
}
impl<const S: usize, const A: usize> Field for L<S, A> {
    const LAYOUT: (usize, usize) = (S, A);
    fn make(v: u64) -> Self {
        L(v)
    }
    fn value(&self) -> u64 {
        self.0
    }
    fn bytes(v: u64) -> Vec<Option<u8>> {
        (0..S).map(|i| Some(pattern(v, i))).collect()
    }
}
/// A derived structure as a field: a byte, a gap, a word.
#[derive(IntoBytes)]
pub struct Inner {
    a: L<1, 1>,
    b: L<4, 4>,
}
impl Field for Inner {
    const LAYOUT: (usize, usize) = (8, 4);
    fn make(v: u64) -> Self {
        Inner { a: L(v), b: L(v) }
    }
    fn value(&self) -> u64 {
        if self.a == L(self.b.0) { self.a.0 } else { u64::MAX }
    }
    fn bytes(v: u64) -> Vec<Option<u8>> {
        (0..8).map(|i| match i { 0 => Some(pattern(v, 0)), 1..4 => None, i => Some(pattern(v, i - 4)) }).collect()
    }
}

pub struct Shape {
    name: String,
    fields: Vec<(usize, usize)>,
    bytes: Vec<fn(u64) -> Vec<Option<u8>>>,
    size: fn() -> usize,
    align: fn() -> usize,
    write: fn(&[u64], &mut [u8]) -> Result<()>,
    read: fn(&[u8]) -> Result<Vec<u64>>,
}

type B = L<1, 1>;
type H = L<2, 2>;
type W = L<4, 4>;
type D = L<8, 8>;
type T = L<3, 1>;
type X = L<12, 4>;
type Q = L<16, 16>;
type I = Inner;

macro_rules! shape {
    ($v:ident; $($f:ident : $t:ty),+) => {{
        #[derive(IntoBytes)]
        struct Named { $($f: $t),+ }
        #[derive(IntoBytes)]
        struct Tuple($($t),+);
        let name = stringify!($($f: $t),+).to_string();
        let (fields, bytes) = (vec![$(<$t as Field>::LAYOUT),+], vec![$(<$t as Field>::bytes as fn(u64) -> Vec<Option<u8>>),+]);
        $v.push(Shape {
            name: format!("{{ {name} }}"), fields: fields.clone(), bytes: bytes.clone(), size: Named::size, align: Named::alignment,
            write: |x, d| { let mut x = x.iter(); Named { $($f: <$t>::make(*x.next().unwrap())),+ }.try_into_bytes(d) },
            read: |d| Named::try_from_bytes(d).map(|s| vec![$(s.$f.value()),+]),
        });
        $v.push(Shape {
            name: format!("({name})"), fields, bytes, size: Tuple::size, align: Tuple::alignment,
            write: |x, d| { let mut x = x.iter(); Tuple($(<$t>::make(*x.next().unwrap())),+).try_into_bytes(d) },
            read: |d| Tuple::try_from_bytes(d).map(|s| { let Tuple($($f),+) = s; vec![$($f.value()),+] }),
        });
    }};
}
macro_rules! all {
    ($cb:ident $v:ident [$($t:ident)*]) => { $( $cb!($v $t); )* };
}
macro_rules! one { ($v:ident $a:ident) => { shape!($v; a: $a); }; }
// Names the generated code may use itself.
macro_rules! two { ($v:ident $a:ident) => { two!($v $a; B H W D T X Q I); }; ($v:ident $a:ident; $($b:ident)*) => { $( shape!($v; data: $a, cur_offset: $b); )* }; }
macro_rules! three {
    ($v:ident $a:ident) => { three!($v $a B); three!($v $a H); three!($v $a W); three!($v $a D); three!($v $a T); three!($v $a I); };
    ($v:ident $a:ident $b:ident) => { three!($v $a $b; B H W D T I); };
    ($v:ident $a:ident $b:ident; $($c:ident)*) => { $( shape!($v; alignment: $a, byte_slice: $b, size: $c); )* };
}
macro_rules! four {
    ($v:ident $a:ident) => { four!($v $a B); four!($v $a W); four!($v $a T); };
    ($v:ident $a:ident $b:ident) => { four!($v $a $b B); four!($v $a $b W); four!($v $a $b T); };
    ($v:ident $a:ident $b:ident $c:ident) => { four!($v $a $b $c; B W T); };
    ($v:ident $a:ident $b:ident $c:ident; $($d:ident)*) => { $( shape!($v; w: $a, x: $b, y: $c, z: $d); )* };
}

fn shapes() -> Vec<Shape> {
    let mut v = vec![];
    all!(one v [B H W D T X Q I]);
    all!(two v [B H W D T X Q I]);
    all!(three v [B H W D T I]);
    all!(four v [B W T]);
    shape!(v; a: B, b: W, c: B, d: D, e: H, f: Q, g: T, h: I, i: B);
    v
}

fn judge(s: &Shape, cx: &mut Cx) -> R {
    let n = s.fields.len();
    let align = s.fields.iter().map(|f| f.1).max().unwrap();
    let mut end = 0;
    let mut at = vec![];
    for (sz, al) in &s.fields {
        end = (end as usize).next_multiple_of(*al);
        at.push(end);
        end += sz;
    }
    same!(cx, (s.align)(), align, "alignment");
    let size = (s.size)();
    // Whether the size covers padding after the last field is left open.
    ensure!(size == end || size == end.next_multiple_of(align), "size {size}, fields end at {end}");
    let vals = [0u64, 0x11, 0xdd, REFUSE];
    let base = if n <= 4 { vals.len() } else { 2 };
    for code in 0..base.pow(n as u32) {
        let v: Vec<u64> = (0..n).map(|i| vals[code / base.pow(i as u32) % base]).collect();
        let refused = v.contains(&REFUSE);
        let mut buf = vec![0xa5u8; size];
        let w = catch(|| (s.write)(&v, &mut buf))?;
        // What a C program would find at each field's place.
        let mut image = vec![0x5au8; size];
        for i in 0..n {
            for (k, b) in (s.bytes[i])(v[i]).into_iter().enumerate() {
                if let Some(b) = b {
                    image[at[i] + k] = b;
                    ensure!(refused || buf[at[i] + k] == b, "writing {v:x?}: byte {} is {:#x}, field {i} has {b:#x} there", at[i] + k, buf[at[i] + k]);
                }
            }
        }
        cx.states += 1;
        let r = catch(|| (s.read)(&image))?;
        if refused {
            same!(cx, w, Err(Error::Refused(REFUSE)), "writing {v:x?}");
            same!(cx, r, Err(Error::Refused(REFUSE)), "reading {v:x?}");
        } else {
            same!(cx, w, Ok(()), "writing {v:x?}");
            same!(cx, r, Ok(v.clone()), "reading {v:x?}");
            same!(cx, catch(|| (s.read)(&buf))?, Ok(v.clone()), "reading back {v:x?}");
        }
    }
    // Every other length is refused, and nothing is written.
    for len in (0..=2 * size + 1).filter(|l| *l != size) {
        let mut buf = vec![0xa5u8; len];
        same!(cx, catch(|| (s.write)(&vec![1; n], &mut buf))?, Err(Error::Size), "writing into {len} bytes of {size}");
        ensure!(buf.iter().all(|b| *b == 0xa5), "a buffer of {len} bytes was written although it was refused");
        same!(cx, catch(|| (s.read)(&buf))?, Err(Error::Size), "reading from {len} bytes of {size}");
    }
    Ok(())
}

fn main() {
    if std::env::args().nth(1).as_deref() != Some("P06") {
        panic!("unknown property");
    }
    let ck = Ck::new("P06", "exploration",
        "all structures, with named fields and as tuples, of 1 and 2 fields over 8 field types, 3 over 6, 4 over 3 and one of 9, field names including those of the generated code; for each, all values of the fields over an alphabet including one that fails, every buffer length up to twice the size; against a layout computed from sizes and alignments");
    ck.assume("the trait tfhe_cpu::IntoBytes, which the repository no longer contains, is what the generated code shows it to be");
    let s = shapes();
    ck.par("derived structures", &s, |s| s.name.clone(), judge);
    ck.finish()
}
