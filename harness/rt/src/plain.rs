//! The meaning of a circuit of homomorphic operations on plain bits, written independently of the
//! engine: every ciphertext is a polynomial over Z_2 (level-1 GLWE and GLEV) or one bit (the others).
//! A circuit is flattened to a straight-line bit program that is evaluated on 64 inputs at a time.
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{CiphertextType as T, FheCircuit, FheEdge as E, FheOp as O};
use petgraph::{Direction, stable_graph::NodeIndex, visit::EdgeRef};
use std::{collections::{BTreeMap, HashMap}, sync::Arc};

pub type Slot = usize;
/// Bits by coefficient; absent coefficients are zero.
pub type Poly = BTreeMap<usize, Slot>;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Bit {
    Const(bool),
    In(usize),
    Mux(Slot, Slot, Slot),
    Xor(Slot, Slot),
}

#[derive(Default)]
pub struct Prog {
    ops: Vec<Bit>,
    seen: HashMap<Bit, Slot>,
    pub n_inputs: usize,
}

impl Prog {
    fn push(&mut self, b: Bit) -> Slot {
        if let Some(s) = self.seen.get(&b) {
            return *s;
        }
        self.ops.push(b);
        self.seen.insert(b, self.ops.len() - 1);
        self.ops.len() - 1
    }
    pub fn constant(&mut self, v: bool) -> Slot {
        self.push(Bit::Const(v))
    }
    pub fn input(&mut self) -> Slot {
        self.n_inputs += 1;
        let i = self.n_inputs - 1;
        self.push(Bit::In(i))
    }
    pub fn mux(&mut self, s: Slot, lo: Slot, hi: Slot) -> Slot {
        if lo == hi { lo } else { self.push(Bit::Mux(s, lo, hi)) }
    }
    pub fn xor(&mut self, a: Slot, b: Slot) -> Slot {
        self.push(Bit::Xor(a, b))
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    /// Evaluate on 64 assignments; `inp[i]` holds the lanes of input i. `buf` receives every slot.
    pub fn eval(&self, inp: &[u64], buf: &mut Vec<u64>) {
        buf.clear();
        for o in &self.ops {
            let v = match *o {
                Bit::Const(b) => if b { !0 } else { 0 },
                Bit::In(i) => inp[i],
                Bit::Mux(s, l, h) => (buf[s] & buf[h]) | (!buf[s] & buf[l]),
                Bit::Xor(a, b) => buf[a] ^ buf[b],
            };
            buf.push(v);
        }
    }
}

pub fn key<C>(c: &Arc<AtomicRefCell<C>>) -> usize {
    Arc::as_ptr(c) as *const () as usize
}

/// What each node of a circuit holds.
pub struct Flat {
    pub node: HashMap<NodeIndex, (Option<T>, Poly)>,
    /// Output cells (by address) and what is written to them.
    pub out: HashMap<usize, (T, Poly)>,
}

/// Flatten `c` into `p`. `inputs` gives the contents of the input cells, by address.
pub fn flatten(c: &FheCircuit, n: usize, inputs: &HashMap<usize, Poly>, p: &mut Prog) -> Result<Flat, String> {
    let zero = p.constant(false);
    let one = p.constant(true);
    let get = |q: &Poly, i: usize| q.get(&i).copied().unwrap_or(zero);
    let unit = |s: Slot| Poly::from([(0, s)]);
    let mut f = Flat { node: HashMap::new(), out: HashMap::new() };
    // topological order, by repeated elimination
    let mut missing: HashMap<NodeIndex, usize> = c.graph.node_indices().map(|i| (i, c.graph.edges_directed(i, Direction::Incoming).count())).collect();
    let mut ready: Vec<NodeIndex> = missing.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    while let Some(i) = ready.pop() {
        let es: Vec<_> = c.graph.edges_directed(i, Direction::Incoming).map(|e| (*e.weight(), e.source())).collect();
        let op = c.graph.node_weight(i).unwrap();
        let why = |w: &str| format!("node {} ({op:?}) {w}; its inputs are {:?}", i.index(), es.iter().map(|e| e.0).collect::<Vec<_>>());
        let arg = |w: fn(&E) -> bool, ty: T| -> Result<Poly, String> {
            let m: Vec<_> = es.iter().filter(|e| w(&e.0)).collect();
            if m.len() != 1 {
                return Err(why("has a wrong number of inputs of some kind"));
            }
            let v = &f.node[&m[0].1];
            if v.0 != Some(ty) {
                return Err(why(&format!("is fed a {:?} where it needs a {ty:?}", v.0)));
            }
            Ok(v.1.clone())
        };
        let arity = |k: usize| if es.len() == k { Ok(()) } else { Err(why("has a wrong number of inputs")) };
        let un: fn(&E) -> bool = |e| matches!(e, E::Unary);
        let lo: fn(&E) -> bool = |e| matches!(e, E::Low);
        let hi: fn(&E) -> bool = |e| matches!(e, E::High);
        let sel: fn(&E) -> bool = |e| matches!(e, E::Sel);
        macro_rules! inp { ($c:expr, $t:expr) => {{ arity(0)?; (Some($t), inputs.get(&key($c)).ok_or("unknown input cell")?.clone()) }} }
        macro_rules! outp { ($c:expr, $t:expr) => {{
            arity(1)?;
            let v = arg(un, $t)?;
            if f.out.insert(key($c), ($t, v)).is_some() { return Err("two writers of one output".into()) }
            (None, Poly::new())
        }} }
        let v = match op {
            O::InputLwe0(x) => inp!(x, T::L0LweCiphertext),
            O::InputLwe1(x) => inp!(x, T::L1LweCiphertext),
            O::InputGlwe1(x) => inp!(x, T::L1GlweCiphertext),
            O::InputGgsw1(x) => inp!(x, T::L1GgswCiphertext),
            O::InputGlev1(x) => inp!(x, T::L1GlevCiphertext),
            O::OutputLwe0(x) => outp!(x, T::L0LweCiphertext),
            O::OutputLwe1(x) => outp!(x, T::L1LweCiphertext),
            O::OutputGlwe1(x) => outp!(x, T::L1GlweCiphertext),
            O::OutputGgsw1(x) => outp!(x, T::L1GgswCiphertext),
            O::OutputGlev1(x) => outp!(x, T::L1GlevCiphertext),
            O::SampleExtract(k) => { arity(1)?; if *k >= n { return Err(why("extracts past the end")); } let a = arg(un, T::L1GlweCiphertext)?; (Some(T::L1LweCiphertext), unit(get(&a, *k))) }
            O::KeyswitchL1toL0 => { arity(1)?; (Some(T::L0LweCiphertext), arg(un, T::L1LweCiphertext)?) }
            O::Not => { arity(1)?; let mut a = arg(un, T::L1GlweCiphertext)?; let s = p.xor(get(&a, 0), one); a.insert(0, s); (Some(T::L1GlweCiphertext), a) }
            O::GlweAdd => {
                arity(2)?;
                let a = arg(|e| matches!(e, E::Left), T::L1GlweCiphertext)?;
                let b = arg(|e| matches!(e, E::Right), T::L1GlweCiphertext)?;
                let mut r = a.clone();
                for (k, s) in b { let v = match a.get(&k) { Some(t) => p.xor(*t, s), None => s }; r.insert(k, v); }
                (Some(T::L1GlweCiphertext), r)
            }
            O::CMux | O::GlevCMux => {
                arity(3)?;
                let ty = if matches!(op, O::CMux) { T::L1GlweCiphertext } else { T::L1GlevCiphertext };
                let (l, h, s) = (arg(lo, ty)?, arg(hi, ty)?, arg(sel, T::L1GgswCiphertext)?);
                let mut r = Poly::new();
                for k in l.keys().chain(h.keys()) { let v = p.mux(get(&s, 0), get(&l, *k), get(&h, *k)); r.insert(*k, v); }
                (Some(ty), r)
            }
            O::MultiplyGgswGlwe => {
                arity(2)?;
                let g = arg(|e| matches!(e, E::Glwe), T::L1GlweCiphertext)?;
                let s = arg(|e| matches!(e, E::Ggsw), T::L1GgswCiphertext)?;
                (Some(T::L1GlweCiphertext), g.iter().map(|(k, x)| (*k, p.mux(get(&s, 0), zero, *x))).collect())
            }
            O::CircuitBootstrap => { arity(1)?; (Some(T::L1GgswCiphertext), arg(un, T::L0LweCiphertext)?) }
            O::SchemeSwitch => { arity(1)?; let a = arg(un, T::L1GlevCiphertext)?; if a.keys().any(|k| *k > 0) { return Err(why("switches a polynomial message")); } (Some(T::L1GgswCiphertext), a) }
            O::ZeroLwe0 => { arity(0)?; (Some(T::L0LweCiphertext), Poly::new()) }
            O::OneLwe0 => { arity(0)?; (Some(T::L0LweCiphertext), unit(one)) }
            O::ZeroGlwe1 => { arity(0)?; (Some(T::L1GlweCiphertext), Poly::new()) }
            O::OneGlwe1 => { arity(0)?; (Some(T::L1GlweCiphertext), unit(one)) }
            O::ZeroGgsw1 => { arity(0)?; (Some(T::L1GgswCiphertext), Poly::new()) }
            O::OneGgsw1 => { arity(0)?; (Some(T::L1GgswCiphertext), unit(one)) }
            O::ZeroGlev1 => { arity(0)?; (Some(T::L1GlevCiphertext), Poly::new()) }
            O::OneGlev1 => { arity(0)?; (Some(T::L1GlevCiphertext), unit(one)) }
            O::Retire => return Err(why("is reserved")),
            O::Nop => { arity(0)?; (None, Poly::new()) }
            O::MulXN(k) => { arity(1)?; (Some(T::L1GlweCiphertext), arg(un, T::L1GlweCiphertext)?.into_iter().map(|(c, s)| ((c + k) % n, s)).collect()) }
        };
        f.node.insert(i, v);
        missing.remove(&i);
        for e in c.graph.edges_directed(i, Direction::Outgoing) {
            let m = missing.get_mut(&e.target()).unwrap();
            *m -= 1;
            if *m == 0 { ready.push(e.target()); }
        }
    }
    if !missing.is_empty() {
        return Err("the circuit has a cycle".into());
    }
    Ok(f)
}

/// Run over every assignment of `inputs` bits (64 at a time): `f(base, lanes, slots)` sees `lanes`
/// assignments starting at `base`; bit i of assignment number a is `a >> i & 1`.
pub fn sweep(p: &Prog, mut f: impl FnMut(u64, usize, &[u64]) -> Result<(), String>) -> Result<u64, String> {
    let t = p.n_inputs;
    assert!(t <= 40);
    let total = 1u64 << t;
    let pat = [0xAAAAAAAAAAAAAAAAu64, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000];
    let mut inp = vec![0u64; t];
    let mut buf = vec![];
    let mut base = 0;
    while base < total {
        for i in 0..t {
            inp[i] = if i < 6 { pat[i] } else if base >> i & 1 == 1 { !0 } else { 0 };
        }
        p.eval(&inp, &mut buf);
        f(base, (total - base).min(64) as usize, &buf)?;
        base += 64;
    }
    Ok(total)
}

/// Run over listed assignments (each a vector of input bits).
pub fn listed(p: &Prog, asg: &[Vec<bool>], mut f: impl FnMut(usize, usize, &[u64]) -> Result<(), String>) -> Result<u64, String> {
    let mut buf = vec![];
    let mut inp = vec![0u64; p.n_inputs];
    for (ci, ch) in asg.chunks(64).enumerate() {
        for i in 0..p.n_inputs {
            inp[i] = ch.iter().enumerate().map(|(l, a)| (a[i] as u64) << l).sum();
        }
        p.eval(&inp, &mut buf);
        f(ci * 64, ch.len(), &buf)?;
    }
    Ok(asg.len() as u64)
}
