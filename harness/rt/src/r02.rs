//! R02: encrypted integers are fixed-width two's-complement integers.
use crate::{fx::*, plain::*, r01::{param_sets, poly}};
use mc::*;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{
    Encryption, FheCircuit, FheEdge as E, FheOp as O, KeylessEvaluation, L0LweCiphertext, L1GgswCiphertext as Ggsw, L1GlevCiphertext as Glev,
    L1GlweCiphertext as Glwe, L1LweCiphertext as Lwe1, circuits, fluent::*, generate_one_time_pad,
};
use petgraph::stable_graph::NodeIndex;
use std::{collections::HashMap, rc::Rc, sync::Arc};

type Cells = Vec<usize>;
/// Expected bits of an output, from the raw values of the inputs.
type Want = Rc<dyn Fn(&[u128]) -> u128>;

fn mask(n: usize) -> u128 {
    if n >= 128 { !0 } else { (1 << n) - 1 }
}
/// Sign extension of an n-bit value.
fn sx(v: u128, n: usize) -> i128 {
    if n >= 128 { v as i128 } else { ((v << (128 - n)) as i128) >> (128 - n) }
}

/// What differs between the signed and the unsigned integers.
trait Kind: Sign + Clone + 'static {
    const NAME: &'static str;
    fn num(v: u128, n: usize) -> i128;
    fn plain(v: u128, n: usize) -> Self::PlaintextType;
    fn raw(p: Self::PlaintextType) -> u128;
    fn less(a: (u128, usize), b: (u128, usize)) -> bool;
    /// What it means to change the width.
    fn resize(v: u128, from: usize, to: usize) -> u128;
}
impl Kind for Unsigned {
    const NAME: &'static str = "unsigned";
    fn num(v: u128, _: usize) -> i128 {
        v as i128
    }
    fn plain(v: u128, _: usize) -> u128 {
        v
    }
    fn raw(p: u128) -> u128 {
        p
    }
    fn less(a: (u128, usize), b: (u128, usize)) -> bool {
        a.0 < b.0
    }
    fn resize(v: u128, _: usize, to: usize) -> u128 {
        v & mask(to)
    }
}
impl Kind for Signed {
    const NAME: &'static str = "signed";
    fn num(v: u128, n: usize) -> i128 {
        sx(v, n)
    }
    fn plain(v: u128, n: usize) -> i128 {
        sx(v, n)
    }
    fn raw(p: i128) -> u128 {
        p as u128
    }
    fn less(a: (u128, usize), b: (u128, usize)) -> bool {
        sx(a.0, a.1) < sx(b.0, b.1)
    }
    /// Narrowing keeps the sign bit and the lowest bits (the crate's tests fix this).
    fn resize(v: u128, from: usize, to: usize) -> u128 {
        let s = v >> (from.min(128) - 1) & 1;
        if to > from { sx(v, from) as u128 & mask(to) } else { v & mask(to - 1) | s << (to - 1) }
    }
}

/// A circuit under construction on plain inputs.
struct Bench {
    p: Prog,
    env: HashMap<usize, Poly>,
    widths: Vec<usize>,
    outs: Vec<(String, Cells, Want)>,
}

impl Bench {
    fn new() -> Bench {
        Bench { p: Prog::default(), env: HashMap::new(), widths: vec![], outs: vec![] }
    }
    fn input<'a, T: CiphertextOps, U: Sign>(&mut self, enc: &Encryption, ctx: &'a FheCircuitCtx, n: usize) -> DynamicGenericIntGraphNodes<'a, T, U> {
        let v = DynamicGenericInt::<T, U>::new(enc, n);
        self.declare(&v.bits.iter().map(key).collect::<Vec<_>>());
        let r = v.graph_inputs(ctx);
        // the cells must stay alive, or an address could be used twice
        std::mem::forget(v);
        r
    }
    fn declare(&mut self, cells: &[usize]) {
        for c in cells {
            let s = self.p.input();
            self.env.insert(*c, Poly::from([(0, s)]));
        }
        self.widths.push(cells.len());
    }
    fn output<T: CiphertextOps, U: Sign>(&mut self, name: impl Into<String>, x: &DynamicGenericIntGraphNodes<T, U>, enc: &Encryption, ctx: &FheCircuitCtx, w: Want) {
        let o = x.collect_outputs(ctx, enc);
        self.outs.push((name.into(), o.bits.iter().map(key).collect(), w));
        std::mem::forget(o);
    }
    fn output_bit<T: CiphertextOps>(&mut self, name: impl Into<String>, x: &BitNode<T>, enc: &Encryption, ctx: &FheCircuitCtx, w: Want) {
        let c = Arc::new(AtomicRefCell::new(T::allocate(enc)));
        let mut g = ctx.circuit.borrow_mut();
        let i = g.add_node(T::graph_output(&c));
        g.add_edge(x.node, i, E::Unary);
        self.outs.push((name.into(), vec![key(&c)], w));
    }
    /// Compare on every assignment of at most `lim` input bits, or on the corner values of each input.
    fn check(mut self, c: &FheCircuit, n: usize, lim: usize, cx: &mut Cx) -> R {
        let f = flatten(c, n, &self.env, &mut self.p)?;
        let zero = self.p.constant(false);
        let mut slots = vec![];
        for (name, cells, _) in &self.outs {
            let mut v = vec![];
            for k in cells {
                let (_, q) = f.out.get(k).ok_or(format!("{name}: an output is never written"))?;
                v.push(q.get(&0).copied().unwrap_or(zero));
            }
            slots.push(v);
        }
        let total: usize = self.widths.iter().sum();
        let asg: Vec<Vec<u128>> = if total <= lim {
            (0..1u64 << total).map(|a| { let mut a = a; self.widths.iter().map(|w| { let v = a as u128 & mask(*w); a >>= w; v }).collect() }).collect()
        } else {
            let mut l: Vec<Vec<u128>> = vec![vec![]];
            for w in &self.widths {
                let cs = corners(*w);
                l = l.iter().flat_map(|p| cs.iter().map(move |c| { let mut q = p.clone(); q.push(*c); q })).collect();
            }
            l
        };
        let bits: Vec<Vec<bool>> = asg.iter().map(|a| a.iter().zip(&self.widths).flat_map(|(v, w)| (0..*w).map(move |i| i < 128 && v >> i & 1 == 1)).collect()).collect();
        let outs = &self.outs;
        let k = listed(&self.p, &bits, |base, lanes, s| {
            for l in 0..lanes {
                for (o, sl) in outs.iter().zip(&slots) {
                    let w = (o.2)(&asg[base + l]) & mask(sl.len());
                    let mut g = 0u128;
                    for (i, x) in sl.iter().enumerate().take(128) {
                        g |= ((s[*x] >> l & 1) as u128) << i;
                    }
                    ensure!(g == w, "{}: inputs {:?}: got {g:#b}, expected {w:#b} ({} bits)", o.0, asg[base + l], sl.len());
                }
            }
            Ok(())
        })?;
        cx.evals += k * self.outs.len() as u64;
        cx.nt += (k - 1) * self.outs.len() as u64;
        cx.states += 1;
        cx.transitions += c.node_count() as u64;
        Ok(())
    }
}

/// Boundary operands of a width.
fn corners(n: usize) -> Vec<u128> {
    let m = mask(n);
    let mut v = vec![0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, m / 3, m / 3 * 2, m / 5, m / 17 * 3 + 1];
    for i in [n / 4, n / 2, n / 2 + 1, n.saturating_sub(2)] {
        v.push(1 << i.min(127));
        v.push((1u128 << i.min(127)).wrapping_sub(1));
        v.push(m << i.min(127));
    }
    v.iter_mut().for_each(|x| *x &= m);
    v.sort();
    v.dedup();
    v
}

fn w2(f: impl Fn(u128, u128) -> u128 + 'static) -> Want {
    Rc::new(move |v| f(v[0], v[1]))
}

const OPS: [&str; 10] = ["add", "sub", "and", "mul", "eq", "neq", "gt", "ge", "lt", "le"];

fn plain_op<U: Kind>(op: &str, n: usize, m: usize) -> Want {
    match op {
        "add" => w2(|a, b| a.wrapping_add(b)),
        "sub" => w2(|a, b| a.wrapping_sub(b)),
        "and" => w2(|a, b| a & b),
        "mul" => w2(move |a, b| U::num(a, n).wrapping_mul(U::num(b, m)) as u128),
        "eq" => w2(move |a, b| (U::num(a, n) == U::num(b, m)) as u128),
        "neq" => w2(move |a, b| (U::num(a, n) != U::num(b, m)) as u128),
        "gt" => w2(move |a, b| U::less((b, m), (a, n)) as u128),
        "ge" => w2(move |a, b| !U::less((a, n), (b, m)) as u128),
        "lt" => w2(move |a, b| U::less((a, n), (b, m)) as u128),
        "le" => w2(move |a, b| !U::less((b, m), (a, n)) as u128),
        _ => unreachable!(),
    }
}

enum Res<'a, C: CiphertextOps, U: Sign> {
    Int(DynamicGenericIntGraphNodes<'a, C, U>),
    Bit(BitNode<C>),
}

fn apply<'a, C: Muxable, U: Sign>(op: &str, a: &DynamicGenericIntGraphNodes<'a, Ggsw, U>, b: &DynamicGenericIntGraphNodes<'a, Ggsw, U>, ctx: &'a FheCircuitCtx) -> Res<'a, C, U> {
    match op {
        "add" => Res::Int(a.add(b, ctx)),
        "sub" => Res::Int(a.sub(b, ctx)),
        "and" => Res::Int(a.and(b, ctx)),
        "mul" => Res::Int(a.mul(b, ctx)),
        "eq" => Res::Bit(a.eq(b, ctx)),
        "neq" => Res::Bit(a.neq(b, ctx)),
        "gt" => Res::Bit(a.gt(b, ctx)),
        "ge" => Res::Bit(a.ge(b, ctx)),
        "lt" => Res::Bit(a.lt(b, ctx)),
        "le" => Res::Bit(a.le(b, ctx)),
        _ => unreachable!(),
    }
}

fn binary<C: Muxable, U: Kind>(fx: &Fx, op: &str, n: usize, m: usize, lim: usize, cx: &mut Cx) -> R {
    let ctx = FheCircuitCtx::new();
    let mut b = Bench::new();
    let x = b.input::<Ggsw, U>(&fx.enc, &ctx, n);
    let y = b.input::<Ggsw, U>(&fx.enc, &ctx, m);
    let want = plain_op::<U>(op, n, m);
    match apply::<C, U>(op, &x, &y, &ctx) {
        Res::Int(r) => {
            ensure!(r.bits.len() == n, "the result has {} bits", r.bits.len());
            b.output(op, &r, &fx.enc, &ctx, want)
        }
        Res::Bit(r) => b.output_bit(op, &r, &fx.enc, &ctx, want),
    }
    b.check(&ctx.circuit.borrow(), fx.n(), lim, cx)
}

/// The same, really encrypted.
fn binary_enc<C: Muxable, U: Kind>(fx: &Fx, op: &str, n: usize, m: usize, cx: &mut Cx) -> R {
    let want = plain_op::<U>(op, n, m);
    for a in 0..1u128 << n {
        for b in 0..1u128 << m {
            let ctx = FheCircuitCtx::new();
            let x = DynamicGenericInt::<Glwe, U>::encrypt_secret(U::plain(a, n), &fx.enc, &fx.sk, n);
            let y = DynamicGenericInt::<Glev, U>::encrypt_secret(U::plain(b, m), &fx.enc, &fx.sk, m);
            let xs = x.graph_inputs(&ctx).convert(&ctx);
            let ys = y.graph_inputs(&ctx).convert(&ctx);
            let w = want(&[a, b]);
            match apply::<C, U>(op, &xs, &ys, &ctx) {
                Res::Int(r) => {
                    let o = r.collect_outputs(&ctx, &fx.enc);
                    fx.run(&ctx.circuit.borrow())?;
                    same!(cx, U::raw(o.decrypt(&fx.enc, &fx.sk)), U::raw(U::plain(w & mask(n), n)), "{op} of {a} and {b}");
                }
                Res::Bit(r) => {
                    let o = r.collect_output(&ctx, &fx.enc);
                    fx.run(&ctx.circuit.borrow())?;
                    same!(cx, o.decrypt(&fx.enc, &fx.sk) as u128, w, "{op} of {a} and {b}");
                }
            }
        }
    }
    Ok(())
}

fn roundtrip<T: CiphertextOps, U: Kind>(fx: &Fx, n: usize, cx: &mut Cx) -> R {
    let vals: Vec<u128> = if n <= 6 { (0..1 << n).collect() } else { corners(n) };
    for v in vals {
        let p = U::plain(v, n);
        let a = DynamicGenericInt::<T, U>::encrypt_secret(p, &fx.enc, &fx.sk, n);
        ensure!(a.bits.len() == n, "{} bits", a.bits.len());
        let t = DynamicGenericInt::<T, U>::trivial(p, &fx.enc, &fx.eval, n);
        for (how, x) in [("encrypted", &a), ("trivial", &t)] {
            same!(cx, x.decrypt(&fx.enc, &fx.sk), p, "{how} {n}-bit integer");
            // bit by bit
            for (i, b) in x.bits.iter().enumerate() {
                let w = if i < 128 { v >> i & 1 } else { (U::num(v, n) < 0 && U::NAME == "signed") as u128 };
                ensure!(b.borrow().decrypt(&fx.enc, &fx.sk) as u128 == w, "bit {i} of the {how} {n}-bit {p:?}");
            }
        }
        let back = DynamicGenericInt::<T, U>::from_bits_shallow(a.bits.clone());
        ensure!(back.decrypt(&fx.enc, &fx.sk) == p, "through from_bits_shallow");
        let back = DynamicGenericInt::<T, U>::from_bits_deep(a.bits.iter().map(|b| b.borrow().clone()).collect());
        ensure!(back.decrypt(&fx.enc, &fx.sk) == p, "through from_bits_deep");
    }
    let z = DynamicGenericInt::<T, U>::new(&fx.enc, n);
    // a fresh integer is a trivial zero; a zero GGSW is not one, but decrypts alike
    ensure!(z.decrypt(&fx.enc, &fx.sk) == U::plain(0, n), "a new integer is not zero");
    Ok(())
}

fn public<U: Kind>(fx: &Fx, n: usize, cx: &mut Cx) -> R {
    let pk = fx.pk.as_ref().unwrap();
    let ke = KeylessEvaluation::new(&fx.p, &fx.enc);
    let vals: Vec<u128> = if n <= 6 { (0..1 << n).collect() } else { corners(n) };
    for v in vals {
        let p = U::plain(v, n);
        let a = DynamicGenericInt::<Glwe, U>::encrypt(p, &fx.enc, pk, n);
        same!(cx, a.decrypt(&fx.enc, &fx.sk), p, "public-key encryption of {n} bits");
        if n < fx.n() {
            let a = PackedDynamicGenericInt::<Glwe, U>::encrypt(p, &fx.enc, pk, n);
            same!(cx, a.decrypt(&fx.enc, &fx.sk), p, "packed encryption of {n} bits");
            let t = PackedDynamicGenericInt::<Glwe, U>::trivial_encrypt(p, &fx.enc, n);
            same!(cx, t.decrypt(&fx.enc, &fx.sk), p, "packed trivial encryption of {n} bits");
            let raw = PackedDynamicGenericInt::<Glwe, U>::from((n as u32, a.inner()));
            same!(cx, raw.decrypt(&fx.enc, &fx.sk), p, "rebuilt packed integer of {n} bits");
            let (pb, sc) = generate_one_time_pad(&fx.p, &fx.enc, pk);
            same!(cx, a.recrypt(&fx.enc, &ke, &pb).decrypt(&fx.enc, &fx.sk).decrypt(&sc), p, "recrypted integer of {n} bits");
            let ctx = FheCircuitCtx::new();
            let un = a.graph_input(&ctx).unpack(&ctx);
            ensure!(un.bits.len() == n, "unpacked into {} bits", un.bits.len());
            let un = un.collect_outputs(&ctx, &fx.enc);
            let rp = DynamicGenericInt::<Glwe, U>::encrypt_secret(p, &fx.enc, &fx.sk, n).graph_inputs(&ctx).pack(&ctx, &fx.enc).collect_output(&ctx, &fx.enc);
            fx.run(&ctx.circuit.borrow())?;
            same!(cx, un.decrypt(&fx.enc, &fx.sk), p, "unpacked integer of {n} bits");
            same!(cx, rp.decrypt(&fx.enc, &fx.sk), p, "packed integer of {n} bits");
            // nothing but the bits of the integer in the packed polynomial
            let q = fx.enc.decrypt_glwe_l1(&rp.inner(), &fx.sk);
            ensure!(q.coeffs().iter().enumerate().all(|(i, c)| *c == if i < n && i < 128 { (v >> i & 1) as u64 } else if i < n { (U::num(v, n) < 0 && U::NAME == "signed") as u64 } else { 0 }), "packed polynomial {:?}", q.coeffs());
        }
    }
    Ok(())
}

/// Values that do not fit are refused.
fn bounds(fx: &Fx, cx: &mut Cx) -> R {
    let pk = fx.pk.as_ref().unwrap();
    for n in 1..=130usize {
        let (umax, smin, smax) = (mask(n), if n >= 128 { i128::MIN } else { -(1i128 << (n - 1)) }, if n >= 128 { i128::MAX } else { (1i128 << (n - 1)) - 1 });
        let mut us = vec![(0, true), (umax, true)];
        let mut ss = vec![(0, true), (smin, true), (smax, true), (-1, true)];
        if n < 128 {
            us.extend([(umax + 1, false), (u128::MAX, false)]);
            ss.extend([(smin - 1, false), (smax + 1, false), (i128::MAX, false), (i128::MIN, false)]);
        }
        for (v, ok) in us {
            for (how, r) in [
                ("encrypt_secret", catch(|| drop(DynamicUInt::<L0LweCiphertext>::encrypt_secret(v, &fx.enc, &fx.sk, n)))),
                ("trivial", catch(|| drop(DynamicUInt::<L0LweCiphertext>::trivial(v, &fx.enc, &fx.eval, n)))),
            ] {
                cx.ev(!ok);
                ensure!(r.is_ok() == ok, "{how} of the unsigned {v} in {n} bits: {}", if ok { "refused" } else { "accepted" });
            }
            if n < 12 {
                cx.ev(!ok);
                ensure!(catch(|| drop(DynamicUInt::<Glwe>::encrypt(v, &fx.enc, pk, n))).is_ok() == ok, "encrypt of the unsigned {v} in {n} bits");
                ensure!(catch(|| drop(PackedDynamicUInt::<Glwe>::encrypt(v, &fx.enc, pk, n))).is_ok() == ok, "packed encrypt of the unsigned {v} in {n} bits");
            }
        }
        for (v, ok) in ss {
            for (how, r) in [
                ("encrypt_secret", catch(|| drop(DynamicInt::<L0LweCiphertext>::encrypt_secret(v, &fx.enc, &fx.sk, n)))),
                ("trivial", catch(|| drop(DynamicInt::<L0LweCiphertext>::trivial(v, &fx.enc, &fx.eval, n)))),
            ] {
                cx.ev(!ok);
                ensure!(r.is_ok() == ok, "{how} of the signed {v} in {n} bits: {}", if ok { "refused" } else { "accepted" });
            }
            if n < 12 {
                cx.ev(!ok);
                ensure!(catch(|| drop(DynamicInt::<Glwe>::encrypt(v, &fx.enc, pk, n))).is_ok() == ok, "encrypt of the signed {v} in {n} bits");
                ensure!(catch(|| drop(PackedDynamicInt::<Glwe>::encrypt(v, &fx.enc, pk, n))).is_ok() == ok, "packed encrypt of the signed {v} in {n} bits");
            }
        }
    }
    Ok(())
}

fn resize<T: CiphertextOps, U: Kind>(fx: &Fx, n: usize, m: usize, lim: usize, cx: &mut Cx) -> R {
    let ctx = FheCircuitCtx::new();
    let mut b = Bench::new();
    let x = b.input::<T, U>(&fx.enc, &ctx, n);
    let r = x.resize(&ctx, m);
    ensure!(r.bits.len() == m, "resized to {} bits instead of {m}", r.bits.len());
    b.output("resize", &r, &fx.enc, &ctx, Rc::new(move |v| U::resize(v[0], n, m)));
    // again, with whatever was cached
    let r2 = r.resize(&ctx, n);
    b.output("resized back", &r2, &fx.enc, &ctx, Rc::new(move |v| U::resize(U::resize(v[0], n, m) & mask(m), m, n)));
    b.check(&ctx.circuit.borrow(), fx.n(), lim, cx)
}

fn convert<T: CiphertextOps, V: CiphertextOps, U: Kind>(fx: &Fx, n: usize, cx: &mut Cx) -> R {
    let ctx = FheCircuitCtx::new();
    let mut b = Bench::new();
    let x = b.input::<T, U>(&fx.enc, &ctx, n);
    let r = x.convert::<V>(&ctx);
    b.output("convert", &r, &fx.enc, &ctx, Rc::new(|v| v[0]));
    b.output("the original", &x, &fx.enc, &ctx, Rc::new(|v| v[0]));
    b.check(&ctx.circuit.borrow(), fx.n(), 12, cx)
}

fn packing<U: Kind>(fx: &Fx, n: usize, cx: &mut Cx) -> R {
    let ctx = FheCircuitCtx::new();
    let mut b = Bench::new();
    let x = b.input::<Glwe, U>(&fx.enc, &ctx, n);
    let p = x.pack(&ctx, &fx.enc);
    let u = p.unpack(&ctx);
    ensure!(u.bits.len() == n, "unpacked into {} bits", u.bits.len());
    b.output("unpack of pack", &u, &fx.enc, &ctx, Rc::new(|v| v[0]));
    let s = u.convert::<Ggsw>(&ctx);
    b.output("converted", &s, &fx.enc, &ctx, Rc::new(|v| v[0]));
    b.check(&ctx.circuit.borrow(), fx.n(), 12, cx)
}

fn select<const N: usize, U: Kind>(fx: &Fx, lim: usize, cx: &mut Cx) -> R {
    let ctx = FheCircuitCtx::new();
    let mut b = Bench::new();
    let x: GenericIntGraphNodes<N, Glwe, U> = b.input::<Glwe, U>(&fx.enc, &ctx, N).into();
    let y: GenericIntGraphNodes<N, Glwe, U> = b.input::<Glwe, U>(&fx.enc, &ctx, N).into();
    let s = b.input::<Ggsw, U>(&fx.enc, &ctx, 1);
    let r = s.bits[0].select(&x, &y, &ctx);
    ensure!(r.bits.len() == N, "{} bits", r.bits.len());
    b.output("select", &r, &fx.enc, &ctx, Rc::new(|v| if v[2] == 1 { v[0] } else { v[1] }));
    let one = BitNode::<Ggsw>::one(&ctx).select(&x, &y, &ctx);
    let zero = BitNode::<Ggsw>::zero(&ctx).select(&x, &y, &ctx);
    b.output("select by one", &one, &fx.enc, &ctx, Rc::new(|v| v[0]));
    b.output("select by zero", &zero, &fx.enc, &ctx, Rc::new(|v| v[1]));
    b.check(&ctx.circuit.borrow(), fx.n(), lim, cx)
}

fn constants(fx: &Fx, cx: &mut Cx) -> R {
    fn each<T: CiphertextOps>(b: &mut Bench, ctx: &FheCircuitCtx, fx: &Fx, name: &str) {
        for k in 0..2 {
            let o = BitNode::<T>::one(ctx);
            let z = BitNode::<T>::zero(ctx);
            b.output_bit(format!("{name} one, use {k}"), &o, &fx.enc, ctx, Rc::new(|_| 1));
            b.output_bit(format!("{name} zero, use {k}"), &z, &fx.enc, ctx, Rc::new(|_| 0));
        }
    }
    // each kind first, so that no other kind has filled a cache
    for first in 0..4 {
        let ctx = FheCircuitCtx::new();
        let mut b = Bench::new();
        for k in 0..4 {
            match (first + k) % 4 {
                0 => each::<L0LweCiphertext>(&mut b, &ctx, fx, "L0LWE"),
                1 => each::<Glwe>(&mut b, &ctx, fx, "GLWE"),
                2 => each::<Ggsw>(&mut b, &ctx, fx, "GGSW"),
                _ => each::<Glev>(&mut b, &ctx, fx, "GLEV"),
            }
        }
        b.check(&ctx.circuit.borrow(), fx.n(), 12, cx)?;
    }
    Ok(())
}

/// Programs over the fluent interface. A handle may be used again after any later step.
enum H<'a, U: Sign> {
    S(DynamicGenericIntGraphNodes<'a, Ggsw, U>),
    W(DynamicGenericIntGraphNodes<'a, Glwe, U>),
    V(DynamicGenericIntGraphNodes<'a, Glev, U>),
    L(DynamicGenericIntGraphNodes<'a, Lwe1, U>),
    Bw(BitNode<Glwe>),
    Bs(BitNode<Ggsw>),
}

struct Val<'a, U: Sign> {
    h: H<'a, U>,
    w: usize,
    f: Want,
}

/// Apply step number `k` to the handles; false if there are not so many.
fn step<'a, U: Kind>(hs: &mut Vec<Val<'a, U>>, b: &mut Bench, k: usize, ctx: &'a FheCircuitCtx, fx: &Fx) -> bool {
    let mut at = 0;
    let mut hit = || { at += 1; at - 1 == k };
    let n = hs.len();
    for i in 0..n {
        let w = hs[i].w;
        let f = hs[i].f.clone();
        let g = f.clone();
        macro_rules! put { ($h:expr, $w:expr, $f:expr) => {{ let h = $h; hs.push(Val { h, w: $w, f: $f }); return true; }} }
        match &hs[i].h {
            H::S(x) => {
                for j in 0..n {
                    let H::S(y) = &hs[j].h else { continue };
                    let (w2, f2) = (hs[j].w, hs[j].f.clone());
                    for op in ["add", "sub", "mul", "eq", "gt"] {
                        if w != w2 && matches!(op, "add" | "sub") || (op == "sub" && i == j) || (matches!(op, "eq" | "gt") && i > j) { continue; }
                        if hit() {
                            let p = plain_op::<U>(op, w, w2);
                            let (f, f2) = (f.clone(), f2.clone());
                            let want: Want = Rc::new(move |v| p(&[f(v) & mask(w), f2(v) & mask(w2)]));
                            match apply::<Glwe, U>(op, x, y, ctx) {
                                Res::Int(r) => put!(H::W(r), w, want),
                                Res::Bit(r) => put!(H::Bw(r), 1, want),
                            }
                        }
                        if op != "sub" && op != "eq" && op != "gt" && hit() {
                            let p = plain_op::<U>(op, w, w2);
                            let (f, f2) = (f.clone(), f2.clone());
                            let want: Want = Rc::new(move |v| p(&[f(v) & mask(w), f2(v) & mask(w2)]));
                            match apply::<Glev, U>(op, x, y, ctx) {
                                Res::Int(r) => put!(H::V(r), w, want),
                                Res::Bit(_) => unreachable!(),
                            }
                        }
                    }
                }
                for m in [1, 3] {
                    if m != w && hit() { put!(H::S(x.resize(ctx, m)), m, Rc::new(move |v| U::resize(f(v) & mask(w), w, m))) }
                }
                if hit() { put!(H::W(x.convert(ctx)), w, g) }
                if hit() { put!(H::V(x.convert(ctx)), w, g) }
            }
            H::W(x) => {
                if hit() { put!(H::S(x.convert(ctx)), w, g) }
                if hit() { put!(H::L(x.pack(ctx, &fx.enc).unpack(ctx)), w, g) }
                if hit() { put!(H::W(x.resize(ctx, 3)), 3, Rc::new(move |v| U::resize(f(v) & mask(w), w, 3))) }
                if hit() { b.output("taken early", x, &fx.enc, ctx, g); return true; }
                if w == 2 {
                    for j in 0..n {
                        let H::Bs(s) = &hs[j].h else { continue };
                        for l in 0..n {
                            let H::W(y) = &hs[l].h else { continue };
                            if hs[l].w == 2 && hit() {
                                let (fs, fy) = (hs[j].f.clone(), hs[l].f.clone());
                                let (x2, y2): (GenericIntGraphNodes<2, Glwe, U>, GenericIntGraphNodes<2, Glwe, U>) = (x.resize(ctx, 2).into(), y.resize(ctx, 2).into());
                                let r: DynamicGenericIntGraphNodes<Glwe, U> = s.select(&x2, &y2, ctx).into();
                                put!(H::W(r), 2, Rc::new(move |v| if fs(v) & 1 == 1 { g(v) } else { fy(v) }))
                            }
                        }
                    }
                }
            }
            H::V(x) => {
                if hit() { put!(H::S(x.convert(ctx)), w, g) }
                if hit() { put!(H::V(x.resize(ctx, 3)), 3, Rc::new(move |v| U::resize(f(v) & mask(w), w, 3))) }
            }
            H::L(x) => {
                if hit() { put!(H::S(x.convert(ctx)), w, g) }
            }
            H::Bw(x) => {
                if hit() { put!(H::Bs(x.convert(ctx)), 1, g) }
            }
            H::Bs(_) => {}
        }
    }
    if hit() { hs.push(Val { h: H::Bs(BitNode::one(ctx)), w: 1, f: Rc::new(|_| 1) }); return true; }
    if hit() { hs.push(Val { h: H::Bs(BitNode::zero(ctx)), w: 1, f: Rc::new(|_| 0) }); return true; }
    false
}

fn sequences<U: Kind>(fx: &Fx, first: usize, depth: usize, real: bool, cx: &mut Cx) -> Result<bool, String> {
    let mut path = vec![first];
    loop {
        let ctx = FheCircuitCtx::new();
        let mut b = Bench::new();
        let mut hs: Vec<Val<U>> = vec![];
        for i in 0..2 {
            let x = b.input::<Ggsw, U>(&fx.enc, &ctx, 2);
            hs.push(Val { h: H::S(x), w: 2, f: Rc::new(move |v| v[i]) });
        }
        let ok = path.iter().all(|k| step(&mut hs, &mut b, *k, &ctx, fx));
        if ok {
            for (i, v) in hs.iter().enumerate() {
                let name = format!("value {i}");
                match &v.h {
                    H::S(x) => b.output(name, x, &fx.enc, &ctx, v.f.clone()),
                    H::W(x) => b.output(name, x, &fx.enc, &ctx, v.f.clone()),
                    H::V(x) => b.output(name, x, &fx.enc, &ctx, v.f.clone()),
                    H::L(x) => b.output(name, x, &fx.enc, &ctx, v.f.clone()),
                    H::Bw(x) => b.output_bit(name, x, &fx.enc, &ctx, v.f.clone()),
                    H::Bs(x) => b.output_bit(name, x, &fx.enc, &ctx, v.f.clone()),
                }
            }
            let _ = real;
            b.check(&ctx.circuit.borrow(), fx.n(), 12, cx).map_err(|e| format!("steps {path:?}: {e}"))?;
        } else if path.len() == 1 {
            return Ok(false);
        }
        if ok && path.len() < depth {
            path.push(0);
        } else if ok && path.len() > 1 {
            *path.last_mut().unwrap() += 1;
        } else {
            path.pop();
            if path.len() <= 1 {
                return Ok(true);
            }
            *path.last_mut().unwrap() += 1;
        }
    }
}

/// The circuit builders outside the fluent interface.
fn builders(fx: &Fx, n: usize, carry: bool, sub: bool, cx: &mut Cx) -> R {
    let mk = |k: usize| (0..k).map(|_| Arc::new(AtomicRefCell::new(fx.enc.allocate_glwe_l1()))).collect::<Vec<_>>();
    let (a, b, c) = (mk(n), mk(n), mk(1));
    let f = if sub { circuits::sub_circuit } else { circuits::add::add_circuit };
    let (g, out) = f(n, &a, &b, carry.then_some(&c[..]), &fx.enc);
    let mut be = Bench::new();
    be.declare(&a.iter().map(key).collect::<Vec<_>>());
    be.declare(&b.iter().map(key).collect::<Vec<_>>());
    if carry {
        be.declare(&[key(&c[0])]);
    }
    ensure!(out.len() == n + 1, "{} outputs", out.len());
    let want: Want = Rc::new(move |v| {
        let c = if carry { v[2] } else { 0 };
        if sub { v[0].wrapping_sub(v[1]).wrapping_sub(c) & mask(n) | (((v[0] < v[1] + c) as u128) << n) } else { v[0] + v[1] + c }
    });
    be.outs.push(("sum and carry".into(), out.iter().map(key).collect(), want));
    be.check(&g, fx.n(), 14, cx)
}

fn products<C: Muxable, U: Kind>(fx: &Fx, n: usize, m: usize, lim: usize, cx: &mut Cx) -> R {
    let mut g = FheCircuit::new();
    let mut b = Bench::new();
    let mk = |k: usize| (0..k).map(|_| Arc::new(AtomicRefCell::new(fx.enc.allocate_ggsw_l1()))).collect::<Vec<_>>();
    let (x, y) = (mk(n), mk(m));
    b.declare(&x.iter().map(key).collect::<Vec<_>>());
    b.declare(&y.iter().map(key).collect::<Vec<_>>());
    let xs: Vec<NodeIndex> = x.iter().map(|c| g.add_node(O::InputGgsw1(c.clone()))).collect();
    let ys: Vec<NodeIndex> = y.iter().map(|c| g.add_node(O::InputGgsw1(c.clone()))).collect();
    let (lo, hi) = if U::NAME == "signed" { circuits::mul::append_int_multiply::<C>(&mut g, &xs, &ys) } else { circuits::mul::append_uint_multiply::<C>(&mut g, &xs, &ys) };
    ensure!(lo.len() == n && hi.len() == m, "{} low and {} high bits", lo.len(), hi.len());
    let mut cells = vec![];
    for i in lo.iter().chain(&hi) {
        let c = Arc::new(AtomicRefCell::new(C::allocate(&fx.enc)));
        let o = g.add_node(C::graph_output(&c));
        g.add_edge(*i, o, E::Unary);
        cells.push(key(&c));
    }
    if n + m <= 128 {
        b.outs.push(("product".into(), cells, Rc::new(move |v| U::num(v[0], n).wrapping_mul(U::num(v[1], m)) as u128)));
    } else {
        cells.truncate(128);
        b.outs.push(("low product".into(), cells, Rc::new(move |v| U::num(v[0], n).wrapping_mul(U::num(v[1], m)) as u128)));
    }
    b.check(&g, fx.n(), lim, cx)
}

pub fn run() {
    let mut ck = Ck::new("R02", "exploration", "an assignment that is not all zeros");
    ck.assume("small noise-free parameter sets (level-0 dimension 2, degree 64-512); circuits are judged on plain bits by an independent evaluator, which R01 and the encrypted cases here bind to the engine");
    let mut sets = param_sets();
    sets.push(("d2n512k1", params(2, 512, 1, rad(3, 9))));
    let fxs: Vec<(&str, Fx)> = sets.iter().map(|(n, p)| (*n, Fx::new(p.clone()))).collect();
    let fx = &fxs[0].1;
    let big = &fxs[3].1;
    let widths: Vec<usize> = (1..=10).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256]).collect();

    ck.par("roundtrip", &widths, |n| format!("{n} bits"), |n, cx| {
        for (_, f) in &fxs[..2] {
            macro_rules! each { ($($t:ty),*) => { $( roundtrip::<$t, Unsigned>(f, *n, cx)?; roundtrip::<$t, Signed>(f, *n, cx)?; )* } }
            each!(L0LweCiphertext, Lwe1, Glwe, Glev, Ggsw);
        }
        Ok(())
    });
    ck.par("public", &widths, |n| format!("{n} bits"), |n, cx| {
        let f = if *n < 60 { fx } else { big };
        public::<Unsigned>(f, *n, cx)?;
        public::<Signed>(f, *n, cx)
    });
    ck.case("bounds", "out of range values", |cx| bounds(fx, cx));
    ck.case("constants", "cached ones and zeros", |cx| constants(fx, cx));

    // every operation on every pair of operands
    let lim = ck.tier(14, 18);
    let mut items = vec![];
    for op in OPS {
        for n in 1..=lim / 2 {
            items.push((op, n, n));
            if matches!(op, "mul" | "eq" | "neq" | "gt" | "ge" | "lt" | "le") {
                for m in 1..=lim / 2 {
                    if m != n && m <= 5 && n <= 5 { items.push((op, n, m)); }
                }
            }
        }
    }
    let mut wide = vec![];
    for op in OPS {
        for n in [12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 48, 63, 64, 65, 127, 128] {
            // (circuits for these take seconds to minutes to build)
            if op == "mul" && matches!(n, 15 | 31 | 48 | 63 | 65 | 127 | 128) && !ck.thorough { continue; }
            wide.push((op, n, n));
        }
        if op == "mul" || !matches!(op, "add" | "sub" | "and") {
            for (n, m) in [(16, 17), (17, 16), (17, 1), (1, 17), (18, 3), (20, 10), (10, 20), (24, 12), (31, 16), (32, 16), (33, 8), (8, 33), (34, 17), (64, 16), (16, 64), (40, 24), (64, 32)] {
                if op == "mul" && matches!((n, m), (24, 12) | (31, 16) | (40, 24)) && !ck.thorough { continue; }
                wide.push((op, n, m));
            }
        }
    }
    let four = |l: &[(&'static str, usize, usize)]| -> Vec<(&'static str, usize, usize, usize)> { l.iter().flat_map(|(o, n, m)| (0..4).map(move |k| (*o, *n, *m, k))).collect() };
    const VAR: [&str; 4] = ["unsigned GLWE", "signed GLWE", "unsigned GLEV", "signed GLEV"];
    for (group, list) in [("every pair", &items), ("corner pairs", &wide)] {
        ck.par(group, &four(list), |(op, n, m, k)| format!("{op} {n} {m} {}", VAR[*k]), |(op, n, m, k), cx| match k {
            0 => binary::<Glwe, Unsigned>(fx, op, *n, *m, lim, cx),
            1 => binary::<Glwe, Signed>(fx, op, *n, *m, lim, cx),
            2 => binary::<Glev, Unsigned>(fx, op, *n, *m, lim, cx),
            _ => binary::<Glev, Signed>(fx, op, *n, *m, lim, cx),
        });
    }
    let mut items = vec![];
    for n in 1..=ck.tier(6, 8) {
        for m in 1..=ck.tier(6, 8) {
            items.push((n, m));
        }
    }
    for n in [15, 16, 17, 32, 33, 64] {
        for m in [1, 16, 18, 32, 64, 128] {
            if !ck.thorough && (n == 15 || m == 128 || n == 33 && m == 64) { continue; }
            items.push((n, m));
        }
    }
    let items: Vec<(usize, usize, usize)> = items.iter().flat_map(|(n, m)| (0..4).map(move |k| (*n, *m, k))).collect();
    ck.par("products", &items, |(n, m, k)| format!("{n} {m} {}", VAR[*k]), |(n, m, k), cx| match k {
        0 => products::<Glwe, Unsigned>(fx, *n, *m, lim, cx),
        1 => products::<Glwe, Signed>(fx, *n, *m, lim, cx),
        2 => products::<Glev, Unsigned>(fx, *n, *m, lim, cx),
        _ => products::<Glev, Signed>(fx, *n, *m, lim, cx),
    });
    let mut items = vec![];
    for n in (1..=6).chain([16, 63]) {
        for c in [false, true] {
            for s in [false, true] {
                items.push((n, c, s));
            }
        }
    }
    ck.par("builders", &items, |(n, c, s)| format!("{} {n} carry {c}", if *s { "sub" } else { "add" }), |(n, c, s), cx| builders(fx, *n, *c, *s, cx));

    let mut items = vec![];
    for n in (1..=8).chain([16, 31, 64, 128, 129, 256]) {
        for m in (1..=8).chain([16, 33, 64, 127, 128, 200, 256]) {
            items.push((n, m));
        }
    }
    ck.par("resize", &items, |(n, m)| format!("{n} to {m}"), |(n, m), cx| {
        macro_rules! each { ($($t:ty),*) => { $( resize::<$t, Unsigned>(fx, *n, *m, 12, cx).map_err(|e| format!("unsigned {} {e}", stringify!($t)))?; resize::<$t, Signed>(fx, *n, *m, 12, cx).map_err(|e| format!("signed {} {e}", stringify!($t)))?; )* } }
        if *n > 128 || *m > 128 { return wide_resize(fx, *n, *m, cx); }
        each!(L0LweCiphertext, Glwe, Ggsw, Glev);
        Ok(())
    });
    ck.par("convert", &[1usize, 2, 5, 8], |n| format!("{n} bits"), |n, cx| {
        macro_rules! to { ($a:ty; $($t:ty),*) => { $( convert::<$a, $t, Unsigned>(fx, *n, cx)?; convert::<$a, $t, Signed>(fx, *n, cx)?; )* } }
        macro_rules! from { ($($t:ty),*) => { $( to!($t; L0LweCiphertext, Lwe1, Glwe, Ggsw, Glev); )* } }
        from!(L0LweCiphertext, Lwe1, Glwe, Ggsw, Glev);
        Ok(())
    });
    ck.par("packing", &(1..=64usize).collect::<Vec<_>>(), |n| format!("{n} bits"), |n, cx| {
        packing::<Unsigned>(fx, *n, cx)?;
        packing::<Signed>(fx, *n, cx)
    });
    ck.case("select", "widths 1 to 6 and 64", |cx| {
        macro_rules! each { ($($n:literal),*) => { $( select::<$n, Unsigned>(fx, 13, cx)?; select::<$n, Signed>(fx, 13, cx)?; )* } }
        each!(1, 2, 3, 4, 5, 6, 64);
        Ok(())
    });

    // programs over the fluent interface
    let depth = ck.tier(3, 4);
    let mut count = 0;
    while sequences::<Unsigned>(fx, count, 1, false, &mut Cx::default()).unwrap_or(true) {
        count += 1;
    }
    let items: Vec<(usize, bool)> = (0..count).flat_map(|i| [(i, false), (i, true)]).collect();
    ck.par("sequences", &items, |(i, s)| format!("{} first step {i}", if *s { "signed" } else { "unsigned" }), |(i, s), cx| {
        let f = Fx::new(sets[0].1.clone());
        if *s { sequences::<Signed>(&f, *i, depth, false, cx)?; } else { sequences::<Unsigned>(&f, *i, depth, false, cx)?; }
        Ok(())
    });

    // really encrypted
    let mut items = vec![];
    for op in OPS {
        for (n, m) in [(1, 1), (2, 2), (2, 3), (3, 2), (1, 3)] {
            if n == m || !matches!(op, "add" | "sub" | "and") {
                for f in 0..3 { items.push((op, n, m, f)); }
            }
        }
    }
    ck.par("encrypted", &items, |(op, n, m, f)| format!("{op} {n} {m} {}", fxs[*f].0), |(op, n, m, f), cx| {
        let fx = &fxs[*f].1;
        binary_enc::<Glwe, Unsigned>(fx, op, *n, *m, cx).map_err(|e| format!("unsigned GLWE {e}"))?;
        binary_enc::<Glwe, Signed>(fx, op, *n, *m, cx).map_err(|e| format!("signed GLWE {e}"))?;
        binary_enc::<Glev, Unsigned>(fx, op, *n, *m, cx).map_err(|e| format!("unsigned GLEV {e}"))?;
        binary_enc::<Glev, Signed>(fx, op, *n, *m, cx).map_err(|e| format!("signed GLEV {e}"))
    });
    let _ = poly;
    ck.finish();
}

/// Widths beyond what a plain integer holds, judged bit by bit.
fn wide_resize(fx: &Fx, n: usize, m: usize, cx: &mut Cx) -> R {
    fn one<T: CiphertextOps, U: Kind>(fx: &Fx, n: usize, m: usize, cx: &mut Cx) -> R {
        let ctx = FheCircuitCtx::new();
        let mut b = Bench::new();
        let x = b.input::<T, U>(&fx.enc, &ctx, n);
        let r = x.resize(&ctx, m);
        ensure!(r.bits.len() == m, "resized to {} bits instead of {m}", r.bits.len());
        let zero = BitNode::<T>::zero(&ctx);
        for i in 0..m {
            let from = if i < n && !(U::NAME == "signed" && i + 1 == m) { Some(i) } else if U::NAME == "signed" { Some(n - 1) } else { None };
            let want = from.map_or(zero.node, |k| x.bits[k].node);
            cx.ev(true);
            ensure!(r.bits[i].node == want, "{} {n} to {m}: bit {i} is not what it should be", U::NAME);
        }
        Ok(())
    }
    one::<Glwe, Unsigned>(fx, n, m, cx)?;
    one::<Glwe, Signed>(fx, n, m, cx)
}
