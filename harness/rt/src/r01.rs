//! R01: homomorphic programs mean what they mean on plain bits.
use crate::{fx::*, plain::*};
use mc::*;
use mux_circuits::{MuxCircuit, MuxEdgeInfo, MuxOp, add, and, bitshift, comparisons, mul, neg, or, sub};
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{
    CiphertextType as T, FheCircuit, FheEdge as E, FheOp as O, KeylessEvaluation, L1GlevCiphertext, L1GlweCiphertext, Params, decrypt_one_time_pad, fluent::{CiphertextOps, Muxable},
    generate_one_time_pad, insert_ciphertext_conversion, prune, recrypt_one_time_pad,
};
use petgraph::{Direction, stable_graph::{NodeIndex, StableGraph}, visit::{EdgeRef, IntoEdgeReferences}};
use std::{collections::{BTreeSet, HashMap}, sync::Arc};
use sunscreen_tfhe::entities::Polynomial;

type Cell<C> = Arc<AtomicRefCell<C>>;
fn cell<C>(c: C) -> Cell<C> {
    Arc::new(AtomicRefCell::new(c))
}

pub const KINDS: [T; 5] = [T::L0LweCiphertext, T::L1LweCiphertext, T::L1GlweCiphertext, T::L1GgswCiphertext, T::L1GlevCiphertext];

/// An input or output cell of any kind.
#[derive(Clone)]
pub enum Any {
    Lwe0(Cell<parasol_runtime::L0LweCiphertext>),
    Lwe1(Cell<parasol_runtime::L1LweCiphertext>),
    Glwe(Cell<parasol_runtime::L1GlweCiphertext>),
    Ggsw(Cell<parasol_runtime::L1GgswCiphertext>),
    Glev(Cell<parasol_runtime::L1GlevCiphertext>),
}

pub fn poly(n: usize, m: &[(usize, bool)]) -> Polynomial<u64> {
    let mut p = Polynomial::zero(n);
    for (k, b) in m {
        p.coeffs_mut()[*k] = *b as u64;
    }
    p
}

impl Any {
    /// A trivial zero of that kind.
    fn blank(fx: &Fx, t: T) -> Any {
        match t {
            T::L0LweCiphertext => Any::Lwe0(cell(CiphertextOps::allocate(&fx.enc))),
            T::L1LweCiphertext => Any::Lwe1(cell(CiphertextOps::allocate(&fx.enc))),
            T::L1GlweCiphertext => Any::Glwe(cell(CiphertextOps::allocate(&fx.enc))),
            T::L1GgswCiphertext => Any::Ggsw(cell(CiphertextOps::allocate(&fx.enc))),
            T::L1GlevCiphertext => Any::Glev(cell(CiphertextOps::allocate(&fx.enc))),
        }
    }
    /// Put an encryption of the polynomial with these coefficients (or of coefficient 0) there.
    fn put(&self, fx: &Fx, m: &[(usize, bool)]) {
        let b = m.iter().any(|x| x.0 == 0 && x.1);
        match self {
            Any::Lwe0(c) => *c.borrow_mut() = fx.enc.encrypt_lwe_l0_secret(b, &fx.sk),
            Any::Lwe1(c) => *c.borrow_mut() = fx.enc.encrypt_lwe_l1_secret(b, &fx.sk),
            Any::Glwe(c) => *c.borrow_mut() = fx.enc.encrypt_glwe_l1_secret(&poly(fx.n(), m), &fx.sk),
            Any::Ggsw(c) => *c.borrow_mut() = fx.enc.encrypt_ggsw_l1_secret(b, &fx.sk),
            Any::Glev(c) => *c.borrow_mut() = fx.enc.encrypt_glev_l1_secret(&poly(fx.n(), m), &fx.sk),
        }
    }
    /// The coefficients it decrypts to.
    fn get(&self, fx: &Fx) -> Vec<u64> {
        match self {
            Any::Lwe0(c) => vec![fx.enc.decrypt_lwe_l0(&c.borrow(), &fx.sk) as u64],
            Any::Lwe1(c) => vec![fx.enc.decrypt_lwe_l1(&c.borrow(), &fx.sk) as u64],
            Any::Glwe(c) => fx.enc.decrypt_glwe_l1(&c.borrow(), &fx.sk).coeffs().to_vec(),
            Any::Ggsw(c) => vec![fx.enc.decrypt_ggsw_l1(&c.borrow(), &fx.sk) as u64],
            Any::Glev(c) => fx.enc.decrypt_glev_l1(&c.borrow(), &fx.sk).coeffs().to_vec(),
        }
    }
    fn input(&self) -> O {
        match self {
            Any::Lwe0(c) => O::InputLwe0(c.clone()),
            Any::Lwe1(c) => O::InputLwe1(c.clone()),
            Any::Glwe(c) => O::InputGlwe1(c.clone()),
            Any::Ggsw(c) => O::InputGgsw1(c.clone()),
            Any::Glev(c) => O::InputGlev1(c.clone()),
        }
    }
    fn output(&self) -> O {
        match self {
            Any::Lwe0(c) => O::OutputLwe0(c.clone()),
            Any::Lwe1(c) => O::OutputLwe1(c.clone()),
            Any::Glwe(c) => O::OutputGlwe1(c.clone()),
            Any::Ggsw(c) => O::OutputGgsw1(c.clone()),
            Any::Glev(c) => O::OutputGlev1(c.clone()),
        }
    }
    fn key(&self) -> usize {
        match self {
            Any::Lwe0(c) => key(c),
            Any::Lwe1(c) => key(c),
            Any::Glwe(c) => key(c),
            Any::Ggsw(c) => key(c),
            Any::Glev(c) => key(c),
        }
    }
}

/// A circuit under construction, with its inputs and outputs.
struct Build {
    c: FheCircuit,
    /// Input cells and the coefficients that carry variable bits.
    ins: Vec<(Any, Vec<usize>)>,
    outs: Vec<Any>,
}

impl Build {
    fn new() -> Build {
        Build { c: FheCircuit::new(), ins: vec![], outs: vec![] }
    }
    fn input(&mut self, fx: &Fx, t: T, coeffs: &[usize]) -> NodeIndex {
        let a = Any::blank(fx, t);
        let i = self.c.add_node(a.input());
        self.ins.push((a, coeffs.to_vec()));
        i
    }
    fn output(&mut self, fx: &Fx, t: T, from: NodeIndex) {
        let a = Any::blank(fx, t);
        let i = self.c.add_node(a.output());
        self.c.add_edge(from, i, E::Unary);
        self.outs.push(a);
    }
    fn op(&mut self, o: O, args: &[(NodeIndex, E)]) -> NodeIndex {
        let i = self.c.add_node(o);
        for (a, e) in args {
            self.c.add_edge(*a, i, *e);
        }
        i
    }
    /// Run on every assignment of the input bits and compare every output with the plain meaning.
    fn check(&self, fx: &Fx, cx: &mut Cx) -> R {
        let mut p = Prog::default();
        let mut env = HashMap::new();
        for (a, co) in &self.ins {
            env.insert(a.key(), co.iter().map(|k| (*k, p.input())).collect::<Poly>());
        }
        let f = flatten(&self.c, fx.n(), &env, &mut p)?;
        sweep(&p, |base, lanes, slots| {
            for l in 0..lanes {
                let asg = base + l as u64;
                let mut bit = 0;
                for (a, co) in &self.ins {
                    let m: Vec<_> = co.iter().map(|k| { bit += 1; (*k, asg >> (bit - 1) & 1 == 1) }).collect();
                    a.put(fx, &m);
                }
                fx.run(&self.c)?;
                cx.transitions += self.c.node_count() as u64;
                for (oi, o) in self.outs.iter().enumerate() {
                    let (_, want) = &f.out[&o.key()];
                    for (k, g) in o.get(fx).iter().enumerate() {
                        let w = want.get(&k).map_or(0, |s| slots[*s] >> l & 1);
                        ensure!(*g == w, "input bits {asg:#b}: output {oi} coefficient {k} decrypts to {g}, the plain circuit gives {w}");
                    }
                    cx.ev(asg != 0);
                }
            }
            Ok(())
        })?;
        Ok(())
    }
}

/// All ways of applying one more operation to typed values.
fn moves(have: &[T], n: usize) -> Vec<(O, Vec<(usize, E)>, T)> {
    let of = |t: T| have.iter().enumerate().filter(move |x| *x.1 == t).map(|x| x.0).collect::<Vec<_>>();
    let (l0, l1, g, s, v) = (of(KINDS[0]), of(KINDS[1]), of(KINDS[2]), of(KINDS[3]), of(KINDS[4]));
    let mut m = vec![];
    for a in &g {
        for k in [0, 1, n - 1] {
            m.push((O::SampleExtract(k), vec![(*a, E::Unary)], T::L1LweCiphertext));
        }
        for k in [0, 1, n - 1] {
            m.push((O::MulXN(k), vec![(*a, E::Unary)], T::L1GlweCiphertext));
        }
        m.push((O::Not, vec![(*a, E::Unary)], T::L1GlweCiphertext));
        for b in &g {
            m.push((O::GlweAdd, vec![(*a, E::Left), (*b, E::Right)], T::L1GlweCiphertext));
            for c in &s {
                m.push((O::CMux, vec![(*a, E::Low), (*b, E::High), (*c, E::Sel)], T::L1GlweCiphertext));
            }
        }
        for c in &s {
            m.push((O::MultiplyGgswGlwe, vec![(*a, E::Glwe), (*c, E::Ggsw)], T::L1GlweCiphertext));
        }
    }
    for a in &v {
        m.push((O::SchemeSwitch, vec![(*a, E::Unary)], T::L1GgswCiphertext));
        for b in &v {
            for c in &s {
                m.push((O::GlevCMux, vec![(*a, E::Low), (*b, E::High), (*c, E::Sel)], T::L1GlevCiphertext));
            }
        }
    }
    for a in &l1 {
        m.push((O::KeyswitchL1toL0, vec![(*a, E::Unary)], T::L0LweCiphertext));
    }
    for a in &l0 {
        m.push((O::CircuitBootstrap, vec![(*a, E::Unary)], T::L1GgswCiphertext));
    }
    for (o, t) in [
        (O::ZeroLwe0, T::L0LweCiphertext), (O::OneLwe0, T::L0LweCiphertext), (O::ZeroGlwe1, T::L1GlweCiphertext), (O::OneGlwe1, T::L1GlweCiphertext),
        (O::ZeroGgsw1, T::L1GgswCiphertext), (O::OneGgsw1, T::L1GgswCiphertext), (O::ZeroGlev1, T::L1GlevCiphertext), (O::OneGlev1, T::L1GlevCiphertext),
    ] {
        m.push((o, vec![], t));
    }
    m
}

fn program(b: &mut Build, fx: &Fx, first: &[NodeIndex], types: &[T], path: &[usize]) -> bool {
    let mut nodes = first.to_vec();
    let mut ty = types.to_vec();
    for p in path {
        let ms = moves(&ty, fx.n());
        let Some((o, args, t)) = ms.get(*p) else { return false };
        let args: Vec<_> = args.iter().map(|(i, e)| (nodes[*i], *e)).collect();
        let i = b.op(o.clone(), &args);
        b.output(fx, *t, i);
        nodes.push(i);
        ty.push(*t);
    }
    true
}

/// Named small circuits of every generator.
fn gens(w: usize) -> Vec<(String, MuxCircuit)> {
    let mut v: Vec<(String, MuxCircuit)> = vec![];
    let mut a = |s: String, c: MuxCircuit| v.push((s, c));
    for n in 1..=w {
        a(format!("and{n}"), and::make_and_circuit(n as u16));
        a(format!("or{n}"), or::make_or_circuit(n as u16));
        for c in [false, true] {
            for m in 1..=w {
                a(format!("add{n}-{m}-{c}"), add::ripple_carry_adder(n, m, c));
            }
            a(format!("sub{n}-{c}"), sub::full_subtractor(n, c));
            for d in [false, true] {
                a(format!("cmp{n}-{c}-{d}"), comparisons::compare_or_maybe_equal(n, c, d));
                a(format!("scmp{n}-{c}-{d}"), comparisons::compare_or_maybe_equal_signed(n, c, d));
            }
        }
        a(format!("eq{n}"), comparisons::compare_equal(n));
        a(format!("ne{n}"), comparisons::compare_not_equal(n));
        a(format!("neg{n}"), neg::negator(n));
        for m in 1..=w {
            a(format!("mul{n}-{m}"), mul::unsigned_multiplier(n, m));
        }
    }
    for n in [2u16, 4] {
        for (d, dn) in [(bitshift::ShiftDirection::Left, "l"), (bitshift::ShiftDirection::Right, "r")] {
            for (m, mn) in [(bitshift::ShiftMode::Logical, "l"), (bitshift::ShiftMode::Arithmetic, "a"), (bitshift::ShiftMode::Rotation, "r")] {
                if (dn, mn) == ("l", "a") { continue; }
                a(format!("shift{n}-{dn}{mn}"), bitshift::bitshift(n, n.trailing_zeros() as u16, d, m));
            }
        }
    }
    v
}

/// What the circuit computes, read off its own graph.
fn mux_slots(c: &MuxCircuit, inputs: &[Slot], p: &mut Prog) -> Result<Vec<Slot>, String> {
    fn val(c: &MuxCircuit, i: NodeIndex, inputs: &[Slot], p: &mut Prog, memo: &mut HashMap<NodeIndex, Slot>) -> Slot {
        if let Some(s) = memo.get(&i) {
            return *s;
        }
        let get = |w: fn(&MuxEdgeInfo) -> bool| c.graph.edges_directed(i, Direction::Incoming).find(|e| w(e.weight())).unwrap().source();
        let s = match c.graph[i] {
            MuxOp::Zero => p.constant(false),
            MuxOp::One => p.constant(true),
            MuxOp::Variable(k) => inputs[k as usize],
            MuxOp::Output(_) => { let j = c.graph.neighbors_directed(i, Direction::Incoming).next().unwrap(); val(c, j, inputs, p, memo) }
            MuxOp::Mux => {
                let (l, h, s) = (get(|e| matches!(e, MuxEdgeInfo::Low)), get(|e| matches!(e, MuxEdgeInfo::High)), get(|e| matches!(e, MuxEdgeInfo::Select)));
                let (l, h, s) = (val(c, l, inputs, p, memo), val(c, h, inputs, p, memo), val(c, s, inputs, p, memo));
                p.mux(s, l, h)
            }
        };
        memo.insert(i, s);
        s
    }
    let mut memo = HashMap::new();
    let mut outs = std::collections::BTreeMap::new();
    for i in c.graph.node_indices() {
        if let MuxOp::Output(k) = c.graph[i] {
            outs.insert(k, val(c, i, inputs, p, &mut memo));
        }
    }
    Ok(outs.into_values().collect())
}

/// Insert into an existing circuit (whose nodes must stay as they are) and compare on all inputs.
fn inserted(fx: &Fx, c: &MuxCircuit, glev: bool, cx: &mut Cx) -> R {
    let mut b = Build::new();
    // something already there
    let g = b.input(fx, T::L1GlweCiphertext, &[0]);
    let nt = b.op(O::Not, &[(g, E::Unary)]);
    b.output(fx, T::L1GlweCiphertext, nt);
    // the kinds of node a boolean circuit may be driven by, in turn
    let nodes: Vec<_> = (0..c.inputs.len()).map(|i| match i % 3 {
        0 => b.input(fx, T::L1GgswCiphertext, &[0]),
        1 => { let x = b.input(fx, T::L0LweCiphertext, &[0]); b.op(O::CircuitBootstrap, &[(x, E::Unary)]) }
        _ => { let x = b.input(fx, T::L1GlevCiphertext, &[0]); b.op(O::SchemeSwitch, &[(x, E::Unary)]) }
    }).collect();
    let before = b.c.node_count();
    let mode = if glev { L1GlevCiphertext::MUX_MODE } else { L1GlweCiphertext::MUX_MODE };
    let out = b.c.insert_mux_circuit(c, &nodes, mode);
    let ty = if glev { T::L1GlevCiphertext } else { T::L1GlweCiphertext };
    let mut p = Prog::default();
    let mut env = HashMap::new();
    let mut ins = vec![];
    for (a, _) in &b.ins {
        let s = p.input();
        ins.push(s);
        env.insert(a.key(), Poly::from([(0, s)]));
    }
    let f = flatten(&b.c, fx.n(), &env, &mut p)?;
    let want = mux_slots(c, &ins[1..], &mut p)?;
    ensure!(out.len() == want.len(), "{} outputs for {}", out.len(), want.len());
    let mut got = vec![];
    for o in &out {
        let (t, v) = &f.node[o];
        ensure!(*t == Some(ty), "an output of kind {t:?}");
        ensure!(v.keys().all(|k| *k == 0), "an output with coefficients {v:?}");
        got.push(v.get(&0).copied().unwrap_or(p.constant(false)));
    }
    let (pre, _) = &b.outs.iter().map(|o| f.out[&o.key()].clone()).map(|(t, v)| (v[&0], t)).next().unwrap();
    let pre_want = ins[0];
    ensure!(b.c.node_count() > before || c.graph.node_weights().all(|w| !matches!(w, MuxOp::Mux)), "nothing was inserted");
    let k = sweep(&p, |base, lanes, s| {
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            let d = (s[*g] ^ s[*w]) & (!0 >> (64 - lanes));
            ensure!(d == 0, "inputs {:#b}: output {i} is wrong", base + d.trailing_zeros() as u64);
        }
        ensure!((s[*pre] ^ !s[pre_want]) & (!0 >> (64 - lanes)) == 0, "what was in the circuit before changed its meaning");
        Ok(())
    })?;
    cx.evals += k;
    cx.nt += k - 1;
    Ok(())
}

/// All edge multisets of a DAG over `n` nodes with at most two parallel edges per pair.
fn prune_all(n: usize, cx: &mut Cx) -> R {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
    // node numbering permuted, so that indices are not topologically sorted
    let perms: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    for code in 0..3u64.pow(pairs.len() as u32) {
        for pm in &perms {
            for hole in [false, true] {
                let mut g: StableGraph<u32, u32> = StableGraph::new();
                if hole {
                    g.add_node(99);
                }
                let idx: Vec<NodeIndex> = (0..n).map(|i| g.add_node(i as u32)).collect();
                if hole {
                    g.remove_node(NodeIndex::new(0));
                }
                let mut edges = BTreeSet::new();
                let mut c = code;
                let mut id = 0;
                for (a, b) in &pairs {
                    for _ in 0..c % 3 {
                        g.add_edge(idx[pm[*a]], idx[pm[*b]], id);
                        edges.insert((pm[*a], pm[*b], id));
                        id += 1;
                    }
                    c /= 3;
                }
                // target lists: every subset, and a list with a repetition
                for t in 0..1usize << n {
                    let mut ts: Vec<usize> = (0..n).filter(|i| t >> i & 1 == 1).collect();
                    if t % 3 == 1 && !ts.is_empty() {
                        ts.push(ts[0]);
                    }
                    let mut keep: BTreeSet<usize> = ts.iter().copied().collect();
                    loop {
                        let more: Vec<usize> = edges.iter().filter(|e| keep.contains(&e.1) && !keep.contains(&e.0)).map(|e| e.0).collect();
                        if more.is_empty() { break; }
                        keep.extend(more);
                    }
                    let (h, ren) = prune(&g, &ts.iter().map(|i| idx[*i]).collect::<Vec<_>>());
                    cx.ev(t != 0);
                    let nodes: BTreeSet<usize> = ren.keys().map(|k| idx.iter().position(|x| x == k).unwrap()).collect();
                    ensure!(nodes == keep, "edges {edges:?} targets {ts:?}: kept {nodes:?}, expected {keep:?}");
                    ensure!(h.node_count() == keep.len(), "edges {edges:?} targets {ts:?}: {} nodes for {}", h.node_count(), keep.len());
                    let back: HashMap<NodeIndex, usize> = ren.iter().map(|(o, n)| (*n, idx.iter().position(|x| x == o).unwrap())).collect();
                    ensure!(back.len() == keep.len(), "two nodes became one");
                    ensure!(back.iter().all(|(i, w)| h.node_weight(*i) == Some(&(*w as u32))), "a node changed its contents");
                    let got: Vec<(usize, usize, u32)> = h.edge_references().map(|e| (back[&e.source()], back[&e.target()], *e.weight())).collect();
                    let gs: BTreeSet<_> = got.iter().copied().collect();
                    let want: BTreeSet<_> = edges.iter().filter(|e| keep.contains(&e.1)).copied().collect();
                    ensure!(gs == want && got.len() == want.len(), "edges {edges:?} targets {ts:?}: edges {got:?}, expected {want:?}");
                }
            }
        }
    }
    Ok(())
}

pub fn param_sets() -> Vec<(&'static str, Params)> {
    vec![("d2n64k1", params(2, 64, 1, rad(4, 8))), ("d3n64k2", params(3, 64, 2, rad(2, 10))), ("d2n128k1", params(2, 128, 1, rad(3, 9)))]
}

pub fn run() {
    let mut ck = Ck::new("R01", "exploration", "an input assignment other than all zeros");
    ck.assume("small noise-free parameter sets (level-0 dimension 2-3, degree 64-128, sizes 1 and 2)");
    let sets = param_sets();
    let fxs: Vec<(&str, Fx)> = sets.iter().map(|(n, p)| (*n, Fx::new(p.clone()))).collect();

    // the kind conversions, alone and in chains
    let mut items = vec![];
    for (fi, _) in fxs.iter().enumerate() {
        for a in KINDS {
            for b in KINDS {
                for c in KINDS {
                    items.push((fi, vec![a, b, c]));
                    if ck.thorough {
                        for d in KINDS {
                            items.push((fi, vec![a, b, c, d]));
                        }
                    }
                }
            }
        }
    }
    ck.par("convert", &items, |(f, c)| format!("{} {c:?}", fxs[*f].0), |(f, chain), cx| {
        let fx = &fxs[*f].1;
        let mut b = Build::new();
        let mut at = b.input(fx, chain[0], &[0]);
        b.output(fx, chain[0], at);
        for w in chain.windows(2) {
            at = insert_ciphertext_conversion(&mut b.c, at, w[0], w[1]);
            b.output(fx, w[1], at);
        }
        // the conversion must keep the bit
        let mut p = Prog::default();
        let s = p.input();
        let fl = flatten(&b.c, fx.n(), &HashMap::from([(b.ins[0].0.key(), Poly::from([(0, s)]))]), &mut p)?;
        for (i, o) in b.outs.iter().enumerate() {
            let (t, v) = &fl.out[&o.key()];
            ensure!(*t == chain[i], "conversion gives {t:?} for {:?}", chain[i]);
            sweep(&p, |_, _, sl| { for (k, x) in v { let w = if *k == 0 { 2 } else { 0 }; ensure!(sl[*x] & 3 == w, "the conversion changes the bit"); } ensure!(v.contains_key(&0), "the conversion loses the bit"); Ok(()) })?;
        }
        b.check(fx, cx)
    });

    // every program of one, two (three) operations over one value of each kind
    let depth = ck.tier(3, 4);
    let mut items = vec![];
    for (fi, (_, fx)) in fxs.iter().enumerate() {
                let firsts = [T::L1GlweCiphertext, T::L1GgswCiphertext, T::L1GlevCiphertext, T::L0LweCiphertext, T::L1LweCiphertext];
        for i in 0..moves(&firsts, fx.n()).len() {
            items.push((fi, i));
        }
    }
    ck.par("programs", &items, |(f, i)| format!("{} first operation {i}", fxs[*f].0), |(f, i), cx| {
        let fx = Fx::new(sets[*f].1.clone());
        let firsts = [T::L1GlweCiphertext, T::L1GgswCiphertext, T::L1GlevCiphertext, T::L0LweCiphertext, T::L1LweCiphertext];
        let coeffs: [&[usize]; 5] = [&[0, fx.n() - 1], &[0], &[0], &[0], &[0]];
        let mut path = vec![*i];
        loop {
            let mut b = Build::new();
            // only the inputs that are used
            let nodes: Vec<_> = firsts.iter().zip(coeffs).map(|(t, c)| b.input(&fx, *t, c)).collect();
            let ok = program(&mut b, &fx, &nodes, &firsts, &path);
            if ok {
                cx.states += 1;
                let unused: Vec<usize> = (0..5).filter(|i| b.c.neighbors_directed(nodes[*i], Direction::Outgoing).count() == 0).collect();
                for u in unused.iter().rev() {
                    b.c.remove_node(nodes[*u]);
                    b.ins.remove(*u);
                }
                // the other outputs were looked at in the shorter programs
                let keep = b.outs.len() - 1;
                b.outs.drain(..keep);
                let e = b.check(&fx, cx);
                // an operation that a constraint of the plain meaning forbids is skipped
                match e { Err(m) if m.contains("switches a polynomial message") => cx.evals += 0, Err(m) => return Err(format!("program {path:?}: {m}")), Ok(()) => {} }
            }
            // next path in depth-first order, up to the depth
            if ok && path.len() < depth {
                path.push(0);
            } else if ok {
                *path.last_mut().unwrap() += 1;
            } else {
                path.pop();
                if path.len() <= 1 { return Ok(()); }
                *path.last_mut().unwrap() += 1;
            }
        }
    });

    // boolean circuits inserted: on plain bits for all inputs, and run encrypted
    let gs = gens(ck.tier(5, 6));
    let items: Vec<(usize, bool)> = (0..gs.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    ck.par("insert", &items, |(i, g)| format!("{} {}", gs[*i].0, if *g { "glev" } else { "glwe" }), |(i, g), cx| inserted(&fxs[0].1, &gs[*i].1, *g, cx));
    let small = gens(3);
    let lim = ck.tier(5, 6);
    let items: Vec<(usize, bool, usize)> = (0..small.len()).filter(|i| small[*i].1.inputs.len() <= lim).flat_map(|i| (0..fxs.len()).flat_map(move |f| [(i, false, f), (i, true, f)])).collect();
    ck.par("encrypted", &items, |(i, g, f)| format!("{} {} {}", small[*i].0, if *g { "glev" } else { "glwe" }, fxs[*f].0), |(i, g, f), cx| {
        let fx = &fxs[*f].1;
        let c = &small[*i].1;
        let mut b = Build::new();
        let nodes: Vec<_> = (0..c.inputs.len()).map(|_| b.input(fx, T::L1GgswCiphertext, &[0])).collect();
        let (mode, ty) = if *g { (L1GlevCiphertext::MUX_MODE, T::L1GlevCiphertext) } else { (L1GlweCiphertext::MUX_MODE, T::L1GlweCiphertext) };
        for o in b.c.insert_mux_circuit(c, &nodes, mode) {
            b.output(fx, ty, o);
            let s = insert_ciphertext_conversion(&mut b.c, o, ty, T::L1GgswCiphertext);
            b.output(fx, T::L1GgswCiphertext, s);
        }
        b.check(fx, cx)
    });
    // the helper that also makes input and output nodes
    let items: Vec<(usize, usize)> = (0..small.len()).filter(|i| small[*i].1.inputs.len() <= lim).flat_map(|i| (0..fxs.len()).map(move |f| (i, f))).collect();
    ck.par("connected", &items, |(i, f)| format!("{} {}", small[*i].0, fxs[*f].0), |(i, f), cx| {
        let fx = &fxs[*f].1;
        let c = &small[*i].1;
        let mut g = FheCircuit::new();
        let k = c.inputs.len();
        let ins: Vec<_> = (0..k).map(|_| cell(fx.enc.allocate_glwe_l1())).collect();
        let outs = g.insert_mux_circuit_and_connect_inputs(c, &ins, &fx.enc);
        let mut p = Prog::default();
        let sl: Vec<_> = (0..k).map(|_| p.input()).collect();
        let want = mux_slots(c, &sl, &mut p)?;
        ensure!(outs.len() == want.len(), "{} outputs for {}", outs.len(), want.len());
        sweep(&p, |base, lanes, s| {
            for l in 0..lanes {
                for (j, x) in ins.iter().enumerate() {
                    *x.borrow_mut() = fx.enc.encrypt_glwe_l1_secret(&poly(fx.n(), &[(0, (base + l as u64) >> j & 1 == 1)]), &fx.sk);
                }
                fx.run(&g)?;
                for (j, o) in outs.iter().enumerate() {
                    let v = fx.enc.decrypt_glwe_l1(&o.borrow(), &fx.sk).coeffs().to_vec();
                    ensure!(v[0] == s[want[j]] >> l & 1 && v[1..].iter().all(|x| *x == 0), "inputs {:#b}: output {j} decrypts to {v:?}", base + l as u64);
                    cx.ev(base + l as u64 != 0);
                }
            }
            Ok(())
        })?;
        Ok(())
    });

    ck.par("prune", &(1..=ck.tier(5usize, 5)).collect::<Vec<_>>(), |n| format!("{n} nodes"), |n, cx| prune_all(*n, cx));

    // one-time pads
    let items: Vec<usize> = (0..fxs.len()).filter(|i| fxs[*i].1.pk.is_some()).collect();
    ck.par("otp", &items, |i| fxs[*i].0.to_string(), |i, cx| {
        let fx = &fxs[*i].1;
        let n = fx.n();
        let ke = KeylessEvaluation::new(&fx.p, &fx.enc);
        let pk = fx.pk.as_ref().unwrap();
        let mut pads = BTreeSet::new();
        for pad in 0..ck_pads() {
            let (pb, sc) = generate_one_time_pad(&fx.p, &fx.enc, pk);
            let zero = Polynomial::zero(n);
            let key = decrypt_one_time_pad(&zero, &sc).coeffs().to_vec();
            pads.insert(key.clone());
            for m in 0..n + 4 {
                let mut msg = Polynomial::<u64>::zero(n);
                for k in 0..n {
                    msg.coeffs_mut()[k] = match m { 0 => 0, 1 => 1, 2 => k as u64 & 1, 3 => (k as u64 >> 1) & 1, _ => (k == m - 4) as u64 };
                }
                let ct = if pad % 2 == 0 { fx.enc.encrypt_rlwe_l1(&msg, pk) } else { fx.enc.encrypt_glwe_l1_secret(&msg, &fx.sk) };
                let r = recrypt_one_time_pad(&ct, &pb, &ke, &fx.enc);
                let masked = fx.enc.decrypt_glwe_l1(&r, &fx.sk);
                for k in 0..n {
                    ensure!(masked.coeffs()[k] == msg.coeffs()[k] ^ key[k], "coefficient {k} of message {m} is not masked by the pad");
                }
                same!(cx, decrypt_one_time_pad(&masked, &sc).coeffs().to_vec(), msg.coeffs().to_vec(), "message {m} under pad {pad}");
            }
        }
        ensure!(pads.len() == ck_pads(), "pads repeat");
        Ok(())
    });
    ck.finish();
}

fn ck_pads() -> usize {
    8
}
