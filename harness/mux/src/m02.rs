//! M02: circuit construction, optimisation, input remapping and storage preserve the function.
use crate::prog::*;
use biodivine_lib_bdd::{Bdd, BddVariableSet};
use mc::*;
use mux_circuits::*;
use petgraph::stable_graph::{NodeIndex, StableGraph};

/// The function with truth table `t` over `n` variables (assignment x has variable i = bit i).
fn bdd(vs: &BddVariableSet, n: usize, t: u64) -> Bdd {
    fn go(vs: &BddVariableSet, n: usize, t: u64, v: usize, fixed: u64) -> Bdd {
        if v == n {
            return if t >> fixed & 1 == 1 { vs.mk_true() } else { vs.mk_false() };
        }
        let x = vs.mk_var(vs.variables()[v]);
        let lo = go(vs, n, t, v + 1, fixed);
        let hi = go(vs, n, t, v + 1, fixed | 1 << v);
        x.and(&hi).or(&x.not().and(&lo))
    }
    go(vs, n, t, 0, 0)
}

/// Truth tables of all outputs (up to 6 inputs).
fn tables(p: &Prog) -> Vec<u64> {
    const L: [u64; 6] = [
        0xaaaa_aaaa_aaaa_aaaa, 0xcccc_cccc_cccc_cccc, 0xf0f0_f0f0_f0f0_f0f0,
        0xff00_ff00_ff00_ff00, 0xffff_0000_ffff_0000, 0xffff_ffff_0000_0000,
    ];
    let inp: Vec<[u64; 1]> = (0..p.inputs).map(|i| [L[i]]).collect();
    let mut buf = vec![];
    p.eval::<1>(&inp, &mut buf);
    let m = if p.inputs == 6 { !0 } else { (1u64 << (1 << p.inputs)) - 1 };
    p.outs.iter().map(|o| buf[*o as usize][0] & m).collect()
}

/// The circuit is well formed, has these inputs and computes these tables.
fn is(cx: &mut Cx, what: &str, c: &MuxCircuit, inputs: usize, want: &[u64]) -> R {
    let p = Prog::new(c).map_err(|e| format!("{what}: malformed circuit: {e}"))?;
    cx.ev(true);
    ensure!(p.inputs == inputs, "{what}: {} inputs, expected {inputs}", p.inputs);
    ensure!(p.outs.len() == want.len(), "{what}: {} outputs, expected {}", p.outs.len(), want.len());
    let g = tables(&p);
    ensure!(g == want, "{what}: truth tables {g:x?}, expected {want:x?}");
    let m = c.metrics();
    ensure!(m.inputs == inputs && m.outputs == want.len(), "{what}: metrics {m:?}");
    Ok(())
}

/// The repository's own evaluator agrees on every assignment.
fn own(cx: &mut Cx, what: &str, c: &MuxCircuit, inputs: usize, want: &[u64]) -> R {
    for x in 0..1u64 << inputs {
        let inp: Vec<Bit> = (0..inputs).map(|i| Bit(x >> i & 1 == 1)).collect();
        let got: Vec<bool> = catch(|| test_mux_circuit(c, &inp)).map_err(|e| format!("{what}: test_mux_circuit panicked: {e}"))?.iter().map(|b| b.0).collect();
        let w: Vec<bool> = want.iter().map(|t| t >> x & 1 == 1).collect();
        cx.ev(true);
        ensure!(got == w, "{what}: test_mux_circuit on {x:#b}: {} expected {}", show(&got), show(&w));
    }
    Ok(())
}

fn muxes(c: &MuxCircuit) -> usize {
    c.metrics().mux_gates
}

fn optimised(cx: &mut Cx, what: &str, c: &MuxCircuit, inputs: usize, want: &[u64]) -> Result<MuxCircuit, String> {
    let before = muxes(c);
    let mut o = c.clone();
    catch(|| o.optimize()).map_err(|e| format!("{what}: optimize panicked: {e}"))?;
    is(cx, what, &o, inputs, want)?;
    ensure!(muxes(&o) <= before, "{what}: optimising added gates");
    Ok(o)
}

/// Replace variables by others: variable i of the old function reads variable f[i] of the new.
fn compose(t: u64, n: usize, f: &[u32], m: usize) -> u64 {
    let mut r = 0;
    for y in 0..1u64 << m {
        let x = (0..n).fold(0u64, |x, i| x | (y >> f[i] & 1) << i);
        r |= (t >> x & 1) << y;
    }
    r
}

/// All maps from n inputs onto m.
fn onto(n: usize, m: usize) -> Vec<Vec<u32>> {
    let mut r = vec![];
    for k in 0..m.pow(n as u32) {
        let f: Vec<u32> = (0..n).map(|i| (k / m.pow(i as u32) % m) as u32).collect();
        if (0..m as u32).all(|v| f.contains(&v)) {
            r.push(f);
        }
    }
    r
}

fn from_tables(cx: &mut Cx, n: usize, ts: &[u64], deep: bool) -> R {
    let vs = BddVariableSet::new_anonymous(n as u16);
    let bs: Vec<Bdd> = ts.iter().map(|t| bdd(&vs, n, *t)).collect();
    let c = MuxCircuit::from(bs.as_slice());
    is(cx, "from BDDs", &c, n, ts)?;
    let o = optimised(cx, "optimised", &c, n, ts)?;
    if !deep {
        return Ok(());
    }
    own(cx, "from BDDs", &c, n, ts)?;
    own(cx, "optimised", &o, n, ts)?;
    optimised(cx, "optimised twice", &o, n, ts)?;
    let b = bincode::serialize(&o).map_err(|e| e.to_string())?;
    let d: MuxCircuit = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    is(cx, "stored and loaded", &d, n, ts)?;
    for m in 1..=n {
        for f in onto(n, m) {
            let w: Vec<u64> = ts.iter().map(|t| compose(*t, n, &f, m)).collect();
            for (what, src) in [("remapped", &c), ("optimised, remapped", &o)] {
                let mut r = src.clone();
                r.remap_inputs(m as u32, || f.clone());
                let what = format!("{what} by {f:?}");
                is(cx, &what, &r, m, &w)?;
                own(cx, &what, &r, m, &w)?;
                let ro = optimised(cx, &format!("{what}, optimised"), &r, m, &w)?;
                // and once more, reversing the inputs
                let g: Vec<u32> = (0..m as u32).rev().collect();
                let w2: Vec<u64> = w.iter().map(|t| compose(*t, m, &g, m)).collect();
                let mut r2 = ro.clone();
                r2.remap_inputs(m as u32, || g.clone());
                is(cx, &format!("{what}, optimised, reversed"), &r2, m, &w2)?;
            }
        }
    }
    Ok(())
}

/// A hand-shaped graph: `vars` inputs, both constants, then muxes over all earlier nodes, then outputs.
#[derive(Clone, Debug)]
struct Shape {
    vars: usize,
    /// select, high, low: index into inputs, constants (Zero, One), earlier muxes
    mux: Vec<[usize; 3]>,
    outs: Vec<usize>,
}

impl Shape {
    fn tables(&self) -> Vec<u64> {
        let m = (1u64 << (1 << self.vars)) - 1;
        let mut v: Vec<u64> = [0xaaaau64, 0xcccc, 0xf0f0][..self.vars].iter().map(|x| x & m).collect();
        v.push(0);
        v.push(m);
        for [s, h, l] in &self.mux {
            v.push((v[*s] & v[*h] | !v[*s] & v[*l]) & m);
        }
        self.outs.iter().map(|o| v[*o]).collect()
    }
    /// `order` varies the order of insertion of nodes and edges.
    fn build(&self, order: usize) -> MuxCircuit {
        let mut g = StableGraph::new();
        let mut n: Vec<NodeIndex> = vec![];
        let mut outs = vec![NodeIndex::default(); self.outs.len()];
        let mut put_outs = |g: &mut StableGraph<MuxOp, MuxEdgeInfo>, rev: bool| {
            let mut k: Vec<usize> = (0..outs.len()).collect();
            if rev {
                k.reverse();
            }
            for i in k {
                outs[i] = g.add_node(MuxOp::Output(i as u32));
            }
        };
        if order & 1 == 1 {
            put_outs(&mut g, true);
        }
        let inputs: Vec<NodeIndex> = if order & 2 == 2 {
            let mut v: Vec<_> = (0..self.vars).rev().map(|i| g.add_node(MuxOp::Variable(i as u32))).collect();
            v.reverse();
            v
        } else {
            (0..self.vars).map(|i| g.add_node(MuxOp::Variable(i as u32))).collect()
        };
        n.extend(&inputs);
        n.push(g.add_node(MuxOp::Zero));
        n.push(g.add_node(MuxOp::One));
        for _ in &self.mux {
            n.push(g.add_node(MuxOp::Mux));
        }
        if order & 1 == 0 {
            put_outs(&mut g, false);
        }
        let mut edges = vec![];
        for (i, [s, h, l]) in self.mux.iter().enumerate() {
            let d = n[self.vars + 2 + i];
            edges.push((n[*s], d, MuxEdgeInfo::Select));
            edges.push((n[*h], d, MuxEdgeInfo::High));
            edges.push((n[*l], d, MuxEdgeInfo::Low));
        }
        for (i, o) in self.outs.iter().enumerate() {
            edges.push((n[*o], outs[i], MuxEdgeInfo::Output));
        }
        if order & 4 == 4 {
            edges.reverse();
        }
        for (a, b, w) in edges {
            g.add_edge(a, b, w);
        }
        MuxCircuit { graph: g, inputs }
    }
    fn check(&self, cx: &mut Cx, orders: &[usize]) -> R {
        let want = self.tables();
        for &k in orders {
            let c = self.build(k);
            let w = |e: String| format!("{self:?}, insertion order {k}: {e}");
            is(cx, "as built", &c, self.vars, &want).map_err(w)?;
            own(cx, "as built", &c, self.vars, &want).map_err(w)?;
            let o = optimised(cx, "optimised", &c, self.vars, &want).map_err(w)?;
            own(cx, "optimised", &o, self.vars, &want).map_err(w)?;
            for f in [vec![1, 0, 2], vec![0, 0, 0]] {
                let f = &f[..self.vars];
                let m = *f.iter().max().unwrap() as usize + 1;
                if m <= self.vars && self.vars <= 2 {
                    let w2: Vec<u64> = want.iter().map(|t| compose(*t, self.vars, f, m)).collect();
                    let mut r = c.clone();
                    catch(|| r.remap_inputs(m as u32, || f.to_vec())).map_err(|e| w(format!("remap_inputs panicked: {e}")))?;
                    is(cx, "remapped", &r, m, &w2).map_err(w)?;
                }
            }
        }
        Ok(())
    }
}

fn digits(mut k: usize, base: &[usize]) -> Vec<usize> {
    base.iter().map(|b| { let d = k % b; k /= b; d }).collect()
}

/// All graphs with the given number of inputs and gates whose k-th choice digit is `first`.
fn shapes(cx: &mut Cx, vars: usize, gates: usize, nouts: Option<usize>, sel_vars: bool, first: usize, orders: &[usize]) -> R {
    let mut base = vec![];
    for i in 0..gates {
        let avail = vars + 2 + i;
        base.extend([if sel_vars { vars } else { avail }, avail, avail]);
    }
    let total = vars + 2 + gates;
    if let Some(k) = nouts {
        base.extend(vec![total; k]);
    }
    let rest = &base[3..];
    let count: usize = rest.iter().product();
    let head = digits(first, &base[..3]);
    for k in 0..count {
        let mut d = head.clone();
        d.extend(digits(k, rest));
        let mux: Vec<[usize; 3]> = (0..gates).map(|i| [d[3 * i], d[3 * i + 1], d[3 * i + 2]]).collect();
        let outs = match nouts {
            Some(_) => d[3 * gates..].to_vec(),
            None => (vars + 2..total).rev().collect(),
        };
        Shape { vars, mux, outs }.check(cx, orders)?;
    }
    Ok(())
}

/// Several separate circuits built from the library, merged into one output list, still work: the
/// same function requested several times shares gates without changing anything.
fn repeats(cx: &mut Cx, n: usize, lo: u64, hi: u64) -> R {
    for t in lo..hi {
        let m = (1u64 << (1 << n)) - 1;
        from_tables(cx, n, &[t, t], false)?;
        from_tables(cx, n, &[t, t ^ m, t], false)?;
        from_tables(cx, n, &[t, 0, t, m], false)?;
    }
    Ok(())
}

pub fn run() {
    let ck = Ck::new("M02", "exploration", "a circuit whose complete truth tables were compared, or an assignment through the repository's evaluator");
    for n in 0..=2usize {
        let k = 1u64 << (1 << n);
        ck.case("one output", &format!("{n} inputs"), |cx| (0..k).try_for_each(|t| from_tables(cx, n, &[t], n > 0)));
        ck.case("two outputs", &format!("{n} inputs"), |cx| (0..k * k).try_for_each(|t| from_tables(cx, n, &[t % k, t / k], n > 0)));
        ck.case("three outputs", &format!("{n} inputs"), |cx| (0..k * k * k).try_for_each(|t| from_tables(cx, n, &[t % k, t / k % k, t / k / k], n > 0)));
    }
    ck.case("one output", "no outputs", |cx| is(cx, "no outputs", &MuxCircuit::from(&[][..]), 0, &[]));
    let b: Vec<u64> = (0..256).collect();
    let deep = ck.thorough;
    ck.par("one output", &b, |t| format!("3 inputs, {t:#x}"), |t, cx| from_tables(cx, 3, &[*t], true));
    ck.par("two outputs", &b, |t| format!("3 inputs, {t:#x}, all"), |t, cx| (0..256).try_for_each(|u| from_tables(cx, 3, &[*t, u], deep || u % 16 == 1)));
    ck.par("one output", &b, |t| format!("4 inputs, {:#x}..", t * 256), |t, cx| (t * 256..t * 256 + 256).try_for_each(|u| from_tables(cx, 4, &[u], false)));
    ck.par("repeated outputs", &b, |t| format!("4 inputs, {:#x}..", t * 256), |t, cx| repeats(cx, 4, t * 256, t * 256 + if deep { 256 } else { 32 }));
    let ord: Vec<usize> = (0..8).collect();
    let one: Vec<usize> = (0..27).collect();
    ck.par("graphs, 1 input, 2 gates", &one, |f| format!("first gate {f}"), |f, cx| shapes(cx, 1, 2, Some(2), false, *f, &ord));
    ck.par("graphs, 1 input, 3 gates", &one, |f| format!("first gate {f}"), |f, cx| shapes(cx, 1, 3, None, false, *f, if deep { &ord } else { &ord[..2] }));
    let two: Vec<usize> = (0..64).collect();
    ck.par("graphs, 2 inputs, 2 gates", &two, |f| format!("first gate {f}"), |f, cx| shapes(cx, 2, 2, Some(if deep { 2 } else { 1 }), false, *f, if deep { &ord } else { &ord[..2] }));
    ck.par("graphs, 2 inputs, 2 gates, both read", &two, |f| format!("first gate {f}"), |f, cx| shapes(cx, 2, 2, None, false, *f, &ord));
    let sel: Vec<usize> = (0..32).collect();
    ck.par("graphs, 2 inputs, 3 gates selected by inputs", &sel, |f| format!("first gate {f}"), |f, cx| shapes(cx, 2, 3, None, true, *f, if deep { &ord } else { &[0, 5] }));
    if ck.thorough {
        ck.par("graphs, 2 inputs, 3 gates", &two, |f| format!("first gate {f}"), |f, cx| shapes(cx, 2, 3, None, false, *f, &[0, 5]));
    }
    // one input, constants, five gates selected by the input: every pattern of duplicate subtrees
    let s1: Vec<usize> = (0..9).collect();
    ck.par("graphs, 1 input, 4 gates selected by the input", &s1, |f| format!("first gate {f}"), |f, cx| shapes(cx, 1, 4, None, true, *f, if deep { &ord } else { &[0, 5] }));
    if ck.thorough {
        ck.par("graphs, 1 input, 5 gates selected by the input", &s1, |f| format!("first gate {f}"), |f, cx| shapes(cx, 1, 5, None, true, *f, &[0, 5]));
    }
    ck.finish();
}
