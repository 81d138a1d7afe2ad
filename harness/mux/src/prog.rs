//! An independent reading of a multiplexer circuit: structure validation, a bit-parallel evaluator
//! and an explicit-state product exploration for circuits that test their inputs in a fixed order.
use mux_circuits::{MuxCircuit, MuxEdgeInfo, MuxOp};
use petgraph::visit::EdgeRef;
use petgraph::Direction;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum G {
    Const(bool),
    Var(u32),
    /// select, high, low
    Mux(u32, u32, u32),
}

/// Gates in dependency order.
#[derive(Clone)]
pub struct Prog {
    pub inputs: usize,
    pub gates: Vec<G>,
    /// gate of output i
    pub outs: Vec<u32>,
}

impl Prog {
    /// Fails when the circuit is not well formed as documented on `MuxOp`/`MuxCircuit`.
    pub fn new(c: &MuxCircuit) -> Result<Prog, String> {
        let g = &c.graph;
        let mut pos: HashMap<usize, u32> = HashMap::new();
        let mut gates = vec![];
        let mut outs: BTreeMap<u32, petgraph::graph::NodeIndex> = BTreeMap::new();
        let mut vars: BTreeMap<u32, petgraph::graph::NodeIndex> = BTreeMap::new();
        let mut stack = vec![];
        for n in g.node_indices() {
            let inc = g.edges_directed(n, Direction::Incoming).count();
            let want = match g[n] {
                MuxOp::Mux => 3,
                MuxOp::Output(_) => 1,
                _ => 0,
            };
            if inc != want {
                return Err(format!("node {n:?} ({:?}) has {inc} inputs", g[n]));
            }
            match g[n] {
                MuxOp::Output(i) => {
                    if outs.insert(i, n).is_some() {
                        return Err(format!("output {i} appears twice"));
                    }
                }
                MuxOp::Variable(i) => {
                    if vars.insert(i, n).is_some() {
                        return Err(format!("input {i} appears twice"));
                    }
                }
                _ => {}
            }
        }
        for (k, (i, _)) in outs.iter().enumerate() {
            if k as u32 != *i {
                return Err(format!("outputs are not 0..{}: {:?}", outs.len(), outs.keys().collect::<Vec<_>>()));
            }
        }
        if c.inputs.len() != vars.len() {
            return Err(format!("{} input nodes listed, {} in the graph", c.inputs.len(), vars.len()));
        }
        for (k, (i, n)) in vars.iter().enumerate() {
            if k as u32 != *i || c.inputs[k] != *n {
                return Err(format!("input list entry {k} does not name input variable {k}"));
            }
        }
        let arg = |n: petgraph::graph::NodeIndex| -> Result<[petgraph::graph::NodeIndex; 3], String> {
            let mut a = [None; 3];
            for e in g.edges_directed(n, Direction::Incoming) {
                let k = match e.weight() {
                    MuxEdgeInfo::Select => 0,
                    MuxEdgeInfo::High => 1,
                    MuxEdgeInfo::Low => 2,
                    MuxEdgeInfo::Output => return Err(format!("output edge into mux {n:?}")),
                };
                if a[k].replace(e.source()).is_some() {
                    return Err(format!("mux {n:?} has two inputs of one kind"));
                }
            }
            Ok([a[0].ok_or("no select")?, a[1].ok_or("no high")?, a[2].ok_or("no low")?])
        };
        let mut result = vec![];
        for (_, o) in &outs {
            let e = g.edges_directed(*o, Direction::Incoming).next().unwrap();
            if *e.weight() != MuxEdgeInfo::Output {
                return Err("output not fed by an output edge".into());
            }
            // iterative post-order; 1 = open, for cycle detection
            let mut open: HashMap<usize, ()> = HashMap::new();
            stack.push((e.source(), false));
            while let Some((n, done)) = stack.pop() {
                if pos.contains_key(&n.index()) {
                    continue;
                }
                match g[n] {
                    MuxOp::One => gates.push(G::Const(true)),
                    MuxOp::Zero => gates.push(G::Const(false)),
                    MuxOp::Variable(i) => gates.push(G::Var(i)),
                    MuxOp::Output(_) => return Err("an output feeds another node".into()),
                    MuxOp::Mux => {
                        let a = arg(n)?;
                        if !done {
                            if open.insert(n.index(), ()).is_some() {
                                return Err("cycle".into());
                            }
                            stack.push((n, true));
                            for k in a {
                                stack.push((k, false));
                            }
                            continue;
                        }
                        let p = |k: usize| pos.get(&a[k].index()).copied().ok_or_else(|| "cycle".to_string());
                        gates.push(G::Mux(p(0)?, p(1)?, p(2)?));
                    }
                }
                pos.insert(n.index(), gates.len() as u32 - 1);
            }
            result.push(pos[&e.source().index()]);
        }
        Ok(Prog { inputs: c.inputs.len(), gates, outs: result })
    }

    /// Evaluate on `W*64` assignments at once; `inp[i]` holds input i of every assignment.
    pub fn eval<const W: usize>(&self, inp: &[[u64; W]], buf: &mut Vec<[u64; W]>) {
        buf.clear();
        buf.reserve(self.gates.len());
        for g in &self.gates {
            let v = match *g {
                G::Const(b) => [if b { !0 } else { 0 }; W],
                G::Var(i) => inp[i as usize],
                G::Mux(s, h, l) => {
                    let (s, h, l) = (&buf[s as usize], &buf[h as usize], &buf[l as usize]);
                    let mut r = [0; W];
                    for i in 0..W {
                        r[i] = (s[i] & h[i]) | (!s[i] & l[i]);
                    }
                    r
                }
            };
            buf.push(v);
        }
    }

    /// The circuit with some inputs fixed: constants folded, equal gates shared, dead gates dropped.
    pub fn specialise(&self, fixed: impl Fn(u32) -> Option<bool>) -> Prog {
        let mut map: Vec<u32> = Vec::with_capacity(self.gates.len());
        let mut gates: Vec<G> = vec![G::Const(false), G::Const(true)];
        let mut known: HashMap<(u32, u32, u32), u32> = HashMap::new();
        let mut vars: HashMap<u32, u32> = HashMap::new();
        for g in &self.gates {
            let n = match *g {
                G::Const(b) => b as u32,
                G::Var(i) => match fixed(i) {
                    Some(b) => b as u32,
                    None => *vars.entry(i).or_insert_with(|| {
                        gates.push(G::Var(i));
                        gates.len() as u32 - 1
                    }),
                },
                G::Mux(s, h, l) => {
                    let (s, h, l) = (map[s as usize], map[h as usize], map[l as usize]);
                    if s == 0 || h == l {
                        l
                    } else if s == 1 {
                        h
                    } else {
                        *known.entry((s, h, l)).or_insert_with(|| {
                            gates.push(G::Mux(s, h, l));
                            gates.len() as u32 - 1
                        })
                    }
                }
            };
            map.push(n);
        }
        let mut live = vec![false; gates.len()];
        let mut todo: Vec<u32> = self.outs.iter().map(|o| map[*o as usize]).collect();
        while let Some(n) = todo.pop() {
            if !std::mem::replace(&mut live[n as usize], true) {
                if let G::Mux(s, h, l) = gates[n as usize] {
                    todo.extend([s, h, l]);
                }
            }
        }
        let mut pack = vec![u32::MAX; gates.len()];
        let mut out = vec![];
        for (i, g) in gates.iter().enumerate() {
            if live[i] {
                pack[i] = out.len() as u32;
                out.push(match *g {
                    G::Mux(s, h, l) => G::Mux(pack[s as usize], pack[h as usize], pack[l as usize]),
                    g => g,
                });
            }
        }
        Prog { inputs: self.inputs, gates: out, outs: self.outs.iter().map(|o| pack[map[*o as usize] as usize]).collect() }
    }

    /// Evaluate one assignment.
    pub fn one(&self, x: &[bool]) -> Vec<bool> {
        let inp: Vec<[u64; 1]> = x.iter().map(|b| [*b as u64]).collect();
        let mut buf = vec![];
        self.eval::<1>(&inp, &mut buf);
        self.outs.iter().map(|o| buf[*o as usize][0] & 1 == 1).collect()
    }

    /// Explore the product of the circuit, read as a decision diagram in the given input order,
    /// with a specification automaton. `step(state, input position, bit, outs)` returns the next
    /// specification state and pushes the outputs it has determined.
    /// `Ok(None)`: the circuit does not test its inputs in this order, so it cannot be explored so.
    pub fn product<S: Clone + std::hash::Hash + Eq>(
        &self,
        order: &[u32],
        init: S,
        init_outs: &[(usize, bool)],
        step: impl Fn(&S, usize, bool, &mut Vec<(usize, bool)>) -> S,
    ) -> Result<Option<(u64, u64)>, String> {
        let mut at = vec![usize::MAX; self.inputs];
        for (k, v) in order.iter().enumerate() {
            at[*v as usize] = k;
        }
        let level = |n: u32| -> Option<usize> {
            match self.gates[n as usize] {
                G::Const(_) => Some(usize::MAX),
                G::Mux(s, _, _) => match self.gates[s as usize] {
                    G::Var(v) => Some(at[v as usize]),
                    _ => None,
                },
                G::Var(_) => None,
            }
        };
        // every diagram edge must go to a later level
        let mut todo: Vec<u32> = self.outs.clone();
        let mut seen = vec![false; self.gates.len()];
        while let Some(n) = todo.pop() {
            if std::mem::replace(&mut seen[n as usize], true) {
                continue;
            }
            let Some(l) = level(n) else { return Ok(None) };
            if let G::Mux(_, h, w) = self.gates[n as usize] {
                for c in [h, w] {
                    match level(c) {
                        Some(m) if m > l => todo.push(c),
                        _ => return Ok(None),
                    }
                }
            }
        }
        type St<S> = (Vec<(usize, Option<u32>, Option<bool>)>, S);
        // (output, node when not yet constant-matched, expected when known)
        fn settle<S>(p: &Prog, pend: Vec<(usize, Option<u32>, Option<bool>)>, s: S, k: usize) -> Result<St<S>, String> {
            let mut keep = vec![];
            for (o, n, e) in pend {
                if let (Some(n), Some(e)) = (n, e) {
                    if let G::Const(c) = p.gates[n as usize] {
                        if c != e {
                            return Err(format!("output {o} is {c} where {e} is required, after {k} inputs"));
                        }
                        continue;
                    }
                }
                keep.push((o, n, e));
            }
            Ok((keep, s))
        }
        let mut pend: Vec<(usize, Option<u32>, Option<bool>)> =
            self.outs.iter().enumerate().map(|(o, n)| (o, Some(*n), None)).collect();
        for (o, b) in init_outs {
            pend[*o].2 = Some(*b);
        }
        let mut layer: HashMap<St<S>, Vec<bool>> = HashMap::new();
        layer.insert(settle(self, pend, init, 0)?, vec![]);
        let (mut states, mut trans) = (1u64, 0u64);
        let mut outs = vec![];
        for k in 0..order.len() {
            let mut next: HashMap<St<S>, Vec<bool>> = HashMap::new();
            for ((pend, s), path) in &layer {
                for b in [false, true] {
                    trans += 1;
                    outs.clear();
                    let s2 = step(s, k, b, &mut outs);
                    let mut p2 = pend.clone();
                    for q in p2.iter_mut() {
                        let n = q.1.unwrap();
                        if level(n) == Some(k) {
                            if let G::Mux(_, h, l) = self.gates[n as usize] {
                                q.1 = Some(if b { h } else { l });
                            }
                        }
                    }
                    for (o, v) in &outs {
                        match p2.iter_mut().find(|q| q.0 == *o) {
                            Some(q) => q.2 = Some(*v),
                            None => return Err(format!("output {o} settled before its value was determined or does not exist")),
                        }
                    }
                    let mut path = path.clone();
                    path.push(b);
                    let st = settle(self, p2, s2, k + 1).map_err(|e| format!("{e}; inputs in order: {}", show(&path)))?;
                    next.entry(st).or_insert(path);
                }
            }
            states += next.len() as u64;
            if next.len() > 200_000 {
                return Ok(None);
            }
            layer = next;
        }
        for ((pend, _), path) in &layer {
            if let Some(q) = pend.first() {
                return Err(format!("output {} never settles ({} outputs in the circuit); inputs in order: {}", q.0, self.outs.len(), show(path)));
            }
        }
        Ok(Some((states, trans)))
    }
}

pub fn show(p: &[bool]) -> String {
    p.iter().map(|b| if *b { '1' } else { '0' }).collect()
}
