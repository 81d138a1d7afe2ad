//! C03: the circuit engine under every task schedule.
use crate::explore::{After, model};
use mc::*;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{
    CircuitProcessor, CompletionHandler, ComputeKey, Encryption, Evaluation, FheCircuit, FheEdge as E, FheOp as O, L1GgswCiphertext, L1GlweCiphertext,
    Params, RuntimeError, SecretKey,
};
use petgraph::stable_graph::NodeIndex;
use rayon::Order;
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog, entities::Polynomial, rand::Stddev,
};

fn rad(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}
const N: usize = 16;
pub struct Fx {
    sk: SecretKey,
    enc: Encryption,
    eval: Evaluation,
    /// GLWE encryptions of a few polynomials, GGSW encryptions of 0 and 1.
    glwe: Vec<L1GlweCiphertext>,
    ggsw: Vec<L1GgswCiphertext>,
}
fn fx() -> &'static Fx {
    static F: OnceLock<Fx> = OnceLock::new();
    F.get_or_init(|| {
        rand::mc::seed(31);
        let p = Params {
            l0_params: LweDef { dim: LweDimension(2), std: Stddev(0.0) },
            l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(N), size: GlweSize(1) }, std: Stddev(0.0) },
            cbs_radix: rad(2, 8),
            pbs_radix: rad(2, 16),
            ks_radix: rad(8, 2),
            pfks_radix: rad(2, 17),
            ss_radix: rad(15, 3),
            tr_radix: rad(6, 7),
        };
        let sk = SecretKey::generate(&p);
        let enc = Encryption::new(&p);
        let eval = Evaluation::new(Arc::new(ComputeKey::generate(&sk, &p)), &p, &enc);
        let glwe = (0..4).map(|k| enc.encrypt_glwe_l1_secret(&Polynomial::new(&(0..N).map(|i| msg(k) >> i & 1).collect::<Vec<_>>()), &sk)).collect();
        let ggsw = [false, true].iter().map(|b| enc.encrypt_ggsw_l1_secret(*b, &sk)).collect();
        Fx { sk, enc, eval, glwe, ggsw }
    })
}
fn msg(k: usize) -> u64 {
    [0x5a31, 0x0ff0, 0xc3a5, 0x8001][k]
}
fn read(c: &L1GlweCiphertext) -> u64 {
    fx().enc.decrypt_glwe_l1(c, &fx().sk).coeffs().iter().enumerate().map(|(i, x)| *x << i).sum()
}

/// One node of a shape: what it does, and which earlier nodes it consumes.
#[derive(Clone, Copy, Debug)]
enum Nd {
    In(usize),
    /// A GGSW input
    Sel(usize),
    Not(usize),
    Add(usize, usize),
    /// selector, low, high
    Mux(usize, usize, usize),
    MulX(usize, usize),
    Out(usize),
    /// A node that is wrong: a `Not` without input
    Bare,
    /// An output fed with a GGSW
    OutOf(usize),
    /// A `Retire` in the user's graph
    Retire,
    Nop,
    /// An edge from a later node to an earlier one, closing a cycle: anything may come out, but something must.
    Back(usize, usize),
    /// Any operation with up to three inputs (source, kind of edge)
    Any(usize, [Option<(usize, usize)>; 3]),
}
use Nd::*;

const EDGES: [E; 8] = [E::Unary, E::Left, E::Right, E::Sel, E::Low, E::High, E::Glwe, E::Ggsw];
/// Operations of `Any`: the inputs they need (edge, wants a GGSW), and whether they give a GLWE.
const ANY: [(&str, &[(usize, bool)], bool); 13] = [
    ("Not", &[(0, false)], true),
    ("MulXN", &[(0, false)], true),
    ("GlweAdd", &[(1, false), (2, false)], true),
    ("CMux", &[(3, true), (4, false), (5, false)], true),
    ("MultiplyGgswGlwe", &[(6, false), (7, true)], true),
    ("SampleExtract", &[(0, false)], false),
    ("SampleExtract beyond the degree", &[(9, false)], false),
    ("OutputGlwe1", &[(0, false)], false),
    ("OutputGgsw1", &[(0, true)], false),
    ("Nop", &[], false),
    ("OneGlwe1", &[], true),
    ("InputGlwe1", &[], true),
    ("InputGgsw1", &[], false),
];
fn any(op: usize, sh: &Shared) -> O {
    let f = fx();
    match op {
        0 => O::Not,
        1 => O::MulXN(1),
        2 => O::GlweAdd,
        3 => O::CMux,
        4 => O::MultiplyGgswGlwe,
        5 => O::SampleExtract(N - 1),
        6 => O::SampleExtract(N),
        7 => O::OutputGlwe1(Arc::new(AtomicRefCell::new(f.enc.allocate_glwe_l1()))),
        8 => O::OutputGgsw1(Arc::new(AtomicRefCell::new(f.ggsw[0].clone()))),
        9 => O::Nop,
        10 => O::OneGlwe1,
        11 => O::InputGlwe1(sh.glwe[3].clone()),
        12 => O::InputGgsw1(sh.ggsw[1].clone()),
        _ => unreachable!(),
    }
}
/// What the operation gives on values (message, is a GGSW); None when its inputs are wrong.
fn any_value(op: usize, ins: &[Option<(usize, usize)>; 3], val: &[Option<u64>], gg: &[bool]) -> Option<u64> {
    let (_, need, _) = ANY[op];
    let ins: Vec<(usize, usize)> = ins.iter().flatten().copied().collect();
    if ins.len() != need.len() {
        return None;
    }
    let mut x = vec![];
    for (e, want) in need {
        let (src, _) = ins.iter().find(|i| i.1 == *e)?;
        if gg[*src] != *want {
            return None;
        }
        x.push(val[*src]?);
    }
    Some(match op {
        0 => x[0] ^ 1,
        1 => (x[0] << 1 | x[0] >> (N - 1)) & 0xffff,
        2 => x[0] ^ x[1],
        3 => if x[0] == 1 { x[2] } else { x[1] },
        4 => x[0] * x[1],
        10 => 1,
        11 => msg(3),
        _ => 0,
    })
}


type OutCell = Arc<AtomicRefCell<L1GlweCiphertext>>;
struct Built {
    g: FheCircuit,
    outs: Vec<(OutCell, Option<u64>)>,
    ops: usize,
    error: bool,
    retire: bool,
    cyclic: bool,
}

/// Inputs shared by the circuits of one scenario.
struct Shared {
    glwe: Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>,
    ggsw: Vec<Arc<AtomicRefCell<L1GgswCiphertext>>>,
}
fn shared() -> Shared {
    let f = fx();
    Shared {
        glwe: f.glwe.iter().map(|c| Arc::new(AtomicRefCell::new(c.clone()))).collect(),
        ggsw: f.ggsw.iter().map(|c| Arc::new(AtomicRefCell::new(c.clone()))).collect(),
    }
}

fn build(shape: &[Nd], sh: &Shared) -> Built {
    let f = fx();
    let mut g = FheCircuit::new();
    let mut id: Vec<NodeIndex> = vec![];
    // the plain value of each node; None when it fails
    let mut val: Vec<Option<u64>> = vec![];
    let mut outs = vec![];
    let mut gg = vec![];
    let mut bad = false;
    for n in shape {
        if let Back(a, b) = *n {
            g.add_edge(id[a], id[b], E::Unary);
            continue;
        }
        if let Any(op, ins) = n {
            let i = g.add_node(any(*op, sh));
            for (src, e) in ins.iter().flatten() {
                g.add_edge(id[*src], i, EDGES[*e]);
            }
            let v = any_value(*op, ins, &val, &gg);
            bad |= v.is_none();
            id.push(i);
            val.push(v);
            gg.push(*op == 12);
            continue;
        }
        gg.push(matches!(n, Sel(_)));
        let (op, ins, v): (O, Vec<(usize, E)>, Option<u64>) = match *n {
            In(k) => (O::InputGlwe1(sh.glwe[k].clone()), vec![], Some(msg(k))),
            Sel(k) => (O::InputGgsw1(sh.ggsw[k].clone()), vec![], Some(k as u64)),
            Not(a) => (O::Not, vec![(a, E::Unary)], val[a].map(|x| x ^ 1)),
            Add(a, b) => (O::GlweAdd, vec![(a, E::Left), (b, E::Right)], val[a].zip(val[b]).map(|(x, y)| x ^ y)),
            Mux(s, a, b) => (O::CMux, vec![(s, E::Sel), (a, E::Low), (b, E::High)], match (val[s], val[a], val[b]) {
                (Some(s), Some(a), Some(b)) => Some(if s == 1 { b } else { a }),
                _ => None,
            }),
            MulX(k, a) => (O::MulXN(k), vec![(a, E::Unary)], val[a].map(|x| (x << k | x >> (N - k)) & 0xffff)),
            Out(a) => {
                let c = Arc::new(AtomicRefCell::new(f.enc.allocate_glwe_l1()));
                outs.push((c.clone(), val[a]));
                (O::OutputGlwe1(c), vec![(a, E::Unary)], None)
            }
            OutOf(a) => {
                let c = Arc::new(AtomicRefCell::new(f.enc.allocate_glwe_l1()));
                (O::OutputGlwe1(c), vec![(a, E::Unary)], None)
            }
            Bare => (O::Not, vec![], None),
            Retire => (O::Retire, vec![], None),
            Nop => (O::Nop, vec![], None),
            Back(..) | Any(..) => unreachable!(),
        };
        let i = g.add_node(op);
        for (a, e) in ins {
            g.add_edge(id[a], i, e);
        }
        id.push(i);
        val.push(v);
    }
    let retire = shape.iter().any(|n| matches!(n, Retire));
    let cyclic = shape.iter().any(|n| matches!(n, Back(..)));
    let error = retire || bad || shape.iter().any(|n| matches!(n, Bare | OutOf(_)));
    Built { g, outs, ops: id.len(), error, retire, cyclic }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Blocking,
    /// the next circuit is submitted while this one may still run
    Spawn,
}
#[derive(Clone, Debug)]
struct Scenario {
    circuits: Vec<(Vec<Nd>, How)>,
    flow: usize,
    own_pool: bool,
}

fn judge(b: &Built, r: &Option<RuntimeError>) -> R {
    if b.cyclic {
        return Ok(());
    }
    if b.error {
        ensure!(r.is_some(), "a malformed circuit completed without an error");
    } else {
        ensure!(r.is_none(), "a well-formed circuit failed: {}", r.as_ref().unwrap().0);
        for (i, (c, v)) in b.outs.iter().enumerate() {
            let got = read(&c.borrow());
            ensure!(Some(got) == *v, "output {i} is {got:#x} right after completion, expected {v:x?}");
        }
    }
    Ok(())
}

fn scenario(s: &Scenario) -> Result<After, String> {
    let f = fx();
    let sh = shared();
    let pool = s.own_pool.then(|| rayon::mc::global());
    let (mut pr, fc) = CircuitProcessor::new(s.flow, pool, &f.eval, &f.enc);
    let built: Vec<Built> = s.circuits.iter().map(|c| build(&c.0, &sh)).collect();
    let calls: Vec<Arc<std::sync::Mutex<Vec<Option<String>>>>> = built.iter().map(|_| Default::default()).collect();
    let mut waits = vec![];
    for (k, b) in built.iter().enumerate() {
        match s.circuits[k].1 {
            How::Blocking => {
                let r = pr.run_graph_blocking(&b.g, &fc).err();
                judge(b, &r)?;
                calls[k].lock().unwrap().push(r.map(|e| e.0));
            }
            How::Spawn => {
                let (send, recv) = mcstd::sync::mpsc::channel();
                let c = calls[k].clone();
                let h = CompletionHandler::new(move |e: Option<RuntimeError>| {
                    c.lock().unwrap().push(e.as_ref().map(|e| e.0.clone()));
                    let _ = send.send(e);
                });
                pr.spawn_graph(&b.g, &fc, Arc::new(h));
                waits.push((k, recv));
            }
        }
    }
    for (k, recv) in waits {
        let r = recv.recv().map_err(|_| "the completion handler was dropped without being called")?;
        judge(&built[k], &r)?;
    }
    // flow control is back where it started, and nothing needs its receiver any more
    let mut tokens = 0;
    while fc.try_recv().is_ok() {
        tokens += 1;
    }
    ensure!(tokens == s.flow, "{tokens} flow-control tokens of {} are back at completion", s.flow);
    drop(fc);
    Ok(Box::new(move |jobs, busy| {
        for (k, c) in calls.iter().enumerate() {
            let c = c.lock().unwrap();
            ensure!(c.len() == 1, "the completion of circuit {k} was signalled {} times", c.len());
        }
        // every operation (and the final retirement of each circuit) was run exactly once
        let want: usize = built.iter().map(|b| b.ops + 1).sum();
        if built.iter().all(|b| !b.retire && !b.cyclic) {
            ensure!(jobs == want, "{jobs} tasks were run for {want} operations");
        }
        // nothing keeps the inputs and outputs alive
        drop(pr);
        let outs: Vec<OutCell> = built.into_iter().flat_map(|b| b.outs.into_iter().map(|o| o.0).collect::<Vec<_>>()).collect();
        for o in &outs {
            ensure!(Arc::strong_count(o) == 1, "an output is still referenced {} times", Arc::strong_count(o) - 1);
        }
        for c in &sh.glwe {
            ensure!(Arc::strong_count(c) == 1, "an input is still referenced {} times", Arc::strong_count(c) - 1);
        }
        Ok(busy > 1)
    }))
}

fn shapes() -> Vec<(&'static str, Vec<Nd>)> {
    vec![
        ("empty", vec![]),
        ("one operation", vec![Nop]),
        ("input to output", vec![In(0), Out(0)]),
        ("chain of three", vec![In(0), Not(0), Out(1)]),
        ("parallel edges", vec![In(0), Add(0, 0), Out(1)]),
        ("fan-out", vec![In(1), Out(0), Out(0)]),
        ("fan-in", vec![In(0), In(1), Add(0, 1), Out(2)]),
        ("shared input cell", vec![In(2), In(2), Add(0, 1), Out(2)]),
        ("chain of four", vec![In(0), Not(0), MulX(3, 1), Out(2)]),
        ("two chains", vec![In(0), Out(0), In(1), Out(2)]),
        ("triangle", vec![In(0), Not(0), Add(0, 1), Out(2)]),
        ("mux", vec![Sel(1), In(0), In(1), Mux(0, 1, 2), Out(3)]),
        ("diamond", vec![In(0), Not(0), MulX(1, 0), Add(1, 2), Out(3)]),
        ("bare operation", vec![Bare]),
        ("error then use", vec![Bare, Not(0), Out(1)]),
        ("error beside work", vec![In(0), Out(0), Bare]),
        ("wrong kind", vec![Sel(0), OutOf(0)]),
        ("error feeding a join", vec![In(0), Bare, Add(0, 1), Out(2)]),
        ("self loop", vec![Nop, Back(0, 0)]),
        ("cycle", vec![Nop, Not(0), Back(1, 0)]),
        ("cycle beside work", vec![In(0), Out(0), Nop, Not(2), Back(3, 2)]),
        ("cycle fed by work", vec![In(0), Add(0, 0), Not(1), Back(2, 1)]),
        ("retire in the graph", vec![In(0), Out(0), Retire]),
    ]
}


struct Item {
    label: String,
    s: Scenario,
    workers: usize,
    order: Order,
    bound: usize,
}
fn item(name: &str, circuits: Vec<(Vec<Nd>, How)>, flow: usize, own_pool: bool, workers: usize, order: Order, bound: usize) -> Item {
    let how: Vec<How> = circuits.iter().map(|c| c.1).collect();
    Item {
        label: format!("{name}, {how:?}, flow {flow}, {workers} workers, {order:?}, bound {bound}"),
        s: Scenario { circuits, flow, own_pool },
        workers,
        order,
        bound,
    }
}
fn explore_all(ck: &Ck, group: &str, items: &[Item]) {
    ck.par(group, items, |x| x.label.clone(), |x, cx| {
        let s = x.s.clone();
        let t = std::time::Instant::now();
        let st = model(x.workers, x.order, x.bound, move || scenario(&s))?;
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("TIME {:?} {} {}", t.elapsed(), st.executions, x.label);
        }
        cx.evals += st.executions;
        cx.nt += st.marked;
        Ok(())
    });
}

pub fn run() {
    let ck = Ck::new(
        "C03",
        "model_checking",
        "an evaluation is one complete execution (schedule and memory-model choice) of the real circuit engine on one scenario; it is non-trivial when at least two pool threads ran operations",
    );
    ck.assume("loom's memory model (its acquire fence also synchronises with what other threads read before) and its preemption bound");
    ck.assume("the pool is replaced by loom threads that run each job once; queue order is first-in-first-out or last-in-first-out");
    ck.assume("flow control of at least one, the receiver is kept until completion, one thread submits, graphs are acyclic, no two operations write the same output");
    fx();
    let all = shapes();
    let shape = |n: &str| all.iter().find(|x| x.0 == n).unwrap().1.clone();
    let (fifo, lifo) = (Order::Fifo, Order::Lifo);
    use How::*;

    let mut items = vec![];
    for (name, g) in &all {
        let n = g.len();
        let b = ck.tier(if n <= 2 { 3 } else { 2 }, if n <= 2 { 4 } else { 2 + (n == 3) as usize });
        for flow in [1usize, 2, 64] {
            items.push(item(name, vec![(g.clone(), Blocking)], flow, false, 2, fifo, b));
        }
        items.push(item(name, vec![(g.clone(), Spawn)], 2, true, 2, fifo, b));
        items.push(item(name, vec![(g.clone(), Blocking)], 64, false, 2, lifo, b));
        if ck.thorough {
            items.push(item(name, vec![(g.clone(), Spawn)], 1, true, 2, lifo, b));
        }
        if n >= 3 {
            let b = ck.tier(1, if n == 3 { 2 } else { 1 });
            items.push(item(name, vec![(g.clone(), Blocking)], 64, false, 3, fifo, b));
        }
    }
    explore_all(&ck, "one circuit", &items);

    let small = ["one operation", "input to output", "chain of three", "fan-out", "fan-in", "bare operation", "wrong kind", "error beside work"];
    let mut items = vec![];
    for a in small {
        for b in small {
            let (ga, gb) = (shape(a), shape(b));
            let n = ga.len() + gb.len();
            let bound = ck.tier(1, if n <= 5 { 2 } else { 1 });
            let name = format!("{a} and {b}");
            for hows in [[Spawn, Spawn], [Spawn, Blocking], [Blocking, Spawn]] {
                let cs = vec![(ga.clone(), hows[0]), (gb.clone(), hows[1])];
                items.push(item(&name, cs.clone(), 2, hows[1] == Spawn, 2, fifo, bound));
                if hows[0] == Spawn {
                    items.push(item(&name, cs.clone(), 64, hows[1] == Spawn, 2, lifo, bound));
                }
                if ck.thorough {
                    items.push(item(&name, cs, 1, false, 2, fifo, bound));
                }
            }
        }
    }
    explore_all(&ck, "two circuits", &items);

    // Every way to connect an operation to two sources, in the schedules without pre-emption.
    let srcs = [In(0), Sel(1), Bare];
    let mut items = vec![];
    for op in 0..ANY.len() {
        for a in 0..3 {
            for b in a..3 {
                items.push((op, srcs[a], srcs[b]));
            }
        }
    }
    ck.par("every connection", &items, |(o, a, b)| format!("{} on {a:?}, {b:?}", ANY[*o].0), |(op, a, b), cx| {
        let ends: Vec<(usize, usize)> = (0..2).flat_map(|s| (0..EDGES.len()).map(move |e| (s, e))).collect();
        let m = ends.len();
        for i in 0..=m {
            for j in i..=m {
                for k in j..=m {
                    let ins = [i, j, k].map(|x| ends.get(x).copied());
                    let mut shape = vec![*a, *b, Any(*op, ins)];
                    if ANY[*op].2 {
                        shape.push(Out(2));
                    }
                    let s = Scenario { circuits: vec![(shape, Blocking)], flow: 64, own_pool: false };
                    let st = model(2, Order::Fifo, 0, move || scenario(&s)).map_err(|e| format!("inputs {ins:?}: {e}"))?;
                    cx.evals += st.executions;
                    cx.nt += st.marked;
                }
            }
        }
        Ok(())
    });
    ck.finish()
}
