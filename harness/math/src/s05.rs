//! S05: geometry and running statistics.
use mc::{ensure, same, Ck};
use sunscreen_math::geometry::{ConvexPolytope2D, HalfSpace2D, Point2D};
use sunscreen_math::stats::RunningMeanVariance;

fn inside(h: &(i32, i32, i32), x: i32, y: i32) -> bool {
    // coordinates are quarters: a.x <= b exactly, in integers
    h.0 * x + h.1 * y <= 4 * h.2
}
fn hs(h: &(i32, i32, i32)) -> HalfSpace2D {
    HalfSpace2D::new((h.0 as f64, h.1 as f64), h.2 as f64)
}
fn pt(x: i32, y: i32) -> Point2D {
    Point2D::new(x as f64 / 4., y as f64 / 4.)
}

pub fn run() -> ! {
    let ck = Ck::new("S05", "exploration",
        "all half-spaces with small integer normals and offsets, all ordered collections of up to 3 of them from a fixed pool, all quarter-integer points in a box (values exact in f64), against integer arithmetic; all sample sequences up to length L over a value alphabet against two-pass formulas");
    let k = ck.tier(2, 4);
    let mut hs_all = vec![];
    for a in -k..=k { for b in -k..=k { for c in -k..=k { hs_all.push((a, b, c)); } } }
    ck.par("half-spaces", &hs_all, |h| format!("{h:?}"), |h, cx| {
        for x in -10..=10 { for y in -10..=10 {
            let p = pt(x, y);
            same!(cx, (p.x(), p.y()), (x as f64 / 4., y as f64 / 4.), "coordinates");
            same!(cx, hs(h).inside(p), inside(h, x, y), "({x}/4, {y}/4) inside {h:?}");
        } }
        Ok(())
    });
    let pool = [(1, 0, 1), (-1, 0, 1), (0, 1, 2), (0, -1, 0), (1, 1, 2), (-2, 1, 1), (1, -2, -1), (0, 0, 0), (0, 0, -1), (3, 2, 4)];
    let mut lists: Vec<Vec<(i32, i32, i32)>> = vec![vec![]];
    for d in 0..ck.tier(3, 4) {
        let prev: Vec<_> = lists.iter().filter(|l| l.len() == d).cloned().collect();
        for l in prev { for h in pool { let mut m = l.clone(); m.push(h); lists.push(m); } }
    }
    ck.par("polytopes", &lists, |l| format!("{l:?}"), |l, cx| {
        let hv: Vec<HalfSpace2D> = l.iter().map(hs).collect();
        let poly = ConvexPolytope2D::new(&hv);
        let names: Vec<String> = hv.iter().map(|h| format!("{h:?}")).collect();
        same!(cx, poly.half_spaces().iter().map(|h| format!("{h:?}")).collect::<Vec<_>>(), names, "half_spaces");
        for x in -10..=10 { for y in -10..=10 {
            let p = pt(x, y);
            let bad: Vec<usize> = (0..l.len()).filter(|i| !inside(&l[*i], x, y)).collect();
            same!(cx, poly.inside(p), bad.is_empty(), "({x}/4, {y}/4) inside {l:?}");
            let v: Vec<String> = poly.violations(p).iter().map(|h| format!("{h:?}")).collect();
            same!(cx, v, bad.iter().map(|i| names[*i].clone()).collect::<Vec<_>>(), "violations of ({x}/4, {y}/4) in {l:?}");
        } }
        Ok(())
    });
    // running statistics
    let alpha = [0.0, 1.0, -1.0, 2.5, -7.0, 1000.0, 1e-3, 123456.75];
    let len = ck.tier(6, 7);
    let mut firsts: Vec<Vec<f64>> = vec![];
    for a in alpha { firsts.push(vec![a]); for b in alpha { firsts.push(vec![a, b]); } }
    ck.par("running statistics", &firsts, |f| format!("{f:?}"), |f, cx| {
        fn rec(s: &mut Vec<f64>, r: RunningMeanVariance, len: usize, alpha: &[f64], cx: &mut mc::Cx) -> mc::R {
            let n = s.len() as f64;
            let mean = s.iter().sum::<f64>() / n;
            let var = s.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n;
            let scale = s.iter().fold(0f64, |m, x| m.max(x.abs()));
            cx.ev(true);
            ensure!((r.mean() - mean).abs() <= 1e-9 * scale + 1e-300, "mean of {s:?}: {} expected {mean}", r.mean());
            ensure!((r.variance() - var).abs() <= 1e-9 * scale * scale + 1e-300, "variance of {s:?}: {} expected {var}", r.variance());
            ensure!((r.std() - var.sqrt()).abs() <= 1e-5 * scale + 1e-300, "std of {s:?}: {} expected {}", r.std(), var.sqrt());
            ensure!(r.variance() >= -1e-9 * scale * scale && (s.len() > 1 || r.variance() == 0.0), "variance of {s:?}: {}", r.variance());
            if s.len() < len {
                for a in alpha {
                    s.push(*a);
                    let mut q = r;
                    q.add_sample(*a);
                    rec(s, q, len, alpha, cx)?;
                    s.pop();
                }
            }
            Ok(())
        }
        let mut r = RunningMeanVariance::new();
        for x in f { r.add_sample(*x); }
        let d = RunningMeanVariance::default();
        ensure!(d == RunningMeanVariance::new(), "default differs from new");
        let depth = if f.len() == 1 { 1 } else { len };
        rec(&mut f.clone(), r, depth, &alpha, cx)
    });
    ck.case("running statistics", "constant sequences", |cx| {
        for c in alpha { for n in 1..=2000 {
            let mut r = RunningMeanVariance::new();
            for _ in 0..n { r.add_sample(c); }
            same!(cx, (r.mean(), r.variance(), r.std()), (c, 0.0, 0.0), "{n} samples of {c}");
        } }
        Ok(())
    });
    ck.finish()
}
