//! T06: iterators and part accessors of packed entities against index arithmetic.
use mc::{catch, ensure, must_panic, same, Ck, Cx, R};
use num::Complex;
use rayon::iter::plumbing::Producer;
use rayon::prelude::*;
use std::collections::VecDeque;
use sunscreen_tfhe::{entities::*, mc_hooks::*, rand::Stddev, OverlaySize, *};

type C = Complex<f64>;
type T64 = Torus<u64>;

fn at<X: ?Sized>(x: &X) -> (usize, usize) {
    (x as *const X as *const () as usize, std::mem::size_of_val(x))
}
/// A part, or the span of a part already handed out by a parallel iterator.
trait Span {
    fn span(self) -> (usize, usize);
}
impl<X: ?Sized> Span for &X {
    fn span(self) -> (usize, usize) { at(self) }
}
impl<X: ?Sized> Span for &mut X {
    fn span(self) -> (usize, usize) { at(self) }
}
struct Pre((usize, usize));
impl Span for Pre {
    fn span(self) -> (usize, usize) { self.0 }
}

/// The operation sequence numbered `n` on one iterator over `k` parts.
fn ops<I>(mut it: I, k: usize, n: usize, d: usize, base: usize, bytes: usize, cx: &mut Cx) -> R
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: Span,
{
    let mut model: VecDeque<usize> = (0..k).collect();
    let mut x = n;
    let mut trace = String::new();
    for _ in 0..d {
        let op = x % 5;
        x /= 5;
        trace.push(['n', 'b', 'N', 'B', '2'][op]);
        let skip = [0, 0, 1, 1, 2][op];
        let back = op == 1 || op == 3;
        for _ in 0..skip {
            if back { model.pop_back() } else { model.pop_front() };
        }
        let want = if back { model.pop_back() } else { model.pop_front() }.map(|i| (base + i * bytes, bytes));
        let got = match op { 0 => it.next(), 1 => it.next_back(), 2 | 4 => it.nth(skip), _ => it.nth_back(skip) }.map(|r| r.span());
        same!(cx, got, want, "operations {trace} (first part at {base})");
        same!(cx, it.len(), model.len(), "parts reported to come after {trace}");
        let h = it.size_hint();
        cx.ev(true);
        ensure!(h.0 <= model.len() && h.1.is_none_or(|u| u >= model.len()), "size hint {h:?} after {trace} with {} left", model.len());
    }
    Ok(())
}

/// One sequential iterator type, immutable and mutable, over every operation sequence.
macro_rules! seqs {
    ($ck:expr, $depth:expr, $it:ident, $itm:ident, $par:ident, $parm:ident, $w:ty, $zero:expr) => {{
        let ck: &Ck = $ck;
        let depth: usize = $depth;
        let items: Vec<(usize, usize)> = (0..=5usize).flat_map(|k| (1..=3usize).map(move |s| (k, s))).collect();
        ck.par("iterator operation sequences", &items, |x| format!("{} {} parts of {}", stringify!($it), x.0, x.1), |&(k, s), cx| {
            let mut data: Vec<$w> = vec![$zero; k * s + 1]; // +1 so that an empty slice still has an address
            let sz = std::mem::size_of::<$w>();
            let base = data.as_ptr() as usize;
            let d = depth.min(k + 3);
            for n in 0..5usize.pow(d as u32) {
                ops($it::new(&data[..k * s], s), k, n, d, base, s * sz, cx).map_err(|e| format!("shared: {e}"))?;
                ops($itm::new(&mut data[..k * s], s), k, n, d, base, s * sz, cx).map_err(|e| format!("mutable: {e}"))?;
            }
            Ok(())
        });
        ck.par("adaptors after partial consumption", &items, |x| format!("{} {} parts of {}", stringify!($it), x.0, x.1), |&(k, s), cx| {
            let data: Vec<$w> = vec![$zero; k * s + 1];
            let sz = std::mem::size_of::<$w>();
            let base = data.as_ptr() as usize;
            let ix = |p: (usize, usize)| (p.0 - base) / (s * sz);
            for f in 0..=k {
                for b in 0..=k - f {
                    let mk = || { let mut i = $it::new(&data[..k * s], s); for _ in 0..f { i.next(); } for _ in 0..b { i.next_back(); } i };
                    let rest: Vec<usize> = (f..k - b).collect();
                    same!(cx, mk().map(|x| ix(at(x))).collect::<Vec<_>>(), rest, "collect after {f},{b}");
                    same!(cx, mk().rev().map(|x| ix(at(x))).collect::<Vec<_>>(), rest.iter().rev().copied().collect::<Vec<_>>(), "rev after {f},{b}");
                    same!(cx, mk().enumerate().rev().map(|(i, x)| (i, ix(at(x)))).collect::<Vec<_>>(), rest.iter().copied().enumerate().rev().collect::<Vec<_>>(), "enumerate().rev() after {f},{b}");
                    same!(cx, mk().zip(rest.iter()).rev().map(|(x, i)| (ix(at(x)), *i)).collect::<Vec<_>>(), rest.iter().map(|x| (*x, *x)).rev().collect::<Vec<_>>(), "zip().rev() after {f},{b}");
                    same!(cx, mk().skip(1).rev().map(|x| ix(at(x))).collect::<Vec<_>>(), rest.iter().copied().skip(1).rev().collect::<Vec<_>>(), "skip(1).rev() after {f},{b}");
                    same!(cx, mk().take(2).rev().map(|x| ix(at(x))).collect::<Vec<_>>(), rest.iter().copied().take(2).rev().collect::<Vec<_>>(), "take(2).rev() after {f},{b}");
                    same!(cx, mk().step_by(2).map(|x| ix(at(x))).collect::<Vec<_>>(), rest.iter().copied().step_by(2).collect::<Vec<_>>(), "step_by(2) after {f},{b}");
                    same!(cx, mk().count(), rest.len(), "count after {f},{b}");
                    same!(cx, mk().last().map(|x| ix(at(x))), rest.last().copied(), "last after {f},{b}");
                    for t in 0..k {
                        same!(cx, mk().rposition(|x| ix(at(x)) == t), rest.iter().rposition(|x| *x == t), "rposition of part {t} after {f},{b}");
                    }
                    // parts handed out mutably are disjoint and together the remaining range
                    let mut d2: Vec<$w> = vec![$zero; k * s + 1];
                    let b2 = d2.as_ptr() as usize;
                    let mut i = $itm::new(&mut d2[..k * s], s);
                    let mut seen: Vec<usize> = vec![];
                    for _ in 0..f { seen.extend(i.next().map(|x| (at(x).0 - b2) / (s * sz))); }
                    for _ in 0..b { seen.extend(i.next_back().map(|x| (at(x).0 - b2) / (s * sz))); }
                    same!(cx, i.len(), rest.len(), "mutable remaining after {f},{b}");
                    seen.extend(i.enumerate().rev().map(|(_, x)| (at(x).0 - b2) / (s * sz)));
                    seen.sort();
                    same!(cx, seen, (0..k).collect::<Vec<_>>(), "mutable parts after {f},{b}");
                }
            }
            // lengths that are no whole number of parts are refused
            if s > 1 {
                cx.ev(true);
                ensure!(must_panic(|| $it::new(&data[..k * s + 1], s)), "{k}*{s}+1 words accepted");
                let mut d2: Vec<$w> = vec![$zero; k * s + 1];
                ensure!(must_panic(|| $itm::new(&mut d2[..], s)), "{k}*{s}+1 words accepted mutably");
                ensure!(must_panic(|| $par::new(&data[..k * s + 1], s)), "{k}*{s}+1 words accepted in parallel");
                ensure!(must_panic(|| $parm::new(&mut d2[..], s)), "{k}*{s}+1 words accepted in parallel mutably");
            }
            Ok(())
        });
        ck.par("parallel split trees", &items, |x| format!("{} {} parts of {}", stringify!($par), x.0, x.1), |&(k, s), cx| {
            let mut data: Vec<$w> = vec![$zero; k * s + 1];
            let sz = std::mem::size_of::<$w>();
            let base = data.as_ptr() as usize;
            // every way of splitting k parts into a tree is a sequence of cut points
            fn tree<P: Producer>(p: P, k: usize, cuts: &mut mc::choose::Chooser, out: &mut Vec<(usize, usize)>, f: &dyn Fn(P, &mut Vec<(usize, usize)>)) {
                let c = cuts.choose(k + 2); // 0: leaf, 1..=k+1: split at c-1
                if c == 0 || k == 0 { f(p, out); return; }
                let i = c - 1;
                if i == 0 || i == k {
                    // an empty side; the rest is taken as a leaf
                    let (l, r) = p.split_at(i);
                    f(l, out);
                    f(r, out);
                    return;
                }
                let (l, r) = p.split_at(i);
                tree(l, i, cuts, out, f);
                tree(r, k - i, cuts, out, f);
            }
            let want: Vec<(usize, usize)> = (0..k).map(|i| (base + i * s * sz, s * sz)).collect();
            let n = mc::choose::explore(|c| {
                let mut out = vec![];
                tree($par::new(&data[..k * s], s), k, c, &mut out, &|p, o| o.extend(p.into_iter().map(|x| at(x))));
                ensure!(out == want, "split tree: parts {out:?}, expected {want:?}");
                Ok(())
            })? + mc::choose::explore(|c| {
                let mut out = vec![];
                tree($parm::new(&mut data[..k * s], s), k, c, &mut out, &|p, o| o.extend(p.into_iter().map(|x| at(x))));
                ensure!(out == want, "mutable split tree: parts {out:?}, expected {want:?}");
                Ok(())
            })?;
            cx.evals += n; cx.nt += n;
            same!(cx, IndexedParallelIterator::len(&$par::new(&data[..k * s], s)), k, "parallel length");
            same!(cx, IndexedParallelIterator::len(&$parm::new(&mut data[..k * s], s)), k, "mutable parallel length");
            // through rayon's own splitting
            let idx: Vec<(usize, (usize, usize))> = want.iter().copied().enumerate().collect();
            same!(cx, $par::new(&data[..k * s], s).with_max_len(1).map(|x| at(x)).enumerate().collect::<Vec<_>>(), idx, "parallel enumerate");
            same!(cx, $par::new(&data[..k * s], s).rev().map(|x| at(x)).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>(), "parallel rev");
            same!(cx, $par::new(&data[..k * s], s).map(|x| at(x)).chunks(2).collect::<Vec<_>>(), want.chunks(2).map(|x| x.to_vec()).collect::<Vec<_>>(), "parallel chunks");
            same!(cx, $par::new(&data[..k * s], s).skip(1).step_by(2).map(|x| at(x)).collect::<Vec<_>>(), want.iter().skip(1).step_by(2).copied().collect::<Vec<_>>(), "parallel skip, step");
            same!(cx, $parm::new(&mut data[..k * s], s).with_max_len(1).map(|x| at(x)).enumerate().collect::<Vec<_>>(), idx, "mutable parallel enumerate");
            same!(cx, $parm::new(&mut data[..k * s], s).rev().map(|x| at(x)).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>(), "mutable parallel rev");
            Ok(())
        });
    }};
}

/// Parts of `$e`: `$n` parts, `$b` bytes each, tiling the whole of it from its first byte.
macro_rules! parts {
    ($cx:expr, $what:expr, $whole:expr, $iter:expr, $n:expr, $b:expr) => {{
        let w = $whole;
        let got: Vec<(usize, usize)> = $iter.map(|x| x.span()).collect();
        let want: Vec<(usize, usize)> = (0..$n).map(|i| (w.0 + i * $b, $b)).collect();
        same!($cx, got, want, "{}: parts", $what);
        same!($cx, w.1, $n * $b, "{}: bytes covered", $what);
    }};
}
macro_rules! parts2 {
    ($cx:expr, $what:expr, $e:ident, $get:ident, $getm:ident, ($($a:expr),*), $n:expr, $b:expr) => {{
        let w = at(&*$e as &_);
        parts!($cx, $what, w, $e.$get($($a),*), $n, $b);
        parts!($cx, concat!($what, " (reverse)"), w, $e.$get($($a),*).rev().collect::<Vec<_>>().into_iter().rev(), $n, $b);
        same!($cx, $e.$get($($a),*).len(), $n, "{}: reported length", $what);
        parts!($cx, concat!($what, " (mutable)"), w, $e.$getm($($a),*), $n, $b);
    }};
}

#[derive(Clone, Copy, Debug)]
struct Shape { d: usize, d2: usize, k: usize, n: usize, c: usize }

fn entities(s: &Shape, cx: &mut Cx) -> R {
    let Shape { d, d2, k, n, c } = *s;
    let std = Stddev(0.0);
    let l1 = LweDef { dim: LweDimension(d), std };
    let l2 = LweDef { dim: LweDimension(d2), std };
    let g = GlweDef { dim: GlweDimension { size: GlweSize(k), polynomial_degree: PolynomialDegree(n) }, std };
    let r = RadixDecomposition { count: RadixCount(c), radix_log: RadixLog(1) };
    let lwe = (d + 1) * 8;
    let poly = n * 8;
    let glwe = (k + 1) * poly;
    let glev = c * glwe;
    let ggsw = (k + 1) * glev;
    let ksk = k * glev;
    // torus entities
    let mut e = LweCiphertext::<u64>::new(&l1);
    same!(cx, at(&*e).1, lwe, "LWE ciphertext size");
    let w = at(&*e).0;
    {
        let (a, b) = e.a_b(&l1);
        same!(cx, (at(a), at(b)), ((w, d * 8), (w + d * 8, 8)), "LWE a, b");
    }
    same!(cx, (at(e.a(&l1)), at(e.b(&l1))), ((w, d * 8), (w + d * 8, 8)), "LWE a and b");
    {
        let (a, b) = e.a_b_mut(&l1);
        same!(cx, (at(a), at(b)), ((w, d * 8), (w + d * 8, 8)), "LWE mutable a, b");
    }
    same!(cx, at(e.a_mut(&l1)), (w, d * 8), "LWE a mut");
    same!(cx, at(e.b_mut(&l1)), (w + d * 8, 8), "LWE b mut");
    let mut e = GlweCiphertext::<u64>::new(&g);
    let w = at(&*e);
    same!(cx, w.1, glwe, "GLWE ciphertext size");
    let want_a: Vec<_> = (0..k).map(|i| (w.0 + i * poly, poly)).collect();
    let want_b = (w.0 + k * poly, poly);
    {
        let (a, b) = e.a_b(&g);
        same!(cx, a.len(), k, "GLWE mask length");
        same!(cx, (a.map(|x| at(x)).collect::<Vec<_>>(), at(b)), (want_a.clone(), want_b), "GLWE a, b");
    }
    same!(cx, (e.a(&g).rev().map(|x| at(x)).collect::<Vec<_>>(), at(e.b(&g))), (want_a.iter().rev().copied().collect(), want_b), "GLWE a and b");
    {
        let (a, b) = e.a_b_mut(&g);
        same!(cx, (a.map(|x| at(x)).collect::<Vec<_>>(), at(b)), (want_a.clone(), want_b), "GLWE mutable a, b");
    }
    same!(cx, e.a_mut(&g).map(|x| at(x)).collect::<Vec<_>>(), want_a, "GLWE a mut");
    same!(cx, at(e.b_mut(&g)), want_b, "GLWE b mut");
    let mut e = GlweCiphertextFft::<C>::new(&g);
    let w = at(&*e);
    let want_a: Vec<_> = (0..k).map(|i| (w.0 + i * poly, poly)).collect();
    let want_b = (w.0 + k * poly, poly);
    if n >= 2 {
        same!(cx, w.1, glwe, "transformed GLWE size"); // n/2 complex of 16 bytes
        {
            let (a, b) = e.a_b(&g);
            same!(cx, (a.map(|x| at(x)).collect::<Vec<_>>(), at(b)), (want_a.clone(), want_b), "transformed GLWE a, b");
        }
        same!(cx, (e.a(&g).map(|x| at(x)).collect::<Vec<_>>(), at(e.b(&g))), (want_a.clone(), want_b), "transformed GLWE a and b");
        {
            let (a, b) = e.a_b_mut(&g);
            same!(cx, (a.map(|x| at(x)).collect::<Vec<_>>(), at(b)), (want_a.clone(), want_b), "transformed GLWE mutable a, b");
        }
        same!(cx, e.a_mut(&g).map(|x| at(x)).collect::<Vec<_>>(), want_a, "transformed GLWE a mut");
        same!(cx, at(e.b_mut(&g)), want_b, "transformed GLWE b mut");
    }
    let mut e = LweKeyswitchKey::<u64>::new(&l1, &l1, &r).rows(&l1, &r).next().unwrap().to_owned();
    parts2!(cx, "lev", e, lwe_ciphertexts, lwe_ciphertexts_mut, (&l1), c, lwe);
    let mut e = GlevCiphertext::<u64>::new(&g, &r);
    parts2!(cx, "GLev", e, glwe_ciphertexts, glwe_ciphertexts_mut, (&g), c, glwe);
    let mut e = GgswCiphertext::<u64>::new(&g, &r);
    parts2!(cx, "GGSW", e, rows, rows_mut, (&g, &r), k + 1, glev);
    let mut e = LweKeyswitchKey::<u64>::new(&l1, &l2, &r);
    parts2!(cx, "LWE keyswitch key", e, rows, rows_mut, (&l2, &r), d, c * (d2 + 1) * 8);
    let mut e = GlweKeyswitchKey::<u64>::new(&g, &r);
    parts2!(cx, "GLWE keyswitch key", e, rows, rows_mut, (&g, &r), k, glev);
    let mut e = BootstrapKey::<u64>::new(&l1, &g, &r);
    parts2!(cx, "bootstrap key", e, rows, rows_mut, (&g, &r), d, ggsw);
    let w = at(&*e);
    parts!(cx, "bootstrap key (parallel)", w, e.rows_par(&g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), d, ggsw);
    parts!(cx, "bootstrap key (parallel mutable)", w, e.rows_par_mut(&g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), d, ggsw);
    let mut e = BlindRotationShift::<u64>::new(&g, &r);
    parts2!(cx, "rotation shift", e, rows, rows_mut, (&g, &r), n.ilog2() as usize, ggsw);
    let mut e = AutomorphismKey::<u64>::new(&g, &r);
    parts2!(cx, "automorphism key", e, keyswitch_keys, keyswitch_keys_mut, (&g, &r), n.ilog2() as usize, ksk);
    let mut e = PublicFunctionalKeyswitchKey::<u64>::new(&l1, &g, &r);
    parts2!(cx, "public functional keyswitch key", e, glevs, glevs_mut, (&g, &r), d, glev);
    for p in 1..=3usize {
        let mut e = PrivateFunctionalKeyswitchKey::<u64>::new(&l1, &g, &r, &PrivateFunctionalKeyswitchLweCount(p));
        parts2!(cx, "private functional keyswitch key", e, glevs, glevs_mut, (&g, &r), (d + 1) * p, glev);
        let w = at(&*e);
        parts!(cx, "private functional key (parallel)", w, e.glevs_par(&g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), (d + 1) * p, glev);
        parts!(cx, "private functional key (parallel mutable)", w, e.glevs_par_mut(&g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), (d + 1) * p, glev);
    }
    let mut e = CircuitBootstrappingKeyswitchKeys::<u64>::new(&l1, &g, &r);
    parts2!(cx, "circuit bootstrapping keys", e, keys, keys_mut, (&l1, &g, &r), k + 1, (d + 1) * glev);
    let w = at(&*e);
    parts!(cx, "circuit bootstrapping keys (parallel)", w, e.keys_par(&l1, &g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), k + 1, (d + 1) * glev);
    parts!(cx, "circuit bootstrapping keys (parallel mutable)", w, e.keys_par_mut(&l1, &g, &r).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), k + 1, (d + 1) * glev);
    let mut e = SchemeSwitchKey::<u64>::new(&g, &r);
    parts2!(cx, "scheme switch key", e, glev_ciphertexts, glev_ciphertexts_mut, (&g, &r), k * (k + 1) / 2, glev);
    let w = at(&*e);
    let mut want = vec![vec![0; k]; k];
    let mut q = 0;
    for i in 0..k { for j in i..k { want[i][j] = q; want[j][i] = q; q += 1; } }
    for i in 0..=k {
        for j in 0..=k {
            if i < k && j < k {
                same!(cx, at(e.get_glev_at_index(i, j, &g, &r)), (w.0 + want[i][j] * glev, glev), "scheme switch entry {i},{j}");
                same!(cx, at(e.get_glev_at_index_mut(i, j, &g, &r)), (w.0 + want[i][j] * glev, glev), "scheme switch mutable entry {i},{j}");
            } else {
                cx.ev(true);
                ensure!(must_panic(|| at(e.get_glev_at_index(i, j, &g, &r))) && must_panic(|| at(e.get_glev_at_index_mut(i, j, &g, &r))), "scheme switch entry {i},{j} of {k} was found");
            }
        }
    }
    for m in 0..=3usize {
        let mut e = LweCiphertextList::<u64>::new(&l1, m);
        parts2!(cx, "LWE list", e, ciphertexts, ciphertexts_mut, (&l1), m, lwe);
        let mut e = GlweCiphertextList::<u64>::new(&g, m);
        parts2!(cx, "GLWE list", e, ciphertexts, ciphertexts_mut, (&g), m, glwe);
        let mut e = PolynomialList::<u64>::new(g.dim.polynomial_degree, m);
        parts2!(cx, "polynomial list", e, iter, iter_mut, (g.dim.polynomial_degree), m, poly);
    }
    let sk = GlweSecretKey::<u64>::generate_binary(&g);
    parts!(cx, "GLWE secret key", at(&*sk), sk.s(&g), k, poly);
    parts!(cx, "GLWE secret key (parallel)", at(&*sk), sk.s_par(&g).map(|x| at(x)).collect::<Vec<_>>().iter().map(|x| Pre(*x)), k, poly);
    same!(cx, at(sk.to_lwe_secret_key().s()), at(&*sk), "LWE view of the ring key");
    let ls = LweSecretKey::<u64>::generate_binary(&l1);
    same!(cx, at(ls.s()), (at(&*ls).0, d * 8), "LWE secret key");
    if k == 1 {
        let mut e = RlwePublicKey::<u64>::new(&g);
        let w = at(&*e);
        same!(cx, (w.1, at(e.zero_encryption()), at(e.zero_encryption_mut())), (glwe, w, w), "ring public key");
        let (p0, p1) = e.p0_p1(&g);
        same!(cx, (at(p0), at(p1)), ((w.0, poly), (w.0 + poly, poly)), "ring public key parts");
    } else {
        cx.ev(true);
        ensure!(must_panic(|| RlwePublicKey::<u64>::new(&g)), "ring public key of size {k}");
    }
    // transformed keys
    if n >= 2 {
        let mut e = GgswCiphertextFft::<C>::new(&g, &r).rows(&g, &r).next().unwrap().to_owned();
        parts2!(cx, "GLev (transformed)", e, glwe_ciphertexts, glwe_ciphertexts_mut, (&g), c, glwe);
        let mut e = GgswCiphertextFft::<C>::new(&g, &r);
        parts2!(cx, "GGSW (transformed)", e, rows, rows_mut, (&g, &r), k + 1, glev);
        let mut e = BootstrapKeyFft::<C>::new(&l1, &g, &r);
        parts2!(cx, "bootstrap key (transformed)", e, rows, rows_mut, (&g, &r), d, ggsw);
        let mut e = BlindRotationShiftFft::<C>::new(&g, &r);
        parts2!(cx, "rotation shift (transformed)", e, rows, rows_mut, (&g, &r), n.ilog2() as usize, ggsw);
        let mut e = GlweKeyswitchKeyFft::<C>::new(&g, &r);
        parts2!(cx, "GLWE keyswitch key (transformed)", e, rows, rows_mut, (&g, &r), k, glev);
        let mut e = AutomorphismKeyFft::<C>::new(&g, &r);
        parts2!(cx, "automorphism key (transformed)", e, keyswitch_keys, keyswitch_keys_mut, (&g, &r), n.ilog2() as usize, ksk);
        let mut e = SchemeSwitchKeyFft::<C>::new(&g, &r);
        parts2!(cx, "scheme switch key (transformed)", e, glev_ciphertexts, glev_ciphertexts_mut, (&g, &r), k * (k + 1) / 2, glev);
        let w = at(&*e);
        for i in 0..k {
            for j in 0..k {
                same!(cx, at(e.get_glev_at_index(i, j, &g, &r)), (w.0 + want[i][j] * glev, glev), "transformed scheme switch entry {i},{j}");
                same!(cx, at(e.get_glev_at_index_mut(i, j, &g, &r)), (w.0 + want[i][j] * glev, glev), "transformed scheme switch mutable entry {i},{j}");
            }
        }
    }
    Ok(())
}

fn sizes(cx: &mut Cx) -> R {
    // an entity is accepted for exactly the parameters that give its size
    let std = Stddev(0.0);
    let mut shapes = vec![];
    for k in 1..=3usize { for n in [2usize, 4, 8] { for c in 1..=3usize { shapes.push((k, n, c)); } } }
    for (k, n, c) in &shapes {
        let g = GlweDef { dim: GlweDimension { size: GlweSize(*k), polynomial_degree: PolynomialDegree(*n) }, std };
        let r = RadixDecomposition { count: RadixCount(*c), radix_log: RadixLog(1) };
        let glwe = GlweCiphertext::<u64>::new(&g);
        let glev = GlevCiphertext::<u64>::new(&g, &r);
        let ggsw = GgswCiphertext::<u64>::new(&g, &r);
        let ssk = SchemeSwitchKey::<u64>::new(&g, &r);
        for (k2, n2, c2) in &shapes {
            let d2 = GlweDimension { size: GlweSize(*k2), polynomial_degree: PolynomialDegree(*n2) };
            let rc = RadixCount(*c2);
            let gl = (k2 + 1) * n2;
            same!(cx, glwe.check_is_valid(d2).is_ok(), (k + 1) * n == gl, "GLWE {k},{n} as {k2},{n2}");
            same!(cx, glev.check_is_valid((d2, rc)).is_ok(), (k + 1) * n * c == gl * c2, "GLev {k},{n},{c} as {k2},{n2},{c2}");
            same!(cx, ggsw.check_is_valid((d2, rc)).is_ok(), (k + 1) * (k + 1) * n * c == (k2 + 1) * gl * c2, "GGSW {k},{n},{c} as {k2},{n2},{c2}");
            same!(cx, ssk.check_is_valid((d2, rc)).is_ok(), (k + 1) * n * c * k * (k + 1) / 2 == gl * c2 * k2 * (k2 + 1) / 2, "scheme switch key {k},{n},{c} as {k2},{n2},{c2}");
            cx.ev(true);
            ensure!(must_panic(|| glev.assert_is_valid((d2, rc))) == ((k + 1) * n * c != gl * c2), "assertion of GLev {k},{n},{c} as {k2},{n2},{c2}");
        }
    }
    Ok(())
}

fn pairs(n: usize, cx: &mut Cx) -> R {
    let v: Vec<usize> = (0..n).collect();
    let mut want = vec![];
    for i in 0..n { for j in i..n { want.push((i, j)); } }
    same!(cx, v.iter().copied().triangular_pairs().collect::<Vec<_>>(), want, "triangular pairs of {n}");
    let mut it = v.iter().copied().triangular_pairs();
    for w in &want { same!(cx, it.next(), Some(*w), "triangular pair"); }
    same!(cx, (it.next(), it.next()), (None, None), "after the last triangular pair");
    same!(cx, v.par_iter().copied().par_triangular_pairs().collect::<Vec<_>>(), want, "parallel triangular pairs of {n}");
    let mut s: Vec<_> = v.par_iter().copied().par_triangular_pairs().map(|x| x).fold(Vec::new, |mut a, x| { a.push(x); a }).reduce(Vec::new, |mut a, b| { a.extend(b); a });
    s.sort();
    same!(cx, s, want, "parallel triangular pairs of {n} folded");
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("T06", "exploration",
        "every operation sequence (next, next_back, nth, nth_back) up to the depth bound on every iterator type over 0-5 parts of 1-3 words, mutable and not, with the remaining length compared after each operation; every partial consumption followed by each adaptor; every split tree of the parallel producers; every part accessor of every entity over a grid of shapes; oracle: index arithmetic on addresses");
    let q = ck.tier(6, 8);
    macro_rules! t { ($q:expr, $a:ident, $b:ident, $c:ident, $d:ident) => { seqs!(&ck, $q, $a, $b, $c, $d, T64, Torus::<u64>::from(0)) } }
    macro_rules! f { ($q:expr, $a:ident, $b:ident, $c:ident, $d:ident) => { seqs!(&ck, $q, $a, $b, $c, $d, C, Complex::new(0.0, 0.0)) } }
    seqs!(&ck, q, PolynomialIterator, PolynomialIteratorMut, ParallelPolynomialIterator, ParallelPolynomialIteratorMut, u32, 0u32);
    t!(q, LweCiphertextIterator, LweCiphertextIteratorMut, ParallelLweCiphertextIterator, ParallelLweCiphertextIteratorMut);
    f!(q - 1, GlweCiphertextFftIterator, GlweCiphertextFftIteratorMut, ParallelGlweCiphertextFftIterator, ParallelGlweCiphertextFftIteratorMut);
    let q = q - 2;
    t!(q, GlweCiphertextIterator, GlweCiphertextIteratorMut, ParallelGlweCiphertextIterator, ParallelGlweCiphertextIteratorMut);
    t!(q, LevCiphertextIterator, LevCiphertextIteratorMut, ParallelLevCiphertextIterator, ParallelLevCiphertextIteratorMut);
    t!(q, GlevCiphertextIterator, GlevCiphertextIteratorMut, ParallelGlevCiphertextIterator, ParallelGlevCiphertextIteratorMut);
    t!(q, GgswCiphertextIterator, GgswCiphertextIteratorMut, ParallelGgswCiphertextIterator, ParallelGgswCiphertextIteratorMut);
    t!(q, GlweKeyswitchKeyIterator, GlweKeyswitchKeyIteratorMut, ParallelGlweKeyswitchKeyIterator, ParallelGlweKeyswitchKeyIteratorMut);
    t!(q, SchemeSwitchKeyIterator, SchemeSwitchKeyIteratorMut, ParallelSchemeSwitchKeyIterator, ParallelSchemeSwitchKeyIteratorMut);
    t!(q, PrivateFunctionalKeyswitchKeyIter, PrivateFunctionalKeyswitchKeyIterMut, ParallelPrivateFunctionalKeyswitchKeyIter, ParallelPrivateFunctionalKeyswitchKeyIterMut);
    f!(q, PolynomialFftIterator, PolynomialFftIteratorMut, ParallelPolynomialFftIterator, ParallelPolynomialFftIteratorMut);
    f!(q, GlevCiphertextFftIterator, GlevCiphertextFftIteratorMut, ParallelGlevCiphertextFftIterator, ParallelGlevCiphertextFftIteratorMut);
    f!(q, GgswCiphertextFftIterator, GgswCiphertextFftIteratorMut, ParallelGgswCiphertextFftIterator, ParallelGgswCiphertextFftIteratorMut);
    f!(q, SchemeSwitchKeyFftIterator, SchemeSwitchKeyFftIteratorMut, ParallelSchemeSwitchKeyFftIterator, ParallelSchemeSwitchKeyFftIteratorMut);
    f!(q, GlweKeyswitchKeyFftIterator, GlweKeyswitchKeyFftIteratorMut, ParallelGlweKeyswitchKeyFftIterator, ParallelGlweKeyswitchKeyFftIteratorMut);
    let mut shapes = vec![];
    for d in 1..=ck.tier(3, 5) {
        for d2 in 1..=ck.tier(3, 4) {
            for k in 1..=ck.tier(3, 4) {
                for n in [1usize, 2, 4, 8, 16] {
                    for c in 1..=ck.tier(3, 4) {
                        shapes.push(Shape { d, d2, k, n, c });
                    }
                }
            }
        }
    }
    ck.par("parts of entities", &shapes, |s| format!("{s:?}"), entities);
    ck.case("entity sizes", "accepted for exactly their own size", sizes);
    for n in 0..=ck.tier(12, 30) {
        ck.case("triangular pairs", format!("{n} items"), |cx| pairs(n, cx));
    }
    let _ = catch(|| ());
    ck.finish()
}
