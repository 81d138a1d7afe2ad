//! S03: combinations.
use mc::{ensure, same, Ck};
use sunscreen_math::combination::{insert_element_into_reduced_combination, Combinations};

/// Reference: all t-subsets of 0..n in lexicographic order, from bit masks.
fn reference(n: usize, t: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0u32..1 << n)
        .filter(|m| m.count_ones() as usize == t)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
        .collect();
    v.sort();
    v
}

pub fn run() -> ! {
    let ck = Ck::new("S03", "exploration",
        "every (n, t) with n up to the bound: full enumeration, every rank, every subset, every inserted element, against subsets of 0..n listed from bit masks; counts for every (n, t) whose exact value fits usize, against Pascal's triangle in u128");
    let nmax = ck.tier(14, 18);
    let mut nt = vec![];
    for n in 1..=nmax { for t in 0..=n { nt.push((n, t)); } }
    ck.par("enumeration and ranking", &nt, |(n, t)| format!("n={n} t={t}"), |&(n, t), cx| {
        let want = reference(n, t);
        let c = Combinations::new(n, t).map_err(|e| format!("refused: {e}"))?;
        let got: Vec<Vec<usize>> = c.clone().take(want.len() + 2).collect();
        same!(cx, got, want, "enumeration of {t} out of {n}");
        same!(cx, c.number_combinations(), want.len(), "count of {t} out of {n}");
        let mut it = Combinations::new(n, t).unwrap();
        for (i, w) in want.iter().enumerate() {
            same!(cx, c.at_index(i), Some(w.clone()), "at_index({i}) of {t} out of {n}");
            same!(cx, c.get_index(w), Ok(i), "get_index({w:?}) of {t} out of {n}");
            same!(cx, it.next(), Some(w.clone()), "element {i}");
            // queries on a partially advanced iterator are independent of its position
            if i % 7 == 0 {
                same!(cx, it.number_combinations(), want.len(), "count after {i} steps");
                same!(cx, it.get_index(w), Ok(i), "rank after {i} steps");
                same!(cx, it.at_index(i), Some(w.clone()), "unrank after {i} steps");
            }
        }
        for _ in 0..3 { same!(cx, it.next(), None, "iterator of {t} out of {n} past the end"); }
        for i in want.len()..want.len() + 3 { same!(cx, c.at_index(i), None, "at_index({i}) of {t} out of {n}"); }
        same!(cx, c.at_index(usize::MAX), None, "at_index(max) of {t} out of {n}");
        // wrong lengths and elements are errors
        for l in 0..n + 2 {
            if l != t {
                let v: Vec<usize> = (0..l).collect();
                same!(cx, c.get_index(&v).is_err(), true, "rank of a {l}-element list in {t} out of {n}");
            }
        }
        if t > 0 {
            for big in [n, n + 1, usize::MAX] {
                let mut v: Vec<usize> = (0..t).collect();
                v[t - 1] = big;
                same!(cx, c.get_index(&v).is_err(), true, "rank of {v:?} in {t} out of {n}");
            }
        }
        Ok(())
    });
    ck.case("construction", "refusals", |cx| {
        for n in 0..20 { for t in 0..22 {
            same!(cx, Combinations::new(n, t).is_ok(), n > 0 && t <= n, "new({n}, {t})");
        } }
        Ok(())
    });
    ck.par("inserting an element", &nt, |(n, t)| format!("n={n} t={t}"), |&(n, t), cx| {
        for w in reference(n, t) {
            for e in 0..=n {
                // remaining elements are those of 0..n renumbered around e
                let (i, g) = insert_element_into_reduced_combination(e, &w);
                let mut want: Vec<usize> = w.iter().map(|x| if *x >= e { x + 1 } else { *x }).collect();
                want.push(e);
                want.sort();
                let wi = want.iter().position(|x| *x == e).unwrap();
                same!(cx, (i, g.clone()), (wi, want), "inserting {e} into {w:?}");
                ensure!(g.windows(2).all(|p| p[0] < p[1]), "not strictly increasing: {g:?}");
            }
        }
        Ok(())
    });
    // growing every (t-1)-combination of n-1 elements by e lists exactly the t-combinations containing e, in order
    ck.par("growing enumerations", &nt, |(n, t)| format!("n={n} t={t}"), |&(n, t), cx| {
        if n < 2 || t == 0 { return Ok(()); }
        for e in 0..n {
            let got: Vec<Vec<usize>> = Combinations::new(n - 1, t - 1).unwrap().map(|c| insert_element_into_reduced_combination(e, &c).1).collect();
            let want: Vec<Vec<usize>> = reference(n, t).into_iter().filter(|c| c.contains(&e)).collect();
            let mut s = got.clone();
            s.sort();
            same!(cx, s, want, "{t}-combinations of {n} containing {e}");
        }
        Ok(())
    });
    // exact counts and rank round trips for large n
    let rows: Vec<usize> = (1..=ck.tier(130usize, 400)).collect();
    ck.par("large counts", &rows, |n| format!("n={n}"), |&n, cx| {
        let mut row: Vec<Option<u128>> = vec![Some(1)];
        for _ in 0..n {
            let mut nx = vec![Some(1)];
            for i in 1..row.len() { nx.push(row[i - 1].zip(row[i]).and_then(|(a, b)| a.checked_add(b))); }
            nx.push(Some(1));
            row = nx;
        }
        for t in 0..=n {
            let Some(w) = row[t] else { continue };
            let Ok(w) = usize::try_from(w) else { continue };
            let c = Combinations::new(n, t).unwrap();
            same!(cx, c.number_combinations(), w, "{n} choose {t}");
            for r in [0, 1, 2, w / 3, w / 2, w - w.min(2), w - 1] {
                if r >= w { continue; }
                let comb = c.at_index(r).ok_or(format!("at_index({r}) of {t} out of {n} is None"))?;
                ensure!(comb.len() == t && comb.windows(2).all(|p| p[0] < p[1]) && comb.iter().all(|x| *x < n), "at_index({r}) of {t} out of {n} = {comb:?}");
                same!(cx, c.get_index(&comb), Ok(r), "rank of {comb:?} of {t} out of {n}");
            }
            same!(cx, c.at_index(w), None, "at_index(count) of {t} out of {n}");
        }
        Ok(())
    });
    ck.finish()
}
