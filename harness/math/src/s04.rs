//! S04: security estimator, over the whole integer dimension range and fine grids of levels and noise.
use mc::{ensure, same, Ck};
use sunscreen_math::security::*;

/// log10 of the two-sided Gaussian tail by an independent method: erfc by continued fraction
/// (Lentz) for large arguments and by Taylor series of erf for small ones.
fn log10_tail(r: f64) -> f64 {
    let z = r / std::f64::consts::SQRT_2;
    if z < 2.0 {
        let (mut term, mut sum) = (z, z);
        for n in 1..200 {
            term *= -z * z / n as f64;
            sum += term / (2 * n + 1) as f64;
        }
        (1.0 - 2.0 / std::f64::consts::PI.sqrt() * sum).log10()
    } else {
        let mut f = 0.0;
        for k in (1..=400).rev() {
            f = (k as f64 / 2.0) / (z + f);
        }
        (-z * z) * std::f64::consts::LOG10_E - ((z + f) * std::f64::consts::PI.sqrt()).log10()
    }
}

pub fn run() -> ! {
    let ck = Ck::new("S04", "exploration",
        "every dimension 368..=2048 with a grid of security levels (78..130) and of noise levels (whole accepted range); round trips within the documented 0.11% error, strict monotonicity between neighbouring grid points in noise and in dimension, acceptance inside and refusal outside the documented ranges; every comparison is one evaluation");
    ck.assume("monotonicity between grid points is taken from the grid: the functions are fixed low-degree polynomials");
    let dims: Vec<usize> = (368..=2048).collect();
    let per = ck.tier(4, 40);
    ck.par("level to noise and back", &dims, |d| format!("dimension {d}"), |&d, cx| {
        let mut prev: Option<f64> = None;
        for i in 0..=52 * per {
            let l = 78. + i as f64 / per as f64;
            match lwe_security_level_to_std(d, l) {
                Ok(s) => {
                    ensure!(s.is_finite() && s > 0.0 && s < 1.0, "std {s:e} at level {l}");
                    if let Some(p) = prev {
                        cx.ev(true);
                        ensure!(s > p, "noise does not rise with the security level at {l}: {p:e} then {s:e}");
                    }
                    prev = Some(s);
                    if d < 2048 {
                        if let Ok(t) = lwe_security_level_to_std(d + 1, l) {
                            cx.ev(true);
                            ensure!(t < s, "the same security {l} at a larger dimension needs {t:e}, not less noise than {s:e}");
                        }
                    }
                    ensure!(s.log10() > -17.75, "level {l} accepted below the smallest amount of noise: {s:e}");
                    match lwe_std_to_security_level(d, s) {
                        Ok(b) => {
                            cx.ev(true);
                            ensure!((b - l).abs() <= 0.0011 * l, "level {l} -> noise {s:e} -> level {b}");
                        }
                        // the two documented regions are the same up to the fit's error at their edges
                        Err(_) => ensure!(d < 386 || l < 78.3 || l > 129.5 || s.log10() < -17.6, "level {l} -> noise {s:e}, which is then refused"),
                    }
                }
                Err(_) => {
                    cx.ev(true);
                    // only the region below the smallest possible noise may be refused
                    ensure!(d >= 1430, "refused the documented level {l}");
                    ensure!(prev.is_none(), "level {l} refused above an accepted one");
                    if let Some(p) = d.checked_sub(1).and_then(|e| lwe_security_level_to_std(e, l).ok()) {
                        ensure!(p.log10() < -17.2, "level {l} refused although dimension {} needs noise {p:e}", d - 1);
                    }
                }
            }
        }
        Ok(())
    });
    ck.par("noise to level and back", &dims, |d| format!("dimension {d}"), |&d, cx| {
        let n = ck.tier(100, 1000);
        let mut prev: Option<f64> = None;
        let mut closed = false;
        for i in 0..=20 * n {
            let ls = -18.0 + i as f64 / n as f64;
            let std = 10f64.powf(ls);
            match lwe_std_to_security_level(d, std) {
                Ok(l) => {
                    cx.ev(true);
                    ensure!(!closed, "the accepted noise levels are not an interval at 10^{ls}");
                    ensure!(l > 77.8 && l < 130.4, "noise 10^{ls} gives level {l} outside the documented range");
                    if let Some(p) = prev { ensure!(l > p, "security does not rise with noise at 10^{ls}: {p} then {l}"); }
                    prev = Some(l);
                    if d < 2048 {
                        if let Ok(m) = lwe_std_to_security_level(d + 1, std) {
                            cx.ev(true);
                            ensure!(m > l, "security does not rise with dimension at 10^{ls}: {l} then {m}");
                        }
                    }
                    match lwe_security_level_to_std(d, l) {
                        Ok(s) => { cx.ev(true); ensure!((s.log10() - ls).abs() < 0.03, "noise 10^{ls} -> level {l} -> noise {s:e}"); }
                        Err(_) => ensure!(!(78.2..=129.8).contains(&l) || ls < -17.2, "noise 10^{ls} -> level {l}, which is then refused"),
                    }
                }
                Err(_) => { if prev.is_some() { closed = true; } }
            }
        }
        let _ = prev;
        Ok(())
    });
    ck.par("every documented dimension is accepted", &dims, |d| format!("dimension {d}"), |&d, cx| {
        // the noise of a mid-range security level converts back
        cx.ev(true);
        let l = if d < 1700 { 100.0 } else { 120.0 };
        let s = lwe_security_level_to_std(d, l).map_err(|e| format!("level {l} refused: {e}"))?;
        ensure!(lwe_std_to_security_level(d, s).is_ok(), "noise {s:e} (security level {l}) refused at a documented dimension");
        Ok(())
    });
    ck.case("refusals", "outside the documented ranges", |cx| {
        for d in (0..368).chain(2049..2600).chain([4096, 1 << 20, usize::MAX]) {
            for l in [78.0, 80.0, 100.0, 128.0, 130.0] {
                same!(cx, lwe_security_level_to_std(d, l).is_err(), true, "dimension {d} level {l} refused");
            }
            for ls in [-17.0, -10.0, -5.0, -3.0, -1.0] {
                same!(cx, lwe_std_to_security_level(d, 10f64.powf(ls)).is_err(), true, "dimension {d} noise 10^{ls} refused");
            }
        }
        for d in dims.iter().step_by(ck.tier(7, 1)) {
            for l in [77.99, 77.0, 0.0, -80.0, 130.01, 131.0, 256.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
                same!(cx, lwe_security_level_to_std(*d, l).is_err(), true, "dimension {d} level {l} refused");
            }
            for s in [0.0, -0.0, -1e-5, 1.0, 10.0, 1e-18, 1e-30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE] {
                same!(cx, lwe_std_to_security_level(*d, s).is_err(), true, "dimension {d} noise {s} refused");
            }
        }
        // the error names what was refused
        let e = lwe_security_level_to_std(100, 90.0).unwrap_err();
        same!(cx, e.value(), (100.0, 90.0), "value of the error");
        same!(cx, e.dimensions()[0].as_str(), "dimension", "first dimension of the error");
        let e = lwe_std_to_security_level(100, 0.01).unwrap_err();
        same!(cx, e.value(), (100.0, (0.01f64).log10()), "value of the error");
        Ok(())
    });
    ck.case("gaussian tail", "ratios 0.01..30, scales", |cx| {
        let n = ck.tier(100, 1000);
        for i in 1..=30 * n {
            let r = i as f64 / n as f64;
            let want = log10_tail(r);
            for std in [1.0, 1e-6, 3.2, 1e9] {
                let g = probability_away_from_mean_gaussian(r * std, std);
                cx.ev(true);
                // 1 - cdf loses digits to cancellation up to ratio 7; the fit is good to 0.00145%
                ensure!((g - want).abs() <= 2e-3 * want.abs().max(0.01), "log10 P(|X| > {r} sigma) = {g}, exact {want}");
            }
        }
        Ok(())
    });
    ck.case("2D polynomial", "small coefficient grids", |cx| {
        // each coefficient in turn, exact small integers
        for i in 0..4 { for j in 0..3 { for x in -3..=3i32 { for y in -3..=3i32 {
            let mut c = [[0.0; 3]; 4];
            c[i][j] = 2.0;
            c[0][0] += 5.0;
            let want = 2.0 * (x as f64).powi(i as i32) * (y as f64).powi(j as i32) + 5.0;
            same!(cx, evaluate_polynomial_2d(&c, x as f64, y as f64), want, "coefficient ({i},{j}) at ({x},{y})");
        } } } }
        Ok(())
    });
    ck.finish()
}
