//! Monitors of the predicates and solvers of the mesh construction.
use crate::support::*;
use num::bigint::BigInt;
use num::{BigRational, Signed, Zero};
use subsweep::voronoi::math::precision_types::PrecisionError;
use subsweep::voronoi::math::utils::*;

type Q = BigRational;

fn q(x: f64) -> Q {
    Q::from_float(x).unwrap()
}

/// Exact determinant by fraction-free elimination of integers.
pub fn exact_det(m: &[Vec<f64>]) -> Q {
    let n = m.len();
    // common exponent
    let mut a: Vec<Vec<BigInt>> = vec![];
    let mut min_e = i64::MAX;
    let dec = |x: f64| -> (i64, i64) {
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64;
        let f = (bits & ((1 << 52) - 1)) as i64;
        let (mant, e) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
        (if x < 0.0 { -mant } else { mant }, e)
    };
    for row in m {
        for x in row {
            if *x != 0.0 {
                min_e = min_e.min(dec(*x).1);
            }
        }
    }
    if min_e == i64::MAX {
        return Q::zero();
    }
    for row in m {
        a.push(
            row.iter()
                .map(|x| {
                    if *x == 0.0 {
                        return BigInt::zero();
                    }
                    let (mant, e) = dec(*x);
                    BigInt::from(mant) << ((e - min_e) as usize)
                })
                .collect(),
        );
    }
    let mut sign = 1;
    let mut prev = BigInt::from(1);
    for k in 0..n - 1 {
        if a[k][k].is_zero() {
            match (k + 1..n).find(|i| !a[*i][k].is_zero()) {
                None => return Q::zero(),
                Some(i) => {
                    a.swap(i, k);
                    sign = -sign;
                }
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] = (&a[i][j] * &a[k][k] - &a[i][k] * &a[k][j]) / &prev;
            }
        }
        prev = a[k][k].clone();
    }
    let d = a[n - 1][n - 1].clone() * BigInt::from(sign);
    let e = min_e * n as i64;
    if e >= 0 {
        Q::from_integer(d << e as usize)
    } else {
        Q::new(d, BigInt::from(1) << (-e) as usize)
    }
}

fn sgn(x: &Q) -> i32 {
    if x.is_zero() {
        0
    } else if x.is_positive() {
        1
    } else {
        -1
    }
}
fn sign_num(s: Sign) -> i32 {
    match s {
        Sign::Positive => 1,
        Sign::Negative => -1,
        Sign::Zero => 0,
    }
}
fn permanent(m: &[Vec<f64>]) -> f64 {
    if m.len() == 1 {
        return m[0][0].abs();
    }
    (0..m.len())
        .map(|i| {
            let sub: Vec<Vec<f64>> = m.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, r)| r[1..].to_vec()).collect();
            m[i][0].abs() * permanent(&sub)
        })
        .sum()
}

fn arr<const N: usize>(m: &[Vec<f64>]) -> [[f64; N]; N] {
    let mut a = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = m[i][j];
        }
    }
    a
}

fn code_sign(m: &[Vec<f64>]) -> Result<Sign, String> {
    guarded(|| match m.len() {
        3 => determinant3x3_sign(arr::<3>(m)),
        4 => determinant4x4_sign(arr::<4>(m)),
        _ => determinant5x5_sign(arr::<5>(m)),
    })
}
fn code_det(m: &[Vec<f64>]) -> f64 {
    match m.len() {
        3 => determinant3x3(arr::<3>(m)),
        4 => determinant4x4(arr::<4>(m)),
        _ => determinant5x5(arr::<5>(m)),
    }
}
fn code_det_exact(m: &[Vec<f64>]) -> Q {
    match m.len() {
        3 => determinant3x3(lift_matrix(arr::<3>(m))),
        4 => determinant4x4(lift_matrix(arr::<4>(m))),
        _ => determinant5x5(lift_matrix(arr::<5>(m))),
    }
}

/// Largest entry for which the sign has to be exact, however close to singular the matrix is.
const LIMIT: f64 = 0.25;

fn ulps(r: &mut Rng, x: f64, k: i64) -> f64 {
    let d = r.irange(-k, k);
    if x == 0.0 {
        return if r.chance(0.7) { 0.0 } else { d as f64 * 2f64.powi(-60) };
    }
    f64::from_bits((x.to_bits() as i64 + d) as u64)
}

fn matrix(r: &mut Rng, n: usize) -> (Vec<Vec<f64>>, &'static str) {
    let mut m = vec![vec![0.0; n]; n];
    let style = r.below(9);
    let scale = if r.chance(0.6) { LIMIT } else { LIMIT * r.log_uniform(1e-6, 1.0) };
    let name = match style {
        0 => {
            for x in m.iter_mut().flatten() {
                *x = r.uniform(-scale, scale);
            }
            "random"
        }
        1 | 2 | 3 => {
            // A row that is a combination of the others, up to a few units in the last place.
            for x in m.iter_mut().flatten() {
                *x = r.uniform(-scale, scale) / n as f64;
            }
            let t = r.below(n);
            let coeff: Vec<f64> = (0..n).map(|_| r.uniform(-1.0, 1.0)).collect();
            for j in 0..n {
                m[t][j] = (0..n).filter(|i| *i != t).map(|i| m[i][j] * coeff[i]).sum();
            }
            if style == 2 {
                for j in 0..n {
                    m[t][j] = ulps(r, m[t][j], 4);
                }
            }
            if style == 3 {
                let eps = r.log_uniform(1e-18, 1e-9);
                for j in 0..n {
                    m[t][j] += eps * scale * r.uniform(-1.0, 1.0);
                }
            }
            "near-singular"
        }
        4 => {
            // Exactly singular or of rank one less, from small integers.
            for x in m.iter_mut().flatten() {
                *x = r.irange(-4, 4) as f64;
            }
            let t = r.below(n);
            let u = (t + 1 + r.below(n - 1)) % n;
            let (a, b) = (r.irange(-2, 2) as f64, r.irange(-2, 2) as f64);
            let w = (0..n).find(|k| *k != t && *k != u).unwrap();
            for j in 0..n {
                m[t][j] = a * m[u][j] + b * m[w][j];
            }
            let f = 2f64.powi(-(r.range(7, 60) as i32));
            for x in m.iter_mut().flatten() {
                *x *= f;
            }
            "exactly-singular"
        }
        5 => {
            // Almost equal columns / rows
            let base: Vec<f64> = (0..n).map(|_| r.uniform(-scale, scale)).collect();
            for i in 0..n {
                for j in 0..n {
                    let x = r.uniform(-scale, scale);
                    m[i][j] = if j < 2 { ulps(r, base[i], 3) } else { x };
                }
            }
            "equal-columns"
        }
        6 => {
            // Sparse
            for x in m.iter_mut().flatten() {
                *x = if r.chance(0.5) { 0.0 } else { r.uniform(-scale, scale) };
            }
            "sparse"
        }
        7 => {
            // The in-sphere matrix of nearly cospherical points.
            let rad = scale * 0.4;
            let ctr: Vec<f64> = (0..n - 2).map(|_| r.uniform(-0.1, 0.1) * scale).collect();
            for row in m.iter_mut() {
                let mut v: Vec<f64> = (0..n - 2).map(|_| r.uniform(-1.0, 1.0)).collect();
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                for (x, o) in v.iter_mut().zip(&ctr) {
                    *x = *x / l * rad + o;
                }
                row[0] = 0.25;
                row[1..n - 1].copy_from_slice(&v);
                row[n - 1] = v.iter().map(|x| x * x).sum::<f64>();
            }
            let (i, j) = (r.below(n), r.range(1, n - 1));
            if r.chance(0.5) {
                m[i][j] = ulps(r, m[i][j], 2);
            }
            "cospherical"
        }
        _ => {
            // Wide range of magnitudes
            for x in m.iter_mut().flatten() {
                *x = r.log_uniform(1e-30, LIMIT) * if r.chance(0.5) { -1.0 } else { 1.0 };
            }
            "wide-range"
        }
    };
    for x in m.iter_mut().flatten() {
        *x = x.clamp(-LIMIT, LIMIT);
    }
    (m, name)
}

pub fn signs(c: &Ctx) -> Report {
    let n = c.n(12_000, 250_000);
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 400 + w as u64);
        for _ in 0..n {
            let d = 3 + r.below(3);
            let (m, name) = matrix(&mut r, d);
            rep.case();
            let exact = exact_det(&m);
            let expected = sgn(&exact);
            let per = permanent(&m);
            match code_sign(&m) {
                Err(e) => rep.violation(format!("sign of the {d}x{d} matrix {m:?}: panic: {e}")),
                Ok(s) => {
                    rep.check(sign_num(s) == expected, || format!("sign of the determinant of the {d}x{d} matrix {m:?} is {expected}, reported {s:?}"));
                }
            }
            let f = code_det(&m);
            let err = if r.chance(0.3) { (q(f) - &exact).abs() } else { Q::zero() };
            rep.check(err <= q(1e-13) * q(per) + q(1e-300), || format!("determinant of {m:?} as float: {f:e}"));
            if r.chance(0.05) {
                rep.count("exact_values_compared", 1);
                let e = code_det_exact(&m);
                rep.check(e == exact, || format!("exact determinant of {m:?} is {exact}, reported {e}"));
            }
            let rel = f.abs() < 1e-12 * per;
            if rel {
                rep.count(&format!("{d}x{d}_near_degenerate"), 1);
                rep.nontrivial(&(d, m.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>()));
                // Where plain floating point would get it wrong.
                let plain = if f > 0.0 { 1 } else if f < 0.0 { -1 } else { 0 };
                if plain != expected {
                    rep.count(&format!("{d}x{d}_where_plain_floats_are_wrong"), 1);
                    rep.sample(|| format!("{name}: {m:?}: plain float determinant {f:e}, exact sign {expected}"));
                }
            }
            if expected == 0 {
                rep.count(&format!("{d}x{d}_exactly_singular"), 1);
            }
            rep.count(name, 1);
            // Well separated from zero: correct at any scale.
            let mut big = m.clone();
            let lim = 300.0 / d as f64;
            let s = 10f64.powf(r.uniform(-lim, lim));
            for x in big.iter_mut().flatten() {
                *x = x.abs().max(1e-4).copysign(*x) * s;
            }
            let per = permanent(&big);
            let e = exact_det(&big);
            if per.is_finite() && num::ToPrimitive::to_f64(&e).map(|e| e.abs() > 1e-11 * per) == Some(true) {
                rep.case();
                rep.count("well_separated_at_any_scale", 1);
                match code_sign(&big) {
                    Err(p) => rep.violation(format!("sign of {big:?}: panic: {p}")),
                    Ok(s) => {
                        rep.check(sign_num(s) == sgn(&e), || format!("sign of the determinant of {big:?} is {}, reported {s:?}", sgn(&e)));
                    }
                }
            }
            if rep.violations.len() > 5 {
                return;
            }
        }
        // The algebra of signs.
        let all = [Sign::Positive, Sign::Negative, Sign::Zero];
        for a in all {
            for b in all {
                rep.case();
                let p = sign_num(a * b);
                rep.check(p == sign_num(a) * sign_num(b), || format!("{a:?} * {b:?} = {:?}", a * b));
            }
            rep.check(a.is_positive() == (sign_num(a) == 1) && a.is_negative() == (sign_num(a) == -1), || format!("{a:?}.is_positive/is_negative"));
            let z = guarded(|| {
                a.panic_if_zero(|| "zero");
            });
            rep.check(z.is_err() == (a == Sign::Zero), || format!("{a:?}.panic_if_zero"));
        }
        for _ in 0..2000 {
            let x = if r.chance(0.1) { 0.0 } else { r.log_uniform(1e-30, 1e30) * if r.chance(0.5) { -1.0 } else { 1.0 } };
            let eps = if r.chance(0.2) { x.abs() } else { r.log_uniform(1e-30, 1e30) };
            rep.case();
            let expected = if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
            rep.check(sign_num(Sign::of(x)) == expected, || format!("Sign::of({x})"));
            match Sign::try_from_val(&x, eps) {
                Ok(s) => rep.check(sign_num(s) == expected && x.abs() >= eps, || format!("the sign of {x:e} was trusted although the error bound is {eps:e} (or is wrong): {s:?}")),
                Err(PrecisionError) => rep.check(x.abs() < eps, || format!("the sign of {x:e} was not trusted with the error bound {eps:e}")),
            };
            rep.check(PrecisionError::check(&x, eps).is_err() == (x.abs() < eps), || format!("PrecisionError::check({x:e}, {eps:e})"));
            // Exact numbers are always trusted.
            let e = q(x);
            rep.check(Sign::try_from_val(&e, eps).map(sign_num) == Ok(expected), || format!("exact {x:e} with {eps:e}"));
        }
    })
}

fn exact_solve(a: &[Vec<f64>]) -> Option<Vec<Q>> {
    let n = a.len();
    let mut m: Vec<Vec<Q>> = a.iter().map(|r| r.iter().map(|x| q(*x)).collect()).collect();
    for k in 0..n {
        let p = (k..n).find(|i| !m[*i][k].is_zero())?;
        m.swap(p, k);
        let inv = m[k][k].recip();
        for j in k..=n {
            m[k][j] = &m[k][j] * &inv;
        }
        for i in 0..n {
            if i != k && !m[i][k].is_zero() {
                let f = m[i][k].clone();
                for j in k..=n {
                    let t = &f * &m[k][j];
                    m[i][j] = &m[i][j] - t;
                }
            }
        }
    }
    Some((0..n).map(|i| m[i][n].clone()).collect())
}

fn sys<const M: usize, const N: usize>(a: &[Vec<f64>]) -> [[f64; N]; M] {
    let mut x = [[0.0; N]; M];
    for i in 0..M {
        for j in 0..N {
            x[i][j] = a[i][j];
        }
    }
    x
}

fn system(r: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let style = r.below(6);
    let mut a = vec![vec![0.0; n + 1]; n];
    for i in 0..n {
        for j in 0..=n {
            a[i][j] = match style {
                0 => r.uniform(-1.0, 1.0),
                1 => r.irange(-3, 3) as f64,
                2 => {
                    if r.chance(0.4) {
                        0.0
                    } else {
                        r.uniform(-2.0, 2.0)
                    }
                }
                // tiny pivots
                3 => r.uniform(-1.0, 1.0) * if i == j { 1e-14 } else { 1.0 },
                4 => r.uniform(-1.0, 1.0) * if j == 0 && i == 0 { 1e-17 } else { 1.0 },
                _ => r.log_uniform(1e-4, 1e4) * if r.chance(0.5) { -1.0 } else { 1.0 },
            };
        }
    }
    if style == 1 && r.chance(0.4) {
        // permuted triangular: zero pivots on the way
        for i in 0..n {
            for j in 0..i {
                a[i][j] = 0.0;
            }
            if a[i][i] == 0.0 {
                a[i][i] = 1.0;
            }
        }
        r.shuffle(&mut a);
    }
    if r.chance(0.3) {
        // with a known solution
        let x: Vec<f64> = (0..n).map(|_| r.uniform(-2.0, 2.0)).collect();
        for row in a.iter_mut() {
            row[n] = (0..n).map(|j| row[j] * x[j]).sum();
        }
    }
    a
}

fn residual(a: &[Vec<f64>], x: &[f64]) -> f64 {
    let n = a.len();
    let mut worst = 0.0f64;
    if x.iter().any(|x| !x.is_finite()) {
        return f64::INFINITY;
    }
    // Relative to the size of the system: what a backward stable solver guarantees.
    let amax = a.iter().flat_map(|r| r[..n].iter()).fold(0.0f64, |m, x| m.max(x.abs()));
    let xs: f64 = x.iter().map(|x| x.abs()).sum();
    for row in a {
        let mut res = q(row[n]);
        for j in 0..n {
            res = res - q(row[j]) * q(x[j]);
        }
        let res = num::ToPrimitive::to_f64(&res.abs()).unwrap();
        worst = worst.max(res / (amax * xs + row[n].abs()).max(f64::MIN_POSITIVE));
    }
    worst
}

/// The pivots of elimination with row exchanges.
fn pivots(a: &[Vec<f64>]) -> Vec<f64> {
    let n = a.len();
    let mut m = a.to_vec();
    let mut out = vec![];
    for k in 0..n {
        let p = (k..n).max_by(|i, j| m[*i][k].abs().partial_cmp(&m[*j][k].abs()).unwrap()).unwrap();
        m.swap(p, k);
        out.push(m[k][k].abs());
        if m[k][k] == 0.0 {
            return out;
        }
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..=n {
                m[i][j] -= f * m[k][j];
            }
        }
    }
    out
}

pub fn solvers(c: &Ctx) -> Report {
    let n = c.n(15_000, 200_000);
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 500 + w as u64);
        for _ in 0..n {
            let m = 2 + r.below(2);
            let a = system(&mut r, m);
            rep.case();
            let exact = exact_solve(&a);
            if let Some(x) = &exact {
                // Exact arithmetic: exactly the solution.
                let got: Result<Vec<Q>, String> = guarded(|| match m {
                    2 => {
                        let s = sys::<2, 3>(&a).map(|r| r.map(q));
                        solve_system_of_equations::<2, Q>(s).to_vec()
                    }
                    _ => {
                        let s = sys::<3, 4>(&a).map(|r| r.map(q));
                        solve_system_of_equations::<3, Q>(s).to_vec()
                    }
                });
                match got {
                    Err(e) => rep.violation(format!("exact solution of {a:?}: panic: {e}")),
                    Ok(g) => {
                        rep.check(&g == x, || format!("exact solution of {a:?} is {:?}, reported {:?}", x.iter().map(|x| x.to_string()).collect::<Vec<_>>(), g.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                    }
                }
                rep.count("exact_solutions", 1);
            } else {
                rep.count("singular_systems", 1);
            }
            let pv = pivots(&a);
            let well = pv.iter().cloned().fold(f64::INFINITY, f64::min) > 1e-6;
            if well {
                let got: Result<Vec<f64>, String> = guarded(|| match m {
                    2 => solve_system_of_equations::<2, f64>(sys::<2, 3>(&a)).to_vec(),
                    _ => solve_system_of_equations::<3, f64>(sys::<3, 4>(&a)).to_vec(),
                });
                match got {
                    Err(e) => rep.violation(format!("solution of {a:?}: panic: {e}")),
                    Ok(x) => {
                        let res = residual(&a, &x);
                        rep.maximum("largest_residual_general", res);
                        rep.check(res < 1e-12, || format!("solution {x:?} of {a:?} has relative residual {res:e}"));
                    }
                }
                rep.nontrivial(&a.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                rep.count("float_solutions", 1);
                // The same system in other units.
                let f = 2f64.powi(r.irange(-200, 200) as i32);
                let b: Vec<Vec<f64>> = a.iter().map(|row| row.iter().map(|x| x * f).collect()).collect();
                let got: Result<Vec<f64>, String> = guarded(|| match m {
                    2 => solve_system_of_equations::<2, f64>(sys::<2, 3>(&b)).to_vec(),
                    _ => solve_system_of_equations::<3, f64>(sys::<3, 4>(&b)).to_vec(),
                });
                match got {
                    Err(e) => rep.violation(format!("solution of {b:?}: panic: {e}")),
                    Ok(x) => {
                        let res = residual(&b, &x);
                        rep.check(res < 1e-12, || format!("solution {x:?} of {b:?} has relative residual {res:e}"));
                    }
                }
                if m == 3 && f >= 1.0 {
                    match guarded(|| solve_3x4_system_of_equations_error(sys::<3, 4>(&b))) {
                        Ok(Ok(x)) => {
                            let res = residual(&b, &x);
                            rep.check(res < 1e-12, || format!("3x4 solution {x:?} of {b:?} has relative residual {res:e}"));
                        }
                        e => rep.violation(format!("no solution was given for the well-conditioned system {b:?}: {e:?}")),
                    }
                }
            }
            if m == 3 {
                match guarded(|| solve_3x4_system_of_equations_error(sys::<3, 4>(&a))) {
                    Err(e) => rep.violation(format!("3x4 solution of {a:?}: panic: {e}")),
                    Ok(Ok(x)) => {
                        let res = residual(&a, &x);
                        rep.maximum("largest_residual_3x4", res);
                        rep.check(res < 1e-12, || format!("3x4 solution {x:?} of {a:?} has relative residual {res:e}"));
                        rep.check(exact.is_some() || a.iter().flatten().any(|x| x.abs() > 10.0), || format!("the singular system {a:?} was solved: {x:?}"));
                        rep.count("3x4_solutions", 1);
                        rep.sample(|| format!("{a:?} -> {x:?}"));
                    }
                    Ok(Err(PrecisionError)) => {
                        rep.check(!well, || format!("no solution was given for the well-conditioned system {a:?}"));
                        rep.count("3x4_refused", 1);
                    }
                }
            }
            if rep.violations.len() > 5 {
                return;
            }
        }
    })
}
