//! Monitors of extents and of directions.
use crate::support::*;
use glam::{DVec2, DVec3};
use rand::SeedableRng;
use subsweep::sweep::verif_core::direction::*;
use subsweep::verif_core::*;
use subsweep::voronoi::math::traits::*;

fn coord(r: &mut Rng, style: usize) -> f64 {
    match style {
        0 => r.uniform(-1.0, 1.0),
        1 => r.irange(-2, 2) as f64,
        2 => r.log_uniform(1e-10, 1e25) * if r.chance(0.5) { -1.0 } else { 1.0 },
        3 => -r.log_uniform(1e-3, 1e3),
        _ => 1e22 + r.uniform(0.0, 1e9),
    }
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-12 * scale.abs() + 1e-300
}

macro_rules! extent_monitor {
    ($name: ident, $vec: ty, $d: literal, $make: expr, $get: expr) => {
        fn $name(rep: &mut Report, r: &mut Rng, n: usize) {
            let get = $get;
            for _ in 0..n {
                rep.case();
                let style = r.below(5);
                let num = if r.chance(0.0002) { r.range(3000, 140_000) } else if r.chance(0.002) { r.range(200, 3000) } else { *r.pick(&[0, 1, 1, 2, 2, 3, 5, 20]) };
                let mut pts: Vec<$vec> = (0..num).map(|_| $make((0..$d).map(|_| coord(r, style)).collect::<Vec<f64>>())).collect();
                if num > 1 && r.chance(0.3) {
                    // monotone sequences, extremes at the ends
                    pts.sort_by(|a, b| get(a, 0).partial_cmp(&get(b, 0)).unwrap());
                    if r.chance(0.5) {
                        pts.reverse();
                    }
                }
                let e = guarded(|| Extent::from_points(pts.iter().cloned()));
                let e2 = guarded(|| get_extent_from_min_and_max_reduce(pts.iter().cloned(), <$vec as MinMax>::min, <$vec as MinMax>::max));
                let (e, e2) = match (e, e2) {
                    (Ok(a), Ok(b)) => (a, b),
                    (a, b) => {
                        rep.violation(format!("extent of {pts:?}: panic: {:?} {:?}", a.err(), b.err()));
                        return;
                    }
                };
                if num == 0 {
                    rep.check(e.is_none() && e2.is_none(), || "no points have an extent".into());
                    continue;
                }
                let (e, e2) = match (e, e2) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        rep.violation(format!("no extent of {pts:?}"));
                        return;
                    }
                };
                for i in 0..$d {
                    let lo = pts.iter().map(|p| get(p, i)).fold(f64::INFINITY, f64::min);
                    let hi = pts.iter().map(|p| get(p, i)).fold(f64::NEG_INFINITY, f64::max);
                    for e in [&e, &e2] {
                        let ok = get(&e.min, i) == lo && get(&e.max, i) == hi;
                        rep.check(ok, || format!("extent of {pts:?} is {:?}..{:?}, dimension {i} should be {lo}..{hi}", e.min, e.max));
                        let s = lo.abs().max(hi.abs());
                        rep.check(close(get(&e.center, i), lo / 2.0 + hi / 2.0, s) && get(&e.center(), i) == get(&e.center, i), || format!("center of {:?}..{:?} is {:?}", e.min, e.max, e.center));
                        rep.check(close(get(&e.side_lengths(), i), hi - lo, s), || format!("sides of {:?}..{:?} are {:?}", e.min, e.max, e.side_lengths()));
                        let p = e.including_periodic_images();
                        rep.check(
                            close(get(&p.min, i), lo - (hi - lo), s) && close(get(&p.max, i), hi + (hi - lo), s) && close(get(&p.center, i), lo / 2.0 + hi / 2.0, s),
                            || format!("with its periodic images {:?}..{:?} becomes {:?}..{:?} around {:?}", e.min, e.max, p.min, p.max, p.center),
                        );
                    }
                }
                let longest = (0..$d).map(|i| get(&e.max, i) - get(&e.min, i)).fold(0.0, f64::max);
                rep.check(e.max_side_length() == longest, || format!("longest side of {:?}..{:?} is {}", e.min, e.max, e.max_side_length()));
                // The vectors the extent is made of
                if num > 1 {
                    let (a, b) = (pts[0], pts[1]);
                    let d2: f64 = (0..$d).map(|i| (get(&a, i) - get(&b, i)).powi(2)).sum();
                    let dot: f64 = (0..$d).map(|i| get(&a, i) * get(&b, i)).sum();
                    let dots: f64 = (0..$d).map(|i| (get(&a, i) * get(&b, i)).abs()).sum();
                    rep.check(close(a.distance_squared(b), d2, d2) && close(DVector::distance(&a, b), d2.sqrt(), d2.sqrt()), || format!("distance of {a:?} and {b:?}"));
                    rep.check(close(Dot::dot(a, b), dot, dots), || format!("{a:?} . {b:?}"));
                    let l: f64 = (0..$d).map(|i| get(&a, i).powi(2)).sum::<f64>().sqrt();
                    if l > 0.0 {
                        let n = DVector::normalize(&a);
                        rep.check((0..$d).all(|i| (get(&n, i) - get(&a, i) / l).abs() < 1e-12), || format!("{a:?} normalized is {n:?}"));
                    }
                    let mx = (0..$d).map(|i| get(&a, i)).fold(f64::NEG_INFINITY, f64::max);
                    rep.check(DVector::max_element(a) == mx, || format!("largest element of {a:?}"));
                }
                // numbers are vectors of one dimension
                let (a, b) = (get(&pts[0], 0), get(&pts[num - 1], 0));
                rep.check(close(DVector::distance(&a, b), (a - b).abs(), a.abs() + b.abs()) && close(a.distance_squared(b), (a - b) * (a - b), (a - b) * (a - b)) && close(Dot::dot(a, b), a * b, (a * b).abs()) && DVector::max_element(a) == a, || format!("distance, product or largest element of {a} and {b}"));
                rep.check(a == 0.0 || DVector::normalize(&a) == a.signum(), || format!("{a} normalized is {}", DVector::normalize(&a)));
                rep.count("points", num as u64);
                if num > 1 {
                    rep.nontrivial(&(stringify!($name), pts.iter().flat_map(|p| (0..$d).map(|i| get(p, i).to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()));
                    if num < 4 {
                        rep.sample(|| format!("{pts:?} -> {:?}..{:?}", e.min, e.max));
                    }
                }
                if rep.violations.len() > 3 {
                    return;
                }
            }
        }
    };
}
extent_monitor!(extent1, f64, 1, |v: Vec<f64>| v[0], |p: &f64, _i: usize| *p);
extent_monitor!(extent2, DVec2, 2, |v: Vec<f64>| DVec2::new(v[0], v[1]), |p: &DVec2, i: usize| p[i]);
extent_monitor!(extent3, DVec3, 3, |v: Vec<f64>| DVec3::new(v[0], v[1], v[2]), |p: &DVec3, i: usize| p[i]);

pub fn extents(c: &Ctx) -> Report {
    let mut rep = parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 900 + w as u64);
        extent1(rep, &mut r, c.n(20_000, 100_000));
        extent2(rep, &mut r, c.n(50_000, 200_000));
        extent3(rep, &mut r, c.n(50_000, 200_000));
        for _ in 0..2000 {
            let v = |r: &mut Rng| DVec3::new(r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0));
            let (a, b) = (v(&mut r), v(&mut r));
            rep.case();
            let x = Cross3d::cross(&a, &b);
            let want = DVec3::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
            rep.check((x - want).length() < 1e-12, || format!("{a:?} x {b:?} = {x:?}"));
            use subsweep::voronoi::math::precision_types::*;
            use num::ToPrimitive;
            let (pa, pb) = (PrecisionPoint3d::new(a), PrecisionPoint3d::new(b));
            let px = pa.cross(&pb);
            rep.check((DVec3::new(px.x.to_f64().unwrap(), px.y.to_f64().unwrap(), px.z.to_f64().unwrap()) - want).length() < 1e-12, || format!("exact {a:?} x {b:?}"));
            let pd = pa.clone().dot(pb.clone()).to_f64().unwrap();
            rep.check((pd - a.dot(b)).abs() < 1e-12, || format!("exact {a:?} . {b:?} = {pd}"));
            rep.check(Vector3d::x(&a) == a.x && Vector3d::y(&a) == a.y && Vector3d::z(&a) == a.z && Vector3d::x(&pa) == pa.x && Vector3d::y(&pa) == pa.y && Vector3d::z(&pa) == pa.z, || format!("components of {a:?}"));
            rep.check(pa.x.to_f64() == Some(a.x) && pa.y.to_f64() == Some(a.y) && pa.z.to_f64() == Some(a.z), || format!("exact version of {a:?} is {pa:?}"));
            let p2 = PrecisionPoint2d::new(DVec2::new(a.x, a.y));
            rep.check(p2.x.to_f64() == Some(a.x) && p2.y.to_f64() == Some(a.y) && Vector2d::x(&p2) == p2.x && Vector2d::y(&p2) == p2.y, || format!("exact version of {a:?} in 2d is {p2:?}"));
            let s = pa.clone() - pb.clone();
            rep.check((s.x.to_f64().unwrap() - (a.x - b.x)).abs() < 1e-15 && (s.y.to_f64().unwrap() - (a.y - b.y)).abs() < 1e-15 && (s.z.to_f64().unwrap() - (a.z - b.z)).abs() < 1e-15, || format!("exact {a:?} - {b:?}"));
        }
    });
    rep.count("dimensions", 3);
    rep
}

fn mul(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut m = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    m
}
fn diff(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> f64 {
    (0..9).map(|k| (a[k / 3][k % 3] - b[k / 3][k % 3]).abs()).fold(0.0, f64::max)
}
fn transpose(a: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut m = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = a[j][i];
        }
    }
    m
}
const ONE: [[f64; 3]; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
fn det(m: &[[f64; 3]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}

pub fn directions(c: &Ctx) -> Report {
    let mut rep = Report::new();
    // The tables: unit vectors, all different, evenly spread.
    for (num, dirs) in direction_bins() {
        rep.case();
        rep.nontrivial(&num);
        rep.check(dirs.len() == num, || format!("table for {num} directions has {}", dirs.len()));
        let v: Vec<DVec3> = dirs.iter().map(|d| DVec3::from_array(*d)).collect();
        let mut worst_norm = 0.0f64;
        let (mut near_min, mut near_max) = (f64::INFINITY, 0.0f64);
        for (i, a) in v.iter().enumerate() {
            worst_norm = worst_norm.max((a.length() - 1.0).abs());
            let near = v.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, b)| a.dot(*b).clamp(-1.0, 1.0).acos()).fold(f64::INFINITY, f64::min);
            near_min = near_min.min(near);
            near_max = near_max.max(near);
        }
        let mean = v.iter().sum::<DVec3>() / num as f64;
        let mut second = [[0.0; 3]; 3];
        for a in &v {
            for i in 0..3 {
                for j in 0..3 {
                    second[i][j] += 3.0 * a[i] * a[j] / num as f64;
                }
            }
        }
        // Covering radius: no direction of the sphere is far from all of them.
        let mut r = Rng::new(c.seed, 999);
        let mut cover = 0.0f64;
        for _ in 0..20000 {
            let p = DVec3::new(r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0));
            if p.length() > 1.0 || p.length() < 1e-3 {
                continue;
            }
            let p = p.normalize();
            cover = cover.max(v.iter().map(|a| a.dot(p).clamp(-1.0, 1.0).acos()).fold(f64::INFINITY, f64::min));
        }
        // in units of the radius of the cap that is one direction's share of the sphere
        let cap = (1.0 - 2.0 / num as f64).acos();
        rep.maximum(&format!("table_{num}_norm_error"), worst_norm);
        rep.maximum(&format!("table_{num}_mean"), mean.length());
        rep.maximum(&format!("table_{num}_second_moment_error"), diff(&second, &ONE));
        rep.maximum(&format!("table_{num}_cover_in_caps"), cover / cap);
        rep.maximum(&format!("table_{num}_nearest_in_caps_max"), near_max / cap);
        rep.maximum(&format!("table_{num}_nearest_in_caps_min_inverse"), cap / near_min);
        rep.check(worst_norm < 1e-5, || format!("{num} directions: not unit vectors, error {worst_norm:e}"));
        rep.check(mean.length() < 1e-5, || format!("{num} directions: mean {mean:?}"));
        rep.check(diff(&second, &ONE) < 0.02, || format!("{num} directions: second moments {second:?}"));
        rep.check(near_min / cap > 1.65, || format!("{num} directions: two of them are only {near_min} apart"));
        rep.check(cover / cap < 1.4, || format!("{num} directions: a part of the sphere is {cover} away from all"));
    }
    let par = parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 1000 + w as u64);
        for _ in 0..c.n(60_000, 400_000) {
            rep.case();
            let axis = match r.below(4) {
                0 => *r.pick(&[DVec3::X, DVec3::Y, DVec3::Z, -DVec3::X, -DVec3::Y, -DVec3::Z]),
                _ => {
                    let p = DVec3::new(r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0));
                    if p.length() < 1e-3 {
                        continue;
                    }
                    p.normalize()
                }
            };
            use std::f64::consts::PI;
            let angle = *r.pick(&[0.0, PI / 2.0, PI, 1.5 * PI, -PI / 2.0, r.clone().uniform(-7.0, 7.0), r.clone().uniform(0.0, 2.0 * PI), r.clone().uniform(-1e-3, 1e-3)]);
            let m = rotation_matrix(axis, angle);
            let bad = |s: &str| format!("rotation around {axis:?} by {angle}: {s}: {m:?}");
            rep.check(diff(&mul(&m, &transpose(&m)), &ONE) < 1e-12, || bad("not orthonormal"));
            rep.check((det(&m) - 1.0).abs() < 1e-12, || bad("determinant is not one"));
            let mut a = axis;
            multiply_by_matrix(&mut a, &m);
            rep.check((a - axis).length() < 1e-12, || bad("the axis moves"));
            // By the given angle, and in the positive sense: Rodrigues
            let p = DVec3::new(r.uniform(-3.0, 3.0), r.uniform(-3.0, 3.0), r.uniform(-3.0, 3.0));
            let want = p * angle.cos() + axis.cross(p) * angle.sin() + axis * axis.dot(p) * (1.0 - angle.cos());
            let mut got = p;
            multiply_by_matrix(&mut got, &m);
            rep.check((got - want).length() < 1e-11, || format!("rotation of {p:?} around {axis:?} by {angle} is {want:?}, reported {got:?}"));
            // Any matrix is applied as a matrix
            let mut g = [[0.0; 3]; 3];
            for x in g.iter_mut().flatten() {
                *x = r.uniform(-2.0, 2.0);
            }
            let mut got = p;
            multiply_by_matrix(&mut got, &g);
            let want = DVec3::new(DVec3::from_array(g[0]).dot(p), DVec3::from_array(g[1]).dot(p), DVec3::from_array(g[2]).dot(p));
            rep.check((got - want).length() < 1e-11, || format!("{g:?} times {p:?} is {want:?}, reported {got:?}"));
            rep.nontrivial(&(angle.to_bits(), axis.x.to_bits(), axis.y.to_bits()));
            rep.sample(|| format!("rotation around {axis:?} by {angle}"));
            rep.count("rotations", 1);
            if rep.violations.len() > 3 {
                return;
            }
        }
        // Random rotations
        let mut rng = rand::rngs::StdRng::seed_from_u64(c.seed * 8 + w as u64);
        let n = c.n(50_000, 500_000);
        let mut mean = [[0.0f64; 3]; 3];
        let mut axes = [[0.0f64; 3]; 3];
        let mut angles = [0u64; 50];
        let mut heights = [[0u64; 100]; 3];
        let mut around = [[0u64; 72]; 3];
        let mut again = rand::rngs::StdRng::seed_from_u64(c.seed * 8 + w as u64);
        let mut last = ONE;
        let mut change = [[0.0f64; 3]; 3];
        for k in 0..n {
            rep.case();
            let m = random_rotation_matrix(&mut rng);
            if k < 3000 {
                let m2 = random_rotation_matrix(&mut again);
                rep.check(m == m2, || format!("the {k}. rotations of the same seed are {m:?} and {m2:?}"));
            }
            // from the one before
            let rel = mul(&transpose(&last), &m);
            for i in 0..3 {
                for j in 0..3 {
                    change[i][j] += 9.0 * rel[i][j] / n as f64;
                }
            }
            last = m;
            rep.check(diff(&mul(&m, &transpose(&m)), &ONE) < 1e-12 && (det(&m) - 1.0).abs() < 1e-12, || format!("random rotation {m:?} is not a rotation"));
            for i in 0..3 {
                for j in 0..3 {
                    mean[i][j] += 3.0 * m[i][j] / n as f64;
                }
            }
            let axis = DVec3::new(m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]);
            let angle = axis.length().atan2(m[0][0] + m[1][1] + m[2][2] - 1.0);
            angles[((angle / std::f64::consts::PI * 50.0) as usize).min(49)] += 1;
            if axis.length() > 1e-9 {
                let axis = axis.normalize();
                for i in 0..3 {
                    heights[i][(((axis[i] + 1.0) * 50.0) as usize).min(99)] += 1;
                    let phi = axis[(i + 1) % 3].atan2(axis[i]);
                    around[i][(((phi / std::f64::consts::PI + 1.0) * 36.0) as usize).min(71)] += 1;
                    for j in 0..3 {
                        axes[i][j] += 3.0 * axis[i] * axis[j] / n as f64;
                    }
                }
            }
            if rep.violations.len() > 3 {
                return;
            }
        }
        rep.count("random_rotations", n as u64);
        rep.nontrivial(&(w, "random rotations"));
        // No axis is preferred: on average a third of the identity. The bounds are more than
        // ten standard deviations away.
        let tol = 12.0 / (n as f64).sqrt();
        let uneven = |bins: &[u64]| {
            let want = n as f64 / bins.len() as f64;
            bins.iter().map(|x| (*x as f64 - want).abs() / want.sqrt()).fold(0.0, f64::max)
        };
        let worst = [uneven(&angles)].into_iter().chain(heights.iter().map(|h| uneven(h))).chain(around.iter().map(|h| uneven(h))).fold(0.0, f64::max);
        rep.maximum("random_rotations_worst_bin_in_standard_deviations", worst);
        rep.maximum("random_rotations_mean_error", diff(&mean, &ONE));
        rep.maximum("random_rotations_axis_error", diff(&axes, &ONE));
        rep.maximum("random_rotations_change_error", diff(&change, &ONE));
        rep.check(diff(&change, &ONE) < 3.0 * tol, || format!("random rotations depend on the ones before: {change:?}"));
        rep.check(diff(&mean, &ONE) < tol && diff(&axes, &ONE) < tol, || format!("random rotations prefer an axis: mean {mean:?}, axes {axes:?}"));
        rep.check(uneven(&angles) < 7.0, || format!("angles of random rotations are not uniform: {angles:?}"));
        rep.check(heights.iter().all(|h| uneven(h) < 7.0) && around.iter().all(|h| uneven(h) < 7.0), || format!("axes of random rotations are not uniform: {heights:?} {around:?}"));
    });
    rep.merge(par);
    rep
}
