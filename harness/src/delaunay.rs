//! The triangulation, checked from scratch after insertions in random order.
use crate::support::*;
use glam::{DVec2, DVec3};
use std::collections::HashMap;
use subsweep::dimension::{Dimension, ThreeD, TwoD};
use subsweep::voronoi::delaunay::{Delaunay, PointIndex, PointKind};
use subsweep::voronoi::verif_full::{point_kind, DFace, DTetra};
use subsweep::voronoi::{DDimension, Triangulation};

pub trait Space: DDimension {
    const D: usize;
    fn coords(p: <Self as Dimension>::Point) -> Vec<f64>;
    fn point(c: &[f64]) -> <Self as Dimension>::Point;
}
impl Space for TwoD {
    const D: usize = 2;
    fn coords(p: DVec2) -> Vec<f64> {
        vec![p.x, p.y]
    }
    fn point(c: &[f64]) -> DVec2 {
        DVec2::new(c[0], c[1])
    }
}
impl Space for ThreeD {
    const D: usize = 3;
    fn coords(p: DVec3) -> Vec<f64> {
        vec![p.x, p.y, p.z]
    }
    fn point(c: &[f64]) -> DVec3 {
        DVec3::new(c[0], c[1], c[2])
    }
}

/// Determinant and permanent of absolute values.
fn det2(a: [f64; 2], b: [f64; 2]) -> (f64, f64) {
    (a[0] * b[1] - a[1] * b[0], (a[0] * b[1]).abs() + (a[1] * b[0]).abs())
}
fn det3(a: [f64; 3], b: [f64; 3], c: [f64; 3]) -> (f64, f64) {
    let x = det2([b[1], b[2]], [c[1], c[2]]);
    let y = det2([b[0], b[2]], [c[0], c[2]]);
    let z = det2([b[0], b[1]], [c[0], c[1]]);
    (a[0] * x.0 - a[1] * y.0 + a[2] * z.0, a[0].abs() * x.1 + a[1].abs() * y.1 + a[2].abs() * z.1)
}
fn det4(m: [[f64; 4]; 4]) -> (f64, f64) {
    // along the last column
    let r = |i: usize| [m[i][0], m[i][1], m[i][2]];
    let mut out = (0.0, 0.0);
    for i in 0..4 {
        let o: [usize; 3] = [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]][i];
        let d = det3(r(o[0]), r(o[1]), r(o[2]));
        out.0 += if i % 2 == 1 { m[i][3] * d.0 } else { -m[i][3] * d.0 };
        out.1 += m[i][3].abs() * d.1;
    }
    out
}

fn diff(a: &[f64], b: &[f64]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], if a.len() > 2 { a[2] - b[2] } else { 0.0 }]
}

/// The determinant, and how far it may be off if every coordinate is off by `eta`:
/// the same polynomial with absolute values, of differences longer by `2 eta`.
fn orientation(ps: &[&Vec<f64>], eta: f64) -> (f64, f64) {
    let d = |i: usize| diff(ps[i], ps[0]);
    let f = |o: &dyn Fn([f64; 3]) -> [f64; 3]| {
        let d = |i: usize| o(d(i));
        if ps.len() == 3 {
            let (a, b) = (d(1), d(2));
            det2([a[0], a[1]], [b[0], b[1]])
        } else {
            det3(d(1), d(2), d(3))
        }
    };
    let (x, p) = f(&|v| v);
    let (_, q) = f(&|v| v.map(|x| x.abs() + 2.0 * eta));
    (x, q - p + 1e-14 * q)
}

/// Positive: `q` lies inside the sphere through `ps`. With a bound of the error, as above.
fn in_sphere(ps: &[&Vec<f64>], q: &Vec<f64>, eta: f64) -> (f64, f64) {
    let (o, _) = orientation(ps, eta);
    let sq = |v: [f64; 3]| v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
    let f = |o: &dyn Fn([f64; 3]) -> [f64; 3]| {
        let d = |i: usize| o(diff(ps[i], q));
        if ps.len() == 3 {
            let row = |v: [f64; 3]| [v[0], v[1], sq(v)];
            det3(row(d(0)), row(d(1)), row(d(2)))
        } else {
            let row = |v: [f64; 3]| [v[0], v[1], v[2], sq(v)];
            det4([row(d(0)), row(d(1)), row(d(2)), row(d(3))])
        }
    };
    let (x, p) = f(&|v| v);
    let (_, big) = f(&|v| v.map(|x| x.abs() + 2.0 * eta));
    // The sign of the determinant of a point inside depends on the dimension and the orientation.
    (x * o.signum() * if ps.len() == 3 { 1.0 } else { -1.0 }, big - p + 1e-14 * big)
}

pub fn check<D: Space>(r: &mut Report, t: &Triangulation<D>, expected: &[Vec<f64>], what: &str)
where
    Triangulation<D>: Delaunay<D>,
{
    let points: HashMap<PointIndex, Vec<f64>> = t.iter_original_points().map(|(i, p)| (i, D::coords(p))).collect();
    let outer: Vec<PointIndex> = points.keys().copied().filter(|p| point_kind(t, *p) == PointKind::Outer).collect();
    r.check(outer.len() == D::D + 1, || format!("{what}: {} outer points", outer.len()));
    let mut have: Vec<Vec<u64>> = points.iter().filter(|(p, _)| !outer.contains(p)).map(|(_, c)| c.iter().map(|x| x.to_bits()).collect()).collect();
    let mut want: Vec<Vec<u64>> = expected.iter().map(|c| c.iter().map(|x| x.to_bits()).collect()).collect();
    have.sort();
    want.sort();
    r.check(have == want, || format!("{what}: the triangulation has {} points, other than the {} inserted", have.len(), want.len()));
    let mut used = std::collections::HashSet::new();
    let mut volume = 0.0;
    let (mut n_open, mut min_margin) = (0, f64::INFINITY);
    // Points are mapped to [1, 2] before anything is computed from them.
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for x in points.values().flatten() {
        lo = lo.min(*x);
        hi = hi.max(*x);
    }
    let eta = 4.0 * f64::EPSILON * (hi - lo);
    let mut sides = vec![];
    for (ti, tetra) in t.tetras.iter() {
        let ids: Vec<PointIndex> = tetra.points().collect();
        used.extend(ids.iter().copied());
        let mut sorted = ids.clone();
        sorted.sort();
        sorted.dedup();
        if !r.check(sorted.len() == D::D + 1, || format!("{what}: a simplex with a repeated corner")) {
            return;
        }
        let ps: Vec<&Vec<f64>> = ids.iter().map(|i| &points[i]).collect();
        let (o, _) = orientation(&ps, eta);
        r.check(o != 0.0, || format!("{what}: a flat simplex {ps:?}"));
        volume += o.abs();
        for (face, corner) in tetra.faces_and_points() {
            let mut fp: Vec<PointIndex> = t.faces[face.face].points().collect();
            fp.sort();
            let want: Vec<PointIndex> = sorted.iter().copied().filter(|p| *p != corner).collect();
            r.check(fp == want, || format!("{what}: the face opposite of a corner is not spanned by the other corners"));
            sides.push((want.clone(), ti, corner));
            match face.opposing {
                None => {
                    n_open += 1;
                    r.check(want.iter().all(|p| outer.contains(p)), || format!("{what}: an inner face without a simplex behind it"));
                }
                Some(c) => {
                    let Some(other) = t.tetras.get(c.tetra) else {
                        r.violation(format!("{what}: the neighbour across a face does not exist any more"));
                        return;
                    };
                    let back = other.faces_and_points().find(|(f, _)| f.face == face.face);
                    let ok = back.map(|(f, p)| p == c.point && f.opposing.map(|x| x.tetra == ti && x.point == corner).unwrap_or(false)).unwrap_or(false);
                    r.check(ok, || format!("{what}: neighbours across a face do not agree about each other"));
                    // the two simplices lie on different sides of their face
                    let mut a: Vec<&Vec<f64>> = want.iter().map(|i| &points[i]).collect();
                    let mut b = a.clone();
                    a.push(&points[&corner]);
                    b.push(&points[&c.point]);
                    let (oa, pa) = orientation(&a, eta);
                    let (ob, pb) = orientation(&b, eta);
                    let opposite = oa * ob < 0.0 || oa.abs() <= pa || ob.abs() <= pb;
                    r.check(opposite, || format!("{what}: two simplices overlap"));
                    let (s, p) = in_sphere(&ps, &points[&c.point], eta);
                    let m = -s / p;
                    min_margin = f64::min(min_margin, m);
                    if m < 0.0 {
                        r.maximum("violation of a sphere within its error bound", -m);
                    }
                    r.count("faces tested", 1);
                    if m.abs() < 1.0 {
                        r.count("faces too cospherical to decide", 1);
                    }
                    r.check(m >= -1.0, || format!("{what}: the sphere through {ps:?} contains {:?} by {m:e} of the possible error", points[&c.point]));
                }
            }
        }
    }
    sides.sort_by(|a, b| a.0.cmp(&b.0));
    for w in sides.windows(3) {
        r.check(!(w[0].0 == w[1].0 && w[1].0 == w[2].0), || format!("{what}: three simplices share a face"));
    }
    r.check(n_open == D::D + 1, || format!("{what}: {n_open} faces on the hull"));
    r.check(used.len() == points.len(), || format!("{what}: {} of {} points are in no simplex", points.len() - used.len(), points.len()));
    let o: Vec<&Vec<f64>> = outer.iter().map(|p| &points[p]).collect();
    let (whole, _) = orientation(&o, eta);
    let dev = (volume - whole.abs()).abs() / whole.abs();
    r.maximum("deviation of the total volume", dev);
    r.check(dev < 1e-9, || format!("{what}: the simplices cover {volume} of {}", whole.abs()));
    // brute force: no point inside any sphere
    let n = points.len();
    let mut checked = 0;
    for (i, (_, tetra)) in t.tetras.iter().enumerate() {
        if n > 120 && i % (n / 60) != 0 {
            continue;
        }
        let ids: Vec<PointIndex> = tetra.points().collect();
        let ps: Vec<&Vec<f64>> = ids.iter().map(|i| &points[i]).collect();
        for (q, c) in points.iter() {
            if ids.contains(q) {
                continue;
            }
            let (s, p) = in_sphere(&ps, c, eta);
            checked += 1;
            if s > p {
                r.violation(format!("{what}: the sphere through {ps:?} contains {c:?}"));
                return;
            }
        }
    }
    r.count("points tested against spheres", checked);
    r.case();
}

fn cloud<D: Space>(g: &mut Rng, n: usize, kind: usize) -> Vec<Vec<f64>> {
    let d = D::D;
    let scale = if g.chance(0.5) { 1.0 } else { g.log_uniform(1e-3, 1e25) };
    let shift: Vec<f64> = (0..d).map(|_| if g.chance(0.5) { 0.0 } else { scale * g.uniform(-3.0, 3.0) }).collect();
    let mut out: Vec<Vec<f64>> = match kind {
        // even
        0 => (0..n).map(|_| (0..d).map(|_| g.f()).collect()).collect(),
        // clustered
        1 => {
            let k = g.range(1, 4);
            let centers: Vec<Vec<f64>> = (0..k).map(|_| (0..d).map(|_| g.f()).collect()).collect();
            let w = g.log_uniform(1e-6, 1e-1);
            (0..n).map(|_| {
                let c = g.pick(&centers).clone();
                c.iter().map(|x| x + w * g.uniform(-1.0, 1.0)).collect()
            }).collect()
        }
        // a lattice, slightly disturbed
        2 => {
            let side = (n as f64).powf(1.0 / d as f64).ceil() as usize;
            let w = g.log_uniform(1e-9, 1e-2);
            (0..side.pow(d as u32)).map(|i| (0..d).map(|k| ((i / side.pow(k as u32)) % side) as f64 / side as f64 + w * g.uniform(-1.0, 1.0)).collect()).collect()
        }
        // close to a sphere
        3 => (0..n).map(|_| {
            let v: Vec<f64> = (0..d).map(|_| g.uniform(-1.0, 1.0)).collect();
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            v.iter().map(|x| 0.5 + 0.4 * x / l).collect()
        }).collect(),
        // close to a plane
        _ => {
            let w = g.log_uniform(1e-7, 1e-2);
            (0..n).map(|_| (0..d).map(|k| if k == 0 { 0.5 + w * g.uniform(-1.0, 1.0) } else { g.f() }).collect()).collect()
        }
    };
    for p in out.iter_mut() {
        for k in 0..d {
            p[k] = p[k] * scale + shift[k];
        }
    }
    out
}

fn one<D: Space>(r: &mut Report, g: &mut Rng, n: usize)
where
    Triangulation<D>: Delaunay<D>,
{
    let kind = g.below(5);
    let points = cloud::<D>(g, n, kind);
    let what = format!("{}d, {} points, kind {kind}", D::D, points.len());
    let res = guarded(|| {
        let (t, map) = Triangulation::<D>::construct_from_iter(points.iter().enumerate().map(|(i, c)| (i, D::point(c))));
        (t, map)
    });
    let (t, map) = match res {
        // The other kinds may contain points that no triangulation is promised for.
        Err(e) if e.contains("Degenerate case") && kind > 1 => {
            r.count("degenerate positions refused", 1);
            return;
        }
        Err(e) => {
            r.violation(format!("{what}: {e}"));
            return;
        }
        Ok(x) => x,
    };
    r.count(&format!("{}d triangulations of kind {kind}", D::D), 1);
    r.count("simplices", t.tetras.len() as u64);
    for (i, c) in points.iter().enumerate() {
        let ok = map.get_by_left(&i).map(|p| D::coords(t.get_original_point(*p)) == *c).unwrap_or(false);
        r.check(ok, || format!("{what}: point {i} is not where its index says"));
    }
    r.nontrivial(&points.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
    r.sample(|| what.clone());
    check(r, &t, &points, &what);
    // later insertions, as done for points of other ranks
    if g.chance(0.5) {
        let mut t = t;
        let mut all = points.clone();
        let lo: Vec<f64> = (0..D::D).map(|k| points.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min)).collect();
        let hi: Vec<f64> = (0..D::D).map(|k| points.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max)).collect();
        for _ in 0..g.range(1, 10) {
            let q: Vec<f64> = (0..D::D).map(|k| g.uniform(lo[k], hi[k])).collect();
            let before: std::collections::HashSet<_> = t.tetras.iter().map(|(i, _)| i).collect();
            match guarded(|| t.insert(D::point(&q), PointKind::Halo(3))) {
                Err(e) => {
                    if !e.contains("Degenerate case") || kind == 0 {
                        r.violation(format!("{what}, further point {q:?}: {e}"));
                    }
                    return;
                }
                Ok((p, changed)) => {
                    r.check(point_kind(&t, p) == PointKind::Halo(3), || format!("{what}: the kind of a point is lost"));
                    for (i, _) in t.tetras.iter() {
                        r.check(before.contains(&i) || changed.contains(&i), || format!("{what}: a new simplex is not announced"));
                    }
                }
            }
            all.push(q);
        }
        check(r, &t, &all, &format!("{what}, {} more", all.len() - points.len()));
    }
}

pub fn delaunay(c: &Ctx) -> Report {
    let rounds = c.n(24, 1500);
    parallel(8, |w, r| {
        let mut g = Rng::new(c.seed, 500 + w as u64);
        for i in 0..rounds {
            let n = if i % 10 == 9 { g.range(200, 700) } else { g.range(5, 120) };
            if i % 3 == 0 {
                one::<TwoD>(r, &mut g, n);
            } else {
                one::<ThreeD>(r, &mut g, n);
            }
            if r.violations.len() > 5 {
                return;
            }
        }
    })
}
