//! Grids of one process without periodic boundaries.
use crate::polyhedron::{area_vector, cell};
use crate::support::*;
use glam::{DVec2, DVec3};
use std::collections::HashMap;
use subsweep::dimension::{ThreeD, TwoD};
use subsweep::prelude::ParticleId;
use subsweep::sweep::grid::ParticleType;
use subsweep::voronoi::{Constructor, DCell, Triangulation, TriangulationData, VoronoiGrid};

fn positions(g: &mut Rng, n: usize) -> (Vec<DVec3>, String) {
    let kind = g.below(4);
    let s = if g.chance(0.6) { DVec3::ONE } else { DVec3::new(1.0, g.uniform(0.2, 4.0), g.uniform(0.2, 4.0)) };
    let scale = if g.chance(0.6) { 1.0 } else { g.log_uniform(1e-2, 1e22) };
    let mut u = |a: f64, b: f64| DVec3::new(g.uniform(a, b), g.uniform(a, b), g.uniform(a, b));
    let c = u(0.0, 1.0);
    let pts = (0..n)
        .map(|i| {
            let p = match kind {
                0 | 1 => u(0.0, 1.0),
                2 => {
                    if i % 2 == 0 {
                        u(0.0, 1.0)
                    } else {
                        c + u(-0.05, 0.05)
                    }
                }
                _ => {
                    let side = (n as f64).cbrt().ceil() as usize;
                    DVec3::new((i % side) as f64, ((i / side) % side) as f64, (i / side / side) as f64) / side as f64 + u(-0.02, 0.02)
                }
            };
            p * s * scale
        })
        .collect();
    (pts, format!("{n} points, kind {kind}, sides {s}, scale {scale:.2e}"))
}

fn three(r: &mut Report, g: &mut Rng, n: usize) {
    let (pts, what) = positions(g, n);
    let res = guarded(|| {
        let c = Constructor::<ThreeD>::new(pts.iter().enumerate().map(|(i, p)| (ParticleId::test(i), *p)));
        let v = c.voronoi();
        let s = c.sweep_grid(true);
        (c, v, s)
    });
    let (cons, grid, sweep) = match res {
        Ok(x) => x,
        Err(e) => {
            r.violation(format!("{what}: {e}"));
            return;
        }
    };
    let _ = cons;
    r.check(grid.cells.len() == n, || format!("{what}: {} cells", grid.cells.len()));
    let sweep: HashMap<u32, _> = sweep.into_iter().map(|(t, c)| (t.unwrap_id().index, c)).collect();
    let extent = pts.iter().fold(DVec3::ZERO, |m, p| m.max(*p)) - pts.iter().fold(DVec3::INFINITY, |m, p| m.min(*p));
    let half = 30.0 * extent.max_element();
    let mut finite = vec![];
    for c in grid.cells.iter() {
        let ParticleType::Local(id) = c.index else {
            r.violation(format!("{what}: a cell of {:?}", c.index));
            return;
        };
        let i = id.index as usize;
        r.check(c.center == pts[i], || format!("{what}: the cell of point {i} has its center elsewhere"));
        if c.is_infinite {
            r.count("cells on the boundary", 1);
            continue;
        }
        r.count("cells", 1);
        finite.push((i, c));
        let mut others: Vec<(DVec3, usize)> = pts.iter().enumerate().filter(|(j, _)| *j != i).map(|(j, p)| (*p - pts[i], j)).collect();
        let want = cell(&mut others, half);
        let surface: f64 = want.faces.iter().map(|f| area_vector(&f.points).length()).sum();
        let (v, w) = (c.volume(), want.volume());
        let dev = (v - w).abs() / w;
        r.maximum("deviation of the volume of a cell", dev);
        r.check(dev < 1e-8, || format!("{what}: the cell of {:?} has the volume {v}, not {w}", pts[i]));
        let size = (3.0 * w / (4.0 * std::f64::consts::PI)).cbrt();
        r.check((c.size() / size - 1.0).abs() < 1e-6, || format!("{what}: a cell of volume {w} has the size {}", c.size()));
        let mut areas: HashMap<usize, DVec3> = HashMap::new();
        for f in want.faces.iter() {
            let a = area_vector(&f.points);
            if let Some(j) = f.label {
                *areas.entry(j).or_default() += a * a.dot(pts[j] - pts[i]).signum();
            } else {
                r.violation(format!("{what}: the cell of {:?} reaches the outside", pts[i]));
            }
        }
        let mut seen = HashMap::new();
        for f in c.faces.iter() {
            let ParticleType::Local(j) = f.connection else {
                r.violation(format!("{what}: a face towards {:?}", f.connection));
                return;
            };
            let j = j.index as usize;
            r.check(seen.insert(j, f.area).is_none(), || format!("{what}: two faces between {i} and {j}"));
            let a = areas.get(&j).copied().unwrap_or(DVec3::ZERO).length();
            let dev = (a - f.area).abs() / surface;
            r.maximum("deviation of the area of a face", dev);
            r.check(dev < 1e-8, || format!("{what}: the face between {:?} and {:?} has the area {}, not {a}", pts[i], pts[j], f.area));
            let normal = (pts[j] - pts[i]).normalize();
            r.check((normal - f.normal).length() < 1e-9, || format!("{what}: the face between {:?} and {:?} points to {}", pts[i], pts[j], f.normal));
            r.count("faces", 1);
        }
        for (j, a) in areas {
            r.check(seen.contains_key(&j) || a.length() / surface < 1e-8, || format!("{what}: there is no face between {:?} and {:?}", pts[i], pts[j]));
        }
        // what the sweep gets is what the grid says
        let s = &sweep[&(i as u32)];
        r.check(s.volume.value_unchecked() == v && s.size.value_unchecked() == c.size(), || format!("{what}: volume or size of cell {i} are lost"));
        let ok = s.neighbours.len() == c.faces.len() && s.neighbours.iter().zip(&c.faces).all(|((a, t), b)| *t == b.connection && a.area.value_unchecked() == b.area && a.normal.value_unchecked() == b.normal);
        r.check(ok, || format!("{what}: the faces of cell {i} are lost"));
        if r.violations.len() > 5 {
            return;
        }
    }
    // containment: the cell that contains a position is that of the closest point
    for _ in 0..40 {
        let q = DVec3::new(g.f(), g.f(), g.f()) * extent;
        let (mut d, mut best) = (vec![], 0);
        for (j, p) in pts.iter().enumerate() {
            d.push((p.distance(q), j));
        }
        d.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        best += d[0].1;
        if (d[1].0 - d[0].0) < 1e-6 * d[0].0 {
            continue;
        }
        for (i, c) in finite.iter() {
            let inside = c.contains(q);
            r.check(inside == (*i == best), || format!("{what}: {q} is{} in the cell of {}, the closest point is {}", if inside { "" } else { " not" }, pts[*i], pts[best]));
        }
        r.count("positions located", 1);
    }
    r.case();
    r.nontrivial(&pts.iter().flat_map(|p| p.to_array()).map(f64::to_bits).collect::<Vec<_>>());
    r.sample(|| format!("{what}: {} finite cells", finite.len()));
}

/// Cut a polygon around the origin.
fn cut2(poly: &mut Vec<(DVec2, Option<usize>)>, q: DVec2, label: usize) {
    // entry: corner and the label of the edge that starts there
    let (n, h) = (q.normalize(), q.length() / 2.0);
    let side = |p: DVec2| n.dot(p) - h;
    let m = poly.len();
    let mut out = vec![];
    for i in 0..m {
        let (a, la) = poly[i];
        let (b, _) = poly[(i + 1) % m];
        let (sa, sb) = (side(a), side(b));
        if sa <= 0.0 {
            out.push((a, la));
            if sb > 0.0 {
                out.push((a + (b - a) * (sa / (sa - sb)), Some(label)));
            }
        } else if sb <= 0.0 {
            out.push((a + (b - a) * (sa / (sa - sb)), la));
        }
    }
    *poly = out;
}

fn two(r: &mut Report, g: &mut Rng, n: usize) {
    let (pts, what) = positions(g, n);
    let pts: Vec<DVec2> = pts.iter().map(|p| DVec2::new(p.x, p.y)).collect();
    let what = format!("2d, {what}");
    let res = guarded(|| {
        let (t, map) = Triangulation::<TwoD>::construct_from_iter(pts.iter().enumerate().map(|(i, p)| (i, *p)));
        let map = map.into_iter().map(|(i, p)| (ParticleType::Local(ParticleId::test(i)), p)).collect();
        let d = TriangulationData::from_triangulation_and_map(t, map);
        VoronoiGrid::from(&d)
    });
    let grid: VoronoiGrid<TwoD> = match res {
        Ok(x) => x,
        Err(e) => {
            r.violation(format!("{what}: {e}"));
            return;
        }
    };
    let extent = pts.iter().fold(DVec2::ZERO, |m, p| m.max(*p)) - pts.iter().fold(DVec2::INFINITY, |m, p| m.min(*p));
    let half = 30.0 * extent.max_element();
    for c in grid.cells.iter() {
        if c.is_infinite {
            continue;
        }
        let i = c.index.unwrap_id().index as usize;
        let mut poly: Vec<(DVec2, Option<usize>)> = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)].iter().map(|(x, y)| (DVec2::new(*x, *y) * half, None)).collect();
        for (j, p) in pts.iter().enumerate() {
            if j != i {
                cut2(&mut poly, *p - pts[i], j);
            }
        }
        let m = poly.len();
        let area: f64 = (0..m).map(|k| 0.5 * poly[k].0.perp_dot(poly[(k + 1) % m].0)).sum::<f64>().abs();
        let perimeter: f64 = (0..m).map(|k| poly[k].0.distance(poly[(k + 1) % m].0)).sum();
        let dev = (c.volume() / area - 1.0).abs();
        r.maximum("deviation of the area of a 2d cell", dev);
        // the area is the small difference of large products where the box is far from the origin
        r.check(dev < 1e-5, || format!("{what}: the cell of {} has the area {}, not {area}", pts[i], c.volume()));
        let mut edges: HashMap<usize, f64> = HashMap::new();
        for k in 0..m {
            match poly[k].1 {
                Some(j) => *edges.entry(j).or_default() += poly[k].0.distance(poly[(k + 1) % m].0),
                None => r.violation(format!("{what}: the cell of {} reaches the outside", pts[i])),
            }
        }
        let mut seen = HashMap::new();
        for f in c.faces.iter() {
            let j = f.connection.unwrap_id().index as usize;
            r.check(seen.insert(j, ()).is_none(), || format!("{what}: two edges between {i} and {j}"));
            let l = edges.get(&j).copied().unwrap_or(0.0);
            r.check((l - f.area).abs() / perimeter < 1e-6, || format!("{what}: the edge between {} and {} has the length {}, not {l}", pts[i], pts[j], f.area));
            r.check(((pts[j] - pts[i]).normalize() - f.normal).length() < 1e-9, || format!("{what}: an edge points to {}", f.normal));
        }
        for (j, l) in edges {
            r.check(seen.contains_key(&j) || l / perimeter < 1e-6, || format!("{what}: there is no edge between {} and {}", pts[i], pts[j]));
        }
        r.count("2d cells", 1);
        if r.violations.len() > 5 {
            return;
        }
    }
    r.case();
    r.nontrivial(&pts.iter().flat_map(|p| p.to_array()).map(f64::to_bits).collect::<Vec<_>>());
}

pub fn voronoi(c: &Ctx) -> Report {
    let rounds = c.n(25, 800);
    parallel(8, |w, r| {
        let mut g = Rng::new(c.seed, 900 + w as u64);
        for i in 0..rounds {
            let n = if i % 8 == 7 { g.range(200, 900) } else { g.range(6, 150) };
            if i % 4 == 0 {
                two(r, &mut g, n);
            } else {
                three(r, &mut g, n);
            }
            if r.violations.len() > 5 {
                return;
            }
        }
    })
}
