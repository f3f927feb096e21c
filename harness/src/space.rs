//! Boxes with periodic boundaries and the search tree, against formulas written out here.
use crate::support::*;
use glam::DVec3;
use subsweep::domain::{LeafData, QuadTree};
use subsweep::prelude::{Extent, ParticleId, SimulationBox};
use subsweep::units::{Length, VecLength};
use subsweep::verif_full::{periodic_images, Node, QuadTreeConfig};

pub fn vl(v: DVec3) -> VecLength {
    VecLength::new_unchecked(v)
}
pub fn length(x: f64) -> Length {
    Length::new_unchecked(x)
}

fn random_box(g: &mut Rng) -> (SimulationBox, DVec3, DVec3) {
    let scale = if g.chance(0.4) { 1.0 } else { g.log_uniform(1e-3, 1e25) };
    let cube = g.chance(0.5);
    let s = DVec3::new(1.0, if cube { 1.0 } else { g.uniform(0.2, 5.0) }, if cube { 1.0 } else { g.uniform(0.2, 5.0) }) * scale;
    let min = if g.chance(0.5) { DVec3::ZERO } else { DVec3::new(g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0)) * scale };
    let max = min + s;
    (SimulationBox::new(Extent::from_min_max(vl(min), vl(max))), min, max)
}

fn point_in(g: &mut Rng, min: DVec3, max: DVec3) -> DVec3 {
    let c = |g: &mut Rng, a: f64, b: f64| match g.below(12) {
        0 => a,
        1 => b,
        2 => (a + b) / 2.0,
        3 => a + (b - a) * 0.25 * g.below(5) as f64,
        _ => g.uniform(a, b).min(b),
    };
    DVec3::new(c(g, min.x, max.x), c(g, min.y, max.y), c(g, min.z, max.z))
}

/// The shortest vector between two points over all images.
fn shortest(a: DVec3, b: DVec3, l: DVec3) -> f64 {
    let one = |d: f64, l: f64| (-3..=3).map(|k| (d + k as f64 * l).abs()).fold(f64::INFINITY, f64::min);
    let d = a - b;
    DVec3::new(one(d.x, l.x), one(d.y, l.y), one(d.z, l.z)).length()
}

pub fn boxes(c: &Ctx) -> Report {
    let rounds = c.n(150_000, 2_000_000);
    parallel(8, |w, r| {
        let mut g = Rng::new(c.seed, 700 + w as u64);
        for _ in 0..rounds {
            let (b, min, max) = random_box(&mut g);
            let l = max - min;
            let scale = min.abs().max(max.abs()).max_element();
            let tol = 1e-13 * scale;
            // wrapping
            let p = point_in(&mut g, min, max);
            let shift = DVec3::new(g.irange(-4, 4) as f64, g.irange(-4, 4) as f64, g.irange(-4, 4) as f64);
            let q = p + shift * l;
            let res = guarded(|| b.periodic_wrap(vl(q)).value_unchecked());
            let Ok(wrapped) = res else {
                r.violation(format!("wrapping {q} into {min}..{max}: {}", res.unwrap_err()));
                return;
            };
            for k in 0..3 {
                let x = wrapped[k];
                r.check(x >= min[k] && x <= max[k] + tol, || format!("wrapping {q} into {min}..{max} leads outside of it, to {wrapped}"));
                let n = (q[k] - x) / l[k];
                r.check((n - n.round()).abs() < 1e-11 * (1.0 + scale / l[k]), || format!("wrapping {q} into {min}..{max} moves it to {wrapped}, not by whole sides"));
            }
            if p.cmpge(min).all() && p.cmplt(max).all() {
                let same = b.periodic_wrap(vl(p)).value_unchecked();
                r.check((same - p).abs().max_element() <= tol, || format!("wrapping moves {p}, which lies in {min}..{max}"));
            }
            // distances
            let a = point_in(&mut g, min, max);
            let e = point_in(&mut g, min, max);
            let v = b.periodic_distance_vec(&vl(a), &vl(e)).value_unchecked();
            let back = b.periodic_distance_vec(&vl(e), &vl(a)).value_unchecked();
            let d = b.periodic_distance(&vl(a), &vl(e)).value_unchecked();
            let want = shortest(a, e, l);
            r.check((d - want).abs() <= 4.0 * tol, || format!("in the box {min}..{max}, {a} and {e} are {want} apart, not {d}"));
            r.check((v.length() - want).abs() <= 4.0 * tol, || format!("in the box {min}..{max}, {a} and {e} are {want} apart, the vector between them is {v}"));
            for k in 0..3 {
                let n = (v[k] - (a[k] - e[k])) / l[k];
                r.check((n - n.round()).abs() < 1e-11 * (1.0 + scale / l[k]), || format!("{v} does not connect {a} with an image of {e} in {min}..{max}"));
                r.check((v[k] + back[k]).abs() <= 2.0 * tol || (v[k].abs() - l[k] / 2.0).abs() <= 2.0 * tol, || format!("the vectors between {a} and {e} in {min}..{max} are {v} and {back}"));
            }
            // images
            let images = periodic_images(&b, vl(p));
            let mut seen = std::collections::HashSet::new();
            for (s, i) in images.iter() {
                seen.insert(*s);
                let want = p + DVec3::new(s[0] as f64, s[1] as f64, s[2] as f64) * l;
                r.check((i.value_unchecked() - want).abs().max_element() <= tol, || format!("the image {s:?} of {p} in {min}..{max} is {}", i.value_unchecked()));
            }
            r.check(images.len() == 27 && seen.len() == 27, || format!("{} images, {} different", images.len(), seen.len()));
            r.case();
            r.count("points wrapped", 2);
            r.count("distances", 2);
            r.count("images", images.len() as u64);
            let h: Vec<u64> = [p, a, e, min, max].iter().flat_map(|v| v.to_array()).map(f64::to_bits).collect();
            r.nontrivial(&h);
            r.sample(|| format!("box {min}..{max}, {q} wrapped to {wrapped}, {a} and {e} are {d} apart"));
            // boxes and their parts
            let ext = Extent::from_min_max(vl(min), vl(max));
            let parts = ext.get_quadrants();
            let i = ext.get_quadrant_index(&vl(p));
            r.check(parts[i].contains(&vl(p)), || format!("{p} in {min}..{max} is assigned to a part that does not contain it"));
            let vol: f64 = parts.iter().map(|x| x.volume().value_unchecked()).sum();
            r.check((vol / ext.volume().value_unchecked() - 1.0).abs() < 1e-12 * (1.0 + scale / l.min_element()), || format!("the parts of {min}..{max} do not fill it"));
            let dist = {
                let o = DVec3::new(g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0)) * l + min;
                let d = (o.clamp(min, max) - o).length_squared();
                (o, d, ext.squared_distance_to_pos(&vl(o)).value_unchecked())
            };
            r.check((dist.1 - dist.2).abs() <= 1e-12 * scale * scale, || format!("the distance of {} to {min}..{max} is {}, not {}", dist.0, dist.1.sqrt(), dist.2.sqrt()));
            if r.violations.len() > 5 {
                return;
            }
        }
    })
}

pub fn search(c: &Ctx) -> Report {
    let rounds = c.n(1000, 8000);
    parallel(8, |w, r| {
        let mut g = Rng::new(c.seed, 800 + w as u64);
        for _ in 0..rounds {
            let (b, min, max) = random_box(&mut g);
            let l = max - min;
            let tol = 1e-12 * min.abs().max(max.abs()).max_element();
            let n = match g.below(4) {
                0 => g.range(0, 5),
                1 => g.range(5, 60),
                _ => g.range(60, 1500),
            };
            let clustered = g.chance(0.4);
            let center = point_in(&mut g, min, max);
            let points: Vec<DVec3> = (0..n)
                .map(|_| {
                    if clustered && g.chance(0.8) {
                        let w = g.log_uniform(1e-6, 1e-1);
                        (center + DVec3::new(g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0)) * l * w).clamp(min, max)
                    } else {
                        point_in(&mut g, min, max)
                    }
                })
                .collect();
            let config = QuadTreeConfig { max_depth: g.range(0, 24), max_num_particles_per_leaf: g.range(0, 40) };
            let depth = config.max_depth;
            let per_leaf = config.max_num_particles_per_leaf;
            let leaves: Vec<LeafData> = points.iter().enumerate().map(|(i, p)| LeafData { id: ParticleId { index: i as u32, rank: 0 }, pos: vl(*p) }).collect();
            let what = format!("{n} points in {min}..{max}, depth {depth}, {per_leaf} per leaf");
            let tree = match guarded(|| QuadTree::new(&config, leaves, &b)) {
                Ok(t) => t,
                Err(e) => {
                    r.violation(format!("{what}: {e}"));
                    return;
                }
            };
            // every particle is in the tree once, in a node that contains it
            let mut ids: Vec<u32> = tree.iter().map(|l| l.id.index).collect();
            ids.sort();
            r.check(ids == (0..n as u32).collect::<Vec<_>>(), || format!("{what}: the tree has {} entries", ids.len()));
            structure(r, &tree, 0, depth, per_leaf, &what);
            for _ in 0..g.range(1, 12) {
                let center = if n > 0 && g.chance(0.2) {
                    *g.pick(&points)
                } else if g.chance(0.3) {
                    min + l * DVec3::new(g.uniform(-0.49, 1.49), g.uniform(-0.49, 1.49), g.uniform(-0.49, 1.49))
                } else {
                    point_in(&mut g, min, max)
                };
                let radius = match g.below(8) {
                    0 => 0.0,
                    1 => l.max_element() * 2.0,
                    2 if n > 0 => shortest(center, *g.pick(&points), l),
                    _ => l.max_element() * g.log_uniform(1e-4, 0.6),
                };
                let mut have: Vec<u32> = match guarded(|| tree.iter_particles_in_radius(&b, vl(center), length(radius)).map(|l| l.id.index).collect::<Vec<_>>()) {
                    Ok(x) => x,
                    Err(e) => {
                        r.violation(format!("{what}, within {radius} of {center}: {e}"));
                        return;
                    }
                };
                have.sort();
                let set: std::collections::HashSet<u32> = have.iter().copied().collect();
                r.check(set.len() == have.len(), || format!("{what}: within {radius} of {center}, something is found twice"));
                let mut found = 0;
                for (i, p) in points.iter().enumerate() {
                    let d = shortest(center, *p, l);
                    if (d - radius).abs() <= tol {
                        continue;
                    }
                    let inside = d < radius;
                    found += inside as u64;
                    r.check(set.contains(&(i as u32)) == inside, || format!("{what}: {p} is {d} away from {center}, and {} within {radius}", if inside { "not found" } else { "found" }));
                }
                r.case();
                r.count("searches", 1);
                r.count("neighbours found", found);
                if found > 0 {
                    r.nontrivial(&(center.to_array().map(f64::to_bits), radius.to_bits(), n));
                }
                r.sample(|| format!("{what}: {found} within {radius:.3e} of {center}"));
                if r.violations.len() > 5 {
                    return;
                }
            }
        }
    })
}

fn structure(r: &mut Report, tree: &QuadTree, level: usize, depth: usize, per_leaf: usize, what: &str) -> u64 {
    let n = match &tree.node {
        Node::Leaf(l) => {
            for x in l {
                r.check(tree.extent.contains(&x.pos), || format!("{what}: a leaf {:?} holds {:?}", tree.extent, x.pos));
            }
            r.check(level == depth || l.len() <= per_leaf + 1, || format!("{what}: a leaf at depth {level} with {} entries", l.len()));
            l.len() as u64
        }
        Node::Tree(t) => {
            r.check(level < depth, || format!("{what}: the tree is deeper than {depth}"));
            t.iter().map(|c| structure(r, c, level + 1, depth, per_leaf, what)).sum()
        }
    };
    r.count("tree nodes", 1);
    r.check(tree.data.work == n, || format!("{what}: a node with {n} entries counts {}", tree.data.work));
    n
}
