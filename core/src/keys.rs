//! Monitors of the space-filling curve.
use crate::support::*;
use glam::{DVec2, DVec3};
use subsweep::verif_core::*;

const PAD: f64 = 0.001;

/// A curve under observation: positions in, keys out.
trait Curve {
    const D: usize;
    const BITS: u32;
    fn key(pos: &[f64], min: &[f64], max: &[f64]) -> u128;
    fn cmp(a: (&[f64], &[f64], &[f64]), b: &[f64]) -> std::cmp::Ordering;
}

struct C2;
struct C3;
fn v2(a: &[f64]) -> DVec2 {
    DVec2::new(a[0], a[1])
}
fn v3(a: &[f64]) -> DVec3 {
    DVec3::new(a[0], a[1], a[2])
}
impl Curve for C2 {
    const D: usize = 2;
    const BITS: u32 = NUM_BITS_PER_DIMENSION_2D;
    fn key(pos: &[f64], min: &[f64], max: &[f64]) -> u128 {
        PeanoKey2d::from_point_and_min_max(v2(pos), v2(min), v2(max)).0 as u128
    }
    fn cmp((p, min, max): (&[f64], &[f64], &[f64]), q: &[f64]) -> std::cmp::Ordering {
        PeanoKey2d::from_point_and_min_max(v2(p), v2(min), v2(max)).cmp(&PeanoKey2d::from_point_and_min_max(v2(q), v2(min), v2(max)))
    }
}
impl Curve for C3 {
    const D: usize = 3;
    const BITS: u32 = NUM_BITS_PER_DIMENSION_3D;
    fn key(pos: &[f64], min: &[f64], max: &[f64]) -> u128 {
        PeanoKey3d::from_point_and_min_max(v3(pos), v3(min), v3(max)).0
    }
    fn cmp((p, min, max): (&[f64], &[f64], &[f64]), q: &[f64]) -> std::cmp::Ordering {
        PeanoKey3d::from_point_and_min_max(v3(p), v3(min), v3(max)).cmp(&PeanoKey3d::from_point_and_min_max(v3(q), v3(min), v3(max)))
    }
}

struct BoxOf {
    min: Vec<f64>,
    max: Vec<f64>,
}
impl BoxOf {
    fn random(r: &mut Rng, d: usize) -> Self {
        let style = r.below(4);
        let mut min = vec![];
        let mut max = vec![];
        for _ in 0..d {
            let (a, l) = match style {
                0 => (0.0, 1.0),
                1 => (-1.0, 2.0),
                2 => (0.0, r.log_uniform(1e-20, 1e25)),
                // not too far from the origin compared to its size, so that positions still resolve the cells
                _ => {
                    let l = r.log_uniform(1e-5, 1e5);
                    (l * r.uniform(-1.5, 0.5), l)
                }
            };
            min.push(a);
            max.push(a + l);
        }
        BoxOf { min, max }
    }
    /// The position with the given fraction of the padded box.
    fn at(&self, i: usize, frac: f64) -> f64 {
        let l = self.max[i] - self.min[i];
        self.min[i] - l * PAD + frac * l * (1.0 + 2.0 * PAD)
    }
}

fn cell_center<C: Curve>(b: &BoxOf, cell: &[u64], level: u32, r: Option<&mut Rng>) -> Vec<f64> {
    let mut off = vec![0.5; C::D];
    if let Some(r) = r {
        for o in off.iter_mut() {
            *o = r.uniform(0.15, 0.85);
        }
    }
    (0..C::D).map(|i| b.at(i, (cell[i] as f64 + off[i]) / 2f64.powi(level as i32))).collect()
}

fn unit(c: &[u64], d: &[u64]) -> u64 {
    c.iter().zip(d).map(|(a, b)| a.abs_diff(*b)).sum()
}

fn observe<C: Curve>(rep: &mut Report, r: &mut Rng, n: usize, name: &str) {
    let d = C::D as u32;
    let max_key_bits = d * C::BITS;
    for _ in 0..n {
        let b = BoxOf::random(r, C::D);
        // An aligned block of cells at some level: 2^s cells in each direction.
        let s = r.range(1, if C::D == 2 { 4 } else { 3 }) as u32;
        let level = r.range(s as usize, C::BITS as usize) as u32;
        let blocks = 1u64 << (level - s);
        let origin: Vec<u64> = (0..C::D)
            .map(|_| match r.below(5) {
                0 => 0,
                1 => blocks - 1,
                _ => (r.u64() as u128 * blocks as u128 >> 64) as u64,
            } << s)
            .collect();
        rep.case();
        let mut cells: Vec<(u128, Vec<u64>)> = vec![];
        let m = 1u64 << s;
        for idx in 0..m.pow(d) {
            let mut cell = origin.clone();
            let mut t = idx;
            for c in cell.iter_mut() {
                *c += t % m;
                t /= m;
            }
            let p = cell_center::<C>(&b, &cell, level, None);
            let key = match guarded(|| C::key(&p, &b.min, &b.max)) {
                Ok(k) => k,
                Err(e) => {
                    rep.violation(format!("{name}: panic for position {p:?} in {:?}..{:?}: {e}", b.min, b.max));
                    return;
                }
            };
            rep.count("keys", 1);
            if max_key_bits < 128 && key >> max_key_bits != 0 {
                rep.violation(format!("{name}: key {key:x} of {p:?} in {:?}..{:?} exceeds {max_key_bits} bits", b.min, b.max));
                return;
            }
            // The same cell, another position: the same key up to this level.
            let q = cell_center::<C>(&b, &cell, level, Some(r));
            let key2 = C::key(&q, &b.min, &b.max);
            let prefix = key >> (d * (C::BITS - level));
            if key2 >> (d * (C::BITS - level)) != prefix {
                rep.violation(format!("{name}: positions {p:?} and {q:?} of the same cell at level {level} of {:?}..{:?} have different keys {key:x} {key2:x}", b.min, b.max));
                return;
            }
            if C::cmp((&p, &b.min, &b.max), &q) != key.cmp(&key2) {
                rep.violation(format!("{name}: the order of keys is not that of the numbers: {key:x} {key2:x}"));
                return;
            }
            cells.push((prefix, cell));
        }
        cells.sort();
        for w in cells.windows(2) {
            if w[0].0 == w[1].0 {
                rep.violation(format!("{name}: cells {:?} and {:?} at level {level} share key {:x}", w[0].1, w[1].1, w[0].0));
                return;
            }
            if w[1].0 - w[0].0 != 1 {
                rep.violation(format!("{name}: the block of {m} cells at {origin:?}, level {level}, is not contiguous along the curve: {:x} is followed by {:x}", w[0].0, w[1].0));
                return;
            }
            if unit(&w[0].1, &w[1].1) != 1 {
                rep.violation(format!("{name}: consecutive keys {:x}, {:x} at level {level} are the cells {:?}, {:?}, which share no face", w[0].0, w[1].0, w[0].1, w[1].1));
                return;
            }
        }
        if cells[0].0 % m.pow(d) as u128 != 0 {
            rep.violation(format!("{name}: the block at {origin:?}, level {level}, starts at key {:x}, which is not a block of the curve", cells[0].0));
            return;
        }
        rep.nontrivial(&(name, level, s, &origin, b.max[0].to_bits()));
        rep.count(&format!("{name}_blocks_level_{:02}_to_{:02}", level / 8 * 8, level / 8 * 8 + 7), 1);
        rep.sample(|| format!("{name}: box {:?}..{:?}, level {level}, block of {m}^{d} cells at {origin:?}: prefixes {:x}..={:x}", b.min, b.max, cells[0].0, cells.last().unwrap().0));
    }
}

/// The keys of neighbouring blocks also have to follow each other, and every position in the
/// closed box, its corners included, has a key.
fn corners<C: Curve>(rep: &mut Report, r: &mut Rng, n: usize, name: &str) {
    let d = C::D;
    for _ in 0..n {
        let b = BoxOf::random(r, d);
        rep.case();
        // Positions at and next to the faces of the box, whose cells at a coarse level are known.
        let level = r.range(2, 12) as u32;
        let mut cells = vec![];
        let mut seen = std::collections::BTreeMap::new();
        for _ in 0..24 {
            let mut p = vec![];
            let mut cell = vec![];
            for i in 0..d {
                let x = match r.below(5) {
                    0 => b.min[i],
                    1 => b.max[i],
                    2 => b.max[i].next_down().max(b.min[i]),
                    3 => b.min[i].next_up().min(b.max[i]),
                    _ => r.uniform(b.min[i], b.max[i]),
                };
                let l = b.max[i] - b.min[i];
                let f = (x - b.min[i] + PAD * l) / (l * (1.0 + 2.0 * PAD)) * 2f64.powi(level as i32);
                p.push(x);
                cell.push(f);
            }
            // Too close to the boundary of a cell to say which one it is.
            if cell.iter().any(|f: &f64| (f - f.round()).abs() < 1e-6) {
                continue;
            }
            let cell: Vec<u64> = cell.iter().map(|f| *f as u64).collect();
            match guarded(|| C::key(&p, &b.min, &b.max)) {
                Err(e) => {
                    rep.violation(format!("{name}: panic for {p:?} in {:?}..{:?}: {e}", b.min, b.max));
                    return;
                }
                Ok(k) => {
                    rep.count("keys_on_faces", 1);
                    let prefix = k >> (d as u32 * (C::BITS - level));
                    if let Some(other) = seen.insert(prefix, cell.clone()) {
                        if other != cell {
                            rep.violation(format!("{name}: cells {cell:?} and {other:?} at level {level} of {:?}..{:?} share key {prefix:x}", b.min, b.max));
                            return;
                        }
                    }
                    let c = cell_center::<C>(&b, &cell, level, None);
                    let k2 = C::key(&c, &b.min, &b.max) >> (d as u32 * (C::BITS - level));
                    if k2 != prefix {
                        rep.violation(format!("{name}: {p:?} in {:?}..{:?} lies in cell {cell:?} of level {level}, whose key is {k2:x}, but gets {prefix:x}", b.min, b.max));
                        return;
                    }
                    cells.push(prefix);
                }
            }
        }
        rep.nontrivial(&(name, "faces", level, cells));
    }
}

/// Moving along the whole curve at a coarse level.
fn walk<C: Curve>(rep: &mut Report, r: &mut Rng, level: u32, name: &str) {
    let b = BoxOf::random(r, C::D);
    let m = 1u64 << level;
    let mut cells = vec![];
    for idx in 0..m.pow(C::D as u32) {
        let mut t = idx;
        let cell: Vec<u64> = (0..C::D)
            .map(|_| {
                let x = t % m;
                t /= m;
                x
            })
            .collect();
        let p = cell_center::<C>(&b, &cell, level, None);
        let k = C::key(&p, &b.min, &b.max) >> (C::D as u32 * (C::BITS - level));
        cells.push((k, cell));
    }
    rep.case();
    cells.sort();
    for (i, c) in cells.iter().enumerate() {
        if c.0 != i as u128 {
            rep.violation(format!("{name}: at level {level} no cell or several have key {i:x}"));
            return;
        }
        if i > 0 && unit(&c.1, &cells[i - 1].1) != 1 {
            rep.violation(format!("{name}: at level {level} the curve jumps from {:?} to {:?}", cells[i - 1].1, c.1));
            return;
        }
    }
    rep.count("cells_of_complete_walks", cells.len() as u64);
    rep.nontrivial(&(name, "walk", level));
}

pub fn keys(c: &Ctx) -> Report {
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 300 + w as u64);
        observe::<C2>(rep, &mut r, c.n(5000, 40_000), "2d");
        observe::<C3>(rep, &mut r, c.n(5000, 40_000), "3d");
        corners::<C2>(rep, &mut r, c.n(2000, 10_000), "2d");
        corners::<C3>(rep, &mut r, c.n(2000, 10_000), "3d");
        if w == 0 {
            for l in 1..=c.n(6, 7) as u32 {
                walk::<C3>(rep, &mut r, l, "3d");
            }
        } else if w == 1 {
            for l in 1..=c.n(9, 10) as u32 {
                walk::<C2>(rep, &mut r, l, "2d");
            }
        }
    })
}
