//! Domain decomposition, exchange of particles and the grid of a periodic box on several ranks.
//! Every rank knows all particles and checks what it holds against cells that were cut out of
//! space one by one.
use crate::polyhedron::{area_vector, cell};
use crate::sim::*;
use crate::support::*;
use glam::DVec3;
use std::collections::{HashMap, HashSet};
use subsweep::domain::{DecompositionState, IntoKey};
use subsweep::prelude::*;
use subsweep::sweep::grid::ParticleType;
use subsweep::verif_full::{periodic_images, WrapType};

pub fn shift_of(t: &ParticleType) -> [i32; 3] {
    let f = |w: WrapType| match w {
        WrapType::NoWrap => 0,
        WrapType::Minus => -1,
        WrapType::Plus => 1,
    };
    match t {
        ParticleType::LocalPeriodic(p) => [f(p.periodic_wrap_type.x), f(p.periodic_wrap_type.y), f(p.periodic_wrap_type.z)],
        ParticleType::RemotePeriodic(p) => [f(p.periodic_wrap_type.x), f(p.periodic_wrap_type.y), f(p.periodic_wrap_type.z)],
        _ => [0, 0, 0],
    }
}

/// A box and particles that fill it.
pub fn particles(g: &mut Rng, size: usize, n: usize) -> (DVec3, DVec3, Vec<DVec3>, String) {
    let scale = if g.chance(0.5) { 1.0 } else { g.log_uniform(1e-3, 1e21) };
    let side = if g.chance(0.6) { DVec3::ONE } else { DVec3::new(1.0, g.uniform(0.7, 1.4), g.uniform(0.7, 1.4)) } * scale;
    let min = if g.chance(0.5) { DVec3::ZERO } else { DVec3::new(g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0)) * scale };
    let kind = g.below(3);
    let k = (n as f64).cbrt().ceil() as usize;
    let n = if kind == 1 { k * k * k } else { n };
    let pts = (0..n)
        .map(|i| {
            let mut u = || DVec3::new(g.f(), g.f(), g.f());
            let q = match kind {
                0 => u(),
                // a lattice, disturbed
                1 => (DVec3::new((i % k) as f64, ((i / k) % k) as f64, (i / k / k) as f64) + 0.05 + 0.9 * u()) / k as f64,
                // denser in the middle
                _ => {
                    let q = u();
                    if i % 3 == 0 {
                        0.35 + 0.3 * q
                    } else {
                        q
                    }
                }
            };
            (min + q * side).clamp(min, min + side)
        })
        .collect();
    (min, min + side, pts, format!("{n} particles of kind {kind} in a box of {:?} on {size} ranks", side.to_array()))
}

pub fn setup(g: &mut Rng, size: usize, n: usize) -> (Setup, String) {
    let (min, max, pts, what) = particles(g, size, n);
    let kind = g.below(3);
    let mut rank = |i: usize, p: DVec3| match kind {
        0 => i % size,
        1 => (((p - min).x / (max - min).x * size as f64) as usize).min(size - 1),
        _ => if i < size { i } else { g.below(size).min(g.below(size)) },
    };
    let mut ps: Vec<Particle> = pts
        .iter()
        .enumerate()
        .map(|(i, p)| Particle { pos: *p, density: 1e-24 * (i + 1) as f64, x: 1e-6 * (i + 1) as f64, t: 100.0 + i as f64, source: 0.0, rank: rank(i, *p) })
        .collect();
    for r in 0..size {
        // every rank begins with something
        if !ps.iter().any(|p| p.rank == r) {
            ps[r].rank = r;
        }
    }
    for r in 0..size {
        if !ps.iter().any(|p| p.rank == r) {
            let i = ps.len() - 1 - r;
            ps[i].rank = r;
        }
    }
    (Setup::new(min, max, ps), what)
}

fn key(p: DVec3, b: &SimulationBox) -> subsweep::domain::DomainKey {
    vec(p).into_key(&**b)
}

/// Each particle is on exactly one rank, with everything that belongs to it.
pub fn check_distribution(r: &mut Report, s: &Setup, sim: &Simulation, snap: &Snapshot, what: &str) -> Vec<usize> {
    let j = job();
    let b = SimulationBox::new(Extent::from_min_max(vec(s.min), vec(s.max)));
    for l in snap.locals.iter() {
        let p = &s.particles[l.tag];
        let same = l.pos == p.pos && l.density == p.density && l.x == p.x && l.t == p.t;
        r.check(same, || format!("{what}: particle {} was {p:?} and is {:?}, {} {} {}", l.tag, l.pos, l.density, l.x, l.t));
        r.check(l.id.rank as usize == j.rank, || format!("{what}: a particle of rank {} has the id {:?}", j.rank, l.id));
    }
    let ids: HashSet<ParticleId> = snap.locals.iter().map(|l| l.id).collect();
    r.check(ids.len() == snap.locals.len(), || format!("{what}: two particles of rank {} have the same id", j.rank));
    let all = gather(&snap.locals.iter().map(|l| l.tag as f64).collect::<Vec<_>>());
    let mut owner = vec![usize::MAX; s.particles.len()];
    for (rank, tags) in all.iter().enumerate() {
        for t in tags {
            let t = *t as usize;
            r.check(owner[t] == usize::MAX, || format!("{what}: particle {t} is on two ranks"));
            owner[t] = rank;
        }
    }
    r.check(owner.iter().all(|o| *o != usize::MAX), || format!("{what}: {} particles are lost", owner.iter().filter(|o| **o == usize::MAX).count()));
    r.count("particles that changed the rank", s.particles.iter().enumerate().filter(|(t, p)| owner[*t] == j.rank && p.rank != j.rank).count() as u64);
    let d = sim.unwrap_resource::<DecompositionState>();
    let keys: Vec<_> = s.particles.iter().map(|p| key(p.pos, &b)).collect();
    for (t, k) in keys.iter().enumerate() {
        let want = d.get_owning_rank(*k) as usize;
        r.check(want == owner[t], || format!("{what}: rank {} says that particle {t} belongs to rank {want}, but it is on {}", j.rank, owner[t]));
    }
    // monotone along the curve
    let mut order: Vec<usize> = (0..keys.len()).collect();
    order.sort_by_key(|t| keys[*t]);
    for w in order.windows(2) {
        r.check(owner[w[0]] <= owner[w[1]] || keys[w[0]] == keys[w[1]], || format!("{what}: the domains are not segments of the curve"));
    }
    // every other place of the box belongs to the rank whose segment it is in, or to one of the
    // two next to it
    let mut g = Rng::new(s.particles.len() as u64, 77);
    for k in 0..60 {
        let mut u = DVec3::new(g.f(), g.f(), g.f());
        if k % 4 == 0 {
            u[g.below(3)] = *g.pick(&[0.0, 1.0]);
        }
        let x = (s.min + s.side() * u).clamp(s.min, s.max);
        let at = key(x, &b);
        let got = d.get_owning_rank(at) as usize;
        let below = order.iter().rev().find(|t| keys[**t] <= at).map(|t| owner[*t]).unwrap_or(0);
        let above = order.iter().find(|t| keys[**t] >= at).map(|t| owner[*t]).unwrap_or(j.size - 1);
        r.check(got < j.size && got >= below && got <= above, || format!("{what}: {x:?} belongs to rank {got} and lies between particles of rank {below} and {above} of {} ranks", j.size));
        if above == below {
            r.count("places with a certain owner", 1);
        }
    }
    let mut distinct = keys.clone();
    distinct.sort();
    distinct.dedup();
    if distinct.len() == keys.len() {
        let (n, share) = (keys.len(), keys.len() / j.size);
        for rank in 0..j.size {
            let load = owner.iter().filter(|o| **o == rank).count();
            let most = if rank + 1 < j.size { share } else { share + n % j.size + j.size };
            r.check(load + 1 >= share.min(most) && load <= most + 1, || format!("{what}: rank {rank} has {load} of {n} particles, the share is {share}"));
        }
    }
    owner
}

pub fn check_cells(r: &mut Report, s: &Setup, snap: &Snapshot, owner: &[usize], what: &str) {
    let j = job();
    let b = SimulationBox::new(Extent::from_min_max(vec(s.min), vec(s.max)));
    let tag_of = tags(snap);
    let images: Vec<(DVec3, (usize, [i32; 3]))> = s
        .particles
        .iter()
        .enumerate()
        .flat_map(|(t, p)| periodic_images(&b, vec(p.pos)).into_iter().map(move |(w, q)| (q.value_unchecked(), (t, w))).collect::<Vec<_>>())
        .collect();
    let haloes: HashMap<ParticleId, usize> = snap.haloes.iter().map(|(id, rank, _)| (*id, *rank)).collect();
    for (id, rank, _) in snap.haloes.iter() {
        r.check(tag_of.get(id).map(|t| owner[*t]) == Some(*rank) && *rank != j.rank, || format!("{what}: a halo particle {id:?} of rank {rank} on rank {}", j.rank));
    }
    let half = s.side().max_element();
    let mut total = 0.0;
    for l in snap.locals.iter() {
        let mut others: Vec<(DVec3, (usize, [i32; 3]))> = images.iter().filter(|(_, (t, w))| !(*t == l.tag && *w == [0, 0, 0])).map(|(q, k)| (*q - l.pos, *k)).collect();
        let want = cell(&mut others, half);
        let surface: f64 = want.faces.iter().map(|f| area_vector(&f.points).length()).sum();
        let volume = want.volume();
        total += l.cell.volume.value_unchecked();
        let dev = (l.cell.volume.value_unchecked() / volume - 1.0).abs();
        r.maximum("deviation of the volume of a cell", dev);
        r.check(dev < 1e-7, || format!("{what}: the cell of particle {} at {:?} has the volume {:e}, not {volume:e}", l.tag, l.pos, l.cell.volume.value_unchecked()));
        let size = (3.0 * volume / (4.0 * std::f64::consts::PI)).cbrt();
        r.check((l.cell.size.value_unchecked() / size - 1.0).abs() < 1e-6, || format!("{what}: a cell of volume {volume:e} has the size {:e}", l.cell.size.value_unchecked()));
        let mut areas: HashMap<(usize, [i32; 3]), (f64, DVec3)> = HashMap::new();
        for f in want.faces.iter() {
            let a = area_vector(&f.points).length();
            match f.label {
                Some(k) => {
                    let q = others.iter().find(|(_, o)| *o == k).unwrap().0;
                    let e = areas.entry(k).or_insert((0.0, q.normalize()));
                    e.0 += a;
                }
                None => {
                    r.violation(format!("{what}: the workload leaves a cell open"));
                    return;
                }
            }
        }
        let mut seen = HashSet::new();
        for (f, n) in l.cell.neighbours.iter() {
            let (area, normal) = (f.area.value_unchecked(), f.normal.value_unchecked());
            let k = match n {
                ParticleType::Boundary => {
                    r.check(!s.periodic, || format!("{what}: a boundary in a periodic box"));
                    // which one is not said
                    let k = areas.iter().filter(|(k, _)| k.1 != [0, 0, 0]).min_by(|a, b| (a.1 .1 - normal).length().partial_cmp(&(b.1 .1 - normal).length()).unwrap()).map(|(k, _)| *k);
                    let Some(k) = k.filter(|k| (areas[k].1 - normal).length() < 1e-7) else {
                        r.check(area / surface < 1e-7, || format!("{what}: a boundary at {normal} of area {area:e} where there is none"));
                        continue;
                    };
                    k
                }
                _ => {
                    let id = n.unwrap_id();
                    let Some(tag) = tag_of.get(&id) else {
                        r.violation(format!("{what}: a neighbour {id:?} that does not exist"));
                        continue;
                    };
                    let shift = shift_of(n);
                    let (local, wrapped) = match n {
                        ParticleType::Local(_) => (true, false),
                        ParticleType::Remote(x) => {
                            r.check(x.rank as usize == owner[*tag], || format!("{what}: a neighbour on rank {} is said to be on {}", owner[*tag], x.rank));
                            (false, false)
                        }
                        ParticleType::LocalPeriodic(_) => (true, true),
                        ParticleType::RemotePeriodic(x) => {
                            r.check(x.rank as usize == owner[*tag], || format!("{what}: a neighbour on rank {} is said to be on {}", owner[*tag], x.rank));
                            (false, true)
                        }
                        _ => unreachable!(),
                    };
                    r.check(local == (owner[*tag] == j.rank), || format!("{what}: a neighbour on rank {} of a particle on rank {} is {n:?}", owner[*tag], j.rank));
                    r.check(wrapped == (shift != [0, 0, 0]), || format!("{what}: a neighbour {n:?} with the shift {shift:?}"));
                    r.check(!wrapped || s.periodic, || format!("{what}: a periodic neighbour in a box that is not periodic"));
                    r.check(local || haloes.contains_key(&id), || format!("{what}: the remote neighbour {id:?} is no halo particle on rank {}", j.rank));
                    r.count(if local { "local neighbours" } else { "remote neighbours" }, 1);
                    if wrapped {
                        r.count("periodic neighbours", 1);
                    }
                    (*tag, shift)
                }
            };
            r.check(seen.insert(k), || format!("{what}: two faces between {:?} and particle {k:?}", l.pos));
            let (a, q) = areas.get(&k).copied().unwrap_or((0.0, normal));
            let dev = (a - area).abs() / surface;
            r.maximum("deviation of the area of a face", dev);
            r.check(dev < 1e-7, || format!("{what}: the face of particle {} at {:?} to {k:?} has the area {area:e}, not {a:e}", l.tag, l.pos));
            r.check((q - normal).length() < 1e-7, || format!("{what}: the face of particle {} to {k:?} points to {normal}, not {q}", l.tag));
        }
        for (k, (a, _)) in areas.iter() {
            r.check(seen.contains(k) || a / surface < 1e-7, || format!("{what}: no face between particle {} at {:?} and {k:?}, area {a:e} of {surface:e}", l.tag, l.pos));
        }
        r.count("cells", 1);
        if r.violations.len() > 5 {
            break;
        }
    }
    let total: f64 = gather(&[total]).iter().flatten().sum();
    let box_volume = s.side().x * s.side().y * s.side().z;
    let dev = (total / box_volume - 1.0).abs();
    r.maximum("deviation of the total volume", dev);
    r.check(dev < 1e-7 || !r.violations.is_empty(), || format!("{what}: the cells fill {total:e} of {box_volume:e}"));
}

pub fn grid(c: &Ctx) -> Report {
    let mut r = Report::new();
    let j = job();
    let mut g = Rng::new(c.seed, 7);
    // one construction per job: some end it (see the known findings)
    for i in 0..c.n(1, 2) {
        let n = if g.chance(0.25) { g.range(350, 600) } else { g.range(150, 260) };
        let (mut s, what) = setup(&mut g, j.size, n.max(12 * j.size));
        s.periodic = g.chance(0.7);
        if g.chance(0.3) {
            // anything is allowed for the first radius
            s.search_radius = Some(s.side().max_element() * g.log_uniform(0.02, 0.3));
        }
        let what = format!("{what}, {}periodic, seed {} round {i}", if s.periodic { "" } else { "not " }, c.seed);
        r.sample(|| what.clone());
        case(&what);
        let mut sim = build(&s);
        sim.update();
        let snap = snapshot();
        let owner = check_distribution(&mut r, &s, &sim, &snap, &what);
        if owner.iter().any(|o| *o == usize::MAX) {
            return r;
        }
        check_cells(&mut r, &s, &snap, &owner, &what);
        r.case();
        if j.size > 1 || s.periodic {
            r.nontrivial(&s.particles.iter().flat_map(|p| p.pos.to_array().map(f64::to_bits)).collect::<Vec<_>>());
        }
        // all ranks leave together
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            return r;
        }
        publish(c, &r);
    }
    r
}

/// Decomposition and exchange alone, with anything for positions.
pub fn domain(c: &Ctx) -> Report {
    let mut r = Report::new();
    let j = job();
    let mut g = Rng::new(c.seed, 8);
    for i in 0..c.n(25, 400) {
        let n = match g.below(4) {
            0 => g.range(2 * j.size, 4 * j.size + 2),
            1 => g.range(2000, 6000),
            _ => g.range(20, 600),
        };
        let (mut s, mut what) = setup(&mut g, j.size, n.max(2 * j.size));
        s.grid = false;
        let side = s.side();
        match g.below(4) {
            0 => {
                // close together, at a corner or anywhere
                let at = if g.chance(0.3) { s.min } else { s.min + side * DVec3::new(g.f(), g.f(), g.f()) };
                let w = g.log_uniform(1e-12, 1e-2);
                for k in 0..s.particles.len() {
                    if g.chance(0.8) {
                        let u = DVec3::new(g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0));
                        s.particles[k].pos = (at + u * side * w).clamp(s.min, s.max);
                    }
                }
                what += ", clustered";
            }
            1 => {
                // on faces, edges and corners of the box, and of its parts
                for k in 0..s.particles.len() {
                    for d in 0..3 {
                        if g.chance(0.4) {
                            s.particles[k].pos[d] = s.min[d] + side[d] * *g.pick(&[0.0, 0.25, 0.5, 1.0]);
                        }
                    }
                    s.particles[k].pos = s.particles[k].pos.clamp(s.min, s.max);
                }
                what += ", on a lattice";
            }
            _ => (),
        }
        // no rank may be left without particles, which it would be if too many have the same key
        let b = SimulationBox::new(Extent::from_min_max(vec(s.min), vec(s.max)));
        let mut same: HashMap<_, usize> = HashMap::new();
        for p in s.particles.iter() {
            *same.entry(format!("{:?}", key(p.pos, &b))).or_insert(0) += 1;
        }
        if same.values().max().unwrap() + 1 > s.particles.len() / j.size {
            for p in s.particles.iter_mut() {
                p.pos = (s.min + side * DVec3::new(g.f(), g.f(), g.f())).clamp(s.min, s.max);
            }
        }
        let what = format!("{what}, seed {} round {i}", c.seed);
        if i < 3 {
            r.sample(|| what.clone());
        }
        case(&what);
        let mut sim = watched(|| build(&s));
        watched(|| sim.update());
        let snap = snapshot();
        check_distribution(&mut r, &s, &sim, &snap, &what);
        r.case();
        r.count("particles", snap.locals.len() as u64);
        if j.size > 1 {
            r.nontrivial(&s.particles.iter().flat_map(|p| p.pos.to_array().map(f64::to_bits)).collect::<Vec<_>>());
        }
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            return r;
        }
        publish(c, &r);
    }
    r
}
