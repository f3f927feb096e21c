//! Sweeps on several ranks over cells that are made here, with a record of everything the sweeps
//! do. Every rank compares what it did with what follows from the states of all ranks.
use crate::chemistry::{MP, SIGMA};
use crate::polyhedron::{area_vector, cell};
use crate::sim::*;
use crate::support::*;
use bevy_ecs::prelude::*;
use glam::DVec3;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components;
use subsweep::components::Position;
use subsweep::dimension::ActiveWrapType;
use subsweep::parameters::{Cosmology, SimulationParameters};
use subsweep::prelude::*;
use subsweep::simulation_plugin::{SimulationPlugin, SimulationTime};
use subsweep::sweep::grid::{Cell, Face, FaceArea, ParticleType, PeriodicNeighbour, RemoteNeighbour, RemotePeriodicNeighbour};
use subsweep::sweep::verif_full::{record, Record, SiteState, SweepState};
use subsweep::units::{Density, Dimensionless, Length, PhotonRate, SourceRate, Temperature, Time, VecDimensionless, Volume};
use subsweep::verif_full::hydrogen_only::CellState;
use subsweep::verif_full::WrapType;

#[derive(Clone, Debug)]
pub struct ModelFace {
    pub area: f64,
    pub normal: DVec3,
    pub to: Option<(usize, [i32; 3])>,
}

#[derive(Clone, Debug)]
pub struct ModelCell {
    pub faces: Vec<ModelFace>,
    pub size: f64,
    pub volume: f64,
}

/// The Voronoi cells of a periodic box (of side 1), with equal faces on both sides.
pub fn cells(points: &[DVec3], scale: f64, periodic: bool) -> Vec<ModelCell> {
    let n = points.len();
    let mut faces: BTreeMap<(usize, usize, [i32; 3]), f64> = BTreeMap::new();
    let mut volumes = vec![0.0; n];
    for i in 0..n {
        let mut others = vec![];
        for j in 0..n {
            for x in -1..=1 {
                for y in -1..=1 {
                    for z in -1..=1 {
                        if (i, x, y, z) != (j, 0, 0, 0) {
                            let q = points[j] + DVec3::new(x as f64, y as f64, z as f64) - points[i];
                            others.push((q, (j, [x, y, z])));
                        }
                    }
                }
            }
        }
        let poly = cell(&mut others, 1.5);
        volumes[i] = poly.volume();
        for f in poly.faces.iter().filter(|f| f.points.len() >= 3) {
            if let Some((j, s)) = f.label {
                let m = s.map(|x| -x);
                if (i, s) < (j, m) {
                    let a = area_vector(&f.points).length();
                    if a > 1e-9 {
                        faces.insert((i, j, s), a);
                        faces.insert((j, i, m), a);
                    }
                }
            }
        }
    }
    let mut out: Vec<ModelCell> = (0..n).map(|i| ModelCell { faces: vec![], size: volumes[i].cbrt() * scale, volume: volumes[i] * scale.powi(3) }).collect();
    for ((i, j, s), a) in faces {
        let m = s.map(|x| -x);
        let shift = |s: [i32; 3]| DVec3::new(s[0] as f64, s[1] as f64, s[2] as f64);
        // exactly opposite on both sides
        let normal = if (i, s) < (j, m) { (points[j] + shift(s) - points[i]).normalize() } else { -(points[i] + shift(m) - points[j]).normalize() };
        let to = if s == [0; 3] || periodic { Some((j, s)) } else { None };
        out[i].faces.push(ModelFace { area: a * scale * scale, normal, to });
    }
    out
}

/// Equal cubes, of which many faces are parallel to a direction along an axis. Positions are in
/// units of the longest side.
fn cubes(k: [usize; 3], scale: f64, periodic: bool) -> (Vec<DVec3>, Vec<ModelCell>, DVec3) {
    let h = 1.0 / *k.iter().max().unwrap() as f64;
    let at = |c: [usize; 3]| (c[0] * k[1] + c[1]) * k[2] + c[2];
    let mut points = vec![];
    let mut out = vec![];
    for x in 0..k[0] {
        for y in 0..k[1] {
            for z in 0..k[2] {
                let c = [x, y, z];
                points.push(DVec3::new(x as f64 + 0.5, y as f64 + 0.5, z as f64 + 0.5) * h);
                let mut faces = vec![];
                for axis in 0..3 {
                    for up in [false, true] {
                        let (mut to, mut s) = (c, [0; 3]);
                        if up && c[axis] + 1 == k[axis] {
                            (to[axis], s[axis]) = (0, 1);
                        } else if up {
                            to[axis] += 1;
                        } else if c[axis] == 0 {
                            (to[axis], s[axis]) = (k[axis] - 1, -1);
                        } else {
                            to[axis] -= 1;
                        }
                        let normal = if up { DVec3::AXES[axis] } else { -DVec3::AXES[axis] };
                        faces.push(ModelFace { area: (h * scale).powi(2), normal, to: if s == [0; 3] || periodic { Some((at(to), s)) } else { None } });
                    }
                }
                out.push(ModelCell { faces, size: h * scale, volume: (h * scale).powi(3) });
            }
        }
    }
    (points, out, DVec3::new(k[0] as f64, k[1] as f64, k[2] as f64) * h)
}

pub struct Model {
    pub s: Setup,
    pub cells: Vec<ModelCell>,
    /// The rank and the index of every particle.
    pub owner: Vec<ParticleId>,
}

fn wrap(s: [i32; 3]) -> ActiveWrapType {
    let f = |x: i32| match x {
        0 => WrapType::NoWrap,
        -1 => WrapType::Minus,
        _ => WrapType::Plus,
    };
    ActiveWrapType { x: f(s[0]), y: f(s[1]), z: f(s[2]) }
}

impl Model {
    fn code_cell(&self, i: usize) -> Cell {
        let c = &self.cells[i];
        Cell {
            size: Length::new_unchecked(c.size),
            volume: Volume::new_unchecked(c.volume),
            neighbours: c
                .faces
                .iter()
                .map(|f| {
                    let face = Face { area: FaceArea::new_unchecked(f.area), normal: VecDimensionless::new_unchecked(f.normal) };
                    let t = match f.to {
                        None => ParticleType::Boundary,
                        Some((j, s)) => {
                            let id = self.owner[j];
                            let local = id.rank == self.owner[i].rank;
                            match (local, s == [0; 3]) {
                                (true, true) => ParticleType::Local(id),
                                (false, true) => ParticleType::Remote(RemoteNeighbour { id, rank: id.rank }),
                                (true, false) => ParticleType::LocalPeriodic(PeriodicNeighbour { id, periodic_wrap_type: wrap(s) }),
                                (false, false) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour { id, rank: id.rank, periodic_wrap_type: wrap(s) }),
                            }
                        }
                    };
                    (face, t)
                })
                .collect(),
        }
    }

    fn build(&self, rank: usize, size: usize) -> Simulation {
        let s = &self.s;
        let mine: Vec<(usize, ParticleId, Cell)> = (0..self.cells.len()).filter(|i| self.owner[*i].rank as usize == rank).map(|i| (i, self.owner[i], self.code_cell(i))).collect();
        let haloes: BTreeSet<ParticleId> = mine.iter().flat_map(|(_, _, c)| c.neighbours.iter().filter(|(_, n)| !n.is_boundary()).map(|(_, n)| n.unwrap_id())).filter(|id| id.rank as usize != rank).collect();
        let particles = s.particles.clone();
        let mut sim = Simulation::default();
        sim.write_output(false)
            .add_parameter_file_contents("{}".into())
            .add_plugin(BaseCommunicationPlugin::new(size, rank as i32))
            .add_parameters_explicitly(SimulationBox::new(Extent::from_min_max(vec(s.min), vec(s.max))))
            .add_parameters_explicitly(sweep_parameters(s))
            .add_parameters_explicitly(Cosmology::NonCosmological)
            .add_parameters_explicitly(SimulationParameters { final_time: None })
            .add_startup_system_to_stage(StartupStages::InsertGrid, move |mut commands: Commands| {
                for (i, id, cell) in mine.iter() {
                    let p = &particles[*i];
                    commands.spawn((
                        (LocalParticle, Tag(*i as u64), *id, cell.clone()),
                        Position(vec(p.pos)),
                        components::Density(Density::new_unchecked(p.density)),
                        components::IonizedHydrogenFraction(Dimensionless::new_unchecked(p.x)),
                        components::Temperature(Temperature::new_unchecked(p.t)),
                        components::Source(SourceRate::new_unchecked(p.source)),
                        components::PhotonRate(PhotonRate::new_unchecked(0.0)),
                        components::Mass(subsweep::units::Mass::new_unchecked(1.0)),
                    ));
                }
                for id in haloes.iter() {
                    commands.spawn((HaloParticle { rank: id.rank }, *id));
                }
            })
            .add_plugin(SimulationPlugin)
            .add_plugin(SweepPlugin)
            .add_startup_system_to_stage(StartupStages::Final, snapshot_system)
            .add_system_to_stage(Stages::Final, snapshot_system);
        sim
    }

    /// The share of what leaves `i` in the direction that goes through each of its faces.
    fn shares(&self, i: usize, dir: DVec3) -> Vec<f64> {
        let a: Vec<f64> = self.cells[i].faces.iter().map(|f| f.area * f.normal.dot(dir).max(0.0)).collect();
        let t: f64 = a.iter().sum();
        a.iter().map(|x| if t > 0.0 { x / t } else { 0.0 }).collect()
    }
}

const HEAD: usize = 8;

fn pack(st: &SweepState, tag: &HashMap<ParticleId, usize>) -> Vec<f64> {
    st.sites
        .iter()
        .flat_map(|s| {
            let mut v = vec![*tag.get(&s.id).unwrap_or(&usize::MAX) as f64, s.level as f64, s.source, s.ionized_hydrogen_fraction, s.temperature, s.density, s.previous, s.change_timescale];
            v.extend_from_slice(&s.incoming);
            v.extend_from_slice(&s.outgoing);
            v.extend_from_slice(&s.periodic);
            v
        })
        .collect()
}

fn unpack(all: &[Vec<f64>], n: usize, nd: usize) -> Vec<Option<SiteState>> {
    let mut out = vec![None; n];
    for v in all {
        for c in v.chunks(HEAD + 3 * nd) {
            let t = c[0] as usize;
            if t < n {
                out[t] = Some(SiteState {
                    id: ParticleId { index: 0, rank: 0 },
                    level: c[1] as usize,
                    source: c[2],
                    ionized_hydrogen_fraction: c[3],
                    temperature: c[4],
                    density: c[5],
                    previous: c[6],
                    change_timescale: c[7],
                    incoming: c[HEAD..HEAD + nd].to_vec(),
                    outgoing: c[HEAD + nd..HEAD + 2 * nd].to_vec(),
                    periodic: c[HEAD + 2 * nd..].to_vec(),
                });
            }
        }
    }
    out
}

struct OneSweep {
    before: SweepState,
    solved: Vec<(ParticleId, usize)>,
    finished: SweepState,
    updated: SweepState,
}

fn sweeps(records: Vec<Record>) -> Result<Vec<OneSweep>, String> {
    let mut out = vec![];
    let mut it = records.into_iter().peekable();
    while let Some(r) = it.next() {
        let Record::Started(before) = r else { return Err("a sweep without a beginning".into()) };
        let mut solved = vec![];
        let mut finished = None;
        let mut updated = None;
        for r in it.by_ref() {
            match r {
                Record::Solved(id, d) => solved.push((id, d)),
                Record::Finished(s) => finished = Some(s),
                Record::Updated(s) => {
                    updated = Some(s);
                    break;
                }
                Record::Started(_) => return Err("a sweep without an end".into()),
            }
        }
        match (finished, updated) {
            (Some(finished), Some(updated)) => out.push(OneSweep { before, solved, finished, updated }),
            _ => return Err("a sweep without an end".into()),
        }
    }
    Ok(out)
}

fn random_unit(g: &mut Rng) -> DVec3 {
    loop {
        let v = DVec3::new(g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0));
        if v.length() > 0.1 && v.length() < 1.0 {
            return v.normalize();
        }
    }
}

pub fn model(g: &mut Rng, size: usize, n: usize, levels: usize, periodic: bool, rotate: bool) -> (Model, String) {
    let scale = g.log_uniform(1e16, 1e20);
    let lattice = !rotate && g.chance(0.25);
    let (points, cells, side) = if lattice {
        let k = match g.below(3) {
            0 => [n, 1, 1],
            1 => [(n / 9).max(1) + 1, 3, 3],
            _ => [4, (n / 16).max(1) + 1, 4],
        };
        cubes(k, scale, periodic)
    } else {
        let points: Vec<DVec3> = (0..n).map(|_| DVec3::new(g.f(), g.f(), g.f())).collect();
        let cells = cells(&points, scale, periodic);
        (points, cells, DVec3::ONE)
    };
    let n = points.len();
    // who has what
    let kind = g.below(3);
    let mut rank: Vec<usize> = points
        .iter()
        .map(|p| match kind {
            0 => g.below(size),
            1 => ((p.x * size as f64) as usize).min(size - 1),
            _ => (((p.x + p.y + p.z) / 3.0 * size as f64) as usize).min(size - 1),
        })
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    g.shuffle(&mut order);
    for r in 0..size {
        // nobody is without a particle
        rank[order[r]] = r;
    }
    let mut next = vec![0u32; size];
    g.shuffle(&mut order);
    let mut owner = vec![ParticleId { index: 0, rank: 0 }; n];
    for i in order {
        owner[i] = ParticleId { index: next[rank[i]], rank: rank[i] as i32 };
        next[rank[i]] += 1;
    }
    let strength = g.log_uniform(1e40, 1e50);
    let tau = g.log_uniform(0.01, 3.0);
    let fraction = *g.pick(&[0.03, 0.3, 1.0]);
    let neutral = g.chance(0.5);
    let particles = (0..n)
        .map(|i| {
            let density = tau * g.log_uniform(0.1, 5.0) / (SIGMA * cells[i].size) * MP;
            Particle {
                pos: points[i] * scale,
                density,
                x: if neutral { g.log_uniform(1e-9, 1e-3) } else { g.uniform(1e-3, 1.0 - 1e-3) },
                t: g.log_uniform(1e2, 2e4),
                source: if g.chance(fraction) { strength * g.log_uniform(0.01, 1.0) } else { 0.0 },
                rank: rank[i],
            }
        })
        .collect();
    let mut s = Setup::new(DVec3::ZERO, scale * side, particles);
    if rotate || g.chance(0.25) {
        s.num_directions = if rotate || g.chance(0.4) { *g.pick(&[16, 21]) } else { *g.pick(&[1, 32, 64, 84]) };
    } else {
        s.directions = (0..g.range(1, 9)).map(|_| {
            if lattice && g.chance(0.6) {
                // along an axis, or in a plane of two
                let v = DVec3::new(g.irange(-1, 1) as f64, g.irange(-1, 1) as f64, g.irange(0, 1) as f64);
                if v == DVec3::ZERO { DVec3::NEG_X } else { v.normalize() }
            } else if g.chance(0.15) {
                DVec3::AXES[g.below(3)]
            } else {
                random_unit(g)
            }
        }).collect();
    }
    s.levels = levels;
    s.periodic = periodic;
    s.rotate = rotate;
    // of the order of the time after which a typical cell is ionized
    let atoms: f64 = s.particles.iter().zip(&cells).map(|(p, c)| p.density / MP * c.volume).sum();
    let photons: f64 = s.particles.iter().map(|p| p.source).sum::<f64>().max(strength * 0.01);
    // but not of too many times in which the gas recombines or cools, as the solver resolves them
    let densest = s.particles.iter().map(|p| p.density / MP).fold(0.0, f64::max);
    s.max_timestep = (atoms / photons * g.log_uniform(1e-3, 1.0)).min(3e12 / densest);
    s.threshold = if g.chance(0.4) { strength * g.log_uniform(1e-6, 1e-2) } else { 0.0 };
    s.prevent_cooling = g.chance(0.5);
    s.batch = *g.pick(&[0, 1, 3, 17, 10000]);
    s.check_deadlock = g.chance(0.3);
    s.safety = g.log_uniform(0.05, 0.5);
    s.chemistry_safety = g.log_uniform(0.05, 0.2);
    let what = format!(
        "{n} {}cells on {size} ranks (kind {kind}), {} directions{}, {levels} levels, {}periodic, batches of {}{}",
        if lattice { "cubic " } else { "" },
        if s.directions.is_empty() { s.num_directions } else { s.directions.len() },
        if rotate { " that are rotated" } else { "" },
        if periodic { "" } else { "not " },
        s.batch,
        if s.check_deadlock { ", checking for deadlocks" } else { "" }
    );
    (Model { s, cells, owner }, what)
}

/// The largest rates that a cell has seen: the scale of roundoff.
struct History {
    largest: Vec<Vec<f64>>,
}

/// Those asked for
fn check_directions(r: &mut Report, m: &Model, dirs: &[DVec3], what: &str) {
    r.check(dirs.iter().all(|d| (d.length() - 1.0).abs() < 1e-6), || format!("{what}: directions that are no unit vectors: {dirs:?}"));
    if !m.s.directions.is_empty() {
        let same = dirs.len() == m.s.directions.len() && dirs.iter().zip(&m.s.directions).all(|(a, b)| (*a - b.normalize()).length() < 1e-9);
        r.check(same, || format!("{what}: the directions are {dirs:?} instead of {:?}", m.s.directions));
        return;
    }
    let n = m.s.num_directions;
    let mut near = f64::INFINITY;
    for i in 0..dirs.len() {
        for k in 0..i {
            near = near.min((dirs[i] - dirs[k]).length());
        }
    }
    let mean = dirs.iter().sum::<DVec3>().length() / dirs.len() as f64;
    // as far apart as about that many directions can be
    let ok = dirs.len() == n && (n == 1 || mean < 0.02 && near > 1.5 / (n as f64).sqrt());
    r.check(ok, || format!("{what}: instead of {n} directions there are {}, {near} apart or more, with the mean {mean}", dirs.len()));
    r.maximum("mean of the directions of a set", if n > 1 { mean } else { 0.0 });
    r.count(&format!("sweeps in {n} tabulated directions"), 1);
}

fn check_sweep(r: &mut Report, m: &Model, rank: usize, sweep: &OneSweep, tag: &HashMap<ParticleId, usize>, h: &mut History, what: &str) -> Vec<Option<SiteState>> {
    let n = m.cells.len();
    let dirs: Vec<DVec3> = sweep.before.directions.iter().map(|d| DVec3::from_array(*d)).collect();
    let nd = dirs.len();
    check_directions(r, m, &dirs, what);
    let cur = sweep.before.level;
    // everybody takes part in these
    let before = unpack(&gather(&pack(&sweep.before, tag)), n, nd);
    let fin = unpack(&gather(&pack(&sweep.finished, tag)), n, nd);
    let upd = unpack(&gather(&pack(&sweep.updated, tag)), n, nd);
    if !r.check(before.iter().chain(&fin).chain(&upd).all(|x| x.is_some()), || format!("{what}: a cell is missing")) {
        return upd;
    }
    let get = |v: &Vec<Option<SiteState>>, i: usize| v[i].clone().unwrap();
    let (b, f, u): (Vec<SiteState>, Vec<SiteState>, Vec<SiteState>) = ((0..n).map(|i| get(&before, i)).collect(), (0..n).map(|i| get(&fin, i)).collect(), (0..n).map(|i| get(&upd, i)).collect());
    let active: Vec<bool> = b.iter().map(|s| s.level >= cur).collect();
    // levels of other ranks
    for (id, level) in sweep.before.halo_levels.iter() {
        let t = tag[id];
        r.check(b[t].level == *level, || format!("{what}: rank {rank} takes particle {t} to be at level {level}, it is at {}", b[t].level));
    }
    // exactly once, and after what is upwind
    let mut seen: HashMap<(usize, usize), usize> = HashMap::new();
    for (k, (id, d)) in sweep.solved.iter().enumerate() {
        let t = tag[id];
        r.check(m.owner[t].rank as usize == rank, || format!("{what}: rank {rank} solves a cell of another rank"));
        r.check(active[t], || format!("{what}: particle {t} at level {} is solved in a sweep of level {cur}", b[t].level));
        r.check(seen.insert((t, *d), k).is_none(), || format!("{what}: particle {t} is solved twice in direction {d}"));
    }
    r.count("cells solved", sweep.solved.len() as u64);
    let shares: Vec<Vec<Vec<f64>>> = (0..n).map(|i| dirs.iter().map(|d| m.shares(i, *d)).collect()).collect();
    let mut into = vec![vec![0.0; nd]; n];
    let mut into_periodic = vec![vec![0.0; nd]; n];
    let mut low = vec![vec![0.0; nd]; n];
    let mut high = vec![vec![0.0; nd]; n];
    let mut escaped = 0.0;
    for i in 0..n {
        for d in 0..nd {
            for (k, face) in m.cells[i].faces.iter().enumerate() {
                let w = shares[i][d][k];
                if w == 0.0 {
                    continue;
                }
                match face.to {
                    None => escaped += f[i].outgoing[d] * w,
                    Some((j, s)) if s == [0; 3] => {
                        into[j][d] += f[i].outgoing[d] * w;
                        if m.owner[j].rank as usize == rank && m.owner[i].rank as usize == rank && active[i] && active[j] {
                            let (a, c) = (seen.get(&(i, d)), seen.get(&(j, d)));
                            r.check(a.is_some() && c.is_some() && a < c, || format!("{what}: particle {j} is solved before its neighbour {i} in direction {d}"));
                        }
                    }
                    Some((j, _)) => {
                        into_periodic[j][d] += f[i].outgoing[d] * w;
                        let c = (f[i].outgoing[d] - b[i].outgoing[d]) * w;
                        low[j][d] += c.min(0.0);
                        high[j][d] += c.max(0.0);
                    }
                }
            }
        }
    }
    for i in 0..n {
        for d in 0..nd {
            let l = into[i][d].max(into_periodic[i][d]).max(f[i].incoming[d].abs()).max(f[i].periodic[d].abs()).max(b[i].incoming[d].abs()).max(b[i].outgoing[d]).max(f[i].outgoing[d]).max(b[i].periodic[d].abs());
            h.largest[i][d] = h.largest[i][d].max(l);
        }
    }
    let mut total_source = 0.0;
    let mut absorbed = 0.0;
    for i in 0..n {
        total_source += b[i].source;
        for d in 0..nd {
            absorbed += f[i].incoming[d] + f[i].source / nd as f64 + f[i].periodic[d] - f[i].outgoing[d];
        }
        if m.owner[i].rank as usize != rank {
            continue;
        }
        let tau = b[i].density / MP * (1.0 - b[i].ionized_hydrogen_fraction) * SIGMA * m.cells[i].size;
        for d in 0..nd {
            let tol = 1e-11 * h.largest[i][d];
            let dev = (f[i].incoming[d] - into[i][d]).abs();
            r.maximum("deviation of an incoming rate", if h.largest[i][d] > 0.0 { dev / h.largest[i][d] } else { 0.0 });
            r.check(dev <= tol, || format!("{what}: in direction {d}, {:e} come into particle {i} (level {}, sweep {cur}) and {:e} leave its neighbours towards it", f[i].incoming[d], b[i].level, into[i][d]));
            let dev = (f[i].periodic[d] - into_periodic[i][d]).abs();
            r.check(dev <= tol, || format!("{what}: in direction {d}, {:e} come into particle {i} through the boundary and {:e} leave its neighbours towards it", f[i].periodic[d], into_periodic[i][d]));
            if !active[i] {
                r.check(f[i].outgoing[d] == b[i].outgoing[d], || format!("{what}: the outgoing rate of the inactive particle {i} changed"));
                continue;
            }
            r.check(seen.contains_key(&(i, d)), || format!("{what}: particle {i} is not solved in direction {d}"));
            // what came through the boundary may have come before or after
            let base = f[i].incoming[d].max(0.0) + f[i].source / nd as f64;
            let (lo, hi) = (base + b[i].periodic[d] + low[i][d], base + b[i].periodic[d] + high[i][d]);
            let out = f[i].outgoing[d];
            let (lo, hi) = (lo - tol, hi + tol);
            let unabsorbed = (-tau).exp();
            let mut ok = out >= lo * unabsorbed * (1.0 - 1e-9) - tol && out <= hi * unabsorbed * (1.0 + 1e-9) + tol && hi >= m.s.threshold * (1.0 - 1e-9);
            if lo < m.s.threshold * (1.0 + 1e-9) {
                ok |= out == 0.0;
                if out == 0.0 && hi > 0.0 {
                    r.count("rates below the threshold", 1);
                }
            }
            r.check(ok, || format!("{what}: in direction {d}, {out:e} leave particle {i} of optical depth {tau:e} and {lo:e} to {hi:e} come in (threshold {:e})", m.s.threshold));
        }
        // nothing but rates changes in the sweep, nothing but the state of the gas afterwards
        r.check(f[i].ionized_hydrogen_fraction == b[i].ionized_hydrogen_fraction && f[i].temperature == b[i].temperature && f[i].level == b[i].level, || format!("{what}: the gas of particle {i} changed before the end of the sweep"));
        r.check(f[i].incoming == u[i].incoming && f[i].outgoing == u[i].outgoing && f[i].periodic == u[i].periodic && u[i].source == m.s.particles[i].source && u[i].density == m.s.particles[i].density, || {
            format!("{what}: the rates of particle {i} changed after the sweep")
        });
        if !active[i] {
            r.check(u[i].ionized_hydrogen_fraction == b[i].ionized_hydrogen_fraction && u[i].temperature == b[i].temperature && u[i].change_timescale == b[i].change_timescale, || format!("{what}: the gas of the inactive particle {i} changed"));
            continue;
        }
        let rate: f64 = (0..nd).map(|d| f[i].incoming[d] + f[i].source / nd as f64 + f[i].periodic[d]).sum();
        let dt = m.s.max_timestep * 0.5f64.powi(b[i].level as i32);
        let solve = |rate: f64| {
            let (t, x, ts, _) = CellState {
                ionized_hydrogen_fraction: Dimensionless::new_unchecked(b[i].ionized_hydrogen_fraction),
                temperature: Temperature::new_unchecked(b[i].temperature),
                density: Density::new_unchecked(b[i].density),
                volume: Volume::new_unchecked(m.cells[i].volume),
                length: Length::new_unchecked(m.cells[i].size),
                rate: PhotonRate::new_unchecked(rate),
                scale_factor: Dimensionless::new_unchecked(1.0),
                floor: m.s.prevent_cooling.then(|| (Temperature::new_unchecked(b[i].temperature), Dimensionless::new_unchecked(b[i].ionized_hydrogen_fraction))),
            }
            .perform_timestep(Time::new_unchecked(dt), Dimensionless::new_unchecked(m.s.chemistry_safety));
            [t.value_unchecked(), x.value_unchecked(), ts.value_unchecked()]
        };
        let want = solve(rate);
        let mut scale = [0.0f64; 2];
        let got = [u[i].temperature, u[i].ionized_hydrogen_fraction];
        if got[0] != want[0] || got[1] != want[1] {
            // the rate is a sum: how much does the last digit matter?
            for e in [1.0 - 3e-13, 1.0 + 3e-13] {
                let other = solve(rate * e);
                for k in 0..2 {
                    scale[k] = scale[k].max((other[k] - want[k]).abs());
                }
            }
        }
        for k in 0..2 {
            let dev = (got[k] - want[k]).abs();
            r.maximum("deviation of the state of a cell", dev / want[k].abs());
            r.check(dev <= 1e-9 * want[k].abs() + 3.0 * scale[k], || {
                format!("{what}: particle {i} at level {} of {dt:e} s has {} {:e} after a rate of {rate:e}, not {:e}", b[i].level, ["the temperature", "the ionized fraction"][k], got[k], want[k])
            });
        }
        r.check((u[i].previous - rate).abs() <= 1e-12 * rate.abs().max(1e-300), || format!("{what}: particle {i} remembers the rate {:e}, not {rate:e}", u[i].previous));
        if rate > 0.0 {
            let change = if rate.abs() < m.s.threshold { 0.0 } else { ((rate - b[i].previous) / rate).abs().min(1.0 / f64::EPSILON) };
            let t = (dt / change).min(want[2]);
            let got = u[i].change_timescale;
            let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-6 * b.abs();
            // differences of nearly equal rates
            let vague = change < 1e-9;
            r.check(close(got, t) || vague || scale[0] + scale[1] > 0.0, || format!("{what}: the state of particle {i} is said to change within {got:e} s, not {t:e} s"));
        }
        r.count("cells updated", 1);
        if r.violations.len() > 5 {
            return upd;
        }
    }
    if !m.s.periodic {
        // photons are absorbed or leave the box
        let dev = ((absorbed + escaped) / total_source - 1.0).abs();
        if total_source > 0.0 {
            r.maximum("deviation of the photon balance", dev);
            r.check(dev < 1e-9 || !r.violations.is_empty(), || format!("{what}: of {total_source:e} photons per second, {absorbed:e} are absorbed and {escaped:e} escape"));
        }
    }
    r.count("sweeps", 1);
    upd
}

fn history(g: &mut Rng, r: &mut Report, m: &Model, what: &str, steps: usize) {
    let j = job();
    let n = m.cells.len();
    let tag: HashMap<ParticleId, usize> = m.owner.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    let nd = if m.s.directions.is_empty() { m.s.num_directions } else { m.s.directions.len() };
    let mut h = History { largest: vec![vec![0.0; nd]; n] };
    let mut sim = m.build(j.rank, j.size);
    let _ = g;
    record();
    watched(|| sim.update());
    r.check(record().is_empty(), || format!("{what}: a sweep before the first output"));
    let snap = snapshot();
    for l in snap.locals.iter() {
        let p = &m.s.particles[l.tag];
        r.check(l.x == p.x && l.t == p.t, || format!("{what}: particle {} changed before the first step", l.tag));
    }
    let mut lowest = m.s.levels - 1;
    let mut time = 0.0;
    for step in 0..steps {
        watched(|| sim.update());
        let done = match sweeps(record()) {
            Ok(s) => s,
            Err(e) => {
                r.violation(format!("{what}: {e}"));
                vec![]
            }
        };
        let counts: Vec<usize> = gather(&[done.len() as f64]).iter().map(|x| x[0] as usize).collect();
        if !r.check(counts.iter().all(|c| *c == counts[0] && *c > 0), || format!("{what}: the ranks made {counts:?} sweeps")) {
            return;
        }
        let dt = m.s.max_timestep * 0.5f64.powi(lowest as i32);
        let mut advanced = vec![0.0; n];
        let mut last = vec![];
        for (k, s) in done.iter().enumerate() {
            let w = format!("{what}, step {step} sweep {k}");
            last = check_sweep(r, m, j.rank, s, &tag, &mut h, &w);
            for site in s.before.sites.iter().filter(|x| x.level >= s.before.level) {
                advanced[tag[&site.id]] += m.s.max_timestep * 0.5f64.powi(site.level as i32);
            }
            let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
            if bad > 0.0 {
                return;
            }
        }
        time += dt;
        let t = sim.get_resource::<SimulationTime>().unwrap().value_unchecked();
        r.check((t / time - 1.0).abs() < 1e-12, || format!("{what}, step {step}: the time is {t:e}, not {time:e}"));
        for i in (0..n).filter(|i| m.owner[*i].rank as usize == j.rank) {
            r.check((advanced[i] / dt - 1.0).abs() < 1e-12, || format!("{what}, step {step}: particle {i} was advanced by {:e} s in a step of {dt:e} s", advanced[i]));
        }
        // what the other parts of the program see
        let snap = snapshot();
        r.check(snap.locals.len() == m.owner.iter().filter(|o| o.rank as usize == j.rank).count(), || format!("{what}: particles are lost"));
        for l in snap.locals.iter() {
            let s = last[l.tag].as_ref().unwrap();
            r.check(l.x == s.ionized_hydrogen_fraction && l.t == s.temperature, || format!("{what}, step {step}: the components of particle {} do not have its state", l.tag));
            let rate: f64 = s.incoming.iter().sum();
            r.check((l.rate - rate).abs() <= 1e-12 * rate.abs(), || format!("{what}, step {step}: the photon rate of particle {} is {:e}, not {rate:e}", l.tag, l.rate));
            if m.s.prevent_cooling {
                let p = &m.s.particles[l.tag];
                r.check(l.x >= p.x.min(1.0 - 1e-9) && l.t >= p.t * (1.0 - 1e-12), || format!("{what}, step {step}: particle {} cooled from {:e} K, {:e} to {:e} K, {:e}", l.tag, p.t, p.x, l.t, l.x));
            }
        }
        // the levels of the next step
        if step > 0 && lowest > 0 {
            lowest -= 1;
        }
        if let Some(now) = subsweep::sweep::verif_full::current_state(&sim) {
            for s in now.sites.iter() {
                let desired = m.s.safety * s.change_timescale;
                let fits = |l: usize, f: f64| m.s.max_timestep * 0.5f64.powi(l as i32) <= desired * f;
                let l = s.level;
                let ok = l >= lowest && l < m.s.levels && (fits(l, 1.0 + 1e-9) || l == m.s.levels - 1) && (l == lowest || !fits(l - 1, 1.0 - 1e-9));
                r.check(ok, || format!("{what}, step {step}: level {l} for a timestep of {desired:e} of {:e}, the lowest is {lowest}", m.s.max_timestep));
                if l != lowest {
                    r.count("cells above the lowest level", 1);
                }
            }
        }
        r.case();
        r.nontrivial(&(m.s.particles.iter().flat_map(|p| p.pos.to_array().map(f64::to_bits)).collect::<Vec<_>>(), step));
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            return;
        }
    }
}

pub fn sweep(c: &Ctx) -> Report {
    let mut r = Report::new();
    let j = job();
    let mut g = Rng::new(c.seed, 31);
    for i in 0..c.n(6, 25) {
        let levels = [1, 3, 1, 4, 2, 5][i % 6];
        let periodic = i % 2 == 1 || g.chance(0.3);
        let n = g.range(20, 70).max(3 * j.size);
        let (m, what) = model(&mut g, j.size, n, levels, periodic, false);
        let what = format!("{what}, seed {} round {i}", c.seed);
        r.sample(|| what.clone());
        history(&mut g, &mut r, &m, &what, if levels == 1 { 3 } else { levels + 2 });
        publish(c, &r);
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            return r;
        }
    }
    r
}

/// With directions that are rotated after every step.
pub fn rotated(c: &Ctx) -> Report {
    let mut r = Report::new();
    let j = job();
    let mut g = Rng::new(c.seed, 32);
    for i in 0..c.n(2, 6) {
        let (m, what) = model(&mut g, j.size, 30.max(3 * j.size), 1, false, true);
        let what = format!("{what}, seed {} round {i}", c.seed);
        r.sample(|| what.clone());
        history(&mut g, &mut r, &m, &what, 3);
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            return r;
        }
    }
    r
}
