//! Cartesian grids on several ranks, compared with what a lattice of cubes is.
use crate::grid::shift_of;
use crate::sim::*;
use crate::support::*;
use bevy_ecs::prelude::*;
use glam::DVec3;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::Position;
use subsweep::prelude::*;
use subsweep::sweep::grid::{init_cartesian_grid_system, Cell, NumCellsSpec, ParticleType};
use subsweep::units::Length;
use subsweep::verif_full::Performance;

thread_local! {
    static LOCAL: RefCell<Vec<(ParticleId, DVec3, Cell)>> = RefCell::new(vec![]);
    static HALO: RefCell<Vec<(ParticleId, usize, DVec3)>> = RefCell::new(vec![]);
}

fn look(locals: Query<(&ParticleId, &Position, &Cell), With<LocalParticle>>, haloes: Query<(&ParticleId, &HaloParticle, &Position)>) {
    LOCAL.with(|l| *l.borrow_mut() = locals.iter().map(|(id, p, c)| (*id, p.value_unchecked(), c.clone())).collect());
    HALO.with(|l| *l.borrow_mut() = haloes.iter().map(|(id, h, p)| (*id, h.rank as usize, p.value_unchecked())).collect());
}

fn one(r: &mut Report, g: &mut Rng) {
    let j = job();
    let scale = if g.chance(0.4) { 1.0 } else { g.log_uniform(1e-3, 1e23) };
    let limit = if g.chance(0.3) { 100 } else { 9 };
    let k: [usize; 3] = match g.below(4) {
        0 => [g.range(1, 3 * limit), 1, 1],
        1 => [g.range(1, limit), g.range(1, 6), 1],
        2 => [g.range(1, 5), g.range(1, 5), g.range(1, limit)],
        _ => [g.range(1, 9), g.range(1, 9), g.range(1, 9)],
    };
    let periodic = g.chance(0.5);
    // the sides from the size of a cell, or the other way round
    let (h, side) = if g.chance(0.5) {
        (scale, DVec3::new(k[0] as f64, k[1] as f64, k[2] as f64) * scale)
    } else {
        let a = g.below(3);
        let h = scale / k[a] as f64;
        let mut side = DVec3::new(k[0] as f64 * h, k[1] as f64 * h, k[2] as f64 * h);
        side[a] = scale;
        (h, side)
    };
    let what = format!("{k:?} cells of {h:e} m in a box of {side:?} on {} ranks, {}periodic", j.size, if periodic { "" } else { "not " });
    case(&what);
    r.case();
    r.nontrivial(&what);
    r.sample(|| what.clone());
    let mut sim = Simulation::default();
    sim.insert_resource(Performance::default());
    sim.write_output(false).add_parameter_file_contents("{}".into())
        .add_plugin(BaseCommunicationPlugin::new(j.size, j.rank as i32))
        .add_parameters_explicitly(SimulationBox::new(Extent::from_min_max(vec(DVec3::ZERO), vec(side))))
        .add_startup_system(move |commands: Commands, box_: Res<SimulationBox>, size: Res<WorldSize>, rank: Res<WorldRank>| {
            init_cartesian_grid_system(commands, box_, NumCellsSpec::CellSize(Length::new_unchecked(h)), size, rank, periodic)
        })
        .add_startup_system_to_stage(StartupStages::Final, look);
    watched(|| sim.update());
    let locals = LOCAL.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let haloes = HALO.with(|l| std::mem::take(&mut *l.borrow_mut()));
    // who is where
    let all = gather(&locals.iter().flat_map(|(id, p, _)| [id.rank as f64, id.index as f64, p.x, p.y, p.z]).collect::<Vec<_>>());
    let mut at: BTreeMap<[usize; 3], (usize, usize)> = BTreeMap::new();
    let mut site: BTreeMap<(usize, usize), [usize; 3]> = BTreeMap::new();
    // Where in its cell is the position of a cell? The same place for all.
    let first = all.iter().flatten().copied().collect::<Vec<f64>>().chunks(5).map(|c| DVec3::new(c[2], c[3], c[4])).fold(DVec3::INFINITY, |a, b| a.min(b));
    let inside = (0..3).all(|a| first[a] >= -1e-9 * h && first[a] <= h * (1.0 + 1e-9));
    if !r.check(inside, || format!("{what}: the first cell is at {first:?}")) {
        return;
    }
    for (rank, list) in all.iter().enumerate() {
        let mut indices = BTreeSet::new();
        for c in list.chunks(5) {
            let (id_rank, index) = (c[0] as usize, c[1] as usize);
            r.check(id_rank == rank, || format!("{what}: a cell of rank {rank} has the rank {id_rank}"));
            indices.insert(index);
            let u = (DVec3::new(c[2], c[3], c[4]) - first) / h;
            let s = u.round();
            let ok = (u - s).abs().max_element() < 1e-6 && (0..3).all(|a| s[a] >= 0.0 && s[a] < k[a] as f64);
            if !r.check(ok, || format!("{what}: a cell at {u:?}")) {
                return;
            }
            let s = [s.x as usize, s.y as usize, s.z as usize];
            r.check(at.insert(s, (rank, index)).is_none(), || format!("{what}: two cells at {s:?}"));
            site.insert((rank, index), s);
        }
        r.check(indices.len() == list.len() / 5 && indices.iter().enumerate().all(|(i, x)| i == *x), || format!("{what}: the cells of rank {rank} have the indices {indices:?}"));
        if !list.is_empty() {
            r.count("ranks with cells", 1);
        }
    }
    if !r.check(at.len() == k[0] * k[1] * k[2], || format!("{what}: there are {} cells", at.len())) {
        return;
    }
    let id = |p: &ParticleId| (p.rank as usize, p.index as usize);
    let mut needed = BTreeSet::new();
    for (me, pos, cell) in locals.iter() {
        let s = site[&id(me)];
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b;
        r.check(close(cell.size.value_unchecked(), h) && close(cell.volume.value_unchecked(), h * h * h), || format!("{what}: a cell of size {:?} and volume {:?}", cell.size, cell.volume));
        let mut faces = BTreeSet::new();
        for (face, n) in cell.neighbours.iter() {
            r.check(close(face.area.value_unchecked(), h * h), || format!("{what}: a face of area {:?}", face.area));
            let v = face.normal.value_unchecked();
            let e = v.round();
            let axis = (0..3).find(|a| e[*a] != 0.0);
            if !r.check((v - e).length() < 1e-9 && e.abs().dot(DVec3::ONE) == 1.0, || format!("{what}: a face with the normal {v:?}")) {
                return;
            }
            let (axis, up) = (axis.unwrap(), e.dot(DVec3::ONE) > 0.0);
            faces.insert((axis, up));
            let (mut to, mut shift) = (s, [0; 3]);
            if up && s[axis] + 1 == k[axis] {
                (to[axis], shift[axis]) = (0, 1);
            } else if !up && s[axis] == 0 {
                (to[axis], shift[axis]) = (k[axis] - 1, -1);
            } else {
                to[axis] = if up { s[axis] + 1 } else { s[axis] - 1 };
            }
            let outside = shift != [0; 3];
            let owner = at[&to];
            if outside && !periodic {
                r.check(n.is_boundary(), || format!("{what}: the face of {s:?} at the boundary leads to {n:?}"));
                r.count("faces at the boundary", 1);
                continue;
            }
            if !r.check(!n.is_boundary(), || format!("{what}: the face of {s:?} towards {to:?} is at the boundary")) {
                return;
            }
            let kind = match n {
                ParticleType::Local(_) => (true, false),
                ParticleType::LocalPeriodic(_) => (true, true),
                ParticleType::Remote(x) => {
                    r.check(x.rank == x.id.rank, || format!("{what}: {n:?} has two ranks"));
                    (false, false)
                }
                ParticleType::RemotePeriodic(x) => {
                    r.check(x.rank == x.id.rank, || format!("{what}: {n:?} has two ranks"));
                    (false, true)
                }
                ParticleType::Boundary => unreachable!(),
            };
            r.check(id(&n.unwrap_id()) == owner && kind == (owner.0 == j.rank, outside) && shift_of(n) == shift, || format!("{what}: the neighbour of {s:?} towards {to:?}, {shift:?} is {n:?}, not {owner:?}"));
            r.count("neighbours", 1);
            if owner.0 != j.rank {
                needed.insert(owner);
                r.count("neighbours on other ranks", 1);
            }
        }
        r.check(faces.len() == 6 && cell.neighbours.len() == 6, || format!("{what}: {} faces of {s:?} at {pos:?} on {} sides", cell.neighbours.len(), faces.len()));
    }
    let got: BTreeSet<(usize, usize)> = haloes.iter().map(|(p, _, _)| id(p)).collect();
    r.check(haloes.len() == got.len() && haloes.iter().all(|(p, rank, _)| p.rank as usize == *rank), || format!("{what}: haloes {haloes:?}"));
    r.check(got == needed, || format!("{what}: rank {} has the haloes {got:?} and needs {needed:?}", j.rank));
    for (p, _, x) in haloes.iter() {
        let s = site.get(&id(p)).copied().unwrap_or([usize::MAX; 3]);
        let u = ((*x - first) / h).round();
        r.check((0..3).all(|a| u[a] == s[a] as f64), || format!("{what}: the halo of {s:?} is at {u:?}"));
    }
}

pub fn cartesian(c: &Ctx) -> Report {
    let mut r = Report::new();
    let mut g = Rng::new(c.seed, 41);
    for i in 0..c.n(150, 1500) {
        one(&mut r, &mut g);
        if i % 10 == 9 {
            publish(c, &r);
            let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
            if bad > 0.0 {
                return r;
            }
        }
    }
    r
}
