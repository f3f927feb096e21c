//! Simulations on several ranks, as an application builds them, with every particle tagged.
use crate::support::*;
use bevy_ecs::prelude::*;
use glam::DVec3;
use mpi::traits::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use subsweep::communication::{BaseCommunicationPlugin, MpiWorld, SizedCommunicator, MPI_UNIVERSE};
use subsweep::components;
use subsweep::components::Position;
use subsweep::domain::DomainPlugin;
use subsweep::parameters::{Cosmology, SimulationParameters};
use subsweep::prelude::*;
use subsweep::source_systems::{Source, SourcePlugin, Sources, TotalLuminosity};
use subsweep::sweep::grid::{Cell, ParticleType};
use subsweep::sweep::{DirectionsSpecification, SweepParameters};
use subsweep::units::{Density, Dimensionless, Length, PhotonRate, SourceRate, Temperature, Time, VecDimensionless, VecLength, Volume};

#[derive(Component, Clone, Debug, Equivalence)]
pub struct Tag(pub u64);
impl Named for Tag {
    fn name() -> &'static str {
        "verif_tag"
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Job {
    pub rank: usize,
    pub size: usize,
}

pub fn job() -> Job {
    let c: MpiWorld<u8> = MpiWorld::new();
    Job { rank: c.rank() as usize, size: c.size() }
}

pub fn run(c: &Ctx, f: fn(&Ctx) -> Report) -> ! {
    let rank = job().rank;
    let out = format!("{}.{rank}", c.out);
    watchdog(out.clone());
    match std::panic::catch_unwind(|| f(c)) {
        Ok(rep) => {
            rep.write(&out);
            MPI_UNIVERSE.drop();
            std::process::exit(0)
        }
        Err(e) => {
            let mut rep = PARTIAL.with(|p| p.borrow_mut().take()).unwrap_or_default();
            rep.violation(format!("rank {rank} was ended by a panic: {} ({})", panic_text(&e), CASE.with(|c| c.borrow().clone())));
            rep.write(&out);
            std::process::exit(86)
        }
    }
}

/// What was seen so far, in case that another rank ends the job.
pub fn publish(c: &Ctx, r: &Report) {
    r.write(&format!("{}.{}", c.out, job().rank));
    PARTIAL.with(|p| *p.borrow_mut() = Some(r.clone()));
}

/// What is being done, should it end with a panic.
pub fn case(what: &str) {
    CASE.with(|c| *c.borrow_mut() = what.to_string());
}

thread_local! {
    static CASE: RefCell<String> = RefCell::new(String::new());
    static PARTIAL: RefCell<Option<Report>> = RefCell::new(None);
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn cpu_seconds() -> u64 {
    let text = std::fs::read_to_string("/proc/self/stat").unwrap();
    let w: Vec<&str> = text.rsplit(')').next().unwrap().split_whitespace().collect();
    (w[11].parse::<u64>().unwrap() + w[12].parse::<u64>().unwrap()) / 100
}

/// A call that ends. One that has used this many seconds of processor time is stuck: it takes a
/// fraction of a second.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    PROGRESS.store(cpu_seconds() + 1, Ordering::SeqCst);
    let x = f();
    PROGRESS.store(0, Ordering::SeqCst);
    x
}

fn watchdog(out: String) {
    const LIMIT: u64 = 60;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let start = PROGRESS.load(Ordering::SeqCst);
        if start > 0 && cpu_seconds() > start + LIMIT {
            let mut rep = Report::new();
            rep.violation(format!("a call into the code did not end within {LIMIT} s of processor time"));
            rep.write(&out);
            std::process::exit(87)
        }
    });
}

/// What all ranks have, in the order of the ranks.
pub fn gather(mine: &[f64]) -> Vec<Vec<f64>> {
    let world = MPI_UNIVERSE.world();
    let n = world.size() as usize;
    let mut counts = vec![0i32; n];
    world.all_gather_into(&(mine.len() as i32), &mut counts[..]);
    let mut displs = vec![0i32; n];
    for i in 1..n {
        displs[i] = displs[i - 1] + counts[i - 1];
    }
    let total: i32 = counts.iter().sum();
    // never an empty buffer
    let mut buf = vec![0f64; total.max(1) as usize];
    {
        let mut part = mpi::datatype::PartitionMut::new(&mut buf[..], counts.clone(), &displs[..]);
        let mut send = Vec::with_capacity(mine.len() + 1);
        send.extend_from_slice(mine);
        world.all_gather_varcount_into(&send[..], &mut part);
    }
    (0..n).map(|i| buf[displs[i] as usize..(displs[i] + counts[i]) as usize].to_vec()).collect()
}

#[derive(Clone, Debug)]
pub struct Particle {
    pub pos: DVec3,
    pub density: f64,
    pub x: f64,
    pub t: f64,
    pub source: f64,
    /// Where it is before anything is distributed.
    pub rank: usize,
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub min: DVec3,
    pub max: DVec3,
    pub particles: Vec<Particle>,
    /// Further sources, and the rank that knows them at first.
    pub sources: Vec<(DVec3, f64, usize)>,
    pub directions: Vec<DVec3>,
    pub num_directions: usize,
    pub levels: usize,
    pub periodic: bool,
    pub max_timestep: f64,
    pub threshold: f64,
    pub rotate: bool,
    pub check_deadlock: bool,
    pub prevent_cooling: bool,
    pub batch: usize,
    pub sweep: bool,
    pub grid: bool,
    pub search_radius: Option<f64>,
    pub safety: f64,
    pub chemistry_safety: f64,
}

impl Setup {
    pub fn new(min: DVec3, max: DVec3, particles: Vec<Particle>) -> Self {
        Self {
            min,
            max,
            particles,
            sources: vec![],
            directions: vec![],
            num_directions: 1,
            levels: 1,
            periodic: false,
            max_timestep: 1e10,
            threshold: 0.0,
            rotate: false,
            check_deadlock: false,
            prevent_cooling: true,
            batch: 10000,
            sweep: false,
            grid: true,
            search_radius: None,
            safety: 0.1,
            chemistry_safety: 0.1,
        }
    }
    pub fn side(&self) -> DVec3 {
        self.max - self.min
    }
}

#[derive(Clone, Debug)]
pub struct Local {
    pub tag: usize,
    pub id: ParticleId,
    pub pos: DVec3,
    pub cell: Cell,
    pub density: f64,
    pub x: f64,
    pub t: f64,
    pub source: f64,
    pub rate: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Snapshot {
    pub locals: Vec<Local>,
    pub haloes: Vec<(ParticleId, usize, DVec3)>,
}

thread_local! {
    static SNAPSHOT: RefCell<Snapshot> = RefCell::new(Snapshot::default());
}

pub fn vec(p: DVec3) -> VecLength {
    VecLength::new_unchecked(p)
}

pub fn snapshot_system(
    particles: Particles<(&Tag, &ParticleId, &Position, &Cell, &components::Density, &components::IonizedHydrogenFraction, &components::Temperature, &components::Source, &components::PhotonRate)>,
    haloes: Query<(&HaloParticle, &ParticleId, &Position)>,
) {
    SNAPSHOT.with(|s| {
        *s.borrow_mut() = Snapshot {
            locals: particles
                .iter()
                .map(|(tag, id, pos, cell, d, x, t, q, rate)| Local {
                    tag: tag.0 as usize,
                    id: *id,
                    pos: pos.value_unchecked(),
                    cell: cell.clone(),
                    density: d.value_unchecked(),
                    x: x.value_unchecked(),
                    t: t.value_unchecked(),
                    source: q.value_unchecked(),
                    rate: rate.value_unchecked(),
                })
                .collect(),
            haloes: haloes.iter().map(|(h, id, pos)| (*id, h.rank as usize, pos.value_unchecked())).collect(),
        }
    })
}

fn snapshot_without_grid(
    particles: Particles<(&Tag, &ParticleId, &Position, &components::Density, &components::IonizedHydrogenFraction, &components::Temperature, &components::Source, &components::PhotonRate)>,
    haloes: Query<(&HaloParticle, &ParticleId, &Position)>,
) {
    SNAPSHOT.with(|s| {
        *s.borrow_mut() = Snapshot {
            locals: particles
                .iter()
                .map(|(tag, id, pos, d, x, t, q, rate)| Local {
                    tag: tag.0 as usize,
                    id: *id,
                    pos: pos.value_unchecked(),
                    cell: Cell { neighbours: vec![], size: Length::new_unchecked(0.0), volume: Volume::new_unchecked(0.0) },
                    density: d.value_unchecked(),
                    x: x.value_unchecked(),
                    t: t.value_unchecked(),
                    source: q.value_unchecked(),
                    rate: rate.value_unchecked(),
                })
                .collect(),
            haloes: haloes.iter().map(|(h, id, pos)| (*id, h.rank as usize, pos.value_unchecked())).collect(),
        }
    })
}

pub fn snapshot() -> Snapshot {
    SNAPSHOT.with(|s| s.borrow().clone())
}

pub fn sweep_parameters(s: &Setup) -> SweepParameters {
    SweepParameters {
        directions: if s.directions.is_empty() {
            DirectionsSpecification::Num(s.num_directions)
        } else {
            DirectionsSpecification::Explicit(s.directions.iter().map(|d| VecDimensionless::new_unchecked(*d)).collect())
        },
        num_timestep_levels: s.levels,
        periodic: s.periodic,
        max_timestep: Time::new_unchecked(s.max_timestep),
        rotate_directions: s.rotate,
        significant_rate_threshold: PhotonRate::new_unchecked(s.threshold),
        timestep_safety_factor: Dimensionless::new_unchecked(s.safety),
        chemistry_timestep_safety_factor: Dimensionless::new_unchecked(s.chemistry_safety),
        check_deadlock: s.check_deadlock,
        prevent_cooling: s.prevent_cooling,
        num_tasks_to_solve_before_send_receive: s.batch,
    }
}

pub fn build(s: &Setup) -> Simulation {
    let j = job();
    let mut sim = Simulation::default();
    let mine: Vec<(u64, Particle)> = s.particles.iter().enumerate().filter(|(_, p)| p.rank == j.rank).map(|(i, p)| (i as u64, p.clone())).collect();
    let contents = match s.search_radius {
        Some(r) => format!("grid:\n  initial_search_radius: {r:e} m\n"),
        None => "{}".to_string(),
    };
    sim.write_output(false)
        .add_parameter_file_contents(contents)
        .add_plugin(BaseCommunicationPlugin::new(j.size, j.rank as i32))
        .add_component_no_io::<Tag>()
        .add_plugin(DomainPlugin)
        .add_parameters_explicitly(SimulationBox::new(Extent::from_min_max(vec(s.min), vec(s.max))))
        .add_parameters_explicitly(sweep_parameters(s))
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None })
        .add_parameters_explicitly(Sources {
            sources: s.sources.iter().filter(|(_, _, r)| *r == j.rank).map(|(p, q, _)| Source { pos: vec(*p), rate: SourceRate::new_unchecked(*q) }).collect(),
        })
        .add_startup_system_to_stage(StartupStages::ReadInput, move |mut commands: Commands| {
            for (tag, p) in mine.iter() {
                commands.spawn((
                    LocalParticle,
                    Tag(*tag),
                    Position(vec(p.pos)),
                    components::Density(Density::new_unchecked(p.density)),
                    components::IonizedHydrogenFraction(Dimensionless::new_unchecked(p.x)),
                    components::Temperature(Temperature::new_unchecked(p.t)),
                    components::Source(SourceRate::new_unchecked(p.source)),
                    components::PhotonRate(PhotonRate::new_unchecked(0.0)),
                    components::Mass(subsweep::units::Mass::new_unchecked(1.0)),
                ));
            }
        })
        .add_plugin(SimulationPlugin);
    if !s.grid {
        // what the parts of the program that are left out would ask for
        sim.add_component_no_io::<components::Density>()
            .add_component_no_io::<components::IonizedHydrogenFraction>()
            .add_component_no_io::<components::Temperature>()
            .add_component_no_io::<components::Source>()
            .add_component_no_io::<components::PhotonRate>()
            .add_startup_system_to_stage(StartupStages::Final, snapshot_without_grid);
        return sim;
    }
    sim.add_plugin(ParallelVoronoiGridConstruction)
        .add_event::<TotalLuminosity>()
        .add_plugin(SourcePlugin)
        .add_plugin(SweepPlugin)
        .add_startup_system_to_stage(StartupStages::Final, snapshot_system)
        .add_system_to_stage(Stages::Final, snapshot_system);
    sim
}

/// For every id of the job: the tag of its particle.
pub fn tags(snap: &Snapshot) -> HashMap<ParticleId, usize> {
    let mine: Vec<f64> = snap.locals.iter().flat_map(|l| [l.id.rank as f64, l.id.index as f64, l.tag as f64]).collect();
    gather(&mine).iter().flat_map(|v| v.chunks(3).map(|c| (ParticleId { rank: c[0] as i32, index: c[1] as u32 }, c[2] as usize)).collect::<Vec<_>>()).collect()
}

pub fn neighbour_id(t: &ParticleType) -> Option<ParticleId> {
    if t.is_boundary() {
        None
    } else {
        Some(t.unwrap_id())
    }
}

use subsweep::simulation_plugin::SimulationPlugin;
