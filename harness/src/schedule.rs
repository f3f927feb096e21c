//! How a program is put together and run: which parts are built on which ranks, in which order
//! systems run, when a run ends and what it says about its own duration.
use crate::sim::*;
use crate::support::*;
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{SystemLabelId};
use glam::DVec3;
use std::any::TypeId;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::Instant;
use subsweep::communication::{BaseCommunicationPlugin, MPI_UNIVERSE};
use subsweep::components::Position;
use subsweep::parameters::SimulationParameters;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::units::Time;
use subsweep::verif_full::Performance;

const KINDS: usize = 6;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
enum What {
    #[default]
    AlwaysOnce,
    OnceEverywhere,
    OnceOnMain,
    OnceOnOthers,
    Everywhere,
    OnMain,
    OnOthers,
}

#[derive(Clone, Copy, Debug, Default)]
struct Behaviour {
    twice: bool,
    /// Whether it is to be built, as build_always_once determines
    build: bool,
    /// Another part that is added while this one is built
    nested: Option<(usize, usize)>,
}

type Built = (usize, usize, What);

thread_local! {
    static BEHAVIOUR: RefCell<[Behaviour; KINDS]> = RefCell::new([Behaviour::default(); KINDS]);
    static BUILT: RefCell<Vec<Built>> = RefCell::new(vec![]);
    static RAN: RefCell<Vec<usize>> = RefCell::new(vec![]);
}

fn behaviour(k: usize) -> Behaviour {
    BEHAVIOUR.with(|b| b.borrow()[k])
}

fn built(k: usize, v: usize, what: What) {
    BUILT.with(|b| b.borrow_mut().push((k, v, what)));
}

fn ran(n: usize) {
    RAN.with(|b| b.borrow_mut().push(n));
}

struct Wanted<const K: usize>(bool);
impl<const K: usize> bevy_ecs::system::Resource for Wanted<K> {}

/// A generic part: its name does not depend on V.
struct Part<const K: usize, const V: usize>;
impl<const K: usize, const V: usize> Named for Part<K, V> {
    fn name() -> &'static str {
        ["verif_0", "verif_1", "verif_2", "verif_3", "verif_4", "verif_5"][K]
    }
}
impl<const K: usize, const V: usize> SubsweepPlugin for Part<K, V> {
    fn should_build(&self, sim: &Simulation) -> bool {
        sim.get_resource::<Wanted<K>>().expect("should_build before build_always_once").0
    }
    fn allow_adding_twice(&self) -> bool {
        behaviour(K).twice
    }
    fn build_always_once(&self, sim: &mut Simulation) {
        built(K, V, What::AlwaysOnce);
        sim.insert_resource(Wanted::<K>(behaviour(K).build));
    }
    fn build_everywhere(&self, sim: &mut Simulation) {
        built(K, V, What::Everywhere);
        if let Some((k, v)) = behaviour(K).nested {
            add(sim, k, v, false);
        }
    }
    fn build_on_main_rank(&self, _sim: &mut Simulation) {
        built(K, V, What::OnMain);
    }
    fn build_on_other_ranks(&self, _sim: &mut Simulation) {
        built(K, V, What::OnOthers);
    }
    fn build_once_everywhere(&self, _sim: &mut Simulation) {
        built(K, V, What::OnceEverywhere);
    }
    fn build_once_on_main_rank(&self, _sim: &mut Simulation) {
        built(K, V, What::OnceOnMain);
    }
    fn build_once_on_other_ranks(&self, _sim: &mut Simulation) {
        built(K, V, What::OnceOnOthers);
    }
}

fn add(sim: &mut Simulation, k: usize, v: usize, maybe: bool) {
    macro_rules! parts {
        ($($k:literal $v:literal),*) => {
            match (k, v) {
                $(($k, $v) => {
                    if maybe {
                        sim.maybe_add_plugin(Some(Part::<$k, $v>));
                    } else {
                        sim.add_plugin(Part::<$k, $v>);
                    }
                })*
                _ => unreachable!(),
            }
        };
    }
    parts!(0 0, 0 1, 1 0, 1 1, 2 0, 2 1, 3 0, 3 1, 4 0, 4 1, 5 0, 5 1);
}

/// What the documentation of SubsweepPlugin says. Some(false): refused.
fn expected(main: bool, seen: &mut [bool; KINDS], out: &mut Vec<Built>, k: usize, v: usize) -> bool {
    let b = behaviour(k);
    let first = !seen[k];
    seen[k] = true;
    if first {
        out.push((k, v, What::AlwaysOnce));
    }
    if !b.build {
        return true;
    }
    if !first && !b.twice {
        return false;
    }
    if first {
        out.push((k, v, What::OnceEverywhere));
        out.push((k, v, if main { What::OnceOnMain } else { What::OnceOnOthers }));
    }
    out.push((k, v, What::Everywhere));
    if let Some((k, v)) = b.nested {
        if !expected(main, seen, out, k, v) {
            return false;
        }
    }
    out.push((k, v, if main { What::OnMain } else { What::OnOthers }));
    true
}

fn new_simulation(j: Job) -> Simulation {
    let mut sim = Simulation::default();
    sim.insert_resource(Performance::default());
    sim.write_output(false).add_parameter_file_contents("{}".into()).add_plugin(BaseCommunicationPlugin::new(j.size, j.rank as i32));
    sim
}

fn parts(r: &mut Report, g: &mut Rng) {
    let j = job();
    BUILT.with(|b| b.borrow_mut().clear());
    let table: Vec<Behaviour> = (0..KINDS)
        .map(|k| {
            let build = g.chance(0.8);
            Behaviour {
            twice: !build || g.chance(0.5),
            build,
            nested: if k + 1 < KINDS && g.chance(0.3) { Some((g.range(k + 1, KINDS - 1), g.below(2))) } else { None },
        }})
        .collect();
    BEHAVIOUR.with(|b| *b.borrow_mut() = table.clone().try_into().unwrap());
    let adds: Vec<(usize, usize)> = (0..g.range(1, 10)).map(|_| (g.below(KINDS), g.below(2))).collect();
    let what = format!("the parts {adds:?} of {table:?} on rank {} of {}", j.rank, j.size);
    case(&what);
    r.case();
    r.nontrivial(&what);
    r.sample(|| what.clone());
    let mut sim = new_simulation(j);
    let mut seen = [false; KINDS];
    for (k, v) in adds {
        let before = BUILT.with(|b| b.borrow().len());
        let mut expect = vec![];
        let accepted = expected(j.rank == 0, &mut seen, &mut expect, k, v);
        let maybe = g.chance(0.3);
        if g.chance(0.2) {
            sim.maybe_add_plugin::<Part<0, 0>>(None);
        }
        let outcome = guarded(|| add(&mut sim, k, v, maybe));
        if !r.check(outcome.is_ok() == accepted, || format!("{what}: adding part {k} ({v}) was {}", if accepted { format!("refused: {outcome:?}") } else { "accepted a second time".to_string() })) {
            return;
        }
        if !accepted {
            r.count("refused parts", 1);
            return;
        }
        let got = BUILT.with(|b| b.borrow()[before..].to_vec());
        let sorted = |l: &[Built]| {
            let mut l = l.to_vec();
            l.sort();
            l
        };
        r.check(sorted(&got) == sorted(&expect), || format!("{what}: adding part {k} ({v}) called {got:?}, not {expect:?}"));
        // What is to be there when it is decided whether to build comes first.
        for (k, v, w) in &got {
            if *w == What::AlwaysOnce {
                let at = got.iter().position(|e| e == &(*k, *v, What::AlwaysOnce)).unwrap();
                r.check(got[..at].iter().all(|e| e.0 != *k), || format!("{what}: {got:?} begins with something else"));
            }
        }
        r.count("calls of parts", got.len() as u64);
    }
}

#[derive(Clone, Copy)]
struct Numbered(u64);
impl bevy_ecs::prelude::SystemLabel for Numbered {
    fn as_label(&self) -> SystemLabelId {
        SystemLabelId::make(TypeId::of::<Numbered>(), self.0, "numbered")
    }
    fn as_str(&self) -> &'static str {
        "numbered"
    }
}

struct MarkerA;
struct MarkerB;
impl Named for MarkerA {
    fn name() -> &'static str {
        "verif_a"
    }
}
impl Named for MarkerB {
    fn name() -> &'static str {
        "verif_b"
    }
}

const STARTUP: [&str; 13] = ["Initial", "ReadInput", "InsertDerivedComponents", "Decomposition", "SetOutgoingEntities", "Exchange", "AssignParticleIds", "TreeConstruction", "Remap", "InsertGrid", "InsertComponentsAfterGrid", "InitSweep", "Final"];
const REGULAR: [&str; 6] = ["Initial", "Sweep", "AfterSweep", "CreateOutputFiles", "Output", "Final"];

fn to_startup<P>(sim: &mut Simulation, stage: usize, ordered: Option<(bool, SystemLabelId)>, system: impl IntoSystemDescriptor<P>) {
    use StartupStages as S;
    macro_rules! stages {
        ($($i:literal $s:ident),*) => {
            match (stage, ordered) {
                $(($i, None) => { sim.add_startup_system_to_stage(S::$s, system); }
                ($i, Some((true, l))) => { sim.add_well_ordered_system_to_startup_stage::<P, MarkerA>(S::$s, system, l); }
                ($i, Some((false, l))) => { sim.add_well_ordered_system_to_startup_stage::<P, MarkerB>(S::$s, system, l); })*
                _ => unreachable!(),
            }
        };
    }
    stages!(0 Initial, 1 ReadInput, 2 InsertDerivedComponents, 3 Decomposition, 4 SetOutgoingEntities, 5 Exchange, 6 AssignParticleIds, 7 TreeConstruction, 8 Remap, 9 InsertGrid, 10 InsertComponentsAfterGrid, 11 InitSweep, 12 Final);
}

fn to_regular<P>(sim: &mut Simulation, stage: usize, ordered: Option<(bool, SystemLabelId)>, system: impl IntoSystemDescriptor<P>) {
    use Stages as S;
    macro_rules! stages {
        ($($i:literal $s:ident),*) => {
            match (stage, ordered) {
                $(($i, None) => { sim.add_system_to_stage(S::$s, system); }
                ($i, Some((true, l))) => { sim.add_well_ordered_system_to_stage::<P, MarkerA>(S::$s, system, l); }
                ($i, Some((false, l))) => { sim.add_well_ordered_system_to_stage::<P, MarkerB>(S::$s, system, l); })*
                _ => unreachable!(),
            }
        };
    }
    stages!(0 Initial, 1 Sweep, 2 AfterSweep, 3 CreateOutputFiles, 4 Output, 5 Final);
}

/// How often a stage is to be found in the record, by the end of its name.
fn calls_of_stages(suffix: &str, steps: usize) -> usize {
    STARTUP.iter().filter(|s| s.ends_with(suffix)).count() + steps * REGULAR.iter().filter(|s| s.ends_with(suffix)).count()
}

fn num_calls<'a>(output: impl Iterator<Item = (&'a String, &'a serde_yaml::Value)>, suffix: &str) -> usize {
    output.filter(|(name, _)| name.ends_with(suffix)).filter_map(|(_, v)| v.get("num_calls")).map(|v| v.as_u64().unwrap() as usize).sum()
}

#[derive(Clone, Debug)]
struct Added {
    stage: usize,
    startup: bool,
    marker: Option<bool>,
}

fn order(r: &mut Report, g: &mut Rng) {
    let j = job();
    RAN.with(|b| b.borrow_mut().clear());
    // every marker in one stage
    let homes: Vec<(bool, usize)> = (0..2)
        .map(|_| {
            let startup = g.chance(0.5);
            (startup, if startup { g.below(13) } else { g.below(6) })
        })
        .collect();
    let list: Vec<Added> = (0..g.range(5, 60))
        .map(|_| {
            if g.chance(0.4) {
                let m = g.below(2);
                Added { stage: homes[m].1, startup: homes[m].0, marker: Some(m == 0) }
            } else {
                let startup = g.chance(0.5);
                Added { stage: if startup { g.below(13) } else { g.below(6) }, startup, marker: None }
            }
        })
        .collect();
    let steps = g.range(1, 6);
    let what = format!("{steps} steps of {list:?} on {} ranks", j.size);
    case(&what);
    r.case();
    r.nontrivial(&what);
    let mut sim = new_simulation(j);
    for (n, a) in list.iter().enumerate() {
        let label = Numbered(n as u64);
        let ordered = a.marker.map(|m| (m, label.as_label()));
        let system = (move || ran(n)).label(label);
        if a.startup {
            to_startup(&mut sim, a.stage, ordered, system);
        } else {
            to_regular(&mut sim, a.stage, ordered, system);
        }
    }
    for _ in 0..steps {
        watched(|| sim.update());
    }
    let got = RAN.with(|b| std::mem::take(&mut *b.borrow_mut()));
    r.count("systems run", got.len() as u64);
    let per_start = list.iter().filter(|a| a.startup).count();
    let per_step = list.len() - per_start;
    if !r.check(got.len() == per_start + steps * per_step, || format!("{what}: {} systems ran, not {}", got.len(), per_start + steps * per_step)) {
        return;
    }
    let mut blocks = vec![(true, &got[..per_start])];
    for i in 0..steps {
        blocks.push((false, &got[per_start + i * per_step..][..per_step]));
    }
    for (startup, block) in blocks {
        let mut sorted = block.to_vec();
        sorted.sort();
        let all: Vec<usize> = (0..list.len()).filter(|n| list[*n].startup == startup).collect();
        r.check(sorted == all, || format!("{what}: {block:?} ran {}, not {all:?}", if startup { "at the start" } else { "in a step" }));
        r.check(block.windows(2).all(|w| list[w[0]].stage <= list[w[1]].stage), || format!("{what}: {block:?} is not in the order of the stages"));
        for m in [true, false] {
            let marked: Vec<usize> = block.iter().copied().filter(|n| list[*n].marker == Some(m)).collect();
            r.check(marked.windows(2).all(|w| w[0] < w[1]), || format!("{what}: {marked:?} are not in the order in which they were added"));
        }
    }
    let record = sim.unwrap_resource::<Performance>().as_output();
    for name in STARTUP.iter().chain(REGULAR.iter()) {
        let (n, m) = (num_calls(record.iter(), name), calls_of_stages(name, steps));
        r.check(n == m, || format!("{what}: the stages {name} ran {m} times, not {n}"));
    }
}

fn record(r: &mut Report, g: &mut Rng) {
    let mut p = Performance::default();
    let names = ["a", "b", "stage", "total", "x y", "zz"];
    // per name the calls and the limits of their sum
    let mut model: BTreeMap<&str, (usize, f64, f64)> = BTreeMap::new();
    let mut numbers: BTreeMap<String, i32> = BTreeMap::new();
    let mut running: BTreeMap<&str, (Instant, Instant)> = BTreeMap::new();
    r.case();
    let mut history = vec![];
    for _ in 0..g.range(1, 40) {
        let name = *g.pick(&names);
        match g.below(4) {
            0 => {
                let before = Instant::now();
                p.start(name);
                running.insert(name, (before, Instant::now()));
                history.push(format!("start {name}"));
            }
            1 => {
                let after = Instant::now();
                let known = running.remove(name);
                let outcome = guarded(|| p.stop(name));
                let end = Instant::now();
                history.push(format!("stop {name}"));
                r.check(outcome.is_ok() == known.is_some(), || format!("{history:?}: {outcome:?}"));
                if let Some((a, b)) = known {
                    let e = model.entry(name).or_insert((0, 0.0, 0.0));
                    e.0 += 1;
                    e.1 += after.duration_since(b).as_secs_f64();
                    e.2 += end.duration_since(a).as_secs_f64();
                }
            }
            2 => {
                let n = g.irange(0, 1_000_000) as i32;
                let name = format!("n{}", g.below(3));
                p.record_number(name.clone(), n);
                history.push(format!("{name} = {n}"));
                numbers.insert(name, n);
            }
            _ => {
                let mut sum = 0u64;
                for i in 0..g.below(20000) as u64 {
                    sum = std::hint::black_box(sum ^ i);
                }
            }
        }
    }
    r.nontrivial(&format!("{history:?}"));
    let before = Instant::now();
    let out = p.as_output();
    let after = Instant::now();
    // what still runs is not yet there, except for the whole run
    let running_total = running.get("total").copied();
    if let Some((a, b)) = running_total {
        model.insert("total", (1, before.duration_since(b).as_secs_f64(), after.duration_since(a).as_secs_f64()));
    }
    let mut expected_names: Vec<String> = model.keys().map(|s| s.to_string()).chain(numbers.keys().cloned()).collect();
    expected_names.sort();
    let mut got_names: Vec<String> = out.keys().cloned().collect();
    got_names.sort();
    r.check(got_names == expected_names, || format!("{history:?}: recorded {got_names:?}, not {expected_names:?}"));
    for (name, n) in &numbers {
        r.check(out.get(name).and_then(|v| v.as_i64()) == Some(*n as i64), || format!("{history:?}: {name} is {:?}", out.get(name)));
    }
    for (name, (calls, low, high)) in &model {
        let Some(v) = out.get(*name) else { continue };
        let value = |key: &str| v.get(key).and_then(|v| v.as_str().and_then(seconds).or_else(|| v.as_f64()));
        let n = v.get("num_calls").and_then(|v| v.as_u64()).unwrap_or(0) as usize;
        r.check(n == *calls, || format!("{history:?}: {name} has {n} calls"));
        let (Some(total), Some(average)) = (value("total"), value("average")) else {
            r.violation(format!("{history:?}: {name} is {v:?}"));
            continue;
        };
        // whole nanoseconds
        let tol = 1e-9 * (*calls as f64 + 1.0) + 1e-9 * high;
        r.check(total >= low - tol && total <= high + tol, || format!("{history:?}: {name} took {total:e} s, not {low:e} to {high:e} s"));
        r.check((average * n as f64 - total).abs() <= 1e-9 * total.max(1e-9), || format!("{history:?}: {name} took {total:e} s in {n} calls of {average:e} s"));
        if running_total.is_none() || *name != "total" {
            let t = p.total(*name).in_seconds();
            r.check((t - total).abs() <= 1e-9 * total.max(1e-9), || format!("{history:?}: the total of {name} is {t:e} s and {total:e} s"));
        }
        r.count("durations compared", 1);
    }
}

/// 12 s, or in another unit
fn seconds(s: &str) -> Option<f64> {
    let (n, unit) = s.trim().split_once(' ')?;
    let n: f64 = n.parse().ok()?;
    Some(n * match unit {
        "s" => 1.0,
        "yr" => 365.25 * 86400.0,
        "Myr" => 365.25e6 * 86400.0,
        "ns" => 1e-9,
        _ => return None,
    })
}

#[derive(Clone, Debug)]
struct Run {
    dt: Vec<f64>,
    last: Option<f64>,
    /// The step and the stage in which the end is asked for
    stop: Option<(usize, usize)>,
    outside: bool,
}

#[derive(Default, Clone, Debug)]
struct Steps {
    /// The time at the beginning of each
    times: Vec<f64>,
    ended: usize,
    decomposed: bool,
}

thread_local! {
    static RUN: RefCell<(Option<Run>, Steps)> = RefCell::new((None, Steps::default()));
}

const CUT: usize = 200;

fn begin_system(time: Res<SimulationTime>) {
    RUN.with(|x| x.borrow_mut().1.times.push((**time).in_seconds()));
}

fn advance_system(mut time: ResMut<SimulationTime>) {
    RUN.with(|x| {
        let x = x.borrow();
        let p = x.0.as_ref().unwrap();
        let n = x.1.times.len() - 1;
        time.0 = Time::seconds((**time).in_seconds() + p.dt[n % p.dt.len()]);
    })
}

fn end_system() {
    let n = RUN.with(|x| {
        x.borrow_mut().1.ended += 1;
        x.borrow().1.ended
    });
    assert!(n <= CUT, "the run goes on after its end");
}

fn running(r: &mut Report, g: &mut Rng, dir: &std::path::Path, log: bool) {
    let j = job();
    let steps = g.range(1, 12);
    let mut p = Run { dt: (0..g.range(1, 4)).map(|_| g.log_uniform(0.1, 10.0)).collect(), last: None, stop: None, outside: !log && g.chance(0.2) };
    if g.chance(0.4) {
        // the end is reached exactly
        p.dt = p.dt.iter().map(|x| x.ceil()).collect();
    }
    let mut times = vec![0.0];
    for i in 0..steps {
        times.push(times[i] + p.dt[i % p.dt.len()]);
    }
    let kind = g.below(3);
    if kind != 1 {
        let (a, b) = (times[steps - 1], times[steps]);
        p.last = Some(match g.below(3) {
            0 => b,
            1 => a,
            _ => g.uniform(a, b),
        });
    }
    if kind != 0 {
        p.stop = Some((g.range(1, steps), g.below(6)));
    }
    let what = format!("a run {p:?} on {} ranks", j.size);
    case(&what);
    r.case();
    r.nontrivial(&what);
    r.sample(|| what.clone());
    let file = dir.join("parameters.yml");
    if j.rank == 0 {
        std::fs::create_dir_all(dir).unwrap();
        let last = p.last.map(|t| format!("\n  final_time: {t:e} s")).unwrap_or_default();
        let simulation = if p.last.is_some() { format!("simulation:{last}\n") } else { "simulation: {}\n".to_string() };
        std::fs::write(&file, format!("{simulation}box_size: 10 m\noutput:\n  output_dir: {}\n", dir.join("output").display())).unwrap();
    }
    MPI_UNIVERSE.barrier();
    RUN.with(|x| *x.borrow_mut() = (Some(p.clone()), Steps::default()));
    let mut points: Vec<DVec3> = (0..g.range(3, 12) * j.size).map(|_| DVec3::new(g.f(), g.f(), g.f()) * 10.0).collect();
    // on the boundary is inside
    points[0] = DVec3::new(0.0, 10.0, g.f() * 10.0);
    let per_rank = points.len() / j.size;
    let mut mine: Vec<DVec3> = points[j.rank * per_rank..(j.rank + 1) * per_rank].to_vec();
    let (axis, distance, above) = (g.below(3), g.log_uniform(1e-6, 1e3), g.chance(0.5));
    if p.outside {
        // on every rank, so that none waits for another
        let n = g.below(mine.len());
        mine[n][axis] = if above { 10.0 + distance } else { -distance };
    }
    let started = Instant::now();
    let mut builder = SimulationBuilder::new();
    builder.parameter_file_path(&file).read_initial_conditions(false).write_output(false).log(log);
    let mut sim = builder.build();
    sim.add_startup_system(move |mut commands: Commands| {
        for x in &mine {
            commands.spawn((LocalParticle, Position(vec(*x))));
        }
    })
    .add_startup_system_to_stage(StartupStages::InsertDerivedComponents, || RUN.with(|x| x.borrow_mut().1.decomposed = true))
    .add_system_to_stage(Stages::Initial, begin_system)
    .add_system_to_stage(Stages::Sweep, advance_system)
    .add_system_to_stage(Stages::Final, end_system);
    if let Some((step, stage)) = p.stop {
        let send = move |mut stop: EventWriter<StopSimulationEvent>| {
            if RUN.with(|x| x.borrow().1.times.len()) == step {
                stop.send(StopSimulationEvent);
            }
        };
        // the stage before the one in which the number of the step is known is too early
        to_regular(&mut sim, stage.clamp(1, 4), None, send);
    }
    let outcome = guarded(|| watched(|| sim.run_without_finalize()));
    let took = started.elapsed().as_secs_f64();
    let seen = RUN.with(|x| x.borrow().1.clone());
    if p.outside {
        r.check(outcome.is_err() && !seen.decomposed, || format!("{what}: a particle {distance:e} m outside of the box was accepted"));
        r.count("refused particles", 1);
        MPI_UNIVERSE.barrier();
        return;
    }
    if let Err(e) = &outcome {
        panic!("{e}");
    }
    // It ends in the step that begins at or after the final time, or that is asked to be the last.
    let mut expect = vec![0.0];
    loop {
        let n = expect.len();
        let t = expect[n - 1];
        if p.last.map_or(false, |l| t >= l) || p.stop.map_or(false, |s| s.0 == n) {
            break;
        }
        expect.push(t + p.dt[(n - 1) % p.dt.len()]);
    }
    r.check(seen.times.len() == expect.len() && seen.ended == expect.len(), || format!("{what}: {} steps began and {} ended at {:?}, not {:?}", seen.times.len(), seen.ended, seen.times, expect));
    let all = gather(&seen.times);
    r.check(all.iter().all(|t| *t == all[0]), || format!("{what}: the ranks have different steps: {all:?}"));
    r.count("steps", seen.times.len() as u64);
    if j.rank == 0 {
        let text = std::fs::read_to_string(dir.join("output/performance.yml")).unwrap_or_default();
        let v: BTreeMap<String, serde_yaml::Value> = serde_yaml::from_str(&text).unwrap_or_default();
        let n = v.get("num_ranks").and_then(|v| v.as_u64());
        r.check(n == Some(j.size as u64), || format!("{what}: the record says {n:?} ranks: {text}"));
        let total = v.get("total").and_then(|v| v.get("total")).and_then(|v| v.as_str().and_then(seconds).or_else(|| v.as_f64()));
        r.check(total.map_or(false, |t| t > 0.0 && t <= took + 1e-6), || format!("{what}: the record says that the run took {total:?} s, but it took {took:e} s: {text}"));
        for name in ["Decomposition", "Exchange", "AssignParticleIds", "AfterSweep", "CreateOutputFiles"] {
            let (n, m) = (num_calls(v.iter(), name), calls_of_stages(name, seen.times.len()));
            r.check(n == m, || format!("{what}: the stages {name} ran {m} times, not {n}"));
        }
    }
    MPI_UNIVERSE.barrier();
    if log && j.rank == 0 {
        let logs: Vec<u64> = std::fs::read_dir(dir.join("output/logs")).map(|d| d.map(|e| e.unwrap().metadata().unwrap().len()).collect()).unwrap_or_default();
        r.check(logs.len() == j.size && logs.iter().all(|l| *l > 0), || format!("{what}: the logs of the ranks have {logs:?} bytes"));
    }
    MPI_UNIVERSE.barrier();
}

pub fn schedule(c: &Ctx) -> Report {
    let mut r = Report::new();
    for i in 0..c.n(250, 3000) {
        parts(&mut r, &mut Rng::new(c.seed, 81_000 + i as u64));
        order(&mut r, &mut Rng::new(c.seed, 82_000_000 + i as u64));
        record(&mut r, &mut Rng::new(c.seed, 83_000_000 + i as u64));
    }
    publish(c, &r);
    let base = PathBuf::from(format!("{}.files", c.out));
    let n = c.n(40, 400);
    for i in 0..n {
        // The logs of a process can be set up once.
        running(&mut r, &mut Rng::new(c.seed, 84_000_000 + i as u64), &base.join(i.to_string()), i + 1 == n);
        publish(c, &r);
    }
    r
}
