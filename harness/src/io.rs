//! Reading initial conditions and writing snapshots, on several ranks: what is in the files at the
//! end has to be what was in the files at the start, particle by particle, at the times asked for.
use crate::sim::*;
use crate::support::*;
use bevy_ecs::prelude::*;
use glam::DVec3;
use hdf5::File;
use mpi::traits::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use subsweep::communication::MPI_UNIVERSE;
use subsweep::components;
use subsweep::components::Position;
use subsweep::io::input::{get_file_or_all_hdf5_files_in_path_if_dir, DatasetInputPlugin, NumParticlesTotal, Reader};
use subsweep::io::time_series::TimeSeriesPlugin;
use subsweep::io::{DatasetDescriptor, DatasetShape, DefaultUnitReader, InputDatasetDescriptor};
use subsweep::parameters::OutputParameters;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::units::{Temperature, Time};

pub const NAMES: [&str; 4] = ["position", "density", "ionized_hydrogen_fraction", "temperature"];
const STATIC: [bool; 4] = [true, true, false, false];
/// length, time, mass, temperature
const DIMENSIONS: [[i32; 4]; 4] = [[1, 0, 0, 0], [-3, 0, 1, 0], [0, 0, 0, 0], [0, 0, 0, 1]];
const ATTRIBUTES: [&str; 4] = ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"];

pub fn barrier() {
    MPI_UNIVERSE.world().barrier();
}

fn scalar<T: hdf5::H5Type>(set: &hdf5::Dataset, name: &str, v: T) {
    set.new_attr::<T>().shape(()).create(name).unwrap().write_scalar(&v).unwrap();
}

fn write_set<T: hdf5::H5Type>(f: &File, name: &str, field: usize, shape: Vec<usize>, scale: f64, v: &[T]) {
    let set = match shape.len() {
        1 => f.new_dataset::<T>().shape(shape[0]).create(name).unwrap(),
        _ => f.new_dataset::<T>().shape((shape[0], shape[1])).create(name).unwrap(),
    };
    set.write_raw(v).unwrap();
    scalar(&set, "scale_factor_si", scale);
    for (n, d) in ATTRIBUTES.iter().zip(DIMENSIONS[field]) {
        scalar(&set, n, d);
    }
    scalar(&set, "scaling_h", 0i32);
    scalar(&set, "scaling_a", 0i32);
}

#[derive(Clone, Debug)]
struct Plan {
    dir: PathBuf,
    side: f64,
    positions: Vec<DVec3>,
    densities: Vec<f64>,
    sizes: Vec<usize>,
    vectors: bool,
    dts: Vec<f64>,
    final_time: f64,
    first: Option<f64>,
    between: f64,
    files: usize,
    padding: Option<usize>,
    fields: Option<Vec<usize>>,
    existing: usize,
    events: Vec<usize>,
}

fn id_of(x: f64) -> usize {
    (x - 1.0).round() as usize
}

fn temperature(id: usize, step: usize) -> f64 {
    100.0 + id as f64 + 0.001 * step as f64
}

fn plan(g: &mut Rng, j: Job, dir: &Path) -> Plan {
    let n = g.range(4 * j.size, 4 * j.size + 120);
    let scale = g.log_uniform(1e-2, 1e20);
    let num_files = g.range(1, 5);
    let mut cuts: Vec<usize> = (0..num_files - 1).map(|_| if g.chance(0.2) { 0 } else { g.range(0, n) }).collect();
    cuts.push(0);
    cuts.push(n);
    cuts.sort();
    let steps = g.range(1, 9);
    let dts: Vec<f64> = (0..steps + 3).map(|_| g.log_uniform(0.3, 3.0)).collect();
    let t_end: f64 = dts[..steps].iter().sum();
    let mut fields = None;
    if g.chance(0.6) {
        let v: Vec<usize> = (0..4).filter(|_| g.chance(0.6)).collect();
        fields = Some(v);
    }
    Plan {
        dir: dir.to_owned(),
        side: scale,
        positions: (0..n).map(|_| DVec3::new(g.f(), g.f(), g.f()) * scale).collect(),
        densities: (0..n).map(|_| g.log_uniform(1e-30, 1e-15)).collect(),
        sizes: cuts.windows(2).map(|w| w[1] - w[0]).collect(),
        vectors: g.chance(0.5),
        final_time: t_end * g.uniform(0.3, 1.0),
        first: if g.chance(0.4) { Some(g.uniform(0.0, 0.7 * t_end)) } else { None },
        between: if g.chance(0.3) { 0.0 } else { g.uniform(0.1, 1.2) * t_end / steps as f64 * g.range(1, 3) as f64 },
        files: *g.pick(&[1, 1, 2, 3, 4, 10, 12, 23]),
        padding: if g.chance(0.3) { Some(g.range(1, 5)) } else { None },
        fields,
        existing: g.below(4),
        events: (0..steps + 3).map(|_| if g.chance(0.4) { g.range(1, 3) } else { 0 }).collect(),
        dts,
    }
}

/// The files with the initial conditions. Every file has units of its own.
fn write_inputs(g: &mut Rng, p: &Plan) -> Vec<PathBuf> {
    let dir = p.dir.join("ics");
    std::fs::create_dir_all(&dir).unwrap();
    let mut start = 0;
    let mut paths = vec![];
    for (i, n) in p.sizes.iter().enumerate() {
        let path = dir.join(format!("part_{i}.hdf5"));
        let range = start..start + n;
        start += n;
        let f = File::create(&path).unwrap();
        paths.push(path);
        if *n == 0 && g.chance(0.5) {
            // a file without particles has no datasets
            continue;
        }
        let scales: Vec<f64> = (0..4).map(|k| if k == 2 || g.chance(0.3) { 1.0 } else { (2f64).powi(g.irange(-20, 20) as i32) }).collect();
        let pos: Vec<f64> = p.positions[range.clone()].iter().flat_map(|x| (*x / scales[0]).to_array()).collect();
        if p.vectors {
            write_set::<f64>(&f, "PartType0/Coordinates", 0, vec![*n, 3], scales[0], &pos);
        } else {
            let pos: Vec<[f64; 3]> = pos.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            write_set(&f, "position", 0, vec![*n], scales[0], &pos);
        }
        write_set(&f, "density", 1, vec![*n], scales[1], &p.densities[range.clone()].iter().map(|x| x / scales[1]).collect::<Vec<_>>());
        write_set(&f, "ionized_hydrogen_fraction", 2, vec![*n], 1.0, &range.clone().map(|i| (i + 1) as f64).collect::<Vec<_>>());
        write_set(&f, "temperature", 3, vec![*n], scales[3], &range.map(|i| temperature(i, 0) / scales[3]).collect::<Vec<_>>());
    }
    paths
}

fn parameters(p: &Plan, paths: &[PathBuf], g: &mut Rng) -> String {
    let mut s = String::from("input:\n  paths:\n");
    let whole = g.chance(0.3);
    if whole {
        std::fs::write(p.dir.join("ics/readme.txt"), "not a snapshot").unwrap();
        s += &format!("    - {}\n", p.dir.join("ics").display());
    } else {
        for x in paths {
            s += &format!("    - {}\n", x.display());
        }
    }
    s += &format!("output:\n  output_dir: {}\n", p.dir.join("output").display());
    s += &format!("  time_between_snapshots: {:e} s\n", p.between);
    if let Some(t) = p.first {
        s += &format!("  time_first_snapshot: {t:e} s\n");
    }
    s += &format!("  num_output_files: {}\n", p.files);
    if let Some(x) = p.padding {
        s += &format!("  snapshot_padding: {x}\n");
    }
    match &p.fields {
        Some(f) => s += &format!("  fields: [{}]\n", f.iter().map(|k| format!("\"{}\"", NAMES[*k])).collect::<Vec<_>>().join(", ")),
        None => {
            if g.chance(0.5) {
                s += "  fields: all\n"
            }
        }
    }
    match p.existing {
        2 => s += "  handle_existing_output: overwrite\n",
        3 => s += "  handle_existing_output: delete\n",
        _ => (),
    }
    s += &format!("simulation:\n  final_time: {:e} s\n", p.final_time);
    s += &format!("box_size: {:e} m\n", p.side);
    s
}

#[derive(Clone, serde::Serialize)]
pub struct Mark(pub f64);
impl Named for Mark {
    fn name() -> &'static str {
        "verif_mark"
    }
}

#[derive(Default, Clone)]
struct Seen {
    /// The number and the time of every step
    times: Vec<f64>,
    /// What this rank has after the initial conditions were read and distributed
    particles: Vec<(usize, DVec3, f64, f64)>,
    total: usize,
    marks: Vec<f64>,
}

thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
    static ORDER: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static PLAN: RefCell<Option<Plan>> = RefCell::new(None);
}

fn look_system(particles: Particles<(&components::IonizedHydrogenFraction, &Position, &components::Density, &components::Temperature)>, total: Res<NumParticlesTotal>) {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.particles = particles.iter().map(|(x, p, d, t)| (id_of(x.value_unchecked()), p.value_unchecked(), d.value_unchecked(), t.value_unchecked())).collect();
        s.total = total.0;
    })
}

fn step_system(mut particles: Particles<(&components::IonizedHydrogenFraction, &mut components::Temperature)>, mut time: ResMut<SimulationTime>, mut marks: EventWriter<Mark>) {
    let plan = PLAN.with(|p| p.borrow().clone().unwrap());
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.times.len();
        if k >= plan.dts.len() {
            panic!("the run goes on, although the time {} is beyond its end", time.value_unchecked());
        }
        time.0 = time.0 + Time::new_unchecked(plan.dts[k]);
        s.times.push(time.value_unchecked());
        for (x, mut t) in particles.iter_mut() {
            t.0 = Temperature::new_unchecked(temperature(id_of(x.value_unchecked()), k + 1));
        }
        for i in 0..plan.events[k] {
            let m = k as f64 + 0.125 * i as f64;
            marks.send(Mark(m + 1000.0 * job().rank as f64));
            s.marks.push(m);
        }
    })
}

fn vec_of(data: &[f64]) -> Position {
    Position(vec(DVec3::new(data[0], data[1], data[2])))
}

fn run_simulation(p: &Plan, file: &Path, vectors: bool) -> Seen {
    SEEN.with(|s| *s.borrow_mut() = Seen::default());
    PLAN.with(|x| *x.borrow_mut() = Some(p.clone()));
    let mut builder = SimulationBuilder::new();
    builder.parameter_file_path(file).read_initial_conditions(true).write_output(true).log(false);
    let mut sim = builder.build();
    if vectors {
        sim.add_plugin(DatasetInputPlugin::<Position>::from_descriptor(InputDatasetDescriptor::new(
            DatasetDescriptor { dataset_name: "PartType0/Coordinates".into(), unit_reader: Box::new(DefaultUnitReader) },
            DatasetShape::TwoDimensional(vec_of),
        )));
    }
    sim.add_required_component::<components::Density>()
        .add_required_component::<components::IonizedHydrogenFraction>()
        .add_required_component::<components::Temperature>()
        .add_plugin(TimeSeriesPlugin::<Mark>::default())
        .add_startup_system_to_stage(StartupStages::Final, look_system)
        .add_system_to_stage(Stages::Sweep, step_system);
    sim.run_without_finalize();
    SEEN.with(|s| s.borrow().clone())
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

/// What the ranks hold together is what is in the files.
fn check_read(r: &mut Report, p: &Plan, seen: &Seen, what: &str) {
    let n = p.positions.len();
    r.check(seen.total == n, || format!("{what}: {} particles are said to have been read", seen.total));
    for (id, pos, d, t) in seen.particles.iter() {
        if !r.check(*id < n, || format!("{what}: there is no particle {id}")) {
            continue;
        }
        let ok = (*pos - p.positions[*id]).length() <= 1e-12 * p.side && close(*d, p.densities[*id]) && close(*t, temperature(*id, 0));
        r.check(ok, || format!("{what}: particle {id} at {:?} with density {:e} was read as one at {pos:?} with density {d:e} and temperature {t}", p.positions[*id], p.densities[*id]));
    }
    let all = gather(&seen.particles.iter().map(|x| x.0 as f64).collect::<Vec<_>>());
    let mut count = vec![0; n];
    for id in all.iter().flatten() {
        if let Some(c) = count.get_mut(*id as usize) {
            *c += 1;
        }
    }
    r.check(count.iter().all(|c| *c == 1), || format!("{what}: {} particles were lost, {} exist more than once", count.iter().filter(|c| **c == 0).count(), count.iter().filter(|c| **c > 1).count()));
    r.count("particles read", seen.particles.len() as u64);
}

/// The numbers of the steps after which a snapshot is due.
fn schedule(p: &Plan, times: &[f64]) -> Vec<usize> {
    let mut due = vec![];
    let mut next = p.first.unwrap_or(0.0);
    for (k, t) in times.iter().enumerate() {
        if *t >= next || k + 1 == times.len() {
            due.push(k);
            next += p.between;
        }
    }
    due
}

fn check_files(r: &mut Report, p: &Plan, seen: &Seen, what: &str) {
    let n = p.positions.len();
    let times = &seen.times;
    // the run
    let end = times.iter().position(|t| *t >= p.final_time);
    let ok = matches!(end, Some(k) if times.len() <= k + 2);
    r.check(ok, || format!("{what}: the run ended after {} steps at {times:?}, its end is {}", times.len(), p.final_time));
    let out = p.dir.join("output");
    let due = schedule(p, times);
    ORDER.with(|o| o.borrow_mut().clear());
    let pad = p.padding.unwrap_or(3);
    let mut names: Vec<String> = std::fs::read_dir(out.join("snapshots")).map(|d| d.map(|e| e.unwrap().file_name().into_string().unwrap()).collect()).unwrap_or_default();
    names.sort();
    let mut want: Vec<String> = (0..due.len()).map(|k| format!("{k:0pad$}")).collect();
    want.sort();
    if !r.check(names == want, || format!("{what}: the snapshots are {names:?} instead of {want:?}, at {times:?}, first {:?}, between {}", p.first, p.between)) {
        return;
    }
    for (k, step) in due.iter().enumerate() {
        r.count("snapshots", 1);
        let dir = out.join("snapshots").join(format!("{k:0pad$}"));
        check_snapshot(r, p, &dir, k, *step, times[*step], n, &format!("{what}, snapshot {k} after step {step}"));
    }
    check_series(r, p, seen, &out, what);
}

fn check_snapshot(r: &mut Report, p: &Plan, dir: &Path, k: usize, step: usize, time: f64, n: usize, what: &str) {
    let width = p.files.to_string().len();
    let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    // with more files than particles, some are not needed
    let known = |x: &String| (0..p.files).any(|i| *x == format!("{i:0width$}.hdf5"));
    r.check(names.iter().all(known) && !names.is_empty() && (names.len() == p.files || n < p.files), || format!("{what}: the files are {names:?}, {} were asked for", p.files));
    let wanted: Vec<usize> = (0..4).filter(|f| p.fields.as_ref().map(|v| v.contains(f)).unwrap_or(true) && (k == 0 || !STATIC[*f])).collect();
    let mut rows: BTreeMap<usize, Vec<Vec<f64>>> = BTreeMap::new();
    for name in names.iter() {
        let f = match File::open(dir.join(name)) {
            Ok(f) => f,
            Err(e) => {
                r.violation(format!("{what}: {name} cannot be opened: {e}"));
                return;
            }
        };
        r.count("files", 1);
        let t: Option<f64> = f.attr("time").ok().and_then(|a| a.read_scalar::<f64>().ok());
        r.check(t == Some(time), || format!("{what}: the time in {name} is {t:?} instead of {time}"));
        let mut members = f.member_names().unwrap();
        members.sort();
        let mut want: Vec<String> = wanted.iter().map(|f| NAMES[*f].to_string()).collect();
        want.sort();
        if !r.check(members == want, || format!("{what}: {name} has {members:?} instead of {want:?}")) {
            return;
        }
        let mut size = vec![];
        for field in wanted.iter() {
            let set = f.dataset(NAMES[*field]).unwrap();
            let scale: f64 = set.attr("scale_factor_si").unwrap().read_scalar().unwrap();
            let dims: Vec<i32> = ATTRIBUTES.iter().map(|a| set.attr(a).unwrap().read_scalar().unwrap()).collect();
            r.check(dims == DIMENSIONS[*field], || format!("{what}: the dimension of {} is {dims:?}", NAMES[*field]));
            let values: Vec<Vec<f64>> = if *field == 0 {
                set.read_raw::<[f64; 3]>().unwrap().iter().map(|v| v.iter().map(|x| x * scale).collect()).collect()
            } else {
                set.read_raw::<f64>().unwrap().iter().map(|x| vec![x * scale]).collect()
            };
            size.push(values.len());
            rows.entry(*field).or_default().extend(values);
        }
        r.check(size.windows(2).all(|w| w[0] == w[1]), || format!("{what}: {name} has datasets of the lengths {size:?}"));
    }
    if wanted.is_empty() {
        return;
    }
    r.check(rows.values().all(|v| v.len() == n), || format!("{what}: there are {:?} entries of {n} particles", rows.values().map(|v| v.len()).collect::<Vec<_>>()));
    // whose is a row: any of the datasets says so
    let find = |row: usize| -> Option<usize> {
        for (f, v) in rows.iter() {
            let v = v.get(row)?;
            return match f {
                0 => p.positions.iter().position(|x| (*x - DVec3::new(v[0], v[1], v[2])).length() <= 1e-12 * p.side),
                1 => p.densities.iter().position(|x| close(*x, v[0])),
                2 => Some(id_of(v[0])),
                _ => (0..n).find(|id| (temperature(*id, step + 1) - v[0]).abs() < 1e-9),
            };
        }
        None
    };
    let mut count = vec![0; n];
    let mut order = vec![];
    for row in 0..n {
        let id = match find(row) {
            Some(id) if id < n => id,
            _ => {
                r.violation(format!("{what}: row {row} belongs to no particle: {:?}", rows.iter().map(|(f, v)| (NAMES[*f], v.get(row).cloned())).collect::<Vec<_>>()));
                return;
            }
        };
        count[id] += 1;
        order.push(id);
        for (f, v) in rows.iter() {
            let v = &v[row];
            let ok = match f {
                0 => (p.positions[id] - DVec3::new(v[0], v[1], v[2])).length() <= 1e-12 * p.side,
                1 => close(p.densities[id], v[0]),
                2 => id_of(v[0]) == id,
                _ => (temperature(id, step + 1) - v[0]).abs() < 1e-9,
            };
            r.check(ok, || format!("{what}: row {row} is that of particle {id}, but {} is {v:?}", NAMES[*f]));
        }
        r.count("rows", 1);
    }
    r.check(count.iter().all(|c| *c == 1), || format!("{what}: {} particles are missing, {} are there twice", count.iter().filter(|c| **c == 0).count(), count.iter().filter(|c| **c > 1).count()));
    // static fields are only in the first snapshot: they are those of the same rows of the others
    ORDER.with(|o| {
        let mut o = o.borrow_mut();
        if k > 0 && !o.is_empty() {
            r.check(*o == order, || format!("{what}: the rows are not those of the first snapshot"));
            r.count("snapshots in the order of the first", 1);
        } else {
            *o = order;
        }
    });
}

/// Directories with files of the same names correspond to each other, whichever file was there first.
fn check_order(r: &mut Report, g: &mut Rng, base: &Path) {
    let mut places = vec![base.to_owned()];
    if Path::new("/dev/shm").is_dir() {
        places.push(PathBuf::from(format!("/dev/shm/subsweep-verif-{}", std::process::id())));
    }
    for place in places {
        let n = g.range(2, 14);
        let names: Vec<String> = (0..n).map(|i| format!("{i:02}.hdf5")).collect();
        let mut lists = vec![];
        for d in 0..3 {
            let dir = place.join(format!("order_{d}"));
            std::fs::create_dir_all(&dir).unwrap();
            let mut v = names.clone();
            if d == 1 {
                v.reverse();
            } else if d == 2 {
                g.shuffle(&mut v);
            }
            for x in v {
                std::fs::write(dir.join(x), "").unwrap();
            }
            std::fs::write(dir.join("notes.txt"), "").unwrap();
            lists.push(get_file_or_all_hdf5_files_in_path_if_dir(&dir).iter().map(|x| x.file_name().unwrap().to_str().unwrap().to_string()).collect::<Vec<_>>());
        }
        let mut sorted = lists[0].clone();
        sorted.sort();
        r.check(sorted == names, || format!("the files {names:?} are listed as {:?}", lists[0]));
        r.check(lists.windows(2).all(|w| w[0] == w[1]), || format!("directories with the same files are not read in the same order: {lists:?}"));
        r.count("listed directories", 3);
        let _ = std::fs::remove_dir_all(&place);
    }
}

fn check_series(r: &mut Report, _p: &Plan, seen: &Seen, out: &Path, what: &str) {
    let text = match std::fs::read_to_string(out.join("time_series/verif_mark.yml")) {
        Ok(t) => t,
        Err(e) => {
            r.violation(format!("{what}: the time series cannot be read: {e}"));
            return;
        }
    };
    let mut want = vec![];
    for m in seen.marks.iter() {
        want.push((seen.times[*m as usize], *m));
    }
    let mut got = vec![];
    if !text.trim().is_empty() {
        let v: serde_yaml::Value = match serde_yaml::from_str(&text) {
            Ok(v) => v,
            Err(e) => {
                r.violation(format!("{what}: the time series is not YAML: {e}: {text}"));
                return;
            }
        };
        for e in v.as_sequence().cloned().unwrap_or_default() {
            let t: Result<Time, _> = serde_yaml::from_value(e["time"].clone());
            got.push((t.map(|t| t.value_unchecked()).unwrap_or(f64::NAN), e["val"].as_f64().unwrap_or(f64::NAN)));
        }
    }
    r.count("entries of time series", want.len() as u64);
    let same = got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| close(a.0, b.0) && a.1 == b.1);
    r.check(same, || format!("{what}: the time series has {got:?} instead of {want:?}"));
}

/// The parameters that were written are those of the run.
fn check_parameters(r: &mut Report, p: &Plan, what: &str) {
    let file = p.dir.join("output/parameters.yml");
    let text = match std::fs::read_to_string(&file) {
        Ok(t) => t,
        Err(e) => {
            r.violation(format!("{what}: the used parameters cannot be read: {e}"));
            return;
        }
    };
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(text.clone());
    let q = match guarded(|| sim.add_parameter_type_and_get_result::<OutputParameters>().clone()) {
        Ok(q) => q,
        Err(e) => {
            r.violation(format!("{what}: the used parameters cannot be parsed: {e}\n{text}"));
            return;
        }
    };
    let ok = close(q.time_between_snapshots.value_unchecked(), p.between)
        && q.time_first_snapshot.map(|x| x.value_unchecked()).unwrap_or(0.0) == p.first.unwrap_or(0.0)
        && q.num_output_files == p.files
        && q.snapshot_padding == p.padding.unwrap_or(3)
        && q.output_dir == p.dir.join("output");
    r.check(ok, || format!("{what}: the used parameters differ from those given: {text}"));
    match (&q.fields, &p.fields) {
        (subsweep::parameters::Fields::All, None) => (),
        (subsweep::parameters::Fields::Some(v), Some(f)) => {
            r.check(*v == f.iter().map(|k| NAMES[*k].to_string()).collect::<Vec<_>>(), || format!("{what}: the used fields are {v:?}"));
        }
        _ => r.violation(format!("{what}: the used fields are not those asked for: {text}")),
    }
    r.count("parameter files", 1);
}

/// A reader gives the same whether everything is read at once or piece by piece, by one rank or by all.
fn check_reader(r: &mut Report, g: &mut Rng, p: &Plan, paths: &[PathBuf], what: &str) {
    let descriptor = || InputDatasetDescriptor::<components::IonizedHydrogenFraction>::default();
    let n = p.positions.len();
    let full = Reader::full(paths.iter());
    let values = |it: &mut dyn Iterator<Item = components::IonizedHydrogenFraction>| it.map(|x| x.value_unchecked() as usize).collect::<Vec<_>>();
    let all = values(&mut full.read_dataset(descriptor()));
    let want: Vec<usize> = (1..=n).collect();
    r.check(all == want, || format!("{what}: all {n} entries were read as {all:?}"));
    r.check(full.get_num_entities("ionized_hydrogen_fraction") == n, || format!("{what}: the number of entities of {n} is {}", full.get_num_entities("ionized_hydrogen_fraction")));
    let split = Reader::split_between_ranks(paths.iter());
    let mine = values(&mut split.read_dataset(descriptor()));
    for _ in 0..3 {
        let chunk = g.range(1, n + 3);
        let a = values(&mut full.read_dataset_chunked(descriptor(), chunk));
        r.check(a == want, || format!("{what}: all {n} entries in pieces of {chunk} were read as {a:?}"));
        let b = values(&mut split.read_dataset_chunked(descriptor(), chunk));
        r.check(b == mine, || format!("{what}: the share {mine:?} of a rank was read as {b:?} in pieces of {chunk}"));
        r.count("chunked reads", 2);
    }
    r.check(split.get_num_entities("ionized_hydrogen_fraction") == mine.len(), || format!("{what}: a rank is to read {} entries and reads {}", split.get_num_entities("ionized_hydrogen_fraction"), mine.len()));
    let shares = gather(&mine.iter().map(|x| *x as f64).collect::<Vec<_>>());
    let mut union: Vec<usize> = shares.iter().flatten().map(|x| *x as usize).collect();
    union.sort();
    r.check(union == want, || format!("{what}: the ranks read {shares:?} of {n} entries"));
}

/// What is in the way of the output is treated as asked for.
fn existing(p: &Plan) {
    let out = p.dir.join("output");
    if p.existing >= 2 {
        std::fs::create_dir_all(out.join("snapshots")).unwrap();
        std::fs::write(out.join("old.txt"), "from an earlier run").unwrap();
        if p.existing == 3 {
            std::fs::create_dir_all(out.join("snapshots/017")).unwrap();
            std::fs::write(out.join("snapshots/017/0.hdf5"), "from an earlier run").unwrap();
        }
    }
}

pub fn io(c: &Ctx) -> Report {
    let j = job();
    let mut r = Report::new();
    let base = PathBuf::from(format!("{}.files", c.out));
    if j.rank == 0 {
        check_order(&mut r, &mut Rng::new(c.seed, 6900), &base.join("order"));
    }
    for case_number in 0..c.n(6, 40) {
        let mut g = Rng::new(c.seed, 7000 + case_number as u64);
        let dir = base.join(case_number.to_string());
        let mut p = plan(&mut g, j, &dir);
        let mut g = Rng::new(c.seed, 7500 + case_number as u64);
        let what = format!("case {case_number} on {} ranks", j.size);
        case(&what);
        let paths: Vec<PathBuf> = (0..p.sizes.len()).map(|i| dir.join(format!("ics/part_{i}.hdf5"))).collect();
        let file = dir.join("parameters.yml");
        if j.rank == 0 {
            std::fs::create_dir_all(&dir).unwrap();
            write_inputs(&mut g, &p);
            existing(&p);
            std::fs::write(&file, parameters(&p, &paths, &mut g)).unwrap();
        }
        barrier();
        let mut g = Rng::new(c.seed, 7600 + case_number as u64);
        check_reader(&mut r, &mut g, &p, &paths, &what);
        if j.rank == 0 {
            // refuses to touch the output of an earlier run unless told to
            let q = OutputParameters { handle_existing_output: subsweep::parameters::HandleExistingOutput::Panic, ..output_parameters(&p) };
            if p.existing >= 2 {
                let e = guarded(|| subsweep::io::output::make_output_dirs(&q));
                r.check(e.is_err() && dir.join("output/old.txt").exists(), || format!("{what}: the output of an earlier run was accepted without being asked to"));
                r.count("refused directories", 1);
            }
        }
        barrier();
        let seen = run_simulation(&p, &file, p.vectors);
        barrier();
        r.case();
        r.nontrivial(&format!("{p:?}"));
        r.sample(|| format!("{what}: {} particles in files of {:?}, {} steps, {} output files, fields {:?}", p.positions.len(), p.sizes, seen.times.len(), p.files, p.fields));
        check_read(&mut r, &p, &seen, &what);
        if j.rank == 0 {
            check_files(&mut r, &p, &seen, &what);
            check_parameters(&mut r, &p, &what);
            if p.existing == 2 {
                r.check(dir.join("output/old.txt").exists(), || format!("{what}: a file of an earlier run was removed"));
            }
            if p.existing == 3 {
                r.check(!dir.join("output/old.txt").exists(), || format!("{what}: a file of an earlier run was not removed"));
            }
        }
        publish(c, &r);
        barrier();
        // a snapshot with everything in it can be read again
        if p.fields.is_none() && gather(&[r.violations.len() as f64]).iter().all(|v| v[0] == 0.0) {
            case(&format!("{what}, reading its snapshot"));
            let due = schedule(&p, &seen.times);
            let first = dir.join("output/snapshots").join(format!("{:0w$}", 0, w = p.padding.unwrap_or(3)));
            let mut q = p.clone();
            q.dir = dir.join("again");
            q.existing = 0;
            q.vectors = false;
            let file = q.dir.join("parameters.yml");
            if j.rank == 0 {
                std::fs::create_dir_all(&q.dir).unwrap();
                let paths = get_file_or_all_hdf5_files_in_path_if_dir(&first);
                std::fs::write(&file, parameters(&q, &paths, &mut Rng::new(3, 2))).unwrap();
            }
            barrier();
            let again = run_simulation(&q, &file, false);
            let step = due[0] + 1;
            let mut seen = again.clone();
            for x in seen.particles.iter_mut() {
                // the temperature is that of the snapshot
                if close(x.3, temperature(x.0, step)) {
                    x.3 = temperature(x.0, 0);
                } else {
                    x.3 = f64::NAN;
                }
            }
            check_read(&mut r, &q, &seen, &format!("{what}, its first snapshot"));
            r.count("snapshots read again", 1);
            barrier();
        }
        if j.rank == 0 && r.violations.is_empty() {
            let _ = std::fs::remove_dir_all(&dir);
        }
        p.dir = PathBuf::new();
    }
    barrier();
    if j.rank == 0 {
        let _ = std::fs::remove_dir_all(&base);
    }
    r
}

fn output_parameters(p: &Plan) -> OutputParameters {
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(format!("output:\n  output_dir: {}\n", p.dir.join("output").display()));
    sim.add_parameter_type_and_get_result::<OutputParameters>().clone()
}
