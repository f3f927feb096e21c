//! The application itself: initial conditions in the form of the original simulation are written,
//! the program is run on one and on several ranks, and what it writes is compared with values
//! worked out here, with itself on another number of ranks, and with itself on a grid from a file.
use crate::chemistry::{State, SIGMA};
use crate::polyhedron::{area_vector, cell};
use crate::support::*;
use glam::DVec3;
use hdf5::{Dataset, File};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const KPC: f64 = 3.0857e19;
const PROTON: f64 = 1.67262192369e-27;
const BOLTZMANN: f64 = 1.380649e-23;
const SOLAR: f64 = 1.988477e30;
const YEAR: f64 = 3.15576e7;
const HUBBLE: f64 = 3.2407789e-18;
/// What is known to happen to a grid of some positions.
const KNOWN: [&str; 2] = ["Degenerate case", "point on line of triangle"];
/// With few particles on a rank, the program says that it cannot.
const REFUSED: &str = "Search radius large enough that two periodic images fall into it at the same time";

#[derive(Clone, Debug)]
struct Unit {
    cgs: f64,
    length: i32,
    mass: i32,
    velocity: i32,
    a: i32,
    h: i32,
}

#[derive(Clone, Debug)]
struct Star {
    raw: DVec3,
    metallicity: f64,
    formation: f64,
    mass: f64,
    on: Option<usize>,
}

#[derive(Clone, Debug)]
struct Plan {
    cosmology: Option<(f64, f64, f64)>,
    side: f64,
    raw: Vec<DVec3>,
    density: Vec<f64>,
    energy: Vec<f64>,
    electrons: Vec<f64>,
    ids: Vec<u64>,
    fraction: Option<f64>,
    escape: f64,
    stars: Vec<Star>,
    sizes: Vec<usize>,
    star_sizes: Vec<usize>,
    periodic: bool,
    directions: usize,
    explicit: Vec<DVec3>,
    levels: usize,
    steps: f64,
    /// The longest timestep, in s
    timestep: f64,
    /// A snapshot after every step
    every: bool,
    fields: Option<Vec<&'static str>>,
    prevent_cooling: bool,
    files: usize,
    units: [Unit; 6],
}

const COORDINATES: usize = 0;
const DENSITY: usize = 1;
const ENERGY: usize = 2;
const NONE: usize = 3;
const MASS: usize = 4;
const AREA: usize = 5;

impl Plan {
    /// What a number in a file stands for, in SI units
    fn scale(&self, u: usize) -> f64 {
        let u = &self.units[u];
        let (a, h) = self.cosmology.map(|c| (c.0, c.1)).unwrap_or((1.0, 1.0));
        let cgs = if u.cgs == 0.0 { 1.0 } else { u.cgs };
        // a length in cm, a velocity in cm/s, a mass in g
        cgs * 1e-2f64.powi(u.length + u.velocity) * 1e-3f64.powi(u.mass) * a.powi(u.a) * h.powi(u.h)
    }
    fn pos(&self, i: usize) -> DVec3 {
        self.raw[i] * self.scale(COORDINATES)
    }
    fn box_side(&self) -> f64 {
        self.side * self.scale(COORDINATES)
    }
    fn x(&self, i: usize) -> f64 {
        self.fraction.unwrap_or((0.76 * self.electrons[i]).clamp(1e-10, 1.0 - 1e-10))
    }
    fn temperature(&self, i: usize) -> f64 {
        let u = self.energy[i] * self.scale(ENERGY);
        u * (5.0 / 3.0 - 1.0) / (1.0 + self.x(i)) * PROTON / BOLTZMANN
    }
    fn nearest(&self, s: &Star) -> usize {
        let at = s.raw * self.scale(COORDINATES);
        let d = |k: usize| (self.pos(k) - at).length();
        s.on.unwrap_or((0..self.raw.len()).min_by(|a, b| d(*a).partial_cmp(&d(*b)).unwrap()).unwrap())
    }
    fn rho(&self, i: usize) -> f64 {
        self.density[i] * self.scale(DENSITY)
    }
}

fn pieces(g: &mut Rng, n: usize, files: usize) -> Vec<usize> {
    let mut cuts: Vec<usize> = (1..files).map(|_| g.range(0, n)).collect();
    cuts.extend([0, n]);
    cuts.sort();
    cuts.windows(2).map(|w| w[1] - w[0]).collect()
}

fn plan(g: &mut Rng) -> Plan {
    let n = g.range(40, 110);
    let cosmology = if g.chance(0.75) { Some((if g.chance(0.25) { 1.0 } else { g.uniform(0.05, 1.0) }, g.uniform(0.5, 0.9), g.uniform(0.2, 0.5))) } else { None };
    let c = cosmology.is_some() as i32;
    let power = |g: &mut Rng| 2f64.powi(g.irange(-6, 6) as i32);
    let length = KPC * 100.0 * power(g);
    let mass = 1e43 * power(g);
    let side = g.log_uniform(10.0, 1e4);
    let units = [
        Unit { cgs: length, length: 1, mass: 0, velocity: 0, a: c, h: -c },
        Unit { cgs: mass / length.powi(3), length: -3, mass: 1, velocity: 0, a: -3 * c, h: 2 * c },
        Unit { cgs: 1e10, length: 0, mass: 0, velocity: 2, a: 0, h: 0 },
        Unit { cgs: if g.chance(0.5) { 0.0 } else { 1.0 }, length: 0, mass: 0, velocity: 0, a: 0, h: 0 },
        Unit { cgs: mass, length: 0, mass: 1, velocity: 0, a: 0, h: -c },
        Unit { cgs: length * length, length: 2, mass: 0, velocity: 0, a: 2 * c, h: -2 * c },
    ];
    let raw: Vec<DVec3> = (0..n).map(|_| DVec3::new(g.f(), g.f(), g.f()) * side).collect();
    let mut p = Plan {
        cosmology,
        side,
        density: vec![],
        energy: (0..n).map(|_| g.log_uniform(10.0, 3e3)).collect(),
        electrons: (0..n).map(|_| if g.chance(0.1) { 0.0 } else { g.uniform(0.0, 1.6) }).collect(),
        ids: vec![],
        fraction: if g.chance(0.5) { Some(g.log_uniform(1e-9, 0.5)) } else { None },
        escape: g.uniform(0.01, 1.0),
        stars: vec![],
        sizes: vec![],
        star_sizes: vec![],
        periodic: g.chance(0.3),
        directions: *g.pick(&[1, 16, 21, 32]),
        explicit: if g.chance(0.7) { (0..g.range(1, 7)).map(|_| DVec3::new(g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0)).normalize()).collect() } else { vec![] },
        levels: if g.chance(0.5) { 1 } else { g.range(2, 4) },
        steps: g.range(1, 4) as f64,
        timestep: 1e4 * YEAR,
        every: false,
        fields: None,
        prevent_cooling: true,
        files: g.range(1, 4),
        units,
        raw,
    };
    // neither clear nor black
    let cell = p.box_side() / (n as f64).cbrt();
    let rho = p.scale(DENSITY);
    p.density = (0..n).map(|_| g.log_uniform(0.01, 5.0) * PROTON / 6.3e-22 / cell / rho).collect();
    let mut ids: Vec<u64> = (0..n as u64).map(|i| 1 + i * 7 + (1 << 33)).collect();
    g.shuffle(&mut ids);
    p.ids = ids;
    let m = g.range(1, 12);
    p.stars = (0..m)
        .map(|_| {
            let on = if g.chance(0.5) { Some(g.below(n)) } else { None };
            Star {
                raw: on.map(|i| p.raw[i]).unwrap_or(DVec3::new(g.f(), g.f(), g.f()) * side),
                metallicity: g.log_uniform(1e-6, 0.1),
                // wind has negative ones
                formation: if g.chance(0.2) { -g.f() } else { p.cosmology.map(|c| c.0).unwrap_or(1.0) * g.uniform(0.05, 1.0) },
                mass: g.log_uniform(1e-3, 1e3),
                on,
            }
        })
        .collect();
    let files = g.range(1, 4);
    p.sizes = pieces(g, n, files);
    p.star_sizes = pieces(g, m, files);
    p
}

// ------------------------------------------------------------------ expected sources

fn table() -> (Vec<f64>, Vec<f64>, Vec<Vec<f64>>) {
    let rows: Vec<Vec<f64>> = include_str!("bpass.txt").lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    (rows[0].clone(), rows[1].clone(), rows[2..].to_vec())
}

/// Photons per second of a star
fn luminosity(age: f64, z: f64, mass: f64) -> f64 {
    let (ages, zs, t) = table();
    let clamp = |v: &[f64], x: f64| x.clamp(v[0], v[v.len() - 1]);
    let (age, z) = (clamp(&ages, age / YEAR), clamp(&zs, z));
    let find = |v: &[f64], x: f64| (0..v.len() - 2).find(|i| x <= v[i + 1]).unwrap_or(v.len() - 2);
    let (i, k) = (find(&ages, age), find(&zs, z));
    let (u, w) = ((age - ages[i]) / (ages[i + 1] - ages[i]), (z - zs[k]) / (zs[k + 1] - zs[k]));
    let v = (1.0 - u) * ((1.0 - w) * t[i][k] + w * t[i][k + 1]) + u * ((1.0 - w) * t[i + 1][k] + w * t[i + 1][k + 1]);
    v * mass / SOLAR
}

/// Time from one scale factor to another in a flat universe, by integration
fn time_between(a0: f64, a1: f64, h: f64, matter: f64) -> f64 {
    // over ln a
    let f = |x: f64| 1.0 / ((HUBBLE * h) * (matter / x.exp().powi(3) + 1.0 - matter).sqrt());
    let n = 2000;
    let (x0, x1) = (a0.ln(), a1.ln());
    let d = (x1 - x0) / n as f64;
    let mut s = f(x0) + f(x1);
    for i in 1..n {
        s += f(x0 + d * i as f64) * if i % 2 == 1 { 4.0 } else { 2.0 };
    }
    s * d / 3.0
}

fn rate(p: &Plan, s: &Star) -> f64 {
    match p.cosmology {
        // given in the parameters
        None => 1e48 * s.mass,
        Some(_) if s.formation <= 0.0 => 0.0,
        Some((a, h, m)) => luminosity(time_between(s.formation, a, h, m), s.metallicity, s.mass * p.scale(MASS)) * p.escape,
    }
}

// ------------------------------------------------------------------ files

fn scalar<T: hdf5::H5Type>(set: &Dataset, name: &str, v: T) {
    set.new_attr::<T>().shape(()).create(name).unwrap().write_scalar(&v).unwrap();
}

fn write<T: hdf5::H5Type>(f: &File, name: &str, shape: &[usize], u: &Unit, v: &[T]) {
    let set = match shape.len() {
        1 => f.new_dataset::<T>().shape(shape[0]).create(name).unwrap(),
        _ => f.new_dataset::<T>().shape((shape[0], shape[1])).create(name).unwrap(),
    };
    set.write_raw(v).unwrap();
    scalar(&set, "to_cgs", u.cgs);
    for (n, v) in [("length_scaling", u.length), ("mass_scaling", u.mass), ("velocity_scaling", u.velocity), ("a_scaling", u.a), ("h_scaling", u.h)] {
        scalar(&set, n, v);
    }
}

fn flat(v: &[DVec3]) -> Vec<f64> {
    v.iter().flat_map(|x| x.to_array()).collect()
}

/// Initial conditions as Arepo leaves them
fn write_ics(p: &Plan, dir: &Path, cells: &[Cell]) {
    let (mut i, mut k) = (0, 0);
    for (q, (n, m)) in p.sizes.iter().zip(p.star_sizes.iter()).enumerate() {
        let f = File::create(dir.join(format!("snap_{q}.hdf5"))).unwrap();
        let (r, s) = (i..i + n, k..k + m);
        i += n;
        k += m;
        if !r.is_empty() {
            write(&f, "PartType0/Coordinates", &[*n, 3], &p.units[COORDINATES], &flat(&p.raw[r.clone()]));
            write(&f, "PartType0/Density", &[*n], &p.units[DENSITY], &p.density[r.clone()]);
            write(&f, "PartType0/InternalEnergy", &[*n], &p.units[ENERGY], &p.energy[r.clone()]);
            write(&f, "PartType0/ElectronAbundance", &[*n], &p.units[NONE], &p.electrons[r.clone()]);
            write(&f, "PartType0/ParticleIDs", &[*n], &p.units[NONE], &p.ids[r.clone()]);
            let mass: Vec<f64> = r.map(|i| p.rho(i) * cells[i].volume / p.scale(MASS)).collect();
            write(&f, "PartType0/Masses", &[*n], &p.units[MASS], &mass);
        }
        if !s.is_empty() && p.cosmology.is_some() {
            let st = &p.stars[s];
            write(&f, "PartType4/Coordinates", &[*m, 3], &p.units[COORDINATES], &flat(&st.iter().map(|s| s.raw).collect::<Vec<_>>()));
            write(&f, "PartType4/GFM_Metallicity", &[*m], &p.units[NONE], &st.iter().map(|s| s.metallicity).collect::<Vec<_>>());
            write(&f, "PartType4/GFM_StellarFormationTime", &[*m], &p.units[NONE], &st.iter().map(|s| s.formation).collect::<Vec<_>>());
            write(&f, "PartType4/Masses", &[*m], &p.units[MASS], &st.iter().map(|s| s.mass).collect::<Vec<_>>());
        }
    }
}

/// A grid as Arepo leaves it: every face once, with the ids of both sides
fn write_grid(g: &mut Rng, p: &Plan, path: &Path, cells: &[Cell]) {
    let mut faces = vec![];
    for (i, c) in cells.iter().enumerate() {
        for (k, a) in c.faces.iter() {
            let (area, n) = (a.length(), a.normalize());
            match k {
                // the normal points away from the second
                Some(k) if *k > i => {
                    if g.chance(0.5) {
                        faces.push((p.ids[i], p.ids[*k], 0, area, -n))
                    } else {
                        faces.push((p.ids[*k], p.ids[i], 0, area, n))
                    }
                }
                Some(_) => (),
                // a wall: the other side is an image of some cell
                None => {
                    let k = g.below(cells.len());
                    if g.chance(0.5) {
                        faces.push((p.ids[i], p.ids[k], 4, area, -n))
                    } else {
                        faces.push((p.ids[k], p.ids[i], 1, area, n))
                    }
                }
            }
        }
    }
    // what is to be ignored
    for t in [-1, 2, 8, 5] {
        faces.push((p.ids[g.below(cells.len())], p.ids[g.below(cells.len())], t, 1e40, DVec3::X));
    }
    g.shuffle(&mut faces);
    let f = File::create(path).unwrap();
    let m = faces.len();
    write(&f, "Id1", &[m], &p.units[NONE], &faces.iter().map(|x| x.0).collect::<Vec<_>>());
    write(&f, "Id2", &[m], &p.units[NONE], &faces.iter().map(|x| x.1).collect::<Vec<_>>());
    write(&f, "ConnectionType", &[m], &p.units[NONE], &faces.iter().map(|x| x.2 as i32).collect::<Vec<_>>());
    write(&f, "Area", &[m], &p.units[AREA], &faces.iter().map(|x| x.3 / p.scale(AREA)).collect::<Vec<_>>());
    write(&f, "Normal", &[m, 3], &p.units[NONE], &flat(&faces.iter().map(|x| x.4).collect::<Vec<_>>()));
}

/// An earlier run to take temperatures and ionized fractions from
struct Earlier {
    positions: Vec<DVec3>,
    temperature: Vec<f64>,
    fraction: Vec<f64>,
}

fn write_earlier(g: &mut Rng, p: &Plan, dir: &Path, sparse: bool) -> Earlier {
    let n = if sparse { g.range(1, 5) } else { g.range(20, 200) };
    let e = Earlier {
        positions: (0..n).map(|_| DVec3::new(g.f(), g.f(), g.f()) * p.box_side()).collect(),
        temperature: (0..n).map(|_| g.log_uniform(10.0, 1e6)).collect(),
        fraction: (0..n).map(|_| g.log_uniform(1e-9, 0.999)).collect(),
    };
    let (a, h, _) = p.cosmology.unwrap();
    // it ended at an earlier time, in a smaller universe
    let then = a * g.uniform(0.5, 1.0);
    let sizes = { let k = g.range(1, 4); pieces(g, n, k) };
    let first = g.range(0, 3);
    let last = first + g.range(1, 20);
    let width = g.range(1, 4);
    for number in [first, last - 1, last] {
        let d = dir.join(format!("{number:0width$}"));
        std::fs::create_dir_all(&d).unwrap();
        // files do not come into being in the order of their names
        let mut order: Vec<usize> = (0..sizes.len()).collect();
        g.shuffle(&mut order);
        for k in order {
            let start: usize = sizes[..k].iter().sum();
            let r = start..start + sizes[k];
            let f = File::create(d.join(format!("{k}.hdf5"))).unwrap();
            let attr = |name: &str, v: f64| f.new_attr::<f64>().shape(()).create(name).unwrap().write_scalar(&v).unwrap();
            attr("scale_factor", if number == first { then } else { then * 1.3 });
            attr("little_h", h);
            attr("redshift", 1.0 / then - 1.0);
            attr("time", number as f64);
            let own = |name: &str, dims: [i32; 4], v: &[f64]| {
                let set = f.new_dataset::<f64>().shape(v.len()).create(name).unwrap();
                set.write_raw(v).unwrap();
                own_units(&set, dims);
            };
            if number == first {
                let set = f.new_dataset::<[f64; 3]>().shape(r.len()).create("position").unwrap();
                set.write_raw(&e.positions[r.clone()].iter().map(|x| (*x * then / a).to_array()).collect::<Vec<_>>()).unwrap();
                own_units(&set, [1, 0, 0, 0]);
            }
            let off = if number == last { 1.0 } else { 0.1 };
            own("temperature", [0, 0, 0, 1], &e.temperature[r.clone()].iter().map(|x| x * off).collect::<Vec<_>>());
            own("ionized_hydrogen_fraction", [0, 0, 0, 0], &e.fraction[r].iter().map(|x| x * off).collect::<Vec<_>>());
        }
    }
    e
}

fn own_units(set: &Dataset, dims: [i32; 4]) {
    scalar(set, "scale_factor_si", 1.0f64);
    for (n, d) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dims) {
        scalar(set, n, d);
    }
    scalar(set, "scaling_h", 0i32);
    scalar(set, "scaling_a", 0i32);
}

// ------------------------------------------------------------------ cells

struct Cell {
    volume: f64,
    /// The other side, and the area along the normal
    faces: Vec<(Option<usize>, DVec3)>,
}

/// Label of a wall, or of a cell
fn cells(p: &Plan) -> Vec<Cell> {
    let l = p.box_side();
    let n = p.raw.len();
    (0..n)
        .map(|i| {
            let x = p.pos(i);
            let mut others: Vec<(DVec3, Option<usize>)> = vec![];
            for k in 0..n {
                let y = p.pos(k);
                for s in 0..27 {
                    let d = DVec3::new((s % 3) as f64 - 1.0, ((s / 3) % 3) as f64 - 1.0, (s / 9) as f64 - 1.0) * l;
                    if k != i || s != 13 {
                        // the shape of a cell is always that in a periodic box; without one, there are walls
                        others.push((y + d - x, if p.periodic || s == 13 { Some(k) } else { None }));
                    }
                }
            }
            let poly = cell(&mut others, 2.0 * l);
            let faces = poly
                .faces
                .iter()
                .filter(|f| f.label.is_some() && f.points.len() >= 3)
                .map(|f| {
                    let mut a = area_vector(&f.points);
                    if a.dot(f.points[0]) < 0.0 {
                        a = -a;
                    }
                    (f.label.unwrap(), a)
                })
                .filter(|f| f.1.length() > 1e-14 * l * l)
                .collect();
            Cell { volume: poly.volume(), faces }
        })
        .collect()
}

// ------------------------------------------------------------------ runs

struct Run {
    ranks: usize,
    delay: usize,
    sync: usize,
    grid: Option<PathBuf>,
    remap: Option<PathBuf>,
}

enum Outcome {
    Done,
    Known(String),
    Failed(String),
}

fn parameters(p: &Plan, g: &mut Rng, dir: &Path, run: &Run) -> String {
    let mut s = String::new();
    match p.cosmology {
        Some((a, h, m)) => {
            if g.chance(0.5) {
                // kpc there is 1000 * 3.0857e16 m
                s += &format!("box_size: {:e} ckpc/h\n", p.side * p.units[COORDINATES].cgs / 100.0 / KPC);
            } else {
                s += &format!("box_size: {:e} m\n", p.box_side());
            }
            s += &format!("cosmology:\n  a: {a:e}\n  h: {h:e}\n  params:\n    omega_0: {m:e}\n    omega_lambda: {:e}\n", 1.0 - m);
        }
        None => s += &format!("box_size: {:e} m\n", p.box_side()),
    }
    s += "postprocess:\n";
    if let Some(x) = p.fraction {
        s += &format!("  initial_fraction_ionized_hydrogen: {x:e}\n");
    }
    if p.cosmology.is_some() {
        s += &format!("  sources: !from_ics\n    escape_fraction: {:e}\n", p.escape);
    } else {
        s += "  sources: !explicit\n";
        for st in p.stars.iter() {
            let x = st.raw * p.scale(COORDINATES);
            s += &format!("    - pos: ({:e} {:e} {:e}) m\n      rate: {:e} s^-1\n", x.x, x.y, x.z, rate(p, st));
        }
    }
    match &run.grid {
        Some(path) => s += &format!("  grid: !read {}\n", path.display()),
        None => s += "  grid: !construct\n",
    }
    if let Some(path) = &run.remap {
        s += &format!("  remap_from: {}\n", path.display());
    }
    let directions = if p.explicit.is_empty() { p.directions.to_string() } else { p.explicit.iter().map(|d| format!("\n  - ({:e} {:e} {:e})", d.x, d.y, d.z)).collect::<String>() };
    s += &format!("sweep:\n  directions: {}\n  num_timestep_levels: {}\n  max_timestep: {:e} s\n  periodic: {}\n  prevent_cooling: {}\n", directions, p.levels, p.timestep, p.periodic, p.prevent_cooling);
    let between = if p.every { 0.0 } else { p.timestep };
    s += &format!("output:\n  output_dir: {}\n  time_between_snapshots: {between:e} s\n  num_output_files: {}\n", dir.join("output").display(), p.files);
    if let Some(f) = &p.fields {
        s += &format!("  fields: {f:?}\n");
    }
    s += "input:\n  paths:\n";
    let ics = dir.parent().unwrap().join("ics");
    for q in 0..p.sizes.len() {
        s += &format!("    - {}\n", ics.join(format!("snap_{q}.hdf5")).display());
    }
    s += &format!("simulation:\n  final_time: {:e} s\n", p.timestep * p.steps);
    s
}

fn execute(p: &Plan, g: &mut Rng, dir: &Path, run: &Run) -> Outcome {
    std::fs::create_dir_all(dir).unwrap();
    let file = dir.join("parameters.yml");
    std::fs::write(&file, parameters(p, g, dir, run)).unwrap();
    let binary = std::env::var("VERIF_APP").unwrap();
    let log = std::fs::File::create(dir.join("log")).unwrap();
    let mut c = Command::new("mpirun");
    c.args(["--oversubscribe", "--bind-to", "none", "-n", &run.ranks.to_string()]);
    if let Ok(lib) = std::env::var("VERIF_MPIMON") {
        for (k, v) in [("MPIMON_DIR", dir.display().to_string()), ("MPIMON_SEED", g.below(1000).to_string()), ("MPIMON_DELAY", run.delay.to_string()), ("MPIMON_SYNC", run.sync.to_string()), ("MPIMON_MAX_US", "200".into()), ("LD_PRELOAD", lib)] {
            c.args(["-x", &format!("{k}={v}")]);
        }
    }
    if g.chance(0.7) {
        // systems without a declared order run in one of the possible orders
        c.args(["-x", &format!("VERIF_ORDER={}", g.below(1000))]);
    }
    if g.chance(0.5) {
        // in small chunks, if in chunks
        c.args(["-x", &format!("VERIF_CHUNK={}", g.range(2, 60))]);
    }
    c.arg(&binary).arg(&file).current_dir(dir).stdin(Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
    let mut child = c.spawn().unwrap();
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > Duration::from_secs(150) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let text = String::from_utf8_lossy(&std::fs::read(dir.join("log")).unwrap()).to_string();
    match status {
        Some(s) if s.success() => Outcome::Done,
        _ => {
            if let Some(k) = KNOWN.iter().chain([&REFUSED]).find(|k| text.contains(**k)) {
                return Outcome::Known(k.to_string());
            }
            let lines: Vec<&str> = text.lines().collect();
            let at = lines.iter().position(|l| l.contains("panicked at")).unwrap_or(lines.len().saturating_sub(8));
            let end = lines.len().min(at + 5);
            Outcome::Failed(format!("{}: {}", status.map(|s| s.to_string()).unwrap_or("it does not end".into()), lines[at..end].join(" | ")))
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Snap {
    fields: BTreeMap<String, Vec<f64>>,
    positions: Vec<DVec3>,
    time: f64,
    scale_factor: Option<f64>,
}

fn read_snapshots(dir: &Path) -> Result<Vec<Snap>, String> {
    let sorted = |d: &Path| -> Result<Vec<PathBuf>, String> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(d).map_err(|e| format!("{}: {e}", d.display()))?.map(|e| e.unwrap().path()).collect();
        v.sort();
        Ok(v)
    };
    let mut out: Vec<Snap> = vec![];
    for s in sorted(&dir.join("output/snapshots"))? {
        let mut snap = Snap::default();
        for f in sorted(&s)? {
            let h = File::open(&f).map_err(|e| format!("{}: {e}", f.display()))?;
            snap.time = h.attr("time").and_then(|a| a.read_scalar::<f64>()).map_err(|e| format!("{e}"))?;
            snap.scale_factor = h.attr("scale_factor").and_then(|a| a.read_scalar::<f64>()).ok();
            for name in h.member_names().unwrap() {
                let set = h.dataset(&name).unwrap();
                let scale: f64 = set.attr("scale_factor_si").unwrap().read_scalar().unwrap();
                if name == "position" {
                    snap.positions.extend(set.read_raw::<[f64; 3]>().unwrap().iter().map(|x| DVec3::from_array(*x) * scale));
                } else {
                    snap.fields.entry(name).or_default().extend(set.read_raw::<f64>().unwrap().iter().map(|x| x * scale));
                }
            }
        }
        if snap.positions.is_empty() {
            snap.positions = out.first().map(|s| s.positions.clone()).unwrap_or_default();
        }
        out.push(snap);
    }
    Ok(out)
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs())
}

/// The row of every particle
fn rows(r: &mut Report, p: &Plan, s: &Snap, what: &str) -> Option<Vec<usize>> {
    let n = p.raw.len();
    if !r.check(s.positions.len() == n && s.fields.values().all(|v| v.len() == n), || format!("{what}: the snapshot has {} positions and {:?} entries of {n} particles", s.positions.len(), s.fields.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>())) {
        return None;
    }
    let l = p.box_side();
    let mut row = vec![usize::MAX; n];
    for i in 0..n {
        let x = p.pos(i);
        let found: Vec<usize> = (0..n).filter(|k| (s.positions[*k] - x).length() < 1e-9 * l).collect();
        if !r.check(found.len() == 1, || format!("{what}: particle {i} at {x:?} is {} times in the snapshot", found.len())) {
            return None;
        }
        row[i] = found[0];
    }
    Some(row)
}

/// Compares what was read with what is in the initial conditions.
fn check_first(r: &mut Report, p: &Plan, s: &Snap, cells: &[Cell], e: Option<&Earlier>, ranks: usize, what: &str) {
    let row = match rows(r, p, s, what) {
        Some(row) => row,
        None => return,
    };
    r.check(s.time == 0.0, || format!("{what}: the first snapshot is of the time {}", s.time));
    let n = p.raw.len();
    let get = |name: &str, i: usize| s.fields.get(name).map(|v| v[row[i]]).unwrap_or(f64::NAN);
    for i in 0..n {
        let (mut t, mut x) = (p.temperature(i), p.x(i));
        if let Some(e) = e {
            let at = p.pos(i);
            let d = |k: usize| (e.positions[k] - at).length();
            let near = (0..e.positions.len()).min_by(|a, b| d(*a).partial_cmp(&d(*b)).unwrap()).unwrap();
            t = t.max(e.temperature[near]);
            x = x.max(e.fraction[near]);
            r.count("particles remapped", 1);
        }
        r.check(close(get("density", i), p.rho(i), 1e-9), || format!("{what}: the density of particle {i} is {:e} instead of {:e}", get("density", i), p.rho(i)));
        r.check(close(get("temperature", i), t, 1e-9), || format!("{what}: the temperature of particle {i} is {:e} instead of {t:e}", get("temperature", i)));
        r.check(close(get("ionized_hydrogen_fraction", i), x, 1e-9), || format!("{what}: the ionized fraction of particle {i} is {:e} instead of {x:e}", get("ionized_hydrogen_fraction", i)));
        let m = p.rho(i) * cells[i].volume;
        r.check(close(get("mass", i), m, 1e-6), || format!("{what}: the mass of particle {i} is {:e} instead of {m:e}", get("mass", i)));
        r.count("particles", 1);
    }
    // sources
    let mut exact = vec![0.0; n];
    let mut total = 0.0;
    for st in p.stars.iter() {
        let near = p.nearest(st);
        total += rate(p, st);
        // on several ranks, the nearest may be on another rank than the source
        if st.on.is_some() || ranks == 1 {
            exact[near] += rate(p, st);
        }
        r.count("sources", 1);
    }
    let sum: f64 = (0..n).map(|i| get("source", i)).sum();
    r.check(close(sum, total, 1e-4), || format!("{what}: the sources of all particles are {sum:e}, those of the stars {total:e}"));
    for i in 0..n {
        let v = get("source", i);
        let ok = if ranks == 1 { close(v, exact[i], 1e-4) } else { v >= exact[i] * (1.0 - 1e-4) };
        r.check(ok, || format!("{what}: particle {i} has a source of {v:e} instead of {:e}", exact[i]));
    }
}

/// The rate into every cell in the first sweep, worked out cell by cell from upwind to downwind
fn rates(p: &Plan, cells: &[Cell], read: bool) -> Vec<f64> {
    let n = cells.len();
    let nd = p.explicit.len() as f64;
    let mut source = vec![0.0; n];
    for s in p.stars.iter() {
        source[p.nearest(s)] += rate(p, s);
    }
    let through: Vec<f64> = (0..n)
        .map(|i| {
            let v = cells[i].volume;
            let size = if read { v.cbrt() } else { (0.75 * v / std::f64::consts::PI).cbrt() };
            (-p.rho(i) / PROTON * (1.0 - p.x(i)) * SIGMA * size).exp()
        })
        .collect();
    let mut total = vec![0.0; n];
    for d in p.explicit.iter() {
        let mut missing: Vec<usize> = cells.iter().map(|c| c.faces.iter().filter(|(k, a)| k.is_some() && a.dot(*d) < 0.0).count()).collect();
        let mut into = vec![0.0; n];
        let mut ready: Vec<usize> = (0..n).filter(|i| missing[*i] == 0).collect();
        while let Some(i) = ready.pop() {
            total[i] += into[i];
            let out = (into[i] + source[i] / nd) * through[i];
            let down: f64 = cells[i].faces.iter().map(|(_, a)| a.dot(*d).max(0.0)).sum();
            for (k, a) in cells[i].faces.iter() {
                let a = a.dot(*d);
                if let (Some(k), true) = (k, a > 0.0) {
                    into[*k] += out * a / down;
                    missing[*k] -= 1;
                    if missing[*k] == 0 {
                        ready.push(*k);
                    }
                }
            }
        }
    }
    total
}

fn check_rates(r: &mut Report, p: &Plan, s: &Snap, cells: &[Cell], read: bool, what: &str) {
    let row = match rows(r, p, s, what) {
        Some(row) => row,
        None => return,
    };
    let want = rates(p, cells, read);
    let total: f64 = p.stars.iter().map(|s| rate(p, s)).sum();
    for i in 0..want.len() {
        let got = s.fields.get("photon_rate").map(|v| v[row[i]]).unwrap_or(f64::NAN);
        let dev = (got - want[i]).abs() / (want[i] + 1e-6 * total);
        r.maximum("deviation of a photon rate", dev);
        r.check(dev < 1e-4, || format!("{what}: after the first sweep, the rate into particle {i} is {got:e} instead of {:e}", want[i]));
        r.count("photon rates", 1);
    }
}

fn check_luminosity(r: &mut Report, p: &Plan, dir: &Path, what: &str) {
    let total: f64 = p.stars.iter().map(|s| rate(p, s)).sum();
    let text = std::fs::read_to_string(dir.join("output/time_series/total_luminosity.yml")).unwrap_or_default();
    let v: serde_yaml::Value = serde_yaml::from_str(&text).unwrap_or(serde_yaml::Value::Null);
    let found: Vec<f64> = v
        .as_sequence()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|e| {
            let t: Result<subsweep::units::SourceRate, _> = serde_yaml::from_value(e["val"].clone());
            t.map(|t| t.value_unchecked()).unwrap_or(f64::NAN)
        })
        .collect();
    r.check(found.len() == 1 && close(found[0], total, 1e-4), || format!("{what}: the total luminosity is {found:?} instead of {total:e}: {text}"));
}

/// Two runs of the same ended with the same.
fn check_same(r: &mut Report, p: &Plan, a: &[Snap], b: &[Snap], what: &str) {
    if !r.check(a.len() == b.len() && !a.is_empty(), || format!("{what}: there are {} snapshots, and {} of one rank", b.len(), a.len())) {
        return;
    }
    // What crosses a periodic boundary is added to the other side at once, and is used there in the same sweep
    // if that cell is still to be solved, else in the next one, so that the rates depend on the schedule then.
    let compared = if p.periodic { 1 } else { a.len() };
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        r.check(close(x.time, y.time, 1e-9), || format!("{what}: snapshot {k} is of the time {} instead of {}", y.time, x.time));
    }
    for (k, (x, y)) in a.iter().zip(b).enumerate().take(compared) {
        let (ra, rb) = match (rows(r, p, x, what), rows(r, p, y, what)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        for (name, v) in x.fields.iter() {
            let w = match y.fields.get(name) {
                Some(w) => w,
                None => {
                    r.violation(format!("{what}: snapshot {k} has no {name}"));
                    continue;
                }
            };
            let most = v.iter().fold(0f64, |m, x| m.max(x.abs()));
            for i in 0..p.raw.len() {
                let (u, w) = (v[ra[i]], w[rb[i]]);
                if u == w {
                    continue;
                }
                let d = (u - w).abs() / u.abs().max(w.abs()).max(1e-12 * most).max(f64::MIN_POSITIVE);
                r.maximum("largest relative difference of two runs", d);
                r.check(d <= 1e-5, || format!("{what}: in snapshot {k}, {name} of particle {i} is {w:e} instead of {u:e}"));
            }
        }
        r.count("snapshots compared", 1);
    }
}

pub fn app(c: &Ctx) -> Report {
    let mut r = Report::new();
    let base = PathBuf::from(format!("{}.files", c.out));
    let _ = std::fs::remove_dir_all(&base);
    let mut known = 0;
    for number in 0..c.n(12, 60) {
        let mut g = Rng::new(c.seed, 8000 + number as u64);
        let mut p = plan(&mut g);
        if number % 3 == 1 {
            // to be compared on several ranks: all sources are at particles
            for s in p.stars.iter_mut() {
                let i = s.on.unwrap_or(g.below(p.raw.len()));
                s.on = Some(i);
                s.raw = p.raw[i];
            }
        }
        let dir = base.join(number.to_string());
        std::fs::create_dir_all(dir.join("ics")).unwrap();
        let what = format!("case {number}: {} particles in {} files, {} stars, cosmology {:?}, periodic {}", p.raw.len(), p.sizes.len(), p.stars.len(), p.cosmology, p.periodic);
        r.sample(|| what.clone());
        let cs = cells(&p);
        write_ics(&p, &dir.join("ics"), &cs);
        let comparable = p.stars.iter().all(|s| s.on.is_some());
        let mut runs = vec![("alone", Run { ranks: 1, delay: 0, sync: 0, grid: None, remap: None })];
        runs.push(("several", Run { ranks: g.range(2, 6), delay: g.below(10), sync: g.below(60), grid: None, remap: None }));
        let mut read = None;
        if !p.periodic {
            let path = dir.join("grid.hdf5");
            read = Some(path.clone());
            write_grid(&mut g, &p, &path, &cs);
            runs.push(("grid", Run { ranks: 1, delay: 0, sync: 0, grid: Some(path.clone()), remap: None }));
            runs.push(("grid, several", Run { ranks: g.range(2, 5), delay: g.below(10), sync: g.below(60), grid: Some(path), remap: None }));
        }
        let mut earlier = None;
        if p.cosmology.is_some() {
            let path = dir.join("earlier");
            let sparse = g.chance(0.3);
            earlier = Some(write_earlier(&mut g, &p, &path, sparse));
            runs.push(("remap", Run { ranks: g.range(2, 5), delay: 0, sync: 0, grid: read.clone(), remap: Some(path.clone()) }));
            runs.push(("remap again", Run { ranks: g.range(1, 6), delay: g.below(10), sync: g.below(60), grid: read.clone().filter(|_| g.chance(0.7)), remap: Some(path) }));
        }
        let mut alone: Option<Vec<Snap>> = None;
        let mut alone_grid: Option<Vec<Snap>> = None;
        for (kind, run) in runs.iter() {
            let what = format!("{what}; {kind} on {} ranks", run.ranks);
            let d = dir.join(kind);
            match execute(&p, &mut g, &d, run) {
                Outcome::Done => (),
                Outcome::Known(k) => {
                    if k != REFUSED {
                        known += 1;
                    }
                    r.count(&format!("runs ended by: {k}"), 1);
                    continue;
                }
                Outcome::Failed(e) => {
                    r.violation(format!("{what}: the program failed: {e}"));
                    continue;
                }
            }
            r.case();
            r.nontrivial(&format!("{p:?} {kind}"));
            r.count(&format!("runs, {kind}"), 1);
            let snaps = match read_snapshots(&d) {
                Ok(s) if s.len() >= 2 => s,
                Ok(s) => {
                    r.violation(format!("{what}: {} snapshots were written", s.len()));
                    continue;
                }
                Err(e) => {
                    r.violation(format!("{what}: the output cannot be read: {e}"));
                    continue;
                }
            };
            if let Some((a, h, m)) = p.cosmology {
                for s in snaps.iter() {
                    // known to a hundred years
                    let ok = |x: f64| (time_between(a, x, h, m) - s.time).abs() <= 150.0 * YEAR + 1e-12 / HUBBLE;
                    r.check(s.scale_factor.map(ok) == Some(true), || format!("{what}: the scale factor in the snapshot of {} yr is {:?}", s.time / YEAR, s.scale_factor));
                }
            }
            let e = if run.remap.is_some() { earlier.as_ref() } else { None };
            check_first(&mut r, &p, &snaps[0], &cs, e, run.ranks, &what);
            check_luminosity(&mut r, &p, &d, &what);
            if p.levels == 1 && !p.periodic && !p.explicit.is_empty() && run.remap.is_none() && (comparable || run.ranks == 1) {
                check_rates(&mut r, &p, &snaps[1], &cs, run.grid.is_some(), &what);
            }
            match (*kind, &alone) {
                ("alone", _) => alone = Some(snaps),
                ("several", Some(a)) if comparable => check_same(&mut r, &p, a, &snaps, &what),
                ("grid", _) => alone_grid = Some(snaps),
                ("grid, several", _) if comparable && alone_grid.is_some() => check_same(&mut r, &p, alone_grid.as_ref().unwrap(), &snaps, &what),
                _ => (),
            }
            if r.violations.is_empty() {
                let _ = std::fs::remove_dir_all(&d);
            }
        }
        if r.violations.is_empty() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    if known > 0 {
        r.violation(format!("{known} runs of the program were ended by a panic: Degenerate case"));
    }
    if std::env::var("VERIF_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&base);
    }
    r
}

// ------------------------------------------------------------------ derived quantities

/// The entries of a time series: their times and values
fn read_series<T>(dir: &Path, name: &str, value: impl Fn(&serde_yaml::Value) -> Option<T>) -> Result<Vec<(f64, T)>, String> {
    let path = dir.join(format!("output/time_series/{name}.yml"));
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{name}: {e}"))?;
    let v: serde_yaml::Value = serde_yaml::from_str(&text).map_err(|e| format!("{name}: {e}"))?;
    let seconds = |v: &serde_yaml::Value| serde_yaml::from_value::<subsweep::units::Time>(v.clone()).ok().map(|t| t.value_unchecked());
    v.as_sequence()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|e| {
            let t = seconds(&e["time"]).or_else(|| seconds(&e["time"]["time_elapsed"]));
            match (t, value(&e["val"])) {
                (Some(t), Some(v)) => Ok((t, v)),
                _ => Err(format!("{name}: cannot read {e:?}")),
            }
        })
        .collect()
}

fn check_series(r: &mut Report, p: &Plan, dir: &Path, snaps: &[Snap], volumes: &[f64], what: &str) {
    let n = p.raw.len();
    let row = match rows(r, p, &snaps[0], what) {
        Some(row) => row,
        None => return,
    };
    let mass: Vec<f64> = (0..n).map(|i| p.rho(i) * volumes[i]).collect();
    let average = |s: &Snap, w: &[f64], f: &dyn Fn(usize) -> f64| {
        let _ = s;
        w.iter().enumerate().map(|(i, w)| w * f(i)).sum::<f64>() / w.iter().sum::<f64>()
    };
    let number = |v: &serde_yaml::Value| serde_yaml::from_value::<subsweep::units::Dimensionless>(v.clone()).ok().map(|x| x.value_unchecked());
    let kelvins = |v: &serde_yaml::Value| serde_yaml::from_value::<subsweep::units::Temperature>(v.clone()).ok().map(|x| x.value_unchecked());
    let rate = |v: &serde_yaml::Value| serde_yaml::from_value::<subsweep::units::PhotonRate>(v.clone()).ok().map(|x| x.value_unchecked());
    let value: [(&str, &dyn Fn(&serde_yaml::Value) -> Option<f64>, bool, &dyn Fn(&dyn Fn(&str) -> f64) -> f64); 6] = [
        ("hydrogen_ionization_mass_average", &number, true, &|get| get("ionized_hydrogen_fraction")),
        ("hydrogen_ionization_volume_average", &number, false, &|get| get("ionized_hydrogen_fraction")),
        ("temperature_mass_average", &kelvins, true, &|get| get("temperature")),
        ("temperature_volume_average", &kelvins, false, &|get| get("temperature")),
        ("photoionization_rate_volume_average", &rate, false, &|get| get("photoionization_rate")),
        ("weighted_photoionization_rate_volume_average", &rate, false, &|get| get("photoionization_rate") * get("ionized_hydrogen_fraction")),
    ];
    for (name, parse, by_mass, f) in value {
        let found = match read_series(dir, name, parse) {
            Ok(f) => f,
            Err(e) => {
                r.violation(format!("{what}: {e}"));
                continue;
            }
        };
        if !r.check(found.len() == snaps.len(), || format!("{what}: {name} has {} entries of {} steps", found.len(), snaps.len())) {
            continue;
        }
        for (k, (s, (t, v))) in snaps.iter().zip(found).enumerate() {
            let weights = if by_mass { &mass[..] } else { volumes };
            let want = average(s, weights, &|i| f(&|field: &str| s.fields.get(field).map(|v| v[row[i]]).unwrap_or(f64::NAN)));
            r.check(close(t, s.time, 1e-6), || format!("{what}: entry {k} of {name} is of the time {t:e} instead of {:e}", s.time));
            let dev = (v - want).abs() / want.abs().max(f64::MIN_POSITIVE);
            r.maximum("deviation of an average", if want == 0.0 && v == 0.0 { 0.0 } else { dev });
            // cells that are built and cells that are cut out differ a little
            r.check(v == want || dev < 1e-6, || format!("{what}: entry {k} of {name} is {v:e}, that of the particles is {want:e}"));
            r.count("averages", 1);
        }
    }
    // particles per level
    let levels = read_series(dir, "num_particles_at_timestep_levels", |v| {
        v.as_sequence()?.iter().map(|e| Some((e["level"].as_u64()?, e["num"].as_u64()?, serde_yaml::from_value::<subsweep::units::Time>(e["timestep"].clone()).ok()?.value_unchecked()))).collect::<Option<Vec<_>>>()
    });
    match levels {
        Ok(l) => {
            r.check(l.len() == snaps.len(), || format!("{what}: {} entries of the levels of {} steps", l.len(), snaps.len()));
            for (k, (_, v)) in l.iter().enumerate() {
                let ok = v.len() == p.levels
                    && v.iter().enumerate().all(|(i, x)| x.0 == i as u64 && close(x.2, p.timestep * 0.5f64.powi(i as i32), 1e-6))
                    && v.windows(2).all(|w| w[0].1 >= w[1].1)
                    && v.first().map(|x| x.1) == Some(n as u64);
                r.check(ok, || format!("{what}: entry {k} of the levels of {n} particles is {v:?}"));
                // nobody has a longer timestep than the next step
                if let Some(w) = snaps.get(k + 1) {
                    let step = w.time - snaps[k].time;
                    r.check(v.iter().filter(|x| x.2 > step * (1.0 - 1e-6)).all(|x| x.1 == n as u64), || format!("{what}: entry {k} of the levels of {n} particles is {v:?}, and the next step is {step:e}"));
                }
            }
        }
        Err(e) => r.violation(format!("{what}: {e}")),
    }
}

fn check_derived(r: &mut Report, p: &Plan, snaps: &[Snap], volumes: &[f64], read: bool, what: &str) {
    let n = p.raw.len();
    let row = match rows(r, p, &snaps[0], what) {
        Some(row) => row,
        None => return,
    };
    let a = p.cosmology.map(|c| c.0).unwrap_or(1.0);
    let mut since = vec![f64::INFINITY; n];
    for (k, s) in snaps.iter().enumerate() {
        for i in 0..n {
            let get = |name: &str| s.fields.get(name).map(|v| v[row[i]]);
            let (x, t) = match (get("ionized_hydrogen_fraction"), get("temperature")) {
                (Some(x), Some(t)) => (x, t),
                _ => {
                    r.violation(format!("{what}: snapshot {k} has no state"));
                    return;
                }
            };
            let v = volumes[i];
            let rate = get("photon_rate").unwrap_or(f64::NAN) + snaps[0].fields.get("source").map(|v| v[row[i]]).unwrap_or(f64::NAN);
            let state = State { x, t, density: p.rho(i), volume: v, length: if read { v.cbrt() } else { (0.75 * v / std::f64::consts::PI).cbrt() }, rate, a };
            let [gamma, heating, alpha, beta, cooling] = state.rates();
            let ne = state.nh() * x;
            // what is absorbed is a difference of numbers close to one, if little is
            let tau = state.nh() * (1.0 - x) * SIGMA * state.length;
            let roundoff = 1.0 + 1e-10 / tau;
            let mut compare = |name: &str, want: f64, scale: f64| {
                if let Some(got) = get(name) {
                    let dev = (got - want).abs() / scale.max(f64::MIN_POSITIVE);
                    r.maximum(&format!("deviation of {name}"), if got == want { 0.0 } else { dev });
                    r.check(got == want || dev < 1e-5, || format!("{what}: in snapshot {k}, {name} of particle {i} is {got:e}, and {want:e} follows from its state {state:?}"));
                    r.count(name, 1);
                }
            };
            compare("photoionization_rate", gamma, gamma.abs() * roundoff);
            compare("heating_rate", heating - cooling, heating.abs() * roundoff + cooling.abs());
            compare("recombination_rate", alpha * ne * x, alpha * ne * x);
            compare("collisional_ionization_rate", beta * ne * (1.0 - x), beta * ne * (1.0 - x));
            if k > 0 && x > 0.5 && since[i].is_infinite() {
                since[i] = s.time;
            }
            if let Some(got) = get("ionization_time") {
                r.check(got == since[i] || close(got, since[i], 1e-9), || format!("{what}: in snapshot {k} of the time {:e}, particle {i} was ionized at {got:e} instead of {:e}", s.time, since[i]));
                r.count(if got.is_finite() { "ionized" } else { "not ionized" }, 1);
            }
            if p.prevent_cooling && k > 0 {
                let before = |name: &str| snaps[k - 1].fields[name][row[i]];
                r.check(t >= before("temperature") * (1.0 - 1e-9) && x >= before("ionized_hydrogen_fraction") * (1.0 - 1e-9), || format!("{what}: particle {i} cools in snapshot {k}"));
            }
        }
    }
}

const DERIVED: [&str; 6] = ["photoionization_rate", "heating_rate", "recombination_rate", "collisional_ionization_rate", "ionization_time", "timestep"];

/// A snapshot after every step: what else is written follows from the particles in it.
pub fn series(c: &Ctx) -> Report {
    let mut r = Report::new();
    let base = PathBuf::from(format!("{}.files", c.out));
    let _ = std::fs::remove_dir_all(&base);
    for number in 0..c.n(40, 150) {
        let mut g = Rng::new(c.seed, 9000 + number as u64);
        let mut p = plan(&mut g);
        p.periodic = false;
        p.every = true;
        p.levels = *g.pick(&[1, 1, 2, 3, 4]);
        p.steps = g.range(2, 6) as f64;
        p.prevent_cooling = g.chance(0.5);
        let cs = cells(&p);
        // a typical cell is ionized in a few steps, in which it does not recombine too often
        let n = p.raw.len();
        let volumes: Vec<f64> = cs.iter().map(|c| c.volume).collect();
        let atoms: f64 = (0..n).map(|i| p.rho(i) / PROTON * volumes[i]).sum();
        let photons: f64 = p.stars.iter().map(|s| rate(&p, s)).sum::<f64>().max(1e-30);
        let densest = (0..n).map(|i| p.rho(i) / PROTON).fold(0.0, f64::max);
        p.timestep = (atoms / photons * g.log_uniform(0.01, 0.5)).min(3e12 / densest);
        let all = g.chance(0.6);
        if !all {
            let mut f = vec!["position", "density", "mass", "source", "ionized_hydrogen_fraction", "temperature", "photon_rate", "photoionization_rate"];
            f.extend(DERIVED[1..].iter().filter(|_| g.chance(0.5)));
            p.fields = Some(f);
        }
        let dir = base.join(number.to_string());
        std::fs::create_dir_all(dir.join("ics")).unwrap();
        write_ics(&p, &dir.join("ics"), &cs);
        let grid = dir.join("grid.hdf5");
        write_grid(&mut g, &p, &grid, &cs);
        let run = Run { ranks: [1, 2, 3, 5, 2, 4][number % 6], delay: g.below(8), sync: g.below(60), grid: Some(grid).filter(|_| g.chance(0.85)), remap: None };
        let what = format!("case {number} on {} ranks: {n} particles, {} stars, cosmology {:?}, {} levels, steps of {:e} s, cooling {}", run.ranks, p.stars.len(), p.cosmology, p.levels, p.timestep, if p.prevent_cooling { "prevented" } else { "allowed" });
        r.sample(|| what.clone());
        let d = dir.join("run");
        match execute(&p, &mut g, &d, &run) {
            Outcome::Done => (),
            Outcome::Known(k) => {
                r.count(&format!("runs ended by: {k}"), 1);
                let _ = std::fs::remove_dir_all(&dir);
                continue;
            }
            Outcome::Failed(e) => {
                r.violation(format!("{what}: the program failed: {e}"));
                continue;
            }
        }
        r.case();
        r.nontrivial(&format!("{p:?}"));
        let snaps = match read_snapshots(&d) {
            Ok(s) if s.len() >= 2 => s,
            Ok(s) => {
                r.violation(format!("{what}: {} snapshots were written", s.len()));
                continue;
            }
            Err(e) => {
                r.violation(format!("{what}: the output cannot be read: {e}"));
                continue;
            }
        };
        r.count("snapshots", snaps.len() as u64);
        let wanted = p.fields.clone().unwrap_or(DERIVED.to_vec());
        for (k, s) in snaps.iter().enumerate() {
            for f in DERIVED {
                r.check(s.fields.contains_key(f) == wanted.contains(&f), || format!("{what}: snapshot {k} has the fields {:?}, {wanted:?} were asked for", s.fields.keys()));
            }
        }
        check_derived(&mut r, &p, &snaps, &volumes, run.grid.is_some(), &what);
        check_series(&mut r, &p, &d, &snaps, &volumes, &what);
        if r.violations.is_empty() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    if std::env::var("VERIF_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&base);
    }
    r
}
