//! Parameters: what is in the file, what is given on the command line, and what the program runs with.
use crate::support::*;
use subsweep::prelude::*;
use subsweep::verif_full::{CommandLineOptions, ParameterFileContents, Performance};
use std::collections::{BTreeMap, BTreeSet};

#[subsweep_parameters("alpha")]
#[derive(Debug, PartialEq)]
struct Alpha {
    n: u64,
    #[serde(default = "seven")]
    k: i64,
    #[serde(default)]
    on: bool,
    x: f64,
    #[serde(default)]
    name: Option<String>,
    #[serde(default)]
    list: Vec<i64>,
    #[serde(default)]
    inner: Inner,
}
fn seven() -> i64 {
    7
}
#[subsweep_parameters]
#[derive(Debug, PartialEq, Default)]
struct Inner {
    #[serde(default)]
    p: i64,
    #[serde(default = "half")]
    q: f64,
    #[serde(default)]
    deep: Deep,
}
fn half() -> f64 {
    0.5
}
#[subsweep_parameters]
#[derive(Debug, PartialEq, Default)]
struct Deep {
    #[serde(default)]
    a: i64,
    #[serde(default)]
    b: String,
}
#[subsweep_parameters("beta")]
#[derive(Debug, PartialEq)]
struct Beta(i64);
/// May be left out
#[subsweep_parameters("gamma")]
#[derive(Debug, PartialEq)]
struct Gamma {
    #[serde(default = "seven")]
    first: i64,
    #[serde(default)]
    second: Option<i64>,
    #[serde(default)]
    inner: Inner,
}
/// May be left out, which means something else than any of its contents
#[subsweep_parameters("delta")]
#[derive(Debug, PartialEq)]
#[serde(untagged)]
enum Delta {
    Something { a: f64, h: f64 },
    Nothing,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Natural,
    Float,
    Bool,
    Text,
    Ints,
}

const FIELDS: &[(&str, Kind)] = &[
    ("alpha/n", Kind::Natural),
    ("alpha/k", Kind::Int),
    ("alpha/on", Kind::Bool),
    ("alpha/x", Kind::Float),
    ("alpha/name", Kind::Text),
    ("alpha/list", Kind::Ints),
    ("alpha/inner/p", Kind::Int),
    ("alpha/inner/q", Kind::Float),
    ("alpha/inner/deep/a", Kind::Int),
    ("alpha/inner/deep/b", Kind::Text),
    ("beta", Kind::Int),
    ("gamma/first", Kind::Int),
    ("gamma/second", Kind::Int),
    ("gamma/inner/p", Kind::Int),
    ("gamma/inner/q", Kind::Float),
    ("gamma/inner/deep/a", Kind::Int),
    ("gamma/inner/deep/b", Kind::Text),
    ("delta/a", Kind::Float),
    ("delta/h", Kind::Float),
];

fn literal(g: &mut Rng, k: Kind) -> String {
    match k {
        Kind::Int => g.irange(-1000, 1000).to_string(),
        Kind::Natural => g.below(1 << 40).to_string(),
        Kind::Float => match g.below(3) {
            0 => format!("{:.3}", g.uniform(-9.0, 9.0)),
            1 => format!("{:e}", g.log_uniform(1e-30, 1e30)),
            _ => format!("{:?}", g.uniform(-1.0, 1.0)),
        },
        Kind::Bool => g.chance(0.5).to_string(),
        Kind::Text => g.pick(&["abc", "output/dir", "some_thing", "x-1", "a b c", "'12'", "\"true\""]).to_string(),
        Kind::Ints => {
            let n = g.below(4);
            format!("[{}]", (0..n).map(|_| g.irange(-9, 9).to_string()).collect::<Vec<_>>().join(", "))
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tree {
    Leaf(String),
    Map(BTreeMap<String, Tree>),
}

fn put(t: &mut BTreeMap<String, Tree>, path: &[&str], v: &str) {
    if path.len() == 1 {
        t.insert(path[0].into(), Tree::Leaf(v.into()));
    } else if let Tree::Map(m) = t.entry(path[0].into()).or_insert_with(|| Tree::Map(BTreeMap::new())) {
        put(m, &path[1..], v);
    }
}

fn yaml(t: &BTreeMap<String, Tree>, depth: usize, g: &mut Rng) -> String {
    let mut keys: Vec<&String> = t.keys().collect();
    g.shuffle(&mut keys);
    let mut s = String::new();
    for k in keys {
        let pad = "  ".repeat(depth);
        match &t[k] {
            Tree::Leaf(v) => s += &format!("{pad}{k}: {v}\n"),
            Tree::Map(m) if m.is_empty() => s += &format!("{pad}{k}: {{}}\n"),
            Tree::Map(m) => s += &format!("{pad}{k}:\n{}", yaml(m, depth + 1, g)),
        }
        if g.chance(0.1) {
            s += &format!("{pad}# a remark\n");
        }
    }
    s
}

fn int(v: &BTreeMap<&str, String>, k: &str, default: i64) -> i64 {
    v.get(k).map(|x| x.parse().unwrap()).unwrap_or(default)
}
fn text(v: &BTreeMap<&str, String>, k: &str) -> Option<String> {
    v.get(k).map(|x| x.trim_matches(|c| c == '\'' || c == '"').to_string())
}
fn float(v: &BTreeMap<&str, String>, k: &str, default: f64) -> f64 {
    v.get(k).map(|x| x.parse().unwrap()).unwrap_or(default)
}
fn inner(v: &BTreeMap<&str, String>, s: &str) -> Inner {
    Inner {
        p: int(v, &format!("{s}/inner/p"), 0),
        // what is left out as a whole is the default of the type
        q: if v.keys().any(|k| k.starts_with(&format!("{s}/inner/"))) { float(v, &format!("{s}/inner/q"), 0.5) } else { 0.0 },
        deep: Deep { a: int(v, &format!("{s}/inner/deep/a"), 0), b: text(v, &format!("{s}/inner/deep/b")).unwrap_or_default() },
    }
}

type All = (Option<Alpha>, Option<Beta>, Option<Gamma>, Option<Delta>);

/// What the values stand for. None: something is missing.
fn expected(v: &BTreeMap<&str, String>) -> All {
    let alpha = (v.contains_key("alpha/n") && v.contains_key("alpha/x")).then(|| Alpha {
        n: v["alpha/n"].parse().unwrap(),
        k: int(v, "alpha/k", 7),
        on: v.get("alpha/on").map(|x| x == "true").unwrap_or(false),
        x: float(v, "alpha/x", 0.0),
        name: text(v, "alpha/name"),
        list: v.get("alpha/list").map(|x| x.trim_matches(|c| c == '[' || c == ']').split(", ").filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default(),
        inner: inner(v, "alpha"),
    });
    let beta = v.get("beta").map(|x| Beta(x.parse().unwrap()));
    let gamma = Some(Gamma { first: int(v, "gamma/first", 7), second: v.get("gamma/second").map(|x| x.parse().unwrap()), inner: inner(v, "gamma") });
    let delta = match (v.get("delta/a"), v.get("delta/h")) {
        (None, None) => Some(Delta::Nothing),
        (Some(_), Some(_)) => Some(Delta::Something { a: float(v, "delta/a", 0.0), h: float(v, "delta/h", 0.0) }),
        _ => None,
    };
    (alpha, beta, gamma, delta)
}

fn get<T: derive_traits::SubsweepParameters>(sim: &mut Simulation) -> Result<T, String> {
    guarded(|| sim.add_parameter_type_and_get_result::<T>().clone_it())
}

trait CloneIt {
    fn clone_it(&self) -> Self;
}
impl<T: derive_traits::SubsweepParameters> CloneIt for T {
    fn clone_it(&self) -> Self {
        serde_yaml::from_str(&serde_yaml::to_string(self).unwrap()).unwrap()
    }
}

/// All sections, taken in a random order.
fn take(sim: &mut Simulation, g: &mut Rng) -> (All, Vec<String>) {
    let mut order = [0, 1, 2, 3];
    g.shuffle(&mut order);
    let mut all: All = (None, None, None, None);
    let mut errors = vec![];
    for k in order {
        match k {
            0 => match get::<Alpha>(sim) {
                Ok(x) => all.0 = Some(x),
                Err(e) => errors.push(e),
            },
            1 => match get::<Beta>(sim) {
                Ok(x) => all.1 = Some(x),
                Err(e) => errors.push(e),
            },
            2 => match get::<Gamma>(sim) {
                Ok(x) => all.2 = Some(x),
                Err(e) => errors.push(e),
            },
            _ => match get::<Delta>(sim) {
                Ok(x) => all.3 = Some(x),
                Err(e) => errors.push(e),
            },
        }
    }
    (all, errors)
}

fn simulation(contents: &str, arguments: &[String]) -> Simulation {
    let mut words = vec!["subsweep".to_string(), "parameters.yml".into()];
    words.extend(arguments.iter().cloned());
    use clap::Parser;
    let options = CommandLineOptions::try_parse_from(words).unwrap_or_else(|e| panic!("the command line is refused: {e}"));
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(contents.into());
    sim.with_parameter_overrides(options.parameter_overrides.clone());
    sim
}

pub fn parameters(c: &Ctx) -> Report {
    let rounds = c.n(4000, 60_000);
    let mut r = parallel(8, |w, r| {
        for round in 0..rounds / 8 {
            let mut g = Rng::new(c.seed, (20_000 + w * 1_000_000 + round) as u64);
            one(r, &mut g);
            misprints(r, &mut g);
            real(r, &mut g);
        }
    });
    r.sample(|| "alpha/inner/deep/a, given in the file and twice on the command line".into());
    r
}

fn one(r: &mut Report, g: &mut Rng) {
    let mut values: BTreeMap<&str, String> = BTreeMap::new();
    let mut tree = BTreeMap::new();
    let complete = g.chance(0.8);
    let density = g.f();
    for (path, kind) in FIELDS {
        let need = complete && matches!(*path, "alpha/n" | "alpha/x" | "beta");
        if need || g.chance(density) {
            let v = literal(g, *kind);
            put(&mut tree, &path.split('/').collect::<Vec<_>>(), &v);
            values.insert(path, v);
        }
    }
    // sections and subsections that are there, and empty
    if g.chance(0.2) {
        for s in ["alpha", "gamma"] {
            tree.entry(s.to_string()).or_insert_with(|| Tree::Map(BTreeMap::new()));
        }
    }
    let in_file = values.clone();
    let empty_inner: BTreeSet<&str> = BTreeSet::new();
    let contents = if tree.is_empty() { "{}".to_string() } else { yaml(&tree, 0, g) };
    // Every whole section at most once; everything else any number of times.
    let mut arguments = vec![];
    let mut whole = false;
    for _ in 0..g.below(6) {
        let (path, kind) = *g.pick(FIELDS);
        if path == "beta" && std::mem::replace(&mut whole, true) {
            continue;
        }
        let v = literal(g, kind);
        arguments.push(match g.below(3) {
            0 => format!("{path}: {v}"),
            _ => format!("{path}:{v}"),
        });
        values.insert(path, v);
    }
    let _ = empty_inner;
    let what = format!("file {contents:?} with {arguments:?}");
    let mut sim = match guarded(|| simulation(&contents, &arguments)) {
        Ok(s) => s,
        Err(e) => return r.violation(format!("{what}: {e}")),
    };
    let want = expected(&values);
    let (got, errors) = take(&mut sim, g);
    r.case();
    if !arguments.is_empty() {
        r.nontrivial(&(contents.clone(), arguments.clone()));
        r.count("overrides", arguments.len() as u64);
    }
    if in_file != values {
        r.count("files changed by the command line", 1);
    }
    r.sample(|| what.clone());
    let missing = want.0.is_none() as usize + want.1.is_none() as usize + want.3.is_none() as usize;
    r.count("sections that are refused", missing as u64);
    if !r.check(got == want, || format!("{what}: the parameters are {got:?} (refused: {errors:?}) and should be {want:?}")) {
        return;
    }
    // what was used is written, in a form that stands for the same
    if missing == 0 {
        let used = sim.unwrap_resource::<ParameterFileContents>().contents();
        let mut again = simulation(&used, &[]);
        let (read, errors) = take(&mut again, g);
        r.check(read == want, || format!("{what}: the parameters that were used are {used:?}, which reads as {read:?} ({errors:?})"));
        // and nothing is left over
        sim.insert_resource(Performance::default());
        let e = guarded(|| sim.run_without_finalize());
        r.check(e.is_ok(), || format!("{what}: the simulation does not start: {e:?}"));
        r.count("read again", 1);
    }
}

/// What has no meaning is refused rather than ignored.
fn misprints(r: &mut Report, g: &mut Rng) {
    let base = "alpha:\n  n: 1\n  x: 2.0\nbeta: 3\n".to_string();
    let mut contents = base.clone();
    let mut arguments: Vec<String> = vec![];
    let kind = g.below(8);
    match kind {
        0 => contents += "gamme:\n  first: 2\n",
        1 => contents += "gamma:\n  fisrt: 2\n",
        2 => arguments.push("gamma/fisrt:2".into()),
        3 => arguments.push("gamme/first:2".into()),
        4 => arguments.push("gamma/first:x".into()),
        5 => arguments.push("delta/a:1.5".into()),
        // nothing else in the file, and nothing else required
        6 => contents = g.pick(&["gamma: [1, 2\n", "gamma:\n  first: 1\n second: 2\n", "gamma: {first: 3\n", "gamma: \"unfinished\n", "\tgamma: 3\n"]).to_string(),
        _ => arguments.push("gamma/inner/depp/a:2".into()),
    }
    let names = ["section in the file", "key in the file", "key on the command line", "section on the command line", "value on the command line", "half of what belongs together", "file", "key in a subsection"];
    let what = format!("file {contents:?} with {arguments:?}");
    r.case();
    let e = guarded(|| {
        let mut sim = simulation(&contents, &arguments);
        let (all, errors) = if kind == 6 { ((None, None, Some(get::<Gamma>(&mut sim)?), None), vec![]) } else { take(&mut sim, g) };
        if !errors.is_empty() {
            return Err(errors.join("; "));
        }
        sim.insert_resource(Performance::default());
        sim.run_without_finalize();
        Ok(all)
    });
    r.count("misprints", 1);
    match e {
        Ok(Ok(all)) => r.violation(format!("a misprint ({}) is ignored: {what}: the parameters are {all:?}", names[kind])),
        Ok(Err(_)) | Err(_) => r.count(&format!("refused: {}", names[kind]), 1),
    }
}

/// The parameters of the program: a value has the same effect in the file and on the command line.
fn real(r: &mut Report, g: &mut Rng) {
    let time = |g: &mut Rng| format!("{:.3} {}", g.uniform(0.1, 900.0), g.pick(&["Myr", "s", "yr"]));
    let mut fields: Vec<(&str, String)> = vec![
        ("sweep/directions", g.range(1, 99).to_string()),
        ("sweep/num_timestep_levels", g.range(1, 9).to_string()),
        ("sweep/periodic", g.chance(0.5).to_string()),
        ("sweep/max_timestep", time(g)),
        ("sweep/rotate_directions", g.chance(0.5).to_string()),
        ("sweep/timestep_safety_factor", format!("{:.2}", g.uniform(0.01, 0.9))),
        ("sweep/chemistry_timestep_safety_factor", format!("{:.2}", g.uniform(0.01, 0.9))),
        ("sweep/check_deadlock", g.chance(0.5).to_string()),
        ("sweep/prevent_cooling", g.chance(0.5).to_string()),
        ("sweep/num_tasks_to_solve_before_send_receive", g.range(1, 99999).to_string()),
        ("output/time_between_snapshots", time(g)),
        ("output/time_first_snapshot", time(g)),
        ("output/output_dir", "some/where".into()),
        ("output/snapshots_dir", "snaps".into()),
        ("output/time_series_dir", "series".into()),
        ("output/fields", g.pick(&["all", "[position]", "[position, density]", "[]"]).to_string()),
        ("output/snapshot_padding", g.range(1, 9).to_string()),
        ("output/used_parameters_filename", "used.yml".into()),
        ("output/handle_existing_output", g.pick(&["panic", "overwrite", "delete"]).to_string()),
        ("output/performance_data_filename", "perf.yml".into()),
        ("output/num_output_files", g.range(1, 99).to_string()),
        ("simulation/final_time", time(g)),
        ("cosmology/a", format!("{:.4}", g.uniform(0.1, 1.0))),
        ("cosmology/h", format!("{:.4}", g.uniform(0.5, 1.0))),
        ("box_size", format!("{:.3} Mpc", g.uniform(0.1, 90.0))),
    ];
    if g.chance(0.5) {
        fields.push(("cosmology/params/omega_0", "0.3".into()));
        fields.push(("cosmology/params/omega_lambda", "0.7".into()));
    }
    // what may be left out
    let required = ["sweep/directions", "sweep/num_timestep_levels", "sweep/periodic", "sweep/max_timestep", "cosmology/a", "cosmology/h", "cosmology/params/omega_0", "cosmology/params/omega_lambda", "box_size"];
    fields.retain(|(k, _)| required.contains(k) || g.chance(0.7));
    if g.chance(0.3) {
        fields.retain(|(k, _)| !k.starts_with("cosmology"));
    }
    let read = |sim: &mut Simulation| -> Vec<String> {
        use subsweep::parameters::*;
        let mut out = vec![];
        macro_rules! section {
            ($($t:ty),*) => { $( out.push(serde_yaml::to_string(sim.add_parameter_type_and_get_result::<$t>()).unwrap()); )* }
        }
        section!(SweepParameters, OutputParameters, SimulationParameters, Cosmology, SimulationBoxParameters);
        out
    };
    let file = |f: &[(&str, String)], g: &mut Rng| {
        let mut tree = BTreeMap::new();
        for (k, v) in f {
            put(&mut tree, &k.split('/').collect::<Vec<_>>(), v);
        }
        if tree.is_empty() { "{}".into() } else { yaml(&tree, 0, g) }
    };
    let contents = file(&fields, g);
    let whole = match guarded(|| read(&mut simulation(&contents, &[]))) {
        Ok(x) => x,
        Err(e) => return r.violation(format!("file {contents:?} is refused: {e}")),
    };
    r.case();
    // a section as such stays in the file, with another value
    let mut arguments = vec![];
    let mut rest = vec![];
    for (k, v) in &fields {
        let moved = g.chance(0.4);
        if moved {
            arguments.push(format!("{k}:{v}"));
        }
        // Either it is not in the file at all, or it is there with the value of another field.
        if !moved {
            rest.push((*k, v.clone()));
        } else if g.chance(0.3) {
            let other = match *k {
                "output/fields" => "[time]".to_string(),
                k if k.ends_with("dir") || k.ends_with("filename") => "other".into(),
                "output/handle_existing_output" => "delete".into(),
                _ => v.clone(),
            };
            rest.push((*k, other));
        }
    }
    g.shuffle(&mut arguments);
    // At least one field of a section is in the file: numbers without a unit are read differently otherwise.
    if arguments.iter().any(|a| a.starts_with("sweep/")) && !rest.iter().any(|(k, _)| k.starts_with("sweep/")) {
        return;
    }
    let part = file(&rest, g);
    let what = format!("file {part:?} with {arguments:?}");
    match guarded(|| read(&mut simulation(&part, &arguments))) {
        Ok(x) => {
            for (a, b) in x.iter().zip(&whole) {
                r.check(a == b, || format!("{what}: the parameters are {a:?}; if all are in the file, they are {b:?}"));
            }
        }
        Err(e) => r.violation(format!("{what} is refused, and accepted if all is in the file: {e}")),
    }
    r.nontrivial(&(part, arguments));
    r.count("parameters of the program", 1);
}
