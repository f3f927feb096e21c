//! What every monitor needs: a deterministic generator, counters, the report, violations.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(
            seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567,
            stream | 1,
        );
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(self.1 << 1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn log_uniform(&mut self, a: f64, b: f64) -> f64 {
        (self.uniform(a.ln(), b.ln())).exp()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default, Clone)]
pub struct Report {
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    /// Counts the cases, for the watchdog.
    beat: std::sync::Arc<std::sync::atomic::AtomicU64>,
}

impl Report {
    pub fn new() -> Self {
        Self::default()
    }
    /// One case was evaluated.
    pub fn case(&mut self) {
        self.evaluations += 1;
        self.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    /// The case was non-trivial; `t` identifies it.
    pub fn nontrivial<T: Hash>(&mut self, t: &T) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash_of(t));
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        match self.counters.get_mut(key) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(key.to_string(), n);
            }
        }
    }
    pub fn maximum(&mut self, key: &str, v: f64) {
        let e = self.maxima.entry(key.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    pub fn sample(&mut self, s: impl Fn() -> String) {
        if self.samples.len() < 5 {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, s: String) {
        if self.violations.len() < 20 {
            eprintln!("violation: {s}");
            self.violations.push(s);
        }
    }
    pub fn check(&mut self, ok: bool, s: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(s());
        }
        ok
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            self.maximum(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
    }
    pub fn write(&self, path: &str) {
        let q = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let list = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(",");
        let counters: Vec<_> = self.counters.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let maxima: Vec<_> = self
            .maxima
            .iter()
            .map(|(k, v)| format!("{}:{}", q(k), if v.is_finite() { format!("{v:e}") } else { q(&v.to_string()) }))
            .collect();
        let text = format!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"counters\":{{{}}},\"maxima\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}\n",
            self.evaluations,
            self.distinct.len(),
            counters.join(","),
            maxima.join(","),
            list(&self.samples),
            list(&self.violations)
        );
        let tmp = format!("{path}.tmp");
        std::fs::File::create(&tmp).unwrap().write_all(text.as_bytes()).unwrap();
        std::fs::rename(&tmp, path).unwrap();
    }
}

/// Processor time of a thread, in seconds. None: it has ended.
fn cpu_seconds(thread: &std::path::Path) -> Option<f64> {
    let text = std::fs::read_to_string(thread.join("stat")).ok()?;
    let w: Vec<&str> = text.rsplit(')').next()?.split_whitespace().collect();
    Some((w[11].parse::<f64>().ok()? + w[12].parse::<f64>().ok()?) / 100.0)
}

/// A single case takes a few seconds at most. A thread that has used this many seconds of
/// processor time for one does not come to an end.
const STUCK: f64 = 100.0;

/// Watches the calling thread through the cases that it counts.
fn watch(worker: usize, beat: std::sync::Arc<std::sync::atomic::AtomicU64>) {
    if cfg!(miri) {
        return;
    }
    let thread = match std::fs::read_link("/proc/thread-self") {
        Ok(t) => std::path::Path::new("/proc").join(t),
        Err(_) => return,
    };
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let n = beat.load(std::sync::atomic::Ordering::Relaxed);
            match cpu_seconds(&thread) {
                None => return,
                Some(t) if n != last.0 => last = (n, t),
                Some(t) if t > last.1 + STUCK => {
                    eprintln!("violation: worker {worker} is stuck: case {n} has not ended within {STUCK} s of processor time");
                    std::process::exit(87)
                }
                _ => {}
            }
        }
    });
}

/// Run `f(worker, report)` on every core and merge what they saw.
pub fn parallel(workers: usize, f: impl Fn(usize, &mut Report) + Sync) -> Report {
    let mut total = Report::new();
    let reports: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let f = &f;
                s.spawn(move || {
                    let mut r = Report::new();
                    watch(w, r.beat.clone());
                    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(w, &mut r)));
                    if let Err(e) = e {
                        r.violation(format!("worker {w} was ended by a panic outside of a guarded call: {}", panic_text(&e)));
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in reports {
        total.merge(r);
    }
    total
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

thread_local! { pub static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false); }

/// A call into the code under test, whose panics are observed rather than fatal.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e));
    QUIET.with(|q| q.set(false));
    r
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i)
        }
    }));
}

#[derive(Clone)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
}

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}
