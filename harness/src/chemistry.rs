//! The chemistry of a cell: bounds that hold for every state, the rates against the formulas of
//! Rosdahl et al. (2015) written out again here, and the solution against an integration of the
//! rate equations with a method of higher order.
use crate::support::*;
use subsweep::units::{Density, Dimensionless, Length, PhotonRate, Temperature, Time, Volume};
use subsweep::verif_full::hydrogen_only::CellState;

pub const MP: f64 = 1.67262192369e-27;
const KB: f64 = 1.380649e-23;
/// Average over a blackbody spectrum, in square meters.
pub const SIGMA: f64 = 2.9580524545305314e-22;
const EV: f64 = 1.602176634e-19;
const HEAT: f64 = (18.028356312818811 - 13.605693) * EV;
pub const EPS: f64 = 1e-10;

#[derive(Clone, Copy, Debug)]
pub struct State {
    pub x: f64,
    pub t: f64,
    pub density: f64,
    pub volume: f64,
    pub length: f64,
    pub rate: f64,
    pub a: f64,
}

impl State {
    fn cell(&self, floor: bool) -> CellState {
        CellState {
            ionized_hydrogen_fraction: Dimensionless::new_unchecked(self.x),
            temperature: Temperature::new_unchecked(self.t),
            density: Density::new_unchecked(self.density),
            volume: Volume::new_unchecked(self.volume),
            length: Length::new_unchecked(self.length),
            rate: PhotonRate::new_unchecked(self.rate),
            scale_factor: Dimensionless::new_unchecked(self.a),
            floor: floor.then(|| (Temperature::new_unchecked(self.t), Dimensionless::new_unchecked(self.x))),
        }
    }
    pub fn nh(&self) -> f64 {
        self.density / MP
    }
    fn absorbed(&self) -> f64 {
        -(-self.nh() * (1.0 - self.x) * SIGMA * self.length).exp_m1() * self.rate
    }
    /// photoionization rate, photoheating rate, recombination rate, collisional ionization rate, cooling rate
    pub fn rates(&self) -> [f64; 5] {
        let t = self.t;
        let (nhi, nhii) = (self.nh() * (1.0 - self.x), self.nh() * self.x);
        let ne = nhii;
        let lambda = 315614.0 / t;
        let cm3 = 1e-6;
        let erg = 1e-7;
        let alpha = 2.753e-14 * lambda.powf(1.5) / (1.0 + (lambda / 2.74).powf(0.407)).powf(2.242) * cm3;
        let s = 1.0 + (t / 1e5).sqrt();
        let fit = t.sqrt() / s * (-157809.1 / t).exp();
        let beta = 5.85e-11 * fit * cm3;
        let excitation = 7.5e-19 / s * (-118348.0 / t).exp() * erg * cm3;
        let ionization = 1.27e-21 * fit * erg * cm3;
        let recombination = 3.435e-30 * t * lambda.powf(1.97) / (1.0 + (lambda / 2.25).powf(0.376)).powf(3.72) * erg * cm3;
        let bremsstrahlung = 1.42e-27 * t.sqrt() * erg * cm3;
        let ta = 2.727 / self.a;
        let compton = 1.017e-37 * ta.powi(4) * (t - ta) * erg;
        let cooling = (excitation + ionization) * ne * nhi + (recombination + bremsstrahlung) * ne * nhii + compton * ne;
        let gamma = self.absorbed() / (nhi * self.volume);
        [gamma, self.absorbed() / self.volume * HEAT, alpha, beta, cooling]
    }
    fn slope(&self) -> (f64, f64) {
        let [gamma, heating, alpha, beta, cooling] = self.rates();
        let ne = self.nh() * self.x;
        let dx = (1.0 - self.x) * (gamma + beta * ne) - self.x * alpha * ne;
        let mu = 1.0 / (1.0 + self.x);
        let dt = (2.0 / 3.0) * MP / (self.density * KB) * mu * (heating - cooling);
        (dx, dt)
    }
    fn rk4(self, h: f64) -> Self {
        let at = |k: (f64, f64), f: f64| State { x: (self.x + k.0 * f * h).clamp(EPS, 1.0 - EPS), t: (self.t + k.1 * f * h).max(1e-3), ..self };
        let k1 = self.slope();
        let k2 = at(k1, 0.5).slope();
        let k3 = at(k2, 0.5).slope();
        let k4 = at(k3, 1.0).slope();
        let k = ((k1.0 + 2.0 * k2.0 + 2.0 * k3.0 + k4.0) / 6.0, (k1.1 + 2.0 * k2.1 + 2.0 * k3.1 + k4.1) / 6.0);
        at(k, 1.0)
    }
    /// With a step size that keeps the error small, or nothing if that takes too long.
    fn integrate(mut self, time: f64) -> Option<Self> {
        let (mut t, mut h) = (0.0, time / 100.0);
        for _ in 0..200_000 {
            if t >= time {
                return Some(self);
            }
            h = h.min(time - t);
            let one = self.rk4(h);
            let two = self.rk4(h / 2.0).rk4(h / 2.0);
            let e = ((one.x - two.x) / two.x).abs().max(((one.x - two.x) / (1.0 - two.x)).abs()).max(((one.t - two.t) / two.t).abs());
            if e < 1e-7 {
                t += h;
                self = two;
                h *= 1.5;
            } else {
                h /= 2.0;
            }
        }
        None
    }
}

fn time(x: f64) -> Time {
    Time::new_unchecked(x)
}
fn num(x: f64) -> Dimensionless {
    Dimensionless::new_unchecked(x)
}

fn state(g: &mut Rng, extreme: bool) -> State {
    let pc = 3.0857e16;
    let length = g.log_uniform(0.1, 1e5) * pc;
    let volume = 4.0 / 3.0 * std::f64::consts::PI * length.powi(3);
    let n = g.log_uniform(1e-6, 1e3) * 1e6;
    let x = match g.below(if extreme { 10 } else { 3 }) {
        0 => g.log_uniform(1e-6, 1.0),
        1 => 1.0 - g.log_uniform(1e-6, 1.0),
        2 => g.f(),
        3 => 0.0,
        4 => 1.0,
        5 => 1e-10,
        6 => 1.0 - 1e-10,
        7 => g.log_uniform(1e-20, 1e-8),
        8 => 1.0 - g.log_uniform(1e-15, 1e-8),
        _ => g.log_uniform(1e-10, 1.0),
    };
    let t = if extreme { g.log_uniform(2.0, 1e8) } else { g.log_uniform(500.0, 1e6) };
    let rate = if g.chance(0.25) { 0.0 } else { g.log_uniform(1e35, 1e56) };
    State { x, t, density: n * MP, volume, length, rate, a: if g.chance(0.5) { 1.0 } else { g.uniform(0.06, 1.0) } }
}

pub fn chemistry(c: &Ctx) -> Report {
    let rounds = c.n(30_000, 400_000);
    parallel(8, |w, r| {
        let mut g = Rng::new(c.seed, 1000 + w as u64);
        let yr = 3.15576e7;
        for i in 0..rounds {
            let s = state(&mut g, i % 2 == 0);
            // the rates
            let mut dt = g.log_uniform(1.0, 1e7) * yr;
            if !g.chance(0.02) {
                // not too many internal steps
                let s = State { x: s.x.clamp(1e-3, 1.0 - 1e-3), ..s };
                let (dx, dtemp) = s.slope();
                let fastest = (s.x.min(1.0 - s.x) / dx).abs().min((s.t / dtemp).abs());
                dt = dt.min(fastest * g.log_uniform(1e-3, 1e3));
            }
            let inner = State { x: s.x.clamp(1e-10, 1.0 - 1e-7), ..s };
            let have = inner.cell(false).rates(time(dt));
            let want = inner.rates();
            for (k, name) in ["photoionization rate", "photoheating rate", "recombination rate", "collisional ionization rate", "cooling rate"].iter().enumerate() {
                // exp_m1 here, a difference there: the latter cannot resolve small optical depths
                let tau = inner.nh() * (1.0 - inner.x) * SIGMA * inner.length;
                let tol = 1e-9 + if k < 2 { 4e-16 / tau.min(1.0) } else { 0.0 };
                // cooling: terms of both signs
                let scale = want[k].abs().max(if k == 4 { inner.nh() * inner.x * 1.017e-44 * (2.727 / inner.a).powi(4) * (inner.t + 50.0) } else { 0.0 });
                let d = if have[k] == want[k] { 0.0 } else { (have[k] - want[k]).abs() / scale };
                r.maximum(&format!("deviation of the {name}"), d / (tol / 1e-9));
                r.check(d < tol, || format!("the {name} of {inner:?} is {:e}, not {:e}", have[k], want[k]));
            }
            // bounds of a timestep, whatever the state
            let floor = g.chance(0.5);
            let safety = *g.pick(&[0.1, 0.1, 0.05, 0.3]);
            let res = guarded(|| s.cell(floor).perform_timestep(time(dt), num(safety)));
            let (t1, x1, scale, _) = match res {
                Ok((t, x, s, p)) => (t.value_unchecked(), x.value_unchecked(), s.value_unchecked(), p),
                Err(e) => {
                    r.violation(format!("a timestep of {dt:e} s with safety {safety} of {s:?} with{} floor: {e}", if floor { "" } else { "out" }));
                    return;
                }
            };
            let what = || format!("a timestep of {dt:e} s with safety {safety} of {s:?} with{} floor leads to a fraction of {x1:e} and {t1:e} K", if floor { "" } else { "out" });
            r.check(x1 >= EPS && x1 <= 1.0 - EPS, || what());
            r.check(t1.is_finite() && t1 > 0.0, || what());
            r.check(scale > 0.0 && !scale.is_nan(), || format!("{}, timescale {scale}", what()));
            if floor {
                r.check(t1 >= s.t && x1 >= s.x.clamp(EPS, 1.0 - EPS), || format!("{}, below where it was", what()));
            }
            // one internal step: the timescale is that of the larger relative change
            let (ct, cx) = ((t1 - s.t).abs() / s.t, (x1 - s.x).abs() / s.x);
            let largest = ct.max(cx);
            if largest > 1e-6 && largest < safety / 30.0 && s.x > 1e-6 && s.x < 0.999 && x1 < 0.9999 && !(floor && (t1 == s.t || x1 == s.x)) {
                let want = dt * safety / largest;
                r.count("timescales", 1);
                r.check((scale / want - 1.0).abs() < 1e-6, || format!("{}, relative change {largest:e}, timescale {scale:e} and not {want:e}", what()));
            }
            if scale == dt / 10.0 && t1 == s.t {
                r.count("timesteps that did not converge", 1);
                r.violation(format!("{}: nothing happens", what()));
            }
            r.case();
            r.count("timesteps", 1);
            if s.rate > 0.0 {
                r.nontrivial(&[s.x, s.t, s.density, s.rate, dt].map(f64::to_bits));
            }
            r.sample(|| what());
            if r.violations.len() > 5 {
                return;
            }
        }
        // accuracy
        for _ in 0..c.n(60, 600) {
            let s = state(&mut g, false);
            let (dx, dtemp) = s.slope();
            let tx = (s.x.min(1.0 - s.x) / dx).abs().min((s.t / dtemp).abs());
            let dt = tx * g.log_uniform(0.1, 10.0);
            if !(dt < 1e9 * yr) {
                continue;
            }
            let Some(want) = s.integrate(dt) else {
                r.count("integrations given up", 1);
                continue;
            };
            let Ok((t, x, _, _)) = guarded(|| s.cell(false).perform_timestep(time(dt), num(1e-3))) else {
                continue;
            };
            let (t, x) = (t.value_unchecked(), x.value_unchecked());
            let ex = (x - want.x).abs() / want.x;
            let et = (t - want.t).abs() / want.t;
            r.maximum("deviation of the fraction from the solution of the rate equations", ex);
            r.maximum("deviation of the temperature from the solution of the rate equations", et);
            r.count("solutions compared", 1);
            r.check(ex < 0.01 && et < 0.015, || format!("{s:?} evolves in {dt:e} s to a fraction of {x:e} and {t:e} K, not {:e} and {:e} K", want.x, want.t));
            if r.violations.len() > 5 {
                return;
            }
        }
    })
}
