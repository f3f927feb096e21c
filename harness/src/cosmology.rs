//! Times and scale factors.
use crate::support::*;
use subsweep::cosmology::{scalefactor_to_redshift, CosmologyParams};
use subsweep::parameters::Cosmology;
use subsweep::time_spec::TimeSpec;
use subsweep::units::{Dimension, Dimensionless, Time};

/// 100 km/s/Mpc in 1/s, from the definition of a parsec.
const HUBBLE: f64 = 1e5 / 3.085_677_581_491_367e22;
const YEAR: f64 = 365.25 * 86400.0;

/// ∫ da / (a H(a)) with H² = H0² (Ω0/a³ + ΩΛ), by Gauss-Legendre quadrature over panels in x = a^(3/2).
fn integral(o0: f64, ol: f64, h: f64, a0: f64, a1: f64) -> f64 {
    const X: [f64; 5] = [0.0, 0.538_469_310_105_683_1, -0.538_469_310_105_683_1, 0.906_179_845_938_664, -0.906_179_845_938_664];
    const W: [f64; 5] = [0.568_888_888_888_888_9, 0.478_628_670_499_366_47, 0.478_628_670_499_366_47, 0.236_926_885_056_189_08, 0.236_926_885_056_189_08];
    // with x = a^(3/2): dt = (2/3) dx / sqrt(Ω0 + ΩΛ x²) / H0
    let (x0, x1) = (a0.powf(1.5), a1.powf(1.5));
    let panels = 400;
    let mut sum = 0.0;
    // panels that grow with x, where the integrand falls off like 1/x
    let s = (o0 / ol).sqrt();
    let edge = |i: usize| if i == 0 { x0 } else if i == panels { x1 } else { (x0 + s) * ((x1 + s) / (x0 + s)).powf(i as f64 / panels as f64) - s };
    for i in 0..panels {
        let (lo, hi) = (edge(i), edge(i + 1));
        for k in 0..5 {
            let x = 0.5 * (lo + hi) + 0.5 * (hi - lo) * X[k];
            sum += W[k] * 0.5 * (hi - lo) / (o0 + ol * x * x).sqrt();
        }
    }
    2.0 / 3.0 * sum / (HUBBLE * h)
}

pub fn cosmology(c: &Ctx) -> Report {
    let rounds = c.n(1500, 30_000);
    parallel(4, |w, r| {
        let mut g = Rng::new(c.seed, 31_000 + w as u64);
        for _ in 0..rounds {
            let o0 = if g.chance(0.2) { 0.308983 } else { g.uniform(0.02, 0.98) };
            let ol = if g.chance(0.5) { 1.0 - o0 } else { 1.0 - o0 + g.uniform(-9e-3, 9e-3) };
            let h = g.uniform(0.3, 1.2);
            let params: CosmologyParams = serde_yaml::from_str(&format!("omega_0: {o0:?}\nomega_lambda: {ol:?}")).unwrap();
            let a0 = if g.chance(0.2) { g.log_uniform(1e-3, 1.0) } else { g.uniform(0.01, 1.0) };
            let a1 = if g.chance(0.2) { if g.chance(0.5) { g.uniform(1.0, 3.0) } else { g.log_uniform(1.0, 200.0) } } else { g.log_uniform(1e-3, 1.0) };
            let what = format!("Ω0 {o0:?}, ΩΛ {ol:?}, h {h:?}");
            let t = |x: f64, y: f64| params.time_difference_between_scalefactors(x.into(), y.into(), h.into()).value_unchecked();
            let dt = t(a0, a1);
            let want = integral(o0, ol, h, a0, a1);
            let age = integral(o0, ol, h, 0.0, 1.0);
            let d = ((dt - want).abs() - 1e-12 * age).max(0.0) / want.abs().max(1e-300);
            r.case();
            r.nontrivial(&format!("{what} {a0} {a1}"));
            r.sample(|| format!("{what}: {dt} s from a = {a0} to {a1}"));
            r.maximum("relative deviation of a time", d);
            r.check(d < 3e-7, || format!("{what}: {dt:e} s pass from a = {a0} to {a1} and should be {want:e} s"));
            r.check((t(a1, a0) + dt).abs() <= 1e-12 * age && t(a0, a0) == 0.0, || format!("{what}: times from {a0} to {a1} and back do not cancel"));
            let a2 = g.uniform(0.01, 1.5);
            r.check((t(a0, a2) + t(a2, a1) - dt).abs() <= 1e-12 * age, || format!("{what}: times from {a0} to {a1} by way of {a2} do not add up"));
            // the way back
            let back = guarded(|| params.get_scalefactor_from_scalefactor_and_time_difference(a0.into(), h.into(), Time::new_unchecked(dt)).value_unchecked());
            match back {
                Ok(b) => {
                    let off = t(a0, b) - dt;
                    r.maximum("deviation of a scale factor, in years", off.abs() / YEAR);
                    r.check(off.abs() <= 101.0 * YEAR, || format!("{what}: {dt:e} s after a = {a0} it is {b:?}, which is {:e} years off {a1}", off / YEAR));
                }
                Err(e) => r.violation(format!("{what}: no scale factor {dt:e} s after {a0}: {e}")),
            }
            r.count("scale factors", 1);
            // the same from the section of the parameter file
            let text = format!("a: {a0:?}\nh: {h:?}\nparams:\n  omega_0: {o0:?}\n  omega_lambda: {ol:?}\n");
            let cosmology: Cosmology = serde_yaml::from_str(&text).unwrap();
            r.check((cosmology.time_difference_between_scalefactors(a0.into(), a1.into()).value_unchecked() - dt).abs() <= 1e-12 * age, || format!("{what}: the cosmology has another time between {a0} and {a1}"));
            r.check(cosmology.scale_factor().value_unchecked() == a0 && cosmology.little_h().value_unchecked() == h, || format!("{what}: the scale factor is {:?} and h is {:?}", cosmology.scale_factor(), cosmology.little_h()));
            let z = cosmology.redshift().value_unchecked();
            r.check((z - (1.0 / a0 - 1.0)).abs() <= 1e-12 / a0, || format!("the redshift at a = {a0} is {z}"));
            r.check((scalefactor_to_redshift(Dimensionless::dimensionless(a2)).value_unchecked() - (1.0 / a2 - 1.0)).abs() <= 1e-12 / a2, || format!("redshift at a = {a2}"));
            if dt >= 0.0 {
                match guarded(|| TimeSpec::new(Time::new_unchecked(dt), &cosmology)) {
                    Ok(TimeSpec::Cosmological(x)) => {
                        let (a, z) = (x.scale_factor.value_unchecked(), x.redshift.value_unchecked());
                        r.check((t(a0, a) - dt).abs() <= 101.0 * YEAR, || format!("{what}: the scale factor {dt:e} s after {a0} is {a}"));
                        r.check((z - (1.0 / a - 1.0)).abs() <= 1e-12 / a, || format!("the redshift at a = {a} is {z}"));
                        let text = serde_yaml::to_string(&TimeSpec::Cosmological(x)).unwrap();
                        let v: serde_yaml::Value = serde_yaml::from_str(&text).unwrap();
                        r.check(v.get("time_elapsed").is_some() && v.get("redshift").is_some() && v.get("scale_factor").is_some(), || format!("{text}"));
                        r.count("times of a run", 1);
                    }
                    Ok(_) => r.violation(format!("{what}: the time {dt:e} s has no scale factor")),
                    Err(e) => r.violation(format!("{what}: the time {dt:e} s is refused: {e}")),
                }
            }
            // conversion of comoving quantities
            let dim = Dimension { length: g.irange(-3, 3) as i32, time: g.irange(-3, 3) as i32, mass: g.irange(-2, 2) as i32, temperature: g.irange(-1, 1) as i32, h: g.irange(-4, 4) as i32, a: g.irange(-4, 4) as i32 };
            let f = cosmology.get_factor(&dim);
            let want = a0.powf(-dim.a as f64) * h.powf(-dim.h as f64);
            r.check((f - want).abs() <= 1e-12 * want, || format!("{what}, a = {a0}: {dim:?} is converted by {f} instead of {want}"));
            // without a cosmology
            if g.chance(0.1) {
                let none = Cosmology::NonCosmological;
                r.check(none.scale_factor().value_unchecked() == 1.0 && none.redshift().value_unchecked() == 0.0, || "there is a redshift without a cosmology".into());
                r.check(guarded(|| none.get_factor(&dim)).is_err() && guarded(|| none.little_h()).is_err(), || "comoving quantities are converted without a cosmology".into());
                r.check(matches!(TimeSpec::new(Time::new_unchecked(5.0), &none), TimeSpec::Time(x) if x.value_unchecked() == 5.0), || "a time without a cosmology".into());
                // only flat ones
                let bent: CosmologyParams = serde_yaml::from_str(&format!("omega_0: {o0:?}\nomega_lambda: {:?}", 1.0 - o0 + g.uniform(0.011, 0.5))).unwrap();
                r.check(guarded(|| bent.time_difference_between_scalefactors(a0.into(), a1.into(), h.into())).is_err(), || format!("times in a curved universe: {bent:?}"));
                r.count("refusals", 3);
            }
        }
    })
}
