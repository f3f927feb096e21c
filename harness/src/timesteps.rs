//! Timestep levels.
use crate::support::*;
use subsweep::sweep::verif_full::TimestepState;
use subsweep::units::Time;

pub fn timesteps(c: &Ctx) -> Report {
    let rounds = c.n(4000, 40_000);
    parallel(4, |w, r| {
        let mut g = Rng::new(c.seed, 1200 + w as u64);
        for _ in 0..rounds {
            let levels = g.range(1, 12);
            let max = g.log_uniform(1e-3, 1e20);
            let mut s = TimestepState::new(Time::new_unchecked(max), levels);
            let mut elapsed = 0.0;
            let mut lowest = levels - 1;
            for step in 0..levels + 3 {
                let allowed: Vec<usize> = s.iter_allowed_levels().map(|l| l.0).collect();
                r.check(allowed == (lowest..levels).collect::<Vec<_>>(), || format!("{levels} levels, step {step}: levels {allowed:?} are allowed"));
                let order: Vec<usize> = s.iter_levels_in_sweep_order().map(|l| l.0).collect();
                r.check(order.len() == 1 << (levels - 1 - lowest), || format!("{levels} levels, step {step}: {} sweeps", order.len()));
                let current = s.current_max_timestep().value_unchecked();
                r.check((current - max * 0.5f64.powi(lowest as i32)).abs() <= 1e-14 * max, || format!("{levels} levels, step {step}: the timestep is {current}"));
                for l in lowest..levels {
                    // a cell at level l takes part in the sweeps of its level and all below, evenly spaced
                    let dt = s.timestep_at_level(s.iter_allowed_levels().find(|x| x.0 == l).unwrap()).value_unchecked();
                    r.check((dt - max * 0.5f64.powi(l as i32)).abs() <= 1e-14 * max, || format!("level {l} of {max} has the timestep {dt}"));
                    let at: Vec<usize> = order.iter().enumerate().filter(|(_, x)| **x <= l).map(|(i, _)| i).collect();
                    let period = 1 << (levels - 1 - l);
                    let want: Vec<usize> = (0..order.len()).step_by(period).collect();
                    r.check(at == want, || format!("{levels} levels from {lowest}: level {l} is swept at {at:?} of {order:?}"));
                    r.check((dt * at.len() as f64 - current).abs() <= 1e-12 * current, || format!("level {l} advances by {} in a step of {current}", dt * at.len() as f64));
                }
                r.count("sweeps scheduled", order.len() as u64);
                for _ in 0..6 {
                    let desired = match g.below(8) {
                        0 => 0.0,
                        1 => f64::INFINITY,
                        2 => max * 0.5f64.powi(g.below(levels + 2) as i32),
                        3 => max * 3.0,
                        4 | 5 => {
                            // hardly more or less than an allowed one
                            let d = g.log_uniform(1e-11, 1e-2);
                            max * 0.5f64.powi(g.below(levels + 2) as i32) * if g.chance(0.5) { 1.0 + d } else { 1.0 - d }
                        }
                        _ => max * g.log_uniform(1e-5, 2.0),
                    };
                    let l = s.get_desired_level_from_desired_timestep(Time::new_unchecked(desired)).0;
                    // the longest allowed timestep that is not longer than desired, or else the shortest there is
                    let fits = |l: usize, f: f64| max * 0.5f64.powi(l as i32) <= desired * f;
                    let ok = l >= lowest && l < levels && (fits(l, 1.0 + 1e-12) || l == levels - 1) && (l == lowest || !fits(l - 1, 1.0 - 1e-12));
                    r.check(ok, || format!("{levels} levels of {max} from {lowest}: level {l} is given to a timestep of {desired}"));
                    r.case();
                    r.nontrivial(&(levels, lowest, max.to_bits(), desired.to_bits()));
                    r.sample(|| format!("{levels} levels of {max:.3e} s from {lowest}: {desired:.3e} s gets level {l}, sweeps {order:?}"));
                }
                elapsed += current;
                // full steps begin at multiples of the largest timestep
                if step == levels - 1 {
                    r.check((elapsed - max).abs() <= 1e-12 * max, || format!("{levels} levels: after the first {levels} steps, {elapsed} of {max} have passed"));
                }
                s.advance_allowed_levels();
                if step > 0 && lowest > 0 {
                    lowest -= 1;
                }
                if r.violations.len() > 5 {
                    return;
                }
            }
        }
    })
}
