//! Quantities with units, and the conversions between them.
use crate::support::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use subsweep::parameters::Cosmology;
use subsweep::units::*;

const PARSEC: f64 = 3.085_677_581_491_367e16;
const YEAR: f64 = 365.25 * 86400.0;
const SUN: f64 = 1.988_41e30;
const BOLTZMANN: f64 = 1.380_649e-23;
const PROTON: f64 = 1.672_621_923_69e-27;
const EV: f64 = 1.602_176_634e-19;

fn close(x: f64, y: f64, eps: f64) -> bool {
    (x - y).abs() <= eps * y.abs() || x == y
}

/// A quantity that is written as `text` is `want` in SI units, and as text again the same quantity.
fn text<const D: Dimension>(r: &mut Report, text: &str, want: f64, eps: f64)
where
    Quantity<f64, D>: DeserializeOwned + Serialize,
{
    match serde_yaml::from_str::<Quantity<f64, D>>(text) {
        Ok(q) => {
            let x = q.value_unchecked();
            r.check(close(x, want, eps), || format!("{text} is {x:e} in SI units instead of {want:e}"));
            let again = serde_yaml::to_string(&q).unwrap();
            let back = serde_yaml::from_str::<Quantity<f64, D>>(&again).map(|y| y.value_unchecked());
            r.check(matches!(back, Ok(y) if close(y, x, 1e-14)), || format!("{text} is written as {again:?}, which is read as {back:?}"));
        }
        Err(e) => r.violation(format!("{text} is not understood: {e}")),
    }
    r.count("quantities read from text", 1);
}

fn refused<const D: Dimension>(r: &mut Report, text: &str)
where
    Quantity<f64, D>: DeserializeOwned,
{
    let x = serde_yaml::from_str::<Quantity<f64, D>>(text).map(|q| q.value_unchecked());
    r.check(x.is_err(), || format!("{text} is read as {x:?} of a quantity with dimension {D:?}"));
    r.count("refused texts", 1);
}

macro_rules! both {
    ($r:ident, $x:ident, $( $t:ident $unit:ident $inn:ident $f:expr, $eps:expr; )*) => { $( {
        let q = $t::$unit($x);
        let v = q.value_unchecked();
        $r.check(close(v, $x * $f, $eps), || format!("{} {} are {v:e} in SI units instead of {:e}", $x, stringify!($unit), $x * $f));
        let back = $t::new_unchecked($x * $f).$inn();
        $r.check(close(back, $x, $eps), || format!("{:e} in SI units are {back} {} instead of {}", $x * $f, stringify!($unit), $x));
        $r.count("units", 1);
    } )* };
}

pub fn units(c: &Ctx) -> Report {
    let rounds = c.n(4000, 100_000);
    parallel(4, |w, r| {
        let mut g = Rng::new(c.seed, 41_000 + w as u64);
        for _ in 0..rounds {
            let x = g.log_uniform(1e-30, 1e30) * if g.chance(0.3) { -1.0 } else { 1.0 };
            r.case();
            r.nontrivial(&x.to_bits());
            let p = 1e-4;
            let e = 1e-12;
            both! { r, x,
                Length meters in_meters 1.0, e;
                Length centimeters in_centimeters 1e-2, e;
                Length kilometers in_kilometers 1e3, e;
                Length parsec in_parsec PARSEC, p;
                Length kiloparsec in_kiloparsec 1e3 * PARSEC, p;
                Length megaparsec in_megaparsec 1e6 * PARSEC, p;
                Length gigaparsec in_gigaparsec 1e9 * PARSEC, p;
                ComovingLength comoving_parsec in_comoving_parsec PARSEC, p;
                ComovingLength comoving_kiloparsec in_comoving_kiloparsec 1e3 * PARSEC, p;
                ComovingLength comoving_megaparsec in_comoving_megaparsec 1e6 * PARSEC, p;
                ComovingLength comoving_gigaparsec in_comoving_gigaparsec 1e9 * PARSEC, p;
                Time seconds in_seconds 1.0, e;
                Time milliseconds in_milliseconds 1e-3, e;
                Time microseconds in_microseconds 1e-6, e;
                Time nanoseconds in_nanoseconds 1e-9, e;
                Time years in_years YEAR, p;
                Time kiloyears in_kiloyears 1e3 * YEAR, p;
                Time megayears in_megayears 1e6 * YEAR, p;
                Time gigayears in_gigayears 1e9 * YEAR, p;
                Mass kilograms in_kilograms 1.0, e;
                Mass grams in_grams 1e-3, e;
                Mass solar in_solar SUN, p;
                Velocity meters_per_second in_meters_per_second 1.0, e;
                Energy joules in_joules 1.0, e;
                Energy ergs in_ergs 1e-7, e;
                Energy electron_volts in_electron_volts EV, 1e-6;
                Temperature kelvins in_kelvins 1.0, e;
                Area square_meters in_square_meters 1.0, e;
                Area square_centimeters in_square_centimeters 1e-4, e;
                EnergyPerTime ergs_per_s in_ergs_per_s 1e-7, e;
                Volume cubic_meters in_cubic_meters 1.0, e;
                Volume cubic_centimeters in_cubic_centimeters 1e-6, e;
                Density grams_per_cubic_centimeters in_grams_per_cubic_centimeters 1e3, e;
                SourceRate photons_per_second in_photons_per_second 1.0, e;
                Rate per_second in_per_second 1.0, e;
                PhotonRateDensity photons_per_second_per_cubic_meter in_photons_per_second_per_cubic_meter 1.0, e;
                PhotonRateDensity photons_per_second_per_cubic_centimeter in_photons_per_second_per_cubic_centimeter 1e6, e;
                PhotonFlux photons_per_s_per_cm_squared in_photons_per_s_per_cm_squared 1e4, e;
                CrossSection centimeters_squared in_centimeters_squared 1e-4, e;
                VolumeRate centimeters_cubed_per_s in_centimeters_cubed_per_s 1e-6, e;
                HeatingTerm ergs_centimeters_cubed_per_s in_ergs_centimeters_cubed_per_s 1e-13, e;
                HeatingRate ergs_per_centimeters_cubed_per_s in_ergs_per_centimeters_cubed_per_s 1e-1, e;
                NumberDensity per_centimeters_cubed in_per_centimeters_cubed 1e6, e;
                Dimensionless dimensionless in_dimensionless 1.0, e;
                Dimensionless percent in_percent 1e-2, e;
            }
            // as they are written in the parameter file
            const L: Dimension = Dimension { length: 1, time: 0, mass: 0, temperature: 0, h: 0, a: 0 };
            const C: Dimension = Dimension { a: -1, ..L };
            const HC: Dimension = Dimension { a: -1, h: 1, ..L };
            const T: Dimension = Dimension { length: 0, time: 1, ..L };
            const M: Dimension = Dimension { length: 0, mass: 1, ..L };
            const K: Dimension = Dimension { length: 0, temperature: 1, ..L };
            const R: Dimension = Dimension { length: 0, time: -1, ..L };
            const D: Dimension = Dimension { length: -3, mass: 1, ..L };
            const F: Dimension = Dimension { length: -3, time: -1, ..L };
            for (name, f) in [("m", 1.0), ("cm", 1e-2), ("km", 1e3), ("pc", PARSEC), ("kpc", 1e3 * PARSEC), ("Mpc", 1e6 * PARSEC), ("Gpc", 1e9 * PARSEC)] {
                text::<L>(r, &format!("{x} {name}"), x * f, p);
                refused::<T>(r, &format!("{x} {name}"));
                refused::<C>(r, &format!("{x} {name}"));
            }
            for (name, f) in [("cpc", PARSEC), ("ckpc", 1e3 * PARSEC), ("cMpc", 1e6 * PARSEC), ("cGpc", 1e9 * PARSEC)] {
                text::<C>(r, &format!("{x} {name}"), x * f, p);
                refused::<L>(r, &format!("{x} {name}"));
            }
            for (name, f) in [("cpc/h", PARSEC), ("ckpc/h", 1e3 * PARSEC), ("cMpc/h", 1e6 * PARSEC)] {
                text::<HC>(r, &format!("{x} {name}"), x * f, p);
                refused::<C>(r, &format!("{x} {name}"));
                refused::<L>(r, &format!("{x} {name}"));
            }
            for (name, f) in [("s", 1.0), ("ms", 1e-3), ("µs", 1e-6), ("ns", 1e-9), ("yr", YEAR), ("kyr", 1e3 * YEAR), ("Myr", 1e6 * YEAR), ("Gyr", 1e9 * YEAR)] {
                text::<T>(r, &format!("{x} {name}"), x * f, p);
                refused::<L>(r, &format!("{x} {name}"));
            }
            for (name, f) in [("kg", 1.0), ("g", 1e-3), ("Msol", SUN)] {
                text::<M>(r, &format!("{x} {name}"), x * f, p);
                refused::<K>(r, &format!("{x} {name}"));
            }
            text::<K>(r, &format!("{x} K"), x, e);
            text::<R>(r, &format!("{x} s^-1"), x, e);
            text::<D>(r, &format!("{x} g/cm^3"), x * 1e3, e);
            text::<D>(r, &format!("{x} g cm^-3"), x * 1e3, e);
            text::<F>(r, &format!("{x} s^-1 m^-3"), x, e);
            text::<F>(r, &format!("{x} s^-1 cm^-3"), x * 1e6, e);
            refused::<L>(r, &format!("{x}"));
            refused::<L>(r, &format!("{x} furlongs"));
            text::<{ NONE }>(r, &format!("{x:e}"), x, e);
            // constants of nature
            for (name, have, want, eps) in [
                ("k", BOLTZMANN_CONSTANT.value_unchecked(), BOLTZMANN, 1e-6),
                ("m_p", PROTON_MASS.value_unchecked(), PROTON, 1e-6),
                ("c", SPEED_OF_LIGHT.value_unchecked(), 299_792_458.0, e),
                ("Ry", RYDBERG_CONSTANT.value_unchecked(), 13.605_693_123 * EV, 1e-4),
                ("γ", GAMMA.value_unchecked(), 5.0 / 3.0, e),
            ] {
                r.check(close(have, want, eps), || format!("{name} is {have:e} in SI units instead of {want:e}"));
            }
            // temperature, energy and the state of the gas
            let (t, xh, rho) = (g.log_uniform(1e-2, 1e10), if g.chance(0.1) { *g.pick(&[0.0, 1.0]) } else { g.f() }, g.log_uniform(1e-35, 1e-10));
            let mu = 1.0 / (1.0 + xh);
            let want = 1.5 * BOLTZMANN * t / (mu * PROTON);
            let u = Temperature::kelvins(t).to_internal_energy(mu.into()).value_unchecked();
            r.check(close(u, want, 1e-6), || format!("gas of {t} K with a molecular weight of {mu} has {u:e} J/kg instead of {want:e}"));
            let back = EnergyPerMass::new_unchecked(want).to_temperature(mu.into()).value_unchecked();
            r.check(close(back, t, 1e-6), || format!("gas with {want:e} J/kg and a molecular weight of {mu} has {back} K instead of {t}"));
            let d = Density::new_unchecked(rho);
            let u = EnergyDensity::from_temperature_hydrogen_only(Temperature::kelvins(t), xh.into(), d);
            r.check(close(u.value_unchecked(), want * rho, 1e-6), || format!("hydrogen of {t} K, ionized by {xh}, with {rho:e} kg/m^3 has {:e} J/m^3 instead of {:e}", u.value_unchecked(), want * rho));
            let back = Temperature::from_internal_energy_density_hydrogen_only(u, xh.into(), d).value_unchecked();
            r.check(close(back, t, 1e-12), || format!("hydrogen of {t} K, ionized by {xh}, with {rho:e} kg/m^3 has {back} K after its energy was computed"));
            r.count("states of gas", 1);
            // comoving lengths
            let (a, h) = (g.log_uniform(1e-3, 3.0), g.uniform(0.3, 1.2));
            let cosmology: Cosmology = serde_yaml::from_str(&format!("a: {a:?}\nh: {h:?}")).unwrap();
            for (text, want) in [(format!("{x} ckpc"), x * a * 1e3 * PARSEC), (format!("{x} cMpc"), x * a * 1e6 * PARSEC)] {
                if let Ok(q) = serde_yaml::from_str::<ComovingLength>(&text) {
                    let l: Length = q.make_non_cosmological(&cosmology);
                    r.check(close(l.value_unchecked(), want, p), || format!("{text} at a = {a}, h = {h} are {l:?} instead of {want:e} m"));
                }
            }
            for (text, want) in [(format!("{x} ckpc/h"), x * a / h * 1e3 * PARSEC), (format!("{x} cMpc/h"), x * a / h * 1e6 * PARSEC)] {
                if let Ok(q) = serde_yaml::from_str::<ComovingLengthTimesH>(&text) {
                    let l: Length = q.make_non_cosmological(&cosmology);
                    r.check(close(l.value_unchecked(), want, p), || format!("{text} at a = {a}, h = {h} are {l:?} instead of {want:e} m"));
                }
            }
            r.count("comoving lengths", 4);
            // vectors
            let v = [g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0)];
            let q = VecLength::from_vector_and_scale(MVec3::new(v[0], v[1], v[2]), Length::meters(x)).value_unchecked();
            r.check((0..3).all(|i| close(q[i], v[i] * x, e)), || format!("{v:?} times {x} m is {q:?}"));
            let q = VecLength::from_xy(Length::meters(v[0]), Length::meters(v[1])).value_unchecked();
            r.check(q.x == v[0] && q.y == v[1] && q.z == 0.0, || format!("x = {} m and y = {} m make {q:?}", v[0], v[1]));
            let q = VecLength::kiloparsec(v[0], v[1], v[2]).value_unchecked();
            r.check((0..3).all(|i| close(q[i], v[i] * 1e3 * PARSEC, p)), || format!("{v:?} kpc is {q:?}"));
            match serde_yaml::from_str::<VecLength>(&format!("({} {} {}) Mpc", v[0], v[1], v[2])) {
                Ok(q) => {
                    let q = q.value_unchecked();
                    r.check((0..3).all(|i| close(q[i], v[i] * 1e6 * PARSEC, p)), || format!("{v:?} Mpc is {q:?}"));
                }
                Err(e) => r.violation(format!("a vector of lengths is not understood: {e}")),
            }
            // dimensions
            let dim = Dimension { length: g.irange(-3, 3) as i32, time: g.irange(-3, 3) as i32, mass: g.irange(-2, 2) as i32, temperature: g.irange(-1, 1) as i32, h: g.irange(-4, 4) as i32, a: g.irange(-4, 4) as i32 };
            r.check(dim.base_conversion_factor() == 1.0, || format!("quantities with dimension {dim:?} are stored in units of {} SI units", dim.base_conversion_factor()));
            r.check(dim.non_cosmological() == Dimension { h: 0, a: 0, ..dim }, || format!("{dim:?} without powers of a and h is {:?}", dim.non_cosmological()));
        }
        r.sample(|| format!("one parsec is {} m, a year {} s", Length::parsec(1.0).value_unchecked(), Time::years(1.0).value_unchecked()));
    })
}
