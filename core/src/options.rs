//! Optional values in and out of their transportable form, with payloads that own memory. Made to
//! be run by Miri, which sees reads of uninitialised memory, double frees and leaks.
use crate::support::*;
use std::cell::Cell;
use std::rc::Rc;
use subsweep::communication::CommunicatedOption;

/// Counts how many of its kind are alive.
struct Counted(Rc<Cell<i64>>, u64, Box<u64>);
impl Counted {
    fn new(c: &Rc<Cell<i64>>, x: u64) -> Self {
        c.set(c.get() + 1);
        Counted(c.clone(), x, Box::new(x))
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new(&self.0, self.1)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
        assert_eq!(self.1, *self.2);
    }
}

fn round<T: Clone + PartialEq + std::fmt::Debug>(x: Option<T>, r: &mut Rng, rep: &mut Report) {
    rep.case();
    let c: CommunicatedOption<T> = x.clone().into();
    let mut clones: Vec<CommunicatedOption<T>> = vec![];
    for _ in 0..r.below(4) {
        // (one that is dropped in this form does not drop its value, so none is)
        let new = if clones.is_empty() || r.chance(0.5) { c.clone() } else { CommunicatedOption::clone(r.pick(&clones)) };
        clones.push(new);
    }
    clones.push(c);
    for c in clones {
        let back: Option<T> = c.into();
        rep.check(back == x, || format!("{x:?} came back as {back:?}"));
        rep.count("conversions", 1);
    }
    rep.nontrivial(&format!("{x:?}"));
}

pub fn options(c: &Ctx) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(c.seed, 4100);
    for i in 0..c.n(60, 400) as u64 {
        let some = r.chance(0.6);
        macro_rules! opt {
            ($e: expr) => {
                if some {
                    Some($e)
                } else {
                    None
                }
            };
        }
        match i % 7 {
            0 => round(opt!(r.u64()), &mut r, &mut rep),
            1 => round(opt!(format!("text {i}")), &mut r, &mut rep),
            2 => round(opt!(Box::new([i; 3])), &mut r, &mut rep),
            3 => round(opt!((0..r.below(9)).map(|x| x as u8).collect::<Vec<u8>>()), &mut r, &mut rep),
            4 => round(opt!(true), &mut r, &mut rep),
            5 => round(opt!((i as u8, 1.5f64, Some(i as u128))), &mut r, &mut rep),
            // the number of values alive is what it should be at every point
            _ => {
                rep.case();
                let alive = Rc::new(Cell::new(0));
                let x = opt!(Counted::new(&alive, i));
                let n = some as i64;
                let c: CommunicatedOption<Counted> = x.into();
                rep.check(alive.get() == n, || format!("{} values are alive after conversion instead of {n}", alive.get()));
                let d = c.clone();
                rep.check(alive.get() == 2 * n, || format!("{} values are alive after a clone instead of {}", alive.get(), 2 * n));
                let back: Option<Counted> = c.into();
                let again: Option<Counted> = d.into();
                rep.check(alive.get() == 2 * n, || format!("{} values are alive after converting back instead of {}", alive.get(), 2 * n));
                rep.check(back.as_ref().map(|x| x.1) == opt!(i) && again.as_ref().map(|x| x.1) == opt!(i), || "another value came back".into());
                drop((back, again));
                rep.check(alive.get() == 0, || format!("{} values are left at the end", alive.get()));
                rep.nontrivial(&i);
            }
        }
    }
    rep.sample(|| "options of u64, String, Box, Vec, bool, tuples and counted values".into());
    rep
}
