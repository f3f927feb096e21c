//! Monitors of containers: every operation is also applied to a plain model.
use crate::support::*;
use generational_arena::Index;
use std::collections::BTreeMap;
use subsweep::communication::{DataByRank, Rank, SizedCommunicator};
use subsweep::sweep::verif_core::CountByDir;
use subsweep::sweep::DirectionIndex;
use subsweep::voronoi::verif_core::{IndexedArena, IndexedVec};

struct Fake(usize, Rank);
impl SizedCommunicator for Fake {
    fn size(&self) -> usize {
        self.0
    }
    fn rank(&self) -> Rank {
        self.1
    }
}

fn compare(d: &mut DataByRank<Vec<u64>>, m: &BTreeMap<Rank, Vec<u64>>, len: usize) -> Result<(), String> {
    let got: Vec<(Rank, Vec<u64>)> = d.iter().map(|(r, v)| (r, v.clone())).collect();
    let want: Vec<(Rank, Vec<u64>)> = m.iter().map(|(r, v)| (*r, v.clone())).collect();
    if got != want {
        return Err(format!("iter gives {got:?} instead of {want:?}"));
    }
    let got: Vec<(Rank, Vec<u64>)> = d.iter_mut().map(|(r, v)| (r, v.clone())).collect();
    if got != want {
        return Err(format!("iter_mut gives {got:?} instead of {want:?}"));
    }
    let size: usize = m.values().map(|v| v.len()).sum();
    if d.size() != size {
        return Err(format!("size is {} instead of {size}", d.size()));
    }
    for r in -3..len as Rank {
        if d.get(&r) != m.get(&r) {
            return Err(format!("get({r}) is {:?} instead of {:?}", d.get(&r), m.get(&r)));
        }
        if d.get_mut(&r).cloned() != m.get(&r).cloned() {
            return Err(format!("get_mut({r}) differs from {:?}", m.get(&r)));
        }
        if m.contains_key(&r) && d[r] != m[&r] {
            return Err(format!("[{r}] is {:?} instead of {:?}", d[r], m[&r]));
        }
    }
    let got: Vec<(Rank, Vec<u64>)> = d.clone().into_iter().collect();
    if got != want {
        return Err(format!("into_iter gives {got:?} instead of {want:?}"));
    }
    Ok(())
}

pub fn data_by_rank(c: &Ctx) -> Report {
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 600 + w as u64);
        for _ in 0..c.n(9000, 60_000) {
            rep.case();
            let mut log: Vec<String> = vec![];
            let size = if r.chance(0.01) { r.range(100, 400) } else { r.range(1, 9) };
            let me = r.below(size) as Rank;
            let fake = Fake(size, me);
            let mut m: BTreeMap<Rank, Vec<u64>> = BTreeMap::new();
            // ranks that are asked for: more than there may be
            let len = size + 4;
            let kind = r.below(7);
            let mut next = 1u64;
            let made = guarded(|| match kind {
                0 => DataByRank::empty(),
                1 => DataByRank::from_communicator(&fake),
                2 => DataByRank::from_size_and_rank(size, me),
                3 => DataByRank::same_for_other_ranks_in_communicator(vec![7, 8], &fake),
                4 => DataByRank::same_for_all_ranks_in_communicator(vec![9], &fake),
                5 => DataByRank::from_closure_size_and_rank(|| vec![3, 4, 5], size, me),
                _ => DataByRank::default(),
            });
            let mut d = match made {
                Ok(d) => d,
                Err(e) => {
                    rep.violation(format!("making a container of kind {kind} for {size} ranks on rank {me}: panic: {e}"));
                    continue;
                }
            };
            for k in 0..size as Rank {
                match kind {
                    1 | 2 if k != me => {
                        m.insert(k, vec![]);
                    }
                    3 if k != me => {
                        m.insert(k, vec![7, 8]);
                    }
                    5 if k != me => {
                        m.insert(k, vec![3, 4, 5]);
                    }
                    4 => {
                        m.insert(k, vec![9]);
                    }
                    _ => {}
                }
            }
            log.push(format!("kind {kind} size {size} rank {me}"));
            let ops = r.range(0, 25);
            let mut bad = compare(&mut d, &m, len);
            for _ in 0..ops {
                if bad.is_err() {
                    break;
                }
                let k = r.below(size + 3) as Rank;
                let op = r.below(8);
                rep.count("operations", 1);
                let res = guarded(|| -> Result<(), String> {
                    match op {
                        0 | 1 => {
                            let v: Vec<u64> = (0..r.below(4)).map(|i| next + i as u64).collect();
                            next += 10;
                            log.push(format!("insert {k} {v:?}"));
                            d.insert(k, v.clone());
                            m.insert(k, v);
                        }
                        2 => {
                            if (k as usize) < len {
                                log.push(format!("remove {k}"));
                                let got = d.remove(&k);
                                let want = m.remove(&k);
                                if got != want {
                                    return Err(format!("remove({k}) gives {got:?} instead of {want:?}"));
                                }
                            }
                        }
                        3 => {
                            if m.contains_key(&k) {
                                log.push(format!("push to [{k}]"));
                                d[k].push(next);
                                m.get_mut(&k).unwrap().push(next);
                                next += 1;
                            }
                        }
                        4 => {
                            if (k as usize) < len {
                                log.push(format!("get_mut {k}"));
                                if let Some(v) = d.get_mut(&k) {
                                    v.push(next);
                                }
                                if let Some(v) = m.get_mut(&k) {
                                    v.push(next);
                                }
                                next += 1;
                            }
                        }
                        5 => {
                            log.push("iter_mut".into());
                            for (k, v) in d.iter_mut() {
                                v.push(1000 + k as u64);
                            }
                            for (k, v) in m.iter_mut() {
                                v.push(1000 + *k as u64);
                            }
                        }
                        6 => {
                            if r.chance(0.2) {
                                log.push("drain_all".into());
                                let got: Vec<(Rank, Vec<u64>)> = d.drain_all().collect();
                                let want: Vec<(Rank, Vec<u64>)> = std::mem::take(&mut m).into_iter().collect();
                                if got != want {
                                    return Err(format!("drain_all gives {got:?} instead of {want:?}"));
                                }
                            }
                        }
                        _ => {
                            log.push("collect".into());
                            let mut items: Vec<(Rank, Vec<u64>)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
                            r.shuffle(&mut items);
                            d = items.into_iter().collect();
                        }
                    }
                    compare(&mut d, &m, len)
                });
                bad = match res {
                    Ok(x) => x,
                    Err(e) => Err(format!("panic: {e}")),
                };
            }
            if let Err(e) = bad {
                rep.violation(format!("per-rank container after {log:?}: {e}"));
            }
            // The ranks of a communicator
            let others = fake.other_ranks();
            let all = fake.all_ranks();
            rep.check(
                all == (0..size as Rank).collect::<Vec<_>>() && others == all.iter().cloned().filter(|x| *x != me).collect::<Vec<_>>(),
                || format!("ranks of a communicator of size {size} seen from {me}: others {others:?}, all {all:?}"),
            );
            if ops > 3 {
                rep.nontrivial(&log);
                rep.sample(|| log.join("; "));
            }
            if rep.violations.len() > 3 {
                return;
            }
        }
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(Index);
impl From<Index> for Id {
    fn from(i: Index) -> Self {
        Id(i)
    }
}
impl From<Id> for Index {
    fn from(i: Id) -> Self {
        i.0
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Num(usize);
impl From<usize> for Num {
    fn from(i: usize) -> Self {
        Num(i)
    }
}
impl From<Num> for usize {
    fn from(i: Num) -> Self {
        i.0
    }
}

pub fn arenas(c: &Ctx) -> Report {
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 700 + w as u64);
        large(c, &mut r, rep);
        for _ in 0..c.n(4000, 25_000) {
            rep.case();
            // Every id ever handed out, and what it stands for (None: removed).
            let mut ids: Vec<(Id, Option<u64>)> = vec![];
            let mut a: IndexedArena<Id, u64> = Default::default();
            let mut v: IndexedVec<Num, u64> = Default::default();
            let mut vm: Vec<u64> = vec![];
            let mut next = 0u64;
            let ops = r.range(1, 80);
            let p_remove = r.f();
            let mut trace = vec![];
            let res = guarded(|| -> Result<(), String> {
                for _ in 0..ops {
                    match r.below(10) {
                        0..=4 => {
                            if r.chance(p_remove) && !ids.is_empty() {
                                let k = r.below(ids.len());
                                trace.push(format!("remove #{k}"));
                                let got = a.remove(ids[k].0);
                                if got != ids[k].1 {
                                    return Err(format!("remove gives {got:?} instead of {:?}", ids[k].1));
                                }
                                ids[k].1 = None;
                            } else {
                                next += 1;
                                trace.push(format!("insert {next}"));
                                let id = a.insert(next);
                                if ids.iter().any(|(i, _)| *i == id) {
                                    return Err(format!("the id {id:?} of {next} was given out before"));
                                }
                                ids.push((id, Some(next)));
                            }
                        }
                        5 => {
                            let live: Vec<usize> = (0..ids.len()).filter(|i| ids[*i].1.is_some()).collect();
                            if !live.is_empty() {
                                let k = *r.pick(&live);
                                a[ids[k].0] += 1_000_000;
                                ids[k].1 = ids[k].1.map(|x| x + 1_000_000);
                                trace.push(format!("change #{k}"));
                            }
                        }
                        6 => {
                            let n = r.below(50);
                            trace.push(format!("reserve {n}"));
                            a.reserve(n);
                            v.reserve(n);
                        }
                        7 => {
                            a = a.clone();
                            v = v.clone();
                        }
                        8 => {
                            next += 1;
                            let id = v.insert(next);
                            if id != Num(vm.len()) {
                                return Err(format!("the {}. value of a vector has id {id:?}", vm.len()));
                            }
                            vm.push(next);
                        }
                        _ => {
                            if !vm.is_empty() {
                                let k = r.below(vm.len());
                                v[Num(k)] += 7;
                                vm[k] += 7;
                            }
                        }
                    }
                    // Observe everything
                    let live: Vec<(Id, u64)> = ids.iter().filter_map(|(i, x)| x.map(|x| (*i, x))).collect();
                    if a.len() != live.len() {
                        return Err(format!("len is {} instead of {}", a.len(), live.len()));
                    }
                    if a.size() < live.len() {
                        return Err(format!("capacity {} below len {}", a.size(), live.len()));
                    }
                    let mut seen: Vec<(Id, u64)> = a.iter().map(|(i, x)| (i, *x)).collect();
                    seen.sort_by_key(|x| x.1);
                    let mut want = live.clone();
                    want.sort_by_key(|x| x.1);
                    if seen != want {
                        return Err(format!("iter gives {seen:?} instead of {want:?}"));
                    }
                    for (i, x) in &ids {
                        if a.get(*i).copied() != *x || a.contains(*i) != x.is_some() {
                            return Err(format!("get({i:?}) is {:?}, contains is {}; it stands for {x:?}", a.get(*i), a.contains(*i)));
                        }
                        if let Some(x) = x {
                            if a[*i] != *x {
                                return Err(format!("[{i:?}] is {} instead of {x}", a[*i]));
                            }
                        }
                    }
                    let seen: Vec<(Num, u64)> = v.iter().map(|(i, x)| (i, *x)).collect();
                    if seen != vm.iter().cloned().enumerate().map(|(i, x)| (Num(i), x)).collect::<Vec<_>>() {
                        return Err(format!("vector: iter gives {seen:?} instead of {vm:?}"));
                    }
                    for (i, x) in vm.iter().enumerate() {
                        if v[Num(i)] != *x {
                            return Err(format!("vector: [{i}] is {} instead of {x}", v[Num(i)]));
                        }
                    }
                }
                // An id of a removed value must not silently access another one.
                for (i, _) in ids.iter().filter(|(_, x)| x.is_none()).take(4) {
                    if guarded(|| a[*i]).is_ok() {
                        return Err(format!("[{i:?}] of a removed value gives {}", a[*i]));
                    }
                    if guarded(|| a[*i] += 1).is_ok() {
                        return Err(format!("[{i:?}] of a removed value can be changed"));
                    }
                }
                let mut all: Vec<u64> = a.clone().into_iter().collect();
                all.sort();
                let mut want: Vec<u64> = ids.iter().filter_map(|x| x.1).collect();
                want.sort();
                if all != want {
                    return Err(format!("into_iter gives {all:?} instead of {want:?}"));
                }
                let all: Vec<u64> = v.clone().into_iter().collect();
                if all != vm {
                    return Err(format!("vector: into_iter gives {all:?} instead of {vm:?}"));
                }
                Ok(())
            });
            QUIET.with(|q| q.set(false));
            rep.count("operations", ops as u64);
            let reused = ids.iter().enumerate().filter(|(k, (i, _))| ids[..*k].iter().any(|(j, _)| Index::from(*j).into_raw_parts().0 == Index::from(*i).into_raw_parts().0)).count();
            rep.count("reused_slots", reused as u64);
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => rep.violation(format!("after {trace:?}: {e}")),
                Err(e) => rep.violation(format!("after {trace:?}: panic: {e}")),
            }
            if ops > 3 {
                rep.nontrivial(&trace);
                rep.sample(|| trace.join("; "));
            }
            if rep.violations.len() > 3 {
                return;
            }
        }
    })
}

/// Many elements, looked at now and then.
fn large(c: &Ctx, r: &mut Rng, rep: &mut Report) {
    for _ in 0..c.n(2, 12) {
        rep.case();
        let limit = *r.pick(&[300, 2_000, 70_000]);
        let p_remove = r.uniform(0.05, 0.6);
        let mut live: Vec<(Id, u64)> = vec![];
        let mut dead: Vec<Id> = vec![];
        let mut a: IndexedArena<Id, u64> = Default::default();
        let mut v: IndexedVec<Num, u64> = Default::default();
        let mut given = std::collections::HashSet::new();
        let res = guarded(|| -> Result<(), String> {
            for k in 0..limit as u64 {
                if r.chance(0.001) {
                    let n = r.range(0, 5000);
                    a.reserve(n);
                    v.reserve(n);
                }
                if r.chance(p_remove) && !live.is_empty() {
                    let j = r.below(live.len());
                    let (id, x) = live.swap_remove(j);
                    if a.remove(id) != Some(x) {
                        return Err(format!("removing {id:?} does not give {x}"));
                    }
                    if a.get(id).is_some() || a.contains(id) {
                        return Err(format!("{id:?} is still there after its removal"));
                    }
                    dead.push(id);
                } else {
                    let id = a.insert(k);
                    if !given.insert(Index::from(id).into_raw_parts()) {
                        return Err(format!("{id:?} was given out twice"));
                    }
                    live.push((id, k));
                }
                if v.insert(k) != Num(k as usize) {
                    return Err(format!("the {k}. value of a vector has another index"));
                }
                if !live.is_empty() {
                    let (id, x) = *r.pick(&live);
                    if a.get(id) != Some(&x) || a[id] != x || !a.contains(id) {
                        return Err(format!("{id:?} of {} gives {:?} instead of {x}", live.len(), a.get(id)));
                    }
                }
                if !dead.is_empty() {
                    let id = *r.pick(&dead);
                    if a.get(id).is_some() || a.contains(id) {
                        return Err(format!("{id:?} was removed and gives {:?}", a.get(id)));
                    }
                }
                let j = r.below(k as usize + 1);
                if v[Num(j)] != j as u64 {
                    return Err(format!("vector: [{j}] of {k} is {}", v[Num(j)]));
                }
                if a.len() != live.len() {
                    return Err(format!("len is {} instead of {}", a.len(), live.len()));
                }
                if k % (limit as u64 / 5) == 0 {
                    if r.chance(0.5) {
                        a = a.clone();
                        v = v.clone();
                    }
                    let mut seen: Vec<(u64, Id)> = a.iter().map(|(i, x)| (*x, i)).collect();
                    let mut want: Vec<(u64, Id)> = live.iter().map(|(i, x)| (*x, *i)).collect();
                    seen.sort_by_key(|x| x.0);
                    want.sort_by_key(|x| x.0);
                    if seen != want {
                        return Err(format!("iter of {} elements gives {} or other ones", want.len(), seen.len()));
                    }
                    if v.iter().map(|(i, x)| (i.0, *x)).collect::<Vec<_>>() != (0..=k).map(|x| (x as usize, x)).collect::<Vec<_>>() {
                        return Err(format!("vector: iter of {k} elements gives other ones"));
                    }
                }
            }
            Ok(())
        });
        QUIET.with(|q| q.set(false));
        rep.count("operations", 2 * limit as u64);
        rep.maximum("most_elements", live.len() as f64);
        rep.nontrivial(&("large", limit, live.len()));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.violation(format!("after up to {limit} operations: {e}")),
            Err(e) => rep.violation(format!("after up to {limit} operations: panic: {e}")),
        }
    }
}

pub fn counters(c: &Ctx) -> Report {
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 800 + w as u64);
        for _ in 0..c.n(9000, 60_000) {
            rep.case();
            let dirs = *r.pick(&[1, 2, 3, 5, 16, 21, 32, 64, 84, 300]);
            let value = if r.chance(0.1) { *r.pick(&[254, 255, 256, 300, 65_535, 65_536, 1 << 33]) } else { r.below(6) };
            let mut m = vec![value; dirs];
            let mut trace = vec![format!("new {dirs} {value}")];
            let res = guarded(|| -> Result<(), String> {
                let mut d = CountByDir::new(dirs, value);
                if CountByDir::empty().total() != 0 {
                    return Err("an empty counter has a total".into());
                }
                for _ in 0..r.range(0, 60) {
                    let k = r.below(dirs);
                    match r.below(4) {
                        0 => {
                            trace.push(format!("[{k}] += 2"));
                            d[DirectionIndex(k)] += 2;
                            m[k] += 2;
                        }
                        _ => {
                            if m[k] > 0 {
                                trace.push(format!("reduce {k}"));
                                m[k] -= 1;
                                let got = d.reduce(DirectionIndex(k));
                                if got != m[k] {
                                    return Err(format!("reduce({k}) gives {got} instead of {}", m[k]));
                                }
                            }
                        }
                    }
                    for (i, x) in m.iter().enumerate() {
                        if d[DirectionIndex(i)] != *x {
                            return Err(format!("[{i}] is {} instead of {x}", d[DirectionIndex(i)]));
                        }
                    }
                    if d.total() != m.iter().sum::<usize>() {
                        return Err(format!("total is {} instead of {}", d.total(), m.iter().sum::<usize>()));
                    }
                }
                Ok(())
            });
            QUIET.with(|q| q.set(false));
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => rep.violation(format!("after {trace:?}: {e}")),
                Err(e) => rep.violation(format!("after {trace:?}: panic: {e}")),
            }
            rep.count("operations", trace.len() as u64);
            if trace.len() > 3 {
                rep.nontrivial(&trace);
                rep.sample(|| trace.join("; "));
            }
        }
    })
}

pub fn node_index(_c: &Ctx) -> Report {
    use subsweep::verif_core::quadtree::*;
    let mut rep = Report::new();
    let mut seen = std::collections::BTreeSet::new();
    for child in std::iter::once(None).chain((0..NUM_CHILDREN as u8).map(Some)) {
        rep.case();
        match guarded(|| (encode(child), decode(encode(child)), display(encode(child)))) {
            Err(e) => rep.violation(format!("encoding of child {child:?}: panic: {e}")),
            Ok((num, back, text)) => {
                rep.check(back == child, || format!("{child:?} is encoded as {num} and comes back as {back:?}"));
                rep.check(seen.insert(num), || format!("{num} stands for two nodes"));
                rep.check(text == child.map(|x| x.to_string()).unwrap_or_default(), || format!("{child:?} is displayed as {text}"));
                rep.nontrivial(&num);
            }
        }
    }
    rep
}
