//! Monitors of the communication layer. Every rank of an MPI job runs this binary. All ranks draw
//! the same random history of operations from the seed, so that each of them knows what every
//! other rank contributes, and compares what it gets with a sequential model of the operation.
use crate::support::*;
use glam::{DVec2, DVec3};
use mpi::request::scope;
use mpi::traits::*;
use subsweep::communication::communicator::Communicator as World;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::{CommunicatedOption, DataByRank, ExchangeCommunicator, MpiWorld, Rank, SizedCommunicator, MPI_UNIVERSE};
use subsweep::sweep::DirectionIndex;
use subsweep::verif_core::{Extent, PeanoKey2d, PeanoKey3d};

/// Something that can be sent, made from a number, and described down to its bits.
pub trait Payload: Equivalence + Clone + 'static {
    const NAME: &'static str;
    fn make(x: u64) -> Self;
    fn text(&self) -> String;
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn float(x: u64) -> f64 {
    match x % 11 {
        0 => -0.0,
        1 => f64::MIN_POSITIVE / 8.0,
        2 => f64::MAX,
        3 => f64::INFINITY,
        _ => f64::from_bits((mix(x) & !(0x7ff << 52)) | ((1023 - 300 + mix(x ^ 5) % 600) << 52)),
    }
}

impl Payload for u8 {
    const NAME: &'static str = "u8";
    fn make(x: u64) -> Self {
        mix(x) as u8
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl Payload for i32 {
    const NAME: &'static str = "i32";
    fn make(x: u64) -> Self {
        mix(x) as i32
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl Payload for u64 {
    const NAME: &'static str = "u64";
    fn make(x: u64) -> Self {
        mix(x)
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl Payload for usize {
    const NAME: &'static str = "usize";
    fn make(x: u64) -> Self {
        mix(x) as usize
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl Payload for f64 {
    const NAME: &'static str = "f64";
    fn make(x: u64) -> Self {
        float(x)
    }
    fn text(&self) -> String {
        format!("{:016x}", self.to_bits())
    }
}
impl Payload for PeanoKey2d {
    const NAME: &'static str = "key2d";
    fn make(x: u64) -> Self {
        PeanoKey2d(mix(x))
    }
    fn text(&self) -> String {
        format!("{:x}", self.0)
    }
}
impl Payload for PeanoKey3d {
    const NAME: &'static str = "key3d";
    fn make(x: u64) -> Self {
        PeanoKey3d((mix(x) as u128) << 64 | mix(x ^ 99) as u128)
    }
    fn text(&self) -> String {
        format!("{:x}", self.0)
    }
}
impl Payload for DirectionIndex {
    const NAME: &'static str = "direction";
    fn make(x: u64) -> Self {
        DirectionIndex(mix(x) as usize)
    }
    fn text(&self) -> String {
        self.0.to_string()
    }
}

fn v2t(v: DVec2) -> String {
    format!("({:016x} {:016x})", v.x.to_bits(), v.y.to_bits())
}
fn v3t(v: DVec3) -> String {
    format!("({:016x} {:016x} {:016x})", v.x.to_bits(), v.y.to_bits(), v.z.to_bits())
}
/// `Extent` is sent for any transportable point type; glam's vectors are not.
#[derive(Clone, Copy, Equivalence, Debug, PartialEq)]
pub struct P2 {
    x: f64,
    y: f64,
}
#[derive(Clone, Copy, Equivalence, Debug, PartialEq)]
pub struct P3 {
    x: f64,
    y: f64,
    z: f64,
}
macro_rules! extent_payload {
    ($p: ty, $name: literal, $make: expr, $text: expr) => {
        impl Payload for Extent<$p> {
            const NAME: &'static str = $name;
            fn make(x: u64) -> Self {
                // Not made of min and max, so that each of the three fields has to be sent.
                Extent {
                    min: $make(x),
                    max: $make(x ^ 0x10000),
                    center: $make(x ^ 0x4000),
                }
            }
            fn text(&self) -> String {
                format!("min {} max {} center {}", $text(self.min), $text(self.max), $text(self.center))
            }
        }
    };
}
extent_payload!(P2, "extent2d", |x: u64| P2 { x: float(x), y: float(x ^ 77) }, |p: P2| v2t(DVec2::new(p.x, p.y)));
extent_payload!(
    P3,
    "extent3d",
    |x: u64| P3 {
        x: float(x),
        y: float(x ^ 77),
        z: float(x ^ 78)
    },
    |p: P3| v3t(DVec3::new(p.x, p.y, p.z))
);

#[derive(Clone, Equivalence, Debug, PartialEq)]
pub struct Mixed {
    a: u8,
    b: f64,
    c: [i32; 3],
    d: bool,
    e: u16,
}
impl Payload for Mixed {
    const NAME: &'static str = "struct";
    fn make(x: u64) -> Self {
        Mixed {
            a: mix(x) as u8,
            b: float(x),
            c: [mix(x ^ 1) as i32, mix(x ^ 2) as i32, mix(x ^ 3) as i32],
            d: mix(x ^ 4) & 1 == 1,
            e: mix(x ^ 6) as u16,
        }
    }
    fn text(&self) -> String {
        format!("{} {:016x} {:?} {} {}", self.a, self.b.to_bits(), self.c, self.d, self.e)
    }
}
impl<T: Payload> Payload for CommunicatedOption<T>
where
    Option<T>: From<CommunicatedOption<T>>,
{
    const NAME: &'static str = "option";
    fn make(x: u64) -> Self {
        if mix(x ^ 0x77) % 3 == 0 {
            None::<T>.into()
        } else {
            Some(T::make(x)).into()
        }
    }
    fn text(&self) -> String {
        match Option::<T>::from(self.clone()) {
            None => format!("None::<{}>", T::NAME),
            Some(x) => format!("Some::<{}>({})", T::NAME, x.text()),
        }
    }
}

fn texts<T: Payload>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| x.text()).collect()
}
fn same<T: Payload>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.text() == y.text())
}
fn brief<T: Payload>(a: &[T]) -> String {
    let n = a.len();
    format!("{} elements {:?}{}", n, texts(&a[..n.min(4)]), if n > 4 { "…" } else { "" })
}
/// Where two vectors differ, for the report.
fn difference<T: Payload>(got: &[T], want: &[T]) -> String {
    let i = (0..got.len().min(want.len())).find(|i| got[*i].text() != want[*i].text());
    format!(
        "got {} instead of {}{}",
        brief(got),
        brief(want),
        i.map(|i| format!(", first difference at {i}: {} instead of {}", got[i].text(), want[i].text())).unwrap_or_default()
    )
}

/// Run a monitor as one rank of a job. Each rank writes its own report.
pub fn run(c: &Ctx, f: fn(&Ctx) -> Report) -> ! {
    let rank = job().rank;
    let out = format!("{}.{rank}", c.out);
    match std::panic::catch_unwind(|| f(c)) {
        Ok(rep) => {
            rep.write(&out);
            MPI_UNIVERSE.drop();
            std::process::exit(0)
        }
        Err(e) => {
            let mut rep = Report::new();
            rep.violation(format!("rank {rank} was ended by a panic: {}", panic_text(&e)));
            rep.write(&out);
            std::process::exit(86)
        }
    }
}

struct Job {
    rank: Rank,
    size: usize,
}
fn job() -> Job {
    let c = MpiWorld::<u64>::new();
    Job {
        rank: c.rank(),
        size: c.size(),
    }
}

fn content<T: Payload>(op: u64, from: usize, to: usize, n: usize) -> Vec<T> {
    (0..n).map(|i| T::make(op.wrapping_mul(1 << 40) ^ ((from as u64) << 32) ^ ((to as u64) << 24) ^ i as u64)).collect()
}

fn length(r: &mut Rng, heavy: bool) -> usize {
    match r.below(8) {
        0 | 1 => 0,
        2 => 1,
        3 | 4 => r.range(2, 20),
        5 => r.range(20, 300),
        6 => r.range(300, 3000),
        // beyond every eager limit
        _ => {
            if heavy && r.chance(0.3) {
                // more than sixteen bits count
                r.range(65_000, 140_000)
            } else if heavy {
                r.range(3000, 40_000)
            } else {
                r.range(20, 500)
            }
        }
    }
}

/// One use of an exchange: who sends how much to whom, and how.
fn exchange<T: Payload>(comm: &mut ExchangeCommunicator<T>, j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let me = j.rank as usize;
    let kind = r.below(4);
    let heavy = r.chance(0.15);
    let sparse = r.f();
    let mut n = vec![vec![0usize; j.size]; j.size];
    let mut absent = vec![vec![false; j.size]; j.size];
    for a in 0..j.size {
        for b in 0..j.size {
            n[a][b] = if r.chance(sparse) { length(r, heavy) } else { 0 };
            absent[a][b] = n[a][b] == 0 && r.chance(0.5);
            if kind == 1 {
                n[a][b] = n[a][0];
            }
        }
    }
    let mut want: Vec<Vec<T>> = vec![];
    for a in 0..j.size {
        let to = if kind == 1 { 0 } else { me };
        want.push(if a == me { vec![] } else { content(op, a, to, n[a][me].min(if kind >= 2 { 40 } else { usize::MAX })) });
    }
    let got: DataByRank<Vec<T>> = match kind {
        0 => {
            let mut d: DataByRank<Vec<T>> = DataByRank::empty();
            let mut order: Vec<usize> = (0..j.size).filter(|b| *b != me && !absent[me][*b]).collect();
            if r.chance(0.5) {
                order.reverse();
            }
            for b in order {
                d.insert(b as Rank, content(op, me, b, n[me][b]));
            }
            comm.exchange_all(d)
        }
        1 => comm.exchange_same_for_all(&content::<T>(op, me, 0, n[me][0])),
        _ => {
            // Small messages only: a blocking send of a large one may wait for its receiver.
            for b in 0..j.size {
                if b != me && !absent[me][b] {
                    comm.blocking_send_vec(b as Rank, content(op, me, b, n[me][b].min(40)));
                }
            }
            if kind == 3 {
                comm.empty_send_to_others();
            }
            comm.receive_vec()
        }
    };
    let others: Vec<Rank> = (0..j.size as Rank).filter(|x| *x != j.rank).collect();
    let ranks: Vec<Rank> = got.iter().map(|(x, _)| x).collect();
    rep.check(ranks == others, || format!("rank {me} of {}: exchange {op} of {} returned entries for ranks {ranks:?}", j.size, T::NAME));
    for (from, v) in got.iter() {
        rep.count("messages checked", 1);
        rep.count("elements checked", v.len() as u64);
        rep.check(same(v, &want[from as usize]), || {
            format!("rank {me} of {}: exchange {op} (kind {kind}) of {} from rank {from}: {}", j.size, T::NAME, difference(v, &want[from as usize]))
        });
    }
    rep.nontrivial(&(T::NAME, kind, n, j.size));
    rep.count(&format!("exchanges of kind {kind}"), 1);
}

/// Several messages in flight between the same ranks, received in order, with and without waiting.
fn point_to_point<T: Payload>(j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let me = j.rank as usize;
    let mut comm: MpiWorld<T> = if r.chance(0.5) { MpiWorld::new() } else { MpiWorld::new_custom_tag(r.range(1, 3000) as i32) };
    let k = r.range(1, 6);
    let heavy = r.chance(0.1);
    let mut n = vec![vec![vec![0usize; k]; j.size]; j.size];
    for a in n.iter_mut() {
        for b in a.iter_mut() {
            for m in b.iter_mut() {
                *m = length(r, heavy);
            }
        }
    }
    let nonblocking = r.chance(0.5);
    let to_self = r.chance(0.3);
    let wait_guard = r.chance(0.5);
    let mut data: Vec<(usize, Vec<T>)> = vec![];
    for m in 0..k {
        for b in 0..j.size {
            if b != me || to_self {
                data.push((b, content(op ^ ((m as u64) << 10), me, b, n[me][b][m])));
            }
        }
    }
    let senders: Vec<usize> = (0..j.size).filter(|b| *b != me || to_self).collect();
    let mut got: Vec<Vec<Vec<T>>> = vec![vec![]; j.size];
    scope(|scope| {
        let mut guards = vec![];
        let mut requests = vec![];
        for (b, v) in data.iter() {
            if wait_guard {
                guards.push(comm.immediate_send_vec_wait_guard(scope, *b as Rank, v));
            } else {
                requests.push(comm.immediate_send_vec(scope, *b as Rank, v));
            }
        }
        if nonblocking {
            while senders.iter().any(|a| got[*a].len() < k) {
                for a in senders.iter() {
                    if got[*a].len() < k {
                        if let Some(v) = comm.try_receive_vec(*a as Rank) {
                            got[*a].push(v);
                        }
                    }
                }
            }
        } else {
            let mut order: Vec<usize> = senders.iter().flat_map(|a| vec![*a; k]).collect();
            r.clone().shuffle(&mut order);
            for a in order {
                got[a].push(comm.receive_vec(a as Rank));
            }
        }
        for q in requests.into_iter().flatten() {
            q.wait();
        }
    });
    for a in senders {
        for m in 0..k {
            let want: Vec<T> = content(op ^ ((m as u64) << 10), a, me, n[a][me][m]);
            rep.count("messages checked", 1);
            rep.count("elements checked", want.len() as u64);
            rep.check(same(&got[a][m], &want), || {
                format!("rank {me} of {}: message {m} of {k} ({}) from rank {a} in operation {op}: {}", j.size, T::NAME, difference(&got[a][m], &want))
            });
        }
    }
    // Everything has been received: there must be nothing more.
    MPI_UNIVERSE.barrier();
    for a in 0..j.size {
        let more = comm.try_receive_vec(a as Rank);
        rep.check(more.is_none(), || format!("rank {me} of {}: a message from rank {a} ({}) in operation {op} that nobody sent", j.size, T::NAME));
    }
    MPI_UNIVERSE.barrier();
    rep.nontrivial(&(T::NAME, n, nonblocking, wait_guard));
    rep.count("point to point histories", 1);
}

#[derive(Clone)]
struct Typed<const N: i32>(i32);
unsafe impl<const N: i32> Equivalence for Typed<N> {
    type Out = <i32 as Equivalence>::Out;
    fn equivalent_datatype() -> Self::Out {
        i32::equivalent_datatype()
    }
}

/// A message, with or without waiting for it.
fn receive<T: Equivalence>(comm: &mut MpiWorld<T>, from: Rank, wait: bool) -> Vec<T> {
    if wait {
        return comm.receive_vec(from);
    }
    loop {
        if let Some(v) = comm.try_receive_vec(from) {
            return v;
        }
    }
}

/// Messages of different types and tags do not mix, in whatever order they are received.
macro_rules! type_separation {
    ($j: expr, $op: expr, $r: expr, $rep: expr, $($n: literal)*) => {{
        let next = (($j.rank as usize + 1) % $j.size) as Rank;
        let prev = (($j.rank as usize + $j.size - 1) % $j.size) as Rank;
        let reverse = $r.chance(0.5);
        let wait = $r.chance(0.5);
        $(MpiWorld::<Typed<$n>>::new().blocking_send_vec(next, &[Typed($j.rank * 1000 + $n)]);)*
        let mut receivers: Vec<Box<dyn Fn(&mut Report)>> = vec![];
        $(receivers.push(Box::new(move |rep: &mut Report| {
            let got: Vec<i32> = receive(&mut MpiWorld::<Typed<$n>>::new(), prev, wait).iter().map(|x| x.0).collect();
            rep.check(got == [prev * 1000 + $n], || format!("the message of type {} from rank {prev} arrived as {:?}", $n, got));
            rep.count("messages checked", 1);
        }));)*
        if reverse { receivers.reverse(); } else { $r.clone().shuffle(&mut receivers); }
        for f in receivers { f($rep); }
        $rep.count("type separations", 1);
    }};
}

fn tag_separation(j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let next = ((j.rank as usize + 1) % j.size) as Rank;
    let prev = ((j.rank as usize + j.size - 1) % j.size) as Rank;
    let base = r.range(0, 20_000) as i32;
    let k = r.range(2, 9);
    let mut tags: Vec<i32> = (0..k).map(|i| base + i as i32 * if r.chance(0.5) { 1 } else { 256 }).collect();
    tags.sort();
    tags.dedup();
    for t in tags.iter() {
        MpiWorld::<u64>::new_custom_tag(*t).blocking_send_vec(next, &[op, *t as u64, j.rank as u64]);
    }
    let mut order = tags.clone();
    r.shuffle(&mut order);
    for t in order {
        let got = receive(&mut MpiWorld::<u64>::new_custom_tag(t), prev, r.chance(0.5));
        rep.count("messages checked", 1);
        rep.check(got == [op, t as u64, prev as u64], || format!("rank {} of {}: the message with tag {t} from rank {prev} is {got:?}", j.rank, j.size));
    }
    rep.count("tag separations", 1);
}

fn chunks(j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let me = j.rank as usize;
    for style in 0..8 {
        let size = *r.pick(&[1usize, 2, 3, 7, 10, 64, 1000, 40_000]);
        let few = 1 + r.below(6);
        let only = r.below(j.size);
        let n: Vec<usize> = (0..j.size)
            .map(|rank| match style {
                // less than a chunk everywhere, or on a single rank
                0 => r.below(size),
                1 if rank != only => 0,
                1 => r.below(size),
                // whole chunks, one more, one less
                2 => size * few,
                3 => size * few + usize::from(rank == only),
                4 => size * few - usize::from(rank == only),
                // many rounds
                5 => r.range(0, size * (20_000 / size + 8)),
                _ => match r.below(5) {
                    0 => 0,
                    1 => size * r.range(0, 6),
                    2 => size * r.range(1, 6) - 1,
                    3 => size * r.range(0, 6) + 1,
                    _ => r.range(0, size * 8),
                },
            })
            .collect();
        let items: Vec<u64> = content(op, me, 0, n[me]);
        let num = n.iter().map(|x| (x + size - 1) / size).max().unwrap();
        let got: Vec<Vec<u64>> = divide_into_chunks_with_same_num_globally(&items, size).map(|c| c.to_vec()).collect();
        let flat: Vec<u64> = got.iter().flatten().cloned().collect();
        rep.check(got.len() == num, || format!("rank {me}: {} chunks instead of {num} for {n:?} items in chunks of {size}", got.len()));
        rep.check(flat == items, || format!("rank {me}: the chunks are not the items ({n:?} items, chunks of {size})"));
        rep.check(got.iter().all(|c| c.len() <= size), || format!("rank {me}: a chunk is larger than {size}"));
        rep.count("chunked divisions", 1);
        rep.nontrivial(&("chunks", size, n));
    }
}

pub fn exchanges(c: &Ctx) -> Report {
    let j = job();
    let mut rep = Report::new();
    let mut r = Rng::new(c.seed, 7000 + j.size as u64);
    let mut a: ExchangeCommunicator<u8> = ExchangeCommunicator::new();
    let mut b: ExchangeCommunicator<f64> = ExchangeCommunicator::from(World::new());
    let mut d: ExchangeCommunicator<Mixed> = ExchangeCommunicator::new();
    let mut e: ExchangeCommunicator<PeanoKey3d> = ExchangeCommunicator::new();
    let mut f: ExchangeCommunicator<CommunicatedOption<Mixed>> = ExchangeCommunicator::new();
    let mut g: ExchangeCommunicator<u64> = ExchangeCommunicator::from(World::new_custom_tag(17));
    let all: Vec<Rank> = (0..j.size as Rank).collect();
    let others: Vec<Rank> = all.iter().cloned().filter(|x| *x != j.rank).collect();
    rep.check(a.all_ranks() == all && g.communicator.all_ranks() == all, || format!("all_ranks of {} ranks is {:?}", j.size, a.all_ranks()));
    rep.check(a.other_ranks() == others && g.communicator.other_ranks() == others, || format!("other_ranks of rank {} is {:?}", j.rank, a.other_ranks()));
    let ops = c.n(200, 200);
    for op in 0..ops as u64 {
        rep.case();
        // all ranks draw the same numbers
        let mut q = Rng::new(r.u64(), op);
        if q.chance(0.7) && j.size > 1 {
            match q.below(6) {
                0 => exchange(&mut a, &j, op, &mut q, &mut rep),
                1 => exchange(&mut b, &j, op, &mut q, &mut rep),
                2 => exchange(&mut d, &j, op, &mut q, &mut rep),
                3 => exchange(&mut e, &j, op, &mut q, &mut rep),
                4 => exchange(&mut f, &j, op, &mut q, &mut rep),
                _ => exchange(&mut g, &j, op, &mut q, &mut rep),
            }
            // Not every exchange is followed by a point of synchronisation: a fast rank may
            // already be in the next ones.
            continue;
        }
        MPI_UNIVERSE.barrier();
        match q.below(9) {
            0 | 1 => point_to_point::<i32>(&j, op, &mut q, &mut rep),
            2 => point_to_point::<Mixed>(&j, op, &mut q, &mut rep),
            3 => point_to_point::<CommunicatedOption<PeanoKey3d>>(&j, op, &mut q, &mut rep),
            4 => point_to_point::<f64>(&j, op, &mut q, &mut rep),
            5 => type_separation!(j, op, q, &mut rep, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24),
            6 | 7 => tag_separation(&j, op, &mut q, &mut rep),
            _ => chunks(&j, op, &mut q, &mut rep),
        }
        MPI_UNIVERSE.barrier();
    }
    // An exchange of everything with nothing.
    for _ in 0..3 {
        if j.size > 1 {
            let got = g.receive_vec();
            rep.check(got.iter().all(|(_, v)| v.is_empty()), || "an exchange of nothing returned something".into());
        }
    }
    let seen = format!("{} ranks: {:?}", j.size, rep.counters);
    rep.sample(|| seen.clone());
    MPI_UNIVERSE.barrier();
    rep
}

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Sum128(i128);
impl From<i32> for Sum128 {
    fn from(x: i32) -> Self {
        Sum128(x as i128)
    }
}
impl std::iter::Sum<Sum128> for Sum128 {
    fn sum<I: Iterator<Item = Sum128>>(iter: I) -> Self {
        Sum128(iter.map(|x| x.0).sum())
    }
}

fn gather<T: Payload>(j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let mut comm: MpiWorld<T> = if r.chance(0.5) { MpiWorld::new() } else { MpiWorld::new_custom_tag(r.range(0, 30_000) as i32) };
    let all: Vec<T> = (0..j.size).map(|a| content(op, a, 0, 1).remove(0)).collect();
    let got = comm.all_gather(&all[j.rank as usize]);
    rep.check(same(&got, &all), || format!("rank {} of {}: all_gather of {}: {}", j.rank, j.size, T::NAME, difference(&got, &all)));
    let heavy = r.chance(0.1);
    let n: Vec<usize> = (0..j.size).map(|_| length(r, heavy)).collect();
    let mine: Vec<T> = content(op, j.rank as usize, 1, n[j.rank as usize]);
    let want: Vec<T> = (0..j.size).flat_map(|a| content(op, a, 1, n[a])).collect();
    let got = comm.all_gather_varcount(&mine);
    rep.check(same(&got, &want), || format!("rank {} of {}: all_gather_varcount of {} ({n:?} elements): {}", j.rank, j.size, T::NAME, difference(&got, &want)));
    rep.count("gathers", 2);
    rep.count("elements checked", (all.len() + want.len()) as u64);
    rep.nontrivial(&(T::NAME, n));
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * scale
}

fn reductions(j: &Job, r: &mut Rng, rep: &mut Report) {
    let me = j.rank as usize;
    let style = r.below(4);
    let f: Vec<f64> = (0..j.size)
        .map(|_| match style {
            0 => r.irange(-3, 3) as f64,
            1 => r.uniform(-1.0, 1.0),
            2 => -r.log_uniform(1e-250, 1e250),
            _ => r.log_uniform(1e-250, 1e250),
        })
        .collect();
    let mut comm = MpiWorld::<f64>::new();
    let sum: f64 = comm.all_gather_sum(&f[me]);
    let min: Option<f64> = comm.all_gather_min(&f[me]);
    let max: Option<f64> = comm.all_gather_max(&f[me]);
    let scale: f64 = f.iter().map(|x| x.abs()).sum();
    let w = (f.iter().sum::<f64>(), f.iter().cloned().fold(f64::INFINITY, f64::min), f.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    rep.check(close(sum, w.0, scale) && min == Some(w.1) && max == Some(w.2), || format!("rank {me} of {}: sum, min, max of {f:?} are {sum} {min:?} {max:?}", j.size));
    // every rank gets the same sum, to the last bit
    rep.check(comm.all_ranks_have_same_value(&sum.to_bits()), || format!("rank {me}: the ranks do not agree on the sum of {f:?}, {sum} here"));

    let i: Vec<i32> = (0..j.size).map(|_| if style == 0 { r.irange(-2, 2) as i32 } else { r.u64() as i32 }).collect();
    let mut comm = MpiWorld::<i32>::new();
    let sum: Sum128 = comm.all_gather_sum(&i[me]);
    let min: Option<i32> = comm.all_gather_min(&i[me]);
    let max: Option<i64> = comm.all_gather_max(&i[me]);
    let w = i.iter().map(|x| *x as i128).sum::<i128>();
    rep.check(sum.0 == w && min == i.iter().min().cloned() && max == i.iter().max().map(|x| *x as i64), || {
        format!("rank {me} of {}: sum, min, max of {i:?} are {sum:?} {min:?} {max:?}", j.size)
    });

    let u: Vec<u64> = (0..j.size).map(|_| if style == 0 { r.below(3) as u64 } else { r.u64() >> r.range(8, 40) }).collect();
    let mut comm = MpiWorld::<u64>::new();
    let sum = comm.all_reduce_sum(&u[me]);
    rep.check(sum == u.iter().sum::<u64>(), || format!("rank {me} of {}: the reduced sum of {u:?} is {sum}", j.size));
    // also from a communicator for some other type
    let sum = MpiWorld::<Mixed>::new().all_reduce_sum(&u[me]);
    rep.check(sum == u.iter().sum::<u64>(), || format!("rank {me} of {}: the reduced sum of {u:?} is {sum}", j.size));
    let sum: u64 = comm.all_gather_sum(&u[me]);
    rep.check(sum == u.iter().sum::<u64>(), || format!("rank {me} of {}: the gathered sum of {u:?} is {sum}", j.size));

    // The same value everywhere, or all but one rank, which may be any.
    let odd = r.below(j.size + 1);
    let base = r.u64();
    let v = if me == odd { base ^ (1 << r.below(64)) } else { base };
    let want = odd == j.size || j.size == 1;
    let got = comm.all_ranks_have_same_value(&v);
    rep.check(got == want, || format!("rank {me} of {}: all_ranks_have_same_value is {got}, with a different value on rank {odd}", j.size));
    let got = MpiWorld::<i32>::new().all_ranks_have_same_value(&(v as f64));
    if want {
        rep.check(got, || format!("rank {me} of {}: all_ranks_have_same_value is false for the same number", j.size));
    }
    rep.count("reductions", 8);
    rep.nontrivial(&(f.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), i, u, odd));
}

/// A collective entered with different tags is refused on every rank, when assertions are on.
fn mismatched(j: &Job, r: &mut Rng, rep: &mut Report) {
    if !cfg!(debug_assertions) || j.size < 2 || !refuses_mismatch(j) {
        return;
    }
    let odd = r.below(j.size) as Rank;
    let mut comm = MpiWorld::<i32>::new_custom_tag(if j.rank == odd { 5 } else { 4 });
    let k = r.below(4);
    let res = guarded(|| match k {
        0 => drop(comm.all_gather(&1)),
        1 => drop(comm.all_gather_sum::<i64>(&1)),
        2 => drop(comm.all_gather_min::<i64>(&1)),
        _ => drop(comm.all_gather_max::<i64>(&1)),
    });
    rep.count("mismatched collectives", 1);
    rep.check(res.is_err(), || format!("rank {} of {}: a collective (kind {k}) was let through although rank {odd} used another tag", j.rank, j.size));
}

/// Whether the crate under test was built with its assertions.
fn refuses_mismatch(_: &Job) -> bool {
    option_env!("VERIF_NO_ASSERTIONS").is_none()
}

pub fn collectives(c: &Ctx) -> Report {
    let j = job();
    let mut rep = Report::new();
    let mut r = Rng::new(c.seed, 7100 + j.size as u64);
    for op in 0..c.n(150, 1500) as u64 {
        rep.case();
        let mut q = Rng::new(r.u64(), op);
        match q.below(12) {
            0 => gather::<u8>(&j, op, &mut q, &mut rep),
            1 => gather::<f64>(&j, op, &mut q, &mut rep),
            2 => gather::<Mixed>(&j, op, &mut q, &mut rep),
            3 => gather::<PeanoKey3d>(&j, op, &mut q, &mut rep),
            4 => gather::<CommunicatedOption<Extent<P3>>>(&j, op, &mut q, &mut rep),
            5 => gather::<usize>(&j, op, &mut q, &mut rep),
            6 => mismatched(&j, &mut q, &mut rep),
            7 => chunks(&j, op, &mut q, &mut rep),
            _ => reductions(&j, &mut q, &mut rep),
        }
    }
    let seen = format!("{} ranks: {:?}", j.size, rep.counters);
    rep.sample(|| seen.clone());
    MPI_UNIVERSE.barrier();
    rep
}

/// Values survive packing, unpacking and every way of sending them, bit by bit.
fn transport_of<T: Payload>(j: &Job, op: u64, r: &mut Rng, rep: &mut Report) {
    let me = j.rank as usize;
    let world = MPI_UNIVERSE.world();
    let n = r.range(1, 40);
    let values: Vec<T> = content(op, me, 3, n);
    let before = texts(&values);
    // one at a time into something else
    for v in values.iter() {
        let mut other = T::make(r.u64());
        let bytes = world.pack(v);
        unsafe { world.unpack_into(&bytes, &mut other, 0) };
        rep.check(other.text() == v.text(), || format!("{}: {} came out of pack and unpack as {}", T::NAME, v.text(), other.text()));
        let copy = v.clone();
        rep.check(copy.text() == v.text(), || format!("{}: the clone of {} is {}", T::NAME, v.text(), copy.text()));
    }
    // an array of them
    let mut others: Vec<T> = content(op ^ 99, me, 4, n);
    let bytes = world.pack(&values[..]);
    unsafe { world.unpack_into(&bytes, &mut others[..], 0) };
    rep.check(same(&others, &values), || format!("{}: pack and unpack of several: {}", T::NAME, difference(&others, &values)));
    // around the ring
    let next = ((me + 1) % j.size) as Rank;
    let prev = (me + j.size - 1) % j.size;
    let mut comm = MpiWorld::<T>::new();
    let got = scope(|s| {
        let _guard = comm.immediate_send_vec_wait_guard(s, next, &values);
        comm.receive_vec(prev as Rank)
    });
    let want: Vec<T> = content(op, prev, 3, n);
    rep.check(same(&got, &want), || format!("rank {me} of {}: {} from rank {prev}: {}", j.size, T::NAME, difference(&got, &want)));
    let got = comm.all_gather(&values[0]);
    let want: Vec<T> = (0..j.size).map(|a| content(op, a, 3, 1).remove(0)).collect();
    rep.check(same(&got, &want), || format!("rank {me} of {}: gathered {}: {}", j.size, T::NAME, difference(&got, &want)));
    // sending does not change what is sent
    rep.check(texts(&values) == before, || format!("{}: sending changed {:?} to {:?}", T::NAME, before, texts(&values)));
    rep.count(&format!("values of type {}", std::any::type_name::<T>().replace("subsweep::", "").replace("verif_core::comm::", "")), 3 * n as u64);
    rep.nontrivial(&(std::any::type_name::<T>(), before));
}

/// Exchange of options, keys and extents in and out of `Option`.
pub fn transport(c: &Ctx) -> Report {
    let j = job();
    let mut rep = Report::new();
    let mut r = Rng::new(c.seed, 740 + j.size as u64);
    for op in 0..c.n(400, 4000) as u64 {
        rep.case();
        let mut q = Rng::new(r.u64(), op);
        macro_rules! any {
            ($($i: literal $t: ty)*) => { match op % 16 { $($i => transport_of::<$t>(&j, op, &mut q, &mut rep),)* _ => unreachable!() } };
        }
        any!(0 u8 1 PeanoKey2d 2 PeanoKey3d 3 DirectionIndex 4 Extent<P2> 5 Extent<P3> 6 Mixed
             7 CommunicatedOption<u8> 8 CommunicatedOption<f64> 9 CommunicatedOption<PeanoKey3d> 10 CommunicatedOption<Mixed>
             11 CommunicatedOption<Extent<P3>> 12 CommunicatedOption<DirectionIndex> 13 CommunicatedOption<CommunicatedOption<i32>>
             14 CommunicatedOption<PeanoKey2d> 15 CommunicatedOption<Extent<P2>>);
    }
    let seen = format!("{} ranks: {:?}", j.size, rep.counters);
    rep.sample(|| seen.clone());
    MPI_UNIVERSE.barrier();
    rep
}
