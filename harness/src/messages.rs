//! The communicator of the sweeps: whatever the order of calls, every rate arrives once, in order
//! and unchanged, and a communicator that goes away takes nothing with it.
use crate::sim::*;
use crate::support::*;
use subsweep::communication::{DataByRank, SizedCommunicator};
use subsweep::prelude::*;
use subsweep::sweep::{DirectionIndex, RateData, SweepCommunicator};
use subsweep::units::PhotonRate;
use subsweep::verif_full::HydrogenOnly;

type Data = RateData<HydrogenOnly>;

fn make(from: usize, to: usize, k: usize, round: usize) -> Data {
    let h = hash_of(&(from, to, k, round));
    Data {
        id: ParticleId { index: h as u32, rank: to as i32 },
        dir: DirectionIndex((h >> 40) as usize),
        rate: PhotonRate::new_unchecked(f64::from_bits(0x4000000000000000 + (h & 0xfffffffffffff)) * if h & 64 == 0 { 1.0 } else { -1e40 }),
        periodic: h & 128 != 0,
    }
}

fn same(a: &Data, b: &Data) -> bool {
    a.id == b.id && a.dir == b.dir && a.rate.value_unchecked().to_bits() == b.rate.value_unchecked().to_bits() && a.periodic == b.periodic
}

pub fn messages(c: &Ctx) -> Report {
    let mut r = Report::new();
    let j = job();
    let mut mine = Rng::new(c.seed, 900 + j.rank as u64);
    for round in 0..c.n(80, 400) {
        // the same on all ranks: how many from whom to whom
        let mut g = Rng::new(c.seed, 5000 + round as u64);
        let long = g.chance(0.2);
        let plan: Vec<Vec<usize>> = (0..j.size).map(|a| (0..j.size).map(|b| if a == b || g.chance(0.3) { 0 } else { g.below(if long { 6000 } else { 40 }) }).collect()).collect();
        // the communicator may go away as soon as everything was handed over to it
        let early = g.chance(0.5);
        let mut comm = Some(SweepCommunicator::<HydrogenOnly>::new());
        let mut receiver = SweepCommunicator::<HydrogenOnly>::new();
        let mut to_send: DataByRank<Vec<Data>> = DataByRank::from_communicator(&receiver);
        let mut queued = vec![0; j.size];
        let mut got = vec![0; j.size];
        let mut batches = 0u64;
        watched(|| loop {
            let unsent: usize = to_send.iter().map(|(_, v)| v.len()).sum();
            let all_queued = (0..j.size).all(|b| queued[b] == plan[j.rank][b]);
            if let Some(s) = comm.as_mut() {
                for b in 0..j.size {
                    let left = plan[j.rank][b] - queued[b];
                    if left > 0 && mine.chance(0.5) {
                        for _ in 0..mine.range(1, left) {
                            to_send[b as i32].push(make(j.rank, b, queued[b], round));
                            queued[b] += 1;
                        }
                    }
                }
                if mine.chance(0.7) {
                    let before: usize = to_send.iter().map(|(_, v)| v.len()).sum();
                    s.try_send_all(&mut to_send);
                    let after: usize = to_send.iter().map(|(_, v)| v.len()).sum();
                    if after < before {
                        batches += 1;
                        r.check(s.count_remaining_to_send() >= before - after, || format!("round {round}: {} rates are being sent and {} remain", before - after, s.count_remaining_to_send()));
                    }
                }
                // (a rank that waits for its messages to be received receives none itself)
                let nothing_to_come = (0..j.size).all(|b| got[b] == plan[b][j.rank]);
                if all_queued && unsent == 0 && ((early && nothing_to_come) || { s.update_pending_requests(); s.count_remaining_to_send() == 0 }) {
                    if s.count_remaining_to_send() > 0 {
                        r.count("communicators dropped while sending", 1);
                    }
                    comm = None;
                }
            }
            for b in 0..j.size {
                if b != j.rank && got[b] < plan[b][j.rank] && (comm.is_none() || mine.chance(0.5)) {
                    if let Some(v) = receiver.try_recv(b as i32) {
                        for d in v {
                            let want = make(b, j.rank, got[b], round);
                            r.check(same(&d, &want), || format!("round {round}: rate {} from rank {b} to {} is {d:?}, not {want:?}", got[b], j.rank));
                            got[b] += 1;
                        }
                    }
                }
            }
            if r.violations.len() > 3 || (comm.is_none() && (0..j.size).all(|b| got[b] >= plan[b][j.rank])) {
                break;
            }
        });
        for b in 0..j.size {
            r.check(got[b] == plan[b][j.rank], || format!("round {round}: {} rates from rank {b}, not {}", got[b], plan[b][j.rank]));
        }
        r.count("batches", batches);
        r.count("rates received", got.iter().sum::<usize>() as u64);
        r.case();
        r.nontrivial(&(plan.clone(), round));
        if round < 3 {
            r.sample(|| format!("rates from rank to rank: {plan:?}"));
        }
        // what is dropped here was received everywhere
        let bad: f64 = gather(&[r.violations.len() as f64]).iter().flatten().sum();
        if bad > 0.0 {
            break;
        }
    }
    r
}
