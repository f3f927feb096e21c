//! Monitors of how the entries of files are divided between ranks.
use crate::support::*;
use subsweep::io::verif_core::*;

fn sizes(r: &mut Rng, max_files: usize) -> Vec<usize> {
    let n = if r.chance(0.02) { r.range(1, 20 * max_files) } else { r.range(1, max_files) };
    let style = r.below(7);
    (0..n)
        .map(|_| match style {
            0 => r.range(0, 3),
            1 => r.range(0, 1) * r.range(1, 20),
            2 => r.range(0, 200),
            3 => if r.chance(0.7) { 0 } else { r.range(1, 9) },
            4 => if r.chance(0.1) { r.range(1_000_000, 5_000_000_000) } else { r.range(0, 50) },
            5 => (r.u64() >> r.range(9, 60)) as usize,
            _ => r.range(1, 40),
        })
        .collect()
}

/// The regions of all ranks, one after the other, have to be exactly the slots of all files in
/// order, and the r-th rank has to have `expected[r]` of them.
fn monitor(rep: &mut Report, files: &[usize], per_rank: &[Result<Vec<Region>, String>], expected: &[usize], what: &str) -> bool {
    let (mut file, mut pos) = (0usize, 0usize);
    let bad = |s: String| format!("{what} files={files:?} entries per rank={expected:?}: {s}");
    for (rank, regions) in per_rank.iter().enumerate() {
        let regions = match regions {
            Ok(r) => r,
            Err(e) => {
                rep.violation(bad(format!("rank {rank}: panic: {e}")));
                return false;
            }
        };
        let mut got = 0;
        for g in regions {
            rep.count("regions", 1);
            if g.end < g.start || g.file_index >= files.len() || g.end > files[g.file_index] {
                rep.violation(bad(format!("rank {rank} has a region outside of its file: {g:?}")));
                return false;
            }
            if g.start == g.end || g.size() != g.end - g.start {
                rep.violation(bad(format!("rank {rank} has a region of no or wrong size: {g:?} size {}", g.size())));
                return false;
            }
            while file < files.len() && pos == files[file] {
                file += 1;
                pos = 0;
            }
            if g.file_index != file || g.start != pos {
                rep.violation(bad(format!("rank {rank}: the next slot is {file}:{pos}, but the region is {g:?} (gap, overlap or order)")));
                return false;
            }
            pos = g.end;
            got += g.end - g.start;
        }
        if got != expected[rank] {
            rep.violation(bad(format!("rank {rank} has {got} entries instead of {}", expected[rank])));
            return false;
        }
    }
    while file < files.len() && pos == files[file] {
        file += 1;
        pos = 0;
    }
    if file != files.len() {
        rep.violation(bad(format!("entries from file {file} position {pos} on belong to no rank")));
        return false;
    }
    true
}

pub fn input(c: &Ctx) -> Report {
    let n = c.n(120_000, 600_000);
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 100 + w as u64);
        let mut run = |rep: &mut Report, files: &[usize], ranks: usize| {
            rep.case();
            let total: usize = files.iter().sum();
            let per_rank: Vec<_> = (0..ranks)
                .map(|k| guarded(|| get_rank_input_assignment_for_rank(files, ranks, k as i32).regions))
                .collect();
            // Balanced: no rank but the last may hold more than its share, and nobody less.
            let share = total / ranks;
            let got: Vec<usize> = per_rank.iter().map(|x| x.as_ref().map(|v| v.iter().map(|g| g.end.wrapping_sub(g.start)).fold(0usize, |a, b| a.wrapping_add(b))).unwrap_or(0)).collect();
            let ok = monitor(rep, files, &per_rank, &got, "input:");
            if ok {
                for (k, g) in got.iter().enumerate() {
                    let max = share + total % ranks;
                    if *g < share || *g > max {
                        rep.violation(format!("input: files={files:?} ranks={ranks}: rank {k} reads {g} entries, shares are {share}..={max}"));
                    }
                }
            }
            if total > 0 && ranks > 1 {
                rep.nontrivial(&(files, ranks));
                rep.count("ranks_observed", ranks as u64);
                if files.contains(&0) {
                    rep.count("cases_with_empty_files", 1);
                }
                if total < ranks {
                    rep.count("cases_with_fewer_entries_than_ranks", 1);
                }
                if ranks > 2 && files.len() > 3 && files.len() < 8 && total < 100 {
                    rep.sample(|| format!("files={files:?} ranks={ranks} -> {:?}", per_rank.iter().map(|x| x.as_ref().unwrap().iter().map(|g| (g.file_index, g.start, g.end)).collect::<Vec<_>>()).collect::<Vec<_>>()));
                }
            }
        };
        // All small ones first.
        let lim = c.n(4, 5);
        let mut all = vec![vec![]];
        for _ in 0..c.n(4, 5) {
            let mut next = vec![];
            for a in &all {
                for x in 0..lim {
                    let mut b: Vec<usize> = a.clone();
                    b.push(x);
                    next.push(b);
                }
            }
            for (i, f) in next.iter().enumerate() {
                if i % 8 == w {
                    for ranks in 1..=7 {
                        run(rep, f, ranks);
                    }
                }
            }
            all = next;
        }
        for _ in 0..n / 8 {
            let mut files = sizes(&mut r, 12);
            let ranks = if r.chance(0.02) { r.range(64, 700) } else if r.chance(0.2) { r.range(1, 64) } else { r.range(1, 9) };
            if r.chance(0.3) {
                // boundaries of ranks that coincide with those of files
                let share = r.range(0, 6);
                files = (0..r.range(1, 10)).map(|_| share * r.range(0, 3)).collect();
            }
            run(rep, &files, ranks);
        }
    })
}

pub fn output(c: &Ctx) -> Report {
    let n = c.n(120_000, 600_000);
    parallel(8, |w, rep| {
        let mut r = Rng::new(c.seed, 200 + w as u64);
        let mut run = |rep: &mut Report, per_rank: &[usize], num_files: usize| {
            rep.case();
            let total: usize = per_rank.iter().sum();
            let regions: Vec<_> = (0..per_rank.len())
                .map(|k| guarded(|| get_rank_output_assignment_for_rank(per_rank, num_files, k as i32).regions))
                .collect();
            // The sizes of the files are what the regions say they are: every file has to be filled from its start.
            let mut files = vec![0; num_files];
            for g in regions.iter().flatten().flatten() {
                if g.file_index < num_files {
                    files[g.file_index] = files[g.file_index].max(g.end);
                }
            }
            let ok = monitor(rep, &files, &regions, per_rank, "output:");
            if ok {
                let share = total / num_files;
                let max = share + total % num_files;
                for (k, f) in files.iter().enumerate() {
                    if *f < share || *f > max {
                        rep.violation(format!("output: entries per rank={per_rank:?} files={num_files}: file {k} gets {f} entries, shares are {share}..={max}"));
                    }
                }
            }
            if total > 0 && (num_files > 1 || per_rank.len() > 1) {
                rep.nontrivial(&(per_rank, num_files));
                if per_rank.contains(&0) {
                    rep.count("cases_with_idle_ranks", 1);
                }
                if total < num_files {
                    rep.count("cases_with_fewer_entries_than_files", 1);
                }
                if per_rank.len() > 3 && num_files > 2 && total < 100 {
                    rep.sample(|| format!("per_rank={per_rank:?} files={num_files} -> {:?}", regions.iter().map(|x| x.as_ref().unwrap().iter().map(|g| (g.file_index, g.start, g.end)).collect::<Vec<_>>()).collect::<Vec<_>>()));
                }
            }
        };
        let lim = c.n(4, 5);
        let mut all = vec![vec![]];
        for _ in 0..c.n(4, 5) {
            let mut next = vec![];
            for a in &all {
                for x in 0..lim {
                    let mut b: Vec<usize> = a.clone();
                    b.push(x);
                    next.push(b);
                }
            }
            for (i, f) in next.iter().enumerate() {
                if i % 8 == w {
                    for files in 1..=7 {
                        run(rep, f, files);
                    }
                }
            }
            all = next;
        }
        for _ in 0..n / 8 {
            let per_rank = sizes(&mut r, 16);
            let files = if r.chance(0.02) { r.range(64, 700) } else if r.chance(0.2) { r.range(1, 70) } else { r.range(1, 9) };
            run(rep, &per_rank, files);
        }
    })
}
