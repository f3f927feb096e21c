"""Which monitors decide which property."""

CORE_ASSUMPTIONS = [
    "the part of /repo that builds without its missing dependencies is compiled unchanged (items are only left out)",
    "rsmpi 0.7 and Open MPI 4.1.6 as installed",
]


def core(*names):
    return [("core", n) for n in names]


# Job sizes, delays and synchronous sends of the monitored MPI jobs.
QUICK_JOBS = [(1, 0, 0), (2, 0, 0), (2, 10, 60), (3, 5, 30), (4, 0, 100), (5, 10, 0), (6, 3, 50), (8, 2, 20), (11, 0, 0), (1, 0, 0), (2, 0, 100), (3, 0, 0), (4, 5, 20), (2, 0, 0), (7, 0, 0), (5, 2, 100), (3, 15, 0)]

SUPPORT_JOBS = [(2, 10, 60), (3, 5, 30), (4, 0, 100), (8, 2, 20)]


def mpi(name):
    return [("mpi", name)]


def full(*names):
    return [("full", n) for n in names]


def fullmpi(name, jobs):
    return [("fullmpi", name, jobs)]


def app(name):
    return [("app", name)]


FULL_ASSUMPTIONS = [
    "all of /repo is compiled unchanged, with stand-ins (shims/) for the dependencies that are not in this sandbox: bevy's scheduler and storage, diman's unit checks, HDF5",
    "rsmpi 0.7 and Open MPI 4.1.6 as installed",
]

NOT_APPLICABLE = {}

CHECKS = {
    "P01": dict(
        steps=core("input"),
        rule="random and hostile lists of file sizes and rank counts; non-trivial: several files or several ranks with something to read; distinct by (file sizes, ranks)",
    ),
    "P02": dict(
        steps=core("output"),
        rule="random numbers of entries per rank and of files; non-trivial: more than one rank or file; distinct by (entries, files)",
    ),
    "P03": dict(
        steps=core("keys"),
        rule="runs of consecutive cells of the curve at every level, whole curves at coarse levels, random and boundary positions in random boxes; distinct by (box, level, start)",
    ),
    "P04": dict(
        steps=core("signs"),
        rule="random, integer, nearly and exactly singular matrices and predicates, compared with exact rational arithmetic; non-trivial: singular, nearly singular or decided by exact arithmetic",
    ),
    "P05": dict(
        steps=core("solvers"),
        rule="random systems and simplices of widely different scales and conditions, residuals in exact arithmetic; non-trivial: regular systems",
    ),
    "P06": dict(
        steps=mpi("exchanges"),
        rule="random histories of exchanges, point-to-point messages, tags and types on 1 to 8 ranks with injected delays and synchronous sends; every message checked by its receiver and once more in the recorded logs; distinct by (type, kind, message sizes)",
    ),
    "P07": dict(
        steps=mpi("collectives"),
        rule="random histories of collective operations on 1 to 8 ranks compared with a sequential model; distinct by operation and contributions",
    ),
    "P08": dict(
        steps=core("data_by_rank"),
        rule="random histories of operations on a container per rank, compared after every operation with an ordered map; distinct by history",
    ),
    "P09": dict(
        steps=mpi("transport") + [("miri", "options")],
        rule="values of every transportable type, packed, sent around, gathered and cloned, compared bit by bit; distinct by type and values",
    ),
    "P10": dict(
        steps=core("arenas"),
        rule="random histories of insertions, removals, lookups and reservations compared with a map model; distinct by history",
    ),
    "P11": dict(
        steps=core("extents"),
        rule="random and boundary boxes, point sets and vectors at many scales against exact or elementary formulas; distinct by case",
    ),
    "P12": dict(
        steps=core("directions"),
        rule="every tabulated direction set, many seeds of the rotation generator and millions of rotated vectors; distinct by seed and direction",
    ),
    "P13": dict(
        steps=core("counters", "node_index"),
        rule="random histories of counter operations compared with plain vectors, all children of a node; distinct by history",
    ),
    "P14": dict(
        steps=full("delaunay"),
        support=core("signs", "solvers", "arenas"),
        assumptions=FULL_ASSUMPTIONS,
        rule="incremental triangulations of random, clustered and disturbed lattice point sets in two and three dimensions, checked after insertions with exact arithmetic; distinct by point set; then its predicates, solvers and collections on their own",
    ),
    "P15": dict(
        steps=full("voronoi") + fullmpi("grid", [(1, 0, 0), (2, 0, 0), (3, 5, 30), (4, 0, 100), (5, 10, 0), (8, 2, 20), (1, 0, 0), (2, 10, 60), (6, 3, 50), (7, 0, 0), (3, 0, 0), (4, 10, 10), (2, 0, 0), (3, 5, 30), (4, 0, 100), (5, 0, 50)]),
        tolerated=0.7,
        support=core("solvers", "arenas") + mpi("exchanges"),
        assumptions=FULL_ASSUMPTIONS,
        rule="cells of random point sets, of single grids and of grids built by 1 to 8 ranks in periodic and closed boxes, compared with cells cut out of space plane by plane; non-trivial: several ranks or a periodic box; distinct by positions; then solvers, collections and exchanges on their own",
    ),
    "P16": dict(
        steps=fullmpi("domain", [(1, 0, 0), (2, 0, 0), (2, 10, 60), (3, 5, 30), (4, 0, 100), (5, 10, 0), (6, 3, 50), (8, 2, 20)]),
        support=mpi("exchanges") + mpi("collectives"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random, clustered and lattice-like particles on 1 to 8 ranks; non-trivial: several ranks; distinct by positions; then exchanges and collectives on their own",
    ),
    "P17": dict(
        steps=full("boxes", "search"),
        support=core("extents", "node_index"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random and boundary points in random boxes and random search trees, compared with formulas over all images; non-trivial: something is found; distinct by box, points, radius; then extents and node numbers on their own",
    ),
    "P18": dict(
        steps=fullmpi("sweep", [(1, 0, 0), (2, 0, 0), (3, 5, 30), (4, 0, 100), (5, 10, 0), (2, 10, 60), (6, 3, 50), (8, 2, 20), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 5, 0), (7, 3, 30), (3, 10, 50), (2, 0, 0), (4, 0, 0)]) + fullmpi("rotated", [(1, 0, 0), (3, 0, 0)]),
        support=core("counters"),
        assumptions=FULL_ASSUMPTIONS,
        rule="histories of several steps of sweeps on random grids divided arbitrarily between 1 to 8 ranks, compared cell by cell with a sequential model; distinct by (positions, step); then counters on their own",
    ),
    "P19": dict(
        steps=fullmpi("messages", [(1, 0, 0), (2, 0, 0), (2, 10, 60), (3, 5, 30), (3, 10, 50), (4, 0, 100), (5, 10, 50), (6, 3, 50), (8, 2, 20), (8, 10, 50)]),
        support=mpi("exchanges"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random histories of sends, receives and drops on 1 to 8 ranks with injected delays and synchronous sends; distinct by (sizes, round); then messages of all kinds on their own",
    ),
    "P20": dict(
        steps=full("timesteps"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random numbers of levels, largest timesteps and desired timesteps over the steps of a simulation; distinct by these",
    ),
    "P21": dict(
        steps=full("chemistry"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random states of gas, photon rates, densities, timesteps and scale factors, compared with rates and a reference integration written out independently; distinct by state",
    ),
    "P22": dict(
        steps=fullmpi("io", [(1, 0, 0), (2, 0, 0), (3, 5, 30), (4, 0, 100), (5, 10, 0), (2, 10, 60), (6, 3, 50), (8, 2, 20)]),
        support=core("input", "output") + mpi("collectives"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random particles in random numbers of files with random units, random output schedules, files and fields on 1 to 8 ranks; every entry of every file of the output is read back and compared; distinct by plan of the run; then the division into files and the collectives on their own",
    ),
    "P23": dict(
        steps=app("app"),
        support=core("input", "output") + mpi("collectives"),
        assumptions=FULL_ASSUMPTIONS,
        rule="runs of the program itself on 1 to 6 ranks with generated initial conditions and parameters; snapshots compared with the initial conditions, with a reference calculation, and between numbers of ranks; non-trivial: a run that came to its end; distinct by parameters and particles; then the division into files and the collectives on their own",
    ),
    "P24": dict(
        steps=full("parameters"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random parameter files and command lines for sections of all shapes and for those of the program, compared with a map of values; misprints of all kinds; non-trivial: something is overridden; distinct by file and command line",
    ),
    "P25": dict(
        steps=full("cosmology"),
        assumptions=FULL_ASSUMPTIONS,
        rule="random flat cosmologies, scale factors, times and units, compared with a numerical integration; distinct by cosmology and scale factors",
    ),
    "P26": dict(
        steps=fullmpi("cartesian", [(1, 0, 0), (2, 0, 0), (3, 0, 0), (5, 0, 0), (8, 0, 0)]),
        assumptions=FULL_ASSUMPTIONS,
        rule="Cartesian grids of random boxes and cells on 1 to 8 ranks, compared site by site with the lattice; distinct by box and cells",
    ),
    "P27": dict(
        steps=app("series"),
        support=core("output") + mpi("collectives"),
        assumptions=FULL_ASSUMPTIONS,
        rule="runs of the program itself on 1 to 5 ranks that write a snapshot after every step; time series and derived fields compared with what follows from the particles in the snapshot; distinct by parameters and particles; then the division into files and the collectives on their own",
    ),
    "P28": dict(
        steps=fullmpi("schedule", [(1, 0, 0), (2, 0, 0), (3, 5, 30), (4, 0, 100), (5, 10, 0), (8, 2, 20)]),
        assumptions=FULL_ASSUMPTIONS,
        rule="random sequences of parts, systems in random stages with and without a given order (in an order that the scheduler may choose), runs with random steps and ends, and timers, on 1 to 8 ranks; the calls are compared with what the documentation of each says; distinct by parts, systems and runs",
    ),
    "P29": dict(
        steps=full("units"),
        assumptions=FULL_ASSUMPTIONS + ["the table of units and constants of /repo is evaluated by the stand-in for diman, which also reads and writes quantities"],
        rule="random numbers in every unit, in text and in code, random states of gas, comoving lengths and vectors, compared with values from the literature; distinct by number",
    ),
}


def execute(R, check, total, tier, seed, scratch):
    thorough = tier == "thorough"
    seeds = [seed] if not thorough else [seed + 1000 * i for i in range(3)]
    variants = ["debug", "release"]
    kinds = {s[0] for s in check["steps"]}
    binaries = {}
    if kinds & {"core", "mpi"}:
        for v in variants:
            binaries[v] = R.build_core(v)
    steps = check["steps"]
    if kinds & {"full", "fullmpi", "app"}:
        try:
            binaries["full"] = R.build_full()
            if "app" in kinds:
                binaries["app"] = R.build_full(bin="app")
        except R.NoAnswer as e:
            if "support" not in check:
                raise
            # What is left is what the property rests on, and the evidence says so.
            steps = []
            total.notes.append(f"NOT OBSERVED: the whole program cannot be built, only parts of it were observed. {e}"[:3000])
            print("INCOMPLETE: the whole program cannot be built, only parts of it are observed", flush=True)
    for step in steps:
        kind = step[0]
        if total.unknown():
            break
        if kind == "core":
            for i, s in enumerate(seeds):
                R.monitor(total, binaries["debug"], step[1], tier, s, scratch, 3000 if thorough else 400)
            # once more as a user builds it
            if not total.unknown():
                R.monitor(total, binaries["release"], step[1], "quick", seed + 77, scratch, 400, label="without assertions: ")
        elif kind == "mpi":
            jobs = QUICK_JOBS if not thorough else [(n, d, s) for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16) for d in (0, 3, 15) for s in (0, 40, 100)]
            for i, (n, d, s) in enumerate(jobs):
                R.mpi_job(total, binaries[variants[i % 2] if n > 1 else "debug"], [step[1], tier if not thorough or n <= 8 else "quick", str(seed + i), "{out}"], n, seed + i, scratch, 300, delay=d, sync=s)
                if total.unknown():
                    break
        elif kind == "full":
            for s in seeds:
                R.monitor(total, binaries["full"], step[1], tier, s, scratch, 3000 if thorough else 400)
        elif kind == "fullmpi":
            quick_jobs, ended = step[2], 0
            jobs = quick_jobs if not thorough else [(n, d, s) for _ in range(3) for n in (1, 2, 3, 4, 5, 6, 7, 8) for d, s in ((0, 0), (5, 40), (15, 100))]
            for i, (n, d, s) in enumerate(jobs):
                before = len(total.violations)
                R.mpi_job(total, binaries["full"], [step[1], tier, str(seed + 100 * i), "{out}"], n, seed + i, scratch, 400, delay=d, sync=s, order=seed + i if i % 3 else None, chunk=[None, 5, None, 60, 17][i % 5])
                if total.unknown():
                    break
                ended += len(total.violations) > before
            if ended > check.get("tolerated", 1.0) * len(jobs):
                total.violation(step[1], f"{ended} of {len(jobs)} jobs ended with what is known to happen to some")
        elif kind == "app":
            # The monitor starts the program itself, again and again.
            env = R.environment(VERIF_APP=binaries["app"], VERIF_MPIMON=R.build_mpimon())
            for s in seeds:
                R.monitor(total, binaries["full"], step[1], tier, s, scratch, 3000 if thorough else 600, env=env)
                if total.unknown():
                    break
        elif kind == "miri":
            R.miri(total, step[1], tier, seed, scratch)
        else:
            raise R.NoAnswer(f"unknown step {kind}")


    # What the property rests on, as far as it is also there without the rest of the program. There may be no such
    # part of a changed program; then the steps above decide alone.
    for kind, name in check.get("support", []):
        if total.unknown():
            break
        try:
            core = {v: R.build_core(v) for v in variants}
            if kind == "core":
                R.monitor(total, core["debug"], name, tier, seed, scratch, 3000 if thorough else 400)
                if not total.unknown():
                    R.monitor(total, core["release"], name, "quick", seed + 77, scratch, 400, label="without assertions: ")
            else:
                for i, (n, d, s) in enumerate(SUPPORT_JOBS if not thorough else QUICK_JOBS):
                    R.mpi_job(total, core[variants[i % 2]], [name, "quick", str(seed + i), "{out}"], n, seed + i, scratch, 300, delay=d, sync=s)
                    if total.unknown():
                        break
        except R.NoAnswer as e:
            total.notes.append(f"{name}: {e}")


def setup(R):
    R.build_full()
    R.build_full(bin="app")
