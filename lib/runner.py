"""Builds the monitors against /repo's working tree, runs them, and writes verdict and evidence."""
import fcntl
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import checks
import mpitrace

ROOT = "/verif"
REPO = "/repo"
TARGET = f"{ROOT}/target"
BUILD = f"{ROOT}/build"
EVIDENCE = f"{ROOT}/evidence"
KNOWN = f"{ROOT}/known-findings.txt"


class NoAnswer(Exception):
    pass


def environment(**extra):
    keep = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "TERM", "USER")}
    env = dict(
        keep,
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME=os.environ.get("HOME", "/root"),
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self,vader",
        OMPI_MCA_pml="ob1",
        OMPI_MCA_oob_tcp_if_include="lo",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_mpi_yield_when_idle="1",
    )
    env.update(extra)
    return env


def run(cmd, timeout, env=None, cwd=None, memory=None):
    """Exit code and output. None as exit code: the watchdog ended it."""
    out = tempfile.TemporaryFile()
    # A process that asks for more than this is ended (by an abort) before it takes all there is.
    limit = (lambda: resource.setrlimit(resource.RLIMIT_AS, (memory, memory))) if memory else None
    p = subprocess.Popen(cmd, cwd=cwd, env=env or environment(), stdout=out, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limit)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
        used = processor_time(p.pid)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out.seek(0)
    text = out.read().decode(errors="replace")
    if rc is None:
        text += f"\nprocessor time when it was ended: {used:.0f} s"
    return rc, text


def processor_time(session):
    """The most processor time that any process of a session has used, in seconds."""
    most = 0.0
    for pid in filter(str.isdigit, os.listdir("/proc")):
        try:
            w = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if int(w[3]) == session:
            most = max(most, (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK"))
    return most


def must(cmd, timeout, what, **kw):
    rc, text = run(cmd, timeout, **kw)
    if rc != 0:
        errors = [l for l in text.split("\n") if l.startswith("error")]
        raise NoAnswer(f"{what} failed (exit {rc}): " + "\n".join(errors[:8]) + "\n" + text[-3000:])
    return text


# ---------------------------------------------------------------- builds

def build_view():
    """The part of /repo that builds without the dependencies that are not here."""
    prune = f"{TARGET}/prune"
    must(["cargo", "build", "--release", "-q", "--offline", "--locked", "--manifest-path", f"{ROOT}/prune/Cargo.toml", "--target-dir", prune], 600, "building prune")
    os.makedirs(f"{BUILD}/view", exist_ok=True)
    must([f"{prune}/release/prune", REPO, f"{BUILD}/view", f"{ROOT}/core/rules.txt"], 60, "taking the view of /repo")


def install(source, binary):
    """Also if an earlier run is still running it."""
    shutil.copy2(source, binary + ".new")
    os.replace(binary + ".new", binary)


def build_core(variant="debug"):
    build_view()
    flags, target = "--cfg subsweep_verif -Awarnings", f"{TARGET}/core"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", f"{ROOT}/core/Cargo.toml"]
    env = {}
    if variant == "release":
        # As a user runs it: without assertions and overflow checks in the code under test.
        cmd += ["--config", "profile.dev.package.subsweep.debug-assertions=false", "--config", "profile.dev.package.subsweep.overflow-checks=false"]
        env["VERIF_NO_ASSERTIONS"] = "1"
    elif variant == "asan":
        flags += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        target = f"{TARGET}/core-asan"
    must(cmd, 1200, f"building the core monitors ({variant})", cwd=f"{ROOT}/core", env=environment(RUSTFLAGS=flags, CARGO_TARGET_DIR=target, **env))
    if variant == "asan":
        return f"{target}/x86_64-unknown-linux-gnu/debug/verif-core"
    binary = f"{BUILD}/verif-core-{variant}"
    install(f"{target}/debug/verif-core", binary)
    return binary


def build_full(variant="debug", bin="harness"):
    """All of /repo, with stand-ins for the dependencies that are not here."""
    flags, target = "--cfg subsweep_verif -Awarnings", f"{TARGET}/full"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", f"{ROOT}/harness/Cargo.toml", "--bin", bin]
    if variant == "asan":
        flags += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        target = f"{TARGET}/full-asan"
    must(cmd, 1500, f"building the full monitors ({variant})", cwd=f"{ROOT}/harness", env=environment(RUSTFLAGS=flags, CARGO_TARGET_DIR=target))
    binary = f"{BUILD}/verif-{'full' if bin == 'harness' else bin}-{variant}"
    install(f"{target}/{'x86_64-unknown-linux-gnu/' if variant == 'asan' else ''}debug/{bin}", binary)
    return binary


def build_mpimon():
    lib, src = f"{TARGET}/libmpimon.so", f"{ROOT}/mpimon/mpimon.c"
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        must(["mpicc", "-O2", "-g", "-shared", "-fPIC", "-Wall", "-o", lib + ".tmp", src], 120, "building the MPI interposer")
        os.rename(lib + ".tmp", lib)
    return lib


# ---------------------------------------------------------------- steps

class Totals:
    def __init__(self, findings=()):
        self.findings = findings
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.violations = []
        self.steps = []
        self.notes = []

    def add(self, rep, where):
        self.evaluations += rep["evaluations"]
        self.distinct += rep["distinct_nontrivial"]
        for k, v in rep["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in rep["maxima"].items():
            try:
                v = float(v)
            except ValueError:
                continue
            self.maxima[k] = max(self.maxima.get(k, v), v)
        self.samples += [s[:400] for s in rep["samples"][: max(0, 6 - len(self.samples))]]
        for v in rep["violations"]:
            self.violations.append({"where": where, "what": v})

    def known(self, v):
        return [t for p, t in self.findings if re.search(p, v["what"])]

    def unknown(self):
        return [v for v in self.violations if not self.known(v)]

    def violation(self, where, what):
        self.violations.append({"where": where, "what": what})


def miri(total, name, tier, seed, scratch):
    """A monitor run by Miri: its report, and no undefined behaviour or leak on the way."""
    build_view()
    out = f"{scratch}/miri.json"
    env = environment(RUSTFLAGS="--cfg subsweep_verif -Awarnings", CARGO_TARGET_DIR=f"{TARGET}/miri", MIRIFLAGS="-Zmiri-disable-isolation")
    where = f"miri {name} {tier} {seed}"
    start = time.time()
    rc, text = run(["cargo", "miri", "run", "--offline", "--locked", "--", name, tier, str(seed), out], 900, env=env, cwd=f"{ROOT}/core")
    bad = [l for l in text.split("\n") if l.startswith("error: Undefined Behavior") or l.startswith("error: memory leaked") or "error: abnormal termination" in l]
    if os.path.exists(out):
        rep = json.load(open(out))
        total.add(rep, where)
        total.steps.append({"step": where, "evaluations": rep["evaluations"], "wall_s": round(time.time() - start, 2)})
    if bad:
        total.violation(where, excerpt(text, bad[0]))
    elif not os.path.exists(out) or rc != 0:
        raise NoAnswer(f"{where}: exit {rc}: {text[-2000:]}")


FATAL = {-signal.SIGSEGV: "segmentation fault", -signal.SIGABRT: "abort", -signal.SIGBUS: "bus error", -signal.SIGILL: "illegal instruction", -signal.SIGFPE: "arithmetic exception"}


def monitor(total, binary, name, tier, seed, scratch, timeout, env=None, label=""):
    """One process that runs one monitor."""
    out = f"{scratch}/{name}-{seed}.json"
    where = f"{label}{os.path.basename(binary)} {name} {tier} {seed}"
    start = time.time()
    rc, text = run([binary, name, tier, str(seed), out], timeout, env=env, memory=None if "asan" in binary else 20 << 30)
    if os.path.exists(out):
        rep = json.load(open(out))
        if rep["evaluations"] == 0 and not rep["violations"]:
            raise NoAnswer(f"{where} observed nothing")
        total.add(rep, where)
        total.steps.append({"step": where, "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"], "wall_s": round(time.time() - start, 2)})
        if rc != 0 and "AddressSanitizer" in text:
            total.violation(where, "AddressSanitizer: " + excerpt(text, "AddressSanitizer"))
    elif reported(text):
        # What was seen before it was ended.
        for v in reported(text):
            total.violation(where, v)
    elif rc in FATAL or "AddressSanitizer" in text:
        total.violation(where, f"the process was ended by {FATAL.get(rc, 'AddressSanitizer')}: {excerpt(text, 'ERROR: AddressSanitizer')}")
    else:
        raise NoAnswer(f"{where}: exit {rc}, no report: {text[-1500:]}")


def reported(text):
    return [l[len("violation: "):][:2000] for l in text.split("\n") if l.startswith("violation: ")][:20]


def excerpt(text, marker):
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if marker in l:
            return " | ".join(x.strip() for x in lines[i:i + 8])[:1200]
    return text[-600:]


def mpi_job(total, binary, args, ranks, seed, scratch, timeout, delay=0, sync=0, max_us=300, what="", extra=None, cwd=None, order=None, chunk=None):
    """A monitored MPI job. Each rank leaves a report `report.<rank>`."""
    lib = build_mpimon()
    d = tempfile.mkdtemp(dir=scratch)
    out = f"{d}/report"
    env = environment(**(extra or {}))
    settings = {"MPIMON_DIR": d, "MPIMON_SEED": str(seed), "MPIMON_DELAY": str(delay), "MPIMON_SYNC": str(sync), "MPIMON_MAX_US": str(max_us), "LD_PRELOAD": lib}
    if order is not None:
        # Systems of the program without a declared order run in one of the possible orders.
        settings["VERIF_ORDER"] = str(order)
    if chunk is not None:
        # What is done in chunks is done in small ones.
        settings["VERIF_CHUNK"] = str(chunk)
    cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(ranks)]
    for k, v in settings.items():
        cmd += ["-x", f"{k}={v}"]
    cmd += [binary] + [a.replace("{out}", out).replace("{dir}", d) for a in args]
    where = f"{what or args[0]} on {ranks} ranks, seed {seed}, delays {delay}%, synchronous sends {sync}%"
    start = time.time()
    rc, text = run(cmd, timeout, env=env, cwd=cwd or d)
    logs = mpitrace.read(d)
    if len(logs) < ranks:
        raise NoAnswer(f"{where}: the job did not start (exit {rc}): {text[-1500:]}")
    reports = [json.load(open(f"{out}.{r}")) for r in range(ranks) if os.path.exists(f"{out}.{r}")]
    complete = rc == 0 and len(reports) == ranks
    bad, stats, _ = mpitrace.check(d, ranks, complete)
    n = sum(len(r["violations"]) for r in reports)
    if rc is None and not bad and not n:
        used = float(re.findall(r"processor time when it was ended: (\d+) s", text)[-1])
        if reported(text):
            bad = reported(text)
        elif used > timeout / 2:
            # Not for want of a processor: it takes a few seconds.
            bad = [f"the job did not end within {used:.0f} s of processor time"]
        else:
            raise NoAnswer(f"{where}: the watchdog ended it: {text[-800:]}")
    for r in reports:
        total.add(r, where)
    for b in bad[:10]:
        total.violation(where, b)
    if not complete and not bad and not n:
        total.violation(where, f"the job was ended (exit {rc}) by {mpi_death(text)}")
    for k, v in stats.items():
        k = f"mpi {k}"
        total.counters[k] = total.counters.get(k, 0) + v
    total.counters["mpi jobs"] = total.counters.get("mpi jobs", 0) + 1
    total.steps.append({"step": where, "evaluations": sum(r["evaluations"] for r in reports), "events": stats.get("messages sent", 0) + stats.get("messages received", 0) + stats.get("collectives", 0), "wall_s": round(time.time() - start, 2)})
    shutil.rmtree(d, ignore_errors=True)
    return reports


def mpi_death(text):
    for marker in ("panicked at", "*** MPI_ERR", "An error occurred in", "Segmentation fault", "exited on signal"):
        if marker in text:
            return excerpt(text, marker)
    return text[-600:]


# ---------------------------------------------------------------- verdict

def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].strip().partition(" match=")
                if head.split()[0] == f"property={pid}":
                    pattern, _, text = what.partition(" :: ")
                    out.append((pattern.strip(), text.strip()))
    return out


def main(argv):
    if argv[:1] == ["setup"]:
        return setup()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = checks.CHECKS[pid]
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    start = time.time()
    total = Totals(known_findings(pid))
    lock = open(f"{BUILD}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    scratch = tempfile.mkdtemp(dir=BUILD, prefix="run-")
    evidence = f"{EVIDENCE}/{pid}.json"
    try:
        checks.execute(sys.modules[__name__], check, total, tier, seed, scratch)
        if total.evaluations == 0 and not total.violations:
            raise NoAnswer("nothing was observed")
    except (NoAnswer, OSError, ValueError, KeyError) as e:
        # Something may have been seen before: a violation is a violation.
        if not total.unknown():
            print(f"no answer for {pid}: {e}", flush=True)
            return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    new, known = [], []
    for v in total.violations:
        hit = total.known(v)
        (known if hit else new).append((v, hit))
    for text in sorted({h[0] for _, h in known}):
        print(f"KNOWN-FINDING: property={pid} {text}")
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct,
            "rule": check["rule"],
            "samples": total.samples or ["(none)"],
            "observed": total.counters,
            "largest_deviations": total.maxima,
            "steps": total.steps,
            "notes": total.notes,
        },
        "wall_s": round(time.time() - start, 2),
        "violations": [v for v, _ in new],
        "known_findings_seen": sorted({h[0] for _, h in known}),
        "assumptions": check.get("assumptions", []),
    }
    with open(evidence, "w") as f:
        json.dump(doc, f, indent=1)
    if new:
        replay = f"{EVIDENCE}/replay-{pid}.json"
        with open(replay, "w") as f:
            json.dump({"property": pid, "command": f"VERIF_SEED={seed} python3 /verif/run.py {pid} {tier}", "violations": [v for v, _ in new]}, f, indent=1)
        for v, _ in new[:5]:
            print(f"  {v['where']}: {v['what'][:600]}")
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    print(f"{pid} held on {total.evaluations} evaluations ({total.distinct} distinct), {round(time.time() - start, 1)} s")
    return 0


def setup():
    build_core("debug")
    build_core("release")
    build_mpimon()
    checks.setup(sys.modules[__name__])
    with open(f"{BUILD}/setup-was-here", "w") as f:
        f.write("1\n")
    return 0
