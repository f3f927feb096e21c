#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions here and in lib/checks.py."""
import json
import subprocess
import sys

sys.path[:0] = ["/verif/lib", "/verif/tools"]
import checks  # noqa: E402
from properties_core import CORE  # noqa: E402
try:
    from properties_full import FULL
except ImportError:
    FULL = []

TECHNIQUE = {
    "core": "runtime monitor with reference model over generated workloads",
    "mpi": "PMPI trace monitor, offline log checker and sequential model under injected delays",
    "miri": "Miri",
    "asan": "AddressSanitizer",
    "full": "runtime monitor of the full program against an independent oracle",
    "app": "monitored runs of the program itself, files of the output against an independent oracle",
    "fullmpi": "monitored multi-rank runs of the full program against an independent oracle",
}

props = CORE + FULL
with open("/verif/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")

commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.split("\n")
hooks = [c.split(" ")[0] for c in commits if "runtime monitors" in c]
manifest = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "cfg(subsweep_verif)",
        "enable": "RUSTFLAGS='--cfg subsweep_verif' in every build of the monitors (lib/runner.py); the modules named verif_core and verif_full",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        manifest["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE[p["id"]]})
        continue
    kinds = []
    for s in c["steps"]:
        if TECHNIQUE[s[0]] not in kinds:
            kinds.append(TECHNIQUE[s[0]])
    manifest["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} quick",
        "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "technique": "runtime monitoring: " + "; ".join(kinds),
        "level": "exploration",
        "level_note": c.get("note", "Held on the executions produced, with counts in the evidence; says nothing about inputs and schedules that were not generated. " + "; ".join(c.get("assumptions", checks.CORE_ASSUMPTIONS))),
        "evidence_file": f"evidence/{p['id']}.json",
    })
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
