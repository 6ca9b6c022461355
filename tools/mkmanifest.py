"""Writes MANIFEST.json and known_findings.json from sim/props.py (run after editing either)."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from sim.props import PROPS, INFO  # noqa: E402

PURE = "a pure function of its input: no schedule, clock, I/O, fault or history enters, so there is nothing to simulate"
NA = {
    "N01": "image synthesis is " + PURE,
    "N02": "particle advection is " + PURE,
    "N03": "the flow field adapter is " + PURE,
    "N04": "histogram matching is " + PURE,
    "N05": "parameter validation at construction is " + PURE,
}
have = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
for p in have:
    if p not in PROPS and p not in NA:
        NA[p] = "not claimed yet: its simulated world is still being built"
checks = []
for p in have:
    if p not in PROPS:
        continue
    cmd = f"./check.py --property {p}"
    checks.append({
        "property": p, "quick_cmd": cmd, "thorough_cmd": cmd,
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: " + INFO[p].get("technique", "seeded search over thread schedules, delays and faults"),
        "level": "exploration",
        "level_note": INFO[p].get("note", "Seeded search over simulated runs of the real code; a clean batch is evidence, not proof. "
                                  "Trusts the simulation kernel, the seams and the reference model of the property."),
    })
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks,
     "hooks": {"guard": "SYNTHPIX_SIM (unused: no hooks were needed)", "enable": "nothing to enable: all seams are installed from outside by /verif/sim", "source_commits": []},
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "The checks import synthpix from /repo/src directly, so they always see the working tree; nothing is built."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
