"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks.registry import CHECKS, NOT_APPLICABLE
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd=f"{PY} -m compileall -q sim checks || true",
    checks=[],
    not_applicable=[],
    notes="No hooks in /repo: the simulator intercepts the Python I/O, process, clock, randomness, socket and event-loop entry points from outside. "
          "`checks/run.py <id>` searches, `checks/run.py --replay FILE -v` replays. Known findings and repaired defects: known-findings.json.",
)
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i,
            quick_cmd=f"{PY} checks/run.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough {PY} checks/run.py {i}",
            evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation with fault injection: seeded search over schedules and faults, " + c["tech"],
            level="exploration",
            level_note=c["note"],
        ))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "Check not built yet.")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
