"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
TECH = {
 "C24": "scripted-interaction monitor: click histories replayed on a stand-in plotter, result compared with a reference",
 "C25": "API-wide purity monitor: digests of every argument before/after every observed public call under generated workloads",
 "C26": "history monitor: same call history generated repeatedly, interleaved, and in other processes; traces compared",
 "C27": "refusal monitor: invalid requests injected at random points of valid histories; error and later mesh checked",
}
DEFAULT = "runtime monitoring of the real API under generated hostile workloads, independent reference oracle on every result"
checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(f"{V}/vmon/props/{i.lower()}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECH.get(i, DEFAULT),
            "level": "exploration",
            "level_note": "Random and adversarial workloads on the real code, every observed result judged by an oracle that recomputes the answer from raw VTK cells with independent numpy code; trusts VTK/numpy storage and the stated tolerances; executions not sampled are not covered. " + NOTE.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, pyvista, scipy, shapely, gmsh' && mkdir -p evidence/replay", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the monitors wrap the public API at run time. See DESIGN.md."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
