#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from vf.meta import META, note
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NA = {
 "C22": "every answer comes from an external program (GAP) or a web service, neither of which exists in this sandbox; a contract on their output would be an assumption about a dependency and not a proof about this code",
 "C23": "a statistical convergence statement about Monte-Carlo estimators; deductive contracts over single executions cannot state convergence in distribution, and a statistical test would be a different technique",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = V / "checks" / f"{pid.lower()}.py"
    if pid in NA or not f.exists():
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
        continue
    m = META[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid} quick",
        "thorough_cmd": f"bash run.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": m["technique"],
        "level": m["level"],
        "level_note": note(pid),
    })
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. All commits in /repo on top of the base are fix: commits, listed in known_findings.json.",
}, indent=1) + "\n")
