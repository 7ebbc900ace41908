#!/usr/bin/env python3
"""addknown.py fixed C11 'text' [n]  -> records the n-th last commit of /repo as a fix."""
import json, pathlib, subprocess, sys
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
kind, pid, text = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
h = subprocess.check_output(["git", "-C", "/repo", "log", "--oneline"]).decode().split("\n")[n - 1].split()[0]
d["fixed"].append(f"fixed: property={pid} {h} {text}")
p.write_text('{\n "findings": [\n  ' + ',\n  '.join(json.dumps(x) for x in d['findings']) + '\n ],\n "fixed": [\n  '
             + ',\n  '.join(json.dumps(x) for x in d['fixed']) + '\n ]\n}\n')
