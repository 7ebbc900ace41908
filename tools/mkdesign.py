#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from vf.meta import META, LEVEL_TEXT
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
out = [(V / "design/head.md").read_text()]
out.append("## 2. Properties and how each is decided\n")
man = {c["property"]: c["reason"] for c in json.loads((V / "MANIFEST.json").read_text())["not_applicable"]}
for p in props:
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n")
    if p["id"] in man:
        out.append(f"**Not applicable**: {man[p['id']]}\n")
        continue
    m = META[p["id"]]
    e = V / f"evidence/{p['id']}.json"
    if m["proved"]:
        out.append(f"* **Proved** (level {m['level']}): {m['proved']}")
    out.append(f"* **Bounded contract evaluation**: {m['bounded']}\n* **Limits**: {m['gap']}")
    if e.exists():
        d = json.loads(e.read_text())
        c = d["coverage"]
        if c["functions_proved"] and p["id"] != "C20":
            out.append("* **Functions under discharged contracts**: " + ", ".join(f"`{k.removeprefix('qldpc.')}` ({v})" for k, v in sorted(c["functions_proved"].items())))
        out.append(f"* **Obligations**: {c['discharged']} of {c['obligations']} discharged")
    out.append("")
known = json.loads((V / "known_findings.json").read_text())
out.append("## 3. Known findings (genuine defects that are recorded, not repaired)\n")
out += [f"* {k['property']} ({k['group']}/{k['case']}): {k['what']}" for k in known["findings"]]
out.append("""
Why they are not repaired: lifted products over non-Abelian groups need left and right lifts (a redesign of LPCode); logical operators of non-CSS
subsystem codes need another algorithm; projective groups have no linear representation of the advertised dimension.

## 4. Defects that were repaired (`fix:` commits in /repo)
""")
out += [f"* {k}" for k in known["fixed"]]
out.append("\n" + (V / "design/seeds.md").read_text())
out.append((V / "design/tail.md").read_text())
(V / "DESIGN.md").write_text("\n".join(out))
