"""Lemmas over the contracts, checked by Lean on every run."""
from __future__ import annotations

import pathlib
import re
import subprocess
import time

HERE = pathlib.Path(__file__).resolve().parent / "lemmas"


def check(hctx, name, wanted=None, limit=240):
    """One obligation for each theorem of vf/lemmas/<name>.lean (or the wanted ones)."""
    path = HERE / f"{name}.lean"
    text = path.read_text()
    theorems = re.findall(r"^theorem\s+(\S+)", text, re.M)
    t0 = time.time()
    try:
        r = subprocess.run(["lean", str(path)], capture_output=True, text=True, timeout=limit, cwd=str(HERE))
        bare = re.sub(r"/-.*?-/|--[^\n]*", "", text, flags=re.S)
        ok = r.returncode == 0 and not re.search(r"\b(sorry|axiom|native_decide)\b", bare) and "error" not in r.stdout
        why = "" if ok else (r.stdout + r.stderr)[-600:]
    except Exception as e:  # no lean, or too slow
        ok, why = False, f"{type(e).__name__}: {e}"
    dt = (time.time() - t0) / max(1, len(theorems))
    for t in theorems:
        if wanted is None or t in wanted:
            label = f"lemma {name}.{t}"
            if hctx.only is not None and hctx.only != label:
                continue
            hctx.ob(label, f"vf/lemmas/{name}.lean", "discharged" if ok else "undecided", "Lean 4 + Mathlib", dt, why, kind="lemma")
