"""Proof groups: each function group(hctx) states contracts and has them discharged for all inputs."""
from __future__ import annotations

import importlib
import traceback


def groups(module, *names):
    """The named proof groups of vf.proofs.<module> as groups of a check.

    A construct that a prover does not know, or a name that is gone after a refactoring, leaves the obligations of the
    group undecided; it is never an alarm.
    """
    out = []
    for name in names:
        def run(ctx, name=name):
            try:
                mod = importlib.import_module(f"vf.proofs.{module}")
                fn = getattr(mod, name)
                for t in getattr(mod, "TRUSTED", []):
                    ctx.assume(t)
                fn(ctx)
            except Exception:
                ctx.ob(f"group {module}.{name}", module, "undecided", "-", 0.0, traceback.format_exc()[-1500:])
        run.__name__ = f"proof_{module}_{name}"
        out.append(run)
    return out
