"""Obligations over symbolic matrices: run the live function on every path and prove the claims made about its result."""
from __future__ import annotations

import time
import traceback

from . import mat, shim
from .mat import CTX, SymArr, Unsupported, show

BACKEND = "symbolic execution of the live function + rewriting of noncommutative block polynomials (vf/sym)"


PLAIN = "symbolic execution of the live function + z3 (vf/sym)"


class Refuted(Exception):
    pass


class Claims:
    def __init__(self, ctx):
        self.ctx = ctx
        self.done = 0

    def zero(self, arr, what):
        """Every block of the matrix is zero (under the hypotheses of this path)."""
        bad = [f"block {k}: {show(self.ctx.normal(b))}" for k, b in arr.cells.items() if self.ctx.normal(b)]
        if bad:
            raise Refuted(f"{what}: " + "; ".join(bad)[:600])
        self.done += 1

    def equal(self, a, b, what):
        if a.axes != b.axes:
            if all(mat.Dim.of(x.size).same(y.size) for x, y in zip(a.axes, b.axes)):
                raise Unsupported(f"{what}: matrices with different segments {a.axes} and {b.axes}")
            raise Refuted(f"{what}: shapes {a.axes} and {b.axes}")
        self.zero(a.view(shim.FIELD[0]) - b.view(shim.FIELD[0]), what)

    def true(self, cond, what):
        if not cond:
            raise Refuted(what)
        self.done += 1

    def valid(self, f, what):
        """The formula (over z3 terms) holds on this path."""
        from . import scalar
        r = scalar.implied(f)
        if r is None:
            raise Unsupported(f"{what}: the solver gave up")
        if not r:
            raise Refuted(f"{what}: false for {scalar.model(f)}"[:600])
        self.done += 1

    def untouched(self, what="a caller's array is modified"):
        if self.ctx.frame:
            raise Refuted(f"{what}: {sorted(set(map(str, self.ctx.frame)))}")
        self.done += 1


def _trace():
    try:
        return traceback.format_exc()[-800:]
    except Exception:  # a stub objects to the formatting of its own attributes
        return ""


def prove(hctx, name, function, run, modules, fields=None, search=None, kind="post", expect=None, min_paths=1, plain=False, **patches):
    """plain: the claim does not depend on a field; one obligation.

    run(ctx, claims, F) executes the live code and makes claims. One obligation per field family.

    expect="fail": a probe for vacuity; the claim must not go through.
    search: callable that looks for a failing concrete input with the real code; returns a description or None.
    """
    for F in fields or ((shim.SymField2,) if plain else (shim.SymField, shim.SymField2)):
        label = name if plain else f"{name} [{'q=2' if F.characteristic == 2 else 'q!=2'}]"
        if hctx.only is not None and hctx.only != label:
            continue
        t0 = time.time()
        claims_made = 0
        status, detail, ce = "discharged", "", None
        try:
            def body(ctx):
                cl = ctx.claims = Claims(ctx)
                try:
                    run(ctx, cl, F)
                except mat.PathEnd:
                    pass
                return cl.done
            paths = shim.explore(body, F, modules, **patches)
            claims_made = 0
            for ctx, done, exc in paths:
                if exc is not None:
                    raise Refuted(f"the code raises {type(exc).__name__}: {exc} on the path {ctx.log}") from exc
                claims_made += done
            if len(paths) < min_paths or claims_made == 0:
                status, detail = "undecided", f"{len(paths)} paths, {claims_made} claims"
            else:
                detail = f"{len(paths)} paths, {claims_made} claims"
        except Unsupported as e:
            status, detail = "undecided", f"outside the symbolic domain: {e} | " + " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-7:]))
        except Refuted as e:
            status, detail = "refuted", str(e)
        except Exception as e:  # an attribute that was renamed, or a construct that the shim does not cover
            status, detail = "undecided", f"{type(e).__name__}: {e} | " + _trace()
        if expect == "fail":
            ok = status == "refuted"
            hctx.ob("probe: " + label, function, "discharged" if ok else "undecided", PLAIN if plain else BACKEND, time.time() - t0,
                    "must-fail probe: " + detail, kind="vacuity probe")
            continue
        if status == "refuted" and search is not None:
            try:
                ce = search(F)
            except Exception:
                ce = None
        hctx.ob(label, function, status, PLAIN if plain else BACKEND, time.time() - t0, detail, kind=kind, counterexample=ce)


def M(F, name, row, col, owner=None):
    """An arbitrary matrix with one block."""
    return mat.matrix(F, [row], [col], {(0, 0): name}, owner=owner)
