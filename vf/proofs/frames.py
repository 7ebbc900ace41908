"""Frame contracts of the functions of /repo (C20): "assigns nothing that belongs to the caller"."""
from __future__ import annotations

import json
import pathlib
import re
import time

from vf import env
from vf.sym import frames as FR

BACKEND = "modular ownership analysis of the current source (vf/sym/frames.py)"
TRUSTED = [
    "frame contracts: functions of numpy, galois, networkx, sympy, stim and the standard library modify their arguments only where numpy and the "
    "standard library document it (out=, fill_diagonal, put, copyto, shuffle, list/dict/set methods, networkx add_/remove_ methods)",
    "frame contracts: a new container that is reachable under two local names is treated as two containers; group members, nodes and numbers are immutable",
]
# what a function may modify, beyond nothing
MAY = {
    "qldpc.codes.distance._hamming_weight": {"out", "buf"},
    "qldpc.codes.distance._symplectic_weight": {"out", "buf"},
    "qldpc.codes.distance._inplace_rowsum": {"arr"},
    # documented to change the operators that are stored in the code
    "qldpc.codes.common.CSSCode.reduce_logical_op": {"self"},
    "qldpc.codes.common.CSSCode.reduce_logical_ops": {"self"},
    "qldpc.abstract.RingArray.__array_finalize__": {"self"},  # called by numpy with the new array
}
# memos: attributes of an object that a query may fill in; each is a function of the object's immutable part (C20, C05, C04)
MEMO = {"_generator", "_distance", "_distance_x", "_distance_z", "_logical_ops", "_dimension", "_stabilizer_ops", "_gauge_ops"}
SETTERS = {"set_generator", "set_logical_ops"}
INITIALIZERS = {"__init__", "__new__", "__setattr__", "_init_from_group", "__array_finalize__", "__post_init__"}
# results that the caller may change: they share no memory with the object that was asked
NEW = {"qldpc.abstract.RingMember.copy", "qldpc.decoders.LookupDecoder.decode", "qldpc.decoders.ILPDecoder.decode", "qldpc.decoders.GUFDecoder.decode",
       "qldpc.codes.common.QuditCode.conjugated", "qldpc.codes.common.QuditCode.deformed", "qldpc.codes.common.CSSCode.conjugated"}
PUBLIC = pathlib.Path(__file__).with_name("frames_public.json")


def analysis():
    return FR.Analysis(pathlib.Path(env.REPO) / "qldpc")


def modules(hctx):
    t0 = time.time()
    an = analysis()
    public = json.loads(PUBLIC.read_text())
    known, attributes = set(public["functions"]), set(public["attributes"])

    def memo(what):
        """A change of an attribute of self that was introduced later: perhaps a memo."""
        m = re.match(r"self\.(\w+)", what)
        return m is not None and m.group(1) not in attributes

    share = (time.time() - t0) / max(1, len(known))
    for f in an.functions:
        if f.qual not in known:
            continue  # a helper: its summary is inferred, its callers are checked
        bad = []
        for p, sites in f.summary.mutates.items():
            if p in MAY.get(f.qual, ()):
                continue
            bad += [(d and not (p == "self" and memo(what)), f"line {line}: {what} (memory of the argument {p})") for (line, what), d in sites.items()]
        if f.qual in NEW and f.summary.result is not None:
            bad += [(d, f"the result may be memory of {p}") for p, d in f.summary.result.top.items() if not p.startswith("<")]
        definite = [x for d, x in bad if d]
        status = "refuted" if definite else "undecided" if bad else "discharged"
        detail = "; ".join(definite or [x for _, x in bad])[:600]
        if status == "discharged" and f.name not in INITIALIZERS | SETTERS:
            extra = set(f.summary.attrs) - MEMO
            if extra:
                status, detail = "undecided", f"assigns attributes of self that are not known memos: {sorted(extra)}"
        hctx.ob(f"frame of {f.qual}", f.qual, status, BACKEND, share, detail or "assigns nothing of the caller", kind="frame")
    hctx.note(f"frame analysis: {len(an.functions)} functions summarised; functions outside /repo used without a contract: {len(an.trusted)}")


def probes(hctx):
    """The analysis must flag these."""
    import tempfile
    src = '''
import numpy as np
def a(x):
    x[0] = 1
def b(x):
    y = np.asarray(x)
    y[0] = 1
def c(x):
    y = x.T
    z = y[1:]
    z += 1
def d(x):
    a(x)
def e(x):
    for row in x:
        row.append(1)
def f(x):
    out = [x]
    out[0][1] = 2
def g(x):
    np.fill_diagonal(x, 1)
def h(**kw):
    kw["opts"]["a"] = 1
class K:
    def __init__(self, x):
        self.x = x
        self.x[0] = 1
    def m(self, y):
        y.z = 1
    def q(self):
        self.x[0] = 1
def ok(x):
    y = x.copy(); y[0] = 1
    z = np.array(x); z += 1
    w = list(x); w.append(1)
    return y, z, w
'''
    t0 = time.time()
    with tempfile.TemporaryDirectory() as d:
        p = pathlib.Path(d) / "pkg"
        p.mkdir()
        (p / "m.py").write_text(src)
        an = FR.Analysis(p)
    for f in an.functions:
        flagged = bool(f.summary.mutates) or (f.name == "q" and bool(f.summary.mutates or f.summary.attrs))
        want = f.name != "ok"
        hctx.ob(f"probe: frame of {f.name}", "vf.sym.frames", "discharged" if flagged == want else "undecided", BACKEND, time.time() - t0,
                "must be flagged" if want else "must not be flagged", kind="vacuity probe")
