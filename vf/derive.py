"""Codes obtained by a sequence of operations, with queries in between."""
from __future__ import annotations

import copy
import warnings

from vf import env, gen  # noqa: F401

from qldpc import codes
from qldpc.objects import Pauli

GATES = ["H", "S", "SQRT_X", "C_XYZ", "CX", "CZ", "SWAP", "CY"]

QUERIES = {
    "logical": lambda c: c.get_logical_ops(),
    "logical-x": lambda c: c.get_logical_ops(Pauli.X),
    "logical-again": lambda c: c.get_logical_ops(recompute=True),
    "stabilizers": lambda c: c.get_stabilizer_ops(),
    "stabilizers-canonical": lambda c: c.get_stabilizer_ops(canonicalized=True),
    "stabilizers-z": lambda c: c.get_stabilizer_ops(Pauli.Z),
    "gauge": lambda c: c.get_gauge_ops(),
    "dimension": lambda c: c.dimension,
    "gauge-dimension": lambda c: c.gauge_dimension,
    "rank": lambda c: c.rank,
    "canonicalized": lambda c: c.canonicalized,
    "distance": lambda c: c.get_distance(),
    "distance-x": lambda c: c.get_distance(Pauli.X) if isinstance(c, codes.CSSCode) else None,
    "distance-z": lambda c: c.get_distance(Pauli.Z) if isinstance(c, codes.CSSCode) else None,
    "bound": lambda c: c.get_distance_bound(1, with_BF=False) if isinstance(c, codes.CSSCode) else None,
    "graph": lambda c: c.graph,
    "weight": lambda c: c.get_weight() if len(c.matrix) else None,
}


def usable(code):
    """Logical operators of subsystem codes that are not CSS codes are known findings (C02)."""
    return isinstance(code, codes.CSSCode) or not code.is_subsystem_code


FAMILIES = {
    4: [lambda q: codes.SurfaceCode(2, 2, field=q), lambda q: codes.ToricCode(2, field=q), lambda q: codes.IcebergCode(2) if q == 2 else codes.BaconShorCode(2, field=q),
        lambda q: codes.HGPCode(codes.RingCode(1, q), codes.RepetitionCode(2, q))],
    6: [lambda q: codes.SurfaceCode(2, 3, field=q), lambda q: codes.SurfaceCode(3, 2, field=q), lambda q: codes.BaconShorCode(3, 2, field=q),
        lambda q: codes.SHPCode(codes.RingCode(3, q), codes.RepetitionCode(2, q))],
    5: [lambda q: codes.SurfaceCode(2, field=q, rotated=False), lambda q: codes.FiveQubitCode() if q == 2 else codes.SurfaceCode(2, field=q, rotated=False),
        lambda q: codes.HGPCode(codes.RepetitionCode(2, q))],
    3: [lambda q: codes.SurfaceCode(1, 3, field=q), lambda q: codes.SurfaceCode(3, 1, field=q)],
    2: [lambda q: codes.SurfaceCode(2, 1, field=q), lambda q: codes.SurfaceCode(1, 2, field=q), lambda q: codes.BaconShorCode(1, 2, field=q)],
    1: [lambda q: codes.SurfaceCode(1, field=q)],
}


def start(rng, q, n):
    kind = rng.randrange(6)
    if kind == 5:  # families know some of their parameters in advance
        return rng.choice(FAMILIES[n + 2 * rng.randrange(2) if n in (2, 3, 4) else n])(q)
    if kind == 0:
        return codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q))
    if kind == 1:
        h = [gen.gf(h, q) for h in gen.css_stabilizer(rng, n, q)]
        flag = rng.choice([None, None, True])
        return codes.CSSCode(*h, is_subsystem_code=flag)
    if kind == 2:
        hx = gen.css_subsystem(rng, n, q)[0]
        same = gen.gf(hx, q)
        return codes.CSSCode(same, same)
    return codes.CSSCode(*[gen.gf(h, q) for h in gen.css_subsystem(rng, n, q)])


def circuit(rng, n):
    out = []
    for _ in range(rng.randrange(1, 7)):
        g = rng.choice(GATES if n > 1 else GATES[:4])
        out.append(f"{g} " + " ".join(map(str, rng.sample(range(n), 2 if g in GATES[4:] else 1))))
    return "\n".join(out)


def ask(rng, code, log, times):
    if not usable(code):
        return
    heavy = len(code) * (1 if spec_q(code) == 2 else 2) > 8
    for name in rng.choices(list(QUERIES), k=times):
        if heavy and name.startswith("distance"):
            continue
        log.append(name)
        QUERIES[name](code)


def spec_q(code):
    return code.field.order


def step(rng, code, log, limit):
    q, n = spec_q(code), len(code)
    css = isinstance(code, codes.CSSCode)
    op = rng.choice(["stack", "stack", "concatenate", "conjugated", "deformed", "canonicalized", "copy", "deepcopy", "constructor", "dual", "strings", "swap", "graph"])
    new = None
    if op == "stack":
        other = start(rng, q, rng.randrange(1, 4))
        if n + len(other) <= limit and usable(other):
            ask(rng, other, log, rng.randrange(2))
            cls = codes.CSSCode if css and isinstance(other, codes.CSSCode) and rng.random() < 0.8 else codes.QuditCode
            pair = [code, other] if rng.random() < 0.5 else [other, code]
            sub = any(c.is_subsystem_code for c in pair)
            new = cls.stack(*pair, inherit_logicals=rng.random() < 0.6)
            op = f"{op} {cls.__name__}"
    elif op == "concatenate":
        other = start(rng, q, rng.randrange(1, 4))
        inner, outer = (code, other) if rng.random() < 0.5 else (other, code)
        if usable(other) and inner.dimension:
            k, m = inner.dimension, len(outer)
            if m % k == 0 or k % m == 0:
                size = max(m, k)
            else:
                size = m * k
            blocks = size // k
            if len(inner) * blocks <= limit:
                mapping = list(range(size))
                rng.shuffle(mapping)
                if size == m * k and rng.random() < 0.3:
                    mapping = None
                cls = codes.CSSCode if isinstance(inner, codes.CSSCode) and isinstance(outer, codes.CSSCode) else codes.QuditCode
                new = cls.concatenate(inner, outer, mapping, inherit_logicals=rng.random() < 0.6)
                op = f"{op} {cls.__name__}"
    elif op == "conjugated":
        if not code.is_subsystem_code:
            new = code.conjugated(rng.sample(range(n), rng.randrange(n + 1)))
    elif op == "deformed":
        if q == 2 and not code.is_subsystem_code:
            new = code.deformed(circuit(rng, n))
    elif op == "canonicalized":
        new = code.canonicalized
    elif op == "copy":
        new = copy.copy(code)
    elif op == "deepcopy":
        new = copy.deepcopy(code)
    elif op == "constructor":
        if not code.is_subsystem_code or not css:
            new = codes.QuditCode(code)
        else:
            new = codes.CSSCode(code.code_x, code.code_z, is_subsystem_code=code.is_subsystem_code)
    elif op == "dual":
        if usable(code) and code.is_subsystem_code:
            new = code.get_dual_subsystem_code()
    elif op == "strings":
        if not code.is_subsystem_code and len(code.matrix):
            new = codes.QuditCode.from_strings(*code.get_strings(), field=q)
    elif op == "swap":
        if css:
            new = codes.CSSCode(code.code_z, code.code_x, is_subsystem_code=code.is_subsystem_code)
    elif op == "graph":
        if not code.is_subsystem_code and len(code.matrix):
            new = codes.QuditCode(codes.QuditCode.graph_to_matrix(code.graph))
    if new is None or not usable(new):
        return code
    log.append(op)
    return new


def derived(rng, q, limit=7):
    """A code over GF(q) and its history."""
    warnings.simplefilter("ignore")
    log = []
    code = start(rng, q, rng.randrange(1, 5))
    for _ in range(rng.randrange(1, 4)):
        ask(rng, code, log, rng.randrange(3))
        code = step(rng, code, log, limit)
    return code, log
