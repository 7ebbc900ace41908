"""C02: logical, gauge and stabilizer operators form a symplectic basis."""
import itertools

import numpy as np

from vf import derive, env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import check
from qldpc import abstract, codes
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600


def named(ctx):
    for label, make in families.named_quantum().items():
        def run(make=make):
            code = make()
            if len(code) > 60:
                return
            spec.full_operator_contract(code)
        ctx.case(label, run)
    x = families.polys()
    for i, (o, a, b) in enumerate(x):
        for q in (2, 3):
            ctx.case(f"BB-{i}-q{q}", lambda o=o, a=a, b=b, q=q: spec.full_operator_contract(codes.BBCode(o, a, b, q)))


def stabilizer(ctx):
    for i in range(ctx.n(260, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 2, 3, 3, 4, 5, 7]), rng.randrange(1, 7)
        M = gen.stabilizer_matrix(rng, n, rng.randrange(0, n + 1), q)
        if len(M) == 0:
            continue
        ctx.case(f"stab-{i}-q{q}-n{n}", lambda M=M, q=q: spec.full_operator_contract(codes.QuditCode(gen.gf(M, q))))


def css_stab(ctx):
    for i in range(ctx.n(260, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 2, 3, 3, 4, 5]), rng.randrange(1, 8)
        hx, hz = gen.css_stabilizer(rng, n, q)
        ctx.case(f"css-{i}-q{q}-n{n}", lambda hx=hx, hz=hz, q=q: spec.full_operator_contract(codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))))


def css_sub(ctx):
    for i in range(ctx.n(260, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 2, 3, 4, 5]), rng.randrange(1, 7)
        hx, hz = gen.css_subsystem(rng, n, q) if i % 2 else gen.css_any(rng, n, q)
        ctx.case(f"sub-{i}-q{q}-n{n}", lambda hx=hx, hz=hz, q=q: spec.full_operator_contract(codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))))


def products(ctx):
    """hypergraph and subsystem hypergraph products: canonical (preset) and computed logical operators"""
    for i in range(ctx.n(70, 900)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5])
        a, b = gen.classical(rng, q, 4), gen.classical(rng, q, 3)
        sl = bool(i % 3)

        def run():
            code = codes.HGPCode(a, b, set_logicals=sl)
            spec.logical_ops(code)
            spec.typed_requests(code)
            spec.logical_ops(code, code.get_logical_ops(recompute=True))
            sub = codes.SHPCode(a, b, set_logicals=sl)
            if len(sub) <= 16:
                spec.stabilizer_ops(sub)
                spec.logical_ops(sub)
                spec.full_operator_contract(sub)
        ctx.case(f"products-{i}-q{q}", run)


SUBSYSTEM_CASES = 24


def noncss_subsystem(ctx):
    """Non-CSS subsystem codes; the inputs on which the current construction is wrong are known findings."""
    for i in range(ctx.n(SUBSYSTEM_CASES, SUBSYSTEM_CASES)):
        import random
        rng = random.Random(1000 + i)  # fixed inputs: independent of VERIF_SEED
        q = 2
        n = 2 + i % 3
        s = i % n
        g = 1 + (i // 3) % max(1, n - s)
        g = min(g, n - s)
        S = gen.random_symplectic(rng, n, q)
        M = np.vstack([S[n:n + s], S[s:s + g], S[n + s:n + s + g]])
        M = gen.redundant(rng, M, q, i % 2)
        ctx.case(f"noncss-{i}", lambda M=M, q=q: spec.full_operator_contract(codes.QuditCode(gen.gf(M, q))))


def request_orders(ctx):
    """every order of requests on one object gives consistent answers"""
    reqs = {
        "stab": lambda c: c.get_stabilizer_ops(), "stabc": lambda c: c.get_stabilizer_ops(canonicalized=True),
        "log": lambda c: c.get_logical_ops(), "logr": lambda c: c.get_logical_ops(recompute=True), "gauge": lambda c: c.get_gauge_ops(),
        "stabr": lambda c: c.get_stabilizer_ops(recompute=True), "stabX": lambda c: c.get_stabilizer_ops(Pauli.X),
        "logZ": lambda c: c.get_logical_ops(Pauli.Z), "dim": lambda c: c.dimension, "gdim": lambda c: c.gauge_dimension,
    }
    for i in range(ctx.n(60, 600)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3]), rng.randrange(2, 6)

        def run():
            kind = i % 3
            if kind == 0:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q))
            elif kind == 1:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_subsystem(rng, n, q)])
            else:
                code = codes.SHPCode(gen.classical(rng, q, 3), gen.classical(rng, q, 3))
            for name in rng.choices(list(reqs), k=6):
                reqs[name](code)
            spec.logical_ops(code)
            spec.stabilizer_ops(code)
            spec.gauge_ops(code)
            spec.typed_requests(code)
        ctx.case(f"orders-{i}", run)


def recomputed(ctx):
    """operators that were installed are forgotten when a request asks to recompute them, for all operators or those of one type"""
    for i in range(ctx.n(60, 600)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4]), rng.randrange(2, 6)

        def run():
            if i % 2:
                h = [gen.gf(h, q) for h in (gen.css_stabilizer if i % 4 == 1 else gen.css_subsystem)(rng, n, q)]
                make = lambda: codes.CSSCode(*h)
            else:
                h = gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n), q), q)
                make = lambda: codes.QuditCode(h)
            for pauli in (None, Pauli.X, Pauli.Z):
                code, fresh = make(), make()
                k = fresh.dimension
                if not k:
                    return
                L = np.array(fresh.get_logical_ops(), dtype=int)
                S = gen.random_symplectic(rng, k, q)
                code.set_logical_ops(la.matmul(S, L, q))
                again = np.array(code.get_logical_ops(pauli, recompute=True))
                check(np.array_equal(again, np.array(make().get_logical_ops(pauli))), f"recomputed logical operators ({pauli}) are those that were installed")
                spec.logical_ops(code)
        ctx.case(f"recomputed-{i}-q{q}", run)


def histories(ctx):
    """codes obtained by sequences of operations, with queries in between"""
    for i in range(ctx.n(200, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4])

        def run():
            code, _ = derive.derived(rng, q)
            spec.full_operator_contract(code, computed=False)
        ctx.case(f"history-{i}-q{q}", run)


GROUPS = [named, stabilizer, css_stab, css_sub, products, noncss_subsystem, request_orders, recomputed, histories] + proofs('blocks', 'logicals_css', 'logicals_qudit', 'setters', 'stabilizers')
