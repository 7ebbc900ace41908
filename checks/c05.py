"""C05: distance bounds never fall below the true distance."""
import random
import warnings

import numpy as np

from vf import derive, env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract
from vf.proofs import groups as proofs
from qldpc import codes
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600


class Adversary:
    """A decoder that obeys no contract: it may return anything, valid or not, of any weight.

    Every few calls it returns some (not minimal) solution, so that retry loops end."""

    def __init__(self, matrix, rng, q, honest):
        self.m, self.rng, self.q, self.honest = np.array(matrix, dtype=int), rng, q, honest

    def solve(self, s):
        H, q = self.m, self.q
        A = np.hstack([H, np.array(s, dtype=int).reshape(-1, 1)])
        R, piv = la.rref(A, q)
        n = H.shape[1]
        x = np.zeros(n, dtype=int)
        if n in piv:
            return x  # no solution
        for r, p in enumerate(piv):
            x[p] = R[r, n]
        N = la.nullspace(H, q)
        if len(N):
            c = np.array([[self.rng.randrange(q) for _ in range(len(N))]])
            x = la.add(x, la.matmul(c, N, q)[0], q)
        return x

    def decode(self, syndrome):
        n = self.m.shape[1]
        kind = self.rng.randrange(4)
        if kind == 0 and not self.honest:
            x = np.zeros(n, dtype=int)
        elif kind == 1 and not self.honest:
            x = np.array([self.rng.randrange(self.q) for _ in range(n)])
        elif kind == 2 and not self.honest:
            x = np.zeros(n, dtype=int)
            x[self.rng.randrange(n)] = 1
        else:
            x = self.solve(syndrome)
        return x.astype([np.uint8, int][self.rng.randrange(2)])


def adversarial(rng, q, honest=False):
    return {"decoder_constructor": lambda matrix: Adversary(matrix, rng, q, honest)}


@contract(["qldpc.codes.common.ClassicalCode.get_distance_bound", "qldpc.codes.common.ClassicalCode.get_one_distance_bound"])
def classical_bounds(make, rng, q, args, vector=None):
    code = make()
    G = la.nullspace(spec.A(code.matrix), q)
    n = len(code)
    true = spec.min_weight_classical(G, q, vector) if vector is not None else spec.min_weight_classical(G, q)
    kw = {} if vector is None else {"vector": vector}
    if vector is None and np.isnan(true):
        check(np.isnan(code.get_distance_bound(3, **args())), "bound of a trivial code")
        return
    for t in range(3):
        b = code.get_one_distance_bound(**kw, **args())
        check(true <= b <= n, f"single bound {b} outside of [{true}, {n}]")
    for trials, cutoff in [(0, None), (1, None), (4, None), (3, 2), (3, n), (2, 1)]:
        b = code.get_distance_bound(trials, cutoff=cutoff, **kw, **args())
        check(true <= b <= n, f"bound {b} outside of [{true}, {n}] (trials {trials}, cutoff {cutoff})")
    b = code.get_distance(bound=3, **kw, **args())
    check(true <= b <= n, f"get_distance(bound=3) = {b} outside of [{true}, {n}]")
    if vector is None:
        d = code.get_distance_exact()
        check(code.get_distance_bound(2, **args()) == d == true, "bound although the exact distance is known")
        check(code.get_distance(bound=2, **args()) == d, "get_distance(bound) although the exact distance is known")
        check(code.get_distance_bound(0, **args()) == d, "bound although the exact distance is known")


@contract(["qldpc.codes.common.CSSCode.get_distance_bound", "qldpc.codes.common.CSSCode.get_one_distance_bound"])
def css_bounds(code, q, args):
    n = len(code)
    H = spec.A(code.matrix)
    if code.dimension == 0:
        check(np.isnan(code.get_distance_bound(2, **args())), "bound of a trivial code")
        return
    true = {p: spec.quantum_distance(H, q, i) for i, p in ((0, Pauli.X), (1, Pauli.Z))}
    true[None] = min(true.values())
    for p, d in true.items():
        for t in range(2):
            b = code.get_one_distance_bound(p, **args())
            check(d <= b <= n, f"single {p} bound {b} outside of [{d}, {n}]")
        for trials, cutoff in [(0, None), (1, None), (3, None), (3, 2)]:
            b = code.get_distance_bound(trials, p, cutoff=cutoff, **args())
            check(d <= b <= n, f"{p} bound {b} outside of [{d}, {n}]")
        b = code.get_distance(p, bound=2, **args())
        check(d <= b <= n, f"get_distance({p}, bound=2)")
    order = list(true)
    for p in order:
        if q == 2 or n < 5:
            check(code.get_distance_exact(p) == true[p], "exact distance after bounds")
            check(code.get_distance_bound(1, p, **args()) == true[p], "bound although the exact distance is known")


@contract(["qldpc.codes.common.CSSCode.reduce_logical_op", "qldpc.codes.common.CSSCode.reduce_logical_ops"])
def reduction(code, q, args, rng):
    before = spec.A(code.get_logical_ops())
    k = code.dimension
    for _ in range(2):
        if k:
            p, j = rng.choice([Pauli.X, Pauli.Z]), rng.randrange(k)
            code.reduce_logical_op(p, j, **args())
            spec.logical_ops(code)
            spec.typed_requests(code)
    code.reduce_logical_ops(rng.choice([None, Pauli.X, Pauli.Z]), **args())
    spec.logical_ops(code)
    spec.typed_requests(code)
    check(spec.A(code.get_logical_ops()).shape == before.shape, "shape")
    if k:
        op = np.array(code.get_random_logical_op(Pauli.X, ensure_nontrivial=True), dtype=int)
        check(not la.matmul(spec.A(code.matrix_z), op, q).any(), "random logical operator violates checks")


@contract("qldpc.codes.common.CSSCode.get_random_logical_op")
def random_logical(code, q, seeds):
    """Random logical operators lie in the span of logical operators and stabilizers; nontrivial if promised."""
    for p, other in ((Pauli.X, Pauli.Z), (Pauli.Z, Pauli.X)):
        n = len(code)
        part = lambda ops, pp: ops[:, :n] if pp is Pauli.X else ops[:, n:]
        cut = lambda ops, pp: spec.A(ops) if spec.A(ops).shape[1] == n else part(spec.A(ops), pp)
        logs, dual = cut(code.get_logical_ops(p), p), cut(code.get_logical_ops(other), other)
        span = np.vstack([logs, cut(code.get_stabilizer_ops(p), p)]).reshape(-1, n)
        for seed in seeds:
            for nontrivial in (False, True):
                if nontrivial and not len(logs):
                    continue
                op = spec.A(code.get_random_logical_op(p, ensure_nontrivial=nontrivial, seed=seed)).reshape(1, -1)
                check(op.shape == (1, n), "shape of a random logical operator")
                check(la.rank(np.vstack([span, op]), q) == la.rank(span, q) if len(span) else not op.any(), "random logical operator outside of the span")
                if nontrivial:
                    check(la.matmul(dual, op.T, q).any(), "random logical operator is trivial")


def randoms(ctx):
    for i in range(ctx.n(150, 2000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 3, 4])
        code = random_css(rng, q, rng.randrange(2, 7))
        ctx.case(f"random-{i}-q{q}", random_logical, code, q, range(i, i + 8))
    for label, make in families.named_quantum().items():
        code = make()
        if isinstance(code, codes.CSSCode) and len(code) <= 30:
            ctx.case(f"random-{label}", random_logical, code, spec.q_of(code), range(6))


def classical(ctx):
    for i in range(ctx.n(160, 2500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 3, 4, 5])
        n = rng.randrange(1, 8 if q == 2 else 5)
        H = gen.matrix(rng, rng.randrange(1, n + 2), n, q)

        def run():
            warnings.simplefilter("ignore")
            make = lambda: codes.ClassicalCode(gen.gf(H, q))
            mode = i % 3
            args = (lambda: {}) if mode == 0 and q == 2 else (lambda: adversarial(rng, q, honest=mode == 1))
            if mode == 0 and q != 2:
                args = lambda: {}
            classical_bounds(make, rng, q, args)
            v = np.array([rng.randrange(q) for _ in range(n)])
            classical_bounds(make, rng, q, args, v)
            classical_bounds(make, rng, q, args, gen.gf(v, q))
        ctx.case(f"classical-{i}-q{q}-n{n}", run, limit=30)


def random_css(rng, q, n):
    kind = rng.randrange(4)
    if kind == 3:
        while True:
            code, _ = derive.derived(rng, q, n)
            if isinstance(code, codes.CSSCode):
                return code
    f = [gen.css_stabilizer, gen.css_subsystem, gen.css_any][kind]
    return codes.CSSCode(*[gen.gf(h, q) for h in f(rng, n, q)])


def css(ctx):
    for i in range(ctx.n(140, 2000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 3, 4])
        n = rng.randrange(2, 7 if q == 2 else 4)

        def run():
            warnings.simplefilter("ignore")
            code = random_css(rng, q, n)
            mode = i % 3
            args = (lambda: {}) if mode == 0 else (lambda: adversarial(rng, q, honest=mode == 1))
            css_bounds(code, q, args)
        ctx.case(f"css-{i}-q{q}-n{n}", run, limit=30)


def reduce(ctx):
    for i in range(ctx.n(120, 2000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 3, 4])
        n = rng.randrange(2, 8 if q == 2 else 5)

        def run():
            warnings.simplefilter("ignore")
            code = random_css(rng, q, n)
            mode = i % 3
            args = (lambda: {}) if mode == 0 else (lambda: adversarial(rng, q, honest=mode == 1))
            reduction(code, q, args, rng)
        ctx.case(f"reduce-{i}-q{q}-n{n}", run, limit=30)


def named(ctx):
    for label, make in families.named_quantum().items():
        def run(make=make):
            code = make()
            q = spec.q_of(code)
            if len(code) > 13 or not isinstance(code, codes.CSSCode) or len(code) * np.log2(q) > 13:
                raise Skip("too large for the exhaustive oracle")
            css_bounds(code, q, dict)
            if q == 2:
                reduction(code, q, dict, ctx.rng(label))
        ctx.case(label, run)


GROUPS = [classical, css, reduce, named, randoms] + proofs('bounds', 'trials', 'one_trial', 'random_ops', 'reduction')
