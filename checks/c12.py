"""C12: null spaces and row reduction over group algebras are sound."""
import warnings

import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import check, contract
from vf.proofs import groups as proofs
from qldpc import abstract
from checks.c10 import d_add, d_inv, d_mul, key, pm, vec

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
RA = "qldpc.abstract.RingArray."
A = spec.A


def groups():
    out = dict(families.abelian_groups())
    out.update({k: v for k, v in families.nonabelian_groups().items() if k in ("D3", "S3", "Q8", "D4")})
    out["trivial"] = abstract.TrivialGroup()
    out["SL22"] = abstract.SL(2, 2)  # the identity is not the first member
    out["gens"] = abstract.Group(abstract.GroupMember([0, 2, 1]), abstract.GroupMember([1, 0, 2]))
    return out


def entries(array):
    return [[vec(array[i, j]) for j in range(array.shape[1])] for i in range(array.shape[0])]


def row_vectors(rows, ncols, keys, q):
    """All left multiples g * row, as vectors over the field: their span is the left span of the rows."""
    pos = {k: i for i, k in enumerate(keys)}
    out = []
    for row in rows:
        for g in keys:
            v = np.zeros(ncols * len(keys), dtype=int)
            for j, e in enumerate(row):
                for k, c in e.items():
                    v[j * len(keys) + pos[pm(g, k)]] = c
            out.append(v)
    return np.array(out, dtype=int).reshape(len(out), ncols * len(keys))


def solution_rows(rows, ncols, keys, q):
    """All x with rows @ x = 0, each as the transposed row vector x.T (entries transposed)."""
    pos = {k: i for i, k in enumerate(keys)}
    M = np.zeros((len(rows) * len(keys), ncols * len(keys)), dtype=int)
    for i, row in enumerate(rows):
        for j, e in enumerate(row):
            for k, c in e.items():
                for h in keys:  # e * h contributes c to the coefficient k h
                    M[i * len(keys) + pos[pm(k, h)], j * len(keys) + pos[h]] = c
    N = la.nullspace(M, q)
    perm = [j * len(keys) + pos[d_inv(h)] for j in range(ncols) for h in keys]
    return N[:, perm]


@contract([RA + "null_space"])
def null_space(X, keys, q, **kw):
    rows, ncols = entries(X), X.shape[1]
    N = X.null_space(**kw)
    check(N.ndim == 2 and N.shape[1] == ncols, lambda: f"null space of shape {N.shape} for a matrix of shape {X.shape}")
    check(isinstance(N, abstract.RingArray) and N.ring == X.ring, "ring of the null space")
    got = entries(N)
    for v in got:
        for row in rows:
            acc = {}
            for e, f in zip(row, v):
                acc = d_add(acc, d_mul(e, {d_inv(k): c for k, c in f.items()}, q), q)
            check(not acc, "a row of the null space is not annihilated")
    want = solution_rows(rows, ncols, keys, q)
    have = row_vectors(got, ncols, keys, q)
    check(la.in_span(want, have, q) if len(want) and len(have) else len(la.rref(want, q)[0]) == 0, "annihilated vectors are not spanned by the null space")
    check(entries(X) == rows, "the matrix was changed")
    if len(N) and X.size:
        check(not np.any(X @ N.T), "X @ null_space.T is not zero")


@contract([RA + "row_reduce"])
def row_reduce(X, keys, q, **kw):
    rows, ncols = entries(X), X.shape[1]
    R = X.row_reduce(**kw)
    check(R.ndim == 2 and R.shape[1] == ncols, lambda: f"shape {R.shape} for a matrix of shape {X.shape}")
    got = entries(R)
    a, b = row_vectors(rows, ncols, keys, q), row_vectors(got, ncols, keys, q)
    check(not ncols or la.same_span(a, b, q), lambda: f"row reduction changed the left span: rank {la.rank(a, q)} -> {la.rank(b, q)}")
    check(entries(X) == rows, "the matrix was changed")
    check(all(any(e for e in row) for row in got), "row reduction returned a zero row")


def random_array(rng, ring, members, r, c):
    q = ring.field.order
    style = rng.randrange(3)
    M = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            t = 0 if rng.random() < 0.35 else rng.randrange(1, 4)
            if style == 1 and t:  # zero divisors
                e = abstract.RingMember(ring, *members) if rng.random() < 0.5 else \
                    abstract.RingMember(ring, ring.group.identity, (q - 1, rng.choice(members)))
            else:
                e = abstract.RingMember(ring, *[(rng.randrange(1, q), rng.choice(members)) for _ in range(t)])
            M[i, j] = e
    if style == 2 and r > 1:  # dependent rows
        g = abstract.RingMember(ring, rng.choice(members), (rng.randrange(q), rng.choice(members)))
        for j in range(c):
            M[r - 1, j] = g * M[0, j]
    return abstract.RingArray(M, ring)


def arrays(ctx, fn, per):
    for name, group in groups().items():
        members = list(group.generate())
        keys = [key(m) for m in members]
        for q in (2, 3, 4, 5):
            ring = abstract.GroupRing(group, q)
            for i in range(per):
                if ctx.left() < 0:
                    return
                rng = ctx.rng(f"{name}{q}{i}")
                r, c = rng.randrange(1, 4), rng.randrange(1, 4)
                if group.order <= 4 and i % 2:
                    r, c = rng.randrange(1, 6), rng.randrange(3, 7)
                X = random_array(rng, ring, members, r, c)
                ctx.case(f"{name}-GF({q})-{i}", fn, X, keys, q)


def null_spaces(ctx):
    arrays(ctx, null_space, ctx.n(5, 40))

    def special(make):
        group = abstract.CyclicGroup(3)
        ring = abstract.GroupRing(group, 2)
        null_space(make(ring), [key(m) for m in group.generate()], 2)

    Rg = abstract.RingArray
    ctx.case("zero", special, lambda r: Rg([[r.zero, r.zero]], r))
    ctx.case("identity", special, lambda r: Rg.build(np.eye(2, dtype=int), r))
    ctx.case("no-rows", special, lambda r: Rg(np.empty((0, 2), dtype=object), r))
    ctx.case("no-columns", special, lambda r: Rg(np.empty((2, 0), dtype=object), r))


def row_reductions(ctx):
    arrays(ctx, row_reduce, ctx.n(6, 50))
    group = abstract.CyclicGroup(3)
    ring = abstract.GroupRing(group, 2)
    for shape in [(0, 2), (2, 0), (0, 0)]:
        ctx.case(f"shape-{shape}", row_reduce, abstract.RingArray(np.empty(shape, dtype=object), ring), [key(m) for m in group.generate()], 2)


def inexact(ctx):
    """without force_heuristic: semisimple rings are not supported yet, all others are reduced as before"""
    for name, group in groups().items():
        members = list(group.generate())
        keys = [key(m) for m in members]
        for q in (2, 3, 4, 5, 8, 9):
            if ctx.left() < 0:
                return
            ring = abstract.GroupRing(group, q)
            rng = ctx.rng(f"{name}{q}")

            def run():
                semisimple = len(members) % ring.field.characteristic != 0
                check(ring.is_semisimple == semisimple, "is_semisimple")
                X = random_array(rng, ring, members, 2, 2)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        row_reduce(X, keys, q, force_heuristic=False)
                        null_space(X, keys, q, force_heuristic=False)
                except NotImplementedError:
                    check(semisimple, "row reduction refused")

            ctx.case(f"{name}-GF({q})", run)


GROUPS = {"null_spaces": null_spaces, "row_reductions": row_reductions, "inexact": inexact}
GROUPS.update({g.__name__: g for g in proofs("modules", "arrays") + proofs("reduction", "null_space", "pivots", "split", "trim", "inverses")})
