"""C04: exact distances are the true minimum weights."""
import itertools
import math
import warnings

import numpy as np

from vf import derive, env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, private
from qldpc import codes
from qldpc.codes import distance as D
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600


def same(a, b):
    return (a == b) or (np.isnan(a) and np.isnan(b))


def rowspace_words(H, q):
    return la.nullspace(H, q)


@contract("qldpc.codes.distance.get_distance_classical")
def fast_classical(G, **kw):
    want = spec.min_weight_classical(G, 2)
    got = D.get_distance_classical(G, **kw)
    check(got == want, f"minimum weight {got} != {want}")


@contract("qldpc.codes.common.ClassicalCode.get_distance_exact")
def classical_distance(code, vector=None):
    q = spec.q_of(code)
    G = la.nullspace(spec.A(code.matrix), q)
    if vector is not None:
        got = code.get_distance_exact(vector=vector)
        check(got == spec.min_weight_classical(G, q, np.array(vector)), "distance from a vector")
        return
    want = spec.min_weight_classical(G, q)
    for _ in range(2):
        got = code.get_distance_exact()
        check(same(got, want), f"distance {got} != {want}")
        check(same(code.get_distance(), want), "get_distance")
    known = code.get_distance_if_known()
    check(known is None or same(known, want), "known distance")


@contract(["qldpc.codes.common.QuditCode.get_distance_exact", "qldpc.codes.common.CSSCode.get_distance_exact"])
def quantum_distance(code, order=("n", "x", "z")):
    q = spec.q_of(code)
    H = spec.A(code.matrix)
    want = {"n": spec.quantum_distance(H, q)}
    if isinstance(code, codes.CSSCode):
        want["x"] = spec.quantum_distance(H, q, 0)
        want["z"] = spec.quantum_distance(H, q, 1)
    for key in order:
        if key not in want:
            continue
        got = code.get_distance_exact() if key == "n" else code.get_distance_exact(Pauli.X if key == "x" else Pauli.Z)
        check(same(got, want[key]), f"{key} distance {got} != {want[key]}")
    for key in want:
        got = code.get_distance() if key == "n" else code.get_distance(Pauli.X if key == "x" else Pauli.Z)
        check(same(got, want[key]), f"{key} distance on second request {got} != {want[key]}")


def fast_path(ctx):
    """block lengths around multiples of the word size; every split between vectorized and looped generators"""
    lengths = [1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200, 257, 300]
    for n in lengths:
        for rep in range(ctx.n(6, 40)):
            if ctx.left() < 0:
                return
            rng = ctx.rng((n, rep))
            k = rng.randrange(1, min(n, 8) + 1)
            G = gen.matrix(rng, k, n, 2, rng.choice([0.05, 0.3, 0.5, 0.9]))
            while la.rank(G, 2) < k:
                G = gen.matrix(rng, k, n, 2, 0.5)
            bs = rng.choice([15, 1, 2, 3, 5])
            ctx.case(f"classical-n{n}-{rep}-b{bs}", lambda G=G, bs=bs: fast_classical(G, block_size=bs))
    for rep in range(ctx.n(60, 600)):
        if ctx.left() < 0:
            return
        rng = ctx.rng(("q", rep))
        n = rng.choice([1, 2, 3, 4, 5, 6, 31, 32, 33, 40, 64, 65])
        k = rng.randrange(1, min(n, 3) + 1)
        s = rng.randrange(0, min(n - k, 5) + 1)
        S = gen.random_symplectic(rng, n, 2, steps=4 * n)

        def run():
            L = np.vstack([S[:k], S[n:n + k]])
            St = S[n + k:n + k + s]
            W = la.words(np.vstack([L, St]), 2)
            coef = la.all_vectors(2 * k + s, 2)
            nontriv = coef[:, :2 * k].any(axis=1)
            want = int(la.symp_weight(W[nontriv]).min())
            for bs in (15, rng.randrange(1, 6)):
                got = D.get_distance_quantum(L, St, block_size=bs)
                check(got == want, f"block size {bs}: distance {got} != {want}")
            wx = W[:, :n]
            if St.any() and not St[:, n:].any() and not L[:, n:].any():
                check(D.get_distance_quantum(L[:, :n], St[:, :n], homogeneous=True) == np.count_nonzero(wx[nontriv], axis=1).min(), "homogeneous")
        ctx.case(f"quantum-{rep}-n{n}-k{k}-s{s}", run)


@contract("qldpc.codes.distance weight kernels")
def kernels_once(vals):
    ref = np.array([bin(v).count("1") for v in vals])
    sref = np.array([sum(((v >> 2 * i) & 3) != 0 for i in range(32)) for v in vals])
    a = np.array(vals, dtype=np.uint)
    for name, want in (("_hamming_weight", ref), ("_symplectic_weight", sref)):
        fn = private(D, name)
        check(np.array_equal(np.asarray(fn(a.copy()), dtype=int), want), name)
        one = private(D, name + "_single")
        check([int(one(np.uint(v))) for v in vals] == want.tolist(), name + "_single")
    for name, want in (("_get_hamming_weight_fn", ref), ("_get_symplectic_weight_fn", sref)):
        fn, nbuf = private(D, name)()
        bufs = [np.empty_like(a) for _ in range(nbuf)]
        check(np.array_equal(np.asarray(fn(a.copy(), *bufs, out=np.empty_like(a)), dtype=int), want), name)


def kernels(ctx):
    rng = ctx.rng()
    vals = [0, 1, 2, 3, 2**63, 2**64 - 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA] + [rng.getrandbits(64) for _ in range(ctx.n(200, 5000))]
    vals += [1 << i for i in range(64)] + [(1 << i) - 1 for i in range(64)]
    ctx.case("kernels", lambda: kernels_once(vals))


def classical(ctx):
    for i in range(ctx.n(220, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5]), rng.randrange(1, 9)
        if q > 2:
            n = min(n, 5)
        H = gen.matrix(rng, rng.randrange(1, n + 2), n, q)

        def run():
            warnings.simplefilter("ignore")
            code = codes.ClassicalCode(gen.gf(H, q))
            v = [rng.randrange(q) for _ in range(n)]
            if i % 2:
                classical_distance(code)
                classical_distance(code, v)
            else:
                classical_distance(code, v)
                code.generator
                classical_distance(code)
                classical_distance(code, gen.gf(v, q))
            fresh = codes.ClassicalCode(gen.gf(gen.redundant(rng, H, q), q))
            classical_distance(fresh)
        ctx.case(f"classical-{i}-q{q}-n{n}", run)


def quantum(ctx):
    for i in range(ctx.n(220, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 2, 3, 4])
        n = rng.randrange(1, 7 if q == 2 else 4)
        kind = i % 4

        def run():
            warnings.simplefilter("ignore")
            if kind == 0:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q))
            elif kind == 1:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_stabilizer(rng, n, q)])
            elif kind == 2:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_subsystem(rng, n, q)])
            else:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_any(rng, n, q)])
            order = list("nxz")
            rng.shuffle(order)
            quantum_distance(code, order)
        ctx.case(f"quantum-{i}-{kind}-q{q}-n{n}", run)


def light_operators(n, q, w):
    for sites in itertools.combinations(range(n), w):
        for vals in itertools.product(range(1, q), repeat=w - 1):
            yield sites, (1, *vals)


def sector_distance(H, q, n, pauli, limit):
    """Least weight of a dressed logical X- or Z-type operator, or None if the search takes more than `limit` candidates."""
    S, L = spec.stab_space(H, q), la.symp_complement(H, q)
    half = slice(n, None) if pauli is Pauli.X else slice(0, n)
    S, L = np.asarray(S)[:, half], np.asarray(L)[:, half]
    if len(la.symp_complement(H, q)) == len(spec.stab_space(H, q)):
        return None
    for w in range(1, n + 1):
        limit -= math.comb(n, w) * (q - 1) ** (w - 1)
        if limit < 0:
            return None
        for sites, vals in light_operators(n, q, w):
            v = np.array(vals)[:, None]
            cols = list(sites)
            if not la.matmul(S[:, cols], v, q).any() and la.matmul(L[:, cols], v, q).any():
                return w
    return None


@contract(["qldpc.codes.common.CSSCode.get_distance", "qldpc.codes.common.CSSCode.get_distance_exact"])
def css_sector_distances(make):
    code = make()
    q, n = spec.q_of(code), len(code)
    H = spec.A(code.matrix)
    want = {p: sector_distance(H, q, n, p, 12_000) for p in (Pauli.X, Pauli.Z)}
    known = [p for p, d in want.items() if d is not None]
    if not known:
        raise Skip("too large for the search by weight")
    for p in known:
        got = make().get_distance(p)
        check(got == want[p], lambda: f"get_distance({p}) = {got} of a fresh code, but the distance is {want[p]}")
    if len(known) == 2:
        got = make().get_distance()
        check(got == min(want.values()), lambda: f"get_distance() = {got} of a fresh code, but the distance is {min(want.values())}")


def sectors(ctx):
    """named CSS codes that are too large for the exhaustive oracle: search for dressed logical operators by weight"""
    for label, make in families.named_quantum().items():
        code = make()
        q, n = spec.q_of(code), len(code)
        if isinstance(code, codes.CSSCode) and (2 * n - len(spec.stab_space(spec.A(code.matrix), q))) * np.log2(q) > 15:
            cheap = getattr(code, "_distance_x", None) is not None and getattr(code, "_distance_z", None) is not None
            if cheap or n <= 18:
                ctx.case(label, css_sector_distances, make, limit=60)


def named(ctx):
    for label, make in families.named_quantum().items():
        def run(make=make):
            warnings.simplefilter("ignore")
            code = make()
            q, n = spec.q_of(code), len(code)
            H = spec.A(code.matrix)
            S = spec.stab_space(H, q)
            if (2 * n - len(S)) * np.log2(q) > 15:
                raise Skip("too large for the exhaustive oracle")
            quantum_distance(code)
        ctx.case(label, run)


STACKABLE = {
    "Steane": lambda: codes.SteaneCode(), "surface(2,2)": lambda: codes.SurfaceCode(2, 2), "surface(2,3)": lambda: codes.SurfaceCode(2, 3),
    "surface(3,1)": lambda: codes.SurfaceCode(3, 1), "planar(2,1)": lambda: codes.SurfaceCode(2, 1, rotated=False), "repetition": lambda: codes.CSSCode([[0, 0]], [[1, 1]]),
    "Bacon-Shor(1,2)": lambda: codes.BaconShorCode(1, 2), "iceberg": lambda: codes.IcebergCode(2), "ternary": lambda: codes.CSSCode([[1, 1, 1]], [[1, 2, 0]], 3),
    "ternary surface": lambda: codes.SurfaceCode(1, 2, field=3), "hypergraph": lambda: codes.HGPCode(codes.RepetitionCode(2)),
}


def stacks(ctx):
    """distances of stacks of codes with equal and different X and Z distances, some of them known in advance, asked for in every order"""
    for (la_, make_a), (lb, make_b) in itertools.product(STACKABLE.items(), repeat=2):
        if make_a().field is not make_b().field or len(make_a()) + len(make_b()) > 11:
            continue

        def run(make_a=make_a, make_b=make_b):
            warnings.simplefilter("ignore")
            for order in ("nxz", "xzn", "zxn") if len(make_a()) + len(make_b()) > 7 else map("".join, itertools.permutations("nxz")):
                quantum_distance(codes.CSSCode.stack(make_a(), make_b()), order)
        ctx.case(f"{la_} {lb}", run)


def histories(ctx):
    """codes obtained by sequences of operations, with queries in between"""
    for i in range(ctx.n(160, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 2, 3])

        def run():
            code, _ = derive.derived(rng, q, 6 if q == 2 else 4)
            order = list("nxz")
            rng.shuffle(order)
            quantum_distance(code, order)
        ctx.case(f"history-{i}-q{q}", run)


GROUPS = [fast_path, kernels, classical, quantum, named, sectors, stacks, histories] + proofs('distances', 'kernels', 'enumeration', 'methods')
